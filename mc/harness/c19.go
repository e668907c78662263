package main

import (
	"fmt"
	"time"

	"github.com/fwhezfwhez/tcpx"
	"verifmc/vs"
)

// C19: deadlines.

func init() {
	register(&Prop{
		ID:          "C19",
		Assumptions: []string{"virtual time; a deadline is observed within half a second of virtual time", "stream connections (tcp, unix, raw)"},
		Scenarios: []*Scenario{
			{
				Name: "server", Desc: "all combinations of SetDeadline, SetReadDeadline, SetWriteDeadline in {none, 5 s, 10 s}: when an idle connection ends, which replies can be written, and how clients fare that connect after a deadline",
				N: n(27*3, 27*3), Run: c19server,
				Label: func(c int) string { return fmt.Sprint(c19of(c)) },
				Specs: specs(pol(Spec{D: 1}), pol(Spec{D: 1, Fine: true}, Spec{D: 2, Shards: 2})),
			},
			{
				Name: "context", Desc: "a handler or OnConnect changes the deadlines of its own connection: all single and double changes",
				N: n(54, 54), Run: c19ctx,
				Specs: specs(pol(Spec{D: 1}), pol(Spec{D: 1, Fine: true}, Spec{D: 2})),
			},
			{
				Name: "slow", Desc: "messages of 20 bytes to 3 MB sent in pieces, singly or as a batch, and replies read in pieces, hours or seconds apart, with and without deadlines, on framed and raw endpoints and over unix sockets",
				N: n(len(c19slows)*3*2*2*3, len(c19slows)*3*2*2*3), Run: c19slow, Steps: 3000000,
				Label: func(c int) string { return fmt.Sprintf("%+v", c19slowOf(c)) },
				Specs: specs(pol(Spec{D: 0}), pol(Spec{D: 0}, Spec{D: 1})),
			},
		},
	})
}

var c19slows = []int{20, 5000, 70000, 1 << 20, 3 << 20}

type c19s struct {
	size  int
	mode  string
	dead  time.Duration // for both directions, 0 none
	reply bool
	gap   time.Duration
}

func c19slowOf(c int) c19s {
	return c19s{
		size:  c19slows[c%len(c19slows)],
		mode:  []string{"tcp", "batch", "unix"}[c/len(c19slows)%3],
		dead:  []time.Duration{0, 5 * time.Second}[c/len(c19slows)/3%2],
		reply: c/len(c19slows)/6%2 == 1,
		gap:   []time.Duration{2 * time.Second, 45 * time.Second, 3 * time.Hour}[c/len(c19slows)/12],
	}
}

func c19slow(t *T, cfg int) {
	k := c19slowOf(cfg)
	srv := newSrv()
	if k.dead > 0 {
		srv.SetDeadline(vs.Now().Add(k.dead))
	}
	var res bag
	body := pad("b", k.size)
	closes := 0
	srv.OnClose = func(c *tcpx.Context) {
		if !off() {
			closes++
		}
	}
	var failed time.Time
	srv.AddHandler(1, func(c *tcpx.Context) {
		if off() {
			return
		}
		if !k.reply {
			res.add("%v", bodyOf(c) == body)
			return
		}
		e := c.JSON(2, body)
		if !off() {
			res.add("%v", e == nil)
			failed = vs.Now()
		}
	})
	network, a := "tcp", addr
	if k.mode == "unix" {
		network, a = "unix", "/tmp/verif-never-created.sock"
	}
	serve(srv, network, a)
	start := vs.Now()
	c := dial(network, a)
	m := msg(1, body)
	if k.reply {
		m = msg(1, "x")
		vs.SetWindow(k.size/3 + 10)
	}
	num := 1
	if k.mode == "batch" {
		num = 2
		m = append(hdrFrame(1, pipeHdr(`"enable;2"`), string([]string{body, "x"}[map[bool]int{true: 1}[k.reply]])), m...)
	}
	var got []byte
	if k.reply {
		c.Write(m)
		for i := 0; i < 20; i++ {
			vs.WaitIdle()
			if k.dead == 0 {
				got = append(got, c.Drain()...)
			}
			vs.Sleep(k.gap)
		}
	} else {
		for i := 0; i < 4; i++ {
			c.Write(m[i*len(m)/4 : (i+1)*len(m)/4])
			vs.WaitIdle()
			if i < 3 {
				vs.Sleep(k.gap)
			}
		}
	}
	vs.WaitIdle()
	t.Outcome("%s %d", res.sorted(), closes)
	all := "true"
	if num == 2 {
		all = "true,true"
	}
	switch {
	case k.dead == 0:
		if res.sorted() != all || closes != 0 {
			t.Fail("%+v, no deadline: transfers succeeded: %s, want %s; OnClose ran %d times", k, res.sorted(), all, closes)
			return
		}
		if k.reply {
			if fs, ok := parse(got); !ok || len(fs) != num || fs[0].Str() != body || fs[num-1].Str() != body {
				t.Fail("%+v, no deadline: %d bytes of the replies arrived, whole: %v", k, len(got), ok)
			}
		}
	case k.reply:
		if len(res.l) != num || res.l[num-1] != "false" || failed.Sub(start) < k.dead || failed.Sub(start) > k.dead+time.Second/2 {
			t.Fail("%+v: with replies of %d bytes not read, the writes succeeded: %s, the last ended after %v", k, k.size, res.seq(), failed.Sub(start))
		}
	default:
		want := ""
		if num == 2 && k.gap == 2*time.Second {
			want = "true" // the batch's first message came whole
		}
		if closes != 1 || !c.PeerClosed() || res.sorted() != want {
			t.Fail("%+v: a message still incomplete at the deadline: handled %s, want %s; OnClose ran %d times", k, res.sorted(), want, closes)
		}
	}
}

var c19t = []time.Duration{0, 5 * time.Second, 10 * time.Second}

type c19c struct{ d, r, w, mode int }

func (c c19c) String() string {
	return fmt.Sprintf("deadline %v, read %v, write %v, %s", c19t[c.d], c19t[c.r], c19t[c.w], []string{"tcp", "raw", "unix"}[c.mode])
}

func c19of(c int) c19c { return c19c{c % 3, c / 3 % 3, c / 9 % 3, c / 27} }

func never(d time.Duration) time.Duration {
	if d == 0 {
		return 1000 * time.Hour
	}
	return d
}

func pickD(specific, common time.Duration) time.Duration {
	if specific != 0 {
		return specific
	}
	return never(common)
}

func c19server(t *T, cfg int) {
	k := c19of(cfg)
	srv := newSrv()
	at := func(d time.Duration) time.Time { return vs.Now().Add(d) }
	if k.d > 0 {
		srv.SetDeadline(at(c19t[k.d]))
	}
	if k.r > 0 {
		srv.SetReadDeadline(at(c19t[k.r]))
	}
	if k.w > 0 {
		srv.SetWriteDeadline(at(c19t[k.w]))
	}
	rd, wd := pickD(c19t[k.r], c19t[k.d]), pickD(c19t[k.w], c19t[k.d])
	closes := 0
	srv.OnClose = func(c *tcpx.Context) {
		if !off() {
			closes++
		}
	}
	var res bag
	srv.AddHandler(1, func(c *tcpx.Context) {
		e := c.JSON(2, bodyOf(c))
		res.add("%v", e == nil)
	})
	srv.HandleRaw = func(c *tcpx.Context) {
		b := make([]byte, 64)
		for {
			n, e := c.ConnReader.Read(b)
			if n > 0 {
				_, e := c.ConnWriter.Write(b[:n])
				res.add("%v", e == nil)
			}
			if e != nil {
				return
			}
		}
	}
	network, a := "tcp", addr
	if k.mode == 2 {
		network, a = "unix", "/tmp/verif-never-created.sock"
	}
	if k.mode == 1 {
		serveRaw(srv, network, a)
	} else {
		serve(srv, network, a)
	}
	idle, busy := dial(network, a), dial(network, a)
	sent, lates := 0, 0
	check := func(now time.Duration) bool {
		wantClosed := now > rd
		if idle.PeerClosed() != wantClosed || busy.PeerClosed() != wantClosed {
			t.Fail("%v: after %v the idle connection is closed: %v, the busy one: %v, want %v", k, now, idle.PeerClosed(), busy.PeerClosed(), wantClosed)
			return false
		}
		return true
	}
	vs.Sleep(time.Second / 2)
	for now := time.Second / 2; now < 13*time.Second; now += time.Second {
		vs.WaitIdle()
		if !check(now) {
			return
		}
		if now < rd {
			// a message arrives: its reply can be written until the write deadline
			busy.Drain()
			before := len(res.l)
			if k.mode == 1 {
				busy.Write([]byte("raw"))
			} else {
				busy.Write(msg(1, "m"))
			}
			sent++
			vs.WaitIdle()
			want := now < wd
			got := len(busy.Drain()) > 0
			if len(res.l) != before+1 || (res.l[before] == "true") != want || got != want {
				t.Fail("%v: after %v a handler's write reported success %v and its bytes arrived: %v, want %v", k, now, res.l[before:], got, want)
				return
			}
		}
		// a client that connects now, before or after the deadlines
		if now == 5500*time.Millisecond || now == 10500*time.Millisecond {
			before := len(res.l)
			l := dial(network, a)
			if l == nil {
				t.Fail("%v: after %v the server refuses connections", k, now)
				return
			}
			lates++
			if k.mode == 1 {
				l.Write([]byte("raw"))
			} else {
				l.Write(msg(1, "m"))
			}
			vs.WaitIdle()
			got := len(l.Drain()) > 0
			switch {
			case now > rd:
				if !l.PeerClosed() || len(res.l) != before || got {
					t.Fail("%v: a client that connects after %v: closed %v, handler's writes %v, bytes arrived %v", k, now, l.PeerClosed(), res.l[before:], got)
					return
				}
			case l.PeerClosed() || len(res.l) != before+1 || (res.l[before] == "true") != (now < wd) || got != (now < wd):
				t.Fail("%v: a client that connects after %v: closed %v, handler's writes %v, bytes arrived %v, want %v", k, now, l.PeerClosed(), res.l[before:], got, now < wd)
				return
			}
			l.Close()
		}
		vs.Sleep(time.Second)
	}
	vs.WaitIdle()
	t.Outcome("%d messages, %d closes", sent, closes)
	if want := lates + map[bool]int{true: 2, false: 0}[rd < 13*time.Second]; closes != want {
		t.Fail("%v: OnClose ran %d times, want %d", k, closes, want)
	}
}

// c19ctx: the server has deadline c19t[d] at first; a handler on one of two
// connections changes deadlines of its own connection.
func c19ctx(t *T, cfg int) {
	srv := newSrv()
	base := c19t[cfg%3]
	start := vs.Now()
	rd, wd := never(base), never(base)
	// the server's own deadline: one for both directions, or one per direction
	if base > 0 {
		if cfg/27 == 0 {
			srv.SetDeadline(vs.Now().Add(base))
		} else {
			srv.SetReadDeadline(vs.Now().Add(base))
			srv.SetWriteDeadline(vs.Now().Add(base + 2*time.Second))
			wd = base + 2*time.Second
		}
	}
	brd, bwd := rd, wd
	kinds := []int{cfg / 3 % 3}
	second := cfg / 9 % 3
	if second < 2 {
		kinds = append(kinds, 1+second)
	}
	inConnect := vs.Choose(2) == 1
	val := vs.Choose(3) // 0: removed, 1: +7 s, 2: +3 s
	var tm time.Time
	d := time.Duration(0)
	if val > 0 {
		d = []time.Duration{0, 7 * time.Second, 3 * time.Second}[val]
		tm = start.Add(d)
	}
	apply := func(c *tcpx.Context) {
		for _, k := range kinds {
			var e error
			switch k {
			case 0:
				e = c.SetDeadline(tm)
			case 1:
				e = c.SetReadDeadline(tm)
			case 2:
				e = c.SetWriteDeadline(tm)
			}
			if e != nil {
				t.Fail("setting a deadline: %v", e)
			}
		}
	}
	for _, k := range kinds {
		if k != 2 {
			rd = never(d)
		}
		if k != 1 {
			wd = never(d)
		}
	}
	srv.OnConnect = func(c *tcpx.Context) {
		if connNum(c) == 1 && inConnect {
			apply(c)
		}
	}
	var res bag
	srv.AddHandler(1, func(c *tcpx.Context) { res.add("%v", c.JSON(2, bodyOf(c)) == nil) })
	srv.AddHandler(3, apply)
	serve(srv, "tcp", addr)
	a := dial("tcp", addr)
	vs.WaitIdle()
	b := dial("tcp", addr)
	vs.WaitIdle()
	if !inConnect {
		a.Write(msg(3, ""))
		vs.WaitIdle()
	}
	vs.Sleep(time.Second / 2)
	for now := time.Second / 2; now < 13*time.Second; now += time.Second {
		vs.WaitIdle()
		if a.PeerClosed() != (now > rd) || b.PeerClosed() != (now > brd) {
			t.Fail("server deadline %v, changes %v to %v (in OnConnect %v): after %v the connection is closed: %v, the other one: %v", base, kinds, d, inConnect, now, a.PeerClosed(), b.PeerClosed())
			return
		}
		for i, c := range []*vs.VConn{a, b} {
			r, w := rd, wd
			if i == 1 {
				r, w = brd, bwd
			}
			if now > r {
				continue
			}
			c.Drain()
			n := len(res.l)
			c.Write(msg(1, "m"))
			vs.WaitIdle()
			if got := len(c.Drain()) > 0; got != (now < w) || len(res.l) != n+1 || (res.l[n] == "true") != (now < w) {
				t.Fail("server deadline %v, changes %v to %v (in OnConnect %v): after %v a reply on connection %d arrived: %v", base, kinds, d, inConnect, now, i, got)
				return
			}
		}
		vs.Sleep(time.Second)
	}
	t.Outcome("%v %v", rd, wd)
}
