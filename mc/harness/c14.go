package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/fwhezfwhez/tcpx"
	"verifmc/vs"
)

// C14: auth.

func init() {
	register(&Prop{
		ID:          "C14",
		Assumptions: []string{"virtual time; whether a pass in the very instant of the deadline counts is not specified"},
		Scenarios: []*Scenario{
			{
				Name: "timelines", Desc: "per slot each of two connections does nothing, is passed, is denied, or sends an ordinary message; observed after every slot; with and without a user name, the pool, heartbeats and signals",
				N: n(4, 4), Run: func(t *T, cfg int) { c14time(t, cfg, map[string]int{"quick": 3, "thorough": 4}[t.tier]) },
				Specs: specs([]Spec{{D: 0}}, pol(Spec{D: 0})),
			},
			{
				Name: "durations", Desc: "deadlines from a microsecond to days, networks, with and without heartbeats: a silent connection, one passed and one denied just before the deadline",
				N: n(len(c13durs)*len(c13ids), len(c13durs)*len(c13ids)), Run: c14dur,
				Label: func(c int) string { return fmt.Sprint(c13durs[c/len(c13ids)], ", id ", c13ids[c%len(c13ids)]) },
				Specs: specs(pol(Spec{D: 0}), pol(Spec{D: 1})),
			},
			{
				Name: "same-instant", Desc: "auth results that arrive in the instant of the deadline; all schedules",
				N: n(4, 4), Run: c14same,
				Label: func(c int) string { return []string{"deny", "pass, nothing else", "two denies", "message"}[c] },
				Specs: specs(pol(Spec{D: 2}), pol(Spec{D: 1, Fine: true}, Spec{D: 3, Shards: 4})),
			},
			{
				Name: "schedules", Desc: "auth results and disconnects under all schedules",
				N: n(len(c14sch), len(c14sch)), Run: c14sched,
				Label: func(c int) string { return c14sch[c] },
				Specs: specs(pol(Spec{D: 1, Fine: true}, Spec{D: 2}), pol(Spec{D: 2, Fine: true, Shards: 8}, Spec{D: 3, Shards: 8})),
			},
		},
	})
}

const authD = 10 * time.Second

func c14srv(through bool) (*tcpx.TcpX, *bag, *bag) {
	srv := newSrv()
	closes, calls := &bag{}, &bag{}
	srv.OnConnect = func(c *tcpx.Context) { c.SetCtxPerConn("n", connNum(c)-1) }
	srv.OnClose = func(c *tcpx.Context) {
		v, _ := c.GetCtxPerConn("n")
		closes.add("%v", v)
	}
	srv.WithAuthDetail(true, authD, through, 60, func(c *tcpx.Context) {
		calls.add("%s", bodyOf(c))
		at := vs.Elapsed()
		switch bodyOf(c) {
		case "pass":
			c.RecvAuthPass()
		case "deny":
			c.RecvAuthDeny()
		case "pass2":
			for i := 0; i < 4; i++ {
				c.RecvAuthPass()
			}
		case "mixed":
			c.RecvAuthPass()
			for i := 0; i < 100; i++ {
				c.RecvAuthDeny()
				c.RecvAuthPass()
			}
		}
		if vs.Elapsed() == at {
			calls.add("end")
		}
	})
	srv.AddHandler(1, func(c *tcpx.Context) { c.JSON(2, bodyOf(c)) })
	return srv, closes, calls
}

const hbID = 1234

// c14same: in the instant of the deadline a denied connection ends anyway; a
// passed one either ends then or lives on for good, and no other is affected.
func c14same(t *T, cfg int) {
	srv, closes, calls := c14srv(false)
	serve(srv, "tcp", addr)
	a := dial("tcp", addr)
	vs.Sleep(1)
	b := dial("tcp", addr)
	vs.WaitIdle()
	vs.GoNamed("client", func() {
		vs.Sleep(authD - 1)
		switch cfg {
		case 0:
			a.Write(msg(60, "deny"))
		case 1:
			a.Write(msg(60, "pass"))
		case 2:
			a.Write(append(msg(60, "deny"), msg(60, "deny")...))
		case 3:
			a.Write(msg(1, "x"))
		}
	})
	vs.GoNamed("other", func() {
		vs.Sleep(authD - 1)
		b.Write(msg(60, "pass"))
	})
	vs.Sleep(authD - 1)
	vs.WaitIdle()
	open := !a.Peer().IsClosed()
	t.Outcome("%v %d", open, len(calls.l))
	if open && cfg != 1 {
		t.Fail("a connection that was not passed is open at the deadline")
		return
	}
	vs.Sleep(10 * authD)
	vs.WaitIdle()
	want := "0"
	if open {
		want = ""
	}
	if a.Peer().IsClosed() == open || b.Peer().IsClosed() || closes.sorted() != want {
		t.Fail("later: first connection closed %v (at the deadline %v), the passed one closed %v, OnClose for %q", a.Peer().IsClosed(), !open, b.Peer().IsClosed(), closes.sorted())
	}
}

func c14dur(t *T, cfg int) {
	d, id := c13durs[cfg/len(c13ids)], c13ids[cfg%len(c13ids)]
	srv := newSrv()
	var closed bag
	srv.OnConnect = func(c *tcpx.Context) { c.SetCtxPerConn("n", connNum(c)) }
	srv.OnClose = func(c *tcpx.Context) { v, _ := c.GetCtxPerConn("n"); closed.add("%v", v) }
	srv.WithAuthDetail(true, d, cfg%2 == 1, id, func(c *tcpx.Context) {
		if bodyOf(c) == "pass" {
			c.RecvAuthPass()
		} else {
			c.RecvAuthDeny()
		}
	})
	e := c23nets[cfg%len(c23nets)]
	beats := cfg/3%2 == 1 && id != hbID
	if beats {
		srv.HeartBeatModeDetail(true, d/4, false, hbID)
	}
	serve(srv, e.network, e.addr)
	var cs []*vs.VConn
	for i := 0; i < 3; i++ {
		cs = append(cs, dial(e.network, e.addr))
		vs.WaitIdle()
	}
	sleep := func(x time.Duration) { // sending heartbeats
		for x > 0 {
			k := x
			if beats && k > d/2 {
				k = d / 2
			}
			vs.Sleep(k)
			x -= k
			if !beats {
				continue
			}
			for _, c := range cs {
				if !c.Peer().IsClosed() {
					c.Write(tcpx.PackStuff(hbID))
				}
			}
			vs.WaitIdle()
		}
	}
	look := func(want string) bool {
		vs.WaitIdle()
		got := ""
		for i, c := range cs {
			if c.Peer().IsClosed() {
				got += fmt.Sprint(i+1, ",")
			}
		}
		if got != want || sortedJoin(closed.l) != strings.Trim(want, ",") {
			t.Fail("deadline %v, id %d, after %v: closed connections %q, OnClose for %q, want %q (1 silent, 2 passed, 3 denied)", d, id, vs.Elapsed(), got, sortedJoin(closed.l), want)
			return false
		}
		return true
	}
	sleep(d - 1)
	if !look("") {
		return
	}
	cs[1].Write(msg(id, "pass"))
	cs[2].Write(msg(id, "deny"))
	if !look("3,") {
		return
	}
	sleep(1)
	if !look("1,3,") {
		return
	}
	sleep(4 * d)
	look("1,3,")
	t.Outcome("%s", closed.seq())
}

func c14time(t *T, cfg, slots int) {
	srv, closes, _ := c14srv(cfg == 1 || cfg == 3)
	if cfg >= 2 {
		srv.WithBuiltInPool(true).WithBroadCastSignal(true).HeartBeatMode(true, 100*authD)
		f := srv.OnConnect
		srv.OnConnect = func(c *tcpx.Context) {
			f(c)
			v, _ := c.GetCtxPerConn("n")
			c.Online(fmt.Sprint("user", v))
		}
	}
	serve(srv, "tcp", addr)
	type st struct {
		c      *vs.VConn
		at     time.Duration
		state  string // "", pass, closed
		echoes int
	}
	var cs [2]st
	var desc []string
	for i := range cs {
		cs[i].c = dial("tcp", addr)
		cs[i].at = vs.Elapsed()
		vs.WaitIdle()
		vs.Sleep(time.Second)
	}
	obs := func() bool {
		vs.WaitIdle()
		for i := range cs {
			k := &cs[i]
			if k.state == "" && vs.Elapsed() >= k.at+authD {
				k.state = "closed"
			}
			if k.c.PeerClosed() != (k.state == "closed") || k.c.Peer().IsClosed() != (k.state == "closed") {
				t.Fail("events %v: %v after connecting, connection %d (%q) is closed: %v", desc, vs.Elapsed()-k.at, i, k.state, k.c.PeerClosed())
				return false
			}
			if fs, ok := replies(k.c); !ok || len(fs) != k.echoes {
				t.Fail("events %v: connection %d received %d replies, want %d", desc, i, len(fs), k.echoes)
				return false
			}
		}
		return true
	}
	step := authD * 9 / 20
	for s := 0; s < slots; s++ {
		vs.Sleep(step)
		if !obs() {
			return
		}
		for i := range cs {
			k := &cs[i]
			if k.state == "closed" {
				continue
			}
			switch vs.Choose(4) {
			case 1:
				k.c.Write(msg(60, "pass"))
				k.state = "pass"
				desc = append(desc, fmt.Sprintf("%d pass@%d", i, s))
			case 2:
				k.c.Write(msg(60, "deny"))
				if k.state == "" {
					k.state = "closed"
				}
				desc = append(desc, fmt.Sprintf("%d deny@%d", i, s))
			case 3:
				k.c.Write(msg(1, "x"))
				k.echoes++
				desc = append(desc, fmt.Sprintf("%d msg@%d", i, s))
			}
			if !obs() {
				return
			}
		}
	}
	for i := range cs { // observed just before and at the deadline
		if d := cs[i].at + authD - 1 - vs.Elapsed(); d > 0 {
			vs.Sleep(d)
			if !obs() {
				return
			}
			vs.Sleep(1)
			if !obs() {
				return
			}
		}
	}
	vs.Sleep(5 * authD)
	if !obs() {
		return
	}
	nc := 0
	for i := range cs {
		if cs[i].state == "closed" {
			nc++
			if closes.count(fmt.Sprint(i)) != 1 {
				t.Fail("events %v: OnClose %v", desc, closes.l)
				return
			}
		}
	}
	t.Outcome("%v", desc)
	if len(closes.l) != nc {
		t.Fail("events %v: OnClose %v", desc, closes.l)
	}
}

var c14sch = []string{"pass", "deny", "pass four times by the handler", "pass in two messages", "nothing", "pass and client closes", "deny and client closes", "pass on one, deny on the other", "pass, then denies and passes, by the handler", "pass in OnConnect", "deny in OnConnect", "pass among heartbeats", "deny among heartbeats"}

func c14sched(t *T, cfg int) {
	srv, closes, calls := c14srv(false)
	if f := srv.OnConnect; cfg == 9 || cfg == 10 {
		srv.OnConnect = func(c *tcpx.Context) {
			f(c)
			if off() {
				return
			}
			if cfg == 9 {
				c.RecvAuthPass()
			} else {
				c.RecvAuthDeny()
			}
		}
	}
	if cfg == 11 || cfg == 12 {
		srv.HeartBeatMode(true, time.Hour)
	}
	serve(srv, "tcp", addr)
	a := dial("tcp", addr)
	vs.WaitIdle()
	before := len(vs.LiveServerThreads())
	var b *vs.VConn
	w := func(c *vs.VConn, s ...string) {
		vs.GoNamed("client", func() {
			for _, x := range s {
				if x == "close" {
					c.Close()
				} else {
					c.Write(msg(60, x))
				}
			}
		})
	}
	aClosed, bClosed := false, false
	switch cfg {
	case 0:
		w(a, "pass")
	case 1:
		w(a, "deny")
		aClosed = true
	case 2:
		w(a, "pass2")
	case 3:
		w(a, "pass", "pass")
	case 8:
		w(a, "mixed")
	case 5:
		w(a, "pass", "close")
		aClosed = true
	case 6:
		w(a, "deny", "close")
		aClosed = true
	case 10:
		aClosed = true
	case 11, 12:
		aClosed = cfg == 12
		vs.GoNamed("client", func() {
			hb := tcpx.PackHeartbeat()
			m := append(append([]byte{}, hb...), msg(60, []string{"pass", "deny"}[cfg-11])...)
			a.Write(append(append(m, hb...), hb...))
		})
	case 7:
		b = dial("tcp", addr)
		w(a, "pass")
		w(b, "deny")
		bClosed = true
	}
	vs.WaitIdle()
	t.Outcome("%s|%s", closes.seq(), calls.seq())
	chk := func(when string) bool {
		if a.Peer().IsClosed() != aClosed || (b != nil && b.Peer().IsClosed() != bClosed) {
			t.Fail("%s: first connection closed: %v, want %v; second: %v, want %v", when, a.Peer().IsClosed(), aClosed, b != nil && b.Peer().IsClosed(), bClosed)
			return false
		}
		n := 0
		if aClosed {
			n++
		}
		if bClosed {
			n++
		}
		if len(closes.l) != n {
			t.Fail("%s: OnClose ran for %v", when, closes.l)
			return false
		}
		return true
	}
	if !chk("at once") {
		return
	}
	vs.Sleep(authD)
	vs.WaitIdle()
	if cfg == 4 {
		aClosed = true
	}
	if !chk("after the deadline") {
		return
	}
	if n := calls.count("end"); 2*n != len(calls.l) {
		t.Fail("auth handlers ran: %v, and %d of them returned at once", calls.l, n)
		return
	}
	if l := vs.LiveServerThreads(); len(l) > before {
		t.Fail("goroutines remain although the auth results are in or the deadline has passed: %v", l)
	}
}
