package main

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"github.com/fwhezfwhez/tcpx"
	"verifmc/vs"
)

// C20: datagram endpoints.

var c20nets = []ep{
	{"udp", ":71", ""},
	{"udp4", ":71", ""},
	{"udp6", ":71", ""},
	{"unixgram", "/tmp/verif-never-created.gram", ""},
	{"udp", ":71", "buf"},
}

func init() {
	register(&Prop{
		ID:          "C20",
		Assumptions: []string{"the network delivers every datagram, each sender's in order (the socket queue never overflows)", "user handlers do not panic", "no read deadline is set on a datagram endpoint"},
		Scenarios: []*Scenario{
			{
				Name: "two-clients", Desc: "two clients send two datagrams each; every datagram is dispatched once with its own content and answered to its sender",
				N: n(len(c20nets)*2, len(c20nets)*2), Run: c20two,
				Label: func(c int) string { return fmt.Sprint(c20nets[c/2], c%2) },
				Specs: specs(pol(Spec{D: 1, Fine: true}, Spec{D: 2}), pol(Spec{D: 2, Fine: true, Shards: 4}, Spec{D: 3, Shards: 4})),
			},
			{
				Name: "waiting", Steps: 3000000, Desc: "handlers that wait until the last of up to 1200 datagrams, of one client or of many, is handled",
				N: n(len(c20waits)*len(c20nets), len(c20waits)*len(c20nets)), Run: c20waiting,
				Label: func(c int) string { return fmt.Sprint(c20nets[c%len(c20nets)], c20waits[c/len(c20nets)]) },
				Specs: specs(pol(Spec{D: 0}), pol(Spec{D: 0})),
			},
			{
				Name: "hostile", Desc: "every malformed datagram of a catalogue between good ones of another client",
				N: n(len(c04atks)+4, len(c04atks)+4), Run: c20hostile,
				Label: func(c int) string {
					if c < len(c04atks) {
						return c04atks[c].name
					}
					return fmt.Sprint("size ", c-len(c04atks))
				},
				Specs: specs(pol(Spec{D: 1}), pol(Spec{D: 1, Fine: true}, Spec{D: 2})),
			},
			{
				Name: "features", Desc: "heartbeat, auth, signals and pool are on as well: the endpoint serves on as time passes and nothing remains of the datagrams",
				N: n(len(c20nets), len(c20nets)), Run: c20features,
				Label: func(c int) string { return c20nets[c].String() },
				Specs: specs(pol(Spec{D: 1, Fine: true}), pol(Spec{D: 2, Fine: true, Shards: 4}, Spec{D: 3, Shards: 4})),
			},
			{
				Name: "sizes", Desc: "datagrams around the buffer size, default and configured",
				N: n(2, 2), Run: c20sizes,
				Specs: specs([]Spec{{D: 0}}, pol(Spec{D: 1})),
			},
		},
	})
}

func dialDG(e ep) *vs.VDialed {
	c, err := vs.Dial(e.network, e.addr)
	if err != nil {
		return nil
	}
	return c.(*vs.VDialed)
}

// got returns the messages a datagram client received, one per datagram.
func dgrams(d *vs.VDialed) []string {
	var l []string
	for _, b := range d.TakeDatagrams() {
		fs, ok := parse(b)
		if !ok || len(fs) != 1 {
			l = append(l, fmt.Sprintf("!%x", b))
			continue
		}
		l = append(l, fmt.Sprintf("%d:%s", fs[0].ID, fs[0].Str()))
	}
	return l
}

func c20two(t *T, cfg int) {
	e, url := c20nets[cfg/2], cfg%2 == 1
	srv := newSrv()
	if cfg%3 == 0 {
		srv.WithBuiltInPool(true)
	}
	var got, mid bag
	srv.UseGlobal(func(c *tcpx.Context) { mid.add("%s", bodyOf(c)); c.Next() })
	want := ""
	h := func(c *tcpx.Context) {
		b := bodyOf(c)
		got.add("%s", b)
		if want != "" && string(c.Stream) != want {
			t.Fail("the handler finds a stream of %d bytes, its message has %d", len(c.Stream), len(want))
		}
		if n := c.Network(); n != e.network && n != "udp" && n != "unixgram" {
			t.Fail("Network() = %q on %s", n, e.network)
		}
		if ip := c.ClientIP(); e.network != "unixgram" && ip != "127.0.0.1" {
			t.Fail("ClientIP() = %q", ip)
		}
		c.JSON(2, "re:"+b)
		c.Reply(3, "again:"+b)
	}
	srv.AddHandler(1, h)
	srv.Any("/u", h)
	up(srv, []ep{e})
	mk := func(b string) []byte {
		if url {
			return urlMsg("/u", b)
		}
		return msg(1, b)
	}
	before := len(vs.LiveServerThreads())
	a, b := dialDG(e), dialDG(e)
	vs.GoNamed("client a", func() { a.Write(mk("a1")); a.Write(mk("a2")) })
	vs.GoNamed("client b", func() { b.Write(mk("b1")); b.Write(mk("b2")) })
	vs.WaitIdle()
	t.Outcome("%s", got.seq())
	if got.sorted() != "a1,a2,b1,b2" || mid.sorted() != "a1,a2,b1,b2" {
		t.Fail("handlers ran for %s, the middleware for %s, sent a1,a2,b1,b2", got.sorted(), mid.sorted())
		return
	}
	for i, c := range []*vs.VDialed{a, b} {
		x := string(rune('a' + i))
		if g := sortedJoin(dgrams(c)); g != sortedJoin([]string{"2:re:" + x + "1", "3:again:" + x + "1", "2:re:" + x + "2", "3:again:" + x + "2"}) {
			t.Fail("client %s received %s", x, g)
			return
		}
	}
	for i, tail := range [][]byte{nil, {0}, {0, 0, 0, 1}, mk("other"), mk("other")[:9], make([]byte, 600), bytes.Repeat([]byte{255}, 64)} {
		body := fmt.Sprint("t", i)
		want = string(mk(body))
		a.Write(append(mk(body), tail...))
		vs.WaitIdle()
		if g := sortedJoin(dgrams(a)); g != "2:re:"+body+",3:again:"+body {
			t.Fail("later, a message with %d bytes behind it in its datagram: the client received %s", len(tail), g)
			return
		}
	}
	want = ""
	if l := vs.LiveServerThreads(); len(l) > before {
		t.Fail("goroutines remain for served datagrams: %v", l)
	}
}

// c20waits: clients, datagrams of each.
var c20waits = [][2]int{{1, 2}, {2, 2}, {1, 250}, {400, 3}}

func c20waiting(t *T, cfg int) {
	e, w := c20nets[cfg%len(c20nets)], c20waits[cfg/len(c20nets)]
	srv := newSrv()
	last := fmt.Sprint(w[0]-1, "-", w[1]-1)
	open := false
	var got bag
	srv.AddHandler(1, func(c *tcpx.Context) {
		b := bodyOf(c)
		got.add("%s", b)
		if b == last {
			open = true
		}
		vs.WaitUntil("the last message", func() bool { return open })
		c.JSON(2, "re:"+b)
	})
	up(srv, []ep{e})
	before := len(vs.LiveServerThreads())
	var cs []*vs.VDialed
	for i := 0; i < w[0]; i++ {
		cs = append(cs, dialDG(e))
	}
	sent := 0
	for j := 0; j < w[1]; j++ {
		for i, c := range cs {
			c.Write(msg(1, fmt.Sprint(i, "-", j)))
			// the socket queue is not to overflow
			if sent++; sent%100 == 0 {
				vs.WaitIdle()
			}
		}
	}
	vs.WaitIdle()
	t.Outcome("%d", len(got.l))
	if len(got.l) != w[0]*w[1] || !open {
		t.Fail("%d clients sent %d datagrams each, whose handlers wait for the last: %d handlers ran", w[0], w[1], len(got.l))
		return
	}
	for i, c := range cs {
		g := dgrams(c)
		var want []string
		for j := 0; j < w[1]; j++ {
			want = append(want, fmt.Sprint("2:re:", i, "-", j))
		}
		if sortedJoin(g) != sortedJoin(want) {
			t.Fail("client %d sent %d datagrams and received %d answers: %.80s", i, w[1], len(g), sortedJoin(g))
			return
		}
	}
	if l := vs.LiveServerThreads(); len(l) > before {
		t.Fail("goroutines remain for served datagrams: %v", l)
	}
}

func c20hostile(t *T, cfg int) {
	var evilMsg []byte
	name := ""
	if cfg < len(c04atks) {
		for _, b := range c04atks[cfg].b {
			evilMsg = append(evilMsg, b...)
		}
		name = c04atks[cfg].name
	} else {
		evilMsg = make([]byte, cfg-len(c04atks))
	}
	e := c20nets[0]
	srv := newSrv()
	var got bag
	srv.AddHandler(1, func(c *tcpx.Context) {
		var b string
		if _, e := c.Bind(&b); e != nil {
			return
		}
		got.add("%s", b)
		c.JSON(2, "re:"+b)
	})
	up(srv, []ep{e})
	a, evil := dialDG(e), dialDG(e)
	vs.GoNamed("good", func() { a.Write(msg(1, "good1")) })
	vs.GoNamed("evil", func() { evil.Write(evilMsg) })
	vs.WaitIdle()
	a.Write(msg(1, "good2"))
	vs.WaitIdle()
	n := 0
	for _, g := range got.l {
		if !strings.HasPrefix(g, "good") {
			n++
		}
	}
	t.Outcome("%s", got.sorted())
	if got.count("good1") != 1 || got.count("good2") != 1 || n > 1 {
		t.Fail("next to a malformed datagram (%s) the handler ran for %s", name, got.sorted())
		return
	}
	if g := sortedJoin(dgrams(a)); g != "2:re:good1,2:re:good2" {
		t.Fail("next to a malformed datagram (%s) the client received %s", name, g)
		return
	}
	if g := dgrams(evil); len(g) > 1 {
		t.Fail("the sender of a malformed datagram (%s) received %s", name, g)
	}
}

func c20sizes(t *T, cfg int) {
	e := ep{"udp", ":71", ""}
	size := 4096
	if cfg == 1 {
		e.mode, size = "buf", 8192
	}
	d := vs.Choose(9) - 4
	srv := echoSrv()
	up(srv, []ep{e})
	a := dialDG(e)
	m, body := sized(1, "{}", "s", size+d-4)
	a.Write(m)
	vs.WaitIdle()
	g := dgrams(a)
	t.Outcome("%d", len(g))
	if d <= 0 {
		if len(g) != 1 || g[0] != "2:"+body {
			t.Fail("a datagram of %d bytes, buffer %d: received %d answers", len(m), size, len(g))
			return
		}
	} else if len(g) != 0 {
		t.Fail("a datagram of %d bytes that does not fit the buffer of %d was dispatched", len(m), size)
		return
	}
	a.Write(msg(1, "x"))
	vs.WaitIdle()
	if g := dgrams(a); len(g) != 1 || g[0] != "2:x" {
		t.Fail("after a datagram of %d bytes the endpoint does not answer", len(m))
	}
}

func c20features(t *T, cfg int) {
	e := c20nets[cfg]
	srv := echoSrv()
	srv.WithBuiltInPool(true)
	srv.WithBroadCastSignal(true)
	srv.HeartBeatMode(true, time.Second)
	srv.WithAuthDetail(true, time.Second, false, 60, func(c *tcpx.Context) { c.RecvAuthPass() })
	var lost bag
	srv.SetEventOnHeartbeatLoss(func(c *tcpx.Context) { lost.add("x") })
	done := up(srv, []ep{e})
	before := len(vs.LiveServerThreads())
	a, b := dialDG(e), dialDG(e)
	for i := 0; i < 4; i++ {
		vs.GoNamed("client a", func() { a.Write(msg(1, "a")) })
		vs.GoNamed("client b", func() { b.Write(msg(1, "b")) })
		vs.WaitIdle()
		if g, h := dgrams(a), dgrams(b); fmt.Sprint(g, h) != "[2:a] [2:b]" {
			t.Fail("after %v the clients received %v and %v", vs.Elapsed(), g, h)
			return
		}
		if l := vs.LiveServerThreads(); len(l) > before {
			t.Fail("goroutines remain for served datagrams: %v", l)
			return
		}
		vs.Sleep(5 * time.Second / 2)
	}
	vs.WaitIdle()
	if len(lost.l) > 0 {
		t.Fail("a datagram endpoint reports the loss of %d heartbeats", len(lost.l))
		return
	}
	srv.Stop(true)
	vs.WaitIdle()
	if !*done[0] || len(vs.LiveServerThreads()) > 0 {
		t.Fail("after Stop(true): returned %v, goroutines %v", *done[0], vs.LiveServerThreads())
	}
	t.Outcome("served")
}
