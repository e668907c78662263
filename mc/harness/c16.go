package main

import (
	"fmt"
	"time"

	"github.com/fwhezfwhez/tcpx"
	"verifmc/vs"
)

// C16: Stop.

func init() {
	register(&Prop{
		ID:          "C16",
		Assumptions: []string{"Stop is not called while the server is still starting"},
		Scenarios: []*Scenario{
			{
				Name: "networks", Desc: "Stop(true) and Stop(false) of a server on every supported network, alone and together",
				N: n(len(c16nets)*2, len(c16nets)*2), Run: c16net,
				Label: func(c int) string { return fmt.Sprint(c16nets[c/2], " Stop(", c%2 == 1, ")") },
				Specs: specs(pol(Spec{D: 1}), pol(Spec{D: 1, Fine: true}, Spec{D: 2, Shards: 4})),
			},
			{
				Name: "stop-all", Desc: "Stop(true) racing new connections, messages, disconnects and log-ins",
				N: n(6, 6), Run: c16all,
				Label: func(c int) string { return c16alls[c] },
				Specs: specs(pol(Spec{D: 1, Fine: true}, Spec{D: 2}), pol(Spec{D: 2, Fine: true, Shards: 8}, Spec{D: 3, Shards: 16})),
			},
			{
				Name: "inside", Desc: "Stop called by a handler, a middleware, OnConnect, OnClose, the heartbeat loss event, the auth handler, a raw or a datagram handler",
				N: n(len(insides)*2, len(insides)*2), Run: func(t *T, cfg int) { inside(t, insides[cfg/2], cfg%2 == 1, false) },
				Label: func(c int) string { return fmt.Sprint(insides[c/2], ": Stop(", c%2 == 1, ")") },
				Specs: specs(pol(Spec{D: 1}), pol(Spec{D: 1, Fine: true}, Spec{D: 2, Shards: 2})),
			},
			{
				Name: "slow-close", Desc: "Stop(true) while OnClose of a connection that is ending still runs, with four other connections",
				N: n(len(c16slows), len(c16slows)), Run: c16slow,
				Label: func(c int) string { return c16slows[c] },
				Specs: specs(pol(Spec{D: 1}), pol(Spec{D: 1, Fine: true, Shards: 4}, Spec{D: 2, Shards: 4})),
			},
			{
				Name: "stop-listening", Desc: "Stop(false): connections live on, also with heartbeat, auth, signals and pool",
				N: n(4, 4), Run: c16keep,
				Specs: specs(pol(Spec{D: 1, Fine: true}, Spec{D: 2}), pol(Spec{D: 2, Fine: true, Shards: 8}, Spec{D: 3, Shards: 8})),
			},
		},
	})
}

type ep struct{ network, addr, mode string }

func (e ep) String() string { return e.network + e.mode + e.addr }

var c16nets = [][]ep{
	{{"tcp", ":71", ""}},
	{{"tcp4", ":71", ""}},
	{{"tcp6", ":71", ""}},
	{{"unix", "/tmp/verif-never-created.sock", ""}},
	{{"udp", ":71", ""}},
	{{"udp4", ":71", ""}},
	{{"unixgram", "/tmp/verif-never-created.gram", ""}},
	{{"tcp", ":71", "raw"}},
	{{"tcp", ":71", ""}, {"tcp", ":72", ""}, {"udp", ":71", ""}},
	{{"tcp", ":71", ""}, {"tcp4", ":72", "raw"}, {"udp", ":73", "buf"}},
	{{"tcp4", ":71", ""}, {"tcp6", ":71", ""}, {"udp6", ":71", ""}},
	c17many,
}

func stream(e ep) bool {
	return e.network != "udp" && e.network != "udp4" && e.network != "udp6" && e.network != "unixgram"
}

// up starts every endpoint; the flags become true when the calls return.
func up(srv *tcpx.TcpX, eps []ep) []*bool {
	var l []*bool
	for _, e := range eps {
		switch e.mode {
		case "raw":
			l = append(l, serveRaw(srv, e.network, e.addr))
		case "buf":
			d := new(bool)
			e := e
			vs.GoNamed("serve-udp", func() {
				srv.ListenAndServeUDP(e.network, e.addr, 8192)
				*d = true
			})
			vs.WaitUntil("listening", func() bool { return vs.Listening(e.network, e.addr) })
			l = append(l, d)
		default:
			l = append(l, serve(srv, e.network, e.addr))
		}
	}
	vs.WaitIdle()
	return l
}

// echoSrv answers messages with id 1 by id 2 and raw bytes by themselves.
func echoSrv() *tcpx.TcpX {
	srv := newSrv()
	srv.AddHandler(1, func(c *tcpx.Context) { c.JSON(2, bodyOf(c)) })
	srv.HandleRaw = func(c *tcpx.Context) {
		b := make([]byte, 64)
		for {
			n, e := c.ConnReader.Read(b)
			if n > 0 {
				c.ConnWriter.Write(b[:n])
			}
			if e != nil {
				return
			}
		}
	}
	return srv
}

type cli struct {
	e ep
	s *vs.VConn
	d *vs.VDialed
}

func dialEP(e ep) *cli {
	if stream(e) {
		c := dial(e.network, e.addr)
		if c == nil {
			return nil
		}
		return &cli{e: e, s: c}
	}
	d, err := vs.Dial(e.network, e.addr)
	if err != nil {
		return nil
	}
	return &cli{e: e, d: d.(*vs.VDialed)}
}

// works sends a request and reports whether exactly its answer comes back.
func (c *cli) works(tag string) bool {
	if c.d != nil {
		c.d.TakeDatagrams()
		body := tag
		if c.e.mode == "buf" {
			body = pad(tag, 6000)
		}
		c.d.Write(msg(1, body))
		vs.WaitIdle()
		ds := c.d.TakeDatagrams()
		if len(ds) != 1 {
			return false
		}
		fs, ok := parse(ds[0])
		return ok && len(fs) == 1 && fs[0].ID == 2 && fs[0].Str() == body
	}
	c.s.Drain()
	if c.e.mode == "raw" {
		c.s.Write([]byte(tag))
		vs.WaitIdle()
		return string(c.s.Drain()) == tag
	}
	c.s.Write(msg(1, tag))
	vs.WaitIdle()
	fs, ok := parse(c.s.Drain())
	return ok && len(fs) == 1 && fs[0].ID == 2 && fs[0].Str() == tag
}

func c16net(t *T, cfg int) {
	eps, all := c16nets[cfg/2], cfg%2 == 1
	srv := echoSrv()
	srv.WithBuiltInPool(true)
	var opened, closed bag
	srv.OnConnect = func(c *tcpx.Context) { opened.add("x") }
	srv.OnClose = func(c *tcpx.Context) { closed.add("x") }
	if e := srv.Stop(all); e == nil {
		t.Fail("Stop of a server that never ran reports success")
		return
	}
	flags := up(srv, eps)
	var cs []*cli
	for _, e := range eps {
		c := dialEP(e)
		if c == nil || !c.works("a") {
			t.Fail("%v does not answer", e)
			return
		}
		cs = append(cs, c)
	}
	if e := srv.Stop(all); e != nil {
		t.Fail("Stop: %v", e)
		return
	}
	if vs.OpenListeners() != 0 {
		t.Fail("when Stop(%v) returns an endpoint of %v is still open", all, eps)
		return
	}
	for i, c := range cs {
		if all && c.s != nil && !c.s.Peer().IsClosed() {
			t.Fail("when Stop(true) returns a connection of %v is open", eps[i])
			return
		}
	}
	vs.WaitIdle()
	if vs.OpenListeners() != 0 {
		t.Fail("after Stop(%v) an endpoint of %v is still open", all, eps)
		return
	}
	for i, e := range eps {
		if !*flags[i] {
			t.Fail("after Stop(%v) ListenAndServe of %v has not returned: %s", all, e, vs.DumpAll())
			return
		}
		if dialEP(e) != nil {
			t.Fail("after Stop(%v) %v accepts clients", all, e)
			return
		}
		c := cs[i]
		if !stream(e) {
			continue
		}
		if all {
			if !c.s.PeerClosed() || !c.s.Peer().IsClosed() {
				t.Fail("after Stop(true) a connection of %v is open", e)
				return
			}
		} else if !c.works("b") || c.s.PeerClosed() {
			t.Fail("after Stop(false) a connection of %v does not work", e)
			return
		}
	}
	if all {
		if len(opened.l) != len(closed.l) {
			t.Fail("after Stop(true): OnConnect %d times, OnClose %d times", len(opened.l), len(closed.l))
			return
		}
		if l := vs.LiveServerThreads(); len(l) > 0 {
			t.Fail("after Stop(true) goroutines remain: %v", l)
			return
		}
	} else if len(closed.l) != 0 {
		t.Fail("after Stop(false) OnClose ran")
		return
	}
	if e := srv.Stop(all); e == nil {
		t.Fail("the second Stop reports success")
	}
}

var c16alls = []string{"a client connects", "a client connects and sends", "a client disconnects", "a message closes its connection", "two stops", "heartbeat, auth and signals on, a client connects"}

func c16all(t *T, cfg int) {
	srv := newSrv()
	srv.WithBuiltInPool(true)
	if cfg == 5 {
		srv.HeartBeatMode(true, time.Hour)
		srv.WithBroadCastSignal(true)
		srv.WithAuthDetail(true, time.Hour, false, 60, func(c *tcpx.Context) { c.RecvAuthPass() })
	}
	var opened, closed bag
	var pool *tcpx.ClientPool
	srv.OnConnect = func(c *tcpx.Context) {
		if off() {
			return
		}
		pool = c.GetPoolRef()
		vs.Pub()
		opened.add("x")
		c.Online(fmt.Sprint("u", connNum(c)))
	}
	srv.OnClose = func(c *tcpx.Context) { closed.add("x") }
	srv.AddHandler(1, func(c *tcpx.Context) { c.JSON(2, bodyOf(c)) })
	srv.AddHandler(4, func(c *tcpx.Context) { c.CloseConn() })
	done := serve(srv, "tcp", addr)
	a := dial("tcp", addr)
	vs.WaitIdle()
	var b *vs.VConn
	switch cfg {
	case 0, 5:
		vs.GoNamed("client", func() { b = dial("tcp", addr) })
	case 1:
		vs.GoNamed("client", func() {
			b = dial("tcp", addr)
			if b != nil {
				b.Write(msg(1, "x"))
			}
		})
	case 2:
		vs.GoNamed("client", func() { a.Close() })
	case 3:
		vs.GoNamed("client", func() { a.Write(msg(4, "")) })
	}
	stops := 0
	vs.GoNamed("stop", func() {
		if srv.Stop(true) == nil {
			stops++
		}
	})
	if cfg == 4 {
		vs.GoNamed("stop2", func() {
			if srv.Stop(true) == nil {
				stops++
			}
		})
	}
	vs.WaitIdle()
	t.Outcome("%d opened, b %v, stops %d", len(opened.l), b != nil, stops)
	if stops < 1 {
		t.Fail("no Stop succeeded")
		return
	}
	if !*done || vs.OpenListeners() != 0 {
		t.Fail("the endpoint did not end: returned %v", *done)
		return
	}
	if n := vs.ServerConns(); n != 0 {
		t.Fail("after Stop(true) %d connections are open on the server's side", n)
		return
	}
	if b != nil && !b.PeerClosed() {
		t.Fail("after Stop(true) a client that connected meanwhile is not disconnected")
		return
	}
	if len(closed.l) != len(opened.l) {
		t.Fail("OnConnect ran %d times, OnClose %d times", len(opened.l), len(closed.l))
		return
	}
	vs.Sub()
	for i := 1; i <= 2; i++ {
		if pool.GetClientPool(fmt.Sprint("u", i)) != nil {
			t.Fail("after Stop(true) the pool still has user u%d", i)
			return
		}
	}
	if l := vs.LiveServerThreads(); len(l) > 0 {
		t.Fail("after Stop(true) goroutines remain: %v", l)
	}
}

var insides = []string{"handler", "middleware", "batch", "OnConnect", "OnClose", "loss event", "auth handler", "raw handler", "datagram handler"}

// inside: the server's own callbacks may stop or restart it.
func inside(t *T, where string, all, again bool) {
	eps := []ep{{"tcp", ":71", ""}, {"tcp", ":72", "raw"}, {"udp", ":73", ""}}
	srv := newSrv()
	srv.WithBuiltInPool(true)
	var err error
	calls, returned := 0, 0
	beforeStart := 0
	act := func() {
		if off() || calls > 0 {
			return
		}
		calls++
		var e error
		if again {
			e = srv.Restart(all, func() { beforeStart++ })
		} else {
			e = srv.Stop(all)
		}
		if off() {
			return
		}
		err = e
		returned++
	}
	var opened, closed bag
	srv.OnConnect = func(c *tcpx.Context) {
		opened.add("x")
		if where == "OnConnect" && connNum(c) == 3 {
			act()
		}
	}
	srv.OnClose = func(c *tcpx.Context) {
		closed.add("x")
		if where == "OnClose" {
			act()
		}
	}
	srv.UseGlobal(func(c *tcpx.Context) {
		if where == "middleware" && len(c.Stream) > 0 && bodyOf(c) == "act" {
			act()
		}
	})
	if where == "loss event" {
		srv.HeartBeatMode(true, time.Second)
		srv.SetEventOnHeartbeatLoss(func(c *tcpx.Context) { act() })
	}
	if where == "auth handler" {
		srv.WithAuthDetail(true, time.Hour, false, 60, func(c *tcpx.Context) { act() })
	}
	srv.AddHandler(1, func(c *tcpx.Context) {
		if bodyOf(c) == "act" {
			if where == "handler" || where == "batch" || where == "datagram handler" {
				act()
			}
			return
		}
		c.JSON(2, bodyOf(c))
	})
	srv.HandleRaw = func(c *tcpx.Context) {
		b := make([]byte, 64)
		for {
			n, e := c.ConnReader.Read(b)
			if string(b[:n]) == "act" {
				act()
			} else if n > 0 {
				c.ConnWriter.Write(b[:n])
			}
			if e != nil {
				return
			}
		}
	}
	first := up(srv, eps)
	a, rw, ud := dialEP(eps[0]), dialEP(eps[1]), dialEP(eps[2])
	if a == nil || rw == nil || ud == nil {
		t.Fail("no connection")
		return
	}
	vs.WaitIdle()
	live := []*cli{a, rw}
	hb := func() {
		if where == "loss event" {
			a.s.Write(tcpx.PackHeartbeat())
			vs.WaitIdle()
		}
	}
	switch where {
	case "handler", "middleware":
		a.s.Write(msg(1, "act"))
	case "batch":
		a.s.Write(append(hdrFrame(1, pipeHdr(`"enable;2"`), "act"), msg(1, "x")...))
	case "OnConnect":
		live = append(live, dialEP(eps[0]))
	case "OnClose":
		a.s.Close()
		live = live[1:]
	case "loss event":
		b := dialEP(eps[0])
		_ = b
		for i := 0; i < 3; i++ {
			vs.Sleep(time.Second)
			hb()
		}
		live = live[:1] // raw endpoints watch heartbeats too
	case "auth handler":
		a.s.Write(msg(60, "x"))
	case "raw handler":
		rw.s.Write([]byte("act"))
	case "datagram handler":
		ud.d.Write(msg(1, "act"))
	}
	vs.WaitIdle()
	vs.Sleep(time.Second / 10) // Stop may take its time
	vs.WaitIdle()
	hb()
	what := fmt.Sprintf("%s called by the %s", map[bool]string{true: "Restart", false: "Stop"}[again], where)
	t.Outcome("%d %d", len(opened.l), len(closed.l))
	if returned != 1 || err != nil || again && beforeStart != 1 {
		t.Fail("%s: called %d times, returned %d times, error %v, functions run %d times", what, calls, returned, err, beforeStart)
		return
	}
	for i, f := range first {
		if !*f {
			t.Fail("%s: the call that served %v has not returned", what, eps[i])
			return
		}
	}
	if all {
		vs.WaitIdle()
		for _, c := range live {
			if !c.s.Peer().IsClosed() {
				t.Fail("%s: a connection of %v is open", what, c.e)
				return
			}
		}
		if vs.ServerConns() != 0 || len(opened.l) != len(closed.l) {
			t.Fail("%s: %d connections open; OnConnect ran %d times, OnClose %d times", what, vs.ServerConns(), len(opened.l), len(closed.l))
			return
		}
	} else {
		for _, c := range live {
			c.s.Drain()
			if !c.works("b") {
				t.Fail("%s: a connection of %v does not work", what, c.e)
				return
			}
		}
	}
	for _, e := range eps {
		c := dialEP(e)
		if !again {
			if c != nil {
				t.Fail("%s: %v accepts clients", what, e)
				return
			}
			continue
		}
		if c == nil || !c.works("new") {
			t.Fail("%s: %v does not answer", what, e)
			return
		}
	}
	if again {
		if e := srv.Stop(true); e != nil {
			t.Fail("%s: Stop(true) afterwards: %v", what, e)
			return
		}
		vs.WaitIdle()
	} else if !all {
		a.s.Close()
		rw.s.Close()
		for _, c := range live {
			c.s.Close()
		}
		vs.WaitIdle()
	}
	vs.Sleep(time.Minute)
	vs.WaitIdle()
	if l := vs.LiveServerThreads(); len(l) > 0 || vs.ServerConns() > 0 || vs.OpenListeners() > 0 || len(opened.l) != len(closed.l) {
		t.Fail("%s; in the end: %d connections, %d endpoints open, OnConnect ran %d times, OnClose %d times, goroutines %v", what, vs.ServerConns(), vs.OpenListeners(), len(opened.l), len(closed.l), l)
	}
}

var c16slows = []string{"client closed", "handler closed it", "client half-closed", "garbage", "two of them"}

// c16slow: a connection that is on its way out does not keep Stop(true) from
// closing the others; it is closed at the latest when its OnClose is done.
func c16slow(t *T, cfg int) {
	srv := newSrv()
	srv.WithBuiltInPool(true)
	var opened, closing, closed bag
	free := false
	srv.OnConnect = func(c *tcpx.Context) { opened.add("x") }
	srv.OnClose = func(c *tcpx.Context) {
		if off() {
			return
		}
		closing.add("x")
		vs.WaitUntil("OnClose may end", func() bool { return free })
		closed.add("x")
	}
	srv.AddHandler(4, func(c *tcpx.Context) { c.CloseConn() })
	done := serve(srv, "tcp", addr)
	var cs []*vs.VConn
	for i := 0; i < 6; i++ {
		cs = append(cs, dial("tcp", addr))
	}
	vs.WaitIdle()
	leave := 1
	switch cfg {
	case 0:
		cs[0].Close()
	case 1:
		cs[0].Write(msg(4, ""))
	case 2:
		cs[0].CloseWrite()
	case 3:
		cs[0].Write(lenOnly(0xfffffff0))
	case 4:
		cs[0].Write(msg(4, ""))
		cs[3].CloseWrite()
		leave = 2
	}
	vs.WaitUntil("OnClose runs", func() bool { return len(closing.l) == leave })
	var err error
	stopped := false
	vs.GoNamed("stop", func() {
		err = srv.Stop(true)
		stopped = true
		for i, c := range cs {
			if !c.Peer().IsClosed() && !(i == 0 || i == 3 && leave == 2) && !off() {
				t.Fail("%s: when Stop(true) returns connection %d is open", c16slows[cfg], i+1)
			}
		}
	})
	vs.WaitIdle()
	free = true
	vs.WaitIdle()
	t.Outcome("%v %d", stopped, len(opened.l))
	if !stopped || err != nil || !*done || vs.ServerConns() != 0 {
		t.Fail("%s: Stop(true) returned %v, %v, ListenAndServe returned %v, %d connections are open", c16slows[cfg], stopped, err, *done, vs.ServerConns())
		return
	}
	if len(opened.l) != 6 || len(closed.l) != 6 {
		t.Fail("%s: OnConnect ran %d times, OnClose %d times", c16slows[cfg], len(opened.l), len(closed.l))
		return
	}
	if l := vs.LiveServerThreads(); len(l) > 0 {
		t.Fail("%s: goroutines remain: %v", c16slows[cfg], l)
	}
}

func c16keep(t *T, cfg int) {
	srv := newSrv()
	srv.WithBuiltInPool(true)
	if cfg == 1 || cfg == 3 {
		srv.HeartBeatMode(true, hbI)
	}
	if cfg == 2 || cfg == 3 {
		srv.WithBroadCastSignal(true)
		srv.WithAuthDetail(true, hbI*20, false, 60, func(c *tcpx.Context) { c.RecvAuthPass() })
	}
	var opened, closed bag
	srv.OnConnect = func(c *tcpx.Context) {
		opened.add("x")
		c.Online(fmt.Sprint("u", connNum(c)))
	}
	srv.OnClose = func(c *tcpx.Context) { closed.add("x") }
	srv.AddHandler(1, func(c *tcpx.Context) { c.JSON(2, bodyOf(c)) })
	srv.AddHandler(3, func(c *tcpx.Context) {
		if e := c.SendToUsername("u1", 9, bodyOf(c)); e != nil {
			c.JSON(10, e.Error())
		}
	})
	done := serve(srv, "tcp", addr)
	a, b := dial("tcp", addr), dial("tcp", addr)
	vs.WaitIdle()
	vs.GoNamed("client", func() { a.Write(msg(1, "during")) })
	vs.GoNamed("stop", func() { srv.Stop(false) })
	vs.WaitIdle()
	var lost *vs.VConn = dial("tcp", addr)
	if !*done || lost != nil {
		t.Fail("after Stop(false) the endpoint serves: returned %v, dial works %v", *done, lost != nil)
		return
	}
	rounds := 2
	if t.tier == "thorough" {
		rounds = 6
	}
	for i := 0; i < rounds; i++ { // time passes; heartbeats keep the connections
		vs.Sleep(hbI * 2)
		a.Write(tcpx.PackHeartbeat())
		b.Write(tcpx.PackHeartbeat())
		vs.WaitIdle()
	}
	a.Write(msg(1, "after"))
	vs.WaitIdle()
	b.Write(msg(3, "hello"))
	vs.WaitIdle()
	fa, ok := replies(a)
	t.Outcome("%v", strs(fa))
	if !ok || fmt.Sprint(strs(fa)) != "[2:during 2:after 9:hello]" || a.PeerClosed() || b.PeerClosed() || len(closed.l) > 0 {
		t.Fail("after Stop(false): replies %v, closed %v %v, OnClose %d times", strs(fa), a.PeerClosed(), b.PeerClosed(), len(closed.l))
		return
	}
	b.Close()
	vs.WaitIdle()
	if len(closed.l) != 1 {
		t.Fail("a client left after Stop(false): OnClose ran %d times", len(closed.l))
	}
}
