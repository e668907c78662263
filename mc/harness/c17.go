package main

import (
	"fmt"
	"io"

	"github.com/fwhezfwhez/tcpx"
	"verifmc/vs"
)

// C17: Start and Restart.

func init() {
	register(&Prop{
		ID:          "C17",
		Assumptions: []string{"Start, Stop and Restart are called one after another, when the previous one has taken effect"},
		Scenarios: []*Scenario{
			{
				Name: "histories", Desc: "all histories of Stop, Start, Restart and new clients, against a reference of which clients and endpoints must work",
				N: n(len(c17eps), len(c17eps)), Run: func(t *T, cfg int) { c17hist(t, cfg, map[string]int{"quick": 4, "thorough": 5}[t.tier]-cfg/4) },
				Label: func(c int) string { return fmt.Sprint(c17eps[c]) },
				Specs: specs([]Spec{{D: 0}}, pol(Spec{D: 0})),
			},
			{
				Name: "often", Steps: 3000000, Desc: "a server with a dozen endpoints is stopped and started, or restarted, forty times",
				N: n(4, 4), Run: c17often,
				Label: func(c int) string { return fmt.Sprint("Restart: ", c/2 == 1, ", close all: ", c%2 == 1) },
				Specs: specs(pol(Spec{D: 0}), pol(Spec{D: 0}, Spec{D: 0, Fine: true})),
			},
			{
				Name: "inside", Desc: "Restart called by a handler, a middleware, OnConnect, OnClose, the heartbeat loss event, the auth handler, a raw or a datagram handler",
				N: n(len(insides)*2, len(insides)*2), Run: func(t *T, cfg int) { inside(t, insides[cfg/2], cfg%2 == 1, true) },
				Label: func(c int) string { return fmt.Sprint(insides[c/2], ": Restart(", c%2 == 1, ")") },
				Specs: specs(pol(Spec{D: 1}), pol(Spec{D: 1, Fine: true}, Spec{D: 2, Shards: 2})),
			},
			{
				Name: "taken", Desc: "Start and Restart while another program holds the addresses of any of the endpoints: the others are served, Stop closes them, and all work once the addresses are free",
				N: n(len(c17eps)*3, len(c17eps)*3), Run: c17taken,
				Label: func(c int) string {
					return fmt.Sprint(c17eps[c/3], []string{" Start", " Restart(false)", " Restart(true)"}[c%3])
				},
				Specs: specs(pol(Spec{D: 1}), pol(Spec{D: 1, Fine: true}, Spec{D: 2, Shards: 4})),
			},
			{
				Name: "restart", Desc: "Restart with a client at work, under all schedules",
				N: n(len(c17eps)*2, len(c17eps)*2), Run: c17restart,
				Label: func(c int) string { return fmt.Sprint(c17eps[c/2], " Restart(", c%2 == 1, ")") },
				Specs: specs(pol(Spec{D: 1}, Spec{D: 1, Fine: true}, Spec{D: 2, Shards: 4}), pol(Spec{D: 2, Fine: true, Shards: 8}, Spec{D: 3, Shards: 8})),
			},
		},
	})
}

var c17eps = [][]ep{
	{{"tcp", ":71", ""}},
	{{"tcp", ":71", ""}, {"tcp", ":72", ""}},
	{{"udp", ":71", "buf"}, {"tcp", ":71", ""}},
	{{"tcp", ":71", "raw"}, {"udp", ":72", ""}},
	{{"tcp6", ":71", ""}, {"tcp4", ":71", "raw"}, {"tcp4", ":72", ""}},
	{{"udp4", ":71", "buf"}, {"udp6", ":71", ""}},
	{{"tcp", "127.0.0.1:71", ""}, {"tcp", "127.0.0.2:71", "raw"}},
	{{"unix", "/tmp/verif-never-created.sock", ""}, {"unixgram", "/tmp/verif-never-created.gram", ""}},
}

// c17many: a dozen endpoints.
var c17many = func() (l []ep) {
	for i := 0; i < 12; i++ {
		e := ep{[]string{"tcp", "tcp4", "udp", "unix"}[i%4], fmt.Sprint(":", 71+i), ""}
		if e.network == "unix" {
			e.addr = fmt.Sprintf("/tmp/verif-never-created%d.sock", i)
		}
		if i == 5 || i == 9 {
			e.mode = "raw"
		}
		if i == 10 {
			e.mode = "buf"
		}
		l = append(l, e)
	}
	return
}()

func c17hist(t *T, cfg, length int) {
	eps := c17eps[cfg]
	srv := echoSrv()
	srv.WithBuiltInPool(true)
	var opened, closed bag
	srv.OnConnect = func(c *tcpx.Context) { opened.add("x") }
	srv.OnClose = func(c *tcpx.Context) { closed.add("x") }
	first := up(srv, eps)
	running, stopped := true, false
	type cl struct {
		c    *cli
		live bool
	}
	var cs []*cl
	var desc []string
	tag := 0
	before := 0
	stop := func(all bool) {
		if all {
			for _, k := range cs {
				if k.c.s != nil {
					k.live = false
				}
			}
		}
	}
	for i := 0; i < length; i++ {
		var e error
		ok := true
		switch vs.Choose(6) {
		case 0:
			desc = append(desc, "Stop(true)")
			ok = running
			e = srv.Stop(true)
			if ok {
				stop(true)
			}
			running = false
		case 1:
			desc = append(desc, "Stop(false)")
			ok = running
			e = srv.Stop(false)
			running = false
		case 2:
			desc = append(desc, "Start")
			ok = !running
			e = srv.Start()
			running = true
		case 3, 4:
			all := vs.Choose(2) == 1
			desc = append(desc, fmt.Sprintf("Restart(%v)", all))
			ok = running
			b4 := before
			down := true
			look := func() {
				for _, x := range eps {
					down = down && !vs.Listening(x.network, x.addr)
				}
			}
			e = srv.Restart(all, func() {
				look()
				vs.WaitIdle() // however long it takes
				look()
				before++
			}, func() {
				look()
				down = down && before == b4+1
				before++
			})
			if ok {
				stop(all)
				if before != b4+2 || !down {
					t.Fail("history %v: Restart ran %d of its 2 functions, one after the other and with the endpoints down: %v", desc, before-b4, down)
					return
				}
			}
		case 5:
			x := eps[vs.Choose(len(eps))]
			desc = append(desc, "client "+x.String())
			c := dialEP(x)
			if (c != nil) != running {
				t.Fail("history %v: connecting worked: %v", desc, c != nil)
				return
			}
			if c != nil {
				cs = append(cs, &cl{c, true})
			}
		}
		if (e == nil) != ok {
			t.Fail("history %v: returned %v", desc, e)
			return
		}
		vs.WaitIdle()
		stopped = stopped || !running || len(desc) > 0 && desc[len(desc)-1][0] == 'R'
		for k, d := range first {
			if *d != stopped {
				t.Fail("history %v: the first call that served %v has returned: %v", desc, eps[k], *d)
				return
			}
		}
		for _, x := range eps {
			if vs.Listening(x.network, x.addr) != running {
				t.Fail("history %v: endpoint %v is up: %v, want %v", desc, x, !running, running)
				return
			}
		}
		for j, k := range cs {
			tag++
			want := k.live
			if k.c.s == nil {
				want = running // a datagram socket works whenever the endpoint is up
			}
			if k.c.s != nil && k.c.s.PeerClosed() == want {
				t.Fail("history %v: client %d is disconnected: %v", desc, j, want)
				return
			}
			if want && !k.c.works(fmt.Sprint("t", tag)) {
				t.Fail("history %v: client %d (%v) gets no answer", desc, j, k.c.e)
				return
			}
		}
	}
	// in the end everything can be brought up and shut down
	if !running {
		srv.Start()
		vs.WaitIdle()
	}
	for _, x := range eps {
		c := dialEP(x)
		if c == nil || !c.works("z") {
			t.Fail("history %v, Start: %v does not answer", desc, x)
			return
		}
	}
	if e := srv.Stop(true); e != nil {
		t.Fail("history %v: final Stop(true): %v", desc, e)
		return
	}
	vs.WaitIdle()
	t.Outcome("%v", desc)
	if vs.OpenListeners() != 0 || vs.ServerConns() != 0 || len(opened.l) != len(closed.l) {
		t.Fail("history %v, final Stop(true): %d endpoints, %d connections open; OnConnect %d, OnClose %d", desc, vs.OpenListeners(), vs.ServerConns(), len(opened.l), len(closed.l))
		return
	}
	if l := vs.LiveServerThreads(); len(l) > 0 {
		t.Fail("history %v, final Stop(true): goroutines remain: %v", desc, l)
	}
}

func c17restart(t *T, cfg int) {
	eps, all := c17eps[cfg/2], cfg%2 == 1
	srv := echoSrv()
	first := up(srv, eps)
	a := dialEP(eps[len(eps)-1])
	vs.WaitIdle()
	vs.GoNamed("client", func() {
		if a.s != nil {
			a.s.Write(msg(1, "during"))
		}
	})
	var e error
	vs.GoNamed("restart", func() { e = srv.Restart(all) })
	vs.WaitIdle()
	if e != nil {
		t.Fail("Restart: %v", e)
		return
	}
	for k, d := range first {
		if !*d {
			t.Fail("after Restart(%v) the first call that served %v has not returned", all, eps[k])
			return
		}
	}
	if a.s != nil && a.s.PeerClosed() != all {
		t.Fail("after Restart(%v) the old connection is closed: %v", all, !all)
		return
	}
	if a.s != nil && !all && !a.works("old") {
		t.Fail("after Restart(false) the old connection does not work")
		return
	}
	for _, x := range eps {
		c := dialEP(x)
		if c == nil || !c.works("new") {
			t.Fail("after Restart(%v) %v does not answer", all, x)
			return
		}
	}
	srv.Stop(true)
	vs.WaitIdle()
	if l := vs.LiveServerThreads(); len(l) > 0 || vs.ServerConns() > 0 || vs.OpenListeners() > 0 {
		t.Fail("after Restart and Stop(true): %d connections, %d endpoints open, goroutines %v", vs.ServerConns(), vs.OpenListeners(), l)
	}
}

func c17taken(t *T, cfg int) {
	eps, how := c17eps[cfg/3], cfg%3
	srv := echoSrv()
	srv.WithBuiltInPool(true)
	up(srv, eps)
	old := dialEP(eps[0])
	if old == nil || !old.works("old") {
		t.Fail("%v does not answer", eps[0])
		return
	}
	mask := 1 + vs.Choose(1<<len(eps)-1)
	var others []io.Closer
	take := func() {
		for i, e := range eps {
			if mask&(1<<i) == 0 {
				continue
			}
			var c io.Closer
			var err error
			if stream(e) {
				c, err = vs.Listen(e.network, e.addr)
			} else {
				c, err = vs.ListenPacket(e.network, e.addr)
			}
			if err != nil {
				t.Fail("after Stop %v cannot be taken: %v", e, err)
				return
			}
			others = append(others, c)
		}
	}
	if how == 0 {
		if e := srv.Stop(false); e != nil {
			t.Fail("Stop: %v", e)
			return
		}
		vs.WaitIdle()
		take()
		if e := srv.Start(); e != nil {
			t.Fail("Start: %v", e)
			return
		}
	} else if e := srv.Restart(how == 2, take); e != nil {
		t.Fail("Restart: %v", e)
		return
	}
	vs.WaitIdle()
	for i, e := range eps {
		if mask&(1<<i) != 0 {
			continue
		}
		if c := dialEP(e); c == nil || !c.works("free") {
			t.Fail("%v does not answer; taken: %b", e, mask)
			return
		}
	}
	if n := vs.OpenListeners(); n != len(eps) {
		t.Fail("%d endpoints are open, %d by the server; taken: %b", n, n-len(others), mask)
		return
	}
	t.Outcome("%b", mask)
	if mask != 1<<len(eps)-1 {
		if e := srv.Stop(true); e != nil {
			t.Fail("Stop with taken endpoints %b: %v", mask, e)
			return
		}
		vs.WaitIdle()
		if n := vs.OpenListeners(); n != len(others) {
			t.Fail("after Stop with taken endpoints %b the server has %d endpoints open", mask, n-len(others))
			return
		}
	}
	for _, c := range others {
		c.Close()
	}
	if e := srv.Start(); e != nil {
		t.Fail("Start when the addresses %b are free again: %v", mask, e)
		return
	}
	vs.WaitIdle()
	for _, e := range eps {
		if c := dialEP(e); c == nil || !c.works("all") {
			t.Fail("Start when the addresses %b are free again: %v does not answer", mask, e)
			return
		}
	}
	srv.Stop(true)
	vs.WaitIdle()
	if l := vs.LiveServerThreads(); len(l) > 0 || vs.ServerConns() > 0 || vs.OpenListeners() > 0 {
		t.Fail("after all, %b having been taken, and Stop(true): %d connections, %d endpoints open, goroutines %v", mask, vs.ServerConns(), vs.OpenListeners(), l)
	}
}

func c17often(t *T, cfg int) {
	restart, all := cfg/2 == 1, cfg%2 == 1
	srv := echoSrv()
	srv.WithBuiltInPool(true)
	opened, closed := 0, 0
	srv.OnConnect = func(c *tcpx.Context) { opened++ }
	srv.OnClose = func(c *tcpx.Context) {
		if !off() {
			closed++
		}
	}
	up(srv, c17many)
	var old []*cli
	for round := 0; round < 40; round++ {
		var cs []*cli
		for _, e := range c17many {
			c := dialEP(e)
			if c == nil || !c.works("x") {
				t.Fail("round %d: %v does not answer", round, e)
				return
			}
			cs = append(cs, c)
		}
		for _, c := range old {
			if c.s != nil && c.s.PeerClosed() != all {
				t.Fail("round %d: a former connection of %v is closed: %v", round, c.e, !all)
				return
			}
			if c.s != nil && !all && !c.works("y") {
				t.Fail("round %d: a former connection of %v does not work", round, c.e)
				return
			}
		}
		if round%10 == 0 || all {
			old = cs
		} else {
			for _, c := range cs {
				if c.s != nil {
					c.s.Close()
				}
			}
			vs.WaitIdle()
		}
		if restart {
			if e := srv.Restart(all); e != nil {
				t.Fail("round %d: Restart: %v", round, e)
				return
			}
		} else {
			if e := srv.Stop(all); e != nil {
				t.Fail("round %d: Stop: %v", round, e)
				return
			}
			vs.WaitIdle()
			if n := vs.OpenListeners(); n != 0 {
				t.Fail("round %d: %d endpoints open after Stop", round, n)
				return
			}
			if e := srv.Start(); e != nil {
				t.Fail("round %d: Start: %v", round, e)
				return
			}
		}
		vs.WaitIdle()
	}
	srv.Stop(true)
	vs.WaitIdle()
	t.Outcome("%d", opened)
	if l := vs.LiveServerThreads(); len(l) > 0 || vs.ServerConns() > 0 || vs.OpenListeners() > 0 || opened != closed {
		t.Fail("after forty rounds and Stop(true): %d connections, %d endpoints open, goroutines %v; OnConnect %d, OnClose %d", vs.ServerConns(), vs.OpenListeners(), l, opened, closed)
	}
}
