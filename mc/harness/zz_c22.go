package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/fwhezfwhez/tcpx"
	"verifmc/vs"
)

// C22: no data races.  The scenarios of the other properties (and some of its
// own) run in a build with the race detector; the harness itself and the
// scheduler are not instrumented, and the scheduler's hand-over creates no
// happens-before edges, so an execution is reported when two accesses of tcpx
// are unordered by tcpx's own synchronisation.

func init() {
	var l []*Scenario
	add := func(prop string, names string, q, th []Spec) {
		p := props[prop]
		for _, s := range p.Scenarios {
			if s.Native != nil || names != "" && !strings.Contains(","+names+",", ","+s.Name+",") {
				continue
			}
			c := *s
			c.Name = prop + "-" + s.Name
			c.Specs = specs(q, th)
			l = append(l, &c)
		}
	}
	d1 := pol(Spec{D: 1})
	d0 := pol(Spec{D: 0})
	th := pol(Spec{D: 1, Fine: true}, Spec{D: 2, Shards: 2})
	th1 := pol(Spec{D: 1})
	add("C04", "hostile", d0, th1)
	add("C05", "dispatch", d1, th)
	add("C06", "concurrent", d1, th)
	add("C07", "concurrent", d1, th)
	add("C08", "scopes", d1, th)
	add("C09", "concurrent,mixed,push", d1, th)
	add("C09", "apis", nil, th1)
	add("C10", "concurrent,reconnect", d1, th)
	add("C12", "ends", d1, th)
	add("C13", "schedules", d1, th)
	add("C13", "two", nil, th1)
	add("C14", "schedules", d1, th)
	add("C15", "batches", d1, th)
	add("C16", "networks,stop-all,stop-listening", d1, th)
	add("C17", "restart", d1, th)
	add("C18", "server", d0, th1)
	add("C19", "context", d0, th1)
	add("C20", "two-clients", d1, th)
	add("C21", "bytes,life", d1, th)
	add("C23", "lifecycle", d0, th1)
	np := len(c22ops) * (len(c22ops) + 1) / 2 * 2
	l = append(l, &Scenario{
		Name: "api-pairs", Desc: "all pairs of context operations by two handlers at the same time, on one connection and on two",
		N: n(np, np), Run: c22pairs,
		Label: func(c int) string {
			i, j, same := c22pair(c)
			return fmt.Sprint(c22ops[i].n, " | ", c22ops[j].n, " same connection: ", same)
		},
		Specs: specs(pol(Spec{D: 1}), pol(Spec{D: 1, Fine: true}, Spec{D: 2})),
	})
	ns := len(c22srv) * (2*len(c22ops) + 2)
	l = append(l, &Scenario{
		Name: "server-ops", Desc: "every operation on the server while handlers on two connections perform every context operation, clients connect and clients leave",
		N: n(ns, ns), Run: c22server,
		Label: func(c int) string {
			o := "connect, disconnect"
			if i := c % (2*len(c22ops) + 2); i < 2*len(c22ops) {
				o = fmt.Sprint(c22ops[i/2].n, []string{"", ", a second later"}[i%2])
			}
			return fmt.Sprint(c22srv[c/(2*len(c22ops)+2)].n, " | ", o)
		},
		Specs: specs(pol(Spec{D: 0}, Spec{D: 0, Fine: true}), pol(Spec{D: 1})),
	})
	register(&Prop{
		ID: "C22", Race: true, Scenarios: l,
		Assumptions: []string{
			"happens-before analysis by the Go race detector of every explored execution",
			"application handlers share nothing but what tcpx gives them",
		},
	})
}

type c22op struct {
	n string
	f func(c *tcpx.Context, me string)
}

var c22ops = []c22op{
	{"SetCtxPerConn", func(c *tcpx.Context, me string) { c.SetCtxPerConn("k", me) }},
	{"GetCtxPerConn", func(c *tcpx.Context, me string) { c.GetCtxPerConn("k") }},
	{"SetCtxPerRequest", func(c *tcpx.Context, me string) { c.SetCtxPerRequest("k", me); c.GetCtxPerRequest("k") }},
	{"Online", func(c *tcpx.Context, me string) { c.Online("u") }},
	{"Offline", func(c *tcpx.Context, me string) { c.Offline() }},
	{"Username", func(c *tcpx.Context, me string) { c.Username() }},
	{"SetUsername", func(c *tcpx.Context, me string) { c.SetUsername(me); c.GetUsername() }},
	{"JSON", func(c *tcpx.Context, me string) { c.JSON(2, me) }},
	{"Reply with header", func(c *tcpx.Context, me string) { c.Reply(2, me, map[string]interface{}{"k": me}) }},
	{"XML", func(c *tcpx.Context, me string) { c.XML(2, me) }},
	{"SendToUsername", func(c *tcpx.Context, me string) { c.SendToUsername("u", 9, me) }},
	{"GetClientPool", func(c *tcpx.Context, me string) { c.GetPoolRef().GetClientPool("u") }},
	{"CloseConn", func(c *tcpx.Context, me string) { c.CloseConn() }},
	{"IsOnline", func(c *tcpx.Context, me string) { c.IsOnline(); c.IsOffline() }},
	{"RecvHeartBeat", func(c *tcpx.Context, me string) { c.RecvHeartBeat() }},
	{"RecvAuthPass", func(c *tcpx.Context, me string) { c.RecvAuthPass() }},
	{"SetDeadline", func(c *tcpx.Context, me string) {
		c.SetDeadline(time.Time{})
		c.SetReadDeadline(time.Time{})
		c.SetWriteDeadline(time.Time{})
	}},
	{"ClientIP, Network", func(c *tcpx.Context, me string) { c.ClientIP(); c.Network() }},
	{"Bind", func(c *tcpx.Context, me string) { var s string; c.Bind(&s); c.RouterType(); c.RawStream() }},
	{"Abort", func(c *tcpx.Context, me string) { c.Abort() }},
}

func c22pair(c int) (i, j int, same bool) {
	same = c%2 == 0
	c /= 2
	for i = 0; ; i++ {
		if c <= i {
			return i, c, same
		}
		c -= i + 1
	}
}

func c22pairs(t *T, cfg int) {
	i, j, same := c22pair(cfg)
	srv := newSrv()
	srv.WithBuiltInPool(true)
	srv.WithBroadCastSignal(true)
	srv.HeartBeatMode(true, time.Hour)
	srv.WithAuthDetail(true, time.Hour, false, 60, func(c *tcpx.Context) { c.RecvAuthPass() })
	srv.UseGlobal(func(c *tcpx.Context) { c.Next() })
	srv.OnConnect = func(c *tcpx.Context) { c.SetCtxPerConn("k", "0"); c.Online("u") }
	srv.OnClose = func(c *tcpx.Context) {}
	srv.AddHandler(1, func(c *tcpx.Context) { c22ops[i].f(c, "1") })
	srv.AddHandler(2, func(c *tcpx.Context) { c22ops[j].f(c, "2") })
	serve(srv, "tcp", addr)
	a := dial("tcp", addr)
	vs.WaitIdle()
	if same {
		a.Write(append(msg(1, "x"), msg(2, "y")...))
	} else {
		b := dial("tcp", addr)
		a.Write(msg(1, "x"))
		b.Write(msg(2, "y"))
	}
	vs.WaitIdle()
	a.Write(append(msg(1, "x"), msg(2, "y")...))
	vs.WaitIdle()
}

var c22srv = []struct {
	n string
	f func(s *tcpx.TcpX)
}{
	{"Stop(true)", func(s *tcpx.TcpX) { s.Stop(true) }},
	{"Stop(false)", func(s *tcpx.TcpX) { s.Stop(false) }},
	{"Restart(true)", func(s *tcpx.TcpX) { s.Restart(true) }},
	{"Restart(false)", func(s *tcpx.TcpX) { s.Restart(false) }},
	{"Restart(true) twice", func(s *tcpx.TcpX) { s.Restart(true); vs.Sleep(time.Second / 2); s.Restart(true) }},
	{"Stop(false), Start, State", func(s *tcpx.TcpX) { s.Stop(false); s.Start(); s.State() }},
	{"two Stop(true)", func(s *tcpx.TcpX) { vs.GoNamed("stop", func() { s.Stop(true) }); s.Stop(true) }},
}

func c22server(t *T, cfg int) {
	op, i := c22srv[cfg/(2*len(c22ops)+2)], cfg%(2*len(c22ops)+2)
	srv := newSrv()
	srv.WithBuiltInPool(true)
	srv.WithBroadCastSignal(true)
	srv.HeartBeatMode(true, time.Hour)
	srv.WithAuthDetail(true, time.Hour, false, 60, func(c *tcpx.Context) { c.RecvAuthPass() })
	srv.OnConnect = func(c *tcpx.Context) { c.SetCtxPerConn("k", "0"); c.Online("u") }
	srv.OnClose = func(c *tcpx.Context) {}
	srv.AddHandler(1, func(c *tcpx.Context) {
		if i < 2*len(c22ops) {
			if i%2 == 1 {
				vs.Sleep(time.Second)
			}
			c22ops[i/2].f(c, "1")
		}
	})
	serve(srv, "tcp", addr)
	serve(srv, "tcp", ":7072")
	a, b := dial("tcp", addr), dial("tcp", ":7072")
	vs.WaitIdle()
	a.Write(msg(1, "x"))
	b.Write(msg(1, "y"))
	if i >= 2*len(c22ops) {
		vs.GoNamed("client", func() {
			if i == 2*len(c22ops) {
				if c := dial("tcp", addr); c != nil {
					c.Write(msg(1, "z"))
				}
			} else {
				a.Close()
				b.Reset()
			}
		})
	}
	vs.GoNamed("operator", func() {
		if i < 2*len(c22ops) && i%2 == 1 { // the handlers have begun and end after it
			vs.Sleep(time.Second / 10)
		}
		op.f(srv)
	})
	vs.WaitIdle()
	vs.Sleep(10 * time.Second)
	vs.WaitIdle()
}
