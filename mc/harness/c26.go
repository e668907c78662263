package main

import (
	"fmt"

	"github.com/fwhezfwhez/tcpx"
	"verifmc/vs"
)

// C26: wrong registrations are refused, right ones accepted.

func init() {
	register(&Prop{
		ID:          "C26",
		Assumptions: []string{"registrations happen one after another, before the server serves", "what a refused registration leaves behind is not specified"},
		Scenarios: []*Scenario{
			{
				Name: "sequences", Desc: "all sequences of registrations: a conflicting or ill-formed one panics, every other one succeeds",
				N: n(len(c26ops), len(c26ops)*len(c26ops)), Native: c26seq,
				Label: func(c int) string { return fmt.Sprint("first ", c26ops[c%len(c26ops)].name) },
			},
			{
				Name: "networks", Desc: "serving an unknown network returns an error at once; the known ones serve",
				N: n(len(c26nets), len(c26nets)), Run: c26net,
				Label: func(c int) string { return fmt.Sprintf("%q", c26nets[c]) },
				Specs: specs(pol(Spec{D: 1}), pol(Spec{D: 1, Fine: true}, Spec{D: 2})),
			},
			{
				Name: "busy", Desc: "serving an address that is taken returns an error at once and leaves the first server alone",
				N: n(3, 3), Run: c26busy,
				Label: func(c int) string { return []string{"tcp", "udp", "raw"}[c] },
				Specs: specs(pol(Spec{D: 2}), pol(Spec{D: 1, Fine: true}, Spec{D: 3})),
			},
		},
	})
}

// c26st is the reference: which keys are in use and known, which ids and URLs
// are taken.
type c26st struct {
	known, used map[string]bool
	ids         map[int32]bool
	urls        map[string]bool
}

func (s *c26st) use(keys ...string) bool {
	for _, k := range keys {
		if s.used[k] {
			return false
		}
		s.known[k], s.used[k] = true, true
	}
	return true
}

func (s *c26st) unuse(keys ...string) bool {
	for _, k := range keys {
		if !s.used[k] {
			return false
		}
		s.used[k] = false
	}
	return true
}

func (s *c26st) id(i int32) bool {
	if s.ids[i] {
		return false
	}
	s.ids[i] = true
	return true
}

func (s *c26st) url(u string) bool {
	if s.urls[u] {
		return false
	}
	s.urls[u] = true
	return true
}

type c26op struct {
	name string
	do   func(srv *tcpx.TcpX)
	ok   func(s *c26st) bool
}

func c26f(c *tcpx.Context) {}
func c26g(c *tcpx.Context) {}

func no(*c26st) bool  { return false }
func yes(*c26st) bool { return true }

var c26ops = []c26op{
	{"Use(a)", func(s *tcpx.TcpX) { s.Use("a", c26f) }, func(s *c26st) bool { return s.use("a") }},
	{"Use(b)", func(s *tcpx.TcpX) { s.Use("b", c26g) }, func(s *c26st) bool { return s.use("b") }},
	{"Use(a,b)", func(s *tcpx.TcpX) { s.Use("a", c26f, "b", c26g) }, func(s *c26st) bool { return s.use("a", "b") }},
	{"UnUse(a)", func(s *tcpx.TcpX) { s.UnUse("a") }, func(s *c26st) bool { return s.unuse("a") }},
	{"UnUse(b)", func(s *tcpx.TcpX) { s.UnUse("b") }, func(s *c26st) bool { return s.unuse("b") }},
	{"UnUse(b,a)", func(s *tcpx.TcpX) { s.UnUse("b", "a") }, func(s *c26st) bool { return s.unuse("b", "a") }},
	{"AddHandler(1,h)", func(s *tcpx.TcpX) { s.AddHandler(1, c26f) }, func(s *c26st) bool { return s.id(1) }},
	{"AddHandler(1,m,h)", func(s *tcpx.TcpX) { s.AddHandler(1, c26f, c26g) }, func(s *c26st) bool { return s.id(1) }},
	{"AddHandler(-1,h)", func(s *tcpx.TcpX) { s.AddHandler(-1, c26f) }, func(s *c26st) bool { return s.id(-1) }},
	{"AddHandler(0,m,m,h)", func(s *tcpx.TcpX) { s.AddHandler(0, c26f, c26g, c26f) }, func(s *c26st) bool { return s.id(0) }},
	{"AddHandler(0,h)", func(s *tcpx.TcpX) { s.AddHandler(0, c26f) }, func(s *c26st) bool { return s.id(0) }},
	{"Any(\"\",h)", func(s *tcpx.TcpX) { s.Any("", c26f) }, func(s *c26st) bool { return s.url("") }},
	{"Any(/x,h)", func(s *tcpx.TcpX) { s.Any("/x", c26f) }, func(s *c26st) bool { return s.url("/x") }},
	{"Any(/x,m,h)", func(s *tcpx.TcpX) { s.Any("/x", c26f, c26g) }, func(s *c26st) bool { return s.url("/x") }},
	{"Any(/x/,h)", func(s *tcpx.TcpX) { s.Any("/x/", c26f) }, func(s *c26st) bool { return s.url("/x/") }},
	{"UseGlobal(m)", func(s *tcpx.TcpX) { s.UseGlobal(c26f) }, yes},
	{"Use()", func(s *tcpx.TcpX) { s.Use() }, yes},
	{"UnUse()", func(s *tcpx.TcpX) { s.UnUse() }, yes},
	{"Use(a,a)", func(s *tcpx.TcpX) { s.Use("a", c26f, "a", c26f) }, no},
	{"UnUse(a,a)", func(s *tcpx.TcpX) { s.UnUse("a", "a") }, no},
	{"UnUse(unknown)", func(s *tcpx.TcpX) { s.UnUse("unknown") }, no},
	{"Use(key only)", func(s *tcpx.TcpX) { s.Use("c") }, no},
	{"Use(three)", func(s *tcpx.TcpX) { s.Use("c", c26f, "d") }, no},
	{"Use(key no string)", func(s *tcpx.TcpX) { s.Use(1, c26f) }, no},
	{"Use(no function)", func(s *tcpx.TcpX) { s.Use("c", "d") }, no},
	{"Use(other function)", func(s *tcpx.TcpX) { s.Use("c", func() {}) }, no},
	{"Use(nil)", func(s *tcpx.TcpX) { s.Use("c", nil) }, no},
	{"AddHandler(1)", func(s *tcpx.TcpX) { s.AddHandler(1) }, no},
	{"Any(/x)", func(s *tcpx.TcpX) { s.Any("/x") }, no},
}

func c26seq(t *T, cfg int) {
	depth := 5
	var pre []int
	if t.tier == "thorough" {
		depth = 7
		pre = []int{cfg % len(c26ops), cfg / len(c26ops)}
	} else {
		pre = []int{cfg}
	}
	try := func(srv *tcpx.TcpX, o c26op) (ok bool) {
		defer func() {
			if recover() != nil {
				ok = false
			}
		}()
		o.do(srv)
		return true
	}
	// run replays seq on a fresh server; it reports whether all of it is legal.
	run := func(seq []int) bool {
		srv := newSrv()
		st := &c26st{map[string]bool{}, map[string]bool{}, map[int32]bool{}, map[string]bool{}}
		for i, o := range seq {
			want := c26ops[o].ok(st)
			if got := try(srv, c26ops[o]); got != want {
				var l []string
				for _, p := range seq[:i] {
					l = append(l, c26ops[p].name)
				}
				t.Fail("after %v, %s succeeds: %v, want %v", l, c26ops[o].name, got, want)
				return false
			}
			if !want {
				return false
			}
		}
		return true
	}
	var rec func(seq []int)
	rec = func(seq []int) {
		if t.Failed {
			return
		}
		t.Case(len(seq))
		if !run(seq) || len(seq) >= depth {
			return
		}
		for o := range c26ops {
			rec(append(seq[:len(seq):len(seq)], o))
		}
	}
	rec(pre)
}

var c26nets = []string{"", "TCP", "tcp5", "tcp46", "tcp ", "kcp", "http", "https", "udp5", "UDP", "unixx", "quic", "tcp", "tcp4", "tcp6", "unix", "udp", "udp4", "udp6"}

func c26net(t *T, cfg int) {
	nw := c26nets[cfg]
	good := cfg >= 12
	at := addr
	switch nw {
	case "unix":
		at = "/tmp/verif-never-created.sock"
	case "tcp6", "udp6":
		at = "[::1]:7000"
	}
	srv := echoSrv()
	var err error
	done := false
	vs.GoNamed("serve", func() { err = srv.ListenAndServe(nw, at); done = true })
	vs.WaitIdle()
	t.Outcome("%v %v", done, err != nil)
	if good == done || !good && err == nil {
		t.Fail("ListenAndServe(%q): returned %v, error %v", nw, done, err)
	}
}

func c26busy(t *T, cfg int) {
	nw := []string{"tcp", "udp", "tcp"}[cfg]
	first, second := echoSrv(), echoSrv()
	serve(first, nw, addr)
	vs.WaitIdle()
	var err error
	done := false
	vs.GoNamed("serve", func() {
		if cfg == 2 {
			err = second.ListenAndServeRaw(nw, addr)
		} else {
			err = second.ListenAndServe(nw, addr)
		}
		done = true
	})
	vs.WaitIdle()
	if !done || err == nil {
		t.Fail("serving a taken address: returned %v, error %v", done, err)
		return
	}
	var got string
	if nw == "udp" {
		c := dialUDP(addr)
		c.Write(msg(1, "x"))
		vs.WaitIdle()
		got = fmt.Sprint(len(c.TakeDatagrams()) == 1)
	} else {
		c := dial(nw, addr)
		c.Write(msg(1, "x"))
		vs.WaitIdle()
		fs, _ := replies(c)
		got = fmt.Sprint(len(fs) == 1)
	}
	if got != "true" {
		t.Fail("the first server does not answer after another server tried its address")
	}
	second.Stop(true)
	vs.WaitIdle()
	if c := dial("tcp", addr); nw == "tcp" && c == nil {
		t.Fail("stopping the server that could not start stops the first one")
	}
}
