package main

import (
	"fmt"
	"net"
	"strings"

	"github.com/fwhezfwhez/tcpx"
	"verifmc/vs"
)

// C10: the built-in pool.  Reference: a map from user name to connection.

func init() {
	register(&Prop{
		ID: "C10",
		Scenarios: []*Scenario{
			{
				Name: "histories", Desc: "all histories of online/offline/close/reconnect by clients sharing two names; after every step both names are looked up and messaged from another connection and from those of the users",
				N: n(3, 3), Run: func(t *T, cfg int) { c10hist(t, cfg, map[string]int{"quick": 5, "thorough": 6}[t.tier]) },
				Specs: specs([]Spec{{D: 0}}, []Spec{{D: 0, Policy: 0}, {D: 0, Policy: 1}}),
			},
			{
				Name: "names", Desc: "every pair of distinct names out of a set of similar and unusual ones, one connection under each",
				N: n(len(c10odd), len(c10odd)), Run: c10names2,
				Label: func(c int) string { return fmt.Sprintf("%.20q", c10odd[c]) },
				Specs: specs([]Spec{{D: 0}}, pol(Spec{D: 0})),
			},
			{
				Name: "several", Desc: "all histories of connections that log in under any of two names, one after the other and both, log out, end and come back",
				N: n(3, 3), Run: func(t *T, cfg int) { c10several(t, cfg, map[string]int{"quick": 5, "thorough": 6}[t.tier]) },
				Label: func(c int) string { return []string{"clients close", "handlers close", "clients reset"}[c] },
				Specs: specs([]Spec{{D: 0}}, []Spec{{D: 0, Shards: 8}}),
			},
			{
				Name: "own-pool", Desc: "all histories of Online, SetClientPool, Offline and DeleteFromClientPool on a pool of one's own, against a map",
				N: n(2, 2), Native: c10own,
			},
			{
				Name: "tagged", Desc: "SetUsername after, before or between log-ins: the connection leaves the pool under all its names, and nobody else does",
				N: n(4*3*4, 4*3*4), Run: c10tagged,
				Label: func(c int) string {
					return fmt.Sprintf("SetUsername(%q) %s, then %s", c10tags[c%4], []string{"after", "before", "between"}[c/4%3], []string{"Offline", "CloseConn", "close", "reset"}[c/12])
				},
				Specs: specs(pol(Spec{D: 1}), pol(Spec{D: 1, Fine: true}, Spec{D: 2})),
			},
			{
				Name: "own-pool-threads", Desc: "three goroutines put, look up and delete a name each, in one pool of one's own",
				N: n(2, 2), Run: c10ownThreads,
				Specs: specs(pol(Spec{D: 2, Fine: true}), pol(Spec{D: 3, Fine: true, Shards: 4})),
			},
			{
				Name: "scale", Desc: "1300 connections, each under a name of its own; each is reached by its name; every third leaves or logs out, and all are looked up again", Steps: 3000000,
				N: n(3, 3), Run: c10scale,
				Specs: specs([]Spec{{D: 0}}, pol(Spec{D: 0})),
			},
			{
				Name: "concurrent", Desc: "log-ins, log-outs, disconnects and sends of different connections at the same time",
				N: n(len(c10conc), len(c10conc)), Run: c10concurrent,
				Label: func(c int) string { return c10conc[c] },
				Specs: specs(pol(Spec{D: 1, Fine: true}, Spec{D: 2}), pol(Spec{D: 2, Fine: true, Shards: 8}, Spec{D: 3, Shards: 8}, Spec{D: 3, Fine: true, Shards: 32})),
			},
			{
				Name: "reconnect", Desc: "the log-in races of a reconnecting user, statement by statement with two deviations",
				N: n(3, 3), Run: func(t *T, cfg int) { c10concurrent(t, cfg*2) },
				Label: func(c int) string { return c10conc[c*2] },
				Specs: specs(pol(Spec{D: 2, Fine: true, Shards: 4}), nil),
			},
		},
	})
}

type c10env struct {
	srv  *tcpx.TcpX
	errs map[string]string
}

// protocol: 1 online, 2 offline, 3 send to a name, 4 close by the server
func newC10() *c10env {
	e := &c10env{srv: newSrv(), errs: map[string]string{}}
	e.srv.WithBuiltInPool(true)
	es := func(err error) string {
		if err == nil {
			return "ok"
		}
		return "error"
	}
	note := func(k, v string) {
		if !off() {
			e.errs[k] = v
		}
	}
	e.srv.AddHandler(1, func(c *tcpx.Context) {
		b := bodyOf(c)
		note("online "+b, es(c.Online(b)))
	})
	e.srv.AddHandler(2, func(c *tcpx.Context) { note("offline "+bodyOf(c), es(c.Offline())) })
	e.srv.AddHandler(3, func(c *tcpx.Context) {
		b := bodyOf(c) // "name tag"
		i := strings.LastIndex(b, " ")
		name, tag := b[:i], b[i+1:]
		note("send "+b, es(c.SendToUsername(name, 9, tag)))
		note("lookup "+b, fmt.Sprint(c.GetPoolRef().GetClientPool(name) != nil))
	})
	e.srv.AddHandler(4, func(c *tcpx.Context) { c.CloseConn() })
	return e
}

// probe sends to name from the probing connection and returns which client got
// it (-1: none) and whether SendToUsername reported success.
func (e *c10env) probe(t *T, p *vs.VConn, clients []*vs.VConn, name, tag string) (int, bool, bool) {
	p.Write(msg(3, name+" "+tag))
	vs.WaitIdle()
	who := -1
	for i, c := range clients {
		if c == nil {
			continue
		}
		fs, ok := parse(c.Peek())
		if !ok {
			t.Fail("client %d received a broken frame", i)
		}
		for _, f := range fs {
			if f.ID == 9 && f.Str() == tag {
				if who >= 0 {
					t.Fail("the message to %s reached two connections", name)
				}
				who = i
			}
		}
	}
	return who, e.errs["send "+name+" "+tag] == "ok", e.errs["lookup "+name+" "+tag] == "true"
}

var c10names = []string{"u", "u", "w"}

func c10hist(t *T, cfg, length int) {
	e := newC10()
	serve(e.srv, "tcp", addr)
	probe := dial("tcp", addr)
	clients := []*vs.VConn{dial("tcp", addr), dial("tcp", addr), dial("tcp", addr)}
	vs.WaitIdle()
	ref := map[string]int{} // name -> client
	var desc []string
	nops := 3
	for step := 0; step < length; step++ {
		ci := vs.Choose(3)
		c := clients[ci]
		name := c10names[ci]
		switch op := vs.Choose(nops); {
		case c == nil: // reconnect
			clients[ci] = dial("tcp", addr)
			desc = append(desc, fmt.Sprint("reconnect ", ci))
			vs.WaitIdle()
			continue
		case op == 0:
			c.Write(msg(1, name))
			ref[name] = ci
			desc = append(desc, fmt.Sprintf("%d online %s", ci, name))
		case op == 1:
			c.Write(msg(2, name))
			if v, ok := ref[name]; ok && v == ci {
				delete(ref, name)
			}
			desc = append(desc, fmt.Sprint(ci, " offline"))
		case op == 2:
			if v, ok := ref[name]; ok && v == ci {
				delete(ref, name)
			}
			switch cfg {
			case 0:
				c.Close()
			case 1:
				c.Write(msg(4, ""))
			case 2:
				c.Reset()
			}
			clients[ci] = nil
			desc = append(desc, fmt.Sprint(ci, " gone"))
		}
		vs.WaitIdle()
		for si, nm := range []string{"u", "w", "u", "w", "u", "w", "u", "w"} {
			from := probe
			if si >= 2 { // the sender may be, or have been, a user itself
				if from = clients[si/2-1]; from == nil || step < length-1 {
					continue
				}
			}
			who, ok, found := e.probe(t, from, clients, nm, fmt.Sprint("s", si, nm, step))
			want, on := ref[nm]
			if !on {
				want = -1
			}
			if t.Failed {
				return
			}
			if who != want || ok != on || found != on {
				t.Fail("history %v: message to %q from client %d reached client %d (success %v, pool entry %v), want client %d", desc, nm, si/2-1, who, ok, found, want)
				return
			}
		}
	}
	t.Outcome("%v", desc)
}

// c10several: a connection may log in under several names; it has them all
// until another takes them, it logs out or ends.
func c10several(t *T, cfg, length int) {
	e := newC10()
	serve(e.srv, "tcp", addr)
	probe := dial("tcp", addr)
	clients := []*vs.VConn{dial("tcp", addr), dial("tcp", addr)}
	vs.WaitIdle()
	ref := map[string]int{}
	free := func(ci int) {
		for k, v := range ref {
			if v == ci {
				delete(ref, k)
			}
		}
	}
	var desc []string
	for step := 0; step < length; step++ {
		ci := vs.Choose(2)
		c := clients[ci]
		if c == nil {
			clients[ci] = dial("tcp", addr)
			desc = append(desc, fmt.Sprint("reconnect ", ci))
			vs.WaitIdle()
			continue
		}
		switch op := vs.Choose(4); op {
		case 0, 1:
			nm := []string{"u", "w"}[op]
			c.Write(msg(1, nm))
			ref[nm] = ci
			desc = append(desc, fmt.Sprintf("%d online %s", ci, nm))
		case 2:
			c.Write(msg(2, ""))
			free(ci)
			desc = append(desc, fmt.Sprint(ci, " offline"))
		case 3:
			free(ci)
			switch cfg {
			case 0:
				c.Close()
			case 1:
				c.Write(msg(4, ""))
			case 2:
				c.Reset()
			}
			clients[ci] = nil
			desc = append(desc, fmt.Sprint(ci, " gone"))
		}
		vs.WaitIdle()
		for si, nm := range []string{"u", "w"} {
			who, ok, found := e.probe(t, probe, clients, nm, fmt.Sprint("s", si, nm, step))
			want, on := ref[nm]
			if !on {
				want = -1
			}
			if t.Failed {
				return
			}
			if who != want || ok != on || found != on {
				t.Fail("history %v: message to %q reached client %d (success %v, pool entry %v), want client %d", desc, nm, who, ok, found, want)
				return
			}
		}
	}
	t.Outcome("%v", desc)
}

var c10odd = []string{"u", "U", " u", "u ", "u\n", "0", "00", "-1", "u:1", "u/1", "tcpx-u", "é", "e\u0301", "nil", "<nil>", "*", strings.Repeat("n", 64), strings.Repeat("n", 65), strings.Repeat("n", 300), "\x00", "\x00u"}

func c10names2(t *T, cfg int) {
	e := newC10()
	serve(e.srv, "tcp", addr)
	probe := dial("tcp", addr)
	a, b := dial("tcp", addr), dial("tcp", addr)
	cl := []*vs.VConn{a, b}
	o := vs.Choose(len(c10odd))
	if o == cfg {
		return
	}
	na, nb := c10odd[cfg], c10odd[o]
	look := func(when, name string, want int) bool {
		who, ok, found := e.probe(t, probe, cl, name, when)
		if who != want || ok != (want >= 0) || found != (want >= 0) {
			t.Fail("%s, names %q and %q: message to %q reached client %d (success %v, pool entry %v), want %d", when, na, nb, name, who, ok, found, want)
			return false
		}
		return true
	}
	a.Write(msg(1, na))
	vs.WaitIdle()
	if !look("first", na, 0) || !look("second-off", nb, -1) {
		return
	}
	b.Write(msg(1, nb))
	vs.WaitIdle()
	if !look("both-a", na, 0) || !look("both-b", nb, 1) {
		return
	}
	a.Write(msg(2, na))
	vs.WaitIdle()
	if !look("out-a", na, -1) || !look("out-b", nb, 1) {
		return
	}
	b.Close()
	vs.WaitIdle()
	cl = cl[:1]
	_ = look("gone-a", na, -1) && look("gone-b", nb, -1)
	t.Outcome("%v", e.errs["send "+na+" first"])
}

func c10scale(t *T, cfg int) {
	const N = 1300
	e := newC10()
	serve(e.srv, "tcp", addr)
	probe := dial("tcp", addr)
	var cs []*vs.VConn
	for i := 0; i < N; i++ {
		cs = append(cs, dial("tcp", addr))
		cs[i].Write(msg(1, fmt.Sprint("user", i)))
		if i%100 == 0 {
			vs.WaitIdle()
		}
	}
	vs.WaitIdle()
	all := func(tag string, gone bool) bool {
		for i := 0; i < N; i++ {
			probe.Write(msg(3, fmt.Sprintf("user%d %s%d", i, tag, i)))
		}
		vs.WaitIdle()
		for i, c := range cs {
			k := fmt.Sprintf("user%d %s%d", i, tag, i)
			out := gone && i%3 == 1
			n := 0
			for _, f := range first(replies(c)) {
				if f.ID != 9 || f.Str() != fmt.Sprint("a", i) && f.Str() != fmt.Sprint("b", i) {
					t.Fail("user%d received %v", i, f)
					return false
				}
				if f.Str() == fmt.Sprint(tag, i) {
					n++
				}
			}
			if out && (n != 0 || e.errs["send "+k] == "ok" || e.errs["lookup "+k] == "true") || !out && (n != 1 || e.errs["send "+k] != "ok" || e.errs["lookup "+k] != "true") {
				t.Fail("of %d users, user%d (away: %v) received %d of 1 messages; SendToUsername: %s, in the pool: %s", N, i, out, n, e.errs["send "+k], e.errs["lookup "+k])
				return false
			}
		}
		return true
	}
	if !all("a", false) {
		return
	}
	for i := 1; i < N; i += 3 {
		switch cfg {
		case 0:
			cs[i].Close()
		case 1:
			cs[i].Write(msg(2, ""))
		case 2:
			cs[i].Write(msg(4, ""))
		}
	}
	vs.WaitIdle()
	all("b", true)
	t.Outcome("%d", N)
}

var c10conc = []string{
	"old connection closes while a new one logs in under its name",
	"old connection logs out while a new one logs in under its name",
	"log-in races the disconnect of the same connection",
	"two connections log in under one name",
	"server closes the old connection while a new one logs in",
	"send races the target's disconnect",
	"send races the target's log-in",
	"log-in and log-out under different names",
	"log-in races Stop(true)",
	"one connection logs in under two names while it ends",
	"one connection logs in under another name while it logs out; then it ends",
}

func c10concurrent(t *T, cfg int) {
	e := newC10()
	serve(e.srv, "tcp", addr)
	probe := dial("tcp", addr)
	a, b := dial("tcp", addr), dial("tcp", addr)
	a.Tag, b.Tag = "a", "b"
	vs.WaitIdle()
	cl := []*vs.VConn{a, b}
	if cfg != 2 && cfg != 3 && cfg != 6 && cfg != 8 && cfg != 9 {
		a.Write(msg(1, "u"))
		vs.WaitIdle()
	}
	want := map[string]int{"u": 1, "w": -1}
	switch cfg {
	case 0:
		vs.GoNamed("a", func() { a.Close() })
		vs.GoNamed("b", func() { b.Write(msg(1, "u")) })
	case 1:
		// either order is legal for who is looked up only if b's log-in survives
		vs.GoNamed("a", func() { a.Write(msg(2, "u")) })
		vs.GoNamed("b", func() { b.Write(msg(1, "u")) })
	case 2:
		vs.GoNamed("a", func() { a.Write(msg(1, "u")); a.Close() })
		want["u"] = -1
	case 3:
		vs.GoNamed("a", func() { a.Write(msg(1, "u")) })
		vs.GoNamed("b", func() { b.Write(msg(1, "u")) })
		want["u"] = -2 // one of them
	case 4:
		vs.GoNamed("a", func() { a.Write(msg(4, "")) })
		vs.GoNamed("b", func() { b.Write(msg(1, "u")) })
	case 5:
		vs.GoNamed("a", func() { a.Close() })
		vs.GoNamed("p", func() { probe.Write(msg(3, "u x")) })
		want["u"] = -1
	case 6:
		vs.GoNamed("b", func() { b.Write(msg(1, "u")) })
		vs.GoNamed("p", func() { probe.Write(msg(3, "u x")) })
	case 7:
		vs.GoNamed("a", func() { a.Write(msg(2, "u")) })
		vs.GoNamed("b", func() { b.Write(msg(1, "w")) })
		want["u"], want["w"] = -1, 1
	case 9:
		vs.GoNamed("a", func() { a.Write(append(msg(1, "u"), msg(1, "w")...)); a.Close() })
		want["u"] = -1
	case 10:
		vs.GoNamed("a", func() { a.Write(append(msg(1, "w"), msg(2, "u")...)) })
		vs.WaitIdle()
		if who, ok, found := e.probe(t, probe, cl, "u", "left-u"); who != -1 || ok || found {
			t.Fail("after the log-out a message to \"u\" reached client %d (success %v, pool entry %v)", who, ok, found)
			return
		}
		a.Close()
		want["u"] = -1
	case 8:
		var pool *tcpx.ClientPool
		e.srv.AddHandler(5, func(c *tcpx.Context) { pool = c.GetPoolRef(); vs.Pub() })
		b.Write(msg(5, ""))
		vs.WaitIdle()
		vs.GoNamed("a", func() { a.Write(msg(1, "u")) })
		vs.GoNamed("stop", func() { e.srv.Stop(true) })
		vs.WaitIdle()
		vs.Sub()
		if pool.GetClientPool("u") != nil {
			t.Fail("after Stop(true) the pool still holds a connection")
		}
		if !a.PeerClosed() || !b.PeerClosed() {
			t.Fail("after Stop(true) a connection is open")
		}
		return
	}
	vs.WaitIdle()
	if r := e.errs["send u x"]; cfg == 6 {
		got := false
		for _, f := range first(replies(b)) {
			got = got || f.ID == 9
		}
		if (r == "ok") != got {
			t.Fail("SendToUsername said %s but the message arrived: %v", r, got)
			return
		}
		t.Outcome("send %v", r)
	}
	for _, nm := range []string{"u", "w"} {
		who, ok, found := e.probe(t, probe, cl, nm, "last-"+nm)
		t.Outcome("%s %d %v %v", nm, who, ok, found)
		w := want[nm]
		on := w != -1
		if w == -2 && who >= 0 {
			w = who
		}
		if who != w || ok != on || found != on {
			t.Fail("afterwards a message to %q reached client %d (success %v, pool entry %v), want client %d", nm, who, ok, found, want[nm])
			return
		}
	}
}

func first(a []Fr, _ bool) []Fr { return a }

// c10own: a pool of one's own is a map, whatever the order of calls.
func c10own(t *T, cfg int) {
	depth := map[string]int{"quick": 5, "thorough": 6}[t.tier]
	names := [][]string{{"a", "b"}, {"", " a"}}[cfg]
	ctxs := []*tcpx.Context{tcpx.NewContext(nil, tcpx.JsonMarshaller{})}
	here, there := net.Pipe() // a context whose connection has ended
	defer there.Close()
	ctxs = append(ctxs, tcpx.NewTCPContext(here, tcpx.JsonMarshaller{}))
	ctxs[1].CloseConn()
	nops := 4 + 4 + 2 + 2
	seq := make([]int, depth)
	var rec func(i int)
	rec = func(i int) {
		if t.Failed {
			return
		}
		if i < depth {
			for o := 0; o < nops; o++ {
				seq[i] = o
				rec(i + 1)
			}
			return
		}
		t.Case(depth)
		p := tcpx.NewClientPool()
		m := map[string]*tcpx.Context{}
		for k, o := range seq {
			switch {
			case o < 4:
				p.Online(names[o%2], ctxs[o/2])
				m[names[o%2]] = ctxs[o/2]
			case o < 8:
				p.SetClientPool(names[o%2], ctxs[(o-4)/2])
				m[names[o%2]] = ctxs[(o-4)/2]
			case o < 10:
				p.Offline(names[o%2])
				delete(m, names[o%2])
			default:
				p.DeleteFromClientPool(names[o%2])
				delete(m, names[o%2])
			}
			for _, n := range append(names, "nobody") {
				if p.GetClientPool(n) != m[n] {
					t.Fail("calls %v: name %q leads to the wrong context", seq[:k+1], n)
					return
				}
			}
		}
	}
	rec(0)
}

func c10ownThreads(t *T, cfg int) {
	p := tcpx.NewClientPool()
	var bad bag
	for i := 0; i < 3; i++ {
		name := fmt.Sprint("u", i)
		a, b := tcpx.NewContext(nil, tcpx.JsonMarshaller{}), tcpx.NewContext(nil, tcpx.JsonMarshaller{})
		vs.GoNamed(name, func() {
			is := func(want *tcpx.Context, what string) {
				if got := p.GetClientPool(name); got != want && !off() {
					bad.add("%s, %s: wrong context", name, what)
				}
			}
			is(nil, "at first")
			p.Online(name, a)
			is(a, "after Online")
			if cfg == 1 {
				p.SetClientPool(name, b)
				is(b, "after SetClientPool")
				p.DeleteFromClientPool(name)
			} else {
				p.Offline(name)
			}
			is(nil, "after it left")
			p.Online(name, b)
			is(b, "after Online again")
		})
	}
	vs.WaitIdle()
	if len(bad.l) > 0 {
		t.Fail("%s", bad.seq())
	}
}

var c10tags = []string{"", "w", "u", "x"}

func c10tagged(t *T, cfg int) {
	tag, when, end := c10tags[cfg%4], cfg/4%3, cfg/12
	e := newC10()
	e.srv.AddHandler(5, func(c *tcpx.Context) { c.SetUsername(bodyOf(c)) })
	serve(e.srv, "tcp", addr)
	probe := dial("tcp", addr)
	a, b := dial("tcp", addr), dial("tcp", addr)
	cl := []*vs.VConn{a, b}
	do := func(c *vs.VConn, id int32, s string) {
		c.Write(msg(id, s))
		vs.WaitIdle()
	}
	vs.WaitIdle()
	do(b, 1, "w")
	if when == 1 {
		do(a, 5, tag)
	}
	do(a, 1, "u")
	if when == 2 {
		do(a, 5, tag)
	}
	do(a, 1, "v")
	if when == 0 {
		do(a, 5, tag)
	}
	look := func(at string, want map[string]int) bool {
		for _, nm := range []string{"u", "v", "w", "x"} {
			w, on := want[nm]
			if !on {
				w = -1
			}
			who, ok, found := e.probe(t, probe, cl, nm, at+nm)
			if t.Failed {
				return false
			}
			if who != w || ok != on || found != on {
				t.Fail("%s: message to %q reached client %d (success %v, pool entry %v), want client %d", at, nm, who, ok, found, w)
				return false
			}
		}
		return true
	}
	if !look("logged-in", map[string]int{"u": 0, "v": 0, "w": 1}) {
		return
	}
	switch end {
	case 0:
		a.Write(msg(2, ""))
	case 1:
		a.Write(msg(4, ""))
	case 2:
		a.Close()
	case 3:
		a.Reset()
	}
	vs.WaitIdle()
	t.Outcome("%d", end)
	if end > 0 {
		cl[0] = nil
	}
	look("left", map[string]int{"w": 1})
}
