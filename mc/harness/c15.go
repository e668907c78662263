package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/fwhezfwhez/tcpx"
	"verifmc/vs"
)

// C15: pipe batches run in order, one after another.

func init() {
	register(&Prop{
		ID:          "C15",
		Assumptions: []string{"handlers return"},
		Scenarios: []*Scenario{
			{
				Name: "batches", Desc: "one or two connections send batches, with ordinary messages around them",
				N: n(len(c15cfgs), len(c15cfgs)), Run: c15run,
				Label: func(c int) string { return c15cfgs[c].name },
				Specs: specs(pol(Spec{D: 1, Fine: true}, Spec{D: 2}, Spec{D: 1, Seg: true}), pol(Spec{D: 2, Fine: true, Shards: 8}, Spec{D: 3, Shards: 8}, Spec{D: 2, Seg: true, Shards: 2})),
			},
			{
				Name: "layouts", Desc: "all sequences of batches of size 1..3 and single messages, sent through PipeJSON or as frames, cut by the client after any message or within one, or followed by garbage",
				N: n(2, 2), Run: func(t *T, cfg int) { c15layout(t, cfg, map[string]int{"quick": 4, "thorough": 5}[t.tier]) },
				Specs: specs([]Spec{{D: 0, Policy: 0}, {D: 0, Policy: 1}}, pol(Spec{D: 0})),
			},
			{
				Name: "routes", Desc: "batches in which every message has one of several routes, known and unknown, or a handler that pauses, aborts or closes the connection; all assignments",
				N: n(9, 9), Run: c15routes,
				Label: func(c int) string { return fmt.Sprint("starting with ", c15kinds[c]) },
				Specs: specs(pol(Spec{D: 0}, Spec{D: 1}), pol(Spec{D: 1, Fine: true}, Spec{D: 2, Shards: 4})),
			},
			{
				Name: "equal", Desc: "batches that contain equal messages, one after another or with others between; all assignments of two bodies",
				N: n(6, 6), Run: c15equal,
				Label: func(c int) string { return fmt.Sprint("batch of ", c%3+2, ", url: ", c/3 == 1) },
				Specs: specs(pol(Spec{D: 1}), pol(Spec{D: 1, Fine: true}, Spec{D: 2})),
			},
			{
				Name: "sizes", Desc: "batches of every size up to a bound and around powers of two, on two connections at once with single messages before and after, handlers that pause; small and large bodies",
				N: n(len(c15sizes)*2, len(c15sizes)*2), Run: c15size, Steps: 2000000,
				Label: func(c int) string { return fmt.Sprint("size ", c15sizes[c/2], ", large bodies: ", c%2 == 1) },
				Specs: specs(pol(Spec{D: 0}), append(pol(Spec{D: 0, Fine: true}), pol(Spec{D: 0, Seg: true})...)),
			},
		},
	})
}

// item: batch size (0: single message)
type c15cfg struct {
	name  string
	conns [][]int
	route string
	pipej bool
	yield bool
}

var c15cfgs = []c15cfg{
	{name: "one batch of 3", conns: [][]int{{3}}, yield: true},
	{name: "one batch of 3 by url", conns: [][]int{{3}}, route: "url", yield: true},
	{name: "batch, message", conns: [][]int{{2, 0}}, yield: true},
	{name: "message, batch", conns: [][]int{{0, 2}}, yield: true},
	{name: "two batches", conns: [][]int{{2, 2}}},
	{name: "two connections", conns: [][]int{{2}, {2}}},
	{name: "PipeJSON of 3", conns: [][]int{{3}}, pipej: true, yield: true},
	{name: "batch of 1 and of 4", conns: [][]int{{1, 4}}},
	{name: "OnMessage", conns: [][]int{{3}}, route: "onmessage", yield: true},
}

type c15log struct {
	ev  bag
	srv *tcpx.TcpX
}

func newC15(route string, yield bool) *c15log {
	l := &c15log{srv: newSrv()}
	l.srv.UseGlobal(func(c *tcpx.Context) {
		l.ev.add("<%s", bodyOf(c))
		if yield {
			vs.Yield()
		}
		c.Next()
		l.ev.add(">%s", bodyOf(c))
	})
	h := func(c *tcpx.Context) {
		b := bodyOf(c)
		l.ev.add("[%s", b)
		if yield {
			vs.Yield()
		}
		c.JSON(2, b)
		var s string
		if _, e := c.Bind(&s); e != nil || s != b {
			l.ev.add("!%s bound %q %v", b, s, e)
		}
		l.ev.add("]%s", b)
	}
	if route == "onmessage" {
		l.srv.OnMessage = h
	} else {
		l.srv.AddHandler(1, h)
		l.srv.AddHandler(3, h)
		l.srv.Any("/u", h)
	}
	return l
}

// check: every message ran completely, once; those of a batch without overlap
// and in order.
func (l *c15log) check(t *T, batches [][]string) bool {
	pos := map[string]int{}
	for i, e := range l.ev.l {
		if e[0] == '!' {
			t.Fail("%s", e)
			return false
		}
		if _, dup := pos[e]; dup {
			t.Fail("%s twice: %s", e, l.ev.seq())
			return false
		}
		pos[e] = i
	}
	n := 0
	for _, b := range batches {
		last := -1
		for _, m := range b {
			for _, k := range []string{"<", "[", "]", ">"} {
				p, ok := pos[k+m]
				if !ok {
					t.Fail("message %s of batch %v was not processed (no %q): %s", m, b, k, l.ev.seq())
					return false
				}
				n++
				if p < last {
					t.Fail("batch %v not processed in order, one after another: %s", b, l.ev.seq())
					return false
				}
				last = p
			}
		}
	}
	if n != len(l.ev.l) {
		t.Fail("unexpected processing: %s", l.ev.seq())
		return false
	}
	return true
}

func c15frames(items []int, pre, route string) (fs [][]byte, batches [][]string) {
	for i, size := range items {
		if size == 0 {
			m := fmt.Sprintf("%ss%d", pre, i)
			fs = append(fs, msg(3, m))
			batches = append(batches, []string{m})
			continue
		}
		var b []string
		for k := 0; k < size; k++ {
			m := fmt.Sprintf("%sb%d-%d", pre, i, k)
			b = append(b, m)
			hdr := map[string]any{}
			if k == 0 {
				hdr[pipeKey] = fmt.Sprint("enable;", size)
			}
			id := int32(1 + 2*(k%2))
			if route == "url" && k%2 == 0 {
				hdr["Router-Type"], hdr["Router-Pattern-Value"] = "URL_PATTERN", "/u"
				id = 0
			}
			fs = append(fs, frame(id, js(hdr), js(m)))
		}
		batches = append(batches, b)
	}
	return
}

func c15run(t *T, cfg int) {
	k := c15cfgs[cfg]
	l := newC15(k.route, k.yield)
	serve(l.srv, "tcp", addr)
	var all [][]string
	conns := make([]*vs.VConn, len(k.conns))
	for ci, items := range k.conns {
		ci := ci
		fs, bs := c15frames(items, fmt.Sprint("c", ci), k.route)
		all = append(all, bs...)
		vs.GoNamed(fmt.Sprint("client", ci), func() {
			c := dial("tcp", addr)
			conns[ci] = c
			if k.pipej {
				var a []any
				for j, m := range bs[0] {
					a = append(a, 1+2*(j%2), m)
				}
				tcpx.PipeJSON(c, a...)
				return
			}
			for _, f := range fs {
				c.Write(f)
			}
		})
	}
	vs.WaitIdle()
	t.Outcome("%s", l.ev.seq())
	if !l.check(t, all) {
		return
	}
	// replies of a batch arrive in its order
	for ci, c := range conns {
		fs, ok := replies(c)
		if !ok {
			t.Fail("broken replies on connection %d", ci)
			return
		}
		got := map[string]int{}
		for i, s := range strs(fs) {
			got[s] = i + 1
		}
		for _, b := range all {
			last := 0
			for _, m := range b {
				if !strings.HasPrefix(m, fmt.Sprint("c", ci)) {
					continue
				}
				p := got["2:"+m]
				if p <= last {
					t.Fail("replies %v do not follow batch %v", strs(fs), b)
					return
				}
				last = p
			}
		}
	}
}

func c15layout(t *T, cfg, max int) {
	l := newC15("", false)
	serve(l.srv, "tcp", addr)
	var items []int
	for len(items) < max {
		v := vs.Choose(5)
		if v == 4 {
			break
		}
		items = append(items, v)
	}
	fs, bs := c15frames(items, "x", "")
	c := dial("tcp", addr)
	if cfg == 0 {
		// through the client API
		for i, size := range items {
			if size == 0 {
				tcpx.WriteJSON(c, 3, bs[i][0])
				continue
			}
			var a []any
			for j, m := range bs[i] {
				a = append(a, 1+2*(j%2), m)
			}
			if e := tcpx.PipeJSON(c, a...); e != nil {
				t.Fail("PipeJSON: %v", e)
				return
			}
		}
		vs.WaitIdle()
		t.Outcome("%v", items)
		l.check(t, bs)
		return
	}
	// cut after some whole frames: what arrived of an incomplete batch is still
	// processed, nothing else
	cut := vs.Choose(len(fs) + 1)
	out := append([]byte{}, cat(fs[:cut])...)
	how := 0
	if cut < len(fs) {
		how = vs.Choose(4)
	}
	switch how {
	case 1:
		out = append(out, fs[cut][:3]...)
	case 2:
		out = append(out, fs[cut][:len(fs[cut])-1]...)
	case 3:
		out = append(out, lenOnly(0xfffffff0)...)
	}
	c.Write(out)
	if how < 3 {
		c.Close()
	}
	vs.WaitIdle()
	t.Outcome("%v cut %d %d", items, cut, how)
	n := 0
	var want [][]string
	for _, b := range bs {
		var w []string
		for _, m := range b {
			if n < cut {
				w = append(w, m)
			}
			n++
		}
		want = append(want, w)
	}
	if l.check(t, want) {
		if x := vs.LiveServerThreads(); len(x) > 0 {
			t.Fail("batches %v cut after %d messages: goroutines remain %v", items, cut, x)
		}
	}
}

var c15sizes = func() (l []int) {
	for i := 2; i <= 40; i++ {
		l = append(l, i)
	}
	return append(l, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025)
}()

func c15size(t *T, cfg int) {
	size := c15sizes[cfg/2]
	if cfg%2 == 1 && size > 130 {
		return
	}
	l := newC15("", true)
	serve(l.srv, "tcp", addr)
	pad := ""
	if cfg%2 == 1 {
		pad = strings.Repeat("p", 1500)
	}
	var want [][]string
	for ci := 0; ci < 2; ci++ {
		ci := ci
		var b []string
		var args []any
		for k := 0; k < size; k++ {
			m := fmt.Sprintf("c%d-%d%s", ci, k, pad)
			b = append(b, m)
			args = append(args, 1+2*(k%2), m)
		}
		pre, post := fmt.Sprint("pre", ci), fmt.Sprint("post", ci)
		want = append(want, []string{pre}, b, []string{post})
		vs.GoNamed("client", func() {
			c := dial("tcp", addr)
			tcpx.WriteJSON(c, 3, pre)
			tcpx.PipeJSON(c, args...)
			tcpx.WriteJSON(c, 3, post)
			for {
				if _, e := c.Read(make([]byte, 1<<16)); e != nil {
					return
				}
			}
		})
	}
	vs.WaitIdle()
	t.Outcome("%d", size)
	l.check(t, want)
}

var c15kinds = []string{"id", "other id", "url", "other url", "abort", "pause", "close", "unknown id", "unknown url"}

func c15routes(t *T, first int) {
	l := newC15("", true)
	l.srv.Any("/v", func(c *tcpx.Context) {
		vs.Yield()
		l.ev.add("[%s", bodyOf(c))
		l.ev.add("]%s", bodyOf(c))
	})
	l.srv.AddHandler(4, func(c *tcpx.Context) {
		l.ev.add("[%s", bodyOf(c))
		c.Abort()
		vs.Yield()
		l.ev.add("]%s", bodyOf(c))
	})
	l.srv.AddHandler(5, func(c *tcpx.Context) {
		l.ev.add("[%s", bodyOf(c))
		vs.Sleep(time.Second)
		l.ev.add("]%s", bodyOf(c))
	})
	l.srv.AddHandler(6, func(c *tcpx.Context) {
		l.ev.add("[%s", bodyOf(c))
		c.CloseConn()
		l.ev.add("]%s", bodyOf(c))
	})
	serve(l.srv, "tcp", addr)
	var want []string
	var kinds []string
	var fs [][]byte
	for k := 0; k < 3; k++ {
		v := first
		if k > 0 {
			v = vs.Choose(len(c15kinds))
		}
		kinds = append(kinds, c15kinds[v])
		hdr := map[string]any{}
		if k == 0 {
			hdr[pipeKey] = "enable;3"
		}
		var id int32
		url := ""
		switch c15kinds[v] {
		case "id":
			id = 1
		case "other id":
			id = 3
		case "url":
			url = "/u"
		case "other url":
			url = "/v"
		case "abort":
			id = 4
		case "pause":
			id = 5
		case "close":
			id = 6
		case "unknown id":
			id = 99
		case "unknown url":
			url = "/nothing"
		}
		if url != "" {
			hdr["Router-Type"], hdr["Router-Pattern-Value"] = "URL_PATTERN", url
		}
		m := fmt.Sprint("m", k)
		fs = append(fs, frame(id, js(hdr), js(m)))
		if v < 7 {
			want = append(want, m)
		}
	}
	// one write, so that the whole batch is there before a handler closes
	vs.GoNamed("client", func() { dial("tcp", addr).Write(cat(fs)) })
	vs.WaitIdle()
	vs.Sleep(10 * time.Second)
	vs.WaitIdle()
	t.Outcome("%s", l.ev.seq())
	if len(want) == 0 {
		if len(l.ev.l) > 0 {
			t.Fail("batch of unknown routes ran %s", l.ev.seq())
		}
		return
	}
	l.check(t, [][]string{want})
}

func c15equal(t *T, cfg int) {
	n, url := cfg%3+2, cfg/3 == 1
	srv := newSrv()
	var got bag
	busy := 0
	h := func(c *tcpx.Context) {
		b := bodyOf(c)
		busy++
		if busy > 1 {
			t.Fail("two handlers of a batch run at once")
		}
		got.add("%s", b)
		vs.Yield()
		busy--
		c.JSON(2, b)
	}
	srv.AddHandler(1, h)
	srv.Any("/u", h)
	serve(srv, "tcp", addr)
	c := dial("tcp", addr)
	var want []string
	var out []byte
	for i := 0; i < n; i++ {
		b := []string{"p", "q"}[vs.Choose(2)]
		want = append(want, b)
		hd := tcpx.H{}
		if url {
			hd[tcpx.HEADER_ROUTER_KEY], hd[tcpx.HEADER_ROUTER_VALUE] = "URL_PATTERN", "/u"
		}
		if i == 0 {
			hd[tcpx.PIPED] = fmt.Sprint("enable;", n)
		}
		out = append(out, frame(1, js(hd), js(b))...)
	}
	for i := 0; i < 2; i++ {
		got.l = nil
		c.Write(out)
		vs.WaitIdle()
		t.Outcome("%s", got.seq())
		fs, ok := replies(c)
		if got.seq() != strings.Join(want, ",") || !ok || len(fs) != n*(i+1) {
			t.Fail("a batch of %v, sent for the %d. time, ran as %s; answers: %d", want, i+1, got.seq(), len(fs))
			return
		}
	}
}
