package main

import (
	"fmt"
	"strings"

	"github.com/fwhezfwhez/tcpx"
	"verifmc/vs"
)

// C07: Next and Abort.  What each handler of a chain does is chosen freely and
// carried in the request; the run is compared with a reference interpreter.

// behaviours: r return, n Next, a Abort, x Abort then Next, d Next twice,
// z Next then Abort, t Abort twice
const c07beh = "rnaxdzt"

func init() {
	register(&Prop{
		ID:          "C07",
		Assumptions: []string{"Next and Abort are called by the handler's own goroutine"},
		Scenarios: []*Scenario{
			{
				Name: "behaviours", Desc: "every assignment of behaviours to the handlers of a chain, followed by an ordinary request on the same connection",
				N: n(len(c07kinds), len(c07kinds)), Run: c07one,
				Label: func(c int) string { return c07kinds[c] },
				Specs: specs([]Spec{{D: 0}}, []Spec{{D: 0, Policy: 0}, {D: 0, Policy: 1}}),
			},
			{
				Name: "long-chains", Desc: "chains of 3, 11, 12 and 25 handlers in which one handler aborts, at every position, before or after calling Next; chains of 2019 to 2500 handlers likewise at positions near their ends",
				N: n(8, 8), Run: c07long, Steps: 3000000,
				Specs: specs([]Spec{{D: 0}}, []Spec{{D: 0}}),
			},
			{
				Name: "longest-chains", Desc: "chains of 5000, 40000 and 70000 handlers that return or call Next, in which none, one in the middle or the last but one aborts",
				N: n(6, 6), Run: c07huge, Steps: 3000000,
				Specs: specs([]Spec{{D: 0}}, []Spec{{D: 0}}),
			},
			{
				Name: "overlap", Desc: "two requests of different routes held at every position of their chains until both are there or nothing else moves; 0-5 global, 0-3 anchored and 0-3 own middlewares, one or two connections",
				N: n(len(c07pairs)*2, len(c07pairs)*2), Run: c07overlap,
				Label: func(c int) string { return fmt.Sprint(c07pairs[c/2], " connections ", c%2+1) },
				Specs: specs(pol(Spec{D: 0}), pol(Spec{D: 1})),
			},
			{
				Name: "concurrent", Desc: "requests with different behaviours running concurrently on one or two connections",
				N: n(6, 6), Run: c07conc,
				Label: func(c int) string { return fmt.Sprint(c07sets[c/2], " connections ", c%2+1) },
				Specs: specs(pol(Spec{D: 1, Fine: true}, Spec{D: 2}), pol(Spec{D: 2, Fine: true, Shards: 8}, Spec{D: 3, Shards: 8})),
			},
		},
	})
}

var c07kinds = []string{"id", "url", "onmessage", "udp", "pipe", "raw"}

type c07log struct{ m map[string][]string }

func (l *c07log) h(i int) func(c *tcpx.Context) {
	return func(c *tcpx.Context) {
		req := bodyOf(c)
		l.run(i, req, c)
	}
}

func (l *c07log) run(i int, req string, c *tcpx.Context) {
	add := func(s string) {
		if !off() {
			l.m[req] = append(l.m[req], fmt.Sprintf("%s%d", s, i))
		}
	}
	_, bs, _ := strings.Cut(req, ":")
	b := byte('r')
	if i%10000 < len(bs) {
		b = bs[i%10000]
	}
	add("+")
	switch b {
	case 'n':
		c.Next()
	case 'a':
		c.Abort()
	case 'x':
		c.Abort()
		c.Next()
	case 'd':
		c.Next()
		c.Next()
	case 'z':
		c.Next()
		c.Abort()
	case 't':
		c.Abort()
		c.Abort()
	}
	add("-")
}

// reference interpreter
func c07ref(req string, n int) string {
	_, bs, _ := strings.Cut(req, ":")
	var out []string
	pos, ab := -1, false
	var next func()
	next = func() {
		pos++
		for !ab && pos < n {
			i := pos
			out = append(out, fmt.Sprintf("+%d", i))
			b := byte('r')
			if i < len(bs) {
				b = bs[i]
			}
			switch b {
			case 'n':
				next()
			case 'a', 't':
				ab = true
			case 'x':
				ab = true
				next()
			case 'd':
				next()
				next()
			case 'z':
				next()
				ab = true
			}
			out = append(out, fmt.Sprintf("-%d", i))
			pos++
		}
	}
	next()
	return strings.Join(out, " ")
}

// c07srv builds a server whose chains have nh handlers: global, anchor, self..., handler.
func c07srv(l *c07log, nh int, onMessage bool) *tcpx.TcpX {
	srv := newSrv()
	srv.UseGlobal(l.h(0))
	srv.Use("a", l.h(1))
	if onMessage {
		srv.OnMessage = l.h(2)
		return srv
	}
	var hs []func(*tcpx.Context)
	for i := 2; i < nh; i++ {
		hs = append(hs, l.h(i))
	}
	srv.AddHandler(1, hs...)
	srv.Any("/u", hs...)
	return srv
}

func c07check(t *T, l *c07log, req string, n int) bool {
	if g, w := strings.Join(l.m[req], " "), c07ref(req, n); g != w {
		t.Fail("request %q: handlers ran [%s], want [%s]", short(req), short(g), short(w))
		return false
	}
	return true
}

func c07one(t *T, cfg int) {
	kind := c07kinds[cfg]
	l := &c07log{map[string][]string{}}
	nh := 4
	if kind == "onmessage" || kind == "raw" {
		nh = 3
	}
	var bs []byte
	for i := 0; i < nh; i++ {
		bs = append(bs, c07beh[vs.Choose(len(c07beh))])
	}
	req, plain := "r1:"+string(bs), "r2:"
	if kind == "raw" {
		// one chain per connection
		srv := newSrv()
		h := func(i int) func(c *tcpx.Context) {
			return func(c *tcpx.Context) {
				v, _ := c.GetCtxPerConn("req")
				l.run(i, v.(string), c)
			}
		}
		srv.OnConnect = func(c *tcpx.Context) {
			c.SetCtxPerConn("req", []string{req, plain}[connNum(c)-1])
		}
		srv.UseGlobal(h(0))
		srv.Use("a", h(1))
		srv.HandleRaw = h(2)
		serveRaw(srv, "tcp", addr)
		dial("tcp", addr)
		vs.WaitIdle()
		dial("tcp", addr)
		vs.WaitIdle()
	} else {
		srv := c07srv(l, nh, kind == "onmessage")
		switch kind {
		case "udp":
			serve(srv, "udp", addr)
			c := dialUDP(addr)
			c.Write(msg(1, req))
			vs.WaitIdle()
			c.Write(msg(1, plain))
		case "pipe":
			serve(srv, "tcp", addr)
			c := dial("tcp", addr)
			c.Write(append(hdrFrame(1, pipeHdr(`"enable;3"`), req), append(urlMsg("/u", "r3:"+string(bs)), msg(1, plain)...)...))
		default:
			serve(srv, "tcp", addr)
			c := dial("tcp", addr)
			f := msg
			if kind == "url" {
				f = func(_ int32, b string) []byte { return urlMsg("/u", b) }
			}
			c.Write(f(1, req))
			vs.WaitIdle()
			c.Write(f(1, plain))
		}
		vs.WaitIdle()
	}
	t.Outcome("%v", l.m[req])
	_ = c07check(t, l, req, nh) && c07check(t, l, plain, nh)
	if kind == "pipe" {
		c07check(t, l, "r3:"+string(bs), nh)
	}
}

func c07long(t *T, cfg int) {
	nh := []int{3, 11, 12, 25, 2019, 2020, 2021, 2500}[cfg]
	l := &c07log{map[string][]string{}}
	at := 0
	if nh < 100 {
		at = vs.Choose(nh)
	} else {
		at = []int{0, 1, 2017, 2018, nh - 2, nh - 1, -1}[vs.Choose(7)]
	}
	bs := []byte(strings.Repeat([]string{"r", "n"}[vs.Choose(2)], nh))
	if at >= 0 {
		bs[at] = "axz"[vs.Choose(3)]
	}
	srv := c07srv(l, nh, false)
	serve(srv, "tcp", addr)
	c := dial("tcp", addr)
	reqs := []string{"i:" + string(bs), "j:", "u:" + string(bs), "v:"}
	c.Write(msg(1, reqs[0]))
	c.Write(msg(1, reqs[1]))
	c.Write(urlMsg("/u", reqs[2]))
	c.Write(urlMsg("/u", reqs[3]))
	vs.WaitIdle()
	t.Outcome("%s", short(fmt.Sprint(l.m[reqs[0]])))
	for _, r := range reqs {
		if !c07check(t, l, r, nh) {
			return
		}
	}
}

func c07huge(t *T, cfg int) {
	nh, next := []int{5000, 40000, 70000}[cfg/2], cfg%2 == 1
	at := []int{-1, nh / 2, nh - 2}[vs.Choose(3)]
	ran := map[string]int{}
	var hs []func(*tcpx.Context)
	for i := 0; i < nh; i++ {
		i := i
		hs = append(hs, func(c *tcpx.Context) {
			if off() {
				return
			}
			b := bodyOf(c)
			if ran[b] != i {
				t.Fail("handler %d of %d runs after %d others", i, nh, ran[b])
			}
			ran[b] = i + 1
			if i == at && b[0] == 'a' {
				c.Abort()
			} else if next {
				c.Next()
			}
		})
	}
	srv := newSrv()
	srv.AddHandler(1, hs...)
	srv.Any("/u", hs...)
	serve(srv, "tcp", addr)
	c := dial("tcp", addr)
	c.Write(msg(1, "a1"))
	c.Write(msg(1, "b1"))
	c.Write(urlMsg("/u", "a2"))
	c.Write(urlMsg("/u", "b2"))
	vs.WaitIdle()
	t.Outcome("%d", len(ran))
	for _, b := range []string{"a1", "b1", "a2", "b2"} {
		want := nh
		if b[0] == 'a' && at >= 0 {
			want = at + 1
		}
		if ran[b] != want {
			t.Fail("request %s, chain of %d handlers, Abort by handler %d of the a-requests: %d ran, want %d", b, nh, at, ran[b], want)
			return
		}
	}
}

var c07pairs = [][2]string{{"1", "2"}, {"1", "/a"}, {"/a", "/b"}, {"/a", "2"}}

func c07overlap(t *T, cfg int) {
	pair := c07pairs[cfg/2]
	g, a, own := vs.Choose(6), vs.Choose(4), vs.Choose(4)
	total := g + a + own + 1
	hold := vs.Choose(total)
	got := map[string][]string{}
	at := map[string]bool{}
	release := false
	step := func(name string) func(c *tcpx.Context) {
		return func(c *tcpx.Context) {
			if off() {
				return
			}
			req := bodyOf(c)
			got[req] = append(got[req], name)
			if len(got[req]) == hold+1 {
				at[req] = true
				vs.WaitUntil("other request", func() bool { return len(at) == 2 || release })
			}
		}
	}
	srv := newSrv()
	var shared []string
	for i := 0; i < g; i++ {
		shared = append(shared, fmt.Sprint("g", i))
		srv.UseGlobal(step(shared[i]))
	}
	for i := 0; i < a; i++ {
		shared = append(shared, fmt.Sprint("a", i))
		srv.Use(fmt.Sprint(i), step(shared[g+i]))
	}
	want := map[string]string{}
	for _, r := range []string{"1", "2", "/a", "/b"} {
		chain := append([]string{}, shared...)
		var hs []func(*tcpx.Context)
		for i := 0; i <= own; i++ {
			chain = append(chain, fmt.Sprint(r, "h", i))
			hs = append(hs, step(chain[len(chain)-1]))
		}
		want[r] = strings.Join(chain, " ")
		if r[0] == '/' {
			srv.Any(r, hs...)
		} else {
			srv.AddHandler(int32(r[0]-'0'), hs...)
		}
	}
	serve(srv, "tcp", addr)
	c := dial("tcp", addr)
	for i, r := range pair {
		if i == 1 && cfg%2 == 1 {
			c = dial("tcp", addr)
		}
		if r[0] == '/' {
			c.Write(urlMsg(r, r))
		} else {
			c.Write(msg(int32(r[0]-'0'), r))
		}
	}
	vs.WaitIdle()
	release = true
	vs.WaitIdle()
	t.Outcome("%v", len(at))
	for _, r := range pair {
		if x := strings.Join(got[r], " "); x != want[r] {
			t.Fail("%d global, %d anchored, %d own middlewares, held at %d: request of route %s ran [%s], want [%s]", g, a, own, hold, r, x, want[r])
			return
		}
	}
}

var c07sets = [][]string{
	{"p:nnn", "q:ar", "s:rna"},
	{"p:rra", "q:nnnn", "s:xn"},
	{"p:zn", "q:rr", "s:nnnd"},
}

func c07conc(t *T, cfg int) {
	l := &c07log{map[string][]string{}}
	reqs := c07sets[cfg/2]
	srv := c07srv(l, 4, false)
	// the url route has handlers of its own, which must not be confused with
	// those of the message id
	srv.Any("/v", l.h(10002), l.h(10003))
	serve(srv, "tcp", addr)
	for i := 0; i < cfg%2+1; i++ {
		i := i
		vs.GoNamed(fmt.Sprint("client", i), func() {
			c := dial("tcp", addr)
			for k, r := range reqs {
				if cfg%2 == 1 && k%2 != i {
					continue
				}
				if k == 1 {
					c.Write(urlMsg("/v", r))
				} else {
					c.Write(msg(1, r))
				}
			}
		})
	}
	vs.WaitIdle()
	t.Outcome("%v", len(l.m))
	for k, r := range reqs {
		if k == 1 {
			w := strings.NewReplacer("2", "10002", "3", "10003").Replace(c07ref(r, 4))
			if g := strings.Join(l.m[r], " "); g != w {
				t.Fail("request %q: handlers ran [%s], want [%s]", r, g, w)
				return
			}
		} else if !c07check(t, l, r, 4) {
			return
		}
	}
}
