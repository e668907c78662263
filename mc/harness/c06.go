package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/fwhezfwhez/tcpx"
	"verifmc/vs"
)

// C06: routing and middleware composition.  Registration programs are
// enumerated with free choices and compared with a reference router.

func init() {
	register(&Prop{
		ID:          "C06",
		Assumptions: []string{"registration happens before ListenAndServe", "a middleware key is always used with the same function"},
		Scenarios: []*Scenario{
			{
				Name: "programs", Desc: "all registration programs up to a length; every route, and unknown routes, are then requested on one connection",
				N: n(len(c06variants), len(c06variants)), Run: func(t *T, cfg int) { c06program(t, cfg, map[string]int{"quick": 4, "thorough": 5}[t.tier]) },
				Label: func(c int) string { return c06variants[c] },
				Specs: specs([]Spec{{D: 0}}, []Spec{{D: 0}}),
			},
			{
				Name: "anchors", Desc: "long Use/UnUse histories of two keys around handlers",
				N: n(2, 2), Run: func(t *T, cfg int) { c06anchors(t, cfg, map[string]int{"quick": 8, "thorough": 10}[t.tier]) },
				Specs: specs([]Spec{{D: 0}}, []Spec{{D: 0}}),
			},
			{
				Name: "patterns", Steps: 3000000, Desc: "url patterns that differ only in case, slashes, blanks, length; ids that differ only in sign or high bits; all pairs, and all together",
				N: one, Run: c06patterns,
				Specs: specs([]Spec{{D: 0}}, []Spec{{D: 0}}),
			},
			{
				Name: "scale", Steps: 3000000, Desc: "hundreds of routes, handlers and middlewares",
				N: n(4, 4), Run: c06scale,
				Specs: specs(pol(Spec{D: 0}), pol(Spec{D: 0}, Spec{D: 0, Fine: true})),
			},
			{
				Name: "concurrent", Desc: "one rich registration, concurrent requests to different routes from two connections",
				N: n(4, 4), Run: c06conc,
				Specs: specs(pol(Spec{D: 1, Fine: true}, Spec{D: 2, Shards: 4}), pol(Spec{D: 2, Fine: true, Shards: 16}, Spec{D: 3, Shards: 16})),
			},
		},
	})
}

var c06variants = []string{"messageID and url routing", "OnMessage", "heartbeat on, not through middleware", "heartbeat on, through middleware", "auth on, not through middleware", "auth on, through middleware",
	"heartbeat through middleware, handler rewritten last", "heartbeat not through middleware, handler rewritten last", "heartbeat and auth off, their ids used otherwise"}

// reference router
type c06ref struct {
	srv     *tcpx.TcpX
	log     map[string][]string // request body -> labels run
	globals []string
	inUse   map[string]bool
	order   []string // anchors in order of their first Use
	ids     map[int32][]string
	urls    map[string][]string
	idOrder []int32
	urlOrd  []string
	direct  map[int32]bool // not through middleware
	desc    []string
	gone    int32 // an id whose handler was removed again
	odd     bool  // also request variations of the first url
}

func newC06() *c06ref {
	return &c06ref{srv: newSrv(), log: map[string][]string{}, inUse: map[string]bool{}, ids: map[int32][]string{}, urls: map[string][]string{}, direct: map[int32]bool{}}
}

func (r *c06ref) mw(label string) func(c *tcpx.Context) {
	return func(c *tcpx.Context) {
		if !off() {
			b := bodyOf(c)
			r.log[b] = append(r.log[b], label)
		}
	}
}

func (r *c06ref) live() []string {
	var l []string
	for _, k := range r.order {
		if r.inUse[k] {
			l = append(l, "use-"+k)
		}
	}
	return l
}

func (r *c06ref) note(k string) {
	for _, o := range r.order {
		if o == k {
			return
		}
	}
	r.order = append(r.order, k)
}

func (r *c06ref) toggle(keys ...string) {
	if r.inUse[keys[0]] {
		r.srv.UnUse(keys...)
		for _, k := range keys {
			r.inUse[k] = false
		}
		r.desc = append(r.desc, fmt.Sprint("UnUse", keys))
		return
	}
	var a []any
	for _, k := range keys {
		a = append(a, k, r.mw("use-"+k))
		r.inUse[k] = true
		r.note(k)
	}
	r.srv.Use(a...)
	r.desc = append(r.desc, fmt.Sprint("Use", keys))
}

func (r *c06ref) chain(name string, n int) (l []string, hs []func(*tcpx.Context)) {
	for i := 0; i < n; i++ {
		s := fmt.Sprintf("%s.%d", name, i)
		l = append(l, s)
		hs = append(hs, r.mw(s))
	}
	return
}

func (r *c06ref) add(id int32, n int) {
	l, hs := r.chain(fmt.Sprint("h", id), n)
	r.ids[id] = append(r.live(), l...)
	r.idOrder = append(r.idOrder, id)
	r.srv.AddHandler(id, hs...)
	r.desc = append(r.desc, fmt.Sprintf("AddHandler(%d,%d handlers)", id, n))
}

func (r *c06ref) any(url string, n int) {
	l, hs := r.chain(url, n)
	r.urls[url] = append(r.live(), l...)
	r.urlOrd = append(r.urlOrd, url)
	r.srv.Any(url, hs...)
	r.desc = append(r.desc, fmt.Sprintf("Any(%s,%d handlers)", url, n))
}

func (r *c06ref) global(n int) {
	var hs []func(*tcpx.Context)
	for i := 0; i < n; i++ {
		g := fmt.Sprintf("g%d", len(r.globals))
		r.globals = append(r.globals, g)
		hs = append(hs, r.mw(g))
	}
	r.srv.UseGlobal(hs...)
	r.desc = append(r.desc, fmt.Sprintf("UseGlobal(%d)", n))
}

type c06req struct {
	name  string
	frame []byte
	want  []string
}

// requests returns one request per kind of route with what must run.
func (r *c06ref) requests() []c06req {
	var out []c06req
	add := func(kind string, id int32, hdr map[string]any, want []string) {
		name := fmt.Sprintf("r%d %s", len(out), kind)
		if r.srv.OnMessage != nil {
			want = append([]string{}, r.globals...)
			for _, k := range r.order {
				want = append(want, "use-"+k)
			}
			want = append(want, "on-message")
		}
		out = append(out, c06req{name, frame(id, js(hdr), js(name)), want})
	}
	full := func(chain []string) []string { return append(append([]string{}, r.globals...), chain...) }
	for i, id := range r.idOrder {
		want := full(r.ids[id])
		if r.direct[id] {
			want = r.ids[id]
		}
		h := map[string]any{}
		switch i % 3 {
		case 1:
			h["Router-Type"] = "MESSAGE_ID"
		case 2:
			h["Router-Pattern-Value"] = "/u0" // without a router type the id decides
		}
		add(fmt.Sprint("id ", id), id, h, want)
	}
	for i, u := range r.urlOrd {
		id := int32(0)
		if i%2 == 0 && len(r.idOrder) > 0 {
			id = r.idOrder[0] // the url decides, whatever the id
		}
		add("url "+u, id, map[string]any{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": u}, full(r.urls[u]))
	}
	if r.gone != 0 {
		add("removed id", r.gone, map[string]any{}, nil)
	}
	add("unknown id", 99999, map[string]any{}, nil)
	if _, ok := r.ids[0]; !ok {
		add("unknown id 0", 0, map[string]any{}, nil)
	}
	for _, u := range r.urlOrd[:min(1, len(r.urlOrd))] {
		for _, v := range []string{strings.ToUpper(u), u + "/", strings.TrimPrefix(u, "/"), "/" + u, u + " ", u + "?q=1", u + "#", ""} {
			if _, ok := r.urls[v]; !ok && r.odd {
				add(fmt.Sprintf("unknown url %q", v), 1, map[string]any{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": v}, nil)
			}
		}
	}
	if r.odd {
		// routes are named by id or url; the type decides which, absent or not a string it is the id
		rid, want, val := int32(99999), []string(nil), "/u0"
		if len(r.idOrder) > 0 {
			rid = r.idOrder[0]
			if want = r.ids[rid]; !r.direct[rid] {
				want = full(want)
			}
		}
		if len(r.urlOrd) > 0 {
			val = r.urlOrd[0]
		}
		for _, v := range []any{5, true, nil, []any{"URL_PATTERN"}} {
			add(fmt.Sprintf("router type %v", v), rid, map[string]any{"Router-Type": v, "Router-Pattern-Value": val}, want)
		}
		for _, v := range []any{99999, 5, 0, "99999", val, nil} {
			add(fmt.Sprintf("router type MESSAGE_ID, value %v", v), rid, map[string]any{"Router-Type": "MESSAGE_ID", "Router-Pattern-Value": v}, want)
			add(fmt.Sprintf("only a router value %v", v), rid, map[string]any{"Router-Pattern-Value": v}, want)
		}
		for _, v := range []any{"", "message_id", "url_pattern", "URL_PATTERN ", "URL", "WHAT"} {
			add(fmt.Sprintf("router type %q", v), rid, map[string]any{"Router-Type": v, "Router-Pattern-Value": val}, nil)
		}
		for _, v := range []any{5, true, []any{val}, map[string]any{val: val}} {
			add(fmt.Sprintf("url of type %T", v), rid, map[string]any{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": v}, nil)
		}
	}
	for _, u := range []string{"/u", "/u0/"} {
		if _, ok := r.urls[u]; !ok {
			add("unknown url "+u, 1, map[string]any{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": u}, nil)
		}
	}
	return out
}

func (r *c06ref) check(t *T, rs []c06req) {
	for _, q := range rs {
		if g, w := strings.Join(r.log[q.name], " "), strings.Join(q.want, " "); g != w {
			t.Fail("program %s: request %q ran [%s], want [%s]", short(fmt.Sprint(r.desc)), q.name, g, w)
			return
		}
	}
	if len(r.log) > len(rs) {
		t.Fail("unexpected requests dispatched: %v", r.log)
	}
}

var c06ids = []int32{1, 0, -7, 1<<31 - 1, -1 << 31, 5, 6, 7, 8, 9, 10, 11}

func c06program(t *T, cfg int, length int) {
	r := newC06()
	switch cfg {
	case 1:
		r.srv.OnMessage = r.mw("on-message")
	case 2:
		r.srv.HeartBeatMode(true, time.Hour)
		r.srv.RewriteHeartBeatHandler(50, r.mw("hb"))
		r.ids[50] = []string{"hb"}
		r.idOrder = append(r.idOrder, 50)
		r.direct[50] = true
	case 3:
		r.srv.HeartBeatModeDetail(true, time.Hour, true, 77)
		r.ids[77] = nil
		r.idOrder = append(r.idOrder, 77)
	case 4, 5:
		r.srv.WithAuthDetail(true, time.Hour, cfg == 5, 60, func(c *tcpx.Context) {
			r.mw("auth")(c)
			c.RecvAuthPass()
		})
		r.ids[60] = []string{"auth"}
		r.idOrder = append(r.idOrder, 60)
		r.direct[60] = cfg == 4
	case 6, 7:
		r.srv.HeartBeatModeDetail(true, time.Hour, cfg == 6, 77)
	case 8:
		r.srv.HeartBeatModeDetail(false, time.Hour, false, 77)
		r.srv.WithAuthDetail(false, time.Hour, false, 60, nil)
		r.add(77, 1)
		r.add(60, 2)
	}
	for step := 0; step < length; step++ {
		switch vs.Choose(9) {
		case 0:
			r.global(1)
		case 1:
			r.toggle("a")
		case 2:
			r.toggle("b")
		case 3:
			r.add(c06ids[len(r.ids)], 1)
		case 4:
			r.add(c06ids[len(r.ids)], 3)
		case 5:
			r.any(fmt.Sprintf("/u%d", len(r.urls)), 1)
		case 6:
			r.any(fmt.Sprintf("/u%d", len(r.urls)), 3)
		case 7:
			r.toggle("d", "c")
		case 8:
			r.global(2)
		}
	}
	if cfg == 6 || cfg == 7 {
		r.srv.RewriteHeartBeatHandler(50, r.mw("hb"))
		r.ids[50] = append(r.live(), "hb")
		if r.direct[50] = cfg == 7; cfg == 7 {
			r.ids[50] = []string{"hb"}
		}
		r.idOrder = append(r.idOrder, 50)
		r.gone = 77
	}
	r.drive(t)
}

func (r *c06ref) drive(t *T) {
	serve(r.srv, "tcp", addr)
	rs := r.requests()
	var b []byte
	for _, q := range rs {
		b = append(b, q.frame...)
	}
	c := dial("tcp", addr)
	c.Write(b)
	vs.WaitIdle()
	// the same once more, one at a time and the last first
	more := r.requests()
	for i := len(more) - 1; i >= 0; i-- {
		q := more[i]
		n := "again " + q.name
		fs, _ := parse(q.frame)
		c.Write(frame(fs[0].ID, fs[0].Hdr, js(n)))
		rs = append(rs, c06req{n, nil, q.want})
		if r.odd || i%4 == 0 {
			vs.WaitIdle()
		}
	}
	vs.WaitIdle()
	t.Outcome("%v", r.desc)
	r.check(t, rs)
}

// anchors: a history over {toggle a, toggle b, handler}, ending with a handler
// of the other routing kind.
func c06anchors(t *T, cfg, length int) {
	r := newC06()
	r.odd = true
	for step := 0; step < length; step++ {
		switch vs.Choose(3) {
		case 0:
			r.toggle("a")
		case 1:
			r.toggle("b")
		case 2:
			if cfg == 0 {
				r.add(int32(step+1), 1)
			} else {
				r.any(fmt.Sprintf("/u%d", step), 1)
			}
		}
	}
	r.add(100, 2)
	r.any("/last", 2)
	r.drive(t)
}

var c06pats = []string{"/u0", "/U0", "/u0/", "u0", "//u0", "/u0 ", " /u0", "", "/", "/u0?x", "/*", "/:id", "/u00", "/u0/1", "/\u00fc", "\x00", pad("/long", 300), pad("/long", 301)}

var c06pids = []int32{1, -1, 2, 257, 65537, 1<<24 + 1, 1 << 30, -1 << 31, 1<<31 - 1, 0, 1392, 1393}

func c06patterns(t *T, _ int) {
	r := newC06()
	all := vs.Choose(2) == 1
	r.global(1)
	if all {
		for i, p := range c06pats {
			r.any(p, i%3+1)
		}
		for i, id := range c06pids {
			r.add(id, i%3+1)
		}
	} else if vs.Choose(2) == 0 {
		a := vs.Choose(len(c06pats))
		b := vs.Choose(len(c06pats))
		r.any(c06pats[a], 1)
		if a != b {
			r.any(c06pats[b], 2)
		}
	} else {
		a := vs.Choose(len(c06pids))
		b := vs.Choose(len(c06pids))
		r.add(c06pids[a], 1)
		if a != b {
			r.add(c06pids[b], 2)
		}
	}
	// request every pattern and id, registered or not
	serve(r.srv, "tcp", addr)
	rs := r.requests()
	for _, p := range c06pats {
		if _, ok := r.urls[p]; !ok {
			n := fmt.Sprintf("r%d unknown %q", len(rs), p)
			rs = append(rs, c06req{n, frame(1, js(map[string]any{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": p}), js(n)), nil})
		}
	}
	for _, id := range c06pids {
		if _, ok := r.ids[id]; !ok {
			n := fmt.Sprintf("r%d unknown id %d", len(rs), id)
			rs = append(rs, c06req{n, frame(id, []byte("{}"), js(n)), nil})
		}
	}
	var b []byte
	for _, q := range rs {
		b = append(b, q.frame...)
	}
	dial("tcp", addr).Write(b)
	vs.WaitIdle()
	t.Outcome("%v", r.desc)
	r.check(t, rs)
}

func c06scale(t *T, cfg int) {
	r := newC06()
	switch cfg {
	case 0:
		r.toggle("a")
		for i := 0; i < 1200; i++ {
			if i == 1100 {
				r.toggle("a")
				r.toggle("b")
			}
			r.add(int32(i+1), 1)
			r.any(fmt.Sprint("/u", i), 1)
		}
	case 1:
		r.global(130)
		r.add(1, 1)
		r.any("/u0", 2)
	case 2:
		r.add(1, 130)
		r.any("/u0", 300)
	case 3:
		for i := 0; i < 70; i++ {
			r.toggle(fmt.Sprint("k", i))
			r.add(int32(i+1), 1)
			if i%3 == 2 {
				r.toggle(fmt.Sprint("k", i-1))
			}
		}
		r.any("/u0", 2)
	}
	r.drive(t)
}

// concurrent: chains longer than any pre-allocated capacity, shared by
// concurrent requests of two connections.
func c06conc(t *T, cfg int) {
	r := newC06()
	if cfg == 3 {
		r.srv.OnMessage = r.mw("on-message")
	}
	r.global([]int{1, 9, 12, 5}[cfg])
	r.toggle("a", "b")
	r.add(1, 2)
	r.add(2, 1)
	r.toggle("a", "b")
	r.any("/u0", 2)
	r.any("/u1", 3)
	serve(r.srv, "tcp", addr)
	rs := r.requests()
	for ci := 0; ci < 2; ci++ {
		ci := ci
		vs.GoNamed(fmt.Sprint("client", ci), func() {
			c := dial("tcp", addr)
			var b []byte
			for i, q := range rs {
				if i%2 == ci {
					b = append(b, q.frame...)
				}
			}
			c.Write(b)
		})
	}
	vs.WaitIdle()
	t.Outcome("%v", len(r.log))
	r.check(t, rs)
}
