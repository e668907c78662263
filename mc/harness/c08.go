package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/fwhezfwhez/tcpx"
	"verifmc/vs"
)

// C08: request-scoped and connection-scoped values.

func init() {
	register(&Prop{
		ID:          "C08",
		Assumptions: []string{"a handler uses its context only until its chain ends"},
		Scenarios: []*Scenario{
			{
				Name: "scopes", Desc: "middlewares and handlers of concurrent requests set and read values in both scopes",
				N: n(len(c08cfgs), len(c08cfgs)), Run: c08scopes,
				Label: func(c int) string { return fmt.Sprintf("%+v", c08cfgs[c]) },
				Specs: specs(pol(Spec{D: 1, Fine: true}, Spec{D: 2}), pol(Spec{D: 2, Fine: true, Shards: 8}, Spec{D: 3, Shards: 8})),
			},
			{
				Name: "ends", Desc: "the same, the connections then ending in every way",
				N: n(len(c08ends), len(c08ends)), Run: func(t *T, cfg int) { c08run(t, c08ends[cfg]) },
				Label: func(c int) string { return fmt.Sprintf("%+v", c08ends[c]) },
				Specs: specs(pol(Spec{D: 1, Fine: true}, Spec{D: 2}), pol(Spec{D: 2, Fine: true, Shards: 8}, Spec{D: 3, Shards: 8})),
			},
			{
				Name: "histories", Desc: "all histories of set/get operations in both scopes by successive requests of two connections, against two maps",
				N: n(2, 2), Run: func(t *T, cfg int) { c08hist(t, cfg, map[string]int{"quick": 3, "thorough": 4}[t.tier]) },
				Specs: specs([]Spec{{D: 0}}, []Spec{{D: 0}}),
			},
			{
				Name: "keys", Desc: "keys of every comparable kind with every falsy value, in both scopes of two connections",
				N: n(5, 5), Run: c08keytypes,
				Specs: specs(pol(Spec{D: 0}), pol(Spec{D: 1})),
			},
			{
				Name: "scale", Steps: 3000000, Desc: "many requests and many connections",
				N: n(len(c08scale), len(c08scale)), Run: func(t *T, cfg int) { c08run(t, c08scale[cfg]) },
				Label: func(c int) string { return fmt.Sprintf("%+v", c08scale[c]) },
				Specs: specs(pol(Spec{D: 0}, Spec{D: 0, Fine: true}), pol(Spec{D: 0}, Spec{D: 0, Fine: true})),
			},
		},
	})
}

type c08cfg struct {
	conns, reqs int
	kind        string
	end         string
}

var c08cfgs = []c08cfg{
	{1, 2, "id", ""}, {1, 3, "id", ""}, {2, 1, "id", ""}, {2, 2, "id", ""}, {1, 2, "url", ""}, {1, 3, "pipe", ""}, {1, 2, "udp", ""}, {2, 1, "udp", ""}, {1, 2, "onmessage", ""}, {2, 2, "pipe", ""},
}

var c08scale = []c08cfg{{1, 150, "id", ""}, {40, 3, "id", ""}, {1, 100, "url", ""}, {1, 100, "pipe", ""}, {1, 100, "udp", ""}, {20, 4, "udp", ""}, {3, 40, "onmessage", ""}}

// ways a connection ends, each of which must leave its values to OnClose
var c08ends = []c08cfg{
	{2, 1, "id", "reset"}, {2, 1, "id", "malformed"}, {2, 1, "id", "handler"}, {1, 2, "id", "Stop(true)"}, {2, 1, "id", "Restart(true)"},
	{2, 1, "url", "handler"}, {1, 2, "pipe", "handler"}, {1, 1, "id", "heartbeat loss"}, {1, 1, "id", "auth timeout"}, {1, 1, "id", "auth deny"}, {1, 1, "id", "deadline"}, {1, 1, "id", "pool"},
}

func c08scopes(t *T, cfg int) { c08run(t, c08cfgs[cfg]) }

func c08run(t *T, k c08cfg) {
	srv := newSrv()
	var bad, done bag
	udp := k.kind == "udp"
	switch k.end {
	case "heartbeat loss":
		srv.HeartBeatModeDetail(true, 10*time.Second, false, 1392)
	case "auth timeout", "auth deny":
		srv.WithAuthDetail(true, 10*time.Second, false, 8, func(c *tcpx.Context) { c.RecvAuthDeny() })
	case "deadline":
		srv.SetReadDeadline(vs.Now().Add(10 * time.Second))
	case "pool":
		srv.WithBuiltInPool(true)
	}
	cname := func(c *tcpx.Context) string {
		v, _ := c.GetCtxPerConn("conn")
		return fmt.Sprint(v)
	}
	srv.OnConnect = func(c *tcpx.Context) {
		if off() {
			return
		}
		if _, ok := c.GetCtxPerConn("conn"); ok {
			bad.add("a new connection starts with a value")
		}
		if v := c.GetUsername(); v != "" {
			bad.add("a new connection has a user name %q", v)
		}
		conn := connNum(c)
		c.SetCtxPerConn("conn", fmt.Sprint("c", conn))
		c.SetCtxPerConn(7, conn)
		c.SetUsername(fmt.Sprint("user", conn))
	}
	mine := func(c *tcpx.Context, what string) {
		b := bodyOf(c)
		if v, ok := c.GetCtxPerRequest("rq"); !ok || v != b {
			bad.add("%s of %s reads request value %v, %v", what, b, v, ok)
		}
		if v, ok := c.GetCtxPerRequest(1); !ok || v != len(b) {
			bad.add("%s of %s reads request value (int key) %v, %v", what, b, v, ok)
		}
	}
	srv.UseGlobal(func(c *tcpx.Context) {
		b := bodyOf(c)
		if v, ok := c.GetCtxPerRequest("rq"); ok && !off() {
			bad.add("request %s starts with the value of %v", b, v)
		}
		c.SetCtxPerRequest("rq", b)
		c.SetCtxPerRequest(1, len(b))
		vs.Yield()
		mine(c, "middleware")
	})
	srv.Use("a", func(c *tcpx.Context) {
		mine(c, "second middleware")
		if !udp {
			c.SetCtxPerConn("from-"+cname(c), true)
			c.SetCtxPerConn("own-"+bodyOf(c), cname(c))
		} else if v, ok := c.GetCtxPerConn("udp"); ok {
			bad.add("udp request %s starts with %v", bodyOf(c), v)
		} else {
			c.SetCtxPerConn("udp", bodyOf(c))
		}
		c.Next()
		mine(c, "second middleware, after Next")
	})
	h := func(c *tcpx.Context) {
		mine(c, "handler")
		b := bodyOf(c)
		if udp {
			if v, ok := c.GetCtxPerConn("udp"); !ok || v != b {
				bad.add("udp request %s reads %v", b, v)
			}
			done.add("%s", b)
			return
		}
		me := cname(c)
		if v, ok := c.GetCtxPerConn("own-" + b); !ok || v != me {
			bad.add("handler of %s on %s reads connection value %v, %v", b, me, v, ok)
		}
		if v, _ := c.GetCtxPerConn(7); me != fmt.Sprint("c", v) {
			bad.add("connection %s has number %v", me, v)
		}
		if u := c.GetUsername(); u != "user"+me[1:] {
			bad.add("connection %s has user name %s", me, u)
		}
		for i := 1; i <= k.conns; i++ {
			if o := fmt.Sprint("c", i); o != me {
				if _, ok := c.GetCtxPerConn("from-" + o); ok {
					bad.add("%s sees a value of connection %s", me, o)
				}
			}
		}
		vs.Yield()
		mine(c, "handler, later")
		done.add("%s@%s", b, me)
	}
	if k.kind == "onmessage" {
		srv.OnMessage = h
	} else {
		srv.AddHandler(1, h)
		srv.Any("/u", h)
	}
	leave := func(c *tcpx.Context) { c.CloseConn() }
	if k.kind != "onmessage" {
		srv.AddHandler(9, leave)
		srv.Any("/leave", leave)
	}
	net := "tcp"
	if udp {
		net = "udp"
	}
	var atClose bag
	srv.OnClose = func(c *tcpx.Context) {
		if !off() {
			v, _ := c.GetCtxPerConn(7)
			atClose.add("%s/%v/%s", cname(c), v, c.GetUsername())
		}
	}
	cls := make([]*vs.VConn, k.conns)
	serve(srv, net, addr)
	for ci := 0; ci < k.conns; ci++ {
		ci := ci
		vs.GoNamed(fmt.Sprint("client", ci), func() {
			if udp {
				c := dialUDP(addr)
				for r := 0; r < k.reqs; r++ {
					c.Write(msg(1, fmt.Sprintf("k%dr%d", ci, r)))
				}
				return
			}
			c := dial("tcp", addr)
			cls[ci] = c
			var all []byte
			for r := 0; r < k.reqs; r++ {
				b := fmt.Sprintf("k%dr%d", ci, r)
				f := msg(1, b)
				if k.kind == "url" && r%2 == 0 {
					f = urlMsg("/u", b)
				}
				if k.kind == "pipe" && r == 0 {
					f = hdrFrame(1, pipeHdr(fmt.Sprintf(`"enable;%d"`, k.reqs)), b)
				}
				all = append(all, f...)
			}
			c.Write(all)
		})
	}
	vs.WaitIdle()
	t.Outcome("%s", done.seq())
	if len(bad.l) > 0 {
		t.Fail("%s", strings.Join(bad.l, "; "))
		return
	}
	if len(done.l) != k.conns*k.reqs {
		t.Fail("requests that completed: %s", done.sorted())
		return
	}
	if udp {
		return
	}
	var want []string
	for i, c := range cls {
		switch k.end {
		case "", "pool":
			c.Close()
		case "reset":
			c.Reset()
		case "malformed":
			c.Write([]byte{255, 255, 255, 255, 1, 2, 3})
		case "handler":
			c.Write(msg(9, "bye"))
		case "Stop(true)":
			if i == 0 {
				srv.Stop(true)
			}
		case "Restart(true)":
			if i == 0 {
				srv.Restart(true)
			}
		case "auth deny":
			c.Write(msg(8, "deny"))
		default:
			vs.Sleep(time.Minute)
		}
		want = append(want, fmt.Sprintf("c%d/%d/user%d", i+1, i+1, i+1))
	}
	vs.WaitIdle()
	if atClose.sorted() != sortedJoin(want) {
		t.Fail("%s: OnClose sees the connections as %s, want %s", k.end, atClose.sorted(), sortedJoin(want))
	}
}

type c08key struct{ a int }

var c08keys = []any{"k", 5}
var c08vals = []any{nil, 1, nil, ""} // the first means: do not set

func c08val(i int) any { return c08vals[i] }

// c08keytypes: keys of every comparable kind are distinct, and falsy values
// count as set.
func c08keytypes(t *T, cfg int) {
	keys := []any{"", "0", 0, int8(0), int32(0), int64(0), uint(0), 0.0, false, true, c08key{0}, c08key{1}, [2]int{}, nil, 'k', "k"}
	srv := newSrv()
	var bad bag
	h := func(c *tcpx.Context) {
		if off() {
			return
		}
		for sc := 0; sc < 2; sc++ {
			get, set := c.GetCtxPerRequest, c.SetCtxPerRequest
			if sc == 1 {
				get, set = c.GetCtxPerConn, c.SetCtxPerConn
			}
			for i, k := range keys {
				if v, ok := get(k); ok || v != nil {
					bad.add("key %T %v is set to %v before anything sets it", k, k, v)
				}
				set(k, []any{i, nil, "", 0, false}[(i+cfg)%5])
			}
			for i, k := range keys {
				w := []any{i, nil, "", 0, false}[(i+cfg)%5]
				if v, ok := get(k); !ok || v != w {
					bad.add("scope %d key %T %v reads %v, %v, want %v", sc, k, k, v, ok, w)
				}
			}
			for round := 0; round < 6; round++ { // overwritten
				for i, k := range keys {
					set(k, []any{i, nil, "", 0, false}[(i+cfg+round)%5])
				}
				for i, k := range keys {
					w := []any{i, nil, "", 0, false}[(i+cfg+round)%5]
					if v, ok := get(k); !ok || v != w {
						bad.add("scope %d key %T %v, overwritten, reads %v, %v, want %v", sc, k, k, v, ok, w)
					}
				}
			}
		}
	}
	srv.AddHandler(1, h)
	serve(srv, "tcp", addr)
	dial("tcp", addr).Write(msg(1, "x"))
	dial("tcp", addr).Write(msg(1, "x"))
	vs.WaitIdle()
	t.Outcome("%d", len(bad.l))
	if len(bad.l) > 0 {
		t.Fail("%s", short(bad.seq()))
	}
}

// c08hist: every request performs one operation chosen freely; the reference is
// one map per connection and one per request.
func c08hist(t *T, cfg, length int) {
	srv := newSrv()
	type op struct{ scope, key, set int }
	var cur op
	var got string
	h := func(c *tcpx.Context) {
		if off() {
			return
		}
		key := c08keys[cur.key]
		if cur.scope == 0 {
			v, ok := c.GetCtxPerRequest(key)
			got = fmt.Sprintf("%v/%v", v, ok)
			if cur.set > 0 {
				c.SetCtxPerRequest(key, c08val(cur.set))
			}
			v, ok = c.GetCtxPerRequest(key)
			got += fmt.Sprintf(" %v/%v", v, ok)
		} else {
			v, ok := c.GetCtxPerConn(key)
			got = fmt.Sprintf("%v/%v", v, ok)
			if cur.set > 0 {
				c.SetCtxPerConn(key, c08val(cur.set))
			}
			v, ok = c.GetCtxPerConn(key)
			got += fmt.Sprintf(" %v/%v", v, ok)
		}
	}
	srv.AddHandler(1, h)
	srv.Any("/u", h)
	serve(srv, "tcp", addr)
	ref := []map[any]any{{}, {}}
	conns := []*vs.VConn{dial("tcp", addr), dial("tcp", addr)}
	var desc []string
	for i := 0; i < length; i++ {
		ci := vs.Choose(2)
		cur = op{vs.Choose(2), vs.Choose(len(c08keys)), vs.Choose(len(c08vals))}
		key := c08keys[cur.key]
		m := map[any]any{}
		if cur.scope == 1 {
			m = ref[ci]
		}
		show := func() string {
			if v, ok := m[key]; ok {
				return fmt.Sprintf("%v/true", v)
			}
			return "<nil>/false"
		}
		want := show()
		if cur.set > 0 {
			m[key] = c08val(cur.set)
		}
		want += " " + show()
		desc = append(desc, fmt.Sprintf("conn%d %+v", ci, cur))
		got = ""
		if cfg == 0 {
			conns[ci].Write(msg(1, "x"))
		} else {
			conns[ci].Write(urlMsg("/u", "x"))
		}
		vs.WaitIdle()
		if got != want {
			t.Fail("history %v: read before and after: %s, want %s", desc, got, want)
			return
		}
	}
	t.Outcome("%v", desc)
}
