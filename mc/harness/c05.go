package main

import (
	"fmt"
	"strings"

	"github.com/fwhezfwhez/tcpx"
	"verifmc/vs"
)

func init() {
	register(&Prop{
		ID: "C05",
		Assumptions: []string{
			"the virtual network delivers bytes reliably and in order per connection",
			"handlers return",
		},
		Scenarios: []*Scenario{
			{
				Name: "dispatch", Desc: "clients send messages; every handler invocation is recorded at its start and at its end",
				N:     n(6, 10),
				Run:   c05dispatch,
				Label: func(c int) string { return fmt.Sprintf("%+v", c05cfgs[c]) },
				Specs: specs(pol(Spec{D: 1}, Spec{D: 1, Seg: true, Fine: true}, Spec{D: 2, Shards: 4}), pol(Spec{D: 2, Shards: 4}, Spec{D: 2, Seg: true, Fine: true, Shards: 16}, Spec{D: 3, Shards: 16})),
			},
			{
				Name: "kinds", Desc: "all sequences of messages without body, without header values, large, small, of unknown routes and with equal contents, in one write, singly or followed by a disconnect",
				N: n(3, 3), Run: func(t *T, cfg int) { c05kinds(t, cfg, map[string]int{"quick": 4, "thorough": 5}[t.tier]) },
				Label: func(c int) string { return []string{"one write", "single writes", "one write, then closed"}[c] },
				Specs: specs(pol(Spec{D: 0}), pol(Spec{D: 0}, Spec{D: 0, Fine: true})),
			},
			{
				Name: "waiting", Steps: 3000000, Desc: "the handlers of up to 2200 messages on one connection or several wait for the last message",
				N: n(6, 6), Run: c05wait,
				Label: func(c int) string { return fmt.Sprint(c05waits[c]) },
				Specs: specs(pol(Spec{D: 0}), pol(Spec{D: 0})),
			},
			{
				Name: "scale", Steps: 3000000, Desc: "many messages, many clients, messages with equal contents",
				N:     n(len(c05scale), len(c05scale)),
				Run:   func(t *T, cfg int) { c05run(t, c05scale[cfg]) },
				Label: func(c int) string { return fmt.Sprintf("%+v", c05scale[c]) },
				Specs: specs(pol(Spec{D: 0}, Spec{D: 0, Fine: true}), pol(Spec{D: 0}, Spec{D: 0, Fine: true})),
			},
		},
	})
}

var c05scale = []c05cfg{
	{clients: 1, msgs: 700, oneWrite: true},
	{clients: 1, msgs: 300},
	{clients: 1, msgs: 300, closeAfter: true},
	{clients: 40, msgs: 10, oneWrite: true},
	{clients: 140, msgs: 1, closeAfter: true},
	{clients: 2, msgs: 40, same: true},
	{clients: 2, msgs: 40, same: true, mixed: true, closeAfter: true},
	{clients: 3, msgs: 60, onMessage: true, oneWrite: true},
	{clients: 1, msgs: 3, size: 1 << 20},
}

type c05cfg struct {
	clients, msgs int
	oneWrite      bool
	closeAfter    bool
	mixed         bool // one connection mixes messageID and URL messages
	size          int
	onMessage     bool
	same          bool // all messages of a route are equal
}

var c05cfgs = []c05cfg{
	{clients: 1, msgs: 2, oneWrite: true},
	{clients: 1, msgs: 3, closeAfter: true},
	{clients: 2, msgs: 1},
	{clients: 2, msgs: 2, oneWrite: true, closeAfter: true, mixed: true},
	{clients: 1, msgs: 2, oneWrite: true, onMessage: true},
	{clients: 1, msgs: 2, size: 5000},
	{clients: 3, msgs: 1, closeAfter: true},
	{clients: 1, msgs: 4, oneWrite: true},
	{clients: 2, msgs: 2},
	{clients: 1, msgs: 2, size: 70000},
}

func c05dispatch(t *T, cfg int) { c05run(t, c05cfgs[cfg]) }

func c05run(t *T, k c05cfg) {
	srv := newSrv()
	var got, bad bag
	h := func(route string) func(c *tcpx.Context) {
		return func(c *tcpx.Context) {
			s1 := bodyOf(c)
			vs.Yield()
			var b string
			if _, e := c.Bind(&b); e != nil {
				b = "bind error " + e.Error()
			}
			s2 := bodyOf(c)
			if s1 != s2 || b != s1 {
				bad.add("handler saw %.60q, bound %.60q, then %.60q", s1, b, s2)
			}
			got.add("%s/%s", route, s1)
		}
	}
	if k.onMessage {
		srv.OnMessage = h("m")
	} else {
		for i := int32(1); i <= 4; i++ {
			srv.AddHandler(i, h(fmt.Sprint(i)))
		}
		srv.Any("/u", h("u"))
	}
	serve(srv, "tcp", addr)
	var want bag
	for ci := 0; ci < k.clients; ci++ {
		ci := ci
		var all [][]byte
		for m := 0; m < k.msgs; m++ {
			body := fmt.Sprintf("c%dm%d", ci, m)
			if k.same {
				body = "same"
			}
			if k.size > 0 {
				body = pad(body, k.size)
			}
			id := int32(m%4 + 1)
			if k.same {
				id = 1
			}
			r := fmt.Sprint(id)
			f := msg(id, body)
			if k.mixed && m%2 == 1 {
				r = "u"
				f = urlMsg("/u", body)
			}
			if k.onMessage {
				r = "m"
			}
			want.add("%s/%s", r, body)
			all = append(all, f)
		}
		vs.GoNamed(fmt.Sprintf("client%d", ci), func() {
			c := dial("tcp", addr)
			c.Tag = fmt.Sprint("c", ci)
			if k.oneWrite {
				var b []byte
				for _, f := range all {
					b = append(b, f...)
				}
				c.Write(b)
			} else {
				for _, f := range all {
					c.Write(f)
				}
			}
			if k.closeAfter {
				c.Close()
			}
		})
	}
	vs.WaitIdle()
	t.Outcome("%s", short(got.seq()))
	if len(bad.l) > 0 {
		t.Fail("a handler's message changed under it: %v", bad.l)
	}
	if got.sorted() != want.sorted() {
		t.Fail("dispatched %s, sent %s", short(got.sorted()), short(want.sorted()))
	}
}

// clients, messages each, batch of 2 each
var c05waits = [][3]int{{1, 3, 0}, {1, 300, 0}, {1, 2200, 0}, {300, 2, 0}, {3, 100, 1}, {2, 40, 1}}

func c05wait(t *T, cfg int) {
	k := c05waits[cfg]
	srv := newSrv()
	open := false
	started, done := 0, 0
	h := func(c *tcpx.Context) {
		if off() {
			return
		}
		started++
		if bodyOf(c) == "last" {
			open = true
		}
		vs.WaitUntil("the last message", func() bool { return open })
		done++
	}
	srv.AddHandler(1, h)
	srv.Any("/u", h)
	serve(srv, "tcp", addr)
	sent := 0
	var last *vs.VConn
	for i := 0; i < k[0]; i++ {
		c := dial("tcp", addr)
		last = c
		var b []byte
		for j := 0; j < k[1]; j++ {
			switch {
			case k[2] == 1:
				b = append(b, hdrFrame(1, pipeHdr(`"enable;2"`), "x")...)
				b = append(b, msg(1, "y")...)
				sent++
			case j%2 == 0:
				b = append(b, msg(1, "x")...)
			default:
				b = append(b, urlMsg("/u", "x")...)
			}
			sent++
		}
		c.Write(b)
	}
	vs.WaitIdle()
	last.Write(msg(1, "last"))
	vs.WaitIdle()
	t.Outcome("%d", done)
	if started != sent+1 || done != sent+1 {
		t.Fail("%d messages sent, the last one lets the handlers of all end: %d handlers began, %d ended", sent+1, started, done)
	}
}

func short(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

// c05kinds: all sequences of messages of several kinds.
func c05kinds(t *T, cfg, max int) {
	kinds := []struct {
		what string
		f    []byte
	}{
		{"1 {} ", frame(1, []byte(`{}`), nil)},
		{"2 null ", frame(2, []byte(`null`), nil)},
		{"1 {} \"x\"", msg(1, "x")},
		{"2 {\"a\":1} null", frame(2, []byte(`{"a":1}`), []byte("null"))},
		{"u " + string(js(strings.Repeat("b", 3000))), urlMsg("/u", strings.Repeat("b", 3000))},
		{"u ", urlFrame("/u", nil)},
		{"", msg(99, "unknown")},
		{"0 null ", frame(0, []byte(`null`), nil)},
		{"-1 null ", frame(-1, []byte(`null`), nil)},
		{"0 {} 0", frame(0, []byte(`{}`), []byte("0"))},
	}
	srv := newSrv()
	var got, want bag
	h := func(c *tcpx.Context) {
		if off() {
			return
		}
		see := func() string {
			id, _ := tcpx.MessageIDOf(c.Stream)
			hd, _ := tcpx.HeaderBytesOf(c.Stream)
			b, e := c.RawStream()
			if e != nil {
				return e.Error()
			}
			if c.RouterType() == "URL_PATTERN" {
				return "u " + string(b)
			}
			return fmt.Sprintf("%d %s %s", id, hd, b)
		}
		s := see()
		vs.Yield()
		if g := see(); g != s {
			got.add("changed from %.60q to %.60q", s, g)
		}
		got.add("%s", s)
	}
	for i := int32(-1); i < 3; i++ {
		srv.AddHandler(i, h)
	}
	srv.Any("/u", h)
	serve(srv, "tcp", addr)
	var fs [][]byte
	for i := 0; i < max; i++ {
		k := kinds[vs.Choose(len(kinds))]
		fs = append(fs, k.f)
		if k.what != "" {
			want.add("%s", k.what)
		}
	}
	c := dial("tcp", addr)
	if cfg == 1 {
		for _, f := range fs {
			c.Write(f)
		}
	} else {
		c.Write(cat(fs))
	}
	if cfg == 2 {
		c.Close()
	}
	vs.WaitIdle()
	t.Outcome("%s", short(got.seq()))
	if g, w := got.sorted(), want.sorted(); g != w {
		t.Fail("handled: %s, want %s", short(g), short(w))
	}
}

func urlFrame(u string, body []byte) []byte {
	return frame(0, js(map[string]any{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": u}), body)
}
