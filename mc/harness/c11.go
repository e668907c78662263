package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"net"
	"strings"
	"time"

	"github.com/fwhezfwhez/tcpx"
	"verifmc/vs"
)

// C11: what a handler learns from its context, and what the client helpers
// send and receive.

func init() {
	register(&Prop{
		ID:          "C11",
		Assumptions: []string{"handlers do not use the request keys router_type and url_pattern, which the library uses itself"},
		Scenarios: []*Scenario{
			{
				Name: "accessors", Desc: "concurrent requests of every kind of route and header; every accessor of the context is read at the beginning and at the end of the chain",
				N: n(len(c11kinds)*2, len(c11kinds)*2), Run: c11access,
				Label: func(c int) string { return fmt.Sprint(c11kinds[c/2], " clients ", c%2+1) },
				Specs: specs(pol(Spec{D: 1, Fine: true}, Spec{D: 2}), pol(Spec{D: 2, Fine: true, Shards: 4}, Spec{D: 3, Shards: 4})),
			},
			{Name: "messages", Desc: "accessors on contexts over all combinations of ids, headers and bodies", N: one, Native: c11messages},
			{Name: "peers", Desc: "ClientIP and Network for IPv4, IPv6 and unix peers of stream and datagram contexts", N: one, Native: c11peers},
			{Name: "send", Desc: "WriteJSON and PipeJSON with every list of arguments of a set up to a length, on connections that fail at any write", N: n(6, 6), Native: c11send},
			{
				Name: "calls", Desc: "clients made of TCPConnect, WriteJSON, PipeJSON, TCPCallOnceJSON and Recv against a server",
				N: n(len(c11calls), len(c11calls)), Run: c11call,
				Label: func(c int) string { return c11calls[c] },
				Specs: specs(pol(Spec{D: 1, Seg: true, Fine: true}, Spec{D: 2, Seg: true}), pol(Spec{D: 2, Seg: true, Fine: true, Shards: 8}, Spec{D: 3, Shards: 8})),
			},
		},
	})
}

// c11req is one request and what its handler must see.
type c11req struct {
	id   int32
	hdr  string // JSON
	body string
}

func (r c11req) frame() []byte { return frame(r.id, []byte(r.hdr), js(r.body)) }

// c11see compares every accessor with the request.
func c11see(c *tcpx.Context, r c11req, network, ip string) string {
	var bad []string
	add := func(f string, a ...any) { bad = append(bad, fmt.Sprintf(f, a...)) }
	var hdr map[string]any
	json.Unmarshal([]byte(r.hdr), &hdr)
	rt, url := "MESSAGE_ID", ""
	if s, ok := hdr["Router-Type"].(string); ok {
		rt = s
	}
	urlErr := false
	if v, ok := hdr["Router-Pattern-Value"]; ok {
		url, ok = v.(string)
		urlErr = !ok
	}
	for _, how := range []string{"Bind", "BindWithMarshaller", "Bind again"} {
		var s string
		var m tcpx.Message
		var e error
		if how == "BindWithMarshaller" {
			m, e = c.BindWithMarshaller(&s, tcpx.JsonMarshaller{})
		} else {
			m, e = c.Bind(&s)
		}
		if e != nil || s != r.body || m.MessageID != r.id || m.Body != r.body || !hdrEq(m.Header, hdr) {
			add("%s: %.40q, message %d %v, error %v", how, s, m.MessageID, m.Header, e)
		}
		for k, v := range hdr {
			if g := m.Get(k); !bytes.Equal(js(g), js(v)) {
				add("header %q is %v", k, g)
			}
		}
		if g := m.Get("no such key"); g != nil {
			add("a header that is not there is %v", g)
		}
	}
	if b, e := c.RawStream(); e != nil || !bytes.Equal(b, js(r.body)) {
		add("RawStream %.40q, %v", b, e)
	}
	if !bytes.Equal(c.Stream, r.frame()) {
		add("Stream %x", clip(c.Stream))
	}
	if g := c.RouterType(); g != rt {
		add("RouterType %q, want %q", g, rt)
	}
	if g, e := c.GetURLPattern(); g != url || (e != nil) != urlErr {
		add("GetURLPattern %q, %v, want %q", g, e, url)
	}
	pt := tcpx.PackType(c.Stream)
	if g, e := pt.URLPattern(); g != url || (e != nil) != urlErr {
		add("PackType.URLPattern %q, %v, want %q", g, e, url)
	}
	if g, e := pt.MessageID(); e != nil || g != r.id {
		add("PackType.MessageID %d, %v", g, e)
	}
	var s string
	if e := pt.BindJSON(&s); e != nil || s != r.body {
		add("PackType.BindJSON %.40q, %v", s, e)
	}
	if g := c.Network(); g != network {
		add("Network %q", g)
	}
	if g := c.ClientIP(); g != ip {
		add("ClientIP %q, want %q", g, ip)
	}
	return strings.Join(bad, "; ")
}

var c11kinds = []string{"ids", "urls", "mixed", "pipe", "udp", "onmessage"}

func c11access(t *T, cfg int) {
	kind, clients := c11kinds[cfg/2], cfg%2+1
	url := func(u string) string {
		return fmt.Sprintf(`{"Router-Type":"URL_PATTERN","Router-Pattern-Value":%q,"x":1}`, u)
	}
	var reqs []c11req
	switch kind {
	case "ids", "udp":
		reqs = []c11req{{1, `{"a":"b"}`, "one"}, {2, `null`, "two"}}
	case "urls":
		reqs = []c11req{{1, url("/a"), "one"}, {0, url("/b/c"), "two"}}
	case "mixed":
		reqs = []c11req{{1, `{"Router-Type":"MESSAGE_ID","Router-Pattern-Value":"z"}`, "one"}, {1, url("/a"), "two"}}
	case "pipe":
		reqs = []c11req{{1, pipeHdr(`"enable;2"`), "one"}, {2, url("/a"), "two"}}
	case "onmessage":
		reqs = []c11req{{7, `{"Router-Type":"OTHER"}`, "one"}, {8, `{"Router-Type":5,"Router-Pattern-Value":[1]}`, "two"}}
	}
	srv := newSrv()
	network := "tcp"
	if kind == "udp" {
		network = "udp"
	}
	var bad, done bag
	look := func(where string) func(c *tcpx.Context) {
		return func(c *tcpx.Context) {
			if off() {
				return
			}
			b := bodyOf(c)
			for ci := 0; ci < clients; ci++ {
				for _, r := range reqs {
					r.body += fmt.Sprint(" of client ", ci)
					if r.body != b {
						continue
					}
					if s := c11see(c, r, network, "127.0.0.1"); s != "" {
						bad.add("%s of %q: %s", where, b, s)
					}
					vs.Yield()
					if s := c11see(c, r, network, "127.0.0.1"); s != "" {
						bad.add("%s of %q, later: %s", where, b, s)
					}
					if where == "handler" {
						done.add("%s", b)
					}
				}
			}
		}
	}
	srv.UseGlobal(look("middleware"))
	if kind == "onmessage" {
		srv.OnMessage = look("handler")
	} else {
		for _, i := range []int32{1, 2} {
			srv.AddHandler(i, look("handler"))
		}
		srv.Any("/a", look("handler"))
		srv.Any("/b/c", look("handler"))
	}
	serve(srv, network, addr)
	for ci := 0; ci < clients; ci++ {
		ci := ci
		vs.GoNamed(fmt.Sprint("client", ci), func() {
			var all []byte
			var fs [][]byte
			for _, r := range reqs {
				r.body += fmt.Sprint(" of client ", ci)
				fs = append(fs, r.frame())
				all = append(all, r.frame()...)
			}
			if network == "udp" {
				c := dialUDP(addr)
				for _, f := range fs {
					c.Write(f)
				}
				return
			}
			dial("tcp", addr).Write(all)
		})
	}
	vs.WaitIdle()
	t.Outcome("%s", done.seq())
	if len(bad.l) > 0 {
		t.Fail("%s", short(bad.seq()))
		return
	}
	if len(done.l) != clients*len(reqs) {
		t.Fail("handlers ran for %v", done.l)
	}
}

func c11messages(t *T, _ int) {
	ids := []int32{0, 1, -1, 255, 256, 65536, 1 << 24, math.MaxInt32, math.MinInt32}
	hdrs := []string{`null`, `{}`, `{"a":"b"}`, `{"":""}`, `{"Router-Type":"MESSAGE_ID"}`, `{"Router-Type":"URL_PATTERN"}`, `{"Router-Type":"URL_PATTERN","Router-Pattern-Value":""}`,
		`{"Router-Type":"URL_PATTERN","Router-Pattern-Value":"/a/b?c=d&e"}`, `{"Router-Pattern-Value":"/only"}`, `{"Router-Type":""}`, `{"Router-Type":null}`, `{"Router-Type":{"a":1}}`,
		`{"Router-Type":"url_pattern","Router-Pattern-Value":"/A"}`, `{"Router-Type":"URL_PATTERN","Router-Pattern-Value":7}`, `{"Router-Pattern-Value":null}`,
		`{"Router-Type":"URL_PATTERN","Router-Pattern-Value":"/\u4e16\u754c\u0000<&>"}`, `{"Router-Type":"URL_PATTERN","Router-Pattern-Value":"` + strings.Repeat("/p", 500) + `"}`,
		`{"n":1.5,"l":[1,"2",null],"m":{"x":{}},"t":true}`}
	bodies := []string{"", "x", "\x00", "世界", "<&>", strings.Repeat("b", 5000)}
	for _, id := range ids {
		for _, h := range hdrs {
			for _, b := range bodies {
				t.Case(1)
				r := c11req{id, h, b}
				for _, nw := range []string{"tcp", "udp"} {
					a := &net.TCPAddr{IP: net.IPv4(10, 1, 2, 3), Port: 9}
					c := tcpx.NewContext(c11conn{a}, nil)
					if nw == "udp" {
						c = tcpx.NewUDPContext(c11pconn{}, a, nil)
					}
					c.Stream = r.frame()
					for i := 0; i < 2; i++ {
						if s := c11see(c, r, nw, "10.1.2.3"); s != "" {
							t.Fail("id %d header %.80s body %.20q over %s: %s", id, h, b, nw, s)
							return
						}
					}
				}
			}
		}
	}
}

type c11conn struct{ a net.Addr }

func (c11conn) SetDeadline(time.Time) error      { return nil }
func (c11conn) SetReadDeadline(time.Time) error  { return nil }
func (c11conn) SetWriteDeadline(time.Time) error { return nil }

func (c c11conn) RemoteAddr() net.Addr { return c.a }

// the other methods of net.Conn
func (c11conn) Read([]byte) (int, error)  { return 0, errBoom }
func (c11conn) Write([]byte) (int, error) { return 0, errBoom }
func (c11conn) Close() error              { return nil }
func (c11conn) LocalAddr() net.Addr       { return nil }

type c11pconn struct{ net.PacketConn }

func c11peers(t *T, _ int) {
	ips := []string{"1.2.3.4", "127.0.0.1", "0.0.0.0", "255.255.255.255", "10.0.0.1", "192.168.100.200", "::1", "::", "fe80::1", "2001:db8::8:800:200c:417a", "2001:db8:1:2:3:4:5:6", "ff02::1", "::2", "1::", "fc00::1:1", "::1:1", "::1:0:0", "::ffff:9.8.7.6"}
	for _, s := range ips {
		ip := net.ParseIP(s)
		want := ip.String()
		if want == "::1" {
			want = "127.0.0.1"
		}
		for _, zone := range []string{"", "eth0"} {
			if zone != "" && (ip.To4() != nil || s == "::1") {
				continue
			}
			w := want
			if zone != "" {
				w = ip.String() + "%" + zone
			}
			for _, port := range []int{0, 1, 80, 8080, 65535} {
				t.Case(2)
				c := tcpx.NewContext(c11conn{&net.TCPAddr{IP: ip, Port: port, Zone: zone}}, nil)
				u := tcpx.NewUDPContext(c11pconn{}, &net.UDPAddr{IP: ip, Port: port, Zone: zone}, nil)
				if a, b := c.ClientIP(), u.ClientIP(); a != w || b != w {
					t.Fail("ClientIP of %s, port %d, zone %q: %q (stream), %q (datagram)", s, port, zone, a, b)
					return
				}
				if a, b := c.Network(), u.Network(); a != "tcp" || b != "udp" {
					t.Fail("Network: %q, %q", a, b)
					return
				}
			}
		}
	}
	for _, name := range []string{"", "@", "/tmp/x.sock"} {
		t.Case(1)
		c := tcpx.NewContext(c11conn{&net.UnixAddr{Name: name, Net: "unix"}}, nil)
		c.ClientIP() // any answer, no panic
	}
}

// c11wconn records what is written and fails at the n-th write.
type c11wconn struct {
	c11conn
	got    []byte
	writes int
	fail   int
}

func (c *c11wconn) Write(b []byte) (int, error) {
	if c.writes == c.fail {
		return 0, errBoom
	}
	c.writes++
	c.got = append(c.got, b...)
	return len(b), nil
}

type c11bad struct{}

func (c11bad) MarshalJSON() ([]byte, error) { return nil, errors.New("no") }

func c11send(t *T, shard int) {
	type val struct {
		v  any
		ok bool
	}
	vals := []val{{"s", true}, {nil, true}, {map[string]int{"a": 1}, true}, {strings.Repeat("v", 1500), true}, {c11bad{}, false}, {make(chan int), false}}
	ids := []any{0, 1, -1, math.MaxInt32, math.MinInt32, int32(5), "1", nil, 1.0}
	okID := func(i any) bool { _, ok := i.(int); return ok }
	body := func(v any) []byte {
		if v == nil {
			return nil
		}
		return js(v)
	}
	if shard == 0 {
		for _, id := range []int32{0, 1, -1, math.MaxInt32, math.MinInt32} {
			for _, v := range vals {
				for fail := -1; fail < 1; fail++ {
					t.Case(1)
					c := &c11wconn{fail: fail}
					e := tcpx.WriteJSON(c, id, v.v)
					if (e == nil) != (v.ok && fail < 0) {
						t.Fail("WriteJSON(%d, %T) on a connection failing at write %d: %v", id, v.v, fail, e)
						return
					}
					if e != nil {
						if len(c.got) > 0 {
							t.Fail("WriteJSON(%d, %T) failed and wrote %x", id, v.v, clip(c.got))
							return
						}
						continue
					}
					if !c01checkFrame(t, fmt.Sprintf("WriteJSON(%d, %.20v)", id, v.v), c.got, id, nil, body(v.v)) {
						return
					}
				}
			}
		}
		for _, odd := range [][]any{{1}, {1, "a", 2}, {"x"}} {
			c := &c11wconn{fail: -1}
			t.Case(1)
			if e := tcpx.PipeJSON(c, odd...); e == nil || len(c.got) > 0 {
				t.Fail("PipeJSON%v: error %v, wrote %x", odd, e, c.got)
				return
			}
		}
		c := &c11wconn{fail: -1}
		if e := tcpx.PipeJSON(c); e != nil || len(c.got) > 0 {
			t.Fail("PipeJSON(): error %v, wrote %x", e, c.got)
			return
		}
	}
	// long lists, with a bad argument at the end or none
	for _, n := range []int{4, 5, 9, 10, 11, 16, 31, 33, 64, 99, 100, 101, 127, 128, 129, 200, 256, 257, 300, 1000, 1001} {
		for _, bad := range []any{nil, make(chan int), "odd"} {
			var args []any
			for i := 0; i < n; i++ {
				args = append(args, i*shard, strings.Repeat("v", i*7%50*(1+shard*10)))
			}
			if bad == "odd" {
				args = append(args, 1)
			} else if bad != nil {
				args = append(args, 1, bad)
			}
			c := &c11wconn{fail: -1}
			e := tcpx.PipeJSON(c, args...)
			t.Case(n)
			if (e == nil) != (bad == nil) || e != nil && len(c.got) > 0 {
				t.Fail("PipeJSON of %d messages (bad argument: %T): error %v, wrote %d bytes", n, bad, e, len(c.got))
				return
			}
			if e != nil {
				continue
			}
			fs, whole := parse(c.got)
			if !whole || len(fs) != n {
				t.Fail("PipeJSON of %d messages wrote %d frames (whole: %v)", n, len(fs), whole)
				return
			}
			for i, f := range fs {
				h := map[string]any{}
				if i == 0 {
					h[pipeKey] = fmt.Sprintf("enable;%d", n)
				}
				if f.ID != int32(i*shard) || !bytes.Equal(f.Body, js(args[2*i+1])) || !sameHdr(f.Hdr, h) {
					t.Fail("PipeJSON of %d messages: message %d is %d %s %.40q", n, i, f.ID, f.Hdr, f.Body)
					return
				}
			}
		}
	}
	// all lists of up to three pairs; the shard is the first value
	var rec func(args []any)
	rec = func(args []any) {
		if t.Failed {
			return
		}
		if len(args) > 0 {
			ok := true
			var want []Fr
			for i := 0; i < len(args); i += 2 {
				ok = ok && okID(args[i])
				for _, v := range vals {
					if fmt.Sprintf("%T%v", v.v, v.v) == fmt.Sprintf("%T%v", args[i+1], args[i+1]) {
						ok = ok && v.ok
					}
				}
				if ok {
					want = append(want, Fr{ID: int32(args[i].(int)), Body: body(args[i+1])})
				}
			}
			for fail := -1; fail < 1; fail++ {
				t.Case(len(args))
				c := &c11wconn{fail: fail}
				e := tcpx.PipeJSON(c, args...)
				what := fmt.Sprintf("PipeJSON(%.60v) on a connection failing at write %d", args, fail)
				if (e == nil) != (ok && fail < 0) || e != nil && len(c.got) > 0 {
					t.Fail("%s: error %v, wrote %x", what, e, clip(c.got))
					return
				}
				if e != nil {
					continue
				}
				fs, whole := parse(c.got)
				if !whole || len(fs) != len(want) {
					t.Fail("%s wrote %d frames (whole: %v)", what, len(fs), whole)
					return
				}
				for i, f := range fs {
					h := map[string]any{}
					if i == 0 {
						h[pipeKey] = fmt.Sprintf("enable;%d", len(want))
					}
					if f.ID != want[i].ID || !bytes.Equal(f.Body, want[i].Body) || !sameHdr(f.Hdr, h) {
						t.Fail("%s: message %d is %d %s %.40q", what, i, f.ID, f.Hdr, f.Body)
						return
					}
				}
			}
		}
		if len(args) == 6 {
			return
		}
		for _, id := range ids {
			for k, v := range vals {
				if len(args) == 0 && k != shard {
					continue
				}
				if len(args) == 4 && (k == 3 || k == 5) { // the third pair from a smaller set
					continue
				}
				rec(append(append([]any{}, args...), id, v.v))
			}
		}
	}
	rec(nil)
}

var c11calls = []string{"WriteJSON and Recv", "PipeJSON and Recv", "TCPCallOnceJSON", "two clients", "TCPCallOnceJSON to nobody", "replies in a burst"}

func c11call(t *T, cfg int) {
	srv := newSrv()
	var seen bag
	ends := 0
	srv.OnClose = func(c *tcpx.Context) {
		if !off() {
			ends++
		}
	}
	srv.AddHandler(1, func(c *tcpx.Context) {
		b := bodyOf(c)
		seen.add("%s", b)
		c.JSON(2, "re "+b, tcpx.H{"for": b})
		if cfg == 5 {
			c.JSON(3, pad("second "+b, 300))
		}
	})
	serve(srv, "tcp", addr)
	recv := func(c net.Conn) string {
		p, e := tcpx.Recv(c)
		if e != nil {
			return "error " + e.Error()
		}
		var s string
		id, e1 := p.MessageID()
		e2 := p.BindJSON(&s)
		return fmt.Sprintf("%d %s%v%v", id, s, e1, e2)
	}
	var got, want bag
	var seenWant []string
	ends1 := 0
	client := func(name string, pipe bool) func() {
		return func() {
			c, e := tcpx.TCPConnect("tcp", addr)
			if e != nil {
				got.add("connect: %v", e)
				return
			}
			if pipe {
				if e := tcpx.PipeJSON(c, 1, name+"0", 1, name+"1", 1, name+"2"); e != nil {
					got.add("pipe: %v", e)
				}
			}
			for i := 0; i < 3; i++ {
				if !pipe {
					if e := tcpx.WriteJSON(c, 1, fmt.Sprint(name, i)); e != nil {
						got.add("write: %v", e)
					}
				}
				if cfg != 5 || i < 2 {
					got.add("%s", recv(c))
				}
				if cfg == 5 && i < 2 {
					got.add("%s", recv(c))
				}
			}
			c.Close()
		}
	}
	expect := func(name string) {
		for i := 0; i < 3; i++ {
			seenWant = append(seenWant, fmt.Sprint(name, i))
			if cfg != 5 || i < 2 {
				want.add("2 re %s%d<nil><nil>", name, i)
			}
			if cfg == 5 && i < 2 {
				want.add("3 %s<nil><nil>", pad(fmt.Sprint("second ", name, i), 300))
			}
		}
		ends1++
	}
	switch cfg {
	case 0, 5:
		vs.GoNamed("client", client("a", false))
		expect("a")
	case 1:
		vs.GoNamed("client", client("a", true))
		expect("a")
	case 2:
		vs.GoNamed("client", func() {
			for i := 0; i < 2; i++ {
				if e := tcpx.TCPCallOnceJSON("tcp", addr, 1, fmt.Sprint("a", i)); e != nil {
					got.add("call: %v", e)
				}
			}
		})
		seenWant = []string{"a0", "a1"}
		ends1 = 2
	case 3:
		vs.GoNamed("client a", client("a", false))
		vs.GoNamed("client b", client("b", true))
		expect("a")
		expect("b")
	case 4:
		vs.GoNamed("client", func() {
			if e := tcpx.TCPCallOnceJSON("tcp", ":99", 1, "x"); e == nil {
				got.add("a call to nobody succeeded")
			}
			if _, e := tcpx.TCPConnect("tcp", ":99"); e == nil {
				got.add("a connection to nobody succeeded")
			}
			if e := tcpx.TCPCallOnceJSON("tcp", addr, 1, make(chan int)); e == nil {
				got.add("a call with a value that cannot be packed succeeded")
			}
		})
		ends1 = -1
	}
	vs.WaitIdle()
	t.Outcome("%s", got.seq())
	if got.sorted() != want.sorted() || seen.sorted() != sortedJoin(seenWant) {
		t.Fail("the client(s) received %s, want %s; the handler saw %s", short(got.sorted()), short(want.sorted()), seen.sorted())
		return
	}
	if cfg < 3 && cfg != 2 && got.seq() != want.seq() {
		t.Fail("the client received %s in this order", got.seq())
		return
	}
	if ends1 >= 0 && ends != ends1 {
		t.Fail("%d connections ended, want %d", ends, ends1)
		return
	}
	if vs.ServerConns() != 0 {
		t.Fail("%d connections of clients that are gone remain", vs.ServerConns())
	}
}
