package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/fwhezfwhez/tcpx"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"verifmc/vs"
)

// C09: replies arrive whole, unmixed, once, on the right connection, with the
// content the handler gave.

func init() {
	register(&Prop{
		ID:          "C09",
		Assumptions: []string{"one Write call on a connection is atomic with respect to other Write calls on it, as the net package guarantees"},
		Scenarios: []*Scenario{
			{
				Name: "concurrent", Desc: "concurrent handlers reply several messages each, with and without a small send window",
				N: n(len(c09cfgs), len(c09cfgs)), Run: c09conc,
				Label: func(c int) string { return fmt.Sprintf("%+v", c09cfgs[c]) },
				Specs: specs(pol(Spec{D: 1, Fine: true}, Spec{D: 2, Shards: 2}), pol(Spec{D: 2, Fine: true, Shards: 8}, Spec{D: 3, Shards: 16})),
			},
			{
				Name: "apis", Desc: "every reply method x server marshaller x number of headers x network x place it is called from (handler of an id, a url, a batch, OnMessage, a middleware, OnConnect, a goroutine); ids and values enumerated",
				N: n(len(c09apis)*len(c09ms), len(c09apis)*len(c09ms)), Run: c09api,
				Label: func(c int) string { return c09apis[c/len(c09ms)] + " server marshaller " + c09ms[c%len(c09ms)] },
				Specs: specs([]Spec{{D: 0}}, []Spec{{D: 1}}),
			},
			{
				Name: "mixed", Desc: "two different reply methods used concurrently for two connections",
				N: n(len(c09apis), len(c09apis)), Run: c09mixed,
				Label: func(c int) string { return c09apis[c] },
				Specs: specs(pol(Spec{D: 1, Fine: true}), pol(Spec{D: 2, Fine: true, Shards: 4})),
			},
			{
				Name: "order", Desc: "one handler replies messages of growing and shrinking sizes, changes what it passed, and then returns, closes its connection or lets the client half-close",
				N: n(len(c09apis)*3, len(c09apis)*3), Run: c09order,
				Label: func(c int) string {
					return fmt.Sprint(c09apis[c/3], ", then ", []string{"return", "CloseConn", "after half-close"}[c%3])
				},
				Specs: specs(pol(Spec{D: 1}), pol(Spec{D: 1, Fine: true}, Spec{D: 2})),
			},
			{
				Name: "kept", Desc: "contexts of handlers kept in a ClientPool of one's own, in a map, or by a goroutine, and used after the handlers have returned, among many other messages",
				N: n(3*3, 3*3), Run: c09kept,
				Label: func(c int) string {
					return fmt.Sprint([]string{"own pool", "map", "goroutine"}[c%3], ", ", []string{"message ids", "urls", "batches"}[c/3])
				},
				Specs: specs(pol(Spec{D: 0}, Spec{D: 1}), pol(Spec{D: 0, Fine: true}, Spec{D: 2, Shards: 4})),
			},
			{
				Name: "push", Desc: "SendToConn and SendToUsername towards a connection that is replying at the same time",
				N: n(3, 3), Run: c09push,
				Specs: specs(pol(Spec{D: 1, Fine: true}, Spec{D: 2}), pol(Spec{D: 2, Fine: true, Shards: 8}, Spec{D: 3, Shards: 8})),
			},
		},
	})
}

type c09cfg struct {
	conns, reqs, reps, size, window int
	pipe                            bool
}

var c09cfgs = []c09cfg{
	{1, 2, 2, 5, 0, false},
	{2, 1, 2, 5, 0, false},
	{1, 2, 2, 30, 20, false},
	{2, 2, 1, 40, 0, false},
	{1, 3, 1, 5, 0, false},
	{1, 2, 1, 70000, 40000, false},
	{1, 2, 2, 300, 0, true},
}

// reader drains a connection as a client that keeps reading.
func reader(c *vs.VConn, into *[]byte) {
	vs.GoNamed("client-reader", func() {
		for {
			vs.WaitUntil("data", func() bool { return len(c.Peek()) > 0 || c.PeerClosed() })
			b := c.Drain()
			if len(b) == 0 {
				return
			}
			*into = append(*into, b...)
		}
	})
}

func c09conc(t *T, cfg int) {
	k := c09cfgs[cfg]
	srv := newSrv()
	srv.AddHandler(1, func(c *tcpx.Context) {
		b := bodyOf(c)
		for i := 0; i < k.reps; i++ {
			c.JSON(int32(100+i), pad(fmt.Sprintf("%s#%d", b, i), k.size+i), tcpx.H{"for": b})
		}
	})
	serve(srv, "tcp", addr)
	if k.window > 0 {
		vs.SetWindow(k.window)
	}
	recv := make([][]byte, k.conns)
	for ci := 0; ci < k.conns; ci++ {
		ci := ci
		vs.GoNamed(fmt.Sprint("client", ci), func() {
			c := dial("tcp", addr)
			reader(c, &recv[ci])
			var all []byte
			for r := 0; r < k.reqs; r++ {
				b := fmt.Sprintf("c%dr%d", ci, r)
				f := msg(1, b)
				if k.pipe && r == 0 {
					f = hdrFrame(1, pipeHdr(fmt.Sprintf(`"enable;%d"`, k.reqs)), b)
				}
				all = append(all, f...)
			}
			c.Write(all)
		})
	}
	vs.WaitIdle()
	for ci := range recv {
		fs, ok := parse(recv[ci])
		if !ok {
			t.Fail("connection %d received bytes that are not whole frames: %.200q", ci, recv[ci])
			return
		}
		next := map[string]int{}
		var seq []string
		for _, f := range fs {
			s := f.Str()
			b, _, _ := strings.Cut(s, "#")
			i := next[b]
			next[b]++
			seq = append(seq, fmt.Sprint(b, i))
			if f.ID != int32(100+i) || s != pad(fmt.Sprintf("%s#%d", b, i), k.size+i) || !sameHdr(f.Hdr, tcpx.H{"for": b}) {
				t.Fail("connection %d: reply %d of request %q is %d %s %.60q", ci, i, b, f.ID, f.Hdr, s)
				return
			}
		}
		for r := 0; r < k.reqs; r++ {
			if next[fmt.Sprintf("c%dr%d", ci, r)] != k.reps {
				t.Fail("connection %d got %v, want %d replies for each of %d requests", ci, seq, k.reps, k.reqs)
				return
			}
		}
		if len(fs) != k.reqs*k.reps {
			t.Fail("connection %d got %d frames: %v", ci, len(fs), seq)
			return
		}
		t.Outcome("%v", seq)
	}
}

// the last ones are marshallers of the application
var c09ms = []string{"json", "xml", "yaml", "toml", "protobuf", "jsonx", "ml", "custom"}

var c09apis = []string{"Reply", "JSON", "XML", "TOML", "YAML", "ProtoBuf", "ReplyWithMarshaller json", "ReplyWithMarshaller xml", "ReplyWithMarshaller yaml", "ReplyWithMarshaller toml", "ReplyWithMarshaller protobuf", "JSONURLPattern", "ProtobufURLPattern", "SendToConn", "SendToUsername"}

// c09val is the value and the expected marshaller of an API call.
func c09val(api, srvM string, i int) (string, any) {
	m := srvM
	switch api {
	case "JSON", "XML", "TOML", "YAML":
		m = strings.ToLower(api)
	case "ProtoBuf", "ProtobufURLPattern":
		m = "protobuf"
	case "JSONURLPattern":
		m = "json"
	}
	if strings.HasPrefix(api, "ReplyWithMarshaller ") {
		m = strings.TrimPrefix(api, "ReplyWithMarshaller ")
	}
	switch m {
	case "protobuf":
		return m, &wrapperspb.StringValue{Value: fmt.Sprint("v", i, pad("x", i*40))}
	case "jsonx", "ml", "custom":
		return m, fmt.Sprint("v", i, pad("x", i*40))
	}
	return m, c01S{A: fmt.Sprint("v", i, pad("x", i*40)), B: i, C: []string{"p"}}
}

func c09do(api string, c *tcpx.Context, id int32, v any, hdrs []map[string]any) error {
	switch api {
	case "Reply":
		return c.Reply(id, v, hdrs...)
	case "JSON":
		return c.JSON(id, v, hdrs...)
	case "XML":
		return c.XML(id, v, hdrs...)
	case "TOML":
		return c.TOML(id, v, hdrs...)
	case "YAML":
		return c.YAML(id, v, hdrs...)
	case "ProtoBuf":
		return c.ProtoBuf(id, v, hdrs...)
	case "JSONURLPattern":
		return c.JSONURLPattern(v)
	case "ProtobufURLPattern":
		return c.ProtobufURLPattern(v)
	case "SendToConn":
		return c.SendToConn(c, id, v, hdrs...)
	case "SendToUsername":
		c.Online("me")
		return c.SendToUsername("me", id, v, hdrs...)
	}
	m := strings.TrimPrefix(api, "ReplyWithMarshaller ")
	return c.ReplyWithMarshaller(marshallerOf(m), id, v, hdrs...)
}

func c09api(t *T, cfg int) {
	api, sm := c09apis[cfg/len(c09ms)], c09ms[cfg%len(c09ms)]
	ids := []int32{0, 1, -1, 1<<31 - 1, -1 << 31}
	id := ids[vs.Choose(len(ids))]
	vi := vs.Choose(3)
	nh := vs.Choose(3)
	network := []string{"tcp", "udp"}[vs.Choose(2)]
	if strings.HasPrefix(api, "SendTo") && network == "udp" {
		return
	}
	var hdrs []map[string]any
	want := map[string]any{}
	for i := 0; i < nh; i++ {
		hdrs = append(hdrs, map[string]any{"k": fmt.Sprint("h", i), fmt.Sprint("n", i): "x"})
		want["k"] = fmt.Sprint("h", i)
		want[fmt.Sprint("n", i)] = "x"
	}
	srv := tcpx.NewTcpX(marshallerOf(sm))
	srv.WithBuiltInPool(true)
	m, v := c09val(api, sm, vi)
	var e error
	h := func(c *tcpx.Context) { e = c09do(api, c, id, v, hdrs) }
	url := strings.HasSuffix(api, "URLPattern")
	req := msg(5, "x")
	in := "id"
	if !url {
		in = []string{"id", "url", "batch", "OnMessage", "middleware", "OnConnect", "goroutine"}[vs.Choose(7)]
	}
	if network == "udp" && (in == "batch" || in == "OnConnect") {
		return
	}
	nop := func(c *tcpx.Context) {}
	srv.AddHandler(6, nop)
	switch in {
	case "url":
		req = urlMsg("/u/v", "x")
	case "batch":
		req = append(hdrFrame(6, pipeHdr(`"enable;2"`), "x"), req...)
	case "OnMessage":
		srv.OnMessage = h
	case "middleware":
		srv.UseGlobal(h)
		h = nop
	case "OnConnect":
		srv.OnConnect = h
		h = nop
	case "goroutine":
		f := h
		h = func(c *tcpx.Context) { vs.GoNamed("reply", func() { f(c) }) }
	}
	srv.AddHandler(5, h)
	srv.Any("/u/v", h)
	serve(srv, network, addr)
	if url {
		req = urlMsg("/u/v", "x")
		id = 0
		want = map[string]any{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": "/u/v"}
	}
	var got []byte
	if network == "tcp" {
		c := dial("tcp", addr)
		c.Write(req)
		vs.WaitIdle()
		got = c.Peek()
	} else {
		c := dialUDP(addr)
		c.Write(req)
		vs.WaitIdle()
		ds := c.TakeDatagrams()
		if len(ds) != 1 {
			t.Fail("%s over udp sent %d datagrams (%v)", api, len(ds), e)
			return
		}
		got = ds[0]
	}
	if e != nil {
		t.Fail("%s returned %v", api, e)
		return
	}
	t.Outcome("%d bytes", len(got))
	c01checkFrame(t, fmt.Sprintf("%s (id %d, %d headers, %s, %s)", api, id, nh, network, in), got, id, want, refMarshal(m, v))
}

// c09mixed: one server, one api under test on two connections, JSON on a third.
func c09mixed(t *T, cfg int) {
	api := c09apis[cfg]
	srv := tcpx.NewTcpX(tcpx.JsonMarshaller{})
	srv.WithBuiltInPool(true)
	h := func(c *tcpx.Context) {
		b := bodyOf(c)
		_, v := c09val(api, "json", int(b[1]-'0'))
		if b == "r3" {
			c.XML(7, c01S{A: "other"})
			return
		}
		if strings.HasPrefix(api, "SendToUsername") {
			c.Online(b)
			c.SendToUsername(b, 6, v)
			return
		}
		c09do(api, c, 6, v, nil)
	}
	srv.AddHandler(5, h)
	srv.Any("/u", h)
	serve(srv, "tcp", addr)
	cs := make([]*vs.VConn, 4)
	for i := 1; i <= 3; i++ {
		i := i
		vs.GoNamed(fmt.Sprint("client", i), func() {
			c := dial("tcp", addr)
			cs[i] = c
			if strings.HasSuffix(api, "URLPattern") && i < 3 {
				c.Write(urlMsg("/u", fmt.Sprint("r", i)))
			} else {
				c.Write(msg(5, fmt.Sprint("r", i)))
			}
		})
	}
	vs.WaitIdle()
	for i := 1; i <= 3; i++ {
		fs, ok := replies(cs[i])
		if !ok || len(fs) != 1 {
			t.Fail("%s: client %d received %d frames (whole: %v)", api, i, len(fs), ok)
			return
		}
		m, v := c09val(api, "json", i)
		if i == 3 {
			m, v = "xml", c01S{A: "other"}
		}
		if !bytes.Equal(fs[0].Body, refMarshal(m, v)) {
			t.Fail("%s: client %d received %.100q", api, i, fs[0].Body)
			return
		}
	}
}

// c09order: the client must receive every successful reply, in the order they
// were made, with the content at the time of the call.
func c09order(t *T, cfg int) {
	api := c09apis[cfg/3]
	sizes := []int{3, 5000, 70000, 10, 200000, 0}
	srv := newSrv()
	srv.WithBuiltInPool(true)
	var errs bag
	var good []int // the replies that succeeded
	h := func(c *tcpx.Context) {
		for k := 0; k < 2*len(sizes); k++ { // every reply twice in a row
			i, sz := k/2, sizes[k/2]
			m, v := c09val(api, "json", 0)
			hd := map[string]any{"i": fmt.Sprint(i)}
			s := pad(fmt.Sprint(i, "-"), sz)
			var e error
			if m == "protobuf" {
				x := v.(*wrapperspb.StringValue)
				x.Value = s
				e = c09do(api, c, int32(i), x, []map[string]any{hd, {"j": "2"}})
				x.Value = "changed"
			} else {
				x := &c01S{A: s, C: []string{"p"}}
				e = c09do(api, c, int32(i), x, []map[string]any{hd, {"j": "2"}})
				x.A, x.C[0] = "changed", "changed"
			}
			if len(hd) != 1 || hd["i"] != fmt.Sprint(i) {
				errs.add("the caller's header became %v", hd)
			}
			hd["i"] = "changed"
			if e == nil {
				good = append(good, i)
			} else if !off() && cfg%3 != 2 {
				errs.add("reply %d: %v", i, e)
			}
		}
		if cfg%3 == 1 {
			c.CloseConn()
		}
	}
	srv.AddHandler(5, h)
	srv.Any("/u", h)
	serve(srv, "tcp", addr)
	c := dial("tcp", addr)
	var got []byte
	reader(c, &got)
	if strings.HasSuffix(api, "URLPattern") {
		c.Write(urlMsg("/u", "x"))
	} else {
		c.Write(msg(5, "x"))
	}
	if cfg%3 == 2 {
		c.CloseWrite()
	}
	vs.WaitIdle()
	fs, ok := parse(got)
	t.Outcome("%d", len(fs))
	if !ok || len(errs.l) > 0 || len(fs) != len(good) {
		t.Fail("%s: the client received %d of %d successful replies (whole: %v), errors %v", api, len(fs), len(good), ok, errs.l)
		return
	}
	for k, f := range fs {
		i := good[k]
		m, v := c09val(api, "json", 0)
		s := pad(fmt.Sprint(i, "-"), sizes[i])
		if m == "protobuf" {
			v = &wrapperspb.StringValue{Value: s}
		} else {
			v = &c01S{A: s, C: []string{"p"}}
		}
		want := refMarshal(m, v)
		if !bytes.Equal(f.Body, want) || !strings.HasSuffix(api, "URLPattern") && (f.ID != int32(i) || !sameHdr(f.Hdr, tcpx.H{"i": fmt.Sprint(i), "j": "2"})) {
			t.Fail("%s: frame %d is %d %s, %d bytes %.60q", api, i, f.ID, f.Hdr, len(f.Body), f.Body)
			return
		}
	}
}

func c09push(t *T, cfg int) {
	srv := newSrv()
	srv.WithBuiltInPool(true)
	var alice *tcpx.Context
	var errs bag
	srv.AddHandler(1, func(c *tcpx.Context) { // alice logs in
		if e := c.Online("alice"); e != nil {
			errs.add("online %v", e)
		}
		alice = c
		vs.Pub()
	})
	srv.AddHandler(2, func(c *tcpx.Context) { // alice's request
		b := bodyOf(c)
		c.JSON(20, pad(b, 30))
		c.JSON(21, pad(b, 31))
	})
	srv.AddHandler(3, func(c *tcpx.Context) { // bob pushes to alice
		b := bodyOf(c)
		var e error
		if cfg == 0 {
			vs.Sub()
			e = c.SendToConn(alice, 30, pad(b, 33))
		} else {
			e = c.SendToUsername("alice", 30, pad(b, 33))
		}
		if e != nil {
			errs.add("send %v", e)
		}
		c.JSON(31, b)
	})
	serve(srv, "tcp", addr)
	if cfg == 2 {
		vs.SetWindow(16)
	}
	a, b := dial("tcp", addr), dial("tcp", addr)
	var ra, rb []byte
	reader(a, &ra)
	reader(b, &rb)
	a.Write(msg(1, "hi"))
	vs.WaitIdle()
	vs.GoNamed("alice", func() { a.Write(msg(2, "a1")) })
	vs.GoNamed("bob", func() { b.Write(append(msg(3, "b1"), msg(3, "b2")...)) })
	vs.WaitIdle()
	fa, ok1 := parse(ra)
	fb, ok2 := parse(rb)
	t.Outcome("%d %v %v", len(fa), strs(fa), strs(fb))
	want := []string{"20:" + pad("a1", 30), "21:" + pad("a1", 31), "30:" + pad("b1", 33), "30:" + pad("b2", 33)}
	if !ok1 || !ok2 || sortedJoin(strs(fa)) != sortedJoin(want) || sortedJoin(strs(fb)) != "31:b1,31:b2" || len(errs.l) > 0 {
		t.Fail("alice received %v (whole: %v), bob received %v, errors %v", strs(fa), ok1, strs(fb), errs.l)
	}
}

// c09kept: a context may be kept; what is sent through it reaches its client.
func c09kept(t *T, cfg int) {
	how, route := cfg%3, cfg/3
	const N = 4
	srv := newSrv()
	own := tcpx.NewClientPool()
	kept := map[string]*tcpx.Context{}
	goOn := 0
	var errs, done bag
	send := func(what string, e error) {
		if off() {
			return
		}
		if e != nil {
			errs.add("%s: %v", what, e)
		}
		done.add("x")
	}
	login := func(c *tcpx.Context) {
		if off() {
			return
		}
		u := bodyOf(c)
		switch how {
		case 0:
			own.Online(u, c)
		case 1:
			kept[u] = c
			vs.Pub()
		case 2:
			vs.GoNamed("late reply", func() {
				vs.WaitUntil("go on", func() bool { return goOn > 0 })
				send(u, c.JSON(9, "to "+u))
			})
		}
	}
	push := func(c *tcpx.Context) {
		if off() {
			return
		}
		vs.Sub()
		for i := 1; i <= N; i++ {
			u := fmt.Sprint("u", i)
			switch {
			case how == 0 && i%2 == 0:
				send(u, own.GetClientPool(u).JSON(9, "to "+u))
			case how == 0:
				send(u, c.SendToConn(own.GetClientPool(u), 9, "to "+u))
			case how == 1 && i%2 == 0:
				send(u, kept[u].JSON(9, "to "+u))
			case how == 1:
				send(u, c.SendToConn(kept[u], 9, "to "+u))
			}
		}
	}
	other := func(c *tcpx.Context) { c.JSON(2, bodyOf(c)) }
	srv.AddHandler(1, login)
	srv.AddHandler(3, push)
	srv.AddHandler(5, other)
	srv.Any("/1", login)
	srv.Any("/3", push)
	srv.Any("/5", other)
	serve(srv, "tcp", addr)
	req := func(id int32, b string) []byte {
		switch route {
		case 1:
			return urlMsg(fmt.Sprint("/", id), b)
		case 2:
			return append(hdrFrame(id, pipeHdr(`"enable;2"`), b), msg(5, "second")...)
		}
		return msg(id, b)
	}
	var cs []*vs.VConn
	for i := 0; i <= N; i++ {
		c := dial("tcp", addr)
		vs.WaitIdle()
		cs = append(cs, c)
		if i > 0 {
			c.Write(req(1, fmt.Sprint("u", i)))
			vs.WaitIdle()
		}
	}
	for r := 0; r < 3; r++ { // everybody goes on, the first client most of all
		for i, c := range cs {
			c.Write(req(5, fmt.Sprint("o", i)))
			vs.WaitIdle()
		}
	}
	for r := 0; r < 6; r++ {
		cs[0].Write(req(5, "o0"))
		vs.WaitIdle()
	}
	for _, c := range cs {
		c.Drain()
	}
	if how == 2 {
		goOn++
	} else {
		cs[0].Write(req(3, ""))
	}
	vs.WaitIdle()
	if len(errs.l) > 0 || len(done.l) != N {
		t.Fail("sends through kept contexts: %d done, errors %v", len(done.l), errs.l)
		return
	}
	for i, c := range cs {
		want := fmt.Sprint("9:to u", i)
		if i == 0 {
			want = ""
			if how != 2 && route == 2 {
				want = "2:second"
			}
		}
		if fs, ok := replies(c); !ok || sortedJoin(strs(fs)) != want {
			t.Fail("after sends through kept contexts client %d received %v, want %q", i, strs(fs), want)
			return
		}
	}
	t.Outcome("%d", len(done.l))
}
