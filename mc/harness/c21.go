package main

import (
	"io"

	"github.com/fwhezfwhez/tcpx"
	"verifmc/vs"
)

// C21: raw mode.

func init() {
	register(&Prop{
		ID:          "C21",
		Assumptions: []string{"handlers do not panic", "at most one removable middleware (Use) is registered"},
		Scenarios: []*Scenario{
			{
				Name: "bytes", Desc: "two raw clients send byte streams in pieces; the handlers see exactly these bytes and the clients exactly what the handlers wrote",
				N: n(6, 6), Run: c21bytes,
				Specs: specs(pol(Spec{D: 1, Seg: true, Fine: true}, Spec{D: 2}), pol(Spec{D: 2, Seg: true, Fine: true, Shards: 8}, Spec{D: 3, Shards: 8})),
			},
			{
				Name: "large", Desc: "streams of up to 5 MB in both directions, in pieces of several sizes", Steps: 3000000,
				N: n(6, 6), Run: c21large,
				Specs: specs(pol(Spec{D: 0}), pol(Spec{D: 0, Fine: true})),
			},
			{
				Name: "life", Desc: "order of OnConnect, middlewares, HandleRaw, OnClose and the closing of the connection; Abort",
				N: n(8, 8), Run: c21life,
				Specs: specs(pol(Spec{D: 1, Fine: true}, Spec{D: 2}), pol(Spec{D: 2, Fine: true, Shards: 4}, Spec{D: 3, Shards: 4})),
			},
		},
	})
}

// c21bytes: cfg&1: unix; cfg/2: 0 handler reads to EOF and echoes transformed,
// 1 handler reads exactly 10 bytes and returns, 2 handler writes first.
func c21bytes(t *T, cfg int) {
	network, a := "tcp", addr
	if cfg%2 == 1 {
		network, a = "unix", "/tmp/verif-never-created.sock"
	}
	kind := cfg / 2
	srv := newSrv()
	runs := map[byte][][]byte{}
	ends := map[byte]error{}
	var nrun int
	srv.HandleRaw = func(c *tcpx.Context) {
		if off() {
			return
		}
		nrun++
		var in []byte
		var b [5]byte
		if kind == 2 {
			c.ConnWriter.Write([]byte("hello\x00"))
		}
		for {
			want := len(b)
			if kind == 1 && 10-len(in) < want {
				want = 10 - len(in)
			}
			n, e := c.ConnReader.Read(b[:want])
			in = append(in, b[:n]...)
			if n > 0 {
				if m, e := c.ConnWriter.Write(flip(b[:n])); e == nil && m != n {
					t.Fail("ConnWriter.Write of %d bytes reports %d", n, m)
				}
			}
			if e != nil {
				if off() {
					return
				}
				ends[in[0]] = e
				break
			}
			if kind == 1 && len(in) == 10 {
				break
			}
		}
		runs[in[0]] = append(runs[in[0]], in)
	}
	serveRaw(srv, network, a)
	sent := map[byte][]byte{'x': []byte("xabc\x00\x00\x00\x04def!"), 'y': []byte("y\xff\xff\xff\xff0123456")}
	cs := map[byte]*vs.VConn{}
	for _, k := range []byte("xy") {
		k := k
		cs[k] = dial(network, a)
		vs.GoNamed("client "+string(k), func() {
			s := sent[k]
			cs[k].Write(s[:3])
			cs[k].Write(s[3:])
		})
	}
	vs.WaitIdle()
	if kind != 1 {
		for _, k := range []byte("xy") {
			if cs[k].PeerClosed() {
				t.Fail("the connection is closed while the handler runs")
				return
			}
			cs[k].CloseWrite()
		}
		vs.WaitIdle()
	}
	t.Outcome("%d", nrun)
	if nrun != 2 {
		t.Fail("HandleRaw ran %d times for 2 connections", nrun)
		return
	}
	for _, k := range []byte("xy") {
		want := sent[k]
		if kind == 1 {
			want = want[:10]
		}
		if len(runs[k]) != 1 || !eq(runs[k][0], want) {
			t.Fail("the handler read %q, the client sent %q", runs[k], want)
			return
		}
		back := flip(want)
		if kind == 2 {
			back = append([]byte("hello\x00"), back...)
		}
		if g := cs[k].Drain(); !eq(g, back) {
			t.Fail("the client received %q, the handler wrote %q", g, back)
			return
		}
		if kind != 1 && ends[k] != io.EOF {
			t.Fail("the handler's read ended with %v, want EOF", ends[k])
			return
		}
		if !cs[k].PeerClosed() || !cs[k].Peer().IsClosed() {
			t.Fail("the handler returned and the connection is open")
			return
		}
	}
}

// c21large: cfg%3 the size of the client's pieces, cfg/3 that of the handler's
// buffer.
func c21large(t *T, cfg int) {
	total := 5<<20 + 3
	piece := []int{4095, 65536, total}[cfg%3]
	buf := []int{8192, 1 << 20}[cfg/3]
	data := make([]byte, total)
	for i := range data {
		data[i] = byte(i ^ i>>7 ^ i>>15)
	}
	srv := newSrv()
	var in []byte
	srv.HandleRaw = func(c *tcpx.Context) {
		b := make([]byte, buf)
		for {
			n, e := c.ConnReader.Read(b)
			if off() {
				return
			}
			in = append(in, b[:n]...)
			c.ConnWriter.Write(flip(b[:n]))
			if e != nil {
				return
			}
		}
	}
	serveRaw(srv, "tcp", addr)
	c := dial("tcp", addr)
	for i := 0; i < total; i += piece {
		c.Write(data[i:min(i+piece, total)])
	}
	c.CloseWrite()
	vs.WaitIdle()
	t.Outcome("%d", len(in))
	if !eq(in, data) {
		t.Fail("the handler read %d bytes of %d sent (pieces of %d), or others", len(in), total, piece)
		return
	}
	if !eq(c.Drain(), flip(data)) {
		t.Fail("the client did not receive the %d bytes the handler wrote", total)
	}
}

// c21life: cfg&1 abort in the middleware, cfg&2 the handler returns at once,
// cfg&4 pool, signals and heartbeat are on.
func c21life(t *T, cfg int) {
	abort, atOnce, full := cfg&1 != 0, cfg&2 != 0, cfg&4 != 0
	srv := newSrv()
	if full {
		srv.WithBuiltInPool(true)
		srv.WithBroadCastSignal(true)
		srv.HeartBeatMode(true, hbI*100)
		srv.OnMessage = func(c *tcpx.Context) { t.Fail("OnMessage runs in raw mode") }
		srv.AddHandler(0, func(c *tcpx.Context) { t.Fail("a message handler runs in raw mode") })
	}
	var pool *tcpx.ClientPool
	ev := map[string]*bag{}
	conn := func(c *tcpx.Context) *bag {
		k := c.Conn.RemoteAddr().String()
		if ev[k] == nil {
			ev[k] = &bag{}
		}
		return ev[k]
	}
	closedEarly := false
	srv.OnConnect = func(c *tcpx.Context) {
		conn(c).add("connect")
		if full && !off() {
			pool = c.GetPoolRef()
			vs.Pub()
			c.Online(c.Conn.RemoteAddr().String())
		}
	}
	srv.OnClose = func(c *tcpx.Context) { conn(c).add("close") }
	srv.UseGlobal(func(c *tcpx.Context) { conn(c).add("m1"); c.Next(); conn(c).add("m1-") })
	srv.UseGlobal(func(c *tcpx.Context) {
		conn(c).add("m2")
		if abort {
			c.Abort()
			return
		}
		c.Next()
	})
	srv.Use("anchor", func(c *tcpx.Context) { conn(c).add("m3"); c.Next() })
	srv.HandleRaw = func(c *tcpx.Context) {
		if off() {
			return
		}
		conn(c).add("raw")
		if !atOnce {
			io.ReadFull(c.ConnReader, make([]byte, 3))
		}
		if off() {
			return
		}
		if vc, ok := c.Conn.(*vs.VConn); ok && vc.IsClosed() {
			closedEarly = true
		}
		c.ConnWriter.Write([]byte("bye"))
	}
	serveRaw(srv, "tcp", addr)
	var a, b *vs.VConn
	vs.GoNamed("a", func() { a = dial("tcp", addr); a.Write([]byte("abc")) })
	vs.GoNamed("b", func() { b = dial("tcp", addr); b.Write([]byte("abc")) })
	vs.WaitIdle()
	want := "connect,m1,m2,m3,raw,m1-,close"
	if abort {
		want = "connect,m1,m2,m1-,close"
	}
	vs.Sub()
	for i, c := range []*vs.VConn{a, b} {
		k := c.LocalAddr().String()
		g := ""
		if ev[k] != nil {
			g = ev[k].seq()
		}
		t.Outcome("%s", g)
		if g != want {
			t.Fail("events of connection %d: %s, want %s", i, g, want)
			return
		}
		data := string(c.Drain())
		if !c.PeerClosed() || (data == "bye") == abort || abort && data != "" {
			t.Fail("connection %d: received %q, closed %v", i, data, c.PeerClosed())
			return
		}
		if full && pool.GetClientPool(k) != nil {
			t.Fail("the pool still has the closed connection")
			return
		}
	}
	if closedEarly {
		t.Fail("the connection was closed before the handler returned")
		return
	}
	srv.Stop(true)
	vs.WaitIdle()
	if l := vs.LiveServerThreads(); len(l) > 0 {
		t.Fail("goroutines remain: %v", l)
	}
}

// flip transforms bytes reversibly.
func flip(b []byte) []byte {
	r := make([]byte, len(b))
	for i := range b {
		r[i] = b[i] ^ 0x20
	}
	return r
}
