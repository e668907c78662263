package main

import (
	"fmt"

	"github.com/fwhezfwhez/tcpx"
	"verifmc/vs"
)

// C04: a client that sends anything at all, in any segmentation, and goes away
// in any manner, affects nobody but itself.

type c04atk struct {
	name string
	b    [][]byte
	end  string // "", close, reset, half
	// the server must hang up on it
	hang bool
	// bodies its well-formed messages dispatch
	ok []string
}

func hdrFrame(id int32, hdr string, body string) []byte { return frame(id, []byte(hdr), js(body)) }

func lenOnly(n uint32) []byte { return []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }

func raw16(l, id, h, b uint32, tail string) []byte {
	r := append(lenOnly(l), lenOnly(id)...)
	r = append(append(r, lenOnly(h)...), lenOnly(b)...)
	return append(r, tail...)
}

const pipeKey = "[tcpx-buffer-in-serial]"

func pipeHdr(v string) string { return fmt.Sprintf(`{"%s":%s}`, pipeKey, v) }

var c04atks = []c04atk{
	{name: "connect only, close", end: "close"},
	{name: "connect only, reset", end: "reset"},
	{name: "partial length", b: [][]byte{{0, 0}}, end: "close"},
	{name: "partial body", b: [][]byte{msg(1, "abcdef")[:19]}, end: "close"},
	{name: "partial body, reset", b: [][]byte{msg(1, "abcdef")[:19]}, end: "reset"},
	{name: "length 0", b: [][]byte{lenOnly(0)}, hang: true},
	{name: "length 3", b: [][]byte{append(lenOnly(3), 1, 2, 3)}, hang: true},
	{name: "length 0x80000000", b: [][]byte{lenOnly(1 << 31), []byte("xxxx")}, hang: true},
	{name: "length 0xffffffff", b: [][]byte{lenOnly(0xffffffff)}, hang: true},
	{name: "header length too big", b: [][]byte{raw16(14, 1, 200, 0, "{}")}, hang: true},
	{name: "header length negative", b: [][]byte{raw16(14, 1, 0xffffffff, 0, "{}")}, hang: true},
	{name: "header length -16", b: [][]byte{raw16(14, 1, 0xfffffff0, 2, "{}")}, hang: true},
	{name: "body length too big", b: [][]byte{raw16(14, 1, 2, 200, "{}")}, end: "close"},
	{name: "body length negative", b: [][]byte{raw16(14, 1, 2, 0xfffffff0, "{}")}, end: "close"},
	{name: "header not JSON", b: [][]byte{hdrFrame(1, "{{{", "x")}, hang: true},
	{name: "header empty", b: [][]byte{hdrFrame(1, "", "x")}, hang: true},
	{name: "header and body empty", b: [][]byte{frame(1, nil, nil)}, hang: true},
	{name: "header JSON array", b: [][]byte{hdrFrame(1, "[1]", "x")}, hang: true},
	{name: "body not JSON", b: [][]byte{frame(1, []byte("{}"), []byte("{{{{"))}, end: "close"},
	{name: "unknown id", b: [][]byte{msg(99, "x")}, end: "close"},
	{name: "unknown url", b: [][]byte{urlMsg("/nope", "x")}, end: "close"},
	{name: "router type unknown", b: [][]byte{hdrFrame(1, `{"Router-Type":"WHAT"}`, "x")}, end: "close"},
	{name: "router value not a string", b: [][]byte{hdrFrame(1, `{"Router-Type":"URL_PATTERN","Router-Pattern-Value":5}`, "x")}, end: "close"},
	{name: "router type null", b: [][]byte{hdrFrame(1, `{"Router-Type":null}`, "ok-null")}, end: "close", ok: []string{"ok-null"}},
	{name: "pipe args null", b: [][]byte{hdrFrame(1, pipeHdr(`null`), "x")}, hang: true},
	{name: "pipe args number", b: [][]byte{hdrFrame(1, pipeHdr(`5`), "x")}, hang: true},
	{name: "pipe args empty", b: [][]byte{hdrFrame(1, pipeHdr(`""`), "x")}, hang: true},
	{name: "pipe args no count", b: [][]byte{hdrFrame(1, pipeHdr(`"enable;x"`), "x")}, hang: true},
	{name: "pipe count 0", b: [][]byte{hdrFrame(1, pipeHdr(`"enable;0"`), "p0")}, end: "close", ok: []string{"p0"}},
	{name: "pipe count -1", b: [][]byte{hdrFrame(1, pipeHdr(`"enable;-1"`), "p1")}, end: "close", ok: []string{"p1"}},
	{name: "pipe count -2147483648", b: [][]byte{hdrFrame(1, pipeHdr(`"enable;-2147483648"`), "p1")}, end: "close", ok: []string{"p1"}},
	{name: "pipe count huge", b: [][]byte{hdrFrame(1, pipeHdr(`"enable;9000000000000000000"`), "ph")}, end: "close", ok: []string{"ph"}},
	{name: "pipe cut short", b: [][]byte{hdrFrame(1, pipeHdr(`"enable;3"`), "pc"), msg(1, "pd")}, end: "close", ok: []string{"pc", "pd"}},
	{name: "pipe cut short, reset", b: [][]byte{hdrFrame(1, pipeHdr(`"enable;3"`), "pc")}, end: "half", ok: []string{"pc"}},
	{name: "pipe cut in a message", b: [][]byte{hdrFrame(1, pipeHdr(`"enable;2"`), "pc"), msg(1, "pd")[:9]}, end: "close", ok: []string{"pc"}},
	{name: "pipe with a bad second message", b: [][]byte{hdrFrame(1, pipeHdr(`"enable;3"`), "pc"), hdrFrame(1, "{{{", "zz"), lenOnly(0xfffffff0)}, end: "close", ok: nil},
	{name: "batch, then garbage", b: [][]byte{hdrFrame(1, pipeHdr(`"enable;3"`), "pc"), msg(1, "pd"), lenOnly(0xfffffff0)}, hang: true, ok: []string{"pc", "pd"}},
	{name: "batch, garbage at once", b: [][]byte{hdrFrame(1, pipeHdr(`"enable;2"`), "pc"), lenOnly(1 << 31)}, hang: true, ok: []string{"pc"}},
	{name: "half close", b: [][]byte{msg(1, "hc")}, end: "half", ok: []string{"hc"}},
	{name: "good then garbage", b: [][]byte{msg(1, "gg"), []byte("\xff\xff\xff\xffgarbage")}, hang: true, ok: []string{"gg"}},
	{name: "trailing bytes in a block", b: [][]byte{raw16(20, 1, 2, 3, "{}\"t\"xxx")}, end: "close", ok: []string{"t"}},
	{name: "connect only and stay"},
	{name: "partial length and stay", b: [][]byte{{0, 0, 0}}},
	{name: "partial body and stay", b: [][]byte{msg(1, "abcdef")[:19]}},
	{name: "huge length and stay", b: [][]byte{lenOnly(900), []byte("xxxx")}},
	{name: "batch cut short and stay", b: [][]byte{hdrFrame(1, pipeHdr(`"enable;3"`), "pc"), msg(1, "pd")}},
	{name: "NUL flood", b: [][]byte{make([]byte, 64)}, hang: true},
}

func init() {
	register(&Prop{
		ID: "C04",
		Assumptions: []string{
			"user handlers do not panic",
			"the announced length of a message fits in memory (without SetMaxBytePerMessage a client may announce up to 2 GiB)",
		},
		Scenarios: []*Scenario{
			{
				Name: "hostile", Desc: "one hostile and one ordinary client at the same time, and a client that connects afterwards",
				N: n(len(c04atks)*2, len(c04atks)*2), Run: c04hostile,
				Label: func(c int) string { return c04atks[c/2].name },
				Specs: specs(pol(Spec{D: 1, Seg: true}, Spec{D: 1, Fine: true}, Spec{D: 2}), pol(Spec{D: 2, Seg: true, Shards: 2}, Spec{D: 1, Fine: true, Seg: true}, Spec{D: 3, Shards: 4})),
			},
			{
				Name: "tls", Desc: "with TLS: hostile clients that stay and never begin, never finish or break the handshake, or send garbage after it; then ordinary clients",
				N: n(len(c04tlsAtks), len(c04tlsAtks)), Run: c04tls,
				Label: func(c int) string { return c04tlsAtks[c] },
				Specs: specs(pol(Spec{D: 1}), pol(Spec{D: 2})),
			},
			{
				Name: "deaf", Desc: "a client that never reads its replies, with a small send window",
				N: n(2, 2), Run: c04deaf,
				Specs: specs(pol(Spec{D: 2}), pol(Spec{D: 3, Shards: 8})),
			},
			{
				Name: "deaf-peer", Desc: "handlers send to a client that never reads, by user name through the pool and through a kept context; other clients log in, send and log out",
				N: n(2, 2), Run: c04deafPool,
				Specs: specs(pol(Spec{D: 2}), pol(Spec{D: 3, Shards: 8})),
			},
			{
				Name: "deaf-flood", Steps: 3000000, Desc: "clients that never read send thousands of messages whose handlers reply, as messages, URL messages or batches, on one connection or many; then an ordinary client",
				N: n(6, 6), Run: c04flood,
				Label: func(c int) string {
					return fmt.Sprint([]string{"message ids", "urls", "batches"}[c%3], []string{" one client", " many clients"}[c/3])
				},
				Specs: specs([]Spec{{D: 0}}, pol(Spec{D: 0})),
			},
			{
				Name: "crowd", Steps: 3000000, Desc: "160 hostile clients that stay, or 300 that come and go, one kind at a time; then an ordinary client",
				N: n(len(c04atks), len(c04atks)), Run: c04crowd,
				Label: func(c int) string { return c04atks[c].name },
				Specs: specs([]Spec{{D: 0}}, pol(Spec{D: 0})),
			},
			{
				Name: "crowd-stay", Steps: 3000000, Desc: "2200 clients that stay connected and send nothing, half a header, or a header announcing a body that never comes; then an ordinary client",
				N: n(3, 3), Run: c04stay,
				Label: func(c int) string { return []string{"silent", "half a header", "no body"}[c] },
				Specs: specs([]Spec{{D: 0}}, pol(Spec{D: 0})),
			},
		},
	})
}

var c04tlsAtks = []string{"silent", "half a hello", "a record header", "plaintext message", "zeros", "handshake, then garbage", "handshake, then half a message", "handshake, then a close", "all of them"}

// c04tls: what clients do to the handshake concerns only themselves.
func c04tls(t *T, cfg int) {
	e := c23nets[cfg%2]
	srv := newSrv()
	loadTLS(t, srv)
	var got bag
	srv.AddHandler(1, func(c *tcpx.Context) {
		got.add("%s", bodyOf(c))
		c.JSON(2, "re:"+bodyOf(c))
	})
	up(srv, []ep{e})
	early := dialTLS(e)
	if early == nil {
		t.Fail("no connection")
		return
	}
	talk := func(c *tlsCli, tag, when string) bool {
		var err error
		var f Fr
		done := false
		vs.GoNamed("tls client "+tag, func() {
			if _, err = c.c.Write(msg(1, tag)); err == nil {
				f, err = c.frameIn()
			}
			done = true
		})
		vs.WaitIdle()
		if !done || err != nil || f.ID != 2 || f.Str() != "re:"+tag {
			t.Fail("%s: an ordinary TLS client is not answered: finished %v, error %v, reply %v", when, done, err, f)
			return false
		}
		return true
	}
	if !talk(early, "early", "at first") {
		return
	}
	hello := append([]byte{}, early.w.out[:100]...)
	for a := 0; a < len(c04tlsAtks)-1; a++ {
		if cfg != len(c04tlsAtks)-1 && cfg != a {
			continue
		}
		for i := 0; i < 2 && (i == 0 || cfg == a); i++ {
			switch a {
			case 0, 1, 2, 3, 4:
				v := dial(e.network, e.addr)
				if v == nil {
					t.Fail("%s: the server refuses connections", c04tlsAtks[a])
					return
				}
				v.NoYield, v.Peer().NoYield = true, true
				if b := [][]byte{nil, hello, hello[:5], msg(1, "plain"), make([]byte, 300)}[a]; b != nil {
					v.Write(b)
				}
			default:
				c := dialTLS(e)
				if c == nil {
					t.Fail("%s: the server refuses connections", c04tlsAtks[a])
					return
				}
				vs.GoNamed("hostile", func() {
					if c.c.Handshake() != nil {
						return
					}
					switch a {
					case 5:
						c.v.Write([]byte("garbage garbage garbage"))
					case 6:
						c.c.Write(msg(1, "never")[:9])
					case 7:
						c.v.Close()
					}
				})
			}
		}
	}
	late := dialTLS(e)
	if late == nil {
		t.Fail("%s: the server refuses connections", c04tlsAtks[cfg])
		return
	}
	if !talk(late, "late", c04tlsAtks[cfg]) || !talk(early, "again", c04tlsAtks[cfg]) {
		return
	}
	t.Outcome("%s", got.sorted())
	if got.sorted() != "again,early,late" {
		t.Fail("%s: dispatched %s", c04tlsAtks[cfg], got.sorted())
	}
}

func c04stay(t *T, cfg int) {
	srv := newSrv()
	srv.AddHandler(1, func(c *tcpx.Context) {
		var b string
		if _, e := c.Bind(&b); e == nil {
			c.JSON(2, "re:"+b)
		}
	})
	serve(srv, "tcp", addr)
	m := msg(1, "never comes")
	b := [][]byte{nil, m[:3], m[:len(m)-4]}[cfg]
	for i := 0; i < 2200; i++ {
		e := dial("tcp", addr)
		if e == nil {
			t.Fail("with %d idle clients connected the server refuses connections", i)
			return
		}
		if b != nil {
			e.Write(b)
		}
		if i%64 == 63 {
			vs.WaitIdle()
		}
	}
	g := dial("tcp", addr)
	if g == nil {
		t.Fail("with 2200 idle clients connected the server refuses connections")
		return
	}
	g.Write(msg(1, "good"))
	vs.WaitIdle()
	t.Outcome("%d", cfg)
	if fs, ok := replies(g); !ok || sortedJoin(strs(fs)) != "2:re:good" {
		t.Fail("with 2200 idle clients connected an ordinary client received %v", strs(fs))
	}
}

func c04hostile(t *T, cfg int) {
	a := c04atks[cfg/2]
	limited := cfg%2 == 1
	srv := newSrv()
	if limited {
		srv.SetMaxBytePerMessage(1000)
	}
	var got bag
	h := func(c *tcpx.Context) {
		var b string
		if _, e := c.Bind(&b); e != nil {
			// what an application does: report and return
			return
		}
		got.add("%s", b)
		c.JSON(2, "re:"+b)
	}
	closes := 0
	conns := 0
	srv.OnConnect = func(c *tcpx.Context) { conns++ }
	srv.OnClose = func(c *tcpx.Context) {
		if !off() {
			closes++
		}
	}
	srv.AddHandler(1, h)
	srv.Any("/u", h)
	serve(srv, "tcp", addr)
	var evil, good *vs.VConn
	vs.GoNamed("evil", func() {
		evil = dial("tcp", addr)
		evil.Tag = "evil"
		for _, p := range a.b {
			evil.Write(p)
		}
		switch a.end {
		case "close":
			evil.Close()
		case "reset":
			evil.Reset()
		case "half":
			evil.CloseWrite()
		}
	})
	vs.GoNamed("good", func() {
		good = dial("tcp", addr)
		good.Tag = "good"
		good.Write(msg(1, "g1"))
		good.Write(urlMsg("/u", "g2"))
	})
	vs.WaitIdle()
	if good == nil || evil == nil {
		t.Fail("a client could not connect")
		return
	}
	good.Write(msg(1, "g3"))
	late := dial("tcp", addr)
	if late == nil {
		t.Fail("after the hostile client the server refuses connections")
		return
	}
	late.Write(msg(1, "l1"))
	vs.WaitIdle()
	want := bag{}
	want.l = append(want.l, a.ok...)
	want.l = append(want.l, "g1", "g2", "g3", "l1")
	t.Outcome("%s|%d", got.seq(), closes)
	// after a reset the hostile client's own messages may be lost
	if a.name != "pipe with a bad second message" {
		if g, w := got.sorted(), want.sorted(); g != w {
			t.Fail("handlers ran for %s, want %s", g, w)
			return
		}
	}
	if fs, ok := replies(good); !ok || sortedJoin(strs(fs)) != "2:re:g1,2:re:g2,2:re:g3" {
		t.Fail("the ordinary client received %v (well-formed: %v)", strs(fs), ok)
		return
	}
	if good.PeerClosed() || late.PeerClosed() {
		t.Fail("an ordinary client was disconnected")
		return
	}
	if fs, ok := replies(late); !ok || sortedJoin(strs(fs)) != "2:re:l1" {
		t.Fail("the late client received %v", strs(fs))
		return
	}
	if a.hang && !evil.PeerClosed() {
		t.Fail("the server keeps a connection whose stream is malformed")
		return
	}
	if a.hang || a.end != "" {
		if closes != 1 {
			t.Fail("OnClose ran %d times for the hostile connection", closes)
			return
		}
		if !evil.Peer().IsClosed() {
			t.Fail("the hostile connection's socket is left open")
		}
	}
}

func c04deaf(t *T, cfg int) {
	srv := newSrv()
	var got bag
	srv.AddHandler(1, func(c *tcpx.Context) {
		b := bodyOf(c)
		got.add("%s", b)
		c.JSON(2, pad("re:"+b, 40))
	})
	serve(srv, "tcp", addr)
	vs.SetWindow(64)
	var good, deaf *vs.VConn
	vs.GoNamed("deaf", func() {
		deaf = dial("tcp", addr)
		deaf.Tag = "deaf"
		for i := 0; i < 3; i++ {
			deaf.Write(msg(1, fmt.Sprint("d", i)))
		}
		if cfg == 1 {
			deaf.Close()
		}
	})
	var rec []byte
	vs.GoNamed("good", func() {
		good = dial("tcp", addr)
		good.Tag = "good"
		good.Write(msg(1, "g1"))
		vs.WaitUntil("reply", func() bool { return len(good.Peek()) > 57 })
		rec = append(rec, good.Drain()...)
		good.Write(msg(1, "g2"))
		vs.WaitUntil("reply", func() bool { return len(good.Peek()) > 57 })
		rec = append(rec, good.Drain()...)
	})
	vs.WaitIdle()
	fs, ok := parse(rec)
	t.Outcome("%s", got.seq())
	want := []string{"2:" + pad("re:g1", 40), "2:" + pad("re:g2", 40)}
	if !ok || fmt.Sprint(strs(fs)) != fmt.Sprint(want) {
		t.Fail("while another client does not read, the ordinary client received %v (%s)", strs(fs), vs.DumpAll())
		return
	}
	if got.count("d0") != 1 || got.count("d1") != 1 || got.count("d2") != 1 {
		if cfg == 0 {
			t.Fail("messages of the deaf client dispatched: %s", got.sorted())
		}
	}
}

func c04deafPool(t *T, cfg int) {
	srv := newSrv()
	srv.WithBuiltInPool(true)
	var got bag
	var kept *tcpx.Context
	srv.AddHandler(1, func(c *tcpx.Context) {
		u := bodyOf(c)
		if u == "deaf" {
			kept = c
		}
		if e := c.Online(u); e != nil && !off() {
			t.Fail("Online(%s): %v", u, e)
		}
		got.add("in-%s", u)
	})
	srv.AddHandler(2, func(c *tcpx.Context) {
		got.add("send")
		if cfg == 0 {
			c.SendToUsername("deaf", 9, pad("x", 100))
		} else {
			kept.JSON(9, pad("x", 100))
		}
	})
	srv.AddHandler(3, func(c *tcpx.Context) {
		got.add("msg-%s", bodyOf(c))
		c.JSON(4, bodyOf(c))
	})
	srv.AddHandler(5, func(c *tcpx.Context) { c.Offline(); got.add("out") })
	srv.AddHandler(6, func(c *tcpx.Context) {
		if off() {
			return
		}
		p := c.GetPoolRef().GetClientPool("deaf")
		u, _ := p.Username()
		p.SetCtxPerConn("seen", 1)
		v, _ := p.GetCtxPerConn("seen")
		got.add("look-%v-%v-%v-%v", p.IsOnline(), p.IsOffline(), u, v)
	})
	serve(srv, "tcp", addr)
	vs.SetWindow(64)
	deaf := dial("tcp", addr)
	deaf.Write(msg(1, "deaf"))
	vs.WaitIdle()
	x := dial("tcp", addr)
	vs.GoNamed("sender", func() {
		x.Write(msg(1, "x"))
		vs.WaitUntil("x in", func() bool { return got.count("in-x") == 1 })
		x.Write(msg(2, ""))
	})
	y := dial("tcp", addr)
	vs.GoNamed("other", func() {
		y.Write(msg(1, "y"))
		vs.WaitUntil("y in", func() bool { return got.count("in-y") == 1 })
		y.Write(msg(3, "hi"))
		vs.WaitUntil("y msg", func() bool { return got.count("msg-hi") == 1 })
		y.Write(msg(6, ""))
		y.Write(msg(5, ""))
	})
	vs.WaitIdle()
	z := dial("tcp", addr)
	z.Write(msg(3, "late"))
	z.Write(msg(1, "z"))
	z.Write(msg(6, ""))
	vs.WaitIdle()
	t.Outcome("%s", got.seq())
	if g, w := got.sorted(), "in-deaf,in-x,in-y,in-z,look-true-false-deaf-1,look-true-false-deaf-1,msg-hi,msg-late,out,send"; g != w {
		t.Fail("while a send to a client that does not read waits, handlers completed: %s, want %s", g, w)
		return
	}
	if fs, ok := replies(y); !ok || sortedJoin(strs(fs)) != "4:hi" {
		t.Fail("the other client received %v", strs(fs))
	}
	if fs, ok := replies(z); !ok || sortedJoin(strs(fs)) != "4:late" {
		t.Fail("the late client received %v", strs(fs))
	}
}

func c04flood(t *T, cfg int) {
	srv := newSrv()
	h := func(c *tcpx.Context) { c.JSON(2, pad("re:"+bodyOf(c), 40)) }
	srv.AddHandler(1, h)
	srv.Any("/u", h)
	serve(srv, "tcp", addr)
	vs.SetWindow(64)
	clients, num := 1, 2200
	if cfg/3 == 1 {
		clients, num = 220, 10
	}
	for i := 0; i < clients; i++ {
		d := dial("tcp", addr)
		var b []byte
		for j := 0; j < num; j++ {
			switch cfg % 3 {
			case 0:
				b = append(b, msg(1, "d")...)
			case 1:
				b = append(b, urlMsg("/u", "d")...)
			case 2:
				b = append(b, hdrFrame(1, pipeHdr(`"enable;2"`), "d")...)
				b = append(b, msg(1, "e")...)
			}
		}
		vs.GoNamed("deaf", func() {
			for len(b) > 0 {
				n := min(len(b), 4000)
				d.Write(b[:n])
				b = b[n:]
			}
		})
	}
	vs.WaitIdle()
	g := dial("tcp", addr)
	if g == nil {
		t.Fail("while %d clients do not read their replies the server refuses connections", clients)
		return
	}
	var rec []byte
	vs.GoNamed("good", func() {
		for i := 0; i < 2; i++ {
			if i == 0 {
				g.Write(msg(1, "g"))
			} else {
				g.Write(urlMsg("/u", "g"))
			}
			vs.WaitUntil("reply", func() bool { return len(g.Peek()) > 57 })
			rec = append(rec, g.Drain()...)
		}
	})
	vs.WaitIdle()
	t.Outcome("%d", len(rec))
	w := "2:" + pad("re:g", 40)
	if fs, ok := parse(rec); !ok || sortedJoin(strs(fs)) != w+","+w {
		t.Fail("while %d clients do not read the replies to %d messages each, an ordinary client received %v", clients, num, strs(fs))
	}
}

func c04crowd(t *T, cfg int) {
	a := c04atks[cfg]
	srv := newSrv()
	if cfg%2 == 1 {
		srv.SetMaxBytePerMessage(1000)
	}
	var got bag
	srv.AddHandler(1, func(c *tcpx.Context) {
		var b string
		if _, e := c.Bind(&b); e == nil {
			c.JSON(2, "re:"+b)
			if b == "good" {
				got.add("good")
			}
		}
	})
	serve(srv, "tcp", addr)
	vs.WaitIdle()
	base := len(vs.LiveServerThreads())
	num := 300
	if a.end == "" && !a.hang {
		num = 160
	}
	left := 0
	for i := 0; i < num; i++ {
		e := dial("tcp", addr)
		if e == nil {
			t.Fail("after %d hostile clients the server refuses connections", i)
			return
		}
		for _, p := range a.b {
			e.Write(p)
		}
		switch a.end {
		case "close":
			e.Close()
		case "reset":
			e.Reset()
		case "half":
			e.CloseWrite()
		}
		if i%8 == 7 {
			vs.WaitIdle()
		}
		if a.end == "" && !a.hang {
			left++
		}
	}
	vs.WaitIdle()
	g := dial("tcp", addr)
	if g == nil {
		t.Fail("after %d hostile clients the server refuses connections", num)
		return
	}
	g.Write(msg(1, "good"))
	vs.WaitIdle()
	if fs, ok := replies(g); !ok || sortedJoin(strs(fs)) != "2:re:good" {
		t.Fail("after %d hostile clients an ordinary client received %v", num, strs(fs))
		return
	}
	g.Close()
	vs.WaitIdle()
	t.Outcome("%d", num)
	if n := len(vs.LiveServerThreads()); left == 0 && n != base {
		t.Fail("after %d hostile clients have gone the server keeps %d goroutines, %d before", num, n, base)
	}
}
