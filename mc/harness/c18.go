package main

import (
	"bytes"
	"fmt"
	"io"
	"runtime"

	"github.com/fwhezfwhez/tcpx"
	"verifmc/vs"
)

// C18: the limit set by SetMaxBytePerMessage.

func init() {
	register(&Prop{
		ID:          "C18",
		Assumptions: []string{"user handlers do not panic"},
		Scenarios: []*Scenario{
			{
				Name: "server", Desc: "messages below, at and above the limit, in every position, alone and in a batch, next to another client",
				N: n(len(c18cfgs), len(c18cfgs)), Run: c18server,
				Label: func(c int) string { return fmt.Sprintf("%+v", c18cfgs[c]) },
				Specs: specs(pol(Spec{D: 1, Seg: true}, Spec{D: 1, Fine: true}), pol(Spec{D: 2, Seg: true, Shards: 4}, Spec{D: 2, Fine: true, Shards: 4})),
			},
			{
				Name: "large", Desc: "large limits: a message at, just below or just above them, then a small one",
				N: n(len(c18large)*4, len(c18large)*4), Run: c18big,
				Label: func(c int) string { return fmt.Sprint("limit ", c18large[c/4], " delta ", c%4-1) },
				Specs: specs(pol(Spec{D: 0}, Spec{D: 1, Seg: true}), pol(Spec{D: 1, Seg: true}, Spec{D: 2})),
			},
			{
				Name: "reader", Desc: "FirstBlockOfLimitMaxByte for all limits and lengths in a range", N: one, Native: c18reader,
			},
		},
	})
}

type c18cfg struct {
	limit int32
	pos   int // position of the message under test among three
	delta int // its length relative to the limit; 1<<30: 2 GiB - 1 announced
	batch bool
	unix  bool
}

var c18cfgs = func() (l []c18cfg) {
	for _, lim := range []int32{40, 300} {
		for pos := 0; pos < 3; pos++ {
			for _, d := range []int{-1, 0, 1, 2, 4, 5, 16, 100, 1 << 30} {
				for _, batch := range []bool{false, true} {
					l = append(l, c18cfg{lim, pos, d, batch, lim == 300 && pos == 1})
				}
			}
		}
	}
	// no limit
	for _, lim := range []int32{0, -1} {
		l = append(l, c18cfg{lim, 1, 5000, false, false}, c18cfg{lim, 1, 5000, true, false})
	}
	return
}()

// sized builds a message whose length field is exactly l.
func sized(id int32, hdr string, tag string, l int) ([]byte, string) {
	body := pad(tag, l-12-len(hdr)-2)
	return frame(id, []byte(hdr), js(body)), body
}

func c18server(t *T, cfg int) {
	k := c18cfgs[cfg]
	srv := newSrv()
	srv.SetMaxBytePerMessage(k.limit)
	var got bag
	srv.AddHandler(1, func(c *tcpx.Context) { got.add("%s", bodyOf(c)); c.JSON(2, bodyOf(c)) })
	closes := 0
	srv.OnClose = func(c *tcpx.Context) {
		if !off() {
			closes++
		}
	}
	network, a := "tcp", addr
	if k.unix {
		network, a = "unix", "/tmp/verif-never-created.sock"
	}
	serve(srv, network, a)
	x, y := dial(network, a), dial(network, a)
	var stream []byte
	var want []string
	over := false
	huge := k.delta == 1<<30
	for i := 0; i < 3; i++ {
		hdr := "{}"
		l := 24
		if i == k.pos {
			l = int(k.limit) + k.delta
			if k.limit <= 0 {
				l = k.delta
			}
		}
		if k.batch && i == 0 {
			// the header of the first message of a batch announces the rest;
			// keep its total length at l
			hdr = `{"` + pipeKey + `":"enable;2"}`
			if l < 12+len(hdr)+2+1 {
				l = 12 + len(hdr) + 2 + 1
				if k.limit > 0 && l > int(k.limit) {
					// does not fit the small limit: the batch itself is too long
					over = true
				}
			}
		}
		if i == k.pos && huge {
			over = true
			stream = append(stream, lenOnly(0x7fffffff)...)
			stream = append(stream, msg(1, "hidden")...)
			continue
		}
		m, body := sized(1, hdr, fmt.Sprint("m", i), l)
		stream = append(stream, m...)
		if k.limit > 0 && l > int(k.limit) {
			over = true
		}
		if !over {
			want = append(want, body)
		}
	}
	vs.GoNamed("client", func() {
		if k.batch || k.pos == 1 {
			x.Write(stream)
		} else {
			x.Write(stream[:7])
			x.Write(stream[7:])
		}
	})
	vs.GoNamed("other", func() { y.Write(msg(1, "yy")) })
	vs.WaitIdle()
	want = append(want, "yy")
	t.Outcome("%s", got.sorted())
	if got.sorted() != sortedJoin(want) {
		t.Fail("dispatched %s, want %s", got.sorted(), sortedJoin(want))
		return
	}
	if x.PeerClosed() != over || y.PeerClosed() || (closes == 1) != over || closes > 1 {
		t.Fail("the client's connection is closed: %v, want %v; the other's: %v; OnClose ran %d times", x.PeerClosed(), over, y.PeerClosed(), closes)
		return
	}
	if k.limit > 0 && x.Peer().MaxBufRead > 65536 {
		t.Fail("the server prepared to read %d bytes at once, the limit is %d", x.Peer().MaxBufRead, k.limit)
		return
	}
	y.Drain()
	m, body := sized(1, "{}", "z", 40)
	y.Write(m)
	vs.WaitIdle()
	fs, ok := replies(y)
	if !ok || len(fs) != 1 || fs[0].Str() != body {
		t.Fail("the other client is not served")
		return
	}
	if !over {
		m, body := sized(1, "{}", "w", 40)
		x.Drain()
		x.Write(m)
		vs.WaitIdle()
		fs, ok := replies(x)
		if !ok || len(fs) != 1 || fs[0].Str() != body {
			t.Fail("the client is not served after messages within the limit")
		}
	}
}

var c18large = []int{127, 128, 255, 256, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 1 << 20, 1<<24 - 1, 1 << 24}

func c18big(t *T, cfg int) {
	lim, d := c18large[cfg/4], cfg%4-1
	srv := newSrv()
	srv.SetMaxBytePerMessage(int32(lim))
	var got bag
	srv.AddHandler(1, func(c *tcpx.Context) { got.add("%d", len(c.Stream)) })
	serve(srv, "tcp", addr)
	x := dial("tcp", addr)
	m, _ := sized(1, "{}", "m", lim+d)
	x.Write(m)
	x.Write(msg(1, "after"))
	vs.WaitIdle()
	want := bag{}
	if d <= 0 {
		want.l = []string{fmt.Sprint(lim + d + 4), fmt.Sprint(len(msg(1, "after")))}
	}
	t.Outcome("%s", got.sorted())
	if got.sorted() != want.sorted() || x.PeerClosed() != (d > 0) {
		t.Fail("limit %d, a message of length %d and a small one: messages of sizes %q dispatched, want %q; connection closed: %v", lim, lim+d, got.sorted(), want.sorted(), x.PeerClosed())
	}
}

func c18reader(t *T, _ int) {
	fns := map[string]func(r io.Reader, l int32) ([]byte, error){
		"FirstBlockOfLimitMaxByte":       tcpx.FirstBlockOfLimitMaxByte,
		"Packx.FirstBlockOfLimitMaxByte": tcpx.NewPackx(tcpx.JsonMarshaller{}).FirstBlockOfLimitMaxByte,
		"UnpackToBlockFromReaderLimitMaxLengthOfByte": func(r io.Reader, l int32) ([]byte, error) {
			if l <= 0 {
				return tcpx.FirstBlockOf(r)
			}
			return tcpx.UnpackToBlockFromReaderLimitMaxLengthOfByte(r, int(l))
		},
	}
	max := 48
	if t.tier == "thorough" {
		max = 300
	}
	for name, f := range fns {
		for lim := -1; lim <= max; lim++ {
			for l := 12; l <= max+4; l++ {
				t.Case(1)
				t.lastCas = fmt.Sprintf("%s limit %d length %d", name, lim, l)
				blk := append(lenOnly(uint32(l)), bytes.Repeat([]byte{byte(l)}, l)...)
				rd := bytes.NewReader(append(append([]byte{}, blk...), "tail"...))
				got, e := f(rd, int32(lim))
				if lim > 0 && l > lim {
					if e == nil {
						t.Fail("%s: accepted", t.lastCas)
						return
					}
					continue
				}
				if e != nil || !eq(got, blk) || rd.Len() != 4 {
					t.Fail("%s: got %x error %v, %d bytes left", t.lastCas, got, e, rd.Len())
					return
				}
			}
			if lim <= 0 {
				continue
			}
			for _, l := range []uint32{1 << 16, 1 << 20, 1 << 28, 1 << 30, 0x7fffffff, 0x80000000, 0xffffffff} {
				t.Case(1)
				t.lastCas = fmt.Sprintf("%s limit %d length %d", name, lim, l)
				var m0, m1 runtime.MemStats
				if lim%16 == 1 {
					runtime.ReadMemStats(&m0)
				}
				_, e := f(bytes.NewReader(append(lenOnly(l), make([]byte, 64)...)), int32(lim))
				if e == nil {
					t.Fail("%s: accepted", t.lastCas)
					return
				}
				if lim%16 == 1 {
					runtime.ReadMemStats(&m1)
					if d := m1.TotalAlloc - m0.TotalAlloc; d > 32<<20 {
						t.Fail("%s: allocated %d bytes", t.lastCas, d)
						return
					}
				}
			}
		}
	}
	for name, f := range fns {
		for _, lim := range c18large {
			for d := -1; d <= 2; d++ {
				t.Case(1)
				l := lim + d
				t.lastCas = fmt.Sprintf("%s limit %d length %d", name, lim, l)
				blk := append(lenOnly(uint32(l)), bytes.Repeat([]byte{byte(l)}, l)...)
				rd := bytes.NewReader(append(append([]byte{}, blk...), "tail"...))
				got, e := f(rd, int32(lim))
				if (e != nil) != (d > 0) || (d <= 0 && (!eq(got, blk) || rd.Len() != 4)) {
					t.Fail("%s: got %d bytes, error %v, %d bytes left", t.lastCas, len(got), e, rd.Len())
					return
				}
			}
		}
	}
	t.sample = fmt.Sprintf("limits -1..%d x lengths 12..%d and 7 huge ones x 3 entry points", max, max+4)
}
