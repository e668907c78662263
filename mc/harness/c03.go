package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"

	"github.com/fwhezfwhez/tcpx"
	"google.golang.org/protobuf/types/known/wrapperspb"
)

// C03: no byte string makes a decoder panic, and whatever a decoder accepts is
// what the layout says.

func init() {
	register(&Prop{
		ID:          "C03",
		Assumptions: []string{"memory for a block of the announced length is available (lengths above 64 KiB are only tried where a limit rejects them or no reader allocates)"},
		Scenarios: []*Scenario{
			{Name: "fields", Desc: "length fields from a boundary set x stream lengths x section contents, every decoder", N: n(len(c03v), len(c03v)), Native: c03fields},
			{Name: "short", Desc: "all strings over a small alphabet up to a length, with and without a frame prefix", N: n(8, 8), Native: c03short},
		},
	})
}

var c03v = []uint32{0, 1, 2, 3, 4, 8, 11, 12, 13, 14, 15, 16, 17, 20, 31, 32, 64, 127, 128, 255, 256, 1000, 65535, 65536,
	math.MaxInt32 - 16, math.MaxInt32 - 12, math.MaxInt32 - 3, math.MaxInt32 - 1, math.MaxInt32, 1 << 31, 1<<31 + 1, 1<<31 + 16,
	math.MaxUint32 - 32, math.MaxUint32 - 20, math.MaxUint32 - 16, math.MaxUint32 - 15, math.MaxUint32 - 12, math.MaxUint32 - 11, math.MaxUint32 - 4, math.MaxUint32 - 3, math.MaxUint32 - 1, math.MaxUint32}

var c03tails = [][]byte{
	nil, []byte("{"), []byte("{}"), []byte("{}\"a\""), []byte("null"), []byte("[1]{}{}"), []byte(`{"Router-Type":1}`), []byte(`{"Router-Type":"URL_PATTERN"}`),
	[]byte(`{"Router-Type":"URL_PATTERN","Router-Pattern-Value":7}x`), bytes.Repeat([]byte{0xff}, 17), bytes.Repeat([]byte{0}, 33), []byte(`{"[tcpx-buffer-in-serial]":null}`),
}

func c03guard(t *T, name string, b []byte, f func()) {
	defer func() {
		if r := recover(); r != nil {
			t.Fail("%s panics on %x (%d bytes): %v", name, clip(b), len(b), r)
		}
	}()
	t.ops++
	f()
}

// c03one runs every decoder on b and checks accepted results.
func c03one(t *T, b []byte) {
	t.Case(0)
	px := tcpx.PackJSON
	g := func(name string, f func()) { c03guard(t, name, b, f) }
	u := func(i int) (uint32, bool) {
		if len(b) < i+4 {
			return 0, false
		}
		return binary.BigEndian.Uint32(b[i:]), true
	}
	num := func(name string, at int, f func([]byte) (int32, error)) {
		g(name, func() {
			v, e := f(b)
			w, ok := u(at)
			if ok != (e == nil) || (ok && uint32(v) != w) {
				t.Fail("%s of %x gave %d, %v", name, clip(b), v, e)
			}
		})
	}
	num("LengthOf", 0, tcpx.LengthOf)
	num("MessageIDOf", 4, tcpx.MessageIDOf)
	num("HeaderLengthOf", 8, tcpx.HeaderLengthOf)
	num("BodyLengthOf", 12, tcpx.BodyLengthOf)
	h, hok := u(8)
	bl, bok := u(12)
	hdrFits := hok && int64(h) <= math.MaxInt32 && int64(len(b)) >= 16+int64(h)
	bodyFits := hok && bok && int64(h) <= math.MaxInt32 && int64(bl) <= math.MaxInt32 && int64(len(b)) >= 16+int64(h)+int64(bl)
	g("HeaderBytesOf", func() {
		v, e := tcpx.HeaderBytesOf(b)
		if hdrFits != (e == nil) || (e == nil && !bytes.Equal(v, b[16:16+h])) {
			t.Fail("HeaderBytesOf(%x) = %x, %v", clip(b), clip(v), e)
		}
	})
	g("Packx.HeaderBytesOf", func() { px.HeaderBytesOf(b) })
	g("BodyBytesOf", func() {
		v, e := tcpx.BodyBytesOf(b)
		if bodyFits != (e == nil) || (e == nil && !bytes.Equal(v, b[16+h:16+h+bl])) {
			t.Fail("BodyBytesOf(%x) = %x, %v", clip(b), clip(v), e)
		}
	})
	g("Packx.BodyBytesOf", func() { px.BodyBytesOf(b) })
	hdrJSON := false
	var ref map[string]any
	if hdrFits {
		hdrJSON = json.Unmarshal(b[16:16+h], &ref) == nil
	}
	g("HeaderOf", func() {
		v, e := tcpx.HeaderOf(b)
		if hdrJSON != (e == nil) || (e == nil && !hdrEq(v, ref)) {
			t.Fail("HeaderOf(%x) = %v, %v", clip(b), v, e)
		}
	})
	g("RouteTypeOf", func() { tcpx.RouteTypeOf(b) })
	g("URLPatternOf", func() { tcpx.URLPatternOf(b) })
	l, lok := u(0)
	g("FirstBlockOfBytes", func() {
		v, e := tcpx.FirstBlockOfBytes(b)
		ok := len(b) >= 16 && lok && int64(len(b)) >= 4+int64(l)
		if ok != (e == nil) || (e == nil && !bytes.Equal(v, b[:4+int(l)])) {
			t.Fail("FirstBlockOfBytes(%x) = %x, %v", clip(b), clip(v), e)
		}
	})
	if !lok || l <= 1<<16 || l >= 1<<31 {
		g("UnpackToBlockFromReader", func() {
			v, e := tcpx.UnpackToBlockFromReader(bytes.NewReader(b))
			ok := lok && l < 1<<31 && int64(len(b)) >= 4+int64(l)
			if ok != (e == nil) || (e == nil && !bytes.Equal(v, b[:4+int(l)])) {
				t.Fail("UnpackToBlockFromReader(%x) = %x, %v", clip(b), clip(v), e)
			}
		})
		g("UnPackFromReader", func() { tcpx.UnPackFromReader(bytes.NewReader(b)) })
	}
	g("UnpackToBlockFromReaderLimitMaxLengthOfByte", func() {
		v, e := tcpx.UnpackToBlockFromReaderLimitMaxLengthOfByte(bytes.NewReader(b), 32)
		ok := lok && l <= 32 && int64(len(b)) >= 4+int64(l)
		if ok != (e == nil) || (e == nil && !bytes.Equal(v, b[:4+int(l)])) {
			t.Fail("limited read of %x = %x, %v", clip(b), clip(v), e)
		}
	})
	fits := len(b) >= 16 && int64(l)+4 <= int64(len(b)) && int64(h)+int64(bl)+12 <= int64(l)
	g("Unpack", func() {
		var d any
		m, e := px.Unpack(b, &d)
		if e == nil && !fits {
			t.Fail("Unpack(%x) accepted inconsistent lengths: %v", clip(b), m)
		}
		if fits {
			var rd any
			okh := h == 0 || hdrJSON
			okb := bl == 0 || json.Unmarshal(b[16+h:16+h+bl], &rd) == nil
			if (okh && okb) != (e == nil) {
				t.Fail("Unpack(%x) = %v, %v", clip(b), m, e)
			}
		}
	})
	for _, nm := range []string{"json", "xml", "toml", "yaml", "protobuf", "nosuch"} {
		g("UnpackWithMarshallerName "+nm, func() {
			if nm == "protobuf" {
				tcpx.UnpackWithMarshallerName(b, &wrapperspb.StringValue{}, nm)
				return
			}
			tcpx.UnpackWithMarshallerName(b, &c01S{}, nm)
		})
	}
	g("Context decoders", func() {
		c := tcpx.NewContext(nil, nil)
		c.Stream = b
		var s string
		c.Bind(&s)
		c.RawStream()
		c.RouterType()
		c.GetURLPattern()
	})
	g("PackType", func() {
		p := tcpx.PackType(b)
		var s c01S
		p.BindJSON(&s)
		p.BindTOML(&s)
		p.BindYAML(&s)
		p.BindXML(&s)
		p.BindProtobuf(&wrapperspb.StringValue{})
		p.URLPattern()
		p.MessageID()
	})
}

func c03fields(t *T, cfg int) {
	l := c03v[cfg]
	for _, h := range c03v {
		for _, bl := range c03v {
			for ti, tail := range c03tails {
				if t.tier != "thorough" && ti > 3 && (h > 40 || bl > 40) && h < 1<<31-20 && bl < 1<<31-20 {
					continue
				}
				b := make([]byte, 16, 16+len(tail))
				binary.BigEndian.PutUint32(b[0:], l)
				binary.BigEndian.PutUint32(b[4:], 1)
				binary.BigEndian.PutUint32(b[8:], h)
				binary.BigEndian.PutUint32(b[12:], bl)
				b = append(b, tail...)
				c03one(t, b)
				// more capacity than length must not be used
				big := make([]byte, len(b), len(b)+4096)
				copy(big, b)
				c03one(t, big)
				if t.Failed || t.Late() {
					return
				}
			}
		}
	}
	// every truncation of frames announcing l
	for _, h := range []uint32{0, 2, l, math.MaxUint32} {
		b := make([]byte, 16, 64)
		binary.BigEndian.PutUint32(b[0:], l)
		binary.BigEndian.PutUint32(b[8:], h)
		binary.BigEndian.PutUint32(b[12:], 2)
		b = append(b, []byte(`{}{}xxxxxxxxxxxxxxxxxxxxxxx`)...)
		for i := 0; i <= len(b); i++ {
			c03one(t, b[:i:i])
			c03one(t, b[:i])
		}
		if t.Failed {
			return
		}
	}
	t.sample = fmt.Sprintf("fields length=%#x", l)
}

func c03short(t *T, shard int) {
	al := []byte{0, 1, 4, 16, 0x7f, 0x80, 0xff, '{', '}', '"'}
	max := 4
	if t.tier == "thorough" {
		max = 5
	}
	prefixes := [][]byte{nil, {0, 0, 0, 16, 0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0, 2}, {0, 0, 0, 12, 0, 0, 0, 1}, {0, 0, 0, 14, 0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0, 0}}
	for n := 0; n <= max; n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= len(al)
		}
		for k := shard; k < total; k += 8 {
			s := make([]byte, n)
			v := k
			for i := range s {
				s[i] = al[v%len(al)]
				v /= len(al)
			}
			for _, p := range prefixes {
				c03one(t, append(append([]byte(nil), p...), s...))
			}
			if t.Failed || (k&1023 == shard && t.Late()) {
				return
			}
		}
	}
}
