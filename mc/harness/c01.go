package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"reflect"

	"github.com/BurntSushi/toml"
	"github.com/fwhezfwhez/tcpx"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"gopkg.in/yaml.v2"
)

// C01: the wire format.  Native enumeration of (id, header, body, marshaller,
// packing function) against the independent encoder in lib.go.

func init() {
	register(&Prop{
		ID:          "C01",
		Assumptions: []string{"encoding/json, encoding/xml, yaml, toml and protobuf libraries are correct"},
		Scenarios: []*Scenario{
			{Name: "raw-layout", Desc: "ids x headers x raw bodies through the raw-body packers", N: n(len(c01ids), len(c01ids)), Native: c01raw},
			{Name: "body-sizes", Desc: "every raw body size up to a bound and around powers of two", N: n(8, 8), Native: c01sizes},
			{Name: "marshal", Desc: "packing functions x marshallers x values x headers x ids", N: n(len(c01vals), len(c01vals)), Native: c01marshal},
			{Name: "custom", Desc: "a marshaller of the application, values that cannot be encoded or decoded", N: one, Native: c01custom},
			{Name: "sequence", Desc: "packing is independent of what was packed before and after", N: one, Native: c01seq},
		},
	})
}

var c01ids = func() []int32 {
	l := []int32{0, 1, -1, 2, 255, 256, 257, 65535, 65536, 65537, 1<<24 - 1, 1 << 24, 1<<31 - 1, -1 << 31, -2, -256, 1392, 1393, -1392, 0x01020304, 0x7f80ff01}
	for i := uint(0); i < 31; i++ {
		l = append(l, 1<<i, -(1 << i))
	}
	return l
}()

var c01hdrs = []map[string]any{
	nil,
	{},
	{"k": "v"},
	{"": ""},
	{"k": "v", "k2": "v2"},
	{"Router-Type": "MESSAGE_ID", "Router-Pattern-Value": "1"},
	{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": "/a/b"},
	{"n": 1.5, "b": true, "z": nil},
	{"nest": map[string]any{"x": []any{"y", 1.0}}},
	{"esc": "\"\\\n\t\u2028<>&\x00", "\u00e9": "\u4e2d\u6587"},
	{"long": pad("h", 1100)},
	{"long": pad("h", 70000)},
	{"[tcpx-buffer-in-serial]": "enable;2"},
}

func c01checkFrame(t *T, what string, got []byte, id int32, hdr map[string]any, body []byte) bool {
	fs, ok := parse(got)
	if !ok || len(fs) != 1 {
		t.Fail("%s: not one well-formed frame: %x", what, clip(got))
		return false
	}
	f := fs[0]
	if f.ID != id || !bytes.Equal(f.Body, body) {
		t.Fail("%s: id %d body %x in the frame, want id %d body %x", what, f.ID, clip(f.Body), id, clip(body))
		return false
	}
	if !sameHdr(f.Hdr, hdr) {
		t.Fail("%s: header section %q does not decode to %v", what, clip(f.Hdr), hdr)
		return false
	}
	return true
}

func clip(b []byte) []byte {
	if len(b) > 64 {
		return b[:64]
	}
	return b
}

// sameHdr: the header section is JSON for the map (nil and empty are the same).
func sameHdr(sec []byte, want map[string]any) bool {
	var m map[string]any
	if json.Unmarshal(sec, &m) != nil {
		return false
	}
	if len(m) == 0 && len(want) == 0 {
		return true
	}
	var w map[string]any
	json.Unmarshal(js(want), &w)
	return reflect.DeepEqual(m, w)
}

func hdrEq(m, want map[string]any) bool {
	if len(m) == 0 && len(want) == 0 {
		return m != nil || want == nil // an empty header can be added to (Message.Set)
	}
	var w map[string]any
	json.Unmarshal(js(want), &w)
	return reflect.DeepEqual(m, w)
}

// c01access checks every accessor on a frame, also with trailing bytes.
func c01access(t *T, what string, f []byte, id int32, hdr map[string]any, body []byte) bool {
	fs, _ := parse(f)
	h := fs[0].Hdr
	for _, tail := range [][]byte{nil, {0}, frame(7, []byte("{}"), []byte("x"))} {
		b := append(append(make([]byte, 0, len(f)+len(tail)), f...), tail...)
		keep := append([]byte(nil), b...)
		px := tcpx.NewPackx(nil)
		bad := func(fn string, v any, e error) bool {
			t.Fail("%s: %s gave %.80v, %v (frame %x, %d trailing bytes)", what, fn, v, e, clip(f), len(tail))
			return false
		}
		if v, e := tcpx.LengthOf(b); e != nil || int(v) != len(f)-4 {
			return bad("LengthOf", v, e)
		}
		if v, e := px.LengthOf(b); e != nil || int(v) != len(f)-4 {
			return bad("Packx.LengthOf", v, e)
		}
		if v, e := tcpx.MessageIDOf(b); e != nil || v != id {
			return bad("MessageIDOf", v, e)
		}
		if v, e := px.MessageIDOf(b); e != nil || v != id {
			return bad("Packx.MessageIDOf", v, e)
		}
		if v, e := tcpx.HeaderLengthOf(b); e != nil || int(v) != len(h) {
			return bad("HeaderLengthOf", v, e)
		}
		if v, e := px.HeaderLengthOf(b); e != nil || int(v) != len(h) {
			return bad("Packx.HeaderLengthOf", v, e)
		}
		if v, e := tcpx.BodyLengthOf(b); e != nil || int(v) != len(body) {
			return bad("BodyLengthOf", v, e)
		}
		if v, e := px.BodyLengthOf(b); e != nil || int(v) != len(body) {
			return bad("Packx.BodyLengthOf", v, e)
		}
		if v, e := tcpx.HeaderBytesOf(b); e != nil || !bytes.Equal(v, h) {
			return bad("HeaderBytesOf", v, e)
		}
		if v, e := px.HeaderBytesOf(b); e != nil || !bytes.Equal(v, h) {
			return bad("Packx.HeaderBytesOf", v, e)
		}
		if v, e := tcpx.BodyBytesOf(b); e != nil || !bytes.Equal(v, body) {
			return bad("BodyBytesOf", clip(v), e)
		}
		if v, e := px.BodyBytesOf(b); e != nil || !bytes.Equal(v, body) {
			return bad("Packx.BodyBytesOf", clip(v), e)
		}
		if v, e := tcpx.HeaderOf(b); e != nil || !hdrEq(v, hdr) {
			return bad("HeaderOf", v, e)
		}
		if v, e := px.HeaderOf(b); e != nil || !hdrEq(v, hdr) {
			return bad("Packx.HeaderOf", v, e)
		}
		if v, e := tcpx.FirstBlockOfBytes(b); e != nil || !bytes.Equal(v, f) {
			return bad("FirstBlockOfBytes", clip(v), e)
		}
		if v, e := px.FirstBlockOfBytes(b); e != nil || !bytes.Equal(v, f) {
			return bad("Packx.FirstBlockOfBytes", clip(v), e)
		}
		if v, e := tcpx.FirstBlockOf(bytes.NewReader(b)); e != nil || !bytes.Equal(v, f) {
			return bad("FirstBlockOf", clip(v), e)
		}
		if v, e := px.FirstBlockOf(bytes.NewReader(b)); e != nil || !bytes.Equal(v, f) {
			return bad("Packx.FirstBlockOf", clip(v), e)
		}
		if i, hd, bd, e := tcpx.UnPackFromReader(bytes.NewReader(b)); e != nil || i != id || !hdrEq(hd, hdr) || !bytes.Equal(bd, body) {
			return bad("UnPackFromReader", fmt.Sprint(i, hd, clip(bd)), e)
		}
		pt := tcpx.PackType(b)
		if v, e := pt.MessageID(); e != nil || v != id {
			return bad("PackType.MessageID", v, e)
		}
		rt, _ := hdr["Router-Type"].(string)
		rv, _ := hdr["Router-Pattern-Value"].(string)
		if v, e := tcpx.RouteTypeOf(b); e != nil || v != rt {
			return bad("RouteTypeOf", v, e)
		}
		if v, e := tcpx.URLPatternOf(b); e != nil || v != rv {
			return bad("URLPatternOf", v, e)
		}
		if v, e := pt.URLPattern(); e != nil || v != rv {
			return bad("PackType.URLPattern", v, e)
		}
		if !bytes.Equal(b, keep) {
			t.Fail("%s: decoding changed its input", what)
			return false
		}
	}
	t.ops += 3 * 22
	return true
}

func c01body(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + n)
	}
	return b
}

func c01raw(t *T, cfg int) {
	id := c01ids[cfg]
	for hi, h := range c01hdrs {
		for _, sz := range []int{0, 1, 3, 4, 16, 255, 256, 996, 1012, 1024, 4096} {
			body := c01body(sz)
			t.lastCas = fmt.Sprint(id, hi, sz)
			t.Case(3)
			kb := append([]byte(nil), body...)
			kh := js(h)
			a, e := tcpx.PackWithMarshallerAndBody(tcpx.Message{MessageID: id, Header: h}, body)
			if e != nil {
				t.Fail("PackWithMarshallerAndBody: %v", e)
				return
			}
			if !c01checkFrame(t, "PackWithMarshallerAndBody "+t.lastCas, a, id, h, body) || !c01access(t, t.lastCas, a, id, h, body) {
				return
			}
			var hs []map[string]any
			if h != nil {
				hs = append(hs, h)
			}
			b, e := tcpx.NewPackx(nil).PackWithBody(id, body, hs...)
			if e != nil || !c01checkFrame(t, "PackWithBody "+t.lastCas, b, id, h, body) {
				t.Fail("PackWithBody: %v", e)
				return
			}
			if !bytes.Equal(body, kb) || !bytes.Equal(js(h), kh) {
				t.Fail("packing changed its arguments (%s)", t.lastCas)
				return
			}
			// the packet must not alias the caller's body
			if sz > 0 {
				for i := range body {
					body[i] ^= 0xff
				}
				if !c01checkFrame(t, "after the caller reused its buffer", a, id, h, kb) {
					return
				}
			}
		}
	}
	s := tcpx.PackStuff(id)
	if !c01checkFrame(t, "PackStuff", s, id, nil, nil) {
		return
	}
	for i := range s { // the packet is the caller's
		s[i] ^= 0x5a
	}
	if !c01checkFrame(t, "PackStuff again", tcpx.PackStuff(id), id, nil, nil) {
		return
	}
	for i := 0; cfg == 0 && i < 2; i++ {
		h := tcpx.PackHeartbeat()
		if !c01checkFrame(t, "PackHeartbeat", h, 1392, nil, nil) {
			return
		}
		for j := range h {
			h[j] ^= 0x5a
		}
	}
	if cfg == 0 && !c01checkFrame(t, "PackHeartbeat", tcpx.PackHeartbeat(), 1392, nil, nil) {
		return
	}
	t.sample = fmt.Sprintf("raw-layout id=%d: %x", id, s)
}

func c01sizes(t *T, cfg int) {
	max := 3000
	if t.tier == "thorough" {
		max = 20000
	}
	var l []int
	for i := cfg; i <= max; i += 8 {
		l = append(l, i)
	}
	for k := 11; k <= 20; k++ {
		for _, d := range []int{-17, -16, -13, -12, -5, -4, -2, -1, 0, 1, 2} {
			if (k+d+100)%8 == cfg {
				l = append(l, 1<<k+d)
			}
		}
	}
	for k := 21; k <= 25; k++ {
		for _, d := range []int{-13, -1, 0, 1} {
			if (k+d+100)%8 == cfg {
				l = append(l, 1<<k+d)
			}
		}
	}
	px := tcpx.NewPackx(tcpx.JsonMarshaller{})
	for _, sz := range l {
		body := c01body(sz)
		t.lastCas = fmt.Sprint("size ", sz)
		t.Case(2)
		a, e := px.PackWithBody(9, body)
		if e != nil {
			t.Fail("PackWithBody: %v", e)
			return
		}
		if !c01checkFrame(t, t.lastCas, a, 9, nil, body) || !c01access(t, t.lastCas, a, 9, nil, body) {
			return
		}
		s := pad("s", sz)
		a, e = px.Pack(9, s)
		if e != nil || !c01checkFrame(t, t.lastCas, a, 9, nil, js(s)) {
			t.Fail("Pack: %v", e)
			return
		}
		var d string
		if m, e := px.Unpack(a, &d); e != nil || d != s || m.MessageID != 9 {
			t.Fail("Unpack of a %d byte string: %v", sz, e)
			return
		}
	}
}

type c01S struct {
	A string   `json:"a" xml:"a" yaml:"a" toml:"a"`
	B int      `json:"b" xml:"b" yaml:"b" toml:"b"`
	C []string `json:"c" xml:"c" yaml:"c" toml:"c"`
	D bool     `json:"d" xml:"d" yaml:"d" toml:"d"`
}

type c01val struct {
	m    string
	v    any
	dest func() any
	get  func(any) any
}

func structDest() any { return &c01S{} }

var c01structs = []c01S{
	{},
	{A: "x", B: 1, C: []string{"p", "q"}, D: true},
	{A: "\u4e2d \"quoted\" <tag> & #;", B: -1 << 31, C: []string{"z"}},
	{A: pad("long", 2000), B: 1<<31 - 1, C: []string{"y", "z"}},
}

var c01vals = func() []c01val {
	var l []c01val
	ind := func(v any) any { return reflect.ValueOf(v).Elem().Interface() }
	for _, m := range []string{"json", "xml", "yaml", "toml"} {
		for _, s := range c01structs {
			l = append(l, c01val{m, s, structDest, ind})
		}
	}
	for _, s := range []string{"", "hello", "\x00\"\\", pad("q", 3000)} {
		l = append(l, c01val{"json", s, func() any { return new(string) }, ind})
		l = append(l, c01val{"protobuf", &wrapperspb.StringValue{Value: s}, func() any { return &wrapperspb.StringValue{} }, nil})
	}
	l = append(l, c01val{"json", 12345, func() any { return new(int) }, ind})
	l = append(l, c01val{"json", map[string]any{"k": "v", "n": 1.5}, func() any { return &map[string]any{} }, ind})
	l = append(l, c01val{"json", []string{"a", "b"}, func() any { return &[]string{} }, ind})
	l = append(l, c01val{"json", &c01structs[1], structDest, func(v any) any { return v }})
	l = append(l, c01val{"xml", &c01structs[1], structDest, func(v any) any { return v }})
	l = append(l, c01val{"yaml", &c01structs[1], structDest, func(v any) any { return v }})
	l = append(l, c01val{"toml", &c01structs[1], structDest, func(v any) any { return v }})
	for _, b := range [][]byte{{}, {0}, []byte("text"), {0xff, 0xfe, '"', 0}, []byte(`{"k":1}`)} {
		l = append(l, c01val{"json", b, func() any { return new([]byte) }, ind})
	}
	l = append(l, c01val{"json", json.RawMessage(`{"a":[1,2]}`), func() any { return new(json.RawMessage) }, ind})
	l = append(l, c01val{"json", true, func() any { return new(bool) }, ind})
	l = append(l, c01val{"json", false, func() any { return new(bool) }, ind})
	l = append(l, c01val{"json", 0, func() any { return new(int) }, ind})
	l = append(l, c01val{"json", uint64(1<<64 - 1), func() any { return new(uint64) }, ind})
	l = append(l, c01val{"json", int64(-1 << 63), func() any { return new(int64) }, ind})
	l = append(l, c01val{"json", 1e-300, func() any { return new(float64) }, ind})
	l = append(l, c01val{"json", (*c01S)(nil), func() any { return new(*c01S) }, ind})
	l = append(l, c01val{"json", map[string]any{"m": map[string]any{"l": []any{1.0, "x", nil, true}}, "": "<&>\u2028"}, func() any { return &map[string]any{} }, ind})
	l = append(l, c01val{"json", map[string]any{}, func() any { return &map[string]any{} }, ind})
	l = append(l, c01val{"yaml", "a: b\n- c", func() any { return new(string) }, ind})
	l = append(l, c01val{"yaml", []string{"a", "", "- b"}, func() any { return &[]string{} }, ind})
	l = append(l, c01val{"yaml", map[string]int{"x": 1, "y": -2}, func() any { return &map[string]int{} }, ind})
	l = append(l, c01val{"toml", map[string]any{"x": "1", "y": int64(2)}, func() any { return &map[string]any{} }, ind})
	l = append(l, c01val{"xml", "text <&>", func() any { return new(string) }, ind})
	l = append(l, c01val{"json", nil, func() any { return new(string) }, nil})
	l = append(l, c01val{"protobuf", &wrapperspb.BytesValue{Value: []byte{0, 1, 2, 255}}, func() any { return &wrapperspb.BytesValue{} }, nil})
	l = append(l, c01val{"protobuf", &wrapperspb.Int64Value{Value: -5}, func() any { return &wrapperspb.Int64Value{} }, nil})
	return l
}()

func refMarshal(m string, v any) []byte {
	if v == nil {
		return nil
	}
	var b []byte
	var e error
	switch m {
	case "json":
		b, e = json.Marshal(v)
	case "xml":
		b, e = xml.Marshal(v)
	case "yaml":
		b, e = yaml.Marshal(v)
	case "toml":
		var bf bytes.Buffer
		e = toml.NewEncoder(&bf).Encode(v)
		b = bf.Bytes()
	case "protobuf":
		b, e = proto.Marshal(v.(proto.Message))
	default:
		b = rev([]byte(v.(string)))
	}
	if e != nil {
		panic(e)
	}
	return b
}

func marshallerOf(m string) tcpx.Marshaller {
	switch m {
	case "json":
		return tcpx.JsonMarshaller{}
	case "xml":
		return tcpx.XmlMarshaller{}
	case "yaml":
		return tcpx.YamlMarshaller{}
	case "toml":
		return tcpx.TomlMarshaller{}
	case "protobuf":
		return tcpx.ProtobufMarshaller{}
	}
	return c01m{m, new([]string)}
}

func merge(hs ...map[string]any) map[string]any {
	r := map[string]any{}
	for _, h := range hs {
		for k, v := range h {
			r[k] = v
		}
	}
	return r
}

func c01marshal(t *T, cfg int) {
	v := c01vals[cfg]
	body := refMarshal(v.m, v.v)
	ms := marshallerOf(v.m)
	names := map[string][]string{"json": {"json"}, "xml": {"xml"}, "yaml": {"yaml", "yml"}, "toml": {"toml", "tml"}, "protobuf": {"protobuf", "proto"}}[v.m]
	pre := map[string]*tcpx.Packx{"json": tcpx.PackJSON, "xml": tcpx.PackXML, "yaml": tcpx.PackYAML, "toml": tcpx.PackTOML, "protobuf": tcpx.PackProtobuf}[v.m]
	for _, id := range []int32{0, 1, -1, 1 << 30, -1 << 31} {
		for hi, h := range c01hdrs {
			type pk struct {
				name string
				hdr  map[string]any
				b    []byte
				e    error
			}
			var l []pk
			add := func(name string, hdr map[string]any, b []byte, e error) { l = append(l, pk{name, hdr, b, e}) }
			M := tcpx.Message{MessageID: id, Header: h, Body: v.v}
			b, e := tcpx.PackWithMarshaller(M, ms)
			add("PackWithMarshaller", h, b, e)
			if v.m == "json" {
				b, e = tcpx.PackWithMarshaller(M, nil)
				add("PackWithMarshaller(nil)", h, b, e)
			}
			for _, nm := range names {
				b, e = tcpx.PackWithMarshallerName(M, nm)
				add("PackWithMarshallerName "+nm, h, b, e)
			}
			b, e = M.Pack(ms)
			add("Message.Pack", h, b, e)
			b, e = tcpx.Pack(id, h, v.v, ms)
			add("Pack", h, b, e)
			b, e = pre.Pack(id, v.v)
			add("Packx.Pack", nil, b, e)
			b, e = tcpx.NewPackx(ms).Pack(id, v.v, h)
			add("Packx.Pack+header", h, b, e)
			h2 := map[string]any{"k": "second", "extra": "e"}
			b, e = pre.Pack(id, v.v, h, h2)
			add("Packx.Pack+2 headers", merge(h, h2), b, e)
			nm := tcpx.NewMessage(id, v.v)
			b, e = nm.Pack(ms)
			add("NewMessage", map[string]any{"Router-Type": "MESSAGE_ID", "Router-Pattern-Value": id}, b, e)
			um := tcpx.NewURLPatternMessage("/x", v.v)
			ub, ue := um.Pack(ms)
			if ue != nil || !c01checkFrame(t, "NewURLPatternMessage", ub, 0, map[string]any{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": "/x"}, body) {
				t.Fail("NewURLPatternMessage: %v", ue)
				return
			}
			for _, p := range l {
				t.Case(2)
				t.lastCas = fmt.Sprintf("%s %s value %d id %d header %d", p.name, v.m, cfg, id, hi)
				if p.e != nil {
					t.Fail("%s: %v", t.lastCas, p.e)
					return
				}
				if !c01checkFrame(t, t.lastCas, p.b, id, p.hdr, body) {
					return
				}
				// decode in every way
				un := []func(d any) (tcpx.Message, error){
					func(d any) (tcpx.Message, error) { return tcpx.UnpackWithMarshaller(p.b, d, ms) },
					func(d any) (tcpx.Message, error) { return pre.Unpack(p.b, d) },
					func(d any) (tcpx.Message, error) { return tcpx.UnpackWithMarshallerName(p.b, d, names[len(names)-1]) },
					func(d any) (tcpx.Message, error) {
						c := tcpx.NewContext(nil, ms)
						c.Stream = p.b
						return c.Bind(d)
					},
					func(d any) (tcpx.Message, error) {
						c := tcpx.NewContext(nil, nil)
						c.Stream = p.b
						return c.BindWithMarshaller(d, ms)
					},
					func(d any) (tcpx.Message, error) {
						// a frame followed by more data
						return pre.Unpack(append(append([]byte(nil), p.b...), 1, 2, 3), d)
					},
				}
				for ui, u := range un {
					d := v.dest()
					m, e := u(d)
					if e != nil || m.MessageID != id || !hdrEq(m.Header, p.hdr) {
						t.Fail("%s: unpack %d gave id %d header %v error %v", t.lastCas, ui, m.MessageID, m.Header, e)
						return
					}
					if !c01same(v, d, body) {
						t.Fail("%s: unpack %d gave %v, want %v", t.lastCas, ui, d, v.v)
						return
					}
				}
				if len(body) > 0 && ms != nil {
					d := v.dest()
					pt := tcpx.PackType(p.b)
					var e error
					switch v.m {
					case "json":
						e = pt.BindJSON(d)
					case "xml":
						e = pt.BindXML(d)
					case "yaml":
						e = pt.BindYAML(d)
					case "toml":
						e = pt.BindTOML(d)
					case "protobuf":
						e = pt.BindProtobuf(d.(proto.Message))
					}
					if e != nil || !c01same(v, d, body) {
						t.Fail("%s: PackType bind gave %v, %v", t.lastCas, d, e)
						return
					}
				}
				c := tcpx.NewContext(nil, ms)
				c.Stream = p.b
				if r, e := c.RawStream(); e != nil || !bytes.Equal(r, body) {
					t.Fail("%s: RawStream gave %x, %v", t.lastCas, clip(r), e)
					return
				}
			}
		}
	}
	t.sample = fmt.Sprintf("marshal %s value %d (%d body bytes)", v.m, cfg, len(body))
}

func c01same(v c01val, d any, body []byte) bool {
	if v.v == nil {
		return true
	}
	if v.m == "protobuf" {
		return proto.Equal(v.v.(proto.Message), d.(proto.Message))
	}
	g := v.get(d)
	if reflect.DeepEqual(g, v.v) {
		return true
	}
	// nil versus empty slices, and types the format itself cannot distinguish
	return bytes.Equal(refMarshal(v.m, g), body)
}

// c01seq packs pairs of messages and checks that the first packet is not
// touched by later packing or unpacking.
func c01seq(t *T, _ int) {
	sizes := []int{0, 1, 100, 996, 1012, 1024, 2000, 5000}
	fns := []func(id int32, s string) ([]byte, error){
		func(id int32, s string) ([]byte, error) { return tcpx.PackJSON.Pack(id, s) },
		func(id int32, s string) ([]byte, error) { return tcpx.PackJSON.PackWithBody(id, js(s)) },
		func(id int32, s string) ([]byte, error) {
			return tcpx.PackWithMarshaller(tcpx.Message{MessageID: id, Body: s}, nil)
		},
		func(id int32, s string) ([]byte, error) {
			return tcpx.PackWithMarshallerAndBody(tcpx.Message{MessageID: id}, js(s))
		},
	}
	for fi, f := range fns {
		for gi, g := range fns {
			for _, s1 := range sizes {
				for _, s2 := range sizes {
					t.Case(4)
					t.lastCas = fmt.Sprint(fi, gi, s1, s2)
					b1 := pad("a", s1)
					b2 := pad("b", s2)
					p1, e1 := f(11, b1)
					k1 := append([]byte(nil), p1...)
					p2, e2 := g(22, b2)
					if e1 != nil || e2 != nil {
						t.Fail("pack: %v %v", e1, e2)
						return
					}
					both := append(append([]byte(nil), p1...), p2...)
					r := bytes.NewReader(both)
					q1, _ := tcpx.FirstBlockOf(r)
					kq := append([]byte(nil), q1...)
					q2, _ := tcpx.FirstBlockOf(r)
					var d1, d2 string
					tcpx.PackJSON.Unpack(q1, &d1)
					tcpx.PackJSON.Unpack(q2, &d2)
					// appending to the first packet must not reach the second
					_ = append(p1, frame(33, nil, []byte("zzzz"))...)
					if !bytes.Equal(p1, k1) || !bytes.Equal(q1, kq) || !bytes.Equal(q1, k1) || d1 != b1 || d2 != b2 || !c01checkFrame(t, "second", p2, 22, nil, js(b2)) {
						t.Fail("packing or reading one message disturbed another (%s)", t.lastCas)
						return
					}
					// a packet is its owner's: writing to it changes no later one
					for _, b := range [][]byte{p1, p2, q1, q2} {
						for i := range b {
							b[i] ^= 0x5a
						}
					}
					if p3, _ := g(22, b2); !c01checkFrame(t, "third", p3, 22, nil, js(b2)) {
						return
					}
				}
			}
		}
	}
}

// c01m is a marshaller of the application; bodies are the value reversed.
type c01m struct {
	name string
	log  *[]string
}

func rev(b []byte) []byte {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return r
}

func (m c01m) Marshal(v any) ([]byte, error) {
	s, ok := v.(string)
	if !ok || s == "bad" {
		return nil, fmt.Errorf("cannot marshal")
	}
	*m.log = append(*m.log, "m "+s)
	return rev([]byte(s)), nil
}

func (m c01m) Unmarshal(b []byte, d any) error {
	p, ok := d.(*string)
	if !ok || string(b) == "rorre" {
		return fmt.Errorf("cannot unmarshal")
	}
	*m.log = append(*m.log, "u "+string(b))
	*p = string(rev(b))
	return nil
}

func (m c01m) MarshalName() string { return m.name }

func c01custom(t *T, _ int) {
	for _, name := range []string{"", "mine", "json", "xml", "protobuf", "jsonx"} {
		for _, v := range []any{"x", "{\"a\":1}", "<a/>", "\x00\xff\xfe", pad("v", 5000), "bad", 5, []byte("x")} {
			for hi, h := range c01hdrs {
				var log []string
				m := c01m{name, &log}
				M := tcpx.Message{MessageID: 3, Header: h, Body: v}
				px := tcpx.NewPackx(m)
				for fi, f := range []func() ([]byte, error){
					func() ([]byte, error) { return tcpx.PackWithMarshaller(M, m) },
					func() ([]byte, error) { return M.Pack(m) },
					func() ([]byte, error) { return tcpx.Pack(3, h, v, m) },
					func() ([]byte, error) { return px.Pack(3, v, h) },
				} {
					t.Case(3)
					t.lastCas = fmt.Sprintf("marshaller named %q value %.20q header %d function %d", name, v, hi, fi)
					log = nil
					b, e := f()
					s, ok := v.(string)
					if !ok || s == "bad" {
						if e == nil || len(b) != 0 {
							t.Fail("%s: the marshaller's error is not reported", t.lastCas)
							return
						}
						continue
					}
					if e != nil || !c01checkFrame(t, t.lastCas, b, 3, h, rev([]byte(s))) {
						t.Fail("%s: %v", t.lastCas, e)
						return
					}
					var d string
					if r, e := px.Unpack(b, &d); e != nil || d != s || r.MessageID != 3 || r.Body != s || !hdrEq(r.Header, h) {
						t.Fail("%s: Unpack gave %.20q %v", t.lastCas, d, e)
						return
					}
					if len(log) != 2 {
						t.Fail("%s: marshaller calls %.80q", t.lastCas, log)
						return
					}
					if _, e := tcpx.UnpackWithMarshaller(b, new(int), m); e == nil {
						t.Fail("%s: the marshaller's decoding error is not reported", t.lastCas)
						return
					}
				}
			}
		}
	}
	for _, m := range []string{"json", "xml", "protobuf"} {
		t.Case(2)
		ch := make(chan int)
		if b, e := tcpx.NewPackx(marshallerOf(m)).Pack(1, ch); e == nil || len(b) != 0 {
			t.Fail("%s: packing a channel gave %x without an error", m, clip(b))
			return
		}
		if _, e := tcpx.NewPackx(marshallerOf(m)).Unpack(frame(1, []byte("{}"), []byte{0xff, '<', '{'}), structDest()); e == nil {
			t.Fail("%s: undecodable body accepted", m)
			return
		}
	}
	t.Case(2)
	if b, e := tcpx.PackJSON.Pack(1, "x", map[string]any{"c": make(chan int)}); e == nil || len(b) != 0 {
		t.Fail("packing a header that is not JSON gave %x without an error", clip(b))
	}
	if b, e := tcpx.PackJSON.PackWithBody(1, []byte("x"), map[string]any{"c": make(chan int)}); e == nil || len(b) != 0 {
		t.Fail("packing a header that is not JSON gave %x without an error", clip(b))
	}
	for _, n := range []string{"", "JSON", "jsonx", "bson", "pb"} {
		t.Case(2)
		if b, e := tcpx.PackWithMarshallerName(tcpx.Message{Body: "x"}, n); e == nil || len(b) != 0 {
			t.Fail("marshaller name %q accepted", n)
		}
		if _, e := tcpx.UnpackWithMarshallerName(frame(1, []byte("{}"), []byte("1")), new(int), n); e == nil {
			t.Fail("marshaller name %q accepted", n)
		}
	}
}

var _ = binary.BigEndian
