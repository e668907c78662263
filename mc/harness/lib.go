package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"net"
	"sort"
	"strings"

	"github.com/fwhezfwhez/tcpx"
	"verifmc/vs"
)

// ---- an independent implementation of the wire format ----

// frame builds [length][id][headerLen][bodyLen][header][body].
func frame(id int32, hdr, body []byte) []byte {
	b := make([]byte, 16, 16+len(hdr)+len(body))
	binary.BigEndian.PutUint32(b[0:], uint32(12+len(hdr)+len(body)))
	binary.BigEndian.PutUint32(b[4:], uint32(id))
	binary.BigEndian.PutUint32(b[8:], uint32(len(hdr)))
	binary.BigEndian.PutUint32(b[12:], uint32(len(body)))
	b = append(b, hdr...)
	return append(b, body...)
}

// msg is a frame with header {} and a JSON string body.
func msg(id int32, body string) []byte { return frame(id, []byte("{}"), js(body)) }

func js(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

func urlMsg(url, body string) []byte {
	return frame(0, js(map[string]any{"Router-Type": "URL_PATTERN", "Router-Pattern-Value": url}), js(body))
}

// Fr is a parsed frame.
type Fr struct {
	ID   int32
	Hdr  []byte
	Body []byte
}

func (f Fr) String() string { return fmt.Sprintf("%d:%s:%s", f.ID, f.Hdr, f.Body) }

// Str decodes a JSON string body.
func (f Fr) Str() string {
	var s string
	if json.Unmarshal(f.Body, &s) != nil {
		return "!" + string(f.Body)
	}
	return s
}

// parse cuts a byte stream into frames; ok is false if it is not a whole
// number of well-formed frames.
func parse(b []byte) (fs []Fr, ok bool) {
	for len(b) > 0 {
		if len(b) < 16 {
			return fs, false
		}
		l := int64(binary.BigEndian.Uint32(b))
		h := int64(binary.BigEndian.Uint32(b[8:]))
		d := int64(binary.BigEndian.Uint32(b[12:]))
		if l != 12+h+d || int64(len(b)) < 4+l {
			return fs, false
		}
		fs = append(fs, Fr{int32(binary.BigEndian.Uint32(b[4:])), b[16 : 16+h], b[16+h : 16+h+d]})
		b = b[4+l:]
	}
	return fs, true
}

// ---- driver helpers ----

const addr = ":7171"

// serve starts srv.ListenAndServe in a harness thread and waits until the
// endpoint is up.  *done becomes true when it returns.
func serve(srv *tcpx.TcpX, network, a string) *bool {
	done := new(bool)
	vs.GoNamed("serve-"+network, func() {
		srv.ListenAndServe(network, a)
		*done = true
	})
	vs.WaitUntil("listening", func() bool { return vs.Listening(network, a) })
	return done
}

func serveRaw(srv *tcpx.TcpX, network, a string) *bool {
	done := new(bool)
	vs.GoNamed("serve-raw", func() {
		srv.ListenAndServeRaw(network, a)
		*done = true
	})
	vs.WaitUntil("listening", func() bool { return vs.Listening(network, a) })
	return done
}

// dial opens a virtual connection; nil when refused.
func dial(network, a string) *vs.VConn {
	c, err := vs.Dial(network, a)
	if err != nil {
		return nil
	}
	return c.(*vs.VConn)
}

func dialUDP(a string) *vs.VDialed {
	c, err := vs.Dial("udp", a)
	if err != nil {
		return nil
	}
	return c.(*vs.VDialed)
}

// off reports that a callback runs during tear-down and must not record.
func off() bool { return vs.Killing() }

// bag is an order-insensitive record of strings.
type bag struct{ l []string }

func (b *bag) add(f string, a ...any) {
	if !off() {
		b.l = append(b.l, fmt.Sprintf(f, a...))
	}
}
func (b *bag) sorted() string {
	s := append([]string(nil), b.l...)
	sort.Strings(s)
	return strings.Join(s, ",")
}
func (b *bag) seq() string { return strings.Join(b.l, ",") }
func (b *bag) count(s string) int {
	n := 0
	for _, v := range b.l {
		if v == s {
			n++
		}
	}
	return n
}

func sortedJoin(l []string) string { b := bag{l}; return b.sorted() }

// pad returns a body of n bytes derived from tag.
func pad(tag string, n int) string {
	var sb strings.Builder
	for sb.Len() < n {
		sb.WriteString(tag)
		sb.WriteByte('.')
	}
	return sb.String()[:n]
}

// bodyOf decodes the JSON string in a context's stream without using tcpx.
func bodyOf(c *tcpx.Context) string {
	fs, ok := parse(c.Stream)
	if !ok || len(fs) != 1 {
		return fmt.Sprintf("!malformed stream %x", c.Stream)
	}
	return fs[0].Str()
}

func strs(fs []Fr) []string {
	var l []string
	for _, f := range fs {
		l = append(l, fmt.Sprintf("%d:%s", f.ID, f.Str()))
	}
	return l
}

// replies parses everything the client end has received.
func replies(c *vs.VConn) ([]Fr, bool) { return parse(c.Peek()) }

func eq(a, b []byte) bool { return bytes.Equal(a, b) }

func newSrv() *tcpx.TcpX { return tcpx.NewTcpX(nil) }

func one(string) int { return 1 }

func n(q, th int) func(string) int {
	return func(t string) int {
		if t == "thorough" {
			return th
		}
		return q
	}
}

// specs for the two tiers.
func specs(q, th []Spec) func(string) []Spec {
	return func(t string) []Spec {
		if t == "thorough" {
			return th
		}
		return q
	}
}

// both default orders
func pol(s ...Spec) []Spec {
	var r []Spec
	for _, x := range s {
		for p := 0; p < 2; p++ {
			x.Policy = p
			r = append(r, x)
		}
	}
	return r
}

var _ net.Conn

// connNum is the number of a context's connection, in the order of dialling,
// from 1.
func connNum(c *tcpx.Context) int {
	var k any = c.Conn
	if w, ok := k.(interface{ NetConn() net.Conn }); ok {
		k = w.NetConn()
	}
	if v, ok := k.(interface{ Num() int }); ok {
		return v.Num()
	}
	if a, ok := c.Conn.RemoteAddr().(*net.TCPAddr); ok {
		return a.Port - 40000
	}
	return 0
}
