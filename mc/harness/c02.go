package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"time"

	"github.com/fwhezfwhez/tcpx"
)

// C02: reading blocks off a stream, whatever the segmentation, and writing a
// buffer whatever the partial writes.

func init() {
	register(&Prop{
		ID:          "C02",
		Assumptions: []string{"readers obey the io.Reader contract (no zero-length reads without error for ever)"},
		Scenarios: []*Scenario{
			{Name: "all-splits", Desc: "all 2^(n-1) segmentations of short streams, with every end-of-stream convention, for every reader", N: n(len(c02streams)*8, len(c02streams)*8), Native: c02all},
			{Name: "cuts", Desc: "realistic streams, every choice of up to k cut points, every truncation", N: n(8, 8), Native: c02cuts},
			{Name: "big", Desc: "large messages in chunks of every small and boundary size", N: n(8, 8), Native: c02big},
			{Name: "sizes", Desc: "blocks whose content, or which themselves, have a length within one of m*2^k, m up to 5, up to 8 MiB, read as asked for and in chunks", N: n(19, 20), Native: c02sizes},
			{Name: "partial-writes", Desc: "WriteConn over connections that accept the buffer in every pattern of partial writes", N: one, Native: c02write},
		},
	})
}

// chunkReader returns the stream in the given pieces.
type chunkReader struct {
	pieces  [][]byte
	i       int
	eofData bool // last piece comes with the error
	zero    bool // a (0, nil) read before each piece
	z       bool
	err     error
	read    int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if r.i >= len(r.pieces) {
		return 0, r.err
	}
	if r.zero && !r.z {
		r.z = true
		return 0, nil
	}
	r.z = false
	n := copy(p, r.pieces[r.i])
	r.read += n
	if n < len(r.pieces[r.i]) {
		r.pieces[r.i] = r.pieces[r.i][n:]
		return n, nil
	}
	r.i++
	if r.eofData && r.i == len(r.pieces) {
		return n, r.err
	}
	return n, nil
}

type c02net struct{ *chunkReader }

func (c02net) Write(b []byte) (int, error)        { return len(b), nil }
func (c02net) Close() error                       { return nil }
func (c02net) LocalAddr() net.Addr                { return nil }
func (c02net) RemoteAddr() net.Addr               { return nil }
func (c02net) SetDeadline(t time.Time) error      { return nil }
func (c02net) SetReadDeadline(t time.Time) error  { return nil }
func (c02net) SetWriteDeadline(t time.Time) error { return nil }

func blk(body string) []byte {
	n := len(body)
	return append([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, body...)
}

var c02streams = [][][]byte{
	{blk("")},
	{blk("a")},
	{blk(""), blk("")},
	{blk("ab"), blk("c")},
	{blk("abcdef")},
	{blk(""), blk("xyz"), blk("")},
	{blk("a"), blk("b"), blk("c")},
	{blk("abcdefghijkl")},
}

var errBoom = errors.New("boom")

type c02reader struct {
	name string
	f    func(r io.Reader) ([]byte, error)
}

var c02readers = []c02reader{
	{"FirstBlockOf", tcpx.FirstBlockOf},
	{"Packx.FirstBlockOf", func(r io.Reader) ([]byte, error) { return tcpx.PackJSON.FirstBlockOf(r) }},
	{"FirstBlockOfLimitMaxByte(big)", func(r io.Reader) ([]byte, error) { return tcpx.FirstBlockOfLimitMaxByte(r, 1<<24) }},
	{"FirstBlockOfLimitMaxByte(0)", func(r io.Reader) ([]byte, error) { return tcpx.FirstBlockOfLimitMaxByte(r, 0) }},
	{"Packx.FirstBlockOfLimitMaxByte", func(r io.Reader) ([]byte, error) { return tcpx.PackJSON.FirstBlockOfLimitMaxByte(r, 1<<24) }},
	{"UnpackToBlockFromReader", tcpx.UnpackToBlockFromReader},
	{"Recv", func(r io.Reader) ([]byte, error) {
		b, e := tcpx.Recv(c02net{r.(*chunkReader)})
		return []byte(b), e
	}},
}

// c02run reads blocks until the error and compares with the complete blocks of
// the (possibly truncated) stream.
func c02run(t *T, rd c02reader, blocks [][]byte, total int, pieces [][]byte, eofData, zero bool, err error, what string) bool {
	cp := make([][]byte, len(pieces))
	copy(cp, pieces)
	r := &chunkReader{pieces: cp, eofData: eofData && len(cp) > 0, zero: zero, err: err}
	t.Case(len(pieces) + 1)
	off := 0
	var kept, orig [][]byte
	for i := 0; ; i++ {
		b, e := rd.f(r)
		if i < len(blocks) && off+len(blocks[i]) <= total {
			if e != nil || !bytes.Equal(b, blocks[i]) {
				t.Fail("%s, %s (eof with data %v, zero reads %v): block %d read as %x, %v; want %x", rd.name, what, eofData, zero, i, clip(b), e, clip(blocks[i]))
				return false
			}
			off += len(b)
			if r.read != off {
				t.Fail("%s, %s: consumed %d bytes for blocks that end at %d", rd.name, what, r.read, off)
				return false
			}
			kept = append(kept, b)
			orig = append(orig, blocks[i])
			continue
		}
		if e == nil {
			t.Fail("%s, %s: a block %x out of an incomplete stream", rd.name, what, clip(b))
			return false
		}
		if err == io.EOF && e != io.EOF && off == total {
			t.Fail("%s, %s: end of stream reported as %v", rd.name, what, e)
			return false
		}
		break
	}
	for i := range kept {
		if !bytes.Equal(kept[i], orig[i]) {
			t.Fail("%s, %s: block %d changed by later reads", rd.name, what, i)
			return false
		}
	}
	return true
}

func cat(bs [][]byte) []byte { return bytes.Join(bs, nil) }

func c02all(t *T, cfg int) {
	st := c02streams[cfg/8]
	shard := cfg % 8
	full := cat(st)
	for tr := len(full); tr >= 0; tr-- {
		s := full[:tr]
		nb := 0
		if tr > 0 {
			nb = 1 << (tr - 1)
		} else {
			nb = 1
		}
		for mask := shard; mask < nb; mask += 8 {
			var pieces [][]byte
			last := 0
			for i := 1; i < tr; i++ {
				if mask&(1<<(i-1)) != 0 {
					pieces = append(pieces, s[last:i])
					last = i
				}
			}
			if tr > 0 {
				pieces = append(pieces, s[last:])
			}
			for _, rd := range c02readers {
				for v := 0; v < 5; v++ {
					err := io.EOF
					if v == 4 {
						err = errBoom
					}
					if !c02run(t, rd, st, tr, pieces, v&1 == 1 || v == 4, v == 2 || v == 3, err, fmt.Sprintf("stream %d truncated to %d, segmentation %b", cfg/8, tr, mask)) {
						return
					}
				}
			}
		}
	}
}

func c02cuts(t *T, shard int) {
	streams := [][][]byte{
		{msg(1, "hello"), msg(2, "x")},
		{frame(1, []byte("{}"), nil), urlMsg("/u", "b"), msg(3, "")},
	}
	k := 2
	if t.tier == "thorough" {
		k = 3
	}
	for si, st := range streams {
		full := cat(st)
		for tr := shard; tr <= len(full); tr += 8 {
			s := full[:tr]
			kk := k
			if tr != len(full) && k == 3 {
				kk = 2
			}
			var rec func(from int, cuts []int) bool
			rec = func(from int, cuts []int) bool {
				var pieces [][]byte
				last := 0
				for _, c := range cuts {
					pieces = append(pieces, s[last:c])
					last = c
				}
				if tr > last {
					pieces = append(pieces, s[last:])
				}
				for ri, rd := range c02readers {
					if len(cuts) > 1 && ri != 0 && ri != 4 {
						continue
					}
					for _, ed := range []bool{false, true} {
						if !c02run(t, rd, st, tr, pieces, ed, false, io.EOF, fmt.Sprintf("stream %d truncated to %d cut at %v", si, tr, cuts)) {
							return false
						}
					}
				}
				if len(cuts) < kk {
					for c := from; c < tr; c++ {
						if !rec(c+1, append(append([]int(nil), cuts...), c)) {
							return false
						}
					}
				}
				return true
			}
			if !rec(1, nil) {
				return
			}
		}
		// the full stream belongs to one shard only by residue; make sure it is visited
		if shard == 0 && len(full)%8 != 0 {
			if !c02run(t, c02readers[0], st, len(full), [][]byte{full}, false, false, io.EOF, "whole") {
				return
			}
		}
	}
}

func c02big(t *T, shard int) {
	for _, sz := range []int{1000, 4096, 65535, 65536, 100000} {
		st := [][]byte{frame(5, []byte("{}"), c01body(sz)), msg(6, "tail")}
		full := cat(st)
		var chunks []int
		for c := 1; c <= 40; c++ {
			chunks = append(chunks, c)
		}
		for _, p := range []int{64, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536} {
			chunks = append(chunks, p-1, p, p+1)
		}
		for ci, c := range chunks {
			if ci%8 != shard || (sz > 60000 && c < 16) {
				continue
			}
			var pieces [][]byte
			for i := 0; i < len(full); i += c {
				e := i + c
				if e > len(full) {
					e = len(full)
				}
				pieces = append(pieces, full[i:e])
			}
			for _, rd := range c02readers {
				for _, ed := range []bool{false, true} {
					if !c02run(t, rd, st, len(full), pieces, ed, false, io.EOF, fmt.Sprintf("body of %d in chunks of %d", sz, c)) {
						return
					}
				}
			}
		}
	}
}

func c02sizes(t *T, cfg int) {
	unit := 1 << (4 + cfg)
	for m := 1; m <= 5; m++ {
		for d := -5; d <= 1; d++ {
			sz := m*unit + d
			if sz > 8<<20+1 || (m == 2 || m == 4) && unit*m <= 4<<20 && cfg < 18 {
				continue // covered with the next unit
			}
			st := [][]byte{blk(string(c01body(sz))), msg(6, "tail")}
			full := cat(st)
			for _, c := range []int{len(full), unit, 65536} {
				if len(full)/c > 4000 {
					continue
				}
				var pieces [][]byte
				for i := 0; i < len(full); i += c {
					pieces = append(pieces, full[i:min(i+c, len(full))])
				}
				for _, rd := range c02readers {
					if !c02run(t, rd, st, len(full), append([][]byte{}, pieces...), false, false, io.EOF, fmt.Sprintf("content of %d bytes in chunks of %d", sz, c)) {
						return
					}
				}
			}
		}
	}
}

// c02wconn accepts at most acc[i] bytes at the i-th write, then everything.
type c02wconn struct {
	c02net
	acc  []int
	i    int
	got  []byte
	fail int // fail at this write (-1 never)
}

func (c *c02wconn) Write(b []byte) (int, error) {
	if c.fail >= 0 && c.i == c.fail {
		return 0, errBoom
	}
	n := len(b)
	if c.i < len(c.acc) && c.acc[c.i] < n {
		n = c.acc[c.i]
	}
	c.i++
	if c.i > 200 {
		return 0, errBoom
	}
	c.got = append(c.got, b[:n]...)
	return n, nil
}

func c02write(t *T, _ int) {
	for n := 0; n <= 12; n++ {
		buf := c01body(n)
		// every composition of every partial-write pattern
		for mask := 0; mask < 1<<uint(max0(n-1)); mask++ {
			var acc []int
			last := 0
			for i := 1; i < n; i++ {
				if mask&(1<<(i-1)) != 0 {
					acc = append(acc, i-last)
					last = i
				}
			}
			for _, zero := range []bool{false, true} {
				a := acc
				if zero {
					a = append([]int{0}, acc...)
				}
				c := &c02wconn{acc: a, fail: -1}
				t.Case(len(a) + 1)
				e := tcpx.WriteConn(buf, c)
				if e != nil || !bytes.Equal(c.got, buf) {
					t.Fail("WriteConn(%x) with partial writes %v put %x on the wire, %v", buf, a, c.got, e)
					return
				}
			}
			for f := 0; f <= len(acc) && n > 0; f++ {
				c := &c02wconn{acc: acc, fail: f}
				e := tcpx.WriteConn(buf, c)
				t.Case(f + 1)
				if e == nil || !bytes.HasPrefix(buf, c.got) {
					t.Fail("WriteConn(%x) failing at write %d of %v put %x on the wire, %v", buf, f, acc, c.got, e)
					return
				}
			}
		}
	}
}

func max0(a int) int {
	if a < 0 {
		return 0
	}
	return a
}
