package vs

import (
	"crypto/tls"
	"errors"
	"io"
	"net"
	"os"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// The virtual network.  Semantics follow the loopback device: ordered reliable
// byte streams with FIN (EOF after the buffered data), local close waking
// blocked calls with net.ErrClosed, a second Close failing, connection refused
// without a listener, address in use with one, deadlines, an optional send
// window, and datagrams that are truncated to the reader's buffer.

type netState struct {
	lis    *VListener
	pks    *VPacketConn
	conns  *VConn
	nport  int
	window int
	ncon   int
}

func family(network string) string {
	switch {
	case strings.HasPrefix(network, "tcp"):
		return "tcp"
	case strings.HasPrefix(network, "udp"):
		return "udp"
	case network == "unixgram":
		return "unixgram"
	case strings.HasPrefix(network, "unix"):
		return "unix"
	}
	return network
}

func normAddr(addr string) string {
	if strings.HasPrefix(addr, ":") {
		return addr
	}
	if i := strings.LastIndex(addr, ":"); i >= 0 {
		return addr[i:]
	}
	return addr
}

// sameEnd reports whether two endpoints overlap: the same address, or the same
// port of the same or of all hosts, and not one IPv4 and the other IPv6 only.
func sameEnd(n1, a1, n2, a2 string) bool {
	f := family(n1)
	if f != family(n2) || normAddr(a1) != normAddr(a2) {
		return false
	}
	if f == "unix" || f == "unixgram" {
		return true
	}
	if len(n1) == 4 && len(n2) == 4 && n1 != n2 {
		return false
	}
	h1, h2 := host(a1), host(a2)
	return h1 == "" || h2 == "" || h1 == h2
}

func host(a string) string {
	h := a[:strings.LastIndex(a, ":")]
	if h == "0.0.0.0" || h == "[::]" {
		return ""
	}
	return h
}

func mkAddr(network, addr string) net.Addr {
	switch family(network) {
	case "tcp":
		a, err := net.ResolveTCPAddr("tcp", "127.0.0.1"+normAddr(addr))
		if err == nil {
			return a
		}
	case "udp":
		a, err := net.ResolveUDPAddr("udp", "127.0.0.1"+normAddr(addr))
		if err == nil {
			return a
		}
	}
	return &net.UnixAddr{Name: addr, Net: network}
}

type timeoutError struct{}

func (timeoutError) Error() string   { return "i/o timeout" }
func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }
func (timeoutError) Is(t error) bool { return t == os.ErrDeadlineExceeded }

func opErr(op string, err error) error { return &net.OpError{Op: op, Net: "tcp", Err: err} }

// VListener is a virtual net.Listener.
type VListener struct {
	net.Listener
	network, addr string
	pend          [512]*VConn
	npend         int
	closed        bool
	next          *VListener
	Accepts       int
}

// Listen mirrors net.Listen.
//
//go:norace
func Listen(network, addr string) (net.Listener, error) {
	if x == nil {
		return net.Listen(network, addr)
	}
	if x.killing {
		return nil, net.ErrClosed
	}
	switch family(network) {
	case "tcp", "unix":
	default:
		return nil, opErr("listen", net.UnknownNetworkError(network))
	}
	point("listen", nil)
	for l := x.net.lis; l != nil; l = l.next {
		if !l.closed && sameEnd(l.network, l.addr, network, addr) {
			return nil, opErr("listen", syscall.EADDRINUSE)
		}
	}
	l := &VListener{network: network, addr: addr, next: x.net.lis}
	x.net.lis = l
	x.touch(unsafe.Pointer(l), 41)
	return l, nil
}

//go:norace
func (l *VListener) Accept() (net.Conn, error) {
	if x == nil || x.killing {
		point("accept", func() bool { return false })
		return nil, net.ErrClosed
	}
	point("accept", func() bool { return l.closed || l.npend > 0 })
	x.touch(unsafe.Pointer(l), 42)
	if l.closed {
		return nil, opErr("accept", net.ErrClosed)
	}
	c := l.pend[0]
	for i := 1; i < l.npend; i++ {
		l.pend[i-1] = l.pend[i]
	}
	l.npend--
	l.Accepts++
	c.Accepted = true
	return c, nil
}

//go:norace
func (l *VListener) Close() error {
	if x == nil || x.killing {
		return nil
	}
	point("listener close", nil)
	if l.closed {
		return opErr("close", net.ErrClosed)
	}
	l.closed = true
	x.touch(unsafe.Pointer(l), 43)
	for i := 0; i < l.npend; i++ { // never accepted: reset
		c := l.pend[i]
		c.closed = true
		c.in.reset = true
		c.peer.in.reset = true
		c.peer.in.eof = true
	}
	l.npend = 0
	return nil
}

//go:norace
func (l *VListener) Addr() net.Addr { return mkAddr(l.network, l.addr) }

// Listening reports whether some listener of the family accepts on addr.
//
//go:norace
func Listening(network, addr string) bool {
	for l := x.net.lis; l != nil; l = l.next {
		if !l.closed && sameEnd(l.network, l.addr, network, addr) {
			return true
		}
	}
	for p := x.net.pks; p != nil; p = p.next {
		if !p.closed && p.server && sameEnd(p.network, p.addr, network, addr) {
			return true
		}
	}
	return false
}

// OpenListeners counts listeners and server packet sockets still open.
//
//go:norace
func OpenListeners() int {
	n := 0
	for l := x.net.lis; l != nil; l = l.next {
		if !l.closed {
			n++
		}
	}
	for p := x.net.pks; p != nil; p = p.next {
		if !p.closed && p.server {
			n++
		}
	}
	return n
}

type half struct {
	buf   []byte
	eof   bool
	reset bool
	total int
}

// VConn is one end of a virtual connection.
type VConn struct {
	id       int
	server   bool
	Accepted bool
	network  string
	laddr    net.Addr
	raddr    net.Addr
	in       half
	peer     *VConn
	closed   bool
	NClose   int
	wlock    bool
	rlock    bool
	rdl, wdl int64 // 0: none, else absolute ns+1
	epipe    bool
	next     *VConn
	Tag      string
	// NoYield makes Write and Close atomic without schedule points (used under
	// crypto/tls, whose internal locks are native).
	NoYield bool
	rs, ws  byte
	// EOFWithData lets the final read return data together with io.EOF.
	EOFWithData bool
	Written     int // bytes written by this end
	MaxBufRead  int
}

// SetWindow sets the send window (bytes in flight) for connections made later;
// 0 is unlimited.
//
//go:norace
func SetWindow(n int) { x.net.window = n }

// Dial mirrors net.Dial.
//
//go:norace
func Dial(network, addr string) (net.Conn, error) {
	if x == nil {
		return net.Dial(network, addr)
	}
	if x.killing {
		return nil, net.ErrClosed
	}
	if f := family(network); f == "udp" || f == "unixgram" {
		return dialUDP(network, addr)
	}
	point("dial", nil)
	for l := x.net.lis; l != nil; l = l.next {
		if !l.closed && sameEnd(l.network, l.addr, network, addr) {
			if l.npend >= len(l.pend) {
				return nil, opErr("dial", syscall.ECONNREFUSED)
			}
			x.net.nport++
			ca := &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 40000 + x.net.nport}
			var la, ra net.Addr = mkAddr(network, addr), ca
			if family(network) == "unix" {
				ra = &net.UnixAddr{Name: "", Net: network}
			}
			x.net.ncon++
			s := &VConn{id: x.net.ncon, server: true, network: network, laddr: la, raddr: ra, next: x.net.conns}
			c := &VConn{id: x.net.ncon, network: network, laddr: ra, raddr: la, next: s}
			s.peer, c.peer = c, s
			x.net.conns = c
			l.pend[l.npend] = s
			l.npend++
			x.touch(unsafe.Pointer(l), 44)
			return c, nil
		}
	}
	return nil, opErr("dial", syscall.ECONNREFUSED)
}

// DialTimeout mirrors net.DialTimeout.
func DialTimeout(network, addr string, d time.Duration) (net.Conn, error) { return Dial(network, addr) }

//go:norace
func expired(dl int64) bool { return dl != 0 && x.now >= dl-1 }

//go:norace
func (c *VConn) Read(b []byte) (int, error) {
	e := x
	if e == nil || e.killing {
		point("read", func() bool { return false })
		return 0, net.ErrClosed
	}
	if len(b) == 0 {
		return 0, nil
	}
	if len(b) > c.MaxBufRead {
		c.MaxBufRead = len(b)
	}
	point("read "+c.Tag, func() bool {
		return c.closed || len(c.in.buf) > 0 || c.in.eof || c.in.reset || expired(c.rdl)
	})
	e.touch(unsafe.Pointer(&c.in), 45)
	if c.closed {
		return 0, opErr("read", net.ErrClosed)
	}
	if expired(c.rdl) {
		return 0, opErr("read", timeoutError{})
	}
	if c.in.reset {
		return 0, opErr("read", syscall.ECONNRESET)
	}
	if len(c.in.buf) == 0 && c.in.eof {
		return 0, io.EOF
	}
	n := len(c.in.buf)
	if n > len(b) {
		n = len(b)
	}
	if e.cfg.Seg && n > 1 && c.server {
		opts := 2
		if n > 2 {
			opts = 3
		}
		switch e.choose(opts, KRead, false) {
		case 1:
			n = 1
		case 2:
			n = n - 1
		}
	}
	raceAcquire(unsafe.Pointer(&c.rs))
	raceWriteRange(b, n)
	cp(b, c.in.buf, n)
	c.in.buf = c.in.buf[n:]
	c.in.total += n
	if c.EOFWithData && len(c.in.buf) == 0 && c.in.eof {
		return n, io.EOF
	}
	return n, nil
}

//go:norace
func (c *VConn) Write(b []byte) (int, error) {
	e := x
	if e == nil || e.killing {
		return 0, net.ErrClosed
	}
	if !c.NoYield {
		point("write "+c.Tag, func() bool { return !c.wlock })
	}
	e.touch(unsafe.Pointer(&c.peer.in), 46)
	if c.closed {
		return 0, opErr("write", net.ErrClosed)
	}
	if expired(c.wdl) {
		return 0, opErr("write", timeoutError{})
	}
	if c.epipe || c.in.reset {
		return 0, opErr("write", syscall.EPIPE)
	}
	if c.peer.closed {
		c.epipe = true // the first write after the peer closed is accepted by the kernel
		return len(b), nil
	}
	data := make([]byte, len(b))
	raceReadRange(b, len(b)) // the detector sees the read of the caller's buffer
	cp(data, b, len(b))
	raceReleaseMerge(unsafe.Pointer(&c.peer.rs))
	w := e.net.window
	if w <= 0 {
		c.peer.in.buf = catNoRace(c.peer.in.buf, data)
		c.Written += len(b)
		return len(b), nil
	}
	c.wlock = true
	defer func() { c.wlock = false }()
	done := 0
	for done < len(data) {
		point("write-window "+c.Tag, func() bool {
			return c.closed || c.peer.closed || len(c.peer.in.buf) < w || expired(c.wdl)
		})
		if c.closed {
			return done, opErr("write", net.ErrClosed)
		}
		if expired(c.wdl) {
			return done, opErr("write", timeoutError{})
		}
		if c.peer.closed {
			c.epipe = true
			return done, opErr("write", syscall.EPIPE)
		}
		n := w - len(c.peer.in.buf)
		if n > len(data)-done {
			n = len(data) - done
		}
		c.peer.in.buf = catNoRace(c.peer.in.buf, data[done:done+n])
		done += n
		c.Written += n
		e.touch(unsafe.Pointer(&c.peer.in), 46)
	}
	return done, nil
}

//go:norace
func cp(dst, src []byte, n int) {
	if !RaceBuild {
		copy(dst[:n], src[:n])
		return
	}
	for i := 0; i < n; i++ {
		dst[i] = src[i]
	}
}

//go:norace
func catNoRace(a, b []byte) []byte {
	r := make([]byte, len(a)+len(b))
	if !RaceBuild {
		copy(r, a)
		copy(r[len(a):], b)
		return r
	}
	for i := range a {
		r[i] = a[i]
	}
	for i := range b {
		r[len(a)+i] = b[i]
	}
	return r
}

//go:norace
func (c *VConn) Close() error {
	e := x
	if e == nil || e.killing {
		return nil
	}
	if !c.NoYield {
		point("close "+c.Tag, nil)
	}
	c.NClose++
	if c.closed {
		return opErr("close", net.ErrClosed)
	}
	c.closed = true
	c.peer.in.eof = true
	e.touch(unsafe.Pointer(&c.in), 47)
	e.touch(unsafe.Pointer(&c.peer.in), 47)
	return nil
}

// CloseWrite half-closes (client FIN).
//
//go:norace
func (c *VConn) CloseWrite() error {
	point("closewrite", nil)
	c.peer.in.eof = true
	return nil
}

// Reset aborts the connection (RST).
//
//go:norace
func (c *VConn) Reset() {
	point("reset", nil)
	c.closed = true
	c.peer.in.reset = true
	c.peer.in.eof = true
}

//go:norace
func (c *VConn) LocalAddr() net.Addr { return c.laddr }

//go:norace
func (c *VConn) RemoteAddr() net.Addr { return c.raddr }

//go:norace
func abs(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := int64(t.Sub(epochTime))
	if d < 0 {
		d = 0
	}
	if x != nil && d > x.now {
		x.addTimer(d-x.now, nil)
	}
	return d + 1
}

//go:norace
func (c *VConn) SetDeadline(t time.Time) error {
	if x == nil || x.killing {
		return nil
	}
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	c.rdl = abs(t)
	c.wdl = c.rdl
	return nil
}

//go:norace
func (c *VConn) SetReadDeadline(t time.Time) error {
	if x == nil || x.killing {
		return nil
	}
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	c.rdl = abs(t)
	return nil
}

//go:norace
func (c *VConn) SetWriteDeadline(t time.Time) error {
	if x == nil || x.killing {
		return nil
	}
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	c.wdl = abs(t)
	return nil
}

// Peek is the data delivered to this end and not yet read.
//
//go:norace
func (c *VConn) Peek() []byte { return append([]byte(nil), c.in.buf...) }

// Drain returns and removes everything delivered so far, without blocking.
//
//go:norace
func (c *VConn) Drain() []byte {
	b := append([]byte(nil), c.in.buf...)
	c.in.buf = nil
	c.in.total += len(b)
	return b
}

// PeerClosed reports whether the other end closed (its FIN reached us).
//
//go:norace
func (c *VConn) PeerClosed() bool { return c.in.eof || c.in.reset }

// IsClosed reports whether this end was closed locally.
//
//go:norace
func (c *VConn) IsClosed() bool { return c.closed }

// Num is the connection's number, in the order of dialling, from 1.
//
//go:norace
func (c *VConn) Num() int { return c.id }

// Peer is the other end.
//
//go:norace
func (c *VConn) Peer() *VConn { return c.peer }

// Consumed is the number of bytes read by this end.
//
//go:norace
func (c *VConn) Consumed() int { return c.in.total }

// TLSListen mirrors tls.Listen on the virtual network.
func TLSListen(network, laddr string, config *tls.Config) (net.Listener, error) {
	if x == nil {
		return tls.Listen(network, laddr, config)
	}
	if config == nil || len(config.Certificates) == 0 &&
		config.GetCertificate == nil && config.GetConfigForClient == nil {
		return nil, errors.New("tls: neither Certificates, GetCertificate, nor GetConfigForClient set in Config")
	}
	l, err := Listen(network, laddr)
	if err != nil {
		return nil, err
	}
	return tls.NewListener(l, config), nil
}

// ---- datagrams ----

type dgram struct {
	b    []byte
	from net.Addr
	src  *VPacketConn
}

// VPacketConn is a virtual net.PacketConn (also the client end of a dialled
// datagram socket, where it acts as net.Conn).
type VPacketConn struct {
	network, addr string
	server        bool
	q             [256]dgram
	nq            int
	closed        bool
	rdl, wdl      int64
	peer          *VPacketConn // for dialled sockets
	next          *VPacketConn
	rs            byte
	Tag           string
}

// ListenPacket mirrors net.ListenPacket.
//
//go:norace
func ListenPacket(network, addr string) (net.PacketConn, error) {
	if x == nil {
		return net.ListenPacket(network, addr)
	}
	if x.killing {
		return nil, net.ErrClosed
	}
	switch family(network) {
	case "udp", "unixgram":
	default:
		return nil, opErr("listen", net.UnknownNetworkError(network))
	}
	point("listenpacket", nil)
	for p := x.net.pks; p != nil; p = p.next {
		if !p.closed && p.server && sameEnd(p.network, p.addr, network, addr) {
			return nil, opErr("listen", syscall.EADDRINUSE)
		}
	}
	p := &VPacketConn{network: network, addr: addr, server: true, next: x.net.pks}
	x.net.pks = p
	x.touch(unsafe.Pointer(p), 51)
	return p, nil
}

//go:norace
func dialUDP(network, addr string) (net.Conn, error) {
	point("dial", nil)
	x.net.nport++
	for p := x.net.pks; p != nil; p = p.next {
		if !p.closed && p.server && sameEnd(p.network, p.addr, network, addr) {
			a := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 40000 + x.net.nport}
			c := &VPacketConn{network: network, addr: a.String(), peer: p, next: x.net.pks}
			x.net.pks = c
			return &VDialed{c}, nil
		}
	}
	return nil, opErr("dial", syscall.ECONNREFUSED)
}

// VDialed is a dialled datagram socket.
type VDialed struct{ *VPacketConn }

//go:norace
func (d *VDialed) Read(b []byte) (int, error) { n, _, e := d.ReadFrom(b); return n, e }

//go:norace
func (d *VDialed) Write(b []byte) (int, error) {
	if x == nil || x.killing {
		return 0, net.ErrClosed
	}
	// follow the address, not the socket: a restarted server receives
	point("udp send", nil)
	if d.closed {
		return 0, opErr("write", net.ErrClosed)
	}
	for p := x.net.pks; p != nil; p = p.next {
		if !p.closed && p.server && sameEnd(p.network, p.addr, d.peer.network, d.peer.addr) {
			p.push(b, d.VPacketConn)
			break
		}
	}
	return len(b), nil
}

//go:norace
func (d *VDialed) RemoteAddr() net.Addr { return mkAddr(d.peer.network, d.peer.addr) }

//go:norace
func (p *VPacketConn) push(b []byte, src *VPacketConn) {
	data := make([]byte, len(b))
	raceReadRange(b, len(b)) // the detector sees the read of the caller's buffer
	cp(data, b, len(b))
	raceReleaseMerge(unsafe.Pointer(&p.rs))
	if p.nq < len(p.q) {
		p.q[p.nq] = dgram{data, src.LocalAddr(), src}
		p.nq++
	}
	x.touch(unsafe.Pointer(p), 52)
}

//go:norace
func (p *VPacketConn) LocalAddr() net.Addr {
	if p.server {
		return mkAddr(p.network, p.addr)
	}
	a, err := net.ResolveUDPAddr("udp", p.addr)
	if err != nil {
		return &net.UnixAddr{Name: p.addr, Net: p.network}
	}
	return a
}

//go:norace
func (p *VPacketConn) ReadFrom(b []byte) (int, net.Addr, error) {
	if x == nil || x.killing {
		point("readfrom", func() bool { return false })
		return 0, nil, net.ErrClosed
	}
	point("readfrom "+p.Tag, func() bool { return p.closed || p.nq > 0 || expired(p.rdl) })
	x.touch(unsafe.Pointer(p), 53)
	if p.closed {
		return 0, nil, opErr("read", net.ErrClosed)
	}
	if expired(p.rdl) {
		return 0, nil, opErr("read", timeoutError{})
	}
	d := p.q[0]
	for i := 1; i < p.nq; i++ {
		p.q[i-1] = p.q[i]
	}
	p.nq--
	n := len(d.b)
	if n > len(b) {
		n = len(b)
	}
	raceAcquire(unsafe.Pointer(&p.rs))
	raceWriteRange(b, n)
	cp(b, d.b, n)
	return n, d.from, nil
}

//go:norace
func (p *VPacketConn) WriteTo(b []byte, to net.Addr) (int, error) {
	if x == nil || x.killing {
		return 0, net.ErrClosed
	}
	point("writeto "+p.Tag, nil)
	if p.closed {
		return 0, opErr("write", net.ErrClosed)
	}
	if expired(p.wdl) {
		return 0, opErr("write", timeoutError{})
	}
	if to == nil {
		return 0, opErr("write", errors.New("missing address"))
	}
	for q := x.net.pks; q != nil; q = q.next {
		if !q.closed && q.LocalAddr().String() == to.String() {
			q.push(b, p)
			break
		}
	}
	return len(b), nil
}

//go:norace
func (p *VPacketConn) Close() error {
	if x == nil || x.killing {
		return nil
	}
	point("pconn close", nil)
	if p.closed {
		return opErr("close", net.ErrClosed)
	}
	p.closed = true
	x.touch(unsafe.Pointer(p), 54)
	return nil
}

//go:norace
func (p *VPacketConn) SetDeadline(t time.Time) error { p.rdl = abs(t); p.wdl = p.rdl; return nil }

//go:norace
func (p *VPacketConn) SetReadDeadline(t time.Time) error { p.rdl = abs(t); return nil }

//go:norace
func (p *VPacketConn) SetWriteDeadline(t time.Time) error { p.wdl = abs(t); return nil }

// IsClosed reports whether the socket was closed.
//
//go:norace
func (p *VPacketConn) IsClosed() bool { return p.closed }

// TakeDatagrams removes and returns the datagrams queued at this socket.
//
//go:norace
func (p *VPacketConn) TakeDatagrams() [][]byte {
	var r [][]byte
	for i := 0; i < p.nq; i++ {
		r = append(r, p.q[i].b)
	}
	p.nq = 0
	return r
}

// ServerPacketClosed reports whether every server packet socket ever opened is
// closed.
//
//go:norace
func ServerConns() (open int) {
	for c := x.net.conns; c != nil; c = c.next {
		if c.server && !c.closed {
			open++
		}
	}
	return
}
