package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/fwhezfwhez/tcpx"
	"verifmc/vs"
)

// C23: TLS.

func init() {
	register(&Prop{
		ID:          "C23",
		Assumptions: []string{"crypto/tls is correct; its internal steps are atomic in the exploration (schedule points at socket reads and in tcpx itself)"},
		Scenarios: []*Scenario{
			{
				Name: "serve", Desc: "a TLS client and a plaintext client at a server with a TLS configuration: the one is served over an encrypted stream, the other never",
				N: n(len(c23nets)*len(c23ways), len(c23nets)*len(c23ways)), Run: c23serve,
				Label: func(c int) string { return fmt.Sprint(c23nets[c/len(c23ways)], " ", c23ways[c%len(c23ways)]) },
				Specs: specs(pol(Spec{D: 1, Fine: true}, Spec{D: 2, Shards: 2}), pol(Spec{D: 2, Fine: true, Shards: 8}, Spec{D: 3, Shards: 8})),
			},
			{
				Name: "lifecycle", Desc: "Stop(true), Restart and disconnects with TLS connections",
				N: n(4, 4), Run: c23life,
				Specs: specs(pol(Spec{D: 1, Fine: true}, Spec{D: 2, Shards: 2}), pol(Spec{D: 2, Fine: true, Shards: 8}, Spec{D: 3, Shards: 8})),
			},
			{
				Name: "policy", Desc: "configurations that demand a client certificate or TLS 1.3: clients that comply are served, others never, also after a Restart",
				N: n(len(c23nets)*2*len(c23pols), len(c23nets)*2*len(c23pols)), Run: c23policy,
				Label: func(c int) string {
					k := len(c23pols)
					return fmt.Sprint(c23nets[c/k/2], " ", c23pols[c%k], ", restarted: ", c/k%2 == 1)
				},
				Specs: specs(pol(Spec{D: 1}), pol(Spec{D: 1, Fine: true}, Spec{D: 2, Shards: 4})),
			},
			{
				Name: "reload", Desc: "the certificate is replaced before serving or across Stop and Start or Restart, by LoadTLSFile or a new TLSConfig: new clients get the new one, old connections go on",
				N: n(len(c23nets)*2*len(c23whens), len(c23nets)*2*len(c23whens)), Run: c23reload,
				Label: func(c int) string {
					k := len(c23whens)
					return fmt.Sprint(c23nets[c/k/2], " ", c23ways[c/k%2], " ", c23whens[c%k])
				},
				Specs: specs(pol(Spec{D: 1}), pol(Spec{D: 1, Fine: true}, Spec{D: 2, Shards: 4})),
			},
			{Name: "files", Desc: "LoadTLSFile on all pairs of a set of good and bad files", N: one, Native: c23files},
		},
	})
}

var c23nets = []ep{{"tcp", ":71", ""}, {"tcp4", ":71", ""}, {"tcp6", ":71", ""}, {"unix", "/tmp/verif-never-created.sock", ""}}

var c23ways = []string{"LoadTLSFile", "TLSConfig", "GetCertificate", "GetConfigForClient"}

type c23pair struct{ cert, key []byte }

var c23certs = sync.OnceValue(func() (l []c23pair) {
	for i := 0; i < 2; i++ {
		seed := bytes.Repeat([]byte{byte(i + 1)}, 32)
		k := ed25519.NewKeyFromSeed(seed)
		tpl := &x509.Certificate{SerialNumber: big.NewInt(int64(i + 1)), Subject: pkix.Name{CommonName: "verif"},
			NotBefore: time.Unix(0, 0), NotAfter: time.Unix(4e9, 0), DNSNames: []string{"verif"}, IsCA: true, BasicConstraintsValid: true}
		der, err := x509.CreateCertificate(nil, tpl, tpl, k.Public(), k)
		if err != nil {
			panic(err)
		}
		kb, err := x509.MarshalPKCS8PrivateKey(k)
		if err != nil {
			panic(err)
		}
		l = append(l, c23pair{pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: kb})})
	}
	return
})

// loadTLS configures srv from files in a scratch directory.
func loadTLS(t *T, srv *tcpx.TcpX) { loadTLSn(t, srv, 0) }

func loadTLSn(t *T, srv *tcpx.TcpX, i int) {
	p := c23certs()[i]
	dir, err := os.MkdirTemp("", "mctls")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	cf, kf := filepath.Join(dir, "c.pem"), filepath.Join(dir, "k.pem")
	os.WriteFile(cf, p.cert, 0o600)
	os.WriteFile(kf, p.key, 0o600)
	if e := srv.LoadTLSFile(cf, kf); e != nil {
		t.Fail("LoadTLSFile of a good pair: %v", e)
	}
}

// tap records what crosses the wire.
type tap struct {
	net.Conn
	in, out []byte
}

func (c *tap) Read(b []byte) (int, error) {
	n, e := c.Conn.Read(b)
	c.in = append(c.in, b[:n]...)
	return n, e
}
func (c *tap) Write(b []byte) (int, error) {
	c.out = append(c.out, b...)
	return c.Conn.Write(b)
}

type tlsCli struct {
	v *vs.VConn
	w *tap
	c *tls.Conn
}

func dialTLS(e ep) *tlsCli {
	v := dial(e.network, e.addr)
	if v == nil {
		return nil
	}
	v.NoYield, v.Peer().NoYield = true, true
	pool := x509.NewCertPool()
	pool.AppendCertsFromPEM(c23certs()[0].cert)
	w := &tap{Conn: v}
	return &tlsCli{v, w, tls.Client(w, &tls.Config{RootCAs: pool, ServerName: "verif", CurvePreferences: []tls.CurveID{tls.X25519}})}
}

// frameIn reads one message.
func (c *tlsCli) frameIn() (Fr, error) {
	var l [4]byte
	if _, e := io.ReadFull(c.c, l[:]); e != nil {
		return Fr{}, e
	}
	n := binary.BigEndian.Uint32(l[:])
	if n > 10000 {
		return Fr{}, fmt.Errorf("length %d", n)
	}
	b := make([]byte, n)
	if _, e := io.ReadFull(c.c, b); e != nil {
		return Fr{}, e
	}
	fs, ok := parse(append(l[:], b...))
	if !ok || len(fs) != 1 {
		return Fr{}, fmt.Errorf("malformed message")
	}
	return fs[0], nil
}

const secret = "SECRETSECRET"

func c23serve(t *T, cfg int) {
	e := c23nets[cfg/len(c23ways)]
	srv := newSrv()
	switch c23ways[cfg%len(c23ways)] {
	case "LoadTLSFile":
		loadTLS(t, srv)
	case "TLSConfig":
		srv.TLSConfig = &tls.Config{Certificates: []tls.Certificate{c23kp(0)}}
	case "GetCertificate":
		srv.TLSConfig = &tls.Config{GetCertificate: func(*tls.ClientHelloInfo) (*tls.Certificate, error) {
			kp := c23kp(0)
			return &kp, nil
		}}
	case "GetConfigForClient":
		srv.TLSConfig = &tls.Config{GetConfigForClient: func(*tls.ClientHelloInfo) (*tls.Config, error) {
			return &tls.Config{Certificates: []tls.Certificate{c23kp(0)}}, nil
		}}
	}
	var got bag
	srv.AddHandler(1, func(c *tcpx.Context) {
		got.add("%s", bodyOf(c))
		c.JSON(2, "re:"+bodyOf(c))
	})
	closes := 0
	srv.OnClose = func(c *tcpx.Context) {
		if !off() {
			closes++
		}
	}
	up(srv, []ep{e})
	c := dialTLS(e)
	plain := dial(e.network, e.addr)
	if c == nil || plain == nil {
		t.Fail("%v: no connection", e)
		return
	}
	plain.NoYield, plain.Peer().NoYield = true, true
	var err error
	done := false
	vs.GoNamed("tls client", func() {
		_, err = c.c.Write(append(msg(1, secret+"1"), msg(1, secret+"2")...))
		done = true
	})
	vs.GoNamed("plain client", func() { plain.Write(msg(1, "plain")) })
	vs.WaitIdle()
	if !done || err != nil {
		t.Fail("%v: the TLS client cannot send: finished %v, error %v", e, done, err)
		return
	}
	var rs []string
	done = false
	vs.GoNamed("tls reader", func() {
		for i := 0; i < 2; i++ {
			f, e := c.frameIn()
			if e != nil {
				err = e
				break
			}
			rs = append(rs, f.Str())
		}
		done = true
	})
	vs.WaitIdle()
	t.Outcome("%s", got.seq())
	if got.sorted() != secret+"1,"+secret+"2" {
		t.Fail("%v: dispatched %s", e, got.sorted())
		return
	}
	if !done || err != nil || sortedJoin(rs) != "re:"+secret+"1,re:"+secret+"2" {
		t.Fail("%v: the TLS client received %v, error %v", e, rs, err)
		return
	}
	if bytes.Contains(c.w.in, []byte("SECRET")) || bytes.Contains(c.w.out, []byte("SECRET")) {
		t.Fail("%v: a message crossed the wire in plaintext", e)
		return
	}
	if !plain.PeerClosed() {
		t.Fail("%v: a plaintext client is not disconnected", e)
		return
	}
	if closes != 1 {
		t.Fail("%v: OnClose ran %d times for the plaintext client", e, closes)
	}
}

func c23kp(i int) tls.Certificate {
	p := c23certs()[i]
	kp, err := tls.X509KeyPair(p.cert, p.key)
	if err != nil {
		panic(err)
	}
	return kp
}

// c23pols: the configurations of the policy scenario. The last one serves old clients too.
var c23pols = []string{"client certificate", "TLS 1.3", "TLS 1.2 only", "one cipher suite", "ALPN", "TLS 1.0"}

// c23old is a certificate for TLS 1.0 (which knows no Ed25519).
var c23old = sync.OnceValue(func() tls.Certificate {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	tpl := &x509.Certificate{SerialNumber: big.NewInt(9), Subject: pkix.Name{CommonName: "verif"},
		NotBefore: time.Unix(0, 0), NotAfter: time.Unix(4e9, 0), DNSNames: []string{"verif"}}
	der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, k.Public(), k)
	if err != nil {
		panic(err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}
})

func c23policy(t *T, cfg int) {
	e, pol, restart := c23nets[cfg/len(c23pols)/2], c23pols[cfg%len(c23pols)], cfg/len(c23pols)%2 == 1
	pools := [2]*x509.CertPool{}
	for i := range pools {
		pools[i] = x509.NewCertPool()
		pools[i].AppendCertsFromPEM(c23certs()[i].cert)
	}
	srv := newSrv()
	sc := &tls.Config{Certificates: []tls.Certificate{c23kp(0)}}
	good := &tls.Config{RootCAs: pools[0], ServerName: "verif", CurvePreferences: []tls.CurveID{tls.X25519}}
	bad := good.Clone()
	switch pol {
	case "client certificate":
		sc.ClientAuth, sc.ClientCAs = tls.RequireAndVerifyClientCert, pools[1]
		good.Certificates = []tls.Certificate{c23kp(1)}
	case "TLS 1.3":
		sc.MinVersion = tls.VersionTLS13
		bad.MinVersion, bad.MaxVersion = tls.VersionTLS12, tls.VersionTLS12
	case "TLS 1.2 only":
		sc.MaxVersion = tls.VersionTLS12
		bad.MinVersion = tls.VersionTLS13
	case "one cipher suite":
		sc.MaxVersion = tls.VersionTLS12
		sc.CipherSuites = []uint16{tls.TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384}
		bad.MaxVersion = tls.VersionTLS12
		bad.CipherSuites = []uint16{tls.TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256}
	case "ALPN":
		sc.NextProtos, good.NextProtos, bad.NextProtos = []string{"tcpx"}, []string{"tcpx"}, []string{"other"}
	case "TLS 1.0":
		sc.Certificates = []tls.Certificate{c23old()}
		sc.MinVersion = tls.VersionTLS10
		good.MinVersion, good.MaxVersion = tls.VersionTLS10, tls.VersionTLS10
		good.RootCAs, good.InsecureSkipVerify = nil, true
	}
	srv.TLSConfig = sc
	var got bag
	srv.AddHandler(1, func(c *tcpx.Context) { got.add("%s", bodyOf(c)) })
	up(srv, []ep{e})
	if restart {
		srv.Restart(true)
		vs.WaitIdle()
	}
	for i, cc := range []*tls.Config{good, bad} {
		i, cc := i, cc
		vs.GoNamed("client", func() {
			v := dial(e.network, e.addr)
			if v == nil {
				return
			}
			v.NoYield, v.Peer().NoYield = true, true
			c := tls.Client(v, cc)
			if _, e := c.Write(msg(1, []string{"good", "bad"}[i])); e != nil {
				return
			}
			c.Read(make([]byte, 1))
		})
	}
	vs.WaitIdle()
	t.Outcome("%s", got.seq())
	if got.seq() != "good" {
		t.Fail("%v: messages of a client that complies (good) and of one that does not (bad): handled %s", e, got.seq())
	}
}

func c23life(t *T, cfg int) {
	e := c23nets[0]
	srv := newSrv()
	loadTLS(t, srv)
	opens, closes := 0, 0
	srv.OnConnect = func(c *tcpx.Context) { opens++ }
	srv.OnClose = func(c *tcpx.Context) {
		if !off() {
			closes++
		}
	}
	srv.AddHandler(1, func(c *tcpx.Context) { c.JSON(2, "re:"+bodyOf(c)) })
	srv.AddHandler(4, func(c *tcpx.Context) { c.CloseConn() })
	up(srv, []ep{e})
	talk := func(c *tlsCli, s string) bool {
		ok := false
		vs.GoNamed("client", func() {
			if _, e := c.c.Write(msg(1, s)); e != nil {
				return
			}
			f, e := c.frameIn()
			ok = e == nil && f.Str() == "re:"+s
		})
		vs.WaitIdle()
		return ok
	}
	c := dialTLS(e)
	if c == nil || !talk(c, "a") {
		t.Fail("a TLS client is not served")
		return
	}
	closed := true
	switch cfg {
	case 0:
		vs.GoNamed("stop", func() { srv.Stop(true) })
	case 1:
		vs.GoNamed("restart", func() { srv.Restart(true) })
	case 2:
		vs.GoNamed("client", func() { c.c.Write(msg(4, "")) })
	case 3:
		closed = false
		vs.GoNamed("restart", func() { srv.Restart(false) })
	}
	vs.WaitIdle()
	if c.v.PeerClosed() != closed || closed && closes != 1 || !closed && closes != 0 {
		t.Fail("the TLS connection is closed: %v, want %v; OnClose ran %d times", c.v.PeerClosed(), closed, closes)
		return
	}
	if !closed && !talk(c, "b") {
		t.Fail("after Restart(false) the TLS connection does not work")
		return
	}
	if cfg != 0 {
		d := dialTLS(e)
		if d == nil || !talk(d, "c") {
			t.Fail("a new TLS client is not served")
			return
		}
		srv.Stop(true)
		vs.WaitIdle()
	}
	if l := vs.LiveServerThreads(); len(l) > 0 || opens != closes {
		t.Fail("in the end goroutines remain: %v; OnConnect %d, OnClose %d", l, opens, closes)
	}
}

var c23whens = []string{"before serving", "Restart(false)", "Restart(true)", "in Restart's function", "Stop and Start"}

func c23reload(t *T, cfg int) {
	e, way, when := c23nets[cfg/len(c23whens)/2], c23ways[cfg/len(c23whens)%2], c23whens[cfg%len(c23whens)]
	srv := newSrv()
	set := func(i int) {
		if way == "LoadTLSFile" {
			loadTLSn(t, srv, i)
		} else {
			srv.TLSConfig = &tls.Config{Certificates: []tls.Certificate{c23kp(i)}}
		}
	}
	var got bag
	srv.AddHandler(1, func(c *tcpx.Context) { got.add("%s", bodyOf(c)) })
	call := func(i int, s string) *tls.Conn {
		var c *tls.Conn
		vs.GoNamed("client "+s, func() {
			v := dial(e.network, e.addr)
			if v == nil {
				return
			}
			v.NoYield, v.Peer().NoYield = true, true
			pool := x509.NewCertPool()
			pool.AppendCertsFromPEM(c23certs()[i].cert)
			k := tls.Client(v, &tls.Config{RootCAs: pool, ServerName: "verif", CurvePreferences: []tls.CurveID{tls.X25519}})
			if _, e := k.Write(msg(1, s)); e == nil {
				c = k
			}
		})
		vs.WaitIdle()
		return c
	}
	set(0)
	var old *tls.Conn
	if when == "before serving" {
		set(1)
		up(srv, []ep{e})
	} else {
		up(srv, []ep{e})
		if old = call(0, "first"); old == nil || got.seq() != "first" {
			t.Fail("%v: a client is not served with the first certificate", e)
			return
		}
		vs.GoNamed("restart", func() {
			switch when {
			case "Restart(false)", "Restart(true)":
				set(1)
				srv.Restart(when == "Restart(true)")
			case "in Restart's function":
				srv.Restart(false, func() { set(1) })
			case "Stop and Start":
				srv.Stop(false)
				set(1)
				srv.Start()
			}
		})
		vs.WaitIdle()
	}
	got.l = nil
	a, b := call(0, "old certificate"), call(1, "new certificate")
	if old != nil && when != "Restart(true)" {
		vs.GoNamed("old client", func() { old.Write(msg(1, "going on")) })
		vs.WaitIdle()
	}
	t.Outcome("%s", got.seq())
	want := "new certificate"
	if old != nil && when != "Restart(true)" {
		want = "going on,new certificate"
	}
	if a != nil || b == nil || got.sorted() != want {
		t.Fail("%v: the certificate was replaced (%s, %s): a client that expects the old one connects: %v, one that expects the new one: %v; handled: %s, want %s", e, way, when, a != nil, b != nil, got.sorted(), want)
	}
}

func c23files(t *T, _ int) {
	dir, err := os.MkdirTemp("", "mctls")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	cs := c23certs()
	files := map[string][]byte{"c0": cs[0].cert, "k0": cs[0].key, "c1": cs[1].cert, "k1": cs[1].key, "empty": nil, "garbage": []byte("-----BEGIN X-----\nzz"), "half": cs[0].cert[:len(cs[0].cert)/2]}
	for n, b := range files {
		os.WriteFile(filepath.Join(dir, n), b, 0o600)
	}
	names := []string{"c0", "k0", "c1", "k1", "empty", "garbage", "half", "missing"}
	for _, a := range names {
		for _, b := range names {
			t.Case(1)
			t.lastCas = a + " " + b
			srv := newSrv()
			e := srv.LoadTLSFile(filepath.Join(dir, a), filepath.Join(dir, b))
			good := a == "c0" && b == "k0" || a == "c1" && b == "k1"
			if (e == nil) != good {
				t.Fail("LoadTLSFile(%s, %s): error %v", a, b, e)
				return
			}
			if good {
				if srv.TLSConfig == nil || len(srv.TLSConfig.Certificates) != 1 {
					t.Fail("LoadTLSFile(%s, %s): no certificate is configured", a, b)
					return
				}
				blk, _ := pem.Decode(files[a])
				if !eq(srv.TLSConfig.Certificates[0].Certificate[0], blk.Bytes) {
					t.Fail("LoadTLSFile(%s, %s): another certificate is configured", a, b)
					return
				}
			}
		}
	}
	t.sample = fmt.Sprintf("LoadTLSFile on all pairs of %v", names)
}
