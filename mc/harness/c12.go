package main

import (
	"fmt"
	"runtime"
	"strings"
	"time"
	"weak"

	"github.com/fwhezfwhez/tcpx"
	"verifmc/vs"
)

// C12: the life cycle of a connection.

func init() {
	register(&Prop{
		ID:          "C12",
		Assumptions: []string{"OnConnect, OnClose and handlers return"},
		Scenarios: []*Scenario{
			{
				Name: "ends", Desc: "a connection that ends in one way or in two ways at once, next to one that does not end; with and without heartbeat, auth, signals and pool",
				N: n(len(c12ends)*2, len(c12ends)*2), Run: c12ends_,
				Label: func(c int) string { return fmt.Sprint(c12ends[c/2], ", all features: ", c%2 == 1) },
				Specs: specs(pol(Spec{D: 1, Fine: true}, Spec{D: 2}), pol(Spec{D: 2, Fine: true, Shards: 8}, Spec{D: 3, Shards: 8})),
			},
			{
				Name: "early", Desc: "clients that send, disconnect or both as soon as they connect, one or two at once, with an OnConnect that takes time",
				N: n(len(c12early)*4, len(c12early)*4), Run: c12early_,
				Label: func(c int) string {
					return fmt.Sprint(c12early[c/4], ", slow OnConnect: ", c%2 == 1, ", all features: ", c/2%2 == 1)
				},
				Specs: specs(pol(Spec{D: 1, Fine: true}, Spec{D: 2}), pol(Spec{D: 2, Fine: true, Shards: 4}, Spec{D: 3, Shards: 4})),
			},
			{
				Name: "inside", Desc: "OnConnect, OnClose, the heartbeat loss event, the auth handler, a middleware and a handler call every method on their own context and on another connection's: every call returns and the connections' lives are as ever",
				N: n(len(c12where)*len(c12calls), len(c12where)*len(c12calls)), Run: c12inside,
				Label: func(c int) string {
					return fmt.Sprint(c12where[c/len(c12calls)], " calls ", c12calls[c%len(c12calls)].name)
				},
				Specs: specs(pol(Spec{D: 1}), pol(Spec{D: 1, Fine: true}, Spec{D: 2})),
			},
			{
				Name: "memory", Desc: "200 connections come, are used and go in every way; their contexts are then garbage", Steps: 3000000,
				N: n(len(c12mem), len(c12mem)), Run: c12memory,
				Label: func(c int) string { return c12mem[c] },
				Specs: specs([]Spec{{D: 0}}, []Spec{{D: 0}}),
			},
			{
				Name: "crowd", Desc: "1200 to 2200 connections at the same time (300 with all features), which are used and end in several ways", Steps: 3000000,
				N: n(8, 8), Run: c12crowd,
				Label: func(c int) string {
					return fmt.Sprint([]string{"plain", "all features", "raw", "pool"}[c%4], ", ", []string{"clients close", "Stop(true)"}[c/4])
				},
				Specs: specs(pol(Spec{D: 0}), pol(Spec{D: 0}, Spec{D: 0, Fine: true})),
			},
			{
				Name: "history", Desc: "all histories of connect, message and disconnect by two clients",
				N: n(2, 2), Run: func(t *T, cfg int) { c12hist(t, cfg, map[string]int{"quick": 6, "thorough": 7}[t.tier]) },
				Specs: specs([]Spec{{D: 0}}, pol(Spec{D: 0})),
			},
		},
	})
}

var c12ends = []string{
	"client closes", "client resets", "client half-closes", "malformed stream",
	"handler closes", "handler closes twice", "two handlers close", "handler closes, client closes",
	"heartbeat loss", "auth denied", "auth timeout", "read deadline",
	"Stop(true)", "Stop(true), client closes", "OnConnect closes", "handler closes, malformed stream",
	"heartbeat loss, client closes", "auth denied, client closes", "auth passed, client closes",
}

func c12ends_(t *T, cfg int) {
	end, all := c12ends[cfg/2], cfg%2 == 1
	srv := newSrv()
	var log bag
	ctxs := map[string]*tcpx.Context{}
	timed := strings.HasPrefix(end, "heartbeat") || end == "auth timeout" || end == "read deadline"
	if all || strings.HasPrefix(end, "auth") {
		d := time.Hour
		if end == "auth timeout" {
			d = 10 * time.Second
		}
		srv.WithAuthDetail(true, d, false, 60, func(c *tcpx.Context) {
			if bodyOf(c) == "deny" {
				c.RecvAuthDeny()
			} else {
				c.RecvAuthPass()
			}
		})
	}
	if all || strings.HasPrefix(end, "heartbeat") {
		d := time.Hour
		if strings.HasPrefix(end, "heartbeat") {
			d = time.Second
		}
		srv.HeartBeatMode(true, d)
	}
	if all {
		srv.WithBroadCastSignal(true)
		srv.WithBuiltInPool(true)
	}
	if end == "read deadline" {
		srv.SetReadDeadline(vs.Now().Add(5 * time.Second))
	}
	id := func(c *tcpx.Context) string {
		v, _ := c.GetCtxPerConn("n")
		return fmt.Sprint(v)
	}
	srv.OnConnect = func(c *tcpx.Context) {
		if off() {
			return
		}
		nconn := connNum(c)
		n := fmt.Sprint("k", nconn)
		if _, dup := c.GetCtxPerConn("n"); dup {
			log.add("connect twice %s", id(c))
		}
		c.SetCtxPerConn("n", n)
		ctxs[n] = c
		vs.Pub()
		log.add("connect %s", n)
		if all {
			c.Online(n)
		}
		if end == "OnConnect closes" && nconn == 1 {
			c.CloseConn()
		}
	}
	srv.OnClose = func(c *tcpx.Context) { log.add("close %s", id(c)) }
	srv.AddHandler(1, func(c *tcpx.Context) {
		log.add("msg %s", id(c))
		switch bodyOf(c) {
		case "close":
			c.CloseConn()
		case "close2":
			c.CloseConn()
			c.CloseConn()
		}
	})
	done := serve(srv, "tcp", addr)
	a := dial("tcp", addr)
	a.Tag = "a"
	vs.WaitIdle()
	var by *vs.VConn
	if !timed {
		by = dial("tcp", addr)
		by.Tag = "by"
		vs.WaitIdle()
	}
	cl := func() { vs.GoNamed("client", func() { a.Close() }) }
	send := func(bs ...[]byte) {
		vs.GoNamed("client-msg", func() {
			for _, b := range bs {
				a.Write(b)
			}
		})
	}
	switch end {
	case "client closes":
		send(msg(1, "x"))
		cl()
	case "client resets":
		send(msg(1, "x"))
		vs.GoNamed("client", func() { a.Reset() })
	case "client half-closes":
		send(msg(1, "x"))
		vs.GoNamed("client", func() { a.CloseWrite() })
	case "malformed stream":
		send(msg(1, "x"), lenOnly(0xfffffff0))
	case "handler closes":
		send(msg(1, "close"))
	case "handler closes twice":
		send(msg(1, "close2"))
	case "two handlers close":
		send(msg(1, "close"), msg(1, "close"))
	case "handler closes, client closes":
		send(msg(1, "close"))
		cl()
	case "handler closes, malformed stream":
		send(msg(1, "close"), lenOnly(0))
	case "auth denied":
		send(msg(60, "deny"))
	case "auth denied, client closes":
		send(msg(60, "deny"))
		cl()
	case "auth passed, client closes":
		send(msg(60, "pass"))
		cl()
	case "Stop(true)":
		send(msg(1, "x"))
		srv.Stop(true)
	case "Stop(true), client closes":
		cl()
		srv.Stop(true)
	case "heartbeat loss, client closes":
		vs.GoNamed("client", func() { vs.Sleep(3 * time.Second); a.Close() })
	}
	vs.WaitIdle()
	if timed {
		vs.Sleep(20 * time.Second)
		vs.WaitIdle()
	}
	t.Outcome("%s", log.seq())
	stopped := strings.HasPrefix(end, "Stop")
	check := func(n string, c *vs.VConn, ended bool) bool {
		if log.count("connect "+n) != 1 {
			t.Fail("OnConnect ran %d times for %s: %s", log.count("connect "+n), n, log.seq())
			return false
		}
		wantC := 0
		if ended {
			wantC = 1
		}
		if log.count("close "+n) != wantC {
			t.Fail("OnClose ran %d times for connection %s, want %d: %s", log.count("close "+n), n, wantC, log.seq())
			return false
		}
		seen := false
		for _, l := range log.l {
			if l == "connect "+n {
				seen = true
			} else if strings.HasSuffix(l, " "+n) && !seen {
				t.Fail("%q before OnConnect: %s", l, log.seq())
				return false
			}
		}
		vs.Sub()
		if c.Peer().IsClosed() != ended || ctxs[n].IsOffline() != ended || ctxs[n].IsOnline() == ended {
			t.Fail("connection %s ended: %v, but its socket is closed: %v, its context offline: %v", n, ended, c.Peer().IsClosed(), ctxs[n].IsOffline())
			return false
		}
		if all {
			if in := ctxs[n].GetPoolRef().GetClientPool(n) != nil; in == ended {
				t.Fail("connection %s ended: %v, still in the pool: %v", n, ended, in)
				return false
			}
		}
		return true
	}
	if !check("k1", a, true) {
		return
	}
	if by != nil {
		if !check("k2", by, stopped) {
			return
		}
		if !stopped {
			by.Close()
			vs.WaitIdle()
			if !check("k2", by, true) {
				return
			}
		}
	}
	if l := vs.LiveServerThreads(); len(l) > 0 {
		t.Fail("every connection has ended but goroutines remain: %v", l)
		return
	}
	if *done != stopped {
		t.Fail("ListenAndServe returned: %v", *done)
	}
}

// c12hist: two clients connect, send, disconnect; the reference is a state per
// client.
func c12hist(t *T, cfg, length int) {
	srv := newSrv()
	if cfg == 1 {
		srv.HeartBeatMode(true, time.Hour)
		srv.WithBroadCastSignal(true)
	}
	var log bag
	srv.OnConnect = func(c *tcpx.Context) {
		nconn := connNum(c)
		c.SetCtxPerConn("n", nconn)
		log.add("connect %d", nconn)
	}
	srv.OnClose = func(c *tcpx.Context) {
		v, _ := c.GetCtxPerConn("n")
		log.add("close %v", v)
	}
	srv.AddHandler(1, func(c *tcpx.Context) {
		v, _ := c.GetCtxPerConn("n")
		log.add("msg %v", v)
		if bodyOf(c) == "bye" {
			c.CloseConn()
		}
	})
	serve(srv, "tcp", addr)
	var cs [2]*vs.VConn
	var nums [2]int
	ref := 0
	var want []string
	for i := 0; i < length; i++ {
		k := vs.Choose(2)
		if cs[k] == nil {
			cs[k] = dial("tcp", addr)
			ref++
			nums[k] = ref
			want = append(want, fmt.Sprint("connect ", ref))
		} else {
			switch vs.Choose(4) {
			case 0:
				cs[k].Write(msg(1, "x"))
				want = append(want, fmt.Sprint("msg ", nums[k]))
			case 1:
				cs[k].Close()
				want = append(want, fmt.Sprint("close ", nums[k]))
				cs[k] = nil
			case 2:
				cs[k].Write(msg(1, "bye"))
				want = append(want, fmt.Sprint("msg ", nums[k]), fmt.Sprint("close ", nums[k]))
				cs[k] = nil
			case 3:
				cs[k].Write([]byte{0xff, 0xff, 0xff, 0xff})
				want = append(want, fmt.Sprint("close ", nums[k]))
				cs[k] = nil
			}
		}
		vs.WaitIdle()
		if log.seq() != strings.Join(want, ",") {
			t.Fail("events %s, want %v", log.seq(), want)
			return
		}
	}
	t.Outcome("%v", want)
	for _, c := range cs {
		if c != nil {
			c.Close()
		}
	}
	vs.WaitIdle()
	if l := vs.LiveServerThreads(); len(l) > 0 {
		t.Fail("goroutines remain after %v: %v", want, l)
	}
}

var c12early = []string{"send", "send, close", "send, reset", "close", "garbage", "two clients send", "two clients send, close", "batch"}

func c12early_(t *T, cfg int) {
	kind, slow, all := c12early[cfg/4], cfg%2 == 1, cfg/2%2 == 1
	srv := newSrv()
	if all {
		srv.WithAuthDetail(true, time.Hour, false, 60, func(c *tcpx.Context) { c.RecvAuthPass() })
		srv.HeartBeatMode(true, time.Hour)
		srv.WithBroadCastSignal(true)
		srv.WithBuiltInPool(true)
	}
	var log bag
	nconn := 0
	state := map[any]string{} // by connection
	srv.OnConnect = func(c *tcpx.Context) {
		if off() {
			return
		}
		nconn++
		if state[c.Conn] != "" {
			log.add("OnConnect again")
		}
		state[c.Conn] = "connecting"
		if slow {
			vs.Sleep(time.Second)
			if off() {
				return
			}
		}
		if state[c.Conn] != "connecting" {
			log.add("OnConnect ended with the connection %s", state[c.Conn])
		}
		state[c.Conn] = "connected"
	}
	srv.OnClose = func(c *tcpx.Context) {
		if off() {
			return
		}
		if state[c.Conn] != "connected" {
			log.add("OnClose of a connection that is %q", state[c.Conn])
		}
		state[c.Conn] = "closed"
	}
	msgs := 0
	srv.AddHandler(1, func(c *tcpx.Context) {
		if off() {
			return
		}
		if s := state[c.Conn]; s != "connected" && s != "closed" {
			log.add("handler of a connection that is %q", s)
		}
		msgs++
	})
	serve(srv, "tcp", addr)
	clients, ends, per := 1, true, 1
	if strings.HasPrefix(kind, "two") {
		clients = 2
	}
	for i := 0; i < clients; i++ {
		vs.GoNamed("client", func() {
			c := dial("tcp", addr)
			if strings.Contains(kind, "send") {
				c.Write(msg(1, "x"))
			}
			switch {
			case strings.HasSuffix(kind, "close"):
				c.Close()
			case strings.HasSuffix(kind, "reset"):
				c.Reset()
			case kind == "garbage":
				c.Write(append(msg(1, "x"), lenOnly(0xfffffff0)...))
			case kind == "batch":
				tcpx.PipeJSON(c, 1, "x", 1, "y")
			}
		})
	}
	switch kind {
	case "send", "two clients send":
		ends = false
	case "batch":
		ends, per = false, 2
	case "close":
		per = 0
	}
	vs.WaitIdle()
	vs.Sleep(10 * time.Second)
	vs.WaitIdle()
	closed := 0
	for _, s := range state {
		if s == "closed" {
			closed++
		}
	}
	t.Outcome("%d %d %d", nconn, msgs, closed)
	if len(log.l) > 0 {
		t.Fail("%s", log.seq())
		return
	}
	if nconn != clients || kind != "send, reset" && msgs != clients*per || ends && closed != clients || !ends && closed > 0 {
		t.Fail("%d connections, %d messages, %d ended", nconn, msgs, closed)
		return
	}
	if l := vs.LiveServerThreads(); ends && len(l) > 0 {
		t.Fail("every connection has ended but goroutines remain: %v", l)
	}
}

var c12mem = []string{"client closes", "client resets", "handler closes", "garbage", "heartbeat loss", "auth denied", "Stop(true)", "raw, client closes", "Stop(false), client closes"}

// c12memory: nothing keeps the contexts of connections that have ended.
func c12memory(t *T, cfg int) {
	const N = 200
	end := c12mem[cfg]
	srv := newSrv()
	srv.WithBuiltInPool(true)
	srv.WithBroadCastSignal(true)
	var ws []weak.Pointer[tcpx.Context]
	keep := func(c *tcpx.Context) {
		if !off() {
			ws = append(ws, weak.Make(c))
		}
	}
	srv.OnConnect = func(c *tcpx.Context) {
		keep(c)
		if !off() {
			c.Online(fmt.Sprint("user", connNum(c)))
		}
	}
	srv.OnClose = func(c *tcpx.Context) {}
	srv.AddHandler(1, func(c *tcpx.Context) {
		keep(c)
		c.JSON(2, "re")
		if bodyOf(c) == "close" {
			c.CloseConn()
		}
	})
	switch end {
	case "heartbeat loss":
		srv.HeartBeatMode(true, time.Second)
	case "auth denied":
		srv.WithAuthDetail(true, time.Hour, false, 60, func(c *tcpx.Context) { c.RecvAuthDeny() })
	case "raw, client closes":
		srv.HandleRaw = func(c *tcpx.Context) {
			keep(c)
			c.ConnReader.Read(make([]byte, 100))
		}
	}
	if strings.HasPrefix(end, "raw") {
		serveRaw(srv, "tcp", addr)
	} else {
		serve(srv, "tcp", addr)
	}
	c12memRun(srv, end, N)
	vs.WaitIdle()
	vs.Sleep(time.Minute)
	vs.WaitIdle()
	if !strings.HasPrefix(end, "Stop") { // a last client, so that nothing is left over from the last of them
		dial("tcp", addr).Close()
		vs.WaitIdle()
	}
	if len(ws) < N {
		t.Fail("%d contexts of %d connections seen", len(ws), N)
		return
	}
	live := 0
	for try := 0; try < 4; try++ {
		runtime.GC()
		live = 0
		for _, w := range ws {
			if w.Value() != nil {
				live++
			}
		}
		if live == 0 {
			break
		}
	}
	t.Outcome("%v", live <= N/4)
	if live > N/4 {
		t.Fail("%s: %d of the %d contexts of %d connections that have ended are still held", end, live, len(ws), N)
	}
	runtime.KeepAlive(srv)
}

func c12memRun(srv *tcpx.TcpX, end string, n int) {
	var cs []*vs.VConn
	for i := 0; i < n; i++ {
		c := dial("tcp", addr)
		c.Write(msg(1, "x"))
		vs.WaitIdle()
		switch end {
		case "client closes", "raw, client closes":
			c.Close()
		case "Stop(false), client closes":
			cs = append(cs, c)
		case "client resets":
			c.Reset()
		case "handler closes":
			c.Write(msg(1, "close"))
		case "garbage":
			c.Write(lenOnly(0xfffffff0))
		case "auth denied":
			c.Write(msg(60, "x"))
		}
		vs.WaitIdle()
	}
	if strings.HasPrefix(end, "Stop") {
		srv.Stop(end == "Stop(true)")
		vs.WaitIdle()
	}
	for _, c := range cs {
		c.Close()
		vs.WaitIdle()
	}
}

func c12crowd(t *T, cfg int) {
	kind, stop := cfg%4, cfg/4 == 1
	N := []int{2200, 300, 1200, 1200}[kind]
	srv := echoSrv()
	opens, closes := map[string]int{}, map[string]int{}
	pool := tcpx.NewClientPool()
	srv.OnConnect = func(c *tcpx.Context) {
		if off() {
			return
		}
		k := c.Conn.RemoteAddr().String()
		opens[k]++
		if kind%2 == 1 {
			pool = c.GetPoolRef()
			if e := c.Online(k); e != nil {
				t.Fail("Online: %v", e)
			}
		}
	}
	srv.OnClose = func(c *tcpx.Context) {
		if !off() {
			closes[c.Conn.RemoteAddr().String()]++
		}
	}
	if kind%2 == 1 {
		srv.WithBuiltInPool(true)
	}
	if kind == 1 {
		srv.WithBroadCastSignal(true)
		srv.HeartBeatMode(true, time.Hour)
		srv.WithAuthDetail(true, time.Hour, false, 60, func(c *tcpx.Context) { c.RecvAuthPass() })
	}
	e := ep{"tcp", addr, ""}
	if kind == 2 {
		e.mode = "raw"
	}
	up(srv, []ep{e})
	before := len(vs.LiveServerThreads())
	var cs []*cli
	for i := 0; i < N; i++ {
		c := dialEP(e)
		if c == nil {
			t.Fail("client %d of %d cannot connect", i, N)
			return
		}
		cs = append(cs, c)
		if i%400 == 399 {
			vs.WaitIdle()
		}
	}
	vs.WaitIdle()
	for i, c := range cs {
		if kind == 2 {
			c.s.Write([]byte("raw"))
		} else {
			c.s.Write(msg(1, fmt.Sprint("m", i)))
		}
	}
	vs.WaitIdle()
	for i, c := range cs {
		fs, ok := replies(c.s)
		if kind == 2 && string(c.s.Drain()) != "raw" || kind != 2 && (!ok || len(fs) != 1 || fs[0].Str() != fmt.Sprint("m", i)) {
			t.Fail("client %d of %d gets no answer", i, N)
			return
		}
		if kind == 1 {
			c.s.Write(msg(60, "auth"))
		}
		if i%10 == 0 { // some leave early
			c.s.Close()
		}
	}
	vs.WaitIdle()
	if kind%2 == 1 {
		for i, c := range cs {
			if got := pool.GetClientPool(c.s.LocalAddr().String()) != nil; got != (i%10 != 0) {
				t.Fail("client %d of %d is in the pool: %v", i, N, got)
				return
			}
		}
	}
	if n := vs.ServerConns(); n != N-N/10 {
		t.Fail("%d connections are open, want %d", n, N-N/10)
		return
	}
	if stop {
		srv.Stop(true)
	} else {
		for i, c := range cs {
			if c.s.PeerClosed() != (i%10 == 0) {
				t.Fail("client %d of %d is disconnected: %v", i, N, c.s.PeerClosed())
				return
			}
			if i%10 != 0 {
				c.s.Close()
			}
		}
	}
	vs.WaitIdle()
	t.Outcome("%d", len(opens))
	if stop {
		before = 0
	}
	if l := vs.LiveServerThreads(); vs.ServerConns() != 0 || len(l) > before {
		t.Fail("%d connections stay open, %d goroutines remain", vs.ServerConns(), len(l)-before)
		return
	}
	for _, c := range cs {
		k := c.s.LocalAddr().String()
		if opens[k] != 1 || closes[k] != 1 || pool.GetClientPool(k) != nil {
			t.Fail("connection %s of %d: OnConnect %d times, OnClose %d times, in the pool %v", k, N, opens[k], closes[k], pool.GetClientPool(k) != nil)
			return
		}
	}
}

var c12where = []string{"OnConnect", "OnClose", "loss event", "auth handler", "middleware", "handler"}

// c12calls: ends says that the call ends the connection it is made for.
var c12calls = []struct {
	name string
	ends bool
	do   func(c, other *tcpx.Context)
}{
	{"CloseConn", true, func(c, _ *tcpx.Context) { c.CloseConn() }},
	{"CloseConn twice", true, func(c, _ *tcpx.Context) { c.CloseConn(); c.CloseConn() }},
	{"Offline", false, func(c, _ *tcpx.Context) { c.Offline() }},
	{"Online", false, func(c, _ *tcpx.Context) { c.Online("me") }},
	{"Online and Offline", false, func(c, _ *tcpx.Context) { c.Online("me"); c.Offline() }},
	{"Online as another", false, func(c, _ *tcpx.Context) { c.Online("other") }},
	{"replies", false, func(c, _ *tcpx.Context) {
		c.JSON(2, "x")
		c.Reply(2, "x", map[string]interface{}{"k": "v"})
		c.XML(2, "x")
		c.ReplyWithMarshaller(tcpx.YamlMarshaller{}, 2, "x")
		c.JSONURLPattern("x")
	}},
	{"sends", false, func(c, o *tcpx.Context) {
		c.SendToUsername("other", 9, "x")
		c.SendToUsername("me", 9, "x")
		c.SendToConn(o, 9, "x")
		c.SendToConn(c, 9, "x")
		o.JSON(9, "x")
	}},
	{"values", false, func(c, o *tcpx.Context) {
		c.SetCtxPerConn("k", 1)
		c.GetCtxPerConn("k")
		c.SetCtxPerRequest("k", 1)
		c.GetCtxPerRequest("k")
		c.SetUsername("me")
		c.Username()
		c.GetUsername()
		o.SetCtxPerConn("k", 1)
	}},
	{"state", false, func(c, o *tcpx.Context) {
		c.IsOnline()
		c.IsOffline()
		o.IsOnline()
		c.ClientIP()
		c.Network()
		c.ConnectionProtocolType()
		c.HeartBeatChan()
		c.AuthChan()
	}},
	{"heartbeats", false, func(c, _ *tcpx.Context) {
		for i := 0; i < 5; i++ {
			c.RecvHeartBeat()
		}
	}},
	{"RecvAuthPass", false, func(c, _ *tcpx.Context) { c.RecvAuthPass(); c.RecvAuthPass() }},
	{"deadlines", false, func(c, _ *tcpx.Context) {
		far := vs.Now().Add(1000 * time.Hour)
		c.SetDeadline(far)
		c.SetReadDeadline(far)
		c.SetWriteDeadline(far)
	}},
	{"pool", false, func(c, o *tcpx.Context) {
		p := c.GetPoolRef()
		p.GetClientPool("other")
		p.Online("me", c)
		p.SetClientPool("me2", c)
		p.Offline("me")
		p.DeleteFromClientPool("me2")
	}},
	{"CloseConn of another", false, func(_, o *tcpx.Context) { o.CloseConn() }},
	{"Offline of another", false, func(_, o *tcpx.Context) { o.Offline() }},
}

// c12inside: the first connection is the other; the second is the one whose
// callbacks act; the third looks on.
func c12inside(t *T, cfg int) {
	where, call := c12where[cfg/len(c12calls)], c12calls[cfg%len(c12calls)]
	srv := newSrv()
	srv.WithBuiltInPool(true)
	srv.WithBroadCastSignal(true)
	var log bag
	var other *tcpx.Context
	began, ended := 0, 0
	act := func(c *tcpx.Context) {
		if off() || began > 0 {
			return
		}
		began++
		call.do(c, other)
		if !off() {
			ended++
		}
	}
	num := func(c *tcpx.Context) int {
		v, _ := c.GetCtxPerConn("n")
		i, _ := v.(int)
		return i
	}
	srv.OnConnect = func(c *tcpx.Context) {
		if off() {
			return
		}
		i := connNum(c)
		c.SetCtxPerConn("n", i)
		log.add("connect %d", i)
		if i == 1 {
			other = c
			c.Online("other")
		}
		if i == 2 && where == "OnConnect" {
			act(c)
		}
	}
	srv.OnClose = func(c *tcpx.Context) {
		if off() {
			return
		}
		log.add("close %d", num(c))
		if num(c) == 2 && where == "OnClose" {
			act(c)
		}
	}
	if where == "loss event" {
		srv.HeartBeatMode(true, time.Second)
		srv.SetEventOnHeartbeatLoss(act)
	}
	srv.WithAuthDetail(true, time.Hour, false, 60, func(c *tcpx.Context) {
		if where == "auth handler" && num(c) == 2 {
			act(c)
		}
		c.RecvAuthPass()
	})
	srv.UseGlobal(func(c *tcpx.Context) {
		if where == "middleware" && num(c) == 2 {
			act(c)
		}
	})
	srv.AddHandler(1, func(c *tcpx.Context) {
		if where == "handler" && num(c) == 2 {
			act(c)
		}
		c.JSON(3, bodyOf(c))
	})
	serve(srv, "tcp", addr)
	var cs []*vs.VConn
	for i := 0; i < 3; i++ {
		cs = append(cs, dial("tcp", addr))
		vs.WaitIdle()
	}
	for i, c := range cs {
		if where == "auth handler" || i != 1 {
			c.Write(msg(60, ""))
			vs.WaitIdle()
		}
	}
	switch where {
	case "OnClose":
		cs[1].Close()
	case "loss event":
		for i := 0; i < 3; i++ {
			vs.Sleep(time.Second)
			cs[0].Write(tcpx.PackHeartbeat())
			cs[2].Write(tcpx.PackHeartbeat())
			vs.WaitIdle()
		}
	case "middleware", "handler":
		cs[1].Write(msg(1, "x"))
	}
	vs.WaitIdle()
	if began != 1 || ended != 1 {
		t.Fail("%s calls %s: begun %d times, ended %d times", where, call.name, began, ended)
		return
	}
	gone := map[int]bool{}
	if call.name == "CloseConn of another" {
		gone[1] = true
	}
	if call.ends || where == "OnClose" || where == "loss event" {
		gone[2] = true
	}
	want := "connect 1,connect 2,connect 3"
	for i, c := range cs {
		if c.Peer().IsClosed() != gone[i+1] {
			t.Fail("%s calls %s: connection %d closed: %v", where, call.name, i+1, !gone[i+1])
			return
		}
	}
	for i := 1; i <= 3; i++ {
		if gone[i] {
			want += fmt.Sprint(",close ", i)
		}
	}
	if log.sorted() != sortedJoin(strings.Split(want, ",")) {
		t.Fail("%s calls %s: %s, want %s", where, call.name, log.sorted(), want)
		return
	}
	cs[2].Drain()
	cs[2].Write(msg(1, "look"))
	vs.WaitIdle()
	if fs, ok := replies(cs[2]); !ok || sortedJoin(strs(fs)) != "3:look" {
		t.Fail("%s calls %s: another client receives %v", where, call.name, strs(fs))
		return
	}
	p := other.GetPoolRef()
	for _, c := range cs {
		c.Close()
	}
	vs.WaitIdle()
	for _, u := range []string{"me", "other", "me2"} {
		if p.GetClientPool(u) != nil {
			t.Fail("%s calls %s; in the end the pool has %s", where, call.name, u)
			return
		}
	}
	srv.Stop(true)
	vs.WaitIdle()
	vs.Sleep(time.Minute)
	vs.WaitIdle()
	if log.sorted() != "close 1,close 2,close 3,connect 1,connect 2,connect 3" {
		t.Fail("%s calls %s; in the end %s", where, call.name, log.sorted())
		return
	}
	if l := vs.LiveServerThreads(); len(l) > 0 || vs.ServerConns() > 0 {
		t.Fail("%s calls %s; in the end %d connections and goroutines %v remain", where, call.name, vs.ServerConns(), l)
	}
}
