package main

import (
	"fmt"
	"time"

	"github.com/fwhezfwhez/tcpx"
	"verifmc/vs"
)

// C13: heartbeat.  Virtual time; the reference is "three intervals after the
// last heartbeat, or after connecting".

const hbI = 8 * time.Second

func init() {
	register(&Prop{
		ID:          "C13",
		Assumptions: []string{"virtual time: running code takes no time, and a heartbeat never arrives in the same instant as the end of the third interval"},
		Scenarios: []*Scenario{
			{
				Name: "timelines", Desc: "per half interval a client sends nothing, a heartbeat, or an ordinary message; the connection is observed every quarter interval",
				N: n(len(c13vars), len(c13vars)), Run: func(t *T, cfg int) { c13time(t, cfg, map[string]int{"quick": 7, "thorough": 9}[t.tier]) },
				Label: func(c int) string { return c13vars[c] },
				Specs: specs([]Spec{{D: 0}}, pol(Spec{D: 0})),
			},
			{
				Name: "two", Desc: "two connections with every pair of short timelines",
				N: n(2, 2), Run: func(t *T, cfg int) { c13two(t, cfg) },
				Specs: specs([]Spec{{D: 0}}, pol(Spec{D: 1})),
			},
			{
				Name: "durations", Desc: "intervals from a microsecond to days, and extreme heartbeat ids: a silent connection and one that beats",
				N: n(len(c13durs)*len(c13ids), len(c13durs)*len(c13ids)), Run: c13dur,
				Label: func(c int) string { return fmt.Sprint(c13durs[c/len(c13ids)], ", id ", c13ids[c%len(c13ids)]) },
				Specs: specs(pol(Spec{D: 0}), pol(Spec{D: 1})),
			},
			{
				Name: "many", Desc: "hundreds of heartbeats, singly or in bursts, then silence", Steps: 3000000,
				N: n(3*len(c13vars), 3*len(c13vars)), Run: c13many,
				Label: func(c int) string {
					return fmt.Sprint(c13vars[c/3], ", ", []string{"singly", "bursts of 7", "one burst"}[c%3])
				},
				Specs: specs(pol(Spec{D: 0}), pol(Spec{D: 0}, Spec{D: 0, Fine: true})),
			},
			{
				Name: "same-instant", Desc: "heartbeats that arrive in the instant in which the first or second interval ends, then silence; all schedules",
				N: n(2*9, 2*9), Run: c13same,
				Label: func(c int) string { return fmt.Sprint("gaps ", 1+c%3, 1+c/3%3, ", variant ", c/9) },
				Specs: specs(pol(Spec{D: 2}), pol(Spec{D: 1, Fine: true, Shards: 4}, Spec{D: 3, Shards: 4})),
			},
			{
				Name: "schedules", Desc: "a burst of heartbeats on a new connection, then silence; all schedules",
				N: n(7, 7), Run: c13sched,
				Label: func(c int) string {
					return []string{"one heartbeat", "burst of 2", "burst of 4", "none", "one at once", "two at once", "burst of 4 and the client closes"}[c]
				},
				Specs: specs(pol(Spec{D: 1, Fine: true}, Spec{D: 2}), pol(Spec{D: 2, Fine: true, Shards: 8}, Spec{D: 3, Shards: 8})),
			},
		},
	})
}

var c13vars = []string{"default id", "custom id, through middleware", "rewritten handler", "rewritten handler, through middleware", "heartbeat and auth on", "no loss event", "pool, signals and a user name", "unix"}

type c13env struct {
	srv   *tcpx.TcpX
	hb    []byte
	loss  bag
	close bag
	mids  int
	beats int
	// hbs that must not count
	stale []byte
	auth  bool
	// where it listens; whether a loss event is set
	network, addr string
	noEvent       bool
}

// lost is what the loss events are to be.
func (e *c13env) lost(at time.Duration) string {
	if e.noEvent {
		return ""
	}
	return fmt.Sprintf("1@%v", at)
}

func newC13(v int) *c13env {
	e := &c13env{srv: newSrv(), network: "tcp", addr: addr}
	e.srv.UseGlobal(func(c *tcpx.Context) { e.mids++ })
	custom := func(c *tcpx.Context) {
		e.beats++
		c.RecvHeartBeat()
	}
	switch v {
	case 0:
		e.srv.HeartBeatMode(true, hbI)
		e.hb = tcpx.PackHeartbeat()
	case 1:
		e.srv.HeartBeatModeDetail(true, hbI, true, 44)
		e.hb = tcpx.PackStuff(44)
	case 2:
		e.srv.HeartBeatMode(true, hbI)
		e.srv.RewriteHeartBeatHandler(45, custom)
		e.hb = msg(45, "beat")
		e.stale = tcpx.PackHeartbeat()
	case 3:
		e.srv.HeartBeatModeDetail(true, hbI, true, 44)
		e.srv.RewriteHeartBeatHandler(45, custom)
		e.hb = msg(45, "beat")
		e.stale = tcpx.PackStuff(44)
	case 4:
		e.srv.HeartBeatMode(true, hbI)
		e.hb = tcpx.PackHeartbeat()
		e.srv.WithAuthDetail(true, 100*hbI, false, 60, func(c *tcpx.Context) { c.RecvAuthPass() })
		e.auth = true
	case 5:
		e.noEvent = true
		e.srv.HeartBeatMode(true, hbI)
		e.hb = tcpx.PackHeartbeat()
	case 6:
		e.srv.HeartBeatMode(true, hbI)
		e.hb = tcpx.PackHeartbeat()
		e.srv.WithBuiltInPool(true).WithBroadCastSignal(true)
	case 7:
		e.srv.HeartBeatMode(true, hbI)
		e.hb = tcpx.PackHeartbeat()
		e.network, e.addr = "unix", "/tmp/verif-never-created.sock"
	}
	name := func(c *tcpx.Context) string {
		v, _ := c.GetCtxPerConn("n")
		return fmt.Sprint(v)
	}
	e.srv.OnConnect = func(c *tcpx.Context) {
		k := connNum(c)
		c.SetCtxPerConn("n", k)
		if v == 6 {
			c.Online(fmt.Sprint("user", k))
		}
	}
	event := func(f func(*tcpx.Context)) {
		if !e.noEvent {
			e.srv.SetEventOnHeartbeatLoss(f)
		}
	}
	event(func(c *tcpx.Context) {
		e.loss.add("%s@%v", name(c), vs.Elapsed())
		if c.IsOffline() {
			e.loss.add("%s already closed", name(c))
		}
		if u := c.GetUsername(); v == 6 && (c.SendToUsername(u, 8, "lost too") != nil || u == "") {
			e.loss.add("cannot be sent to")
		}
		if c.Reply(8, "lost") != nil {
			e.loss.add("cannot reply")
		}
	})
	e.srv.OnClose = func(c *tcpx.Context) { e.close.add("%s", name(c)) }
	e.srv.AddHandler(1, func(c *tcpx.Context) { c.JSON(2, bodyOf(c)) })
	return e
}

var c13durs = []time.Duration{time.Microsecond, time.Millisecond, 999 * time.Millisecond, 1500 * time.Millisecond, 59 * time.Second, 3*time.Minute + 7*time.Millisecond, 5 * time.Hour, 100 * time.Hour}
var c13ids = []int32{tcpx.DEFAULT_HEARTBEAT_MESSAGEID, 0, -1, 1, 1392, 65536 + 7, 1<<31 - 1, -1 << 31}

func c13dur(t *T, cfg int) {
	d, id := c13durs[cfg/len(c13ids)], c13ids[cfg%len(c13ids)]
	srv := newSrv()
	srv.HeartBeatModeDetail(true, d, cfg%2 == 1, id)
	var lost, closed bag
	srv.OnConnect = func(c *tcpx.Context) { c.SetCtxPerConn("n", connNum(c)) }
	srv.SetEventOnHeartbeatLoss(func(c *tcpx.Context) { v, _ := c.GetCtxPerConn("n"); lost.add("%v", v) })
	srv.OnClose = func(c *tcpx.Context) { v, _ := c.GetCtxPerConn("n"); closed.add("%v", v) }
	serve(srv, "tcp", addr)
	silent := dial("tcp", addr)
	vs.WaitIdle()
	beats := dial("tcp", addr)
	vs.WaitIdle()
	look := func(dead, dead2 bool) bool {
		vs.WaitIdle()
		if silent.Peer().IsClosed() != dead || beats.Peer().IsClosed() != dead2 {
			t.Fail("interval %v, id %d, after %v: the silent connection is closed: %v, the one that beat %v", d, id, vs.Elapsed(), silent.Peer().IsClosed(), beats.Peer().IsClosed())
			return false
		}
		want := ""
		if dead {
			want = "1"
		}
		if dead2 {
			want = "1,2"
		}
		if lost.seq() != want || closed.seq() != want {
			t.Fail("interval %v, id %d, after %v: loss reported for %s, OnClose for %s", d, id, vs.Elapsed(), lost.seq(), closed.seq())
			return false
		}
		return true
	}
	start := vs.Elapsed()
	for i := 0; i < 8; i++ {
		vs.Sleep(d*3/4 - 1)
		if !look(vs.Elapsed()-start >= 3*d, false) {
			return
		}
		beats.Write(tcpx.PackStuff(id))
		vs.Sleep(1)
		if !look(vs.Elapsed()-start >= 3*d, false) {
			return
		}
	}
	last := vs.Elapsed() - 1
	vs.Sleep(3*d - 2)
	if !look(true, false) {
		return
	}
	vs.Sleep(1)
	if !look(true, true) {
		return
	}
	t.Outcome("%v", vs.Elapsed()-last == 3*d)
}

func c13time(t *T, v, slots int) {
	e := newC13(v)
	serve(e.srv, e.network, e.addr)
	c := dial(e.network, e.addr)
	vs.WaitIdle()
	if e.auth {
		c.Write(msg(60, "a"))
		vs.WaitIdle()
	}
	last := time.Duration(0)
	var desc []string
	sent := 0
	closedAt := time.Duration(-1)
	for s := 0; closedAt < 0; s++ {
		// quarter 1: act
		vs.Sleep(hbI / 4)
		vs.WaitIdle()
		if !c13obs(t, c, last, desc, &closedAt) {
			return
		}
		if closedAt >= 0 {
			break
		}
		if s < slots {
			switch a := vs.Choose(3); a {
			case 1:
				c.Write(e.hb)
				sent++
				last = vs.Elapsed()
				desc = append(desc, "hb")
			case 2:
				desc = append(desc, "msg")
				c.Write(msg(1, "x"))
				if e.stale != nil {
					c.Write(e.stale)
				}
			default:
				desc = append(desc, "-")
			}
			vs.WaitIdle()
		}
		vs.Sleep(hbI / 4)
		vs.WaitIdle()
		if !c13obs(t, c, last, desc, &closedAt) {
			return
		}
	}
	vs.Sleep(10 * hbI)
	vs.WaitIdle()
	t.Outcome("%v closed %v", desc, closedAt)
	if want := e.lost(last + 3*hbI); e.loss.seq() != want {
		t.Fail("timeline %v: heartbeat-loss event %q, want %q", desc, e.loss.seq(), want)
		return
	}
	if e.close.seq() != "1" {
		t.Fail("timeline %v: OnClose %q", desc, e.close.seq())
		return
	}
	fs, _ := replies(c)
	if !e.noEvent && (len(fs) == 0 || fs[len(fs)-1].Str() != "lost") {
		t.Fail("timeline %v: the heartbeat-loss handler could not reach its client: %v", desc, strs(fs))
		return
	}
	if (v == 2 || v == 3) && e.beats != sent {
		t.Fail("the rewritten heartbeat handler ran %d times for %d heartbeats", e.beats, sent)
		return
	}
	if l := vs.LiveServerThreads(); len(l) > 0 {
		t.Fail("goroutines remain: %v", l)
	}
}

// c13same: gaps in halves of an interval times 2: 1 and 2 are whole intervals
// (the instant of a tick), 3 is one and a half.
func c13same(t *T, cfg int) {
	e := newC13([]int{0, 2}[cfg/9])
	serve(e.srv, e.network, e.addr)
	c := dial(e.network, e.addr)
	vs.WaitIdle()
	last := vs.Elapsed()
	gaps := []time.Duration{hbI, 2 * hbI, hbI * 3 / 2}
	for _, g := range []time.Duration{gaps[cfg%3], gaps[cfg/3%3]} {
		vs.Sleep(g)
		c.Write(e.hb)
		last = vs.Elapsed()
		vs.WaitIdle()
	}
	vs.Sleep(last + 3*hbI - 1 - vs.Elapsed())
	vs.WaitIdle()
	if c.Peer().IsClosed() || len(e.loss.l) > 0 {
		t.Fail("closed %v before three intervals since the last heartbeat", last+3*hbI-vs.Elapsed())
		return
	}
	vs.Sleep(1)
	vs.WaitIdle()
	if want := e.lost(last + 3*hbI); e.loss.seq() != want || e.close.seq() != "1" || !c.Peer().IsClosed() {
		t.Fail("three intervals after the last heartbeat: heartbeat-loss event %q, want %q, OnClose %q, closed %v", e.loss.seq(), want, e.close.seq(), c.Peer().IsClosed())
	}
}

func c13many(t *T, cfg int) {
	e := newC13(cfg / 3)
	serve(e.srv, e.network, e.addr)
	c := dial(e.network, e.addr)
	vs.WaitIdle()
	if e.auth {
		c.Write(msg(60, "a"))
	}
	rounds, burst := 600, 1
	switch cfg % 3 {
	case 1:
		rounds, burst = 90, 7
	case 2:
		rounds, burst = 1, 400
	}
	for i := 0; i < rounds; i++ {
		vs.Sleep(hbI*time.Duration(i%5)/2 + hbI/4)
		vs.WaitIdle()
		if c.PeerClosed() {
			t.Fail("closed after %d heartbeats in time", i*burst)
			return
		}
		for k := 0; k < burst; k++ {
			c.Write(e.hb)
		}
		vs.WaitIdle()
	}
	last := vs.Elapsed()
	vs.Sleep(3*hbI - 1)
	vs.WaitIdle()
	if c.PeerClosed() || len(e.loss.l) > 0 {
		t.Fail("closed: %v, loss events %v, just before three intervals after the last of %d heartbeats", c.PeerClosed(), e.loss.l, rounds*burst)
		return
	}
	vs.Sleep(1)
	vs.WaitIdle()
	t.Outcome("%s", e.loss.seq())
	if !c.PeerClosed() || e.loss.seq() != e.lost(last+3*hbI) || e.close.seq() != "1" {
		t.Fail("three intervals after the last of %d heartbeats: closed %v, loss event %q, OnClose %q", rounds*burst, c.PeerClosed(), e.loss.seq(), e.close.seq())
	}
}

// c13obs compares the state of the connection with the reference at this time.
func c13obs(t *T, c *vs.VConn, last time.Duration, desc []string, closedAt *time.Duration) bool {
	now := vs.Elapsed()
	dead := now >= last+3*hbI
	if c.PeerClosed() != dead {
		t.Fail("timeline %v: %v after the last heartbeat (interval %v) the connection is closed: %v", desc, now-last, hbI, c.PeerClosed())
		return false
	}
	if dead {
		*closedAt = now
	}
	return true
}

func c13two(t *T, cfg int) {
	e := newC13(cfg)
	serve(e.srv, e.network, e.addr)
	cs := []*vs.VConn{dial(e.network, e.addr), nil}
	vs.WaitIdle()
	vs.Sleep(hbI / 4)
	cs[1] = dial(e.network, e.addr)
	vs.WaitIdle()
	last := []time.Duration{0, hbI / 4}
	closed := []bool{false, false}
	var desc []string
	obs := func() bool {
		vs.WaitIdle()
		now := vs.Elapsed()
		for i, c := range cs {
			closed[i] = now >= last[i]+3*hbI
			if c.PeerClosed() != closed[i] {
				t.Fail("heartbeats %v: at %v connection %d (last heartbeat %v) is closed: %v", desc, now, i, last[i], c.PeerClosed())
				return false
			}
		}
		return true
	}
	for s := 0; s < 40 && !(closed[0] && closed[1]); s++ {
		for i := range cs {
			vs.Sleep(hbI * 9 / 20)
			if !obs() {
				return
			}
			if s < 5 && !closed[i] && vs.Choose(2) == 1 {
				cs[i].Write(e.hb)
				last[i] = vs.Elapsed()
				desc = append(desc, fmt.Sprintf("%d@%v", i, last[i]))
				vs.WaitIdle()
			}
		}
	}
	t.Outcome("%v", e.loss.seq())
	if len(e.loss.l) != 2 {
		t.Fail("heartbeats %v: loss events %v", desc, e.loss.l)
	}
}

func c13sched(t *T, cfg int) {
	e := newC13(0)
	serve(e.srv, e.network, e.addr)
	nb := []int{1, 2, 4, 0, 1, 2, 4}[cfg]
	var at time.Duration
	before := 1 << 30
	c := dial(e.network, e.addr)
	if nb > 0 {
		if cfg < 4 {
			vs.Sleep(hbI / 2)
			vs.WaitIdle()
			before = len(vs.LiveServerThreads())
		}
		var b []byte
		for i := 0; i < nb; i++ {
			b = append(b, e.hb...)
		}
		at = vs.Elapsed()
		c.Write(b)
		if cfg == 6 {
			c.Close()
			vs.WaitIdle()
			vs.Sleep(5 * hbI)
			vs.WaitIdle()
			if l := vs.LiveServerThreads(); len(l) > 0 {
				t.Fail("the client is gone but goroutines remain: %v", l)
			}
			if len(e.loss.l) > 0 || e.close.seq() != "1" {
				t.Fail("the client closed: loss events %v, OnClose %v", e.loss.l, e.close.l)
			}
			return
		}
	}
	vs.WaitIdle()
	vs.Sleep(3*hbI - 1)
	vs.WaitIdle()
	if c.PeerClosed() {
		t.Fail("closed before three intervals had passed since the last heartbeat")
		return
	}
	if l := vs.LiveServerThreads(); len(l) > before {
		t.Fail("a heartbeat handler is stuck: %v", l)
		return
	}
	vs.Sleep(1)
	vs.WaitIdle()
	t.Outcome("%s", e.loss.seq())
	if !c.PeerClosed() || e.loss.seq() != e.lost(at+3*hbI) || e.close.seq() != "1" {
		t.Fail("three intervals after the last heartbeat: closed %v, loss event %q, OnClose %q", c.PeerClosed(), e.loss.seq(), e.close.seq())
	}
}
