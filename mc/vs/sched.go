// Package vs is the controlled scheduler of the model checker: it owns every
// source of nondeterminism of the instrumented code (goroutine interleaving,
// channel and select choice, mutexes, time, network) and lets an explorer
// enumerate the executions.
//
// Exactly one virtual thread runs at any time.  Every function of this package
// is //go:norace and avoids maps and append on shared data, so that in -race
// builds the scheduler's own hand-offs are invisible to the race detector and
// only the happens-before edges of the code under test remain.
package vs

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"
)

const (
	maxThreads = 1 << 15 // created during one execution
	maxTrace   = 1 << 19
)

// Kinds of choice points.
const (
	KThread byte = 't' // which enabled thread runs next
	KSelect byte = 's' // which ready select case is taken
	KRead   byte = 'r' // how many bytes a read returns
	KData   byte = 'd' // data choice of the harness
	KTime   byte = 'c' // let the clock run although threads are enabled
)

// Choice is one recorded decision.
type Choice struct {
	N    int32
	Pick int32
	Kind byte
	Free bool
}

// Thread is a virtual thread.
type Thread struct {
	id        int
	Name      string
	wake      chan struct{}
	ready     func() bool
	done      bool
	started   bool
	idle      bool
	h         uint64
	what      string
	waits     [8]waitCase
	nwaits    int
	completed bool
	slotVal   any
	slotOK    bool
	slotCase  int
	server    bool // spawned by code under test
}

// Outcome of one execution.
type Outcome struct {
	Kind   string // "ok", "deadlock", "livelock", "crash", "exit"
	Detail string
}

// Config of an execution.
type Config struct {
	Prefix   []int32
	Fine     bool // yield at every statement of the code under test
	Policy   int  // 0: round robin ascending, 1: newest thread first
	MaxSteps int
	Seg      bool // reads may return short
	TimeDev  bool // clock may advance while threads are enabled (costs a deviation)
	Verbose  bool
}

// Exec is one controlled execution.
type Exec struct {
	epoch   uint64
	cfg     Config
	threads []*Thread // not finished, by id
	en      []*Thread // scratch
	nth     int       // len of threads in use
	nid     int       // threads created
	dsum    uint64    // state hash of the finished threads
	cur     *Thread
	trace   []Choice
	ntrace  int
	steps   int
	killing bool
	syncing bool
	tok     byte
	over    bool
	fin     chan struct{}
	ack     chan struct{}
	now     int64
	timers  *timer
	tseq    int
	out     Outcome
	objs    [1024]*obj
	nobj    uint64
	keys    map[uintptr]weakKey
	nkey    uint64
	net     netState
	sigs    *sigReg
	Exited  bool
	ExitC   int
	maxNow  int64
	diverge bool
	log     []string
	nlog    int
}

var (
	x       *Exec
	epochs  uint64
	traceBf [maxTrace]Choice
	// States is the set of distinct happens-before hashes seen.
	States stateSet
	// Transitions counts schedule points executed.
	Transitions uint64
)

// Active reports whether an execution is being controlled.
//
//go:norace
func Active() bool { return x != nil }

// Killing reports whether the execution is being torn down; harness callbacks
// that run from deferred code must not record anything then.
//
//go:norace
func Killing() bool { return x == nil || x.killing }

type obj struct {
	p    unsafe.Pointer
	id   uint64
	n    uint64
	next *obj
	clsd bool
}

//go:norace
func (e *Exec) obj(p unsafe.Pointer) *obj {
	b := (uintptr(p) >> 4) ^ (uintptr(p) >> 14)
	b %= uintptr(len(e.objs))
	for o := e.objs[b]; o != nil; o = o.next {
		if o.p == p {
			return o
		}
	}
	e.nobj++
	o := &obj{p: p, id: e.nobj, next: e.objs[b]}
	e.objs[b] = o
	return o
}

//go:norace
func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

//go:norace
func (e *Exec) touch(p unsafe.Pointer, kind uint64) {
	o := e.obj(p)
	o.n++
	t := e.cur
	t.h = mix(mix(mix(t.h, kind), o.id), o.n)
}

//go:norace
func (e *Exec) noteState() {
	s := e.dsum
	for i := 0; i < e.nth; i++ {
		t := e.threads[i]
		v := t.h
		if t.done {
			v = mix(v, 77)
		}
		s += mix(v, uint64(t.id)+1)
	}
	States.add(s)
	Transitions++
}

// Run executes fn as thread 0 under the given configuration and returns the
// outcome together with the recorded choices.
//
//go:norace
func Run(cfg Config, fn func()) (Outcome, []Choice, bool) {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 20000
	}
	epochs++
	e := &Exec{epoch: epochs, cfg: cfg, fin: make(chan struct{}, 1), ack: make(chan struct{}, 1)}
	e.trace = traceBf[:]
	x = e
	t := e.newThread("main")
	e.cur = t
	e.start(t, fn)
	raceDisable()
	t.wake <- struct{}{}
	<-e.fin
	raceEnable()
	e.killing = true
	if RaceBuild {
		// order everything that happened before the tear-down
		e.syncing = true
		for i := 0; i < e.nth; i++ {
			th := e.threads[i]
			if th.done || !th.started {
				continue
			}
			raceDisable()
			th.wake <- struct{}{}
			<-e.ack
			raceEnable()
		}
		e.syncing = false
	}
	for i := 0; i < e.nth; i++ {
		th := e.threads[i]
		if th.done {
			continue
		}
		e.cur = th
		raceDisable()
		th.wake <- struct{}{}
		<-e.ack
		raceEnable()
	}
	raceAcquire(unsafe.Pointer(&e.tok))
	x = nil
	tr := make([]Choice, e.ntrace)
	for i := 0; i < e.ntrace; i++ {
		tr[i] = e.trace[i]
	}
	return e.out, tr, e.diverge
}

//go:norace
func (e *Exec) newThread(name string) *Thread {
	t := &Thread{id: e.nid, Name: name, wake: make(chan struct{}, 1)}
	if e.nid >= maxThreads {
		e.finish("livelock", "too many goroutines")
		e.parkDead()
	}
	if e.nth == len(e.threads) {
		l := make([]*Thread, 2*e.nth+32)
		for i := 0; i < e.nth; i++ {
			l[i] = e.threads[i]
		}
		e.threads = l
		e.en = make([]*Thread, len(l))
	}
	e.threads[e.nth] = t
	e.nth++
	e.nid++
	return t
}

// retire takes a finished thread off the list.
//
//go:norace
func (e *Exec) retire(t *Thread) {
	for i := 0; i < e.nth; i++ {
		if e.threads[i] == t {
			e.dsum += mix(mix(t.h, 77), uint64(t.id)+1)
			for k := i + 1; k < e.nth; k++ {
				e.threads[k-1] = e.threads[k]
			}
			e.nth--
			e.threads[e.nth] = nil
			return
		}
	}
}

//go:norace
func (e *Exec) start(t *Thread, fn func()) {
	go func() {
		raceDisable()
		<-t.wake
		raceEnable()
		t.started = true
		e.body(t, fn)
	}()
}

//go:norace
func (e *Exec) body(t *Thread, fn func()) {
	ok := false
	defer func() {
		if !ok && !e.killing {
			if r := recover(); r != nil {
				t.done = true
				raceReleaseMerge(unsafe.Pointer(&e.tok))
				e.finish("crash", fmt.Sprintf("uncaught panic in goroutine %s: %v\n%s", t.Name, r, trimStack(debug.Stack())))
				return
			}
			// Goexit outside kill mode: thread simply ends
		} else if e.killing {
			recover()
		}
		t.done = true
		raceReleaseMerge(unsafe.Pointer(&e.tok))
		if e.killing {
			raceDisable()
			e.ack <- struct{}{}
			raceEnable()
			return
		}
		if t.id == 0 {
			e.finish("ok", "")
			return
		}
		if e.over {
			return
		}
		e.retire(t)
		nxt := e.pick(t)
		if nxt == nil {
			e.deadlock()
			return
		}
		e.cur = nxt
		raceDisable()
		nxt.wake <- struct{}{}
		raceEnable()
	}()
	if e.killing {
		ok = true
		return
	}
	t.ready = nil
	fn()
	ok = true
}

//go:norace
func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "tcpx") || strings.Contains(l, "harness") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

//go:norace
func (e *Exec) finish(kind, detail string) {
	if e.over {
		return
	}
	e.over = true
	e.out = Outcome{kind, detail}
	raceDisable()
	e.fin <- struct{}{}
	raceEnable()
}

//go:norace
func (e *Exec) parkDead() {
	t := e.cur
	e.wait(t)
	runtime.Goexit()
}

// wait parks the calling thread until it is woken.
//
//go:norace
func (e *Exec) wait(t *Thread) {
	raceDisable()
	<-t.wake
	raceEnable()
	if RaceBuild {
		if e.syncing {
			raceReleaseMerge(unsafe.Pointer(&e.tok))
			raceDisable()
			e.ack <- struct{}{}
			<-t.wake
			raceEnable()
		}
		if e.killing {
			raceAcquire(unsafe.Pointer(&e.tok))
		}
	}
}

//go:norace
func (e *Exec) deadlock() { e.finish("deadlock", e.Dump()) }

// Dump lists unfinished threads and what they wait for.
//
//go:norace
func (e *Exec) Dump() string {
	var s []string
	for i := 0; i < e.nth; i++ {
		t := e.threads[i]
		if !t.done {
			if len(s) == 40 {
				s = append(s, fmt.Sprintf("%d more", e.nth-i))
				break
			}
			s = append(s, fmt.Sprintf("%s: %s", t.Name, t.what))
		}
	}
	return strings.Join(s, "; ")
}

//go:norace
func (e *Exec) choose(n int, kind byte, free bool) int {
	if n <= 1 {
		return 0
	}
	p := 0
	if e.ntrace < len(e.cfg.Prefix) {
		p = int(e.cfg.Prefix[e.ntrace])
		if p >= n || p < 0 {
			e.diverge = true
			p = 0
		}
	}
	if e.ntrace >= maxTrace {
		e.finish("livelock", "trace overflow")
		e.parkDead()
	}
	e.trace[e.ntrace] = Choice{N: int32(n), Pick: int32(p), Kind: kind, Free: free}
	e.ntrace++
	return p
}

// Choose is a data choice of the harness, explored exhaustively at no cost.
//
//go:norace
func Choose(n int) int {
	if x == nil || x.killing {
		return 0
	}
	p := x.choose(n, KData, true)
	x.cur.h = mix(x.cur.h, uint64(p)+1000)
	return p
}

// ChooseDev is a choice whose non-default answers cost one deviation.
//
//go:norace
func ChooseDev(n int) int {
	if x == nil || x.killing {
		return 0
	}
	p := x.choose(n, KData, false)
	x.cur.h = mix(x.cur.h, uint64(p)+2000)
	return p
}

//go:norace
func (t *Thread) enabled() bool {
	if t.done || t.idle {
		return false
	}
	if t.completed {
		return true
	}
	return t.ready == nil || t.ready()
}

// pick selects the next thread to run; cur is the thread at its schedule point
// (possibly done).
//
//go:norace
func (e *Exec) pick(cur *Thread) *Thread {
	en := e.en
	for {
		n := 0
		if cur != nil && cur.enabled() {
			en[0] = cur
			n = 1
		}
		base := 0
		if cur != nil {
			base = cur.id
		}
		if e.cfg.Policy == 0 {
			// by id from base on, wrapping around
			for k := 0; k < e.nth; k++ {
				if t := e.threads[k]; t.id > base && t != cur && t.enabled() {
					en[n] = t
					n++
				}
			}
			for k := 0; k < e.nth; k++ {
				if t := e.threads[k]; t.id <= base && t != cur && t.enabled() {
					en[n] = t
					n++
				}
			}
		} else {
			for k := e.nth - 1; k >= 0; k-- {
				t := e.threads[k]
				if t != cur && t.enabled() {
					en[n] = t
					n++
				}
			}
		}
		if n > 0 {
			opts := n
			tdev := e.cfg.TimeDev && e.timers != nil
			if tdev {
				opts++
			}
			c := e.choose(opts, KThread, false)
			if c == n {
				e.advance()
				continue
			}
			return en[c]
		}
		// nobody can run: fire timers that are due, else wake an idle waiter,
		// else let time pass
		if e.timers != nil && e.timers.when <= e.now && e.advance() {
			continue
		}
		for i := 0; i < e.nth; i++ {
			t := e.threads[i]
			if !t.done && t.idle {
				t.idle = false
				return t
			}
		}
		if !e.advance() {
			return nil
		}
	}
}

// point is the schedule point: the current thread wants to perform an
// operation that is enabled when ready() holds.
//
//go:norace
func point(what string, ready func() bool) {
	e := x
	if e == nil {
		return
	}
	t := e.cur
	if e.killing {
		if ready != nil {
			runtime.Goexit()
		}
		return
	}
	e.steps++
	if e.steps > e.cfg.MaxSteps {
		e.finish("livelock", "step limit: "+e.Dump()+"; running "+t.Name+" at "+what)
		e.parkDead()
	}
	t.ready = ready
	t.what = what
	e.noteState()
	nxt := e.pick(t)
	if nxt == t {
		t.ready = nil
		return
	}
	if nxt == nil {
		e.deadlock()
		e.parkDead()
		return
	}
	e.cur = nxt
	raceDisable()
	nxt.wake <- struct{}{}
	raceEnable()
	e.wait(t)
	t.ready = nil
	if e.killing {
		runtime.Goexit()
	}
}

// Yield is an unconditional schedule point.
//
//go:norace
func Yield() { point("yield", nil) }

// P is the statement boundary inserted by the instrumenter (fine mode only).
//
//go:norace
func P() {
	if x != nil && x.cfg.Fine && !x.killing {
		point("stmt", nil)
	}
}

// PA is inserted before statements that touch sync/atomic.
//
//go:norace
func PA() {
	if x != nil && !x.killing {
		point("atomic", nil)
	}
}

// L is inserted at the start of every loop body: bounds runaway loops.
//
//go:norace
func L() {
	e := x
	if e == nil {
		return
	}
	if e.killing {
		e.steps++
		if e.steps > e.cfg.MaxSteps+100000 {
			runtime.Goexit()
		}
		return
	}
	e.steps++
	if e.steps > e.cfg.MaxSteps {
		e.finish("livelock", "step limit in loop: "+e.Dump()+"; running "+e.cur.Name)
		e.parkDead()
	}
}

// Go starts fn as a new virtual thread.
//
//go:norace
func Go(fn func()) { GoNamed("", fn) }

// GoNamed starts fn as a named virtual thread of the harness.
//
//go:norace
func GoNamed(name string, fn func()) {
	e := x
	if e == nil {
		panic("vs: go statement outside a controlled execution")
	}
	if e.killing {
		return
	}
	srv := name == ""
	if srv {
		name = callerName()
	}
	t := e.newThread(fmt.Sprintf("%s#%d", name, e.nid))
	t.server = srv
	t.h = mix(e.cur.h, uint64(e.nid))
	e.cur.h = mix(e.cur.h, 3)
	e.start(t, fn)
	point("go", nil)
}

//go:norace
func callerName() string {
	pc, _, line, ok := runtime.Caller(3)
	if !ok {
		return "go"
	}
	f := runtime.FuncForPC(pc)
	if f == nil {
		return "go"
	}
	n := f.Name()
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	return fmt.Sprintf("%s:%d", n, line)
}

// WaitIdle blocks the harness until no thread can run at the current time.
//
//go:norace
func WaitIdle() {
	e := x
	if e == nil || e.killing {
		return
	}
	t := e.cur
	t.idle = true
	t.what = "wait idle"
	nxt := e.pick(nil2(t))
	if nxt == t {
		return
	}
	e.cur = nxt
	raceDisable()
	nxt.wake <- struct{}{}
	raceEnable()
	e.wait(t)
	if e.killing {
		runtime.Goexit()
	}
}

//go:norace
func nil2(t *Thread) *Thread { return t }

// WaitUntil blocks the calling harness thread until cond holds.
//
//go:norace
func WaitUntil(what string, cond func() bool) { point(what, cond) }

// LiveServerThreads lists goroutines started by the code under test that have
// not finished.
//
//go:norace
func LiveServerThreads() []string {
	var s []string
	if x == nil {
		return nil
	}
	for i := 0; i < x.nth; i++ {
		t := x.threads[i]
		if !t.done && t.server {
			s = append(s, t.Name+" ("+t.what+")")
		}
	}
	return s
}

// DumpAll describes every unfinished thread.
//
//go:norace
func DumpAll() string {
	if x == nil {
		return ""
	}
	return x.Dump()
}

// ---- time ----

type timer struct {
	when int64
	seq  int
	fn   func()
	next *timer
	dead bool
}

//go:norace
func (e *Exec) addTimer(d int64, fn func()) *timer {
	if d < 0 {
		d = 0
	}
	e.tseq++
	t := &timer{when: e.now + d, seq: e.tseq, fn: fn}
	pp := &e.timers
	for *pp != nil && ((*pp).when < t.when || ((*pp).when == t.when)) {
		pp = &(*pp).next
	}
	t.next = *pp
	*pp = t
	return t
}

//go:norace
func (e *Exec) delTimer(t *timer) bool {
	for pp := &e.timers; *pp != nil; pp = &(*pp).next {
		if *pp == t {
			*pp = t.next
			return true
		}
	}
	return false
}

// advance moves the clock to the next timer and fires all timers due then.
//
//go:norace
func (e *Exec) advance() bool {
	if e.timers == nil {
		return false
	}
	w := e.timers.when
	if w > e.now {
		e.now = w
	}
	if e.now > int64(1000*time.Hour) {
		return false
	}
	e.steps++
	if e.steps > e.cfg.MaxSteps {
		return false
	}
	for e.timers != nil && e.timers.when <= e.now {
		t := e.timers
		e.timers = t.next
		if t.fn != nil {
			t.fn()
		}
	}
	return true
}

var epochTime = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)

// Now is the virtual clock.
//
//go:norace
func Now() time.Time {
	if x == nil {
		return epochTime
	}
	return epochTime.Add(time.Duration(x.now))
}

// Elapsed is the virtual time since the start of the execution.
//
//go:norace
func Elapsed() time.Duration {
	if x == nil {
		return 0
	}
	return time.Duration(x.now)
}

//go:norace
func Since(t time.Time) time.Duration { return Now().Sub(t) }

//go:norace
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

//go:norace
func Sleep(d time.Duration) {
	e := x
	if e == nil {
		return
	}
	if e.killing {
		return
	}
	if d <= 0 {
		point("sleep0", nil)
		return
	}
	done := false
	e.addTimer(int64(d), func() { done = true })
	point("sleep", func() bool { return done })
}

//go:norace
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Timer mirrors time.Timer.
type Timer struct {
	C <-chan time.Time
	c chan time.Time
	t *timer
	f func()
}

//go:norace
func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	tm := &Timer{C: c, c: c}
	tm.arm(d)
	return tm
}

//go:norace
func (tm *Timer) arm(d time.Duration) {
	if x == nil || x.killing {
		return
	}
	e := x
	if tm.f != nil {
		raceReleaseMerge(unsafe.Pointer(tm)) // arming happens before the call
	}
	tm.t = e.addTimer(int64(d), func() {
		tm.t = nil
		if tm.f != nil {
			th := e.newThread("timerfunc")
			th.server = true
			e.start(th, tm.call)
			return
		}
		raceDisable()
		select {
		case tm.c <- Now():
		default:
		}
		raceEnable()
	})
}

//go:norace
func (tm *Timer) call() {
	raceAcquire(unsafe.Pointer(tm))
	tm.f()
}

//go:norace
func (tm *Timer) Stop() bool {
	if x == nil || tm.t == nil {
		return false
	}
	r := x.delTimer(tm.t)
	tm.t = nil
	return r
}

//go:norace
func (tm *Timer) Reset(d time.Duration) bool {
	// the module's go version (< 1.23) selects the asynchronous timer channels:
	// a value that was sent and not received stays
	r := tm.Stop()
	tm.arm(d)
	return r
}

//go:norace
func AfterFunc(d time.Duration, f func()) *Timer {
	tm := &Timer{f: f}
	tm.arm(d)
	return tm
}

// Ticker mirrors time.Ticker.
type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	d time.Duration
	t *timer
}

//go:norace
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	tk := &Ticker{C: c, c: c, d: d}
	tk.arm()
	return tk
}

//go:norace
func (tk *Ticker) arm() {
	if x == nil || x.killing {
		return
	}
	e := x
	tk.t = e.addTimer(int64(tk.d), func() {
		raceDisable()
		select {
		case tk.c <- Now():
		default:
		}
		raceEnable()
		tk.arm()
	})
}

//go:norace
func (tk *Ticker) Stop() {
	if x != nil && tk.t != nil {
		x.delTimer(tk.t)
		tk.t = nil
	}
}

//go:norace
func (tk *Ticker) Reset(d time.Duration) { tk.Stop(); tk.d = d; tk.arm() }

//go:norace
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

// ---- distinct state set ----

type stateSet struct {
	tab  []uint64
	n    int
	Full bool
}

//go:norace
func (s *stateSet) add(h uint64) {
	if h == 0 {
		h = 1
	}
	if s.tab == nil {
		s.tab = make([]uint64, 1<<16)
	}
	if s.n*2 > len(s.tab) {
		if len(s.tab) >= 1<<23 {
			s.Full = true
			return
		}
		old := s.tab
		s.tab = make([]uint64, len(old)*2)
		s.n = 0
		for _, v := range old {
			if v != 0 {
				s.ins(v)
			}
		}
	}
	s.ins(h)
}

//go:norace
func (s *stateSet) ins(h uint64) {
	m := uint64(len(s.tab) - 1)
	for i := h & m; ; i = (i + 1) & m {
		if s.tab[i] == h {
			return
		}
		if s.tab[i] == 0 {
			s.tab[i] = h
			s.n++
			return
		}
	}
}

// Len is the number of distinct states.
//
//go:norace
func (s *stateSet) Len() int { return s.n }

var pubTok byte

// Pub and Sub order harness accesses for the race detector: an application
// that hands a context from one goroutine to another synchronises on its own.
//
//go:norace
func Pub() { raceReleaseMerge(unsafe.Pointer(&pubTok)) }

// Sub see Pub.
//
//go:norace
func Sub() { raceAcquire(unsafe.Pointer(&pubTok)) }
