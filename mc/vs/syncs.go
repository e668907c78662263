package vs

import (
	"fmt"
	"os"
	"sort"
	"sync"
	"unsafe"
)

// Locker mirrors sync.Locker.
type Locker = sync.Locker

// Mutex mirrors sync.Mutex.
type Mutex struct {
	ep     uint64
	locked bool
}

//go:norace
func (m *Mutex) fresh() bool {
	if x == nil {
		return false
	}
	if m.ep != x.epoch {
		m.ep = x.epoch
		m.locked = false
	}
	return true
}

//go:norace
func (m *Mutex) Lock() {
	if !m.fresh() || x.killing {
		return
	}
	point("mutex lock", func() bool { return !m.locked })
	m.locked = true
	x.touch(unsafe.Pointer(m), 21)
	raceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	if !m.fresh() || x.killing {
		return true
	}
	point("mutex trylock", nil)
	if m.locked {
		return false
	}
	m.locked = true
	x.touch(unsafe.Pointer(m), 21)
	raceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.fresh() || x.killing {
		return
	}
	if !m.locked {
		fatal("sync: unlock of unlocked mutex")
	}
	raceRelease(unsafe.Pointer(m))
	m.locked = false
	x.touch(unsafe.Pointer(m), 22)
	point("mutex unlock", nil)
}

//go:norace
func fatal(msg string) {
	e := x
	e.finish("crash", "fatal error: "+msg+" in "+e.cur.Name)
	e.parkDead()
}

// RWMutex mirrors sync.RWMutex including writer preference.
type RWMutex struct {
	ep      uint64
	writer  bool // held or pending
	held    bool
	readers int
	a, b    byte
}

//go:norace
func (m *RWMutex) fresh() bool {
	if x == nil {
		return false
	}
	if m.ep != x.epoch {
		*m = RWMutex{ep: x.epoch}
	}
	return true
}

//go:norace
func (m *RWMutex) Lock() {
	if !m.fresh() || x.killing {
		return
	}
	point("rwmutex lock", func() bool { return !m.writer })
	m.writer = true
	x.touch(unsafe.Pointer(m), 23)
	if m.readers > 0 {
		point("rwmutex lock (readers active)", func() bool { return m.readers == 0 })
	}
	m.held = true
	raceAcquire(unsafe.Pointer(&m.a))
	raceAcquire(unsafe.Pointer(&m.b))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if !m.fresh() || x.killing {
		return true
	}
	point("rwmutex trylock", nil)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer, m.held = true, true
	x.touch(unsafe.Pointer(m), 23)
	raceAcquire(unsafe.Pointer(&m.a))
	raceAcquire(unsafe.Pointer(&m.b))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.fresh() || x.killing {
		return
	}
	if !m.held {
		fatal("sync: Unlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(&m.a))
	m.held = false
	m.writer = false
	x.touch(unsafe.Pointer(m), 24)
	point("rwmutex unlock", nil)
}

//go:norace
func (m *RWMutex) RLock() {
	if !m.fresh() || x.killing {
		return
	}
	point("rwmutex rlock", func() bool { return !m.writer })
	m.readers++
	x.touch(unsafe.Pointer(m), 25)
	raceAcquire(unsafe.Pointer(&m.a))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if !m.fresh() || x.killing {
		return true
	}
	point("rwmutex tryrlock", nil)
	if m.writer {
		return false
	}
	m.readers++
	x.touch(unsafe.Pointer(m), 25)
	raceAcquire(unsafe.Pointer(&m.a))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if !m.fresh() || x.killing {
		return
	}
	if m.readers <= 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
	}
	raceReleaseMerge(unsafe.Pointer(&m.b))
	m.readers--
	x.touch(unsafe.Pointer(m), 26)
	point("rwmutex runlock", nil)
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker mirrors sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup mirrors sync.WaitGroup.
type WaitGroup struct {
	ep uint64
	n  int
}

//go:norace
func (w *WaitGroup) fresh() bool {
	if x == nil {
		return false
	}
	if w.ep != x.epoch {
		w.ep = x.epoch
		w.n = 0
	}
	return true
}

//go:norace
func (w *WaitGroup) Add(d int) {
	if !w.fresh() || x.killing {
		return
	}
	point("wg add", nil)
	raceReleaseMerge(unsafe.Pointer(w))
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	x.touch(unsafe.Pointer(w), 27)
}

//go:norace
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	if !w.fresh() || x.killing {
		return
	}
	point("wg wait", func() bool { return w.n == 0 })
	x.touch(unsafe.Pointer(w), 28)
	raceAcquire(unsafe.Pointer(w))
}

//go:norace
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() { defer w.Done(); f() })
}

// Once mirrors sync.Once.
type Once struct {
	m    Mutex
	done bool
}

//go:norace
func (o *Once) Do(f func()) {
	if o.done {
		if x != nil && !x.killing {
			point("once", nil)
			raceAcquire(unsafe.Pointer(o))
		}
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { raceRelease(unsafe.Pointer(o)); o.done = true }()
		f()
	}
}

// Cond mirrors sync.Cond.
type Cond struct {
	L    Locker
	ep   uint64
	seq  int // tickets handed out
	wake int // tickets released
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) fresh() bool {
	if x == nil {
		return false
	}
	if c.ep != x.epoch {
		c.ep, c.seq, c.wake = x.epoch, 0, 0
	}
	return true
}

//go:norace
func (c *Cond) Wait() {
	if !c.fresh() {
		return
	}
	tk := c.seq
	c.seq++
	c.L.Unlock()
	point("cond wait", func() bool { return c.wake > tk })
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if !c.fresh() || x.killing {
		return
	}
	point("cond signal", nil)
	if c.wake < c.seq {
		c.wake++
	}
}

//go:norace
func (c *Cond) Broadcast() {
	if !c.fresh() || x.killing {
		return
	}
	point("cond broadcast", nil)
	c.wake = c.seq
}

// Pool mirrors sync.Pool, deterministically: last in, first out.
type Pool struct {
	New   func() any
	ep    uint64
	items []any
}

//go:norace
func (p *Pool) Get() any {
	if x != nil && !x.killing {
		if p.ep != x.epoch {
			p.ep = x.epoch
			p.items = nil
		}
		point("pool get", nil)
		raceAcquire(unsafe.Pointer(p))
	}
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	if x != nil && !x.killing {
		if p.ep != x.epoch {
			p.ep = x.epoch
			p.items = nil
		}
		raceReleaseMerge(unsafe.Pointer(p))
	}
	p.items = append(p.items, v)
	if x != nil && !x.killing {
		point("pool put", nil)
	}
}

// Map mirrors sync.Map with a schedule point before every operation.
type Map struct {
	m sync.Map
}

//go:norace
func (m *Map) pt(s string) {
	if x != nil && !x.killing {
		point(s, nil)
		x.touch(unsafe.Pointer(m), 31)
	}
}

func (m *Map) Load(k any) (any, bool) { m.pt("map load"); return m.m.Load(k) }
func (m *Map) Store(k, v any)         { m.pt("map store"); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.pt("map loadorstore")
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.pt("map loadanddelete")
	return m.m.LoadAndDelete(k)
}
func (m *Map) Delete(k any)                    { m.pt("map delete"); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)       { m.pt("map swap"); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool { m.pt("map cas"); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool  { m.pt("map cad"); return m.m.CompareAndDelete(k, o) }
func (m *Map) Clear()                          { m.pt("map clear"); m.m.Clear() }
func (m *Map) Range(f func(k, v any) bool) {
	m.pt("map range")
	type kv struct{ k, v any }
	var all []kv
	m.m.Range(func(k, v any) bool { all = append(all, kv{k, v}); return true })
	sort.SliceStable(all, func(i, j int) bool { return fmt.Sprint(all[i].k) < fmt.Sprint(all[j].k) })
	for _, e := range all {
		if !f(e.k, e.v) {
			return
		}
	}
}

// ---- process level ----

type sigReg struct {
	ch   chan<- os.Signal
	sigs []os.Signal
	next *sigReg
}

// SignalNotify mirrors signal.Notify.
//
//go:norace
func SignalNotify(c chan<- os.Signal, sig ...os.Signal) {
	if x == nil || x.killing {
		return
	}
	point("signal notify", nil)
	x.sigs = &sigReg{c, sig, x.sigs}
}

// SignalStop mirrors signal.Stop.
//
//go:norace
func SignalStop(c chan<- os.Signal) {
	if x == nil || x.killing {
		return
	}
	for pp := &x.sigs; *pp != nil; {
		if (*pp).ch == c {
			*pp = (*pp).next
		} else {
			pp = &(*pp).next
		}
	}
}

// Raise delivers a signal to the process, as the runtime does: registered
// channels get it without blocking.  It reports whether any registration
// covered the signal (false: the default action would end the process).
//
//go:norace
func Raise(s os.Signal) bool {
	hit := false
	for r := x.sigs; r != nil; r = r.next {
		m := len(r.sigs) == 0
		for _, v := range r.sigs {
			if v == s {
				m = true
			}
		}
		if !m {
			continue
		}
		hit = true
		c := &SC[os.Signal]{ch: r.ch, v: s}
		if c.isReady(x.cur) {
			c.exec(x.cur)
		}
	}
	point("raise", nil)
	return hit
}

// OSExit mirrors os.Exit: the execution ends.
//
//go:norace
func OSExit(code int) {
	if x == nil {
		os.Exit(code)
	}
	if x.killing {
		return
	}
	x.Exited = true
	x.ExitC = code
	if h := OnExit; h != nil {
		h(code)
	}
	x.finish("exit", fmt.Sprint(code))
	x.parkDead()
}

// OnExit, when set by a harness, observes os.Exit.
var OnExit func(code int)
