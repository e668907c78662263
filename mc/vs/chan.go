package vs

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"unsafe"
	"weak"
)

type waitCase struct {
	p    unsafe.Pointer
	send bool
	val  any
}

//go:norace
func chptr[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

//go:norace
func schptr[T any](ch chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// partner finds a blocked thread offering the opposite operation on p.
//
//go:norace
func (e *Exec) partner(p unsafe.Pointer, wantSend bool) (*Thread, int) {
	for i := 0; i < e.nth; i++ {
		t := e.threads[i]
		if t == e.cur && !t.done {
			// a thread cannot rendezvous with itself
		}
		if t.done || t.completed {
			continue
		}
		for k := 0; k < t.nwaits; k++ {
			if t.waits[k].p == p && t.waits[k].send == wantSend {
				return t, k
			}
		}
	}
	return nil, 0
}

//go:norace
func recvReady[T any](self *Thread, ch <-chan T) bool {
	if ch == nil {
		return false
	}
	if len(ch) > 0 {
		return true
	}
	p := chptr(ch)
	if x.obj(p).clsd {
		return true
	}
	if cap(ch) == 0 {
		if t, _ := x.partnerNot(self, p, true); t != nil {
			return true
		}
	}
	raceDisable()
	cl := false
	select {
	case _, ok := <-ch:
		if !ok {
			cl = true
		}
	default:
	}
	raceEnable()
	if cl {
		x.obj(p).clsd = true
		return true
	}
	return false
}

//go:norace
func (e *Exec) partnerNot(self *Thread, p unsafe.Pointer, wantSend bool) (*Thread, int) {
	for i := 0; i < e.nth; i++ {
		t := e.threads[i]
		if t == self || t.done || t.completed {
			continue
		}
		for k := 0; k < t.nwaits; k++ {
			if t.waits[k].p == p && t.waits[k].send == wantSend {
				return t, k
			}
		}
	}
	return nil, 0
}

//go:norace
func sendReady[T any](self *Thread, ch chan<- T) bool {
	if ch == nil {
		return false
	}
	p := schptr(ch)
	if x.obj(p).clsd {
		return true
	}
	if cap(ch) > 0 {
		return len(ch) < cap(ch)
	}
	t, _ := x.partnerNot(self, p, false)
	return t != nil
}

type caser interface {
	isReady(t *Thread) bool
	wait() waitCase
	exec(t *Thread)         // perform, known to be ready
	deliver(v any, ok bool) // result handed over by a partner
	name() string
}

// RC is a receive case.
type RC[T any] struct {
	ch  <-chan T
	Val T
	Ok  bool
}

// SC is a send case.
type SC[T any] struct {
	ch chan<- T
	v  T
}

//go:norace
func RecvCase[T any](ch <-chan T) *RC[T] { return &RC[T]{ch: ch} }

//go:norace
func SendCase[T any](ch chan<- T) func(T) *SC[T] {
	return func(v T) *SC[T] { return &SC[T]{ch: ch, v: v} }
}

//go:norace
func (c *RC[T]) isReady(t *Thread) bool { return recvReady(t, c.ch) }

//go:norace
func (c *RC[T]) wait() waitCase { return waitCase{p: chptr(c.ch)} }

//go:norace
func (c *RC[T]) name() string { return "recv" }

//go:norace
func (c *RC[T]) deliver(v any, ok bool) {
	c.Val, _ = v.(T)
	c.Ok = ok
	raceAcquire(chptr(c.ch))
}

//go:norace
func (c *RC[T]) exec(t *Thread) {
	p := chptr(c.ch)
	x.touch(p, 11)
	if cap(c.ch) == 0 {
		if s, k := x.partnerNot(t, p, true); s != nil {
			c.Val, _ = s.waits[k].val.(T)
			c.Ok = true
			s.completed = true
			s.slotCase = k
			raceAcquire(p)
			raceReleaseMerge(p)
			return
		}
	}
	select {
	case v, ok := <-c.ch:
		c.Val, c.Ok = v, ok
	default:
		panic("vs: receive not ready")
	}
}

//go:norace
func (c *SC[T]) isReady(t *Thread) bool { return sendReady(t, c.ch) }

//go:norace
func (c *SC[T]) wait() waitCase { return waitCase{p: schptr(c.ch), send: true, val: c.v} }

//go:norace
func (c *SC[T]) name() string { return "send" }

//go:norace
func (c *SC[T]) deliver(v any, ok bool) { raceAcquire(schptr(c.ch)) }

//go:norace
func (c *SC[T]) exec(t *Thread) {
	p := schptr(c.ch)
	x.touch(p, 12)
	if cap(c.ch) == 0 && !x.obj(p).clsd {
		if r, k := x.partnerNot(t, p, false); r != nil {
			r.completed = true
			r.slotCase = k
			r.slotVal = c.v
			r.slotOK = true
			raceReleaseMerge(p)
			return
		}
	}
	select {
	case c.ch <- c.v: // panics when closed, as it should
	default:
		panic("vs: send not ready")
	}
}

// Select performs one ready case; -1 is the default case.
//
//go:norace
func Select(hasDefault bool, cs ...caser) int {
	e := x
	if e == nil {
		panic("vs: channel operation outside a controlled execution")
	}
	if e.killing {
		if hasDefault {
			return -1
		}
		runtime.Goexit()
	}
	t := e.cur
	if hasDefault {
		point("select-default", nil)
	} else {
		t.completed = false
		t.nwaits = 0
		what := "select"
		if len(cs) == 1 {
			what = "chan " + cs[0].name()
		}
		for _, c := range cs {
			if t.nwaits < len(t.waits) {
				t.waits[t.nwaits] = c.wait()
				t.nwaits++
			}
		}
		if len(cs) > len(t.waits) {
			panic("vs: select with too many cases")
		}
		point(what, func() bool {
			for _, c := range cs {
				if c.isReady(t) {
					return true
				}
			}
			return false
		})
		t.nwaits = 0
		if t.completed {
			t.completed = false
			c := cs[t.slotCase]
			c.deliver(t.slotVal, t.slotOK)
			t.slotVal = nil
			return t.slotCase
		}
	}
	var ready [16]int
	n := 0
	for i, c := range cs {
		if c.isReady(t) {
			ready[n] = i
			n++
		}
	}
	if n == 0 {
		if hasDefault {
			return -1
		}
		panic("vs: select without ready case")
	}
	k := ready[e.choose(n, KSelect, false)]
	cs[k].exec(t)
	return k
}

// BlockForever is select{}.
//
//go:norace
func BlockForever() { point("select{}", func() bool { return false }) }

//go:norace
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

//go:norace
func Recv2[T any](ch <-chan T) (T, bool) {
	if x == nil {
		v, ok := <-ch
		return v, ok
	}
	c := &RC[T]{ch: ch}
	Select(false, c)
	return c.Val, c.Ok
}

//go:norace
func Send[T any](ch chan<- T) func(T) {
	return func(v T) { send(ch, v) }
}

//go:norace
func send[T any](ch chan<- T, v T) {
	if x == nil {
		ch <- v
		return
	}
	Select(false, &SC[T]{ch: ch, v: v})
}

//go:norace
func Close[T any](ch chan<- T) {
	if x != nil && !x.killing {
		point("close", nil)
		if ch != nil {
			x.touch(schptr(ch), 13)
		}
	}
	close(ch) // panics as the built-in does
	if x != nil {
		x.obj(schptr(ch)).clsd = true
	}
}

// Keys returns the keys of a map in a fixed order, so that iteration order is
// not a hidden source of nondeterminism.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) < 2 {
		return ks
	}
	switch reflect.TypeOf(ks[0]).Kind() {
	case reflect.String:
		sort.Slice(ks, func(i, j int) bool {
			return reflect.ValueOf(ks[i]).String() < reflect.ValueOf(ks[j]).String()
		})
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sort.Slice(ks, func(i, j int) bool {
			return reflect.ValueOf(ks[i]).Int() < reflect.ValueOf(ks[j]).Int()
		})
	case reflect.Ptr, reflect.Chan, reflect.UnsafePointer:
		// pointers: order by first registration in this execution
		if x != nil {
			sort.Slice(ks, func(i, j int) bool { return ptrID(ks[i]) < ptrID(ks[j]) })
		}
	default:
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	}
	return ks
}

// ptrID must not depend on addresses: ids are handed out at first use, which
// for map keys means the (deterministic) insertion statement is instrumented
// with KeyNote.
//
//go:norace
func ptrID(k any) uint64 {
	return x.key(unsafe.Pointer(reflect.ValueOf(k).Pointer()))
}

// key numbers the objects used as map keys, without keeping them alive; an
// address that is used again by a later object gets a new number.
//
//go:norace
func (e *Exec) key(p unsafe.Pointer) uint64 {
	if k, ok := e.keys[uintptr(p)]; ok && unsafe.Pointer(k.w.Value()) == p {
		return k.id
	}
	if e.keys == nil {
		e.keys = map[uintptr]weakKey{}
	}
	e.nkey++
	e.keys[uintptr(p)] = weakKey{weak.Make((*byte)(p)), e.nkey}
	return e.nkey
}

type weakKey struct {
	w  weak.Pointer[byte]
	id uint64
}

// KeyNote registers a pointer-typed map key at insertion.
//
//go:norace
func KeyNote(k any) {
	if x == nil || x.killing || k == nil {
		return
	}
	switch reflect.TypeOf(k).Kind() {
	case reflect.Ptr, reflect.Chan, reflect.UnsafePointer:
		if v := reflect.ValueOf(k); v.Pointer() != 0 {
			x.key(unsafe.Pointer(v.Pointer()))
		}
	}
}

// ZeroK, ZeroV and ZeroC give zero values for loop variables.
func ZeroK[M ~map[K]V, K comparable, V any](m M) (k K) { return }
func ZeroV[M ~map[K]V, K comparable, V any](m M) (v V) { return }
func ZeroC[T any](c <-chan T) (v T)                    { return }
