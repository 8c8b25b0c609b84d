// Package vsched stands in for sync and sync/atomic in a scratch copy of the
// package under test: the goroutines of a schedule run one at a time, and who
// goes on is decided before every operation on shared state (and, if asked
// for, before every statement).  Goroutines that are in no schedule use the
// operations as they would those of package sync.
package vsched

import (
	"bytes"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

var state sync.Mutex // guards the state of everything below

type task struct {
	id     int
	resume chan struct{}
	pred   func() bool // what it waits for
	done   bool
}

type sched struct {
	mu     sync.Mutex
	tasks  map[uint64]*task
	list   []*task
	choose func(enabled []int, running int) int
	steps  int64
	row    int          // how often the same one went on
	quiet  atomic.Int64 // how many more times the same one goes on, unless it has to wait
	free   atomic.Bool
	fine   bool
	left   int
	end    chan struct{}
	stuck  chan struct{}
}

// stalls counts the schedules in which the one to go on did not.
var stalls int

var current atomic.Pointer[sched]

func gid() uint64 {
	var b [40]byte
	s := b[:runtime.Stack(b[:], false)]
	s = s[len("goroutine "):]
	n, _ := strconv.ParseUint(string(s[:bytes.IndexByte(s, ' ')]), 10, 64)
	return n
}

func mine() (*sched, *task) {
	s := current.Load()
	if s == nil || s.free.Load() {
		return nil, nil
	}
	s.mu.Lock()
	t := s.tasks[gid()]
	s.mu.Unlock()
	if t == nil {
		return nil, nil
	}
	return s, t
}

// next decides who goes on; s.mu is held.
func (s *sched) next(t *task) *task {
	var en []int
	for i, x := range s.list {
		if !x.done && (x.pred == nil || x.pred()) {
			en = append(en, i)
		}
	}
	if len(en) == 0 {
		return nil
	}
	s.steps++
	k := s.choose(en, t.id)
	// who waits by trying again and again must not keep the others from going on
	if k == t.id {
		s.row++
	} else {
		s.row = 0
	}
	if s.row > 200000 {
		s.row = 0
		for _, e := range en {
			if e > t.id {
				k = e
				break
			}
			if k == t.id && e != t.id {
				k = e
			}
		}
	}
	for _, e := range en {
		if e == k {
			return s.list[k]
		}
	}
	return s.list[en[0]]
}

// stop lets others go on; t itself goes on when pred holds.
func (s *sched) stop(t *task, pred func() bool) {
	s.mu.Lock()
	t.pred = pred
	n := s.next(t)
	if n == t {
		t.pred = nil
		s.mu.Unlock()
		return
	}
	s.mu.Unlock()
	if n != nil {
		n.resume <- struct{}{}
	} else {
		select {
		case s.stuck <- struct{}{}:
		default:
		}
	}
	<-t.resume
	s.mu.Lock()
	t.pred = nil
	s.mu.Unlock()
}

func (s *sched) finish(t *task) {
	s.mu.Lock()
	t.done = true
	s.left--
	if s.left == 0 {
		close(s.end)
		s.mu.Unlock()
		return
	}
	var n *task
	if !s.free.Load() {
		n = s.next(t)
	}
	s.mu.Unlock()
	if n != nil {
		n.resume <- struct{}{}
	} else if !s.free.Load() {
		select {
		case s.stuck <- struct{}{}:
		default:
		}
	}
}

// Run runs the functions in a schedule.  It returns "", or what went wrong:
// "deadlock" when they wait for one another.
func Run(fs []func(), fine bool, choose func(enabled []int, running int) int) string {
	s := &sched{tasks: map[uint64]*task{}, choose: choose, fine: fine, left: len(fs), end: make(chan struct{}), stuck: make(chan struct{}, 1)}
	ready := make(chan struct{})
	for i, f := range fs {
		t := &task{id: i, resume: make(chan struct{}, 2)}
		s.list = append(s.list, t)
		f := f
		go func() {
			s.mu.Lock()
			s.tasks[gid()] = t
			s.mu.Unlock()
			ready <- struct{}{}
			<-t.resume
			f()
			s.finish(t)
		}()
	}
	for range fs {
		<-ready
	}
	if stalls > 30 {
		// The code blocks in ways that are not controlled here (a channel,
		// say): the functions just run at the same time.
		s.free.Store(true)
		for _, t := range s.list {
			t.resume <- struct{}{}
		}
		select {
		case <-s.end:
			return ""
		case <-time.After(30 * time.Second):
			return "deadlock"
		}
	}
	current.Store(s)
	defer current.Store(nil)
	s.mu.Lock()
	n := s.next(s.list[0])
	s.mu.Unlock()
	n.resume <- struct{}{}
	last := int64(-1)
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
wait:
	for {
		select {
		case <-s.end:
			return ""
		case <-s.stuck:
			break wait
		case <-tick.C:
			s.mu.Lock()
			now := s.steps
			s.mu.Unlock()
			if now == last { // something that is no shared operation takes long
				stalls++
				break wait
			}
			last = now
		}
	}
	// perhaps others, which are in no schedule, have to do something
	s.free.Store(true)
	for _, t := range s.list {
		select {
		case t.resume <- struct{}{}:
		default:
		}
	}
	select {
	case <-s.end:
		return ""
	case <-time.After(15 * time.Second):
		return "deadlock"
	}
}

// Point is a place at which another goroutine may go on.
func Point() {
	s := current.Load()
	if s == nil || !s.fine {
		return
	}
	op()
}

// Step is like Point, for the user's methods.
func Step() { op() }

// Quiet is for the function that chooses: the one it chooses goes on n times
// more, if it can, before it is asked again.
func Quiet(n int64) {
	if s := current.Load(); s != nil {
		s.quiet.Store(n)
	}
}

func op() {
	s := current.Load()
	if s == nil || s.quiet.Load() > 0 && s.quiet.Add(-1) >= 0 {
		return
	}
	if s, t := mine(); s != nil {
		s.stop(t, nil)
	}
}

// wait waits until can holds, which has no effect.
func wait(can func() bool) {
	op()
	for {
		state.Lock()
		ok := can()
		state.Unlock()
		if ok {
			return
		}
		if s, t := mine(); s != nil {
			s.stop(t, func() bool {
				state.Lock()
				defer state.Unlock()
				return can()
			})
			continue
		}
		time.Sleep(50 * time.Microsecond)
	}
}

func do(f func()) {
	op()
	state.Lock()
	defer state.Unlock()
	f()
}

// take waits until can holds, and does f at the same time.
func take(can func() bool, f func()) {
	for {
		wait(can)
		state.Lock()
		if can() {
			f()
			state.Unlock()
			return
		}
		state.Unlock()
	}
}

// ---- package sync ----

type Locker = sync.Locker

type Mutex struct{ locked bool }

func (m *Mutex) Lock() { take(func() bool { return !m.locked }, func() { m.locked = true }) }
func (m *Mutex) TryLock() (ok bool) {
	do(func() {
		ok = !m.locked
		m.locked = true
	})
	return
}
func (m *Mutex) Unlock() {
	do(func() {
		if !m.locked {
			panic("vsched: unlock of unlocked mutex")
		}
		m.locked = false
	})
}

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock()   { take(func() bool { return !m.w && m.r == 0 }, func() { m.w = true }) }
func (m *RWMutex) Unlock() { do(func() { m.w = false }) }
func (m *RWMutex) RLock()  { take(func() bool { return !m.w }, func() { m.r++ }) }
func (m *RWMutex) RUnlock() {
	do(func() { m.r-- })
}
func (m *RWMutex) TryLock() (ok bool) {
	do(func() {
		if ok = !m.w && m.r == 0; ok {
			m.w = true
		}
	})
	return
}
func (m *RWMutex) TryRLock() (ok bool) {
	do(func() {
		if ok = !m.w; ok {
			m.r++
		}
	})
	return
}
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	do(func() {
		if w.n += d; w.n < 0 {
			panic("sync: negative WaitGroup counter")
		}
	})
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() { wait(func() bool { return w.n == 0 }) }

type Once struct{ st int }

func (o *Once) Do(f func()) {
	first := false
	take(func() bool { return o.st != 1 }, func() {
		if o.st == 0 {
			o.st, first = 1, true
		}
	})
	if first {
		defer do(func() { o.st = 2 })
		f()
	}
}

type Cond struct {
	L       sync.Locker
	waiters []*bool
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	ok := new(bool)
	do(func() { c.waiters = append(c.waiters, ok) })
	c.L.Unlock()
	wait(func() bool { return *ok })
	c.L.Lock()
}
func (c *Cond) Signal() {
	do(func() {
		if len(c.waiters) > 0 {
			*c.waiters[0] = true
			c.waiters = c.waiters[1:]
		}
	})
}
func (c *Cond) Broadcast() {
	do(func() {
		for _, w := range c.waiters {
			*w = true
		}
		c.waiters = nil
	})
}

// Pool gives back what was put last.
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() (x any) {
	do(func() {
		if n := len(p.items); n > 0 {
			x, p.items = p.items[n-1], p.items[:n-1]
		}
	})
	if x == nil && p.New != nil {
		x = p.New()
	}
	return
}
func (p *Pool) Put(x any) {
	if x != nil {
		do(func() { p.items = append(p.items, x) })
	}
}

type Map struct{ m map[any]any }

func (m *Map) Load(k any) (v any, ok bool) { do(func() { v, ok = m.m[k] }); return }
func (m *Map) set(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
}
func (m *Map) Store(k, v any) { do(func() { m.set(k, v) }) }
func (m *Map) LoadOrStore(k, v any) (a any, loaded bool) {
	do(func() {
		if a, loaded = m.m[k]; !loaded {
			m.set(k, v)
			a = v
		}
	})
	return
}
func (m *Map) LoadAndDelete(k any) (v any, loaded bool) {
	do(func() {
		v, loaded = m.m[k]
		delete(m.m, k)
	})
	return
}
func (m *Map) Delete(k any) { do(func() { delete(m.m, k) }) }
func (m *Map) Clear()       { do(func() { m.m = nil }) }
func (m *Map) Swap(k, v any) (old any, loaded bool) {
	do(func() {
		old, loaded = m.m[k]
		m.set(k, v)
	})
	return
}
func (m *Map) CompareAndSwap(k, old, v any) (ok bool) {
	do(func() {
		if x, is := m.m[k]; is && x == old {
			m.set(k, v)
			ok = true
		}
	})
	return
}
func (m *Map) CompareAndDelete(k, old any) (ok bool) {
	do(func() {
		if x, is := m.m[k]; is && x == old {
			delete(m.m, k)
			ok = true
		}
	})
	return
}
func (m *Map) Range(f func(k, v any) bool) {
	var ks []any
	do(func() {
		for k := range m.m {
			ks = append(ks, k)
		}
	})
	for _, k := range ks {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}

// ---- package sync/atomic ----

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { op(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	op()
	atomic.StorePointer(p, v)
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	op()
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	op()
	return atomic.CompareAndSwapPointer(p, o, n)
}
func LoadInt32(p *int32) int32              { op(); return atomic.LoadInt32(p) }
func LoadInt64(p *int64) int64              { op(); return atomic.LoadInt64(p) }
func LoadUint32(p *uint32) uint32           { op(); return atomic.LoadUint32(p) }
func LoadUint64(p *uint64) uint64           { op(); return atomic.LoadUint64(p) }
func LoadUintptr(p *uintptr) uintptr        { op(); return atomic.LoadUintptr(p) }
func StoreInt32(p *int32, v int32)          { op(); atomic.StoreInt32(p, v) }
func StoreInt64(p *int64, v int64)          { op(); atomic.StoreInt64(p, v) }
func StoreUint32(p *uint32, v uint32)       { op(); atomic.StoreUint32(p, v) }
func StoreUint64(p *uint64, v uint64)       { op(); atomic.StoreUint64(p, v) }
func StoreUintptr(p *uintptr, v uintptr)    { op(); atomic.StoreUintptr(p, v) }
func AddInt32(p *int32, v int32) int32      { op(); return atomic.AddInt32(p, v) }
func AddInt64(p *int64, v int64) int64      { op(); return atomic.AddInt64(p, v) }
func AddUint32(p *uint32, v uint32) uint32  { op(); return atomic.AddUint32(p, v) }
func AddUint64(p *uint64, v uint64) uint64  { op(); return atomic.AddUint64(p, v) }
func SwapInt32(p *int32, v int32) int32     { op(); return atomic.SwapInt32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { op(); return atomic.SwapUint32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	op()
	return atomic.CompareAndSwapInt32(p, o, n)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	op()
	return atomic.CompareAndSwapInt64(p, o, n)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	op()
	return atomic.CompareAndSwapUint32(p, o, n)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	op()
	return atomic.CompareAndSwapUint64(p, o, n)
}

type Pointer[T any] struct{ p atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { op(); return x.p.Load() }
func (x *Pointer[T]) Store(v *T)                  { op(); x.p.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { op(); return x.p.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { op(); return x.p.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { op(); return x.v.Load() }
func (x *Value) Store(v any)                  { op(); x.v.Store(v) }
func (x *Value) Swap(v any) any               { op(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { op(); return x.v.CompareAndSwap(o, n) }

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { op(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { op(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { op(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { op(); return x.v.CompareAndSwap(o, n) }

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { op(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { op(); x.v.Store(v) }
func (x *Int32) Add(v int32) int32              { op(); return x.v.Add(v) }
func (x *Int32) Swap(v int32) int32             { op(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { op(); return x.v.CompareAndSwap(o, n) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { op(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { op(); x.v.Store(v) }
func (x *Int64) Add(v int64) int64              { op(); return x.v.Add(v) }
func (x *Int64) Swap(v int64) int64             { op(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { op(); return x.v.CompareAndSwap(o, n) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { op(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { op(); x.v.Store(v) }
func (x *Uint32) Add(v uint32) uint32             { op(); return x.v.Add(v) }
func (x *Uint32) Swap(v uint32) uint32            { op(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { op(); return x.v.CompareAndSwap(o, n) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { op(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { op(); x.v.Store(v) }
func (x *Uint64) Add(v uint64) uint64             { op(); return x.v.Add(v) }
func (x *Uint64) Swap(v uint64) uint64            { op(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { op(); return x.v.CompareAndSwap(o, n) }
