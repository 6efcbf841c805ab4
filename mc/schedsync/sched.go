// Package schedsync replaces package sync in the code under test while its
// interleavings are explored. Every operation is a scheduling point; exactly
// one worker runs at a time. The hand-over between workers is hidden from the
// race detector, so that it judges every explored execution by the
// happens-before order of the program's own synchronization only.
package schedsync

import (
	"fmt"
	"runtime/debug"
	"sync"
	"time"
	"unsafe"
)

type worker struct {
	id    int
	root  int // the worker given to Run it descends from
	wake  chan struct{}
	ready func() bool
	done  bool
	pan   any
	stack string
}

var (
	cur  *worker
	pool []*worker
	back chan struct{}
)

// Cur is the running worker (for one that was spawned: the one it descends
// from), -1 outside.
//
//go:norace
func Cur() int {
	if cur == nil {
		return -1
	}
	return cur.root
}

// Go replaces the go statement: the new goroutine is another worker. Outside
// Run it comes first, until it ends or waits for its parent.
//
//go:norace
func Go(f func()) {
	p := cur
	if p == nil {
		done := make(chan struct{})
		go func() {
			defer close(done)
			f()
		}()
		select {
		case <-done:
		case <-time.After(time.Second):
		}
		return
	}
	w := &worker{id: len(pool), root: p.root, wake: make(chan struct{})}
	pool = append(pool, w)
	go start(w, f)
	Yield()
}

// Yield is a scheduling point.
//
//go:norace
func Yield() {
	w := cur
	if w == nil {
		return
	}
	off()
	back <- struct{}{}
	<-w.wake
	on()
}

//go:norace
func block(ready func() bool) {
	w := cur
	if w == nil {
		for k := 0; !ready(); k++ {
			if k > 3000 {
				panic("schedsync: blocks forever: a lock is held and nobody runs")
			}
			off()
			time.Sleep(time.Millisecond)
			on()
		}
		return
	}
	Yield()
	for !ready() {
		w.ready = ready
		Yield()
	}
	w.ready = nil
}

// Outcome of one execution.
type Outcome struct {
	Deadlock bool
	Stuck    bool // waits for something that is not scheduled here (a channel); nothing can be run after it
	Panics   []string
	Steps    int
}

var endMark byte

//go:norace
func start(w *worker, f func()) {
	off()
	<-w.wake
	on()
	func() {
		defer func() {
			if p := recover(); p != nil {
				w.pan = p
				w.stack = string(debug.Stack())
			}
		}()
		f()
	}()
	rel(unsafe.Pointer(&endMark))
	w.done = true
	off()
	back <- struct{}{}
	on()
}

// Run executes the functions under the schedule given by choose, which gets
// the enabled workers and the previously running one (-1 at the start or when
// it is not enabled) and returns the next one.
//
//go:norace
func Run(fs []func(), choose func(enabled []int, prev int) int) (o Outcome) {
	back = make(chan struct{})
	pool = make([]*worker, len(fs))
	for i := range fs {
		pool[i] = &worker{id: i, root: i, wake: make(chan struct{})}
		go start(pool[i], fs[i])
	}
	timer := time.NewTimer(time.Hour)
	defer timer.Stop()
	prev := -1
	for {
		var en []int
		left := 0
		for _, w := range pool {
			if w.done {
				continue
			}
			left++
			if w.ready == nil || w.ready() {
				en = append(en, w.id)
			}
		}
		if left == 0 {
			break
		}
		if len(en) == 0 {
			o.Deadlock = true
			break
		}
		p := -1
		for _, e := range en {
			if e == prev {
				p = prev
			}
		}
		w := pool[choose(en, p)]
		o.Steps++
		cur = w
		off()
		w.wake <- struct{}{}
		timer.Reset(90 * time.Second)
		select {
		case <-back:
		case <-timer.C:
			o.Stuck = true
		}
		on()
		if o.Stuck {
			cur = nil
			return
		}
		cur = nil
		prev = w.id
	}
	acq(unsafe.Pointer(&endMark))
	for _, w := range pool {
		if w.pan != nil {
			o.Panics = append(o.Panics, fmt.Sprintf("goroutine %d: %v\n%s", w.id, w.pan, w.stack))
		}
	}
	return
}

// ---- the primitives

type Locker = sync.Locker
type Cond = sync.Cond
type Pool = sync.Pool

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// WaitGroup is a counter whose zero is waited for.
type WaitGroup struct {
	n int
}

//go:norace
func (g *WaitGroup) zero() bool { return g.n == 0 }

//go:norace
func (g *WaitGroup) Add(d int) {
	Yield()
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	rel(unsafe.Pointer(g))
}

//go:norace
func (g *WaitGroup) Done() { g.Add(-1) }

//go:norace
func (g *WaitGroup) Wait() {
	block(g.zero)
	acq(unsafe.Pointer(g))
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	Go(func() {
		defer g.Done()
		f()
	})
}

type Mutex struct {
	locked bool
}

//go:norace
func (m *Mutex) Lock() {
	block(func() bool { return m.free() })
	m.locked = true
	acq(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) free() bool { return !m.locked }

//go:norace
func (m *Mutex) TryLock() bool {
	Yield()
	if m.locked {
		return false
	}
	m.locked = true
	acq(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("unlock of unlocked mutex")
	}
	rel(unsafe.Pointer(m))
	m.locked = false
	Yield()
}

type RWMutex struct {
	w bool
	r int
	b byte
}

//go:norace
func (m *RWMutex) free() bool { return !m.w && m.r == 0 }

//go:norace
func (m *RWMutex) rfree() bool { return !m.w }

//go:norace
func (m *RWMutex) Lock() {
	block(func() bool { return m.free() })
	m.w = true
	acq(unsafe.Pointer(&m.w))
	acq(unsafe.Pointer(&m.b))
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("unlock of unlocked rwmutex")
	}
	rel(unsafe.Pointer(&m.w))
	m.w = false
	Yield()
}

//go:norace
func (m *RWMutex) RLock() {
	block(func() bool { return m.rfree() })
	m.r++
	acq(unsafe.Pointer(&m.w))
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.r <= 0 {
		panic("runlock of unlocked rwmutex")
	}
	rel(unsafe.Pointer(&m.b))
	m.r--
	Yield()
}

//go:norace
func (m *RWMutex) TryLock() bool {
	Yield()
	if !m.free() {
		return false
	}
	m.w = true
	acq(unsafe.Pointer(&m.w))
	acq(unsafe.Pointer(&m.b))
	return true
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	Yield()
	if m.w {
		return false
	}
	m.r++
	acq(unsafe.Pointer(&m.w))
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var w U
	return func() (T, U) {
		o.Do(func() { v, w = f() })
		return v, w
	}
}

// Map has every operation atomic, with a scheduling point before and after.
type Map struct {
	m sync.Map
}

func (m *Map) Load(k any) (any, bool) { Yield(); defer Yield(); return m.m.Load(k) }
func (m *Map) Store(k, v any)         { Yield(); defer Yield(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	Yield()
	defer Yield()
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) { Yield(); defer Yield(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                    { Yield(); defer Yield(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)       { Yield(); defer Yield(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	Yield()
	defer Yield()
	return m.m.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o any) bool {
	Yield()
	defer Yield()
	return m.m.CompareAndDelete(k, o)
}
func (m *Map) Range(f func(k, v any) bool) { Yield(); defer Yield(); m.m.Range(f) }
func (m *Map) Clear()                      { Yield(); defer Yield(); m.m.Clear() }
