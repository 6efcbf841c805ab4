// Package nondet decides what the language leaves open: the iteration order of
// maps and the order in which spawned goroutines run. An overlay of the code
// under test calls it instead of `range m` and `go f()`.
package nondet

import (
	"fmt"
	"sort"
	"sync"
	"time"
)

// Order is asked for the order of n alternatives at a site; nil means 0..n-1.
// Keys are sorted by their printed form first, so that the order is
// reproducible.
var Order func(site string, n int) []int

var mu sync.Mutex

func perm(site string, n int) []int {
	mu.Lock()
	f := Order
	mu.Unlock()
	if f != nil {
		if p := f(site, n); p != nil {
			return p
		}
	}
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	return p
}

type Entry[K comparable, V any] struct {
	K K
	V V
	m map[K]V
}

// Live tells whether the entry is still in the map.
func (e Entry[K, V]) Live() bool { _, ok := e.m[e.K]; return ok }

func Entries[K comparable, V any](site string, m map[K]V) []Entry[K, V] {
	es := make([]Entry[K, V], 0, len(m))
	names := map[K]string{}
	for k, v := range m {
		es = append(es, Entry[K, V]{k, v, m})
		names[k] = fmt.Sprintf("%v", k)
	}
	sort.SliceStable(es, func(i, j int) bool { return names[es[i].K] < names[es[j].K] })
	if len(es) < 2 {
		return es
	}
	out := make([]Entry[K, V], len(es))
	for i, j := range perm(site, len(es)) {
		out[i] = es[j]
	}
	return out
}

type task struct {
	site       string
	gate, done chan struct{}
}

var (
	waiting []*task
	running bool
	last    time.Time
)

// Go runs f in a goroutine of its own; goroutines spawned together run one
// after the other (while they do not wait for each other) in the order decided.
func Go(site string, f func()) {
	t := &task{site, make(chan struct{}), make(chan struct{})}
	mu.Lock()
	waiting = append(waiting, t)
	last = time.Now()
	if !running {
		running = true
		go dispatch()
	}
	mu.Unlock()
	go func() {
		defer close(t.done)
		<-t.gate
		f()
	}()
}

func dispatch() {
	for {
		time.Sleep(2 * time.Millisecond)
		mu.Lock()
		if time.Since(last) < 4*time.Millisecond {
			mu.Unlock()
			continue
		}
		b := waiting
		waiting = nil
		if len(b) == 0 {
			running = false
			mu.Unlock()
			return
		}
		mu.Unlock()
		p := []int{0}
		if len(b) > 1 {
			p = perm(b[0].site, len(b))
		}
		for _, i := range p {
			close(b[i].gate)
			select {
			case <-b[i].done:
			case <-time.After(60 * time.Millisecond):
			}
		}
	}
}
