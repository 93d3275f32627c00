// Package vsync stands in for package sync in the code under test while its
// interleavings are enumerated. Only one task runs at a time; every pool,
// lock and statement boundary is a point at which the scheduler may switch.
// Without a scheduler it behaves like package sync with a greedy pool.
package vsync

import (
	"runtime"
	"sync"
)

// Kind of a scheduling point.
type Kind int

const (
	Fine   Kind = iota // between two statements
	Coarse             // pool, lock, driver call, callback
	Block              // the task cannot go on
	End                // the task is done
)

// Sched runs tasks one at a time.
type Sched struct {
	// Choose is asked at every point; enabled holds the runnable tasks.
	Choose func(k Kind, cur int, enabled []int) int
	cur    int
	wake   []chan struct{}
	state  []Kind
	done   chan struct{}
	dead   bool
}

var active *Sched

// Run runs the tasks to the end; it reports whether they deadlocked.
func (s *Sched) Run(tasks []func()) (deadlock bool) {
	s.done = make(chan struct{})
	s.state = make([]Kind, len(tasks))
	s.wake = make([]chan struct{}, len(tasks))
	for i := range tasks {
		s.wake[i] = make(chan struct{}, 1)
	}
	active = s
	for i := range tasks {
		go func() {
			<-s.wake[i]
			defer func() { s.point(End) }()
			tasks[i]()
		}()
	}
	s.cur = s.Choose(End, -1, s.enabled())
	s.wake[s.cur] <- struct{}{}
	<-s.done
	active = nil
	return s.dead
}

func (s *Sched) enabled() (out []int) {
	for i, k := range s.state {
		if k != End && k != Block {
			out = append(out, i)
		}
	}
	return
}

func (s *Sched) point(k Kind) {
	me := s.cur
	s.state[me] = k
	en := s.enabled()
	if len(en) == 0 {
		for _, x := range s.state {
			if x == Block {
				s.dead = true
			}
		}
		close(s.done)
		if k == Block {
			runtime.Goexit()
		}
		return
	}
	next := me
	if len(en) > 1 || en[0] != me {
		next = s.Choose(k, me, en)
	}
	if next == me {
		return
	}
	s.cur = next
	s.wake[next] <- struct{}{}
	if k != End {
		<-s.wake[me]
	}
}

// Point is a possible switch between two statements.
func Point() {
	if active != nil {
		active.point(Fine)
	}
}

// At is a possible switch at a shared object, a driver call or a callback.
func At() {
	if active != nil {
		active.point(Coarse)
	}
}

// FIFO makes pools hand out the oldest object first.
var FIFO bool

var pools []*Pool

// Reset empties every pool.
func Reset() {
	for _, p := range pools {
		p.free = nil
	}
}

// Pool always reuses what was put back.
type Pool struct {
	New  func() any
	free []any
	seen bool
	mu   sync.Mutex
}

func (p *Pool) Get() any {
	At()
	p.mu.Lock()
	if !p.seen {
		p.seen = true
		pools = append(pools, p)
	}
	var x any
	if n := len(p.free); n > 0 {
		if FIFO {
			x = p.free[0]
			p.free = append([]any(nil), p.free[1:]...)
		} else {
			x = p.free[n-1]
			p.free = p.free[:n-1]
		}
	}
	p.mu.Unlock()
	if x == nil && p.New != nil {
		x = p.New()
	}
	At()
	return x
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	At()
	p.mu.Lock()
	if !p.seen {
		p.seen = true
		pools = append(pools, p)
	}
	p.free = append(p.free, x)
	p.mu.Unlock()
	At()
}

// Mutex blocks in the scheduler.
type Mutex struct {
	held bool
	real sync.Mutex
	wait []int
}

func (m *Mutex) Lock() {
	if active == nil {
		m.real.Lock()
		return
	}
	At()
	for m.held {
		m.wait = append(m.wait, active.cur)
		active.point(Block)
	}
	m.held = true
}

func (m *Mutex) TryLock() bool {
	if active == nil {
		return m.real.TryLock()
	}
	At()
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	if active == nil {
		m.real.Unlock()
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	for _, i := range m.wait {
		if active.state[i] == Block {
			active.state[i] = Coarse
		}
	}
	m.wait = nil
	At()
}

// RWMutex lets readers exclude each other too: fewer interleavings, none added.
type RWMutex struct {
	readers int
	w       Mutex
	real    sync.RWMutex
}

func (m *RWMutex) Lock() {
	if active == nil {
		m.real.Lock()
		return
	}
	m.w.Lock()
}

func (m *RWMutex) Unlock() {
	if active == nil {
		m.real.Unlock()
		return
	}
	m.w.Unlock()
}

func (m *RWMutex) RLock() {
	if active == nil {
		m.real.RLock()
		return
	}
	At()
	for m.readers == 0 && m.w.held {
		m.w.wait = append(m.w.wait, active.cur)
		active.point(Block)
	}
	m.readers++
	m.w.held = true
}

func (m *RWMutex) RUnlock() {
	if active == nil {
		m.real.RUnlock()
		return
	}
	m.readers--
	if m.readers == 0 {
		m.w.Unlock()
	}
}

func (m *RWMutex) TryLock() bool        { return m.w.TryLock() }
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once runs its function under a lock the scheduler knows.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	At()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

type (
	Map       = sync.Map
	WaitGroup = sync.WaitGroup
	Locker    = sync.Locker
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }
