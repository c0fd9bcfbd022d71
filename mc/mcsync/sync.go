package mcsync

import (
	"sync"
	"sync/atomic"
	"unsafe"
)

type Locker = sync.Locker
type Cond = sync.Cond

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// Mutex
type Mutex struct {
	real sync.Mutex
	held bool
	run  uint64
}

//go:norace
func (m *Mutex) acquire(block_ bool) bool {
	if m.run != s.run {
		m.run, m.held = s.run, false
	}
	for m.held {
		if !block_ {
			return false
		}
		block(unsafe.Pointer(m))
		if s.free {
			return true
		}
	}
	m.held = true
	return true
}

//go:norace
func (m *Mutex) drop() {
	m.held = false
	signal(unsafe.Pointer(m))
}

func (m *Mutex) Lock() {
	if !controlled() {
		m.real.Lock()
		return
	}
	Yield()
	m.acquire(true)
	m.real.Lock()
}

func (m *Mutex) TryLock() bool {
	if !controlled() {
		return m.real.TryLock()
	}
	Yield()
	if !m.acquire(false) {
		return false
	}
	m.real.Lock()
	return true
}

//go:norace
func aborted() bool { return s.dead }

func (m *Mutex) Unlock() {
	if aborted() {
		m.real.TryLock()
		m.real.Unlock()
		return
	}
	m.real.Unlock()
	if !controlled() {
		return
	}
	m.drop()
	Yield()
}

// RWMutex
type RWMutex struct {
	real    sync.RWMutex
	writer  bool
	readers int
	run     uint64
}

//go:norace
func (m *RWMutex) acquire(w, block_ bool) bool {
	if m.run != s.run {
		m.run, m.writer, m.readers = s.run, false, 0
	}
	for m.writer || w && m.readers > 0 {
		if !block_ {
			return false
		}
		block(unsafe.Pointer(m))
		if s.free {
			return true
		}
	}
	if w {
		m.writer = true
	} else {
		m.readers++
	}
	return true
}

//go:norace
func (m *RWMutex) drop(w bool) {
	if w {
		m.writer = false
	} else {
		m.readers--
	}
	signal(unsafe.Pointer(m))
}

func (m *RWMutex) Lock() {
	if controlled() {
		Yield()
		m.acquire(true, true)
	}
	m.real.Lock()
}
func (m *RWMutex) RLock() {
	if controlled() {
		Yield()
		m.acquire(false, true)
	}
	m.real.RLock()
}
func (m *RWMutex) TryLock() bool {
	if controlled() {
		Yield()
		if !m.acquire(true, false) {
			return false
		}
		m.real.Lock()
		return true
	}
	return m.real.TryLock()
}
func (m *RWMutex) TryRLock() bool {
	if controlled() {
		Yield()
		if !m.acquire(false, false) {
			return false
		}
		m.real.RLock()
		return true
	}
	return m.real.TryRLock()
}
func (m *RWMutex) Unlock() {
	if aborted() {
		return
	}
	m.real.Unlock()
	if controlled() {
		m.drop(true)
		Yield()
	}
}
func (m *RWMutex) RUnlock() {
	if aborted() {
		return
	}
	m.real.RUnlock()
	if controlled() {
		m.drop(false)
		Yield()
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Pool: in controlled mode a stack that starts empty in every schedule, so the
// object returned last is handed out first, to whichever task asks
type Pool struct {
	New   func() interface{}
	real  sync.Pool
	run   uint64
	n     int
	items [32]poolItem
}

type poolItem struct {
	x    interface{}
	sync uint32
}

//go:norace
func (p *Pool) pop() (interface{}, *uint32) {
	if p.run != s.run {
		p.run, p.n = s.run, 0
	}
	if p.n == 0 {
		return nil, nil
	}
	p.n--
	it := &p.items[p.n]
	x := it.x
	it.x = nil
	return x, &it.sync
}

//go:norace
func (p *Pool) slot() *uint32 {
	if p.run != s.run {
		p.run, p.n = s.run, 0
	}
	if p.n == len(p.items) {
		return nil
	}
	return &p.items[p.n].sync
}

//go:norace
func (p *Pool) push(x interface{}) {
	if p.n < len(p.items) {
		p.items[p.n].x = x
		p.n++
	}
}

func (p *Pool) Get() interface{} {
	if !controlled() {
		if x := p.real.Get(); x != nil {
			return x
		}
		if p.New != nil {
			return p.New()
		}
		return nil
	}
	Yield()
	x, sy := p.pop()
	if sy != nil {
		atomic.LoadUint32(sy)
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if !controlled() {
		p.real.Put(x)
		return
	}
	if x == nil {
		return
	}
	Yield()
	if sy := p.slot(); sy != nil {
		atomic.StoreUint32(sy, 1)
		p.push(x)
	}
	Yield()
}

// Once
type Once struct {
	done uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	Yield()
	if atomic.LoadUint32(&o.done) == 1 {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if atomic.LoadUint32(&o.done) == 0 {
		defer atomic.StoreUint32(&o.done, 1)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

// Map
type Map struct{ real sync.Map }

func (m *Map) Load(k any) (any, bool) { Yield(); return m.real.Load(k) }
func (m *Map) Store(k, v any)         { Yield(); m.real.Store(k, v); Yield() }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	Yield()
	a, b := m.real.LoadOrStore(k, v)
	Yield()
	return a, b
}
func (m *Map) LoadAndDelete(k any) (any, bool) { Yield(); return m.real.LoadAndDelete(k) }
func (m *Map) Delete(k any)                    { Yield(); m.real.Delete(k); Yield() }
func (m *Map) Swap(k, v any) (any, bool)       { Yield(); return m.real.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool { Yield(); return m.real.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool  { Yield(); return m.real.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)     { Yield(); m.real.Range(f) }
func (m *Map) Clear()                          { Yield(); m.real.Clear() }

// WaitGroup
type WaitGroup struct {
	real sync.WaitGroup
	n    int
	run  uint64
}

//go:norace
func (w *WaitGroup) count(d int) int {
	if w.run != s.run {
		w.run, w.n = s.run, 0
	}
	w.n += d
	return w.n
}

func (w *WaitGroup) Add(d int) {
	w.real.Add(d)
	if controlled() {
		if w.count(d) == 0 {
			signal(unsafe.Pointer(w))
		}
		Yield()
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if controlled() {
		Yield()
		for controlled() && w.count(0) > 0 {
			block(unsafe.Pointer(w))
		}
	}
	w.real.Wait()
}
