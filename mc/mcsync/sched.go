// Package mcsync is a drop-in for package sync whose operations are scheduling
// points of a controlled scheduler.  Exactly one task runs at a time; who runs
// next is decided by the schedule being explored.  The hand-over between tasks
// is by plain memory in functions the race detector does not look into, so it
// creates no happens-before edges: the detector sees only the edges of the
// program's own synchronisation (every shim also performs the real operation).
package mcsync

import (
	"runtime"
	"sync"
	"time"
	"unsafe"
)

const (
	maxTasks = 4
	maxDepth = 4096

	runnable = 0
	blocked  = 1
	done     = 2
)

type Sched struct {
	active   bool
	free     bool // scheduling given up: everything runs uncontrolled
	dead     bool
	overflow bool
	cur      int
	n        int
	state    [maxTasks]uint8
	wait     [maxTasks]unsafe.Pointer
	bound    int
	preempts int
	depth    int
	plen     int
	prefix   [maxDepth]uint8
	nopts    [maxDepth]uint8
	chosen   [maxDepth]uint8
	steps    uint64
	run      uint64
}

var s Sched

// Outcome of one schedule
type Outcome struct {
	Deadlock bool
	Free     bool // blocked outside the scheduler's view; ran uncontrolled from there
	Overflow bool // more choice points than can be recorded
	Stuck    bool // and did not finish even so
	Depth    int
	Steps    uint64
	Preempts int
}

//go:norace
func controlled() bool { return s.active && !s.free && s.cur >= 0 }

//go:norace
func choose(me int, can bool) int {
	var opts [maxTasks]int
	k := 0
	if can && me >= 0 {
		opts[0] = me
		k = 1
	}
	if !(k == 1 && s.preempts >= s.bound) {
		for i := 0; i < s.n; i++ {
			if i != me && s.state[i] == runnable {
				opts[k] = i
				k++
			}
		}
	}
	if k == 0 {
		return -1
	}
	if k == 1 {
		return opts[0]
	}
	if s.depth >= maxDepth {
		s.overflow = true
		return opts[0]
	}
	c := 0
	if s.depth < s.plen {
		c = int(s.prefix[s.depth])
		if c >= k {
			c = k - 1
		}
	}
	s.nopts[s.depth] = uint8(k)
	s.chosen[s.depth] = uint8(c)
	s.depth++
	if can && me >= 0 && c != 0 {
		s.preempts++
	}
	return opts[c]
}

//go:norace
func waitFor(me int) {
	for s.cur != me && !s.free {
		if s.dead {
			runtime.Goexit()
		}
		runtime.Gosched()
	}
}

// Yield is a scheduling point
//
//go:norace
func Yield() {
	if !controlled() {
		return
	}
	s.steps++
	me := s.cur
	if n := choose(me, true); n != me {
		s.cur = n
		waitFor(me)
	}
}

// block until the object is signalled
//
//go:norace
func block(p unsafe.Pointer) {
	s.steps++
	me := s.cur
	s.state[me] = blocked
	s.wait[me] = p
	n := choose(me, false)
	if n < 0 {
		s.dead = true
		s.cur = -1
		runtime.Goexit()
	}
	s.cur = n
	waitFor(me)
}

//go:norace
func signal(p unsafe.Pointer) {
	for i := 0; i < s.n; i++ {
		if s.state[i] == blocked && s.wait[i] == p {
			s.state[i] = runnable
			s.wait[i] = nil
		}
	}
}

//go:norace
func finish(me int) {
	if s.dead || s.free {
		s.state[me] = done
		return
	}
	s.state[me] = done
	n := choose(me, false)
	if n < 0 {
		for i := 0; i < s.n; i++ {
			if s.state[i] != done {
				s.dead = true
			}
		}
	}
	s.cur = n
}

//go:norace
func begin(n, bound int, prefix []uint8) {
	run := s.run + 1
	s.active, s.free, s.dead, s.overflow = true, false, false, false
	s.n, s.bound, s.preempts, s.depth, s.steps, s.run = n, bound, 0, 0, 0, run
	s.plen = len(prefix)
	for i := range prefix {
		s.prefix[i] = prefix[i]
	}
	for i := range s.state {
		s.state[i] = runnable
		s.wait[i] = nil
	}
	s.cur = -2
}

//go:norace
func release() { s.cur = choose(-1, false) }

//go:norace
func idle() bool { return s.cur == -1 }

//go:norace
func progress() uint64 { return s.steps }

//go:norace
func setFree() { s.free = true }

// Run executes the tasks under the schedule given by the prefix (choices
// beyond it are 0: keep running).  It returns the choices made and how many
// options there were at each of them.
func Run(tasks []func(), bound int, prefix []uint8) (chosen, nopts []uint8, o Outcome) {
	begin(len(tasks), bound, prefix)
	var wg sync.WaitGroup
	wg.Add(len(tasks))
	for i, t := range tasks {
		i, t := i, t
		go func() {
			defer wg.Done()
			defer finish(i)
			waitFor(i)
			t()
		}()
	}
	release()
	last, spins := progress(), 0
	t0 := time.Now()
	for !idle() {
		runtime.Gosched()
		spins++
		if spins&1023 == 0 {
			if p := progress(); p != last {
				last, t0 = p, time.Now()
			} else if time.Since(t0) > 3*time.Second {
				setFree()
				break
			}
		}
	}
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	select {
	case <-fin:
	case <-time.After(30 * time.Second):
		o.Stuck = true
		return
	}
	return collect(&o)
}

//go:norace
func collect(o *Outcome) ([]uint8, []uint8, Outcome) {
	o.Deadlock, o.Free, o.Depth, o.Steps, o.Preempts, o.Overflow = s.dead, s.free, s.depth, s.steps, s.preempts, s.overflow
	c, n := make([]uint8, s.depth), make([]uint8, s.depth)
	for i := range c {
		c[i], n[i] = s.chosen[i], s.nopts[i]
	}
	s.active = false
	return c, n, *o
}

// Next gives the prefix of the next schedule in depth-first order
func Next(chosen, nopts []uint8) ([]uint8, bool) {
	for i := len(chosen) - 1; i >= 0; i-- {
		if chosen[i]+1 < nopts[i] {
			p := append([]uint8{}, chosen[:i+1]...)
			p[i]++
			return p, true
		}
	}
	return nil, false
}
