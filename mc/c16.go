//go:build mcsched

package main

import (
	"fmt"
	"strings"

	"github.com/zerosnake0/jzon"

	"verif/mc/mcsync"
)

// C16: the real code under a controlled scheduler.  Built with the overlay that
// redirects sync and sync/atomic to the scheduled shims, and with the race
// detector, which sees only the program's own synchronisation.

// explore runs every schedule of the tasks made by mk within the preemption
// bound.  mk returns the tasks and a check of what they left behind.
func explore(w *W, bound int, desc func() string, mk func() ([]func(), func() error)) bool {
	var prefix []uint8
	for n := 0; ; n++ {
		if w.Stop() {
			return false
		}
		if !w.Begin() {
			return false
		}
		w.Announce(func() string { return fmt.Sprintf("%s, schedule %v", desc(), prefix) })
		tasks, check := mk()
		chosen, nopts, o := mcsync.Run(tasks, bound, prefix)
		w.States++
		w.Transitions += int64(o.Steps)
		if o.Preempts > 0 {
			w.Nontrivial++
		}
		sched := func() string { return fmt.Sprintf("%s, schedule %v", desc(), chosen) }
		w.Sample(sched)
		var err error
		switch {
		case o.Stuck:
			err = fmt.Errorf("the goroutines never finish")
		case o.Deadlock:
			err = fmt.Errorf("deadlock")
		case o.Overflow:
			err = nil // reported below
			fallthrough
		default:
			err = check()
		}
		if o.Free {
			w.Outcome("left the scheduler")
		}
		if o.Overflow {
			w.Outcome("more choice points than the bound: not exhaustive")
		}
		if err != nil {
			w.Fail(sched(), err)
			return false
		}
		var more bool
		prefix, more = mcsync.Next(chosen, nopts)
		if !more {
			return true
		}
	}
}

// sharing: the tasks are lists of uses of one fresh pair of configurations
func cacheTasks(ops []cacheOp, exp []string, seqs [][]int) ([]func(), func() error) {
	ec, dc := jzon.NewEncoderConfig(nil), jzon.NewDecoderConfig(nil)
	got := make([][]string, len(seqs))
	tasks := make([]func(), len(seqs))
	for t := range seqs {
		t := t
		tasks[t] = func() {
			for _, i := range seqs[t] {
				o := ops[i]
				got[t] = append(got[t], recovered(func() string { return o.f(ec, dc) }))
			}
		}
	}
	return tasks, func() error {
		for t := range seqs {
			for k, i := range seqs[t] {
				if len(got[t]) <= k {
					return fmt.Errorf("goroutine %d did not finish %s", t, ops[i].name)
				}
				if got[t][k] != exp[i] {
					return fmt.Errorf("goroutine %d, %s: %s; alone: %s", t, ops[i].name, clip(got[t][k], 600), clip(exp[i], 600))
				}
			}
		}
		// and again afterwards, alone
		for t := range seqs {
			for _, i := range seqs[t] {
				o := ops[i]
				if g := recovered(func() string { return o.f(ec, dc) }); g != exp[i] {
					return fmt.Errorf("later, %s: %s; alone: %s", o.name, clip(g, 600), clip(exp[i], 600))
				}
			}
		}
		return nil
	}
}

func cacheDesc(ops []cacheOp, seqs [][]int) func() string {
	return func() string {
		var x []string
		for _, s := range seqs {
			var y []string
			for _, i := range s {
				y = append(y, ops[i].name)
			}
			x = append(x, strings.Join(y, "; "))
		}
		return strings.Join(x, " || ")
	}
}

func cacheExp(ops []cacheOp) []string {
	exp := make([]string, len(ops))
	for i, o := range ops {
		exp[i] = recovered(func() string { return o.f(jzon.NewEncoderConfig(nil), jzon.NewDecoderConfig(nil)) })
	}
	return exp
}

// multisets of size n over 0..k-1, in order
func multisets(n, k int) [][]int {
	var out [][]int
	product(n, k, func(v []int) bool {
		for i := 1; i < n; i++ {
			if v[i] < v[i-1] {
				return true
			}
		}
		out = append(out, append([]int{}, v...))
		return true
	})
	return out
}

func cacheEngine(name, bounds string, ops func() []cacheOp, qb, tb int, seqsOf func(n int) [][][]int) *Engine {
	return &Engine{
		Name:   name,
		Rule:   "every schedule within the preemption bound (scheduling points: every operation of sync and sync/atomic in the library, every hook call) of goroutines which share one fresh encoder and one fresh decoder configuration: each result equals the result on a configuration of its own, uses afterwards as well, no data race, no deadlock",
		Bounds: bounds, Workers: 1, WholeUnit: true,
		Units: func(bool) int { return len(seqsOf(len(ops()))) },
		Run: func(w *W, unit int) {
			l := ops()
			if w.local[name] == nil {
				w.local[name] = cacheExp(l)
			}
			exp := w.local[name].([]string)
			seqs := seqsOf(len(l))[unit]
			b := qb
			if w.Thorough {
				b = tb
			}
			explore(w, b, cacheDesc(l, seqs), func() ([]func(), func() error) { return cacheTasks(l, exp, seqs) })
		},
	}
}

func pick(names ...string) func() []cacheOp {
	return func() []cacheOp {
		var out []cacheOp
		for _, o := range cacheOps() {
			for _, n := range names {
				if strings.HasPrefix(o.name, n) {
					out = append(out, o)
					break
				}
			}
		}
		return out
	}
}

func each(l [][]int) [][][]int {
	var out [][][]int
	for _, m := range l {
		var s [][]int
		for _, i := range m {
			s = append(s, []int{i})
		}
		out = append(out, s)
	}
	return out
}

func init() {
	pointFn = mcsync.Yield
	register(&Property{ID: "C16", Shards: 8,
		Env: []string{"GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS=1"},
		Assumptions: []string{
			"interleavings differ only at synchronisation operations and hook calls; unsynchronised conflicting accesses in between are found by the race detector in the explored schedules",
			"sync.Pool hands out the object returned last to whoever asks next",
		},
		Engines: []*Engine{
			cacheEngine("two users, first use", "all pairs of 32 uses of mutually recursive, embedded, hooked and unsupported types, preemption bound 2 (thorough 4)", cacheOps, 2, 4,
				func(n int) [][][]int { return each(multisets(2, n)) }),
			cacheEngine("three users, first use", "all triples of 10 uses, preemption bound 1 (thorough 2)",
				pick("Marshal CyA", "Marshal CyB", "Marshal CyUseBad", "Marshal CySlice", "Unmarshal main.CyA", "Unmarshal main.CyB ", "Unmarshal main.CyUseBad", "Unmarshal main.CySlice", "Unmarshal main.CyHook"), 1, 2,
				func(n int) [][][]int { return each(multisets(3, n)) }),
			cacheEngine("two users, two uses each", "all pairs of sequences of 2 of 8 uses, preemption bound 2 (thorough 3)",
				pick("Marshal CyA", "Marshal CyB", "Marshal CyOne", "Unmarshal main.CyA", "Unmarshal main.CyB ", "Unmarshal main.CyC"), 1, 3,
				func(n int) [][][]int {
					var out [][][]int
					product(4, n, func(v []int) bool {
						if v[0]*n+v[1] <= v[2]*n+v[3] {
							out = append(out, [][]int{{v[0], v[1]}, {v[2], v[3]}})
						}
						return true
					})
					return out
				}),
			poolEngine("shared pools", "all pairs of 58 operations, preemption bound 1 (thorough 2)", 1, 2, func(n int) [][][]int { return each(multisets(2, n)) }),
			poolEngine("shared pools, reused", "all pairs of operations, one goroutine performing both in either order while the other performs the first; preemption bound 1 (thorough 2)", 1, 2, func(n int) [][][]int {
				var out [][][]int
				product(2, n, func(v []int) bool {
					out = append(out, [][]int{{v[0], v[1]}, {v[1]}})
					return true
				})
				return out
			}),
		}})
}

func poolEngine(name, bounds string, qb, tb int, seqsOf func(n int) [][][]int) *Engine {
	return &Engine{
		Name:   name,
		Rule:   "every schedule within the preemption bound (scheduling points: every operation of sync and sync/atomic in the library, every hook call, reads and writes of the user's readers and writers) of goroutines performing operations of the C15 alphabet, which recycle their objects through shared pools: each outcome equals the outcome alone, results kept are unchanged at the end, no data race, no deadlock",
		Bounds: bounds, Workers: 1, WholeUnit: true,
		Units: func(bool) int { return len(seqsOf(len(histOps()))) },
		Run: func(w *W, unit int) {
			l := histOps()
			exp := histExpected(l)
			seqs := seqsOf(len(l))[unit]
			b := qb
			if w.Thorough {
				b = tb
			}
			desc := func() string {
				var x []string
				for _, s := range seqs {
					var y []string
					for _, i := range s {
						y = append(y, l[i].name)
					}
					x = append(x, strings.Join(y, "; "))
				}
				return strings.Join(x, " || ")
			}
			explore(w, b, desc, func() ([]func(), func() error) {
				tasks := make([]func(), len(seqs))
				errs := make([]error, len(seqs))
				hs := make([]*hist, len(seqs))
				for t := range seqs {
					t := t
					hs[t] = newHist()
					errs[t] = fmt.Errorf("goroutine %d did not finish", t)
					tasks[t] = func() { errs[t] = runHist(l, exp, seqs[t], hs[t]) }
				}
				return tasks, func() error {
					for t := range seqs {
						if errs[t] != nil {
							return fmt.Errorf("goroutine %d: %v", t, errs[t])
						}
						for _, v := range hs[t].live {
							if s := v.v(); s != v.snap {
								return fmt.Errorf("goroutine %d: a result changed: %s became %s", t, clip(v.snap, 500), clip(s, 500))
							}
						}
					}
					return nil
				}
			})
		},
	}
}
