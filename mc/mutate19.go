package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/zerosnake0/jzon"
)

// C19: hooks that change the value they are part of while it is encoded (or
// decoded).  What the library then writes is either the old or the new content
// of the place; never anything else, and never dependent on a collection.

type mutElem struct {
	ID  string
	act *mutAct
	pad [3]uintptr
}

type mutAct struct {
	at   int
	seen int
	f    func()
}

func (a *mutAct) step() {
	if a == nil {
		return
	}
	a.seen++
	if a.seen == a.at {
		a.f()
	}
	point()
}

func (e mutElem) MarshalJSON() ([]byte, error) {
	id := strings.Clone(e.ID)
	e.act.step()
	return []byte(`"` + id + `"`), nil
}

type mutText struct {
	ID  string
	act *mutAct
}

func (e mutText) MarshalText() ([]byte, error) {
	id := strings.Clone(e.ID)
	e.act.step()
	return []byte(id), nil
}

type mutPtrElem struct {
	ID  string
	act *mutAct
}

func (e *mutPtrElem) MarshalJSON() ([]byte, error) {
	id := strings.Clone(e.ID)
	e.act.step()
	return []byte(`"` + id + `"`), nil
}

func mutNew[T any](n int, mk func(i int) T) []T {
	s := make([]T, n)
	for i := range s {
		s[i] = mk(i)
	}
	return s
}

func tag19(p string, i int) string { return fmt.Sprintf("%s%d", p, i) }

// mutVals: build a value with n elements, whose at-th hook call replaces the
// container; m is the new length
var mutVals = []struct {
	name string
	f    func(n, m int, a *mutAct) interface{}
}{
	{"pointer to slice of values", func(n, m int, a *mutAct) interface{} {
		mk := func(p string) func(int) mutElem {
			return func(i int) mutElem { return mutElem{ID: tag19(p, i), act: a} }
		}
		s := mutNew(n, mk("o"))
		p := &s
		a.f = func() { *p = mutNew(m, mk("n")) }
		return p
	}},
	{"appended slice", func(n, m int, a *mutAct) interface{} {
		mk := func(p string) func(int) mutElem {
			return func(i int) mutElem { return mutElem{ID: tag19(p, i), act: a} }
		}
		s := mutNew(n, mk("o"))
		p := &s
		a.f = func() {
			for i := n; i < m; i++ {
				*p = append(*p, mutElem{ID: tag19("n", i), act: a})
			}
		}
		return p
	}},
	{"slice of pointers", func(n, m int, a *mutAct) interface{} {
		mk := func(p string) func(int) *mutElem {
			return func(i int) *mutElem { return &mutElem{ID: tag19(p, i), act: a} }
		}
		s := mutNew(n, mk("o"))
		p := &s
		a.f = func() { *p = mutNew(m, mk("n")) }
		return p
	}},
	{"slice of pointer receivers", func(n, m int, a *mutAct) interface{} {
		mk := func(p string) func(int) mutPtrElem {
			return func(i int) mutPtrElem { return mutPtrElem{ID: tag19(p, i), act: a} }
		}
		s := mutNew(n, mk("o"))
		p := &s
		a.f = func() { *p = mutNew(m, mk("n")) }
		return p
	}},
	{"slice of texts", func(n, m int, a *mutAct) interface{} {
		mk := func(p string) func(int) mutText {
			return func(i int) mutText { return mutText{ID: tag19(p, i), act: a} }
		}
		s := mutNew(n, mk("o"))
		p := &s
		a.f = func() { *p = mutNew(m, mk("n")) }
		return p
	}},
	{"slice in a field", func(n, m int, a *mutAct) interface{} {
		mk := func(p string) func(int) mutElem {
			return func(i int) mutElem { return mutElem{ID: tag19(p, i), act: a} }
		}
		b := &struct{ S []mutElem }{mutNew(n, mk("o"))}
		a.f = func() { b.S = mutNew(m, mk("n")) }
		return b
	}},
	{"slices in a slice", func(n, m int, a *mutAct) interface{} {
		mk := func(p string) func(int) []mutElem {
			return func(i int) []mutElem { return []mutElem{{ID: tag19(p, i), act: a}} }
		}
		s := mutNew(n, mk("o"))
		p := &s
		a.f = func() { *p = mutNew(m, mk("n")) }
		return p
	}},
	{"structs in a slice", func(n, m int, a *mutAct) interface{} {
		type T struct {
			V mutElem
			W *mutText
		}
		mk := func(p string) func(int) T {
			return func(i int) T {
				return T{mutElem{ID: tag19(p, i), act: a}, &mutText{ID: tag19(p, i), act: a}}
			}
		}
		s := mutNew(n, mk("o"))
		p := &s
		a.f = func() { *p = mutNew(m, mk("n")) }
		return p
	}},
	{"interfaces in a slice", func(n, m int, a *mutAct) interface{} {
		mk := func(p string) func(int) interface{} {
			return func(i int) interface{} {
				if i%2 == 0 {
					return mutElem{ID: tag19(p, i), act: a}
				}
				return &mutText{ID: tag19(p, i), act: a}
			}
		}
		s := mutNew(n, mk("o"))
		p := &s
		a.f = func() { *p = mutNew(m, mk("n")) }
		return p
	}},
	{"arrays behind a pointer", func(n, m int, a *mutAct) interface{} {
		type T struct{ P *[4]mutElem }
		mk := func(p string) *[4]mutElem {
			var x [4]mutElem
			for i := range x {
				x[i] = mutElem{ID: tag19(p, i), act: a}
			}
			return &x
		}
		t := &T{mk("o")}
		a.f = func() { t.P = mk("n") }
		return t
	}},
	{"slice in an interface", func(n, m int, a *mutAct) interface{} {
		mk := func(p string) func(int) mutElem {
			return func(i int) mutElem { return mutElem{ID: tag19(p, i), act: a} }
		}
		t := &struct{ I interface{} }{mutNew(n, mk("o"))}
		a.f = func() { t.I = mutNew(m, mk("n")) }
		return t
	}},
	{"embedded pointer", func(n, m int, a *mutAct) interface{} {
		mk := func(p string) *MutEmb {
			return &MutEmb{V0: mutElem{ID: tag19(p, 0), act: a}, V1: &mutElem{ID: tag19(p, 1), act: a}, V2: []mutElem{{ID: tag19(p, 2), act: a}}}
		}
		t := &struct{ *MutEmb }{mk("o")}
		a.f = func() { t.MutEmb = mk("n") }
		return t
	}},
	{"map value", func(n, m int, a *mutAct) interface{} {
		mk := func(p string) func(int) mutElem {
			return func(i int) mutElem { return mutElem{ID: tag19(p, i), act: a} }
		}
		t := map[string][]mutElem{"k": mutNew(n, mk("o"))}
		a.f = func() { t["k"] = mutNew(m, mk("n")) }
		return t
	}},
	{"pointers in a map", func(n, m int, a *mutAct) interface{} {
		mk := func(p string) func(int) mutElem {
			return func(i int) mutElem { return mutElem{ID: tag19(p, i), act: a} }
		}
		s := mutNew(n, mk("o"))
		t := map[string]*[]mutElem{"k": &s}
		a.f = func() { t["k"] = nil; s = mutNew(m, mk("n")) }
		return t
	}},
}

type MutEmb struct {
	V0 mutElem
	V1 *mutElem
	V2 []mutElem
}

// every string of the output is an o or n tag; within the outermost list the
// index agrees
func mutCheck(out []byte) error {
	i := 0
	for {
		j := bytes.IndexByte(out[i:], '"')
		if j < 0 {
			return nil
		}
		i += j + 1
		k := bytes.IndexByte(out[i:], '"')
		if k < 0 {
			return fmt.Errorf("unterminated string in %q", out)
		}
		s := string(out[i : i+k])
		i += k + 1
		if i < len(out) && out[i] == ':' {
			continue
		}
		var p byte
		var n int
		if c, _ := fmt.Sscanf(s, "%c%d", &p, &n); c != 2 || (p != 'o' && p != 'n') || n < 0 || n > 200 {
			return fmt.Errorf("%q is neither old nor new content: %q", s, out)
		}
	}
}

func init() {
	addEngine("C19", &Engine{
		Name:   "changing values",
		Rule:   "values whose hooks replace, lengthen or extend the container they are in, at every hook call, with no collection, one at every point and one at each single point: the output holds old or new content only and is the same in all runs",
		Bounds: fmt.Sprintf("%d shapes, lengths 1, 2, 5, 40, replaced by the same length, one more, and four times as many", len(mutVals)), Workers: 1,
		Units: func(bool) int { return len(mutVals) },
		Run: func(w *W, unit int) {
			v := mutVals[unit]
			for _, n := range []int{1, 2, 5, 40} {
				for _, m := range []int{n, n + 1, 4 * n} {
					for _, at := range []int{1, 2, 3, n / 2, n} {
						if at < 1 || at > n {
							continue
						}
						name := func() string {
							return fmt.Sprintf("%s of %d, replaced by %d at hook %d", v.name, n, m, at)
						}
						if !gcCase(w, name, func() (string, func() string) {
							a := &mutAct{at: at}
							out, err := jzon.Marshal(v.f(n, m, a))
							if err == nil {
								if e := mutCheck(out); e != nil {
									panic(e)
								}
							}
							return outErr(err) + string(out), nil
						}) {
							return
						}
					}
				}
			}
		},
	})
}
