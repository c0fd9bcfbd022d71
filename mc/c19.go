package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"runtime"
	"strings"

	"github.com/zerosnake0/jzon"
)

// C19: a collection (and a stack move) at every point where control leaves the
// library: every read of the input, every hook, every write.  Automatic
// collection is off, freed memory is overwritten (GODEBUG=clobberfree=1) and
// the pointer checks of the compiler are on.

var gcAt, gcSeen int

// gcPoint collects at the chosen point (gcAt < 0: at every point)
func gcPoint() {
	gcSeen++
	if gcAt < 0 || gcSeen == gcAt {
		growStack(40)
		runtime.GC()
	}
}

//go:noinline
func growStack(n int) byte {
	var pad [1024]byte
	pad[n%len(pad)] = byte(n)
	if n > 0 {
		return growStack(n-1) + pad[n%len(pad)]
	}
	return pad[0]
}

// withGC runs f on a small stack of its own with the collection at point k
func withGC(k int, f func()) (points int, err error) {
	gcAt, gcSeen = k, 0
	pointFn = gcPoint
	done := make(chan error)
	go func() {
		var e error
		func() {
			defer catch(&e)
			f()
		}()
		done <- e
	}()
	err = <-done
	pointFn = nil
	return gcSeen, err
}

// gcCase runs op without a collection, with one at every point, and with one at
// each single point; op returns the description of its outcome and a function
// describing the values it returned, called again after further collections.
func gcCase(w *W, name func() string, op func() (string, func() string)) bool {
	return gcCaseN(w, name, op, true)
}

// gcAllCase: only with none and with one at every point
func gcAllCase(w *W, name func() string, op func() (string, func() string)) bool {
	return gcCaseN(w, name, op, false)
}

func gcCaseN(w *W, name func() string, op func() (string, func() string), single bool) bool {
	var want string
	n := 0
	for k := 0; k >= -1; {
		if !w.Begin() {
			if w.Stop() {
				return false
			}
			if k > 0 && n > 0 {
				k++
				if k > n {
					return true
				}
				continue
			}
		}
		kk := k
		desc := func() string {
			switch {
			case kk == 0:
				return name() + ", no collection"
			case kk < 0:
				return name() + ", a collection at every point"
			}
			return fmt.Sprintf("%s, a collection at point %d of %d", name(), kk, n)
		}
		w.Announce(desc)
		w.States++
		var got string
		var later func() string
		pts, err := withGC(k, func() { got, later = op() })
		w.Transitions += int64(pts)
		if err == nil && later != nil {
			first := later()
			if k != 0 {
				runtime.GC()
				churn19()
			}
			if s := later(); s != first {
				err = fmt.Errorf("a returned value changed later: %s became %s", clip(first, 600), clip(s, 600))
			}
			got += " / " + first
		}
		if k == 0 {
			want, n = got, pts
			w.Sample(desc)
		} else if err == nil && got != want {
			err = fmt.Errorf("got %s; without a collection %s", clip(got, 600), clip(want, 600))
		}
		if k != 0 {
			w.Nontrivial++
		}
		if err != nil {
			w.Fail(desc(), err)
			return false
		}
		// 0 (none), -1 (all), then 1..n
		switch {
		case k == 0:
			if n == 0 {
				return true
			}
			k = -1
		case k == -1:
			if n == 1 || !single {
				return true
			}
			k = 1
		default:
			k++
			if k > n {
				return true
			}
		}
	}
	return true
}

var churnSink [][]byte

// churn19 takes freed memory into use
func churn19() {
	churnSink = churnSink[:0]
	for sz := 8; sz <= 512; sz += sz/4 + 8 {
		b := make([]byte, sz)
		for i := range b {
			b[i] = 0xEE
		}
		churnSink = append(churnSink, b)
	}
	jzon.Valid([]byte(`[{"a":[1,2,"xyzxyzxyz"]}]`))
	var x interface{}
	jzon.Unmarshal([]byte(`["zzzzzzzzzzzzzzzzzzzzzzzzzzzz\n",{"q":1}]`), &x)
	jzon.Marshal([]string{"wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww"})
}

func gcReader(text string, n int) *chunkReader {
	r := newChunk([]byte(text), n)
	r.onRead = point
	return r
}

// gcBoxes wrap a value with hooks, so that there are points around it
var gcBoxes = []struct {
	name string
	f    func(v reflect.Value) interface{}
}{
	{"between hooks", func(v reflect.Value) interface{} {
		return []interface{}{JSONStruct{"1"}, v.Interface(), TextInt(2), v.Interface(), JSONStruct{"3"}}
	}},
	{"struct", func(v reflect.Value) interface{} {
		t := reflect.StructOf([]reflect.StructField{sf("A", rt[JSONStruct](), ""), sf("V", v.Type(), ""), sf("B", rt[*TextInt](), ""), sf("W", v.Type(), `json:",omitempty"`), sf("C", rt[JSONStruct](), "")})
		p := reflect.New(t)
		p.Elem().Field(1).Set(v)
		ti := TextInt(4)
		p.Elem().Field(2).Set(reflect.ValueOf(&ti))
		p.Elem().Field(3).Set(v)
		return p.Interface()
	}},
	{"map value", func(v reflect.Value) interface{} {
		m := reflect.MakeMap(reflect.MapOf(rt[TextInt](), v.Type()))
		m.SetMapIndex(reflect.ValueOf(TextInt(1)), v)
		return m.Interface()
	}},
	{"map of pairs", func(v reflect.Value) interface{} {
		t := reflect.StructOf([]reflect.StructField{sf("V", reflect.PtrTo(v.Type()), ""), sf("B", rt[JSONStruct](), ""), sf("W", v.Type(), "")})
		m := reflect.MakeMap(reflect.MapOf(tStr, t))
		for _, k := range []string{"x", "y", "z"} {
			e := reflect.New(t).Elem()
			p := reflect.New(v.Type())
			p.Elem().Set(v)
			e.Field(0).Set(p)
			e.Field(2).Set(v)
			m.SetMapIndex(reflect.ValueOf(k), e)
		}
		return m.Interface()
	}},
	{"array of arrays", func(v reflect.Value) interface{} {
		t := reflect.StructOf([]reflect.StructField{sf("B", rt[DirectStructJSON](), ""), sf("W", v.Type(), "")})
		a := reflect.New(reflect.ArrayOf(2, t)).Elem()
		for i := 0; i < 2; i++ {
			a.Index(i).Field(0).Set(reflect.ValueOf(DirectStructJSON{ip(i)}))
			a.Index(i).Field(1).Set(v)
		}
		return a.Interface()
	}},
}

var gcDocs = []string{
	`null`, `true`, `-12`, `1.5e3`, `"plain"`, `"a\n\u00e9\ud83d\ude00b"`, `[]`, `{}`, `[1,"two",[3],{"f":null}]`, `{"a":{"b":"c\t"},"A":[1]}`, `{"A":"QUI=","b":"x"}`, ` [ "a" , "b" ] `,
	`"AQIDBAUGBwgJ"`, `{"1":"x","2":"y"}`, `[{"A":1,"b":"s"},{"A":2}]`, `{"a":1,"zz":[{"k":"v"}],"b":"` + strings.Repeat("w", 70) + `"}`,
	`"` + strings.Repeat("s", 80) + `"`, `["x",tru`, `{"A":"cut`, `{"F0":1,"F3":[1],"F9":"z","F10":5}`,
}

func init() {
	init19 := func(w *W) {}
	_ = init19
	register(&Property{ID: "C19", Shards: 8,
		Env: []string{"GODEBUG=clobberfree=1", "GOGC=off", "GOMAXPROCS=1"},
		Assumptions: []string{
			"collections are forced where control leaves the library (reads of the input, hooks, writes); with a one-byte reader that is between any two consumed bytes, but not inside a library routine that calls out nowhere",
			"freed memory is overwritten by the runtime (clobberfree), pointer arithmetic is checked by the compiler's instrumentation",
		},
		Engines: []*Engine{
			{
				Name:   "reads",
				Rule:   "every iterator operation on every document read byte by byte (and in blocks of 7): no collection, a collection at every read, and one at each single read: same result, and the returned values are unchanged after further collections and operations",
				Bounds: "57 operations, 20 documents, 2 chunkings", Workers: 1,
				Units: func(bool) int { return len(itOps) },
				Run: func(w *W, unit int) {
					op := itOps[unit]
					for _, d := range gcDocs {
						for _, ch := range []int{1, 7} {
							if !gcCase(w, func() string { return fmt.Sprintf("%s of %s by %d", op.name, d, ch) }, func() (string, func() string) {
								it := jzon.NewIterator()
								it.Reset(gcReader(d, ch))
								r := runOp(it, op)
								it.Release()
								return outErr(r.err), func() string { return deep(r.val) }
							}) {
								return
							}
						}
					}
				},
			},
			{
				Name:   "types",
				Rule:   "every type of the universe x its values: the text decoded byte by byte with no, every and each single collection; same result, unchanged after further collections",
				Bounds: "universe of depth 1 (thorough 2), 4 values per type", Workers: 1,
				Units: func(th bool) int {
					if th {
						return len(universe(2))
					}
					return len(universe(1))
				},
				Run: func(w *W, unit int) {
					d := 1
					if w.Thorough {
						d = 2
					}
					u := universe(d)[unit]
					if !u.dec {
						return
					}
					for i, v := range valuesOf(u.t, 4) {
						text, err := json.Marshal(v.Interface())
						if err != nil {
							continue
						}
						if !gcCase(w, func() string { return fmt.Sprintf("%s value %d from %s", u.t, i, text) }, func() (string, func() string) {
							p := reflect.New(u.t)
							err := jzon.UnmarshalFromReader(gcReader(string(text), 1), p.Interface())
							return outErr(err), func() string { return deepv(p.Elem(), 0) }
						}) {
							return
						}
					}
				},
			},
			{
				Name:   "encoding",
				Rule:   "every type of the universe x its values, standing between hooks in slices, structs, maps and arrays, encoded with no, every and each single collection at the hooks; the value is reachable only through the argument; same bytes, source unchanged",
				Bounds: "universe of depth 1 (thorough 2), 3 values per type, 5 surroundings", Workers: 1,
				Units: func(th bool) int {
					if th {
						return len(universe(2))
					}
					return len(universe(1))
				},
				Run: func(w *W, unit int) {
					d := 1
					if w.Thorough {
						d = 2
					}
					u := universe(d)[unit]
					for i := range valuesOf(u.t, 3) {
						for _, box := range gcBoxes {
							if !gcCase(w, func() string { return fmt.Sprintf("%s value %d, %s", u.t, i, box.name) }, func() (string, func() string) {
								b, err := jzon.Marshal(box.f(valuesOf(u.t, 3)[i]))
								if err != nil {
									return outErr(err), nil
								}
								c, _ := jcanon(b)
								return c, func() string { c, _ := jcanon(b); return c }
							}) {
								return
							}
						}
					}
				},
			},
			{
				Name:   "destinations",
				Rule:   "decoding into prepared destinations (C18) byte by byte with a collection at every read and none: same destination and same prior objects",
				Bounds: "types to depth 1, all prior contents, documents of up to 3 values over two scalars (thorough 3 scalars, depth 2)", Workers: 1,
				Units: func(th bool) int {
					if th {
						return len(types18(2))
					}
					return len(types18(1))
				},
				Run: func(w *W, unit int) {
					d, leaves := 1, []string{"null", "4"}
					if w.Thorough {
						d, leaves = 2, []string{"null", "4", `"s\n"`}
					}
					t := types18(d)[unit]
					for pi, m := range priors(t, 0) {
						for _, s := range shapes18(3, leaves) {
							if refDec(newDest(t, m).v, s, keys18[0]) != nil {
								continue
							}
							if !w.Begin() {
								if w.Stop() {
									return
								}
								continue
							}
							text := textOf18(s, keys18[0])
							desc := func() string { return fmt.Sprintf("%s prior %d <- %s, a collection at every read", t, pi, text) }
							w.Announce(desc)
							w.States++
							w.Nontrivial++
							a, b := newDest(t, m), newDest(t, m)
							e2 := refDec(b.v, s, keys18[0])
							var e1 error
							pts, err := withGC(-1, func() { e1 = jzon.UnmarshalFromReader(gcReader(text, 1), a.v.Addr().Interface()) })
							w.Transitions += int64(pts)
							if err == nil && (e1 == nil) != (e2 == nil) {
								err = fmt.Errorf("error %v, want %v", e1, e2)
							}
							if err == nil {
								err = sameDest(a, b)
							}
							if err == nil && !a.guards() {
								err = fmt.Errorf("memory next to the destination was changed")
							}
							if err != nil {
								w.Fail(desc(), err)
								return
							}
						}
					}
				},
			},
			{
				Name:   "histories",
				Rule:   "every pair of operations of the C15 alphabet with a collection at every hook, read and write and between them: each outcome is the one without collections, results kept are unchanged",
				Bounds: "pairs of 56 operations (thorough triples over the first 24)", Workers: 1,
				Units: func(bool) int { return len(histOps()) },
				Run: func(w *W, unit int) {
					l := histOps()
					exp := histExpected(l)
					n := 2
					if w.Thorough {
						n = 3
					}
					product(n-1, len(l), func(v []int) bool {
						if !w.Begin() {
							return !w.Stop()
						}
						seq := append([]int{unit}, v...)
						desc := func() string {
							var x []string
							for _, i := range seq {
								x = append(x, l[i].name)
							}
							return strings.Join(x, "; ") + " with collections"
						}
						w.Announce(desc)
						w.Sample(desc)
						w.States++
						w.Nontrivial++
						h := newHist()
						var err error
						pts, e := withGC(-1, func() {
							for _, i := range seq {
								if err = runHist(l, exp, []int{i}, h); err != nil {
									return
								}
								runtime.GC()
								for _, lv := range h.live {
									if s := lv.v(); s != lv.snap {
										err = fmt.Errorf("a kept result changed: %s became %s", clip(lv.snap, 400), clip(s, 400))
										return
									}
								}
							}
						})
						w.Transitions += int64(pts)
						if err == nil {
							err = e
						}
						if err != nil {
							w.Fail(desc(), err)
							return false
						}
						return !w.Stop()
					})
				},
			},
			{
				Name:   "streams",
				Rule:   "decoders and encoders over several values, with collections at every read, write and hook: same values, offsets and bytes",
				Bounds: "7 streams, 4 chunkings, each single point", Workers: 1,
				Units: func(bool) int { return 7 },
				Run: func(w *W, unit int) {
					streams := []string{`1 "two" [3] {"four":"4\n"}`, `{"a":[{"b":"c"}]}{"a":[]}`, `"` + strings.Repeat("q", 90) + `" "` + strings.Repeat("r\\n", 40) + `"`, `null true false`, ` [ [ "x" ] ] [[1`, `{"A":1,"b":"x"} {"A":"bad"} 3`, longText}
					text := streams[unit]
					for _, ch := range []int{1, 3, 16, 64} {
						if len(text) > 300 && ch < 64 {
							continue
						}
						if !gcCase(w, func() string { return fmt.Sprintf("stream %s by %d", clip(text, 80), ch) }, func() (string, func() string) {
							d := jzon.NewDecoder(gcReader(text, ch))
							var vals []interface{}
							out := ""
							for i := 0; i < 6; i++ {
								var x interface{}
								err := d.Decode(&x)
								out += fmt.Sprint(d.InputOffset(), outErr(err), ";")
								if err != nil {
									break
								}
								vals = append(vals, x)
							}
							d.Release()
							var bb bytes.Buffer
							e := jzon.NewEncoder(gcWriter{&bb})
							for _, v := range vals {
								out += outErr(e.Encode([]interface{}{JSONStruct{"q"}, v}))
							}
							e.Release()
							return out, func() string { return deep(vals) + canonLines(bb.Bytes()) }
						}) {
							return
						}
					}
				},
			},
		}})
}

func canonLines(b []byte) string {
	out := ""
	for _, l := range bytes.Split(b, []byte("\n")) {
		c, _ := jcanon(l)
		out += c + "\n"
	}
	return out
}

type gcWriter struct{ b *bytes.Buffer }

func (g gcWriter) Write(p []byte) (int, error) {
	point()
	return g.b.Write(p)
}
