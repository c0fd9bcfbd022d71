package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/zerosnake0/jzon"
)

// Values that cannot be encoded, found out after any amount of output.

type lateShape struct {
	name string
	// output of about n bytes, then bad
	mk func(n int, bad interface{}) interface{}
}

// structOf: a struct with fields of the given names and values
func structOf(kv ...interface{}) interface{} {
	var fs []reflect.StructField
	for i := 0; i < len(kv); i += 2 {
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: rt[interface{}](), Tag: reflect.StructTag(fmt.Sprintf("json:%q", kv[i]))})
	}
	p := reflect.New(reflect.StructOf(fs)).Elem()
	for i := 0; i < len(kv); i += 2 {
		if kv[i+1] != nil {
			p.Field(i / 2).Set(reflect.ValueOf(kv[i+1]))
		}
	}
	return p.Interface()
}

var lateShapes = []lateShape{
	{"string, then an element", func(n int, bad interface{}) interface{} { return []interface{}{longStr(n), bad} }},
	{"string, then a field", func(n int, bad interface{}) interface{} { return structOf("a", longStr(n), "b", bad) }},
	{"string, then a field of a long name", func(n int, bad interface{}) interface{} { return structOf("a", longStr(n), longStr(70), bad) }},
	{"string, then members of a map", func(n int, bad interface{}) interface{} {
		return []interface{}{longStr(n), map[string]interface{}{"a": 1, "b": bad}}
	}},
	{"string, then a member of a long name", func(n int, bad interface{}) interface{} {
		return []interface{}{longStr(n), map[string]interface{}{longStr(70): bad}}
	}},
	{"string, then an integer key", func(n int, bad interface{}) interface{} {
		return []interface{}{longStr(n), map[int]interface{}{-5: bad}}
	}},
	{"string, then a hook's key", func(n int, bad interface{}) interface{} {
		return []interface{}{longStr(n), map[TextInt]interface{}{5: bad}}
	}},
	{"many numbers", func(n int, bad interface{}) interface{} {
		l := make([]interface{}, n/2, n/2+1)
		for i := range l {
			l[i] = i % 10
		}
		return append(l, bad)
	}},
	{"many maps", func(n int, bad interface{}) interface{} {
		l := make([]interface{}, n/8, n/8+1)
		for i := range l {
			l[i] = map[string]int{"k": 1}
		}
		return append(l, map[string]interface{}{"a": bad})
	}},
	{"many structs", func(n int, bad interface{}) interface{} {
		l := make([]interface{}, n/8, n/8+1)
		for i := range l {
			l[i] = struct{ K, L int }{1, 2}
		}
		return append(l, struct {
			A int
			B interface{}
		}{1, bad})
	}},
	{"a raw value", func(n int, bad interface{}) interface{} {
		return []interface{}{json.RawMessage(`"` + longStr(n) + `"`), bad}
	}},
	{"a hook's output", func(n int, bad interface{}) interface{} {
		return []interface{}{marshalN{`"` + longStr(n) + `"`}, structOf("c", bad)}
	}},
	{"bytes", func(n int, bad interface{}) interface{} { return []interface{}{make([]byte, n*3/4), &bad} }},
	{"characters to escape", func(n int, bad interface{}) interface{} {
		return []interface{}{strings.Repeat("<", n/6), []interface{}{bad}}
	}},
	{"a long key", func(n int, bad interface{}) interface{} { return map[string]interface{}{longStr(n): bad} }},
	{"half before, half after", func(n int, bad interface{}) interface{} {
		return []interface{}{longStr(n / 2), bad, longStr(n / 2)}
	}},
	{"deep inside", func(n int, bad interface{}) interface{} {
		v := bad
		for i := 0; i < 20; i++ {
			v = []interface{}{longStr(n / 20), map[string]interface{}{"d": v}}
		}
		return v
	}},
}

func lateBads() []c09Val {
	b := func(name string, v interface{}) c09Val {
		return c09Val{name, func() interface{} { return v }, true, "", ""}
	}
	return []c09Val{
		b("json hook", FailJSON{}), b("text hook", FailText{}), b("NaN", math.NaN()), b("Inf32", float32(math.Inf(1))), b("chan", make(chan int)),
		b("number", json.Number("0x")), b("key hook", map[TextFail]int{{1}: 1}), b("late element", []interface{}{1, "x", func() {}}),
	}
}

func init() {
	bads := lateBads()
	addEngine("C09", &Engine{
		Name:   "late failures",
		Rule:   "values that turn out not to be encodable after n bytes of output, in every shape and for every reason, by an encoder (first, and after good values), a streamer, Marshal and AppendMarshal: the error is reported and nothing of the value reaches the writer",
		Bounds: fmt.Sprintf("%d shapes x %d reasons x sizes to 140000 (thorough 600000)", len(lateShapes), len(bads)),
		Units:  func(th bool) int { return len(lateShapes) * len(lateSizes(th)) },
		Run: func(w *W, unit int) {
			sizes := lateSizes(w.Thorough)
			sh := &lateShapes[unit%len(lateShapes)]
			n := sizes[len(sizes)-1-unit/len(lateShapes)]
			for bi, bad := range bads {
				if n > 10000 && !w.Thorough && (bi+unit)%3 > 0 {
					continue
				}
				for mode := 0; mode < 5; mode++ {
					if w.Stop() {
						return
					}
					if !w.Begin() {
						continue
					}
					desc := func() string {
						return fmt.Sprintf("%d bytes of %s, then %s: %s", n, sh.name, bad.name, []string{"Encode", "1, Encode", "Streamer.Value", "Streamer in an array", "Marshal"}[mode])
					}
					w.Announce(desc)
					w.Sample(desc)
					w.States++
					w.Transitions++
					w.Nontrivial++
					if err := lateRun(sh.mk(n, bad.v()), mode); err != nil {
						w.Fail(desc(), err)
						return
					}
				}
			}
		},
	})
	addEngine("C09", &Engine{
		Name:   "writer errors",
		Rule:   "every kind of error a writer returns (of io, context, os, net, syscall, JSON libraries, wrapped, empty, not comparable) x encoder and streamer histories x every failing position x {partial, refused, accepted with error}: the flushing call reports it, later calls of the encoder do not succeed",
		Bounds: fmt.Sprintf("%d errors, 7 values of 1..130 bytes and 3 of 600, 5000 and 70000, all positions to 150 and the ends", len(ioFaults)),
		Units:  func(bool) int { return len(ioFaults) },
		Run: func(w *W, unit int) {
			inj := ioFaults[unit]
			var vals []c09Val
			for _, v := range c09Vals() {
				if !v.bad {
					vals = append(vals, v)
				}
			}
			for _, n := range []int{600, 5000, 70000} {
				s := longStr(n)
				vals = append(vals, c09Val{fmt.Sprint(n), func() interface{} { return s }, false, `"` + s + `"`, ""})
			}
			for vi := range vals {
				v := &vals[vi]
				text := v.html + "\n"
				var ks []int
				for k := 0; k < len(text); k++ {
					if k <= 150 || k >= len(text)-2 || k == 4096 || k == 65536 {
						ks = append(ks, k)
					}
				}
				for _, k := range ks {
					for mode := 0; mode < 12; mode++ {
						if w.Stop() {
							return
						}
						if !w.Begin() {
							continue
						}
						desc := func() string {
							return fmt.Sprintf("%s, fault %T %v after %d bytes, mode %d, once %v, streamer %v", v.name, inj, inj, k, mode%3, mode/3%2 == 1, mode >= 6)
						}
						w.Announce(desc)
						w.States++
						w.Transitions += 3
						w.Nontrivial++
						fw := &faultWriter{limit: k, mode: mode % 3, once: mode/3%2 == 1, err: inj}
						err := func() (err error) {
							defer catch(&err)
							if mode < 6 {
								e := jzon.NewEncoder(fw)
								defer e.Release()
								if er := e.Encode(v.v()); !recognisable(er, inj) {
									return fmt.Errorf("the writer's error was replaced by %v", er)
								}
								got := fw.got.Len()
								for i := 0; i < 2; i++ {
									if er := e.Encode(1); er == nil || fw.got.Len() != got {
										return fmt.Errorf("a later Encode returns %v, the writer got %d more bytes", er, fw.got.Len()-got)
									}
								}
								return nil
							}
							s := jzon.NewStreamer()
							defer s.Release()
							s.Reset(fw)
							s.Value(v.v())
							if fw.writes > 0 {
								return fmt.Errorf("written before the flush")
							}
							if er := s.Flush(); mode%3 == 2 && k >= len(text)-1 {
								if er != nil {
									return er
								}
							} else if k < len(text)-1 && !recognisable(er, inj) {
								return fmt.Errorf("the writer's error was replaced by %v", er)
							}
							return nil
						}()
						if err == nil && !strings.HasPrefix(text, fw.got.String()) {
							err = fmt.Errorf("the writer got %q", clip(fw.got.String(), 300))
						}
						if err != nil {
							w.Fail(desc(), err)
							return
						}
					}
				}
			}
		},
	})
}

func lateSizes(th bool) []int {
	l := []int{0, 1, 30, 60, 64, 70, 200, 256, 500, 512, 520, 1000, 1024, 1100, 2000, 2048, 2100, 4000, 4096, 4200, 8000, 8192, 8300, 10000, 16000, 16384, 16500, 32000, 32768, 33000, 64000, 65536, 66000, 100000, 131072, 140000}
	if th {
		l = append(l, 200000, 262144, 300000, 524288, 600000)
	}
	return l
}

func lateRun(v interface{}, mode int) (err error) {
	defer catch(&err)
	fw := &faultWriter{limit: -1}
	var er error
	want := ""
	switch mode {
	case 0, 1:
		e := jzon.NewEncoder(fw)
		defer e.Release()
		if mode == 1 {
			if err := e.Encode(1); err != nil {
				return err
			}
			want = "1\n"
		}
		er = e.Encode(v)
	case 2, 3:
		s := jzon.NewStreamer()
		defer s.Release()
		s.Reset(fw)
		if mode == 3 {
			s.ArrayStart().Int(1)
		}
		s.Value(v)
		if s.Error == nil {
			return fmt.Errorf("no error after Value")
		}
		if mode == 3 {
			s.Int(2).ArrayEnd()
		}
		er = s.Flush()
	default:
		_, e := jzon.Marshal(v)
		er = e
		fw.got.Reset()
		if er2 := jzon.NewEncoder(&bytes.Buffer{}).Encode(v); er2 == nil {
			return fmt.Errorf("Encode succeeds, Marshal reports %v", e)
		}
	}
	if er == nil {
		return fmt.Errorf("no error")
	}
	if got := fw.got.String(); got != want && !(mode == 3 && (got == "[1" || got == "[1,")) {
		return fmt.Errorf("the writer got %d bytes: %q", len(got), clip(got, 200))
	}
	return nil
}
