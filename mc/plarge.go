package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/zerosnake0/jzon"
)

// The "large" engines: numbers of elements, members and bytes around the
// powers of two at which 12, 13, 14, 15, 16 and 17 bits overflow.

func largeSizes(th bool) []int {
	l := []int{4095, 4096, 4097, 8193, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70001}
	if th {
		l = append(l, 131071, 131072, 131073, 262145, 1000003)
	}
	return l
}

type largeFam struct {
	name string
	mk   func(n int) interface{}
}

func sliceN[T any](n int, f func(i int) T) []T {
	l := make([]T, n)
	for i := range l {
		l[i] = f(i)
	}
	return l
}

var largeFams = []largeFam{
	{"[]int", func(n int) interface{} { return sliceN(n, func(i int) int { return i*7 - 3 }) }},
	{"[]int8", func(n int) interface{} { return sliceN(n, func(i int) int8 { return int8(i * 7) }) }},
	{"[]uint16", func(n int) interface{} { return sliceN(n, func(i int) uint16 { return uint16(i * 7) }) }},
	{"[]byte", func(n int) interface{} { return sliceN(n, func(i int) byte { return byte(i * 7) }) }},
	{"[]bool", func(n int) interface{} { return sliceN(n, func(i int) bool { return i*i%7 == 2 }) }},
	{"[]float64", func(n int) interface{} { return sliceN(n, func(i int) float64 { return float64(i) / 8 }) }},
	{"[]string", func(n int) interface{} { return sliceN(n, func(i int) string { return "s<" + strconv.Itoa(i) }) }},
	{"[]json.Number", func(n int) interface{} {
		return sliceN(n, func(i int) json.Number { return json.Number(strconv.Itoa(i)) })
	}},
	{"[]json.RawMessage", func(n int) interface{} {
		return sliceN(n, func(i int) json.RawMessage { return json.RawMessage("[" + strconv.Itoa(i) + "]") })
	}},
	{"[]interface{}", func(n int) interface{} {
		return sliceN(n, func(i int) interface{} { return []interface{}{float64(i), "t", nil, true, []interface{}{}}[i%5] })
	}},
	{"[]*int", func(n int) interface{} {
		return sliceN(n, func(i int) *int {
			if i%3 == 0 {
				return nil
			}
			return ip(i)
		})
	}},
	{"[]S2", func(n int) interface{} { return sliceN(n, func(i int) S2 { return S2{A: i, B: "b"} }) }},
	{"[]S0", func(n int) interface{} { return make([]S0, n) }},
	{"[][]int", func(n int) interface{} { return sliceN(n, func(i int) []int { return []int{i} }) }},
	{"[][2]uint8", func(n int) interface{} { return sliceN(n, func(i int) [2]uint8 { return [2]uint8{uint8(i), 1} }) }},
	{"[]map[string]int", func(n int) interface{} {
		return sliceN(n, func(i int) map[string]int { return map[string]int{"k": i} })
	}},
	{"[]JSONStruct", func(n int) interface{} { return sliceN(n, func(i int) JSONStruct { return JSONStruct{"h"} }) }},
	{"[]TextInt", func(n int) interface{} { return sliceN(n, func(i int) TextInt { return TextInt(i) }) }},
	{"[n]int32", func(n int) interface{} {
		v := reflect.New(reflect.ArrayOf(n, rt[int32]())).Elem()
		for i := 0; i < n; i++ {
			v.Index(i).SetInt(int64(i * 5))
		}
		return v.Interface()
	}},
	{"[n]string", func(n int) interface{} {
		v := reflect.New(reflect.ArrayOf(n, rt[string]())).Elem()
		for i := 0; i < n; i++ {
			v.Index(i).SetString(strconv.Itoa(i))
		}
		return v.Interface()
	}},
	{"map[string]int", func(n int) interface{} {
		m := map[string]int{}
		for i := 0; i < n; i++ {
			m["k"+strconv.Itoa(i)] = i
		}
		return m
	}},
	{"map[int]string", func(n int) interface{} {
		m := map[int]string{}
		for i := 0; i < n; i++ {
			m[i-n/2] = strconv.Itoa(i)
		}
		return m
	}},
	{"map[TextInt]bool", func(n int) interface{} {
		m := map[TextInt]bool{}
		for i := 0; i < n; i++ {
			m[TextInt(i)] = i%2 == 0
		}
		return m
	}},
	{"string", func(n int) interface{} { return longStr(n) }},
	{"string to escape", func(n int) interface{} { return strings.Repeat("<\n", n/2) + "é" }},
	{"string of wide characters", func(n int) interface{} { return strings.Repeat("a中😀", n/8) }},
	{"long keys", func(n int) interface{} {
		return map[string]map[string]int{longStr(n): {longStr(n - 1): 1, "b": 2}}
	}},
	{"struct around", func(n int) interface{} {
		return struct {
			A []int16
			B string
			C []string `json:"c,omitempty"`
			D int      `json:"d,string"`
		}{sliceN(n, func(i int) int16 { return int16(i) }), longStr(n), []string{longStr(n / 2)}, n}
	}},
	{"interface{} around", func(n int) interface{} {
		return []interface{}{map[string]interface{}{"a": sliceN(n, func(i int) interface{} { return float64(i) }), "b": longStr(n)}, longStr(n)}
	}},
}

func init() {
	units := func(th bool) int { return len(largeSizes(th)) * len(largeFams) }
	// the largest first
	pick := func(th bool, unit int) (largeFam, int) {
		l := largeSizes(th)
		return largeFams[unit%len(largeFams)], l[len(l)-1-unit/len(largeFams)]
	}
	bounds := fmt.Sprintf("%d types; around 2^12..2^16 elements, members or bytes, and 70001 (thorough to 1000003)", len(largeFams))
	addEngine("C11", &Engine{
		Name: "large", Rule: "values with many elements, members or bytes, encoded with and without html escaping on every path: as the standard library", Bounds: bounds, Units: units,
		Run: func(w *W, unit int) {
			f, n := pick(w.Thorough, unit)
			v := reflect.ValueOf(f.mk(n))
			name := func() string { return fmt.Sprintf("%s of %d", f.name, n) }
			if c11Case(w, jzon.DefaultEncoderConfig, true, v, name) && (w.Thorough || n%2 == 1) {
				c11Case(w, c15NoHTML, false, v, name)
			}
		},
	})
	addEngine("C13", &Engine{
		Name: "large", Rule: "values with many elements, members or bytes, encoded and decoded again through every pair of paths", Bounds: bounds, Units: units,
		Run: func(w *W, unit int) {
			f, n := pick(w.Thorough, unit)
			v := reflect.ValueOf(f.mk(n))
			k := 1
			if w.Thorough || n < 9000 {
				k = len(rtPairs)
			}
			c13Case(w, jzon.DefaultEncoderConfig, jzon.DefaultDecoderConfig, v, v.Type(), true, k, fmt.Sprintf("%s of %d", f.name, n))
		},
	})
	addEngine("C21", &Engine{
		Name: "large", Rule: "documents with many elements, members or bytes, complete, one element short, with a wrong element or a syntax error at the end, decoded into their own and related types from slices and readers: as the standard library", Bounds: bounds, Units: units,
		Run: func(w *W, unit int) {
			f, n := pick(w.Thorough, unit)
			v := reflect.ValueOf(f.mk(n))
			text, err := json.Marshal(v.Interface())
			if err != nil {
				return
			}
			ts := []reflect.Type{v.Type(), rt[interface{}]()}
			switch v.Kind() {
			case reflect.Array:
				ts = append(ts, reflect.SliceOf(v.Type().Elem()))
			case reflect.Slice:
				if v.Type().Elem().Kind() != reflect.Uint8 {
					ts = append(ts, reflect.ArrayOf(n, v.Type().Elem()), reflect.ArrayOf(n-1, v.Type().Elem()))
				}
			}
			docs := [][]byte{text}
			switch text[0] {
			case '[':
				docs = append(docs, append(text[:len(text)-1:len(text)-1], ",[[1]]]"...), text[:len(text)-1:len(text)-1], append(text[:len(text)-1:len(text)-1], ",]"...), append(text[:len(text)-1:len(text)-1], '}'))
			case '{':
				docs = append(docs, append(text[:len(text)-1:len(text)-1], `,"7":[[1]]}`...), text[:len(text)-1:len(text)-1], append(text[:len(text)-1:len(text)-1], ",}"...))
			case '"':
				docs = append(docs, text[:len(text)-1:len(text)-1], append(text[:len(text)-1:len(text)-1], "\n\""...), append(text[:len(text)-1:len(text)-1], `\u12"`...))
			}
			for ti, t := range ts {
				c := c21Type{name: t.String(), t: t}
				typeScan(t, map[reflect.Type]bool{}, &c.loose, &c.intKey)
				for di, d := range docs {
					entries := 0
					if di == 0 && ti == 0 {
						entries = 2
					}
					if !w.Begin() {
						if w.Stop() {
							return
						}
						continue
					}
					desc := func() string { return fmt.Sprintf("%s <- %s of %d, variant %d", t, f.name, n, di) }
					w.Announce(desc)
					w.Sample(desc)
					w.Transitions++
					ok, err := c21Judge(&c, d, entries)
					if ok {
						w.Nontrivial++
					}
					if err != nil {
						w.Fail(desc(), err)
						return
					}
				}
			}
		},
	})
	addEngine("C18", &Engine{
		Name: "large", Rule: "documents with many elements or members decoded over prior values with few, as many, more and twice as many: as the standard library", Bounds: bounds, Units: units,
		Run: func(w *W, unit int) {
			f, n := pick(w.Thorough, unit)
			v := reflect.ValueOf(f.mk(n))
			text, err := json.Marshal(v.Interface())
			if err != nil || strings.Contains(v.Type().String(), "JSONStruct") {
				return
			}
			for _, m := range []int{1, n / 2, n - 1, n, n + 1, 2 * n} {
				if m > 70001 && !w.Thorough || v.Kind() == reflect.Array && m != n {
					continue
				}
				for mode := 0; mode < 2; mode++ {
					if w.Stop() {
						return
					}
					if !w.Begin() {
						continue
					}
					desc := func() string {
						return fmt.Sprintf("%s of %d over a value of %d, %s", f.name, n, m, []string{"slice", "reader"}[mode])
					}
					w.Announce(desc)
					w.Sample(desc)
					w.States++
					w.Transitions++
					w.Nontrivial++
					err := func() (err error) {
						defer catch(&err)
						a, b := reflect.New(v.Type()), reflect.New(v.Type())
						a.Elem().Set(reflect.ValueOf(f.mk(m)))
						b.Elem().Set(reflect.ValueOf(f.mk(m)))
						e2 := json.Unmarshal(text, b.Interface())
						var e1 error
						if mode == 0 {
							e1 = jzon.Unmarshal(text, a.Interface())
						} else {
							e1 = jzon.UnmarshalFromReader(newChunk(text, 4096), a.Interface())
						}
						if (e1 == nil) != (e2 == nil) {
							return fmt.Errorf("error %v, reference %v", e1, e2)
						}
						if e1 == nil && !eqv(a, b, 0) {
							return fmt.Errorf("got %s, want %s", clip(show(a.Interface()), 300), clip(show(b.Interface()), 300))
						}
						return nil
					}()
					if err != nil {
						w.Fail(desc(), err)
						return
					}
				}
			}
		},
	})
	addEngine("C12", &Engine{
		Name: "large", Rule: "objects with many known, unknown, repeated and long members decoded into structs with 2, 11 and 300 fields, unknown members accepted and rejected: as the standard library", Bounds: "around 2^12..2^16 members or bytes of a name, and 70001 (thorough to 1000003)",
		Units: func(th bool) int { return len(largeSizes(th)) },
		Run: func(w *W, unit int) {
			l := largeSizes(w.Thorough)
			n := l[len(l)-1-unit]
			pl, di := newDecCfgs()
			var fs []reflect.StructField
			for i := 0; i < 300; i++ {
				fs = append(fs, sf(fmt.Sprintf("K%d", i*7), rt[int](), ""))
			}
			fs = append(fs, sf("A", rt[int](), ""), sf("B", rt[string](), `json:"b"`))
			for _, t := range []reflect.Type{rt[S2](), rt[S11](), reflect.StructOf(fs)} {
				for di2, d := range []string{
					`{` + joinN(n, keyItem) + `,"a":1,"b":"x"}`,
					`{"A":1,` + joinN(n, keyItem) + `,"B":"x"}`,
					`{` + joinN(n, func(i int) string { return `"a":` + strconv.Itoa(i) }) + `}`,
					`{"` + longStr(n) + `":1,"A":2,"` + longStr(n-1) + `b":3,"b":"y"}`,
					`{"A":1,"u":[` + joinN(n, numItem) + `],"b":"x"}`,
					`{"A":1,"b":"x","u":"` + longStr(n) + `"}`,
					`{"A":1,"b":"` + longStr(n) + `","F1":` + strconv.Itoa(n) + `}`,
					`{` + joinN(n, func(i int) string { return `"F` + strconv.Itoa(i%11) + `":` + strconv.Itoa(i) }) + `}`,
					`{` + joinN(n, keyItem) + `,"a":1,"b":}`,
				} {
					for _, cfg := range []*jzon.DecoderConfig{pl, di} {
						if cfg == di && di2%2 == 1 {
							continue
						}
						if !c12Case(w, cfg, t, d, cfg == di, func() reflect.Value { return reflect.New(t) }) {
							return
						}
					}
				}
			}
		},
	})
	// documents of every family
	fams := func(th bool) int { return len(largeSizes(th)) * len(scaleFams) }
	pickFam := func(th bool, unit int) (scaleFam, int) {
		l := largeSizes(th)
		return scaleFams[unit%len(scaleFams)], l[len(l)-1-unit/len(scaleFams)]
	}
	fb := fmt.Sprintf("%d families; around 2^12..2^16 elements, levels or bytes, and 70001 (thorough to 1000003)", len(scaleFams))
	deepSkip := func(f scaleFam, n int, th bool) bool { return f.deep && n > 140000 }
	addEngine("C02", &Engine{
		Name: "large", Rule: "large documents of every family through the untyped entry points", Bounds: fb, Units: fams,
		Run: func(w *W, unit int) {
			f, n := pickFam(w.Thorough, unit)
			if !deepSkip(f, n, w.Thorough) {
				w.Transitions++
				c02Check(w, []byte(f.f(n)), false)
			}
		},
	})
	lops := []itOp{}
	for _, op := range itOps {
		if isGeneric(op.name) || op.name == "ReadString" || op.name == "ReadStringAsSlice" || op.name == "SkipString" || op.name == "SkipArray" || op.name == "SkipObject" || op.name == "ReadVal([]int)" || op.name == "ReadVal(main.S2)" {
			lops = append(lops, op)
		}
	}
	addEngine("C06", &Engine{
		Name: "large", Rule: "large documents of every family x every generic operation x reads of 512, 4096, 65536, 65537 bytes and whole: as from one slice, consumed exactly", Bounds: fb, Units: fams,
		Run: func(w *W, unit int) {
			f, n := pickFam(w.Thorough, unit)
			if deepSkip(f, n, w.Thorough) || !w.Thorough && unit%3 > 0 {
				return
			}
			doc := []byte(f.f(n) + ` "tail"`)
			for oi, op := range lops {
				ref := opOnBytes(op, doc)
				w.States++
				for ci, ch := range []int{512, 4096, 65536, 65537, 1 << 22} {
					if !w.Thorough && (ci+oi+unit/3)%2 > 0 {
						continue
					}
					if !c06Run(w, op, ref, doc, []int{ch}, 0, ci%2 == 0) {
						return
					}
				}
			}
		},
	})
	// what was written before does not matter
	calls := valueCalls()
	addEngine("C14", &Engine{
		Name: "large output before", Rule: "every kind of call after output of every length (strings, elements, fields), unflushed: exactly its text follows", Bounds: fmt.Sprintf("%d calls and 8 structural ones; every length 0..700, around 2^10..2^17", len(calls)),
		Units: func(bool) int { return len(calls) },
		Run: func(w *W, unit int) {
			var sizes []int
			for i := 0; i <= 700; i++ {
				sizes = append(sizes, i)
			}
			for k := 1024; k <= 131072; k *= 2 {
				for d := -12; d <= 3; d++ {
					if k <= 8192 || (d+unit)%4 == 0 {
						sizes = append(sizes, k+d)
					}
				}
			}
			c := &calls[unit]
			for _, n := range sizes {
				for _, html := range []bool{true, false} {
					if w.Stop() {
						return
					}
					if !w.Begin() {
						continue
					}
					desc := func() string { return fmt.Sprintf("%s after %d bytes (html %v)", c.name, n, html) }
					w.Announce(desc)
					w.States++
					w.Transitions += 6
					w.Nontrivial++
					err := func() (err error) {
						defer catch(&err)
						fw := &faultWriter{limit: -1}
						s := custCfg.NewStreamer()
						defer s.Release()
						s.Reset(fw)
						s.EscapeHTML(html)
						str := longStr(n)
						s.ArrayStart().String(str)
						c.f(s)
						s.ObjectStart().Field("f<")
						c.f(s)
						s.RawField([]byte(`"g"`))
						c.f(s)
						s.Field("h").ArrayStart().ArrayEnd().ObjectEnd().Null()
						c.f(s)
						s.ArrayEnd()
						if e := s.Flush(); e != nil {
							return e
						}
						t, k := c.plain, `"f<"`
						if html {
							t, k = c.html, `"f\u003c"`
						}
						want := `["` + str + `",` + t + `,{` + k + `:` + t + `,"g":` + t + `,"h":[]},null,` + t + `]`
						if got := fw.got.String(); got != want {
							i := 0
							for i < len(got) && i < len(want) && got[i] == want[i] {
								i++
							}
							return fmt.Errorf("differs at byte %d: %q, want %q", i, clip(got[i:], 200), clip(want[i:], 200))
						}
						return nil
					}()
					if err != nil {
						w.Fail(desc(), err)
						return
					}
				}
			}
		},
	})
}
