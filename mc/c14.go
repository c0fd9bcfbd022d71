package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"
	"unsafe"

	"github.com/zerosnake0/jzon"
)

// C14: sequences of streamer calls.

type stCall struct {
	name string
	f    func(s *jzon.Streamer)
	// the text it writes with and without HTML escaping; "" and bad for a failing call
	html, plain string
	bad         bool
}

func esc(b []byte) string { return string(b) }

func cv(name string, x interface{}) stCall {
	h, e1 := stdMarshal(x, true)
	p, e2 := stdMarshal(x, false)
	c := stCall{name: "Value(" + name + ")", f: func(s *jzon.Streamer) { s.Value(x) }, html: string(h), plain: string(p)}
	if e1 != nil || e2 != nil {
		panic(name)
	}
	return c
}

func cl(name, lit string, f func(s *jzon.Streamer)) stCall {
	return stCall{name: name, f: f, html: lit, plain: lit}
}

// a registered encoder which itself writes through the streamer's calls
type custStruct struct{ N int }
type custEnc struct{}

func (custEnc) IsEmpty(p unsafe.Pointer) bool { return (*custStruct)(p).N == 0 }
func (custEnc) Encode(p unsafe.Pointer, s *jzon.Streamer, o *jzon.EncOpts) {
	point()
	n := (*custStruct)(p).N
	s.ArrayStart().String("cust").Int(n).ObjectStart().Field("n").Value([]int{n}).Field("e").ArrayStart().ArrayEnd().ObjectEnd().ArrayEnd()
}

var custCfg = jzon.NewEncoderConfig(&jzon.EncoderOption{EscapeHTML: true, ValEncoders: map[reflect.Type]jzon.ValEncoder{rt[custStruct](): custEnc{}}})

type omitAll struct {
	A int   `json:"a,omitempty"`
	B *int  `json:"b,omitempty"`
	C []int `json:"<c>,omitempty"`
}

// every kind of value-writing call
func valueCalls() []stCall {
	str := "a<\"\n"
	calls := []stCall{
		cl("Null", "null", func(s *jzon.Streamer) { s.Null() }),
		cl("True", "true", func(s *jzon.Streamer) { s.True() }),
		cl("False", "false", func(s *jzon.Streamer) { s.False() }),
		cl("Bool(true)", "true", func(s *jzon.Streamer) { s.Bool(true) }),
		cl("Bool(false)", "false", func(s *jzon.Streamer) { s.Bool(false) }),
		cl("Int(-7)", "-7", func(s *jzon.Streamer) { s.Int(-7) }),
		cl("Int8", "-128", func(s *jzon.Streamer) { s.Int8(-128) }),
		cl("Int16", "-32768", func(s *jzon.Streamer) { s.Int16(-32768) }),
		cl("Int32", "2147483647", func(s *jzon.Streamer) { s.Int32(math.MaxInt32) }),
		cl("Int64", "-9223372036854775808", func(s *jzon.Streamer) { s.Int64(math.MinInt64) }),
		cl("Uint(0)", "0", func(s *jzon.Streamer) { s.Uint(0) }),
		cl("Uint8", "255", func(s *jzon.Streamer) { s.Uint8(255) }),
		cl("Uint16", "1000", func(s *jzon.Streamer) { s.Uint16(1000) }),
		cl("Uint32", "4294967295", func(s *jzon.Streamer) { s.Uint32(math.MaxUint32) }),
		cl("Uint64", "18446744073709551615", func(s *jzon.Streamer) { s.Uint64(math.MaxUint64) }),
		cl("Float32", "1.5", func(s *jzon.Streamer) { s.Float32(1.5) }),
		cl("Float32(e)", "1e-7", func(s *jzon.Streamer) { s.Float32(1e-7) }),
		cl("Float64", "-2.25", func(s *jzon.Streamer) { s.Float64(-2.25) }),
		cl("Float64(e)", "1e-9", func(s *jzon.Streamer) { s.Float64(1e-9) }),
		{name: "String", f: func(s *jzon.Streamer) { s.String(str) }, html: `"a\u003c\"\n"`, plain: `"a<\"\n"`},
		cl("String(empty)", `""`, func(s *jzon.Streamer) { s.String("") }),
		cl("Raw", `{"r":[1]}`, func(s *jzon.Streamer) { s.Raw([]byte(`{"r":[1]}`)) }),
		cl("RawString", `[<]`, func(s *jzon.Streamer) { s.RawString(`[<]`) }),
		cl("Raw(spaced)", " {\"r\" : [ ] }\n", func(s *jzon.Streamer) { s.Raw([]byte(" {\"r\" : [ ] }\n")) }),
		cl("RawString(string of brackets)", `"}],{[:"`, func(s *jzon.Streamer) { s.RawString(`"}],{[:"`) }),
		cl("RawString(spaced)", "\t1\r", func(s *jzon.Streamer) { s.RawString("\t1\r") }),
		cl("String({)", `"{"`, func(s *jzon.Streamer) { s.String("{") }),
		cl("String(,)", `","`, func(s *jzon.Streamer) { s.String(",") }),
		cl("Value(nil)", "null", func(s *jzon.Streamer) { s.Value(nil) }),
		cl("Value(custom)", `["cust",5,{"n":[5],"e":[]}]`, func(s *jzon.Streamer) { s.Value(custStruct{5}) }),
		cl("Value([]custom)", `[["cust",1,{"n":[1],"e":[]}],["cust",2,{"n":[2],"e":[]}]]`, func(s *jzon.Streamer) { s.Value([]custStruct{{1}, {2}}) }),
		cl("array", `[1,[],{}]`, func(s *jzon.Streamer) {
			s.ArrayStart().Int(1).ArrayStart().ArrayEnd().ObjectStart().ObjectEnd().ArrayEnd()
		}),
		cl("object", `{"k":{"x":null},"r":[]}`, func(s *jzon.Streamer) {
			s.ObjectStart().Field("k").ObjectStart().RawField([]byte(`"x"`)).Null().ObjectEnd().Field("r").ArrayStart().ArrayEnd().ObjectEnd()
		}),
		cl("empty array", `[]`, func(s *jzon.Streamer) { s.ArrayStart().ArrayEnd() }),
		cl("empty object", `{}`, func(s *jzon.Streamer) { s.ObjectStart().ObjectEnd() }),
	}
	one := 1
	var jm json.Marshaler = JSONStruct{"x"}
	vals := []struct {
		n string
		x interface{}
	}{
		{"int", 3}, {"string", "s<"}, {"bool", true}, {"float", 2.5}, {"struct", S2{1, "b<"}}, {"*struct", &S2{2, "c"}}, {"nil *struct", (*S2)(nil)}, {"empty struct", S0{}}, {"pointer struct", S0p{}},
		{"omitted", omitAll{}}, {"partly omitted", omitAll{C: []int{1}}}, {"quoted", Quoted{I: 1, N: "2"}}, {"slice", []int{1, 2}}, {"empty slice", []int{}}, {"nil slice", []int(nil)},
		{"array0", [0]int{}}, {"array1", [1]*int{&one}}, {"map", map[string]int{"k<": 1}}, {"empty map", map[string]int{}}, {"nil map", map[string]int(nil)}, {"int map", map[int]string{3: "x"}}, {"text map", map[TextInt]bool{4: true}},
		{"bytes", []byte("abc")}, {"nil bytes", []byte(nil)}, {"number", json.Number("12.5")}, {"raw", json.RawMessage(`{"q":1}`)}, {"json hook", JSONStruct{"h"}}, {"*json hook", &JSONStruct{"h"}}, {"text hook", TextInt(3)}, {"nil map hook", MapJSON(nil)}, {"map text", MapText{}},
		{"interface", []interface{}{nil, 1, "a", []interface{}{}}}, {"tree", recNode{V: 1, Next: &recNode{}, Kids: []recNode{{}}}}, {"embedded", WithEmb{A: 1}}, {"iface field", struct{ J json.Marshaler }{jm}}, {"nil iface field", struct{ J json.Marshaler }{}}, {"**int", ipp(4)},
	}
	for _, v := range vals {
		calls = append(calls, cv(v.n, v.x))
	}
	return calls
}

var badCalls = []stCall{
	{name: "Value(chan)", f: func(s *jzon.Streamer) { s.Value(make(chan int)) }, bad: true},
	{name: "Float64(NaN)", f: func(s *jzon.Streamer) { s.Float64(math.NaN()) }, bad: true},
	{name: "Float32(Inf)", f: func(s *jzon.Streamer) { s.Float32(float32(math.Inf(1))) }, bad: true},
	{name: "Value(json hook failing)", f: func(s *jzon.Streamer) { s.Value(FailJSON{}) }, bad: true},
	{name: "Value(text hook failing)", f: func(s *jzon.Streamer) { s.Value([]interface{}{1, FailText{}}) }, bad: true},
	{name: "Value(map[text hook failing])", f: func(s *jzon.Streamer) { s.Value(map[FailText]int{{}: 1}) }, bad: true},
	{name: "Value(struct{chan})", f: func(s *jzon.Streamer) { s.Value(struct{ C chan int }{}) }, bad: true},
	{name: "Value(map[bool])", f: func(s *jzon.Streamer) { s.Value(map[bool]int{true: 1}) }, bad: true},
	{name: "Value([]float NaN)", f: func(s *jzon.Streamer) { s.Value([]float64{1, math.NaN(), 2}) }, bad: true},
	{name: "Value(bad number)", f: func(s *jzon.Streamer) { s.Value(json.Number("x")) }, bad: true},
	{name: "Value(struct{nested NaN})", f: func(s *jzon.Streamer) { s.Value(struct{ A, B interface{} }{1, math.Inf(-1)}) }, bad: true},
}

// the writer model
type stModel struct {
	out   []byte
	stack []byte // '{' expecting key, ':' expecting value, '['
	some  []bool
	done  bool
}

func (m *stModel) canValue() bool {
	if len(m.stack) == 0 {
		return !m.done
	}
	return m.stack[len(m.stack)-1] != '{'
}
func (m *stModel) canKey() bool    { return len(m.stack) > 0 && m.stack[len(m.stack)-1] == '{' }
func (m *stModel) canArrEnd() bool { return len(m.stack) > 0 && m.stack[len(m.stack)-1] == '[' }
func (m *stModel) sep() {
	if n := len(m.stack); n > 0 {
		if m.stack[n-1] == ':' {
			m.stack[n-1] = '{'
			return
		}
		if m.some[n-1] {
			m.out = append(m.out, ',')
		}
		m.some[n-1] = true
		return
	}
	m.done = true
}
func (m *stModel) value(t string) { m.sep(); m.out = append(m.out, t...) }
func (m *stModel) open(c byte) {
	m.sep()
	m.out = append(m.out, c)
	m.stack = append(m.stack, c)
	m.some = append(m.some, false)
}
func (m *stModel) key(t string) {
	m.sep()
	m.out = append(append(m.out, t...), ':')
	m.stack[len(m.stack)-1] = ':'
}
func (m *stModel) close(c byte) {
	m.out = append(m.out, c)
	m.stack = m.stack[:len(m.stack)-1]
	m.some = m.some[:len(m.some)-1]
}
func (m *stModel) complete() bool { return m.done && len(m.stack) == 0 }

// call codes of the sequence engine
const (
	cInt = iota
	cString
	cRaw
	cStruct
	cNull
	cObj
	cObjEnd
	cArr
	cArrEnd
	cField
	cRawField
	nCalls
)

var callNames = []string{"Int", "String", "Raw", "Value(struct)", "Null", "ObjectStart", "ObjectEnd", "ArrayStart", "ArrayEnd", "Field", "RawField"}

func (m *stModel) allowed(c int) bool {
	switch c {
	case cInt, cString, cRaw, cStruct, cNull, cObj, cArr:
		return m.canValue()
	case cObjEnd, cField, cRawField:
		return m.canKey()
	case cArrEnd:
		return m.canArrEnd()
	}
	return false
}

func (m *stModel) apply(c int) {
	switch c {
	case cInt:
		m.value("-7")
	case cString:
		m.value(`"\u003cs"`)
	case cRaw:
		m.value(`[1]`)
	case cStruct:
		m.value(`{"A":1,"b":"x"}`)
	case cNull:
		m.value("null")
	case cObj:
		m.open('{')
	case cArr:
		m.open('[')
	case cObjEnd:
		m.close('}')
	case cArrEnd:
		m.close(']')
	case cField:
		m.key(`"f\u0026"`)
	case cRawField:
		m.key(`"rf"`)
	}
}

var rawArr, rawFld = []byte(`[1]`), []byte(`"rf"`)
var c14S2 interface{} = &S2{1, "x"}

func callReal(s *jzon.Streamer, c int) {
	switch c {
	case cInt:
		s.Int(-7)
	case cString:
		s.String("<s")
	case cRaw:
		s.Raw(rawArr)
	case cStruct:
		s.Value(c14S2)
	case cNull:
		s.Null()
	case cObj:
		s.ObjectStart()
	case cObjEnd:
		s.ObjectEnd()
	case cArr:
		s.ArrayStart()
	case cArrEnd:
		s.ArrayEnd()
	case cField:
		s.Field("f&")
	case cRawField:
		s.RawField(rawFld)
	}
}

func c14SeqName(seq []int, mask uint32) string {
	var l []string
	for i, c := range seq {
		l = append(l, callNames[c])
		if mask>>uint(i)&1 == 1 {
			l = append(l, "Flush")
		}
	}
	return strings.Join(l, " ")
}

func c14Run(w *W, seq []int, mask uint32, want []byte, bb *bytes.Buffer) bool {
	if !w.Begin() {
		return !w.Stop()
	}
	w.Announce(func() string { return c14SeqName(seq, mask) })
	w.Transitions += int64(len(seq))
	w.Nontrivial++
	bb.Reset()
	err := func() (err error) {
		defer catch(&err)
		s := jzon.NewStreamer()
		s.Reset(bb)
		for i, c := range seq {
			callReal(s, c)
			if mask>>uint(i)&1 == 1 {
				if err := s.Flush(); err != nil {
					return err
				}
			}
		}
		err = s.Flush()
		s.Release()
		if err == nil && !bytes.Equal(bb.Bytes(), want) {
			err = fmt.Errorf("wrote %s, want %s", bb.Bytes(), want)
		}
		return err
	}()
	if err != nil {
		w.Fail(c14SeqName(seq, mask), err)
		return false
	}
	return true
}

func init() {
	register(&Property{ID: "C14", Engines: []*Engine{
		{
			Name:   "sequences",
			Rule:   "every complete grammatical sequence of streamer calls (scalar, string, raw, value, null, containers, field, raw field), replayed on the real streamer without flushes, with a flush after every call, and with a flush after each single call; short sequences with every subset of flush points",
			Bounds: "sequences of up to 11 calls (thorough 13) over 11 calls; all flush subsets to length 6",
			Units:  func(bool) int { return nCalls * nCalls * nCalls },
			Run: func(w *W, unit int) {
				max := 11
				if w.Thorough {
					max = 13
				}
				bb := &bytes.Buffer{}
				var rec func(m stModel, seq []int) bool
				rec = func(m stModel, seq []int) bool {
					w.States++
					if m.complete() {
						n := len(seq)
						masks := []uint32{0, 1<<uint(n) - 1}
						if n <= 6 {
							for k := uint32(1); k < 1<<uint(n)-1; k++ {
								masks = append(masks, k)
							}
						} else if n <= 8 || w.Thorough {
							for k := 0; k < n-1; k++ {
								masks = append(masks, 1<<uint(k))
							}
						}
						for _, k := range masks {
							if !c14Run(w, seq, k, m.out, bb) {
								return false
							}
						}
						return true
					}
					if len(seq) >= max {
						return true
					}
					for c := 0; c < nCalls; c++ {
						if !m.allowed(c) {
							continue
						}
						q := stModel{append(make([]byte, 0, len(m.out)+32), m.out...), append(make([]byte, 0, 8), m.stack...), append(make([]bool, 0, 8), m.some...), m.done}
						q.apply(c)
						need := len(q.stack)
						for _, x := range q.stack {
							if x == ':' {
								need++
							}
						}
						if len(seq)+1+need > max {
							continue
						}
						if !rec(q, append(append(make([]int, 0, 12), seq...), c)) {
							return false
						}
					}
					return true
				}
				pre := []int{unit / nCalls / nCalls, unit / nCalls % nCalls, unit % nCalls}
				var m stModel
				for j, c := range pre {
					if m.complete() {
						// shorter sequences belong to the first unit with the prefix
						if j == 1 && unit%(nCalls*nCalls) == 0 || j == 2 && unit%nCalls == 0 {
							rec(m, pre[:j])
						}
						return
					}
					if !m.allowed(c) {
						return
					}
					m.apply(c)
				}
				rec(m, pre)
			},
		},
		{
			Name:   "pairs",
			Rule:   "every ordered pair and triple of the 72 value-writing calls (each scalar call, raw, every value kind, nested containers, a registered encoder) next to each other in every context: elements, member values, after a nested container, between flushes, both escaping modes",
			Bounds: "72^2 pairs x 9 contexts x 2 modes; 72^3 triples in arrays",
			Units:  func(bool) int { return len(valueCalls()) },
			Run: func(w *W, unit int) {
				calls := valueCalls()
				bb := &bytes.Buffer{}
				run := func(name func() string, html bool, want string, f func(s *jzon.Streamer)) bool {
					if !w.Begin() {
						return !w.Stop()
					}
					w.Announce(name)
					w.Sample(name)
					w.States++
					w.Transitions += 3
					w.Nontrivial++
					bb.Reset()
					err := func() (err error) {
						defer catch(&err)
						s := custCfg.NewStreamer()
						s.Reset(bb)
						s.EscapeHTML(html)
						f(s)
						err = s.Flush()
						s.Release()
						if err == nil && bb.String() != want {
							err = fmt.Errorf("wrote %s, want %s", bb.Bytes(), want)
						}
						return err
					}()
					if err != nil {
						w.Fail(name(), err)
						return false
					}
					return true
				}
				a := calls[unit]
				at := []string{a.plain, a.html}
				for hi, html := range []bool{false, true} {
					A := at[hi]
					if !run(func() string { return a.name }, html, A, a.f) {
						return
					}
					for _, b := range calls {
						B := b.plain
						if html {
							B = b.html
						}
						fl := func(s *jzon.Streamer) { s.Flush() }
						ctx := []struct {
							n, want string
							f       func(s *jzon.Streamer)
						}{
							{"[a,b]", "[" + A + "," + B + "]", func(s *jzon.Streamer) { s.ArrayStart(); a.f(s); b.f(s); s.ArrayEnd() }},
							{"{k:a,l:b}", `{"k":` + A + `,"l":` + B + "}", func(s *jzon.Streamer) { s.ObjectStart().Field("k"); a.f(s); s.Field("l"); b.f(s); s.ObjectEnd() }},
							{"{raw k:a,raw l:b}", `{"k":` + A + `,"l":` + B + "}", func(s *jzon.Streamer) {
								s.ObjectStart().RawField([]byte(`"k"`))
								a.f(s)
								s.RawField([]byte(`"l"`))
								b.f(s)
								s.ObjectEnd()
							}},
							{"[[a],b]", "[[" + A + "]," + B + "]", func(s *jzon.Streamer) { s.ArrayStart().ArrayStart(); a.f(s); s.ArrayEnd(); b.f(s); s.ArrayEnd() }},
							{"[a,[b]]", "[" + A + ",[" + B + "]]", func(s *jzon.Streamer) { s.ArrayStart(); a.f(s); s.ArrayStart(); b.f(s); s.ArrayEnd().ArrayEnd() }},
							{"{k:{k:a},l:b}", `{"k":{"k":` + A + `},"l":` + B + "}", func(s *jzon.Streamer) {
								s.ObjectStart().Field("k").ObjectStart().Field("k")
								a.f(s)
								s.ObjectEnd().Field("l")
								b.f(s)
								s.ObjectEnd()
							}},
							{"[a,{k:b}]", "[" + A + `,{"k":` + B + "}]", func(s *jzon.Streamer) {
								s.ArrayStart()
								a.f(s)
								s.ObjectStart().Field("k")
								b.f(s)
								s.ObjectEnd().ArrayEnd()
							}},
							{"[1,a,flush,b,flush,2]", "[1," + A + "," + B + ",2]", func(s *jzon.Streamer) {
								s.ArrayStart().Int(1)
								a.f(s)
								fl(s)
								b.f(s)
								fl(s)
								s.Int(2).ArrayEnd()
							}},
							{"{k:flush a flush,flush l:b}", `{"k":` + A + `,"l":` + B + "}", func(s *jzon.Streamer) {
								s.ObjectStart().Field("k")
								fl(s)
								a.f(s)
								fl(s)
								s.Field("l")
								fl(s)
								b.f(s)
								s.ObjectEnd()
							}},
						}
						for _, c := range ctx {
							if !run(func() string { return fmt.Sprintf("%s with a=%s b=%s html=%v", c.n, a.name, b.name, html) }, html, c.want, c.f) {
								return
							}
						}
						for _, c := range calls {
							C := c.plain
							if html {
								C = c.html
							}
							if !run(func() string { return fmt.Sprintf("[%s %s %s] html=%v", a.name, b.name, c.name, html) }, html, "["+A+","+B+","+C+"]", func(s *jzon.Streamer) {
								s.ArrayStart()
								a.f(s)
								b.f(s)
								c.f(s)
								s.ArrayEnd()
							}) {
								return
							}
						}
					}
				}
			},
		},
		{
			Name:   "escaping switches",
			Rule:   "every sequence of EscapeHTML(on), EscapeHTML(off), strings, fields, struct, map and hook values and flushes inside an array or object: every text follows the switch in force",
			Bounds: "sequences to length 7 (thorough 8) over 8 operations, from both configured defaults",
			Units:  func(bool) int { return 64 },
			Run: func(w *W, unit int) {
				n := 7
				if w.Thorough {
					n = 8
				}
				type tagSt struct {
					A string `json:"<a>"`
				}
				on := jzon.NewEncoderConfig(&jzon.EncoderOption{EscapeHTML: true})
				off := jzon.NewEncoderConfig(&jzon.EncoderOption{})
				names := []string{"on", "off", "String", "object", "Value(struct)", "Value(map)", "Flush", "Value(text hook)"}
				bb := &bytes.Buffer{}
				for l := 2; l <= n; l++ {
					product(l-2, 8, func(v []int) bool {
						seq := append([]int{unit / 8, unit % 8}, v...)
						for d := 0; d < 2; d++ {
							if !w.Begin() {
								if w.Stop() {
									return false
								}
								continue
							}
							desc := func() string {
								var x []string
								for _, o := range seq {
									x = append(x, names[o])
								}
								return fmt.Sprintf("default %v: %s", d == 0, strings.Join(x, " "))
							}
							w.Announce(desc)
							w.States++
							w.Transitions += int64(len(seq))
							w.Nontrivial++
							cfg, html := on, true
							if d == 1 {
								cfg, html = off, false
							}
							err := func() (err error) {
								defer catch(&err)
								bb.Reset()
								s := cfg.NewStreamer()
								s.Reset(bb)
								s.ArrayStart()
								want := "["
								first := true
								lt := func() string {
									if html {
										return `\u003c`
									}
									return "<"
								}
								gt := func() string {
									if html {
										return `\u003e`
									}
									return ">"
								}
								add := func(x string) {
									if !first {
										want += ","
									}
									first = false
									want += x
								}
								for _, o := range seq {
									switch o {
									case 0:
										s.EscapeHTML(true)
										html = true
									case 1:
										s.EscapeHTML(false)
										html = false
									case 2:
										s.String("<")
										add(`"` + lt() + `"`)
									case 3:
										s.ObjectStart().Field("<").String(">").ObjectEnd()
										add(`{"` + lt() + `":"` + gt() + `"}`)
									case 4:
										s.Value(tagSt{"<"})
										add(`{"` + lt() + `a` + gt() + `":"` + lt() + `"}`)
									case 5:
										s.Value(map[string]interface{}{"<": "<"})
										add(`{"` + lt() + `":"` + lt() + `"}`)
									case 6:
										if err := s.Flush(); err != nil {
											return err
										}
									case 7:
										s.Value(TextInt(1))
										add(`"t` + lt() + `1` + gt() + `"`)
									}
								}
								s.ArrayEnd()
								err = s.Flush()
								s.Release()
								if err == nil && bb.String() != want+"]" {
									err = fmt.Errorf("wrote %s, want %s]", bb.Bytes(), want)
								}
								return err
							}()
							if err != nil {
								w.Fail(desc(), err)
								return false
							}
						}
						return true
					})
				}
			},
		},
		{
			Name:   "errors",
			Rule:   "every sequence of good calls, one failing call, and two later calls (good or failing, or a flush): the first error is reported by every later Flush and by Error, is not replaced, nothing after the failing call reaches the writer, and a Reset starts afresh",
			Bounds: "11 failing calls x 2 contexts x prefixes of up to 2 of 67 calls x all pairs of later calls from 20",
			Units:  func(bool) int { return len(badCalls) },
			Run: func(w *W, unit int) {
				bad := badCalls[unit]
				good := valueCalls()
				later := append([]stCall{}, badCalls...)
				later = append(later, good[0], good[1], good[5], good[17], good[19], good[21], good[22], good[34],
					stCall{name: "ObjectStart", f: func(s *jzon.Streamer) { s.ObjectStart() }},
					stCall{name: "Field", f: func(s *jzon.Streamer) { s.Field("x") }},
					stCall{name: "RawField", f: func(s *jzon.Streamer) { s.RawField([]byte(`"x"`)) }},
					stCall{name: "ArrayEnd", f: func(s *jzon.Streamer) { s.ArrayEnd() }},
					stCall{name: "ObjectEnd", f: func(s *jzon.Streamer) { s.ObjectEnd() }},
					stCall{name: "Flush", f: func(s *jzon.Streamer) { s.Flush() }},
					stCall{name: "EscapeHTML", f: func(s *jzon.Streamer) { s.EscapeHTML(true) }})
				bb := &bytes.Buffer{}
				for ctx := 0; ctx < 2; ctx++ {
					for pi := -1; pi < len(good); pi++ {
						for li := range later {
							for l2 := range later {
								if pi >= 0 && l2 != pi%len(later) && l2 != (li+1)%len(later) {
									continue
								}
								if !w.Begin() {
									if w.Stop() {
										return
									}
									continue
								}
								desc := func() string {
									p := ""
									if pi >= 0 {
										p = good[pi].name
									}
									return fmt.Sprintf("context %d: %s, %s, %s, %s", ctx, p, bad.name, later[li].name, later[l2].name)
								}
								w.Announce(desc)
								w.Sample(desc)
								w.States++
								w.Transitions += 4
								w.Nontrivial++
								err := func() (err error) {
									defer catch(&err)
									bb.Reset()
									s := custCfg.NewStreamer()
									defer s.Release()
									s.Reset(bb)
									pre := ""
									if ctx == 0 {
										s.ArrayStart()
										pre = "["
									} else {
										s.ObjectStart().Field("k")
										pre = `{"k":`
									}
									if pi >= 0 {
										good[pi].f(s)
										pre += good[pi].html
										if ctx == 0 {
											pre += ","
										} else {
											s.Field("l")
											pre += `,"l":`
										}
									}
									bad.f(s)
									e1 := s.Error
									if e1 == nil {
										return fmt.Errorf("the failing call leaves no error")
									}
									later[li].f(s)
									if s.Error != e1 {
										return fmt.Errorf("the error %v became %v after %s", e1, s.Error, later[li].name)
									}
									later[l2].f(s)
									if s.Error != e1 {
										return fmt.Errorf("the error %v became %v after %s", e1, s.Error, later[l2].name)
									}
									if e := s.Flush(); e != e1 {
										return fmt.Errorf("Flush reports %v, want %v", e, e1)
									}
									if !strings.HasPrefix(pre, bb.String()) {
										return fmt.Errorf("the writer has %q", bb.String())
									}
									bb.Reset()
									s.Reset(bb)
									s.ArrayStart().Int(1).ArrayEnd()
									if e := s.Flush(); e != nil || bb.String() != "[1]" {
										return fmt.Errorf("after Reset: %q, %v", bb.String(), e)
									}
									return nil
								}()
								if err != nil {
									w.Fail(desc(), err)
									return
								}
							}
						}
					}
				}
			},
		},
		{
			Name:   "nesting",
			Rule:   "every nesting word of opened arrays and objects with a value before, inside and after at every level, to depth 12, and uniform nestings to depth 2000",
			Bounds: "2^12 words of depth 12 and all shorter ones, with 2 sibling patterns; depth 2000",
			Units:  func(bool) int { return 16 },
			Run: func(w *W, unit int) {
				bb := &bytes.Buffer{}
				run := func(word uint32, depth int, pat int, every bool) bool {
					if !w.Begin() {
						return !w.Stop()
					}
					desc := func() string { return fmt.Sprintf("word %b depth %d pattern %d", word, depth, pat) }
					w.Announce(desc)
					w.States++
					w.Transitions += int64(depth)
					w.Nontrivial++
					err := func() (err error) {
						defer catch(&err)
						bb.Reset()
						s := jzon.NewStreamer()
						s.Reset(bb)
						var m stModel
						do := func(c int) { m.apply(c); callReal(s, c) }
						var kinds []int
						for i := 0; i < depth; i++ {
							obj := word>>uint(i%31)&1 == 1
							if every {
								obj = word == 1
							}
							if obj {
								do(cObj)
								if pat&1 == 1 {
									do(cField)
									do(cInt)
								}
								do(cRawField)
								kinds = append(kinds, cObjEnd)
							} else {
								do(cArr)
								if pat&1 == 1 {
									do(cString)
								}
								kinds = append(kinds, cArrEnd)
							}
						}
						do(cNull)
						for i := len(kinds) - 1; i >= 0; i-- {
							if pat&2 == 2 {
								if kinds[i] == cObjEnd {
									do(cField)
								}
								do(cStruct)
							}
							do(kinds[i])
						}
						err = s.Flush()
						s.Release()
						if err == nil && !bytes.Equal(bb.Bytes(), m.out) {
							err = fmt.Errorf("wrote %s, want %s", clip(bb.String(), 500), clip(string(m.out), 500))
						}
						return err
					}()
					if err != nil {
						w.Fail(desc(), err)
						return false
					}
					return true
				}
				for d := 1; d <= 12; d++ {
					for x := uint32(0); x < 1<<uint(d); x++ {
						if x%16 != uint32(unit) {
							continue
						}
						for pat := 0; pat < 4; pat++ {
							if !run(x, d, pat, false) {
								return
							}
						}
					}
				}
				for d := 13 + unit; d <= 2000; d += 16 {
					for pat := 0; pat < 4; pat++ {
						if !run(0, d, pat, true) || !run(1, d, pat, true) {
							return
						}
					}
				}
			},
		},
	}})
}
