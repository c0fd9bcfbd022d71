package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"github.com/zerosnake0/jzon"
)

// Chains of interfaces, one destination used for many values of a stream, and
// registered encoders that decide what is empty.

// ---- chains -------------------------------------------------------------------

type chainEnd struct {
	name string
	mk   func() interface{}
}

var chainEnds = []chainEnd{
	{"nil", func() interface{} { return nil }},
	{"5", func() interface{} { return 5 }},
	{"*int", func() interface{} { i := 5; return &i }},
	{"nil *int", func() interface{} { return (*int)(nil) }},
	{"**int", func() interface{} { i := 5; p := &i; return &p }},
	{"map", func() interface{} { return map[string]interface{}{"z": 1} }},
	{"*map", func() interface{} { return &map[string]interface{}{"z": 1} }},
	{"*struct", func() interface{} { return &struct{ A, Z interface{} }{1, 2} }},
}

var chainTexts = []string{"1", "null", `[1,null]`, `{"a":2}`, `"x"`, ` [{"a":[]}] `, "tru", "[1", ""}

// chain: n interfaces, each holding a pointer (or a pointer to a pointer) to
// the next one
func chain(n int, pat uint, end interface{}) (head *interface{}, nodes []*interface{}) {
	for i := 0; i <= n; i++ {
		nodes = append(nodes, new(interface{}))
	}
	for i := 0; i < n; i++ {
		if pat>>(uint(i)%8)&1 == 1 {
			p := nodes[i+1]
			*nodes[i] = &p
		} else {
			*nodes[i] = nodes[i+1]
		}
	}
	*nodes[n] = end
	return nodes[0], nodes
}

// chainShow: what every interface of the chain holds
func chainShow(nodes []*interface{}) string {
	var sb strings.Builder
	for i, p := range nodes {
		if i+1 < len(nodes) {
			if *p == interface{}(nodes[i+1]) {
				continue
			}
			if q, ok := (*p).(**interface{}); ok {
				if *q == nodes[i+1] {
					continue
				}
				fmt.Fprintf(&sb, "%d: pointer to %v; ", i, *q == nil)
				continue
			}
		}
		v := *p
		for j := 0; j < 3 && v != nil && reflect.TypeOf(v).Kind() == reflect.Ptr && !reflect.ValueOf(v).IsNil(); j++ {
			sb.WriteByte('&')
			v = reflect.ValueOf(v).Elem().Interface()
		}
		fmt.Fprintf(&sb, "%d: %T %v; ", i, v, v)
	}
	return sb.String()
}

func chainLens(th bool) []int {
	var l []int
	for i := 0; i <= 140; i++ {
		l = append(l, i)
	}
	l = append(l, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 3000)
	if th {
		for i := 141; i < 255; i++ {
			l = append(l, i)
		}
		l = append(l, 9000)
	}
	return l
}

func chainCase(n int, pat uint, e *chainEnd, text string, way int) (err error) {
	defer catch(&err)
	h1, n1 := chain(n, pat, e.mk())
	h2, n2 := chain(n, pat, e.mk())
	e1 := json.Unmarshal([]byte(text), h1)
	var e2 error
	switch way {
	case 0:
		e2 = jzon.Unmarshal([]byte(text), h2)
	case 1:
		e2 = jzon.UnmarshalFromReader(newChunk([]byte(text), 1), h2)
	}
	if (e1 == nil) != (e2 == nil) {
		return fmt.Errorf("%v; standard library: %v", e2, e1)
	}
	if e1 == nil {
		if a, b := chainShow(n2), chainShow(n1); a != b {
			return fmt.Errorf("%s; standard library: %s", clip(a, 300), clip(b, 300))
		}
	}
	return nil
}

// loopCase: a tail of t interfaces that leads into a circle of c
func loopCase(t, c int, pat uint, text string, way int) (err error) {
	defer catch(&err)
	h, nodes := chain(t+c-1, pat, nil)
	*nodes[t+c-1] = nodes[t]
	if way >= 2 {
		// inside of other values
		text = `[[1],` + text + `]`
	}
	var e error
	switch way {
	case 0:
		e = jzon.Unmarshal([]byte(text), h)
	case 1:
		e = jzon.UnmarshalFromReader(newChunk([]byte(text), 1), h)
	case 2:
		e = jzon.Unmarshal([]byte(text), &[2]interface{}{nil, h})
	case 3:
		e = jzon.UnmarshalFromReader(newChunk([]byte(text), 2), &[2]interface{}{&[]int{}, h})
	}
	if e == nil {
		return errors.New("no error for a loop")
	}
	return nil
}

// ---- one destination ------------------------------------------------------------

type sameTarget struct {
	name string
	mk   func() interface{}
}

var sameTargets = []sameTarget{
	{"interface", func() interface{} { return new(interface{}) }},
	{"interface holding *interface", func() interface{} { var o, p interface{}; o = &p; return &o }},
	{"interface holding *int", func() interface{} { var o interface{} = new(int); return &o }},
	{"interface holding **interface", func() interface{} { p := new(interface{}); var o interface{} = &p; return &o }},
	{"interface holding *map", func() interface{} { var o interface{} = &map[string]interface{}{"q": 0.0}; return &o }},
	{"**interface", func() interface{} { return new(*interface{}) }},
	{"map", func() interface{} { return &map[string]interface{}{} }},
	{"struct", func() interface{} {
		return &struct {
			A interface{}
			B *interface{}
			C map[string]int
			D struct{ A interface{} }
		}{}
	}},
	{"raw", func() interface{} { return new(json.RawMessage) }},
	{"string", func() interface{} { return new(string) }},
	{"*int", func() interface{} { return new(*int) }},
	{"array", func() interface{} { return new([2]interface{}) }},
	{"pointers", func() interface{} { var a, b interface{}; return &[2]*interface{}{&a, &b} }},
}

var sameValues = []string{"1", "null", `"ab"`, `[2]`, `[1,"x"]`, `{"A":1}`, `{"b":[1],"C":{"k":2}}`, `{"D":{"a":{}}}`, "-7.5", "true", "{}", "[]"}

func sameCase(tg *sameTarget, vals []string, sep string, chunk int) (steps int, err error) {
	defer catch(&err)
	data := []byte(strings.Join(vals, sep) + sep)
	mk := func() io.Reader {
		if chunk == 0 {
			return newChunk(data)
		}
		return newChunk(data, chunk)
	}
	a, b := tg.mk(), tg.mk()
	sd, jd := json.NewDecoder(mk()), jzon.NewDecoder(mk())
	defer jd.Release()
	for i := range vals {
		e1, e2 := sd.Decode(a), jd.Decode(b)
		steps++
		if (e1 == nil) != (e2 == nil) {
			return steps, fmt.Errorf("value %d: %v; standard library: %v", i, e2, e1)
		}
		if e1 != nil {
			// the standard library goes on after a value of the wrong type
			return steps, nil
		}
		if !eq(a, b) {
			return steps, fmt.Errorf("value %d: %s; standard library: %s", i, show(reflect.ValueOf(b).Elem().Interface()), show(reflect.ValueOf(a).Elem().Interface()))
		}
		if o := jd.InputOffset(); o != sd.InputOffset() {
			return steps, fmt.Errorf("value %d: offset %d, standard library %d", i, o, sd.InputOffset())
		}
	}
	var x interface{}
	if e := jd.Decode(&x); e != io.EOF {
		return steps, fmt.Errorf("at the end: %v %v", x, e)
	}
	return steps, nil
}

// ---- registered encoders and emptiness ---------------------------------------------

// emptyEnc is a registered encoder that says what is empty
type emptyEnc struct {
	t      reflect.Type
	answer func(v reflect.Value) bool
	seen   *[]string
}

func (e emptyEnc) IsEmpty(ptr unsafe.Pointer) bool {
	v := reflect.NewAt(e.t, ptr).Elem()
	*e.seen = append(*e.seen, "empty? "+c20Deep(v))
	return e.answer(v)
}

func (e emptyEnc) Encode(ptr unsafe.Pointer, s *jzon.Streamer, opts *jzon.EncOpts) {
	if ptr == nil {
		*e.seen = append(*e.seen, "nil")
		s.Null()
		return
	}
	*e.seen = append(*e.seen, c20Deep(reflect.NewAt(e.t, ptr).Elem()))
	s.String("hook")
}

type (
	eeMap    map[string]int
	eeSlice  []int
	eeStr    string
	eeInt    int
	eeStruct struct{ A, B int }
	eeDirect struct{ P *int }
	eeDArr   [1]*int
	eeArr    [2]int
	eeNoArr  [0]int
	eeEmpty  struct{}
	eeFunc   func()
	eeChan   chan int
	eeIface  interface{ M() }
	eeAny    interface{}
	eeBool   bool
	eeFloat  float64
	eePtr    *int
	eeM      int
)

func (eeM) M() {}

var eeFive = 5

func emptyValues() map[string][]interface{} {
	f := func() {}
	_ = f
	return map[string][]interface{}{
		"map":           {eeMap(nil), eeMap{}, eeMap{"a": 1}},
		"slice":         {eeSlice(nil), eeSlice{}, eeSlice{0}},
		"string":        {eeStr(""), eeStr("x")},
		"int":           {eeInt(0), eeInt(3)},
		"struct":        {eeStruct{}, eeStruct{0, 1}},
		"direct struct": {eeDirect{}, eeDirect{&eeFive}},
		"direct array":  {eeDArr{}, eeDArr{&eeFive}},
		"array":         {eeArr{}, eeArr{0, 1}},
		"empty array":   {eeNoArr{}},
		"empty struct":  {eeEmpty{}},
		"chan":          {eeChan(nil)},
		"bool":          {eeBool(false), eeBool(true)},
		"float":         {eeFloat(0), eeFloat(0.5)},
		"pointer":       {(*eeStruct)(nil), &eeStruct{1, 2}},
		"pointer 2":     {(*eeMap)(nil), &eeMap{"a": 1}},
		"named pointer": {eePtr(nil), eePtr(&eeFive)},
		"plain int":     {0, 7},
		"plain string":  {"", "s"},
		"plain bytes":   {[]byte(nil), []byte("b")},
		"plain map":     {map[string]int(nil), map[string]int{"b": 1}},
		"number":        {json.Number(""), json.Number("1")},
		"raw":           {json.RawMessage(nil), json.RawMessage("1")},
		"text method":   {tpVal{}, tpVal{"a"}},
		"JSON method":   {marshalN{`""`}, marshalN{"1"}},
	}
}

var emptyAnswers = []struct {
	name string
	f    func(v reflect.Value) bool
}{
	{"never", func(reflect.Value) bool { return false }},
	{"always", func(reflect.Value) bool { return true }},
	{"when not zero", func(v reflect.Value) bool { return !v.IsZero() }},
	{"when zero", func(v reflect.Value) bool { return v.IsZero() }},
}

var emptyTags = []string{"", `json:"x"`, `json:",omitempty"`, `json:"x,omitempty"`, `json:"x,omitempty,string"`, `json:",string"`}

type emptyShape struct {
	name string
	mk   func(t reflect.Type, tag string) reflect.Type
	set  func(s, v reflect.Value)
	wrap func(field string) string // the text when the field is written as the member `field`
}

func eeField(t reflect.Type, tag string) reflect.StructField {
	return reflect.StructField{Name: "X", Type: t, Tag: reflect.StructTag(tag)}
}

func comma(a, b, c string) string {
	var l []string
	for _, s := range []string{a, b, c} {
		if s != "" {
			l = append(l, s)
		}
	}
	return strings.Join(l, ",")
}

var emptyShapes = []emptyShape{
	{"one field", func(t reflect.Type, tag string) reflect.Type {
		return reflect.StructOf([]reflect.StructField{eeField(t, tag)})
	}, func(s, v reflect.Value) { s.Field(0).Set(v) }, func(f string) string { return "{" + f + "}" }},
	{"between others", func(t reflect.Type, tag string) reflect.Type {
		return reflect.StructOf([]reflect.StructField{{Name: "A", Type: rt[float32]()}, eeField(t, tag), {Name: "Z", Type: rt[*uint16](), Tag: `json:"z"`}})
	}, func(s, v reflect.Value) { s.Field(1).Set(v) }, func(f string) string { return "{" + comma(`"A":0`, f, `"z":null`) + "}" }},
	{"first, then omitted ones", func(t reflect.Type, tag string) reflect.Type {
		return reflect.StructOf([]reflect.StructField{eeField(t, tag), {Name: "Z", Type: rt[*bool](), Tag: `json:",omitempty"`}, {Name: "Y", Type: rt[*bool]()}})
	}, func(s, v reflect.Value) { s.Field(0).Set(v) }, func(f string) string { return "{" + comma(f, `"Y":null`, "") + "}" }},
	{"in a nested struct", func(t reflect.Type, tag string) reflect.Type {
		return reflect.StructOf([]reflect.StructField{{Name: "N", Type: reflect.StructOf([]reflect.StructField{{Name: "P", Type: rt[[3]byte](), Tag: `json:"-"`}, eeField(t, tag)}), Tag: `json:",omitempty"`}})
	}, func(s, v reflect.Value) { s.Field(0).Field(1).Set(v) }, func(f string) string { return `{"N":{` + f + `}}` }},
	{"behind a pointer", func(t reflect.Type, tag string) reflect.Type {
		return reflect.StructOf([]reflect.StructField{{Name: "N", Type: reflect.PtrTo(reflect.StructOf([]reflect.StructField{eeField(t, tag)}))}})
	}, func(s, v reflect.Value) {
		p := reflect.New(s.Field(0).Type().Elem())
		p.Elem().Field(0).Set(v)
		s.Field(0).Set(p)
	}, func(f string) string { return `{"N":{` + f + `}}` }},
	{"in elements of an array", func(t reflect.Type, tag string) reflect.Type {
		return reflect.ArrayOf(1, reflect.StructOf([]reflect.StructField{eeField(t, tag)}))
	}, func(s, v reflect.Value) { s.Index(0).Field(0).Set(v) }, func(f string) string { return `[{` + f + `}]` }},
}

func emptyCase(name string, v interface{}, ans int, sh *emptyShape, tag string, byPtr bool) (err error) {
	defer catch(&err)
	t := reflect.TypeOf(v)
	var seen []string
	answer := emptyAnswers[ans].f
	cfg := jzon.NewEncoderConfig(&jzon.EncoderOption{EscapeHTML: true, ValEncoders: map[reflect.Type]jzon.ValEncoder{t: emptyEnc{t, answer, &seen}}})
	s := reflect.New(sh.mk(t, tag)).Elem()
	sh.set(s, reflect.ValueOf(v))
	field := "X"
	if strings.Contains(tag, "x") && strings.Contains(tag, `"x`) {
		field = "x"
	}
	omit := strings.Contains(tag, "omitempty")
	exp := sh.wrap(`"` + field + `":"hook"`)
	shown := c20Deep(reflect.ValueOf(v))
	var want []string
	if omit {
		want = append(want, "empty? "+shown)
	}
	if omit && answer(reflect.ValueOf(v)) {
		exp = sh.wrap("")
	} else {
		want = append(want, shown)
	}
	in := s.Interface()
	if byPtr {
		in = s.Addr().Interface()
	}
	for i := 0; i < 2; i++ {
		seen = nil
		got, err := cfg.Marshal(in)
		if err != nil || string(got) != exp {
			return fmt.Errorf("%s %v, expected %s", got, err, exp)
		}
		if omit && len(seen) == 0 || len(seen) > len(want)+1 || len(seen) > 0 && seen[len(seen)-1] != want[len(want)-1] {
			return fmt.Errorf("the encoder was called with %q, expected %q", seen, want)
		}
	}
	return nil
}

func init() {
	addEngine("C18", &Engine{
		Name:   "chains of interfaces",
		Rule:   "chains of every length of interfaces holding pointers, or pointers to pointers, to the next one x what the last one holds x texts (values, null, malformed): every interface of the chain afterwards holds what the standard library would have left there; chains that lead into circles are errors",
		Bounds: fmt.Sprintf("lengths 0..140 and to 3000 (thorough 9000), 8 patterns of links, %d ends, %d texts, bytes and a one-byte reader; tails and circles of 1..24 and to 2000", len(chainEnds), len(chainTexts)),
		Units:  func(th bool) int { return len(chainLens(th)) + 25 },
		Run: func(w *W, unit int) {
			ls := chainLens(w.Thorough)
			run := func(desc func() string, f func() error) bool {
				if !w.Begin() {
					return !w.Stop()
				}
				w.Announce(desc)
				w.Sample(desc)
				w.States++
				w.Transitions++
				w.Nontrivial++
				if err := f(); err != nil {
					w.Fail(desc(), err)
					return false
				}
				return !w.Stop()
			}
			if unit < len(ls) {
				n := ls[unit]
				for _, pat := range []uint{0, 255, 1, 0x55, 0xaa, 0x80, 0x0f, 0x6d} {
					for ei := range chainEnds {
						for ti, text := range chainTexts {
							for way := 0; way < 2; way++ {
								if n > 300 && (ei+ti+way+int(pat))%5 > 0 {
									continue
								}
								if !run(func() string {
									return fmt.Sprintf("%q into a chain of %d (pattern %02x) ending in %s, way %d", text, n, pat, chainEnds[ei].name, way)
								}, func() error { return chainCase(n, pat, &chainEnds[ei], text, way) }) {
									return
								}
							}
						}
					}
				}
				return
			}
			t := unit - len(ls)
			for _, c := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 1000, 2000} {
				for _, tt := range []int{t, t * 5, t * 40} {
					for _, text := range []string{"1", `{"a":1}`, " []"} {
						for way := 0; way < 4; way++ {
							pat := uint(t * 37 % 256)
							if !run(func() string {
								return fmt.Sprintf("%q into a chain of %d that leads into a circle of %d, way %d", text, tt, c, way)
							}, func() error { return loopCase(tt, c, pat, text, way) }) {
								return
							}
						}
					}
				}
			}
		},
	})
	addEngine("C07", &Engine{
		Name:   "one destination",
		Rule:   "every stream of up to three values (and of runs of equal ones) decoded one after the other into the same variable, for destinations of all kinds (interfaces, also holding pointers, maps, structs, pointers, raw messages, arrays) x separators x read sizes 1..20, 63..65, 511..513 and whole, aligned so that values recur at the same place of the buffer: after each value the variable, the offset and the outcome are the standard decoder's",
		Bounds: fmt.Sprintf("%d destinations, %d values: all pairs and triples (triples at 3 read sizes), runs of 70", len(sameTargets), len(sameValues)),
		Units:  func(bool) int { return len(sameTargets) * len(sameValues) },
		Run: func(w *W, unit int) {
			tg := &sameTargets[unit/len(sameValues)]
			first := sameValues[unit%len(sameValues)]
			chunks := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 63, 64, 65, 511, 512, 513}
			run := func(vals []string, sep string, chunk int) bool {
				if !w.Begin() {
					return !w.Stop()
				}
				desc := func() string {
					return fmt.Sprintf("%q (separator %q, reads of %d) into one %s", clip(strings.Join(vals, sep), 200), sep, chunk, tg.name)
				}
				w.Announce(desc)
				w.Sample(desc)
				w.States++
				w.Nontrivial++
				n, err := sameCase(tg, vals, sep, chunk)
				w.Transitions += int64(n)
				if err != nil {
					w.Fail(desc(), err)
					return false
				}
				return !w.Stop()
			}
			for _, c := range chunks {
				for _, sep := range []string{" ", "\n  ", strings.Repeat(" ", 63-len(first)), strings.Repeat("\t", 512-len(first))} {
					l := make([]string, 70)
					for i := range l {
						l[i] = first
					}
					if len(sep) > 100 {
						l = l[:5]
					}
					if !run(l, sep, c) {
						return
					}
				}
			}
			for _, b := range sameValues {
				for _, c := range chunks {
					if !run([]string{first, b}, " ", c) {
						return
					}
					if len(first) > 0 && !run([]string{first, b}, strings.Repeat(" ", 64-len(first)), c) {
						return
					}
				}
				for _, d := range sameValues {
					for _, c := range []int{0, 1, 3} {
						if !run([]string{first, b, d}, "\n", c) || w.Thorough && !run([]string{first, b, d, first, b}, " ", c) {
							return
						}
					}
				}
			}
		},
	})
	vals := emptyValues()
	var names []string
	for n := range vals {
		names = append(names, n)
	}
	sort.Strings(names)
	addEngine("C20", &Engine{
		Name:   "registered emptiness",
		Rule:   "encoders registered for a type of every kind, that call values empty never, always, when zero or when not zero x values x places of the field x tags: the field is left out exactly when it is an omitempty field and the encoder calls the value empty, and the encoder sees that value",
		Bounds: fmt.Sprintf("%d kinds of type with zero and other values, %d answers, %d places, %d tags, by value and by pointer", len(names), len(emptyAnswers), len(emptyShapes), len(emptyTags)),
		Units:  func(bool) int { return len(names) },
		Run: func(w *W, unit int) {
			for vi, v := range vals[names[unit]] {
				for ans := range emptyAnswers {
					for si := range emptyShapes {
						for _, tag := range emptyTags {
							for p := 0; p < 2; p++ {
								if !w.Begin() {
									if w.Stop() {
										return
									}
									continue
								}
								desc := func() string {
									return fmt.Sprintf("%s %d, empty %s, %s, tag %s, by pointer %v", names[unit], vi, emptyAnswers[ans].name, emptyShapes[si].name, tag, p == 1)
								}
								w.Announce(desc)
								w.Sample(desc)
								w.States++
								w.Transitions++
								w.Nontrivial++
								if err := emptyCase(names[unit], v, ans, &emptyShapes[si], tag, p == 1); err != nil {
									w.Fail(desc(), err)
									return
								}
							}
						}
					}
				}
			}
		},
	})
}
