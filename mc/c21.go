package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"runtime"
	"strings"

	"github.com/zerosnake0/jzon"
)

// C21: typed decoding is total, and accepts what the standard library accepts.

type c21Type struct {
	name string
	t    reflect.Type
	// divergences by design (DESIGN.md): what may be compared
	loose  bool // only totality and the rejection of malformed texts
	intKey bool // keys of integer maps are canonical decimals
}

// typeScan: the facts about a type that decide what can be compared
func typeScan(t reflect.Type, seen map[reflect.Type]bool, loose, intKey *bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if reflect.PtrTo(t).Implements(rt[json.Unmarshaler]()) {
		return
	}
	switch t.Kind() {
	case reflect.Chan, reflect.Func, reflect.Complex64, reflect.Complex128, reflect.UnsafePointer:
		*loose = true
	case reflect.Interface:
		if t.NumMethod() > 0 {
			*loose = true
		}
	case reflect.Ptr, reflect.Slice, reflect.Array:
		typeScan(t.Elem(), seen, loose, intKey)
	case reflect.Map:
		k := t.Key()
		if !reflect.PtrTo(k).Implements(rt[textUnmarshaler]()) {
			switch k.Kind() {
			case reflect.String:
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
				*intKey = true
			default:
				*loose = true
			}
		}
		typeScan(t.Elem(), seen, loose, intKey)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if strings.Contains(string(f.Tag), ",string") {
				*loose = true
			}
			typeScan(f.Type, seen, loose, intKey)
		}
	}
}

type textUnmarshaler interface{ UnmarshalText([]byte) error }

// recursive destinations
type (
	RecS []RecS
	RecM map[string]RecM
	RecP struct{ N *RecP }
	RecL struct{ L []RecL }
	RecI struct {
		N interface{}
		P *RecI
	}
	RecA struct{ A [1]*RecA }
)

func c21Types() []c21Type {
	var out []c21Type
	seen := map[reflect.Type]bool{}
	add := func(t reflect.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		c := c21Type{name: t.String(), t: t}
		typeScan(t, map[reflect.Type]bool{}, &c.loose, &c.intKey)
		out = append(out, c)
	}
	for _, c := range decodeTypes() {
		add(c.T)
	}
	for _, t := range []reflect.Type{rt[RecS](), rt[RecM](), rt[RecP](), rt[RecL](), rt[RecI](), rt[RecA](), rt[map[int]RecS](), rt[[]map[string][]*S2](), rt[map[TextInt]map[int8]float32]()} {
		add(t)
	}
	for _, u := range universe(1) {
		if u.dec {
			add(u.t)
		}
	}
	return out
}

// an integer key that the standard library reads but that is not canonical
var oddIntKey = regexp.MustCompile(`"(\+[0-9]|-?0[0-9]|-0")`)

// a repeated member: what the second one does to slices is C18's subject
func dupMember(text []byte) bool {
	d := json.NewDecoder(bytes.NewReader(text))
	type fr struct {
		obj  bool
		keys map[string]bool
		key  bool
	}
	var st []*fr
	for {
		tk, err := d.Token()
		if err != nil {
			return false
		}
		if len(st) > 0 && st[len(st)-1].obj && st[len(st)-1].key {
			if s, ok := tk.(string); ok {
				f := st[len(st)-1]
				s = strings.ToLower(s)
				if f.keys[s] {
					return true
				}
				f.keys[s] = true
				f.key = false
				continue
			}
		}
		switch tk {
		case json.Delim('{'):
			st = append(st, &fr{obj: true, keys: map[string]bool{}, key: true})
			continue
		case json.Delim('['):
			st = append(st, &fr{})
			continue
		case json.Delim('}'), json.Delim(']'):
			st = st[:len(st)-1]
		}
		if len(st) > 0 && st[len(st)-1].obj {
			st[len(st)-1].key = true
		}
	}
}

var c21Iter = jzon.NewDecoderConfig(nil)

// c21Judge compares the decoding of one text with the standard library.
// entries: 0 = Unmarshal, 1 = one byte reads, 2 = all entry points
func c21Judge(c *c21Type, text []byte, entries int) (accepted bool, err error) {
	defer catch(&err)
	want := reflect.New(c.t)
	werr := json.Unmarshal(text, want.Interface())
	accepted = werr == nil
	valid := accepted || json.Valid(text)
	oddUTF8 := false
	for _, b := range text {
		if b >= 0x80 {
			oddUTF8 = !validUTF8(string(text))
			break
		}
	}
	check := func(name string, got reflect.Value, e error) error {
		if e != nil && strings.HasPrefix(e.Error(), "panic") {
			return fmt.Errorf("%s: %v", name, e)
		}
		if !valid {
			if e == nil {
				return fmt.Errorf("%s accepts a malformed text as %s", name, show(got.Elem().Interface()))
			}
			return nil
		}
		if c.loose {
			return nil
		}
		if werr != nil {
			if e == nil {
				return fmt.Errorf("%s gives %s, the standard library reports %v", name, show(got.Elem().Interface()), werr)
			}
			return nil
		}
		if e != nil {
			if c.intKey && oddIntKey.Match(text) {
				return nil
			}
			return fmt.Errorf("%s: %v, the standard library gives %s", name, e, show(want.Elem().Interface()))
		}
		if oddUTF8 || eqv(got.Elem(), want.Elem(), 0) {
			return nil
		}
		if dupMember(text) {
			return nil
		}
		return fmt.Errorf("%s gives %s, the standard library %s", name, show(got.Elem().Interface()), show(want.Elem().Interface()))
	}
	x := reflect.New(c.t)
	e := jzon.Unmarshal(text, x.Interface())
	if err := check("Unmarshal", x, e); err != nil {
		return accepted, err
	}
	if entries >= 1 {
		x = reflect.New(c.t)
		e = jzon.UnmarshalFromReader(&oneByteReader{b: text}, x.Interface())
		if err := check("UnmarshalFromReader", x, e); err != nil {
			return accepted, err
		}
	}
	if entries >= 2 {
		x = reflect.New(c.t)
		e = jzon.UnmarshalFromString(string(text), x.Interface())
		if err := check("UnmarshalFromString", x, e); err != nil {
			return accepted, err
		}
		it := jzon.NewIterator()
		x = reflect.New(c.t)
		e = it.Unmarshal(text, x.Interface())
		if err := check("Iterator.Unmarshal", x, e); err != nil {
			return accepted, err
		}
		x = reflect.New(c.t)
		e = it.UnmarshalFromReader(newChunk(text, 3), x.Interface())
		it.Release()
		if err := check("Iterator.UnmarshalFromReader", x, e); err != nil {
			return accepted, err
		}
		x = reflect.New(c.t)
		e = c21Iter.Unmarshal(text, x.Interface())
		if err := check("DecoderConfig.Unmarshal", x, e); err != nil {
			return accepted, err
		}
	}
	return accepted, nil
}

func c21Case(w *W, c *c21Type, text []byte, entries int) bool {
	if !w.Begin() {
		return !w.Stop()
	}
	desc := func() string { return fmt.Sprintf("%s <- %s", c.name, clip(string(text), 500)) }
	w.Announce(desc)
	w.Sample(desc)
	w.Transitions++
	ok, err := c21Judge(c, text, entries)
	if ok {
		w.Nontrivial++
	}
	if err != nil {
		w.Fail(desc(), err)
		return !w.Stop()
	}
	return true
}

// the token alphabet, by the shape of the type
func c21Tokens(t reflect.Type) []string {
	out := []string{"{", "}", "[", "]", ",", ":", " ", "null", "true", "1", "-1", "300", "1.5", `"1"`, `"a"`}
	seen := map[string]bool{`"1"`: true, `"a"`: true}
	var scan func(t reflect.Type, d int)
	n := 0
	scan = func(t reflect.Type, d int) {
		if d > 3 {
			return
		}
		switch t.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
			scan(t.Elem(), d+1)
		case reflect.Struct:
			for i := 0; i < t.NumField() && n < 3; i++ {
				f := t.Field(i)
				name := f.Name
				if s, _, _ := strings.Cut(f.Tag.Get("json"), ","); s != "" && s != "-" {
					name = s
				}
				if f.Anonymous && f.Tag.Get("json") == "" {
					scan(f.Type, d+1)
					continue
				}
				if q, err := json.Marshal(name); err == nil && !seen[string(q)] && f.PkgPath == "" {
					seen[string(q)] = true
					out = append(out, string(q))
					n++
				}
			}
		}
	}
	scan(t, 0)
	return out
}

// texts that the standard library accepts for the type
func c21Accepted(c *c21Type, max int) [][]byte {
	var out [][]byte
	sizes := map[int]int{}
	for _, s := range calibTexts() {
		x := reflect.New(c.t)
		if json.Unmarshal([]byte(s), x.Interface()) == nil {
			if sizes[len(s)] < 3 {
				sizes[len(s)]++
				out = append(out, []byte(s))
			}
		}
	}
	// keep a spread over the list: the kinds of text are ordered
	if len(out) > max {
		var o [][]byte
		for i := 0; i < max; i++ {
			o = append(o, out[i*len(out)/max])
		}
		out = o
	}
	return out
}

var c21Class = []byte("{}[]:,\"\\/ \t\n\x00\x1f0 19-+.eEtfnua\x7f\xc3\xff")

func init() {
	register(&Property{ID: "C21", Engines: []*Engine{
		{
			Name:   "tokens",
			Rule:   "every destination type x every token sequence whose proper prefixes are live in the JSON automaton (complete texts, truncated texts, and texts dying at their last token), from a slice and in one byte reads, against the standard decoder",
			Bounds: "all types of the typed universe; 15 to 18 tokens; at most 5 tokens (thorough 6)",
			Units:  func(bool) int { return len(c21Types()) },
			Run: func(w *W, unit int) {
				c := c21Types()[unit]
				toks := c21Tokens(c.t)
				max := 5
				if w.Thorough {
					max = 6
				}
				var rec func(text []byte, p pda, depth int) bool
				rec = func(text []byte, p pda, depth int) bool {
					for _, tk := range toks {
						q := pda{p.st, p.key, append([]byte{}, p.stack...)}
						// two literals in a row would merge into another token
						live := true
						for i := 0; i < len(tk) && live; i++ {
							live = q.step(tk[i])
						}
						t2 := append(append([]byte{}, text...), tk...)
						w.States++
						ent := 0
						if len(t2) <= 12 || depth <= 3 {
							ent = 1
						}
						if !c21Case(w, &c, t2, ent) {
							return false
						}
						if live && depth < max && !rec(t2, q, depth+1) {
							return false
						}
					}
					return true
				}
				if !c21Case(w, &c, nil, 1) {
					return
				}
				var p pda
				p.reset()
				rec(nil, p, 1)
			},
		},
		{
			Name:   "corruptions",
			Rule:   "every destination type x texts the standard decoder accepts for it x every truncation, every deletion of one byte, every replacement and insertion of one byte of each class at every offset, against the standard decoder",
			Bounds: "24 accepted texts per type (thorough 400); 33 byte classes; single corruptions (thorough: also pairs of a deletion and a replacement for texts up to 8 bytes)",
			Units:  func(bool) int { return len(c21Types()) },
			Run: func(w *W, unit int) {
				c := c21Types()[unit]
				max := 24
				if w.Thorough {
					max = 400
				}
				for _, s := range c21Accepted(&c, max) {
					w.States++
					for i := 0; i <= len(s); i++ {
						if !c21Case(w, &c, s[:i], 1) {
							return
						}
						if i < len(s) {
							del := append(append([]byte{}, s[:i]...), s[i+1:]...)
							if !c21Case(w, &c, del, 1) {
								return
							}
							if w.Thorough && len(s) <= 8 {
								for j := range del {
									for _, b := range c21Class {
										x := append([]byte{}, del...)
										x[j] = b
										if !c21Case(w, &c, x, 0) {
											return
										}
									}
								}
							}
						}
						for _, b := range c21Class {
							if i < len(s) {
								x := append([]byte{}, s...)
								x[i] = b
								if !c21Case(w, &c, x, 1) {
									return
								}
							}
							x := append(append(append([]byte{}, s[:i]...), b), s[i:]...)
							if !c21Case(w, &c, x, 0) {
								return
							}
						}
					}
				}
			},
		},
		{
			Name:   "trailing",
			Rule:   "every destination type x texts the standard decoder accepts x every byte value appended directly and after whitespace, through all entry points that decode a complete text: anything but whitespace is an error, whitespace changes nothing",
			Bounds: "5 accepted texts per type (thorough 60), 256 byte values, 3 separators",
			Units:  func(bool) int { return len(c21Types()) },
			Run: func(w *W, unit int) {
				c := c21Types()[unit]
				max := 5
				if w.Thorough {
					max = 60
				}
				for _, s := range c21Accepted(&c, max) {
					w.States++
					for b := 0; b < 256; b++ {
						for _, sep := range []string{"", " ", "\n\t "} {
							x := append(append(append([]byte{}, s...), sep...), byte(b))
							if !c21Case(w, &c, x, 2) {
								return
							}
						}
					}
				}
			},
		},
		{
			Name:   "nesting",
			Rule:   "recursive destination types x nesting depths, complete, truncated and with a wrong element at the bottom: equal to the standard decoder where that has no depth limit of its own, and without a crash beyond",
			Bounds: "8 recursive shapes; depths 1-64, 100, 1000, 5000, 9999, 10001, 100000 (thorough 500000); goroutine stack limit 128 MB",
			Units:  func(bool) int { return len(c21Nests) },
			Run: func(w *W, unit int) {
				n := c21Nests[unit]
				c := c21Type{name: n.t.String(), t: n.t}
				var depths []int
				for d := 1; d <= 64; d++ {
					depths = append(depths, d)
				}
				depths = append(depths, 100, 1000, 5000, 9999, 10001, 100000)
				if w.Thorough {
					depths = append(depths, 500000)
				}
				for _, d := range depths {
					op, cl := strings.Repeat(n.open, d), strings.Repeat(n.close, d)
					for _, bottom := range []string{n.bottom, "null", "1", `"x"`, "[", "}", "x", ""} {
						for _, tail := range []string{"", "1", "]", "}"} {
							text := []byte(op + bottom + cl + tail)
							if tail == "1" {
								text = []byte(op + bottom + cl)
								text = text[:len(text)-1]
							}
							if d < 1000 {
								if !c21Case(w, &c, text, 1) {
									return
								}
								continue
							}
							if !w.Begin() {
								if w.Stop() {
									return
								}
								continue
							}
							w.Transitions++
							w.States++
							desc := func() string { return fmt.Sprintf("%s <- %d levels, bottom %s, tail %s", c.name, d, bottom, tail) }
							w.Announce(desc)
							if err := c21Deep(&c, text, d); err != nil {
								w.Fail(desc(), err)
								return
							}
						}
					}
				}
			},
		},
		{
			Name:    "memory",
			Workers: 1,
			Rule:    "families of texts that grow in one dimension (long strings, numbers, whitespace, escapes, arrays, objects, keys, nesting, truncated and malformed variants) x destinations x delivery (slice, whole reads, 512 byte reads): the memory allocated for 4n bytes is at most a constant factor of that for n bytes, and bounded by a multiple of the input",
			Bounds:  "n = 64 KB, 256 KB, 1 MB; factor 4 with 60% tolerance per quadrupling; at most 400 bytes per input byte",
			Units:   func(bool) int { return len(c21Grow) },
			Run: func(w *W, unit int) {
				g := c21Grow[unit]
				for _, t := range g.ts {
					for _, mode := range []string{"slice", "reader", "512"} {
						if !w.Begin() {
							if w.Stop() {
								return
							}
							continue
						}
						w.States++
						w.Nontrivial++
						desc := func() string { return fmt.Sprintf("%s into %s by %s", g.name, t, mode) }
						w.Announce(desc)
						w.Sample(desc)
						if err := c21Memory(g, t, mode, w); err != nil {
							w.Fail(desc(), err)
							return
						}
					}
				}
			},
		},
	}})
}

type c21Nest struct {
	t                   reflect.Type
	open, close, bottom string
}

var c21Nests = []c21Nest{
	{rt[RecS](), "[", "]", "[]"},
	{rt[RecM](), `{"k":`, "}", "{}"},
	{rt[RecP](), `{"N":`, "}", "{}"},
	{rt[RecL](), `{"L":[`, "]}", "{}"},
	{rt[RecI](), `{"P":`, "}", `{"N":[1]}`},
	{rt[RecI](), `{"N":[`, "]}", `{"N":[1]}`},
	{rt[RecA](), `{"A":[`, "]}", `{}`},
	{rt[interface{}](), `[{"":`, "}]", `[]`},
	{rt[[]interface{}](), `[`, "]", `[]`},
	{rt[map[string]interface{}](), `{"a":`, "}", `{}`},
	{rt[json.RawMessage](), `[{"a":`, "}]", `{}`},
	{rt[S2](), `{"zz":`, "}", `{}`},
	{rt[JSONStruct](), `[`, "]", `{}`},
}

func c21Deep(c *c21Type, text []byte, d int) (err error) {
	defer catch(&err)
	valid := refValid(text)
	for _, mode := range []int{0, 1} {
		x := reflect.New(c.t)
		var e error
		if mode == 0 {
			e = jzon.Unmarshal(text, x.Interface())
		} else {
			e = jzon.UnmarshalFromReader(newChunk(text, 4096), x.Interface())
		}
		if e != nil && strings.HasPrefix(e.Error(), "panic") {
			return e
		}
		if !valid && e == nil {
			return fmt.Errorf("a malformed text is accepted")
		}
		if d <= 10001 {
			y := reflect.New(c.t)
			we := json.Unmarshal(text, y.Interface())
			if we != nil && strings.Contains(we.Error(), "max depth") {
				continue
			}
			if (we == nil) != (e == nil) {
				return fmt.Errorf("%v, the standard library: %v", e, we)
			}
			if e == nil && !eqv(x.Elem(), y.Elem(), 0) {
				return fmt.Errorf("the value differs from the standard library's")
			}
		}
	}
	return nil
}

type c21Growth struct {
	name string
	f    func(n int) string
	ts   []reflect.Type
}

func rep(s string, n int) string { return strings.Repeat(s, n/len(s)+1) }

var c21Grow = []c21Growth{
	{"a long string", func(n int) string { return `"` + rep("a", n) + `"` }, []reflect.Type{tStr, rt[interface{}](), rt[json.RawMessage](), rt[TextStr](), rt[S2](), tInt, rt[*string]()}},
	{"a long escaped string", func(n int) string { return `"` + rep(`\n`, n) + `"` }, []reflect.Type{tStr, rt[interface{}](), rt[json.RawMessage]()}},
	{"a long string of surrogates", func(n int) string { return `"` + rep(`\ud83d\ude00`, n) + `"` }, []reflect.Type{tStr, rt[interface{}]()}},
	{"an unterminated string", func(n int) string { return `"` + rep(`a`, n) }, []reflect.Type{tStr, rt[interface{}](), rt[json.RawMessage]()}},
	{"base64", func(n int) string { return `"` + rep("AQID", n) + `"` }, []reflect.Type{rt[[]byte](), rt[NBytes]()}},
	{"a long number", func(n int) string { return rep("1", n) }, []reflect.Type{rt[json.Number](), rt[json.RawMessage](), tInt, rt[float64](), rt[interface{}]()}},
	{"a long fraction", func(n int) string { return "1." + rep("1", n) }, []reflect.Type{rt[json.Number](), rt[float64](), rt[float32](), rt[interface{}]()}},
	{"whitespace", func(n int) string { return rep(" ", n) + "1" + rep("\n", n) }, []reflect.Type{tInt, rt[interface{}](), rt[json.RawMessage](), rt[S2]()}},
	{"an array of numbers", func(n int) string { return "[" + rep("1,", n) + "1]" }, []reflect.Type{rt[[]int](), rt[interface{}](), rt[json.RawMessage](), rt[[3]int](), rt[[]byte](), rt[[]interface{}]()}},
	{"an array of strings", func(n int) string { return "[" + rep(`"ab",`, n) + `""]` }, []reflect.Type{rt[[]string](), rt[interface{}](), rt[json.RawMessage](), rt[[]*string]()}},
	{"an array of structs", func(n int) string { return "[" + rep(`{"A":1,"b":"x"},`, n) + `{}]` }, []reflect.Type{rt[[]S2](), rt[[]*S2](), rt[interface{}](), rt[[]map[string]interface{}](), rt[[]JSONStruct]()}},
	{"an array of empty arrays", func(n int) string { return "[" + rep(`[],`, n) + `[]]` }, []reflect.Type{rt[RecS](), rt[[][]int](), rt[interface{}]()}},
	{"an unterminated array", func(n int) string { return "[" + rep(`1,`, n) }, []reflect.Type{rt[[]int](), rt[interface{}](), rt[json.RawMessage]()}},
	{"an array with a wrong end", func(n int) string { return "[" + rep(`1,`, n) + "x]" }, []reflect.Type{rt[[]int](), rt[interface{}](), rt[json.RawMessage]()}},
	{"an object of many members", func(n int) string {
		var sb strings.Builder
		sb.WriteByte('{')
		for i := 0; sb.Len() < n; i++ {
			fmt.Fprintf(&sb, `"%d":%d,`, i, i)
		}
		sb.WriteString(`"z":1}`)
		return sb.String()
	}, []reflect.Type{rt[map[string]int](), rt[interface{}](), rt[json.RawMessage](), rt[S2](), rt[map[string]interface{}]()}},
	{"an object repeating a member", func(n int) string { return "{" + rep(`"A":1,`, n) + `"A":2}` }, []reflect.Type{rt[S1](), rt[map[string]int](), rt[interface{}](), rt[S11]()}},
	{"a long key", func(n int) string { return `{"` + rep("k", n) + `":1}` }, []reflect.Type{rt[S2](), rt[S11](), rt[map[string]int](), rt[interface{}](), rt[map[int]int](), rt[map[TextStr]int]()}},
	{"a long escaped key", func(n int) string { return `{"` + rep(`\u0041`, n) + `":1}` }, []reflect.Type{rt[S2](), rt[map[string]int](), rt[interface{}]()}},
	{"nested arrays", func(n int) string { return rep("[", n/16) + rep("]", n/16) }, []reflect.Type{rt[interface{}](), rt[json.RawMessage](), rt[RecS](), rt[S2]()}},
	{"nested objects", func(n int) string { return rep(`{"a":`, n/16) + "1" + strings.Repeat("}", n/16/5+1) }, []reflect.Type{rt[interface{}](), rt[json.RawMessage](), rt[RecM]()}},
	{"open arrays", func(n int) string { return rep("[", n/16) }, []reflect.Type{rt[interface{}](), rt[json.RawMessage](), rt[RecS]()}},
	{"a skipped member", func(n int) string {
		return `{"zz":[` + rep(`{"q":"str\n",`, 12) + `"w":0}` + strings.Repeat("}", 0) + rep(`,"abcdefgh"`, n) + `]}`
	}, []reflect.Type{rt[S2](), rt[S11]()}},
}

func c21Alloc(f func()) uint64 {
	var a, b runtime.MemStats
	// two collections empty every sync.Pool: what a run allocates does not
	// depend on what the runs before it left there
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

func c21Memory(g c21Growth, t reflect.Type, mode string, w *W) (err error) {
	defer catch(&err)
	run := func(n int) (uint64, int) {
		text := []byte(g.f(n))
		m := c21Alloc(func() {
			x := reflect.New(t)
			switch mode {
			case "slice":
				jzon.Unmarshal(text, x.Interface())
			case "reader":
				jzon.UnmarshalFromReader(bytes.NewReader(text), x.Interface())
			default:
				jzon.UnmarshalFromReader(newChunk(text, 512), x.Interface())
			}
		})
		w.Transitions++
		return m, len(text)
	}
	run(64 << 10) // warm caches and pools
	prev := uint64(0)
	for i, n := range []int{64 << 10, 256 << 10, 1 << 20} {
		// the least of three runs
		m, l := run(n)
		for k := 0; k < 2; k++ {
			if m2, _ := run(n); m2 < m {
				m = m2
			}
		}
		if m > uint64(l)*400+(1<<20) {
			return fmt.Errorf("%d bytes of input allocate %d bytes", l, m)
		}
		if i > 0 && m > prev*64/10+(1<<20) {
			return fmt.Errorf("%d bytes of input allocate %d bytes, a quarter of it %d", l, m, prev)
		}
		prev = m
	}
	return nil
}
