package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/zerosnake0/jzon"
)

// C17: every assignment of a reading method to every value of a document.

type c17Node struct {
	kind       byte // 'n' 'b' '0' 's' '[' '{'
	start, end int
	kids       []*c17Node
	keys       []string
	val        interface{}
	typed      []c17Typed
}

type c17Typed struct {
	t    reflect.Type
	want reflect.Value
}

// a shape: the text of a leaf, or a container with children
type c17Shape struct {
	leaf string
	obj  bool
	kids []*c17Shape
}

var c17Leaves = []string{"null", "true", "false", "12", "-0.5e1", `"a"`, `"\u00e9\n"`}
var c17Keys = []string{"a", `b\t`, "a", "c"}

func c17Shapes(n int, leaves []string, memo map[int][]*c17Shape) []*c17Shape {
	if l, ok := memo[n]; ok {
		return l
	}
	var out []*c17Shape
	if n == 1 {
		for _, t := range leaves {
			out = append(out, &c17Shape{leaf: t})
		}
	}
	// containers whose children have n-1 nodes together
	var rec func(left int, kids []*c17Shape)
	rec = func(left int, kids []*c17Shape) {
		if left == 0 {
			k := append([]*c17Shape{}, kids...)
			out = append(out, &c17Shape{kids: k}, &c17Shape{obj: true, kids: k})
			return
		}
		for m := 1; m <= left; m++ {
			for _, s := range c17Shapes(m, leaves, memo) {
				rec(left-m, append(kids, s))
			}
		}
	}
	rec(n-1, nil)
	memo[n] = out
	return out
}

func c17Build(s *c17Shape, sp string, sb *strings.Builder) *c17Node {
	sb.WriteString(sp)
	n := &c17Node{start: sb.Len()}
	switch {
	case s.leaf != "":
		sb.WriteString(s.leaf)
		switch s.leaf[0] {
		case 'n':
			n.kind = 'n'
		case 't', 'f':
			n.kind = 'b'
		case '"':
			n.kind = 's'
		default:
			n.kind = '0'
		}
	case s.obj:
		n.kind = '{'
		sb.WriteByte('{')
		for i, k := range s.kids {
			if i > 0 {
				sb.WriteString(sp + ",")
			}
			key := c17Keys[i%len(c17Keys)]
			sb.WriteString(sp + `"` + key + `"` + sp + ":")
			var u string
			json.Unmarshal([]byte(`"`+key+`"`), &u)
			n.keys = append(n.keys, u)
			n.kids = append(n.kids, c17Build(k, sp, sb))
		}
		sb.WriteString(sp + "}")
	default:
		n.kind = '['
		sb.WriteByte('[')
		for i, k := range s.kids {
			if i > 0 {
				sb.WriteString(sp + ",")
			}
			n.kids = append(n.kids, c17Build(k, sp, sb))
		}
		sb.WriteString(sp + "]")
	}
	n.end = sb.Len()
	return n
}

var c17TypesFull = []reflect.Type{
	rt[interface{}](), rt[json.RawMessage](), rt[bool](), rt[int](), rt[uint8](), rt[int64](), rt[float32](), rt[float64](), rt[string](), rt[json.Number](),
	rt[[]interface{}](), rt[map[string]interface{}](), rt[[1]interface{}](), rt[[0]int](), rt[[3]json.RawMessage](), rt[struct{}](), rt[struct{ A interface{} }](), rt[struct{ A, B, C json.RawMessage }](),
	rt[map[string]json.RawMessage](), rt[*[]interface{}](), rt[JSONStruct](), rt[TextStr](),
}

var c17TypesSmall = []reflect.Type{rt[interface{}](), rt[json.RawMessage](), rt[int](), rt[string](), rt[[1]interface{}](), rt[struct{ A interface{} }]()}

func (n *c17Node) prepare(text string, types []reflect.Type) {
	json.Unmarshal([]byte(text[n.start:n.end]), &n.val)
	for _, t := range types {
		if n.kind == 'n' && (t.Kind() == reflect.Bool || t.Kind() == reflect.Uint8 || t.Kind() == reflect.Int64 || t.Kind() == reflect.Float64) {
			continue // the same path as other scalars
		}
		p := reflect.New(t)
		if json.Unmarshal([]byte(text[n.start:n.end]), p.Interface()) == nil {
			n.typed = append(n.typed, c17Typed{t, p.Elem()})
		}
	}
	for _, k := range n.kids {
		k.prepare(text, types)
	}
}

type c17Run struct {
	text   string
	it     *jzon.Iterator
	r      *chunkReader
	choice []int // the choices, one per value visited
	opts   []int
	depth  int
	small  bool
	names  []string
	log    bool
}

func (c *c17Run) choose(n int) int {
	if c.depth == len(c.choice) {
		c.choice = append(c.choice, 0)
		c.opts = append(c.opts, 0)
	}
	c.opts[c.depth] = n
	k := c.choice[c.depth]
	c.depth++
	return k
}

func (c *c17Run) rest() int {
	n := len(c.it.Buffer())
	if c.r != nil {
		n += len(c.r.data) - c.r.pos
	}
	return n
}

func (c *c17Run) aligned(n *c17Node, what string) error {
	if got, want := c.rest(), len(c.text)-n.end; got != want {
		return fmt.Errorf("%s of %q leaves %d bytes, %d follow the value", what, c.text[n.start:n.end], got, want)
	}
	return nil
}

func (c *c17Run) read(n *c17Node) error {
	it := c.it
	span := c.text[n.start:n.end]
	m := methodsOf(n, c.small)
	k := c.choose(len(m) + len(n.typed))
	var what string
	if k < len(m) {
		what = m[k]
	} else {
		what = "ReadVal " + n.typed[k-len(m)].t.String()
	}
	if c.log {
		c.names = append(c.names, fmt.Sprintf("%s: %s", span, what))
	}
	if !c.small {
		vt, err := it.NextValueType()
		if err != nil || vt != vtOf(n.kind) {
			return fmt.Errorf("NextValueType before %q: %v %v", span, vt, err)
		}
	}
	bad := func(format string, a ...interface{}) error {
		return fmt.Errorf("%s of %q: %s", what, span, fmt.Sprintf(format, a...))
	}
	var err error
	if k >= len(m) {
		ty := n.typed[k-len(m)]
		p := reflect.New(ty.t)
		if err = it.ReadVal(p.Interface()); err == nil && !eqv(p.Elem(), ty.want, 0) {
			return bad("got %s, want %s", show(p.Elem().Interface()), show(ty.want.Interface()))
		}
	} else {
		switch what {
		case "Skip":
			err = it.Skip()
		case "SkipNumber":
			err = it.SkipNumber()
		case "SkipString":
			err = it.SkipString()
		case "SkipArray":
			err = it.SkipArray()
		case "SkipObject":
			err = it.SkipObject()
		case "SkipRaw":
			var b []byte
			if b, err = it.SkipRaw(); err == nil && string(b) != span {
				return bad("got %q", b)
			}
		case "ReadRaw":
			var b []byte
			if b, err = it.ReadRaw(); err == nil && string(b) != span {
				return bad("got %q", b)
			}
		case "AppendRaw":
			var b []byte
			if b, err = it.AppendRaw([]byte("pre")); err == nil && string(b) != "pre"+span {
				return bad("got %q", b)
			}
		case "Read":
			var v interface{}
			if v, err = it.Read(); err == nil && !eqTree(v, n.val) {
				return bad("got %s, want %s", show(v), show(n.val))
			}
		case "ReadNull":
			err = it.ReadNull()
		case "ReadBool":
			var v bool
			if v, err = it.ReadBool(); err == nil && v != n.val {
				return bad("got %v", v)
			}
		case "ReadFloat64":
			var v float64
			if v, err = it.ReadFloat64(); err == nil && v != n.val {
				return bad("got %v", v)
			}
		case "ReadFloat32":
			var v float32
			if v, err = it.ReadFloat32(); err == nil && float64(v) != n.val {
				return bad("got %v", v)
			}
		case "ReadInt":
			var v int
			if v, err = it.ReadInt(); err == nil && float64(v) != n.val {
				return bad("got %v", v)
			}
		case "ReadNumber":
			var v json.Number
			x, e := it.ReadNumber()
			v, err = json.Number(x), e
			if err == nil && string(v) != span {
				return bad("got %v", v)
			}
		case "ReadString":
			var v string
			if v, err = it.ReadString(); err == nil && v != n.val {
				return bad("got %q", v)
			}
		case "ReadStringAsSlice":
			var v []byte
			if v, err = it.ReadStringAsSlice(); err == nil && string(v) != n.val {
				return bad("got %q", v)
			}
		case "walk":
			var more bool
			i := 0
			if n.kind == '[' {
				for more, err = it.ReadArrayBegin(); more && err == nil; more, err = it.ReadArrayMore() {
					if i >= len(n.kids) {
						return bad("more than %d elements", i)
					}
					if e := c.read(n.kids[i]); e != nil {
						return e
					}
					i++
				}
			} else {
				var key string
				for more, key, err = it.ReadObjectBegin(); more && err == nil; more, key, err = it.ReadObjectMore() {
					if i >= len(n.kids) || key != n.keys[i] {
						return bad("member %d has key %q", i, key)
					}
					if e := c.read(n.kids[i]); e != nil {
						return e
					}
					i++
				}
			}
			if err == nil && i != len(n.kids) {
				return bad("%d of %d children", i, len(n.kids))
			}
		case "callback":
			i := 0
			if n.kind == '[' {
				err = it.ReadArrayCB(func(*jzon.Iterator) error {
					i++
					if i > len(n.kids) {
						return fmt.Errorf("too many elements")
					}
					return c.read(n.kids[i-1])
				})
			} else {
				err = it.ReadObjectCB(func(_ *jzon.Iterator, key string) error {
					i++
					if i > len(n.kids) || key != n.keys[i-1] {
						return fmt.Errorf("member %d has key %q", i, key)
					}
					return c.read(n.kids[i-1])
				})
			}
			if err == nil && i != len(n.kids) {
				return bad("%d of %d children", i, len(n.kids))
			}
		}
	}
	if err != nil {
		return fmt.Errorf("%s of %q: %v", what, span, err)
	}
	return c.aligned(n, what)
}

func vtOf(k byte) jzon.ValueType {
	switch k {
	case 'n':
		return jzon.NullValue
	case 'b':
		return jzon.BoolValue
	case '0':
		return jzon.NumberValue
	case 's':
		return jzon.StringValue
	case '[':
		return jzon.ArrayValue
	}
	return jzon.ObjectValue
}

var c17Methods = map[byte][]string{
	'n': {"Skip", "Read", "SkipRaw", "ReadNull"},
	'b': {"Skip", "Read", "SkipRaw", "ReadBool"},
	'0': {"SkipNumber", "Skip", "Read", "ReadRaw", "ReadFloat64", "ReadFloat32", "ReadNumber", "ReadInt"},
	's': {"SkipString", "Skip", "Read", "AppendRaw", "ReadString", "ReadStringAsSlice"},
	'[': {"walk", "callback", "SkipArray", "Skip", "Read", "SkipRaw", "AppendRaw"},
	'{': {"walk", "callback", "SkipObject", "Skip", "Read", "SkipRaw", "ReadRaw"},
}
var c17Small = map[byte][]string{
	'n': {"Skip", "ReadNull"}, 'b': {"SkipRaw", "ReadBool"}, '0': {"SkipNumber", "ReadFloat64"}, 's': {"Skip", "ReadString"},
	'[': {"walk", "callback", "SkipArray", "Read", "SkipRaw"}, '{': {"walk", "callback", "SkipObject", "Read", "SkipRaw"},
}

func methodsOf(n *c17Node, small bool) []string {
	if small {
		return c17Small[n.kind]
	}
	m := c17Methods[n.kind]
	if n.kind == '0' && (n.end-n.start) != 2 { // not the integer
		return m[:len(m)-1]
	}
	return m
}

func c17Doc(w *W, s *c17Shape, types []reflect.Type, small bool) bool {
	for v := 0; v < 4; v++ {
		sp := ""
		if v&1 != 0 {
			sp = " "
		}
		var sb strings.Builder
		root := c17Build(s, sp, &sb)
		text := sb.String() + " 77"
		root.prepare(text, types)
		run := &c17Run{text: text, small: small}
		for {
			if !w.Begin() {
				if w.Stop() {
					return false
				}
			} else {
				desc := func() string {
					return fmt.Sprintf("text %q, reader by one byte: %v, choices %v of %v", text, v&2 != 0, run.choice, run.opts)
				}
				w.Announce(desc)
				it := jzon.NewIterator()
				run.it, run.r, run.depth = it, nil, 0
				if v&2 != 0 {
					run.r = newChunk([]byte(text), 1)
					it.Reset(run.r)
				} else {
					it.ResetBytes([]byte(text))
				}
				err := c17Exec(run, root)
				it.Release()
				w.Sample(desc)
				w.States++
				w.Transitions += int64(run.depth)
				if run.depth > 1 {
					w.Nontrivial++
				}
				if err != nil {
					w.Fail(desc(), err)
					return false
				}
			}
			if w.only >= 0 && w.idx < w.only { // replay: the skipped cases still advance the enumeration
				it := jzon.NewIterator()
				run.it, run.r, run.depth = it, nil, 0
				it.ResetBytes([]byte(text))
				c17Exec(run, root)
				it.Release()
			}
			// next assignment
			run.choice, run.opts = run.choice[:run.depth], run.opts[:run.depth]
			i := run.depth - 1
			for i >= 0 && run.choice[i]+1 >= run.opts[i] {
				i--
			}
			if i < 0 {
				break
			}
			run.choice, run.opts = run.choice[:i+1], run.opts[:i+1]
			run.choice[i]++
		}
		if w.Stop() {
			return false
		}
	}
	return true
}

func c17Exec(c *c17Run, root *c17Node) (err error) {
	defer catch(&err)
	if err = c.read(root); err != nil {
		return err
	}
	n, err := c.it.ReadInt()
	if err != nil || n != 77 {
		return fmt.Errorf("the value after it: %d %v", n, err)
	}
	if c.rest() != 0 {
		return fmt.Errorf("%d bytes left at the end", c.rest())
	}
	return nil
}

func c17Engine(name, bounds string, leaves []string, types []reflect.Type, small bool, quick, thorough int) *Engine {
	var qs, ts []*c17Shape
	get := func(th bool) []*c17Shape {
		build := func(k int) []*c17Shape {
			memo := map[int][]*c17Shape{}
			var out []*c17Shape
			for i := 1; i <= k; i++ {
				out = append(out, c17Shapes(i, leaves, memo)...)
			}
			return out
		}
		if th {
			if ts == nil {
				ts = build(thorough)
			}
			return ts
		}
		if qs == nil {
			qs = build(quick)
		}
		return qs
	}
	return &Engine{
		Name:   name,
		Rule:   "every document x every assignment of a reading method (skip, typed skip, raw, untyped, typed targets which the standard library accepts for it, begin/more walk, callback walk) to every value of it, compact and spaced, from a slice and byte by byte: each read succeeds with the value or raw bytes of that value, and leaves exactly the bytes after it; non-trivial: two or more values read separately",
		Bounds: bounds,
		Units:  func(th bool) int { return len(get(th)) },
		Run:    func(w *W, unit int) { c17Doc(w, get(w.Thorough)[unit], types, small) },
	}
}

// ---- acceptance ----------------------------------------------------------------

var c17Tokens = []string{"[", "]", "{", "}", ",", ":", `"a"`, `"\n`, `"`, "1", "-", ".5", "true", "nul", " "}

// walkTo walks containers down to the depth and reads what is there with f
func walkTo(it *jzon.Iterator, depth int, cb bool, f func(*jzon.Iterator) error) error {
	if depth == 0 {
		return f(it)
	}
	vt, err := it.NextValueType()
	if err != nil {
		return err
	}
	switch vt {
	case jzon.ArrayValue:
		if cb {
			return it.ReadArrayCB(func(it *jzon.Iterator) error { return walkTo(it, depth-1, cb, f) })
		}
		more, err := it.ReadArrayBegin()
		for ; more && err == nil; more, err = it.ReadArrayMore() {
			if e := walkTo(it, depth-1, cb, f); e != nil {
				return e
			}
		}
		return err
	case jzon.ObjectValue:
		if cb {
			return it.ReadObjectCB(func(it *jzon.Iterator, _ string) error { return walkTo(it, depth-1, cb, f) })
		}
		more, _, err := it.ReadObjectBegin()
		for ; more && err == nil; more, _, err = it.ReadObjectMore() {
			if e := walkTo(it, depth-1, cb, f); e != nil {
				return e
			}
		}
		return err
	case jzon.StringValue:
		if cb {
			return it.SkipString()
		}
		_, err := it.ReadString()
		return err
	case jzon.NumberValue:
		if cb {
			return it.SkipNumber()
		}
		_, err := it.ReadFloat64()
		return err
	case jzon.BoolValue:
		_, err := it.ReadBool()
		return err
	case jzon.NullValue:
		return it.ReadNull()
	}
	return fmt.Errorf("no value")
}

type c17Hook struct{ raw []byte }

func (h *c17Hook) UnmarshalJSON(b []byte) error {
	h.raw = append([]byte{}, b...)
	return nil
}

var c17Accept = []struct {
	name string
	f    func(it *jzon.Iterator) error
	obj  bool // only for texts starting with an object
}{
	{"Skip", func(it *jzon.Iterator) error { return it.Skip() }, false},
	{"ReadRaw", func(it *jzon.Iterator) error { _, e := it.ReadRaw(); return e }, false},
	{"Read", func(it *jzon.Iterator) error { _, e := it.Read(); return e }, false},
	{"ReadVal interface", func(it *jzon.Iterator) error { var v interface{}; return it.ReadVal(&v) }, false},
	{"ReadVal RawMessage", func(it *jzon.Iterator) error { var v json.RawMessage; return it.ReadVal(&v) }, false},
	{"ReadVal hook", func(it *jzon.Iterator) error { var v c17Hook; return it.ReadVal(&v) }, false},
	{"ReadVal map of raw", func(it *jzon.Iterator) error { var v map[string]json.RawMessage; return it.ReadVal(&v) }, true},
	{"ReadVal struct", func(it *jzon.Iterator) error { var v struct{ A interface{} }; return it.ReadVal(&v) }, true},
	{"ReadVal struct without fields", func(it *jzon.Iterator) error { var v struct{}; return it.ReadVal(&v) }, true},
}

func c17AcceptCase(w *W, text []byte) bool {
	want := refPrefix(text)
	first := 0
	for first < len(text) && isWS(text[first]) {
		first++
	}
	isObj := first < len(text) && text[first] == '{'
	nested := isObj || first < len(text) && text[first] == '['
	for mi := range c17Accept {
		m := &c17Accept[mi]
		for d := 0; d <= 6; d++ {
			depth, cb := (d+1)/2, d%2 == 0
			reader := d > 4 // again byte by byte, depth 0 and 1
			if reader {
				depth, cb = d-5, false
			}
			if reader && (mi > 2 || depth == 1 && mi != 1) {
				break
			}
			if m.obj && !isObj {
				break
			}
			if (m.obj && depth > 0 || depth > 1 && !nested) && !reader {
				continue
			}
			if !w.Begin() {
				if w.Stop() {
					return false
				}
				continue
			}
			desc := func() string {
				return fmt.Sprintf("%q walked to depth %d (callbacks %v, reader %v) then %s", text, depth, cb, reader, m.name)
			}
			w.Announce(desc)
			w.States++
			w.Transitions += int64(len(text))
			it := jzon.NewIterator()
			used := len(text)
			var cr *chunkReader
			if reader {
				cr = newChunk(text, 1)
				it.Reset(cr)
			} else {
				it.ResetBytes(append(make([]byte, 0, len(text)), text...))
			}
			err := func() (err error) {
				defer catch(&err)
				e := walkTo(it, depth, cb, m.f)
				if pe, ok := e.(interface{ RuntimeError() }); ok {
					return fmt.Errorf("%v", pe)
				}
				if e != nil && want >= 0 && strings.Contains(e.Error(), "value out of range") && bytes.ContainsAny(text, "eE") {
					return nil // a number outside of the float64 range, read untyped
				}
				if (e == nil) != (want >= 0) {
					return fmt.Errorf("error %v; the reference value length is %d", e, want)
				}
				if reader {
					used = cr.pos
				}
				if used -= len(it.Buffer()); e == nil && used != want {
					return fmt.Errorf("consumed %d bytes, the value has %d", used, want)
				}
				return nil
			}()
			it.Release()
			if want > 1 {
				w.Nontrivial++
			}
			if err != nil {
				w.Fail(desc(), err)
				return false
			}
		}
	}
	return true
}

func init() {
	register(&Property{ID: "C17", Engines: []*Engine{
		c17Engine("all methods", "documents of up to 4 values (thorough 5) over 7 scalars, 29 methods", c17Leaves, c17TypesFull, false, 4, 5),
		c17Engine("mixtures", "documents of up to 5 values (thorough 6) over 3 scalars, 3-7 methods per value", []string{"true", "12", `"\u00e9\n"`}, c17TypesSmall, true, 5, 6),
		{
			Name:   "acceptance",
			Rule:   "every token sequence whose proper prefix is a live prefix of the JSON automaton (valid, truncated and one-token-corrupted texts) x every reading method x walking to depth 0, 1 or 2 first, from a slice and (skip, raw, untyped) byte by byte: success exactly when the reference finds a value at the start, and exactly its bytes consumed",
			Bounds: "15 tokens, sequences of length up to 7 (thorough 9)",
			Units:  func(bool) int { return len(c17Tokens) * len(c17Tokens) },
			Run: func(w *W, unit int) {
				max := 7
				if w.Thorough {
					max = 9
				}
				var rec func(text []byte, n int) bool
				rec = func(text []byte, n int) bool {
					if !c17AcceptCase(w, text) {
						return false
					}
					if n == max || !refLive(text) {
						return true
					}
					for _, t := range c17Tokens {
						if !rec(append(text[:len(text):len(text)], t...), n+1) {
							return false
						}
					}
					return true
				}
				a, b := c17Tokens[unit/len(c17Tokens)], c17Tokens[unit%len(c17Tokens)]
				if unit%len(c17Tokens) == 0 && !c17AcceptCase(w, []byte(a)) {
					return
				}
				if refLive([]byte(a)) {
					rec([]byte(a+b), 2)
				}
			},
		},
	}})
}

// refLive: some continuation makes the bytes a JSON text
func refLive(b []byte) bool {
	var buf [64]byte
	p := pda{stack: buf[:0]}
	for _, c := range b {
		if !p.step(c) {
			return false
		}
	}
	return true
}
