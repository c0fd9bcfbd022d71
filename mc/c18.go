package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/zerosnake0/jzon"
)

// C18: decoding into prepared destinations, against an explicit model of the
// destination semantics.  The model is itself compared with encoding/json on
// every case whose destination holds no slice (the one place where the
// libraries differ: this one always allocates, the other reuses the elements).

type Emb18 struct {
	X interface{}
	Y *int
}
type emb18P struct {
	*Emb18
	Z int8
}
type emb18V struct {
	Emb18
	Z int8
}
type one18 struct{ X map[string]interface{} }
type big18 struct {
	X                            *Emb18
	A, B, C, D, E, F, G, H, I, J int8
	Y                            interface{}
}

var leafHook = []reflect.Type{rt[json.RawMessage](), rt[json.Number](), rt[[]byte](), rt[JSONStruct](), rt[TextStr]()}

func isLeaf18(t reflect.Type) bool {
	for _, l := range leafHook {
		if t == l {
			return true
		}
	}
	return false
}

var stringType18 = rt[string]()
var intType18 = rt[int]()

func textOf18(s *c17Shape, keys []string) string {
	var sb strings.Builder
	write18(s, keys, &sb)
	return sb.String()
}

func write18(s *c17Shape, keys []string, sb *strings.Builder) {
	if s.leaf != "" {
		sb.WriteString(s.leaf)
		return
	}
	o, c := byte('['), byte(']')
	if s.obj {
		o, c = '{', '}'
	}
	sb.WriteByte(o)
	for i, k := range s.kids {
		if i > 0 {
			sb.WriteByte(',')
		}
		if s.obj {
			sb.WriteString(`"` + keys[i%len(keys)] + `":`)
		}
		write18(k, keys, sb)
	}
	sb.WriteByte(c)
}

var errModel = fmt.Errorf("the model rejects")

// refDec is the model
func refDec(v reflect.Value, s *c17Shape, keys []string) error {
	t := v.Type()
	if t == rt[[]byte]() && s.leaf == "" {
		// the elements one by one, like any slice
	} else if isLeaf18(t) {
		return json.Unmarshal([]byte(textOf18(s, keys)), v.Addr().Interface())
	}
	if s.leaf == "null" {
		if e := v; t.Kind() == reflect.Interface && !v.IsNil() {
			// an interface that holds a pointer to a pointer: the latter is cleared
			if e = v.Elem(); e.Kind() == reflect.Ptr && !e.IsNil() && e.Elem().Kind() == reflect.Ptr {
				e.Elem().Set(reflect.Zero(e.Elem().Type()))
				return nil
			}
		}
		switch t.Kind() {
		case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Interface:
			v.Set(reflect.Zero(t))
		}
		return nil
	}
	switch t.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			return refDec(v.Elem(), s, keys)
		}
		p := reflect.New(t.Elem())
		if err := refDec(p.Elem(), s, keys); err != nil {
			return err
		}
		v.Set(p)
		return nil
	case reflect.Interface:
		if !v.IsNil() && v.Elem().Kind() == reflect.Ptr && !v.Elem().IsNil() {
			return refDec(v.Elem().Elem(), s, keys)
		}
		if t.NumMethod() > 0 {
			return errModel
		}
		var x interface{}
		if err := json.Unmarshal([]byte(textOf18(s, keys)), &x); err != nil {
			return err
		}
		v.Set(reflect.ValueOf(x))
		return nil
	case reflect.Struct:
		if s.leaf != "" || !s.obj {
			return errModel
		}
		for i, k := range s.kids {
			f := v
			switch key := keys[i%len(keys)]; key {
			case "X", "Y":
				if sfd, ok := t.FieldByName(key); ok {
					for n, ix := range sfd.Index {
						if n > 0 && f.Kind() == reflect.Ptr {
							if f.IsNil() {
								f.Set(reflect.New(f.Type().Elem()))
							}
							f = f.Elem()
						}
						f = f.Field(ix)
					}
					if err := refDec(f, k, keys); err != nil {
						return err
					}
				}
			}
		}
		return nil
	case reflect.Map:
		if s.leaf != "" || !s.obj {
			return errModel
		}
		if v.IsNil() {
			v.Set(reflect.MakeMap(t))
		}
		for i, k := range s.kids {
			e := reflect.New(t.Elem()).Elem()
			if err := refDec(e, k, keys); err != nil {
				return err
			}
			v.SetMapIndex(reflect.ValueOf(keys[i%len(keys)]).Convert(t.Key()), e)
		}
		return nil
	case reflect.Slice:
		if s.leaf != "" || s.obj {
			return errModel
		}
		out := reflect.MakeSlice(t, len(s.kids), len(s.kids))
		for i, k := range s.kids {
			if err := refDec(out.Index(i), k, keys); err != nil {
				return err
			}
		}
		v.Set(out)
		return nil
	case reflect.Array:
		if s.leaf != "" || s.obj {
			return errModel
		}
		for i := 0; i < v.Len(); i++ {
			if i < len(s.kids) {
				if err := refDec(v.Index(i), s.kids[i], keys); err != nil {
					return err
				}
			} else {
				v.Index(i).Set(reflect.Zero(t.Elem()))
			}
		}
		return nil
	default:
		if s.leaf == "" {
			return errModel
		}
		return json.Unmarshal([]byte(s.leaf), v.Addr().Interface())
	}
}

// extra18: what only an interface at the top holds
var extra18 = map[reflect.Type]bool{rt[*Emb18](): true, rt[*interface{}](): true, rt[[]int8](): true, rt[JSONStruct](): true, rt[TextStr](): true, rt[json.RawMessage](): true, rt[json.Number](): true, rt[one18](): true, rt[map[string]*int](): true, rt[**string](): true}

// priors lists the makers of prior contents of a type.  A maker records every
// pointer and map it creates: their contents afterwards are compared too.
type maker18 func(v reflect.Value, rec *[]reflect.Value)

func priors(t reflect.Type, depth int) []maker18 {
	out := []maker18{func(reflect.Value, *[]reflect.Value) {}}
	fillN := func(n int) maker18 {
		return func(v reflect.Value, rec *[]reflect.Value) {
			k := n
			fillVal(v, &k, 0)
		}
	}
	if isLeaf18(t) {
		return append(out, fillN(3))
	}
	few := func(l []maker18) []maker18 {
		if len(l) > 3 {
			l = l[:3]
		}
		return l
	}
	switch t.Kind() {
	case reflect.Ptr:
		for _, m := range priors(t.Elem(), depth+1) {
			m := m
			out = append(out, func(v reflect.Value, rec *[]reflect.Value) {
				p := reflect.New(t.Elem())
				m(p.Elem(), rec)
				v.Set(p)
				*rec = append(*rec, p.Elem())
			})
		}
	case reflect.Interface:
		if t.NumMethod() > 0 {
			out = append(out, func(v reflect.Value, rec *[]reflect.Value) {
				p := &Sq{3}
				v.Set(reflect.ValueOf(p))
				*rec = append(*rec, reflect.ValueOf(p).Elem())
			})
			break
		}
		for _, x := range []interface{}{5, "prior", map[string]interface{}{"X": 1.0}, []interface{}{1.0, 2.0}, Sq{2}, (*int)(nil), true} {
			x := x
			out = append(out, func(v reflect.Value, rec *[]reflect.Value) { v.Set(reflect.ValueOf(x)) })
		}
		for _, e := range []reflect.Type{rt[int](), rt[string](), rt[map[string]interface{}](), rt[[2]int8](), rt[Emb18](), rt[interface{}](), rt[*int](), rt[**string](), rt[*Emb18](), rt[*interface{}](), rt[[]int8](), rt[JSONStruct](), rt[TextStr](), rt[json.RawMessage](), rt[json.Number](), rt[one18](), rt[map[string]*int]()} {
			e := e
			if depth > 0 && extra18[e] || depth > 2 && (e.Kind() == reflect.Interface || e.Kind() == reflect.Map || e.Kind() == reflect.Struct) {
				continue
			}
			lim := 2
			if e.Kind() == reflect.Ptr {
				lim = 3
			}
			for n, m := range priors(e, depth+2) {
				m := m
				if n >= lim {
					break
				}
				out = append(out, func(v reflect.Value, rec *[]reflect.Value) {
					p := reflect.New(e)
					m(p.Elem(), rec)
					v.Set(p)
					*rec = append(*rec, p.Elem())
				})
			}
		}
		if depth > 0 && len(out) > 8 {
			out = append(out[:3:3], out[8:]...)
		}
	case reflect.Struct:
		// every field with its second prior; every field with its last prior
		for _, last := range []int{1, 2, -1} {
			last := last
			out = append(out, func(v reflect.Value, rec *[]reflect.Value) {
				for i := 0; i < t.NumField(); i++ {
					m := priors(t.Field(i).Type, depth+1)
					k := last
					if k < 0 || k >= len(m) {
						k = len(m) - 1
					}
					m[k](v.Field(i), rec)
				}
			})
		}
	case reflect.Map:
		out = append(out, func(v reflect.Value, rec *[]reflect.Value) {
			v.Set(reflect.MakeMap(t))
			*rec = append(*rec, reflect.ValueOf(v.Interface()))
		})
		for _, m := range few(priors(t.Elem(), depth+1)) {
			m := m
			out = append(out, func(v reflect.Value, rec *[]reflect.Value) {
				v.Set(reflect.MakeMap(t))
				for _, k := range []string{"X", "other"} {
					e := reflect.New(t.Elem()).Elem()
					m(e, rec)
					v.SetMapIndex(reflect.ValueOf(k).Convert(t.Key()), e)
				}
				*rec = append(*rec, reflect.ValueOf(v.Interface()))
			})
		}
	case reflect.Slice:
		for _, ln := range []int{0, 1, 3} {
			for i, m := range few(priors(t.Elem(), depth+1)) {
				m, ln := m, ln
				if ln == 0 && i > 0 {
					continue
				}
				out = append(out, func(v reflect.Value, rec *[]reflect.Value) {
					s := reflect.MakeSlice(t, ln, ln+2)
					for i := 0; i < ln; i++ {
						m(s.Index(i), rec)
					}
					v.Set(s)
				})
			}
		}
	case reflect.Array:
		l := priors(t.Elem(), depth+1)
		if depth > 0 {
			l = few(l)
		}
		for _, m := range l[1:] {
			m := m
			out = append(out, func(v reflect.Value, rec *[]reflect.Value) {
				for i := 0; i < t.Len(); i++ {
					m(v.Index(i), rec)
				}
			})
		}
	default:
		out = append(out, fillN(7))
	}
	if depth > 0 && len(out) > 5 && t.Kind() != reflect.Interface {
		out = append(out[:4:4], out[len(out)-1])
	}
	if depth > 1 && len(out) > 4 {
		out = append(out[:2:2], out[len(out)-2:]...)
	}
	return out
}

func holdsSlice(t reflect.Type) bool {
	if isLeaf18(t) && t != rt[[]byte]() {
		return false
	}
	switch t.Kind() {
	case reflect.Slice:
		return true
	case reflect.Ptr, reflect.Array, reflect.Map:
		return holdsSlice(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if holdsSlice(t.Field(i).Type) {
				return true
			}
		}
	}
	return false
}

func types18(depth int) []reflect.Type {
	base := []reflect.Type{rt[int8](), rt[string](), rt[interface{}](), rt[bool](), rt[float32](), rt[json.RawMessage](), rt[[]byte](), rt[JSONStruct](), rt[TextStr](), rt[json.Number](), rt[Shaper](), rt[uint16](), rt[emb18P](), rt[emb18V](), rt[one18](), rt[big18](), rt[Emb18](), rt[struct{}]()}
	small := []reflect.Type{rt[int8](), rt[string](), rt[interface{}](), rt[JSONStruct](), rt[Emb18](), rt[emb18P](), rt[json.RawMessage](), rt[[]byte]()}
	out := append([]reflect.Type{}, base...)
	cur := small
	for d := 0; d < depth; d++ {
		var next []reflect.Type
		for _, t := range cur {
			next = append(next, reflect.PtrTo(t), reflect.ArrayOf(2, t), reflect.MapOf(stringType18, t), reflect.SliceOf(t),
				reflect.StructOf([]reflect.StructField{{Name: "X", Type: t}, {Name: "G", Type: rt[int8]()}, {Name: "Y", Type: rt[interface{}]()}}))
		}
		out = append(out, next...)
		cur = next
	}
	return append(out, reflect.MapOf(rt[NString](), rt[*int8]()), reflect.ArrayOf(0, intType18), reflect.ArrayOf(1, rt[interface{}]()), reflect.ArrayOf(3, rt[*int]()))
}

// a destination between guards
type dest18 struct {
	whole reflect.Value
	v     reflect.Value
	rec   []reflect.Value
}

func newDest(t reflect.Type, m maker18) *dest18 {
	gt := reflect.StructOf([]reflect.StructField{{Name: "G1", Type: rt[[16]byte]()}, {Name: "V", Type: t}, {Name: "G2", Type: rt[[16]byte]()}})
	d := &dest18{whole: reflect.New(gt).Elem()}
	for _, g := range []int{0, 2} {
		for i := 0; i < 16; i++ {
			d.whole.Field(g).Index(i).SetUint(0xA5)
		}
	}
	d.v = d.whole.Field(1)
	m(d.v, &d.rec)
	return d
}

func (d *dest18) guards() bool {
	for _, g := range []int{0, 2} {
		for i := 0; i < 16; i++ {
			if d.whole.Field(g).Index(i).Uint() != 0xA5 {
				return false
			}
		}
	}
	return true
}

func sameDest(a, b *dest18) error {
	if !eqv(a.v, b.v, 0) {
		return fmt.Errorf("got %s, want %s", deepv(a.v, 0), deepv(b.v, 0))
	}
	if err := sane(a.v, 0); err != nil {
		return err
	}
	if len(a.rec) != len(b.rec) {
		return fmt.Errorf("harness: %d recorded objects, want %d", len(a.rec), len(b.rec))
	}
	for i := range a.rec {
		if !eqv(a.rec[i], b.rec[i], 0) {
			return fmt.Errorf("object %d (%s) that the destination referred to is now %s, want %s", i, a.rec[i].Type(), deepv(a.rec[i], 0), deepv(b.rec[i], 0))
		}
	}
	return nil
}

var keys18 = [][]string{{"X", "Y", "X"}, {"q", "X", "other"}}

func case18(w *W, t reflect.Type, pi int, m maker18, steps []*c17Shape, keys []string, std bool) bool {
	if !w.Begin() {
		return !w.Stop()
	}
	desc := func() string {
		var x []string
		for _, s := range steps {
			x = append(x, textOf18(s, keys))
		}
		d := newDest(t, m)
		return fmt.Sprintf("%s holding %s (prior %d) <- %s", t, clip(deepv(d.v, 0), 300), pi, strings.Join(x, ", then "))
	}
	w.Announce(desc)
	w.Sample(desc)
	w.States++
	w.Transitions += int64(len(steps))
	a, b := newDest(t, m), newDest(t, m)
	var c *dest18
	if std {
		c = newDest(t, m)
		for _, r := range c.rec {
			if holdsSlice(r.Type()) {
				c = nil
				break
			}
		}
	}
	for _, s := range steps {
		text := []byte(textOf18(s, keys))
		var e1, e2 error
		func() {
			defer catch(&e1)
			e1 = jzon.Unmarshal(text, a.v.Addr().Interface())
		}()
		e2 = refDec(b.v, s, keys)
		if c != nil {
			e3 := json.Unmarshal(text, c.v.Addr().Interface())
			if (e2 == nil) != (e3 == nil) {
				w.Fail(desc(), fmt.Errorf("harness: the model says %v, encoding/json %v", e2, e3))
				return false
			}
			if e2 == nil {
				if err := sameDest(b, c); err != nil {
					w.Fail(desc(), fmt.Errorf("harness: model and encoding/json differ: %v", err))
					return false
				}
			}
		}
		if e1 != nil && strings.HasPrefix(e1.Error(), "panic:") {
			w.Fail(desc(), e1)
			return false
		}
		if !a.guards() {
			w.Fail(desc(), fmt.Errorf("memory next to the destination was changed"))
			return false
		}
		if (e1 == nil) != (e2 == nil) {
			w.Fail(desc(), fmt.Errorf("error %v; the model: %v", e1, e2))
			return false
		}
		if e1 != nil {
			w.Outcome("rejected by both")
			return true
		}
		w.Nontrivial++
		if err := sameDest(a, b); err != nil {
			w.Fail(desc(), err)
			return false
		}
	}
	w.Outcome("decoded")
	return true
}

func shapes18(n int, leaves []string) []*c17Shape {
	memo := map[int][]*c17Shape{}
	var out []*c17Shape
	for i := 1; i <= n; i++ {
		out = append(out, c17Shapes(i, leaves, memo)...)
	}
	return out
}

var leaves18 = []string{"null", "4", `"s"`, "true"}

// ---- bad destinations ----------------------------------------------------------

type PtrLoop *PtrLoop

func badDests() []struct {
	name string
	v    func() interface{}
} {
	type bd = struct {
		name string
		v    func() interface{}
	}
	loop := func(n, tail int) func() interface{} {
		// tail interfaces leading into a loop of n
		return func() interface{} {
			xs := make([]interface{}, n+tail)
			for i := range xs {
				j := i + 1
				if j == len(xs) {
					j = tail
				}
				xs[i] = &xs[j]
			}
			return &xs[0]
		}
	}
	var out []bd
	for _, x := range []bd{
		{"nil", func() interface{} { return nil }},
		{"int", func() interface{} { return 1 }},
		{"string", func() interface{} { return "x" }},
		{"struct", func() interface{} { return S2{} }},
		{"map", func() interface{} { return map[string]int{} }},
		{"nil map", func() interface{} { return map[string]int(nil) }},
		{"slice", func() interface{} { return []int{1} }},
		{"array", func() interface{} { return [1]int{} }},
		{"func", func() interface{} { return func() {} }},
		{"chan", func() interface{} { return make(chan int) }},
		{"pointer-shaped struct", func() interface{} { return S0p{new(int)} }},
		{"pointer array", func() interface{} { return [1]*int{new(int)} }},
		{"nil *int", func() interface{} { return (*int)(nil) }},
		{"nil *struct", func() interface{} { return (*S2)(nil) }},
		{"nil *interface", func() interface{} { return (*interface{})(nil) }},
		{"nil **int", func() interface{} { return (**int)(nil) }},
		{"nil hook pointer", func() interface{} { return (*JSONStruct)(nil) }},
		{"nil text pointer", func() interface{} { return (*TextInt)(nil) }},
		{"hook value", func() interface{} { return JSONStruct{} }},
	} {
		out = append(out, x)
	}
	for n := 1; n <= 5; n++ {
		for tail := 0; tail <= 4; tail++ {
			out = append(out, bd{fmt.Sprintf("interface loop %d+%d", tail, n), loop(n, tail)})
		}
	}
	out = append(out,
		bd{"loop through a pointer", func() interface{} {
			var x interface{}
			p := &x
			x = &p
			return &x
		}},
		bd{"loop through two pointers", func() interface{} {
			var x interface{}
			p := &x
			q := &p
			x = &q
			return &x
		}},
		bd{"loop in a struct field", func() interface{} {
			s := &struct{ X interface{} }{}
			s.X = &s.X
			return s
		}},
		bd{"loop in an array", func() interface{} {
			a := &[2]interface{}{}
			a[0] = &a[1]
			a[1] = &a[0]
			return a
		}},
	)
	return out
}

func init() {
	mk := func(name, bounds string, depth, tdepth int, nodes, tnodes int, leaves []string, hist bool) *Engine {
		return &Engine{
			Name:   name,
			Rule:   "every destination type x every prior content x every small document (key sets hitting fields, map members and nothing, duplicates included): outcome, destination, every object the prior content referred to, and guard bytes around the destination as the model says; the model is checked against encoding/json on every case without slices; non-trivial: decoded by both",
			Bounds: bounds,
			Units: func(th bool) int {
				if th {
					return len(types18(tdepth))
				}
				return len(types18(depth))
			},
			Run: func(w *W, unit int) {
				d, n := depth, nodes
				if w.Thorough {
					d, n = tdepth, tnodes
				}
				t := types18(d)[unit]
				sh := shapes18(n, leaves)
				std := !holdsSlice(t)
				for pi, m := range priors(t, 0) {
					for _, keys := range keys18 {
						for _, s := range sh {
							if !hist {
								if !case18(w, t, pi, m, []*c17Shape{s}, keys, std) {
									return
								}
								continue
							}
							for _, s2 := range sh {
								if !case18(w, t, pi, m, []*c17Shape{s, s2}, keys, std) {
									return
								}
							}
						}
					}
				}
			},
		}
	}
	register(&Property{ID: "C18", Engines: []*Engine{
		mk("prior contents", "types to depth 2 (thorough 3), documents of up to 3 values (thorough 4)", 2, 3, 3, 4, leaves18, false),
		mk("larger documents", "types to depth 1 (thorough 2), documents of up to 4 values (thorough 5) over two scalars", 1, 2, 4, 5, []string{"null", "4"}, false),
		mk("two decodes", "types to depth 1 (thorough 2), two documents of up to 3 values each", 1, 2, 3, 3, []string{"null", "4"}, true),
		{
			Name:   "bad destinations",
			Rule:   "every destination that cannot be decoded into (not a pointer, nil pointers, interface loops of every length and lead-in) x texts x entry points: an error, no panic, no endless recursion",
			Bounds: "48 destinations, 12 texts, 3 entry points",
			Units:  func(bool) int { return len(badDests()) },
			Run: func(w *W, unit int) {
				b := badDests()[unit]
				for _, text := range []string{"1", `"s"`, "true", "[1]", `{"a":1}`, "[]", "{}", " 1 ", `{"X":1}`, `[[1],[2]]`, "  [4]", "-1.5"} {
					if strings.HasPrefix(b.name, "loop in a struct") && text != `{"X":1}` || strings.HasPrefix(b.name, "loop in an array") && text != "[1]" {
						continue
					}
					for ep := 0; ep < 3; ep++ {
						if !w.Begin() {
							if w.Stop() {
								return
							}
							continue
						}
						desc := func() string { return fmt.Sprintf("%s <- %q entry point %d", b.name, text, ep) }
						w.Announce(desc)
						w.States++
						w.Transitions++
						w.Nontrivial++
						var err, pe error
						func() {
							defer catch(&pe)
							v := b.v()
							switch ep {
							case 0:
								err = jzon.Unmarshal([]byte(text), v)
							case 1:
								err = jzon.UnmarshalFromReader(newChunk([]byte(text), 1), v)
							case 2:
								d := jzon.NewDecoder(bytes.NewReader([]byte(text)))
								err = d.Decode(v)
								d.Release()
							}
						}()
						if pe != nil {
							w.Fail(desc(), pe)
							return
						}
						if err == nil {
							w.Fail(desc(), fmt.Errorf("no error"))
							return
						}
					}
				}
			},
		},
	}})
}
