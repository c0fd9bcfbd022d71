package main

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/zerosnake0/jzon"
)

// C11: composite values.

// sameJSON: byte for byte, or equal up to the order of members
func sameJSON(a, b []byte) bool {
	if bytes.Equal(a, b) {
		return true
	}
	x, ok := jcanon(a)
	y, ok2 := jcanon(b)
	return ok && ok2 && x == y
}

// hasMap: the order of members is not determined
func bigMap(v reflect.Value, d int) bool {
	if d > 20 || !v.IsValid() {
		return false
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		return !v.IsNil() && bigMap(v.Elem(), d+1)
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if bigMap(v.Index(i), d+1) {
				return true
			}
		}
	case reflect.Map:
		if v.Len() > 1 {
			return true
		}
		for _, k := range v.MapKeys() {
			if bigMap(v.MapIndex(k), d+1) {
				return true
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if bigMap(v.Field(i), d+1) {
				return true
			}
		}
	}
	return false
}

// encodeAll encodes x through every entry point and position and compares with
// the standard encoder's text
func encodeAll(cfg *jzon.EncoderConfig, html bool, v reflect.Value) (err error) {
	defer catch(&err)
	x := v.Interface()
	want, werr := stdMarshal(x, html)
	loose := bigMap(v, 0)
	cmp := func(name string, got []byte, e error, pre, post string) error {
		if werr != nil {
			if e == nil {
				return fmt.Errorf("%s: %s, the standard encoder reports %v", name, got, werr)
			}
			if got != nil {
				return fmt.Errorf("%s: error %v with output %s", name, e, got)
			}
			return nil
		}
		exp := append(append([]byte(pre), want...), post...)
		if e != nil {
			return fmt.Errorf("%s: %v, want %s", name, e, exp)
		}
		if bytes.Equal(got, exp) || loose && sameJSON(got, exp) {
			return nil
		}
		return fmt.Errorf("%s: %s, want %s", name, got, exp)
	}
	b, e := cfg.Marshal(x)
	if err := cmp("Marshal", b, e, "", ""); err != nil {
		return err
	}
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	b, e = cfg.Marshal(p.Interface())
	if err := cmp("Marshal of the address", b, e, "", ""); err != nil {
		return err
	}
	b, e = cfg.Marshal([]interface{}{x, p.Interface()})
	if werr == nil {
		if err := cmp("Marshal in interfaces", b, e, "[", ","+string(want)+"]"); err != nil {
			return err
		}
	} else if err := cmp("Marshal in interfaces", b, e, "", ""); err != nil {
		return err
	}
	b, e = cfg.Marshal(map[string]interface{}{"m": x})
	if err := cmp("Marshal in a map", b, e, `{"m":`, "}"); err != nil {
		return err
	}
	b, e = cfg.Marshal(struct {
		A int
		B interface{}
		C int
	}{1, x, 2})
	if err := cmp("Marshal in a struct", b, e, `{"A":1,"B":`, `,"C":2}`); err != nil {
		return err
	}
	var bb bytes.Buffer
	enc := cfg.NewEncoder(&bb)
	e = enc.Encode(x)
	enc.Release()
	var out []byte
	if e == nil {
		out = bb.Bytes()
	} else if bb.Len() > 0 {
		return fmt.Errorf("Encoder: error %v after writing %q", e, bb.Bytes())
	}
	if err := cmp("Encoder", out, e, "", "\n"); err != nil {
		return err
	}
	s := cfg.NewStreamer()
	bb.Reset()
	s.Reset(&bb)
	s.ArrayStart().Int(1).Value(x).Value(p.Interface()).Int(2).ArrayEnd()
	e = s.Flush()
	s.Release()
	out = nil
	if e == nil {
		out = bb.Bytes()
	}
	if werr == nil {
		return cmp("Streamer", out, e, "[1,", ","+string(want)+",2]")
	}
	return cmp("Streamer", out, e, "", "")
}

func c11Case(w *W, cfg *jzon.EncoderConfig, html bool, v reflect.Value, name func() string) bool {
	if !w.Begin() {
		return !w.Stop()
	}
	desc := func() string { return fmt.Sprintf("%s: %s (html %v)", name(), showGo(v), html) }
	w.Announce(desc)
	w.Sample(desc)
	w.States++
	w.Transitions += 7
	w.Nontrivial++
	if err := encodeAll(cfg, html, v); err != nil {
		w.Fail(desc(), err)
		return false
	}
	return true
}

func showGo(v reflect.Value) string {
	return clip(fmt.Sprintf("%T %#v", v.Interface(), v.Interface()), 600)
}

// tag strings of the struct engine
var tagAlpha = []string{
	``, `json:"n"`, `json:"n,omitempty"`, `json:",omitempty"`, `json:",string"`, `json:"n,string,omitempty"`, `json:"-"`, `json:"-,"`,
	`json:"a b"`, `json:"<&>"`, `json:"é,omitempty"`, `json:"bad\"q"`, `json:""`, `xml:"x"`, `json:"n,omitempty,unknown"`, `json:"n,OmitEmpty"`, `json:"a.b-c_d/e:f;g"`, `json:"日本,string"`, `json:"n, omitempty"`,
}

// field types of the struct engine, with a zero and a non-zero value
var tagTypes = []reflect.Type{rt[int](), rt[string](), rt[float64](), rt[bool](), rt[*int](), rt[[]int](), rt[map[string]int](), rt[interface{}](), rt[struct{ X int }](), rt[uint8](), rt[json_Number](), rt[[1]int](), rt[*string](), rt[TextInt](), rt[RTStruct](), rt[RTMap](), rt[[]byte](), rt[float32](), rt[*bool](), rt[**int](), rt[StrJSON](), rt[JMIface]()}

type json_Number = jsonNumber

// embedded building blocks
type (
	E1 struct{ X, Y int }
	E2 struct {
		X int `json:"X"`
		Z int
	}
	E3 struct {
		Y string `json:"y"`
		W int    `json:"w,omitempty"`
	}
	E4 struct {
		E1
		X string
	}
	E5 struct {
		*E2
		V []int `json:"v"`
	}
	E6 struct {
		A int `json:"X"`
		B int `json:"Y"`
	}
	E7 struct{ y, z int }
	E8 struct {
		E1 `json:"named"`
		Q  int `json:",string"`
	}
)

var embTypes = []reflect.Type{rt[E1](), rt[E2](), rt[E3](), rt[E4](), rt[E5](), rt[E6](), rt[E7](), rt[E8](), rt[*E1](), rt[*E2](), rt[*E3](), rt[*E4](), rt[*E5](), rt[*E6]()}

func embName(t reflect.Type) string {
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return t.Name()
}

func embField(t reflect.Type, tag string) reflect.StructField {
	return reflect.StructField{Name: embName(t), Type: t, Anonymous: true, Tag: reflect.StructTag(tag)}
}

// fill gives struct values: all zero, all filled with distinct values, and
// each top level field filled alone
func fillVal(v reflect.Value, n *int, d int) {
	if d > 6 {
		return
	}
	*n++
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(*n % 100))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(uint64(*n % 100))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(*n%100) + 0.5)
	case reflect.Bool:
		v.SetBool(true)
	case reflect.String:
		if v.Type() == rt[jsonNumber]() {
			v.SetString(fmt.Sprint(*n))
			return
		}
		v.SetString(fmt.Sprintf("s%d", *n))
	case reflect.Ptr:
		p := reflect.New(v.Type().Elem())
		fillVal(p.Elem(), n, d+1)
		v.Set(p)
	case reflect.Slice:
		if v.Type() == rt[jsonRaw]() {
			v.SetBytes([]byte(fmt.Sprintf(`{"raw":%d}`, *n)))
			return
		}
		s := reflect.MakeSlice(v.Type(), 2, 2)
		fillVal(s.Index(0), n, d+1)
		fillVal(s.Index(1), n, d+1)
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fillVal(v.Index(i), n, d+1)
		}
	case reflect.Map:
		m := reflect.MakeMap(v.Type())
		k := reflect.New(v.Type().Key()).Elem()
		fillVal(k, n, d+1)
		e := reflect.New(v.Type().Elem()).Elem()
		fillVal(e, n, d+1)
		m.SetMapIndex(k, e)
		v.Set(m)
	case reflect.Interface:
		if v.NumMethod() == 0 {
			v.Set(reflect.ValueOf(fmt.Sprintf("i%d", *n)))
		} else if v.Type() == rt[JMIface]() {
			v.Set(reflect.ValueOf(JSONStruct{"ji"}))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				fillVal(v.Field(i), n, d+1)
			}
		}
	}
}

func structVals(t reflect.Type) []reflect.Value {
	out := []reflect.Value{reflect.New(t).Elem()}
	all := reflect.New(t).Elem()
	n := 0
	fillVal(all, &n, 0)
	out = append(out, all)
	for i := 0; i < t.NumField(); i++ {
		v := reflect.New(t).Elem()
		if v.Field(i).CanSet() {
			n = i
			fillVal(v.Field(i), &n, 0)
			out = append(out, v)
		}
	}
	return out
}

func init() {
	register(&Property{ID: "C11", Engines: []*Engine{
		{
			Name:   "universe",
			Rule:   "every type built from the leaf types with up to three constructors (pointer, slice, arrays, maps by string, int and text key, structs with and without options) x small-scope values x both escaping modes, through seven entry points and positions, against the standard encoder",
			Bounds: "33 leaf types, 12 constructors, depth 3, at most 4 (thorough 12) values per type",
			Units:  func(th bool) int { return 256 },
			Run: func(w *W, unit int) {
				d := 3
				cfgs := []*jzon.EncoderConfig{jzon.NewEncoderConfig(nil), jzon.NewEncoderConfig(&jzon.EncoderOption{})}
				for i, u := range universe(d) {
					if i%256 != unit {
						continue
					}
					max := 4
					if w.Thorough {
						max = 12
					}
					if i%4096 == unit {
						// the caches copy themselves for every new type
						cfgs = []*jzon.EncoderConfig{jzon.NewEncoderConfig(nil), jzon.NewEncoderConfig(&jzon.EncoderOption{})}
					}
					for vi, v := range valuesOf(u.t, max) {
						if !c11Case(w, cfgs[vi%2], vi%2 == 0, v, func() string { return "universe" }) {
							return
						}
						if vi < 2 && !c11Case(w, cfgs[1-vi%2], vi%2 == 1, v, func() string { return "universe" }) {
							return
						}
					}
				}
			},
		},
		{
			Name:   "tags",
			Rule:   "every struct type of one or two fields with every tag from the tag alphabet and every field type, zero, filled and partly filled",
			Bounds: "19 tags x 22 field types for one field; all tag pairs x 4 type pairs for two fields (thorough: x 22)",
			Units:  func(bool) int { return 19 },
			Run: func(w *W, unit int) {
				cfg := jzon.NewEncoderConfig(nil)
				run := func(fs ...reflect.StructField) bool {
					t := reflect.StructOf(fs)
					for _, v := range structVals(t) {
						if !c11Case(w, cfg, true, v, func() string { return "tags" }) {
							return false
						}
					}
					return true
				}
				for _, t := range tagTypes {
					if !run(sf("Fld", t, tagAlpha[unit])) {
						return
					}
					if !run(sf("Abc", tInt, `json:"abc"`), sf("Fld", t, tagAlpha[unit]), sf("Xyz", tStr, "")) {
						return
					}
				}
				for j, tag := range tagAlpha {
					for k, t := range tagTypes {
						if !w.Thorough && (k+j)%5 != 0 {
							continue
						}
						cfg = jzon.NewEncoderConfig(nil)
						if !run(sf("Fa", t, tagAlpha[unit]), sf("Fb", tagTypes[(k+j)%len(tagTypes)], tag)) {
							return
						}
					}
				}
			},
		},
		{
			Name:   "embedding",
			Rule:   "every struct embedding up to two (thorough three) of 14 building blocks (values and pointers, conflicting and shadowing names, tagged) with own fields before, between or after, with and without a tag on the embedding; zero, filled and partly filled",
			Bounds: "14^2 pairs x 6 own-field variants",
			Units:  func(bool) int { return len(embTypes) },
			Run: func(w *W, unit int) {
				cfg := jzon.NewEncoderConfig(nil)
				owns := [][]reflect.StructField{{}, {sf("X", tStr, "")}, {sf("Own", tInt, `json:"X"`)}, {sf("Y", tInt, `json:"-"`)}, {sf("P", tInt, `json:"y,omitempty"`)}, {sf("Z", rt[bool](), `json:"z"`)}}
				run := func(fs []reflect.StructField) bool {
					names := map[string]bool{}
					for _, f := range fs {
						if names[f.Name] {
							return true
						}
						names[f.Name] = true
					}
					t := reflect.StructOf(fs)
					for _, v := range structVals(t) {
						if !c11Case(w, cfg, true, v, func() string { return "embedding" }) {
							return false
						}
					}
					return true
				}
				a := embTypes[unit]
				for _, tagA := range []string{"", `json:"named"`, `json:"named,omitempty"`, `json:"-"`} {
					for _, own := range owns {
						if !run(append([]reflect.StructField{embField(a, tagA)}, own...)) || !run(append(append([]reflect.StructField{}, own...), embField(a, tagA))) {
							return
						}
						for _, b := range embTypes {
							if embName(a) == embName(b) {
								continue
							}
							cfg = jzon.NewEncoderConfig(nil)
							fs := []reflect.StructField{embField(a, tagA), embField(b, "")}
							if !run(append(fs, own...)) {
								return
							}
							if !w.Thorough {
								continue
							}
							for _, c := range embTypes {
								fs := []reflect.StructField{embField(a, tagA), embField(b, ""), embField(c, "")}
								if !run(append(fs, own...)) {
									return
								}
							}
						}
					}
				}
			},
		},
		{
			Name:   "unsupported",
			Rule:   "unsupported types (channels, functions, complex numbers, maps with unsupported keys) under every pair of constructors, zero and populated: an error when the standard encoder reports one; where it does not (the unsupported part is not reached), an error or its output",
			Bounds: "8 types, depth 2",
			Units:  func(bool) int { return len(unsupLeaves) },
			Run: func(w *W, unit int) {
				l := unsupLeaves[unit]
				cfg := jzon.NewEncoderConfig(nil)
				var vals func(t reflect.Type) []reflect.Value
				vals = func(t reflect.Type) []reflect.Value {
					if t == l.t {
						out := []reflect.Value{reflect.Zero(t)}
						for _, x := range l.vals {
							out = append(out, reflect.ValueOf(x))
						}
						return out
					}
					return valuesWith(t, vals)
				}
				ts := []reflect.Type{l.t}
				for d := 0; d < 2; d++ {
					for _, t := range append([]reflect.Type{}, ts...) {
						for _, c := range ctors {
							ts = append(ts, c.f(t))
						}
					}
				}
				for _, t := range ts {
					for _, v := range vals(t) {
						// a value which does not reach the unsupported part may
						// be encoded or refused
						if _, e := stdMarshal(v.Interface(), true); e == nil {
							if _, e := cfg.Marshal(v.Interface()); e != nil {
								w.Outcome("refused where the standard encoder writes")
								continue
							}
						}
						if !c11Case(w, cfg, true, v, func() string { return "unsupported" }) {
							return
						}
					}
				}
			},
		},
		{
			Name:   "options",
			Rule:   "struct types with tags under two keys, encoded under every tag key and tagged-only option, against the standard encoder on the type with the tags translated (chosen key renamed to json, untagged fields hidden)",
			Bounds: "all pairs of 8 tags on two plain fields, three embedding variants, 2 keys x tagged-only",
			Units:  func(bool) int { return len(optTags) },
			Run: func(w *W, unit int) {
				for _, k := range []struct {
					key  string
					only bool
				}{{"", false}, {"", true}, {"jz", false}, {"jz", true}, {"none", true}, {"none", false}} {
					cfg := jzon.NewEncoderConfig(&jzon.EncoderOption{EscapeHTML: true, Tag: k.key, OnlyTaggedField: k.only})
					for _, tb := range optTags {
						for emb := 0; emb < 4; emb++ {
							src, ref := optStruct(optTags[unit], tb, emb, k.key, k.only)
							for _, v := range structVals(src) {
								if !w.Begin() {
									if w.Stop() {
										return
									}
									continue
								}
								desc := func() string { return fmt.Sprintf("tag key %q, only tagged %v: %s", k.key, k.only, showGo(v)) }
								w.Announce(desc)
								w.Sample(desc)
								w.States++
								w.Transitions++
								w.Nontrivial++
								want, e1 := stdMarshal(v.Convert(ref).Interface(), true)
								got, e2 := cfg.Marshal(v.Interface())
								if e1 != nil || e2 != nil || !bytes.Equal(got, want) {
									w.Fail(desc(), fmt.Errorf("%s (%v), want %s (%v)", got, e2, want, e1))
									return
								}
							}
						}
					}
				}
			},
		},
		{
			Name:   "named structs",
			Rule:   "the struct universe of hand-written types (unexported fields and embeddings, recursive types, quoted and omitted fields, guards), zero, filled and partly filled",
			Bounds: "all destination types of the universe",
			Units:  func(bool) int { return len(decodeTypes()) },
			Run: func(w *W, unit int) {
				cfg := jzon.NewEncoderConfig(nil)
				t := decodeTypes()[unit].T
				switch t {
				case rt[PtrJSON](), rt[PtrText]():
					return // pointer receivers are called on any value (README), see C20
				}
				var vals []reflect.Value
				if t.Kind() == reflect.Struct {
					vals = structVals(t)
				} else {
					v := reflect.New(t).Elem()
					n := 0
					fillVal(v, &n, 0)
					vals = []reflect.Value{reflect.New(t).Elem(), v}
				}
				for _, v := range vals {
					if !c11Case(w, cfg, true, v, func() string { return "named" }) {
						return
					}
				}
			},
		},
	}})
}

var optTags = []string{``, `json:"a"`, `jz:"b"`, `json:"a" jz:"b,omitempty"`, `json:"-" jz:"c"`, `json:"a,omitempty" jz:"-"`, `jz:",omitempty"`, `json:",string"`}

// optStruct builds a struct type and the type the standard library must see
// for the given tag key and tagged-only option
func optStruct(ta, tb string, emb int, key string, only bool) (src, ref reflect.Type) {
	if key == "" {
		key = "json"
	}
	tr := func(f reflect.StructField) reflect.StructField {
		tag, ok := f.Tag.Lookup(key)
		switch {
		case ok:
			f.Tag = reflect.StructTag(fmt.Sprintf("json:%q", tag))
		case only && !f.Anonymous:
			f.Tag = `json:"-"`
		default:
			f.Tag = ""
		}
		return f
	}
	fs := []reflect.StructField{sf("Aa", tInt, ta), sf("Bb", tStr, tb)}
	inner := []reflect.StructField{sf("In", tInt, ta), sf("Jn", rt[*int](), "")}
	rs := []reflect.StructField{tr(fs[0]), tr(fs[1])}
	ri := []reflect.StructField{tr(inner[0]), tr(inner[1])}
	switch emb {
	case 1:
		f := sf("Sub", reflect.StructOf(inner), tb)
		g := tr(f)
		g.Type = reflect.StructOf(ri)
		fs, rs = append(fs, f), append(rs, g)
	case 2:
		f := reflect.StructField{Name: "Sub", Type: reflect.StructOf(inner), Anonymous: true}
		g := tr(f)
		g.Type = reflect.StructOf(ri)
		fs, rs = append(fs, f), append(rs, g)
	case 3:
		f := sf("Sub", reflect.SliceOf(reflect.StructOf(inner)), `json:"sub" jz:"sub" none:"sub"`)
		g := tr(f)
		g.Type = reflect.SliceOf(reflect.StructOf(ri))
		fs, rs = append(fs, f), append(rs, g)
	}
	return reflect.StructOf(fs), reflect.StructOf(rs)
}

var unsupLeaves = []leaf{
	lf[chan int](false, make(chan int)), lf[func()](false, func() {}), lf[complex64](false, 1), lf[complex128](false, 2i),
	lf[map[bool]int](false, map[bool]int{}, map[bool]int{true: 1}), lf[map[float64]string](false, map[float64]string{1: "x"}),
	lf[map[[1]int]int](false, map[[1]int]int{{1}: 1}), lf[map[struct{ A int }]int](false, map[struct{ A int }]int{{1}: 1}),
}

// valuesWith: composite values with the element values of f
func valuesWith(t reflect.Type, f func(t reflect.Type) []reflect.Value) []reflect.Value {
	out := []reflect.Value{reflect.New(t).Elem()}
	switch t.Kind() {
	case reflect.Ptr:
		for _, e := range f(t.Elem()) {
			p := reflect.New(t.Elem())
			p.Elem().Set(e)
			out = append(out, p)
		}
	case reflect.Slice:
		out = append(out, reflect.MakeSlice(t, 0, 0))
		for _, e := range f(t.Elem()) {
			out = append(out, reflect.Append(reflect.MakeSlice(t, 0, 0), e))
		}
	case reflect.Array:
		for _, e := range f(t.Elem()) {
			a := reflect.New(t).Elem()
			for i := 0; i < t.Len(); i++ {
				a.Index(i).Set(e)
			}
			out = append(out, a)
		}
	case reflect.Map:
		out = append(out, reflect.MakeMap(t))
		for _, e := range f(t.Elem()) {
			m := reflect.MakeMap(t)
			m.SetMapIndex(reflect.New(t.Key()).Elem(), e)
			out = append(out, m)
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).Type == tInt || t.Field(i).Type == tStr {
				continue
			}
			for _, e := range f(t.Field(i).Type) {
				s := reflect.New(t).Elem()
				s.Field(i).Set(e)
				out = append(out, s)
			}
		}
	}
	return out
}
