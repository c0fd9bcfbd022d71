package main

import (
	"encoding"
	"encoding/json"
	"fmt"
	"reflect"
	"sync"
)

// The small-scope universe of types and values: leaf types with explicit
// values, closed under the type constructors to a depth.

type leaf struct {
	t    reflect.Type
	vals []interface{}
	// dec: can be decoded from what it encodes to, giving the same value
	dec bool
	// enc: takes part in the encoder universe
	enc bool
}

func rt[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

func lf[T any](dec bool, vals ...T) leaf {
	l := leaf{t: rt[T](), dec: dec, enc: true}
	for i := range vals {
		l.vals = append(l.vals, vals[i])
	}
	return l
}

type RTStruct struct{ Raw string } // JSON hooks that are inverse to each other

func (t RTStruct) MarshalJSON() ([]byte, error) {
	point()
	b, err := json.Marshal("R" + t.Raw)
	return b, err
}
func (t *RTStruct) UnmarshalJSON(b []byte) error {
	point()
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	if len(s) == 0 || s[0] != 'R' {
		return fmt.Errorf("RTStruct: %q", s)
	}
	t.Raw = s[1:]
	return nil
}

type RTMap map[string]int

func (t RTMap) MarshalText() ([]byte, error) {
	point()
	if t == nil {
		return []byte("nil"), nil
	}
	return []byte(fmt.Sprint(len(t), t["k"])), nil
}
func (t *RTMap) UnmarshalText(b []byte) error {
	point()
	if string(b) == "nil" {
		*t = nil
		return nil
	}
	var n, k int
	if _, err := fmt.Sscan(string(b), &n, &k); err != nil {
		return err
	}
	*t = RTMap{}
	if n > 0 {
		(*t)["k"] = k
	}
	return nil
}

type recNode struct {
	V    int                 `json:"v"`
	Next *recNode            `json:"next,omitempty"`
	Kids []recNode           `json:"kids"`
	M    map[string]*recNode `json:"m,omitempty"`
}

var leafTable = []leaf{
	lf[bool](true, false, true),
	lf[int](true, 0, -7),
	lf[uint8](true, 0, 200),
	lf[int64](true, 0, -9007199254740993),
	lf[float64](true, 0, 2.5),
	lf[float32](true, 0, -1e30),
	lf[string](true, "", "a<\"é\n"),
	lf[interface{}](true, nil, "s", 2.5, []interface{}{true, nil}, map[string]interface{}{"k": "v"}),
	lf[json.Number](true, "0", "12.5"),
	lf[json.RawMessage](true, json.RawMessage(`{"r":[1]}`), json.RawMessage("5")),
	lf[[]byte](true, nil, []byte{}, []byte("bytes!")),
	lf[NInt](true, 0, 5),
	lf[NString](true, "", "n"),
	lf[TextInt](true, 0, 3),
	lf[RTStruct](true, RTStruct{}, RTStruct{"x<"}),
	lf[RTMap](true, nil, RTMap{}, RTMap{"k": 4}),
	lf[S0](true, S0{}),
	lf[S2](true, S2{}, S2{3, "b"}),
	lf[recNode](true, recNode{}, recNode{V: 1, Next: &recNode{V: 2}, Kids: []recNode{{V: 3, Kids: []recNode{}}}, M: map[string]*recNode{"a": {V: 4}}}),
	// encoding only
	lf[JSONStruct](false, JSONStruct{}, JSONStruct{"q"}),
	lf[MapJSON](false, nil, MapJSON{}, MapJSON{"a": 1}),
	lf[MapText](false, nil, MapText{"a": 1}),
	lf[DirectStructJSON](false, DirectStructJSON{}, DirectStructJSON{ip(5)}),
	lf[StrJSON](false, "", "s"),
	lf[JMIface](false, nil, JSONStruct{"i"}, &JSONStruct{"pi"}, MapJSON{}),
	lf[TMIface](false, nil, StrTM("t")),
	lf[json.Marshaler](false, nil, StrJSON("z"), DirectStructJSON{ip(1)}),
	lf[encoding.TextMarshaler](false, nil, TextInt(1), MapText(nil)),
	lf[S0p](false, S0p{}, S0p{ip(1)}),
	lf[[2]uint8](true, [2]uint8{}, [2]uint8{1, 255}),
	lf[uintptr](true, 0, 77),
	lf[NBytes](true, nil, NBytes("nb")),
	lf[interface{ Shape() string }](false, nil, &Sq{2}, (*Sq)(nil)),
}

var leafByType = func() map[reflect.Type]*leaf {
	m := map[reflect.Type]*leaf{}
	for i := range leafTable {
		m[leafTable[i].t] = &leafTable[i]
	}
	return m
}()

// type constructors
type ctor struct {
	name string
	f    func(t reflect.Type) reflect.Type
	// quotes: the ,string option (applies to scalar kinds only)
	quoted bool
}

func sf(name string, t reflect.Type, tag string) reflect.StructField {
	return reflect.StructField{Name: name, Type: t, Tag: reflect.StructTag(tag)}
}

var tInt = rt[int]()
var tStr = rt[string]()

var ctors = []ctor{
	{"*", func(t reflect.Type) reflect.Type { return reflect.PtrTo(t) }, false},
	{"[]", func(t reflect.Type) reflect.Type { return reflect.SliceOf(t) }, false},
	{"[1]", func(t reflect.Type) reflect.Type { return reflect.ArrayOf(1, t) }, false},
	{"[2]", func(t reflect.Type) reflect.Type { return reflect.ArrayOf(2, t) }, false},
	{"map[string]", func(t reflect.Type) reflect.Type { return reflect.MapOf(tStr, t) }, false},
	{"map[int]", func(t reflect.Type) reflect.Type { return reflect.MapOf(tInt, t) }, false},
	{"map[TextInt]", func(t reflect.Type) reflect.Type { return reflect.MapOf(rt[TextInt](), t) }, false},
	{"struct{F}", func(t reflect.Type) reflect.Type { return reflect.StructOf([]reflect.StructField{sf("F", t, "")}) }, false},
	{"struct{omit}", func(t reflect.Type) reflect.Type {
		return reflect.StructOf([]reflect.StructField{sf("F", t, `json:"f,omitempty"`)})
	}, false},
	{"struct{3}", func(t reflect.Type) reflect.Type {
		return reflect.StructOf([]reflect.StructField{sf("A", tInt, `json:"a"`), sf("F", t, `json:"f,omitempty"`), sf("G", reflect.PtrTo(t), `json:"g"`), sf("Z", tStr, "")})
	}, false},
	{"struct{string}", func(t reflect.Type) reflect.Type {
		return reflect.StructOf([]reflect.StructField{sf("Q", t, `json:"q,string"`), sf("O", t, `json:"o,omitempty,string"`), sf("N", reflect.PtrTo(t), `json:"n,string"`)})
	}, true},
	{"[0]", func(t reflect.Type) reflect.Type { return reflect.ArrayOf(0, t) }, false},
}

type utype struct {
	t    reflect.Type
	dec  bool
	quot bool // a ,string option somewhere inside
}

// universe: the leaf types and every application of up to depth constructors
func universe(depth int) []utype {
	uniMu.Lock()
	defer uniMu.Unlock()
	if uniCache[depth] == nil {
		uniCache[depth] = buildUniverse(depth)
	}
	return uniCache[depth]
}

var uniMu sync.Mutex
var uniCache = map[int][]utype{}

func buildUniverse(depth int) []utype {
	var out []utype
	seen := map[reflect.Type]bool{}
	var level []utype
	for _, l := range leafTable {
		level = append(level, utype{l.t, l.dec, false})
	}
	for d := 0; ; d++ {
		for _, u := range level {
			if !seen[u.t] {
				seen[u.t] = true
				out = append(out, u)
			}
		}
		if d == depth {
			return out
		}
		var next []utype
		for _, u := range level {
			for _, c := range ctors {
				next = append(next, utype{c.f(u.t), u.dec, u.quot || c.quoted})
			}
		}
		level = next
	}
}

// valuesOf gives the small-scope values of a type, at most max
func valuesOf(t reflect.Type, max int) []reflect.Value {
	var out []reflect.Value
	add := func(v reflect.Value) { out = append(out, v) }
	if l := leafByType[t]; l != nil {
		for _, x := range l.vals {
			v := reflect.New(t).Elem()
			if x != nil {
				v.Set(reflect.ValueOf(x))
			}
			add(v)
		}
		if len(out) > max {
			out = out[:max]
		}
		return out
	}
	switch t.Kind() {
	case reflect.Ptr:
		add(reflect.Zero(t))
		for _, e := range valuesOf(t.Elem(), max) {
			p := reflect.New(t.Elem())
			p.Elem().Set(e)
			add(p.Convert(t))
		}
	case reflect.Slice:
		ev := valuesOf(t.Elem(), max)
		add(reflect.Zero(t))
		add(reflect.MakeSlice(t, 0, 0))
		all := reflect.MakeSlice(t, 0, 0)
		for i := len(ev) - 1; i >= 0; i-- {
			all = reflect.Append(all, ev[i])
		}
		add(all)
		for _, e := range ev {
			add(reflect.Append(reflect.MakeSlice(t, 0, 0), e))
		}
	case reflect.Array:
		ev := valuesOf(t.Elem(), max)
		if t.Len() == 0 {
			add(reflect.Zero(t))
			break
		}
		for i := range ev {
			a := reflect.New(t).Elem()
			for k := 0; k < t.Len(); k++ {
				a.Index(k).Set(ev[(i+k)%len(ev)])
			}
			add(a)
		}
	case reflect.Map:
		ev := valuesOf(t.Elem(), max)
		add(reflect.Zero(t))
		add(reflect.MakeMap(t))
		keys := []reflect.Value{}
		switch t.Key().Kind() {
		case reflect.String:
			for _, k := range []string{"k", "", "é<", "k2", "k3", "k4", "k5", "k6"} {
				keys = append(keys, reflect.ValueOf(k).Convert(t.Key()))
			}
		default:
			for _, k := range []int{0, -5, 7, 8, 9, 10, 11, 12} {
				keys = append(keys, reflect.ValueOf(k).Convert(t.Key()))
			}
		}
		all := reflect.MakeMap(t)
		for i, e := range ev {
			all.SetMapIndex(keys[i%len(keys)], e)
		}
		add(all)
		for i, e := range ev {
			m := reflect.MakeMap(t)
			m.SetMapIndex(keys[i%len(keys)], e)
			add(m)
		}
	case reflect.Struct:
		n := t.NumField()
		fv := make([][]reflect.Value, n)
		most := 1
		for i := 0; i < n; i++ {
			fv[i] = valuesOf(t.Field(i).Type, max)
			if len(fv[i]) > most {
				most = len(fv[i])
			}
		}
		for k := 0; k < most; k++ {
			s := reflect.New(t).Elem()
			for i := 0; i < n; i++ {
				if len(fv[i]) > 0 {
					s.Field(i).Set(fv[i][(k+i)%len(fv[i])])
				}
			}
			add(s)
		}
		add(reflect.Zero(t))
	default:
		panic("no values for " + t.String())
	}
	if len(out) > max {
		// the interesting composites come first except the full ones: keep a spread
		out = append(out[:max-1:max-1], out[len(out)-1])
	}
	return out
}
