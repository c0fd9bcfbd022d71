package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/zerosnake0/jzon"
)

// C20: several converters registered at once, for types that contain each
// other.  The model: a converter registered for a type is used for the type;
// one for a predeclared scalar type also serves the named types of its kind
// that have no converter of their own; one for a pointer type is also used for
// the fields and elements it could point to (like methods with a pointer
// receiver); everything else goes by structure.

type (
	PrIn  = prInE
	prN   int
	prS   string
	prB   uint8
	prInE struct {
		X *int
		Y *prN `json:"y"`
		Z **prS
	}
	prIn struct {
		X *int
		Y *prN `json:"y"`
		Z **prS
	}
	prSt struct {
		A int
		B prS   `json:"b,omitempty"`
		C []prN `json:"c"`
		D *prIn
		E map[string]prN
		F [2]uint8
		G []byte
		H []prB
		I interface{} `json:"i"`
		J [1]prIn
		K string  `json:"k,omitempty"`
		L float32 `json:",omitempty"`
		M map[prN]*prS
		PrIn
	}
)

var prRegs = []reflect.Type{rt[int](), rt[prN](), rt[string](), rt[prS](), rt[uint8](), rt[prB](), rt[[]prN](), rt[[]byte](), rt[[]prB](), rt[*int](), rt[*prN](), rt[map[string]prN](), rt[[2]uint8](), rt[prIn](), rt[*prIn](),
	rt[[1]prIn](), rt[prSt](), rt[*prSt](), rt[[]prSt](), rt[float32](), rt[bool](), rt[map[prN]*prS](), rt[*prS](), rt[float64]()}

type prSet map[reflect.Type]bool

var prNative = map[reflect.Kind]reflect.Type{reflect.Int: rt[int](), reflect.String: rt[string](), reflect.Uint8: rt[uint8](), reflect.Float32: rt[float32](), reflect.Float64: rt[float64](), reflect.Bool: rt[bool]()}

// by: the type whose converter serves t
func (r prSet) by(t reflect.Type) reflect.Type {
	if r[t] {
		return t
	}
	if n := prNative[t.Kind()]; n != nil && r[n] {
		return n
	}
	return nil
}

// a field or an element goes through the pointer to it
func (r prSet) place(v reflect.Value, sb *bytes.Buffer) error {
	if p := reflect.PtrTo(v.Type()); r[p] {
		x := reflect.New(v.Type())
		x.Elem().Set(v)
		return r.encode(x, sb)
	}
	return r.encode(v, sb)
}

func (r prSet) encode(v reflect.Value, sb *bytes.Buffer) error {
	if c := r.by(v.Type()); c != nil {
		b, err := c20Enc("", "json", v.Convert(c).Interface())
		sb.Write(b)
		return err
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("null")
			return nil
		}
		return r.encode(v.Elem(), sb)
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice {
			if v.IsNil() {
				sb.WriteString("null")
				return nil
			}
			if v.Type().Elem().Kind() == reflect.Uint8 && r.by(v.Type().Elem()) == nil {
				q, err := json.Marshal(v.Bytes())
				sb.Write(q)
				return err
			}
		}
		for i := 0; i < v.Len(); i++ {
			sb.WriteByte("[,"[min(i, 1)])
			if err := r.place(v.Index(i), sb); err != nil {
				return err
			}
		}
		if v.Len() == 0 {
			sb.WriteByte('[')
		}
		sb.WriteByte(']')
		return nil
	case reflect.Map:
		if v.IsNil() {
			sb.WriteString("null")
			return nil
		}
		sb.WriteByte('{')
		for _, k := range v.MapKeys() {
			fmt.Fprintf(sb, "%q:", fmt.Sprint(k.Interface()))
			if err := r.encode(v.MapIndex(k), sb); err != nil {
				return err
			}
		}
		sb.WriteByte('}')
		return nil
	case reflect.Struct:
		sb.WriteByte('{')
		n := 0
		if err := r.fields(v, sb, &n); err != nil {
			return err
		}
		sb.WriteByte('}')
		return nil
	}
	q, err := json.Marshal(v.Interface())
	sb.Write(q)
	return err
}

func (r prSet) fields(v reflect.Value, sb *bytes.Buffer, n *int) error {
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if f.Anonymous {
			if err := r.fields(v.Field(i), sb, n); err != nil {
				return err
			}
			continue
		}
		tag := strings.Split(f.Tag.Get("json"), ",")
		name := tag[0]
		if name == "" {
			name = f.Name
		}
		if len(tag) > 1 && !r[reflect.PtrTo(f.Type)] && c20Empty(v.Field(i)) {
			continue
		}
		if *n > 0 {
			sb.WriteByte(',')
		}
		*n++
		sb.WriteString(`"` + name + `":`)
		if err := r.place(v.Field(i), sb); err != nil {
			return err
		}
	}
	return nil
}

func (r prSet) decode(v reflect.Value, raw []byte) error {
	if c := r.by(v.Type()); c != nil {
		x := reflect.New(c).Elem()
		x.Set(v.Convert(c))
		if err := c20Dec("", "json", x, bytes.TrimSpace(raw)); err != nil {
			return err
		}
		v.Set(x.Convert(v.Type()))
		return nil
	}
	null := string(bytes.TrimSpace(raw)) == "null"
	switch v.Kind() {
	case reflect.Ptr:
		if null {
			v.Set(reflect.Zero(v.Type()))
			return nil
		}
		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
		}
		return r.decode(v.Elem(), raw)
	case reflect.Slice, reflect.Array:
		if null {
			if v.Kind() == reflect.Slice {
				v.Set(reflect.Zero(v.Type()))
			}
			return nil
		}
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 && bytes.TrimSpace(raw)[0] == '"' {
			var b []byte
			err := json.Unmarshal(raw, &b)
			if err == nil {
				v.SetBytes(b)
			}
			return err
		}
		var l []json.RawMessage
		if err := json.Unmarshal(raw, &l); err != nil {
			return err
		}
		if v.Kind() == reflect.Slice {
			v.Set(reflect.MakeSlice(v.Type(), len(l), len(l)))
		}
		for i, x := range l {
			if i < v.Len() {
				if err := r.decode(v.Index(i), x); err != nil {
					return err
				}
			}
		}
		return nil
	case reflect.Map:
		if null {
			v.Set(reflect.Zero(v.Type()))
			return nil
		}
		var m map[string]json.RawMessage
		if err := json.Unmarshal(raw, &m); err != nil {
			return err
		}
		v.Set(reflect.MakeMap(v.Type()))
		for k, x := range m {
			kv, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			if kv.Kind() == reflect.String {
				kv.SetString(k)
			} else if err := json.Unmarshal([]byte(k), kv.Addr().Interface()); err != nil {
				return err
			}
			if err := r.decode(e, x); err != nil {
				return err
			}
			v.SetMapIndex(kv, e)
		}
		return nil
	case reflect.Struct:
		if null {
			return nil
		}
		d := json.NewDecoder(bytes.NewReader(raw))
		d.Token()
		for d.More() {
			k, err := d.Token()
			if err != nil {
				return err
			}
			var x json.RawMessage
			if err := d.Decode(&x); err != nil {
				return err
			}
			if f := prField(v, k.(string)); f.IsValid() {
				if err := r.decode(f, x); err != nil {
					return err
				}
			}
		}
		return nil
	}
	return json.Unmarshal(raw, v.Addr().Interface())
}

func prField(v reflect.Value, name string) reflect.Value {
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if f.Anonymous {
			if x := prField(v.Field(i), name); x.IsValid() {
				return x
			}
			continue
		}
		n := strings.Split(f.Tag.Get("json"), ",")[0]
		if n == "" {
			n = f.Name
		}
		if strings.EqualFold(n, name) {
			return v.Field(i)
		}
	}
	return reflect.Value{}
}

func prValues() []interface{} {
	n, i, s := prN(3), 4, prS("ps")
	ps := &s
	in := prIn{&i, &n, &ps}
	full := prSt{1, "b", []prN{2, 3}, &in, map[string]prN{"e": 5}, [2]uint8{6, 7}, []byte("gh"), []prB{8, 9}, []interface{}{1, prN(2), "s", prS("t"), uint8(3), prB(4), true, 2.5, &in, in, []prN{1}, []byte{1}, float32(0.5), nil}, [1]prIn{in}, "k", 1.5, map[prN]*prS{11: &s}, prInE(in)}
	two := full
	two.I, two.D, two.E, two.M, two.C, two.PrIn = prIn{}, nil, nil, map[prN]*prS{}, nil, prInE{}
	return []interface{}{full, &full, two, prSt{}, []prSt{two, {}}, map[string]*prSt{"q": &two}, []*prSt{nil, &two}, &in, []interface{}{two, &n, i, s, &i}, 7, prN(7), "x", prS("y"), uint8(1), prB(2), true, 0.5, []byte{1}, []prB{1}, (*int)(nil), &i, &n, (*prIn)(nil), [2]uint8{}, struct{ A, B interface{} }{prB(1), []prB{2}}}
}

var prDocs = []struct {
	text string
	t    []reflect.Type
}{
	{`{"a":1,"B":"x","c":[1,2],"D":{"X":1,"y":2,"Z":"z"},"E":{"k":3},"F":[1,2],"G":"AQI=","H":[1,2],"i":[1,"s",{"a":null}],"J":[{"x":5,"Y":6}],"k":"kk","L":1.5,"M":{"4":"m"},"unknown":[{}],"X":8,"Y":9,"z":"q"}`, []reflect.Type{rt[prSt](), rt[*prSt](), rt[**prSt]()}},
	{` [ { "A" : 1 , "G" : [1, 2] , "D" : null } , {"H":"AQI="}, {} ] `, []reflect.Type{rt[[]prSt](), rt[[]*prSt](), rt[[4]prSt](), rt[[1]*prSt]()}},
	{`{"q":{"E":null,"M":null,"C":[],"G":null,"X":null,"y":null,"Z":null}}`, []reflect.Type{rt[map[string]prSt](), rt[map[string]*prSt](), rt[struct{ Q prSt }](), rt[struct{ Q **prSt }]()}},
	{`7`, []reflect.Type{rt[int](), rt[prN](), rt[uint8](), rt[prB](), rt[*int](), rt[*prN](), rt[float32](), rt[float64]()}},
	{`"t"`, []reflect.Type{rt[string](), rt[prS](), rt[*prS]()}},
	{`[1,2]`, []reflect.Type{rt[[]prN](), rt[[]byte](), rt[[]prB](), rt[[2]uint8](), rt[[]*prN](), rt[[]int](), rt[[3]float32]()}},
	{`null`, []reflect.Type{rt[int](), rt[prN](), rt[string](), rt[*prIn](), rt[[]prN](), rt[map[string]prN](), rt[prSt](), rt[[2]uint8]()}},
}

func init() {
	subsets := func(th bool) [][]int {
		n := len(prRegs)
		var out [][]int
		for i := 0; i < n; i++ {
			out = append(out, []int{i})
			for k := i + 1; k < n; k++ {
				out = append(out, []int{i, k})
				for l := k + 1; l < n; l++ {
					out = append(out, []int{i, k, l})
					for m := l + 1; th && m < n; m++ {
						out = append(out, []int{i, k, l, m})
					}
				}
			}
		}
		return out
	}
	addEngine("C20", &Engine{
		Name: "several registered converters", Workers: 1,
		Rule:   "every set of registered recording converters for types that contain each other x values and texts that hold them all: the calls, in order, their arguments, the output or the decoded value, and one failing call at each position, as the model; counts when a converter is called",
		Bounds: fmt.Sprintf("all sets of up to 3 (thorough 4) of %d types; %d values, %d texts", len(prRegs), len(prValues()), len(prDocs)),
		Units:  func(th bool) int { return len(subsets(th)) },
		Run: func(w *W, unit int) {
			set := subsets(w.Thorough)[unit]
			r := prSet{}
			eo := &jzon.EncoderOption{EscapeHTML: true, ValEncoders: map[reflect.Type]jzon.ValEncoder{}}
			do := &jzon.DecoderOption{ValDecoders: map[reflect.Type]jzon.ValDecoder{}}
			regs := ""
			for _, i := range set {
				t := prRegs[i]
				r[t] = true
				eo.ValEncoders[t] = c20Conv{t}
				do.ValDecoders[t] = c20Conv{t}
				regs += " " + t.String()
			}
			ec, dc := jzon.NewEncoderConfig(eo), jzon.NewDecoderConfig(do)
			run := func(name func() string, f func() error) bool {
				if w.Stop() {
					return false
				}
				if !w.Begin() {
					return true
				}
				w.Announce(name)
				w.Sample(name)
				err := func() (err error) {
					defer catch(&err)
					return f()
				}()
				if err != nil {
					w.Fail(name(), err)
					return false
				}
				return true
			}
			for vi, x := range prValues() {
				v := reflect.ValueOf(x)
				if !run(func() string { return fmt.Sprintf("registered%s: encode value %d, %s", regs, vi, v.Type()) }, func() error {
					c20Reset(-1)
					var exp bytes.Buffer
					expErr := r.encode(v, &exp)
					expLog := c20log.log
					if len(expLog) > 0 {
						w.Nontrivial++
					}
					w.States += int64(1 + len(expLog))
					for fail := -1; fail < len(expLog); fail++ {
						c20Reset(fail)
						jb, je := ec.Marshal(x)
						w.Transitions++
						if fail >= 0 {
							if je != c20Err || len(jb) > 0 {
								return fmt.Errorf("call %d fails: error %v, output %q", fail, je, jb)
							}
							continue
						}
						if je != nil || expErr != nil {
							return fmt.Errorf("error %v, expected %v", je, expErr)
						}
						if !eq(expLog, c20log.log) {
							return fmt.Errorf("calls %q, expected %q", c20log.log, expLog)
						}
						if c20Compact(jb) != c20Compact(exp.Bytes()) {
							return fmt.Errorf("output %q, expected %q", jb, exp.Bytes())
						}
					}
					return nil
				}) {
					return
				}
			}
			for di, d := range prDocs {
				for _, t := range d.t {
					if !run(func() string { return fmt.Sprintf("registered%s: decode text %d into %s", regs, di, t) }, func() error {
						want := reflect.New(t)
						c20Reset(-1)
						expErr := r.decode(want.Elem(), []byte(d.text))
						expLog := c20log.log
						if len(expLog) > 0 {
							w.Nontrivial++
						}
						w.States += int64(1 + len(expLog))
						for fail := -1; fail < len(expLog); fail++ {
							for rd := 0; rd < 2; rd++ {
								c20Reset(fail)
								p := reflect.New(t)
								var je error
								if rd == 0 {
									je = dc.Unmarshal([]byte(d.text), p.Interface())
								} else {
									je = dc.UnmarshalFromReader(newChunk([]byte(d.text), 1), p.Interface())
								}
								w.Transitions++
								if fail >= 0 {
									if je == nil || !strings.Contains(je.Error(), c20Err.Error()) || len(c20log.log) != fail+1 {
										return fmt.Errorf("call %d fails: error %v, calls %q", fail, je, c20log.log)
									}
									continue
								}
								if (je == nil) != (expErr == nil) {
									return fmt.Errorf("error %v, expected %v", je, expErr)
								}
								if je != nil {
									continue
								}
								if !eq(expLog, c20log.log) {
									return fmt.Errorf("calls %q, expected %q", c20log.log, expLog)
								}
								if c20Any(p.Interface()) != c20Any(want.Interface()) {
									return fmt.Errorf("value %s, expected %s", c20Any(p.Interface()), c20Any(want.Interface()))
								}
							}
						}
						return nil
					}) {
						return
					}
				}
			}
		},
	})
}
