package main

import (
	"bytes"
	"context"
	"encoding"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"unsafe"

	"github.com/zerosnake0/jzon"
)

// C20: conversion hooks.  Every hook records what it is given; the records and
// the results are compared with the standard library's and with a model.

type c20Base struct {
	t, emb, pemb, np reflect.Type
	flavor, kind     string
}

// the recorder; the engines of C20 run in one goroutine per process
var c20log struct {
	log    []string
	n      int
	failAt int
}

var c20Err = errors.New("hook failure 4711")

// the kinds of errors a conversion method may return
type c20TempErr struct{}

func (c20TempErr) Error() string   { return "temporary failure" }
func (c20TempErr) Temporary() bool { return true }
func (c20TempErr) Timeout() bool   { return true }

type c20StrErr string

func (e c20StrErr) Error() string { return string(e) }

type c20PtrErr struct{ n int }

func (e *c20PtrErr) Error() string { return "pointer error" }

var c20Errs = []error{io.EOF, io.ErrUnexpectedEOF, fmt.Errorf("wrapped: %w", io.EOF), io.ErrShortBuffer, io.ErrNoProgress,
	jzon.ErrDataRemained, jzon.ErrNilPointerReceiver, jzon.ErrEfaceLooping, jzon.ErrEmptyIFace, jzon.ErrNoAttachedWriter, jzon.ErrFloatIsNan,
	jzon.UnexpectedByteError{}, jzon.InvalidStringCharError{}, jzon.IntOverflowError{}, jzon.TypeNotSupportedError("t"), jzon.UnknownFieldError("f"), jzon.BadQuotedStringError("q"),
	c20TempErr{}, c20StrErr(""), c20StrErr("EOF"), (*c20PtrErr)(nil), &c20PtrErr{1}, &json.UnmarshalTypeError{Value: "v", Type: reflect.TypeOf(0)}, context.Canceled}

// > 0: the number of positions, instead of the usual
var c20Depth int

func c20Reset(failAt int) { c20log.log, c20log.n, c20log.failAt = nil, 0, failAt }

// c20Name strips the flavour: the recorded name is the kind
func c20Note(format string, a ...interface{}) bool {
	point()
	k := c20log.n
	c20log.n++
	c20log.log = append(c20log.log, fmt.Sprintf(format, a...))
	return k == c20log.failAt
}

func c20Show(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + c20Show(v.Elem())
	case reflect.Struct:
		s := "{"
		for i := 0; i < v.NumField(); i++ {
			s += c20Show(v.Field(i)) + ","
		}
		return s + "}"
	case reflect.Array, reflect.Slice:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return "nil"
		}
		s := "["
		for i := 0; i < v.Len(); i++ {
			s += c20Show(v.Index(i)) + ","
		}
		return s + "]"
	case reflect.Chan:
		if v.IsNil() {
			return "nil"
		}
		return fmt.Sprint("chan", v.Cap())
	case reflect.Map:
		if v.IsNil() {
			return "nil"
		}
		s := "map"
		for _, k := range v.MapKeys() {
			s += "[" + c20Show(k) + ":" + c20Show(v.MapIndex(k)) + "]"
		}
		return s
	}
	return fmt.Sprint(v)
}

// what a hook of the given kind writes for the value
func c20Out(kind string, show string) []byte {
	if kind == "json" {
		q, _ := json.Marshal(show)
		return []byte(`{ "h" :` + string(q) + ` , "x":[ ]}`)
	}
	return []byte("t:" + show + "<\"\n\xc3\xa9")
}

func c20Enc(name, kind string, v interface{}) ([]byte, error) {
	s := c20Show(reflect.ValueOf(v))
	if c20Note("enc %s %s", kind, s) {
		return nil, c20Err
	}
	return c20Out(kind, s), nil
}

// c20Set makes the value say what it was given
func c20Set(v reflect.Value, b []byte) {
	n := int64(len(b))*7 + 1
	for _, c := range b {
		n = (n*31 + int64(c)) % 251
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(n)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(uint64(n))
	case reflect.Complex128:
		v.SetComplex(complex(float64(n), 1))
	case reflect.Float64, reflect.Float32:
		v.SetFloat(float64(n))
	case reflect.Bool:
		v.SetBool(n%2 == 0)
	case reflect.String:
		v.SetString(string(b))
	case reflect.Map:
		m := reflect.MakeMap(v.Type())
		k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
		c20Set(k, b)
		c20Set(e, b)
		m.SetMapIndex(k, e)
		v.Set(m)
	case reflect.Slice:
		s := reflect.MakeSlice(v.Type(), 2, 2)
		c20Set(s.Index(1), b)
		v.Set(s)
	case reflect.Array, reflect.Struct:
		l := v.NumField
		f := v.Field
		if v.Kind() == reflect.Array {
			l, f = v.Len, v.Index
		}
		for i := 0; i < l(); i++ {
			if f(i).CanSet() {
				c20Set(f(i), b)
			}
		}
	case reflect.Ptr:
		p := reflect.New(v.Type().Elem())
		c20Set(p.Elem(), b)
		v.Set(p)
	case reflect.Chan:
		v.Set(reflect.MakeChan(v.Type(), int(n)))
	}
}

func c20Dec(name, kind string, v reflect.Value, b []byte) error {
	if c20Note("dec %s %s %q", kind, c20Show(v), b) {
		return c20Err
	}
	c20Set(v, b)
	return nil
}

// ---- values and positions -----------------------------------------------------

func c20Vals(t reflect.Type) []reflect.Value {
	zero := reflect.New(t).Elem()
	full := reflect.New(t).Elem()
	c20Set(full, []byte("v"))
	out := []reflect.Value{full, zero}
	switch t.Kind() {
	case reflect.Map:
		out = append(out, reflect.MakeMap(t))
	case reflect.Slice:
		out = append(out, reflect.MakeSlice(t, 0, 0))
	}
	return out
}

// embedded values: an embedded pointer must not be nil (its method is promoted)
func c20EmbVals(t reflect.Type) []reflect.Value {
	full := reflect.New(t).Elem()
	f := full.Field(0)
	if f.Kind() == reflect.Ptr {
		f.Set(reflect.New(f.Type().Elem()))
		c20Set(f.Elem(), []byte("e"))
	} else {
		c20Set(f, []byte("e"))
	}
	full.Field(1).SetInt(3)
	return []reflect.Value{full}
}

// a named pointer type has no methods of its own, but what it points to has
func c20NamedPtrVals(t reflect.Type) []reflect.Value {
	out := []reflect.Value{reflect.New(t).Elem()}
	for _, v := range c20Vals(t.Elem()) {
		out = append(out, c20Ptr(v).Convert(t))
	}
	return out
}

var tAny = rt[interface{}]()

type c20Pos struct {
	name string
	f    func(v reflect.Value) reflect.Value // value level
	t    func(t reflect.Type) reflect.Type   // type level
	doc  func(s string) string               // a text for the type, with s at the position
}

func c20Ptr(v reflect.Value) reflect.Value {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p
}

func c20Iface(v reflect.Value) reflect.Value {
	i := reflect.New(tAny).Elem()
	i.Set(v)
	return i
}

func c20Struct1(t reflect.Type) reflect.Type {
	return reflect.StructOf([]reflect.StructField{sf("F", t, `json:"f"`)})
}

func c20StructN(t reflect.Type) reflect.Type {
	return reflect.StructOf([]reflect.StructField{sf("A", tInt, `json:"a"`), sf("F", t, `json:"f,omitempty"`), sf("G", reflect.PtrTo(t), `json:"g"`), sf("H", reflect.PtrTo(t), `json:"h,omitempty"`), sf("Z", tStr, "")})
}

// with the quoting option, which conversion methods take no notice of
func c20StructQ(t reflect.Type) reflect.Type {
	return reflect.StructOf([]reflect.StructField{sf("F", t, `json:"f,string"`), sf("G", reflect.PtrTo(t), `json:"g,string"`), sf("H", reflect.PtrTo(t), `json:"h,omitempty,string"`)})
}

// more than ten fields
func c20StructL(t reflect.Type) reflect.Type {
	var fs []reflect.StructField
	for i := 0; i < 11; i++ {
		ft := tInt
		if i == 4 {
			ft = t
		}
		fs = append(fs, sf(fmt.Sprintf("F%d", i), ft, ""))
	}
	return reflect.StructOf(fs)
}

var c20Positions = []c20Pos{
	{"ptr", c20Ptr, reflect.PtrTo, func(s string) string { return s }},
	{"slice", func(v reflect.Value) reflect.Value {
		return reflect.Append(reflect.MakeSlice(reflect.SliceOf(v.Type()), 0, 0), v, v)
	}, reflect.SliceOf, func(s string) string { return "[" + s + " , " + s + "]" }},
	{"[1]", func(v reflect.Value) reflect.Value {
		a := reflect.New(reflect.ArrayOf(1, v.Type())).Elem()
		a.Index(0).Set(v)
		return a
	}, func(t reflect.Type) reflect.Type { return reflect.ArrayOf(1, t) }, func(s string) string { return "[ " + s + " ]" }},
	{"[2]", func(v reflect.Value) reflect.Value {
		a := reflect.New(reflect.ArrayOf(2, v.Type())).Elem()
		a.Index(0).Set(v)
		a.Index(1).Set(v)
		return a
	}, func(t reflect.Type) reflect.Type { return reflect.ArrayOf(2, t) }, func(s string) string { return "[" + s + "," + s + "]" }},
	{"map", func(v reflect.Value) reflect.Value {
		m := reflect.MakeMap(reflect.MapOf(tStr, v.Type()))
		m.SetMapIndex(reflect.ValueOf("k"), v)
		return m
	}, func(t reflect.Type) reflect.Type { return reflect.MapOf(tStr, t) }, func(s string) string { return `{"k" : ` + s + "\n}" }},
	{"struct1", func(v reflect.Value) reflect.Value {
		s := reflect.New(c20Struct1(v.Type())).Elem()
		s.Field(0).Set(v)
		return s
	}, c20Struct1, func(s string) string { return `{"x":[],"f":` + s + `}` }},
	{"structN", func(v reflect.Value) reflect.Value {
		s := reflect.New(c20StructN(v.Type())).Elem()
		s.Field(1).Set(v)
		s.Field(2).Set(c20Ptr(v))
		return s
	}, c20StructN, func(s string) string { return `{"a":4,"f":` + s + `,"g" :` + s + `,"Z":"z"}` }},
	{"structL", func(v reflect.Value) reflect.Value {
		s := reflect.New(c20StructL(v.Type())).Elem()
		s.Field(4).Set(v)
		return s
	}, c20StructL, func(s string) string { return `{"F4":` + s + `,"F10":1}` }},
	{"structQ", func(v reflect.Value) reflect.Value {
		s := reflect.New(c20StructQ(v.Type())).Elem()
		s.Field(0).Set(v)
		s.Field(1).Set(c20Ptr(v))
		return s
	}, nil, nil},
	{"iface", c20Iface, nil, nil},
	{"ifaceptr", func(v reflect.Value) reflect.Value { return c20Iface(c20Ptr(v)) }, nil, nil},
}

// ---- the encoder model ----------------------------------------------------------

func c20Empty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Array, reflect.Map, reflect.Slice, reflect.String:
		return v.Len() == 0
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Float32, reflect.Float64, reflect.Interface, reflect.Ptr:
		return v.IsZero()
	}
	return false
}

var (
	tJM = rt[json.Marshaler]()
	tTM = rt[encoding.TextMarshaler]()
)

// c20Model encodes v, calling its hooks as the documentation says: a value
// that has an address (an element, a field, what a pointer points to) also has
// the methods with a pointer receiver.
func c20Model(v reflect.Value, addr, html bool, sb *bytes.Buffer) error {
	t := v.Type()
	switch t.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			sb.WriteString("null")
			return nil
		}
		return c20Model(v.Elem(), false, html, sb)
	case reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("null")
			return nil
		}
		return c20Model(v.Elem(), true, html, sb)
	}
	recv := v
	if addr {
		recv = c20Ptr(v)
	}
	switch {
	case recv.Type().Implements(tJM):
		b, err := recv.Interface().(json.Marshaler).MarshalJSON()
		sb.Write(b)
		return err
	case recv.Type().Implements(tTM):
		b, err := recv.Interface().(encoding.TextMarshaler).MarshalText()
		if err != nil {
			return err
		}
		q, _ := stdMarshal(string(b), html)
		sb.Write(q)
		return nil
	}
	switch t.Kind() {
	case reflect.Slice, reflect.Array:
		if t.Kind() == reflect.Slice && v.IsNil() {
			sb.WriteString("null")
			return nil
		}
		if t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Uint8 && !reflect.PtrTo(t.Elem()).Implements(tJM) && !reflect.PtrTo(t.Elem()).Implements(tTM) {
			q, err := json.Marshal(v.Bytes())
			sb.Write(q)
			return err
		}
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				sb.WriteByte(',')
			}
			if err := c20Model(v.Index(i), true, html, sb); err != nil {
				return err
			}
		}
		sb.WriteByte(']')
		return nil
	case reflect.Map:
		if v.IsNil() {
			sb.WriteString("null")
			return nil
		}
		sb.WriteByte('{')
		for i, k := range v.MapKeys() {
			if i > 0 {
				sb.WriteByte(',')
			}
			q, _ := stdMarshal(fmt.Sprint(k.Interface()), html)
			sb.Write(q)
			sb.WriteByte(':')
			if err := c20Model(v.MapIndex(k), false, html, sb); err != nil {
				return err
			}
		}
		sb.WriteByte('}')
		return nil
	case reflect.Struct:
		sb.WriteByte('{')
		n := 0
		if err := c20Fields(v, html, sb, &n); err != nil {
			return err
		}
		sb.WriteByte('}')
		return nil
	case reflect.Chan, reflect.Complex128:
		return errors.New("unsupported")
	}
	q, err := stdMarshal(v.Interface(), html)
	sb.Write(q)
	return err
}

// c20Fields: the members of a struct; the fields of an embedded struct are its own
func c20Fields(v reflect.Value, html bool, sb *bytes.Buffer, n *int) error {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" && !f.Anonymous {
			continue
		}
		if f.Anonymous && f.Type.Kind() == reflect.Struct {
			if err := c20Fields(v.Field(i), html, sb, n); err != nil {
				return err
			}
			continue
		}
		tag := strings.Split(f.Tag.Get("json"), ",")
		name := tag[0]
		if name == "" {
			name = f.Name
		}
		omit, quoted := false, false
		for _, o := range tag[1:] {
			omit = omit || o == "omitempty"
			quoted = quoted || o == "string"
		}
		if omit && c20Empty(v.Field(i)) {
			continue
		}
		if *n > 0 {
			sb.WriteByte(',')
		}
		*n++
		sb.WriteString(`"` + name + `":`)
		if quoted && c20Plain(f.Type) {
			var one bytes.Buffer
			if err := c20Model(v.Field(i), true, html, &one); err != nil {
				return err
			}
			q := one.Bytes()
			if string(q) != "null" {
				if q[0] == '"' {
					q, _ = stdMarshal(string(q), html)
				} else {
					q = []byte(`"` + string(q) + `"`)
				}
			}
			sb.Write(q)
			continue
		}
		if err := c20Model(v.Field(i), true, html, sb); err != nil {
			return err
		}
	}
	return nil
}

// c20Plain: a scalar kind, or a pointer to one, without conversion methods:
// what the quoting option applies to
func c20Plain(t reflect.Type) bool {
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	if p := reflect.PtrTo(t); p.Implements(tJM) || p.Implements(tTM) {
		return false
	}
	switch t.Kind() {
	case reflect.Bool, reflect.String, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Float32, reflect.Float64:
		return true
	}
	return false
}

// ---- encoding -------------------------------------------------------------------

func c20Compact(b []byte) string {
	var bb bytes.Buffer
	if json.Compact(&bb, b) != nil {
		return "not JSON: " + string(b)
	}
	var out bytes.Buffer
	json.HTMLEscape(&out, bb.Bytes())
	return out.String()
}

// c20Encode runs one encoding case: the model, every entry point, and every
// failing call.
func c20Encode(w *W, ec *jzon.EncoderConfig, html bool, v reflect.Value, name func() string, entries int, conform bool) bool {
	if w.Stop() {
		return false
	}
	if !w.Begin() {
		return true
	}
	w.Announce(name)
	w.Sample(name)
	err := func() (err error) {
		defer catch(&err)
		c20Reset(-1)
		var exp bytes.Buffer
		expErr := c20Model(v, false, html, &exp)
		expLog := c20log.log
		if len(expLog) > 0 {
			w.Nontrivial++
		}
		w.States += int64(1 + len(expLog))
		for e := 0; e < entries; e++ {
			for fail := -1; fail < len(expLog); fail++ {
				c20Reset(fail)
				var out []byte
				var got error
				wr := &bytes.Buffer{}
				switch e {
				case 0:
					out, got = ec.Marshal(v.Interface())
				case 1:
					enc := ec.NewEncoder(wr)
					got = enc.Encode(v.Interface())
					enc.Release()
					out = bytes.TrimSuffix(wr.Bytes(), []byte("\n"))
				case 2:
					s := ec.NewStreamer()
					s.Reset(wr)
					s.ArrayStart().Value(v.Interface()).ArrayEnd()
					got = s.Flush()
					s.Release()
					out = wr.Bytes()
					if got == nil {
						out = out[1 : len(out)-1]
					}
				}
				w.Transitions++
				log := c20log.log
				if fail >= 0 {
					if !errors.Is(got, c20Err) {
						return fmt.Errorf("entry %d, call %d fails: error %v, output %q", e, fail, got, out)
					}
					if len(out) > 0 {
						return fmt.Errorf("entry %d, call %d fails: output %q", e, fail, out)
					}
					if len(log) <= fail || !eq(log[:fail+1], expLog[:fail+1]) {
						return fmt.Errorf("entry %d, call %d fails: calls %q, expected %q", e, fail, log, expLog)
					}
					continue
				}
				if (got == nil) != (expErr == nil) {
					return fmt.Errorf("entry %d: error %v, expected %v", e, got, expErr)
				}
				if expErr != nil {
					continue
				}
				if !eq(log, expLog) {
					return fmt.Errorf("entry %d: calls %q, expected %q", e, log, expLog)
				}
				if !bytes.Equal(out, exp.Bytes()) {
					return fmt.Errorf("entry %d: output %q, expected %q", e, out, exp.Bytes())
				}
			}
		}
		// conformance of the model: with an address everywhere the standard
		// library makes the same calls
		if conform && v.Kind() != reflect.Ptr && html {
			p := c20Ptr(v)
			c20Reset(-1)
			sb, se := json.Marshal(p.Interface())
			slog := c20log.log
			c20Reset(-1)
			jb, je := ec.Marshal(p.Interface())
			w.Transitions++
			if (se == nil) != (je == nil) {
				return fmt.Errorf("through a pointer: error %v, standard library %v", je, se)
			}
			if se == nil {
				if !eq(slog, c20log.log) {
					return fmt.Errorf("through a pointer: calls %q, standard library %q", c20log.log, slog)
				}
				if c20Compact(jb) != string(sb) {
					return fmt.Errorf("through a pointer: output %q, standard library %q", jb, sb)
				}
			}
			w.Outcome("also compared with the standard library")
		}
		return nil
	}()
	if err != nil {
		w.Fail(name(), err)
		return false
	}
	return true
}

// ---- decoding -------------------------------------------------------------------

var c20Texts = []string{`null`, `12`, `"s\u00e9<"`, `{ "A" : 1 , "B" : [2] }`, `true`, `[ ]`, `"\ud83d\ude00"`}

// a destination of the type; interfaces hold a pointer to a fresh T
func c20Decode(w *W, dc *jzon.DecoderConfig, mk func() interface{}, std func() interface{}, text string, same func(a, b interface{}) bool, name func() string) bool {
	if w.Stop() {
		return false
	}
	if !w.Begin() {
		return true
	}
	w.Announce(name)
	w.Sample(name)
	err := func() (err error) {
		defer catch(&err)
		c20Reset(-1)
		sv := std()
		se := json.Unmarshal([]byte(text), sv)
		expLog := c20log.log
		if len(expLog) > 0 {
			w.Nontrivial++
		}
		w.States += int64(1 + len(expLog))
		for e := 0; e < 2; e++ {
			for fail := -1; fail < len(expLog); fail++ {
				c20Reset(fail)
				v := mk()
				var got error
				if e == 0 {
					got = dc.Unmarshal([]byte(text), v)
				} else {
					got = dc.UnmarshalFromReader(newChunk([]byte(text), 1), v)
				}
				w.Transitions++
				log := c20log.log
				if fail >= 0 {
					if got == nil || !strings.Contains(got.Error(), c20Err.Error()) {
						return fmt.Errorf("entry %d, call %d fails: error %v", e, fail, got)
					}
					if len(log) <= fail || !eq(log[:fail+1], expLog[:fail+1]) {
						return fmt.Errorf("entry %d, call %d fails: calls %q, expected %q", e, fail, log, expLog)
					}
					continue
				}
				if (got == nil) != (se == nil) {
					return fmt.Errorf("entry %d: error %v, standard library %v", e, got, se)
				}
				if se != nil {
					continue
				}
				if !eq(log, expLog) {
					return fmt.Errorf("entry %d: calls %q, standard library %q", e, log, expLog)
				}
				if !same(v, sv) {
					return fmt.Errorf("entry %d: value %s, standard library %s", e, c20Any(v), c20Any(sv))
				}
			}
		}
		return nil
	}()
	if err != nil {
		w.Fail(name(), err)
		return false
	}
	return true
}

func c20Any(v interface{}) string { return c20Deep(reflect.ValueOf(v)) }

// c20Deep shows a value without the names of its types
func c20Deep(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return "inil"
		}
		return "i" + c20Deep(v.Elem())
	case reflect.Map:
		if v.IsNil() {
			return "nil"
		}
		m := map[string]string{}
		for _, k := range v.MapKeys() {
			m[c20Deep(k)] = c20Deep(v.MapIndex(k))
		}
		return fmt.Sprint(m)
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + c20Deep(v.Elem())
	case reflect.Struct:
		s := "{"
		for i := 0; i < v.NumField(); i++ {
			s += c20Deep(v.Field(i)) + ","
		}
		return s + "}"
	case reflect.Array, reflect.Slice:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return "nil"
		}
		s := "["
		for i := 0; i < v.Len(); i++ {
			s += c20Deep(v.Index(i)) + ","
		}
		return s + "]"
	}
	return c20Show(v)
}

// ---- registered converters --------------------------------------------------------

type c20Conv struct{ t reflect.Type }

func (c c20Conv) IsEmpty(ptr unsafe.Pointer) bool { return c20Empty(reflect.NewAt(c.t, ptr).Elem()) }

func (c c20Conv) Encode(ptr unsafe.Pointer, s *jzon.Streamer, opts *jzon.EncOpts) {
	if ptr == nil {
		s.Null()
		return
	}
	b, err := c20Enc("", "json", reflect.NewAt(c.t, ptr).Elem().Interface())
	if err != nil {
		s.Error = err
		return
	}
	s.Raw(b)
}

func (c c20Conv) Decode(ptr unsafe.Pointer, it *jzon.Iterator, opts *jzon.DecOpts) error {
	b, err := it.SkipRaw()
	if err != nil {
		return err
	}
	return c20Dec("", "json", reflect.NewAt(c.t, ptr).Elem(), b)
}

// c20Regs: a type to register converters for, and a type of the same shape
// whose methods do what the converters do
type c20Reg struct{ t, like reflect.Type }

func c20Regs() []c20Reg {
	like := map[string]reflect.Type{}
	for _, b := range c20Bases {
		if b.flavor == "VJ" {
			like[b.kind] = b.t
		}
	}
	var out []c20Reg
	for _, b := range c20Bases {
		// no methods at all, or methods that the registered converters override
		if b.flavor == "NN" || b.flavor == "VT" || b.flavor == "VJ" || b.flavor == "VB" {
			out = append(out, c20Reg{b.t, like[b.kind]})
		}
	}
	out = append(out, c20Reg{tInt, like["Int"]}, c20Reg{tStr, like["Str"]}, c20Reg{rt[bool](), like["Bool"]}, c20Reg{rt[float64](), like["F64"]}, c20Reg{rt[uint8](), like["Byte"]},
		c20Reg{rt[map[string]int](), like["Map"]}, c20Reg{rt[[]int](), like["Slice"]}, c20Reg{rt[[2]int](), like["Arr"]}, c20Reg{rt[[1]*int](), like["PArr"]}, c20Reg{rt[struct{}](), like["Empty"]})
	return out
}

// two ambiguous embedded types: their methods are not promoted
type c20Amb1 struct {
	HIntVJ
	HStrVJ
	Z int
}
type c20Amb2 struct {
	HMapVT
	*HSliceVT
	HBoolVT `json:"b,omitempty"`
}
type c20Amb3 struct {
	HStructVJ
	HOneVJ
	*HArrVJ
	HF64VJ `json:",omitempty"`
}
type c20Amb4 struct {
	HPSVB
	HPArrVB `json:"pa"`
	HEmptyVB
}
type c20Amb5 struct {
	c20Amb1 `json:"in"`
	*C20In
}
type C20In struct {
	HIntVT
	HStrVJ `json:"sv"`
	HMapVJ
}

func c20Ambs() []reflect.Type {
	return []reflect.Type{rt[c20Amb1](), rt[c20Amb2](), rt[c20Amb3](), rt[c20Amb4](), rt[C20In](), rt[struct {
		A c20Amb1
		B *c20Amb2
		C []c20Amb3
	}]()}
}

func c20Fill(v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		if v.CanAddr() && v.Addr().Type().Implements(tJM) || v.NumField() == 0 || v.CanAddr() && v.Addr().Type().Implements(tTM) {
			c20Set(v, []byte("q"))
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				c20Fill(v.Field(i))
			}
		}
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		c20Fill(v.Elem())
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Struct {
			v.Set(reflect.MakeSlice(v.Type(), 2, 2))
			c20Fill(v.Index(1))
			return
		}
		c20Set(v, []byte("q"))
	default:
		c20Set(v, []byte("q"))
	}
}

func c20KeyType(t reflect.Type) bool {
	return t.Comparable()
}

func init() {
	depth := func(th bool) int {
		if c20Depth > 0 {
			return c20Depth
		}
		if th {
			return 3
		}
		return 2
	}
	// every composition of up to d positions, innermost first
	var compose func(d int, usable func(p c20Pos) bool, f func(ps []c20Pos) bool)
	compose = func(d int, usable func(p c20Pos) bool, f func(ps []c20Pos) bool) {
		var rec func(ps []c20Pos) bool
		rec = func(ps []c20Pos) bool {
			if !f(ps) {
				return false
			}
			if len(ps) == d {
				return true
			}
			for _, p := range c20Positions {
				if usable(p) && !rec(append(ps[:len(ps):len(ps)], p)) {
					return false
				}
			}
			return true
		}
		rec(nil)
	}
	posName := func(ps []c20Pos) string {
		s := ""
		for _, p := range ps {
			s += " in " + p.name
		}
		return s
	}
	all := func(c20Pos) bool { return true }
	typed := func(p c20Pos) bool { return p.t != nil }

	encEngine := &Engine{
		Name: "methods: encoding", Workers: 1,
		Rule:   "a type with recording conversion methods, a value of it, and a composition of positions; every entry point, and again with every single method call failing; compared with the model, and through a pointer with the standard library; counts when at least one method is called",
		Bounds: "37 kinds of type x 6 sets of methods (JSON or text, value or pointer receivers, both), plain, embedded, embedded by pointer and behind a named pointer type; every value class; every composition of up to 2 (thorough 3) of 11 positions; escaping on and off",
		Units:  func(th bool) int { return len(c20Bases) * 4 },
		Run: func(w *W, unit int) {
			b := c20Bases[unit/4]
			t := []reflect.Type{b.t, b.emb, b.pemb, b.np}[unit%4]
			if t == nil || b.flavor == "NN" {
				return
			}
			vals := c20Vals
			switch unit % 4 {
			case 1, 2:
				vals = c20EmbVals
			case 3:
				vals = c20NamedPtrVals
			}
			for _, html := range []bool{true, false} {
				ec := jzon.NewEncoderConfig(&jzon.EncoderOption{EscapeHTML: html})
				compose(depth(w.Thorough), all, func(ps []c20Pos) bool {
					for vi, v := range vals(t) {
						for _, p := range ps {
							v = p.f(v)
						}
						// below a map or an interface the standard library
						// has no addresses: only value receivers count there
						conform := true
						for _, p := range ps {
							if p.name == "map" || strings.HasPrefix(p.name, "iface") {
								conform = b.flavor[0] == 'V'
							}
						}
						entries := 1
						if len(ps) < 2 {
							entries = 3
						}
						vi := vi
						if !c20Encode(w, ec, html, v, func() string {
							return fmt.Sprintf("encode %s, value %d%s, escape=%v", t, vi, posName(ps), html)
						}, entries, conform) {
							return false
						}
					}
					return true
				})
			}
		},
	}

	decEngine := &Engine{
		Name: "methods: decoding", Workers: 1,
		Rule:   "a type with recording conversion methods, a composition of positions, a text of every kind at the position, a destination that is empty or holds a pointer in an interface; byte slice and byte-wise reader, and again with every single method call failing; compared with the standard library; counts when at least one method is called",
		Bounds: "37 kinds of type x 6 sets of methods, plain, embedded, embedded by pointer and behind a named pointer type; 7 texts; every composition of up to 2 (thorough 3) of 8 positions",
		Units:  func(th bool) int { return len(c20Bases) * 4 },
		Run: func(w *W, unit int) {
			b := c20Bases[unit/4]
			t := []reflect.Type{b.t, b.emb, b.pemb, b.np}[unit%4]
			if t == nil || b.flavor == "NN" {
				return
			}
			dc := jzon.NewDecoderConfig(nil)
			compose(depth(w.Thorough), typed, func(ps []c20Pos) bool {
				for _, text := range c20Texts {
					ty, doc := t, text
					for _, p := range ps {
						ty, doc = p.t(ty), p.doc(doc)
					}
					for k := 0; k < 2; k++ {
						if k == 1 && len(ps) > 1 {
							continue
						}
						k := k
						mk := func() interface{} {
							v := reflect.New(ty)
							if unit%4 == 2 && len(ps) == 0 {
								// promoted through a pointer
								v.Elem().Field(0).Set(reflect.New(b.t))
							}
							if k == 1 {
								var i interface{} = v.Interface()
								return &i
							}
							return v.Interface()
						}
						if unit%4 == 2 && len(ps) > 0 {
							continue // the promoted method needs an embedded pointer
						}
						name := func() string { return fmt.Sprintf("decode %q into %s (form %d)%s", doc, ty, k, posName(ps)) }
						if !c20Decode(w, dc, mk, mk, doc, eq20, name) {
							return false
						}
					}
				}
				return true
			})
		},
	}

	keyEngine := &Engine{
		Name: "methods: map keys", Workers: 1,
		Rule:   "a map whose key type has recording methods, with one entry; encoding (both escapings) and decoding of several key texts, and again with the method failing; compared with the standard library; counts when a method is called",
		Bounds: "every hashable type of the methods engines, pointers to all of them (nil and not), and interface types; 6 key texts",
		Units:  func(th bool) int { return len(c20Bases) * 2 },
		Run: func(w *W, unit int) {
			b := c20Bases[unit/2]
			ty := b.t
			var keys []reflect.Value
			if unit%2 == 1 {
				ty = reflect.PtrTo(b.t)
				keys = append(keys, reflect.Zero(ty))
				for _, v := range c20Vals(b.t) {
					keys = append(keys, c20Ptr(v))
				}
			} else {
				if !c20KeyType(ty) {
					return
				}
				keys = c20Vals(ty)
			}
			// the key types: itself, and as an interface
			kts := []reflect.Type{ty}
			if ty.Implements(tTM) {
				kts = append(kts, tTM, rt[interface {
					encoding.TextMarshaler
					fmt.Stringer
				}]())
			}
			for _, kt := range kts {
				for ki, k := range keys {
					if !k.Type().AssignableTo(kt) || kt.Kind() == reflect.Interface && k.Kind() == reflect.Ptr && k.IsNil() {
						continue
					}
					m := reflect.MakeMap(reflect.MapOf(kt, tInt))
					m.SetMapIndex(k, reflect.ValueOf(5))
					for form := 0; form < 3; form++ {
						var v interface{} = m.Interface()
						switch form {
						case 1:
							v = []interface{}{m.Interface()}
						case 2:
							v = c20Ptr(m).Interface()
						}
						for fail := -1; fail < 1; fail++ {
							if w.Stop() {
								return
							}
							if !w.Begin() {
								continue
							}
							name := func() string {
								return fmt.Sprintf("encode map[%s], key %d, form %d, failing call %d", kt, ki, form, fail)
							}
							w.Announce(name)
							w.Sample(name)
							err := func() (err error) {
								defer catch(&err)
								for _, html := range []bool{true, false} {
									c20Reset(fail)
									sb, se := stdMarshal(v, html)
									slog := c20log.log
									if len(slog) > 0 {
										w.Nontrivial++
									}
									w.States++
									c20Reset(fail)
									jb, je := jzon.NewEncoderConfig(&jzon.EncoderOption{EscapeHTML: html}).Marshal(v)
									w.Transitions++
									if (je == nil) != (se == nil) {
										return fmt.Errorf("error %v, standard library %v", je, se)
									}
									if !eq(slog, c20log.log) {
										return fmt.Errorf("calls %q, standard library %q", c20log.log, slog)
									}
									if se == nil && !bytes.Equal(sb, jb) {
										return fmt.Errorf("output %q, standard library %q", jb, sb)
									}
									if fail == 0 && len(slog) > 0 && !errors.Is(je, c20Err) {
										return fmt.Errorf("error %v, the hook's was %v", je, c20Err)
									}
								}
								return nil
							}()
							if err != nil {
								w.Fail(name(), err)
								return
							}
						}
					}
				}
			}
			stdTy := ty
			if b.flavor == "VB" || b.flavor == "TJ" {
				// with both sets of methods the standard library calls
				// UnmarshalJSON for a key; here it is UnmarshalText
				for _, o := range c20Bases {
					if o.kind == b.kind && o.flavor == "VT" {
						stdTy = o.t
					}
				}
				if unit%2 == 1 {
					stdTy = reflect.PtrTo(stdTy)
				}
			}
			for _, k := range []string{`"a"`, `""`, `"s\u00e9<\ud83d\ude00"`, `"12"`, `"null"`, `"-3"`} {
				mk := func() interface{} { return reflect.New(reflect.MapOf(ty, tInt)).Interface() }
				doc := "{" + k + " : 7 }"
				std := func() interface{} { return reflect.New(reflect.MapOf(stdTy, tInt)).Interface() }
				same := func(a, b interface{}) bool { return c20Any(a) == c20Any(b) }
				if !c20Decode(w, jzon.NewDecoderConfig(nil), mk, std, doc, same, func() string { return fmt.Sprintf("decode %s into map[%s]int", doc, ty) }) {
					return
				}
			}
		},
	}

	ambEngine := &Engine{
		Name: "methods: embedded without promotion", Workers: 1,
		Rule:   "structs that embed several types with methods, so that the methods are not promoted and each embedded field is treated by itself; encoded empty and filled, plain and in every composition of positions, compared with the standard library; counts when a method is called",
		Bounds: "6 struct types x 2 values x compositions of up to 2 positions",
		Units:  func(bool) int { return len(c20Ambs()) },
		Run: func(w *W, unit int) {
			t := c20Ambs()[unit]
			ec := jzon.NewEncoderConfig(nil)
			dc := jzon.NewDecoderConfig(nil)
			compose(2, all, func(ps []c20Pos) bool {
				for k := 0; k < 2; k++ {
					v := reflect.New(t).Elem()
					if k == 1 {
						c20Fill(v)
					}
					for _, p := range ps {
						v = p.f(v)
					}
					if w.Stop() {
						return false
					}
					if !w.Begin() {
						continue
					}
					name := func() string { return fmt.Sprintf("encode %s, value %d%s", t, k, posName(ps)) }
					w.Announce(name)
					w.Sample(name)
					err := func() (err error) {
						defer catch(&err)
						c20Reset(-1)
						sb, se := stdMarshal(v.Interface(), true)
						slog := c20log.log
						w.Nontrivial++
						w.States++
						c20Reset(-1)
						jb, je := ec.Marshal(v.Interface())
						w.Transitions++
						if (je == nil) != (se == nil) {
							return fmt.Errorf("error %v, standard library %v", je, se)
						}
						if se != nil {
							return nil
						}
						if !eq(slog, c20log.log) {
							return fmt.Errorf("calls %q, standard library %q", c20log.log, slog)
						}
						if c20Compact(jb) != string(sb) {
							return fmt.Errorf("output %q, standard library %q", jb, sb)
						}
						return nil
					}()
					if err != nil {
						w.Fail(name(), err)
						return false
					}
				}
				return true
			})
			// decode what the fields are called
			for _, text := range c20Texts {
				mk := func() interface{} { return reflect.New(t).Interface() }
				for i := 0; i < t.NumField(); i++ {
					f := t.Field(i)
					n := strings.Split(f.Tag.Get("json"), ",")[0]
					if n == "" {
						n = f.Name
					}
					doc := `{"` + n + `":` + text + `}`
					if f.Type.Kind() == reflect.Struct && f.Anonymous {
						doc = `{"A":` + text + `}`
					}
					if !c20Decode(w, dc, mk, mk, doc, eq20, func() string { return fmt.Sprintf("decode %s into %s", doc, t) }) {
						return
					}
				}
			}
		},
	}

	regEngine := &Engine{
		Name: "registered converters", Workers: 1,
		Rule:   "a configuration with recording converters registered for one type, a composition of positions, a value or a text; compared with the standard library on a type of the same shape whose methods do what the converters do; and, without the entry, no call is made; counts when a converter is called",
		Bounds: "37 kinds of named type with and without methods of their own, and 10 predeclared or unnamed types; every composition of up to 2 (thorough 3) of 10 positions; all value classes and 7 texts; every single call failing",
		Units:  func(bool) int { return len(c20Regs()) },
		Run: func(w *W, unit int) {
			r := c20Regs()[unit]
			conv := c20Conv{r.t}
			ec := jzon.NewEncoderConfig(&jzon.EncoderOption{EscapeHTML: true, ValEncoders: map[reflect.Type]jzon.ValEncoder{r.t: conv}})
			dc := jzon.NewDecoderConfig(&jzon.DecoderOption{ValDecoders: map[reflect.Type]jzon.ValDecoder{r.t: conv}})
			plainE, plainD := jzon.NewEncoderConfig(nil), jzon.NewDecoderConfig(nil)
			clash := func(ps []c20Pos) bool {
				// the positions themselves hold ints and strings
				for _, p := range ps {
					if strings.HasPrefix(p.name, "structN") || strings.HasPrefix(p.name, "structL") {
						return r.t == tInt || r.t == tStr
					}
				}
				return false
			}
			compose(depth(w.Thorough), all, func(ps []c20Pos) bool {
				if clash(ps) {
					return true
				}
				likes := c20Vals(r.like)
				for vi, v := range c20Vals(r.t) {
					like := likes[vi]
					for _, p := range ps {
						v, like = p.f(v), p.f(like)
					}
					if w.Stop() {
						return false
					}
					if !w.Begin() {
						continue
					}
					name := func() string {
						return fmt.Sprintf("encode %s (registered), value %d%s", r.t, vi, posName(ps))
					}
					w.Announce(name)
					w.Sample(name)
					err := func() (err error) {
						defer catch(&err)
						c20Reset(-1)
						sb, se := stdMarshal(like.Interface(), true)
						slog := c20log.log
						if len(slog) > 0 {
							w.Nontrivial++
						}
						w.States += int64(1 + len(slog))
						for fail := -1; fail < len(slog); fail++ {
							c20Reset(fail)
							jb, je := ec.Marshal(v.Interface())
							w.Transitions++
							if fail >= 0 {
								if !errors.Is(je, c20Err) || len(jb) > 0 {
									return fmt.Errorf("call %d fails: error %v, output %q", fail, je, jb)
								}
								continue
							}
							if (je == nil) != (se == nil) {
								return fmt.Errorf("error %v, expected %v", je, se)
							}
							if se != nil {
								continue
							}
							if !eq(slog, c20log.log) {
								return fmt.Errorf("calls %q, expected %q", c20log.log, slog)
							}
							if c20Compact(jb) != string(sb) {
								return fmt.Errorf("output %q, expected %q", jb, sb)
							}
						}
						if !r.t.Implements(tJM) && !r.t.Implements(tTM) {
							c20Reset(-1)
							plainE.Marshal(v.Interface())
							if len(c20log.log) > 0 {
								return fmt.Errorf("without an entry: calls %q", c20log.log)
							}
						}
						return nil
					}()
					if err != nil {
						w.Fail(name(), err)
						return false
					}
				}
				return true
			})
			compose(depth(w.Thorough), typed, func(ps []c20Pos) bool {
				if clash(ps) {
					return true
				}
				for _, text := range c20Texts {
					ty, like, doc := r.t, r.like, text
					for _, p := range ps {
						ty, like, doc = p.t(ty), p.t(like), p.doc(doc)
					}
					name := func() string { return fmt.Sprintf("decode %q into %s (registered)%s", doc, r.t, posName(ps)) }
					if !c20Decode(w, dc, func() interface{} { return reflect.New(ty).Interface() }, func() interface{} { return reflect.New(like).Interface() }, doc,
						func(a, b interface{}) bool { return c20Any(a) == c20Any(b) }, name) {
						return false
					}
					if !r.t.Implements(tJM) && !r.t.Implements(tTM) && len(ps) < 2 {
						c20Reset(-1)
						plainD.Unmarshal([]byte(doc), reflect.New(ty).Interface())
						if len(c20log.log) > 0 {
							w.Fail(name(), fmt.Errorf("without an entry: calls %q", c20log.log))
							return false
						}
					}
				}
				return true
			})
		},
	}

	// the same again with every kind of error, in fewer positions
	var again []*Engine
	for _, inner := range []*Engine{encEngine, decEngine, keyEngine, regEngine} {
		inner := inner
		again = append(again, &Engine{
			Name: inner.Name + ", kinds of errors", Workers: 1,
			Rule:   "the cases of the engine \"" + inner.Name + "\" with at most one position, every single method call failing with every kind of error",
			Bounds: fmt.Sprintf("%d errors: those of io and jzon, wrapped ones, ones without text, with methods, of several types", len(c20Errs)),
			Units:  func(th bool) int { return inner.Units(th) * len(c20Errs) },
			Run: func(w *W, unit int) {
				old := c20Err
				c20Depth, c20Err = 1, c20Errs[unit%len(c20Errs)]
				defer func() { c20Depth, c20Err = 0, old }()
				inner.Run(w, unit/len(c20Errs))
			},
		})
	}

	register(&Property{
		ID: "C20", Shards: 8,
		Engines: append([]*Engine{encEngine, decEngine, keyEngine, ambEngine, regEngine}, again...),
		Assumptions: []string{
			"the encoder model (which methods a value has at a position) follows the README: elements and fields also have the methods with pointer receivers; it is bound to the code by running both on every case and to the standard library by the comparison through a pointer",
			"conversion methods do not keep the bytes they are given",
		},
	})
}

// channels are compared by capacity
func eq20(a, b interface{}) bool {
	return c20Any(a) == c20Any(b) && reflect.TypeOf(a) == reflect.TypeOf(b)
}
