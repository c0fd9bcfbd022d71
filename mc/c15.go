package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"unsafe"

	"github.com/zerosnake0/jzon"
)

// C15: histories of operations that share pools and configurations.

// A histOp performs one public operation.  The text it returns describes its
// whole outcome; the live values are kept by the caller and must never change.
type histOp struct {
	name string
	f    func(h *hist) string
}

type hist struct {
	ec   []*jzon.EncoderConfig
	dc   []*jzon.DecoderConfig
	live []liveVal
	it   *jzon.Iterator // for the single-iterator engine
	s    *jzon.Streamer
}

type liveVal struct {
	op   int
	snap string
	v    func() string
}

func (h *hist) keep(v func() string) { h.live = append(h.live, liveVal{len(h.live), v(), v}) }

func outErr(err error) string {
	if err == nil {
		return "ok"
	}
	return "error " + err.Error()
}

// text of a value with map keys sorted, all pointers followed
func deep(v interface{}) string { return deepv(reflect.ValueOf(v), 0) }
func deepv(v reflect.Value, d int) string {
	if !v.IsValid() {
		return "nil"
	}
	if d > 40 {
		return "..."
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "nilptr"
		}
		return "&" + deepv(v.Elem(), d+1)
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return v.Elem().Type().String() + ":" + deepv(v.Elem(), d+1)
	case reflect.Slice:
		if v.IsNil() {
			return "nilslice"
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return fmt.Sprintf("%q", v.Bytes())
		}
		fallthrough
	case reflect.Array:
		var sb strings.Builder
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			sb.WriteString(deepv(v.Index(i), d+1))
			sb.WriteByte(' ')
		}
		sb.WriteByte(']')
		return sb.String()
	case reflect.Map:
		if v.IsNil() {
			return "nilmap"
		}
		var l []string
		for _, k := range v.MapKeys() {
			l = append(l, deepv(k, d+1)+"="+deepv(v.MapIndex(k), d+1))
		}
		sortStrings(l)
		return "{" + strings.Join(l, " ") + "}"
	case reflect.Struct:
		var sb strings.Builder
		sb.WriteByte('(')
		for i := 0; i < v.NumField(); i++ {
			sb.WriteString(deepv(v.Field(i), d+1))
			sb.WriteByte(' ')
		}
		sb.WriteByte(')')
		return sb.String()
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprint(v.Uint())
	case reflect.Float32, reflect.Float64:
		return fmt.Sprint(math.Float64bits(v.Float()))
	}
	return v.Kind().String()
}

func sortStrings(l []string) {
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && l[j-1] > l[j]; j-- {
			l[j-1], l[j] = l[j], l[j-1]
		}
	}
}

// decode keeps the destination and checks that the input is untouched; the
// input is overwritten afterwards, so a result that aliases it is noticed
func (h *hist) decode(p interface{}, text string, f func(b []byte, p interface{}) error) string {
	b := []byte(text)
	err := f(b, p)
	if string(b) != text {
		return fmt.Sprintf("INPUT CHANGED to %q", b)
	}
	snap := deep(p)
	for i := range b {
		b[i] = '#'
	}
	if err == nil {
		if s := deep(p); s != snap {
			return fmt.Sprintf("RESULT ALIASES THE INPUT: %s", s)
		}
		h.keep(func() string { return deep(p) })
		return "ok " + snap
	}
	// after an error the destination is unspecified
	return outErr(err)
}

// encode keeps the output bytes
func (h *hist) encode(b []byte, err error) string {
	if err != nil {
		return fmt.Sprintf("%s with %q", outErr(err), b)
	}
	h.keep(func() string { return string(b) })
	return "ok " + string(b)
}

var longText = `{"k":"` + strings.Repeat("0123456789", 150) + `","t":[1,2,3]}`
var deepText = strings.Repeat(`[{"a":`, 70) + "1" + strings.Repeat("}]", 70)

type panicHook struct{}

func (panicHook) MarshalJSON() ([]byte, error)  { point(); panic("hook panics") }
func (*panicHook) UnmarshalJSON(b []byte) error { point(); panic("hook panics") }

// hooks that use the library themselves
type nestHook struct {
	V interface{}
	E string
}

func (n nestHook) MarshalJSON() ([]byte, error) {
	point()
	if _, err := jzon.Marshal(FailText{}); err == nil {
		return nil, errors.New("nested failure missing")
	}
	return jzon.Marshal([]interface{}{"nest", n.V, "<"})
}
func (n *nestHook) UnmarshalJSON(b []byte) error {
	point()
	var x S11
	n.E = outErr(jzon.Unmarshal([]byte(`{"F3":[`), &x))
	return jzon.Unmarshal(b, &n.V)
}

// a registered decoder which uses the iterator's context
type ctxVal struct{ S string }
type ctxDec struct{}

func (ctxDec) Decode(p unsafe.Pointer, it *jzon.Iterator, o *jzon.DecOpts) error {
	point()
	s, err := it.ReadString()
	if err != nil {
		return err
	}
	(*ctxVal)(p).S = fmt.Sprintf("%s/%v", s, it.Context)
	it.Context = s
	return nil
}

type ctxEnc struct{}

func (ctxEnc) IsEmpty(p unsafe.Pointer) bool { return false }
func (ctxEnc) Encode(p unsafe.Pointer, s *jzon.Streamer, o *jzon.EncOpts) {
	point()
	s.String(fmt.Sprintf("%s/%v", (*ctxVal)(p).S, s.Context))
	s.Context = (*ctxVal)(p).S
}

func newHist() *hist {
	return &hist{
		ec: []*jzon.EncoderConfig{jzon.DefaultEncoderConfig, c15NoHTML, c15Ctx},
		dc: []*jzon.DecoderConfig{jzon.DefaultDecoderConfig, c15Number, c15Dis, c15CtxD},
	}
}

var (
	c15NoHTML = jzon.NewEncoderConfig(&jzon.EncoderOption{})
	c15Ctx    = jzon.NewEncoderConfig(&jzon.EncoderOption{EscapeHTML: true, ValEncoders: map[reflect.Type]jzon.ValEncoder{rt[ctxVal](): ctxEnc{}}})
	c15Number = jzon.NewDecoderConfig(&jzon.DecoderOption{UseNumber: true, CaseSensitive: true})
	c15Dis    = jzon.NewDecoderConfig(&jzon.DecoderOption{DisallowUnknownFields: true})
	c15CtxD   = jzon.NewDecoderConfig(&jzon.DecoderOption{ValDecoders: map[reflect.Type]jzon.ValDecoder{rt[ctxVal](): ctxDec{}}})
)

func recovered(f func() string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("panic %v", r)
			if _, ok := r.(runtime.Error); ok {
				s = "RUNTIME " + s
			}
		}
	}()
	return f()
}

func un(c int, p func() interface{}, text string) histOp {
	return histOp{fmt.Sprintf("Unmarshal%d(%T, %s)", c, p(), clip(text, 60)), func(h *hist) string {
		return h.decode(p(), text, h.dc[c].Unmarshal)
	}}
}

func rd(c int, p func() interface{}, text string, chunk int) histOp {
	return histOp{fmt.Sprintf("UnmarshalFromReader%d(%T, %s by %d)", c, p(), clip(text, 60), chunk), func(h *hist) string {
		return h.decode(p(), text, func(b []byte, p interface{}) error { return h.dc[c].UnmarshalFromReader(newChunk(b, chunk), p) })
	}}
}

func pnew[T any]() func() interface{} { return func() interface{} { return new(T) } }

func histOps() []histOp {
	anyp := pnew[interface{}]()
	ops := []histOp{
		un(0, anyp, `{"a":[1,{"b":"\u00e9"}],"c":null}`),
		un(0, anyp, deepText),
		un(0, anyp, strings.Repeat(`{"a":[`, 40)),
		un(1, anyp, `[1.50,{"n":2}]`),
		un(0, pnew[S2](), `{"a":5,"b":"x\ty","zz":[[1]]}`),
		un(2, pnew[S2](), `{"A":5,"zz":1}`),
		un(2, pnew[S11](), `{"f3":5,"F10":7}`),
		un(1, pnew[S2](), `{"a":5,"B":"q"}`),
		un(0, pnew[json.RawMessage](), ` {"r" : [1, 2]} `),
		un(0, pnew[[]byte](), `"AQIDBA=="`),
		un(0, pnew[string](), `"\ud83d\ude00 plain"`),
		un(0, pnew[string](), `"\ud83d`),
		un(0, pnew[string](), `"bad \x"`),
		un(0, pnew[map[string][]string](), `{"k":["v","w"],"l":null}`),
		un(0, pnew[nestHook](), `{"in":[1,2]}`),
		un(0, pnew[FailJSON](), `{"in":[1,2]}`),
		un(0, pnew[[]int](), `[1,2,300000]`),
		un(0, pnew[map[int]*S2](), `{"1":{"A":1},"2":null}`),
		{"Unmarshal(panicking hook)", func(h *hist) string {
			return recovered(func() string { return outErr(jzon.Unmarshal([]byte(`[{"x":1}]`), new([]panicHook))) })
		}},
		{"Unmarshal(nil)", func(h *hist) string { return outErr(jzon.Unmarshal([]byte(`1`), nil)) }},
		{"Unmarshal(interface loop)", func(h *hist) string {
			var x interface{}
			x = &x
			return outErr(jzon.Unmarshal([]byte(`[1]`), &x))
		}},
		{"Unmarshal(interface chain)", func(h *hist) string {
			var n int
			var a interface{} = &n
			var b interface{} = &a
			e := jzon.Unmarshal([]byte(`17`), &b)
			return fmt.Sprint(e, n)
		}},
		rd(0, pnew[json.RawMessage](), longText, 100),
		rd(0, anyp, longText, 700),
		rd(0, pnew[json.RawMessage](), longText[:900], 100),
		rd(0, pnew[S2](), `{"A":12,"skip":"`+strings.Repeat("s", 130)+`","b":"y"}`, 1),
		rd(0, pnew[[]JSONStruct](), `[1, "two" ,{"three":[3]}]`, 3),
		rd(0, pnew[FailJSON](), `{"three":[3]}`, 2),
		{"UnmarshalFromReader(failing)", func(h *hist) string {
			r := newChunk([]byte(`{"a":[1,2,`), 4)
			r.failAt, r.err = 10, errFault
			return outErr(jzon.UnmarshalFromReader(r, new(interface{})))
		}},
		{"UnmarshalFromReader(raw, failing)", func(h *hist) string {
			r := newChunk([]byte(`{"a":[1,2,`), 4)
			r.failAt, r.err = 10, errFault
			return outErr(jzon.UnmarshalFromReader(r, new(json.RawMessage)))
		}},
		{"Decoder UseNumber, DisallowUnknownFields", func(h *hist) string {
			d := jzon.NewDecoder(newChunk([]byte(`1.50 {"A":1,"zz":2} 5`), 5))
			d.UseNumber()
			d.DisallowUnknownFields()
			var x, y interface{}
			var s S2
			e1 := d.Decode(&x)
			e2 := d.Decode(&s)
			e3 := d.Decode(&y)
			d.Release()
			h.keep(func() string { return deep(x) })
			return fmt.Sprint(deep(x), e1, e2, e3)
		}},
		{"Decoder, released in mid-stream", func(h *hist) string {
			d := jzon.NewDecoder(newChunk([]byte(` {"a":1.5} [2] "rest of the stream`), 9))
			var x, y interface{}
			e1, off := d.Decode(&x), d.InputOffset()
			e2, m := d.Decode(&y), d.More()
			o2 := d.InputOffset()
			d.Release()
			h.keep(func() string { return deep(x) + deep(y) })
			return fmt.Sprint(deep(x), deep(y), e1, e2, off, o2, m)
		}},
		{"Decoder", func(h *hist) string {
			d := jzon.NewDecoder(newChunk([]byte(`1.0 {"A":1,"zz":2}`), 64))
			var x interface{}
			var s S2
			o0 := d.InputOffset()
			e1 := d.Decode(&x)
			e2 := d.Decode(&s)
			b, _ := io.ReadAll(d.Buffered())
			d.Release()
			return fmt.Sprint(o0, deep(x), deep(s), e1, e2, string(b))
		}},
		{"Iterator, partly read", func(h *hist) string {
			it := jzon.NewIterator()
			ctx, buf := it.Context, string(it.Buffer())
			it.ResetBytes([]byte(`[1,"a\nb",{"k`))
			it.Context = "left over"
			m, e := it.ReadArrayBegin()
			n, e2 := it.ReadInt()
			it.Release()
			return fmt.Sprint(ctx, buf, m, e, n, e2)
		}},
		{"Iterator, fresh", func(h *hist) string {
			it := jzon.NewIterator()
			ctx, buf := it.Context, string(it.Buffer())
			_, e := it.Read()
			vt, e2 := it.NextValueType()
			it.Release()
			return fmt.Sprint(ctx, buf, e, vt, e2)
		}},
		{"Iterator over reader, strings", func(h *hist) string {
			it := jzon.NewIterator()
			it.Reset(newChunk([]byte(`["ab\ncd","plain string that is long","`+strings.Repeat("z", 200)+`"]`), 7))
			var out []string
			it.ReadArrayCB(func(it *jzon.Iterator) error {
				s, err := it.ReadString()
				out = append(out, s)
				return err
			})
			it.Release()
			h.keep(func() string { return deep(out) })
			return deep(out)
		}},
		{"Iterator raw from reader", func(h *hist) string {
			it := jzon.NewIterator()
			it.Reset(newChunk([]byte(` [1 , {"a":2}] 7`), 3))
			b, e := it.ReadRaw()
			n, e2 := it.ReadInt()
			it.Release()
			h.keep(func() string { return string(b) })
			return fmt.Sprintf("%q %v %d %v", b, e, n, e2)
		}},
		{"Iterator Reset(nil)", func(h *hist) string {
			it := jzon.NewIterator()
			it.ResetBytes([]byte("[1,2"))
			it.Reset(nil)
			b := string(it.Buffer())
			e := it.Skip()
			it.Release()
			return fmt.Sprint(b, e)
		}},
		{"Iterator context", func(h *hist) string {
			return h.decode(new([]ctxVal), `["a","b","c"]`, h.dc[3].Unmarshal)
		}},
		{"Valid", func(h *hist) string {
			return fmt.Sprint(jzon.Valid([]byte(`{"a":[1,2,{"b":[[]]}]} `)), jzon.Valid([]byte(`[1`)), jzon.Valid([]byte(strings.Repeat("[{\"a\":", 50))), jzon.Valid([]byte(deepText)))
		}},
		{"Marshal", func(h *hist) string { return h.encode(jzon.Marshal(S2{1, "x<y"})) }},
		{"Marshal long", func(h *hist) string { return h.encode(jzon.Marshal([]string{strings.Repeat("long<", 60), "b"})) }},
		{"Marshal failing hook", func(h *hist) string { return h.encode(jzon.Marshal([]interface{}{1, "part", FailText{}})) }},
		{"Marshal NaN", func(h *hist) string { return h.encode(jzon.Marshal(map[string]float64{"a": math.NaN()})) }},
		{"Marshal unsupported", func(h *hist) string { return h.encode(jzon.Marshal([]chan int{nil})) }},
		{"Marshal panicking hook", func(h *hist) string {
			return recovered(func() string { return h.encode(jzon.Marshal([]interface{}{"x", panicHook{}})) })
		}},
		{"Marshal nested hook", func(h *hist) string { return h.encode(jzon.Marshal([]nestHook{{V: 1}, {V: "<"}})) }},
		{"Marshal no html", func(h *hist) string { return h.encode(h.ec[1].Marshal(map[string]string{"<": ">"})) }},
		{"Marshal context", func(h *hist) string { return h.encode(h.ec[2].Marshal([]ctxVal{{"a"}, {"b"}})) }},
		{"Encoder, escaping off", func(h *hist) string {
			var bb bytes.Buffer
			e := jzon.NewEncoder(&bb)
			e.SetEscapeHTML(false)
			e1, e2 := e.Encode("<"), e.Encode([]int{1})
			e.Release()
			return fmt.Sprint(bb.String(), e1, e2)
		}},
		{"Encoder", func(h *hist) string {
			var bb bytes.Buffer
			e := jzon.NewEncoder(&bb)
			e1, e2 := e.Encode("<"), e.Encode(S2{1, "b"})
			e.Release()
			return fmt.Sprint(bb.String(), e1, e2)
		}},
		{"Encoder, failing value", func(h *hist) string {
			var bb bytes.Buffer
			e := jzon.NewEncoder(&bb)
			e1, e2 := e.Encode([]interface{}{"part", FailJSON{}}), e.Encode(1)
			e.Release()
			return fmt.Sprint(bb.String(), e1, e2)
		}},
		{"Encoder, failing writer", func(h *hist) string {
			e := jzon.NewEncoder(errWriter{})
			e1, e2 := e.Encode("lost text"), e.Encode(1)
			e.Release()
			return fmt.Sprint(e1, e2)
		}},
		{"Streamer, not flushed", func(h *hist) string {
			var bb bytes.Buffer
			s := jzon.NewStreamer()
			ctx, err := s.Context, s.Error
			s.Reset(&bb)
			s.Context = "left over"
			s.EscapeHTML(false)
			s.ArrayStart().String("<unflushed").Int(1)
			s.Release()
			return fmt.Sprint(ctx, err, bb.String())
		}},
		{"Streamer, fresh", func(h *hist) string {
			s := jzon.NewStreamer()
			ctx, err := s.Context, s.Error
			s.ObjectStart().Field("<").Int(1)
			e := s.Flush()
			var bb bytes.Buffer
			s.Reset(&bb)
			s.Value([]string{"<"})
			e2 := s.Flush()
			s.Release()
			return fmt.Sprint(ctx, err, e, bb.String(), e2)
		}},
		{"Streamer, released with an error", func(h *hist) string {
			var bb bytes.Buffer
			s := h.ec[1].NewStreamer()
			s.Reset(&bb)
			s.ArrayStart().Int(1).Value(FailJSON{})
			e := s.Error
			s.Release()
			return fmt.Sprint(bb.String(), e)
		}},
	}
	return ops
}

type errWriter struct{}

func (errWriter) Write(p []byte) (int, error) { point(); return 0, errWrite }

var (
	histOnce sync.Once
	histExp  []string
)

// emptyPools drops every recycled object
func emptyPools() {
	runtime.GC()
	runtime.GC()
	runtime.GC()
}

// the outcome of every operation on fresh objects
func histExpected(ops []histOp) []string {
	histOnce.Do(func() {
		for _, o := range ops {
			emptyPools()
			histExp = append(histExp, recovered(func() string { return o.f(newHist()) }))
		}
	})
	return histExp
}

func runHist(ops []histOp, exp []string, seq []int, h *hist) (err error) {
	defer catch(&err)
	for n, i := range seq {
		k := len(h.live)
		if got := ops[i].f(h); got != exp[i] {
			return fmt.Errorf("step %d %s: %s; alone: %s", n, ops[i].name, clip(got, 600), clip(exp[i], 600))
		}
		for _, l := range h.live[:k] {
			if s := l.v(); s != l.snap {
				return fmt.Errorf("step %d %s changed an earlier result: %s became %s", n, ops[i].name, clip(l.snap, 500), clip(s, 500))
			}
		}
	}
	return nil
}

func histEngine(name, rule, bounds string, ops func() []histOp, exp func([]histOp) []string, mk func() *hist, done func(h *hist), quick, thorough int) *Engine {
	return &Engine{
		Name: name, Rule: rule, Bounds: bounds,
		Units: func(bool) int { return len(ops()) },
		Run: func(w *W, unit int) {
			l := ops()
			ex := exp(l)
			n := quick
			if w.Thorough {
				n = thorough
			}
			product(n-1, len(l), func(v []int) bool {
				if !w.Begin() {
					return !w.Stop()
				}
				seq := append([]int{unit}, v...)
				desc := func() string {
					var x []string
					for _, i := range seq {
						x = append(x, l[i].name)
					}
					return strings.Join(x, "; ")
				}
				w.Announce(desc)
				w.Sample(desc)
				w.States++
				w.Transitions += int64(n)
				w.Nontrivial++
				h := mk()
				err := runHist(l, ex, seq, h)
				if done != nil {
					done(h)
				}
				if err != nil {
					w.Fail(desc(), err)
					return false
				}
				return !w.Stop()
			})
		},
	}
}

// ---- one iterator, one streamer --------------------------------------------

func itOnce(name string, f func(it *jzon.Iterator) string) histOp {
	return histOp{name, func(h *hist) string { return f(h.it) }}
}

func iterHistOps() []histOp {
	rdr := func(s string, n int) *chunkReader { return newChunk([]byte(s), n) }
	return []histOp{
		itOnce("Unmarshal ok", func(it *jzon.Iterator) string {
			var x interface{}
			e := it.Unmarshal([]byte(`{"a":[1,"b\n"]}`), &x)
			return fmt.Sprint(deep(x), e)
		}),
		itOnce("Unmarshal remaining data", func(it *jzon.Iterator) string {
			var x S2
			e := it.Unmarshal([]byte(`{"A":1} x`), &x)
			return fmt.Sprint(deep(x), e)
		}),
		itOnce("Unmarshal truncated", func(it *jzon.Iterator) string {
			var x interface{}
			return fmt.Sprint(it.Unmarshal([]byte(`{"a":[1,{"k":"v`), &x))
		}),
		itOnce("Unmarshal deep", func(it *jzon.Iterator) string {
			var x interface{}
			e := it.Unmarshal([]byte(deepText), &x)
			return fmt.Sprint(deep(x), e)
		}),
		itOnce("Valid ok", func(it *jzon.Iterator) string { return fmt.Sprint(it.Valid([]byte(deepText))) }),
		itOnce("Valid bad", func(it *jzon.Iterator) string {
			return fmt.Sprint(it.Valid([]byte(`[{"a":[[`)), it.Valid([]byte(`[1}`)), it.Valid([]byte(`{"a":[}`)))
		}),
		itOnce("SkipObject, more data", func(it *jzon.Iterator) string {
			it.ResetBytes([]byte(` {"a":[{}]} [2]`))
			e := it.SkipObject()
			return fmt.Sprint(e, string(it.Buffer()))
		}),
		itOnce("SkipArray bad", func(it *jzon.Iterator) string {
			it.ResetBytes([]byte(`[[{"a":[}`))
			e := it.SkipArray()
			return fmt.Sprint(e)
		}),
		itOnce("reader by 1", func(it *jzon.Iterator) string {
			var x interface{}
			e := it.UnmarshalFromReader(rdr(`{"a":[1,"b\u00e9"]}`, 1), &x)
			return fmt.Sprint(deep(x), e)
		}),
		itOnce("reader long", func(it *jzon.Iterator) string {
			var x interface{}
			e := it.UnmarshalFromReader(rdr(longText, 600), &x)
			return fmt.Sprint(deep(x), e)
		}),
		itOnce("reader raw long", func(it *jzon.Iterator) string {
			it.Reset(rdr(longText+" 5", 600))
			b, e := it.SkipRaw()
			n, e2 := it.ReadInt()
			return fmt.Sprint(string(b), e, n, e2)
		}),
		itOnce("reader raw truncated", func(it *jzon.Iterator) string {
			it.Reset(rdr(longText[:700], 100))
			b, e := it.SkipRaw()
			return fmt.Sprint(string(b), e)
		}),
		itOnce("reader failing", func(it *jzon.Iterator) string {
			r := rdr(`{"a":[1,2,`, 4)
			r.failAt, r.err = 7, errFault
			var x interface{}
			return fmt.Sprint(it.UnmarshalFromReader(r, &x))
		}),
		itOnce("reader stream", func(it *jzon.Iterator) string {
			it.Reset(rdr(`1 "two" [3] {"four":4} tru`, 5))
			s := ""
			for i := 0; i < 6; i++ {
				v, e := it.Read()
				s += fmt.Sprint(deep(v), e, ";")
				if e != nil {
					break
				}
			}
			return s
		}),
		itOnce("strings", func(it *jzon.Iterator) string {
			it.ResetBytes([]byte(`"a\tb" "plain" "` + strings.Repeat("x", 100) + `\n"`))
			a, e := it.ReadStringAsSlice()
			s := string(a)
			b, e2 := it.ReadString()
			c, e3 := it.ReadStringAndAppend([]byte("pre"))
			return fmt.Sprint(s, e, b, e2, string(c), e3)
		}),
		itOnce("string in surrogate", func(it *jzon.Iterator) string {
			it.ResetBytes([]byte(`"\ud83d`))
			_, e := it.ReadString()
			return fmt.Sprint(e)
		}),
		itOnce("context set", func(it *jzon.Iterator) string {
			it.ResetBytes([]byte(`1`))
			c := it.Context
			it.Context = "left"
			n, e := it.ReadInt()
			return fmt.Sprint(c, n, e)
		}),
		itOnce("array protocol, abandoned", func(it *jzon.Iterator) string {
			it.ResetBytes([]byte(`[1,[2,{"a":3`))
			m, e := it.ReadArrayBegin()
			n, e2 := it.ReadInt()
			m2, e3 := it.ReadArrayMore()
			return fmt.Sprint(m, e, n, e2, m2, e3)
		}),
		itOnce("interface loop", func(it *jzon.Iterator) string {
			var x interface{}
			x = &x
			return fmt.Sprint(it.Unmarshal([]byte(`[1]`), &x))
		}),
		itOnce("interface chain", func(it *jzon.Iterator) string {
			var n int
			var a interface{} = &n
			var b interface{} = &a
			e := it.Unmarshal([]byte(`[3`), &b)
			e2 := it.Unmarshal([]byte(`17`), &b)
			return fmt.Sprint(e, e2, n)
		}),
		itOnce("Reset nil", func(it *jzon.Iterator) string {
			it.Reset(nil)
			e := it.Skip()
			return fmt.Sprint(e, len(it.Buffer()))
		}),
		itOnce("bytes.Buffer", func(it *jzon.Iterator) string {
			it.Reset(bytes.NewBufferString(`[1,2] 3`))
			v, e := it.Read()
			return fmt.Sprint(deep(v), e, string(it.Buffer()))
		}),
		itOnce("failing hook from reader", func(it *jzon.Iterator) string {
			var x []FailJSON
			return fmt.Sprint(it.UnmarshalFromReader(rdr(`[ {"a":[1,2]} ]`, 2), &x) != nil)
		}),
	}
}

func streamHistOps() []histOp {
	st := func(name string, f func(s *jzon.Streamer, bb *bytes.Buffer) string) histOp {
		return histOp{name, func(h *hist) string {
			bb := &bytes.Buffer{}
			s := h.s
			s.Reset(bb)
			s.EscapeHTML(true)
			return f(s, bb)
		}}
	}
	return []histOp{
		st("array", func(s *jzon.Streamer, bb *bytes.Buffer) string {
			s.ArrayStart().Int(1).String("<").ArrayEnd()
			e := s.Flush()
			return fmt.Sprint(bb, e)
		}),
		st("unflushed", func(s *jzon.Streamer, bb *bytes.Buffer) string {
			s.ArrayStart().Int(1).String(strings.Repeat("y", 90))
			return fmt.Sprint(bb)
		}),
		st("in an object", func(s *jzon.Streamer, bb *bytes.Buffer) string {
			s.ObjectStart().Field("k")
			e := s.Flush()
			return fmt.Sprint(bb, e)
		}),
		st("after a value", func(s *jzon.Streamer, bb *bytes.Buffer) string {
			s.Int(5)
			e := s.Flush()
			return fmt.Sprint(bb, e)
		}),
		st("failing", func(s *jzon.Streamer, bb *bytes.Buffer) string {
			s.Value([]interface{}{1, FailJSON{}})
			e := s.Flush()
			return fmt.Sprint(bb, e, s.Error)
		}),
		st("unescaped", func(s *jzon.Streamer, bb *bytes.Buffer) string {
			s.EscapeHTML(false)
			s.Value(map[string]string{"<": ">"})
			e := s.Flush()
			return fmt.Sprint(bb, e)
		}),
		st("context", func(s *jzon.Streamer, bb *bytes.Buffer) string {
			c := s.Context
			s.Context = "left"
			s.Null()
			e := s.Flush()
			return fmt.Sprint(c, bb, e)
		}),
		st("struct", func(s *jzon.Streamer, bb *bytes.Buffer) string {
			s.Value(&Mixed{S: "<", L: []int{1}})
			e := s.Flush()
			return fmt.Sprint(bb, e)
		}),
		st("failing writer", func(s *jzon.Streamer, bb *bytes.Buffer) string {
			s.Reset(errWriter{})
			s.String("lost")
			return fmt.Sprint(s.Flush(), s.Flush())
		}),
		st("no writer", func(s *jzon.Streamer, bb *bytes.Buffer) string {
			s.Reset(nil)
			s.String("lost")
			return fmt.Sprint(s.Flush())
		}),
	}
}

var (
	itExpOnce, stExpOnce sync.Once
	iterExp, stExp       []string
)

// ---- type caches --------------------------------------------------------------

type (
	CyA struct {
		V int
		B *CyB
		L []CyA
	}
	CyB struct {
		A *CyA
		C map[string]CyC
		M string `json:"m,omitempty"`
	}
	CyC struct {
		A []*CyA
		B **CyB
		X interface{}
	}
	CyBad struct {
		A *CyA
		C chan int
	}
	CyUseBad struct {
		P *CyBad
		V int
	}
	CyHook struct {
		H JSONStruct
		P *JSONStruct
		T map[TextInt]*CyHook
	}
	CyEmb struct {
		*CyEmbIn
		Self *CyEmb
	}
	CyEmbIn struct {
		Z int
		E *CyEmb
	}
	CySlice []CySlice
	CyMap   map[string]CyMap
	CyPtr   *CyPtr
	CyArr   [2]*CyArr
	CyOne   struct{ Next *CyOne }
	CyKeyed map[TextInt][]CyKeyed
)

type cacheOp struct {
	name string
	f    func(ec *jzon.EncoderConfig, dc *jzon.DecoderConfig) string
}

func encOp(name string, v interface{}) cacheOp {
	return cacheOp{"Marshal " + name, func(ec *jzon.EncoderConfig, dc *jzon.DecoderConfig) string {
		b, e := ec.Marshal(v)
		c, ok := jcanon(b)
		if e == nil && !ok {
			return fmt.Sprintf("malformed %q", b)
		}
		return c + outErr(e)
	}}
}

func decOp[T any](text string) cacheOp {
	return cacheOp{fmt.Sprintf("Unmarshal %s %s", rt[T](), text), func(ec *jzon.EncoderConfig, dc *jzon.DecoderConfig) string {
		p := new(T)
		e := dc.Unmarshal([]byte(text), p)
		if e != nil {
			return outErr(e)
		}
		return deep(p)
	}}
}

func cacheOps() []cacheOp {
	a := &CyA{V: 1, B: &CyB{C: map[string]CyC{"x": {X: "s"}}, M: "m"}, L: []CyA{{V: 2}}}
	b := CyB{A: a}
	pb := &b
	var cp CyPtr
	cp = &cp
	_ = cp
	return []cacheOp{
		encOp("CyA", *a), encOp("*CyA", a), encOp("CyB", b), encOp("CyC", CyC{A: []*CyA{a}, B: &pb}), encOp("CyBad", CyBad{}), encOp("CyUseBad", CyUseBad{V: 3}), encOp("CyHook", CyHook{T: map[TextInt]*CyHook{1: {}}}),
		encOp("CyEmb", CyEmb{&CyEmbIn{1, &CyEmb{}}, &CyEmb{}}), encOp("CySlice", CySlice{{}, {{}}}), encOp("CyMap", CyMap{"a": {"b": nil}}), encOp("CyArr", CyArr{}), encOp("CyOne", CyOne{&CyOne{}}), encOp("[]CyOne", []CyOne{{&CyOne{}}}), encOp("chan", make(chan int)), encOp("CyKeyed", CyKeyed{1: {nil}}),
		encOp("map[string]*CyB", map[string]*CyB{"q": {}}),
		decOp[CyA](`{"V":1,"B":{"A":{"V":2},"C":{"k":{"X":1}}},"L":[{"V":3}]}`), decOp[*CyA](`{"V":1,"L":[]}`), decOp[CyB](`{"A":{"B":{"m":"q"}},"C":{}}`), decOp[CyC](`{"A":[{"V":5}],"B":{"m":"w"}}`), decOp[CyBad](`{"A":null,"C":1}`), decOp[CyUseBad](`{"V":3,"P":null}`), decOp[CyHook](`{"H":1,"P":[2],"T":{"t<1>":{"H":3}}}`),
		decOp[CyEmb](`{"Z":1,"E":{"Z":2},"Self":{"Z":3}}`), decOp[CySlice](`[[],[[]]]`), decOp[CyMap](`{"a":{"b":{}}}`), decOp[CyArr](`[[null],null]`), decOp[CyOne](`{"next":{"Next":{}}}`), decOp[[]CyOne](`[{"Next":{}},{}]`), decOp[chan int](`1`), decOp[CyKeyed](`{"t<1>":[{},null]}`),
		decOp[map[string]*CyB](`{"q":{"m":"z"}}`),
	}
}

func init() {
	register(&Property{ID: "C15", Engines: []*Engine{
		histEngine("pools",
			"every history over the alphabet of public operations (decoding, encoding, streaming, iterating; successful, failing, panicking hooks, per-use overrides, contexts, abandoned objects), run on recycled objects: each outcome equals the outcome on fresh objects (pools emptied), inputs are unchanged, every result kept from earlier steps is unchanged, and no result aliases the input",
			"histories of length 3 over 56 operations (thorough 4)",
			histOps, histExpected, newHist, nil, 3, 4),
		histEngine("one iterator",
			"every history of uses of one iterator (bytes and readers, completed, failed and abandoned reads, deep skips, contexts, interface chains): each use has the outcome of its first use on a fresh iterator",
			"histories of length 4 over 23 uses (thorough 5)",
			iterHistOps, func(l []histOp) []string {
				itExpOnce.Do(func() {
					for _, o := range l {
						emptyPools()
						iterExp = append(iterExp, o.f(&hist{it: jzon.NewIterator()}))
					}
				})
				return iterExp
			}, func() *hist { return &hist{it: jzon.NewIterator()} }, func(h *hist) { h.it.Release() }, 4, 5),
		histEngine("one streamer",
			"every history of uses of one streamer (completed, unflushed, failing, failing writer, contexts): each use has the outcome of its first use on a fresh streamer",
			"histories of length 6 over 10 uses (thorough 7)",
			streamHistOps, func(l []histOp) []string {
				stExpOnce.Do(func() {
					for _, o := range l {
						emptyPools()
						stExp = append(stExp, o.f(&hist{s: jzon.NewStreamer()}))
					}
				})
				return stExp
			}, func() *hist { return &hist{s: jzon.NewStreamer()} }, func(h *hist) { h.s.Release() }, 6, 7),
		{
			Name:   "type caches",
			Rule:   "every history of first and later uses of mutually recursive, embedded, hooked and unsupported types on one fresh configuration: each outcome equals the outcome on a configuration of its own",
			Bounds: "histories of length 4 over 32 uses (thorough 5)",
			Units:  func(bool) int { return len(cacheOps()) },
			Run: func(w *W, unit int) {
				l := cacheOps()
				exp := make([]string, len(l))
				for i, o := range l {
					exp[i] = recovered(func() string { return o.f(jzon.NewEncoderConfig(nil), jzon.NewDecoderConfig(nil)) })
				}
				n := 4
				if w.Thorough {
					n = 5
				}
				product(n-1, len(l), func(v []int) bool {
					if !w.Begin() {
						return !w.Stop()
					}
					seq := append([]int{unit}, v...)
					desc := func() string {
						var x []string
						for _, i := range seq {
							x = append(x, l[i].name)
						}
						return strings.Join(x, "; ")
					}
					w.Announce(desc)
					w.Sample(desc)
					w.States++
					w.Transitions += int64(n)
					w.Nontrivial++
					ec, dc := jzon.NewEncoderConfig(nil), jzon.NewDecoderConfig(nil)
					for k, i := range seq {
						if got := recovered(func() string { return l[i].f(ec, dc) }); got != exp[i] {
							w.Fail(desc(), fmt.Errorf("step %d: %s; alone: %s", k, got, exp[i]))
							return false
						}
					}
					return !w.Stop()
				})
			},
		},
		{
			Name:   "nesting after nesting",
			Rule:   "every pair of uses of one iterator over nested texts (all arrays, all objects, two alternations, and mixtures) of the chosen depths, read completely, truncated or cut by a wrong bracket, through validation, skipping, raw capture, untyped reading, from bytes and from a reader: the outcome of the second is that of the JSON grammar, whatever the first left behind",
			Bounds: "6 shapes, 15 depths around 1, 64 and 128, 6 ways, 3 endings: all ordered pairs of ways and texts with the first ending any of the 3",
			Units:  func(bool) int { return len(nestShapes) * len(nestDepths) },
			Run: func(w *W, unit int) {
				shape, d := unit%len(nestShapes), nestDepths[unit/len(nestShapes)]
				it := jzon.NewIterator()
				defer it.Release()
				for way := range nestWays {
					for end := 0; end < 3; end++ {
						first := nestText(shape, d, end)
						for sh2 := range nestShapes {
							for di, d2 := range nestDepths {
								text := nestTexts[sh2][di]
								for _, way2 := range []int{(way + sh2) % len(nestWays), (way + 3 + di) % len(nestWays)} {
									if !w.Begin() {
										if w.Stop() {
											return
										}
										continue
									}
									desc := func() string {
										return fmt.Sprintf("%s of %s x %d (ending %d), then %s of %s x %d", nestWays[way].name, nestShapes[shape], d, end, nestWays[way2].name, nestShapes[sh2], d2)
									}
									w.Announce(desc)
									w.Sample(desc)
									w.States++
									w.Nontrivial++
									w.Transitions += 2
									e1 := nestWays[way].f(it, first)
									e2 := nestWays[way2].f(it, text)
									if (e1 == nil) != (end == 0) || e2 != nil {
										w.Fail(desc(), fmt.Errorf("%v, then %v", e1, e2))
										return
									}
								}
							}
						}
					}
				}
			},
		},
		{
			Name:   "size after size",
			Rule:   "every ordered pair of operations of the chosen kinds and sizes (decoded and encoded strings, escaped strings, keys, raw values, numbers, byte slices; from bytes, readers, streamers) on recycled objects: every outcome is the predicted one and the first result is unchanged by the second",
			Bounds: "12 kinds x 22 lengths from 0 to 4097, all ordered pairs",
			Units:  func(bool) int { return len(sizeKinds) * len(sizeLens) },
			Run: func(w *W, unit int) {
				k1, n1 := sizeKinds[unit/len(sizeLens)], sizeLens[unit%len(sizeLens)]
				for _, k2 := range sizeKinds {
					for _, n2 := range sizeLens {
						if !w.Begin() {
							if w.Stop() {
								return
							}
							continue
						}
						desc := func() string { return fmt.Sprintf("%s of %d, then %s of %d", k1.name, n1, k2.name, n2) }
						w.Announce(desc)
						w.Sample(desc)
						w.States++
						w.Nontrivial++
						w.Transitions += 2
						err := func() (err error) {
							defer catch(&err)
							g1, want1 := k1.f(n1, 'p')
							if g1() != want1 {
								return fmt.Errorf("first: %s, want %s", clip(g1(), 200), clip(want1, 200))
							}
							g2, want2 := k2.f(n2, 'q')
							if g2() != want2 {
								return fmt.Errorf("second: %s, want %s", clip(g2(), 200), clip(want2, 200))
							}
							if g1() != want1 {
								return fmt.Errorf("the second changed the result of the first to %s", clip(g1(), 200))
							}
							return nil
						}()
						if err != nil {
							w.Fail(desc(), err)
							return
						}
					}
				}
			},
		},
	}})
}

var nestShapes = []string{"A", "O", "AO", "OA", "AAO", "OOA"}
var nestDepths = []int{1, 2, 3, 31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129, 200}

// nestText: end 0 complete, 1 truncated, 2 closed by the wrong bracket
func nestText(shape, depth, end int) []byte {
	var b []byte
	var cl []byte
	sh := nestShapes[shape]
	for i := 0; i < depth; i++ {
		if sh[i%len(sh)] == 'A' {
			b, cl = append(b, '['), append(cl, ']')
		} else {
			b, cl = append(b, `{"a":`...), append(cl, '}')
		}
	}
	b = append(b, '1')
	if end == 1 {
		return b
	}
	for i := len(cl) - 1; i >= 0; i-- {
		b = append(b, cl[i])
	}
	if end == 2 {
		b[len(b)-1] ^= ']' ^ '}'
	}
	return b
}

var nestTexts = func() [][][]byte {
	out := make([][][]byte, len(nestShapes))
	for s := range nestShapes {
		for _, d := range nestDepths {
			out[s] = append(out[s], nestText(s, d, 0))
		}
	}
	return out
}()

type nestWay struct {
	name string
	f    func(it *jzon.Iterator, b []byte) error
}

var nestWays = []nestWay{
	{"validation", func(it *jzon.Iterator, b []byte) error {
		if it.Valid(b) {
			return nil
		}
		return errors.New("refused")
	}},
	{"skipping", func(it *jzon.Iterator, b []byte) error { it.ResetBytes(b); return it.Skip() }},
	{"raw capture from a reader", func(it *jzon.Iterator, b []byte) error {
		it.Reset(newChunk(b, 50))
		r, err := it.ReadRaw()
		if err == nil && !bytes.Equal(r, b) {
			return fmt.Errorf("raw value %q", clip(string(r), 100))
		}
		return err
	}},
	{"untyped reading", func(it *jzon.Iterator, b []byte) error {
		it.ResetBytes(b)
		v, err := it.Read()
		if err == nil && nestBack(v) != string(b) {
			return fmt.Errorf("value of %q", clip(nestBack(v), 100))
		}
		return err
	}},
	{"decoding into an interface from a reader", func(it *jzon.Iterator, b []byte) error {
		var v interface{}
		err := it.UnmarshalFromReader(newChunk(b, 7), &v)
		if err == nil && nestBack(v) != string(b) {
			return fmt.Errorf("value of %q", clip(nestBack(v), 100))
		}
		return err
	}},
	{"skipping an unknown member", func(it *jzon.Iterator, b []byte) error {
		var v S2
		err := it.Unmarshal([]byte(`{"zz":`+string(b)+`,"A":3}`), &v)
		if err == nil && v.A != 3 {
			return fmt.Errorf("value %v", v)
		}
		return err
	}},
}

// the text of a nested single-path value
func nestBack(v interface{}) string {
	var a, z []byte
	for {
		switch x := v.(type) {
		case []interface{}:
			if len(x) != 1 {
				return "?"
			}
			a, z, v = append(a, '['), append(z, ']'), x[0]
		case map[string]interface{}:
			if len(x) != 1 {
				return "?"
			}
			a, z, v = append(a, `{"a":`...), append(z, '}'), x["a"]
		case float64:
			if x != 1 {
				return "?"
			}
			a = append(a, '1')
			for i := len(z) - 1; i >= 0; i-- {
				a = append(a, z[i])
			}
			return string(a)
		default:
			return "?"
		}
	}
}

var sizeLens = []int{0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 129, 511, 512, 513, 1024, 4097}

type sizeKind struct {
	name string
	f    func(n int, c byte) (got func() string, want string)
}

func sizeFail(err error) (func() string, string) {
	return func() string { return "failed: " + err.Error() }, "success"
}

var sizeKinds = []sizeKind{
	{"a decoded string", func(n int, c byte) (func() string, string) {
		var s string
		in := strings.Repeat(string(c), n)
		if err := jzon.Unmarshal([]byte(`"`+in+`"`), &s); err != nil {
			return sizeFail(err)
		}
		return func() string { return s }, in
	}},
	{"a decoded escaped string", func(n int, c byte) (func() string, string) {
		var s interface{}
		in := strings.Repeat(string(c), n)
		if err := jzon.Unmarshal([]byte(`"`+in+`\n"`), &s); err != nil {
			return sizeFail(err)
		}
		return func() string { return s.(string) }, in + "\n"
	}},
	{"a string from a reader", func(n int, c byte) (func() string, string) {
		var s string
		in := strings.Repeat(string(c), n)
		if err := jzon.UnmarshalFromReader(newChunk([]byte(`"`+in+`"`), 100), &s); err != nil {
			return sizeFail(err)
		}
		return func() string { return s }, in
	}},
	{"an appended string", func(n int, c byte) (func() string, string) {
		in := strings.Repeat(string(c), n)
		it := jzon.NewIterator()
		defer it.Release()
		it.Reset(newChunk([]byte(`"`+in+`\t"`), 60))
		b, err := it.ReadStringAndAppend(nil)
		if err != nil {
			return sizeFail(err)
		}
		return func() string { return string(b) }, in + "\t"
	}},
	{"a map", func(n int, c byte) (func() string, string) {
		var m map[string]string
		in := strings.Repeat(string(c), n)
		if err := jzon.UnmarshalFromReader(newChunk([]byte(`{"`+in+`":"`+in+`"}`), 300), &m); err != nil {
			return sizeFail(err)
		}
		return func() string {
			for k, v := range m {
				return k + v
			}
			return "empty"
		}, in + in
	}},
	{"a raw value", func(n int, c byte) (func() string, string) {
		var m json.RawMessage
		in := `["` + strings.Repeat(string(c), n) + `"]`
		if err := jzon.UnmarshalFromReader(newChunk([]byte(" "+in), 300), &m); err != nil {
			return sizeFail(err)
		}
		return func() string { return string(m) }, in
	}},
	{"a raw value from bytes", func(n int, c byte) (func() string, string) {
		in := `["` + strings.Repeat(string(c), n) + `"]`
		it := jzon.NewIterator()
		defer it.Release()
		b := []byte(" " + in + " 1")
		it.ResetBytes(b)
		r, err := it.ReadRaw()
		if err != nil {
			return sizeFail(err)
		}
		for i := range b {
			b[i] = '#'
		}
		return func() string { return string(r) }, in
	}},
	{"a number text", func(n int, c byte) (func() string, string) {
		var m json.Number
		in := "1" + strings.Repeat(string(c-'p'+'5'), n)
		if err := jzon.UnmarshalFromReader(newChunk([]byte(in), 200), &m); err != nil {
			return sizeFail(err)
		}
		return func() string { return string(m) }, in
	}},
	{"a byte slice", func(n int, c byte) (func() string, string) {
		var m []byte
		in := bytes.Repeat([]byte{c}, n)
		t, _ := json.Marshal(in)
		if err := jzon.Unmarshal(t, &m); err != nil {
			return sizeFail(err)
		}
		return func() string { return string(m) }, string(in)
	}},
	{"an encoded string", func(n int, c byte) (func() string, string) {
		in := strings.Repeat(string(c), n)
		b, err := jzon.Marshal(in)
		if err != nil {
			return sizeFail(err)
		}
		return func() string { return string(b) }, `"` + in + `"`
	}},
	{"an encoded struct", func(n int, c byte) (func() string, string) {
		in := strings.Repeat(string(c), n)
		b, err := c15NoHTML.Marshal([]interface{}{S2{1, in}, map[string]int{in: 2}})
		if err != nil {
			return sizeFail(err)
		}
		return func() string { return string(b) }, `[{"A":1,"b":"` + in + `"},{"` + in + `":2}]`
	}},
	{"a streamed value", func(n int, c byte) (func() string, string) {
		in := strings.Repeat(string(c), n)
		var bb bytes.Buffer
		s := jzon.NewStreamer()
		defer s.Release()
		s.Reset(&bb)
		s.ArrayStart().String(in).RawString("[" + in + "]").ArrayEnd()
		if err := s.Flush(); err != nil {
			return sizeFail(err)
		}
		return func() string { return bb.String() }, `["` + in + `",[` + in + `]]`
	}},
}
