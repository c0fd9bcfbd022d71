package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"strings"
	"sync"

	"github.com/zerosnake0/jzon"
)

// C15: objects given back in every state that calls can bring them into.

// abandonEngine: every sequence of up to n calls on one object, then Release,
// then the probes, which must not notice
type step[T any] struct {
	name string
	f    func(x T)
}

type probe struct {
	name string
	f    func() string
}

func abandonEngine[T any](name, rule string, steps []step[T], starts []string, mk func(start int) T, release func(T), probes []probe, quick, thorough int) *Engine {
	var once sync.Once
	var exp []string
	return &Engine{
		Name: name, Rule: rule,
		Bounds: fmt.Sprintf("all sequences of up to %d (thorough %d) of %d calls, %d ways to obtain the object, %d probes", quick, thorough, len(steps), len(starts), len(probes)),
		Units:  func(bool) int { return len(steps) * len(starts) },
		Run: func(w *W, unit int) {
			once.Do(func() {
				for _, p := range probes {
					emptyPools()
					exp = append(exp, recovered(p.f))
				}
			})
			n := quick
			if w.Thorough {
				n = thorough
			}
			start := unit % len(starts)
			seq := []int{unit / len(starts)}
			var rec func() bool
			rec = func() bool {
				if w.Stop() {
					return false
				}
				if w.Begin() {
					desc := func() string {
						l := []string{starts[start]}
						for _, i := range seq {
							l = append(l, steps[i].name)
						}
						return strings.Join(l, "; ") + "; Release"
					}
					w.Announce(desc)
					w.Sample(desc)
					w.States++
					w.Nontrivial++
					w.Transitions += int64(len(seq))
					x := mk(start)
					for _, i := range seq {
						func() {
							defer func() { recover() }()
							steps[i].f(x)
						}()
					}
					release(x)
					for pi, p := range probes {
						if got := recovered(p.f); got != exp[pi] {
							w.Fail(desc(), fmt.Errorf("then %s: %s; on fresh objects: %s", p.name, clip(got, 500), clip(exp[pi], 500)))
							return false
						}
					}
				}
				if len(seq) == n {
					return true
				}
				for i := range steps {
					seq = append(seq, i)
					ok := rec()
					seq = seq[:len(seq)-1]
					if !ok {
						return false
					}
				}
				return true
			}
			rec()
		},
	}
}

func init() {
	cfgs := []*jzon.EncoderConfig{jzon.DefaultEncoderConfig, c15NoHTML}
	ss := func(name string, f func(s *jzon.Streamer)) step[*jzon.Streamer] {
		return step[*jzon.Streamer]{name, f}
	}
	mar := func(c *jzon.EncoderConfig, v interface{}) func() string {
		return func() string { b, e := c.Marshal(v); return string(b) + outErr(e) }
	}
	probesE := []probe{
		{"Marshal", mar(cfgs[0], []string{"<", "\u2028"})},
		{"Marshal without escaping", mar(cfgs[1], []string{"<", "\u2028"})},
		{"NewStreamer", func() string {
			s := jzon.NewStreamer()
			defer s.Release()
			r := fmt.Sprint(s.Error, s.Context, s.Flush())
			bb := &bytes.Buffer{}
			s.Reset(bb)
			s.ObjectStart().Field("<").String(">").ObjectEnd()
			return r + fmt.Sprint(s.Flush(), bb.String())
		}},
		{"NewStreamer without escaping, without Reset", func() string {
			s := cfgs[1].NewStreamer()
			s.ArrayStart().String("<")
			r := fmt.Sprint(s.Error, s.Context, s.Flush())
			s.Release()
			return r
		}},
		{"NewEncoder", func() string {
			bb := &bytes.Buffer{}
			e := cfgs[1].NewEncoder(bb)
			defer e.Release()
			return fmt.Sprint(e.Encode("<"), e.Encode(1), bb.String())
		}},
		{"Marshal with a context", mar(c15Ctx, []ctxVal{{"a"}, {"b"}})},
	}
	addEngine("C15", abandonEngine("abandoned streamers",
		"every sequence of fine-grained streamer calls (containers, fields, values, failing values, escaping on and off, flushes to good, bad and no writers, contexts, errors set from outside), after which the streamer is released as it is: marshalling, streamers and encoders of all configurations work as on fresh objects",
		[]step[*jzon.Streamer]{
			ss("EscapeHTML(true)", func(s *jzon.Streamer) { s.EscapeHTML(true) }),
			ss("EscapeHTML(false)", func(s *jzon.Streamer) { s.EscapeHTML(false) }),
			ss("Reset(writer)", func(s *jzon.Streamer) { s.Reset(io.Discard) }),
			ss("Reset(failing)", func(s *jzon.Streamer) { s.Reset(errWriter{}) }),
			ss("Flush", func(s *jzon.Streamer) { s.Flush() }),
			ss("Context=", func(s *jzon.Streamer) { s.Context = "left" }),
			ss("Error=", func(s *jzon.Streamer) { s.Error = errHook }),
			ss("ArrayStart", func(s *jzon.Streamer) { s.ArrayStart() }),
			ss("Field", func(s *jzon.Streamer) { s.ObjectStart().Field("f<") }),
			ss("String", func(s *jzon.Streamer) { s.String("<") }),
			ss("Value(ok)", func(s *jzon.Streamer) { s.Value(c14S2) }),
			ss("Value(bad)", func(s *jzon.Streamer) { s.Value([]interface{}{1, FailJSON{}}) }),
			ss("Value(panicking)", func(s *jzon.Streamer) { s.Value([]panicHook{{}}) }),
		},
		[]string{"NewStreamer", "NewStreamer without escaping"},
		func(i int) *jzon.Streamer { return cfgs[i].NewStreamer() },
		(*jzon.Streamer).Release, probesE, 5, 6))

	es := func(name string, f func(e *jzon.Encoder)) step[*jzon.Encoder] {
		return step[*jzon.Encoder]{name, f}
	}
	addEngine("C15", abandonEngine("abandoned encoders",
		"the same for encoders: escaping on and off, good, failing and panicking values, writers that fail",
		[]step[*jzon.Encoder]{
			es("SetEscapeHTML(true)", func(e *jzon.Encoder) { e.SetEscapeHTML(true) }),
			es("SetEscapeHTML(false)", func(e *jzon.Encoder) { e.SetEscapeHTML(false) }),
			es("Encode(ok)", func(e *jzon.Encoder) { e.Encode("<") }),
			es("Encode(struct)", func(e *jzon.Encoder) { e.Encode(c14S2) }),
			es("Encode(bad)", func(e *jzon.Encoder) { e.Encode([]interface{}{1, FailText{}}) }),
			es("Encode(panicking)", func(e *jzon.Encoder) { e.Encode([]panicHook{{}}) }),
			es("Encode(long)", func(e *jzon.Encoder) { e.Encode(longText) }),
		},
		[]string{"NewEncoder", "NewEncoder without escaping", "NewEncoder(failing)", "NewEncoder(failing) without escaping", "NewEncoder(nil)"},
		func(i int) *jzon.Encoder {
			switch i {
			case 4:
				return cfgs[0].NewEncoder(nil)
			case 2, 3:
				return cfgs[i-2].NewEncoder(errWriter{})
			}
			return cfgs[i].NewEncoder(io.Discard)
		},
		(*jzon.Encoder).Release, probesE, 6, 7))

	dcs := []*jzon.DecoderConfig{jzon.DefaultDecoderConfig, c15Number, c15Dis}
	un := func(c int, mk func() interface{}, text string) func() string {
		return func() string {
			p := mk()
			e := dcs[c].Unmarshal([]byte(text), p)
			if e != nil {
				return outErr(e)
			}
			return deep(p)
		}
	}
	probesD := []probe{
		{"Unmarshal", un(0, pnew[interface{}](), `{"a":[1.50,"x\n\ud83d\ude00"]}`)},
		{"Unmarshal struct", un(0, pnew[S2](), `{"a":1,"zz":[{}],"B":"s"}`)},
		{"Unmarshal number", un(1, pnew[interface{}](), `[1.50]`)},
		{"Unmarshal struct, case sensitive", un(1, pnew[S2](), `{"a":1,"A":2,"zz":3}`)},
		{"Unmarshal struct, unknown", un(2, pnew[S2](), `{"A":1,"zz":3}`)},
		{"Unmarshal raw", un(0, pnew[json.RawMessage](), ` [1, {"a" : 2}] `)},
		{"Valid", func() string {
			return fmt.Sprint(jzon.Valid([]byte(`[{"a":[1]},2]`)), jzon.Valid([]byte(`[{"a":[1}]`)))
		}},
		{"NewIterator", func() string {
			it := jzon.NewIterator()
			defer it.Release()
			r := fmt.Sprint(it.Context, len(it.Buffer()))
			it.ResetBytes([]byte(`{"a":[1,"b"]} 5`))
			v, e := it.Read()
			return r + fmt.Sprint(deep(v), e, string(it.Buffer()), it.Context)
		}},
		{"NewIterator without Reset", func() string {
			it := jzon.NewIterator()
			defer it.Release()
			v, e := it.Read()
			return fmt.Sprint(deep(v), e, len(it.Buffer()))
		}},
		{"UnmarshalFromReader", func() string {
			var p S2
			e := jzon.UnmarshalFromReader(newChunk([]byte(`{"A":7,"b":"q"}`), 2), &p)
			return fmt.Sprint(deep(p), e)
		}},
		{"NewDecoder", func() string {
			d := jzon.NewDecoder(newChunk([]byte(` 1.50 {"A":2,"zz":[]} "e`), 4))
			defer d.Release()
			var x interface{}
			var s S2
			r := fmt.Sprint(d.InputOffset(), d.More())
			e1, e2 := d.Decode(&x), d.Decode(&s)
			return r + fmt.Sprint(deep(x), deep(s), e1, e2, d.InputOffset(), d.More(), d.Decode(&x))
		}},
	}
	is := func(name string, f func(it *jzon.Iterator)) step[*jzon.Iterator] {
		return step[*jzon.Iterator]{name, f}
	}
	const docI = `[{"a":["x\ty",1.5,{"k":{}}],"A":2}] "\ud83d`
	addEngine("C15", abandonEngine("abandoned iterators",
		"the same for iterators: half-read containers, strings and captures from slices and readers, deep skips, failures, contexts, interface chains",
		[]step[*jzon.Iterator]{
			is("ResetBytes", func(it *jzon.Iterator) { it.ResetBytes([]byte(docI)) }),
			is("Reset(reader)", func(it *jzon.Iterator) { it.Reset(newChunk([]byte(docI+longText), 3)) }),
			is("Reset(failing)", func(it *jzon.Iterator) {
				r := newChunk([]byte(docI), 5)
				r.failAt, r.err = 13, errFault
				it.Reset(r)
			}),
			is("Context=", func(it *jzon.Iterator) { it.Context = "left" }),
			is("ReadArrayBegin", func(it *jzon.Iterator) { it.ReadArrayBegin() }),
			is("ReadObjectBegin", func(it *jzon.Iterator) { it.ReadObjectBegin() }),
			is("ReadStringAsSlice", func(it *jzon.Iterator) { it.ReadStringAsSlice() }),
			is("Skip", func(it *jzon.Iterator) { it.Skip() }),
			is("SkipRaw", func(it *jzon.Iterator) { it.SkipRaw() }),
			is("Read", func(it *jzon.Iterator) { it.Read() }),
			is("ReadVal(struct)", func(it *jzon.Iterator) { it.ReadVal(new(S2)) }),
			is("ReadVal(hook)", func(it *jzon.Iterator) { it.ReadVal(new([]FailJSON)) }),
			is("ReadVal(panicking)", func(it *jzon.Iterator) { it.ReadVal(new([]panicHook)) }),
			is("ReadVal(loop)", func(it *jzon.Iterator) {
				var x interface{}
				x = &x
				it.ReadVal(&x)
			}),
			is("Valid(deep, bad)", func(it *jzon.Iterator) { it.Valid([]byte(`[{"a":[[[{"b":[}`)) }),
			is("Unmarshal(failing)", func(it *jzon.Iterator) { var x S2; it.Unmarshal([]byte(`{"A":[`), &x) }),
		},
		[]string{"NewIterator", "NewIterator with numbers", "NewIterator, unknown rejected"},
		func(i int) *jzon.Iterator { return dcs[i].NewIterator() },
		(*jzon.Iterator).Release, probesD, 4, 5))

	ds := func(name string, f func(d *jzon.Decoder)) step[*jzon.Decoder] {
		return step[*jzon.Decoder]{name, f}
	}
	addEngine("C15", abandonEngine("abandoned decoders",
		"the same for stream decoders: options set before and in the middle, values half read, failures, ends",
		[]step[*jzon.Decoder]{
			ds("UseNumber", func(d *jzon.Decoder) { d.UseNumber() }),
			ds("DisallowUnknownFields", func(d *jzon.Decoder) { d.DisallowUnknownFields() }),
			ds("Decode(any)", func(d *jzon.Decoder) { var x interface{}; d.Decode(&x) }),
			ds("Decode(struct)", func(d *jzon.Decoder) { d.Decode(new(S2)) }),
			ds("Decode(raw)", func(d *jzon.Decoder) { d.Decode(new(json.RawMessage)) }),
			ds("Decode(failing)", func(d *jzon.Decoder) { d.Decode(new(FailJSON)) }),
			ds("Decode(panicking)", func(d *jzon.Decoder) { d.Decode(new(panicHook)) }),
			ds("Decode(nil)", func(d *jzon.Decoder) { d.Decode(nil) }),
			ds("More", func(d *jzon.Decoder) { d.More() }),
			ds("Buffered", func(d *jzon.Decoder) { d.Buffered() }),
			ds("InputOffset", func(d *jzon.Decoder) { d.InputOffset() }),
		},
		[]string{"stream", "stream with numbers", "stream, unknown rejected", "failing stream", "long stream", "empty stream"},
		func(i int) *jzon.Decoder {
			const text = ` {"A":1,"zz":[1.50]} 2 ["three"] {"A":null} tru`
			switch i {
			case 3:
				r := newChunk([]byte(text), 7)
				r.failAt, r.err = 23, errFault
				return jzon.NewDecoder(r)
			case 4:
				return jzon.NewDecoder(newChunk([]byte(longText+text), 512))
			case 5:
				return jzon.NewDecoder(strings.NewReader(""))
			}
			return dcs[i].NewDecoder(newChunk([]byte(text), 5))
		},
		(*jzon.Decoder).Release, probesD, 4, 6))
}
