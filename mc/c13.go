package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"

	"github.com/zerosnake0/jzon"
)

// C13: encoding followed by decoding.

type rtPair struct {
	name string
	enc  func(c *jzon.EncoderConfig, x interface{}) ([]byte, error)
	dec  func(c *jzon.DecoderConfig, b []byte, p interface{}) error
}

func encMarshal(c *jzon.EncoderConfig, x interface{}) ([]byte, error) { return c.Marshal(x) }
func encEncoder(c *jzon.EncoderConfig, x interface{}) ([]byte, error) {
	var bb bytes.Buffer
	e := c.NewEncoder(&bb)
	err := e.Encode(x)
	e.Release()
	return bb.Bytes(), err
}
func encStreamer(c *jzon.EncoderConfig, x interface{}) ([]byte, error) {
	var bb bytes.Buffer
	s := c.NewStreamer()
	s.Reset(&bb)
	s.Value(x)
	err := s.Flush()
	s.Release()
	return bb.Bytes(), err
}
func decUnmarshal(c *jzon.DecoderConfig, b []byte, p interface{}) error { return c.Unmarshal(b, p) }
func decReader(c *jzon.DecoderConfig, b []byte, p interface{}) error {
	return c.UnmarshalFromReader(newChunk(b, 1), p)
}
func decReader3(c *jzon.DecoderConfig, b []byte, p interface{}) error {
	return c.UnmarshalFromReader(newChunk(b, 3), p)
}
func decDecoder(c *jzon.DecoderConfig, b []byte, p interface{}) error {
	d := c.NewDecoder(newChunk(b, 7))
	err := d.Decode(p)
	d.Release()
	return err
}
func decIterator(c *jzon.DecoderConfig, b []byte, p interface{}) error {
	it := c.NewIterator()
	it.ResetBytes(b)
	err := it.ReadVal(p)
	it.Release()
	return err
}

var rtPairs = []rtPair{
	{"Marshal/Unmarshal", encMarshal, decUnmarshal},
	{"Encoder/Decoder", encEncoder, decDecoder},
	{"Streamer/Iterator", encStreamer, decIterator},
	{"Marshal/UnmarshalFromReader by bytes", encMarshal, decReader},
	{"Encoder/UnmarshalFromReader by threes", encEncoder, decReader3},
}

// roundTrip: v (whose type seen by the standard library is ref) through every
// pair; the standard library tells whether the value has a restorable encoding
func roundTrip(ec *jzon.EncoderConfig, dc *jzon.DecoderConfig, v reflect.Value, ref reflect.Type, html bool, n int) (nontrivial bool, err error) {
	defer catch(&err)
	rv := v
	if ref != v.Type() {
		rv = v.Convert(ref)
	}
	sb, e := stdMarshal(rv.Interface(), html)
	if e != nil {
		return false, nil
	}
	sp := reflect.New(ref)
	if json.Unmarshal(sb, sp.Interface()) != nil {
		return false, nil
	}
	restorable := eqv(sp.Elem(), rv, 0)
	sb2, e := stdMarshal(sp.Elem().Interface(), html)
	stable := e == nil && sameJSON(sb, sb2)
	for _, p := range rtPairs[:n] {
		b, e := p.enc(ec, v.Interface())
		if e != nil {
			return true, fmt.Errorf("%s: encoding fails: %v", p.name, e)
		}
		d := reflect.New(v.Type())
		if e := p.dec(dc, b, d.Interface()); e != nil {
			return true, fmt.Errorf("%s: %s is not decoded: %v", p.name, b, e)
		}
		if restorable && !eqv(d.Elem(), v, 0) {
			return true, fmt.Errorf("%s: %s gives %s", p.name, b, show(d.Elem().Interface()))
		}
		if stable {
			b2, e := p.enc(ec, d.Elem().Interface())
			if e != nil || !sameJSON(b, b2) {
				return true, fmt.Errorf("%s: %s encoded again is %s (%v)", p.name, b, b2, e)
			}
		}
	}
	return restorable, nil
}

func c13Case(w *W, ec *jzon.EncoderConfig, dc *jzon.DecoderConfig, v reflect.Value, ref reflect.Type, html bool, n int, name string) bool {
	if !w.Begin() {
		return !w.Stop()
	}
	desc := func() string { return fmt.Sprintf("%s %s (html %v)", name, showGo(v), html) }
	w.Announce(desc)
	w.Sample(desc)
	w.States++
	w.Transitions += int64(2 * n)
	nt, err := roundTrip(ec, dc, v, ref, html, n)
	if nt {
		w.Nontrivial++
	}
	if err != nil {
		w.Fail(desc(), err)
		return false
	}
	return true
}

type rtScalars struct {
	A int64          `json:"a"`
	B int64          `json:"b,string"`
	C *int64         `json:"c,omitempty"`
	D uint64         `json:"d"`
	E uint64         `json:"e,string"`
	F map[int64]int8 `json:"f"`
	G interface{}    `json:"g"`
	H int32          `json:"h"`
	I uint16         `json:"i,string"`
	J map[uint64]int64
	K [2]int16
	L []uint32
}
type rtFloats struct {
	A float64            `json:"a"`
	B float64            `json:"b,string"`
	C float32            `json:"c"`
	D float32            `json:"d,string"`
	E []float64          `json:"e"`
	F map[string]float32 `json:"f"`
	G *float64           `json:"g"`
	H interface{}        `json:"h"`
}
type rtStrings struct {
	A string            `json:"a"`
	B string            `json:"b,string"`
	C *string           `json:"c"`
	D map[string]string `json:"d"`
	E []string          `json:"e"`
	F interface{}       `json:"f"`
	G []byte            `json:"g"`
	H NString           `json:"h,omitempty"`
	I map[NString]int   `json:"i"`
	J [1]string
}

// rtValue: directly, without consulting the standard library
func rtValue(w *W, v interface{}, name string, npairs int) bool {
	if !w.Begin() {
		return !w.Stop()
	}
	rv := reflect.ValueOf(v)
	desc := func() string { return name + " " + showGo(rv) }
	w.Announce(desc)
	w.Sample(desc)
	w.States++
	w.Transitions += 2
	w.Nontrivial++
	err := func() (err error) {
		defer catch(&err)
		for _, p := range rtPairs[:npairs] {
			b, e := p.enc(jzon.DefaultEncoderConfig, v)
			if e != nil {
				return e
			}
			d := reflect.New(rv.Type())
			if e := p.dec(jzon.DefaultDecoderConfig, b, d.Interface()); e != nil {
				return fmt.Errorf("%s: %s is not decoded: %v", p.name, b, e)
			}
			if !eqv(d.Elem(), rv, 0) {
				return fmt.Errorf("%s: %s gives %s", p.name, b, show(d.Elem().Interface()))
			}
		}
		return nil
	}()
	if err != nil {
		w.Fail(desc(), err)
		return false
	}
	return true
}

// typed values for the stream engine
func c13StreamVals() []reflect.Value {
	mk := func(x interface{}) reflect.Value { return reflect.ValueOf(x) }
	var any interface{} = map[string]interface{}{"k": []interface{}{1.5, "s", nil}}
	return []reflect.Value{
		mk(5), mk(int8(-7)), mk(2.5), mk("str\n\"é<"), mk(true), mk([]int{1, 2}), mk([]int{}), mk(map[string]int{"a": 1}), mk(map[string]int{}), mk(S2{4, "x"}), mk(S0{}),
		mk([2]string{"p", "q"}), reflect.ValueOf(&any).Elem(), mk(json.Number("1e5")), mk([]byte("abc")), mk((*int)(nil)), mk(ip(9)), mk(json.RawMessage(`[1]`)), mk(RTStruct{"q"}), mk(TextInt(8)),
		mk(recNode{V: 1, Next: &recNode{V: 2}, Kids: []recNode{}}), mk(string(bytes.Repeat([]byte("long "), 120))), mk(WithEmb{Emb{1}, &EmbP{2, "q"}, 3}), mk(S11{F0: 1, F10: 2}),
	}
}

func init() {
	register(&Property{ID: "C13", Engines: []*Engine{
		{
			Name:   "universe",
			Rule:   "every decodable type built from the leaf types with up to three constructors x small-scope values x both escaping modes, through encode/decode entry point pairs; a value must come back equal when its standard encoding determines it, and re-encode to the same JSON",
			Bounds: "23 leaf types, 12 constructors, depth 3, at most 4 (thorough 12) values per type, 5 entry point pairs (3 at depth 3 in the quick tier)",
			Units:  func(bool) int { return 256 },
			Run: func(w *W, unit int) {
				var ecs []*jzon.EncoderConfig
				var dc *jzon.DecoderConfig
				d2 := len(universe(2))
				for i, u := range universe(3) {
					if i%256 != unit || !u.dec {
						continue
					}
					max, np := 4, 3
					if w.Thorough {
						max, np = 12, 5
					}
					if i < d2 {
						np = 5
					}
					if i%4096 == unit || ecs == nil {
						ecs = []*jzon.EncoderConfig{jzon.NewEncoderConfig(nil), jzon.NewEncoderConfig(&jzon.EncoderOption{})}
						dc = jzon.NewDecoderConfig(nil)
					}
					for vi, v := range valuesOf(u.t, max) {
						if !c13Case(w, ecs[vi%2], dc, v, u.t, vi%2 == 0, np, "universe") {
							return
						}
					}
				}
			},
		},
		{
			Name:   "structs",
			Rule:   "struct types over the tag alphabet and the embedding blocks, zero, filled and partly filled, and the hand-written struct universe",
			Bounds: "19 tags x 22 field types, 19^2 tag pairs, 14^2 embedding pairs, 119 named types",
			Units:  func(bool) int { return len(tagAlpha) + len(embTypes) + 1 },
			Run: func(w *W, unit int) {
				ec, dc := jzon.NewEncoderConfig(nil), jzon.NewDecoderConfig(nil)
				run := func(fs ...reflect.StructField) bool {
					t := reflect.StructOf(fs)
					for _, v := range structVals(t) {
						if !c13Case(w, ec, dc, v, t, true, 3, "struct") {
							return false
						}
					}
					return true
				}
				if unit < len(tagAlpha) {
					for k, t := range tagTypes {
						if t == rt[JMIface]() || t == rt[StrJSON]() {
							continue
						}
						if !run(sf("Fld", t, tagAlpha[unit])) || !run(sf("Abc", tInt, `json:"abc"`), sf("Fld", t, tagAlpha[unit]), sf("Xyz", tStr, "")) {
							return
						}
						for j, tag := range tagAlpha {
							if (j+k)%3 != 0 && !w.Thorough {
								continue
							}
							ec, dc = jzon.NewEncoderConfig(nil), jzon.NewDecoderConfig(nil)
							if !run(sf("Fld", t, tagAlpha[unit]), sf("Gld", tStr, tag)) {
								return
							}
						}
					}
					return
				}
				if unit < len(tagAlpha)+len(embTypes) {
					a := embTypes[unit-len(tagAlpha)]
					for _, tag := range []string{"", `json:"named"`} {
						for _, b := range embTypes {
							if embName(a) == embName(b) {
								continue
							}
							ec, dc = jzon.NewEncoderConfig(nil), jzon.NewDecoderConfig(nil)
							if !run(embField(a, tag), embField(b, "")) || !run(embField(a, tag), embField(b, ""), sf("X", tStr, "")) || !run(sf("Own", tInt, `json:"Y"`), embField(a, ""), embField(b, tag)) {
								return
							}
						}
					}
					return
				}
				for _, c := range decodeTypes() {
					if c.T.Kind() != reflect.Struct {
						continue
					}
					switch c.T {
					case rt[PtrJSON](), rt[PtrText](), rt[JSONStruct](), rt[FailJSON](), rt[FailText](), rt[Omit](), rt[struct{ A JSONStruct }](), rt[struct{ A *JSONStruct }](), rt[struct{ A chan int }]():
						continue
					}
					for _, v := range structVals(c.T) {
						if !c13Case(w, ec, dc, v, c.T, true, 5, "named") {
							return
						}
					}
				}
			},
		},
		{
			Name:   "options",
			Rule:   "struct types with tags under two keys, encoded and decoded under the same tag key and tagged-only options, with and without the case-sensitive option",
			Bounds: "all pairs of 8 tags, 4 embedding variants, 3 keys x tagged-only x case sensitive",
			Units:  func(bool) int { return len(optTags) },
			Run: func(w *W, unit int) {
				for m := 0; m < 12; m++ {
					key, only, cs := []string{"", "jz", "none"}[m%3], m/3%2 == 1, m/6 == 1
					ec := jzon.NewEncoderConfig(&jzon.EncoderOption{Tag: key, OnlyTaggedField: only})
					dc := jzon.NewDecoderConfig(&jzon.DecoderOption{Tag: key, OnlyTaggedField: only, CaseSensitive: cs})
					for _, tb := range optTags {
						for emb := 0; emb < 4; emb++ {
							src, ref := optStruct(optTags[unit], tb, emb, key, only)
							for _, v := range structVals(src) {
								if !c13Case(w, ec, dc, v, ref, false, 5, fmt.Sprintf("tag key %q, only tagged %v, case sensitive %v", key, only, cs)) {
									return
								}
							}
						}
					}
				}
			},
		},
		{
			Name:   "integers",
			Rule:   "a struct carrying an integer in every position (value, quoted, pointer, key, element, interface) for every boundary pattern, and every 16-bit value",
			Bounds: "all windows of 10 (thorough 40) around powers of two and ten, all 65536 16-bit values",
			Units:  func(bool) int { return 64 },
			Run: func(w *W, unit int) {
				mk := func(v int64) rtScalars {
					return rtScalars{v, v, &v, uint64(v), uint64(v), map[int64]int8{v: int8(v), -v: 1}, nil, int32(v), uint16(v), map[uint64]int64{uint64(v): v}, [2]int16{int16(v), int16(v >> 16)}, []uint32{uint32(v), uint32(v >> 32)}}
				}
				win := int64(10)
				if w.Thorough {
					win = 40
				}
				for i, v := range intPatterns(win) {
					if i%64 == unit && !rtValue(w, mk(v), "integers", 2) {
						return
					}
				}
				for v := -32768 + unit*1024; v < -32768+(unit+1)*1024; v++ {
					if !rtValue(w, mk(int64(v)), "integers", 1) {
						return
					}
				}
			},
		},
		{
			Name:   "floats",
			Rule:   "a struct carrying a float in every position: every float64 exponent and every float32 exponent with all one and two bit mantissas and their complements",
			Bounds: "2046 x ~110 float64 (thorough ~2700), 254 x ~560 float32",
			Units:  func(bool) int { return 128 },
			Run: func(w *W, unit int) {
				m64, m32 := mantissas(52, 0), mantissas(23, 0)
				if !w.Thorough {
					m64 = nil
					for i := uint(0); i < 52; i++ {
						m64 = append(m64, 1<<i, (1<<52-1)^(1<<i))
					}
					m64 = append(m64, 0, 1<<52-1)
				}
				mk := func(f float64, g float32) rtFloats {
					return rtFloats{f, f, g, g, []float64{f, -f}, map[string]float32{"x": g}, &f, f}
				}
				for e := unit; e < 2047; e += 128 {
					for i, m := range m64 {
						f := math.Float64frombits(uint64(e)<<52 | m | uint64(i&1)<<63)
						g := math.Float32frombits(uint32(e%255)<<23 | uint32(m32[(i+e)%len(m32)]) | uint32(e&1)<<31)
						if !rtValue(w, mk(f, g), "floats", 1) {
							return
						}
					}
				}
				for e := unit; e < 255; e += 128 {
					for i, m := range m32 {
						g := math.Float32frombits(uint32(e)<<23 | uint32(m) | uint32(i&1)<<31)
						if !rtValue(w, mk(float64(g), g), "floats", 1) {
							return
						}
					}
				}
			},
		},
		{
			Name:   "strings",
			Rule:   "a struct carrying a string in every position: every sequence of string items that is valid UTF-8, every code point",
			Bounds: "sequences to length 4 over the valid items (thorough 5), all code points",
			Units:  func(bool) int { return 64 },
			Run: func(w *W, unit int) {
				var items []string
				for _, s := range strItems {
					if validUTF8(s) {
						items = append(items, s)
					}
				}
				mk := func(s string) rtStrings {
					return rtStrings{s, s, &s, map[string]string{s: s}, []string{s, s + "x"}, s, []byte(s), NString(s), map[NString]int{NString(s): 1}, [1]string{s}}
				}
				n := 4
				if w.Thorough {
					n = 5
				}
				k := 0
				for l := 0; l <= n; l++ {
					stop := false
					product(l, len(items), func(v []int) bool {
						k++
						if k%64 != unit {
							return true
						}
						s := ""
						for _, i := range v {
							s += items[i]
						}
						if !rtValue(w, mk(s), "strings", 2) {
							stop = true
							return false
						}
						return true
					})
					if stop {
						return
					}
				}
				for r := rune(unit); r <= 0x10ffff; r += 64 {
					if r >= 0xd800 && r < 0xe000 {
						continue
					}
					if !rtValue(w, mk(string(r)), "strings", 1) {
						return
					}
				}
			},
		},
		{
			Name:   "streams",
			Rule:   "every sequence of typed values written by one Encoder and read back by one Decoder into destinations of the same types, under every chunk size",
			Bounds: "24 values, sequences of length 2 and 3, 5 chunk sizes",
			Units:  func(bool) int { return 24 * 24 },
			Run: func(w *W, unit int) {
				vals := c13StreamVals()
				var seqs [][]int
				seqs = append(seqs, []int{unit / 24, unit % 24})
				for k := range vals {
					seqs = append(seqs, []int{unit / 24, unit % 24, k})
				}
				for _, seq := range seqs {
					for _, chunk := range []int{1, 2, 5, 64, 4096} {
						if !w.Begin() {
							if w.Stop() {
								return
							}
							continue
						}
						desc := func() string {
							s := ""
							for _, i := range seq {
								s += showGo(vals[i]) + "; "
							}
							return fmt.Sprintf("stream %s in chunks of %d", s, chunk)
						}
						w.Announce(desc)
						w.States++
						w.Transitions += int64(2 * len(seq))
						w.Nontrivial++
						err := func() (err error) {
							defer catch(&err)
							var bb bytes.Buffer
							e := jzon.DefaultEncoderConfig.NewEncoder(&bb)
							for _, i := range seq {
								if err := e.Encode(vals[i].Interface()); err != nil {
									return err
								}
							}
							e.Release()
							d := jzon.DefaultDecoderConfig.NewDecoder(newChunk(bb.Bytes(), chunk))
							defer d.Release()
							var got []reflect.Value
							for n, i := range seq {
								if !d.More() {
									return fmt.Errorf("no value %d in %q", n, bb.String())
								}
								p := reflect.New(vals[i].Type())
								if err := d.Decode(p.Interface()); err != nil {
									return fmt.Errorf("value %d of %q: %v", n, bb.String(), err)
								}
								got = append(got, p)
							}
							for n, i := range seq {
								if !eqv(got[n].Elem(), vals[i], 0) {
									return fmt.Errorf("value %d of %q: %s", n, bb.String(), show(got[n].Elem().Interface()))
								}
							}
							if d.More() {
								return fmt.Errorf("more values than written: %q", bb.String())
							}
							return nil
						}()
						if err != nil {
							w.Fail(desc(), err)
							return
						}
					}
				}
			},
		},
		docEngine("documents", "read untyped, encoded and read again: the same tree", []string{"{", "}", "[", "]", ",", ":", `"a"`, `"b<"`, "1", "-2.5e-9", "true", "null"}, 14, 17, func(w *W, text []byte, n int) {
			if !w.Begin() {
				return
			}
			w.Nontrivial++
			var v, v2 interface{}
			if err := jzon.Unmarshal(text, &v); err != nil {
				w.Fail(string(text), err)
				return
			}
			b, err := jzon.Marshal(v)
			if err == nil {
				err = jzon.Unmarshal(b, &v2)
			}
			if err != nil || !eqTree(v, v2) {
				w.Fail(string(text), fmt.Errorf("encoded as %s, read again %s (%v)", b, show(v2), err))
			}
		}),
	}})
}
