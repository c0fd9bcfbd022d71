package main

import (
	"bytes"
	"encoding"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/zerosnake0/jzon"
)

// Texts that methods produce, at every place where they can appear.

type (
	tpVal    struct{ s string }
	tpPtr    struct{ s string }
	tpDirect struct{ p *string }
	tpMap    map[string]bool
	tpStr    string // a string whose method is ignored for keys
)

func (t tpVal) MarshalText() ([]byte, error)    { return []byte(t.s), nil }
func (t *tpPtr) MarshalText() ([]byte, error)   { return []byte(t.s), nil }
func (t tpDirect) MarshalText() ([]byte, error) { return []byte(*t.p), nil }
func (t tpMap) MarshalText() ([]byte, error) {
	for k := range t {
		return []byte(k), nil
	}
	return nil, nil
}
func (t tpStr) MarshalText() ([]byte, error) { return []byte("<" + t + ">"), nil }

// where a text is put
type textPlace struct {
	name   string
	f      func(s string) interface{}
	quoted bool
}

var textPlaces = []textPlace{
	{"string", func(s string) interface{} { return s }, false},
	{"a text method", func(s string) interface{} { return tpVal{s} }, false},
	{"a text method of the pointer", func(s string) interface{} { return &tpPtr{s} }, false},
	{"a text method of an element", func(s string) interface{} { return []tpPtr{{s}} }, false},
	{"a text method of a pointer-shaped value", func(s string) interface{} { return tpDirect{&s} }, false},
	{"a text method of a map", func(s string) interface{} { return []tpMap{{s: true}} }, false},
	{"a text method of an interface", func(s string) interface{} { return []encoding.TextMarshaler{tpVal{s}} }, false},
	{"a text method of a named string", func(s string) interface{} { return []interface{}{tpStr(s), &s} }, false},
	{"a quoted field", func(s string) interface{} {
		return struct {
			A string  `json:",string"`
			B *string `json:"b,string"`
			C string
		}{s, &s, s}
	}, true},
	{"a key", func(s string) interface{} { return map[string]int{s: 1} }, false},
	{"a named key", func(s string) interface{} { return map[tpStr]interface{}{tpStr(s): nil} }, false},
	{"a text method of a key", func(s string) interface{} { return map[tpVal]int{{s}: 1} }, false},
	{"a text method of a pointer key", func(s string) interface{} { return map[*tpPtr][]int{{s}: {1}} }, false},
	{"a text method of a pointer-shaped key", func(s string) interface{} { return map[tpDirect]string{{&s}: s} }, false},
	{"a text method of an interface key", func(s string) interface{} { return map[encoding.TextMarshaler]bool{tpVal{s}: true} }, false},
}

func textCase(s string, pl *textPlace, html bool) error {
	cfg := jzon.DefaultEncoderConfig
	if !html {
		cfg = noHTMLCfg
	}
	exp, err := stdMarshal(pl.f(s), html)
	if err != nil {
		return fmt.Errorf("standard library: %v", err)
	}
	if pl.quoted && strings.ContainsAny(s, "\b\f") {
		// the spelling of these two, inside of the quotes
		if strings.Contains(s, "\\") {
			return nil
		}
		exp = bytes.ReplaceAll(bytes.ReplaceAll(exp, []byte(`\\b`), []byte(`\\u0008`)), []byte(`\\f`), []byte(`\\u000c`))
	}
	got, err := cfg.Marshal(pl.f(s))
	if err != nil || !bytes.Equal(got, exp) {
		return fmt.Errorf("%s %v; standard library: %s", got, err, exp)
	}
	return nil
}

// what a raw value or a JSON hook may give
func rawTexts() []string {
	out := []string{"", "null", "[1]\n", "{\"a\":1}\n\n", longStr(100) + "\n", "\r\n", "\n1", " 1 "}
	alpha := []string{"1", "\n", " ", ",", "\"", "}", "\x00"}
	for n := 1; n <= 3; n++ {
		product(n, len(alpha), func(v []int) bool {
			s := ""
			for _, i := range v {
				s += alpha[i]
			}
			out = append(out, s)
			return true
		})
	}
	for c := 0; c < 256; c++ {
		out = append(out, string([]byte{byte(c), '1'}), string([]byte{'1', byte(c)}), string([]byte{'1', byte(c), byte(c)}))
	}
	return out
}

func init() {
	const block = 0x400
	addEngine("C10", &Engine{
		Name:   "texts of methods",
		Rule:   "every code point, and every pair of bytes, alone and inside other text, at every place where a text can be put: strings, quoted fields, keys, and the results of MarshalText methods of values, pointers, elements, pointer-shaped values, maps, interfaces and of keys of all these kinds; with and without HTML escaping, byte for byte the standard library's",
		Bounds: fmt.Sprintf("0x110000 code points and 65536 byte pairs x %d places (quick: code points above 0x3000 and pairs at rotating places)", len(textPlaces)),
		Units:  func(bool) int { return 0x110000/block + 64 },
		Run: func(w *W, unit int) {
			run := func(s string, k int, all bool) bool {
				for pi := range textPlaces {
					if !all && (pi+k)%4 != 0 {
						continue
					}
					for h := 0; h < 2; h++ {
						if !all && (k/4+h)%2 == 0 {
							continue
						}
						if !w.Begin() {
							if w.Stop() {
								return false
							}
							continue
						}
						pl := &textPlaces[pi]
						desc := func() string { return fmt.Sprintf("%q as %s, HTML escaping %v", s, pl.name, h == 1) }
						w.Announce(desc)
						w.Sample(desc)
						w.States++
						w.Transitions++
						w.Nontrivial++
						err := func() (err error) {
							defer catch(&err)
							return textCase(s, pl, h == 1)
						}()
						if err != nil {
							w.Fail(desc(), err)
							return false
						}
					}
				}
				return !w.Stop()
			}
			if unit >= 0x110000/block {
				for i := (unit - 0x110000/block) * 0x400; i < (unit-0x110000/block+1)*0x400; i++ {
					if !run(string([]byte{byte(i >> 8), byte(i)}), i, w.Thorough) {
						return
					}
				}
				return
			}
			for i := unit * block; i < (unit+1)*block; i++ {
				all := i < 0x3000 || w.Thorough
				if !run(string(rune(i)), i, all) {
					return
				}
				if i < 0x3000 && !run("a"+string(rune(i))+"b", i, false) {
					return
				}
			}
		},
	})

	texts := rawTexts()
	makers := []textPlace{
		{"RawMessage", func(s string) interface{} { return json.RawMessage(s) }, false},
		{"*RawMessage", func(s string) interface{} { r := json.RawMessage(s); return &r }, false},
		{"a JSON method", func(s string) interface{} { return marshalN{s} }, false},
		{"string", func(s string) interface{} { return s }, false},
		{"elements", func(s string) interface{} { return []interface{}{marshalN{s}, json.RawMessage(s), s} }, false},
		{"a field", func(s string) interface{} {
			return struct {
				A json.RawMessage
				B marshalN
			}{json.RawMessage(s), marshalN{s}}
		}, false},
	}
	addEngine("C09", &Engine{
		Name:   "texts of values",
		Rule:   "values whose output begins or ends in every byte and in every short sequence of separators, newlines and quotes (raw messages, JSON methods, strings, nested ones): every history of such a value, a plain one and the value again through an encoder, and through a streamer, gives the writer what encoding each of them alone produces, followed by one newline each",
		Bounds: fmt.Sprintf("%d texts x %d kinds of value", len(texts), len(makers)),
		Units:  func(bool) int { return len(makers) * 16 },
		Run: func(w *W, unit int) {
			mk := makers[unit/16]
			for ti := unit % 16; ti < len(texts); ti += 16 {
				for mode := 0; mode < 3; mode++ {
					if !w.Begin() {
						if w.Stop() {
							return
						}
						continue
					}
					t := texts[ti]
					desc := func() string {
						return fmt.Sprintf("%s %q, 2, the same again, through %s", mk.name, t, []string{"an encoder", "a streamer", "one writer and two encoders"}[mode])
					}
					w.Announce(desc)
					w.Sample(desc)
					w.States++
					w.Transitions += 3
					w.Nontrivial++
					if err := textHistory(mk.f(t), mode); err != nil {
						w.Fail(desc(), err)
						return
					}
				}
			}
		},
	})
}

func textHistory(v interface{}, mode int) (err error) {
	defer catch(&err)
	one, err := jzon.Marshal(v)
	if err != nil {
		return fmt.Errorf("Marshal: %v", err)
	}
	exp := ""
	fw := &faultWriter{limit: -1}
	add := func(b string, e error) {
		exp += b
		if e != nil && err == nil {
			err = e
		}
	}
	switch mode {
	case 0, 2:
		e := jzon.NewEncoder(fw)
		add(string(one)+"\n", e.Encode(v))
		if mode == 2 {
			e.Release()
			e = jzon.NewEncoder(fw)
		}
		add("2\n", e.Encode(2))
		add(string(one)+"\n", e.Encode(v))
		e.Release()
	case 1:
		s := jzon.NewStreamer()
		defer s.Release()
		s.Reset(fw)
		add(string(one), s.Value(v).Flush())
		s.Reset(fw)
		add("[2,"+string(one)+",", s.ArrayStart().Value(2).Value(v).Value(v).Flush())
		exp = strings.TrimSuffix(exp, ",") + "," + string(one)
		add("]", s.ArrayEnd().Flush())
	}
	if err != nil {
		return err
	}
	if got := fw.got.String(); got != exp {
		return fmt.Errorf("written %q, expected %q", clip(got, 300), clip(exp, 300))
	}
	return nil
}
