package main

import (
	"encoding/json"
	"fmt"
	"io"
	"strings"

	"github.com/zerosnake0/jzon"
)

// C01: the set of accepted texts.

type unknownTarget struct {
	A int
	B string
}

type oneByteReader struct {
	b []byte
	i int
}

func (r *oneByteReader) Read(p []byte) (int, error) {
	if r.i >= len(r.b) {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	p[0] = r.b[r.i]
	r.i++
	return 1, nil
}

func expectEOF(it *jzon.Iterator) bool {
	_, err := it.NextValueType()
	return err == io.EOF
}

// acceptAll runs every accepting entry point on the text.
// level 0: the cheap ones, 1: all of them
func acceptAll(b []byte, want bool, level int) (err error) {
	defer catch(&err)
	if got := jzon.Valid(b); got != want {
		return fmt.Errorf("Valid=%v, JSON text=%v", got, want)
	}
	it := jzon.NewIterator()
	it.ResetBytes(b)
	e := it.Skip()
	ok := e == nil && expectEOF(it)
	it.Release()
	if ok != want {
		return fmt.Errorf("Skip accepts=%v (%v), JSON text=%v", ok, e, want)
	}
	var o interface{}
	e = jzon.Unmarshal(b, &o)
	if (e == nil) != want {
		if !(want && rangeErr(b)) {
			return fmt.Errorf("Unmarshal(interface{}) error=%v, JSON text=%v", e, want)
		}
	}
	if level == 0 {
		return nil
	}
	var rm json.RawMessage
	e = jzon.Unmarshal(b, &rm)
	if (e == nil) != want {
		return fmt.Errorf("Unmarshal(RawMessage) error=%v, JSON text=%v", e, want)
	}
	it = jzon.NewIterator()
	it.ResetBytes(b)
	_, e = it.SkipRaw()
	ok = e == nil && expectEOF(it)
	it.Release()
	if ok != want {
		return fmt.Errorf("SkipRaw accepts=%v (%v), JSON text=%v", ok, e, want)
	}
	it = jzon.NewIterator()
	it.ResetBytes(b)
	_, e = it.Read()
	ok = e == nil && expectEOF(it)
	it.Release()
	if ok != want && !(want && rangeErr(b)) {
		return fmt.Errorf("Read accepts=%v (%v), JSON text=%v", ok, e, want)
	}
	var rd io.Reader = &oneByteReader{b: b}
	if len(b) > 2048 {
		rd = newChunk(b, 700)
	}
	e = jzon.UnmarshalFromReader(rd, &rm)
	if (e == nil) != want {
		return fmt.Errorf("UnmarshalFromReader(RawMessage) error=%v, JSON text=%v", e, want)
	}
	// the per-kind skips
	if i := firstNonWS(b); i < len(b) {
		var f func(*jzon.Iterator) error
		switch c := b[i]; {
		case c == '{':
			f = (*jzon.Iterator).SkipObject
		case c == '[':
			f = (*jzon.Iterator).SkipArray
		case c == '"':
			f = (*jzon.Iterator).SkipString
		case c == '-' || isDigit(c):
			f = (*jzon.Iterator).SkipNumber
		}
		if f != nil {
			it = jzon.NewIterator()
			it.ResetBytes(b)
			e = f(it)
			ok = e == nil && expectEOF(it)
			it.Release()
			if ok != want {
				return fmt.Errorf("typed skip accepts=%v (%v), JSON text=%v", ok, e, want)
			}
		}
		if b[i] == '{' {
			var st struct{}
			e = jzon.Unmarshal(b, &st)
			if (e == nil) != want {
				return fmt.Errorf("Unmarshal(struct{}) error=%v, JSON text=%v", e, want)
			}
			if !strings.Contains(string(b), "1") && !strings.Contains(string(b), "2") { // keys stay unknown
				var ut unknownTarget
				e = jzon.Unmarshal(b, &ut)
				if (e == nil) != want && !keyAB(b) {
					return fmt.Errorf("Unmarshal(struct with unknown fields) error=%v, JSON text=%v", e, want)
				}
			}
		}
	}
	return nil
}

func keyAB(b []byte) bool {
	s := strings.ToLower(string(b))
	return strings.Contains(s, `"a"`) || strings.Contains(s, `"b"`) || strings.Contains(s, `\u`)
}

func firstNonWS(b []byte) int {
	i := 0
	for i < len(b) && isWS(b[i]) {
		i++
	}
	return i
}

// rangeErr: the text is JSON, but holds a number no float64 can hold.
func rangeErr(b []byte) bool {
	var o interface{}
	err := json.Unmarshal(b, &o)
	_, ok := err.(*json.UnmarshalTypeError)
	return ok
}

func c01Check(w *W, b []byte, level int) {
	if !w.Begin() {
		return
	}
	w.Announce(func() string { return fmt.Sprintf("%q", b) })
	want := refValid(b)
	if std := json.Valid(b); std != want {
		w.Fail(fmt.Sprintf("%q", b), fmt.Errorf("REFERENCE DISAGREEMENT: automaton=%v encoding/json=%v", want, std))
		return
	}
	if want {
		w.Nontrivial++
	}
	if err := acceptAll(b, want, level); err != nil {
		w.Fail(fmt.Sprintf("%q", b), err)
	}
}

// wrapped: the text as the value of an unknown struct field, and as an array element
func c01Wrapped(w *W, b []byte) {
	if !w.Begin() {
		return
	}
	var buf [96]byte
	x := append(append(append(buf[:0], `{"x":`...), b...), '}')
	w.Announce(func() string { return fmt.Sprintf("%q", x) })
	want := refValid(x)
	if want {
		w.Nontrivial++
	}
	err := func() (err error) {
		defer catch(&err)
		var ut unknownTarget
		e := jzon.Unmarshal(x, &ut)
		if (e == nil) != want && !(want && keyAB(x)) {
			return fmt.Errorf("struct with unknown field: error=%v, JSON text=%v", e, want)
		}
		return nil
	}()
	if err != nil {
		w.Fail(fmt.Sprintf("%q", x), err)
	}
}

const c01Alpha = "{}[],:\"\\u01-+.eEtrfalsn \x01x"

func c01Bytes() *Engine {
	A := []byte(c01Alpha)
	return &Engine{
		Name:   "bytes-all",
		Rule:   "every byte string over the 26-letter alphabet " + fmt.Sprintf("%q", c01Alpha) + " up to the length bound, no pruning; every accepting entry point must agree with the JSON automaton; non-trivial = is a JSON text",
		Bounds: "quick: length<=4 all entry points, length 5 main entry points; thorough: length<=5 all, length 6 main",
		Units:  func(bool) int { return len(A) * len(A) },
		Run: func(w *W, unit int) {
			full, main := 4, 5
			if w.Thorough {
				full, main = 5, 6
			}
			buf := make([]byte, 0, 16)
			if unit == 0 {
				c01Check(w, nil, 1)
				for _, a := range A {
					c01Check(w, []byte{a}, 1)
				}
			}
			var rec func()
			rec = func() {
				if w.Stop() {
					return
				}
				w.States++
				lvl := 0
				if len(buf) <= full {
					lvl = 1
				}
				c01Check(w, buf, lvl)
				if lvl == 1 {
					c01Wrapped(w, buf)
				}
				if len(buf) >= main {
					return
				}
				for _, a := range A {
					w.Transitions++
					buf = append(buf, a)
					rec()
					buf = buf[:len(buf)-1]
				}
			}
			buf = append(buf, A[unit/len(A)], A[unit%len(A)])
			rec()
		},
	}
}

// live prefixes of the language, each with its completion, each dead one-symbol
// extension, and each dead extension followed by the completion
func c01Live(name string, toks []string, quickLen, thoroughLen int) *Engine {
	return &Engine{
		Name:   name,
		Rule:   fmt.Sprintf("every live prefix of the JSON language over symbols %q up to the bound; for each: the prefix, its shortest completion, every dead one-symbol extension, and that extension followed by the completion", toks),
		Bounds: fmt.Sprintf("quick: %d symbols, thorough: %d symbols", quickLen, thoroughLen),
		Units:  func(bool) int { return len(toks) * len(toks) },
		Run: func(w *W, unit int) {
			max := quickLen
			if w.Thorough {
				max = thoroughLen
			}
			var rec func(p pda, text []byte, n int)
			scratch := make([]byte, 0, 256)
			rec = func(p pda, text []byte, n int) {
				if w.Stop() {
					return
				}
				w.States++
				c01Check(w, text, 1)
				scratch = append(scratch[:0], text...)
				comp := p.completion(nil)
				scratch = append(scratch, comp...)
				c01Check(w, scratch, 1)
				for _, t := range toks {
					w.Transitions++
					q := pda{st: p.st, key: p.key, stack: append(make([]byte, 0, 16), p.stack...)}
					alive := true
					for i := 0; i < len(t) && alive; i++ {
						alive = q.step(t[i])
					}
					if alive {
						if n < max {
							rec(q, append(append(make([]byte, 0, len(text)+len(t)), text...), t...), n+1)
						}
						continue
					}
					scratch = append(append(scratch[:0], text...), t...)
					c01Check(w, scratch, 0)
					scratch = append(scratch, comp...)
					c01Check(w, scratch, 1)
				}
			}
			var p pda
			p.reset()
			text := []byte(nil)
			for _, t := range []string{toks[unit/len(toks)], toks[unit%len(toks)]} {
				for i := 0; i < len(t); i++ {
					if !p.step(t[i]) {
						return
					}
				}
				text = append(text, t...)
			}
			rec(p, text, 2)
		},
	}
}

// nesting: containers of every depth, with one odd container or one wrong closer at every place
func c01Nest() *Engine {
	maxd := func(th bool) int {
		if th {
			return 400
		}
		return 200
	}
	return &Engine{
		Name:   "nesting",
		Rule:   "every nesting depth 1..D; base pattern all arrays, all objects, alternating, or one odd container at every position; closers correct, one wrong at every position, one missing, one too many",
		Bounds: "quick D=200, thorough D=400",
		Units:  func(th bool) int { return maxd(th) },
		Run: func(w *W, unit int) {
			d := unit + 1
			kinds := make([]byte, d)
			build := func(wrong int, extra int) []byte {
				var b []byte
				for i := 0; i < d; i++ {
					if kinds[i] == '[' {
						b = append(b, '[')
					} else {
						b = append(b, `{"a":`...)
					}
				}
				b = append(b, '0')
				for i := d - 1; i >= 0; i-- {
					c := byte(']')
					if kinds[i] == '{' {
						c = '}'
					}
					if i == wrong {
						c ^= ']' ^ '}'
					}
					if i == 0 && extra < 0 {
						break
					}
					b = append(b, c)
				}
				if extra > 0 {
					b = append(b, ']')
				}
				return b
			}
			all := func() {
				w.States++
				w.Transitions += int64(d)
				c01Check(w, build(-1, 0), 1)
				c01Check(w, build(-1, 1), 1)
				c01Check(w, build(-1, -1), 1)
			}
			for base := 0; base < 4; base++ {
				for i := range kinds {
					kinds[i] = "[{"[(base&1)^(base>>1&i&1)]
				}
				all()
				for odd := 0; odd < d; odd++ {
					if w.Stop() {
						return
					}
					c01Check(w, build(odd, 0), 0) // wrong closer at depth odd
					if base < 2 {
						kinds[odd] ^= '[' ^ '{'
						all()
						kinds[odd] ^= '[' ^ '{'
					}
				}
			}
			// sibling containers after a deep one: leaving a level must restore the parent
			for _, tail := range []string{`,[0]`, `,{"b":0}`, `,"x"`, `:0`, `,`, `,"k":0`} {
				for base := 0; base < 2; base++ {
					for i := range kinds {
						kinds[i] = "[{"[base]
					}
					b := build(-1, 0)
					open := strings.Repeat("[", d)
					if base == 1 {
						open = strings.Repeat(`{"a":`, d)
					}
					for k := 1; k <= d; k += 1 {
						if w.Stop() {
							return
						}
						// insert the tail after k closers
						at := len(open) + 1 + k
						x := append(append(append([]byte{}, b[:at]...), tail...), b[at:]...)
						c01Check(w, x, 0)
					}
				}
			}
		},
	}
}

var c01Seeds = []string{
	`{"a":[1,-2.5e+10,0.1],"bc":{"d":null,"e":true,"f":false},"g":"x\u00e9\n\"\\\/"}`,
	` [ { } , [ ] , "" , 0 , -0 , 1E-2 , "\ud83d\ude00" ] `,
	`"` + "\u00e9\u4e2d\U0001F600" + `"`,
	"\t\r\n{ \"k\" : \"v\" , \"n\" : [ [ [ 1 ] ] ] }\n",
	`[true,false,null,"\b\f\n\r\t"]`,
	`-12.034e+56`,
	`{"":{"":{"":[]}}}`,
	`{"k":"abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnop","l":[1,2,3]}`,
}

// all single edits, with all 256 bytes, of seed documents
func c01Edits() *Engine {
	return &Engine{
		Name:   "edits",
		Rule:   "every single-byte substitution, insertion (all 256 byte values) and deletion, every truncation and every pair of adjacent transpositions of the seed documents; quick adds all pairs of edits over a 12-byte alphabet for the short seeds in thorough",
		Bounds: "1 edit over 256 bytes (quick); 2 edits over 14 bytes (thorough)",
		Units: func(th bool) int {
			n := 0
			for _, s := range c01Seeds {
				n += len(s) + 1
			}
			return n
		},
		Run: func(w *W, unit int) {
			for _, s := range c01Seeds {
				if unit > len(s) {
					unit -= len(s) + 1
					continue
				}
				pos := unit
				w.States++
				c01Check(w, []byte(s[:pos]), 1)
				if pos < len(s) {
					c01Check(w, []byte(s[:pos]+s[pos+1:]), 1)
				}
				second := func(x []byte) {
					if !w.Thorough {
						return
					}
					for p2 := pos; p2 < len(x) && p2 < pos+24; p2++ {
						for _, c := range []byte("{}[],:\"\\0-.e \x00") {
							if w.Stop() {
								return
							}
							old := x[p2]
							x[p2] = c
							c01Check(w, x, 0)
							x[p2] = old
						}
					}
				}
				for c := 0; c < 256; c++ {
					if w.Stop() {
						return
					}
					w.Transitions += 2
					if pos < len(s) {
						x := []byte(s)
						x[pos] = byte(c)
						c01Check(w, x, 1)
						second(x)
					}
					x := []byte(s[:pos] + string([]byte{byte(c)}) + s[pos:])
					c01Check(w, x, 1)
				}
				return
			}
		},
	}
}

func init() {
	var bt []string
	for i := 0; i < len(c01Alpha); i++ {
		bt = append(bt, c01Alpha[i:i+1])
	}
	toks := []string{"{", "}", "[", "]", ",", ":", `"a"`, `"\u00e9"`, "1", "-0.5e1", "true", "null", " "}
	register(&Property{ID: "C01", Engines: []*Engine{
		c01Bytes(),
		c01Live("bytes-live", bt, 6, 7),
		c01Live("tokens-live", toks, 9, 11),
		c01Nest(),
		c01Edits(),
	}})
}
