package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/bits"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/zerosnake0/jzon"
)

// C10: scalars are encoded exactly.

// streamText runs calls on a streamer and returns the bytes it writes
func streamText(cfg *jzon.EncoderConfig, f func(s *jzon.Streamer)) (string, error) {
	s := cfg.NewStreamer()
	var bb bytes.Buffer
	s.Reset(&bb)
	f(s)
	err := s.Flush()
	s.Release()
	return bb.String(), err
}

// lightStreamer keeps one streamer for many calls
type lightStreamer struct {
	s  *jzon.Streamer
	bb bytes.Buffer
}

func newLight() *lightStreamer {
	l := &lightStreamer{s: jzon.NewStreamer()}
	return l
}

func (l *lightStreamer) begin() *jzon.Streamer {
	l.bb.Reset()
	l.s.Reset(&l.bb)
	return l.s
}

func (l *lightStreamer) text() ([]byte, error) {
	err := l.s.Flush()
	return l.bb.Bytes(), err
}

type scalarField[T any] struct {
	F T  `json:"f"`
	Q T  `json:"q,string"`
	P *T `json:"p"`
	R *T `json:"r,string"`
	O T  `json:"o,omitempty"`
}

// posCheck encodes v at every position; lit is the expected literal, quoted
// the content of a ,string field
func posCheck[T any](cfg *jzon.EncoderConfig, v T, lit string, quoted string, zero bool) error {
	one := func(name string, x interface{}, want string) error {
		b, err := cfg.Marshal(x)
		if err != nil {
			return fmt.Errorf("%s: %v, want %s", name, err, want)
		}
		if string(b) != want {
			return fmt.Errorf("%s: %s, want %s", name, b, want)
		}
		return nil
	}
	o := `,"o":` + lit
	if zero {
		o = ""
	}
	p := &v
	checks := []struct {
		n string
		x interface{}
		w string
	}{
		{"top level", v, lit},
		{"pointer", &v, lit},
		{"pointer to pointer", &p, lit},
		{"slice", []T{v, v, v}, "[" + lit + "," + lit + "," + lit + "]"},
		{"array", [2]T{v, v}, "[" + lit + "," + lit + "]"},
		{"array of one", [1]T{v}, "[" + lit + "]"},
		{"interface element", []interface{}{v, &v}, "[" + lit + "," + lit + "]"},
		{"map value", map[string]T{"k": v}, `{"k":` + lit + `}`},
		{"map interface value", map[string]interface{}{"k": v}, `{"k":` + lit + `}`},
		{"struct", scalarField[T]{v, v, &v, &v, v}, `{"f":` + lit + `,"q":` + quoted + `,"p":` + lit + `,"r":` + quoted + o + `}`},
		{"pointer to struct", &scalarField[T]{v, v, &v, &v, v}, `{"f":` + lit + `,"q":` + quoted + `,"p":` + lit + `,"r":` + quoted + o + `}`},
		{"one field", struct{ X T }{v}, `{"X":` + lit + `}`},
		{"pointer field", struct{ X *T }{&v}, `{"X":` + lit + `}`},
	}
	for _, c := range checks {
		if _, isByte := any(v).(uint8); isByte && c.n == "slice" {
			continue
		}
		if err := one(c.n, c.x, c.w); err != nil {
			return err
		}
	}
	got, err := streamText(cfg, func(s *jzon.Streamer) { s.ArrayStart().Value(v).Value(v).ArrayEnd() })
	if err != nil || got != "["+lit+","+lit+"]" {
		return fmt.Errorf("streamer Value: %s (%v), want [%s,%s]", got, err, lit, lit)
	}
	return nil
}

func keyCheck[T comparable](cfg *jzon.EncoderConfig, v T, key string) error {
	b, err := cfg.Marshal(map[T]int{v: 1})
	if err != nil || string(b) != `{`+key+`:1}` {
		return fmt.Errorf("map key: %s (%v), want {%s:1}", b, err, key)
	}
	b, err = cfg.Marshal(map[T]interface{}{v: nil})
	if err != nil || string(b) != `{`+key+`:null}` {
		return fmt.Errorf("map key: %s (%v), want {%s:null}", b, err, key)
	}
	return nil
}

type namedInt interface{ ~int64 | ~uint64 }

type (
	nI8  int8
	nI16 int16
	nI32 int32
	nI64 int64
	nU8  uint8
	nU16 uint16
	nU32 uint32
	nU64 uint64
	nF32 float32
	nF64 float64
	nStr string
	nBoo bool
)

func intPos(kind int, v int64) (err error) {
	defer catch(&err)
	lit := strconv.FormatInt(v, 10)
	if kind >= 5 {
		lit = strconv.FormatUint(uint64(v), 10)
	}
	q := `"` + lit + `"`
	cfg := jzon.DefaultEncoderConfig
	z := v == 0
	first := func(es ...error) error {
		for _, e := range es {
			if e != nil {
				return e
			}
		}
		return nil
	}
	st := func(f func(s *jzon.Streamer)) error {
		got, err := streamText(cfg, f)
		if err != nil || got != lit {
			return fmt.Errorf("streamer call: %s (%v), want %s", got, err, lit)
		}
		return nil
	}
	switch kind {
	case 0:
		return first(posCheck(cfg, int8(v), lit, q, z), posCheck(cfg, nI8(v), lit, q, z), keyCheck(cfg, int8(v), q), keyCheck(cfg, nI8(v), q), st(func(s *jzon.Streamer) { s.Int8(int8(v)) }))
	case 1:
		return first(posCheck(cfg, int16(v), lit, q, z), posCheck(cfg, nI16(v), lit, q, z), keyCheck(cfg, int16(v), q), keyCheck(cfg, nI16(v), q), st(func(s *jzon.Streamer) { s.Int16(int16(v)) }))
	case 2:
		return first(posCheck(cfg, int32(v), lit, q, z), posCheck(cfg, nI32(v), lit, q, z), keyCheck(cfg, int32(v), q), keyCheck(cfg, nI32(v), q), st(func(s *jzon.Streamer) { s.Int32(int32(v)) }))
	case 3:
		return first(posCheck(cfg, v, lit, q, z), posCheck(cfg, nI64(v), lit, q, z), keyCheck(cfg, v, q), keyCheck(cfg, nI64(v), q), st(func(s *jzon.Streamer) { s.Int64(v) }))
	case 4:
		return first(posCheck(cfg, int(v), lit, q, z), posCheck(cfg, NInt(v), lit, q, z), keyCheck(cfg, int(v), q), keyCheck(cfg, NInt(v), q), st(func(s *jzon.Streamer) { s.Int(int(v)) }))
	case 5:
		return first(posCheck(cfg, uint8(v), lit, q, z), posCheck(cfg, struct{ B uint8 }{uint8(v)}, `{"B":`+lit+`}`, `{"B":`+lit+`}`, false), keyCheck(cfg, uint8(v), q), keyCheck(cfg, nU8(v), q), st(func(s *jzon.Streamer) { s.Uint8(uint8(v)) }))
	case 6:
		return first(posCheck(cfg, uint16(v), lit, q, z), posCheck(cfg, nU16(v), lit, q, z), keyCheck(cfg, uint16(v), q), keyCheck(cfg, nU16(v), q), st(func(s *jzon.Streamer) { s.Uint16(uint16(v)) }))
	case 7:
		return first(posCheck(cfg, uint32(v), lit, q, z), posCheck(cfg, nU32(v), lit, q, z), keyCheck(cfg, uint32(v), q), keyCheck(cfg, nU32(v), q), st(func(s *jzon.Streamer) { s.Uint32(uint32(v)) }))
	case 8:
		return first(posCheck(cfg, uint64(v), lit, q, z), posCheck(cfg, nU64(v), lit, q, z), keyCheck(cfg, uint64(v), q), keyCheck(cfg, nU64(v), q), st(func(s *jzon.Streamer) { s.Uint64(uint64(v)) }))
	case 9:
		return first(posCheck(cfg, uint(v), lit, q, z), keyCheck(cfg, uint(v), q), st(func(s *jzon.Streamer) { s.Uint(uint(v)) }))
	case 10:
		return first(posCheck(cfg, uintptr(v), lit, q, z), keyCheck(cfg, uintptr(v), q))
	}
	return nil
}

var intKindBits = []int{8, 16, 32, 64, 64, 8, 16, 32, 64, 64, 64}
var intKindNames = []string{"int8", "int16", "int32", "int64", "int", "uint8", "uint16", "uint32", "uint64", "uint", "uintptr"}

func truncKind(kind int, v int64) int64 {
	b := uint(64 - intKindBits[kind])
	if kind < 5 {
		return v << b >> b
	}
	return int64(uint64(v) << b >> b)
}

// boundary patterns: around every power of two and ten, and every combination
// of interesting digit triples
func intPatterns(win int64) []int64 {
	seen := map[int64]bool{}
	var out []int64
	add := func(v int64) {
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	for k := uint(0); k < 64; k++ {
		for d := -win; d <= win; d++ {
			add(int64(1<<k) + d)
			add(-int64(1<<k) + d)
		}
	}
	p := uint64(1)
	for k := 0; k < 20; k++ {
		for d := -win; d <= win; d++ {
			add(int64(p) + d)
			add(-int64(p) + d)
			for m := uint64(2); m <= 9; m++ {
				add(int64(p*m) + d)
			}
		}
		p *= 10
	}
	return out
}

var tripleAlpha = []uint64{0, 1, 9, 10, 99, 100, 999, 123}

func refFloat(f float64, b int) []byte {
	abs := math.Abs(f)
	fm := byte('f')
	if abs != 0 {
		if b == 64 && (abs < 1e-6 || abs >= 1e21) || b == 32 && (float32(abs) < 1e-6 || float32(abs) >= 1e21) {
			fm = 'e'
		}
	}
	out := strconv.AppendFloat(nil, f, fm, -1, b)
	if fm == 'e' {
		n := len(out)
		if n >= 4 && out[n-4] == 'e' && (out[n-3] == '-' || out[n-3] == '+') && out[n-2] == '0' {
			out[n-2] = out[n-1]
			out = out[:n-1]
		}
	}
	return out
}

func light64(w *W, l *lightStreamer, f float64) bool {
	if !w.Begin() {
		return !w.Stop()
	}
	desc := func() string { return fmt.Sprintf("float64 %x", math.Float64bits(f)) }
	w.Announce(desc)
	w.States++
	w.Transitions++
	w.Nontrivial++
	l.begin().Float64(f)
	got, err := l.text()
	want := refFloat(f, 64)
	if err != nil || !bytes.Equal(got, want) {
		w.Fail(desc(), fmt.Errorf("%s (%v), want %s", got, err, want))
		return false
	}
	return true
}

func light32(w *W, l *lightStreamer, f float32) bool {
	if !w.Begin() {
		return !w.Stop()
	}
	desc := func() string { return fmt.Sprintf("float32 %x", math.Float32bits(f)) }
	w.Announce(desc)
	w.States++
	w.Transitions++
	w.Nontrivial++
	l.begin().Float32(f)
	got, err := l.text()
	want := refFloat(float64(f), 32)
	if err != nil || !bytes.Equal(got, want) {
		w.Fail(desc(), fmt.Errorf("%s (%v), want %s", got, err, want))
		return false
	}
	return true
}

func floatPos64(f float64) (err error) {
	defer catch(&err)
	b, e := json.Marshal(f)
	if e != nil {
		return floatErr(f)
	}
	lit := string(b)
	if lit != string(refFloat(f, 64)) {
		return fmt.Errorf("the reference formatter disagrees with encoding/json: %s", lit)
	}
	if back, e := strconv.ParseFloat(lit, 64); e != nil || math.Float64bits(back) != math.Float64bits(f) {
		return fmt.Errorf("reference %s does not read back", lit)
	}
	cfg := jzon.DefaultEncoderConfig
	if err := posCheck(cfg, f, lit, `"`+lit+`"`, f == 0); err != nil {
		return err
	}
	return posCheck(cfg, nF64(f), lit, `"`+lit+`"`, f == 0)
}

func floatPos32(f float32) (err error) {
	defer catch(&err)
	b, e := json.Marshal(f)
	if e != nil {
		return floatErr(f)
	}
	lit := string(b)
	if lit != string(refFloat(float64(f), 32)) {
		return fmt.Errorf("the reference formatter disagrees with encoding/json: %s", lit)
	}
	if back, e := strconv.ParseFloat(lit, 32); e != nil || math.Float32bits(float32(back)) != math.Float32bits(f) {
		return fmt.Errorf("reference %s does not read back", lit)
	}
	cfg := jzon.DefaultEncoderConfig
	if err := posCheck(cfg, f, lit, `"`+lit+`"`, f == 0); err != nil {
		return err
	}
	return posCheck(cfg, nF32(f), lit, `"`+lit+`"`, f == 0)
}

// non-finite floats are errors at every position
func floatErr[T float32 | float64](f T) error {
	cfg := jzon.DefaultEncoderConfig
	for i, x := range []interface{}{f, &f, []T{1, f}, [2]T{f, 1}, map[string]T{"a": f}, []interface{}{"x", f}, struct{ A, B T }{1, f},
		struct {
			A T `json:",string"`
		}{f}, struct {
			A *T `json:",string"`
		}{&f}, struct {
			A T `json:",omitempty"`
		}{f}} {
		b, err := cfg.Marshal(x)
		if err == nil || b != nil {
			return fmt.Errorf("position %d: non-finite value encoded as %q (%v)", i, b, err)
		}
	}
	for i, g := range []func(s *jzon.Streamer){
		func(s *jzon.Streamer) { s.Value(f) },
		func(s *jzon.Streamer) { s.ArrayStart().Int(1).Value(f).Int(2).ArrayEnd() },
		func(s *jzon.Streamer) {
			switch x := any(f).(type) {
			case float32:
				s.Float32(x)
			case float64:
				s.Float64(x)
			}
		},
	} {
		if got, err := streamText(cfg, g); err == nil || got != "" {
			return fmt.Errorf("streamer %d: non-finite value flushed as %q (%v)", i, got, err)
		}
	}
	return nil
}

// ---- strings -----------------------------------------------------------------

type encStrHolder struct {
	S string  `json:"s"`
	Q string  `json:"q,string"`
	P *string `json:"p,omitempty"`
	N NString `json:"n"`
	I interface{}
	T textOf
}

type textOf string

func (t textOf) MarshalText() ([]byte, error) { point(); return []byte(t), nil }

func strLight(l [2]*lightStreamer, v string) error {
	for m := 0; m < 2; m++ {
		s := l[m].begin()
		s.EscapeHTML(m == 0)
		s.String(v)
		got, err := l[m].text()
		want, e2 := stdMarshal(v, m == 0)
		if err != nil || e2 != nil || !bytes.Equal(got, want) {
			return fmt.Errorf("html=%v: %s (%v), want %s (%v)", m == 0, got, err, want, e2)
		}
	}
	return nil
}

func strPos(v string) (err error) {
	defer catch(&err)
	for m := 0; m < 2; m++ {
		html := m == 0
		cfg := jzon.DefaultEncoderConfig
		if !html {
			cfg = noHTMLCfg
		}
		want, e := stdMarshal(v, html)
		if e != nil {
			return e
		}
		lit := string(want)
		qw, _ := stdMarshal(lit, html)
		if err := posCheck(cfg, v, lit, string(qw), v == ""); err != nil {
			return fmt.Errorf("html=%v: %w", html, err)
		}
		if err := posCheck(cfg, NString(v), lit, string(qw), v == ""); err != nil {
			return fmt.Errorf("named, html=%v: %w", html, err)
		}
		if err := posCheck(cfg, textOf(v), lit, lit, v == ""); err != nil {
			return fmt.Errorf("text marshaler, html=%v: %w", html, err)
		}
		if err := keyCheck(cfg, v, lit); err != nil {
			return fmt.Errorf("html=%v: %w", html, err)
		}
		if err := keyCheck(cfg, NString(v), lit); err != nil {
			return fmt.Errorf("named, html=%v: %w", html, err)
		}
		if err := keyCheck(cfg, textOf(v), lit); err != nil {
			return fmt.Errorf("text key, html=%v: %w", html, err)
		}
		x := encStrHolder{v, v, &v, NString(v), v, textOf(v)}
		a, e1 := cfg.Marshal(&x)
		if w := `{"s":` + lit + `,"q":` + string(qw) + `,"p":` + lit + `,"n":` + lit + `,"I":` + lit + `,"T":` + lit + `}`; e1 != nil || string(a) != w {
			return fmt.Errorf("html=%v struct: %s (%v), want %s", html, a, e1, w)
		}
		got, err := streamText(cfg, func(s *jzon.Streamer) {
			s.ObjectStart().Field(v).String(v).Field("t").Value(v).ObjectEnd()
		})
		if w := "{" + lit + ":" + lit + `,"t":` + lit + "}"; err != nil || got != w {
			return fmt.Errorf("html=%v streamer: %s (%v), want %s", html, got, err, w)
		}
		// overriding the mode on a streamer of the other configuration
		other := noHTMLCfg
		if !html {
			other = jzon.DefaultEncoderConfig
		}
		got, err = streamText(other, func(s *jzon.Streamer) {
			s.EscapeHTML(html)
			s.ObjectStart().Field(v).Value(v).Field("q").Value(struct {
				Q string `json:",string"`
			}{v}).Field("m").Value(map[string]string{v: v}).ObjectEnd()
		})
		if w := "{" + lit + ":" + lit + `,"q":{"Q":` + string(qw) + `},"m":{` + lit + ":" + lit + "}}"; err != nil || got != w {
			return fmt.Errorf("html=%v overridden: %s (%v), want %s", html, got, err, w)
		}
	}
	return nil
}

func strCase(w *W, l [2]*lightStreamer, v string, full bool) bool {
	if !w.Begin() {
		return !w.Stop()
	}
	desc := func() string { return fmt.Sprintf("string %+q", v) }
	w.Announce(desc)
	w.States++
	w.Transitions++
	w.Nontrivial++
	err := strLight(l, v)
	if err == nil && full {
		err = strPos(v)
	}
	if err != nil {
		w.Fail(desc(), err)
		return false
	}
	return true
}

// items that matter for escaping and UTF-8 validity
var strItems = []string{"a", "\x00", "\x1f", " ", `"`, `\`, "<", ">", "&", "/", "\n", "\t", "\r", "\b", "\f", "\x7f", "\x80", "\xbf", "\xc0", "\xc2", "\xdf", "\xe0", "\xed", "\xef", "\xf0", "\xf4", "\xf5", "\xff", "é", "\u2028", "\u2029", "\ufffd", "\U0001F600", "\xa0", "\u2027", "'"}

func init() {
	register(&Property{ID: "C10", Engines: []*Engine{
		{
			Name:   "small integers",
			Rule:   "all values of the 8 and 16 bit types at every position (top level, pointer, element, field, quoted field, map value, map key, streamer call)",
			Bounds: "all 2^8 and 2^16 values, four kinds",
			Units:  func(bool) int { return 256 },
			Run: func(w *W, unit int) {
				for _, kind := range []int{0, 1, 5, 6} {
					n := 1
					if intKindBits[kind] == 16 {
						n = 256
					}
					for j := 0; j < n; j++ {
						v := truncKind(kind, int64(unit*n+j))
						if !intCase(w, kind, v) {
							return
						}
					}
				}
			},
		},
		{
			Name:   "integer patterns",
			Rule:   "32 and 64 bit kinds at every position: windows around every power of two and multiples of powers of ten, and every combination of interesting digit triples",
			Bounds: "window 25 quick, 60 thorough; 8^7 triple combinations through the streamer calls",
			Units:  func(bool) int { return 64 + 64 },
			Run: func(w *W, unit int) {
				if unit < 64 {
					win := int64(25)
					if w.Thorough {
						win = 60
					}
					for i, p := range intPatterns(win) {
						if i%64 != unit {
							continue
						}
						for kind := range intKindBits {
							if !intCase(w, kind, truncKind(kind, p)) {
								return
							}
						}
					}
					return
				}
				// the seven triples of a 64 bit value; unit fixes the two lowest
				unit -= 64
				l := newLight()
				defer l.s.Release()
				product(5, len(tripleAlpha), func(d []int) bool {
					v := uint64(0)
					for i, x := range d {
						t := tripleAlpha[x]
						if i == 0 {
							t = t % 19 // at most 18 of the leading triple fits
						}
						v = v*1000 + t
					}
					v = v*1000 + tripleAlpha[unit/8]
					v = v*1000 + tripleAlpha[unit%8]
					return lightInt(w, l, v)
				})
			},
		},
		{
			Name:   "integer ranges",
			Rule:   "complete ranges through the streamer calls of all widths: 0..5x10^6 (thorough: all 2^32 values of int32 and uint32)",
			Bounds: "quick 0..5000000 and the negatives; thorough 2^32",
			Units:  func(th bool) int { return 1000 },
			Run: func(w *W, unit int) {
				l := newLight()
				defer l.s.Release()
				if !w.Thorough {
					for j := 0; j < 5000; j++ {
						if !lightInt(w, l, uint64(unit*5000+j)) || !lightInt(w, l, uint64(-int64(unit*5000+j))) {
							return
						}
					}
					return
				}
				const step = (1<<32)/1000 + 1
				for j := uint64(0); j < step; j++ {
					v := uint64(unit)*step + j
					if v < 1<<32 && !lightInt(w, l, v) {
						return
					}
				}
			},
		},
		{
			Name:   "float32",
			Rule:   "every sign and exponent x every mantissa with at most two bits set or cleared, and the lowest and highest mantissas, against the shortest round-trip formatting (thorough: all 2^32 values); a subset at every position",
			Bounds: "512 exponents x ~1100 mantissas quick; 2^32 thorough",
			Units:  func(bool) int { return 512 },
			Run: func(w *W, unit int) {
				l := newLight()
				defer l.s.Release()
				if w.Thorough {
					for m := uint32(0); m < 1<<23; m++ {
						f := math.Float32frombits(uint32(unit)<<23 | m)
						if f-f == 0 && !light32(w, l, f) {
							return
						}
					}
				}
				for i, m := range mantissas(23, 256) {
					f := math.Float32frombits(uint32(unit)<<23 | uint32(m))
					if f-f == 0 && !light32(w, l, f) {
						return
					}
					if i%8 == 0 || f-f != 0 && i < 50 {
						if !w.Begin() {
							if w.Stop() {
								return
							}
							continue
						}
						w.Announce(func() string { return fmt.Sprintf("positions of float32 %x", math.Float32bits(f)) })
						if err := floatPos32(f); err != nil {
							w.Fail(fmt.Sprintf("positions of float32 %x", math.Float32bits(f)), err)
							return
						}
					}
				}
			},
		},
		{
			Name:   "float64",
			Rule:   "every sign and exponent x every mantissa with at most two bits set or cleared and the lowest and highest, against the shortest round-trip formatting; a subset at every position",
			Bounds: "4096 exponents x ~2900 mantissas",
			Units:  func(bool) int { return 4096 },
			Run: func(w *W, unit int) {
				l := newLight()
				defer l.s.Release()
				for i, m := range mantissas(52, 64) {
					f := math.Float64frombits(uint64(unit)<<52 | m)
					if f-f == 0 && !light64(w, l, f) {
						return
					}
					if i%97 == 0 || f-f != 0 && i < 50 {
						if !w.Begin() {
							if w.Stop() {
								return
							}
							continue
						}
						w.Announce(func() string { return fmt.Sprintf("positions of float64 %x", math.Float64bits(f)) })
						if err := floatPos64(f); err != nil {
							w.Fail(fmt.Sprintf("positions of float64 %x", math.Float64bits(f)), err)
							return
						}
					}
				}
			},
		},
		{
			Name:   "decimal floats",
			Rule:   "the floats nearest to d x 10^e for all d and e, with their neighbours, both widths, at every position for small d",
			Bounds: "d 1..999 (thorough 9999), e -345..308",
			Units:  func(bool) int { return 654 },
			Run: func(w *W, unit int) {
				l := newLight()
				defer l.s.Release()
				e := unit - 345
				max := 999
				if w.Thorough {
					max = 9999
				}
				for d := 1; d <= max; d++ {
					s := strconv.Itoa(d) + "e" + strconv.Itoa(e)
					f, err := strconv.ParseFloat(s, 64)
					if err == nil {
						for _, x := range []float64{f, math.Nextafter(f, 0), math.Nextafter(f, math.Inf(1)), -f} {
							if x-x == 0 && !light64(w, l, x) {
								return
							}
						}
					}
					g, err := strconv.ParseFloat(s, 32)
					if err == nil {
						h := float32(g)
						for _, x := range []float32{h, math.Nextafter32(h, 0), math.Nextafter32(h, float32(math.Inf(1))), -h} {
							if x-x == 0 && !light32(w, l, x) {
								return
							}
						}
					}
					if d <= 20 {
						if !w.Begin() {
							if w.Stop() {
								return
							}
							continue
						}
						w.Announce(func() string { return "positions of " + s })
						err := floatPos64(f)
						if err == nil {
							err = floatPos32(float32(g))
						}
						if err != nil {
							w.Fail("positions of "+s, err)
							return
						}
					}
				}
			},
		},
		{
			Name:   "code points",
			Rule:   "every code point 0..0x10FFFF (and every surrogate encoded as bytes) alone and between letters, both escaping modes; all positions for the first 0x3000",
			Bounds: "all code points",
			Units:  func(bool) int { return 0x110 },
			Run: func(w *W, unit int) {
				l := [2]*lightStreamer{newLight(), newLight()}
				for c := unit * 0x1000; c < (unit+1)*0x1000; c++ {
					var v string
					if c >= 0xD800 && c < 0xE000 {
						v = string([]byte{0xED, 0xA0 + byte(c>>6&0x1F), 0x80 | byte(c&0x3F)})
					} else {
						v = string(utf8.AppendRune(nil, rune(c)))
					}
					full := c < 0x3000 && (c < 0x100 || c > 0x1FF0 && c < 0x2050 || c%64 == 0)
					if !strCase(w, l, v, full) || c < 0x3000 && !strCase(w, l, "x"+v+"y"+v, false) {
						return
					}
				}
			},
		},
		{
			Name:   "byte strings",
			Rule:   "every string of two arbitrary bytes, and every string of items (all byte classes of escaping and UTF-8 validity, some longer runes) to the length bound, alone and embedded, both modes; all positions for strings of up to two items",
			Bounds: "256^2 byte pairs; 36 items, length 4 quick, 5 thorough",
			Units:  func(bool) int { return 256 + 36*36 },
			Run: func(w *W, unit int) {
				l := [2]*lightStreamer{newLight(), newLight()}
				if unit < 256 {
					for b := 0; b < 256; b++ {
						if !strCase(w, l, string([]byte{byte(unit), byte(b)}), false) {
							return
						}
						if !strCase(w, l, "ab"+string([]byte{byte(unit), byte(b)})+"cd", b%8 == 0) {
							return
						}
					}
					return
				}
				unit -= 256
				pre := strItems[unit/36] + strItems[unit%36]
				if !strCase(w, l, pre, true) {
					return
				}
				n := 2
				if w.Thorough {
					n = 3
				}
				product(n, 36, func(v []int) bool {
					s := pre
					for _, x := range v {
						s += strItems[x]
					}
					return strCase(w, l, s, false) && strCase(w, l, "z"+s+"z", false)
				})
			},
		},
		{
			Name:   "string lengths",
			Rule:   "strings of every length 0..700 with one special item at the front, in the middle or at the end",
			Bounds: "lengths 0..700, 36 items",
			Units:  func(bool) int { return 701 },
			Run: func(w *W, unit int) {
				l := [2]*lightStreamer{newLight(), newLight()}
				base := longStr(unit)
				for i, it := range strItems {
					h := unit / 2
					if !strCase(w, l, it+base, false) || !strCase(w, l, base+it, false) || !strCase(w, l, base[:h]+it+base[h:]+it, i == 4 && unit%16 == 0) {
						return
					}
				}
			},
		},
		{
			Name:   "booleans and nulls",
			Rule:   "both booleans and the nil values at every position",
			Bounds: "all",
			Units:  func(bool) int { return 1 },
			Run: func(w *W, unit int) {
				if !w.Begin() {
					return
				}
				w.States += 4
				w.Nontrivial += 4
				for _, b := range []bool{false, true} {
					lit := strconv.FormatBool(b)
					if err := posCheck(jzon.DefaultEncoderConfig, b, lit, `"`+lit+`"`, !b); err != nil {
						w.Fail(lit, err)
						return
					}
					if err := posCheck(jzon.DefaultEncoderConfig, nBoo(b), lit, `"`+lit+`"`, !b); err != nil {
						w.Fail(lit, err)
						return
					}
					b := b
					if got, err := streamText(noHTMLCfg, func(s *jzon.Streamer) { s.Bool(b) }); err != nil || got != lit {
						w.Fail(lit, fmt.Errorf("streamer %s %v", got, err))
						return
					}
				}
				for _, v := range []interface{}{nil, (*int)(nil), (*string)(nil), []int(nil), map[string]int(nil), (**int)(nil), (*interface{})(nil), []byte(nil), (*bool)(nil), (*float64)(nil)} {
					b, err := jzon.Marshal(v)
					if err != nil || string(b) != "null" {
						w.Fail(fmt.Sprintf("%T nil", v), fmt.Errorf("%s %v", b, err))
						return
					}
				}
			},
		},
		{
			Name:   "byte slices and numbers",
			Rule:   "byte slices of every length 0..260 and all contents of one and two bytes as base64 at every position; json.Number texts",
			Bounds: "lengths 0..260; 65536 two-byte contents",
			Units:  func(bool) int { return 256 },
			Run: func(w *W, unit int) {
				check := func(b []byte) bool {
					if !w.Begin() {
						return !w.Stop()
					}
					w.States++
					w.Nontrivial++
					desc := func() string { return fmt.Sprintf("[]byte %x", b) }
					w.Announce(desc)
					for _, v := range []interface{}{b, NBytes(b), [][]byte{b, b}, map[string][]byte{"k": b}, struct {
						B []byte
						N NBytes `json:",omitempty"`
						P *[]byte
					}{b, b, &b}, []interface{}{b}} {
						want, _ := stdMarshal(v, true)
						got, err := jzon.Marshal(v)
						if err != nil || !bytes.Equal(got, want) {
							w.Fail(desc(), fmt.Errorf("%T: %s (%v), want %s", v, got, err, want))
							return false
						}
					}
					return true
				}
				long := bytes.Repeat([]byte{byte(unit), 0xFB, 7}, 90)
				if !check(long[:unit]) || !check([]byte{byte(unit)}) {
					return
				}
				if unit == 0 {
					for _, n := range []int{256, 257, 258, 259, 260, 1000, 1001, 1002, 5000} {
						if !check(bytes.Repeat([]byte("q\xff"), n)[:n]) {
							return
						}
					}
				}
				for b := 0; b < 256; b++ {
					if !check([]byte{byte(unit), byte(b)}) {
						return
					}
				}
			},
		},
	}})
}

func mantissas(n uint, edge uint64) []uint64 {
	full := uint64(1)<<n - 1
	var out []uint64
	add := func(m uint64) { out = append(out, m, full^m) }
	add(0)
	for i := uint(0); i < n; i++ {
		add(1 << i)
		for j := uint(0); j < i; j++ {
			add(1<<i | 1<<j)
		}
	}
	for m := uint64(3); m < edge; m++ {
		if bits.OnesCount64(m) > 2 {
			add(m)
		}
	}
	return out
}

func intCase(w *W, kind int, v int64) bool {
	if !w.Begin() {
		return !w.Stop()
	}
	desc := func() string {
		if kind >= 5 {
			return fmt.Sprintf("%s %d", intKindNames[kind], uint64(v))
		}
		return fmt.Sprintf("%s %d", intKindNames[kind], v)
	}
	w.Announce(desc)
	w.States++
	w.Transitions++
	w.Nontrivial++
	if err := intPos(kind, v); err != nil {
		w.Fail(desc(), err)
		return false
	}
	return true
}

// lightInt: one value through the streamer calls of all widths
func lightInt(w *W, l *lightStreamer, v uint64) bool {
	if !w.Begin() {
		return !w.Stop()
	}
	desc := func() string { return fmt.Sprintf("streamer integers %d", v) }
	w.Announce(desc)
	w.States++
	w.Transitions++
	w.Nontrivial++
	l.begin().ArrayStart().Uint64(v).Int64(int64(v)).Uint32(uint32(v)).Int32(int32(v)).Uint16(uint16(v)).Int16(int16(v)).Uint8(uint8(v)).Int8(int8(v)).Int(int(v)).Uint(uint(v)).ArrayEnd()
	got, err := l.text()
	var buf [256]byte
	want := append(buf[:0], '[')
	u := func(x uint64) { want = append(strconv.AppendUint(want, x, 10), ',') }
	i := func(x int64) { want = append(strconv.AppendInt(want, x, 10), ',') }
	u(v)
	i(int64(v))
	u(uint64(uint32(v)))
	i(int64(int32(v)))
	u(uint64(uint16(v)))
	i(int64(int16(v)))
	u(uint64(uint8(v)))
	i(int64(int8(v)))
	i(int64(v))
	u(v)
	want[len(want)-1] = ']'
	if err != nil || !bytes.Equal(got, want) {
		w.Fail(desc(), fmt.Errorf("%s (%v), want %s", got, err, want))
		return false
	}
	return true
}

var _ = reflect.TypeOf
var _ = strings.Repeat
