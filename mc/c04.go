package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	"github.com/zerosnake0/jzon"
)

// C04: floats decode to the correctly rounded value or are rejected.

// numScan reads one JSON number greedily: ok=false when the text does not
// start with a number or the number breaks off.
func numScan(s string) (lit string, ok bool) {
	i := 0
	if i < len(s) && s[i] == '-' {
		i++
	}
	if i >= len(s) || !isDigit(s[i]) {
		return "", false
	}
	if s[i] == '0' {
		i++
	} else {
		for i < len(s) && isDigit(s[i]) {
			i++
		}
	}
	if i < len(s) && s[i] == '.' {
		i++
		if i >= len(s) || !isDigit(s[i]) {
			return "", false
		}
		for i < len(s) && isDigit(s[i]) {
			i++
		}
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		i++
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			i++
		}
		if i >= len(s) || !isDigit(s[i]) {
			return "", false
		}
		for i < len(s) && isDigit(s[i]) {
			i++
		}
	}
	return s[:i], true
}

type floatGuard struct {
	G0  uint32
	F32 float32 `json:"f32"`
	G1  uint32
	F64 float64 `json:"f64"`
	G2  uint32
	Q32 float32 `json:"q32,string"`
	G3  uint32
	Q64 float64 `json:"q64,string"`
	G4  uint32
	P32 *float32 `json:"p32"`
}

func f32same(a, b float32) bool { return math.Float32bits(a) == math.Float32bits(b) }
func f64same(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

func floatAll(text string, level int) (err error) {
	defer catch(&err)
	body := strings.TrimLeft(text, " \t\r\n")
	lit, isNum := numScan(body)
	complete := isNum && strings.TrimRight(body[len(lit):], " \t\r\n") == ""
	var w32, w64 float64
	ok32, ok64 := false, false
	if isNum {
		var e error
		w32, e = strconv.ParseFloat(lit, 32)
		ok32 = e == nil
		w64, e = strconv.ParseFloat(lit, 64)
		ok64 = e == nil
	}
	// iterator
	it := jzon.NewIterator()
	it.ResetBytes([]byte(text))
	v64, e := it.ReadFloat64()
	rest := string(it.Buffer())
	if (e == nil) != ok64 {
		return fmt.Errorf("ReadFloat64: %v error %v, reference accepts=%v", v64, e, ok64)
	}
	if ok64 && (!f64same(v64, w64) || rest != body[len(lit):]) {
		return fmt.Errorf("ReadFloat64: %v rest %q, want %v rest %q", v64, rest, w64, body[len(lit):])
	}
	it.ResetBytes([]byte(text))
	v32, e := it.ReadFloat32()
	rest = string(it.Buffer())
	it.Release()
	if (e == nil) != ok32 {
		return fmt.Errorf("ReadFloat32: %v error %v, reference accepts=%v", v32, e, ok32)
	}
	if ok32 && (!f32same(v32, float32(w32)) || rest != body[len(lit):]) {
		return fmt.Errorf("ReadFloat32: %v rest %q, want %v rest %q", v32, rest, float32(w32), body[len(lit):])
	}
	if strings.TrimSpace(text) == "null" {
		return nil
	}
	ok32, ok64 = ok32 && complete, ok64 && complete
	v64, v32 = -7, -7
	e = jzon.Unmarshal([]byte(text), &v64)
	if (e == nil) != ok64 || ok64 && !f64same(v64, w64) {
		return fmt.Errorf("Unmarshal(float64): %v error %v, want %v accepts=%v", v64, e, w64, ok64)
	}
	e = jzon.Unmarshal([]byte(text), &v32)
	if (e == nil) != ok32 || ok32 && !f32same(v32, float32(w32)) {
		return fmt.Errorf("Unmarshal(float32): %v error %v, want %v accepts=%v", v32, e, float32(w32), ok32)
	}
	// the number reader accepts any literal, whatever its range
	it = jzon.NewIterator()
	it.ResetBytes([]byte(text))
	n, e := it.ReadNumber()
	rest = string(it.Buffer())
	it.Release()
	if (e == nil) != isNum || isNum && (n.String() != lit || rest != body[len(lit):]) {
		return fmt.Errorf("ReadNumber: %q rest %q error %v, want %q accepts=%v", n, rest, e, lit, isNum)
	}
	if level == 0 {
		return nil
	}
	const g = 0xA5A5A5A5
	mk := func() floatGuard { return floatGuard{G0: g, G1: g, G2: g, G3: g, G4: g} }
	guard := func(what string, s floatGuard) error {
		if s.G0 != g || s.G1 != g || s.G2 != g || s.G3 != g || s.G4 != g {
			return fmt.Errorf("%s: neighbour memory changed %+v", what, s)
		}
		return nil
	}
	s := mk()
	e = jzon.Unmarshal([]byte(`{"f32":`+text+`,"f64":0}`), &s)
	if (e == nil) != ok32 || ok32 && !f32same(s.F32, float32(w32)) {
		return fmt.Errorf("float32 field: %v error %v, want %v accepts=%v", s.F32, e, float32(w32), ok32)
	}
	if err := guard("float32 field", s); err != nil {
		return err
	}
	s = mk()
	e = jzon.Unmarshal([]byte(`{"f64":`+text+`}`), &s)
	if (e == nil) != ok64 || ok64 && !f64same(s.F64, w64) {
		return fmt.Errorf("float64 field: %v error %v, want %v accepts=%v", s.F64, e, w64, ok64)
	}
	if err := guard("float64 field", s); err != nil {
		return err
	}
	s = mk()
	e = jzon.Unmarshal([]byte(`{"p32":`+text+`}`), &s)
	if (e == nil) != ok32 || ok32 && !f32same(*s.P32, float32(w32)) {
		return fmt.Errorf("*float32 field: error %v, want %v accepts=%v", e, float32(w32), ok32)
	}
	v32, v64 = 0, 0
	e = jzon.UnmarshalFromReader(&oneByteReader{b: []byte(text)}, &v32)
	if (e == nil) != ok32 || ok32 && !f32same(v32, float32(w32)) {
		return fmt.Errorf("reader float32: %v error %v, want %v accepts=%v", v32, e, float32(w32), ok32)
	}
	e = jzon.UnmarshalFromReader(&oneByteReader{b: []byte(text)}, &v64)
	if (e == nil) != ok64 || ok64 && !f64same(v64, w64) {
		return fmt.Errorf("reader float64: %v error %v, want %v accepts=%v", v64, e, w64, ok64)
	}
	var sl []float32
	e = jzon.Unmarshal([]byte(`[`+text+`,`+text+`]`), &sl)
	if (e == nil) != ok32 || ok32 && (len(sl) != 2 || !f32same(sl[0], float32(w32)) || !f32same(sl[1], float32(w32))) {
		return fmt.Errorf("[]float32: %v error %v, want %v accepts=%v", sl, e, float32(w32), ok32)
	}
	var ar [2]float64
	e = jzon.Unmarshal([]byte(`[`+text+`,`+text+`]`), &ar)
	if (e == nil) != ok64 || ok64 && (!f64same(ar[0], w64) || !f64same(ar[1], w64)) {
		return fmt.Errorf("[2]float64: %v error %v, want %v accepts=%v", ar, e, w64, ok64)
	}
	var nf NF32
	e = jzon.Unmarshal([]byte(text), &nf)
	if (e == nil) != ok32 || ok32 && !f32same(float32(nf), float32(w32)) {
		return fmt.Errorf("named float32: %v error %v, want %v accepts=%v", nf, e, float32(w32), ok32)
	}
	if isNum {
		var o interface{}
		e = jzon.Unmarshal([]byte(text), &o)
		if (e == nil) != ok64 || ok64 && !eqTree(o, w64) {
			return fmt.Errorf("interface{}: %v error %v, want %v accepts=%v", o, e, w64, ok64)
		}
	}
	if strings.ContainsAny(text, "\"\\\n\t\r \x01") {
		return nil
	}
	s = mk()
	e = jzon.Unmarshal([]byte(`{"q32":"`+text+`"}`), &s)
	if (e == nil) != ok32 || ok32 && !f32same(s.Q32, float32(w32)) {
		return fmt.Errorf("quoted float32: %v error %v, want %v accepts=%v", s.Q32, e, float32(w32), ok32)
	}
	e = jzon.Unmarshal([]byte(`{"q64":"`+text+`"}`), &s)
	if (e == nil) != ok64 || ok64 && !f64same(s.Q64, w64) {
		return fmt.Errorf("quoted float64: %v error %v, want %v accepts=%v", s.Q64, e, w64, ok64)
	}
	return guard("quoted", s)
}

func c04Check(w *W, text string, level int) {
	if !w.Begin() {
		return
	}
	w.Announce(func() string { return fmt.Sprintf("%q", clip(text, 2000)) })
	w.Sample(func() string { return text })
	if _, ok := numScan(text); ok {
		w.Nontrivial++
	}
	if err := floatAll(text, level); err != nil {
		w.Fail(fmt.Sprintf("%q", clip(text, 2000)), err)
	}
}

// decimal text of m * 2^e, exactly
func exactDec(m *big.Int, e int) string {
	if e >= 0 {
		return new(big.Int).Lsh(m, uint(e)).String()
	}
	// m / 2^k = m*5^k / 10^k
	k := -e
	n := new(big.Int).Mul(m, new(big.Int).Exp(big.NewInt(5), big.NewInt(int64(k)), nil)).String()
	if len(n) <= k {
		n = strings.Repeat("0", k-len(n)+1) + n
	}
	return n[:len(n)-k] + "." + n[len(n)-k:]
}

func init() {
	ints := []string{"0", "1", "2", "5", "9", "10", "12", "99", "123", "999999", "16777217", "4294967295", "9007199254740993", "18446744073709551615", "123456789012345678901234567890", "17976931348623157"}
	fracs := []string{"", ".0", ".1", ".5", ".25", ".9", ".05", ".00001", ".123456789", ".000000000000000000000000000001", ".99999999999999999999", ".12345678901234567890123456789"}
	register(&Property{ID: "C04", Engines: []*Engine{
		{
			Name:   "strings",
			Rule:   "every string over \"0159-+.eE x\" to the length bound, every float path; non-trivial = starts with a JSON number",
			Bounds: "length 6 quick (full paths to 5), 7 thorough",
			Units:  func(bool) int { return 121 },
			Run: func(w *W, unit int) {
				const A = "0159-+.eE x"
				max, full := 6, 5
				if w.Thorough {
					max, full = 7, 6
				}
				var rec func(s string)
				rec = func(s string) {
					if w.Stop() {
						return
					}
					w.States++
					lvl := 1
					if len(s) > full {
						lvl = 0
					}
					c04Check(w, s, lvl)
					if len(s) < max {
						for i := range A {
							w.Transitions++
							rec(s + A[i:i+1])
						}
					}
				}
				if unit < 11 {
					c04Check(w, A[unit:unit+1], 1)
				}
				rec(A[unit/11:unit/11+1] + A[unit%11:unit%11+1])
			},
		},
		{
			Name:   "grammar",
			Rule:   "sign x integer part x fraction x every exponent in -400..400 (three spellings)",
			Bounds: "16 integer parts, 12 fractions, 801 exponents",
			Units:  func(bool) int { return len(ints) * len(fracs) },
			Run: func(w *W, unit int) {
				i, f := ints[unit/len(fracs)], fracs[unit%len(fracs)]
				for _, sg := range []string{"", "-"} {
					w.States++
					c04Check(w, sg+i+f, 1)
					for e := -400; e <= 400; e++ {
						if w.Stop() {
							return
						}
						w.Transitions++
						ex := "e" + strconv.Itoa(e)
						if e >= 0 && e&1 == 1 {
							ex = "E+" + strconv.Itoa(e)
						} else if e%3 == 0 {
							ex = strings.Replace(ex, "e-", "e-0", 1)
						}
						lvl := 0
						if e%10 == 0 || e > 30 && e < 45 || e < -40 && e > -50 || e > 300 && e < 312 {
							lvl = 1
						}
						c04Check(w, sg+i+f+ex, lvl)
					}
				}
			},
		},
		{
			Name:   "halfway",
			Rule:   "for every binary exponent of both formats (subnormals included) and a set of mantissas: the exact decimal text of the float, of the midpoint to the next float, and of both neighbours of the midpoint at the last digit",
			Bounds: "all exponents; mantissas 0,1,2,3, all ones, all ones-1, alternating, one high bit",
			Units:  func(bool) int { return 2300 },
			Run: func(w *W, unit int) {
				prec, minE := 24, -149
				e := unit + minE
				if unit >= 280 {
					prec, minE = 53, -1074
					e = (unit - 280) + minE
					if e > 971 {
						return
					}
				} else if e > 104 {
					return
				}
				one := big.NewInt(1)
				top := new(big.Int).Lsh(one, uint(prec-1))
				var ms []*big.Int
				for _, m := range []int64{0, 1, 2, 3} {
					ms = append(ms, new(big.Int).Add(top, big.NewInt(m)))
				}
				all := new(big.Int).Sub(new(big.Int).Lsh(one, uint(prec)), one)
				ms = append(ms, all, new(big.Int).Sub(all, one), new(big.Int).Div(new(big.Int).Mul(all, big.NewInt(2)), big.NewInt(3)))
				if e == minE { // subnormals
					for _, m := range []int64{1, 2, 3, 4, 5} {
						ms = append(ms, big.NewInt(m))
					}
					ms = append(ms, new(big.Int).Sub(top, one))
				}
				for _, m := range ms {
					if w.Stop() {
						return
					}
					w.States++
					exact := exactDec(m, e)
					half := exactDec(new(big.Int).Add(new(big.Int).Lsh(m, 1), one), e-1)
					lo := new(big.Int).Sub(new(big.Int).Lsh(m, 1), one)
					texts := []string{exact, "-" + half, half}
					if !strings.Contains(half, ".") {
						half += ".0"
					}
					texts = append(texts, half+"1", "-"+half+"00000000000000000000000001", exactDec(lo, e-1))
					// just below the midpoint
					b := []byte(half + "0")
					for i := len(b) - 1; i >= 0; i-- {
						if b[i] == '.' {
							continue
						}
						if b[i] > '0' {
							b[i]--
							break
						}
						b[i] = '9'
					}
					texts = append(texts, string(b))
					for _, t := range texts {
						w.Transitions++
						lvl := 1
						if len(t) > 200 {
							lvl = 0
						}
						if t[0] == '0' && len(t) > 1 && t[1] != '.' {
							t = strings.TrimLeft(t, "0")
						}
						c04Check(w, t, lvl)
					}
				}
			},
		},
		{
			Name:   "float32-all",
			Rule:   "every n-th float32 bit pattern (quick: all patterns whose low 12 bits are in a fixed set; thorough: all 2^32): its shortest text must read back to the same bits",
			Bounds: "quick 2^20 x 5 patterns, thorough all finite",
			Units: func(th bool) int {
				return 512
			},
			Run: func(w *W, unit int) {
				it := jzon.NewIterator()
				defer it.Release()
				buf := make([]byte, 0, 32)
				one := func(bits uint32) bool {
					f := math.Float32frombits(bits)
					if f != f || f-f != 0 {
						return true
					}
					if !w.Begin() {
						return !w.Stop()
					}
					w.Nontrivial++
					buf = strconv.AppendFloat(buf[:0], float64(f), 'e', -1, 32)
					it.ResetBytes(buf)
					got, err := it.ReadFloat32()
					if err != nil || math.Float32bits(got) != bits {
						w.Fail(fmt.Sprintf("float32 bits %#x text %s", bits, buf), fmt.Errorf("got %v (%v)", got, err))
						return false
					}
					return true
				}
				for hi := uint32(unit) << 11; hi < uint32(unit+1)<<11; hi++ {
					if w.Stop() {
						return
					}
					w.States++
					if w.Thorough {
						for lo := uint32(0); lo < 1<<12; lo++ {
							w.Transitions++
							if !one(hi<<12 | lo) {
								return
							}
						}
					} else {
						for _, lo := range []uint32{0, 1, 0x7ff, 0x800, 0xfff} {
							w.Transitions++
							if !one(hi<<12 | lo) {
								return
							}
						}
					}
				}
			},
		},
		{
			Name:   "splits",
			Rule:   "number literals of every shape delivered in every partition into up to three reads, at offsets around the 64 byte buffer",
			Bounds: "22 literals, all two-cut partitions, paddings 0,40..70",
			Units:  func(bool) int { return len(c04SplitLits) },
			Run: func(w *W, unit int) {
				lit := c04SplitLits[unit]
				for pad := 0; pad <= 70; pad++ {
					if pad > 0 && pad < 40 {
						continue
					}
					doc := []byte(strings.Repeat(" ", pad) + "[" + lit + "," + lit + "]")
					var want64 [2]float64
					var want32 [2]float32
					e64 := jsonUn(doc, &want64)
					e32 := jsonUn(doc, &want32)
					for i := 1; i < len(doc)-pad; i++ {
						for j := 0; j < len(doc)-pad-i; j++ {
							if w.Stop() {
								return
							}
							if !w.Begin() {
								continue
							}
							lens := []int{pad + i, j, len(doc)}
							if j == 0 {
								lens = []int{pad + i, len(doc)}
							}
							w.Announce(func() string { return fmt.Sprintf("%q %v", doc, lens) })
							w.States++
							w.Transitions++
							w.Nontrivial++
							err := func() (err error) {
								defer catch(&err)
								var a [2]float64
								var b [2]float32
								e := jzon.UnmarshalFromReader(newChunk(doc, lens...), &a)
								if (e == nil) != (e64 == nil) || e == nil && !eq(a, want64) {
									return fmt.Errorf("float64 %v %v want %v %v", a, e, want64, e64)
								}
								e = jzon.UnmarshalFromReader(newChunk(doc, lens...), &b)
								if (e == nil) != (e32 == nil) || e == nil && !eq(b, want32) {
									return fmt.Errorf("float32 %v %v want %v %v", b, e, want32, e32)
								}
								return nil
							}()
							if err != nil {
								w.Fail(fmt.Sprintf("%q %v", doc, lens), err)
								return
							}
						}
					}
				}
			},
		},
	}})
}

var c04SplitLits = []string{"0", "-0", "1", "12", "0.5", "-12.25", "1e5", "1E+05", "1e-05", "12.34e-5", "-0.0e0", "0e1", "123456789.123456789", "1.7976931348623157e308", "3.4028234663852886e+38", "5e-324", "1e400", "0.1e", "1.", "-", "12e+", "1.5.5"}
