package main

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"github.com/zerosnake0/jzon"
)

// C03: integers decode exactly or not at all.

type intNum interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

type intGuard[T intNum] struct {
	G0 T
	V  T `json:"v"`
	G1 T
	Q  T `json:"q,string"`
	G2 T
	P  *T `json:"p"`
	G3 uint8
}

type intOne[T intNum] struct {
	V T `json:"v"`
}

type intKind struct {
	name   string
	bits   int
	signed bool
	// run executes every path on the text; want is the value as int64/uint64 bits
	run func(text string, ok bool, want uint64, it itExp, level int) error
}

// itExp: what a direct iterator read of the text must do
type itExp struct {
	ok   bool
	val  uint64
	rest string
}

func mkInt[T intNum](name string, bits int, signed bool, read func(*jzon.Iterator) (T, error)) intKind {
	g := T(0x5A)
	return intKind{name, bits, signed, func(text string, ok bool, want uint64, ie itExp, level int) (err error) {
		defer catch(&err)
		wv := T(want)
		// direct iterator read
		it := jzon.NewIterator()
		it.ResetBytes([]byte(text))
		v, e := read(it)
		rest := string(it.Buffer())
		it.Release()
		if (e == nil) != ie.ok {
			return fmt.Errorf("iterator read: value %v error %v, reference accepts=%v", v, e, ie.ok)
		}
		if e == nil && (v != T(ie.val) || rest != ie.rest) {
			return fmt.Errorf("iterator read: value %v rest %q, want %v rest %q", v, rest, T(ie.val), ie.rest)
		}
		// top level
		x := g
		e = jzon.Unmarshal([]byte(text), &x)
		if (e == nil) != ok {
			return fmt.Errorf("Unmarshal(%s): value %v error %v, reference accepts=%v", text, x, e, ok)
		}
		if ok && x != wv {
			return fmt.Errorf("Unmarshal(%s)=%v, want %v", text, x, wv)
		}
		if level == 0 {
			return nil
		}
		// field with neighbours
		chk := func(what string, s intGuard[T], e error, ok bool, f func(s *intGuard[T]) T) error {
			if (e == nil) != ok {
				return fmt.Errorf("%s: error %v, reference accepts=%v", what, e, ok)
			}
			if ok && f(&s) != wv {
				return fmt.Errorf("%s: %v, want %v", what, f(&s), wv)
			}
			if s.G0 != g || s.G1 != g || s.G2 != g || s.G3 != 0x5A {
				return fmt.Errorf("%s: neighbour memory changed: %+v", what, s)
			}
			return nil
		}
		s := intGuard[T]{G0: g, G1: g, G2: g, G3: 0x5A}
		e = jzon.Unmarshal([]byte(`{"v":`+text+`}`), &s)
		if err := chk("field", s, e, ok, func(s *intGuard[T]) T { return s.V }); err != nil {
			return err
		}
		s = intGuard[T]{G0: g, G1: g, G2: g, G3: 0x5A}
		e = jzon.Unmarshal([]byte(`{"p":`+text+`}`), &s)
		if err := chk("pointer field", s, e, ok, func(s *intGuard[T]) T { return *s.P }); err != nil {
			return err
		}
		var o intOne[T]
		e = jzon.Unmarshal([]byte(`{"v":`+text+`}`), &o)
		if (e == nil) != ok || ok && o.V != wv {
			return fmt.Errorf("one-field struct: %v error %v, want %v accepts=%v", o.V, e, wv, ok)
		}
		arr := [4]T{g, g, g, g}
		e = jzon.Unmarshal([]byte(`[1,`+text+`,2]`), (*[3]T)(arr[:3]))
		if (e == nil) != ok || ok && (arr[0] != 1 || arr[1] != wv || arr[2] != 2) || arr[3] != g {
			return fmt.Errorf("array element: %v error %v, want %v accepts=%v", arr, e, wv, ok)
		}
		var sl []T
		e = jzon.Unmarshal([]byte(`[`+text+`,`+text+`]`), &sl)
		if (e == nil) != ok || ok && (len(sl) != 2 || sl[0] != wv || sl[1] != wv) {
			return fmt.Errorf("slice element: %v error %v, want %v accepts=%v", sl, e, wv, ok)
		}
		// through a reader, one byte at a time
		x = g
		e = jzon.UnmarshalFromReader(&oneByteReader{b: []byte(text)}, &x)
		if (e == nil) != ok || ok && x != wv {
			return fmt.Errorf("UnmarshalFromReader: %v error %v, want %v accepts=%v", x, e, wv, ok)
		}
		if strings.ContainsAny(text, "\"\\") {
			return nil
		}
		// quoted forms have no surrounding space
		ok = ok && !strings.ContainsAny(text, " \t\r\n")
		s = intGuard[T]{G0: g, G1: g, G2: g, G3: 0x5A}
		e = jzon.Unmarshal([]byte(`{"q":"`+text+`"}`), &s)
		if err := chk("quoted field", s, e, ok, func(s *intGuard[T]) T { return s.Q }); err != nil {
			return err
		}
		var m map[T]int
		e = jzon.Unmarshal([]byte(`{"`+text+`":1}`), &m)
		if (e == nil) != ok {
			return fmt.Errorf("map key: %v error %v, reference accepts=%v", m, e, ok)
		}
		if ok && (len(m) != 1 || m[wv] != 1) {
			return fmt.Errorf("map key: %v, want %v", m, wv)
		}
		s = intGuard[T]{G0: g, G1: g, G2: g, G3: 0x5A}
		e = jzon.UnmarshalFromReader(&oneByteReader{b: []byte(`{"q":"` + text + `"}`)}, &s)
		if err := chk("quoted field from a reader", s, e, ok, func(s *intGuard[T]) T { return s.Q }); err != nil {
			return err
		}
		m = nil
		e = jzon.UnmarshalFromReader(&oneByteReader{b: []byte(`{"` + text + `":1}`)}, &m)
		if (e == nil) != ok || ok && (len(m) != 1 || m[wv] != 1) {
			return fmt.Errorf("map key from a reader: %v error %v, want %v accepts=%v", m, e, wv, ok)
		}
		return nil
	}}
}

var intKinds = []intKind{
	mkInt("int8", 8, true, (*jzon.Iterator).ReadInt8),
	mkInt("int16", 16, true, (*jzon.Iterator).ReadInt16),
	mkInt("int32", 32, true, (*jzon.Iterator).ReadInt32),
	mkInt("int64", 64, true, (*jzon.Iterator).ReadInt64),
	mkInt("int", 64, true, (*jzon.Iterator).ReadInt),
	mkInt("uint8", 8, false, (*jzon.Iterator).ReadUint8),
	mkInt("uint16", 16, false, (*jzon.Iterator).ReadUint16),
	mkInt("uint32", 32, false, (*jzon.Iterator).ReadUint32),
	mkInt("uint64", 64, false, (*jzon.Iterator).ReadUint64),
	mkInt("uint", 64, false, (*jzon.Iterator).ReadUint),
	mkInt("uintptr", 64, false, func(it *jzon.Iterator) (uintptr, error) {
		v, err := it.ReadUint64()
		return uintptr(v), err
	}),
	mkInt("named int", 64, true, func(it *jzon.Iterator) (NInt, error) {
		v, err := it.ReadInt()
		return NInt(v), err
	}),
	mkInt("named uint8", 8, false, func(it *jzon.Iterator) (NByte, error) {
		v, err := it.ReadUint8()
		return NByte(v), err
	}),
}

// intPrefix returns the longest prefix that is a JSON integer ("" if none)
func intPrefix(s string) string {
	i := 0
	if i < len(s) && s[i] == '-' {
		i++
	}
	if i >= len(s) || !isDigit(s[i]) {
		return ""
	}
	if s[i] == '0' {
		return s[:i+1]
	}
	for i < len(s) && isDigit(s[i]) {
		i++
	}
	return s[:i]
}

func refInt(s string, bits int, signed bool) (uint64, bool) {
	if signed {
		v, err := strconv.ParseInt(s, 10, bits)
		return uint64(v), err == nil
	}
	v, err := strconv.ParseUint(s, 10, bits)
	return v, err == nil
}

func c03Check(w *W, text string, level int) {
	if !w.Begin() {
		return
	}
	w.Announce(func() string { return fmt.Sprintf("%q", text) })
	body := strings.TrimLeft(text, " \t\r\n")
	pre := intPrefix(body)
	full := strings.TrimRight(body, " \t\r\n")
	for _, k := range intKinds {
		var ie itExp
		if pre != "" {
			ie.val, ie.ok = refInt(pre, k.bits, k.signed)
			ie.rest = body[len(pre):]
			if ie.rest != "" && (ie.rest[0] == '.' || ie.rest[0] == 'e' || ie.rest[0] == 'E') {
				ie.ok = false // a fraction or an exponent: not an integer
			}
		}
		ok := pre != "" && pre == full && ie.ok
		if ok {
			w.Nontrivial++
		}
		if full == "null" {
			continue
		}
		if err := k.run(text, ok, ie.val, ie, level); err != nil {
			w.Fail(fmt.Sprintf("%s %q", k.name, text), err)
			return
		}
	}
}

func c03Texts(th bool) []string {
	win := int64(40)
	if th {
		win = 2000
	}
	seen := map[string]bool{}
	var out []string
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	var bounds []*big.Int
	for k := uint(3); k <= 66; k++ {
		bounds = append(bounds, new(big.Int).Lsh(big.NewInt(1), k))
	}
	p := big.NewInt(1)
	for k := 0; k <= 23; k++ {
		bounds = append(bounds, new(big.Int).Set(p))
		p = new(big.Int).Mul(p, big.NewInt(10))
	}
	for _, b := range bounds {
		for d := -win; d <= win; d++ {
			v := new(big.Int).Add(b, big.NewInt(d))
			add(v.String())
			add(new(big.Int).Neg(v).String())
		}
	}
	// values which wrap to something small modulo a width
	for _, k := range []uint{7, 8, 15, 16, 31, 32, 63, 64} {
		for m := int64(1); m <= 300; m++ {
			b := new(big.Int).Mul(new(big.Int).Lsh(big.NewInt(1), k), big.NewInt(m))
			for d := int64(-2); d <= 2; d++ {
				v := new(big.Int).Add(b, big.NewInt(d))
				add(v.String())
				add("-" + v.String())
			}
		}
	}
	// every digit substituted, every digit appended, of the exact limits
	for _, k := range []uint{7, 8, 15, 16, 31, 32, 63, 64} {
		for d := int64(-1); d <= 1; d++ {
			s := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), k), big.NewInt(d)).String()
			for i := range s {
				for c := byte('0'); c <= '9'; c++ {
					t := s[:i] + string([]byte{c}) + s[i+1:]
					for _, sg := range []string{"", "-"} {
						add(sg + t)
						for c2 := byte('0'); c2 <= '9'; c2++ {
							add(sg + t + string([]byte{c2}))
						}
						add(sg + t + "00")
						add(sg + t + ".0")
						add(sg + t + "e0")
					}
				}
			}
			for z := 1; z <= 30; z++ {
				add(s + strings.Repeat("0", z))
				add("-" + s + strings.Repeat("9", z))
				add(strings.Repeat("0", z) + s)
			}
		}
	}
	return out
}

func init() {
	register(&Property{ID: "C03", Engines: []*Engine{
		{
			Name:   "range",
			Rule:   "every integer of the range, for 13 destination types and every path (iterator, top level, field, pointer, array, slice, quoted, map key, byte-wise reader); non-trivial = accepted by the reference",
			Bounds: "-70000..70000 (quick), -1200000..1200000 (thorough)",
			Units: func(th bool) int {
				if th {
					return 2400
				}
				return 140
			},
			Run: func(w *W, unit int) {
				lo := -70000 + unit*1000
				if w.Thorough {
					lo = -1200000 + unit*1000
				}
				for v := lo; v <= lo+1000; v++ {
					if w.Stop() {
						return
					}
					w.States++
					w.Transitions++
					c03Check(w, strconv.Itoa(v), 1)
				}
			},
		},
		{
			Name:   "strings",
			Rule:   "every string over the alphabet \"0129-+.e x\\\"\" to the length bound, all types and paths",
			Bounds: "length 6 quick, 7 thorough",
			Units:  func(bool) int { return 121 },
			Run: func(w *W, unit int) {
				const A = "0129-+.e x\""
				max := 6
				if w.Thorough {
					max = 7
				}
				var rec func(s string)
				rec = func(s string) {
					if w.Stop() {
						return
					}
					w.States++
					lvl := 1
					if len(s) == max {
						lvl = 0
					}
					c03Check(w, s, lvl)
					if len(s) < max {
						for i := range A {
							w.Transitions++
							rec(s + A[i:i+1])
						}
					}
				}
				if unit == 0 {
					c03Check(w, "", 1)
				}
				if unit < 11 {
					c03Check(w, A[unit:unit+1], 1)
				}
				rec(A[unit/11:unit/11+1] + A[unit%11:unit%11+1])
			},
		},
		{
			Name:   "boundaries",
			Rule:   "every integer within a window of every power of two to 2^66 and of ten to 10^23, both signs; multiples of every width modulus (values that wrap); every digit substitution and extension of the exact limits; zeros prepended and appended",
			Bounds: "window 40 quick, 2000 thorough",
			Units:  func(bool) int { return 64 },
			Run: func(w *W, unit int) {
				t := c03Texts(w.Thorough)
				for i := unit; i < len(t); i += 64 {
					if w.Stop() {
						return
					}
					w.States++
					w.Transitions++
					c03Check(w, t[i], 1)
				}
			},
		},
		{
			Name:   "splits",
			Rule:   "limit values delivered by a reader in every partition into up to three reads, also with the number starting right before the end of the 64 byte buffer",
			Bounds: "limits of all widths +-1, all two-cut partitions, paddings 40..70",
			Units:  func(bool) int { return len(intKinds) },
			Run: func(w *W, unit int) {
				k := intKinds[unit]
				var vals []string
				for _, b := range []uint{7, 8, 15, 16, 31, 32, 63, 64} {
					for d := int64(-1); d <= 1; d++ {
						s := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), b), big.NewInt(d)).String()
						vals = append(vals, s, "-"+s)
					}
				}
				vals = append(vals, "0", "-0", "7", "99999999999999999999")
				for _, s := range vals {
					want, ok := refInt(s, k.bits, k.signed)
					for pad := 0; pad <= 70; pad++ {
						if pad > 0 && pad < 40 {
							continue
						}
						for tail := 0; tail < 2; tail++ {
							doc := []byte(strings.Repeat(" ", pad) + "[" + s + "," + s + "]" + strings.Repeat(" ", tail))
							for i := 1; i < len(doc)-pad; i++ {
								for j := 0; j <= len(doc)-pad-i; j++ {
									if pad > 0 && j > 1 {
										break
									}
									if !w.Begin() || w.Stop() {
										continue
									}
									w.Announce(func() string { return fmt.Sprintf("%s %q cuts %d,%d", k.name, doc, pad+i, pad+i+j) })
									w.States++
									w.Transitions++
									if ok {
										w.Nontrivial++
									}
									lens := []int{pad + i, j, len(doc)}
									if j == 0 {
										lens = []int{pad + i, len(doc)}
									}
									if err := c03Split(k, doc, lens, ok, want); err != nil {
										w.Fail(fmt.Sprintf("%s %q cuts %v", k.name, doc, lens), err)
										return
									}
								}
							}
						}
					}
				}
			},
		},
	}})
}

func splitT[T intNum](doc []byte, lens []int, ok bool, want uint64) (err error) {
	defer catch(&err)
	var a [2]T
	e := jzon.UnmarshalFromReader(newChunk(doc, lens...), &a)
	if (e == nil) != ok || ok && (a[0] != T(want) || a[1] != T(want)) {
		return fmt.Errorf("%v error %v, want %v accepts=%v", a, e, T(want), ok)
	}
	return nil
}

func c03Split(k intKind, doc []byte, lens []int, ok bool, want uint64) error {
	switch k.name {
	case "int8":
		return splitT[int8](doc, lens, ok, want)
	case "int16":
		return splitT[int16](doc, lens, ok, want)
	case "int32":
		return splitT[int32](doc, lens, ok, want)
	case "int64":
		return splitT[int64](doc, lens, ok, want)
	case "uint8":
		return splitT[uint8](doc, lens, ok, want)
	case "uint16":
		return splitT[uint16](doc, lens, ok, want)
	case "uint32":
		return splitT[uint32](doc, lens, ok, want)
	case "uint64":
		return splitT[uint64](doc, lens, ok, want)
	case "uint":
		return splitT[uint](doc, lens, ok, want)
	case "uintptr":
		return splitT[uintptr](doc, lens, ok, want)
	case "named uint8":
		return splitT[NByte](doc, lens, ok, want)
	case "named int":
		return splitT[NInt](doc, lens, ok, want)
	}
	return splitT[int](doc, lens, ok, want)
}
