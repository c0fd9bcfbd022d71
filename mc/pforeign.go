package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/zerosnake0/jzon"
)

// One foreign byte in a run: every length, every place, every byte.  (Reading
// several bytes at once goes wrong for some of the bytes which are not meant.)

const foreignMax = 34

// foreignTexts calls f for run(n) with every byte in every place
func foreignEach(run string, f func(i int, text []byte) bool) {
	b := []byte(run)
	for i := 0; i < len(b); i++ {
		for c := 0; c < 256; c++ {
			b[i] = byte(c)
			if !f(i, b) {
				return
			}
		}
		b[i] = run[i]
	}
}

func foreignDigits(n int) string { return strings.Repeat("1234567890", n/10+1)[:n] }

func foreignNumbers(n int) []string {
	d := foreignDigits(n)
	return []string{d, "-" + d, "0." + d, d + ".5", d + "e1", "1e" + strings.Repeat("0", n-1) + "1", "2.5E-" + strings.Repeat("0", n-1) + "2"}
}

func foreignUnits(k int) func(bool) int { return func(bool) int { return k * foreignMax } }

func init() {
	const what = "runs of every length with every one of the 256 bytes at every place"
	bounds := fmt.Sprintf("lengths 1..%d", foreignMax)
	// C01: white space, digits, characters of strings and of names, with more text behind
	docs := []func(n int) string{
		func(n int) string { return strings.Repeat(" ", n) + "1" },
		func(n int) string { return "[1," + strings.Repeat("\n", n) + "2 ,3,4,5,6,7]" },
		func(n int) string { return `{"a":1` + strings.Repeat("\t", n) + `}         ` },
		func(n int) string { return "1" + strings.Repeat("\r", n) },
		func(n int) string { return `"` + strings.Repeat("x", n) + `"` },
		func(n int) string { return `["` + strings.Repeat("x", n) + `","yyyyyyyyyyyy"]` },
		func(n int) string { return `{"` + strings.Repeat("k", n) + `":"yyyyyyyyyyyy"}` },
		func(n int) string { return `[` + foreignDigits(n) + `,123456789012]` },
		func(n int) string { return `[0.` + foreignDigits(n) + `,123456789012]` },
		func(n int) string { return `[1e-` + strings.Repeat("0", n) + `,123456789012]` },
		func(n int) string { return strings.Repeat("[", n) + strings.Repeat("]", n) },
		func(n int) string { return `[` + strings.Repeat("true,", n) + `false]` },
		func(n int) string { return `[` + strings.Repeat("null,", n) + `{}]` },
	}
	addEngine("C01", &Engine{
		Name: "foreign bytes", Rule: what + ", in white space, strings, names, numbers, brackets and literals: every accepting entry point agrees with the grammar", Bounds: bounds,
		Units: foreignUnits(len(docs)),
		Run: func(w *W, unit int) {
			foreignEach(docs[unit/foreignMax](unit%foreignMax+1), func(i int, b []byte) bool {
				w.States++
				c01Check(w, append([]byte{}, b...), foreignLevel(unit%foreignMax+1))
				return !w.Stop()
			})
		},
	})
	addEngine("C03", &Engine{
		Name: "foreign bytes", Rule: what + " as an integer of every size, on every reading path", Bounds: bounds,
		Units: foreignUnits(3),
		Run: func(w *W, unit int) {
			n := unit%foreignMax + 1
			run := foreignDigits(n)
			switch unit / foreignMax {
			case 1:
				run = "-" + run
			case 2:
				run = strings.Repeat("0", n)
			}
			foreignEach(run, func(i int, b []byte) bool {
				if b[i] != ',' { // (the text is put between commas)
					w.States++
					c03Check(w, string(b), 1)
				}
				return !w.Stop()
			})
		},
	})
	addEngine("C04", &Engine{
		Name: "foreign bytes", Rule: what + " as a number of both sizes, on every reading path", Bounds: bounds,
		Units: foreignUnits(7),
		Run: func(w *W, unit int) {
			foreignEach(foreignNumbers(unit%foreignMax + 1)[unit/foreignMax], func(i int, b []byte) bool {
				if b[i] != ',' {
					w.States++
					c04Check(w, string(b), 1)
				}
				return !w.Stop()
			})
		},
	})
	addEngine("C05", &Engine{
		Name: "foreign bytes", Rule: what + " in strings (plain, non-ASCII, behind an escape), on every reading path", Bounds: bounds,
		Units: foreignUnits(3),
		Run: func(w *W, unit int) {
			n := unit%foreignMax + 1
			run := strings.Repeat("x", n)
			switch unit / foreignMax {
			case 1:
				run = strings.Repeat("é", n/2+1)
			case 2:
				run = `\n` + run
			}
			foreignEach(run, func(i int, b []byte) bool {
				w.States++
				c05Check(w, string(b)+`"`, 1)
				return !w.Stop()
			})
		},
	})
	addEngine("C10", &Engine{
		Name: "foreign bytes", Rule: what + " in strings to encode (plain and non-ASCII), both html modes", Bounds: bounds,
		Units: foreignUnits(2),
		Run: func(w *W, unit int) {
			n := unit%foreignMax + 1
			run := strings.Repeat("x", n)
			if unit >= foreignMax {
				run = strings.Repeat("é", n/2+1)
			}
			l := [2]*lightStreamer{newLight(), newLight()}
			foreignEach(run, func(i int, b []byte) bool {
				w.States++
				return strCase(w, l, string(b), n < 12) && !w.Stop()
			})
		},
	})
	// C17: in strings, names and numbers, at the top and inside
	c17docs := []func(n int) string{
		func(n int) string { return `"` + strings.Repeat("x", n) + `"` },
		func(n int) string { return `["` + strings.Repeat("x", n) + `","yyyyyyyy"]` },
		func(n int) string { return `{"` + strings.Repeat("k", n) + `":"yyyyyyyy"}` },
		func(n int) string { return foreignDigits(n) },
		func(n int) string { return `[0.` + foreignDigits(n) + `,12345678]` },
		func(n int) string { return "[1," + strings.Repeat(" ", n) + "2 ]" },
	}
	const c17Max = 20
	addEngine("C17", &Engine{
		Name: "foreign bytes", Rule: what + ", in strings, names, numbers and white space: every reading method succeeds exactly on a value and consumes exactly its bytes", Bounds: fmt.Sprintf("lengths 1..%d", c17Max),
		Units: func(bool) int { return len(c17docs) * c17Max },
		Run: func(w *W, unit int) {
			foreignEach(c17docs[unit/c17Max](unit%c17Max+1), func(i int, b []byte) bool {
				return c17AcceptCase(w, append([]byte{}, b...)) && !w.Stop()
			})
		},
	})
	// names of fields against keys which differ at one place
	specials := []string{"\u212a", "\u017f", "é", "É", "ß", "\u00df", "世", "😀", "\ufffd", ""}
	addEngine("C12", &Engine{
		Name: "foreign bytes", Rule: "fields with names of every length x keys with every character, or a character of another length, or none, at every place of the name; structs of 1, 2 and 12 fields, unknown members skipped and rejected", Bounds: bounds,
		Units: foreignUnits(4),
		Run: func(w *W, unit int) {
			n := unit%foreignMax + 1
			base := []string{"a", "K", "s_", "Zk"}[unit/foreignMax]
			name := strings.Repeat(base, n/len(base)+1)[:n]
			plain, dis := newDecCfgs()
			for _, nf := range []int{1, 2, 12} {
				var fs []reflect.StructField
				for i := 0; i < nf; i++ {
					tag := name
					if i > 0 {
						tag = fmt.Sprintf("%s.%d", name, i)
					}
					fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: rt[int](), Tag: reflect.StructTag(`json:"` + tag + `"`)})
				}
				t := reflect.StructOf(fs)
				fresh := func() reflect.Value { return reflect.New(t) }
				check := func(key string) bool {
					q, _ := json.Marshal(key)
					text := `{` + string(q) + `:7}`
					return c12Case(w, plain, t, text, false, fresh) && c12Case(w, dis, t, text, true, fresh) && !w.Stop()
				}
				for i := 0; i < n; i++ {
					for c := 0; c < 128; c++ {
						if !check(name[:i] + string(rune(c)) + name[i+1:]) {
							return
						}
					}
					for _, s := range specials {
						if !check(name[:i]+s+name[i+1:]) || !check(strings.Repeat(s, i)+name[i:]) {
							return
						}
					}
				}
			}
		},
	})

	// C18: bytes which are shared with something else
	type sharedDest struct {
		name string
		mk   func(b []byte) (dst interface{}, text func(v string) string)
	}
	type named []byte
	id := func(v string) string { return v }
	dests := []sharedDest{
		{"[]byte", func(b []byte) (interface{}, func(string) string) { return &b, id }},
		{"named bytes", func(b []byte) (interface{}, func(string) string) { n := named(b); return &n, id }},
		{"pointer", func(b []byte) (interface{}, func(string) string) { p := &b; return &p, id }},
		{"field", func(b []byte) (interface{}, func(string) string) {
			return &struct {
				A int
				B []byte
			}{1, b}, func(v string) string { return `{"B":` + v + `}` }
		}},
		{"only field", func(b []byte) (interface{}, func(string) string) {
			return &struct{ B []byte }{b}, func(v string) string { return `{"B":` + v + `}` }
		}},
		{"array element", func(b []byte) (interface{}, func(string) string) {
			return &[2][]byte{b, b[:0]}, func(v string) string { return `[` + v + `,` + v + `]` }
		}},
		{"slice element", func(b []byte) (interface{}, func(string) string) {
			return &[][]byte{b}, func(v string) string { return `[` + v + `]` }
		}},
		{"map value", func(b []byte) (interface{}, func(string) string) {
			return &map[string][]byte{"k": b}, func(v string) string { return `{"k":` + v + `}` }
		}},
		{"interface", func(b []byte) (interface{}, func(string) string) { var x interface{} = &b; return &x, id }},
	}
	addEngine("C18", &Engine{
		Name: "shared bytes", Rule: "a destination which holds bytes shared with something else (every length and room) receives a string: the shared bytes stay as they were and the destination holds the new ones", Bounds: "9 destinations; lengths and rooms 0..40; decoded lengths 0..40, repeated",
		Units: func(bool) int { return len(dests) * 41 },
		Run: func(w *W, unit int) {
			d, room := dests[unit/41], unit%41
			for have := 0; have <= room; have++ {
				for n := 0; n <= 40; n++ {
					if !w.Begin() {
						if w.Stop() {
							return
						}
						continue
					}
					desc := func() string {
						return fmt.Sprintf("%s holding %d of %d shared bytes <- %d bytes", d.name, have, room, n)
					}
					w.Announce(desc)
					w.Sample(desc)
					w.States++
					w.Transitions += 2
					w.Nontrivial++
					if err := sharedCase(d.mk, have, room, n); err != nil {
						w.Fail(desc(), err)
						return
					}
				}
			}
		},
	})
}

// base64 of every length with line breaks at every place
func init() {
	mk := func(n, every, at int) string {
		src := make([]byte, n)
		for i := range src {
			src[i] = byte(i*7 + i>>3)
		}
		q, _ := json.Marshal(src)
		q = q[1 : len(q)-1]
		var sb strings.Builder
		for i, c := range q {
			if i == at || every > 0 && i > 0 && i%every == 0 {
				sb.WriteString(`\r\n`)
			}
			sb.WriteByte(c)
		}
		if at >= len(q) {
			sb.WriteString(`\n`)
		}
		return sb.String()
	}
	lens := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 47, 48, 49, 57, 58, 95, 96, 97, 191, 192, 193, 383, 384, 385, 765, 766, 767, 768, 769, 770, 1535, 1536, 1537, 3071, 3072, 3073, 6144, 6145}
	for _, id := range []string{"C18", "C21"} {
		addEngine(id, &Engine{
			Name: "base64 lines", Rule: "base64 of bytes of many lengths with one line break at every place (and a break after every k characters), and with one wrong character at every place, into bytes of five kinds: as the standard library", Bounds: "41 lengths up to 6145 bytes; breaks after every 1..80",
			Units: func(bool) int { return len(lens) },
			Run: func(w *W, unit int) {
				n := lens[unit]
				try := func(v string) bool {
					for k := 0; k < 5; k++ {
						if k > 0 && len(v) > 200 && len(v)%5 != k {
							continue
						}
						if !w.Begin() {
							if w.Stop() {
								return false
							}
							continue
						}
						type named []byte
						var a, b interface{}
						switch k {
						case 0:
							a, b = new([]byte), new([]byte)
						case 1:
							a, b = new(named), new(named)
						case 2:
							a, b = &struct{ B *[]byte }{}, &struct{ B *[]byte }{}
						case 3:
							a, b = new([1][]byte), new([1][]byte)
						case 4:
							a, b = new(map[string][]byte), new(map[string][]byte)
						}
						text := []byte([]string{`"` + v + `"`, `"` + v + `"`, `{"B":"` + v + `"}`, `["` + v + `"]`, `{"k":"` + v + `"}`}[k])
						desc := func() string { return fmt.Sprintf("%T <- %s", a, clip(string(text), 700)) }
						w.Announce(desc)
						w.States++
						w.Transitions++
						w.Nontrivial++
						err := func() (err error) {
							defer catch(&err)
							e1, e2 := jzon.Unmarshal(text, a), json.Unmarshal(text, b)
							if (e1 == nil) != (e2 == nil) {
								return fmt.Errorf("error %v, reference error %v", e1, e2)
							}
							if e1 == nil && !eqv(reflect.ValueOf(a), reflect.ValueOf(b), 0) {
								return fmt.Errorf("another value than the reference")
							}
							return nil
						}()
						if err != nil {
							w.Fail(desc(), err)
							return false
						}
					}
					return true
				}
				plain := mk(n, 0, -1)
				step := 1
				if len(plain) > 1200 {
					step = 3
				}
				for at := 0; at <= len(plain); at += step {
					if !try(mk(n, 0, at)) {
						return
					}
					if at < len(plain) {
						for _, c := range []string{"=", "-", "A", " "} {
							if !try(plain[:at] + c + plain[at+1:]) {
								return
							}
						}
					}
				}
				for k := 1; k <= 80; k++ {
					if !try(mk(n, k, -1)) {
						return
					}
				}
				for k := 0; k < 8 && k <= len(plain); k++ {
					if !try(plain[:len(plain)-k]) || !try(plain+strings.Repeat("=", k)) {
						return
					}
				}
			},
		})
	}
}

func sharedCase(mk func(b []byte) (interface{}, func(v string) string), have, room, n int) (err error) {
	defer catch(&err)
	old := []byte(strings.Repeat("#", room))
	shared := old[:have:room]
	dst, wrap := mk(shared)
	ref, _ := mk([]byte{})
	for _, c := range []string{"\x01", "\xfe"} {
		q, _ := json.Marshal([]byte(strings.Repeat(c, n)))
		text := []byte(wrap(string(q)))
		if err := jzon.Unmarshal(text, dst); err != nil {
			return err
		}
		if err := json.Unmarshal(text, ref); err != nil {
			return fmt.Errorf("harness: %v", err)
		}
		if !eqv(reflect.ValueOf(dst), reflect.ValueOf(ref), 0) {
			return fmt.Errorf("%s: got %s, want %s", text, clip(show(dst), 300), clip(show(ref), 300))
		}
		if s := string(old); s != strings.Repeat("#", room) {
			return fmt.Errorf("%s: the shared bytes are now %q", text, s)
		}
	}
	return nil
}

// all entry points for the shorter runs
func foreignLevel(n int) int {
	if n <= 17 {
		return 1
	}
	return 0
}
