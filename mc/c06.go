package main

import (
	"fmt"
	"reflect"
	"runtime"
	"strings"

	"github.com/zerosnake0/jzon"
)

// C06: chunk independence.

var c06Short = []string{
	"null", "true", "false", "0", "-0", "7", "12", "-128", "255", "256", "65535", "-32769", "12345678", "1.5", "-0.25e+3", "1E5", "0.1e-1", "1e", "1.", "-", "01", "1.e1", "--1",
	`""`, `"a"`, `"abc"`, `"\n"`, `"a\tb"`, `"\u0041"`, `"\ud83d\ude00"`, `"\ud800x"`, `"\ud800\n"`, `"é中"`, `"AQID"`, `"12"`, `"\q"`, `"ab`, `"\u12`, "\"\x01\"", `"\"`,
	"[]", "[1]", "[1,2]", " [ 1 , 2 ] ", "[[],[]]", `["a","b"]`, "[1,]", "[1 2]", "[", "[1", "[null,3]",
	"{}", `{"a":1}`, `{"A":1,"b":""}`, ` { "a" : 1 } `, `{"1":"x"}`, `{"a":"AQ=="}`, `{"a":{}}`, `{"a":[1]}`, `{"a":1`, `{"a"`, `{"a":}`, `{"a" 1}`, `{a:1}`, `{"f3":5}`,
	"nul", "nulx", "tru", "trux", "falsy", "x", " ", "", "1 2", "null null", "[1]x", "\t\n\r 5",
}

func longStr(n int) string { return strings.Repeat("0123456789abcdef", n/16+1)[:n] }

func c06Long() []string {
	docs := []string{
		`{"a":[1,-2.5e+10,0.1],"b":{"d":null,"e":true,"f":false},"g":"x\u00e9\n\"\\\/"}`,
		` [ { } , [ ] , "" , 0 , -0 , 1E-2 , "\ud83d\ude00" ] `,
		`{"A":12,"b":"string","unknown":{"deep":[1,2,{"x":"y"}]},"F10":10,"i":"5","s":"\"q\""}`,
		`["` + longStr(70) + `","` + longStr(10) + `\n` + longStr(70) + `"]`,
		`[12345678901234567890123456789012345678901234567890123456789012345678901234567890,1]`,
		`{"` + longStr(80) + `":"` + longStr(80) + `","` + longStr(20) + `\t":1}`,
		strings.Repeat(" ", 90) + `{"a" ` + strings.Repeat("\n", 70) + `: 1}`,
		strings.Repeat("[", 40) + strings.Repeat("]", 40),
		`[` + strings.TrimSuffix(strings.Repeat("123,", 60), ",") + `]`,
		`{"a":"` + longStr(100) + `"}x`,
		`[1,2,3,` + longStr(70) + `]`,
	}
	return docs
}

func c06Huge() []string {
	return []string{
		`{"a":"` + longStr(520) + `","b":[` + strings.TrimSuffix(strings.Repeat(`{"k":"v\n"},`, 60), ",") + `]}`,
		`["` + longStr(511) + `","` + longStr(512) + `","` + longStr(513) + `","` + longStr(1100) + `"]`,
		strings.Repeat(" ", 1030) + `[` + strings.Repeat(" ", 600) + `1]`,
		`[` + strings.TrimSuffix(strings.Repeat(`123456.5e3,`, 120), ",") + `]`,
	}
}

func c06Run(w *W, op itOp, ref opResult, doc []byte, lens []int, empties int, eofWith bool) bool {
	if !w.Begin() {
		return !w.Stop()
	}
	desc := func() string {
		return fmt.Sprintf("%s on %q reads %v empty reads %d eof with data %v", op.name, clip(string(doc), 1500), lens, empties, eofWith)
	}
	w.Announce(desc)
	w.Transitions += int64(len(lens))
	r := newChunk(doc, lens...)
	r.empties, r.eofWith = empties, eofWith
	got := opOnReader(op, r)
	if ref.err == nil {
		w.Nontrivial++
	}
	if err := sameOp(ref, got); err != nil {
		w.Fail(desc(), err)
		return false
	}
	return true
}

func init() {
	modes := []struct {
		e   int
		eof bool
	}{{0, false}, {0, true}, {1, false}, {2, true}}
	register(&Property{ID: "C06", Engines: []*Engine{
		{
			Name:   "partitions",
			Rule:   "every short document x every iterator operation x every partition of the document into reads x {plain, data with EOF, one empty read before each, two empty reads with EOF}; the outcome (value, acceptance, position) must equal the whole-slice run; non-trivial = accepted",
			Bounds: "documents to 13 bytes: all 2^(n-1) partitions; longer short documents: all two-cut partitions",
			Units:  func(bool) int { return len(c06Short) },
			Run: func(w *W, unit int) {
				runtime.GC()
				doc := []byte(c06Short[unit])
				n := len(doc)
				for _, op := range itOps {
					ref := opOnBytes(op, doc)
					w.States++
					for _, m := range modes {
						if n <= 13 {
							if n == 0 {
								if !c06Run(w, op, ref, doc, nil, m.e, m.eof) {
									return
								}
								continue
							}
							for mask := uint32(0); mask < 1<<uint(n-1); mask++ {
								if !c06Run(w, op, ref, doc, cutsToLens(n, mask), m.e, m.eof) {
									return
								}
							}
							continue
						}
						for i := 1; i < n; i++ {
							for j := 0; j < n-i; j++ {
								lens := []int{i, j, n}
								if j == 0 {
									lens = []int{i, n}
								}
								if !c06Run(w, op, ref, doc, lens, m.e, m.eof) {
									return
								}
							}
						}
					}
				}
			},
		},
		{
			Name:   "long",
			Rule:   "long documents x every operation x {every uniform chunk size 1..140, every single cut, every pair of cuts (thorough)} x paddings in front that shift the document over the buffer boundary",
			Bounds: "11 documents of 60..300 bytes; paddings 0..70 with single cuts",
			Units:  func(bool) int { return len(c06Long()) * 4 },
			Run: func(w *W, unit int) {
				runtime.GC()
				base := c06Long()[unit/4]
				for _, op := range itOps {
					for pad := 0; pad <= 70; pad++ {
						if pad%4 != unit%4 {
							continue
						}
						doc := []byte(strings.Repeat(" ", pad) + base)
						n := len(doc)
						ref := opOnBytes(op, doc)
						w.States++
						for c := 1; c <= 140; c++ {
							if !c06Run(w, op, ref, doc, []int{c}, 0, c%2 == 0) {
								return
							}
						}
						for i := 1; i < n; i++ {
							if !c06Run(w, op, ref, doc, []int{i, n}, 0, false) {
								return
							}
							if pad == 0 {
								if !c06Run(w, op, ref, doc, []int{i, 1, n}, 1, true) {
									return
								}
								if !c06Run(w, op, ref, doc, []int{i, 1, 1, 1, n}, 0, true) {
									return
								}
							}
						}
						if w.Thorough && pad == 0 {
							for i := 1; i < n; i++ {
								for j := 1; j < n-i; j++ {
									if !c06Run(w, op, ref, doc, []int{i, j, n}, 0, false) {
										return
									}
								}
							}
						}
					}
				}
			},
		},
		{
			Name:   "huge",
			Rule:   "documents with tokens longer than the internal buffers x every operation x uniform chunk sizes 1..1100 and every single cut (thorough) or every second (quick)",
			Bounds: "4 documents of 700..2400 bytes",
			Units:  func(bool) int { return 4 * len(itOps) },
			Run: func(w *W, unit int) {
				runtime.GC()
				doc := []byte(c06Huge()[unit%4])
				op := itOps[unit/4]
				n := len(doc)
				ref := opOnBytes(op, doc)
				w.States++
				for c := 1; c <= 1100; c++ {
					if !w.Thorough && c > 20 && !(c > 60 && c < 70) && !(c > 505 && c < 520) && c%13 != 0 {
						continue
					}
					if !c06Run(w, op, ref, doc, []int{c}, 0, c%2 == 0) {
						return
					}
				}
				st := 2
				if w.Thorough {
					st = 1
				}
				for i := 1; i < n; i += st {
					if !c06Run(w, op, ref, doc, []int{i, n}, 0, false) {
						return
					}
					if !c06Run(w, op, ref, doc, []int{i, 64}, 0, true) {
						return
					}
				}
			},
		},
		{
			Name:   "entry points",
			Rule:   "UnmarshalFromReader and Decoder.Decode into every destination type of the universe, every calibration text of at most 20 bytes (thorough: 60), byte-wise and with every single cut, against Unmarshal of the slice",
			Bounds: "105 destination types x short texts",
			Units:  func(bool) int { return len(decodeTypes()) },
			Run: func(w *W, unit int) {
				t := decodeTypes()[unit]
				max := 20
				if w.Thorough {
					max = 60
				}
				for _, s := range append(calibTexts(), c06Short...) {
					if len(s) > max {
						continue
					}
					doc := []byte(s)
					a := reflect.New(t.T)
					var werr error
					func() {
						defer catch(&werr)
						werr = jzon.Unmarshal(doc, a.Interface())
					}()
					w.States++
					for cut := 0; cut <= len(doc); cut++ {
						if w.Stop() {
							return
						}
						if !w.Begin() {
							continue
						}
						lens := []int{1}
						if cut > 0 {
							lens = []int{cut, len(doc)}
						}
						desc := func() string { return fmt.Sprintf("%s from %q reads %v", t.Name, s, lens) }
						w.Announce(desc)
						w.Transitions++
						b := reflect.New(t.T)
						var e error
						func() {
							defer catch(&e)
							e = jzon.UnmarshalFromReader(newChunk(doc, lens...), b.Interface())
						}()
						if werr == nil {
							w.Nontrivial++
						}
						if (e == nil) != (werr == nil) {
							w.Fail(desc(), fmt.Errorf("slice error %v, reader error %v", werr, e))
							return
						}
						if e == nil && !eqv(a, b, 0) {
							w.Fail(desc(), fmt.Errorf("slice %s, reader %s", show(a.Interface()), show(b.Interface())))
							return
						}
						if werr != nil || cut > 1 {
							continue
						}
						b = reflect.New(t.T)
						r := newChunk(doc, lens...)
						d := jzon.NewDecoder(r)
						e = d.Decode(b.Interface())
						d.Release()
						if e != nil || !eqv(a, b, 0) {
							w.Fail(desc(), fmt.Errorf("slice %s, decoder %s (%v)", show(a.Interface()), show(b.Interface()), e))
							return
						}
					}
				}
			},
		},
	}})
}
