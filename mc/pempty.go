package main

import (
	"fmt"
	"io"
	"strings"

	"github.com/zerosnake0/jzon"
)

// runs of empty reads of every length around the usual limits
var emptyRuns = []int{3, 5, 8, 10, 15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 102, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 4097}

var dupValues = []string{"0", "-0", "1", `""`, `"s"`, "null", "true", "false", "[]", "{}", "[1]", `{"a":0}`}
var dupKeys = []string{"a", "b", ""}

func repMember(i int) string {
	return `"` + dupKeys[i/len(dupValues)] + `":` + dupValues[i%len(dupValues)]
}

// deepInner: what stands at the bottom of a chain of containers
var deepInner = func() (out []string) {
	vals := []string{"1", "{}", "[]", `{"":{}}`, "[[]]"}
	keys := []string{"", "x", "k"}
	nm := len(vals) * len(keys)
	mem := func(i int) string { return `"` + keys[i/len(vals)] + `":` + vals[i%len(vals)] }
	for n := 0; n <= 3; n++ {
		product(n, nm, func(v []int) bool {
			var l []string
			for _, i := range v {
				l = append(l, mem(i))
			}
			out = append(out, "{"+strings.Join(l, ",")+"}")
			return true
		})
		product(n, len(vals), func(v []int) bool {
			var l []string
			for _, i := range v {
				l = append(l, vals[i])
			}
			out = append(out, "["+strings.Join(l, ",")+"]")
			return true
		})
	}
	return
}()

func init() {
	addEngine("C02", &Engine{
		Name:   "repeated members",
		Rule:   "every sequence of members over three names (one of them empty) and twelve values, as the whole text, as an element and as a member; every untyped entry point",
		Bounds: "sequences of 3 members, thorough 4",
		Units:  func(bool) int { return len(dupKeys) * len(dupValues) },
		Run: func(w *W, unit int) {
			n := 2
			if w.Thorough {
				n = 3
			}
			product(n, len(dupKeys)*len(dupValues), func(v []int) bool {
				l := []string{repMember(unit)}
				for _, i := range v {
					l = append(l, repMember(i))
				}
				o := "{" + strings.Join(l, ",") + "}"
				w.States++
				w.Transitions += 3
				c02Check(w, []byte(o), len(v) < 2)
				c02Check(w, []byte("[1,"+o+"]"), false)
				c02Check(w, []byte(`{"a":`+o+`,"b":[`+o+`]}`), false)
				return !w.Stop()
			})
		},
	})
	addEngine("C02", &Engine{
		Name:   "deep members",
		Rule:   "chains of containers of every depth (arrays, objects, alternating, two and one) with every small container at the bottom and again behind it, untyped",
		Bounds: fmt.Sprintf("depths 0..24, 30..34, 62..66 (thorough 0..140); %d small containers of up to 3 members over 3 names and 5 values", len(deepInner)),
		Units:  func(th bool) int { return 4 * 36 * map[bool]int{false: 1, true: 4}[th] },
		Run: func(w *W, unit int) {
			d := unit / 4
			if !w.Thorough {
				switch {
				case d >= 30:
					d += 32
				case d >= 25:
					d += 5
				}
			}
			if d > 140 {
				return
			}
			pre, post := "", ""
			for i := 0; i < d; i++ {
				arr := []bool{true, false, i%2 == 0, i%3 != 0}[unit%4]
				if arr {
					pre, post = pre+"[", "]"+post
				} else {
					pre, post = pre+`{"k":`, "}"+post
				}
			}
			for i, in := range deepInner {
				if w.Stop() {
					return
				}
				w.States++
				w.Transitions += int64(d)
				c02Check(w, []byte(pre+in+post), false)
				c02Check(w, []byte(`{"p":`+pre+in+post+`,"":`+deepInner[(i*7+1)%len(deepInner)]+`}`), false)
			}
		},
	})
	addEngine("C06", &Engine{
		Name:   "empty reads",
		Rule:   "every short document x every operation x runs of empty reads before every piece, byte by byte (short runs) and in two and three pieces: same value, acceptance and position as from one slice",
		Bounds: fmt.Sprintf("%d run lengths from 3 to 4097 (quick: 101 and every twelfth in turn, the pieces in turn)", len(emptyRuns)),
		Units:  func(bool) int { return len(c06Short) },
		Run: func(w *W, unit int) {
			doc := []byte(c06Short[unit])
			for oi, op := range itOps {
				ref := opOnBytes(op, doc)
				w.States++
				for i, e := range emptyRuns {
					if !w.Thorough && e != 101 && i%12 != (oi+unit)%12 {
						continue
					}
					forms := [][]int{{len(doc) + 1}, {len(doc)/2 + 1}, {len(doc)/3 + 1}}
					if e <= 130 && len(doc) < 14 {
						forms = append(forms, []int{1})
					}
					for j, lens := range forms {
						if !w.Thorough && j > 0 && (oi+unit+i+j)%3 != 0 {
							continue
						}
						if !c06Run(w, op, ref, doc, lens, e, (i+j)%2 == 0) {
							return
						}
					}
				}
			}
		},
	})
	addEngine("C08", &Engine{
		Name:   "empty reads",
		Rule:   "every document of the fault engines x every operation x every fault position, with a run of empty reads before every piece and so before the fault",
		Bounds: fmt.Sprintf("%d run lengths from 3 to 4097, in turn over the positions", len(emptyRuns)),
		Units:  func(bool) int { return len(c06Short) },
		Run: func(w *W, unit int) {
			doc := []byte(c06Short[unit])
			for oi, op := range itOps {
				ref := c08Ref{full: opOnBytes(op, doc)}
				ref.end = len(doc) - len(ref.full.rest)
				if ref.full.err != nil || op.name == "NextValueType" {
					continue
				}
				w.States++
				for k := 0; k <= len(doc); k++ {
					for m := 0; m < 4; m++ {
						e := emptyRuns[(k*4+m+oi*5)%len(emptyRuns)]
						if !c08Fault(w, op, ref, doc, k, []int{4096, 5}[(k+m)%2], e, m%2 == 1, m >= 2) {
							return
						}
					}
				}
			}
		},
	})
	addEngine("C07", &Engine{
		Name:   "empty reads",
		Rule:   "a stream of four values delivered in pieces with runs of empty reads before each: every value in order, the exact offset, More before each, then end of input",
		Bounds: fmt.Sprintf("%d run lengths from 3 to 4097, pieces of 1, 3, 7 bytes and whole", len(emptyRuns)),
		Units:  func(bool) int { return len(emptyRuns) },
		Run: func(w *W, unit int) {
			vals := []string{`{"a":[1,2]}`, `"x\n"`, "-12.5", "[ ]"}
			text := " " + strings.Join(vals, " \n") + "\t "
			for _, n := range []int{1, 3, 7, 64} {
				for _, eofWith := range []bool{false, true} {
					if w.Stop() {
						return
					}
					if !w.Begin() {
						continue
					}
					desc := func() string {
						return fmt.Sprintf("%q in pieces of %d after %d empty reads", text, n, emptyRuns[unit])
					}
					w.Announce(desc)
					w.States++
					w.Transitions += 4
					w.Nontrivial++
					err := func() (err error) {
						defer catch(&err)
						r := newChunk([]byte(text), n)
						r.empties, r.eofWith = emptyRuns[unit], eofWith
						d := jzon.NewDecoder(r)
						defer d.Release()
						end := 0
						for i, v := range vals {
							if !d.More() {
								return fmt.Errorf("no more before value %d", i)
							}
							var got interface{}
							if e := d.Decode(&got); e != nil {
								return fmt.Errorf("value %d: %v", i, e)
							}
							want, _ := stdUntyped([]byte(v), false)
							if !eqTree(got, want) {
								return fmt.Errorf("value %d: got %s want %s", i, show(got), show(want))
							}
							end = strings.Index(text[end:], v) + end + len(v)
							if d.InputOffset() != int64(end) {
								return fmt.Errorf("offset %d after value %d, want %d", d.InputOffset(), i, end)
							}
						}
						if d.More() {
							return fmt.Errorf("more at the end")
						}
						var got interface{}
						if e := d.Decode(&got); !seen(e, io.EOF) {
							return fmt.Errorf("at the end: %v", e)
						}
						return nil
					}()
					if err != nil {
						w.Fail(desc(), err)
						return
					}
				}
			}
		},
	})
}
