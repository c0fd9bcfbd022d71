package main

import (
	"fmt"
	"strings"
)

// spellings of scalars: the product of the parts a number or a string is made
// of, short and long
var tokSet = func() (out []string) {
	for _, sign := range []string{"", "-"} {
		for _, ip := range []string{"0", "7", "12", strings.Repeat("1234567890", 4), strings.Repeat("9", 66)} {
			for _, fr := range []string{"", ".5", ".0", "." + strings.Repeat("0", 42) + "1", "." + strings.Repeat("142857", 12)} {
				for _, ex := range []string{"", "e5", "E1", "e+12", "E-30", "e-007", "e" + strings.Repeat("0", 40) + "3"} {
					out = append(out, sign+ip+fr+ex)
				}
			}
		}
	}
	for _, n := range []int{0, 1, 2, 20, 31, 32, 33, 47, 62, 63, 64, 65, 70, 130} {
		for _, it := range []string{"", `\n`, `\"`, `\\`, `\u0041`, `\u4e2d`, `\ud83d\ude00`, `\ud800`, "é", "中", "😀", "\x7f"} {
			for _, m := range []int{0, 1, 9, 40} {
				out = append(out, `"`+longStr(n)+it+longStr(m)+`"`)
			}
		}
	}
	return append(out, "true", "false", "null", "[]", "{}", "[true,null]", `{"a":false}`, `{"`+longStr(40)+`":1}`, `[`+longDigits(40)+`,2]`)
}()

func longDigits(n int) string { return strings.Repeat("1234567890", n/10+1)[:n] }

func isGeneric(name string) bool {
	switch name {
	case "Skip", "Read", "SkipRaw", "ReadRaw", "AppendRaw", "walk", "ReadVal(interface {})", "ReadVal(json.RawMessage)":
		return true
	}
	return false
}

// tokSplits: the ways a token of length n after pad blanks is delivered
func tokSplits(pad, n int, f func(lens []int) bool) bool {
	for _, c := range []int{1, 2, 7, 64, 100} {
		if !f([]int{c}) {
			return false
		}
	}
	for i := 0; i < n; i++ {
		if pad+i > 0 && !f([]int{pad + i, 4096}) {
			return false
		}
	}
	return true
}

func init() {
	addEngine("C06", &Engine{
		Name:   "spellings",
		Rule:   "every spelling of a number or string from the product of short and long parts, alone and as a member value, x every operation that accepts it x every single cut and several uniform reads: same value, acceptance and position as from one slice",
		Bounds: fmt.Sprintf("%d spellings to 180 bytes, all single cuts, reads of 1, 2, 7, 64 and 100 bytes", len(tokSet)),
		Units:  func(bool) int { return len(tokSet) },
		Run: func(w *W, unit int) {
			tok := tokSet[unit]
			for _, wrap := range [][2]string{{"", ""}, {"", " ,"}, {`{"a":`, `,"b":1}`}, {"[", "]"}} {
				doc := []byte(wrap[0] + tok + wrap[1])
				for _, op := range itOps {
					ref := opOnBytes(op, doc)
					if ref.err != nil || op.name == "NextValueType" {
						continue
					}
					w.States++
					if !tokSplits(len(wrap[0]), len(tok)+1, func(lens []int) bool {
						return c06Run(w, op, ref, doc, lens, 0, len(tok)%2 == 0)
					}) {
						return
					}
				}
			}
		},
	})
	addEngine("C08", &Engine{
		Name:   "spellings",
		Rule:   "every spelling of a number or string from the product of short and long parts x every operation that accepts it x every fault position x {after the data, with the data} x {for ever, once}",
		Bounds: fmt.Sprintf("%d spellings to 180 bytes, all positions, reads of 1 (short ones), 64 and whole", len(tokSet)),
		Units:  func(bool) int { return len(tokSet) },
		Run: func(w *W, unit int) {
			tok := tokSet[unit]
			for _, tail := range []string{"", " ]"} {
				doc := []byte(tok + tail)
				for _, op := range itOps {
					ref := c08Ref{full: opOnBytes(op, doc)}
					ref.end = len(doc) - len(ref.full.rest)
					if ref.full.err != nil || op.name == "NextValueType" {
						continue
					}
					w.States++
					for k := 0; k <= len(doc); k++ {
						for m := 0; m < 4; m++ {
							if !c08Fault(w, op, ref, doc, k, []int{64, 4096, 1}[(k+m+unit)%3], 0, m%2 == 1, m >= 2) {
								return
							}
						}
					}
				}
			}
		},
	})
	addEngine("C17", &Engine{
		Name:   "spellings",
		Rule:   "every spelling of a number or string from the product of short and long parts, after blanks that move it over the buffer boundary, followed by different bytes, x every operation: an operation that succeeds stops exactly behind the value, a captured value is its bytes, generic operations succeed; from a slice, from readers of 64 bytes and byte by byte",
		Bounds: fmt.Sprintf("%d spellings to 180 bytes; blanks 0, 1, 20..63 in steps and 500..511 in steps; 4 tails", len(tokSet)),
		Units:  func(bool) int { return len(tokSet) },
		Run: func(w *W, unit int) {
			tok := tokSet[unit]
			pads := []int{0, 1, 20, 33, 50, 60, 62, 63, 500, 511}
			if w.Thorough {
				pads = pads[:0]
				for i := 0; i <= 70; i++ {
					pads = append(pads, i)
				}
				for i := 440; i <= 520; i += 3 {
					pads = append(pads, i)
				}
			}
			for _, op := range itOps {
				if op.name == "NextValueType" {
					continue
				}
				for ti, tail := range []string{"", " ", ",1]", "}"} {
					if r := opOnBytes(op, []byte(tok+tail)); r.err != nil && !isGeneric(op.name) {
						continue
					}
					for _, pad := range pads {
						if !w.Thorough && ti > 0 && pad > 63 {
							continue
						}
						full := []byte(strings.Repeat(" ", pad) + tok + tail)
						for _, ch := range []int{0, 64, 1, pad + 1, 4096} {
							if w.Stop() {
								return
							}
							if !w.Begin() {
								continue
							}
							desc := func() string {
								return fmt.Sprintf("%s of %d blanks, %s and %q, reads of %d", op.name, pad, tok, tail, ch)
							}
							w.Announce(desc)
							w.States++
							w.Transitions++
							var r opResult
							if ch == 0 {
								r = opOnBytes(op, full)
							} else {
								r = opOnReader(op, newChunk(full, ch))
							}
							switch {
							case r.err != nil:
								w.Fail(desc(), r.err)
								return
							case r.rest != tail:
								w.Fail(desc(), fmt.Errorf("%q remains", clip(r.rest, 200)))
								return
							}
							w.Nontrivial++
							switch op.name {
							case "SkipRaw", "ReadRaw":
								if r.val.(string) != tok {
									w.Fail(desc(), fmt.Errorf("captured %q", r.val))
									return
								}
							case "AppendRaw":
								if r.val.(string) != "pre"+tok {
									w.Fail(desc(), fmt.Errorf("captured %q", r.val))
									return
								}
							case "ReadNumber":
								if r.val.(string) != tok {
									w.Fail(desc(), fmt.Errorf("number %q", r.val))
									return
								}
							}
						}
					}
				}
			}
		},
	})
	type alpha struct {
		name string
		sym  []string
		max  int
	}
	alphas := []alpha{
		{"numbers", []string{"-", "0", "1", "9", ".", "e", "E", "+", " ", ",", "x"}, 7},
		{"strings", []string{`"`, "a", "é", `\`, "n", "u", "0", "d8", "/", "\x01"}, 8},
		{"containers", []string{"[", "]", "{", "}", ",", ":", `"a"`, "1", "-0E1", " "}, 8},
	}
	addEngine("C17", &Engine{
		Name:   "characters",
		Rule:   "every sequence over the alphabets of numbers, of strings and of containers, whose proper prefixes are live in the JSON automaton, x every reading method: success exactly when the reference finds a value at the start, and exactly its bytes consumed",
		Bounds: "alphabets of 10-11 symbols, length 7, 8, 8 (thorough one more)",
		Units:  func(bool) int { return len(alphas) * 11 },
		Run: func(w *W, unit int) {
			a := alphas[unit%len(alphas)]
			i := unit / len(alphas)
			if i >= len(a.sym) {
				return
			}
			max := a.max
			if w.Thorough {
				max++
			}
			var rec func(text []byte, n int) bool
			rec = func(text []byte, n int) bool {
				if !c17AcceptCase(w, text) {
					return false
				}
				if n == max || !refLive(text) {
					return true
				}
				for _, t := range a.sym {
					if !rec(append(text[:len(text):len(text)], t...), n+1) {
						return false
					}
				}
				return true
			}
			rec([]byte(a.sym[i]), 1)
		},
	})
}
