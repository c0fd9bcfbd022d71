package main

import (
	"encoding/json"
	"fmt"
	"io"
	"strings"

	"github.com/zerosnake0/jzon"
)

// C07: the stream decoder against a model of a value stream.

type streamVal struct {
	start, end int
	text       string
	val        interface{}
}

type stream struct {
	text string
	vals []streamVal
	// bad: after the good values comes something which is not a value (until the end)
	bad bool
}

func mkStream(parts []string, seps []string, bad string) stream {
	var s stream
	for i, p := range parts {
		s.text += seps[i]
		var v interface{}
		if err := json.Unmarshal([]byte(p), &v); err != nil {
			panic(err)
		}
		s.vals = append(s.vals, streamVal{len(s.text), len(s.text) + len(p), p, v})
		s.text += p
	}
	s.text += seps[len(parts)]
	if bad != "" {
		s.text += bad
		s.bad = true
	}
	return s
}

// model state of the decoder
type decModel struct {
	s      *stream
	i      int // values decoded
	pos    int // end of the last value
	moved  bool
	failed bool
}

func (m *decModel) nextTok() int {
	p := m.pos
	for p < len(m.s.text) && isWS(m.s.text[p]) {
		p++
	}
	return p
}

const (
	opDecAny = iota
	opDecRaw
	opDecInt
	opMore
	opOffset
	opBuffered
	nDecOps
)

var decOpNames = []string{"Decode(interface{})", "Decode(RawMessage)", "Decode(int)", "More", "InputOffset", "Buffered"}

func seqName(seq []int) string {
	var n []string
	for _, o := range seq {
		n = append(n, decOpNames[o])
	}
	return strings.Join(n, ";")
}

func runStream(s *stream, r *chunkReader, seq []int) (err error) {
	return runStreamOn(s, r, func() string { return string(r.data[r.pos:]) }, seq)
}

// runStreamOn: unread tells what the reader has not delivered yet
func runStreamOn(s *stream, r io.Reader, unread func() string, seq []int) (err error) {
	defer catch(&err)
	d := jzon.NewDecoder(r)
	defer d.Release()
	m := &decModel{s: s}
	for step, op := range seq {
		fail := func(f string, a ...interface{}) error {
			return fmt.Errorf("step %d %s: %s", step, decOpNames[op], fmt.Sprintf(f, a...))
		}
		switch op {
		case opDecAny, opDecRaw, opDecInt:
			var (
				got interface{}
				e   error
				raw json.RawMessage
			)
			num := 77
			switch op {
			case opDecAny:
				e = d.Decode(&got)
			case opDecRaw:
				e = d.Decode(&raw)
			default:
				e = d.Decode(&num)
			}
			if m.failed {
				if e == nil {
					return fail("succeeds after a failed decode (value %v%s)", got, raw)
				}
				continue
			}
			if m.i >= len(s.vals) {
				if e == nil {
					return fail("value fabricated: %v %s %d", got, raw, num)
				}
				if !s.bad && e != io.EOF {
					return fail("end of input reported as %v", e)
				}
				m.failed = true
				continue
			}
			v := s.vals[m.i]
			wantErr := false
			if op == opDecInt {
				switch x := v.val.(type) {
				case float64:
					wantErr = strings.ContainsAny(v.text, ".eE")
					if !wantErr && e == nil && float64(num) != x {
						return fail("got %d want %v", num, x)
					}
				case nil:
					if e == nil && num != 77 {
						return fail("null changed the integer to %d", num)
					}
				default:
					wantErr = true
				}
			}
			if (e != nil) != wantErr {
				return fail("value %q: error %v", v.text, e)
			}
			if e != nil {
				m.failed = true
				continue
			}
			if op == opDecAny && !eqTree(got, v.val) {
				return fail("got %s want %q", show(got), v.text)
			}
			if op == opDecRaw && string(raw) != v.text {
				return fail("got %q want %q", raw, v.text)
			}
			m.i++
			m.pos, m.moved = v.end, false
		case opMore:
			got := d.More()
			want := !m.failed && m.nextTok() < len(s.text)
			if got != want {
				return fail("got %v want %v", got, want)
			}
			m.moved = true
		case opOffset:
			if m.failed {
				continue
			}
			got := int(d.InputOffset())
			if got != m.pos && !(m.moved && got >= m.pos && got <= m.nextTok()) {
				return fail("got %d, the last value ends at %d", got, m.pos)
			}
		case opBuffered:
			if m.failed {
				continue
			}
			b, e := io.ReadAll(d.Buffered())
			if e != nil {
				return fail("%v", e)
			}
			rest := string(b) + unread()
			off := len(s.text) - len(rest)
			if !strings.HasSuffix(s.text, rest) || off != m.pos && !(m.moved && off >= m.pos && off <= m.nextTok()) {
				return fail("buffered %q + unread %q, the last value ends at %d of %q", clip(string(b), 80), clip(unread(), 80), m.pos, clip(s.text, 200))
			}
			if int(d.InputOffset()) != off {
				return fail("offset %d but the buffered data start at %d", d.InputOffset(), off)
			}
		}
	}
	return nil
}

func c07Case(w *W, s *stream, lens []int, eofWith bool, seq []int) bool {
	return c07One(w, s, lens, 0, eofWith, seq) && c07One(w, s, lens, 1+len(seq)%2, eofWith, seq)
}

func c07One(w *W, s *stream, lens []int, empties int, eofWith bool, seq []int) bool {
	if !w.Begin() {
		return !w.Stop()
	}
	desc := func() string {
		return fmt.Sprintf("stream %q reads %v with %d empty reads before each, eof with data %v: %s", clip(s.text, 1000), lens, empties, eofWith, seqName(seq))
	}
	w.Announce(desc)
	w.Sample(desc)
	w.Nontrivial++
	w.Transitions += int64(len(seq))
	r := newChunk([]byte(s.text), lens...)
	r.eofWith, r.empties = eofWith, empties
	if err := runStream(s, r, seq); err != nil {
		w.Fail(desc(), err)
		return false
	}
	return true
}

var c07Vals = []string{"1", "-2.5", `"a"`, `"b\n"`, "null", "true", "[]", `[1,"x"]`, "{}", `{"a":{"b":2}}`}
var c07Seps = []string{" ", "", "\n", " \t\r\n "}

func selfDelim(a, b string) bool {
	d := func(s string) bool { return strings.ContainsAny(s[:1], `"[{`) }
	return d(a) || d(b)
}

var c07Gaps = [][]int{{}, {opMore}, {opOffset}, {opBuffered}, {opMore, opOffset}, {opOffset, opMore, opBuffered}, {opBuffered, opOffset}, {opMore, opMore, opBuffered, opOffset}}

func init() {
	bads := []string{"x", "tru", "[1", `{"a"`, "]", "1.", `"\q"`, `"abc`, ",", "nul"}
	register(&Property{ID: "C07", Engines: []*Engine{
		{
			Name:   "streams",
			Rule:   "every stream of up to three values x every separator assignment (leading and trailing included) x reads of 1, 2, 3, 7 bytes and whole x eight patterns of More/InputOffset/Buffered in every gap x value targets; the model knows values, offsets, remaining bytes and the end",
			Bounds: "10 values, 4 separators; 2 values quick with all patterns, 3 values with 3 separators; thorough: 3 values with all",
			Units:  func(bool) int { return len(c07Vals) * len(c07Vals) },
			Run: func(w *W, unit int) {
				run := func(parts, seps []string, full bool) bool {
					for i := 1; i < len(parts); i++ {
						if seps[i] == "" && !selfDelim(parts[i-1], parts[i]) {
							return true
						}
					}
					s := mkStream(parts, seps, "")
					w.States++
					for gi, g := range c07Gaps {
						if !full && gi != 1 && gi != 5 {
							continue
						}
						var seq []int
						for k := 0; k <= len(parts); k++ {
							seq = append(seq, g...)
							dec := opDecAny
							if (k+gi)%2 == 1 {
								dec = opDecRaw
							}
							seq = append(seq, dec)
						}
						seq = append(seq, opDecAny, opMore)
						for ci, c := range [][]int{nil, {1}, {2}, {3}, {7}} {
							if !full && ci > 1 {
								continue
							}
							if !c07Case(w, &s, c, (ci+gi)%2 == 1, seq) {
								return false
							}
						}
					}
					return true
				}
				a, b := c07Vals[unit/len(c07Vals)], c07Vals[unit%len(c07Vals)]
				ok := true
				product(3, len(c07Seps), func(v []int) bool {
					ok = run([]string{a, b}, []string{c07Seps[v[0]], c07Seps[v[1]], c07Seps[v[2]]}, true)
					return ok
				})
				if !ok {
					return
				}
				if unit%len(c07Vals) == 0 {
					product(2, len(c07Seps), func(v []int) bool {
						ok = run([]string{a}, []string{c07Seps[v[0]], c07Seps[v[1]]}, true)
						return ok
					})
				}
				if unit == 0 {
					for _, s := range c07Seps {
						run(nil, []string{s}, true)
					}
				}
				ns := 3
				if w.Thorough {
					ns = 4
				}
				for _, c := range c07Vals {
					product(4, ns, func(v []int) bool {
						ok = run([]string{a, b, c}, []string{c07Seps[v[0]], c07Seps[v[1]], c07Seps[v[2]], c07Seps[v[3]]}, w.Thorough)
						return ok
					})
					if !ok {
						return
					}
				}
			},
		},
		{
			Name:   "operations",
			Rule:   "every sequence of operations {Decode any, Decode raw, Decode int, More, InputOffset, Buffered} to the length bound, on streams with good, ill-typed, malformed and truncated values, reads of 1 and 3 bytes and whole",
			Bounds: "length 6 quick, 7 thorough",
			Units:  func(bool) int { return 36 * 12 },
			Run: func(w *W, unit int) {
				streams := []stream{
					mkStream(nil, []string{""}, ""),
					mkStream(nil, []string{" \n"}, ""),
					mkStream([]string{"1"}, []string{"", ""}, ""),
					mkStream([]string{"1", "2"}, []string{" ", " ", "\n"}, ""),
					mkStream([]string{"12", `"a"`, "3"}, []string{"", " ", " ", ""}, ""),
					mkStream([]string{"[1,2]", "null", "45"}, []string{"", "", "\t", ""}, ""),
					mkStream([]string{"1"}, []string{"", " "}, "tru"),
					mkStream([]string{"1", "2"}, []string{"", "\n", " "}, "]3"),
					mkStream([]string{`{"a":[1]}`}, []string{"", ""}, `{"a":`),
					mkStream(nil, []string{""}, "x 1"),
					mkStream([]string{"1.5", "2", "3"}, []string{"", " ", " ", " "}, ""),
					mkStream([]string{"7", "8", "9"}, []string{strings.Repeat(" ", 63), strings.Repeat("\n", 64), " ", ""}, ""),
				}
				s := &streams[unit/36]
				n := 6
				if w.Thorough {
					n = 7
				}
				pre := []int{unit % 36 / 6, unit % 6}
				product(n-2, nDecOps, func(v []int) bool {
					w.States++
					seq := append(append([]int{}, pre...), v...)
					for _, c := range [][]int{nil, {1}, {3}} {
						if !c07Case(w, s, c, len(c) == 0, seq) {
							return false
						}
					}
					return true
				})
			},
		},
		{
			Name:   "malformed",
			Rule:   "every stream of up to two values followed by something malformed, every chunk size: the values come out, then an error for ever",
			Bounds: "10 values, 10 malformed tails, chunk sizes 1..6",
			Units:  func(bool) int { return len(bads) },
			Run: func(w *W, unit int) {
				for _, a := range c07Vals {
					for _, b := range c07Vals {
						s2 := mkStream([]string{a, b}, []string{"", "\n", " "}, bads[unit])
						s1 := mkStream([]string{a}, []string{" ", " "}, bads[unit])
						w.States += 2
						for c := 1; c <= 6; c++ {
							for _, g := range c07Gaps {
								seq := append(append([]int{opDecAny}, g...), opDecRaw)
								if !c07Case(w, &s1, []int{c}, c%2 == 0, append(append([]int{}, seq...), opDecRaw, opMore, opDecAny, opDecInt)) {
									return
								}
								seq = append(append(seq, g...), opDecAny, opMore, opDecAny, opDecRaw)
								if !c07Case(w, &s2, []int{c}, c%2 == 0, seq) {
									return
								}
							}
						}
					}
				}
			},
		},
		{
			Name:   "long streams",
			Rule:   "streams of 150 values of mixed kinds and lengths (total > 4 KB) with every uniform chunk size, offsets and buffered remainder checked after every value",
			Bounds: "chunk sizes 1..200, 505..520 (thorough 1..1100)",
			Units:  func(bool) int { return 1100 },
			Run: func(w *W, unit int) {
				c := unit + 1
				if !w.Thorough && c > 200 && (c < 505 || c > 520) {
					return
				}
				for variant := 0; variant < 4; variant++ {
					var parts, seps []string
					for i := 0; i < 150; i++ {
						p := c07Vals[(i*7+variant)%len(c07Vals)]
						if i%11 == variant {
							p = `"` + longStr(i*variant%90) + `"`
						}
						if i%37 == 5 {
							p = `[` + strings.TrimSuffix(strings.Repeat("123,", 100+i), ",") + `]`
						}
						parts = append(parts, p)
						seps = append(seps, strings.Repeat(" ", 1+(i*variant)%13))
					}
					seps = append(seps, "\n")
					s := mkStream(parts, seps, "")
					w.States++
					var seq []int
					for i := 0; i < 152; i++ {
						dec := opDecAny
						if variant > 1 && i%3 == 0 {
							dec = opDecRaw
						}
						seq = append(seq, dec, opOffset, opBuffered)
						if i%5 == variant {
							seq = append(seq, opMore, opBuffered)
						}
					}
					if !c07Case(w, &s, []int{c}, c%2 == 1, seq) {
						return
					}
				}
			},
		},
	}})
}
