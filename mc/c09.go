package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"strings"

	"github.com/zerosnake0/jzon"
)

// C09: writers and their failures.

var errWrite = errors.New("injected-writer-fault-xk3")

// faultWriter accepts bytes until the budget is used up, then fails
type faultWriter struct {
	got    bytes.Buffer
	limit  int // bytes accepted before the fault (<0: no fault)
	mode   int // 0 partial write with the error, 1 refuses the whole call, 2 accepts everything but reports the error, 3 partial write without an error
	once   bool
	faults int
	err    error // the error (nil: errWrite)
	writes int
	empty  int
}

func (f *faultWriter) Write(p []byte) (int, error) {
	f.writes++
	if len(p) == 0 {
		f.empty++
	}
	if f.limit >= 0 && !(f.once && f.faults > 0) && f.got.Len()+len(p) > f.limit {
		f.faults++
		errWrite := errWrite
		if f.err != nil {
			errWrite = f.err
		}
		switch f.mode {
		case 0, 3:
			if f.mode == 3 {
				errWrite = nil
			}
			n := f.limit - f.got.Len()
			if n < 0 {
				n = 0
			}
			f.got.Write(p[:n])
			return n, errWrite
		case 1:
			return 0, errWrite
		default:
			f.got.Write(p)
			return len(p), errWrite
		}
	}
	f.got.Write(p)
	return len(p), nil
}

type c09Val struct {
	name string
	v    func() interface{}
	bad  bool
	// the canonical outputs, with and without html escaping (no newline)
	html, raw string
}

type marshalN struct{ s string }

func (m marshalN) MarshalJSON() ([]byte, error) { return []byte(m.s), nil }

type badAfter struct {
	A int
	B []interface{}
}

func c09Vals() []c09Val {
	long := strings.Repeat("0123456789", 12)
	good := func(name string, v interface{}, html, raw string) c09Val {
		return c09Val{name, func() interface{} { return v }, false, html, raw}
	}
	bad := func(name string, v interface{}) c09Val {
		return c09Val{name, func() interface{} { return v }, true, "", ""}
	}
	return []c09Val{
		good("1", 1, "1", "1"),
		good("html", "a<b", `"a\u003cb"`, `"a<b"`),
		good("struct", struct {
			A []int
			B *string
		}{[]int{1, 2}, nil}, `{"A":[1,2],"B":null}`, `{"A":[1,2],"B":null}`),
		good("long", long, `"`+long+`"`, `"`+long+`"`),
		good("marshaler", marshalN{`{"m":1}`}, `{"m":1}`, `{"m":1}`),
		good("nil", nil, "null", "null"),
		bad("chan", make(chan int)),
		bad("nan", math.NaN()),
		bad("late hook", []interface{}{"first", 2, FailJSON{}}),
		bad("late inf", badAfter{7, []interface{}{"x", math.Inf(1)}}),
		bad("bad key", map[TextFail]int{{1}: 1}),
		bad("bad number", []json.Number{"1", "x"}),
	}
}

type TextFail struct{ A int }

func (TextFail) MarshalText() ([]byte, error) { return nil, errHook }

const (
	encHTMLOn  = -1
	encHTMLOff = -2
)

// runEncoder executes a history of Encode/SetEscapeHTML calls
func runEncoder(vals []c09Val, seq []int, fw *faultWriter) (total int, err error) {
	defer catch(&err)
	e := jzon.NewEncoder(fw)
	defer e.Release()
	html := true
	ideal := ""
	dead := false // the writer has failed
	sick := false // a value has failed
	for step, o := range seq {
		fail := func(f string, a ...interface{}) (int, error) {
			return 0, fmt.Errorf("step %d: %s", step, fmt.Sprintf(f, a...))
		}
		if o == encHTMLOn || o == encHTMLOff {
			html = o == encHTMLOn
			e.SetEscapeHTML(html)
			continue
		}
		v := vals[o]
		before := fw.got.Len()
		er := e.Encode(v.v())
		got := fw.got.String()
		want := v.raw
		if html {
			want = v.html
		}
		want += "\n"
		switch {
		case dead:
			if er == nil {
				return fail("Encode(%s) succeeds after the writer failed", v.name)
			}
			if len(got) != before {
				return fail("Encode(%s) wrote %q after the writer failed", v.name, got[before:])
			}
		case v.bad:
			if er == nil {
				return fail("Encode(%s) succeeds", v.name)
			}
			if len(got) != before {
				return fail("Encode(%s) failed but wrote %q", v.name, got[before:])
			}
			sick = true
		case er == nil:
			ideal += want
			if got != ideal {
				return fail("Encode(%s): the writer has %q, want %q", v.name, got, ideal)
			}
			if fw.faults > 0 && fw.mode != 3 {
				return fail("Encode(%s): the writer failed but Encode succeeds", v.name)
			}
		case fw.faults > 0:
			if fw.mode != 3 && !seen(er, errWrite) {
				return fail("the writer's error was replaced by %v", er)
			}
			dead = true
			ideal += want
			if !strings.HasPrefix(ideal, got) {
				return fail("the writer has %q, which is not a prefix of %q", got, ideal)
			}
		case sick:
			if len(got) != before {
				return fail("Encode(%s) returns %v but wrote %q", v.name, er, got[before:])
			}
		default:
			return fail("Encode(%s): %v", v.name, er)
		}
	}
	if fw.faults == 0 && fw.got.String() != ideal {
		return 0, fmt.Errorf("the writer has %q, want %q", fw.got.String(), ideal)
	}
	return len(ideal), nil
}

// ---- streamer histories -------------------------------------------------------

const (
	stInt = iota
	stStr
	stLong
	stVal
	stObj
	stBad
	stFlush
	stReset
	nStOps
)

var stNames = []string{"Int(-7)", `String("x<y")`, "Value(long)", "Value(struct)", "object", "Value(bad)", "Flush", "Reset(other)"}

func stSeqName(seq []int) string {
	var l []string
	for _, o := range seq {
		l = append(l, stNames[o])
	}
	return strings.Join(l, ";")
}

// runStreamer: two writers; the model is the ideal text per writer
func runStreamer(seq []int, ws [2]*faultWriter) (err error) {
	defer catch(&err)
	s := jzon.NewStreamer()
	defer s.Release()
	cur := 0
	s.Reset(ws[0])
	s.ArrayStart()
	ideal := [2]string{"[", ""}
	first := true
	sick := false
	base := [2]int{}
	long := strings.Repeat("0123456789", 12)
	for step, o := range seq {
		fail := func(f string, a ...interface{}) error {
			return fmt.Errorf("step %d %s: %s", step, stNames[o], fmt.Sprintf(f, a...))
		}
		before := ws[cur].got.Len()
		add := func(t string) {
			if sick {
				return
			}
			if !first {
				ideal[cur] += ","
			}
			first = false
			ideal[cur] += t
		}
		switch o {
		case stInt:
			s.Int(-7)
			add("-7")
		case stStr:
			s.String("x<y")
			add(`"x\u003cy"`)
		case stLong:
			s.Value(long)
			add(`"` + long + `"`)
		case stVal:
			s.Value(&S2{1, "b"})
			add(`{"A":1,"b":"b"}`)
		case stObj:
			s.ObjectStart().Field("k").True().ObjectEnd()
			add(`{"k":true}`)
		case stBad:
			s.Value([]interface{}{1, "lost", FailText{}})
			sick = true
		case stReset:
			cur = 1 - cur
			s.Reset(ws[cur])
			s.ArrayStart()
			// whatever was not flushed is gone; the new text follows what the writer has
			ideal[cur] = ws[cur].got.String() + "["
			base[cur] = ws[cur].got.Len()
			first, sick = true, false
			if s.Error != nil {
				return fail("the error %v survives Reset", s.Error)
			}
			continue
		case stFlush:
			faults := ws[cur].faults
			er := s.Flush()
			got := ws[cur].got.String()
			switch {
			case sick:
				if er == nil {
					return fail("succeeds although a value failed")
				}
				if !seen(er, errHook) {
					return fail("the value's error was replaced by %v", er)
				}
				if !strings.HasPrefix(ideal[cur], got) {
					return fail("part of the failed value was written: %q", got)
				}
			case er == nil:
				if ws[cur].faults != faults && ws[cur].mode == 3 {
					// the rest is kept for the next call
					if !strings.HasPrefix(ideal[cur], got) {
						return fail("the writer has %q, which is not a prefix of %q", got, ideal[cur])
					}
					continue
				}
				if ws[cur].faults != faults {
					return fail("the writer failed but Flush succeeds")
				}
				if got != ideal[cur] {
					return fail("the writer has %q, want %q", got, ideal[cur])
				}
			default:
				if ws[cur].faults == faults {
					return fail("%v although the writer did not fail", er)
				}
				if ws[cur].mode != 3 && !seen(er, errWrite) {
					return fail("the writer's error was replaced by %v", er)
				}
				if !strings.HasPrefix(ideal[cur], got) {
					return fail("the writer has %q, which is not a prefix of %q", got, ideal[cur])
				}
			}
			continue
		}
		if ws[cur].got.Len() != before && !strings.HasPrefix(ideal[cur], ws[cur].got.String()) {
			return fail("the writer has %q, want a prefix of %q", ws[cur].got.String(), ideal[cur])
		}
	}
	return nil
}

func init() {
	register(&Property{ID: "C09", Engines: []*Engine{
		{
			Name:   "encoder",
			Rule:   "every history of Encode (good and failing values) and SetEscapeHTML calls x every writer budget (every byte of the output as the failing point, and no failure) x {partial write, refused call, accepted with error, partial write without an error}; the model keeps the ideal output",
			Bounds: "histories of length 4 over 14 calls, thorough 5",
			Units:  func(th bool) int { return 14 * 14 },
			Run: func(w *W, unit int) {
				vals := c09Vals()
				alpha := []int{encHTMLOn, encHTMLOff}
				for i := range vals {
					alpha = append(alpha, i)
				}
				n := 2
				if w.Thorough {
					n = 3
				}
				product(n, len(alpha), func(v []int) bool {
					seq := []int{alpha[unit/14], alpha[unit%14]}
					for _, x := range v {
						seq = append(seq, alpha[x])
					}
					w.States++
					total := 0
					for limit := -1; limit < total || limit < 0; limit++ {
						for mode := 0; mode < 4; mode++ {
							if limit < 0 && mode > 0 {
								continue
							}
							if w.Stop() {
								return false
							}
							fw := &faultWriter{limit: limit, mode: mode}
							if !w.Begin() {
								if limit < 0 {
									total, _ = runEncoder(vals, seq, fw)
								}
								continue
							}
							desc := func() string {
								var l []string
								for _, o := range seq {
									switch o {
									case encHTMLOn:
										l = append(l, "SetEscapeHTML(true)")
									case encHTMLOff:
										l = append(l, "SetEscapeHTML(false)")
									default:
										l = append(l, "Encode("+vals[o].name+")")
									}
								}
								return fmt.Sprintf("%s, writer fails after %d bytes, mode %d", strings.Join(l, ";"), limit, mode)
							}
							w.Announce(desc)
							w.Sample(desc)
							w.Transitions += int64(len(seq))
							t, err := runEncoder(vals, seq, fw)
							if fw.faults > 0 {
								w.Nontrivial++
							}
							if limit < 0 {
								total = t
							}
							if err != nil {
								w.Fail(desc(), err)
								return false
							}
						}
					}
					return true
				})
			},
		},
		{
			Name:   "streamer",
			Rule:   "every history of streamer calls, Flush and Reset over two writers, x every failing byte position x failure mode x {fails once, fails for ever}; Flush succeeds only with everything delivered, nothing is delivered twice or out of order",
			Bounds: "histories of length 6 over 8 operations, thorough 7; failing points 0, 1, 2, 3, 5, 8, 13, 21, 34, 55, 125, 130 and none",
			Units:  func(bool) int { return 64 },
			Run: func(w *W, unit int) {
				n := 4
				if w.Thorough {
					n = 5
				}
				product(n, nStOps, func(v []int) bool {
					seq := append([]int{unit / 8, unit % 8}, v...)
					seq = append(seq, stFlush, stFlush)
					w.States++
					for _, limit := range []int{-1, 0, 1, 2, 3, 5, 8, 13, 21, 34, 55, 125, 130} {
						for mode := 0; mode < 8; mode++ {
							if limit < 0 && mode > 0 {
								continue
							}
							if w.Stop() {
								return false
							}
							if !w.Begin() {
								continue
							}
							ws := [2]*faultWriter{{limit: limit, mode: mode % 4, once: mode >= 4}, {limit: -1}}
							desc := func() string {
								return fmt.Sprintf("%s, writer fails after %d bytes, mode %d once %v", stSeqName(seq), limit, mode%4, mode >= 4)
							}
							w.Announce(desc)
							w.Sample(desc)
							w.Transitions += int64(len(seq))
							err := runStreamer(seq, ws)
							if ws[0].faults > 0 {
								w.Nontrivial++
							}
							if err != nil {
								w.Fail(desc(), err)
								return false
							}
						}
					}
					return true
				})
			},
		},
		{
			Name:   "sizes",
			Rule:   "one value of every output size 0..1200 bytes (string, array, marshaler), encoder with every failing position for sizes to 150, and streamers flushed in the middle at every position",
			Bounds: "sizes 0..1200; failing positions all for sizes <= 150",
			Units:  func(bool) int { return 1201 },
			Run: func(w *W, unit int) {
				str := longStr(unit)
				vals := []c09Val{
					{"string", func() interface{} { return str }, false, `"` + str + `"`, `"` + str + `"`},
					{"array", func() interface{} { return make([]bool, unit/6) }, false, "[" + strings.TrimSuffix(strings.Repeat("false,", unit/6), ",") + "]", ""},
					{"marshaler", func() interface{} { return marshalN{`"` + str + `"`} }, false, `"` + str + `"`, ""},
				}
				for i := range vals {
					limits := []int{-1, 0, 1, unit, unit + 1, unit + 2}
					if unit <= 150 {
						limits = []int{-1}
						for k := 0; k <= unit+2; k++ {
							limits = append(limits, k)
						}
					}
					for _, limit := range limits {
						for mode := 0; mode < 4; mode++ {
							if w.Stop() {
								return
							}
							if !w.Begin() {
								continue
							}
							fw := &faultWriter{limit: limit, mode: mode}
							desc := func() string {
								return fmt.Sprintf("Encode(%s of %d bytes) twice, writer fails after %d, mode %d", vals[i].name, unit, limit, mode)
							}
							w.Announce(desc)
							w.States++
							w.Transitions += 2
							_, err := runEncoder(vals, []int{i, i}, fw)
							if fw.faults > 0 {
								w.Nontrivial++
							}
							if err != nil {
								w.Fail(desc(), err)
								return
							}
						}
					}
				}
			},
		},
	}})
}
