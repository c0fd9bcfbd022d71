package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"github.com/zerosnake0/jzon"
)

// C02: untyped decoding fidelity.

func stdUntyped(b []byte, num bool) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	if num {
		d.UseNumber()
	}
	var v interface{}
	err := d.Decode(&v)
	if deepErr(err) {
		i := 0
		return refTree(b, &i, num)
	}
	return v, err
}

type xHolder struct {
	Pre int
	X   interface{} `json:"x"`
	End int
}

// untypedAll decodes a JSON text through every untyped entry point
func untypedAll(b []byte, full bool) (err error) {
	defer catch(&err)
	want, werr := stdUntyped(b, false)
	cmp := func(what string, v interface{}, e error) error {
		if (e == nil) != (werr == nil) {
			return fmt.Errorf("%s: error %v, reference error %v", what, e, werr)
		}
		if e == nil && !eqTree(v, want) {
			return fmt.Errorf("%s: got %s want %s", what, show(v), show(want))
		}
		return nil
	}
	var v interface{}
	e := jzon.Unmarshal(b, &v)
	if err := cmp("Unmarshal", v, e); err != nil {
		return err
	}
	it := jzon.NewIterator()
	it.ResetBytes(b)
	v, e = it.Read()
	it.Release()
	if err := cmp("Iterator.Read", v, e); err != nil {
		return err
	}
	wantN, nerr := stdUntyped(b, true)
	v = nil
	d := jzon.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	e = d.Decode(&v)
	d.Release()
	if e != nil || nerr != nil || !eqTree(v, wantN) {
		return fmt.Errorf("Decoder with number mode: got %s (%v) want %s", show(v), e, show(wantN))
	}
	if !full {
		return nil
	}
	v = nil
	e = numberCfg.Unmarshal(b, &v)
	if e != nil || !eqTree(v, wantN) {
		return fmt.Errorf("configured number mode: got %s (%v) want %s", show(v), e, show(wantN))
	}
	v = nil
	e = jzon.UnmarshalFromReader(&oneByteReader{b: b}, &v)
	if err := cmp("UnmarshalFromReader", v, e); err != nil {
		return err
	}
	v = nil
	e = jzon.UnmarshalFromString(string(b), &v)
	if err := cmp("UnmarshalFromString", v, e); err != nil {
		return err
	}
	v = nil
	dd := jzon.NewDecoder(newChunk(b, 3))
	e = dd.Decode(&v)
	dd.Release()
	if err := cmp("Decoder", v, e); err != nil {
		return err
	}
	it = jzon.NewIterator()
	it.ResetBytes(b)
	v = nil
	e = it.ReadVal(&v)
	it.Release()
	if err := cmp("Iterator.ReadVal", v, e); err != nil {
		return err
	}
	// as a struct field, as an array element, as a map element
	x := xHolder{Pre: 7, End: 9}
	e = jzon.Unmarshal([]byte(`{"x":`+string(b)+`}`), &x)
	if err := cmp("field", x.X, e); err != nil {
		return err
	}
	if x.Pre != 7 || x.End != 9 {
		return fmt.Errorf("neighbour fields changed: %+v", x)
	}
	var sl []interface{}
	e = jzon.Unmarshal([]byte(`[0,`+string(b)+`,1]`), &sl)
	if e == nil {
		if len(sl) != 3 {
			return fmt.Errorf("slice of %d elements instead of 3", len(sl))
		}
		v = sl[1]
	}
	if err := cmp("element", v, e); err != nil {
		return err
	}
	var m map[string]interface{}
	e = jzon.Unmarshal([]byte(`{"k":`+string(b)+`,"l":0}`), &m)
	if e == nil && len(m) != 2 {
		return fmt.Errorf("map of %d elements instead of 2", len(m))
	}
	if err := cmp("map element", m["k"], e); err != nil {
		return err
	}
	switch want.(type) {
	case map[string]interface{}:
		m = nil
		e = jzon.Unmarshal(b, &m)
		if err := cmp("map target", interface{}(m), e); err != nil {
			return err
		}
	case []interface{}:
		sl = nil
		e = jzon.Unmarshal(b, &sl)
		if err := cmp("slice target", interface{}(sl), e); err != nil {
			return err
		}
	}
	return nil
}

func c02Check(w *W, b []byte, full bool) {
	if !w.Begin() {
		return
	}
	w.Announce(func() string { return fmt.Sprintf("%q", clip(string(b), 3000)) })
	w.Nontrivial++
	w.Sample(func() string { return string(b) })
	if err := untypedAll(b, full); err != nil {
		w.Fail(fmt.Sprintf("%q", clip(string(b), 3000)), err)
	}
}

// docEngine enumerates every complete JSON text over the tokens
func docEngine(name, what string, toks []string, quickLen, thoroughLen int, f func(w *W, text []byte, n int)) *Engine {
	return &Engine{
		Name:   name,
		Rule:   fmt.Sprintf("every complete JSON text that is a concatenation of at most N symbols of %q; %s", toks, what),
		Bounds: fmt.Sprintf("N=%d quick, %d thorough", quickLen, thoroughLen),
		Units:  func(bool) int { return len(toks) * len(toks) * len(toks) },
		Run: func(w *W, unit int) {
			max := quickLen
			if w.Thorough {
				max = thoroughLen
			}
			var rec func(p pda, text []byte, n int, lastNum bool)
			rec = func(p pda, text []byte, n int, lastNum bool) {
				if w.Stop() {
					return
				}
				w.States++
				if p.accepting() {
					f(w, text, n)
				}
				if n >= max {
					return
				}
				for _, t := range toks {
					num := t[0] == '-' || isDigit(t[0])
					if num && lastNum {
						continue // would only spell another number
					}
					w.Transitions++
					q := pda{st: p.st, key: p.key, stack: append(make([]byte, 0, 16), p.stack...)}
					alive := true
					for i := 0; i < len(t) && alive; i++ {
						alive = q.step(t[i])
					}
					// the text must be completable within the bound
					if alive && n+1+len(q.stack) <= max {
						rec(q, append(append(make([]byte, 0, len(text)+len(t)), text...), t...), n+1, num)
					}
				}
			}
			var p pda
			p.reset()
			ts := []string{toks[unit/len(toks)/len(toks)], toks[unit/len(toks)%len(toks)], toks[unit%len(toks)]}
			// short texts belong to the first unit with that prefix
			text := []byte(nil)
			last := false
			for j, t := range ts {
				num := t[0] == '-' || isDigit(t[0])
				if num && last {
					return
				}
				last = num
				for i := 0; i < len(t); i++ {
					if !p.step(t[i]) {
						return
					}
				}
				text = append(text, t...)
				if j < 2 && p.accepting() && (j == 1 && unit%len(toks) == 0 || j == 0 && unit%(len(toks)*len(toks)) == 0) {
					f(w, text, j+1)
				}
			}
			rec(p, text, 3, last)
		},
	}
}

func c02Growth() *Engine {
	leaf := []string{"1", `"s"`, "null", "[]", "{}", `[2]`, `{"z":3}`}
	maxN := func(th bool) int {
		if th {
			return 300
		}
		return 80
	}
	return &Engine{
		Name:   "growth",
		Rule:   "arrays and objects of every element count, every element kind; every pair of positions holding the same key; every nesting depth with every sibling layout before and after the nested container at one level",
		Bounds: "counts and depths to 80 (quick) / 300 (thorough)",
		Units:  func(th bool) int { return maxN(th) },
		Run: func(w *W, unit int) {
			n := unit
			for _, l := range leaf {
				w.States++
				c02Check(w, []byte("["+strings.TrimSuffix(strings.Repeat(l+",", n), ",")+"]"), true)
				var sb strings.Builder
				sb.WriteString("{")
				for i := 0; i < n; i++ {
					if i > 0 {
						sb.WriteString(" , ")
					}
					sb.WriteString(`"k` + strconv.Itoa(i) + `": ` + l)
				}
				sb.WriteString("}")
				c02Check(w, []byte(sb.String()), true)
			}
			// duplicates: key i and key j equal
			if n <= 24 {
				for i := 0; i < n; i++ {
					for j := i + 1; j < n; j++ {
						var sb strings.Builder
						sb.WriteString("{")
						for k := 0; k < n; k++ {
							if k > 0 {
								sb.WriteString(",")
							}
							kk := k
							if k == j {
								kk = i
							}
							fmt.Fprintf(&sb, `"k%d":%d`, kk, k)
						}
						sb.WriteString("}")
						w.Transitions++
						c02Check(w, []byte(sb.String()), true)
					}
				}
			}
			// nesting
			d := n
			pre := []string{"", "0", `"p",{}`, `[1],{"y":[]}`}
			for pat := 0; pat < 4; pat++ {
				for odd := 0; odd <= d; odd++ {
					if w.Stop() {
						return
					}
					for _, b := range pre {
						for _, a := range pre[:2] {
							var sb strings.Builder
							var close []string
							for lv := 0; lv < d; lv++ {
								arr := pat == 0 || pat == 2 && lv%2 == 0 || pat == 3 && lv%3 == 0
								x, y := "", ""
								if lv == odd || odd == d {
									x, y = b, a
								}
								if lv == odd {
									arr = !arr
								}
								if arr {
									sb.WriteString("[")
									if x != "" {
										sb.WriteString(x + ",")
									}
									c := "]"
									if y != "" {
										c = "," + y + "]"
									}
									close = append(close, c)
								} else {
									sb.WriteString("{")
									if x != "" {
										sb.WriteString(`"b":[` + x + `],`)
									}
									sb.WriteString(`"n":`)
									c := "}"
									if y != "" {
										c = `,"a":` + y + "}"
									}
									close = append(close, c)
								}
							}
							sb.WriteString("7")
							for i := len(close) - 1; i >= 0; i-- {
								sb.WriteString(close[i])
							}
							w.States++
							w.Transitions += int64(d)
							c02Check(w, []byte(sb.String()), false)
						}
					}
				}
			}
		},
	}
}

func c02Leaves() *Engine {
	skel := []string{"%", " % ", "[%]", `{"a":%}`, `[0,%,1]`, `{"a":0,"b":%,"c":1}`, `[[%]]`, `[{"a":%}]`, `{"a":[%]}`, `{"a":{"b":%}}`, `[%,%]`, `{"a":%,"a":%}`, "[\n%\t,\r%]", `{"a" :% }`}
	return &Engine{
		Name:   "leaves",
		Rule:   "every scalar literal (numbers by grammar, strings with escapes, literals) at every place of the skeleton documents",
		Bounds: "numbers: sign x integer part x fraction x exponent over small part sets",
		Units:  func(bool) int { return len(skel) },
		Run: func(w *W, unit int) {
			var lits []string
			for _, s := range scalarTexts {
				lits = append(lits, s)
			}
			for _, sg := range []string{"", "-"} {
				for _, i := range []string{"0", "1", "9", "10", "12", "123", "9007199254740993", "18446744073709551616", "123456789012345678901234567890"} {
					for _, f := range []string{"", ".0", ".5", ".1", ".25", ".123456789012345678", ".0000000000000000000000001"} {
						for _, e := range []string{"", "e0", "e1", "E-1", "e+10", "e22", "e-7", "e308", "e-324", "e-400", "e310", "e00", "e-05"} {
							lits = append(lits, sg+i+f+e)
						}
					}
				}
			}
			for _, l := range lits {
				if w.Stop() {
					return
				}
				w.States++
				w.Transitions++
				t := strings.Replace(skel[unit], "%", l, -1)
				// the reference must be able to read it in number mode
				if _, err := stdUntyped([]byte(t), true); err != nil {
					w.Outcome("not JSON")
					continue
				}
				c02Check(w, []byte(t), !rangeErr([]byte(t)))
				if rangeErr([]byte(t)) {
					w.Outcome("number out of the float64 range")
				} else {
					w.Outcome("value")
				}
			}
		},
	}
}

func init() {
	toks := []string{"{", "}", "[", "]", ",", ":", `"a"`, `"b"`, "1", "-2.5", "true", "null"}
	register(&Property{ID: "C02", Engines: []*Engine{
		docEngine("documents", "each decoded through every untyped entry point, plain and in number mode", toks, 15, 18, func(w *W, text []byte, n int) { c02Check(w, text, n <= 14) }),
		c02Growth(),
		c02Leaves(),
	}})
}
