package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"github.com/zerosnake0/jzon"
)

// C05: strings decode to exactly the denoted text.

// refUnescape: s is the text after the opening quote; returns the denoted
// bytes and the rest after the closing quote.
func refUnescape(s string) (out string, rest string, ok bool) {
	var b []byte
	hex4 := func(i int) (rune, bool) {
		if i+4 > len(s) {
			return 0, false
		}
		var r rune
		for _, c := range []byte(s[i : i+4]) {
			switch {
			case c >= '0' && c <= '9':
				r = r<<4 | rune(c-'0')
			case c >= 'a' && c <= 'f':
				r = r<<4 | rune(c-'a'+10)
			case c >= 'A' && c <= 'F':
				r = r<<4 | rune(c-'A'+10)
			default:
				return 0, false
			}
		}
		return r, true
	}
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == '"':
			return string(b), s[i+1:], true
		case c < 0x20:
			return "", "", false
		case c != '\\':
			b = append(b, c)
			i++
		default:
			i++
			if i >= len(s) {
				return "", "", false
			}
			switch s[i] {
			case '"', '\\', '/':
				b = append(b, s[i])
				i++
			case 'b':
				b = append(b, 8)
				i++
			case 'f':
				b = append(b, 12)
				i++
			case 'n':
				b = append(b, 10)
				i++
			case 'r':
				b = append(b, 13)
				i++
			case 't':
				b = append(b, 9)
				i++
			case 'u':
				r, ok := hex4(i + 1)
				if !ok {
					return "", "", false
				}
				i += 5
				if utf16.IsSurrogate(r) {
					r2 := rune(0)
					if i+1 < len(s) && s[i] == '\\' && s[i+1] == 'u' {
						r2, _ = hex4(i + 2)
					}
					if c := utf16.DecodeRune(r, r2); c != utf8.RuneError {
						r = c
						i += 6
					} else {
						r = utf8.RuneError
					}
				}
				b = utf8.AppendRune(b, r)
			default:
				return "", "", false
			}
		}
	}
	return "", "", false
}

type strHolder struct {
	G0 string
	S  string  `json:"s"`
	P  *string `json:"p"`
	N  NString `json:"n"`
	T  TextStr `json:"t"`
	Q  string  `json:"q,string"`
	G1 string
}

// stringsAll: doc is a text starting with a quote
func stringsAll(body string, level int) (err error) {
	defer catch(&err)
	text := `"` + body
	want, rest, ok := refUnescape(body)
	complete := ok && strings.TrimLeft(rest, " \t\r\n") == ""
	// the reference against the standard library, where they are comparable
	if utf8.ValidString(body) {
		var s string
		e := json.Unmarshal([]byte(text), &s)
		if (e == nil) != complete || e == nil && s != want {
			return fmt.Errorf("REFERENCE DISAGREEMENT %q %v / %q %v", want, complete, s, e)
		}
	}
	it := jzon.NewIterator()
	defer it.Release()
	it.ResetBytes([]byte(text))
	s, e := it.ReadString()
	r := string(it.Buffer())
	if (e == nil) != ok || ok && (s != want || r != rest) {
		return fmt.Errorf("ReadString: %q rest %q error %v, want %q rest %q accepts=%v", s, r, e, want, rest, ok)
	}
	it.Reset(&oneByteReader{b: []byte(text)})
	s, e = it.ReadString()
	if (e == nil) != ok || ok && s != want {
		return fmt.Errorf("ReadString byte-wise: %q error %v, want %q accepts=%v", s, e, want, ok)
	}
	// as an object key and value
	if complete || !ok {
		o := `{` + text + `:` + text + `}`
		if !ok && strings.Contains(body, `"`) {
			o = ""
		}
		if o != "" && !strings.Contains(rest, " ") {
			var m map[string]string
			e = jzon.Unmarshal([]byte(o), &m)
			if (e == nil) != ok || ok && (len(m) != 1 || m[want] != want) {
				return fmt.Errorf("map %s: %q error %v, want %q accepts=%v", o, m, e, want, ok)
			}
			var u interface{}
			e = jzon.Unmarshal([]byte(o), &u)
			if (e == nil) != ok || ok && !eqTree(u, map[string]interface{}{want: want}) {
				return fmt.Errorf("untyped %s: %q error %v, want %q accepts=%v", o, u, e, want, ok)
			}
		}
	}
	if level == 0 {
		return nil
	}
	it.ResetBytes([]byte(text))
	b, e := it.ReadStringAsSlice()
	if (e == nil) != ok || ok && string(b) != want {
		return fmt.Errorf("ReadStringAsSlice: %q error %v, want %q accepts=%v", b, e, want, ok)
	}
	it.ResetBytes([]byte(text))
	b, e = it.ReadStringAndAppend([]byte("pre"))
	if (e == nil) != ok || ok && string(b) != "pre"+want {
		return fmt.Errorf("ReadStringAndAppend: %q error %v, want %q accepts=%v", b, e, want, ok)
	}
	it.ResetBytes([]byte(text))
	e = it.SkipString()
	if (e == nil) != ok || ok && string(it.Buffer()) != rest {
		return fmt.Errorf("SkipString: error %v rest %q, want rest %q accepts=%v", e, it.Buffer(), rest, ok)
	}
	it.ResetBytes([]byte(text))
	b, e = it.SkipRaw()
	if (e == nil) != ok || ok && string(b) != text[:len(text)-len(rest)] {
		return fmt.Errorf("SkipRaw: %q error %v accepts=%v", b, e, ok)
	}
	it.ResetBytes([]byte(text))
	x, e := it.Read()
	if (e == nil) != ok || ok && x != interface{}(want) {
		return fmt.Errorf("Read: %q error %v, want %q accepts=%v", x, e, want, ok)
	}
	s = "old"
	e = jzon.Unmarshal([]byte(text), &s)
	if (e == nil) != complete || complete && s != want {
		return fmt.Errorf("Unmarshal(string): %q error %v, want %q accepts=%v", s, e, want, complete)
	}
	var t TextStr
	e = jzon.Unmarshal([]byte(text), &t)
	if (e == nil) != complete || complete && string(t) != "got:"+want {
		return fmt.Errorf("text hook: %q error %v, want %q accepts=%v", t, e, want, complete)
	}
	if !complete || strings.Contains(rest, " ") {
		return nil
	}
	for _, f := range []string{"s", "p", "n", "t"} {
		h := strHolder{G0: "g0", G1: "g1"}
		e = jzon.Unmarshal([]byte(`{"`+f+`":`+text+`}`), &h)
		if e != nil || h.G0 != "g0" || h.G1 != "g1" {
			return fmt.Errorf("field %s: %+v error %v", f, h, e)
		}
		got := h.S + string(h.N) + strings.TrimPrefix(string(h.T), "got:")
		if h.P != nil {
			got += *h.P
		}
		if got != want {
			return fmt.Errorf("field %s: %q, want %q", f, got, want)
		}
	}
	var mt map[TextStr]int
	e = jzon.Unmarshal([]byte(`{`+text+`:1}`), &mt)
	if e != nil || mt[TextStr("got:"+want)] != 1 {
		return fmt.Errorf("text hook key: %q error %v, want %q", mt, e, want)
	}
	var mn map[NString]int
	e = jzon.UnmarshalFromReader(&oneByteReader{b: []byte(`{` + text + ` : 1}`)}, &mn)
	if e != nil || mn[NString(want)] != 1 {
		return fmt.Errorf("named key: %q error %v, want %q", mn, e, want)
	}
	obj := []byte(`{` + text + `:[],` + text + `:{}}`)
	it.ResetBytes(obj)
	more, k, e := it.ReadObjectBegin()
	if e != nil || !more || k != want {
		return fmt.Errorf("ReadObjectBegin: %v %q %v, want %q", more, k, e, want)
	}
	if e = it.Skip(); e != nil {
		return e
	}
	more, k, e = it.ReadObjectMore()
	if e != nil || !more || k != want {
		return fmt.Errorf("ReadObjectMore: %v %q %v, want %q", more, k, e, want)
	}
	it.ResetBytes(obj)
	n := 0
	e = it.ReadObjectCB(func(it *jzon.Iterator, f string) error {
		n++
		if f != want {
			return fmt.Errorf("callback key %q, want %q", f, want)
		}
		return it.Skip()
	})
	if e != nil || n != 2 {
		return fmt.Errorf("ReadObjectCB: %v calls %d", e, n)
	}
	// quoted once more
	if utf8.ValidString(text) {
		q, _ := json.Marshal(text)
		var h strHolder
		e = jzon.Unmarshal([]byte(`{"q":`+string(q)+`}`), &h)
		if e != nil || h.Q != want {
			return fmt.Errorf("quoted string: %q error %v, want %q", h.Q, e, want)
		}
	}
	return nil
}

func c05Check(w *W, body string, level int) {
	if !w.Begin() {
		return
	}
	w.Announce(func() string { return fmt.Sprintf("%q", `"`+clip(body, 2000)) })
	w.Sample(func() string { return `"` + body })
	if _, _, ok := refUnescape(body); ok {
		w.Nontrivial++
	}
	if err := stringsAll(body, level); err != nil {
		w.Fail(fmt.Sprintf("%q", `"`+clip(body, 2000)), err)
	}
}

var c05Items = []string{"a", "/", "\x7f", "é", "中", "😀", "\x80", `\n`, `\"`, `\\`, `\/`, `\b`, `\u0041`, `\u00e9`, `\u07FF`, `\uffff`, `\u0000`, `\ud83d`, `\uD800`, `\ude00`, `\uDC00`, `\uDFFF`, `\x`, `\u12`, `\u12g4`, "\x01", "\x1f", `"`, `\`}

var c05Bad = map[string]bool{`\x`: true, `\u12`: true, `\u12g4`: true, "\x01": true, "\x1f": true, `"`: true}

func c05Seq() *Engine {
	I := c05Items
	return &Engine{
		Name:   "items",
		Rule:   fmt.Sprintf("every sequence of at most N string items %q, closed and unclosed, through every string consumer; non-trivial = a well formed string", I),
		Bounds: "quick: 5 items, all consumers to 4; thorough: 6 items, all to 5",
		Units:  func(bool) int { return len(I) * len(I) },
		Run: func(w *W, unit int) {
			max, full := 5, 4
			if w.Thorough {
				max, full = 6, 5
			}
			var rec func(s string, n int)
			rec = func(s string, n int) {
				if w.Stop() {
					return
				}
				w.States++
				lvl := 0
				if n <= full {
					lvl = 1
				}
				c05Check(w, s+`"`, lvl)
				if n <= 3 {
					c05Check(w, s, 1)
				}
				if n < max {
					for _, x := range I {
						w.Transitions++
						rec(s+x, n+1)
					}
				}
			}
			if unit == 0 {
				c05Check(w, "", 1)
				c05Check(w, `"`, 1)
				for _, x := range I {
					c05Check(w, x, 1)
					c05Check(w, x+`"`, 1)
				}
			}
			rec(I[unit/len(I)]+I[unit%len(I)], 2)
		},
	}
}

func c05U4() *Engine {
	firsts := []string{"", `\ud7ff`, `\ud800`, `\uD801`, `\udbff`, `\uDC00`, `\udfff`, `\ue000`, "x"}
	return &Engine{
		Name:   "u4",
		Rule:   "all 65536 four-digit escapes, lower and upper case, alone and after each of a set of first escapes (surrogate limits), followed by nothing, a character, another low surrogate; every byte at every hex digit position; every byte after a backslash",
		Bounds: "complete",
		Units:  func(bool) int { return 256 },
		Run: func(w *W, unit int) {
			for lo := 0; lo < 256; lo++ {
				if w.Stop() {
					return
				}
				w.States++
				r := unit<<8 | lo
				for _, f := range firsts {
					w.Transitions++
					lvl := 0
					if f == "" || r >= 0xd700 && r <= 0xe100 && lo < 3 {
						lvl = 1
					}
					c05Check(w, f+fmt.Sprintf(`\u%04x"`, r), lvl)
					c05Check(w, f+fmt.Sprintf(`\u%04Xz"`, r), 0)
					if r >= 0xd7f0 && r <= 0xe00f {
						c05Check(w, f+fmt.Sprintf(`\u%04X\uDE00"`, r), 0)
						c05Check(w, f+fmt.Sprintf(`\u%04X\t"`, r), 0)
						c05Check(w, f+fmt.Sprintf(`\u%04X\`, r), 0)
						c05Check(w, f+fmt.Sprintf(`\u%04X\u`, r), 0)
						c05Check(w, f+fmt.Sprintf(`\u%04X\u12`, r), 0)
						c05Check(w, f+fmt.Sprintf(`\u%04X\x"`, r), 0)
					}
				}
			}
			c := string([]byte{byte(unit)})
			for p := 0; p < 4; p++ {
				for _, base := range []string{"0041", "d83d", "FFFF"} {
					h := base[:p] + c + base[p+1:]
					c05Check(w, `\u`+h+`"`, 1)
					c05Check(w, `a\u`+h+`b"`, 1)
					c05Check(w, `\ud83d\u`+h+`"`, 1)
				}
			}
			c05Check(w, `\`+c+`"`, 1)
			c05Check(w, `\ud800\`+c+`"`, 1)
			c05Check(w, c+`"`, 1)
			c05Check(w, `\n`+c+`"`, 1)
		},
	}
}

func c05Long() *Engine {
	specials := []string{`\n`, `\u00e9`, `\ud83d\ude00`, `\ud800`, "é", "\x02", `\q`, `"`, "\x7f", "\xff"}
	return &Engine{
		Name:   "long",
		Rule:   "strings of every length around the internal buffer sizes with one special item at every position, whole and through readers of chunk 1, 7, 63, 64, 65, 512 (string start at several offsets)",
		Bounds: "lengths 0..140 (quick, every position), plus 500..530 (positions at both ends and the boundaries); thorough 0..300, 500..530, 1000..1040",
		Units: func(th bool) int {
			if th {
				return 300 + 31 + 41
			}
			return 140 + 31
		},
		Run: func(w *W, unit int) {
			n := unit
			lim := 140
			if w.Thorough {
				lim = 300
			}
			if unit >= lim {
				n = 500 + unit - lim
				if n > 530 {
					n = 1000 + n - 531
				}
			}
			base := strings.Repeat("abcdefghij", n/10+1)[:n]
			for pos := 0; pos <= n; pos++ {
				if n > 300 && pos > 8 && pos < n-8 && (pos < 440 || pos > 520) && (pos < 56 || pos > 72) {
					continue
				}
				for _, sp := range specials {
					if w.Stop() {
						return
					}
					w.States++
					w.Transitions++
					body := base[:pos] + sp + base[pos:] + `"`
					lvl := 0
					if pos%16 < 2 {
						lvl = 1
					}
					c05Check(w, body, lvl)
					want, _, ok := refUnescape(body)
					for _, ch := range []int{7, 63, 64, 65, 512} {
						if !w.Begin() {
							continue
						}
						w.Announce(func() string { return fmt.Sprintf("%q chunk %d", body, ch) })
						err := func() (err error) {
							defer catch(&err)
							it := jzon.NewIterator()
							defer it.Release()
							it.Reset(newChunk([]byte(`"`+body), ch))
							s, e := it.ReadString()
							if (e == nil) != ok || ok && s != want {
								return fmt.Errorf("ReadString: %q error %v, want %q accepts=%v", s, e, want, ok)
							}
							var m map[string]string
							e = jzon.UnmarshalFromReader(newChunk([]byte(`{"`+body+`:"`+body+`}`), ch), &m)
							if sp != `"` && ((e == nil) != ok || ok && m[want] != want) {
								return fmt.Errorf("map: %q error %v, want %q accepts=%v", m, e, want, ok)
							}
							return nil
						}()
						if err != nil {
							w.Fail(fmt.Sprintf("%q chunk %d", body, ch), err)
							return
						}
					}
				}
			}
		},
	}
}

func c05Splits() *Engine {
	I := c05Items
	return &Engine{
		Name:   "splits",
		Rule:   "every pair of string items between plain characters, delivered in every partition into up to three reads, read as string, as key and skipped",
		Bounds: "items^2 x two-cut partitions",
		Units:  func(bool) int { return len(I) },
		Run: func(w *W, unit int) {
			for _, b := range I {
				body := "k" + I[unit] + b + `z"`
				text := `{"` + body + `:"` + body + `}`
				_, rest, ok := refUnescape(body)
				ok = ok && rest == ""
				want, _, _ := refUnescape(body)
				if !ok {
					want = ""
					ok = json.Valid([]byte(text)) // e.g. an escaped quote
					if ok {
						continue
					}
				}
				for i := 1; i < len(text); i++ {
					for j := 0; j < len(text)-i; j++ {
						if w.Stop() {
							return
						}
						if !w.Begin() {
							continue
						}
						lens := []int{i, j, len(text)}
						if j == 0 {
							lens = []int{i, len(text)}
						}
						w.Announce(func() string { return fmt.Sprintf("%q %v", text, lens) })
						w.States++
						w.Transitions++
						if ok {
							w.Nontrivial++
						}
						err := func() (err error) {
							defer catch(&err)
							var m map[string]string
							e := jzon.UnmarshalFromReader(newChunk([]byte(text), lens...), &m)
							if (e == nil) != ok || ok && (len(m) != 1 || m[want] != want) {
								return fmt.Errorf("map: %q error %v, want %q accepts=%v", m, e, want, ok)
							}
							var u interface{}
							e = jzon.UnmarshalFromReader(newChunk([]byte(text), lens...), &u)
							if (e == nil) != ok || ok && !eqTree(u, map[string]interface{}{want: want}) {
								return fmt.Errorf("untyped: %q error %v, want %q accepts=%v", u, e, want, ok)
							}
							it := jzon.NewIterator()
							defer it.Release()
							it.Reset(newChunk([]byte(text), lens...))
							if e = it.Skip(); (e == nil) != ok {
								return fmt.Errorf("skip: error %v accepts=%v", e, ok)
							}
							return nil
						}()
						if err != nil {
							w.Fail(fmt.Sprintf("%q %v", text, lens), err)
							return
						}
					}
				}
			}
		},
	}
}

func c05Base64() *Engine {
	I := []string{"A", "Q", "z", "=", "/", "+", `\/`, `\u0041`, `\n`, "-", " ", `\u003d`}
	return &Engine{
		Name:   "base64",
		Rule:   fmt.Sprintf("every string of at most N items of %q decoded into byte slices (plain, named, field, element, chunked) against the standard library", I),
		Bounds: "N=5 quick, 6 thorough; plus all byte contents of length <=2 and lengths to 200",
		Units:  func(bool) int { return len(I) * len(I) },
		Run: func(w *W, unit int) {
			max := 5
			if w.Thorough {
				max = 6
			}
			check := func(body string) {
				if !w.Begin() {
					return
				}
				text := []byte(`"` + body + `"`)
				w.Announce(func() string { return fmt.Sprintf("%q", text) })
				err := func() (err error) {
					defer catch(&err)
					var want []byte
					werr := json.Unmarshal(text, &want)
					if werr == nil {
						w.Nontrivial++
					}
					got := []byte("previous")
					e := jzon.Unmarshal(text, &got)
					if (e == nil) != (werr == nil) || e == nil && !eq(got, want) {
						return fmt.Errorf("[]byte: %q error %v, want %q error %v", got, e, want, werr)
					}
					var nb NBytes
					e = jzon.UnmarshalFromReader(&oneByteReader{b: text}, &nb)
					if (e == nil) != (werr == nil) || e == nil && !eq([]byte(nb), want) {
						return fmt.Errorf("named: %q error %v, want %q error %v", nb, e, want, werr)
					}
					var ll struct {
						A, B int
						Y    [][]byte `json:"y"`
					}
					e = jzon.Unmarshal([]byte(`{"y":[`+string(text)+`,`+string(text)+`]}`), &ll)
					if (e == nil) != (werr == nil) || e == nil && (len(ll.Y) != 2 || !eq(ll.Y[0], want) || !eq(ll.Y[1], want)) {
						return fmt.Errorf("nested: %q error %v, want %q error %v", ll.Y, e, want, werr)
					}
					return nil
				}()
				if err != nil {
					w.Fail(fmt.Sprintf("%q", text), err)
				}
			}
			if unit == 0 {
				check("")
				for n := 0; n <= 200; n++ {
					raw := make([]byte, n)
					for i := range raw {
						raw[i] = byte(i*37 + n)
					}
					q, _ := json.Marshal(raw)
					check(strings.Trim(string(q), `"`))
				}
			}
			for i := unit; i < 65536; i += len(I) * len(I) {
				q, _ := json.Marshal([]byte{byte(i >> 8), byte(i)})
				check(strings.Trim(string(q), `"`))
			}
			var rec func(s string, n int)
			rec = func(s string, n int) {
				if w.Stop() {
					return
				}
				w.States++
				check(s)
				if n < max {
					for _, x := range I {
						w.Transitions++
						rec(s+x, n+1)
					}
				}
			}
			rec(I[unit/len(I)]+I[unit%len(I)], 2)
		},
	}
}

func init() {
	register(&Property{ID: "C05", Engines: []*Engine{c05Seq(), c05U4(), c05Long(), c05Splits(), c05Base64()}})
}
