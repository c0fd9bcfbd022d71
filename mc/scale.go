package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/zerosnake0/jzon"
)

// The "sizes" engines: one dimension of a document, a value, a type or a
// history grows through every size at which an implementation may switch its
// behaviour (all small sizes, powers of two and of ten and their neighbours).

// scaleSizes: 0..34, 2^k-1, 2^k, 2^k+1, 3*2^k, 10^k-1, 10^k, 10^k+1 up to max
func scaleSizes(max int) []int {
	m := map[int]bool{}
	add := func(n int) {
		if n <= max {
			m[n] = true
		}
	}
	for i := 0; i <= 34; i++ {
		add(i)
	}
	for k := 32; k <= max; k *= 2 {
		add(k - 1)
		add(k)
		add(k + 1)
		add(k + k/2)
	}
	for k := 10; k <= max; k *= 10 {
		add(k - 1)
		add(k)
		add(k + 1)
	}
	var out []int
	for n := range m {
		out = append(out, n)
	}
	sort.Ints(out)
	return out
}

func pickSizes(th bool, quick, thorough int) []int {
	if th {
		return scaleSizes(thorough)
	}
	return scaleSizes(quick)
}

// joinN: the items f(0) .. f(n-1), separated by commas
func joinN(n int, f func(i int) string) string {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			sb.WriteByte(',')
		}
		sb.WriteString(f(i))
	}
	return sb.String()
}

func numItem(i int) string { return strconv.Itoa(i*7 - 3) }
func strItem(i int) string { return `"s` + strconv.Itoa(i) + `"` }
func keyItem(i int) string { return `"k` + strconv.Itoa(i) + `":` + strconv.Itoa(i) }

type scaleFam struct {
	name string
	deep bool // n levels of nesting
	f    func(n int) string
}

var scaleFams = []scaleFam{
	{"plain string", false, func(n int) string { return `"` + longStr(n) + `"` }},
	{"string of short escapes", false, func(n int) string { return `"` + strings.Repeat(`\n`, n) + `"` }},
	{"string of unicode escapes", false, func(n int) string { return `"` + strings.Repeat(`\u00e9`, n) + `"` }},
	{"string of escaped pairs", false, func(n int) string { return `"` + strings.Repeat(`\ud83d\ude00`, n) + `"` }},
	{"string of two-byte characters", false, func(n int) string { return `"` + strings.Repeat("é", n) + `"` }},
	{"string with an escape at the end", false, func(n int) string { return `"` + longStr(n) + `\t"` }},
	{"string with an escape at the start", false, func(n int) string { return `"\t` + longStr(n) + `"` }},
	{"integer digits", false, func(n int) string { return "1" + strings.Repeat("0", n%300) }},
	{"fraction digits", false, func(n int) string { return "-0." + strings.Repeat("3", n) + "7" }},
	{"exponent zeros", false, func(n int) string { return "2.5e-" + strings.Repeat("0", n) + "3" }},
	{"white space before", false, func(n int) string { return strings.Repeat(" ", n) + `[1]` }},
	{"white space after", false, func(n int) string { return `[1]` + strings.Repeat("\n", n) }},
	{"white space in an array", false, func(n int) string {
		return "[" + strings.Repeat("\t", n) + "1" + strings.Repeat(" ", n) + "," + strings.Repeat("\r", n) + "2]"
	}},
	{"white space in an object", false, func(n int) string {
		s := strings.Repeat(" ", n)
		return "{" + s + `"a"` + s + ":" + s + "1" + s + "," + s + `"b":2` + s + "}"
	}},
	{"array of numbers", false, func(n int) string { return "[" + joinN(n, numItem) + "]" }},
	{"array of strings", false, func(n int) string { return "[" + joinN(n, strItem) + "]" }},
	{"array of arrays", false, func(n int) string { return "[" + joinN(n, func(i int) string { return "[" + numItem(i) + "]" }) + "]" }},
	{"array of objects", false, func(n int) string { return "[" + joinN(n, func(i int) string { return "{" + keyItem(i) + "}" }) + "]" }},
	{"array of literals", false, func(n int) string {
		return "[" + joinN(n, func(i int) string { return []string{"null", "true", "false", "{}", "[]", `""`, "0"}[i%7] }) + "]"
	}},
	{"object of many members", false, func(n int) string { return "{" + joinN(n, keyItem) + "}" }},
	{"object repeating a member", false, func(n int) string {
		return "{" + joinN(n, func(i int) string { return `"k":` + numItem(i) }) + "}"
	}},
	{"object of objects", false, func(n int) string {
		return "{" + joinN(n, func(i int) string { return `"o` + strconv.Itoa(i) + `":{` + keyItem(i) + "}" }) + "}"
	}},
	{"long key", false, func(n int) string { return `{"` + longStr(n) + `":1,"b":2}` }},
	{"long escaped key", false, func(n int) string { return `{"` + strings.Repeat(`\u0041`, n) + `":1,"b":2}` }},
	{"two sibling arrays", false, func(n int) string {
		return "[[" + joinN(n, numItem) + "],[" + joinN(n, strItem) + "],{\"z\":[" + joinN(n, numItem) + "]}]"
	}},
	{"two sibling objects", false, func(n int) string {
		return "[{" + joinN(n, keyItem) + "},{" + joinN(n, keyItem) + "}]"
	}},
	{"nested arrays", true, func(n int) string { return strings.Repeat("[", n) + "1" + strings.Repeat("]", n) }},
	{"nested empty arrays", true, func(n int) string { return strings.Repeat("[", n+1) + strings.Repeat("]", n+1) }},
	{"nested objects", true, func(n int) string { return strings.Repeat(`{"a":`, n) + "1" + strings.Repeat("}", n) }},
	{"nested in turn", true, func(n int) string {
		return strings.Repeat(`[{"a":`, n/2) + strings.Repeat("[", n%2) + "null" + strings.Repeat("]", n%2) + strings.Repeat("}]", n/2)
	}},
	{"nested, the other order", true, func(n int) string {
		return strings.Repeat(`{"a":[`, n/2) + strings.Repeat("[", n%2) + "true" + strings.Repeat("]", n%2) + strings.Repeat("]}", n/2)
	}},
	{"nested with elements before", true, func(n int) string { return strings.Repeat("[0,", n) + "1" + strings.Repeat("]", n) }},
	{"nested with elements after", true, func(n int) string { return strings.Repeat("[", n) + "1" + strings.Repeat(",2]", n) }},
	{"nested with members around", true, func(n int) string {
		return strings.Repeat(`{"x":0,"a":`, n) + "1" + strings.Repeat(`,"y":[2]}`, n)
	}},
	{"arrays holding objects at the bottom", true, func(n int) string { return strings.Repeat("[", n) + `{"a":1}` + strings.Repeat("]", n) }},
	{"objects holding arrays at the bottom", true, func(n int) string { return strings.Repeat(`{"a":`, n) + `[1]` + strings.Repeat("}", n) }},
}

// refTree: an untyped tree by the reference grammar, without a depth limit
func refTree(b []byte, i *int, num bool) (interface{}, error) {
	ws := func() {
		for *i < len(b) && isWS(b[*i]) {
			*i++
		}
	}
	bad := errors.New("not JSON")
	ws()
	if *i >= len(b) {
		return nil, bad
	}
	str := func() (string, error) {
		s, rest, ok := refUnescape(string(b[*i+1:]))
		if !ok {
			return "", bad
		}
		*i = len(b) - len(rest)
		return s, nil
	}
	if len(b) > 4096 {
		// only the string itself
		str = func() (string, error) {
			j := *i + 1
			for j < len(b) && b[j] != '"' {
				if b[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(b) {
				return "", bad
			}
			s, _, ok := refUnescape(string(b[*i+1 : j+1]))
			if !ok {
				return "", bad
			}
			*i = j + 1
			return s, nil
		}
	}
	switch c := b[*i]; {
	case c == '[':
		out := []interface{}{}
		*i++
		ws()
		if *i < len(b) && b[*i] == ']' {
			*i++
			return out, nil
		}
		for {
			v, err := refTree(b, i, num)
			if err != nil {
				return nil, err
			}
			out = append(out, v)
			ws()
			if *i >= len(b) {
				return nil, bad
			}
			*i++
			if b[*i-1] == ']' {
				return out, nil
			}
		}
	case c == '{':
		out := map[string]interface{}{}
		*i++
		ws()
		if *i < len(b) && b[*i] == '}' {
			*i++
			return out, nil
		}
		for {
			ws()
			k, err := str()
			if err != nil {
				return nil, err
			}
			ws()
			*i++
			v, err := refTree(b, i, num)
			if err != nil {
				return nil, err
			}
			out[k] = v
			ws()
			if *i >= len(b) {
				return nil, bad
			}
			*i++
			if b[*i-1] == '}' {
				return out, nil
			}
		}
	case c == '"':
		return str()
	case c == 'n':
		*i += 4
		return nil, nil
	case c == 't':
		*i += 4
		return true, nil
	case c == 'f':
		*i += 5
		return false, nil
	}
	j := *i
	for *i < len(b) && strings.IndexByte("+-.eE0123456789", b[*i]) >= 0 {
		*i++
	}
	if num {
		return json.Number(b[j:*i]), nil
	}
	return strconv.ParseFloat(string(b[j:*i]), 64)
}

// deepErr: the standard library gave up because of its nesting limit
func deepErr(err error) bool {
	return err != nil && strings.Contains(err.Error(), "exceeded max depth")
}

// corruptions of a document: positions near the ends, the middle and the
// internal buffer sizes, overwritten; ends cut and lengthened
func corruptions(doc string, few bool, f func(b []byte) bool) bool {
	n := len(doc)
	for _, s := range []string{"]", "}", "x", ",", `"`, "0", "\x00"} {
		if !f([]byte(doc + s)) {
			return false
		}
	}
	cut := map[int]bool{}
	for _, k := range []int{0, 1, 2, n / 2, n - 1, n - 2, n - 3, 511, 512, 513} {
		if k >= 0 && k < n && !cut[k] {
			cut[k] = true
			if few && k > 2 && k < n-3 && k != n/2 {
				continue
			}
			if !f([]byte(doc[:k])) {
				return false
			}
		}
	}
	repl := "x\x00\",]}\\1:"
	if few {
		repl = "x\"]"
	}
	for _, k := range []int{0, 1, n / 2, n/2 + 1, n - 3, n - 2, n - 1, 511, 512} {
		if k < 0 || k >= n || few && k > 500 && k < n/2 {
			continue
		}
		for i := 0; i < len(repl); i++ {
			b := []byte(doc)
			if b[k] == repl[i] {
				continue
			}
			b[k] = repl[i]
			if !f(b) {
				return false
			}
		}
		// a byte removed, a byte doubled
		if !f(append([]byte(doc[:k]), doc[k+1:]...)) {
			return false
		}
		if !f(append([]byte(doc[:k+1]), doc[k:]...)) {
			return false
		}
	}
	return true
}

func addEngine(id string, e *Engine) {
	p := properties[id]
	p.Engines = append(p.Engines, e)
}

// famEngine runs f for every family and size
func famEngine(id, rule string, quick, thorough, deepQ, deepT int, f func(w *W, fam scaleFam, n int) bool) {
	size := func(th bool, deep bool) []int {
		if deep {
			return pickSizes(th, deepQ, deepT)
		}
		return pickSizes(th, quick, thorough)
	}
	addEngine(id, &Engine{
		Name:   "sizes",
		Rule:   rule,
		Bounds: fmt.Sprintf("%d families, sizes 0..34, powers of two and of ten and their neighbours to %d, nesting to %d (thorough %d and %d)", len(scaleFams), quick, deepQ, thorough, deepT),
		Units: func(th bool) int {
			n := len(size(th, false))
			if m := len(size(th, true)); m > n {
				n = m
			}
			return n * len(scaleFams)
		},
		Run: func(w *W, unit int) {
			fam := scaleFams[unit%len(scaleFams)]
			l := size(w.Thorough, fam.deep)
			// the large ones first: they take longest
			k := len(l) - 1 - unit/len(scaleFams)
			if k < 0 {
				return
			}
			w.States++
			f(w, fam, l[k])
		},
	})
}

func init() {
	famEngine("C01", "documents growing in one dimension x corruptions (bytes overwritten, removed, doubled, the end cut or lengthened) at the ends, the middle and the buffer boundaries: every accepting entry point agrees with the grammar", 4097, 131073, 131073, 1<<20+1,
		func(w *W, fam scaleFam, n int) bool {
			run := func(b []byte) bool {
				if w.Stop() {
					return false
				}
				if !w.Begin() {
					return true
				}
				desc := func() string { return fmt.Sprintf("%s %d: %d bytes %q", fam.name, n, len(b), clip(string(b), 600)) }
				w.Announce(desc)
				w.Transitions++
				want := refValid(b)
				if want {
					w.Nontrivial++
				}
				lvl := 1
				if n > 20000 {
					lvl = 0
				}
				if err := acceptAll(b, want, lvl); err != nil {
					w.Fail(desc(), err)
					return false
				}
				return true
			}
			doc := fam.f(n)
			if !run([]byte(doc)) {
				return false
			}
			if n > 5000 && !w.Thorough {
				for _, b := range []string{doc + "]", doc + "}", doc[:len(doc)-1], doc[:len(doc)-1] + "x", doc[1:], doc[:len(doc)/2] + doc[len(doc)/2+1:]} {
					if !run([]byte(b)) {
						return false
					}
				}
				return true
			}
			return corruptions(doc, n > 300, run)
		})

	famEngine("C02", "documents growing in one dimension through every untyped entry point; beyond the standard library's nesting limit against a reference tree", 16385, 131073, 20001, 131073,
		func(w *W, fam scaleFam, n int) bool {
			w.Transitions++
			c02Check(w, []byte(fam.f(n)), n <= 4097)
			return !w.Stop()
		})
	addEngine("C02", &Engine{
		Name:   "siblings",
		Rule:   "containers of every pair of sizes next to each other with different elements (arrays, objects, in an array, in an object, and one more level down), untyped",
		Bounds: "sizes 0..40, 63..65, 127..129 (thorough 0..130) squared, 4 arrangements",
		Units: func(th bool) int {
			if th {
				return 131
			}
			return 47
		},
		Run: func(w *W, unit int) {
			var sz []int
			lim := 40
			if w.Thorough {
				lim = 130
			}
			for i := 0; i <= lim; i++ {
				sz = append(sz, i)
			}
			if !w.Thorough {
				sz = append(sz, 63, 64, 65, 127, 128, 129)
			}
			a := sz[unit]
			arr := func(n, base int) string {
				return "[" + joinN(n, func(i int) string { return strconv.Itoa(base + i) }) + "]"
			}
			obj := func(n, base int) string {
				return "{" + joinN(n, func(i int) string { return fmt.Sprintf(`"k%d":%d`, base+i, base+i) }) + "}"
			}
			for _, b := range sz {
				for _, doc := range []string{
					"[" + arr(a, 1000) + "," + arr(b, 2000) + "," + arr(a, 3000) + "]",
					`{"p":` + arr(a, 1000) + `,"q":` + obj(b, 2000) + `,"r":` + arr(b, 3000) + `}`,
					"[[" + arr(a, 1000) + ",7," + obj(a, 2000) + "]," + arr(b, 3000) + "," + obj(b, 4000) + "]",
					"[" + strings.TrimSuffix(arr(a, 1000), "]") + func() string {
						if a > 0 {
							return ","
						}
						return ""
					}() + arr(b, 2000) + "," + arr(b, 3000) + "]]",
				} {
					if w.Stop() {
						return
					}
					w.States++
					w.Transitions++
					c02Check(w, []byte(doc), false)
				}
			}
		},
	})

	addEngine("C03", &Engine{
		Name:   "sizes",
		Rule:   "integer texts growing in one dimension: digits, zeros, white space, a fraction or an exponent far away, for every kind and entry point",
		Bounds: "16 families, sizes to 4097 (thorough 131073)",
		Units:  func(th bool) int { return len(pickSizes(th, 4097, 131073)) },
		Run: func(w *W, unit int) {
			n := pickSizes(w.Thorough, 4097, 131073)[unit]
			z, s := strings.Repeat("0", n), strings.Repeat(" ", n)
			for _, t := range []string{z, "-" + z, "1" + z, "-1" + z, strings.Repeat("9", n), "-" + strings.Repeat("9", n), z + "5", s + "12", s + "-7" + s, "3" + s, s, s + "x", "1." + z, "1e" + z, "18446744073709551615" + s, "9223372036854775807" + s, s + "-9223372036854775808", "2147483647" + z, "255" + s, "4294967295" + z, s + "65535" + s, s + "-" + s + "1"} {
				if w.Stop() {
					return
				}
				w.States++
				w.Transitions++
				lvl := 1
				if n > 600 {
					lvl = 0
				}
				c03Check(w, t, lvl)
			}
		},
	})
	addEngine("C04", &Engine{
		Name:   "sizes",
		Rule:   "number texts growing in one dimension: digits before and after the point, zeros at every place, exponent digits, balancing exponents, white space; every float entry point",
		Bounds: "18 families, sizes to 4097 (thorough 131073)",
		Units:  func(th bool) int { return len(pickSizes(th, 4097, 131073)) },
		Run: func(w *W, unit int) {
			n := pickSizes(w.Thorough, 4097, 131073)[unit]
			z, s, d := strings.Repeat("0", n), strings.Repeat(" ", n), strings.Repeat("1234567890", n/10+1)[:n]
			for _, t := range []string{"1" + z, "-1" + z + ".5", "0." + z + "1", "0." + z, "0." + d + "1", "3" + d + "." + d + "7", "9" + d, "1e" + z + "5", "1e-" + z + "5", "1E+" + z, "1" + z + "e-" + strconv.Itoa(n), "0." + z + "1e" + strconv.Itoa(n+1), "12345" + d + "e-" + strconv.Itoa(n), s + "1.5" + s, z + "1", "-" + z, "1.5e" + d, "1.5e-" + d, "5" + z + "1.", "0.1" + z + "e", "16777217." + z + "1", "9007199254740993." + z + "1", "9007199254740993." + z, "0.0000152587890625" + d} {
				if w.Stop() {
					return
				}
				w.States++
				w.Transitions++
				lvl := 1
				if n > 600 {
					lvl = 0
				}
				c04Check(w, t, lvl)
			}
		},
	})
	c05Sp := []string{`\n`, `\u00e9`, `\ud83d\ude00`, `\ud800`, "é", "\x02", `\q`, `"`, "\x7f", "\xff", "日", `\"`, `\\`, `\u12g4`, ""}
	addEngine("C05", &Engine{
		Name:   "sizes",
		Rule:   "strings of n plain bytes (before, after, around) and one special item, n special items, n of them alternating with plain bytes; whole and through readers of 512 and 4096 bytes",
		Bounds: fmt.Sprintf("%d special items, 5 arrangements, sizes to 16385 (thorough 131073)", len(c05Sp)),
		Units:  func(th bool) int { return len(pickSizes(th, 16385, 131073)) * len(c05Sp) },
		Run: func(w *W, unit int) {
			l := pickSizes(w.Thorough, 16385, 131073)
			n := l[len(l)-1-unit/len(c05Sp)]
			sp := c05Sp[unit%len(c05Sp)]
			p := longStr(n)
			for _, body := range []string{p + sp + `"`, sp + p + `"`, p + sp + p + `"`, strings.Repeat(sp, n) + `"`, strings.Repeat("a"+sp, n) + `"`, p + sp} {
				if w.Stop() {
					return
				}
				w.States++
				w.Transitions++
				lvl := 1
				if n > 2000 {
					lvl = 0
				}
				c05Check(w, body, lvl)
				want, _, ok := refUnescape(body)
				if n < 30 {
					continue
				}
				for _, ch := range []int{512, 4096, 1000} {
					if !w.Begin() {
						continue
					}
					desc := func() string { return fmt.Sprintf("%q size %d chunk %d", clip(body, 500), n, ch) }
					w.Announce(desc)
					it := jzon.NewIterator()
					it.Reset(newChunk([]byte(`"`+body), ch))
					var s string
					var e error
					func() {
						defer catch(&e)
						s, e = it.ReadString()
					}()
					if (e == nil) != ok || ok && s != want {
						w.Fail(desc(), fmt.Errorf("ReadString: %q error %v, want %q accepts=%v", clip(s, 500), e, clip(want, 500), ok))
						return
					}
					it.Release()
				}
			}
		},
	})

	c06Sizes := []int{600, 1023, 1025, 2100, 4095, 4097, 9000, 33000}
	addEngine("C06", &Engine{
		Name:   "sizes",
		Rule:   "every family of growing documents x every iterator operation x large read sizes: same result and same remaining bytes as from one slice",
		Bounds: "8 sizes from 600 to 33000, reads of 511, 512, 513, 1000, 4096, 5000 bytes, half and all but one",
		Units:  func(bool) int { return len(scaleFams) * len(c06Sizes) },
		Run: func(w *W, unit int) {
			fam := scaleFams[unit%len(scaleFams)]
			n := c06Sizes[len(c06Sizes)-1-unit/len(scaleFams)]
			if fam.deep && n > 9000 && !w.Thorough {
				return
			}
			doc := []byte(fam.f(n) + " 7")
			if !w.Thorough && len(doc) > 120000 {
				return
			}
			for _, op := range itOps {
				ref := opOnBytes(op, doc)
				w.States++
				if op.name != "NextValueType" && ref.err != nil && n > 2100 && !w.Thorough {
					continue
				}
				for _, ch := range []int{511, 512, 513, 1000, 4096, 5000, len(doc) / 2, len(doc) - 1} {
					if !c06Run(w, op, ref, doc, []int{ch}, 0, ch%2 == 0) {
						return
					}
				}
			}
		},
	})

	addEngine("C07", &Engine{
		Name:   "sizes",
		Rule:   "streams of n values, and streams of three values the first or second of which is a document of size n (every family), with More, InputOffset and Buffered between; reads of 1 (small), 7, 512 and 4096 bytes and whole",
		Bounds: fmt.Sprintf("n values to 4097, %d families to 4097 (nesting to 4097)", len(scaleFams)),
		Units:  func(bool) int { return len(scaleSizes(4097)) * (1 + len(scaleFams)) },
		Run: func(w *W, unit int) {
			l := scaleSizes(4097)
			n := l[len(l)-1-unit%len(l)]
			var streams []stream
			if f := unit / len(l); f == 0 {
				var parts, seps []string
				for i := 0; i < n; i++ {
					parts = append(parts, []string{strconv.Itoa(i), strItem(i), "[" + numItem(i) + "]", "{" + keyItem(i) + "}", "null"}[i%5])
					seps = append(seps, []string{" ", "\n", "  "}[i%3])
				}
				seps = append(seps, "\n")
				streams = append(streams, mkStream(parts, seps, ""), mkStream(parts, seps, "x"))
			} else {
				doc := strings.Trim(scaleFams[f-1].f(n), " \n")
				streams = append(streams, mkStream([]string{doc, `"q"`, "5"}, []string{"", " ", " ", ""}, ""), mkStream([]string{"5", doc, "[]"}, []string{" ", "\t", " ", " "}, ""),
					mkStream([]string{"5", "6"}, []string{strings.Repeat(" ", n), strings.Repeat("\n", n+1), strings.Repeat("\t", n)}, ""))
			}
			for si := range streams {
				s := &streams[si]
				w.States++
				for gi, g := range [][]int{{}, {opMore, opOffset}, {opOffset, opMore, opBuffered}, {opBuffered, opMore}} {
					if gi >= 2 && len(s.vals) > 100 {
						continue
					}
					var seq []int
					for k := 0; k <= len(s.vals); k++ {
						seq = append(seq, g...)
						seq = append(seq, []int{opDecAny, opDecRaw}[(k+gi+si)%2])
					}
					seq = append(seq, g...)
					for _, c := range []int{1, 7, 512, 4096, len(s.text) + 1} {
						if c < 7 && len(s.text) > 3000 {
							continue
						}
						if !c07One(w, s, []int{c}, 0, c == 4096, seq) {
							return
						}
					}
				}
			}
		},
	})
	addEngine("C07", &Engine{
		Name:   "next byte",
		Rule:   "after zero, one and two values every byte that is not white space and does not start a value, alone and followed by more: More, the failing Decode, and More again",
		Bounds: "all 256 bytes, 4 separators, 4 tails, reads of 1 byte and whole",
		Units:  func(bool) int { return 256 },
		Run: func(w *W, unit int) {
			c := byte(unit)
			if isWS(c) || isDigit(c) {
				return
			}
			for _, tail := range []string{"", " ", "\x00", "x]"} {
				bad := string([]byte{c}) + tail
				for nv := 0; nv <= 2; nv++ {
					for _, sep := range []string{" ", "", "\n", " \t\r\n "} {
						parts := []string{`"v"`, "[1]"}[:nv]
						s := mkStream(parts, []string{sep, sep, sep}[:nv+1], bad)
						for _, seq := range [][]int{{opMore}, {opDecAny}, {opMore, opOffset, opBuffered, opDecRaw}} {
							var full []int
							for k := 0; k <= nv; k++ {
								full = append(full, seq...)
							}
							full = append(full, opDecAny, opMore)
							if len(seq) == 1 && seq[0] == opMore {
								// only asking, never decoding the garbage
								full = nil
								for k := 0; k < nv; k++ {
									full = append(full, opMore, opDecAny)
								}
								full = append(full, opMore, opMore, opOffset)
							}
							w.States++
							if !c07One(w, &s, []int{1}, 0, false, full) || !c07One(w, &s, []int{4096}, 0, unit%2 == 0, full) {
								return
							}
						}
					}
				}
			}
		},
	})

	addEngine("C08", &Engine{
		Name:   "sizes",
		Rule:   "every family of growing documents x the operations that accept it x faults at the ends, the middle and the buffer boundaries x {after, with data} x {for ever, once}",
		Bounds: "sizes 600, 5000 and 33000, reads of 512 and 4096",
		Units:  func(bool) int { return len(scaleFams) * 3 },
		Run: func(w *W, unit int) {
			fam := scaleFams[unit%len(scaleFams)]
			n := []int{33000, 5000, 600}[unit/len(scaleFams)]
			if fam.deep && n > 9000 && !w.Thorough {
				return
			}
			doc := []byte(fam.f(n))
			if !w.Thorough && len(doc) > 120000 {
				return
			}
			for _, op := range itOps {
				ref := c08Ref{full: opOnBytes(op, doc)}
				ref.end = len(doc) - len(ref.full.rest)
				if ref.full.err != nil {
					continue
				}
				w.States++
				for _, k := range []int{0, 1, len(doc) / 3, len(doc) / 2, 511, 512, 513, 1024, 4095, 4096, 4097, len(doc) - 2, len(doc) - 1, len(doc)} {
					if k < 0 || k > len(doc) {
						continue
					}
					for m := 0; m < 4; m++ {
						if !c08Fault(w, op, ref, doc, k, []int{512, 4096}[(k+m)%2], 0, m%2 == 1, m >= 2) {
							return
						}
					}
				}
			}
		},
	})

	addEngine("C09", &Engine{
		Name:   "value sizes",
		Rule:   "an encoder writing values of size n (string, many elements, hook output, text that html escaping lengthens) among small ones; the writer accepts everything, or fails after every interesting number of bytes, in all modes, once and for ever",
		Bounds: "sizes to 16385 (thorough 131073), 3 histories, faults at 0, 1, the ends of every value and their neighbours, half",
		Units:  func(th bool) int { return len(pickSizes(th, 16385, 131073)) },
		Run: func(w *W, unit int) {
			l := pickSizes(w.Thorough, 16385, 131073)
			n := l[len(l)-1-unit]
			str := longStr(n)
			arr := make([]int, n)
			good := func(name string, v interface{}, html, raw string) c09Val {
				return c09Val{name, func() interface{} { return v }, false, html, raw}
			}
			lt := strings.Repeat("<", n)
			vals := []c09Val{
				good("1", 1, "1", "1"),
				good("string", str, `"`+str+`"`, `"`+str+`"`),
				good("array", arr, "["+joinN(n, func(int) string { return "0" })+"]", "["+joinN(n, func(int) string { return "0" })+"]"),
				good("marshaler", marshalN{`"` + str + `"`}, `"`+str+`"`, `"`+str+`"`),
				good("html", lt, `"`+strings.Repeat(`\u003c`, n)+`"`, `"`+lt+`"`),
				{"late hook", func() interface{} { return []interface{}{str, FailJSON{}} }, true, "", ""},
			}
			for _, seq := range [][]int{{0, 1, 0, 2, 0}, {3, 5, 1, 4, 0}, {encHTMLOff, 4, 1, encHTMLOn, 4, 3}} {
				limits := []int{-1, 0, 1}
				tot := 0
				html := true
				for _, o := range seq {
					if o < 0 {
						html = o == encHTMLOn
						continue
					}
					if html {
						tot += len(vals[o].html)
					} else {
						tot += len(vals[o].raw)
					}
					limits = append(limits, tot-1, tot, tot+1, tot+2, tot-len(vals[o].html)/2)
					tot++
				}
				for _, lim := range limits {
					for mode := 0; mode < 4; mode++ {
						for _, once := range []bool{false, true} {
							if w.Stop() {
								return
							}
							if lim < 0 && (mode > 0 || once) || !w.Begin() {
								continue
							}
							desc := func() string {
								return fmt.Sprintf("size %d history %v, fault after %d bytes, mode %d, once %v", n, seq, lim, mode, once)
							}
							w.Announce(desc)
							w.States++
							w.Transitions += int64(len(seq))
							w.Nontrivial++
							if _, err := runEncoder(vals, seq, &faultWriter{limit: lim, mode: mode, once: once}); err != nil {
								w.Fail(desc(), err)
								return
							}
						}
					}
				}
			}
		},
	})

	addEngine("C10", &Engine{
		Name:   "sizes",
		Rule:   "strings of n plain bytes before, after and around every interesting item, n of them, and n alternating with plain bytes, both html modes, every position",
		Bounds: fmt.Sprintf("%d items, sizes to 8193 (thorough 131073); all positions to 520", len(strItems)),
		Units:  func(th bool) int { return len(pickSizes(th, 8193, 131073)) * len(strItems) },
		Run: func(w *W, unit int) {
			l := pickSizes(w.Thorough, 8193, 131073)
			n := l[len(l)-1-unit/len(strItems)]
			it := strItems[unit%len(strItems)]
			ls := [2]*lightStreamer{newLight(), newLight()}
			p := longStr(n)
			for _, v := range []string{p + it, it + p, p + it + p, strings.Repeat(it, n), strings.Repeat("a"+it, n)} {
				if !strCase(w, ls, v, n <= 520) {
					return
				}
			}
		},
	})

	addEngine("C11", &Engine{
		Name:   "sizes",
		Rule:   "Go values growing in one dimension (slices, arrays, maps, bytes, strings, structs with n fields, n omitted fields, nested pointers, lists, hooks): the standard encoder's text, every entry point, both html modes",
		Bounds: "sizes to 4097 (thorough 65537), struct fields to 513",
		Units:  func(th bool) int { return len(pickSizes(th, 4097, 65537)) },
		Run: func(w *W, unit int) {
			l := pickSizes(w.Thorough, 4097, 65537)
			n := l[len(l)-1-unit]
			for i, v := range scaleValues(n) {
				if !c11Case(w, jzon.DefaultEncoderConfig, true, reflect.ValueOf(v), func() string { return fmt.Sprintf("size %d value %d", n, i) }) {
					return
				}
				if n < 1000 && !c11Case(w, noHTMLCfg, false, reflect.ValueOf(v), func() string { return fmt.Sprintf("size %d value %d", n, i) }) {
					return
				}
			}
		},
	})
	addEngine("C11", &Engine{
		Name:   "omitempty",
		Rule:   "omitempty and quoted omitempty fields of every scalar kind (and pointers, named types, one-element arrays) holding zero, every single bit, every single byte, all ones, and negative zero; alone, between other fields, and embedded",
		Bounds: "16 kinds, all single-bit and single-byte patterns, 6 struct layouts",
		Units:  func(bool) int { return len(omitKinds) },
		Run: func(w *W, unit int) {
			t := omitKinds[unit]
			var vals []reflect.Value
			add := func(bits uint64) {
				v := reflect.New(t).Elem()
				switch t.Kind() {
				case reflect.Bool:
					v.SetBool(bits&1 == 1)
				case reflect.Float32, reflect.Float64:
					if t.Kind() == reflect.Float32 {
						v.SetFloat(float64(f32bits(uint32(bits))))
					} else {
						v.SetFloat(f64bits(bits))
					}
					if f := v.Float(); f != f || f-f != 0 {
						return
					}
				case reflect.String:
					if bits == 0 {
						break
					}
					c, d := byte(bits), byte(bits>>8)
					if c == 8 || c == 12 || d == 8 || d == 12 {
						return // written as \b or \u0008: C10's subject
					}
					v.SetString(string([]byte{c, d}))
				case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
					v.SetInt(int64(bits))
				default:
					v.SetUint(bits)
				}
				vals = append(vals, v)
			}
			add(0)
			add(^uint64(0))
			for b := 0; b < 64; b++ {
				add(1 << b)
			}
			for by := 0; by < 8; by++ {
				for x := uint64(1); x < 256; x++ {
					add(x << (8 * by))
				}
			}
			mk := func(fs ...reflect.StructField) reflect.Type { return reflect.StructOf(fs) }
			lays := []reflect.Type{
				mk(sf("X", t, `json:"x,omitempty"`)),
				mk(sf("A", rt[int8](), ""), sf("X", t, `json:"x,omitempty"`), sf("B", rt[int8](), "")),
				mk(sf("X", t, `json:",string,omitempty"`), sf("B", rt[string](), "")),
				mk(sf("B", rt[string](), ""), sf("X", reflect.ArrayOf(1, t), `json:"x,omitempty"`)),
				mk(sf("X", reflect.PtrTo(t), `json:"x,omitempty"`), sf("Y", t, `json:"y,omitempty"`)),
				mk(sf("X", rt[interface{}](), `json:"x,omitempty"`), sf("Y", reflect.SliceOf(t), `json:"y,omitempty"`), sf("Z", reflect.MapOf(rt[string](), t), `json:",omitempty"`)),
			}
			for li, lt := range lays {
				for _, v := range vals {
					s := reflect.New(lt).Elem()
					for i := 0; i < s.NumField(); i++ {
						f := s.Field(i)
						switch {
						case f.Type() == t && lt.Field(i).Name != "B" && lt.Field(i).Name != "A":
							f.Set(v)
						case f.Kind() == reflect.Array:
							f.Index(0).Set(v)
						case f.Kind() == reflect.Ptr:
							f.Set(reflect.New(t))
							f.Elem().Set(v)
						case f.Kind() == reflect.Interface:
							f.Set(v)
						case f.Kind() == reflect.Slice:
							f.Set(reflect.Append(reflect.Zero(f.Type()), v))
						case f.Kind() == reflect.Map:
							f.Set(reflect.MakeMap(f.Type()))
							f.SetMapIndex(reflect.ValueOf("k"), v)
						}
					}
					if !c11Case(w, jzon.DefaultEncoderConfig, true, s, func() string { return fmt.Sprintf("layout %d", li) }) {
						return
					}
				}
			}
		},
	})

	addEngine("C12", &Engine{
		Name:   "sizes",
		Rule:   "structs of n fields (three naming schemes, one with case collisions): every single member, all members in both orders, with unknown members between, repeated; long keys and objects of many unknown members into small and large structs; unknown members skipped and rejected",
		Bounds: "fields 1..40 and around powers of two to 257 (thorough 1025), keys and members to 4097",
		Units:  func(th bool) int { return 3 * len(c12Sizes(th)) },
		Run: func(w *W, unit int) {
			n := c12Sizes(w.Thorough)[unit/3]
			scheme := unit % 3
			name := func(i int) string {
				switch scheme {
				case 0:
					return "f" + strconv.Itoa(i)
				case 1:
					return fmt.Sprintf("n%05d", i*37)
				}
				s := fmt.Sprintf("ab%d", i/2)
				if i%2 == 1 {
					s = strings.ToUpper(s)
				}
				return s
			}
			var fs []reflect.StructField
			for i := 0; i < n; i++ {
				ft := []reflect.Type{rt[int](), rt[string](), rt[*int](), rt[[]int]()}[i%4]
				fs = append(fs, sf(fmt.Sprintf("F%d", i), ft, fmt.Sprintf(`json:%q`, name(i))))
			}
			t := reflect.StructOf(fs)
			val := func(i int) string {
				return []string{strconv.Itoa(i + 1), `"v` + strconv.Itoa(i) + `"`, strconv.Itoa(-i - 1), "[" + strconv.Itoa(i) + "]"}[i%4]
			}
			fresh := func() reflect.Value { return reflect.New(t) }
			if n <= 64 {
				fresh = func() reflect.Value { return guarded(t) }
			}
			plain, dis := newDecCfgs()
			run := func(text string) bool {
				return c12Case(w, plain, t, text, false, fresh) && c12Case(w, dis, t, text, true, fresh)
			}
			for i := 0; i < n; i++ {
				if n > 100 && i > 20 && i < n-20 && i%16 > 1 && i%16 < 15 {
					continue
				}
				for _, k := range []string{name(i), strings.ToUpper(name(i)), strings.ToLower(name(i)), `\u00` + fmt.Sprintf("%02x", name(i)[0]) + name(i)[1:], name(i) + "0", name(i)[:len(name(i))-1]} {
					if !run(`{"` + k + `":` + val(i) + `}`) {
						return
					}
				}
				if !run(`{"zz":[{"f1":2}],"` + name(i) + `":` + val(i) + `,"q":{}}`) {
					return
				}
			}
			mem := func(i int) string { return `"` + name(i) + `":` + val(i) }
			for _, text := range []string{
				"{" + joinN(n, mem) + "}",
				"{" + joinN(n, func(i int) string { return mem(n - 1 - i) }) + "}",
				"{" + joinN(n, func(i int) string { return mem(i) + `,"u` + strconv.Itoa(i) + `":{"x":[1]}` }) + "}",
				"{" + joinN(2*n, func(i int) string { return mem(i % n) }) + "}",
				"{" + joinN(n, func(i int) string { return `"` + strings.ToUpper(name(i)) + `":` + val(i) }) + "}",
			} {
				if !run(text) {
					return
				}
			}
		},
	})
	addEngine("C12", &Engine{
		Name:   "long members",
		Rule:   "objects of n unknown members, and unknown and known keys of length n (plain, escaped, the wrong case), into structs of 1, 2, 11 and 20 fields",
		Bounds: "n to 8193 (thorough 131073)",
		Units:  func(th bool) int { return len(pickSizes(th, 8193, 131073)) },
		Run: func(w *W, unit int) {
			l := pickSizes(w.Thorough, 8193, 131073)
			n := l[len(l)-1-unit]
			plain, dis := newDecCfgs()
			k := strings.Repeat("k", n)
			for _, t := range []reflect.Type{rt[S1](), rt[S2](), rt[S11](), rt[S20](), rt[S0]()} {
				fresh := func() reflect.Value { return guarded(t) }
				for _, text := range []string{
					"{" + joinN(n, func(i int) string { return keyItem(i) }) + "}",
					"{" + joinN(n, func(i int) string { return keyItem(i) }) + `}` + " ",
					`{"` + k + `":1,"A":5,"F0":6}`, `{"A":5,"` + k + `":{"A":7}}`, `{"` + strings.Repeat(`\u0041`, n) + `":3}`, `{"A` + k + `":3,"a":4}`,
					`{"` + strings.Repeat(" ", n) + `A":3}`, `{` + strings.Repeat(" ", n) + `"A":3,"F1":4}`, `{"A":[` + joinN(n, numItem) + `]}`,
				} {
					if !c12Case(w, plain, t, text, false, fresh) || !c12Case(w, dis, t, text, true, fresh) {
						return
					}
				}
			}
			if n > 0 {
				for _, name := range []string{k, strings.Repeat("kS", n), k + "é"} {
					for _, cnt := range []int{1, 2, 12} {
						fs := []reflect.StructField{sf("F0", rt[int](), fmt.Sprintf(`json:%q`, name))}
						for i := 1; i < cnt; i++ {
							fs = append(fs, sf(fmt.Sprintf("F%d", i), rt[int](), fmt.Sprintf(`json:%q`, name+strconv.Itoa(i))))
						}
						t := reflect.StructOf(fs)
						fresh := func() reflect.Value { return guarded(t) }
						for _, key := range []string{name, strings.ToUpper(name), name + "1", name[1:], name + "x", strings.Repeat("x", len(name)), `\u004b` + name[1:], name[:len(name)-1] + "\u212a"} {
							if !c12Case(w, plain, t, `{"`+key+`":3}`, false, fresh) || !c12Case(w, dis, t, `{"`+key+`":3}`, true, fresh) {
								return
							}
						}
					}
				}
			}
		},
	})

	addEngine("C13", &Engine{
		Name:   "sizes",
		Rule:   "Go values growing in one dimension survive encoding and decoding through every pair of entry points",
		Bounds: "sizes to 4097 (thorough 65537)",
		Units:  func(th bool) int { return len(pickSizes(th, 4097, 65537)) },
		Run: func(w *W, unit int) {
			l := pickSizes(w.Thorough, 4097, 65537)
			n := l[len(l)-1-unit]
			np := 5
			if n > 4096 {
				np = 3
			}
			for i, v := range scaleValues(n) {
				if !rtValue(w, v, fmt.Sprintf("size %d value %d", n, i), np) {
					return
				}
			}
		},
	})

	addEngine("C14", &Engine{
		Name:   "sizes",
		Rule:   "streamer output with tokens of size n (strings, raw values, fields, values) in nested containers, flushed at every subset of the calls; many elements flushed every k calls; nesting to depth n flushed at every level",
		Bounds: "sizes to 16385 (thorough 131073), 9 calls and all 2^9 flush subsets to size 34, otherwise single flushes and all; depth to 4097",
		Units:  func(th bool) int { return len(pickSizes(th, 16385, 131073)) },
		Run: func(w *W, unit int) {
			l := pickSizes(w.Thorough, 16385, 131073)
			n := l[len(l)-1-unit]
			c14Sizes(w, n)
		},
	})

	famEngine("C17", "a document of every family and size followed by a sentinel: an operation that succeeds stops exactly behind the value, from a slice and from readers of 512 and 4096 bytes; generic operations succeed", 4097, 131073, 20001, 131073,
		func(w *W, fam scaleFam, n int) bool {
			doc := strings.TrimRight(fam.f(n), "\n")
			for _, tail := range []string{`,"s"]`, "}x"} {
				full := []byte(doc + tail)
				for _, op := range itOps {
					generic := op.name == "Skip" || op.name == "Read" || op.name == "SkipRaw" || op.name == "ReadRaw" || op.name == "AppendRaw" || op.name == "walk" || op.name == "ReadVal(interface {})" || op.name == "ReadVal(json.RawMessage)"
					if op.name == "NextValueType" || !generic && n > 1025 && !w.Thorough {
						continue
					}
					for _, ch := range []int{0, 512, 4096} {
						if w.Stop() {
							return false
						}
						if !w.Begin() {
							continue
						}
						desc := func() string {
							return fmt.Sprintf("%s of %s %d followed by %q, reads of %d", op.name, fam.name, n, tail, ch)
						}
						w.Announce(desc)
						w.Transitions++
						var r opResult
						if ch == 0 {
							r = opOnBytes(op, full)
						} else {
							r = opOnReader(op, newChunk(full, ch))
						}
						if r.err == nil {
							w.Nontrivial++
						}
						switch {
						case r.err == nil && r.rest != tail:
							w.Fail(desc(), fmt.Errorf("%q remains", clip(r.rest, 200)))
						case r.err != nil && generic:
							w.Fail(desc(), r.err)
						case r.err != nil:
							if _, ok := r.err.(panicErr); ok {
								w.Fail(desc(), r.err)
							}
						}
						if ch == 0 && r.err != nil {
							break
						}
					}
				}
			}
			return true
		})

	addEngine("C18", &Engine{
		Name:   "sizes",
		Rule:   "arrays of length n and slices holding n elements (and spare capacity) of every element type decoded from documents of 0, 1, n-1, n, n+1 and 2n elements, null and nested in structs: elements, zeroing of the rest, length, usable capacity and the memory around the destination",
		Bounds: "n to 1025 (thorough 4097), 9 element types",
		Units:  func(th bool) int { return len(pickSizes(th, 1025, 4097)) * len(elems18) },
		Run: func(w *W, unit int) {
			l := pickSizes(w.Thorough, 1025, 4097)
			n := l[len(l)-1-unit/len(elems18)]
			e := elems18[unit%len(elems18)]
			for _, arr := range []bool{true, false} {
				t := reflect.SliceOf(e.t)
				if arr {
					t = reflect.ArrayOf(n, e.t)
				}
				for _, k := range []int{-1, 0, 1, n - 1, n, n + 1, 2 * n} {
					if k < -1 {
						continue
					}
					text := "null"
					if k >= 0 {
						text = "[" + joinN(k, e.text) + "]"
					}
					for _, nest := range []int{0, 1, 2} {
						if w.Stop() {
							return
						}
						if !w.Begin() {
							continue
						}
						doc, dt := text, t
						switch nest {
						case 1:
							dt = reflect.StructOf([]reflect.StructField{sf("A", rt[int8](), ""), sf("V", t, ""), sf("B", rt[int8](), "")})
							doc = `{"V":` + text + `,"B":3}`
						case 2:
							dt = reflect.MapOf(rt[string](), t)
							doc = `{"m":` + text + `,"o":` + text + `}`
						}
						desc := func() string {
							return fmt.Sprintf("%s (size %d, nested %d) <- %d elements of %s", dt, n, nest, k, e.text(0))
						}
						w.Announce(desc)
						w.States++
						w.Transitions++
						w.Nontrivial++
						if err := size18(dt, nest, n, arr, e, []byte(doc)); err != nil {
							w.Fail(desc(), err)
							return
						}
					}
				}
			}
		},
	})

	addEngine("C19", &Engine{
		Name:   "growing",
		Rule:   "destinations whose memory grows while they are filled (slices, maps, lists, raw values, untyped trees, strings) read in blocks of 64, 512 and 4096 bytes: no collection, one at every read, one at each single read; unchanged afterwards",
		Bounds: "n = 40, 300 (thorough also 3000)", Workers: 1,
		Units: func(bool) int { return len(growTypes) },
		Run: func(w *W, unit int) {
			g := growTypes[unit]
			ns := []int{40, 300}
			if w.Thorough {
				ns = append(ns, 3000)
			}
			for _, n := range ns {
				text := g.text(n)
				for _, ch := range []int{64, 512, 4096} {
					if len(text)/ch > 60 && !w.Thorough {
						continue
					}
					if !gcCase(w, func() string { return fmt.Sprintf("%s of %d by %d", g.t, n, ch) }, func() (string, func() string) {
						p := reflect.New(g.t)
						err := jzon.UnmarshalFromReader(gcReader(text, ch), p.Interface())
						return outErr(err), func() string { return deepv(p.Elem(), 0) }
					}) {
						return
					}
				}
			}
		},
	})

	addEngine("C20", &Engine{
		Name:   "sizes",
		Rule:   "hooks whose output or input has size n: the decoding hook gets exactly the bytes of its value (every family, surrounded by other members), the text hooks exactly the text, the encoding hook's output arrives complete; through slices and readers",
		Bounds: fmt.Sprintf("%d families, sizes to 4097 (thorough 65537)", len(scaleFams)),
		Units:  func(th bool) int { return len(pickSizes(th, 4097, 65537)) * len(scaleFams) },
		Run: func(w *W, unit int) {
			l := pickSizes(w.Thorough, 4097, 65537)
			n := l[len(l)-1-unit/len(scaleFams)]
			fam := scaleFams[unit%len(scaleFams)]
			doc := strings.Trim(fam.f(n), " \n")
			if fam.deep && n > 9000 || doc == "null" {
				return
			}
			if w.Stop() || !w.Begin() {
				return
			}
			desc := func() string { return fmt.Sprintf("%s %d", fam.name, n) }
			w.Announce(desc)
			w.States++
			w.Transitions += 12
			w.Nontrivial++
			if err := size20(doc); err != nil {
				w.Fail(desc(), err)
			}
		},
	})

	addEngine("C21", &Engine{
		Name:   "sizes",
		Rule:   "every destination type x every family of growing documents, bare, as an array element and as a member A: same verdict and value as the standard library",
		Bounds: "sizes 12, 40, 600, 2100 (nesting 12, 40, 600)",
		Units:  func(bool) int { return len(c21Types()) },
		Run: func(w *W, unit int) {
			c := &c21Types()[unit]
			for _, fam := range scaleFams {
				for _, n := range []int{12, 40, 600, 2100} {
					if n > 600 && (fam.deep || !w.Thorough) {
						continue
					}
					doc := fam.f(n)
					for _, text := range []string{doc, "[" + doc + "]", `{"A":` + doc + `}`} {
						if !c21Case(w, c, []byte(text), n%2) {
							return
						}
					}
				}
			}
		},
	})
}

func c12Sizes(th bool) []int {
	var out []int
	for i := 1; i <= 40; i++ {
		out = append(out, i)
	}
	out = append(out, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257)
	if th {
		out = append(out, 511, 512, 513, 1023, 1024, 1025)
	}
	return out
}
