package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/zerosnake0/jzon"
)

// The "dialects" engines: what relatives and extensions of JSON allow (JSON5,
// JavaScript, YAML, HJSON, other languages' literals, encodings), at every
// place of a text.  JSON allows none of it.

// values of relatives of JSON
var dialectValues = []string{
	"NaN", "-NaN", "nan", "NAN", "Infinity", "-Infinity", "+Infinity", "infinity", "Inf", "-Inf", "inf", "-inf", "+Inf", "1.#INF", "1.#QNAN",
	"undefined", "None", "nil", "NULL", "Null", "nul", "nulL", "nullx", "null0", "nulll", "n", "~", "\\N",
	"True", "TRUE", "tRue", "tru", "truE", "truee", "true1", "t", "yes", "on", "False", "FALSE", "fals", "falsE", "falsee", "false0", "f", "no", "off",
	"0x10", "0X1f", "-0x1", "0b1", "0o7", "0O17", "017", "00", "-00", "-01", "08", "1_000", "1,000", "1'000", "1 000", ".5", "-.5", "5.", "-5.", "5.e1", "1.e", "1e", "1e+", "1E-", "+1", "+0.5", "++1", "--1", "-+1", "- 1", "-", "+", ".", "e1", "E", "1e1.5", "1e1e1", "1.5.2", "1..5", "1f", "1.0f", "1d", "1L", "10n", "1u", "1i", "0i", "0x1p-2", "1p4", "0x", "1%", "$1", "１", "٣", "½", "−1", "1e５",
	"'a'", "'a", "`a`", "a", "a b", "“a”", "«a»", "\"a'", "'a\"", "/a/", "@\"a\"", "r\"a\"", "b\"a\"", "u\"a\"", "\"a\" \"b\"", "\"a\"+\"b\"", "\"\"\"a\"\"\"", "\"a\"\"", "\"", "\\\"a\\\"", "&quot;a&quot;",
	"\"\\x41\"", "\"\\'\"", "\"\\v\"", "\"\\0\"", "\"\\a\"", "\"\\e\"", "\"\\u{41}\"", "\"\\U00000041\"", "\"\\u+041\"", "\"\\u 041\"", "\"\\u004\"", "\"\\u00-1\"", "\"\\u0x41\"", "\"\\u00g0\"", "\"\\N\"", "\"\\B\"", "\"\\T\"", "\"\\\n\"", "\"\\\r\n\"", "\"a\nb\"", "\"a\tb\"", "\"a\x00b\"", "\"a\x1fb\"", "\"\\ \"", "\"\\101\"", "\"\\&\"", "\"\\`\"",
	"(1)", "<1>", "<a/>", "[1", "1]", "{1}", "{1,2}", "{\"a\"}", "{\"a\",1}", "{\"a\":}", "{:1}", "{a:1}", "{'a':1}", "{1:2}", "{null:1}", "{true:1}", "{[1]:2}", "{{}:1}", "{\"a\"=1}", "{\"a\"=>1}", "{\"a\":=1}", "{\"a\"::1}", "{\"a\":1;}", "{\"a\":1;\"b\":2}", "{\"a\":1 \"b\":2}", "{\"a\":1,}", "{,\"a\":1}", "{,}", "{\"a\":1,,\"b\":2}", "{\"a\":1]", "{...}", "{\"a\":1,...}", "{a}", "{$a:1}", "{_a:1}", "{ä:1}", "{\\u0061:1}", "{`a`:1}", "{\"a\" 1}", "{\"a\":1:2}", "{\"a\":\"b\":\"c\"}", "{\"a\":(1)}", "{\"a\":,}", "{\"a\":1}}", "{\"a\"\"b\":1}", "{+\"a\":1}",
	"[1,]", "[,1]", "[,]", "[1,,2]", "[1 2]", "[1;2]", "[1:2]", "[1}", "[...]", "[1...]", "[1..2]", "[1,2,]", "[[1],]", "[[]", "[]]", "[)", "[null,]", "[,null]", "[\"a\",]", "[{},]", "[/]", "[\\]", "[=]", "[*]", "[:]", "[;]", "[1|2]", "[ , ]", "[ ,]", "[1 ,]", "[1, ]", "[\n1\n,\n]", "(1,2)", "#[1]", "@[1]", "@{}", "#{}", "%[]",
	"new Date(1)", "Date(1)", "ISODate(\"a\")", "ObjectId(\"a\")", "function(){}", "1;", "1,", "1,2", "var a=1", "a=1", "a:1", "- 1\n- 2", "---\n1", "%YAML 1.2", "! 1", "!!str a", "&a 1", "*a", ">\n a", "|\n a", "<<", "=1", "= 1",
	"/**/1", "1/**/", "//\n1", "1//", "1 // a", "/* */", "//", "#\n1", "1#", "1 #a", "--\n1", "1 --a", ";1", "<!--1-->1", "1<!--", "REM\n1", "%1", "/*1", "/*/1", "[/**/1]", "[1/**/]", "[1/**/,2]", "[1,//\n2]", "[1,#\n2]", "{/**/\"a\":1}", "{\"a\"/**/:1}", "{\"a\":/**/1}", "{\"a\":1/**/}", "{\"a\":1//\n}", "{#\n\"a\":1}", "{\"a\":1;}",
	")]}',\n1", "for(;;);1", "while(1);1", "&&&START&&&1", "//)]}\n1", "callback(1)", "callback([1]);", "\x1e1", "1\x1e", "data: 1", "HTTP/1.1 200\r\n\r\n1", "4\r\ntrue\r\n", "1\x00", "\x001", "1\x1a", "1\x04", "\x04", "1\xff", "\xff1", "\xfe\xff\x001", "\xff\xfe1\x00", "\x00\x00\x001", "1\x00\x00\x00", "+AEE-", "1\u00a0", "\u00a01", "\u2028\u2028", "\\", "\\n1", "\\t1", "\\u0020", "%20", "&nbsp;", "\\\n1", "'", "`", "^", "&", "|", "?", "!", "@", "#", "$", "%", "*", "=", ",", ":", ";", "}", "]", ")", "(", "<", ">", "_", "/",
}

// blanks which are none in JSON
var dialectBlanks = []string{
	"\v", "\f", "\x00", "\b", "\a", "\x1b", "\x1a", "\x1c", "\x1d", "\x1e", "\x1f", "\x7f", "\xa0", "\x85", "\u00a0", "\u0085", "\u1680", "\u2000", "\u2003", "\u2009", "\u200b", "\u200c", "\u200d", "\u2028", "\u2029", "\u202f", "\u205f", "\u2060", "\u3000", "\ufeff", "\xef\xbb\xbf", "\xef\xbb", "\xef", "\xfe\xff", "\xff\xfe", "\xff", "\xc2", "\xe2\x80", "\u00ad", "\u180e", "\\n", "\\t", "\\ ", "\\\n", "/**/", "/* a */", "//\n", "// a\n", "//", "/*", "*/", "/", "#\n", "# a\n", "#", ";", "--\n", "<!---->", ",", ",,", ":", "+", "-", "(", ")", "'", "_", "&nbsp;", "%20", "...", "\\", "=", "!",
}

// the templates the pieces go into: @ is the piece
var dialectTemplates = []string{
	"@", "@ ", " @", "\n@\n", "[@]", "[1,@]", "[@,1]", "[ @ ]", "[[@]]", `{"a":@}`, `{"a":1,"b":@}`, `{"b":@,"a":1}`, `{"a":[@]}`, `{"a":{"b":@}}`, `[{"a":@}]`, `{"x":@}`, `{"x":@,"a":1}`, `{"x":[1,@],"a":2}`, `{"x":{"y":@},"a":2}`,
}

// the texts whose gaps get the blanks
var dialectTexts = []string{
	"1", "-2.5e1", "true", "false", "null", `"a"`, "[]", "{}", "[1]", "[1,2]", `["a","b"]`, "[true,null]", "[[1],[2]]", `{"a":1}`, `{"a":"b","b":"c"}`, `{"a":1,"b":2}`, `{"x":1,"a":2}`, `{"a":[1,{"b":2}]}`, `[{"a":1},{"b":2}]`, `{"x":{"y":[1,"z",null]},"a":2}`,
}

// dialectDocs: every document, once
var dialectDocs = func() (out []string) {
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	for _, v := range dialectValues {
		for _, t := range dialectTemplates {
			add(strings.Replace(t, "@", v, 1))
		}
	}
	for _, t := range dialectTexts {
		for _, b := range dialectBlanks {
			// before, behind and inside of every token
			for i := 0; i <= len(t); i++ {
				add(t[:i] + b + t[i:])
				if i < len(t) && i > 0 {
					add(t[:i] + " " + b + t[i:])
					add(t[:i] + b + " " + t[i:])
				}
			}
			add(b + t + b)
			add(b + b + t)
			add(" " + b + t)
			add(b + " " + t)
			add(t + " " + b)
		}
	}
	return
}()

// base64 texts of other alphabets and layouts
var dialectBase64 = []string{
	"", "YQ==", "YWI=", "YWJj", "YQ", "YWI", "YQ=", "YWI==", "Y", "YQ===", "=", "==", "====", "YQ==YQ==", "YQ==YQ", "Y=Q=", "=YQ=", "YQ= =", "YQ==\\n", "\\nYQ==", "YQ\\r\\n==", "YW\\nJj", "YWJj\\r", "Y W J j", " YWJj", "YWJj ", "YWJj\\t", "YW\\tJj", "-_-_", "+/+/", "-/+_", "\\u0059WJj", "YWJ\\/", "YW\\u000aJj", "é===", "YWJj\\u0000", "YWJj,YWJj", "data:;base64,YWJj", "YQ*=", "YR==", "YWJ=", "%3D", "YQ%3D%3D", "YWJjZGVmZ2hpamtsbW5vcA==", "YWJjZGVmZ2hpamtsbW5vcA", "616263", "abc", "...", ".", "YQ..",
}

const dialectChunk = 97

func dialectUnits(bool) int { return (len(dialectDocs) + dialectChunk - 1) / dialectChunk }

func dialectUnit(unit int) []string {
	hi := (unit + 1) * dialectChunk
	if hi > len(dialectDocs) {
		hi = len(dialectDocs)
	}
	return dialectDocs[unit*dialectChunk : hi]
}

func init() {
	what := "every literal, number, string, container, comment and blank of relatives of JSON (JSON5, JavaScript, YAML, other languages, other encodings) at every place of a text"
	bounds := fmt.Sprintf("%d texts: %d values x %d places, %d blanks x every gap of %d texts", len(dialectDocs), len(dialectValues), len(dialectTemplates), len(dialectBlanks), len(dialectTexts))

	addEngine("C01", &Engine{
		Name: "dialects", Rule: what + ": every accepting entry point agrees with the grammar", Bounds: bounds, Units: dialectUnits,
		Run: func(w *W, unit int) {
			for _, d := range dialectUnit(unit) {
				if w.Stop() {
					return
				}
				b := []byte(d)
				if len(d) < 40 {
					c01Wrapped(w, b)
				}
				c01Check(w, b, 1)
			}
		},
	})
	pieces := append(append([]string{}, dialectValues...), func() (l []string) {
		for _, b := range dialectBlanks {
			for _, v := range []string{"1", "-2.5", "12", `"a"`, "true", "null"} {
				l = append(l, b+v, v+b, v[:1]+b+v[1:], " "+b+v, v+" "+b)
			}
		}
		return
	}()...)
	// (the checks of numbers put the text between commas)
	k := 0
	for _, p := range pieces {
		if !strings.Contains(p, ",") {
			pieces[k] = p
			k++
		}
	}
	pieces = pieces[:k]
	addEngine("C03", &Engine{
		Name: "dialects", Rule: "every literal, number and blank of relatives of JSON as an integer of every size, on every reading path", Bounds: fmt.Sprintf("%d texts", len(pieces)),
		Units: func(bool) int { return len(pieces) },
		Run:   func(w *W, unit int) { c03Check(w, pieces[unit], 2) },
	})
	addEngine("C04", &Engine{
		Name: "dialects", Rule: "every literal, number and blank of relatives of JSON as a number of both sizes, on every reading path", Bounds: fmt.Sprintf("%d texts", len(pieces)),
		Units: func(bool) int { return len(pieces) },
		Run:   func(w *W, unit int) { c04Check(w, pieces[unit], 2) },
	})
	// dialects of strings: what may stand between the quotes
	bodies := append([]string{}, dialectBase64...)
	for _, v := range dialectValues {
		if len(v) > 1 && v[0] == '"' {
			bodies = append(bodies, v[1:], "a"+v[1:], v[1:]+" ")
		}
		bodies = append(bodies, v+`"`, v)
	}
	for _, b := range dialectBlanks {
		bodies = append(bodies, b+`"`, `a"`+b, `\`+b+`"`, `a`+b+`b"`)
	}
	addEngine("C05", &Engine{
		Name: "dialects", Rule: "every escape and quote of relatives of JSON inside and around a string, on every reading path", Bounds: fmt.Sprintf("%d texts", len(bodies)),
		Units: func(bool) int { return len(bodies) },
		Run:   func(w *W, unit int) { c05Check(w, bodies[unit], 2) },
	})
	addEngine("C12", &Engine{
		Name: "dialects", Rule: what + ", decoded into structs with few and many fields, with and without rejection of unknown members: as the standard library", Bounds: bounds, Units: dialectUnits,
		Run: func(w *W, unit int) {
			pl, di := newDecCfgs()
			ts := []reflect.Type{rt[struct {
				A int
				B string `json:"b"`
			}](), rt[struct {
				A, B interface{}
			}](), rt[struct{}](), rt[S11]()}
			for _, d := range dialectUnit(unit) {
				if !strings.Contains(d, "{") {
					continue
				}
				for _, t := range ts {
					for _, cfg := range []*jzon.DecoderConfig{pl, di} {
						for _, text := range []string{d, strings.Replace(d, `"a"`, `"zz"`, -1)} {
							if validUTF8(text) && json1(text) && !c12Case(w, cfg, t, text, cfg == di, func() reflect.Value { return reflect.New(t) }) {
								return
							}
						}
					}
				}
			}
		},
	})
	addEngine("C17", &Engine{
		Name: "dialects", Rule: what + " x every reading method x walking to depth 0, 1 or 2 first, from a slice and (skip, raw, untyped) byte by byte: success exactly when a value stands there, and exactly its bytes consumed", Bounds: bounds, Units: dialectUnits,
		Run: func(w *W, unit int) {
			for _, d := range dialectUnit(unit) {
				if !c17AcceptCase(w, []byte(d)) {
					return
				}
			}
		},
	})
	types := c21Types()
	addEngine("C21", &Engine{
		Name: "dialects", Rule: what + ", and base64 of other alphabets, decoded into every destination type: no panic, malformed texts rejected, the rest as the standard library", Bounds: bounds + fmt.Sprintf(", %d base64 texts, %d types; quick: every third type in turn", len(dialectBase64), len(types)), Units: dialectUnits,
		Run: func(w *W, unit int) {
			step := 3
			if w.Thorough {
				step = 1
			}
			for di, d := range dialectUnit(unit) {
				for ti := (di + unit) % step; ti < len(types); ti += step {
					if !c21Case(w, &types[ti], []byte(d), 1) {
						return
					}
				}
			}
			if unit < len(dialectBase64) {
				for ti := range types {
					for _, t := range []string{`"@"`, `["@"]`, `{"a":"@"}`, `{"@":1}`} {
						if !c21Case(w, &types[ti], []byte(strings.Replace(t, "@", dialectBase64[unit], 1)), 2) {
							return
						}
					}
				}
			}
		},
	})
}

// json1: no second text behind the first one (the reference reads only one)
func json1(text string) bool {
	n := refPrefix([]byte(text))
	return n < 0 || strings.TrimLeft(text[n:], " \t\r\n") == ""
}
