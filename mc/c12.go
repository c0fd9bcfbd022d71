package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/zerosnake0/jzon"
)

// C12: object members and struct fields.

// name lists: the first n names make a struct of n fields
var nameLists = [][]string{
	{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n"},
	{"Abc", "ABC", "abc", "aBC", "Abd", "abcd", "ab", "abC", "ABCD", "Abcde", "AB", "A", "aB", "abcdE"},
	{"key", "sks", "KS", "mask", "Sum", "kelvin", "ask", "skull", "K", "s", "Kk", "Ss", "sS", "kK"},
	{"é", "É", "straße", "ǅ", "日本", "名", "ñandú", "Σίσυφος", "ς", "Ω", "Å", "İ", "ı", "ÿ"},
	{"x-y", "x_y", "X-Y", "a.b", "a b", "1", "12", "-1", "@", "}", "[", "{", "~", "^"},
	{strings.Repeat("n", 63), strings.Repeat("n", 64), strings.Repeat("n", 65), strings.Repeat("N", 64), strings.Repeat("n", 127), strings.Repeat("n", 128), strings.Repeat("n", 129), strings.Repeat("n", 511), strings.Repeat("n", 512), strings.Repeat("n", 513), strings.Repeat("N", 513), "q", "Q", strings.Repeat("n", 1025)},
}

func listStruct(list []string, n int, t reflect.Type) reflect.Type {
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		fs = append(fs, sf(fmt.Sprintf("F%d", i), t, fmt.Sprintf(`json:%q`, list[i])))
	}
	return reflect.StructOf(fs)
}

// key spellings (as JSON string content) of a name
func keySpell(name string) []string {
	esc := ""
	for _, r := range name {
		if r < 0x10000 {
			esc += fmt.Sprintf(`\u%04x`, r)
		} else {
			esc += string(r)
		}
	}
	first := ""
	for i, r := range name {
		if i == 0 && r < 0x10000 {
			first = fmt.Sprintf(`\u%04X`, r)
		} else {
			first += string(r)
		}
	}
	out := []string{name, strings.ToUpper(name), strings.ToLower(name), strings.Title(name), first}
	if len(name) < 100 {
		out = append(out, esc)
	}
	rep := strings.NewReplacer("k", "\u212a", "K", "\u212a", "s", "\u017f", "S", "\u017f")
	if r := rep.Replace(name); r != name {
		out = append(out, r)
	}
	// near misses
	out = append(out, name+"x", name+name, "x"+name, name+" ")
	rs := []rune(name)
	out = append(out, string(rs[:len(rs)-1]), string(rs[1:]))
	if len(name) == 1 {
		out = append(out, string(rune(name[0])^0x20), string(rune(name[0])|0x80))
	}
	return out
}

func allKeys(list []string, n int) []string {
	seen := map[string]bool{"": true}
	out := []string{""}
	for i := 0; i < len(list) && i < n+1; i++ {
		for _, k := range keySpell(list[i]) {
			if strings.ContainsAny(k, "\"\x00") || seen[k] {
				continue
			}
			if !json.Valid([]byte(`"` + k + `"`)) {
				continue
			}
			seen[k] = true
			out = append(out, k)
		}
	}
	return out
}

type structRes struct {
	v   reflect.Value
	err error
}

func guarded(t reflect.Type) reflect.Value {
	p := reflect.New(t)
	n := 40
	for i := 0; i < t.NumField(); i++ {
		if p.Elem().Field(i).CanSet() && p.Elem().Field(i).Kind() != reflect.Ptr {
			fillVal(p.Elem().Field(i), &n, 0)
		}
	}
	return p
}

// c12Case: the object decoded by both libraries into equally prepared structs
func c12Case(w *W, cfg *jzon.DecoderConfig, t reflect.Type, text string, disallow bool, fresh func() reflect.Value) bool {
	if !w.Begin() {
		return !w.Stop()
	}
	desc := func() string {
		return fmt.Sprintf("%s <- %s (unknown members rejected: %v)", clip(t.String(), 700), clip(text, 900), disallow)
	}
	w.Announce(desc)
	w.States++
	w.Transitions++
	a, b := fresh(), fresh()
	var e1, e2 error
	func() {
		defer catch(&e1)
		if disallow && len(text)%2 == 0 {
			d := cfg.NewDecoder(newChunk([]byte(text), 5))
			d.DisallowUnknownFields()
			e1 = d.Decode(a.Interface())
			d.Release()
		} else {
			e1 = cfg.Unmarshal([]byte(text), a.Interface())
		}
		if e1 != nil && strings.HasPrefix(e1.Error(), "panic") {
			w.Fail(desc(), e1)
		}
	}()
	d := json.NewDecoder(strings.NewReader(text))
	if disallow {
		d.DisallowUnknownFields()
	}
	e2 = d.Decode(b.Interface())
	if e2 == nil {
		w.Nontrivial++
	}
	if (e1 == nil) != (e2 == nil) {
		w.Fail(desc(), fmt.Errorf("error %v, reference error %v", e1, e2))
		return false
	}
	if e1 == nil && !eqv(a, b, 0) {
		w.Fail(desc(), fmt.Errorf("got %s, want %s", clip(show(a.Interface()), 500), clip(show(b.Interface()), 500)))
		return false
	}
	return true
}

var disCfg = jzon.NewDecoderConfig(&jzon.DecoderOption{DisallowUnknownFields: true})

func newDecCfgs() (plain, dis *jzon.DecoderConfig) {
	return jzon.NewDecoderConfig(nil), jzon.NewDecoderConfig(&jzon.DecoderOption{DisallowUnknownFields: true})
}

func init() {
	register(&Property{ID: "C12", Engines: []*Engine{
		{
			Name:   "names",
			Rule:   "structs of 1..14 fields over six name lists (plain, case collisions, K/S folding, non-ASCII, punctuation, buffer-sized lengths) x every key spelling (exact, cases, escapes, fold variants, near misses), unknown members skipped and rejected, prepared fields: same result as the standard library",
			Bounds: "6 lists x 14 sizes x all spellings; all pairs of keys (the long-name list: every seventh pair, sizes to 11; thorough: all sizes)",
			Units:  func(bool) int { return len(nameLists) * 14 },
			Run: func(w *W, unit int) {
				list, n := nameLists[unit/14], unit%14+1
				t := listStruct(list, n, rt[int16]())
				plain, dis := newDecCfgs()
				keys := allKeys(list, n)
				fresh := func() reflect.Value { return guarded(t) }
				for _, k := range keys {
					for _, txt := range []string{`{"` + k + `":7}`, ` { "` + k + `" : -3 } `, `{"` + k + `":null}`, `{"zz":[{"q":1}],"` + k + `":9,"yy":"s"}`, `{"` + k + `":"bad"}`} {
						if !c12Case(w, plain, t, txt, false, fresh) || !c12Case(w, dis, t, txt, true, fresh) {
							return
						}
					}
				}
				if unit/14 == 5 && n > 11 && !w.Thorough {
					return
				}
				for i, k := range keys {
					for j, k2 := range keys {
						if unit/14 == 5 && (i+j)%7 != 0 {
							continue
						}
						if !c12Case(w, plain, t, `{"`+k+`":7,"`+k2+`":8}`, false, fresh) {
							return
						}
					}
				}
			},
		},
		{
			Name:   "case sensitive and tag options",
			Rule:   "the same structs under the case-sensitive option, another tag key and the tagged-only option, against an explicit resolver: a member goes to the field whose name is exactly the key, everything else is unknown",
			Bounds: "6 lists x 14 sizes x all spellings x {case sensitive} x {json, other tag key} x {only tagged} x {reject unknown}",
			Units:  func(bool) int { return len(nameLists) * 14 },
			Run: func(w *W, unit int) {
				list, n := nameLists[unit/14], unit%14+1
				for m := 0; m < 8; m++ {
					key, only, dis := "json", m&2 != 0, m&4 != 0
					if m&1 != 0 {
						key = "jz"
					}
					cfg := jzon.NewDecoderConfig(&jzon.DecoderOption{CaseSensitive: true, Tag: key, OnlyTaggedField: only, DisallowUnknownFields: dis})
					// even fields are tagged under the key, odd ones under another key (their Go name counts unless tagged-only)
					var fs []reflect.StructField
					names := map[string]int{}
					for i := 0; i < n; i++ {
						if i%3 != 2 {
							fs = append(fs, sf(fmt.Sprintf("F%d", i), rt[int16](), fmt.Sprintf(`%s:%q`, key, list[i])))
							names[list[i]] = i
						} else {
							fs = append(fs, sf(fmt.Sprintf("F%d", i), rt[int16](), fmt.Sprintf(`other:%q`, list[i])))
							if !only {
								names[fmt.Sprintf("F%d", i)] = i
							}
						}
					}
					t := reflect.StructOf(fs)
					for _, k := range append(allKeys(list, n), "F0", "F1", "F2", "f2", "F5", "F8", "F11", "f11") {
						if !w.Begin() {
							if w.Stop() {
								return
							}
							continue
						}
						txt := `{"` + k + `":7,"` + k + `":8}`
						desc := func() string {
							return fmt.Sprintf("%s <- %s case sensitive, tag %s, only tagged %v, reject unknown %v", clip(t.String(), 600), clip(txt, 600), key, only, dis)
						}
						w.Announce(desc)
						w.States++
						w.Transitions++
						var ks string
						if json.Unmarshal([]byte(`"`+k+`"`), &ks) != nil {
							continue
						}
						idx, known := names[ks]
						p := guarded(t)
						want := guarded(t)
						if known {
							want.Elem().Field(idx).SetInt(8)
							w.Nontrivial++
						}
						err := cfg.Unmarshal([]byte(txt), p.Interface())
						if (err != nil) != (!known && dis) {
							w.Fail(desc(), fmt.Errorf("error %v, field known: %v", err, known))
							return
						}
						if err == nil && !eqv(p, want, 0) {
							w.Fail(desc(), fmt.Errorf("got %s, want %s", show(p.Interface()), show(want.Interface())))
							return
						}
					}
				}
			},
		},
		{
			Name:   "tags",
			Rule:   "structs whose fields carry every tag of the tag alphabet (names, options, invalid names, ignored) x every member name of interest x values, against the standard library; also the tag key and tagged-only options by translating the tags",
			Bounds: "19^2 tag pairs x 12 keys x 3 values; 8^2 two-key tags x 4 embeddings x 6 options",
			Units:  func(bool) int { return len(tagAlpha) + len(optTags) },
			Run: func(w *W, unit int) {
				if unit < len(tagAlpha) {
					plain, dis := newDecCfgs()
					for _, tag := range tagAlpha {
						t := reflect.StructOf([]reflect.StructField{sf("Fa", tInt, tagAlpha[unit]), sf("Fb", tStr, tag), sf("N", rt[*float64](), "")})
						fresh := func() reflect.Value { return guarded(t) }
						for _, k := range []string{"Fa", "Fb", "fa", "FB", "n", "N", "-", "a b", "<&>", "é", "É", `bad\"q`, "x", "a.b-c_d/e:f;g", "日本", ""} {
							for _, v := range []string{"1", `"2"`, `"\"s\""`, "null"} {
								txt := `{"` + k + `":` + v + `}`
								if !c12Case(w, plain, t, txt, false, fresh) || !c12Case(w, dis, t, txt, true, fresh) {
									return
								}
							}
						}
					}
					return
				}
				unit -= len(tagAlpha)
				for _, k := range []struct {
					key  string
					only bool
				}{{"", false}, {"", true}, {"jz", false}, {"jz", true}, {"none", true}, {"none", false}} {
					cfg := jzon.NewDecoderConfig(&jzon.DecoderOption{Tag: k.key, OnlyTaggedField: k.only})
					for _, tb := range optTags {
						for emb := 0; emb < 4; emb++ {
							src, ref := optStruct(optTags[unit], tb, emb, k.key, k.only)
							for _, key := range []string{"a", "b", "c", "Aa", "aa", "Bb", "bb", "In", "Jn", "sub", "Sub"} {
								for _, val := range []string{"1", `"2"`, `{"In":1,"Jn":2,"a":3,"b":4,"c":5}`, `[{"In":1,"Jn":2,"a":3,"b":4,"c":5}]`, "null"} {
									if !w.Begin() {
										if w.Stop() {
											return
										}
										continue
									}
									txt := `{"` + key + `":` + val + `}`
									desc := func() string { return fmt.Sprintf("tag %q only %v: %s <- %s", k.key, k.only, src, txt) }
									w.Announce(desc)
									w.States++
									w.Transitions++
									p, q := reflect.New(src), reflect.New(ref)
									e1 := cfg.Unmarshal([]byte(txt), p.Interface())
									e2 := json.Unmarshal([]byte(txt), q.Interface())
									if (e1 == nil) != (e2 == nil) || e1 == nil && !eqv(p.Elem(), q.Elem().Convert(src), 0) {
										w.Fail(desc(), fmt.Errorf("got %s (%v), want %s (%v)", show(p.Interface()), e1, show(q.Interface()), e2))
										return
									}
									if e1 == nil {
										w.Nontrivial++
									}
								}
							}
						}
					}
				}
			},
		},
		{
			Name:   "embedding",
			Rule:   "every struct embedding up to two of 14 building blocks (thorough: three) with own fields x every member name x values of three kinds, unknown members skipped and rejected, nil and set embedded pointers",
			Bounds: "14^2 pairs x 6 own-field variants x 14 keys x 3 values",
			Units:  func(bool) int { return len(embTypes) },
			Run: func(w *W, unit int) {
				plain, dis := newDecCfgs()
				owns := [][]reflect.StructField{{}, {sf("X", tStr, "")}, {sf("Own", tInt, `json:"X"`)}, {sf("Y", tInt, `json:"-"`)}, {sf("P", tInt, `json:"y,omitempty"`)}, {sf("Z", rt[bool](), `json:"z"`)}}
				keys := []string{"X", "x", "Y", "y", "Z", "z", "W", "w", "V", "v", "named", "Q", "q", "E1", "Own", "unk"}
				run := func(fs []reflect.StructField) bool {
					names := map[string]bool{}
					for _, f := range fs {
						if names[f.Name] {
							return true
						}
						names[f.Name] = true
					}
					t := reflect.StructOf(fs)
					for _, k := range keys {
						for _, v := range []string{"5", `"s"`, `"6"`, "[1,2]", `{"X":1,"y":2,"w":3}`, "true"} {
							txt := `{"` + k + `":` + v + `}`
							if !c12Case(w, plain, t, txt, false, func() reflect.Value { return reflect.New(t) }) ||
								!c12Case(w, dis, t, txt, true, func() reflect.Value {
									p := reflect.New(t)
									n := 50
									fillVal(p.Elem(), &n, 0)
									return p
								}) {
								return false
							}
						}
					}
					return true
				}
				a := embTypes[unit]
				for _, tagA := range []string{"", `json:"named"`, `json:"-"`} {
					for _, own := range owns {
						plain, dis = newDecCfgs()
						if !run(append([]reflect.StructField{embField(a, tagA)}, own...)) || !run(append(append([]reflect.StructField{}, own...), embField(a, tagA))) {
							return
						}
						for _, b := range embTypes {
							if embName(a) == embName(b) {
								continue
							}
							plain, dis = newDecCfgs()
							if !run(append([]reflect.StructField{embField(a, tagA), embField(b, "")}, own...)) {
								return
							}
							if !w.Thorough {
								continue
							}
							for _, c := range embTypes {
								if !run(append([]reflect.StructField{embField(a, tagA), embField(b, ""), embField(c, "")}, own...)) {
									return
								}
							}
						}
					}
				}
			},
		},
		{
			Name:   "orders",
			Rule:   "structs of 1, 3, 10, 11 and 14 fields of mixed types: every permutation with repetition of four members drawn from known, differently cased, unknown scalar and unknown nested members; the last of equal members wins, the rest is untouched; decoded from a slice and byte-wise",
			Bounds: "9^4 objects x 5 sizes",
			Units:  func(bool) int { return 5 * 9 },
			Run: func(w *W, unit int) {
				sizes := []int{1, 3, 10, 11, 14}
				n := sizes[unit/9]
				kinds := []reflect.Type{rt[int8](), rt[string](), rt[*int](), rt[bool](), rt[[]int](), rt[uint16](), rt[map[string]int](), rt[float32](), rt[interface{}](), rt[struct{ A int }](), rt[[2]int8](), rt[int64](), rt[*string](), rt[uint8]()}
				var fs []reflect.StructField
				for i := 0; i < n; i++ {
					fs = append(fs, sf("F"+string(rune('A'+i)), kinds[i], ""))
				}
				t := reflect.StructOf(fs)
				plain, _ := newDecCfgs()
				members := []string{`"FA":1`, `"fa":2`, `"FB":"x"`, `"FC":3`, `"fc":null`, `"FN":4`, `"zzz":{"FA":9,"q":[{}]}`, `"y":"FA"`, `"FE":[5,6]`}
				product(3, 9, func(v []int) bool {
					txt := "{" + members[unit%9] + "," + members[v[0]] + ", " + members[v[1]] + "," + members[v[2]] + "}"
					if !c12Case(w, plain, t, txt, false, func() reflect.Value { return guarded(t) }) {
						return false
					}
					if !w.Begin() {
						return !w.Stop()
					}
					desc := func() string { return fmt.Sprintf("byte-wise %s <- %s", t, txt) }
					w.Announce(desc)
					w.Transitions++
					a, b := guarded(t), guarded(t)
					e1 := plain.UnmarshalFromReader(newChunk([]byte(txt), 1), a.Interface())
					e2 := json.NewDecoder(bytes.NewReader([]byte(txt))).Decode(b.Interface())
					if (e1 == nil) != (e2 == nil) || e1 == nil && !eqv(a, b, 0) {
						w.Fail(desc(), fmt.Errorf("got %s (%v), want %s (%v)", show(a.Interface()), e1, show(b.Interface()), e2))
						return false
					}
					return true
				})
			},
		},
		{
			Name:   "named structs",
			Rule:   "the hand-written struct types (unexported embeddings, conflicts, shadowing, deep embedding, recursive types) x calibration objects x unknown members skipped and rejected",
			Bounds: "all struct types of the universe x 1600 objects",
			Units:  func(bool) int { return len(decodeTypes()) },
			Run: func(w *W, unit int) {
				tcs := decodeTypes()[unit]
				if tcs.T.Kind() != reflect.Struct || tcs.T == rt[Quoted]() {
					return
				}
				switch tcs.T {
				case rt[FailJSON](), rt[FailText](), rt[struct{ A chan int }]():
					return
				}
				plain, dis := newDecCfgs()
				for _, s := range calibTexts() {
					if !strings.HasPrefix(s, "{") {
						continue
					}
					fr := func() reflect.Value { return reflect.New(tcs.T) }
					if !c12Case(w, plain, tcs.T, s, false, fr) || !c12Case(w, dis, tcs.T, s, true, fr) {
						return
					}
				}
			},
		},
	}})
}
