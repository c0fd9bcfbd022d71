package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/zerosnake0/jzon"
)

// ---- C18: quoted fields that already hold something --------------------------------

// quotedTexts are texts both libraries accept for the type, and null
func quotedTexts(t reflect.Type) []string {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	switch {
	case t == rt[json.Number]():
		return []string{"null", `"12"`, `"-0.5e1"`}
	case t.Kind() == reflect.Bool:
		return []string{"null", `"true"`, `"false"`}
	case t.Kind() == reflect.String:
		return []string{"null", `"\"s\""`, `"\"\""`, `"\"\\u0041é\""`}
	}
	return []string{"null", `"0"`, `"12"`, `"101"`}
}

func init() {
	types := append(append([]reflect.Type{}, quotedTypes...), rt[*json.Number](), rt[*NString](), rt[*uint16](), rt[*uint8](), rt[*uintptr](), rt[*float32](), rt[**string](), rt[**bool]())
	// the fields around the quoted one; the struct decoders differ by the
	// number of fields
	mk := func(t reflect.Type, n int) reflect.Type {
		fs := []reflect.StructField{sf("X", t, `json:"x,string"`)}
		for i := 1; i < n; i++ {
			if i%2 == 0 {
				fs = append(fs, sf(fmt.Sprintf("F%d", i), rt[int8](), ""))
			} else {
				fs = append(fs, sf(fmt.Sprintf("Y%d", i), t, fmt.Sprintf(`json:"y%d,string"`, i)))
			}
		}
		return reflect.StructOf(fs)
	}
	sizes := []int{1, 2, 5, 12}
	addEngine("C18", &Engine{
		Name:   "quoted fields",
		Rule:   "a field with the string option of every quotable kind, named types and pointers, nil or set, in structs of every class of size x two documents one after the other: destination, every object it referred to and the guards around it as the standard library leaves them; non-trivial: decoded",
		Bounds: fmt.Sprintf("%d types, struct sizes %v, all pairs of documents, every prior content", len(types), sizes),
		Units:  func(bool) int { return len(types) * len(sizes) },
		Run: func(w *W, unit int) {
			t := types[unit/len(sizes)]
			n := sizes[unit%len(sizes)]
			st := mk(t, n)
			tx := quotedTexts(t)
			var docs []string
			for _, x := range tx {
				docs = append(docs, `{"x":`+x+`}`)
				if n > 1 {
					for _, y := range tx {
						docs = append(docs, `{"y1":`+y+`,"x":`+x+`}`)
					}
				}
				docs = append(docs, `{"x":`+x+`, "q":[1], "x" : `+tx[1]+`}`)
			}
			for pi, m := range priors(st, 0) {
				for _, d1 := range docs {
					for _, d2 := range docs {
						if w.Stop() {
							return
						}
						if !w.Begin() {
							continue
						}
						desc := func() string {
							return fmt.Sprintf("%s holding %s (prior %d) <- %s, then %s", st, clip(deepv(newDest(st, m).v, 0), 300), pi, d1, d2)
						}
						w.Announce(desc)
						w.Sample(desc)
						w.States++
						a, b := newDest(st, m), newDest(st, m)
						err := func() (err error) {
							defer catch(&err)
							for _, d := range []string{d1, d2} {
								w.Transitions++
								e1 := jzon.Unmarshal([]byte(d), a.v.Addr().Interface())
								e2 := json.Unmarshal([]byte(d), b.v.Addr().Interface())
								if (e1 == nil) != (e2 == nil) {
									return fmt.Errorf("error %v, the standard library %v", e1, e2)
								}
								if !a.guards() {
									return fmt.Errorf("memory next to the destination was changed")
								}
								if e1 != nil {
									w.Outcome("rejected by both")
									return nil
								}
								if err := sameDest(a, b); err != nil {
									return err
								}
							}
							w.Nontrivial++
							return nil
						}()
						if err != nil {
							w.Fail(desc(), err)
							return
						}
					}
				}
			}
		},
	})

	// ---- C20: the quoting option on a field whose type has methods -----------------
	addEngine("C20", &Engine{
		Name: "methods: quoted fields", Workers: 1,
		Rule:   "a type with recording decoding methods in a field with the string option (plain, behind a pointer, with omitempty, in structs of every class of size): the methods get exactly the bytes of the value, as they do without the option; compared with the standard library decoding into the same struct without the option",
		Bounds: "14 kinds of type x the sets of methods that decode; 7 texts; 3 struct sizes; every failing call",
		Units:  func(bool) int { return len(c20Bases) },
		Run: func(w *W, unit int) {
			b := c20Bases[unit]
			pt := reflect.PtrTo(b.t)
			if !pt.Implements(rt[json.Unmarshaler]()) && !pt.Implements(rt[interface{ UnmarshalText([]byte) error }]()) {
				return
			}
			dc := jzon.NewDecoderConfig(nil)
			for _, n := range []int{0, 1, 9} {
				shape := func(opt string) reflect.Type {
					fs := []reflect.StructField{sf("F", b.t, `json:"f`+opt+`"`)}
					if n > 0 {
						fs = append(fs, sf("G", pt, `json:"g`+opt+`"`), sf("H", reflect.PtrTo(pt), `json:"h,omitempty`+opt+`"`))
					}
					for i := 1; i < n; i++ {
						fs = append(fs, sf(fmt.Sprintf("X%d", i), tInt, ""))
					}
					return reflect.StructOf(fs)
				}
				ty, plain := shape(",string"), shape("")
				for _, text := range c20Texts {
					for _, k := range []string{"f", "g", "h"} {
						if n == 0 && k != "f" {
							continue
						}
						doc := `{"` + k + `" : ` + text + ` }`
						if !c20Decode(w, dc, func() interface{} { return reflect.New(ty).Interface() }, func() interface{} { return reflect.New(plain).Interface() }, doc,
							func(a, b interface{}) bool { return c20Any(a) == c20Any(b) },
							func() string { return strings.ReplaceAll(fmt.Sprintf("decode %s into %s", doc, ty), "\n", " ") }) {
							return
						}
					}
				}
			}
		},
	})
}
