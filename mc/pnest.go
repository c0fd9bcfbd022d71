package main

import (
	"encoding/json"
	"fmt"
	"reflect"

	"github.com/zerosnake0/jzon"
)

// Every container inside of every container inside of every container: what is
// being filled is reachable only from the memory the decoder holds.

var nestCons = []func(t reflect.Type) reflect.Type{
	func(t reflect.Type) reflect.Type { return reflect.MapOf(tStr, t) },
	func(t reflect.Type) reflect.Type { return reflect.MapOf(tInt, t) },
	func(t reflect.Type) reflect.Type { return reflect.SliceOf(t) },
	func(t reflect.Type) reflect.Type { return reflect.ArrayOf(2, t) },
	func(t reflect.Type) reflect.Type { return reflect.PtrTo(t) },
	func(t reflect.Type) reflect.Type { return reflect.StructOf([]reflect.StructField{sf("A", t, "")}) },
	func(t reflect.Type) reflect.Type {
		return reflect.StructOf([]reflect.StructField{sf("A", tInt, ""), sf("B", t, "")})
	},
}

var nestLeaves = []reflect.Type{rt[*int](), tStr, rt[[]byte](), rt[interface{}](), rt[map[string]int](), rt[json.RawMessage](), rt[TextInt](), rt[json.Number]()}

func nestDoc(t reflect.Type) string {
	switch t {
	case rt[[]byte]():
		return `"QUJDREVGR0g="`
	case rt[json.RawMessage]():
		return `{"r":[1,"x"]}`
	case rt[TextInt]():
		return `"7"`
	case rt[json.Number]():
		return `123456`
	}
	switch t.Kind() {
	case reflect.Ptr:
		return nestDoc(t.Elem())
	case reflect.Interface:
		return `{"i":["s",null]}`
	case reflect.String:
		return `"text\n"`
	case reflect.Slice, reflect.Array:
		return `[` + nestDoc(t.Elem()) + `,` + nestDoc(t.Elem()) + `]`
	case reflect.Map:
		return `{"1":` + nestDoc(t.Elem()) + `,"2":` + nestDoc(t.Elem()) + `}`
	case reflect.Struct:
		s := `{`
		for i := 0; i < t.NumField(); i++ {
			if i > 0 {
				s += `,`
			}
			s += fmt.Sprintf("%q:%s", t.Field(i).Name, nestDoc(t.Field(i).Type))
		}
		return s + `}`
	}
	return `12`
}

func init() {
	addEngine("C19", &Engine{
		Name: "nested containers", Rule: "every container in every container (thorough: in every container) of every kind of leaf, decoded byte by byte with no collection, one at every point and (9 bytes at a time) one at every single point: same result, unchanged after further collections", Bounds: fmt.Sprintf("%d containers, depth 2 (thorough 3), %d leaves", len(nestCons), len(nestLeaves)), Workers: 1,
		Units: func(bool) int { return len(nestCons) * len(nestLeaves) },
		Run: func(w *W, unit int) {
			outer, leaf := nestCons[unit%len(nestCons)], nestLeaves[unit/len(nestCons)]
			try := func(t reflect.Type) bool {
				text := nestDoc(t)
				return nestCase(w, t, text)
			}
			for _, mid := range nestCons {
				if !try(outer(mid(leaf))) {
					return
				}
				if w.Thorough {
					for _, in := range nestCons {
						if !try(outer(mid(in(leaf)))) {
							return
						}
					}
				}
			}
		},
	})
}

// nestCase: byte by byte with a collection at every point, and in blocks with
// one at every single point
func nestCase(w *W, t reflect.Type, text string) bool {
	op := func(ch int) func() (string, func() string) {
		return func() (string, func() string) {
			p := reflect.New(t)
			err := jzon.UnmarshalFromReader(gcReader(text, ch), p.Interface())
			return outErr(err), func() string { return deepv(p.Elem(), 0) }
		}
	}
	name := func() string { return fmt.Sprintf("%s from %s", t, text) }
	return gcAllCase(w, name, op(1)) && gcCase(w, func() string { return name() + " by 9" }, op(9))
}
