package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/zerosnake0/jzon"
)

// pointers embedded several levels deep, with fields before, between and
// after them at every level
type (
	F1 struct {
		A1 int
		A2 string `json:"a2,omitempty"`
	}
	F2 struct {
		B1 int
		*F1
		B2 *int
	}
	F4 struct {
		D1 int
		*F5
	}
	F5 struct{ G1, G2 int }
	F3 struct {
		*F2
		C1 int `json:",string"`
		F4
	}
	F6 struct {
		H0 int
		*F3
		H1 int
	}
	F9 struct{ K1 int }
	F8 struct {
		*F9
		J1 int
	}
	F7 struct {
		*F6
		*F8
		I1 int
	}
	FU struct {
		T1 string
		U1 int
	}
	FT struct {
		T1 int
		*FU
		T2 []int
	}
	FS struct {
		*FT
		S1 int
	}
	FR struct {
		V int
		*FR
		W int `json:"w"`
	}
	// only one field in all
	FO1 struct{ O int }
	FO2 struct{ *FO1 }
	FO3 struct{ *FO2 }
	FO4 struct{ FO3 }
	// pointers at offset zero and behind zero-size fields
	FZ0 struct{}
	FZ1 struct {
		FZ0
		*FO1
	}
	FZ2 struct {
		_ struct{}
		*FZ1
		*FO5
	}
	FO5 struct{ P, Q int }
	// two branches with the same names: all of them vanish
	FC1 struct{ *FO1 }
	FC2 struct {
		*FC3
		C int
	}
	FC3 struct{ O, R int }
	FC  struct {
		*FC1
		*FC2
	}
	// a branch reached twice
	FD1 struct {
		*F5
		L int
	}
	FD2 struct {
		*F5
		M int
	}
	FD struct {
		FD1
		*FD2
	}
	// embedded under a name: an ordinary field
	FN struct {
		*F2 `json:"f2"`
		*F8 `json:"f8,omitempty"`
		N   int
	}
	// more than ten fields
	FL struct {
		*F7
		X1, X2, X3, X4, X5 int
		*FS
	}
)

var embedDeep = []reflect.Type{rt[F2](), rt[F3](), rt[F4](), rt[F6](), rt[F7](), rt[F8](), rt[FT](), rt[FS](), rt[FR](), rt[FO2](), rt[FO3](), rt[FO4](), rt[FZ1](), rt[FZ2](), rt[FC](), rt[FC2](), rt[FD](), rt[FN](), rt[FL]()}

// embedBuild: the value whose pointers, in the order they are met, are set as
// the bits of mask say; the number of bits used
func embedBuild(t reflect.Type, mask uint, n *int) (reflect.Value, int) {
	used := 0
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).Name != "_" {
					walk(v.Field(i))
				}
			}
		case reflect.Ptr:
			if used < 12 {
				if mask>>uint(used)&1 == 1 {
					used++
					v.Set(reflect.New(v.Type().Elem()))
					walk(v.Elem())
					return
				}
				used++
			}
		default:
			fillVal(v, n, 0)
		}
	}
	p := reflect.New(t)
	walk(p.Elem())
	return p, used
}

// embedMasks: every choice of nil and set pointers
func embedMasks(t reflect.Type) (out []uint) {
	for m := uint(0); m < 1<<12; m++ {
		n := 0
		if _, used := embedBuild(t, m, &n); m>>uint(used) == 0 {
			out = append(out, m)
		}
	}
	return
}

// embedMembers: the members of the type, by themselves, with null, in other
// case, and an unknown one
func embedMembers(t reflect.Type) (out []string) {
	n := 0
	full, _ := embedBuild(t, 1<<12-1, &n)
	b, err := json.Marshal(full.Interface())
	var m map[string]json.RawMessage
	if err == nil {
		err = json.Unmarshal(b, &m)
	}
	if err != nil {
		panic(err)
	}
	names := []string{}
	for k := range m {
		names = append(names, k)
	}
	sort.Strings(names)
	for i, k := range names {
		out = append(out, fmt.Sprintf("%q:%s", k, m[k]))
		if i%3 == 0 {
			out = append(out, fmt.Sprintf("%q:null", k))
		} else if i%3 == 1 {
			out = append(out, fmt.Sprintf("%q:%s", strings.ToLower(k), m[k]))
		}
	}
	return append(out, `"unknown":[{}]`)
}

func init() {
	addEngine("C11", &Engine{
		Name:   "embedded pointers",
		Rule:   "structs with pointers embedded up to five levels deep and fields around them at every level, with every combination of nil and set pointers: as the standard library, on every path, both html modes",
		Bounds: fmt.Sprintf("%d types, all combinations of up to 12 pointers", len(embedDeep)),
		Units:  func(bool) int { return len(embedDeep) },
		Run: func(w *W, unit int) {
			t := embedDeep[unit]
			for _, html := range []bool{true, false} {
				cfg := jzon.NewEncoderConfig(&jzon.EncoderOption{EscapeHTML: html})
				for _, m := range embedMasks(t) {
					n := 0
					v, _ := embedBuild(t, m, &n)
					if !c11Case(w, cfg, html, v.Elem(), func() string { return fmt.Sprintf("pointers %b", m) }) {
						return
					}
				}
			}
		},
	})
	addEngine("C12", &Engine{
		Name:   "embedded pointers",
		Rule:   "structs with pointers embedded up to five levels deep, with every combination of nil and set pointers before, x every sequence of up to two members (values, null, other case, unknown), and of three for a new destination, unknown ones skipped and rejected: as the standard library",
		Bounds: fmt.Sprintf("%d types, all combinations of up to 12 pointers (quick, two members: every fifth)", len(embedDeep)),
		Units:  func(bool) int { return len(embedDeep) * 8 },
		Run: func(w *W, unit int) {
			t := embedDeep[unit/8]
			cfg := jzon.NewDecoderConfig(nil)
			mem := embedMembers(t)
			for mi, m := range embedMasks(t) {
				if mi%8 != unit%8 {
					continue
				}
				fresh := func() reflect.Value {
					n := 40
					v, _ := embedBuild(t, m, &n)
					return v
				}
				max := 2
				if mi == 0 {
					max = 3
				}
				if !w.Thorough && len(mem) > 12 {
					max--
					if mi%5 == 0 && max < 2 {
						max = 2
					}
				}
				for k := 0; k <= max; k++ {
					ok := true
					product(k, len(mem), func(v []int) bool {
						var l []string
						for _, i := range v {
							l = append(l, mem[i])
						}
						text := "{" + strings.Join(l, ",") + "}"
						ok = c12Case(w, cfg, t, text, false, fresh) && (k != 1 || c12Case(w, cfg, t, text, true, fresh))
						return ok
					})
					if !ok {
						return
					}
				}
			}
		},
	})
}
