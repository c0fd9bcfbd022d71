package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/zerosnake0/jzon"
)

// The same names and the same structs reached several times through embedding,
// at the same and at different depths, tagged and not, by value and by pointer.

func twiceField(name, tag string) reflect.StructField {
	return reflect.StructField{Name: name, Type: tInt, Tag: reflect.StructTag(tag)}
}

func twiceEmb(i int, t reflect.Type) reflect.StructField {
	return reflect.StructField{Name: fmt.Sprintf("E%d", i), Type: t, Anonymous: true}
}

// twiceInner: the structs at the bottom
func twiceInner() (out []reflect.Type) {
	for _, fs := range [][]reflect.StructField{
		{twiceField("X", "")},
		{twiceField("X", `json:"x"`)},
		{twiceField("Q", `json:"X"`)},
		{twiceField("X", `json:",omitempty"`), twiceField("Q", `json:"x,omitempty"`)},
	} {
		out = append(out, reflect.StructOf(fs))
	}
	return
}

// twiceMid: structs which embed one or two of them, with or without a field of their own
func twiceMid() (out []reflect.Type) {
	own := [][]reflect.StructField{nil, {twiceField("M", "")}, {twiceField("X", "")}, {twiceField("M", `json:"x"`)}}
	in := twiceInner()
	for i, a := range in {
		for oi, o := range own {
			out = append(out, reflect.StructOf(append([]reflect.StructField{twiceEmb(0, a)}, o...)))
			if oi == 1 {
				out = append(out, reflect.StructOf(append([]reflect.StructField{twiceEmb(0, reflect.PtrTo(a))}, o...)))
			}
			if oi < 2 {
				b := in[(i+1)%len(in)]
				out = append(out, reflect.StructOf(append([]reflect.StructField{twiceEmb(0, a), twiceEmb(1, b)}, o...)))
				out = append(out, reflect.StructOf(append([]reflect.StructField{twiceEmb(0, a), twiceEmb(1, reflect.PtrTo(a))}, o...)))
			}
		}
	}
	return append(out, in...)
}

// twiceOuter calls f for every struct which embeds first and another one (and a third)
func twiceOuter(first reflect.Type, th bool, f func(t reflect.Type) bool) {
	third := []reflect.Type{nil, twiceInner()[0], reflect.PtrTo(twiceInner()[1])}
	for bi, b := range twiceMid() {
		for k := 0; k < 4; k++ {
			x, y := first, b
			if k&1 == 1 {
				x = reflect.PtrTo(x)
			}
			if k&2 == 2 {
				y = reflect.PtrTo(y)
			}
			for ti, t3 := range third {
				if !th && ti != 0 && (bi+k)%3 != ti {
					continue
				}
				fs := []reflect.StructField{twiceEmb(0, x), twiceEmb(1, y)}
				if t3 != nil {
					fs = append(fs, twiceEmb(2, t3))
				}
				if (bi+k)%2 == 1 {
					fs = append(fs, twiceField("Z", ""))
				}
				if !f(reflect.StructOf(fs)) {
					return
				}
			}
		}
	}
}

func init() {
	n := len(twiceMid())
	bounds := fmt.Sprintf("%d structs embedded in pairs, by value and by pointer, with an optional third", n)
	addEngine("C11", &Engine{
		Name: "embedded twice", Rule: "structs in which the same names, and the same structs, are embedded several times at the same and at different depths, tagged and not: as the standard library", Bounds: bounds,
		Units: func(bool) int { return n },
		Run: func(w *W, unit int) {
			cfg := jzon.NewEncoderConfig(nil)
			twiceOuter(twiceMid()[unit], w.Thorough, func(t reflect.Type) bool {
				for i, v := range structVals(t)[:2] {
					if !c11Case(w, cfg, true, v, func() string { return fmt.Sprintf("value %d", i) }) {
						return false
					}
				}
				return true
			})
		},
	})
	keys := []string{"X", "x", "Q", "M", "Z"}
	addEngine("C12", &Engine{
		Name: "embedded twice", Rule: "structs in which the same names, and the same structs, are embedded several times at the same and at different depths, tagged and not x every member and all of them, unknown ones skipped and rejected: as the standard library", Bounds: bounds,
		Units: func(bool) int { return n },
		Run: func(w *W, unit int) {
			plain, dis := newDecCfgs()
			var all []string
			for i, k := range keys {
				all = append(all, fmt.Sprintf("%q:%d", k, i+1))
			}
			twiceOuter(twiceMid()[unit], w.Thorough, func(t reflect.Type) bool {
				fresh := func() reflect.Value { return reflect.New(t) }
				for _, m := range append(all[:len(all):len(all)], strings.Join(all, ",")) {
					text := "{" + m + "}"
					if !c12Case(w, plain, t, text, false, fresh) || !c12Case(w, dis, t, text, true, fresh) {
						return false
					}
				}
				return true
			})
		},
	})
}
