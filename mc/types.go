package main

import (
	"encoding"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"
)

// ---- named types with hooks ------------------------------------------------

type (
	NInt    int
	NString string
	NBool   bool
	NF32    float32
	NByte   byte
	NBytes  []byte
	NSlice  []int
	NMap    map[string]int
	NArr    [2]int
	NIface  interface{}
	NPtr    *int
)

// value receiver text (un)marshaler pair on an int
type TextInt int

func (t TextInt) MarshalText() ([]byte, error) {
	point()
	return []byte("t<" + strconv.Itoa(int(t)) + ">"), nil
}
func (t *TextInt) UnmarshalText(b []byte) error {
	point()
	s := string(b)
	if !strings.HasPrefix(s, "t<") || !strings.HasSuffix(s, ">") {
		return errors.New("bad TextInt " + s)
	}
	n, err := strconv.Atoi(s[2 : len(s)-1])
	*t = TextInt(n)
	return err
}

// text (un)marshaler on a string: remembers the exact text it was given
type TextStr string

func (t TextStr) MarshalText() ([]byte, error) { point(); return []byte("~" + string(t)), nil }
func (t *TextStr) UnmarshalText(b []byte) error {
	point()
	*t = TextStr("got:" + string(b))
	return nil
}

// JSON (un)marshaler on a struct: remembers the exact bytes it was given
type JSONStruct struct{ Raw string }

func (t JSONStruct) MarshalJSON() ([]byte, error) {
	point()
	return []byte(strconv.Quote("J:" + t.Raw)), nil
}
func (t *JSONStruct) UnmarshalJSON(b []byte) error {
	point()
	t.Raw = "raw:" + string(b)
	return nil
}

// pointer receiver JSON marshaler
type PtrJSON struct{ A int }

func (t *PtrJSON) MarshalJSON() ([]byte, error) {
	point()
	return []byte(`{"pj":` + strconv.Itoa(t.A) + `}`), nil
}
func (t *PtrJSON) UnmarshalJSON(b []byte) error {
	point()
	t.A = len(b)
	return nil
}

type PtrText struct{ A int }

func (t *PtrText) MarshalText() ([]byte, error) {
	point()
	return []byte("pt" + strconv.Itoa(t.A)), nil
}
func (t *PtrText) UnmarshalText(b []byte) error {
	point()
	t.A = len(b)
	return nil
}

// direct (pointer-shaped) marshalers
type MapJSON map[string]int

func (m MapJSON) MarshalJSON() ([]byte, error) { point(); return []byte(strconv.Itoa(len(m))), nil }

type MapText map[string]int

func (m MapText) MarshalText() ([]byte, error) {
	point()
	return []byte("m" + strconv.Itoa(len(m))), nil
}

type DirectStructJSON struct{ p *int }

func (d DirectStructJSON) MarshalJSON() ([]byte, error) {
	point()
	if d.p == nil {
		return []byte(`"nilp"`), nil
	}
	return []byte(strconv.Itoa(*d.p)), nil
}

type StrJSON string

func (s StrJSON) MarshalJSON() ([]byte, error) {
	point()
	return []byte(strconv.Quote("sj" + string(s))), nil
}

// failing hooks
type FailJSON struct{ A int }

var errHook = errors.New("hook failed")

func (FailJSON) MarshalJSON() ([]byte, error)  { point(); return nil, errHook }
func (*FailJSON) UnmarshalJSON(b []byte) error { point(); return errHook }

type FailText struct{ A int }

func (FailText) MarshalText() ([]byte, error)  { point(); return nil, errHook }
func (*FailText) UnmarshalText(b []byte) error { point(); return errHook }

// interfaces
type JMIface interface {
	json.Marshaler
}
type TMIface interface {
	encoding.TextMarshaler
	fmt.Stringer
}
type StrTM string

func (s StrTM) MarshalText() ([]byte, error) { point(); return []byte("tm" + string(s)), nil }
func (s StrTM) String() string               { return string(s) }

type Shaper interface{ Shape() string }
type Sq struct{ W int }

func (s *Sq) Shape() string { return "sq" }

// ---- structs ---------------------------------------------------------------

type S0 struct{}
type S0u struct{ a int }
type S0p struct{ p *int }
type S1 struct{ A int }
type S1s struct {
	Name string `json:"name"`
}
type S2 struct {
	A int
	B string `json:"b"`
}
type S3 struct {
	X, Y, Z int8
}
type S10 struct {
	F0, F1, F2, F3, F4, F5, F6, F7, F8, F9 int
}
type S11 struct {
	F0, F1, F2, F3, F4, F5, F6, F7, F8, F9, F10 int
}
type S20 struct {
	A0, A1, A2, A3, A4, A5, A6, A7, A8, A9 int16
	Bb, BB, Abc, Abd, Abcd, X, Xy, Xyz     int16
	K, S                                   int16
}
type Guard struct {
	G0  uint8
	I8  int8 `json:"i8"`
	G1  uint8
	U8  uint8 `json:"u8"`
	G2  uint8
	I16 int16 `json:"i16"`
	G3  uint8
	U16 uint16 `json:"u16"`
	G4  uint16
	I32 int32 `json:"i32"`
	G5  uint8
	U32 uint32 `json:"u32"`
	G6  uint32
	F32 float32 `json:"f32"`
	G7  uint32
	B   bool `json:"b"`
	G8  [3]uint8
	B2  bool `json:"b2"`
	G9  uint8
}
type Emb struct {
	E int `json:"e"`
}
type EmbP struct {
	P int `json:"p"`
	Q string
}
type WithEmb struct {
	Emb
	*EmbP
	A int
}
type unexpEmb struct{ U int }
type WithUnexp struct {
	unexpEmb
	A int
}
type WithTagEmb struct {
	Emb `json:"emb"`
	A   int
}
type Deep1 struct{ Deep2 }
type Deep2 struct{ *Deep3 }
type Deep3 struct {
	D int
	E string
}
type Conflict struct {
	CA
	CB
}
type CA struct{ X, OnlyA int }
type CB struct{ X, OnlyB int }
type Shadow struct {
	CA
	X string
}
type TagWin struct {
	CA
	T struct{ Y int } `json:"X"`
}
type DomA struct {
	V int `json:"v"`
}
type DomB struct{ V int }
type Dom struct {
	DomA
	DomB
}
type Quoted struct {
	I   int         `json:"i,string"`
	I8  int8        `json:"i8,string"`
	U   uint        `json:"u,string"`
	F   float64     `json:"f,string"`
	F32 float32     `json:"f32,string"`
	B   bool        `json:"b,string"`
	S   string      `json:"s,string"`
	P   *int        `json:"p,string"`
	N   json.Number `json:"n,string"`
	L   []int       `json:"l,string"`
}
type Omit struct {
	I  int                    `json:"i,omitempty"`
	F  float64                `json:"f,omitempty"`
	S  string                 `json:"s,omitempty"`
	B  bool                   `json:"b,omitempty"`
	P  *int                   `json:"p,omitempty"`
	L  []int                  `json:"l,omitempty"`
	M  map[string]int         `json:"m,omitempty"`
	A0 [0]int                 `json:"a0,omitempty"`
	A1 [1]int                 `json:"a1,omitempty"`
	E  interface{}            `json:"e,omitempty"`
	T  struct{}               `json:"t,omitempty"`
	T2 S1                     `json:"t2,omitempty"`
	Y  []byte                 `json:"y,omitempty"`
	N  json.Number            `json:"n,omitempty"`
	R  json.RawMessage        `json:"r,omitempty"`
	X  TextStr                `json:"x,omitempty"`
	J  JSONStruct             `json:"j,omitempty"`
	MJ MapJSON                `json:"mj,omitempty"`
	SJ StrJSON                `json:"sj,omitempty"`
	JI json.Marshaler         `json:"ji,omitempty"`
	TI encoding.TextMarshaler `json:"ti,omitempty"`
	NB NBytes                 `json:"nb,omitempty"`
	U8 uint8                  `json:"u8,omitempty"`
	UP uintptr                `json:"up,omitempty"`
}
type Tags struct {
	A int `json:"-"`
	B int `json:"-,"`
	C int `json:",omitempty"`
	D int `json:"d d"`
	E int `json:"bad\"name"`
	F int `xml:"f"`
	G int `json:"g,unknownopt"`
	H int `json:"<h>"`
	i int
	J int `json:"\u00e9"`
}
type Tree struct {
	V    int              `json:"v"`
	L    *Tree            `json:"l"`
	R    *Tree            `json:"r"`
	Kids []Tree           `json:"kids"`
	M    map[string]*Tree `json:"m"`
	Any  interface{}      `json:"any"`
}
type Mixed struct {
	B   bool                   `json:"b"`
	I   int                    `json:"i"`
	U8  uint8                  `json:"u8"`
	F   float64                `json:"f"`
	S   string                 `json:"s"`
	P   *int                   `json:"p"`
	PP  **string               `json:"pp"`
	L   []int                  `json:"l"`
	LS  []string               `json:"ls"`
	A   [3]int                 `json:"a"`
	M   map[string]int         `json:"m"`
	MI  map[int]string         `json:"mi"`
	E   interface{}            `json:"e"`
	T   S2                     `json:"t"`
	PT  *S2                    `json:"pt"`
	Raw json.RawMessage        `json:"raw"`
	N   json.Number            `json:"n"`
	X   TextInt                `json:"x"`
	J   JSONStruct             `json:"j"`
	Y   []byte                 `json:"y"`
	ME  map[string]interface{} `json:"me"`
}

type tcase struct {
	Name string
	T    reflect.Type
	// pre returns pre-populated values (fresh on every call)
	Pre []func() reflect.Value
}

func tc(v interface{}, pre ...func() interface{}) tcase {
	t := reflect.TypeOf(v).Elem()
	c := tcase{Name: t.String(), T: t}
	for _, p := range pre {
		p := p
		c.Pre = append(c.Pre, func() reflect.Value {
			x := reflect.New(t)
			if v := p(); v != nil {
				x.Elem().Set(reflect.ValueOf(v))
			}
			return x
		})
	}
	return c
}

func ip(i int) *int       { return &i }
func sp(s string) *string { return &s }
func ipp(i int) **int     { p := &i; return &p }

type preF = func() interface{}

// the destination universe
func decodeTypes() []tcase {
	return []tcase{
		tc((*bool)(nil), func() interface{} { return true }),
		tc((*int)(nil), func() interface{} { return 77 }),
		tc((*int8)(nil)), tc((*int16)(nil)), tc((*int32)(nil)), tc((*int64)(nil)),
		tc((*uint)(nil)), tc((*uint8)(nil)), tc((*uint16)(nil)), tc((*uint32)(nil)), tc((*uint64)(nil)), tc((*uintptr)(nil)),
		tc((*float32)(nil)), tc((*float64)(nil), func() interface{} { return 2.5 }),
		tc((*string)(nil), func() interface{} { return "old" }),
		tc((*json.Number)(nil), func() interface{} { return json.Number("5") }),
		tc((*json.RawMessage)(nil), func() interface{} { return json.RawMessage("[9,9,9,9,9,9]") }),
		tc((*[]byte)(nil), func() interface{} { return []byte("oldbytes") }),
		tc((*NBytes)(nil)), tc((*[]NByte)(nil)),
		tc((*NInt)(nil)), tc((*NString)(nil)), tc((*NBool)(nil)), tc((*NF32)(nil)), tc((*NSlice)(nil)), tc((*NMap)(nil)), tc((*NArr)(nil)), tc((*NIface)(nil)),
		tc((*[]int)(nil), func() interface{} { return []int{7, 8, 9} }, func() interface{} { return make([]int, 0, 4) }),
		tc((*[]string)(nil)), tc((*[][]int)(nil)), tc((*[]interface{})(nil), func() interface{} { return []interface{}{1, "x"} }), tc((*[]*int)(nil)), tc((*[]bool)(nil)), tc((*[]S2)(nil)), tc((*[]float64)(nil)),
		tc((*[0]int)(nil)), tc((*[1]int)(nil), func() interface{} { return [1]int{5} }), tc((*[3]int)(nil), func() interface{} { return [3]int{4, 5, 6} }),
		tc((*[2]string)(nil), func() interface{} { return [2]string{"p", "q"} }), tc((*[3]byte)(nil)), tc((*[2]*int)(nil), func() interface{} { return [2]*int{ip(1), ip(2)} }), tc((*[2][2]int)(nil)), tc((*[1]*int)(nil)),
		tc((*[2]S2)(nil), func() interface{} { return [2]S2{{1, "a"}, {2, "b"}} }), tc((*[2]interface{})(nil), func() interface{} { return [2]interface{}{1, 2} }),
		tc((*map[string]int)(nil), func() interface{} { return map[string]int{"a": 1, "zz": 2} }, func() interface{} { return map[string]int{} }),
		tc((*map[string]string)(nil)), tc((*map[string]interface{})(nil), func() interface{} { return map[string]interface{}{"a": 1, "zz": []int{2}} }),
		tc((*map[int]int)(nil)), tc((*map[int8]bool)(nil)), tc((*map[uint8]string)(nil)), tc((*map[uint64]int)(nil)), tc((*map[int64]int)(nil)),
		tc((*map[NString]int)(nil)), tc((*map[TextInt]int)(nil)), tc((*map[TextStr]int)(nil)), tc((*map[string]S2)(nil), func() interface{} { return map[string]S2{"a": {1, "x"}} }),
		tc((*map[string]*S2)(nil), func() interface{} { return map[string]*S2{"a": {1, "x"}} }), tc((*map[string][]int)(nil)), tc((*map[string]map[string]int)(nil)), tc((*map[float64]int)(nil)), tc((*map[bool]int)(nil)),
		tc((**int)(nil), func() interface{} { return ip(3) }), tc((***int)(nil), func() interface{} { return ipp(3) }), tc((**string)(nil), func() interface{} { return sp("old") }),
		tc((**S2)(nil), func() interface{} { return &S2{4, "old"} }), tc((**[]int)(nil)), tc((**map[string]int)(nil)), tc((**interface{})(nil)), tc((**[2]int)(nil)),
		tc((*interface{})(nil), func() interface{} { return 5 }, func() interface{} { return map[string]interface{}{"k": 1} }, func() interface{} { return "str" }),
		tc((*Shaper)(nil)),
		tc((*S0)(nil)), tc((*S0u)(nil)), tc((*S1)(nil), func() interface{} { return S1{9} }), tc((*S1s)(nil)), tc((*S2)(nil), func() interface{} { return S2{9, "old"} }),
		tc((*S3)(nil), func() interface{} { return S3{1, 2, 3} }), tc((*S10)(nil)), tc((*S11)(nil), func() interface{} { return S11{F3: 3, F10: 10} }), tc((*S20)(nil)),
		tc((*Guard)(nil), func() interface{} {
			return Guard{0xA0, 1, 0xA1, 2, 0xA2, 3, 0xA3, 4, 0xA4A4, 5, 0xA5, 6, 0xA6A6A6A6, 7, 0xA7A7A7A7, true, [3]uint8{1, 2, 3}, false, 0xA9}
		}),
		tc((*WithEmb)(nil), func() interface{} { return WithEmb{Emb{1}, &EmbP{2, "q"}, 3} }), tc((*WithUnexp)(nil)), tc((*WithTagEmb)(nil)), tc((*Deep1)(nil)),
		tc((*Conflict)(nil)), tc((*Shadow)(nil)), tc((*TagWin)(nil)), tc((*Dom)(nil)),
		tc((*Quoted)(nil)), tc((*Tags)(nil)), tc((*Tree)(nil)), tc((*Mixed)(nil)), tc((*Omit)(nil)),
		tc((*TextInt)(nil)), tc((*TextStr)(nil)), tc((*JSONStruct)(nil)), tc((*PtrJSON)(nil)), tc((*PtrText)(nil)), tc((*FailJSON)(nil)), tc((*FailText)(nil)),
		tc((*[]TextInt)(nil)), tc((*[]JSONStruct)(nil)), tc((*map[string]JSONStruct)(nil)), tc((**TextStr)(nil)), tc((**JSONStruct)(nil)), tc((*[2]TextStr)(nil)), tc((***JSONStruct)(nil)),
		tc((*struct{ A JSONStruct })(nil)), tc((*struct{ A *JSONStruct })(nil)), tc((*struct{ A *TextStr })(nil)), tc((*struct{ A TextInt })(nil)),
		tc((*chan int)(nil)), tc((*func())(nil)), tc((*complex128)(nil)), tc((*struct{ A chan int })(nil)), tc((*[]complex64)(nil)),
	}
}
