package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/zerosnake0/jzon"
)

func f32bits(b uint32) float32 { return math.Float32frombits(b) }
func f64bits(b uint64) float64 { return math.Float64frombits(b) }

var omitKinds = []reflect.Type{rt[int](), rt[int8](), rt[int16](), rt[int32](), rt[int64](), rt[uint](), rt[uint8](), rt[uint16](), rt[uint32](), rt[uint64](), rt[uintptr](), rt[float32](), rt[float64](), rt[bool](), rt[string](), rt[NString]()}

type scaleList struct {
	V    int
	Next *scaleList `json:",omitempty"`
}
type scaleElem struct {
	A int
	B *string `json:"b"`
}

// scaleValues: Go values that grow with n
func scaleValues(n int) []interface{} {
	ints, strs, flts, bools := make([]int, n), make([]string, n), make([]float64, n), make([]bool, n)
	bs := make([]byte, n)
	anys := make([]interface{}, n)
	rag := make([][]int, n)
	els := make([]scaleElem, n)
	msi, mis, mss := map[string]int{}, map[int]string{}, map[string][]int{}
	for i := 0; i < n; i++ {
		ints[i], strs[i], flts[i], bools[i] = i*7-3, "s"+strconv.Itoa(i), float64(i)/4, i%3 == 0
		bs[i] = byte(i * 7)
		anys[i] = []interface{}{float64(i), "x" + strconv.Itoa(i), nil, true, map[string]interface{}{"k": float64(i)}, []interface{}{false}}[i%6]
		rag[i] = make([]int, i%5)
		s := "b" + strconv.Itoa(i)
		els[i].A = i
		if i%3 > 0 {
			els[i].B = &s
		}
		if i < 3000 {
			msi["k"+strconv.Itoa(i)] = i
			mis[i-10] = strconv.Itoa(i)
			mss[strconv.Itoa(i)] = []int{i}
		}
	}
	m := n
	if m > 4097 {
		m = 4097
	}
	arr := reflect.New(reflect.ArrayOf(m, rt[int16]())).Elem()
	barr := reflect.New(reflect.ArrayOf(m, rt[uint8]())).Elem()
	for i := 0; i < m; i++ {
		arr.Index(i).SetInt(int64(i + 1))
		barr.Index(i).SetUint(uint64(byte(i + 1)))
	}
	var list *scaleList
	var nest RecS = RecS{}
	for i := 0; i < m; i++ {
		list = &scaleList{i, list}
		nest = RecS{nest}
	}
	f := n
	if f > 513 {
		f = 513
	}
	var fs, os []reflect.StructField
	for i := 0; i < f; i++ {
		t := []reflect.Type{rt[int](), rt[string](), rt[bool](), rt[*int](), rt[float32]()}[i%5]
		fs = append(fs, sf("F"+strconv.Itoa(i), t, ""))
		os = append(os, sf("F"+strconv.Itoa(i), t, fmt.Sprintf(`json:"o%d,omitempty"`, i)))
	}
	full, omit, last := reflect.New(reflect.StructOf(fs)).Elem(), reflect.New(reflect.StructOf(os)).Elem(), reflect.New(reflect.StructOf(os)).Elem()
	k := 0
	for i := 0; i < f; i++ {
		fillVal(full.Field(i), &k, 0)
		if i%2 == 1 {
			fillVal(omit.Field(i), &k, 0)
		}
	}
	if f > 0 {
		fillVal(last.Field(f-1), &k, 0)
	}
	str := longStr(n)
	esc := strings.Repeat("\n\"<é\u2028", n)
	return []interface{}{
		ints, strs, bs, msi, mis, arr.Interface(), barr.Interface(), str, esc, anys, full.Interface(), omit.Interface(), last.Interface(), list, nest,
		json.RawMessage("[" + joinN(n, numItem) + "]"), json.Number("1" + strings.Repeat("0", n)), flts, rag, els, mss, bools, RTStruct{str},
		rtStrings{A: str, B: esc, C: &esc, D: map[string]string{str: esc}, E: []string{str, esc}, F: esc, G: bs, I: map[NString]int{NString(esc): 1}},
		[][]byte{bs, {}, bs}, [2]string{str, esc}, map[string]interface{}{"x": anys, str: "y"}, &strs, struct{ A, B interface{} }{str, anys},
	}
}

// ---- C14 -------------------------------------------------------------------------

type szCall struct {
	name string
	f    func(s *jzon.Streamer)
	m    func(m *stModel)
}

func c14RunCalls(w *W, n int, what string, calls []szCall, flush func(i int) bool, fname string) bool {
	if w.Stop() {
		return false
	}
	if !w.Begin() {
		return true
	}
	desc := func() string { return fmt.Sprintf("size %d, %s, flush %s", n, what, fname) }
	w.Announce(desc)
	w.Transitions += int64(len(calls))
	w.Nontrivial++
	var m stModel
	var bb bytes.Buffer
	err := func() (err error) {
		defer catch(&err)
		s := jzon.NewStreamer()
		s.Reset(&bb)
		for i, c := range calls {
			c.f(s)
			c.m(&m)
			if flush(i) {
				if err := s.Flush(); err != nil {
					return err
				}
				if !bytes.Equal(bb.Bytes(), m.out) {
					return fmt.Errorf("after call %d (%s): wrote %q, want %q", i, c.name, clip(bb.String(), 300), clip(string(m.out), 300))
				}
			}
		}
		err = s.Flush()
		s.Release()
		if err == nil && !bytes.Equal(bb.Bytes(), m.out) {
			err = fmt.Errorf("wrote %q, want %q", clip(bb.String(), 300), clip(string(m.out), 300))
		}
		return err
	}()
	if err != nil {
		w.Fail(desc(), err)
		return false
	}
	return true
}

func szOpen(c byte) szCall {
	if c == '[' {
		return szCall{"ArrayStart", func(s *jzon.Streamer) { s.ArrayStart() }, func(m *stModel) { m.open('[') }}
	}
	return szCall{"ObjectStart", func(s *jzon.Streamer) { s.ObjectStart() }, func(m *stModel) { m.open('{') }}
}
func szClose(c byte) szCall {
	if c == ']' {
		return szCall{"ArrayEnd", func(s *jzon.Streamer) { s.ArrayEnd() }, func(m *stModel) { m.close(']') }}
	}
	return szCall{"ObjectEnd", func(s *jzon.Streamer) { s.ObjectEnd() }, func(m *stModel) { m.close('}') }}
}
func szField(k string) szCall {
	return szCall{"Field", func(s *jzon.Streamer) { s.Field(k) }, func(m *stModel) { m.key(`"` + k + `"`) }}
}
func szInt(i int) szCall {
	return szCall{"Int", func(s *jzon.Streamer) { s.Int(i) }, func(m *stModel) { m.value(strconv.Itoa(i)) }}
}
func szStr(v string) szCall {
	return szCall{"String", func(s *jzon.Streamer) { s.String(v) }, func(m *stModel) { m.value(`"` + v + `"`) }}
}

func c14Sizes(w *W, n int) {
	str := longStr(n)
	raw := []byte(`"` + str + `"`)
	ints := make([]int, n)
	itxt := "[" + joinN(n, func(int) string { return "0" }) + "]"
	szRaw := szCall{"Raw", func(s *jzon.Streamer) { s.Raw(raw) }, func(m *stModel) { m.value(string(raw)) }}
	szVal := szCall{"Value", func(s *jzon.Streamer) { s.Value(ints) }, func(m *stModel) { m.value(itxt) }}
	szRF := szCall{"RawField", func(s *jzon.Streamer) { s.RawField(raw) }, func(m *stModel) { m.key(string(raw)) }}
	for vi, calls := range [][]szCall{
		{szOpen('['), szStr(str), szOpen('{'), szField(str), szRaw, szField("b"), szVal, szClose('}'), szInt(5), szClose(']')},
		{szOpen('{'), szRF, szOpen('['), szVal, szVal, szClose(']'), szField("c"), szStr(""), szField(str), szInt(1), szClose('}')},
		{szOpen('['), szInt(1), szInt(2), szStr(str), szInt(3), szRaw, szInt(4), szOpen('['), szClose(']'), szClose(']')},
	} {
		what := fmt.Sprintf("calls %d", vi)
		w.States++
		if n <= 34 {
			for mask := 0; mask < 1<<uint(len(calls)); mask++ {
				if !c14RunCalls(w, n, what, calls, func(i int) bool { return mask>>uint(i)&1 == 1 }, fmt.Sprintf("mask %b", mask)) {
					return
				}
			}
			continue
		}
		for a := -1; a < len(calls); a++ {
			for b := a; b < len(calls); b++ {
				if !c14RunCalls(w, n, what, calls, func(i int) bool { return i == a || i == b }, fmt.Sprintf("after %d and %d", a, b)) {
					return
				}
			}
		}
		if !c14RunCalls(w, n, what, calls, func(i int) bool { return true }, "always") {
			return
		}
	}
	arr, obj := []szCall{szOpen('[')}, []szCall{szOpen('{')}
	for i := 0; i < n; i++ {
		arr = append(arr, szInt(i))
		obj = append(obj, szField("k"+strconv.Itoa(i)), szStr("v"+strconv.Itoa(i)))
	}
	arr, obj = append(arr, szClose(']')), append(obj, szClose('}'))
	for ki, k := range []int{1, 2, 3, 7, 64, n/2 + 1, n + 1} {
		if (k == 1 || k == 2) && n > 3000 {
			continue // the comparison after every flush is quadratic
		}
		if n > 2000 && ki < 4 {
			continue
		}
		if !c14RunCalls(w, n, "array", arr, func(i int) bool { return i%k == k-1 }, fmt.Sprintf("every %d", k)) ||
			!c14RunCalls(w, n, "object", obj, func(i int) bool { return i%k == k-1 }, fmt.Sprintf("every %d", k)) {
			return
		}
	}
	if n > 4097 {
		return
	}
	var da, do, dm []szCall
	for i := 0; i < n; i++ {
		da = append(da, szOpen('['))
		do = append(do, szOpen('{'), szField("f"))
		if i%2 == 0 {
			dm = append(dm, szOpen('['), szInt(i))
		} else {
			dm = append(dm, szOpen('{'), szField("g"), szInt(i), szField("h"))
		}
	}
	da, do, dm = append(da, szInt(1)), append(do, szInt(1)), append(dm, szInt(1))
	for i := n - 1; i >= 0; i-- {
		da = append(da, szClose(']'))
		do = append(do, szClose('}'))
		if i%2 == 0 {
			dm = append(dm, szInt(-i), szClose(']'))
		} else {
			dm = append(dm, szField("z"), szStr("q"), szClose('}'))
		}
	}
	for di, d := range [][]szCall{da, do, dm} {
		for _, k := range []int{len(d) + 1, 64, len(d)/2 + 1, 1} {
			if k == 1 && n > 300 {
				continue
			}
			if !c14RunCalls(w, n, fmt.Sprintf("nesting %d", di), d, func(i int) bool { return i%k == k-1 }, fmt.Sprintf("every %d", k)) {
				return
			}
		}
	}
}

// ---- C18 -------------------------------------------------------------------------

// sane: every slice can be used: a nil one has no capacity, and appending
// gives one more element and changes nothing
func sane(v reflect.Value, d int) error {
	if d > 12 {
		return nil
	}
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() && v.Cap() != 0 {
			return fmt.Errorf("a nil %s has capacity %d", v.Type(), v.Cap())
		}
		if v.Cap() < v.Len() {
			return fmt.Errorf("a %s of length %d has capacity %d", v.Type(), v.Len(), v.Cap())
		}
		if v.CanInterface() {
			x := reflect.Append(v, reflect.Zero(v.Type().Elem()))
			if x.Len() != v.Len()+1 || x.Len() > 1 && v.Len() < 100 && !eqv(x.Slice(0, v.Len()), v, 0) {
				return fmt.Errorf("appending to a %s of %d elements gives %d", v.Type(), v.Len(), x.Len())
			}
		}
		if k := v.Type().Elem().Kind(); k >= reflect.Bool && k <= reflect.Complex128 || k == reflect.String {
			return nil
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if err := sane(v.Index(i), d+1); err != nil {
				return err
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if err := sane(v.Field(i), d+1); err != nil {
				return err
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if err := sane(v.MapIndex(k), d+1); err != nil {
				return err
			}
		}
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			return sane(v.Elem(), d+1)
		}
	}
	return nil
}

type elem18 struct {
	t    reflect.Type
	text func(i int) string
}

var elems18 = []elem18{
	{rt[int](), strconv.Itoa},
	{rt[uint8](), func(i int) string { return strconv.Itoa(i % 250) }},
	{rt[string](), strItem},
	{rt[*int](), strconv.Itoa},
	{rt[[]int16](), func(i int) string { return "[" + strconv.Itoa(i) + "]" }},
	{rt[S2](), func(i int) string { return `{"A":` + strconv.Itoa(i) + `}` }},
	{rt[interface{}](), func(i int) string { return []string{strconv.Itoa(i), strItem(i), "null", "[1]"}[i%4] }},
	{rt[map[string]int8](), func(i int) string { return `{"k":` + strconv.Itoa(i%100) + `}` }},
	{rt[bool](), func(i int) string { return []string{"true", "false"}[i%2] }},
	{rt[[3]float32](), func(i int) string { return "[" + strconv.Itoa(i) + ",0.5]" }},
}

func size18(dt reflect.Type, nest, n int, arr bool, e elem18, doc []byte) (err error) {
	defer catch(&err)
	fill := func(v reflect.Value, ref bool) {
		if !arr {
			if ref {
				return // a slice is filled from nothing
			}
			s := reflect.MakeSlice(v.Type(), n+3, n+3)
			k := 5
			for i := 0; i < n+3; i++ {
				fillVal(s.Index(i), &k, 0)
			}
			v.Set(s.Slice(0, n))
			return
		}
		k := 5
		for i := 0; i < n; i++ {
			fillVal(v.Index(i), &k, 0)
		}
	}
	mk := func(ref bool) *dest18 {
		return newDest(dt, func(v reflect.Value, rec *[]reflect.Value) {
			switch nest {
			case 0:
				fill(v, ref)
			case 1:
				v.Field(0).SetInt(11)
				fill(v.Field(1), ref)
			case 2:
				v.Set(reflect.MakeMap(dt))
				for _, key := range []string{"m", "x"} {
					el := reflect.New(dt.Elem()).Elem()
					if key == "x" {
						k := 8
						fillVal(el, &k, 0)
					} else {
						fill(el, ref)
					}
					v.SetMapIndex(reflect.ValueOf(key), el)
				}
			}
		})
	}
	a, b := mk(false), mk(true)
	e1 := jzon.Unmarshal(doc, a.v.Addr().Interface())
	e2 := json.Unmarshal(doc, b.v.Addr().Interface())
	if e1 != nil || e2 != nil {
		return fmt.Errorf("error %v, reference %v", e1, e2)
	}
	if !a.guards() {
		return fmt.Errorf("memory next to the destination was changed")
	}
	return sameDest(a, b)
}

// ---- C19 -------------------------------------------------------------------------

var growTypes = []struct {
	t    reflect.Type
	text func(n int) string
}{
	{rt[[]*int](), func(n int) string { return "[" + joinN(n, numItem) + "]" }},
	{rt[[]string](), func(n int) string { return "[" + joinN(n, strItem) + "]" }},
	{rt[map[string]*int](), func(n int) string { return "{" + joinN(n, keyItem) + "}" }},
	{rt[map[int]string](), func(n int) string {
		return "{" + joinN(n, func(i int) string { return `"` + strconv.Itoa(i) + `":` + strItem(i) }) + "}"
	}},
	{rt[interface{}](), func(n int) string { return "[" + joinN(n, strItem) + ",{" + joinN(n, keyItem) + "}]" }},
	{rt[[]interface{}](), func(n int) string {
		return "[" + joinN(n, func(i int) string { return "[" + strItem(i) + ",{" + keyItem(i) + "}]" }) + "]"
	}},
	{rt[[]json.RawMessage](), func(n int) string { return "[" + joinN(n, strItem) + "]" }},
	{rt[json.RawMessage](), func(n int) string { return "[" + joinN(n, strItem) + "]" }},
	{rt[*scaleList](), func(n int) string {
		return strings.Repeat(`{"V":3,"Next":`, n) + "null" + strings.Repeat("}", n)
	}},
	{rt[[]scaleElem](), func(n int) string {
		return "[" + joinN(n, func(i int) string { return `{"A":` + numItem(i) + `,"b":` + strItem(i) + "}" }) + "]"
	}},
	{rt[[][]*string](), func(n int) string {
		return "[" + joinN(n, func(i int) string { return "[" + strItem(i) + "," + strItem(i+1) + "]" }) + "]"
	}},
	{rt[map[TextStr]*scaleElem](), func(n int) string {
		return "{" + joinN(n, func(i int) string { return strItem(i) + `:{"A":1,"b":` + strItem(i) + "}" }) + "}"
	}},
	{rt[[]JSONStruct](), func(n int) string { return "[" + joinN(n, strItem) + "]" }},
	{rt[string](), func(n int) string { return `"` + strings.Repeat(`abcdefg\n`, n) + `"` }},
	{rt[[]byte](), func(n int) string { return `"` + strings.Repeat("QUJD", n) + `"` }},
	{rt[[]map[string]string](), func(n int) string {
		return "[" + joinN(n, func(i int) string { return `{"k":` + strItem(i) + "}" }) + "]"
	}},
}

// ---- C20 -------------------------------------------------------------------------

type szHook struct{ got string }

func (h *szHook) UnmarshalJSON(b []byte) error { h.got = string(b); return nil }

type szText struct{ got string }

func (h *szText) UnmarshalText(b []byte) error { h.got = string(b); return nil }

type szOut struct{ out string }

func (h szOut) MarshalJSON() ([]byte, error) { return []byte(h.out), nil }

type szTextOut struct{ out string }

func (h szTextOut) MarshalText() ([]byte, error) { return []byte(h.out), nil }

type szDest struct {
	A  int
	H  szHook
	B  int
	P  *szHook
	L  []szHook
	M  map[string]szHook
	T  szText
	TP *szText
	E  int
}

func size20(doc string) (err error) {
	defer catch(&err)
	str, _, isStr := "", "", false
	if doc[0] == '"' {
		s, rest, ok := refUnescape(doc[1:])
		str, isStr = s, ok && rest == ""
	}
	text := `{"A":1,"H":` + doc + ` ,"B":2,"P": ` + doc + `,"L":[` + doc + `,` + doc + ` ],"M":{"k":` + doc + `}`
	if isStr {
		text += `,"T":` + doc + `,"TP" : ` + doc
	}
	text += `,"E":3}`
	for _, ch := range []int{0, 1, 512, 4096} {
		if ch == 1 && len(text) > 5000 {
			continue
		}
		var d szDest
		var e error
		if ch == 0 {
			e = jzon.Unmarshal([]byte(text), &d)
		} else {
			e = jzon.UnmarshalFromReader(newChunk([]byte(text), ch), &d)
		}
		if e != nil {
			return fmt.Errorf("reads of %d: %v", ch, e)
		}
		if d.A != 1 || d.B != 2 || d.E != 3 || len(d.L) != 2 || d.P == nil {
			return fmt.Errorf("reads of %d: the members around the hooks are %d %d %d %d", ch, d.A, d.B, d.E, len(d.L))
		}
		for i, g := range []string{d.H.got, d.P.got, d.L[0].got, d.L[1].got, d.M["k"].got} {
			if g != doc {
				return fmt.Errorf("reads of %d: hook %d got %q, want %q", ch, i, clip(g, 200), clip(doc, 200))
			}
		}
		if isStr && (d.T.got != str || d.TP == nil || d.TP.got != str) {
			return fmt.Errorf("reads of %d: the text hook got %q, want %q", ch, clip(d.T.got, 200), clip(str, 200))
		}
	}
	if isStr {
		var m map[szTextKey]int
		if e := jzon.Unmarshal([]byte(`{`+doc+`:1}`), &m); e != nil || m[szTextKey(str)] != 1 || len(m) != 1 {
			return fmt.Errorf("text key: %v", e)
		}
	}
	// outputs
	v := struct {
		A int
		H szOut
		I interface{}
		T szTextOut
		L []szOut
		M map[szTextOut]int
		B int
	}{1, szOut{doc}, &szOut{doc}, szTextOut{doc}, []szOut{{doc}, {doc}}, map[szTextOut]int{{doc}: 5}, 2}
	want, e := json.Marshal(v)
	if e != nil {
		return fmt.Errorf("harness: %v", e)
	}
	got, e := jzon.Marshal(v)
	if e != nil || c20Compact(got) != string(want) {
		return fmt.Errorf("Marshal: %q (%v), want %q", clip(string(got), 300), e, clip(string(want), 300))
	}
	var bb bytes.Buffer
	enc := jzon.NewEncoder(&bb)
	e = enc.Encode(&v)
	enc.Release()
	if e != nil || c20Compact(bb.Bytes()) != string(want) {
		return fmt.Errorf("Encode: %q (%v)", clip(bb.String(), 300), e)
	}
	return nil
}

type szTextKey string

func (k *szTextKey) UnmarshalText(b []byte) error { *k = szTextKey(b); return nil }

// ---- C21: quoted fields ------------------------------------------------------------

var quotedTypes = []reflect.Type{rt[bool](), rt[int](), rt[int8](), rt[int16](), rt[int32](), rt[int64](), rt[uint](), rt[uint8](), rt[uint16](), rt[uint32](), rt[uint64](), rt[uintptr](), rt[float32](), rt[float64](), rt[string](), rt[NString](), rt[*bool](), rt[*int](), rt[*float64](), rt[*string](), rt[json.Number](), rt[NInt](), rt[**int8]()}

var quotedItems = []string{"true", "false", "null", "1", "-", "0", ".5", "e1", " ", `\"`, "a", `\u0031`, `\n`, "+"}

// quotedZone: the differences between the two libraries that are by design
// (DESIGN.md): what one may accept although the other rejects
func quotedZone(t reflect.Type, body string, quoted bool) (mayAccept, mayReject, mayDiffer bool) {
	ptr := t.Kind() == reflect.Ptr
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	lit, num := numScan(body)
	strict := num && lit == body
	switch {
	case t == rt[json.Number]():
		// bare numbers are accepted, nothing but numbers is
		mayAccept, mayReject = !quoted, quoted && !strict
	case t.Kind() == reflect.Bool:
		mayAccept = !quoted || body[0] == ' '
		mayDiffer = ptr && body == "null"
	case t.Kind() == reflect.String:
		mayDiffer = ptr && body == "null"
	default:
		mayReject = quoted && !strict
	}
	return
}

func init() {
	addEngine("C21", &Engine{
		Name:   "quoted",
		Rule:   "a field with the string option of every quotable kind, named types and pointers x every sequence of items, bare and in quotes: same verdict and value as the standard library outside of the documented differences",
		Bounds: fmt.Sprintf("%d types, sequences of up to 4 (thorough 5) of %d items", len(quotedTypes), len(quotedItems)),
		Units:  func(bool) int { return len(quotedTypes) * len(quotedItems) },
		Run: func(w *W, unit int) {
			t := quotedTypes[unit/len(quotedItems)]
			max := 4
			if w.Thorough {
				max = 5
			}
			st := reflect.StructOf([]reflect.StructField{sf("A", rt[int8](), ""), sf("X", t, `json:"x,string"`), sf("B", rt[int8](), "")})
			var rec func(body string, n int) bool
			rec = func(body string, n int) bool {
				w.States++
				for _, quoted := range []bool{false, true} {
					lit := body
					if quoted {
						lit = `"` + body + `"`
					}
					if w.Stop() {
						return false
					}
					text := []byte(`{"A":3,"x":` + lit + `,"B":4}`)
					if !w.Begin() {
						continue
					}
					desc := func() string { return fmt.Sprintf("%s,string <- %s", t, lit) }
					w.Announce(desc)
					w.Transitions++
					a, b := reflect.New(st), reflect.New(st)
					var e1 error
					func() {
						defer catch(&e1)
						e1 = jzon.Unmarshal(text, a.Interface())
					}()
					if e1 != nil && strings.HasPrefix(e1.Error(), "panic") {
						w.Fail(desc(), e1)
						continue
					}
					e2 := json.Unmarshal(text, b.Interface())
					if e2 == nil {
						w.Nontrivial++
					}
					if !json.Valid(text) {
						if e1 == nil {
							w.Fail(desc(), fmt.Errorf("a malformed text is accepted as %s", show(a.Elem().Interface())))
						}
						continue
					}
					acc, rej, diff := quotedZone(t, body, quoted)
					if acc && e1 == nil && e2 != nil || rej && e1 != nil && e2 == nil {
						w.Outcome("documented difference")
						continue
					}
					if (e1 == nil) != (e2 == nil) {
						w.Fail(desc(), fmt.Errorf("error %v, the standard library %v", e1, e2))
						continue
					}
					if e1 == nil && !diff && !eqv(a, b, 0) {
						w.Fail(desc(), fmt.Errorf("%s, the standard library %s", show(a.Elem().Interface()), show(b.Elem().Interface())))
					}
				}
				if n < max {
					for _, it := range quotedItems {
						if !rec(body+it, n+1) {
							return false
						}
					}
				}
				return true
			}
			if unit%len(quotedItems) == 0 {
				w.States++
			}
			rec(quotedItems[unit%len(quotedItems)], 1)
		},
	})
}
