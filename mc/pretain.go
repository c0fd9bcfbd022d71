package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"strings"

	"github.com/zerosnake0/jzon"
)

// C15: results of every size, looked at again after everything they could
// still be connected with has been used for something else.

type retained struct {
	name string
	// the result, and what reads it; after() goes on with the same object
	f func(n int, c byte) (get func() string, want string, after func(), err error)
}

func retStr(n int, c byte) string { return strings.Repeat(string(c), n) }

// a text and two more values in one stream
func retStream(text string, chunk int) io.Reader {
	d := []byte(text + ` "` + strings.Repeat("#", len(text)+700) + `" [` + strings.Repeat("7,", len(text)/2+400) + `7]`)
	if chunk == 0 {
		return bytes.NewReader(d)
	}
	return newChunk(d, chunk)
}

func retainedKinds() []retained {
	var out []retained
	enc := func(name string, mk func(s string) interface{}, want func(s string) string) {
		out = append(out, retained{"Marshal of " + name, func(n int, c byte) (func() string, string, func(), error) {
			s := retStr(n, c)
			b, err := jzon.Marshal(mk(s))
			return func() string { return string(b) }, want(s), func() {}, err
		}})
	}
	q := func(s string) string { return `"` + s + `"` }
	enc("a string", func(s string) interface{} { return s }, q)
	enc("a raw value", func(s string) interface{} { return json.RawMessage(s) }, func(s string) string { return s })
	enc("a method's output", func(s string) interface{} { return marshalN{s} }, func(s string) string { return s })
	enc("a text method's output", func(s string) interface{} { return tpVal{s} }, q)
	enc("elements", func(s string) interface{} { return []interface{}{s, 1} }, func(s string) string { return `["` + s + `",1]` })
	enc("a map", func(s string) interface{} { return map[string]interface{}{s: nil} }, func(s string) string { return `{"` + s + `":null}` })
	enc("many small values", func(s string) interface{} {
		l := make([]uint8, len(s))
		for i := range l {
			l[i] = s[0] % 10
		}
		return (*[1]interface{})(&[1]interface{}{uint8s(l)})
	}, func(s string) string {
		if s == "" {
			return "[[]]"
		}
		return "[[" + strings.Repeat(string('0'+s[0]%10)+",", len(s)-1) + string('0'+s[0]%10) + "]]"
	})

	// decoded from a byte slice which is overwritten afterwards
	type target struct {
		name string
		text func(s string) string
		dec  func(d func(v interface{}) error) (func() string, error)
		want func(s string) string
	}
	id := func(s string) string { return s }
	num := func(s string) string { return "1" + strings.Repeat(string('0'+(s + "0")[0]%10), len(s)) }
	targets := []target{
		{"a string", q, func(d func(v interface{}) error) (func() string, error) {
			var s string
			err := d(&s)
			return func() string { return s }, err
		}, id},
		{"an escaped string", func(s string) string { return `"` + s + `\n"` }, func(d func(v interface{}) error) (func() string, error) {
			var s string
			err := d(&s)
			return func() string { return s }, err
		}, func(s string) string { return s + "\n" }},
		{"an interface", func(s string) string { return `[{"` + s + `":"` + s + `"},"` + s + `"]` }, func(d func(v interface{}) error) (func() string, error) {
			var v interface{}
			err := d(&v)
			return func() string { return fmt.Sprint(v) }, err
		}, func(s string) string { return "[map[" + s + ":" + s + "] " + s + "]" }},
		{"a raw message", q, func(d func(v interface{}) error) (func() string, error) {
			var r json.RawMessage
			err := d(&r)
			return func() string { return string(r) }, err
		}, q},
		{"raw elements", func(s string) string { return `["` + s + `",{"k":"` + s + `"}]` }, func(d func(v interface{}) error) (func() string, error) {
			var r []json.RawMessage
			err := d(&r)
			return func() string { return string(bytes.Join([][]byte{r[0], r[1]}, []byte("|"))) }, err
		}, func(s string) string { return `"` + s + `"|{"k":"` + s + `"}` }},
		{"a number", num, func(d func(v interface{}) error) (func() string, error) {
			var r json.Number
			err := d(&r)
			return func() string { return string(r) }, err
		}, num},
		{"a map", func(s string) string { return `{"` + s + `":{"` + s + `x":1}}` }, func(d func(v interface{}) error) (func() string, error) {
			var r map[string]map[tpKey]int
			err := d(&r)
			return func() string { return fmt.Sprint(r) }, err
		}, func(s string) string { return "map[" + s + ":map[{" + s + "x}:1]]" }},
		{"a struct", func(s string) string { return `{"A":"` + s + `","B":"` + s + `","C":"\"` + s + `\""}` }, func(d func(v interface{}) error) (func() string, error) {
			var r struct {
				A string
				B *string
				C string `json:",string"`
			}
			err := d(&r)
			return func() string { return r.A + "|" + *r.B + "|" + r.C }, err
		}, func(s string) string { return s + "|" + s + "|" + s }},
		{"bytes", func(s string) string { b, _ := json.Marshal([]byte(s)); return string(b) }, func(d func(v interface{}) error) (func() string, error) {
			var r []byte
			err := d(&r)
			return func() string { return string(r) }, err
		}, id},
		{"a text method's copy", q, func(d func(v interface{}) error) (func() string, error) {
			var r tpKey
			err := d(&r)
			return func() string { return r.s }, err
		}, id},
	}
	for _, t := range targets {
		t := t
		out = append(out, retained{t.name + " from bytes", func(n int, c byte) (func() string, string, func(), error) {
			s := retStr(n, c)
			data := []byte(t.text(s))
			get, err := t.dec(func(v interface{}) error { return jzon.Unmarshal(data, v) })
			return get, t.want(s), func() {
				for i := range data {
					data[i] = '~'
				}
			}, err
		}})
		for _, chunk := range []int{0, 500, 1000} {
			chunk := chunk
			out = append(out, retained{fmt.Sprintf("%s from a reader (%d)", t.name, chunk), func(n int, c byte) (func() string, string, func(), error) {
				s := retStr(n, c)
				dec := jzon.NewDecoder(retStream(t.text(s), chunk))
				get, err := t.dec(dec.Decode)
				return get, t.want(s), func() {
					var v interface{}
					dec.Decode(&v)
					dec.Decode(&v)
					dec.Release()
				}, err
			}})
		}
	}
	// the methods of the iterator
	type read struct {
		name string
		text func(s string) string
		f    func(it *jzon.Iterator) (func() string, error)
		want func(s string) string
	}
	fromB := func(b []byte, err error) (func() string, error) { return func() string { return string(b) }, err }
	reads := []read{
		{"ReadRaw", q, func(it *jzon.Iterator) (func() string, error) { return fromB(it.ReadRaw()) }, q},
		{"ReadRaw of an array", func(s string) string { return `[ "` + s + `" ]` }, func(it *jzon.Iterator) (func() string, error) { return fromB(it.ReadRaw()) }, func(s string) string { return `[ "` + s + `" ]` }},
		{"AppendRaw", q, func(it *jzon.Iterator) (func() string, error) { return fromB(it.AppendRaw([]byte("."))) }, func(s string) string { return `."` + s + `"` }},
		{"AppendRaw with room", q, func(it *jzon.Iterator) (func() string, error) { return fromB(it.AppendRaw(make([]byte, 0, 3000))) }, q},
		{"ReadString", q, func(it *jzon.Iterator) (func() string, error) {
			s, err := it.ReadString()
			return func() string { return s }, err
		}, id},
		{"ReadStringAndAppend", q, func(it *jzon.Iterator) (func() string, error) { return fromB(it.ReadStringAndAppend(nil)) }, id},
		{"ReadNumber", num, func(it *jzon.Iterator) (func() string, error) {
			s, err := it.ReadNumber()
			return func() string { return string(s.String()) }, err
		}, num},
		{"Read", q, func(it *jzon.Iterator) (func() string, error) {
			v, err := it.Read()
			return func() string { return fmt.Sprint(v) }, err
		}, id},
		{"ReadObjectCB keys", func(s string) string { return `{"` + s + `":1,"` + s + `\t":2}` }, func(it *jzon.Iterator) (func() string, error) {
			var l []string
			err := it.ReadObjectCB(func(it *jzon.Iterator, field string) error {
				l = append(l, field)
				return it.Skip()
			})
			return func() string { return strings.Join(l, "|") }, err
		}, func(s string) string { return s + "|" + s + "\t" }},
	}
	for _, r := range reads {
		r := r
		for _, chunk := range []int{-1, 0, 500, 1000} {
			chunk := chunk
			out = append(out, retained{fmt.Sprintf("%s (%d)", r.name, chunk), func(n int, c byte) (func() string, string, func(), error) {
				s := retStr(n, c)
				it := jzon.NewIterator()
				var data []byte
				if chunk < 0 {
					data = []byte(r.text(s) + " 1")
					it.ResetBytes(data)
				} else {
					it.Reset(retStream(r.text(s), chunk))
				}
				get, err := r.f(it)
				return get, r.want(s), func() {
					it.Skip()
					it.Skip()
					for i := range data {
						data[i] = '~'
					}
					it.Reset(newChunk([]byte(`["`+strings.Repeat("%", n+600)+`"]`), 700))
					it.ReadRaw()
					it.Reset(newChunk([]byte(`["`+strings.Repeat("^", n+600)+`\n"]`), 700))
					it.Read()
					it.Release()
				}, err
			}})
		}
	}
	return out
}

type tpKey struct{ s string }

func (t *tpKey) UnmarshalText(b []byte) error { t.s = string(b); return nil }

type uint8s []uint8

func (u uint8s) MarshalJSON() ([]byte, error) {
	l := make([]int, len(u))
	for i := range u {
		l[i] = int(u[i])
	}
	return jzon.Marshal(l)
}

func init() {
	kinds := retainedKinds()
	const blocks = 32
	e := &Engine{
		Name:      "retained results",
		Rule:      "results of every size and kind (encoded texts; strings, keys, raw messages, numbers, bytes, maps and structs decoded from slices and readers; iterator methods): after the caller's bytes are overwritten, the stream is read on, the object is used for other texts and given back, and the same operations were done again with other data of the same, a smaller and a larger size, the result still is what it was",
		Bounds:    fmt.Sprintf("%d kinds; sizes: all to 1100 (encoding: to 9000), then windows around 2^11..2^17 (thorough: all to 4200 and 70000)", len(kinds)),
		WholeUnit: true,
		Units:     func(bool) int { return len(kinds) * blocks },
		Run: func(w *W, unit int) {
			k := &kinds[unit/blocks]
			enc := strings.HasPrefix(k.name, "Marshal")
			limit := 1100
			if enc {
				limit = 9000
			}
			if w.Thorough {
				limit = 4200
				if enc {
					limit = 70000
				}
			}
			var sizes []int
			for n := 0; n <= limit; n++ {
				sizes = append(sizes, n)
			}
			for p := 11; p <= 17; p++ {
				for d := -3; d <= 3; d++ {
					if n := 1<<p + d; n > limit {
						sizes = append(sizes, n)
					}
				}
			}
			cases := 0
			for si := unit % blocks; si < len(sizes); si += blocks {
				n := sizes[si]
				if !w.Begin() {
					if w.Stop() {
						return
					}
					continue
				}
				desc := func() string { return fmt.Sprintf("%s, size %d", k.name, n) }
				w.Announce(desc)
				w.Sample(desc)
				w.States++
				w.Transitions += 4
				w.Nontrivial++
				if cases++; cases%8 == 0 || n > 8000 {
					gcAbove(200 << 20) // C19 runs without automatic collections
				}
				if err := retainedCase(k, n); err != nil {
					w.Fail(desc(), err)
					return
				}
			}
		},
	}
	addEngine("C15", e)
	e19 := *e
	addEngine("C19", &e19)
}

func retainedCase(k *retained, n int) (err error) {
	defer catch(&err)
	get, want, after, err := k.f(n, 'a')
	if err != nil {
		return err
	}
	if got := get(); got != want {
		return fmt.Errorf("%s, expected %s", clip(got, 300), clip(want, 300))
	}
	after()
	if got := get(); got != want {
		return fmt.Errorf("after going on: %s, was %s", clip(got, 300), clip(want, 300))
	}
	for i, m := range []int{n, n / 2, n + 40} {
		g2, w2, a2, err := k.f(m, 'b'+byte(i))
		if err != nil {
			return err
		}
		if got := g2(); got != w2 {
			return fmt.Errorf("again with size %d: %s, expected %s", m, clip(got, 300), clip(w2, 300))
		}
		a2()
		if got := get(); got != want {
			return fmt.Errorf("after the same with size %d: %s, was %s", m, clip(got, 300), clip(want, 300))
		}
	}
	return nil
}
