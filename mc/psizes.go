//go:build mcsched

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/zerosnake0/jzon"
)

// C16: goroutines which use the same types with values of different sizes, so
// that anything learnt from a size and kept for the next use is shared.

var concSizes = []int{1, 40, 300, 1200}

func concFams() []largeFam {
	type wide struct {
		A string `json:"a,omitempty"`
		B map[string]string
		C interface{} `json:"c"`
		D *S2
	}
	mk := func(n int) wide {
		return wide{longStr(n), map[string]string{longStr(n / 2): longStr(n)}, []interface{}{longStr(n), float64(n)}, &S2{n, longStr(n)}}
	}
	return append([]largeFam{
		{"S2", func(n int) interface{} { return S2{n, longStr(n)} }},
		{"*S2", func(n int) interface{} { return &S2{n, longStr(n)} }},
		{"wide", func(n int) interface{} { return mk(n) }},
		{"[]*wide", func(n int) interface{} { a, b := mk(n), mk(n/3); return []*wide{&a, nil, &b} }},
		{"map[string]wide", func(n int) interface{} { return map[string]wide{"k": mk(n), longStr(n): mk(1)} }},
		{"[2]*S2", func(n int) interface{} { return [2]*S2{{n, longStr(n)}, nil} }},
		{"JSONStruct", func(n int) interface{} { return JSONStruct{longStr(n)} }},
		{"[]json.RawMessage long", func(n int) interface{} {
			return []json.RawMessage{json.RawMessage(`"` + longStr(n) + `"`), json.RawMessage("[ ]")}
		}},
		{"recNode", func(n int) interface{} {
			r := &recNode{V: 1}
			for i := 0; i < n/4; i++ {
				r = &recNode{V: i, Next: r, Kids: make([]recNode, i%3)}
			}
			return r
		}},
	}, largeFams...)
}

func concUses(f largeFam) []cacheOp {
	var out []cacheOp
	sizes := concSizes
	switch {
	case strings.Contains(f.name, "JSONStruct") || strings.Contains(f.name, "TextInt"):
		// every hook call is a choice point
		sizes = []int{1, 4, 12}
	case (strings.HasPrefix(f.name, "[") || strings.HasPrefix(f.name, "map") || strings.HasPrefix(f.name, "interface{}")) && !strings.Contains(f.name, "wide"):
		sizes = []int{1, 9, 40}
	case f.name == "recNode":
		sizes = []int{1, 40, 160}
	}
	for _, n := range sizes {
		n, v := n, f.mk(n)
		t := reflect.TypeOf(v)
		text, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		out = append(out,
			cacheOp{fmt.Sprintf("Marshal %s of %d", f.name, n), func(ec *jzon.EncoderConfig, dc *jzon.DecoderConfig) string {
				b, e := ec.Marshal(v)
				c, ok := jcanon(b)
				if e == nil && !ok {
					return fmt.Sprintf("malformed %q", b)
				}
				return c + outErr(e)
			}},
			cacheOp{fmt.Sprintf("stream %s of %d", f.name, n), func(ec *jzon.EncoderConfig, dc *jzon.DecoderConfig) string {
				bb := &bytes.Buffer{}
				s := ec.NewStreamer()
				defer s.Release()
				s.Reset(bb)
				s.ArrayStart().Value(v).Value(v).ArrayEnd()
				e := s.Flush()
				c, ok := jcanon(bb.Bytes())
				if e == nil && !ok {
					return fmt.Sprintf("malformed %q", bb.Bytes())
				}
				return c + outErr(e)
			}},
			cacheOp{fmt.Sprintf("Unmarshal %s of %d", f.name, n), func(ec *jzon.EncoderConfig, dc *jzon.DecoderConfig) string {
				p := reflect.New(t)
				if e := dc.Unmarshal(text, p.Interface()); e != nil {
					return outErr(e)
				}
				return deep(p.Interface())
			}},
			cacheOp{fmt.Sprintf("read %s of %d", f.name, n), func(ec *jzon.EncoderConfig, dc *jzon.DecoderConfig) string {
				p := reflect.New(t)
				d := dc.NewDecoder(newChunk(text, 100))
				defer d.Release()
				if e := d.Decode(p.Interface()); e != nil {
					return outErr(e)
				}
				return deep(p.Interface())
			}},
			cacheOp{fmt.Sprintf("read anything, %s of %d", f.name, n), func(ec *jzon.EncoderConfig, dc *jzon.DecoderConfig) string {
				it := dc.NewIterator()
				defer it.Release()
				it.ResetBytes(text)
				x, e := it.Read()
				if e != nil {
					return outErr(e)
				}
				return deep(x)
			}})
	}
	return out
}

func init() {
	const kinds = 5
	addEngine("C16", &Engine{
		Name:   "sizes",
		Rule:   "every schedule within the preemption bound of two goroutines which share one fresh pair of configurations and encode, stream, decode or read values of the same type of the same and of different sizes, in either order: each result equals the result on a configuration of its own, no data race",
		Bounds: fmt.Sprintf("%d types x 5 kinds of use x sequences of 2 sizes of %v (elements: 1, 9, 40; hooks: 1, 4, 12) beside 2 others; preemption bound 1 (thorough 2)", len(concFams()), concSizes), Workers: 1, WholeUnit: true,
		Units: func(bool) int { return len(concFams()) * kinds },
		Run: func(w *W, unit int) {
			f := concFams()[unit/kinds]
			all := concUses(f)
			var ops []cacheOp
			for i := unit % kinds; i < len(all); i += kinds {
				ops = append(ops, all[i])
			}
			exp := cacheExp(ops)
			b := 1
			if w.Thorough {
				b = 2
			}
			n := len(ops)
			for i := 0; i < n; i++ {
				for k := i; k < n; k++ {
					for j, seqs := range [][][]int{{{i, k}, {i, k}}, {{i, k}, {k, i}}, {{k, i}, {k, i}}} {
						if j == 2 && !w.Thorough {
							break
						}
						seqs := seqs
						if !explore(w, b, cacheDesc(ops, seqs), func() ([]func(), func() error) { return cacheTasks(ops, exp, seqs) }) {
							return
						}
					}
				}
			}
		},
	})
}
