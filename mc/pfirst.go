//go:build mcsched

package main

import (
	"fmt"
	"reflect"

	"github.com/zerosnake0/jzon"
)

// C16: two goroutines which use one type for the first time, with members of
// every spelling, so that anything a decoder or an encoder of a type puts off
// until it is needed is needed by both.

func firstGroups() [][]cacheOp {
	type many struct {
		A, B, C, D, E, F, G, H, I, J, K, L int `json:",omitempty"`
	}
	type quoted struct {
		A *int    `json:"a,string"`
		B string  `json:"<b>,string,omitempty"`
		C float64 `json:",string"`
	}
	type iface struct {
		A interface{}
		B Shaper
		C *many
	}
	members := []string{`{"a":1}`, `{"A":1,"b":2,"zz":[1]}`, `{"F3":1,"f3":2}`, `{"zz":{"a":1}}`, `{}`, `null`, `{"L":1,"\u006b":2,"\u212a":3}`}
	var out [][]cacheOp
	for _, g := range []struct {
		vals  []interface{}
		texts []string
	}{
		{[]interface{}{many{}, many{A: 1, L: 2}}, members},
		{[]interface{}{S11{F3: 1}}, members},
		{[]interface{}{S2{1, "<"}}, members},
		{[]interface{}{S1{1}}, members},
		{[]interface{}{S20{K: 1}}, members},
		{[]interface{}{WithEmb{}, WithEmb{EmbP: &EmbP{}}}, append([]string{`{"e":1,"P":2,"q":"x"}`, `{"E":1}`}, members...)},
		{[]interface{}{quoted{}, quoted{A: new(int), B: "<"}}, []string{`{"a":"1","<B>":"\"q\""}`, `{"c":"2.5"}`, `{"A":"null","C":"1"}`, `{"a":1}`, `{"q":1}`}},
		{[]interface{}{iface{}, iface{A: []interface{}{1, "x"}, B: &Sq{1}, C: &many{B: 1}}}, []string{`{"a":[1,{"b":2}],"c":{"l":1}}`, `{"b":1}`, `{"B":null,"C":{"zz":1}}`}},
		{[]interface{}{map[string]many{"x": {}}}, []string{`{"x":{"a":1}}`, `{"X":{"zz":1,"k":1}}`, `{}`}},
		{[]interface{}{map[int16]string{3: "x"}}, []string{`{"3":"<"}`, `{"x":"y"}`, `{"-7":null}`}},
		{[]interface{}{map[TextInt]*S11{1: {}}}, []string{`{"t<1>":{"f3":1}}`, `{"t<1>":null}`}},
		{[]interface{}{[]many{{A: 1}, {}}}, []string{`[{"a":1},{"zz":1}]`, `[]`, `[null]`}},
		{[]interface{}{[2][]byte{{1}, nil}}, []string{`["AQ==",null]`, `[[1,2]]`}},
		{[]interface{}{[]interface{}{1.5, "x", map[string]interface{}{"a": nil}}}, []string{`[1,"x",{"a":null}]`, `["y",[],{}]`}},
	} {
		var ops []cacheOp
		for i, v := range g.vals {
			ops = append(ops, encOp(fmt.Sprintf("%T %d", v, i), v))
		}
		t := reflect.TypeOf(g.vals[0])
		for _, text := range g.texts {
			text := []byte(text)
			ops = append(ops, cacheOp{fmt.Sprintf("Unmarshal %s %s", clip(t.String(), 60), text), func(ec *jzon.EncoderConfig, dc *jzon.DecoderConfig) string {
				p := reflect.New(t)
				if e := dc.Unmarshal(text, p.Interface()); e != nil {
					return outErr(e)
				}
				return deep(p.Interface())
			}})
		}
		out = append(out, ops)
	}
	return out
}

func init() {
	addEngine("C16", &Engine{
		Name:   "members, first use",
		Rule:   "every schedule within the preemption bound of two goroutines which use the same type for the first time on one fresh pair of configurations, each with one or two values or documents (known, differently cased, escaped, unknown, repeated and no members): each result equals the result on a configuration of its own, no data race",
		Bounds: fmt.Sprintf("%d types, all pairs of their values and documents, and one goroutine using both beside another using one; preemption bound 2 (thorough 4)", len(firstGroups())), Workers: 1, WholeUnit: true,
		Units: func(bool) int { return len(firstGroups()) * 12 },
		Run: func(w *W, unit int) {
			ops := firstGroups()[unit/12]
			exp := cacheExp(ops)
			b := 2
			if w.Thorough {
				b = 4
			}
			for i := unit % 12; i < len(ops); i += 12 {
				for j := range ops {
					for _, seqs := range [][][]int{{{i}, {j}}, {{i, j}, {j}}} {
						if len(seqs[0]) == 1 && j < i {
							continue
						}
						seqs := seqs
						if !explore(w, b, cacheDesc(ops, seqs), func() ([]func(), func() error) { return cacheTasks(ops, exp, seqs) }) {
							return
						}
					}
				}
			}
		},
	})
}
