#!/usr/bin/env python3
"""Generates mc/c20types.go: hook methods on every kind of type."""
kinds = [("Int","int"),("Str","string"),("Byte","uint8"),("Bool","bool"),("F64","float64"),("Struct","struct {\n\tA int\n\tB string\n}"),
 ("One","struct{ A int }"),("PS","struct{ P *int }"),("Map","map[string]int"),("Slice","[]int"),("Arr","[2]int"),("PArr","[1]*int"),("Empty","struct{}"),("Chan","chan int"),
 ("ZArr","[0]int"),("ZPArr","[0]*int"),("I16","int16"),("U32","uint32"),("F32","float32"),
 ("I8","int8"),("I32","int32"),("I64","int64"),("U","uint"),("U16","uint16"),("U64","uint64"),("Uptr","uintptr"),("C128","complex128"),
 ("Bytes","[]byte"),("IMap","map[int]*int"),("Arr1","[1]int"),("SPS","struct{ P struct{ Q *int } }"),("AS","[1]struct{ P *int }"),("SM","struct{ M map[string]int }"),
 ("PSlice","[]*int"),("SS","[]struct{ A, B string }"),("Wide","struct {\n\tA []int\n\tB *string\n\tC [3]string\n}"),("Zero","struct {\n\t_ struct{}\n\tP *int\n}")]
flav = {"VJ":("v","",),"PJ":("p",""),"VT":("","v"),"PT":("","p"),"VB":("v","v"),"TJ":("p","v"),"NN":("","")}
o = ["// Code generated by tools/gen_c20.py; DO NOT EDIT.", "", "package main", "", "import \"reflect\"", "", "var c20Bases = []c20Base{"]
body = []
for k, t in kinds:
    for f, (j, x) in flav.items():
        n = f"H{k}{f}"
        body.append(f"type {n} {t}\n")
        if j:
            r = "x " + ("*" if j == "p" else "") + n
            d = "*x" if j == "p" else "x"
            body.append(f'func ({r}) MarshalJSON() ([]byte, error) {{ return c20Enc("{n}", "json", {d}) }}\nfunc (x *{n}) UnmarshalJSON(b []byte) error {{ return c20Dec("{n}", "json", reflect.ValueOf(x).Elem(), b) }}\n')
        if x:
            r = "x " + ("*" if x == "p" else "") + n
            d = "*x" if x == "p" else "x"
            body.append(f'func ({r}) MarshalText() ([]byte, error) {{ return c20Enc("{n}", "text", {d}) }}\nfunc (x *{n}) UnmarshalText(b []byte) error {{ return c20Dec("{n}", "text", reflect.ValueOf(x).Elem(), b) }}\n')
        if f == "NN":
            o.append(f'\t{{rt[{n}](), nil, nil, nil, "{f}", "{k}"}},')
            continue
        body.append(f"type E{n} struct {{\n\t{n}\n\tZ int\n}}\ntype P{n} struct {{\n\t*{n}\n\tZ int\n}}\ntype N{n} *{n}\n")
        o.append(f'\t{{rt[{n}](), rt[E{n}](), rt[P{n}](), rt[N{n}](), "{f}", "{k}"}},')
o.append("}\n")
import os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc", "c20types.go")
open(p, "w").write("\n".join(o) + "\n" + "\n".join(body))
import subprocess
subprocess.run(["gofmt", "-w", p], check=True)
