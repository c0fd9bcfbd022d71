package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"

	"github.com/zerosnake0/jzon"
)

var scalarTexts = []string{
	"null", "true", "false", "0", "-0", "1", "-1", "7", "12", "127", "128", "-128", "-129", "255", "256", "300", "999", "1000", "32767", "32768", "-32768", "-32769", "65535", "65536",
	"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "100000000000000000000",
	"0.0", "1.5", "-2.25", "1e0", "1e2", "1E-2", "1e400", "3.4e38", "3.5e38", "0.1", "1.0",
	`""`, `"a"`, `"1"`, `"-1"`, `"1.5"`, `"true"`, `"null"`, `"\"q\""`, `"AQID"`, `"A\/AA"`, `"t<5>"`, `"\u0041\n"`, `"é"`, `"\ud83d\ude00"`, `"\ud800"`, `" 1"`, `"01"`,
}

func calibTexts() []string {
	out := append([]string{}, scalarTexts...)
	el := []string{"null", "1", "-1", "300", "1.5", `"a"`, `"1"`, "true", "[1]", `{"A":1}`, "[]", "{}", `"AQID"`}
	out = append(out, "[]", "{}", " [ ] ", " { } ")
	for _, a := range el {
		out = append(out, "["+a+"]")
		for _, b := range el {
			out = append(out, "["+a+", "+b+"]")
		}
	}
	out = append(out, "[1,2,3]", "[1,2,3,4]", "[[1,2,3],[4],[5]]", "[null,null,null,null]")
	keys := []string{`"A"`, `"a"`, `"b"`, `"B"`, `"X"`, `"x"`, `"e"`, `"v"`, `"i"`, `"1"`, `"-1"`, `"300"`, `"F10"`, `"f3"`, `"u8"`, `"i8"`, `"p"`, `"P"`, `"Q"`, `"U"`, `"D"`, `"OnlyA"`, `"s"`, `"l"`, `"m"`, `"f"`, `""`, `"t<3>"`, `"emb"`, `"é"`, `"É"`, `"ſ"`, `"K"`, `"n"`, `"j"`, `"raw"`, `"pt"`, `"pp"`, `"name"`, `"NAME"`, `"-"`, `"d d"`, `"<h>"`, `"t"`, `"me"`, `"mi"`, `"any"`, `"kids"`, `"f32"`, `"y"`}
	vals := append([]string{}, el...)
	vals = append(vals, `"2"`, `"1.5"`, `"true"`, `"\"z\""`, `{"a":{"v":1}}`, `{"v":1,"kids":[{"v":2}]}`, `"t<9>"`, "0")
	for _, k := range keys {
		for _, v := range vals {
			out = append(out, "{"+k+":"+v+"}")
		}
	}
	for _, k := range keys[:12] {
		for _, k2 := range keys[:24] {
			out = append(out, "{"+k+":1,"+k2+":2}", "{"+k+`:"a","zzz":[1,{"q":2}], `+k2+":null}")
		}
	}
	return out
}

func calib() {
	texts := calibTexts()
	ts := decodeTypes()
	type key struct{ typ, kind string }
	ex := map[key][]string{}
	n := 0
	for _, t := range ts {
		fs := append([]func() reflect.Value{func() reflect.Value { return reflect.New(t.T) }}, t.Pre...)
		for fi, f := range fs {
			for _, s := range texts {
				a, b := f(), f()
				var err error
				func() {
					defer catch(&err)
					err = jzon.Unmarshal([]byte(s), a.Interface())
				}()
				e2 := json.Unmarshal([]byte(s), b.Interface())
				n++
				k := ""
				switch {
				case err == nil && e2 != nil:
					k = "lenient"
				case err != nil && e2 == nil:
					k = "strict"
				case err == nil && !reflect.DeepEqual(a.Interface(), b.Interface()):
					k = "value"
				}
				if err != nil && len(err.Error()) > 5 && err.Error()[:5] == "panic" {
					k = "panic"
				}
				if k != "" {
					kk := key{fmt.Sprintf("%s/%d", t.Name, fi), k}
					ex[kk] = append(ex[kk], fmt.Sprintf("%s => %v %v | %v %v", s, a.Elem(), err, b.Elem(), e2))
				}
			}
		}
	}
	var ks []key
	for k := range ex {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	for _, k := range ks {
		fmt.Println("##", k, len(ex[k]))
		for i, s := range ex[k] {
			if i < 4 {
				fmt.Println("   ", clip(s, 250))
			}
		}
	}
	fmt.Println(n)
}
