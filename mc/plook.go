package main

import (
	"fmt"

	"github.com/zerosnake0/jzon"
)

// C08: a stream is looked at (More, Buffered, InputOffset, NextValueType)
// between the reads while its reader fails for ever from some byte on.

var lookStreams = []string{"", "1 ", "1", "12 34 ", `"a" [1,2] `, "{}[]\n", "null true ", " \n", `[{"a":1}] 5 `, "-0.5e1 x"}

var lookCalls = []struct {
	name string
	dec  func(d *jzon.Decoder)
	it   func(it *jzon.Iterator)
}{
	{"nothing", func(*jzon.Decoder) {}, func(*jzon.Iterator) {}},
	{"More, NextValueType", func(d *jzon.Decoder) { d.More() }, func(it *jzon.Iterator) { it.NextValueType() }},
	{"twice", func(d *jzon.Decoder) { d.More(); d.More() }, func(it *jzon.Iterator) { it.NextValueType(); it.NextValueType() }},
	{"Buffered, Buffer", func(d *jzon.Decoder) { d.Buffered() }, func(it *jzon.Iterator) { it.Buffer() }},
	{"InputOffset, More, Buffered", func(d *jzon.Decoder) { d.InputOffset(); d.More(); d.Buffered() }, func(it *jzon.Iterator) { it.Buffer(); it.NextValueType(); it.Buffer() }},
}

var lookIter = []struct {
	name string
	f    func(it *jzon.Iterator) error
}{
	{"Skip", func(it *jzon.Iterator) error { return it.Skip() }},
	{"Read", func(it *jzon.Iterator) error { _, err := it.Read(); return err }},
	{"ReadRaw", func(it *jzon.Iterator) error { _, err := it.ReadRaw(); return err }},
	{"ReadVal", func(it *jzon.Iterator) error { var v interface{}; return it.ReadVal(&v) }},
}

func init() {
	addEngine("C08", &Engine{
		Name:   "looks",
		Rule:   "every stream x every fault position x {after the data, with the data} x read size x what is called before each read (More, Buffered, InputOffset, NextValueType, twice) x decoder and iterator reads: the reader which fails for ever is reported, never as the end of the stream, and is reported again by the next read",
		Bounds: fmt.Sprintf("%d streams, reads of 1, 2, 3 and 64 bytes, %d kinds of looks, 5 kinds of reads", len(lookStreams), len(lookCalls)),
		Units:  func(bool) int { return len(lookStreams) },
		Run: func(w *W, unit int) {
			text := lookStreams[unit]
			for k := 0; k <= len(text); k++ {
				for _, chunk := range []int{1, 2, 3, 64} {
					for mode := 0; mode < 2; mode++ {
						for li := range lookCalls {
							for ri := -1; ri < len(lookIter); ri++ {
								if !w.Begin() {
									if w.Stop() {
										return
									}
									continue
								}
								name := "Decode"
								if ri >= 0 {
									name = lookIter[ri].name
								}
								desc := func() string {
									return fmt.Sprintf("%q failing after %d bytes (with data: %v), reads of %d, %s before each %s", text, k, mode == 1, chunk, lookCalls[li].name, name)
								}
								w.Announce(desc)
								w.Sample(desc)
								w.States++
								w.Transitions++
								w.Nontrivial++
								if err := lookCase(text, k, chunk, mode == 1, li, ri); err != nil {
									w.Fail(desc(), err)
									return
								}
							}
						}
					}
				}
			}
		},
	})
}

func lookCase(text string, k, chunk int, with bool, li, ri int) (err error) {
	defer catch(&err)
	r := newChunk([]byte(text), chunk)
	r.failAt, r.failWith, r.err = k, with, errFault
	var read func() error
	var look func()
	if ri < 0 {
		d := jzon.NewDecoder(r)
		defer d.Release()
		read = func() error { var v interface{}; return d.Decode(&v) }
		look = func() { lookCalls[li].dec(d) }
	} else {
		it := jzon.NewIterator()
		defer it.Release()
		it.Reset(r)
		read = func() error { return lookIter[ri].f(it) }
		look = func() { lookCalls[li].it(it) }
	}
	for n := 0; n < 20; n++ {
		look()
		e := read()
		if e == nil {
			continue
		}
		if k == len(text) && k > 0 && text[k-1] == 'x' && !seen(e, errFault) {
			return nil // the malformed value may be reported first
		}
		if !seen(e, errFault) {
			return fmt.Errorf("read %d: %v", n+1, e)
		}
		look()
		if e = read(); ri < 0 && (e == nil || !seen(e, errFault)) {
			return fmt.Errorf("the read after the failure: %v", e)
		}
		return nil
	}
	return fmt.Errorf("the failure of the reader is never reported")
}
