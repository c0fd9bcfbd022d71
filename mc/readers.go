package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"reflect"
	"strings"
	"testing/iotest"

	"github.com/zerosnake0/jzon"
)

// readers of all kinds that deliver the same bytes

type readerKind struct {
	name string
	// mk: the reader, and what it has not delivered yet
	mk func(data []byte) (io.Reader, func() string)
}

// scribbler uses all of the space it is given, as readers may
type scribbler struct {
	r *bytes.Reader
	n int
}

func (s scribbler) Read(p []byte) (int, error) {
	for i := 0; i < len(p) && i < s.n+4096; i++ { // the buffer may be megabytes after a large capture
		p[i] = "0]}\"x 1,"[i%8]
	}
	if len(p) > s.n {
		n, err := s.r.Read(p[:s.n])
		return n, err
	}
	return s.r.Read(p)
}

type funcReader func(p []byte) (int, error)

func (f funcReader) Read(p []byte) (int, error) { return f(p) }

// bufferLike has all methods of a buffer, but its own way to read
type bufferLike struct {
	*bytes.Buffer
	n int
}

func (b *bufferLike) Read(p []byte) (int, error) {
	if len(p) > b.n {
		p = p[:b.n]
	}
	return b.Buffer.Read(p)
}

func restOf(r *bytes.Reader) func() string {
	return func() string {
		b := make([]byte, r.Len())
		r.ReadAt(b, r.Size()-int64(r.Len()))
		return string(b)
	}
}

func readerKinds() []readerKind {
	wrap := func(f func(r *bytes.Reader) io.Reader) func([]byte) (io.Reader, func() string) {
		return func(data []byte) (io.Reader, func() string) {
			r := bytes.NewReader(data)
			return f(r), restOf(r)
		}
	}
	const junk = `["junk",0]`
	return []readerKind{
		{"bytes.Reader", wrap(func(r *bytes.Reader) io.Reader { return r })},
		{"bytes.Reader, partly read", func(data []byte) (io.Reader, func() string) {
			r := bytes.NewReader(append([]byte(junk), data...))
			r.Seek(int64(len(junk)), io.SeekStart)
			return r, restOf(r)
		}},
		{"strings.Reader", func(data []byte) (io.Reader, func() string) {
			r := strings.NewReader(string(data))
			return r, func() string {
				b := make([]byte, r.Len())
				r.ReadAt(b, r.Size()-int64(r.Len()))
				return string(b)
			}
		}},
		{"bytes.Buffer", func(data []byte) (io.Reader, func() string) {
			return bytes.NewBuffer(data), func() string { return "" }
		}},
		{"bytes.Buffer, partly read, with room", func(data []byte) (io.Reader, func() string) {
			var b bytes.Buffer
			b.WriteString(junk)
			b.Write(data)
			b.WriteString(junk)
			b.Next(len(junk))
			b.Truncate(len(data))
			return &b, func() string { return "" }
		}},
		{"buffer-like", func(data []byte) (io.Reader, func() string) {
			b := &bufferLike{bytes.NewBuffer(data), 5}
			return b, func() string { return b.String() }
		}},
		{"bufio.Reader", func(data []byte) (io.Reader, func() string) {
			u := bytes.NewReader(data)
			r := bufio.NewReaderSize(u, 16)
			return r, func() string {
				p, _ := r.Peek(r.Buffered())
				return string(p) + restOf(u)()
			}
		}},
		{"bufio.Reader, peeked", func(data []byte) (io.Reader, func() string) {
			u := bytes.NewReader(data)
			r := bufio.NewReaderSize(u, 64)
			r.Peek(3)
			return r, func() string {
				p, _ := r.Peek(r.Buffered())
				return string(p) + restOf(u)()
			}
		}},
		{"io.LimitedReader", func(data []byte) (io.Reader, func() string) {
			r := bytes.NewReader(append(append([]byte{}, data...), junk...))
			return io.LimitReader(r, int64(len(data))), func() string {
				s := restOf(r)()
				return s[:len(s)-len(junk)]
			}
		}},
		{"io.SectionReader", func(data []byte) (io.Reader, func() string) {
			all := junk + string(data) + junk
			r := io.NewSectionReader(strings.NewReader(all), int64(len(junk)), int64(len(data)))
			return r, func() string {
				off, _ := r.Seek(0, io.SeekCurrent)
				return string(data[off:])
			}
		}},
		{"io.MultiReader", func(data []byte) (io.Reader, func() string) {
			k := len(data) / 3
			a, b, c := bytes.NewReader(data[:k]), bytes.NewReader(data[k:2*k]), bytes.NewReader(data[2*k:])
			return io.MultiReader(a, b, strings.NewReader(""), c), func() string { return restOf(a)() + restOf(b)() + restOf(c)() }
		}},
		{"io.TeeReader", wrap(func(r *bytes.Reader) io.Reader { return io.TeeReader(r, &bytes.Buffer{}) })},
		{"one byte", wrap(func(r *bytes.Reader) io.Reader { return iotest.OneByteReader(r) })},
		{"half", wrap(func(r *bytes.Reader) io.Reader { return iotest.HalfReader(r) })},
		{"scribbler 1", wrap(func(r *bytes.Reader) io.Reader { return scribbler{r, 1} })},
		{"scribbler 3", wrap(func(r *bytes.Reader) io.Reader { return scribbler{r, 3} })},
		{"scribbler 64", wrap(func(r *bytes.Reader) io.Reader { return scribbler{r, 64} })},
		{"scribbler 509", wrap(func(r *bytes.Reader) io.Reader { return scribbler{r, 509} })},
		{"function", wrap(func(r *bytes.Reader) io.Reader { return funcReader(r.Read) })},
	}
}

func init() {
	kinds := readerKinds()
	docs := append(append([]string{}, c06Short...), c06Long()...)
	docs = append(docs, c06Huge()...)
	addEngine("C06", &Engine{
		Name:   "reader kinds",
		Rule:   "every document x every operation x every kind of reader (of the standard library, partly used ones, look-alikes, ones that scribble over the space they are given): same value, acceptance and position as from one slice; what was read does not change when the source is overwritten afterwards, and the source is not changed",
		Bounds: fmt.Sprintf("%d documents to 2.4 KB, %d operations, %d kinds of reader", len(docs), len(itOps), len(kinds)),
		Units:  func(bool) int { return len(docs) },
		Run: func(w *W, unit int) {
			doc := docs[unit]
			for _, op := range itOps {
				ref := opOnBytes(op, []byte(doc))
				w.States++
				for _, k := range kinds {
					if w.Stop() {
						return
					}
					if !w.Begin() {
						continue
					}
					desc := func() string { return fmt.Sprintf("%s on %q through %s", op.name, clip(doc, 1500), k.name) }
					w.Announce(desc)
					w.Sample(desc)
					w.Transitions++
					data := []byte(doc)
					r, unread := k.mk(data)
					it := jzon.NewIterator()
					it.Reset(r)
					o := runOp(it, op)
					o.rest = string(it.Buffer()) + unread()
					it.Release()
					if string(data) != doc {
						w.Fail(desc(), fmt.Errorf("the source was changed to %q", clip(string(data), 200)))
						return
					}
					for i := range data {
						data[i] = '#'
					}
					if ref.err == nil {
						w.Nontrivial++
					}
					if err := sameOp(ref, o); err != nil {
						w.Fail(desc(), err)
						return
					}
				}
			}
			// and the entry point, into every type
			for _, t := range decodeTypes() {
				a := reflect.New(t.T)
				var e1 error
				func() {
					defer catch(&e1)
					e1 = jzon.Unmarshal([]byte(doc), a.Interface())
				}()
				w.States++
				for _, k := range kinds {
					if w.Stop() {
						return
					}
					if !w.Begin() {
						continue
					}
					desc := func() string { return fmt.Sprintf("%s from %q through %s", t.Name, clip(doc, 1500), k.name) }
					w.Announce(desc)
					w.Transitions++
					b := reflect.New(t.T)
					var e2 error
					data := []byte(doc)
					func() {
						defer catch(&e2)
						r, _ := k.mk(data)
						e2 = jzon.UnmarshalFromReader(r, b.Interface())
					}()
					for i := range data {
						data[i] = '#'
					}
					if (e1 == nil) != (e2 == nil) {
						w.Fail(desc(), fmt.Errorf("slice error %v, reader error %v", e1, e2))
						return
					}
					if e1 == nil {
						w.Nontrivial++
						if !eqv(a, b, 0) {
							w.Fail(desc(), fmt.Errorf("slice %s, reader %s", show(a.Interface()), show(b.Interface())))
							return
						}
					}
				}
			}
		},
	})

	addEngine("C07", &Engine{
		Name:   "reader kinds",
		Rule:   "streams of two values with every separator, short and longer than the buffers, and with a malformed tail x every kind of reader x every pattern of More, InputOffset and Buffered: values, order, end, offsets and remainders as the model says",
		Bounds: fmt.Sprintf("10 values squared, 4 separators, %d kinds of reader, %d patterns", len(kinds), len(c07Gaps)),
		Units:  func(bool) int { return len(c07Vals) * len(c07Vals) },
		Run: func(w *W, unit int) {
			a, b := c07Vals[unit/len(c07Vals)], c07Vals[unit%len(c07Vals)]
			var ss []stream
			for _, sep := range c07Seps {
				if sep == "" && !selfDelim(a, b) {
					continue
				}
				ss = append(ss, mkStream([]string{a, b}, []string{sep, sep, sep}, ""))
			}
			long := `"` + longStr(70) + `"`
			ss = append(ss, mkStream([]string{a, long, b, long, a}, []string{"", " ", "\n", "", "", " "}, ""),
				mkStream([]string{a, b}, []string{strings.Repeat(" ", 60), strings.Repeat("\n", 450), " "}, ""),
				mkStream([]string{a, b}, []string{"", " ", " "}, "tru"),
				mkStream([]string{a, b}, []string{"", " ", " "}, "]"))
			for si := range ss {
				s := &ss[si]
				for gi, g := range c07Gaps {
					var seq []int
					for k := 0; k <= len(s.vals); k++ {
						seq = append(seq, g...)
						seq = append(seq, []int{opDecAny, opDecRaw}[(k+gi)%2])
					}
					seq = append(seq, opMore, opDecAny, opDecInt)
					for _, k := range kinds {
						if w.Stop() {
							return
						}
						if !w.Begin() {
							continue
						}
						desc := func() string {
							return fmt.Sprintf("stream %q through %s: %s", clip(s.text, 1000), k.name, seqName(seq))
						}
						w.Announce(desc)
						w.Sample(desc)
						w.States++
						w.Nontrivial++
						w.Transitions += int64(len(seq))
						r, unread := k.mk([]byte(s.text))
						if err := runStreamOn(s, r, unread, seq); err != nil {
							w.Fail(desc(), err)
							return
						}
					}
				}
			}
		},
	})
}
