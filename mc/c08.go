package main

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/zerosnake0/jzon"
)

// C08: faults of the input reader.

type readerFault struct{ id string }

func (e *readerFault) Error() string { return "injected-reader-fault-" + e.id }

var errFault error = &readerFault{"zq7"}

// seen: the injected error can be recognised from e
func seen(e, inj error) bool {
	return e == inj || errors.Is(e, inj) || strings.Contains(e.Error(), inj.Error())
}

// end of the value in the document when the operation succeeds on the slice
type c08Ref struct {
	full opResult
	end  int
}

func c08Fault(w *W, op itOp, ref c08Ref, doc []byte, k int, chunk int, empties int, with, once bool) bool {
	return c08FaultOf(w, op, ref, doc, k, chunk, empties, with, once, errFault)
}

func c08FaultOf(w *W, op itOp, ref c08Ref, doc []byte, k int, chunk int, empties int, with, once bool, inj error) bool {
	if !w.Begin() {
		return !w.Stop()
	}
	desc := func() string {
		s := fmt.Sprintf("%s on %q, reads of %d bytes, %d empty reads, fault after %d bytes (together with data: %v, only once: %v)", op.name, clip(string(doc), 1500), chunk, empties, k, with, once)
		if inj != errFault {
			s += fmt.Sprintf(", %T %v", inj, inj)
		}
		return s
	}
	w.Announce(desc)
	w.Transitions++
	r := newChunk(doc, chunk)
	r.failAt, r.failWith, r.err, r.empties, r.failOnce = k, with, inj, empties, once
	got := opOnReader(op, r)
	err := func() error {
		if _, ok := got.err.(panicErr); ok {
			return got.err
		}
		if r.after > 1 && !once {
			return fmt.Errorf("the failing reader was read %d times", r.after)
		}
		if got.err == nil {
			// success: everything the value needs was delivered
			if ref.full.err != nil {
				return fmt.Errorf("succeeds with %s, but the whole document gives %v", show(got.val), ref.full.err)
			}
			if ref.end > k {
				return fmt.Errorf("reported as decoded (%s) although only %d of %d bytes arrived", show(got.val), k, ref.end)
			}
			if !eq(got.val, ref.full.val) {
				return fmt.Errorf("value %s, want %s", show(got.val), show(ref.full.val))
			}
			return nil
		}
		if ref.full.err != nil {
			return nil
		}
		w.Nontrivial++
		// the document is fine for this operation: only the fault can be the reason
		if !recognisable(got.err, inj) {
			return fmt.Errorf("the reader's error was replaced by %v", got.err)
		}
		if ref.end < k && !with {
			return fmt.Errorf("fails with %v although the value had arrived", got.err)
		}
		return nil
	}()
	if err != nil {
		w.Fail(desc(), err)
		return false
	}
	return true
}

func c08Docs() []string {
	docs := append([]string{}, c06Short...)
	return append(docs, c06Long()[:6]...)
}

// entry points which read a whole document
type c08Entry struct {
	name string
	f    func(r io.Reader, p interface{}) error
}

var c08Entries = []c08Entry{
	{"UnmarshalFromReader", func(r io.Reader, p interface{}) error { return jzon.UnmarshalFromReader(r, p) }},
	{"DecoderConfig.UnmarshalFromReader", func(r io.Reader, p interface{}) error { return numberCfg.UnmarshalFromReader(r, p) }},
	{"Decoder.Decode", func(r io.Reader, p interface{}) error {
		d := jzon.NewDecoder(r)
		defer d.Release()
		err := d.Decode(p)
		if err != nil {
			// the failure is final
			if e2 := d.Decode(p); e2 == nil {
				return errors.New("second Decode succeeds after " + err.Error())
			}
			if d.More() {
				return errors.New("More reports true after " + err.Error())
			}
		}
		return err
	}},
	{"Iterator.ReadVal", func(r io.Reader, p interface{}) error {
		it := jzon.NewIterator()
		defer it.Release()
		it.Reset(r)
		return it.ReadVal(p)
	}},
}

func init() {
	register(&Property{ID: "C08", Level: "fault_enumeration", Engines: []*Engine{
		{
			Name:   "operations",
			Rule:   "every document x every iterator operation x every byte position at which the reader fails x chunk size x {error after the data, error together with the data} x {the reader keeps failing, the reader recovers} x empty reads; non-trivial = the document is accepted and the fault must be the reported reason",
			Bounds: "all positions of 90 documents to 190 bytes, chunk sizes 1, 2, 5, 64 and whole; thorough: 1..20",
			Units:  func(bool) int { return len(c08Docs()) },
			Run: func(w *W, unit int) {
				doc := []byte(c08Docs()[unit])
				chunks := []int{1, 2, 5, 64, 4096}
				if w.Thorough {
					chunks = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 16, 17, 20, 31, 63, 64, 65, 128, 4096}
				}
				for _, op := range itOps {
					ref := c08Ref{full: opOnBytes(op, doc)}
					ref.end = len(doc) - len(ref.full.rest)
					w.States++
					for k := 0; k <= len(doc); k++ {
						for _, c := range chunks {
							for m := 0; m < 5; m++ {
								// 0: fault, 1: with data, 2: empty reads, 3 and 4: 0 and 1 with a reader that recovers
								if !c08Fault(w, op, ref, doc, k, c, m/2%2*(1-m/3)*2, m == 1 || m == 4, m >= 3) {
									return
								}
							}
						}
					}
				}
			},
		},
		{
			Name:   "truncation",
			Rule:   "every accepted document that is not a bare number, cut at every byte (end of input instead of an error), every operation that accepts the whole document as its value: error",
			Bounds: "all positions, chunk sizes 1, 3, 64, whole slice",
			Units:  func(bool) int { return len(c08Docs()) },
			Run: func(w *W, unit int) {
				doc := []byte(c08Docs()[unit])
				tr := strings.TrimLeft(string(doc), " \t\r\n")
				if tr == "" || strings.ContainsAny(tr[:1], "-0123456789") {
					return
				}
				for _, op := range itOps {
					if op.name == "NextValueType" {
						continue
					}
					full := opOnBytes(op, doc)
					if full.err != nil {
						continue
					}
					end := len(doc) - len(full.rest)
					w.States++
					for k := 0; k < end; k++ {
						for _, c := range []int{0, 1, 3, 64} {
							for _, ew := range []bool{false, true} {
								if !w.Begin() {
									if w.Stop() {
										return
									}
									continue
								}
								desc := func() string {
									return fmt.Sprintf("%s on %q cut to %d bytes, reads of %d, eof with data %v", op.name, doc, k, c, ew)
								}
								w.Announce(desc)
								w.Transitions++
								w.Nontrivial++
								var got opResult
								if c == 0 {
									got = opOnBytes(op, doc[:k:k])
								} else {
									r := newChunk(doc[:k:k], c)
									r.eofWith = ew
									got = opOnReader(op, r)
								}
								if _, ok := got.err.(panicErr); ok || got.err == nil {
									w.Fail(desc(), fmt.Errorf("value %s error %v", show(got.val), got.err))
									return
								}
							}
						}
					}
				}
			},
		},
		{
			Name:   "entry points",
			Rule:   "every destination type x every text it accepts x every fault position x {after, with the data} x {for ever, once} through UnmarshalFromReader, Decoder.Decode (twice, and More) and Iterator.ReadVal: success only with every byte delivered and the value of the fault-free run; otherwise the injected error is recognisable",
			Bounds: "105 destination types, texts to 24 bytes (thorough 80), byte-wise, 7-byte and whole reads",
			Units:  func(bool) int { return len(decodeTypes()) },
			Run: func(w *W, unit int) {
				t := decodeTypes()[unit]
				max := 24
				if w.Thorough {
					max = 80
				}
				for _, s := range calibTexts() {
					if len(s) > max {
						continue
					}
					doc := []byte(s)
					a := reflect.New(t.T)
					var werr error
					func() {
						defer catch(&werr)
						werr = jzon.Unmarshal(doc, a.Interface())
					}()
					if werr != nil {
						continue
					}
					an := reflect.New(t.T)
					if err := numberCfg.Unmarshal(doc, an.Interface()); err != nil {
						w.Fail(t.Name+" "+s, err)
						return
					}
					w.States++
					for k := 0; k <= len(doc); k++ {
						for m := 0; m < 12; m++ {
							for ei, en := range c08Entries {
								if w.Stop() {
									return
								}
								if !w.Begin() {
									continue
								}
								with := m%2 == 1
								chunk := []int{1, 7, 4096}[m/2%3]
								once := m >= 6
								desc := func() string {
									return fmt.Sprintf("%s into %s of %q, reads of %d, fault after %d bytes (with data: %v, only once: %v)", en.name, t.Name, s, chunk, k, with, once)
								}
								w.Announce(desc)
								w.Transitions++
								w.Nontrivial++
								b := reflect.New(t.T)
								r := newChunk(doc, chunk)
								r.failAt, r.failWith, r.err, r.failOnce = k, with, errFault, once
								var e error
								func() {
									defer catch(&e)
									e = en.f(r, b.Interface())
								}()
								switch {
								case e == nil && ei < 2:
									w.Fail(desc(), fmt.Errorf("the document is not known to be complete, but the call succeeds with %s", show(b.Interface())))
									return
								case e == nil:
									want := a
									if !eqv(b, want, 0) || k < len(strings.TrimRight(s, " ")) {
										w.Fail(desc(), fmt.Errorf("succeeds with %s, the document gives %s", show(b.Interface()), show(want.Interface())))
										return
									}
								case !seen(e, errFault):
									w.Fail(desc(), fmt.Errorf("the reader's error was replaced by %v", e))
									return
								case r.after > 1 && !once:
									w.Fail(desc(), fmt.Errorf("the failing reader was read %d times", r.after))
									return
								}
							}
						}
					}
				}
			},
		},
		{
			Name:   "large values",
			Rule:   "documents whose tokens exceed the internal buffers x every operation x every fault position x reads of 64, 200 and 512 bytes and whole",
			Bounds: "4 documents of 700..2400 bytes; quick every third position",
			Units:  func(bool) int { return 4 * len(itOps) },
			Run: func(w *W, unit int) {
				doc := []byte(c06Huge()[unit%4])
				op := itOps[unit/4]
				ref := c08Ref{full: opOnBytes(op, doc)}
				ref.end = len(doc) - len(ref.full.rest)
				w.States++
				st := 3
				if w.Thorough {
					st = 1
				}
				for k := unit % st; k <= len(doc); k += st {
					for _, c := range []int{64, 200, 512, 4096} {
						if !c08Fault(w, op, ref, doc, k, c, 0, k/3%2 == 0, k/6%2 == 0) {
							return
						}
					}
				}
			},
		},
		{
			Name:   "stream after fault",
			Rule:   "a decoder over a stream of values whose reader fails once at every position and would then go on delivering: the values before the fault come out, then the fault for ever; nothing after the fault is decoded",
			Bounds: "6 streams, every position, chunk sizes 1..8",
			Units:  func(bool) int { return 6 },
			Run: func(w *W, unit int) {
				streams := []stream{
					mkStream([]string{"1", "22", "333"}, []string{"", " ", " ", " "}, ""),
					mkStream([]string{`"a"`, `"b\n"`, "true"}, []string{" ", "", "\n", ""}, ""),
					mkStream([]string{"[1,2]", "{}", `{"a":[null]}`}, []string{"", "", "\t", ""}, ""),
					mkStream([]string{"null", "-1.5e2", "false"}, []string{"", " ", " ", "\n"}, ""),
					mkStream([]string{`{"k":"` + longStr(70) + `"}`, "5"}, []string{" ", " ", ""}, ""),
					mkStream([]string{`"` + longStr(600) + `"`, "[]"}, []string{"", "", " "}, ""),
				}
				s := &streams[unit]
				for k := 0; k <= len(s.text); k++ {
					for c := 1; c <= 8; c++ {
						for mode := 0; mode < 4; mode++ {
							useRaw, with := mode%2 == 1, mode >= 2
							if w.Stop() {
								return
							}
							if !w.Begin() {
								continue
							}
							desc := func() string {
								return fmt.Sprintf("stream %q, reads of %d, one fault after %d bytes (with data: %v), raw targets %v", clip(s.text, 500), c, k, with, useRaw)
							}
							w.Announce(desc)
							w.States++
							w.Nontrivial++
							r := &onceFail{data: []byte(s.text), chunk: c, at: k, with: with}
							d := jzon.NewDecoder(r)
							var err error
							failed := false
							for i := 0; i < len(s.vals)+3 && err == nil; i++ {
								w.Transitions++
								var got interface{}
								var e error
								if useRaw {
									var raw jsonRaw
									e = d.Decode(&raw)
									if e == nil {
										e = jsonUn(raw, &got)
									}
								} else {
									e = d.Decode(&got)
								}
								switch {
								case e != nil:
									if !failed && !seen(e, errFault) && e != io.EOF {
										err = fmt.Errorf("decode %d: the reader's error was replaced by %v", i, e)
									}
									if !failed && e == io.EOF && !(i == len(s.vals) && !r.failed) {
										err = fmt.Errorf("decode %d: the reader's error was replaced by EOF", i)
									}
									failed = true
								case failed:
									err = fmt.Errorf("decode %d succeeds with %s after a failure", i, show(got))
								case i >= len(s.vals) || !eqTree(got, s.vals[i].val) || s.vals[i].end > k:
									err = fmt.Errorf("decode %d: %s", i, show(got))
								}
							}
							d.Release()
							if err != nil {
								w.Fail(desc(), err)
								return
							}
						}
					}
				}
			},
		},
	}})
}

// onceFail fails once, then goes on delivering
type onceFail struct {
	data   []byte
	chunk  int
	at     int
	pos    int
	with   bool
	failed bool
}

func (r *onceFail) Read(p []byte) (int, error) {
	if !r.failed && r.pos == r.at {
		r.failed = true
		return 0, errFault
	}
	if r.pos == len(r.data) {
		return 0, io.EOF
	}
	n := r.chunk
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.data)-r.pos {
		n = len(r.data) - r.pos
	}
	if !r.failed && n > r.at-r.pos {
		n = r.at - r.pos
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.with && !r.failed && r.pos == r.at {
		r.failed = true
		return n, errFault
	}
	return n, nil
}
