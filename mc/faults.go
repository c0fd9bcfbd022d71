package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"os"
	"reflect"
	"strings"
	"syscall"

	"github.com/zerosnake0/jzon"
)

// errors readers and writers return

type tempErr struct{}

func (tempErr) Error() string   { return "injected temporary" }
func (tempErr) Temporary() bool { return true }
func (tempErr) Timeout() bool   { return true }

type sliceErr []string // not comparable

func (e sliceErr) Error() string { return "injected " + strings.Join(e, ",") }

type eofLike struct{}

func (eofLike) Error() string        { return "EOF" }
func (eofLike) Is(target error) bool { return target == io.EOF }

type emptyErr struct{}

func (emptyErr) Error() string { return "" }

var ioFaults = []error{
	io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrShortBuffer, io.ErrShortWrite, io.ErrClosedPipe,
	fmt.Errorf("injected wrapped: %w", io.EOF), fmt.Errorf("injected wrapped: %w", io.ErrUnexpectedEOF), errors.Join(io.EOF, errors.New("injected")),
	context.Canceled, context.DeadlineExceeded, os.ErrDeadlineExceeded, os.ErrClosed,
	&fs.PathError{Op: "read", Path: "/x", Err: syscall.EIO}, syscall.EINTR, syscall.EAGAIN, net.ErrClosed, &net.OpError{Op: "read", Net: "tcp", Err: tempErr{}},
	tempErr{}, &tempErr{}, sliceErr{"a", "b"}, eofLike{}, errors.New("EOF"), errors.New("unexpected EOF"), bufio.ErrBufferFull, bufio.ErrNegativeCount, bytes.ErrTooLarge,
	&json.SyntaxError{}, &json.UnmarshalTypeError{Value: "injected", Type: reflect.TypeOf(0)}, jzon.ErrDataRemained, jzon.ErrEfaceLooping, jzon.ErrNoAttachedWriter, jzon.UnexpectedByteError{}, emptyErr{},
}

// recognisable: the reported error leads back to the injected one
func recognisable(e, inj error) bool {
	if e == nil {
		return false
	}
	if reflect.TypeOf(inj).Comparable() {
		if e == inj || errors.Is(e, inj) {
			return true
		}
	} else {
		for x := e; x != nil; x = errors.Unwrap(x) {
			if reflect.DeepEqual(x, inj) {
				return true
			}
		}
	}
	// some entry points report the text of the error and the place
	return strings.Contains(e.Error(), inj.Error())
}

func init() {
	addEngine("C08", &Engine{
		Name:   "kinds of errors",
		Rule:   "every kind of error a reader returns (of io, context, os, net, syscall, JSON libraries, wrapped and look-alike ends of input, empty, not comparable) x every document x every operation x every fault position x {after the data, with the data} x {for ever, once}: reported as what it is, never taken for the end of the input",
		Bounds: fmt.Sprintf("%d errors, all positions of %d documents to 190 bytes, reads of 1, 5, 64 bytes in turn", len(ioFaults), len(c08Docs())),
		Units:  func(bool) int { return len(c08Docs()) },
		Run: func(w *W, unit int) {
			doc := []byte(c08Docs()[unit])
			for oi, op := range itOps {
				ref := c08Ref{full: opOnBytes(op, doc)}
				ref.end = len(doc) - len(ref.full.rest)
				if ref.full.err != nil {
					continue
				}
				w.States++
				for k := 0; k <= len(doc); k++ {
					for fi, inj := range ioFaults {
						for m := 0; m < 4; m++ {
							if !w.Thorough && len(doc) > 40 && (m+fi+k+oi)%4 != 0 {
								continue
							}
							if !c08FaultOf(w, op, ref, doc, k, []int{64, 1, 5}[(k+m+oi)%3], 0, m%2 == 1, m >= 2, inj) {
								return
							}
						}
					}
				}
			}
			// whole documents: nothing may be taken for the end
			for _, t := range []reflect.Type{rt[interface{}](), rt[json.RawMessage](), rt[int](), rt[string](), rt[S2](), rt[[]interface{}](), rt[map[string]interface{}](), rt[float64](), rt[JSONStruct](), rt[TextStr](), rt[json.Number]()} {
				a := reflect.New(t)
				var e0 error
				func() {
					defer catch(&e0)
					e0 = jzon.Unmarshal(doc, a.Interface())
				}()
				if e0 != nil {
					continue
				}
				for k := 0; k <= len(doc); k++ {
					for fi, inj := range ioFaults {
						for m := 0; m < 4; m++ {
							for ei, en := range c08Entries {
								if !w.Thorough && len(doc) > 40 && (m+fi+k+ei)%4 != 0 {
									continue
								}
								if w.Stop() {
									return
								}
								if !w.Begin() {
									continue
								}
								desc := func() string {
									return fmt.Sprintf("%s into %s of %q, fault %T %v after %d bytes (with data: %v, only once: %v)", en.name, t, doc, inj, inj, k, m%2 == 1, m >= 2)
								}
								w.Announce(desc)
								w.Transitions++
								w.Nontrivial++
								b := reflect.New(t)
								r := newChunk(doc, []int{64, 1, 5}[(k+m)%3])
								r.failAt, r.failWith, r.err, r.failOnce = k, m%2 == 1, inj, m >= 2
								var e error
								func() {
									defer catch(&e)
									e = en.f(r, b.Interface())
								}()
								switch {
								case e == nil && ei < 2:
									w.Fail(desc(), fmt.Errorf("succeeds with %s", show(b.Interface())))
									return
								case e == nil:
									if ei != 1 && !eqv(a, b, 0) || k < len(strings.TrimRight(string(doc), " \t\r\n")) {
										w.Fail(desc(), fmt.Errorf("succeeds with %s, the document gives %s", show(b.Interface()), show(a.Interface())))
										return
									}
								case !recognisable(e, inj):
									w.Fail(desc(), fmt.Errorf("the reader's error was replaced by %T %v", e, e))
									return
								}
							}
						}
					}
				}
			}
		},
	})
}
