package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"unicode/utf8"
	"unsafe"

	"github.com/zerosnake0/jzon"
)

// ---- readers ----------------------------------------------------------------

// chunkReader delivers data in the given chunk lengths (the last one repeats),
// with `empties` empty reads before every chunk, and the end of input either
// with the last data or after it.
type chunkReader struct {
	data    []byte
	lens    []int
	empties int
	eofWith bool
	// fault: after failAt bytes have been delivered, err is returned (failAt<0: never)
	failAt   int
	failWith bool // together with the last bytes before the fault
	failOnce bool // the reads after the fault go on delivering
	err      error
	onRead   func()

	pos, k, e int
	reads     int
	after     int // reads after the end or the fault
}

func newChunk(data []byte, lens ...int) *chunkReader {
	return &chunkReader{data: data, lens: lens, failAt: -1}
}

func (r *chunkReader) Read(p []byte) (int, error) {
	r.reads++
	if r.onRead != nil {
		r.onRead()
	} else if r.reads&(r.reads-1) == 0 {
		point()
	}
	if r.failAt >= 0 && r.pos >= r.failAt {
		if r.failOnce {
			r.failAt = -1
		}
		r.after++
		return 0, r.err
	}
	if r.pos >= len(r.data) {
		r.after++
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.e < r.empties {
		r.e++
		return 0, nil
	}
	n := len(r.data)
	if len(r.lens) > 0 {
		if r.k < len(r.lens) {
			n = r.lens[r.k]
		} else {
			n = r.lens[len(r.lens)-1]
		}
	}
	if n <= 0 {
		n = 1
	}
	if n > len(r.data)-r.pos {
		n = len(r.data) - r.pos
	}
	if r.failAt >= 0 && n > r.failAt-r.pos {
		n = r.failAt - r.pos
	}
	if n > len(p) {
		// the rest of this chunk follows in the next read
		n = len(p)
	} else {
		r.k++
		r.e = 0
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.failAt >= 0 && r.pos >= r.failAt && r.failWith {
		if r.failOnce {
			r.failAt = -1
		}
		return n, r.err
	}
	if r.pos >= len(r.data) && r.eofWith && r.failAt < 0 {
		return n, io.EOF
	}
	return n, nil
}

// ---- comparison -------------------------------------------------------------

// eq is reflect.DeepEqual with floats compared by their bits, and with nil and
// empty maps and slices kept apart.
func eq(a, b interface{}) bool {
	return eqv(reflect.ValueOf(a), reflect.ValueOf(b), 0)
}

func eqv(a, b reflect.Value, depth int) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	if depth > 2000 {
		return true
	}
	switch a.Kind() {
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return eqv(a.Elem(), b.Elem(), depth+1)
	case reflect.Ptr:
		if a.Pointer() == b.Pointer() {
			return true
		}
		if a.IsNil() || b.IsNil() {
			return false
		}
		return eqv(a.Elem(), b.Elem(), depth+1)
	case reflect.Slice:
		if a.IsNil() != b.IsNil() {
			return false
		}
		fallthrough
	case reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !eqv(a.Index(i), b.Index(i), depth+1) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		it := a.MapRange()
		for it.Next() {
			v := b.MapIndex(it.Key())
			if !v.IsValid() || !eqv(it.Value(), v, depth+1) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !eqv(a.Field(i), b.Field(i), depth+1) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return a.Pointer() == b.Pointer()
	case reflect.Complex64, reflect.Complex128:
		return a.Complex() == b.Complex()
	}
	return false
}

// eqTree is eq for untyped trees, without reflection
func eqTree(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	case json.Number:
		y, ok := b.(json.Number)
		return ok && x == y
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) || (x == nil) != (y == nil) {
			return false
		}
		for i := range x {
			if !eqTree(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) || (x == nil) != (y == nil) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !eqTree(v, w) {
				return false
			}
		}
		return true
	}
	return false
}

func show(v interface{}) string {
	if b, err := json.Marshal(v); err == nil {
		return fmt.Sprintf("%T %s", v, b)
	}
	return fmt.Sprintf("%#v", v)
}

// jcanon rewrites JSON text with the members of every object sorted by key
// (stable for duplicates), everything else byte for byte the same.  Returns
// false when the text is not JSON.
func jcanon(b []byte) (string, bool) {
	if !json.Valid(b) {
		return "", false
	}
	var sb strings.Builder
	i := 0
	canonVal(b, &i, &sb)
	return sb.String(), true
}

func canonWS(b []byte, i *int) {
	for *i < len(b) && isWS(b[*i]) {
		*i++
	}
}

func canonStr(b []byte, i *int) string {
	s := *i
	*i++
	for b[*i] != '"' {
		if b[*i] == '\\' {
			*i++
		}
		*i++
	}
	*i++
	return string(b[s:*i])
}

func canonVal(b []byte, i *int, sb *strings.Builder) {
	canonWS(b, i)
	switch b[*i] {
	case '{':
		*i++
		type kv struct{ k, v string }
		var l []kv
		for {
			canonWS(b, i)
			if b[*i] == '}' {
				*i++
				break
			}
			if b[*i] == ',' {
				*i++
				continue
			}
			k := canonStr(b, i)
			canonWS(b, i)
			*i++
			var s2 strings.Builder
			canonVal(b, i, &s2)
			l = append(l, kv{k, s2.String()})
		}
		sort.SliceStable(l, func(x, y int) bool { return l[x].k < l[y].k })
		sb.WriteByte('{')
		for n, e := range l {
			if n > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(e.k)
			sb.WriteByte(':')
			sb.WriteString(e.v)
		}
		sb.WriteByte('}')
	case '[':
		*i++
		sb.WriteByte('[')
		n := 0
		for {
			canonWS(b, i)
			if b[*i] == ']' {
				*i++
				break
			}
			if b[*i] == ',' {
				*i++
				continue
			}
			if n > 0 {
				sb.WriteByte(',')
			}
			n++
			canonVal(b, i, sb)
		}
		sb.WriteByte(']')
	case '"':
		sb.WriteString(canonStr(b, i))
	default:
		s := *i
		for *i < len(b) && !isWS(b[*i]) && b[*i] != ',' && b[*i] != ']' && b[*i] != '}' {
			*i++
		}
		sb.Write(b[s:*i])
	}
}

// stdBF rewrites the \b and \f escapes of newer standard libraries to the
// \u0008 and \u000c spelling.
func stdBF(b []byte) []byte {
	if !bytes.Contains(b, []byte(`\b`)) && !bytes.Contains(b, []byte(`\f`)) {
		return b
	}
	var out []byte
	for i := 0; i < len(b); i++ {
		if b[i] == '\\' && i+1 < len(b) {
			switch b[i+1] {
			case 'b':
				out = append(out, `\u0008`...)
			case 'f':
				out = append(out, `\u000c`...)
			default:
				out = append(out, b[i], b[i+1])
			}
			i++
			continue
		}
		out = append(out, b[i])
	}
	return out
}

// stdMarshal: the standard encoder, without the trailing newline
func stdMarshal(v interface{}, html bool) ([]byte, error) {
	var bb bytes.Buffer
	e := json.NewEncoder(&bb)
	e.SetEscapeHTML(html)
	if err := e.Encode(v); err != nil {
		return nil, err
	}
	return stdBF(bytes.TrimSuffix(bb.Bytes(), []byte("\n"))), nil
}

var (
	noHTMLCfg = jzon.NewEncoderConfig(&jzon.EncoderOption{EscapeHTML: false})
	numberCfg = jzon.NewDecoderConfig(&jzon.DecoderOption{UseNumber: true})
)

// product calls f with every vector of n digits below base
func product(n, base int, f func(v []int) bool) {
	v := make([]int, n)
	for {
		if !f(v) {
			return
		}
		i := n - 1
		for i >= 0 {
			v[i]++
			if v[i] < base {
				break
			}
			v[i] = 0
			i--
		}
		if i < 0 {
			return
		}
	}
}

func gcNow() { runtime.GC() }

// gcAbove collects once the heap has grown beyond n bytes, for the checks
// which run without automatic collections.
func gcAbove(n uint64) {
	var m runtime.MemStats
	if runtime.ReadMemStats(&m); m.HeapAlloc > n {
		runtime.GC()
	}
}

var _ = unsafe.Pointer(nil)

func cutsToLens(n int, mask uint32) []int {
	var lens []int
	last := 0
	for i := 1; i < n; i++ {
		if mask>>(uint(i)-1)&1 == 1 {
			lens = append(lens, i-last)
			last = i
		}
	}
	return append(lens, n-last)
}

type jsonNumber = json.Number
type jsonRaw = json.RawMessage

func jsonUn(b []byte, v interface{}) error { return json.Unmarshal(b, v) }

func validUTF8(s string) bool { return utf8.ValidString(s) }

// pointFn is called at every point where the library hands control to its
// user: hooks, readers and writers
var pointFn func()

func point() {
	if pointFn != nil {
		pointFn()
	}
}
