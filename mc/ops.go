package main

import (
	"encoding/json"
	"fmt"
	"reflect"

	"github.com/zerosnake0/jzon"
)

// itOp is one reading operation on an iterator
type itOp struct {
	name string
	f    func(it *jzon.Iterator) (interface{}, error)
}

func walkVal(it *jzon.Iterator, depth int) (interface{}, error) {
	vt, err := it.NextValueType()
	if err != nil {
		return nil, err
	}
	switch vt {
	case jzon.ArrayValue:
		out := []interface{}{}
		more, err := it.ReadArrayBegin()
		for ; more && err == nil; more, err = it.ReadArrayMore() {
			v, err := walkVal(it, depth+1)
			if err != nil {
				return nil, err
			}
			out = append(out, v)
		}
		return out, err
	case jzon.ObjectValue:
		out := map[string]interface{}{}
		more, k, err := it.ReadObjectBegin()
		for ; more && err == nil; more, k, err = it.ReadObjectMore() {
			v, err := walkVal(it, depth+1)
			if err != nil {
				return nil, err
			}
			out[k] = v
		}
		return out, err
	case jzon.StringValue:
		s, err := it.ReadString()
		return s, err
	case jzon.NumberValue:
		f, err := it.ReadFloat64()
		return f, err
	case jzon.BoolValue:
		b, err := it.ReadBool()
		return b, err
	case jzon.NullValue:
		return nil, it.ReadNull()
	}
	return nil, fmt.Errorf("unexpected value type %v", vt)
}

func walkCB(it *jzon.Iterator) (interface{}, error) {
	vt, err := it.NextValueType()
	if err != nil {
		return nil, err
	}
	switch vt {
	case jzon.ArrayValue:
		out := []interface{}{}
		err := it.ReadArrayCB(func(it *jzon.Iterator) error {
			v, err := walkCB(it)
			out = append(out, v)
			return err
		})
		return out, err
	case jzon.ObjectValue:
		out := map[string]interface{}{}
		err := it.ReadObjectCB(func(it *jzon.Iterator, f string) error {
			v, err := walkCB(it)
			out[f] = v
			return err
		})
		return out, err
	case jzon.NumberValue:
		f, err := it.ReadNumber()
		return string(f), err
	}
	return it.Read()
}

func opVal(v interface{}) itOp {
	t := reflect.TypeOf(v).Elem()
	return itOp{"ReadVal(" + t.String() + ")", func(it *jzon.Iterator) (interface{}, error) {
		p := reflect.New(t)
		err := it.ReadVal(p.Interface())
		return p.Elem().Interface(), err
	}}
}

type smallOneByte struct {
	A []byte `json:"a"`
}

var itOps = []itOp{
	{"NextValueType", func(it *jzon.Iterator) (interface{}, error) { return it.NextValueType() }},
	{"Skip", func(it *jzon.Iterator) (interface{}, error) { return nil, it.Skip() }},
	{"Read", func(it *jzon.Iterator) (interface{}, error) { return it.Read() }},
	{"walk", func(it *jzon.Iterator) (interface{}, error) { return walkVal(it, 0) }},
	{"walkCB", func(it *jzon.Iterator) (interface{}, error) { return walkCB(it) }},
	{"ReadNull", func(it *jzon.Iterator) (interface{}, error) { return nil, it.ReadNull() }},
	{"ReadBool", func(it *jzon.Iterator) (interface{}, error) { return it.ReadBool() }},
	{"ReadString", func(it *jzon.Iterator) (interface{}, error) { return it.ReadString() }},
	{"ReadStringAsSlice", func(it *jzon.Iterator) (interface{}, error) { b, e := it.ReadStringAsSlice(); return string(b), e }},
	{"ReadInt8", func(it *jzon.Iterator) (interface{}, error) { return it.ReadInt8() }},
	{"ReadInt16", func(it *jzon.Iterator) (interface{}, error) { return it.ReadInt16() }},
	{"ReadInt32", func(it *jzon.Iterator) (interface{}, error) { return it.ReadInt32() }},
	{"ReadInt64", func(it *jzon.Iterator) (interface{}, error) { return it.ReadInt64() }},
	{"ReadUint8", func(it *jzon.Iterator) (interface{}, error) { return it.ReadUint8() }},
	{"ReadUint16", func(it *jzon.Iterator) (interface{}, error) { return it.ReadUint16() }},
	{"ReadUint32", func(it *jzon.Iterator) (interface{}, error) { return it.ReadUint32() }},
	{"ReadUint64", func(it *jzon.Iterator) (interface{}, error) { return it.ReadUint64() }},
	{"ReadFloat32", func(it *jzon.Iterator) (interface{}, error) { return it.ReadFloat32() }},
	{"ReadFloat64", func(it *jzon.Iterator) (interface{}, error) { return it.ReadFloat64() }},
	{"ReadNumber", func(it *jzon.Iterator) (interface{}, error) { n, e := it.ReadNumber(); return string(n), e }},
	{"SkipObject", func(it *jzon.Iterator) (interface{}, error) { return nil, it.SkipObject() }},
	{"SkipArray", func(it *jzon.Iterator) (interface{}, error) { return nil, it.SkipArray() }},
	{"SkipString", func(it *jzon.Iterator) (interface{}, error) { return nil, it.SkipString() }},
	{"SkipNumber", func(it *jzon.Iterator) (interface{}, error) { return nil, it.SkipNumber() }},
	opVal((*bool)(nil)), opVal((*int)(nil)), opVal((*uint8)(nil)), opVal((*float32)(nil)), opVal((*string)(nil)),
	opVal((*interface{})(nil)), opVal((*[]interface{})(nil)), opVal((*map[string]interface{})(nil)), opVal((*json.Number)(nil)),
	opVal((*[]int)(nil)), opVal((*[2]int)(nil)), opVal((*[]byte)(nil)), opVal((*[]string)(nil)), opVal((*map[string]int)(nil)), opVal((*map[int]string)(nil)), opVal((*map[TextStr]interface{})(nil)),
	opVal((*S0)(nil)), opVal((*S1)(nil)), opVal((*S2)(nil)), opVal((*S11)(nil)), opVal((*Quoted)(nil)), opVal((**S2)(nil)), opVal((*TextStr)(nil)), opVal((*smallOneByte)(nil)),
	// capturing operations last: they enlarge the recycled buffers
	{"SkipRaw", func(it *jzon.Iterator) (interface{}, error) { b, e := it.SkipRaw(); return string(b), e }},
	{"ReadRaw", func(it *jzon.Iterator) (interface{}, error) { b, e := it.ReadRaw(); return string(b), e }},
	{"AppendRaw", func(it *jzon.Iterator) (interface{}, error) { b, e := it.AppendRaw([]byte("pre")); return string(b), e }},
	opVal((*json.RawMessage)(nil)), opVal((*JSONStruct)(nil)), opVal((*map[string]json.RawMessage)(nil)), opVal((*[]json.RawMessage)(nil)), opVal((*[]JSONStruct)(nil)), opVal((*struct{ A json.RawMessage })(nil)),
}

type opResult struct {
	val  interface{}
	err  error
	rest string
}

func runOp(it *jzon.Iterator, op itOp) (r opResult) {
	defer func() {
		if p := recover(); p != nil {
			r.err = panicErr{fmt.Errorf("panic: %v", p)}
		}
	}()
	r.val, r.err = op.f(it)
	return
}

type panicErr struct{ error }

// opOnBytes: the reference run, over one byte slice
func opOnBytes(op itOp, doc []byte) opResult {
	it := jzon.NewIterator()
	it.ResetBytes(doc)
	r := runOp(it, op)
	r.rest = string(it.Buffer())
	it.Release()
	return r
}

func opOnReader(op itOp, r *chunkReader) opResult {
	it := jzon.NewIterator()
	it.Reset(r)
	o := runOp(it, op)
	o.rest = string(it.Buffer()) + string(r.data[r.pos:])
	it.Release()
	return o
}

func sameOp(a, b opResult) error {
	if _, ok := b.err.(panicErr); ok {
		return b.err
	}
	if (a.err == nil) != (b.err == nil) {
		return fmt.Errorf("whole slice: error %v; reader: error %v", a.err, b.err)
	}
	if a.err != nil {
		return nil
	}
	if !eq(a.val, b.val) {
		return fmt.Errorf("whole slice: %s; reader: %s", show(a.val), show(b.val))
	}
	if a.rest != b.rest {
		return fmt.Errorf("whole slice leaves %q, reader leaves %q", clip(a.rest, 100), clip(b.rest, 100))
	}
	return nil
}
