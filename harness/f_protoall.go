package main

import (
	"fmt"
	"math"
	"reflect"

	"github.com/gogo/protobuf/proto"
)

// pAll is a message type with a field of every kind, for which the protobuf
// library decodes the same bytes.
type pAll struct {
	ODouble   *float64  `protobuf:"fixed64,1,opt,name=ODouble"`
	OFloat    *float32  `protobuf:"fixed32,2,opt,name=OFloat"`
	OInt64    *int64    `protobuf:"varint,3,opt,name=OInt64"`
	OUint64   *uint64   `protobuf:"varint,4,opt,name=OUint64"`
	OInt32    *int32    `protobuf:"varint,5,opt,name=OInt32"`
	OFixed64  *uint64   `protobuf:"fixed64,6,opt,name=OFixed64"`
	OFixed32  *uint32   `protobuf:"fixed32,7,opt,name=OFixed32"`
	OBool     *bool     `protobuf:"varint,8,opt,name=OBool"`
	OUint32   *uint32   `protobuf:"varint,9,opt,name=OUint32"`
	OEnum     *int32    `protobuf:"varint,10,opt,name=OEnum"`
	OSfixed32 *int32    `protobuf:"fixed32,11,opt,name=OSfixed32"`
	OSfixed64 *int64    `protobuf:"fixed64,12,opt,name=OSfixed64"`
	OSint32   *int32    `protobuf:"zigzag32,13,opt,name=OSint32"`
	OSint64   *int64    `protobuf:"zigzag64,14,opt,name=OSint64"`
	OString   *string   `protobuf:"bytes,15,opt,name=OString"`
	OBytes    []byte    `protobuf:"bytes,16,opt,name=OBytes"`
	OMsg      *pAll     `protobuf:"bytes,17,opt,name=OMsg"`
	RDouble   []float64 `protobuf:"fixed64,18,rep,name=RDouble"`
	RFloat    []float32 `protobuf:"fixed32,19,rep,name=RFloat"`
	RInt64    []int64   `protobuf:"varint,20,rep,name=RInt64"`
	RUint64   []uint64  `protobuf:"varint,21,rep,name=RUint64"`
	RInt32    []int32   `protobuf:"varint,22,rep,name=RInt32"`
	RFixed64  []uint64  `protobuf:"fixed64,23,rep,name=RFixed64"`
	RFixed32  []uint32  `protobuf:"fixed32,24,rep,name=RFixed32"`
	RBool     []bool    `protobuf:"varint,25,rep,name=RBool"`
	RUint32   []uint32  `protobuf:"varint,26,rep,name=RUint32"`
	REnum     []int32   `protobuf:"varint,27,rep,name=REnum"`
	RSfixed32 []int32   `protobuf:"fixed32,28,rep,name=RSfixed32"`
	RSfixed64 []int64   `protobuf:"fixed64,29,rep,name=RSfixed64"`
	RSint32   []int32   `protobuf:"zigzag32,30,rep,name=RSint32"`
	RSint64   []int64   `protobuf:"zigzag64,31,rep,name=RSint64"`
	RString   []string  `protobuf:"bytes,32,rep,name=RString"`
	RBytes    [][]byte  `protobuf:"bytes,33,rep,name=RBytes"`
	RMsg      []*pAll   `protobuf:"bytes,34,rep,name=RMsg"`
	PDouble   []float64 `protobuf:"fixed64,35,rep,packed,name=PDouble"`
	PFloat    []float32 `protobuf:"fixed32,36,rep,packed,name=PFloat"`
	PInt64    []int64   `protobuf:"varint,37,rep,packed,name=PInt64"`
	PUint64   []uint64  `protobuf:"varint,38,rep,packed,name=PUint64"`
	PInt32    []int32   `protobuf:"varint,39,rep,packed,name=PInt32"`
	PFixed64  []uint64  `protobuf:"fixed64,40,rep,packed,name=PFixed64"`
	PFixed32  []uint32  `protobuf:"fixed32,41,rep,packed,name=PFixed32"`
	PBool     []bool    `protobuf:"varint,42,rep,packed,name=PBool"`
	PUint32   []uint32  `protobuf:"varint,43,rep,packed,name=PUint32"`
	PEnum     []int32   `protobuf:"varint,44,rep,packed,name=PEnum"`
	PSfixed32 []int32   `protobuf:"fixed32,45,rep,packed,name=PSfixed32"`
	PSfixed64 []int64   `protobuf:"fixed64,46,rep,packed,name=PSfixed64"`
	PSint32   []int32   `protobuf:"zigzag32,47,rep,packed,name=PSint32"`
	PSint64   []int64   `protobuf:"zigzag64,48,rep,packed,name=PSint64"`
}

func (m *pAll) Reset()         { *m = pAll{} }
func (m *pAll) String() string { return fmt.Sprintf("%+v", *m) }
func (m *pAll) ProtoMessage()  {}

// allType describes pAll.
func allType() *PT {
	t := &PT{pkg: "p", name: "All"}
	t.fields = []*PF{
		{name: "ODouble", num: 1, kind: kDouble, rep: false, packed: false},
		{name: "OFloat", num: 2, kind: kFloat, rep: false, packed: false},
		{name: "OInt64", num: 3, kind: kInt64, rep: false, packed: false},
		{name: "OUint64", num: 4, kind: kUint64, rep: false, packed: false},
		{name: "OInt32", num: 5, kind: kInt32, rep: false, packed: false},
		{name: "OFixed64", num: 6, kind: kFixed64, rep: false, packed: false},
		{name: "OFixed32", num: 7, kind: kFixed32, rep: false, packed: false},
		{name: "OBool", num: 8, kind: kBool, rep: false, packed: false},
		{name: "OUint32", num: 9, kind: kUint32, rep: false, packed: false},
		{name: "OEnum", num: 10, kind: kEnum, rep: false, packed: false},
		{name: "OSfixed32", num: 11, kind: kSfixed32, rep: false, packed: false},
		{name: "OSfixed64", num: 12, kind: kSfixed64, rep: false, packed: false},
		{name: "OSint32", num: 13, kind: kSint32, rep: false, packed: false},
		{name: "OSint64", num: 14, kind: kSint64, rep: false, packed: false},
		{name: "OString", num: 15, kind: kString, rep: false, packed: false},
		{name: "OBytes", num: 16, kind: kBytes, rep: false, packed: false},
		{name: "OMsg", num: 17, kind: kMessage, rep: false, packed: false, msg: t},
		{name: "RDouble", num: 18, kind: kDouble, rep: true, packed: false},
		{name: "RFloat", num: 19, kind: kFloat, rep: true, packed: false},
		{name: "RInt64", num: 20, kind: kInt64, rep: true, packed: false},
		{name: "RUint64", num: 21, kind: kUint64, rep: true, packed: false},
		{name: "RInt32", num: 22, kind: kInt32, rep: true, packed: false},
		{name: "RFixed64", num: 23, kind: kFixed64, rep: true, packed: false},
		{name: "RFixed32", num: 24, kind: kFixed32, rep: true, packed: false},
		{name: "RBool", num: 25, kind: kBool, rep: true, packed: false},
		{name: "RUint32", num: 26, kind: kUint32, rep: true, packed: false},
		{name: "REnum", num: 27, kind: kEnum, rep: true, packed: false},
		{name: "RSfixed32", num: 28, kind: kSfixed32, rep: true, packed: false},
		{name: "RSfixed64", num: 29, kind: kSfixed64, rep: true, packed: false},
		{name: "RSint32", num: 30, kind: kSint32, rep: true, packed: false},
		{name: "RSint64", num: 31, kind: kSint64, rep: true, packed: false},
		{name: "RString", num: 32, kind: kString, rep: true, packed: false},
		{name: "RBytes", num: 33, kind: kBytes, rep: true, packed: false},
		{name: "RMsg", num: 34, kind: kMessage, rep: true, packed: false, msg: t},
		{name: "PDouble", num: 35, kind: kDouble, rep: true, packed: true},
		{name: "PFloat", num: 36, kind: kFloat, rep: true, packed: true},
		{name: "PInt64", num: 37, kind: kInt64, rep: true, packed: true},
		{name: "PUint64", num: 38, kind: kUint64, rep: true, packed: true},
		{name: "PInt32", num: 39, kind: kInt32, rep: true, packed: true},
		{name: "PFixed64", num: 40, kind: kFixed64, rep: true, packed: true},
		{name: "PFixed32", num: 41, kind: kFixed32, rep: true, packed: true},
		{name: "PBool", num: 42, kind: kBool, rep: true, packed: true},
		{name: "PUint32", num: 43, kind: kUint32, rep: true, packed: true},
		{name: "PEnum", num: 44, kind: kEnum, rep: true, packed: true},
		{name: "PSfixed32", num: 45, kind: kSfixed32, rep: true, packed: true},
		{name: "PSfixed64", num: 46, kind: kSfixed64, rep: true, packed: true},
		{name: "PSint32", num: 47, kind: kSint32, rep: true, packed: true},
		{name: "PSint64", num: 48, kind: kSint64, rep: true, packed: true},
	}
	return t
}

func goVal(v reflect.Value) Val {
	switch v.Kind() {
	case reflect.Float64, reflect.Float32:
		return vD(v.Float())
	case reflect.Int64, reflect.Int32:
		return vI(v.Int())
	case reflect.Uint64, reflect.Uint32:
		return vU(v.Uint())
	case reflect.Bool:
		return vB(v.Bool())
	case reflect.String:
		return vS(v.String())
	case reflect.Slice:
		return vY(append([]byte{}, v.Bytes()...))
	}
	panic(v.Kind())
}

// allDoc is what an unmarshalled pAll says, its fields in the order of names.
func allDoc(m *pAll, d Doc) (Doc, error) {
	o := Doc{}
	v := reflect.ValueOf(m).Elem()
	set := 0
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); !f.IsNil() {
			set++
		}
	}
	if set != len(d) {
		return nil, fmt.Errorf("%d fields are set, expected %d", set, len(d))
	}
	for _, n := range d {
		f := v.FieldByName(n.V.S)
		if f.IsNil() {
			return nil, fmt.Errorf("%s is not set", n.V.S)
		}
		one := func(e reflect.Value, want []*Node) ([]*Node, error) {
			if x, ok := e.Interface().(*pAll); ok {
				return allDoc(x, Doc(want))
			}
			if e.Kind() == reflect.Ptr {
				e = e.Elem()
			}
			return []*Node{leaf(goVal(e))}, nil
		}
		if f.Kind() == reflect.Slice && f.Type().Elem().Kind() != reflect.Uint8 {
			k := field(n.V.S)
			if f.Len() != len(n.Kids) {
				return nil, fmt.Errorf("%s has %d elements", n.V.S, f.Len())
			}
			for i := 0; i < f.Len(); i++ {
				ns, err := one(f.Index(i), n.Kids[i].Kids)
				if err != nil {
					return nil, err
				}
				k.Kids = append(k.Kids, index(i, ns...))
			}
			o = append(o, k)
			continue
		}
		ns, err := one(f, n.Kids)
		if err != nil {
			return nil, err
		}
		o = append(o, field(n.V.S, ns...))
	}
	return o, nil
}

// unmarshalled is the document of the bytes according to the protobuf library.
func unmarshalled(buf []byte, like Doc) (Doc, error) {
	m := &pAll{}
	if err := proto.Unmarshal(buf, m); err != nil {
		return nil, err
	}
	return allDoc(m, like)
}

var _ = math.Pi
