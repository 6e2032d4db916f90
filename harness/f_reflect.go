package main

import (
	"fmt"
	"reflect"

	"github.com/katydid/katydid/parser"
	sreflect "github.com/katydid/katydid/parser/reflect"
)

// goRec is a recursive struct type.
type goRec struct {
	A  int64
	B  *goRec
	C  []*goRec
	D  []goRec
	E  []string
	F  *string
	G  []byte
	H  [][]byte
	I  goLeaf
	J  *goLeaf
	K  []goLeaf
	L  []*int64
	U  uint32
	FF float32
	BB []bool
}

type goLeaf struct {
	X *float64
	Y uint64
	Z bool
	S string
	I int32
}

type (
	goInt    int64
	goSmall  int32
	goUint   uint64
	goDouble float64
	goStr    string
	goBool   bool
	goBytes  []byte
	goInts   []goInt
	goStrs   []string
)

// goNamed has fields of named types, embedded structs and tags.
type goNamed struct {
	goLeafs
	*GoEmb `json:"other"`
	N0     goInt
	N1     goSmall
	N2     goUint
	N3     goDouble `json:"n4"`
	N4     goStr    `protobuf:"bytes,1,opt,name=n3"`
	N5     goBool
	N6     goBytes
	N7     goInts
	N8     []goStrs
	N9     *goStr
	S      goStr
}

type goLeafs struct{ X, Y goStr }

type GoEmb struct {
	Z goInt
	S string
}

// goHidden has fields that are not exported.
type goHidden struct {
	A int64
	b string
	c *goHidden
	D []goHidden
	e []string
	f float64
	g bool
	h []byte
	i uint64
	_ int64
}

var goScalars = []reflect.Type{reflect.TypeOf(false), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""), reflect.TypeOf([]byte{})}

func genGoType(r *Rng, depth int) reflect.Type {
	if depth <= 0 || r.P(30) {
		t := goScalars[r.Intn(len(goScalars))]
		if r.P(30) && t.Kind() != reflect.Slice {
			return reflect.PtrTo(t)
		}
		return t
	}
	switch r.Intn(5) {
	case 0, 1:
		return reflect.SliceOf(genGoType(r, depth-1))
	case 2:
		return reflect.PtrTo(genGoStruct(r, depth-1))
	}
	return genGoStruct(r, depth-1)
}

// goNames are plain names, and names that are alike.
var goNames = [][]string{{"A", "B", "C", "D", "E", "F"}, {"Aa", "AA", "BB", "Éa", "Aé", "Aaa"}}

func genGoStruct(r *Rng, depth int) reflect.Type {
	if r.P(20) {
		return reflect.TypeOf(goRec{})
	}
	var fs []reflect.StructField
	names := goNames[0]
	if r.P(25) {
		names = goNames[1]
	}
	for i := r.Intn(6); i >= 0; i-- {
		fs = append(fs, reflect.StructField{Name: names[len(fs)], Type: genGoType(r, depth)})
	}
	return reflect.StructOf(fs)
}

func fillGo(r *Rng, v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.P(50))
	case reflect.Int32:
		v.SetInt(genPVal(r, kInt32).I)
	case reflect.Int64:
		v.SetInt(genPVal(r, kInt64).I)
	case reflect.Uint32:
		v.SetUint(genPVal(r, kUint32).U)
	case reflect.Uint64:
		v.SetUint(genPVal(r, kUint64).U)
	case reflect.Float32:
		v.SetFloat(genPVal(r, kFloat).D)
	case reflect.Float64:
		v.SetFloat(genPVal(r, kDouble).D)
	case reflect.String:
		v.SetString(genString(r))
	case reflect.Ptr:
		if depth > 0 && r.P(70) {
			v.Set(reflect.New(v.Type().Elem()))
			fillGo(r, v.Elem(), depth-1)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if r.P(85) {
				v.SetBytes(genPVal(r, kBytes).Y)
			}
			return
		}
		if depth <= 0 || r.P(25) {
			return
		}
		n := r.some(4)
		if v.Type().Elem().Kind() != reflect.Int64 {
			n = min(n, 1100)
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		r.inside(n, func() {
			for i := 0; i < n; i++ {
				fillGo(r, v.Index(i), below(depth, n))
			}
		})
	case reflect.Struct:
		if h, ok := v.Addr().Interface().(*goHidden); ok {
			fillHidden(r, h, depth)
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				fillGo(r, v.Field(i), depth-1)
			}
		}
		if n, ok := v.Addr().Interface().(*goNamed); ok {
			n.goLeafs = goLeafs{goStr(genString(r)), "y"}
		}
	}
}

func fillHidden(r *Rng, h *goHidden, depth int) {
	h.A, h.b, h.f, h.g, h.i = int64(r.U64()), genString(r), float64(r.Intn(9)), r.P(50), r.U64()
	if r.P(50) {
		h.h = []byte(genString(r))
	}
	for i := r.Intn(3); i > 0; i-- {
		h.e = append(h.e, genString(r))
	}
	if depth > 0 && r.P(70) {
		h.c = &goHidden{}
		fillHidden(r, h.c, depth-1)
	}
	if depth > 0 {
		for i := r.Intn(3); i > 0; i-- {
			h.D = append(h.D, goHidden{})
			fillHidden(r, &h.D[len(h.D)-1], depth-2)
		}
	}
}

func goNodes(v reflect.Value) []*Node {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return []*Node{leaf(Val{})}
		}
		v = v.Elem()
	}
	switch {
	case v.Kind() == reflect.Struct:
		ns := []*Node{}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if (f.Kind() == reflect.Ptr || f.Kind() == reflect.Slice) && f.IsNil() {
				continue
			}
			ns = append(ns, field(v.Type().Field(i).Name, goNodes(f)...))
		}
		return ns
	case v.Kind() == reflect.Slice && v.Type().Elem().Kind() != reflect.Uint8:
		ns := []*Node{}
		for i := 0; i < v.Len(); i++ {
			ns = append(ns, index(i, goNodes(v.Index(i))...))
		}
		return ns
	}
	return []*Node{leaf(goVal(v))}
}

func reflectSource(v reflect.Value) *source {
	return &source{
		format: "reflect", text: fmt.Sprintf("%#v of %v", v, v.Type()), doc: Doc(goNodes(v)),
		fresh: func() (parser.Interface, error) {
			p := sreflect.NewReflectParser()
			return p.Init(v), nil
		},
		point: func(p parser.Interface) error { p.(sreflect.ReflectParser).Init(v); return nil },
	}
}

func genReflect(r *Rng, depth int) *source {
	t := genGoType(r, depth)
	if r.P(70) {
		t = reflect.PtrTo(genGoStruct(r, depth))
	}
	if r.P(15) {
		t = reflect.TypeOf(&goRec{})
	}
	switch {
	case r.P(8):
		t = reflect.TypeOf(&goHidden{})
	case r.P(12):
		t = reflect.TypeOf(&goNamed{})
	}
	p := reflect.New(t)
	fillGo(r, p.Elem(), 2*depth+2)
	v := p.Elem()
	if v.Kind() == reflect.Ptr && v.IsNil() {
		v.Set(reflect.New(t.Elem()))
	}
	return reflectSource(v)
}
