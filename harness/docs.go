package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/katydid/katydid/relapse/funcs"
	"github.com/katydid/katydid/relapse/types"
)

// documented are the functions that the list of functions promises.
const documented = `
func and(bool,bool) bool
func contains(int,const []int) bool
func contains(string,const []string) bool
func contains(string,string) bool
func contains(uint,const []uint) bool
func elem([][]byte,int) []byte
func elem([]bool,int) bool
func elem([]double,int) double
func elem([]int,int) int
func elem([]string,int) string
func elem([]uint,int) uint
func eq([]byte,[]byte) bool
func eq(bool,bool) bool
func eq(double,double) bool
func eq(int,int) bool
func eq(string,string) bool
func eq(uint,uint) bool
func eqFold(string,string) bool
func ge([]byte,[]byte) bool
func ge(double,double) bool
func ge(int,int) bool
func ge(uint,uint) bool
func gt([]byte,[]byte) bool
func gt(double,double) bool
func gt(int,int) bool
func gt(uint,uint) bool
func hasPrefix(string,string) bool
func hasSuffix(string,string) bool
func le([]byte,[]byte) bool
func le(double,double) bool
func le(int,int) bool
func le(uint,uint) bool
func length([][]byte) int
func length([]bool) int
func length([]byte) int
func length([]double) int
func length([]int) int
func length([]string) int
func length([]uint) int
func length(string) int
func lt([]byte,[]byte) bool
func lt(double,double) bool
func lt(int,int) bool
func lt(uint,uint) bool
func ne([]byte,[]byte) bool
func ne(bool,bool) bool
func ne(double,double) bool
func ne(int,int) bool
func ne(string,string) bool
func ne(uint,uint) bool
func not(bool) bool
func now() int
func or(bool,bool) bool
func print([][]byte) [][]byte
func print([]bool) []bool
func print([]byte) []byte
func print([]double) []double
func print([]int) []int
func print([]string) []string
func print([]uint) []uint
func print(bool) bool
func print(double) double
func print(int) int
func print(string) string
func print(uint) uint
func range([][]byte,int,int) [][]byte
func range([]bool,int,int) []bool
func range([]double,int,int) []double
func range([]int,int,int) []int
func range([]string,int,int) []string
func range([]uint,int,int) []uint
func regex(const string,string) bool
func toLower(string) string
func toUpper(string) string
func type([]byte) bool
func type(bool) bool
func type(double) bool
func type(int) bool
func type(string) bool
func type(uint) bool
`

var kindOfDoc = map[string]byte{"bool": 'b', "int": 'i', "uint": 'u', "double": 'd', "string": 's', "[]byte": 'y',
	"[]bool": 'B', "[]int": 'I', "[]uint": 'U', "[]double": 'D', "[]string": 'S', "[][]byte": 'Y'}

type docSig struct {
	in     string
	consts []bool
	out    byte
}

func docSigs() map[string][]docSig {
	sigs := map[string][]docSig{}
	for _, l := range strings.Split(strings.TrimSpace(documented), "\n") {
		l = strings.TrimPrefix(l, "func ")
		open, closed := strings.Index(l, "("), strings.LastIndex(l, ")")
		var s docSig
		for _, in := range strings.Split(l[open+1:closed], ",") {
			if in == "" {
				continue
			}
			s.consts = append(s.consts, strings.HasPrefix(in, "const "))
			s.in += string(rune(kindOfDoc[strings.TrimPrefix(in, "const ")]))
		}
		s.out = kindOfDoc[strings.TrimSpace(l[closed+1:])]
		sigs[l[:open]] = append(sigs[l[:open]], s)
	}
	return sigs
}

// checkDocumented looks for one name with all arguments of up to three types.
func checkDocumented(t *T, op string, sigs []docSig) {
	kinds := "biudsyBIUDSY"
	var ins []string
	for _, a := range append(strings.Split(kinds, ""), "") {
		for _, b := range append(strings.Split(kinds, ""), "") {
			for _, c := range append(strings.Split(kinds, ""), "") {
				if a == "" && b+c != "" || b == "" && c != "" {
					continue
				}
				ins = append(ins, a+b+c)
			}
		}
	}
	found := 0
	for _, in := range ins {
		var ts []types.Type
		for i := range in {
			ts = append(ts, typeOfKind[in[i]])
		}
		t.Info("looking for %s with %v", op, ts)
		var want *docSig
		for i := range sigs {
			if sigs[i].in == in {
				want = &sigs[i]
			}
		}
		mk, err := funcs.GetMaker(op, ts...)
		t.Count("signatures_tried", 1)
		if want == nil {
			if err == nil {
				t.Fail("a function was found that is not in the list of functions: %s", mk)
			}
			continue
		}
		if err != nil {
			t.Fail("a function of the list of functions is not found: %v", err)
		}
		if mk.Name != op || mk.Out != typeOfKind[want.out] || !reflect.DeepEqual(append([]types.Type{}, mk.In...), append([]types.Type{}, ts...)) ||
			!reflect.DeepEqual(append([]bool{}, mk.InConst...), append([]bool{}, want.consts...)) {
			t.Fail("the function is found as %s with constants %v instead of %s(%s) %c with constants %v", mk, mk.InConst, op, in, want.out, want.consts)
		}
		found++
	}
	if found != len(sigs) {
		t.Fail("harness: %d of %d found", found, len(sigs))
	}
	t.Nontrivial("documented", op)
}

// checkTypes: the types of Go values and of expressions correspond.
func checkTypes(t *T) {
	goTypes := map[byte]reflect.Type{}
	for k, v := range map[byte]interface{}{'b': true, 'i': int64(0), 'u': uint64(0), 'd': float64(0), 's': "", 'y': []byte{},
		'B': []bool{}, 'I': []int64{}, 'U': []uint64{}, 'D': []float64{}, 'S': []string{}, 'Y': [][]byte{}} {
		goTypes[k] = reflect.TypeOf(v)
	}
	for k, typ := range typeOfKind {
		t.Info("the type %v", typ)
		if got := types.FromGo(goTypes[k]); got != typ {
			t.Fail("the Go type %v is of type %v", goTypes[k], got)
		}
		isList := k < 'a'
		if types.IsList(typ) != isList || types.IsSingle(typ) != !isList {
			t.Fail("IsList gives %v and IsSingle %v", types.IsList(typ), types.IsSingle(typ))
		}
		if isList {
			if got := types.ListToSingle(typ); got != typeOfKind[lower(k)] {
				t.Fail("its single type is %v", got)
			}
		} else if got := types.SingleToList(typ); got != typeOfKind[upper(k)] {
			t.Fail("its list type is %v", got)
		}
	}
	if types.IsList(types.UNKNOWN) || types.IsSingle(types.UNKNOWN) {
		t.Fail("the unknown type is a list or single")
	}
	for _, typ := range []interface{}{int32(0), uint8(0), float32(0), []int{}, []int32{}, [][]int64{}, struct{}{}, map[string]int64{}, new(int64)} {
		func() {
			defer func() {
				if recover() == nil {
					t.Fail("the Go type %T has a type", typ)
				}
			}()
			types.FromGo(reflect.TypeOf(typ))
		}()
	}
	t.Nontrivial(fmt.Sprint("types"))
}
