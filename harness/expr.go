package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
)

// E is the harness' own model of a leaf expression: it can be rendered as
// grammar text and evaluated by an independent reference evaluator.
//
// Kinds: b bool, i int, u uint, d double, s string, y bytes; upper case letters
// are the lists.
type E struct {
	Kind byte
	Op   string // "const", "var", "list" or a function name
	C    interface{}
	Args []*E
}

var varName = map[byte]string{'b': "$bool", 'i': "$int", 'u': "$uint", 'd': "$double", 's': "$string", 'y': "$[]byte"}
var listName = map[byte]string{'B': "[]bool", 'I': "[]int", 'U': "[]uint", 'D': "[]double", 'S': "[]string", 'Y': "[][]byte"}

func upper(k byte) byte { return k - 32 }
func lower(k byte) byte {
	if k < 'a' {
		return k + 32
	}
	return k
}

func eConst(k byte, v interface{}) *E      { return &E{Kind: k, Op: "const", C: v} }
func eVar(k byte) *E                       { return &E{Kind: k, Op: "var"} }
func eFn(k byte, op string, args ...*E) *E { return &E{Kind: k, Op: op, Args: args} }
func eList(k byte, elems ...*E) *E         { return &E{Kind: k, Op: "list", Args: elems} }
func (e *E) isConst() bool                 { return e.Op == "const" }
func (e *E) hasVar() bool {
	if e.Op == "var" {
		return true
	}
	for _, a := range e.Args {
		if a.hasVar() {
			return true
		}
	}
	return false
}

// ------------------------------------------------------------ rendering

func quoteStr(r *Rng, s string) string {
	mode := 0
	if r != nil {
		mode = r.Intn(3)
	}
	switch mode {
	case 1:
		if strings.IndexByte(s, '`') < 0 && strings.IndexByte(s, '\r') < 0 && strconv.CanBackquote(s) && !strings.ContainsAny(s, "\n") {
			return "`" + s + "`"
		}
	case 2:
		return strconv.Quote(s)
	}
	return strconv.QuoteToASCII(s)
}

func renderInt(r *Rng, i int64) string {
	if r != nil && r.P(30) {
		return fmt.Sprintf("int(%d)", i)
	}
	return strconv.FormatInt(i, 10)
}

func renderDouble(d float64) string {
	return "double(" + strconv.FormatFloat(d, 'g', -1, 64) + ")"
}

func renderBytes(r *Rng, y []byte) string {
	ss := make([]string, len(y))
	for i, c := range y {
		ss[i] = strconv.Itoa(int(c))
	}
	sep := ","
	if r != nil && r.P(30) {
		sep = ", "
	}
	return "[]byte{" + strings.Join(ss, sep) + "}"
}

func renderConst(r *Rng, k byte, v interface{}) string {
	switch k {
	case 'b':
		return strconv.FormatBool(v.(bool))
	case 'i':
		return renderInt(r, v.(int64))
	case 'u':
		return fmt.Sprintf("uint(%d)", v.(uint64))
	case 'd':
		return renderDouble(v.(float64))
	case 's':
		return quoteStr(r, v.(string))
	case 'y':
		return renderBytes(r, v.([]byte))
	}
	panic("renderConst")
}

// text renders the function form.
func (e *E) text(r *Rng) string {
	switch e.Op {
	case "const":
		return renderConst(r, e.Kind, e.C)
	case "var":
		return varName[e.Kind]
	}
	ss := make([]string, len(e.Args))
	for i, a := range e.Args {
		ss[i] = a.text(r)
	}
	sep := ","
	if r != nil && r.P(40) {
		sep = ", "
	}
	if e.Op == "list" {
		return listName[e.Kind] + "{" + strings.Join(ss, sep) + "}"
	}
	return e.Op + "(" + strings.Join(ss, sep) + ")"
}

var builtinSym = map[string]string{"eq": "==", "ne": "!=", "lt": "<", "gt": ">", "le": "<=", "ge": ">=", "contains": "*=", "hasPrefix": "^=", "hasSuffix": "$=", "regex": "~=", "type": "::"}

// short renders the shorthand (builtin) form, when the expression has one.
func (e *E) short(r *Rng) (string, bool) {
	sym, ok := builtinSym[e.Op]
	if !ok {
		return "", false
	}
	sp := " "
	if r != nil && r.P(30) {
		sp = ""
	}
	switch e.Op {
	case "type":
		if e.Args[0].Op == "var" {
			return sym + sp + e.Args[0].text(r), true
		}
		return "", false
	case "regex":
		if e.Args[1].Op == "var" {
			return sym + sp + e.Args[0].text(r), true
		}
		return "", false
	}
	if len(e.Args) == 2 && e.Args[0].Op == "var" && e.Args[1].Op != "var" && !e.Args[1].hasVar() && e.Args[1].Op == "const" {
		if e.Op == "contains" && e.Args[0].Kind != 's' {
			return "", false
		}
		return sym + sp + e.Args[1].text(r), true
	}
	return "", false
}

// leafText renders the expression as a leaf pattern.
func (e *E) leafText(r *Rng) string {
	if r != nil && r.P(60) {
		if s, ok := e.short(r); ok {
			return s
		}
	}
	sp := ""
	if r != nil && r.P(50) {
		sp = " "
	}
	return "->" + sp + e.text(r)
}

func (e *E) String() string { return e.text(nil) }

// ------------------------------------------------------------ evaluation

var errType = errors.New("type")
var errRange = errors.New("range")

// evalCtx notes whether an error reached something other than a comparison (or
// type): there the code under test is free to report it or to absorb it.
type evalCtx struct{ fuzzy bool }

func wrapIndex(i int64, n int) int64 {
	if i < 0 {
		m := i % int64(n)
		if m < 0 {
			m += int64(n)
		}
		return m
	}
	return i
}

func (e *E) evalBool(v Val, c *evalCtx) (bool, error) {
	x, err := e.eval(v, c)
	if err != nil {
		return false, err
	}
	return x.(bool), nil
}

func cmpVals(a, b interface{}) (int, bool) {
	switch x := a.(type) {
	case bool:
		y := b.(bool)
		if x == y {
			return 0, true
		}
		if !x {
			return -1, true
		}
		return 1, true
	case int64:
		y := b.(int64)
		switch {
		case x < y:
			return -1, true
		case x > y:
			return 1, true
		}
		return 0, true
	case uint64:
		y := b.(uint64)
		switch {
		case x < y:
			return -1, true
		case x > y:
			return 1, true
		}
		return 0, true
	case float64:
		y := b.(float64)
		if math.IsNaN(x) || math.IsNaN(y) {
			return 0, false
		}
		switch {
		case x < y:
			return -1, true
		case x > y:
			return 1, true
		}
		return 0, true
	case string:
		return strings.Compare(x, b.(string)), true
	case []byte:
		return bytes.Compare(x, b.([]byte)), true
	}
	panic(fmt.Sprintf("cmpVals %T", a))
}

func listLen(v interface{}) int {
	switch l := v.(type) {
	case []bool:
		return len(l)
	case []int64:
		return len(l)
	case []uint64:
		return len(l)
	case []float64:
		return len(l)
	case []string:
		return len(l)
	case [][]byte:
		return len(l)
	case string:
		return len(l)
	case []byte:
		return len(l)
	}
	panic(fmt.Sprintf("listLen %T", v))
}

func listElem(v interface{}, i int) interface{} {
	switch l := v.(type) {
	case []bool:
		return l[i]
	case []int64:
		return l[i]
	case []uint64:
		return l[i]
	case []float64:
		return l[i]
	case []string:
		return l[i]
	case [][]byte:
		return l[i]
	}
	panic(fmt.Sprintf("listElem %T", v))
}

func listSlice(v interface{}, i, j int) interface{} {
	switch l := v.(type) {
	case []bool:
		return l[i:j]
	case []int64:
		return l[i:j]
	case []uint64:
		return l[i:j]
	case []float64:
		return l[i:j]
	case []string:
		return l[i:j]
	case [][]byte:
		return l[i:j]
	}
	panic(fmt.Sprintf("listSlice %T", v))
}

// eval is the reference semantics of leaf expressions on one label.
func (e *E) eval(v Val, c *evalCtx) (interface{}, error) {
	switch e.Op {
	case "const":
		return e.C, nil
	case "var":
		switch e.Kind {
		case 'b':
			if v.HasB {
				return v.B, nil
			}
		case 'i':
			if v.HasI {
				return v.I, nil
			}
		case 'u':
			if v.HasU {
				return v.U, nil
			}
		case 'd':
			if v.HasD {
				return v.D, nil
			}
		case 's':
			if v.HasS {
				return v.S, nil
			}
		case 'y':
			if v.HasY {
				return v.Y, nil
			}
		}
		return nil, errType
	case "list":
		xs := make([]interface{}, len(e.Args))
		for i, a := range e.Args {
			x, err := a.eval(v, c)
			if err != nil {
				return nil, err
			}
			xs[i] = x
		}
		switch e.Kind {
		case 'B':
			l := make([]bool, len(xs))
			for i := range xs {
				l[i] = xs[i].(bool)
			}
			return l, nil
		case 'I':
			l := make([]int64, len(xs))
			for i := range xs {
				l[i] = xs[i].(int64)
			}
			return l, nil
		case 'U':
			l := make([]uint64, len(xs))
			for i := range xs {
				l[i] = xs[i].(uint64)
			}
			return l, nil
		case 'D':
			l := make([]float64, len(xs))
			for i := range xs {
				l[i] = xs[i].(float64)
			}
			return l, nil
		case 'S':
			l := make([]string, len(xs))
			for i := range xs {
				l[i] = xs[i].(string)
			}
			return l, nil
		case 'Y':
			l := make([][]byte, len(xs))
			for i := range xs {
				l[i] = xs[i].([]byte)
			}
			return l, nil
		}
		panic("list kind")
	case "and":
		a, err := e.Args[0].evalBool(v, c)
		if err != nil {
			c.fuzzy = true
			return nil, err
		}
		if !a {
			return false, nil
		}
		return e.Args[1].eval(v, c)
	case "or":
		a, err := e.Args[0].evalBool(v, c)
		if err != nil {
			c.fuzzy = true
		}
		if err == nil && a {
			return true, nil
		}
		b, err := e.Args[1].eval(v, c)
		if err != nil {
			c.fuzzy = true
		}
		return b, err
	case "not":
		a, err := e.Args[0].evalBool(v, c)
		if err != nil {
			c.fuzzy = true
			return true, nil
		}
		return !a, nil
	case "type":
		_, err := e.Args[0].eval(v, c)
		return err == nil, nil
	case "eq", "ne", "lt", "le", "gt", "ge":
		a, err := e.Args[0].eval(v, c)
		if err != nil {
			return false, nil
		}
		b, err := e.Args[1].eval(v, c)
		if err != nil {
			return false, nil
		}
		n, ordered := cmpVals(a, b)
		switch e.Op {
		case "eq":
			return ordered && n == 0, nil
		case "ne":
			return !ordered || n != 0, nil
		case "lt":
			return ordered && n < 0, nil
		case "le":
			return ordered && n <= 0, nil
		case "gt":
			return ordered && n > 0, nil
		}
		return ordered && n >= 0, nil
	}
	// everything else is strict
	xs := make([]interface{}, len(e.Args))
	for i, a := range e.Args {
		x, err := a.eval(v, c)
		if err != nil {
			return nil, err
		}
		xs[i] = x
	}
	switch e.Op {
	case "contains":
		if e.Args[1].Kind == 's' {
			return strings.Contains(xs[0].(string), xs[1].(string)), nil
		}
		for i := 0; i < listLen(xs[1]); i++ {
			if n, ok := cmpVals(xs[0], listElem(xs[1], i)); ok && n == 0 {
				return true, nil
			}
		}
		return false, nil
	case "hasPrefix":
		return strings.HasPrefix(xs[0].(string), xs[1].(string)), nil
	case "hasSuffix":
		return strings.HasSuffix(xs[0].(string), xs[1].(string)), nil
	case "eqFold":
		return strings.EqualFold(xs[0].(string), xs[1].(string)), nil
	case "regex":
		return regexp.MustCompile(xs[0].(string)).MatchString(xs[1].(string)), nil
	case "print":
		return xs[0], nil
	case "toLower":
		return strings.ToLower(xs[0].(string)), nil
	case "toUpper":
		return strings.ToUpper(xs[0].(string)), nil
	case "length":
		return int64(listLen(xs[0])), nil
	case "elem":
		n := listLen(xs[0])
		if n == 0 {
			return nil, errRange
		}
		i := wrapIndex(xs[1].(int64), n)
		if i >= int64(n) {
			return nil, errRange
		}
		return listElem(xs[0], int(i)), nil
	case "range":
		n := listLen(xs[0])
		if n == 0 {
			return nil, errRange
		}
		i, j := wrapIndex(xs[1].(int64), n), wrapIndex(xs[2].(int64), n)
		if i > int64(n) || j > int64(n) || i > j {
			return nil, errRange
		}
		return listSlice(xs[0], int(i), int(j)), nil
	}
	if regByOp[e.Op] != nil {
		return regValue(e.Op, e.Kind, xs)
	}
	panic("eval " + e.Op)
}

// ------------------------------------------------------------ generation

// vocab is the small world the random grammars and documents share.
var vocabNames = []string{"A", "B", "C", "D"}
var vocabStr = []string{"a", "b", "ab", "abc", "", "A", "B", "é", "x y", "10", "true"}
var vocabInt = []int64{0, 1, 2, 3, -1, 10, 100}
var vocabUint = []uint64{0, 1, 2, 3, 10, 1 << 40, 1<<63 + 5}
var vocabDouble = []float64{0, 1, 2, 1.5, -1, 0.25, 3, 1e-7, 1e21, 10}
var vocabBytes = [][]byte{{}, {1}, {1, 2}, {255}, {97}}

func genConst(r *Rng, k byte) *E {
	switch k {
	case 'b':
		return eConst('b', r.P(50))
	case 'i':
		return eConst('i', vocabInt[r.Intn(len(vocabInt))])
	case 'u':
		return eConst('u', vocabUint[r.Intn(len(vocabUint))])
	case 'd':
		return eConst('d', vocabDouble[r.Intn(len(vocabDouble))])
	case 's':
		return eConst('s', vocabStr[r.Intn(len(vocabStr))])
	case 'y':
		return eConst('y', vocabBytes[r.Intn(len(vocabBytes))])
	}
	n := r.Intn(4)
	es := make([]*E, n)
	for i := range es {
		es[i] = genConst(r, lower(k))
	}
	return eList(k, es...)
}

var vocabRegex = []string{"a", "^a", "b$", "^$", "a|b", "[ab]+", "a.*c", "^(ab)*$", "\\d+", "x y"}

// genExpr makes a random expression of kind k; pVar is how eager leaves are to
// be variables.
func genExpr(r *Rng, k byte, depth int, pVar int) *E {
	if depth <= 0 {
		if k >= 'a' && r.P(pVar) {
			return eVar(k)
		}
		return genConst(r, k)
	}
	d := depth - 1
	g := func(k byte) *E { return genExpr(r, k, d, pVar) }
	scalars := "biudsy"
	switch k {
	case 'b':
		switch r.Intn(14) {
		case 0, 1, 2:
			return eFn('b', r.Pick("eq", "ne"), pair(g, scalars[r.Intn(6)])...)
		case 3, 4:
			return eFn('b', r.Pick("lt", "le", "gt", "ge"), pair(g, "iudy"[r.Intn(4)])...)
		case 5:
			return eFn('b', "and", g('b'), g('b'))
		case 6:
			return eFn('b', "or", g('b'), g('b'))
		case 7:
			return eFn('b', "not", g('b'))
		case 8:
			return eFn('b', r.Pick("contains", "hasPrefix", "hasSuffix", "eqFold"), g('s'), g('s'))
		case 9:
			return eFn('b', "regex", eConst('s', vocabRegex[r.Intn(len(vocabRegex))]), g('s'))
		case 10:
			lk := "IUS"[r.Intn(3)]
			return eFn('b', "contains", g(lower(lk)), genConst(r, lk))
		case 11:
			return eFn('b', "type", g(scalars[r.Intn(6)]))
		case 12:
			return eFn('b', "elem", g('B'), g('i'))
		}
		return genExpr(r, k, 0, pVar)
	case 'i':
		switch r.Intn(4) {
		case 0:
			return eFn('i', "length", g("BIUDSYsy"[r.Intn(8)]))
		case 1:
			return eFn('i', "elem", g('I'), g('i'))
		}
		return genExpr(r, k, 0, pVar)
	case 's':
		switch r.Intn(4) {
		case 0:
			return eFn('s', r.Pick("toLower", "toUpper"), g('s'))
		case 1:
			return eFn('s', "elem", g('S'), g('i'))
		}
		return genExpr(r, k, 0, pVar)
	case 'u', 'd', 'y':
		if r.Intn(3) == 0 {
			return eFn(k, "elem", g(upper(k)), g('i'))
		}
		return genExpr(r, k, 0, pVar)
	}
	// lists
	switch r.Intn(3) {
	case 0:
		return eFn(k, "range", g(k), g('i'), g('i'))
	case 1:
		n := r.Intn(4)
		es := make([]*E, n)
		for i := range es {
			es[i] = g(lower(k))
		}
		return eList(k, es...)
	}
	return genConst(r, k)
}

func pair(g func(byte) *E, k byte) []*E { return []*E{g(k), g(k)} }

// genTotal makes a boolean expression that never raises an error: comparisons
// absorb the errors of their arguments, and and/or/not are over such.
func genTotal(r *Rng, depth int) *E {
	if depth > 0 {
		switch r.Intn(8) {
		case 0:
			return eFn('b', "and", genTotal(r, depth-1), genTotal(r, depth-1))
		case 1:
			return eFn('b', "or", genTotal(r, depth-1), genTotal(r, depth-1))
		case 2:
			return eFn('b', "not", genTotal(r, depth-1))
		case 3:
			return eFn('b', "type", eVar("biudsy"[r.Intn(6)]))
		}
	}
	return genCmp(r, depth)
}

func genCmp(r *Rng, depth int) *E {
	k := "iusdbysi"[r.Intn(8)]
	op := "eq"
	if k == 'b' || k == 's' {
		op = r.Pick("eq", "eq", "ne")
	} else {
		op = r.Pick("eq", "eq", "ne", "lt", "le", "gt", "ge")
	}
	a := eVar(k)
	if depth > 0 && r.P(15) {
		switch k {
		case 's':
			a = eFn('s', r.Pick("toLower", "toUpper"), eVar('s'))
		case 'i':
			a = eFn('i', "length", eVar("sy"[r.Intn(2)]))
		}
	}
	b := genConst(r, k)
	if r.P(15) {
		return eFn('b', op, b, a)
	}
	return eFn('b', op, a, b)
}
