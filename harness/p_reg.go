package main

import (
	"errors"
	"fmt"
	"hash/fnv"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/funcs"
	"github.com/katydid/katydid/relapse/types"
)

// Functions that a user of the library registers: pure ones of many
// signatures under few names, ones that fail, one whose value changes.

type regSig struct {
	op    string
	in    string
	out   byte
	hash  uint64
	evals int64
	made  int64
}

var regSigs []*regSig
var regByOp = map[string][]*regSig{}

var errReg = errors.New("harness: the registered function fails")

func kindOfGo(t reflect.Type) byte {
	k := byte(0)
	switch t.Kind() {
	case reflect.Bool:
		return 'b'
	case reflect.Int64:
		return 'i'
	case reflect.Uint64:
		return 'u'
	case reflect.Float64:
		return 'd'
	case reflect.String:
		return 's'
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			return 'y'
		}
		k = upper(kindOfGo(t.Elem()))
	}
	return k
}

func evalAny(f funcs.Func) (interface{}, error) {
	switch f := f.(type) {
	case funcs.Bool:
		return f.Eval()
	case funcs.Int:
		return f.Eval()
	case funcs.Uint:
		return f.Eval()
	case funcs.Double:
		return f.Eval()
	case funcs.String:
		return f.Eval()
	case funcs.Bytes:
		return f.Eval()
	case funcs.Bools:
		return f.Eval()
	case funcs.Ints:
		return f.Eval()
	case funcs.Uints:
		return f.Eval()
	case funcs.Doubles:
		return f.Eval()
	case funcs.Strings:
		return f.Eval()
	case funcs.ListOfBytes:
		return f.Eval()
	}
	panic(fmt.Sprintf("harness: no function: %T", f))
}

// regValue is what a registered function computes.
func regValue(op string, out byte, xs []interface{}) (interface{}, error) {
	if op == "regcell" {
		return cellValue(xs[0].(int64)), nil
	}
	h := fnv.New64a()
	fmt.Fprintf(h, "%s:%c", op, out)
	for _, x := range xs {
		v := reflect.ValueOf(x)
		if v.Kind() == reflect.Slice {
			fmt.Fprintf(h, "|%d", v.Len())
			for i := 0; i < v.Len(); i++ {
				fmt.Fprintf(h, ",%v", v.Index(i).Interface())
			}
		} else {
			fmt.Fprintf(h, "|%v", x)
		}
	}
	r := newRng(h.Sum64())
	if op == "regfail" && r.P(40) {
		return nil, errReg
	}
	return valueOf(r, out), nil
}

func valueOf(r *Rng, k byte) interface{} {
	switch k {
	case 'b':
		return r.P(50)
	case 'i':
		return vocabInt[r.Intn(4)]
	case 'u':
		return vocabUint[r.Intn(4)]
	case 'd':
		return vocabDouble[r.Intn(4)]
	case 's':
		return vocabStr[r.Intn(5)]
	case 'y':
		return vocabBytes[r.Intn(3)]
	}
	n := r.Intn(4)
	es := make([]*E, n)
	for i := range es {
		es[i] = eConst(lower(k), valueOf(r, lower(k)))
	}
	v, _ := eList(k, es...).eval(Val{}, &evalCtx{})
	return v
}

type regNode interface {
	funcs.Func
	regSig() *regSig
	regArgs() []funcs.Func
}

func regEval[R any](n regNode) (R, error) {
	var zero R
	m := n.regSig()
	atomic.AddInt64(&m.evals, 1)
	var xs []interface{}
	for _, a := range n.regArgs() {
		x, err := evalAny(a)
		if err != nil {
			return zero, err
		}
		xs = append(xs, x)
	}
	v, err := regValue(m.op, m.out, xs)
	if err != nil {
		return zero, err
	}
	return v.(R), nil
}

func regHash(n regNode) uint64 {
	h := n.regSig().hash
	for _, a := range n.regArgs() {
		h = 31*h + a.Hash()
	}
	return h
}

func regString(n regNode) string {
	var ss []string
	for _, a := range n.regArgs() {
		ss = append(ss, a.String())
	}
	return n.regSig().op + "(" + strings.Join(ss, ",") + ")"
}

func regHasVar(n regNode) bool {
	if n.regSig().op == "regcell" {
		return true
	}
	for _, a := range n.regArgs() {
		if a.HasVariable() {
			return true
		}
	}
	return false
}

func regCompare(n regNode, that funcs.Comparable) int {
	if h, o := n.Hash(), that.Hash(); h != o {
		if h < o {
			return -1
		}
		return 1
	}
	o, ok := that.(regNode)
	if !ok {
		return strings.Compare(n.String(), that.String())
	}
	a, b := n.regSig(), o.regSig()
	if c := strings.Compare(a.op+" "+a.in, b.op+" "+b.in); c != 0 {
		return c
	}
	for i, x := range n.regArgs() {
		if c := x.Compare(o.regArgs()[i]); c != 0 {
			return c
		}
	}
	return 0
}

type reg0[R any] struct{ m *regSig }
type reg1[R any, A funcs.Func] struct {
	A A
	m *regSig
}
type reg2[R any, A, B funcs.Func] struct {
	m *regSig
	A A
	B B
}
type reg3[R any, A, B, C funcs.Func] struct {
	A A
	B B
	m *regSig
	C C
}

func (n *reg0[R]) regSig() *regSig                   { return n.m }
func (n *reg0[R]) regArgs() []funcs.Func             { return nil }
func (n *reg0[R]) Eval() (R, error)                  { return regEval[R](n) }
func (n *reg0[R]) Hash() uint64                      { return regHash(n) }
func (n *reg0[R]) String() string                    { return regString(n) }
func (n *reg0[R]) HasVariable() bool                 { return regHasVar(n) }
func (n *reg0[R]) Compare(that funcs.Comparable) int { return regCompare(n, that) }

func (n *reg1[R, A]) regSig() *regSig                   { return n.m }
func (n *reg1[R, A]) regArgs() []funcs.Func             { return []funcs.Func{n.A} }
func (n *reg1[R, A]) Eval() (R, error)                  { return regEval[R](n) }
func (n *reg1[R, A]) Hash() uint64                      { return regHash(n) }
func (n *reg1[R, A]) String() string                    { return regString(n) }
func (n *reg1[R, A]) HasVariable() bool                 { return regHasVar(n) }
func (n *reg1[R, A]) Compare(that funcs.Comparable) int { return regCompare(n, that) }

func (n *reg2[R, A, B]) regSig() *regSig                   { return n.m }
func (n *reg2[R, A, B]) regArgs() []funcs.Func             { return []funcs.Func{n.A, n.B} }
func (n *reg2[R, A, B]) Eval() (R, error)                  { return regEval[R](n) }
func (n *reg2[R, A, B]) Hash() uint64                      { return regHash(n) }
func (n *reg2[R, A, B]) String() string                    { return regString(n) }
func (n *reg2[R, A, B]) HasVariable() bool                 { return regHasVar(n) }
func (n *reg2[R, A, B]) Compare(that funcs.Comparable) int { return regCompare(n, that) }

func (n *reg3[R, A, B, C]) regSig() *regSig                   { return n.m }
func (n *reg3[R, A, B, C]) regArgs() []funcs.Func             { return []funcs.Func{n.A, n.B, n.C} }
func (n *reg3[R, A, B, C]) Eval() (R, error)                  { return regEval[R](n) }
func (n *reg3[R, A, B, C]) Hash() uint64                      { return regHash(n) }
func (n *reg3[R, A, B, C]) String() string                    { return regString(n) }
func (n *reg3[R, A, B, C]) HasVariable() bool                 { return regHasVar(n) }
func (n *reg3[R, A, B, C]) Compare(that funcs.Comparable) int { return regCompare(n, that) }

func newSig(op string, out reflect.Type, in ...reflect.Type) *regSig {
	m := &regSig{op: op, out: kindOfGo(out)}
	for _, t := range in {
		e, _ := t.MethodByName("Eval")
		m.in += string(kindOfGo(e.Type.Out(0)))
	}
	if op == "rega" || op == "regb" { // these collide
		m.hash = 4711
	} else {
		h := fnv.New64a()
		h.Write([]byte(op + m.in))
		m.hash = h.Sum64()
	}
	regSigs = append(regSigs, m)
	regByOp[op] = append(regByOp[op], m)
	return m
}

func typeOf[X any]() reflect.Type { return reflect.TypeOf((*X)(nil)).Elem() }

func add0[R any](op string) {
	m := newSig(op, typeOf[R]())
	funcs.Register(op, func() *reg0[R] {
		atomic.AddInt64(&m.made, 1)
		return &reg0[R]{m: m}
	})
}

func add1[R any, A funcs.Func](ops ...string) {
	for _, op := range ops {
		m := newSig(op, typeOf[R](), typeOf[A]())
		funcs.Register(op, func(a A) *reg1[R, A] {
			atomic.AddInt64(&m.made, 1)
			return &reg1[R, A]{A: a, m: m}
		})
	}
}

func add2[R any, A, B funcs.Func](ops ...string) {
	for _, op := range ops {
		m := newSig(op, typeOf[R](), typeOf[A](), typeOf[B]())
		// with a constructor that could fail
		funcs.Register(op, func(a A, b B) (*reg2[R, A, B], error) {
			atomic.AddInt64(&m.made, 1)
			return &reg2[R, A, B]{A: a, B: b, m: m}, nil
		})
	}
}

func add3[R any, A, B, C funcs.Func](ops ...string) {
	for _, op := range ops {
		m := newSig(op, typeOf[R](), typeOf[A](), typeOf[B](), typeOf[C]())
		funcs.Register(op, func(a A, b B, c C) *reg3[R, A, B, C] {
			atomic.AddInt64(&m.made, 1)
			return &reg3[R, A, B, C]{A: a, B: b, C: c, m: m}
		})
	}
}

// regPos is refused unless its argument is a constant that is not negative.
type regPos struct {
	I funcs.ConstInt
}

var errRegPos = errors.New("harness: regpos wants a constant that is not negative")

func newRegPos(i funcs.ConstInt) (*regPos, error) {
	p := &regPos{i}
	if i.HasVariable() {
		return nil, errRegPos
	}
	v, err := i.Eval()
	if err != nil {
		return nil, err
	}
	if v < 0 {
		return p, errRegPos // with what would have been the result
	}
	return p, nil
}
func (p *regPos) Eval() (int64, error)              { return p.I.Eval() }
func (p *regPos) Hash() uint64                      { return 99991 + p.I.Hash() }
func (p *regPos) String() string                    { return "regpos(" + p.I.String() + ")" }
func (p *regPos) HasVariable() bool                 { return false }
func (p *regPos) Compare(that funcs.Comparable) int { return cmpProbe(p.String(), p.Hash(), that) }

// regcell(n) gives what the cell n holds at the moment.
var cells sync.Map

func cellValue(n int64) int64 {
	v, _ := cells.Load(n)
	i, _ := v.(int64)
	return i
}

func init() {
	register("P40", &check{
		rule: "a case is one grammar or expression that calls registered functions; non-trivial when it had different results on the labels or documents it was given, distinct by its text",
		assume: []string{
			"a registered function keeps to the interface: it compares and hashes by value, says whether it has a variable, prints as a call and is a pointer to a structure with its arguments in exported fields",
		},
		run: runP40,
	})
	add0[bool]("regk")
	add0[[]byte]("regkbytes")
	add0[int64]("regkint")
	add0[string]("regkstring")
	add0[[]int64]("regkints")
	add0[[]string]("regkstrings")
	// one name, twelve kinds
	add1[bool, funcs.Bool]("reg", "rega", "regb", "regfail")
	add1[bool, funcs.Int]("reg", "rega", "regb", "regfail")
	add1[bool, funcs.Uint]("reg", "rega")
	add1[bool, funcs.Double]("reg", "rega")
	add1[bool, funcs.String]("reg", "rega", "regb", "regfail")
	add1[bool, funcs.Bytes]("reg", "regb")
	add1[bool, funcs.Bools]("reg")
	add1[bool, funcs.Ints]("reg", "rega", "regb")
	add1[bool, funcs.Uints]("reg")
	add1[bool, funcs.Doubles]("reg")
	add1[bool, funcs.Strings]("reg", "rega", "regb")
	add1[bool, funcs.ListOfBytes]("reg")
	// from each kind to itself
	add1[bool, funcs.Bool]("regid")
	add1[int64, funcs.Int]("regid")
	add1[uint64, funcs.Uint]("regid")
	add1[float64, funcs.Double]("regid")
	add1[string, funcs.String]("regid")
	add1[[]byte, funcs.Bytes]("regid")
	add1[[]bool, funcs.Bools]("regid")
	add1[[]int64, funcs.Ints]("regid")
	add1[[]uint64, funcs.Uints]("regid")
	add1[[]float64, funcs.Doubles]("regid")
	add1[[]string, funcs.Strings]("regid")
	add1[[][]byte, funcs.ListOfBytes]("regid")
	// conversions
	add1[int64, funcs.String]("regconv")
	add1[string, funcs.Int]("regconv")
	add1[[]byte, funcs.String]("regbytes")
	add1[uint64, funcs.Int]("reguint")
	add1[float64, funcs.Int]("regdouble")
	add1[[]string, funcs.String]("regsplit")
	add1[[]int64, funcs.String]("regcodes")
	// more arguments, in both orders
	add2[bool, funcs.Int, funcs.String]("reg", "regfail")
	add2[bool, funcs.String, funcs.Int]("reg", "regfail")
	add2[bool, funcs.Bool, funcs.Bool]("reg", "rega", "regb")
	add2[bool, funcs.String, funcs.Strings]("reg")
	add2[bool, funcs.Bytes, funcs.ListOfBytes]("reg")
	add2[int64, funcs.Int, funcs.Int]("regid")
	add2[string, funcs.String, funcs.Ints]("regid")
	add2[[]string, funcs.Strings, funcs.Strings]("regid")
	add3[bool, funcs.Bool, funcs.Int, funcs.String]("reg", "rega")
	add3[string, funcs.Bool, funcs.String, funcs.String]("regif")
	add3[int64, funcs.Int, funcs.Int, funcs.Int]("regid")
	add3[[]int64, funcs.Int, funcs.Ints, funcs.Int]("regid")
	add1[int64, funcs.Int]("regcell")
	funcs.Register("regpos", newRegPos)
}

// mixReg puts registered functions into an expression; total keeps an
// expression without errors that way.
func mixReg(r *Rng, e *E, pct int, total bool) *E {
	c := *e
	c.Args = nil
	for i, a := range e.Args {
		if e.Op == "regex" && i == 0 || e.Op == "contains" && i == 1 && a.Kind < 'a' || e.Op == "type" && total {
			c.Args = append(c.Args, a.clone())
			continue
		}
		in := total && (e.Op == "and" || e.Op == "or" || e.Op == "not")
		c.Args = append(c.Args, mixReg(r, a, pct, in))
	}
	if !r.P(pct) {
		return &c
	}
	var can []*regSig
	for _, m := range regSigs {
		if m.out == c.Kind && m.op != "regcell" && !(total && (m.op == "regfail" || strings.Trim(m.in, "b") != "")) {
			can = append(can, m)
		}
	}
	if len(can) == 0 {
		return &c
	}
	m := can[r.Intn(len(can))]
	used := false
	n := eFn(m.out, m.op)
	for i := range m.in {
		k := m.in[i]
		var a *E
		switch {
		case k == c.Kind && !used:
			a, used = &c, true
		case total:
			a = genTotal(r, 1)
		default:
			a = genExpr(r, k, r.Intn(2), 60)
			if r.P(40) {
				a = mixReg(r, a, pct/2, false)
			}
		}
		n.Args = append(n.Args, a)
	}
	return n
}

func usesReg(e *E) bool {
	uses := false
	e.walk(func(x *E) { uses = uses || regByOp[x.Op] != nil })
	return uses
}

func runP40(c *Ctx) {
	if c.div == 0 { // registering is not for concurrent use
		c.RunSeq("registering", 1, func(t *T) { runRegistering(t) })
	}
	c.Run("expressions", c.N(50000), func(t *T) {
		e := mixReg(t.Rng, genAnyExpr(t.Rng, 'b'), 40, false)
		if !usesReg(e) {
			return
		}
		text := e.text(t.Rng)
		f := mustFunc(t, text)
		ev := evaluator(t, f)
		// a second one that is made from the text of the first one
		again, err := funcOf(f.String())
		if err != nil {
			t.Fail("printed as %s it is refused: %v", f, err)
		}
		if !funcs.Equal(f, mustFunc(t, text)) {
			t.Fail("not equal to the same one: %s", text)
		}
		ev2 := evaluator(t, again)
		labels := genLabels(t.Rng, e, 8)
		seen := 0
		for round := 0; round < 2; round++ {
			for _, i := range t.Perm(len(labels)) {
				v := labels[i]
				t.Info("expression: %s\nlabel: %v", text, v)
				want := e.outcomes(v)
				got := outcomeOf(ev.Eval(labelOf(v)))
				if got&want == 0 {
					t.Fail("evaluates to %s, but means %s\nexpression: %s\nlabel: %v", outcomeName(got), outcomeName(want), text, v)
				}
				if got := outcomeOf(ev2.Eval(labelOf(v))); got&want == 0 {
					t.Fail("printed as %s it evaluates to %s, but means %s\nexpression: %s\nlabel: %v", f, outcomeName(got), outcomeName(want), text, v)
				}
				t.Count("evaluations_compared", 2)
				seen |= got
			}
		}
		if seen&(seen-1) != 0 {
			t.Nontrivial(text)
			t.Sample("%s -> %s", text, outcomeName(seen))
		}
	})
	c.Run("signatures", c.N(20000), func(t *T) {
		e := mixReg(t.Rng, genAnyExpr(t.Rng, 'b'), 50, false)
		if t.P(80) {
			e = illTyped(t.Rng, e)
		}
		if t.P(40) { // another registered name
			var all []*E
			e.walk(func(x *E) {
				if regByOp[x.Op] != nil {
					all = append(all, x)
				}
			})
			if len(all) > 0 {
				all[t.Intn(len(all))].Op = regSigs[t.Intn(len(regSigs))].op
			}
		}
		if !usesReg(e) {
			return
		}
		text := e.text(t.Rng)
		t.Info("composing %s", text)
		k := e.kindOf()
		_, err := funcOf(text)
		if k == 'b' && err != nil {
			// constructors evaluate their constant arguments
			if strings.Contains(err.Error(), "range check error") || strings.Contains(err.Error(), errReg.Error()) {
				t.Count("constant_fails", 1)
				return
			}
			t.Fail("the well typed expression is refused: %v", err)
		}
		if k != 'b' && err == nil {
			t.Fail("the ill typed expression is accepted")
		}
		if k == 'b' {
			t.Count("well_typed", 1)
		} else {
			t.Count("ill_typed", 1)
			t.Nontrivial(text)
		}
	})
	c.Run("refused", c.N(4000), func(t *T) {
		// a constructor that refuses its argument
		n := vocabInt[t.Intn(len(vocabInt))]
		arg, ok := eConst('i', n), n >= 0
		switch t.Intn(4) {
		case 0:
			arg, ok = eVar('i'), false
		case 1:
			arg, ok = eFn('i', "length", eConst('s', "abc")), true
		case 2:
			arg, ok = eFn('i', "regid", eConst('i', n)), false
			if v, err := regValue("regid", 'i', []interface{}{n}); err == nil {
				ok = v.(int64) >= 0
			}
		}
		e := eFn('b', "eq", eVar('i'), eFn('i', "regpos", arg))
		if t.P(50) {
			e = eFn('b', "or", genTotal(t.Rng, 1), e)
		}
		g, docs := genGrammar(t.Rng, genStyle(t.Rng), gramStyle{total: true}, 14, 3)
		done := false
		g = g.mapExprs(func(x *E) *E {
			if done {
				return x
			}
			done = true
			return e
		})
		if !done {
			g = newG(pLeaf(e))
		}
		text := g.text(t.Rng)
		t.Info("grammar: %s", text)
		a := mustParse(t, text)
		m, err := newMem(a)
		if !ok {
			if err == nil {
				t.Fail("the function refuses its argument, but the grammar is accepted")
			}
			if arg.Op != "var" && !errors.Is(err, errRegPos) && !strings.Contains(err.Error(), errRegPos.Error()) {
				t.Fail("the error of the constructor was lost: %v", err)
			}
			if _, err := run(internV(a, false), docs[0]); err == nil {
				t.Count("refused", 1)
			}
			// simplifying may remove the pattern, but not one that stands alone
			alone := newG(pLeaf(e)).text(t.Rng)
			t.Info("grammar: %s", alone)
			if _, err := newAuto(mustParse(t, alone)); err == nil {
				t.Fail("the function refuses its argument, but an automaton is built")
			}
			t.Nontrivial(text)
			return
		}
		if err != nil {
			t.Fail("the grammar is refused: %v", err)
		}
		_ = m
	})
	c.Run("grammars", c.N(25000), func(t *T) {
		st := genStyle(t.Rng)
		record := t.P(25)
		if record {
			st.dups = false
		}
		var g *G
		var docs []Doc
		if t.P(30) {
			g, docs = genSmall(t.Rng, record)
			for i := range docs { // some of them
				j := i + t.Intn(len(docs)-i)
				docs[i], docs[j] = docs[j], docs[i]
			}
			docs = docs[:12]
		} else {
			g, docs = genGrammar(t.Rng, st, gramStyle{total: true}, 18, 5)
		}
		n := 0
		g = g.mapExprs(func(e *E) *E {
			x := mixReg(t.Rng, e, 35, true)
			if usesReg(x) {
				n++
			}
			return x
		})
		if n == 0 {
			return
		}
		text := g.text(t.Rng)
		t.Info("grammar: %s", text)
		a := mustParse(t, text)
		vs := map[string]validator{"intern": internV(a, false), "interp": interpV(a)}
		m, err := newMem(a)
		if err != nil {
			t.Fail("the grammar is refused: %v", err)
		}
		vs["mem"] = m
		if record {
			r, err := newMemRecord(a)
			if err != nil {
				t.Fail("the grammar is refused for records: %v", err)
			}
			vs["mem record"] = r
			vs["intern record"] = internV(a, true)
		}
		if t.P(30) {
			if au, err := newAuto(a); err == nil {
				vs["auto"] = au
			}
		}
		seen := [2]bool{}
		for _, d := range docs {
			want, certain, err := refVerdict(g, d)
			if err != nil || !certain {
				t.Count("inconclusive", 1)
				continue
			}
			for name, v := range vs {
				t.Info("%s\ngrammar: %s\ndocument: %v", name, text, d)
				got, _ := run(v, d)
				if got.err != nil || got.ok != want {
					t.Fail("%s: verdict %v, but the grammar means %v\ngrammar: %s\ndocument: %v", name, got, want, text, d)
				}
				t.Count("verdicts_compared", 1)
			}
			if want {
				seen[1] = true
			} else {
				seen[0] = true
			}
		}
		if seen[0] && seen[1] {
			t.Nontrivial(text)
			t.Sample("%s", text)
		}
	})
	c.Run("failing", c.N(30000), func(t *T) {
		// an expression that fails makes every validator fail
		e := genAnyExpr(t.Rng, 'b')
		if t.P(60) {
			e = mixReg(t.Rng, e, 40, false)
		}
		labels := genLabels(t.Rng, e, 6)
		var fails []Val
		for _, v := range labels {
			if e.outcomes(v) == bE {
				fails = append(fails, v)
			}
		}
		if len(fails) == 0 {
			return
		}
		v := leaf(fails[t.Intn(len(fails))])
		text := e.text(t.Rng)
		if _, err := funcOf(text); err != nil {
			t.Count("fails_when_composed", 1)
			return
		}
		var gt string
		d := Doc{field("A", v)}
		switch t.Intn(6) {
		case 0:
			gt, d = "->"+text, Doc{v}
		case 1:
			gt = "A:->" + text
		case 2:
			gt = "{A:->" + text + ";B:*}"
		case 3:
			gt, d = "[A:*,B:@x]\n#x = ->"+text, Doc{field("A"), field("B", v)}
		case 4:
			gt, d = "A:(->"+text+")*", Doc{field("A", v, v)}
		case 5:
			gt = "!(A:->" + text + ")"
		}
		a := mustParse(t, gt)
		t.Info("grammar: %s\ndocument: %v", gt, d)
		es := []engine{{"intern", internV(a, false)}, {"intern for records", internV(a, true)}, {"interp", interpV(a)}}
		for name, make := range map[string]func(*ast.Grammar) (validator, error){"mem": newMem, "mem for records": newMemRecord, "auto": newAuto, "auto for records": newAutoRecord} {
			if strings.HasPrefix(name, "auto") && !t.P(30) {
				continue
			}
			m, err := make(a)
			if err != nil {
				t.Fail("%s refuses the grammar: %v", name, err)
			}
			es = append(es, engine{name, m})
		}
		for _, en := range es {
			for i := 0; i < 2; i++ {
				if got := runParser(en.v, newTreeParser(d)); got.err == nil {
					t.Fail("%s gives %v where an expression fails\ngrammar: %s\ndocument: %v", en.name, got, gt, d)
				}
			}
			t.Count("failures_reported", 1)
		}
		t.Nontrivial("failing", text)
	})
	c.Run("changing", c.N(6000), func(t *T) {
		// functions whose value changes between the documents
		st := genStyle(t.Rng)
		g, docs := genGrammar(t.Rng, st, gramStyle{total: true}, 14, 4)
		base := int64(t.idx)*10 + 1000
		ncells := int64(1 + t.Intn(3))
		n := 0
		g = g.mapExprs(func(e *E) *E {
			if !t.P(70) {
				return e
			}
			n++
			cell := eFn('i', "regcell", eConst('i', base+int64(t.Intn(int(ncells)))))
			x := cell
			if t.P(30) {
				x = eFn('i', "regid", cell)
			}
			switch t.Intn(5) {
			case 0:
				return eFn('b', "eq", cell, eConst('i', int64(t.Intn(3))))
			case 1:
				return eFn('b', "and", e, eFn('b', "ge", x, eConst('i', int64(1))))
			case 2:
				return eFn('b', "or", eFn('b', "eq", x, eConst('i', int64(1))), e)
			case 3:
				return eFn('b', "not", eFn('b', "eq", eVar('i'), x))
			}
			return eFn('b', "eq", eVar('i'), x)
		})
		if n == 0 {
			return
		}
		text := g.text(t.Rng)
		t.Info("grammar: %s", text)
		a := mustParse(t, text)
		m, err := newMem(a)
		if err != nil {
			t.Fail("the grammar is refused: %v", err)
		}
		vs := map[string]validator{"mem": m, "intern": internV(a, false), "interp": interpV(a)}
		if t.P(30) {
			if au, err := newAuto(a); err == nil {
				vs["auto"] = au
			}
		}
		defer func() {
			for i := int64(0); i < ncells; i++ {
				cells.Delete(base + i)
			}
		}()
		verdicts := map[int][2]bool{}
		changed := false
		hist := ""
		for k := 0; k < 16; k++ {
			cell, v := base+int64(t.Intn(int(ncells))), int64(t.Intn(4))
			cells.Store(cell, v)
			di := t.Intn(len(docs))
			hist += fmt.Sprintf(" %d=%d doc%d", cell, v, di)
			want, certain, err := refVerdict(g, docs[di])
			if err != nil || !certain {
				t.Count("inconclusive", 1)
				continue
			}
			for name, v := range vs {
				t.Info("%s\ngrammar: %s\ndocuments: %v\nhistory:%s", name, text, docs, hist)
				got, _ := run(v, docs[di])
				if got.err != nil || got.ok != want {
					t.Fail("%s: verdict %v, but by now the grammar means %v\ngrammar: %s\ndocument: %v\nhistory:%s", name, got, want, text, docs[di], hist)
				}
				t.Count("verdicts_compared", 1)
			}
			s := verdicts[di]
			if want {
				s[1] = true
			} else {
				s[0] = true
			}
			verdicts[di] = s
			changed = changed || s[0] && s[1]
		}
		if changed {
			t.Nontrivial(text)
		}
	})
	for _, m := range regSigs {
		c.mu.Lock()
		c.counts["evaluations_of_registered_functions"] += atomic.LoadInt64(&m.evals)
		c.counts["constructions"] += atomic.LoadInt64(&m.made)
		c.mu.Unlock()
	}
}

type noEval struct{ funcs.Int }

func (n *noEval) Eval(x int) {}

type evalNoFunc struct{}

func (e *evalNoFunc) Eval() (int64, error) { return 0, nil }

type evalShort struct{ regPos }

func (e *evalShort) Eval() (int32, error) { return 0, nil }

var typeOfKind = map[byte]types.Type{'b': types.SINGLE_BOOL, 'i': types.SINGLE_INT, 'u': types.SINGLE_UINT, 'd': types.SINGLE_DOUBLE, 's': types.SINGLE_STRING, 'y': types.SINGLE_BYTES,
	'B': types.LIST_BOOL, 'I': types.LIST_INT, 'U': types.LIST_UINT, 'D': types.LIST_DOUBLE, 'S': types.LIST_STRING, 'Y': types.LIST_BYTES}

func runRegistering(t *T) {
	refused := func(what string, fnc interface{}) {
		t.Info("registering %s", what)
		defer func() {
			if recover() == nil {
				t.Fail("registering %s is accepted", what)
			}
			if _, err := funcs.GetMaker("regbad"); err == nil {
				t.Fail("it was refused, but registered: %s", what)
			}
			if _, err := funcOf("eq($int,regbad())"); err == nil {
				t.Fail("it was refused, but can be called: %s", what)
			}
		}()
		funcs.Register("regbad", fnc)
	}
	refused("something that is not a function", 3)
	refused("a function without a result", func() {})
	refused("a function with a second result that is not an error", func() (*regPos, int) { return nil, 0 })
	refused("a function with three results", func() (*regPos, error, error) { return nil, nil, nil })
	refused("a function whose result has no Eval", func() *regSig { return nil })
	refused("a function whose result is not a Func", func() *evalNoFunc { return nil })
	refused("a function whose result is of no kind", func() *evalShort { return nil })
	// every signature is found, and only those
	kinds := "biudsyBIUDSY"
	for op, ms := range regByOp {
		var ins []string
		for i := 0; i < len(kinds); i++ {
			ins = append(ins, string(kinds[i]))
			for j := 0; j < len(kinds); j++ {
				ins = append(ins, string([]byte{kinds[i], kinds[j]}))
				for k := 0; k < len(kinds); k++ {
					ins = append(ins, string([]byte{kinds[i], kinds[j], kinds[k]}))
				}
			}
		}
		for _, in := range append(ins, "") {
			var ts []types.Type
			for i := range in {
				ts = append(ts, typeOfKind[in[i]])
			}
			t.Info("looking for %s with %s", op, in)
			var want *regSig
			for _, m := range ms {
				if m.in == in {
					want = m
				}
			}
			mk, err := funcs.GetMaker(op, ts...)
			t.Count("signatures_tried", 1)
			if want == nil {
				if err == nil {
					t.Fail("found %s", mk)
				}
				continue
			}
			if err != nil {
				t.Fail("not found: %v", err)
			}
			if mk.Name != op || mk.Out != typeOfKind[want.out] || !reflect.DeepEqual(append([]types.Type{}, mk.In...), append([]types.Type{}, ts...)) {
				t.Fail("found %s", mk)
			}
		}
	}
	// one that comes late
	for _, op := range []string{"reglate", "reglatest"} {
		text := "eq($int," + op + "($int))"
		t.Info("%s", text)
		if _, err := funcOf(text); err == nil {
			t.Fail("a function is known that was not registered")
		}
		add1[int64, funcs.Int](op)
		f := mustFunc(t, text)
		for _, i := range vocabInt {
			w, _ := regValue(op, 'i', []interface{}{i})
			ok, err := evaluator(t, f).Eval(labelOf(Val{HasI: true, I: i}))
			if err != nil || ok != (w.(int64) == i) {
				t.Fail("%s on %d: %v %v", text, i, ok, err)
			}
		}
	}
	t.Nontrivial("registering")
}
