package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/auto"
	"github.com/katydid/katydid/relapse/compose"
	"github.com/katydid/katydid/relapse/funcs"
	"github.com/katydid/katydid/relapse/intern"
)

func init() {
	register("P11", &check{
		rule: "distinct expressions that gave at least two different results (true, false, error) on their labels, plus distinct typed expressions evaluated to a value",
		run:  runP11,
	})
	register("P12", &check{
		rule: "distinct expressions whose folded and unfolded forms were compared on at least one label where they gave a value, plus distinct refused expressions",
		run:  runP12,
	})
	register("P13", &check{
		rule: "distinct printed expressions that were parsed again and gave at least two different results on their labels",
		run:  runP13,
	})
	register("P14", &check{
		rule: "distinct pools of functions in which equal, smaller and greater pairs were all observed",
		run:  runP14,
	})
}

// ------------------------------------------------------------ helpers

// exprOf parses the text of an expression as the expression of a leaf pattern.
func exprOf(text string) (*ast.Expr, error) {
	g, err := relapse.Parse("->" + text)
	if err != nil {
		return nil, err
	}
	if g.GetTopPattern().GetLeafNode() == nil {
		return nil, fmt.Errorf("harness: not a leaf: %s", text)
	}
	return g.GetTopPattern().GetLeafNode().GetExpr(), nil
}

func funcOf(text string) (funcs.Bool, error) {
	e, err := exprOf(text)
	if err != nil {
		return nil, err
	}
	return compose.NewBool(e)
}

func mustFunc(t *T, text string) funcs.Bool {
	t.Info("composing %s", text)
	f, err := funcOf(text)
	if err != nil {
		t.Fail("the well typed expression %s is refused: %v", text, err)
	}
	return f
}

func evaluator(t *T, f funcs.Bool) compose.Bool {
	b, err := compose.NewBoolFunc(f)
	if err != nil {
		t.Fail("NewBoolFunc(%s): %v", f, err)
	}
	return b
}

func labelOf(v Val) *TreeParser {
	p := newTreeParser(Doc{leaf(v)})
	p.Next()
	return p
}

const (
	bT = 1
	bF = 2
	bE = 4
)

func outcomeOf(b bool, err error) int {
	if err != nil {
		return bE
	}
	if b {
		return bT
	}
	return bF
}

func outcomeName(o int) string {
	var ss []string
	if o&bT != 0 {
		ss = append(ss, "true")
	}
	if o&bF != 0 {
		ss = append(ss, "false")
	}
	if o&bE != 0 {
		ss = append(ss, "error")
	}
	return strings.Join(ss, " or ")
}

// outcomes is the set of results that a boolean expression may have: an error
// below and, or and not may be reported or may count as false.
func (e *E) outcomes(v Val) int {
	if e.Kind == 'b' {
		each := func(f func(a, b int) int) int {
			x, y := e.Args[0].outcomes(v), e.Args[1].outcomes(v)
			res := 0
			for _, a := range []int{bT, bF, bE} {
				for _, b := range []int{bT, bF, bE} {
					if x&a != 0 && y&b != 0 {
						res |= f(a, b)
					}
				}
			}
			return res
		}
		switch e.Op {
		case "and":
			return each(func(a, b int) int {
				switch {
				case a == bE && b == bE:
					return bE | bF
				case a == bE || b == bE:
					return bE | bF
				case a == bT && b == bT:
					return bT
				}
				return bF
			})
		case "or":
			return each(func(a, b int) int {
				switch {
				case a == bT && b == bT, a == bT && b == bF, a == bF && b == bT:
					return bT
				case a == bF && b == bF:
					return bF
				case a == bT || b == bT:
					return bT | bE
				}
				return bE | bF
			})
		case "not":
			x := e.Args[0].outcomes(v)
			res := 0
			if x&bT != 0 {
				res |= bF
			}
			if x&bF != 0 {
				res |= bT
			}
			if x&bE != 0 {
				res |= bT | bE
			}
			return res
		}
	}
	c := &evalCtx{}
	x, err := e.eval(v, c)
	if c.fuzzy {
		return bT | bF | bE
	}
	if err != nil {
		return bE
	}
	return outcomeOf(x.(bool), nil)
}

var wideStr = []string{"", "a", "`", "\"", "\\", "\n", "\t", "'", "ß", "日本", "\x00", "a\"b`c", "->", "$string", "{}", "x,y", "A", "İ", "ÄÖ", "\u2028", "\\n", "%d", "\xff", "ſ", "K"}
var wideInt = []int64{math.MaxInt64, math.MinInt64, math.MinInt64 + 1, 1 << 31, -(1 << 31), 1 << 53, 1<<53 + 1, -2, 7, 8, 9}
var wideUint = []uint64{math.MaxUint64, 1 << 63, 1<<63 - 1, 1 << 32, 7, 8, 9}
var wideDouble = []float64{math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1e300, -1e-300, 0.1, 1.0 / 3, 123456789.125, 1 << 53, 1e6, 1e20, 1e22}

func wideConst(r *Rng, k byte) interface{} {
	switch k {
	case 'b':
		return r.P(50)
	case 'i':
		if r.P(30) {
			return int64(r.U64() >> uint(r.Intn(64)))
		}
		return wideInt[r.Intn(len(wideInt))]
	case 'u':
		if r.P(30) {
			return r.U64() >> uint(r.Intn(64))
		}
		return wideUint[r.Intn(len(wideUint))]
	case 'd':
		if r.P(30) {
			f := math.Float64frombits(r.U64())
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				return f
			}
		}
		return wideDouble[r.Intn(len(wideDouble))]
	case 's':
		if r.P(20) {
			n := r.Intn(6)
			b := make([]rune, n)
			for i := range b {
				b[i] = rune(r.Intn(0x300))
			}
			return string(b)
		}
		return wideStr[r.Intn(len(wideStr))]
	case 'y':
		n := r.Intn(5)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.U64())
		}
		return b
	}
	panic("wideConst")
}

func (e *E) walk(f func(*E)) {
	f(e)
	for _, a := range e.Args {
		a.walk(f)
	}
}

// widen replaces some constants by unusual ones.
func widen(r *Rng, e *E) {
	e.walk(func(x *E) {
		// The pattern of regex stays as it is.
		if x.Op == "regex" {
			return
		}
		for i, a := range x.Args {
			if x.Op == "regex" && i == 0 {
				continue
			}
			if a.Op == "const" && r.P(20) {
				x.Args[i] = eConst(a.Kind, wideConst(r, a.Kind))
			}
		}
	})
}

func constsOf(e *E) []*E {
	var out []*E
	e.walk(func(x *E) {
		if x.Op == "const" {
			out = append(out, x)
		}
	})
	return out
}

func setView(v *Val, k byte, c interface{}) {
	switch k {
	case 'b':
		v.HasB, v.B = true, c.(bool)
	case 'i':
		v.HasI, v.I = true, c.(int64)
	case 'u':
		v.HasU, v.U = true, c.(uint64)
	case 'd':
		v.HasD, v.D = true, c.(float64)
	case 's':
		v.HasS, v.S = true, c.(string)
	case 'y':
		v.HasY, v.Y = true, c.([]byte)
	}
}

func viewOf(v Val, k byte) (interface{}, bool) {
	switch k {
	case 'b':
		return v.B, v.HasB
	case 'i':
		return v.I, v.HasI
	case 'u':
		return v.U, v.HasU
	case 'd':
		return v.D, v.HasD
	case 's':
		return v.S, v.HasS
	case 'y':
		return v.Y, v.HasY
	}
	panic("viewOf")
}

// genLabels makes labels that are likely to tell the results of e apart.
func genLabels(r *Rng, e *E, n int) []Val {
	cs := constsOf(e)
	var out []Val
	for len(out) < n {
		var v Val
		switch r.Intn(5) {
		case 0:
			v = genLeafVal(r, true)
		case 1:
			// several views at once
			for _, k := range []byte("biudsy") {
				if r.P(60) {
					if r.P(50) {
						setView(&v, k, genConst(r, k).C)
					} else {
						setView(&v, k, wideConst(r, k))
					}
				}
			}
		default:
			if len(cs) == 0 {
				v = genLeafVal(r, true)
				break
			}
			for i := 0; i < 1+r.Intn(3); i++ {
				c := cs[r.Intn(len(cs))]
				x := c.C
				if r.P(30) {
					switch y := x.(type) {
					case int64:
						x = y + int64(r.Intn(3)) - 1
					case uint64:
						x = y + uint64(r.Intn(3)) - 1
					case float64:
						x = math.Nextafter(y, float64(r.Intn(3)-1)*1e308)
					case string:
						switch r.Intn(4) {
						case 0:
							x = y + "a"
						case 1:
							x = "b" + y
						case 2:
							x = strings.ToUpper(y)
						case 3:
							if len(y) > 0 {
								x = y[:len(y)-1]
							}
						}
					case []byte:
						x = append(append([]byte{}, y...), byte(r.U64()))
					}
				}
				setView(&v, c.Kind, x)
			}
			if r.P(20) {
				k := "biudsy"[r.Intn(6)]
				setView(&v, k, wideConst(r, k))
			}
		}
		out = append(out, v)
	}
	return out
}

func genAnyExpr(r *Rng, k byte) *E {
	e := genExpr(r, k, 1+r.Intn(4), 55)
	if r.P(50) {
		widen(r, e)
	}
	return e
}

// withPrint puts one part of an expression into a print function, which gives
// the value of its argument.
func withPrint(r *Rng, e *E) *E {
	c := e.clone()
	var all []*E
	var visit func(x *E)
	visit = func(x *E) {
		all = append(all, x)
		for i, a := range x.Args {
			if x.Op == "regex" && i == 0 || x.Op == "contains" && i == 1 && a.Kind < 'a' || x.Op == "type" {
				continue
			}
			visit(a)
		}
	}
	visit(c)
	x := all[r.Intn(len(all))]
	y := *x
	*x = E{Kind: y.Kind, Op: "print", Args: []*E{&y}}
	return c
}

// ------------------------------------------------------------ P11

func runP11(c *Ctx) {
	c.Run("bool", c.N(80000), func(t *T) {
		e := genAnyExpr(t.Rng, 'b')
		if t.P(3) {
			e = withPrint(t.Rng, e)
		}
		text := e.text(t.Rng)
		f := mustFunc(t, text)
		ev := evaluator(t, f)
		labels := genLabels(t.Rng, e, 8)
		seen := 0
		for round := 0; round < 2; round++ {
			for _, i := range t.Perm(len(labels)) {
				v := labels[i]
				t.Info("expression: %s\nlabel: %v", text, v)
				want := e.outcomes(v)
				p := labelOf(v)
				got := outcomeOf(ev.Eval(p))
				if got&want == 0 {
					t.Fail("evaluates to %s, but means %s\nexpression: %s\nlabel: %v", outcomeName(got), outcomeName(want), text, v)
				}
				if len(p.Breaches) > 0 || p.nexts != 1 {
					t.Fail("evaluating moved the parser: %v %s\nexpression: %s", p.Breaches, p.Trace, text)
				}
				if want&(want-1) == 0 {
					t.Count("determined_results", 1)
				}
				seen |= got
			}
		}
		if seen&(seen-1) != 0 {
			t.Nontrivial(text)
			t.Sample("%s -> %s", text, outcomeName(seen))
		}
	})
	// The value of an expression of any kind, seen through comparisons.
	c.Run("typed", c.N(60000), func(t *T) {
		k := "iudsyIUDSYB"[t.Intn(11)]
		e := genAnyExpr(t.Rng, k)
		for _, v := range genLabels(t.Rng, e, 3) {
			cx := &evalCtx{}
			x, err := e.eval(v, cx)
			if cx.fuzzy {
				continue
			}
			var probes []*E
			var want []int
			add := func(p *E, w int) { probes = append(probes, p); want = append(want, w) }
			if err != nil {
				// The error must not turn into a value.
				if k >= 'a' {
					add(eFn('b', "type", e), bF)
					add(eFn('b', "eq", e, e), bF)
					add(eFn('b', "ne", e, e), bF)
				} else {
					add(eFn('b', "ge", eFn('i', "length", e), eConst('i', int64(0))), bF)
				}
				add(strictOver(e), bE)
			} else if k >= 'a' {
				cst := eConst(k, x)
				add(eFn('b', "eq", e, cst), bT)
				add(eFn('b', "ne", e, cst), bF)
				add(eFn('b', "eq", cst, e), bT)
				add(eFn('b', "type", e), bT)
				if k != 's' {
					add(eFn('b', "ge", e, cst), bT)
					add(eFn('b', "le", e, cst), bT)
					add(eFn('b', "lt", e, cst), bF)
					add(eFn('b', "gt", e, cst), bF)
				}
			} else {
				n := listLen(x)
				add(eFn('b', "eq", eFn('i', "length", e), eConst('i', int64(n))), bT)
				for i := 0; i < n; i++ {
					el := eFn(lower(k), "elem", e, eConst('i', int64(i)))
					add(eFn('b', "eq", el, eConst(lower(k), listElem(x, i))), bT)
					el = eFn(lower(k), "elem", e, eConst('i', int64(i-n)))
					add(eFn('b', "eq", el, eConst(lower(k), listElem(x, i))), bT)
				}
			}
			for i, p := range probes {
				text := p.text(t.Rng)
				ev := evaluator(t, mustFunc(t, text))
				t.Info("expression: %s\nlabel: %v", text, v)
				got := outcomeOf(ev.Eval(labelOf(v)))
				if got != want[i] {
					t.Fail("%s evaluates to %s, expected %s (the value is %#v, error %v)\nlabel: %v", text, outcomeName(got), outcomeName(want[i]), x, err, v)
				}
				t.Count("determined_results", 1)
			}
			if err == nil {
				t.Nontrivial(e.String())
				t.Count("values", 1)
			} else {
				t.Count("errors", 1)
			}
		}
		t.Sample("%s", e)
	})
	// Long lists and long strings.
	c.Run("large", c.N(600), func(t *T) {
		n := t.large(3000)
		k := "IUDSY"[t.Intn(5)]
		l := eList(k)
		for i := 0; i < n; i++ {
			l.Args = append(l.Args, eConst(lower(k), wideConst(t.Rng, lower(k))))
		}
		from, to := t.Intn(n+1), t.Intn(n+1)
		if from > to {
			from, to = to, from
		}
		i := t.Intn(n)
		el := l.Args[i]
		var probes []*E
		probes = append(probes,
			eFn('b', "eq", eFn('i', "length", l), eConst('i', int64(n))),
			eFn('b', "eq", eFn(lower(k), "elem", l, eConst('i', int64(i))), el),
			eFn('b', "eq", eFn(lower(k), "elem", l, eConst('i', int64(i-n))), el),
			eFn('b', "eq", eFn('i', "length", eFn(k, "range", l, eConst('i', int64(from)), eConst('i', int64(to)))), eConst('i', int64(to-from))))
		if k == 'I' || k == 'U' || k == 'S' {
			probes = append(probes, eFn('b', "contains", el, l))
		}
		if to > from {
			probes = append(probes, eFn('b', "eq", eFn(lower(k), "elem", eFn(k, "range", l, eConst('i', int64(from)), eConst('i', int64(to))), eConst('i', int64(to-from-1))), l.Args[to-1]))
		}
		s := longString(t.Rng, n*5, longChars)
		cut := 0
		for j := range s {
			cut = j
			if t.Intn(n*5) == 0 {
				break
			}
		}
		probes = append(probes,
			eFn('b', "hasPrefix", eConst('s', s), eConst('s', s[:cut])),
			eFn('b', "hasSuffix", eConst('s', s), eConst('s', s[cut:])),
			eFn('b', "contains", eConst('s', s), eConst('s', s[cut/2:][len(s[cut/2:])/2:])),
			eFn('b', "eq", eFn('i', "length", eConst('s', s)), eConst('i', int64(len(s)))))
		for _, p := range probes {
			for _, neg := range []bool{false, true} {
				q := p
				if neg {
					q = eFn('b', "not", p)
				}
				if t.P(50) && p.Args[0].Kind == 's' && p.Args[0].Op == "const" && p.Op != "eq" {
					// the same with the value of a label
					x := *p.Args[0]
					q = eFn('b', p.Op, append([]*E{eVar('s')}, p.Args[1:]...)...)
					if neg {
						q = eFn('b', "not", q)
					}
					largeProbe(t, q, vS(x.C.(string)), !neg)
					continue
				}
				largeProbe(t, q, vS("v"), !neg)
			}
		}
		t.Nontrivial(n, string(k), s)
	})
	// Element and range selection for every kind, length and index, with
	// constant and with variable indices.
	c.Run("bounds", 6*5, func(t *T) {
		k := "BIUDSY"[t.idx/5]
		n := t.idx % 5
		es := make([]*E, n)
		for i := range es {
			es[i] = eConst(lower(k), wideOrSmall(i, lower(k)))
		}
		list := eList(k, es...)
		idx := []int64{math.MinInt64, math.MinInt64 + 1, math.MaxInt64, math.MaxInt64 - 1}
		for i := int64(-11); i <= 11; i++ {
			idx = append(idx, i)
		}
		probe := func(e *E, v Val) {
			text := e.String()
			t.Info("%s on %v", text, v)
			want := e.outcomes(v)
			got := outcomeOf(evaluator(t, mustFunc(t, text)).Eval(labelOf(v)))
			if got&want == 0 {
				t.Fail("%s evaluates to %s, but means %s\nlabel: %v", text, outcomeName(got), outcomeName(want), v)
			}
			t.Count("determined_results", 1)
			t.Nontrivial(text, v)
		}
		for _, i := range idx {
			for j, el := range es {
				_ = j
				probe(eFn('b', "eq", eFn(lower(k), "elem", list, eConst('i', i)), el), vB(true))
				probe(eFn('b', "eq", eFn(lower(k), "elem", list, eVar('i')), el), vI(i))
			}
			probe(eFn('b', "type", eFn(lower(k), "elem", list, eVar('i'))), vI(i))
			for _, j := range idx {
				probe(eFn('b', "eq", eFn('i', "length", eFn(k, "range", list, eConst('i', j), eVar('i'))), eConst('i', int64(t.Intn(n+1)))), vI(i))
				probe(eFn('b', "eq", eFn('i', "length", eFn(k, "range", list, eVar('i'), eConst('i', j))), eConst('i', int64(t.Intn(n+1)))), vI(i))
				if n > 0 {
					probe(eFn('b', "eq", eFn(lower(k), "elem", eFn(k, "range", list, eVar('i'), eConst('i', j)), eConst('i', 0+int64(t.Intn(n)))), es[t.Intn(n)]), vI(i))
				}
			}
		}
	})
	// The functions that there are, are the documented ones.
	sigs := docSigs()
	ops := []string{"Contains", "EQ", "not ", "nand", "xor", "len", "int", "", "main", "builtin"}
	for op := range sigs {
		ops = append(ops, op)
	}
	sort.Strings(ops)
	c.Run("documented", len(ops)+1, func(t *T) {
		if t.idx == len(ops) {
			checkTypes(t)
			return
		}
		checkDocumented(t, ops[t.idx], sigs[ops[t.idx]])
	})
	// Every comparison of every kind on pairs of unusual values.
	c.Run("compare", c.N(30000), func(t *T) {
		k := "biudsy"[t.Intn(6)]
		val := func() interface{} {
			if t.P(50) {
				return genConst(t.Rng, k).C
			}
			return wideConst(t.Rng, k)
		}
		a, b := val(), val()
		if t.P(25) {
			b = a
		}
		ops := []string{"eq", "ne"}
		if k != 'b' && k != 's' {
			ops = []string{"eq", "ne", "lt", "le", "gt", "ge"}
		}
		var la, lx Val
		setView(&la, k, a)
		other := "biudsy"[t.Intn(6)]
		if other != k {
			setView(&lx, other, wideConst(t.Rng, other))
		}
		for _, op := range ops {
			for _, e := range []*E{eFn('b', op, eVar(k), eConst(k, b)), eFn('b', op, eConst(k, b), eVar(k)), eFn('b', op, eConst(k, a), eConst(k, b)), eFn('b', op, eVar(k), eVar(k))} {
				text := e.text(t.Rng)
				ev := evaluator(t, mustFunc(t, text))
				for _, v := range []Val{la, lx} {
					got, want := outcomeOf(ev.Eval(labelOf(v))), e.outcomes(v)
					if got != want {
						t.Fail("%s evaluates to %s, but means %s\nlabel: %v", text, outcomeName(got), outcomeName(want), v)
					}
					t.Count("determined_results", 1)
				}
			}
		}
		t.Nontrivial(string(k), a, b)
	})
	c.RunSeq("now", 50, func(t *T) {
		before := time.Now().UnixNano()
		lo := evaluator(t, mustFunc(t, fmt.Sprintf("ge(now(), %d)", before)))
		hi := evaluator(t, mustFunc(t, fmt.Sprintf("le(now(), %d)", before+int64(time.Hour))))
		time.Sleep(time.Millisecond)
		late := evaluator(t, mustFunc(t, fmt.Sprintf("gt(now(), %d)", before+int64(500*time.Microsecond))))
		for i, e := range []compose.Bool{lo, hi, late} {
			if b, err := e.Eval(labelOf(vB(true))); err != nil || !b {
				t.Fail("now() is not the current time (%d): %v %v", i, b, err)
			}
		}
		t.Count("determined_results", 3)
	})
	// print gives the value of its argument, also when that is an error.
	c.Run("print", c.N(2000), func(t *T) {
		k := "biudsy"[t.Intn(6)]
		e := genExpr(t.Rng, k, t.Intn(3), 60)
		for _, v := range genLabels(t.Rng, e, 2) {
			cx := &evalCtx{}
			x, err := e.eval(v, cx)
			if cx.fuzzy {
				continue
			}
			pr := "print(" + e.String() + ")"
			var text string
			want := bF
			if err == nil {
				text = "eq(" + pr + "," + renderConst(nil, k, x) + ")"
				want = bT
			} else {
				text = "type(" + pr + ")"
			}
			got := outcomeOf(evaluator(t, mustFunc(t, text)).Eval(labelOf(v)))
			if got != want {
				t.Fail("%s evaluates to %s, expected %s\nlabel: %v", text, outcomeName(got), outcomeName(want), v)
			}
			t.Count("determined_results", 1)
		}
	})
}

func wideOrSmall(i int, k byte) interface{} {
	switch k {
	case 'b':
		return i%2 == 0
	case 'i':
		return int64(i * 7)
	case 'u':
		return uint64(i * 7)
	case 'd':
		return float64(i) + 0.5
	case 's':
		return strings.Repeat("x", i)
	}
	return []byte{byte(i)}
}

// strictOver wraps an expression that raises an error in a function that must
// pass the error on.
func strictOver(e *E) *E {
	switch e.Kind {
	case 's':
		return eFn('b', "contains", e, eConst('s', ""))
	case 'i', 'u':
		return eFn('b', "contains", e, eList(upper(e.Kind), eConst(e.Kind, genConst(newRng(1), e.Kind).C)))
	case 'd', 'y':
		return eFn('b', "elem", eList('B', eConst('b', true)), eFn('i', "length", eList(upper(e.Kind), e)))
	case 'b':
		return eFn('b', "elem", eList('B', e), eConst('i', int64(0)))
	}
	return eFn('b', "elem", eList('B', eConst('b', true)), eFn('i', "length", e))
}

// ------------------------------------------------------------ P12

type sig struct {
	op  string
	in  string
	out byte
}

var sigs []sig

func init() {
	add := func(op, in string, out byte) { sigs = append(sigs, sig{op, in, out}) }
	for _, op := range []string{"and", "or"} {
		add(op, "bb", 'b')
	}
	add("not", "b", 'b')
	for _, k := range "biudsy" {
		for _, op := range []string{"eq", "ne"} {
			add(op, string(k)+string(k), 'b')
		}
		if k != 'b' && k != 's' {
			for _, op := range []string{"lt", "le", "gt", "ge"} {
				add(op, string(k)+string(k), 'b')
			}
		}
		add("type", string(k), 'b')
		u := upper(byte(k))
		add("elem", string(u)+"i", byte(k))
		add("range", string(u)+"ii", u)
		add("length", string(u), 'i')
		add("print", string(k), byte(k))
		add("print", string(u), u)
	}
	add("length", "s", 'i')
	add("length", "y", 'i')
	for _, op := range []string{"contains", "hasPrefix", "hasSuffix", "eqFold", "regex"} {
		add(op, "ss", 'b')
	}
	for _, k := range "ius" {
		add("contains", string(k)+string(upper(byte(k))), 'b')
	}
	add("toLower", "s", 's')
	add("toUpper", "s", 's')
	add("now", "", 'i')
}

// kindOf is the harness' own type checker; 0 means ill typed.
func (e *E) kindOf() byte {
	switch e.Op {
	case "const", "var":
		return e.Kind
	case "list":
		for _, a := range e.Args {
			if a.kindOf() != lower(e.Kind) {
				return 0
			}
		}
		return e.Kind
	}
	in := ""
	for _, a := range e.Args {
		k := a.kindOf()
		if k == 0 {
			return 0
		}
		in += string(k)
	}
	for _, s := range sigs {
		if s.op == e.Op && s.in == in {
			if e.Op == "regex" && e.Args[0].hasVar() {
				return 0
			}
			if e.Op == "contains" && in != "ss" && e.Args[1].hasVar() {
				return 0
			}
			return s.out
		}
	}
	for _, s := range regByOp[e.Op] {
		if s.in == in {
			return s.out
		}
	}
	return 0
}

func (e *E) clone() *E {
	c := *e
	c.Args = nil
	for _, a := range e.Args {
		c.Args = append(c.Args, a.clone())
	}
	return &c
}

// illTyped breaks one place of e.
func illTyped(r *Rng, e *E) *E {
	c := e.clone()
	var all []*E
	c.walk(func(x *E) { all = append(all, x) })
	x := all[r.Intn(len(all))]
	switch r.Intn(5) {
	case 0:
		// another kind of argument
		if len(x.Args) > 0 {
			i := r.Intn(len(x.Args))
			x.Args[i] = genExpr(r, "biudsyBIUDSY"[r.Intn(12)], r.Intn(2), 50)
		}
	case 1:
		if len(x.Args) > 0 && x.Op != "list" {
			x.Args = x.Args[:len(x.Args)-1]
		}
	case 2:
		if x.Op != "list" && x.Op != "const" && x.Op != "var" {
			x.Args = append(x.Args, genExpr(r, "biudsyBIUDSY"[r.Intn(12)], 0, 50))
		}
	case 3:
		if x.Op != "list" && x.Op != "const" && x.Op != "var" {
			x.Op = r.Pick("foo", "Eq", "equal", "EQ", "len", "contain", "and", "or", "not", "ge", "elem", "toLower", "regex", "hasPrefix", "type", "length")
		}
	case 4:
		if x.Op == "list" {
			x.Kind = "BIUDSY"[r.Intn(6)]
		} else if x.Op == "regex" || x.Op == "contains" {
			x.Args[0], x.Args[1] = x.Args[1], x.Args[0]
		}
	}
	return c
}

func runP12(c *Ctx) {
	// Constants against the same values supplied at run time.
	c.Run("fold", c.N(250000), func(t *T) {
		e := genAnyExpr(t.Rng, 'b')
		if t.P(60) {
			// more constants than usual
			e = genExpr(t.Rng, 'b', 1+t.Intn(4), 20)
			if t.P(50) {
				widen(t.Rng, e)
			}
		}
		// unfold: pick a constant of each kind, and put variables for it
		var v Val
		u := e.clone()
		var cs []*E
		var slots []**E
		var rec func(x *E)
		rec = func(x *E) {
			for i := range x.Args {
				if x.Op == "regex" && i == 0 || x.Op == "contains" && x.Args[1].Kind < 'a' && i == 1 {
					continue
				}
				if x.Args[i].Op == "const" {
					slots = append(slots, &x.Args[i])
					cs = append(cs, x.Args[i])
				}
				rec(x.Args[i])
			}
		}
		rec(u)
		if len(cs) == 0 {
			return
		}
		for _, i := range t.Perm(len(cs)) {
			if _, ok := viewOf(v, cs[i].Kind); !ok && t.P(80) {
				setView(&v, cs[i].Kind, cs[i].C)
			}
		}
		n := 0
		for i, s := range slots {
			if x, ok := viewOf(v, cs[i].Kind); ok && fmt.Sprintf("%T%v", x, x) == fmt.Sprintf("%T%v", cs[i].C, cs[i].C) {
				*s = eVar(cs[i].Kind)
				n++
			}
		}
		ft, ut := e.String(), u.String()
		ff, uf := mustFunc(t, ft), mustFunc(t, ut)
		t.Info("folded: %s\nunfolded: %s\nlabel: %v", ft, ut, v)
		got := outcomeOf(evaluator(t, ff).Eval(labelOf(v)))
		ref := outcomeOf(evaluator(t, uf).Eval(labelOf(v)))
		fz := e.outcomes(v)
		if fz&(fz-1) == 0 && (got != ref || got != fz) || got&fz == 0 {
			t.Fail("folded evaluates to %s, unfolded to %s, meaning %s\nfolded: %s\nunfolded: %s\nlabel: %v", outcomeName(got), outcomeName(ref), outcomeName(fz), ft, ut, v)
		}
		t.Count("results_compared", 1)
		if funcs.IsTrue(ff) || funcs.IsFalse(ff) {
			t.Count("folded_to_a_constant", 1)
			for _, w := range genLabels(t.Rng, e, 6) {
				o := e.outcomes(w)
				if funcs.IsTrue(ff) && o&bT == 0 || funcs.IsFalse(ff) && o&bF == 0 {
					t.Fail("%s is taken to be always %v, but is %s on %v", ft, funcs.IsTrue(ff), outcomeName(o), w)
				}
			}
		}
		if n > 0 && got != bE {
			t.Nontrivial(ut, v)
			t.Sample("%s | %s | %v", ft, ut, v)
		}
	})
	// The library's own connectives over pairs of simple conditions, which is
	// where contradictions and tautologies are recognized.
	c.Run("connectives", c.N(200000), func(t *T) {
		var lits []*E
		kinds := "siu"
		if t.P(30) {
			kinds = "biudsy"
		}
		for i := 0; i < 3; i++ {
			k := kinds[t.Intn(len(kinds))]
			if i > 0 && t.P(60) {
				k = lits[0].Args[0].Kind
				if lits[0].Args[0].Op == "const" {
					k = lits[0].Args[1].Kind
				}
			}
			ops := []string{"eq", "ne", "eq", "ne", "lt", "le", "gt", "ge"}
			if k == 'b' || k == 's' {
				ops = ops[:4]
			}
			c := eConst(k, genConst(newRng(uint64(t.Intn(4)), "c", k), k).C)
			e := eFn('b', ops[t.Intn(len(ops))], eVar(k), c)
			if t.P(25) {
				e.Args[0], e.Args[1] = e.Args[1], e.Args[0]
			}
			if t.P(8) {
				e = eFn('b', "contains", eVar('s'), eConst('s', vocabStr[t.Intn(4)]))
				e = eFn('b', "and", eFn('b', "type", eVar('s')), e)
			}
			lits = append(lits, e)
		}
		var build func(d int) (*E, funcs.Bool)
		build = func(d int) (*E, funcs.Bool) {
			if d == 0 || t.P(20) {
				l := lits[t.Intn(len(lits))]
				return l, mustFunc(t, l.String())
			}
			switch t.Intn(5) {
			case 0, 1:
				a, fa := build(d - 1)
				b, fb := build(d - 1)
				return eFn('b', "and", a, b), funcs.And(fa, fb)
			case 2, 3:
				a, fa := build(d - 1)
				b, fb := build(d - 1)
				return eFn('b', "or", a, b), funcs.Or(fa, fb)
			}
			a, fa := build(d - 1)
			return eFn('b', "not", a), funcs.Not(fa)
		}
		e, f := build(1 + t.Intn(3))
		ev := evaluator(t, f)
		seen := 0
		for _, v := range genLabels(t.Rng, e, 8) {
			want := e.outcomes(v)
			got := outcomeOf(ev.Eval(labelOf(v)))
			if got&want == 0 {
				t.Fail("%s was combined into %s, which is %s instead of %s on %v", e, f, outcomeName(got), outcomeName(want), v)
			}
			if funcs.IsTrue(f) && want&bT == 0 || funcs.IsFalse(f) && want&bF == 0 {
				t.Fail("%s was combined into a constant %s, but is %s on %v", e, f, outcomeName(want), v)
			}
			seen |= got
			t.Count("results_compared", 1)
		}
		if funcs.IsTrue(f) || funcs.IsFalse(f) {
			t.Count("folded_to_a_constant", 1)
			t.Nontrivial(e)
		} else if seen == bT|bF {
			t.Nontrivial(e)
		}
	})
	// Ill typed expressions are refused by everything that prepares a grammar.
	c.Run("refuse", c.N(120000), func(t *T) {
		e := genExpr(t.Rng, 'b', 1+t.Intn(4), 55)
		bad := illTyped(t.Rng, e)
		text := bad.String()
		t.Info("expression: %s", text)
		k := bad.kindOf()
		x, err := exprOf(text)
		if err != nil {
			if k == 'b' {
				t.Fail("the well typed expression %s does not parse: %v", text, err)
			}
			// not grammatical, so it is refused already
			t.Count("refused_by_parser", 1)
			return
		}
		_, err = compose.NewBool(x)
		if k == 'b' {
			if err != nil && !strings.Contains(err.Error(), "range") {
				t.Fail("the well typed expression %s is refused: %v", text, err)
			}
			t.Count("accepted", 1)
			return
		}
		if err == nil {
			t.Fail("the ill typed expression %s is accepted", text)
		}
		var gt string
		v := leaf(genLeafVal(t.Rng, true))
		doc := Doc{field("A", v)}
		switch t.Intn(5) {
		case 0:
			gt = "->" + text
			doc = Doc{v}
		case 1:
			gt = "A:->" + text
		case 2:
			gt = "A:(->" + text + ")*"
		case 3:
			gt = "[A:*, B:{->" + text + ";C:*}]"
			doc = Doc{field("A"), field("B", v)}
		case 4:
			gt = "A:@r\n#r = [->" + text + ",*]"
		}
		if strings.HasPrefix(gt, "[A:*, B:{") && t.P(50) {
			gt = strings.Replace(gt, "C:*}", "C:*;}", 1)
		}
		g, err := relapse.Parse(gt)
		if err != nil {
			t.Fail("%s does not parse: %v", gt, err)
		}
		t.Info("grammar: %s", gt)
		if _, err := relapse.Prepare(g); err == nil {
			t.Fail("Prepare accepts the ill typed grammar %s", gt)
		}
		if _, err := auto.Compile(g); err == nil {
			t.Fail("Compile accepts the ill typed grammar %s", gt)
		}
		ic := intern.NewConstructor()
		if _, err := ic.AddGrammar(g); err == nil {
			t.Fail("the interning constructor accepts the ill typed grammar %s", gt)
		}
		if _, err := newMemRecord(g); err == nil {
			t.Fail("NewRecord accepts the ill typed grammar %s", gt)
		}
		if _, err := newAutoRecord(g); err == nil {
			t.Fail("CompileRecord accepts the ill typed grammar %s", gt)
		}
		for i, e := range []engine{{"interp", interpV(g)}, {"intern", internV(g, false)}, {"intern for records", internV(g, true)}} {
			d := doc
			if i > 0 && t.P(30) {
				d = Doc{} // it is refused before anything is read
			}
			if got := runParser(e.v, newTreeParser(d)); got.err == nil {
				t.Fail("%s gives %v with the ill typed grammar %s on %v", e.name, got, gt, d)
			}
		}
		t.Count("refused", 1)
		t.Nontrivial(text)
		t.Sample("refused: %s", text)
	})
	bad := []string{
		"regex(`(`, $string)", "regex(`*`, $string)", "regex($string, $string)", "regex(toLower($string), $string)", "regex(`[`, `a`)",
		"contains($int, range([]int{$int}, 0, 1))", "contains($string, []string{$string})", "contains($uint, []uint{$uint, uint(1)})",
		"unknown($int)", "unknown()", "eq()", "eq($int)", "eq($int, uint(1))", "$int", "1", "uint(1)", "`a`", "double(1)", "[]byte{1}", "[]bool{true}",
		"length($string)", "now()", "eq($int, $string)", "eq($double, 1)", "not($string)", "and($bool)", "and(true, 1)", "contains($double, []double{double(1)})",
		"lt($string, `a`)", "lt(true, false)", "elem([]int{1}, 0)", "range([]bool{true}, 0, 1)", "type([]int{1})", "eq([]int{1}, []int{1})",
		"[]int{`a`}", "eq(length([]int{`a`}), 1)", "eq(length([]string{1}), 1)", "eq(elem([]bool{1}, 0), true)",
	}
	c.Run("refuse-fixed", len(bad), func(t *T) {
		g, err := relapse.Parse("->" + bad[t.idx])
		if err != nil {
			t.Fail("%s does not parse: %v", bad[t.idx], err)
		}
		if _, err := relapse.Prepare(g); err == nil {
			t.Fail("Prepare accepts ->%s", bad[t.idx])
		}
		if _, err := auto.Compile(g); err == nil {
			t.Fail("Compile accepts ->%s", bad[t.idx])
		}
		t.Nontrivial(bad[t.idx])
		t.Count("refused", 1)
	})
	// Short forms: the left hand side is the variable of the constant's type.
	builtinBad := []string{"~= 1", "*= 1", "^= 1", "$= double(1)", "^= true", "< true", "< `a`", "== []int{1}", ":: []int{1}", "~= `(`", "< $string", ">= unknown()"}
	c.Run("refuse-short", len(builtinBad), func(t *T) {
		g, err := relapse.Parse("A " + builtinBad[t.idx])
		if err != nil {
			t.Count("refused_by_parser", 1)
			return
		}
		if _, err := relapse.Prepare(g); err == nil {
			t.Fail("Prepare accepts A %s", builtinBad[t.idx])
		}
		t.Count("refused", 1)
	})
}

// ------------------------------------------------------------ P13

func runP13(c *Ctx) {
	roundTrip := func(t *T, e *E, text string, labels []Val) {
		f := mustFunc(t, text)
		printed := f.String()
		t.Info("expression: %s\nprinted: %s", text, printed)
		f2, err := funcOf(printed)
		if err != nil {
			t.Fail("the printed form does not parse: %v\nexpression: %s\nprinted: %s", err, text, printed)
		}
		sprinted := funcs.Sprint(f)
		var ev3 compose.Bool
		sg, err := relapse.Parse(sprinted)
		if err != nil {
			t.Fail("the shorthand does not parse: %v\nexpression: %s\nprinted: %s", err, text, sprinted)
		}
		f3, err := compose.NewBool(sg.GetTopPattern().GetLeafNode().GetExpr())
		if err != nil {
			t.Fail("the shorthand is refused: %v\nexpression: %s\nprinted: %s", err, text, sprinted)
		}
		ev3 = evaluator(t, f3)
		ev, ev2 := evaluator(t, f), evaluator(t, f2)
		seen := 0
		for _, v := range labels {
			a, b := outcomeOf(ev.Eval(labelOf(v))), outcomeOf(ev2.Eval(labelOf(v)))
			if a != b {
				t.Fail("evaluates to %s, and after printing and parsing to %s\nexpression: %s\nprinted: %s\nlabel: %v", outcomeName(a), outcomeName(b), text, printed, v)
			}
			if d := outcomeOf(ev3.Eval(labelOf(v))); a != d {
				key := "shorthand"
				if sw := swapped(f); sw != "" && d == outcomeOf(evaluator(t, mustFunc(t, sw)).Eval(labelOf(v))) {
					key = "shorthand-const-first"
				}
				t.FailKey(key, "evaluates to %s, and after printing the shorthand and parsing to %s\nexpression: %s\nprinted: %s\nlabel: %v", outcomeName(a), outcomeName(d), text, sprinted, v)
				break
			}
			seen |= a
			t.Count("results_compared", 1)
		}
		if seen&(seen-1) != 0 {
			t.Nontrivial(printed)
			t.Sample("%s", printed)
		}
		if f2.String() != printed {
			t.Fail("printing is not stable\nexpression: %s\nprinted: %s\nthen: %s", text, printed, f2.String())
		}
	}
	c.Run("random", c.N(150000), func(t *T) {
		e := genAnyExpr(t.Rng, 'b')
		if t.P(3) {
			e = withPrint(t.Rng, e)
		}
		roundTrip(t, e, e.text(t.Rng), genLabels(t.Rng, e, 6))
	})
	// Constants of every kind in every position.
	c.Run("constants", c.N(150000), func(t *T) {
		k := "biudsyBIUDSY"[t.Intn(12)]
		var e *E
		if k >= 'a' {
			x := wideConst(t.Rng, k)
			ops := []string{"eq", "ne"}
			if k != 'b' && k != 's' {
				ops = append(ops, "lt", "le", "gt", "ge")
			}
			e = eFn('b', ops[t.Intn(len(ops))], eVar(k), eConst(k, x))
			if k == 's' {
				e = eFn('b', t.Pick("eq", "ne", "contains", "hasPrefix", "hasSuffix", "eqFold"), eVar(k), eConst(k, x))
			}
			if t.P(40) {
				e.Args[0], e.Args[1] = e.Args[1], e.Args[0]
			}
		} else {
			n := t.Intn(4)
			es := make([]*E, n)
			for i := range es {
				es[i] = eConst(lower(k), wideConst(t.Rng, lower(k)))
			}
			l := eList(k, es...)
			switch {
			case (k == 'I' || k == 'U' || k == 'S') && t.P(50):
				e = eFn('b', "contains", eVar(lower(k)), l)
			default:
				e = eFn('b', "eq", eFn(lower(k), "elem", l, eVar('i')), eConst(lower(k), wideConst(t.Rng, lower(k))))
				if n > 0 {
					e.Args[1] = es[t.Intn(n)]
				}
			}
		}
		roundTrip(t, e, e.text(t.Rng), genLabels(t.Rng, e, 6))
	})
	regexes := []string{"a`b", "a\"b", `a\b`, `\d+\.\d*`, "a\nb", "[`]", "^$", "日本", `\x00`, "\t", "a{2,3}", `\Q"\E`}
	c.Run("regex", len(regexes)*4, func(t *T) {
		x := regexes[t.idx/4]
		e := eFn('b', "regex", eConst('s', x), eVar('s'))
		if t.idx%2 == 1 {
			e = eFn('b', "not", e)
		}
		var ls []Val
		for _, s := range []string{"a`b", "a\"b", "a", "12.5", "a\nb", "`", "", "日本", "\x00", "\t", "aa", "\"", `a\b`} {
			ls = append(ls, vS(s))
		}
		roundTrip(t, e, e.text(t.Rng), ls)
	})
}

// swapped is f with its sides exchanged, when f is an ordered comparison with
// its constant first.
func swapped(f funcs.Bool) string {
	s := f.String()
	for _, op := range []string{"ge", "gt", "le", "lt"} {
		if strings.HasPrefix(s, op+"(") && strings.HasSuffix(s, ")") {
			x, err := exprOf(s)
			if err != nil {
				return ""
			}
			ps := x.GetFunction().GetParams()
			if len(ps) != 2 || ps[1].GetTerminal().GetVariable() == nil || ps[0].GetTerminal() == nil || ps[0].GetTerminal().GetVariable() != nil {
				return ""
			}
			v := ps[1].GetTerminal().GetVariable().String()
			return op + "(" + v + "," + strings.TrimSuffix(s[len(op)+1:], ","+v+")") + ")"
		}
	}
	return ""
}

// ------------------------------------------------------------ P14

// hole makes an expression of kind k that depends on a variable and on the
// integer constants that it gives.
func hole(r *Rng, k byte) (*E, []*E) {
	a, b := eConst('i', int64(r.Intn(3))), eConst('i', int64(r.Intn(3)))
	u := lower(k)
	list := eList(upper(u), eVar(u))
	for n := r.Intn(3); n > 0; n-- {
		list.Args = append(list.Args, genConst(r, u))
	}
	if k != u {
		return eFn(k, "range", list, a, b), []*E{a, b}
	}
	inner := eFn(k, "elem", list, a)
	return eFn(k, "elem", eList(upper(k), inner, eVar(k)), b), []*E{a, b}
}

// boolean makes a boolean function of an expression of any kind.
func boolean(r *Rng, e *E) *E {
	if e.Kind == 'b' {
		return e
	}
	if e.Kind < 'a' {
		e = eFn('i', "length", e)
	}
	h, _ := hole(r, e.Kind)
	if r.P(50) {
		return eFn('b', "eq", h, e)
	}
	return eFn('b', "ne", e, h)
}

// collideInts changes two integer constants of e such that the hash stays the
// same; it gives whether it could.
func collideInts(t *T, e *E, x, y *E) bool {
	at := func(c *E, d int64) uint64 {
		old := c.C.(int64)
		c.C = old + d
		h := mustFunc(t, e.String()).Hash()
		c.C = old
		return h
	}
	h := at(x, 0)
	kx, ky := at(x, 1)-h, at(y, 1)-h
	for n, m := 0, int64(1); n < 9; n, m = n+1, m*31 {
		if kx == ky*uint64(m) {
			x.C, y.C = x.C.(int64)+1, y.C.(int64)-m
			return true
		}
		if ky == kx*uint64(m) {
			y.C, x.C = y.C.(int64)+1, x.C.(int64)-m
			return true
		}
	}
	return false
}

func runP14(c *Ctx) {
	sign := func(i int) int {
		switch {
		case i < 0:
			return -1
		case i > 0:
			return 1
		}
		return 0
	}
	// Two functions with the same hash that differ in a single argument, for every
	// argument of every function.
	for _, s := range sigs {
		s := s
		for i := range s.in {
			i := i
			if s.op == "now" || s.op == "regex" && i == 0 || s.op == "contains" && s.in[i] < 'a' {
				continue
			}
			c.Run(fmt.Sprintf("argument/%s/%s/%d", s.op, s.in, i), c.N(20), func(t *T) {
				e := &E{Kind: s.out, Op: s.op}
				var cs []*E
				for j := range s.in {
					k := s.in[j]
					switch {
					case s.op == "regex" && j == 0:
						e.Args = append(e.Args, eConst('s', vocabRegex[t.Intn(len(vocabRegex))]))
					case s.op == "contains" && k < 'a':
						e.Args = append(e.Args, genConst(t.Rng, k))
					default:
						h, hs := hole(t.Rng, k)
						if i == j {
							cs = hs
						}
						e.Args = append(e.Args, h)
					}
				}
				e = boolean(t.Rng, e)
				f := mustFunc(t, e.String())
				if !collideInts(t, e, cs[0], cs[1]) {
					t.Count("no_collision", 1)
					return
				}
				g := mustFunc(t, e.String())
				if f.Hash() != g.Hash() {
					t.Count("no_collision", 1)
					return
				}
				x, y := sign(f.Compare(g)), sign(g.Compare(f))
				if x == 0 || x != -y || funcs.Equal(f, g) || funcs.Equal(g, f) {
					t.Fail("functions that differ in an argument have the same hash, and compare as %d and %d, and Equal gives %v\n%s\n%s", x, y, funcs.Equal(f, g), f, g)
				}
				if h := mustFunc(t, e.String()); h.Compare(g) != 0 || !funcs.Equal(h, g) {
					t.Fail("the same function built twice differs\n%s\n%s", h, g)
				}
				t.Count("collisions_in_one_argument", 1)
				t.Nontrivial(f.String() + g.String())
			})
		}
	}
	c.Run("pools", c.N(12000), func(t *T) {
		var fs []funcs.Bool
		var texts []string
		var es []*E
		n := 14 + t.Intn(10)
		for len(fs) < n {
			var e *E
			switch {
			case len(es) > 0 && t.P(25):
				// the same again
				e = es[t.Intn(len(es))]
			case len(es) > 0 && t.P(30):
				// one constant changed
				e = es[t.Intn(len(es))].clone()
				cs := constsOf(e)
				if len(cs) > 0 {
					x := cs[t.Intn(len(cs))]
					if e.String() != "" && !strings.Contains(e.String(), "regex") {
						x.C = wideConst(t.Rng, x.Kind)
					}
				}
			case len(es) > 0 && t.P(15):
				// other constants with the same hash
				e = es[t.Intn(len(es))].clone()
				if !strings.Contains(e.String(), "regex") {
					collideExpr(t.Rng, e)
				}
			case t.P(40):
				e = genTotal(t.Rng, t.Intn(2))
			case t.P(15):
				e = eConst('b', t.P(50))
			case t.P(10):
				e = eVar('b')
			default:
				e = genExpr(t.Rng, 'b', 1+t.Intn(3), 55)
				if t.P(30) {
					widen(t.Rng, e)
				}
			}
			if t.P(6) {
				e = withPrint(t.Rng, e)
			}
			es = append(es, e)
			texts = append(texts, e.String())
			fs = append(fs, mustFunc(t, e.String()))
		}
		seen := map[int]bool{}
		cmp := make([][]int, n)
		evs := make([]compose.Bool, n)
		for i := range fs {
			evs[i] = evaluator(t, fs[i])
			cmp[i] = make([]int, n)
			for j := range fs {
				t.Info("comparing %s and %s", fs[i], fs[j])
				cmp[i][j] = sign(fs[i].Compare(fs[j]))
			}
		}
		for i := range fs {
			for j := range fs {
				x, y := cmp[i][j], cmp[j][i]
				t.Count("pairs", 1)
				if x != -y {
					t.Fail("comparing is not antisymmetric: %d and %d\n%s\n%s", x, y, fs[i], fs[j])
				}
				if texts[i] == texts[j] && x != 0 {
					t.Fail("the same expression built twice differs: %d\n%s", x, texts[i])
				}
				if i != j {
					seen[x] = true
				}
				eq := funcs.Equal(fs[i], fs[j])
				if eq != (x == 0) {
					t.Fail("Equal is %v but Compare is %d\n%s\n%s", eq, x, fs[i], fs[j])
				}
				if eq && fs[i].Hash() != fs[j].Hash() {
					t.Fail("equal functions have different hashes\n%s\n%s", fs[i], fs[j])
				}
				if !eq && fs[i].Hash() == fs[j].Hash() {
					t.Count("different_functions_with_equal_hashes", 1)
				}
				if eq != (fs[i].String() == fs[j].String()) {
					t.Fail("Equal is %v\n%s\n%s", eq, fs[i], fs[j])
				}
				if eq && i != j {
					for _, v := range genLabels(t.Rng, es[i], 3) {
						a, b := outcomeOf(evs[i].Eval(labelOf(v))), outcomeOf(evs[j].Eval(labelOf(v)))
						if a != b {
							t.Fail("equal functions evaluate to %s and %s on %v\n%s\n%s", outcomeName(a), outcomeName(b), v, texts[i], texts[j])
						}
					}
				}
			}
		}
		for i := range fs {
			for j := range fs {
				for k := range fs {
					if cmp[i][j] <= 0 && cmp[j][k] <= 0 && cmp[i][k] > 0 {
						t.Fail("comparing is not transitive\n%s\n%s\n%s", fs[i], fs[j], fs[k])
					}
				}
			}
		}
		t.Count("triples", n*n*n)
		if len(seen) == 3 {
			ss := append([]string{}, texts...)
			sort.Strings(ss)
			t.Nontrivial(strings.Join(ss, ";"))
			t.Sample("%s", strings.Join(ss[:4], " ; "))
		}
	})
}

func largeProbe(t *T, e *E, v Val, want bool) {
	text := e.text(nil)
	t.Info("expression: %s\nlabel: %v", text, v)
	got := outcomeOf(evaluator(t, mustFunc(t, text)).Eval(labelOf(v)))
	if got != map[bool]int{true: bT, false: bF}[want] {
		t.Fail("evaluates to %s, but is %v\nexpression: %s\nlabel: %v", outcomeName(got), want, text, v)
	}
	t.Count("determined_results", 1)
}
