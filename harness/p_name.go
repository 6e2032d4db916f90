package main

import (
	"strings"

	"github.com/katydid/katydid/parser"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/funcs"
	"github.com/katydid/katydid/relapse/name"
	rparser "github.com/katydid/katydid/relapse/parser"
)

func init() {
	register("P41", &check{
		rule: "a case is one name or one function; non-trivial when it matches at least one of its labels and leaves out another, distinct by the printed name or function",
		run:  runP41,
	})
}

// nameLabels are labels at and around what a name mentions.
func nameLabels(r *Rng, n *N) []Val {
	var lits []*N
	var walk func(n *N)
	walk = func(n *N) {
		if n == nil {
			return
		}
		if n.Op == "lit" {
			lits = append(lits, n)
		}
		walk(n.L)
		walk(n.R)
	}
	walk(n)
	vs := []Val{vS("elsewhere"), vI(77), vU(77), vD(77.5), vB(true), vB(false), vY([]byte{7, 7})}
	for _, l := range lits {
		vs = append(vs, leafOf(l.Kind, l.C), leafOf(l.Kind, otherThan(r, l.Kind, l.C)))
		switch l.Kind {
		case 'i':
			i := l.C.(int64)
			vs = append(vs, vU(uint64(i)), vD(float64(i)))
		case 'u':
			u := l.C.(uint64)
			vs = append(vs, vI(int64(u)), vD(float64(u)))
		case 'd':
			vs = append(vs, vI(int64(l.C.(float64))))
		case 's':
			vs = append(vs, vY([]byte(l.C.(string))), vS(strings.ToUpper(l.C.(string))))
		case 'y':
			vs = append(vs, vS(string(l.C.([]byte))))
		}
	}
	return vs
}

func genNameDeep(r *Rng, depth int) *N {
	if depth > 0 && r.P(55) {
		if r.P(40) {
			return nExcept(genNameDeep(r, depth-1))
		}
		return nChoice(genNameDeep(r, depth-1), genNameDeep(r, depth-1))
	}
	if r.P(12) {
		return nAny()
	}
	k := "iudbssy"[r.Intn(7)]
	if k == 's' && r.P(50) {
		return nStr(vocabNames[r.Intn(len(vocabNames))])
	}
	return &N{Op: "lit", Kind: k, C: genConst(r, k).C}
}

// evalOn evaluates a function on a label.
func evalOn(t *T, f funcs.Bool, v Val) (bool, error) {
	return evaluator(t, f).Eval(parser.Value(labelOf(v)))
}

func nameOfText(t *T, text string) *ast.NameExpr {
	g, err := rparser.ParseGrammar(text + ":*")
	if err != nil {
		t.Fail("the name %s is refused: %v", text, err)
	}
	return g.TopPattern.TreeNode.Name
}

// checkName compares a name with its reference on labels.
func checkName(t *T, how string, e *ast.NameExpr, want func(Val) bool, vs []Val) int {
	f := name.NameToFunc(e)
	seen := 0
	for _, v := range vs {
		w := want(v)
		got, err := evalOn(t, f, v)
		if err != nil {
			t.Fail("%s: the function of the name %s gives an error on the label %v: %v", how, e, v, err)
		}
		if got != w {
			t.Fail("%s: the function %s of the name %s gives %v on the label %v", how, f, e, got, v)
		}
		if got := name.EvalName(e, labelOf(v)); got != w {
			t.Fail("%s: the name %s evaluates to %v on the label %v", how, e, got, v)
		}
		seen |= outcomeOf(w, nil)
	}
	return seen
}

// checkBack makes a name of a function and compares the two.
func checkBack(t *T, f funcs.Bool, want func(Val) bool, vs []Val) *ast.NameExpr {
	before := f.String()
	back, err := name.FuncToName(f)
	if err != nil {
		return nil
	}
	if f.String() != before {
		t.Fail("making a name of %s changed it into %s", before, f)
	}
	checkName(t, "the name of "+before, back, want, vs)
	// as it is printed
	checkName(t, "the printed name of "+before, nameOfText(t, back.String()), want, vs)
	// and again
	again, err := name.FuncToName(name.NameToFunc(back))
	if err != nil {
		t.Fail("the name %s of the function %s is a function that has no name: %v", back, before, err)
	}
	checkName(t, "the name of the name of "+before, again, want, vs)
	return back
}

func runP41(c *Ctx) {
	c.Run("names", c.N(20000), func(t *T) {
		r := t.Rng
		n := genNameDeep(r, r.Intn(5))
		text := n.text(r)
		t.Info("name %s", text)
		e := nameOfText(t, text)
		vs := nameLabels(r, n)
		before := e.String()
		seen := checkName(t, "parsed", e, n.match, vs)
		if e.String() != before {
			t.Fail("making a function of %s changed it into %s", before, e)
		}
		t.Count("labels", len(vs))
		if checkBack(t, name.NameToFunc(e), n.match, vs) == nil {
			_, err := name.FuncToName(name.NameToFunc(e))
			t.Fail("the function %s of the name %s is not turned back into a name: %v", name.NameToFunc(e), e, err)
		}
		if seen == bT|bF {
			t.Nontrivial(text)
			t.Sample("%s", text)
		}
	})
	// what is not the function of a name is refused, or is one after all
	var near func(r *Rng, depth int) *E
	near = func(r *Rng, depth int) *E {
		if depth > 0 && r.P(60) {
			switch r.Intn(3) {
			case 0:
				return eFn('b', "not", near(r, depth-1))
			case 1:
				return eFn('b', "or", near(r, depth-1), near(r, depth-1))
			}
			return eFn('b', "and", near(r, depth-1), near(r, depth-1))
		}
		k := "iudbsy"[r.Intn(6)]
		a, b := eVar(k), genConst(r, k)
		switch r.Intn(16) {
		case 0:
			a, b = b, a
		case 1:
			return eFn('b', "ne", a, b)
		case 2:
			return eConst('b', r.P(50))
		case 3:
			return eFn('b', "type", a)
		case 4:
			return genTotal(r, r.Intn(2))
		case 5:
			if k == 's' {
				return eFn('b', r.Pick("contains", "hasPrefix", "hasSuffix", "eqFold"), a, b)
			}
			return eVar('b')
		case 6:
			if k == 's' {
				a = eFn('s', r.Pick("toLower", "toUpper"), a)
			} else {
				b = eVar(k)
			}
		case 7:
			if k != 'b' && k != 's' {
				return eFn('b', r.Pick("ge", "gt", "le", "lt"), a, b)
			}
			b = genExpr(r, k, 1, 50)
		}
		return eFn('b', "eq", a, b)
	}
	c.Run("functions", c.N(20000), func(t *T) {
		r := t.Rng
		e := near(r, r.Intn(4))
		text := e.text(r)
		t.Info("function %s", text)
		f, err := funcOf(text)
		if err != nil {
			t.Fail("the well typed expression %s is refused: %v", text, err)
		}
		// labels around all constants
		n := nAny()
		var walk func(e *E)
		walk = func(e *E) {
			if e.Op == "const" && e.Kind >= 'a' {
				n = nChoice(n, &N{Op: "lit", Kind: e.Kind, C: e.C})
			}
			for _, a := range e.Args {
				walk(a)
			}
		}
		walk(e)
		vs := nameLabels(r, n)
		unsure := false
		var kept []Val
		want := map[string]bool{}
		seen := 0
		for _, v := range vs {
			o := e.outcomes(v)
			if o&bE != 0 || o == bT|bF {
				if _, err := evalOn(t, f, v); err != nil {
					unsure = true
				}
				continue
			}
			kept = append(kept, v)
			want[v.String()] = o == bT
			seen |= o
			got, err := evalOn(t, f, v)
			if err != nil || got != (o == bT) {
				t.Fail("the function %s gives %v, %v on the label %v, instead of %s", text, got, err, v, outcomeName(o))
			}
		}
		back := checkBack(t, f, func(v Val) bool { return want[v.String()] }, kept)
		if back == nil {
			t.Count("refused", 1)
			return
		}
		if unsure {
			t.Fail("the function %s, which fails on some labels, is turned into the name %s, which does not", text, back)
		}
		t.Count("named", 1)
		t.Count("labels", len(kept))
		if seen == bT|bF {
			t.Nontrivial(text)
			t.Sample("%s is %s", text, back)
		}
	})
}
