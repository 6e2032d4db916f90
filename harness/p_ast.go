package main

import (
	"math"
	"reflect"
	"strings"

	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/interp"
)

func init() {
	register("P15", &check{
		rule: "a case is a pair of grammar trees (and the triples they form with a third); non-trivial when both hold at least two nodes, distinct by their texts",
		assume: []string{
			"the oracle of equality is a reflective comparison of the trees that ignores only the spelling of literals and takes nil and empty byte lists for equal",
		},
		run: runP15,
	})
	register("P16", &check{
		rule: "a case is a grammar with a sequence of operations on it; non-trivial when at least three operations were done, distinct by the grammar and the operations",
		assume: []string{
			"formatting is left out: changing the layout is its purpose",
		},
		run: runP16,
	})
}

// sameTree compares two trees by value, without using the library.
func sameTree(a, b reflect.Value) bool {
	if a.Kind() != b.Kind() || a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() && b.IsNil()
		}
		return sameTree(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if f := a.Type().Field(i); f.Name == "Literal" || strings.HasPrefix(f.Name, "XXX_") {
				continue
			}
			if !sameTree(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Slice:
		if a.Type().Elem().Kind() == reflect.Uint8 {
			// A literal with no bytes is a value, unlike no literal.
			if a.Len() == 0 && b.Len() == 0 {
				return a.IsNil() == b.IsNil()
			}
		}
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !sameTree(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			v := b.MapIndex(k)
			if !v.IsValid() || !sameTree(a.MapIndex(k), v) {
				return false
			}
		}
		return true
	case reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float()) || a.Float() == b.Float()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint64, reflect.Uint8:
		return a.Uint() == b.Uint()
	}
	panic("sameTree " + a.Kind().String())
}

func same(a, b interface{}) bool { return sameTree(reflect.ValueOf(a), reflect.ValueOf(b)) }

// pointers collects what a tree points at.
func pointers(v reflect.Value, out map[uintptr]string, path string) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if v.Elem().Type().Size() > 0 {
			out[v.Pointer()] = path
		}
		pointers(v.Elem(), out, path)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			pointers(v.Field(i), out, path+"."+v.Type().Field(i).Name)
		}
	case reflect.Slice:
		if v.Len() > 0 {
			out[v.Pointer()] = path
		}
		for i := 0; i < v.Len(); i++ {
			pointers(v.Index(i), out, path+"[]")
		}
	case reflect.Map:
		if !v.IsNil() {
			out[v.Pointer()] = path
		}
		for _, k := range v.MapKeys() {
			pointers(v.MapIndex(k), out, path+"{"+k.String()+"}")
		}
	}
}

func shared(a, b interface{}) string {
	m := map[uintptr]string{}
	pointers(reflect.ValueOf(a), m, "")
	n := map[uintptr]string{}
	pointers(reflect.ValueOf(b), n, "")
	for p, path := range n {
		if _, ok := m[p]; ok {
			return path
		}
	}
	return ""
}

// tweak changes one place of a model.
func tweak(r *Rng, g *G) {
	var ps []*P
	g.walk(func(p *P) { ps = append(ps, p) })
	p := ps[r.Intn(len(ps))]
	swap := map[string][]string{"star": {"opt", "not"}, "opt": {"star", "contains"}, "not": {"star", "contains"}, "contains": {"not", "opt"}, "concat": {"or", "and", "interleave"}, "or": {"concat", "and"}, "and": {"or", "interleave"}, "interleave": {"concat", "and"}, "empty": {"any"}, "any": {"empty"}}
	switch {
	case p.Op == "leaf" && r.P(30) && !strings.Contains(p.E.String(), "regex"):
		p.E = p.E.clone()
		collideExpr(r, p.E)
	case p.Op == "node" && p.Name.Op == "lit" && p.Name.Kind == 's' && r.P(40):
		p.Name = nStr(colliderStr(r, p.Name.C.(string)))
	case p.Op == "leaf":
		e := p.E.clone()
		widen(r, e)
		if r.P(50) {
			e = synExpr(r, 1+r.Intn(2))
		}
		p.E = e
	case p.Op == "node" && r.P(70):
		p.Name = synName(r, 2)
	case p.Op == "ref":
		p.Ref = r.Pick("main", "r0", "r1", "x")
	case len(p.Kids) > 1 && r.P(40):
		ks := append([]*P{}, p.Kids...)
		ks[0], ks[1] = ks[1], ks[0]
		p.Kids = ks
	default:
		if s := swap[p.Op]; len(s) > 0 {
			p.Op = s[r.Intn(len(s))]
		}
	}
}

func (p *P) clone() *P {
	c := *p
	c.Kids = nil
	for _, k := range p.Kids {
		c.Kids = append(c.Kids, k.clone())
	}
	return &c
}

func (g *G) clone() *G {
	c := &G{Decls: map[string]*P{}, Order: append([]string{}, g.Order...), HashTop: g.HashTop}
	for n, p := range g.Decls {
		c.Decls[n] = p.clone()
	}
	return c
}

func allPatterns(g *ast.Grammar) []*ast.Pattern {
	c := &collect{}
	g.Walk(c)
	return c.ps
}

type collect struct {
	ps []*ast.Pattern
	ns []*ast.NameExpr
	es []*ast.Expr
	ts []*ast.Terminal
}

func (c *collect) Visit(n interface{}) interface{} {
	switch v := n.(type) {
	case *ast.Pattern:
		c.ps = append(c.ps, v)
	case *ast.NameExpr:
		c.ns = append(c.ns, v)
	case *ast.Expr:
		c.es = append(c.es, v)
	case *ast.Terminal:
		c.ts = append(c.ts, v)
	}
	return c
}

func sign(i int) int {
	if i < 0 {
		return -1
	}
	if i > 0 {
		return 1
	}
	return 0
}

func runP15(c *Ctx) {
	c.Run("trees", c.N(10000), func(t *T) {
		base := synSome(t.Rng, 3000, 40)
		n := 3 + t.Intn(3)
		var as []*ast.Grammar
		var texts []string
		for i := 0; i < n; i++ {
			g := base.clone()
			for k := t.Intn(3); k > 0; k-- {
				tweak(t.Rng, g)
			}
			l := &layout{r: t.Rng, lit: canonLit}
			if t.P(30) {
				l = randomLayout(t.Rng, t.P(50))
			} else if t.P(30) {
				l.lit = func(k byte, v interface{}) string { return variedLit(t.Rng, k, v) }
			}
			texts = append(texts, l.grammar(g))
			t.Info("text:\n%s", texts[i])
			as = append(as, mustParse(t, texts[i]))
		}
		t.Info("texts:\n%s", strings.Join(texts, "\n\n"))
		for i, a := range as {
			for j, b := range as {
				want := same(a, b)
				if got := a.Equal(b); got != want {
					t.Fail("grammars: Equal is %v\n%s\n%s", got, texts[i], texts[j])
				}
				if want {
					t.Count("equal_pairs", 1)
				} else {
					t.Count("different_pairs", 1)
				}
				if len(texts[i]) > 8 && len(texts[j]) > 8 {
					t.Nontrivial(texts[i], texts[j])
				}
			}
		}
		// patterns of all grammars
		var ps []*ast.Pattern
		var ns []*ast.NameExpr
		for _, a := range as {
			c := &collect{}
			a.Walk(c)
			for _, p := range c.ps {
				if len(ps) < 12 || t.P(30) {
					ps = append(ps, p)
				}
			}
			ns = append(ns, c.ns...)
		}
		for len(ps) > 24 {
			ps = append(ps[:1], ps[2:]...)
		}
		if len(ns) > 16 {
			ns = ns[:16]
		}
		lawsOf(t, "pattern", len(ps), func(i, j int) (bool, bool, int) {
			return same(ps[i], ps[j]), ps[i].Equal(ps[j]), ps[i].Compare(ps[j])
		}, func(i int) (uint64, string) { return ps[i].Hash(), ps[i].String() })
		lawsOf(t, "name", len(ns), func(i, j int) (bool, bool, int) {
			return same(ns[i], ns[j]), ns[i].Equal(ns[j]), ns[i].Compare(ns[j])
		}, func(i int) (uint64, string) { return 0, ns[i].String() })
		// clones
		for i, a := range as {
			b := a.Clone()
			if !reflect.DeepEqual(a, b) {
				t.Fail("a clone differs\n%s\n%s", texts[i], b.String())
			}
			if s := shared(a, b); s != "" {
				t.Fail("a clone of\n%s\nshares %s", texts[i], s)
			}
			c := &collect{}
			a.Walk(c)
			for _, e := range c.es {
				if e2 := e.Clone(); !reflect.DeepEqual(e, e2) || shared(e, e2) != "" {
					t.Fail("a clone of the expression %s is %s and shares %q", e, e2, shared(e, e2))
				}
			}
			for _, p := range c.ps {
				if p2 := p.Clone(); !reflect.DeepEqual(p, p2) || shared(p, p2) != "" {
					t.Fail("a clone of the pattern %s is %s and shares %q", p, p2, shared(p, p2))
				}
			}
			r := ast.NewRefLookup(a)
			if r2 := r.Clone(); !reflect.DeepEqual(r, r2) || shared(r, r2) != "" {
				t.Fail("a clone of the references of %s shares %q", texts[i], shared(r, r2))
			}
			t.Count("clones", 1)
		}
		t.Sample("%s", texts[0])
	})
	c.Run("walk", c.N(6000), func(t *T) {
		// Walking visits every node exactly once.
		g := synSome(t.Rng, 1000, 1000)
		text := randomLayout(t.Rng, true).grammar(g)
		t.Info("text:\n%s", text)
		a := mustParse(t, text)
		w := &walkCount{}
		a.Walk(w)
		w.exprs = 0 // whether leaves include their expressions is not specified
		for _, p := range allPatterns(a) {
			if p.LeafNode != nil {
				p.LeafNode.Expr.Walk(w)
			}
		}
		nodes, leaves := 0, 0
		fromAST(a).walk(func(p *P) {
			if len(p.Kids) > 2 {
				nodes += len(p.Kids) - 1
			} else {
				nodes++
			}
			if p.Op == "leaf" {
				p.E.walk(func(*E) { leaves++ })
			}
		})
		if w.patterns != nodes || w.exprs != leaves {
			t.Fail("walking visits %d patterns and %d expressions instead of %d and %d\n%s", w.patterns, w.exprs, nodes, leaves, text)
		}
		t.Nontrivial(text)
	})
}

type walkCount struct{ patterns, exprs int }

func (w *walkCount) Visit(n interface{}) interface{} {
	switch n.(type) {
	case *ast.Pattern:
		w.patterns++
	case *ast.Expr:
		w.exprs++
	}
	return w
}

func lawsOf(t *T, what string, n int, rel func(i, j int) (same, equal bool, cmp int), of func(i int) (hash uint64, s string)) {
	cmp := make([][]int, n)
	for i := 0; i < n; i++ {
		cmp[i] = make([]int, n)
		hi, si := of(i)
		for j := 0; j < n; j++ {
			want, eq, c := rel(i, j)
			cmp[i][j] = sign(c)
			hj, sj := of(j)
			if eq != want {
				t.Fail("%ss: Equal is %v\n%s\n%s", what, eq, si, sj)
			}
			if (c == 0) != eq {
				t.Fail("%ss: Compare is %d but Equal is %v\n%s\n%s", what, c, eq, si, sj)
			}
			if !eq && hi == hj && hi != 0 {
				t.Count("different_trees_with_equal_hashes", 1)
			}
			if eq && hi != hj {
				t.Fail("%ss are equal with different hashes\n%s\n%s", what, si, sj)
			}
		}
	}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if cmp[i][j] != -cmp[j][i] {
				_, si := of(i)
				_, sj := of(j)
				t.Fail("%ss: Compare is %d and %d\n%s\n%s", what, cmp[i][j], cmp[j][i], si, sj)
			}
			for k := 0; k < n; k++ {
				if cmp[i][j] <= 0 && cmp[j][k] <= 0 && cmp[i][k] > 0 {
					_, si := of(i)
					_, sj := of(j)
					_, sk := of(k)
					t.Fail("%ss: Compare is not transitive\n%s\n%s\n%s", what, si, sj, sk)
				}
			}
		}
	}
	t.Count(what+"_triples", n*n*n)
}

func runP16(c *Ctx) {
	c.Run("operations", c.N(12000), func(t *T) {
		g, docs := genGrammar(t.Rng, genStyle(t.Rng), gramStyle{total: t.P(60)}, 6+t.Intn(20), 3)
		shorten(t.Rng, g)
		text := randomLayout(t.Rng, t.P(50)).grammar(g)
		t.Info("text:\n%s", text)
		a := mustParse(t, text)
		was := a.Clone()
		var ops []string
		printed := was.String()
		for n := 3 + t.Intn(6); n > 0; n-- {
			op := t.Pick("prepare", "record", "auto", "autorecord", "intern", "internrecord", "interp", "simplify", "print", "compare", "recursion", "refs", "walk", "gostring")
			ops = append(ops, op)
			t.Info("text:\n%s\noperations %v", text, ops)
			doc := docs[t.Intn(len(docs))]
			var v validator
			var err error
			switch op {
			case "prepare":
				v, err = newMem(a)
			case "record":
				v, err = newMemRecord(a)
			case "auto":
				v, err = newAuto(a)
				if err != nil {
					v, err = nil, nil
				}
			case "autorecord":
				v, err = newAutoRecord(a)
				if err != nil {
					v, err = nil, nil
				}
			case "intern":
				v = internV(a, false)
			case "internrecord":
				v = internV(a, true)
			case "interp":
				v = interpV(a)
			case "simplify":
				s := interp.NewSimplifier(a)
				if t.P(50) {
					s = s.OptimizeForRecord()
				}
				b := s.Grammar()
				v, err = newMem(b)
				_ = b.String()
			case "print":
				if s := a.String(); s != printed {
					t.Fail("%s\nis printed as %s after %v", text, s, ops)
				}
			case "compare":
				if !a.Equal(was) || !was.Equal(a) {
					t.Fail("the grammar is no longer equal to its copy after %v\n%s\n%s", ops, text, a)
				}
				ps := allPatterns(a)
				ps[t.Intn(len(ps))].Compare(ps[t.Intn(len(ps))])
				ps[t.Intn(len(ps))].Hash()
			case "recursion":
				interp.HasRecursion(a)
			case "refs":
				a.CheckReferences()
				ast.NewRefLookup(a)
			case "walk":
				allPatterns(a)
			case "gostring":
				_ = a.GoString()
			}
			if err != nil {
				t.Count("prepare_refused", 1)
			} else if v != nil {
				run(v, doc)
				t.Count("validations", 1)
			}
			if !reflect.DeepEqual(a, was) {
				t.Fail("the grammar\n%s\nis changed by %v into\n%s\n%s", text, ops, a.String(), firstDiff(a.GoString(), was.GoString()))
			}
		}
		if len(ops) >= 3 {
			t.Nontrivial(text, ops)
		}
		// used often, it still means the same
		fresh := mustParse(t, text)
		m1, err1 := relapse.Prepare(a)
		m2, err2 := relapse.Prepare(fresh)
		if (err1 == nil) != (err2 == nil) {
			t.Fail("after %v preparing gives %v, before %v\n%s", ops, err1, err2, text)
		}
		if err1 != nil {
			return
		}
		for _, d := range docs {
			b1, e1 := relapse.Validate(m1, newTreeParser(d))
			b2, e2 := relapse.Validate(m2, newTreeParser(d))
			if b1 != b2 || (e1 == nil) != (e2 == nil) {
				t.Fail("after %v the verdict on %v is %v,%v instead of %v,%v\n%s", ops, d, b1, e1, b2, e2, text)
			}
		}
		t.Sample("%v on %s", ops, text)
	})
}

func firstDiff(a, b string) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[max(0, i-60):min(len(a), i+120)] + "\n  was\n" + b[max(0, i-60):min(len(b), i+120)]
		}
	}
	return ""
}
