package main

import (
	"errors"
	"fmt"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/combinator"
	"github.com/katydid/katydid/relapse/intern"
	"github.com/katydid/katydid/relapse/interp"
)

func init() {
	register("P04", &check{
		rule: "distinct grammars that simplification changed and for which the compared documents gave both verdicts",
		run:  runP04,
	})
	register("P06", &check{
		rule: "distinct combinator built grammars for which the compared documents gave both verdicts",
		run:  runP06,
	})
}

// ---------------------------------------------------------------- P04

// judge compares the language of the syntax tree a with the model g on docs.
func judge(t *T, what, text string, g *G, a *ast.Grammar, docs []Doc, deep bool) (seen [2]bool) {
	if err := a.CheckReferences(); err != nil {
		t.Fail("%s has lost a declaration: %v\ngrammar: %s\nafter: %s", what, err, text, a.String())
	}
	back := fromAST(a).desugar()
	if back.immediateRecursion() {
		t.Fail("%s has immediate recursion\ngrammar: %s\nafter: %s", what, text, a.String())
	}
	m, err := newMem(a)
	if err != nil {
		t.Fail("%s is refused: %v\ngrammar: %s\nafter: %s", what, err, text, a.String())
	}
	for _, d := range docs {
		want, certain, err := refVerdict(g, d)
		if err != nil || !certain {
			t.Count("inconclusive", 1)
			continue
		}
		t.Info("%s: grammar: %s\nafter: %s\ndocument: %v", what, text, a.String(), d)
		got, certain, err := refVerdict(back, d)
		if err != nil {
			t.Count("inconclusive", 1)
			continue
		}
		if !certain {
			t.Fail("%s raises an error where the grammar does not\ngrammar: %s\nafter: %s\ndocument: %v", what, text, back, d)
		}
		if got != want {
			t.Fail("%s accepts=%v where the grammar has %v\ngrammar: %s\nafter: %s\ndocument: %v", what, got, want, text, back, d)
		}
		t.Count("languages_compared", 1)
		if deep {
			v1, _ := run(m, d)
			v2, _ := run(interpV(a), d)
			if v1.err != nil || v2.err != nil || v1.ok != want || v2.ok != want {
				t.Fail("%s gives the verdicts %v and %v, the grammar means %v\ngrammar: %s\nafter: %s\ndocument: %v", what, v1, v2, want, text, back, d)
			}
			t.Count("verdicts_compared", 2)
		}
		if want {
			seen[1] = true
		} else {
			seen[0] = true
		}
	}
	return seen
}

func runP04(c *Ctx) {
	body := func(small bool) func(t *T) {
		return func(t *T) {
			st := genStyle(t.Rng)
			record := t.P(40)
			if record {
				st.dups = false
			}
			var g *G
			var docs []Doc
			if small {
				g, docs = genSmall(t.Rng, record)
			} else {
				g, docs = genGrammar(t.Rng, st, gramStyle{total: t.P(85)}, 22, 5)
			}
			text := g.text(t.Rng)
			t.Info("grammar: %s", text)
			a := mustParse(t, text)
			simp := func(a *ast.Grammar) *ast.Grammar {
				s := interp.NewSimplifier(a)
				if record {
					s = s.OptimizeForRecord()
				}
				return s.Grammar()
			}
			once := simp(a.Clone())
			seen := judge(t, "the simplified grammar", text, g, once, docs, t.P(30))
			printed := once.String()
			again, err := parseText(printed)
			if err != nil {
				t.Fail("the simplified grammar does not parse: %v\ngrammar: %s\nafter: %s", err, text, printed)
			}
			if t.P(30) {
				judge(t, "the simplified, printed and parsed grammar", text, g, again, docs, true)
			}
			if t.P(30) {
				judge(t, "the twice simplified grammar", text, g, simp(again), docs, false)
				judge(t, "the twice simplified grammar", text, g, simp(once), docs, false)
			}
			if g.canon() != fromAST(once).canon() {
				t.Count("changed_by_simplification", 1)
				if seen[0] && seen[1] {
					t.Nontrivial(text, record)
					t.Sample("%s becomes %s", text, printed)
				}
			}
		}
	}
	c.Run("random", c.N(60000), body(false))
	c.Run("small", c.N(10000), body(true))
	simplified := func(t *T, text string) []engine {
		a := mustParse(t, text)
		b := interp.NewSimplifier(a).Grammar()
		m, err := newMem(b)
		if err != nil {
			t.Fail("the simplified grammar is refused: %v\ngrammar: %s", err, text)
		}
		n, err := newMem(mustParse(t, b.String()))
		if err != nil {
			t.Fail("the simplified and printed grammar is refused: %v\ngrammar: %s", err, text)
		}
		if t.P(50) {
			return []engine{{"mem", m}}
		}
		return []engine{{"mem", n}}
	}
	c.Run("large", c.N(600), bigBody(8000, simplified))
	c.Run("combinations", c.N(200), manyBody(simplified, 18, 150))
	c.Run("interned", c.N(25000), func(t *T) {
		// the patterns that the interning interpreter works with, turned back
		// into a grammar
		record := t.P(30)
		var g *G
		var docs []Doc
		switch {
		case t.P(50):
			g, docs = genSmall(t.Rng, record)
			docs = docs[:30]
		default:
			st := genStyle(t.Rng)
			if record {
				st.dups = false
			}
			g, docs = genGrammar(t.Rng, st, gramStyle{total: true}, 18, 5)
		}
		if t.P(20) {
			g.walk(func(p *P) {
				if p.Op == "node" && t.P(30) {
					p.Name = synName(t.Rng, 2)
				}
			})
		}
		text := g.text(t.Rng)
		t.Info("interned: grammar: %s", text)
		a := mustParse(t, text)
		con := intern.NewConstructor()
		if record {
			con = intern.NewConstructorOptimizedForRecords()
		}
		main, err := con.AddGrammar(a)
		if err != nil {
			t.Fail("the constructor refuses the grammar: %v\ngrammar: %s", err, text)
		}
		var decls []*ast.PatternDecl
		printed := ""
		for n := range ast.NewRefLookup(a) {
			p := con.Deref(n)
			if n == "main" {
				p = main
			}
			decls = append(decls, ast.NewPatternDecl(n, p.NewAst()))
			printed += "#" + n + " = " + p.String() + "\n"
		}
		b := &ast.Grammar{PatternDecls: decls}
		seen := judge(t, "the interned grammar", text, g, b, docs, false)
		again, err := parseText(printed)
		if err != nil {
			t.Fail("the interned patterns do not parse: %v\ngrammar: %s\nafter: %s", err, text, printed)
		}
		judge(t, "the interned, printed and parsed grammar", text, g, again, docs, false)
		if seen[0] && seen[1] {
			t.Nontrivial("interned", text, record)
		}
	})
	c.Run("patterns", c.N(40000), func(t *T) {
		// single patterns, one simplifier for many of them
		st := genStyle(t.Rng)
		g, docs := genGrammar(t.Rng, st, gramStyle{total: true}, 22, 4)
		text := g.text(t.Rng)
		a := mustParse(t, text)
		refs := ast.NewRefLookup(a)
		s := interp.NewSimplifier(a)
		var names []string
		for _, i := range t.Perm(len(g.Order)) {
			names = append(names, g.Order[i])
		}
		for k := 0; k < 2; k++ {
			for _, n := range names {
				p := s.Simplify(refs[n])
				// the simplified pattern takes the place of the main pattern
				all := ast.NewRefLookup(a)
				all["was"+n] = all[n]
				h := g.clone()
				h.add("main2", h.Decls[n])
				b := ast.NewGrammar(all)
				b.TopPattern = nil
				var decls []*ast.PatternDecl
				for _, d := range b.PatternDecls {
					if d.Name != "main" {
						decls = append(decls, d)
					}
				}
				b.PatternDecls = append(decls, ast.NewPatternDecl("main", p))
				if n != "main" && all["main"] != nil {
					// references to main now mean the pattern: keep to grammars without them
					uses := false
					g.walk(func(p *P) { uses = uses || p.Op == "ref" && p.Ref == "main" })
					fromPattern(p).walk(func(p *P) { uses = uses || p.Op == "ref" && p.Ref == "main" })
					if uses {
						continue
					}
				}
				m := g.clone()
				m.Decls["main"] = g.Decls[n]
				judge(t, "the simplified pattern "+n, text, m, b, docs, false)
			}
		}
		t.Nontrivial(text)
	})
}

// ---------------------------------------------------------------- P06

// combinable rewrites the model such that it only uses what the combinators
// offer.
func combinable(r *Rng, p *P) *P {
	c := *p
	c.Kids = nil
	for _, k := range p.Kids {
		c.Kids = append(c.Kids, combinable(r, k))
	}
	switch c.Op {
	case "empty":
		return pOp("star", pNone())
	case "contains":
		if c.Kids[0].Op != "node" || !(c.Kids[0].Name.Op == "any" || (c.Kids[0].Name.Op == "lit" && c.Kids[0].Name.Kind == 's')) {
			return pOp("concat", pAny(), c.Kids[0], pAny())
		}
	case "node":
		c.Name = combName(r, c.Name)
	}
	return &c
}

func combName(r *Rng, n *N) *N {
	switch n.Op {
	case "any":
		return n
	case "lit":
		if n.Kind == 's' || n.Kind == 'i' {
			return n
		}
	case "except":
		if n.L.Op == "lit" && n.L.Kind == 's' {
			return n
		}
		return nExcept(nStr(vocabNames[r.Intn(len(vocabNames))]))
	case "choice":
		out := nChoice(nStr(r.Pick(combNames...)), nStr(r.Pick(combNames...)))
		for r.P(40) {
			out = nChoice(nStr(r.Pick(combNames...)), out)
		}
		return out
	}
	return nStr(r.Pick(combNames...))
}

var combNames = []string{"A", "B", "C", "D", "A", "B", "C", "D", "a b", "", "true", "_", "\"", "x:y", "null", "é", "1", "int(1)", "`", "\\n", "\n"}

type combBuilder struct {
	*Rng
	shared map[*P]*ast.Pattern
	exprs  map[*E]*ast.Expr
	g      *G
	lists  map[*P][]*ast.Pattern // the lists that were passed as arguments
	given  []func() string       // what has become of each list that was passed
}

// list returns the arguments for p, in a list with room for more, which may be
// passed again.
func (b *combBuilder) list(p *P) (*ast.Pattern, []*ast.Pattern) {
	if ks, ok := b.lists[p]; ok && b.P(70) {
		return ks[0], ks[1:]
	}
	ks := make([]*ast.Pattern, 0, len(p.Kids)+b.Intn(4))
	for _, k := range p.Kids {
		ks = append(ks, b.pat(k))
	}
	if b.lists == nil {
		b.lists = map[*P][]*ast.Pattern{}
	}
	b.lists[p] = ks
	was := append([]*ast.Pattern{}, ks...)
	b.given = append(b.given, func() string {
		for i := range was {
			if ks[i] != was[i] {
				return fmt.Sprintf("argument %d of %d became %v", i, len(was), ks[i])
			}
		}
		for _, x := range ks[len(ks):cap(ks)] {
			if x != nil {
				return fmt.Sprintf("the room behind the %d arguments became %v", len(was), x)
			}
		}
		return ""
	})
	return ks[0], ks[1:]
}

func (b *combBuilder) names(names []string) []string {
	names = append(make([]string, 0, len(names)+b.Intn(3)), names...)
	was := append([]string{}, names...)
	b.given = append(b.given, func() string {
		for i := range was {
			if names[i] != was[i] {
				return fmt.Sprintf("name %d of %d became %q", i, len(was), names[i])
			}
		}
		return ""
	})
	return names
}

// inside builds the children of a node: sequences may be passed as several
// arguments.
func (b *combBuilder) inside(p *P) (*ast.Pattern, []*ast.Pattern) {
	if p.Op == "concat" && b.P(60) {
		return b.list(p)
	}
	return b.pat(p), nil
}

func (b *combBuilder) pat(p *P) *ast.Pattern {
	if q, ok := b.shared[p]; ok && b.P(70) {
		return q
	}
	q := b.build(p)
	b.shared[p] = q
	return q
}

func (b *combBuilder) build(p *P) *ast.Pattern {
	switch p.Op {
	case "any":
		return combinator.Any()
	case "not":
		if p.Kids[0].Op == "any" && b.P(70) {
			return combinator.None()
		}
		return combinator.OppositeOf(b.pat(p.Kids[0]))
	case "star":
		return combinator.Many(b.pat(p.Kids[0]))
	case "opt":
		return combinator.Maybe(b.pat(p.Kids[0]))
	case "ref":
		return combinator.Eval(p.Ref)
	case "leaf":
		return combinator.Value(b.expr(p.E))
	case "concat":
		k, ks := b.list(p)
		return combinator.InOrder(k, ks...)
	case "interleave":
		k, ks := b.list(p)
		return combinator.InAnyOrder(k, ks...)
	case "and":
		b.list(p)
		return combinator.AllOf(b.lists[p]...)
	case "or":
		b.list(p)
		return combinator.AnyOf(b.lists[p]...)
	case "contains":
		n := p.Kids[0]
		k, ks := b.inside(n.Kids[0])
		if n.Name.Op == "any" {
			return combinator.InAnyPath(k, ks...)
		}
		return combinator.InPath(n.Name.C.(string), k, ks...)
	case "node":
		k, ks := b.inside(p.Kids[0])
		switch p.Name.Op {
		case "any":
			return combinator.InAny(k, ks...)
		case "except":
			return combinator.InAnyExcept(p.Name.L.C.(string), k, ks...)
		case "choice":
			var names []string
			n := p.Name
			for ; n.Op == "choice"; n = n.R {
				names = append(names, n.L.C.(string))
			}
			return combinator.InAnyOf(b.names(append(names, n.C.(string))), k, ks...)
		}
		if p.Name.Kind == 'i' {
			return combinator.Elem(int(p.Name.C.(int64)), k, ks...)
		}
		return combinator.In(p.Name.C.(string), k, ks...)
	}
	panic("combinator " + p.Op)
}

func (b *combBuilder) expr(e *E) *ast.Expr {
	if x, ok := b.exprs[e]; ok && b.P(70) {
		return x
	}
	x := b.buildExpr(e)
	b.exprs[e] = x
	return x
}

func (b *combBuilder) buildExpr(e *E) *ast.Expr {
	var as []*ast.Expr
	for _, a := range e.Args {
		if e.Op != "list" {
			as = append(as, b.expr(a))
		}
	}
	switch e.Op {
	case "const":
		switch e.Kind {
		case 's':
			return combinator.StringConst(e.C.(string))
		case 'i':
			return combinator.IntConst(e.C.(int64))
		case 'u':
			return combinator.UintConst(e.C.(uint64))
		case 'd':
			return combinator.DoubleConst(e.C.(float64))
		case 'b':
			return combinator.BoolConst(e.C.(bool))
		}
		if y := e.C.([]byte); len(y) > 0 || b.P(50) {
			return combinator.BytesConst(y)
		}
		return combinator.BytesConst(nil)
	case "var":
		return map[byte]func() *ast.Expr{'s': combinator.StringVar, 'i': combinator.IntVar, 'u': combinator.UintVar, 'd': combinator.DoubleVar, 'b': combinator.BoolVar, 'y': combinator.BytesVar}[e.Kind]()
	case "list":
		return combList(e)
	case "eq":
		return combinator.Eq(as[0], as[1])
	case "and":
		return combinator.And(as[0], as[1])
	case "or":
		return combinator.Or(as[0], as[1])
	case "not":
		return combinator.Not(as[0])
	case "lt":
		return combinator.LT(as[0], as[1])
	case "le":
		return combinator.LE(as[0], as[1])
	case "gt":
		return combinator.GT(as[0], as[1])
	case "ge":
		return combinator.GE(as[0], as[1])
	case "contains":
		return combinator.Contains(as[0], as[1])
	case "length":
		return combinator.Length(as[0])
	case "regex":
		return combinator.Regex(as[0], as[1])
	case "type":
		return combinator.Type(as[0])
	case "eqFold":
		return combinator.EqualFold(as[0], as[1])
	case "hasPrefix":
		return combinator.HasPrefix(as[0], as[1])
	case "hasSuffix":
		return combinator.HasSuffix(as[0], as[1])
	}
	return ast.NewFunction(e.Op, as...)
}

func combList(e *E) *ast.Expr {
	switch e.Kind {
	case 'S':
		var l []string
		for _, a := range e.Args {
			l = append(l, a.C.(string))
		}
		return combinator.StringsConst(l)
	case 'I':
		var l []int64
		for _, a := range e.Args {
			l = append(l, a.C.(int64))
		}
		return combinator.IntsConst(l)
	case 'U':
		var l []uint64
		for _, a := range e.Args {
			l = append(l, a.C.(uint64))
		}
		return combinator.UintsConst(l)
	case 'D':
		var l []float64
		for _, a := range e.Args {
			l = append(l, a.C.(float64))
		}
		return combinator.DoublesConst(l)
	case 'B':
		var l []bool
		for _, a := range e.Args {
			l = append(l, a.C.(bool))
		}
		return combinator.BoolsConst(l)
	}
	var l [][]byte
	for _, a := range e.Args {
		y := a.C.([]byte)
		if len(y) == 0 {
			y = nil
		}
		l = append(l, y)
	}
	return combinator.ListOfBytesConst(l)
}

// constLists replaces lists with computed elements by constant lists.
func constLists(r *Rng, e *E) *E {
	c := *e
	c.Args = nil
	for _, a := range e.Args {
		c.Args = append(c.Args, constLists(r, a))
	}
	if c.Op == "list" {
		for i, a := range c.Args {
			if a.Op != "const" {
				c.Args[i] = genConst(r, lower(c.Kind))
			}
		}
	}
	return &c
}

func runP06(c *Ctx) {
	c.Run("random", c.N(50000), func(t *T) {
		st := genStyle(t.Rng)
		g, docs := genGrammar(t.Rng, st, gramStyle{total: t.P(80)}, 20, 5)
		h := &G{Decls: map[string]*P{}}
		for _, n := range g.Order {
			p := combinable(t.Rng, g.Decls[n])
			p.walk(func(p *P) {
				if p.Op == "leaf" {
					p.E = constLists(t.Rng, p.E)
				}
			})
			h.add(n, p)
		}
		b := &combBuilder{Rng: t.Rng, shared: map[*P]*ast.Pattern{}, exprs: map[*E]*ast.Expr{}, g: h}
		t.Info("model: %s", h)
		cg := combinator.G{}
		for _, n := range h.Order {
			cg[n] = b.pat(h.Decls[n])
		}
		a := cg.Grammar()
		for _, f := range b.given {
			if msg := f(); msg != "" {
				t.Fail("building a grammar changed what it was given: %s\nmodel: %s", msg, h)
			}
			t.Count("arguments_kept", 1)
		}
		seen := judge(t, "the grammar built by combinators", h.String(), h, a, docs, true)
		if seen[0] && seen[1] {
			t.Nontrivial(h.String())
			t.Sample("%s", a.String())
		}
	})
	c.Run("values", c.N(60000), func(t *T) {
		// one value expression with constants of all kinds
		e := genAnyExpr(t.Rng, 'b')
		if t.P(50) {
			k := "iudsyb"[t.Intn(6)]
			op := t.Pick("eq", "ne", "lt", "le", "gt", "ge")
			if k == 's' || k == 'b' {
				op = t.Pick("eq", "ne")
				if k == 's' {
					op = t.Pick("eq", "ne", "contains", "hasPrefix", "hasSuffix", "eqFold")
				}
			}
			e = eFn('b', op, eVar(k), eConst(k, wideConst(t.Rng, k)))
			if t.P(50) {
				e.Args[0], e.Args[1] = e.Args[1], e.Args[0]
			}
		} else {
			widen(t.Rng, e)
		}
		e = constLists(t.Rng, e)
		t.Info("expression: %s", e)
		b := &combBuilder{Rng: t.Rng, shared: map[*P]*ast.Pattern{}, exprs: map[*E]*ast.Expr{}}
		p := combinator.Value(b.expr(e))
		m, err := newMem(combinator.G{"main": p}.Grammar())
		if err != nil {
			t.Fail("the value is refused: %v\nexpression: %s\nbuilt: %s", err, e, p.String())
		}
		saw := 0
		for _, v := range genLabels(t.Rng, e, 8) {
			want := e.outcomes(v)
			t.Info("expression: %s\nbuilt: %s\nlabel: %v", e, p.String(), v)
			ok, err := m.Validate(newTreeParser(Doc{leaf(v)}))
			got := outcomeOf(ok, err)
			if want&got == 0 {
				t.Fail("the value built as %s gives %s where it is %s\nexpression: %s\nlabel: %v", p.String(), outcomeName(got), outcomeName(want), e, v)
			}
			saw |= got
			t.Count("values_compared", 1)
		}
		if saw&3 == 3 {
			t.Nontrivial(e.String())
			t.Sample("%s", p.String())
		}
	})
}

func parseText(s string) (*ast.Grammar, error) {
	defer func() {}()
	g, err := relapseParse(s)
	if err == nil && g == nil {
		return nil, errors.New("no grammar")
	}
	return g, err
}
