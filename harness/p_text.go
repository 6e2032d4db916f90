package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/combinator"
	"github.com/katydid/katydid/relapse/interp"
	rparser "github.com/katydid/katydid/relapse/parser"
)

func init() {
	register("P07", &check{
		rule: "a case is one grammar text (or one constructed or rewritten grammar); it counts as non-trivial when it has at least four tokens, and distinct by its canonical text",
		assume: []string{
			"equality of grammars is the library's own Equal and, independently, equality of the models that the harness reads from the trees",
			"the printed text of a parsed grammar with canonical literals has to be that text",
		},
		run: runP07,
	})
	register("P08", &check{
		rule: "a case is one grammar text with spaces and comments at random positions; non-trivial when it holds a comment or a space that formatting has to change, distinct by its text",
		assume: []string{
			"layout is what remains of a text when tokens and comments are taken away; comments are compared after trimming",
		},
		run: runP08,
	})
}

// spaces removes the layout from a tree.
func stripSpace(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if v.Type() == reflect.TypeOf((*ast.Space)(nil)) {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		stripSpace(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				stripSpace(v.Field(i))
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			stripSpace(v.Index(i))
		}
	}
}

func withoutSpace(g *ast.Grammar) *ast.Grammar {
	c := g.Clone()
	stripSpace(reflect.ValueOf(c))
	return c
}

func randomLayout(r *Rng, canonical bool) *layout {
	l := &layout{r: r, lit: canonLit, extra: 20}
	switch r.Intn(5) {
	case 0:
	case 1:
		l.space = 15
	case 2:
		l.space, l.comment = 20, 30
	case 3:
		l.space, l.comment = 60, 50
	case 4:
		l.space = 95
	}
	if !canonical {
		l.names = true
		l.lit = func(k byte, v interface{}) string { return variedLit(r, k, v) }
	}
	return l
}

func runP07(c *Ctx) {
	text := func(t *T, g *G) {
		canonical := t.P(70)
		l := randomLayout(t.Rng, canonical)
		text := l.grammar(g)
		t.Info("grammar text:\n%s", text)
		a, err := rparser.ParseGrammar(text)
		if err != nil {
			t.Fail("a valid grammar text is refused: %v\n%s", err, text)
		}
		if got, want := fromAST(a).canon(), g.canon(); got != want {
			t.Fail("the text\n%s\nis parsed as\n%s\ninstead of\n%s", text, got, want)
		}
		printed := a.String()
		if canonical && printed != text {
			t.Fail("the text\n%q\nis printed as\n%q", text, printed)
		}
		if _, cs := streamOf(printed); strings.Join(cs, "\x00") != strings.Join(l.comments, "\x00") {
			t.Fail("the comments of\n%q\nare %q and printed as %q", text, l.comments, cs)
		}
		a2, err := rparser.ParseGrammar(printed)
		if err != nil {
			t.Fail("printed text does not parse: %v\ntext:\n%s\nprinted:\n%s", err, text, printed)
		}
		if !a.Equal(a2) {
			t.Fail("printing and parsing gives another grammar\ntext:\n%q\nprinted:\n%q\nagain:\n%q", text, printed, a2.String())
		}
		if got := fromAST(a2).canon(); got != g.canon() {
			t.Fail("printing\n%s\nand parsing gives\n%s", g.canon(), got)
		}
		if again := a2.String(); again != printed {
			t.Fail("printed\n%q\nthen\n%q", printed, again)
		}
		t.Count("tokens", l.tokens)
		t.Count("comments", len(l.comments))
		if l.tokens >= 4 {
			t.Nontrivial(text)
		}
		t.Sample("%s", text)
	}
	c.Run("text", c.N(120000), func(t *T) { text(t, genSyn(t.Rng)) })
	c.Run("large", c.N(1500), func(t *T) {
		g := genSyn(t.Rng)
		bigSyn(t.Rng, g, 3000, 3000)
		t.grow(t.Intn(3), 3000)
		text(t, g)
	})
	c.Run("constructed", c.N(60000), func(t *T) {
		g := genSyn(t.Rng)
		t.Info("model:\n%s", g.canon())
		a := construct(g)
		printed := a.String()
		a2, err := rparser.ParseGrammar(printed)
		if err != nil {
			t.Fail("the printed form of a constructed grammar does not parse: %v\nmodel:\n%s\nprinted:\n%s", err, g.canon(), printed)
		}
		g.walk(func(p *P) {
			p.Ref = strings.TrimPrefix(strings.TrimPrefix(p.Ref, "nocolon"), "arrow")
		})
		got := fromAST(a2)
		got.walk(func(p *P) {
			p.Ref = strings.TrimPrefix(strings.TrimPrefix(p.Ref, "nocolon"), "arrow")
		})
		// a grammar is made from a map, so the order of declarations is not kept
		if gs, ws := sortedCanon(got), sortedCanon(g); gs != ws {
			t.Fail("constructed\n%s\nprinted\n%s\nparsed\n%s", ws, printed, gs)
		}
		if s := a2.String(); s != printed {
			t.Fail("printed\n%q\nthen\n%q", printed, s)
		}
		t.Nontrivial(printed)
	})
	c.Run("rewritten", c.N(60000), func(t *T) {
		g, _ := genGrammar(t.Rng, genStyle(t.Rng), gramStyle{total: t.P(50)}, 6+t.Intn(24), 1)
		g.walk(func(p *P) {
			if p.Op == "leaf" && t.P(40) {
				p.E = p.E.clone()
				widen(t.Rng, p.E)
			}
			if p.Op == "node" && t.P(30) {
				p.Name = synName(t.Rng, 2)
			}
		})
		text := g.text(t.Rng)
		t.Info("grammar text:\n%s", text)
		a := mustParse(t, text)
		s := interp.NewSimplifier(a)
		if t.P(30) {
			s = s.OptimizeForRecord()
		}
		b := s.Grammar()
		printed := b.String()
		a2, err := rparser.ParseGrammar(printed)
		if err != nil {
			t.Fail("the printed form of a simplified grammar does not parse: %v\ntext:\n%s\nprinted:\n%s", err, text, printed)
		}
		if got, want := sortedCanon(fromAST(a2)), sortedCanon(fromAST(b)); got != want {
			t.Fail("simplified\n%s\nprinted\n%s\nparsed\n%s", want, printed, got)
		}
		if text != printed {
			t.Count("rewritten", 1)
		}
		t.Nontrivial(printed)
	})
	c.Run("formatted", c.N(30000), func(t *T) {
		g := genSyn(t.Rng)
		text := randomLayout(t.Rng, true).grammar(g)
		t.Info("grammar text:\n%s", text)
		a := mustParse(t, text)
		a.Format()
		printed := a.String()
		a2, err := rparser.ParseGrammar(printed)
		if err != nil {
			t.Fail("the printed form of a formatted grammar does not parse: %v\ntext:\n%s\nprinted:\n%s", err, text, printed)
		}
		if got := fromAST(a2).canon(); got != g.canon() {
			t.Fail("formatted\n%s\nparsed\n%s", printed, got)
		}
		t.Nontrivial(printed)
	})
	_ = combinator.None
}

func sortedCanon(g *G) string {
	var lines []string
	for _, n := range g.Order {
		l := &layout{lit: canonLit}
		l.tok("#", false)
		l.tok(n, false)
		l.tok("=", false)
		l.pat(g.Decls[n])
		lines = append(lines, l.b.String())
	}
	sortStrings(lines)
	return strings.Join(lines, "\n")
}

// construct builds the tree of a model with the constructors of the library.
func construct(g *G) *ast.Grammar {
	m := map[string]*ast.Pattern{}
	for n, p := range g.Decls {
		m[n] = constructPattern(p)
	}
	return ast.NewGrammar(m)
}

func constructPattern(p *P) *ast.Pattern {
	var ks []*ast.Pattern
	for _, k := range p.Kids {
		ks = append(ks, constructPattern(k))
	}
	switch p.Op {
	case "empty":
		return ast.NewEmpty()
	case "any":
		return ast.NewZAny()
	case "node":
		return ast.NewTreeNode(constructName(p.Name), ks[0])
	case "leaf":
		e := constructExpr(p.E)
		if p.E.Op != "short" && e.RightArrow == nil {
			e.RightArrow = &ast.Keyword{Value: "->"}
		}
		return ast.NewLeafNode(e)
	case "concat":
		return ast.NewConcat(ks...)
	case "or":
		return ast.NewOr(ks...)
	case "and":
		return ast.NewAnd(ks...)
	case "interleave":
		return ast.NewInterleave(ks...)
	case "star":
		return ast.NewZeroOrMore(ks[0])
	case "opt":
		return ast.NewOptional(ks[0])
	case "not":
		return ast.NewNot(ks[0])
	case "contains":
		return ast.NewContains(ks[0])
	case "ref":
		return ast.NewReference(p.Ref)
	}
	panic("construct " + p.Op)
}

func constructName(n *N) *ast.NameExpr {
	switch n.Op {
	case "any":
		return ast.NewAnyName()
	case "except":
		return ast.NewAnyNameExcept(constructName(n.L))
	case "choice":
		ns := []*ast.NameExpr{constructName(n.L)}
		for n.R.Op == "choice" && n.R.C == "tail" {
			n = n.R
			ns = append(ns, constructName(n.L))
		}
		return ast.NewNameChoice(append(ns, constructName(n.R))...)
	}
	switch n.Kind {
	case 's':
		return ast.NewStringName(n.C.(string))
	case 'i':
		return ast.NewIntName(n.C.(int64))
	case 'u':
		return ast.NewUintName(n.C.(uint64))
	case 'd':
		return ast.NewDoubleName(n.C.(float64))
	case 'b':
		return ast.NewBoolName(n.C.(bool))
	}
	return ast.NewBytesName(nilBytes(n.C.([]byte)))
}

func constructExpr(e *E) *ast.Expr {
	var as []*ast.Expr
	for _, a := range e.Args {
		as = append(as, constructExpr(a))
	}
	switch e.Op {
	case "const":
		switch e.Kind {
		case 's':
			return ast.NewStringConst(e.C.(string))
		case 'i':
			return ast.NewIntConst(e.C.(int64))
		case 'u':
			return ast.NewUintConst(e.C.(uint64))
		case 'd':
			return ast.NewDoubleConst(e.C.(float64))
		case 'b':
			if e.C.(bool) {
				return ast.NewTrue()
			}
			return ast.NewFalse()
		}
		return ast.NewBytesConst(nilBytes(e.C.([]byte)))
	case "var":
		switch e.Kind {
		case 's':
			return ast.NewStringVar()
		case 'i':
			return ast.NewIntVar()
		case 'u':
			return ast.NewUintVar()
		case 'd':
			return ast.NewDoubleVar()
		case 'b':
			return ast.NewBoolVar()
		}
		return ast.NewBytesVar()
	case "list":
		switch e.Kind {
		case 'S':
			return ast.NewStringList(as...)
		case 'I':
			return ast.NewIntList(as...)
		case 'U':
			return ast.NewUintList(as...)
		case 'D':
			return ast.NewDoubleList(as...)
		case 'B':
			return ast.NewBoolList(as...)
		}
		return ast.NewBytesList(as...)
	case "short":
		x := as[0]
		switch e.C.(string) {
		case "==":
			return ast.NewEqual(x)
		case "!=":
			return ast.NewNotEqual(x)
		case "<":
			return ast.NewLessThan(x)
		case ">":
			return ast.NewGreaterThan(x)
		case "<=":
			return ast.NewLessEqual(x)
		case ">=":
			return ast.NewGreaterEqual(x)
		case "~=":
			return ast.NewRegex(x)
		case "*=":
			return ast.NewHasElem(x)
		case "^=":
			return ast.NewHasPrefix(x)
		case "$=":
			return ast.NewHasSuffix(x)
		case "::":
			return ast.NewType(x)
		}
	}
	return ast.NewNestedFunction(e.Op, as...)
}

func runP08(c *Ctx) {
	text := func(t *T, g *G) {
		l := randomLayout(t.Rng, true)
		text := l.grammar(g)
		t.Info("grammar text:\n%s", text)
		a := mustParse(t, text)
		a.Format()
		once := a.String()
		stream, comments := streamOf(once)
		if strings.Join(comments, "\x00") != strings.Join(l.comments, "\x00") {
			t.Fail("formatting changes the comments\ntext:\n%q\nformatted:\n%q\ncomments %q\nbecome   %q", text, once, l.comments, comments)
		}
		was, _ := streamOf(text)
		if stream != was {
			t.Fail("formatting changes more than the layout\ntext:\n%s\nformatted:\n%s\ntokens %q\nbecome %q", text, once, was, stream)
		}
		b, err := rparser.ParseGrammar(once)
		if err != nil {
			t.Fail("formatted text does not parse: %v\ntext:\n%s\nformatted:\n%s", err, text, once)
		}
		if !withoutSpace(b).Equal(withoutSpace(mustParse(t, text))) {
			t.Fail("formatting changes the grammar\ntext:\n%s\nformatted:\n%s", text, once)
		}
		if got := fromAST(b).canon(); got != g.canon() {
			t.Fail("the text\n%s\nis formatted as\n%s\nwhich means\n%s", text, once, got)
		}
		a.Format()
		if twice := a.String(); twice != once {
			t.Fail("formatting the same grammar again changes it\ntext:\n%q\nfirst:\n%q\nthen:\n%q", text, once, twice)
		}
		b.Format()
		if twice := b.String(); twice != once {
			t.Fail("formatting formatted text changes it\ntext:\n%q\nfirst:\n%q\nthen:\n%q", text, once, twice)
		}
		t.Count("comments", len(l.comments))
		if once != text {
			t.Count("layout_changed", 1)
			t.Nontrivial(text)
		}
		t.Sample("%s", text)
	}
	c.Run("text", c.N(120000), func(t *T) { text(t, genSyn(t.Rng)) })
	c.Run("large", c.N(1500), func(t *T) {
		g := genSyn(t.Rng)
		bigSyn(t.Rng, g, 3000, 3000)
		t.grow(t.Intn(3), 3000)
		text(t, g)
	})
	c.Run("layouts", c.N(30000), func(t *T) {
		// Texts that differ in their spaces only are formatted the same, except
		// for where a space is, since formatting never adds a first space.
		g := genSyn(t.Rng)
		extra := 100 * t.Intn(2)
		mk := func(seed uint64) string {
			l := &layout{r: newRng(seed, "l"), lit: canonLit, space: 100, extra: extra}
			return l.grammar(g)
		}
		t1, t2 := mk(t.U64()), mk(t.U64())
		t.Info("grammar texts:\n%q\n%q", t1, t2)
		a, b := mustParse(t, t1), mustParse(t, t2)
		alone := a.Clone().TopPattern
		a.Format()
		if alone != nil {
			alone.Format()
			if got, want := alone.String(), a.TopPattern.String(); got != want {
				t.Fail("formatting the pattern of the grammar\n%q\non its own gives\n%q, with the grammar it is\n%q", t1, got, want)
			}
		}
		b.Format()
		sa, sb := a.String(), b.String()
		for _, x := range []*ast.Grammar{a, b} {
			spacesOf(reflect.ValueOf(x), func(s *ast.Space) {
				if s == nil {
					return
				}
				if j := strings.Join(s.Space, ""); j != "" && j != " " && j != "\n" {
					t.Fail("formatting leaves the space %q\ngrammar texts:\n%q\n%q\nas\n%q\n%q", j, t1, t2, sa, sb)
				}
			})
		}
		norm := func(s string) string { return strings.Join(strings.Fields(s), " ") }
		if norm(sa) != norm(sb) {
			t.Fail("two layouts of one grammar are formatted differently\n%q\n%q\nas\n%q\n%q", t1, t2, sa, sb)
		}
		t.Nontrivial(t1)
	})
	c.Run("comments", c.N(20000), func(t *T) {
		// The comments can be asked for where they are.
		g := genSyn(t.Rng)
		l := randomLayout(t.Rng, true)
		text := l.grammar(g)
		t.Info("grammar text:\n%q", text)
		a := mustParse(t, text)
		if t.P(30) {
			a.Format()
		}
		var found []string
		spacesOf(reflect.ValueOf(a), func(s *ast.Space) {
			if s == nil {
				if s.HasComment() || len(s.GetComments()) > 0 || s.HasAttachedComment() {
					t.Fail("no space at all has a comment")
				}
				return
			}
			joined := strings.Join(s.Space, "")
			_, want := streamOf(joined)
			got := s.GetComments()
			if len(got) != len(want) || s.HasComment() != (len(want) > 0) {
				t.Fail("the space %q has the comments %q (has: %v), reported are %q", joined, want, s.HasComment(), got)
			}
			for i := range got {
				if strings.TrimSpace(string(got[i])) != want[i] {
					t.Fail("comment %d of the space %q is %q, reported is %q", i, joined, want[i], got[i])
				}
				inner := strings.TrimSuffix(strings.TrimPrefix(string(got[i]), "//"), "\n")
				if strings.HasPrefix(string(got[i]), "/*") {
					inner = strings.TrimSuffix(strings.TrimPrefix(string(got[i]), "/*"), "*/")
				}
				if c := got[i].GetContent(); c != inner {
					t.Fail("the content of the comment %q is %q", got[i], c)
				}
				found = append(found, want[i])
				t.Count("comments_asked_for", 1)
			}
			at := s.GetAttachedComment()
			if s.HasAttachedComment() != (at != "") {
				t.Fail("the space %q has the attached comment %q, HasAttachedComment is %v", joined, at, s.HasAttachedComment())
			}
			switch {
			case len(got) == 0:
				if at != "" {
					t.Fail("the space %q has the attached comment %q", joined, at)
				}
			case at != "" && at != got[len(got)-1]:
				t.Fail("the last comment of the space %q is %q, attached is %q", joined, got[len(got)-1], at)
			default:
				last := got[len(got)-1]
				rest := joined[strings.LastIndex(joined, string(last))+len(last):]
				if at == "" && !strings.Contains(rest, "\n") {
					t.Fail("the comment %q at the end of the space %q is not attached", last, joined)
				}
				if strings.Count(rest, "\n") >= 1 && strings.HasPrefix(string(last), "//") && at != "" {
					t.Fail("the comment %q of the space %q is followed by a blank line, but attached", last, joined)
				}
				if at != "" {
					t.Count("attached_comments", 1)
				}
			}
		})
		want := append([]string{}, l.comments...)
		sort.Strings(want)
		sort.Strings(found)
		if strings.Join(found, "\x00") != strings.Join(want, "\x00") {
			t.Fail("the comments of\n%q\nare %q, found are %q", text, want, found)
		}
		if len(want) > 1 {
			t.Nontrivial("comments", text)
		}
	})
	_ = fmt.Sprint
}

// spacesOf calls f for all the spaces of a tree.
func spacesOf(v reflect.Value, f func(s *ast.Space)) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.Type() == reflect.TypeOf((*ast.Space)(nil)) {
			f(v.Interface().(*ast.Space))
			return
		}
		if !v.IsNil() {
			spacesOf(v.Elem(), f)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanInterface() {
				spacesOf(v.Field(i), f)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			spacesOf(v.Index(i), f)
		}
	}
}

// nilBytes makes empty bytes nil, which must mean the same.
func nilBytes(y []byte) []byte {
	if len(y) == 0 {
		return nil
	}
	return y
}
