package main

import (
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/types"
)

var typeKind = map[types.Type]byte{
	types.SINGLE_BOOL: 'b', types.SINGLE_INT: 'i', types.SINGLE_UINT: 'u', types.SINGLE_DOUBLE: 'd', types.SINGLE_STRING: 's', types.SINGLE_BYTES: 'y',
	types.LIST_BOOL: 'B', types.LIST_INT: 'I', types.LIST_UINT: 'U', types.LIST_DOUBLE: 'D', types.LIST_STRING: 'S', types.LIST_BYTES: 'Y',
}

func fromTerminal(t *ast.Terminal) *E {
	switch {
	case t.DoubleValue != nil:
		return eConst('d', *t.DoubleValue)
	case t.IntValue != nil:
		return eConst('i', *t.IntValue)
	case t.UintValue != nil:
		return eConst('u', *t.UintValue)
	case t.BoolValue != nil:
		return eConst('b', *t.BoolValue)
	case t.StringValue != nil:
		return eConst('s', *t.StringValue)
	case t.Variable != nil:
		return eVar(typeKind[t.Variable.GetType()])
	}
	return eConst('y', append([]byte{}, t.BytesValue...))
}

// fromExpr reads an expression as it is written: shorthands stay shorthands.
func fromExpr(e *ast.Expr) *E {
	switch {
	case e.Terminal != nil:
		return fromTerminal(e.Terminal)
	case e.List != nil:
		l := &E{Op: "list", Kind: typeKind[e.List.GetType()]}
		for _, x := range e.List.GetElems() {
			l.Args = append(l.Args, fromExpr(x))
		}
		return l
	case e.Function != nil:
		f := &E{Op: e.Function.GetName()}
		for _, x := range e.Function.GetParams() {
			f.Args = append(f.Args, fromExpr(x))
		}
		return f
	case e.BuiltIn != nil:
		return &E{Op: "short", C: e.BuiltIn.GetSymbol().GetValue(), Args: []*E{fromExpr(e.BuiltIn.GetExpr())}}
	}
	panic("fromExpr")
}

func fromName(n *ast.NameExpr) *N {
	switch {
	case n.AnyName != nil:
		return nAny()
	case n.AnyNameExcept != nil:
		return nExcept(fromName(n.AnyNameExcept.GetExcept()))
	case n.NameChoice != nil:
		// alternatives of one choice are read as a list
		var alts []*N
		for _, x := range spineName(n) {
			alts = append(alts, fromName(x))
		}
		out := nChoice(alts[0], alts[1])
		last := out
		for _, a := range alts[2:] {
			last.R = &N{Op: "choice", C: "tail", L: last.R, R: a}
			last = last.R
		}
		return out
	}
	t := n.Name
	e := fromTerminal(&ast.Terminal{DoubleValue: t.DoubleValue, IntValue: t.IntValue, UintValue: t.UintValue, BoolValue: t.BoolValue, StringValue: t.StringValue, BytesValue: t.BytesValue})
	return &N{Op: "lit", Kind: e.Kind, C: e.C}
}

// spineName lists the alternatives of a choice: nested choices without their
// own parentheses belong to it.
func spineName(n *ast.NameExpr) []*ast.NameExpr {
	c := n.NameChoice
	var flat func(x *ast.NameExpr) []*ast.NameExpr
	flat = func(x *ast.NameExpr) []*ast.NameExpr {
		if x.NameChoice != nil && x.NameChoice.OpenParen == nil {
			return append(flat(x.NameChoice.Left), flat(x.NameChoice.Right)...)
		}
		return []*ast.NameExpr{x}
	}
	return append(flat(c.Left), flat(c.Right)...)
}

// fromPattern reads a pattern as it is written.
func fromPattern(p *ast.Pattern) *P {
	nary := func(op string, l, r *ast.Pattern, parts func(*ast.Pattern) (*ast.Pattern, *ast.Pattern, bool)) *P {
		var flat func(x *ast.Pattern) []*P
		flat = func(x *ast.Pattern) []*P {
			if a, b, ok := parts(x); ok {
				return append(flat(a), flat(b)...)
			}
			return []*P{fromPattern(x)}
		}
		return pOp(op, append(flat(l), flat(r)...)...)
	}
	switch v := p.GetValue().(type) {
	case *ast.Empty:
		return pEmpty()
	case *ast.ZAny:
		return pAny()
	case *ast.TreeNode:
		n := pNode(fromName(v.Name), fromPattern(v.Pattern))
		if v.Colon == nil {
			n.Ref = "nocolon"
		}
		return n
	case *ast.LeafNode:
		leaf := pLeaf(fromExpr(v.Expr))
		if v.Expr.RightArrow != nil && leaf.E.Op == "short" {
			leaf.Ref = "arrow"
		}
		return leaf
	case *ast.Reference:
		return pRef(v.Name)
	case *ast.Not:
		return pOp("not", fromPattern(v.Pattern))
	case *ast.Contains:
		return pOp("contains", fromPattern(v.Pattern))
	case *ast.Optional:
		return pOp("opt", fromPattern(v.Pattern))
	case *ast.ZeroOrMore:
		return pOp("star", fromPattern(v.Pattern))
	case *ast.Concat:
		return nary("concat", v.LeftPattern, v.RightPattern, func(x *ast.Pattern) (*ast.Pattern, *ast.Pattern, bool) {
			if c := x.Concat; c != nil && c.OpenBracket == nil {
				return c.LeftPattern, c.RightPattern, true
			}
			return nil, nil, false
		})
	case *ast.Interleave:
		return nary("interleave", v.LeftPattern, v.RightPattern, func(x *ast.Pattern) (*ast.Pattern, *ast.Pattern, bool) {
			if c := x.Interleave; c != nil && c.OpenCurly == nil {
				return c.LeftPattern, c.RightPattern, true
			}
			return nil, nil, false
		})
	case *ast.Or:
		return nary("or", v.LeftPattern, v.RightPattern, func(x *ast.Pattern) (*ast.Pattern, *ast.Pattern, bool) {
			if c := x.Or; c != nil && c.OpenParen == nil {
				return c.LeftPattern, c.RightPattern, true
			}
			return nil, nil, false
		})
	case *ast.And:
		return nary("and", v.LeftPattern, v.RightPattern, func(x *ast.Pattern) (*ast.Pattern, *ast.Pattern, bool) {
			if c := x.And; c != nil && c.OpenParen == nil {
				return c.LeftPattern, c.RightPattern, true
			}
			return nil, nil, false
		})
	}
	panic("fromPattern")
}

func fromAST(a *ast.Grammar) *G {
	g := &G{Decls: map[string]*P{}}
	if a.TopPattern != nil {
		g.add("main", fromPattern(a.TopPattern))
	}
	for _, d := range a.PatternDecls {
		if d.Name == "main" {
			g.HashTop = true
		}
		g.add(d.Name, fromPattern(d.Pattern))
	}
	return g
}

// canon is the model written out in full; two models are the same when their
// canonical texts are.
func (g *G) canon() string {
	l := &layout{lit: canonLit}
	return l.grammar(g)
}

// desugar turns shorthands into the functions they stand for.
func (e *E) desugar() *E {
	c := &E{Kind: e.Kind, Op: e.Op, C: e.C}
	for _, a := range e.Args {
		c.Args = append(c.Args, a.desugar())
	}
	if e.Op != "short" {
		if c.Kind == 0 {
			c.Kind = c.kindOf()
		}
		return c
	}
	x := c.Args[0]
	op := ""
	for k, v := range builtinSym {
		if v == e.C.(string) {
			op = k
		}
	}
	switch op {
	case "type":
		return eFn('b', "type", x)
	case "regex":
		return eFn('b', "regex", x, eVar('s'))
	}
	k := x.kindOf()
	if op == "contains" || op == "hasPrefix" || op == "hasSuffix" {
		k = lower(k)
	}
	return eFn('b', op, eVar(k), x)
}

func (g *G) desugar() *G {
	g.walk(func(p *P) {
		if p.Op == "leaf" {
			p.E = p.E.desugar()
		}
	})
	return g
}
