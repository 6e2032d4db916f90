package main

import (
	"fmt"

	"github.com/katydid/katydid/parser"
	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/auto"
	"github.com/katydid/katydid/relapse/intern"
	"github.com/katydid/katydid/relapse/interp"
	"github.com/katydid/katydid/relapse/mem"
)

type validator interface {
	Validate(p parser.Interface) (bool, error)
}

type fnValidator func(p parser.Interface) (bool, error)

func (f fnValidator) Validate(p parser.Interface) (bool, error) { return f(p) }

type memV struct{ m *mem.Mem }

func (v memV) Validate(p parser.Interface) (bool, error) { return relapse.Validate(v.m, p) }

func mustParse(t *T, text string) *ast.Grammar {
	g, err := relapse.Parse(text)
	if err != nil {
		t.Fail("grammar does not parse: %v\ngrammar: %s", err, text)
	}
	return g
}

func newMem(g *ast.Grammar) (validator, error) {
	m, err := relapse.Prepare(g)
	if err != nil {
		return nil, err
	}
	return memV{m}, nil
}

func newMemRecord(g *ast.Grammar) (validator, error) {
	m, err := mem.NewRecord(g)
	if err != nil {
		return nil, err
	}
	return memV{m}, nil
}

func newAuto(g *ast.Grammar) (validator, error) {
	a, err := auto.Compile(g)
	if err != nil {
		return nil, err
	}
	return fnValidator(a.Validate), nil
}

func newAutoRecord(g *ast.Grammar) (validator, error) {
	a, err := auto.CompileRecord(g)
	if err != nil {
		return nil, err
	}
	return fnValidator(a.Validate), nil
}

func internV(g *ast.Grammar, record bool) validator {
	return fnValidator(func(p parser.Interface) (bool, error) { return intern.Interpret(g, record, p) })
}

func interpV(g *ast.Grammar) validator {
	return fnValidator(func(p parser.Interface) (bool, error) { return interp.Interpret(g, p) })
}

type verdict struct {
	ok  bool
	err error
}

func (v verdict) String() string {
	if v.err != nil {
		return fmt.Sprintf("error(%v)", v.err)
	}
	return fmt.Sprint(v.ok)
}

func run(v validator, d Doc) (verdict, *TreeParser) {
	p := newTreeParser(d)
	ok, err := v.Validate(p)
	return verdict{ok, err}, p
}

func init() { auto.VerifBudget, auto.VerifStateSize, auto.VerifCalls = 3000, 600, 12 }

func relapseParse(s string) (*ast.Grammar, error) { return relapse.Parse(s) }
