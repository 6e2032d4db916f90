package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/funcs"
	"github.com/katydid/katydid/relapse/mem"
)

func init() {
	register("P33", &check{
		rule: "distinct grammars whose verdict on some document changed with the context",
		run:  runP33,
	})
	funcs.Register("ctxint", func() *ctxInt { return &ctxInt{} })
	funcs.Register("ctxstr", func() *ctxStr { return &ctxStr{} })
	funcs.Register("ctxbool", func() *ctxBool { return &ctxBool{} })
	funcs.Register("ctxflip", func(b funcs.Bool) *ctxFlip { return &ctxFlip{B: b} })
	funcs.Register("ctxstrs", func() *ctxStrs { return &ctxStrs{} })
}

// ctxVal is what the harness puts into a context.
type ctxVal struct {
	I int64
	S string
	F bool
}

func (c *ctxVal) String() string { return fmt.Sprintf("{%d %q %v}", c.I, c.S, c.F) }

var errNoContext = errors.New("harness: the function was evaluated without a context")

// probe is the part that the probing functions share.  A probe that is
// evaluated before any context reached it panics, as a function of a user would.
type probe struct{ ctx *funcs.Context }

func (p *probe) SetContext(c *funcs.Context) { p.ctx = c }
func (p *probe) val() (*ctxVal, error) {
	if p.ctx == nil {
		panic(errNoContext)
	}
	return p.ctx.Value.(*ctxVal), nil
}

func cmpProbe(name string, hash uint64, that funcs.Comparable) int {
	if hash != that.Hash() {
		if hash < that.Hash() {
			return -1
		}
		return 1
	}
	return strings.Compare(name, that.String())
}

type ctxInt struct{ probe }

func (c *ctxInt) Eval() (int64, error) {
	v, err := c.val()
	if err != nil {
		return 0, err
	}
	return v.I, nil
}
func (c *ctxInt) String() string                    { return "ctxint()" }
func (c *ctxInt) Hash() uint64                      { return 1701 }
func (c *ctxInt) HasVariable() bool                 { return true }
func (c *ctxInt) Compare(that funcs.Comparable) int { return cmpProbe(c.String(), c.Hash(), that) }

type ctxStr struct{ probe }

func (c *ctxStr) Eval() (string, error) {
	v, err := c.val()
	if err != nil {
		return "", err
	}
	return v.S, nil
}
func (c *ctxStr) String() string                    { return "ctxstr()" }
func (c *ctxStr) Hash() uint64                      { return 1702 }
func (c *ctxStr) HasVariable() bool                 { return true }
func (c *ctxStr) Compare(that funcs.Comparable) int { return cmpProbe(c.String(), c.Hash(), that) }

type ctxStrs struct{ probe }

func (c *ctxStrs) Eval() ([]string, error) {
	v, err := c.val()
	if err != nil {
		return nil, err
	}
	return []string{"zz", v.S}, nil
}
func (c *ctxStrs) String() string                    { return "ctxstrs()" }
func (c *ctxStrs) Hash() uint64                      { return 1703 }
func (c *ctxStrs) HasVariable() bool                 { return true }
func (c *ctxStrs) Compare(that funcs.Comparable) int { return cmpProbe(c.String(), c.Hash(), that) }

type ctxBool struct{ probe }

func (c *ctxBool) Eval() (bool, error) {
	v, err := c.val()
	if err != nil {
		return false, err
	}
	return v.F, nil
}
func (c *ctxBool) String() string                    { return "ctxbool()" }
func (c *ctxBool) Hash() uint64                      { return 1704 }
func (c *ctxBool) HasVariable() bool                 { return true }
func (c *ctxBool) Compare(that funcs.Comparable) int { return cmpProbe(c.String(), c.Hash(), that) }

type ctxFlip struct {
	B funcs.Bool
	probe
}

func (c *ctxFlip) Eval() (bool, error) {
	b, err := c.B.Eval()
	if err != nil {
		return false, err
	}
	v, err := c.val()
	if err != nil {
		return false, err
	}
	return b != v.F, nil
}
func (c *ctxFlip) String() string    { return "ctxflip(" + c.B.String() + ")" }
func (c *ctxFlip) Hash() uint64      { return 31*1705 + c.B.Hash() }
func (c *ctxFlip) HasVariable() bool { return true }
func (c *ctxFlip) Compare(that funcs.Comparable) int {
	if o, ok := that.(*ctxFlip); ok {
		return c.B.Compare(o.B)
	}
	return cmpProbe(c.String(), c.Hash(), that)
}

// withContext is e with the probes replaced by what they stand for.
func (e *E) withContext(v *ctxVal) *E {
	switch e.Op {
	case "ctxint":
		return eConst('i', v.I)
	case "ctxstr":
		return eConst('s', v.S)
	case "ctxbool":
		return eConst('b', v.F)
	case "ctxstrs":
		return eList('S', eConst('s', "zz"), eConst('s', v.S))
	case "ctxflip":
		b := e.Args[0].withContext(v)
		if v.F {
			return eFn('b', "not", b)
		}
		return b
	}
	if len(e.Args) == 0 {
		return e
	}
	o := *e
	o.Args = make([]*E, len(e.Args))
	for i, a := range e.Args {
		o.Args[i] = a.withContext(v)
	}
	return &o
}

func (p *P) mapExprs(f func(*E) *E) *P {
	o := *p
	if p.Op == "leaf" {
		o.E = f(p.E)
	}
	o.Kids = make([]*P, len(p.Kids))
	for i, k := range p.Kids {
		o.Kids[i] = k.mapExprs(f)
	}
	return &o
}

func (g *G) mapExprs(f func(*E) *E) *G {
	o := &G{Decls: map[string]*P{}, Order: g.Order, HashTop: g.HashTop}
	for _, n := range g.Order {
		o.Decls[n] = g.Decls[n].mapExprs(f)
	}
	return o
}

// genProbe is an expression whose value depends on the context.
func genProbe(r *Rng, old *E) *E {
	ci := func() *E {
		if r.P(40) {
			return eConst('i', vocabInt[r.Intn(4)])
		}
		return eFn('i', "ctxint")
	}
	cs := func() *E {
		if r.P(40) {
			return eConst('s', vocabStr[r.Intn(5)])
		}
		return eFn('s', "ctxstr")
	}
	cb := func() *E {
		switch r.Intn(4) {
		case 0:
			return eConst('b', r.P(50))
		case 1:
			return old
		}
		return eFn('b', "ctxbool")
	}
	switch r.Intn(16) {
	case 10: // more than one in a function of a user
		return eFn('b', "reg", cb(), ci(), cs())
	case 11:
		return eFn('b', "eq", eVar('i'), eFn('i', "regid", ci(), ci(), ci()))
	case 12:
		return eFn('b', "eq", eVar('s'), eFn('s', "regif", cb(), cs(), cs()))
	case 13: // or in a list
		n := 1 + r.Intn(4)
		es := make([]*E, n)
		for i := range es {
			es[i] = cs()
		}
		return eFn('b', "eq", eFn('s', "elem", eList('S', es...), eConst('i', int64(r.Intn(n)))), eVar('s'))
	case 14:
		n := 1 + r.Intn(4)
		es := make([]*E, n)
		for i := range es {
			es[i] = ci()
		}
		return eFn('b', "reg", eList('I', es...))
	case 15:
		return eFn('b', "rega", cb(), ci(), cs())
	case 0:
		return eFn('b', []string{"eq", "ge", "lt"}[r.Intn(3)], eVar('i'), eFn('i', "ctxint"))
	case 1:
		return eFn('b', "eq", eVar('s'), eFn('s', "ctxstr"))
	case 2:
		return eFn('b', "eq", eFn('s', "ctxstr"), eVar('s'))
	case 3:
		return eFn('b', "ctxbool")
	case 4:
		return eFn('b', "ctxflip", old)
	case 5:
		return eFn('b', "or", old, eFn('b', "eq", eVar('i'), eFn('i', "ctxint")))
	case 6:
		return eFn('b', "and", eFn('b', "ctxbool"), old)
	case 7:
		return eFn('b', "ctxflip", eFn('b', "eq", eVar('s'), eFn('s', "ctxstr")))
	case 8:
		return eFn('b', "eq", eFn('s', "elem", eFn('S', "ctxstrs"), eConst('i', int64(1))), eVar('s'))
	}
	return eFn('b', "not", eFn('b', "eq", eVar('i'), eFn('i', "ctxint")))
}

func docValues(d Doc) (is []int64, ss []string) {
	for _, n := range d {
		if n.V.HasI {
			is = append(is, n.V.I)
		}
		if n.V.HasS {
			ss = append(ss, n.V.S)
		}
		i2, s2 := docValues(n.Kids)
		is, ss = append(is, i2...), append(ss, s2...)
	}
	return
}

func runP33(c *Ctx) {
	body := func(maxSize, ndocs, steps int) func(t *T) {
		return func(t *T) {
			st := genStyle(t.Rng)
			record := t.P(25)
			if record {
				st.dups = false
			}
			g0, docs := genGrammar(t.Rng, st, gramStyle{total: true}, maxSize, ndocs)
			probes := 0
			g := g0.mapExprs(func(e *E) *E {
				if !t.P(60) {
					return e
				}
				probes++
				return genProbe(t.Rng, e)
			})
			if probes == 0 {
				return
			}
			text := g.text(t.Rng)
			t.Info("grammar: %s", text)
			a := mustParse(t, text)
			is, ss := []int64{0, 7}, []string{"", "a"}
			for _, d := range docs {
				i, s := docValues(d)
				is, ss = append(is, i...), append(ss, s...)
			}
			newVal := func() *ctxVal {
				return &ctxVal{is[t.Intn(len(is))], ss[t.Intn(len(ss))], t.P(50)}
			}
			type user struct {
				m    *mem.Mem
				ctx  *funcs.Context
				uses int
			}
			newUser := func() *user {
				m, err := newMemOf(a, record)
				if err != nil {
					t.Fail("grammar is refused: %v\ngrammar: %s", err, text)
				}
				return &user{m: m}
			}
			users := []*user{newUser(), newUser(), newUser()}
			hist := ""
			verdicts := map[int][2]bool{}
			changed := false
			for k := 0; k < steps; k++ {
				w := t.Intn(len(users))
				u := users[w]
				switch {
				case u.ctx == nil || t.P(12):
					u.ctx = &funcs.Context{Value: newVal()}
					u.m.SetContext(u.ctx)
					hist += fmt.Sprintf(" %d:set%v", w, u.ctx.Value)
					t.Count("contexts_set", 1)
				case t.P(30):
					u.ctx.Value = newVal()
					hist += fmt.Sprintf(" %d:change%v", w, u.ctx.Value)
					t.Count("contexts_changed", 1)
				}
				di := t.Intn(len(docs))
				d := docs[di]
				hist += fmt.Sprintf(" %d:doc%d", w, di)
				model := g.mapExprs(func(e *E) *E { return e.withContext(u.ctx.Value.(*ctxVal)) })
				want, certain, err := refVerdict(model, d)
				if err != nil {
					t.Count("too_big", 1)
					continue
				}
				t.Info("grammar: %s\ndocuments: %v\nhistory:%s", text, docs, hist)
				got, _ := run(memV{u.m}, d)
				if !certain {
					t.Count("inconclusive_expression_errors", 1)
					continue
				}
				if got.err != nil || got.ok != want {
					t.Fail("verdict %v, but with the context %v the grammar means %v\ngrammar: %s\ndocument: %v\ndocuments: %v\nhistory:%s", got, u.ctx.Value, want, text, d, docs, hist)
				}
				t.Count("verdicts_compared", 1)
				s := verdicts[di]
				if want {
					s[1] = true
				} else {
					s[0] = true
				}
				verdicts[di] = s
				changed = changed || s[0] && s[1]
			}
			if changed {
				t.Nontrivial(text)
				t.Sample("%s history%s", text, hist)
			}
		}
	}
	c.Run("short", c.N(12000), body(16, 5, 24))
	c.Run("long", c.N(600), body(20, 20, 200))
}

func newMemOf(a *ast.Grammar, record bool) (*mem.Mem, error) {
	if record {
		return mem.NewRecord(a)
	}
	return mem.New(a)
}
