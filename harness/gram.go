package main

import (
	"fmt"
	"sort"
	"strings"
)

// N is a name expression.
type N struct {
	Op   string // "any", "lit", "except", "choice"
	Kind byte   // of a literal
	C    interface{}
	L, R *N
}

func nStr(s string) *N   { return &N{Op: "lit", Kind: 's', C: s} }
func nAny() *N           { return &N{Op: "any"} }
func nExcept(n *N) *N    { return &N{Op: "except", L: n} }
func nChoice(a, b *N) *N { return &N{Op: "choice", L: a, R: b} }
func nInt(i int64) *N    { return &N{Op: "lit", Kind: 'i', C: i} }

func isID(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9' {
			continue
		}
		return false
	}
	return s != "_" && s != "true" && s != "false"
}

func (n *N) text(r *Rng) string {
	switch n.Op {
	case "any":
		return "_"
	case "lit":
		if n.Kind == 's' && isID(n.C.(string)) && (r == nil || !r.P(20)) {
			return n.C.(string)
		}
		return renderConst(r, n.Kind, n.C)
	case "except":
		return "!(" + n.L.text(r) + ")"
	case "choice":
		l, rr := n.L.text(r), n.R.text(r)
		return "(" + l + "|" + rr + ")"
	}
	panic("N.text")
}

func (n *N) match(v Val) bool {
	switch n.Op {
	case "any":
		return true
	case "lit":
		e := eFn('b', "eq", eVar(n.Kind), eConst(n.Kind, n.C))
		b, _ := e.evalBool(v, &evalCtx{})
		return b
	case "except":
		return !n.L.match(v)
	case "choice":
		return n.L.match(v) || n.R.match(v)
	}
	panic("N.match")
}

// P is a pattern.
type P struct {
	Op   string // empty any node leaf concat or and star opt not contains interleave ref
	Name *N
	E    *E
	Kids []*P
	Ref  string
	id   int
}

func pEmpty() *P                { return &P{Op: "empty"} }
func pAny() *P                  { return &P{Op: "any"} }
func pNode(n *N, p *P) *P       { return &P{Op: "node", Name: n, Kids: []*P{p}} }
func pLeaf(e *E) *P             { return &P{Op: "leaf", E: e} }
func pOp(op string, k ...*P) *P { return &P{Op: op, Kids: k} }
func pRef(name string) *P       { return &P{Op: "ref", Ref: name} }
func pNone() *P                 { return pOp("not", pAny()) }

// G is a grammar: declaration names map to patterns, "main" is the start.
type G struct {
	Decls   map[string]*P
	Order   []string
	HashTop bool // render the start as a #main declaration
}

func newG(main *P) *G { return &G{Decls: map[string]*P{"main": main}, Order: []string{"main"}} }

func (g *G) add(name string, p *P) {
	g.Decls[name] = p
	g.Order = append(g.Order, name)
}

func sp(r *Rng) string {
	if r == nil {
		return ""
	}
	switch r.Intn(12) {
	case 0:
		return " "
	case 1:
		return "\n"
	case 2:
		return "\t "
	}
	return ""
}

func (p *P) text(r *Rng) string {
	switch p.Op {
	case "empty":
		return sp(r) + "<empty>"
	case "any":
		return sp(r) + "*"
	case "node":
		c := p.Kids[0]
		name := sp(r) + p.Name.text(r)
		if r != nil && r.P(40) {
			switch c.Op {
			case "leaf":
				return name + " " + c.E.leafText(r)
			case "contains", "concat", "interleave":
				return name + c.text(r)
			}
		}
		body := c.text(r)
		if strings.HasPrefix(body, ":") {
			body = " " + body
		}
		return name + ":" + body
	case "leaf":
		return sp(r) + p.E.leafText(r)
	case "concat", "or", "and", "interleave":
		open, sep, cl := "[", ",", "]"
		switch p.Op {
		case "or":
			open, sep, cl = "(", "|", ")"
		case "and":
			open, sep, cl = "(", "&", ")"
		case "interleave":
			open, sep, cl = "{", ";", "}"
		}
		ss := make([]string, len(p.Kids))
		for i, k := range p.Kids {
			ss[i] = k.text(r)
		}
		extra := ""
		if r != nil && (p.Op == "concat" || p.Op == "interleave") && r.P(20) {
			extra = sep
		}
		return sp(r) + open + strings.Join(ss, sp(r)+sep) + extra + sp(r) + cl
	case "star":
		return sp(r) + "(" + p.Kids[0].text(r) + ")*"
	case "opt":
		return sp(r) + "(" + p.Kids[0].text(r) + ")?"
	case "not":
		return sp(r) + "!(" + p.Kids[0].text(r) + ")"
	case "contains":
		return sp(r) + "." + p.Kids[0].text(r)
	case "ref":
		return sp(r) + "@" + p.Ref
	}
	panic("P.text " + p.Op)
}

func (p *P) String() string { return p.text(nil) }

func (g *G) text(r *Rng) string {
	var b strings.Builder
	if !g.HashTop {
		b.WriteString(g.Decls["main"].text(r))
	}
	for _, name := range g.Order {
		if name == "main" && !g.HashTop {
			continue
		}
		pad := ""
		if r != nil && r.P(50) {
			pad = " "
		}
		body := g.Decls[name].text(r)
		if strings.HasPrefix(body, "=") {
			body = " " + body
		}
		b.WriteString("\n#" + name + pad + "=" + body)
	}
	return b.String()
}

func (g *G) String() string { return g.text(nil) }

func (p *P) walk(f func(*P)) {
	f(p)
	for _, k := range p.Kids {
		k.walk(f)
	}
}

func (g *G) walk(f func(*P)) {
	for _, n := range g.Order {
		g.Decls[n].walk(f)
	}
}

func (g *G) size() int {
	n := 0
	g.walk(func(*P) { n++ })
	return n
}

func (g *G) ops() string {
	m := map[string]bool{}
	g.walk(func(p *P) { m[p.Op] = true })
	var ss []string
	for k := range m {
		ss = append(ss, k)
	}
	sort.Strings(ss)
	return strings.Join(ss, ",")
}

// refDependents returns whether p reaches a reference without passing a node.
func (p *P) unguardedRefs(out map[string]bool) {
	switch p.Op {
	case "ref":
		out[p.Ref] = true
	case "node":
		return
	}
	for _, k := range p.Kids {
		k.unguardedRefs(out)
	}
}

// immediateRecursion: some declaration reaches itself without a node between.
func (g *G) immediateRecursion() bool {
	reach := map[string]map[string]bool{}
	for n, p := range g.Decls {
		m := map[string]bool{}
		p.unguardedRefs(m)
		reach[n] = m
	}
	for changed := true; changed; {
		changed = false
		for _, m := range reach {
			for r := range m {
				for r2 := range reach[r] {
					if !m[r2] {
						m[r2] = true
						changed = true
					}
				}
			}
		}
	}
	for n, m := range reach {
		if m[n] {
			return true
		}
	}
	return false
}

// ------------------------------------------------------------ reference matcher

// matcher decides a document against a grammar from the denotational meaning of
// the patterns: sets of sequences of trees.  It is deliberately naive.
type matcher struct {
	g        *G
	memo     map[mkey]int8
	errAs    bool // value of a leaf expression that raises an error
	fuzzy    bool // some leaf expression raised an error on some label
	nids     int
	steps    int
	maxSteps int
}

type mkey struct {
	p    *P
	list int
	mask uint32
}

type list struct {
	id    int
	nodes []*Node
	lists []*list
}

func (m *matcher) build(d []*Node) *list {
	m.nids++
	l := &list{id: m.nids, nodes: d}
	for _, n := range d {
		l.lists = append(l.lists, m.build(n.Kids))
	}
	return l
}

var errTooBig = fmt.Errorf("harness: reference matcher budget exceeded")

func bits(mask uint32) []int {
	var out []int
	for i := 0; mask != 0; i, mask = i+1, mask>>1 {
		if mask&1 != 0 {
			out = append(out, i)
		}
	}
	return out
}

func (m *matcher) match(p *P, l *list, mask uint32) bool {
	m.steps++
	if m.steps > m.maxSteps {
		panic(errTooBig)
	}
	switch p.Op {
	case "empty":
		return mask == 0
	case "any":
		return true
	case "ref":
		return m.match(m.g.Decls[p.Ref], l, mask)
	}
	k := mkey{p, l.id, mask}
	if v, ok := m.memo[k]; ok {
		return v == 1
	}
	res := m.match1(p, l, mask)
	if res {
		m.memo[k] = 1
	} else {
		m.memo[k] = 0
	}
	return res
}

func full(n int) uint32 { return uint32(1)<<uint(n) - 1 }

func (m *matcher) match1(p *P, l *list, mask uint32) bool {
	switch p.Op {
	case "node":
		if mask == 0 || mask&(mask-1) != 0 {
			return false
		}
		i := bits(mask)[0]
		n := l.nodes[i]
		return p.Name.match(n.V) && m.match(p.Kids[0], l.lists[i], full(len(n.Kids)))
	case "leaf":
		if mask == 0 || mask&(mask-1) != 0 {
			return false
		}
		i := bits(mask)[0]
		n := l.nodes[i]
		if len(n.Kids) != 0 {
			return false
		}
		b, err := p.E.evalBool(n.V, &evalCtx{})
		if err != nil {
			return m.errAs
		}
		return b
	case "concat":
		return m.seq(p.Kids, l, mask)
	case "contains":
		bs := bits(mask)
		for i := 0; i <= len(bs); i++ {
			sub := uint32(0)
			if m.match(p.Kids[0], l, 0) {
				return true
			}
			for j := i; j < len(bs); j++ {
				sub |= 1 << uint(bs[j])
				if m.match(p.Kids[0], l, sub) {
					return true
				}
			}
		}
		return false
	case "or":
		for _, k := range p.Kids {
			if m.match(k, l, mask) {
				return true
			}
		}
		return false
	case "and":
		for _, k := range p.Kids {
			if !m.match(k, l, mask) {
				return false
			}
		}
		return true
	case "not":
		return !m.match(p.Kids[0], l, mask)
	case "opt":
		return mask == 0 || m.match(p.Kids[0], l, mask)
	case "star":
		if mask == 0 {
			return true
		}
		bs := bits(mask)
		sub := uint32(0)
		for j := 0; j < len(bs); j++ {
			sub |= 1 << uint(bs[j])
			if m.match(p.Kids[0], l, sub) && m.match(p, l, mask&^sub) {
				return true
			}
		}
		return false
	case "interleave":
		return m.shuffle(p.Kids, l, mask)
	}
	panic("match " + p.Op)
}

func (m *matcher) seq(ps []*P, l *list, mask uint32) bool {
	if len(ps) == 1 {
		return m.match(ps[0], l, mask)
	}
	bs := bits(mask)
	sub := uint32(0)
	for j := 0; ; j++ {
		if m.match(ps[0], l, sub) && m.seq(ps[1:], l, mask&^sub) {
			return true
		}
		if j == len(bs) {
			return false
		}
		sub |= 1 << uint(bs[j])
	}
}

func (m *matcher) shuffle(ps []*P, l *list, mask uint32) bool {
	if len(ps) == 1 {
		return m.match(ps[0], l, mask)
	}
	for sub := mask; ; sub = (sub - 1) & mask {
		if m.match(ps[0], l, sub) && m.shuffle(ps[1:], l, mask&^sub) {
			return true
		}
		if sub == 0 {
			return false
		}
	}
}

// refVerdict is the reference verdict of g on d; certain is false when a leaf
// expression raised an error, so that the verdict is not determined.
func refVerdict(g *G, d Doc) (verdict, certain bool, err error) {
	defer func() {
		if r := recover(); r != nil {
			if r == errTooBig {
				err = errTooBig
				return
			}
			panic(r)
		}
	}()
	fz := exprsMayErr(g, d)
	run := func(errAs bool) bool {
		m := &matcher{g: g, memo: map[mkey]int8{}, errAs: errAs, maxSteps: 3000000}
		l := m.build(d)
		return m.match(g.Decls["main"], l, full(len(d)))
	}
	v := run(false)
	if !fz {
		return v, true, nil
	}
	return v, false, nil
}

// exprsMayErr: some leaf expression of g lets an error escape its comparisons
// on some label of d.
func exprsMayErr(g *G, d Doc) bool {
	var es []*E
	g.walk(func(p *P) {
		if p.Op == "leaf" {
			es = append(es, p.E)
		}
	})
	fz := false
	var rec func(ns []*Node)
	rec = func(ns []*Node) {
		for _, n := range ns {
			for _, e := range es {
				c := &evalCtx{}
				if _, err := e.evalBool(n.V, c); err != nil || c.fuzzy {
					fz = true
				}
			}
			rec(n.Kids)
		}
	}
	rec(d)
	return fz
}
