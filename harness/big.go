package main

import "fmt"

// Large documents and grammars with many states.  Their meaning is decided by a
// second reference, a position automaton for the regular part of the language,
// that takes time in proportion to the document.  Conjunctions and complements
// may stand where they apply to all children of a node.

type nfa struct {
	eps   [][]int
	pat   []*P // the transition of the state
	to    []int
	end   int
	start int
}

func (a *nfa) state() int {
	a.eps = append(a.eps, nil)
	a.pat = append(a.pat, nil)
	a.to = append(a.to, -1)
	return len(a.eps) - 1
}

func (a *nfa) link(x, y int) { a.eps[x] = append(a.eps[x], y) }

var anyChild = &P{Op: "anychild"}

func (a *nfa) compile(g *G, p *P, in, out int) {
	step := func(p *P, in, out int) {
		s := a.state()
		a.link(in, s)
		a.pat[s], a.to[s] = p, out
	}
	loop := func(in, out int) {
		s := a.state()
		a.link(in, s)
		step(anyChild, s, s)
		a.link(s, out)
	}
	switch p.Op {
	case "empty":
		a.link(in, out)
	case "any":
		loop(in, out)
	case "node", "leaf":
		step(p, in, out)
	case "ref":
		a.compile(g, g.Decls[p.Ref], in, out)
	case "concat":
		for i, k := range p.Kids {
			o := out
			if i+1 < len(p.Kids) {
				o = a.state()
			}
			a.compile(g, k, in, o)
			in = o
		}
	case "or":
		for _, k := range p.Kids {
			a.compile(g, k, in, out)
		}
	case "opt":
		a.link(in, out)
		a.compile(g, p.Kids[0], in, out)
	case "star":
		s := a.state()
		a.link(in, s)
		b := a.state()
		a.link(s, b)
		e := a.state()
		a.compile(g, p.Kids[0], b, e)
		a.link(e, s)
		a.link(s, out)
	case "contains":
		x, y := a.state(), a.state()
		loop(in, x)
		a.compile(g, p.Kids[0], x, y)
		loop(y, out)
	default:
		panic("harness: not regular: " + p.Op)
	}
}

type bigMatcher struct {
	g     *G
	memo  map[*P]*nfa
	known map[bigKey]bool
}

type bigKey struct {
	p *P
	n *Node
}

func (m *bigMatcher) child(p *P, n *Node) bool {
	switch p.Op {
	case "anychild":
		return true
	case "node":
		if !p.Name.match(n.V) {
			return false
		}
		k := bigKey{p.Kids[0], n}
		if k.p.Op == "ref" {
			k.p = m.g.Decls[k.p.Ref]
		}
		ok, known := m.known[k]
		if !known {
			ok = m.match(p.Kids[0], n.Kids)
			m.known[k] = ok
		}
		return ok
	}
	if len(n.Kids) > 0 {
		return false
	}
	b, err := p.E.evalBool(n.V, &evalCtx{})
	return err == nil && b
}

func (m *bigMatcher) match(p *P, ns []*Node) bool {
	switch p.Op {
	case "ref":
		return m.match(m.g.Decls[p.Ref], ns)
	case "and":
		for _, k := range p.Kids {
			if !m.match(k, ns) {
				return false
			}
		}
		return true
	case "not":
		return !m.match(p.Kids[0], ns)
	case "any":
		return true
	case "parts": // an interleaving of patterns that have no name in common
		for i, k := range p.Kids {
			var own []*Node
			for _, n := range ns {
				if partOf(n) == i || partOf(n) < 0 && i == 0 {
					own = append(own, n)
				}
			}
			if !m.match(k, own) {
				return false
			}
		}
		for _, n := range ns {
			if x := partOf(n); x < 0 || x >= len(p.Kids) {
				return false
			}
		}
		return true
	}
	a := m.memo[p]
	if a == nil {
		a = &nfa{}
		a.start, a.end = a.state(), a.state()
		a.compile(m.g, p, a.start, a.end)
		m.memo[p] = a
	}
	cur, mark := []int{}, make([]int, len(a.eps))
	gen := 1
	var add func(s int)
	var next []int
	add = func(s int) {
		if mark[s] == gen {
			return
		}
		mark[s] = gen
		if a.pat[s] != nil || s == a.end {
			next = append(next, s)
		}
		for _, t := range a.eps[s] {
			add(t)
		}
	}
	add(a.start)
	cur, next = next, nil
	seen := map[*P]bool{}
	for _, n := range ns {
		gen++
		next = cur[:0:0]
		clear(seen)
		for _, s := range cur {
			q := a.pat[s]
			if q == nil {
				continue
			}
			ok, known := seen[q]
			if !known {
				ok = m.child(q, n)
				seen[q] = ok
			}
			if ok {
				add(a.to[s])
			}
		}
		cur = next
	}
	for _, s := range cur {
		if s == a.end {
			return true
		}
	}
	return false
}

// partOf is the part of an interleaving that has the name of n, -1 if none.
func partOf(n *Node) int {
	if n.V.HasS && len(n.V.S) >= 2 && n.V.S[0] == 'p' {
		return int(n.V.S[1] - '0')
	}
	return -1
}

// bigGen makes regular grammars and large documents that they mostly accept.
type bigGen struct {
	*Rng
	g     *G
	refs  []string
	limit int  // of the depth
	room  int  // what is left of the size of a document
	wide  int  // the length of sequences
	nest  bool // stars and contains may stand below a star
	once  bool // contains is used
}

func (b *bigGen) cond() *E {
	switch b.Intn(6) {
	case 0:
		return eFn('b', "eq", eVar('s'), eConst('s', b.Pick("a", "b", "ab", "Aa", "BB")))
	case 1:
		return eFn('b', b.Pick("lt", "ge", "ne"), eVar('i'), eConst('i', int64(b.Intn(6))))
	case 2:
		return eFn('b', "or", eFn('b', "eq", eVar('i'), eConst('i', int64(b.Intn(6)))), eFn('b', "eq", eVar('i'), eConst('i', int64(b.Intn(6)))))
	}
	return eFn('b', "eq", eVar('i'), eConst('i', int64(b.Intn(6))))
}

func (b *bigGen) name(pre string) *N {
	n := nStr(pre + b.Pick("A", "B", "C", "D", "Aa", "BB"))
	switch b.Intn(8) {
	case 0:
		n = nChoice(n, nStr(pre+b.Pick("A", "B", "C", "D")))
	case 1:
		if pre == "" {
			n = nExcept(n)
		}
	case 2:
		if pre == "" {
			n = nAny()
		}
	}
	return n
}

// content is a pattern for all children of a node.
func (b *bigGen) content(depth int) *P {
	if depth <= 0 {
		return pLeaf(b.cond())
	}
	switch b.Intn(12) {
	case 0:
		return pOp("and", b.seq(depth, ""), b.seq(depth, ""))
	case 1:
		return pOp("not", b.seq(depth, ""))
	case 2:
		if b.nest || !b.once {
			b.once = true
			return pOp("and", pOp("star", b.elem(depth, "")), pOp("not", pOp("contains", b.elem(depth, ""))))
		}
	case 3, 4:
		p := pOp("parts")
		for i := 2 + b.Intn(2); i > 0; i-- {
			p.Kids = append(p.Kids, b.seq(min(depth, 1), fmt.Sprint("p", len(p.Kids))))
		}
		return p
	case 5:
		return pLeaf(b.cond())
	case 6:
		if len(b.refs) > 0 {
			return pRef(b.refs[b.Intn(len(b.refs))])
		}
	}
	return b.seq(depth, "")
}

func (b *bigGen) elem(depth int, pre string) *P {
	if len(b.refs) > 0 && b.P(30) {
		return pNode(b.name(pre), pRef(b.refs[b.Intn(len(b.refs))]))
	}
	return pNode(b.name(pre), b.content(depth-1))
}

// seq is a regular pattern of elements whose names start with pre.  Only the
// memoizing engine gets a star or a contains below a star: for the others that
// would take too long.
func (b *bigGen) seq(depth int, pre string) *P {
	if b.big > 0 && pre == "" && b.P(15) {
		// a long sequence: one state for each element
		p := pOp(b.Pick("concat", "concat", "or"))
		for n := max(2, b.large(b.wide)); n > 0; n-- {
			nm := fmt.Sprint("N", b.Intn(2*n))
			p.Kids = append(p.Kids, pNode(nStr(nm), pLeaf(b.cond())))
		}
		return p
	}
	elem := func() *P { return b.elem(depth, pre) }
	item := func() *P {
		switch b.Intn(10) {
		case 0, 1, 2:
			return pOp("star", elem())
		case 3:
			return pOp("star", pOp("concat", elem(), elem()))
		case 4:
			return pOp("star", pOp("or", elem(), elem()))
		case 5:
			return pOp("star", pOp("or", pOp("concat", elem(), elem(), elem()), elem()))
		case 6:
			return pOp("opt", elem())
		case 7:
			if pre == "" && (b.nest || !b.once) {
				b.once = true
				return pOp("contains", elem())
			}
		}
		return elem()
	}
	var items func() *P
	plain := item
	item = func() *P {
		if b.nest && b.P(15) {
			b.nest = false
			defer func() { b.nest = true }()
			return pOp("star", items())
		}
		return plain()
	}
	items = func() *P {
		n := 1 + b.Intn(4)
		if n == 1 {
			return item()
		}
		p := pOp("concat")
		for ; n > 0; n-- {
			p.Kids = append(p.Kids, item())
		}
		return p
	}
	switch b.Intn(8) {
	case 0:
		return pOp("or", items(), items())
	case 1:
		return pOp("star", elem())
	}
	return items()
}

var bigJunk = []string{"A", "B", "C", "D", "X", "Aa", "BB", "N3"}

func (b *bigGen) leafFor(e *E) *Node {
	for k := 0; k < 12; k++ {
		v := vNum(int64(b.Intn(7)))
		if b.P(40) {
			v = vS(b.Pick("a", "b", "ab", "Aa", "BB"))
		}
		if ok, err := e.evalBool(v, &evalCtx{}); err == nil && ok {
			return leaf(v)
		}
	}
	return leaf(vNum(3))
}

func (b *bigGen) label(n *N) Val {
	for k := 0; k < 20; k++ {
		v := vS(bigJunk[b.Intn(len(bigJunk))])
		switch {
		case n.Op == "lit":
			v = vS(n.C.(string))
		case n.Op == "choice":
			x := n.L
			if b.P(50) {
				x = n.R
			}
			return b.label(x)
		}
		if n.match(v) {
			return v
		}
	}
	return vS("X")
}

// sample makes children that p accepts, mostly.
func (b *bigGen) sample(p *P, depth int) []*Node {
	if b.room--; b.room < 0 || depth > b.limit+20 {
		return nil
	}
	switch p.Op {
	case "any", "not":
		var ns []*Node
		for i := b.some(3); i > 0; i-- {
			ns = append(ns, field(bigJunk[b.Intn(len(bigJunk))], leaf(vNum(int64(b.Intn(7))))))
		}
		return ns
	case "node":
		return []*Node{{V: b.label(p.Name), Kids: b.sample(p.Kids[0], depth+1)}}
	case "leaf":
		return []*Node{b.leafFor(p.E)}
	case "ref":
		return b.sample(b.g.Decls[p.Ref], depth)
	case "concat":
		var ns []*Node
		for _, k := range p.Kids {
			ns = append(ns, b.sample(k, depth)...)
		}
		return ns
	case "parts":
		var ns []*Node
		for _, k := range p.Kids {
			var out []*Node
			own := b.sample(k, depth)
			for len(own) > 0 || len(ns) > 0 {
				if len(ns) == 0 || len(own) > 0 && b.P(50) {
					out, own = append(out, own[0]), own[1:]
				} else {
					out, ns = append(out, ns[0]), ns[1:]
				}
			}
			ns = out
		}
		return ns
	case "or":
		if depth >= b.limit {
			return b.sample(p.Kids[0], depth)
		}
		if depth > 6 || b.P(50) {
			// go on
			return b.sample(p.Kids[len(p.Kids)-1-b.Intn(min(2, len(p.Kids)-1))], depth)
		}
		return b.sample(p.Kids[b.Intn(len(p.Kids))], depth)
	case "and":
		return b.sample(p.Kids[0], depth)
	case "opt":
		if b.P(50) {
			return nil
		}
		return b.sample(p.Kids[0], depth)
	case "star":
		n := 0
		if depth < 4 {
			n = b.some(4)
		}
		if n > 32 {
			defer func(big int) { b.big = big }(b.big)
			b.big = 0
		}
		var ns []*Node
		for ; n > 0; n-- {
			ns = append(ns, b.sample(p.Kids[0], depth)...)
		}
		return ns
	case "contains":
		ns := b.sample(pAny(), depth)
		ns = append(ns, b.sample(p.Kids[0], depth)...)
		return append(ns, b.sample(pAny(), depth)...)
	}
	return nil
}

// render replaces the parts by interleavings.
func (p *P) render() *P {
	q := *p
	q.Kids = nil
	for _, k := range p.Kids {
		q.Kids = append(q.Kids, k.render())
	}
	if q.Op == "parts" {
		q.Op = "interleave"
	}
	return &q
}

// genBig makes a grammar with documents for it.  The reference needs the
// grammar as it is and the library a rendering of it.
func genBig(r *Rng, size, ndocs int) (g *G, text string, docs []Doc) {
	b := &bigGen{Rng: r, limit: 3, wide: min(400, size/25), nest: size > 2000}
	r.grow(4, size)
	defer func() { r.big = 0 }()
	var main *P
	if r.P(30) {
		// a document may be as deep as one likes
		main = pOp("or", pOp("empty"), pOp("concat", pOp("star", pNode(nStr("V"), pLeaf(b.cond()))), pNode(b.name(""), pRef("main"))), pNode(b.name(""), pRef("main")))
		if r.P(40) {
			main.Kids = append(main.Kids, pNode(b.name(""), pOp("and", pRef("main"), pOp("not", pOp("contains", pNode(nStr("W"), pAny()))))))
		}
		if r.P(30) {
			main.Kids = append(main.Kids, pOp("concat", pNode(b.name(""), pRef("main")), pNode(nStr("T"), pLeaf(b.cond()))))
		}
		b.limit = r.large(min(size, 600))
	} else {
		if r.P(40) {
			b.refs = []string{"r0"}
		}
		main = b.content(2)
	}
	g = newG(main)
	if len(b.refs) > 0 {
		b.refs = nil
		g.add("r0", b.content(1))
	}
	b.g = g
	if g.immediateRecursion() {
		return g, "", nil
	}
	for i := 0; i < ndocs; i++ {
		r.grow(2, size)
		b.room = 12 * size
		d := Doc(b.sample(main, 0))
		if b.room < 0 {
			continue
		}
		for k := r.Intn(3); k > 0; k-- {
			d = b.spoil(d)
		}
		docs = append(docs, d)
	}
	h := newG(main.render())
	for _, n := range g.Order[1:] {
		h.add(n, g.Decls[n].render())
	}
	return g, h.text(nil), docs
}

// spoil changes one place of a copy.
func (b *bigGen) spoil(d Doc) Doc {
	c := Doc(copyNodes(d))
	root := &Node{Kids: c}
	at := root
	for k := b.Intn(3 + b.Intn(b.limit+1)); k > 0 && len(at.Kids) > 0; k-- {
		x := at.Kids[b.pos(len(at.Kids))]
		if x.Leaf {
			break
		}
		at = x
	}
	if len(at.Kids) == 0 {
		at.Kids = append(at.Kids, field("X"))
		return root.Kids
	}
	i := b.pos(len(at.Kids))
	switch b.Intn(5) {
	case 0:
		at.Kids = append(at.Kids[:i:i], at.Kids[i+1:]...)
	case 1:
		at.Kids = append(at.Kids[:i+1:i+1], at.Kids[i:]...)
	case 2:
		j := b.pos(len(at.Kids))
		at.Kids[i], at.Kids[j] = at.Kids[j], at.Kids[i]
	case 3:
		at.Kids[i].V = vS(bigJunk[b.Intn(len(bigJunk))])
	case 4:
		n := at.Kids[i]
		for len(n.Kids) > 0 {
			n = n.Kids[b.pos(len(n.Kids))]
		}
		if n.Leaf {
			n.V = vNum(int64(b.Intn(8)))
		}
	}
	return root.Kids
}

// pos is a position in a list, often one of its ends.
func (b *bigGen) pos(n int) int {
	switch b.Intn(4) {
	case 0:
		return 0
	case 1, 2:
		return n - 1
	}
	return b.Intn(n)
}

// bigBody compares the verdicts of some engines with the reference.
func bigBody(size int, engines func(t *T, text string) []engine) func(t *T) {
	return func(t *T) {
		g, text, docs := genBig(t.Rng, size, 5)
		if g.immediateRecursion() {
			t.Count("immediate_recursion", 1)
			return
		}
		t.Info("grammar: %s", text)
		es := engines(t, text)
		m := &bigMatcher{g: g, memo: map[*P]*nfa{}, known: map[bigKey]bool{}}
		var seen [2]int
		for _, d := range docs {
			clear(m.known)
			want := m.match(g.Decls["main"], d)
			for _, e := range es {
				if n := d.count(); n > 3000 && e.name != "mem" && e.name != "auto" {
					continue
				}
				t.Info("grammar: %s\ndocument with %d labels: %s", text, d.count(), clip(d.String()))
				got, p := run(e.v, d)
				if got.err != nil {
					t.Fail("%s gives %v\ngrammar: %s\ndocument: %v", e.name, got, clip(text), d)
				}
				if got.ok != want {
					t.Fail("%s gives %v, but the grammar means %v\ngrammar: %s\ndocument with %d labels: %v", e.name, got, want, clip(text), d.count(), d)
				}
				for _, b := range p.Breaches {
					t.Fail("%s: %s\ngrammar: %s\ndocument: %v", e.name, b, clip(text), d)
				}
				t.Count("verdicts_compared", 1)
				t.Count("labels", d.count())
			}
			seen[map[bool]int{true: 1}[want]]++
		}
		if seen[0] > 0 && seen[1] > 0 {
			t.Nontrivial(text)
			t.Sample("%s", clip(text))
		}
		t.Count("accepted", seen[1])
		t.Count("rejected", seen[0])
	}
}
