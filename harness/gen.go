package main

import "fmt"

// ------------------------------------------------------------ documents

// docStyle shapes the random documents.
type docStyle struct {
	arrays  bool // array nodes with int labels
	dups    bool // repeated field names (XML like)
	weird   bool // labels and leaves of all kinds
	maxKids int
	maxDep  int
	mixed   bool // leaves among fields
}

func genLeafVal(r *Rng, weird bool) Val {
	switch r.Intn(10) {
	case 0, 1, 2:
		return vS(vocabStr[r.Intn(len(vocabStr))])
	case 3, 4:
		return vNum(vocabInt[r.Intn(len(vocabInt))])
	case 5:
		return vB(r.P(50))
	case 6:
		return vD(vocabDouble[r.Intn(len(vocabDouble))])
	case 7:
		if weird {
			return vY(vocabBytes[r.Intn(len(vocabBytes))])
		}
		return vI(vocabInt[r.Intn(len(vocabInt))])
	case 8:
		return vU(vocabUint[r.Intn(len(vocabUint))])
	}
	if weird && r.P(30) {
		return Val{}
	}
	return vI(vocabInt[r.Intn(len(vocabInt))])
}

func genLabel(r *Rng, st docStyle) Val {
	if st.weird && r.P(10) {
		switch r.Intn(4) {
		case 0:
			return vU(vocabUint[r.Intn(len(vocabUint))])
		case 1:
			return vD(vocabDouble[r.Intn(len(vocabDouble))])
		case 2:
			return vB(r.P(50))
		}
		return vY(vocabBytes[r.Intn(len(vocabBytes))])
	}
	return vS(vocabNames[r.Intn(len(vocabNames))])
}

func genKids(r *Rng, st docStyle, depth int) []*Node {
	if depth <= 0 {
		if r.P(20) {
			return nil
		}
		return []*Node{leaf(genLeafVal(r, st.weird))}
	}
	if st.mixed && r.P(20) {
		n := r.Intn(st.maxKids + 1)
		var ks []*Node
		for i := 0; i < n; i++ {
			if r.P(50) {
				ks = append(ks, leaf(genLeafVal(r, st.weird)))
			} else {
				ks = append(ks, &Node{V: genLabel(r, st), Kids: genKids(r, st, depth-1)})
			}
		}
		return ks
	}
	if st.arrays && r.P(25) {
		n := r.Intn(st.maxKids + 1)
		ks := make([]*Node, n)
		for i := range ks {
			ks[i] = index(i, genKids(r, st, depth-1)...)
		}
		return ks
	}
	if r.P(25) {
		return genKids(r, st, 0)
	}
	return genFields(r, st, depth)
}

func genFields(r *Rng, st docStyle, depth int) []*Node {
	n := r.Intn(st.maxKids + 1)
	var ks []*Node
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		l := genLabel(r, st)
		if !st.dups {
			if seen[l.String()] {
				continue
			}
			seen[l.String()] = true
		}
		ks = append(ks, &Node{V: l, Kids: genKids(r, st, depth-1)})
	}
	return ks
}

func genDoc(r *Rng, st docStyle) Doc {
	if st.arrays && r.P(12) {
		n := r.Intn(st.maxKids + 1)
		ks := make([]*Node, n)
		for i := range ks {
			ks[i] = index(i, genKids(r, st, st.maxDep-1)...)
		}
		return ks
	}
	return genFields(r, st, st.maxDep)
}

func genStyle(r *Rng) docStyle {
	return docStyle{arrays: r.P(60), dups: r.P(50), weird: r.P(30), mixed: r.P(20), maxKids: 2 + r.Intn(4), maxDep: 1 + r.Intn(3)}
}

func copyNodes(ns []*Node) []*Node {
	var out []*Node
	for _, n := range ns {
		out = append(out, &Node{V: n.V, Leaf: n.Leaf, Kids: copyNodes(n.Kids)})
	}
	return out
}

// mutateDoc changes one thing in a copy of d.
func mutateDoc(r *Rng, d Doc, st docStyle) Doc {
	c := copyNodes(d)
	// collect addressable child lists
	root := &Node{Kids: c}
	var all []*Node
	var rec func(n *Node)
	rec = func(n *Node) {
		if !n.Leaf {
			all = append(all, n)
		}
		for _, k := range n.Kids {
			rec(k)
		}
	}
	rec(root)
	n := all[r.Intn(len(all))]
	switch r.Intn(6) {
	case 0:
		if len(n.Kids) > 0 {
			i := r.Intn(len(n.Kids))
			n.Kids = append(append([]*Node{}, n.Kids[:i]...), n.Kids[i+1:]...)
		}
	case 1:
		if len(n.Kids) > 0 && len(n.Kids) < 7 && st.dups {
			i := r.Intn(len(n.Kids))
			n.Kids = append(append([]*Node{}, n.Kids...), copyNodes(n.Kids[i:i+1])...)
		}
	case 2:
		if len(n.Kids) > 1 && n.Kids[0].V.HasS {
			p := r.Perm(len(n.Kids))
			ks := make([]*Node, len(p))
			for i := range p {
				ks[i] = n.Kids[p[i]]
			}
			n.Kids = ks
		}
	case 3:
		if len(n.Kids) > 0 {
			k := n.Kids[r.Intn(len(n.Kids))]
			if k.Leaf {
				k.V = genLeafVal(r, st.weird)
			} else if st.dups {
				k.V = genLabel(r, st)
			}
		}
	case 4:
		if len(n.Kids) > 0 {
			k := n.Kids[r.Intn(len(n.Kids))]
			if !k.Leaf {
				k.Kids = genKids(r, st, 1)
			}
		}
	case 5:
		if len(n.Kids) < 6 && st.dups {
			n.Kids = append(append([]*Node{}, n.Kids...), &Node{V: genLabel(r, st), Kids: genKids(r, st, 1)})
		}
	}
	return root.Kids
}

// ------------------------------------------------------------ patterns

type gramStyle struct {
	total bool // leaf expressions never raise errors
	refs  []string
	self  bool // references allowed only below nodes (recursion)
	noNot bool
}

func genName(r *Rng, depth int) *N {
	switch r.Intn(12) {
	case 0, 1:
		return nAny()
	case 2:
		if depth > 0 {
			return nExcept(genName(r, depth-1))
		}
	case 3:
		if depth > 0 {
			return nChoice(genName(r, depth-1), genName(r, depth-1))
		}
	case 4:
		return nInt(int64(r.Intn(4)))
	case 5:
		if r.P(40) {
			k := "iudbsy"[r.Intn(6)]
			return &N{Op: "lit", Kind: k, C: genConst(r, k).C}
		}
	}
	return nStr(vocabNames[r.Intn(len(vocabNames))])
}

func genLeafExpr(r *Rng, gs gramStyle) *E {
	if gs.total {
		return genTotal(r, r.Intn(3))
	}
	if r.P(60) {
		return genTotal(r, r.Intn(3))
	}
	return genExpr(r, 'b', 1+r.Intn(3), 60)
}

// genPat makes a random pattern.  guarded is true below a node pattern.
func genPat(r *Rng, gs gramStyle, depth int, guarded bool) *P {
	if depth <= 0 {
		switch r.Intn(10) {
		case 0:
			return pEmpty()
		case 1, 2, 3:
			return pAny()
		case 4:
			return pNone()
		case 5, 6:
			return pLeaf(genLeafExpr(r, gs))
		}
		if guarded && len(gs.refs) > 0 && r.P(50) {
			return pRef(gs.refs[r.Intn(len(gs.refs))])
		}
		return pNode(genName(r, 1), pAny())
	}
	d := depth - 1
	sub := func() *P { return genPat(r, gs, d, guarded) }
	many := func(op string) *P {
		n := 2
		if r.P(25) {
			n = 3
		}
		ps := make([]*P, n)
		for i := range ps {
			ps[i] = sub()
		}
		if r.P(8) {
			ps[1] = ps[0]
		} else if r.P(8) {
			nm, c := genName(r, 2), r.P(50)
			for i := range ps {
				ps[i] = pNode(nm, genPat(r, gs, d-1, true))
				if c {
					ps[i] = pOp("contains", ps[i])
				}
			}
		}
		return pOp(op, ps...)
	}
	switch r.Intn(20) {
	case 0, 1, 2, 3, 4, 5:
		return pNode(genName(r, 2), genPat(r, gs, d, true))
	case 6, 7:
		return many("concat")
	case 8, 9:
		return many("or")
	case 10:
		return many("and")
	case 11, 12:
		return many("interleave")
	case 13:
		return pOp("star", sub())
	case 14:
		return pOp("opt", sub())
	case 15:
		return pOp("not", sub())
	case 16, 17:
		return pOp("contains", sub())
	case 18:
		return pLeaf(genLeafExpr(r, gs))
	}
	return genPat(r, gs, 0, guarded)
}

// patFor derives a pattern that accepts the list ns (mostly), generalising at
// random.
func patFor(r *Rng, gs gramStyle, ns []*Node, guarded bool, budget *int) *P {
	*budget--
	if *budget <= 0 {
		return pAny()
	}
	if guarded && len(gs.refs) > 0 && r.P(5) {
		return pRef(gs.refs[r.Intn(len(gs.refs))])
	}
	if len(ns) == 0 {
		if r.P(50) {
			return pEmpty()
		}
		if r.P(30) {
			return pOp("star", genPat(r, gs, 1, guarded))
		}
		return pAny()
	}
	if r.P(8) {
		return pAny()
	}
	if r.P(8) {
		return pOp("or", patFor(r, gs, ns, guarded, budget), genPat(r, gs, 2, guarded))
	}
	if r.P(6) {
		return pOp("and", patFor(r, gs, ns, guarded, budget), patFor(r, gs, ns, guarded, budget))
	}
	if r.P(4) {
		return pOp("not", pOp("not", patFor(r, gs, ns, guarded, budget)))
	}
	if r.P(6) {
		return pOp("opt", patFor(r, gs, ns, guarded, budget))
	}
	if r.P(10) && len(ns) > 1 {
		i := r.Intn(len(ns))
		j := i + 1 + r.Intn(len(ns)-i)
		return pOp("contains", patFor(r, gs, ns[i:j], guarded, budget))
	}
	if len(ns) == 1 {
		return patForNode(r, gs, ns[0], budget, guarded)
	}
	switch r.Intn(6) {
	case 0:
		// split into an interleave
		var a, b []*Node
		for _, n := range ns {
			if r.P(50) {
				a = append(a, n)
			} else {
				b = append(b, n)
			}
		}
		return pOp("interleave", patFor(r, gs, a, guarded, budget), patFor(r, gs, b, guarded, budget))
	case 1:
		// every node by itself, in any order
		ps := make([]*P, len(ns))
		for i, j := range r.Perm(len(ns)) {
			ps[i] = patForNode(r, gs, ns[j], budget, guarded)
		}
		return pOp("interleave", ps...)
	case 2:
		return pOp("star", pOp("or", patForNode(r, gs, ns[0], budget, guarded), patForNode(r, gs, ns[len(ns)-1], budget, guarded), pNode(genName(r, 1), pAny())))
	case 3:
		i := r.Intn(len(ns))
		return pOp("concat", pAny(), patForNode(r, gs, ns[i], budget, guarded), pAny())
	}
	ps := make([]*P, len(ns))
	for i := range ns {
		ps[i] = patForNode(r, gs, ns[i], budget, guarded)
	}
	return pOp("concat", ps...)
}

func nameFor(r *Rng, v Val) *N {
	var n *N
	switch {
	case v.HasS:
		n = nStr(v.S)
	case v.HasI:
		n = nInt(v.I)
	case v.HasU:
		n = &N{Op: "lit", Kind: 'u', C: v.U}
	case v.HasD:
		n = &N{Op: "lit", Kind: 'd', C: v.D}
	case v.HasB:
		n = &N{Op: "lit", Kind: 'b', C: v.B}
	case v.HasY:
		n = &N{Op: "lit", Kind: 'y', C: v.Y}
	default:
		return nAny()
	}
	switch r.Intn(14) {
	case 0, 1:
		return nAny()
	case 2:
		return nChoice(n, genName(r, 1))
	case 3:
		return nChoice(genName(r, 1), n)
	case 4:
		return nExcept(nStr(vocabNames[r.Intn(len(vocabNames))]))
	case 5:
		return nExcept(nExcept(n))
	}
	return n
}

func exprFor(r *Rng, gs gramStyle, v Val) *E {
	if r.P(20) {
		return genLeafExpr(r, gs)
	}
	var e *E
	switch {
	case v.HasS:
		e = eFn('b', "eq", eVar('s'), eConst('s', v.S))
		if !gs.total && r.P(40) {
			switch r.Intn(4) {
			case 0:
				e = eFn('b', "contains", eVar('s'), eConst('s', v.S))
			case 1:
				e = eFn('b', "hasPrefix", eVar('s'), eConst('s', v.S))
			case 2:
				e = eFn('b', "hasSuffix", eVar('s'), eConst('s', v.S))
			case 3:
				e = eFn('b', "eqFold", eVar('s'), eConst('s', v.S))
			}
		}
	case v.HasI:
		e = eFn('b', r.Pick("eq", "ge", "le"), eVar('i'), eConst('i', v.I))
	case v.HasU:
		e = eFn('b', r.Pick("eq", "ge", "le"), eVar('u'), eConst('u', v.U))
	case v.HasD:
		e = eFn('b', r.Pick("eq", "ge", "le"), eVar('d'), eConst('d', v.D))
	case v.HasB:
		e = eFn('b', "eq", eVar('b'), eConst('b', v.B))
	case v.HasY:
		e = eFn('b', "eq", eVar('y'), eConst('y', v.Y))
	default:
		return eConst('b', true)
	}
	switch r.Intn(12) {
	case 0:
		return eFn('b', "or", e, genTotal(r, 1))
	case 1:
		return eFn('b', "and", e, eFn('b', "not", genTotal(r, 1)))
	case 2:
		return eFn('b', "not", eFn('b', "not", e))
	case 3:
		return eFn('b', "not", e)
	}
	return e
}

func patForNode(r *Rng, gs gramStyle, n *Node, budget *int, guarded bool) *P {
	*budget--
	if len(n.Kids) == 0 && (n.Leaf || r.P(10)) {
		if !n.Leaf || r.P(92) {
			return pLeaf(exprFor(r, gs, n.V))
		}
	}
	if *budget <= 0 || r.P(6) {
		return pNode(nameFor(r, n.V), pAny())
	}
	return pNode(nameFor(r, n.V), patFor(r, gs, n.Kids, true, budget))
}

// genGrammar makes a grammar together with documents it is likely to tell
// apart.
func genGrammar(r *Rng, st docStyle, gs gramStyle, maxSize, ndocs int) (*G, []Doc) {
	base := genDoc(r, st)
	docs := []Doc{base}
	for len(docs) < ndocs {
		switch r.Intn(4) {
		case 0:
			docs = append(docs, genDoc(r, st))
		case 1:
			docs = append(docs, mutateDoc(r, docs[r.Intn(len(docs))], st))
		default:
			docs = append(docs, mutateDoc(r, base, st))
		}
	}
	g := grammarFor(r, gs, base, maxSize)
	if r.P(10) {
		collide(g, docs)
	}
	return g, docs
}

// grammarFor makes a grammar that is about the document base.
func grammarFor(r *Rng, gs gramStyle, base Doc, maxSize int) *G {
	for try := 0; ; try++ {
		nref := 0
		if r.P(35) {
			nref = 1 + r.Intn(2)
		}
		g2 := gs
		for i := 0; i < nref; i++ {
			g2.refs = append(g2.refs, fmt.Sprintf("r%d", i))
		}
		if nref > 0 && r.P(30) {
			g2.refs = append(g2.refs, "main")
		}
		var main *P
		budget := maxSize
		if r.P(70) {
			main = patFor(r, g2, base, r.P(15), &budget)
		} else {
			main = genPat(r, g2, 1+r.Intn(4), r.P(15))
		}
		g := newG(main)
		for i := 0; i < nref; i++ {
			b2 := maxSize / 2
			var p *P
			if r.P(50) && len(base) > 0 {
				p = patFor(r, g2, base[r.Intn(len(base))].Kids, r.P(15), &b2)
			} else {
				p = genPat(r, g2, 1+r.Intn(3), r.P(15))
			}
			g.add(fmt.Sprintf("r%d", i), p)
		}
		if nref > 0 && r.P(15) {
			g.HashTop = true
		}
		if (g.size() <= maxSize && !g.immediateRecursion()) || try > 50 {
			if try > 50 {
				return newG(pNode(genName(r, 1), pAny()))
			}
			return g
		}
	}
}

// genBranchy makes a grammar with many alternatives over a small alphabet,
// the conditions of which overlap, and short documents: the decision trees of
// the validator become deep and its branches are taken in many orders.
func genBranchy(r *Rng, ndocs int) (*G, []Doc) {
	nn := 4 + r.Intn(7)
	names := vocabBranch[:nn]
	if r.P(30) {
		names = vocabCollide[:nn]
	}
	ints := r.P(25)
	name1 := func() *N {
		if ints {
			return nInt(int64(r.Intn(nn)))
		}
		return nStr(names[r.Intn(nn)])
	}
	name := func() *N {
		n := name1()
		for k := r.Intn(4); k > 0; k-- {
			n = nChoice(n, name1())
		}
		if r.P(12) {
			n = nExcept(n)
		}
		if r.P(4) {
			n = nAny()
		}
		return n
	}
	vals := 3 + r.Intn(6)
	cond := func() *E {
		e := eFn('b', r.Pick("eq", "eq", "eq", "ne", "lt", "ge", "le", "gt"), eVar('i'), eConst('i', int64(r.Intn(vals))))
		switch r.Intn(8) {
		case 0:
			e = eFn('b', "and", e, eFn('b', r.Pick("ne", "lt", "ge"), eVar('i'), eConst('i', int64(r.Intn(vals)))))
		case 1:
			e = eFn('b', "or", e, eFn('b', r.Pick("eq", "lt", "ge"), eVar('i'), eConst('i', int64(r.Intn(vals)))))
		case 2:
			e = eFn('b', "not", e)
		}
		return e
	}
	var alt func(depth int) *P
	alt = func(depth int) *P {
		if depth > 0 && r.P(25) {
			n := 2 + r.Intn(4)
			ps := make([]*P, n)
			for i := range ps {
				ps[i] = alt(depth - 1)
			}
			return pNode(name(), pOp(r.Pick("or", "or", "interleave", "concat", "and"), ps...))
		}
		switch r.Intn(10) {
		case 0:
			return pNode(name(), pAny())
		case 1:
			return pNode(name(), pOp("or", pLeaf(cond()), pLeaf(cond())))
		case 2:
			return pNode(name(), pOp("or", pLeaf(cond()), pLeaf(cond()), pLeaf(cond())))
		case 3:
			return pNode(name(), pOp("and", pLeaf(cond()), pLeaf(cond())))
		}
		return pNode(name(), pLeaf(cond()))
	}
	n := 3 + r.Intn(7)
	ps := make([]*P, n)
	op := r.Pick("or", "or", "or", "interleave", "and", "concat")
	if op == "interleave" && n > 5 {
		n = 5
		ps = ps[:n]
	}
	for i := range ps {
		ps[i] = alt(2)
		switch op {
		case "or":
			switch r.Intn(8) {
			case 0:
				ps[i] = pOp("concat", ps[i], alt(1))
			case 1:
				ps[i] = pOp("interleave", ps[i], alt(1))
			case 2:
				ps[i] = pOp("star", ps[i])
			}
		case "interleave", "concat":
			ps[i] = pOp("opt", ps[i])
		case "and":
			ps[i] = pOp("contains", ps[i])
			if r.P(40) {
				ps[i] = pOp("not", ps[i])
			}
		}
	}
	main := pOp(op, ps...)
	if r.P(10) {
		main = pOp("not", main)
	} else if r.P(10) {
		main = pOp("star", main)
	}
	g := newG(main)
	// the documents
	lab := func() Val {
		if ints {
			return vI(int64(r.Intn(nn)))
		}
		return vS(names[r.Intn(nn)])
	}
	var docn func(depth int) *Node
	docn = func(depth int) *Node {
		nd := &Node{V: lab()}
		if depth > 0 && r.P(25) {
			for k := 1 + r.Intn(2); k > 0; k-- {
				nd.Kids = append(nd.Kids, docn(depth-1))
			}
			return nd
		}
		nd.Kids = []*Node{leaf(vI(int64(r.Intn(vals))))}
		return nd
	}
	docs := make([]Doc, ndocs)
	for i := range docs {
		for k := 1 + r.Intn(3); k > 0; k-- {
			docs[i] = append(docs[i], docn(2))
			if r.P(50) {
				break
			}
		}
	}
	return g, docs
}

var vocabCollide = []string{"Aa", "BB", "AaAa", "AaBB", "BBAa", "BBBB", "Bb", "CC", "AaCC", "BBBb"}
var vocabBranch = []string{"A", "B", "C", "D", "E", "F", "G", "H", "I", "J"}

// genWide makes a grammar that keeps more than sixty-four different patterns
// alive at once, and small documents for it.
func genWide(r *Rng, ndocs int) (*G, []Doc) {
	n := 60 + r.Intn(80)
	sep := r.P(50) // one name per alternative, or one name for all
	op := r.Pick("or", "or", "contains", "notcontains", "eithers", "deep")
	nm := func(i int) *N {
		if sep {
			return nStr(fmt.Sprintf("f%d", i))
		}
		return nStr("x")
	}
	one := func(i int) *P {
		return pNode(nm(i), pLeaf(eFn('b', "eq", eVar('i'), eConst('i', int64(i)))))
	}
	ps := make([]*P, n)
	var main *P
	for i := range ps {
		ps[i] = one(i)
	}
	switch op {
	case "or":
		main = pOp("or", ps...)
		if r.P(30) {
			main = pOp("star", main)
		}
	case "contains":
		for i := range ps {
			ps[i] = pOp("contains", ps[i])
		}
		main = pOp("or", ps...)
	case "notcontains":
		for i := range ps {
			if i%7 != 3 {
				ps[i] = pOp("not", pOp("contains", ps[i]))
			} else {
				ps[i] = pOp("not", pOp("contains", pNode(nm(i), pOp("not", pLeaf(eFn('b', "eq", eVar('i'), eConst('i', int64(i))))))))
			}
		}
		main = pOp("and", ps...)
	case "eithers":
		for i := range ps {
			ps[i] = pOp("concat", ps[i], pOp("star", one((i*7+1)%n)))
		}
		main = pOp("or", ps...)
	case "deep":
		main = pNode(nStr("top"), pOp("or", ps...))
	}
	g := newG(main)
	var last int
	node1 := func() *Node {
		i := r.Intn(n)
		if r.P(30) {
			i = n - 1 - r.Intn(8)
		}
		if r.P(30) {
			i = (last*7 + 1) % n
		}
		last = i
		v := i
		if r.P(25) {
			v = r.Intn(n + 2)
		}
		nd := &Node{V: vS("x"), Kids: []*Node{leaf(vI(int64(v)))}}
		if sep {
			nd.V = vS(fmt.Sprintf("f%d", i))
		}
		return nd
	}
	docs := make([]Doc, ndocs)
	for i := range docs {
		var ns []*Node
		for k := 1 + r.Intn(3); k > 0; k-- {
			ns = append(ns, node1())
		}
		if op == "deep" {
			ns = []*Node{{V: vS("top"), Kids: ns}}
		}
		docs[i] = ns
	}
	return g, docs
}

// collideMap renames the shared names and strings to ones that have the same
// hashes, which the library computes as 31*h + c.
var collideMap = map[string]string{"A": "Aa", "B": "BB", "C": "AaBB", "D": "BBAa", "a": "Aa", "b": "BB", "ab": "AaAa", "abc": "BBBB"}

// collide makes the names and strings of a grammar and its documents collide.
func collide(g *G, docs []Doc) {
	seen := map[interface{}]bool{}
	var name func(n *N)
	name = func(n *N) {
		if n == nil || seen[n] {
			return
		}
		seen[n] = true
		if s, ok := n.C.(string); ok && n.Op == "lit" && n.Kind == 's' {
			if x, ok := collideMap[s]; ok {
				n.C = x
			}
		}
		name(n.L)
		name(n.R)
	}
	g.walk(func(p *P) {
		name(p.Name)
		if p.E != nil {
			p.E.walk(func(e *E) {
				if seen[e] || e.Op != "const" {
					return
				}
				seen[e] = true
				if s, ok := e.C.(string); ok {
					if x, ok := collideMap[s]; ok {
						e.C = x
					}
				}
			})
		}
	})
	var nodes func(ns []*Node)
	nodes = func(ns []*Node) {
		for _, n := range ns {
			if seen[n] {
				continue
			}
			seen[n] = true
			if x, ok := collideMap[n.V.S]; ok && n.V.HasS {
				n.V.S = x
			}
			nodes(n.Kids)
		}
	}
	for _, d := range docs {
		nodes(d)
	}
}

// collider changes a string or a list of integers into another one with the
// same hash, if it can.
func colliderStr(r *Rng, s string) string {
	rs := []rune(s)
	for try := 0; try < 4 && len(rs) > 1; try++ {
		i := r.Intn(len(rs) - 1)
		if rs[i+1] >= 32+31 && rs[i+1] < 127 && rs[i] < 126 && rs[i] >= 32 {
			rs[i]++
			rs[i+1] -= 31
			return string(rs)
		}
		if rs[i+1] >= 32 && rs[i+1] < 127-31 && rs[i] > 32 && rs[i] < 127 {
			rs[i]--
			rs[i+1] += 31
			return string(rs)
		}
	}
	return s
}

// collideExpr changes one constant of e such that the hash stays the same.
func collideExpr(r *Rng, e *E) {
	var can []func()
	e.walk(func(x *E) {
		if s, ok := x.C.(string); ok && x.Op == "const" && len(s) > 1 {
			can = append(can, func() { x.C = colliderStr(r, s) })
		}
		for i := 0; i+1 < len(x.Args); i++ {
			a, b := x.Args[i], x.Args[i+1]
			if a.Op == "const" && b.Op == "const" {
				if v, ok := a.C.(int64); ok {
					if w, ok := b.C.(int64); ok {
						can = append(can, func() { a.C, b.C = v+1, w-31 })
					}
				}
				if v, ok := a.C.(uint64); ok {
					if w, ok := b.C.(uint64); ok && w >= 31 {
						can = append(can, func() { a.C, b.C = v+1, w-31 })
					} else if ok && v > 0 {
						can = append(can, func() { a.C, b.C = v-1, w+31 })
					}
				}
			}
		}
	})
	if len(can) > 0 {
		can[r.Intn(len(can))]()
	}
}

// genSmall makes a small grammar over two or three names and the numbers one
// and two, of which few parts are ever irrelevant, together with all the short
// documents over this alphabet and some of the longer ones.
func genSmall(r *Rng, record bool) (*G, []Doc) {
	names := []string{"A", "B"}
	if record {
		names = []string{"A", "B", "C"}
	}
	nrefs := 0
	if r.P(20) {
		nrefs = 1
	}
	name := func() *N {
		switch r.Intn(12) {
		case 0:
			return nAny()
		case 1:
			return nExcept(nStr(names[0]))
		case 2:
			return nChoice(nStr(names[0]), nStr(names[1]))
		}
		return nStr(names[r.Intn(len(names))])
	}
	cond := func() *E {
		e := eFn('b', r.Pick("eq", "eq", "eq", "ne", "lt", "ge"), eVar('i'), eConst('i', int64(1+r.Intn(2))))
		if r.P(8) {
			e = eFn('b', "not", e)
		}
		return e
	}
	var pat func(depth int, guarded bool) *P
	atom := func(depth int) *P {
		switch r.Intn(12) {
		case 0:
			return pAny()
		case 1:
			return pEmpty()
		}
		switch x := r.Intn(10); {
		case x < 6 || depth <= 0:
			return pNode(name(), pLeaf(cond()))
		case x == 6:
			return pNode(name(), pAny())
		case x == 7:
			return pNode(name(), pOp(r.Pick("or", "and"), pLeaf(cond()), pLeaf(cond())))
		}
		return pNode(name(), pat(depth-1, true))
	}
	pat = func(depth int, guarded bool) *P {
		if guarded && nrefs > 0 && r.P(15) {
			return pRef(r.Pick("r0", "r0", "main"))
		}
		if depth <= 0 || r.P(20) {
			if r.P(40) {
				return pOp("contains", atom(depth))
			}
			return atom(depth)
		}
		n := 2
		if r.P(35) {
			n = 3 + r.Intn(2)
		}
		switch op := r.Pick("and", "and", "or", "or", "concat", "interleave", "not", "star", "contains", "opt"); op {
		case "not", "star", "contains", "opt":
			return pOp(op, pat(depth-1, guarded))
		default:
			ps := make([]*P, n)
			for i := range ps {
				ps[i] = pat(depth-1, guarded)
			}
			if r.P(10) {
				ps[1] = ps[0]
			} else if r.P(20) {
				// patterns that differ only below the same name
				nm, c := name(), r.P(60)
				if r.P(40) {
					nm = pickN(r, nExcept(nStr(names[1])), nChoice(nStr(names[0]), nStr(names[1])), nAny())
				}
				for i := 0; i < 2; i++ {
					p := pNode(nm, pLeaf(cond()))
					if r.P(30) {
						p = pNode(nm, pat(depth-2, true))
					}
					if c {
						p = pOp("contains", p)
					}
					ps[i] = p
				}
			}
			return pOp(op, ps...)
		}
	}
	var g *G
	for try := 0; ; try++ {
		g = newG(pat(1+r.Intn(3), false))
		if nrefs > 0 {
			g.add("r0", pat(1+r.Intn(2), false))
		}
		if g.size() <= 16 && !g.immediateRecursion() {
			break
		}
		if try > 50 {
			nrefs = 0
		}
	}
	kid := func(n string, ks ...*Node) *Node { return &Node{V: vS(n), Kids: ks} }
	var alpha []*Node
	for _, n := range names {
		alpha = append(alpha, kid(n, leaf(vI(1))), kid(n, leaf(vI(2))))
	}
	alpha = append(alpha, kid("A", kid("B", leaf(vI(1)))), kid("A"))
	ok := func(d Doc) bool {
		if !record {
			return true
		}
		for i := range d {
			for j := range d[:i] {
				if d[i].V.S == d[j].V.S {
					return false
				}
			}
		}
		return true
	}
	docs := []Doc{nil}
	for _, x := range alpha {
		docs = append(docs, Doc{x})
	}
	for _, x := range alpha {
		for _, y := range alpha {
			if d := (Doc{x, y}); ok(d) {
				docs = append(docs, d)
			}
		}
	}
	for i := 0; i < 24; i++ {
		var d Doc
		for k := 3 + r.Intn(2); k > 0; k-- {
			if r.P(15) {
				x := kid(names[r.Intn(len(names))])
				for _, c := range docs[1+r.Intn(len(docs)-1)] {
					x.Kids = append(x.Kids, c)
				}
				if ok(append(d[:len(d):len(d)], x)) {
					d = append(d, x)
				}
				continue
			}
			if x := alpha[r.Intn(len(alpha))]; ok(append(d[:len(d):len(d)], x)) {
				d = append(d, x)
			}
		}
		docs = append(docs, d)
	}
	return g, docs
}

func pickN(r *Rng, ns ...*N) *N { return ns[r.Intn(len(ns))] }
