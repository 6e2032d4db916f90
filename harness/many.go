package main

import "fmt"

// Grammars that tell very many combinations of their parts apart: conditions on
// the children of a label, each of which holds or not for itself, so that the
// tables of a memoizing validator grow past the sizes of a byte.

type many struct {
	g    *G
	main func(fields []manyField) bool
	rep  bool
}

type manyField struct {
	label string
	kids  uint32
}

var manyLabels = []string{"x", "y", "z"}

// manyHas is a condition on a set of n children.
func manyHas(r *Rng, n, depth int) (*P, func(uint32) bool) {
	if depth <= 0 || r.P(30) {
		j := r.Intn(n)
		return pOp("contains", pNode(nStr(fmt.Sprintf("a%d", j)), pAny())), func(k uint32) bool { return k>>uint(j)&1 == 1 }
	}
	a, fa := manyHas(r, n, depth-1)
	switch r.Intn(3) {
	case 0:
		return pOp("not", a), func(k uint32) bool { return !fa(k) }
	case 1:
		b, fb := manyHas(r, n, depth-1)
		return pOp("and", a, b), func(k uint32) bool { return fa(k) && fb(k) }
	}
	b, fb := manyHas(r, n, depth-1)
	return pOp("or", a, b), func(k uint32) bool { return fa(k) || fb(k) }
}

func genMany(r *Rng, nconds, nkids int) *many {
	m := &many{rep: r.P(35)}
	var ps []*P
	var fs []func([]manyField) bool
	for i := 0; i < nconds; i++ {
		own := fmt.Sprintf("own%d", i)
		set := map[string]bool{own: true}
		n := nStr(own)
		for _, l := range manyLabels {
			if r.P(60) {
				set[l] = true
				n = nChoice(nStr(l), n)
			}
		}
		neg := false
		if r.P(15) {
			n = nExcept(n)
			neg = true
		}
		p, has := manyHas(r, nkids, 2)
		var q *P
		rep := m.rep
		if q = pNode(n, p); rep {
			q = pOp("contains", q)
		}
		ps = append(ps, q)
		fs = append(fs, func(fields []manyField) bool {
			if !rep && len(fields) != 1 {
				return false
			}
			for _, f := range fields {
				if set[f.label] != neg && has(f.kids) {
					return true
				}
			}
			return false
		})
	}
	for len(ps) > 1 {
		i := r.Intn(len(ps) - 1)
		a, b, fa, fb := ps[i], ps[i+1], fs[i], fs[i+1]
		if r.P(25) {
			x, fx := a, fa
			a, fa = pOp("not", x), func(f []manyField) bool { return !fx(f) }
		}
		ga := fa
		var p *P
		var f func([]manyField) bool
		if r.P(50) {
			p, f = pOp("and", a, b), func(x []manyField) bool { return ga(x) && fb(x) }
		} else {
			p, f = pOp("or", a, b), func(x []manyField) bool { return ga(x) || fb(x) }
		}
		ps = append(append(append([]*P{}, ps[:i]...), p), ps[i+2:]...)
		fs = append(append(append([]func([]manyField) bool{}, fs[:i]...), f), fs[i+2:]...)
	}
	m.g, m.main = newG(ps[0]), fs[0]
	return m
}

func (m *many) doc(r *Rng, nkids int) ([]manyField, Doc) {
	n := 1
	if m.rep {
		n = 1 + r.Intn(2)
	}
	var fs []manyField
	var d Doc
	for ; n > 0; n-- {
		l := manyLabels[r.Intn(len(manyLabels))]
		if r.P(4) {
			l = r.Pick("own0", "own1", "other")
		}
		f := manyField{l, uint32(r.U64()) & (1<<uint(nkids) - 1)}
		var kids []*Node
		for _, j := range r.Perm(nkids) {
			if f.kids>>uint(j)&1 == 1 {
				kids = append(kids, field(fmt.Sprintf("a%d", j)))
			}
		}
		fs = append(fs, f)
		d = append(d, field(l, kids...))
	}
	return fs, d
}

func manyBody(engines func(t *T, text string) []engine, nconds, ndocs int) func(t *T) {
	return func(t *T) {
		nkids := 6 + t.Intn(6)
		m := genMany(t.Rng, nconds/2+t.Intn(nconds/2+1), nkids)
		text := m.g.text(t.Rng)
		t.Info("grammar: %s", text)
		es := engines(t, text)
		var seen [2]int
		for i := 0; i < ndocs; i++ {
			fs, d := m.doc(t.Rng, nkids)
			want := m.main(fs)
			for _, e := range es {
				got, _ := run(e.v, d)
				if got.err != nil || got.ok != want {
					t.Fail("%s gives %v, %v after %d documents, but the grammar means %v\ngrammar: %s\ndocument: %v", e.name, got.ok, got.err, i, want, text, d)
				}
				t.Count("verdicts_compared", 1)
			}
			if want {
				seen[1]++
			} else {
				seen[0]++
			}
		}
		if seen[0] > 0 && seen[1] > 0 {
			t.Nontrivial(text)
			t.Sample("%s", clip(text))
		}
		t.Count("accepted", seen[1])
		t.Count("rejected", seen[0])
	}
}
