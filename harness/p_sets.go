package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/intern"
	"github.com/katydid/katydid/relapse/sets"
)

func init() {
	register("P39", &check{
		rule: "a case is one history of operations on one set, or one list that is zipped; non-trivial when something was found again and something else was kept apart, distinct by the history",
		assume: []string{
			"two patterns are the same when the harness' own structural comparison of them says so",
			"the lists that are given to a set are not changed afterwards by the one who gave them, which the sets do not promise to survive",
		},
		run: runP39,
	})
}

// --- bits

type bitsModel struct {
	size int
	ones map[int]bool
}

func (m *bitsModel) clone() *bitsModel {
	c := &bitsModel{m.size, map[int]bool{}}
	for i := range m.ones {
		c.ones[i] = true
	}
	return c
}

func (m *bitsModel) equal(o *bitsModel) bool {
	if m.size != o.size || len(m.ones) != len(o.ones) {
		return false
	}
	for i := range m.ones {
		if !o.ones[i] {
			return false
		}
	}
	return true
}

func (m *bitsModel) set(i int, b bool) {
	if b {
		m.ones[i] = true
	} else {
		delete(m.ones, i)
	}
}

func (m *bitsModel) number() *big.Int {
	n := new(big.Int)
	for i := range m.ones {
		n.SetBit(n, i, 1)
	}
	return n
}

func (m *bitsModel) String() string {
	var s strings.Builder
	fmt.Fprintf(&s, "%d:", m.size)
	for i := 0; i < m.size; i++ {
		if m.ones[i] {
			fmt.Fprintf(&s, " %d", i)
		}
	}
	return s.String()
}

func bitsSize(r *Rng) int {
	if r.P(2) {
		return r.large(5000)
	}
	switch r.Intn(4) {
	case 0:
		return 1 + r.Intn(10)
	case 1:
		return []int{1, 62, 63, 64, 65, 66, 127, 128, 129, 191, 192, 193, 256, 320}[r.Intn(14)]
	case 2:
		return 1 + r.Intn(400)
	}
	return 60 + r.Intn(80)
}

// bitsIndex prefers the places where words meet.
func bitsIndex(r *Rng, size int) int {
	if r.P(50) {
		i := 64*r.Intn(size/64+1) + []int{-1, 0, 1, 62, 63}[r.Intn(5)]
		if i >= 0 && i < size {
			return i
		}
	}
	return r.Intn(size)
}

func checkBits(t *T, what string, b sets.Bits, m *bitsModel) {
	for i := 0; i < m.size; i++ {
		if b.Get(i) != m.ones[i] {
			t.Fail("%s: bit %d is %v, want the bits %v", what, i, b.Get(i), m)
		}
	}
}

// newBits sets the ones of the model in a random order, some of them twice,
// some bits on a detour.
func newBits(r *Rng, m *bitsModel) sets.Bits {
	b := sets.NewBits(m.size)
	if m.size == 0 {
		return b
	}
	for k := r.Intn(4); k > 0; k-- {
		b.Set(bitsIndex(r, m.size), true)
	}
	for _, i := range r.Perm(m.size) {
		b.Set(i, m.ones[i])
	}
	return b
}

func runP39(c *Ctx) {
	c.Run("bits", c.N(20000), func(t *T) {
		size := bitsSize(t.Rng)
		a, b := sets.NewBits(size), sets.NewBits(size)
		ma, mb := &bitsModel{size, map[int]bool{}}, &bitsModel{size, map[int]bool{}}
		checkBits(t, "new", a, ma)
		same, differ := 0, 0
		for k := 0; k < 40; k++ {
			i := bitsIndex(t.Rng, size)
			v := t.P(60)
			t.Info("size %d, bits %v and %v, then set %d to %v", size, ma, mb, i, v)
			if t.P(50) {
				a.Set(i, v)
				ma.set(i, v)
			} else if t.P(60) {
				b.Set(i, v)
				mb.set(i, v)
			} else {
				// bring them together in all but at most one bit
				skip := -1
				if t.P(50) {
					skip = bitsIndex(t.Rng, size)
				}
				for j := 0; j < size; j++ {
					if j != skip {
						b.Set(j, ma.ones[j])
						mb.set(j, ma.ones[j])
					}
				}
				if skip >= 0 && t.P(50) {
					b.Set(skip, !ma.ones[skip])
					mb.set(skip, !ma.ones[skip])
				}
			}
			if g := a.Get(i); g != ma.ones[i] {
				t.Fail("bit %d is %v, want the bits %v", i, g, ma)
			}
			want := ma.equal(mb)
			if a.Equal(b) != want || b.Equal(a) != want {
				t.Fail("equal says %v and %v, want %v", a.Equal(b), b.Equal(a), want)
			}
			if want {
				same++
			} else {
				differ++
			}
			t.Count("comparisons", 2)
		}
		checkBits(t, "after", a, ma)
		checkBits(t, "after", b, mb)
		if !a.Equal(a) {
			t.Fail("not equal to itself")
		}
		o := bitsSize(t.Rng)
		if x := sets.NewBits(o); o != size && (x.Equal(sets.NewBits(size)) || sets.NewBits(size).Equal(x)) {
			t.Fail("no bits of size %d equal those of size %d", o, size)
		}
		if same > 0 && differ > 0 {
			t.Nontrivial("bits", ma, mb)
		}
	})
	c.Run("counting", c.N(20000), func(t *T) {
		size := bitsSize(t.Rng)
		m := &bitsModel{size, map[int]bool{}}
		// a number of which the lowest bits are mostly ones
		low := t.Intn(size + 1)
		if t.P(30) {
			low = size - t.Intn(3)
		}
		if t.P(30) && size >= 64 {
			low = 64*(1+t.Intn(size/64)) - t.Intn(4)
		}
		for i := 0; i < low && i < size; i++ {
			m.set(i, true)
		}
		for k := t.Intn(5); k > 0; k-- {
			m.set(bitsIndex(t.Rng, size), t.P(50))
		}
		cur := newBits(t.Rng, m)
		carried := false
		for k := 0; k < 6; k++ {
			t.Info("next after %v", m)
			n := m.number()
			n.Add(n, big.NewInt(1))
			if n.BitLen() > size {
				break // there is no next one
			}
			next := &bitsModel{size, map[int]bool{}}
			for i := 0; i < size; i++ {
				next.set(i, n.Bit(i) == 1)
			}
			x := cur.Inc()
			checkBits(t, "the next one", x, next)
			checkBits(t, "the one before", cur, m)
			if x.Equal(cur) || !x.Equal(newBits(t.Rng, next)) {
				t.Fail("equal to the one before %v, equal to the same made by hand %v", x.Equal(cur), x.Equal(newBits(t.Rng, next)))
			}
			carried = carried || m.ones[0] && m.ones[1]
			cur, m = x, next
			t.Count("increments", 1)
		}
		if carried {
			t.Nontrivial("counting", m)
		}
	})
	c.Run("indexed", c.N(20000), func(t *T) {
		// the four kinds of sets that turn a value into a number
		var add, index func(k int) int
		var get func(i int) string
		var size func() int
		pool := 2 + t.Intn(12)
		keys := make([]string, pool) // what the values of the pool are
		kind := t.Intn(4)
		switch kind {
		case 0:
			s := sets.NewInts()
			val := make([][]int, pool)
			for k := range val {
				n := t.Intn(5)
				val[k] = make([]int, n)
				for i := range val[k] {
					val[k][i] = t.Intn(3) - 1
				}
				if k > 0 && len(val[k-1]) > 1 && t.P(30) { // collide with another one
					val[k] = append([]int{}, val[k-1]...)
					i := t.Intn(len(val[k]) - 1)
					val[k][i]++
					val[k][i+1] -= 31
				} else if k > 0 && t.P(40) { // share a beginning with another one
					val[k] = append(append([]int{}, val[k-1]...), t.Intn(3))
				}
				keys[k] = fmt.Sprint(val[k])
			}
			add = func(k int) int { return s.Add(append([]int{}, val[k]...)) }
			index = func(k int) int { return s.Index(append([]int{}, val[k]...)) }
			get = func(i int) string { return fmt.Sprint(s[i]) }
			size = func() int { return len(s) }
		case 1:
			s := sets.NewPairs()
			val := make([]sets.Pair, pool)
			for k := range val {
				val[k] = sets.Pair{First: t.Intn(4), Second: t.Intn(4)}
				if k > 0 && t.P(30) {
					val[k] = sets.Pair{First: val[k-1].Second, Second: val[k-1].First}
				}
				keys[k] = fmt.Sprint(val[k])
			}
			add = func(k int) int { return s.Add(val[k]) }
			index = func(k int) int { return s.Index(val[k]) }
			get = func(i int) string { return fmt.Sprint(s[i]) }
			size = func() int { return len(s) }
		case 2:
			s := sets.NewBitsSet()
			val := make([]*bitsModel, pool)
			n := bitsSize(t.Rng)
			for k := range val {
				if k > 0 && t.P(70) {
					val[k] = val[t.Intn(k)].clone()
					i := bitsIndex(t.Rng, val[k].size)
					val[k].set(i, !val[k].ones[i])
				} else {
					if t.P(10) {
						n = bitsSize(t.Rng)
					}
					val[k] = &bitsModel{n, map[int]bool{}}
				}
				keys[k] = val[k].String()
			}
			add = func(k int) int { return s.Add(newBits(t.Rng, val[k])) }
			index = func(k int) int { return s.Index(newBits(t.Rng, val[k])) }
			get = func(i int) string {
				for _, m := range val {
					if s[i].Equal(newBits(t.Rng, m)) {
						checkBits(t, "in the set", s[i], m)
						return m.String()
					}
				}
				return "none of those that were added"
			}
			size = func() int { return len(s) }
		case 3:
			s := sets.NewPatterns()
			ps := patternPool(t, 4)
			val := make([][]*ast.Pattern, pool)
			for k := range val {
				val[k] = pickPatterns(t.Rng, ps, t.Intn(4))
				if k > 0 && t.P(50) {
					o := val[t.Intn(k)]
					val[k] = nil
					for _, i := range t.Perm(len(o)) {
						val[k] = append(val[k], o[i])
					}
				}
				keys[k] = printPatterns(val[k])
			}
			list := func(k int) []*ast.Pattern {
				l := []*ast.Pattern{}
				for _, p := range val[k] {
					if t.P(50) {
						p = p.Clone()
					}
					l = append(l, p)
				}
				return l
			}
			add = func(k int) int { return s.Add(list(k)) }
			index = func(k int) int { return s.Index(list(k)) }
			get = func(i int) string { return printPatterns(s[i]) }
			size = func() int { return len(s) }
		}
		model := map[string]int{}
		var order []string
		var hist []string
		again, apart := 0, 0
		for n := 0; n < 30; n++ {
			k := t.Intn(pool)
			want, ok := model[keys[k]]
			if !ok {
				want = -1
			}
			if t.P(40) {
				hist = append(hist, "Index "+keys[k])
				t.Info("%s", strings.Join(hist, "\n"))
				if got := index(k); got != want {
					t.Fail("the index is %d, want %d", got, want)
				}
				continue
			}
			hist = append(hist, "Add "+keys[k])
			t.Info("%s", strings.Join(hist, "\n"))
			if want == -1 {
				want = len(order)
				model[keys[k]] = want
				order = append(order, keys[k])
				apart++
			} else {
				again++
			}
			if got := add(k); got != want {
				t.Fail("it was added as %d, want %d", got, want)
			}
			if size() != len(order) {
				t.Fail("the set holds %d, want %d", size(), len(order))
			}
			t.Count("added", 1)
		}
		for i, k := range order {
			if got := get(i); got != k {
				t.Fail("number %d is %s, want %s", i, got, k)
			}
		}
		if again > 0 && apart > 1 {
			t.Nontrivial("indexed", kind, strings.Join(hist, "\n"))
		}
	})
	c.Run("zipped", c.N(12000), func(t *T) {
		pool := patternPool(t, 6)
		list := pickPatterns(t.Rng, pool, t.Intn(9))
		if t.P(10) {
			list = pickPatterns(t.Rng, pool, 60+t.Intn(400))
		}
		before := printPatterns(list)
		t.Info("zipped: %s", before)
		zs, is := sets.Zip(list)
		checkZipped(t, before, len(list), len(zs), is,
			func(i int) string { return exactKey(list[i]) },
			func(i int) string { return exactKey(zs[i]) })
		if now := printPatterns(list); now != before {
			t.Fail("the list that was given became %s", now)
		}
		back := sets.Unzip(zs, is)
		if got := printPatterns(back); got != before {
			t.Fail("unzipped it is %s", got)
		}
		// the bits
		m := &bitsModel{len(zs), map[int]bool{}}
		for i := 0; i < len(zs); i++ {
			m.set(i, t.P(50))
		}
		bools := sets.UnzipBits(newBits(t.Rng, m), is)
		if len(bools) != len(list) {
			t.Fail("%d bits for %d patterns", len(bools), len(list))
		}
		for i, p := range list {
			want := p.ZAny != nil
			if is[i] >= 0 {
				want = m.ones[is[i]]
			}
			if bools[i] != want {
				t.Fail("bit %d is %v, want %v", i, bools[i], want)
			}
		}
		if len(zs) > 1 && len(zs) < len(list) {
			t.Nontrivial("zipped", before)
		}
	})
	c.Run("interned", c.N(7000), func(t *T) {
		con := intern.NewConstructor()
		if t.P(30) {
			con = intern.NewConstructorOptimizedForRecords()
		}
		var pool []*intern.Pattern
		for _, p := range patternPool(t, 6) {
			ip, err := con.NewPattern(p)
			if err != nil {
				t.Fail("interning %s: %v", p.String(), err)
			}
			pool = append(pool, ip)
		}
		key := map[*intern.Pattern]string{}
		for _, p := range pool {
			key[p] = internKey(p)
		}
		for _, p := range pool {
			for _, q := range pool {
				if p.Equal(q) != (key[p] == key[q]) {
					t.Fail("equal says %v of\n%s\nand\n%s", p.Equal(q), key[p], key[q])
				}
				t.Count("comparisons", 1)
			}
		}
		set := intern.NewSetOfPatterns()
		model := map[string]int{}
		var hist []string
		again, apart := false, false
		keyOf := func(ps []*intern.Pattern) string {
			var ks []string
			for _, p := range ps {
				ks = append(ks, internKey(p))
			}
			return fmt.Sprintf("[%d] ", len(ps)) + strings.Join(ks, " , ")
		}
		content := map[int]string{}
		var lists [][]*intern.Pattern
		for n := 0; n < 12; n++ {
			list := []*intern.Pattern{}
			if len(lists) > 0 && t.P(40) {
				list = append(list, lists[t.Intn(len(lists))]...)
				if t.P(40) && len(list) > 0 { // and one that is almost the same
					list[t.Intn(len(list))] = pool[t.Intn(len(pool))]
				}
			} else {
				k := t.Intn(6)
				if t.P(5) {
					k = 63 + t.Intn(10)
				}
				for ; k > 0; k-- {
					list = append(list, pool[t.Intn(len(pool))])
				}
			}
			lists = append(lists, append([]*intern.Pattern{}, list...))
			k := keyOf(list)
			hist = append(hist, k)
			t.Info("added, the last one now:\n%s", strings.Join(hist, "\n"))
			i := set.Add(list)
			if keyOf(list) != k {
				t.Fail("the list that was given became %s", keyOf(list))
			}
			if was, ok := model[k]; ok {
				again = true
				if i != was {
					t.Fail("it was added as %d, and before as %d", i, was)
				}
			} else if c, ok := content[i]; ok {
				t.Fail("it was added as %d, which is %s", i, c)
			} else {
				apart = apart || len(model) > 0
			}
			// what the set knows about each of its lists
			for j, ps := range set.List {
				pk := keyOf(ps.Patterns)
				if c, ok := content[j]; ok && c != pk {
					t.Fail("number %d became %s from %s", j, pk, c)
				}
				if o, ok := model[pk]; ok && o != j {
					t.Fail("%s is both number %d and %d", pk, o, j)
				}
				fresh := content[j] == ""
				content[j], model[pk] = pk, j
				if !fresh && !t.P(20) {
					continue
				}
				if set.Get(j) != ps || ps.Index != j {
					t.Fail("number %d thinks that it is number %d", j, ps.Index)
				}
				null := set.SetOfBits[ps.NullIndex]
				for x, p := range ps.Patterns {
					if null.Get(x) != p.Nullable() {
						t.Fail("the bit of pattern %d of number %d is %v, want %v", x, j, null.Get(x), p.Nullable())
					}
				}
				nm := &bitsModel{len(ps.Patterns), map[int]bool{}}
				for x, p := range ps.Patterns {
					nm.set(x, p.Nullable())
				}
				if !null.Equal(newBits(t.Rng, nm)) {
					t.Fail("the bits of number %d have another size", j)
				}
				if want := len(ps.Patterns) == 1 && ps.Patterns[0].Nullable(); ps.Accept != want {
					t.Fail("number %d accepts: %v, want %v", j, ps.Accept, want)
				}
				zs := set.List[ps.IndexOfZippedPatterns].Patterns
				is := set.SetOfZipIndexes[ps.IndexOfZippedIndexes]
				checkZipped(t, pk, len(ps.Patterns), len(zs), is,
					func(i int) string { return internKey(ps.Patterns[i]) },
					func(i int) string { return internKey(zs[i]) })
				z := &intern.ZippedPatterns{Patterns: zs, Indexes: is}
				if got := keyOf(z.Unzip()); got != pk {
					t.Fail("number %d unzipped is %s, want %s", j, got, pk)
				}
				t.Count("lists", 1)
			}
			if keyOf(set.Get(i).Patterns) != k {
				t.Fail("number %d is %s", i, keyOf(set.Get(i).Patterns))
			}
		}
		if again && apart {
			t.Nontrivial("interned", strings.Join(hist, "\n"))
		}
	})
}

// checkZipped compares a list with its zipped form.
func checkZipped(t *T, what string, n, zn int, is []int, key, zkey func(int) string) {
	any, none := keyAny, keyNone
	if len(is) != n {
		t.Fail("%d numbers for %d patterns: %s", len(is), n, what)
	}
	used := map[int]bool{}
	for i, x := range is {
		want := key(i)
		got := ""
		switch {
		case x == -1:
			got = any
		case x == -2:
			got = none
		case x >= 0 && x < zn:
			got = zkey(x)
			if got == any || got == none {
				t.Fail("what needs no place has one: number %d of %s", i, what)
			}
			used[x] = true
		}
		if got != want {
			t.Fail("number %d, which is %s, became place %d, which holds %q: %s", i, want, x, got, what)
		}
	}
	if len(used) != zn {
		t.Fail("%d places, of which %d are used: %s", zn, len(used), what)
	}
	t.Count("zipped places", zn)
}

const keyAny, keyNone = "any", "not(any)"

func exactKey(p *ast.Pattern) string {
	if p.ZAny != nil {
		return keyAny
	}
	if p.Not != nil && p.Not.Pattern.ZAny != nil {
		return keyNone
	}
	return p.String()
}

func printPatterns(ps []*ast.Pattern) string {
	var ss []string
	for _, p := range ps {
		ss = append(ss, exactKey(p))
	}
	return fmt.Sprintf("[%d] ", len(ps)) + strings.Join(ss, " , ")
}

func internKey(p *intern.Pattern) string {
	if p.Type == intern.ZAny {
		return keyAny
	}
	if p.Type == intern.Not && p.Patterns[0].Type == intern.ZAny {
		return keyNone
	}
	var s strings.Builder
	fmt.Fprintf(&s, "%d", int(p.Type))
	if p.Ref != "" {
		fmt.Fprintf(&s, "@%q", p.Ref)
	}
	if p.Func != nil {
		fmt.Fprintf(&s, "{%s}", p.Func.String())
	}
	if len(p.Patterns) > 0 {
		s.WriteString("(")
		for i, q := range p.Patterns {
			if i > 0 {
				s.WriteString(" ")
			}
			s.WriteString(internKey(q))
		}
		s.WriteString(")")
	}
	return s.String()
}

func pickPatterns(r *Rng, pool []*ast.Pattern, n int) []*ast.Pattern {
	l := make([]*ast.Pattern, n)
	for i := range l {
		l[i] = pool[r.Intn(len(pool))]
	}
	return l
}

// patternPool makes patterns, many of which have the hash of another one.
func patternPool(t *T, n int) []*ast.Pattern {
	names := []string{"AaAa", "AaBB", "BBAa", "BBBB", "AaCC", "CCAa"}
	var ps []*P
	gs := gramStyle{total: true}
	for k := 0; k < n; k++ {
		p := genPat(t.Rng, gs, t.Intn(3), false)
		ps = append(ps, p)
	}
	for k := 0; k < n; k++ {
		name := names[t.Intn(len(names))]
		var q *P
		switch t.Intn(5) {
		case 0:
			q = pLeaf(&E{Kind: 'b', Op: "eq", Args: []*E{{Kind: 's', Op: "var"}, {Kind: 's', Op: "const", C: name}}})
		case 1:
			q = pOp("concat", pNode(nStr(name), pAny()), pNode(nStr(names[t.Intn(len(names))]), pAny()))
		case 2:
			q = pOp("or", pNode(nStr(name), pEmpty()), pNode(nStr(names[t.Intn(len(names))]), pAny()))
		default:
			q = pNode(nStr(name), pAny())
		}
		if t.P(15) {
			q = pOp([]string{"star", "opt", "not", "contains"}[t.Intn(4)], q)
		}
		ps = append(ps, q)
	}
	if t.P(60) {
		ps = append(ps, pAny())
	}
	if t.P(60) {
		ps = append(ps, pNone())
	}
	if t.P(30) {
		ps = append(ps, pEmpty())
	}
	var out []*ast.Pattern
	for _, i := range t.Perm(len(ps)) {
		out = append(out, ast.NewRefLookup(mustParse(t, newG(ps[i]).text(nil)))["main"])
	}
	return out
}
