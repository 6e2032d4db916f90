package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/katydid/katydid/parser"

	descriptor "github.com/gogo/protobuf/protoc-gen-gogo/descriptor"
)

func init() {
	register("P24", &check{
		rule: "distinct grammars for which one record was accepted and another rejected, each in every format",
		run:  runP24,
	})
}

// RT is the type of a record, independent of any format.
type RT struct {
	id     int
	fields []*RF
}

type RF struct {
	name string
	kind byte // s b i u d m
	wire descriptor.FieldDescriptorProto_Type
	rep  bool
	sub  *RT
}

type rtGen struct {
	*Rng
	kinds   map[string]byte // of every name
	all     []*RT
	noArray bool
	words   bool
	empties bool // some lists are empty
}

func newRTGen(r *Rng, plain, words bool) *rtGen {
	g := &rtGen{Rng: r, kinds: map[string]byte{}, words: words, noArray: words && r.P(60)}
	ks := "ssbmmiud"
	if plain {
		ks = "sssbmm"
	}
	if words {
		ks = "smm"
	}
	for _, n := range []string{"A", "B", "C", "D", "E"} {
		g.kinds[n] = ks[r.Intn(len(ks))]
	}
	return g
}

var rWire = map[byte][]descriptor.FieldDescriptorProto_Type{
	's': {kString}, 'b': {kBool}, 'm': {kMessage}, 'd': {kDouble, kDouble, kFloat},
	'i': {kInt64, kInt32, kSint32, kSint64, kSfixed32, kSfixed64},
	'u': {kUint64, kUint32, kFixed32, kFixed64},
}

func (g *rtGen) typ(depth int) *RT {
	t := &RT{id: len(g.all)}
	g.all = append(g.all, t)
	names := []string{"A", "B", "C", "D", "E"}
	n := 1 + g.Intn(4)
	for _, i := range g.Perm(len(names))[:n] {
		f := &RF{name: names[i], kind: g.kinds[names[i]], rep: !g.noArray && g.P(30)}
		f.wire = rWire[f.kind][g.Intn(len(rWire[f.kind]))]
		if f.kind == 'm' {
			if depth <= 0 {
				continue
			}
			f.sub = g.typ(depth - 1)
			if g.words {
				f.rep = false
			}
		}
		t.fields = append(t.fields, f)
	}
	return t
}

func (g *rtGen) val(f *RF) []*Node {
	switch f.kind {
	case 's':
		if g.words {
			return []*Node{leaf(vS(g.Pick("a", "b", "ab", "abc", "x", "A")))}
		}
		if n := g.some(1); n > 0 {
			return []*Node{leaf(vS(longString(g.Rng, n, longChars)))}
		}
		return []*Node{leaf(vS(vocabStr[g.Intn(len(vocabStr))]))}
	case 'b':
		return []*Node{leaf(vB(g.P(50)))}
	case 'i':
		return []*Node{leaf(vI(vocabInt[g.Intn(len(vocabInt))]))}
	case 'u':
		return []*Node{leaf(vU(uint64(uint32(vocabUint[g.Intn(len(vocabUint))]))))}
	case 'd':
		d := vocabDouble[g.Intn(len(vocabDouble))]
		if f.wire == kFloat {
			d = float64(float32(d))
		}
		return []*Node{leaf(vD(d))}
	}
	return g.rec(f.sub)
}

func (g *rtGen) rec(t *RT) []*Node {
	ns := []*Node{}
	for _, f := range t.fields {
		if g.P(20) {
			continue
		}
		if !f.rep {
			v := g.val(f)
			if g.words && len(v) == 0 {
				continue // text formats have no empty records
			}
			ns = append(ns, field(f.name, v...))
			continue
		}
		n := field(f.name)
		i := g.some(3)
		if g.empties && g.P(30) {
			i = -1
		}
		for ; i >= 0; i-- {
			n.Kids = append(n.Kids, index(len(n.Kids), g.val(f)...))
		}
		ns = append(ns, n)
	}
	return ns
}

func (t *RT) find(name string) *RF {
	for _, f := range t.fields {
		if f.name == name {
			return f
		}
	}
	panic("harness: no field " + name)
}

// ---- renderings

func rScalar(v Val) string {
	switch {
	case v.HasS:
		return v.S
	case v.HasI:
		return strconv.FormatInt(v.I, 10)
	case v.HasU:
		return strconv.FormatUint(v.U, 10)
	case v.HasD:
		return strconv.FormatFloat(v.D, 'g', -1, 64)
	}
	return strconv.FormatBool(v.B)
}

func (t *RT) json(ns []*Node) *J {
	j := &J{kind: '{'}
	scalar := func(v Val) *J {
		switch {
		case v.HasS:
			return &J{kind: '"', str: v.S}
		case v.HasB && v.B:
			return &J{kind: 't'}
		case v.HasB:
			return &J{kind: 'f'}
		}
		return &J{kind: '#', num: rScalar(v)}
	}
	elem := func(f *RF, kids []*Node) *J {
		if f.kind == 'm' {
			return f.sub.json(kids)
		}
		return scalar(kids[0].V)
	}
	for _, n := range ns {
		f := t.find(n.V.S)
		j.keys = append(j.keys, f.name)
		if !f.rep {
			j.kids = append(j.kids, elem(f, n.Kids))
			continue
		}
		a := &J{kind: '['}
		for _, k := range n.Kids {
			a.kids = append(a.kids, elem(f, k.Kids))
		}
		j.kids = append(j.kids, a)
	}
	return j
}

func (t *RT) yaml(ns []*Node) *Y {
	y := &Y{kind: '{'}
	elem := func(f *RF, kids []*Node) *Y {
		if f.kind == 'm' {
			return f.sub.yaml(kids)
		}
		return &Y{kind: 's', text: kids[0].V.S, val: kids[0].V}
	}
	for _, n := range ns {
		f := t.find(n.V.S)
		y.keys = append(y.keys, f.name)
		if !f.rep {
			y.kids = append(y.kids, elem(f, n.Kids))
			continue
		}
		a := &Y{kind: '['}
		for _, k := range n.Kids {
			a.kids = append(a.kids, elem(f, k.Kids))
		}
		y.kids = append(y.kids, a)
	}
	return y
}

// emptyLists says whether there is an empty list, which only some formats have.
func (t *RT) emptyLists(ns []*Node) bool {
	for _, n := range ns {
		f := t.find(n.V.S)
		if f.rep && len(n.Kids) == 0 {
			return true
		}
		if f.kind != 'm' {
			continue
		}
		if !f.rep {
			if f.sub.emptyLists(n.Kids) {
				return true
			}
			continue
		}
		for _, k := range n.Kids {
			if f.sub.emptyLists(k.Kids) {
				return true
			}
		}
	}
	return false
}

func xmlText(ns []*Node, b *strings.Builder) {
	for _, n := range ns {
		if n.Leaf {
			b.WriteString(n.V.S)
			continue
		}
		b.WriteString("<" + n.V.S + ">")
		xmlText(n.Kids, b)
		b.WriteString("</" + n.V.S + ">")
	}
}

func (g *rtGen) protoTypes(r *Rng) map[*RT]*PT {
	ts := map[*RT]*PT{}
	for _, t := range g.all {
		ts[t] = &PT{pkg: "p", name: fmt.Sprintf("R%d", t.id)}
	}
	for _, t := range g.all {
		for i, f := range t.fields {
			pf := &PF{name: f.name, num: 1 + i + 3*r.Intn(2), kind: f.wire, rep: f.rep}
			for dup := true; dup; {
				dup = false
				for _, o := range ts[t].fields {
					if o.num == pf.num {
						pf.num++
						dup = true
					}
				}
			}
			if f.kind == 'm' {
				pf.msg = ts[f.sub]
			}
			pf.packed = pf.canPack() && r.P(50)
			ts[t].fields = append(ts[t].fields, pf)
		}
	}
	return ts
}

func (t *RT) pm(ns []*Node, ts map[*RT]*PT) *PM {
	m := &PM{t: ts[t]}
	for _, n := range ns {
		f := t.find(n.V.S)
		var pf *PF
		for _, o := range ts[t].fields {
			if o.name == f.name {
				pf = o
			}
		}
		v := &PV{f: pf, wraps: pf.packed}
		add := func(kids []*Node) {
			if f.kind == 'm' {
				v.msgs = append(v.msgs, f.sub.pm(kids, ts))
			} else {
				v.vals = append(v.vals, kids[0].V)
			}
		}
		if f.rep {
			for _, k := range n.Kids {
				add(k.Kids)
			}
		} else {
			add(n.Kids)
		}
		m.vs = append(m.vs, v)
	}
	return m
}

func (t *RT) goType(r *Rng, memo map[*RT]reflect.Type) reflect.Type {
	if g, ok := memo[t]; ok {
		return g
	}
	var fs []reflect.StructField
	for _, f := range t.fields {
		var ft reflect.Type
		switch f.kind {
		case 's':
			ft = reflect.TypeOf("")
		case 'b':
			ft = reflect.TypeOf(false)
		case 'i':
			ft = reflect.TypeOf([]interface{}{int64(0), int32(0)}[r.Intn(2)])
		case 'u':
			ft = reflect.TypeOf([]interface{}{uint64(0), uint32(0)}[r.Intn(2)])
		case 'd':
			ft = reflect.TypeOf(float64(0))
			if f.wire == kFloat {
				ft = reflect.TypeOf(float32(0))
			}
		case 'm':
			ft = f.sub.goType(r, memo)
		}
		if f.rep {
			if r.P(50) {
				ft = reflect.PtrTo(ft)
			}
			ft = reflect.SliceOf(ft)
		} else {
			ft = reflect.PtrTo(ft)
		}
		fs = append(fs, reflect.StructField{Name: f.name, Type: ft})
	}
	g := reflect.StructOf(fs)
	memo[t] = g
	return g
}

func (t *RT) fill(v reflect.Value, ns []*Node) {
	for _, n := range ns {
		f := t.find(n.V.S)
		dst := v.FieldByName(f.name)
		set := func(d reflect.Value, kids []*Node) {
			if d.Kind() == reflect.Ptr {
				d.Set(reflect.New(d.Type().Elem()))
				d = d.Elem()
			}
			if f.kind == 'm' {
				f.sub.fill(d, kids)
				return
			}
			x := kids[0].V
			switch f.kind {
			case 's':
				d.SetString(x.S)
			case 'b':
				d.SetBool(x.B)
			case 'i':
				d.SetInt(x.I)
			case 'u':
				d.SetUint(x.U)
			case 'd':
				d.SetFloat(x.D)
			}
		}
		if !f.rep {
			set(dst, n.Kids)
			continue
		}
		dst.Set(reflect.MakeSlice(dst.Type(), len(n.Kids), len(n.Kids)))
		for i, k := range n.Kids {
			set(dst.Index(i), k.Kids)
		}
	}
}

// ---- grammars that look at a value only as what it is

// typed replaces the expressions that look at a value in another way than its
// field says.
func (g *rtGen) typed(p *P, ctx byte) *P {
	q := *p
	switch p.Op {
	case "leaf":
		if ctx == 0 || ctx == 'm' || !onlyVar(p.E, ctx) {
			if ctx != 0 && ctx != 'm' && g.P(70) {
				return pLeaf(eFn('b', g.Pick("eq", "eq", "ne"), eVar(ctx), genConst(g.Rng, ctx)))
			}
			return pAny()
		}
		return &q
	case "node":
		c := byte(0)
		if n := p.Name; n.Op == "lit" && n.Kind == 's' {
			c = g.kinds[n.C.(string)]
		} else if ctx != 0 {
			c = ctx // an element of an array
		}
		q.Name = typedName(p.Name, ctx)
		q.Kids = []*P{g.typed(p.Kids[0], c)}
		return &q
	}
	q.Kids = nil
	for _, k := range p.Kids {
		q.Kids = append(q.Kids, g.typed(k, ctx))
	}
	return &q
}

// typedName replaces the literals that could look at a number in another way
// than its field says; names are also compared with values.
func typedName(n *N, ctx byte) *N {
	if n == nil {
		return nil
	}
	if n.Op == "lit" && n.Kind != 's' && n.Kind != ctx && !(n.Kind == 'i' && (ctx == 's' || ctx == 'b' || ctx == 'm')) {
		return nAny()
	}
	m := *n
	m.L, m.R = typedName(n.L, ctx), typedName(n.R, ctx)
	return &m
}

func onlyVar(e *E, k byte) bool {
	if e.Op == "var" {
		return e.Kind == k
	}
	for _, a := range e.Args {
		if !onlyVar(a, k) {
			return false
		}
	}
	return true
}

// noVals says whether names look at labels only as strings or indexes.
func plainNames(g *G) bool {
	ok := true
	var rec func(n *N)
	rec = func(n *N) {
		if n == nil {
			return
		}
		if n.Op == "lit" && n.Kind != 's' && n.Kind != 'i' {
			ok = false
		}
		rec(n.L)
		rec(n.R)
	}
	g.walk(func(p *P) {
		if p.Op == "node" {
			rec(p.Name)
		}
	})
	return ok
}

// looksOtherwise says whether a name of the grammar is the value of a number in
// the record but of another kind: some formats give numbers as all kinds.
func looksOtherwise(g *G, d Doc) bool {
	type num struct {
		kind byte
		v    float64
	}
	var names []num
	var rec func(n *N)
	rec = func(n *N) {
		if n == nil {
			return
		}
		if n.Op == "lit" {
			switch x := n.C.(type) {
			case int64:
				names = append(names, num{'i', float64(x)})
			case uint64:
				names = append(names, num{'u', float64(x)})
			case float64:
				names = append(names, num{'d', x})
			}
		}
		rec(n.L)
		rec(n.R)
	}
	g.walk(func(p *P) {
		if p.Op == "node" {
			rec(p.Name)
		}
	})
	var in func(ns []*Node) bool
	in = func(ns []*Node) bool {
		for _, n := range ns {
			for _, m := range names {
				if n.V.HasI && m.kind != 'i' && float64(n.V.I) == m.v ||
					n.V.HasU && m.kind != 'u' && float64(n.V.U) == m.v ||
					n.V.HasD && m.kind != 'd' && n.V.D == m.v {
					return true
				}
			}
			if in(n.Kids) {
				return true
			}
		}
		return false
	}
	return in(d)
}

func runP24(c *Ctx) {
	body := func(plain, words bool, most int) func(t *T) {
		return func(t *T) {
			rg := newRTGen(t.Rng, plain, words)
			rg.empties = !words && t.P(30)
			root := rg.typ(3)
			if words {
				// one root element
				rg.noArray = true
				root = &RT{id: len(rg.all), fields: []*RF{{name: "R", kind: 'm', wire: kMessage, sub: root}}}
				rg.all = append(rg.all, root)
			}
			var docs []Doc
			for k := 0; k < 4; k++ {
				if most > 25 {
					t.grow(1, most)
				}
				d := Doc(rg.rec(root))
				t.big = 0
				if words && len(d) == 0 {
					continue
				}
				docs = append(docs, d)
			}
			if len(docs) == 0 {
				return
			}
			g := grammarFor(t.Rng, gramStyle{total: true}, docs[0], 24)
			if !plain || words {
				for n, p := range g.Decls {
					g.Decls[n] = rg.typed(p, 0)
				}
			}
			if words && !plainNames(g) {
				return
			}
			text := g.text(t.Rng)
			ts := rg.protoTypes(t.Rng)
			var pts []*PT
			for _, r := range rg.all {
				pts = append(pts, ts[r])
			}
			fam := &pFamily{ts: pts, root: ts[root], set: fileSet(nil, pts)}
			gt := root.goType(t.Rng, map[*RT]reflect.Type{})
			a := mustParse(t, text)
			var es []engine
			if m, err := newMem(a); err != nil {
				t.Fail("refused: %v\ngrammar: %s", err, text)
			} else {
				es = append(es, engine{"mem", m})
			}
			if t.P(20) {
				es = append(es, engine{"interp", interpV(a)}, engine{"intern", internV(a, false)})
			}
			var seen [2]bool
			for _, d := range docs {
				if looksOtherwise(g, d) {
					t.Count("skipped_numbers_in_names", 1)
					continue
				}
				pm := root.pm(d, ts)
				wire := wireStyle{Rng: t.Rng, pad: []int{0, 0, 10}[t.Intn(3)], unknown: []int{0, 0, 10}[t.Intn(3)]}.msg(pm)
				gv := reflect.New(gt)
				root.fill(gv.Elem(), d)
				ss := []*source{jsonSource(root.json(d).text(t.Rng), d), fam.sourceOf(pm, wire), reflectSource(gv)}
				if root.emptyLists(d) {
					// protobuf cannot tell them from no list
					ss = []*source{ss[0], ss[2]}
					t.Count("records_with_empty_lists", 1)
				} else if !equalDocs(ss[1].doc, d) {
					t.Fail("harness: renderings differ: %v, %v", d, ss[1].doc)
				}
				if last := ss[len(ss)-1]; !equalDocs(last.doc, d) {
					t.Fail("harness: renderings differ: %v, %v", d, last.doc)
				}
				if words {
					ss = append(ss, yamlSource(root.yaml(d).write(t.Rng), d))
					if rg.noArrays(d) {
						var b strings.Builder
						xmlText(d, &b)
						ss = append(ss, xmlSource([]byte(b.String()), d, xmlOpts{}))
					}
				}
				for _, e := range es {
					t.Info("grammar: %s\nrecord: %v", text, d)
					want, _ := run(e.v, d)
					var rv, certain bool
					var rerr error
					if most < 25 {
						rv, certain, rerr = refVerdict(g, d)
					}
					if certain && rerr == nil {
						if want.err != nil || want.ok != rv {
							t.Fail("%s gives %v for the record itself, the meaning of the grammar is %v\ngrammar: %s\nrecord: %v", e.name, want, rv, text, d)
						}
					}
					for _, s := range ss {
						p, err := s.fresh()
						if err != nil {
							t.Fail("%s parser refuses the record: %v\n%s", s.format, err, s.text)
						}
						got := runParser(e.v, p)
						if (got.err == nil) != (want.err == nil) || got.ok != want.ok {
							t.Fail("%s gives %v for the record and %v for the same record as %s\ngrammar: %s\nrecord: %v\n%s: %s", e.name, want, got, s.format, text, d, s.format, s.text)
						}
						t.Count("verdicts_"+s.format, 1)
					}
					if want.err == nil {
						seen[map[bool]int{true: 1}[want.ok]] = true
					}
				}
			}
			if seen[0] && seen[1] {
				t.Nontrivial(text)
				t.Sample("%s for %v", text, docs[0])
			}
		}
	}
	c.Run("strings", c.N(8000), body(true, false, 3))
	c.Run("typed", c.N(8000), body(false, false, 3))
	c.Run("words", c.N(8000), body(true, true, 3))
	c.Run("large", c.N(100), body(false, false, 17000))
	c.Run("large-words", c.N(100), body(true, true, 2000))
}

func runParser(v validator, p parser.Interface) verdict {
	ok, err := v.Validate(p)
	return verdict{ok, err}
}

func (g *rtGen) noArrays(ns []*Node) bool {
	for _, n := range ns {
		if n.V.HasI || !g.noArrays(n.Kids) {
			return false
		}
	}
	return true
}
