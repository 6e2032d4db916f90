package main

import (
	"bytes"
	"reflect"
	"strings"
)

// Documents of all sizes: an Rng with room for large choices now and then makes
// a list, a string or a nesting that is much longer than the usual ones, past
// the sizes at which a byte, a varint, a buffer or a small table is full.

var largeSizes = []int{33, 40, 65, 70, 100, 127, 128, 130, 200, 255, 256, 257, 300, 511, 513, 700, 1025, 2050, 4090, 4100, 8200, 16380, 16390, 33000, 66000}

// large is a large size that is at most max.
func (r *Rng) large(max int) int {
	n := 0
	for n < len(largeSizes) && largeSizes[n] <= max {
		n++
	}
	if n == 0 {
		return max
	}
	s := largeSizes[r.Intn(n)]
	if r.P(50) && s < max {
		s += r.Intn(min(s/2+1, max-s))
	}
	return s
}

// some is a number below n, or a large one if there is still room for one.
func (r *Rng) some(n int) int {
	if r.big > 0 && r.P(35) {
		r.big--
		return r.large(r.bigMax)
	}
	return r.Intn(n)
}

// somePos is a number of at least one.
func (r *Rng) somePos(n int) int {
	if r.big > 0 {
		return max(1, r.some(n+1))
	}
	return 1 + r.Intn(n)
}

// grow makes room for n large choices of at most max.
func (r *Rng) grow(n, max int) { r.big, r.bigMax = n, max }

// small turns large choices off while f runs, inside of a list with n elements.
func (r *Rng) inside(n int, f func()) {
	if n <= 32 {
		f()
		return
	}
	big := r.big
	r.big = 0
	f()
	r.big = big
}

// longString has a large number of characters.
func longString(r *Rng, n int, chars []rune) string {
	var b strings.Builder
	k := 0
	for i := 0; i < n; i++ {
		if i%7 == 0 {
			k = r.Intn(len(chars))
		}
		b.WriteRune(chars[(k+i)%len(chars)])
	}
	return b.String()
}

var longChars = []rune("abcdefghijklmnopqrstuvwxyzABCXYZ0123456789 ,.{}[]\"\\/<>&'éü€😀\n\t")

// below is the depth for the elements of a list with n elements.
func below(depth, n int) int {
	switch {
	case n > 2000:
		return 0
	case n > 32:
		return min(depth-1, 1)
	}
	return depth - 1
}

// deepSource makes a document of the format that is nested depth deep.
func deepSource(r *Rng, format string, depth int) *source {
	switch format {
	case "json":
		j := genJ(r, 1)
		for ; depth > 0; depth-- {
			if r.P(50) {
				j = &J{kind: '[', kids: []*J{j}}
			} else {
				j = &J{kind: '{', keys: []string{genString(r)}, kids: []*J{j}}
			}
			for r.P(20) {
				j.kids = append(j.kids, genJ(r, 0))
				if j.kind == '{' {
					j.keys = append(j.keys, genString(r))
				}
			}
		}
		return jsonSource(j.text(r), Doc(j.nodes()))
	case "xml":
		x := genX(r, 1, nil)
		for ; depth > 0; depth-- {
			n := genX(r, 0, nil)
			n.kids = append(n.kids, x)
			if r.P(20) {
				n.kids = append(n.kids, genX(r, 0, nil))
			}
			x = n
		}
		var b bytes.Buffer
		x.write(r, &b)
		o := genXMLOpts(r)
		return xmlSource(b.Bytes(), Doc(x.nodes(o)), o)
	case "yaml":
		y := genY(r, 1, false)
		for ; depth > 0; depth-- {
			if y.kind == '{' && len(y.kids) == 1 && r.P(40) {
				y = &Y{kind: '[', kids: []*Y{y}}
				for r.P(20) {
					y.kids = append(y.kids, yScalar(r, true))
				}
				continue
			}
			y = &Y{kind: '{', keys: []string{yKey(r)}, kids: []*Y{y}}
			if r.P(20) {
				y.keys, y.kids = append(y.keys, yKey(r)), append(y.kids, yScalar(r, false))
			}
		}
		if y.kind != '{' && y.kind != '[' {
			y = &Y{kind: '{', keys: []string{yKey(r)}, kids: []*Y{y}}
		}
		return yamlSource(y.write(r), Doc(y.nodes()))
	case "proto":
		f, m := deepProto(r, depth)
		return f.sourceOf(m, wireStyle{Rng: r}.msg(m))
	}
	return reflectSource(deepGo(r, depth))
}

func deepProto(r *Rng, depth int) (*pFamily, *PM) {
	t := &PT{pkg: "p", name: "M0"}
	one := &PF{name: "A", num: 1 + r.Intn(40), kind: kMessage, msg: t}
	many := &PF{name: "B", num: 50 + r.Intn(4000), kind: kMessage, msg: t, rep: true}
	t.fields = append(pFields(r, nil, 3, 5000, "X"), one, many)
	f := &pFamily{ts: []*PT{t}, root: t, set: fileSet(nil, []*PT{t})}
	m := genPM(r, t, 0)
	for ; depth > 0; depth-- {
		n := genPM(r, t, 0)
		v := &PV{f: one}
		if r.P(50) {
			v.f = many
		}
		v.msgs = append(v.msgs, m)
		if v.f == many && r.P(20) {
			v.msgs = append(v.msgs, genPM(r, t, 0))
		}
		k := r.Intn(len(n.vs) + 1)
		n.vs = append(n.vs[:k:k], append([]*PV{v}, n.vs[k:]...)...)
		m = n
	}
	return f, m
}

func deepGo(r *Rng, depth int) reflect.Value {
	g := &goRec{}
	fillGo(r, reflect.ValueOf(g).Elem(), 2)
	for ; depth > 0; depth-- {
		n := &goRec{}
		fillGo(r, reflect.ValueOf(n).Elem(), 1)
		switch r.Intn(3) {
		case 0:
			n.B = g
		case 1:
			n.C = []*goRec{g, {}}
		case 2:
			n.D = []goRec{{A: 1}, *g}
		}
		g = n
	}
	return reflect.ValueOf(g)
}

// largeSource makes a large or a deep document of the format.
func largeSource(r *Rng, format string, max int) *source {
	if r.P(25) {
		d := r.large(min(max, map[string]int{"yaml": 130, "reflect": 260}[format]))
		if format != "yaml" && format != "reflect" {
			d = r.large(min(max, 700))
		}
		return deepSource(r, format, d)
	}
	defer func() { r.big = 0 }()
	r.grow(1+r.Intn(3), max)
	for _, f := range formats {
		if f.name == format {
			return f.gen(r, 1)[0]
		}
	}
	panic("format")
}

func large(c *Ctx, format string, n int) {
	c.Run("large", c.N(n), func(t *T) {
		s := largeSource(t.Rng, format, 66000)
		t.Count("large_nodes", s.doc.count())
		fullCase(t, s)
	})
}
