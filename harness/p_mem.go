package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/katydid/katydid/relapse/auto"
	"github.com/katydid/katydid/relapse/mem"
)

func init() {
	register("P42", &check{
		rule: "a case is one grammar with blocks of children that are repeated; non-trivial when repeating a block two to eight times still adds to what the validator retains, distinct by the text of the grammar",
		run:  runP42,
	})
}

// retained counts what is reachable from v: the elements of lists, the entries
// of maps and the structures.  What belongs to the harness, as the parser that
// a variable was last given, is left out.
func retained(v interface{}) int {
	type key struct {
		p uintptr
		t reflect.Type
	}
	seen := map[key]bool{}
	n := 0
	var walk func(v reflect.Value)
	var flat func(t reflect.Type) bool
	flat = func(t reflect.Type) bool {
		switch t.Kind() {
		case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Interface, reflect.Struct, reflect.Array, reflect.Chan, reflect.Func, reflect.UnsafePointer:
			return false
		}
		return true
	}
	walk = func(v reflect.Value) {
		t := v.Type()
		if strings.HasPrefix(t.PkgPath(), "main") {
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || t.Elem().PkgPath() == "main" {
				return
			}
			k := key{v.Pointer(), t}
			if seen[k] {
				return
			}
			seen[k] = true
			n++
			walk(v.Elem())
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Slice:
			if v.IsNil() {
				return
			}
			n += v.Len()
			if flat(t.Elem()) {
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Map:
			if v.IsNil() {
				return
			}
			k := key{v.Pointer(), t}
			if seen[k] {
				return
			}
			seen[k] = true
			n += v.Len()
			for it := v.MapRange(); it.Next(); {
				walk(it.Key())
				walk(it.Value())
			}
		case reflect.String:
			n += v.Len() / 16
		}
	}
	walk(reflect.ValueOf(v))
	return n
}

func repeat(block []*Node, times int) Doc {
	var d Doc
	for ; times > 0; times-- {
		d = append(d, block...)
	}
	return d
}

// nest puts the blocks below each other: the children of the last one that
// may have children are the next block.
func nest(block []*Node, times int) Doc {
	var d Doc
	for ; times > 0; times-- {
		c := copyNodes(block)
		for i := len(c) - 1; i >= 0; i-- {
			if !c[i].Leaf {
				c[i].Kids = d
				break
			}
		}
		d = c
	}
	return d
}

// fresh repeats the block with labels that were not there before in the places
// that are picked: one in three.
func fresh(seed int) func(block []*Node, times int) Doc {
	return func(block []*Node, times int) Doc {
		r := newRng(uint64(seed), 1)
		pick := map[*Node]int{}
		var choose func(ns []*Node)
		choose = func(ns []*Node) {
			for _, n := range ns {
				pick[n] = r.Intn(6)
				choose(n.Kids)
			}
		}
		choose(block)
		var d Doc
		var copied func(ns []*Node, k int) []*Node
		copied = func(ns []*Node, k int) []*Node {
			var out []*Node
			for _, n := range ns {
				c := &Node{V: n.V, Leaf: n.Leaf, Kids: copied(n.Kids, k)}
				switch p := pick[n]; {
				case p > 1:
				case c.Leaf && p == 0:
					c.V = vNum(int64(100 + k))
				case p == 0 || c.Leaf:
					c.V = vS(fmt.Sprint("z", k))
				default:
					c.V = vS(c.V.S + fmt.Sprint(k))
				}
				out = append(out, c)
			}
			return out
		}
		for k := 0; k < times; k++ {
			d = append(d, copied(block, k)...)
		}
		return d
	}
}

func runP42(c *Ctx) {
	const most = 512
	body := func(gen func(t *T) (string, []Doc)) func(t *T) {
		return func(t *T) {
			text, docs := gen(t)
			if text == "" || len(docs) == 0 {
				return
			}
			t.Info("grammar: %s", text)
			a := mustParse(t, text)
			var m *mem.Mem
			var err error
			kind := t.Pick("mem", "mem", "record")
			if kind == "mem" {
				m, err = mem.New(a)
			} else {
				m, err = mem.NewRecord(a)
			}
			if err != nil {
				t.Fail("grammar is refused: %v\ngrammar: %s", err, text)
			}
			moved := false
			for i, block := range docs {
				if len(block) == 0 || block.count() > 40 {
					continue
				}
				form, build := "a block", repeat
				switch t.Intn(6) {
				case 0, 1:
					form, build = "a block, each below the last,", nest
				case 2, 3:
					form, build = "a block, some labels of it always new,", fresh(t.Intn(1<<20))
				}
				var sizes []int
				grown := 0
				for k := 1; k <= most; {
					d := build(block, k)
					t.Info("grammar: %s\n%s %d times: %s", text, form, k, clip(block.String()))
					v, _ := run(memV{m}, d)
					if v.err != nil {
						break
					}
					now := retained(m)
					if len(sizes) > 0 {
						if now > sizes[len(sizes)-1] {
							grown++
							if k <= 8 {
								moved = true
							}
						} else {
							grown = 0
						}
					}
					sizes = append(sizes, now)
					// the same document again
					again, _ := run(memV{m}, d)
					if again.err != nil || again.ok != v.ok {
						t.Fail("the verdict is %v and then %v\ngrammar: %s\ndocument: %v", v, again, text, d)
					}
					if n := retained(m); n != now {
						t.Fail("the validator (%s) retains %d things after a document, and %d after the same document again\ngrammar: %s\ndocument: %v", kind, now, n, text, d)
					}
					t.Count("sizes_taken", 2)
					if k < 8 {
						k++
					} else {
						k *= 2
						if grown == 0 && k > 32 {
							break // it has converged
						}
					}
				}
				if n := len(sizes); n >= 14 && grown >= n-1 && sizes[n-1]-sizes[n-2] >= sizes[n-2]-sizes[n-3] {
					t.Fail("what the validator (%s) retains grows with the document: %s is repeated up to %d times, and the numbers of things are %v\ngrammar: %s\nblock: %v", kind, form, most, sizes, text, block)
				}
				if grown == 0 {
					t.Count("blocks_converged", 1)
				} else {
					t.Count("blocks_still_growing", 1)
				}
				if i >= 5 {
					break
				}
			}
			if moved {
				t.Nontrivial(text)
				t.Sample("%s", clip(text))
			}
		}
	}
	random := func(gen func(t *T) (*G, []Doc)) func(t *T) (string, []Doc) {
		return func(t *T) (string, []Doc) {
			g, docs := gen(t)
			if g.immediateRecursion() {
				return "", nil
			}
			return g.text(t.Rng), docs
		}
	}
	c.Run("small", c.N(6000), body(random(func(t *T) (*G, []Doc) { return genSmall(t.Rng, false) })))
	c.Run("random", c.N(3000), body(random(func(t *T) (*G, []Doc) {
		return genGrammar(t.Rng, genStyle(t.Rng), gramStyle{total: true}, 16, 4)
	})))
	c.Run("repetitions", c.N(8000), body(func(t *T) (string, []Doc) {
		// stars, optionals and alternatives of a few overlapping names below each other
		elem := func() *P {
			names := []*N{nStr("A"), nStr("B"), nAny(), nExcept(nStr("A")), nChoice(nStr("A"), nStr("B"))}
			n := names[t.Intn(len(names))]
			switch t.Intn(6) {
			case 0:
				return pNode(n, pLeaf(eFn('b', "eq", eVar('i'), eConst('i', int64(1)))))
			case 1:
				return pNode(n, pLeaf(eFn('b', "lt", eVar('i'), eConst('i', int64(3)))))
			case 2:
				return pNode(n, pRef("main"))
			}
			return pNode(n, pAny())
		}
		var pat func(d int) *P
		pat = func(d int) *P {
			if d <= 0 || t.P(25) {
				return elem()
			}
			switch t.Intn(12) {
			case 0, 1, 2:
				return pOp("star", pat(d-1))
			case 3:
				return pOp("opt", pat(d-1))
			case 4, 5:
				return pOp("concat", pat(d-1), pat(d-1))
			case 6:
				return pOp("concat", pat(d-1), pat(d-1), pat(d-1))
			case 7:
				return pOp("or", pat(d-1), pat(d-1))
			case 8:
				return pOp("and", pat(d-1), pat(d-1))
			case 9:
				return pOp("interleave", pat(d-1), pat(d-1))
			case 10:
				return pOp("not", pat(d-1))
			}
			return pOp("contains", elem())
		}
		g := newG(pat(2 + t.Intn(3)))
		text := g.text(t.Rng)
		var docs []Doc
		for i := 0; i < 3; i++ {
			var d Doc
			for n := 1 + t.Intn(3); n > 0; n-- {
				x := field(t.Pick("A", "B", "C"))
				switch t.Intn(3) {
				case 0:
					x.Kids = []*Node{leaf(vNum(int64(t.Intn(4))))}
				case 1:
					x.Kids = []*Node{field(t.Pick("A", "B"))}
				}
				d = append(d, x)
			}
			docs = append(docs, d)
		}
		return text, docs
	}))
	c.Run("automata", c.N(3000), func(t *T) {
		// an automaton does not change when it validates
		g, docs := genSmall(t.Rng, false)
		if g.immediateRecursion() {
			return
		}
		text := g.text(t.Rng)
		t.Info("grammar: %s", text)
		m, err := auto.Compile(mustParse(t, text))
		if err != nil {
			t.Count("not_compiled", 1)
			return
		}
		before := retained(m)
		for _, d := range docs {
			run(fnValidator(m.Validate), d)
			if now := retained(m); now != before {
				t.Fail("the automaton has %d things before and %d after a document\ngrammar: %s\ndocument: %v", before, now, text, d)
			}
			t.Count("sizes_taken", 1)
		}
		t.Nontrivial(fmt.Sprint("auto ", text))
	})
}
