package main

import "fmt"

func init() {
	register("P02", &check{
		rule: "distinct grammars for which the compared strategies gave both verdicts on their documents",
		run:  runP02,
	})
}

type engine struct {
	name string
	v    validator
}

// agree runs d through every engine and demands one answer.
func agree(t *T, text string, d Doc, es []engine) (verdict, bool) {
	var first verdict
	uncertain := false
	var vs []verdict
	for i, e := range es {
		t.Info("engine: %s\ngrammar: %s\ndocument: %v", e.name, text, d)
		v, p := run(e.v, d)
		if p.reads > 0 {
			t.Count("label_reads", p.reads)
		}
		vs = append(vs, v)
		if v.err != nil {
			uncertain = true
		}
		if i == 0 {
			first = v
		}
	}
	if uncertain {
		return first, false
	}
	for i := range vs {
		if vs[i].ok != first.ok {
			s := ""
			for j := range vs {
				s += fmt.Sprintf(" %s=%v", es[j].name, vs[j])
			}
			t.Fail("the strategies disagree:%s\ngrammar: %s\ndocument: %v", s, text, d)
		}
	}
	return first, true
}

func runP02(c *Ctx) {
	random := func(maxSize int, record bool) func(t *T) (*G, []Doc) {
		return func(t *T) (*G, []Doc) {
			st := genStyle(t.Rng)
			if record {
				st.dups = false
			}
			return genGrammar(t.Rng, st, gramStyle{total: true}, maxSize, 5)
		}
	}
	body := func(gen func(t *T) (*G, []Doc), withAuto, record bool) func(t *T) {
		return func(t *T) {
			g, docs := gen(t)
			text := g.text(t.Rng)
			t.Info("grammar: %s", text)
			a := mustParse(t, text)
			var es []engine
			add := func(name string, v validator, err error) {
				if err != nil {
					t.Fail("%s refuses the grammar: %v\ngrammar: %s", name, err, text)
				}
				es = append(es, engine{name, v})
			}
			m, err := newMem(a)
			add("mem", m, err)
			add("intern", internV(a, false), nil)
			add("interp", interpV(a), nil)
			if record {
				m, err := newMemRecord(a)
				add("mem-record", m, err)
				add("intern-record", internV(a, true), nil)
			}
			if withAuto {
				t.Info("compiling %s", text)
				v, err := newAuto(a)
				if err == nil {
					add("auto", v, nil)
					t.Count("automata", 1)
				} else {
					t.Count("automata_refused", 1)
				}
				if record {
					v, err := newAutoRecord(a)
					if err == nil {
						add("auto-record", v, nil)
					}
				}
			}
			var seen [2]bool
			for _, d := range docs {
				v, ok := agree(t, text, d, es)
				if !ok {
					t.Count("expression_errors", 1)
					continue
				}
				t.Count("verdicts_compared", len(es))
				if v.ok {
					seen[1] = true
				} else {
					seen[0] = true
				}
			}
			if seen[0] && seen[1] {
				t.Nontrivial(text)
				t.Sample("%s", text)
			}
		}
	}
	c.Run("interpreters", c.N(40000), body(random(18, false), false, false))
	c.Run("records", c.N(40000), body(random(18, true), false, true))
	c.Run("automata", c.N(20000), body(random(9, false), true, false))
	c.Run("automata-records", c.N(20000), body(random(9, true), true, true))
	branchy := func(t *T) (*G, []Doc) { return genBranchy(t.Rng, 10) }
	c.Run("branchy", c.N(3000), body(branchy, false, false))
	c.Run("branchy-automata", c.N(250), body(branchy, true, false))
	small := func(record bool) func(t *T) (*G, []Doc) {
		return func(t *T) (*G, []Doc) { return genSmall(t.Rng, record) }
	}
	c.Run("small", c.N(3000), body(small(false), true, false))
	c.Run("small-records", c.N(3000), body(small(true), true, true))
	c.Run("large", c.N(600), bigBody(1500, func(t *T, text string) []engine {
		a := mustParse(t, text)
		m, err := newMem(a)
		if err != nil {
			t.Fail("grammar is refused: %v\ngrammar: %s", err, text)
		}
		es := []engine{{"mem", m}, {"interp", interpV(a)}, {"intern", internV(a, false)}}
		if len(text) < 200 {
			if v, err := newAuto(a); err == nil {
				es = append(es, engine{"auto", v})
				t.Count("large_automata", 1)
			}
		}
		return es
	}))
	c.Run("combinations", c.N(200), manyBody(func(t *T, text string) []engine {
		a := mustParse(t, text)
		m, err := newMem(a)
		if err != nil {
			t.Fail("grammar is refused: %v\ngrammar: %s", err, text)
		}
		return []engine{{"mem", m}, {"interp", interpV(a)}, {"intern", internV(a, false)}}
	}, 12, 150))
	c.Run("wide", c.N(150), body(func(t *T) (*G, []Doc) { return genWide(t.Rng, 8) }, false, false))
}
