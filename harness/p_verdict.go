package main

func init() {
	register("P01", &check{
		rule: "distinct grammars for which the compared documents gave both verdicts",
		run:  runP01,
	})
}

func runP01(c *Ctx) {
	c.Run("random", c.N(200000), verdictBody(func(t *T) (*G, []Doc) {
		return genGrammar(t.Rng, genStyle(t.Rng), gramStyle{total: t.P(75)}, 24, 6)
	}))
	c.Run("small", c.N(40000), verdictBody(func(t *T) (*G, []Doc) { return genSmall(t.Rng, false) }))
	c.Run("branchy", c.N(25000), verdictBody(func(t *T) (*G, []Doc) { return genBranchy(t.Rng, 12) }))
	c.Run("large", c.N(2000), bigBody(20000, func(t *T, text string) []engine {
		m, err := newMem(mustParse(t, text))
		if err != nil {
			t.Fail("grammar is refused: %v\ngrammar: %s", err, text)
		}
		return []engine{{"mem", m}}
	}))
	c.Run("combinations", c.N(100), manyBody(func(t *T, text string) []engine {
		m, err := newMem(mustParse(t, text))
		if err != nil {
			t.Fail("grammar is refused: %v\ngrammar: %s", err, text)
		}
		return []engine{{"mem", m}}
	}, 18, 3000))
	c.Run("wide", c.N(400), verdictBody(func(t *T) (*G, []Doc) { return genWide(t.Rng, 12) }))
}

// verdictBody compares the verdicts of the default strategy with the meaning
// of the grammar.
func verdictBody(gen func(t *T) (*G, []Doc)) func(t *T) {
	return func(t *T) {
		g, docs := gen(t)
		text := g.text(t.Rng)
		t.Info("grammar: %s", text)
		a := mustParse(t, text)
		m, err := newMem(a)
		if err != nil {
			t.Fail("grammar is refused: %v\ngrammar: %s", err, text)
		}
		seen := [2]bool{}
		for _, d := range docs {
			want, certain, err := refVerdict(g, d)
			if err != nil {
				t.Count("too_big", 1)
				continue
			}
			t.Info("grammar: %s\ndocument: %v", text, d)
			got, _ := run(m, d)
			if !certain {
				t.Count("inconclusive_expression_errors", 1)
				continue
			}
			if got.err != nil {
				t.Fail("validation failed: %v\ngrammar: %s\ndocument: %v", got.err, text, d)
			}
			if got.ok != want {
				t.Fail("verdict %v, but the grammar means %v\ngrammar: %s\nmodel: %s\ndocument: %v", got, want, text, g, d)
			}
			t.Count("verdicts_compared", 1)
			if want {
				seen[1] = true
			} else {
				seen[0] = true
			}
		}
		if seen[0] && seen[1] {
			t.Nontrivial(text)
			t.Sample("%s", text)
		}
	}
}
