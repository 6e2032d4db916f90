package main

import (
	"errors"
	"fmt"
	"io"
	"runtime"
	"runtime/debug"
	"strings"

	"github.com/katydid/katydid/parser"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/interp"
)

func init() {
	register("P03", &check{
		rule: "distinct grammars whose validator was used for at least twenty validations with both verdicts and at least one injected fault",
		run:  runP03,
	})
	register("P05", &check{
		rule: "distinct grammar and document pairs for which the monitored parser saw a descent and an early decision or the end of a level",
		run:  runP05,
	})
	register("P31", &check{
		rule:    "distinct grammars whose validators were measured after both verdicts were seen",
		run:     runP31,
		noLimit: true,
	})
	register("P32", &check{
		rule: "distinct grammar, document and strategy combinations in which at least three advances of the parser were made to fail",
		run:  runP32,
	})
	register("P34", &check{
		rule: "distinct grammars with at least one reference outside named nodes",
		run:  runP34,
	})
}

var errFault = errors.New("harness: injected fault")

// pickFault returns one of the errors that a parser may fail with.  Only
// io.EOF itself is the end of a document.
func pickFault(r *Rng, k int) error {
	switch r.Intn(10) {
	case 0:
		return io.ErrUnexpectedEOF
	case 1:
		return io.ErrClosedPipe
	case 2:
		return errors.New(io.EOF.Error())
	case 3:
		return []error{parser.ErrNotString, parser.ErrNotInt, parser.ErrNotBool}[r.Intn(3)]
	case 4:
		return io.ErrNoProgress
	}
	return fmt.Errorf("harness: fault %d", k)
}

// sameVerdict compares a verdict with that of a fresh validator.
func sameVerdict(a, b verdict) bool {
	return (a.err == nil) == (b.err == nil) && a.ok == b.ok
}

// strategies lists the engines for a parsed grammar.  fresh makes a new
// validator each time that it is called.
type strategy struct {
	name  string
	fresh func() (validator, error)
	lazy  bool // keeps state between validations
}

func strategies(a *ast.Grammar, record, automata bool) []strategy {
	ss := []strategy{
		{"mem", func() (validator, error) { return newMem(a) }, true},
		{"intern", func() (validator, error) { return internV(a, false), nil }, false},
		{"interp", func() (validator, error) { return interpV(a), nil }, false},
	}
	if record {
		ss = append(ss, strategy{"mem-record", func() (validator, error) { return newMemRecord(a) }, true},
			strategy{"intern-record", func() (validator, error) { return internV(a, true), nil }, false})
	}
	if automata {
		ss = append(ss, strategy{"auto", func() (validator, error) { return newAuto(a) }, true})
		if record {
			ss = append(ss, strategy{"auto-record", func() (validator, error) { return newAutoRecord(a) }, true})
		}
	}
	return ss
}

// ---------------------------------------------------------------- P03

func runP03(c *Ctx) {
	random := func(maxSize, ndocs int) func(t *T) (*G, []Doc, bool) {
		return func(t *T) (*G, []Doc, bool) {
			st := genStyle(t.Rng)
			record := t.P(40)
			if record {
				st.dups = false
			}
			g, docs := genGrammar(t.Rng, st, gramStyle{total: t.P(70)}, maxSize, ndocs)
			return g, docs, record
		}
	}
	body := func(gen func(t *T) (*G, []Doc, bool), steps int, automata bool) func(t *T) {
		return func(t *T) {
			g, docs, record := gen(t)
			text := g.text(t.Rng)
			t.Info("grammar: %s", text)
			a := mustParse(t, text)
			for _, s := range strategies(a, record, automata) {
				if !s.lazy {
					continue
				}
				used, err := s.fresh()
				if err != nil {
					if strings.HasPrefix(s.name, "auto") {
						t.Count("automata_refused", 1)
						continue
					}
					t.Fail("%s refuses the grammar: %v\ngrammar: %s", s.name, err, text)
				}
				want := make([]verdict, len(docs))
				nexts := make([]int, len(docs))
				for i, d := range docs {
					v, err := s.fresh()
					if err != nil {
						t.Fail("%s refuses the grammar the second time: %v\ngrammar: %s", s.name, err, text)
					}
					var p *TreeParser
					want[i], p = run(v, d)
					nexts[i] = p.nexts
				}
				var seen [2]bool
				faults := 0
				hist := ""
				for k := 0; k < steps; k++ {
					i := t.Intn(len(docs))
					p := newTreeParser(docs[i])
					if t.P(20) && nexts[i] > 0 {
						p.FaultAt, p.Fault = 1+t.Intn(nexts[i]), errFault
						hist += fmt.Sprintf(" %d!%d", i, p.FaultAt)
					} else {
						hist += fmt.Sprintf(" %d", i)
					}
					t.Info("strategy: %s\ngrammar: %s\ndocuments: %v\nhistory:%s", s.name, text, docs, hist)
					ok, err := used.Validate(p)
					if p.Faulted {
						faults++
						if err == nil {
							t.Fail("%s gave the verdict %v although the parser failed\ngrammar: %s\ndocuments: %v\nhistory:%s", s.name, ok, text, docs, hist)
						}
						continue
					}
					got := verdict{ok, err}
					if !sameVerdict(got, want[i]) {
						t.Fail("%s: the used validator gives %v, a new one gives %v\ngrammar: %s\ndocument: %v\ndocuments: %v\nhistory:%s", s.name, got, want[i], text, docs[i], docs, hist)
					}
					t.Count("verdicts_compared", 1)
					if err == nil && ok {
						seen[1] = true
					} else if err == nil {
						seen[0] = true
					}
				}
				t.Count("faults_injected", faults)
				if seen[0] && seen[1] && faults > 0 && steps >= 20 {
					t.Nontrivial(s.name, text)
					t.Sample("%s %s history%s", s.name, text, hist)
				}
			}
		}
	}
	c.Run("short", c.N(14000), body(random(20, 8), 30, false))
	c.Run("long", c.N(700), body(random(20, 60), 400, false))
	c.Run("automata", c.N(3500), body(random(9, 8), 30, true))
	c.Run("branchy", c.N(4000), body(func(t *T) (*G, []Doc, bool) {
		g, docs := genBranchy(t.Rng, 30)
		return g, docs, false
	}, 80, false))
	c.Run("small", c.N(1200), body(func(t *T) (*G, []Doc, bool) {
		record := t.P(40)
		g, all := genSmall(t.Rng, record)
		var docs []Doc
		for _, i := range t.Perm(len(all))[:10] {
			docs = append(docs, all[i])
		}
		return g, docs, record
	}, 30, true))
	c.Run("wide", c.N(100), body(func(t *T) (*G, []Doc, bool) {
		g, docs := genWide(t.Rng, 20)
		return g, docs, false
	}, 40, false))
}

// ---------------------------------------------------------------- P05

func runP05(c *Ctx) {
	body := func(maxSize int, automata bool) func(t *T) {
		return func(t *T) {
			st := genStyle(t.Rng)
			record := t.P(40)
			if record {
				st.dups = false
			}
			g, docs := genGrammar(t.Rng, st, gramStyle{total: t.P(80)}, maxSize, 4)
			text := g.text(t.Rng)
			t.Info("grammar: %s", text)
			a := mustParse(t, text)
			for _, s := range strategies(a, record, automata) {
				v, err := s.fresh()
				if err != nil {
					if strings.HasPrefix(s.name, "auto") {
						continue
					}
					t.Fail("%s refuses the grammar: %v\ngrammar: %s", s.name, err, text)
				}
				for _, d := range docs {
					// the document sits inside a larger one, so that leaving its
					// level or reading past it shows
					outer := Doc{field("outer", d...), field("after", leaf(vS("x")))}
					p := newTreeParser(outer)
					p.Next()
					p.Down()
					p.floor = 1
					t.Info("strategy: %s\ngrammar: %s\ndocument: %v", s.name, text, d)
					_, err := v.Validate(p)
					if len(p.Breaches) > 0 {
						t.Fail("%s broke the parser protocol: %s\ntrace: %s\ngrammar: %s\ndocument: %v", s.name, strings.Join(p.Breaches, "; "), p.Trace, text, d)
					}
					if err == nil && p.Depth() != 1 {
						t.Fail("%s left the parser %d levels below where it was handed over\ntrace: %s\ngrammar: %s\ndocument: %v", s.name, p.Depth()-1, p.Trace, text, d)
					}
					t.Count("parser_calls_monitored", p.nexts+p.downs+p.ups+p.reads)
					t.Count("descents", p.downs-1)
					t.Count("early_decisions", p.earlyUps)
					t.Count("ends_of_levels", p.eofs)
					if p.downs > 1 && (p.earlyUps > 0 || p.eofs > 0) {
						t.Nontrivial(s.name, text, d.String())
						t.Sample("%s: %s on %s", s.name, p.Trace, text)
					}
				}
			}
		}
	}
	c.Run("interpreters", c.N(22000), body(18, false))
	c.Run("automata", c.N(9000), body(9, true))
	c.Run("encoders", c.N(12000), encoderProtocol)
}

// ---------------------------------------------------------------- P31

func liveHeap() int64 {
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	debug.FreeOSMemory()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func runP31(c *Ctx) {
	// Each case holds a pool of validators; the live heap must not grow once
	// every document was seen.
	pool := func(t *T, npool int, vary bool, warm, rounds int, automata bool) {
		type entry struct {
			v    validator
			docs []Doc
			text string
			name string
		}
		var es []entry
		both := 0
		for len(es) < npool {
			st := genStyle(t.Rng)
			st.dups = false
			g, docs := genGrammar(t.Rng, st, gramStyle{total: true}, 16, 5)
			text := g.text(t.Rng)
			a := mustParse(t, text)
			for _, s := range strategies(a, true, automata) {
				if !s.lazy || (automata && !strings.HasPrefix(s.name, "auto")) {
					continue
				}
				v, err := s.fresh()
				if err != nil {
					continue
				}
				es = append(es, entry{v, docs, text, s.name})
			}
		}
		r := t.Rng
		nval := 0
		round := func(n int) {
			for k := 0; k < n; k++ {
				for _, e := range es {
					for _, i := range r.Perm(len(e.docs)) {
						d := e.docs[i]
						if vary {
							d = Doc(copyNodes(d))
							freshen(r, d)
						}
						v, _ := run(e.v, d)
						if v.err != nil {
							t.Fail("validation failed: %v\ngrammar: %s\ndocument: %v", v.err, e.text, d)
						}
						nval++
					}
				}
			}
		}
		for _, e := range es {
			var seen [2]bool
			for _, d := range e.docs {
				v, _ := run(e.v, d)
				if v.ok {
					seen[1] = true
				} else {
					seen[0] = true
				}
			}
			if seen[0] && seen[1] {
				both++
				t.Nontrivial(e.name, e.text)
			}
		}
		round(warm)
		h0 := liveHeap()
		n0 := nval
		round(rounds)
		h1 := liveHeap()
		runtime.KeepAlive(es)
		t.Count("validations_measured", nval-n0)
		t.Count("validators_measured", len(es))
		t.Count("live_heap_before", int(h0))
		t.Count("live_heap_growth", int(h1-h0))
		// one word for every eighth validation would show
		if limit := int64(200000) + int64(nval-n0)/2; h1-h0 > limit {
			t.Fail("the live heap grew from %d to %d bytes during %d validations of documents that had been validated before (limit %d, %d validators, first grammar: %s)", h0, h1, nval-n0, limit, len(es), es[0].text)
		}
		t.Sample("%d validators: live heap %d, %+d bytes after %d validations", len(es), h0, h1-h0, nval-n0)
	}
	c.RunSeq("same", c.NT(3, 20), func(t *T) { pool(t, 150, false, 3, c.NT(600, 1500), false) })
	c.RunSeq("fresh-values", c.NT(2, 15), func(t *T) { pool(t, 100, true, 12, c.NT(300, 1000), false) })
	c.RunSeq("automata", c.NT(1, 6), func(t *T) { pool(t, 60, false, 3, c.NT(600, 1500), true) })
}

// freshen gives string leaves that no grammar of the generator mentions new
// values.
func freshen(r *Rng, ns []*Node) {
	for _, n := range ns {
		if n.Leaf && n.V.HasS {
			n.V = vS(fmt.Sprintf("zz%d", r.U64()))
		} else if n.Leaf && n.V.HasI && !n.V.HasD {
			n.V = vI(int64(1000 + r.Intn(1<<40)))
		}
		freshen(r, n.Kids)
	}
}

// ---------------------------------------------------------------- P32

func runP32(c *Ctx) {
	body := func(maxSize int, automata bool) func(t *T) {
		return func(t *T) {
			st := genStyle(t.Rng)
			record := t.P(30)
			if record {
				st.dups = false
			}
			g, docs := genGrammar(t.Rng, st, gramStyle{total: t.P(80)}, maxSize, 3)
			text := g.text(t.Rng)
			t.Info("grammar: %s", text)
			a := mustParse(t, text)
			for _, s := range strategies(a, record, automata) {
				v, err := s.fresh()
				if err != nil {
					if strings.HasPrefix(s.name, "auto") {
						continue
					}
					t.Fail("%s refuses the grammar: %v\ngrammar: %s", s.name, err, text)
				}
				for _, d := range docs {
					want, base := run(v, d)
					faults := 0
					for k := 1; k <= base.nexts+1; k++ {
						fault := pickFault(t.Rng, k)
						p := newTreeParser(d)
						p.FaultAt, p.Fault = k, fault
						t.Info("strategy: %s\ngrammar: %s\ndocument: %v\nfault at advance %d of %d", s.name, text, d, k, base.nexts)
						used := v
						cold := t.P(20)
						if cold {
							if used, err = s.fresh(); err != nil {
								t.Fail("%s refuses the grammar the second time: %v", s.name, err)
							}
						}
						ok, err := used.Validate(p)
						if k <= base.nexts && !p.Faulted && !cold {
							t.Fail("%s advanced the parser only %d times, not %d times as before\ngrammar: %s\ndocument: %v", s.name, p.nexts, base.nexts, text, d)
						}
						if p.Faulted {
							faults++
							if err == nil {
								t.Fail("%s hid a fault of the parser at advance %d of %d behind the verdict %v\ngrammar: %s\ndocument: %v", s.name, k, base.nexts, ok, text, d)
							}
							if !errors.Is(err, fault) && !strings.Contains(err.Error(), fault.Error()) {
								t.Fail("%s returned %q instead of the error of the parser %q\ngrammar: %s\ndocument: %v", s.name, err, fault, text, d)
							}
							if ok {
								t.Fail("%s returned true together with the error %v\ngrammar: %s\ndocument: %v", s.name, err, text, d)
							}
							if p.afterFault > 0 {
								t.Fail("%s went on advancing the parser after its error\ngrammar: %s\ndocument: %v\ntrace: %s", s.name, text, d, p.Trace)
							}
						} else if !sameVerdict(verdict{ok, err}, want) {
							t.Fail("%s: verdict %v became %v, %v although the parser did not fail\ngrammar: %s\ndocument: %v", s.name, want, ok, err, text, d)
						}
						if len(p.Breaches) > 0 {
							t.Fail("%s broke the parser protocol around a fault: %v\ngrammar: %s\ndocument: %v\ntrace: %s", s.name, p.Breaches, text, d, p.Trace)
						}
					}
					// still usable, with the same verdict, whatever was cut off
					if again, _ := run(v, d); !sameVerdict(again, want) {
						t.Fail("%s: after faults the verdict is %v, before it was %v\ngrammar: %s\ndocument: %v", s.name, again, want, text, d)
					}
					t.Count("faults_injected", faults)
					t.Count("verdicts_after_faults", 1)
					if faults >= 3 {
						t.Nontrivial(s.name, text, d.String())
						t.Sample("%s with %d faults: %s on %v", s.name, faults, text, d)
					}
				}
			}
		}
	}
	c.Run("interpreters", c.N(9000), body(18, false))
	c.Run("automata", c.N(5000), body(9, true))
	c.Run("cold", c.N(9000), func(t *T) {
		// the first thing that a new validator sees is a fault, then it must
		// still give the right verdicts
		st := genStyle(t.Rng)
		g, docs := genGrammar(t.Rng, st, gramStyle{total: true}, 18, 4)
		text := g.text(t.Rng)
		a := mustParse(t, text)
		v, err := newMem(a)
		if err != nil {
			t.Fail("mem refuses the grammar: %v\ngrammar: %s", err, text)
		}
		for i := 0; i < 6; i++ {
			d := docs[t.Intn(len(docs))]
			p := newTreeParser(d)
			p.FaultAt, p.Fault = 1+t.Intn(1+d.count()*2), pickFault(t.Rng, i)
			t.Info("grammar: %s\ndocument: %v\nfault at %d", text, d, p.FaultAt)
			ok, err := v.Validate(p)
			if p.Faulted {
				t.Count("faults_injected", 1)
			}
			if p.Faulted != (err != nil) {
				t.Fail("mem returned %v, %v, the parser failed: %v\ngrammar: %s\ndocument: %v", ok, err, p.Faulted, text, d)
			}
		}
		for _, d := range docs {
			want, certain, err := refVerdict(g, d)
			if err != nil || !certain {
				continue
			}
			got, _ := run(v, d)
			if got.err != nil || got.ok != want {
				t.Fail("after faults the verdict is %v, but the grammar means %v\ngrammar: %s\ndocument: %v", got, want, text, d)
			}
			t.Count("verdicts_after_faults", 1)
		}
	})
}

// ---------------------------------------------------------------- P34

func runP34(c *Ctx) {
	body := func(depth int) func(t *T) {
		return func(t *T) {
			n := 1 + t.Intn(4)
			gs := gramStyle{total: true}
			for i := 0; i < n; i++ {
				gs.refs = append(gs.refs, fmt.Sprintf("r%d", i))
			}
			if t.P(40) {
				gs.refs = append(gs.refs, "main")
			}
			guarded := t.P(60)
			g := newG(genPat(t.Rng, gs, 1+t.Intn(depth), guarded))
			for i := 0; i < n; i++ {
				g.add(fmt.Sprintf("r%d", i), genPat(t.Rng, gs, 1+t.Intn(depth), guarded && t.P(70)))
			}
			g.HashTop = t.P(30)
			text := g.text(t.Rng)
			t.Info("grammar: %s", text)
			a := mustParse(t, text)
			got := interp.HasRecursion(a)
			want := g.immediateRecursion()
			if got != want {
				t.Fail("HasRecursion is %v, but it is %v that a declaration reaches itself without a node\ngrammar: %s", got, want, text)
			}
			un := map[string]bool{}
			for _, p := range g.Decls {
				p.unguardedRefs(un)
			}
			if len(un) > 0 {
				t.Nontrivial(text)
			}
			if want {
				t.Count("recursive", 1)
				return
			}
			t.Count("not_recursive", 1)
			m, err := newMem(a)
			if err != nil {
				t.Fail("a grammar without recursion is refused: %v\ngrammar: %s", err, text)
			}
			st := genStyle(t.Rng)
			for i := 0; i < 2; i++ {
				d := genDoc(t.Rng, st)
				t.Info("grammar: %s\ndocument: %v", text, d)
				v1, _ := run(m, d)
				v2, _ := run(interpV(a), d)
				if v1.err != nil || v2.err != nil || v1.ok != v2.ok {
					t.Fail("verdicts %v and %v\ngrammar: %s\ndocument: %v", v1, v2, text, d)
				}
				t.Count("validations", 2)
			}
			t.Sample("%s", text)
		}
	}
	c.Run("random", c.N(40000), body(3))
	c.Run("chains", c.N(1000), func(t *T) {
		// a long chain of declarations that leads back to a declaration of it,
		// with or without a node in between
		n := 1 + t.Intn(60)
		if t.P(40) {
			n = t.large(1500)
		}
		back, guard := t.Intn(n), -1
		if t.P(70) {
			guard = t.Intn(n)
		}
		g := newG(pRef("r0"))
		order := t.Perm(n)
		if t.P(30) {
			for i := range order {
				order[i] = i
			}
		}
		for _, i := range order {
			next := (i + 1)
			if next == n {
				next = back
			}
			p := pRef(fmt.Sprintf("r%d", next))
			if i == guard {
				p = pNode(nAny(), p)
			}
			switch t.Intn(8) {
			case 0:
				p = pOp(t.Pick("star", "not"), p)
			case 1:
				p = pOp(t.Pick("or", "and", "concat", "interleave"), pNode(nStr("A"), pAny()), p)
			case 2:
				p = pOp(t.Pick("or", "and", "concat", "interleave"), p, pNode(nStr("A"), pAny()))
			}
			g.add(fmt.Sprintf("r%d", i), p)
		}
		text := g.text(t.Rng)
		t.Info("grammar: %s", text)
		got, want := interp.HasRecursion(mustParse(t, text)), guard < back
		if got != want {
			t.Fail("HasRecursion is %v, but it is %v that a declaration reaches itself without a node\ngrammar: %s", got, want, text)
		}
		t.Nontrivial(text)
	})
	c.Run("references", c.N(30000), func(t *T) {
		// mostly references: long chains, diamonds and cycles
		n := 2 + t.Intn(6)
		name := func() string { return fmt.Sprintf("r%d", t.Intn(n)) }
		var pat func(d int) *P
		pat = func(d int) *P {
			switch t.Intn(10) {
			case 0, 1, 2:
				return pRef(name())
			case 3:
				return pNode(nAny(), pRef(name()))
			case 4:
				return pAny()
			case 5:
				return pEmpty()
			}
			if d <= 0 {
				return pNode(nStr("A"), pAny())
			}
			switch op := t.Pick("or", "and", "concat", "interleave", "star", "opt", "not", "contains"); op {
			case "star", "opt", "not", "contains":
				return pOp(op, pat(d-1))
			default:
				return pOp(op, pat(d-1), pat(d-1))
			}
		}
		g := newG(pat(1))
		for i := 0; i < n; i++ {
			g.add(fmt.Sprintf("r%d", i), pat(2))
		}
		text := g.text(t.Rng)
		t.Info("grammar: %s", text)
		a := mustParse(t, text)
		got, want := interp.HasRecursion(a), g.immediateRecursion()
		if got != want {
			t.Fail("HasRecursion is %v, but it is %v that a declaration reaches itself without a node\ngrammar: %s", got, want, text)
		}
		t.Nontrivial(text)
		if want {
			t.Count("recursive", 1)
			return
		}
		t.Count("not_recursive", 1)
		if _, err := newMem(a); err != nil {
			t.Fail("a grammar without recursion is refused: %v\ngrammar: %s", err, text)
		}
	})
}
