package main

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	ejson "github.com/katydid/katydid/encode/json"
	eproto "github.com/katydid/katydid/encode/proto"
	ereflect "github.com/katydid/katydid/encode/reflect"
	exml "github.com/katydid/katydid/encode/xml"
	"github.com/katydid/katydid/parser"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/funcs"
	"github.com/katydid/katydid/relapse/interp"
)

func init() {
	register("P30", &check{
		rule:    "distinct observed interleavings: orders in which the operations of the goroutines of one case started",
		race:    true,
		noLimit: true,
		assume:  []string{"the race detector sees the races of the executed schedules; the scheduler is disturbed by random yields and pauses at parser calls and between operations"},
		run:     runP30,
	})
}

// crew runs a body on several goroutines at once.  The goroutines share nothing
// of the harness, so that nothing but the code under test can order them.
type crew struct {
	logs  [][]int64 // when each operation started
	out   [][]string
	panic []string
}

type hand struct {
	*Rng
	log  []int64
	out  []string
	slow int
	dist *Rng // for the disturbances, which do not influence what is done
}

// op notes that an operation starts, and disturbs the scheduler.
func (h *hand) op() {
	h.log = append(h.log, time.Now().UnixNano())
	h.pause()
}

func (h *hand) pause() {
	switch h.dist.Intn(h.slow) {
	case 0:
		runtime.Gosched()
	case 1:
		for k := h.dist.Intn(4); k > 0; k-- {
			runtime.Gosched()
		}
	case 2:
		time.Sleep(time.Duration(h.dist.Intn(30)) * time.Microsecond)
	}
}

// say records a result.
func (h *hand) say(f string, a ...interface{}) { h.out = append(h.out, fmt.Sprintf(f, a...)) }

func together(r *Rng, n int, body func(i int, h *hand)) *crew {
	c := &crew{logs: make([][]int64, n), out: make([][]string, n), panic: make([]string, n)}
	hands := make([]*hand, n)
	slow := []int{4, 8, 20}[r.Intn(3)]
	for i := range hands {
		hands[i] = &hand{Rng: newRng(r.U64(), "hand", i), slow: slow}
		hands[i].dist = newRng(hands[i].s, "disturb")
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range hands {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					c.panic[i] = fmt.Sprint(e)
				}
			}()
			<-start
			body(i, hands[i])
		}(i)
	}
	close(start)
	wg.Wait()
	for i, h := range hands {
		c.logs[i], c.out[i] = h.log, h.out
	}
	return c
}

// alone runs the same bodies one after another.
func alone(seeds []uint64, body func(i int, h *hand)) [][]string {
	var out [][]string
	for i, s := range seeds {
		h := &hand{Rng: newRng(s, "hand", i), dist: newRng(s), slow: 1000}
		func() {
			defer func() {
				if e := recover(); e != nil {
					h.say("panic %v", e)
				}
			}()
			body(i, h)
		}()
		out = append(out, h.out)
	}
	return out
}

// order tells in which order the goroutines started their operations.
func (c *crew) order() (string, int) {
	type ev struct {
		at int64
		i  int
	}
	var es []ev
	for i, l := range c.logs {
		for _, at := range l {
			es = append(es, ev{at, i})
		}
	}
	sort.SliceStable(es, func(a, b int) bool { return es[a].at < es[b].at })
	b := strings.Builder{}
	switches := 0
	for k, e := range es {
		fmt.Fprintf(&b, "%d.", e.i)
		if k > 0 && es[k-1].i != e.i {
			switches++
		}
	}
	return b.String(), switches
}

// yielding disturbs the scheduler at the calls of a parser.
type yielding struct {
	parser.Interface
	h *hand
}

func (y yielding) Next() error {
	y.h.pause()
	return y.Interface.Next()
}
func (y yielding) Down() {
	y.h.pause()
	y.Interface.Down()
}

// concurrent runs body on several goroutines and then alone, and compares what
// they say.  body must draw from its hand only.
func concurrent(t *T, what string, body func(i int, h *hand)) {
	n := 4 + t.Intn(9)
	master := t.U64()
	c := together(&Rng{s: master}, n, body)
	// the same seeds again
	m := &Rng{s: master}
	m.Intn(3)
	var seeds []uint64
	for i := 0; i < n; i++ {
		seeds = append(seeds, m.U64())
	}
	want := alone(seeds, body)
	for i := range want {
		if c.panic[i] != "" {
			t.Fail("goroutine %d panicked: %s\n%s", i, c.panic[i], what)
		}
		if len(want[i]) != len(c.out[i]) {
			t.Fail("goroutine %d gave %d results, alone it gives %d\n%s", i, len(c.out[i]), len(want[i]), what)
		}
		for k := range want[i] {
			if want[i][k] != c.out[i][k] {
				t.Fail("goroutine %d gave %s\nalone it gives %s\n%s", i, c.out[i][k], want[i][k], what)
			}
		}
		t.Count("results_compared", len(want[i]))
	}
	order, switches := c.order()
	t.Count("goroutines", n)
	t.Count("operations", strings.Count(order, "."))
	t.Count("switches_between_goroutines", switches)
	if switches > n {
		t.Nontrivial(t.gen, order)
	}
	t.Sample("%s: %s", t.gen, order)
}

func (h *hand) validate(name string, v validator, d Doc) {
	h.op()
	ok, err := v.Validate(yielding{newTreeParser(d), h})
	h.say("%s on %v: %v %v", name, d, ok, err)
}

// prepareAny prepares the grammar in some way.
func (h *hand) prepareAny(a *ast.Grammar, record, automata bool) (string, validator) {
	ss := strategies(a, record, automata)
	s := ss[h.Intn(len(ss))]
	h.op()
	v, err := s.fresh()
	if err != nil {
		if !strings.HasPrefix(s.name, "auto") {
			h.say("%s: %v", s.name, err)
		}
		return "", nil
	}
	return s.name, v
}

func runP30(c *Ctx) {
	// everything from text to verdict, with nothing shared
	c.RunSeq("separate", c.N(500), func(t *T) {
		st := genStyle(t.Rng)
		record := t.P(40)
		if record {
			st.dups = false
		}
		auto := t.P(40)
		size := 18
		if auto {
			size = 9
		}
		var texts []string
		var docs []Doc
		for k := 1 + t.Intn(3); k > 0; k-- {
			g, ds := genGrammar(t.Rng, st, gramStyle{total: t.P(80)}, size, 3)
			texts = append(texts, g.text(t.Rng))
			docs = append(docs, ds...)
		}
		concurrent(t, fmt.Sprintf("grammars: %q", texts), func(i int, h *hand) {
			for k := 1 + h.Intn(3); k > 0; k-- {
				h.op()
				a, err := relapseParse(texts[h.Intn(len(texts))])
				if err != nil {
					h.say("%v", err)
					return
				}
				name, v := h.prepareAny(a, record, auto)
				if v == nil {
					continue
				}
				for k := 1 + h.Intn(4); k > 0; k-- {
					h.validate(name, v, docs[h.Intn(len(docs))])
				}
			}
		})
	})
	// one parsed grammar for all, used in every way
	c.RunSeq("shared-grammar", c.N(700), func(t *T) {
		st := genStyle(t.Rng)
		record := t.P(40)
		if record {
			st.dups = false
		}
		auto := t.P(40)
		size := 18
		if auto {
			size = 9
		}
		g, docs := genGrammar(t.Rng, st, gramStyle{total: t.P(80)}, size, 4)
		if t.P(50) {
			shorten(t.Rng, g)
		}
		text := randomLayout(t.Rng, t.P(30)).grammar(g)
		a := mustParse(t, text)
		concurrent(t, "grammar: "+text, func(i int, h *hand) {
			for k := 2 + h.Intn(4); k > 0; k-- {
				switch h.Intn(7) {
				case 0:
					h.op()
					h.say("printed %s", a.String())
				case 1:
					h.op()
					b := a.Clone()
					h.op()
					h.say("copied %v %v", b.Equal(a), a.Equal(b))
				case 2:
					h.op()
					ps := allPatterns(a)
					p, q := ps[h.Intn(len(ps))], ps[h.Intn(len(ps))]
					h.op()
					h.say("compared %d %d %v", p.Compare(q), p.Hash(), p.Equal(q))
				case 3:
					h.op()
					h.say("recursion %v", interp.HasRecursion(a))
				case 4:
					h.op()
					s := interp.NewSimplifier(a)
					if record && h.P(50) {
						s = s.OptimizeForRecord()
					}
					// the names it makes up depend on the order of a map
					_ = s.Grammar().String()
					h.say("simplified")
				default:
					name, v := h.prepareAny(a, record, auto)
					if v == nil {
						continue
					}
					for k := 1 + h.Intn(4); k > 0; k-- {
						h.validate(name, v, docs[h.Intn(len(docs))])
					}
				}
			}
		})
	})
	// contexts
	c.RunSeq("contexts", c.N(200), func(t *T) {
		g0, docs := genGrammar(t.Rng, genStyle(t.Rng), gramStyle{total: true}, 14, 4)
		g := g0.mapExprs(func(e *E) *E {
			if t.P(60) {
				return genProbe(t.Rng, e)
			}
			return e
		})
		text := g.text(t.Rng)
		a := mustParse(t, text)
		is, ss := []int64{0, 7}, []string{"", "a"}
		for _, d := range docs {
			i, s := docValues(d)
			is, ss = append(is, i...), append(ss, s...)
		}
		concurrent(t, "grammar: "+text, func(i int, h *hand) {
			h.op()
			m, err := newMemOf(a, false)
			if err != nil {
				h.say("%v", err)
				return
			}
			ctx := &funcs.Context{Value: &ctxVal{is[h.Intn(len(is))], ss[h.Intn(len(ss))], h.P(50)}}
			m.SetContext(ctx)
			for k := 2 + h.Intn(5); k > 0; k-- {
				h.validate(fmt.Sprint(ctx.Value), memV{m}, docs[h.Intn(len(docs))])
				ctx.Value = &ctxVal{is[h.Intn(len(is))], ss[h.Intn(len(ss))], h.P(50)}
			}
		})
	})
	// parsers and encoders, which share descriptors and types
	for _, f := range formats {
		f := f
		n := c.N(250)
		if f.name == "reflect" {
			n = c.NT(60, 500) // every new type makes the next one slower
		}
		if f.name == "proto" {
			n = c.N(120)
		}
		c.RunSeq("parser-"+f.name, n, func(t *T) {
			ss := f.gen(t.Rng, 4)
			concurrent(t, ss[0].text, func(i int, h *hand) {
				for k := 1 + h.Intn(4); k > 0; k-- {
					s := ss[h.Intn(len(ss))]
					h.op()
					p, err := s.fresh()
					if err != nil {
						h.say("%v", err)
						continue
					}
					h.op()
					limit := 100000
					d, err := readDoc(yielding{p, h}, &limit)
					h.say("%v %v", d, err)
				}
			})
		})
	}
	c.RunSeq("encode-proto", c.N(250), func(t *T) {
		f := genPFamily(t.Rng)
		_, m := f.source(t.Rng, 2)
		d := m.doc()
		concurrent(t, describeAll(f.ts), func(i int, h *hand) {
			for k := 1 + h.Intn(2); k > 0; k-- {
				h.op()
				e, err := eproto.NewEncoder(f.set, f.root.pkg, f.root.name)
				if err != nil {
					h.say("%v", err)
					return
				}
				h.op()
				b, err := e.Encode(nil, yielding{newTreeParser(d), h})
				h.say("%x %v", b, err)
			}
		})
	})
	c.RunSeq("encode-others", c.NT(150, 1500), func(t *T) {
		s := anySource(t.Rng)
		gd, gt, _ := genGoDoc(t.Rng)
		concurrent(t, s.text, func(i int, h *hand) {
			for k := 1 + h.Intn(3); k > 0; k-- {
				h.op()
				switch h.Intn(3) {
				case 0:
					b, err := ejson.Encode(yielding{newTreeParser(s.doc), h})
					h.say("%s %v", b, err)
				case 1:
					b, err := exml.Encode(yielding{newTreeParser(s.doc), h})
					h.say("%s %v", b, err)
				case 2:
					v := reflect.New(gt)
					err := ereflect.Encode(yielding{newTreeParser(gd), h}, v.Interface())
					h.say("%v %v", Doc(goNodes(v)), err)
				}
			}
		})
	})
	// the cases of the other checks, several at a time: what fails here but not
	// when the case is run alone depends on what runs beside it
	subs := []string{"P01", "P02", "P03", "P04", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16",
		"P17", "P18", "P19", "P20", "P21", "P22", "P23", "P24", "P25", "P26", "P27", "P28", "P29", "P32", "P33", "P34", "P35"}
	c.RunSeq("checks", len(subs), func(t *T) {
		ck := checks[subs[t.idx]]
		sub := &Ctx{prop: subs[t.idx], tier: "quick", seed: c.seed + uint64(t.idx), distinct: map[uint64]struct{}{}, counts: map[string]int64{}, skips: map[string]int64{}, genCount: map[string]int{}, div: c.NT(120, 8)}
		sub.journal = openJournal("")
		ck.run(sub)
		t.Count("cases_of_other_checks", int(atomic.LoadInt64(&sub.evals)))
		for _, v := range sub.viols {
			again := &Ctx{prop: sub.prop, tier: "quick", seed: sub.seed, distinct: map[uint64]struct{}{}, counts: map[string]int64{}, skips: map[string]int64{}, genCount: map[string]int{}, div: sub.div}
			again.journal = openJournal("")
			again.onlyGen, again.onlyIdx = v.Gen, v.Idx
			ck.run(again)
			if len(again.viols) == 0 {
				t.Fail("case %d of %s of %s fails beside others but not alone: %s", v.Idx, v.Gen, v.Property, v.Detail)
			}
			t.Count("cases_that_fail_alone_too", 1)
		}
	})
	if os.Getenv("VERIF_RACE_SELFTEST") != "" {
		x := 0
		together(newRng(1), 4, func(i int, h *hand) { x += rand.Int() })
	}
}
