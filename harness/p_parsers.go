package main

import (
	"encoding/json"
	"io"
	"strings"

	sproto "github.com/katydid/katydid/parser/proto"
)

func init() {
	register("P17", &check{
		rule: "distinct JSON texts with at least two labels whose complete walk was compared",
		run:  runP17,
	})
}

func init() {
	register("P18", &check{
		rule: "distinct messages with at least two labels whose complete walk was compared",
		run:  runP18,
	})
}

func fullCase(t *T, s *source) {
	checkFull(t, s)
	if s.doc.count() >= 2 {
		t.Nontrivial(s.text)
		t.Sample("%s", s.text)
	}
}

func runP17(c *Ctx) {
	c.Run("random", c.N(60000), func(t *T) { fullCase(t, genJSON(t.Rng, t.Intn(6))) })
	c.Run("deep", c.N(200), func(t *T) {
		j := genJ(t.Rng, 1)
		for n := t.Intn(300); n > 0; n-- {
			if t.P(50) {
				j = &J{kind: '[', kids: []*J{j}}
				if t.P(20) {
					j.kids = append(j.kids, genJ(t.Rng, 0))
				}
			} else {
				j = &J{kind: '{', keys: []string{genString(t.Rng)}, kids: []*J{j}}
			}
		}
		fullCase(t, jsonSource(j.text(t.Rng), Doc(j.nodes())))
	})
	large(c, "json", 400)
	c.Run("mutated", c.N(100000), func(t *T) {
		buf := mutateBytes(t.Rng, genJ(t.Rng, t.Intn(4)).text(t.Rng), jsonAlphabet)
		if !json.Valid(buf) {
			t.Count("invalid_mutants", 1)
			return
		}
		j, err := parseJ(buf)
		if err != nil {
			t.Fail("harness: the standard library calls %q valid and gives %v", buf, err)
		}
		if j.fuzzy() {
			return
		}
		fullCase(t, jsonSource(buf, Doc(j.nodes())))
	})
}

func runP18(c *Ctx) {
	c.Run("random", c.N(30000), func(t *T) {
		f := genPFamily(t.Rng)
		t.Info("types: %s", describeAll(f.ts))
		for k := 0; k < 4; k++ {
			s, _ := f.source(t.Rng, t.Intn(4))
			s.text += "\ntypes: " + describeAll(f.ts)
			fullCase(t, s)
		}
	})
	large(c, "proto", 250)
	c.Run("descriptors", c.N(12000), func(t *T) {
		f := genPFamily(t.Rng)
		s, _ := f.source(t.Rng, t.Intn(4))
		t.Info("%s\ntypes: %s", s.text, describeAll(f.ts))
		ip, err := s.fresh()
		if err != nil {
			t.Fail("parser refuses the message: %v", err)
		}
		p := ip.(sproto.ProtoParser)
		budget := t.Intn(30)
		stop := false
		var level func(typ *PT)
		level = func(typ *PT) {
			for !stop {
				if budget--; budget < 0 {
					stop = true
					return
				}
				if got := p.Message().GetName(); got != typ.name[strings.LastIndex(typ.name, ".")+1:] {
					t.Fail("the current message is %s instead of %s", got, typ.name)
				}
				if err := p.Next(); err == io.EOF {
					return
				} else if err != nil {
					t.Fail("Next gives %v", err)
				}
				label, err := p.String()
				if err != nil {
					t.Fail("no label: %v", err)
				}
				if got := p.Message().GetName(); got != typ.name[strings.LastIndex(typ.name, ".")+1:] {
					t.Fail("the current message at %s is %s instead of %s", label, got, typ.name)
				}
				if p.Field().GetName() != label {
					t.Fail("the current field at %s is %s", label, p.Field().GetName())
				}
				var pf *PF
				for _, x := range typ.all() {
					if x.name == label {
						pf = x
					}
				}
				if pf == nil || int(p.Field().GetNumber()) != pf.num || p.Field().GetType() != pf.kind {
					t.Fail("the current field at %s of %s is %v", label, typ.name, p.Field())
				}
				t.Count("descriptors_compared", 1)
				if t.P(25) {
					continue
				}
				p.Down()
				if pf.rep {
					for !stop {
						if budget--; budget < 0 {
							stop = true
							break
						}
						if err := p.Next(); err == io.EOF {
							break
						} else if err != nil {
							t.Fail("Next gives %v", err)
						}
						if pf.msg != nil {
							p.Down()
							level(pf.msg)
							if !stop {
								p.Up()
							}
						}
					}
				} else if pf.msg != nil {
					level(pf.msg)
				}
				if !stop {
					p.Up()
				}
			}
		}
		level(f.root)
		// wherever that was, the parser starts again
		if err := p.Reset(); err != nil {
			t.Fail("Reset gives %v", err)
		}
		n := 100000
		got, err := readDoc(p, &n)
		if err != nil {
			t.Fail("after Reset: %v", err)
		}
		if !equalDocs(got, s.doc) {
			t.Fail("after Reset the document is %v instead of %v", got, s.doc)
		}
		if s.doc.count() >= 2 {
			t.Nontrivial(s.text)
		}
	})
	c.Run("unmarshal", c.N(30000), func(t *T) {
		at := allType()
		if t.P(50) {
			// fewer fields, so that a field has neighbours of every kind
			keep := at.fields[:0]
			for _, f := range at.fields {
				if t.P(15) {
					keep = append(keep, f)
				}
			}
			at.fields = keep
		}
		f := &pFamily{ts: []*PT{at}, root: at, set: fileSet(nil, []*PT{at})}
		s, m := f.source(t.Rng, t.Intn(3))
		t.Info("%s", s.text)
		d, err := unmarshalled(s.bytes, m.doc())
		if err != nil || !equalDocs(d, s.doc) {
			t.Fail("harness: the protobuf library reads another message: %v\n%s\nexpected: %v\ngot: %v", err, s.text, s.doc, d)
		}
		t.Count("messages_unmarshalled", 1)
		fullCase(t, s)
	})
}

func init() {
	register("P19", &check{
		rule: "distinct Go values with at least two labels whose complete walk was compared",
		run: func(c *Ctx) {
			c.Run("random", c.N(60000), func(t *T) { fullCase(t, genReflect(t.Rng, t.Intn(4))) })
			large(c, "reflect", 400)
		},
	})
	register("P20", &check{
		rule: "distinct XML texts with at least two labels whose complete walk was compared",
		run: func(c *Ctx) {
			c.Run("random", c.N(60000), func(t *T) { fullCase(t, genXML(t.Rng, t.Intn(5), genXMLOpts(t.Rng))) })
			large(c, "xml", 400)
		},
	})
}

func init() {
	register("P21", &check{
		rule: "distinct YAML texts of the supported subset with at least two labels whose complete walk was compared",
		run:  runP21,
	})
}

func runP21(c *Ctx) {
	c.Run("random", c.N(60000), func(t *T) {
		s := genYAML(t.Rng, 1+t.Intn(5))
		t.Info("%s", s.text)
		fullCase(t, s)
	})
	large(c, "yaml", 400)
}

// formats makes sources of every format; the sources of one call can be
// presented by one parser.
var formats = []struct {
	name string
	gen  func(r *Rng, n int) []*source
}{
	{"json", func(r *Rng, n int) (ss []*source) {
		for ; n > 0; n-- {
			ss = append(ss, genJSON(r, r.Intn(5)))
		}
		return
	}},
	{"xml", func(r *Rng, n int) (ss []*source) {
		o := genXMLOpts(r)
		for ; n > 0; n-- {
			ss = append(ss, genXML(r, r.Intn(5), o))
		}
		return
	}},
	{"yaml", func(r *Rng, n int) (ss []*source) {
		for ; n > 0; n-- {
			ss = append(ss, genYAML(r, 1+r.Intn(4)))
		}
		return
	}},
	{"proto", func(r *Rng, n int) (ss []*source) {
		f := genPFamily(r)
		for ; n > 0; n-- {
			s, _ := f.source(r, r.Intn(4))
			ss = append(ss, s)
		}
		return
	}},
	{"reflect", func(r *Rng, n int) (ss []*source) {
		for ; n > 0; n-- {
			ss = append(ss, genReflect(r, r.Intn(4)))
		}
		return
	}},
}

func init() {
	register("P23", &check{
		rule: "distinct histories of navigations with one parser over at least two documents in which a level was skipped or left early",
		run: func(c *Ctx) {
			for _, f := range formats {
				f := f
				c.Run(f.name, c.N(12000), func(t *T) {
					checkNav(t, f.gen(t.Rng, 1+t.Intn(3)), 1+t.Intn(5))
				})
				c.Run(f.name+"-large", c.N(500), func(t *T) {
					ss := []*source{largeSource(t.Rng, f.name, 17000)}
					if t.P(70) {
						t.grow(2, 17000)
						ss = f.gen(t.Rng, 2)
						t.big = 0
					}
					checkNav(t, ss, 2+t.Intn(4))
				})
			}
		},
	})
}
