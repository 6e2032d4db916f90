package main

import (
	"fmt"
	"io"
	"strings"

	"github.com/katydid/katydid/parser"
)

// source is a document in one of the formats, together with what a parser of
// that format has to present.
type source struct {
	format string
	text   string // printable form for messages
	doc    Doc
	// fresh makes a new parser that is ready to present the document.
	fresh func() (parser.Interface, error)
	// point points a parser that was made by the fresh of any source of the same
	// family at this document.
	point func(p parser.Interface) error
	// parse makes a new parser of the same kind for other bytes.
	parse func(buf []byte) (parser.Interface, error)
	// bytes is the raw input, when the format has one.
	bytes []byte
}

type resetter interface{ Reset() error }

// nav walks a parser along a random path that the protocol allows and compares
// everything it sees with the document.
type nav struct {
	*Rng
	p       parser.Interface
	trace   strings.Builder
	steps   int
	early   int
	skipped int
	partial int
	twice   int
	depth   int
	from    int // the depth from which levels are left and labels skipped
	pLeave  int // chances in a thousand
	pSkip   int
	ended   bool // also ask again after the end of a level
	pStop   int  // chance in a thousand to abandon the document at a label
	stopped int
}

func newNav(r *Rng, p parser.Interface) *nav {
	n := &nav{Rng: r, p: p, pLeave: []int{0, 0, 2, 30, 30, 100, 300, 300}[r.Intn(8)], pSkip: []int{0, 0, 2, 200, 200, 500, 800}[r.Intn(7)]}
	return n
}

func depthOf(ns []*Node) int {
	d := 0
	for _, n := range ns {
		d = max(d, 1+depthOf(n.Kids))
	}
	return d
}

func (n *nav) leave() bool {
	return n.depth >= n.from && n.Intn(1000) < n.pLeave
}

func (n *nav) note(f string, a ...interface{}) {
	if n.trace.Len() < 4000 {
		fmt.Fprintf(&n.trace, f, a...)
	}
}

// read compares one way of reading the current label.
func (n *nav) read(want *Node) string {
	v := want.V
	bad := func(view string, has bool, want, got interface{}, err error) string {
		return fmt.Sprintf("%s gives %v (error %v), the document has %v (present %v) at label %v", view, got, err, want, has, v)
	}
	switch n.Intn(8) {
	case 0:
		n.note(" leaf?")
		if n.p.IsLeaf() != want.Leaf {
			return fmt.Sprintf("IsLeaf gives %v at label %v", n.p.IsLeaf(), v)
		}
	case 1:
		n.note(" string")
		g, err := n.p.String()
		if (err == nil) != v.HasS || g != v.S && v.HasS {
			return bad("String", v.HasS, v.S, g, err)
		}
	case 2:
		n.note(" int")
		g, err := n.p.Int()
		if (err == nil) != v.HasI || g != v.I && v.HasI {
			return bad("Int", v.HasI, v.I, g, err)
		}
	case 3:
		n.note(" uint")
		g, err := n.p.Uint()
		if (err == nil) != v.HasU || g != v.U && v.HasU {
			return bad("Uint", v.HasU, v.U, g, err)
		}
	case 4:
		n.note(" double")
		g, err := n.p.Double()
		if (err == nil) != v.HasD || !sameFloat(g, v.D) && v.HasD {
			return bad("Double", v.HasD, v.D, g, err)
		}
	default:
		n.note(" all")
		if n.p.IsLeaf() != want.Leaf {
			return fmt.Sprintf("IsLeaf gives %v at label %v", n.p.IsLeaf(), v)
		}
		if g := readVal(n.p); !g.equal(v) {
			return fmt.Sprintf("the label reads %v, the document has %v", g, v)
		}
	}
	return ""
}

// walk gives "" or what was wrong.
func (n *nav) walk(ns []*Node) string {
	for i, want := range ns {
		if n.leave() {
			n.early++
			n.note(" leave")
			return ""
		}
		n.note(" next")
		n.steps++
		if err := n.p.Next(); err != nil {
			return fmt.Sprintf("Next gives %v instead of the label %v (number %d of %d)", err, want.V, i, len(ns))
		}
		for k := n.Intn(3); k > 0; k-- {
			if k == 2 {
				n.twice++
			}
			if bad := n.read(want); bad != "" {
				return bad
			}
		}
		if n.pStop > 0 && n.Intn(1000) < n.pStop {
			n.note(" abandon")
			n.stopped++
			return ""
		}
		if want.Leaf {
			continue
		}
		if n.depth >= n.from && n.Intn(1000) < n.pSkip {
			n.skipped++
			continue
		}
		n.note(" down(")
		n.p.Down()
		n.depth++
		e := n.early
		if bad := n.walk(want.Kids); bad != "" || n.stopped > 0 {
			return bad
		}
		n.depth--
		if n.early > e {
			n.partial++
		}
		n.note(" )up")
		n.p.Up()
	}
	if !n.leave() {
		n.note(" next")
		if err := n.p.Next(); err != io.EOF {
			if err == nil {
				return fmt.Sprintf("Next presents another label %v (leaf %v) after the %d labels of the level", readVal(n.p), n.p.IsLeaf(), len(ns))
			}
			return fmt.Sprintf("Next gives %v instead of the end of a level of %d labels", err, len(ns))
		}
	}
	return ""
}

// checkFull compares a complete walk with the document.
func checkFull(t *T, s *source) {
	t.Info("%s document: %s", s.format, s.text)
	p, err := s.fresh()
	if err != nil {
		t.Fail("%s parser refuses the document: %v\n%s\nexpected: %v", s.format, err, s.text, s.doc)
	}
	limit := 20*s.doc.count() + 10000
	got, err := readDoc(p, &limit)
	if err != nil {
		t.Fail("%s parser gives an error: %v\n%s\nexpected: %v\ngot until there: %v", s.format, err, s.text, s.doc, got)
	}
	if !equalDocs(got, s.doc) {
		t.Fail("%s parser presents another document\n%s\nexpected: %v\ngot:      %v", s.format, s.text, s.doc, got)
	}
	t.Count("documents_compared", 1)
	t.Count("labels_compared", s.doc.count())
}

// checkNav navigates one parser over several documents.
func checkNav(t *T, ss []*source, rounds int) {
	s := ss[0]
	p, err := s.fresh()
	if err != nil {
		t.Fail("%s parser refuses the document: %v\n%s", s.format, err, s.text)
	}
	hist := ""
	partial := 0
	for k := 0; k < rounds; k++ {
		if k > 0 {
			if rs, ok := p.(resetter); ok && t.P(30) {
				hist += "\nreset"
				if err := rs.Reset(); err != nil {
					t.Fail("%s parser: Reset gives %v\n%s\nhistory: %s", s.format, err, s.text, hist)
				}
				t.Count("resets", 1)
			} else {
				s = ss[t.Intn(len(ss))]
				hist += "\ninit " + s.text
				if err := s.point(p); err != nil {
					t.Fail("%s parser: Init gives %v\n%s\nhistory: %s", s.format, err, s.text, hist)
				}
				t.Count("reinitializations", 1)
			}
		} else {
			hist += "fresh " + s.text
		}
		n := newNav(t.Rng, p)
		if d := depthOf(s.doc); d > 20 && t.P(60) {
			n.from = t.Intn(d)
			n.pLeave = max(n.pLeave, 30)
		}
		if k+1 < rounds && t.P(30) {
			// the next round starts where this one stops, below the top perhaps
			n.pStop = []int{30, 100, 300}[t.Intn(3)]
		}
		t.Info("%s history: %s", s.format, hist)
		bad := n.walk(s.doc)
		hist += "\n  calls:" + n.trace.String()
		if bad != "" {
			t.Fail("%s parser: %s\nexpected: %v\nhistory: %s", s.format, bad, s.doc, hist)
		}
		t.Count("steps", n.steps)
		t.Count("subtrees_skipped", n.skipped)
		t.Count("early_ascents", n.early)
		t.Count("repeated_reads", n.twice)
		t.Count("documents_abandoned", n.stopped)
		partial += n.partial + n.skipped + n.stopped
	}
	if partial > 0 && rounds > 1 {
		t.Nontrivial(hist)
		t.Sample("%s %s", s.format, hist)
	}
}

// wander walks a parser at random without knowing the document.  It gives the
// number of steps, whether everything was read, and the error that stopped it.
func wander(r *Rng, p parser.Interface, budget int, pSkip, pLeave int, read bool) (steps int, complete bool, err error) {
	complete = true
	var rec func() error
	rec = func() error {
		for {
			if r != nil && r.P(pLeave) {
				complete = false
				return nil
			}
			steps++
			if steps > budget {
				return errLimit
			}
			err := p.Next()
			if err == io.EOF {
				return nil
			}
			if err != nil {
				return err
			}
			leaf := p.IsLeaf()
			if read {
				readVal(p)
			}
			if !leaf {
				if r != nil && r.P(pSkip) {
					complete = false
					continue
				}
				p.Down()
				if err := rec(); err != nil {
					return err
				}
				p.Up()
			}
		}
	}
	err = rec()
	return
}
