package main

import (
	"errors"
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/katydid/katydid/parser"
	"github.com/katydid/katydid/parser/debug"
)

func init() {
	register("P35", &check{
		rule: "distinct documents with nested nodes read through a wrapper or a walker and compared",
		run:  runP35,
	})
}

// lines is a logger that keeps what it is told.
type lines struct{ ss []string }

func (l *lines) Printf(f string, v ...interface{}) { l.ss = append(l.ss, fmt.Sprintf(f, v...)) }

// taped sits around a parser and records the calls with their results.
type taped struct {
	p   parser.Interface
	ops []string
	res []string
}

func (t *taped) log(op string, res string) {
	t.ops = append(t.ops, op)
	t.res = append(t.res, res)
}
func (t *taped) Next() error {
	err := t.p.Next()
	t.log("Next", fmt.Sprint(err))
	return err
}
func (t *taped) IsLeaf() bool {
	b := t.p.IsLeaf()
	t.log("IsLeaf", fmt.Sprint(b))
	return b
}
func (t *taped) Up()   { t.p.Up(); t.log("Up", "") }
func (t *taped) Down() { t.p.Down(); t.log("Down", "") }
func (t *taped) Double() (float64, error) {
	v, err := t.p.Double()
	t.log("Double", fmt.Sprintf("%v, %v", v, err))
	return v, err
}
func (t *taped) Int() (int64, error) {
	v, err := t.p.Int()
	t.log("Int", fmt.Sprintf("%v, %v", v, err))
	return v, err
}
func (t *taped) Uint() (uint64, error) {
	v, err := t.p.Uint()
	t.log("Uint", fmt.Sprintf("%v, %v", v, err))
	return v, err
}
func (t *taped) Bool() (bool, error) {
	v, err := t.p.Bool()
	t.log("Bool", fmt.Sprintf("%v, %v", v, err))
	return v, err
}
func (t *taped) String() (string, error) {
	v, err := t.p.String()
	t.log("String", fmt.Sprintf("%v, %v", v, err))
	return v, err
}
func (t *taped) Bytes() ([]byte, error) {
	v, err := t.p.Bytes()
	t.log("Bytes", fmt.Sprintf("%v, %v", v, err))
	return v, err
}

// checkLog compares what was logged with the calls that were made.
func checkLog(t *T, tp *taped, l *lines) {
	if len(tp.ops) != len(l.ss) {
		t.Fail("%d calls were made, but %d lines were logged", len(tp.ops), len(l.ss))
	}
	for i, op := range tp.ops {
		if !strings.Contains(l.ss[i], "."+op+"()") || !strings.Contains(l.ss[i], tp.res[i]) {
			t.Fail("call number %d was %s giving (%s), but the log says %q", i, op, tp.res[i], l.ss[i])
		}
	}
	t.Count("logged_calls_compared", len(tp.ops))
}

func labelValue(v Val) interface{} {
	switch {
	case v.HasI:
		return v.I
	case v.HasU:
		return v.U
	case v.HasD:
		return v.D
	case v.HasB:
		return v.B
	case v.HasS:
		return v.S
	case v.HasY:
		return v.Y
	}
	return nil
}

func walkOf(ns []*Node) debug.Nodes {
	out := debug.Nodes{}
	for _, n := range ns {
		out = append(out, debug.Node{Label: fmt.Sprintf("%v", labelValue(n.V)), Children: walkOf(n.Kids)})
	}
	return out
}

func sameWalk(a, b debug.Nodes) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Label != b[i].Label || !sameWalk(a[i].Children, b[i].Children) {
			return false
		}
	}
	return true
}

// within tells what is wrong with a random walk: at every level it has to show
// the first nodes of the level and nothing else.
func within(got debug.Nodes, ns []*Node, lists, left *int) string {
	*lists++
	if len(got) > len(ns) {
		return fmt.Sprintf("%d nodes on a level of %d", len(got), len(ns))
	}
	if len(got) < len(ns) {
		*left++
	}
	for i := range got {
		w := fmt.Sprintf("%#v", labelValue(ns[i].V))
		if got[i].Label != w && !(w == "[]byte{}" && got[i].Label == "[]byte(nil)") {
			return fmt.Sprintf("the label %s where the document has %s", got[i].Label, w)
		}
		if got[i].Children == nil {
			continue
		}
		if bad := within(got[i].Children, ns[i].Kids, lists, left); bad != "" {
			return bad
		}
	}
	return ""
}

func anySource(r *Rng) *source {
	if r.P(25) {
		d := genDoc(r, genStyle(r))
		return &source{format: "tree", text: d.String(), doc: d,
			fresh: func() (parser.Interface, error) { return newTreeParser(d), nil }}
	}
	return formats[r.Intn(len(formats))].gen(r, 1)[0]
}

func freshOf(t *T, s *source) parser.Interface {
	p, err := s.fresh()
	if err != nil {
		t.Fail("%s parser refuses the document: %v\n%s", s.format, err, s.text)
	}
	return p
}

func nested(d Doc) bool {
	for _, n := range d {
		if len(n.Kids) > 0 {
			return true
		}
	}
	return false
}

var errPlanned = errors.New("planned fault")

func runP35(c *Ctx) {
	c.Run("logger", c.N(16000), func(t *T) {
		ss := []*source{anySource(t.Rng)}
		if t.P(50) {
			ss = formats[t.Intn(len(formats))].gen(t.Rng, 2+t.Intn(2))
		}
		s := ss[0]
		t.Info("%s: %s", s.format, s.text)
		l := &lines{}
		bare := freshOf(t, s)
		tp := &taped{p: debug.NewLogger(bare, l)}
		hist := s.text
		for k := 0; k < len(ss)+1; k++ {
			if k > 0 {
				if s.point == nil {
					break
				}
				// the parser below is pointed at another document
				s = ss[t.Intn(len(ss))]
				if err := s.point(bare); err != nil {
					t.Fail("%s parser: Init gives %v\n%s", s.format, err, s.text)
				}
				hist += "\ninit " + s.text
				t.Count("reinitializations", 1)
			}
			n := newNav(t.Rng, tp)
			if t.P(40) {
				n.pLeave, n.pSkip = 0, 0
			}
			if t.P(30) {
				n.pStop = []int{30, 100, 300}[t.Intn(3)]
			}
			bad := n.walk(s.doc)
			hist += "\n  calls:" + n.trace.String()
			if bad != "" {
				t.Fail("through the logger: %s\n%s document: %s\nhistory: %s", bad, s.format, s.text, hist)
			}
		}
		checkLog(t, tp, l)
		if nested(s.doc) {
			t.Nontrivial("logger", s.format, hist)
		}
	})
	c.Run("logger-faults", c.N(4000), func(t *T) {
		d := genDoc(t.Rng, genStyle(t.Rng))
		bare := newTreeParser(d)
		k := 1 + t.Intn(2*d.count()+2)
		bare.FaultAt, bare.Fault = k, errPlanned
		l := &lines{}
		tp := &taped{p: debug.NewLogger(bare, l)}
		limit := 10000
		_, err := readDoc(tp, &limit)
		if bare.Faulted != (err == errPlanned) {
			t.Fail("the parser failed: %v, but the logger gave %v\ndocument: %v, fault %d", bare.Faulted, err, d, k)
		}
		if bare.Faulted {
			t.Count("faults_passed_on", 1)
		}
		checkLog(t, tp, l)
	})
	c.Run("logger-verdicts", c.N(4000), func(t *T) {
		st := genStyle(t.Rng)
		g, docs := genGrammar(t.Rng, st, gramStyle{total: t.P(80)}, 12, 4)
		text := g.text(t.Rng)
		a := mustParse(t, text)
		v, err := newMem(a)
		if err != nil {
			t.Fail("refused: %v\n%s", err, text)
		}
		w, err := newMem(a)
		if err != nil {
			t.Fail("refused: %v\n%s", err, text)
		}
		var yes, no int
		for _, d := range docs {
			t.Info("%s\n%v", text, d)
			bare, in := newTreeParser(d), newTreeParser(d)
			l := &lines{}
			ok1, err1 := v.Validate(bare)
			tp := &taped{p: debug.NewLogger(in, l)}
			ok2, err2 := w.Validate(tp)
			if ok1 != ok2 || (err1 == nil) != (err2 == nil) {
				t.Fail("the verdict is %v (%v), through the logger it is %v (%v)\ngrammar: %s\ndocument: %v", ok1, err1, ok2, err2, text, d)
			}
			if string(bare.Trace) != string(in.Trace) {
				t.Fail("through the logger the parser sees the calls %s instead of %s\ngrammar: %s\ndocument: %v", in.Trace, bare.Trace, text, d)
			}
			checkLog(t, tp, l)
			if ok1 {
				yes++
			} else {
				no++
			}
		}
		t.Count("verdicts_compared", yes+no)
		if yes > 0 && no > 0 {
			t.Nontrivial("verdict", text)
		}
	})
	c.Run("walk", c.N(16000), func(t *T) {
		s := anySource(t.Rng)
		t.Info("%s: %s", s.format, s.text)
		p := freshOf(t, s)
		want := walkOf(s.doc)
		got := debug.Walk(p)
		if !sameWalk(got, want) {
			t.Fail("Walk gives %v\ninstead of  %v\n%s document: %s", got, want, s.format, s.text)
		}
		if tree, ok := p.(*TreeParser); ok {
			if len(tree.Breaches) > 0 || tree.Depth() != 0 {
				t.Fail("Walk broke the parser protocol: %v, depth %d at the end\ndocument: %s", tree.Breaches, tree.Depth(), s.text)
			}
			t.Count("protocol_checked_walks", 1)
		}
		t.Count("labels_compared", s.doc.count())
		if nested(s.doc) {
			t.Nontrivial("walk", s.format, s.text)
			t.Sample("%s: %s", s.format, clip(s.text))
		}
		// comparing
		other := walkOf(s.doc)
		if !got.Equal(other) || !other.Equal(got) {
			t.Fail("equal walks are reported to differ: %v", got)
		}
		if n := spoilWalk(t.Rng, other); n != "" {
			if got.Equal(other) || other.Equal(got) {
				t.Fail("walks that differ in %s are reported to be equal: %v and %v", n, got, other)
			}
			t.Count("differing_walks_compared", 1)
		}
	})
	c.Run("walk-faults", c.N(3000), func(t *T) {
		d := genDoc(t.Rng, genStyle(t.Rng))
		p := newTreeParser(d)
		k := 1 + t.Intn(2*d.count()+2)
		p.FaultAt, p.Fault = k, errPlanned
		var got debug.Nodes
		e := func() (e interface{}) {
			defer func() { e = recover() }()
			got = debug.Walk(p)
			return nil
		}()
		if p.Faulted && e != errPlanned {
			t.Fail("the parser failed but Walk gave %v (panic %v)\ndocument: %v, fault %d", got, e, d, k)
		}
		if !p.Faulted && e != nil {
			t.Fail("Walk panicked with %v\ndocument: %v", e, d)
		}
		t.Count("walks_with_faults", 1)
	})
	c.Run("randomwalk", c.N(16000), func(t *T) {
		s := anySource(t.Rng)
		next, down := 1+t.Intn(8), 1+t.Intn(4)
		t.Info("%s: %s, next %d, down %d", s.format, s.text, next, down)
		p := freshOf(t, s)
		var rnd debug.Rand = t.Rng
		all := t.P(20)
		if all {
			rnd = one{}
		}
		got := debug.RandomWalk(p, rnd, next, down)
		lists, left := 0, 0
		if bad := within(got, s.doc, &lists, &left); bad != "" {
			t.Fail("RandomWalk gives %s: %v\n%s document: %s", bad, got, s.format, s.text)
		}
		if all && (left > 0 || countWalk(got) != s.doc.count()) {
			t.Fail("RandomWalk with a source that never stops gives %d labels instead of %d: %v\n%s document: %s", countWalk(got), s.doc.count(), got, s.format, s.text)
		}
		if tree, ok := p.(*TreeParser); ok {
			if len(tree.Breaches) > 0 || tree.Depth() != 0 {
				t.Fail("RandomWalk broke the parser protocol: %v, depth %d at the end\ndocument: %s", tree.Breaches, tree.Depth(), s.text)
			}
			t.Count("protocol_checked_walks", 1)
		}
		t.Count("partial_levels", left)
		t.Count("levels", lists)
		if lists > 1 {
			t.Nontrivial("randomwalk", s.format, s.text)
		}
	})
	c.Run("values", c.N(4000), func(t *T) {
		v := genLeafVal(t.Rng, true)
		var p parser.Value
		one := Val{}
		switch {
		case v.HasI && t.P(60):
			p, one = debug.NewIntValue(v.I), vI(v.I)
		case v.HasU && t.P(60):
			p, one = debug.NewUintValue(v.U), vU(v.U)
		case v.HasD:
			p, one = debug.NewDoubleValue(v.D), vD(v.D)
		case v.HasB:
			p, one = debug.NewBoolValue(v.B), vB(v.B)
		case v.HasS:
			p, one = debug.NewStringValue(v.S), vS(v.S)
		case v.HasY:
			p, one = debug.NewBytesValue(v.Y), vY(v.Y)
		default:
			return
		}
		if got := readVal(p); !got.equal(one) {
			t.Fail("a wrapped %v reads %v", one, got)
		}
		// the value printed for messages
		var w interface{}
		switch {
		case one.HasI:
			w = one.I
		case one.HasU:
			w = one.U
		case one.HasD:
			w = one.D
		case one.HasB:
			w = one.B
		case one.HasS:
			w = one.S
		case one.HasY:
			w = one.Y
		}
		if got, want := parser.Sprint(p), fmt.Sprintf("%#v", w); got != want {
			t.Fail("a wrapped %v is printed as %s instead of %s", one, got, want)
		}
		t.Count("wrapped_values", 1)
	})
	c.Run("nodes", c.N(6000), func(t *T) {
		// recorded walks compare by content
		var make1 func(depth int) debug.Nodes
		make1 = func(depth int) debug.Nodes {
			var ns debug.Nodes
			for k := t.Intn(4); k > 0; k-- {
				if depth > 0 && t.P(50) {
					ns = append(ns, debug.Nested(t.Pick("A", "B", "C"), make1(depth-1)...))
				} else {
					ns = append(ns, debug.Field(t.Pick("A", "B", "C"), t.Pick("1", "2", "x")))
				}
			}
			return ns
		}
		var same func(a, b debug.Nodes) bool
		same = func(a, b debug.Nodes) bool {
			if len(a) != len(b) {
				return false
			}
			for i := range a {
				if a[i].Label != b[i].Label || !same(a[i].Children, b[i].Children) {
					return false
				}
			}
			return true
		}
		var show func(ns debug.Nodes) string
		show = func(ns debug.Nodes) string {
			var ss []string
			for _, n := range ns {
				x := n.Label
				if len(n.Children) > 0 {
					x += ":" + show(n.Children)
				}
				ss = append(ss, x)
			}
			return "{" + strings.Join(ss, ",") + "}"
		}
		var clone func(ns debug.Nodes) debug.Nodes
		clone = func(ns debug.Nodes) debug.Nodes {
			var out debug.Nodes
			for _, n := range ns {
				out = append(out, debug.Node{Label: n.Label, Children: clone(n.Children)})
			}
			return out
		}
		a := make1(3)
		b := clone(a)
		if t.P(20) {
			b = make1(3)
		} else if t.P(70) {
			// change one place
			at := &b
			for len(*at) > 0 {
				i := t.Intn(len(*at))
				if len((*at)[i].Children) > 0 && t.P(70) {
					at = &(*at)[i].Children
					continue
				}
				switch t.Intn(4) {
				case 0:
					(*at)[i].Label = t.Pick("A", "B", "C", "1", "2")
				case 1:
					*at = append((*at)[:i:i], (*at)[i+1:]...)
				case 2:
					*at = append(*at, (*at)[i])
				case 3:
					j := t.Intn(len(*at))
					(*at)[i], (*at)[j] = (*at)[j], (*at)[i]
				}
				break
			}
		}
		want := same(a, b)
		if a.Equal(b) != want || b.Equal(a) != want {
			t.Fail("%v and %v: equal=%v, reversed %v, by content %v", a, b, a.Equal(b), b.Equal(a), want)
		}
		if got := a.String(); got != show(a) {
			t.Fail("printed as %s instead of %s", got, show(a))
		}
		t.Count("recorded_walks_compared", 1)
		if !want {
			t.Count("different_recorded_walks", 1)
			t.Nontrivial("nodes", show(a), show(b))
		}
	})
	c.RunSeq("line-logger", c.N(60), func(t *T) {
		// the loggers that write to the standard error
		f, err := os.CreateTemp("", "katydid-log")
		if err != nil {
			panic(err)
		}
		defer os.Remove(f.Name())
		defer f.Close()
		old := os.Stderr
		os.Stderr = f
		var l debug.Logger
		if t.P(50) {
			l = debug.NewLineLogger()
		} else {
			l = debug.NewDelayLogger(time.Microsecond)
		}
		os.Stderr = old
		s := anySource(t.Rng)
		t.Info("%s: %s", s.format, s.text)
		tp := &taped{p: debug.NewLogger(freshOf(t, s), l)}
		n := newNav(t.Rng, tp)
		if bad := n.walk(s.doc); bad != "" {
			t.Fail("through the logger: %s\n%s document: %s\ncalls:%s", bad, s.format, s.text, n.trace.String())
		}
		out, err := os.ReadFile(f.Name())
		if err != nil {
			panic(err)
		}
		rest := string(out)
		for i, op := range tp.ops {
			// values may contain line breaks
			k := strings.Index(rest, "."+op+"()")
			if k < 0 {
				t.Fail("call number %d, %s, is not in the log\n%s", i, op, out)
			}
			head := rest[:k]
			if j := strings.LastIndex(head, "\n"); j >= 0 {
				head = head[j+1:]
			}
			if !strings.HasPrefix(head, "p_debug.go:") {
				t.Fail("call number %d, %s, is logged as coming from %q", i, op, head)
			}
			rest = rest[k+len(op)+3:]
		}
		t.Count("logged_lines", len(tp.ops))
	})
}

// one never stops and always descends.
type one struct{}

func (one) Intn(n int) int { return 1 }

func countWalk(ns debug.Nodes) int {
	k := 0
	for _, n := range ns {
		k += 1 + countWalk(n.Children)
	}
	return k
}

// spoil makes one change somewhere in a walk.
func spoilWalk(r *Rng, ns debug.Nodes) string {
	if len(ns) == 0 {
		return ""
	}
	i := r.Intn(len(ns))
	if len(ns[i].Children) > 0 && r.P(60) {
		return spoilWalk(r, ns[i].Children)
	}
	switch r.Intn(3) {
	case 0:
		ns[i].Label += "x"
		return "a label"
	case 1:
		ns[i].Children = append(ns[i].Children, debug.Node{Label: "new"})
		return "an additional node"
	}
	if len(ns[i].Children) == 0 {
		ns[i].Label += " "
		return "a label"
	}
	ns[i].Children = ns[i].Children[:len(ns[i].Children)-1]
	return "a missing node"
}
