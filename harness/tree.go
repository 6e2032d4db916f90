package main

import (
	"bytes"
	"fmt"
	"io"
	"strconv"
	"strings"

	"github.com/katydid/katydid/parser"
)

// Val is what a label (a field name, an array index or a leaf value) looks like
// through the six typed views of the parser interface.  More than one view may
// be present: the JSON number 1 is an int, an uint and a double.
type Val struct {
	HasS, HasI, HasU, HasD, HasB, HasY bool
	S                                  string
	I                                  int64
	U                                  uint64
	D                                  float64
	B                                  bool
	Y                                  []byte
}

func vS(s string) Val  { return Val{HasS: true, S: s} }
func vI(i int64) Val   { return Val{HasI: true, I: i} }
func vU(u uint64) Val  { return Val{HasU: true, U: u} }
func vD(d float64) Val { return Val{HasD: true, D: d} }
func vB(b bool) Val    { return Val{HasB: true, B: b} }
func vY(y []byte) Val  { return Val{HasY: true, Y: y} }

// vNum is a JSON-like number.
func vNum(i int64) Val {
	v := Val{HasI: true, I: i, HasD: true, D: float64(i)}
	if i >= 0 {
		v.HasU, v.U = true, uint64(i)
	}
	return v
}

func (v Val) String() string {
	var ss []string
	if v.HasS {
		ss = append(ss, strconv.Quote(v.S))
	}
	if v.HasI {
		ss = append(ss, fmt.Sprintf("int(%d)", v.I))
	}
	if v.HasU {
		ss = append(ss, fmt.Sprintf("uint(%d)", v.U))
	}
	if v.HasD {
		ss = append(ss, fmt.Sprintf("double(%v)", v.D))
	}
	if v.HasB {
		ss = append(ss, fmt.Sprintf("%v", v.B))
	}
	if v.HasY {
		ss = append(ss, fmt.Sprintf("bytes%v", v.Y))
	}
	if len(ss) == 0 {
		return "null"
	}
	return strings.Join(ss, "/")
}

func sameFloat(a, b float64) bool { return a == b || (a != a && b != b) }

func (v Val) equal(w Val) bool {
	return v.HasS == w.HasS && v.HasI == w.HasI && v.HasU == w.HasU && v.HasD == w.HasD && v.HasB == w.HasB && v.HasY == w.HasY &&
		v.S == w.S && v.I == w.I && v.U == w.U && sameFloat(v.D, w.D) && v.B == w.B && bytes.Equal(v.Y, w.Y)
}

// readVal reads all six views of the parser's current label.
func readVal(p parser.Value) Val {
	var v Val
	if s, err := p.String(); err == nil {
		v.HasS, v.S = true, string(append([]byte(nil), s...))
	}
	if i, err := p.Int(); err == nil {
		v.HasI, v.I = true, i
	}
	if u, err := p.Uint(); err == nil {
		v.HasU, v.U = true, u
	}
	if d, err := p.Double(); err == nil {
		v.HasD, v.D = true, d
	}
	if b, err := p.Bool(); err == nil {
		v.HasB, v.B = true, b
	}
	if y, err := p.Bytes(); err == nil {
		v.HasY, v.Y = true, append([]byte{}, y...)
	}
	return v
}

// Node is a labelled node of a document tree.
type Node struct {
	V    Val
	Leaf bool
	Kids []*Node
	id   int
}

type Doc []*Node

func leaf(v Val) *Node                    { return &Node{V: v, Leaf: true} }
func field(name string, k ...*Node) *Node { return &Node{V: vS(name), Kids: k} }
func index(i int, k ...*Node) *Node       { return &Node{V: vI(int64(i)), Kids: k} }

func (n *Node) str(b *strings.Builder) {
	b.WriteString(n.V.String())
	if n.Leaf {
		return
	}
	b.WriteString(":{")
	for i, k := range n.Kids {
		if i > 0 {
			b.WriteString(", ")
		}
		k.str(b)
	}
	b.WriteString("}")
}

func (d Doc) String() string {
	var b strings.Builder
	b.WriteString("{")
	for i, n := range d {
		if i > 0 {
			b.WriteString(", ")
		}
		n.str(&b)
	}
	b.WriteString("}")
	return b.String()
}

func (d Doc) count() int {
	n := 0
	for _, k := range d {
		n += 1 + Doc(k.Kids).count()
	}
	return n
}

func equalDocs(a, b Doc) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Leaf != b[i].Leaf || !a[i].V.equal(b[i].V) || !equalDocs(a[i].Kids, b[i].Kids) {
			return false
		}
	}
	return true
}

// readDoc walks a parser completely.  limit bounds the number of Next calls.
func readDoc(p parser.Interface, limit *int) (Doc, error) {
	d := Doc{}
	for {
		*limit--
		if *limit < 0 {
			return d, errLimit
		}
		err := p.Next()
		if err == io.EOF {
			return d, nil
		}
		if err != nil {
			return d, err
		}
		n := &Node{Leaf: p.IsLeaf()}
		n.V = readVal(p)
		if !n.Leaf {
			p.Down()
			kids, err := readDoc(p, limit)
			if err != nil {
				return append(d, n), err
			}
			n.Kids = kids
			p.Up()
		}
		d = append(d, n)
	}
}

var errLimit = fmt.Errorf("harness: too many nodes")

// ------------------------------------------------------------- TreeParser

// TreeParser presents a Doc through parser.Interface and, at the same time,
// monitors the protocol of its user: it records every call that is made in a
// position where the interface gives it no meaning.
type TreeParser struct {
	stack    []frame
	Breaches []string
	Trace    []byte // N next, E eof, D down, U up, v value
	nexts    int
	downs    int
	ups      int
	reads    int
	eofs     int
	// fault injection: the k-th Next (1-based) fails with Fault.
	FaultAt  int
	Fault    error
	Faulted  bool
	ReadFail int // the k-th value read fails with Fault
	// nodes visited, by pointer
	afterFault int
	floor      int // depth below which the user may not ascend
	earlyUps   int // ascents before the end of the level
}

type frame struct {
	list Doc
	pos  int // index of the current node, -1 before the first Next
	eof  bool
}

func newTreeParser(d Doc) *TreeParser {
	p := &TreeParser{}
	p.stack = append(p.stack, frame{list: d, pos: -1})
	return p
}

func (p *TreeParser) breach(f string, a ...interface{}) {
	if len(p.Breaches) < 8 {
		p.Breaches = append(p.Breaches, fmt.Sprintf(f, a...))
	}
}

func (p *TreeParser) top() *frame { return &p.stack[len(p.stack)-1] }

func (p *TreeParser) cur(op string) *Node {
	f := p.top()
	if f.pos < 0 || f.pos >= len(f.list) || f.eof {
		p.breach("%s called while no node is current (depth %d, position %d of %d, eof=%v)", op, len(p.stack)-1, f.pos, len(f.list), f.eof)
		return nil
	}
	return f.list[f.pos]
}

func (p *TreeParser) Next() error {
	p.nexts++
	if p.Faulted {
		p.afterFault++
	}
	if p.FaultAt == p.nexts && p.Fault != nil {
		p.Faulted = true
		p.Trace = append(p.Trace, 'F')
		return p.Fault
	}
	f := p.top()
	if f.eof {
		p.breach("Next called again after the end of the level")
	}
	if f.pos+1 >= len(f.list) {
		f.eof = true
		p.eofs++
		p.Trace = append(p.Trace, 'E')
		return io.EOF
	}
	f.pos++
	p.Trace = append(p.Trace, 'N')
	return nil
}

func (p *TreeParser) IsLeaf() bool {
	n := p.cur("IsLeaf")
	return n != nil && n.Leaf
}

func (p *TreeParser) Down() {
	p.downs++
	p.Trace = append(p.Trace, 'D')
	n := p.cur("Down")
	if n == nil {
		p.stack = append(p.stack, frame{pos: -1})
		return
	}
	if n.Leaf {
		p.breach("Down called on a leaf")
	}
	p.stack = append(p.stack, frame{list: n.Kids, pos: -1})
}

func (p *TreeParser) Up() {
	p.ups++
	p.Trace = append(p.Trace, 'U')
	if len(p.stack) == 1+p.floor {
		p.breach("Up called at the top level")
		return
	}
	if f := p.top(); !f.eof {
		p.earlyUps++
	}
	p.stack = p.stack[:len(p.stack)-1]
}

func (p *TreeParser) Depth() int { return len(p.stack) - 1 }

func (p *TreeParser) read(op string) *Node {
	p.reads++
	return p.cur(op)
}

func (p *TreeParser) Double() (float64, error) {
	if n := p.read("Double"); n != nil && n.V.HasD {
		return n.V.D, nil
	}
	return 0, parser.ErrNotDouble
}
func (p *TreeParser) Int() (int64, error) {
	if n := p.read("Int"); n != nil && n.V.HasI {
		return n.V.I, nil
	}
	return 0, parser.ErrNotInt
}
func (p *TreeParser) Uint() (uint64, error) {
	if n := p.read("Uint"); n != nil && n.V.HasU {
		return n.V.U, nil
	}
	return 0, parser.ErrNotUint
}
func (p *TreeParser) Bool() (bool, error) {
	if n := p.read("Bool"); n != nil && n.V.HasB {
		return n.V.B, nil
	}
	return false, parser.ErrNotBool
}
func (p *TreeParser) String() (string, error) {
	if n := p.read("String"); n != nil && n.V.HasS {
		return n.V.S, nil
	}
	return "", parser.ErrNotString
}
func (p *TreeParser) Bytes() ([]byte, error) {
	if n := p.read("Bytes"); n != nil && n.V.HasY {
		return n.V.Y, nil
	}
	return nil, parser.ErrNotBytes
}
