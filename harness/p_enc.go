package main

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	ejson "github.com/katydid/katydid/encode/json"
	eproto "github.com/katydid/katydid/encode/proto"
	ereflect "github.com/katydid/katydid/encode/reflect"
	exml "github.com/katydid/katydid/encode/xml"
	"github.com/katydid/katydid/parser"
)

func init() {
	register("P26", &check{
		rule: "distinct documents with at least two labels whose JSON was decoded and compared",
		run:  runP26,
	})
	register("P27", &check{
		rule: "distinct messages with at least two labels whose encoding was decoded and compared",
		run:  runP27,
	})
	register("P28", &check{
		rule: "distinct documents with at least two labels from which a Go value was filled and compared",
		run:  runP28,
	})
	register("P29", &check{
		rule: "distinct documents with at least two labels whose XML was decoded and compared",
		run:  runP29,
	})
}

// faults encodes d once for every advance of the parser, which then fails.
func faults(t *T, name string, d Doc, enc func(p parser.Interface) ([]byte, error)) {
	p := newTreeParser(d)
	if _, err := enc(p); err != nil {
		return
	}
	n := p.nexts
	for at := 1; at <= n; at++ {
		if n > 25 && !t.P(2500/n) {
			continue
		}
		p := newTreeParser(d)
		p.FaultAt, p.Fault = at, pickFault(t.Rng, at)
		out, err := enc(p)
		if !p.Faulted {
			t.Fail("%s: the number of advances differs between two runs on %v", name, d)
		}
		if err == nil {
			t.Fail("%s: the parser failed at advance %d of %d (%v) but the encoder returned no error\ndocument: %v\ncalls: %s\nresult: %q", name, at, n, p.Fault, d, p.Trace, out)
		}
		if err != p.Fault && !strings.Contains(err.Error(), p.Fault.Error()) {
			t.Fail("%s: the parser failed at advance %d of %d with %v but the encoder returned %v\ndocument: %v", name, at, n, p.Fault, err, d)
		}
		t.Count("faults_injected", 1)
	}
}

// protocol checks how an encoder used the monitored parser.
func protocol(t *T, name string, d Doc, enc func(p parser.Interface) ([]byte, error)) {
	for k := 0; k < 3; k++ {
		p := newTreeParser(d)
		if k > 0 {
			p.Fault = errFault
			p.FaultAt = 1 + t.Intn(2*d.count()+2)
		}
		t.Info("%s on %v", name, d)
		_, err := enc(p)
		if len(p.Breaches) > 0 {
			t.Fail("%s breaks the parser protocol: %s\ndocument: %v\ncalls: %s", name, strings.Join(p.Breaches, "; "), d, p.Trace)
		}
		if err == nil && p.Depth() != 0 {
			t.Fail("%s left the parser %d levels below where it was handed over\ndocument: %v\ncalls: %s", name, p.Depth(), d, p.Trace)
		}
		if p.Faulted && p.afterFault > 0 {
			t.Fail("%s advanced the parser after it had failed\ndocument: %v\ncalls: %s", name, d, p.Trace)
		}
		t.Count("encoder_calls", len(p.Trace))
		if p.downs > 1 {
			t.Nontrivial(name, d.String())
		}
	}
}

func encoderProtocol(t *T) {
	st := genStyle(t.Rng)
	d := genDoc(t.Rng, st)
	protocol(t, "encode/json", d, ejson.Encode)
	protocol(t, "encode/xml", d, exml.Encode)
	f := genPFamily(t.Rng)
	m := genPM(t.Rng, f.root, t.Intn(4))
	d = spoil(t.Rng, m.doc())
	e := f.encoder(t)
	protocol(t, "encode/proto", d, func(p parser.Interface) ([]byte, error) { return e.Encode(nil, p) })
	s, typ, _ := genGoDoc(t.Rng)
	d = spoil(t.Rng, s)
	protocol(t, "encode/reflect", d, func(p parser.Interface) ([]byte, error) {
		return nil, ereflect.Encode(p, reflect.New(typ).Interface())
	})
}

// spoil sometimes makes a document that is no instance of its type anymore.
func spoil(r *Rng, d Doc) Doc {
	for r.P(40) {
		d = mutateDoc(r, d, docStyle{arrays: true, dups: true, weird: true, maxKids: 3, maxDep: 2, mixed: true})
	}
	return d
}

// ---------------------------------------------------------------- P26

// regular: every level has only fields with distinct names, or only elements
// numbered from zero, or at most one leaf; and nothing JSON cannot hold.
func regular(ns []*Node) bool {
	names := map[string]bool{}
	for i, n := range ns {
		if n.Leaf {
			if len(ns) > 1 || n.V.HasS && !utf8.ValidString(n.V.S) {
				return false
			}
			continue
		}
		if n.V.HasI {
			if i > 0 && !ns[0].V.HasI || n.V.I != int64(i) {
				return false
			}
		} else if !n.V.HasS || names[n.V.S] || ns[0].Leaf || ns[0].V.HasI || !utf8.ValidString(n.V.S) {
			return false
		}
		names[n.V.S] = true
		if !regular(n.Kids) {
			return false
		}
	}
	return true
}

func hasNonFinite(ns []*Node) bool {
	for _, n := range ns {
		if n.Leaf && n.V.HasD && !n.V.HasI && !n.V.HasU && (math.IsNaN(n.V.D) || math.IsInf(n.V.D, 0)) || hasNonFinite(n.Kids) {
			return true
		}
	}
	return false
}

// sameJSON compares a decoded value with a level of a document.
func sameJSON(ns []*Node, x interface{}) string {
	if len(ns) == 0 {
		if x != nil {
			return fmt.Sprintf("an empty level became %v", x)
		}
		return ""
	}
	if ns[0].Leaf {
		v := ns[0].V
		switch {
		case v.HasI:
			if n, ok := x.(json.Number); !ok || n.String() != strconv.FormatInt(v.I, 10) {
				return fmt.Sprintf("%v became %v", v, x)
			}
		case v.HasU:
			if n, ok := x.(json.Number); !ok || n.String() != strconv.FormatUint(v.U, 10) {
				return fmt.Sprintf("%v became %v", v, x)
			}
		case v.HasD:
			n, ok := x.(json.Number)
			f, err := strconv.ParseFloat(n.String(), 64)
			if !ok || err != nil || f != v.D {
				return fmt.Sprintf("%v became %v", v, x)
			}
		case v.HasB:
			if x != v.B {
				return fmt.Sprintf("%v became %v", v, x)
			}
		case v.HasS:
			if x != v.S {
				return fmt.Sprintf("%v became %q", v, x)
			}
		case v.HasY:
			s, ok := x.(string)
			y, err := base64.StdEncoding.DecodeString(s)
			if !ok || err != nil || !bytes.Equal(y, v.Y) {
				return fmt.Sprintf("%v became %q", v, x)
			}
		default:
			if x != nil {
				return fmt.Sprintf("a value of no kind became %v", x)
			}
		}
		return ""
	}
	if ns[0].V.HasI {
		a, ok := x.([]interface{})
		if !ok || len(a) != len(ns) {
			return fmt.Sprintf("%d elements became %v", len(ns), x)
		}
		for i, n := range ns {
			if bad := sameJSON(n.Kids, a[i]); bad != "" {
				return bad
			}
		}
		return ""
	}
	m, ok := x.(map[string]interface{})
	if !ok || len(m) != len(ns) {
		return fmt.Sprintf("%d fields became %v", len(ns), x)
	}
	for _, n := range ns {
		y, ok := m[n.V.S]
		if !ok {
			return fmt.Sprintf("the field %q is missing in %v", n.V.S, x)
		}
		if bad := sameJSON(n.Kids, y); bad != "" {
			return bad
		}
	}
	return ""
}

func checkJSON(t *T, p parser.Interface, what string, d Doc) {
	t.Info("encode %s as JSON: %v", what, d)
	out, err := ejson.Encode(p)
	if hasNonFinite(d) {
		if err == nil {
			t.Fail("%v was encoded as JSON: %s", d, out)
		}
		t.Count("refused", 1)
		return
	}
	if err != nil {
		t.Fail("encoding %s as JSON gives %v\ndocument: %v", what, err, d)
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	dec.UseNumber()
	var x interface{}
	if err := dec.Decode(&x); err != nil || !json.Valid(out) {
		t.Fail("encoding %s gives JSON that does not decode: %v\ndocument: %v\njson: %s", what, err, d, out)
	}
	if bad := sameJSON(d, x); bad != "" {
		t.Fail("encoding %s as JSON: %s\ndocument: %v\njson: %s", what, bad, d, out)
	}
	t.Count("labels_compared", d.count())
	if d.count() > 1 {
		t.Nontrivial(d.String())
		t.Sample("%s: %v", what, d)
	}
}

func runP26(c *Ctx) {
	c.Run("trees", c.N(25000), func(t *T) {
		st := genStyle(t.Rng)
		st.dups, st.mixed = false, false
		for k := 0; ; k++ {
			d := genDoc(t.Rng, st)
			if regular(d) || k > 20 {
				if k <= 20 {
					if t.P(50) {
						for _, n := range leavesOf(d) {
							n.V = manyViews(t.Rng, n.V)
						}
					}
					checkJSON(t, newTreeParser(d), "a tree", d)
				}
				faults(t, "encode/json", d, ejson.Encode)
				return
			}
		}
	})
	for _, f := range formats {
		f := f
		c.Run(f.name+"-large", c.N(100), func(t *T) {
			for k := 0; k < 20; k++ {
				s := largeSource(t.Rng, f.name, 66000)
				if !regular(s.doc) {
					continue
				}
				p, err := s.fresh()
				if err != nil {
					t.Fail("%s parser refuses the document: %v\n%s", s.format, err, s.text)
				}
				checkJSON(t, p, s.format+" "+s.text, s.doc)
				faults(t, "encode/json", s.doc, ejson.Encode)
				return
			}
			t.Count("no_regular_document", 1)
		})
		c.Run(f.name, c.N(8000), func(t *T) {
			for k := 0; k < 20; k++ {
				s := f.gen(t.Rng, 1)[0]
				if !regular(s.doc) || f.name != "json" && fuzzyDoc(s.doc) {
					continue
				}
				p, err := s.fresh()
				if err != nil {
					t.Fail("%s parser refuses the document: %v\n%s", s.format, err, s.text)
				}
				checkJSON(t, p, s.format+" "+s.text, s.doc)
				return
			}
			t.Count("no_regular_document", 1)
		})
	}
}

func fuzzyDoc(ns []*Node) bool { return false }

// ---------------------------------------------------------------- P27

func (f *pFamily) encoder(t *T) eproto.Encoder {
	e, err := eproto.NewEncoder(f.set, f.root.pkg, f.root.name)
	if err != nil {
		t.Fail("no encoder: %v\ntypes: %s", err, describeAll(f.ts))
	}
	return e
}

// decodeWire reads a message without the parser of the library.
func decodeWire(t *PT, b []byte) (Doc, error) {
	bad := fmt.Errorf("damaged message")
	known := map[uint64]*PF{}
	for _, f := range t.all() {
		known[uint64(f.num)] = f
	}
	d := Doc{}
	lastRep := uint64(0)
	for len(b) > 0 {
		tag, n := binary.Uvarint(b)
		if n <= 0 {
			return d, bad
		}
		b = b[n:]
		var u uint64
		var y []byte
		wire := int(tag & 7)
		switch wire {
		case 0:
			u, n = binary.Uvarint(b)
			if n <= 0 {
				return d, bad
			}
			b = b[n:]
		case 1:
			if len(b) < 8 {
				return d, bad
			}
			u, b = binary.LittleEndian.Uint64(b), b[8:]
		case 5:
			if len(b) < 4 {
				return d, bad
			}
			u, b = uint64(binary.LittleEndian.Uint32(b)), b[4:]
		case 2:
			u, n = binary.Uvarint(b)
			if n <= 0 || uint64(len(b)-n) < u {
				return d, bad
			}
			y, b = b[n:n+int(u)], b[n+int(u):]
		default:
			return d, bad
		}
		f := known[tag>>3]
		if f == nil {
			return d, fmt.Errorf("unknown field %d", tag>>3)
		}
		var elems [][]*Node
		if wire == 2 && f.wire() != 2 {
			// packed
			for len(y) > 0 {
				var u uint64
				switch f.wire() {
				case 0:
					u, n = binary.Uvarint(y)
					if n <= 0 {
						return d, bad
					}
				case 1:
					n = 8
					if len(y) < n {
						return d, bad
					}
					u = binary.LittleEndian.Uint64(y)
				case 5:
					n = 4
					if len(y) < n {
						return d, bad
					}
					u = uint64(binary.LittleEndian.Uint32(y))
				}
				y = y[n:]
				elems = append(elems, []*Node{leaf(wireVal(f, u, nil))})
			}
		} else if wire != f.wire() {
			return d, fmt.Errorf("field %s has wire type %d", f.name, wire)
		} else if f.kind == kMessage {
			m, err := decodeWire(f.msg, y)
			if err != nil {
				return d, err
			}
			elems = append(elems, m)
		} else {
			elems = append(elems, []*Node{leaf(wireVal(f, u, y))})
		}
		if !f.rep {
			d = append(d, field(f.name, elems[0]...))
			lastRep = 0
			continue
		}
		if lastRep != tag>>3 {
			d = append(d, field(f.name))
		}
		lastRep = tag >> 3
		l := d[len(d)-1]
		for _, e := range elems {
			l.Kids = append(l.Kids, index(len(l.Kids), e...))
		}
	}
	return d, nil
}

func wireVal(f *PF, u uint64, y []byte) Val {
	switch f.kind {
	case kDouble:
		return vD(math.Float64frombits(u))
	case kFloat:
		return vD(float64(math.Float32frombits(uint32(u))))
	case kInt64, kSfixed64:
		return vI(int64(u))
	case kInt32, kEnum, kSfixed32:
		return vI(int64(int32(u)))
	case kUint64, kFixed64:
		return vU(u)
	case kUint32, kFixed32:
		return vU(uint64(uint32(u)))
	case kBool:
		return vB(u != 0)
	case kString:
		return vS(string(y))
	case kBytes:
		return vY(append([]byte{}, y...))
	case kSint64:
		return vI(int64(u>>1) ^ -int64(u&1))
	case kSint32:
		return vI(int64(int32(uint32(u)>>1) ^ -int32(u&1)))
	}
	panic("kind")
}

func checkProto(t *T, e eproto.Encoder, root *PT, p parser.Interface, what string, want Doc) []byte {
	t.Info("encode %s as protobuf: %v", what, want)
	var buf []byte
	switch t.Intn(4) {
	case 0:
		buf = make([]byte, t.Intn(8))
	case 1:
		buf = make([]byte, t.Intn(300))
		for i := range buf {
			buf[i] = 0xff
		}
	case 2:
		buf = []byte{}
	}
	out, err := e.Encode(buf, p)
	if err != nil {
		t.Fail("encoding %s as protobuf gives %v\ndocument: %v\ntype: %s", what, err, want, root.describe())
	}
	got, err := decodeWire(root, out)
	if err != nil || !equalDocs(got, want) {
		t.Fail("encoding %s as protobuf gives another message: %v\nbytes: %x\nexpected: %v\ngot:      %v\ntype: %s", what, err, out, want, got, root.describe())
	}
	t.Count("labels_compared", want.count())
	if want.count() > 1 {
		t.Nontrivial(want.String() + root.describe())
		t.Sample("%s: %v", what, want)
	}
	return out
}

// withExtras adds fields that the type does not have.
func withExtras(r *Rng, m *PM) Doc {
	d := Doc{}
	for _, n := range m.doc() {
		if r.P(25) {
			d = append(d, field("Unknown", genKids(r, docStyle{arrays: true, maxKids: 2, maxDep: 2}, 2)...))
		}
		d = append(d, n)
	}
	return d
}

func runP27(c *Ctx) {
	c.Run("random", c.N(12000), func(t *T) {
		f := genPFamily(t.Rng)
		e := f.encoder(t)
		for k := 0; k < 3; k++ {
			s, m := f.source(t.Rng, t.Intn(4))
			p, err := s.fresh()
			if err != nil {
				t.Fail("parser refuses the message: %v", err)
			}
			checkProto(t, e, f.root, p, "the message "+s.text, m.doc())
			checkProto(t, e, f.root, newTreeParser(withExtras(t.Rng, m)), "a tree", m.doc())
			if k == 0 {
				faults(t, "encode/proto", m.doc(), func(p parser.Interface) ([]byte, error) { return e.Encode(nil, p) })
			}
		}
	})
	c.Run("large", c.N(400), func(t *T) {
		var f *pFamily
		var m *PM
		if t.P(30) {
			f, m = deepProto(t.Rng, t.large(700))
		} else {
			t.grow(1+t.Intn(3), 66000)
			f = genPFamily(t.Rng)
			m = genPM(t.Rng, f.root, t.Intn(4))
			t.big = 0
		}
		e := f.encoder(t)
		s := f.sourceOf(m, wireStyle{Rng: t.Rng}.msg(m))
		p, err := s.fresh()
		if err != nil {
			t.Fail("parser refuses the message: %v", err)
		}
		checkProto(t, e, f.root, p, "the message "+s.text, m.doc())
		checkProto(t, e, f.root, newTreeParser(withExtras(t.Rng, m)), "a tree", m.doc())
		faults(t, "encode/proto", m.doc(), func(p parser.Interface) ([]byte, error) { return e.Encode(nil, p) })
	})
	c.Run("unmarshal", c.N(12000), func(t *T) {
		at := allType()
		keep := at.fields[:0]
		pct := 10 + t.Intn(90)
		for _, f := range at.fields {
			if t.P(pct) {
				keep = append(keep, f)
			}
		}
		at.fields = keep
		f := &pFamily{ts: []*PT{at}, root: at, set: fileSet(nil, []*PT{at})}
		s, m := f.source(t.Rng, t.Intn(3))
		p, err := s.fresh()
		if err != nil {
			t.Fail("parser refuses the message: %v", err)
		}
		out := checkProto(t, f.encoder(t), at, p, "the message "+s.text, m.doc())
		d, err := unmarshalled(out, m.doc())
		if err != nil || !equalDocs(d, m.doc()) {
			t.Fail("the protobuf library reads another message from what was encoded: %v\nbytes: %x\nexpected: %v\ngot: %v", err, out, m.doc(), d)
		}
		t.Count("messages_unmarshalled", 1)
	})
	c.Run("other-formats", c.N(8000), func(t *T) {
		rg := newRTGen(t.Rng, false, false)
		root := rg.typ(3)
		ts := rg.protoTypes(t.Rng)
		var pts []*PT
		for _, r := range rg.all {
			pts = append(pts, ts[r])
		}
		fam := &pFamily{ts: pts, root: ts[root], set: fileSet(nil, pts)}
		e := fam.encoder(t)
		gt := root.goType(t.Rng, map[*RT]reflect.Type{})
		for k := 0; k < 3; k++ {
			d := Doc(rg.rec(root))
			s := jsonSource(root.json(d).text(t.Rng), d)
			if t.P(40) {
				gv := reflect.New(gt)
				root.fill(gv.Elem(), d)
				s = reflectSource(gv)
			}
			p, err := s.fresh()
			if err != nil {
				t.Fail("%s parser refuses the record: %v\n%s", s.format, err, s.text)
			}
			checkProto(t, e, fam.root, p, s.format+" "+s.text, d)
		}
	})
	c.Run("wrong-type", c.N(8000), func(t *T) {
		f := genPFamily(t.Rng)
		m := genPM(t.Rng, f.root, t.Intn(4))
		d := m.doc()
		leaves := leavesOf(d)
		if len(leaves) == 0 {
			return
		}
		n := leaves[t.Intn(len(leaves))]
		old := n.V
		for same := true; same; {
			n.V = genLeafVal(t.Rng, true)
			same = n.V.HasS && old.HasS || n.V.HasI && old.HasI || n.V.HasU && old.HasU || n.V.HasD && old.HasD || n.V.HasB && old.HasB || n.V.HasY && old.HasY
		}
		out, err := f.encoder(t).Encode(nil, newTreeParser(d))
		if err == nil {
			t.Fail("the encoder took %v for a field that holds %v\ndocument: %v\ntypes: %s\nbytes: %x", n.V, old, d, describeAll(f.ts), out)
		}
		t.Count("wrong_types_refused", 1)
	})
}

// manyViews gives a value that can be read in several ways, as the values of
// JSON, XML and YAML can.
func manyViews(r *Rng, v Val) Val {
	switch {
	case v.HasI && v.I >= 0 && r.P(50):
		v.HasU, v.U = true, uint64(v.I)
		v.HasD, v.D = true, float64(v.I)
	case v.HasI:
		v.HasD, v.D = true, float64(v.I)
	case v.HasU:
		v.HasD, v.D = true, float64(v.U)
	}
	return v
}

func leavesOf(ns []*Node) []*Node {
	var out []*Node
	for _, n := range ns {
		if n.Leaf {
			out = append(out, n)
		}
		out = append(out, leavesOf(n.Kids)...)
	}
	return out
}

// ---------------------------------------------------------------- P28

func genGoDoc(r *Rng) (Doc, reflect.Type, reflect.Value) {
	var typ reflect.Type
	for depth := 1 + r.Intn(3); ; {
		typ = genGoStruct(r, depth)
		break
	}
	v := reflect.New(typ)
	fillGo(r, v.Elem(), 4)
	return Doc(goNodes(v)), typ, v
}

func runP28(c *Ctx) {
	compare := func(t *T, p parser.Interface, what string, typ reflect.Type, want Doc) {
		t.Info("fill %v from %s: %v", typ, what, want)
		dst := reflect.New(typ)
		if err := ereflect.Encode(p, dst.Interface()); err != nil {
			t.Fail("filling %v from %s gives %v\ndocument: %v", typ, what, err, want)
		}
		if got := Doc(goNodes(dst)); !equalDocs(got, want) {
			t.Fail("filling %v from %s gives another value\nexpected: %v\ngot:      %v", typ, what, want, got)
		}
		t.Count("labels_compared", want.count())
		if want.count() > 1 {
			t.Nontrivial(typ.String() + want.String())
			t.Sample("%v: %v", typ, want)
		}
	}
	c.Run("random", c.N(25000), func(t *T) {
		d, typ, v := genGoDoc(t.Rng)
		s := reflectSource(v)
		p, err := s.fresh()
		if err != nil {
			t.Fail("%v", err)
		}
		compare(t, p, "a value", typ, d)
		compare(t, newTreeParser(d), "a tree", typ, d)
		views := Doc(goNodes(v))
		for _, n := range leavesOf(views) {
			n.V = manyViews(t.Rng, n.V)
		}
		compare(t, newTreeParser(views), "a tree whose values have several views", typ, d)
		faults(t, "encode/reflect", d, func(p parser.Interface) ([]byte, error) {
			return nil, ereflect.Encode(p, reflect.New(typ).Interface())
		})
	})
	c.Run("large", c.N(400), func(t *T) {
		var v reflect.Value
		if t.P(30) {
			v = deepGo(t.Rng, t.large(260))
		} else {
			t.grow(1+t.Intn(3), 66000)
			_, _, v = genGoDoc(t.Rng)
			t.big = 0
		}
		typ, d := v.Type().Elem(), Doc(goNodes(v))
		p, err := reflectSource(v).fresh()
		if err != nil {
			t.Fail("%v", err)
		}
		compare(t, p, "a large value", typ, d)
		compare(t, newTreeParser(d), "a large tree", typ, d)
		faults(t, "encode/reflect", d, func(p parser.Interface) ([]byte, error) {
			return nil, ereflect.Encode(p, reflect.New(typ).Interface())
		})
	})
	c.Run("other-formats", c.N(10000), func(t *T) {
		rg := newRTGen(t.Rng, false, false)
		root := rg.typ(3)
		gt := root.goType(t.Rng, map[*RT]reflect.Type{})
		ts := rg.protoTypes(t.Rng)
		var pts []*PT
		for _, r := range rg.all {
			pts = append(pts, ts[r])
		}
		fam := &pFamily{ts: pts, root: ts[root], set: fileSet(nil, pts)}
		for k := 0; k < 3; k++ {
			d := Doc(rg.rec(root))
			s := jsonSource(root.json(d).text(t.Rng), d)
			if t.P(50) {
				pm := root.pm(d, ts)
				s = fam.sourceOf(pm, wireStyle{Rng: t.Rng}.msg(pm))
			}
			p, err := s.fresh()
			if err != nil {
				t.Fail("%s parser refuses the record: %v\n%s", s.format, err, s.text)
			}
			compare(t, p, s.format+" "+s.text, gt, d)
		}
	})
	// every kind of integer, filled from integers that fit and that do not
	var narrow = []struct {
		typ      interface{}
		min, max int64
		umax     uint64
	}{
		{int(0), math.MinInt64, math.MaxInt64, 0}, {int8(0), -128, 127, 0}, {int16(0), -32768, 32767, 0}, {int32(0), math.MinInt32, math.MaxInt32, 0}, {int64(0), math.MinInt64, math.MaxInt64, 0},
		{uint(0), 0, 0, math.MaxUint64}, {uint8(0), 0, 0, 255}, {uint16(0), 0, 0, 65535}, {uint32(0), 0, 0, math.MaxUint32}, {uint64(0), 0, 0, math.MaxUint64},
		{goSmall(0), math.MinInt32, math.MaxInt32, 0}, {goUint(0), 0, 0, math.MaxUint64},
	}
	c.Run("integers", c.N(6000), func(t *T) {
		r := t.Rng
		n := narrow[t.idx%len(narrow)]
		base := reflect.TypeOf(n.typ)
		typ := base
		list, ptr := r.P(30) && base.Kind() != reflect.Uint8, r.P(30)
		if ptr {
			typ = reflect.PtrTo(typ)
		}
		if list {
			typ = reflect.SliceOf(typ)
		}
		var v Val
		fits := true
		if n.umax > 0 {
			u := []uint64{0, 1, n.umax, n.umax - 1, n.umax + 1, 1 << 31, 1 << 16, 1 << 8, r.U64(), r.U64() >> uint(r.Intn(64))}[r.Intn(10)]
			v, fits = vU(u), u <= n.umax
		} else {
			i := []int64{0, 1, -1, n.min, n.max, n.min + 1, n.max - 1, n.min - 1, n.max + 1, 1 << 31, 1 << 16, 1 << 8, int64(r.U64()), int64(r.U64()) >> uint(r.Intn(64))}[r.Intn(14)]
			v, fits = vI(i), i >= n.min && i <= n.max
		}
		d := Doc{field("A", leaf(v)), field("B", leaf(vS("after")))}
		if list {
			d[0].Kids = []*Node{index(0, leaf(v))}
		}
		st := reflect.StructOf([]reflect.StructField{{Name: "A", Type: typ}, {Name: "B", Type: reflect.TypeOf("")}})
		t.Info("fill %v from %v", st, d)
		dst := reflect.New(st)
		err := ereflect.Encode(newTreeParser(d), dst.Interface())
		if !fits {
			if err == nil {
				t.Fail("%v holds %v, which does not fit", dst.Elem().Interface(), v)
			}
			t.Count("overflows_refused", 1)
			t.Nontrivial("overflow", typ.String(), v.String())
			return
		}
		if err != nil {
			t.Fail("filling gives %v", err)
		}
		got := dst.Elem().Field(0)
		if list {
			if got.Len() != 1 {
				t.Fail("the list has %d elements", got.Len())
			}
			got = got.Index(0)
		}
		if ptr {
			got = got.Elem()
		}
		if n.umax > 0 && got.Uint() != v.U || n.umax == 0 && got.Int() != v.I || dst.Elem().Field(1).String() != "after" {
			t.Fail("the value is %v", dst.Elem().Interface())
		}
		t.Nontrivial("fits", typ.String(), v.String())
	})
	c.Run("wrong-type", c.N(8000), func(t *T) {
		d, typ, _ := genGoDoc(t.Rng)
		leaves := leavesOf(d)
		if len(leaves) == 0 {
			return
		}
		n := leaves[t.Intn(len(leaves))]
		old := n.V
		if old.equal(Val{}) {
			return
		}
		for same := true; same; {
			n.V = genLeafVal(t.Rng, true)
			same = n.V.equal(Val{}) || n.V.HasS && old.HasS || n.V.HasI && old.HasI || n.V.HasU && old.HasU || n.V.HasD && old.HasD || n.V.HasB && old.HasB || n.V.HasY && old.HasY
		}
		t.Info("fill %v from %v", typ, d)
		if err := ereflect.Encode(newTreeParser(d), reflect.New(typ).Interface()); err == nil {
			t.Fail("a field that holds %v was filled with %v\ntype: %v\ndocument: %v", old, n.V, typ, d)
		}
		t.Count("wrong_types_refused", 1)
	})
}

// ---------------------------------------------------------------- P29

var xmlNames = []string{"A", "B", "C", "D", "a-b", "_x", "é", "a.b", "A1", "xml2"}

// xmlLevel makes a level of elements and text.
func xmlLevel(r *Rng, depth int) []*Node {
	ns := []*Node{}
	lastLeaf := false
	all := r.some(5)
	for n := all; n > 0; n-- {
		if !lastLeaf && r.P(35) || depth <= 0 {
			if lastLeaf {
				break
			}
			v := genLeafVal(r, true)
			if v.HasS || r.P(20) {
				v = vS(xmlSafe(genString(r)))
				if n := r.some(1); n > 0 {
					v = vS(xmlSafe(longString(r, n, longChars)))
				}
			}
			if r.P(30) {
				v = manyViews(r, v)
			}
			ns = append(ns, leaf(v))
			lastLeaf = true
			continue
		}
		lastLeaf = false
		ns = append(ns, field(xmlNames[r.Intn(len(xmlNames))], xmlLevel(r, below(depth, all))...))
	}
	return ns
}

func xmlSafe(s string) string {
	return strings.Map(func(c rune) rune {
		if c == 9 || c == 10 || c == 13 || c >= 0x20 && c <= 0xd7ff || c >= 0xe000 && c <= 0xfffd || c >= 0x10000 && c <= 0x10ffff {
			return c
		}
		return -1
	}, s)
}

// decodeXML reads elements and text.
func decodeXML(b []byte) ([]*Node, error) {
	dec := xml.NewDecoder(bytes.NewReader(b))
	root := &Node{}
	stack := []*Node{root}
	for {
		tok, err := dec.Token()
		if err == io.EOF {
			if len(stack) != 1 {
				return root.Kids, fmt.Errorf("unbalanced")
			}
			return root.Kids, nil
		}
		if err != nil {
			return root.Kids, err
		}
		top := stack[len(stack)-1]
		switch x := tok.(type) {
		case xml.StartElement:
			if len(x.Attr) > 0 || x.Name.Space != "" {
				return root.Kids, fmt.Errorf("unexpected attributes or name space: %v", x)
			}
			n := field(x.Name.Local)
			top.Kids = append(top.Kids, n)
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if k := len(top.Kids); k > 0 && top.Kids[k-1].Leaf {
				top.Kids[k-1].V.S += string(x)
			} else {
				top.Kids = append(top.Kids, leaf(vS(string(x))))
			}
		default:
			return root.Kids, fmt.Errorf("unexpected token %T", tok)
		}
	}
}

// sameXML compares elements and text with a document without adjacent leaves.
func sameXML(want, got []*Node) string {
	k := 0
	for _, w := range want {
		if w.Leaf {
			text := ""
			if k < len(got) && got[k].Leaf {
				text = got[k].V.S
				k++
			}
			v := w.V
			ok := false
			switch {
			case v.HasI:
				ok = text == strconv.FormatInt(v.I, 10)
			case v.HasU:
				ok = text == strconv.FormatUint(v.U, 10)
			case v.HasD:
				f, err := strconv.ParseFloat(text, 64)
				ok = err == nil && sameFloat(f, v.D)
			case v.HasB:
				ok = text == strconv.FormatBool(v.B)
			case v.HasS:
				ok = text == v.S
			case v.HasY:
				ok = text == base64.StdEncoding.EncodeToString(v.Y)
			default:
				ok = text == ""
			}
			if !ok {
				return fmt.Sprintf("%v became the text %q", v, text)
			}
			continue
		}
		if k >= len(got) || got[k].Leaf || got[k].V.S != w.V.S {
			return fmt.Sprintf("the element %v became %v", w.V, Doc(got[min(k, len(got)):]))
		}
		if bad := sameXML(w.Kids, got[k].Kids); bad != "" {
			return bad
		}
		k++
	}
	if k < len(got) {
		return fmt.Sprintf("there is more: %v", Doc(got[k:]))
	}
	return ""
}

func runP29(c *Ctx) {
	compare := func(t *T, p parser.Interface, what string, d Doc) {
		t.Info("encode %s as XML: %v", what, d)
		out, err := exml.Encode(p)
		if err != nil {
			t.Fail("encoding %s as XML gives %v\ndocument: %v", what, err, d)
		}
		got, err := decodeXML(out)
		if err != nil {
			t.Fail("encoding %s gives XML that does not decode: %v\ndocument: %v\nxml: %s", what, err, d, out)
		}
		if bad := sameXML(d, got); bad != "" {
			t.Fail("encoding %s as XML: %s\ndocument: %v\nxml: %s", what, bad, d, out)
		}
		t.Count("labels_compared", d.count())
		if d.count() > 1 {
			t.Nontrivial(d.String())
			t.Sample("%s: %v", what, d)
		}
	}
	c.Run("trees", c.N(30000), func(t *T) {
		d := Doc(xmlLevel(t.Rng, 1+t.Intn(4)))
		compare(t, newTreeParser(d), "a tree", d)
		faults(t, "encode/xml", d, exml.Encode)
	})
	c.Run("large", c.N(300), func(t *T) {
		t.grow(2, 66000)
		d := Doc(xmlLevel(t.Rng, 2))
		t.big = 0
		if t.P(30) {
			for k := t.large(3000); k > 0; k-- {
				d = Doc{field(xmlNames[t.Intn(len(xmlNames))], d...)}
			}
		}
		compare(t, newTreeParser(d), "a large tree", d)
		faults(t, "encode/xml", d, exml.Encode)
	})
	c.Run("other-formats", c.N(10000), func(t *T) {
		rg := newRTGen(t.Rng, false, false)
		rg.noArray = true
		root := rg.typ(3)
		d := Doc(rg.rec(root))
		s := jsonSource(root.json(d).text(t.Rng), d)
		p, err := s.fresh()
		if err != nil {
			t.Fail("%s parser refuses the record: %v\n%s", s.format, err, s.text)
		}
		compare(t, p, s.format+" "+s.text, d)
	})
}
