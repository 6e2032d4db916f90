package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"strings"

	descriptor "github.com/gogo/protobuf/protoc-gen-gogo/descriptor"

	"github.com/katydid/katydid/parser"
	sproto "github.com/katydid/katydid/parser/proto"
)

// PT is a message type.
type PT struct {
	pkg, name string // name is dotted for nested types
	fields    []*PF
	exts      []*PF
	nested    []*PT
}

func (m *PT) full() string {
	if m.pkg == "" {
		return "." + m.name
	}
	return "." + m.pkg + "." + m.name
}
func (m *PT) all() []*PF { return append(append([]*PF(nil), m.fields...), m.exts...) }

// PF is a field of a message type.
type PF struct {
	name   string
	num    int
	kind   descriptor.FieldDescriptorProto_Type
	rep    bool
	req    bool
	packed bool
	msg    *PT
}

const (
	kDouble   = descriptor.FieldDescriptorProto_TYPE_DOUBLE
	kFloat    = descriptor.FieldDescriptorProto_TYPE_FLOAT
	kInt64    = descriptor.FieldDescriptorProto_TYPE_INT64
	kUint64   = descriptor.FieldDescriptorProto_TYPE_UINT64
	kInt32    = descriptor.FieldDescriptorProto_TYPE_INT32
	kFixed64  = descriptor.FieldDescriptorProto_TYPE_FIXED64
	kFixed32  = descriptor.FieldDescriptorProto_TYPE_FIXED32
	kBool     = descriptor.FieldDescriptorProto_TYPE_BOOL
	kString   = descriptor.FieldDescriptorProto_TYPE_STRING
	kMessage  = descriptor.FieldDescriptorProto_TYPE_MESSAGE
	kBytes    = descriptor.FieldDescriptorProto_TYPE_BYTES
	kUint32   = descriptor.FieldDescriptorProto_TYPE_UINT32
	kEnum     = descriptor.FieldDescriptorProto_TYPE_ENUM
	kSfixed32 = descriptor.FieldDescriptorProto_TYPE_SFIXED32
	kSfixed64 = descriptor.FieldDescriptorProto_TYPE_SFIXED64
	kSint32   = descriptor.FieldDescriptorProto_TYPE_SINT32
	kSint64   = descriptor.FieldDescriptorProto_TYPE_SINT64
)

var pScalars = []descriptor.FieldDescriptorProto_Type{kDouble, kFloat, kInt64, kUint64, kInt32, kFixed64, kFixed32, kBool, kUint32, kEnum, kSfixed32, kSfixed64, kSint32, kSint64, kString, kBytes}

func (f *PF) canPack() bool {
	return f.rep && f.kind != kString && f.kind != kBytes && f.kind != kMessage
}

func (f *PF) wire() int {
	switch f.kind {
	case kDouble, kFixed64, kSfixed64:
		return 1
	case kFloat, kFixed32, kSfixed32:
		return 5
	case kString, kBytes, kMessage:
		return 2
	}
	return 0
}

// pFields makes the fields of a message type.
func pFields(r *Rng, types []*PT, n int, minNum int, prefix string) []*PF {
	fs := []*PF{}
	used := map[int]bool{}
	for i := 0; i < n; i++ {
		num := minNum + r.Intn(20)
		if r.P(10) {
			num = minNum + r.Intn(3000)
		}
		if prefix == "" && r.P(3) {
			num = []int{15, 16, 2047, 2048, 18999, 20000, 262143, 262144, 33554431, 33554432, 536870911}[r.Intn(11)]
		}
		if used[num] {
			continue
		}
		used[num] = true
		name := fmt.Sprint("F", i)
		if i < 26 {
			name = string(rune('A' + i))
		}
		f := &PF{name: prefix + name, num: num, rep: r.P(40), req: r.P(10)}
		if len(types) > 0 && r.P(35) {
			f.kind, f.msg = kMessage, types[r.Intn(len(types))]
		} else {
			f.kind = pScalars[r.Intn(len(pScalars))]
		}
		if f.rep {
			f.req = false
		}
		if num >= 19000 && num < 20000 {
			panic("harness: reserved number")
		}
		f.packed = f.canPack() && r.P(50)
		fs = append(fs, f)
	}
	return fs
}

// genPTypes makes message types that refer to each other.
func genPTypes(r *Rng) []*PT {
	var ts []*PT
	pkgs := []string{"p", "p", "p", "q", "p.sub"}
	for i := 1 + r.Intn(5); i > 0; i-- {
		m := &PT{pkg: pkgs[r.Intn(len(pkgs))], name: fmt.Sprintf("M%d", len(ts))}
		ts = append(ts, m)
		if r.P(30) {
			nm := "N" + m.name
			if r.P(40) {
				nm = "Inner"
			}
			k := &PT{pkg: m.pkg, name: m.name + "." + nm}
			m.nested = append(m.nested, k)
			ts = append(ts, k)
			if r.P(40) {
				kk := &PT{pkg: m.pkg, name: k.name + "." + r.Pick("Deep", "Inner")}
				k.nested = append(k.nested, kk)
				ts = append(ts, kk)
			}
		}
	}
	for _, m := range ts {
		m.fields = pFields(r, ts, min(r.somePos(8), 1000), 1, "")
		if r.P(20) && !strings.Contains(m.name, ".") {
			m.exts = pFields(r, ts, 1+r.Intn(3), 5000, "Ext"+m.name)
		}
	}
	return ts
}

func (f *PF) desc(extendee string) *descriptor.FieldDescriptorProto {
	d := &descriptor.FieldDescriptorProto{}
	name, num, kind := f.name, int32(f.num), f.kind
	label := descriptor.FieldDescriptorProto_LABEL_OPTIONAL
	if f.rep {
		label = descriptor.FieldDescriptorProto_LABEL_REPEATED
	} else if f.req {
		label = descriptor.FieldDescriptorProto_LABEL_REQUIRED
	}
	d.Name, d.Number, d.Type, d.Label = &name, &num, &kind, &label
	if f.msg != nil {
		tn := f.msg.full()
		d.TypeName = &tn
	}
	if f.kind == kEnum {
		tn := ".p.E"
		d.TypeName = &tn
	}
	if f.packed {
		yes := true
		d.Options = &descriptor.FieldOptions{Packed: &yes}
	}
	if extendee != "" {
		d.Extendee = &extendee
	}
	return d
}

func (m *PT) desc() *descriptor.DescriptorProto {
	name := m.name[strings.LastIndexByte(m.name, '.')+1:]
	d := &descriptor.DescriptorProto{Name: &name}
	for _, f := range m.fields {
		d.Field = append(d.Field, f.desc(""))
	}
	for _, n := range m.nested {
		d.NestedType = append(d.NestedType, n.desc())
	}
	if len(m.exts) > 0 {
		lo, hi := int32(5000), int32(10000)
		d.ExtensionRange = []*descriptor.DescriptorProto_ExtensionRange{{Start: &lo, End: &hi}}
	}
	return d
}

// fileSet is the descriptor of all types, extensions may sit in another file.
func fileSet(r *Rng, ts []*PT) *descriptor.FileDescriptorSet {
	files := map[string]*descriptor.FileDescriptorProto{}
	order := []string{}
	file := func(pkg string) *descriptor.FileDescriptorProto {
		if f, ok := files[pkg]; ok {
			return f
		}
		name, p := pkg+".proto", pkg
		f := &descriptor.FileDescriptorProto{Name: &name, Package: &p}
		files[pkg] = f
		order = append(order, pkg)
		return f
	}
	for _, m := range ts {
		if strings.Contains(m.name, ".") {
			continue
		}
		f := file(m.pkg)
		f.MessageType = append(f.MessageType, m.desc())
	}
	for _, m := range ts {
		for _, e := range m.exts {
			f := file(m.pkg)
			if r != nil && r.P(30) {
				f = file("x")
			}
			f.Extension = append(f.Extension, e.desc(m.full()))
		}
	}
	ename, vname, zero := "E", "Z", int32(0)
	f := file("p")
	f.EnumType = []*descriptor.EnumDescriptorProto{{Name: &ename, Value: []*descriptor.EnumValueDescriptorProto{{Name: &vname, Number: &zero}}}}
	set := &descriptor.FileDescriptorSet{}
	for _, p := range order {
		set.File = append(set.File, files[p])
	}
	return set
}

// PV is a value of one field: its elements, each a Val or a nested message.
type PV struct {
	f     *PF
	vals  []Val
	msgs  []*PM
	wraps bool // written packed
}

// PM is a message: its fields in the order of the wire.
type PM struct {
	t  *PT
	vs []*PV
}

func genPVal(r *Rng, k descriptor.FieldDescriptorProto_Type) Val {
	i64 := func() int64 {
		switch r.Intn(4) {
		case 0:
			return int64(r.Intn(5)) - 2
		case 1:
			return []int64{math.MinInt64, math.MaxInt64, math.MinInt32, math.MaxInt32, -1, 127, 128, 300}[r.Intn(8)]
		}
		return int64(r.U64()) >> uint(r.Intn(64))
	}
	switch k {
	case kDouble:
		return vD([]float64{0, 1, -1.5, math.Inf(1), math.MaxFloat64, float64(i64())}[r.Intn(6)])
	case kFloat:
		return vD(float64([]float32{0, 1, -1.5, math.MaxFloat32, float32(i64())}[r.Intn(5)]))
	case kInt64, kSfixed64, kSint64:
		return vI(i64())
	case kInt32, kSfixed32, kSint32, kEnum:
		return vI(int64(int32(i64())))
	case kUint64, kFixed64:
		return vU(uint64(i64()))
	case kUint32, kFixed32:
		return vU(uint64(uint32(i64())))
	case kBool:
		return vB(r.P(50))
	case kString:
		return vS(genString(r))
	case kBytes:
		b := make([]byte, r.some(6))
		for i := range b {
			b[i] = byte(r.U64())
		}
		return vY(b)
	}
	panic("kind")
}

// genPM makes a message.
func genPM(r *Rng, t *PT, depth int) *PM {
	m := &PM{t: t}
	fs := t.all()
	if len(fs) > 32 {
		depth = min(depth, 1)
	}
	for _, i := range r.Perm(len(fs)) {
		f := fs[i]
		if r.P(30) || f.kind == kMessage && depth <= 0 {
			continue
		}
		v := &PV{f: f}
		n := 1
		if f.rep {
			n = r.somePos(4)
			if f.kind == kMessage {
				n = min(n, 700)
			}
		}
		r.inside(n, func() {
			for k := n; k > 0; k-- {
				if f.kind == kMessage {
					v.msgs = append(v.msgs, genPM(r, f.msg, below(depth, n)))
				} else {
					v.vals = append(v.vals, genPVal(r, f.kind))
				}
			}
		})
		if f.canPack() {
			v.wraps = f.packed
			if r.P(25) {
				v.wraps = !v.wraps
			}
		}
		m.vs = append(m.vs, v)
	}
	return m
}

func (m *PM) doc() Doc {
	d := Doc{}
	for _, v := range m.vs {
		var elems [][]*Node
		for _, x := range v.vals {
			elems = append(elems, []*Node{leaf(x)})
		}
		for _, x := range v.msgs {
			elems = append(elems, []*Node(x.doc()))
		}
		if !v.f.rep {
			d = append(d, field(v.f.name, elems[0]...))
			continue
		}
		n := field(v.f.name)
		for i, e := range elems {
			n.Kids = append(n.Kids, index(i, e...))
		}
		d = append(d, n)
	}
	return d
}

// wireStyle says how a message is written.
type wireStyle struct {
	*Rng
	pad     int // percentage of varints that are longer than needed
	unknown int // percentage of places where an unknown field is written
}

func (w wireStyle) varint(b []byte, v uint64) []byte {
	b = binary.AppendUvarint(b, v)
	if w.Rng != nil && w.P(w.pad) {
		// pad with zero groups, at most ten bytes in all
		n := 1
		for i := len(b) - 2; i >= 0 && b[i] >= 0x80; i-- {
			n++
		}
		if n < 10 {
			b[len(b)-1] |= 0x80
			for k := w.Intn(9 - n + 1); k > 0; k-- {
				b = append(b, 0x80)
				n++
				if n == 9 {
					break
				}
			}
			b = append(b, 0)
		}
	}
	return b
}

func (w wireStyle) val(b []byte, k descriptor.FieldDescriptorProto_Type, v Val) []byte {
	switch k {
	case kDouble:
		return binary.LittleEndian.AppendUint64(b, math.Float64bits(v.D))
	case kFloat:
		return binary.LittleEndian.AppendUint32(b, math.Float32bits(float32(v.D)))
	case kFixed64:
		return binary.LittleEndian.AppendUint64(b, v.U)
	case kSfixed64:
		return binary.LittleEndian.AppendUint64(b, uint64(v.I))
	case kFixed32:
		return binary.LittleEndian.AppendUint32(b, uint32(v.U))
	case kSfixed32:
		return binary.LittleEndian.AppendUint32(b, uint32(v.I))
	case kInt64, kInt32, kEnum:
		return w.varint(b, uint64(v.I))
	case kUint64, kUint32:
		return w.varint(b, v.U)
	case kSint64:
		return w.varint(b, uint64(v.I)<<1^uint64(v.I>>63))
	case kSint32:
		return w.varint(b, uint64(uint32(v.I)<<1^uint32(int32(v.I)>>31)))
	case kBool:
		if v.B {
			return w.varint(b, 1)
		}
		return w.varint(b, 0)
	case kString:
		return append(w.varint(b, uint64(len(v.S))), v.S...)
	case kBytes:
		return append(w.varint(b, uint64(len(v.Y))), v.Y...)
	}
	panic("kind")
}

func (w wireStyle) junk(b []byte) []byte {
	if w.Rng == nil || !w.P(w.unknown) {
		return b
	}
	num := uint64(20001 + w.Intn(500000000))
	switch num {
	case 262143, 262144, 33554431, 33554432: // declared by some types
		num += 2
	}
	switch w.Intn(4) {
	case 0:
		b = w.varint(b, num<<3)
		return w.varint(b, w.U64()>>uint(w.Intn(64)))
	case 1:
		b = w.varint(b, num<<3|1)
		return append(b, 1, 2, 3, 4, 5, 6, 7, 8)
	case 2:
		b = w.varint(b, num<<3|2)
		n := w.some(5)
		b = w.varint(b, uint64(n))
		return append(b, make([]byte, n)...)
	}
	b = w.varint(b, num<<3|5)
	return append(b, 8, 16, 24, 255)
}

func (w wireStyle) field(b []byte, v *PV) []byte {
	if v.wraps {
		var in []byte
		for _, x := range v.vals {
			in = w.val(in, v.f.kind, x)
		}
		b = w.varint(b, uint64(v.f.num)<<3|2)
		return append(w.varint(b, uint64(len(in))), in...)
	}
	for _, x := range v.vals {
		b = w.varint(b, uint64(v.f.num)<<3|uint64(v.f.wire()))
		b = w.val(b, v.f.kind, x)
	}
	for _, x := range v.msgs {
		b = w.varint(b, uint64(v.f.num)<<3|2)
		in := w.msg(x)
		b = append(w.varint(b, uint64(len(in))), in...)
	}
	return b
}

func (w wireStyle) msg(m *PM) []byte {
	b := []byte{}
	b = w.junk(b)
	for _, v := range m.vs {
		b = w.field(b, v)
		b = w.junk(b)
	}
	return b
}

func (m *PT) describe() string {
	var b strings.Builder
	fmt.Fprintf(&b, "message %s {", m.full())
	for _, f := range m.all() {
		k := strings.ToLower(strings.TrimPrefix(f.kind.String(), "TYPE_"))
		if f.msg != nil {
			k = f.msg.full()
		}
		l := ""
		if f.rep {
			l = "repeated "
		}
		pk := ""
		if f.packed {
			pk = " [packed]"
		}
		fmt.Fprintf(&b, " %s%s %s=%d%s;", l, k, f.name, f.num, pk)
	}
	b.WriteString(" }")
	return b.String()
}

func describeAll(ts []*PT) string {
	ss := []string{}
	for _, t := range ts {
		ss = append(ss, t.describe())
	}
	return strings.Join(ss, "\n")
}

// pFamily is a set of message types with a root, for which messages are made.
type pFamily struct {
	ts   []*PT
	root *PT
	set  *descriptor.FileDescriptorSet
}

func genPFamily(r *Rng) *pFamily {
	ts := genPTypes(r)
	f := &pFamily{ts: ts, root: ts[0], set: fileSet(r, ts)}
	return f
}

func (f *pFamily) source(r *Rng, depth int) (*source, *PM) {
	m := genPM(r, f.root, depth)
	w := wireStyle{Rng: r, pad: []int{0, 0, 15}[r.Intn(3)], unknown: []int{0, 0, 25}[r.Intn(3)]}
	return f.sourceOf(m, w.msg(m)), m
}

func (f *pFamily) sourceOf(m *PM, buf []byte) *source {
	return &source{
		format: "proto", text: fmt.Sprintf("%x of %s", buf, f.root.full()), doc: m.doc(), bytes: buf,
		fresh: func() (parser.Interface, error) {
			p, err := sproto.NewProtoParser(f.root.pkg, f.root.name, f.set)
			if err != nil {
				return nil, err
			}
			return p, p.Init(buf)
		},
		point: func(p parser.Interface) error { return p.(sproto.ProtoParser).Init(buf) },
		parse: func(buf []byte) (parser.Interface, error) {
			p, err := sproto.NewProtoParser(f.root.pkg, f.root.name, f.set)
			if err != nil {
				return nil, err
			}
			return p, p.Init(buf)
		},
	}
}
