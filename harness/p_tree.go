package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/gogo/protobuf/proto"
	"github.com/katydid/katydid/relapse/ast"
	perrors "github.com/katydid/katydid/relapse/errors"
	"github.com/katydid/katydid/relapse/lexer"
	rparser "github.com/katydid/katydid/relapse/parser"
	"github.com/katydid/katydid/relapse/token"
)

func init() {
	register("P36", &check{
		rule: "a case is one grammar tree and its serialized forms; non-trivial when the tree holds at least two nodes, distinct by its text",
		assume: []string{
			"the oracle is an encoder and a decoder that the harness drives from the field numbers declared in relapse.proto, as the struct tags repeat them",
		},
		run: runP36,
	})
	register("P37", &check{
		rule: "a case is one grammar tree with the answers of the tools; non-trivial when the tree holds at least two nodes, distinct by its text",
		assume: []string{
			"whether a walk over patterns enters the expression of a leaf is not specified, and not judged",
			"the printed Go source is evaluated by a small interpreter for the constructs it uses",
		},
		run: runP37,
	})
	register("P38", &check{
		rule: "a case is one text that is not a grammar, with the place that its error names; non-trivial when the place is neither the start nor the end of the text, distinct by the text",
		assume: []string{
			"a tab counts for four columns and a carriage return starts a line's columns again, which is what the lexer defines",
			"errors about the value of a literal, which are not about syntax, are only checked for lying within the text",
		},
		run: runP38,
	})
}

// --- P36

type wireTag struct {
	num  int
	kind string
}

func wireTagOf(f reflect.StructField) (wireTag, bool) {
	s := strings.Split(f.Tag.Get("protobuf"), ",")
	if len(s) < 2 {
		return wireTag{}, false
	}
	n, err := strconv.Atoi(s[1])
	return wireTag{n, s[0]}, err == nil
}

func putUvarint(b []byte, u uint64) []byte {
	var buf [10]byte
	return append(b, buf[:binary.PutUvarint(buf[:], u)]...)
}

// wireEncode writes a message from its tags; with r, in any order of fields.
func wireEncode(r *Rng, v reflect.Value) []byte {
	v = reflect.Indirect(v)
	var fields [][]byte
	for i := 0; i < v.NumField(); i++ {
		tag, ok := wireTagOf(v.Type().Field(i))
		if !ok {
			continue
		}
		var b []byte
		one := func(x reflect.Value) {
			switch tag.kind {
			case "bytes":
				b = putUvarint(b, uint64(tag.num)<<3|2)
				var body []byte
				switch x.Kind() {
				case reflect.Ptr:
					if x.Elem().Kind() == reflect.Struct {
						body = wireEncode(r, x)
					} else {
						body = []byte(x.Elem().String())
					}
				case reflect.String:
					body = []byte(x.String())
				case reflect.Slice:
					body = x.Bytes()
				}
				b = append(putUvarint(b, uint64(len(body))), body...)
			case "varint":
				b = putUvarint(b, uint64(tag.num)<<3)
				x = reflect.Indirect(x)
				switch x.Kind() {
				case reflect.Bool:
					u := uint64(0)
					if x.Bool() {
						u = 1
					}
					b = putUvarint(b, u)
				case reflect.Uint64:
					b = putUvarint(b, x.Uint())
				default:
					b = putUvarint(b, uint64(x.Int()))
				}
			case "fixed64":
				b = putUvarint(b, uint64(tag.num)<<3|1)
				var buf [8]byte
				binary.LittleEndian.PutUint64(buf[:], math.Float64bits(reflect.Indirect(x).Float()))
				b = append(b, buf[:]...)
			default:
				panic("wire kind " + tag.kind)
			}
		}
		f := v.Field(i)
		switch {
		case f.Kind() == reflect.Ptr && f.IsNil():
		case f.Kind() == reflect.Slice && f.Type().Elem().Kind() == reflect.Uint8:
			if !f.IsNil() {
				one(f)
			}
		case f.Kind() == reflect.Slice:
			for k := 0; k < f.Len(); k++ {
				one(f.Index(k))
			}
		default:
			one(f)
		}
		fields = append(fields, b)
	}
	if r != nil {
		for i, j := range r.Perm(len(fields)) {
			if i < j {
				fields[i], fields[j] = fields[j], fields[i]
			}
		}
	}
	return bytes.Join(fields, nil)
}

func wireDecode(b []byte, v reflect.Value) error {
	for len(b) > 0 {
		key, n := binary.Uvarint(b)
		if n <= 0 {
			return fmt.Errorf("key")
		}
		b = b[n:]
		fi := -1
		for i := 0; i < v.NumField(); i++ {
			if tag, ok := wireTagOf(v.Type().Field(i)); ok && tag.num == int(key>>3) {
				if map[string]uint64{"bytes": 2, "varint": 0, "fixed64": 1}[tag.kind] != key&7 {
					return fmt.Errorf("field %d of %s has wire type %d", key>>3, v.Type(), key&7)
				}
				fi = i
			}
		}
		if fi < 0 {
			return fmt.Errorf("%s has no field %d", v.Type(), key>>3)
		}
		f := v.Field(fi)
		target := f
		alloc := func() {
			if target.Kind() == reflect.Ptr {
				target.Set(reflect.New(target.Type().Elem()))
				target = target.Elem()
			}
		}
		switch key & 7 {
		case 2:
			l, n := binary.Uvarint(b)
			if n <= 0 || uint64(len(b)-n) < l {
				return fmt.Errorf("length of field %d of %s", key>>3, v.Type())
			}
			body := b[n : n+int(l)]
			b = b[n+int(l):]
			if f.Kind() == reflect.Slice && f.Type().Elem().Kind() != reflect.Uint8 {
				f.Set(reflect.Append(f, reflect.Zero(f.Type().Elem())))
				target = f.Index(f.Len() - 1)
			}
			alloc()
			switch target.Kind() {
			case reflect.Struct:
				if err := wireDecode(body, target); err != nil {
					return err
				}
			case reflect.String:
				target.SetString(string(body))
			default:
				target.SetBytes(append([]byte{}, body...))
			}
		case 0:
			u, n := binary.Uvarint(b)
			if n <= 0 {
				return fmt.Errorf("varint")
			}
			b = b[n:]
			alloc()
			switch target.Kind() {
			case reflect.Bool:
				target.SetBool(u != 0)
			case reflect.Uint64:
				target.SetUint(u)
			default:
				target.SetInt(int64(u))
			}
		case 1:
			if len(b) < 8 {
				return fmt.Errorf("fixed64")
			}
			alloc()
			target.SetFloat(math.Float64frombits(binary.LittleEndian.Uint64(b)))
			b = b[8:]
		}
	}
	return nil
}

// exactTree is DeepEqual that takes lists without elements for equal.
func exactTree(a, b reflect.Value) string {
	if a.Type() != b.Type() {
		return "type"
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return "nil"
		}
		if a.IsNil() {
			return ""
		}
		return exactTree(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if s := exactTree(a.Field(i), b.Field(i)); s != "" {
				return a.Type().Field(i).Name + "." + s
			}
		}
		return ""
	case reflect.Slice:
		if a.Type().Elem().Kind() == reflect.Uint8 {
			if a.IsNil() != b.IsNil() || !bytes.Equal(a.Bytes(), b.Bytes()) {
				return "bytes"
			}
			return ""
		}
		if a.Len() != b.Len() {
			return fmt.Sprintf("length %d and %d", a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if s := exactTree(a.Index(i), b.Index(i)); s != "" {
				return fmt.Sprintf("[%d].%s", i, s)
			}
		}
		return ""
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("length %d and %d", a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			v := b.MapIndex(k)
			if !v.IsValid() {
				return k.String()
			}
			if s := exactTree(a.MapIndex(k), v); s != "" {
				return k.String() + "." + s
			}
		}
		return ""
	case reflect.Float64:
		if math.Float64bits(a.Float()) != math.Float64bits(b.Float()) {
			return fmt.Sprintf("%v and %v", a, b)
		}
		return ""
	}
	if !reflect.DeepEqual(a.Interface(), b.Interface()) {
		return fmt.Sprintf("%#v and %#v", a.Interface(), b.Interface())
	}
	return ""
}

func exact(a, b interface{}) string { return exactTree(reflect.ValueOf(a), reflect.ValueOf(b)) }

type wireMessage interface {
	proto.Message
	Marshal() ([]byte, error)
	MarshalTo([]byte) (int, error)
	Size() int
	Unmarshal([]byte) error
}

// messagesOf gives the messages of a tree.
func messagesOf(v reflect.Value, out *[]wireMessage) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if m, ok := v.Interface().(wireMessage); ok {
			*out = append(*out, m)
		}
		messagesOf(v.Elem(), out)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			messagesOf(v.Field(i), out)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			messagesOf(v.Index(i), out)
		}
	}
}

// unknownField writes a field that no message of a grammar has.
func unknownField(r *Rng) []byte {
	num := uint64(100 + r.Intn(500))
	switch r.Intn(4) {
	case 0:
		return putUvarint(putUvarint(nil, num<<3), r.U64()>>uint(r.Intn(64)))
	case 1:
		return append(putUvarint(nil, num<<3|1), make([]byte, 8)...)
	case 2:
		n := r.Intn(200)
		return append(putUvarint(putUvarint(nil, num<<3|2), uint64(n)), make([]byte, n)...)
	}
	return append(putUvarint(nil, num<<3|5), make([]byte, 4)...)
}

func synTree(t *T) (*ast.Grammar, string) {
	g := synSome(t.Rng, 2000, 200)
	text := randomLayout(t.Rng, t.P(50)).grammar(g)
	t.Info("text:\n%s", text)
	return mustParse(t, text), text
}

func runP36(c *Ctx) {
	trip := func(t *T, a *ast.Grammar, text string) {
		data, err := proto.Marshal(a)
		if err != nil {
			t.Fail("marshaling fails: %v", err)
		}
		if a.Size() != len(data) {
			t.Fail("Size is %d, but %d bytes are written", a.Size(), len(data))
		}
		b := &ast.Grammar{}
		if err := proto.Unmarshal(data, b); err != nil {
			t.Fail("unmarshaling fails: %v", err)
		}
		if s := exact(a, b); s != "" {
			t.Fail("the grammar that is read back differs at %s: %s", s, b)
		}
		if !a.Equal(b) || a.String() != b.String() {
			t.Fail("the grammar that is read back prints as %s", b)
		}
		// what was written follows the declared field numbers
		d := &ast.Grammar{}
		if err := wireDecode(data, reflect.ValueOf(d).Elem()); err != nil {
			t.Fail("what is written does not follow relapse.proto: %v", err)
		}
		if s := exact(a, d); s != "" {
			t.Fail("what is written says otherwise at %s", s)
		}
		// what others wrote is read, in any order of fields
		e := &ast.Grammar{}
		if err := e.Unmarshal(wireEncode(t.Rng, reflect.ValueOf(a))); err != nil {
			t.Fail("reading what was written from relapse.proto fails: %v", err)
		}
		if s := exact(a, e); s != "" {
			t.Fail("reading what was written from relapse.proto differs at %s", s)
		}
		// reading over a used tree leaves nothing of it
		if t.P(30) {
			used := b
			data2 := append([]byte{}, data...)
			if err := proto.Unmarshal(data2, used); err != nil || exact(a, used) != "" {
				t.Fail("reading into a used tree gives %v, %v", used, err)
			}
			for i := range data2 {
				data2[i] = 0xff
			}
			if exact(a, used) != "" {
				t.Fail("the tree shares memory with the bytes it was read from")
			}
		}
		// newer writers
		f := &ast.Grammar{}
		if err := f.Unmarshal(bytes.Join([][]byte{unknownField(t.Rng), data, unknownField(t.Rng)}, nil)); err != nil || exact(a, f) != "" {
			t.Fail("unknown fields are not skipped: %v, %s", err, exact(a, f))
		}
		t.Count("bytes", len(data))
		if len(text) > 8 {
			t.Nontrivial(text)
		}
		t.Sample("%s", text)
	}
	c.Run("round-trip", c.N(12000), func(t *T) {
		a, text := synTree(t)
		trip(t, a, text)
	})
	c.Run("large", c.N(300), func(t *T) {
		g := genSyn(t.Rng)
		bigSyn(t.Rng, g, 40000, 1000)
		l := randomLayout(t.Rng, t.P(50))
		t.grow(t.Intn(3), 20000)
		text := l.grammar(g)
		t.Info("text:\n%s", text)
		trip(t, mustParse(t, text), text)
	})
	c.Run("messages", c.N(3000), func(t *T) {
		// Each message of a tree on its own.
		a, text := synTree(t)
		var ms []wireMessage
		messagesOf(reflect.ValueOf(a), &ms)
		for _, m := range ms {
			data, err := m.Marshal()
			if err != nil || len(data) != m.Size() {
				t.Fail("%T: %v, %d bytes with Size %d", m, err, len(data), m.Size())
			}
			room := make([]byte, len(data)+3)
			n, err := m.MarshalTo(room[:len(data)])
			if err != nil || n != len(data) || !bytes.Equal(room[:n], data) {
				t.Fail("%T: MarshalTo writes %d of %d bytes, %v", m, n, len(data), err)
			}
			b := reflect.New(reflect.TypeOf(m).Elem()).Interface().(wireMessage)
			if err := b.Unmarshal(data); err != nil || exact(m, b) != "" {
				t.Fail("%T: reading back gives %v, %s", m, err, exact(m, b))
			}
			if c := proto.Clone(m); exact(m, c) != "" {
				t.Fail("%T: proto.Clone differs at %s", m, exact(m, c))
			}
			t.Count("messages", 1)
		}
		t.Nontrivial(text)
	})
	c.Run("damaged", c.N(6000), func(t *T) {
		// Bytes that are damaged give an error or some tree, never a crash.
		a, text := synTree(t)
		data, _ := a.Marshal()
		try := func(d []byte) {
			b := &ast.Grammar{}
			if err := b.Unmarshal(d); err != nil {
				t.Count("refused", 1)
				return
			}
			t.Count("accepted", 1)
			d2, err := b.Marshal()
			if err != nil {
				t.Fail("what was read from %x cannot be written: %v", d, err)
			}
			e := &ast.Grammar{}
			if err := e.Unmarshal(d2); err != nil || exact(b, e) != "" {
				t.Fail("what was read from %x does not read back: %v, %s", d, err, exact(b, e))
			}
		}
		for k := 0; k < 6; k++ {
			d := append([]byte{}, data...)
			for n := 1 + t.Intn(3); n > 0 && len(d) > 0; n-- {
				i := t.Intn(len(d))
				switch t.Intn(5) {
				case 0:
					d = d[:i]
				case 1:
					d[i] = byte(t.U64())
				case 2:
					d[i] ^= 1 << uint(t.Intn(8))
				case 3:
					d = append(d[:i:i], d[min(len(d), i+1+t.Intn(6)):]...)
				case 4:
					d = append(d[:i:i], append(bytes.Repeat([]byte{0xff}, 1+t.Intn(10)), d[i:]...)...)
				}
			}
			t.Info("text:\n%s\nbytes %x", text, d)
			try(d)
		}
		// every cut of a message that ends within a field is refused
		i := t.Intn(len(data))
		b := &ast.Grammar{}
		if err := b.Unmarshal(data[:i]); (err != nil) != (wireDecode(data[:i], reflect.ValueOf(&ast.Grammar{}).Elem()) != nil) {
			t.Fail("the first %d of %d bytes: %v", i, len(data), err)
		}
		t.Nontrivial(text, i)
	})
}

// --- P37

// nodesOf lists the nodes of a tree below v, with their parents.
func nodesOf(v reflect.Value, parent interface{}, exprs bool, out map[interface{}]interface{}) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		n := v.Interface()
		switch n.(type) {
		case *ast.Keyword, *ast.Space:
			return
		case *ast.Expr:
			if !exprs {
				return
			}
		}
		if v.Elem().Kind() != reflect.Struct {
			return
		}
		out[n] = parent
		nodesOf(v.Elem(), n, exprs, out)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			nodesOf(v.Field(i), parent, exprs, out)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			nodesOf(v.Index(i), parent, exprs, out)
		}
	}
}

// trail is a visitor that knows the nodes above it.
type trail struct {
	node  interface{} // the node that this visitor was returned for
	seen  map[interface{}]interface{}
	twice *interface{}
}

func (v *trail) Visit(n interface{}) interface{} {
	if _, ok := v.seen[n]; ok {
		*v.twice = n
	}
	v.seen[n] = v.node
	return &trail{n, v.seen, v.twice}
}

func isExprNode(n interface{}) bool {
	switch n.(type) {
	case *ast.Expr, *ast.List, *ast.Function, *ast.BuiltIn, *ast.Terminal, *ast.Variable:
		return true
	}
	return false
}

func checkWalk(t *T, root interface{ Walk(ast.Visitor) }, exprs bool) {
	want := map[interface{}]interface{}{}
	nodesOf(reflect.ValueOf(root), nil, exprs, want)
	var twice interface{}
	v := &trail{seen: map[interface{}]interface{}{}, twice: &twice}
	root.Walk(v)
	if twice != nil {
		t.Fail("a walk over %T visits %T %v twice", root, twice, twice)
	}
	for n, parent := range want {
		p, ok := v.seen[n]
		if !ok {
			t.Fail("a walk over %T does not visit %T %v", root, n, n)
		}
		if p != parent {
			t.Fail("a walk over %T visits %T %v with the visitor of %T", root, n, n, p)
		}
	}
	for n := range v.seen {
		if _, ok := want[n]; !ok && !(isExprNode(n) && !exprs) {
			t.Fail("a walk over %T visits %T %v", root, n, n)
		}
	}
	t.Count("nodes_walked", len(want))
}

// hasVar is the oracle of HasVar.
func hasVar(e *ast.Expr) bool {
	seen := map[interface{}]interface{}{}
	nodesOf(reflect.ValueOf(e), nil, true, seen)
	for n := range seen {
		switch n.(type) {
		case *ast.Variable, *ast.BuiltIn:
			return true
		}
	}
	return false
}

func checkGoString(t *T, v interface{ GoString() string }) {
	src := v.GoString()
	got, err := goValue(src, v)
	if err != nil {
		t.Fail("the Go source of %T cannot be evaluated: %v\n%s", v, err, src)
	}
	if s := exact(v, got); s != "" {
		t.Fail("the Go source of %T gives another value at %s\n%s", v, s, src)
	}
	t.Count("sources_evaluated", 1)
	t.Count("source_bytes", len(src))
}

func runP37(c *Ctx) {
	c.Run("walk", c.N(8000), func(t *T) {
		a, text := synTree(t)
		checkWalk(t, a, false)
		for _, d := range a.PatternDecls {
			checkWalk(t, d, false)
		}
		for _, p := range allPatterns(a) {
			if t.P(30) {
				checkWalk(t, p, false)
			}
			if p.LeafNode != nil {
				e := p.LeafNode.Expr
				checkWalk(t, e, true)
				if e.HasVar() != hasVar(e) {
					t.Fail("HasVar of %s is %v", e, e.HasVar())
				}
				cs := &collect{}
				e.Walk(cs)
				for _, sub := range cs.es {
					if sub.HasVar() != hasVar(sub) {
						t.Fail("HasVar of %s, within %s, is %v", sub, e, sub.HasVar())
					}
					if hasVar(sub) {
						t.Count("with_variable", 1)
					} else {
						t.Count("without_variable", 1)
					}
				}
			}
		}
		not := false
		for _, p := range allPatterns(a) {
			if p.Not != nil && p.Not.Pattern.ZAny == nil {
				not = true
			}
		}
		if ast.HasNot(a) != not {
			t.Fail("HasNot is %v", !not)
		}
		// A tree that is still being built can be walked.
		b := a.Clone()
		ps := allPatterns(b)
		for n := 1 + t.Intn(3); n > 0; n-- {
			prune(t.Rng, ps[t.Intn(len(ps))])
		}
		checkWalk(t, b, false)
		if len(text) > 8 {
			t.Nontrivial(text)
		}
		t.Sample("%s", text)
	})
	c.Run("references", c.N(8000), func(t *T) {
		a, text := synTree(t)
		rewired := false
		if t.P(40) {
			// rename some references and declarations, and refer more
			for n := t.Intn(3); n > 0; n-- {
				ps := allPatterns(a)
				p := ps[t.Intn(len(ps))]
				if p != a.TopPattern {
					rewired = true // the text might lack a colon
					*p = *ast.NewReference(t.Pick("main", "r0", "r1", "other"))
				}
			}
			for _, p := range allPatterns(a) {
				if p.Reference != nil && t.P(30) {
					p.Reference.Name = t.Pick("main", "r0", "r1", "other")
				}
			}
			for _, d := range a.PatternDecls {
				if t.P(20) {
					d.Name = t.Pick("main", "r0", "r1", "other")
				}
			}
			t.Info("tree:\n%s", a)
		}
		// what is declared: the last declaration of a name, and the top
		// pattern as main
		decl := map[string]*ast.Pattern{}
		for _, d := range a.PatternDecls {
			decl[d.Name] = d.Pattern
		}
		if a.TopPattern != nil {
			decl["main"] = a.TopPattern
		}
		look := ast.NewRefLookup(a)
		if len(look) != len(decl) {
			t.Fail("%d references instead of %d", len(look), len(decl))
		}
		for n, p := range decl {
			if look[n] != p {
				t.Fail("the reference %q is %v instead of %v", n, look[n], p)
			}
		}
		ok := decl["main"] != nil
		for _, p := range allPatterns(a) {
			if p.Reference != nil && decl[p.Reference.Name] == nil {
				ok = false
			}
		}
		if err := a.CheckReferences(); (err == nil) != ok {
			t.Fail("CheckReferences gives %v", err)
		}
		if ok {
			t.Count("references_complete", 1)
		} else {
			t.Count("references_dangling", 1)
		}
		// from a lookup to a grammar and back
		b := ast.NewGrammar(look)
		again := ast.NewRefLookup(b)
		if len(again) != len(look) {
			t.Fail("a grammar of %d references holds %d: %s", len(look), len(again), b)
		}
		for n, p := range look {
			if again[n] != p {
				t.Fail("the reference %q changes from %v to %v", n, p, again[n])
			}
		}
		if b2, err := rparser.ParseGrammar(b.String()); err != nil {
			if !rewired && !strings.Contains(text, "//") {
				t.Fail("the grammar of the references does not parse: %v\n%s", err, b)
			}
		} else if s := ast.NewRefLookup(b2); len(s) != len(look) {
			t.Fail("the grammar of %d references prints %d: %s", len(look), len(s), b)
		}
		// a pattern as a grammar, with references added
		main := decl["main"]
		if main != nil {
			g := main.Grammar()
			if l := ast.NewRefLookup(g); len(l) != 1 || l["main"] != main {
				t.Fail("the grammar of %s is %s", main, g)
			}
			added := map[string]*ast.Pattern{"main": main}
			for n, p := range decl {
				if n != "main" {
					if g2 := g.AddRef(n, p); g2 != g {
						t.Fail("AddRef gives another grammar")
					}
					added[n] = p
				}
			}
			l := ast.NewRefLookup(g)
			if len(l) != len(added) {
				t.Fail("%d references were added, there are %d", len(added), len(l))
			}
			for n, p := range added {
				if l[n] != p {
					t.Fail("the added reference %q is %v instead of %v", n, l[n], p)
				}
			}
		}
		if len(decl) > 1 {
			t.Nontrivial(a.String())
		}
	})
	c.Run("go-source", c.N(3000), func(t *T) {
		a, text := synTree(t)
		checkGoString(t, a)
		checkGoString(t, ast.NewRefLookup(a))
		for _, p := range allPatterns(a) {
			if t.P(10) {
				checkGoString(t, p)
			}
			if p.LeafNode != nil && t.P(20) {
				checkGoString(t, p.LeafNode.Expr)
			}
		}
		b := a.Clone()
		ps := allPatterns(b)
		prune(t.Rng, ps[t.Intn(len(ps))])
		checkGoString(t, b)
		if len(text) > 8 {
			t.Nontrivial(text)
		}
	})
}

// prune takes something away from a pattern.
func prune(r *Rng, p *ast.Pattern) {
	switch {
	case p.TreeNode != nil:
		if r.P(50) {
			p.TreeNode.Name = nil
		} else {
			p.TreeNode.Pattern = nil
		}
	case p.Concat != nil:
		if r.P(50) {
			p.Concat.LeftPattern = nil
		} else {
			p.Concat.RightPattern = nil
		}
	case p.Or != nil:
		if r.P(50) {
			p.Or.LeftPattern = nil
		} else {
			p.Or.RightPattern = nil
		}
	case p.And != nil:
		if r.P(50) {
			p.And.LeftPattern = nil
		} else {
			p.And.RightPattern = nil
		}
	case p.Interleave != nil:
		if r.P(50) {
			p.Interleave.LeftPattern = nil
		} else {
			p.Interleave.RightPattern = nil
		}
	case p.Not != nil:
		// HasNot and the printers look into it
	case p.ZeroOrMore != nil:
		p.ZeroOrMore.Pattern = nil
	case p.Optional != nil:
		p.Optional.Pattern = nil
	case p.Contains != nil:
		p.Contains.Pattern = nil
	default:
		*p = ast.Pattern{}
	}
}

// --- P38

// lexemes has a text for each kind of token.
var lexemes = map[string][]string{
	"id": {"a", "main", "eq"}, "<empty>": {"<empty>"}, "[]bool": {"[]bool"}, "[]int": {"[]int"}, "[]uint": {"[]uint"}, "[]double": {"[]double"}, "[]string": {"[]string"}, "[][]byte": {"[][]byte"},
	"int_lit": {"1", "int(5)", "0x1f", "-3"}, "uint_cast_lit": {"uint(5)"}, "double_cast_lit": {"double(1.5)"}, "string_lit": {"\"s\"", "`r`"}, "bytes_cast_lit": {"[]byte{1,2}"},
	"bool_var": {"$bool"}, "int_var": {"$int"}, "uint_var": {"$uint"}, "double_var": {"$double"}, "string_var": {"$string"}, "bytes_var": {"$[]byte"}, "true": {"true"}, "false": {"false"},
	"space": {" ", "\n", "/* c */", "// c\n", "\t"},
}

// scan gives the tokens of a text.
func scan(text string) []*token.Token {
	l := lexer.NewLexer([]byte(text))
	var toks []*token.Token
	for {
		tok := l.Scan()
		toks = append(toks, tok)
		if tok.Type == token.EOF || len(toks) > len(text)+1 {
			return toks
		}
	}
}

func syntaxError(err error) *perrors.Error {
	e, _ := err.(*perrors.Error)
	if e == nil || e.Err != nil {
		return nil
	}
	return e
}

// accepts says whether the parser takes text[:off]+lex beyond off, and
// whether lex stands on its own there.
func accepts(text string, off int, lex, kind string) (accepted, certain bool, next *perrors.Error) {
	text2 := text[:off] + lex
	was := scan(text)
	is := scan(text2)
	for i, tok := range is {
		if i >= len(was) || tok.Offset > off {
			return false, false, nil
		}
		if tok.Offset == off {
			if was[i].Offset != off || token.TokMap.Id(tok.Type) != kind || string(tok.Lit) != lex || len(is) != i+2 && kind != "$" {
				return false, false, nil
			}
			break
		}
		if tok.Offset != was[i].Offset || tok.Type != was[i].Type {
			return false, false, nil
		}
	}
	_, err := rparser.ParseGrammar(text2)
	if err == nil {
		return true, true, nil
	}
	e := syntaxError(err)
	if e == nil {
		return true, true, nil
	}
	if kind == "$" {
		return false, true, e
	}
	return e.ErrorToken.Offset > off, true, e
}

func lineColumn(s string) (line, column int) {
	line, column = 1, 1
	for _, r := range s {
		switch r {
		case '\n':
			line++
			column = 1
		case '\r':
			column = 1
		case '\t':
			column += 4
		default:
			column++
		}
	}
	return line, column
}

func checkPlace(t *T, text string, err error, deep bool) {
	pe, ok := err.(*perrors.Error)
	if !ok {
		t.Fail("the error is a %T: %v", err, err)
	}
	tok := pe.ErrorToken
	if tok == nil {
		t.Fail("the error names no token: %v", err)
	}
	off := tok.Offset
	if off < 0 || off > len(text) || !strings.HasPrefix(text[off:], string(tok.Lit)) {
		t.Fail("the error names offset %d and the text %q", off, tok.Lit)
	}
	msg := pe.Error()
	if !strings.Contains(msg, fmt.Sprintf("offset=%d", off)) || !strings.Contains(msg, string(tok.Lit)) || !strings.Contains(pe.String(), fmt.Sprintf("offset=%d", off)) {
		t.Fail("the message does not name the place, offset %d: %s", off, msg)
	}
	line, col := lineColumn(text[:off])
	if tok.Line != line || tok.Column != col {
		t.Fail("the error at offset %d names line %d and column %d instead of %d and %d", off, tok.Line, tok.Column, line, col)
	}
	t.Count("positions", 1)
	if line > 1 {
		t.Count("positions_beyond_the_first_line", 1)
	}
	if pe.Err != nil {
		if !strings.Contains(msg, pe.Err.Error()) {
			t.Fail("the message hides its reason, %v: %s", pe.Err, msg)
		}
		t.Count("value_errors", 1)
		return
	}
	if tok.Type == token.EOF {
		t.Count("at_end", 1)
		if off != len(text) {
			t.Fail("the text is said to end at offset %d of %d", off, len(text))
		}
	}
	exp := map[string]bool{}
	for _, id := range pe.ExpectedTokens {
		if exp[id] {
			t.Fail("%q is expected twice", id)
		}
		exp[id] = true
		if !strings.Contains(msg, id) {
			t.Fail("the message does not name %q, which is expected: %s", id, msg)
		}
	}
	if len(exp) == 0 {
		t.Fail("nothing is expected: %s", msg)
	}
	// each kind of token can follow what is before the place if and only if
	// it is expected
	for i := 0; ; i++ {
		id := token.TokMap.Id(token.Type(i))
		if id == "unknown" {
			break
		}
		if id == "INVALID" || id == "$" {
			continue
		}
		ls := lexemes[id]
		if ls == nil {
			ls = []string{id}
		}
		lex := ls[t.Intn(len(ls))]
		got, certain, _ := accepts(text, off, lex, id)
		if !certain {
			t.Count("tokens_that_do_not_stand_alone", 1)
			continue
		}
		if got != exp[id] {
			t.Fail("at offset %d of %q the token %q is accepted: %v, expected: %v", off, text, lex, got, exp[id])
		}
		t.Count("tokens_tried", 1)
	}
	if got, certain, _ := accepts(text, off, "", "$"); certain && got != exp["$"] {
		t.Fail("the text may end at offset %d: %v, expected: %v", off, got, exp["$"])
	}
	if !deep {
		return
	}
	// what is before the place is the start of a grammar
	cur, want := text[:off], pe.ExpectedTokens
	for step := 0; ; step++ {
		if step > 80 {
			t.Count("completions_unfinished", 1)
			return
		}
		_, err := rparser.ParseGrammar(cur)
		if err == nil {
			t.Count("completions", 1)
			return
		}
		e := syntaxError(err)
		if e == nil {
			return
		}
		if e.ErrorToken.Offset < len(cur) {
			if step == 0 {
				return // the last token was cut
			}
			t.Fail("what is before offset %d cannot be completed: %q fails at %d", off, cur, e.ErrorToken.Offset)
		}
		want = e.ExpectedTokens
		next := ""
	pick:
		for _, id := range []string{")", "]", "}", "?", "*", ":", "=", ";", ",", "|", "true", "(", "{", "id", "space", "int_lit", "uint_cast_lit", "double_cast_lit", "string_lit", "bytes_cast_lit"} {
			for _, w := range want {
				if w != id {
					continue
				}
				lex := id
				if ls := lexemes[id]; ls != nil {
					lex = ls[0]
				}
				if got, certain, _ := accepts(cur, len(cur), lex, id); certain && got {
					next = lex
					break pick
				}
			}
		}
		if next == "" {
			t.Count("completions_stuck", 1)
			return
		}
		cur += next
	}
}

// readAhead has starts of tokens that do not become these tokens.
var readAhead = []string{"[].", "A<e", "double(a", "uint(a", "int(a", "->f(0xg", "->f(0Xg", "[[]byte{\n"}

func runP38(c *Ctx) {
	place := func(t *T, text string) {
		t.Info("text:\n%q", text)
		_, err := rparser.ParseGrammar(text)
		if err == nil {
			t.Count("accepted", 1)
			return
		}
		t.Count("refused", 1)
		checkPlace(t, text, err, t.P(20))
		if e, ok := err.(*perrors.Error); ok && e.ErrorToken.Offset > 0 && e.ErrorToken.Offset < len(text) {
			t.Nontrivial(text)
		}
		t.Sample("%q: %v", text, err)
	}
	c.Run("mutated", c.N(3000), func(t *T) {
		text := randomLayout(t.Rng, t.P(50)).grammar(synSome(t.Rng, 2000, 2000))
		place(t, mutateText(t.Rng, text))
	})
	c.Run("cut", c.N(2000), func(t *T) {
		text := randomLayout(t.Rng, t.P(50)).grammar(synSome(t.Rng, 2000, 2000))
		place(t, text[:t.Intn(len(text)+1)]+t.Pick("", "", "]", ")", "a", "\x01", "\n\n??", "é"))
	})
	c.Run("tokens", c.N(4000), func(t *T) {
		var b strings.Builder
		for i := 1 + t.Intn(12); i > 0; i-- {
			b.WriteString(soupToks[t.Intn(len(soupToks))])
			if t.P(30) {
				b.WriteString(t.Pick(" ", "\n", "\t", "\r\n", "/* é\n */"))
			}
		}
		place(t, b.String())
	})
	c.Run("read-ahead", len(readAhead), func(t *T) {
		// What starts like a longer token.
		text := readAhead[t.idx] + " x = )"
		t.Info("text:\n%q", text)
		_, err := rparser.ParseGrammar(text)
		checkPlace(t, text, err, true)
		t.Nontrivial(text)
	})
	c.Run("reused-parser", c.N(1000), func(t *T) {
		p := rparser.NewParser()
		for i := 0; i < 5; i++ {
			text := mutateText(t.Rng, randomLayout(t.Rng, t.P(50)).grammar(genSyn(t.Rng)))
			t.Info("text %d:\n%q", i, text)
			_, err := p.ParseGrammar(text)
			_, err2 := rparser.ParseGrammar(text)
			if fmt.Sprint(err) != fmt.Sprint(err2) {
				t.Fail("a parser that was used before says %v instead of %v", err, err2)
			}
			if err != nil {
				t.Nontrivial(text)
			}
		}
	})
}
