package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"github.com/katydid/katydid/parser"
	sxml "github.com/katydid/katydid/parser/xml"
)

// X is a piece of an XML document.
type X struct {
	kind  byte // e element, t text, c cdata, ! comment, ? processing instruction
	name  string
	ns    string
	text  string
	attrs [][2]string
	kids  []*X
}

type xmlOpts struct{ attr, elem, text string }

func (o xmlOpts) options() []sxml.Option {
	var os []sxml.Option
	if o.attr != "" {
		os = append(os, sxml.WithAttrPrefix(o.attr))
	}
	if o.elem != "" {
		os = append(os, sxml.WithElemPrefix(o.elem))
	}
	if o.text != "" {
		os = append(os, sxml.WithTextPrefix(o.text))
	}
	return os
}

func (o xmlOpts) textVal(s string, attr bool) Val {
	v := vS(o.text + s)
	if !attr {
		v.HasY, v.Y = true, []byte(s)
	}
	if i, err := strconv.ParseInt(s, 10, 64); err == nil {
		v.HasI, v.I = true, i
	}
	if u, err := strconv.ParseUint(s, 10, 64); err == nil {
		v.HasU, v.U = true, u
	}
	if d, err := strconv.ParseFloat(s, 64); err == nil {
		v.HasD, v.D = true, d
	}
	if b, err := strconv.ParseBool(strings.TrimSpace(s)); err == nil {
		v.HasB, v.B = true, b
	}
	return v
}

func (x *X) nodes(o xmlOpts) []*Node {
	switch x.kind {
	case 'e':
		n := field(o.elem + x.name)
		for _, a := range x.attrs {
			nm := a[0]
			if i := strings.IndexByte(nm, ':'); i >= 0 {
				nm = nm[i+1:]
			}
			n.Kids = append(n.Kids, field(o.attr+nm, leaf(o.textVal(a[1], true))))
		}
		for _, k := range x.kids {
			n.Kids = append(n.Kids, k.nodes(o)...)
		}
		return []*Node{n}
	case 't', 'c':
		if x.text == "" {
			return nil
		}
		return []*Node{leaf(o.textVal(x.text, false))}
	}
	return nil
}

var xmlTexts = []string{"1", "-1", "12", "true", "false", "t", "0", " true ", "1.5", "-2e3", "abc", " ", "\n\t", "18446744073709551615", "9223372036854775807", "<", ">", "&", "\"", "'", "]]>", "]]", "é", "😀", "<?pi?>", "<!--x-->", "a&b;c", "&amp;", "Inf", "1_0", "0x10", "01", " 1", "A", "B"}

func genXText(r *Rng) string {
	if r.P(60) {
		return xmlTexts[r.Intn(len(xmlTexts))]
	}
	s := ""
	n := r.some(4)
	if n > 32 {
		return longString(r, n, longChars)
	}
	for ; n >= 0; n-- {
		s += xmlTexts[r.Intn(len(xmlTexts))]
	}
	return s
}

func genX(r *Rng, depth int, prefixes []string) *X {
	x := &X{kind: 'e', name: r.Pick("A", "B", "C", "D", "E", "a-b", "_x", "x1", "é")}
	used := map[string]bool{}
	if r.P(8) {
		p := r.Pick("p", "q")
		x.attrs = append(x.attrs, [2]string{"xmlns:" + p, r.Pick("urn:a", "http://b", "c&d")})
		used["xmlns:"+p] = true
		prefixes = append(append([]string(nil), prefixes...), p)
	}
	if r.P(4) {
		x.attrs = append(x.attrs, [2]string{"xmlns", "urn:z"})
	}
	if len(prefixes) > 0 && r.P(40) {
		x.ns = prefixes[r.Intn(len(prefixes))]
	}
	if r.P(35) {
		for n := min(r.some(4), 5000); n > 0; n-- {
			nm := r.Pick("A", "B", "a", "b", "c", "xml:lang", "d-e")
			if n > 4 {
				nm = fmt.Sprint("n", n)
			}
			if !used[nm] {
				used[nm] = true
				x.attrs = append(x.attrs, [2]string{nm, genXText(r)})
			}
		}
	}
	if depth <= 0 {
		if r.P(80) {
			x.kids = append(x.kids, &X{kind: 't', text: genXText(r)})
		}
		return x
	}
	var last byte = 'e'
	n := r.some(5)
	if n > 32 {
		defer func(big int) { r.big = big }(r.big)
		r.big = 0
	}
	dp := below(depth, n)
	for ; n > 0; n-- {
		k := &X{}
		switch r.Intn(10) {
		case 0, 1:
			k.kind, k.text = 't', genXText(r)
			if last == 't' {
				continue
			}
		case 2:
			k.kind, k.text = 'c', noCDEnd(genXText(r))
			if r.P(20) {
				k.text = ""
			}
		case 3:
			k.kind, k.text = '!', r.Pick("", "x", " <A> ", "&amp; ]]>", "?>")
		case 4:
			k.kind, k.text = '?', r.Pick("x", "php echo 1", "a <b> c", "pi a='?'")
			if last == 't' || last == 'c' {
				continue
			}
		default:
			k = genX(r, dp, prefixes)
		}
		if last == '?' && (k.kind == 't' || k.kind == 'c') {
			continue
		}
		last = k.kind
		x.kids = append(x.kids, k)
	}
	return x
}

func writeXText(r *Rng, b *bytes.Buffer, s string, quote byte) {
	for _, c := range s {
		switch {
		case c == '<':
			b.WriteString("&lt;")
		case c == '&':
			b.WriteString("&amp;")
		case c == '>':
			b.WriteString("&gt;")
		case c == rune(quote) && c == '"':
			b.WriteString("&quot;")
		case c == rune(quote) && c == '\'':
			b.WriteString("&apos;")
		case quote != 0 && (c == '\n' || c == '\t'):
			fmt.Fprintf(b, "&#%d;", c)
		case r.P(8):
			if r.P(50) {
				fmt.Fprintf(b, "&#%d;", c)
			} else {
				fmt.Fprintf(b, "&#x%x;", c)
			}
		default:
			b.WriteRune(c)
		}
	}
}

func (x *X) write(r *Rng, b *bytes.Buffer) {
	switch x.kind {
	case 't':
		writeXText(r, b, x.text, 0)
	case 'c':
		fmt.Fprintf(b, "<![CDATA[%s]]>", x.text)
	case '!':
		fmt.Fprintf(b, "<!--%s-->", x.text)
	case '?':
		fmt.Fprintf(b, "<?%s?>", x.text)
	case 'e':
		name := x.name
		if x.ns != "" {
			name = x.ns + ":" + name
		}
		b.WriteString("<" + name)
		for _, a := range x.attrs {
			b.WriteString(r.Pick(" ", "  ", "\n"))
			q := "\"'"[r.Intn(2)]
			b.WriteString(a[0] + r.Pick("=", "=", " = "))
			b.WriteByte(q)
			writeXText(r, b, a[1], q)
			b.WriteByte(q)
		}
		b.WriteString(r.Pick("", "", " "))
		if len(x.kids) == 0 && r.P(50) {
			b.WriteString("/>")
			return
		}
		b.WriteString(">")
		for _, k := range x.kids {
			k.write(r, b)
		}
		b.WriteString("</" + name + r.Pick("", "", " ") + ">")
	}
}

func xmlSource(buf []byte, doc Doc, o xmlOpts) *source {
	return &source{
		format: "xml", text: fmt.Sprintf("%q %+v", buf, o), doc: doc, bytes: buf,
		fresh: func() (parser.Interface, error) {
			p := sxml.NewXMLParser(o.options()...)
			return p, p.Init(buf)
		},
		point: func(p parser.Interface) error { return p.(sxml.XMLParser).Init(buf) },
		parse: func(buf []byte) (parser.Interface, error) {
			p := sxml.NewXMLParser(o.options()...)
			return p, p.Init(buf)
		},
	}
}

func genXMLOpts(r *Rng) xmlOpts {
	var o xmlOpts
	if r.P(25) {
		o = xmlOpts{r.Pick("", "attr_", "@"), r.Pick("", "elem_"), r.Pick("", "text_", "1")}
	}
	return o
}

func genXML(r *Rng, depth int, o xmlOpts) *source {
	x := genX(r, depth, nil)
	var b bytes.Buffer
	misc := func() {
		for r.P(25) {
			switch r.Intn(3) {
			case 0:
				b.WriteString("<!-- a <b> -->")
			case 1:
				b.WriteString("<?p a='1'?>")
			}
			b.WriteString(r.Pick("", "\n", " "))
		}
	}
	b.WriteString(r.Pick("", "", "\n"))
	if b.Len() == 0 && r.P(30) {
		b.WriteString(r.Pick(`<?xml version="1.0"?>`, `<?xml version="1.0" encoding="UTF-8"?>`, "<?xml version='1.0'\nencoding='utf-8' ?>"))
		b.WriteString(r.Pick("", "\n", "\r\n"))
	}
	misc()
	if r.P(10) {
		b.WriteString(r.Pick("<!DOCTYPE A>", "<!DOCTYPE A SYSTEM \"a.dtd\">", "<!DOCTYPE A [ <!ELEMENT A ANY> ]>") + r.Pick("", "\n"))
		misc()
	}
	x.write(r, &b)
	misc()
	b.WriteString(r.Pick("", "", "\n", " \t"))
	return xmlSource(b.Bytes(), Doc(x.nodes(o)), o)
}

// noCDEnd removes everything that would end a CDATA section.
func noCDEnd(s string) string {
	for strings.Contains(s, "]]>") {
		s = strings.ReplaceAll(s, "]]>", "]]")
	}
	return s
}
