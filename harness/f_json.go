package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/katydid/katydid/parser"
	sjson "github.com/katydid/katydid/parser/json"
)

// J is a JSON value.
type J struct {
	kind byte // n t f # " [ {
	num  string
	str  string
	keys []string
	kids []*J
}

// numVal gives the views of a JSON number; fuzzy numbers have an integer value
// that only a rounded view can see.
func numVal(s string) (v Val, fuzzy bool) {
	f, err := strconv.ParseFloat(s, 64)
	if err == nil {
		v.HasD, v.D = true, f
	}
	if !strings.ContainsAny(s, ".eE") {
		if i, err := strconv.ParseInt(s, 10, 64); err == nil {
			v.HasI, v.I = true, i
		} else if math.Abs(f) <= 1<<63 {
			fuzzy = true
		}
		if u, err := strconv.ParseUint(s, 10, 64); err == nil {
			v.HasU, v.U = true, u
		}
		return v, fuzzy
	}
	if err == nil && math.Abs(f) <= 1<<53 && f == math.Trunc(f) {
		v.HasI, v.I = true, int64(f)
	}
	return v, math.Abs(f) > 1<<53
}

func (j *J) nodes() []*Node {
	switch j.kind {
	case 'n':
		return []*Node{leaf(Val{})}
	case 't', 'f':
		return []*Node{leaf(vB(j.kind == 't'))}
	case '#':
		v, _ := numVal(j.num)
		return []*Node{leaf(v)}
	case '"':
		return []*Node{leaf(vS(j.str))}
	case '[':
		ns := []*Node{}
		for i, k := range j.kids {
			ns = append(ns, index(i, k.nodes()...))
		}
		return ns
	}
	ns := []*Node{}
	for i, k := range j.kids {
		ns = append(ns, field(j.keys[i], k.nodes()...))
	}
	return ns
}

var someStrings = []string{"", "a", "A", "B", "abc", "[", "]", "{", "}", "[{", "}]", "\"", "\\", "\\\"", "\\u", "\\u0041", "/", ",", ":", "é", "€", "😀", "\u2028", "\x00", "\x1f", "\n", "\t\r\b\f", "\x7f", "null", "true", "1", " ", "'", "<", "&", "\ufffd", "a\"b]c}d"}

func genString(r *Rng) string {
	switch r.Intn(4) {
	case 0:
		return someStrings[r.Intn(len(someStrings))]
	case 1:
		return r.Pick("A", "B", "C", "D", "E")
	}
	var b strings.Builder
	n := r.some(12)
	if n > 32 {
		return longString(r, n, longChars)
	}
	for ; n > 0; n-- {
		switch r.Intn(6) {
		case 0:
			b.WriteString(someStrings[r.Intn(len(someStrings))])
		case 1:
			b.WriteRune(rune(r.Intn(0x20)))
		case 2:
			c := rune(r.Intn(0x110000))
			if c >= 0xd800 && c < 0xe000 {
				c = 0xe000
			}
			b.WriteRune(c)
		default:
			b.WriteByte(byte(0x20 + r.Intn(0x5f)))
		}
	}
	return b.String()
}

func genNumber(r *Rng) string {
	for {
		s := ""
		if r.P(30) {
			s = "-"
		}
		switch r.Intn(8) {
		case 0:
			s += "0"
		case 1:
			s += strconv.Itoa(r.Intn(10))
		case 2:
			s += strconv.FormatUint(r.U64()>>uint(r.Intn(64)), 10)
		case 3:
			s += []string{"9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "2147483648", "4294967295", "9007199254740992", "9007199254740993"}[r.Intn(8)]
		case 4:
			s += strconv.Itoa(r.Intn(1000)) + "." + strconv.Itoa(r.Intn(1000))
			if n := r.some(2); n > 32 {
				// more digits than any number has use for
				s += longString(r, n%1000, []rune("0123456789"))
			}
		case 5:
			s += strconv.Itoa(r.Intn(100)) + r.Pick("e", "E") + r.Pick("", "+", "-") + strconv.Itoa(r.Intn(12))
		case 6:
			s += strconv.Itoa(r.Intn(100)) + "." + strconv.Itoa(r.Intn(100)) + "00" + r.Pick("e", "E") + r.Pick("", "+", "-") + r.Pick("0", "00", "1", "02", "7", "300", "400", "310")
		case 7:
			f := math.Float64frombits(r.U64())
			if f != f || math.IsInf(f, 0) {
				continue
			}
			s = strconv.FormatFloat(f, "eg"[r.Intn(2)], -1, 64)
		}
		if _, fuzzy := numVal(s); fuzzy {
			continue
		}
		return s
	}
}

func genJ(r *Rng, depth int) *J {
	k := r.Intn(10)
	if depth <= 0 {
		k = r.Intn(6)
	}
	switch k {
	case 0:
		return &J{kind: "ntf"[r.Intn(3)]}
	case 1, 2, 3:
		return &J{kind: '#', num: genNumber(r)}
	case 4, 5:
		return &J{kind: '"', str: genString(r)}
	case 6, 7:
		j := &J{kind: '['}
		n := r.some(5)
		r.inside(n, func() {
			for k := n; k > 0; k-- {
				j.kids = append(j.kids, genJ(r, below(depth, n)))
			}
		})
		return j
	}
	j := &J{kind: '{'}
	n := r.some(5)
	r.inside(n, func() {
		for k := n; k > 0; k-- {
			j.keys = append(j.keys, genString(r))
			j.kids = append(j.kids, genJ(r, below(depth, n)))
		}
	})
	return j
}

func ws(r *Rng, b *bytes.Buffer, pct int) {
	for r.P(pct) {
		b.WriteByte(" \n\t\r"[r.Intn(4)])
	}
}

func writeJString(r *Rng, b *bytes.Buffer, s string, esc int) {
	b.WriteByte('"')
	u := func(c rune) {
		if r.P(50) {
			fmt.Fprintf(b, "\\u%04x", c)
		} else {
			fmt.Fprintf(b, "\\u%04X", c)
		}
	}
	for _, c := range s {
		short := map[rune]string{'"': `\"`, '\\': `\\`, '/': `\/`, '\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`}[c]
		must := c < 0x20 || c == '"' || c == '\\'
		switch {
		case !must && !r.P(esc):
			b.WriteRune(c)
		case short != "" && r.P(60):
			b.WriteString(short)
		case c > 0xffff:
			c -= 0x10000
			u(0xd800 + c>>10)
			u(0xdc00 + c&0x3ff)
		default:
			u(c)
		}
	}
	b.WriteByte('"')
}

func (j *J) write(r *Rng, b *bytes.Buffer, space, esc int) {
	switch j.kind {
	case 'n':
		b.WriteString("null")
	case 't':
		b.WriteString("true")
	case 'f':
		b.WriteString("false")
	case '#':
		b.WriteString(j.num)
	case '"':
		writeJString(r, b, j.str, esc)
	case '[':
		b.WriteByte('[')
		ws(r, b, space)
		for i, k := range j.kids {
			if i > 0 {
				b.WriteByte(',')
				ws(r, b, space)
			}
			k.write(r, b, space, esc)
			ws(r, b, space)
		}
		b.WriteByte(']')
	case '{':
		b.WriteByte('{')
		ws(r, b, space)
		for i, k := range j.kids {
			if i > 0 {
				b.WriteByte(',')
				ws(r, b, space)
			}
			writeJString(r, b, j.keys[i], esc)
			ws(r, b, space)
			b.WriteByte(':')
			ws(r, b, space)
			k.write(r, b, space, esc)
			ws(r, b, space)
		}
		b.WriteByte('}')
	}
}

func (j *J) text(r *Rng) []byte {
	var b bytes.Buffer
	space, esc := []int{0, 15, 50}[r.Intn(3)], []int{0, 10, 60}[r.Intn(3)]
	ws(r, &b, space)
	j.write(r, &b, space, esc)
	ws(r, &b, space)
	return b.Bytes()
}

// parseJ reads a valid JSON text with the decoder of the standard library.
func parseJ(buf []byte) (*J, error) {
	d := json.NewDecoder(bytes.NewReader(buf))
	d.UseNumber()
	var rec func() (*J, error)
	rec = func() (*J, error) {
		tok, err := d.Token()
		if err != nil {
			return nil, err
		}
		switch v := tok.(type) {
		case nil:
			return &J{kind: 'n'}, nil
		case bool:
			if v {
				return &J{kind: 't'}, nil
			}
			return &J{kind: 'f'}, nil
		case json.Number:
			return &J{kind: '#', num: string(v)}, nil
		case string:
			return &J{kind: '"', str: v}, nil
		case json.Delim:
			j := &J{kind: byte(v)}
			for d.More() {
				if v == '{' {
					k, err := d.Token()
					if err != nil {
						return nil, err
					}
					j.keys = append(j.keys, k.(string))
				}
				e, err := rec()
				if err != nil {
					return nil, err
				}
				j.kids = append(j.kids, e)
			}
			_, err := d.Token()
			return j, err
		}
		return nil, fmt.Errorf("token %v", tok)
	}
	return rec()
}

func (j *J) fuzzy() bool {
	if j.kind == '#' {
		_, f := numVal(j.num)
		return f
	}
	for _, k := range j.kids {
		if k.fuzzy() {
			return true
		}
	}
	return false
}

func jsonSource(buf []byte, doc Doc) *source {
	return &source{
		format: "json", text: fmt.Sprintf("%q", buf), doc: doc, bytes: buf,
		fresh: func() (parser.Interface, error) {
			p := sjson.NewJsonParser()
			return p, p.Init(buf)
		},
		point: func(p parser.Interface) error { return p.(sjson.JsonParser).Init(buf) },
		parse: func(buf []byte) (parser.Interface, error) {
			p := sjson.NewJsonParser()
			return p, p.Init(buf)
		},
	}
}

func genJSON(r *Rng, depth int) *source {
	j := genJ(r, depth)
	if r.P(70) && j.kind != '{' {
		j = &J{kind: '{', keys: []string{genString(r)}, kids: []*J{j}}
	}
	return jsonSource(j.text(r), Doc(j.nodes()))
}

func mutateBytes(r *Rng, b []byte, alphabet string) []byte {
	o := append([]byte(nil), b...)
	for n := 1 + r.Intn(3); n > 0 && len(o) > 0; n-- {
		i := r.Intn(len(o))
		switch r.Intn(7) {
		case 0:
			o[i] = byte(r.U64())
		case 1:
			o = append(o[:i], o[i+1:]...)
		case 2:
			o = append(o[:i], append([]byte{alphabet[r.Intn(len(alphabet))]}, o[i:]...)...)
		case 3:
			o[i] = alphabet[r.Intn(len(alphabet))]
		case 4:
			o = o[:i]
		case 5:
			k := i + r.Intn(len(o)-i)
			o = append(o[:i:i], o[k:]...)
		case 6:
			k := i + r.Intn(len(o)-i)
			o = append(append(append([]byte(nil), o[:k]...), o[i:k]...), o[k:]...)
		}
	}
	return o
}

const jsonAlphabet = "{}[]\",:\\u0aAeE+-.19tfn \n"
