package main

import (
	"strconv"
	"strings"

	"github.com/katydid/katydid/parser"
	"github.com/katydid/katydid/parser/yaml"
)

// Y is a value in the supported subset of YAML.
type Y struct {
	kind byte // 0 nothing, s scalar, { mapping, [ sequence
	text string
	val  Val
	keys []string
	kids []*Y
}

func (y *Y) nodes() []*Node {
	switch y.kind {
	case 0:
		return []*Node{leaf(Val{})}
	case 's':
		return []*Node{leaf(y.val)}
	case '[':
		ns := []*Node{}
		for i, k := range y.kids {
			ns = append(ns, index(i, k.nodes()...))
		}
		return ns
	}
	ns := []*Node{}
	for i, k := range y.kids {
		ns = append(ns, field(y.keys[i], k.nodes()...))
	}
	return ns
}

const yWordFirst = "ABCDEabcdeghklmopqrstuvwxyzé€😀_/(.$^+="
const yWordMore = yWordFirst + "0123456789-'\"\\*&!|>{}[],?%@`#~;<)"

func yWord(r *Rng) string {
	first, more := []rune(yWordFirst), []rune(yWordMore)
	for {
		s := string(first[r.Intn(len(first))])
		n := r.some(10)
		if n > 32 {
			s += longString(r, n, more)
		} else {
			for ; n > 0; n-- {
				s += string(more[r.Intn(len(more))])
			}
		}
		// what reads as a number or a boolean is made elsewhere
		if _, err := strconv.ParseFloat(s, 64); err == nil || s == "true" || s == "false" {
			continue
		}
		return s
	}
}

func yScalar(r *Rng, inSeq bool) *Y {
	y := &Y{kind: 's'}
	switch r.Intn(11) {
	case 10:
		y.text = r.Pick("", "+", "-") + r.Pick("00", "01", "0127897897", "012.5", "00e3")
	case 0:
		b := r.P(50)
		y.text, y.val = strconv.FormatBool(b), vB(b)
	case 1, 2:
		i := int64(r.U64()) >> uint(r.Intn(64))
		y.text = strconv.FormatInt(i, 10)
		y.val = vI(i)
		if i >= 0 {
			y.val.HasU, y.val.U = true, uint64(i)
		}
		y.val.HasD, y.val.D = true, float64(i)
	case 3:
		u := r.U64() | 1<<63
		y.text = strconv.FormatUint(u, 10)
		y.val = vU(u)
		y.val.HasD, y.val.D = true, float64(u)
	case 4:
		k := r.Intn(2000) - 1000
		y.text = strconv.Itoa(k) + "." + strconv.Itoa(1+r.Intn(9)) + r.Pick("", "0", "5", "75")
		d, _ := strconv.ParseFloat(y.text, 64)
		y.val = vD(d)
	case 5:
		y.text = strconv.Itoa(1+r.Intn(9)) + "." + strconv.Itoa(r.Intn(9)) + "5" + r.Pick("e", "E") + r.Pick("-", "+-")[:1] + strconv.Itoa(3+r.Intn(20))
		d, _ := strconv.ParseFloat(y.text, 64)
		y.val = vD(d)
		if d == float64(int64(d)) {
			y.val.HasI, y.val.I = true, int64(d)
		}
	case 6:
		y.text = yWord(r) + " " + yWord(r) + " - " + yWord(r)
		if r.P(30) && !inSeq {
			y.text = "http://" + y.text
		}
	case 7:
		if inSeq {
			y.text = yWord(r)
		} else {
			y.text = r.Pick("http://a/b?c=d", "12:30:45", "a:b", "C:\\x", "-a", "--", "x::y")
		}
	default:
		y.text = yWord(r)
	}
	y.val.HasS, y.val.S = true, y.text
	return y
}

func yKey(r *Rng) string {
	switch r.Intn(4) {
	case 0:
		return yWord(r)
	case 1:
		return r.Pick("Name", "a b", "1", "-1", "true", "A.B", "x-y")
	}
	return r.Pick("A", "B", "C", "D", "E")
}

func genY(r *Rng, depth int, inSeq bool) *Y {
	k := r.Intn(10)
	if depth <= 0 {
		k = r.Intn(5)
	}
	switch {
	case k == 0:
		return &Y{}
	case k < 5:
		return yScalar(r, inSeq)
	case k < 7 && !inSeq:
		y := &Y{kind: '['}
		n := r.somePos(4)
		r.inside(n, func() {
			for k := n; k > 0; k-- {
				y.kids = append(y.kids, genY(r, below(depth, n), true))
			}
		})
		return y
	}
	y := &Y{kind: '{'}
	n := 1
	if !inSeq {
		n = r.somePos(4)
	}
	r.inside(n, func() {
		for k := n; k > 0; k-- {
			y.keys = append(y.keys, yKey(r))
			y.kids = append(y.kids, genY(r, below(depth, n), false))
		}
	})
	return y
}

type yWriter struct {
	*Rng
	b    strings.Builder
	unit []string
	eol  string
}

func (w *yWriter) line() {
	if w.P(10) {
		w.b.WriteString(w.Pick(" ", "  ", ""))
	}
	w.b.WriteString(w.eol)
	for w.P(7) {
		w.b.WriteString(w.Pick("", " ", "    ", "\t") + w.eol)
	}
}

func (w *yWriter) entries(y *Y, ind string, first string) {
	for i, k := range y.kids {
		if i == 0 && first != "" {
			w.b.WriteString(first)
		} else {
			w.b.WriteString(ind)
		}
		if y.kind == '[' {
			w.b.WriteString("-")
			switch k.kind {
			case 0:
				w.line()
			case 's':
				w.b.WriteString(" " + k.text)
				w.line()
			default:
				// the entry continues at the column after the dash
				w.b.WriteString(" ")
				w.entries(k, ind+"  ", "\x00")
			}
			continue
		}
		w.b.WriteString(y.keys[i])
		switch k.kind {
		case 0:
			if w.P(30) && first == "" {
				w.line()
				break
			}
			w.b.WriteString(w.Pick("", "", "", " ") + ":")
			w.line()
		case 's':
			w.b.WriteString(":" + w.Pick(" ", " ", " ", "  ") + k.text)
			w.line()
		default:
			w.b.WriteString(":")
			w.line()
			w.entries(k, ind+w.unit[w.Intn(len(w.unit))], "")
		}
	}
}

func (y *Y) write(r *Rng) []byte {
	w := &yWriter{Rng: r, eol: "\n"}
	if r.P(20) {
		w.eol = "\r\n"
	}
	switch r.Intn(3) {
	case 0:
		w.unit = []string{"\t"}
	case 1:
		w.unit = []string{"  "}
	case 2:
		w.unit = []string{" ", "  ", "    "}
	}
	ind := ""
	if r.P(20) {
		ind = w.unit[0]
	}
	if r.P(20) {
		w.b.WriteString("\n")
	}
	w.entries(y, ind, "")
	s := strings.ReplaceAll(w.b.String(), "\x00", "")
	if r.P(30) {
		s = strings.TrimRight(s, "\r\n\t ")
	}
	return []byte(s)
}

func genYAML(r *Rng, depth int) *source {
	for {
		y := genY(r, depth, false)
		if y.kind == '{' || y.kind == '[' && r.P(50) {
			return yamlSource(y.write(r), Doc(y.nodes()))
		}
	}
}

func yamlSource(buf []byte, d Doc) *source {
	return &source{format: "yaml", text: string(buf), doc: d, bytes: buf,
		fresh: func() (parser.Interface, error) {
			p := yaml.NewYamlParser()
			return p, p.Init(buf)
		},
		point: func(p parser.Interface) error { return p.(yaml.YamlParser).Init(buf) },
		parse: func(buf []byte) (parser.Interface, error) {
			p := yaml.NewYamlParser()
			return p, p.Init(buf)
		},
	}
}
