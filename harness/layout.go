package main

import (
	"fmt"
	"strconv"
	"strings"
)

// layout renders a grammar model as text, token by token, with spaces and
// comments wherever the language allows them.
type layout struct {
	r        *Rng
	b        strings.Builder
	lit      func(k byte, v interface{}) string
	space    int // percentage of positions with space
	comment  int // percentage of spaces that hold comments
	extra    int // percentage of lists with an extra separator
	comments []string
	stream   strings.Builder // tokens and comments without the layout
	last     byte
	names    bool // quote identifiers at random
	tokens   int
}

// canonLit is the literal form that the library prints.
func canonLit(k byte, v interface{}) string {
	switch k {
	case 'b':
		return strconv.FormatBool(v.(bool))
	case 'i':
		return strconv.FormatInt(v.(int64), 10)
	case 'u':
		return fmt.Sprintf("uint(%d)", v.(uint64))
	case 'd':
		return "double(" + strconv.FormatFloat(v.(float64), 'f', -1, 64) + ")"
	case 's':
		return strconv.Quote(v.(string))
	case 'y':
		return fmt.Sprintf("%#v", v.([]byte))
	}
	panic("canonLit")
}

var commentChars = []string{"a", "b ", "\"", "'", "*", "**", "/", "é", "世", "\t", "#", "@x", "|", "`", "{", "\\", "=", "  ", "0", "\r"}

func (l *layout) spaceRun() {
	r := l.r
	n := 1
	for r.P(35) && n < 5 {
		n++
	}
	for i := 0; i < n; i++ {
		if !r.P(l.comment) {
			ws := ""
			for k := 1 + r.some(3); k > 0; k-- {
				ws += r.Pick(" ", " ", "\n", "\t", "\r\n", "\n\n")
			}
			l.b.WriteString(ws)
			continue
		}
		body := ""
		for k := r.some(5); k > 0; k-- {
			body += commentChars[r.Intn(len(commentChars))]
		}
		if r.P(50) {
			c := "//" + strings.Replace(body, "\n", "", -1) + "\n"
			l.b.WriteString(c)
			l.comments = append(l.comments, strings.TrimSpace(c))
			l.stream.WriteString("\x00" + strings.TrimSpace(c) + "\x00")
			continue
		}
		if r.P(30) {
			body += "\n" + body + "\n"
		}
		for strings.Contains(body, "*/") {
			body = strings.Replace(body, "*/", "", -1)
		}
		c := "/*" + body + "*/"
		l.b.WriteString(c)
		l.comments = append(l.comments, c)
		l.stream.WriteString("\x00" + c + "\x00")
	}
}

// fuses returns whether two tokens without space between them would be read as
// other tokens.
func fuses(last byte, next string) bool {
	switch next[0] {
	case '=':
		return strings.IndexByte("=!<>~*^$:", last) >= 0
	case ':':
		return last == ':'
	case 'e':
		return last == '<'
	case '*':
		return last == '/'
	}
	return false
}

// tok writes a token; glued tokens take no space before them.
func (l *layout) tok(s string, glued bool) {
	before := l.b.Len()
	if !glued && l.r != nil && l.r.P(l.space) {
		l.spaceRun()
	}
	if l.b.Len() == before && !glued && l.last != 0 && fuses(l.last, s) {
		l.b.WriteString(" ")
	}
	l.b.WriteString(s)
	l.stream.WriteString(s)
	l.last = s[len(s)-1]
	l.tokens++
}

func (l *layout) name(n *N) {
	switch n.Op {
	case "any":
		l.tok("_", false)
	case "lit":
		if n.Kind == 's' && isID(n.C.(string)) && !(l.names && l.r.P(30)) {
			l.tok(n.C.(string), false)
		} else {
			l.tok(l.lit(n.Kind, n.C), false)
		}
	case "except":
		l.tok("!", false)
		l.tok("(", false)
		l.name(n.L)
		l.tok(")", false)
	case "choice":
		l.tok("(", false)
		l.name(n.L)
		for n.R.Op == "choice" && n.R.C == "tail" {
			n = n.R
			l.tok("|", false)
			l.name(n.L)
		}
		l.tok("|", false)
		l.name(n.R)
		l.tok(")", false)
	}
}

func (l *layout) expr(e *E) {
	switch e.Op {
	case "const":
		l.tok(l.lit(e.Kind, e.C), false)
	case "var":
		l.tok(varName[e.Kind], false)
	case "short":
		l.tok(e.C.(string), false)
		l.expr(e.Args[0])
	default:
		open, cl := "(", ")"
		if e.Op == "list" {
			l.tok(listName[e.Kind], false)
			open, cl = "{", "}"
		} else {
			l.tok(e.Op, false)
		}
		l.tok(open, false)
		for i, a := range e.Args {
			if i > 0 {
				l.tok(",", false)
			}
			l.expr(a)
		}
		l.tok(cl, false)
	}
}

func (l *layout) pat(p *P) {
	switch p.Op {
	case "empty":
		l.tok("<empty>", false)
	case "any":
		l.tok("*", false)
	case "node":
		l.name(p.Name)
		c := p.Kids[0]
		switch c.Op {
		case "leaf", "contains", "concat", "interleave":
			if p.Ref == "nocolon" {
				break
			}
			l.tok(":", false)
		default:
			l.tok(":", false)
		}
		l.pat(c)
	case "leaf":
		if p.E.Op != "short" || p.Ref == "arrow" {
			l.tok("->", false)
		}
		l.expr(p.E)
	case "concat", "or", "and", "interleave":
		open, sep, cl := "[", ",", "]"
		switch p.Op {
		case "or":
			open, sep, cl = "(", "|", ")"
		case "and":
			open, sep, cl = "(", "&", ")"
		case "interleave":
			open, sep, cl = "{", ";", "}"
		}
		l.tok(open, false)
		for i, k := range p.Kids {
			if i > 0 {
				l.tok(sep, false)
			}
			l.pat(k)
		}
		if (p.Op == "concat" || p.Op == "interleave") && l.r != nil && l.r.P(l.extra) {
			l.tok(sep, false)
		}
		l.tok(cl, false)
	case "star", "opt":
		l.tok("(", false)
		l.pat(p.Kids[0])
		l.tok(")", false)
		l.tok(map[string]string{"star": "*", "opt": "?"}[p.Op], false)
	case "not":
		l.tok("!", false)
		l.tok("(", false)
		l.pat(p.Kids[0])
		l.tok(")", false)
	case "contains":
		l.tok(".", false)
		l.pat(p.Kids[0])
	case "ref":
		l.tok("@", false)
		l.tok(p.Ref, true)
	default:
		panic("layout.pat " + p.Op)
	}
}

func (l *layout) grammar(g *G) string {
	first := true
	if !g.HashTop {
		l.pat(g.Decls["main"])
		first = false
	}
	for _, name := range g.Order {
		if name == "main" && !g.HashTop {
			continue
		}
		_ = first
		l.tok("#", false)
		l.tok(name, false)
		l.tok("=", false)
		l.pat(g.Decls[name])
	}
	if l.r != nil && l.r.P(l.space) {
		l.spaceRun()
	}
	return l.b.String()
}

// streamOf strips the layout from a grammar text with canonical literals: what
// remains are its tokens and its comments, in order.
func streamOf(s string) (stream string, comments []string) {
	var b strings.Builder
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '"' || c == '\'':
			j := i + 1
			for j < len(s) && s[j] != c {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			b.WriteString(s[i:min(j+1, len(s))])
			i = j + 1
		case c == '`':
			j := strings.IndexByte(s[i+1:], '`') + i + 1
			b.WriteString(s[i : j+1])
			i = j + 1
		case c == '/' && i+1 < len(s) && s[i+1] == '/':
			j := strings.IndexByte(s[i:], '\n')
			if j < 0 {
				j = len(s) - i
			}
			cm := strings.TrimSpace(s[i : i+j])
			comments = append(comments, cm)
			b.WriteString("\x00" + cm + "\x00")
			i += j
		case c == '/' && i+1 < len(s) && s[i+1] == '*':
			j := strings.Index(s[i+2:], "*/")
			if j < 0 {
				j = len(s) - i - 4
			}
			cm := s[i : i+2+j+2]
			comments = append(comments, cm)
			b.WriteString("\x00" + cm + "\x00")
			i += 2 + j + 2
		default:
			b.WriteByte(c)
			i++
		}
	}
	return b.String(), comments
}

// ------------------------------------------------- syntactic models

// shorten rewrites leaf expressions to their shorthand at random, so that the
// model is what the text says.
func shorten(r *Rng, g *G) {
	g.walk(func(p *P) {
		switch p.Op {
		case "leaf":
			e := p.E
			if sym, ok := builtinSym[e.Op]; ok && r.P(60) {
				if _, can := e.short(nil); can {
					x := e.Args[len(e.Args)-1]
					if e.Op == "regex" || e.Op == "type" {
						x = e.Args[0]
					}
					p.E = &E{Op: "short", C: sym, Args: []*E{x}}
				}
			}
			if p.E.Op == "short" && r.P(20) {
				p.Ref = "arrow"
			}
		case "node":
			if r.P(40) {
				p.Ref = "nocolon"
			}
		}
	})
}

// synExpr makes any expression that the syntax allows, typed or not.
func synExpr(r *Rng, depth int) *E {
	if depth <= 0 || r.P(25) {
		if r.P(30) {
			return eVar("biudsy"[r.Intn(6)])
		}
		k := "biudsy"[r.Intn(6)]
		return eConst(k, wideConst(r, k))
	}
	n := r.Intn(4)
	var as []*E
	for i := 0; i < n; i++ {
		as = append(as, synExpr(r, depth-1))
	}
	switch r.Intn(3) {
	case 0:
		return eList("BIUDSY"[r.Intn(6)], as...)
	case 1:
		syms := []string{"==", "!=", "<", ">", "<=", ">=", "~=", "*=", "^=", "$=", "::"}
		return &E{Op: "short", C: syms[r.Intn(len(syms))], Args: []*E{synExpr(r, depth-1)}}
	}
	return eFn(0, r.Pick("f", "eq", "Foo_9", "_x", "ints", "double_", "truex", "e"), as...)
}

// genSyn makes a grammar model for the syntax checks: shorthands, expressions
// of any shape, wide constants, name choices with several alternatives and
// nested sequences.
func genSyn(r *Rng) *G {
	g, _ := genGrammar(r, genStyle(r), gramStyle{total: r.P(50)}, 6+r.Intn(24), 1)
	g.walk(func(p *P) {
		if p.Op == "leaf" {
			if r.P(50) {
				p.E = synExpr(r, 1+r.Intn(3))
			} else {
				p.E = p.E.clone()
				widen(r, p.E)
			}
		}
		if p.Op == "node" && r.P(50) {
			p.Name = synName(r, 2)
		}
	})
	shorten(r, g)
	return g
}

func synName(r *Rng, depth int) *N {
	if depth > 0 {
		switch r.Intn(4) {
		case 0:
			return nExcept(synName(r, depth-1))
		case 1:
			n := nChoice(synName(r, depth-1), synName(r, depth-1))
			last := n
			for r.P(40) {
				last.R = &N{Op: "choice", C: "tail", L: last.R, R: synName(r, depth-1)}
				last = last.R
			}
			return n
		}
	}
	if r.P(10) {
		return nAny()
	}
	k := "ssssiudby"[r.Intn(9)]
	if k == 's' && r.P(30) {
		return nStr(r.Pick("_", "true", "false", "main", "a1", "A_b", "9a", "", "é", "a.b", "int", "double"))
	}
	return &N{Op: "lit", Kind: k, C: wideConst(r, k)}
}

// bigSyn makes parts of a syntax model large: lists with many members, deep
// nesting, long names, literals and argument lists, and many declarations; the
// lists have at most list members.
func bigSyn(r *Rng, g *G, max, list int) {
	simple := func() *P {
		switch r.Intn(4) {
		case 0:
			return pEmpty()
		case 1:
			return pLeaf(eFn('b', "f", eConst('i', int64(r.Intn(1000)))))
		case 2:
			return pRef("main")
		}
		return pNode(nStr(r.Pick("a", "b", "_x", "9", "é")), pAny())
	}
	var at []*P
	g.walk(func(p *P) { at = append(at, p) })
	for k := 1 + r.Intn(2); k > 0; k-- {
		p := at[r.Intn(len(at))]
		n := r.large(max)
		nest := min(n, list, 600)
		id := strings.Repeat(r.Pick("a", "B_", "x9"), n/2+1)
		switch r.Intn(9) {
		case 0:
			*p = P{Op: r.Pick("concat", "or", "and", "interleave")}
			for i := 0; i < min(n, list); i++ {
				p.Kids = append(p.Kids, simple())
			}
		case 1:
			x := simple()
			for i := nest; i > 0; i-- {
				switch r.Intn(5) {
				case 0:
					x = pOp("not", x)
				case 1:
					x = pOp(r.Pick("star", "opt"), x)
				case 2:
					x = pOp(r.Pick("concat", "or", "and", "interleave"), x, simple())
				case 3:
					x = pOp(r.Pick("concat", "or", "and", "interleave"), simple(), x)
				case 4:
					x = pNode(nStr("a"), x)
				}
			}
			*p = *x
		case 2:
			*p = *pNode(nStr(id), pAny())
		case 3:
			m := nStr("z")
			top := nChoice(nStr("y"), m)
			for i, last := 0, top; i < min(n, list); i++ {
				last.R = &N{Op: "choice", C: "tail", L: last.R, R: nStr(r.Pick("a", "b c", "_"))}
				last = last.R
			}
			if r.P(40) {
				top = nStr("z")
				for i := nest; i > 0; i-- {
					if r.P(50) {
						top = nExcept(top)
					} else {
						top = nChoice(top, nAny())
					}
				}
			}
			*p = *pNode(top, pAny())
		case 4:
			s := longString(r, n, longChars)
			*p = *pLeaf(eFn('b', "eq", eVar('s'), eConst('s', s)))
			if r.P(40) {
				*p = *pNode(nStr(s), pEmpty())
			}
		case 5:
			*p = *pLeaf(eFn('b', "eq", eVar('y'), eConst('y', []byte(longString(r, n, longChars)))))
		case 6:
			e := eFn('b', r.Pick("f", id))
			if r.P(40) {
				e = eList('I')
			}
			for i := 0; i < min(n, list); i++ {
				e.Args = append(e.Args, eConst('i', int64(i)))
			}
			*p = *pLeaf(e)
		case 7:
			e := eVar('b')
			for i := nest; i > 0; i-- {
				if r.P(50) {
					e = eFn('b', r.Pick("not", "f"), e)
				} else {
					e = eFn('b', "or", eConst('b', true), e)
				}
			}
			*p = *pLeaf(e)
		case 8:
			for i := 0; i < min(n, list); i++ {
				g.add(fmt.Sprintf("d%d", i), simple())
			}
			g.add(id, simple())
			*p = *pRef(id)
		}
	}
}

// synSome is a syntax model that is large now and then.
func synSome(r *Rng, max, list int) *G {
	g := genSyn(r)
	if r.P(2) {
		bigSyn(r, g, max, list)
	}
	return g
}
