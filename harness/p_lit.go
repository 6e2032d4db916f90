package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/interp"
	rparser "github.com/katydid/katydid/relapse/parser"
)

func init() {
	register("P10", &check{
		rule: "a case is one literal; non-trivial when it is not the shortest decimal or quoted form of a small value, distinct by its text",
		assume: []string{
			"literals are those of the lexer definition; the oracle is the value the harness wrote the literal for, or exact rational arithmetic for decimal fractions",
			"the sign of a floating point zero is not judged",
		},
		run: runP10,
	})
	register("P09", &check{
		rule: "a case is one text given to the grammar parser; non-trivial when it holds at least three tokens and was not accepted unchanged from a generator, distinct by its text",
		assume: []string{
			"grammars with immediate recursion are parsed and printed but not prepared, which the library documents as unsupported",
			"a case that takes longer than 150 seconds counts as not terminating",
			"the stack is limited to 256 MB",
		},
		run: runP09,
	})
}

func sameConst(k byte, a, b interface{}) bool {
	switch k {
	case 'y':
		return bytes.Equal(a.([]byte), b.([]byte))
	}
	return a == b
}

func leafOf(k byte, v interface{}) Val {
	switch k {
	case 'b':
		return vB(v.(bool))
	case 'i':
		return vI(v.(int64))
	case 'u':
		return vU(v.(uint64))
	case 'd':
		return vD(v.(float64))
	case 's':
		return vS(v.(string))
	}
	return vY(v.([]byte))
}

// otherThan gives a value close to v.
func otherThan(r *Rng, k byte, v interface{}) interface{} {
	switch k {
	case 'b':
		return !v.(bool)
	case 'i':
		return v.(int64) + int64(1-2*r.Intn(2))
	case 'u':
		return v.(uint64) + uint64(1-2*r.Intn(2))
	case 'd':
		if v.(float64) == 0 {
			return 1.0
		}
		return math.Nextafter(v.(float64), 0)
	case 's':
		s := v.(string)
		if s != "" && r.P(50) {
			return s[:len(s)-1]
		}
		return s + r.Pick("a", "\x00", "\\", "\"", "`")
	}
	y := v.([]byte)
	if len(y) > 0 && r.P(70) {
		z := append([]byte{}, y...)
		z[r.Intn(len(z))]++
		return z
	}
	return append(append([]byte{}, y...), 0)
}

func checkLit(t *T, k byte, lit string, want interface{}) {
	t.Info("literal %s", lit)
	check := func(how string, text string, get func(*ast.Grammar) *E) {
		g, err := rparser.ParseGrammar(text)
		if err != nil {
			t.Fail("the literal %s (%v) is refused %s: %v", lit, want, how, err)
		}
		e := get(g)
		if e.Kind != k || e.Op != "const" || !sameConst(k, e.C, want) {
			t.Fail("the literal %s %s denotes %#v (%c) instead of %#v (%c)", lit, how, e.C, e.Kind, want, k)
		}
	}
	check("in a comparison", "== "+lit, func(g *ast.Grammar) *E {
		return fromTerminal(g.TopPattern.LeafNode.Expr.BuiltIn.Expr.Terminal)
	})
	check("in a function", "->eq("+varName[k]+","+lit+")", func(g *ast.Grammar) *E {
		return fromTerminal(g.TopPattern.LeafNode.Expr.Function.Params[1].Terminal)
	})
	check("as a name", lit+":*", func(g *ast.Grammar) *E {
		n := g.TopPattern.TreeNode.Name.Name
		return fromTerminal(&ast.Terminal{DoubleValue: n.DoubleValue, IntValue: n.IntValue, UintValue: n.UintValue, BoolValue: n.BoolValue, StringValue: n.StringValue, BytesValue: n.BytesValue})
	})
	if lit2 := lit; true {
		check("in a list", "->contains("+varName[k]+","+listName[upper(k)]+"{"+lit2+"})", func(g *ast.Grammar) *E {
			return fromTerminal(g.TopPattern.LeafNode.Expr.Function.Params[1].List.Elems[0].Terminal)
		})
	}
	// and through validation
	same, other := leafOf(k, want), leafOf(k, otherThan(t.Rng, k, want))
	for _, form := range []string{"A == " + lit, "A:->not(ne(" + varName[k] + "," + lit + "))"} {
		g := mustParse(t, form)
		m, err := relapse.Prepare(g)
		if err != nil {
			t.Fail("%s: %v", form, err)
		}
		for i, v := range []Val{same, other} {
			got, err := relapse.Validate(m, newTreeParser(Doc{field("A", leaf(v))}))
			if err != nil || got != (i == 0) {
				t.Fail("%s on %v gives %v, %v", form, v, got, err)
			}
		}
		got, err := interp.Interpret(g, newTreeParser(Doc{field("A", leaf(same))}))
		if err != nil || !got {
			t.Fail("%s on %v is interpreted as %v, %v", form, same, got, err)
		}
	}
	g := mustParse(t, lit+":*")
	m, err := relapse.Prepare(g)
	if err != nil {
		t.Fail("%s: %v", lit, err)
	}
	for i, v := range []Val{same, other} {
		got, err := relapse.Validate(m, newTreeParser(Doc{{V: v}}))
		if err != nil || got != (i == 0) {
			t.Fail("the name %s on the label %v gives %v, %v", lit, v, got, err)
		}
	}
	t.Nontrivial(lit)
	t.Sample("%s", lit)
}

var litStr = []string{"", "\n", "\"", "'", "`", "\\", "\\n", "a\tb", "\x00", "\x7f", "\x80", "\xff\xfe", "é", "世界", "😀", "\u2028", "\ufffd", "\ufeff", "a,b", "}", "{", "int(1)", "_", "true", "//", "/*", "\r", "\r\n", "\a\b\f\v", "\xed\xa0\x80", "ı"}

func litString(r *Rng) string {
	if r.P(40) {
		return litStr[r.Intn(len(litStr))]
	}
	s := ""
	for n := r.Intn(6); n > 0; n-- {
		switch r.Intn(5) {
		case 0:
			s += litStr[r.Intn(len(litStr))]
		case 1:
			s += string([]byte{byte(r.U64())})
		case 2:
			s += string(rune(r.Intn(0x110000)))
		default:
			s += string(rune(r.Intn(256)))
		}
	}
	return s
}

func runP10(c *Ctx) {
	kinds := "iudsyb"
	for _, k := range []byte(kinds) {
		k := k
		n := 25000
		if k == 'b' {
			n = 20
		}
		c.Run("value-"+string(k), c.N(n), func(t *T) {
			var v interface{}
			switch {
			case k == 's':
				v = litString(t.Rng)
			case k == 'y' && t.P(80):
				y := make([]byte, t.Intn(6))
				for i := range y {
					y[i] = byte(t.U64())
					if t.P(40) {
						y[i] = ",'\\\"}{ \n\t0x"[t.Intn(11)]
					}
				}
				v = y
			case t.P(30):
				v = genConst(t.Rng, k).C
			default:
				v = wideConst(t.Rng, k)
			}
			checkLit(t, k, variedLit(t.Rng, k, v), v)
		})
	}
	c.Run("large", c.N(600), func(t *T) {
		n := t.large(20000)
		switch t.Intn(5) {
		case 0, 1:
			s := longString(t.Rng, n, longChars) + litString(t.Rng)
			checkLit(t, 's', variedLit(t.Rng, 's', s), s)
		case 2:
			y := []byte(longString(t.Rng, min(n, 5000), longChars))
			checkLit(t, 'y', variedLit(t.Rng, 'y', y), y)
		case 3:
			i := t.U64() >> uint(t.Intn(64))
			zeros := strings.Repeat("0", n)
			checkLit(t, 'u', "uint(0x"+zeros+fmt.Sprintf("%x)", i), i)
			i >>= 1
			checkLit(t, 'i', "int(-0"+zeros+fmt.Sprintf("%o)", i), -int64(i))
		case 4:
			f := float64(t.Intn(1<<30)) / (1 << 20)
			checkLit(t, 'd', "double("+strconv.FormatFloat(f, 'f', 20, 64)+strings.Repeat("0", n)+")", f)
		}
	})
	c.Run("bytes-each", 256*8, func(t *T) {
		// Every byte in every form, in company.
		b := byte(t.idx / 8)
		lits := []string{fmt.Sprint(b), fmt.Sprintf("0x%x", b), fmt.Sprintf("0X%02X", b), fmt.Sprintf("0%o", b), fmt.Sprintf("'\\x%02x'", b), fmt.Sprintf("'\\%03o'", b), fmt.Sprintf("'\\u%04x'", b), "'" + charLit(t.Rng, rune(b), '\'', false) + "'"}
		l := lits[t.idx%8]
		switch t.Intn(3) {
		case 0:
			checkLit(t, 'y', "[]byte{"+l+"}", []byte{b})
		case 1:
			checkLit(t, 'y', "[]byte{"+l+", 1}", []byte{b, 1})
		case 2:
			checkLit(t, 'y', "[]byte{',',"+l+"}", []byte{',', b})
		}
	})
	c.Run("decimal", c.N(25000), func(t *T) {
		// Decimal fractions of any length are rounded to the nearest value.
		digits := func(n int) string {
			s := ""
			for ; n > 0; n-- {
				s += string(rune('0' + t.Intn(10)))
			}
			return s
		}
		s := digits(1 + t.Intn(20))
		switch t.Intn(4) {
		case 0:
			s += "." + digits(1+t.Intn(25))
		case 1:
			s += "." + digits(1+t.Intn(5)) + t.Pick("e", "E") + t.Pick("", "+", "-") + fmt.Sprint(t.Intn(280))
		case 2:
			s += t.Pick("e", "E") + t.Pick("", "+", "-") + fmt.Sprint(t.Intn(280))
		case 3:
			s = "." + s
		}
		if t.P(40) {
			s = "-" + s
		}
		rat, ok := new(big.Rat).SetString(s)
		if !ok {
			panic("harness: " + s)
		}
		want, _ := rat.Float64()
		if strings.TrimLeft(s, "-0123456789") == "" {
			return // an integer literal: leading zeros mean octal
		}
		checkLit(t, 'd', "double("+s+")", want)
	})
	refuse := func(t *T, lit string) {
		t.Info("literal %s", lit)
		for _, form := range []string{"== " + lit, lit + ":*", "->contains($int,[]int{1," + lit + "})", "#main=(A:*|B:{*;->eq(" + lit + ",$int)})"} {
			g, err := rparser.ParseGrammar(form)
			if err == nil {
				t.Fail("the literal %s does not fit its type but is accepted in %s as %s", lit, form, g.String())
			}
		}
		t.Nontrivial(lit)
	}
	c.Run("refused", c.N(25000), func(t *T) {
		big1 := new(big.Int).Lsh(big.NewInt(1), uint(t.Intn(200)))
		big1.Add(big1, big.NewInt(int64(t.Intn(3))))
		nat := func(n *big.Int) string {
			switch t.Intn(3) {
			case 0:
				return "0x" + n.Text(16)
			case 1:
				return "0" + n.Text(8)
			}
			return n.String()
		}
		max := func(e uint) *big.Int { return new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), e), big1) }
		switch t.Intn(8) {
		case 0:
			refuse(t, max(63).String())
		case 1:
			refuse(t, "int("+nat(max(63))+")")
		case 2:
			refuse(t, "int(-"+nat(max(63))+"0)")
		case 3:
			refuse(t, "uint("+nat(max(64))+")")
		case 4:
			e := 310 + t.Intn(2000)
			refuse(t, "double("+t.Pick("", "-")+t.Pick("1e", "1.5E+", "9.99e")+fmt.Sprint(e)+")")
		case 5:
			refuse(t, "[]byte{"+t.Pick("", "1,")+t.Pick("256", "0x100", "0400", "1000", "0777", "99999999999999999999", "'\\u0100'", "'Ā'", "'世'", "'\\U0001F600'", "0x10000000000000000")+t.Pick("", ",2", " , 'a'")+"}")
		case 6:
			refuse(t, "\""+t.Pick("", "a")+t.Pick("\\ud800", "\\uDFFF", "\\U00110000", "\\UFFFFFFFF", "\\400", "\\777", "\\'", "\n")+t.Pick("", "b")+"\"")
		case 7:
			refuse(t, "double("+t.Pick("", "-")+"1"+strings.Repeat("0", 309+t.Intn(50))+")")
		}
	})
}

var soupToks = []string{"(", ")", "[", "]", "{", "}", ",", ";", "|", "&", "*", "?", "!", ".", ":", "::", "=", "==", "!=", "<", ">", "<=", ">=", "~=", "*=", "^=", "$=", "->", "@", "#", "_", "<empty>", "a", "main", "true", "false", "0", "-1", "42", "int(5)", "uint(5)", "double(1.5)", "double(.5e3)", "\"s\"", "`r`", "[]byte{1,2}", "[]byte{'a'}", "$int", "$uint", "$double", "$bool", "$string", "$[]byte", "[]int", "[]bool", "[]uint", "[]double", "[]string", "[][]byte", " ", "\n", "// c\n", "/* c */", "eq", "and", "not", "or", "regex", "contains", "length", "elem", "range", "type", "#main=", "@main", "@a", "#a=", "99999999999999999999", "int(0x)", "0x1", "'a'", "\\", "\"", "`", "/*", "//", "é", "\x00", "\xff", "$", "-", "[]", "[]byte", "[]byte{", "double(", "1e5", "\"\\d\"", "~=\"(\"", "~=\"[\""}

func mutateText(r *Rng, s string) string {
	b := []byte(s)
	for n := 1 + r.Intn(4); n > 0; n-- {
		if len(b) == 0 {
			b = []byte(soupToks[r.Intn(len(soupToks))])
			continue
		}
		i := r.Intn(len(b))
		j := i + 1 + r.Intn(min(12, len(b)-i))
		switch r.Intn(8) {
		case 0:
			b = append(b[:i:i], b[j:]...)
		case 1:
			b[i] = byte(r.U64())
		case 2:
			b[i] ^= 1 << uint(r.Intn(8))
		case 3:
			b = b[:i]
		case 4:
			b = append(b[:j:j], append(append([]byte{}, b[i:j]...), b[j:]...)...)
		case 5, 6:
			b = append(b[:i:i], append([]byte(soupToks[r.Intn(len(soupToks))]), b[i:]...)...)
		case 7:
			k := r.Intn(len(b))
			b[i], b[k] = b[k], b[i]
		}
	}
	return string(b)
}

// tryText gives a text to everything that accepts a text.
func tryText(t *T, text string, deep bool) {
	t.Info("text:\n%q", text)
	a, err := rparser.ParseGrammar(text)
	if e, err2 := rparser.ParseExpr(text); err2 == nil {
		if err != nil {
			t.Fail("%q is an expression but not a grammar: %v", text, err)
		}
		_ = e.String()
	}
	if err != nil {
		t.Count("refused", 1)
		if a != nil {
			t.Fail("an error and a grammar for %q", text)
		}
		return
	}
	t.Count("parsed", 1)
	g := fromAST(a)
	if a.TopPattern != nil {
		// it comes before a declaration of main
		g.Decls["main"] = fromPattern(a.TopPattern)
	}
	s := a.String()
	if _, err := rparser.ParseGrammar(s); err != nil {
		t.Fail("%q is accepted but its printed form %q is not: %v", text, s, err)
	}
	_ = a.GoString()
	undefined := false
	g.walk(func(p *P) {
		if p.Op == "ref" && g.Decls[p.Ref] == nil {
			undefined = true
		}
	})
	_, hasMain := g.Decls["main"]
	if undefined || !hasMain {
		t.Count("unprepared_refused", 1)
		if _, err := relapse.Prepare(a); err == nil {
			t.Fail("prepared without a main or with an undefined reference: %q", text)
		}
		if _, err := newAuto(a); err == nil {
			t.Fail("compiled without a main or with an undefined reference: %q", text)
		}
		if _, err := newMemRecord(a); err == nil {
			t.Fail("prepared for records without a main or with an undefined reference: %q", text)
		}
		doc := genDoc(t.Rng, docStyle{arrays: true, maxKids: 3, maxDep: 2})
		for _, e := range []engine{{"interp", interpV(a)}, {"intern", internV(a, false)}} {
			if got := runParser(e.v, newTreeParser(doc)); got.err == nil {
				t.Fail("%s gives %v without a main or with an undefined reference: %q", e.name, got, text)
			}
		}
		return
	}
	if g.immediateRecursion() {
		t.Count("immediate_recursion", 1)
		return
	}
	if m, err := relapse.Prepare(a); err == nil {
		t.Count("prepared", 1)
		doc := genDoc(t.Rng, docStyle{arrays: true, dups: true, weird: true, maxKids: 3, maxDep: 2, mixed: true})
		relapse.Validate(m, newTreeParser(doc))
		if !deep {
			interp.Interpret(a, newTreeParser(doc))
			newMemRecord(a)
		}
	} else {
		t.Count("prepare_refused", 1)
		if !deep {
			doc := genDoc(t.Rng, docStyle{arrays: true, dups: true, weird: true, maxKids: 3, maxDep: 2, mixed: true})
			interp.Interpret(a, newTreeParser(doc)) // may not come to what is wrong
			if got := runParser(internV(a, false), newTreeParser(doc)); got.err == nil {
				t.Fail("intern gives %v with a grammar that is refused: %q", got, text)
			}
		}
	}
	if !deep {
		newAuto(a)
		interp.NewSimplifier(a).Grammar()
	}
	a.Format()
	_ = a.String()
}

func runP09(c *Ctx) {
	c.Run("soup", c.N(60000), func(t *T) {
		var b strings.Builder
		n := 1 + t.Intn(20)
		for i := 0; i < n; i++ {
			b.WriteString(soupToks[t.Intn(len(soupToks))])
			if t.P(20) {
				b.WriteString(" ")
			}
		}
		tryText(t, b.String(), false)
		if n >= 3 {
			t.Nontrivial(b.String())
		}
	})
	c.Run("mutated", c.N(60000), func(t *T) {
		g := synSome(t.Rng, 3000, 1000)
		text := mutateText(t.Rng, randomLayout(t.Rng, t.P(50)).grammar(g))
		tryText(t, text, false)
		t.Nontrivial(text)
		t.Sample("%q", text)
	})
	c.Run("typed", c.N(20000), func(t *T) {
		// Well formed texts with arbitrary expressions and undefined or
		// duplicate declarations.
		g := synSome(t.Rng, 300, 300)
		text := g.text(t.Rng)
		if t.P(20) {
			text += "\n#" + t.Pick("r0", "main", "x") + "=" + genSyn(t.Rng).Decls["main"].text(t.Rng)
		}
		tryText(t, text, false)
		t.Nontrivial(text)
	})
	c.Run("bytes", c.N(20000), func(t *T) {
		b := make([]byte, t.Intn(40))
		for i := range b {
			b[i] = byte(t.U64())
			if t.P(50) {
				const some = " \n\"'`/*(){}[]<>=!|&:;,.@#$^~_-0aex\\"
				b[i] = some[t.Intn(len(some))]
			}
		}
		tryText(t, string(b), false)
		if len(b) > 2 {
			t.Nontrivial(b)
		}
	})
	c.Run("every-cut", c.N(400), func(t *T) {
		// Every prefix and every suffix of a text.
		g := genSyn(t.Rng)
		text := randomLayout(t.Rng, t.P(50)).grammar(g)
		if len(text) > 300 {
			text = text[:300]
		}
		for i := 0; i <= len(text); i++ {
			tryText(t, text[:i], true)
			tryText(t, text[i:], true)
		}
		t.Nontrivial(text)
	})
	c.Run("reused-parser", c.N(3000), func(t *T) {
		p := rparser.NewParser()
		for i := 0; i < 6; i++ {
			text := randomLayout(t.Rng, true).grammar(genSyn(t.Rng))
			if t.P(50) {
				text = mutateText(t.Rng, text)
			}
			t.Info("text %d:\n%q", i, text)
			a, err := p.ParseGrammar(text)
			b, err2 := rparser.ParseGrammar(text)
			if (err == nil) != (err2 == nil) || err == nil && !a.Equal(b) {
				t.Fail("a parser that was used before gives another result for %q: %v and %v", text, err, err2)
			}
			t.Nontrivial(text)
		}
	})
	c.Run("deep", c.NT(96, 600), func(t *T) {
		n := 20 + t.Intn(c.NT(400, 1500))
		rep := func(open, mid, cl string) string {
			return strings.Repeat(open, n) + mid + strings.Repeat(cl, n)
		}
		forms := []string{
			rep("!(", "*", ")"), rep("(", "*", ")?"), rep("(", "A:*", ")*"), strings.Repeat(".", min(n, 100)) + "A:*", rep("A:", "*", ""), rep("A:[", "*", ",*]"), rep("[*,", "*", "]"), rep("{A:*;", "*", "}"), rep("(B:*|", "*", ")"), rep("(A:*&", "*", ")"),
			"->" + rep("not(", "eq($int,1)", ")"), "->" + rep("and(true,", "eq($int,1)", ")"), "->" + rep("or(eq($string,\"a\"),", "eq($int,1)", ")"), rep("!(", "A", ")") + ":*", rep("(A|", "B", ")") + ":*",
			"(" + strings.Repeat("A:*|", n) + "B:*)", "[" + strings.Repeat("A:*,", n) + "B:*]", "A:->contains($int,[]int{" + strings.Repeat("1,", n) + "2})", "A==\"" + strings.Repeat("x", n*10) + "\"", "(" + strings.Repeat("A:*&", n) + "B:*)",
			rep("(", "*", ""), rep("[", "", ""), rep("->", "", ""), rep("#a=", "*", ""), rep("/*", "", ""), rep("== ", "1", ""), rep("<", "1", ""), strings.Repeat("9", n), "double(" + strings.Repeat("9", n) + ")", strings.Repeat("\n#a=*", n),
			"{" + strings.Repeat("A:*;", min(n, 12)) + "B:*}", "{" + strings.Repeat("A:*;", min(n, 12)) + "*}",
		}
		text := forms[t.idx%len(forms)]
		t.Info("text of length %d: %s", len(text), firstN(text, 200))
		tryText(t, text, true)
		t.Count("nesting", n)
		t.Nontrivial(text)
	})
}
