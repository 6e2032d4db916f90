package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

func sortStrings(s []string) { sort.Strings(s) }

// variedLit writes a value in any of the forms that the language has for it.
func variedLit(r *Rng, k byte, v interface{}) string {
	switch k {
	case 'b':
		return strconv.FormatBool(v.(bool))
	case 'i':
		i := v.(int64)
		if r.P(30) {
			return strconv.FormatInt(i, 10)
		}
		sign, u := "", uint64(i)
		if i < 0 {
			sign, u = "-", -uint64(i)
		}
		return "int(" + sign + natLit(r, u) + ")"
	case 'u':
		return "uint(" + natLit(r, v.(uint64)) + ")"
	case 'd':
		return "double(" + floatLit(r, v.(float64)) + ")"
	case 's':
		return strLit(r, v.(string))
	case 'y':
		return bytesLit(r, v.([]byte))
	}
	panic("variedLit")
}

func natLit(r *Rng, u uint64) string {
	switch r.Intn(5) {
	case 0:
		return fmt.Sprintf("0x%x", u)
	case 1:
		return fmt.Sprintf("0X%X", u)
	case 2:
		return fmt.Sprintf("0x%s%x", strings.Repeat("0", r.Intn(4)), u)
	case 3:
		return fmt.Sprintf("0%o", u)
	}
	return strconv.FormatUint(u, 10)
}

func floatLit(r *Rng, f float64) string {
	if f == math.Trunc(f) && math.Abs(f) < 1<<62 && r.P(50) {
		sign := ""
		if f < 0 {
			sign = "-"
		}
		return sign + natLit(r, uint64(math.Abs(f)))
	}
	s := ""
	switch r.Intn(4) {
	case 0:
		s = strconv.FormatFloat(f, 'e', -1, 64)
	case 1:
		s = strconv.FormatFloat(f, 'g', -1, 64)
	case 2:
		s = strconv.FormatFloat(f, 'E', 17, 64)
	default:
		s = strconv.FormatFloat(f, 'f', -1, 64)
	}
	if i := strings.Index(s, "e"); i > 0 && strings.IndexByte(s, '.') < 0 && r.P(20) {
		s = s[:i] + "." + s[i:]
	}
	if strings.HasPrefix(s, "0.") && !strings.ContainsAny(s, "eE") && r.P(40) {
		s = s[1:]
	}
	return s
}

// charLit writes a character within quotes q.
func charLit(r *Rng, c rune, q byte, asByte bool) string {
	if asByte {
		if r.P(50) {
			return fmt.Sprintf("\\x%02x", c)
		}
		return fmt.Sprintf("\\%03o", c)
	}
	esc := map[rune]string{'\a': "\\a", '\b': "\\b", '\f': "\\f", '\n': "\\n", '\r': "\\r", '\t': "\\t", '\v': "\\v", '\\': "\\\\"}
	if e, ok := esc[c]; ok && (c == '\\' || r.P(70)) && (c != '\\' || r.P(60)) {
		return e
	}
	if c == rune(q) && r.P(70) {
		return "\\" + string(q)
	}
	must := c < 0x20 || c == rune(q) || c == '\\' || c == 0x7f || c == utf8.RuneError || c == 0xfeff
	switch r.Intn(6) {
	case 0:
		if c < 0x10000 {
			return fmt.Sprintf("\\u%04x", c)
		}
	case 1:
		return fmt.Sprintf("\\U%08X", c)
	case 2:
		if c < 0x80 || q == '\'' && c < 0x100 {
			return fmt.Sprintf("\\x%02X", c)
		}
	case 3:
		if c < 0x80 || q == '\'' && c < 0x100 {
			return fmt.Sprintf("\\%03o", c)
		}
	}
	if must {
		if c < 0x10000 {
			return fmt.Sprintf("\\u%04X", c)
		}
		return fmt.Sprintf("\\U%08x", c)
	}
	return string(c)
}

func strLit(r *Rng, s string) string {
	if r.P(25) && utf8.ValidString(s) && !strings.ContainsAny(s, "`\r\ufeff\x00") {
		return "`" + s + "`"
	}
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); {
		c, n := utf8.DecodeRuneInString(s[i:])
		if c == utf8.RuneError && n == 1 {
			b.WriteString(charLit(r, rune(s[i]), '"', true))
		} else if c >= 0x80 && r.P(10) {
			for _, x := range []byte(s[i : i+n]) {
				b.WriteString(charLit(r, rune(x), '"', true))
			}
		} else {
			b.WriteString(charLit(r, c, '"', false))
		}
		i += n
	}
	b.WriteByte('"')
	return b.String()
}

func bytesLit(r *Rng, y []byte) string {
	ws := func() string {
		if r.P(70) {
			return ""
		}
		return r.Pick(" ", "  ", "\n", "\t", "\r\n")
	}
	var b strings.Builder
	b.WriteString("[]byte{" + ws())
	for i, c := range y {
		if i > 0 {
			b.WriteString(ws() + "," + ws())
		}
		if r.P(45) {
			b.WriteString("'" + charLit(r, rune(c), '\'', false) + "'")
		} else {
			b.WriteString(natLit(r, uint64(c)))
		}
	}
	b.WriteString(ws() + "}")
	return b.String()
}
