package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"strings"

	"github.com/katydid/katydid/parser"
)

func init() {
	register("P22", &check{
		rule: "distinct damaged inputs on which a walk ended with an error or presented at least two labels",
		run:  runP22,
	})
}

const (
	xmlAlphabet   = "<>/!?-[]CDATA&;#x \"'=abn:\n\xff\x00"
	yamlAlphabet  = ":- \n\tab1#'\"[]{}?&*|>\r\xff"
	protoAlphabet = "\x00\x01\x02\x03\x05\x07\x08\x09\x0a\x0b\x0c\x0d\x10\x12\x1a\x20\x7f\x80\xff\xfe"
)

var alphabets = map[string]string{"json": jsonAlphabet, "xml": xmlAlphabet, "yaml": yamlAlphabet, "proto": protoAlphabet}

// readBad reads the current label in every way; it says whether a leaf cannot
// be read in any.
func readBad(p parser.Interface, out *bytes.Buffer) bool {
	v := readVal(p)
	l := p.IsLeaf()
	if out.Len() < 1<<16 {
		fmt.Fprintf(out, " %v(%v)", v, l)
	}
	return l && v.equal(Val{})
}

// drive walks a parser without recursion.  It gives what was presented, the
// number of steps, the number of leaves without any value, and how it ended.
func drive(r *Rng, p parser.Interface, budget, pSkip, pLeave, pRead int) (out string, steps, blanks int, err error) {
	var b bytes.Buffer
	depth := 0
	for {
		if depth > 0 && r.P(pLeave) {
			b.WriteString(" )!")
			p.Up()
			depth--
			continue
		}
		steps++
		if steps > budget {
			return b.String(), steps, blanks, errLimit
		}
		err := p.Next()
		if err == io.EOF {
			if depth == 0 {
				return b.String(), steps, blanks, nil
			}
			if b.Len() < 1<<16 {
				b.WriteString(" )")
			}
			p.Up()
			depth--
			continue
		}
		if err != nil {
			return b.String(), steps, blanks, err
		}
		if r.P(pRead) && readBad(p, &b) {
			blanks++
		}
		if !p.IsLeaf() && !r.P(pSkip) {
			if b.Len() < 1<<16 {
				b.WriteString(" (")
			}
			p.Down()
			depth++
		}
	}
}

// malformed walks damaged bytes in several ways.
func malformed(t *T, s *source, buf []byte) {
	t.Info("%s input %s\n(%q)", s.format, clip(fmt.Sprintf("%x", buf)), clip(string(buf)))
	budget := 40*len(buf) + 200
	var first string
	for k := 0; k < 4; k++ {
		pSkip, pLeave, pRead := 0, 0, 100
		in := append(make([]byte, 0, len(buf)), buf...)
		in = in[:len(buf):len(buf)]
		switch k {
		case 1:
			// the bytes lie in a larger buffer, none of the others may be seen
			in = append(append(append(make([]byte, 0, len(buf)+64), buf...), s.bytes...), bytes.Repeat([]byte("\"}]1:\x01</a>\n"), 8)...)[:len(buf)]
		case 2, 3:
			pSkip, pLeave, pRead = t.Intn(80), t.Intn(30), t.Intn(100)
		}
		p, err := s.parse(in)
		var out string
		var steps int
		if err == nil {
			out, steps, _, err = drive(t.Rng, p, budget, pSkip, pLeave, pRead)
		}
		if err == errLimit {
			t.Fail("%s parser: the walk was still going on after %d steps (input of %d bytes)\ninput %x\n%q\n%s", s.format, steps, len(buf), clip(string(buf)), clip(string(buf)), clip(out))
		}
		if err != nil {
			t.Count("errors_reported", 1)
			out += " error"
		}
		t.Count("walks", 1)
		t.Count("steps", steps)
		switch k {
		case 0:
			first = out
			if err != nil || steps >= 2 {
				t.Nontrivial(s.format + string(buf))
				t.Sample("%s %q: %s", s.format, clip(string(buf)), clip(out))
			}
		case 1:
			if out != first {
				t.Fail("%s parser: what is presented depends on bytes behind the end of the input\ninput %q\nalone:   %s\nin a larger buffer: %s", s.format, buf, first, out)
			}
		}
		if !bytes.Equal(in, buf) {
			t.Count("inputs_changed", 1)
		}
	}
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

// wireEnds gives the offsets at which a top level field ends.
func wireEnds(b []byte) map[int]bool {
	ends := map[int]bool{0: true}
	for o := 0; o < len(b); {
		tag, n := binary.Uvarint(b[o:])
		o += n
		switch tag & 7 {
		case 0:
			_, n := binary.Uvarint(b[o:])
			o += n
		case 1:
			o += 8
		case 5:
			o += 4
		case 2:
			l, n := binary.Uvarint(b[o:])
			o += n + int(l)
		default:
			panic("harness: wire type")
		}
		ends[o] = true
	}
	return ends
}

// truncated walks every (or some) proper prefixes completely, which has to be
// noticed where a prefix ends inside a value.
func truncated(t *T, s *source) {
	end := len(s.bytes)
	if s.format == "json" {
		end = bytes.LastIndexAny(s.bytes, "}]")
	}
	from := 0
	if s.format == "json" {
		from = 1 + bytes.IndexAny(s.bytes, "{[")
	}
	var ends map[int]bool
	if s.format == "proto" {
		ends = wireEnds(s.bytes)
	}
	for cut := from; cut <= end; cut++ {
		if end-from > 200 && !t.P(200*100/(end-from)) || ends[cut] {
			continue
		}
		buf := s.bytes[:cut:cut]
		t.Info("%s input cut after %d bytes: %q", s.format, cut, buf)
		p, err := s.parse(buf)
		out, blanks := "", 0
		if err == nil {
			out, _, blanks, err = drive(t.Rng, p, 40*cut+200, 0, 0, 100)
		}
		nulls := 0
		if s.format == "json" {
			nulls = strings.Count(out, " null(true)")
			blanks -= nulls
		}
		if err == nil && !(s.format == "proto" && blanks > 0) {
			t.Fail("%s parser: input cut after %d of %d bytes is presented without an error\ninput %q (%x)\nof %s\npresented: %s", s.format, cut, len(s.bytes), buf, buf, s.text, out)
		}
		t.Count("prefixes_walked", 1)
		t.Nontrivial(s.format + string(buf))
	}
}

func runP22(c *Ctx) {
	for _, f := range formats {
		f := f
		if f.name == "reflect" {
			continue
		}
		c.Run(f.name+"-damaged", c.N(15000), func(t *T) {
			s := f.gen(t.Rng, 1)[0]
			for k := 0; k < 3; k++ {
				malformed(t, s, mutateBytes(t.Rng, s.bytes, alphabets[f.name]))
			}
		})
		c.Run(f.name+"-large", c.N(100), func(t *T) {
			s := largeSource(t.Rng, f.name, 17000)
			malformed(t, s, mutateBytes(t.Rng, s.bytes, alphabets[f.name]))
			malformed(t, s, s.bytes[:t.Intn(len(s.bytes)+1)])
			malformed(t, s, s.bytes[:max(0, len(s.bytes)-1-t.Intn(3))])
		})
		c.Run(f.name+"-prefixes", c.N(2000), func(t *T) {
			s := f.gen(t.Rng, 1)[0]
			for k := 0; k < 20; k++ {
				malformed(t, s, s.bytes[:t.Intn(len(s.bytes)+1)])
			}
		})
		c.Run(f.name+"-random", c.N(10000), func(t *T) {
			s := f.gen(t.Rng, 1)[0]
			b := make([]byte, t.Intn(40))
			for i := range b {
				if t.P(70) {
					b[i] = alphabets[f.name][t.Intn(len(alphabets[f.name]))]
				} else {
					b[i] = byte(t.U64())
				}
			}
			malformed(t, s, b)
		})
	}
	for _, i := range []int{0, 3} {
		f := formats[i]
		c.Run(f.name+"-large-cut", c.N(100), func(t *T) {
			s := largeSource(t.Rng, f.name, 4200)
			if f.name == "json" && (len(bytes.TrimSpace(s.bytes)) == 0 || !bytes.ContainsAny(bytes.TrimSpace(s.bytes)[:1], "{[")) || len(s.bytes) > 19000 {
				return
			}
			truncated(t, s)
		})
		c.Run(f.name+"-cut", c.N(4000), func(t *T) {
			s := f.gen(t.Rng, 1)[0]
			if f.name == "json" && (len(bytes.TrimSpace(s.bytes)) == 0 || !bytes.ContainsAny(bytes.TrimSpace(s.bytes)[:1], "{[")) {
				return
			}
			truncated(t, s)
		})
	}
	c.Run("deep", c.NT(40, 400), func(t *T) {
		n := 1 + t.Intn(t.c.NT(3000, 10000))
		f := formats[[]int{0, 1, 2}[t.Intn(3)]]
		s := f.gen(t.Rng, 1)[0]
		var b bytes.Buffer
		switch f.name {
		case "json":
			for k := 0; k < n; k++ {
				b.WriteString(t.Pick("[", "[", "{\"a\":", "[1,"))
			}
			if t.P(50) {
				b.WriteString("1")
				b.WriteString(strings.Repeat(t.Pick("]", "}"), n))
			}
		case "xml":
			open := t.Pick("<a>", "<a b='c'>", "<a>x")
			b.WriteString(strings.Repeat(open, n))
			if t.P(50) {
				b.WriteString(strings.Repeat("</a>", n))
			}
		case "yaml":
			if n > 300 {
				n = 1 + n%300
			}
			for k := 0; k < n; k++ {
				b.WriteString(strings.Repeat(" ", k) + t.Pick("a:", "a:", "- a:") + "\n")
			}
		}
		t.Count("deep_inputs", 1)
		t.Info("%s input nested %d deep", f.name, n)
		malformed(t, s, b.Bytes())
	})
	c.Run("wide", c.NT(24, 200), func(t *T) {
		n := 1 + t.Intn(20000)
		f := formats[t.Intn(4)]
		s := f.gen(t.Rng, 1)[0]
		var b bytes.Buffer
		for k := 0; k < n; k++ {
			b.Write([]byte(t.Pick(alphabets[f.name][:1], alphabets[f.name][2:3])))
			if t.P(20) {
				b.WriteByte(alphabets[f.name][t.Intn(len(alphabets[f.name]))])
			}
		}
		if f.name == "xml" && t.P(50) {
			b.Reset()
			b.WriteString("<a>" + strings.Repeat(t.Pick("x", "<!---->", "<?x?>", "<![CDATA[]]>", "<b/>"), n))
		}
		t.Count("wide_inputs", 1)
		malformed(t, s, b.Bytes())
	})
}
