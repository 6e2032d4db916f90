package main

import (
	"encoding/binary"
	"errors"

	sproto "github.com/katydid/katydid/parser/proto"
)

func init() {
	register("P25", &check{
		rule: "distinct messages with at least three fields on the wire for which the check was compared with the scan",
		run:  runP25,
	})
}

// needsMerge scans the wire: a field that is not repeated occurs twice, or the
// elements of a repeated field are not in one run, which is either one packed
// chunk or elements that follow each other directly.
func needsMerge(t *PT, b []byte) bool {
	known := map[uint64]*PF{}
	for _, f := range t.all() {
		known[uint64(f.num)] = f
	}
	seen := map[uint64]bool{}
	last := uint64(0) // number of a run that can go on
	for o := 0; o < len(b); {
		tag, n := binary.Uvarint(b[o:])
		o += n
		from, num := o, tag>>3
		switch tag & 7 {
		case 0:
			_, n := binary.Uvarint(b[o:])
			o += n
			from = o
		case 1:
			o += 8
		case 5:
			o += 4
		case 2:
			l, n := binary.Uvarint(b[o:])
			from = o + n
			o = from + int(l)
		}
		f := known[num]
		if f == nil {
			last = 0
			continue
		}
		packed := tag&7 == 2 && f.wire() != 2
		if seen[num] && (last != num || packed) {
			return true
		}
		seen[num] = true
		last = 0
		if f.rep && !packed {
			last = num
		}
		if f.msg != nil && needsMerge(f.msg, b[from:o]) {
			return true
		}
	}
	return false
}

// scatter repeats and moves fields of a message.
func scatter(r *Rng, m *PM, pct int) {
	for _, v := range m.vs {
		for _, k := range v.msgs {
			scatter(r, k, pct)
		}
	}
	if r.P(pct) {
		scatterHere(r, m)
	}
}

func scatterHere(r *Rng, m *PM) {
	if len(m.vs) == 0 {
		return
	}
	v := m.vs[r.Intn(len(m.vs))]
	c := &PV{f: v.f, wraps: v.wraps}
	if r.P(30) && v.f.canPack() {
		c.wraps = !c.wraps
	}
	if n := len(v.vals); n > 0 {
		c.vals = append(c.vals, v.vals[r.Intn(n)])
	}
	if n := len(v.msgs); n > 0 {
		c.msgs = append(c.msgs, v.msgs[r.Intn(n)])
	}
	i := r.Intn(len(m.vs) + 1)
	m.vs = append(m.vs[:i:i], append([]*PV{c}, m.vs[i:]...)...)
}

// failingProto is a protobuf parser whose at-th call of Next fails, or which
// gives no label there.
type failingProto struct {
	sproto.ProtoParser
	at, calls int
	label     bool
	hit       bool
}

var errFailingProto = errors.New("the connection is gone")

func (f *failingProto) Next() error {
	f.calls++
	if f.calls == f.at && !f.label {
		f.hit = true
		return errFailingProto
	}
	return f.ProtoParser.Next()
}

func (f *failingProto) String() (string, error) {
	if f.calls == f.at && f.label {
		f.hit = true
		return "", errFailingProto
	}
	return f.ProtoParser.String()
}

func (f *failingProto) Int() (int64, error) {
	if f.calls == f.at && f.label {
		return 0, errFailingProto
	}
	return f.ProtoParser.Int()
}

func runP25(c *Ctx) {
	// a message that cannot be read to its end is not called free of merging
	c.Run("faults", c.N(8000), func(t *T) {
		f := genPFamily(t.Rng)
		m := genPM(t.Rng, f.root, t.Intn(4))
		if t.P(30) {
			scatter(t.Rng, m, 10)
		}
		buf := wireStyle{Rng: t.Rng, pad: t.Intn(2) * 10, unknown: t.Intn(2) * 15}.msg(m)
		want := needsMerge(f.root, buf)
		s := f.sourceOf(m, buf)
		calls := &failingProto{}
		for at := 0; at < 60; at++ {
			for _, label := range []bool{false, true} {
				p, err := s.fresh()
				if err != nil {
					t.Fail("parser refuses the message: %v\n%s", err, s.text)
				}
				fp := &failingProto{ProtoParser: p.(sproto.ProtoParser), at: at, label: label}
				t.Info("the call %d of Next fails (only the label: %v)\n%s", at, label, s.text)
				got := sproto.NoLatentAppendingOrMerging(fp)
				if fp.hit && got == nil {
					t.Fail("the check gives %v", got)
				}
				if !fp.hit && (got != nil) != want {
					t.Fail("the check gives %v, the message needs merging or appending: %v\n%s", got, want, s.text)
				}
				if fp.hit {
					t.Count("faults_reported", 1)
				}
				calls = fp
			}
			if calls.calls < at {
				break
			}
		}
		// cut off
		for k := 0; k < 3; k++ {
			cut := buf[:t.Intn(len(buf)+1)]
			t.Info("cut after %d of %d bytes\n%s", len(cut), len(buf), s.text)
			p, err := s.parse(cut)
			if err != nil {
				continue
			}
			n := 100000
			_, rerr := readDoc(p, &n)
			p, _ = s.parse(cut)
			got := sproto.NoLatentAppendingOrMerging(p.(sproto.ProtoParser))
			if rerr != nil && got == nil {
				t.Fail("the check finds nothing in a message whose walk gives %v", rerr)
			}
			if rerr == nil && !want && got != nil {
				t.Fail("the check gives %v for the start of a message that needs no merging", got)
			}
			t.Count("cut_messages", 1)
		}
		if len(m.vs) > 1 {
			t.Nontrivial("faults", s.text)
		}
	})
	check := func(t *T, f *pFamily, m *PM) {
		buf := wireStyle{Rng: t.Rng, pad: t.Intn(2) * 10, unknown: t.Intn(2) * 15}.msg(m)
		s := f.sourceOf(m, buf)
		t.Info("%s\ntypes: %s", s.text, describeAll(f.ts))
		p, err := s.fresh()
		if err != nil {
			t.Fail("parser refuses the message: %v\n%s", err, s.text)
		}
		got := sproto.NoLatentAppendingOrMerging(p.(sproto.ProtoParser))
		want := needsMerge(f.root, buf)
		if (got != nil) != want {
			t.Fail("the check gives %v, the message needs merging or appending: %v\n%s\ntypes: %s", got, want, s.text, describeAll(f.ts))
		}
		if want {
			t.Count("latent_messages", 1)
		} else {
			t.Count("plain_messages", 1)
		}
		if len(m.vs) > 2 {
			t.Nontrivial(s.text)
			t.Sample("%v: %s", want, s.text)
		}
	}
	c.Run("random", c.N(60000), func(t *T) {
		f := genPFamily(t.Rng)
		m := genPM(t.Rng, f.root, t.Intn(4))
		scatter(t.Rng, m, []int{0, 3, 10, 30}[t.Intn(4)])
		check(t, f, m)
	})
	c.Run("large", c.N(200), func(t *T) {
		var f *pFamily
		var m *PM
		if t.P(30) {
			f, m = deepProto(t.Rng, t.large(700))
		} else {
			t.grow(1+t.Intn(3), 20000)
			f = genPFamily(t.Rng)
			m = genPM(t.Rng, f.root, t.Intn(4))
			t.big = 0
		}
		if t.P(50) {
			at := m
			for k := t.Intn(800); k > 0; k-- {
				var below []*PM
				for _, v := range at.vs {
					below = append(below, v.msgs...)
				}
				if len(below) == 0 {
					break
				}
				at = below[t.Intn(len(below))]
			}
			scatterHere(t.Rng, at)
		}
		check(t, f, m)
	})
}
