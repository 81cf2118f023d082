package main

import (
	"math"
	"strconv"
	"strings"
)

// fseg is a part of the text of formatted values: literal text, or the text of one number that is symbolic.
type fseg struct {
	lit  string
	t    *Term
	kind byte // 'i' signed, 'u' unsigned, 'f' float (of the width of t)
	q    *Str // or a symbolic text, quoted
}

// numStr is the default text of a symbolic number.
func numStr(t *Term, kind byte) *Str {
	lo, hi := 1, 20
	if kind == 'f' {
		hi = 24
	}
	return &Str{s: "<num>", opaque: true, atLeast: lo, atMost: hi, segs: []fseg{{t: t, kind: kind}}}
}

func (s *Str) asSegs() ([]fseg, bool) {
	if s.opaque {
		return s.segs, s.segs != nil
	}
	if s.sym {
		return nil, false
	}
	return []fseg{{lit: s.s}}, true
}

// catSegs joins texts of which at least one is opaque.
func catSegs(a, b, r *Str) *Str {
	x, ok := a.asSegs()
	y, ok2 := b.asSegs()
	if ok && ok2 {
		r.segs = append(append([]fseg{}, x...), y...)
		r.atMost = a.maxLen() + b.maxLen()
	}
	return r
}

func (s *Str) maxLen() int {
	if s.opaque {
		return s.atMost
	}
	return s.len()
}

// segTokens splits the text at "[", "]" and " ". Numbers contain none of these, so two texts are equal exactly
// when their separators are the same and so are the words between them. ok is false where a number is not a whole word.
func segTokens(l []fseg) (seps []byte, words []fseg, ok bool) {
	var cur fseg
	for _, g := range l {
		if g.t != nil || g.q != nil {
			if cur.t != nil || cur.q != nil || cur.lit != "" {
				return nil, nil, false
			}
			cur = g
			continue
		}
		for i := 0; i < len(g.lit); i++ {
			if ch := g.lit[i]; ch == '[' || ch == ']' || ch == ' ' {
				seps, words, cur = append(seps, ch), append(words, cur), fseg{}
			} else if cur.t != nil || cur.q != nil {
				return nil, nil, false
			} else if ch == '"' && cur.lit == "" {
				q, err := strconv.QuotedPrefix(g.lit[i:])
				if err != nil {
					return nil, nil, false
				}
				cur.lit = q
				i += len(q) - 1
			} else {
				cur.lit += string(ch)
			}
		}
	}
	return seps, append(words, cur), true
}

// segEq compares two texts at least one of which has symbolic numbers.
func (p *Path) segEq(a, b *Str) (*Term, bool) {
	x, ok := a.asSegs()
	y, ok2 := b.asSegs()
	if !ok || !ok2 {
		return nil, false
	}
	s1, w1, ok := segTokens(x)
	s2, w2, ok2 := segTokens(y)
	if !ok || !ok2 {
		return nil, false
	}
	if string(s1) != string(s2) {
		return tFalse, true
	}
	r := tTrue
	for i := range w1 {
		e, ok := p.wordEq(w1[i], w2[i])
		if !ok {
			return nil, false
		}
		if r = p.ctx().And(r, e); r.isFalse() {
			return r, true
		}
	}
	return r, true
}

func (p *Path) wordEq(a, b fseg) (*Term, bool) {
	c := p.ctx()
	if a.q != nil || b.q != nil {
		x, ok := unquoted(a)
		y, ok2 := unquoted(b)
		if !ok || !ok2 {
			return tFalse, a.t == nil && b.t == nil
		}
		return p.strEq(x, y), true
	}
	if a.t == nil && b.t == nil {
		return mkBool(a.lit == b.lit), true
	}
	if a.t == nil {
		a, b = b, a
	}
	if b.t == nil {
		switch a.kind {
		case 'i':
			v, err := strconv.ParseInt(b.lit, 10, int(a.t.w))
			if err != nil || strconv.FormatInt(v, 10) != b.lit {
				return tFalse, true
			}
			return c.Eq(a.t, mkConst(a.t.w, uint64(v))), true
		case 'u':
			v, err := strconv.ParseUint(b.lit, 10, int(a.t.w))
			if err != nil || strconv.FormatUint(v, 10) != b.lit {
				return tFalse, true
			}
			return c.Eq(a.t, mkConst(a.t.w, v)), true
		}
		v, err := strconv.ParseFloat(b.lit, int(a.t.w))
		if err != nil || fmtFloat(v, int(a.t.w)) != b.lit {
			return tFalse, true
		}
		if math.IsNaN(v) {
			return c.FIsNaN(a.t), true
		}
		bits := math.Float64bits(v)
		if a.t.w == 32 {
			bits = uint64(math.Float32bits(float32(v)))
		}
		return c.Eq(a.t, mkConst(a.t.w, bits)), true
	}
	if a.kind == 'f' || b.kind == 'f' {
		if a.kind != b.kind || a.t.w != b.t.w {
			return nil, false
		}
		return c.Or(c.Eq(a.t, b.t), c.And(c.FIsNaN(a.t), c.FIsNaN(b.t))), true
	}
	ext := func(s fseg) *Term {
		if s.t.w == 64 {
			return s.t
		} else if s.kind == 'i' {
			return c.SExt(s.t, 64)
		}
		return c.ZExt(s.t, 64)
	}
	e := c.Eq(ext(a), ext(b))
	if a.kind != b.kind {
		e = c.And(e, c.Not(c.Bin(OSLT, ext(a), mkConst(64, 0))))
	}
	return e, true
}

func unquoted(s fseg) (*Str, bool) {
	if s.q != nil {
		return s.q, true
	}
	x, err := strconv.Unquote(s.lit)
	if err != nil || strconv.Quote(x) != s.lit {
		return nil, false
	}
	return strC(x), true
}

// fmtFloat is the text fmt gives a float by default.
func fmtFloat(v float64, w int) string {
	s := strconv.FormatFloat(v, 'g', -1, w)
	if e := strings.IndexByte(s, 'e'); e >= 0 { // %v is %g with exponents from 21 on
		if x, _ := strconv.Atoi(s[e+1:]); x >= -4 && x < 21 {
			return strconv.FormatFloat(v, 'f', -1, w)
		}
	}
	return s
}

// segLen is the length of a text with symbolic numbers: any within its limits.
func (p *Path) segLen(s *Str) *Term {
	if s.segs == nil {
		panic(abort{kind: "unsupported", why: "len of opaque string"})
	}
	n := p.fresh("textlen", 64)
	c := p.ctx()
	p.assume(c.And(c.Not(c.Bin(OULT, n, mkConst(64, uint64(s.atLeast)))), c.Not(c.Bin(OULT, mkConst(64, uint64(s.atMost)), n))))
	return n
}

func init() {
	I("slices.overlaps", func(p *Path, fr *frame, a []Value) Value {
		x, _ := a[0].([]Value)
		y, _ := a[1].([]Value)
		return mkBool(overlap(x, y))
	})
}
