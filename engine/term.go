package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Op enumerates the term constructors of the bit-vector/boolean language
// the engine hands to the solver.  Floats are carried as their IEEE bits.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OULT
	OULE
	OSLT
	OSLE
	OExtract // val = lo ; width = w
	OZExt
	OSExt
	OConcat
	OFLt
	OFLe
	OFEq
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFToS // float -> signed int of width w (RTZ)
	OFToU // float -> unsigned
	OSToF // signed int -> float of width w
	OUToF // unsigned int -> float
	OFToF // float32<->float64
	OFIsNaN
)

// Term is a hash-consed term.  W==0 means Bool.
type Term struct {
	op      Op
	w       uint8
	id      uint32
	val     uint64
	a, b, c *Term
	name    string
	vars    *varset // variables (lazily computed)
	evGen   uint32
	evVal   uint64
	defd    uint32 // solver generation in which the term was defined
	maybeBW uint8
}

type tkey struct {
	op         Op
	w          uint8
	val        uint64
	a, b, c    *Term
	ca, cb, cc uint64
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

var (
	tTrue  = &Term{op: OConst, w: 0, val: 1}
	tFalse = &Term{op: OConst, w: 0, val: 0}
)

const smallN = 1024

var smallConsts [65][]*Term

func init() {
	for _, w := range []int{1, 8, 16, 32, 64} {
		n := smallN
		if w < 10 {
			n = 1 << w
		}
		smallConsts[w] = make([]*Term, n)
		for i := range smallConsts[w] {
			smallConsts[w][i] = &Term{op: OConst, w: uint8(w), val: uint64(i)}
		}
	}
}

func mkConst(w uint8, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return tTrue
		}
		return tFalse
	}
	v &= mask(w)
	if int(w) < len(smallConsts) {
		if sc := smallConsts[w]; v < uint64(len(sc)) {
			return sc[v]
		}
	}
	return &Term{op: OConst, w: w, val: v}
}
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func mkInt(v int64) *Term { return mkConst(64, uint64(v)) }

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }
func (t *Term) sval() int64   { return sx(t.val, t.w) }

func sx(v uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func same(a, b *Term) bool {
	if a == b {
		return true
	}
	return a.op == OConst && b.op == OConst && a.w == b.w && a.val == b.val
}

// Ctx is a per-worker term table.
type Ctx struct {
	tab    map[tkey]*Term
	nextID uint32
	evGen  uint32
	dirty  bool
	vars   map[string]*Term
}

func newCtx() *Ctx {
	return &Ctx{tab: map[tkey]*Term{}, nextID: 1, vars: map[string]*Term{}}
}

func (c *Ctx) size() int { return len(c.tab) }

func (c *Ctx) mk(op Op, w uint8, val uint64, a, b, d *Term) *Term {
	k := tkey{op: op, w: w, val: val, a: a, b: b, c: d}
	if a != nil && a.op == OConst {
		k.a, k.ca = constTag(a.w), a.val
	}
	if b != nil && b.op == OConst {
		k.b, k.cb = constTag(b.w), b.val
	}
	if d != nil && d.op == OConst {
		k.c, k.cc = constTag(d.w), d.val
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, val: val, a: a, b: b, c: d, id: c.nextID}
	c.nextID++
	c.tab[k] = t
	return t
}

var constTags [65]*Term

func init() {
	for i := range constTags {
		constTags[i] = &Term{op: OConst, w: uint8(i)}
	}
}
func constTag(w uint8) *Term { return constTags[w] }

func (c *Ctx) Var(name string, w uint8) *Term {
	if t, ok := c.vars[name]; ok && t.w == w {
		return t
	}
	t := &Term{op: OVar, w: w, name: name, id: c.nextID}
	c.nextID++
	c.vars[name] = t
	return t
}

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return mkBool(a.val == 0)
	case ONot:
		return a.a
	}
	return c.mk(ONot, 0, 0, a, nil, nil)
}
func (c *Ctx) And(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 0 {
			return tFalse
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return tFalse
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tFalse
	}
	return c.mk(OAnd, 0, 0, a, b, nil)
}
func (c *Ctx) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.val != 0 {
			return tTrue
		}
		return b
	}
	if b.isConst() {
		if b.val != 0 {
			return tTrue
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tTrue
	}
	return c.mk(OOr, 0, 0, a, b, nil)
}
func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g.isConst() {
		if g.val != 0 {
			return a
		}
		return b
	}
	if same(a, b) {
		return a
	}
	if a.w != b.w {
		panic("ite width")
	}
	if a.w == 0 {
		if a.isConst() {
			if a.val == 1 {
				return c.Or(g, b)
			}
			return c.And(c.Not(g), b)
		}
		if b.isConst() {
			if b.val == 1 {
				return c.Or(c.Not(g), a)
			}
			return c.And(g, a)
		}
	}
	return c.mk(OIte, a.w, 0, g, a, b)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if same(a, b) {
		return tTrue
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return tFalse
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.w == 0 {
			if b.val == 1 {
				return a
			}
			return c.Not(a)
		}
		switch a.op {
		case OMul:
			if x, k := exactMul(a); x != nil {
				if int64(b.val)%k != 0 {
					return tFalse
				}
				return c.Eq(x, mkInt(int64(b.val)/k))
			}
		case OZExt:
			if b.val>>a.a.w != 0 {
				return tFalse
			}
			return c.Eq(a.a, mkConst(a.a.w, b.val))
		case OSExt:
			lo := b.val & mask(a.a.w)
			if uint64(sx(lo, a.a.w))&mask(a.w) != b.val {
				return tFalse
			}
			return c.Eq(a.a, mkConst(a.a.w, lo))
		case OIte:
			if a.b.isConst() && a.c.isConst() {
				return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
			}
		case OAdd:
			if a.b.isConst() {
				return c.Eq(a.a, mkConst(a.w, b.val-a.b.val))
			}
		case OBXor:
			if a.b.isConst() {
				return c.Eq(a.a, mkConst(a.w, b.val^a.b.val))
			}
		}
	} else if (a.op == OZExt || a.op == OSExt) && a.op == b.op && a.a.w == b.a.w {
		return c.Eq(a.a, b.a)
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, 0, 0, a, b, nil)
}

func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("bin width op=%d %d %d", op, a.w, b.w))
	}
	w := a.w
	if op == OSDiv && w == 64 && b.isConst() && a.op == OMul {
		if x, k := exactMul(a); x != nil && k == int64(b.val) {
			return x
		}
	}
	switch op {
	case OULT, OULE, OSLT, OSLE:
		if a.isConst() && b.isConst() {
			return mkConst(0, evalBin(op, w, a.val, b.val))
		}
		if same(a, b) {
			return mkBool(op == OULE || op == OSLE)
		}
		// narrowing through zero extension
		if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w && a.a.w < w {
			if op == OSLT {
				op = OULT
			} else if op == OSLE {
				op = OULE
			}
			return c.Bin(op, a.a, b.a)
		}
		if a.op == OZExt && b.isConst() && a.a.w < w {
			k := b.val
			if op == OSLT || op == OSLE {
				if sx(k, w) < 0 {
					return tFalse
				}
				if op == OSLT {
					op = OULT
				} else {
					op = OULE
				}
			}
			if k > mask(a.a.w) {
				return tTrue
			}
			return c.Bin(op, a.a, mkConst(a.a.w, k))
		}
		if b.op == OZExt && a.isConst() && b.a.w < w {
			k := a.val
			if op == OSLT || op == OSLE {
				if sx(k, w) < 0 {
					return tTrue
				}
				if op == OSLT {
					op = OULT
				} else {
					op = OULE
				}
			}
			if k > mask(b.a.w) {
				return tFalse
			}
			return c.Bin(op, mkConst(b.a.w, k), b.a)
		}
		if w == 64 && (op == OSLT || op == OSLE) && (a.op == OMul || b.op == OMul) {
			if r := c.rangeCmp(op, a, b); r != nil {
				return r
			}
		}
		if op == OULT && b.isConst() && b.val == 0 {
			return tFalse
		}
		if op == OULE && a.isConst() && a.val == 0 {
			return tTrue
		}
		if op == OULE && b.isConst() && b.val == mask(w) {
			return tTrue
		}
		return c.mk(op, 0, 0, a, b, nil)
	}
	if a.isConst() && b.isConst() {
		if (op == OUDiv || op == OSDiv || op == OURem || op == OSRem) && b.val == 0 {
			panic("const div by zero")
		}
		return mkConst(w, evalBin(op, w, a.val, b.val))
	}
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return c.Bin(OAdd, a.a, mkConst(w, a.b.val+b.val))
			}
		}
	case OSub:
		if same(a, b) {
			return mkConst(w, 0)
		}
		if b.isConst() {
			return c.Bin(OAdd, a, mkConst(w, -b.val))
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
			if b.val&(b.val-1) == 0 {
				return c.Bin(OShl, a, mkConst(w, uint64(bits.TrailingZeros64(b.val))))
			}
		}
	case OUDiv:
		if b.isConst() && b.val&(b.val-1) == 0 {
			return c.Bin(OLShr, a, mkConst(w, uint64(bits.TrailingZeros64(b.val))))
		}
	case OURem:
		if b.isConst() && b.val&(b.val-1) == 0 {
			return c.Bin(OBAnd, a, mkConst(w, b.val-1))
		}
	case OBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			if a.op == OZExt && b.val&mask(a.a.w) == mask(a.a.w) {
				return a
			}
			if a.op == OZExt {
				return c.ZExt(c.Bin(OBAnd, a.a, mkConst(a.a.w, b.val)), w)
			}
		}
		if a == b {
			return a
		}
	case OBOr:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if b.val == mask(w) {
				return b
			}
		}
		if a == b {
			return a
		}
	case OBXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == 0 {
			return a
		}
		if a == b {
			return mkConst(w, 0)
		}
	case OShl, OLShr, OAShr:
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if b.val >= uint64(w) && op != OAShr {
				return mkConst(w, 0)
			}
			if op == OLShr && a.op == OZExt && b.val >= uint64(a.a.w) {
				return mkConst(w, 0)
			}
			if op == OAShr && a.op == OZExt && a.a.w < w {
				return c.Bin(OLShr, a, b)
			}
		}
		if a.isConst() && a.val == 0 {
			return a
		}
	}
	return c.mk(op, w, 0, a, b, nil)
}

func (c *Ctx) BNot(a *Term) *Term {
	if a.isConst() {
		return mkConst(a.w, ^a.val)
	}
	if a.op == OBNot {
		return a.a
	}
	return c.mk(OBNot, a.w, 0, a, nil, nil)
}
func (c *Ctx) Neg(a *Term) *Term {
	if a.isConst() {
		return mkConst(a.w, -a.val)
	}
	return c.mk(ONeg, a.w, 0, a, nil, nil)
}
func (c *Ctx) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return mkConst(w, a.val)
	}
	if a.op == OZExt {
		a = a.a
	}
	return c.mk(OZExt, w, 0, a, nil, nil)
}
func (c *Ctx) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return mkConst(w, uint64(a.sval()))
	}
	if a.op == OZExt && a.a.w < a.w {
		return c.ZExt(a.a, w)
	}
	if a.op == OSExt {
		a = a.a
	}
	return c.mk(OSExt, w, 0, a, nil, nil)
}
func (c *Ctx) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && a.w == w {
		return a
	}
	if a.isConst() {
		return mkConst(w, a.val>>lo)
	}
	switch a.op {
	case OZExt, OSExt:
		if lo+w <= a.a.w {
			return c.Extract(a.a, lo, w)
		}
		if a.op == OZExt && lo >= a.a.w {
			return mkConst(w, 0)
		}
		if lo == 0 && w > a.a.w {
			if a.op == OZExt {
				return c.ZExt(a.a, w)
			}
			return c.SExt(a.a, w)
		}
	case OExtract:
		return c.Extract(a.a, lo+uint8(a.val), w)
	case OBOr, OBAnd, OBXor:
		return c.Bin(a.op, c.Extract(a.a, lo, w), c.Extract(a.b, lo, w))
	case OAdd, OSub, OMul:
		if lo == 0 {
			return c.Bin(a.op, c.Extract(a.a, 0, w), c.Extract(a.b, 0, w))
		}
	case OShl:
		if a.b.isConst() {
			k := uint8(a.b.val)
			if lo >= k {
				return c.Extract(a.a, lo-k, w)
			}
			if lo+w <= k {
				return mkConst(w, 0)
			}
		}
	case OLShr:
		if a.b.isConst() && uint64(lo)+a.b.val+uint64(w) <= uint64(a.w) {
			return c.Extract(a.a, lo+uint8(a.b.val), w)
		}
	case OIte:
		if a.b.isConst() || a.c.isConst() {
			return c.Ite(a.a, c.Extract(a.b, lo, w), c.Extract(a.c, lo, w))
		}
	}
	return c.mk(OExtract, w, uint64(lo), a, nil, nil)
}

func (c *Ctx) FCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return mkConst(0, evalF(op, a.w, a.val, b.val))
	}
	return c.mk(op, 0, 0, a, b, nil)
}
func (c *Ctx) FBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return mkConst(a.w, evalF(op, a.w, a.val, b.val))
	}
	return c.mk(op, a.w, 0, a, b, nil)
}
func (c *Ctx) FNeg(a *Term) *Term {
	// IEEE negation flips the sign bit.
	return c.Bin(OBXor, a, mkConst(a.w, uint64(1)<<(a.w-1)))
}
func (c *Ctx) FIsNaN(a *Term) *Term {
	if a.isConst() {
		return mkBool(math.IsNaN(fbits(a.w, a.val)))
	}
	return c.mk(OFIsNaN, 0, 0, a, nil, nil)
}
func (c *Ctx) Conv(op Op, a *Term, w uint8) *Term {
	if a.isConst() {
		return mkConst(w, evalConv(op, a.w, w, a.val))
	}
	if op == OFToF && a.w == w {
		return a
	}
	return c.mk(op, w, 0, a, nil, nil)
}

func fbits(w uint8, v uint64) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}
func tobits(w uint8, f float64) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}
func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}
func evalF(op Op, w uint8, a, b uint64) uint64 {
	x, y := fbits(w, a), fbits(w, b)
	switch op {
	case OFLt:
		return b2u(x < y)
	case OFLe:
		return b2u(x <= y)
	case OFEq:
		return b2u(x == y)
	}
	if w == 32 {
		p, q := float32(x), float32(y)
		var r float32
		switch op {
		case OFAdd:
			r = p + q
		case OFSub:
			r = p - q
		case OFMul:
			r = p * q
		case OFDiv:
			r = p / q
		}
		return uint64(math.Float32bits(r))
	}
	var r float64
	switch op {
	case OFAdd:
		r = x + y
	case OFSub:
		r = x - y
	case OFMul:
		r = x * y
	case OFDiv:
		r = x / y
	}
	return math.Float64bits(r)
}
func evalConv(op Op, wa, w uint8, v uint64) uint64 {
	switch op {
	case OFToS:
		return uint64(int64(fbits(wa, v))) & mask(w)
	case OFToU:
		return uint64(fbits(wa, v)) & mask(w)
	case OSToF:
		return tobits2(w, sx(v, wa))
	case OUToF:
		if w == 32 {
			return uint64(math.Float32bits(float32(v)))
		}
		return math.Float64bits(float64(v))
	case OFToF:
		if wa == w {
			return v
		}
		return tobits(w, fbits(wa, v))
	}
	panic("conv")
}
func tobits2(w uint8, v int64) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(v)))
	}
	return math.Float64bits(float64(v))
}

func evalBin(op Op, w uint8, a, b uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sx(a, w)>>b) & m
	case OULT:
		return b2u(a < b)
	case OULE:
		return b2u(a <= b)
	case OSLT:
		return b2u(sx(a, w) < sx(b, w))
	case OSLE:
		return b2u(sx(a, w) <= sx(b, w))
	}
	panic("evalBin")
}

// Model assigns values to variables (by term).
type Model map[*Term]uint64

func (c *Ctx) newEval() { c.evGen++; c.dirty = false }

// eval evaluates t under m; call newEval first when m changed.
func (c *Ctx) eval(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.evGen == c.evGen {
		return t.evVal
	}
	var r uint64
	switch t.op {
	case OVar:
		r = m[t] & mask64(t.w)
	case ONot:
		r = 1 - c.eval(t.a, m)
	case OAnd:
		r = c.eval(t.a, m)
		if r != 0 {
			r = c.eval(t.b, m)
		}
	case OOr:
		r = c.eval(t.a, m)
		if r == 0 {
			r = c.eval(t.b, m)
		}
	case OEq:
		r = b2u(c.eval(t.a, m) == c.eval(t.b, m))
	case OIte:
		if c.eval(t.a, m) != 0 {
			r = c.eval(t.b, m)
		} else {
			r = c.eval(t.c, m)
		}
	case OBNot:
		r = ^c.eval(t.a, m) & mask(t.w)
	case ONeg:
		r = -c.eval(t.a, m) & mask(t.w)
	case OExtract:
		r = (c.eval(t.a, m) >> t.val) & mask(t.w)
	case OZExt:
		r = c.eval(t.a, m)
	case OSExt:
		r = uint64(sx(c.eval(t.a, m), t.a.w)) & mask(t.w)
	case OConcat:
		r = (c.eval(t.a, m)<<t.b.w | c.eval(t.b, m)) & mask(t.w)
	case OFLt, OFLe, OFEq, OFAdd, OFSub, OFMul, OFDiv:
		r = evalF(t.op, t.a.w, c.eval(t.a, m), c.eval(t.b, m))
	case OFIsNaN:
		r = b2u(math.IsNaN(fbits(t.a.w, c.eval(t.a, m))))
	case OFToS, OFToU, OSToF, OUToF, OFToF:
		r = evalConv(t.op, t.a.w, t.w, c.eval(t.a, m))
	default:
		r = evalBin(t.op, t.a.w, c.eval(t.a, m), c.eval(t.b, m))
	}
	t.evGen, t.evVal = c.evGen, r
	return r
}

func mask64(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

// varset is a sorted set of variable ids.
type varset struct {
	ids  []uint32
	vars []*Term
}

var emptyVS = &varset{}

func (t *Term) varSet() *varset {
	if t.op == OConst {
		return emptyVS
	}
	if t.vars != nil {
		return t.vars
	}
	if t.op == OVar {
		t.vars = &varset{ids: []uint32{t.id}, vars: []*Term{t}}
		return t.vars
	}
	r := t.a.varSet()
	if t.b != nil {
		r = unionVS(r, t.b.varSet())
	}
	if t.c != nil {
		r = unionVS(r, t.c.varSet())
	}
	t.vars = r
	return r
}
func unionVS(a, b *varset) *varset {
	if a == b || len(b.ids) == 0 {
		return a
	}
	if len(a.ids) == 0 {
		return b
	}
	r := &varset{ids: make([]uint32, 0, len(a.ids)+len(b.ids)), vars: make([]*Term, 0, len(a.ids)+len(b.ids))}
	i, j := 0, 0
	for i < len(a.ids) || j < len(b.ids) {
		switch {
		case j >= len(b.ids) || (i < len(a.ids) && a.ids[i] < b.ids[j]):
			r.ids = append(r.ids, a.ids[i])
			r.vars = append(r.vars, a.vars[i])
			i++
		case i >= len(a.ids) || b.ids[j] < a.ids[i]:
			r.ids = append(r.ids, b.ids[j])
			r.vars = append(r.vars, b.vars[j])
			j++
		default:
			r.ids = append(r.ids, a.ids[i])
			r.vars = append(r.vars, a.vars[i])
			i++
			j++
		}
	}
	if len(r.ids) == len(a.ids) {
		return a
	}
	if len(r.ids) == len(b.ids) {
		return b
	}
	return r
}

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}
func constStr(t *Term) string {
	if t.w == 0 {
		if t.val != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
}

func fpS(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		return constStr(t)
	case OVar:
		return fmt.Sprintf("v%d", t.id)
	}
	return fmt.Sprintf("t%d", t.id)
}

// body prints the term one level deep.
func (t *Term) body() string {
	b2 := func(op string) string { return "(" + op + " " + t.a.ref() + " " + t.b.ref() + ")" }
	fp := func(x *Term) string { return "((_ to_fp " + fpS(x.w) + ") " + x.ref() + ")" }
	switch t.op {
	case ONot:
		return "(not " + t.a.ref() + ")"
	case OAnd:
		return b2("and")
	case OOr:
		return b2("or")
	case OEq:
		return b2("=")
	case OIte:
		return "(ite " + t.a.ref() + " " + t.b.ref() + " " + t.c.ref() + ")"
	case OAdd:
		return b2("bvadd")
	case OSub:
		return b2("bvsub")
	case OMul:
		return b2("bvmul")
	case OUDiv:
		return b2("bvudiv")
	case OSDiv:
		return b2("bvsdiv")
	case OURem:
		return b2("bvurem")
	case OSRem:
		return b2("bvsrem")
	case OBAnd:
		return b2("bvand")
	case OBOr:
		return b2("bvor")
	case OBXor:
		return b2("bvxor")
	case OBNot:
		return "(bvnot " + t.a.ref() + ")"
	case ONeg:
		return "(bvneg " + t.a.ref() + ")"
	case OShl:
		return b2("bvshl")
	case OLShr:
		return b2("bvlshr")
	case OAShr:
		return b2("bvashr")
	case OULT:
		return b2("bvult")
	case OULE:
		return b2("bvule")
	case OSLT:
		return b2("bvslt")
	case OSLE:
		return b2("bvsle")
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.val+uint64(t.w)-1, t.val, t.a.ref())
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OConcat:
		return b2("concat")
	case OFLt:
		return "(fp.lt " + fp(t.a) + " " + fp(t.b) + ")"
	case OFLe:
		return "(fp.leq " + fp(t.a) + " " + fp(t.b) + ")"
	case OFEq:
		return "(fp.eq " + fp(t.a) + " " + fp(t.b) + ")"
	case OFIsNaN:
		return "(fp.isNaN " + fp(t.a) + ")"
	case OFAdd, OFSub, OFMul, OFDiv:
		n := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[t.op]
		return "(fp.to_ieee_bv (" + n + " RNE " + fp(t.a) + " " + fp(t.b) + "))"
	case OFToS:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, fp(t.a))
	case OFToU:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.w, fp(t.a))
	case OSToF:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpS(t.w), t.a.ref())
	case OUToF:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp_unsigned %s) RNE %s))", fpS(t.w), t.a.ref())
	case OFToF:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpS(t.w), fp(t.a))
	}
	panic(fmt.Sprintf("body op %d", t.op))
}

func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 0)
	return sb.String()
}
func (t *Term) str(sb *strings.Builder, d int) {
	if t.op == OConst {
		if t.w == 0 {
			sb.WriteString(constStr(t))
		} else {
			fmt.Fprintf(sb, "%d", t.sval())
		}
		return
	}
	if t.op == OVar {
		sb.WriteString(t.name)
		return
	}
	if d > 6 {
		sb.WriteString("…")
		return
	}
	fmt.Fprintf(sb, "(op%d", t.op)
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			x.str(sb, d+1)
		}
	}
	sb.WriteByte(')')
}
