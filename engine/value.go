package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value = any

// Str is an immutable string value: concrete, or a sequence of byte terms.
type Str struct {
	s       string
	b       []*Term
	sym     bool
	opaque  bool // content deliberately not modelled (formatted message)
	atLeast int  // an opaque string has at least this many bytes
	atMost  int  // with segs: and at most this many
	segs    []fseg
}

var emptyStr = &Str{}

func strC(s string) *Str {
	if s == "" {
		return emptyStr
	}
	return &Str{s: s}
}
func strB(b []*Term) *Str {
	all := true
	for _, t := range b {
		if !t.isConst() {
			all = false
			break
		}
	}
	if all {
		bs := make([]byte, len(b))
		for i, t := range b {
			bs[i] = byte(t.val)
		}
		return strC(string(bs))
	}
	return &Str{b: b, sym: true}
}
func (s *Str) len() int {
	if s.sym {
		return len(s.b)
	}
	return len(s.s)
}
func (s *Str) at(i int) *Term {
	if s.sym {
		return s.b[i]
	}
	return mkConst(8, uint64(s.s[i]))
}
func (s *Str) terms() []*Term {
	if s.sym {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = mkConst(8, uint64(s.s[i]))
	}
	return r
}
func (s *Str) slice(lo, hi int) *Str {
	if s.sym {
		return strB(s.b[lo:hi])
	}
	return strC(s.s[lo:hi])
}
func (s *Str) minLen() int {
	if s.opaque {
		return s.atLeast
	}
	return s.len()
}
func strCat(a, b *Str) *Str {
	if a.opaque || b.opaque {
		return catSegs(a, b, &Str{s: a.disp() + b.disp(), opaque: true, atLeast: a.minLen() + b.minLen()})
	}
	if a.len() == 0 {
		return b
	}
	if b.len() == 0 {
		return a
	}
	if !a.sym && !b.sym {
		return strC(a.s + b.s)
	}
	r := make([]*Term, 0, a.len()+b.len())
	r = append(r, a.terms()...)
	r = append(r, b.terms()...)
	return &Str{b: r, sym: true}
}
func (s *Str) disp() string {
	if !s.sym {
		return s.s
	}
	var sb strings.Builder
	for _, t := range s.b {
		if t.isConst() {
			sb.WriteByte(byte(t.val))
		} else {
			sb.WriteByte('?')
		}
	}
	return sb.String()
}

type (
	Struct []Value
	Array  []Value
	Tuple  []Value
)

// Iface is an interface value; t==nil is the nil interface.
type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
	nat func(p *Path, fr *frame, args []Value) Value // engine-native closure
}

var nilClosure = (*Closure)(nil)

// Cplx is a complex number (IEEE bits of both parts).
type Cplx struct{ re, im *Term }

// SymPtr addresses elems[idx] for a symbolic in-range index.
type SymPtr struct {
	elems []Value
	idx   *Term
}

// Poison marks a value that could not be computed (package initialisation).
type Poison struct{ why string }

type mapEnt struct {
	k, v Value
	live bool
}
type Map struct {
	kt    types.Type
	ents  []*mapEnt
	idx   map[string]*mapEnt // concrete keys
	nsym  int                // live entries with non-concrete keys
	n     int
	iters int
}

type mapIter struct {
	m     *Map
	pos   int
	order []*mapEnt // non-nil when order was chosen nondeterministically
	seen  map[*mapEnt]bool
}
type strIter struct {
	s   *Str
	pos int
}

type Chan struct {
	buf    []Value
	cap    int
	closed bool
	// rendezvous for unbuffered channels
	recvWait int
	sendq    []*sendReq
	id       int
}
type sendReq struct {
	v    Value
	done bool
	g    *Gor
}

// UPtr is an unsafe.Pointer: it remembers the typed pointer it came from.
type UPtr struct {
	v Value
	t types.Type
}

func (p *Path) zero(t types.Type) Value {
	switch u := t.(type) {
	case *types.Named:
		if o := u.Obj(); o.Pkg() != nil && o.Pkg().Path() == "reflect" && o.Name() == "Value" {
			return (*RVal)(nil)
		}
		return p.zero(u.Underlying())
	case *types.Alias:
		return p.zero(types.Unalias(u))
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return emptyStr
		case u.Info()&types.IsComplex != 0:
			w := uint8(64)
			if u.Kind() == types.Complex64 {
				w = 32
			}
			return Cplx{mkConst(w, 0), mkConst(w, 0)}
		case u.Kind() == types.UnsafePointer:
			return UPtr{}
		case u.Kind() == types.UntypedNil:
			return nil
		}
		return mkConst(basicWidth(u), 0)
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return []Value(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return nilClosure
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = p.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := u.Len()
		if n > 1<<20 {
			panic(abort{kind: "unsupported", why: "huge array type"})
		}
		a := make(Array, n)
		if n > 0 {
			z := p.zero(u.Elem())
			switch z.(type) {
			case Struct, Array:
				for i := range a {
					a[i] = p.zero(u.Elem())
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Tuple:
		if u.Len() == 1 {
			return p.zero(u.At(0).Type())
		}
		s := make(Tuple, u.Len())
		for i := range s {
			s[i] = p.zero(u.At(i).Type())
		}
		return s
	case *types.TypeParam:
		panic(abort{kind: "unsupported", why: "zero of type param"})
	}
	panic(abort{kind: "unsupported", why: fmt.Sprintf("zero of %T", t)})
}

func basicWidth(b *types.Basic) uint8 {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 32
	}
	return 64
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	return b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// copyVal makes an independent copy of aggregate values.
func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		r := make(Struct, len(x))
		for i, e := range x {
			r[i] = copyVal(e)
		}
		return r
	case Array:
		r := make(Array, len(x))
		for i, e := range x {
			r[i] = copyVal(e)
		}
		return r
	}
	return v
}

// storeTo writes v through addr keeping interior pointers valid.
func storeTo(addr *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if dst, ok := (*addr).(Struct); ok && len(dst) == len(x) {
			for i := range x {
				storeTo(&dst[i], x[i])
			}
			return
		}
		*addr = copyVal(x)
		return
	case Array:
		if dst, ok := (*addr).(Array); ok && len(dst) == len(x) {
			for i := range x {
				storeTo(&dst[i], x[i])
			}
			return
		}
		*addr = copyVal(x)
		return
	}
	*addr = v
}

// concKey returns a canonical string for fully concrete map keys.
func concKey(v Value, sb *strings.Builder) bool {
	switch x := v.(type) {
	case *Term:
		if !x.isConst() {
			return false
		}
		fmt.Fprintf(sb, "i%d;", x.val)
	case *Str:
		if x.sym || x.opaque {
			return false
		}
		fmt.Fprintf(sb, "s%d:%s", len(x.s), x.s)
	case Struct:
		for _, e := range x {
			if !concKey(e, sb) {
				return false
			}
		}
	case Array:
		for _, e := range x {
			if !concKey(e, sb) {
				return false
			}
		}
	case Iface:
		if x.t == nil {
			sb.WriteString("nil;")
			return true
		}
		sb.WriteString("I" + types.TypeString(x.t, nil) + ";")
		return concKey(x.v, sb)
	case *Value:
		fmt.Fprintf(sb, "p%p;", x)
	case *Chan:
		fmt.Fprintf(sb, "c%p;", x)
	case *RType:
		fmt.Fprintf(sb, "t%s;", types.TypeString(x.t, nil))
	case UPtr:
		fmt.Fprintf(sb, "u%p;", x.v)
	default:
		return false
	}
	return true
}

func (p *Path) floatKey(t types.Type) bool { return isFloat(t) }

func newMap(kt types.Type) *Map {
	return &Map{kt: kt, idx: map[string]*mapEnt{}}
}

func (p *Path) keyConc(m *Map, k Value) (string, bool) {
	if t, ok := k.(*Term); ok && isFloat(m.kt) {
		if !t.isConst() || t.val<<1 == 0 { // symbolic or ±0: compare properly
			return "", false
		}
		if f := fbits(t.w, t.val); f != f {
			return "", false
		}
	}
	var sb strings.Builder
	if concKey(k, &sb) {
		return sb.String(), true
	}
	return "", false
}

func (p *Path) mapFind(m *Map, k Value) *mapEnt {
	if m == nil {
		return nil
	}
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		p.rtPanic("hash of unhashable type " + i.t.String())
	}
	ks, conc := p.keyConc(m, k)
	if conc {
		if e := m.idx[ks]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if !e.live {
			continue
		}
		if conc {
			if _, c2 := p.keyConc(m, e.k); c2 {
				continue // both concrete and different
			}
		}
		if p.branch(p.eqVal(m.kt, e.k, k)) {
			return e
		}
	}
	return nil
}
func (p *Path) mapSet(m *Map, k, v Value) {
	if m == nil {
		p.rtPanicPlain("assignment to entry in nil map")
	}
	if e := p.mapFind(m, k); e != nil {
		e.v = copyVal(v)
		return
	}
	e := &mapEnt{k: copyVal(k), v: copyVal(v), live: true}
	m.ents = append(m.ents, e)
	m.n++
	if ks, conc := p.keyConc(m, k); conc {
		m.idx[ks] = e
	} else {
		m.nsym++
	}
}
func (p *Path) mapDel(m *Map, k Value) {
	e := p.mapFind(m, k)
	if e == nil {
		return
	}
	e.live = false
	m.n--
	if ks, conc := p.keyConc(m, e.k); conc {
		delete(m.idx, ks)
	} else {
		m.nsym--
	}
	if len(m.ents) > 32 && len(m.ents) > 4*m.n && m.iters == 0 {
		var ne []*mapEnt
		for _, x := range m.ents {
			if x.live {
				ne = append(ne, x)
			}
		}
		m.ents = ne
	}
}

// eqVal returns the term "x == y" at static type t.
func (p *Path) eqVal(t types.Type, x, y Value) *Term {
	c := p.w.ctx
	switch a := x.(type) {
	case *Term:
		b, ok := y.(*Term)
		if !ok {
			break
		}
		if t != nil && isFloat(t) {
			return c.FCmp(OFEq, a, b)
		}
		return c.Eq(a, b)
	case *Str:
		return p.strEq(a, y.(*Str))
	case *Value:
		b, ok := y.(*Value)
		if !ok {
			if sp, isS := y.(*SymPtr); isS {
				_ = sp
				panic(abort{kind: "unsupported", why: "compare symbolic pointer"})
			}
			break
		}
		return mkBool(a == b)
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			break
		}
		if a.t == nil || b.t == nil {
			return mkBool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return tFalse
		}
		if !types.Comparable(a.t) {
			p.rtPanic("comparing uncomparable type " + a.t.String())
		}
		return p.eqVal(a.t, a.v, b.v)
	case Struct:
		b := y.(Struct)
		st, _ := t.Underlying().(*types.Struct)
		r := tTrue
		for i := range a {
			var ft types.Type
			if st != nil {
				if st.Field(i).Name() == "_" {
					continue
				}
				ft = st.Field(i).Type()
			}
			r = c.And(r, p.eqVal(ft, a[i], b[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case Array:
		b := y.(Array)
		var et types.Type
		if at, ok := t.Underlying().(*types.Array); ok {
			et = at.Elem()
		}
		r := tTrue
		for i := range a {
			r = c.And(r, p.eqVal(et, a[i], b[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *Map:
		b, _ := y.(*Map)
		return mkBool(a == b)
	case *Chan:
		b, _ := y.(*Chan)
		return mkBool(a == b)
	case []Value:
		b, _ := y.([]Value)
		return mkBool(a == nil && b == nil)
	case *Closure:
		b, _ := y.(*Closure)
		return mkBool(a == b)
	case *RType:
		b, ok := y.(*RType)
		return mkBool(ok && types.Identical(a.t, b.t))
	case *RVal:
		b, _ := y.(*RVal)
		return mkBool(a == b)
	case Cplx:
		b := y.(Cplx)
		return c.And(c.FCmp(OFEq, a.re, b.re), c.FCmp(OFEq, a.im, b.im))
	case UPtr:
		b := y.(UPtr)
		if a.v == nil || b.v == nil {
			return mkBool(isNilPtr(a.v) && isNilPtr(b.v))
		}
		pa, ok1 := a.v.(*Value)
		pb, ok2 := b.v.(*Value)
		if ok1 && ok2 {
			return mkBool(pa == pb)
		}
		return mkBool(a.v == b.v)
	case *SymPtr:
		panic(abort{kind: "unsupported", why: "compare symbolic pointer"})
	case Poison:
		panic(abort{kind: "unsupported", why: "poison compare: " + a.why})
	case nil:
		return mkBool(y == nil)
	}
	panic(abort{kind: "unsupported", why: fmt.Sprintf("eqVal %T %T", x, y)})
}

func isNilPtr(v Value) bool {
	switch x := v.(type) {
	case nil:
		return true
	case *Value:
		return x == nil
	}
	return false
}

func (p *Path) strEq(a, b *Str) *Term {
	if a == b {
		return tTrue
	}
	if (a.opaque && !b.opaque && b.len() < a.atLeast) || (b.opaque && !a.opaque && a.len() < b.atLeast) {
		return tFalse
	}
	if a.opaque || b.opaque {
		if e, ok := p.segEq(a, b); ok {
			return e
		}
		panic(abort{kind: "unsupported", why: "comparison of opaque formatted string"})
	}
	if a.len() != b.len() {
		return tFalse
	}
	if !a.sym && !b.sym {
		return mkBool(a.s == b.s)
	}
	c := p.w.ctx
	r := tTrue
	for i := 0; i < a.len(); i++ {
		r = c.And(r, c.Eq(a.at(i), b.at(i)))
		if r.isFalse() {
			return r
		}
	}
	return r
}

// strLess returns a<b lexicographically (orEq: a<=b).
func (p *Path) strLess(a, b *Str, orEq bool) *Term {
	if a.opaque || b.opaque {
		panic(abort{kind: "unsupported", why: "comparison of opaque formatted string"})
	}
	if !a.sym && !b.sym {
		if orEq {
			return mkBool(a.s <= b.s)
		}
		return mkBool(a.s < b.s)
	}
	c := p.w.ctx
	n := min(a.len(), b.len())
	var r *Term
	if orEq {
		r = mkBool(a.len() <= b.len())
	} else {
		r = mkBool(a.len() < b.len())
	}
	for i := n - 1; i >= 0; i-- {
		x, y := a.at(i), b.at(i)
		r = c.Or(c.Bin(OULT, x, y), c.And(c.Eq(x, y), r))
	}
	return r
}

func dispVal(v Value) string {
	switch x := v.(type) {
	case *Term:
		if x.isConst() {
			return fmt.Sprintf("%d", x.val)
		}
		return "sym"
	case *Str:
		return fmt.Sprintf("%q", x.disp())
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return fmt.Sprintf("%s(%s)", x.t, dispVal(x.v))
	case Struct:
		var p []string
		for _, e := range x {
			p = append(p, dispVal(e))
		}
		return "{" + strings.Join(p, ",") + "}"
	case *Value:
		if x == nil {
			return "nil"
		}
		return "&" + dispVal(*x)
	}
	return fmt.Sprintf("%T", v)
}
