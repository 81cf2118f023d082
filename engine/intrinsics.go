package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}

// stubName maps a function name to the harness function that replaces it.
func stubName(full string) string {
	rep := strings.NewReplacer("/", "_S_", ".", "_D_", "-", "_H_")
	if strings.HasPrefix(full, "(") {
		i := strings.LastIndex(full, ").")
		if i < 0 {
			return ""
		}
		recv, meth := full[1:i], full[i+2:]
		recv = strings.TrimPrefix(recv, "*")
		j := strings.LastIndex(recv, ".")
		if j < 0 {
			return ""
		}
		return "vstub_" + rep.Replace(recv[:j]) + "__" + recv[j+1:] + "__" + meth
	}
	slash := strings.LastIndex(full, "/")
	dot := strings.Index(full[slash+1:], ".")
	if dot < 0 {
		return ""
	}
	dot += slash + 1
	return "vstub_" + rep.Replace(full[:dot]) + "__" + full[dot+1:]
}

var modPath = "github.com/PatchLens/go-update-lens"

func (m *Machine) lookupIntrinsic(name string, fn *ssa.Function) intrinsic {
	if m.target[fn.Pkg] && fn.Parent() == nil && fn.Signature.Recv() == nil {
		if f := apiFns[fn.Name()]; f != nil {
			return f
		}
	}
	// harness stubs
	if hp := m.harnessPkg; hp != nil {
		short := strings.ReplaceAll(name, modPath+"/", "")
		if sn := stubName(short); sn != "" && !strings.ContainsAny(sn, "$()*") {
			if sf := hp.Func(sn); sf != nil && sf != fn {
				return func(p *Path, fr *frame, _ *ssa.Function, args []Value) Value {
					if fr != nil && fr.fi.fn == sf { // stub calling the original
						return p.callOriginal(fr, fn, args)
					}
					return p.callFn(fr, sf, args, nil)
				}
			}
			// a method of a modelled type that the model lacks
			if i := strings.LastIndex(sn, "__"); i > 0 && strings.HasPrefix(name, "(") && !m.target[fn.Pkg] && m.stubTypes()[sn[:i+2]] {
				return func(p *Path, fr *frame, _ *ssa.Function, args []Value) Value {
					panic(abort{kind: "unsupported", why: "the environment model has no " + name})
				}
			}
		}
	}
	if f := intrinsics[name]; f != nil {
		return f
	}
	return nil
}

// stubTypes are the types with at least one stubbed method.
func (m *Machine) stubTypes() map[string]bool {
	m.stubOnce.Do(func() {
		m.stubT = map[string]bool{}
		for n := range m.harnessPkg.Members {
			if strings.HasPrefix(n, "vstub_") && strings.Count(n, "__") == 2 {
				m.stubT[n[:strings.LastIndex(n, "__")+2]] = true
			}
		}
	})
	return m.stubT
}

func (p *Path) callOriginal(fr *frame, fn *ssa.Function, args []Value) Value {
	if f := intrinsics[fnName(fn)]; f != nil {
		return f(p, fr, fn, args)
	}
	return p.callBody(fr, p.w.m.bodyInfo(fn), args, nil)
}

func sarg(p *Path, v Value) string {
	s := v.(*Str)
	if s.sym {
		panic(abort{kind: "unsupported", why: "symbolic name argument"})
	}
	return s.s
}

// apiFns implement the harness API.
var apiFns = map[string]intrinsic{}

func api(name string, f func(p *Path, fr *frame, a []Value) Value) {
	apiFns[name] = func(p *Path, fr *frame, fn *ssa.Function, args []Value) Value { return f(p, fr, args) }
}

func init() {
	scalar := func(w uint8) func(p *Path, fr *frame, a []Value) Value {
		return func(p *Path, fr *frame, a []Value) Value {
			n := sarg(p, a[0])
			t := p.fresh(n, w)
			p.record(n, "scalar", t, nil)
			return t
		}
	}
	api("vBool", scalar(0))
	for _, x := range []struct {
		n string
		w uint8
	}{{"vU8", 8}, {"vU16", 16}, {"vU32", 32}, {"vU64", 64}, {"vI8", 8}, {"vI16", 16}, {"vI32", 32}, {"vI64", 64}, {"vInt", 64}, {"vUint", 64}, {"vF32", 32}, {"vF64", 64}} {
		api(x.n, scalar(x.w))
	}
	api("vIntRange", func(p *Path, fr *frame, a []Value) Value {
		n := sarg(p, a[0])
		t := p.fresh(n, 64)
		p.record(n, "scalar", t, nil)
		c := p.ctx()
		p.assume(c.And(c.Bin(OSLE, a[1].(*Term), t), c.Bin(OSLE, t, a[2].(*Term))))
		return t
	})
	api("vChoose", func(p *Path, fr *frame, a []Value) Value {
		n := sarg(p, a[0])
		k := p.concInt(a[1])
		t := p.fresh(n, 64)
		p.record(n, "scalar", t, nil)
		p.assume(p.ctx().Bin(OULT, t, mkInt(int64(k))))
		if k == 1 {
			return mkInt(0)
		}
		return mkConst(64, p.concretize(t))
	})
	api("vStr", func(p *Path, fr *frame, a []Value) Value {
		n := sarg(p, a[0])
		k := p.concInt(a[1])
		b := p.freshBytes(n, k)
		p.record(n, "str", nil, b)
		return strB(b)
	})
	api("vBytes", func(p *Path, fr *frame, a []Value) Value {
		n := sarg(p, a[0])
		k := p.concInt(a[1])
		b := p.freshBytes(n, k)
		p.record(n, "bytes", nil, b)
		r := make([]Value, k)
		for i := range b {
			r[i] = b[i]
		}
		return r
	})
	api("vConc", func(p *Path, fr *frame, a []Value) Value {
		return mkConst(64, p.concretize(a[0].(*Term)))
	})
	api("vAssume", func(p *Path, fr *frame, a []Value) Value { p.assume(a[0].(*Term)); return nil })
	api("vAssert", func(p *Path, fr *frame, a []Value) Value {
		p.assert(sarg(p, a[0]), a[1].(*Term))
		return nil
	})
	api("vReach", func(p *Path, fr *frame, a []Value) Value { p.reach[sarg(p, a[0])] = true; return nil })
	api("vObs", func(p *Path, fr *frame, a []Value) Value {
		l, _ := p.ext["obs"].([]obsRec)
		p.ext["obs"] = append(l, obsRec{sarg(p, a[0]), a[1].(Iface)})
		return nil
	})
	api("vMapOrder", func(p *Path, fr *frame, a []Value) Value { p.mapND = a[0].(*Term).isTrue(); return nil })
	api("vSched", func(p *Path, fr *frame, a []Value) Value {
		p.schedND = true
		p.preempt = p.concInt(a[0])
		p.memYield = a[1].(*Term).isTrue()
		return nil
	})
	api("vSchedOff", func(p *Path, fr *frame, a []Value) Value {
		p.schedND, p.memYield = false, false
		return nil
	})
	api("vMaxAlloc", func(p *Path, fr *frame, a []Value) Value { p.allocMax = p.concInt(a[0]); return nil })
	api("vThorough", func(p *Path, fr *frame, a []Value) Value { return mkBool(thorough) })
	api("vSymbolic", func(p *Path, fr *frame, a []Value) Value { return tTrue })
	api("vYield", func(p *Path, fr *frame, a []Value) Value {
		if p.schedND && len(p.gors) > 1 {
			p.goSched()
		}
		return nil
	})
	// vAnd/vOr/vImp build one term instead of forking on short-circuits
	api("vAnd", func(p *Path, fr *frame, a []Value) Value {
		r := tTrue
		for _, x := range a[0].([]Value) {
			r = p.ctx().And(r, x.(*Term))
		}
		return r
	})
	api("vOr", func(p *Path, fr *frame, a []Value) Value {
		r := tFalse
		for _, x := range a[0].([]Value) {
			r = p.ctx().Or(r, x.(*Term))
		}
		return r
	})
	api("vEqBytes", func(p *Path, fr *frame, a []Value) Value {
		return p.strEq(bytesToStr(a[0].([]Value)), bytesToStr(a[1].([]Value)))
	})
	api("vDeepEq", func(p *Path, fr *frame, a []Value) Value {
		return intrinsics["reflect.DeepEqual"](p, fr, nil, a)
	})
	api("vIteInt", func(p *Path, fr *frame, a []Value) Value {
		return p.ctx().Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	})
}

var thorough bool

type obsRec struct {
	name string
	v    Iface
}

func (p *Path) freshBytes(n string, k int) []*Term {
	b := make([]*Term, k)
	for i := range b {
		b[i] = p.fresh(fmt.Sprintf("%s[%d]", n, i), 8)
	}
	return b
}

func (p *Path) obsTrace(m Model) []string {
	l, _ := p.ext["obs"].([]obsRec)
	var out []string
	c := p.ctx()
	c.newEval()
	for _, o := range l {
		out = append(out, o.name+"="+p.obsVal(o.v, m))
	}
	c.dirty = true
	return out
}

func (p *Path) obsVal(i Iface, m Model) string {
	if i.t == nil {
		return "nil"
	}
	switch v := i.v.(type) {
	case *Term:
		x := p.ctx().eval(v, m)
		switch {
		case v.w == 0:
			return fmt.Sprintf("%v", x != 0)
		case isFloat(i.t):
			return fmt.Sprintf("%x", x)
		case isSigned(i.t):
			return fmt.Sprintf("%d", sx(x, v.w))
		}
		return fmt.Sprintf("%d", x)
	case *Str:
		if v.opaque {
			return "?opaque"
		}
		b := make([]byte, v.len())
		for k := range b {
			b[k] = byte(p.ctx().eval(v.at(k), m))
		}
		return fmt.Sprintf("%q", b)
	case []Value:
		if sl, ok := i.t.Underlying().(*types.Slice); ok && allTerms(v) && types.Identical(sl.Elem().Underlying(), types.Typ[types.Uint8]) {
			b := make([]byte, len(v))
			for k := range b {
				b[k] = byte(p.ctx().eval(v[k].(*Term), m))
			}
			return fmt.Sprintf("%q", b)
		}
	}
	return "?"
}

func init() {
	// compiled expressions are immutable and shared between paths
	intrinsics["regexp.MustCompile"] = func(p *Path, fr *frame, fn *ssa.Function, args []Value) Value {
		s := args[0].(*Str)
		if s.sym || s.opaque {
			return p.callBody(fr, p.w.m.bodyInfo(fn), args, nil)
		}
		k := "re:" + s.s
		if v, ok := p.w.persist[k]; ok {
			return v.(Value)
		}
		v := p.callBody(fr, p.w.m.bodyInfo(fn), args, nil)
		p.w.persist[k] = v
		return v
	}
}

func nop(p *Path, fr *frame, fn *ssa.Function, args []Value) Value { return p.zeroResult(fn) }

type lockState struct {
	w       bool
	readers int
}

func (p *Path) lock(v Value) *lockState {
	ptr, ok := v.(*Value)
	if !ok || ptr == nil {
		p.rtPanic("invalid memory address or nil pointer dereference")
	}
	m, _ := p.ext["locks"].(map[*Value]*lockState)
	if m == nil {
		m = map[*Value]*lockState{}
		p.ext["locks"] = m
	}
	l := m[ptr]
	if l == nil {
		l = &lockState{}
		m[ptr] = l
	}
	return l
}

type wgState struct{ n int64 }

func (p *Path) wgOf(v Value) *wgState {
	m, _ := p.ext["wgs"].(map[*Value]*wgState)
	if m == nil {
		m = map[*Value]*wgState{}
		p.ext["wgs"] = m
	}
	k := v.(*Value)
	if m[k] == nil {
		m[k] = &wgState{}
	}
	return m[k]
}

func (p *Path) fatal(msg string) {
	panic(goPanic{v: Iface{t: types.Typ[types.String], v: strC("fatal error: " + msg)}})
}

func curIn(fr *frame) ssa.Instruction {
	if fr == nil {
		return nil
	}
	return fr.curIn
}

func I(name string, f func(p *Path, fr *frame, a []Value) Value) {
	intrinsics[name] = func(p *Path, fr *frame, fn *ssa.Function, args []Value) Value { return f(p, fr, args) }
}

func concStr(v Value) (string, bool) {
	s, ok := v.(*Str)
	if !ok || s.sym || s.opaque {
		return "", false
	}
	return s.s, true
}

// indexByte finds c in t by forking on each candidate position.
func (p *Path) indexByte(at func(int) *Term, n int, c *Term) int {
	for i := 0; i < n; i++ {
		if p.branch(p.ctx().Eq(at(i), c)) {
			return i
		}
	}
	return -1
}

func init() {
	// --- sync ---
	I("(*sync.Mutex).Lock", func(p *Path, fr *frame, a []Value) Value {
		l := p.lock(a[0])
		p.yieldPoint(fr, curIn(fr), "lock")
		p.block("mutex", func() bool { return !l.w })
		l.w = true
		return nil
	})
	I("(*sync.Mutex).TryLock", func(p *Path, fr *frame, a []Value) Value {
		l := p.lock(a[0])
		p.yieldPoint(fr, curIn(fr), "lock")
		if l.w {
			return tFalse
		}
		l.w = true
		return tTrue
	})
	I("(*sync.Mutex).Unlock", func(p *Path, fr *frame, a []Value) Value {
		l := p.lock(a[0])
		if !l.w {
			p.fatal("sync: unlock of unlocked mutex")
		}
		l.w = false
		p.yieldPoint(fr, curIn(fr), "unlock")
		return nil
	})
	I("(*sync.RWMutex).Lock", func(p *Path, fr *frame, a []Value) Value {
		l := p.lock(a[0])
		p.yieldPoint(fr, curIn(fr), "lock")
		p.block("rwmutex", func() bool { return !l.w && l.readers == 0 })
		l.w = true
		return nil
	})
	I("(*sync.RWMutex).Unlock", intrFor("(*sync.Mutex).Unlock"))
	I("(*sync.RWMutex).RLock", func(p *Path, fr *frame, a []Value) Value {
		l := p.lock(a[0])
		p.yieldPoint(fr, curIn(fr), "rlock")
		p.block("rwmutex", func() bool { return !l.w })
		l.readers++
		return nil
	})
	I("(*sync.RWMutex).RUnlock", func(p *Path, fr *frame, a []Value) Value {
		l := p.lock(a[0])
		if l.readers == 0 {
			p.fatal("sync: RUnlock of unlocked RWMutex")
		}
		l.readers--
		p.yieldPoint(fr, curIn(fr), "unlock")
		return nil
	})
	I("(*sync.WaitGroup).Add", func(p *Path, fr *frame, a []Value) Value {
		w := p.wgOf(a[0])
		w.n += int64(p.concInt(a[1]))
		if w.n < 0 {
			panic(goPanic{v: Iface{t: types.Typ[types.String], v: strC("sync: negative WaitGroup counter")}})
		}
		p.yieldPoint(fr, curIn(fr), "wg")
		return nil
	})
	I("(*sync.WaitGroup).Done", func(p *Path, fr *frame, a []Value) Value {
		w := p.wgOf(a[0])
		w.n--
		if w.n < 0 {
			panic(goPanic{v: Iface{t: types.Typ[types.String], v: strC("sync: negative WaitGroup counter")}})
		}
		p.yieldPoint(fr, curIn(fr), "wg")
		return nil
	})
	I("(*sync.WaitGroup).Wait", func(p *Path, fr *frame, a []Value) Value {
		w := p.wgOf(a[0])
		p.yieldPoint(fr, curIn(fr), "wg")
		p.block("waitgroup", func() bool { return w.n == 0 })
		return nil
	})
	I("(*sync.Cond).Wait", func(p *Path, fr *frame, a []Value) Value {
		st := (*a[0].(*Value)).(Struct)
		var lk Iface
		for _, f := range st {
			if i, ok := f.(Iface); ok {
				lk = i
			}
		}
		m, _ := p.ext["conds"].(map[*Value][]*bool)
		if m == nil {
			m = map[*Value][]*bool{}
			p.ext["conds"] = m
		}
		k := a[0].(*Value)
		sig := new(bool)
		m[k] = append(m[k], sig)
		p.callMethod(fr, lk, "Unlock", nil)
		p.block("cond", func() bool { return *sig })
		p.callMethod(fr, lk, "Lock", nil)
		return nil
	})
	signal := func(all bool) func(p *Path, fr *frame, a []Value) Value {
		return func(p *Path, fr *frame, a []Value) Value {
			m, _ := p.ext["conds"].(map[*Value][]*bool)
			k := a[0].(*Value)
			for len(m[k]) > 0 {
				*m[k][0] = true
				m[k] = m[k][1:]
				if !all {
					break
				}
			}
			p.yieldPoint(fr, curIn(fr), "signal")
			return nil
		}
	}
	I("(*sync.Cond).Signal", signal(false))
	I("(*sync.Cond).Broadcast", signal(true))
	I("(*sync.Pool).Get", func(p *Path, fr *frame, a []Value) Value {
		m, _ := p.ext["pools"].(map[*Value][]Value)
		k := a[0].(*Value)
		if l := m[k]; len(l) > 0 {
			v := l[len(l)-1]
			m[k] = l[:len(l)-1]
			return v
		}
		st := (*k).(Struct)
		for _, f := range st {
			if c, ok := f.(*Closure); ok {
				if c == nil {
					return Iface{}
				}
				return p.callClosure(fr, c, nil)
			}
		}
		return Iface{}
	})
	I("(*sync.Pool).Put", func(p *Path, fr *frame, a []Value) Value {
		m, _ := p.ext["pools"].(map[*Value][]Value)
		if m == nil {
			m = map[*Value][]Value{}
			p.ext["pools"] = m
		}
		k := a[0].(*Value)
		if i, ok := a[1].(Iface); ok && i.t == nil {
			return nil
		}
		m[k] = append(m[k], a[1])
		return nil
	})
	// sync.Map as an ordinary map guarded by atomic operations
	smap := func(p *Path, v Value) *Map {
		m, _ := p.ext["smaps"].(map[*Value]*Map)
		if m == nil {
			m = map[*Value]*Map{}
			p.ext["smaps"] = m
		}
		k := v.(*Value)
		if m[k] == nil {
			m[k] = newMap(types.NewInterfaceType(nil, nil))
		}
		return m[k]
	}
	I("(*sync.Map).Load", func(p *Path, fr *frame, a []Value) Value {
		p.yieldPoint(fr, curIn(fr), "syncmap")
		if e := p.mapFind(smap(p, a[0]), a[1]); e != nil {
			return Tuple{e.v, tTrue}
		}
		return Tuple{Iface{}, tFalse}
	})
	I("(*sync.Map).Store", func(p *Path, fr *frame, a []Value) Value {
		p.yieldPoint(fr, curIn(fr), "syncmap")
		p.mapSet(smap(p, a[0]), a[1], a[2])
		return nil
	})
	I("(*sync.Map).Delete", func(p *Path, fr *frame, a []Value) Value {
		p.yieldPoint(fr, curIn(fr), "syncmap")
		p.mapDel(smap(p, a[0]), a[1])
		return nil
	})
	I("(*sync.Map).LoadOrStore", func(p *Path, fr *frame, a []Value) Value {
		p.yieldPoint(fr, curIn(fr), "syncmap")
		m := smap(p, a[0])
		if e := p.mapFind(m, a[1]); e != nil {
			return Tuple{e.v, tTrue}
		}
		p.mapSet(m, a[1], a[2])
		return Tuple{a[2], tFalse}
	})
	I("(*sync.Map).LoadAndDelete", func(p *Path, fr *frame, a []Value) Value {
		p.yieldPoint(fr, curIn(fr), "syncmap")
		m := smap(p, a[0])
		if e := p.mapFind(m, a[1]); e != nil {
			v := e.v
			p.mapDel(m, a[1])
			return Tuple{v, tTrue}
		}
		return Tuple{Iface{}, tFalse}
	})
	I("(*sync.Map).Clear", func(p *Path, fr *frame, a []Value) Value {
		m, _ := p.ext["smaps"].(map[*Value]*Map)
		if m != nil {
			delete(m, a[0].(*Value))
		}
		return nil
	})
	I("(*sync.Map).Range", func(p *Path, fr *frame, a []Value) Value {
		m := smap(p, a[0])
		it := p.newMapIter(m)
		for e := p.mapNext(it); e != nil; e = p.mapNext(it) {
			r := p.callClosure(fr, a[1], []Value{e.k, e.v})
			if !p.branch(r.(*Term)) {
				break
			}
		}
		return nil
	})
	I("(*sync.Once).Do", func(p *Path, fr *frame, a []Value) Value {
		st := (*p.derefPtr(fr, a[0])).(Struct)
		m, _ := p.ext["onces"].(map[*Value]*lockState)
		if m == nil {
			m = map[*Value]*lockState{}
			p.ext["onces"] = m
		}
		_ = st
		// persistent packages keep the flag across paths through the struct itself
		k := a[0].(*Value)
		if onceDone(st) {
			return nil
		}
		l := m[k]
		if l == nil {
			l = &lockState{}
			m[k] = l
		}
		p.yieldPoint(fr, curIn(fr), "once")
		p.block("once", func() bool { return !l.w })
		if onceDone(st) {
			return nil
		}
		l.w = true
		func() {
			defer func() {
				setOnce(st)
				l.w = false
			}()
			p.callClosure(fr, a[1], nil)
		}()
		return nil
	})

	// --- atomics ---
	for _, ty := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}, {"Uintptr", 64}} {
		for _, pk := range []string{"sync/atomic."} {
			I(pk+"Load"+ty.n, func(p *Path, fr *frame, a []Value) Value {
				p.yieldPoint(fr, curIn(fr), "atomic")
				return *p.derefPtr(fr, a[0])
			})
			I(pk+"Store"+ty.n, func(p *Path, fr *frame, a []Value) Value {
				p.yieldPoint(fr, curIn(fr), "atomic")
				*p.derefPtr(fr, a[0]) = a[1]
				return nil
			})
			I(pk+"Add"+ty.n, func(p *Path, fr *frame, a []Value) Value {
				p.yieldPoint(fr, curIn(fr), "atomic")
				ptr := p.derefPtr(fr, a[0])
				*ptr = p.ctx().Bin(OAdd, (*ptr).(*Term), a[1].(*Term))
				return *ptr
			})
			I(pk+"Swap"+ty.n, func(p *Path, fr *frame, a []Value) Value {
				p.yieldPoint(fr, curIn(fr), "atomic")
				ptr := p.derefPtr(fr, a[0])
				o := *ptr
				*ptr = a[1]
				return o
			})
			I(pk+"Or"+ty.n, func(p *Path, fr *frame, a []Value) Value {
				ptr := p.derefPtr(fr, a[0])
				o := *ptr
				*ptr = p.ctx().Bin(OBOr, o.(*Term), a[1].(*Term))
				return o
			})
			I(pk+"And"+ty.n, func(p *Path, fr *frame, a []Value) Value {
				ptr := p.derefPtr(fr, a[0])
				o := *ptr
				*ptr = p.ctx().Bin(OBAnd, o.(*Term), a[1].(*Term))
				return o
			})
			I(pk+"CompareAndSwap"+ty.n, func(p *Path, fr *frame, a []Value) Value {
				p.yieldPoint(fr, curIn(fr), "atomic")
				ptr := p.derefPtr(fr, a[0])
				if p.branch(p.ctx().Eq((*ptr).(*Term), a[1].(*Term))) {
					*ptr = a[2]
					return tTrue
				}
				return tFalse
			})
		}
	}
	ldPtr := func(p *Path, fr *frame, a []Value) Value {
		p.yieldPoint(fr, curIn(fr), "atomic")
		return *p.derefPtr(fr, a[0])
	}
	I("sync/atomic.LoadPointer", ldPtr)
	I("sync/atomic.StorePointer", func(p *Path, fr *frame, a []Value) Value {
		p.yieldPoint(fr, curIn(fr), "atomic")
		*p.derefPtr(fr, a[0]) = a[1]
		return nil
	})
	// atomic.Pointer[T]: Struct{_, _, v unsafe.Pointer}
	apCell := func(p *Path, fr *frame, v Value) *Value {
		st := (*p.derefPtr(fr, v)).(Struct)
		return &st[len(st)-1]
	}
	apGet := func(p *Path, fr *frame, fn *ssa.Function, v Value) Value {
		x := *apCell(p, fr, v)
		if u, ok := x.(UPtr); ok {
			if u.v == nil {
				return (*Value)(nil)
			}
			return u.v
		}
		return x
	}
	intrinsics["(*sync/atomic.Pointer[T]).Load"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		p.yieldPoint(fr, curIn(fr), "atomic")
		return apGet(p, fr, fn, a[0])
	}
	intrinsics["(*sync/atomic.Pointer[T]).Store"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		p.yieldPoint(fr, curIn(fr), "atomic")
		*apCell(p, fr, a[0]) = UPtr{v: a[1]}
		return nil
	}
	intrinsics["(*sync/atomic.Pointer[T]).Swap"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		p.yieldPoint(fr, curIn(fr), "atomic")
		o := apGet(p, fr, fn, a[0])
		*apCell(p, fr, a[0]) = UPtr{v: a[1]}
		return o
	}
	intrinsics["(*sync/atomic.Pointer[T]).CompareAndSwap"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		p.yieldPoint(fr, curIn(fr), "atomic")
		o, _ := apGet(p, fr, fn, a[0]).(*Value)
		if o == a[1].(*Value) {
			*apCell(p, fr, a[0]) = UPtr{v: a[2]}
			return tTrue
		}
		return tFalse
	}
	avCell := func(p *Path, fr *frame, v Value) *Value {
		st := (*p.derefPtr(fr, v)).(Struct)
		return &st[0]
	}
	I("(*sync/atomic.Value).Load", func(p *Path, fr *frame, a []Value) Value {
		p.yieldPoint(fr, curIn(fr), "atomic")
		return *avCell(p, fr, a[0])
	})
	I("(*sync/atomic.Value).Store", func(p *Path, fr *frame, a []Value) Value {
		p.yieldPoint(fr, curIn(fr), "atomic")
		nv := a[1].(Iface)
		c := avCell(p, fr, a[0])
		if nv.t == nil {
			panic(goPanic{v: Iface{t: types.Typ[types.String], v: strC("sync/atomic: store of nil value into Value")}})
		}
		if o := (*c).(Iface); o.t != nil && !types.Identical(o.t, nv.t) {
			panic(goPanic{v: Iface{t: types.Typ[types.String], v: strC("sync/atomic: store of inconsistently typed value into Value")}})
		}
		*c = nv
		return nil
	})
	I("(*sync/atomic.Value).CompareAndSwap", func(p *Path, fr *frame, a []Value) Value {
		p.yieldPoint(fr, curIn(fr), "atomic")
		c := avCell(p, fr, a[0])
		if p.branch(p.eqVal(nil, *c, a[1])) {
			*c = a[2]
			return tTrue
		}
		return tFalse
	})
	I("(*sync/atomic.Value).Swap", func(p *Path, fr *frame, a []Value) Value {
		p.yieldPoint(fr, curIn(fr), "atomic")
		c := avCell(p, fr, a[0])
		o := *c
		*c = a[1]
		return o
	})

	// --- runtime / misc ---
	I("runtime.Gosched", func(p *Path, fr *frame, a []Value) Value {
		p.goSched()
		return nil
	})
	I("runtime.NumCPU", func(p *Path, fr *frame, a []Value) Value { return mkInt(4) })
	I("runtime.GOMAXPROCS", func(p *Path, fr *frame, a []Value) Value { return mkInt(4) })
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime/debug.FreeOSMemory", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Errors",
		"log.Printf", "log.Println", "log.Print", "log.SetOutput", "log.SetFlags", "internal/godebug.setUpdate", "internal/godebug.registerMetric", "internal/godebug.setNewIncNonDefault", "(*internal/godebug.Setting).IncNonDefault",
		"internal/testlog.Stat", "internal/testlog.Open", "internal/testlog.Getenv",
		"internal/bytealg.MakeNoZero_unused", "os/signal.Notify", "os.runtime_beforeExit", "fmt.Printf", "fmt.Println", "fmt.Print", "unique.registerCleanup"} {
		intrinsics[n] = nop
	}
	I("log.Fatalf", func(p *Path, fr *frame, a []Value) Value { p.fatal("log.Fatalf"); return nil })
	I("log.Fatal", func(p *Path, fr *frame, a []Value) Value { p.fatal("log.Fatal"); return nil })
	I("(*internal/godebug.Setting).Value", func(p *Path, fr *frame, a []Value) Value { return emptyStr })
	I("internal/godebug.New", func(p *Path, fr *frame, a []Value) Value { return p.newCell(Struct{}) })
	I("internal/abi.NoEscape", func(p *Path, fr *frame, a []Value) Value { return a[0] })
	I("internal/abi.Escape", func(p *Path, fr *frame, a []Value) Value { return a[0] })
	I("strings.noescape", func(p *Path, fr *frame, a []Value) Value { return a[0] })
	I("(*strings.Builder).copyCheck", func(p *Path, fr *frame, a []Value) Value { return nil })
	I("internal/bytealg.MakeNoZero", func(p *Path, fr *frame, a []Value) Value {
		n := p.concInt(a[0])
		s := make([]Value, n)
		for i := range s {
			s[i] = mkConst(8, 0)
		}
		return s
	})
	I("internal/stringslite.Clone", func(p *Path, fr *frame, a []Value) Value { return a[0] })
	I("strings.Clone", func(p *Path, fr *frame, a []Value) Value { return a[0] })
	I("os.Getenv", func(p *Path, fr *frame, a []Value) Value { return emptyStr })
	I("os.LookupEnv", func(p *Path, fr *frame, a []Value) Value { return Tuple{emptyStr, tFalse} })
	I("os.Getpid", func(p *Path, fr *frame, a []Value) Value { return mkInt(4242) })
	intrinsics["os.NewFile"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return p.newCell(p.zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()))
	}
	I("os.runtime_args", func(p *Path, fr *frame, a []Value) Value { return []Value{} })
	I("syscall.runtime_envs", func(p *Path, fr *frame, a []Value) Value { return []Value{} })

	// --- bytealg ---
	I("internal/bytealg.IndexByteString", func(p *Path, fr *frame, a []Value) Value {
		s := a[0].(*Str)
		c := a[1].(*Term)
		if !s.sym && c.isConst() {
			return mkInt(int64(strings.IndexByte(s.s, byte(c.val))))
		}
		return mkInt(int64(p.indexByte(s.at, s.len(), c)))
	})
	I("internal/bytealg.IndexByte", func(p *Path, fr *frame, a []Value) Value {
		s := a[0].([]Value)
		return mkInt(int64(p.indexByte(func(i int) *Term { return s[i].(*Term) }, len(s), a[1].(*Term))))
	})
	lastIdx := func(p *Path, at func(int) *Term, n int, c *Term) Value {
		for i := n - 1; i >= 0; i-- {
			if p.branch(p.ctx().Eq(at(i), c)) {
				return mkInt(int64(i))
			}
		}
		return mkInt(-1)
	}
	I("internal/bytealg.LastIndexByteString", func(p *Path, fr *frame, a []Value) Value {
		s := a[0].(*Str)
		return lastIdx(p, s.at, s.len(), a[1].(*Term))
	})
	I("internal/bytealg.LastIndexByte", func(p *Path, fr *frame, a []Value) Value {
		s := a[0].([]Value)
		return lastIdx(p, func(i int) *Term { return s[i].(*Term) }, len(s), a[1].(*Term))
	})
	count := func(p *Path, at func(int) *Term, n int, c *Term) Value {
		k := 0
		for i := 0; i < n; i++ {
			if p.branch(p.ctx().Eq(at(i), c)) {
				k++
			}
		}
		return mkInt(int64(k))
	}
	I("internal/bytealg.CountString", func(p *Path, fr *frame, a []Value) Value {
		s := a[0].(*Str)
		return count(p, s.at, s.len(), a[1].(*Term))
	})
	I("internal/bytealg.Count", func(p *Path, fr *frame, a []Value) Value {
		s := a[0].([]Value)
		return count(p, func(i int) *Term { return s[i].(*Term) }, len(s), a[1].(*Term))
	})
	index := func(p *Path, s, sub *Str) Value {
		if !s.sym && !sub.sym {
			return mkInt(int64(strings.Index(s.s, sub.s)))
		}
		n := sub.len()
		for i := 0; i+n <= s.len(); i++ {
			if p.branch(p.strEq(s.slice(i, i+n), sub)) {
				return mkInt(int64(i))
			}
		}
		return mkInt(-1)
	}
	chkOp := func(ss ...*Str) {
		for _, s := range ss {
			panicIf(s.opaque, "search in opaque formatted string")
		}
	}
	I("internal/bytealg.IndexString", func(p *Path, fr *frame, a []Value) Value { return index(p, a[0].(*Str), a[1].(*Str)) })
	I("internal/bytealg.Index", func(p *Path, fr *frame, a []Value) Value {
		return index(p, bytesToStr(a[0].([]Value)), bytesToStr(a[1].([]Value)))
	})
	I("strings.Index", func(p *Path, fr *frame, a []Value) Value {
		chkOp(a[0].(*Str), a[1].(*Str))
		return index(p, a[0].(*Str), a[1].(*Str))
	})
	I("internal/stringslite.Index", func(p *Path, fr *frame, a []Value) Value {
		chkOp(a[0].(*Str), a[1].(*Str))
		return index(p, a[0].(*Str), a[1].(*Str))
	})
	I("bytes.Index", func(p *Path, fr *frame, a []Value) Value {
		return index(p, bytesToStr(a[0].([]Value)), bytesToStr(a[1].([]Value)))
	})
	I("strings.LastIndex", func(p *Path, fr *frame, a []Value) Value {
		s, sub := a[0].(*Str), a[1].(*Str)
		chkOp(s, sub)
		if !s.sym && !sub.sym {
			return mkInt(int64(strings.LastIndex(s.s, sub.s)))
		}
		n := sub.len()
		for i := s.len() - n; i >= 0; i-- {
			if p.branch(p.strEq(s.slice(i, i+n), sub)) {
				return mkInt(int64(i))
			}
		}
		return mkInt(-1)
	})
	// Contains and friends as single terms (no forking)
	contains := func(p *Path, s, sub *Str) Value {
		chkOp(s, sub)
		if !s.sym && !sub.sym {
			return mkBool(strings.Contains(s.s, sub.s))
		}
		r := tFalse
		n := sub.len()
		for i := 0; i+n <= s.len(); i++ {
			r = p.ctx().Or(r, p.strEq(s.slice(i, i+n), sub))
		}
		return r
	}
	I("strings.Contains", func(p *Path, fr *frame, a []Value) Value { return contains(p, a[0].(*Str), a[1].(*Str)) })
	I("bytes.Contains", func(p *Path, fr *frame, a []Value) Value {
		return contains(p, bytesToStr(a[0].([]Value)), bytesToStr(a[1].([]Value)))
	})
	hasPrefix := func(p *Path, s, pre *Str) Value {
		chkOp(s, pre)
		if s.len() < pre.len() {
			return tFalse
		}
		return p.strEq(s.slice(0, pre.len()), pre)
	}
	hasSuffix := func(p *Path, s, suf *Str) Value {
		chkOp(s, suf)
		if s.len() < suf.len() {
			return tFalse
		}
		return p.strEq(s.slice(s.len()-suf.len(), s.len()), suf)
	}
	for _, n := range []string{"strings.HasPrefix", "internal/stringslite.HasPrefix"} {
		I(n, func(p *Path, fr *frame, a []Value) Value { return hasPrefix(p, a[0].(*Str), a[1].(*Str)) })
	}
	for _, n := range []string{"strings.HasSuffix", "internal/stringslite.HasSuffix"} {
		I(n, func(p *Path, fr *frame, a []Value) Value { return hasSuffix(p, a[0].(*Str), a[1].(*Str)) })
	}
	I("bytes.HasPrefix", func(p *Path, fr *frame, a []Value) Value {
		return hasPrefix(p, bytesToStr(a[0].([]Value)), bytesToStr(a[1].([]Value)))
	})
	I("bytes.HasSuffix", func(p *Path, fr *frame, a []Value) Value {
		return hasSuffix(p, bytesToStr(a[0].([]Value)), bytesToStr(a[1].([]Value)))
	})
	I("internal/bytealg.Equal", func(p *Path, fr *frame, a []Value) Value {
		return p.strEq(bytesToStr(a[0].([]Value)), bytesToStr(a[1].([]Value)))
	})
	I("bytes.Equal", func(p *Path, fr *frame, a []Value) Value {
		return p.strEq(bytesToStr(a[0].([]Value)), bytesToStr(a[1].([]Value)))
	})
	cmpStr := func(p *Path, a, b *Str) Value {
		c := p.ctx()
		return c.Ite(p.strLess(a, b, false), mkInt(-1), c.Ite(p.strEq(a, b), mkInt(0), mkInt(1)))
	}
	for _, n := range []string{"internal/bytealg.CompareString", "strings.Compare", "runtime.cmpstring"} {
		I(n, func(p *Path, fr *frame, a []Value) Value { return cmpStr(p, a[0].(*Str), a[1].(*Str)) })
	}
	for _, n := range []string{"internal/bytealg.Compare", "bytes.Compare"} {
		I(n, func(p *Path, fr *frame, a []Value) Value {
			return cmpStr(p, bytesToStr(a[0].([]Value)), bytesToStr(a[1].([]Value)))
		})
	}
	// cmp.Compare on scalars as one term
	intrinsics["cmp.Compare"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		t := fn.Signature.Params().At(0).Type()
		c := p.ctx()
		switch x := a[0].(type) {
		case *Str:
			return cmpStr(p, x, a[1].(*Str))
		case *Term:
			y := a[1].(*Term)
			if isFloat(t) {
				// NaN sorts below everything and equals itself
				xn, yn := c.FIsNaN(x), c.FIsNaN(y)
				lt := c.Or(c.And(xn, c.Not(yn)), c.FCmp(OFLt, x, y))
				gt := c.Or(c.And(yn, c.Not(xn)), c.FCmp(OFLt, y, x))
				return c.Ite(lt, mkInt(-1), c.Ite(gt, mkInt(1), mkInt(0)))
			}
			op := OULT
			if isSigned(t) {
				op = OSLT
			}
			return c.Ite(c.Bin(op, x, y), mkInt(-1), c.Ite(c.Eq(x, y), mkInt(0), mkInt(1)))
		}
		panic(abort{kind: "unsupported", why: "cmp.Compare"})
	}

	// --- math ---
	ident := func(p *Path, fr *frame, a []Value) Value { return a[0] }
	for _, n := range []string{"math.Float64bits", "math.Float64frombits", "math.Float32bits", "math.Float32frombits"} {
		I(n, ident)
	}
	fl1 := func(name string, f func(float64) float64) {
		I(name, func(p *Path, fr *frame, a []Value) Value {
			t := a[0].(*Term)
			panicIf(!t.isConst(), "symbolic "+name)
			return mkConst(64, math.Float64bits(f(math.Float64frombits(t.val))))
		})
	}
	fl1("math.Floor", math.Floor)
	fl1("math.Ceil", math.Ceil)
	fl1("math.Trunc", math.Trunc)
	fl1("math.Sqrt", math.Sqrt)
	fl1("math.Round", math.Round)
	fl1("math.Log", math.Log)
	fl1("math.Log10", math.Log10)
	fl1("math.Log2", math.Log2)
	fl1("math.Exp", math.Exp)
	fl2 := func(name string, f func(a, b float64) float64) {
		I(name, func(p *Path, fr *frame, a []Value) Value {
			x, y := a[0].(*Term), a[1].(*Term)
			panicIf(!x.isConst() || !y.isConst(), "symbolic "+name)
			return mkConst(64, math.Float64bits(f(math.Float64frombits(x.val), math.Float64frombits(y.val))))
		})
	}
	fl2("math.Pow", math.Pow)
	fl2("math.Mod", math.Mod)
	fl2("math.Max", math.Max)
	fl2("math.Min", math.Min)
	I("math.IsNaN", func(p *Path, fr *frame, a []Value) Value { return p.ctx().FIsNaN(a[0].(*Term)) })
	I("math.Abs", func(p *Path, fr *frame, a []Value) Value {
		return p.ctx().Bin(OBAnd, a[0].(*Term), mkConst(64, ^uint64(0)>>1))
	})
	bitsC := func(name string, w uint8, f func(uint64) int) {
		nm := "math/bits." + name
		I(nm, func(p *Path, fr *frame, a []Value) Value {
			t := a[0].(*Term)
			if t.isConst() {
				return mkInt(int64(f(t.val)))
			}
			// symbolic: build from bits
			c := p.ctx()
			switch {
			case strings.HasPrefix(name, "Len") || strings.HasPrefix(name, "LeadingZeros"):
				r := mkInt(0)
				for i := 0; i < int(t.w); i++ {
					r = c.Ite(c.Eq(c.Extract(t, uint8(i), 1), mkConst(1, 1)), mkInt(int64(i+1)), r)
				}
				if strings.HasPrefix(name, "LeadingZeros") {
					return c.Bin(OSub, mkInt(int64(t.w)), r)
				}
				return r
			case strings.HasPrefix(name, "TrailingZeros"):
				r := mkInt(int64(t.w))
				for i := int(t.w) - 1; i >= 0; i-- {
					r = c.Ite(c.Eq(c.Extract(t, uint8(i), 1), mkConst(1, 1)), mkInt(int64(i)), r)
				}
				return r
			}
			r := mkInt(0)
			for i := 0; i < int(t.w); i++ {
				r = c.Bin(OAdd, r, c.ZExt(c.Extract(t, uint8(i), 1), 64))
			}
			return r
		})
	}
	bitsC("Len64", 64, bits.Len64)
	bitsC("Len", 64, bits.Len64)
	bitsC("Len32", 32, bits.Len64)
	bitsC("Len16", 16, bits.Len64)
	bitsC("Len8", 8, bits.Len64)
	bitsC("LeadingZeros64", 64, bits.LeadingZeros64)
	bitsC("LeadingZeros", 64, bits.LeadingZeros64)
	bitsC("LeadingZeros32", 32, func(v uint64) int { return bits.LeadingZeros32(uint32(v)) })
	bitsC("TrailingZeros64", 64, bits.TrailingZeros64)
	bitsC("TrailingZeros", 64, bits.TrailingZeros64)
	bitsC("TrailingZeros32", 32, func(v uint64) int { return bits.TrailingZeros32(uint32(v)) })
	bitsC("OnesCount64", 64, bits.OnesCount64)
	bitsC("OnesCount", 64, bits.OnesCount64)
	bitsC("OnesCount32", 32, bits.OnesCount64)
	bitsC("OnesCount8", 8, bits.OnesCount64)
	I("math/bits.Mul64", func(p *Path, fr *frame, a []Value) Value {
		x, y := a[0].(*Term), a[1].(*Term)
		if x.isConst() && y.isConst() {
			h, l := bits.Mul64(x.val, y.val)
			return Tuple{mkConst(64, h), mkConst(64, l)}
		}
		panic(abort{kind: "unsupported", why: "symbolic bits.Mul64"})
	})

	// --- errors ---
	I("errors.Is", func(p *Path, fr *frame, a []Value) Value { return p.errorsIs(fr, a[0].(Iface), a[1].(Iface), 0) })
	I("errors.As", func(p *Path, fr *frame, a []Value) Value {
		return mkBool(p.errorsAs(fr, a[0].(Iface), a[1].(Iface), 0))
	})

	// --- sort/slices helpers using reflection ---
	I("internal/reflectlite.Swapper", func(p *Path, fr *frame, a []Value) Value {
		s := a[0].(Iface).v.([]Value)
		return &Closure{nat: func(p *Path, fr *frame, x []Value) Value {
			i, j := p.concInt(x[0]), p.concInt(x[1])
			t := copyVal(s[i])
			storeTo(&s[i], copyVal(s[j]))
			storeTo(&s[j], t)
			return nil
		}}
	})
	I("sort.Slice", func(p *Path, fr *frame, a []Value) Value { p.sortSlice(fr, a[0].(Iface), a[1], false); return nil })
	I("sort.SliceStable", func(p *Path, fr *frame, a []Value) Value { p.sortSlice(fr, a[0].(Iface), a[1], true); return nil })

	// --- time ---
	I("time.Now", func(p *Path, fr *frame, a []Value) Value {
		p.clock += 1000
		return p.mkTime(p.clock)
	})
	I("time.Since", func(p *Path, fr *frame, a []Value) Value {
		p.clock += 1000
		st := a[0].(Struct)
		return p.ctx().Bin(OSub, mkInt(p.clock), st[1].(*Term))
	})
	I("time.Sleep", func(p *Path, fr *frame, a []Value) Value {
		d := int64(p.concInt(a[0]))
		at := p.clock + d
		g := p.cur
		g.wakeAt = at
		p.block("sleep", func() bool { return p.clock >= at })
		g.wakeAt = 0
		return nil
	})
	I("time.After", func(p *Path, fr *frame, a []Value) Value {
		d := int64(p.concInt(a[0]))
		c := &Chan{cap: 1}
		p.timers = append(p.timers, &timer{at: p.clock + d, fire: func() { c.buf = append(c.buf, p.mkTime(p.clock)) }})
		return c
	})
	mkTimer := func(p *Path, d int64, c *Chan, period int64) *timer {
		t := &timer{at: p.clock + d}
		t.fire = func() {
			if len(c.buf) < 1 {
				c.buf = append(c.buf, p.mkTime(p.clock))
			}
			if period > 0 {
				t.dead = false
				t.at += period
			}
		}
		p.timers = append(p.timers, t)
		return t
	}
	newTimer := func(tick bool) intrinsic {
		return func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			d := int64(p.concInt(a[0]))
			c := &Chan{cap: 1}
			per := int64(0)
			if tick {
				per = d
			}
			t := mkTimer(p, d, c, per)
			cell := p.newCell(p.zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()))
			(*cell).(Struct)[0] = c
			m, _ := p.ext["tm"].(map[*Value]*timer)
			if m == nil {
				m = map[*Value]*timer{}
				p.ext["tm"] = m
			}
			m[cell] = t
			return cell
		}
	}
	intrinsics["time.NewTimer"] = newTimer(false)
	intrinsics["time.NewTicker"] = newTimer(true)
	I("time.AfterFunc", func(p *Path, fr *frame, a []Value) Value {
		panic(abort{kind: "unsupported", why: "time.AfterFunc"})
	})
	stopT := func(p *Path, fr *frame, a []Value) Value {
		m, _ := p.ext["tm"].(map[*Value]*timer)
		if t := m[a[0].(*Value)]; t != nil {
			was := !t.dead
			t.dead = true
			t.fire = func() {}
			return mkBool(was)
		}
		return tFalse
	}
	I("(*time.Timer).Stop", stopT)
	I("(*time.Ticker).Stop", func(p *Path, fr *frame, a []Value) Value { stopT(p, fr, a); return nil })
	I("(time.Time).Sub", func(p *Path, fr *frame, a []Value) Value {
		return p.ctx().Bin(OSub, a[0].(Struct)[1].(*Term), a[1].(Struct)[1].(*Term))
	})
	I("(time.Time).Add", func(p *Path, fr *frame, a []Value) Value {
		st := copyVal(a[0]).(Struct)
		st[1] = p.ctx().Bin(OAdd, st[1].(*Term), a[1].(*Term))
		return st
	})
	I("(time.Time).UnixNano", func(p *Path, fr *frame, a []Value) Value { return a[0].(Struct)[1] })
	I("(time.Time).After", func(p *Path, fr *frame, a []Value) Value {
		return p.ctx().Bin(OSLT, a[1].(Struct)[1].(*Term), a[0].(Struct)[1].(*Term))
	})
	I("(time.Time).Before", func(p *Path, fr *frame, a []Value) Value {
		return p.ctx().Bin(OSLT, a[0].(Struct)[1].(*Term), a[1].(Struct)[1].(*Term))
	})
	I("(time.Time).IsZero", func(p *Path, fr *frame, a []Value) Value {
		return p.ctx().Eq(a[0].(Struct)[1].(*Term), mkInt(0))
	})
	I("(time.Time).Format", func(p *Path, fr *frame, a []Value) Value { return &Str{s: "<time>", opaque: true} })
	I("(time.Duration).String", func(p *Path, fr *frame, a []Value) Value {
		t := a[0].(*Term)
		if t.isConst() {
			return strC(time.Duration(t.sval()).String())
		}
		return &Str{s: "<dur>", opaque: true}
	})

	// --- strconv on concrete values stays in SSA; quoting etc. opaque when symbolic ---
	// --- crypto: collision-free digest ---
	sum := func(name string, n int) func(p *Path, fr *frame, a []Value) Value {
		return func(p *Path, fr *frame, a []Value) Value {
			s := bytesToStr(a[0].([]Value))
			return Array(p.digest(name, s, n))
		}
	}
	I("crypto/sha1.Sum", sum("sha1", 20))
	I("crypto/sha256.Sum256", sum("sha256", 32))
	hashNew := func(name string, n, bs int) func(p *Path, fr *frame, a []Value) Value {
		return func(p *Path, fr *frame, a []Value) Value {
			st := emptyStr
			no := &NativeObj{name: name}
			no.meth = map[string]func(p *Path, fr *frame, args []Value) Value{
				"Write": func(p *Path, fr *frame, a []Value) Value {
					b := a[0].([]Value)
					st = strCat(st, bytesToStr(b))
					return Tuple{mkInt(int64(len(b))), Iface{}}
				},
				"Sum": func(p *Path, fr *frame, a []Value) Value {
					b, _ := a[0].([]Value)
					return p.appendVals(fr, b, p.digest(name, st, n), types.Typ[types.Uint8])
				},
				"Reset":     func(p *Path, fr *frame, a []Value) Value { st = emptyStr; return nil },
				"Size":      func(p *Path, fr *frame, a []Value) Value { return mkInt(int64(n)) },
				"BlockSize": func(p *Path, fr *frame, a []Value) Value { return mkInt(int64(bs)) },
			}
			return Iface{t: types.Typ[types.Invalid], v: no}
		}
	}
	I("crypto/sha1.New", hashNew("sha1", 20, 64))
	I("crypto/sha256.New", hashNew("sha256", 32, 64))
	// http.Error / context etc. are executed or stubbed by harnesses
}

func nil2(p *Path, fr *frame, a []Value) Value { return nil }

func onceDone(st Struct) bool {
	// sync.Once{_ noCopy; done atomic.Uint32/Bool; m Mutex}
	for _, f := range st {
		if s, ok := f.(Struct); ok {
			for _, x := range s {
				if t, ok := x.(*Term); ok && t.isConst() && t.val == 1 {
					return true
				}
			}
		}
		if t, ok := f.(*Term); ok && t.isConst() && t.val == 1 {
			return true
		}
	}
	return false
}
func setOnce(st Struct) {
	for _, f := range st {
		if s, ok := f.(Struct); ok {
			for i, x := range s {
				if t, ok := x.(*Term); ok {
					s[i] = mkConst(t.w, 1)
					return
				}
			}
		}
	}
	panic(abort{kind: "unsupported", why: "sync.Once layout"})
}

func intrFor(name string) func(p *Path, fr *frame, a []Value) Value {
	return func(p *Path, fr *frame, a []Value) Value { return intrinsics[name](p, fr, nil, a) }
}

func (p *Path) goSched() {
	g := p.cur
	var run []*Gor
	for _, x := range p.gors {
		if x != g && x.runnable() {
			run = append(run, x)
		}
	}
	if len(run) == 0 {
		return
	}
	i := 0
	if p.schedND {
		i = p.choose("gosched", len(run)+1)
		if i == len(run) {
			return
		}
	}
	p.switchTo(g, run[i], false)
}

func (p *Path) mkTime(ns int64) Value {
	t := p.zero(p.w.m.stdType("time", "Time")).(Struct)
	t[0] = mkConst(64, 0)
	t[1] = mkInt(ns)
	return t
}

func (p *Path) callMethod(fr *frame, i Iface, name string, args []Value) Value {
	if i.t == nil {
		p.rtPanic("invalid memory address or nil pointer dereference")
	}
	if no, ok := i.v.(*NativeObj); ok {
		return no.invoke(p, fr, name, args)
	}
	f := p.w.m.methodByName(i.t, nil, name)
	if f == nil {
		// unexported methods need the package
		panic(abort{kind: "unsupported", why: "method " + name + " on " + i.t.String()})
	}
	return p.callFn(fr, f, append([]Value{copyVal(i.v)}, args...), nil)
}

func (p *Path) hasMethod(t types.Type, name string) bool {
	return p.w.m.prog.MethodSets.MethodSet(t).Lookup(nil, name) != nil
}

func (p *Path) errorsIs(fr *frame, err, target Iface, d int) *Term {
	if err.t == nil || target.t == nil {
		return mkBool(err.t == nil && target.t == nil)
	}
	for n := 0; n < 50; n++ {
		if types.Comparable(target.t) && types.Identical(err.t, target.t) {
			if p.branch(p.eqVal(err.t, err.v, target.v)) {
				return tTrue
			}
		}
		if _, nat := err.v.(*NativeObj); nat {
			return tFalse
		}
		if p.hasMethod(err.t, "Is") {
			if r, ok := p.callMethod(fr, err, "Is", []Value{target}).(*Term); ok && p.branch(r) {
				return tTrue
			}
		}
		if !p.hasMethod(err.t, "Unwrap") {
			return tFalse
		}
		u := p.callMethod(fr, err, "Unwrap", nil)
		switch x := u.(type) {
		case Iface:
			if x.t == nil {
				return tFalse
			}
			err = x
		case []Value:
			for _, e := range x {
				if ei := e.(Iface); ei.t != nil && p.errorsIs(fr, ei, target, d+1).isTrue() {
					return tTrue
				}
			}
			return tFalse
		default:
			return tFalse
		}
	}
	return tFalse
}

func (p *Path) errorsAs(fr *frame, err, target Iface, d int) bool {
	if err.t == nil {
		return false
	}
	pt := target.t.Underlying().(*types.Pointer).Elem()
	cell := target.v.(*Value)
	for n := 0; n < 50; n++ {
		if it, ok := pt.Underlying().(*types.Interface); ok {
			if _, nat := err.v.(*NativeObj); !nat && types.Implements(err.t, it) {
				*cell = err
				return true
			}
		} else if types.Identical(err.t, pt) {
			storeTo(cell, copyVal(err.v))
			return true
		}
		if _, nat := err.v.(*NativeObj); nat {
			return false
		}
		if p.hasMethod(err.t, "As") {
			if r, ok := p.callMethod(fr, err, "As", []Value{target}).(*Term); ok && p.branch(r) {
				return true
			}
		}
		if !p.hasMethod(err.t, "Unwrap") {
			return false
		}
		switch x := p.callMethod(fr, err, "Unwrap", nil).(type) {
		case Iface:
			if x.t == nil {
				return false
			}
			err = x
		case []Value:
			for _, e := range x {
				if ei := e.(Iface); ei.t != nil && p.errorsAs(fr, ei, target, d+1) {
					return true
				}
			}
			return false
		}
	}
	return false
}

// sortSlice is an insertion sort through the user's less function: for a
// strict weak order the result is a sorted permutation (stable).
func (p *Path) sortSlice(fr *frame, x Iface, less Value, stable bool) {
	s := x.v.([]Value)
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			r := p.callClosure(fr, less, []Value{mkInt(int64(j)), mkInt(int64(j - 1))})
			if !p.branch(r.(*Term)) {
				break
			}
			t := copyVal(s[j])
			storeTo(&s[j], copyVal(s[j-1]))
			storeTo(&s[j-1], t)
		}
	}
}

// digest models a cryptographic hash as an injective function: the path forks
// on whether the input equals an earlier one; a new symbolic input gets a
// digest of its own.
func (p *Path) digest(name string, s *Str, n int) []Value {
	panicIf(s.opaque, "hash of opaque string")
	in := s.terms()
	var out []*Term
	apps := p.uf[name]
	for _, a := range apps {
		if len(a.in) != len(in) || !(a.sym || s.sym) && string(concBytes(a.in)) != s.s {
			continue
		}
		if p.branch(p.strEq(&Str{b: a.in, sym: true}, &Str{b: in, sym: true})) {
			out = a.out
			break
		}
	}
	if out == nil {
		if !s.sym {
			out = concDigest(name, s.s)
		} else {
			out = concDigest(name, fmt.Sprintf("symbolic input %d of this path", len(apps)))
		}
		p.uf[name] = append(apps, ufApp{in: in, out: out, sym: s.sym})
	}
	r := make([]Value, n)
	for i := range out {
		r[i] = out[i]
	}
	return r
}

func concBytes(ts []*Term) []byte {
	b := make([]byte, len(ts))
	for i, t := range ts {
		b[i] = byte(t.val)
	}
	return b
}
