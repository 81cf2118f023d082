package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Gor is an interpreted goroutine.  Exactly one runs at a time; control is
// handed over explicitly at synchronisation points, so the interleaving is a
// sequence of solver-visible choices.
type Gor struct {
	id     int
	wake   chan struct{}
	ready  func() bool // nil: runnable
	done   bool
	depth  int
	wakeAt int64
	what   string
	vc     []uint32
}

type timer struct {
	at   int64
	fire func()
	dead bool
}

func (p *Path) spawn(fr *frame, in *ssa.Go, fn Value, sf *ssa.Function, args []Value) {
	if p.inInit > 0 {
		panic(abort{kind: "unsupported", why: "goroutine during package initialisation"})
	}
	g := p.newGor()
	g.vc = append([]uint32(nil), p.cur.vc...)
	g.tick()
	p.cur.tick()
	p.gorWG.Add(1)
	go func() {
		defer p.gorWG.Done()
		<-g.wake
		if p.killed {
			return
		}
		var failure any
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(killed); ok {
						failure = killed{}
						return
					}
					failure = e
				}
			}()
			if sf != nil {
				p.callFn(nil, sf, args, nil)
			} else {
				p.callClosure(nil, fn, args)
			}
		}()
		if _, ok := failure.(killed); ok {
			return
		}
		g.done = true
		if failure != nil {
			// crash of a goroutine ends the program: hand over to main
			if _, ok := failure.(abort); !ok {
				if _, ok := failure.(goPanic); !ok {
					failure = wrapHost(failure)
				}
			}
			p.mainErr = failure
			p.cur = p.gors[0]
			p.gors[0].wake <- struct{}{}
			return
		}
		p.dispatch(g, true)
	}()
	p.yieldPoint(fr, in, "go")
}

func (p *Path) newGor() *Gor {
	g := &Gor{id: len(p.gors), wake: make(chan struct{})}
	p.gors = append(p.gors, g)
	return g
}

func (g *Gor) runnable() bool {
	return !g.done && (g.ready == nil || g.ready())
}

// dispatch gives control to some runnable goroutine.  exiting: g is finished.
func (p *Path) dispatch(g *Gor, exiting bool) {
	for {
		var run []*Gor
		for _, x := range p.gors {
			if x == g && exiting {
				continue
			}
			if x.runnable() {
				run = append(run, x)
			}
		}
		if len(run) > 0 {
			i := 0
			if len(run) > 1 {
				if p.schedND {
					ok := func() (ok bool) {
						// choose may abort the path (limits); deliver that to main
						defer func() {
							if e := recover(); e != nil {
								if !exiting {
									panic(e)
								}
								p.mainErr = e
								p.cur = p.gors[0]
								p.gors[0].wake <- struct{}{}
							}
						}()
						i = p.choose("sched", len(run))
						return true
					}()
					if !ok {
						return
					}
				} else {
					// round robin starting after g
					for k, x := range run {
						if x.id > g.id {
							i = k
							break
						}
					}
				}
			}
			t := run[i]
			if t == g {
				return
			}
			p.switchTo(g, t, exiting)
			return
		}
		// nobody can run: let virtual time pass
		if p.advanceTime() {
			continue
		}
		// deadlock
		e := deadlock{p.blockedDesc()}
		if exiting || g.id != 0 {
			p.mainErr = e
			p.cur = p.gors[0]
			p.gors[0].wake <- struct{}{}
			if exiting {
				return
			}
			<-g.wake
			panic(killed{})
		}
		panic(e)
	}
}

type deadlock struct{ desc string }

func (p *Path) blockedDesc() string {
	s := ""
	for _, g := range p.gors {
		if !g.done {
			s += fmt.Sprintf("g%d:%s ", g.id, g.what)
		}
	}
	return s
}

func (p *Path) advanceTime() bool {
	best := int64(-1)
	for _, t := range p.timers {
		if !t.dead && (best < 0 || t.at < best) {
			best = t.at
		}
	}
	for _, g := range p.gors {
		if !g.done && g.wakeAt > p.clock && (best < 0 || g.wakeAt < best) {
			best = g.wakeAt
		}
	}
	if best < 0 {
		return false
	}
	if best > p.clock {
		p.clock = best
	}
	p.fireTimers()
	return true
}

func (p *Path) fireTimers() {
	for _, t := range p.timers {
		if !t.dead && t.at <= p.clock {
			t.dead = true
			t.fire()
		}
	}
}

func (p *Path) switchTo(g, t *Gor, exiting bool) {
	p.cur = t
	t.wake <- struct{}{}
	if exiting {
		return
	}
	<-g.wake
	p.afterWake(g)
}

func (p *Path) afterWake(g *Gor) {
	if p.killed {
		panic(killed{})
	}
	if g.id == 0 && p.mainErr != nil {
		e := p.mainErr
		p.mainErr = nil
		panic(e)
	}
}

// block suspends the current goroutine until ready() holds.
func (p *Path) block(what string, ready func() bool) {
	g := p.cur
	for !ready() {
		g.ready = ready
		g.what = what
		p.dispatch(g, false)
	}
	g.ready = nil
	g.what = ""
}

// yieldPoint is a potential preemption.
func (p *Path) yieldPoint(fr *frame, in ssa.Instruction, what string) {
	if !p.schedND || p.preempt <= 0 || p.inInit > 0 {
		return
	}
	g := p.cur
	var run []*Gor
	for _, x := range p.gors {
		if x != g && x.runnable() {
			run = append(run, x)
		}
	}
	if len(run) == 0 {
		return
	}
	i := p.choose("preempt", len(run)+1)
	if i == 0 {
		return
	}
	p.preempt--
	if in != nil {
		p.sched = append(p.sched, SchedRec{G: g.id, Pos: p.posOf(in)})
	}
	p.switchTo(g, run[i-1], false)
}

func localAddr(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return !x.Heap
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return false
		}
	}
}

// memPoint is a potential preemption at a shared-memory access.
func (p *Path) memPoint(fr *frame, in ssa.Instruction, addr Value, write bool) {
	if len(p.gors) < 2 || p.preempt <= 0 {
		return
	}
	switch x := in.(type) {
	case *ssa.UnOp:
		if localAddr(x.X) {
			return
		}
	case *ssa.Store:
		if localAddr(x.Addr) {
			return
		}
	}
	p.yieldPoint(fr, in, "mem")
}

func (p *Path) killAll() {
	p.killed = true
	for _, g := range p.gors[1:] {
		if !g.done {
			g.done = true
			g.wake <- struct{}{}
		}
	}
	p.gorWG.Wait()
}

// ---- channels ----

func asChan(v Value) *Chan {
	c, ok := v.(*Chan)
	if !ok {
		panic(abort{kind: "unsupported", why: fmt.Sprintf("channel op on %T", v)})
	}
	return c
}

func (c *Chan) canRecv() bool { return len(c.buf) > 0 || c.closed || c.hasSender() }
func (c *Chan) hasSender() bool {
	for _, s := range c.sendq {
		if !s.done {
			return true
		}
	}
	return false
}

func (p *Path) chanSend(fr *frame, cv, v Value) {
	c := asChan(cv)
	p.yieldPoint(fr, fr.curIn, "send")
	if c == nil {
		p.block("send on nil chan", func() bool { return false })
	}
	if c.closed {
		p.rtPanicPlain("send on closed channel")
	}
	if c.cap > 0 {
		p.block("chan send", func() bool { return c.closed || len(c.buf) < c.cap })
		if c.closed {
			p.rtPanicPlain("send on closed channel")
		}
		c.buf = append(c.buf, copyVal(v))
		p.acqRel(hbKey{c, 0})
		return
	}
	r := &sendReq{v: copyVal(v)}
	c.sendq = append(c.sendq, r)
	p.rel(hbKey{c, 0})
	p.block("chan send", func() bool { return r.done || c.closed })
	p.acq(hbKey{c, 0})
	if !r.done {
		p.rtPanicPlain("send on closed channel")
	}
}

func (p *Path) chanTake(c *Chan) (Value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		return v, true
	}
	for i, s := range c.sendq {
		if !s.done {
			s.done = true
			c.sendq = c.sendq[i+1:]
			return s.v, true
		}
	}
	return nil, false
}

func (p *Path) chanRecv(fr *frame, cv Value, commaOk bool, ct types.Type) Value {
	c := asChan(cv)
	p.yieldPoint(fr, fr.curIn, "recv")
	if c == nil {
		p.block("recv on nil chan", func() bool { return false })
	}
	c.recvWait++
	p.block("chan recv", c.canRecv)
	c.recvWait--
	v, ok := p.chanTake(c)
	p.acqRel(hbKey{c, 0})
	if !ok {
		v = p.zero(ct.Underlying().(*types.Chan).Elem())
	}
	if commaOk {
		return Tuple{v, mkBool(ok)}
	}
	return v
}

func (p *Path) chanClose(fr *frame, cv Value) {
	c := asChan(cv)
	if c == nil {
		p.rtPanicPlain("close of nil channel")
	}
	if c.closed {
		p.rtPanicPlain("close of closed channel")
	}
	c.closed = true
	p.rel(hbKey{c, 0})
	p.yieldPoint(fr, fr.curIn, "close")
}

func (p *Path) selectOp(fr *frame, in *ssa.Select, ci *cinstr) Value {
	type st struct {
		c    *Chan
		send Value
		dir  types.ChanDir
	}
	var sts []st
	for i, s := range in.States {
		sts = append(sts, st{c: asChan(fr.get(&ci.ops[2*i])), send: fr.get(&ci.ops[2*i+1]), dir: s.Dir})
	}
	p.yieldPoint(fr, in, "select")
	ready := func() []int {
		var r []int
		for i, s := range sts {
			if s.c == nil {
				continue
			}
			if s.dir == types.SendOnly {
				if s.c.closed || (s.c.cap > 0 && len(s.c.buf) < s.c.cap) || (s.c.cap == 0 && s.c.recvWait > 0 && !s.c.hasSender()) {
					r = append(r, i)
				}
			} else if s.c.canRecv() {
				r = append(r, i)
			}
		}
		return r
	}
	rs := ready()
	idx := -1
	if len(rs) == 0 && in.Blocking {
		for _, s := range sts {
			if s.c != nil && s.dir != types.SendOnly {
				s.c.recvWait++
			}
		}
		p.block("select", func() bool { return len(ready()) > 0 })
		for _, s := range sts {
			if s.c != nil && s.dir != types.SendOnly {
				s.c.recvWait--
			}
		}
		rs = ready()
	}
	if len(rs) > 0 {
		k := 0
		if len(rs) > 1 && p.schedND {
			k = p.choose("select", len(rs))
		}
		idx = rs[k]
	}
	res := make(Tuple, 2)
	res[0] = mkInt(int64(idx))
	res[1] = tFalse
	tt := in.Type().(*types.Tuple)
	for i := 2; i < tt.Len(); i++ {
		res = append(res, p.zero(tt.At(i).Type()))
	}
	if idx >= 0 {
		s := sts[idx]
		if s.dir == types.SendOnly {
			if s.c.closed {
				p.rtPanicPlain("send on closed channel")
			}
			if s.c.cap > 0 {
				s.c.buf = append(s.c.buf, copyVal(s.send))
				p.acqRel(hbKey{s.c, 0})
			} else {
				p.rel(hbKey{s.c, 0})
				r := &sendReq{v: copyVal(s.send)}
				s.c.sendq = append(s.c.sendq, r)
				p.block("chan send", func() bool { return r.done || s.c.closed })
				p.acq(hbKey{s.c, 0})
			}
		} else {
			v, ok := p.chanTake(s.c)
			p.acqRel(hbKey{s.c, 0})
			k := 2
			for i, x := range in.States {
				if i == idx {
					break
				}
				if x.Dir != types.SendOnly {
					k++
				}
			}
			if ok {
				res[k] = v
			}
			res[1] = mkBool(ok)
		}
	}
	return res
}
