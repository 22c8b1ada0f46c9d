package main

// Goroutines as coroutines: exactly one runs; switches happen at synchronisation points. With Sched on, the choice of
// the next goroutine is a symbolic variable, which differs from the default (go on, or the next in turn when blocked) a
// bounded number of times; otherwise a goroutine runs until it blocks.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type waiter struct {
	v    Val
	done bool
	ok   bool
}

func (in *Interp) runnable() []*G {
	var out []*G
	for _, g := range in.gs {
		if g.done {
			continue
		}
		if g.blocked == nil || g.blocked() {
			out = append(out, g)
		}
	}
	return out
}

// park switches to another goroutine until block() is true for this one (nil: just a preemption point).
func (in *Interp) park(block func() bool) {
	me := in.cur
	me.blocked = block
	c := in.runnable()
	if len(c) == 0 {
		in.violate(in.model, "deadlock: every goroutine is blocked", "deadlock")
		panic(pathEnd{"violation"})
	}
	meRun := block == nil || block()
	// The default: go on if possible, else the next goroutine in turn
	next := c[0]
	if meRun {
		next = me
	} else {
		for _, g := range c {
			if g.id > me.id {
				next = g
				break
			}
		}
	}
	in.switchTo(me, in.deviate(next, c))
}

// deviate lets another goroutine than the default one run, a bounded number of times (delay-bounded scheduling).
func (in *Interp) deviate(next *G, c []*G) *G {
	if !in.opt.Sched || in.preempt >= in.opt.MaxPreempt || len(c) == 1 {
		return next
	}
	o := []*G{next}
	for _, g := range c {
		if g != next {
			o = append(o, g)
		}
	}
	k := in.choose("sched", len(o))
	if k != 0 {
		in.preempt++
	}
	return o[k]
}
func (in *Interp) switchTo(me, next *G) {
	if next == me {
		me.blocked = nil
		return
	}
	in.cur = next
	next.wake <- struct{}{}
	<-me.wake
	if in.killed {
		panic(killSignal{})
	}
	if in.async != nil {
		panic(in.async)
	}
	me.blocked = nil
	in.cur = me
}

func (in *Interp) syncPoint() {
	if in.opt.Sched && len(in.gs) > 1 {
		in.park(nil)
	}
}

func (in *Interp) spawn(f Val, args []Val) {
	g := &G{id: len(in.gs), wake: make(chan struct{}, 1)}
	in.gs = append(in.gs, g)
	in.gwg.Add(1)
	go func() {
		defer in.gwg.Done()
		<-g.wake
		if in.killed {
			g.done = true
			return
		}
		var r any
		func() {
			defer func() { r = recover() }()
			in.cur = g
			g.blocked = nil
			in.callValue(nil, f, args, nil)
		}()
		g.done = true
		if _, ok := r.(killSignal); ok || in.killed {
			return
		}
		if r == nil {
			r2 := func() (r2 any) {
				defer func() { r2 = recover() }()
				c := in.runnable()
				if len(c) == 0 {
					in.violate(in.model, "deadlock: every goroutine is blocked", "deadlock")
					panic(pathEnd{"violation"})
				}
				next := in.deviate(c[0], c)
				in.cur = next
				next.wake <- struct{}{}
				return nil
			}()
			r = r2
		}
		if r != nil {
			// deliver to the main goroutine
			if gp, ok := r.(*goPanic); ok && len(gp.stack) == 0 {
				gp.stack = []string{"goroutine"}
			}
			in.async = r
			m := in.gs[0]
			in.cur = m
			select {
			case m.wake <- struct{}{}:
			default:
			}
		}
	}()
	in.syncPoint()
}

// ---------- channels

func (in *Interp) chanOf(v Val) *ChanV {
	c, _ := v.P.(*ChanV)
	if c == nil {
		in.park(func() bool { return false })
	}
	return c
}

func (in *Interp) chanSend(cv, v Val) {
	in.syncPoint()
	c := in.chanOf(cv)
	if c.closed {
		in.rtPanic("send on closed channel")
	}
	v = copyVal(v)
	if c.cap > 0 {
		in.waitFor(func() bool { return len(c.buf) < c.cap || c.closed })
		if c.closed {
			in.rtPanic("send on closed channel")
		}
		c.buf = append(c.buf, v)
		return
	}
	if len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		w.v, w.ok, w.done = v, true, true
		return
	}
	w := &waiter{v: v}
	c.sendq = append(c.sendq, w)
	in.waitFor(func() bool { return w.done || c.closed })
	if !w.done {
		in.rtPanic("send on closed channel")
	}
}

func (in *Interp) waitFor(cond func() bool) {
	if !cond() {
		in.park(cond)
	}
}

func (in *Interp) chanRecv(cv Val, et types.Type) (Val, bool) {
	in.syncPoint()
	c := in.chanOf(cv)
	if c.cap > 0 {
		in.waitFor(func() bool { return len(c.buf) > 0 || c.closed })
		if len(c.buf) > 0 {
			v := c.buf[0]
			c.buf = c.buf[1:]
			return v, true
		}
		return zero(et), false
	}
	if len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		w.done = true
		return w.v, true
	}
	if c.closed {
		return zero(et), false
	}
	w := &waiter{}
	c.recvq = append(c.recvq, w)
	in.waitFor(func() bool { return w.done || c.closed })
	if w.done {
		return w.v, w.ok
	}
	return zero(et), false
}

func (in *Interp) chanClose(cv Val) {
	in.syncPoint()
	c, _ := cv.P.(*ChanV)
	if c == nil {
		in.rtPanic("close of nil channel")
	}
	if c.closed {
		in.rtPanic("close of closed channel")
	}
	c.closed = true
}

func (in *Interp) selectOp(x *ssa.Select, ci *cinstr, get func(*opnd) Val) Val {
	panic(unsupported("select statement"))
}

// ---------- sync package

type mutexState struct {
	locked  bool
	readers int
}
type wgState struct{ n int64 }
type condState struct {
	seq   int
	wakes []*bool
}

func (in *Interp) side(key any, mk func() any) any {
	s, ok := in.sideTab[key]
	if !ok {
		s = mk()
		in.sideTab[key] = s
	}
	return s
}
func (in *Interp) mutex(v Val) *mutexState {
	if v.P == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	return in.side(v.P, func() any { return &mutexState{} }).(*mutexState)
}
func (in *Interp) lock(v Val) {
	in.syncPoint()
	m := in.mutex(v)
	in.waitFor(func() bool { return !m.locked && m.readers == 0 })
	m.locked = true
}
func (in *Interp) unlock(v Val) {
	m := in.mutex(v)
	if !m.locked {
		in.rtPanic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	in.syncPoint()
}
