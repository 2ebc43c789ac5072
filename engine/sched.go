package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Interpreted goroutines run one at a time, handing over a baton at blocking operations.

type gor struct {
	id   int
	wake chan struct{}
	name string
	dead bool
}

type killed struct{}

type scheduler struct {
	in       *Interp
	main     *gor
	all      []*gor
	runnable []*gor
	fatal    interface{}
	killing  bool
	preempt  int
}

func (s *scheduler) init(in *Interp, main *gor) {
	s.in = in
	s.main = main
	main.wake = make(chan struct{}, 1)
	s.all = []*gor{main}
}

// switchTo hands the baton to g and waits for it to come back.
func (s *scheduler) switchTo(self, g *gor) {
	if g == self {
		return
	}
	g.wake <- struct{}{}
	<-self.wake
	s.resumed(self)
}

func (s *scheduler) resumed(self *gor) {
	if s.killing && self != s.main {
		panic(killed{})
	}
	if self == s.main && s.fatal != nil {
		f := s.fatal
		s.fatal = nil
		panic(f)
	}
}

func (s *scheduler) pick() *gor {
	if len(s.runnable) == 0 {
		return nil
	}
	k := 0
	if s.in.hn.Sched && len(s.runnable) > 1 {
		k = s.in.p.choose(len(s.runnable))
	}
	g := s.runnable[k]
	s.runnable = append(s.runnable[:k:k], s.runnable[k+1:]...)
	return g
}

// block suspends self until another goroutine makes it runnable.
func (s *scheduler) block(self *gor, what string) {
	g := s.pick()
	if g == nil {
		s.in.p.report("deadlock", "deadlock", "all goroutines are asleep: "+what, nil)
		panic(pathEnd{"violation", "deadlock"})
	}
	s.switchTo(self, g)
}

func (s *scheduler) ready(g *gor) { s.runnable = append(s.runnable, g) }

// yield is a possible preemption point.
func (s *scheduler) yield(self *gor) {
	if !s.in.hn.Sched || len(s.runnable) == 0 || s.preempt >= s.in.hn.Preempt {
		return
	}
	k := s.in.p.choose(len(s.runnable) + 1)
	if k == 0 {
		return
	}
	s.preempt++
	g := s.runnable[k-1]
	s.runnable = append(s.runnable[:k-1:k-1], s.runnable[k:]...)
	s.ready(self)
	s.switchTo(self, g)
}

func (in *Interp) spawn(fr *frame, fn value, args []value) {
	s := &in.sched
	g := &gor{id: len(s.all), wake: make(chan struct{}, 1)}
	s.all = append(s.all, g)
	s.ready(g)
	go func() {
		<-g.wake
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			g.dead = true
			if _, ok := r.(killed); ok || s.killing {
				s.main.wake <- struct{}{}
				return
			}
			s.fatal = r
			s.main.wake <- struct{}{}
		}()
		if s.killing {
			panic(killed{})
		}
		gfr := &frame{in: in, fi: &fnInfo{name: "go"}, g: g}
		in.call(gfr, fn, args)
		// finished: pass the baton on
		nx := s.pick()
		if nx == nil {
			in.p.report("deadlock", "deadlock", "all goroutines are asleep", nil)
			panic(pathEnd{"violation", "deadlock"})
		}
		g.dead = true
		nx.wake <- struct{}{}
	}()
	s.yield(fr.g)
}

func (s *scheduler) killAll() {
	if s.main == nil {
		return
	}
	s.killing = true
	for _, g := range s.all {
		if g == s.main || g.dead {
			continue
		}
		// drain a stale wake-up of main
		select {
		case <-s.main.wake:
		default:
		}
		g.wake <- struct{}{}
		<-s.main.wake
	}
}

// ---------------------------------------------------------------- channels

type chanV struct {
	buf    []value
	cap    int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

type waiter struct {
	g    *gor
	val  value
	ok   bool
	done *bool // shared by the cases of one select
	idx  int
	res  *int
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !*w.done {
			return w
		}
	}
	return nil
}

func peekWaiter(q *[]*waiter) bool {
	for len(*q) > 0 {
		if !*(*q)[0].done {
			return true
		}
		*q = (*q)[1:]
	}
	return false
}

func (in *Interp) wakeWaiter(w *waiter) {
	*w.done = true
	if w.res != nil {
		*w.res = w.idx
	}
	in.sched.ready(w.g)
}

// trySend returns true when the send completed.
func (in *Interp) trySend(c *chanV, v value) bool {
	if c.closed {
		in.goPanic("send on closed channel")
	}
	if w := popWaiter(&c.recvq); w != nil {
		w.val, w.ok = v, true
		in.wakeWaiter(w)
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func (in *Interp) tryRecv(c *chanV) (value, bool, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		if w := popWaiter(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			in.wakeWaiter(w)
		}
		return v, true, true
	}
	if w := popWaiter(&c.sendq); w != nil {
		v := w.val
		in.wakeWaiter(w)
		return v, true, true
	}
	if c.closed {
		return nil, false, true
	}
	return nil, false, false
}

func (in *Interp) chanSend(fr *frame, c *chanV, v value) {
	if c == nil {
		in.sched.block(fr.g, "send on nil channel")
	}
	if in.trySend(c, v) {
		in.sched.yield(fr.g)
		return
	}
	done := false
	w := &waiter{g: fr.g, val: v, done: &done}
	c.sendq = append(c.sendq, w)
	in.sched.block(fr.g, "channel send")
	if !w.ok && c.closed && w.res == nil && !done {
		in.goPanic("send on closed channel")
	}
}

func (in *Interp) chanRecv(fr *frame, c *chanV) (value, bool) {
	if c == nil {
		in.sched.block(fr.g, "receive from nil channel")
	}
	if v, ok, done := in.tryRecv(c); done {
		in.sched.yield(fr.g)
		return v, ok
	}
	done := false
	w := &waiter{g: fr.g, done: &done}
	c.recvq = append(c.recvq, w)
	in.sched.block(fr.g, "channel receive")
	return w.val, w.ok
}

func (in *Interp) chanClose(fr *frame, c *chanV) {
	if c == nil {
		in.goPanic("close of nil channel")
	}
	if c.closed {
		in.goPanic("close of closed channel")
	}
	c.closed = true
	for {
		w := popWaiter(&c.recvq)
		if w == nil {
			break
		}
		w.val, w.ok = nil, false
		in.wakeWaiter(w)
	}
	for {
		w := popWaiter(&c.sendq)
		if w == nil {
			break
		}
		// the blocked sender panics
		in.sched.ready(w.g)
		*w.done = false
	}
	in.sched.yield(fr.g)
}

func (c *compiler) selectInstr(x *ssa.Select, reg int) step {
	type st struct {
		send bool
		ch   opnd
		v    opnd
		et   types.Type
	}
	var sts []st
	for _, s := range x.States {
		q := st{send: s.Dir == types.SendOnly, ch: c.op(s.Chan), et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if q.send {
			q.v = c.op(s.Send)
		}
		sts = append(sts, q)
	}
	blocking := x.Blocking
	return func(in *Interp, fr *frame) {
		var chans []*chanV
		var ready []int
		for i := range sts {
			ch := fr.get(&sts[i].ch).(*chanV)
			chans = append(chans, ch)
			if ch == nil {
				continue
			}
			if sts[i].send {
				if ch.closed || len(ch.buf) < ch.cap || peekWaiter(&ch.recvq) {
					ready = append(ready, i)
				}
			} else if len(ch.buf) > 0 || ch.closed || peekWaiter(&ch.sendq) {
				ready = append(ready, i)
			}
		}
		var idx int
		var rv value
		var rok bool
		if len(ready) > 0 {
			k := 0
			if len(ready) > 1 {
				k = in.p.choose(len(ready))
			}
			idx = ready[k]
			if sts[idx].send {
				in.trySend(chans[idx], copyVal(fr.get(&sts[idx].v)))
			} else {
				rv, rok, _ = in.tryRecv(chans[idx])
			}
		} else if !blocking {
			idx = -1
		} else {
			done := false
			res := -1
			ws := make([]*waiter, len(sts))
			for i := range sts {
				if chans[i] == nil {
					continue
				}
				w := &waiter{g: fr.g, done: &done, idx: i, res: &res}
				ws[i] = w
				if sts[i].send {
					w.val = copyVal(fr.get(&sts[i].v))
					chans[i].sendq = append(chans[i].sendq, w)
				} else {
					chans[i].recvq = append(chans[i].recvq, w)
				}
			}
			in.sched.block(fr.g, "select")
			if res < 0 {
				in.goPanic("send on closed channel")
			}
			idx = res
			if !sts[idx].send {
				rv, rok = ws[idx].val, ws[idx].ok
			}
		}
		r := tuple{int64(idx), rok}
		for i := range sts {
			if sts[i].send {
				continue
			}
			if i == idx && rok {
				r = append(r, rv)
			} else {
				r = append(r, zero(sts[i].et))
			}
		}
		fr.regs[reg] = r
		in.sched.yield(fr.g)
	}
}

// ---------------------------------------------------------------- sync

type mutexObj struct {
	locked bool
	wait   []*gor
}

type wgObj struct {
	n    int64
	wait []*gor
}

func (in *Interp) native(p *value, kind string, mk func() interface{}) interface{} {
	o := in.natives[p]
	if o == nil {
		o = &opaque{kind: kind, data: mk()}
		in.natives[p] = o
	}
	return o.data
}

func (in *Interp) lock(fr *frame, p *value) {
	m := in.native(p, "mutex", func() interface{} { return &mutexObj{} }).(*mutexObj)
	for m.locked {
		m.wait = append(m.wait, fr.g)
		in.sched.block(fr.g, "mutex")
	}
	m.locked = true
	in.sched.yield(fr.g)
}

func (in *Interp) unlock(fr *frame, p *value) {
	m := in.native(p, "mutex", func() interface{} { return &mutexObj{} }).(*mutexObj)
	if !m.locked {
		in.p.report("exit", "unlock", "fatal error: sync: unlock of unlocked mutex", nil)
		panic(pathEnd{"violation", "unlock"})
	}
	m.locked = false
	for _, g := range m.wait {
		in.sched.ready(g)
	}
	m.wait = nil
	in.sched.yield(fr.g)
}

var _ = fmt.Sprint
var _ = strings.Join
