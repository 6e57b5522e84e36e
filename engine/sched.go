package main

import (
	"fmt"
	"go/types"
)

// Chan state is an immutable record stored in a trailed cell.
type Chan struct {
	cap int
	st  V // o=*chanState
	id  int
}

type waiter struct {
	tok *selTok
	idx int
	val V
}

type chanState struct {
	buf    []V
	recvq  []*waiter
	sendq  []*waiter
	closed bool
}

type selTok struct {
	st V // n=1 fired; o=*fireInfo
}

type fireInfo struct {
	idx    int
	val    V
	ok     bool
	closed bool // blocked sender on a channel that got closed
}

func (c *Chan) state() *chanState { return c.st.o.(*chanState) }

func (m *Mach) newChan(n int) *Chan {
	if n < 0 {
		m.rtPanic("makechan: size out of range")
	}
	m.nextObj++
	c := &Chan{cap: n, id: m.nextObj}
	c.st = V{o: &chanState{}}
	return c
}

func (m *Mach) setChan(c *Chan, s *chanState) { m.set(&c.st, V{o: s}) }

func popWaiter(q []*waiter) (*waiter, []*waiter) {
	for len(q) > 0 {
		w := q[0]
		q = q[1:]
		if w.tok.st.n == 0 {
			return w, q
		}
	}
	return nil, nil
}

func (m *Mach) fireTok(w *waiter, fi *fireInfo) {
	m.set(&w.tok.st, V{n: 1, o: fi})
}

func (m *Mach) block(what string, ready func() bool) {
	m.cur.ready = ready
	m.cur.what = what
}

// trySend attempts a non-blocking send.
func (m *Mach) trySend(c *Chan, v V) bool {
	s := c.state()
	if s.closed {
		m.rtPanicPlain("send on closed channel")
	}
	if w, q := popWaiter(s.recvq); w != nil {
		ns := *s
		ns.recvq = q
		m.setChan(c, &ns)
		m.fireTok(w, &fireInfo{idx: w.idx, val: v, ok: true})
		return true
	}
	if len(s.buf) < c.cap {
		ns := *s
		ns.buf = append(append([]V(nil), s.buf...), v)
		m.setChan(c, &ns)
		return true
	}
	return false
}

func (m *Mach) tryRecv(c *Chan, et *TypeInfo) (V, bool, bool) {
	s := c.state()
	if len(s.buf) > 0 {
		v := s.buf[0]
		ns := *s
		ns.buf = s.buf[1:]
		if w, q := popWaiter(s.sendq); w != nil {
			ns.sendq = q
			ns.buf = append(append([]V(nil), ns.buf...), w.val)
			m.setChan(c, &ns)
			m.fireTok(w, &fireInfo{idx: w.idx, ok: true})
		} else {
			m.setChan(c, &ns)
		}
		return v, true, true
	}
	if w, q := popWaiter(s.sendq); w != nil {
		ns := *s
		ns.sendq = q
		m.setChan(c, &ns)
		m.fireTok(w, &fireInfo{idx: w.idx, ok: true})
		return w.val, true, true
	}
	if s.closed {
		return zero(et), false, true
	}
	return V{}, false, false
}

func (m *Mach) takeTok() *fireInfo {
	g := m.cur
	if g.tok == nil {
		return nil
	}
	fi := g.tok.st.o.(*fireInfo)
	g.tok = nil
	return fi
}

// chanSend returns true when the send completed.
func (m *Mach) chanSend(cv V, v V) bool {
	if cv.o == nil {
		m.block("send on nil chan", func() bool { return false })
		return false
	}
	c := cv.o.(*Chan)
	if fi := m.takeTok(); fi != nil {
		if fi.closed {
			m.rtPanicPlain("send on closed channel")
		}
		return true
	}
	v = copyAgg(v)
	if m.trySend(c, v) {
		return true
	}
	tok := &selTok{}
	s := c.state()
	ns := *s
	ns.sendq = append(append([]*waiter(nil), s.sendq...), &waiter{tok: tok, val: v})
	m.setChan(c, &ns)
	m.cur.tok = tok
	m.block("chan send", func() bool { return tok.st.n != 0 })
	return false
}

func (m *Mach) chanRecv(cv V, et *TypeInfo) (V, bool, bool) {
	if cv.o == nil {
		m.block("receive on nil chan", func() bool { return false })
		return V{}, false, false
	}
	c := cv.o.(*Chan)
	if fi := m.takeTok(); fi != nil {
		if !fi.ok {
			return zero(et), false, true
		}
		return fi.val, true, true
	}
	if v, ok, done := m.tryRecv(c, et); done {
		return v, ok, true
	}
	tok := &selTok{}
	s := c.state()
	ns := *s
	ns.recvq = append(append([]*waiter(nil), s.recvq...), &waiter{tok: tok})
	m.setChan(c, &ns)
	m.cur.tok = tok
	m.block("chan receive", func() bool { return tok.st.n != 0 })
	return V{}, false, false
}

func (m *Mach) chanClose(cv V) {
	if cv.o == nil {
		m.rtPanicPlain("close of nil channel")
	}
	c := cv.o.(*Chan)
	s := c.state()
	if s.closed {
		m.rtPanicPlain("close of closed channel")
	}
	ns := *s
	ns.closed = true
	ns.recvq, ns.sendq = nil, nil
	m.setChan(c, &ns)
	for _, w := range s.recvq {
		if w.tok.st.n == 0 {
			m.fireTok(w, &fireInfo{idx: w.idx})
		}
	}
	for _, w := range s.sendq {
		if w.tok.st.n == 0 {
			m.fireTok(w, &fireInfo{idx: w.idx, closed: true})
		}
	}
}

func (m *Mach) rtPanicPlain(msg string) { panic(goPanic{m.rtErrPlain(msg)}) }

func (m *Mach) selResult(in *Instr, idx int, val V, ok bool) V {
	f := []V{mkInt(idx), mkBool(ok)}
	for i := range in.sel {
		if in.sel[i].dir == types.RecvOnly {
			if i == idx {
				f = append(f, val)
			} else {
				f = append(f, zero(in.sel[i].ti))
			}
		}
	}
	return V{o: &Agg{f: f}}
}

func (m *Mach) selectOp(fr *Frame, in *Instr) (V, bool) {
	if fi := m.takeTok(); fi != nil {
		if fi.closed {
			m.rtPanicPlain("send on closed channel")
		}
		v := fi.val
		if !fi.ok && in.sel[fi.idx].dir == types.RecvOnly {
			v = zero(in.sel[fi.idx].ti)
		}
		return m.selResult(in, fi.idx, v, fi.ok), true
	}
	var ready []int
	for i := range in.sel {
		cv := m.get(fr, &in.sel[i].ch)
		if cv.o == nil {
			continue
		}
		c := cv.o.(*Chan)
		s := c.state()
		if in.sel[i].dir == types.SendOnly {
			w, _ := popWaiter(s.recvq)
			if s.closed || w != nil || len(s.buf) < c.cap {
				ready = append(ready, i)
			}
		} else {
			w, _ := popWaiter(s.sendq)
			if s.closed || w != nil || len(s.buf) > 0 {
				ready = append(ready, i)
			}
		}
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 && m.exploreSched && m.preempts < m.preemptBound {
			if k = m.choose(len(ready), "select"); k != 0 {
				m.preempts++
			}
		}
		i := ready[k]
		c := m.get(fr, &in.sel[i].ch).o.(*Chan)
		if in.sel[i].dir == types.SendOnly {
			m.trySend(c, copyAgg(m.get(fr, &in.sel[i].val)))
			return m.selResult(in, i, V{}, false), true
		}
		v, ok, _ := m.tryRecv(c, in.sel[i].ti)
		return m.selResult(in, i, v, ok), true
	}
	if !in.ok { // has default
		return m.selResult(in, -1, V{}, false), true
	}
	tok := &selTok{}
	n := 0
	for i := range in.sel {
		cv := m.get(fr, &in.sel[i].ch)
		if cv.o == nil {
			continue
		}
		n++
		c := cv.o.(*Chan)
		ns := *c.state()
		if in.sel[i].dir == types.SendOnly {
			ns.sendq = append(append([]*waiter(nil), ns.sendq...), &waiter{tok: tok, idx: i, val: copyAgg(m.get(fr, &in.sel[i].val))})
		} else {
			ns.recvq = append(append([]*waiter(nil), ns.recvq...), &waiter{tok: tok, idx: i})
		}
		m.setChan(c, &ns)
	}
	m.cur.tok = tok
	m.block("select", func() bool { return tok.st.n != 0 })
	return V{}, false
}

// ---- goroutines ----

func (m *Mach) spawn(fr *Frame, ci *CallInfo) {
	fv, args := m.prepCall(fr, ci)
	if ci.mode == 1 && fv.o == nil {
		m.rtPanicPlain("go of nil func value")
	}
	cur := m.cur
	m.nextG++
	ng := &G{id: m.nextG}
	m.gs = append(append([]*G(nil), m.gs...), ng)
	m.cur = ng
	m.enterCall(ci, fv, args, 3, false)
	m.cur = cur
}

func (m *Mach) beginStep() {
	m.instrTrail = len(m.trail)
	m.instrPC = len(m.pcs)
	m.instrDecs = m.instrDecs[:0]
}

func (m *Mach) runnable(except *G) []*G {
	var r []*G
	start := 0
	for i, g := range m.gs {
		if g == m.cur {
			start = i + 1
		}
	}
	n := len(m.gs)
	for k := 0; k < n; k++ {
		g := m.gs[(start+k)%n]
		if g == except || g.done {
			continue
		}
		if g.ready == nil || g.ready() {
			r = append(r, g)
		}
	}
	return r
}

// schedPoint may preempt the current goroutine; returns true when it switched.
func (m *Mach) schedPoint() bool {
	if m.initDepth > 0 || len(m.gs) < 2 || m.preempts >= m.preemptBound {
		return false
	}
	g := m.cur
	rs := m.runnable(g)
	if len(rs) == 0 {
		return false
	}
	k := m.choose(len(rs)+1, "schedule")
	g.asked = true
	if k == 0 {
		return false
	}
	m.preempts++
	m.cur = rs[k-1]
	return true
}

// pickNext selects another goroutine when the current one cannot continue.
func (m *Mach) pickNext() {
	for {
		rs := m.runnable(nil)
		if len(rs) > 0 {
			k := 0
			if m.exploreSched && len(rs) > 1 && m.preempts < m.preemptBound {
				m.beginStep()
				if k = m.choose(len(rs), "schedule"); k != 0 {
					m.preempts++
				}
			}
			m.cur = rs[k]
			m.cur.ready = nil
			return
		}
		// fire the earliest timer
		var best *Timer
		for _, t := range m.timers {
			if best == nil || t.when < best.when || t.when == best.when && t.seq < best.seq {
				best = t
			}
		}
		if best == nil {
			s := ""
			for _, g := range m.gs {
				if !g.done && g.ready != nil {
					s += fmt.Sprintf("[g%d %s]", g.id, g.what)
				}
			}
			panic(pathEnd{"deadlock", "all goroutines are blocked " + s + " main at " + m.mainWhere()})
		}
		m.delTimer(best)
		if best.when > m.clock {
			m.clock = best.when
		}
		best.fire(m)
	}
}

func (m *Mach) mainWhere() string {
	c := m.cur
	m.cur = m.gs[0]
	s := m.where()
	m.cur = c
	return s
}

func (m *Mach) addTimer(d int64, fire func(m *Mach)) *Timer {
	m.tseq++
	if d < 0 {
		d = 0
	}
	t := &Timer{when: m.clock + d, fire: fire, seq: m.tseq}
	m.timers = append(append([]*Timer(nil), m.timers...), t)
	return t
}

func (m *Mach) delTimer(t *Timer) bool {
	for i, x := range m.timers {
		if x == t {
			n := append([]*Timer(nil), m.timers[:i]...)
			m.timers = append(n, m.timers[i+1:]...)
			return true
		}
	}
	return false
}

// spawnClosure starts a goroutine running closure c with args (used by timers).
func (m *Mach) spawnClosure(c V, args []V) {
	cur := m.cur
	m.nextG++
	ng := &G{id: m.nextG}
	m.gs = append(append([]*G(nil), m.gs...), ng)
	m.cur = ng
	cl := c.o.(*Closure)
	m.callFn(cl.fn, args, cl.env, 3, false)
	m.cur = cur
}
