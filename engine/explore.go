package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Job struct{ prefix []int64 }

type InputVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	S    string `json:"s"` // hex for strings, decimal otherwise
}

type Violation struct {
	Kind    string     `json:"kind"`
	Msg     string     `json:"msg"`
	Inputs  []InputVal `json:"inputs"`
	Harness string     `json:"harness"`
	Trace   string     `json:"trace,omitempty"`
	Sched   bool       `json:"sched,omitempty"`
	Native  string     `json:"native,omitempty"` // confirmed, not-reproduced, error
	NativeOut string   `json:"native_out,omitempty"`
	Params  map[string]int `json:"params,omitempty"`
}

type Sample struct {
	Inputs []InputVal `json:"inputs"`
	Obs    []string   `json:"obs"`
	NonNative bool    `json:"non_native"`
}

type Result struct {
	mu        sync.Mutex
	paths     map[string]int
	viol      map[string][]*Violation
	violN     map[string]int
	asserts   int64
	assertConst int64
	assertSolver int64
	cover     map[string]int
	samples   []*Sample
	sampleSeen int
	engErrs   map[string]int
	bounds    map[string]int
	queries, sat, unsat, unknown int
	solverDur time.Duration
	choices   int64
	steps     int64
	unknownDecs int64
	bitsetDecs int64
	solverDecs int64
	crossChecked, crossBad int
	spurious int
	incomplete bool
	stateTrans int64
	inputs map[string]int
}

func newResult() *Result {
	return &Result{paths: map[string]int{}, viol: map[string][]*Violation{}, violN: map[string]int{}, cover: map[string]int{}, engErrs: map[string]int{}, bounds: map[string]int{}, inputs: map[string]int{}}
}

func (r *Result) bound(s string) {
	r.mu.Lock()
	r.bounds[s]++
	r.mu.Unlock()
}

type Explorer struct {
	p       *Prog
	entry   *Func
	name    string
	params  map[string]int
	mu      sync.Mutex
	cond    *sync.Cond
	queue   []*Job
	active  int
	idle    int32
	qlen    int32
	stopped bool
	deadline time.Time
	res     *Result
	nworkers int
	maxSamples int
	maxPaths int64
	npaths  int64
	solverPath string
	solverTimeout int
	maxSteps int64
	maxViol  int
	nviol int64
	progress bool
}

type Worker struct {
	ex *Explorer
	id int
	m  *Mach
}

func (ex *Explorer) next() *Job {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stopped {
			return nil
		}
		if n := len(ex.queue); n > 0 {
			j := ex.queue[n-1]
			ex.queue = ex.queue[:n-1]
			atomic.StoreInt32(&ex.qlen, int32(n-1))
			ex.active++
			return j
		}
		if ex.active == 0 {
			ex.cond.Broadcast()
			return nil
		}
		atomic.AddInt32(&ex.idle, 1)
		ex.cond.Wait()
		atomic.AddInt32(&ex.idle, -1)
	}
}

func (ex *Explorer) finish() {
	ex.mu.Lock()
	ex.active--
	ex.cond.Broadcast()
	ex.mu.Unlock()
}

func (ex *Explorer) push(j *Job) {
	ex.mu.Lock()
	ex.queue = append(ex.queue, j)
	atomic.StoreInt32(&ex.qlen, int32(len(ex.queue)))
	ex.cond.Signal()
	ex.mu.Unlock()
}

func (ex *Explorer) stop() {
	ex.mu.Lock()
	ex.stopped = true
	ex.cond.Broadcast()
	ex.mu.Unlock()
}

func (ex *Explorer) run() {
	ex.cond = sync.NewCond(&ex.mu)
	ex.queue = []*Job{{}}
	ex.qlen = 1
	var wg sync.WaitGroup
	for i := 0; i < ex.nworkers; i++ {
		w := &Worker{ex: ex, id: i}
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.run()
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	t := time.NewTicker(250 * time.Millisecond)
	defer t.Stop()
	last := time.Now()
	for {
		select {
		case <-done:
			return
		case <-t.C:
			if ex.progress && time.Since(last) > 5*time.Second {
				last = time.Now()
				ex.res.mu.Lock()
				logf("  .. %s paths=%v cands=%v engerr=%d\n", ex.name, ex.res.paths, ex.res.violN, len(ex.res.engErrs))
				ex.res.mu.Unlock()
			}
		}
	}
}

func (w *Worker) run() {
	ex := w.ex
	for {
		j := ex.next()
		if j == nil {
			break
		}
		if w.m == nil {
			w.m = newMach(ex.p, w)
			w.m.sol = newSolver(ex.solverPath, []string{"-in"}, ex.solverTimeout)
			w.m.res = ex.res
			if ex.maxSteps > 0 {
				w.m.maxSteps = ex.maxSteps
			}
		}
		w.runJob(j)
		ex.finish()
	}
	if w.m != nil {
		s := w.m.sol
		r := ex.res
		r.mu.Lock()
		r.queries += s.queries
		r.sat += s.sat
		r.unsat += s.unsat
		r.unknown += s.unknown
		r.solverDur += s.dur
		r.steps += w.m.totalSteps
		for _, e := range s.errs {
			r.bounds["solver answered "+e]++
		}
		r.mu.Unlock()
		s.close()
	}
}

func (w *Worker) runJob(j *Job) {
	m := w.m
	ex := w.ex
	m.resetJob(j)
	for {
		end := m.runPath()
		m.totalSteps += m.steps - m.stepBase
		m.stepBase = m.steps
		m.recordEnd(end)
		if end.kind == "internal" {
			// machine state may be inconsistent: rebuild
			w.m.sol.close()
			w.m = newMach(ex.p, w)
			nm := w.m
			nm.sol = m.sol
			nm.sol.restart()
			nm.ts = m.ts
			nm.varByName = m.varByName
			nm.res = m.res
			nm.maxSteps = m.maxSteps
			// remaining alternatives of the broken machine become jobs
			for _, c := range m.choices {
				for _, a := range c.alts {
					ex.push(&Job{append(append([]int64(nil), m.path[:c.pathLen]...), a)})
				}
			}
			return
		}
		if time.Now().After(ex.deadline) || atomic.LoadInt64(&ex.npaths) >= ex.maxPaths && ex.maxPaths > 0 {
			if len(m.choices) > 0 || atomic.LoadInt32(&ex.qlen) > 0 {
				ex.res.mu.Lock()
				ex.res.incomplete = true
				ex.res.mu.Unlock()
			}
			ex.stop()
			return
		}
		if atomic.LoadInt64(&ex.nviol) >= int64(ex.maxViol) {
			ex.res.mu.Lock()
			ex.res.incomplete = true
			ex.res.mu.Unlock()
			ex.stop()
			return
		}
		if !m.backtrack() {
			return
		}
	}
}

func (m *Mach) resetJob(j *Job) {
	m.rollback(0)
	m.truncPC(0)
	m.choices = nil
	m.path = nil
	m.jobPrefix = j.prefix
	m.modelOK = len(m.pcs) == 0 && len(j.prefix) == 0
	m.model = nil
	m.forced, m.fpos = nil, 0
	m.steps, m.stepBase = 0, 0
	m.obs, m.events, m.inputs, m.hashTab, m.pathCov = nil, nil, nil, nil, nil
	m.nameCnt = map[string]int{}
	m.kv = map[string]V{}
	m.clock = 0
	m.timers = nil
	m.exploreSched = false
	m.preemptBound, m.preempts = 0, 0
	m.mapOrder = 0
	m.looseQ = false
	m.nextG = 0
	m.nonNative = false
	g := &G{}
	m.gs = []*G{g}
	m.cur = g
	m.entryPending = true
}

// runPath runs from the current state until the path ends.
func (m *Mach) runPath() (end pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				end = x
			case engErrT:
				end = pathEnd{"engine", x.s + " @ " + m.where()}
			default:
				end = pathEnd{"internal", fmt.Sprint(r) + " @ " + m.whereSafe() + "\n" + string(debug.Stack())}
			}
			m.initDepth = 0
		}
	}()
	if m.entryPending {
		m.entryPending = false
		m.beginStep()
		m.callFn(m.w.ex.entry, nil, nil, 3, false)
	}
	n := 0
	for {
		g := m.cur
		if g.done {
			if g == m.gs[0] {
				return pathEnd{"done", ""}
			}
			m.pickNext()
			continue
		}
		if g.ready != nil {
			if g.ready() && !m.exploreSched {
				g.ready = nil
			} else {
				m.pickNext()
				continue
			}
		}
		m.stepSafe()
		n++
		if n&63 == 0 && time.Now().After(m.w.ex.deadline) {
			return pathEnd{"timeout", "time budget reached"}
		}
	}
}

func (m *Mach) whereSafe() (s string) {
	defer func() {
		if recover() != nil {
			s = "?"
		}
	}()
	return m.where()
}

func (m *Mach) snapshot() *Snapshot {
	s := &Snapshot{}
	for i, g := range m.gs {
		if g == m.cur {
			s.cur = i
		}
		gsn := gSnap{g: g, c: *g}
		if !g.done {
			gsn.frames = copyFrames(g.frames)
		}
		s.gs = append(s.gs, gsn)
	}
	s.timers = m.timers
	s.clock = m.clock
	s.preempts, s.preemptBound, s.nextG, s.mapOrder = m.preempts, m.preemptBound, m.nextG, m.mapOrder
	s.explore = m.exploreSched
	s.tseq = m.tseq
	s.obs, s.events, s.inputs, s.hash, s.cov = len(m.obs), len(m.events), len(m.inputs), len(m.hashTab), len(m.pathCov)
	s.nonNative = m.nonNative
	return s
}

func copyFrames(fs []*Frame) []*Frame {
	r := make([]*Frame, len(fs))
	for i, f := range fs {
		c := *f
		c.regs = append([]V(nil), f.regs...)
		r[i] = &c
	}
	return r
}

func (m *Mach) restore(s *Snapshot, last bool) {
	m.gs = make([]*G, len(s.gs))
	for i := range s.gs {
		gs := &s.gs[i]
		*gs.g = gs.c
		if !gs.c.done {
			if last {
				gs.g.frames = gs.frames
			} else {
				gs.g.frames = copyFrames(gs.frames)
			}
		}
		m.gs[i] = gs.g
	}
	m.cur = m.gs[s.cur]
	m.timers = s.timers
	m.clock = s.clock
	m.preempts, m.preemptBound, m.nextG, m.mapOrder = s.preempts, s.preemptBound, s.nextG, s.mapOrder
	m.exploreSched = s.explore
	m.tseq = s.tseq
	m.obs, m.events, m.inputs, m.hashTab, m.pathCov = m.obs[:s.obs:s.obs], m.events[:s.events:s.events], m.inputs[:s.inputs:s.inputs], m.hashTab[:s.hash:s.hash], m.pathCov[:s.cov:s.cov]
	m.nonNative = s.nonNative
}

func (m *Mach) backtrack() bool {
	if ex := m.w.ex; atomic.LoadInt32(&ex.idle) > atomic.LoadInt32(&ex.qlen) {
		m.donate()
	}
	for len(m.choices) > 0 {
		c := m.choices[len(m.choices)-1]
		if len(c.alts) == 0 {
			m.choices = m.choices[:len(m.choices)-1]
			continue
		}
		a := c.alts[0]
		var mod []uint64
		if c.models != nil {
			mod = c.models[0]
			c.models = c.models[1:]
		}
		c.alts = c.alts[1:]
		last := len(c.alts) == 0
		m.rollback(c.trailMark)
		m.truncPC(c.pcMark)
		m.restore(c.snap, last)
		m.path = append(m.path[:c.pathLen:c.pathLen], a)
		m.forced = append(append([]int64(nil), c.decs...), a)
		m.fpos = 0
		m.steps, m.stepBase = c.steps, c.steps
		if mod != nil {
			m.model = mod
			m.modelOK = true
		} else {
			m.model = c.model
			m.modelOK = c.modelOK
		}
		if last {
			m.choices = m.choices[:len(m.choices)-1]
		}
		m.instrDecs = m.instrDecs[:0]
		return true
	}
	return false
}

func (m *Mach) newChoice(alts []int64, models [][]uint64) {
	if m.initDepth > 0 {
		panic(engErr("decision inside package init"))
	}
	atomic.AddInt64(&m.res.choices, int64(len(alts)))
	ex := m.w.ex
	c := &Choice{snap: m.snapshot(), trailMark: m.instrTrail, pcMark: m.instrPC, decs: append([]int64(nil), m.instrDecs...), alts: alts, models: models, pathLen: len(m.path), steps: m.steps - 1, model: m.model, modelOK: m.modelOK}
	m.choices = append(m.choices, c)
	// donate work when other workers are idle
	if atomic.LoadInt32(&ex.idle) > atomic.LoadInt32(&ex.qlen) {
		m.donate()
	}
}

func (m *Mach) donate() {
	for _, c := range m.choices {
		if len(c.alts) > 0 {
			// a wide choice is shared out in larger portions
			k := min(1+len(c.alts)/4, 16)
			for ; k > 0; k-- {
				n := len(c.alts) - 1
				a := c.alts[n]
				c.alts = c.alts[:n]
				if c.models != nil {
					c.models = c.models[:n]
				}
				m.w.ex.push(&Job{append(append([]int64(nil), m.path[:c.pathLen]...), a)})
			}
			return
		}
	}
}

// ---- path condition ----

func (m *Mach) growVars() {
	for len(m.dom) < len(m.ts.vars) {
		i := len(m.dom)
		var b bitset
		switch w := m.ts.vars[i].w; {
		case w == 0:
			b[0] = 3
		case w <= 8:
			for k := 0; k < 1<<w; k++ {
				b.set(k)
			}
		}
		m.dom = append(m.dom, b)
		m.rel = append(m.rel, 0)
		m.varPCs = append(m.varPCs, nil)
	}
}

func (m *Mach) addPC(t *Term) {
	if t.isConst() {
		if t.k == 0 {
			panic(pathEnd{"infeasible", "false constraint"})
		}
		return
	}
	if t.op == OAnd {
		m.addPC(t.a[0])
		m.addPC(t.a[1])
		return
	}
	if t.op == ONot && t.a[0].op == OOr {
		m.addPC(m.ts.Not(t.a[0].a[0]))
		m.addPC(m.ts.Not(t.a[0].a[1]))
		return
	}
	m.growVars()
	e := pcEnt{t: t, uvar: -1}
	i := int32(len(m.pcs))
	if tb := m.ts.unary(t); tb != nil {
		v := t.sup[0]
		e.uvar = v
		e.oldDom = m.dom[v]
		m.dom[v] = m.dom[v].and(tb.s)
	} else {
		for _, v := range t.sup {
			m.rel[v]++
		}
	}
	for _, v := range t.sup {
		m.varPCs[v] = append(m.varPCs[v], i)
	}
	m.pcs = append(m.pcs, e)
}

func (m *Mach) truncPC(mark int) {
	for i := len(m.pcs) - 1; i >= mark; i-- {
		e := &m.pcs[i]
		if e.uvar >= 0 {
			m.dom[e.uvar] = e.oldDom
		} else {
			for _, v := range e.t.sup {
				m.rel[v]--
			}
		}
		for _, v := range e.t.sup {
			l := m.varPCs[v]
			m.varPCs[v] = l[:len(l)-1]
		}
	}
	m.pcs = m.pcs[:mark]
}

// relevant collects the path constraints transitively sharing variables with sup.
func (m *Mach) relevant(sup []int32) ([]*Term, []int32) {
	seenV := map[int32]bool{}
	seenP := map[int32]bool{}
	var vars []int32
	var q []int32
	for _, v := range sup {
		if !seenV[v] {
			seenV[v] = true
			q = append(q, v)
		}
	}
	var cs []int32
	for len(q) > 0 {
		v := q[len(q)-1]
		q = q[:len(q)-1]
		vars = append(vars, v)
		for _, pi := range m.varPCs[v] {
			if seenP[pi] {
				continue
			}
			seenP[pi] = true
			cs = append(cs, pi)
			for _, u := range m.pcs[pi].t.sup {
				if !seenV[u] {
					seenV[u] = true
					q = append(q, u)
				}
			}
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i] < cs[j] })
	out := make([]*Term, len(cs))
	for i, c := range cs {
		out[i] = m.pcs[c].t
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i] < vars[j] })
	return out, vars
}

// solveWith decides pc && extra; on sat returns a full model.
func (m *Mach) solveWith(extra ...*Term) (satRes, []uint64) {
	m.growVars()
	var sup []int32
	for _, e := range extra {
		if e.isConst() {
			if e.k == 0 {
				return rUnsat, nil
			}
			continue
		}
		sup = mergeSup(sup, e.sup)
	}
	cs, vars := m.relevant(sup)
	for _, e := range extra {
		if !e.isConst() {
			cs = append(cs, e)
		}
	}
	r, vals := m.query(cs, vars)
	if r != rSat {
		return r, nil
	}
	mod := make([]uint64, len(m.ts.vars))
	copy(mod, m.model)
	for i, v := range vars {
		mod[v] = vals[i]
	}
	return rSat, mod
}

func (m *Mach) query(cs []*Term, vars []int32) (satRes, []uint64) {
	ids := make([]uint32, len(cs))
	for i, c := range cs {
		ids[i] = c.id
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	var sb strings.Builder
	for _, x := range ids {
		sb.WriteString(strconv.FormatUint(uint64(x), 36))
		sb.WriteByte(',')
	}
	key := sb.String()
	if q, ok := m.qcache[key]; ok {
		return q.r, q.vals
	}
	vi := make([]*VarInfo, len(vars))
	for i, v := range vars {
		vi[i] = m.ts.vars[v]
	}
	r, vals := m.sol.check(cs, vi)
	if r != rUnknown {
		if len(m.qcache) > 400000 {
			m.qcache = map[string]qres{}
		}
		m.qcache[key] = qres{r: r, vals: vals}
	}
	return r, vals
}

func (m *Mach) replaying() bool { return len(m.path) < len(m.jobPrefix) }

func (m *Mach) ensureModel() {
	if m.modelOK {
		if len(m.model) < len(m.ts.vars) {
			m.extendModel()
		}
		return
	}
	cs := make([]*Term, len(m.pcs))
	for i := range m.pcs {
		cs[i] = m.pcs[i].t
	}
	m.growVars()
	var all []int32
	for i := range m.ts.vars {
		if len(m.varPCs[i]) > 0 {
			all = append(all, int32(i))
		}
	}
	r, vals := m.query(cs, all)
	switch r {
	case rUnsat:
		panic(pathEnd{"infeasible", "path condition unsat"})
	case rUnknown:
		m.res.bound("solver unknown on path condition")
		panic(pathEnd{"unknown", "path condition unknown"})
	}
	m.model = make([]uint64, len(m.ts.vars))
	for i, v := range all {
		m.model[v] = vals[i]
	}
	m.modelOK = true
}

func (m *Mach) extendModel() {
	n := make([]uint64, len(m.ts.vars))
	copy(n, m.model)
	m.model = n
}

func (m *Mach) applyDec(t *Term, d int64) bool {
	b := d&1 != 0
	if d&2 == 0 {
		if b {
			m.addPC(t)
		} else {
			m.addPC(m.ts.Not(t))
		}
	}
	return b
}

// recorded returns a decision forced by an instruction restart or the job prefix.
func (m *Mach) recorded() (int64, bool) {
	if m.fpos < len(m.forced) {
		d := m.forced[m.fpos]
		m.fpos++
		m.instrDecs = append(m.instrDecs, d)
		return d, true
	}
	if len(m.path) < len(m.jobPrefix) {
		d := m.jobPrefix[len(m.path)]
		m.path = append(m.path, d)
		m.instrDecs = append(m.instrDecs, d)
		m.modelOK = false
		return d, true
	}
	return 0, false
}

func (m *Mach) record(d int64) {
	m.path = append(m.path, d)
	m.instrDecs = append(m.instrDecs, d)
}

func (m *Mach) decide(t *Term) bool {
	if t.isConst() {
		return t.k != 0
	}
	m.growVars()
	tb := m.ts.unary(t)
	var pos, neg bitset
	if tb != nil {
		d := m.dom[t.sup[0]]
		pos, neg = d.and(tb.s), d.andnot(tb.s)
		if neg.empty() {
			m.nBitset++
			return true
		}
		if pos.empty() {
			m.nBitset++
			return false
		}
	}
	if d, ok := m.recorded(); ok {
		return m.applyDec(t, d)
	}
	m.ensureModel()
	v := int64(m.ts.Eval(t, m.model))
	var mod []uint64
	r := rUnknown
	other := t
	if v != 0 {
		other = m.ts.Not(t)
	}
	if tb != nil && m.rel[t.sup[0]] == 0 {
		mod = append([]uint64(nil), m.model...)
		if v != 0 {
			mod[t.sup[0]] = uint64(neg.first())
		} else {
			mod[t.sup[0]] = uint64(pos.first())
		}
		r = rSat
		m.nBitset++
	} else {
		r, mod = m.solveWith(other)
		m.nSolver++
	}
	switch r {
	case rUnsat:
		m.record(v | 2)
		return v != 0
	case rUnknown:
		m.res.bound("solver unknown on a branch: alternative dropped")
		m.record(v)
		return m.applyDec(t, v)
	}
	if forkProf {
		m.forkNote()
	}
	m.newChoice([]int64{v ^ 1}, [][]uint64{mod})
	m.record(v)
	return m.applyDec(t, v)
}

// concInt enumerates the feasible values of a scalar and forks over them.
func (m *Mach) concInt(v V, w uint8) uint64 {
	if v.o == nil {
		return v.n
	}
	t, ok := v.o.(*Term)
	if !ok {
		panic(engErr(fmt.Sprintf("concInt of %T", v.o)))
	}
	m.growVars()
	if d, ok := m.recorded(); ok {
		m.addPC(m.ts.Eq(t, m.ts.Const(t.w, uint64(d))))
		return uint64(d)
	}
	m.ensureModel()
	cur := m.ts.Eval(t, m.model)
	var vals []int64
	var mods [][]uint64
	tb := m.ts.unary(t)
	if tb != nil && m.rel[t.sup[0]] == 0 {
		d := m.dom[t.sup[0]]
		seen := map[uint64]bool{cur: true}
		for i := 0; i < 256; i++ {
			if d.has(i) && !seen[tb.v[i]] {
				seen[tb.v[i]] = true
				mod := append([]uint64(nil), m.model...)
				mod[t.sup[0]] = uint64(i)
				vals = append(vals, int64(tb.v[i]))
				mods = append(mods, mod)
			}
		}
	} else {
		block := m.ts.Not(m.ts.Eq(t, m.ts.Const(t.w, cur)))
		for {
			r, mod := m.solveWith(block)
			if r == rUnsat {
				break
			}
			if r == rUnknown {
				m.res.bound("solver unknown while enumerating a value: alternatives dropped")
				break
			}
			x := m.ts.Eval(t, mod)
			vals = append(vals, int64(x))
			mods = append(mods, mod)
			block = m.ts.And(block, m.ts.Not(m.ts.Eq(t, m.ts.Const(t.w, x))))
			if len(vals) >= m.forkLimit {
				m.res.bound(fmt.Sprintf("value enumeration limit %d at %s", m.forkLimit, m.where()))
				break
			}
		}
	}
	if len(vals) > 0 {
		m.newChoice(vals, mods)
	}
	m.record(int64(cur))
	m.addPC(m.ts.Eq(t, m.ts.Const(t.w, cur)))
	return cur
}

// choose forks over n nondeterministic alternatives.
func (m *Mach) choose(n int, what string) int {
	if n <= 1 {
		return 0
	}
	if d, ok := m.recorded(); ok {
		return int(d)
	}
	alts := make([]int64, n-1)
	for i := range alts {
		alts[i] = int64(i + 1)
	}
	m.newChoice(alts, nil)
	m.record(0)
	return 0
}

func (m *Mach) assume(c V) {
	if c.o == nil {
		if c.n == 0 {
			panic(pathEnd{"infeasible", "assumption"})
		}
		return
	}
	t := c.o.(*Term)
	m.growVars()
	if m.replaying() {
		m.addPC(t)
		m.modelOK = false
		return
	}
	if m.fpos < len(m.forced) {
		m.addPC(t)
		return
	}
	if tb := m.ts.unary(t); tb != nil {
		d := m.dom[t.sup[0]]
		if d.and(tb.s).empty() {
			panic(pathEnd{"infeasible", "assumption"})
		}
		if d.andnot(tb.s).empty() {
			return
		}
	}
	m.ensureModel()
	if m.ts.Eval(t, m.model) == 0 {
		r, mod := m.solveWith(t)
		switch r {
		case rUnsat:
			panic(pathEnd{"infeasible", "assumption"})
		case rUnknown:
			m.res.bound("solver unknown on an assumption: path dropped")
			panic(pathEnd{"unknown", "assumption"})
		}
		m.model = mod
	}
	m.addPC(t)
}

// assert checks a property; the solver decides pc && !c over all values.
func (m *Mach) assert(c V, msg string) {
	if m.replaying() {
		if c.o != nil {
			m.addPC(c.o.(*Term))
		} else if c.n == 0 {
			panic(pathEnd{"violated", msg})
		}
		return
	}
	atomic.AddInt64(&m.res.asserts, 1)
	if c.o == nil {
		if c.n != 0 {
			atomic.AddInt64(&m.res.assertConst, 1)
			return
		}
		m.candidate("assert", msg, nil)
		panic(pathEnd{"violated", msg})
	}
	t := c.o.(*Term)
	atomic.AddInt64(&m.res.assertSolver, 1)
	m.ensureModel()
	r, mod := m.solveWith(m.ts.Not(t))
	switch r {
	case rUnsat:
		return
	case rUnknown:
		m.res.bound("solver unknown on assertion: " + msg)
		panic(pathEnd{"unknown", "assertion undecided: " + msg})
	}
	m.candidate("assert", msg, mod)
	// continue under the assumption that it holds
	if m.ts.Eval(t, m.model) == 0 {
		r, mod = m.solveWith(t)
		if r != rSat {
			panic(pathEnd{"violated", msg})
		}
		m.model = mod
	}
	m.addPC(t)
}

func (m *Mach) candidate(kind, msg string, mod []uint64) {
	if mod == nil {
		m.ensureModel()
		mod = m.model
	}
	v := &Violation{Kind: kind, Msg: msg, Inputs: m.evalInputs(mod), Harness: m.w.ex.name, Trace: m.whereSafe(), Sched: m.nonNative, Params: m.w.ex.params}
	r := m.res
	key := kind + ": " + msg
	r.mu.Lock()
	defer r.mu.Unlock()
	r.violN[key]++
	if len(r.viol[key]) < 6 {
		r.viol[key] = append(r.viol[key], v)
		atomic.AddInt64(&m.w.ex.nviol, 1)
	}
}

func (m *Mach) evalV(v V, mod []uint64) uint64 {
	if t, ok := v.o.(*Term); ok {
		return m.ts.Eval(t, mod)
	}
	return v.n
}

func (m *Mach) evalInputs(mod []uint64) []InputVal {
	out := make([]InputVal, 0, len(m.inputs))
	for _, in := range m.inputs {
		iv := InputVal{Name: in.name, Kind: in.kind}
		switch in.kind {
		case "string":
			b := make([]byte, len(in.terms))
			for i, t := range in.terms {
				b[i] = byte(m.evalV(t, mod))
			}
			iv.S = fmt.Sprintf("%x", b)
		default:
			iv.S = strconv.FormatInt(int64(m.evalV(in.terms[0], mod)), 10)
		}
		out = append(out, iv)
	}
	return out
}

func (m *Mach) renderObs(mod []uint64) []string {
	out := make([]string, 0, len(m.obs))
	for _, o := range m.obs {
		var s string
		switch o.ti.kind {
		case kString:
			st := strOf(o.v)
			b := make([]byte, st.len())
			for i := range b {
				b[i] = byte(m.evalV(st.at(i), mod))
			}
			s = strconv.Quote(string(b))
		case kBool:
			s = strconv.FormatBool(m.evalV(o.v, mod) != 0)
		case kInt:
			x := m.evalV(o.v, mod)
			if o.ti.sgn {
				s = strconv.FormatInt(sx(x, o.ti.w), 10)
			} else {
				s = strconv.FormatUint(x, 10)
			}
		default:
			s = "?"
		}
		out = append(out, o.label+"="+s)
	}
	return out
}

func (m *Mach) recordEnd(end pathEnd) {
	r := m.res
	ex := m.w.ex
	atomic.AddInt64(&ex.npaths, 1)
	r.mu.Lock()
	r.paths[end.kind]++
	r.bitsetDecs += m.nBitset
	r.solverDecs += m.nSolver
	m.nBitset, m.nSolver = 0, 0
	seen := r.sampleSeen
	r.mu.Unlock()
	switch end.kind {
	case "panic", "deadlock", "stackoverflow", "budget":
		func() {
			defer func() {
				if x := recover(); x != nil {
					r.bound("end of path undecided")
				}
			}()
			m.candidate(end.kind, stripAddr(end.msg), nil)
		}()
	case "engine", "internal":
		r.mu.Lock()
		k := end.msg
		if len(k) > 3000 {
			k = k[:3000]
		}
		r.engErrs[k]++
		r.mu.Unlock()
	}
	if end.kind == "done" || end.kind == "violated" {
		r.mu.Lock()
		for _, c := range m.pathCov {
			r.cover[c]++
		}
		for _, in := range m.inputs {
			r.inputs[fmt.Sprintf("%s:%s(%d)", in.name, in.kind, len(in.terms))]++
		}
		r.mu.Unlock()
	}
	if end.kind != "done" {
		return
	}
	// sample completed paths: the solver confirms the whole path condition and yields a concrete input
	take := seen < 24 || seen%97 == 0
	r.mu.Lock()
	r.sampleSeen++
	if len(r.samples) >= ex.maxSamples {
		take = false
	}
	r.mu.Unlock()
	if !take {
		return
	}
	cs := make([]*Term, len(m.pcs))
	for i := range m.pcs {
		cs[i] = m.pcs[i].t
	}
	m.growVars()
	var all []int32
	for i := range m.ts.vars {
		if len(m.varPCs[i]) > 0 {
			all = append(all, int32(i))
		}
	}
	res, vals := m.query(cs, all)
	if res == rUnsat {
		r.mu.Lock()
		r.spurious++
		r.mu.Unlock()
		return
	}
	if res != rSat {
		return
	}
	mod := make([]uint64, len(m.ts.vars))
	for i, v := range all {
		mod[v] = vals[i]
	}
	s := &Sample{Inputs: m.evalInputs(mod), Obs: m.renderObs(mod), NonNative: m.nonNative}
	r.mu.Lock()
	r.samples = append(r.samples, s)
	r.mu.Unlock()
}

func stripAddr(s string) string { return s }

// GOSYM_FORKS=1 counts where paths fork.
var (
	forkProf = os.Getenv("GOSYM_FORKS") != ""
	forkMu   sync.Mutex
	forkAt   = map[string]int{}
)

func (m *Mach) forkNote() {
	w := m.where()
	forkMu.Lock()
	forkAt[w]++
	forkMu.Unlock()
}

func printForks() {
	var ks []string
	for k := range forkAt {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return forkAt[ks[i]] > forkAt[ks[j]] })
	for i, k := range ks {
		if i < 25 {
			fmt.Printf("forks %d at %s\n", forkAt[k], k)
		}
	}
}
