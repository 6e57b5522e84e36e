package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync/atomic"

)

type deferRec struct {
	call *CallInfo
	fn   V
	args []V
	recv *TypeInfo
}

type panicRec struct {
	val       V // interface value
	recovered bool
	msg       string
	trace     string
}

type Frame struct {
	fn     *Func
	regs   []V
	blk    int
	pc     int
	prev   int32
	defers []deferRec
	pan    *panicRec // panicking in this frame (running its deferred calls)
	result V
	// how the result is delivered
	kind     uint8 // 0 normal call, 1 deferred call during RunDefers, 2 deferred call during panic, 3 goroutine root, 4 result discarded / init
	deferred bool
	post     func(m *Mach, r V) V
	pendDef  int
}

type G struct {
	id      int
	frames  []*Frame
	done    bool
	ready   func() bool
	asked   bool // scheduling decision already taken for the current instruction
	tok     *selTok
	what    string
	dead    bool
	preempt int
}

type gSnap struct {
	g      *G
	c      G
	frames []*Frame
}

type Snapshot struct {
	gs    []gSnap
	cur   int
	ngs   int
	timers []*Timer
	clock int64
	preempts, preemptBound, nextG, mapOrder int
	explore bool
	nonNative bool
	tseq int
	obs, events, inputs, hash, cov int
}

type Timer struct {
	when int64
	fire func(m *Mach)
	dead bool
	seq  int
}

type trailEnt struct {
	p   *V
	old V
	fn  func()
}

type pcEnt struct {
	t      *Term
	uvar   int32 // unary var or -1
	oldDom bitset
}

type Choice struct {
	snap      *Snapshot
	trailMark int
	pcMark    int
	decs      []int64
	alts      []int64
	models    [][]uint64
	pathLen   int
	steps     int64
	obsLen    int
	model     []uint64
	modelOK   bool
}

type pathEnd struct {
	kind string // done, infeasible, budget, abort, panic, deadlock, ...
	msg  string
}

type Mach struct {
	p      *Prog
	ts     *TermStore
	sol    *Solver
	glob   []V // cells stored individually
	globP  []*V
	inited map[int]bool
	gs     []*G
	cur    *G

	trail     []trailEnt
	trailOff  int
	instrTrail int
	looseQ     bool
	addrs      map[any]uint64
	addrRev    map[uint64]any
	instrPC    int
	instrDecs  []int64
	forced     []int64
	fpos       int

	pcs    []pcEnt
	varPCs [][]int32
	dom    []bitset
	rel    []int32
	model  []uint64
	modelOK bool

	choices []*Choice
	path    []int64 // full decision sequence
	pathForced int  // entries of m.path which came from the job prefix
	jobPrefix []int64

	varByName map[string]*Term
	nameCnt   map[string]int
	qcache    map[string]qres

	steps     int64
	totalSteps int64
	maxSteps  int64
	maxDepth  int
	nextObj   int
	clock     int64
	timers    []*Timer
	tseq      int
	progress  int64

	// harness options
	exploreSched bool
	preempts, nextG int
	nonNative, entryPending bool
	stepBase int64
	nBitset, nSolver int64
	preemptBound int
	mapOrder     int
	hashTab   []hashEnt
	hashIdx   map[string]uint64
	obs       []obsEnt
	events    []string
	inputs    []inputRec
	kv        map[string]V
	rngN      int

	res   *Result
	w     *Worker
	initDepth int
	curInstr *Instr
	tempDefs []V
	curFrame *Frame
	ssaCache map[string]*TypeInfo
	trapMsg  string
	forkLimit int
	covered map[string]bool
	pathCov []string
	globalsTouched map[int]bool
}

type hashEnt struct {
	b []V
	h uint64
	sym bool
}

type obsEnt struct {
	label string
	v     V
	ti    *TypeInfo
}

type inputRec struct {
	name string
	kind string
	terms []V
	n    int
}

type qres struct {
	r    satRes
	vals []uint64
	vars []int32
}

func newMach(p *Prog, w *Worker) *Mach {
	m := &Mach{p: p, w: w}
	m.ts = newTermStore()
	m.inited = map[int]bool{}
	m.varByName = map[string]*Term{}
	m.nameCnt = map[string]int{}
	m.qcache = map[string]qres{}
	m.hashIdx = map[string]uint64{}
	m.kv = map[string]V{}
	m.covered = map[string]bool{}
	m.ssaCache = map[string]*TypeInfo{}
	m.globalsTouched = map[int]bool{}
	m.maxSteps = 200_000_000
	m.maxDepth = 6000
	m.forkLimit = 400
	return m
}

// ---- memory ----

func (m *Mach) set(p *V, v V) {
	m.trail = append(m.trail, trailEnt{p: p, old: *p})
	*p = v
}

func (m *Mach) undo(fn func()) {
	m.trail = append(m.trail, trailEnt{fn: fn})
}

func (m *Mach) rollback(mark int) {
	for i := len(m.trail) - 1; i >= mark; i-- {
		e := &m.trail[i]
		if e.fn != nil {
			e.fn()
		} else {
			*e.p = e.old
		}
		*e = trailEnt{}
	}
	m.trail = m.trail[:mark]
}

// store assigns v into the storage cell p (aggregates are assigned element-wise so that
// interior pointers stay valid).
func (m *Mach) store(p *V, v V) {
	if a, ok := v.o.(*Agg); ok {
		if d, ok := p.o.(*Agg); ok && len(d.f) == len(a.f) {
			if d == a {
				return
			}
			for i := range a.f {
				m.store(&d.f[i], a.f[i])
			}
			return
		}
		m.set(p, copyAgg(v))
		return
	}
	m.set(p, v)
}

func (m *Mach) load(p *V) V {
	if _, ok := p.o.(*Agg); ok {
		return copyAgg(*p)
	}
	return *p
}

func (m *Mach) ptr(v V) *V {
	switch p := v.o.(type) {
	case *V:
		return p
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	case *SlicePtr:
		return &p.f[0]
	}
	panic(engErr(fmt.Sprintf("ptr: %T in %s", v.o, m.where())))
}

type engErrT struct{ s string }

func engErr(s string) engErrT { return engErrT{s} }

func (m *Mach) where() string {
	if m.cur == nil || len(m.cur.frames) == 0 {
		return "?"
	}
	var sb strings.Builder
	n := 0
	for i := len(m.cur.frames) - 1; i >= 0 && n < whereDepth; i-- {
		f := m.cur.frames[i]
		pos := ""
		if f.blk < len(f.fn.blocks) && f.pc < len(f.fn.blocks[f.blk].ins) {
			pp := f.fn.blocks[f.blk].ins[f.pc].pos
			for k := f.pc; pp == token.NoPos && k > 0; k-- {
				pp = f.fn.blocks[f.blk].ins[k-1].pos
			}
			ps := m.p.fset.Position(pp)
			pos = fmt.Sprintf("%s:%d", short(ps.Filename), ps.Line)
		}
		fmt.Fprintf(&sb, "%s(%s) < ", f.fn.name, pos)
		n++
	}
	return sb.String()
}

func short(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return s[i+1:]
	}
	return s
}

// ---- panics ----

type goPanic struct{ val V } // thrown by intrinsics / instructions

func (m *Mach) rtPanic(msg string) {
	panic(goPanic{m.rtErr(msg)})
}

func (m *Mach) rtErr(msg string) V {
	if m.p.rtErrT == nil {
		panic(engErr("no runtime error type: " + msg))
	}
	return mkIface(m.p.rtErrT, mkStr(msg))
}

// ---- frames ----

func (m *Mach) pushFrame(fn *Func, args []V, env []V, kind uint8) *Frame {
	fn.compile()
	if fn.blocks == nil {
		panic(engErr("no body: " + fn.name + " from " + m.where()))
	}
	if fn.hit == 0 {
		atomic.StoreInt32(&fn.hit, 1)
	}
	fr := &Frame{fn: fn, regs: make([]V, fn.nregs), kind: kind, prev: -1}
	copy(fr.regs, args)
	copy(fr.regs[fn.nparam:], env)
	g := m.cur
	g.frames = append(g.frames, fr)
	if len(g.frames) > m.maxDepth {
		panic(pathEnd{"stackoverflow", "stack depth exceeds " + fmt.Sprint(m.maxDepth) + " at " + m.where()})
	}
	if len(fn.blocks[0].phis) > 0 {
		panic(engErr("phi in entry"))
	}
	return fr
}

func (m *Mach) top() *Frame { return m.cur.frames[len(m.cur.frames)-1] }

func (m *Mach) get(fr *Frame, o *Opd) V {
	switch o.kind {
	case oReg:
		return fr.regs[o.idx]
	case oConst:
		return o.v
	}
	return V{o: m.globalCell(int(o.idx))}
}

func (m *Mach) globalCell(i int) *V {
	if i < len(m.globP) && m.globP[i] != nil {
		return m.globP[i]
	}
	for len(m.globP) <= i {
		m.globP = append(m.globP, nil)
	}
	ti, ps := m.p.globInfo(i)
	c := new(V)
	*c = zero(ti)
	m.globP[i] = c
	if ps != nil && !m.inited[ps.idx] {
		m.initPkg(ps)
	}
	return m.globP[i]
}

// initPkg runs a package initialiser to completion (concretely, untrailed).
func (m *Mach) initPkg(ps *pkgState) {
	if m.inited[ps.idx] {
		return
	}
	m.inited[ps.idx] = true
	path := ps.pkg.Pkg.Path()
	if skipInit[path] {
		return
	}
	initFn := ps.pkg.Func("init")
	if initFn == nil {
		return
	}
	// dependencies first: package init functions are lazily triggered on global access; explicit
	// init() functions with side effects on other packages are handled by running them here.
	saveG, saveTrail, saveSteps := m.cur, m.trail, m.steps
	sInstrTrail, sInstrPC, sDecs := m.instrTrail, m.instrPC, m.instrDecs
	sForced, sFpos, sCI, sCF := m.forced, m.fpos, m.curInstr, m.curFrame
	sGs := m.gs
	sObs := m.exploreSched
	restoreInit := func() {
		m.initDepth--
		m.exploreSched = sObs
		m.cur, m.trail, m.steps = saveG, saveTrail, saveSteps
		m.instrTrail, m.instrPC, m.instrDecs = sInstrTrail, sInstrPC, sDecs
		m.forced, m.fpos, m.curInstr, m.curFrame = sForced, sFpos, sCI, sCF
		m.gs = sGs
	}
	m.exploreSched = false
	m.trail = nil
	g := &G{id: -1}
	m.cur = g
	m.initDepth++
	fn := m.p.fn(initFn)
	m.pushFrame(fn, nil, nil, 4)
	defer func() {
		if r := recover(); r != nil {
			where := m.whereSafe()
			restoreInit()
			switch x := r.(type) {
			case engErrT:
				panic(engErr("init of " + path + ": " + x.s + " @ " + where))
			case pathEnd:
				panic(engErr("init of " + path + ": " + x.kind + " " + x.msg + " @ " + where))
			}
			panic(r)
		}
		restoreInit()
	}()
	m.runNested(g)
}

func (m *Mach) runNested(g *G) {
	for len(g.frames) > 0 {
		m.stepSafe()
		if g.ready != nil {
			if g.ready() {
				g.ready = nil
				continue
			}
			panic(engErr("init blocked at " + m.where()))
		}
	}
}

// stepSafe executes one instruction, converting Go-level panics thrown by instruction
// implementations into interpreted panics.
func (m *Mach) stepSafe() {
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(goPanic); ok {
				m.startPanic(gp.val)
				return
			}
			panic(r)
		}
	}()
	m.stepLoop()
}

// ---- panic machinery ----

func (m *Mach) startPanic(val V) {
	fr := m.top()
	rec := &panicRec{val: val, trace: m.where()}
	fr.pan = rec
	m.unwind()
}

// unwind continues panicking in the top frame.
func (m *Mach) unwind() {
	for {
		g := m.cur
		fr := m.top()
		rec := fr.pan
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[: n-1 : n-1]
			m.callDeferred(d, 2)
			return
		}
		// no more deferred calls: leave this frame
		g.frames = g.frames[:len(g.frames)-1]
		if len(g.frames) == 0 || fr.kind == 4 {
			panic(pathEnd{"panic", m.panicString(rec) + " @ " + rec.trace})
		}
		nf := m.top()
		// a panic inside a deferred call replaces an earlier panic of the parent frame
		nf.pan = rec
	}
}

func (m *Mach) panicString(rec *panicRec) string {
	if rec.val.o == nil {
		return "panic(nil)"
	}
	i := rec.val.o.(*Iface)
	s := m.fmtNative("%v", i.t, i.v)
	if i.t.kind == kString {
		return "panic: " + s
	}
	return fmt.Sprintf("panic: (%s) %s", i.t.t, s)
}

func (m *Mach) callDeferred(d deferRec, kind uint8) {
	m.enterCall(d.call, d.fn, d.args, kind, true)
}

// ---- calls ----

// resolve an invoke target
func (m *Mach) findMethod(ti *TypeInfo, meth *types.Func) *Func {
	id := meth.Id()
	ti.mu.Lock()
	f := ti.methods[id]
	ti.mu.Unlock()
	if f != nil {
		return f
	}
	sf := m.p.ssa.LookupMethod(ti.t, meth.Pkg(), meth.Name())
	if sf == nil {
		panic(engErr(fmt.Sprintf("no method %s on %v", meth.Name(), ti.t)))
	}
	f = m.p.fn(sf)
	ti.mu.Lock()
	ti.methods[id] = f
	ti.mu.Unlock()
	return f
}

// prepCall evaluates callee and arguments.
func (m *Mach) prepCall(fr *Frame, ci *CallInfo) (V, []V) {
	n := len(ci.args)
	switch ci.mode {
	case 0:
		args := make([]V, n)
		for i := range ci.args {
			args[i] = m.get(fr, &ci.args[i])
		}
		return V{}, args
	case 1:
		args := make([]V, n)
		for i := range ci.args {
			args[i] = m.get(fr, &ci.args[i])
		}
		return m.get(fr, &ci.fnOpd), args
	case 2:
		args := make([]V, n+1)
		for i := range ci.args {
			args[i+1] = m.get(fr, &ci.args[i])
		}
		return m.get(fr, &ci.fnOpd), args
	}
	args := make([]V, n)
	for i := range ci.args {
		args[i] = m.get(fr, &ci.args[i])
	}
	return V{}, args
}

// enterCall performs a call. For kind 0 the result goes to the current instruction's dst.
// Returns true when the call completed immediately (intrinsic/builtin) with its result in
// m.ret; false when a frame was pushed or the goroutine blocked.
func (m *Mach) enterCall(ci *CallInfo, fv V, args []V, kind uint8, deferred bool) {
	var fn *Func
	var env []V
	switch ci.mode {
	case 0:
		fn = ci.fn
	case 1:
		switch c := fv.o.(type) {
		case nil:
			m.rtPanic("invalid memory address or nil pointer dereference")
		case *Closure:
			fn, env = c.fn, c.env
		case *BuiltinFn:
			r := m.builtin(c.b.Name(), ci, args)
			m.deliver(kind, r)
			return
		default:
			panic(engErr(fmt.Sprintf("call of %T", fv.o)))
		}
	case 2:
		if fv.o == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		i := fv.o.(*Iface)
		args[0] = i.v
		if rt, ok := i.v.o.(*RType); ok {
			r, _ := m.rtypeMethod(rt, ci.method.Name(), args)
			m.deliver(kind, r)
			return
		}
		fn = m.findMethod(i.t, ci.method)
	case 3:
		r := m.builtin(ci.builtin, ci, args)
		m.deliver(kind, r)
		return
	}
	m.callFn(fn, args, env, kind, deferred)
}

func (m *Mach) callFn(fn *Func, args []V, env []V, kind uint8, deferred bool) {
	if fn.intr != nil {
		r, act := fn.intr(m, fn, args)
		switch act {
		case actDone:
			if fn.hit == 0 {
				atomic.StoreInt32(&fn.hit, 2)
			}
			m.deliver(kind, r)
			return
		case actBlock:
			return
		case actTail:
			// an intrinsic requests a call of the closure in r.o with args in m.tailArgs
			tc := r.o.(*tailCall)
			fr := m.callTail(tc, kind, deferred)
			_ = fr
			return
		}
	}
	if fn.model != nil {
		fn = fn.model
	}
	fn.compile()
	if fn.blocks == nil {
		panic(engErr("unsupported function (no body): " + fn.name + " called from " + m.where()))
	}
	if fn.pkg != nil && !m.inited[fn.pkg.idx] && fn.fn.Name() != "init" {
		m.initPkg(fn.pkg)
	} else if fn.fn.Name() == "init" && fn.fn.Synthetic != "" && fn.pkg != nil {
		// package initialiser invoked from an importing package's init
		if m.inited[fn.pkg.idx] {
			m.deliver(kind, V{})
			return
		}
		if lazyInit {
			m.deliver(kind, V{})
			return
		}
		m.inited[fn.pkg.idx] = true
	}
	fr := m.pushFrame(fn, args, env, kind)
	fr.deferred = deferred
}

const lazyInit = true

type tailCall struct {
	fn   V
	args []V
	post func(m *Mach, r V) V
}

func (m *Mach) callTail(tc *tailCall, kind uint8, deferred bool) *Frame {
	c, ok := tc.fn.o.(*Closure)
	if !ok {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	n := len(m.cur.frames)
	if c.fn.intr != nil {
		r, act := c.fn.intr(m, c.fn, tc.args)
		if act == actDone {
			if tc.post != nil {
				r = tc.post(m, r)
			}
			m.deliver(kind, r)
			return nil
		}
		if act != actDecline {
			panic(engErr("tail call into blocking intrinsic " + c.fn.name))
		}
	}
	fn := c.fn
	if fn.model != nil {
		fn = fn.model
	}
	fn.compile()
	if fn.pkg != nil && !m.inited[fn.pkg.idx] {
		m.initPkg(fn.pkg)
	}
	fr := m.pushFrame(fn, tc.args, c.env, kind)
	fr.deferred = deferred
	fr.post = tc.post
	_ = n
	return fr
}

// deliver hands an immediate call result to its consumer.
func (m *Mach) deliver(kind uint8, r V) {
	switch kind {
	case 0:
		fr := m.top()
		in := &fr.fn.blocks[fr.blk].ins[fr.pc]
		if in.dst >= 0 {
			fr.regs[in.dst] = r
		}
		fr.pc++
	case 1: // deferred call finished during RunDefers: stay on the RunDefers instruction
	case 2:
		m.afterPanicDefer()
	case 3:
		// goroutine root finished immediately
		m.cur.done = true
	case 4:
	}
}

// afterPanicDefer is called when a deferred function run during panicking returns.
func (m *Mach) afterPanicDefer() {
	fr := m.top()
	if fr.pan != nil && fr.pan.recovered {
		fr.pan = nil
		if fr.fn.recov >= 0 {
			// function with recover: remaining defers run through the recover block's RunDefers? the
			// recover block only loads named results; run the remaining deferred calls first.
			if len(fr.defers) > 0 {
				fr.pendDef = 1
				d := fr.defers[len(fr.defers)-1]
				fr.defers = fr.defers[: len(fr.defers)-1 : len(fr.defers)-1]
				fr.pan = &panicRec{recovered: true}
				m.callDeferred(d, 2)
				return
			}
			fr.prev = int32(fr.blk)
			fr.blk = fr.fn.recov
			fr.pc = 0
			return
		}
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[: len(fr.defers)-1 : len(fr.defers)-1]
			fr.pan = &panicRec{recovered: true}
			m.callDeferred(d, 2)
			return
		}
		m.doReturn(zeroRes(fr.fn))
		return
	}
	m.unwind()
}

func zeroRes(f *Func) V {
	if f.resT == nil {
		return V{}
	}
	return zero(f.resT)
}

func (m *Mach) doReturn(r V) {
	g := m.cur
	fr := g.frames[len(g.frames)-1]
	if fr.post != nil {
		r = fr.post(m, r) // may take decisions: the frame is still in place
	}
	g.frames = g.frames[:len(g.frames)-1]
	switch fr.kind {
	case 0:
		c := g.frames[len(g.frames)-1]
		in := &c.fn.blocks[c.blk].ins[c.pc]
		if in.dst >= 0 {
			c.regs[in.dst] = r
		}
		c.pc++
	case 1:
	case 2:
		m.afterPanicDefer()
	case 3:
		g.done = true
	case 4:
	}
}

// ---- main step ----

func (m *Mach) branchTo(fr *Frame, s succ) {
	b := &fr.fn.blocks[s.blk]
	if n := len(b.phis); n > 0 {
		if n == 1 {
			fr.regs[b.phis[0].dst] = m.get(fr, &b.phis[0].edges[s.pred])
		} else {
			var buf [16]V
			tmp := buf[:0]
			for i := range b.phis {
				tmp = append(tmp, m.get(fr, &b.phis[i].edges[s.pred]))
			}
			for i := range b.phis {
				fr.regs[b.phis[i].dst] = tmp[i]
			}
		}
	}
	fr.prev = int32(fr.blk)
	fr.blk = int(s.blk)
	fr.pc = 0
}

func (m *Mach) stepLoop() {
	g := m.cur
	for k := 0; k < 4096; k++ {
		if len(g.frames) == 0 || g.ready != nil {
			return
		}
		fr := g.frames[len(g.frames)-1]
		in := &fr.fn.blocks[fr.blk].ins[fr.pc]
		m.steps++
		// start-of-instruction bookkeeping for restartable instructions
		m.instrTrail = len(m.trail)
		m.instrPC = len(m.pcs)
		if len(m.instrDecs) > 0 {
			m.instrDecs = m.instrDecs[:0]
		}
		m.curInstr = in
		m.curFrame = fr
		switch in.op {
		case iJump:
			m.branchTo(fr, in.s[0])
		case iIf:
			c := m.get(fr, &in.a[0])
			var b bool
			if c.o == nil {
				b = c.n != 0
			} else {
				b = m.decide(c.o.(*Term))
			}
			if b {
				m.branchTo(fr, in.s[0])
			} else {
				m.branchTo(fr, in.s[1])
			}
		case iReturn:
			var r V
			switch len(in.a) {
			case 0:
			case 1:
				r = m.get(fr, &in.a[0])
			default:
				f := make([]V, len(in.a))
				for i := range in.a {
					f[i] = m.get(fr, &in.a[i])
				}
				r = V{o: &Agg{f: f}}
			}
			m.doReturn(r)
		case iCall:
			if m.exploreSched && !g.asked && m.isSyncCall(in.call) && m.schedPoint() {
				return
			}
			fv, args := m.prepCall(fr, in.call)
			m.enterCall(in.call, fv, args, 0, false)
			if m.cur != g || g.ready != nil {
				return
			}
			g.asked = false
		case iLoad:
			fr.regs[in.dst] = m.load(m.ptr(m.get(fr, &in.a[0])))
			fr.pc++
		case iStore:
			p := m.get(fr, &in.a[0])
			v := m.get(fr, &in.a[1])
			m.store(m.ptr(p), v)
			fr.pc++
		case iFieldAddr:
			p := m.get(fr, &in.a[0])
			c := m.ptr(p)
			a, ok := c.o.(*Agg)
			if !ok {
				panic(engErr(fmt.Sprintf("FieldAddr on %T at %s", c.o, m.where())))
			}
			fr.regs[in.dst] = V{o: &a.f[in.k]}
			fr.pc++
		case iField:
			a := m.get(fr, &in.a[0])
			fr.regs[in.dst] = a.o.(*Agg).f[in.k]
			fr.pc++
		case iExtract:
			a := m.get(fr, &in.a[0])
			fr.regs[in.dst] = a.o.(*Agg).f[in.k]
			fr.pc++
		case iHeapAlloc:
			c := new(V)
			*c = zero(in.ti)
			fr.regs[in.dst] = V{o: c}
			fr.pc++
		case iBinOp:
			x := m.get(fr, &in.a[0])
			y := m.get(fr, &in.a[1])
			fr.regs[in.dst] = m.binop(in.tok, in.ti, in.ti2, x, y)
			fr.pc++
		case iMakeIface:
			v := m.get(fr, &in.a[0])
			fr.regs[in.dst] = V{o: &Iface{t: in.ti, v: v}}
			fr.pc++
		case iChangeType:
			fr.regs[in.dst] = m.get(fr, &in.a[0])
			fr.pc++
		default:
			if m.stepRare(g, fr, in) {
				return
			}
		}
		if m.steps > m.maxSteps {
			panic(pathEnd{"budget", "instruction budget exhausted at " + m.where()})
		}
	}
}

// stepRare executes the less frequent instructions; returns true to leave the loop.
func (m *Mach) stepRare(g *G, fr *Frame, in *Instr) bool {
	switch in.op {
	case iUnNot:
		x := m.get(fr, &in.a[0])
		if x.o == nil {
			fr.regs[in.dst] = V{n: x.n ^ 1}
		} else {
			fr.regs[in.dst] = m.fromTerm(m.ts.Not(x.o.(*Term)))
		}
		fr.pc++
	case iUnNeg:
		x := m.get(fr, &in.a[0])
		if in.ti.kind == kFloat {
			if x.o != nil {
				sign := m.ts.Const(in.ti.w, 1<<(in.ti.w-1))
				fr.regs[in.dst] = m.fromTerm(m.ts.Bin(OBXor, x.o.(*Term), sign))
			} else if in.ti.w == 32 {
				fr.regs[in.dst] = V{n: uint64(math.Float32bits(-math.Float32frombits(uint32(x.n))))}
			} else {
				fr.regs[in.dst] = mkF64(-f64(x))
			}
		} else if x.o == nil {
			fr.regs[in.dst] = V{n: (-x.n) & mask(in.ti.w)}
		} else {
			fr.regs[in.dst] = m.fromTerm(m.ts.Un(ONeg, in.ti.w, x.o.(*Term)))
		}
		fr.pc++
	case iUnXor:
		x := m.get(fr, &in.a[0])
		if x.o == nil {
			fr.regs[in.dst] = V{n: (^x.n) & mask(in.ti.w)}
		} else {
			fr.regs[in.dst] = m.fromTerm(m.ts.Un(OBNot, in.ti.w, x.o.(*Term)))
		}
		fr.pc++
	case iConvert:
		fr.regs[in.dst] = m.convert(in.ti, in.ti2, m.get(fr, &in.a[0]))
		fr.pc++
	case iSliceToArrPtr:
		x := m.get(fr, &in.a[0])
		n := int(in.ti.u.(*types.Array).Len())
		if x.o == nil {
			if n == 0 {
				fr.regs[in.dst] = V{}
				fr.pc++
				return false
			}
			m.rtPanic("slice to array pointer: length")
		}
		s := x.o.(*Slice)
		if len(s.f) < n {
			m.rtPanic("cannot convert slice to array pointer")
		}
		c := &V{o: &Agg{f: s.f[:n:n]}}
		fr.regs[in.dst] = V{o: c}
		fr.pc++
	case iMakeClosure:
		env := make([]V, len(in.a))
		for i := range in.a {
			env[i] = m.get(fr, &in.a[i])
		}
		fr.regs[in.dst] = V{o: &Closure{fn: in.call.fn, env: env}}
		fr.pc++
	case iMakeMap:
		fr.regs[in.dst] = V{o: m.newMap(in.ti)}
		fr.pc++
	case iMakeChan:
		n := m.concInt(m.get(fr, &in.a[0]), 64)
		fr.regs[in.dst] = V{o: m.newChan(int(n))}
		fr.pc++
	case iMakeSlice:
		n := int(int64(m.concInt(m.get(fr, &in.a[0]), 64)))
		c := int(int64(m.concInt(m.get(fr, &in.a[1]), 64)))
		if n < 0 || n > 1<<26 {
			m.rtPanic("makeslice: len out of range")
		}
		if c < n || c > 1<<26 {
			m.rtPanic("makeslice: cap out of range")
		}
		e := in.ti.Elem()
		f := make([]V, c)
		if e.kind == kStruct || e.kind == kArray {
			for i := range f {
				f[i] = zero(e)
			}
		}
		fr.regs[in.dst] = V{o: &Slice{f: f[:n]}}
		fr.pc++
	case iSlice:
		fr.regs[in.dst] = m.sliceOp(fr, in)
		fr.pc++
	case iIndexAddr:
		x := m.get(fr, &in.a[0])
		iv := m.get(fr, &in.a[1])
		var f []V
		if in.ti.kind == kSlice {
			if x.o != nil {
				f = x.o.(*Slice).f
			}
		} else {
			f = m.ptr(x).o.(*Agg).f
		}
		i := m.index(iv, in.ti2, len(f), in, fr, f)
		if i == -2 {
			return false // handled: next Load folded
		}
		fr.regs[in.dst] = V{o: &f[i]}
		fr.pc++
	case iIndex:
		x := m.get(fr, &in.a[0])
		iv := m.get(fr, &in.a[1])
		if in.ti.kind == kString {
			fr.regs[in.dst] = m.strIndex(strOf(x), iv, in.ti2)
		} else {
			f := x.o.(*Agg).f
			if t, ok := iv.o.(*Term); ok {
				if v, ok := m.symIndex(f, t, in.ti2, in.ti.Elem()); ok {
					fr.regs[in.dst] = v
					fr.pc++
					return false
				}
			}
			i := m.index(iv, in.ti2, len(f), nil, fr, nil)
			fr.regs[in.dst] = f[i]
		}
		fr.pc++
	case iLookup:
		x := m.get(fr, &in.a[0])
		k := m.get(fr, &in.a[1])
		if in.ti.kind == kString {
			fr.regs[in.dst] = m.strIndex(strOf(x), k, in.ti2)
		} else {
			v, ok := m.mapGet(x, in.ti, k)
			if in.ok {
				fr.regs[in.dst] = tuple(v, mkBool(ok))
			} else {
				fr.regs[in.dst] = v
			}
		}
		fr.pc++
	case iMapUpdate:
		x := m.get(fr, &in.a[0])
		if x.o == nil {
			panic(goPanic{m.rtErrPlain("assignment to entry in nil map")})
		}
		m.mapSet(x.o.(*Map), m.get(fr, &in.a[1]), m.get(fr, &in.a[2]))
		fr.pc++
	case iRange:
		x := m.get(fr, &in.a[0])
		if in.ti.kind == kString {
			fr.regs[in.dst] = V{o: &V{o: &MapIter{str: strOf(x), isStr: true}}}
		} else {
			it := &MapIter{}
			if x.o != nil {
				it.m = x.o.(*Map)
				m.prepIter(it)
			}
			fr.regs[in.dst] = V{o: &V{o: it}}
		}
		fr.pc++
	case iNext:
		c := m.get(fr, &in.a[0]).o.(*V)
		fr.regs[in.dst] = m.next(c)
		fr.pc++
	case iTypeAssert:
		fr.regs[in.dst] = m.typeAssert(in, m.get(fr, &in.a[0]))
		fr.pc++
	case iRunDefers:
		if n := len(fr.defers); n > 0 {
			old := fr.defers
			d := fr.defers[n-1]
			fr.defers = fr.defers[: n-1 : n-1]
			m.callDeferred(d, 1)
			if g.ready != nil { // a blocking deferred call is retried
				fr.defers = old
				return true
			}
			return m.cur != g
		}
		fr.pc++
	case iDefer:
		fv, args := m.prepCall(fr, in.call)
		d := deferRec{call: in.call, fn: fv, args: args}
		if in.call.mode == 1 && fv.o == nil {
			// nil func deferred: panics when executed
		}
		tgt := fr
		if len(in.a) > 0 {
			if ds := m.get(fr, &in.a[0]); ds.n > 0 {
				tgt = g.frames[ds.n-1]
			}
		}
		nd := make([]deferRec, len(tgt.defers), len(tgt.defers)+1)
		copy(nd, tgt.defers)
		tgt.defers = append(nd, d)
		fr.pc++
	case iPanic:
		v := m.get(fr, &in.a[0])
		if v.o == nil {
			v = m.rtErr("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
		}
		m.startPanic(v)
		return true
	case iGo:
		if m.exploreSched && !g.asked && m.schedPoint() {
			return true
		}
		g.asked = false
		m.spawn(fr, in.call)
		fr.pc++
	case iSend:
		if m.exploreSched && !g.asked && m.schedPoint() {
			return true
		}
		if m.chanSend(m.get(fr, &in.a[0]), m.get(fr, &in.a[1])) {
			g.asked = false
			fr.pc++
			return false
		}
		return true
	case iRecv:
		if m.exploreSched && !g.asked && m.schedPoint() {
			return true
		}
		v, ok, done := m.chanRecv(m.get(fr, &in.a[0]), in.ti)
		if !done {
			return true
		}
		g.asked = false
		if in.ok {
			fr.regs[in.dst] = tuple(v, mkBool(ok))
		} else {
			fr.regs[in.dst] = v
		}
		fr.pc++
	case iSelect:
		if m.exploreSched && !g.asked && m.schedPoint() {
			return true
		}
		r, done := m.selectOp(fr, in)
		if !done {
			return true
		}
		g.asked = false
		fr.regs[in.dst] = r
		fr.pc++
	default:
		panic(engErr(fmt.Sprintf("op %d", in.op)))
	}
	return false
}

func (m *Mach) rtErrPlain(msg string) V { return m.rtErr(msg) }

// fromTerm wraps a term as a value, collapsing constants.
func (m *Mach) fromTerm(t *Term) V {
	if t.op == OConst {
		return V{n: t.k}
	}
	return V{o: t}
}

// term views a scalar value as a term of width w.
func (m *Mach) term(v V, w uint8) *Term {
	if t, ok := v.o.(*Term); ok {
		return t
	}
	return m.ts.Const(w, v.n)
}

func (m *Mach) isSyncCall(ci *CallInfo) bool {
	if ci.mode != 0 {
		return false
	}
	return syncFns[ci.fn.name]
}


var whereDepth = func() int {
	if forkProf {
		return 30
	}
	return 12
}()
