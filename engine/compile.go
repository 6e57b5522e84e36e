package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opdKind uint8

const (
	oReg opdKind = iota
	oConst
	oGlobal
)

type Opd struct {
	kind opdKind
	idx  int32
	v    V
}

type succ struct {
	blk  int32
	pred int32
}

type opc uint8

const (
	iAlloc opc = iota
	iHeapAlloc
	iBinOp
	iUnNot
	iUnNeg
	iUnXor
	iLoad
	iRecv
	iCall
	iChangeType
	iConvert
	iMakeIface
	iMakeClosure
	iMakeMap
	iMakeChan
	iMakeSlice
	iSlice
	iFieldAddr
	iField
	iIndexAddr
	iIndex
	iLookup
	iSelect
	iRange
	iNext
	iTypeAssert
	iExtract
	iJump
	iIf
	iReturn
	iRunDefers
	iPanic
	iGo
	iDefer
	iSend
	iStore
	iMapUpdate
	iNop
	iSliceToArrPtr
	iMultiConvert
)

type Instr struct {
	op    opc
	dst   int32
	a     []Opd
	ti    *TypeInfo // result type / operand type depending on op
	ti2   *TypeInfo
	ti3   *TypeInfo
	k     int
	ok    bool
	tok   token.Token
	s     [2]succ
	call  *CallInfo
	sel   []selCase
	pos   token.Pos
	names []string
}

type selCase struct {
	dir  types.ChanDir
	ch   Opd
	val  Opd
	hasV bool
	ti   *TypeInfo
}

type CallInfo struct {
	mode    uint8 // 0 static func, 1 dynamic value, 2 invoke, 3 builtin
	fn      *Func
	method  *types.Func
	mname   string
	builtin string
	fnOpd   Opd
	args    []Opd
	sig     *types.Signature
	argT    []*TypeInfo
	resT    *TypeInfo
}

type Phi struct {
	dst   int32
	edges []Opd
}

type Block struct {
	phis []Phi
	ins  []Instr
}

type Func struct {
	fn     *ssa.Function
	name   string
	once   sync.Once
	nregs  int
	nparam int
	nfree  int
	blocks []Block
	recov  int // recover block or -1
	intr   intrinsic
	model  *Func
	pkg    *pkgState
	prog   *Prog
	resT   *TypeInfo
	hit    int32
	ninstr int
	repo   int8
}

type pkgState struct {
	pkg  *ssa.Package
	idx  int
	init *Func
	skip bool
}

type Prog struct {
	ssa     *ssa.Program
	mu      sync.Mutex
	fns     sync.Map // *ssa.Function -> *Func
	globs   map[*ssa.Global]int
	globT   []*TypeInfo
	globPkg []*pkgState
	globName []string
	pkgs    map[*ssa.Package]*pkgState
	pkgList []*pkgState
	models  map[string]*ssa.Function
	rtErrT, rtypeT, structFieldT, methodT *TypeInfo
	fset    *token.FileSet
}

func newProg(p *ssa.Program) *Prog {
	pr := &Prog{ssa: p, globs: map[*ssa.Global]int{}, pkgs: map[*ssa.Package]*pkgState{}, models: map[string]*ssa.Function{}, fset: p.Fset}
	return pr
}

func (p *Prog) pkgOf(sp *ssa.Package) *pkgState {
	if sp == nil {
		return nil
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.pkgOfLocked(sp)
}

func (p *Prog) pkgOfLocked(sp *ssa.Package) *pkgState {
	if ps, ok := p.pkgs[sp]; ok {
		return ps
	}
	ps := &pkgState{pkg: sp, idx: len(p.pkgList)}
	p.pkgs[sp] = ps
	p.pkgList = append(p.pkgList, ps)
	return ps
}

func (p *Prog) global(g *ssa.Global) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	if i, ok := p.globs[g]; ok {
		return i
	}
	i := len(p.globT)
	p.globs[g] = i
	p.globT = append(p.globT, TI(g.Type().(*types.Pointer).Elem()))
	p.globPkg = append(p.globPkg, p.pkgOfLocked(g.Pkg))
	p.globName = append(p.globName, g.String())
	return i
}

func (p *Prog) globInfo(i int) (*TypeInfo, *pkgState) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.globT[i], p.globPkg[i]
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (p *Prog) fn(f *ssa.Function) *Func {
	if v, ok := p.fns.Load(f); ok {
		return v.(*Func)
	}
	fu := &Func{fn: f, name: fnName(f), prog: p, recov: -1}
	fu.nparam = len(f.Params)
	fu.nfree = len(f.FreeVars)
	fu.intr = lookupIntrinsic(fu.name)
	if fu.intr == nil && f.Synthetic == "" || f.Blocks == nil {
		if mf, ok := p.models[fu.name]; ok && mf != f {
			fu.model = p.fn(mf)
		}
	}
	if f.Pkg != nil {
		fu.pkg = p.pkgOf(f.Pkg)
	}
	r := f.Signature.Results()
	switch r.Len() {
	case 0:
	case 1:
		fu.resT = TI(r.At(0).Type())
	default:
		fu.resT = TI(r)
	}
	v, _ := p.fns.LoadOrStore(f, fu)
	return v.(*Func)
}

func constV(c *ssa.Const) V {
	ti := TI(c.Type())
	if c.Value == nil {
		return zero(ti)
	}
	switch ti.kind {
	case kBool:
		return mkBool(constant.BoolVal(c.Value))
	case kInt:
		if ti.sgn {
			return V{n: uint64(c.Int64()) & mask(ti.w)}
		}
		return V{n: c.Uint64() & mask(ti.w)}
	case kFloat:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if ti.w == 32 {
			return V{n: uint64(math.Float32bits(float32(f)))}
		}
		return mkF64(f)
	case kString:
		if c.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(c.Value))
		}
		return mkStr(string(rune(c.Int64())))
	case kComplex:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return V{o: complex(re, im)}
	case kIface:
		// untyped const converted to interface does not occur in SSA
	}
	panic(fmt.Sprintf("const %v : %v", c, c.Type()))
}

func (f *Func) compile() { f.once.Do(f.compile1) }

func (f *Func) compile1() {
	fn := f.fn
	if fn.Blocks == nil {
		return
	}
	reg := map[ssa.Value]int32{}
	n := int32(0)
	for _, p := range fn.Params {
		reg[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		reg[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				reg[v] = n
				n++
			}
		}
	}
	f.nregs = int(n)
	p := f.prog
	opd := func(v ssa.Value) Opd {
		switch v := v.(type) {
		case nil:
			return Opd{kind: oConst}
		case *ssa.Const:
			return Opd{kind: oConst, v: constV(v)}
		case *ssa.Global:
			return Opd{kind: oGlobal, idx: int32(p.global(v))}
		case *ssa.Function:
			return Opd{kind: oConst, v: V{o: &Closure{fn: p.fn(v)}}}
		case *ssa.Builtin:
			return Opd{kind: oConst, v: V{o: &BuiltinFn{v}}}
		}
		r, ok := reg[v]
		if !ok {
			panic(fmt.Sprintf("no reg for %v in %v", v, fn))
		}
		return Opd{kind: oReg, idx: r}
	}
	callInfo := func(c *ssa.CallCommon) *CallInfo {
		ci := &CallInfo{sig: c.Signature()}
		for _, a := range c.Args {
			ci.args = append(ci.args, opd(a))
			ci.argT = append(ci.argT, TI(a.Type()))
		}
		if c.IsInvoke() {
			ci.mode = 2
			ci.method = c.Method
			ci.mname = c.Method.Id()
			ci.fnOpd = opd(c.Value)
			return ci
		}
		switch v := c.Value.(type) {
		case *ssa.Builtin:
			ci.mode = 3
			ci.builtin = v.Name()
			if ci.builtin == "String" && len(c.Args) == 2 {
				// unsafe.String(&b[0], n): keep the slice rather than the element address
				if ia, ok := c.Args[0].(*ssa.IndexAddr); ok {
					if k, ok := ia.Index.(*ssa.Const); ok && k.Int64() == 0 {
						if _, ok := ia.X.Type().Underlying().(*types.Slice); ok {
							ci.args[0] = opd(ia.X)
						}
					}
				}
			}
		case *ssa.Function:
			ci.mode = 0
			ci.fn = p.fn(v)
		default:
			ci.mode = 1
			ci.fnOpd = opd(c.Value)
		}
		return ci
	}
	f.blocks = make([]Block, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		blk := &f.blocks[bi]
		mkSucc := func(i int) succ {
			t := b.Succs[i]
			cnt := 0
			for j := 0; j < i; j++ {
				if b.Succs[j] == t {
					cnt++
				}
			}
			for pi, pr := range t.Preds {
				if pr == b {
					if cnt == 0 {
						return succ{int32(t.Index), int32(pi)}
					}
					cnt--
				}
			}
			panic("succ")
		}
		for ii, in := range b.Instrs {
			x := Instr{dst: -1, pos: in.Pos()}
			if v, ok := in.(ssa.Value); ok {
				x.dst = reg[v]
			}
			switch in := in.(type) {
			case *ssa.Phi:
				ph := Phi{dst: x.dst}
				for _, e := range in.Edges {
					ph.edges = append(ph.edges, opd(e))
				}
				blk.phis = append(blk.phis, ph)
				continue
			case *ssa.DebugRef:
				continue
			case *ssa.Alloc:
				x.op = iHeapAlloc
				x.ti = TI(in.Type().Underlying().(*types.Pointer).Elem())
			case *ssa.BinOp:
				x.op = iBinOp
				x.tok = in.Op
				x.a = []Opd{opd(in.X), opd(in.Y)}
				x.ti = TI(in.X.Type())
				x.ti2 = TI(in.Y.Type())
			case *ssa.UnOp:
				x.a = []Opd{opd(in.X)}
				x.ti = TI(in.Type())
				switch in.Op {
				case token.NOT:
					x.op = iUnNot
				case token.SUB:
					x.op = iUnNeg
				case token.XOR:
					x.op = iUnXor
				case token.MUL:
					x.op = iLoad
				case token.ARROW:
					x.op = iRecv
					x.ok = in.CommaOk
					x.ti = TI(in.X.Type().Underlying().(*types.Chan).Elem())
				}
			case *ssa.Call:
				x.op = iCall
				x.call = callInfo(&in.Call)
				x.ti = TI(in.Type())
			case *ssa.ChangeInterface:
				x.op = iChangeType
				x.a = []Opd{opd(in.X)}
			case *ssa.ChangeType:
				x.op = iChangeType
				x.a = []Opd{opd(in.X)}
			case *ssa.Convert:
				x.op = iConvert
				x.a = []Opd{opd(in.X)}
				x.ti = TI(in.X.Type())
				x.ti2 = TI(in.Type())
			case *ssa.MultiConvert:
				x.op = iConvert
				x.a = []Opd{opd(in.X)}
				x.ti = TI(in.X.Type())
				x.ti2 = TI(in.Type())
			case *ssa.SliceToArrayPointer:
				x.op = iSliceToArrPtr
				x.a = []Opd{opd(in.X)}
				x.ti = TI(in.Type().Underlying().(*types.Pointer).Elem())
			case *ssa.MakeInterface:
				x.op = iMakeIface
				x.a = []Opd{opd(in.X)}
				x.ti = TI(in.X.Type())
			case *ssa.MakeClosure:
				x.op = iMakeClosure
				x.call = &CallInfo{fn: p.fn(in.Fn.(*ssa.Function))}
				for _, b := range in.Bindings {
					x.a = append(x.a, opd(b))
				}
			case *ssa.MakeMap:
				x.op = iMakeMap
				x.ti = TI(in.Type())
			case *ssa.MakeChan:
				x.op = iMakeChan
				x.ti = TI(in.Type())
				x.a = []Opd{opd(in.Size)}
			case *ssa.MakeSlice:
				x.op = iMakeSlice
				x.ti = TI(in.Type())
				x.a = []Opd{opd(in.Len), opd(in.Cap)}
			case *ssa.Slice:
				x.op = iSlice
				x.ti = TI(in.X.Type())
				x.a = []Opd{opd(in.X), opd(in.Low), opd(in.High), opd(in.Max)}
				x.k = 0
				if in.Low != nil {
					x.k |= 1
				}
				if in.High != nil {
					x.k |= 2
				}
				if in.Max != nil {
					x.k |= 4
				}
			case *ssa.FieldAddr:
				x.op = iFieldAddr
				x.a = []Opd{opd(in.X)}
				x.k = in.Field
			case *ssa.Field:
				x.op = iField
				x.a = []Opd{opd(in.X)}
				x.k = in.Field
			case *ssa.IndexAddr:
				x.op = iIndexAddr
				x.a = []Opd{opd(in.X), opd(in.Index)}
				x.ti = TI(in.X.Type())
				x.ti2 = TI(in.Index.Type())
				if refs := in.Referrers(); refs != nil && len(*refs) == 1 && ii+1 < len(b.Instrs) {
					if u, ok := (*refs)[0].(*ssa.UnOp); ok && u.Op == token.MUL && b.Instrs[ii+1] == ssa.Instruction(u) {
						x.k = 1
						x.ti3 = TI(u.Type())
					}
				}
			case *ssa.Index:
				x.op = iIndex
				x.a = []Opd{opd(in.X), opd(in.Index)}
				x.ti = TI(in.X.Type())
				x.ti2 = TI(in.Index.Type())
			case *ssa.Lookup:
				x.op = iLookup
				x.a = []Opd{opd(in.X), opd(in.Index)}
				x.ti = TI(in.X.Type())
				x.ti2 = TI(in.Index.Type())
				x.ok = in.CommaOk
			case *ssa.Select:
				x.op = iSelect
				x.ok = in.Blocking
				for _, st := range in.States {
					sc := selCase{dir: st.Dir, ch: opd(st.Chan), ti: TI(st.Chan.Type().Underlying().(*types.Chan).Elem())}
					if st.Send != nil {
						sc.val = opd(st.Send)
						sc.hasV = true
					}
					x.sel = append(x.sel, sc)
				}
			case *ssa.Range:
				x.op = iRange
				x.a = []Opd{opd(in.X)}
				x.ti = TI(in.X.Type())
			case *ssa.Next:
				x.op = iNext
				x.a = []Opd{opd(in.Iter)}
				x.ok = in.IsString
			case *ssa.TypeAssert:
				x.op = iTypeAssert
				x.a = []Opd{opd(in.X)}
				x.ti = TI(in.AssertedType)
				x.ti2 = TI(in.X.Type())
				x.ok = in.CommaOk
			case *ssa.Extract:
				x.op = iExtract
				x.a = []Opd{opd(in.Tuple)}
				x.k = in.Index
			case *ssa.Jump:
				x.op = iJump
				x.s[0] = mkSucc(0)
			case *ssa.If:
				x.op = iIf
				x.a = []Opd{opd(in.Cond)}
				x.s[0] = mkSucc(0)
				x.s[1] = mkSucc(1)
			case *ssa.Return:
				x.op = iReturn
				for _, r := range in.Results {
					x.a = append(x.a, opd(r))
				}
			case *ssa.RunDefers:
				x.op = iRunDefers
			case *ssa.Panic:
				x.op = iPanic
				x.a = []Opd{opd(in.X)}
			case *ssa.Go:
				x.op = iGo
				x.call = callInfo(&in.Call)
			case *ssa.Defer:
				x.op = iDefer
				x.call = callInfo(&in.Call)
				if in.DeferStack != nil {
					x.a = []Opd{opd(in.DeferStack)}
				}
			case *ssa.Send:
				x.op = iSend
				x.a = []Opd{opd(in.Chan), opd(in.X)}
			case *ssa.Store:
				x.op = iStore
				x.a = []Opd{opd(in.Addr), opd(in.Val)}
			case *ssa.MapUpdate:
				x.op = iMapUpdate
				x.a = []Opd{opd(in.Map), opd(in.Key), opd(in.Value)}
				x.ti = TI(in.Map.Type())
			default:
				panic(fmt.Sprintf("compile: %T", in))
			}
			blk.ins = append(blk.ins, x)
			f.ninstr++
		}
	}
	if fn.Recover != nil {
		f.recov = fn.Recover.Index
	}
}

const repoModule = "github.com/pb33f/libopenapi"

func (f *Func) inRepo() bool {
	if f.repo == 0 {
		f.repo = 1
		fn := f.fn
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		var pk *types.Package
		if fn.Pkg != nil {
			pk = fn.Pkg.Pkg
		} else if o := fn.Origin(); o != nil && o.Pkg != nil {
			pk = o.Pkg.Pkg
		} else if fn.Object() != nil {
			pk = fn.Object().Pkg()
		}
		if pk != nil && strings.HasPrefix(pk.Path(), repoModule) && !strings.Contains(pk.Path(), "zz_v") {
			f.repo = 2
		}
	}
	return f.repo == 2
}
