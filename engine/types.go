package main

import (
	"go/types"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

// TypeInfo is the canonical representation of a Go type.
type TypeInfo struct {
	t    types.Type // canonical
	u    types.Type // underlying
	id   int
	kind kindT
	w    uint8 // bit width for scalars (0 bool)
	sgn  bool
	size int64
	mu      sync.Mutex
	methods map[string]*Func // dynamic dispatch cache
	impl    map[*TypeInfo]bool
	elem    *TypeInfo
	fields  []*TypeInfo
	cmpOnce sync.Once
	cmp     bool
	ptrTo   *TypeInfo
}

type kindT uint8

const (
	kInvalid kindT = iota
	kBool
	kInt
	kFloat
	kComplex
	kString
	kUnsafe
	kPtr
	kStruct
	kArray
	kSlice
	kMap
	kChan
	kFunc
	kIface
	kTuple
	kOpaque // reflect.Value
)

type TypeTab struct {
	mu   sync.RWMutex
	m    typeutil.Map
	fast sync.Map // types.Type -> *TypeInfo
	n    int
	sizes types.Sizes
}

var tt = &TypeTab{sizes: types.SizesFor("gc", "amd64")}

func TI(t types.Type) *TypeInfo {
	if v, ok := tt.fast.Load(t); ok {
		return v.(*TypeInfo)
	}
	tt.mu.Lock()
	if v := tt.m.At(t); v != nil {
		ti := v.(*TypeInfo)
		tt.mu.Unlock()
		tt.fast.Store(t, ti)
		return ti
	}
	tt.n++
	ti := &TypeInfo{t: t, u: t.Underlying(), id: tt.n, methods: map[string]*Func{}, impl: map[*TypeInfo]bool{}}
	ti.init()
	tt.m.Set(t, ti)
	tt.mu.Unlock()
	tt.fast.Store(t, ti)
	return ti
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

func (ti *TypeInfo) init() {
	ti.kind, ti.w, ti.sgn = scalarInfo(ti.u)
	if isNamed(ti.t, "reflect", "Value") {
		ti.kind = kOpaque
	}
}

func scalarInfo(u types.Type) (kindT, uint8, bool) {
	switch u := u.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return kBool, 0, false
		case types.Int, types.Int64, types.UntypedInt:
			return kInt, 64, true
		case types.Int8:
			return kInt, 8, true
		case types.Int16:
			return kInt, 16, true
		case types.Int32, types.UntypedRune:
			return kInt, 32, true
		case types.Uint, types.Uint64, types.Uintptr:
			return kInt, 64, false
		case types.Uint8:
			return kInt, 8, false
		case types.Uint16:
			return kInt, 16, false
		case types.Uint32:
			return kInt, 32, false
		case types.Float64, types.UntypedFloat:
			return kFloat, 64, false
		case types.Float32:
			return kFloat, 32, false
		case types.Complex64, types.Complex128:
			return kComplex, 0, false
		case types.String, types.UntypedString:
			return kString, 0, false
		case types.UnsafePointer:
			return kUnsafe, 0, false
		case types.UntypedNil:
			return kPtr, 0, false
		}
	case *types.Pointer:
		return kPtr, 0, false
	case *types.Struct:
		return kStruct, 0, false
	case *types.Array:
		return kArray, 0, false
	case *types.Slice:
		return kSlice, 0, false
	case *types.Map:
		return kMap, 0, false
	case *types.Chan:
		return kChan, 0, false
	case *types.Signature:
		return kFunc, 0, false
	case *types.Interface:
		return kIface, 0, false
	case *types.Tuple:
		return kTuple, 0, false
	}
	return kInvalid, 0, false
}

func (ti *TypeInfo) Elem() *TypeInfo {
	if ti.elem == nil {
		switch u := ti.u.(type) {
		case *types.Pointer:
			ti.elem = TI(u.Elem())
		case *types.Slice:
			ti.elem = TI(u.Elem())
		case *types.Array:
			ti.elem = TI(u.Elem())
		case *types.Map:
			ti.elem = TI(u.Elem())
		case *types.Chan:
			ti.elem = TI(u.Elem())
		}
	}
	return ti.elem
}

func (ti *TypeInfo) Key() *TypeInfo { return TI(ti.u.(*types.Map).Key()) }

func (ti *TypeInfo) Fields() []*TypeInfo {
	if ti.fields == nil {
		if s, ok := ti.u.(*types.Struct); ok {
			f := make([]*TypeInfo, s.NumFields())
			for i := range f {
				f[i] = TI(s.Field(i).Type())
			}
			ti.fields = f
		}
	}
	return ti.fields
}

func (ti *TypeInfo) PtrTo() *TypeInfo {
	if ti.ptrTo == nil {
		ti.ptrTo = TI(types.NewPointer(ti.t))
	}
	return ti.ptrTo
}

func (ti *TypeInfo) Size() int64 {
	return tt.sizes.Sizeof(ti.t)
}

func (ti *TypeInfo) Comparable() bool {
	ti.cmpOnce.Do(func() { ti.cmp = types.Comparable(ti.t) })
	return ti.cmp
}

func (ti *TypeInfo) Implements(i *TypeInfo) bool {
	ti.mu.Lock()
	v, ok := ti.impl[i]
	ti.mu.Unlock()
	if ok {
		return v
	}
	v = types.Implements(ti.t, i.u.(*types.Interface))
	ti.mu.Lock()
	ti.impl[i] = v
	ti.mu.Unlock()
	return v
}
