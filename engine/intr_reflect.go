package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"reflect"
	"sort"
	"strings"
)

// RV models reflect.Value.
type RV struct {
	t    *TypeInfo
	v    V
	p    *V // addressable storage (p != nil)
	ro   bool
	recv *V // method value
	fn   *Func
	fv   *V
}

func (r *RV) get(m *Mach) V {
	if r.p != nil {
		return m.load(r.p)
	}
	return r.v
}

func mkRV(r *RV) V { return V{o: r} }

func (m *Mach) rv(v V) *RV {
	if v.o == nil {
		return nil
	}
	return v.o.(*RV)
}

func (m *Mach) rvMust(v V, meth string) *RV {
	r := m.rv(v)
	if r == nil {
		m.strPanic("reflect: call of reflect.Value." + meth + " on zero Value")
	}
	return r
}

func (m *Mach) strPanic(s string) {
	panic(goPanic{mkIface(TI(types.Typ[types.String]), mkStr(s))})
}

func goKind(ti *TypeInfo) reflect.Kind {
	switch u := ti.t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Struct:
		return reflect.Struct
	case *types.Array:
		return reflect.Array
	case *types.Slice:
		return reflect.Slice
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	}
	return reflect.Invalid
}

func (m *Mach) mkType(ti *TypeInfo) V {
	if ti == nil {
		return V{}
	}
	return mkIface(m.p.rtypeT, V{o: &RType{ti}})
}

func (m *Mach) typeArg(v V) *TypeInfo {
	if v.o == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	return v.o.(*Iface).v.o.(*RType).t
}

func isExportedName(n string) bool { return ast.IsExported(n) }

func typeName(t types.Type) string {
	switch t := t.(type) {
	case *types.Named:
		n := t.Obj().Name()
		if ta := t.TypeArgs(); ta != nil && ta.Len() > 0 {
			var ss []string
			for i := 0; i < ta.Len(); i++ {
				ss = append(ss, types.TypeString(ta.At(i), func(p *types.Package) string { return p.Path() }))
			}
			n += "[" + strings.Join(ss, ",") + "]"
		}
		return n
	case *types.Basic:
		return t.Name()
	}
	return ""
}

func typeString(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	s = strings.ReplaceAll(s, "any", "interface {}")
	s = strings.ReplaceAll(s, "interface{}", "interface {}")
	return s
}

func pkgPath(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

func (m *Mach) structFieldV(ti *TypeInfo, i int, index []int) V {
	st := ti.u.(*types.Struct)
	f := st.Field(i)
	v := zero(m.p.structFieldT)
	a := v.o.(*Agg)
	ft := m.p.structFieldT.u.(*types.Struct)
	for k := 0; k < ft.NumFields(); k++ {
		switch ft.Field(k).Name() {
		case "Name":
			a.f[k] = mkStr(f.Name())
		case "PkgPath":
			if !f.Exported() && f.Pkg() != nil {
				a.f[k] = mkStr(f.Pkg().Path())
			}
		case "Type":
			a.f[k] = m.mkType(TI(f.Type()))
		case "Tag":
			a.f[k] = mkStr(st.Tag(i))
		case "Index":
			ix := make([]V, len(index))
			for j := range index {
				ix[j] = mkInt(index[j])
			}
			a.f[k] = mkSlice(ix)
		case "Anonymous":
			a.f[k] = mkBool(f.Anonymous())
		}
	}
	return v
}

// findField resolves a possibly promoted field by name.
func findField(ti *TypeInfo, name string) []int {
	obj, index, _ := types.LookupFieldOrMethod(ti.t, true, nil, name)
	if v, ok := obj.(*types.Var); ok && v.IsField() {
		return index
	}
	// unexported: search directly
	if st, ok := ti.u.(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return []int{i}
			}
		}
	}
	return nil
}

func exportedMethods(ti *TypeInfo) []*types.Func {
	ms := types.NewMethodSet(ti.t)
	var r []*types.Func
	for i := 0; i < ms.Len(); i++ {
		f := ms.At(i).Obj().(*types.Func)
		if f.Exported() {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r
}

func (m *Mach) methodV(ti *TypeInfo, f *types.Func, idx int) V {
	v := zero(m.p.methodT)
	a := v.o.(*Agg)
	mt := m.p.methodT.u.(*types.Struct)
	for k := 0; k < mt.NumFields(); k++ {
		switch mt.Field(k).Name() {
		case "Name":
			a.f[k] = mkStr(f.Name())
		case "Type":
			a.f[k] = m.mkType(TI(f.Type()))
		case "Index":
			a.f[k] = mkInt(idx)
		}
	}
	return v
}

// rtypeMethod dispatches reflect.Type interface methods.
func (m *Mach) rtypeMethod(rt *RType, name string, a []V) (V, action) {
	t := rt.t
	switch name {
	case "Kind":
		return mkInt(int(goKind(t))), actDone
	case "Name":
		return mkStr(typeName(t.t)), actDone
	case "String":
		return mkStr(typeString(t.t)), actDone
	case "PkgPath":
		return mkStr(pkgPath(t.t)), actDone
	case "Elem":
		e := t.Elem()
		if e == nil {
			m.strPanic("reflect: Elem of invalid type " + typeString(t.t))
		}
		return m.mkType(e), actDone
	case "Key":
		return m.mkType(t.Key()), actDone
	case "NumField":
		st, ok := t.u.(*types.Struct)
		if !ok {
			m.strPanic("reflect: NumField of non-struct type " + typeString(t.t))
		}
		return mkInt(st.NumFields()), actDone
	case "Field":
		i := int(m.concInt(a[1], 64))
		return m.structFieldV(t, i, []int{i}), actDone
	case "FieldByName":
		ix := findField(t, m.argS(a[1]))
		if ix == nil {
			return tuple(zero(m.p.structFieldT), V{}), actDone
		}
		ct := t
		for _, k := range ix[:len(ix)-1] {
			ct = ct.Fields()[k]
			if ct.kind == kPtr {
				ct = ct.Elem()
			}
		}
		return tuple(m.structFieldV(ct, ix[len(ix)-1], ix), mkBool(true)), actDone
	case "NumMethod":
		if t.kind == kIface {
			return mkInt(t.u.(*types.Interface).NumMethods()), actDone
		}
		return mkInt(len(exportedMethods(t))), actDone
	case "Method":
		i := int(m.concInt(a[1], 64))
		return m.methodV(t, exportedMethods(t)[i], i), actDone
	case "MethodByName":
		for i, f := range exportedMethods(t) {
			if f.Name() == m.argS(a[1]) {
				return tuple(m.methodV(t, f, i), mkBool(true)), actDone
			}
		}
		return tuple(zero(m.p.methodT), V{}), actDone
	case "Implements":
		return mkBool(t.Implements(m.typeArg(a[1]))), actDone
	case "AssignableTo":
		return mkBool(types.AssignableTo(t.t, m.typeArg(a[1]).t)), actDone
	case "ConvertibleTo":
		return mkBool(types.ConvertibleTo(t.t, m.typeArg(a[1]).t)), actDone
	case "Comparable":
		return mkBool(t.Comparable()), actDone
	case "Len":
		return mkInt(int(t.u.(*types.Array).Len())), actDone
	case "Size":
		return mkInt(int(t.Size())), actDone
	case "Bits":
		return mkInt(int(t.Size()) * 8), actDone
	case "NumIn":
		return mkInt(t.u.(*types.Signature).Params().Len()), actDone
	case "NumOut":
		return mkInt(t.u.(*types.Signature).Results().Len()), actDone
	case "In":
		return m.mkType(TI(t.u.(*types.Signature).Params().At(int(a[1].n)).Type())), actDone
	case "Out":
		return m.mkType(TI(t.u.(*types.Signature).Results().At(int(a[1].n)).Type())), actDone
	case "IsVariadic":
		return mkBool(t.u.(*types.Signature).Variadic()), actDone
	case "common", "uncommon":
		return V{o: new(V)}, actDone
	case "OverflowInt", "OverflowUint", "OverflowFloat":
		return V{}, actDone
	}
	panic(engErr("reflect.Type." + name))
}

func (m *Mach) rvSet(r *RV, v V) {
	if r.p == nil {
		m.strPanic("reflect: reflect.Value.Set using unaddressable value")
	}
	if r.ro {
		m.strPanic("reflect: reflect.Value.Set using value obtained using unexported field")
	}
	m.store(r.p, v)
}

// asType converts a value of dynamic type (rv) into static type t (wrapping into interfaces).
func (m *Mach) asType(x *RV, t *TypeInfo) V {
	v := x.get(m)
	if t.kind == kIface && x.t.kind != kIface {
		return mkIface(x.t, v)
	}
	return v
}

func (m *Mach) rvIface(r *RV) V {
	v := r.get(m)
	if r.fn != nil {
		return mkIface(r.t, V{o: &Closure{fn: r.fn, env: nil}})
	}
	if r.t.kind == kIface {
		return v
	}
	return mkIface(r.t, copyAgg(v))
}

func (m *Mach) rvField(r *RV, i int) V {
	fs := r.t.Fields()
	st := r.t.u.(*types.Struct)
	if i < 0 || i >= len(fs) {
		m.strPanic("reflect: Field index out of range")
	}
	nr := &RV{t: fs[i], ro: r.ro || !st.Field(i).Exported()}
	if r.p != nil {
		nr.p = &r.p.o.(*Agg).f[i]
	} else {
		nr.v = r.v.o.(*Agg).f[i]
	}
	return mkRV(nr)
}

type rvIter struct {
	m    *Map
	ents []*MapEnt
	pos  int
}

func init() {
	rvm := func(name string, f func(m *Mach, r *RV, a []V) V) {
		reg("(reflect.Value)."+name, func(m *Mach, fn *Func, a []V) (V, action) {
			return f(m, m.rvMust(a[0], name), a), actDone
		})
	}
	reg("reflect.TypeOf", func(m *Mach, fn *Func, a []V) (V, action) {
		if a[0].o == nil {
			return V{}, actDone
		}
		return m.mkType(a[0].o.(*Iface).t), actDone
	})
	reg("reflect.TypeFor", func(m *Mach, fn *Func, a []V) (V, action) {
		return m.mkType(TI(fn.fn.TypeArgs()[0])), actDone
	})
	reg("reflect.ValueOf", func(m *Mach, fn *Func, a []V) (V, action) {
		if a[0].o == nil {
			return V{}, actDone
		}
		i := a[0].o.(*Iface)
		return mkRV(&RV{t: i.t, v: i.v}), actDone
	})
	reg("reflect.New", func(m *Mach, fn *Func, a []V) (V, action) {
		t := m.typeArg(a[0])
		c := new(V)
		*c = zero(t)
		return mkRV(&RV{t: t.PtrTo(), v: V{o: c}}), actDone
	})
	reg("reflect.Zero", func(m *Mach, fn *Func, a []V) (V, action) {
		t := m.typeArg(a[0])
		return mkRV(&RV{t: t, v: zero(t)}), actDone
	})
	reg("reflect.MakeSlice", func(m *Mach, fn *Func, a []V) (V, action) {
		t := m.typeArg(a[0])
		n, c := int(m.concInt(a[1], 64)), int(m.concInt(a[2], 64))
		f := make([]V, c)
		for i := range f {
			f[i] = zero(t.Elem())
		}
		return mkRV(&RV{t: t, v: mkSlice(f[:n])}), actDone
	})
	mkMap := func(m *Mach, fn *Func, a []V) (V, action) {
		t := m.typeArg(a[0])
		return mkRV(&RV{t: t, v: V{o: m.newMap(t)}}), actDone
	}
	reg("reflect.MakeMap", mkMap)
	reg("reflect.MakeMapWithSize", mkMap)
	ptrTo := func(m *Mach, fn *Func, a []V) (V, action) { return m.mkType(m.typeArg(a[0]).PtrTo()), actDone }
	reg("reflect.PointerTo", ptrTo)
	reg("reflect.PtrTo", ptrTo)
	reg("reflect.SliceOf", func(m *Mach, fn *Func, a []V) (V, action) {
		return m.mkType(TI(types.NewSlice(m.typeArg(a[0]).t))), actDone
	})
	reg("reflect.MapOf", func(m *Mach, fn *Func, a []V) (V, action) {
		return m.mkType(TI(types.NewMap(m.typeArg(a[0]).t, m.typeArg(a[1]).t))), actDone
	})
	reg("reflect.Indirect", func(m *Mach, fn *Func, a []V) (V, action) {
		r := m.rv(a[0])
		if r == nil || r.t.kind != kPtr {
			return a[0], actDone
		}
		p := r.get(m)
		if p.o == nil {
			return V{}, actDone
		}
		return mkRV(&RV{t: r.t.Elem(), p: m.ptr(p)}), actDone
	})
	reg("reflect.Append", func(m *Mach, fn *Func, a []V) (V, action) {
		r := m.rvMust(a[0], "Append")
		var vs []V
		for _, x := range sliceV(a[1]) {
			vs = append(vs, m.asType(m.rv(x), r.t.Elem()))
		}
		return mkRV(&RV{t: r.t, v: m.appendVals(r.get(m), r.t.Elem(), vs)}), actDone
	})
	reg("reflect.Copy", func(m *Mach, fn *Func, a []V) (V, action) {
		d, s := sliceV(m.rv(a[0]).get(m)), sliceV(m.rv(a[1]).get(m))
		n := len(d)
		if len(s) < n {
			n = len(s)
		}
		for i := 0; i < n; i++ {
			m.store(&d[i], s[i])
		}
		return mkInt(n), actDone
	})
	reg("reflect.Swapper", func(m *Mach, fn *Func, a []V) (V, action) { panic(engErr("reflect.Swapper")) })
	reg(repoModule+"/zz_vmodel.swap", func(m *Mach, fn *Func, a []V) (V, action) {
		f := sliceV(a[0].o.(*Iface).v)
		i, j := int(a[1].n), int(a[2].n)
		x, y := copyAgg(f[i]), copyAgg(f[j])
		m.store(&f[i], y)
		m.store(&f[j], x)
		return V{}, actDone
	})
	reg("(reflect.Value).IsValid", func(m *Mach, fn *Func, a []V) (V, action) { return mkBool(a[0].o != nil), actDone })
	reg("(reflect.Value).Kind", func(m *Mach, fn *Func, a []V) (V, action) {
		r := m.rv(a[0])
		if r == nil {
			return V{}, actDone
		}
		return mkInt(int(goKind(r.t))), actDone
	})
	reg("(reflect.Value).kind", intrinsics["(reflect.Value).Kind"])
	reg("(reflect.Value).String", func(m *Mach, fn *Func, a []V) (V, action) {
		r := m.rv(a[0])
		if r == nil {
			return mkStr("<invalid Value>"), actDone
		}
		if r.t.kind == kString {
			return r.get(m), actDone
		}
		return mkStr("<" + typeString(r.t.t) + " Value>"), actDone
	})
	rvm("Type", func(m *Mach, r *RV, a []V) V { return m.mkType(r.t) })
	rvm("Interface", func(m *Mach, r *RV, a []V) V {
		if r.ro {
			m.strPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return m.rvIface(r)
	})
	reg("reflect.valueInterface", func(m *Mach, fn *Func, a []V) (V, action) {
		return m.rvIface(m.rvMust(a[0], "Interface")), actDone
	})
	rvm("CanInterface", func(m *Mach, r *RV, a []V) V { return mkBool(!r.ro) })
	rvm("CanSet", func(m *Mach, r *RV, a []V) V { return mkBool(r.p != nil && !r.ro) })
	rvm("CanAddr", func(m *Mach, r *RV, a []V) V { return mkBool(r.p != nil) })
	rvm("Addr", func(m *Mach, r *RV, a []V) V {
		if r.p == nil {
			m.strPanic("reflect.Value.Addr of unaddressable value")
		}
		return mkRV(&RV{t: r.t.PtrTo(), v: V{o: r.p}, ro: r.ro})
	})
	rvm("Elem", func(m *Mach, r *RV, a []V) V {
		v := r.get(m)
		switch r.t.kind {
		case kPtr:
			if v.o == nil {
				return V{}
			}
			return mkRV(&RV{t: r.t.Elem(), p: m.ptr(v), ro: r.ro})
		case kIface:
			if v.o == nil {
				return V{}
			}
			i := v.o.(*Iface)
			return mkRV(&RV{t: i.t, v: i.v, ro: r.ro})
		}
		m.strPanic("reflect: call of reflect.Value.Elem on " + goKind(r.t).String() + " Value")
		return V{}
	})
	rvm("IsNil", func(m *Mach, r *RV, a []V) V {
		switch r.t.kind {
		case kPtr, kMap, kSlice, kIface, kFunc, kChan, kUnsafe:
			if r.fn != nil {
				return V{}
			}
			return mkBool(r.get(m).o == nil)
		}
		m.strPanic("reflect: call of reflect.Value.IsNil on " + goKind(r.t).String() + " Value")
		return V{}
	})
	rvm("IsZero", func(m *Mach, r *RV, a []V) V { return m.isZero(r.t, r.get(m)) })
	rvm("Len", func(m *Mach, r *RV, a []V) V {
		switch r.t.kind {
		case kSlice, kMap, kString, kArray, kChan:
			return m.lenOf(r.t, r.get(m))
		}
		m.strPanic("reflect: call of reflect.Value.Len on " + goKind(r.t).String() + " Value")
		return V{}
	})
	rvm("Cap", func(m *Mach, r *RV, a []V) V { return mkInt(cap(sliceV(r.get(m)))) })
	rvm("Index", func(m *Mach, r *RV, a []V) V {
		i := int(int64(m.concInt(a[1], 64)))
		switch r.t.kind {
		case kSlice:
			f := sliceV(r.get(m))
			if i < 0 || i >= len(f) {
				m.strPanic("reflect: slice index out of range")
			}
			return mkRV(&RV{t: r.t.Elem(), p: &f[i], ro: r.ro})
		case kArray:
			if r.p != nil {
				return mkRV(&RV{t: r.t.Elem(), p: &r.p.o.(*Agg).f[i], ro: r.ro})
			}
			return mkRV(&RV{t: r.t.Elem(), v: r.v.o.(*Agg).f[i], ro: r.ro})
		case kString:
			s := strOf(r.get(m))
			if i < 0 || i >= s.len() {
				m.strPanic("reflect: string index out of range")
			}
			return mkRV(&RV{t: TI(types.Typ[types.Uint8]), v: s.at(i)})
		}
		m.strPanic("reflect: call of reflect.Value.Index on " + goKind(r.t).String() + " Value")
		return V{}
	})
	rvm("NumField", func(m *Mach, r *RV, a []V) V {
		if r.t.kind != kStruct {
			m.strPanic("reflect: call of reflect.Value.NumField on " + goKind(r.t).String() + " Value")
		}
		return mkInt(len(r.t.Fields()))
	})
	rvm("Field", func(m *Mach, r *RV, a []V) V {
		if r.t.kind != kStruct {
			m.strPanic("reflect: call of reflect.Value.Field on " + goKind(r.t).String() + " Value")
		}
		return m.rvField(r, int(m.concInt(a[1], 64)))
	})
	byIndex := func(m *Mach, r *RV, ix []int) V {
		var v V = mkRV(r)
		for k, i := range ix {
			c := v.o.(*RV)
			if k > 0 && c.t.kind == kPtr {
				p := c.get(m)
				if p.o == nil {
					m.strPanic("reflect: indirection through nil pointer to embedded struct")
				}
				c = &RV{t: c.t.Elem(), p: m.ptr(p), ro: c.ro}
			}
			v = m.rvField(c, i)
		}
		return v
	}
	rvm("FieldByIndex", func(m *Mach, r *RV, a []V) V {
		var ix []int
		for _, x := range sliceV(a[1]) {
			ix = append(ix, int(x.n))
		}
		return byIndex(m, r, ix)
	})
	rvm("FieldByName", func(m *Mach, r *RV, a []V) V {
		if r.t.kind != kStruct {
			m.strPanic("reflect: call of reflect.Value.FieldByName on " + goKind(r.t).String() + " Value")
		}
		ix := findField(r.t, m.argS(a[1]))
		if ix == nil {
			return V{}
		}
		return byIndex(m, r, ix)
	})
	rvm("Bool", func(m *Mach, r *RV, a []V) V {
		if r.t.kind != kBool {
			m.strPanic("reflect: call of reflect.Value.Bool on " + goKind(r.t).String() + " Value")
		}
		return r.get(m)
	})
	rvm("Int", func(m *Mach, r *RV, a []V) V {
		if r.t.kind != kInt || !r.t.sgn {
			m.strPanic("reflect: call of reflect.Value.Int on " + goKind(r.t).String() + " Value")
		}
		return m.convInt(r.t, TI(types.Typ[types.Int64]), r.get(m))
	})
	rvm("Uint", func(m *Mach, r *RV, a []V) V {
		if r.t.kind != kInt || r.t.sgn {
			m.strPanic("reflect: call of reflect.Value.Uint on " + goKind(r.t).String() + " Value")
		}
		return m.convInt(r.t, TI(types.Typ[types.Uint64]), r.get(m))
	})
	rvm("Float", func(m *Mach, r *RV, a []V) V {
		if r.t.kind != kFloat {
			m.strPanic("reflect: call of reflect.Value.Float on " + goKind(r.t).String() + " Value")
		}
		return m.convert(r.t, TI(types.Typ[types.Float64]), r.get(m))
	})
	rvm("Bytes", func(m *Mach, r *RV, a []V) V { return r.get(m) })
	rvm("CanInt", func(m *Mach, r *RV, a []V) V { return mkBool(r.t.kind == kInt && r.t.sgn) })
	rvm("CanUint", func(m *Mach, r *RV, a []V) V { return mkBool(r.t.kind == kInt && !r.t.sgn) })
	rvm("CanFloat", func(m *Mach, r *RV, a []V) V { return mkBool(r.t.kind == kFloat) })
	rvm("Comparable", func(m *Mach, r *RV, a []V) V { return mkBool(r.t.Comparable()) })
	rvm("Set", func(m *Mach, r *RV, a []V) V {
		x := m.rvMust(a[1], "Set")
		if !types.AssignableTo(x.t.t, r.t.t) {
			m.strPanic(fmt.Sprintf("reflect.Set: value of type %s is not assignable to type %s", typeString(x.t.t), typeString(r.t.t)))
		}
		m.rvSet(r, m.asType(x, r.t))
		return V{}
	})
	rvm("SetZero", func(m *Mach, r *RV, a []V) V { m.rvSet(r, zero(r.t)); return V{} })
	kindChk := func(name string, ok func(t *TypeInfo) bool) func(m *Mach, r *RV, a []V) V {
		return func(m *Mach, r *RV, a []V) V {
			if !ok(r.t) {
				m.strPanic("reflect: call of reflect.Value." + name + " on " + goKind(r.t).String() + " Value")
			}
			v := a[1]
			switch r.t.kind {
			case kInt:
				if r.t.sgn {
					v = m.convInt(TI(types.Typ[types.Int64]), r.t, v)
				} else {
					v = m.convInt(TI(types.Typ[types.Uint64]), r.t, v)
				}
			case kFloat:
				v = m.convert(TI(types.Typ[types.Float64]), r.t, v)
			}
			m.rvSet(r, v)
			return V{}
		}
	}
	rvm("SetString", kindChk("SetString", func(t *TypeInfo) bool { return t.kind == kString }))
	rvm("SetBool", kindChk("SetBool", func(t *TypeInfo) bool { return t.kind == kBool }))
	rvm("SetInt", kindChk("SetInt", func(t *TypeInfo) bool { return t.kind == kInt && t.sgn }))
	rvm("SetUint", kindChk("SetUint", func(t *TypeInfo) bool { return t.kind == kInt && !t.sgn }))
	rvm("SetFloat", kindChk("SetFloat", func(t *TypeInfo) bool { return t.kind == kFloat }))
	rvm("SetBytes", func(m *Mach, r *RV, a []V) V { m.rvSet(r, a[1]); return V{} })
	rvm("SetLen", func(m *Mach, r *RV, a []V) V {
		f := sliceV(r.get(m))
		m.rvSet(r, mkSlice(f[:int(m.concInt(a[1], 64))]))
		return V{}
	})
	rvm("Slice", func(m *Mach, r *RV, a []V) V {
		i, j := int(m.concInt(a[1], 64)), int(m.concInt(a[2], 64))
		if r.t.kind == kString {
			return mkRV(&RV{t: r.t, v: strOf(r.get(m)).slice(i, j)})
		}
		f := sliceV(r.get(m))
		return mkRV(&RV{t: r.t, v: mkSlice(f[i:j])})
	})
	overflow := func(m *Mach, r *RV, a []V) V {
		w := r.t.w
		if w >= 64 {
			return V{}
		}
		x := m.term(a[1], 64)
		var back *Term
		if r.t.sgn {
			back = m.ts.Un(OSExt, 64, m.ts.Un(OTrunc, w, x))
		} else {
			back = m.ts.Un(OZExt, 64, m.ts.Un(OTrunc, w, x))
		}
		return m.fromTerm(m.ts.Not(m.ts.Eq(x, back)))
	}
	rvm("OverflowInt", overflow)
	rvm("OverflowUint", overflow)
	rvm("OverflowFloat", func(m *Mach, r *RV, a []V) V {
		if r.t.w == 64 {
			return V{}
		}
		f := f64(V{n: m.concInt(a[1], 64)})
		if f < 0 {
			f = -f
		}
		return mkBool(f > 3.40282346638528859811704183484516925440e+38 && f <= 1.79769313486231570814527423731704356798070e+308)
	})
	ptrf := func(m *Mach, r *RV, a []V) V {
		v := r.get(m)
		if v.o == nil {
			return V{}
		}
		if c, ok := v.o.(*Slice); ok {
			if cap(c.f) == 0 {
				return V{o: &zeroCell}
			}
			return V{o: &c.f[:1][0]}
		}
		return V{o: v.o}
	}
	rvm("Pointer", func(m *Mach, r *RV, a []V) V {
		return V{n: m.addrOf(ptrf(m, r, a).o)}
	})
	rvm("UnsafePointer", ptrf)
	rvm("MapIndex", func(m *Mach, r *RV, a []V) V {
		k := m.rvMust(a[1], "MapIndex")
		v, ok := m.mapGet(r.get(m), r.t, m.asType(k, r.t.Key()))
		if !ok {
			return V{}
		}
		return mkRV(&RV{t: r.t.Elem(), v: v, ro: r.ro})
	})
	rvm("SetMapIndex", func(m *Mach, r *RV, a []V) V {
		mv := r.get(m)
		k := m.asType(m.rvMust(a[1], "SetMapIndex"), r.t.Key())
		if a[2].o == nil {
			if mv.o != nil {
				m.mapDelete(mv.o.(*Map), k)
			}
			return V{}
		}
		if mv.o == nil {
			m.rtPanicPlain("assignment to entry in nil map")
		}
		m.mapSet(mv.o.(*Map), k, m.asType(m.rv(a[2]), r.t.Elem()))
		return V{}
	})
	rvm("MapKeys", func(m *Mach, r *RV, a []V) V {
		mv := r.get(m)
		if mv.o == nil {
			return V{}
		}
		var f []V
		for _, e := range mv.o.(*Map).live() {
			f = append(f, mkRV(&RV{t: r.t.Key(), v: e.k}))
		}
		return mkSlice(f)
	})
	reg("(reflect.Value).MapRange", func(m *Mach, fn *Func, a []V) (V, action) {
		r := m.rvMust(a[0], "MapRange")
		it := &rvIter{pos: -1}
		if mv := r.get(m); mv.o != nil {
			it.m = mv.o.(*Map)
			it.ents = it.m.live()
		} else {
			it.m = &Map{t: r.t}
		}
		c := new(V)
		*c = zero(fn.resT.Elem())
		c.o.(*Agg).f[0] = V{o: it}
		return V{o: c}, actDone
	})
	reg("(*reflect.MapIter).Next", func(m *Mach, fn *Func, a []V) (V, action) {
		c := &m.recvCell(a[0]).o.(*Agg).f[0]
		it := *c.o.(*rvIter)
		it.pos++
		for it.pos < len(it.ents) && it.ents[it.pos].dead {
			it.pos++
		}
		m.set(c, V{o: &it})
		return mkBool(it.pos < len(it.ents)), actDone
	})
	reg("(*reflect.MapIter).Key", func(m *Mach, fn *Func, a []V) (V, action) {
		it := m.recvCell(a[0]).o.(*Agg).f[0].o.(*rvIter)
		return mkRV(&RV{t: it.m.t.Key(), v: it.ents[it.pos].k}), actDone
	})
	reg("(*reflect.MapIter).Value", func(m *Mach, fn *Func, a []V) (V, action) {
		it := m.recvCell(a[0]).o.(*Agg).f[0].o.(*rvIter)
		return mkRV(&RV{t: it.m.t.Elem(), v: it.ents[it.pos].v}), actDone
	})
	rvm("Convert", func(m *Mach, r *RV, a []V) V {
		t := m.typeArg(a[1])
		v := r.get(m)
		if t.kind == kIface {
			if r.t.kind == kIface {
				return mkRV(&RV{t: t, v: v})
			}
			return mkRV(&RV{t: t, v: mkIface(r.t, v)})
		}
		return mkRV(&RV{t: t, v: m.convert(r.t, t, v)})
	})
	rvm("NumMethod", func(m *Mach, r *RV, a []V) V { return mkInt(len(exportedMethods(r.t))) })
	meth := func(m *Mach, r *RV, f *types.Func) V {
		v := r.get(m)
		return mkRV(&RV{t: TI(f.Type()), fn: m.findMethod(r.t, f), recv: &v})
	}
	rvm("Method", func(m *Mach, r *RV, a []V) V { return meth(m, r, exportedMethods(r.t)[a[1].n]) })
	rvm("MethodByName", func(m *Mach, r *RV, a []V) V {
		t := r.t
		rr := r
		if t.kind == kIface {
			v := r.get(m)
			if v.o == nil {
				return V{}
			}
			i := v.o.(*Iface)
			rr = &RV{t: i.t, v: i.v}
		}
		for _, f := range exportedMethods(rr.t) {
			if f.Name() == m.argS(a[1]) {
				return meth(m, rr, f)
			}
		}
		return V{}
	})
	reg("(reflect.Value).Call", func(m *Mach, fn *Func, a []V) (V, action) {
		r := m.rvMust(a[0], "Call")
		sig := r.t.u.(*types.Signature)
		var args []V
		for i, x := range sliceV(a[1]) {
			args = append(args, m.asType(m.rv(x), TI(sig.Params().At(i).Type())))
		}
		post := func(m *Mach, res V) V {
			n := sig.Results().Len()
			switch n {
			case 0:
				return V{}
			case 1:
				return mkSlice([]V{mkRV(&RV{t: TI(sig.Results().At(0).Type()), v: res})})
			}
			var out []V
			for i := 0; i < n; i++ {
				out = append(out, mkRV(&RV{t: TI(sig.Results().At(i).Type()), v: res.o.(*Agg).f[i]}))
			}
			return mkSlice(out)
		}
		if r.fn != nil {
			return V{o: &tailCall{fn: V{o: &Closure{fn: r.fn}}, args: append([]V{*r.recv}, args...), post: post}}, actTail
		}
		return V{o: &tailCall{fn: r.get(m), args: args, post: post}}, actTail
	})
	reg("reflect.DeepEqual", func(m *Mach, fn *Func, a []V) (V, action) {
		t := m.deepEq(TI(types.NewInterfaceType(nil, nil)), a[0], a[1], map[[2]any]bool{}, 0)
		return m.fromTerm(t), actDone
	})
}

func (m *Mach) isZero(t *TypeInfo, v V) V {
	switch t.kind {
	case kStruct, kArray:
		a := v.o.(*Agg)
		r := m.ts.tTrue
		for i := range a.f {
			ft := t.Elem()
			if t.kind == kStruct {
				ft = t.Fields()[i]
			}
			r = m.ts.And(r, m.term(m.isZero(ft, a.f[i]), 0))
		}
		return m.fromTerm(r)
	case kString:
		return mkBool(strOf(v).len() == 0)
	case kBool, kInt:
		if tm, ok := v.o.(*Term); ok {
			return m.fromTerm(m.ts.Eq(tm, m.ts.Const(t.w, 0)))
		}
		return mkBool(v.n == 0 && v.o == nil)
	case kFloat:
		if tm, ok := v.o.(*Term); ok {
			return m.fromTerm(m.ts.Eq(tm, m.ts.Const(t.w, 0)))
		}
		return mkBool(v.n == 0)
	}
	return mkBool(v.o == nil)
}

func (m *Mach) deepEq(t *TypeInfo, x, y V, seen map[[2]any]bool, d int) *Term {
	ts := m.ts
	if d > 500 {
		panic(engErr("DeepEqual depth"))
	}
	switch t.kind {
	case kIface:
		if x.o == nil || y.o == nil {
			return ts.Bool(x.o == nil && y.o == nil)
		}
		a, b := x.o.(*Iface), y.o.(*Iface)
		if a.t != b.t {
			return ts.tFalse
		}
		if _, ok := a.v.o.(*RType); ok {
			return m.term(m.eq(t, x, y), 0)
		}
		return m.deepEq(a.t, a.v, b.v, seen, d+1)
	case kPtr:
		if x.o == y.o {
			return ts.tTrue
		}
		if x.o == nil || y.o == nil {
			return ts.tFalse
		}
		k := [2]any{x.o, y.o}
		if seen[k] {
			return ts.tTrue
		}
		seen[k] = true
		return m.deepEq(t.Elem(), *m.ptr(x), *m.ptr(y), seen, d+1)
	case kStruct, kArray:
		a, b := x.o.(*Agg), y.o.(*Agg)
		r := ts.tTrue
		for i := range a.f {
			ft := t.elem
			if t.kind == kStruct {
				ft = t.Fields()[i]
			} else {
				ft = t.Elem()
			}
			r = ts.And(r, m.deepEq(ft, a.f[i], b.f[i], seen, d+1))
			if r.isFalse() {
				return r
			}
		}
		return r
	case kSlice:
		if (x.o == nil) != (y.o == nil) {
			return ts.tFalse
		}
		a, b := sliceV(x), sliceV(y)
		if len(a) != len(b) {
			return ts.tFalse
		}
		r := ts.tTrue
		for i := range a {
			r = ts.And(r, m.deepEq(t.Elem(), a[i], b[i], seen, d+1))
			if r.isFalse() {
				return r
			}
		}
		return r
	case kMap:
		if (x.o == nil) != (y.o == nil) {
			return ts.tFalse
		}
		if x.o == nil || x.o == y.o {
			return ts.tTrue
		}
		a, b := x.o.(*Map), y.o.(*Map)
		if a.n != b.n {
			return ts.tFalse
		}
		k := [2]any{a, b}
		if seen[k] {
			return ts.tTrue
		}
		seen[k] = true
		r := ts.tTrue
		for _, e := range a.live() {
			f := m.mapFind(b, e.k)
			if f == nil {
				return ts.tFalse
			}
			r = ts.And(r, m.deepEq(t.Elem(), e.v, f.v, seen, d+1))
		}
		return r
	case kFunc:
		return ts.Bool(x.o == nil && y.o == nil)
	case kOpaque:
		return ts.Bool(x.o == y.o)
	}
	return m.term(m.eq(t, x, y), 0)
}

// fmtNative renders a panic value for messages (best effort).
func (m *Mach) fmtNative(f string, t *TypeInfo, v V) string {
	switch t.kind {
	case kString:
		s := strOf(v)
		if s.conc() {
			return s.s
		}
		return "<symbolic string>"
	case kInt:
		if v.o == nil {
			return fmt.Sprint(sx(v.n, t.w))
		}
	case kPtr:
		if c, ok := v.o.(*V); ok {
			if a, ok := c.o.(*Agg); ok && len(a.f) > 0 {
				if s, ok := a.f[0].o.(*Str); ok && s.conc() {
					return s.s
				}
			}
		}
	}
	return typeString(t.t)
}

func init() {
	reg("(reflect.Kind).String", func(m *Mach, fn *Func, a []V) (V, action) {
		return mkStr(reflect.Kind(m.concInt(a[0], 64)).String()), actDone
	})
}
var zeroCell V
