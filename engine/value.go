package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V is a Go value: scalars live in n (or o=*Term when symbolic); everything else in o.
type V struct {
	n uint64
	o any
}

type Agg struct{ f []V }     // struct or array value / storage
type Str struct {            // string; b!=nil when (possibly) symbolic
	s string
	b []V
}
type Slice struct{ f []V } // len(f), cap(f)
type Iface struct {
	t *TypeInfo
	v V
}
type Closure struct {
	fn  *Func
	env []V
}
type SlicePtr struct{ f []V } // unsafe.SliceData / StringData
type RType struct{ t *TypeInfo }
type MapIter struct {
	m     *Map
	pos   int
	order []*MapEnt
	str   *Str
	isStr bool
	snap  bool
	left  []*MapEnt
}
type BuiltinFn struct{ b *ssa.Builtin }

type MapEnt struct {
	k    V
	v    V
	dead bool
}
type Map struct {
	t    *TypeInfo
	ents []*MapEnt
	idx  map[any]*MapEnt
	sym  int // number of live entries with symbolic keys
	n    int
	id   int
}

func mkStr(s string) V {
	if s == "" {
		return V{}
	}
	return V{o: &Str{s: s}}
}

func mkBytesStr(b []V) V {
	if len(b) == 0 {
		return V{}
	}
	conc := true
	for i := range b {
		if b[i].o != nil {
			conc = false
			break
		}
	}
	if conc {
		bs := make([]byte, len(b))
		for i := range b {
			bs[i] = byte(b[i].n)
		}
		return V{o: &Str{s: string(bs)}}
	}
	return V{o: &Str{b: b}}
}

var emptyStr = &Str{}

func strOf(v V) *Str {
	if v.o == nil {
		return emptyStr
	}
	return v.o.(*Str)
}

func (s *Str) len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (s *Str) at(i int) V {
	if s.b != nil {
		return s.b[i]
	}
	return V{n: uint64(s.s[i])}
}

func (s *Str) slice(i, j int) V {
	if i == j {
		return V{}
	}
	if s.b != nil {
		return mkBytesStr(s.b[i:j:j])
	}
	return V{o: &Str{s: s.s[i:j]}}
}

func (s *Str) conc() bool { return s.b == nil }

func (s *Str) bytes() []V {
	if s.b != nil {
		return s.b
	}
	b := make([]V, len(s.s))
	for i := 0; i < len(s.s); i++ {
		b[i].n = uint64(s.s[i])
	}
	return b
}

func concatStr(a, b *Str) V {
	if a.len() == 0 && b.len() == 0 {
		return V{}
	}
	if a.b == nil && b.b == nil {
		return V{o: &Str{s: a.s + b.s}}
	}
	r := make([]V, 0, a.len()+b.len())
	r = append(r, a.bytes()...)
	r = append(r, b.bytes()...)
	return V{o: &Str{b: r}}
}

func zero(ti *TypeInfo) V {
	switch ti.kind {
	case kStruct:
		fs := ti.Fields()
		a := &Agg{f: make([]V, len(fs))}
		for i, f := range fs {
			if f.kind == kStruct || f.kind == kArray {
				a.f[i] = zero(f)
			}
		}
		return V{o: a}
	case kArray:
		n := int(ti.u.(*types.Array).Len())
		a := &Agg{f: make([]V, n)}
		e := ti.Elem()
		if e.kind == kStruct || e.kind == kArray {
			for i := range a.f {
				a.f[i] = zero(e)
			}
		}
		return V{o: a}
	case kTuple:
		tp := ti.u.(*types.Tuple)
		a := &Agg{f: make([]V, tp.Len())}
		for i := range a.f {
			a.f[i] = zero(TI(tp.At(i).Type()))
		}
		return V{o: a}
	}
	return V{}
}

// copyAgg snapshots aggregates (deeply); other values are returned unchanged.
func copyAgg(v V) V {
	a, ok := v.o.(*Agg)
	if !ok {
		return v
	}
	b := &Agg{f: make([]V, len(a.f))}
	for i := range a.f {
		if _, ok := a.f[i].o.(*Agg); ok {
			b.f[i] = copyAgg(a.f[i])
		} else {
			b.f[i] = a.f[i]
		}
	}
	return V{o: b}
}

func f64(v V) float64    { return math.Float64frombits(v.n) }
func mkF64(f float64) V  { return V{n: math.Float64bits(f)} }
func mkInt(i int) V      { return V{n: uint64(i)} }
func mkBool(b bool) V {
	if b {
		return V{n: 1}
	}
	return V{}
}

func isSym(v V) bool { _, ok := v.o.(*Term); return ok }

func mkIface(t *TypeInfo, v V) V { return V{o: &Iface{t: t, v: v}} }

func tuple(vs ...V) V { return V{o: &Agg{f: vs}} }

// mapKey returns a Go-comparable key for a fully concrete key value.
func mapKey(ti *TypeInfo, v V) (any, bool) {
	switch ti.kind {
	case kBool, kInt:
		if v.o != nil {
			return nil, false
		}
		return v.n, true
	case kFloat:
		if v.o != nil {
			return nil, false
		}
		if ti.w == 64 && f64(v) == 0 {
			return uint64(0), true
		}
		return v.n, true
	case kString:
		s := strOf(v)
		if s.b != nil {
			return nil, false
		}
		return s.s, true
	case kPtr, kChan, kUnsafe:
		return v.o, true
	case kIface:
		if v.o == nil {
			return nil, true
		}
		i := v.o.(*Iface)
		k, ok := mapKey(i.t, i.v)
		if !ok {
			return nil, false
		}
		return [2]any{i.t, k}, true
	case kStruct:
		a := v.o.(*Agg)
		var r [6]any
		fs := ti.Fields()
		if len(fs) > 6 {
			var sb strings.Builder
			for i := range fs {
				k, ok := mapKey(fs[i], a.f[i])
				if !ok {
					return nil, false
				}
				fmt.Fprintf(&sb, "%T:%v|%p|", k, k, k)
			}
			return sb.String(), true
		}
		for i := range fs {
			k, ok := mapKey(fs[i], a.f[i])
			if !ok {
				return nil, false
			}
			r[i] = k
		}
		return r, true
	case kArray:
		a := v.o.(*Agg)
		var sb strings.Builder
		e := ti.Elem()
		for i := range a.f {
			k, ok := mapKey(e, a.f[i])
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%v|", k)
		}
		return sb.String(), true
	case kOpaque:
		return v.o, true
	}
	panic(fmt.Sprintf("mapKey: unsupported key type %v", ti.t))
}
