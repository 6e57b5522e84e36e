package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"
)

// ---------- binary operators ----------

func (m *Mach) binop(tok token.Token, ti, ti2 *TypeInfo, x, y V) V {
	switch tok {
	case token.EQL:
		return m.eq(ti, x, y)
	case token.NEQ:
		return m.notV(m.eq(ti, x, y))
	}
	switch ti.kind {
	case kInt:
		if x.o == nil && y.o == nil {
			return m.intConc(tok, ti, ti2, x.n, y.n)
		}
		return m.intSym(tok, ti, ti2, x, y)
	case kString:
		a, b := strOf(x), strOf(y)
		switch tok {
		case token.ADD:
			return concatStr(a, b)
		case token.LSS:
			return m.strLess(a, b, false)
		case token.LEQ:
			return m.strLess(a, b, true)
		case token.GTR:
			return m.strLess(b, a, false)
		case token.GEQ:
			return m.strLess(b, a, true)
		}
	case kFloat:
		return m.floatOp(tok, ti, x, y)
	case kBool:
		a, b := m.term(x, 0), m.term(y, 0)
		switch tok {
		case token.AND, token.LAND:
			return m.fromTerm(m.ts.And(a, b))
		case token.OR, token.LOR:
			return m.fromTerm(m.ts.Or(a, b))
		}
	case kComplex:
		a, _ := x.o.(complex128)
		b, _ := y.o.(complex128)
		switch tok {
		case token.ADD:
			return V{o: a + b}
		case token.SUB:
			return V{o: a - b}
		case token.MUL:
			return V{o: a * b}
		case token.QUO:
			return V{o: a / b}
		}
	}
	panic(engErr(fmt.Sprintf("binop %v on %v at %s", tok, ti.t, m.where())))
}

func (m *Mach) notV(v V) V {
	if v.o == nil {
		return V{n: v.n ^ 1}
	}
	return m.fromTerm(m.ts.Not(v.o.(*Term)))
}

func (m *Mach) intConc(tok token.Token, ti, ti2 *TypeInfo, a, b uint64) V {
	w := ti.w
	mk := mask(w)
	switch tok {
	case token.ADD:
		return V{n: (a + b) & mk}
	case token.SUB:
		return V{n: (a - b) & mk}
	case token.MUL:
		return V{n: (a * b) & mk}
	case token.QUO:
		if b == 0 {
			m.rtPanic("integer divide by zero")
		}
		if ti.sgn {
			return V{n: evalOp(OSDiv, w, w, a, b, 0)}
		}
		return V{n: a / b}
	case token.REM:
		if b == 0 {
			m.rtPanic("integer divide by zero")
		}
		if ti.sgn {
			return V{n: evalOp(OSRem, w, w, a, b, 0)}
		}
		return V{n: a % b}
	case token.AND:
		return V{n: a & b}
	case token.OR:
		return V{n: a | b}
	case token.XOR:
		return V{n: a ^ b}
	case token.AND_NOT:
		return V{n: a &^ b}
	case token.SHL, token.SHR:
		if ti2.sgn && sx(b, ti2.w) < 0 {
			m.rtPanic("negative shift amount")
		}
		if tok == token.SHL {
			return V{n: evalOp(OShl, w, w, a, b, 0)}
		}
		if ti.sgn {
			return V{n: evalOp(OAShr, w, w, a, b, 0)}
		}
		return V{n: evalOp(OLShr, w, w, a, b, 0)}
	case token.LSS:
		if ti.sgn {
			return mkBool(sx(a, w) < sx(b, w))
		}
		return mkBool(a < b)
	case token.LEQ:
		if ti.sgn {
			return mkBool(sx(a, w) <= sx(b, w))
		}
		return mkBool(a <= b)
	case token.GTR:
		if ti.sgn {
			return mkBool(sx(a, w) > sx(b, w))
		}
		return mkBool(a > b)
	case token.GEQ:
		if ti.sgn {
			return mkBool(sx(a, w) >= sx(b, w))
		}
		return mkBool(a >= b)
	}
	panic(engErr("intConc " + tok.String()))
}

func (m *Mach) intSym(tok token.Token, ti, ti2 *TypeInfo, x, y V) V {
	w := ti.w
	ts := m.ts
	a := m.term(x, w)
	if tok == token.SHL || tok == token.SHR {
		yw := ti2.w
		b := m.term(y, yw)
		if ti2.sgn && !b.isConst() {
			if m.decide(ts.Bin(OSlt, b, ts.Const(yw, 0))) {
				m.rtPanic("negative shift amount")
			}
		} else if ti2.sgn && sx(b.k, yw) < 0 {
			m.rtPanic("negative shift amount")
		}
		W := w
		if b.isConst() {
			k := b.k
			if k > uint64(w) {
				k = uint64(w)
			}
			if k >= uint64(w) && w < 8 {
				k = uint64(w)
			}
			b = ts.Const(w, k)
		} else if yw > w {
			W = yw
		} else {
			b = ts.Un(OZExt, w, b)
		}
		op := OShl
		if tok == token.SHR {
			op = OLShr
			if ti.sgn {
				op = OAShr
			}
		}
		if W > w {
			if op == OAShr {
				a = ts.Un(OSExt, W, a)
			} else {
				a = ts.Un(OZExt, W, a)
			}
			return m.fromTerm(ts.Un(OTrunc, w, ts.Bin(op, a, b)))
		}
		return m.fromTerm(ts.Bin(op, a, b))
	}
	b := m.term(y, w)
	switch tok {
	case token.ADD:
		return m.fromTerm(ts.Bin(OAdd, a, b))
	case token.SUB:
		return m.fromTerm(ts.Bin(OSub, a, b))
	case token.MUL:
		return m.fromTerm(ts.Bin(OMul, a, b))
	case token.QUO, token.REM:
		if b.isConst() {
			if b.k == 0 {
				m.rtPanic("integer divide by zero")
			}
		} else if m.decide(ts.Eq(b, ts.Const(w, 0))) {
			m.rtPanic("integer divide by zero")
		}
		op := OUDiv
		if tok == token.REM {
			op = OURem
		}
		if ti.sgn {
			if tok == token.REM {
				op = OSRem
			} else {
				op = OSDiv
			}
		}
		return m.fromTerm(ts.Bin(op, a, b))
	case token.AND:
		return m.fromTerm(ts.Bin(OBAnd, a, b))
	case token.OR:
		return m.fromTerm(ts.Bin(OBOr, a, b))
	case token.XOR:
		return m.fromTerm(ts.Bin(OBXor, a, b))
	case token.AND_NOT:
		return m.fromTerm(ts.Bin(OBAnd, a, ts.Un(OBNot, w, b)))
	}
	lt, le := OUlt, OUle
	if ti.sgn {
		lt, le = OSlt, OSle
	}
	switch tok {
	case token.LSS:
		return m.fromTerm(ts.Bin(lt, a, b))
	case token.LEQ:
		return m.fromTerm(ts.Bin(le, a, b))
	case token.GTR:
		return m.fromTerm(ts.Bin(lt, b, a))
	case token.GEQ:
		return m.fromTerm(ts.Bin(le, b, a))
	}
	panic(engErr("intSym " + tok.String()))
}

func (m *Mach) floatOp(tok token.Token, ti *TypeInfo, x, y V) V {
	if x.o == nil && y.o == nil {
		var a, b float64
		if ti.w == 32 {
			a, b = float64(math.Float32frombits(uint32(x.n))), float64(math.Float32frombits(uint32(y.n)))
		} else {
			a, b = f64(x), f64(y)
		}
		out := func(f float64) V {
			if ti.w == 32 {
				return V{n: uint64(math.Float32bits(float32(f)))}
			}
			return mkF64(f)
		}
		switch tok {
		case token.ADD:
			return out(a + b)
		case token.SUB:
			return out(a - b)
		case token.MUL:
			return out(a * b)
		case token.QUO:
			return out(a / b)
		case token.LSS:
			return mkBool(a < b)
		case token.LEQ:
			return mkBool(a <= b)
		case token.GTR:
			return mkBool(a > b)
		case token.GEQ:
			return mkBool(a >= b)
		}
		panic(engErr("float op"))
	}
	a, b := m.term(x, ti.w), m.term(y, ti.w)
	ts := m.ts
	switch tok {
	case token.ADD:
		return m.fromTerm(ts.Bin(OFAdd, a, b))
	case token.SUB:
		return m.fromTerm(ts.Bin(OFSub, a, b))
	case token.MUL:
		return m.fromTerm(ts.Bin(OFMul, a, b))
	case token.QUO:
		return m.fromTerm(ts.Bin(OFDiv, a, b))
	case token.LSS:
		return m.fromTerm(ts.Bin(OFLt, a, b))
	case token.LEQ:
		return m.fromTerm(ts.Bin(OFLe, a, b))
	case token.GTR:
		return m.fromTerm(ts.Bin(OFLt, b, a))
	case token.GEQ:
		return m.fromTerm(ts.Bin(OFLe, b, a))
	}
	panic(engErr("float op"))
}

// ---------- equality ----------

func (m *Mach) strEqT(a, b *Str) *Term {
	n := a.len()
	if n != b.len() {
		return m.ts.tFalse
	}
	if a.b == nil && b.b == nil {
		return m.ts.Bool(a.s == b.s)
	}
	return m.bytesEqT(a.bytes(), b.bytes())
}

func (m *Mach) bytesEqT(x, y []V) *Term {
	// concrete mismatches first
	for i := range x {
		if x[i].o == nil && y[i].o == nil && x[i].n != y[i].n {
			return m.ts.tFalse
		}
	}
	r := m.ts.tTrue
	for i := len(x) - 1; i >= 0; i-- {
		if x[i].o == nil && y[i].o == nil {
			continue
		}
		r = m.ts.And(m.ts.Eq(m.term(x[i], 8), m.term(y[i], 8)), r)
		if r.isFalse() {
			return r
		}
	}
	return r
}

func (m *Mach) eq(ti *TypeInfo, x, y V) V {
	switch ti.kind {
	case kInt, kBool:
		if x.o == nil && y.o == nil {
			return mkBool(x.n == y.n)
		}
		if _, ok := x.o.(*V); ok {
			return mkBool(x.o == y.o)
		}
		return m.fromTerm(m.ts.Eq(m.term(x, ti.w), m.term(y, ti.w)))
	case kString:
		a, b := strOf(x), strOf(y)
		if a.b == nil && b.b == nil {
			return mkBool(a.s == b.s)
		}
		return m.fromTerm(m.strEqT(a, b))
	case kPtr, kUnsafe, kChan:
		if sp, ok := x.o.(*SlicePtr); ok {
			if sq, ok := y.o.(*SlicePtr); ok {
				return mkBool(&sp.f[0] == &sq.f[0])
			}
			return mkBool(false)
		}
		return mkBool(x.o == y.o)
	case kMap, kSlice, kFunc:
		return mkBool(x.o == nil && y.o == nil)
	case kIface:
		if x.o == nil || y.o == nil {
			return mkBool(x.o == nil && y.o == nil)
		}
		a, b := x.o.(*Iface), y.o.(*Iface)
		if a.t != b.t {
			return V{}
		}
		if ra, ok := a.v.o.(*RType); ok {
			rb, ok := b.v.o.(*RType)
			return mkBool(ok && ra.t == rb.t)
		}
		if !a.t.Comparable() {
			m.rtPanic("comparing uncomparable type " + a.t.t.String())
		}
		return m.eq(a.t, a.v, b.v)
	case kStruct, kArray:
		a, b := x.o.(*Agg), y.o.(*Agg)
		r := m.ts.tTrue
		for i := range a.f {
			var ft *TypeInfo
			if ti.kind == kStruct {
				if ti.u.(*types.Struct).Field(i).Name() == "_" {
					continue
				}
				ft = ti.Fields()[i]
			} else {
				ft = ti.Elem()
			}
			e := m.eq(ft, a.f[i], b.f[i])
			r = m.ts.And(r, m.term(e, 0))
			if r.isFalse() {
				return V{}
			}
		}
		return m.fromTerm(r)
	case kFloat:
		if x.o == nil && y.o == nil {
			if ti.w == 32 {
				return mkBool(math.Float32frombits(uint32(x.n)) == math.Float32frombits(uint32(y.n)))
			}
			return mkBool(f64(x) == f64(y))
		}
		return m.fromTerm(m.ts.Bin(OFEq, m.term(x, ti.w), m.term(y, ti.w)))
	case kComplex:
		a, _ := x.o.(complex128)
		b, _ := y.o.(complex128)
		return mkBool(a == b)
	case kOpaque:
		a, _ := x.o.(*RV)
		b, _ := y.o.(*RV)
		if a == nil || b == nil {
			return mkBool(a == nil && b == nil)
		}
		return mkBool(a == b)
	}
	panic(engErr(fmt.Sprintf("eq on %v", ti.t)))
}

// strLess builds a<b (or a<=b) lexicographically without forking.
func (m *Mach) strLess(a, b *Str, orEq bool) V {
	if a.b == nil && b.b == nil {
		if orEq {
			return mkBool(a.s <= b.s)
		}
		return mkBool(a.s < b.s)
	}
	n := a.len()
	if b.len() < n {
		n = b.len()
	}
	r := m.ts.Bool(a.len() < b.len() || orEq && a.len() == b.len())
	for i := n - 1; i >= 0; i-- {
		x, y := m.term(a.at(i), 8), m.term(b.at(i), 8)
		r = m.ts.Or(m.ts.Bin(OUlt, x, y), m.ts.And(m.ts.Eq(x, y), r))
	}
	return m.fromTerm(r)
}

// ---------- conversions ----------

func (m *Mach) convert(from, to *TypeInfo, v V) V {
	switch to.kind {
	case kInt:
		switch from.kind {
		case kInt:
			return m.convInt(from, to, v)
		case kFloat:
			return m.floatToInt(from, to, v)
		case kUnsafe, kPtr:
			return V{n: m.addrOf(v.o)}
		}
	case kFloat:
		switch from.kind {
		case kInt:
			return m.intToFloat(from, to, v)
		case kFloat:
			if from.w == to.w {
				return v
			}
			if v.o != nil {
				v = V{n: m.concInt(v, from.w)}
			}
			if to.w == 32 {
				return V{n: uint64(math.Float32bits(float32(f64(v))))}
			}
			return mkF64(float64(math.Float32frombits(uint32(v.n))))
		}
	case kString:
		switch from.kind {
		case kString:
			return v
		case kInt:
			if v.o == nil {
				r := sx(v.n, from.w)
				if !from.sgn {
					r = int64(v.n)
				}
				if r < 0 || r > utf8.MaxRune {
					r = utf8.RuneError
				}
				return mkStr(string(rune(r)))
			}
			return mkBytesStr(m.encodeRune(m.convInt(from, TI(types.Typ[types.Int32]), v)))
		case kSlice:
			if v.o == nil {
				return V{}
			}
			f := v.o.(*Slice).f
			if from.Elem().w == 8 {
				return mkBytesStr(append([]V(nil), f...))
			}
			var out []V
			for i := range f {
				out = append(out, m.encodeRune(f[i])...)
			}
			return mkBytesStr(out)
		}
	case kSlice:
		if from.kind == kString {
			s := strOf(v)
			if to.Elem().w == 8 {
				b := s.bytes()
				n := len(b)
				c := roundup(n, 1, true)
				if n == 0 {
					c = 0
				}
				if n <= 32 && n > 0 { // tmpBuf may be used; capacity is unspecified
					c = roundup(n, 1, true)
				}
				f := make([]V, c)
				copy(f, b)
				return V{o: &Slice{f: f[:n]}}
			}
			var out []V
			for i := 0; i < s.len(); {
				r, n := m.decodeRune(s, i)
				out = append(out, r)
				i += n
			}
			return V{o: &Slice{f: out[:len(out):len(out)]}}
		}
		return v
	case kUnsafe, kPtr:
		if from.kind == kInt && v.o == nil && v.n != 0 {
			if o, ok := m.addrRev[v.n]; ok {
				return V{o: o}
			}
		}
		return v
	case kComplex:
		return v
	}
	if from.kind == to.kind {
		return v
	}
	panic(engErr(fmt.Sprintf("convert %v -> %v", from.t, to.t)))
}

func (m *Mach) convInt(from, to *TypeInfo, v V) V {
	if v.o == nil {
		if to.w > from.w && from.sgn {
			return V{n: uint64(sx(v.n, from.w)) & mask(to.w)}
		}
		return V{n: v.n & mask(to.w)}
	}
	t, ok := v.o.(*Term)
	if !ok {
		return v // pointer disguised as uintptr
	}
	if to.w == from.w {
		return v
	}
	if to.w < from.w {
		return m.fromTerm(m.ts.Un(OTrunc, to.w, t))
	}
	if from.sgn {
		return m.fromTerm(m.ts.Un(OSExt, to.w, t))
	}
	return m.fromTerm(m.ts.Un(OZExt, to.w, t))
}

func (m *Mach) intToFloat(from, to *TypeInfo, v V) V {
	if v.o != nil {
		if from.sgn {
			return m.fromTerm(m.ts.Un(OFFromS, to.w, v.o.(*Term)))
		}
		return m.fromTerm(m.ts.Un(OFFromU, to.w, v.o.(*Term)))
	}
	var f float64
	if from.sgn {
		i := sx(v.n, from.w)
		if to.w == 32 {
			return V{n: uint64(math.Float32bits(float32(i)))}
		}
		f = float64(i)
	} else {
		if to.w == 32 {
			return V{n: uint64(math.Float32bits(float32(v.n)))}
		}
		f = float64(v.n)
	}
	return mkF64(f)
}

func (m *Mach) floatToInt(from, to *TypeInfo, v V) V {
	if v.o != nil {
		t := v.o.(*Term)
		if from.w == 64 && to.w == 64 && to.sgn {
			// in-range conversions only: out of range is implementation-specific (amd64: MinInt64)
			lo := m.ts.Const(64, math.Float64bits(-9.2e18))
			hi := m.ts.Const(64, math.Float64bits(9.2e18))
			in := m.ts.And(m.ts.Bin(OFLt, lo, t), m.ts.Bin(OFLt, t, hi))
			if m.decide(in) {
				return m.fromTerm(m.ts.Un(OFToS, 64, t))
			}
		}
		v = V{n: m.concInt(v, from.w)}
	}
	var f float64
	if from.w == 32 {
		f = float64(math.Float32frombits(uint32(v.n)))
	} else {
		f = f64(v)
	}
	switch {
	case to.sgn && to.w == 64:
		return V{n: uint64(int64(f))}
	case to.sgn && to.w == 32:
		return V{n: uint64(uint32(int32(f)))}
	case to.sgn && to.w == 16:
		return V{n: uint64(uint16(int16(f)))}
	case to.sgn:
		return V{n: uint64(uint8(int8(f)))}
	case to.w == 64:
		return V{n: uint64(f)}
	case to.w == 32:
		return V{n: uint64(uint32(f))}
	case to.w == 16:
		return V{n: uint64(uint16(f))}
	}
	return V{n: uint64(uint8(f))}
}

// ---------- runes ----------

func (m *Mach) inRange(t *Term, lo, hi uint64) bool {
	c := m.ts.And(m.ts.Bin(OUle, m.ts.Const(8, lo), t), m.ts.Bin(OUle, t, m.ts.Const(8, hi)))
	return m.decide(c)
}

// decodeRune decodes the rune at position i of s (i < len).
func (m *Mach) decodeRune(s *Str, i int) (V, int) {
	if s.b == nil {
		r, n := utf8.DecodeRuneInString(s.s[i:])
		return V{n: uint64(uint32(r))}, n
	}
	return m.decodeRuneB(s.b[i:])
}

func (m *Mach) decodeRuneB(b []V) (V, int) {
	bad := V{n: utf8.RuneError}
	if len(b) == 0 {
		return bad, 0
	}
	nc := 0
	for nc < len(b) && nc < 4 && b[nc].o == nil {
		nc++
	}
	if nc == 4 || nc == len(b) || nc > 0 && b[0].n < 0x80 {
		var buf [4]byte
		for k := 0; k < nc; k++ {
			buf[k] = byte(b[k].n)
		}
		r, n := utf8.DecodeRune(buf[:nc])
		return V{n: uint64(uint32(r))}, n
	}
	ts := m.ts
	t0 := m.term(b[0], 8)
	lt := func(t *Term, k uint64) bool {
		return m.decide(ts.Bin(OUlt, t, ts.Const(8, k)))
	}
	if lt(t0, 0x80) {
		return m.fromTerm(ts.Un(OZExt, 32, t0)), 1
	}
	if lt(t0, 0xC2) {
		return bad, 1
	}
	ext := func(t *Term, msk uint64, sh uint64) *Term {
		return ts.Bin(OShl, ts.Un(OZExt, 32, ts.Bin(OBAnd, t, ts.Const(8, msk))), ts.Const(32, sh))
	}
	or := func(a, b *Term) *Term { return ts.Bin(OBOr, a, b) }
	if lt(t0, 0xE0) {
		if len(b) < 2 {
			return bad, 1
		}
		t1 := m.term(b[1], 8)
		if !m.inRange(t1, 0x80, 0xBF) {
			return bad, 1
		}
		return m.fromTerm(or(ext(t0, 0x1f, 6), ext(t1, 0x3f, 0))), 2
	}
	if lt(t0, 0xF0) {
		if len(b) < 3 {
			return bad, 1
		}
		t1, t2 := m.term(b[1], 8), m.term(b[2], 8)
		lo := ts.Ite(ts.Eq(t0, ts.Const(8, 0xE0)), ts.Const(8, 0xA0), ts.Const(8, 0x80))
		hi := ts.Ite(ts.Eq(t0, ts.Const(8, 0xED)), ts.Const(8, 0x9F), ts.Const(8, 0xBF))
		if !m.decide(ts.And(ts.Bin(OUle, lo, t1), ts.Bin(OUle, t1, hi))) {
			return bad, 1
		}
		if !m.inRange(t2, 0x80, 0xBF) {
			return bad, 1
		}
		return m.fromTerm(or(or(ext(t0, 0x0f, 12), ext(t1, 0x3f, 6)), ext(t2, 0x3f, 0))), 3
	}
	if !lt(t0, 0xF5) || len(b) < 4 {
		return bad, 1
	}
	t1, t2, t3 := m.term(b[1], 8), m.term(b[2], 8), m.term(b[3], 8)
	lo := ts.Ite(ts.Eq(t0, ts.Const(8, 0xF0)), ts.Const(8, 0x90), ts.Const(8, 0x80))
	hi := ts.Ite(ts.Eq(t0, ts.Const(8, 0xF4)), ts.Const(8, 0x8F), ts.Const(8, 0xBF))
	if !m.decide(ts.And(ts.Bin(OUle, lo, t1), ts.Bin(OUle, t1, hi))) {
		return bad, 1
	}
	if !m.inRange(t2, 0x80, 0xBF) || !m.inRange(t3, 0x80, 0xBF) {
		return bad, 1
	}
	return m.fromTerm(or(or(or(ext(t0, 0x07, 18), ext(t1, 0x3f, 12)), ext(t2, 0x3f, 6)), ext(t3, 0x3f, 0))), 4
}

func (m *Mach) decodeLastRuneB(b []V) (V, int) {
	n := len(b)
	if n == 0 {
		return V{n: utf8.RuneError}, 0
	}
	conc := true
	st := n - 4
	if st < 0 {
		st = 0
	}
	for _, x := range b[st:] {
		if x.o != nil {
			conc = false
		}
	}
	if conc {
		var buf []byte
		for _, x := range b[st:] {
			buf = append(buf, byte(x.n))
		}
		r, k := utf8.DecodeLastRune(buf)
		return V{n: uint64(uint32(r))}, k
	}
	ts := m.ts
	last := m.term(b[n-1], 8)
	if m.decide(ts.Bin(OUlt, last, ts.Const(8, 0x80))) {
		return m.fromTerm(ts.Un(OZExt, 32, last)), 1
	}
	start := n - 2
	lim := n - 4
	if lim < 0 {
		lim = 0
	}
	for ; start >= lim; start-- {
		// RuneStart: b&0xC0 != 0x80
		t := m.term(b[start], 8)
		if !m.decide(ts.Eq(ts.Bin(OBAnd, t, ts.Const(8, 0xC0)), ts.Const(8, 0x80))) {
			break
		}
	}
	if start < 0 {
		start = 0
	}
	r, size := m.decodeRuneB(b[start:])
	if start+size != n {
		return V{n: utf8.RuneError}, 1
	}
	return r, size
}

func (m *Mach) encodeRune(r V) []V {
	if r.o == nil {
		var buf [4]byte
		n := utf8.EncodeRune(buf[:], rune(int32(r.n)))
		out := make([]V, n)
		for i := range out {
			out[i].n = uint64(buf[i])
		}
		return out
	}
	ts := m.ts
	t := r.o.(*Term)
	b8 := func(sh uint64, msk, or uint64) V {
		x := ts.Un(OTrunc, 8, ts.Bin(OLShr, t, ts.Const(32, sh)))
		if msk != 0xff {
			x = ts.Bin(OBAnd, x, ts.Const(8, msk))
		}
		if or != 0 {
			x = ts.Bin(OBOr, x, ts.Const(8, or))
		}
		return m.fromTerm(x)
	}
	ult := func(k uint64) bool { return m.decide(ts.Bin(OUlt, t, ts.Const(32, k))) }
	if ult(0x80) {
		return []V{m.fromTerm(ts.Un(OTrunc, 8, t))}
	}
	if ult(0x800) {
		return []V{b8(6, 0x1f, 0xC0), b8(0, 0x3f, 0x80)}
	}
	badc := []V{{n: 0xEF}, {n: 0xBF}, {n: 0xBD}}
	if ult(0x10000) {
		sur := ts.And(ts.Bin(OUle, ts.Const(32, 0xD800), t), ts.Bin(OUle, t, ts.Const(32, 0xDFFF)))
		if m.decide(sur) {
			return badc
		}
		return []V{b8(12, 0x0f, 0xE0), b8(6, 0x3f, 0x80), b8(0, 0x3f, 0x80)}
	}
	if ult(0x110000) {
		return []V{b8(18, 0x07, 0xF0), b8(12, 0x3f, 0x80), b8(6, 0x3f, 0x80), b8(0, 0x3f, 0x80)}
	}
	return badc
}

// ---------- indexing ----------

// symIndex reads f[t] as a term when all elements are scalars (bounds already decided by caller
// unless t cannot be out of range).
func (m *Mach) foldIndex(f []V, t *Term, iw uint8, ew uint8) (V, bool) {
	for i := range f {
		if f[i].o != nil {
			if _, ok := f[i].o.(*Term); !ok {
				return V{}, false
			}
		}
	}
	if len(f) == 0 || len(f) > 4096 {
		return V{}, false
	}
	// runs of equal values
	type run struct {
		start int
		v     *Term
	}
	var runs []run
	for i := range f {
		v := m.term(f[i], ew)
		if len(runs) == 0 || runs[len(runs)-1].v != v {
			runs = append(runs, run{i, v})
		}
	}
	var build func(lo, hi int) *Term
	build = func(lo, hi int) *Term {
		if hi-lo == 1 {
			return runs[lo].v
		}
		mid := (lo + hi) / 2
		st := runs[mid].start
		if iw < 64 && uint64(st) > mask(iw) {
			return build(lo, mid)
		}
		c := m.ts.Bin(OUlt, t, m.ts.Const(iw, uint64(st)))
		return m.ts.Ite(c, build(lo, mid), build(mid, hi))
	}
	return m.fromTerm(build(0, len(runs))), true
}

func (m *Mach) boundsCheck(t *Term, it *TypeInfo, n int) {
	if it.w < 64 && !it.sgn && uint64(n) > mask(it.w) {
		return
	}
	if it.w < 64 && it.sgn && uint64(n) > mask(it.w) {
		if !m.decide(m.ts.Bin(OSle, m.ts.Const(it.w, 0), t)) {
			m.rtPanic(fmt.Sprintf("index out of range with length %d", n))
		}
		return
	}
	if !m.decide(m.ts.Bin(OUlt, t, m.ts.Const(it.w, uint64(n)))) {
		m.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
}

func (m *Mach) symIndex(f []V, t *Term, it *TypeInfo, et *TypeInfo) (V, bool) {
	if et.kind != kInt && et.kind != kBool && et.kind != kFloat {
		return V{}, false
	}
	m.boundsCheck(t, it, len(f))
	return m.foldIndex(f, t, it.w, et.w)
}

func (m *Mach) idxConc(v V, it *TypeInfo) int64 {
	if it.sgn {
		return sx(v.n, it.w)
	}
	if v.n > math.MaxInt64 {
		return -1
	}
	return int64(v.n)
}

// index resolves an index to a concrete in-range position; -2 means the following Load was folded.
func (m *Mach) index(iv V, it *TypeInfo, n int, in *Instr, fr *Frame, f []V) int {
	if iv.o == nil {
		i := m.idxConc(iv, it)
		if i < 0 || i >= int64(n) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i)
	}
	t := iv.o.(*Term)
	m.boundsCheck(t, it, n)
	if in != nil && in.k == 1 && in.ti3 != nil {
		et := in.ti3
		if et.kind == kInt || et.kind == kBool || et.kind == kFloat {
			if v, ok := m.foldIndex(f, t, it.w, et.w); ok {
				nx := &fr.fn.blocks[fr.blk].ins[fr.pc+1]
				fr.regs[nx.dst] = v
				fr.pc += 2
				return -2
			}
		}
	}
	return int(m.concInt(iv, it.w))
}

func (m *Mach) strIndex(s *Str, iv V, it *TypeInfo) V {
	n := s.len()
	if iv.o == nil {
		i := m.idxConc(iv, it)
		if i < 0 || i >= int64(n) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return s.at(int(i))
	}
	t := iv.o.(*Term)
	m.boundsCheck(t, it, n)
	if v, ok := m.foldIndex(s.bytes(), t, it.w, 8); ok {
		return v
	}
	return s.at(int(m.concInt(iv, it.w)))
}

func (m *Mach) concOpd(v V, what string) int {
	n := m.concInt(v, 64)
	i := int64(n)
	if i < -1 {
		i = -1
	}
	return int(i)
}

func (m *Mach) sliceOp(fr *Frame, in *Instr) V {
	x := m.get(fr, &in.a[0])
	get := func(i int, def int) int {
		if in.k&(1<<(i-1)) == 0 {
			return def
		}
		v := m.get(fr, &in.a[i])
		if v.o != nil {
			t, ok := v.o.(*Term)
			if !ok {
				panic(engErr("slice index"))
			}
			if t.w < 64 {
				return int(m.concInt(v, t.w))
			}
			return m.concOpd(v, "slice bound")
		}
		return int(int64(v.n))
	}
	if in.ti.kind == kString {
		s := strOf(x)
		n := s.len()
		lo := get(1, 0)
		hi := get(2, n)
		if hi < 0 || hi > n {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", hi, n))
		}
		if lo < 0 || lo > hi {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		if lo == 0 && hi == n {
			return x
		}
		return s.slice(lo, hi)
	}
	var f []V
	isNil := false
	if in.ti.kind == kSlice {
		if x.o != nil {
			f = x.o.(*Slice).f
		} else {
			isNil = true
		}
	} else {
		f = m.ptr(x).o.(*Agg).f
	}
	lo := get(1, 0)
	hi := get(2, len(f))
	mx := get(3, cap(f))
	if mx < 0 || mx > cap(f) {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", mx, cap(f)))
	}
	if hi < 0 || hi > mx {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", hi, mx))
	}
	if lo < 0 || lo > hi {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
	}
	if isNil {
		return V{}
	}
	return V{o: &Slice{f: f[lo:hi:mx]}}
}

// ---------- type assertion ----------

func (m *Mach) typeAssert(in *Instr, x V) V {
	ok := false
	var r V
	if x.o != nil {
		i := x.o.(*Iface)
		if in.ti.kind == kIface {
			ok = m.implements(i, in.ti)
			r = x
		} else {
			ok = i.t == in.ti
			r = i.v
		}
	}
	if in.ok {
		if !ok {
			r = zero(in.ti)
		}
		return tuple(r, mkBool(ok))
	}
	if !ok {
		d := "nil"
		if x.o != nil {
			d = x.o.(*Iface).t.t.String()
		}
		m.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", d, in.ti.t))
	}
	return r
}

func (m *Mach) implements(i *Iface, it *TypeInfo) bool {
	return i.t.Implements(it)
}

// ---------- maps ----------

func (m *Mach) newMap(ti *TypeInfo) *Map {
	m.nextObj++
	return &Map{t: ti, idx: map[any]*MapEnt{}, id: m.nextObj}
}

func (m *Mach) hashable(ti *TypeInfo, k V) {
	if ti.kind == kIface && k.o != nil {
		i := k.o.(*Iface)
		if _, ok := i.v.o.(*RType); ok {
			return
		}
		if !i.t.Comparable() {
			m.rtPanic("hash of unhashable type " + i.t.t.String())
		}
	}
}

func (m *Mach) keyOf(ti *TypeInfo, k V) (any, bool) {
	if ti.kind == kIface && k.o != nil {
		if r, ok := k.o.(*Iface).v.o.(*RType); ok {
			return r.t, true
		}
	}
	return mapKey(ti, k)
}

func (m *Mach) mapFind(mp *Map, k V) *MapEnt {
	kt := mp.t.Key()
	m.hashable(kt, k)
	ck, conc := m.keyOf(kt, k)
	if conc {
		if e, ok := mp.idx[ck]; ok {
			return e
		}
		if mp.sym == 0 {
			return nil
		}
	}
	for _, e := range mp.ents {
		if e.dead {
			continue
		}
		if conc {
			if _, c := m.keyOf(kt, e.k); c {
				continue
			}
		}
		q := m.eq(kt, k, e.k)
		if q.o == nil {
			if q.n != 0 {
				return e
			}
			continue
		}
		if m.decide(q.o.(*Term)) {
			return e
		}
	}
	return nil
}

func (m *Mach) mapGet(x V, ti *TypeInfo, k V) (V, bool) {
	if x.o == nil {
		m.hashable(ti.Key(), k)
		return zero(ti.Elem()), false
	}
	e := m.mapFind(x.o.(*Map), k)
	if e == nil {
		return zero(ti.Elem()), false
	}
	return e.v, true
}

func (m *Mach) mapSet(mp *Map, k, v V) {
	e := m.mapFind(mp, k)
	v = copyAgg(v)
	if e != nil {
		m.set(&e.v, v)
		return
	}
	e = &MapEnt{k: copyAgg(k), v: v}
	ck, conc := m.keyOf(mp.t.Key(), k)
	old := mp.ents
	mp.ents = append(mp.ents, e)
	mp.n++
	if conc {
		mp.idx[ck] = e
	} else {
		mp.sym++
	}
	m.undo(func() {
		mp.ents = old
		mp.n--
		if conc {
			delete(mp.idx, ck)
		} else {
			mp.sym--
		}
	})
}

func (m *Mach) mapDelete(mp *Map, k V) {
	e := m.mapFind(mp, k)
	if e == nil {
		return
	}
	m.mapKill(mp, e)
}

func (m *Mach) mapKill(mp *Map, e *MapEnt) {
	ck, conc := m.keyOf(mp.t.Key(), e.k)
	old := mp.ents
	e.dead = true
	mp.n--
	if conc {
		delete(mp.idx, ck)
	} else {
		mp.sym--
	}
	// keep ents free of long dead runs (immutable replacement)
	if len(mp.ents) > 16 && mp.n*2 < len(mp.ents) {
		ne := make([]*MapEnt, 0, mp.n+4)
		for _, x := range mp.ents {
			if !x.dead {
				ne = append(ne, x)
			}
		}
		mp.ents = ne
	}
	m.undo(func() {
		mp.ents = old
		e.dead = false
		mp.n++
		if conc {
			mp.idx[ck] = e
		} else {
			mp.sym++
		}
	})
}

func (mp *Map) live() []*MapEnt {
	r := make([]*MapEnt, 0, mp.n)
	for _, e := range mp.ents {
		if !e.dead {
			r = append(r, e)
		}
	}
	return r
}

func (m *Mach) prepIter(it *MapIter) {
	it.order = it.m.live()
	if m.mapOrder == 0 || m.initDepth > 0 || len(it.order) < 2 {
		return
	}
	if !m.curFrame.fn.inRepo() {
		return
	}
	switch m.mapOrder {
	case 2: // forward or reverse
		if m.choose(2, "map order") == 1 {
			n := len(it.order)
			for i := 0; i < n/2; i++ {
				it.order[i], it.order[n-1-i] = it.order[n-1-i], it.order[i]
			}
		}
	case 1:
		it.snap = true
	case 3: // reverse always
		n := len(it.order)
		for i := 0; i < n/2; i++ {
			it.order[i], it.order[n-1-i] = it.order[n-1-i], it.order[i]
		}
	}
}

func (m *Mach) next(c *V) V {
	it := c.o.(*MapIter)
	if it.isStr {
		if it.pos >= it.str.len() {
			return tuple(V{}, V{}, V{})
		}
		r, n := m.decodeRune(it.str, it.pos)
		ni := *it
		ni.pos += n
		m.set(c, V{o: &ni})
		return tuple(mkBool(true), mkInt(it.pos), r)
	}
	if it.m == nil {
		return tuple(V{}, V{}, V{})
	}
	pos := it.pos
	order := it.order
	for pos < len(order) && order[pos].dead {
		pos++
	}
	if pos >= len(order) {
		// entries added during iteration may or may not be produced: they are not
		return tuple(V{}, zero(it.m.t.Key()), zero(it.m.t.Elem()))
	}
	if it.snap {
		var idx []int
		for i := pos; i < len(order); i++ {
			if !order[i].dead {
				idx = append(idx, i)
			}
		}
		if len(idx) > 1 {
			k := m.choose(len(idx), "map iteration")
			if idx[k] != pos {
				no := append([]*MapEnt(nil), order...)
				e := no[idx[k]]
				copy(no[pos+1:idx[k]+1], no[pos:idx[k]])
				no[pos] = e
				order = no
			}
		}
	}
	e := order[pos]
	ni := *it
	ni.order = order
	ni.pos = pos + 1
	m.set(c, V{o: &ni})
	return tuple(mkBool(true), e.k, e.v)
}

// ---------- builtins ----------

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundup(n int, es int, noscan bool) int {
	if es == 0 {
		return n
	}
	size := n * es
	req := size
	if req <= 32768-8 {
		if !noscan && req > 512 {
			req += 8
		}
		for _, c := range sizeClasses {
			if c >= req {
				return (c - (req - size)) / es
			}
		}
	}
	return ((size + 8191) &^ 8191) / es
}

func growCap(newLen, oldCap, es int, noscan bool) int {
	nc := oldCap
	if newLen > 2*oldCap {
		nc = newLen
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for {
			nc += (nc + 3*256) >> 2
			if nc >= newLen {
				break
			}
		}
	}
	return roundup(nc, es, noscan)
}

func hasPtr(ti *TypeInfo) bool {
	switch ti.kind {
	case kBool, kInt, kFloat, kComplex:
		return false
	case kStruct:
		for _, f := range ti.Fields() {
			if hasPtr(f) {
				return true
			}
		}
		return false
	case kArray:
		return hasPtr(ti.Elem())
	}
	return true
}

// appendVals implements append(s, vals...).
func (m *Mach) appendVals(s V, et *TypeInfo, vals []V) V {
	if len(vals) == 0 {
		return s
	}
	var f []V
	if s.o != nil {
		f = s.o.(*Slice).f
	}
	n := len(f)
	nl := n + len(vals)
	if nl <= cap(f) {
		g := f[:nl]
		tmp := vals
		if et.kind == kStruct || et.kind == kArray {
			tmp = make([]V, len(vals))
			for i := range vals {
				tmp[i] = copyAgg(vals[i])
			}
		}
		if len(tmp) > 1 && n > 0 {
			tmp = append([]V(nil), tmp...)
		}
		for i, v := range tmp {
			m.store(&g[n+i], v)
		}
		return V{o: &Slice{f: g}}
	}
	c := growCap(nl, cap(f), int(et.Size()), !hasPtr(et))
	if c < nl {
		c = nl
	}
	g := make([]V, c)
	for i := range f {
		g[i] = copyAgg(f[i])
	}
	for i, v := range vals {
		g[n+i] = copyAgg(v)
	}
	if et.kind == kStruct || et.kind == kArray {
		for i := nl; i < c; i++ {
			g[i] = zero(et)
		}
	}
	return V{o: &Slice{f: g[:nl]}}
}

func (m *Mach) builtin(name string, ci *CallInfo, args []V) V {
	switch name {
	case "len":
		return m.lenOf(ci.argT[0], args[0])
	case "cap":
		ti := ci.argT[0]
		switch ti.kind {
		case kSlice:
			if args[0].o == nil {
				return V{}
			}
			return mkInt(cap(args[0].o.(*Slice).f))
		case kChan:
			if args[0].o == nil {
				return V{}
			}
			return mkInt(args[0].o.(*Chan).cap)
		}
		return m.lenOf(ti, args[0])
	case "append":
		et := ci.argT[0].Elem()
		if len(args) < 2 {
			return args[0]
		}
		if ci.argT[1].kind == kString {
			return m.appendVals(args[0], et, strOf(args[1]).bytes())
		}
		if args[1].o == nil {
			return args[0]
		}
		return m.appendVals(args[0], et, args[1].o.(*Slice).f)
	case "copy":
		if args[0].o == nil || args[1].o == nil {
			return V{}
		}
		d := args[0].o.(*Slice).f
		var s []V
		if ci.argT[1].kind == kString {
			s = strOf(args[1]).bytes()
		} else {
			s = args[1].o.(*Slice).f
		}
		n := len(d)
		if len(s) < n {
			n = len(s)
		}
		if n == 0 {
			return V{}
		}
		tmp := make([]V, n)
		for i := range tmp {
			tmp[i] = copyAgg(s[i])
		}
		for i := range tmp {
			m.store(&d[i], tmp[i])
		}
		return mkInt(n)
	case "delete":
		if args[0].o != nil {
			m.mapDelete(args[0].o.(*Map), args[1])
		}
		return V{}
	case "clear":
		if args[0].o == nil {
			return V{}
		}
		switch x := args[0].o.(type) {
		case *Map:
			for _, e := range x.live() {
				m.mapKill(x, e)
			}
		case *Slice:
			et := ci.argT[0].Elem()
			for i := range x.f {
				m.store(&x.f[i], zero(et))
			}
		}
		return V{}
	case "close":
		m.chanClose(args[0])
		return V{}
	case "print", "println":
		return V{}
	case "recover":
		return m.doRecover()
	case "min", "max":
		r := args[0]
		ti := ci.argT[0]
		for _, a := range args[1:] {
			var c V
			if name == "min" {
				c = m.binop(token.LSS, ti, ti, a, r)
			} else {
				c = m.binop(token.LSS, ti, ti, r, a)
			}
			if c.o == nil {
				if c.n != 0 {
					r = a
				}
			} else if ti.kind == kInt {
				r = m.fromTerm(m.ts.Ite(c.o.(*Term), m.term(a, ti.w), m.term(r, ti.w)))
			} else if m.decide(c.o.(*Term)) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if args[0].o == nil {
			m.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return mkInt(len(m.cur.frames))
	case "real":
		c, _ := args[0].o.(complex128)
		return mkF64(real(c))
	case "imag":
		c, _ := args[0].o.(complex128)
		return mkF64(imag(c))
	case "complex":
		return V{o: complex(f64(args[0]), f64(args[1]))}
	case "String": // unsafe.String
		n := int(m.concInt(args[1], 64))
		if n == 0 {
			return V{}
		}
		switch p := args[0].o.(type) {
		case *SlicePtr:
			return mkBytesStr(append([]V(nil), p.f[:n]...))
		case *Slice:
			return mkBytesStr(append([]V(nil), p.f[:n]...))
		case *V:
			if n == 1 {
				return mkBytesStr([]V{*p})
			}
		}
		panic(engErr(fmt.Sprintf("unsafe.String on %T", args[0].o)))
	case "StringData":
		s := strOf(args[0])
		if s.len() == 0 {
			return V{}
		}
		return V{o: &SlicePtr{f: append([]V(nil), s.bytes()...)}}
	case "SliceData":
		if args[0].o == nil {
			return V{}
		}
		f := args[0].o.(*Slice).f
		if cap(f) == 0 {
			return V{o: &SlicePtr{f: make([]V, 1)[:1]}}
		}
		return V{o: &SlicePtr{f: f[:cap(f)]}}
	case "Slice":
		n := int(m.concInt(args[1], 64))
		switch p := args[0].o.(type) {
		case *SlicePtr:
			return V{o: &Slice{f: p.f[:n:n]}}
		case nil:
			return V{}
		case *V:
			if n == 1 {
				return V{o: &Slice{f: []V{*p}}}
			}
		}
		panic(engErr(fmt.Sprintf("unsafe.Slice on %T", args[0].o)))
	}
	panic(engErr("builtin " + name + " at " + m.where()))
}

func (m *Mach) lenOf(ti *TypeInfo, v V) V {
	switch ti.kind {
	case kString:
		return mkInt(strOf(v).len())
	case kSlice:
		if v.o == nil {
			return V{}
		}
		return mkInt(len(v.o.(*Slice).f))
	case kMap:
		if v.o == nil {
			return V{}
		}
		return mkInt(v.o.(*Map).n)
	case kChan:
		if v.o == nil {
			return V{}
		}
		return mkInt(len(v.o.(*Chan).state().buf))
	case kArray:
		return mkInt(int(ti.u.(*types.Array).Len()))
	case kPtr:
		return mkInt(int(ti.Elem().u.(*types.Array).Len()))
	}
	panic(engErr("len of " + ti.t.String()))
}

// doRecover implements recover(): effective only in a function called directly by the
// deferring machinery of a panicking frame.
func (m *Mach) doRecover() V {
	fr := m.top()
	if fr.kind != 2 || len(m.cur.frames) < 2 {
		return V{}
	}
	par := m.cur.frames[len(m.cur.frames)-2]
	if par.pan == nil || par.pan.recovered {
		return V{}
	}
	v := par.pan.val
	par.pan = &panicRec{val: v, recovered: true, trace: par.pan.trace}
	return v
}

// addrOf gives an object a stable, made-up address.
func (m *Mach) addrOf(o any) uint64 {
	if o == nil {
		return 0
	}
	if a, ok := m.addrs[o]; ok {
		return a
	}
	a := 0xc000100000 + uint64(len(m.addrs))*16
	if m.addrs == nil {
		m.addrs = map[any]uint64{}
		m.addrRev = map[uint64]any{}
	}
	m.addrs[o] = a
	m.addrRev[a] = o
	return a
}
