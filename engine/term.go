package main

import (
	"fmt"
	"math"
	"strings"
)

// Term is a hash-consed SMT term. w==0 means Bool, otherwise a bit-vector of width w.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OBNot
	ONeg
	OZExt
	OSExt
	OTrunc
	// floating point (operands are BV64/BV32 holding IEEE bits)
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFLt
	OFLe
	OFEq
	OFFromS // signed bv -> float64 bits
	OFFromU
	OFToS // float64 -> signed 64
	OFIsNaN
)

type Term struct {
	op  Op
	w   uint8
	id  uint32
	k   uint64 // constant / var index
	a   [3]*Term
	na  uint8
	sup []int32 // sorted variable indices
	tab *unaryTab
	// eval memo
	stamp uint32
	val   uint64
	emit  uint32 // solver generation in which it was defined
	big   bool   // support too large / contains non-byte
}

type unaryTab struct {
	v [256]uint64
	s bitset // where Bool term is true
}

type bitset [4]uint64

func (b *bitset) has(i int) bool { return b[i>>6]>>(uint(i)&63)&1 != 0 }
func (b *bitset) set(i int)      { b[i>>6] |= 1 << (uint(i) & 63) }
func (b bitset) and(c bitset) bitset {
	return bitset{b[0] & c[0], b[1] & c[1], b[2] & c[2], b[3] & c[3]}
}
func (b bitset) andnot(c bitset) bitset {
	return bitset{b[0] &^ c[0], b[1] &^ c[1], b[2] &^ c[2], b[3] &^ c[3]}
}
func (b bitset) empty() bool { return b[0]|b[1]|b[2]|b[3] == 0 }
func (b bitset) first() int {
	for i := 0; i < 256; i++ {
		if b.has(i) {
			return i
		}
	}
	return -1
}

type tkey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c *Term
}

type TermStore struct {
	tab   map[tkey]*Term
	next  uint32
	vars  []*VarInfo
	stamp uint32
	tTrue, tFalse *Term
}

type VarInfo struct {
	name string
	w    uint8
	term *Term
	idx  int32
}

func newTermStore() *TermStore {
	s := &TermStore{tab: map[tkey]*Term{}}
	s.tTrue = s.mk(OConst, 0, 1)
	s.tFalse = s.mk(OConst, 0, 0)
	return s
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w == 0 || w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (s *TermStore) mk(op Op, w uint8, k uint64, args ...*Term) *Term {
	key := tkey{op: op, w: w, k: k}
	switch len(args) {
	case 3:
		key.c = args[2]
		fallthrough
	case 2:
		key.b = args[1]
		fallthrough
	case 1:
		key.a = args[0]
	}
	if t, ok := s.tab[key]; ok {
		return t
	}
	s.next++
	t := &Term{op: op, w: w, k: k, id: s.next, na: uint8(len(args))}
	for i, a := range args {
		t.a[i] = a
	}
	switch len(args) {
	case 1:
		t.sup = args[0].sup
	case 2:
		t.sup = mergeSup(args[0].sup, args[1].sup)
	case 3:
		t.sup = mergeSup(mergeSup(args[0].sup, args[1].sup), args[2].sup)
	}
	s.tab[key] = t
	return t
}

func mergeSup(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		if j >= len(b) || (i < len(a) && a[i] < b[j]) {
			out = append(out, a[i])
			i++
		} else if i >= len(a) || b[j] < a[i] {
			out = append(out, b[j])
			j++
		} else {
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

func (s *TermStore) Const(w uint8, k uint64) *Term { return s.mk(OConst, w, k&mask(w)) }
func (s *TermStore) Bool(b bool) *Term {
	if b {
		return s.tTrue
	}
	return s.tFalse
}

func (s *TermStore) NewVar(name string, w uint8) *Term {
	idx := int32(len(s.vars))
	t := s.mk(OVar, w, uint64(idx))
	t.sup = []int32{idx}
	s.vars = append(s.vars, &VarInfo{name: name, w: w, term: t, idx: idx})
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.k == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.k == 0 }

func (s *TermStore) Not(a *Term) *Term {
	if a.isConst() {
		return s.Bool(a.k == 0)
	}
	if a.op == ONot {
		return a.a[0]
	}
	return s.mk(ONot, 0, 0, a)
}

func (s *TermStore) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return s.tFalse
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if a.op == ONot && a.a[0] == b || b.op == ONot && b.a[0] == a {
		return s.tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(OAnd, 0, 0, a, b)
}

func (s *TermStore) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return s.tTrue
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if a.op == ONot && a.a[0] == b || b.op == ONot && b.a[0] == a {
		return s.tTrue
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(OOr, 0, 0, a, b)
}

func (s *TermStore) Ite(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isTrue() && b.isFalse() {
			return c
		}
		if a.isFalse() && b.isTrue() {
			return s.Not(c)
		}
		if a.isTrue() {
			return s.Or(c, b)
		}
		if a.isFalse() {
			return s.And(s.Not(c), b)
		}
		if b.isTrue() {
			return s.Or(s.Not(c), a)
		}
		if b.isFalse() {
			return s.And(c, a)
		}
	}
	return s.mk(OIte, a.w, 0, c, a, b)
}

func (s *TermStore) Eq(a, b *Term) *Term {
	if a == b {
		return s.tTrue
	}
	if a.isConst() && b.isConst() {
		return s.Bool(a.k == b.k)
	}
	if a.w == 0 {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return s.Not(b)
		}
		if b.isFalse() {
			return s.Not(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OZExt:
			if b.k > mask(a.a[0].w) {
				return s.tFalse
			}
			return s.Eq(a.a[0], s.Const(a.a[0].w, b.k))
		case OSExt:
			lo := b.k & mask(a.a[0].w)
			if uint64(sx(lo, a.a[0].w))&mask(a.w) != b.k {
				return s.tFalse
			}
			return s.Eq(a.a[0], s.Const(a.a[0].w, lo))
		case OIte:
			if a.a[1].isConst() || a.a[2].isConst() {
				return s.Ite(a.a[0], s.Eq(a.a[1], b), s.Eq(a.a[2], b))
			}
		case OAdd:
			if a.a[1].isConst() {
				return s.Eq(a.a[0], s.Const(a.w, b.k-a.a[1].k))
			}
		}
		return s.mk(OEq, 0, 0, a, b)
	}
	if a.op == OZExt && b.op == OZExt && a.a[0].w == b.a[0].w {
		return s.Eq(a.a[0], b.a[0])
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(OEq, 0, 0, a, b)
}

func evalOp(op Op, w, wa uint8, x, y, z uint64) uint64 {
	b2 := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	f := func(v uint64) float64 {
		if wa == 32 {
			return float64(math.Float32frombits(uint32(v)))
		}
		return math.Float64frombits(v)
	}
	fo := func(v float64) uint64 {
		if w == 32 {
			return uint64(math.Float32bits(float32(v)))
		}
		return math.Float64bits(v)
	}
	m := mask(w)
	switch op {
	case ONot:
		return x ^ 1
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OEq:
		return b2(x == y)
	case OIte:
		if x != 0 {
			return y
		}
		return z
	case OUlt:
		return b2(x < y)
	case OUle:
		return b2(x <= y)
	case OSlt:
		return b2(sx(x, wa) < sx(y, wa))
	case OSle:
		return b2(sx(x, wa) <= sx(y, wa))
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return (x / y) & m
	case OURem:
		if y == 0 {
			return x
		}
		return (x % y) & m
	case OSDiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a >= 0 {
				return m
			}
			return 1
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSRem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & m
	case OBNot:
		return ^x & m
	case ONeg:
		return -x & m
	case OZExt:
		return x
	case OSExt:
		return uint64(sx(x, wa)) & m
	case OTrunc:
		return x & m
	case OFAdd:
		return fo(f(x) + f(y))
	case OFSub:
		return fo(f(x) - f(y))
	case OFMul:
		return fo(f(x) * f(y))
	case OFDiv:
		return fo(f(x) / f(y))
	case OFLt:
		return b2(f(x) < f(y))
	case OFLe:
		return b2(f(x) <= f(y))
	case OFEq:
		return b2(f(x) == f(y))
	case OFIsNaN:
		return b2(f(x) != f(x))
	case OFFromS:
		return fo(float64(sx(x, wa)))
	case OFFromU:
		return fo(float64(x))
	case OFToS:
		return uint64(int64(f(x))) & m
	}
	panic(fmt.Sprintf("evalOp %d", op))
}

// Bin builds a binary bit-vector (or comparison) term.
func (s *TermStore) Bin(op Op, a, b *Term) *Term {
	w := a.w
	switch op {
	case OUlt, OUle, OSlt, OSle, OFLt, OFLe, OFEq:
		w = 0
	}
	if a.isConst() && b.isConst() {
		return s.Const(w, evalOp(op, w, a.w, a.k, b.k, 0))
	}
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.a[1].isConst() {
				return s.Bin(OAdd, a.a[0], s.Const(w, a.a[1].k+b.k))
			}
			if a.op == OIte && a.a[1].isConst() && a.a[2].isConst() {
				return s.Ite(a.a[0], s.Bin(op, a.a[1], b), s.Bin(op, a.a[2], b))
			}
		}
	case OSub:
		if b.isConst() {
			return s.Bin(OAdd, a, s.Const(w, -b.k))
		}
		if a == b {
			return s.Const(w, 0)
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		}
	case OBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OBOr, OBXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.k == 0 {
			return a
		}
		if a == b {
			if op == OBOr {
				return a
			}
			return s.Const(w, 0)
		}
	case OShl, OLShr, OAShr:
		if b.isConst() && b.k == 0 {
			return a
		}
	case OUlt:
		if a == b {
			return s.tFalse
		}
		if b.isConst() && b.k == 0 {
			return s.tFalse
		}
		if b.isConst() && a.op == OZExt && b.k > mask(a.a[0].w) {
			return s.tTrue
		}
	case OSlt:
		if a == b {
			return s.tFalse
		}
		if a.op == OZExt && b.isConst() { // a is nonneg
			if sx(b.k, b.w) <= 0 {
				return s.tFalse
			}
			return s.Bin(OUlt, a, b)
		}
		if b.op == OZExt && a.isConst() {
			if sx(a.k, a.w) < 0 {
				return s.tTrue
			}
			return s.Bin(OUlt, a, b)
		}
	case OUle:
		if a == b {
			return s.tTrue
		}
		if a.isConst() && a.k == 0 {
			return s.tTrue
		}
	case OSle:
		if a == b {
			return s.tTrue
		}
		if a.op == OZExt && b.isConst() {
			if sx(b.k, b.w) < 0 {
				return s.tFalse
			}
			return s.Bin(OUle, a, b)
		}
		if b.op == OZExt && a.isConst() {
			if sx(a.k, a.w) <= 0 {
				return s.tTrue
			}
			return s.Bin(OUle, a, b)
		}
	}
	// distribute comparisons over constant-leaf ites
	if w == 0 && op != OFLt && op != OFLe && op != OFEq {
		if b.isConst() && a.op == OIte && (a.a[1].isConst() || a.a[2].isConst()) {
			return s.Ite(a.a[0], s.Bin(op, a.a[1], b), s.Bin(op, a.a[2], b))
		}
		if a.isConst() && b.op == OIte && (b.a[1].isConst() || b.a[2].isConst()) {
			return s.Ite(b.a[0], s.Bin(op, a, b.a[1]), s.Bin(op, a, b.a[2]))
		}
	}
	return s.mk(op, w, 0, a, b)
}

func (s *TermStore) Un(op Op, w uint8, a *Term) *Term {
	if a.isConst() {
		return s.Const(w, evalOp(op, w, a.w, a.k, 0, 0))
	}
	switch op {
	case OZExt, OSExt, OTrunc:
		if a.w == w {
			return a
		}
		if op == OTrunc && (a.op == OZExt || a.op == OSExt) {
			in := a.a[0]
			if in.w == w {
				return in
			}
			if in.w > w {
				return s.Un(OTrunc, w, in)
			}
			return s.Un(a.op, w, in)
		}
		if op == OZExt && a.op == OZExt {
			return s.Un(OZExt, w, a.a[0])
		}
		if op == OSExt && a.op == OZExt {
			return s.Un(OZExt, w, a.a[0])
		}
		if a.op == OIte && a.a[1].isConst() && a.a[2].isConst() {
			return s.Ite(a.a[0], s.Un(op, w, a.a[1]), s.Un(op, w, a.a[2]))
		}
	case OBNot:
		if a.op == OBNot {
			return a.a[0]
		}
	}
	return s.mk(op, w, 0, a)
}

// eval under an assignment (indexed by var idx)
func (s *TermStore) Eval(t *Term, env []uint64) uint64 {
	s.stamp++
	return s.eval(t, env)
}

func (s *TermStore) eval(t *Term, env []uint64) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.stamp == s.stamp {
		return t.val
	}
	var r uint64
	switch t.op {
	case OVar:
		if int(t.k) < len(env) {
			r = env[t.k]
		}
	case OIte:
		if s.eval(t.a[0], env) != 0 {
			r = s.eval(t.a[1], env)
		} else {
			r = s.eval(t.a[2], env)
		}
	case OAnd:
		r = s.eval(t.a[0], env)
		if r != 0 {
			r = s.eval(t.a[1], env)
		}
	case OOr:
		r = s.eval(t.a[0], env)
		if r == 0 {
			r = s.eval(t.a[1], env)
		}
	default:
		var x, y, z uint64
		x = s.eval(t.a[0], env)
		if t.na > 1 {
			y = s.eval(t.a[1], env)
		}
		if t.na > 2 {
			z = s.eval(t.a[2], env)
		}
		r = evalOp(t.op, t.w, t.a[0].w, x, y, z)
	}
	t.stamp = s.stamp
	t.val = r
	return r
}

// unary returns the value table for a term supported by exactly one variable of width <= 8.
func (s *TermStore) unary(t *Term) *unaryTab {
	if t.tab != nil {
		return t.tab
	}
	if len(t.sup) != 1 {
		return nil
	}
	vi := s.vars[t.sup[0]]
	if vi.w > 8 {
		return nil
	}
	tb := &unaryTab{}
	n := 256
	if vi.w == 0 {
		n = 2
	} else {
		n = 1 << vi.w
	}
	switch t.op {
	case OVar:
		for i := 0; i < n; i++ {
			tb.v[i] = uint64(i)
		}
	default:
		var ts [3]*unaryTab
		var cs [3]uint64
		for j := 0; j < int(t.na); j++ {
			if t.a[j].isConst() {
				cs[j] = t.a[j].k
			} else {
				ts[j] = s.unary(t.a[j])
			}
		}
		for i := 0; i < n; i++ {
			x := cs
			for j := 0; j < int(t.na); j++ {
				if ts[j] != nil {
					x[j] = ts[j].v[i]
				}
			}
			tb.v[i] = evalOp(t.op, t.w, t.a[0].w, x[0], x[1], x[2])
		}
	}
	if t.w == 0 {
		for i := 0; i < n; i++ {
			if tb.v[i] != 0 {
				tb.s.set(i)
			}
		}
	}
	t.tab = tb
	return tb
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func fpSort(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

// smtBody renders one node given the names of its children.
func smtBody(t *Term, n func(*Term) string) string {
	a := func(i int) string { return n(t.a[i]) }
	bin := func(op string) string { return "(" + op + " " + a(0) + " " + a(1) + ")" }
	fp := func(i int) string {
		return fmt.Sprintf("((_ to_fp %s) %s)", fpSort(t.a[i].w), a(i))
	}
	switch t.op {
	case ONot:
		return "(not " + a(0) + ")"
	case OAnd:
		return bin("and")
	case OOr:
		return bin("or")
	case OEq:
		return bin("=")
	case OIte:
		return "(ite " + a(0) + " " + a(1) + " " + a(2) + ")"
	case OUlt:
		return bin("bvult")
	case OUle:
		return bin("bvule")
	case OSlt:
		return bin("bvslt")
	case OSle:
		return bin("bvsle")
	case OAdd:
		return bin("bvadd")
	case OSub:
		return bin("bvsub")
	case OMul:
		return bin("bvmul")
	case OUDiv:
		return bin("bvudiv")
	case OURem:
		return bin("bvurem")
	case OSDiv:
		return bin("bvsdiv")
	case OSRem:
		return bin("bvsrem")
	case OBAnd:
		return bin("bvand")
	case OBOr:
		return bin("bvor")
	case OBXor:
		return bin("bvxor")
	case OShl:
		return bin("bvshl")
	case OLShr:
		return bin("bvlshr")
	case OAShr:
		return bin("bvashr")
	case OBNot:
		return "(bvnot " + a(0) + ")"
	case ONeg:
		return "(bvneg " + a(0) + ")"
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a[0].w, a(0))
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a[0].w, a(0))
	case OTrunc:
		return fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, a(0))
	case OFAdd:
		return "(fp.to_ieee_bv (fp.add RNE " + fp(0) + " " + fp(1) + "))"
	case OFSub:
		return "(fp.to_ieee_bv (fp.sub RNE " + fp(0) + " " + fp(1) + "))"
	case OFMul:
		return "(fp.to_ieee_bv (fp.mul RNE " + fp(0) + " " + fp(1) + "))"
	case OFDiv:
		return "(fp.to_ieee_bv (fp.div RNE " + fp(0) + " " + fp(1) + "))"
	case OFLt:
		return "(fp.lt " + fp(0) + " " + fp(1) + ")"
	case OFLe:
		return "(fp.leq " + fp(0) + " " + fp(1) + ")"
	case OFEq:
		return "(fp.eq " + fp(0) + " " + fp(1) + ")"
	case OFIsNaN:
		return "(fp.isNaN " + fp(0) + ")"
	case OFFromS:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(t.w), a(0))
	case OFFromU:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp_unsigned %s) RNE %s))", fpSort(t.w), a(0))
	case OFToS:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, fp(0))
	}
	panic("smtBody")
}

func constSMT(w uint8, k uint64) string {
	if w == 0 {
		if k != 0 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w)/4, k)
	}
	return fmt.Sprintf("#b%0*b", int(w), k)
}

func (t *Term) String() string {
	var sb strings.Builder
	d := 0
	var rec func(t *Term)
	rec = func(t *Term) {
		d++
		if d > 400 {
			sb.WriteString("...")
			return
		}
		switch t.op {
		case OConst:
			sb.WriteString(constSMT(t.w, t.k))
		case OVar:
			fmt.Fprintf(&sb, "v%d", t.k)
		default:
			sb.WriteString(smtBody(t, func(c *Term) string {
				o := sb
				sb = strings.Builder{}
				rec(c)
				r := sb.String()
				sb = o
				return r
			}))
		}
	}
	rec(t)
	return sb.String()
}
