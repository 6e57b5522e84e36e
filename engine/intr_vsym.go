package main

import (
	"fmt"
	"go/types"
)

const vs = repoModule + "/zz_vsym."

func (m *Mach) freshName(name string) string {
	n := m.nameCnt[name]
	m.nameCnt[name] = n + 1
	m.undo(func() { m.nameCnt[name] = n })
	if n == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, n)
}

func (m *Mach) symVar(name string, w uint8) *Term {
	k := fmt.Sprintf("%s/%d", name, w)
	if t, ok := m.varByName[k]; ok {
		return t
	}
	t := m.ts.NewVar(name, w)
	m.varByName[k] = t
	return t
}

func (m *Mach) argS(v V) string {
	s := strOf(v)
	if !s.conc() {
		panic(engErr("vsym: symbolic label"))
	}
	return s.s
}

func (m *Mach) rangeT(t *Term, lo, hi int64) *Term {
	return m.ts.And(m.ts.Bin(OSle, m.ts.Const(64, uint64(lo)), t), m.ts.Bin(OSle, t, m.ts.Const(64, uint64(hi))))
}

func init() {
	reg(vs+"Symbolic", func(m *Mach, fn *Func, a []V) (V, action) { return mkBool(true), actDone })
	scalar := func(kind string, w uint8) intrinsic {
		return func(m *Mach, fn *Func, a []V) (V, action) {
			name := m.freshName(m.argS(a[0]))
			t := m.symVar(name, w)
			m.inputs = append(m.inputs, inputRec{name: name, kind: kind, terms: []V{{o: t}}})
			return V{o: t}, actDone
		}
	}
	reg(vs+"Bool", scalar("bool", 0))
	reg(vs+"Byte", scalar("byte", 8))
	reg(vs+"Int64", scalar("int", 64))
	reg(vs+"Uint64", scalar("int", 64))
	reg(vs+"Float64bits", scalar("int", 64))
	reg(vs+"Int", func(m *Mach, fn *Func, a []V) (V, action) {
		lo, hi := int64(a[1].n), int64(a[2].n)
		name := m.freshName(m.argS(a[0]))
		if lo == hi {
			m.inputs = append(m.inputs, inputRec{name: name, kind: "int", terms: []V{mkInt(int(lo))}})
			return mkInt(int(lo)), actDone
		}
		var t *Term
		if lo >= 0 && hi < 256 {
			// byte-wide variable: domains stay enumerable
			b := m.symVar(name+"~b", 8)
			t = m.ts.Un(OZExt, 64, b)
			if hi < 255 {
				m.assume(m.fromTerm(m.ts.Bin(OUle, b, m.ts.Const(8, uint64(hi)))))
			}
			if lo > 0 {
				m.assume(m.fromTerm(m.ts.Bin(OUle, m.ts.Const(8, uint64(lo)), b)))
			}
		} else {
			t = m.symVar(name, 64)
			m.assume(m.fromTerm(m.rangeT(t, lo, hi)))
		}
		m.inputs = append(m.inputs, inputRec{name: name, kind: "int", terms: []V{{o: t}}})
		return V{o: t}, actDone
	})
	choice := func(m *Mach, fn *Func, a []V) (V, action) {
		n := int(a[1].n)
		k := m.choose(n, "choice")
		name := m.freshName(m.argS(a[0]))
		m.inputs = append(m.inputs, inputRec{name: name, kind: "int", terms: []V{mkInt(k)}})
		return mkInt(k), actDone
	}
	reg(vs+"Choice", choice)
	str := func(alpha bool) intrinsic {
		return func(m *Mach, fn *Func, a []V) (V, action) {
			lo, hi := int(a[1].n), int(a[2].n)
			n := lo + m.choose(hi-lo+1, "length")
			name := m.freshName(m.argS(a[0]))
			b := make([]V, n)
			var al string
			if alpha {
				al = m.argS(a[3])
			}
			for i := range b {
				t := m.symVar(fmt.Sprintf("%s[%d]", name, i), 8)
				b[i] = V{o: t}
				if alpha {
					m.assume(m.fromTerm(m.inSet(t, al)))
				}
			}
			m.inputs = append(m.inputs, inputRec{name: name, kind: "string", terms: b})
			return mkBytesStr(b), actDone
		}
	}
	reg(vs+"String", str(false))
	reg(vs+"StringOf", str(true))
	reg(vs+"Assume", func(m *Mach, fn *Func, a []V) (V, action) {
		m.assume(a[0])
		return V{}, actDone
	})
	reg(vs+"Assert", func(m *Mach, fn *Func, a []V) (V, action) {
		m.assert(a[0], m.argS(a[1]))
		return V{}, actDone
	})
	reg(vs+"Cover", func(m *Mach, fn *Func, a []V) (V, action) {
		m.pathCov = append(m.pathCov, m.argS(a[0]))
		return V{}, actDone
	})
	reg(vs+"Param", func(m *Mach, fn *Func, a []V) (V, action) {
		if v, ok := m.w.ex.params[m.argS(a[0])]; ok {
			return mkInt(v), actDone
		}
		return a[1], actDone
	})
	bin := func(f func(a, b *Term, m *Mach) *Term) intrinsic {
		return func(m *Mach, fn *Func, a []V) (V, action) {
			return m.fromTerm(f(m.term(a[0], 0), m.term(a[1], 0), m)), actDone
		}
	}
	reg(vs+"And", bin(func(a, b *Term, m *Mach) *Term { return m.ts.And(a, b) }))
	reg(vs+"Or", bin(func(a, b *Term, m *Mach) *Term { return m.ts.Or(a, b) }))
	reg(vs+"Implies", bin(func(a, b *Term, m *Mach) *Term { return m.ts.Or(m.ts.Not(a), b) }))
	reg(vs+"Iff", bin(func(a, b *Term, m *Mach) *Term { return m.ts.Eq(a, b) }))
	reg(vs+"Ite", func(m *Mach, fn *Func, a []V) (V, action) {
		return m.fromTerm(m.ts.Ite(m.term(a[0], 0), m.term(a[1], 64), m.term(a[2], 64))), actDone
	})
	reg(vs+"ObserveS", func(m *Mach, fn *Func, a []V) (V, action) {
		m.obs = append(m.obs, obsEnt{m.argS(a[0]), a[1], TI(types.Typ[types.String])})
		return V{}, actDone
	})
	reg(vs+"ObserveI", func(m *Mach, fn *Func, a []V) (V, action) {
		m.obs = append(m.obs, obsEnt{m.argS(a[0]), a[1], TI(types.Typ[types.Int])})
		return V{}, actDone
	})
	reg(vs+"ObserveB", func(m *Mach, fn *Func, a []V) (V, action) {
		m.obs = append(m.obs, obsEnt{m.argS(a[0]), a[1], TI(types.Typ[types.Bool])})
		return V{}, actDone
	})
	reg(vs+"Schedule", func(m *Mach, fn *Func, a []V) (V, action) {
		m.exploreSched = true
		m.preemptBound = int(a[0].n)
		m.nonNative = true
		return V{}, actDone
	})
	reg(vs+"EndSchedule", func(m *Mach, fn *Func, a []V) (V, action) {
		m.exploreSched = false
		return V{}, actDone
	})
	reg(vs+"MapOrder", func(m *Mach, fn *Func, a []V) (V, action) {
		m.mapOrder = int(a[0].n)
		if m.mapOrder != 0 {
			m.nonNative = true
		}
		return V{}, actDone
	})
	reg(vs+"LooseQuote", func(m *Mach, fn *Func, a []V) (V, action) {
		old := m.looseQ
		m.looseQ = a[0].n != 0
		m.undo(func() { m.looseQ = old })
		return V{}, actDone
	})
	// with LooseQuote on, symbolic text is quoted without escaping (only the text of messages is affected)
	symS := func(v V) bool { return !strOf(v).conc() }
	reg("strconv.AppendQuote", func(m *Mach, fn *Func, a []V) (V, action) {
		if !m.looseQ || !symS(a[1]) {
			return V{}, actDecline
		}
		var f []V
		if s, ok := a[0].o.(*Slice); ok {
			f = append(f, s.f...)
		}
		f = append(f, V{n: '"'})
		f = append(f, strOf(a[1]).bytes()...)
		f = append(f, V{n: '"'})
		return V{o: &Slice{f: f}}, actDone
	})
	reg("strconv.AppendQuoteRune", func(m *Mach, fn *Func, a []V) (V, action) {
		if !m.looseQ || a[1].o == nil {
			return V{}, actDecline
		}
		var f []V
		if s, ok := a[0].o.(*Slice); ok {
			f = append(f, s.f...)
		}
		f = append(f, V{n: '\''}, V{n: '?'}, V{n: '\''})
		return V{o: &Slice{f: f}}, actDone
	})
	reg(vs+"Concretize", func(m *Mach, fn *Func, a []V) (V, action) {
		s := strOf(a[0])
		if s.conc() {
			return a[0], actDone
		}
		b := make([]V, s.len())
		for i := range b {
			b[i] = V{n: m.concInt(s.at(i), 8)}
		}
		return mkBytesStr(b), actDone
	})
	reg(vs+"EventCount", func(m *Mach, fn *Func, a []V) (V, action) {
		return mkInt(len(m.events)), actDone
	})
	reg(repoModule+"/zz_vmodel.event", func(m *Mach, fn *Func, a []V) (V, action) {
		m.events = append(m.events, "event")
		return V{}, actDone
	})
}

func (m *Mach) inSet(t *Term, al string) *Term {
	var bs bitset
	for i := 0; i < len(al); i++ {
		bs.set(int(al[i]))
	}
	r := m.ts.tFalse
	for i := 0; i < 256; {
		if !bs.has(i) {
			i++
			continue
		}
		j := i
		for j+1 < 256 && bs.has(j+1) {
			j++
		}
		if i == j {
			r = m.ts.Or(r, m.ts.Eq(t, m.ts.Const(8, uint64(i))))
		} else {
			r = m.ts.Or(r, m.ts.And(m.ts.Bin(OUle, m.ts.Const(8, uint64(i)), t), m.ts.Bin(OUle, t, m.ts.Const(8, uint64(j)))))
		}
		i = j + 1
	}
	return r
}
