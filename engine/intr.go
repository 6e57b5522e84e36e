package main

import (
	"fmt"
	"math"
	"math/bits"
	"path"
	"path/filepath"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"crypto/sha256"
	"go/types"
)

type action uint8

const (
	actDone action = iota
	actDecline
	actBlock
	actTail
)

type intrinsic func(m *Mach, fn *Func, args []V) (V, action)

var intrinsics = map[string]intrinsic{}

var skipInit = map[string]bool{
	"runtime": true, "reflect": true, "internal/reflectlite": true, "os": true, "syscall": true, "internal/poll": true,
	"internal/cpu": true, "internal/godebug": true, "internal/testlog": true, "sync": true, "sync/atomic": true, "time": false,
	"internal/bytealg": true, "log": true, "net": true, "net/http": true, "crypto/tls": true, "crypto/x509": true,
	"internal/runtime/maps": true, "internal/abi": true, "hash/maphash": true, "internal/sync": true, "math/rand": true, "math/rand/v2": true, "crypto/sha256": true,
	"crypto/rand": true, "os/signal": true, "internal/runtime/atomic": true, "internal/syscall/unix": true,
	"crypto/internal/fips140/sha256": true, "crypto/internal/fips140/check": true, "crypto/internal/fips140": true, "unique": true, "net/netip": true, "internal/oserror": false,
}

var syncFns = map[string]bool{
	"(*sync.Mutex).Lock": true, "(*sync.Mutex).Unlock": true, "(*sync.Mutex).TryLock": true,
	"(*sync.RWMutex).Lock": true, "(*sync.RWMutex).Unlock": true, "(*sync.RWMutex).RLock": true, "(*sync.RWMutex).RUnlock": true,
	"(*sync.WaitGroup).Add": true, "(*sync.WaitGroup).Done": true, "(*sync.WaitGroup).Wait": true,
	"(*sync.Map).Load": true, "(*sync.Map).Store": true, "(*sync.Map).LoadOrStore": true, "(*sync.Map).Delete": true,
	"sync/atomic.LoadInt32": true, "sync/atomic.LoadInt64": true, "sync/atomic.LoadUint32": true, "sync/atomic.LoadPointer": true,
	"sync/atomic.StoreInt32": true, "sync/atomic.StoreInt64": true, "sync/atomic.StoreUint32": true, "sync/atomic.StorePointer": true,
	"sync/atomic.AddInt32": true, "sync/atomic.AddInt64": true, "sync/atomic.CompareAndSwapInt32": true, "sync/atomic.CompareAndSwapUint32": true,
	"sync/atomic.CompareAndSwapPointer": true, "sync/atomic.CompareAndSwapInt64": true,
}

func lookupIntrinsic(name string) intrinsic {
	if f, ok := intrinsics[name]; ok {
		return f
	}
	if strings.HasPrefix(name, "(*log/slog.Logger).") {
		switch name[len("(*log/slog.Logger)."):] {
		case "log", "logAttrs", "Debug", "Info", "Warn", "Error", "Log", "LogAttrs", "DebugContext", "InfoContext", "WarnContext", "ErrorContext":
			return nop
		}
	}
	return nil
}

func nop(m *Mach, fn *Func, a []V) (V, action) { return zeroRes(fn), actDone }

func reg(name string, f intrinsic) { intrinsics[name] = f }

// leaf returns the n-th non-aggregate cell within *p.
func leaf(p *V, n int) *V {
	var rec func(c *V) *V
	rec = func(c *V) *V {
		if a, ok := c.o.(*Agg); ok {
			for i := range a.f {
				if r := rec(&a.f[i]); r != nil {
					return r
				}
			}
			return nil
		}
		if n == 0 {
			return c
		}
		n--
		return nil
	}
	return rec(p)
}

func (m *Mach) recvCell(v V) *V {
	if v.o == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	return v.o.(*V)
}

func sliceV(v V) []V {
	if v.o == nil {
		return nil
	}
	return v.o.(*Slice).f
}

func mkSlice(f []V) V { return V{o: &Slice{f: f}} }

func concBytes(f []V) ([]byte, bool) {
	b := make([]byte, len(f))
	for i := range f {
		if f[i].o != nil {
			return nil, false
		}
		b[i] = byte(f[i].n)
	}
	return b, true
}

func bytesToV(b []byte) []V {
	f := make([]V, len(b))
	for i := range b {
		f[i].n = uint64(b[i])
	}
	return f
}

func concS(vs ...V) bool {
	for _, v := range vs {
		if s, ok := v.o.(*Str); ok && s.b != nil {
			return false
		}
		if _, ok := v.o.(*Term); ok {
			return false
		}
	}
	return true
}

func (m *Mach) mkStrSlice(ss []string) V {
	f := make([]V, len(ss))
	for i, s := range ss {
		f[i] = mkStr(s)
	}
	return mkSlice(f)
}

// ---- symbolic string search (no forking) ----

func (m *Mach) matchAt(s, sub []V, i int) *Term {
	return m.bytesEqT(s[i:i+len(sub)], sub)
}

func (m *Mach) indexT(s, sub []V) V {
	r := m.ts.Const(64, ^uint64(0))
	for i := len(s) - len(sub); i >= 0; i-- {
		r = m.ts.Ite(m.matchAt(s, sub, i), m.ts.Const(64, uint64(i)), r)
	}
	return m.fromTerm(r)
}

func (m *Mach) lastIndexT(s, sub []V) V {
	r := m.ts.Const(64, ^uint64(0))
	for i := 0; i+len(sub) <= len(s); i++ {
		r = m.ts.Ite(m.matchAt(s, sub, i), m.ts.Const(64, uint64(i)), r)
	}
	return m.fromTerm(r)
}

func (m *Mach) containsT(s, sub []V) V {
	r := m.ts.tFalse
	for i := 0; i+len(sub) <= len(s); i++ {
		r = m.ts.Or(r, m.matchAt(s, sub, i))
	}
	return m.fromTerm(r)
}

func (m *Mach) countByteT(s []V, c V) V {
	r := m.ts.Const(64, 0)
	for i := range s {
		r = m.ts.Bin(OAdd, r, m.ts.Ite(m.ts.Eq(m.term(s[i], 8), m.term(c, 8)), m.ts.Const(64, 1), m.ts.Const(64, 0)))
	}
	return m.fromTerm(r)
}

func (m *Mach) asciiOnly(s *Str) bool {
	t := m.ts.tTrue
	for i := 0; i < s.len(); i++ {
		c := s.at(i)
		if c.o == nil {
			if c.n >= 0x80 {
				return false
			}
			continue
		}
		t = m.ts.And(t, m.ts.Bin(OUlt, c.o.(*Term), m.ts.Const(8, 0x80)))
	}
	return m.decide(t)
}

func (m *Mach) caseMap(s *Str, lo, hi byte, delta uint64) V {
	out := make([]V, s.len())
	for i := range out {
		c := s.at(i)
		t := m.term(c, 8)
		in := m.ts.And(m.ts.Bin(OUle, m.ts.Const(8, uint64(lo)), t), m.ts.Bin(OUle, t, m.ts.Const(8, uint64(hi))))
		out[i] = m.fromTerm(m.ts.Ite(in, m.ts.Bin(OAdd, t, m.ts.Const(8, delta)), t))
	}
	return mkBytesStr(out)
}

func str1(f func(string) V) intrinsic {
	return func(m *Mach, fn *Func, a []V) (V, action) {
		if !concS(a[0]) {
			return V{}, actDecline
		}
		return f(strOf(a[0]).s), actDone
	}
}

func str2(f func(a, b string) V) intrinsic {
	return func(m *Mach, fn *Func, a []V) (V, action) {
		if !concS(a[0], a[1]) {
			return V{}, actDecline
		}
		return f(strOf(a[0]).s, strOf(a[1]).s), actDone
	}
}

func rune1(f func(r rune) V) intrinsic {
	return func(m *Mach, fn *Func, a []V) (V, action) {
		if a[0].o != nil {
			return V{}, actDecline
		}
		return f(rune(int32(a[0].n))), actDone
	}
}

func f1(f func(float64) float64) intrinsic {
	return func(m *Mach, fn *Func, a []V) (V, action) {
		if a[0].o != nil {
			a[0] = V{n: m.concInt(a[0], 64)}
		}
		return mkF64(f(f64(a[0]))), actDone
	}
}

func init() {
	// ---- bytealg ----
	ba := "internal/bytealg."
	reg(ba+"IndexByteString", func(m *Mach, fn *Func, a []V) (V, action) {
		s := strOf(a[0])
		if concS(a...) {
			return mkInt(strings.IndexByte(s.s, byte(a[1].n))), actDone
		}
		return m.indexT(s.bytes(), a[1:2]), actDone
	})
	reg(ba+"IndexByte", func(m *Mach, fn *Func, a []V) (V, action) {
		return m.indexT(sliceV(a[0]), a[1:2]), actDone
	})
	reg(ba+"LastIndexByteString", func(m *Mach, fn *Func, a []V) (V, action) {
		return m.lastIndexT(strOf(a[0]).bytes(), a[1:2]), actDone
	})
	reg(ba+"LastIndexByte", func(m *Mach, fn *Func, a []V) (V, action) {
		return m.lastIndexT(sliceV(a[0]), a[1:2]), actDone
	})
	reg(ba+"CountString", func(m *Mach, fn *Func, a []V) (V, action) {
		return m.countByteT(strOf(a[0]).bytes(), a[1]), actDone
	})
	reg(ba+"Count", func(m *Mach, fn *Func, a []V) (V, action) {
		return m.countByteT(sliceV(a[0]), a[1]), actDone
	})
	reg(ba+"IndexString", func(m *Mach, fn *Func, a []V) (V, action) {
		return m.indexT(strOf(a[0]).bytes(), strOf(a[1]).bytes()), actDone
	})
	reg(ba+"Index", func(m *Mach, fn *Func, a []V) (V, action) {
		return m.indexT(sliceV(a[0]), sliceV(a[1])), actDone
	})
	reg(ba+"Equal", func(m *Mach, fn *Func, a []V) (V, action) {
		x, y := sliceV(a[0]), sliceV(a[1])
		if len(x) != len(y) {
			return V{}, actDone
		}
		return m.fromTerm(m.bytesEqT(x, y)), actDone
	})
	reg("bytes.Equal", intrinsics[ba+"Equal"])
	cmpS := func(m *Mach, a, b *Str) V {
		if a.conc() && b.conc() {
			return V{n: uint64(strings.Compare(a.s, b.s))}
		}
		lt := m.term(m.strLess(a, b, false), 0)
		eq := m.strEqT(a, b)
		return m.fromTerm(m.ts.Ite(eq, m.ts.Const(64, 0), m.ts.Ite(lt, m.ts.Const(64, ^uint64(0)), m.ts.Const(64, 1))))
	}
	reg(ba+"Compare", func(m *Mach, fn *Func, a []V) (V, action) {
		return cmpS(m, strOf(mkBytesStr(sliceV(a[0]))), strOf(mkBytesStr(sliceV(a[1])))), actDone
	})
	reg(ba+"CompareString", func(m *Mach, fn *Func, a []V) (V, action) { return cmpS(m, strOf(a[0]), strOf(a[1])), actDone })
	reg("strings.Compare", intrinsics[ba+"CompareString"])
	reg(ba+"MakeNoZero", func(m *Mach, fn *Func, a []V) (V, action) {
		n := int(m.concInt(a[0], 64))
		return mkSlice(make([]V, n, roundup(n, 1, true))[:n]), actDone
	})
	reg("internal/abi.NoEscape", func(m *Mach, fn *Func, a []V) (V, action) { return a[0], actDone })
	reg("internal/abi.Escape", func(m *Mach, fn *Func, a []V) (V, action) { return a[0], actDone })
	reg("(*strings.Builder).copyCheck", nop)
	reg("strings.noescape", func(m *Mach, fn *Func, a []V) (V, action) { return a[0], actDone })

	// ---- strings ----
	idx := func(m *Mach, fn *Func, a []V) (V, action) {
		if concS(a[0], a[1]) {
			return mkInt(strings.Index(strOf(a[0]).s, strOf(a[1]).s)), actDone
		}
		return m.indexT(strOf(a[0]).bytes(), strOf(a[1]).bytes()), actDone
	}
	reg("strings.Index", idx)
	reg("internal/stringslite.Index", idx)
	ident := func(m *Mach, fn *Func, a []V) (V, action) { return a[0], actDone }
	reg("internal/stringslite.Clone", ident)
	reg("strings.Clone", ident)
	reg("internal/reflectlite.TypeOf", func(m *Mach, fn *Func, a []V) (V, action) {
		return lookupIntrinsic("reflect.TypeOf")(m, fn, a)
	})
	reg("strings.LastIndex", func(m *Mach, fn *Func, a []V) (V, action) {
		if concS(a[0], a[1]) {
			return mkInt(strings.LastIndex(strOf(a[0]).s, strOf(a[1]).s)), actDone
		}
		return m.lastIndexT(strOf(a[0]).bytes(), strOf(a[1]).bytes()), actDone
	})
	reg("strings.Contains", func(m *Mach, fn *Func, a []V) (V, action) {
		if concS(a[0], a[1]) {
			return mkBool(strings.Contains(strOf(a[0]).s, strOf(a[1]).s)), actDone
		}
		return m.containsT(strOf(a[0]).bytes(), strOf(a[1]).bytes()), actDone
	})
	reg("strings.ToLower", func(m *Mach, fn *Func, a []V) (V, action) {
		s := strOf(a[0])
		if s.conc() {
			return mkStr(strings.ToLower(s.s)), actDone
		}
		if m.asciiOnly(s) {
			return m.caseMap(s, 'A', 'Z', 32), actDone
		}
		return V{}, actDecline
	})
	reg("strings.ToUpper", func(m *Mach, fn *Func, a []V) (V, action) {
		s := strOf(a[0])
		if s.conc() {
			return mkStr(strings.ToUpper(s.s)), actDone
		}
		if m.asciiOnly(s) {
			return m.caseMap(s, 'a', 'z', 0xE0), actDone
		}
		return V{}, actDecline
	})
	reg("strings.EqualFold", func(m *Mach, fn *Func, a []V) (V, action) {
		x, y := strOf(a[0]), strOf(a[1])
		if concS(a...) {
			return mkBool(strings.EqualFold(x.s, y.s)), actDone
		}
		if m.asciiOnly(x) && m.asciiOnly(y) {
			l, r := strOf(m.caseMap(x, 'A', 'Z', 32)), strOf(m.caseMap(y, 'A', 'Z', 32))
			return m.fromTerm(m.strEqT(l, r)), actDone
		}
		return V{}, actDecline
	})
	reg("strings.TrimSpace", str1(func(s string) V { return mkStr(strings.TrimSpace(s)) }))
	reg("strings.Title", str1(func(s string) V { return mkStr(strings.Title(s)) }))
	reg("strings.Trim", str2(func(a, b string) V { return mkStr(strings.Trim(a, b)) }))
	reg("strings.TrimLeft", str2(func(a, b string) V { return mkStr(strings.TrimLeft(a, b)) }))
	reg("strings.TrimRight", str2(func(a, b string) V { return mkStr(strings.TrimRight(a, b)) }))
	reg("strings.ContainsAny", str2(func(a, b string) V { return mkBool(strings.ContainsAny(a, b)) }))
	reg("strings.IndexAny", str2(func(a, b string) V { return mkInt(strings.IndexAny(a, b)) }))
	reg("strings.Count", str2(func(a, b string) V { return mkInt(strings.Count(a, b)) }))
	reg("strings.Repeat", func(m *Mach, fn *Func, a []V) (V, action) {
		if !concS(a...) || int64(a[1].n) < 0 || a[1].n > 1<<20 {
			return V{}, actDecline
		}
		return mkStr(strings.Repeat(strOf(a[0]).s, int(a[1].n))), actDone
	})
	reg("strings.Split", func(m *Mach, fn *Func, a []V) (V, action) {
		if !concS(a...) {
			return V{}, actDecline
		}
		return m.mkStrSlice(strings.Split(strOf(a[0]).s, strOf(a[1]).s)), actDone
	})
	reg("strings.Fields", func(m *Mach, fn *Func, a []V) (V, action) {
		if !concS(a...) {
			return V{}, actDecline
		}
		return m.mkStrSlice(strings.Fields(strOf(a[0]).s)), actDone
	})
	reg("strings.ReplaceAll", func(m *Mach, fn *Func, a []V) (V, action) {
		if concS(a...) {
			return mkStr(strings.ReplaceAll(strOf(a[0]).s, strOf(a[1]).s, strOf(a[2]).s)), actDone
		}
		o, n := strOf(a[1]), strOf(a[2])
		if o.len() == 1 && n.len() == 1 {
			s := strOf(a[0])
			out := make([]V, s.len())
			for i := range out {
				t := m.term(s.at(i), 8)
				out[i] = m.fromTerm(m.ts.Ite(m.ts.Eq(t, m.term(o.at(0), 8)), m.term(n.at(0), 8), t))
			}
			return mkBytesStr(out), actDone
		}
		return V{}, actDecline
	})
	reg("strings.Join", func(m *Mach, fn *Func, a []V) (V, action) {
		f := sliceV(a[0])
		if len(f) == 0 {
			return V{}, actDone
		}
		if len(f) == 1 {
			return f[0], actDone
		}
		conc := concS(a[1])
		for i := range f {
			conc = conc && concS(f[i])
		}
		if conc {
			ss := make([]string, len(f))
			for i := range f {
				ss[i] = strOf(f[i]).s
			}
			return mkStr(strings.Join(ss, strOf(a[1]).s)), actDone
		}
		var out []V
		for i := range f {
			if i > 0 {
				out = append(out, strOf(a[1]).bytes()...)
			}
			out = append(out, strOf(f[i]).bytes()...)
		}
		return mkBytesStr(out), actDone
	})
	reg("strings.Clone", func(m *Mach, fn *Func, a []V) (V, action) { return a[0], actDone })

	// ---- unicode ----
	reg("unicode.IsLetter", rune1(func(r rune) V { return mkBool(unicode.IsLetter(r)) }))
	reg("unicode.IsDigit", rune1(func(r rune) V { return mkBool(unicode.IsDigit(r)) }))
	reg("unicode.IsNumber", rune1(func(r rune) V { return mkBool(unicode.IsNumber(r)) }))
	reg("unicode.IsSpace", rune1(func(r rune) V { return mkBool(unicode.IsSpace(r)) }))
	reg("unicode.IsUpper", rune1(func(r rune) V { return mkBool(unicode.IsUpper(r)) }))
	reg("unicode.IsLower", rune1(func(r rune) V { return mkBool(unicode.IsLower(r)) }))
	reg("unicode.IsPunct", rune1(func(r rune) V { return mkBool(unicode.IsPunct(r)) }))
	reg("unicode.IsPrint", rune1(func(r rune) V { return mkBool(unicode.IsPrint(r)) }))
	reg("unicode.IsControl", rune1(func(r rune) V { return mkBool(unicode.IsControl(r)) }))
	reg("unicode.ToUpper", rune1(func(r rune) V { return V{n: uint64(uint32(unicode.ToUpper(r)))} }))
	reg("unicode.ToLower", rune1(func(r rune) V { return V{n: uint64(uint32(unicode.ToLower(r)))} }))
	reg("strconv.IsPrint", rune1(func(r rune) V { return mkBool(strconv.IsPrint(r)) }))
	reg("unicode/utf8.DecodeRuneInString", func(m *Mach, fn *Func, a []V) (V, action) {
		s := strOf(a[0])
		if s.len() == 0 {
			return tuple(V{n: utf8.RuneError}, V{}), actDone
		}
		r, n := m.decodeRune(s, 0)
		return tuple(r, mkInt(n)), actDone
	})
	reg("unicode/utf8.DecodeRune", func(m *Mach, fn *Func, a []V) (V, action) {
		r, n := m.decodeRuneB(sliceV(a[0]))
		return tuple(r, mkInt(n)), actDone
	})
	reg("unicode/utf8.DecodeLastRuneInString", func(m *Mach, fn *Func, a []V) (V, action) {
		r, n := m.decodeLastRuneB(strOf(a[0]).bytes())
		return tuple(r, mkInt(n)), actDone
	})
	reg("unicode/utf8.DecodeLastRune", func(m *Mach, fn *Func, a []V) (V, action) {
		r, n := m.decodeLastRuneB(sliceV(a[0]))
		return tuple(r, mkInt(n)), actDone
	})
	reg("unicode/utf8.AppendRune", func(m *Mach, fn *Func, a []V) (V, action) {
		return m.appendVals(a[0], TI(types.Typ[types.Uint8]), m.encodeRune(a[1])), actDone
	})
	reg("unicode/utf8.RuneCountInString", func(m *Mach, fn *Func, a []V) (V, action) {
		s := strOf(a[0])
		if s.conc() {
			return mkInt(utf8.RuneCountInString(s.s)), actDone
		}
		n := 0
		for i := 0; i < s.len(); n++ {
			_, k := m.decodeRune(s, i)
			i += k
		}
		return mkInt(n), actDone
	})
	reg("unicode/utf8.ValidString", func(m *Mach, fn *Func, a []V) (V, action) {
		s := strOf(a[0])
		if s.conc() {
			return mkBool(utf8.ValidString(s.s)), actDone
		}
		return mkBool(m.validUTF8(s.b)), actDone
	})
	reg("unicode/utf8.Valid", func(m *Mach, fn *Func, a []V) (V, action) {
		return mkBool(m.validUTF8(sliceV(a[0]))), actDone
	})

	// ---- strconv (concrete fast paths) ----
	reg("strconv.Itoa", func(m *Mach, fn *Func, a []V) (V, action) {
		if a[0].o != nil {
			return m.fmtIntSym(a[0], 64, true), actDone
		}
		return mkStr(strconv.Itoa(int(a[0].n))), actDone
	})
	reg("strconv.FormatInt", func(m *Mach, fn *Func, a []V) (V, action) {
		if !concS(a...) {
			if a[1].o == nil && a[1].n == 10 {
				return m.fmtIntSym(a[0], 64, true), actDone
			}
			return V{}, actDecline
		}
		return mkStr(strconv.FormatInt(int64(a[0].n), int(a[1].n))), actDone
	})
	reg("strconv.FormatFloat", func(m *Mach, fn *Func, a []V) (V, action) {
		if a[0].o != nil {
			a[0] = V{n: m.concInt(a[0], 64)}
		}
		return mkStr(strconv.FormatFloat(f64(a[0]), byte(a[1].n), int(int64(a[2].n)), int(a[3].n))), actDone
	})
	reg("strconv.Quote", str1(func(s string) V { return mkStr(strconv.Quote(s)) }))
	reg("strconv.Atoi", func(m *Mach, fn *Func, a []V) (V, action) {
		if !concS(a...) {
			return V{}, actDecline
		}
		i, err := strconv.Atoi(strOf(a[0]).s)
		if err != nil {
			return V{}, actDecline
		}
		return tuple(mkInt(i), V{}), actDone
	})
	reg("strconv.ParseInt", func(m *Mach, fn *Func, a []V) (V, action) {
		if !concS(a...) {
			return V{}, actDecline
		}
		i, err := strconv.ParseInt(strOf(a[0]).s, int(a[1].n), int(a[2].n))
		if err != nil {
			return V{}, actDecline
		}
		return tuple(V{n: uint64(i)}, V{}), actDone
	})
	reg("strconv.ParseFloat", func(m *Mach, fn *Func, a []V) (V, action) {
		if !concS(a...) {
			s := strOf(a[0])
			if s.b != nil {
				// digits only below: enumerate the concrete text
				b := make([]V, s.len())
				for i := range b {
					b[i] = V{n: m.concInt(s.b[i], 8)}
				}
				a = []V{mkBytesStr(b), a[1]}
			}
		}
		f, err := strconv.ParseFloat(strOf(a[0]).s, int(a[1].n))
		if err != nil {
			return V{}, actDecline
		}
		return tuple(mkF64(f), V{}), actDone
	})

	// ---- path ----
	reg("path.Clean", str1(func(s string) V { return mkStr(path.Clean(s)) }))
	reg("path/filepath.Clean", str1(func(s string) V { return mkStr(filepath.Clean(s)) }))
	reg("path/filepath.Abs", func(m *Mach, fn *Func, a []V) (V, action) {
		if !concS(a...) {
			return V{}, actDecline
		}
		s := strOf(a[0]).s
		if !filepath.IsAbs(s) {
			s = filepath.Join("/w", s)
		}
		return tuple(mkStr(filepath.Clean(s)), V{}), actDone
	})
	reg("path/filepath.EvalSymlinks", func(m *Mach, fn *Func, a []V) (V, action) { return tuple(a[0], V{}), actDone })

	// ---- math ----
	for n, f := range map[string]func(float64) float64{"Sqrt": math.Sqrt, "Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Exp": math.Exp, "Abs": math.Abs, "Round": math.Round, "floor": math.Floor, "ceil": math.Ceil, "trunc": math.Trunc, "sqrt": math.Sqrt, "archFloor": math.Floor, "archCeil": math.Ceil, "archTrunc": math.Trunc} {
		reg("math."+n, f1(f))
	}
	reg("math.Pow", func(m *Mach, fn *Func, a []V) (V, action) {
		return mkF64(math.Pow(f64(V{n: m.concInt(a[0], 64)}), f64(V{n: m.concInt(a[1], 64)}))), actDone
	})
	reg("math.Mod", func(m *Mach, fn *Func, a []V) (V, action) {
		return mkF64(math.Mod(f64(V{n: m.concInt(a[0], 64)}), f64(V{n: m.concInt(a[1], 64)}))), actDone
	})
	ident = func(m *Mach, fn *Func, a []V) (V, action) { return a[0], actDone }
	reg("math.Float64bits", ident)
	reg("math.Float64frombits", ident)
	reg("math.Float32bits", ident)
	reg("math.Float32frombits", ident)
	reg("math/bits.Mul64", func(m *Mach, fn *Func, a []V) (V, action) {
		if !concS(a...) {
			return V{}, actDecline
		}
		h, l := bits.Mul64(a[0].n, a[1].n)
		return tuple(V{n: h}, V{n: l}), actDone
	})

	// ---- runtime & friends ----
	reg("runtime.NumCPU", func(m *Mach, fn *Func, a []V) (V, action) { return mkInt(2), actDone })
	reg("runtime.GOMAXPROCS", func(m *Mach, fn *Func, a []V) (V, action) { return mkInt(2), actDone })
	reg("runtime.Gosched", nop)
	reg("runtime.GC", nop)
	reg("runtime.KeepAlive", nop)
	reg("runtime.SetFinalizer", nop)
	reg("runtime.NumGoroutine", func(m *Mach, fn *Func, a []V) (V, action) { return mkInt(1), actDone })
	reg("runtime.ReadMemStats", nop)
	reg("runtime/debug.Stack", func(m *Mach, fn *Func, a []V) (V, action) { return mkSlice(bytesToV([]byte("stack"))), actDone })
	reg("runtime/debug.FreeOSMemory", nop)
	reg("runtime.Caller", func(m *Mach, fn *Func, a []V) (V, action) { return zeroRes(fn), actDone })
	reg("runtime.Callers", func(m *Mach, fn *Func, a []V) (V, action) { return V{}, actDone })
	reg("(runtime.errorString).Error", func(m *Mach, fn *Func, a []V) (V, action) {
		return concatStr(&Str{s: "runtime error: "}, strOf(a[0])), actDone
	})
	reg("internal/godebug.New", func(m *Mach, fn *Func, a []V) (V, action) {
		c := new(V)
		*c = zero(TI(fn.fn.Signature.Results().At(0).Type()).Elem())
		return V{o: c}, actDone
	})
	reg("(*internal/godebug.Setting).Value", func(m *Mach, fn *Func, a []V) (V, action) { return V{}, actDone })
	reg("(*internal/godebug.Setting).IncNonDefault", nop)
	reg("internal/race.Acquire", nop)
	reg("internal/race.Release", nop)
	reg("internal/synctest.IsInBubble", nop)
	reg("maps.clone", func(m *Mach, fn *Func, a []V) (V, action) {
		i := a[0].o.(*Iface)
		if i.v.o == nil {
			return a[0], actDone
		}
		mp := i.v.o.(*Map)
		n := m.newMap(mp.t)
		for _, e := range mp.live() {
			m.mapSet(n, e.k, e.v)
		}
		return mkIface(i.t, V{o: n}), actDone
	})

	// ---- sync ----
	lock := func(m *Mach, fn *Func, a []V) (V, action) {
		c := leaf(m.recvCell(a[0]), 0)
		if c.n&1 != 0 {
			m.block("mutex", func() bool { return c.n&1 == 0 })
			return V{}, actBlock
		}
		m.set(c, V{n: 1})
		return V{}, actDone
	}
	unlock := func(m *Mach, fn *Func, a []V) (V, action) {
		c := leaf(m.recvCell(a[0]), 0)
		if c.n&1 == 0 {
			panic(pathEnd{"panic", "fatal error: sync: unlock of unlocked mutex @ " + m.where()})
		}
		m.set(c, V{})
		return V{}, actDone
	}
	reg("(*sync.Mutex).Lock", lock)
	reg("(*sync.Mutex).Unlock", unlock)
	reg("(*sync.Mutex).TryLock", func(m *Mach, fn *Func, a []V) (V, action) {
		c := leaf(m.recvCell(a[0]), 0)
		if c.n&1 != 0 {
			return V{}, actDone
		}
		m.set(c, V{n: 1})
		return mkBool(true), actDone
	})
	// RWMutex leaves: 0 = writer flag, 1 = reader count
	reg("(*sync.RWMutex).Lock", func(m *Mach, fn *Func, a []V) (V, action) {
		p := m.recvCell(a[0])
		w, r := leaf(p, 0), leaf(p, 1)
		if w.n != 0 || r.n != 0 {
			m.block("rwmutex", func() bool { return w.n == 0 && r.n == 0 })
			return V{}, actBlock
		}
		m.set(w, V{n: 1})
		return V{}, actDone
	})
	reg("(*sync.RWMutex).Unlock", func(m *Mach, fn *Func, a []V) (V, action) {
		w := leaf(m.recvCell(a[0]), 0)
		if w.n == 0 {
			panic(pathEnd{"panic", "fatal error: sync: Unlock of unlocked RWMutex @ " + m.where()})
		}
		m.set(w, V{})
		return V{}, actDone
	})
	reg("(*sync.RWMutex).RLock", func(m *Mach, fn *Func, a []V) (V, action) {
		p := m.recvCell(a[0])
		w, r := leaf(p, 0), leaf(p, 1)
		if w.n != 0 {
			m.block("rwmutex", func() bool { return w.n == 0 })
			return V{}, actBlock
		}
		m.set(r, V{n: r.n + 1})
		return V{}, actDone
	})
	reg("(*sync.RWMutex).RUnlock", func(m *Mach, fn *Func, a []V) (V, action) {
		r := leaf(m.recvCell(a[0]), 1)
		if r.n == 0 {
			panic(pathEnd{"panic", "fatal error: sync: RUnlock of unlocked RWMutex @ " + m.where()})
		}
		m.set(r, V{n: r.n - 1})
		return V{}, actDone
	})
	reg("(*sync.WaitGroup).Add", func(m *Mach, fn *Func, a []V) (V, action) {
		c := leaf(m.recvCell(a[0]), 0)
		n := int64(c.n) + int64(m.concInt(a[1], 64))
		if n < 0 {
			panic(goPanic{mkIface(TI(types.Typ[types.String]), mkStr("sync: negative WaitGroup counter"))})
		}
		m.set(c, V{n: uint64(n)})
		return V{}, actDone
	})
	reg("(*sync.WaitGroup).Done", func(m *Mach, fn *Func, a []V) (V, action) {
		c := leaf(m.recvCell(a[0]), 0)
		if c.n == 0 {
			panic(goPanic{mkIface(TI(types.Typ[types.String]), mkStr("sync: negative WaitGroup counter"))})
		}
		m.set(c, V{n: c.n - 1})
		return V{}, actDone
	})
	reg("(*sync.WaitGroup).Wait", func(m *Mach, fn *Func, a []V) (V, action) {
		c := leaf(m.recvCell(a[0]), 0)
		if c.n != 0 {
			m.block("waitgroup", func() bool { return c.n == 0 })
			return V{}, actBlock
		}
		return V{}, actDone
	})
	reg("(*sync.Pool).Get", func(m *Mach, fn *Func, a []V) (V, action) {
		p := m.recvCell(a[0]).o.(*Agg)
		nf := p.f[len(p.f)-1]
		if nf.o == nil {
			return V{}, actDone
		}
		return V{o: &tailCall{fn: nf}}, actTail
	})
	reg("(*sync.Pool).Put", nop)
	// sync.Map keeps an engine map in its first cell
	smap := func(m *Mach, v V, create bool) *Map {
		c := leaf(m.recvCell(v), 0)
		if mp, ok := c.o.(*Map); ok {
			return mp
		}
		if !create {
			return nil
		}
		any := TI(types.NewInterfaceType(nil, nil))
		mp := m.newMap(TI(types.NewMap(any.t, any.t)))
		m.set(c, V{o: mp})
		return mp
	}
	reg("(*sync.Map).Load", func(m *Mach, fn *Func, a []V) (V, action) {
		mp := smap(m, a[0], false)
		if mp == nil {
			return tuple(V{}, V{}), actDone
		}
		e := m.mapFind(mp, a[1])
		if e == nil {
			return tuple(V{}, V{}), actDone
		}
		return tuple(e.v, mkBool(true)), actDone
	})
	reg("(*sync.Map).Store", func(m *Mach, fn *Func, a []V) (V, action) {
		m.mapSet(smap(m, a[0], true), a[1], a[2])
		return V{}, actDone
	})
	reg("(*sync.Map).Swap", func(m *Mach, fn *Func, a []V) (V, action) {
		mp := smap(m, a[0], true)
		e := m.mapFind(mp, a[1])
		r := tuple(V{}, V{})
		if e != nil {
			r = tuple(e.v, mkBool(true))
		}
		m.mapSet(mp, a[1], a[2])
		return r, actDone
	})
	reg("(*sync.Map).LoadOrStore", func(m *Mach, fn *Func, a []V) (V, action) {
		mp := smap(m, a[0], true)
		if e := m.mapFind(mp, a[1]); e != nil {
			return tuple(e.v, mkBool(true)), actDone
		}
		m.mapSet(mp, a[1], a[2])
		return tuple(a[2], V{}), actDone
	})
	reg("(*sync.Map).LoadAndDelete", func(m *Mach, fn *Func, a []V) (V, action) {
		mp := smap(m, a[0], true)
		if e := m.mapFind(mp, a[1]); e != nil {
			m.mapKill(mp, e)
			return tuple(e.v, mkBool(true)), actDone
		}
		return tuple(V{}, V{}), actDone
	})
	reg("(*sync.Map).Delete", func(m *Mach, fn *Func, a []V) (V, action) {
		if mp := smap(m, a[0], false); mp != nil {
			m.mapDelete(mp, a[1])
		}
		return V{}, actDone
	})
	reg("(*sync.Map).Clear", func(m *Mach, fn *Func, a []V) (V, action) {
		if mp := smap(m, a[0], false); mp != nil {
			for _, e := range mp.live() {
				m.mapKill(mp, e)
			}
		}
		return V{}, actDone
	})
	entries := func(m *Mach, fn *Func, a []V) (V, action) {
		mp := smap(m, a[0], false)
		if mp == nil {
			return V{}, actDone
		}
		var f []V
		for _, e := range mp.live() {
			f = append(f, e.k, e.v)
		}
		return mkSlice(f), actDone
	}
	reg(repoModule+"/zz_vmodel.syncMapEntries", entries)

	// ---- atomics ----
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		w := uint8(64)
		if strings.HasSuffix(ty, "32") {
			w = 32
		}
		reg("sync/atomic.Load"+ty, func(m *Mach, fn *Func, a []V) (V, action) { return *m.recvCell(a[0]), actDone })
		reg("sync/atomic.Store"+ty, func(m *Mach, fn *Func, a []V) (V, action) {
			m.set(m.recvCell(a[0]), a[1])
			return V{}, actDone
		})
		reg("sync/atomic.Swap"+ty, func(m *Mach, fn *Func, a []V) (V, action) {
			c := m.recvCell(a[0])
			o := *c
			m.set(c, a[1])
			return o, actDone
		})
		reg("sync/atomic.Add"+ty, func(m *Mach, fn *Func, a []V) (V, action) {
			c := m.recvCell(a[0])
			r := m.fromTerm(m.ts.Bin(OAdd, m.term(*c, w), m.term(a[1], w)))
			m.set(c, r)
			return r, actDone
		})
		isPtr := ty == "Pointer"
		reg("sync/atomic.CompareAndSwap"+ty, func(m *Mach, fn *Func, a []V) (V, action) {
			c := m.recvCell(a[0])
			var eq bool
			if isPtr {
				eq = c.o == a[1].o
			} else {
				eq = m.decide(m.ts.Eq(m.term(*c, w), m.term(a[1], w)))
			}
			if eq {
				m.set(c, a[2])
			}
			return mkBool(eq), actDone
		})
	}
	reg("(*sync/atomic.Value).Load", func(m *Mach, fn *Func, a []V) (V, action) { return *leaf(m.recvCell(a[0]), 0), actDone })
	reg("(*sync/atomic.Value).Store", func(m *Mach, fn *Func, a []V) (V, action) {
		m.set(leaf(m.recvCell(a[0]), 0), a[1])
		return V{}, actDone
	})
	reg("(*sync/atomic.Value).Swap", func(m *Mach, fn *Func, a []V) (V, action) {
		c := leaf(m.recvCell(a[0]), 0)
		o := *c
		m.set(c, a[1])
		return o, actDone
	})
	reg("(*sync/atomic.Value).CompareAndSwap", func(m *Mach, fn *Func, a []V) (V, action) {
		c := leaf(m.recvCell(a[0]), 0)
		e := m.eq(TI(types.NewInterfaceType(nil, nil)), *c, a[1])
		if m.decide(m.term(e, 0)) {
			m.set(c, a[2])
			return mkBool(true), actDone
		}
		return V{}, actDone
	})

	// ---- time ----
	const unixToInternal = 62135596800
	mkTime := func(m *Mach, ti *TypeInfo) V {
		t := zero(ti)
		a := t.o.(*Agg)
		a.f[0] = V{n: uint64(m.clock % 1e9)}
		a.f[1] = V{n: uint64(unixToInternal + 1700000000 + m.clock/1e9)}
		return t
	}
	reg("time.Now", func(m *Mach, fn *Func, a []V) (V, action) { return mkTime(m, fn.resT), actDone })
	reg("time.runtimeNano", func(m *Mach, fn *Func, a []V) (V, action) { return V{n: uint64(m.clock)}, actDone })
	reg("time.runtimeNow", func(m *Mach, fn *Func, a []V) (V, action) { return tuple(V{n: 1700000000}, V{}, V{n: uint64(m.clock)}), actDone })
	reg("time.now", func(m *Mach, fn *Func, a []V) (V, action) { return tuple(V{n: 1700000000}, V{}, V{n: uint64(m.clock)}), actDone })
	reg("time.Sleep", func(m *Mach, fn *Func, a []V) (V, action) {
		g := m.cur
		if g.tok != nil {
			g.tok = nil
			return V{}, actDone
		}
		tok := &selTok{}
		g.tok = tok
		m.addTimer(int64(m.concInt(a[0], 64)), func(m *Mach) { m.set(&tok.st, V{n: 1}) })
		m.block("sleep", func() bool { return tok.st.n != 0 })
		return V{}, actBlock
	})
	newTimer := func(m *Mach, tt *TypeInfo, d int64, period bool) V {
		c := new(V)
		*c = zero(tt)
		ag := c.o.(*Agg)
		ch := m.newChan(1)
		ag.f[0] = V{o: ch}
		timeT := tt.Fields()[0].Elem()
		t := m.addTimer(d, func(m *Mach) { m.trySend(ch, mkTime(m, timeT)) })
		ag.f[1] = V{n: 1, o: t}
		return V{o: c}
	}
	reg("time.NewTimer", func(m *Mach, fn *Func, a []V) (V, action) {
		return newTimer(m, fn.resT.Elem(), int64(m.concInt(a[0], 64)), false), actDone
	})
	reg("time.AfterFunc", func(m *Mach, fn *Func, a []V) (V, action) {
		c := new(V)
		*c = zero(fn.resT.Elem())
		f := a[1]
		t := m.addTimer(int64(m.concInt(a[0], 64)), func(m *Mach) { m.spawnClosure(f, nil) })
		c.o.(*Agg).f[1] = V{n: 1, o: t}
		return V{o: c}, actDone
	})
	reg("(*time.Timer).Stop", func(m *Mach, fn *Func, a []V) (V, action) {
		if t, ok := m.recvCell(a[0]).o.(*Agg).f[1].o.(*Timer); ok {
			return mkBool(m.delTimer(t)), actDone
		}
		return V{}, actDone
	})

	// ---- os ----
	reg("os.Getwd", func(m *Mach, fn *Func, a []V) (V, action) { return tuple(mkStr("/w"), V{}), actDone })
	reg("os.Getenv", func(m *Mach, fn *Func, a []V) (V, action) { return V{}, actDone })
	reg("os.LookupEnv", func(m *Mach, fn *Func, a []V) (V, action) { return tuple(V{}, V{}), actDone })
	reg("syscall.Getenv", func(m *Mach, fn *Func, a []V) (V, action) { return tuple(V{}, V{}), actDone })
	reg("os.runtime_args", func(m *Mach, fn *Func, a []V) (V, action) { return V{}, actDone })
	reg("os.Getpid", func(m *Mach, fn *Func, a []V) (V, action) { return mkInt(1), actDone })

	// ---- maphash: idealised (collision-free) hash ----
	reg("hash/maphash.MakeSeed", func(m *Mach, fn *Func, a []V) (V, action) {
		s := zero(fn.resT)
		s.o.(*Agg).f[0] = V{n: 1}
		return s, actDone
	})
	mhBuf := func(m *Mach, v V) *V { return leaf(m.recvCell(v), 2) }
	_ = mhBuf
	mhCell := func(m *Mach, v V) *V {
		a := m.recvCell(v).o.(*Agg)
		return &a.f[len(a.f)-1] // n int: holds the byte slice
	}
	mhGet := func(c *V) []V {
		if h, ok := c.o.(*Slice); ok {
			return h.f
		}
		return nil
	}
	mhAdd := func(m *Mach, v V, b []V) {
		c := mhCell(m, v)
		old := mhGet(c)
		nb := append(old[:len(old):len(old)], b...)
		m.set(c, V{o: &Slice{f: nb}})
	}
	reg("(*hash/maphash.Hash).SetSeed", func(m *Mach, fn *Func, a []V) (V, action) {
		m.set(mhCell(m, a[0]), V{})
		return V{}, actDone
	})
	reg("(*hash/maphash.Hash).Reset", func(m *Mach, fn *Func, a []V) (V, action) {
		m.set(mhCell(m, a[0]), V{})
		return V{}, actDone
	})
	reg("(*hash/maphash.Hash).WriteString", func(m *Mach, fn *Func, a []V) (V, action) {
		mhAdd(m, a[0], strOf(a[1]).bytes())
		return tuple(mkInt(strOf(a[1]).len()), V{}), actDone
	})
	reg("(*hash/maphash.Hash).Write", func(m *Mach, fn *Func, a []V) (V, action) {
		b := sliceV(a[1])
		mhAdd(m, a[0], append([]V(nil), b...))
		return tuple(mkInt(len(b)), V{}), actDone
	})
	reg("(*hash/maphash.Hash).WriteByte", func(m *Mach, fn *Func, a []V) (V, action) {
		mhAdd(m, a[0], []V{a[1]})
		return V{}, actDone
	})
	reg("(*hash/maphash.Hash).Sum64", func(m *Mach, fn *Func, a []V) (V, action) {
		return V{n: m.idealHash(mhGet(mhCell(m, a[0])))}, actDone
	})
	reg("(*hash/maphash.Hash).Seed", func(m *Mach, fn *Func, a []V) (V, action) { return zeroRes(fn), actDone })
	reg("hash/maphash.String", func(m *Mach, fn *Func, a []V) (V, action) {
		return V{n: m.idealHash(strOf(a[1]).bytes())}, actDone
	})
	reg("hash/maphash.Bytes", func(m *Mach, fn *Func, a []V) (V, action) {
		return V{n: m.idealHash(append([]V(nil), sliceV(a[1])...))}, actDone
	})
	reg("crypto/sha256.Sum256", func(m *Mach, fn *Func, a []V) (V, action) {
		f := sliceV(a[0])
		b := make([]byte, len(f))
		for i := range f {
			b[i] = byte(m.concInt(f[i], 8))
		}
		s := sha256.Sum256(b)
		return V{o: &Agg{f: bytesToV(s[:])}}, actDone
	})

	// ---- fmt fast path ----
	reg("fmt.Sprintf", func(m *Mach, fn *Func, a []V) (V, action) {
		f := strOf(a[0])
		if !f.conc() {
			return V{}, actDecline
		}
		as, ok := m.nativeArgs(sliceV(a[1]))
		if !ok {
			if v, ok := m.symSprintf(f.s, sliceV(a[1])); ok {
				return v, actDone
			}
			return V{}, actDecline
		}
		return mkStr(fmt.Sprintf(f.s, as...)), actDone
	})
	reg("fmt.Println", func(m *Mach, fn *Func, a []V) (V, action) { return tuple(V{}, V{}), actDone })
	reg("fmt.Printf", func(m *Mach, fn *Func, a []V) (V, action) { return tuple(V{}, V{}), actDone })
	reg("fmt.Print", func(m *Mach, fn *Func, a []V) (V, action) { return tuple(V{}, V{}), actDone })
}

func (m *Mach) validUTF8(b []V) bool {
	for i := 0; i < len(b); {
		r, n := m.decodeRuneB(b[i:])
		if n == 1 && r.o == nil && r.n == utf8.RuneError {
			return false
		}
		i += n
	}
	return true
}

// nativeArgs converts basic-kind interface arguments to Go values.
func (m *Mach) nativeArgs(f []V) ([]any, bool) {
	out := make([]any, len(f))
	for i, v := range f {
		if v.o == nil {
			out[i] = nil
			continue
		}
		it := v.o.(*Iface)
		b, ok := it.t.t.(*types.Basic)
		if !ok {
			return nil, false
		}
		switch it.t.kind {
		case kString:
			s := strOf(it.v)
			if !s.conc() {
				return nil, false
			}
			out[i] = s.s
		case kBool:
			if it.v.o != nil {
				return nil, false
			}
			out[i] = it.v.n != 0
		case kInt:
			if it.v.o != nil {
				return nil, false
			}
			x := it.v.n
			switch b.Kind() {
			case types.Int:
				out[i] = int(x)
			case types.Int64:
				out[i] = int64(x)
			case types.Int32:
				out[i] = int32(x)
			case types.Int16:
				out[i] = int16(x)
			case types.Int8:
				out[i] = int8(x)
			case types.Uint:
				out[i] = uint(x)
			case types.Uint64:
				out[i] = x
			case types.Uint32:
				out[i] = uint32(x)
			case types.Uint16:
				out[i] = uint16(x)
			case types.Uint8:
				out[i] = uint8(x)
			default:
				return nil, false
			}
		case kFloat:
			if it.v.o != nil {
				return nil, false
			}
			if b.Kind() == types.Float32 {
				out[i] = math.Float32frombits(uint32(it.v.n))
			} else {
				out[i] = f64(it.v)
			}
		default:
			return nil, false
		}
	}
	return out, true
}

// symSprintf handles formats made of plain %s/%v/%d verbs over strings and integers.
func (m *Mach) symSprintf(f string, args []V) (V, bool) {
	for _, v := range args {
		if v.o == nil {
			return V{}, false
		}
		it := v.o.(*Iface)
		if _, ok := it.t.t.(*types.Basic); !ok {
			return V{}, false
		}
		if it.t.kind != kString && it.t.kind != kInt {
			return V{}, false
		}
	}
	var out []V
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, V{n: uint64(f[i])})
			continue
		}
		i++
		if i >= len(f) {
			return V{}, false
		}
		if f[i] == '%' {
			out = append(out, V{n: '%'})
			continue
		}
		if ai >= len(args) {
			return V{}, false
		}
		it := args[ai].o.(*Iface)
		ai++
		switch f[i] {
		case 's':
			if it.t.kind != kString {
				return V{}, false
			}
			out = append(out, strOf(it.v).bytes()...)
		case 'v', 'd':
			if it.t.kind == kString {
				if f[i] == 'd' {
					return V{}, false
				}
				out = append(out, strOf(it.v).bytes()...)
			} else {
				out = append(out, strOf(m.fmtIntSym(it.v, it.t.w, it.t.sgn)).bytes()...)
			}
		default:
			return V{}, false
		}
	}
	if ai != len(args) {
		return V{}, false
	}
	return mkBytesStr(out), true
}

// fmtIntSym renders an integer in base 10: forks on sign and digit count, digits are terms.
func (m *Mach) fmtIntSym(v V, w uint8, sgn bool) V {
	if v.o == nil {
		if sgn {
			return mkStr(strconv.FormatInt(sx(v.n, w), 10))
		}
		return mkStr(strconv.FormatUint(v.n, 10))
	}
	ts := m.ts
	t := v.o.(*Term)
	if w < 64 {
		if sgn {
			t = ts.Un(OSExt, 64, t)
		} else {
			t = ts.Un(OZExt, 64, t)
		}
	}
	var out []V
	if sgn && m.decide(ts.Bin(OSlt, t, ts.Const(64, 0))) {
		out = append(out, V{n: '-'})
		t = ts.Un(ONeg, 64, t)
	}
	n := 1
	p := uint64(10)
	for n < 20 {
		if m.decide(ts.Bin(OUlt, t, ts.Const(64, p))) {
			break
		}
		n++
		if n < 20 {
			p *= 10
		}
	}
	ds := make([]V, n)
	q := t
	for i := n - 1; i >= 0; i-- {
		d := ts.Bin(OURem, q, ts.Const(64, 10))
		ds[i] = m.fromTerm(ts.Bin(OAdd, ts.Un(OTrunc, 8, d), ts.Const(8, '0')))
		q = ts.Bin(OUDiv, q, ts.Const(64, 10))
	}
	return mkBytesStr(append(out, ds...))
}

// idealHash models a hash function without collisions: equal contents get equal values,
// different contents get different values; the equality of contents is decided by the solver.
func (m *Mach) idealHash(b []V) uint64 {
	cb, conc := concBytes(b)
	if conc {
		if h, ok := m.hashIdx[string(cb)]; ok {
			return h
		}
	}
	for i := range m.hashTab {
		e := &m.hashTab[i]
		if len(e.b) != len(b) || conc && !e.sym {
			continue
		}
		if m.decide(m.bytesEqT(e.b, b)) {
			return e.h
		}
	}
	h := uint64(0xabcd000000000000) + uint64(len(m.hashTab))
	if conc {
		h = concHash(cb)
		k := string(cb)
		m.hashIdx[k] = h
		m.undo(func() { delete(m.hashIdx, k) })
	}
	m.hashTab = append(m.hashTab, hashEnt{b: b, h: h, sym: !conc})
	return h
}

func concHash(b []byte) uint64 {
	s := sha256.Sum256(b)
	var h uint64
	for i := 0; i < 8; i++ {
		h = h<<8 | uint64(s[i])
	}
	return h
}
