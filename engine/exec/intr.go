package exec

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"symgo/smt"
)

type intrinsic func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool)

// intrinsics replaces functions without Go body, or whose interpretation would not terminate or lose precision.
var intrinsics = map[string]intrinsic{}

// pureIntrinsics may be called inside merged regions.
var pureIntrinsics = map[string]bool{}

func reg(name string, f intrinsic) { intrinsics[name] = f }

func regPure(name string, f intrinsic) {
	intrinsics[name] = f
	pureIntrinsics[name] = true
}

func (ex *Exec) noSide() {
	if ex.noFork > 0 {
		panic(regionBail{})
	}
}

func f64v(v Value) float64 { return math.Float64frombits(v.N) }

func fV(f float64) Value { return Value{N: math.Float64bits(f)} }

func tuple(vs ...Value) Value { return Value{P: &Agg{E: vs}} }

func (ex *Exec) mustStr(v Value, what string) string {
	s, ok := concStr(v)
	if !ok {
		ex.unsupported("symbolic %s", what)
	}
	return s
}

// sliceVals gives the elements of a slice of one-slot elements.
func (ex *Exec) sliceVals(v Value) []Value {
	s := ex.sl(v)
	if s == nil {
		return nil
	}
	if s.Ident != nil {
		ex.unsupported("array of symbolic length passed to an intrinsic")
	}
	return s.O.slots[s.Off : s.Off+s.Len*s.Es]
}

func (ex *Exec) mkSlice(vs []Value) Value {
	o := ex.newObj(0)
	o.slots = vs
	return Value{P: &Slice{O: o, Len: len(vs), Cap: len(vs), Es: 1}}
}

func (ex *Exec) newError(msg Value) Value {
	et := ex.P.ByPath["errors"].Pkg.Scope().Lookup("errorString").Type()
	o := ex.newObj(1)
	o.slots[0] = msg
	return Value{P: &Iface{ex.rtype(types.NewPointer(et)), Value{P: o}}}
}

func init() {
	// ---- math
	f1 := func(name string, nat func(float64) float64, sym func(ex *Exec, t *smt.Term) *smt.Term) {
		regPure(name, func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
			if a[0].T == nil {
				return fV(nat(f64v(a[0]))), true
			}
			if sym == nil {
				ex.unsupported("symbolic %s", name)
			}
			return ex.termV(sym(ex, a[0].T)), true
		})
	}
	round := func(mode uint64) func(ex *Exec, t *smt.Term) *smt.Term {
		return func(ex *Exec, t *smt.Term) *smt.Term { return ex.M.F(smt.OFRound, t, nil, mode) }
	}
	f1("math.Floor", math.Floor, round(0))
	f1("math.Ceil", math.Ceil, round(1))
	f1("math.Trunc", math.Trunc, round(2))
	f1("math.Abs", math.Abs, func(ex *Exec, t *smt.Term) *smt.Term { return ex.M.F(smt.OFAbs, t, nil, 0) })
	f1("math.Sqrt", math.Sqrt, func(ex *Exec, t *smt.Term) *smt.Term { return ex.M.F(smt.OFSqrt, t, nil, 0) })
	f1("math.Round", math.Round, nil)
	f1("math.RoundToEven", math.RoundToEven, nil)
	f1("math.Exp", math.Exp, nil)
	f1("math.Log", math.Log, nil)
	f1("math.Log2", math.Log2, nil)
	f1("math.Log10", math.Log10, nil)
	regPure("math.Mod", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		if a[0].T == nil && a[1].T == nil {
			return fV(math.Mod(f64v(a[0]), f64v(a[1]))), true
		}
		return ex.termV(ex.M.F(smt.OFMod, ex.term(a[0], smt.SF64), ex.term(a[1], smt.SF64), 0)), true
	})
	reg("math.Modf", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		if a[0].T == nil {
			x, y := math.Modf(f64v(a[0]))
			return tuple(fV(x), fV(y)), true
		}
		ip := ex.M.F(smt.OFRound, a[0].T, nil, 2)
		return tuple(ex.termV(ip), ex.termV(ex.M.F(smt.OFSub, a[0].T, ip, 0))), true
	})
	f2 := func(name string, nat func(a, b float64) float64) {
		reg(name, func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
			if a[0].T == nil && a[1].T == nil {
				return fV(nat(f64v(a[0]), f64v(a[1]))), true
			}
			ex.unsupported("symbolic %s", name)
			return Value{}, true
		})
	}
	f2("math.Pow", math.Pow)
	f2("math.Remainder", math.Remainder)
	f2("math.Hypot", math.Hypot)
	minmax := func(name string, b string) {
		regPure(name, func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
			h := ex.builtin2(b)
			return h(ex, a), true
		})
	}
	minmax("math.Max", "max")
	minmax("math.Min", "min")
	regPure("math.IsNaN", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		return ex.termV(ex.M.F(smt.OFIsNaN, ex.term(a[0], smt.SF64), nil, 0)), true
	})
	regPure("math.IsInf", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		m := ex.M
		t := ex.term(a[0], smt.SF64)
		s := ex.concInt(a[1], 64, "IsInf sign")
		p, n := m.Eq(t, m.FConst(math.Inf(1))), m.Eq(t, m.FConst(math.Inf(-1)))
		switch {
		case s > 0:
			return ex.termV(p), true
		case s < 0:
			return ex.termV(n), true
		}
		return ex.termV(m.Or(p, n)), true
	})
	regPure("math.Float64bits", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		if a[0].T == nil {
			return Value{N: a[0].N}, true
		}
		if a[0].T.Op == smt.OFFromBits {
			return ex.termV(a[0].T.A), true
		}
		ex.noSide()
		b := ex.newVar(fmt.Sprintf("bits%d", len(ex.path.vars)), 64)
		ex.assume(ex.M.Eq(ex.M.F(smt.OFFromBits, b, nil, 0), a[0].T))
		return Value{T: b}, true
	})
	regPure("math.Float64frombits", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		if a[0].T == nil {
			return Value{N: a[0].N}, true
		}
		return ex.termV(ex.M.F(smt.OFFromBits, a[0].T, nil, 0)), true
	})
	regPure("math.Float32bits", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) { return a[0], true })
	regPure("math.Float32frombits", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) { return a[0], true })
	regPure("math.Signbit", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		if a[0].T == nil {
			return boolV(a[0].N>>63 != 0), true
		}
		m := ex.M
		t := a[0].T
		z := m.FConst(0)
		return ex.termV(m.Or(m.F(smt.OFLt, t, z, 0), m.Eq(t, m.FConst(math.Copysign(0, -1))))), true
	})
	regPure("math.Inf", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		return fV(math.Inf(int(ex.concInt(a[0], 64, "Inf")))), true
	})
	regPure("math.NaN", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) { return fV(math.NaN()), true })
	// ---- runtime, internal/abi
	ident := func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) { return a[0], true }
	regPure("internal/abi.NoEscape", ident)
	regPure("internal/abi.Escape", ident)
	nop := func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) { return Value{}, true }
	yield := func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		ex.noSide()
		ex.gosched(g)
		return Value{}, true
	}
	reg("runtime.Gosched", yield)
	reg("time.Sleep", yield)
	reg("runtime.KeepAlive", nop)
	reg("runtime.GC", nop)
	reg("runtime.SetFinalizer", nop)
	reg("runtime.GOMAXPROCS", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) { return Value{N: 8}, true })
	reg("runtime.NumCPU", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) { return Value{N: 8}, true })
	reg("runtime.NumGoroutine", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		return Value{N: uint64(ex.liveGors())}, true
	})
	reg("(runtime.errorString).Error", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		return ex.strConcat(Value{P: "runtime error: "}, a[0]), true
	})

	// ---- bytealg and strings
	idxByte := func(ex *Exec, n int, at func(int) Value, c Value) Value {
		m := ex.M
		for i := 0; i < n; i++ {
			if v := at(i); v.T == nil && c.T == nil {
				if byte(v.N) == byte(c.N) {
					return Value{N: uint64(i)}
				}
				continue
			}
			if ex.branch(m.Eq(ex.term(at(i), 8), ex.term(c, 8))) {
				return Value{N: uint64(i)}
			}
		}
		return Value{N: ^uint64(0)}
	}
	run := func(in func(c byte) bool) intrinsic {
		return func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
			i := int(ex.concInt(a[1], 64, "run of bytes"))
			switch s := a[0].P.(type) {
			case string:
				for i < len(s) && in(s[i]) {
					i++
				}
			case *SymStr:
				for i < len(s.B) && s.B[i].Op == smt.OConst && in(byte(s.B[i].K)) {
					i++
				}
			}
			return Value{N: uint64(i)}, true
		}
	}
	reg("verifharness/ref.Blanks", run(func(c byte) bool { return c == ' ' }))
	reg("verifharness/ref.Plain", run(func(c byte) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_'
	}))
	idxStr := func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		n := ex.strLen(a[0])
		return idxByte(ex, n, func(i int) Value { return ex.strByte(a[0], i) }, a[1]), true
	}
	reg("internal/bytealg.IndexByteString", idxStr)
	reg("internal/stringslite.IndexByte", idxStr)
	reg("strings.IndexByte", idxStr)
	idxB := func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		vs := ex.sliceVals(a[0])
		return idxByte(ex, len(vs), func(i int) Value { return vs[i] }, a[1]), true
	}
	reg("internal/bytealg.IndexByte", idxB)
	reg("bytes.IndexByte", idxB)
	reg("internal/bytealg.LastIndexByteString", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		for i := ex.strLen(a[0]) - 1; i >= 0; i-- {
			if ex.branch(ex.M.Eq(ex.term(ex.strByte(a[0], i), 8), ex.term(a[1], 8))) {
				return Value{N: uint64(i)}, true
			}
		}
		return Value{N: ^uint64(0)}, true
	})
	reg("internal/bytealg.CountString", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		m := ex.M
		r := m.Const(64, 0)
		for i := 0; i < ex.strLen(a[0]); i++ {
			r = m.Bin(smt.OAdd, r, m.Ite(m.Eq(ex.term(ex.strByte(a[0], i), 8), ex.term(a[1], 8)), m.Const(64, 1), m.Const(64, 0)))
		}
		return ex.termV(r), true
	})
	reg("internal/bytealg.MakeNoZero", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		n := int(ex.concInt(a[0], 64, "MakeNoZero"))
		return Value{P: &Slice{O: ex.newObj(n), Len: n, Cap: n, Es: 1}}, true
	})
	reg("internal/bytealg.Equal", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		return ex.termV(ex.strEq(ex.bytesToStr(ex.sl(a[0])), ex.bytesToStr(ex.sl(a[1])))), true
	})
	cmp := func(ex *Exec, x, y Value) Value {
		m := ex.M
		lt := ex.strLess(x, y, false)
		eq := ex.strEq(x, y)
		return ex.termV(m.Ite(lt, m.Const(64, ^uint64(0)), m.Ite(eq, m.Const(64, 0), m.Const(64, 1))))
	}
	cmpS := func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) { return cmp(ex, a[0], a[1]), true }
	reg("internal/bytealg.CompareString", cmpS)
	reg("strings.Compare", cmpS)
	reg("internal/bytealg.Compare", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		return cmp(ex, ex.bytesToStr(ex.sl(a[0])), ex.bytesToStr(ex.sl(a[1]))), true
	})
	index := func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		s, ok1 := concStr(a[0])
		t, ok2 := concStr(a[1])
		if ok1 && ok2 {
			return Value{N: uint64(int64(strings.Index(s, t)))}, true
		}
		n, k := ex.strLen(a[0]), ex.strLen(a[1])
		for i := 0; i+k <= n; i++ {
			if ex.branch(ex.strEq(ex.strSlice(a[0], i, i+k), a[1])) {
				return Value{N: uint64(i)}, true
			}
		}
		return Value{N: ^uint64(0)}, true
	}
	reg("strings.Index", index)
	reg("internal/stringslite.Index", index)
	regPure("strings.Contains", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		n, k := ex.strLen(a[0]), ex.strLen(a[1])
		r := ex.M.False
		for i := 0; i+k <= n; i++ {
			r = ex.M.Or(r, ex.strEq(ex.strSlice(a[0], i, i+k), a[1]))
		}
		return ex.termV(r), true
	})
	reg("strings.Count", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		s, ok1 := concStr(a[0])
		t, ok2 := concStr(a[1])
		if !ok1 || !ok2 {
			ex.unsupported("symbolic strings.Count")
		}
		return Value{N: uint64(strings.Count(s, t))}, true
	})
	reg("strings.EqualFold", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		s, ok1 := concStr(a[0])
		t, ok2 := concStr(a[1])
		if !ok1 || !ok2 {
			return Value{}, false
		}
		return boolV(strings.EqualFold(s, t)), true
	})
	conc1 := func(name string, f func(string) string) {
		reg(name, func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
			s, ok := concStr(a[0])
			if !ok {
				return Value{}, false
			}
			return strV(f(s)), true
		})
	}
	conc1("strings.TrimSpace", strings.TrimSpace)
	conc1("strings.ToLower", strings.ToLower)
	conc1("strings.ToUpper", strings.ToUpper)
	reg("strings.ReplaceAll", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		x, ok1 := concStr(a[0])
		y, ok2 := concStr(a[1])
		z, ok3 := concStr(a[2])
		if !ok1 || !ok2 || !ok3 {
			ex.unsupported("symbolic strings.ReplaceAll")
		}
		return strV(strings.ReplaceAll(x, y, z)), true
	})

	// ---- errors
	reg("errors.Is", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		ex.noSide()
		e := a[0]
		for n := 0; n < 32; n++ {
			if e.P == nil || a[1].P == nil {
				return boolV(e.P == a[1].P), true
			}
			if ex.branch(ex.ifaceEq(e, a[1])) {
				return boolV(true), true
			}
			nx, ok := ex.callMethod(e, "Unwrap")
			if !ok {
				return boolV(false), true
			}
			e = nx
			if e.P == nil {
				return boolV(false), true
			}
		}
		return boolV(false), true
	})
	reg("errors.Unwrap", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		ex.noSide()
		if a[0].P == nil {
			return Value{}, true
		}
		r, _ := ex.callMethod(a[0], "Unwrap")
		return r, true
	})

	// ---- sort
	reg("sort.Slice", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		ex.noSide()
		i := ex.force(a[0])
		s := ex.sl(i.V)
		if s == nil {
			return Value{}, true
		}
		less := a[1].P.(*Closure)
		// insertion sort: the order of calls is not specified
		for i := 1; i < s.Len; i++ {
			for j := i; j > 0; j-- {
				r := ex.callSync(less, []Value{{N: uint64(j)}, {N: uint64(j - 1)}})
				if !ex.branch(ex.term(r, smt.SBool)) {
					break
				}
				for k := 0; k < s.Es; k++ {
					x, y := s.Off+j*s.Es+k, s.Off+(j-1)*s.Es+k
					vx, vy := s.O.slots[x], s.O.slots[y]
					ex.setSlot(s.O, x, vy)
					ex.setSlot(s.O, y, vx)
				}
			}
		}
		return Value{}, true
	})
	intrinsics["sort.SliceStable"] = intrinsics["sort.Slice"]

	initFmt()
	initSync()
	initRegexp()
	initSym()
}

func (ex *Exec) builtin2(name string) func(ex *Exec, a []Value) Value {
	return ex.builtinNamed(name, types.Typ[types.Float64])
}

// callMethod calls a method without arguments by name.
func (ex *Exec) callMethod(v Value, name string, args ...Value) (Value, bool) {
	i := ex.force(v)
	if i == nil {
		return Value{}, false
	}
	ex.P.mu.Lock()
	ms := ex.P.Prog.MethodSets.MethodSet(i.T.T)
	sel := ms.Lookup(nil, name)
	if sel == nil {
		ex.P.mu.Unlock()
		return Value{}, false
	}
	sf := ex.P.Prog.MethodValue(sel)
	ex.P.mu.Unlock()
	if sf == nil {
		return Value{}, false
	}
	return ex.callSync(&Closure{Fn: ex.fn(sf)}, append([]Value{i.V}, args...)), true
}

func (ex *Exec) hasMethod(t types.Type, name string) bool {
	ex.P.mu.Lock()
	defer ex.P.mu.Unlock()
	return ex.P.Prog.MethodSets.MethodSet(t).Lookup(nil, name) != nil
}

func (ex *Exec) liveGors() int {
	n := 0
	for _, g := range ex.gs {
		if g.status != gDone {
			n++
		}
	}
	return n
}

func (ex *Exec) gosched(g *Gor) {
	if g.noSwitch == 0 {
		ex.yield = true
		ex.yielded = g
	}
}
