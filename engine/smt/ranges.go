package smt

import (
	"math"
	"math/bits"
)

// Rng bounds a bit-vector term as unsigned and as signed number.
type Rng struct {
	ulo, uhi uint64
	slo, shi int64
}

// FRng bounds a double.
type FRng struct {
	lo, hi float64
	nan    bool
}

type rangeMemo struct {
	bv map[*Term]Rng
	fp map[*Term]FRng
}

// DomChanged must be called when the domain of a variable changes.
func (m *Mgr) DomChanged() {
	if len(m.memo.bv) > 0 {
		m.memo.bv = map[*Term]Rng{}
	}
	if len(m.memo.fp) > 0 {
		m.memo.fp = map[*Term]FRng{}
	}
}

// ResetVar gives a variable its whole domain.
func (v *Var) ResetVar() {
	v.Dom = [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
	v.R = fullRng(v.S)
	v.Finite = false
}

func fullRng(s uint8) Rng {
	if s == SBool || s > 64 {
		s = 1
	}
	return Rng{0, mask(s), -1 << (s - 1), 1<<(s-1) - 1}
}

// fix makes the two views agree where one decides the other.
func (r Rng) fix(s uint8) Rng {
	half := uint64(1) << (s - 1)
	if r.uhi < half { // not negative
		r.slo = max(r.slo, int64(r.ulo))
		r.shi = min(r.shi, int64(r.uhi))
	} else if r.ulo >= half { // negative
		r.slo = max(r.slo, sext(r.ulo, s))
		r.shi = min(r.shi, sext(r.uhi, s))
	}
	if r.slo >= 0 {
		r.ulo = max(r.ulo, uint64(r.slo))
		r.uhi = min(r.uhi, uint64(r.shi))
	} else if r.shi < 0 {
		r.ulo = max(r.ulo, uint64(r.slo)&mask(s))
		r.uhi = min(r.uhi, uint64(r.shi)&mask(s))
	}
	return r
}

func byteRng(d *[4]uint64) (lo, hi uint64, ok bool) {
	for i := 0; i < 4; i++ {
		if d[i] != 0 {
			lo = uint64(i*64 + bits.TrailingZeros64(d[i]))
			for j := 3; j >= i; j-- {
				if d[j] != 0 {
					return lo, uint64(j*64 + 63 - bits.LeadingZeros64(d[j])), true
				}
			}
		}
	}
	return 0, 0, false
}

func (m *Mgr) rng(t *Term) Rng {
	switch t.Op {
	case OConst:
		x := sext(t.K, t.S)
		return Rng{t.K, t.K, x, x}
	case OVar:
		v := m.Vars[t.K]
		r := v.R
		if t.S == 8 {
			if lo, hi, ok := byteRng(&v.Dom); ok {
				r.ulo, r.uhi = max(r.ulo, lo), min(r.uhi, hi)
			}
			r = r.fix(8)
		}
		return r
	}
	if r, ok := m.memo.bv[t]; ok {
		return r
	}
	s := t.S
	r := fullRng(s)
	full := r
	smin, smax := full.slo, full.shi
	setS := func(lo, hi int64, ok bool) {
		if ok && lo >= smin && hi <= smax {
			r.slo, r.shi = lo, hi
		}
	}
	switch t.Op {
	case OIte:
		a, b := m.rng(t.B), m.rng(t.C)
		r = Rng{min(a.ulo, b.ulo), max(a.uhi, b.uhi), min(a.slo, b.slo), max(a.shi, b.shi)}
	case OZext:
		a := m.rng(t.A)
		r.ulo, r.uhi = a.ulo, a.uhi
	case OSext:
		a := m.rng(t.A)
		r.slo, r.shi = a.slo, a.shi
	case OExtract:
		if t.K&255 == 0 {
			a := m.rng(t.A)
			if a.uhi <= mask(s) {
				r.ulo, r.uhi = a.ulo, a.uhi
			}
			if a.slo >= smin && a.shi <= smax {
				r.slo, r.shi = a.slo, a.shi
			}
		}
	case OAdd:
		a, b := m.rng(t.A), m.rng(t.B)
		lo, c1 := bits.Add64(a.ulo, b.ulo, 0)
		hi, c2 := bits.Add64(a.uhi, b.uhi, 0)
		if s < 64 {
			c1, c2 = lo>>s, hi>>s
			lo, hi = lo&mask(s), hi&mask(s)
		}
		if c1 == c2 {
			r.ulo, r.uhi = lo, hi
		}
		l, o1 := addOv(a.slo, b.slo)
		h, o2 := addOv(a.shi, b.shi)
		setS(l, h, o1 && o2)
	case OSub:
		a, b := m.rng(t.A), m.rng(t.B)
		if a.ulo >= b.uhi {
			r.ulo, r.uhi = a.ulo-b.uhi, a.uhi-b.ulo
		}
		l, o1 := subOv(a.slo, b.shi)
		h, o2 := subOv(a.shi, b.slo)
		setS(l, h, o1 && o2)
	case ONeg:
		a := m.rng(t.A)
		if a.slo > smin {
			setS(-a.shi, -a.slo, true)
		}
	case OMul:
		a, b := m.rng(t.A), m.rng(t.B)
		h, l := bits.Mul64(a.uhi, b.uhi)
		if h == 0 && l <= mask(s) {
			r.ulo, r.uhi = a.ulo*b.ulo, l
		}
		lo, hi := int64(math.MaxInt64), int64(math.MinInt64)
		ok := true
		for _, x := range [2]int64{a.slo, a.shi} {
			for _, y := range [2]int64{b.slo, b.shi} {
				p, o := mulOv(x, y)
				ok = ok && o
				lo, hi = min(lo, p), max(hi, p)
			}
		}
		setS(lo, hi, ok)
	case OUDiv:
		a, b := m.rng(t.A), m.rng(t.B)
		if b.ulo > 0 {
			r.ulo, r.uhi = a.ulo/b.uhi, a.uhi/b.ulo
		}
	case OURem:
		a, b := m.rng(t.A), m.rng(t.B)
		if b.ulo > 0 {
			r.ulo, r.uhi = 0, min(a.uhi, b.uhi-1)
		}
	case OSDiv:
		a, b := m.rng(t.A), m.rng(t.B)
		if b.slo > 0 {
			v := [4]int64{a.slo / b.slo, a.slo / b.shi, a.shi / b.slo, a.shi / b.shi}
			setS(min(v[0], v[1], v[2], v[3], 0), max(v[0], v[1], v[2], v[3], 0), true)
			if a.slo > 0 {
				setS(a.slo/b.shi, a.shi/b.slo, true)
			}
		}
	case OSRem:
		a, b := m.rng(t.A), m.rng(t.B)
		if b.slo > 0 {
			lo, hi := int64(0), int64(0)
			if a.slo < 0 {
				lo = max(a.slo, -(b.shi - 1))
			}
			if a.shi > 0 {
				hi = min(a.shi, b.shi-1)
			}
			setS(lo, hi, true)
		}
	case OBAnd:
		a, b := m.rng(t.A), m.rng(t.B)
		r.uhi = min(a.uhi, b.uhi)
	case OBOr, OBXor:
		a, b := m.rng(t.A), m.rng(t.B)
		n := max(bits.Len64(a.uhi), bits.Len64(b.uhi))
		if n < 64 {
			r.uhi = min(r.uhi, 1<<n-1)
		}
		if t.Op == OBOr {
			r.ulo = max(a.ulo, b.ulo)
		}
	case OLshr:
		a, b := m.rng(t.A), m.rng(t.B)
		if b.ulo == b.uhi && b.ulo < uint64(s) {
			r.ulo, r.uhi = a.ulo>>b.ulo, a.uhi>>b.ulo
		} else {
			r.uhi = a.uhi
		}
	case OAshr:
		a, b := m.rng(t.A), m.rng(t.B)
		if b.ulo == b.uhi && b.ulo < uint64(s) {
			setS(a.slo>>b.ulo, a.shi>>b.ulo, true)
		}
	case OShl:
		a, b := m.rng(t.A), m.rng(t.B)
		if b.ulo == b.uhi && b.ulo < uint64(s) && a.uhi <= mask(s)>>b.ulo {
			r.ulo, r.uhi = a.ulo<<b.ulo, a.uhi<<b.ulo
		}
	case OFToSBV:
		a := m.frng(t.A)
		if !a.nan && a.lo >= -9.2e18 && a.hi <= 9.2e18 {
			setS(int64(a.lo), int64(a.hi), true)
		}
	}
	r = r.fix(s)
	if m.memo.bv == nil {
		m.memo.bv = map[*Term]Rng{}
	}
	m.memo.bv[t] = r
	return r
}

func addOv(a, b int64) (int64, bool) {
	c := a + b
	return c, (c > a) == (b > 0)
}

func subOv(a, b int64) (int64, bool) {
	c := a - b
	return c, (c < a) == (b > 0)
}

func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	c := a * b
	if c/b != a || a == -1 && b == math.MinInt64 || b == -1 && a == math.MinInt64 {
		return 0, false
	}
	return c, true
}

var fullF = FRng{math.Inf(-1), math.Inf(1), true}

func (m *Mgr) frng(t *Term) FRng {
	if t.Op == OConst {
		f := f64(t.K)
		if f != f {
			return fullF
		}
		return FRng{f, f, false}
	}
	if r, ok := m.memo.fp[t]; ok {
		return r
	}
	r := fullF
	inf := func(x FRng) bool { return math.IsInf(x.lo, 0) || math.IsInf(x.hi, 0) }
	four := func(f func(x, y float64) float64, a, b FRng) {
		r = FRng{math.Inf(1), math.Inf(-1), false}
		for _, x := range [2]float64{a.lo, a.hi} {
			for _, y := range [2]float64{b.lo, b.hi} {
				v := f(x, y)
				if v != v {
					r = fullF
					return
				}
				r.lo, r.hi = math.Min(r.lo, v), math.Max(r.hi, v)
			}
		}
	}
	switch t.Op {
	case OIte:
		a, b := m.frng(t.B), m.frng(t.C)
		r = FRng{math.Min(a.lo, b.lo), math.Max(a.hi, b.hi), a.nan || b.nan}
	case OFFromBits:
		if t.A.Op == OVar && m.Vars[t.A.K].Finite {
			r = FRng{-math.MaxFloat64, math.MaxFloat64, false}
		}
	case OFFromSBV:
		a := m.rng(t.A)
		r = FRng{float64(a.slo), float64(a.shi), false}
	case OFFromUBV:
		a := m.rng(t.A)
		r = FRng{float64(a.ulo), float64(a.uhi), false}
	case OFNeg:
		a := m.frng(t.A)
		r = FRng{-a.hi, -a.lo, a.nan}
	case OFAbs:
		a := m.frng(t.A)
		r = FRng{0, math.Max(math.Abs(a.lo), math.Abs(a.hi)), a.nan}
		if a.lo > 0 {
			r.lo = a.lo
		} else if a.hi < 0 {
			r.lo = -a.hi
		}
	case OFRound:
		a := m.frng(t.A)
		r = FRng{f64(evalF(OFRound, t.K, math.Float64bits(a.lo), 0, SF64)), f64(evalF(OFRound, t.K, math.Float64bits(a.hi), 0, SF64)), a.nan}
	case OFAdd:
		a, b := m.frng(t.A), m.frng(t.B)
		if !inf(a) && !inf(b) && !a.nan && !b.nan {
			r = FRng{a.lo + b.lo, a.hi + b.hi, false}
		}
	case OFSub:
		a, b := m.frng(t.A), m.frng(t.B)
		if !inf(a) && !inf(b) && !a.nan && !b.nan {
			r = FRng{a.lo - b.hi, a.hi - b.lo, false}
		}
	case OFMul:
		a, b := m.frng(t.A), m.frng(t.B)
		if !inf(a) && !inf(b) && !a.nan && !b.nan {
			four(func(x, y float64) float64 { return x * y }, a, b)
		}
	case OFDiv:
		a, b := m.frng(t.A), m.frng(t.B)
		if !inf(a) && !inf(b) && !a.nan && !b.nan && (b.lo > 0 || b.hi < 0) {
			four(func(x, y float64) float64 { return x / y }, a, b)
		}
	}
	if m.memo.fp == nil {
		m.memo.fp = map[*Term]FRng{}
	}
	m.memo.fp[t] = r
	return r
}

// Decide gives the truth value of c when ranges of its terms settle it.
func (m *Mgr) Decide(c *Term) (val, known bool) {
	switch c.Op {
	case OConst:
		return c.K != 0, true
	case ONot:
		v, ok := m.Decide(c.A)
		return !v, ok
	case OAnd:
		if v, ok := m.Decide(c.A); ok {
			if !v {
				return false, true
			}
			return m.Decide(c.B)
		}
		if v, ok := m.Decide(c.B); ok && !v {
			return false, true
		}
	case OOr:
		if v, ok := m.Decide(c.A); ok {
			if v {
				return true, true
			}
			return m.Decide(c.B)
		}
		if v, ok := m.Decide(c.B); ok && v {
			return true, true
		}
	case OIte:
		if v, ok := m.Decide(c.A); ok {
			if v {
				return m.Decide(c.B)
			}
			return m.Decide(c.C)
		}
	case OEq:
		switch c.A.S {
		case SBool:
		case SF64:
			a, b := m.frng(c.A), m.frng(c.B)
			if !(a.nan && b.nan) && (a.hi < b.lo || b.hi < a.lo) {
				return false, true
			}
		default:
			a, b := m.rng(c.A), m.rng(c.B)
			if a.uhi < b.ulo || b.uhi < a.ulo || a.shi < b.slo || b.shi < a.slo {
				return false, true
			}
			if a.ulo == a.uhi && b.ulo == b.uhi && a.ulo == b.ulo {
				return true, true
			}
		}
	case OUlt:
		a, b := m.rng(c.A), m.rng(c.B)
		if a.uhi < b.ulo {
			return true, true
		}
		if a.ulo >= b.uhi {
			return false, true
		}
	case OUle:
		a, b := m.rng(c.A), m.rng(c.B)
		if a.uhi <= b.ulo {
			return true, true
		}
		if a.ulo > b.uhi {
			return false, true
		}
	case OSlt:
		a, b := m.rng(c.A), m.rng(c.B)
		if a.shi < b.slo {
			return true, true
		}
		if a.slo >= b.shi {
			return false, true
		}
	case OSle:
		a, b := m.rng(c.A), m.rng(c.B)
		if a.shi <= b.slo {
			return true, true
		}
		if a.slo > b.shi {
			return false, true
		}
	case OFLt:
		a, b := m.frng(c.A), m.frng(c.B)
		if a.lo >= b.hi {
			return false, true
		}
		if a.hi < b.lo && !a.nan && !b.nan {
			return true, true
		}
	case OFLe:
		a, b := m.frng(c.A), m.frng(c.B)
		if a.lo > b.hi {
			return false, true
		}
		if a.hi <= b.lo && !a.nan && !b.nan {
			return true, true
		}
	case OFEq:
		a, b := m.frng(c.A), m.frng(c.B)
		if a.lo > b.hi || b.lo > a.hi {
			return false, true
		}
	case OFIsNaN:
		if !m.frng(c.A).nan {
			return false, true
		}
	}
	return false, false
}

// Learn narrows the range of a variable by a condition known to hold; it tells whether something changed.
func (m *Mgr) Learn(c *Term) bool {
	neg := false
	if c.Op == ONot {
		neg = true
		c = c.A
	}
	a, b := c.A, c.B
	op := c.Op
	switch op {
	case OUlt, OUle, OSlt, OSle:
		if neg {
			// not (a < b) is b <= a
			a, b = b, a
			switch op {
			case OUlt:
				op = OUle
			case OUle:
				op = OUlt
			case OSlt:
				op = OSle
			case OSle:
				op = OSlt
			}
		}
	case OEq:
		if neg || a.S == SBool || a.S == SF64 {
			return false
		}
	default:
		return false
	}
	ch := false
	upd := func(t *Term, f func(r *Rng)) {
		// the value of a sign extension is that of its operand
		for t.Op == OSext && (op == OSlt || op == OSle) {
			t = t.A
		}
		if t.Op != OVar {
			return
		}
		v := m.Vars[t.K]
		r := v.R
		f(&r)
		r = r.fix(t.S)
		if r != v.R {
			v.R = r
			ch = true
		}
	}
	ra, rb := m.rng(a), m.rng(b)
	switch op {
	case OUlt:
		upd(a, func(r *Rng) {
			if rb.uhi > 0 {
				r.uhi = min(r.uhi, rb.uhi-1)
			}
		})
		upd(b, func(r *Rng) {
			if ra.ulo < ^uint64(0) {
				r.ulo = max(r.ulo, ra.ulo+1)
			}
		})
	case OUle:
		upd(a, func(r *Rng) { r.uhi = min(r.uhi, rb.uhi) })
		upd(b, func(r *Rng) { r.ulo = max(r.ulo, ra.ulo) })
	case OSlt:
		upd(a, func(r *Rng) {
			if rb.shi > math.MinInt64 {
				r.shi = min(r.shi, rb.shi-1)
			}
		})
		upd(b, func(r *Rng) {
			if ra.slo < math.MaxInt64 {
				r.slo = max(r.slo, ra.slo+1)
			}
		})
	case OSle:
		upd(a, func(r *Rng) { r.shi = min(r.shi, rb.shi) })
		upd(b, func(r *Rng) { r.slo = max(r.slo, ra.slo) })
	case OEq:
		upd(a, func(r *Rng) {
			r.ulo, r.uhi, r.slo, r.shi = max(r.ulo, rb.ulo), min(r.uhi, rb.uhi), max(r.slo, rb.slo), min(r.shi, rb.shi)
		})
		upd(b, func(r *Rng) {
			r.ulo, r.uhi, r.slo, r.shi = max(r.ulo, ra.ulo), min(r.uhi, ra.uhi), max(r.slo, ra.slo), min(r.shi, ra.shi)
		})
	}
	return ch
}
