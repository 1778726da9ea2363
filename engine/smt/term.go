// Package smt has hash-consed terms over booleans, bit-vectors and IEEE doubles,
// a simplifier, a native evaluator and a bridge to SMT solvers.
package smt

import (
	"fmt"
	"math"
	"math/bits"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	// Bool
	ONot
	OAnd
	OOr
	OIte // any sort
	OEq  // any sort (FP: bit identity apart from NaN payload, i.e. SMT '=')
	// BV
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OExtract // k = hi<<8|lo
	OUlt
	OUle
	OSlt
	OSle
	// FP (double only)
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFLt
	OFLe
	OFEq // IEEE ==
	OFIsNaN
	OFFromSBV
	OFFromUBV
	OFToSBV // with amd64 out-of-range semantics, 64 bits
	OFRound // k = mode: 0 floor 1 ceil 2 trunc
	OFFromBits
	OFMod // uninterpreted to the solver, math.Mod natively
	OFSqrt
)

// Sort: 0 Bool, 1..64 BV width, F64 = 100
const (
	SBool = 0
	SF64  = 100
)

type Term struct {
	Op      Op
	S       uint8 // sort
	ID      int32
	V1      int32 // single free variable index, -1 none, -2 several
	HasMod  bool  // contains OFMod
	HasFP   bool  // contains FP arithmetic
	K       uint64
	A, B, C *Term

	evEpoch uint32
	evVal   uint64
	truth   *[4]uint64 // truth set for Bool terms over one 8-bit variable
	mark    uint32
}

type Var struct {
	Name string
	T    *Term
	S    uint8
	Idx  int32
	// path-scoped
	Pure bool
	Dom  [4]uint64
	R    Rng
	// the double with these bits is finite
	Finite bool
}

type key struct {
	op      Op
	s       uint8
	a, b, c int32
	k       uint64
}

type Mgr struct {
	tab    map[key]*Term
	nextID int32
	Vars   []*Var
	byName map[string]*Var
	True   *Term
	False  *Term
	epoch  uint32
	markN  uint32
	model  *Model
	memo   rangeMemo
}

// Model maps variable index to value (absent = 0).
type Model struct {
	M     map[int32]uint64
	Stamp uint32
}

func NewModel() *Model { return &Model{M: map[int32]uint64{}} }

func (m *Model) Clone() *Model {
	n := &Model{M: make(map[int32]uint64, len(m.M)+1)}
	for k, v := range m.M {
		n.M[k] = v
	}
	return n
}

func NewMgr() *Mgr {
	m := &Mgr{tab: make(map[key]*Term, 1<<16), byName: map[string]*Var{}}
	m.True = m.Const(SBool, 1)
	m.False = m.Const(SBool, 0)
	return m
}

func (m *Mgr) NumTerms() int { return len(m.tab) }

func id(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.ID
}

func mask(s uint8) uint64 {
	if s >= 64 {
		return ^uint64(0)
	}
	if s == 0 {
		return 1
	}
	return 1<<s - 1
}

func (m *Mgr) mk(op Op, s uint8, a, b, c *Term, k uint64) *Term {
	ky := key{op, s, id(a), id(b), id(c), k}
	if t, ok := m.tab[ky]; ok {
		return t
	}
	t := &Term{Op: op, S: s, ID: m.nextID, A: a, B: b, C: c, K: k, V1: -1}
	m.nextID++
	for _, x := range [3]*Term{a, b, c} {
		if x == nil {
			continue
		}
		t.HasMod = t.HasMod || x.HasMod
		t.HasFP = t.HasFP || x.HasFP
		if x.V1 == -1 {
			continue
		}
		if t.V1 == -1 {
			t.V1 = x.V1
		} else if t.V1 != x.V1 {
			t.V1 = -2
		}
	}
	switch op {
	case OFAdd, OFSub, OFMul, OFDiv, OFRound, OFSqrt:
		t.HasFP = true
	case OFMod:
		t.HasFP, t.HasMod = true, true
	}
	m.tab[ky] = t
	return t
}

func (m *Mgr) Const(s uint8, v uint64) *Term {
	return m.mk(OConst, s, nil, nil, nil, v&mask(s))
}

func (m *Mgr) Bool(b bool) *Term {
	if b {
		return m.True
	}
	return m.False
}

func (m *Mgr) FConst(f float64) *Term {
	if f != f {
		f = math.NaN()
	}
	return m.Const(SF64, math.Float64bits(f))
}

// Var returns the variable named name of the given sort (Bool or BV).
func (m *Mgr) Var(name string, s uint8) *Term {
	if v, ok := m.byName[name]; ok {
		if v.S != s {
			panic("variable sort clash: " + name)
		}
		return v.T
	}
	v := &Var{Name: name, S: s, Idx: int32(len(m.Vars))}
	v.ResetVar()
	t := m.mk(OVar, s, nil, nil, nil, uint64(v.Idx))
	t.V1 = v.Idx
	v.T = t
	m.Vars = append(m.Vars, v)
	m.byName[name] = v
	return t
}

// Lookup returns the variable named name, or nil.
func (m *Mgr) Lookup(name string) *Term {
	if v, ok := m.byName[name]; ok {
		return v.T
	}
	return nil
}

func (t *Term) IsConst() bool { return t.Op == OConst }
func (t *Term) IsTrue() bool  { return t.Op == OConst && t.S == SBool && t.K == 1 }
func (t *Term) IsFalse() bool { return t.Op == OConst && t.S == SBool && t.K == 0 }

func sext(v uint64, s uint8) int64 {
	sh := 64 - s
	return int64(v<<sh) >> sh
}

func (m *Mgr) Not(a *Term) *Term {
	if a.IsConst() {
		return m.Bool(a.K == 0)
	}
	if a.Op == ONot {
		return a.A
	}
	return m.mk(ONot, SBool, a, nil, nil, 0)
}

func (m *Mgr) And(a, b *Term) *Term {
	switch {
	case a.IsFalse() || b.IsFalse():
		return m.False
	case a.IsTrue():
		return b
	case b.IsTrue():
		return a
	case a == b:
		return a
	case a.Op == ONot && a.A == b, b.Op == ONot && b.A == a:
		return m.False
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return m.mk(OAnd, SBool, a, b, nil, 0)
}

func (m *Mgr) Or(a, b *Term) *Term {
	switch {
	case a.IsTrue() || b.IsTrue():
		return m.True
	case a.IsFalse():
		return b
	case b.IsFalse():
		return a
	case a == b:
		return a
	case a.Op == ONot && a.A == b, b.Op == ONot && b.A == a:
		return m.True
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return m.mk(OOr, SBool, a, b, nil, 0)
}

func (m *Mgr) Ite(c, a, b *Term) *Term {
	if c.IsTrue() || a == b {
		return a
	}
	if c.IsFalse() {
		return b
	}
	if a.S == SBool {
		if a.IsTrue() {
			return m.Or(c, b)
		}
		if a.IsFalse() {
			return m.And(m.Not(c), b)
		}
		if b.IsTrue() {
			return m.Or(m.Not(c), a)
		}
		if b.IsFalse() {
			return m.And(c, a)
		}
	}
	if c.Op == ONot {
		return m.Ite(c.A, b, a)
	}
	return m.mk(OIte, a.S, c, a, b, 0)
}

func (m *Mgr) Eq(a, b *Term) *Term {
	if a == b {
		return m.True
	}
	if a.S != b.S {
		panic(fmt.Sprintf("Eq: sorts %d %d", a.S, b.S))
	}
	if a.IsConst() && b.IsConst() {
		return m.Bool(a.K == b.K) // FP constants canonicalise NaN
	}
	if a.S == SBool {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsTrue() {
			return a
		}
		if b.IsFalse() {
			return m.Not(a)
		}
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		switch a.Op {
		case OIte:
			// push equality with a constant into constant branches
			if a.B.IsConst() || a.C.IsConst() {
				return m.Ite(a.A, m.Eq(a.B, b), m.Eq(a.C, b))
			}
		case OZext:
			if b.K > mask(a.A.S) {
				return m.False
			}
			return m.Eq(a.A, m.Const(a.A.S, b.K))
		case OSext:
			if uint64(sext(b.K, a.A.S))&mask(a.S) != b.K {
				return m.False
			}
			return m.Eq(a.A, m.Const(a.A.S, b.K))
		case OAdd:
			if a.B.IsConst() {
				return m.Eq(a.A, m.Const(a.S, b.K-a.B.K))
			}
		case ONeg:
			return m.Eq(a.A, m.Const(a.S, -b.K))
		case OFFromSBV:
			// exact small integers convert injectively
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return m.mk(OEq, SBool, a, b, nil, 0)
}

func evalBV(op Op, s uint8, a, b uint64) (uint64, bool) {
	mk := mask(s)
	switch op {
	case OAdd:
		return (a + b) & mk, true
	case OSub:
		return (a - b) & mk, true
	case OMul:
		return (a * b) & mk, true
	case OUDiv:
		if b == 0 {
			return mk, true
		}
		return a / b, true
	case OURem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OSDiv:
		x, y := sext(a, s), sext(b, s)
		if y == 0 {
			if x >= 0 {
				return mk, true
			}
			return 1, true
		}
		if y == -1 {
			return uint64(-x) & mk, true
		}
		return uint64(x/y) & mk, true
	case OSRem:
		x, y := sext(a, s), sext(b, s)
		if y == 0 {
			return a, true
		}
		if y == -1 {
			return 0, true
		}
		return uint64(x%y) & mk, true
	case OBAnd:
		return a & b, true
	case OBOr:
		return a | b, true
	case OBXor:
		return a ^ b, true
	case OShl:
		if b >= uint64(s) {
			return 0, true
		}
		return (a << b) & mk, true
	case OLshr:
		if b >= uint64(s) {
			return 0, true
		}
		return a >> b, true
	case OAshr:
		x := sext(a, s)
		if b >= uint64(s) {
			b = uint64(s) - 1
		}
		return uint64(x>>b) & mk, true
	}
	return 0, false
}

// Bin builds a bit-vector binary operation.
func (m *Mgr) Bin(op Op, a, b *Term) *Term {
	if a.S != b.S {
		panic(fmt.Sprintf("Bin %d: sorts %d %d", op, a.S, b.S))
	}
	s := a.S
	if a.IsConst() && b.IsConst() {
		v, ok := evalBV(op, s, a.K, b.K)
		if ok {
			return m.Const(s, v)
		}
	}
	switch op {
	case OAdd:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.K == 0 {
				return a
			}
			if a.Op == OAdd && a.B.IsConst() {
				return m.Bin(OAdd, a.A, m.Const(s, a.B.K+b.K))
			}
			if a.Op == OIte && a.B.IsConst() && a.C.IsConst() {
				return m.Ite(a.A, m.Const(s, a.B.K+b.K), m.Const(s, a.C.K+b.K))
			}
		} else if a.ID > b.ID {
			a, b = b, a
		}
	case OSub:
		if b.IsConst() {
			return m.Bin(OAdd, a, m.Const(s, -b.K))
		}
		if a == b {
			return m.Const(s, 0)
		}
		if a.IsConst() && a.K == 0 {
			return m.BNeg(b)
		}
	case OMul:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.K == 0 {
				return b
			}
			if b.K == 1 {
				return a
			}
			if b.K == mask(s) {
				return m.BNeg(a)
			}
		} else if a.ID > b.ID {
			a, b = b, a
		}
	case OUDiv, OSDiv:
		if b.IsConst() && b.K == 1 {
			return a
		}
	case OBAnd:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.K == 0 {
				return b
			}
			if b.K == mask(s) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OBOr:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.K == 0 {
				return a
			}
			if b.K == mask(s) {
				return b
			}
		}
		if a == b {
			return a
		}
	case OBXor:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() && b.K == 0 {
			return a
		}
		if a == b {
			return m.Const(s, 0)
		}
	case OShl, OLshr, OAshr:
		if b.IsConst() && b.K == 0 {
			return a
		}
		if a.IsConst() && a.K == 0 {
			return a
		}
		if b.IsConst() && op != OAshr && b.K >= uint64(s) {
			return m.Const(s, 0)
		}
	}
	return m.mk(op, s, a, b, nil, 0)
}

func (m *Mgr) BNeg(a *Term) *Term {
	if a.IsConst() {
		return m.Const(a.S, -a.K)
	}
	if a.Op == ONeg {
		return a.A
	}
	return m.mk(ONeg, a.S, a, nil, nil, 0)
}

func (m *Mgr) BNot(a *Term) *Term {
	if a.IsConst() {
		return m.Const(a.S, ^a.K)
	}
	if a.Op == OBNot {
		return a.A
	}
	return m.mk(OBNot, a.S, a, nil, nil, 0)
}

// Ext resizes a to width s (sign- or zero-extending, or truncating).
func (m *Mgr) Ext(a *Term, s uint8, signed bool) *Term {
	if a.S == s {
		return a
	}
	if s < a.S {
		if a.IsConst() {
			return m.Const(s, a.K)
		}
		if (a.Op == OZext || a.Op == OSext) && a.A.S == s {
			return a.A
		}
		if (a.Op == OZext || a.Op == OSext) && a.A.S < s {
			return m.Ext(a.A, s, a.Op == OSext)
		}
		if a.Op == OIte && (a.B.IsConst() || a.C.IsConst()) {
			return m.Ite(a.A, m.Ext(a.B, s, signed), m.Ext(a.C, s, signed))
		}
		return m.mk(OExtract, s, a, nil, nil, uint64(s-1)<<8)
	}
	if a.IsConst() {
		if signed {
			return m.Const(s, uint64(sext(a.K, a.S)))
		}
		return m.Const(s, a.K)
	}
	if a.Op == OZext {
		return m.Ext(a.A, s, false)
	}
	if a.Op == OIte && a.B.IsConst() && a.C.IsConst() {
		return m.Ite(a.A, m.Ext(a.B, s, signed), m.Ext(a.C, s, signed))
	}
	if signed {
		return m.mk(OSext, s, a, nil, nil, 0)
	}
	return m.mk(OZext, s, a, nil, nil, 0)
}

// Cmp builds a comparison; op one of OUlt, OUle, OSlt, OSle.
func (m *Mgr) Cmp(op Op, a, b *Term) *Term {
	if a.S != b.S {
		panic(fmt.Sprintf("Cmp %d: sorts %d %d", op, a.S, b.S))
	}
	s := a.S
	if a == b {
		return m.Bool(op == OUle || op == OSle)
	}
	if a.IsConst() && b.IsConst() {
		switch op {
		case OUlt:
			return m.Bool(a.K < b.K)
		case OUle:
			return m.Bool(a.K <= b.K)
		case OSlt:
			return m.Bool(sext(a.K, s) < sext(b.K, s))
		case OSle:
			return m.Bool(sext(a.K, s) <= sext(b.K, s))
		}
	}
	if a.Op == OIte && b.IsConst() && (a.B.IsConst() || a.C.IsConst()) {
		return m.Ite(a.A, m.Cmp(op, a.B, b), m.Cmp(op, a.C, b))
	}
	if b.Op == OIte && a.IsConst() && (b.B.IsConst() || b.C.IsConst()) {
		return m.Ite(b.A, m.Cmp(op, a, b.B), m.Cmp(op, a, b.C))
	}
	// zero-extended small value against a constant
	if a.Op == OZext && b.IsConst() {
		mx := mask(a.A.S)
		switch op {
		case OUlt, OSlt:
			if op == OSlt && sext(b.K, s) < 0 {
				return m.False
			}
			if b.K > mx {
				return m.True
			}
			return m.Cmp(OUlt, a.A, m.Const(a.A.S, b.K))
		case OUle, OSle:
			if op == OSle && sext(b.K, s) < 0 {
				return m.False
			}
			if b.K >= mx {
				return m.True
			}
			return m.Cmp(OUle, a.A, m.Const(a.A.S, b.K))
		}
	}
	if b.Op == OZext && a.IsConst() {
		mx := mask(b.A.S)
		switch op {
		case OUlt, OSlt:
			if op == OSlt && sext(a.K, s) < 0 {
				return m.True
			}
			if a.K >= mx {
				return m.False
			}
			return m.Cmp(OUlt, m.Const(b.A.S, a.K), b.A)
		case OUle, OSle:
			if op == OSle && sext(a.K, s) < 0 {
				return m.True
			}
			if a.K > mx {
				return m.False
			}
			return m.Cmp(OUle, m.Const(b.A.S, a.K), b.A)
		}
	}
	if op == OUlt && b.IsConst() && b.K == 0 {
		return m.False
	}
	if op == OUle && a.IsConst() && a.K == 0 {
		return m.True
	}
	return m.mk(op, SBool, a, b, nil, 0)
}

func f64(v uint64) float64 { return math.Float64frombits(v) }

func canonBits(f float64) uint64 {
	if f != f {
		return math.Float64bits(math.NaN())
	}
	return math.Float64bits(f)
}

// FToInt is the amd64 double to int64 conversion.
func FToInt(f float64) int64 {
	if f >= -9223372036854775808.0 && f < 9223372036854775808.0 {
		return int64(f)
	}
	return math.MinInt64
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalF(op Op, k, a, b uint64, as uint8) uint64 {
	switch op {
	case OFAdd:
		return canonBits(f64(a) + f64(b))
	case OFSub:
		return canonBits(f64(a) - f64(b))
	case OFMul:
		return canonBits(f64(a) * f64(b))
	case OFDiv:
		return canonBits(f64(a) / f64(b))
	case OFNeg:
		return canonBits(-f64(a))
	case OFAbs:
		return canonBits(math.Abs(f64(a)))
	case OFLt:
		return b2u(f64(a) < f64(b))
	case OFLe:
		return b2u(f64(a) <= f64(b))
	case OFEq:
		return b2u(f64(a) == f64(b))
	case OFIsNaN:
		return b2u(f64(a) != f64(a))
	case OFFromSBV:
		return canonBits(float64(sext(a, as)))
	case OFFromUBV:
		return canonBits(float64(a))
	case OFToSBV:
		return uint64(FToInt(f64(a)))
	case OFRound:
		switch k {
		case 0:
			return canonBits(math.Floor(f64(a)))
		case 1:
			return canonBits(math.Ceil(f64(a)))
		default:
			return canonBits(math.Trunc(f64(a)))
		}
	case OFFromBits:
		return canonBits(f64(a))
	case OFMod:
		return canonBits(math.Mod(f64(a), f64(b)))
	case OFSqrt:
		return canonBits(math.Sqrt(f64(a)))
	}
	panic("evalF")
}

// F builds a floating-point operation.
func (m *Mgr) F(op Op, a, b *Term, k uint64) *Term {
	var s uint8 = SF64
	switch op {
	case OFLt, OFLe, OFEq, OFIsNaN:
		s = SBool
	case OFToSBV:
		s = 64
	}
	if a.IsConst() && (b == nil || b.IsConst()) {
		var bk uint64
		if b != nil {
			bk = b.K
		}
		return m.Const(s, evalF(op, k, a.K, bk, a.S))
	}
	switch op {
	case OFNeg:
		if a.Op == OFNeg {
			return a.A
		}
	case OFAbs:
		if a.Op == OFNeg || a.Op == OFAbs {
			return m.F(OFAbs, a.A, nil, 0)
		}
	case OFAdd, OFMul:
		if a.ID > b.ID {
			a, b = b, a // commutative (NaN payloads are not modelled)
		}
	case OFEq:
		if a.ID > b.ID {
			a, b = b, a
		}
		if a == b {
			return m.Not(m.F(OFIsNaN, a, nil, 0))
		}
		if t := m.fpIntCmp(op, a, b); t != nil {
			return t
		}
	case OFLt, OFLe:
		if a == b {
			if op == OFLt {
				return m.False
			}
			return m.Not(m.F(OFIsNaN, a, nil, 0))
		}
		if t := m.fpIntCmp(op, a, b); t != nil {
			return t
		}
	case OFIsNaN:
		switch a.Op {
		case OFFromSBV, OFFromUBV:
			return m.False
		case OFNeg, OFAbs, OFRound:
			return m.F(OFIsNaN, a.A, nil, 0)
		case OIte:
			return m.Ite(a.A, m.F(OFIsNaN, a.B, nil, 0), m.F(OFIsNaN, a.C, nil, 0))
		}
	case OFRound:
		if (a.Op == OFFromSBV || a.Op == OFFromUBV) && a.A.S <= 32 || a.Op == OFRound {
			return a
		}
	case OFToSBV:
		if a.Op == OFFromSBV && a.A.S <= 53 {
			return m.Ext(a.A, 64, true)
		}
	case OFFromSBV:
		// sign extension of a narrow value: convert the narrow one
		if a.Op == OSext {
			return m.F(OFFromSBV, a.A, nil, 0)
		}
		if a.Op == OZext && a.A.S < 64 {
			return m.F(OFFromUBV, a.A, nil, 0)
		}
	}
	return m.mk(op, s, a, b, nil, k)
}

// fpIntCmp turns comparisons of exactly converted narrow integers into bit-vector ones.
func (m *Mgr) fpIntCmp(op Op, a, b *Term) *Term {
	ai, aok := m.narrowInt(a)
	bi, bok := m.narrowInt(b)
	if !aok || !bok {
		return nil
	}
	switch op {
	case OFEq:
		return m.Eq(ai, bi)
	case OFLt:
		return m.Cmp(OSlt, ai, bi)
	default:
		return m.Cmp(OSle, ai, bi)
	}
}

// narrowInt gives a 64-bit term equal to t when t is an exactly converted integer.
func (m *Mgr) narrowInt(t *Term) (*Term, bool) {
	switch {
	case t.Op == OFFromSBV && t.A.S <= 53:
		return m.Ext(t.A, 64, true), true
	case t.Op == OFFromUBV && t.A.S <= 52:
		return m.Ext(t.A, 64, false), true
	case t.Op == OConst:
		f := f64(t.K)
		if f == math.Trunc(f) && math.Abs(f) < 1<<53 {
			return m.Const(64, uint64(int64(f))), true
		}
	}
	return nil, false
}

// ---- evaluation

func (m *Mgr) SetModel(md *Model) {
	if m.model == md && md != nil && md.Stamp == m.epoch {
		return
	}
	m.model = md
	m.epoch++
	md.Stamp = m.epoch
}

// Touch must be called after changing the current model.
func (m *Mgr) Touch() {
	m.epoch++
	m.model.Stamp = m.epoch
}

// Eval evaluates t under the current model.
func (m *Mgr) Eval(t *Term) uint64 {
	switch t.Op {
	case OConst:
		return t.K
	case OVar:
		return m.model.M[int32(t.K)] & mask(t.S)
	}
	if t.V1 == -1 {
		// ground but unsimplified
	}
	if t.evEpoch == m.epoch {
		return t.evVal
	}
	var r uint64
	switch t.Op {
	case ONot:
		r = 1 - m.Eval(t.A)
	case OAnd:
		r = m.Eval(t.A) & m.Eval(t.B)
	case OOr:
		r = m.Eval(t.A) | m.Eval(t.B)
	case OIte:
		if m.Eval(t.A) != 0 {
			r = m.Eval(t.B)
		} else {
			r = m.Eval(t.C)
		}
	case OEq:
		r = b2u(m.Eval(t.A) == m.Eval(t.B))
	case ONeg:
		r = (-m.Eval(t.A)) & mask(t.S)
	case OBNot:
		r = (^m.Eval(t.A)) & mask(t.S)
	case OZext:
		r = m.Eval(t.A)
	case OSext:
		r = uint64(sext(m.Eval(t.A), t.A.S)) & mask(t.S)
	case OExtract:
		r = (m.Eval(t.A) >> (t.K & 255)) & mask(t.S)
	case OUlt:
		r = b2u(m.Eval(t.A) < m.Eval(t.B))
	case OUle:
		r = b2u(m.Eval(t.A) <= m.Eval(t.B))
	case OSlt:
		r = b2u(sext(m.Eval(t.A), t.A.S) < sext(m.Eval(t.B), t.A.S))
	case OSle:
		r = b2u(sext(m.Eval(t.A), t.A.S) <= sext(m.Eval(t.B), t.A.S))
	default:
		if t.Op >= OFAdd {
			var b uint64
			if t.B != nil {
				b = m.Eval(t.B)
			}
			r = evalF(t.Op, t.K, m.Eval(t.A), b, t.A.S)
		} else {
			v, ok := evalBV(t.Op, t.S, m.Eval(t.A), m.Eval(t.B))
			if !ok {
				panic("eval op")
			}
			r = v
		}
	}
	t.evEpoch, t.evVal = m.epoch, r
	return r
}

// Truth returns the set of values of t's only variable (8-bit) for which t is true.
func (m *Mgr) Truth(t *Term) *[4]uint64 {
	if t.truth != nil {
		return t.truth
	}
	save := m.model
	md := NewModel()
	m.model = md
	var set [4]uint64
	for i := uint64(0); i < 256; i++ {
		md.M[t.V1] = i
		m.epoch++
		if m.Eval(t) != 0 {
			set[i>>6] |= 1 << (i & 63)
		}
	}
	m.epoch++
	m.model = save
	if save != nil {
		save.Stamp = m.epoch
	}
	t.truth = &set
	return t.truth
}

// CollectVars calls f for each variable in t.
func (m *Mgr) CollectVars(t *Term, f func(v int32)) {
	m.markN++
	m.collect(t, f)
}

func (m *Mgr) collect(t *Term, f func(v int32)) {
	if t.mark == m.markN || t.V1 == -1 {
		return
	}
	t.mark = m.markN
	if t.Op == OVar {
		f(int32(t.K))
		return
	}
	if t.A != nil {
		m.collect(t.A, f)
	}
	if t.B != nil {
		m.collect(t.B, f)
	}
	if t.C != nil {
		m.collect(t.C, f)
	}
}

// CollectMods calls f for each OFMod application in t.
func (m *Mgr) CollectMods(t *Term, f func(t *Term)) {
	m.markN++
	m.collectMods(t, f)
}

func (m *Mgr) collectMods(t *Term, f func(t *Term)) {
	if t.mark == m.markN || !t.HasMod {
		return
	}
	t.mark = m.markN
	if t.A != nil {
		m.collectMods(t.A, f)
	}
	if t.B != nil {
		m.collectMods(t.B, f)
	}
	if t.C != nil {
		m.collectMods(t.C, f)
	}
	if t.Op == OFMod {
		f(t)
	}
}

func PopCount(s *[4]uint64) int {
	return bits.OnesCount64(s[0]) + bits.OnesCount64(s[1]) + bits.OnesCount64(s[2]) + bits.OnesCount64(s[3])
}

// FirstBit returns a member of s, preferring printable ASCII.
func FirstBit(s *[4]uint64) int {
	for _, r := range [][2]int{{'a', 'z'}, {'0', '9'}, {33, 126}, {0, 255}} {
		for i := r[0]; i <= r[1]; i++ {
			if s[i>>6]>>(i&63)&1 != 0 {
				return i
			}
		}
	}
	return -1
}
