package exec

import (
	"math"

	"symgo/smt"
)

// guess looks for values that satisfy pc and extra by small changes to the current model: the
// condition is turned round where one side is a variable, and recent solutions are tried again.
// What it finds is checked by evaluation, so a hit is as good as the solver's answer.
func (ex *Exec) guess(pc []*smt.Term, extra *smt.Term) *smt.Model {
	if extra == nil {
		return nil
	}
	m := ex.M
	save := ex.path.model
	defer m.SetModel(save)
	m.SetModel(save)
	md := save.Clone()
	ok := func() bool {
		m.SetModel(md)
		if m.Eval(extra) == 0 {
			return false
		}
		for i := len(pc) - 1; i >= 0; i-- {
			if m.Eval(pc[i]) == 0 {
				return false
			}
		}
		return true
	}
	tries := 0
	try := func(v int32, x uint64) bool {
		tries++
		old, had := md.M[v]
		md.M[v] = x
		md.Stamp = 0
		if ok() {
			return true
		}
		if had {
			md.M[v] = old
		} else {
			delete(md.M, v)
		}
		md.Stamp = 0
		m.SetModel(save)
		return false
	}
	// invert sets the variable of t so that t becomes x
	var invert func(t *smt.Term, x uint64, depth int) bool
	invert = func(t *smt.Term, x uint64, depth int) bool {
		if depth > 6 || tries > 60 {
			return false
		}
		switch t.Op {
		case smt.OVar:
			return try(int32(t.K), x)
		case smt.OFFromBits:
			return invert(t.A, x, depth+1)
		case smt.OFFromSBV, smt.OFFromUBV:
			f := math.Float64frombits(x)
			if f != f || math.Abs(f) > 9e18 {
				return false
			}
			return invert(t.A, uint64(int64(math.Floor(f))), depth+1)
		case smt.OZext, smt.OSext:
			return invert(t.A, x&maskOf(t.A.S), depth+1)
		case smt.OExtract:
			if t.K&255 == 0 {
				return invert(t.A, x, depth+1)
			}
		case smt.OAdd:
			a, b := m.Eval(t.A), m.Eval(t.B)
			if t.A.Op != smt.OConst && invert(t.A, (x-b)&maskOf(t.S), depth+1) {
				return true
			}
			m.SetModel(save)
			return t.B.Op != smt.OConst && invert(t.B, (x-a)&maskOf(t.S), depth+1)
		case smt.OSub:
			a, b := m.Eval(t.A), m.Eval(t.B)
			if t.A.Op != smt.OConst && invert(t.A, (x+b)&maskOf(t.S), depth+1) {
				return true
			}
			m.SetModel(save)
			return t.B.Op != smt.OConst && invert(t.B, (a-x)&maskOf(t.S), depth+1)
		case smt.OMul:
			if t.B.Op == smt.OConst && t.B.K != 0 {
				return invert(t.A, x/t.B.K, depth+1)
			}
		case smt.ONeg:
			return invert(t.A, (-x)&maskOf(t.S), depth+1)
		case smt.OIte:
			return invert(t.B, x, depth+1) || invert(t.C, x, depth+1)
		case smt.OFNeg:
			return invert(t.A, math.Float64bits(-math.Float64frombits(x)), depth+1)
		case smt.OFAbs, smt.OFRound:
			return invert(t.A, x, depth+1)
		case smt.OFAdd, smt.OFSub, smt.OFMul, smt.OFDiv:
			fa, fb, fx := math.Float64frombits(m.Eval(t.A)), math.Float64frombits(m.Eval(t.B)), math.Float64frombits(x)
			var na, nb float64
			switch t.Op {
			case smt.OFAdd:
				na, nb = fx-fb, fx-fa
			case smt.OFSub:
				na, nb = fx+fb, fa-fx
			case smt.OFMul:
				na, nb = fx/fb, fx/fa
			default:
				na, nb = fx*fb, fa/fx
			}
			if na == na && t.A.Op != smt.OConst && invert(t.A, math.Float64bits(na), depth+1) {
				return true
			}
			m.SetModel(save)
			return nb == nb && t.B.Op != smt.OConst && invert(t.B, math.Float64bits(nb), depth+1)
		}
		return false
	}
	var lit func(c *smt.Term, want bool, depth int) bool
	lit = func(c *smt.Term, want bool, depth int) bool {
		if depth > 5 || tries > 60 {
			return false
		}
		switch c.Op {
		case smt.ONot:
			return lit(c.A, !want, depth+1)
		case smt.OAnd, smt.OOr:
			m.SetModel(save)
			if (m.Eval(c.A) != 0) != want && lit(c.A, want, depth+1) {
				return true
			}
			m.SetModel(save)
			return (m.Eval(c.B) != 0) != want && lit(c.B, want, depth+1)
		case smt.OVar:
			return try(int32(c.K), b2u(want))
		case smt.OIte:
			if c.S == smt.SBool {
				return lit(c.B, want, depth+1) || lit(c.C, want, depth+1) || lit(c.A, true, depth+1) || lit(c.A, false, depth+1)
			}
		case smt.OFIsNaN:
			return false
		case smt.OEq, smt.OUlt, smt.OUle, smt.OSlt, smt.OSle, smt.OFEq, smt.OFLt, smt.OFLe:
			if c.A.S == smt.SBool {
				m.SetModel(save)
				a, b := m.Eval(c.A) != 0, m.Eval(c.B) != 0
				return lit(c.A, b == want, depth+1) || lit(c.B, a == want, depth+1)
			}
			for _, side := range [2][2]*smt.Term{{c.B, c.A}, {c.A, c.B}} {
				m.SetModel(save)
				v := m.Eval(side[1])
				var cand []uint64
				if c.A.S == smt.SF64 {
					f := math.Float64frombits(v)
					cand = []uint64{v, math.Float64bits(math.Nextafter(f, math.Inf(1))), math.Float64bits(math.Nextafter(f, math.Inf(-1))), math.Float64bits(f + 1), math.Float64bits(f - 1), math.Float64bits(0), math.Float64bits(math.Ceil(f)), math.Float64bits(-f)}
				} else {
					k := maskOf(c.A.S)
					cand = []uint64{v, (v + 1) & k, (v - 1) & k, 0, k, k >> 1, k>>1 + 1}
				}
				for _, x := range cand {
					m.SetModel(save)
					if invert(side[0], x, 0) {
						return true
					}
				}
			}
		}
		return false
	}
	if lit(extra, true, 0) {
		return md
	}
	// recent solutions
	m.SetModel(save)
	var vars []int32
	m.CollectVars(extra, func(v int32) { vars = append(vars, v) })
	for _, r := range ex.recent {
		for _, v := range vars {
			if x, ok := r.M[v]; ok {
				md.M[v] = x
			}
		}
		md.Stamp = 0
		if ok() {
			return md
		}
		m.SetModel(save)
	}
	return nil
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (ex *Exec) remember(md *smt.Model) {
	if len(ex.recent) < 8 {
		ex.recent = append(ex.recent, md)
		return
	}
	ex.recent[ex.recentN%8] = md
	ex.recentN++
}
