package ref

import (
	"github.com/forsyth/jsonpath/paths"

	"verifharness/sym"
)

// SameSteps tells whether the parsed path has exactly the given steps. Real numbers are left to Reals.
func SameSteps(p paths.Path, want []*Step) bool {
	if len(p) != len(want) {
		return false
	}
	ok := true
	for i, st := range p {
		w := want[i]
		if st == nil || st.Op != w.Op || len(st.Args) != len(w.Args) {
			return false
		}
		for j, a := range st.Args {
			ok = sym.And(ok, SameArg(a, w.Args[j]))
		}
	}
	return ok
}

// SameArg tells whether an argument is the one wanted.
func SameArg(a paths.Val, w *Arg) bool {
	if w == nil {
		return a == nil
	}
	if a == nil {
		return false
	}
	switch w.Kind {
	case AInt:
		v, ok := a.(paths.IntVal)
		return ok && sym.And(true, int64(v) == w.I)
	case AName:
		v, ok := a.(paths.NameVal)
		return ok && sym.StrEq(string(v), w.S)
	case AString:
		v, ok := a.(paths.StringVal)
		return ok && sym.StrEq(string(v), w.S)
	case ASlice:
		v, ok := a.(*paths.Slice)
		if !ok {
			return false
		}
		r := SameArg(v.Start, w.Slice[0])
		r = sym.And(r, SameArg(v.End, w.Slice[1]))
		return sym.And(r, SameArg(v.Stride, w.Slice[2]))
	case AExpr:
		v, ok := a.(paths.Expr)
		return ok && SameExpr(v, w.E)
	}
	return false
}

// SameExpr tells whether e is the tree wanted.
func SameExpr(e paths.Expr, w *Expr) bool {
	if e == nil || e.Opcode() != w.Op {
		return false
	}
	switch e := e.(type) {
	case *paths.Inner:
		if len(e.Kids) != len(w.Kids) {
			return false
		}
		ok := true
		for i, k := range e.Kids {
			ok = sym.And(ok, SameExpr(k, w.Kids[i]))
		}
		return ok
	case *paths.IntLeaf:
		return w.Op == paths.OpInt && sym.And(true, e.Val == w.I)
	case *paths.FloatLeaf:
		return w.Op == paths.OpReal && (w.Real == nil || sameReal(e.Val, w.Real))
	case *paths.StringLeaf:
		return w.Op == paths.OpString && sym.StrEq(e.Val, w.S)
	case *paths.BoolLeaf:
		return w.Op == paths.OpBool && e.Val == w.B
	case *paths.NullLeaf:
		return w.Op == paths.OpNull
	case *paths.NameLeaf:
		return (w.Op == paths.OpID || w.Op == paths.OpCurrent || w.Op == paths.OpRoot) && sym.StrEq(e.Name, w.S)
	case *paths.RegexpLeaf:
		return w.Op == paths.OpRE && e.Prog != nil && sym.StrEq(e.Pattern, w.S)
	}
	return false
}

var pow10 = []float64{1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22}

// Exact gives mantissa and power of ten of a spelling, if both convert exactly to doubles
// so that a single multiplication or division rounds correctly.
func (r *Real) Exact() (m int64, e int, ok bool) {
	if len(r.Int)+len(r.Frac) > 15 || len(r.Exp) > 2 {
		return 0, 0, false
	}
	for _, s := range []string{r.Int, r.Frac} {
		for i := 0; i < len(s); i++ {
			m = m*10 + int64(s[i]-'0')
		}
	}
	for i := 0; i < len(r.Exp); i++ {
		e = e*10 + int(r.Exp[i]-'0')
	}
	if r.ENeg {
		e = -e
	}
	e -= len(r.Frac)
	if e < -22 || e > 22 {
		return 0, 0, false
	}
	return m, e, true
}

func sameReal(v float64, r *Real) bool {
	m, e, ok := r.Exact()
	if !ok {
		return true // outside the range decided here
	}
	w := float64(m)
	if e >= 0 {
		w *= pow10[e]
	} else {
		w /= pow10[-e]
	}
	return sym.SameFloat(v, w)
}
