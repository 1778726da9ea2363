package exec

import (
	"fmt"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"

	"symgo/smt"
)

type targetPanic struct{ v Value } // v is an interface value

func (ex *Exec) rtPanic(msg string) {
	if ex.noFork > 0 {
		panic(regionBail{})
	}
	panic(targetPanic{Value{P: &Iface{ex.rtype(ex.tRuntimeErr), Value{P: msg}}}})
}

func (ex *Exec) goPanicStr(msg string) { ex.rtPanic(msg) }

func (ex *Exec) nilDeref() {
	ex.rtPanic("invalid memory address or nil pointer dereference")
}

func (ex *Exec) load(p Value, t types.Type) Value {
	switch o := p.P.(type) {
	case nil:
		ex.nilDeref()
	case *symPtr:
		if o.id != nil {
			return Value{P: &Iface{ex.rFloat, ex.termV(ex.M.F(smt.OFFromSBV, o.idx, nil, 0))}}
		}
		return ex.loadTable(o)
	case *Obj:
		if o.uninit {
			ex.unsupported("variable of uninitialised package: %s", o.name)
		}
		if ex.path.race {
			ex.raceRead(o, int(p.N))
		}
		if !isAgg(t) {
			return o.slots[p.N]
		}
		n := ex.layoutOf(t).size
		a := &Agg{E: make([]Value, n)}
		copy(a.E, o.slots[p.N:int(p.N)+n])
		return Value{P: a}
	}
	panic(fmt.Sprintf("load through %T", p.P))
}

func (ex *Exec) store(p, v Value, agg bool) {
	if p.P == nil {
		ex.nilDeref()
	}
	if ex.noFork > 0 {
		panic(regionBail{})
	}
	if sp, ok := p.P.(*symPtr); ok {
		if sp.id != nil {
			ex.docWrite("array element")
			ex.unsupported("store to array of symbolic length")
		}
		i := int(ex.concretize(sp.idx, "store index"))
		p = Value{P: sp.o, N: uint64(sp.off + i)}
	}
	o := p.P.(*Obj)
	if agg {
		a := v.P.(*Agg)
		for i, e := range a.E {
			ex.setSlot(o, int(p.N)+i, e)
		}
		return
	}
	ex.setSlot(o, int(p.N), v)
}

func (ex *Exec) setSlot(o *Obj, i int, v Value) {
	if o.base && !ex.inBase {
		ex.undo = append(ex.undo, undoRec{o, i, o.slots[i]})
	}
	if o.doc {
		ex.docWrite("array element")
	}
	if ex.path.race {
		ex.raceWrite(o, i)
	}
	o.slots[i] = v
}

// docWrite is called on a write into a document under test.
func (ex *Exec) docWrite(what string) {
	if ex.path.frozen {
		ex.violation("document modified", "write to "+what+" of the document", nil)
	}
}

// ---- unary and binary operators

func (ex *Exec) unop(op token.Token, t types.Type) func(ex *Exec, x Value) Value {
	s, _, ok := sortOf(t)
	switch op {
	case token.NOT:
		return func(ex *Exec, x Value) Value {
			if x.T == nil {
				return Value{N: x.N ^ 1}
			}
			return ex.termV(ex.M.Not(x.T))
		}
	case token.SUB:
		if s == smt.SF64 {
			return func(ex *Exec, x Value) Value {
				if x.T == nil {
					return Value{N: math.Float64bits(-math.Float64frombits(x.N))}
				}
				return ex.termV(ex.M.F(smt.OFNeg, x.T, nil, 0))
			}
		}
		if ok && s <= 64 {
			return func(ex *Exec, x Value) Value {
				if x.T == nil {
					return Value{N: -x.N & maskOf(s)}
				}
				return ex.termV(ex.M.BNeg(x.T))
			}
		}
	case token.XOR:
		return func(ex *Exec, x Value) Value {
			if x.T == nil {
				return Value{N: ^x.N & maskOf(s)}
			}
			return ex.termV(ex.M.BNot(x.T))
		}
	}
	return func(ex *Exec, x Value) Value { ex.unsupported("unary %s on %s", op, t); return Value{} }
}

var bvOps = map[token.Token][2]smt.Op{ // unsigned, signed
	token.ADD: {smt.OAdd, smt.OAdd}, token.SUB: {smt.OSub, smt.OSub}, token.MUL: {smt.OMul, smt.OMul},
	token.QUO: {smt.OUDiv, smt.OSDiv}, token.REM: {smt.OURem, smt.OSRem},
	token.AND: {smt.OBAnd, smt.OBAnd}, token.OR: {smt.OBOr, smt.OBOr}, token.XOR: {smt.OBXor, smt.OBXor},
}

type binFn func(ex *Exec, x, y Value) Value

func (ex *Exec) binop(op token.Token, xt, yt types.Type) binFn {
	bad := func(ex *Exec, x, y Value) Value { ex.unsupported("binary %s on %s", op, xt); return Value{} }
	// equality on anything
	if op == token.EQL || op == token.NEQ {
		neg := op == token.NEQ
		s, _, ok := sortOf(xt)
		if ok && s != smt.SF64 && s != 101 {
			return func(ex *Exec, x, y Value) Value {
				if x.T == nil && y.T == nil {
					return boolV((x.N == y.N) != neg)
				}
				t := ex.M.Eq(ex.term(x, s), ex.term(y, s))
				if neg {
					t = ex.M.Not(t)
				}
				return ex.termV(t)
			}
		}
		t := xt
		_, xi := xt.Underlying().(*types.Interface)
		_, yi := yt.Underlying().(*types.Interface)
		if xi != yi {
			rx, ry := ex.rtype(xt), ex.rtype(yt)
			return func(ex *Exec, x, y Value) Value {
				if !xi {
					x = Value{P: &Iface{rx, x}}
				}
				if !yi {
					y = Value{P: &Iface{ry, y}}
				}
				r := ex.ifaceEq(x, y)
				if neg {
					r = ex.M.Not(r)
				}
				return ex.termV(r)
			}
		}
		return func(ex *Exec, x, y Value) Value {
			r := ex.eqTerm(t, x, y)
			if neg {
				r = ex.M.Not(r)
			}
			return ex.termV(r)
		}
	}
	if isString(xt) {
		switch op {
		case token.ADD:
			return func(ex *Exec, x, y Value) Value { return ex.strConcat(x, y) }
		case token.LSS:
			return func(ex *Exec, x, y Value) Value { return ex.termV(ex.strLess(x, y, false)) }
		case token.LEQ:
			return func(ex *Exec, x, y Value) Value { return ex.termV(ex.strLess(x, y, true)) }
		case token.GTR:
			return func(ex *Exec, x, y Value) Value { return ex.termV(ex.strLess(y, x, false)) }
		case token.GEQ:
			return func(ex *Exec, x, y Value) Value { return ex.termV(ex.strLess(y, x, true)) }
		}
		return bad
	}
	s, signed, ok := sortOf(xt)
	if !ok {
		return bad
	}
	if s == smt.SBool {
		switch op {
		case token.AND, token.LAND:
			return func(ex *Exec, x, y Value) Value { return ex.termV(ex.M.And(ex.term(x, 0), ex.term(y, 0))) }
		case token.OR, token.LOR:
			return func(ex *Exec, x, y Value) Value { return ex.termV(ex.M.Or(ex.term(x, 0), ex.term(y, 0))) }
		}
		return bad
	}
	if s == 101 {
		return func(ex *Exec, x, y Value) Value {
			if x.T != nil || y.T != nil {
				ex.unsupported("symbolic float32")
			}
			a, b := math.Float32frombits(uint32(x.N)), math.Float32frombits(uint32(y.N))
			var r float32
			switch op {
			case token.ADD:
				r = a + b
			case token.SUB:
				r = a - b
			case token.MUL:
				r = a * b
			case token.QUO:
				r = a / b
			case token.LSS:
				return boolV(a < b)
			case token.LEQ:
				return boolV(a <= b)
			case token.GTR:
				return boolV(a > b)
			case token.GEQ:
				return boolV(a >= b)
			}
			return Value{N: uint64(math.Float32bits(r))}
		}
	}
	if s == smt.SF64 {
		fop := func(o smt.Op, swap bool) binFn {
			return func(ex *Exec, x, y Value) Value {
				if swap {
					x, y = y, x
				}
				return ex.termV(ex.M.F(o, ex.term(x, smt.SF64), ex.term(y, smt.SF64), 0))
			}
		}
		conc := func(h func(a, b float64) uint64, sym binFn) binFn {
			return func(ex *Exec, x, y Value) Value {
				if x.T == nil && y.T == nil {
					return Value{N: h(math.Float64frombits(x.N), math.Float64frombits(y.N))}
				}
				return sym(ex, x, y)
			}
		}
		fb := math.Float64bits
		bu := func(b bool) uint64 {
			if b {
				return 1
			}
			return 0
		}
		switch op {
		case token.ADD:
			return conc(func(a, b float64) uint64 { return fb(a + b) }, fop(smt.OFAdd, false))
		case token.SUB:
			return conc(func(a, b float64) uint64 { return fb(a - b) }, fop(smt.OFSub, false))
		case token.MUL:
			return conc(func(a, b float64) uint64 { return fb(a * b) }, fop(smt.OFMul, false))
		case token.QUO:
			return conc(func(a, b float64) uint64 { return fb(a / b) }, fop(smt.OFDiv, false))
		case token.LSS:
			return conc(func(a, b float64) uint64 { return bu(a < b) }, fop(smt.OFLt, false))
		case token.LEQ:
			return conc(func(a, b float64) uint64 { return bu(a <= b) }, fop(smt.OFLe, false))
		case token.GTR:
			return conc(func(a, b float64) uint64 { return bu(a > b) }, fop(smt.OFLt, true))
		case token.GEQ:
			return conc(func(a, b float64) uint64 { return bu(a >= b) }, fop(smt.OFLe, true))
		}
		return bad
	}
	mk := maskOf(s)
	switch op {
	case token.ADD:
		return func(ex *Exec, x, y Value) Value {
			if x.T == nil && y.T == nil {
				return Value{N: (x.N + y.N) & mk}
			}
			return ex.termV(ex.M.Bin(smt.OAdd, ex.term(x, s), ex.term(y, s)))
		}
	case token.SUB:
		return func(ex *Exec, x, y Value) Value {
			if x.T == nil && y.T == nil {
				return Value{N: (x.N - y.N) & mk}
			}
			return ex.termV(ex.M.Bin(smt.OSub, ex.term(x, s), ex.term(y, s)))
		}
	case token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
		return func(ex *Exec, x, y Value) Value {
			if x.T == nil && y.T == nil {
				switch op {
				case token.MUL:
					return Value{N: (x.N * y.N) & mk}
				case token.AND:
					return Value{N: x.N & y.N}
				case token.OR:
					return Value{N: x.N | y.N}
				case token.XOR:
					return Value{N: x.N ^ y.N}
				default:
					return Value{N: x.N &^ y.N}
				}
			}
			a, b := ex.term(x, s), ex.term(y, s)
			if op == token.AND_NOT {
				return ex.termV(ex.M.Bin(smt.OBAnd, a, ex.M.BNot(b)))
			}
			return ex.termV(ex.M.Bin(bvOps[op][0], a, b))
		}
	case token.QUO, token.REM:
		o := bvOps[op][0]
		if signed {
			o = bvOps[op][1]
		}
		return func(ex *Exec, x, y Value) Value {
			if y.T == nil {
				if y.N == 0 {
					ex.rtPanic("integer divide by zero")
				}
			} else if ex.branch(ex.M.Eq(y.T, ex.M.Const(s, 0))) {
				ex.rtPanic("integer divide by zero")
			}
			return ex.termV(ex.M.Bin(o, ex.term(x, s), ex.term(y, s)))
		}
	case token.SHL, token.SHR:
		ys, ysigned, _ := sortOf(yt)
		return func(ex *Exec, x, y Value) Value {
			if ysigned {
				if y.T == nil {
					if sx(y.N, ys) < 0 {
						ex.rtPanic("negative shift amount")
					}
				} else if ex.branch(ex.M.Cmp(smt.OSlt, y.T, ex.M.Const(ys, 0))) {
					ex.rtPanic("negative shift amount")
				}
			}
			yt := ex.term(y, ys)
			xt := ex.term(x, s)
			// clamp the shift amount to the operand width
			var amt *smt.Term
			big := ex.M.Cmp(smt.OUle, ex.M.Const(ys, uint64(s)&maskOf(ys)), yt)
			if ys < 8 || uint64(s) > maskOf(ys) {
				big = ex.M.False
			}
			if ys >= s {
				amt = ex.M.Ext(yt, s, false)
			} else {
				amt = ex.M.Ext(yt, s, false)
			}
			var o smt.Op
			var over *smt.Term
			if op == token.SHL {
				o, over = smt.OShl, ex.M.Const(s, 0)
			} else if signed {
				o = smt.OAshr
				over = ex.M.Bin(smt.OAshr, xt, ex.M.Const(s, uint64(s)-1))
			} else {
				o, over = smt.OLshr, ex.M.Const(s, 0)
			}
			return ex.termV(ex.M.Ite(big, over, ex.M.Bin(o, xt, amt)))
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		lt, le := smt.OUlt, smt.OUle
		if signed {
			lt, le = smt.OSlt, smt.OSle
		}
		return func(ex *Exec, x, y Value) Value {
			if x.T == nil && y.T == nil {
				var c int
				if signed {
					a, b := sx(x.N, s), sx(y.N, s)
					if a < b {
						c = -1
					} else if a > b {
						c = 1
					}
				} else if x.N < y.N {
					c = -1
				} else if x.N > y.N {
					c = 1
				}
				switch op {
				case token.LSS:
					return boolV(c < 0)
				case token.LEQ:
					return boolV(c <= 0)
				case token.GTR:
					return boolV(c > 0)
				default:
					return boolV(c >= 0)
				}
			}
			a, b := ex.term(x, s), ex.term(y, s)
			switch op {
			case token.LSS:
				return ex.termV(ex.M.Cmp(lt, a, b))
			case token.LEQ:
				return ex.termV(ex.M.Cmp(le, a, b))
			case token.GTR:
				return ex.termV(ex.M.Cmp(lt, b, a))
			default:
				return ex.termV(ex.M.Cmp(le, b, a))
			}
		}
	}
	return bad
}

// eqTerm compares two values of static type t.
func (ex *Exec) eqTerm(t types.Type, x, y Value) *smt.Term {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return ex.ifaceEq(x, y)
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return ex.strEq(x, y)
		}
		s, _, ok := sortOf(t)
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return ex.M.Bool(x.P == y.P && x.N == y.N)
		}
		if !ok {
			ex.unsupported("== on %s", t)
		}
		if s == smt.SF64 {
			return ex.M.F(smt.OFEq, ex.term(x, s), ex.term(y, s), 0)
		}
		if s == 101 {
			return ex.M.Bool(math.Float32frombits(uint32(x.N)) == math.Float32frombits(uint32(y.N)))
		}
		return ex.M.Eq(ex.term(x, s), ex.term(y, s))
	case *types.Pointer:
		return ex.M.Bool(x.P == y.P && (x.N == y.N || x.P == nil))
	case *types.Chan, *types.Map:
		return ex.M.Bool(x.P == y.P)
	case *types.Signature, *types.Slice:
		// only comparable to nil
		return ex.M.Bool(x.P == nil && y.P == nil)
	case *types.Struct:
		a, b := x.P.(*Agg), y.P.(*Agg)
		l := ex.layoutOf(t)
		r := ex.M.True
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			ft := u.Field(i).Type()
			n := ex.layoutOf(ft).size
			r = ex.M.And(r, ex.eqTerm(ft, subVal(a, l.fields[i], n, isAgg(ft)), subVal(b, l.fields[i], n, isAgg(ft))))
		}
		return r
	case *types.Array:
		a, b := x.P.(*Agg), y.P.(*Agg)
		n := ex.layoutOf(u.Elem()).size
		r := ex.M.True
		for i := 0; i < int(u.Len()); i++ {
			r = ex.M.And(r, ex.eqTerm(u.Elem(), subVal(a, i*n, n, isAgg(u.Elem())), subVal(b, i*n, n, isAgg(u.Elem()))))
		}
		return r
	}
	ex.unsupported("== on %s", t)
	return nil
}

func subVal(a *Agg, off, n int, agg bool) Value {
	if agg {
		return Value{P: &Agg{E: a.E[off : off+n]}}
	}
	return a.E[off]
}

func (ex *Exec) ifaceEq(x, y Value) *smt.Term {
	if x.P == nil || y.P == nil {
		// comparison with nil interface
		if x.P == nil && y.P == nil {
			return ex.M.True
		}
		o := x
		if o.P == nil {
			o = y
		}
		if l, ok := o.P.(*Lazy); ok {
			return ex.M.Bool(ex.lazyIs(l, KNull))
		}
		return ex.M.False
	}
	if x.P == y.P {
		if _, ok := x.P.(*Lazy); ok {
			// the same node: equal unless uncomparable; force it
			_ = ok
		}
	}
	a, b := ex.force(x), ex.force(y)
	if a == nil || b == nil {
		return ex.M.Bool(a == b)
	}
	if a.T != b.T {
		return ex.M.False
	}
	if !types.Comparable(a.T.T) {
		panic(targetPanic{Value{P: &Iface{ex.rtype(ex.tRuntimeErr), Value{P: "comparing uncomparable type " + a.T.name}}}})
	}
	return ex.eqTerm(a.T.T, a.V, b.V)
}

// ---- conversions

func (ex *Exec) convert(from, to types.Type) func(ex *Exec, x Value) Value {
	fu, tu := from.Underlying(), to.Underlying()
	fs, fsigned, fok := sortOf(from)
	ts, tsigned, tok := sortOf(to)
	if fok && tok && fs != 101 && ts != 101 {
		switch {
		case fs == smt.SF64 && ts == smt.SF64, fs == ts && fs == 0:
			return func(ex *Exec, x Value) Value { return x }
		case fs == smt.SF64:
			return func(ex *Exec, x Value) Value {
				if x.T == nil {
					f := math.Float64frombits(x.N)
					if !tsigned && ts == 64 {
						return Value{N: uint64(f)}
					}
					return Value{N: uint64(smt.FToInt(f)) & maskOf(ts)}
				}
				if !tsigned && ts == 64 {
					// exact when in the signed range
					in := ex.M.And(ex.M.F(smt.OFLe, ex.M.FConst(-9223372036854775808), x.T, 0), ex.M.F(smt.OFLt, x.T, ex.M.FConst(9223372036854775808), 0))
					if !ex.branch(in) {
						ex.unsupported("conversion of large double to unsigned")
					}
				}
				return ex.termV(ex.M.Ext(ex.M.F(smt.OFToSBV, x.T, nil, 0), ts, true))
			}
		case ts == smt.SF64:
			return func(ex *Exec, x Value) Value {
				if x.T == nil {
					if fsigned {
						return Value{N: math.Float64bits(float64(sx(x.N, fs)))}
					}
					return Value{N: math.Float64bits(float64(x.N))}
				}
				if fsigned {
					return ex.termV(ex.M.F(smt.OFFromSBV, x.T, nil, 0))
				}
				return ex.termV(ex.M.F(smt.OFFromUBV, x.T, nil, 0))
			}
		default:
			return func(ex *Exec, x Value) Value {
				if x.T == nil {
					n := x.N
					if fsigned {
						n = uint64(sx(n, fs))
					}
					return Value{N: n & maskOf(ts)}
				}
				return ex.termV(ex.M.Ext(x.T, ts, fsigned))
			}
		}
	}
	if fok && tok { // float32
		return func(ex *Exec, x Value) Value {
			if x.T != nil {
				ex.unsupported("symbolic float32")
			}
			var f float64
			switch {
			case fs == 101:
				f = float64(math.Float32frombits(uint32(x.N)))
			case fs == smt.SF64:
				f = math.Float64frombits(x.N)
			case fsigned:
				f = float64(sx(x.N, fs))
			default:
				f = float64(x.N)
			}
			switch {
			case ts == 101:
				return Value{N: uint64(math.Float32bits(float32(f)))}
			case ts == smt.SF64:
				return Value{N: math.Float64bits(f)}
			default:
				return Value{N: uint64(int64(f)) & maskOf(ts)}
			}
		}
	}
	// strings
	if isString(to) {
		if fok && fs <= 64 {
			// rune to string
			return func(ex *Exec, x Value) Value {
				if x.T == nil {
					r := sx(x.N, fs)
					if !fsigned {
						r = int64(x.N)
					}
					if r != int64(rune(r)) {
						r = 0xFFFD
					}
					return Value{P: string(rune(r))}
				}
				return ex.runeToStr(ex.M.Ext(x.T, 64, fsigned))
			}
		}
		if isString(from) {
			return func(ex *Exec, x Value) Value { return x }
		}
		if st, ok := fu.(*types.Slice); ok {
			if b, ok := st.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return func(ex *Exec, x Value) Value { return ex.bytesToStr(ex.sl(x)) }
			}
			return func(ex *Exec, x Value) Value {
				s := ex.sl(x)
				r := Value{P: ""}
				if s == nil {
					return r
				}
				for i := 0; i < s.Len; i++ {
					e := s.O.slots[s.Off+i]
					if e.T == nil {
						r = ex.strConcat(r, Value{P: string(rune(int32(e.N)))})
					} else {
						r = ex.strConcat(r, ex.runeToStr(ex.M.Ext(e.T, 64, true)))
					}
				}
				return r
			}
		}
	}
	if st, ok := tu.(*types.Slice); ok && isString(from) {
		if b, ok := st.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return func(ex *Exec, x Value) Value {
				n := ex.strLen(x)
				o := ex.newObj(n)
				for i := 0; i < n; i++ {
					o.slots[i] = ex.strByte(x, i)
				}
				return Value{P: &Slice{O: o, Len: n, Cap: n, Es: 1}}
			}
		}
		return func(ex *Exec, x Value) Value { // []rune
			n := ex.strLen(x)
			var rs []Value
			for off := 0; off < n; {
				r, w := ex.decodeRune(x, off)
				rs = append(rs, r)
				off += w
			}
			o := ex.newObj(0)
			o.slots = rs
			return Value{P: &Slice{O: o, Len: len(rs), Cap: len(rs), Es: 1}}
		}
	}
	// pointers and unsafe.Pointer
	_, fp := fu.(*types.Pointer)
	_, tp := tu.(*types.Pointer)
	fb, fbok := fu.(*types.Basic)
	tb, tbok := tu.(*types.Basic)
	fUnsafe := fbok && fb.Kind() == types.UnsafePointer
	tUnsafe := tbok && tb.Kind() == types.UnsafePointer
	if (fp || fUnsafe) && (tp || tUnsafe) {
		return func(ex *Exec, x Value) Value { return x }
	}
	if tUnsafe || fUnsafe {
		return func(ex *Exec, x Value) Value {
			if x.P == nil && x.N == 0 && x.T == nil {
				return Value{}
			}
			ex.unsupported("conversion %s to %s", from, to)
			return Value{}
		}
	}
	if types.Identical(fu, tu) {
		return func(ex *Exec, x Value) Value { return x }
	}
	return func(ex *Exec, x Value) Value { ex.unsupported("conversion %s to %s", from, to); return Value{} }
}

func (ex *Exec) bytesToStr(s *Slice) Value {
	if s == nil || s.Len == 0 {
		return Value{P: ""}
	}
	b := make([]*smt.Term, s.Len)
	for i := range b {
		v := s.O.slots[s.Off+i]
		if v.T == nil {
			b[i] = ex.byteC[byte(v.N)]
		} else {
			b[i] = v.T
		}
	}
	return ex.mkStr(b)
}

// runeToStr encodes a symbolic rune (64-bit term) as UTF-8, forking on the length.
func (ex *Exec) runeToStr(r *smt.Term) Value {
	m := ex.M
	c := func(v uint64) *smt.Term { return m.Const(64, v) }
	ok := m.And(m.Cmp(smt.OUle, r, c(0x10FFFF)), m.Not(m.And(m.Cmp(smt.OUle, c(0xD800), r), m.Cmp(smt.OUle, r, c(0xDFFF)))))
	if !ex.branch(ok) {
		return Value{P: "\uFFFD"}
	}
	by := func(t *smt.Term) *smt.Term { return m.Ext(t, 8, false) }
	cont := func(sh uint64) *smt.Term {
		return by(m.Bin(smt.OBOr, m.Bin(smt.OBAnd, m.Bin(smt.OLshr, r, c(sh)), c(0x3F)), c(0x80)))
	}
	lead := func(sh, tag uint64) *smt.Term {
		return by(m.Bin(smt.OBOr, m.Bin(smt.OLshr, r, c(sh)), c(tag)))
	}
	if ex.branch(m.Cmp(smt.OUlt, r, c(0x80))) {
		return ex.mkStr([]*smt.Term{by(r)})
	}
	if ex.branch(m.Cmp(smt.OUlt, r, c(0x800))) {
		return ex.mkStr([]*smt.Term{lead(6, 0xC0), cont(0)})
	}
	if ex.branch(m.Cmp(smt.OUlt, r, c(0x10000))) {
		return ex.mkStr([]*smt.Term{lead(12, 0xE0), cont(6), cont(0)})
	}
	return ex.mkStr([]*smt.Term{lead(18, 0xF0), cont(12), cont(6), cont(0)})
}

// decodeRune decodes the rune at off in string v.
func (ex *Exec) decodeRune(v Value, off int) (Value, int) {
	b0 := ex.strByte(v, off)
	if b0.T == nil && b0.N < 0x80 {
		return b0, 1
	}
	if s, ok := concStr(v); ok {
		for i, r := range s[off:] {
			_ = i
			w := 1
			if r != 0xFFFD || len(s) >= off+3 && s[off:off+3] == "\uFFFD" {
				w = len(string(r))
			}
			return Value{N: uint64(uint32(r))}, w
		}
	}
	if b0.T != nil && ex.branch(ex.M.Cmp(smt.OUlt, b0.T, ex.M.Const(8, 0x80))) {
		return ex.termV(ex.M.Ext(b0.T, 32, false)), 1
	}
	// use the real decoder
	dec := ex.P.ByPath["unicode/utf8"].Func("DecodeRuneInString")
	r := ex.callSync(&Closure{Fn: ex.fn(dec)}, []Value{ex.strSlice(v, off, ex.strLen(v))})
	a := r.P.(*Agg)
	return a.E[0], int(ex.concInt(a.E[1], 64, "rune width"))
}

// ---- type assertions

func (ex *Exec) compileTypeAssert(fn *Fn, in *ssa.TypeAssert, dst int) instr {
	x := ex.operand(fn, in.X)
	t := in.AssertedType
	commaOk := in.CommaOk
	if it, ok := t.Underlying().(*types.Interface); ok {
		return func(ex *Exec, g *Gor, f *Frame) {
			v := f.get(&x)
			ok := ex.implements(v, it)
			if commaOk {
				r := Value{}
				if ok {
					r = v
				}
				f.regs[dst] = Value{P: &Agg{E: []Value{r, boolV(ok)}}}
				return
			}
			if !ok {
				ex.rtPanic("interface conversion: value does not implement " + t.String())
			}
			f.regs[dst] = v
		}
	}
	rt := ex.rtype(t)
	z := ex.zero(t)
	return func(ex *Exec, g *Gor, f *Frame) {
		v := f.get(&x)
		r, ok := ex.typeIs(v, rt)
		if commaOk {
			if !ok {
				r = z
			}
			f.regs[dst] = Value{P: &Agg{E: []Value{r, boolV(ok)}}}
			return
		}
		if !ok {
			ex.rtPanic("interface conversion: interface is not " + rt.name)
		}
		f.regs[dst] = r
	}
}

// typeIs tests the dynamic type of v against rt and gives the value.
func (ex *Exec) typeIs(v Value, rt *RType) (Value, bool) {
	switch i := v.P.(type) {
	case nil:
		return Value{}, false
	case *Iface:
		if i.T == rt {
			return i.V, true
		}
		return Value{}, false
	case *Lazy:
		if rt.jk == 0 || !ex.lazyIs(i, rt.jk) {
			return Value{}, false
		}
		return i.val.V, true
	}
	panic(fmt.Sprintf("typeIs: %T", v.P))
}

func (ex *Exec) implements(v Value, it *types.Interface) bool {
	switch i := v.P.(type) {
	case nil:
		return false
	case *Lazy:
		if it.NumMethods() == 0 {
			return !ex.lazyIs(i, KNull)
		}
		return false // JSON values have no methods
	case *Iface:
		k := implKey{i.T, it}
		if r, ok := ex.impls[k]; ok {
			return r
		}
		ex.P.mu.Lock()
		r := types.Implements(i.T.T, it)
		ex.P.mu.Unlock()
		ex.impls[k] = r
		return r
	}
	return false
}

type implKey struct {
	t  *RType
	it *types.Interface
}

// force resolves an interface value completely.
func (ex *Exec) force(v Value) *Iface {
	switch i := v.P.(type) {
	case nil:
		return nil
	case *Iface:
		return i
	case *Lazy:
		return ex.lazyForce(i)
	}
	panic(fmt.Sprintf("force: %T", v.P))
}

// ---- calls

func (ex *Exec) lookupMethod(t types.Type, m *types.Func) *Fn {
	k := methodKey{t, m.Id()}
	if f, ok := ex.methods[k]; ok {
		return f
	}
	ex.P.mu.Lock()
	sf := ex.P.Prog.LookupMethod(t, m.Pkg(), m.Name())
	ex.P.mu.Unlock()
	if sf == nil {
		return nil
	}
	f := ex.fn(sf)
	ex.methods[k] = f
	return f
}

// prepareCall evaluates callee and arguments.
func (ex *Exec) prepareCall(fn *Fn, c *ssa.CallCommon) func(ex *Exec, f *Frame) (*Closure, []Value) {
	var args []operand
	for _, a := range c.Args {
		args = append(args, ex.operand(fn, a))
	}
	val := ex.operand(fn, c.Value)
	if c.IsInvoke() {
		m := c.Method
		return func(ex *Exec, f *Frame) (*Closure, []Value) {
			v := f.get(&val)
			if v.P == nil {
				ex.nilDeref()
			}
			i := ex.force(v)
			if i == nil {
				ex.nilDeref()
			}
			mf := ex.lookupMethod(i.T.T, m)
			if mf == nil {
				ex.unsupported("method %s of %s", m.Name(), i.T.name)
			}
			as := make([]Value, 1+len(args))
			as[0] = i.V
			for k := range args {
				as[k+1] = f.get(&args[k])
			}
			return &Closure{Fn: mf}, as
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		var ts []types.Type
		for _, a := range c.Args {
			ts = append(ts, a.Type())
		}
		h := ex.builtin(b, c, ts)
		return func(ex *Exec, f *Frame) (*Closure, []Value) {
			as := make([]Value, len(args))
			for k := range args {
				as[k] = f.get(&args[k])
			}
			return &Closure{Native: func(ex *Exec, a []Value) Value { return h(ex, a) }, Name: b.Name()}, as
		}
	}
	return func(ex *Exec, f *Frame) (*Closure, []Value) {
		cl, _ := f.get(&val).P.(*Closure)
		if cl == nil {
			ex.nilDeref()
		}
		as := make([]Value, len(args))
		for k := range args {
			as[k] = f.get(&args[k])
		}
		return cl, as
	}
}

func (ex *Exec) compileCall(fn *Fn, c *ssa.CallCommon, dst int) instr {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		var args []operand
		var ts []types.Type
		for _, a := range c.Args {
			args = append(args, ex.operand(fn, a))
			ts = append(ts, a.Type())
		}
		if b.Name() == "recover" {
			return func(ex *Exec, g *Gor, f *Frame) { f.regs[dst] = ex.doRecover(g, f) }
		}
		h := ex.builtin(b, c, ts)
		return func(ex *Exec, g *Gor, f *Frame) {
			var buf [4]Value
			as := buf[:0]
			for k := range args {
				as = append(as, f.get(&args[k]))
			}
			f.regs[dst] = h(ex, as)
		}
	}
	if callee := c.StaticCallee(); callee != nil && !c.IsInvoke() {
		if callee.Name() == "init" && callee.Pkg != nil && callee.Signature.Recv() == nil && callee == callee.Pkg.Func("init") {
			pkg := callee.Pkg
			target := ex.fn(callee)
			return func(ex *Exec, g *Gor, f *Frame) {
				if !ex.initOK(pkg) {
					return
				}
				ex.call(g, f, &Closure{Fn: target}, nil, -1)
			}
		}
		if _, isClosure := c.Value.(*ssa.MakeClosure); !isClosure {
			target := &Closure{Fn: ex.fn(callee)}
			var args []operand
			for _, a := range c.Args {
				args = append(args, ex.operand(fn, a))
			}
			return func(ex *Exec, g *Gor, f *Frame) {
				as := make([]Value, len(args))
				for k := range args {
					as[k] = f.get(&args[k])
				}
				ex.call(g, f, target, as, dst)
			}
		}
	}
	prep := ex.prepareCall(fn, c)
	return func(ex *Exec, g *Gor, f *Frame) {
		cl, as := prep(ex, f)
		ex.call(g, f, cl, as, dst)
	}
}

func (ex *Exec) builtin(b *ssa.Builtin, c *ssa.CallCommon, ts []types.Type) func(ex *Exec, a []Value) Value {
	return ex.builtinNamed(b.Name(), ts...)
}

func (ex *Exec) builtinNamed(name string, ts ...types.Type) func(ex *Exec, a []Value) Value {
	switch name {
	case "len":
		switch t := ts[0].Underlying().(type) {
		case *types.Basic:
			return func(ex *Exec, a []Value) Value { return Value{N: uint64(ex.strLen(a[0]))} }
		case *types.Slice:
			return func(ex *Exec, a []Value) Value {
				s := ex.sl(a[0])
				if s == nil {
					return Value{}
				}
				if s.Ident != nil {
					return ex.termV(s.Ident.Len)
				}
				return Value{N: uint64(s.Len)}
			}
		case *types.Map:
			return func(ex *Exec, a []Value) Value {
				m, _ := a[0].P.(*MapObj)
				return Value{N: uint64(ex.mapLen(m))}
			}
		case *types.Chan:
			return func(ex *Exec, a []Value) Value {
				if ch, _ := a[0].P.(*Chan); ch != nil {
					return Value{N: uint64(len(ch.buf))}
				}
				return Value{}
			}
		case *types.Array:
			n := uint64(t.Len())
			return func(ex *Exec, a []Value) Value { return Value{N: n} }
		case *types.Pointer:
			n := uint64(t.Elem().Underlying().(*types.Array).Len())
			return func(ex *Exec, a []Value) Value { return Value{N: n} }
		}
	case "cap":
		switch t := ts[0].Underlying().(type) {
		case *types.Slice:
			return func(ex *Exec, a []Value) Value {
				s := ex.sl(a[0])
				if s == nil {
					return Value{}
				}
				if s.Ident != nil {
					return ex.termV(s.Ident.Len)
				}
				return Value{N: uint64(s.Cap)}
			}
		case *types.Chan:
			return func(ex *Exec, a []Value) Value {
				if ch, _ := a[0].P.(*Chan); ch != nil {
					return Value{N: uint64(ch.cap)}
				}
				return Value{}
			}
		case *types.Array:
			n := uint64(t.Len())
			return func(ex *Exec, a []Value) Value { return Value{N: n} }
		}
	case "append":
		es := 1
		if st, ok := ts[0].Underlying().(*types.Slice); ok {
			es = ex.layoutOf(st.Elem()).size
		}
		strArg := len(ts) > 1 && isString(ts[1])
		size := 8
		if st, ok := ts[0].Underlying().(*types.Slice); ok {
			size = int(types.SizesFor("gc", "amd64").Sizeof(st.Elem()))
		}
		return func(ex *Exec, a []Value) Value {
			if len(a) == 1 {
				return a[0]
			}
			s := ex.sl(a[0])
			if strArg {
				n := ex.strLen(a[1])
				vs := make([]Value, n)
				for i := range vs {
					vs[i] = ex.strByte(a[1], i)
				}
				return ex.appendVals(s, vs, 1, n, 1)
			}
			y := ex.sl(a[1])
			if y == nil || y.Len == 0 && y.Ident == nil {
				return a[0]
			}
			if y.Ident != nil || s != nil && s.Ident != nil {
				ex.unsupported("append of array of symbolic length")
			}
			if ex.path.race {
				for i := 0; i < y.Len*es; i++ {
					ex.raceRead(y.O, y.Off+i)
				}
			}
			return ex.appendVals(s, y.O.slots[y.Off:y.Off+y.Len*es], es, y.Len, size)
		}
	case "copy":
		es := 1
		if st, ok := ts[0].Underlying().(*types.Slice); ok {
			es = ex.layoutOf(st.Elem()).size
		}
		strArg := isString(ts[1])
		return func(ex *Exec, a []Value) Value {
			d := ex.sl(a[0])
			if d == nil {
				return Value{}
			}
			if strArg {
				n := min(d.Len, ex.strLen(a[1]))
				for i := 0; i < n; i++ {
					ex.setSlot(d.O, d.Off+i, ex.strByte(a[1], i))
				}
				return Value{N: uint64(n)}
			}
			s := ex.sl(a[1])
			if s == nil {
				return Value{}
			}
			if d.Ident != nil || s.Ident != nil {
				ex.unsupported("copy of array of symbolic length")
			}
			n := min(d.Len, s.Len)
			tmp := make([]Value, n*es)
			copy(tmp, s.O.slots[s.Off:])
			for i, v := range tmp {
				ex.setSlot(d.O, d.Off+i, v)
			}
			return Value{N: uint64(n)}
		}
	case "delete":
		kt := ts[0].Underlying().(*types.Map).Key()
		return func(ex *Exec, a []Value) Value {
			if m, _ := a[0].P.(*MapObj); m != nil {
				ex.mapDelete(m, a[1], kt)
			}
			return Value{}
		}
	case "clear":
		return func(ex *Exec, a []Value) Value {
			if m, ok := a[0].P.(*MapObj); ok {
				ex.mapClear(m)
				return Value{}
			}
			if s := ex.sl(a[0]); s != nil {
				for i := 0; i < s.Len*s.Es; i++ {
					ex.setSlot(s.O, s.Off+i, Value{})
				}
			}
			return Value{}
		}
	case "close":
		return func(ex *Exec, a []Value) Value { ex.closeChan(a[0]); return Value{} }
	case "print", "println":
		return func(ex *Exec, a []Value) Value { return Value{} }
	case "min", "max":
		isMax := name == "max"
		t := ts[0]
		if isString(t) {
			return func(ex *Exec, a []Value) Value {
				r := a[0]
				for _, x := range a[1:] {
					lt := ex.strLess(x, r, false)
					if isMax {
						lt = ex.strLess(r, x, false)
					}
					if ex.branch(lt) {
						r = x
					}
				}
				return r
			}
		}
		s, signed, ok := sortOf(t)
		if ok && s <= 64 {
			lt := smt.OUlt
			if signed {
				lt = smt.OSlt
			}
			return func(ex *Exec, a []Value) Value {
				r := ex.term(a[0], s)
				for _, x := range a[1:] {
					y := ex.term(x, s)
					c := ex.M.Cmp(lt, y, r)
					if isMax {
						c = ex.M.Cmp(lt, r, y)
					}
					r = ex.M.Ite(c, y, r)
				}
				return ex.termV(r)
			}
		}
		if s == smt.SF64 {
			return func(ex *Exec, a []Value) Value {
				m := ex.M
				r := ex.term(a[0], s)
				for _, x := range a[1:] {
					y := ex.term(x, s)
					var c *smt.Term
					if isMax {
						c = m.F(smt.OFLt, r, y, 0)
					} else {
						c = m.F(smt.OFLt, y, r, 0)
					}
					nan := m.Or(m.F(smt.OFIsNaN, r, nil, 0), m.F(smt.OFIsNaN, y, nil, 0))
					// equal zeros of different sign: min prefers -0, max prefers +0
					z := m.FConst(0)
					bothZero := m.And(m.F(smt.OFEq, r, z, 0), m.F(smt.OFEq, y, z, 0))
					var zr *smt.Term
					if isMax {
						zr = m.Ite(m.Eq(y, z), y, r)
					} else {
						zr = m.Ite(m.Eq(r, z), y, r)
					}
					r = m.Ite(nan, m.FConst(math.NaN()), m.Ite(bothZero, zr, m.Ite(c, y, r)))
				}
				return ex.termV(r)
			}
		}
	case "ssa:wrapnilchk":
		return func(ex *Exec, a []Value) Value {
			if a[0].P == nil {
				ex.nilDeref()
			}
			return a[0]
		}
	case "SliceData":
		return func(ex *Exec, a []Value) Value {
			s := ex.sl(a[0])
			if s == nil {
				return Value{}
			}
			return Value{P: s.O, N: uint64(s.Off)}
		}
	case "String":
		return func(ex *Exec, a []Value) Value {
			n := int(ex.concInt(a[1], 64, "unsafe.String length"))
			if n == 0 {
				return Value{P: ""}
			}
			switch o := a[0].P.(type) {
			case *Obj:
				return ex.bytesToStr(&Slice{O: o, Off: int(a[0].N), Len: n, Cap: n, Es: 1})
			case *strData:
				return ex.strSlice(o.v, 0, n)
			}
			ex.unsupported("unsafe.String of %T", a[0].P)
			return Value{}
		}
	case "StringData":
		return func(ex *Exec, a []Value) Value { return Value{P: &strData{a[0]}} }
	case "Slice":
		return func(ex *Exec, a []Value) Value {
			n := int(ex.concInt(a[1], 64, "unsafe.Slice length"))
			switch o := a[0].P.(type) {
			case nil:
				return Value{}
			case *Obj:
				return Value{P: &Slice{O: o, Off: int(a[0].N), Len: n, Cap: n, Es: 1}}
			case *strData:
				ob := ex.newObj(n)
				for i := 0; i < n; i++ {
					ob.slots[i] = ex.strByte(o.v, i)
				}
				return Value{P: &Slice{O: ob, Len: n, Cap: n, Es: 1}}
			}
			ex.unsupported("unsafe.Slice of %T", a[0].P)
			return Value{}
		}
	case "recover":
		return func(ex *Exec, a []Value) Value { return Value{} }
	}
	return func(ex *Exec, a []Value) Value { ex.unsupported("builtin %s", name); return Value{} }
}

type strData struct{ v Value }

// appendVals appends n elements (es slots each) to s.
func (ex *Exec) appendVals(s *Slice, vs []Value, es, n, size int) Value {
	var l, c int
	if s != nil {
		l, c = s.Len, s.Cap
	}
	if l+n <= c {
		for i, v := range vs {
			ex.setSlot(s.O, s.Off+l*es+i, v)
		}
		return Value{P: &Slice{O: s.O, Off: s.Off, Len: l + n, Cap: c, Es: es}}
	}
	nc := growCap(c, l+n, size)
	o := ex.newObj(nc * es)
	if s != nil {
		copy(o.slots, s.O.slots[s.Off:s.Off+l*es])
	}
	copy(o.slots[l*es:], vs)
	return Value{P: &Slice{O: o, Len: l + n, Cap: nc, Es: es}}
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// growCap is the runtime's growth rule.
func growCap(oldCap, newLen, size int) int {
	nc := oldCap
	if newLen > 2*oldCap {
		nc = newLen
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if size == 0 {
		return nc
	}
	b := nc * size
	for _, c := range sizeClasses {
		if b <= c {
			return c / size
		}
	}
	pg := 8192
	return (b + pg - 1) / pg * pg / size
}
