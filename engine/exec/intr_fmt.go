package exec

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"symgo/smt"
)

// native converts a concrete interface value to a Go value, if it is made of plain JSON-like types.
func (ex *Exec) native(v Value) (any, bool) {
	i := ex.force(v)
	if i == nil {
		return nil, true
	}
	return ex.nativeOf(i.V, i.T.T)
}

func (ex *Exec) nativeOf(v Value, t types.Type) (any, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return concStr(v)
		}
		if v.T != nil {
			return nil, false
		}
		switch u.Kind() {
		case types.Bool:
			return v.N != 0, true
		case types.Int:
			return int(v.N), true
		case types.Int64:
			return int64(v.N), true
		case types.Int32:
			return int32(v.N), true
		case types.Int16:
			return int16(v.N), true
		case types.Int8:
			return int8(v.N), true
		case types.Uint:
			return uint(v.N), true
		case types.Uint64, types.Uintptr:
			return v.N, true
		case types.Uint32:
			return uint32(v.N), true
		case types.Uint16:
			return uint16(v.N), true
		case types.Uint8:
			return uint8(v.N), true
		case types.Float64:
			return math.Float64frombits(v.N), true
		}
	case *types.Slice:
		et := u.Elem()
		if _, ok := et.Underlying().(*types.Interface); ok {
			s := ex.sl(v)
			if s == nil {
				return []any(nil), true
			}
			if s.Ident != nil {
				return nil, false
			}
			r := make([]any, s.Len)
			for i := range r {
				x, ok := ex.nativeNoMeth(s.O.slots[s.Off+i])
				if !ok {
					return nil, false
				}
				r[i] = x
			}
			return r, true
		}
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			s := ex.sl(v)
			if s == nil {
				return []byte(nil), true
			}
			str, ok := concStr(ex.bytesToStr(s))
			return []byte(str), ok
		}
	case *types.Map:
		if _, ok := u.Elem().Underlying().(*types.Interface); !ok || !isString(u.Key()) {
			return nil, false
		}
		m, _ := v.P.(*MapObj)
		if m == nil {
			return map[string]any(nil), true
		}
		ex.mapLen(m)
		r := map[string]any{}
		for _, e := range m.ents {
			k, ok := concStr(e.K)
			if !ok {
				return nil, false
			}
			x, ok := ex.nativeNoMeth(e.V)
			if !ok {
				return nil, false
			}
			r[k] = x
		}
		return r, true
	}
	return nil, false
}

func (ex *Exec) nativeNoMeth(v Value) (any, bool) {
	i := ex.force(v)
	if i == nil {
		return nil, true
	}
	if ex.hasMethod(i.T.T, "String") || ex.hasMethod(i.T.T, "Error") || ex.hasMethod(i.T.T, "GoString") {
		return nil, false
	}
	return ex.nativeOf(i.V, i.T.T)
}

func opaque(d string) Value { return Value{P: &OpaqueStr{Desc: d}} }

// fmtOne formats one operand.
func (ex *Exec) fmtOne(spec string, verb byte, v Value) Value {
	i := ex.force(v)
	plain := len(spec) == 2
	if i != nil {
		sharp := strings.Contains(spec, "#")
		if sharp && verb == 'v' && ex.hasMethod(i.T.T, "GoString") {
			r, _ := ex.callMethod(v, "GoString")
			return r
		}
		if strings.IndexByte("vsqxX", verb) >= 0 && !(sharp && verb == 'v') {
			for _, m := range []string{"Error", "String"} {
				if !ex.hasMethod(i.T.T, m) {
					continue
				}
				if isNilPtr(i) {
					return Value{P: "<nil>"}
				}
				r, _ := ex.callMethod(v, m)
				if plain && (verb == 'v' || verb == 's') {
					return r
				}
				if s, ok := concStr(r); ok {
					return Value{P: fmt.Sprintf(spec, s)}
				}
				return opaque("formatted string")
			}
		}
		if isString(i.T.T) && plain && (verb == 'v' || verb == 's') {
			return i.V
		}
		if s, signed, ok := sortOf(i.T.T); ok && i.V.T != nil && plain {
			switch {
			case s == smt.SBool && (verb == 'v' || verb == 't'):
				if ex.branch(i.V.T) {
					return Value{P: "true"}
				}
				return Value{P: "false"}
			case s <= 64 && s > 1 && (verb == 'v' || verb == 'd'):
				return ex.fmtInt(ex.M.Ext(i.V.T, 64, signed), signed)
			}
		}
	}
	n, ok := ex.native(v)
	if !ok {
		return opaque("formatted value")
	}
	return Value{P: fmt.Sprintf(spec, n)}
}

func isNilPtr(i *Iface) bool {
	_, p := i.T.T.Underlying().(*types.Pointer)
	return p && i.V.P == nil
}

// fmtInt is the decimal text of t, by strconv.
func (ex *Exec) fmtInt(t *smt.Term, signed bool) Value {
	p := ex.P.ByPath["strconv"]
	if p == nil {
		return opaque("number")
	}
	name := "FormatInt"
	if !signed {
		name = "FormatUint"
	}
	return ex.callSync(&Closure{Fn: ex.fn(p.Func(name))}, []Value{ex.termV(t), {N: 10}})
}

// sprintf formats; wrapped is the %w operand if any.
func (ex *Exec) sprintf(format string, args []Value) (out Value, wrapped *Value) {
	out = Value{P: ""}
	n := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			out = ex.strConcat(out, Value{P: format[i:]})
			break
		}
		out = ex.strConcat(out, Value{P: format[i : i+j]})
		i += j
		k := i + 1
		for k < len(format) && strings.IndexByte("#+- 0123456789.", format[k]) >= 0 {
			k++
		}
		if k >= len(format) {
			out = ex.strConcat(out, Value{P: "%!(NOVERB)"})
			break
		}
		verb := format[k]
		spec := format[i : k+1]
		i = k + 1
		switch {
		case verb == '%':
			out = ex.strConcat(out, Value{P: "%"})
			continue
		case verb == '[' || verb == '*':
			return opaque("format"), wrapped
		case n >= len(args):
			out = ex.strConcat(out, Value{P: "%!" + string(verb) + "(MISSING)"})
			continue
		}
		a := args[n]
		n++
		if verb == 'w' {
			w := a
			wrapped = &w
			verb = 'v'
			spec = spec[:len(spec)-1] + "v"
		}
		out = ex.strConcat(out, ex.fmtOne(spec, verb, a))
	}
	if n < len(args) {
		return opaque("extra operands"), wrapped
	}
	return out, wrapped
}

func (ex *Exec) sprint(args []Value, ln bool) Value {
	out := Value{P: ""}
	prevString := false
	for i, a := range args {
		f := ex.force(a)
		isStr := f != nil && isString(f.T.T)
		if i > 0 && (ln || !isStr && !prevString) {
			out = ex.strConcat(out, Value{P: " "})
		}
		out = ex.strConcat(out, ex.fmtOne("%v", 'v', a))
		prevString = isStr
	}
	if ln {
		out = ex.strConcat(out, Value{P: "\n"})
	}
	return out
}

func initFmt() {
	reg("fmt.Sprintf", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		ex.noSide()
		f, ok := concStr(a[0])
		if !ok {
			return opaque("symbolic format"), true
		}
		v, _ := ex.sprintf(f, ex.sliceVals(a[1]))
		return v, true
	})
	reg("fmt.Errorf", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		ex.noSide()
		f, ok := concStr(a[0])
		if !ok {
			return ex.newError(opaque("symbolic format")), true
		}
		v, w := ex.sprintf(f, ex.sliceVals(a[1]))
		if w != nil && ex.implementsError(*w) {
			et := ex.P.ByPath["fmt"].Pkg.Scope().Lookup("wrapError").Type()
			o := ex.newObj(2)
			o.slots[0], o.slots[1] = v, *w
			return Value{P: &Iface{ex.rtype(types.NewPointer(et)), Value{P: o}}}, true
		}
		return ex.newError(v), true
	})
	reg("fmt.Sprint", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		ex.noSide()
		return ex.sprint(ex.sliceVals(a[0]), false), true
	})
	reg("fmt.Sprintln", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		ex.noSide()
		return ex.sprint(ex.sliceVals(a[0]), true), true
	})
	write := func(ex *Exec, w, s Value) (Value, bool) {
		str, ok := s.P.(*OpaqueStr)
		if ok {
			i := ex.force(w)
			if len(ex.P.Vars) == 0 || i == nil || i.T.T.String() != "*os.File" {
				ex.unsupported("writing formatted text (%s)", str.Desc)
			}
			s = Value{P: "(formatted text)\n"} // a message
		}
		bs := ex.strBytes(s)
		vs := make([]Value, len(bs))
		for i, b := range bs {
			vs[i] = ex.termV(b)
		}
		r, ok := ex.callMethod(w, "Write", ex.mkSlice(vs))
		if !ok {
			ex.unsupported("Fprint to unknown writer")
		}
		return r, true
	}
	reg("fmt.Fprintf", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		ex.noSide()
		v, _ := ex.sprintf(ex.mustStr(a[1], "format"), ex.sliceVals(a[2]))
		return write(ex, a[0], v)
	})
	// output to standard output is dropped unless modelled
	toStdout := func(name string, format func(ex *Exec, a []Value) Value) {
		reg(name, func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
			v := ex.P.Vars["os.Stdout"]
			if v == nil {
				return tuple(Value{}, Value{}), true
			}
			ex.noSide()
			t := v.Type().(*types.Pointer).Elem()
			return write(ex, Value{P: &Iface{ex.rtype(t), ex.global(v).slots[0]}}, format(ex, a))
		})
	}
	toStdout("fmt.Print", func(ex *Exec, a []Value) Value { return ex.sprint(ex.sliceVals(a[0]), false) })
	toStdout("fmt.Println", func(ex *Exec, a []Value) Value { return ex.sprint(ex.sliceVals(a[0]), true) })
	toStdout("fmt.Printf", func(ex *Exec, a []Value) Value {
		v, _ := ex.sprintf(ex.mustStr(a[0], "format"), ex.sliceVals(a[1]))
		return v
	})
	reg("fmt.Fprint", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		ex.noSide()
		return write(ex, a[0], ex.sprint(ex.sliceVals(a[1]), false))
	})
	reg("fmt.Fprintln", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		ex.noSide()
		return write(ex, a[0], ex.sprint(ex.sliceVals(a[1]), true))
	})
	quote := func(name string, f func(string) string) {
		reg(name, func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
			s, ok := concStr(a[0])
			if !ok {
				return opaque(name), true
			}
			return Value{P: f(s)}, true
		})
	}
	quote("strconv.Quote", strconv.Quote)
	quote("strconv.QuoteToASCII", strconv.QuoteToASCII)
	reg("strconv.CanBackquote", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		s, ok := concStr(a[0])
		if !ok {
			return Value{}, false
		}
		return boolV(strconv.CanBackquote(s)), true
	})
	reg("strconv.QuoteRune", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		if a[0].T != nil {
			return opaque("rune"), true
		}
		return Value{P: strconv.QuoteRune(rune(int32(a[0].N)))}, true
	})
	// concrete conversions natively (fast), symbolic ones by interpretation
	reg("strconv.FormatFloat", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		for _, x := range a {
			if x.T != nil {
				return opaque("float"), true
			}
		}
		return Value{P: strconv.FormatFloat(f64v(a[0]), byte(a[1].N), int(int64(a[2].N)), int(int64(a[3].N)))}, true
	})
	reg("strconv.Itoa", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		if a[0].T != nil {
			return Value{}, false
		}
		return Value{P: strconv.Itoa(int(int64(a[0].N)))}, true
	})
}

func (ex *Exec) implementsError(v Value) bool {
	i := ex.force(v)
	return i != nil && ex.hasMethod(i.T.T, "Error")
}
