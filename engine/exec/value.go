// Package exec executes Go SSA symbolically.
package exec

import (
	"fmt"
	"go/types"
	"strings"

	"symgo/smt"
)

// Value is a machine value. Scalars: N when T is nil (masked to the type's width; doubles as bits), otherwise T.
// Pointers: P = *Obj and N = slot offset (nil pointer: P nil). Strings: P = string, *SymStr, *OpaqueStr, nil = "".
// Slices *Slice, maps *MapObj, interfaces *Iface or *Lazy, functions *Closure, channels *Chan, aggregates *Agg; nil P is the nil value.
type Value struct {
	N uint64
	T *smt.Term
	P any
}

// Obj is a memory object made of slots.
type Obj struct {
	id     int64
	slots  []Value
	base   bool // created during package initialisation: changes are undone after each path
	doc    bool // part of a document under test
	uninit bool // global of a package whose initialiser was not run
	name   string
	native any // opaque native object (eg *regexp.Regexp)
	race   []slotRace
	sync   map[int]*syncState
}

type Slice struct {
	O             *Obj
	Off, Len, Cap int // Len and Cap in elements, Off in slots
	Es            int // slots per element
	Lz            *lazyArr
	Ident         *IdentArr
}

// IdentArr is an array of symbolic length whose element i is the number i.
type IdentArr struct {
	Len *smt.Term
}

// lazyArr is an array value whose length is not chosen yet.
type lazyArr struct {
	l     *Lazy
	fixed *Slice
}

type SymStr struct {
	B []*smt.Term
}

type OpaqueStr struct {
	Desc string
}

type Agg struct {
	E []Value
}

type Iface struct {
	T *RType
	V Value
}

type Closure struct {
	Fn     *Fn
	Free   []Value
	Native func(ex *Exec, args []Value) Value
	Name   string
}

type MapEnt struct {
	K, V Value
	dead bool
	key  string // canonical text of a concrete key
	isc  bool
}

type MapObj struct {
	id     int64
	ents   []*MapEnt
	idx    map[string]*MapEnt // concrete string keys
	nsym   int                // entries with symbolic keys
	count  int
	kt     types.Type
	base   bool
	saved  bool
	doc    bool
	Lz     *lazyObj
	race   slotRace
	hasRac bool
}

type mapIter struct {
	m    *MapObj
	ents []*MapEnt
	pos  int
	str  *Value // string iteration
	off  int
}

// RType is a canonical dynamic type.
type RType struct {
	T    types.Type
	name string
	jk   uint8 // JSON kind bit of this type, 0 if none
}

func (r *RType) String() string { return r.name }

// Unsupported aborts a path for which no encoding exists.
type Unsupported struct{ Why string }

func (ex *Exec) unsupported(format string, args ...any) {
	panic(Unsupported{fmt.Sprintf(format, args...)})
}

func boolV(b bool) Value {
	if b {
		return Value{N: 1}
	}
	return Value{}
}

func strV(s string) Value { return Value{P: s} }

func (ex *Exec) termV(t *smt.Term) Value {
	if t.Op == smt.OConst {
		return Value{N: t.K}
	}
	return Value{T: t}
}

// term returns the scalar v as a term of sort s.
func (ex *Exec) term(v Value, s uint8) *smt.Term {
	if v.T != nil {
		return v.T
	}
	return ex.M.Const(s, v.N)
}

// sortOf gives the sort of a scalar type.
func sortOf(t types.Type) (s uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return smt.SBool, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	case types.Float64, types.UntypedFloat:
		return smt.SF64, true, true
	case types.Float32:
		return 101, true, true // only concrete values supported
	}
	return 0, false, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// ---- layout

type layout struct {
	size   int
	fields []int // field offsets for structs
	elem   int   // element size for arrays
}

func (ex *Exec) layoutOf(t types.Type) *layout {
	if l, ok := ex.layouts[t]; ok {
		return l
	}
	l := &layout{size: 1}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			l.fields = append(l.fields, n)
			n += ex.layoutOf(u.Field(i).Type()).size
		}
		l.size = n
	case *types.Array:
		l.elem = ex.layoutOf(u.Elem()).size
		l.size = l.elem * int(u.Len())
	case *types.Tuple:
		l.size = u.Len()
	}
	ex.layouts[t] = l
	return l
}

// isAgg reports whether values of t are held as *Agg.
func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (ex *Exec) zero(t types.Type) Value {
	if isAgg(t) {
		n := ex.layoutOf(t).size
		return Value{P: &Agg{E: make([]Value, n)}}
	}
	if tu, ok := t.(*types.Tuple); ok {
		a := &Agg{E: make([]Value, tu.Len())}
		for i := range a.E {
			a.E[i] = ex.zero(tu.At(i).Type())
		}
		return Value{P: a}
	}
	return Value{}
}

func (ex *Exec) newObj(n int) *Obj {
	ex.nextObj++
	return &Obj{id: ex.nextObj, slots: make([]Value, n), base: ex.inBase}
}

// ---- strings

func (ex *Exec) strLen(v Value) int {
	switch s := v.P.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.B)
	case *OpaqueStr:
		ex.unsupported("length of formatted string (%s)", s.Desc)
	}
	panic(fmt.Sprintf("strLen: %T", v.P))
}

func (ex *Exec) strByte(v Value, i int) Value {
	switch s := v.P.(type) {
	case string:
		return Value{N: uint64(s[i])}
	case *SymStr:
		return ex.termV(s.B[i])
	case *OpaqueStr:
		ex.unsupported("index of formatted string (%s)", s.Desc)
	}
	panic("strByte")
}

func (ex *Exec) strBytes(v Value) []*smt.Term {
	switch s := v.P.(type) {
	case nil:
		return nil
	case string:
		b := make([]*smt.Term, len(s))
		for i := range b {
			b[i] = ex.byteC[s[i]]
		}
		return b
	case *SymStr:
		return s.B
	case *OpaqueStr:
		ex.unsupported("bytes of formatted string (%s)", s.Desc)
	}
	panic("strBytes")
}

// mkStr makes a string value from byte terms.
func (ex *Exec) mkStr(b []*smt.Term) Value {
	for _, t := range b {
		if t.Op != smt.OConst {
			return Value{P: &SymStr{B: b}}
		}
	}
	if len(b) == 0 {
		return Value{P: ""}
	}
	s := make([]byte, len(b))
	for i, t := range b {
		s[i] = byte(t.K)
	}
	return Value{P: string(s)}
}

func (ex *Exec) strSlice(v Value, lo, hi int) Value {
	switch s := v.P.(type) {
	case nil:
		return v
	case string:
		return Value{P: s[lo:hi]}
	case *SymStr:
		return ex.mkStr(s.B[lo:hi:hi])
	case *OpaqueStr:
		ex.unsupported("slice of formatted string (%s)", s.Desc)
	}
	panic("strSlice")
}

func (ex *Exec) strConcat(a, b Value) Value {
	as, aok := a.P.(string)
	bs, bok := b.P.(string)
	if a.P == nil {
		aok = true
	}
	if b.P == nil {
		bok = true
	}
	if aok && bok {
		return Value{P: as + bs}
	}
	if o, ok := a.P.(*OpaqueStr); ok {
		return Value{P: o}
	}
	if o, ok := b.P.(*OpaqueStr); ok {
		return Value{P: o}
	}
	x, y := ex.strBytes(a), ex.strBytes(b)
	r := make([]*smt.Term, 0, len(x)+len(y))
	r = append(append(r, x...), y...)
	return ex.mkStr(r)
}

// concStr gives the Go string of a concrete string value.
func concStr(v Value) (string, bool) {
	switch s := v.P.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func (ex *Exec) strEq(a, b Value) *smt.Term {
	as, aok := concStr(a)
	bs, bok := concStr(b)
	if aok && bok {
		return ex.M.Bool(as == bs)
	}
	if oa, ok := a.P.(*OpaqueStr); ok {
		if ob, ok := b.P.(*OpaqueStr); ok && oa == ob {
			return ex.M.True
		}
		ex.unsupported("comparison of formatted string (%s)", oa.Desc)
	}
	if ex.strLen(a) != ex.strLen(b) {
		return ex.M.False
	}
	x, y := ex.strBytes(a), ex.strBytes(b)
	r := ex.M.True
	for i := range x {
		r = ex.M.And(r, ex.M.Eq(x[i], y[i]))
		if r.IsFalse() {
			break
		}
	}
	return r
}

// strLess is a < b (or a <= b).
func (ex *Exec) strLess(a, b Value, orEq bool) *smt.Term {
	as, aok := concStr(a)
	bs, bok := concStr(b)
	if aok && bok {
		if orEq {
			return ex.M.Bool(as <= bs)
		}
		return ex.M.Bool(as < bs)
	}
	x, y := ex.strBytes(a), ex.strBytes(b)
	n := min(len(x), len(y))
	var r *smt.Term
	if orEq {
		r = ex.M.Bool(len(x) <= len(y))
	} else {
		r = ex.M.Bool(len(x) < len(y))
	}
	for i := n - 1; i >= 0; i-- {
		r = ex.M.Or(ex.M.Cmp(smt.OUlt, x[i], y[i]), ex.M.And(ex.M.Eq(x[i], y[i]), r))
	}
	return r
}

// ---- type names and canonical types

func (ex *Exec) rtype(t types.Type) *RType {
	if r, ok := ex.rtypeFast[t]; ok {
		return r
	}
	if v := ex.rtypes.At(t); v != nil {
		r := v.(*RType)
		ex.rtypeFast[t] = r
		return r
	}
	r := &RType{T: t, name: types.TypeString(t, nil)}
	ex.rtypes.Set(t, r)
	ex.rtypeFast[t] = r
	return r
}

func (ex *Exec) describe(v Value, t types.Type) string {
	if t != nil && isString(t) {
		if s, ok := concStr(v); ok {
			return fmt.Sprintf("%q", s)
		}
	}
	if v.T != nil {
		return "<symbolic>"
	}
	switch p := v.P.(type) {
	case nil:
		return fmt.Sprint(v.N)
	case string:
		return fmt.Sprintf("%q", p)
	case *Iface:
		return fmt.Sprintf("%s(%s)", p.T.name, ex.describe(p.V, p.T.T))
	case *Agg:
		var sb strings.Builder
		for i, e := range p.E {
			if i > 0 {
				sb.WriteString(", ")
			}
			sb.WriteString(ex.describe(e, nil))
		}
		return "{" + sb.String() + "}"
	}
	return fmt.Sprintf("%T", v.P)
}
