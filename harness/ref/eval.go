package ref

import (
	"math"
	"regexp"
	"strconv"
	"unicode/utf8"

	"github.com/forsyth/jsonpath/paths"
)

// Missing is the value of an expression without a usable result.
type missing struct{}

var Missing any = missing{}

// IsMissing tells whether v is Missing.
func IsMissing(v any) bool {
	_, ok := v.(missing)
	return ok
}

// Pattern is the value of a regular expression literal.
type Pattern string

// Tree is a list of results, of which some parts can come in any order.
type Tree struct {
	Leaf bool
	V    any
	Kids []*Tree
	Bag  bool // Kids come in any order
}

// Eval is an evaluation.
type Eval struct {
	Root   any
	Failed bool // a run-time error
	Open   bool // something the documentation does not settle
}

// Run gives the results of a path.
func (ev *Eval) Run(steps []*Step) *Tree {
	t := &Tree{Leaf: true, V: ev.Root}
	for _, st := range steps {
		t = ev.step(st, t)
		if ev.Failed || ev.Open {
			return nil
		}
	}
	return t
}

// each applies f to every result in t.
func each(t *Tree, f func(any) *Tree) *Tree {
	if t == nil {
		return nil
	}
	if t.Leaf {
		return f(t.V)
	}
	r := &Tree{Bag: t.Bag}
	for _, k := range t.Kids {
		if k = each(k, f); k != nil && (k.Leaf || len(k.Kids) > 0) {
			r.Kids = append(r.Kids, k)
		}
	}
	return r
}

func leaf(v any) *Tree { return &Tree{Leaf: true, V: v} }

func empty(t *Tree) bool { return t == nil || !t.Leaf && len(t.Kids) == 0 }

func (t *Tree) add(k *Tree) {
	if !empty(k) {
		t.Kids = append(t.Kids, k)
	}
}

// children are the elements or members of v.
func children(v any) *Tree {
	t := &Tree{}
	switch v := v.(type) {
	case []any:
		for _, e := range v {
			t.Kids = append(t.Kids, leaf(e))
		}
	case map[string]any:
		t.Bag = true
		for _, e := range v {
			t.Kids = append(t.Kids, leaf(e))
		}
	}
	return t
}

func structure(v any) bool {
	switch v.(type) {
	case []any, map[string]any:
		return true
	}
	return false
}

// descend applies f to v and everything beneath that is an array or object.
func descend(v any, f func(any) *Tree) *Tree {
	if !structure(v) {
		return nil
	}
	t := &Tree{}
	t.add(f(v))
	switch v := v.(type) {
	case []any:
		for _, e := range v {
			t.add(descend(e, f))
		}
	case map[string]any:
		b := &Tree{Bag: true}
		for _, e := range v {
			b.add(descend(e, f))
		}
		t.add(b)
	}
	return t
}

func (ev *Eval) step(st *Step, t *Tree) *Tree {
	switch st.Op {
	case paths.OpRoot:
		return t
	case paths.OpMember, paths.OpSelect, paths.OpUnion:
		var sels []*sel
		for _, a := range st.Args {
			sels = append(sels, ev.selector(a, nil, true))
		}
		if ev.Failed || ev.Open {
			return nil
		}
		return each(t, func(v any) *Tree { return pick(v, sels, st.Op != paths.OpMember) })
	case paths.OpWild:
		return each(t, children)
	case paths.OpFilter:
		return each(t, func(v any) *Tree {
			return each(children(v), func(v any) *Tree { return ev.keep(st, v) })
		})
	case paths.OpNestMember, paths.OpNestSelect, paths.OpNestUnion:
		return each(t, func(v any) *Tree {
			return descend(v, func(v any) *Tree {
				var sels []*sel
				for _, a := range st.Args {
					sels = append(sels, ev.selector(a, v, false))
				}
				if ev.Failed || ev.Open {
					return nil
				}
				return pick(v, sels, st.Op != paths.OpNestMember)
			})
		})
	case paths.OpNestWild:
		return each(t, func(v any) *Tree { return descend(v, children) })
	case paths.OpNestFilter:
		return each(t, func(v any) *Tree {
			return descend(v, func(v any) *Tree { return ev.keep(st, v) })
		})
	}
	panic("ref: step " + st.Op.GoString())
}

func (ev *Eval) keep(st *Step, v any) *Tree {
	if ev.Failed || ev.Open {
		return nil
	}
	if r := ev.Expr(st.Args[0].E, v); !ev.Failed && !ev.Open && Truthy(r) {
		return leaf(v)
	}
	return nil
}

// sel is an evaluated selector: a key, an index or a slice.
type sel struct {
	isKey bool
	key   string
	i     int64
	slice *Arg
}

// selector evaluates an argument; nil selects nothing.
func (ev *Eval) selector(a *Arg, dot any, noDot bool) *sel {
	if ev.Failed || ev.Open {
		return nil
	}
	switch a.Kind {
	case AInt:
		return &sel{i: a.I}
	case AName, AString:
		return &sel{isKey: true, key: a.S}
	case ASlice:
		for _, p := range a.Slice {
			if p != nil && p.Kind == AExpr {
				ev.Open = true
			}
		}
		return &sel{slice: a}
	}
	if noDot && usesDot(a.E) {
		ev.Open = true
		return nil
	}
	switch v := ev.Expr(a.E, dot).(type) {
	case missing:
		return nil
	case string:
		return &sel{isKey: true, key: v}
	case int64:
		return &sel{i: v}
	case float64:
		if !(v > -(1<<53) && v < 1<<53) {
			ev.Open = true
			return nil
		}
		return &sel{i: int64(v)}
	}
	if !ev.Failed {
		ev.Open = true
	}
	return nil
}

func usesDot(e *Expr) bool {
	if e.Op == paths.OpCurrent {
		return true
	}
	for _, k := range e.Kids {
		if usesDot(k) {
			return true
		}
	}
	return false
}

// pick selects from v.
func pick(v any, sels []*sel, fromEnd bool) *Tree {
	t := &Tree{}
	for _, s := range sels {
		if s == nil {
			continue
		}
		switch v := v.(type) {
		case []any:
			if s.slice != nil {
				for _, i := range PySlice(int64(len(v)), s.slice.bounds()) {
					t.Kids = append(t.Kids, leaf(v[i]))
				}
				continue
			}
			if s.isKey {
				continue
			}
			n := int64(len(v))
			i := s.i
			if fromEnd && i < 0 && i >= -n {
				i += n
			}
			if i >= 0 && i < n {
				t.Kids = append(t.Kids, leaf(v[i]))
			}
		case map[string]any:
			if s.slice != nil {
				continue
			}
			k := s.key
			if !s.isKey {
				k = strconv.FormatInt(s.i, 10)
			}
			if m, ok := v[k]; ok {
				t.Kids = append(t.Kids, leaf(m))
			}
		}
	}
	return t
}

// Bounds are the parts of a slice, absent or not.
type Bounds struct {
	Start, End, Stride          int64
	HasStart, HasEnd, HasStride bool
}

func (a *Arg) bounds() *Bounds {
	b := &Bounds{}
	if p := a.Slice[0]; p != nil {
		b.Start, b.HasStart = p.I, true
	}
	if p := a.Slice[1]; p != nil {
		b.End, b.HasEnd = p.I, true
	}
	if p := a.Slice[2]; p != nil {
		b.Stride, b.HasStride = p.I, true
	}
	return b
}

// PySlice gives the indices of a slice of n elements.
func PySlice(n int64, b *Bounds) []int64 {
	stride := int64(1)
	if b.HasStride {
		stride = b.Stride
	}
	var is []int64
	switch {
	case stride > 0:
		lo, hi := int64(0), n
		if b.HasStart {
			lo = clamp(b.Start, n, 0, n)
		}
		if b.HasEnd {
			hi = clamp(b.End, n, 0, n)
		}
		for i := lo; i < hi; {
			is = append(is, i)
			if stride >= hi-i {
				break
			}
			i += stride
		}
	case stride < 0:
		lo, hi := n-1, int64(-1)
		if b.HasStart {
			lo = clamp(b.Start, n, -1, n-1)
		}
		if b.HasEnd {
			hi = clamp(b.End, n, -1, n-1)
		}
		for i := lo; i > hi; {
			is = append(is, i)
			if stride <= hi-i {
				break
			}
			i += stride
		}
	}
	return is
}

func clamp(v, n, lo, hi int64) int64 {
	if v < 0 {
		v += n
		if v < lo {
			return lo
		}
	}
	if v > hi {
		return hi
	}
	return v
}

// ---- expressions

// Truthy is JavaScript's conversion to boolean.
func Truthy(v any) bool {
	switch v := v.(type) {
	case nil, missing:
		return false
	case bool:
		return v
	case int64:
		return v != 0
	case float64:
		return v != 0 && v == v
	case string:
		return len(v) > 0
	}
	return true
}

// Expr evaluates e with @ as dot.
func (ev *Eval) Expr(e *Expr, dot any) any {
	if ev.Failed || ev.Open {
		return Missing
	}
	switch e.Op {
	case paths.OpInt:
		return e.I
	case paths.OpReal:
		if e.Real != nil {
			f, err := strconv.ParseFloat(e.Real.Text, 64)
			if err != nil {
				ev.Open = true
			}
			return f
		}
		return e.F
	case paths.OpBool:
		return e.B
	case paths.OpNull:
		return nil
	case paths.OpString:
		return e.S
	case paths.OpRE:
		return Pattern(e.S)
	case paths.OpRoot:
		return ev.Root
	case paths.OpCurrent:
		return dot
	case paths.OpArray:
		a := make([]any, 0, len(e.Kids))
		for _, k := range e.Kids {
			a = append(a, ev.Expr(k, dot))
		}
		return a
	case paths.OpDot:
		return ev.dot(ev.Expr(e.Kids[0], dot), e.Kids[1].S)
	case paths.OpCall:
		var args []any
		for _, k := range e.Kids[1:] {
			args = append(args, ev.Expr(k, dot))
		}
		if ev.Failed || ev.Open {
			return Missing
		}
		return ev.Call(e.Kids[0].S, args)
	case paths.OpNeg, paths.OpNot:
		a := ev.Expr(e.Kids[0], dot)
		if ev.Failed || ev.Open {
			return Missing
		}
		return ev.Unary(e.Op, a)
	}
	if len(e.Kids) != 2 {
		// identifiers have no meaning of their own
		ev.Open = true
		return Missing
	}
	a := ev.Expr(e.Kids[0], dot)
	b := ev.Expr(e.Kids[1], dot)
	if ev.Failed || ev.Open {
		return Missing
	}
	return ev.Binary(e.Op, a, b)
}

func (ev *Eval) dot(v any, name string) any {
	if ev.Failed || ev.Open {
		return Missing
	}
	if name == "length" {
		switch v := v.(type) {
		case string:
			return int64(utf8.RuneCountInString(v))
		case []any:
			return int64(len(v))
		case map[string]any:
			return int64(len(v))
		}
		return Missing
	}
	if m, ok := v.(map[string]any); ok {
		if r, ok := m[name]; ok {
			return r
		}
	}
	return Missing
}

// Unary applies - or !.
func (ev *Eval) Unary(op paths.Op, a any) any {
	if op == paths.OpNot {
		return !Truthy(a)
	}
	switch a := a.(type) {
	case missing:
		return Missing
	case int64:
		return -a
	case float64:
		return -a
	case bool:
		return -int01(a)
	}
	ev.Open = true
	return Missing
}

func int01(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// num is a number or boolean as a number.
func num(v any) (i int64, f float64, isInt, ok bool) {
	switch v := v.(type) {
	case int64:
		return v, float64(v), true, true
	case bool:
		return int01(v), float64(int01(v)), true, true
	case float64:
		return 0, v, false, true
	}
	return 0, 0, false, false
}

// Binary applies a binary operator.
func (ev *Eval) Binary(op paths.Op, a, b any) any {
	switch op {
	case paths.OpOr:
		if Truthy(a) {
			return a
		}
		return b
	case paths.OpAnd:
		if !Truthy(a) {
			return a
		}
		return b
	case paths.OpEQ:
		return ev.Equal(a, b)
	case paths.OpNE:
		return !ev.Equal(a, b)
	}
	if IsMissing(a) || IsMissing(b) {
		return Missing
	}
	switch op {
	case paths.OpIndex:
		return ev.index(a, b)
	case paths.OpAdd, paths.OpSub, paths.OpMul, paths.OpDiv, paths.OpMod:
		return Arith(op, a, b)
	case paths.OpLT:
		return Less(a, b, false)
	case paths.OpGT:
		return Less(b, a, false)
	case paths.OpLE:
		return Less(a, b, true)
	case paths.OpGE:
		return Less(b, a, true)
	case paths.OpIn, paths.OpNin:
		l, ok := b.([]any)
		if !ok {
			ev.Failed = true
			return Missing
		}
		for _, x := range l {
			eq := ev.Equal(x, a)
			if ev.Open {
				return Missing
			}
			if eq {
				return op == paths.OpIn
			}
		}
		return op == paths.OpNin
	case paths.OpMatch:
		var re *regexp.Regexp
		var err error
		switch b := b.(type) {
		case Pattern:
			re, err = regexp.Compile(string(b))
		case string:
			re, err = regexp.Compile(b)
		default:
			ev.Failed = true
			return Missing
		}
		s, ok := a.(string)
		if !ok || err != nil {
			ev.Failed = true
			return Missing
		}
		return re.MatchString(s)
	}
	panic("ref: operator " + op.GoString())
}

// index is a[b] in an expression.
func (ev *Eval) index(a, b any) any {
	var i int64
	isKey := false
	key := ""
	switch b := b.(type) {
	case int64:
		i = b
	case float64:
		if !(b > -(1<<53) && b < 1<<53) {
			ev.Open = true
			return Missing
		}
		i = int64(b)
	case string:
		isKey, key = true, b
	default:
		ev.Open = true
		return Missing
	}
	switch a := a.(type) {
	case []any:
		if isKey {
			ev.Open = true
			return Missing
		}
		n := int64(len(a))
		if i < 0 && i >= -n {
			i += n
		}
		if i < 0 || i >= n {
			return Missing
		}
		return a[i]
	case map[string]any:
		if !isKey {
			key = strconv.FormatInt(i, 10)
		}
		if v, ok := a[key]; ok {
			return v
		}
	}
	return Missing
}

// Arith is an arithmetic operator on operands that are not missing.
func Arith(op paths.Op, a, b any) any {
	i, f, ia, ok := num(a)
	j, g, ib, ok2 := num(b)
	if !ok || !ok2 {
		return Missing
	}
	if ia && ib {
		switch op {
		case paths.OpAdd:
			return i + j
		case paths.OpSub:
			return i - j
		case paths.OpMul:
			return i * j
		}
		if j == 0 {
			return Missing
		}
		if op == paths.OpDiv {
			return i / j
		}
		return i % j
	}
	switch op {
	case paths.OpAdd:
		return f + g
	case paths.OpSub:
		return f - g
	case paths.OpMul:
		return f * g
	}
	if g == 0 {
		return Missing
	}
	if op == paths.OpDiv {
		return f / g
	}
	return math.Mod(f, g)
}

// Less is a < b, or a <= b, of operands that are not missing.
func Less(a, b any, eq bool) bool {
	s, ok := a.(string)
	t, ok2 := b.(string)
	if ok && ok2 {
		if eq {
			return !(t < s)
		}
		return s < t
	}
	i, f, ia, ok := num(a)
	j, g, ib, ok2 := num(b)
	if !ok || !ok2 {
		return false
	}
	if ia && ib {
		return i < j || eq && i == j
	}
	return f < g || eq && f == g
}

// Equal is a == b.
func (ev *Eval) Equal(a, b any) bool {
	if a == nil || IsMissing(a) {
		return b == nil || IsMissing(b)
	}
	if b == nil || IsMissing(b) {
		return false
	}
	switch x := a.(type) {
	case []any:
		y, ok := b.([]any)
		if !ok {
			return !structure(b) && ev.arrayEqual(x, b)
		}
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if !ev.Equal(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		// an unsettled member does not matter if another differs
		eq, open := true, false
		for k, v := range x {
			w, ok := y[k]
			if !ok {
				return false
			}
			e := &Eval{}
			r := e.Equal(v, w)
			open = open || e.Open
			if !r && !e.Open {
				eq = false
			}
		}
		if !eq {
			return false
		}
		ev.Open = ev.Open || open
		return !open
	case Pattern:
		ev.Open = true
		return false
	}
	if structure(b) {
		y, ok := b.([]any)
		return ok && ev.arrayEqual(y, a)
	}
	if _, ok := b.(Pattern); ok {
		ev.Open = true
		return false
	}
	s, sa := a.(string)
	t, sb := b.(string)
	switch {
	case sa && sb:
		return s == t
	case sa:
		return ev.eqText(s, b)
	case sb:
		return ev.eqText(t, a)
	}
	return eqNum(a, b)
}

// eqText compares a number or boolean with a string as a number.
func (ev *Eval) eqText(s string, b any) bool {
	n := ev.toNumber(s)
	if i, ok := b.(int64); ok && (i >= 1<<53 || i <= -1<<53) {
		if f, ok := n.(float64); ok && (f >= 1<<53 || f <= -1<<53) {
			ev.Open = true // integers are exact here, but not in JavaScript
		}
	}
	return eqNum(n, b)
}

// arrayEqual is a == b where b is a string, number or boolean: JavaScript takes the array as a string.
func (ev *Eval) arrayEqual(a []any, b any) bool {
	if _, ok := b.(Pattern); ok {
		ev.Open = true
		return false
	}
	for len(a) == 1 {
		e, ok := a[0].([]any)
		if !ok {
			break
		}
		a = e
	}
	if len(a) > 1 {
		return false // here JavaScript has it equal to the joined string
	}
	if len(a) == 0 || a[0] == nil || IsMissing(a[0]) {
		return ev.Equal("", b)
	}
	s, str := b.(string)
	switch e := a[0].(type) {
	case string:
		return ev.Equal(e, b)
	case bool:
		// JavaScript has "true" and "false" for it, and so NaN
		ev.Open = ev.Open || !str
		return str && (e && s == "true" || !e && s == "false")
	case map[string]any:
		ev.Open = ev.Open || str && s == "[object Object]"
		return false
	case Pattern:
		ev.Open = true
		return false
	}
	if str {
		return s == numText(a[0])
	}
	return eqNum(a[0], b)
}

// numText is a number as JavaScript writes it.
func numText(v any) string {
	i, f, isInt, _ := num(v)
	if isInt {
		return strconv.FormatInt(i, 10)
	}
	if math.IsInf(f, 0) {
		if f < 0 {
			return "-Infinity"
		}
		return "Infinity"
	}
	if f != f {
		return "NaN"
	}
	if f == 0 {
		return "0"
	}
	if f >= 1e21 || f <= -1e21 || f < 1e-6 && f > -1e-6 {
		t := strconv.FormatFloat(f, 'e', -1, 64)
		n := len(t)
		if t[n-2] == '0' && (t[n-3] == '+' || t[n-3] == '-') {
			t = t[:n-2] + t[n-1:]
		}
		return t
	}
	return strconv.FormatFloat(f, 'f', -1, 64)
}

// eqNum compares numbers and booleans; a Missing one is NaN.
func eqNum(a, b any) bool {
	i, f, ia, ok := num(a)
	j, g, ib, ok2 := num(b)
	if !ok || !ok2 {
		return false
	}
	if ia && ib {
		return i == j
	}
	return f == g
}

// toNumber is JavaScript's conversion of a string to a number. Missing is NaN.
func (ev *Eval) toNumber(s string) any {
	for n := 1; n > 0; {
		n = 0
		if len(s) > 0 && blank(s[0]) {
			n = 1
		} else if len(s) >= 2 && s[0] >= 0x80 {
			n = wideBlank(s[:min(len(s), 3)], false)
		}
		s = s[n:]
	}
	for n := 1; n > 0; {
		n = 0
		if len(s) > 0 && blank(s[len(s)-1]) {
			n = 1
		} else if len(s) >= 2 && s[len(s)-1] >= 0x80 {
			n = wideBlank(s[max(0, len(s)-3):], true)
		}
		s = s[:len(s)-n]
	}
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return Missing
		}
	}
	if len(s) == 0 {
		return int64(0)
	}
	if len(s) >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') {
		if len(s) == 2 {
			return Missing
		}
		for i := 2; i < len(s); i++ {
			if hexDigit(s[i]) < 0 {
				return Missing
			}
		}
		s = s[2:]
		for len(s) > 0 && s[0] == '0' {
			s = s[1:]
		}
		n := uint64(0)
		for i := 0; i < len(s); i++ {
			d := uint64(hexDigit(s[i]))
			switch {
			case i < 16:
				n = n*16 + d
			case d != 0:
				n |= 1 // only for rounding
			}
		}
		if len(s) > 16 {
			return math.Ldexp(float64(n), 4*(len(s)-16))
		}
		return float64(n)
	}
	neg := s[0] == '-'
	if neg || s[0] == '+' {
		s = s[1:]
	}
	if s == "Infinity" {
		if neg {
			return math.Inf(-1)
		}
		return math.Inf(1)
	}
	v, ok := ev.Decimal(s)
	if !ok {
		return Missing
	}
	if neg {
		return -v
	}
	return v
}

func hexDigit(c byte) int64 {
	switch {
	case c >= '0' && c <= '9':
		return int64(c - '0')
	case c >= 'a' && c <= 'f':
		return int64(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int64(c-'A') + 10
	}
	return -1
}

func blank(c byte) bool { return c == ' ' || c >= '\t' && c <= '\r' }

// wideBlank is the length of the white space or line end beyond ASCII that s starts (or ends) with, or 0.
func wideBlank(s string, end bool) int {
	t := s
	if end {
		t = s[max(0, len(s)-2):]
	}
	if len(t) >= 2 && t[0] == 0xc2 && t[1] == 0xa0 {
		return 2
	}
	if len(s) < 3 {
		return 0
	}
	switch s[0] {
	case 0xe1:
		if s[1] == 0x9a && s[2] == 0x80 {
			return 3
		}
	case 0xe2:
		c := s[2]
		if s[1] == 0x80 && (c >= 0x80 && c <= 0x8a || c == 0xa8 || c == 0xa9 || c == 0xaf) || s[1] == 0x81 && c == 0x9f {
			return 3
		}
	case 0xe3:
		if s[1] == 0x80 && s[2] == 0x80 {
			return 3
		}
	case 0xef:
		if s[1] == 0xbb && s[2] == 0xbf {
			return 3
		}
	}
	return 0
}

// Decimal is the value of digits [. digits] [e [+-] digits].
func (ev *Eval) Decimal(s string) (float64, bool) {
	r := &Real{}
	i := 0
	for i < len(s) && digit(int(s[i])) {
		i++
	}
	r.Int = s[:i]
	if i < len(s) && s[i] == '.' {
		j := i + 1
		for i++; i < len(s) && digit(int(s[i])); i++ {
		}
		r.Frac = s[j:i]
	}
	if len(r.Int)+len(r.Frac) == 0 {
		return 0, false
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		i++
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			r.ENeg = s[i] == '-'
			i++
		}
		j := i
		for i < len(s) && digit(int(s[i])) {
			i++
		}
		if i == j {
			return 0, false
		}
		r.Exp = s[j:i]
	}
	if i < len(s) {
		return 0, false
	}
	m, e, ok := r.Exact()
	if !ok {
		if m == 0 && len(r.Int)+len(r.Frac) <= 15 && isZero(r.Int) && isZero(r.Frac) {
			return 0, true
		}
		if len(s) > 6 {
			// no symbolic bytes
			f, err := strconv.ParseFloat(s, 64)
			return f, err == nil || math.IsInf(f, 0)
		}
		ev.Open = true
		return 0, false
	}
	v := float64(m)
	if e >= 0 {
		return v * pow10[e], true
	}
	return v / pow10[-e], true
}

func isZero(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] != '0' {
			return false
		}
	}
	return true
}
