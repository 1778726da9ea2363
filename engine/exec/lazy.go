package exec

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"symgo/smt"
)

// JSON kinds
const (
	KNull = 1 << iota
	KBool
	KNum
	KStr
	KArr
	KObj
)

var kindLetters = map[byte]uint8{'n': KNull, 'b': KBool, 'f': KNum, 's': KStr, 'a': KArr, 'o': KObj}

// docSpec bounds a symbolic document.
type docSpec struct {
	depth    int      // containers below this depth
	kinds    uint8    // kinds allowed
	leaf     uint8    // kinds allowed at the bottom
	top      uint8    // kinds of the root
	minLen   int      // shortest array
	maxLen   int      // longest array
	keys     []string // key alphabet of objects
	num      string   // number mode: full, fin, int, small
	nums     []float64
	strLen   int
	strs     []string // string alternatives
	alpha    []byte   // bytes of symbolic strings
	symKeys  bool
	extraCap int
	bottom   *docSpec
}

// parseSpec reads "depth=2 kinds=nbfsao len=3 keys=a,b num=full str=2 alpha=ab strs=x|y".
func parseSpec(s string) (*docSpec, error) {
	d := &docSpec{depth: 1, kinds: KNull | KBool | KNum | KStr | KArr | KObj, maxLen: 2, num: "full", strLen: 1}
	for _, f := range strings.Fields(s) {
		k, v, ok := strings.Cut(f, "=")
		if !ok {
			return nil, fmt.Errorf("bad spec field %q", f)
		}
		ks := func() (m uint8) {
			for i := 0; i < len(v); i++ {
				m |= kindLetters[v[i]]
			}
			return
		}
		switch k {
		case "depth":
			d.depth, _ = strconv.Atoi(v)
		case "kinds":
			d.kinds = ks()
		case "leaf":
			d.leaf = ks()
		case "top":
			d.top = ks()
		case "min":
			d.minLen, _ = strconv.Atoi(v)
		case "len":
			d.maxLen, _ = strconv.Atoi(v)
		case "keys":
			if v != "" {
				d.keys = strings.Split(v, ",")
			}
		case "num":
			d.num = v
			if strings.Contains(v, ",") || d.num != "full" && d.num != "fin" && d.num != "int" && d.num != "small" {
				d.num = "list"
				for _, x := range strings.Split(v, ",") {
					f, err := strconv.ParseFloat(x, 64)
					if err != nil {
						return nil, err
					}
					d.nums = append(d.nums, f)
				}
			}
		case "str":
			d.strLen, _ = strconv.Atoi(v)
		case "alpha":
			d.alpha = []byte(v)
		case "strs":
			for _, x := range strings.Split(v, "|") {
				u, err := strconv.Unquote(`"` + x + `"`)
				if err != nil {
					return nil, err
				}
				d.strs = append(d.strs, u)
			}
		default:
			return nil, fmt.Errorf("bad spec field %q", f)
		}
	}
	if d.leaf == 0 {
		d.leaf = d.kinds &^ (KArr | KObj)
		if d.leaf == 0 {
			d.leaf = KNull
		}
	}
	if d.top == 0 {
		d.top = d.kinds
	}
	return d, nil
}

// Lazy is a JSON value whose kind may not be chosen yet.
type Lazy struct {
	name  string
	mask  uint8
	spec  *docSpec
	depth int // containers still allowed
	val   *Iface
	null  bool
}

type lazyObj struct {
	l       *Lazy
	pending []string // keys whose presence is not chosen
}

func (ex *Exec) newLazy(name string, spec *docSpec, depth int, top bool) Value {
	m := spec.kinds
	if depth <= 0 {
		m = spec.leaf
	} else if top {
		m = spec.top
	}
	l := &Lazy{name: name, mask: m, spec: spec, depth: depth}
	if m&(m-1) == 0 {
		ex.decideKind(l)
	}
	return Value{P: l}
}

// lazyIs tells whether l is of one of the kinds k, choosing if need be.
func (ex *Exec) lazyIs(l *Lazy, k uint8) bool {
	if l.mask&k == 0 {
		return false
	}
	if l.mask&^k == 0 {
		if l.mask&(l.mask-1) == 0 {
			ex.decideKind(l)
		}
		return true
	}
	yes := ex.choose("", 2) == 0
	if yes {
		l.mask &= k
	} else {
		l.mask &^= k
	}
	ex.path.choice[l.name+".kind"] = int64(l.mask & -l.mask)
	if l.mask&(l.mask-1) == 0 {
		ex.decideKind(l)
	}
	return yes
}

// decideKind builds the value once a single kind is left.
func (ex *Exec) decideKind(l *Lazy) {
	if l.val != nil || l.null {
		return
	}
	ex.path.choice[l.name+".kind"] = int64(l.mask)
	switch l.mask {
	case KNull:
		l.null = true
	case KBool:
		l.val = &Iface{ex.rBool, ex.termV(ex.newVar(l.name+".b", smt.SBool))}
	case KNum:
		l.val = &Iface{ex.rFloat, ex.symNum(l.name, l.spec)}
	case KStr:
		l.val = &Iface{ex.rString, ex.symStr(l.name, l.spec)}
	case KArr:
		l.val = &Iface{ex.rArr, Value{P: &Slice{Lz: &lazyArr{l: l}, Es: 1}}}
	case KObj:
		m := ex.newMap(ex.rString.T)
		m.doc = true
		m.Lz = &lazyObj{l: l, pending: append([]string(nil), l.spec.keys...)}
		l.val = &Iface{ex.rObj, Value{P: m}}
	}
}

// lazyForce chooses the kind completely; nil is null.
func (ex *Exec) lazyForce(l *Lazy) *Iface {
	if l.val == nil && !l.null {
		var ks []uint8
		for k := uint8(1); k != 0; k <<= 1 {
			if l.mask&k != 0 {
				ks = append(ks, k)
			}
		}
		l.mask = ks[ex.choose("", len(ks))]
		ex.decideKind(l)
	}
	return l.val
}

func (ex *Exec) symNum(name string, s *docSpec) Value {
	m := ex.M
	switch s.num {
	case "list":
		i := ex.choose(name+".n", len(s.nums))
		return Value{N: math.Float64bits(s.nums[i])}
	case "small":
		// small integers as doubles
		v := ex.newVar(name+".i", 8)
		ex.assume(m.And(m.Cmp(smt.OSle, m.Const(8, 0xF8), v), m.Cmp(smt.OSle, v, m.Const(8, 8))))
		return ex.termV(m.F(smt.OFFromSBV, m.Ext(v, 64, true), nil, 0))
	case "int":
		v := ex.newVar(name+".i", 32)
		return ex.termV(m.F(smt.OFFromSBV, m.Ext(v, 64, true), nil, 0))
	}
	v := ex.newVar(name+".n", 64)
	f := m.F(smt.OFFromBits, v, nil, 0)
	// JSON numbers are finite: the exponent is not all ones
	e := m.Bin(smt.OBAnd, v, m.Const(64, 0x7FF0000000000000))
	ex.assume(m.Not(m.Eq(e, m.Const(64, 0x7FF0000000000000))))
	ex.M.Vars[v.K].Finite = true
	ex.M.DomChanged()
	return ex.termV(f)
}

// inSet says that byte t is one of set.
func (ex *Exec) inSet(t *smt.Term, set []byte) *smt.Term {
	b := append([]byte(nil), set...)
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	m := ex.M
	r := m.False
	for i := 0; i < len(b); {
		j := i
		for j+1 < len(b) && b[j+1] <= b[j]+1 {
			j++
		}
		r = m.Or(r, m.And(m.Cmp(smt.OUle, m.Const(8, uint64(b[i])), t), m.Cmp(smt.OUle, t, m.Const(8, uint64(b[j])))))
		i = j + 1
	}
	return r
}

func (ex *Exec) symBytes(name string, n int, alpha []byte) []*smt.Term {
	bs := make([]*smt.Term, n)
	for i := range bs {
		bs[i] = ex.newVar(name+"["+strconv.Itoa(i)+"]", 8)
		if alpha != nil {
			ex.assume(ex.inSet(bs[i], alpha))
		} else {
			ex.assume(ex.M.Cmp(smt.OUlt, bs[i], ex.M.Const(8, 0x80)))
		}
	}
	return bs
}

func (ex *Exec) symStr(name string, s *docSpec) Value {
	if s.strs != nil {
		return Value{P: s.strs[ex.choose(name+".s", len(s.strs))]}
	}
	n := ex.choose(name+".len", s.strLen+1)
	return ex.mkStr(ex.symBytes(name, n, s.alpha))
}

// sl gives the slice of a slice value, choosing the length of a lazy one.
func (ex *Exec) sl(v Value) *Slice {
	switch s := v.P.(type) {
	case nil:
		return nil
	case *Slice:
		if s.Lz == nil {
			return s
		}
		if s.Lz.fixed == nil {
			l := s.Lz.l
			n := l.spec.minLen + ex.choose(l.name+".len", l.spec.maxLen-l.spec.minLen+1)
			ex.path.choice[l.name+".len"] = int64(n)
			o := ex.newObj(n)
			o.doc = true
			o.name = "document"
			for i := range o.slots {
				o.slots[i] = ex.newLazy(l.name+"["+strconv.Itoa(i)+"]", l.spec, l.depth-1, false)
			}
			s.Lz.fixed = &Slice{O: o, Len: n, Cap: n, Es: 1}
		}
		return s.Lz.fixed
	}
	panic(fmt.Sprintf("sl: %T", v.P))
}

// lazyKey chooses whether key k is present.
func (ex *Exec) lazyKey(m *MapObj, k string) {
	lo := m.Lz
	for i, p := range lo.pending {
		if p != k {
			continue
		}
		name := lo.l.name + "." + k
		there := ex.choose(name+".in", 2) == 0
		lo.pending = append(append([]string(nil), lo.pending[:i]...), lo.pending[i+1:]...)
		if there {
			e := &MapEnt{K: Value{P: k}, V: ex.newLazy(name, lo.l.spec, lo.l.depth-1, false), key: k, isc: true}
			// keep the order of the alphabet
			pos := len(m.ents)
			for pos > 0 && ex.keyPos(lo.l.spec, m.ents[pos-1].key) > ex.keyPos(lo.l.spec, k) {
				pos--
			}
			m.ents = append(m.ents, nil)
			copy(m.ents[pos+1:], m.ents[pos:])
			m.ents[pos] = e
			m.idx[k] = e
			m.count++
		}
		return
	}
}

func (ex *Exec) keyPos(s *docSpec, k string) int {
	for i, x := range s.keys {
		if x == k {
			return i
		}
	}
	return len(s.keys)
}

func (ex *Exec) lazyFind(m *MapObj, k Value) {
	if s, ok := concStr(k); ok {
		ex.lazyKey(m, s)
		return
	}
	for _, p := range append([]string(nil), m.Lz.pending...) {
		if ex.branch(ex.strEq(k, Value{P: p})) {
			ex.lazyKey(m, p)
			return
		}
	}
}

func (ex *Exec) lazyAll(m *MapObj) {
	if m.Lz == nil {
		return
	}
	for len(m.Lz.pending) > 0 {
		ex.lazyKey(m, m.Lz.pending[0])
	}
}

// sameVal is exact equality of JSON values (kind, bits of doubles up to NaN, order).
func (ex *Exec) sameVal(a, b Value) *smt.Term {
	m := ex.M
	if a.P == b.P {
		if a.P == nil {
			return m.True
		}
		if _, ok := a.P.(*Lazy); ok {
			return m.True
		}
	}
	x, y := ex.force(a), ex.force(b)
	if x == nil || y == nil {
		return m.Bool(x == y)
	}
	if x == y {
		return m.True
	}
	if x.T != y.T {
		return m.False
	}
	switch x.T {
	case ex.rFloat:
		return m.Eq(ex.term(x.V, smt.SF64), ex.term(y.V, smt.SF64))
	case ex.rArr:
		p, _ := x.V.P.(*Slice)
		q, _ := y.V.P.(*Slice)
		if p == q || p != nil && q != nil && p.Lz != nil && p.Lz == q.Lz {
			return m.True
		}
		p, q = ex.sl(x.V), ex.sl(y.V)
		if p == nil || q == nil {
			return m.Bool((p == nil || p.Len == 0) && (q == nil || q.Len == 0))
		}
		if p.Ident != nil || q.Ident != nil {
			return m.Bool(p.Ident == q.Ident)
		}
		if p.Len != q.Len {
			return m.False
		}
		if p.O == q.O && p.Off == q.Off {
			return m.True
		}
		r := m.True
		for i := 0; i < p.Len; i++ {
			r = m.And(r, ex.sameVal(p.O.slots[p.Off+i], q.O.slots[q.Off+i]))
			if r.IsFalse() {
				return r
			}
		}
		return r
	case ex.rObj:
		p, _ := x.V.P.(*MapObj)
		q, _ := y.V.P.(*MapObj)
		if p == q {
			return m.True
		}
		if ex.mapLen(p) != ex.mapLen(q) {
			return m.False
		}
		r := m.True
		if p != nil {
			for _, e := range p.ents {
				v, ok := ex.mapGet(q, e.K, ex.rString.T)
				if !ok {
					return m.False
				}
				r = m.And(r, ex.sameVal(e.V, v))
			}
		}
		return r
	}
	return ex.eqTerm(x.T.T, x.V, y.V)
}
