package exec

import (
	"regexp"
	"regexp/syntax"

	"symgo/smt"
)

// concretizeStr gives s a concrete value, forking over its possible values.
func (ex *Exec) concretizeStr(v Value, why string) string {
	if s, ok := concStr(v); ok {
		return s
	}
	bs := ex.strBytes(v)
	r := make([]byte, len(bs))
	for i, b := range bs {
		r[i] = byte(ex.concretize(b, why))
	}
	return string(r)
}

func (ex *Exec) newRegexp(re *regexp.Regexp) Value {
	o := ex.newObj(1)
	o.native = re
	return Value{P: o}
}

func (ex *Exec) regexpOf(v Value) *regexp.Regexp {
	o, ok := v.P.(*Obj)
	if !ok || o == nil {
		ex.nilDeref()
	}
	re, ok := o.native.(*regexp.Regexp)
	if !ok {
		ex.unsupported("regexp value without program")
	}
	if ex.path.race {
		ex.raceRead(o, 0)
	}
	return re
}

// matchTerm tells whether re matches somewhere in the ASCII text bs.
func (ex *Exec) matchTerm(re *regexp.Regexp, bs []*smt.Term) *smt.Term {
	m := ex.M
	for _, b := range bs {
		if !ex.branch(m.Cmp(smt.OUlt, b, m.Const(8, 0x80))) {
			ex.unsupported("regular expression on symbolic non-ASCII text")
		}
	}
	st, err := syntax.Parse(re.String(), syntax.Perl)
	if err != nil {
		ex.unsupported("regexp syntax")
	}
	prog, err := syntax.Compile(st.Simplify())
	if err != nil {
		ex.unsupported("regexp compile")
	}
	n := len(bs)
	word := func(i int) *smt.Term {
		if i < 0 || i >= n {
			return m.False
		}
		return ex.inSet(bs[i], []byte("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"))
	}
	is := func(i int, c byte) *smt.Term { return m.Eq(bs[i], m.Const(8, uint64(c))) }
	empty := func(e syntax.EmptyOp, i int) *smt.Term {
		r := m.True
		if e&syntax.EmptyBeginText != 0 && i != 0 {
			return m.False
		}
		if e&syntax.EmptyEndText != 0 && i != n {
			return m.False
		}
		if e&syntax.EmptyBeginLine != 0 && i != 0 {
			r = m.And(r, is(i-1, '\n'))
		}
		if e&syntax.EmptyEndLine != 0 && i != n {
			r = m.And(r, is(i, '\n'))
		}
		if e&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
			w := m.Not(m.Eq(word(i-1), word(i)))
			if e&syntax.EmptyWordBoundary != 0 {
				r = m.And(r, w)
			}
			if e&syntax.EmptyNoWordBoundary != 0 {
				r = m.And(r, m.Not(w))
			}
		}
		return r
	}
	match := m.False
	cur := make([]*smt.Term, len(prog.Inst))
	for i := range cur {
		cur[i] = m.False
	}
	for i := 0; i <= n; i++ {
		next := make([]*smt.Term, len(prog.Inst))
		for k := range next {
			next[k] = m.False
		}
		// closure over empty transitions: iterate to a fixed point over paths without repetition
		var add func(pc uint32, c *smt.Term, on map[uint32]bool)
		act := make([]*smt.Term, len(prog.Inst))
		for k := range act {
			act[k] = m.False
		}
		add = func(pc uint32, c *smt.Term, on map[uint32]bool) {
			if c.IsFalse() || on[pc] {
				return
			}
			on[pc] = true
			defer delete(on, pc)
			in := &prog.Inst[pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				add(in.Out, c, on)
				add(in.Arg, c, on)
			case syntax.InstCapture, syntax.InstNop:
				add(in.Out, c, on)
			case syntax.InstEmptyWidth:
				add(in.Out, m.And(c, empty(syntax.EmptyOp(in.Arg), i)), on)
			case syntax.InstMatch:
				match = m.Or(match, c)
			case syntax.InstFail:
			default:
				act[pc] = m.Or(act[pc], c)
			}
		}
		for pc, c := range cur {
			add(uint32(pc), c, map[uint32]bool{})
		}
		add(uint32(prog.Start), m.True, map[uint32]bool{})
		if i == n {
			break
		}
		for pc, c := range act {
			if c.IsFalse() {
				continue
			}
			in := &prog.Inst[pc]
			var set []byte
			for b := 0; b < 0x80; b++ {
				if in.MatchRune(rune(b)) {
					set = append(set, byte(b))
				}
			}
			if len(set) == 0 {
				continue
			}
			next[in.Out] = m.Or(next[in.Out], m.And(c, ex.inSet(bs[i], set)))
		}
		cur = next
	}
	return match
}

func initRegexp() {
	compile := func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		ex.noSide()
		re, err := regexp.Compile(ex.concretizeStr(a[0], "regular expression"))
		if err != nil {
			return tuple(Value{}, ex.newError(Value{P: err.Error()})), true
		}
		return tuple(ex.newRegexp(re), Value{}), true
	}
	reg("regexp.Compile", compile)
	reg("regexp.CompilePOSIX", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		ex.unsupported("regexp.CompilePOSIX")
		return Value{}, true
	})
	reg("regexp.MustCompile", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		ex.noSide()
		re, err := regexp.Compile(ex.concretizeStr(a[0], "regular expression"))
		if err != nil {
			ex.goPanicStr("regexp: Compile: " + err.Error())
		}
		return ex.newRegexp(re), true
	})
	matchStr := func(ex *Exec, re *regexp.Regexp, s Value) Value {
		if c, ok := concStr(s); ok {
			return boolV(re.MatchString(c))
		}
		return ex.termV(ex.matchTerm(re, ex.strBytes(s)))
	}
	reg("(*regexp.Regexp).MatchString", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		ex.noSide()
		return matchStr(ex, ex.regexpOf(a[0]), a[1]), true
	})
	reg("(*regexp.Regexp).Match", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		ex.noSide()
		return matchStr(ex, ex.regexpOf(a[0]), ex.bytesToStr(ex.sl(a[1]))), true
	})
	reg("regexp.MatchString", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		ex.noSide()
		re, err := regexp.Compile(ex.concretizeStr(a[0], "regular expression"))
		if err != nil {
			return tuple(Value{}, ex.newError(Value{P: err.Error()})), true
		}
		return tuple(matchStr(ex, re, a[1]), Value{}), true
	})
	reg("regexp.QuoteMeta", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		ex.noSide()
		return Value{P: regexp.QuoteMeta(ex.concretizeStr(a[0], "text"))}, true
	})
	str := func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		return Value{P: ex.regexpOf(a[0]).String()}, true
	}
	reg("(*regexp.Regexp).String", str)
	strs := func(ex *Exec, r []string) Value {
		if r == nil {
			return Value{}
		}
		vs := make([]Value, len(r))
		for i, s := range r {
			vs[i] = Value{P: s}
		}
		return ex.mkSlice(vs)
	}
	ints := func(ex *Exec, r []int) Value {
		if r == nil {
			return Value{}
		}
		vs := make([]Value, len(r))
		for i, s := range r {
			vs[i] = Value{N: uint64(int64(s))}
		}
		return ex.mkSlice(vs)
	}
	M := func(name string, f func(ex *Exec, re *regexp.Regexp, a []Value) Value) {
		reg("(*regexp.Regexp)."+name, func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
			ex.noSide()
			return f(ex, ex.regexpOf(a[0]), a[1:]), true
		})
	}
	M("Split", func(ex *Exec, re *regexp.Regexp, a []Value) Value {
		return strs(ex, re.Split(ex.concretizeStr(a[0], "text"), int(ex.concInt(a[1], 64, "count"))))
	})
	M("FindString", func(ex *Exec, re *regexp.Regexp, a []Value) Value {
		return Value{P: re.FindString(ex.concretizeStr(a[0], "text"))}
	})
	M("FindStringIndex", func(ex *Exec, re *regexp.Regexp, a []Value) Value {
		return ints(ex, re.FindStringIndex(ex.concretizeStr(a[0], "text")))
	})
	M("FindStringSubmatch", func(ex *Exec, re *regexp.Regexp, a []Value) Value {
		return strs(ex, re.FindStringSubmatch(ex.concretizeStr(a[0], "text")))
	})
	M("FindAllString", func(ex *Exec, re *regexp.Regexp, a []Value) Value {
		return strs(ex, re.FindAllString(ex.concretizeStr(a[0], "text"), int(ex.concInt(a[1], 64, "count"))))
	})
	M("ReplaceAllString", func(ex *Exec, re *regexp.Regexp, a []Value) Value {
		return Value{P: re.ReplaceAllString(ex.concretizeStr(a[0], "text"), ex.concretizeStr(a[1], "text"))}
	})
	M("FindAllStringIndex", func(ex *Exec, re *regexp.Regexp, a []Value) Value {
		r := re.FindAllStringIndex(ex.concretizeStr(a[0], "text"), int(ex.concInt(a[1], 64, "count")))
		if r == nil {
			return Value{}
		}
		vs := make([]Value, len(r))
		for i, s := range r {
			vs[i] = ints(ex, s)
		}
		return ex.mkSlice(vs)
	})
	M("NumSubexp", func(ex *Exec, re *regexp.Regexp, a []Value) Value { return Value{N: uint64(re.NumSubexp())} })
	reg("(*regexp.Regexp).Longest", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		ex.noSide()
		re := ex.regexpOf(a[0])
		if ex.path.race {
			ex.raceWrite(a[0].P.(*Obj), 0)
		}
		re.Longest()
		return Value{}, true
	})
}
