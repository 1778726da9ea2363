package exec

import (
	"math"

	"symgo/smt"
)

const symPkg = "verifharness/sym."

// frozen marks what v reaches as document.
func (ex *Exec) freeze(v Value, seen map[any]bool) {
	switch p := v.P.(type) {
	case *Iface:
		ex.freeze(p.V, seen)
	case *Lazy:
		if p.val != nil {
			ex.freeze(p.val.V, seen)
		}
	case *Slice:
		if p.Lz != nil {
			if p.Lz.fixed != nil {
				ex.freeze(Value{P: p.Lz.fixed}, seen)
			}
			return
		}
		if p.O == nil || seen[p.O] || p.O.base {
			return
		}
		seen[p.O] = true
		p.O.doc = true
		if p.O.name == "" {
			p.O.name = "document"
		}
		for i := 0; i < p.Len*p.Es; i++ {
			ex.freeze(p.O.slots[p.Off+i], seen)
		}
	case *MapObj:
		if p == nil || seen[p] || p.base {
			return
		}
		seen[p] = true
		p.doc = true
		for _, e := range p.ents {
			ex.freeze(e.V, seen)
		}
	}
}

func initSym() {
	S := func(name string, f func(ex *Exec, g *Gor, a []Value) Value) {
		reg(symPkg+name, func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
			ex.noSide()
			return f(ex, g, a), true
		})
	}
	name := func(ex *Exec, v Value) string { return ex.mustStr(v, "variable name") }
	reg("verifharness/env.unsupported", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		ex.unsupported("%s", ex.mustStr(a[0], "reason"))
		return Value{}, true
	})
	S("Byte", func(ex *Exec, g *Gor, a []Value) Value { return ex.termV(ex.newVar(name(ex, a[0]), 8)) })
	S("ByteIn", func(ex *Exec, g *Gor, a []Value) Value {
		t := ex.newVar(name(ex, a[0]), 8)
		ex.assume(ex.inSet(t, []byte(ex.mustStr(a[1], "byte set"))))
		return ex.termV(t)
	})
	S("String", func(ex *Exec, g *Gor, a []Value) Value {
		n := int(ex.concInt(a[1], 64, "length"))
		al := []byte(ex.mustStr(a[2], "byte set"))
		nm := name(ex, a[0])
		if len(al) == 0 {
			bs := make([]*smt.Term, n)
			for i := range bs {
				bs[i] = ex.newVar(nm+"["+itoa(i)+"]", 8)
			}
			return ex.mkStr(bs)
		}
		return ex.mkStr(ex.symBytes(nm, n, al))
	})
	S("Int64", func(ex *Exec, g *Gor, a []Value) Value { return ex.termV(ex.newVar(name(ex, a[0]), 64)) })
	S("IntIn", func(ex *Exec, g *Gor, a []Value) Value {
		t := ex.newVar(name(ex, a[0]), 64)
		m := ex.M
		ex.assume(m.Cmp(smt.OSle, ex.term(a[1], 64), t))
		ex.assume(m.Cmp(smt.OSle, t, ex.term(a[2], 64)))
		return ex.termV(t)
	})
	S("Bool", func(ex *Exec, g *Gor, a []Value) Value { return ex.termV(ex.newVar(name(ex, a[0]), smt.SBool)) })
	S("Float", func(ex *Exec, g *Gor, a []Value) Value {
		sp, err := parseSpec("num=" + ex.mustStr(a[1], "mode"))
		if err != nil {
			ex.unsupported("number mode: %v", err)
		}
		return ex.symNum(name(ex, a[0]), sp)
	})
	S("Choose", func(ex *Exec, g *Gor, a []Value) Value {
		n := int(ex.concInt(a[1], 64, "alternatives"))
		if n <= 0 {
			panic(pathEnd{endInfeasible})
		}
		return Value{N: uint64(ex.choose(name(ex, a[0]), n))}
	})
	S("Doc", func(ex *Exec, g *Gor, a []Value) Value {
		sp, err := parseSpec(ex.mustStr(a[1], "document bounds"))
		if err != nil {
			ex.unsupported("document bounds: %v", err)
		}
		return ex.newLazy(name(ex, a[0]), sp, sp.depth, true)
	})
	S("Ident", func(ex *Exec, g *Gor, a []Value) Value {
		t := ex.newVar(name(ex, a[0]), 64)
		m := ex.M
		ex.assume(m.Cmp(smt.OUle, t, ex.term(a[1], 64)))
		return Value{P: &Slice{Ident: &IdentArr{Len: t}, Es: 1}}
	})
	S("Assume", func(ex *Exec, g *Gor, a []Value) Value {
		ex.assume(ex.term(a[0], smt.SBool))
		return Value{}
	})
	S("Assert", func(ex *Exec, g *Gor, a []Value) Value {
		ex.assert(ex.term(a[0], smt.SBool), ex.mustStr(a[1], "label"))
		return Value{}
	})
	S("Fail", func(ex *Exec, g *Gor, a []Value) Value {
		ex.stats.Asserts++
		l := ex.mustStr(a[0], "label")
		ex.stats.Labels[l]++
		ex.violation(l, "", nil)
		return Value{}
	})
	S("Reach", func(ex *Exec, g *Gor, a []Value) Value {
		l := ex.mustStr(a[0], "label")
		ex.stats.Reached[l]++
		ex.path.reached = append(ex.path.reached, l)
		return Value{}
	})
	S("Note", func(ex *Exec, g *Gor, a []Value) Value { return Value{} })
	S("Freeze", func(ex *Exec, g *Gor, a []Value) Value {
		ex.freeze(a[0], map[any]bool{})
		ex.path.frozen = true
		return Value{}
	})
	S("CheckFrozen", func(ex *Exec, g *Gor, a []Value) Value {
		ex.stats.Asserts++
		ex.stats.Labels["document unchanged"]++
		return Value{}
	})
	S("Goroutines", func(ex *Exec, g *Gor, a []Value) Value { return Value{N: uint64(ex.liveGors() - 1)} })
	S("Settle", func(ex *Exec, g *Gor, a []Value) Value {
		if g.noSwitch > 0 {
			ex.unsupported("Settle inside a synchronous call")
		}
		g.parked = true
		return Value{}
	})
	S("Same", func(ex *Exec, g *Gor, a []Value) Value { return ex.termV(ex.sameVal(a[0], a[1])) })
	S("Race", func(ex *Exec, g *Gor, a []Value) Value {
		ex.path.race = a[0].N != 0
		return Value{}
	})
	S("Sched", func(ex *Exec, g *Gor, a []Value) Value {
		ex.path.sched = true
		ex.path.preempt = int(ex.concInt(a[0], 64, "preemptions"))
		return Value{}
	})
	S("Permute", func(ex *Exec, g *Gor, a []Value) Value {
		ex.path.permute = a[0].N != 0
		return Value{}
	})
	S("Tier", func(ex *Exec, g *Gor, a []Value) Value { return Value{N: uint64(ex.Cfg.Tier)} })
	S("Known", func(ex *Exec, g *Gor, a []Value) Value { return boolV(ex.Cfg.Known[ex.mustStr(a[0], "finding")]) })
	S("KnownHit", func(ex *Exec, g *Gor, a []Value) Value {
		ex.stats.KnownHit[ex.mustStr(a[0], "finding")]++
		return Value{}
	})
	S("Symbolic", func(ex *Exec, g *Gor, a []Value) Value { return Value{N: 1} })
	S("Concrete", func(ex *Exec, g *Gor, a []Value) Value { return Value{P: ex.concretizeStr(a[0], "text")} })
	// logical connectives without evaluation order
	regPure(symPkg+"And", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		return ex.termV(ex.M.And(ex.term(a[0], smt.SBool), ex.term(a[1], smt.SBool))), true
	})
	regPure(symPkg+"Or", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		return ex.termV(ex.M.Or(ex.term(a[0], smt.SBool), ex.term(a[1], smt.SBool))), true
	})
	regPure(symPkg+"SameFloat", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		return ex.termV(ex.M.Eq(ex.term(a[0], smt.SF64), ex.term(a[1], smt.SF64))), true
	})
	regPure(symPkg+"StrEq", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		return ex.termV(ex.strEq(a[0], a[1])), true
	})
}

func itoa(i int) string {
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + string(rune('0'+i%10))
}

var _ = math.Inf
