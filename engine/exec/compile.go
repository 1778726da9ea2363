package exec

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"

	"symgo/smt"
)

func (ex *Exec) compile(fn *Fn) {
	s := fn.ssa
	if s.Blocks == nil {
		ex.unsupported("function without Go body: %s", fn.name)
	}
	fn.regOf = map[ssa.Value]int{}
	reg := func(v ssa.Value) int {
		r := fn.nregs
		fn.nregs++
		fn.regOf[v] = r
		return r
	}
	for _, p := range s.Params {
		fn.params = append(fn.params, reg(p))
	}
	for _, p := range s.FreeVars {
		fn.free = append(fn.free, reg(p))
	}
	cb := map[*ssa.BasicBlock]*cblock{}
	add := func(b *ssa.BasicBlock) {
		c := &cblock{idx: b.Index, b: b}
		cb[b] = c
		fn.blocks = append(fn.blocks, c)
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				reg(v)
			}
		}
	}
	for _, b := range s.Blocks {
		add(b)
	}
	if s.Recover != nil {
		if cb[s.Recover] == nil {
			add(s.Recover)
		}
		fn.recover = cb[s.Recover]
	}
	for _, c := range fn.blocks {
		for _, x := range c.b.Succs {
			c.succs = append(c.succs, cb[x])
		}
		for _, x := range c.b.Preds {
			c.preds = append(c.preds, cb[x])
		}
	}
	for _, c := range fn.blocks {
		for _, in := range c.b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				p := cphi{dst: fn.regOf[phi]}
				p.s, _, p.scal = sortOf(phi.Type())
				for _, e := range phi.Edges {
					p.edges = append(p.edges, ex.operand(fn, e))
				}
				c.phis = append(c.phis, p)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			c.code = append(c.code, ex.compileInstr(fn, c, in))
		}
	}
	ex.findRegions(fn)
	fn.compiled = true
}

func (ex *Exec) constant(c *ssa.Const) Value {
	if c.Value == nil {
		return ex.zero(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := t.(*types.Interface); ok {
		_ = tp
		return Value{}
	}
	if isString(t) {
		if c.Value.Kind() == constant.String {
			return Value{P: constant.StringVal(c.Value)}
		}
		return Value{P: string(rune(c.Int64()))}
	}
	s, signed, ok := sortOf(t)
	if !ok {
		if b, isb := t.(*types.Basic); isb && b.Kind() == types.UnsafePointer {
			return Value{}
		}
		return Value{P: Unsupported{"constant of type " + c.Type().String()}}
	}
	switch {
	case s == smt.SBool:
		return boolV(constant.BoolVal(c.Value))
	case s == smt.SF64:
		f, _ := constant.Float64Val(c.Value)
		return Value{N: math.Float64bits(f)}
	case s == 101:
		f, _ := constant.Float32Val(c.Value)
		return Value{N: uint64(math.Float32bits(f))}
	case signed:
		return Value{N: uint64(c.Int64()) & maskOf(s)}
	default:
		return Value{N: c.Uint64() & maskOf(s)}
	}
}

func maskOf(s uint8) uint64 {
	if s >= 64 {
		return ^uint64(0)
	}
	if s == 0 {
		return 1
	}
	return 1<<s - 1
}

func (ex *Exec) operand(fn *Fn, v ssa.Value) operand {
	switch v := v.(type) {
	case *ssa.Const:
		return operand{-1, ex.constant(v)}
	case *ssa.Global:
		return operand{-1, Value{P: ex.global(v)}}
	case *ssa.Function:
		return operand{-1, Value{P: &Closure{Fn: ex.fn(v)}}}
	case *ssa.Builtin:
		return operand{-1, Value{P: v}}
	case nil:
		return operand{-1, Value{}}
	}
	r, ok := fn.regOf[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s in %s", v.Name(), fn.name))
	}
	return operand{r, Value{}}
}

func (f *Frame) jump(ex *Exec, to *cblock, edge int) {
	if len(to.phis) > 0 {
		if len(to.phis) == 1 {
			p := &to.phis[0]
			f.regs[p.dst] = f.get(&p.edges[edge])
		} else {
			var buf [8]Value
			tmp := buf[:0]
			for i := range to.phis {
				tmp = append(tmp, f.get(&to.phis[i].edges[edge]))
			}
			for i := range to.phis {
				f.regs[to.phis[i].dst] = tmp[i]
			}
		}
	}
	f.blk = to
	f.pc = 0
}

// edgeIndex finds which predecessor edge of to comes from (from, successor number k).
func edgeIndex(from, to *cblock, k int) int {
	n := 0
	for i := 0; i < k; i++ {
		if from.succs[i] == to {
			n++
		}
	}
	for i, p := range to.preds {
		if p == from {
			if n == 0 {
				return i
			}
			n--
		}
	}
	return 0
}

func (ex *Exec) compileInstr(fn *Fn, c *cblock, in ssa.Instruction) instr {
	op := func(v ssa.Value) operand { return ex.operand(fn, v) }
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = fn.regOf[v]
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		n := ex.layoutOf(t).size
		return func(ex *Exec, g *Gor, f *Frame) {
			f.regs[dst] = Value{P: ex.newObj(n)}
		}
	case *ssa.BinOp:
		h := ex.binop(in.Op, in.X.Type(), in.Y.Type())
		x, y := op(in.X), op(in.Y)
		return func(ex *Exec, g *Gor, f *Frame) {
			f.regs[dst] = h(ex, f.get(&x), f.get(&y))
		}
	case *ssa.UnOp:
		x := op(in.X)
		switch in.Op {
		case token.MUL:
			t := in.Type()
			return func(ex *Exec, g *Gor, f *Frame) {
				f.regs[dst] = ex.load(f.get(&x), t)
			}
		case token.ARROW:
			commaOk := in.CommaOk
			et := in.X.Type().Underlying().(*types.Chan).Elem()
			return func(ex *Exec, g *Gor, f *Frame) {
				ex.recv(g, f, f.get(&x), dst, commaOk, et)
			}
		}
		h := ex.unop(in.Op, in.X.Type())
		return func(ex *Exec, g *Gor, f *Frame) {
			f.regs[dst] = h(ex, f.get(&x))
		}
	case *ssa.ChangeType, *ssa.ChangeInterface:
		var x operand
		switch in := in.(type) {
		case *ssa.ChangeType:
			x = op(in.X)
		case *ssa.ChangeInterface:
			x = op(in.X)
		}
		return func(ex *Exec, g *Gor, f *Frame) { f.regs[dst] = f.get(&x) }
	case *ssa.Convert:
		h := ex.convert(in.X.Type(), in.Type())
		x := op(in.X)
		return func(ex *Exec, g *Gor, f *Frame) { f.regs[dst] = h(ex, f.get(&x)) }
	case *ssa.MultiConvert:
		h := ex.convert(in.X.Type(), in.Type())
		x := op(in.X)
		return func(ex *Exec, g *Gor, f *Frame) { f.regs[dst] = h(ex, f.get(&x)) }
	case *ssa.SliceToArrayPointer:
		x := op(in.X)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(ex *Exec, g *Gor, f *Frame) {
			s := ex.sl(f.get(&x))
			if s == nil {
				if n > 0 {
					ex.rtPanic("slice to array pointer conversion out of range")
				}
				f.regs[dst] = Value{}
				return
			}
			if s.Len < n {
				ex.rtPanic("slice to array pointer conversion out of range")
			}
			f.regs[dst] = Value{P: s.O, N: uint64(s.Off)}
		}
	case *ssa.MakeInterface:
		x := op(in.X)
		rt := ex.rtype(in.X.Type())
		return func(ex *Exec, g *Gor, f *Frame) {
			f.regs[dst] = Value{P: &Iface{rt, f.get(&x)}}
		}
	case *ssa.MakeClosure:
		target := ex.fn(in.Fn.(*ssa.Function))
		var bs []operand
		for _, b := range in.Bindings {
			bs = append(bs, op(b))
		}
		return func(ex *Exec, g *Gor, f *Frame) {
			cl := &Closure{Fn: target, Free: make([]Value, len(bs))}
			for i := range bs {
				cl.Free[i] = f.get(&bs[i])
			}
			f.regs[dst] = Value{P: cl}
		}
	case *ssa.MakeMap:
		kt := in.Type().Underlying().(*types.Map).Key()
		return func(ex *Exec, g *Gor, f *Frame) {
			f.regs[dst] = Value{P: ex.newMap(kt)}
		}
	case *ssa.MakeSlice:
		l, cp := op(in.Len), op(in.Cap)
		es := ex.layoutOf(in.Type().Underlying().(*types.Slice).Elem()).size
		return func(ex *Exec, g *Gor, f *Frame) {
			n := ex.concInt(f.get(&l), 64, "make length")
			m := ex.concInt(f.get(&cp), 64, "make capacity")
			if n < 0 || n > m && m >= 0 {
				ex.rtPanic("makeslice: len out of range")
			}
			if m < 0 {
				ex.rtPanic("makeslice: cap out of range")
			}
			if m > 1<<22 {
				ex.unsupported("make of %d elements", m)
			}
			f.regs[dst] = Value{P: &Slice{O: ex.newObj(int(m) * es), Len: int(n), Cap: int(m), Es: es}}
		}
	case *ssa.MakeChan:
		sz := op(in.Size)
		return func(ex *Exec, g *Gor, f *Frame) {
			n := ex.concInt(f.get(&sz), 64, "make chan size")
			ex.nextObj++
			f.regs[dst] = Value{P: &Chan{id: ex.nextObj, cap: int(n)}}
		}
	case *ssa.FieldAddr:
		x := op(in.X)
		off := uint64(ex.layoutOf(in.X.Type().Underlying().(*types.Pointer).Elem()).fields[in.Field])
		return func(ex *Exec, g *Gor, f *Frame) {
			v := f.get(&x)
			if v.P == nil {
				ex.nilDeref()
			}
			f.regs[dst] = Value{P: v.P, N: v.N + off}
		}
	case *ssa.Field:
		x := op(in.X)
		l := ex.layoutOf(in.X.Type())
		off := l.fields[in.Field]
		agg := isAgg(in.Type())
		n := ex.layoutOf(in.Type()).size
		return func(ex *Exec, g *Gor, f *Frame) {
			a := f.get(&x).P.(*Agg)
			if agg {
				f.regs[dst] = Value{P: &Agg{E: a.E[off : off+n]}}
			} else {
				f.regs[dst] = a.E[off]
			}
		}
	case *ssa.IndexAddr:
		return ex.compileIndexAddr(fn, in, dst)
	case *ssa.Index:
		x, ix := op(in.X), op(in.Index)
		is, isg, _ := sortOf(in.Index.Type())
		if isString(in.X.Type()) {
			return func(ex *Exec, g *Gor, f *Frame) {
				s := f.get(&x)
				n := ex.strLen(s)
				f.regs[dst] = ex.indexScalar(f.get(&ix), is, isg, n, 8, func(i int) Value { return ex.strByte(s, i) })
			}
		}
		at := in.X.Type().Underlying().(*types.Array)
		es := ex.layoutOf(at.Elem()).size
		agg := isAgg(at.Elem())
		return func(ex *Exec, g *Gor, f *Frame) {
			a := f.get(&x).P.(*Agg)
			i := ex.index(f.get(&ix), is, isg, int(at.Len()))
			if agg {
				f.regs[dst] = Value{P: &Agg{E: a.E[i*es : i*es+es]}}
			} else {
				f.regs[dst] = a.E[i]
			}
		}
	case *ssa.Slice:
		return ex.compileSlice(fn, in, dst)
	case *ssa.Lookup:
		x, k := op(in.X), op(in.Index)
		if isString(in.X.Type()) {
			is, isg, _ := sortOf(in.Index.Type())
			return func(ex *Exec, g *Gor, f *Frame) {
				s := f.get(&x)
				n := ex.strLen(s)
				f.regs[dst] = ex.indexScalar(f.get(&k), is, isg, n, 8, func(i int) Value { return ex.strByte(s, i) })
			}
		}
		mt := in.X.Type().Underlying().(*types.Map)
		commaOk := in.CommaOk
		return func(ex *Exec, g *Gor, f *Frame) {
			m, _ := f.get(&x).P.(*MapObj)
			v, ok := ex.mapGet(m, f.get(&k), mt.Key())
			if !ok {
				v = ex.zero(mt.Elem())
			}
			if commaOk {
				f.regs[dst] = Value{P: &Agg{E: []Value{v, boolV(ok)}}}
			} else {
				f.regs[dst] = v
			}
		}
	case *ssa.MapUpdate:
		m, k, v := op(in.Map), op(in.Key), op(in.Value)
		kt := in.Map.Type().Underlying().(*types.Map).Key()
		return func(ex *Exec, g *Gor, f *Frame) {
			mo, _ := f.get(&m).P.(*MapObj)
			if mo == nil {
				ex.goPanicStr("assignment to entry in nil map")
			}
			ex.mapPut(mo, f.get(&k), f.get(&v), kt)
		}
	case *ssa.Range:
		x := op(in.X)
		if isString(in.X.Type()) {
			return func(ex *Exec, g *Gor, f *Frame) {
				v := f.get(&x)
				f.regs[dst] = Value{P: &mapIter{str: &v}}
			}
		}
		return func(ex *Exec, g *Gor, f *Frame) {
			mo, _ := f.get(&x).P.(*MapObj)
			f.regs[dst] = Value{P: ex.mapRange(mo)}
		}
	case *ssa.Next:
		x := op(in.Iter)
		if in.IsString {
			return func(ex *Exec, g *Gor, f *Frame) {
				it := f.get(&x).P.(*mapIter)
				n := ex.strLen(*it.str)
				if it.off >= n {
					f.regs[dst] = Value{P: &Agg{E: []Value{{}, {}, {}}}}
					return
				}
				r, w := ex.decodeRune(*it.str, it.off)
				off := it.off
				it.off += w
				f.regs[dst] = Value{P: &Agg{E: []Value{{N: 1}, {N: uint64(off)}, r}}}
			}
		}
		tt := in.Type().(*types.Tuple)
		return func(ex *Exec, g *Gor, f *Frame) {
			it := f.get(&x).P.(*mapIter)
			for it.pos < len(it.ents) && it.ents[it.pos].dead {
				it.pos++
			}
			if it.pos >= len(it.ents) {
				k, v := Value{}, Value{}
				if b, ok := tt.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
					k = ex.zero(tt.At(1).Type())
				}
				if b, ok := tt.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
					v = ex.zero(tt.At(2).Type())
				}
				f.regs[dst] = Value{P: &Agg{E: []Value{{}, k, v}}}
				return
			}
			e := it.ents[it.pos]
			it.pos++
			f.regs[dst] = Value{P: &Agg{E: []Value{{N: 1}, e.K, e.V}}}
		}
	case *ssa.TypeAssert:
		return ex.compileTypeAssert(fn, in, dst)
	case *ssa.Extract:
		x := op(in.Tuple)
		i := in.Index
		return func(ex *Exec, g *Gor, f *Frame) {
			f.regs[dst] = f.get(&x).P.(*Agg).E[i]
		}
	case *ssa.Store:
		a, v := op(in.Addr), op(in.Val)
		agg := isAgg(in.Val.Type())
		return func(ex *Exec, g *Gor, f *Frame) {
			ex.store(f.get(&a), f.get(&v), agg)
		}
	case *ssa.Call:
		return ex.compileCall(fn, &in.Call, dst)
	case *ssa.Go:
		prep := ex.prepareCall(fn, &in.Call)
		return func(ex *Exec, g *Gor, f *Frame) {
			cl, args := prep(ex, f)
			ex.goStmt(g, cl, args)
		}
	case *ssa.Defer:
		prep := ex.prepareCall(fn, &in.Call)
		if in.DeferStack != nil {
			return func(ex *Exec, g *Gor, f *Frame) { ex.unsupported("defer in range-over-func body") }
		}
		return func(ex *Exec, g *Gor, f *Frame) {
			cl, args := prep(ex, f)
			f.defers = append(f.defers, deferred{cl, args})
		}
	case *ssa.RunDefers:
		return func(ex *Exec, g *Gor, f *Frame) {
			if n := len(f.defers); n > 0 {
				d := f.defers[n-1]
				f.defers = f.defers[:n-1]
				f.pc--
				top := g.top
				ex.call(g, f, d.fn, d.args, -1)
				if g.top != top {
					g.top.isDefer = true
				}
			}
		}
	case *ssa.Panic:
		x := op(in.X)
		return func(ex *Exec, g *Gor, f *Frame) {
			v := f.get(&x)
			if ex.noFork > 0 {
				panic(regionBail{})
			}
			panic(targetPanic{v})
		}
	case *ssa.Return:
		var rs []operand
		for _, r := range in.Results {
			rs = append(rs, op(r))
		}
		c.retOps = rs
		switch len(rs) {
		case 0:
			return func(ex *Exec, g *Gor, f *Frame) { ex.ret(g, f, Value{}) }
		case 1:
			return func(ex *Exec, g *Gor, f *Frame) { ex.ret(g, f, f.get(&rs[0])) }
		}
		return func(ex *Exec, g *Gor, f *Frame) {
			a := &Agg{E: make([]Value, len(rs))}
			for i := range rs {
				a.E[i] = f.get(&rs[i])
			}
			ex.ret(g, f, Value{P: a})
		}
	case *ssa.Jump:
		e := edgeIndex(c, c.succs[0], 0)
		return func(ex *Exec, g *Gor, f *Frame) { f.jump(ex, c.succs[0], e) }
	case *ssa.If:
		x := op(in.Cond)
		c.condOp = x
		e0, e1 := edgeIndex(c, c.succs[0], 0), edgeIndex(c, c.succs[1], 1)
		return func(ex *Exec, g *Gor, f *Frame) {
			v := f.get(&x)
			if v.T == nil {
				if v.N != 0 {
					f.jump(ex, c.succs[0], e0)
				} else {
					f.jump(ex, c.succs[1], e1)
				}
				return
			}
			if b, ok := ex.decided(v.T); ok {
				if b {
					f.jump(ex, c.succs[0], e0)
				} else {
					f.jump(ex, c.succs[1], e1)
				}
				return
			}
			if c.reg != nil && ex.tryRegion(g, f, c, v.T) {
				return
			}
			if ex.branch(v.T) {
				f.jump(ex, c.succs[0], e0)
			} else {
				f.jump(ex, c.succs[1], e1)
			}
		}
	case *ssa.Send:
		ch, v := op(in.Chan), op(in.X)
		return func(ex *Exec, g *Gor, f *Frame) { ex.send(g, f, f.get(&ch), f.get(&v)) }
	case *ssa.Select:
		return ex.compileSelect(fn, in, dst)
	}
	return func(ex *Exec, g *Gor, f *Frame) { ex.unsupported("instruction %T", in) }
}

func (ex *Exec) compileIndexAddr(fn *Fn, in *ssa.IndexAddr, dst int) instr {
	x, ix := ex.operand(fn, in.X), ex.operand(fn, in.Index)
	is, isg, _ := sortOf(in.Index.Type())
	switch t := in.X.Type().Underlying().(type) {
	case *types.Slice:
		es := ex.layoutOf(t.Elem()).size
		esort, _, scal := sortOf(t.Elem())
		return func(ex *Exec, g *Gor, f *Frame) {
			s := ex.sl(f.get(&x))
			iv := f.get(&ix)
			if s != nil && s.Ident != nil {
				f.regs[dst] = ex.identIndex(s, iv, is, isg)
				return
			}
			n := 0
			if s != nil {
				n = s.Len
			}
			if iv.T != nil && scal && es == 1 && s != nil {
				if v, ok := ex.tableIndex(s.O, s.Off, n, iv, is, isg, esort); ok {
					f.regs[dst] = v
					return
				}
			}
			i := ex.index(iv, is, isg, n)
			f.regs[dst] = Value{P: s.O, N: uint64(s.Off + i*es)}
		}
	case *types.Pointer:
		at := t.Elem().Underlying().(*types.Array)
		es := ex.layoutOf(at.Elem()).size
		esort, _, scal := sortOf(at.Elem())
		return func(ex *Exec, g *Gor, f *Frame) {
			p := f.get(&x)
			if p.P == nil {
				ex.nilDeref()
			}
			iv := f.get(&ix)
			o := p.P.(*Obj)
			if iv.T != nil && scal && es == 1 {
				if v, ok := ex.tableIndex(o, int(p.N), int(at.Len()), iv, is, isg, esort); ok {
					f.regs[dst] = v
					return
				}
			}
			i := ex.index(iv, is, isg, int(at.Len()))
			f.regs[dst] = Value{P: o, N: p.N + uint64(i*es)}
		}
	}
	return func(ex *Exec, g *Gor, f *Frame) { ex.unsupported("IndexAddr of %s", in.X.Type()) }
}

// symPtr is the address of element idx of a table of scalars, for loading only.
type symPtr struct {
	o    *Obj
	off  int
	n    int
	idx  *smt.Term // 64 bits, known to be in range
	sort uint8
	id   *IdentArr
}

// tableIndex makes the address of a symbolically indexed scalar element (read-only use).
func (ex *Exec) tableIndex(o *Obj, off, n int, iv Value, is uint8, isg bool, esort uint8) (Value, bool) {
	if n > 512 || n == 0 {
		return Value{}, false
	}
	idx := ex.M.Ext(iv.T, 64, isg)
	in := ex.M.Cmp(smt.OUlt, idx, ex.M.Const(64, uint64(n)))
	if !ex.branch(in) {
		ex.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	return Value{P: &symPtr{o: o, off: off, n: n, idx: idx, sort: esort}}, true
}

func (ex *Exec) loadTable(p *symPtr) Value {
	if p.id != nil {
		panic("loadTable ident")
	}
	// group equal elements
	type grp struct {
		v  Value
		lo []int
	}
	var order []Value
	rng := map[Value][]int{}
	for i := 0; i < p.n; i++ {
		v := p.o.slots[p.off+i]
		if _, ok := rng[v]; !ok {
			order = append(order, v)
		}
		rng[v] = append(rng[v], i)
	}
	// the most frequent value is the default
	best := order[0]
	for _, v := range order {
		if len(rng[v]) > len(rng[best]) {
			best = v
		}
	}
	r := ex.term(best, p.sort)
	for _, v := range order {
		if v == best {
			continue
		}
		c := ex.M.False
		is := rng[v]
		for i := 0; i < len(is); {
			j := i
			for j+1 < len(is) && is[j+1] == is[j]+1 {
				j++
			}
			var t *smt.Term
			if i == j {
				t = ex.M.Eq(p.idx, ex.M.Const(64, uint64(is[i])))
			} else {
				t = ex.M.And(ex.M.Cmp(smt.OUle, ex.M.Const(64, uint64(is[i])), p.idx), ex.M.Cmp(smt.OUle, p.idx, ex.M.Const(64, uint64(is[j]))))
			}
			c = ex.M.Or(c, t)
			i = j + 1
		}
		r = ex.M.Ite(c, ex.term(v, p.sort), r)
	}
	return ex.termV(r)
}

func (ex *Exec) identIndex(s *Slice, iv Value, is uint8, isg bool) Value {
	idx := ex.M.Ext(ex.term(iv, is), 64, isg)
	in := ex.M.Cmp(smt.OUlt, idx, s.Ident.Len)
	if !ex.branch(in) {
		ex.rtPanic("index out of range")
	}
	return Value{P: &symPtr{id: s.Ident, idx: idx}}
}

// index checks and concretises an index.
func (ex *Exec) index(iv Value, is uint8, isg bool, n int) int {
	if iv.T == nil {
		i := iv.N
		if isg {
			i = uint64(sx(i, is))
		}
		if i >= uint64(n) {
			ex.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i), n))
		}
		return int(i)
	}
	idx := ex.M.Ext(iv.T, 64, isg)
	in := ex.M.Cmp(smt.OUlt, idx, ex.M.Const(64, uint64(n)))
	if !ex.branch(in) {
		ex.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	return int(ex.concretize(idx, "index"))
}

// indexScalar reads element i of a sequence of n scalars without concretising i.
func (ex *Exec) indexScalar(iv Value, is uint8, isg bool, n int, es uint8, at func(i int) Value) Value {
	if iv.T == nil || n > 512 {
		return at(ex.index(iv, is, isg, n))
	}
	idx := ex.M.Ext(iv.T, 64, isg)
	in := ex.M.Cmp(smt.OUlt, idx, ex.M.Const(64, uint64(n)))
	if !ex.branch(in) {
		ex.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	tmp := &Obj{slots: make([]Value, n)}
	for i := range tmp.slots {
		tmp.slots[i] = at(i)
	}
	return ex.loadTable(&symPtr{o: tmp, n: n, idx: idx, sort: es})
}

func sx(v uint64, s uint8) int64 {
	sh := 64 - s
	return int64(v<<sh) >> sh
}

func (ex *Exec) compileSlice(fn *Fn, in *ssa.Slice, dst int) instr {
	x := ex.operand(fn, in.X)
	var lo, hi, mx operand
	hasLo, hasHi, hasMax := in.Low != nil, in.High != nil, in.Max != nil
	if hasLo {
		lo = ex.operand(fn, in.Low)
	}
	if hasHi {
		hi = ex.operand(fn, in.High)
	}
	if hasMax {
		mx = ex.operand(fn, in.Max)
	}
	var los, his, mxs uint8 = 64, 64, 64
	if hasLo {
		los, _, _ = sortOf(in.Low.Type())
	}
	if hasHi {
		his, _, _ = sortOf(in.High.Type())
	}
	if hasMax {
		mxs, _, _ = sortOf(in.Max.Type())
	}
	isStr := isString(in.X.Type())
	_, isPtr := in.X.Type().Underlying().(*types.Pointer)
	var es, alen int
	if isPtr {
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		es, alen = ex.layoutOf(at.Elem()).size, int(at.Len())
	} else if st, ok := in.X.Type().Underlying().(*types.Slice); ok {
		es = ex.layoutOf(st.Elem()).size
	}
	return func(ex *Exec, g *Gor, f *Frame) {
		v := f.get(&x)
		var length, capacity int
		var s *Slice
		switch {
		case isStr:
			if o, ok := v.P.(*OpaqueStr); ok && !hasLo && !hasHi {
				f.regs[dst] = Value{P: o}
				return
			}
			length = ex.strLen(v)
			capacity = length
		case isPtr:
			if v.P == nil {
				ex.nilDeref()
			}
			length, capacity = alen, alen
		default:
			s = ex.sl(v)
			if s != nil {
				if s.Ident != nil {
					if !hasLo && !hasHi && !hasMax {
						f.regs[dst] = v
						return
					}
					ex.unsupported("slicing of array of symbolic length")
				}
				length, capacity = s.Len, s.Cap
			}
		}
		// bounds: 0 <= lo <= hi <= max <= cap
		m := capacity
		if hasMax {
			m = ex.sliceBound(f.get(&mx), mxs, 0, capacity)
		}
		h := length
		if hasHi {
			h = ex.sliceBound(f.get(&hi), his, 0, m)
		}
		l := 0
		if hasLo {
			l = ex.sliceBound(f.get(&lo), los, 0, h)
		}
		if l > h {
			ex.rtPanic("slice bounds out of range")
		}
		switch {
		case isStr:
			f.regs[dst] = ex.strSlice(v, l, h)
		case isPtr:
			f.regs[dst] = Value{P: &Slice{O: v.P.(*Obj), Off: int(v.N) + l*es, Len: h - l, Cap: m - l, Es: es}}
		default:
			if s == nil {
				f.regs[dst] = Value{}
				return
			}
			f.regs[dst] = Value{P: &Slice{O: s.O, Off: s.Off + l*es, Len: h - l, Cap: m - l, Es: es}}
		}
	}
}

func (ex *Exec) sliceBound(v Value, s uint8, lo, hi int) int {
	if v.T == nil {
		n := sx(v.N, s)
		if n < int64(lo) || n > int64(hi) {
			ex.rtPanic(fmt.Sprintf("slice bounds out of range [%d] with limit %d", n, hi))
		}
		return int(n)
	}
	t := ex.M.Ext(v.T, 64, true)
	if !ex.branch(ex.M.Cmp(smt.OUle, t, ex.M.Const(64, uint64(hi)))) {
		ex.rtPanic("slice bounds out of range")
	}
	return int(ex.concretize(t, "slice bound"))
}

// concInt gives the concrete value of a scalar, forking over its values if symbolic.
func (ex *Exec) concInt(v Value, s uint8, why string) int64 {
	if v.T == nil {
		return sx(v.N, s)
	}
	return sx(ex.concretize(v.T, why), s)
}
