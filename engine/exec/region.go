package exec

import (
	"go/token"

	"golang.org/x/tools/go/ssa"

	"symgo/smt"
)

// A region is an acyclic set of side-effect free blocks after a branch, with a single entry and at most two ways out.
// It is executed once for all sides at the same time, joining values by conditional terms instead of forking.
type region struct {
	blocks []*cblock // without the head, topologically ordered
	in     map[*cblock]bool
}

const maxRegion = 40

func (ex *Exec) findRegions(fn *Fn) {
	for _, c := range fn.blocks {
		if len(c.b.Instrs) == 0 {
			continue
		}
		if _, ok := c.b.Instrs[len(c.b.Instrs)-1].(*ssa.If); ok {
			c.reg = ex.growRegion(fn, c)
		}
	}
}

func (ex *Exec) growRegion(fn *Fn, head *cblock) *region {
	in := map[*cblock]bool{head: true}
	var order []*cblock
	best := -1
	for len(order) < maxRegion {
		var cand *cblock
		for _, b := range fn.blocks {
			if in[b] || len(b.preds) == 0 || !ex.pureBlock(b) {
				continue
			}
			ok := true
			for _, p := range b.preds {
				if !in[p] {
					ok = false
					break
				}
			}
			// no edge back into the region
			for _, s := range b.succs {
				if in[s] {
					ok = false
				}
			}
			if ok {
				cand = b
				break
			}
		}
		if cand == nil {
			break
		}
		in[cand] = true
		order = append(order, cand)
		exits := map[*cblock]bool{}
		ret := 0
		for b := range in {
			for _, s := range b.succs {
				if !in[s] {
					exits[s] = true
				}
			}
			if len(b.succs) == 0 {
				ret = 1
			}
		}
		n := len(exits) + ret
		if n <= 2 {
			best = len(order)
		}
		if n == 1 {
			break
		}
	}
	if best < 1 {
		return nil
	}
	r := &region{blocks: order[:best], in: map[*cblock]bool{}}
	for _, b := range r.blocks {
		r.in[b] = true
	}
	return r
}

func (ex *Exec) pureBlock(c *cblock) bool {
	if c.pure != 0 {
		return c.pure > 0
	}
	c.pure = -1
	for i, in := range c.b.Instrs {
		last := i == len(c.b.Instrs)-1
		switch in := in.(type) {
		case *ssa.If, *ssa.Jump, *ssa.Return:
			if !last {
				return false
			}
		default:
			if !ex.pureInstr(in, 0) {
				return false
			}
			if last {
				return false
			}
		}
	}
	c.pure = 1
	return true
}

func (ex *Exec) pureInstr(in ssa.Instruction, depth int) bool {
	switch in := in.(type) {
	case *ssa.BinOp, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Convert, *ssa.MakeInterface, *ssa.FieldAddr, *ssa.Field,
		*ssa.IndexAddr, *ssa.Index, *ssa.Lookup, *ssa.Extract, *ssa.TypeAssert, *ssa.Slice, *ssa.Phi, *ssa.DebugRef:
		return true
	case *ssa.UnOp:
		return in.Op != token.ARROW
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "min", "max":
				return true
			}
			return false
		}
		callee := in.Call.StaticCallee()
		if callee == nil || in.Call.IsInvoke() {
			return false
		}
		return ex.pureFunc(callee, depth+1)
	}
	return false
}

// pureFunc tells whether calls of f may be tried inside a region.
func (ex *Exec) pureFunc(f *ssa.Function, depth int) bool {
	if depth > 4 {
		return false
	}
	key := pureKey{f, depth}
	if v, ok := ex.P.preds.Load(key); ok {
		return v.(bool)
	}
	r := func() bool {
		n := funcName(f)
		if _, ok := intrinsics[n]; ok {
			return pureIntrinsics[n]
		}
		if f.Blocks == nil || f.Recover != nil {
			return false
		}
		ninstr := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ninstr++
				switch in.(type) {
				case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic:
					continue
				}
				if !ex.pureInstr(in, depth) {
					return false
				}
			}
		}
		return ninstr < 400
	}()
	ex.P.preds.Store(key, r)
	return r
}

type pureKey struct {
	f     *ssa.Function
	depth int
}

type redge struct {
	from  *cblock
	k     int
	guard *smt.Term
}

// tryRegion executes the region after head; false when it has to fork after all.
func (ex *Exec) tryRegion(g *Gor, f *Frame, head *cblock, cond *smt.Term) (done bool) {
	r := head.reg
	steps0 := ex.steps
	ex.noFork++
	defer func() {
		ex.noFork--
		if x := recover(); x != nil {
			switch x.(type) {
			case regionBail, Unsupported, targetPanic:
				// back to the branch
				g.top = f
				f.blk = head
				f.pc = len(head.code)
				ex.steps = steps0
				done = false
				ex.Enc.Bail++
				return
			}
			panic(x)
		}
	}()
	m := ex.M
	edges := map[*cblock][]redge{} // incoming live edges
	type retv struct {
		guard *smt.Term
		vals  []Value
	}
	var rets []retv
	addEdge := func(from *cblock, k int, gd *smt.Term) {
		if gd.IsFalse() {
			return
		}
		to := from.succs[k]
		edges[to] = append(edges[to], redge{from, k, gd})
	}
	addEdge(head, 0, cond)
	addEdge(head, 1, m.Not(cond))
	for _, b := range r.blocks {
		es := edges[b]
		if len(es) == 0 {
			continue
		}
		delete(edges, b)
		gd := m.False
		for _, e := range es {
			gd = m.Or(gd, e.guard)
		}
		ex.joinPhis(f, b, es)
		f.blk = b
		for i, in := range b.code[:len(b.code)-1] {
			f.pc = i + 1
			ex.steps++
			in(ex, g, f)
			for n := 0; g.top != f; n++ {
				h := g.top
				in := h.blk.code[h.pc]
				h.pc++
				ex.steps++
				in(ex, g, h)
				if n > 20000 {
					panic(regionBail{})
				}
			}
		}
		f.pc = len(b.code)
		switch {
		case len(b.succs) == 0:
			var vs []Value
			for i := range b.retOps {
				vs = append(vs, f.get(&b.retOps[i]))
			}
			rets = append(rets, retv{gd, vs})
		case len(b.succs) == 1:
			addEdge(b, 0, gd)
		default:
			v := f.get(&b.condOp)
			t := ex.term(v, smt.SBool)
			if x, ok := ex.decided(t); ok {
				if x {
					addEdge(b, 0, gd)
				} else {
					addEdge(b, 1, gd)
				}
			} else {
				addEdge(b, 0, m.And(gd, t))
				addEdge(b, 1, m.And(gd, m.Not(t)))
			}
		}
	}
	n := len(edges)
	if len(rets) > 0 {
		n++
	}
	if n == 0 || n > 2 {
		panic(regionBail{})
	}
	// pick the way out
	var exit *cblock
	if n == 1 {
		for b := range edges {
			exit = b
		}
	} else {
		// a deterministic order
		var first, second *cblock
		for b := range edges {
			if first == nil || b.idx < first.idx {
				first, second = b, first
			} else {
				second = b
			}
		}
		gd := m.False
		for _, e := range edges[first] {
			gd = m.Or(gd, e.guard)
		}
		ex.noFork--
		f.blk, f.pc = head, len(head.code)
		var take bool
		func() {
			defer func() { ex.noFork++ }()
			take = ex.branch(gd)
		}()
		if take {
			exit = first
		} else {
			exit = second // nil: return
		}
	}
	if exit != nil {
		// registers computed for blocks that feed the exit stay valid
		ex.joinPhis(f, exit, edges[exit])
		f.blk, f.pc = exit, 0
		ex.Enc.Merged++
		ex.stats.Merges++
		return true
	}
	var out []Value
	for i := range rets[0].vals {
		v := rets[len(rets)-1].vals[i]
		s, _, scal := sortOf(f.fn.results.At(i).Type())
		for j := len(rets) - 2; j >= 0; j-- {
			v = ex.iteVal(rets[j].guard, rets[j].vals[i], v, s, scal)
		}
		out = append(out, v)
	}
	ex.Enc.Merged++
	ex.stats.Merges++
	switch len(out) {
	case 0:
		ex.ret(g, f, Value{})
	case 1:
		ex.ret(g, f, out[0])
	default:
		ex.ret(g, f, Value{P: &Agg{E: out}})
	}
	return true
}

func (ex *Exec) joinPhis(f *Frame, b *cblock, es []redge) {
	if len(b.phis) == 0 {
		return
	}
	var buf [8]Value
	tmp := buf[:0]
	for i := range b.phis {
		p := &b.phis[i]
		l := es[len(es)-1]
		v := f.get(&p.edges[edgeIndex(l.from, b, l.k)])
		for j := len(es) - 2; j >= 0; j-- {
			e := es[j]
			v = ex.iteVal(e.guard, f.get(&p.edges[edgeIndex(e.from, b, e.k)]), v, p.s, p.scal)
		}
		tmp = append(tmp, v)
	}
	for i := range b.phis {
		f.regs[b.phis[i].dst] = tmp[i]
	}
}

// iteVal is "if c then a else b".
func (ex *Exec) iteVal(c *smt.Term, a, b Value, s uint8, scal bool) Value {
	if a == b {
		return a
	}
	if scal && s <= smt.SF64 {
		return ex.termV(ex.M.Ite(c, ex.term(a, s), ex.term(b, s)))
	}
	switch x := a.P.(type) {
	case nil, string, *SymStr:
		_, yn := b.P.(string)
		_, ys := b.P.(*SymStr)
		_, xs := a.P.(*SymStr)
		if !(yn || ys) || !(xs || ys || x != nil) {
			break
		}
		if ex.strLen(a) != ex.strLen(b) {
			break
		}
		p, q := ex.strBytes(a), ex.strBytes(b)
		r := make([]*smt.Term, len(p))
		for i := range r {
			r[i] = ex.M.Ite(c, p[i], q[i])
		}
		return ex.mkStr(r)
	case *Iface:
		y, ok := b.P.(*Iface)
		if !ok || y.T != x.T {
			break
		}
		s, _, scal := sortOf(x.T.T)
		if scal || isString(x.T.T) {
			return Value{P: &Iface{x.T, ex.iteVal(c, x.V, y.V, s, scal)}}
		}
	}
	panic(regionBail{})
}
