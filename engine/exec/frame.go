package exec

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Fn is a compiled function.
type Fn struct {
	ssa      *ssa.Function
	name     string
	nregs    int
	params   []int
	free     []int
	blocks   []*cblock
	recover  *cblock
	intr     intrinsic
	results  *types.Tuple
	target   bool // belongs to the code under test
	compiled bool
	regOf    map[ssa.Value]int
	hash     uint32
	pool     [][]Value // register files of finished frames; not cleared, as every use is after its definition
}

type instr func(ex *Exec, g *Gor, f *Frame)

type cblock struct {
	idx    int
	b      *ssa.BasicBlock
	phis   []cphi
	code   []instr
	succs  []*cblock
	preds  []*cblock
	reg    *region // set on blocks ending in If when the region after it is mergeable
	pure   int8
	retOps []operand
	condOp operand
}

type cphi struct {
	dst   int
	edges []operand
	s     uint8
	scal  bool
}

type operand struct {
	reg int // -1: constant
	c   Value
}

type deferred struct {
	fn   *Closure
	args []Value
}

// Frame is an activation record.
type Frame struct {
	fn       *Fn
	regs     []Value
	blk      *cblock
	pc       int
	caller   *Frame
	dst      int // register of the caller for the result, -1 none
	defers   []deferred
	depth    int
	isDefer  bool // called by RunDefers or unwinding
	unwind   bool // called by unwinding
	sync     *syncCall
	recoverd bool // this frame's panic has been recovered: leave through recover block
}

// syncCall marks a frame entered through callSync.
type syncCall struct {
	done     bool
	panicked bool
	result   Value
}

func (f *Frame) get(o *operand) Value {
	if o.reg >= 0 {
		return f.regs[o.reg]
	}
	return o.c
}

// fn returns the compiled form of s.
func (ex *Exec) fn(s *ssa.Function) *Fn {
	if f, ok := ex.fns[s]; ok {
		return f
	}
	f := &Fn{ssa: s, name: funcName(s), results: s.Signature.Results()}
	for i := 0; i < len(f.name); i++ {
		f.hash = f.hash*31 + uint32(f.name[i])
	}
	ex.fns[s] = f
	if s.Pkg != nil {
		f.target = hasPrefix(s.Pkg.Pkg.Path(), ex.P.Target)
	} else if o := s.Origin(); o != nil && o.Pkg != nil {
		f.target = hasPrefix(o.Pkg.Pkg.Path(), ex.P.Target)
	}
	if in, ok := intrinsics[f.name]; ok {
		f.intr = in
	} else if m, ok := ex.P.Models[f.name]; ok {
		mf := ex.fn(m)
		ex.fns[s] = mf
		return mf
	}
	return f
}

func hasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

func funcName(s *ssa.Function) string {
	if o := s.Origin(); o != nil {
		return o.String()
	}
	return s.String()
}

func (ex *Exec) newGor() *Gor {
	g := &Gor{id: len(ex.gs)}
	ex.gs = append(ex.gs, g)
	return g
}

func (ex *Exec) pushFrame(g *Gor, fn *Fn, args []Value, free []Value, dst int) *Frame {
	if !fn.compiled {
		ex.compile(fn)
	}
	f := &Frame{fn: fn, caller: g.top, dst: dst}
	if n := len(fn.pool); n > 0 {
		f.regs = fn.pool[n-1]
		fn.pool = fn.pool[:n-1]
	} else {
		f.regs = make([]Value, fn.nregs)
	}
	if g.top != nil {
		f.depth = g.top.depth + 1
	}
	if f.depth > ex.Cfg.MaxDepth {
		// stack exhaustion is fatal in Go
		ex.fatal("stack overflow in " + fn.name)
	}
	for i, p := range fn.params {
		f.regs[p] = args[i]
	}
	for i, p := range fn.free {
		f.regs[p] = free[i]
	}
	f.blk = fn.blocks[0]
	g.top = f
	if fn.target {
		ex.Cov[fn.name]++
	}
	return f
}

// ret returns v from the top frame of g.
func (ex *Exec) ret(g *Gor, f *Frame, v Value) {
	g.top = f.caller
	f.fn.pool = append(f.fn.pool, f.regs)
	f.regs = nil
	if f.sync != nil {
		f.sync.done = true
		f.sync.result = v
		return
	}
	if f.unwind {
		ex.afterUnwindCall(g)
		return
	}
	if g.top == nil {
		ex.gorDone(g)
		return
	}
	if f.dst >= 0 {
		g.top.regs[f.dst] = v
	}
}

// call starts a call of c with args in g; the result goes to register dst of the current frame.
func (ex *Exec) call(g *Gor, f *Frame, c *Closure, args []Value, dst int) {
	if c.Native != nil {
		v := c.Native(ex, args)
		if dst >= 0 {
			f.regs[dst] = v
		}
		return
	}
	if c.Fn.intr != nil {
		v, ok := c.Fn.intr(ex, g, args, c.Fn)
		if ok {
			if dst >= 0 {
				f.regs[dst] = v
			}
			return
		}
		// the intrinsic declined (or blocked)
		if g.status != gRun || g.retry {
			return
		}
		if m, ok := ex.P.Models[c.Fn.name]; ok {
			ex.pushFrame(g, ex.fn(m), args, nil, dst)
			return
		}
	}
	if ex.path.init && f.fn.isInit() && c.Fn.ssa.Pkg != nil && !ex.initOK(c.Fn.ssa.Pkg) && c.Fn.ssa.Name() != "init" {
		if dst >= 0 {
			f.regs[dst] = Value{P: poison(c.Fn.name)}
		}
		return
	}
	ex.pushFrame(g, c.Fn, args, c.Free, dst)
}

// poison is the value of an initialiser that could not be executed; using it is unsupported.
type poison string

func (fn *Fn) isInit() bool { return fn.ssa != nil && fn.ssa.Synthetic == "package initializer" }
