package exec

import (
	"fmt"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

const (
	gRun = iota
	gBlocked
	gDone
)

// Gor is a goroutine.
type Gor struct {
	id       int
	top      *Frame
	status   int
	retry    bool // the blocked instruction is executed again when woken
	noSwitch int
	panics   []*panicRec
	parked   bool // waits for quiescence (Settle)
	why      string
	vc       []int32
	// for channels
	wait []*waiter
}

type panicRec struct {
	v         Value
	recovered bool
}

// Chan is a channel.
type Chan struct {
	id     int64
	cap    int
	buf    []chanMsg
	closed bool
	sendq  []*waiter
	recvq  []*waiter
	vc     []int32 // released by close
}

type chanMsg struct {
	v  Value
	vc []int32
}

// waiter is a goroutine blocked on a channel.
type waiter struct {
	g       *Gor
	ch      *Chan
	v       Value // to send
	dst     int
	frame   *Frame
	commaOk bool
	sel     *selState
	idx     int
	et      types.Type
	dead    bool
}

type selState struct {
	done bool
	dst  int
	rcv  []types.Type // types of the receive results
	pos  []int        // result position of state i, -1 for sends
	n    int
}

// ---- running

// run executes until the first goroutine has finished.
func (ex *Exec) run() {
	for {
		g := ex.pick()
		if g == nil {
			return
		}
		ex.cur = g
		ex.runG(g, nil)
		if len(ex.gs) > 0 && ex.gs[0].status == gDone {
			return
		}
	}
}

// pick chooses the goroutine to run next, nil when the main one has finished.
func (ex *Exec) pick() *Gor {
	if ex.gs[0].status == gDone {
		return nil
	}
	var run []*Gor
	for _, g := range ex.gs {
		if g.status == gRun && !g.parked {
			run = append(run, g)
		}
	}
	if len(run) == 0 {
		for _, g := range ex.gs {
			if g.parked {
				g.parked = false
				return g
			}
		}
		ex.cur = ex.gs[0]
		ex.violation("deadlock", "all goroutines are blocked", nil)
	}
	y := ex.yielded
	ex.yielded = nil
	if len(run) == 1 {
		return run[0]
	}
	if y != nil && !ex.path.sched {
		for i := 1; i < len(ex.gs); i++ {
			g := ex.gs[(y.id+i)%len(ex.gs)]
			if g.status == gRun && !g.parked {
				return g
			}
		}
	}
	if ex.path.sched {
		// explore who goes next
		for i, g := range run {
			if g == ex.cur && i != 0 {
				run[0], run[i] = run[i], run[0]
			}
		}
		if ex.cur != nil && ex.cur.status == gRun && !ex.cur.parked && run[0] == ex.cur {
			if ex.path.preempt <= 0 {
				return run[0]
			}
			i := ex.choose("", len(run))
			if i != 0 {
				ex.path.preempt--
			}
			return run[i]
		}
		return run[ex.choose("", len(run))]
	}
	// continue the current one if it can, otherwise the next in turn
	if ex.cur != nil && ex.cur.status == gRun && !ex.cur.parked {
		return ex.cur
	}
	if ex.cur != nil {
		for i := 1; i <= len(ex.gs); i++ {
			g := ex.gs[(ex.cur.id+i)%len(ex.gs)]
			if g.status == gRun && !g.parked {
				return g
			}
		}
	}
	return run[0]
}

// runG runs g until it blocks, ends, yields, or sc is done.
func (ex *Exec) runG(g *Gor, sc *syncCall) {
	for !ex.runProtected(g, sc) {
	}
}

func (ex *Exec) runProtected(g *Gor, sc *syncCall) (fin bool) {
	defer func() {
		if r := recover(); r != nil {
			if tp, ok := r.(targetPanic); ok && ex.noFork == 0 {
				ex.startUnwind(g, tp.v)
				fin = false
				return
			}
			if ex.path.init && ex.noFork == 0 && sc == nil {
				// give up on this initialiser only
				if os.Getenv("SYMGO_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "initialiser skipped: %v in %v\n", r, ex.trace())
				}
				dst := -1
				for g.top != nil && !g.top.fn.isInit() {
					dst = g.top.dst
					g.top = g.top.caller
				}
				if g.top != nil {
					if dst >= 0 {
						g.top.regs[dst] = Value{P: poison("initialiser")}
					}
					fin = false
					return
				}
			}
			panic(r)
		}
	}()
	max := ex.Cfg.MaxSteps
	for {
		f := g.top
		if f == nil || g.status != gRun || g.parked {
			return true
		}
		if sc != nil && sc.done {
			return true
		}
		if ex.yield {
			ex.yield = false
			if sc == nil && g.noSwitch == 0 {
				return true
			}
		}
		in := f.blk.code[f.pc]
		f.pc++
		ex.steps++
		in(ex, g, f)
		if ex.steps&0x3fff == 0 {
			ex.checkTime()
		}
		if ex.steps > max && !ex.path.init {
			ex.violation("hang", "no end after the instruction limit", nil)
		}
	}
}

// callSync calls c to completion from inside an intrinsic.
func (ex *Exec) callSync(c *Closure, args []Value) Value {
	g := ex.cur
	if c.Native != nil {
		return c.Native(ex, args)
	}
	if c.Fn.intr != nil {
		v, ok := c.Fn.intr(ex, g, args, c.Fn)
		if ok {
			return v
		}
		if g.status != gRun || g.retry {
			ex.unsupported("blocking in synchronous call of %s", c.Fn.name)
		}
	}
	f := ex.pushFrame(g, c.Fn, args, c.Free, -1)
	sc := &syncCall{}
	f.sync = sc
	g.noSwitch++
	for !sc.done {
		ex.runG(g, sc)
		if !sc.done {
			if g.status != gRun || g.parked {
				ex.unsupported("blocking in synchronous call of %s", c.Fn.name)
			}
		}
	}
	g.noSwitch--
	if sc.panicked {
		panic(targetPanic{sc.result})
	}
	return sc.result
}

func (ex *Exec) gorDone(g *Gor) {
	g.status = gDone
}

// ---- panics

func (ex *Exec) startUnwind(g *Gor, v Value) {
	g.panics = append(g.panics, &panicRec{v: v})
	ex.unwindStep(g)
}

func (ex *Exec) unwindStep(g *Gor) {
	for {
		f := g.top
		p := g.panics[len(g.panics)-1]
		if f == nil {
			ex.cur = g
			ex.violation("panic", "uncaught panic: "+ex.describe(p.v, nil), nil)
		}
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			ex.unwindCall(g, f, d)
			if g.top != f {
				return // runs now
			}
			continue
		}
		// leave the frame
		g.top = f.caller
		if f.unwind {
			// an earlier panic is superseded
			if len(g.panics) >= 2 {
				g.panics = append(g.panics[:len(g.panics)-2], p)
			}
		}
		if f.sync != nil {
			f.sync.done = true
			f.sync.panicked = true
			f.sync.result = p.v
			g.panics = g.panics[:len(g.panics)-1]
			return
		}
	}
}

func (ex *Exec) unwindCall(g *Gor, f *Frame, d deferred) {
	c := d.fn
	if c.Native != nil {
		c.Native(ex, d.args)
		return
	}
	if c.Fn.intr != nil {
		if _, ok := c.Fn.intr(ex, g, d.args, c.Fn); ok {
			return
		}
		if g.status != gRun || g.retry {
			ex.unsupported("deferred %s blocks while panicking", c.Fn.name)
		}
	}
	nf := ex.pushFrame(g, c.Fn, d.args, c.Free, -1)
	nf.unwind = true
}

// afterUnwindCall continues after a deferred call made by unwinding returned.
func (ex *Exec) afterUnwindCall(g *Gor) {
	f := g.top
	if f.recoverd {
		ex.leaveRecovered(g, f)
		return
	}
	p := g.panics[len(g.panics)-1]
	if p.recovered {
		g.panics = g.panics[:len(g.panics)-1]
		f.recoverd = true
		ex.leaveRecovered(g, f)
		return
	}
	ex.unwindStep(g)
}

func (ex *Exec) leaveRecovered(g *Gor, f *Frame) {
	for len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		ex.unwindCall(g, f, d)
		if g.top != f {
			return
		}
	}
	f.recoverd = false
	if f.fn.recover != nil {
		f.blk = f.fn.recover
		f.pc = 0
		return
	}
	var v Value
	switch f.fn.results.Len() {
	case 0:
	case 1:
		v = ex.zero(f.fn.results.At(0).Type())
	default:
		v = ex.zero(f.fn.results)
	}
	ex.ret(g, f, v)
}

func (ex *Exec) doRecover(g *Gor, f *Frame) Value {
	if !f.unwind || len(g.panics) == 0 {
		return Value{}
	}
	p := g.panics[len(g.panics)-1]
	if p.recovered {
		return Value{}
	}
	// f must be the frame called by the unwinding of this panic, not of an outer one
	if f.caller != nil && f.caller.recoverd {
		return Value{}
	}
	p.recovered = true
	return p.v
}

// ---- goroutines and channels

func (ex *Exec) goStmt(g *Gor, c *Closure, args []Value) {
	if ex.noFork > 0 {
		panic(regionBail{})
	}
	if c.Native != nil {
		c.Native(ex, args)
		return
	}
	if len(ex.gs) > 4000 {
		ex.unsupported("too many goroutines")
	}
	n := ex.newGor()
	if c.Fn.intr != nil {
		ex.unsupported("go statement of %s", c.Fn.name)
	}
	ex.pushFrame(n, c.Fn, args, c.Free, -1)
	n.vc = append([]int32(nil), g.vc...)
	ex.tick(g)
	for len(n.vc) <= n.id {
		n.vc = append(n.vc, 0)
	}
	n.vc[n.id] = 1
	ex.syncPoint()
}

// syncPoint lets the scheduler switch.
func (ex *Exec) syncPoint() {
	if ex.path.sched {
		ex.yield = true
	}
}

func (ex *Exec) tick(g *Gor) {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

func joinVC(a *[]int32, b []int32) {
	for len(*a) < len(b) {
		*a = append(*a, 0)
	}
	for i, x := range b {
		if x > (*a)[i] {
			(*a)[i] = x
		}
	}
}

func (g *Gor) snapshot() []int32 { return append([]int32(nil), g.vc...) }

func (ex *Exec) chanOf(v Value) *Chan {
	c, _ := v.P.(*Chan)
	return c
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.dead || w.sel != nil && w.sel.done {
			continue
		}
		return w
	}
	return nil
}

func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if !w.dead && !(w.sel != nil && w.sel.done) {
			return true
		}
	}
	return false
}

// deliver completes the receive of w.
func (ex *Exec) deliver(w *waiter, v Value, ok bool) {
	w.g.status = gRun
	if w.sel != nil {
		w.sel.done = true
		w.frame.regs[w.sel.dst] = ex.selResult(w.sel, w.idx, v, ok)
		return
	}
	ex.recvResult(w.frame, w.dst, w.commaOk, v, ok)
}

func (ex *Exec) recvResult(f *Frame, dst int, commaOk bool, v Value, ok bool) {
	if dst < 0 {
		return
	}
	if commaOk {
		f.regs[dst] = Value{P: &Agg{E: []Value{v, boolV(ok)}}}
	} else {
		f.regs[dst] = v
	}
}

func (ex *Exec) block(g *Gor, why string) {
	if g.noSwitch > 0 {
		ex.unsupported("blocking inside a synchronous call (%s)", why)
	}
	g.status = gBlocked
	g.why = why
}

func (ex *Exec) send(g *Gor, f *Frame, cv, v Value) {
	if ex.noFork > 0 {
		panic(regionBail{})
	}
	c := ex.chanOf(cv)
	if c == nil {
		ex.block(g, "send on nil channel")
		return
	}
	ex.syncPoint()
	if c.closed {
		ex.goPanicStr("send on closed channel")
	}
	if w := popWaiter(&c.recvq); w != nil {
		joinVC(&w.g.vc, g.vc)
		if c.cap == 0 {
			joinVC(&g.vc, w.g.vc)
		}
		ex.tick(g)
		ex.tick(w.g)
		ex.deliver(w, v, true)
		return
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, chanMsg{v, g.snapshot()})
		ex.tick(g)
		return
	}
	c.sendq = append(c.sendq, &waiter{g: g, ch: c, v: v, frame: f, dst: -1})
	ex.block(g, "send")
}

func (ex *Exec) recv(g *Gor, f *Frame, cv Value, dst int, commaOk bool, et types.Type) {
	if ex.noFork > 0 {
		panic(regionBail{})
	}
	c := ex.chanOf(cv)
	if c == nil {
		ex.block(g, "receive from nil channel")
		return
	}
	ex.syncPoint()
	v, ok, got := ex.tryRecv(g, c, et)
	if got {
		ex.recvResult(f, dst, commaOk, v, ok)
		return
	}
	c.recvq = append(c.recvq, &waiter{g: g, ch: c, frame: f, dst: dst, commaOk: commaOk, et: et})
	ex.block(g, "receive")
}

func (ex *Exec) tryRecv(g *Gor, c *Chan, et types.Type) (v Value, ok, got bool) {
	if len(c.buf) > 0 {
		m := c.buf[0]
		c.buf = append([]chanMsg(nil), c.buf[1:]...)
		joinVC(&g.vc, m.vc)
		if w := popWaiter(&c.sendq); w != nil {
			c.buf = append(c.buf, chanMsg{w.v, w.g.snapshot()})
			ex.sendDone(w)
		}
		return m.v, true, true
	}
	if w := popWaiter(&c.sendq); w != nil {
		v := w.v
		joinVC(&g.vc, w.g.vc)
		joinVC(&w.g.vc, g.vc)
		ex.tick(g)
		ex.sendDone(w)
		return v, true, true
	}
	if c.closed {
		joinVC(&g.vc, c.vc)
		return ex.zero(et), false, true
	}
	return Value{}, false, false
}

func (ex *Exec) sendDone(w *waiter) {
	w.g.status = gRun
	ex.tick(w.g)
	if w.sel != nil {
		w.sel.done = true
		w.frame.regs[w.sel.dst] = ex.selResult(w.sel, w.idx, Value{}, false)
	}
}

func (ex *Exec) closeChan(cv Value) {
	if ex.noFork > 0 {
		panic(regionBail{})
	}
	c := ex.chanOf(cv)
	if c == nil {
		ex.goPanicStr("close of nil channel")
	}
	if c.closed {
		ex.goPanicStr("close of closed channel")
	}
	c.closed = true
	c.vc = ex.cur.snapshot()
	ex.tick(ex.cur)
	for {
		w := popWaiter(&c.recvq)
		if w == nil {
			break
		}
		joinVC(&w.g.vc, c.vc)
		ex.deliver(w, ex.zero(w.et), false)
	}
	for {
		w := popWaiter(&c.sendq)
		if w == nil {
			break
		}
		w.g.status = gRun
		g := w.g
		save := ex.cur
		ex.cur = g
		ex.startUnwind(g, Value{P: &Iface{ex.rtype(ex.tRuntimeErr), Value{P: "send on closed channel"}}})
		ex.cur = save
	}
	ex.syncPoint()
}

func (ex *Exec) selResult(s *selState, idx int, v Value, ok bool) Value {
	a := &Agg{E: make([]Value, 2+len(s.rcv))}
	a.E[0] = Value{N: uint64(int64(idx))}
	a.E[1] = boolV(ok)
	for i, t := range s.rcv {
		a.E[2+i] = ex.zero(t)
	}
	if idx >= 0 && s.pos[idx] >= 0 {
		a.E[2+s.pos[idx]] = v
	}
	return Value{P: a}
}

func (ex *Exec) compileSelect(fn *Fn, in *ssa.Select, dst int) instr {
	type st struct {
		ch, v operand
		send  bool
		et    types.Type
	}
	var sts []st
	var rcv []types.Type
	var pos []int
	for _, s := range in.States {
		x := st{ch: ex.operand(fn, s.Chan), send: s.Dir == types.SendOnly, et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if x.send {
			x.v = ex.operand(fn, s.Send)
			pos = append(pos, -1)
		} else {
			pos = append(pos, len(rcv))
			rcv = append(rcv, x.et)
		}
		sts = append(sts, x)
	}
	blocking := in.Blocking
	return func(ex *Exec, g *Gor, f *Frame) {
		if ex.noFork > 0 {
			panic(regionBail{})
		}
		ss := &selState{dst: dst, rcv: rcv, pos: pos}
		ex.syncPoint()
		var ready []int
		for i := range sts {
			c := ex.chanOf(f.get(&sts[i].ch))
			if c == nil {
				continue
			}
			if sts[i].send {
				if c.closed || hasWaiter(c.recvq) || len(c.buf) < c.cap {
					ready = append(ready, i)
				}
			} else if len(c.buf) > 0 || hasWaiter(c.sendq) || c.closed {
				ready = append(ready, i)
			}
		}
		if len(ready) > 0 {
			k := 0
			if len(ready) > 1 {
				k = ex.choose("", len(ready)) // select is free to take any ready case
			}
			i := ready[k]
			c := ex.chanOf(f.get(&sts[i].ch))
			if sts[i].send {
				ex.send(g, f, Value{P: c}, f.get(&sts[i].v))
				f.regs[dst] = ex.selResult(ss, i, Value{}, false)
			} else {
				v, ok, _ := ex.tryRecv(g, c, sts[i].et)
				f.regs[dst] = ex.selResult(ss, i, v, ok)
			}
			return
		}
		if !blocking {
			f.regs[dst] = ex.selResult(ss, -1, Value{}, false)
			return
		}
		for i := range sts {
			c := ex.chanOf(f.get(&sts[i].ch))
			if c == nil {
				continue
			}
			w := &waiter{g: g, ch: c, frame: f, sel: ss, idx: i, et: sts[i].et}
			if sts[i].send {
				w.v = f.get(&sts[i].v)
				c.sendq = append(c.sendq, w)
			} else {
				c.recvq = append(c.recvq, w)
			}
		}
		ex.block(g, "select")
	}
}

// ---- data races

type slotRace struct {
	wg   int // writer goroutine
	wc   int32
	rd   []int32 // read clocks by goroutine
	used bool
}

type syncState struct {
	vc      []int32
	locked  bool
	readers int
	once    int // 0 new, 1 running, 2 done
	count   int64
	pool    []Value
	wait    []*Gor
	m       *MapObj
}

func (ex *Exec) syncSlot(o *Obj, off int) *syncState {
	if o.sync == nil {
		o.sync = map[int]*syncState{}
		ex.syncTouched = append(ex.syncTouched, o)
	}
	s := o.sync[off]
	if s == nil {
		s = &syncState{}
		o.sync[off] = s
	}
	return s
}

func (ex *Exec) slotRace(o *Obj, i int) *slotRace {
	if o.race == nil {
		o.race = make([]slotRace, len(o.slots))
		if o.base {
			ex.syncTouched = append(ex.syncTouched, o)
		}
	}
	if i >= len(o.race) {
		return &slotRace{}
	}
	return &o.race[i]
}

func (ex *Exec) hb(g *Gor, who int, c int32) bool {
	return who == g.id || who < len(g.vc) && g.vc[who] >= c
}

func (ex *Exec) raceRead(o *Obj, i int) { ex.rdAccess(ex.slotRace(o, i), o.name) }

func (ex *Exec) raceWrite(o *Obj, i int) { ex.wrAccess(ex.slotRace(o, i), o.name) }

func (ex *Exec) clock(g *Gor) int32 {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	if g.vc[g.id] == 0 {
		g.vc[g.id] = 1
	}
	return g.vc[g.id]
}

func (ex *Exec) rdAccess(s *slotRace, name string) {
	g := ex.cur
	if g == nil || ex.inBase {
		return
	}
	c := ex.clock(g)
	if s.used && s.wc > 0 && !ex.hb(g, s.wg, s.wc) {
		ex.violation("data race", "read of "+name+" concurrent with a write", nil)
	}
	s.used = true
	for len(s.rd) <= g.id {
		s.rd = append(s.rd, 0)
	}
	s.rd[g.id] = c
}

func (ex *Exec) wrAccess(s *slotRace, name string) {
	g := ex.cur
	if g == nil || ex.inBase {
		return
	}
	c := ex.clock(g)
	if s.used {
		if s.wc > 0 && !ex.hb(g, s.wg, s.wc) {
			ex.violation("data race", "write of "+name+" concurrent with a write", nil)
		}
		for i, r := range s.rd {
			if r > 0 && !ex.hb(g, i, r) {
				ex.violation("data race", "write of "+name+" concurrent with a read", nil)
			}
		}
	}
	s.used, s.wg, s.wc, s.rd = true, g.id, c, nil
}

func (ex *Exec) raceMap(m *MapObj, write bool) {
	if !ex.path.race || m == nil {
		return
	}
	if !m.hasRac {
		m.hasRac = true
		ex.raceMaps = append(ex.raceMaps, m)
	}
	if write {
		ex.wrAccess(&m.race, "map")
	} else {
		ex.rdAccess(&m.race, "map")
	}
}
