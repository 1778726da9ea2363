package exec

import (
	"strings"

	"symgo/smt"
)

// release and acquire edges of the happens-before order.
func (ex *Exec) release(s *syncState) {
	joinVC(&s.vc, ex.cur.vc)
	ex.tick(ex.cur)
}

func (ex *Exec) acquire(s *syncState) { joinVC(&ex.cur.vc, s.vc) }

// ptrSync is the synchronisation state of the object p points at (one per slot).
func (ex *Exec) ptrSync(p Value) *syncState {
	o, ok := p.P.(*Obj)
	if !ok || o == nil {
		ex.nilDeref()
	}
	return ex.syncSlot(o, int(p.N))
}

// waitFor blocks g so that the current instruction is executed again.
func (ex *Exec) waitFor(g *Gor, s *syncState, why string) (Value, bool) {
	ex.block(g, why)
	g.retry = true
	s.wait = append(s.wait, g)
	// execute the call again when woken
	g.top.pc--
	return Value{}, false
}

func (ex *Exec) wake(s *syncState) {
	for _, g := range s.wait {
		if g.status == gBlocked {
			g.status = gRun
			g.retry = false
		}
	}
	s.wait = nil
}

func initSync() {
	S := func(name string, f func(ex *Exec, g *Gor, s *syncState, a []Value) (Value, bool)) {
		reg(name, func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
			ex.noSide()
			return f(ex, g, ex.ptrSync(a[0]), a)
		})
	}
	lock := func(ex *Exec, g *Gor, s *syncState, a []Value) (Value, bool) {
		ex.syncPoint()
		if s.locked || s.readers > 0 {
			return ex.waitFor(g, s, "lock")
		}
		s.locked = true
		ex.acquire(s)
		return Value{}, true
	}
	unlock := func(ex *Exec, g *Gor, s *syncState, a []Value) (Value, bool) {
		if !s.locked {
			ex.fatal("unlock of unlocked mutex")
		}
		s.locked = false
		ex.release(s)
		ex.wake(s)
		ex.syncPoint()
		return Value{}, true
	}
	try := func(ex *Exec, g *Gor, s *syncState, a []Value) (Value, bool) {
		if s.locked || s.readers > 0 {
			return boolV(false), true
		}
		s.locked = true
		ex.acquire(s)
		return boolV(true), true
	}
	S("(*sync.Mutex).Lock", lock)
	S("(*sync.Mutex).Unlock", unlock)
	S("(*sync.Mutex).TryLock", try)
	S("(*sync.RWMutex).Lock", lock)
	S("(*sync.RWMutex).Unlock", unlock)
	S("(*sync.RWMutex).TryLock", try)
	S("(*sync.RWMutex).RLock", func(ex *Exec, g *Gor, s *syncState, a []Value) (Value, bool) {
		ex.syncPoint()
		if s.locked {
			return ex.waitFor(g, s, "rlock")
		}
		s.readers++
		ex.acquire(s)
		return Value{}, true
	})
	S("(*sync.RWMutex).RUnlock", func(ex *Exec, g *Gor, s *syncState, a []Value) (Value, bool) {
		if s.readers == 0 {
			ex.fatal("unlock of unlocked mutex")
		}
		s.readers--
		ex.release(s)
		ex.wake(s)
		ex.syncPoint()
		return Value{}, true
	})
	S("(*sync.WaitGroup).Add", func(ex *Exec, g *Gor, s *syncState, a []Value) (Value, bool) {
		s.count += ex.concInt(a[1], 64, "WaitGroup.Add")
		if s.count < 0 {
			ex.goPanicStr("sync: negative WaitGroup counter")
		}
		ex.release(s)
		if s.count == 0 {
			ex.wake(s)
		}
		return Value{}, true
	})
	S("(*sync.WaitGroup).Done", func(ex *Exec, g *Gor, s *syncState, a []Value) (Value, bool) {
		s.count--
		if s.count < 0 {
			ex.goPanicStr("sync: negative WaitGroup counter")
		}
		ex.release(s)
		if s.count == 0 {
			ex.wake(s)
		}
		ex.syncPoint()
		return Value{}, true
	})
	S("(*sync.WaitGroup).Wait", func(ex *Exec, g *Gor, s *syncState, a []Value) (Value, bool) {
		if s.count > 0 {
			return ex.waitFor(g, s, "WaitGroup.Wait")
		}
		ex.acquire(s)
		return Value{}, true
	})
	S("(*sync.Once).Do", func(ex *Exec, g *Gor, s *syncState, a []Value) (Value, bool) {
		switch s.once {
		case 2:
			ex.acquire(s)
			return Value{}, true
		case 1:
			return ex.waitFor(g, s, "Once.Do")
		}
		s.once = 1
		defer func() {
			// also when f panics
			s.once = 2
			ex.release(s)
			ex.wake(s)
		}()
		c, _ := a[1].P.(*Closure)
		if c == nil {
			ex.nilDeref()
		}
		ex.callSync(c, nil)
		return Value{}, true
	})
	S("(*sync.Pool).Get", func(ex *Exec, g *Gor, s *syncState, a []Value) (Value, bool) {
		// a pool may keep or drop values: reuse is explored whenever something was put back
		if n := len(s.pool); n > 0 {
			v := s.pool[n-1]
			s.pool = append([]Value(nil), s.pool[:n-1]...)
			ex.acquire(s)
			return v, true
		}
		// field New is the last slot of the pool
		o := a[0].P.(*Obj)
		l := ex.layoutOf(ex.P.ByPath["sync"].Pkg.Scope().Lookup("Pool").Type())
		c, _ := o.slots[int(a[0].N)+l.size-1].P.(*Closure)
		if c == nil {
			return Value{}, true
		}
		return ex.callSync(c, nil), true
	})
	S("(*sync.Pool).Put", func(ex *Exec, g *Gor, s *syncState, a []Value) (Value, bool) {
		s.pool = append(append([]Value(nil), s.pool...), a[1])
		ex.release(s)
		return Value{}, true
	})
	// sync.Map
	smap := func(ex *Exec, s *syncState) *MapObj {
		if s.m == nil {
			save := ex.inBase
			s.m = ex.newMap(ex.tEmptyIface)
			ex.inBase = save
			s.m.base = false
		}
		return s.m
	}
	quiet := func(ex *Exec, f func()) {
		r := ex.path.race
		ex.path.race = false
		defer func() { ex.path.race = r }()
		f()
	}
	S("(*sync.Map).Load", func(ex *Exec, g *Gor, s *syncState, a []Value) (r Value, _ bool) {
		ex.acquire(s)
		quiet(ex, func() {
			v, ok := ex.mapGet(smap(ex, s), a[1], ex.tEmptyIface)
			r = tuple(v, boolV(ok))
		})
		ex.syncPoint()
		return r, true
	})
	S("(*sync.Map).Store", func(ex *Exec, g *Gor, s *syncState, a []Value) (Value, bool) {
		ex.release(s)
		quiet(ex, func() { ex.mapPut(smap(ex, s), a[1], a[2], ex.tEmptyIface) })
		ex.syncPoint()
		return Value{}, true
	})
	S("(*sync.Map).LoadOrStore", func(ex *Exec, g *Gor, s *syncState, a []Value) (r Value, _ bool) {
		ex.acquire(s)
		quiet(ex, func() {
			v, ok := ex.mapGet(smap(ex, s), a[1], ex.tEmptyIface)
			if !ok {
				v = a[2]
				ex.mapPut(smap(ex, s), a[1], v, ex.tEmptyIface)
			}
			r = tuple(v, boolV(ok))
		})
		ex.release(s)
		ex.syncPoint()
		return r, true
	})
	S("(*sync.Map).Delete", func(ex *Exec, g *Gor, s *syncState, a []Value) (Value, bool) {
		quiet(ex, func() { ex.mapDelete(smap(ex, s), a[1], ex.tEmptyIface) })
		return Value{}, true
	})

	// atomics: functions and methods of the typed wrappers
	atomic := func(ex *Exec, g *Gor, a []Value, fn *Fn, op string) (Value, bool) {
		ex.noSide()
		p := a[0]
		o, ok := p.P.(*Obj)
		if !ok || o == nil {
			ex.nilDeref()
		}
		off := int(p.N)
		s := ex.syncSlot(o, off)
		ex.acquire(s)
		defer ex.syncPoint()
		cur := o.slots[off]
		bits := uint8(64)
		if strings.Contains(fn.name, "32") {
			bits = 32
		}
		set := func(v Value) {
			r := ex.path.race
			ex.path.race = false
			ex.setSlot(o, off, v)
			ex.path.race = r
			ex.release(s)
		}
		switch op {
		case "Load":
			return cur, true
		case "Store":
			set(a[1])
			return Value{}, true
		case "Swap":
			set(a[1])
			return cur, true
		case "Add":
			v := ex.termV(ex.M.Bin(smt.OAdd, ex.term(cur, bits), ex.term(a[1], bits)))
			set(v)
			return v, true
		case "CompareAndSwap":
			same := false
			if cur.T == nil && a[1].T == nil {
				same = cur.N == a[1].N && cur.P == a[1].P
			} else {
				same = ex.branch(ex.M.Eq(ex.term(cur, bits), ex.term(a[1], bits)))
			}
			if same {
				set(a[2])
			}
			return boolV(same), true
		}
		ex.unsupported("%s", fn.name)
		return Value{}, true
	}
	for _, op := range []string{"Load", "Store", "Swap", "Add", "CompareAndSwap"} {
		for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
			op := op
			reg("sync/atomic."+op+t, func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
				return atomic(ex, g, a, fn, op)
			})
		}
	}
	// the wrapper types call these functions, except Value
	reg("(*sync/atomic.Value).Load", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		return atomic(ex, g, a, fn, "Load")
	})
	reg("(*sync/atomic.Value).Store", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		return atomic(ex, g, a, fn, "Store")
	})
	reg("(*sync/atomic.Value).Swap", func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) {
		return atomic(ex, g, a, fn, "Swap")
	})
	nop := func(ex *Exec, g *Gor, a []Value, fn *Fn) (Value, bool) { return Value{}, true }
	reg("internal/race.Acquire", nop)
	reg("internal/race.Release", nop)
}
