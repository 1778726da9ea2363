package exec

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"symgo/smt"
)

// Config of a run.
type Config struct {
	Solver, AltSolver string
	QueryTimeout      time.Duration
	MaxDepth          int
	MaxDecs           int   // decisions per path
	MaxSteps          int64 // instructions per path: more is taken for a hang
	ValidateEvery     int   // every so many paths the whole path condition is put to the solver
	Seed              int64
	Known             map[string]bool
	Tier              int
}

// Stats of a worker.
type Stats struct {
	Paths, Infeasible, Unsupported int64
	Steps                          int64
	Branches                       int64 // decisions with two feasible sides
	Presolved                      int64 // decided on byte domains
	ModelHits                      int64
	Asserts, AssertsSym            int64
	SolverAsserts                  int64 // assertions put to the solver
	Unknown                        int64
	BadModel                       int64
	Validated                      int64
	Merges                         int64
	MaxPC                          int64
	UnsupWhy                       map[string]int64
	Reached                        map[string]int64
	Labels                         map[string]int64 // assertions by label
	KnownHit                       map[string]int64
}

// Dec is a recorded decision.
type Dec struct {
	V       uint64
	Site    uint32
	B       bool
	Implied bool
}

// Item is a path prefix to explore.
type Item struct {
	Decs  []Dec
	Model *smt.Model        // in the worker's variable numbering
	Named map[string]uint64 // when moved between workers
}

// Violation is a candidate counterexample.
type Violation struct {
	Label   string
	Detail  string
	Assign  map[string]uint64 // variables
	Choice  map[string]int64  // choices, lengths, kinds ...
	Trace   []string
	Reached []string
	Reduced bool // produced for a native run of an unsupported path
}

// Path is the state of the current path.
type Path struct {
	prefix  []Dec
	n       int // decisions taken
	decs    []Dec
	pc      []*smt.Term
	model   *smt.Model
	facts   map[*smt.Term]bool
	choice  map[string]int64
	vars    []int32
	varSeen map[int32]bool
	impure  map[int32]bool

	init     bool
	race     bool
	frozen   bool
	sched    bool // explore schedules
	preempt  int
	permute  bool
	raceSeen map[string]bool
	notes    []string
	viols    []*Violation
	reduced  string
	lazies   map[string]*Lazy
	nodes    map[string]*Obj
	memo     map[string]Value
	chanN    int
	chooseN  int
	conc     map[*smt.Term]uint64
	reached  []string
}

func newPath(ex *Exec) *Path {
	return &Path{model: smt.NewModel(), facts: map[*smt.Term]bool{}, choice: map[string]int64{},
		varSeen: map[int32]bool{}, impure: map[int32]bool{}, lazies: map[string]*Lazy{}, memo: map[string]Value{}, conc: map[*smt.Term]uint64{}}
}

type pathEnd struct {
	why string
}

type regionBail struct{}

const (
	endDone       = "done"
	endInfeasible = "infeasible"
	endViolation  = "violation"
	endUnknown    = "unknown"
	endDiverged   = "diverged"
	endTimeout    = "timeout" // the budget is used up
	endCut        = "cut"     // more decisions than the bound
)

// newVar registers a variable of the path.
func (ex *Exec) newVar(name string, s uint8) *smt.Term {
	t := ex.M.Var(name, s)
	idx := int32(t.K)
	if !ex.path.varSeen[idx] {
		ex.path.varSeen[idx] = true
		ex.path.vars = append(ex.path.vars, idx)
		v := ex.M.Vars[idx]
		v.Pure = s == 8
		if x, ok := ex.pendNamed[name]; ok {
			delete(ex.pendNamed, name)
			ex.path.model.M[idx] = x
			ex.M.Touch()
		}
		v.ResetVar()
		ex.M.DomChanged()
	}
	return t
}

// decided tells the truth value of c when the path fixes it.
func (ex *Exec) decided(c *smt.Term) (bool, bool) {
	if c.Op == smt.OConst {
		return c.K != 0, true
	}
	if b, ok := ex.path.facts[c]; ok {
		return b, true
	}
	if c.Op == smt.ONot {
		if b, ok := ex.path.facts[c.A]; ok {
			return !b, true
		}
	}
	if c.V1 >= 0 {
		v := ex.M.Vars[c.V1]
		if v.S == 8 {
			tr := ex.M.Truth(c)
			in, out := false, false
			for i := range tr {
				in = in || v.Dom[i]&tr[i] != 0
				out = out || v.Dom[i]&^tr[i] != 0
			}
			if !in || !out {
				ex.stats.Presolved++
				ex.path.facts[c] = in
				return in, true
			}
		}
	}
	if v, ok := ex.M.Decide(c); ok {
		ex.stats.Presolved++
		ex.path.facts[c] = v
		return v, true
	}
	if c.Op == smt.OAnd {
		if b, ok := ex.decided(c.A); ok && !b {
			return false, true
		}
		if b, ok := ex.decided(c.B); ok && !b {
			return false, true
		}
	}
	if c.Op == smt.OOr {
		if b, ok := ex.decided(c.A); ok && b {
			return true, true
		}
		if b, ok := ex.decided(c.B); ok && b {
			return true, true
		}
	}
	return false, false
}

func (ex *Exec) fact(c *smt.Term, b bool) {
	if c.Op == smt.OConst {
		return
	}
	p := ex.path
	p.facts[c] = b
	switch {
	case c.Op == smt.ONot:
		ex.fact(c.A, !b)
	case c.Op == smt.OAnd && b:
		ex.fact(c.A, true)
		ex.fact(c.B, true)
	case c.Op == smt.OOr && !b:
		ex.fact(c.A, false)
		ex.fact(c.B, false)
	}
}

// addPC adds c (known to be true under the model) to the path condition.
func (ex *Exec) addPC(c *smt.Term) {
	p := ex.path
	p.pc = append(p.pc, c)
	ex.fact(c, true)
	ex.domain(c)
}

func (ex *Exec) domain(c *smt.Term) {
	p := ex.path
	if c.Op == smt.OAnd {
		ex.domain(c.A)
		ex.domain(c.B)
		return
	}
	if c.Op == smt.ONot && c.A.Op == smt.OOr {
		ex.domain(ex.M.Not(c.A.A))
		ex.domain(ex.M.Not(c.A.B))
		return
	}
	if ex.M.Learn(c) {
		ex.M.DomChanged()
	}
	if c.V1 >= 0 {
		v := ex.M.Vars[c.V1]
		if v.S == 8 {
			tr := ex.M.Truth(c)
			for i := range tr {
				v.Dom[i] &= tr[i]
			}
			ex.M.DomChanged()
		}
		return
	}
	ex.M.CollectVars(c, func(i int32) {
		v := ex.M.Vars[i]
		if v.Pure {
			v.Pure = false
			_ = p
		}
	})
}

func litFor(ex *Exec, c *smt.Term, b bool) *smt.Term {
	if b {
		return c
	}
	return ex.M.Not(c)
}

// solve decides path condition plus extra. On Sat it returns a complete model.
func (ex *Exec) solve(extra *smt.Term) (smt.Result, *smt.Model) {
	p := ex.path
	// a single byte variable without other constraints needs no solver
	if extra != nil && extra.V1 >= 0 {
		v := ex.M.Vars[extra.V1]
		if v.S == 8 {
			tr := ex.M.Truth(extra)
			var d [4]uint64
			n := uint64(0)
			for i := range tr {
				d[i] = v.Dom[i] & tr[i]
				n |= d[i]
			}
			if n == 0 {
				ex.stats.Presolved++
				return smt.Unsat, nil
			}
			if v.Pure {
				ex.stats.Presolved++
				md := p.model.Clone()
				md.M[extra.V1] = uint64(smt.FirstBit(&d))
				return smt.Sat, md
			}
		}
	}
	fp := extra != nil && extra.HasFP
	for _, c := range p.pc {
		if c.HasFP {
			fp = true
			break
		}
	}
	// keep only the constraints connected to extra
	pc := p.pc
	if extra != nil && len(pc) > 8 {
		pc = ex.slice(pc, extra)
	}
	if md := ex.guess(pc, extra); md != nil {
		ex.stats.ModelHits++
		return smt.Sat, md
	}
	ex.solv.Deadline, ex.alt.Deadline = ex.Deadline, ex.Deadline
	s, o := ex.solv, ex.alt
	if fp {
		s, o = ex.alt, ex.solv
	}
	for try := 0; try < 24; try++ {
		vars := ex.queryVars(pc, extra)
		r, vals := s.Check(pc, extra, vars)
		if r == smt.Unknown {
			r, vals = o.Check(pc, extra, vars)
		}
		if r != smt.Sat {
			if r == smt.Unknown {
				ex.stats.Unknown++
			}
			return r, nil
		}
		md := p.model.Clone()
		for k, v := range vals {
			md.M[k] = v
		}
		// check natively
		save := p.model
		ex.M.SetModel(md)
		ok := extra == nil || ex.M.Eval(extra) != 0
		for _, c := range pc {
			if !ok {
				break
			}
			ok = ex.M.Eval(c) != 0
		}
		if ok {
			ex.M.SetModel(save)
			ex.remember(md)
			return smt.Sat, md
		}
		// fmod is uninterpreted: add instances
		var ax []*smt.Term
		add := func(c *smt.Term) {
			ex.M.CollectMods(c, func(t *smt.Term) {
				a, b, v := ex.M.Eval(t.A), ex.M.Eval(t.B), ex.M.Eval(t)
				m := ex.M
				ax = append(ax, m.Or(m.Not(m.And(m.Eq(t.A, m.Const(smt.SF64, a)), m.Eq(t.B, m.Const(smt.SF64, b)))), m.Eq(t, m.Const(smt.SF64, v))))
				// general facts: |r| <= |a|, |r| < |b|
				ra := m.F(smt.OFAbs, t, nil, 0)
				aa := m.F(smt.OFAbs, t.A, nil, 0)
				ab := m.F(smt.OFAbs, t.B, nil, 0)
				nan := m.F(smt.OFIsNaN, t, nil, 0)
				ax = append(ax, m.Or(nan, m.And(m.F(smt.OFLe, ra, aa, 0), m.F(smt.OFLt, ra, ab, 0))))
			})
		}
		if extra != nil {
			add(extra)
		}
		for _, c := range pc {
			add(c)
		}
		ex.M.SetModel(save)
		if len(ax) == 0 {
			ex.stats.BadModel++
			return smt.Unknown, nil
		}
		npc := append([]*smt.Term{}, pc...)
		for _, a := range ax {
			if a.Op != smt.OConst {
				npc = append(npc, a)
			}
		}
		if len(npc) == len(pc) {
			ex.stats.BadModel++
			return smt.Unknown, nil
		}
		pc = npc
	}
	ex.stats.Unknown++
	return smt.Unknown, nil
}

// slice keeps the constraints that share variables, transitively, with t.
func (ex *Exec) slice(pc []*smt.Term, t *smt.Term) []*smt.Term {
	want := map[int32]bool{}
	ex.M.CollectVars(t, func(v int32) { want[v] = true })
	vs := make([][]int32, len(pc))
	for i, c := range pc {
		if c.V1 >= 0 {
			vs[i] = []int32{c.V1}
			continue
		}
		ex.M.CollectVars(c, func(v int32) { vs[i] = append(vs[i], v) })
	}
	in := make([]bool, len(pc))
	for ch := true; ch; {
		ch = false
		for i := range pc {
			if in[i] {
				continue
			}
			for _, v := range vs[i] {
				if want[v] {
					in[i] = true
					ch = true
					for _, w := range vs[i] {
						want[w] = true
					}
					break
				}
			}
		}
	}
	var r []*smt.Term
	for i, c := range pc {
		if in[i] {
			r = append(r, c)
		}
	}
	return r
}

func (ex *Exec) queryVars(pc []*smt.Term, extra *smt.Term) []int32 {
	seen := map[int32]bool{}
	var r []int32
	f := func(v int32) {
		if !seen[v] {
			seen[v] = true
			r = append(r, v)
		}
	}
	for _, c := range pc {
		ex.M.CollectVars(c, f)
	}
	if extra != nil {
		ex.M.CollectVars(extra, f)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

// next gives the next decision of the prefix, if any is left.
func (ex *Exec) next() (Dec, bool) {
	p := ex.path
	var site uint32
	if ex.cur != nil && ex.cur.top != nil {
		f := ex.cur.top
		site = f.fn.hash ^ uint32(f.blk.idx)<<16 ^ uint32(f.pc)
	}
	if p.n < len(p.prefix) {
		d := p.prefix[p.n]
		p.n++
		if d.Site != site {
			panic(pathEnd{endDiverged})
		}
		return d, true
	}
	p.n++
	if p.n > ex.Cfg.MaxDecs {
		panic(pathEnd{endCut})
	}
	ex.checkTime()
	return Dec{Site: site}, false
}

// checkTime ends the path when the budget is used up.
func (ex *Exec) checkTime() {
	if !ex.Deadline.IsZero() && ex.noFork == 0 && !ex.path.init && time.Now().After(ex.Deadline) {
		panic(pathEnd{endTimeout})
	}
}

func (ex *Exec) pushAlt(d Dec, md *smt.Model) {
	p := ex.path
	decs := make([]Dec, len(p.decs)+1)
	copy(decs, p.decs)
	decs[len(p.decs)] = d
	ex.alts = append(ex.alts, &Item{Decs: decs, Model: md})
}

func (ex *Exec) setModel(md *smt.Model) {
	ex.path.model = md
	ex.M.SetModel(md)
}

// branch takes a side of c, leaving the other for later when it is feasible too.
func (ex *Exec) branch(c *smt.Term) bool {
	if c.Op == smt.OConst {
		return c.K != 0
	}
	return ex.branchV(c)
}

func (ex *Exec) branchV(c *smt.Term) bool {
	if b, ok := ex.decided(c); ok {
		return b
	}
	if ex.noFork > 0 {
		panic(regionBail{})
	}
	p := ex.path
	d, ok := ex.next()
	if ok {
		p.decs = append(p.decs, d)
		if d.Implied {
			ex.fact(c, d.B)
		} else {
			ex.addPC(litFor(ex, c, d.B))
		}
		return d.B
	}
	b := ex.M.Eval(c) != 0
	other := litFor(ex, c, !b)
	r, md := ex.solve(other)
	d.B = b
	switch r {
	case smt.Sat:
		ex.stats.Branches++
		alt := d
		alt.B = !b
		ex.pushAlt(alt, md)
	case smt.Unsat:
		d.Implied = true
	}
	p.decs = append(p.decs, d)
	if d.Implied {
		ex.fact(c, b)
	} else {
		ex.addPC(litFor(ex, c, b))
	}
	return b
}

// concretize gives t a concrete value, forking over all feasible ones.
func (ex *Exec) concretize(t *smt.Term, why string) uint64 {
	if t.Op == smt.OConst {
		return t.K
	}
	if ex.noFork > 0 {
		panic(regionBail{})
	}
	p := ex.path
	if v, ok := p.conc[t]; ok {
		return v
	}
	for n := 0; ; n++ {
		if n > 300 {
			ex.unsupported("too many values: %s", why)
		}
		d, replay := ex.next()
		if !replay {
			d.V = ex.M.Eval(t)
		}
		c := ex.M.Eq(t, ex.M.Const(t.S, d.V))
		if !replay {
			d.B = true
			if _, ok := ex.decided(c); ok {
				d.Implied = true
			} else {
				r, md := ex.solve(ex.M.Not(c))
				switch r {
				case smt.Sat:
					ex.stats.Branches++
					alt := d
					alt.B = false
					ex.pushAlt(alt, md)
				case smt.Unsat:
					d.Implied = true
				}
			}
		}
		p.decs = append(p.decs, d)
		if d.Implied {
			ex.fact(c, d.B)
		} else {
			ex.addPC(litFor(ex, c, d.B))
		}
		if d.B {
			p.conc[t] = d.V
			return d.V
		}
	}
}

// choose picks one of n alternatives without constraint; all are explored.
func (ex *Exec) choose(name string, n int) int {
	if n <= 1 {
		if name != "" {
			ex.path.choice[name] = 0
		}
		return 0
	}
	if ex.noFork > 0 {
		panic(regionBail{})
	}
	p := ex.path
	if name != "" {
		if v, ok := p.choice[name]; ok {
			return int(v)
		}
	}
	d, ok := ex.next()
	if !ok {
		for i := n - 1; i >= 1; i-- {
			alt := d
			alt.V = uint64(i)
			ex.pushAlt(alt, p.model)
		}
		ex.stats.Branches++
	}
	p.decs = append(p.decs, d)
	// the choice is a variable like any other input
	vn := name
	if vn == "" {
		p.chooseN++
		vn = "#" + itoa(p.chooseN)
	}
	w := uint8(8)
	if n > 256 {
		w = 16
	}
	t := ex.newVar("choice "+vn, w)
	p.model.M[int32(t.K)] = d.V
	ex.M.Touch()
	ex.addPC(ex.M.Eq(t, ex.M.Const(w, d.V)))
	if name != "" {
		p.choice[name] = int64(d.V)
	}
	return int(d.V)
}

// assume restricts the path to c.
func (ex *Exec) assume(c *smt.Term) {
	if b, ok := ex.decided(c); ok {
		if !b {
			panic(pathEnd{endInfeasible})
		}
		return
	}
	if ex.noFork > 0 {
		panic(regionBail{})
	}
	if ex.path.n < len(ex.path.prefix) || ex.M.Eval(c) != 0 {
		// while replaying, the model is known to satisfy all later constraints of the prefix
		if ex.M.Eval(c) != 0 {
			ex.addPC(c)
			return
		}
	}
	r, md := ex.solve(c)
	switch r {
	case smt.Unsat:
		panic(pathEnd{endInfeasible})
	case smt.Unknown:
		panic(pathEnd{endUnknown})
	}
	ex.setModel(md)
	ex.addPC(c)
}

// assert checks c for all values on the path.
func (ex *Exec) assert(c *smt.Term, label string) {
	ex.stats.Asserts++
	ex.stats.Labels[label]++
	if c.IsTrue() {
		return
	}
	if ex.noFork > 0 {
		panic(regionBail{})
	}
	if c.IsFalse() {
		ex.violation(label, "", nil)
		return
	}
	ex.stats.AssertsSym++
	if b, ok := ex.path.facts[c]; ok && b {
		return
	}
	p := ex.path
	if p.n < len(p.prefix) {
		// already checked when the prefix was explored first
		d, _ := ex.next()
		p.decs = append(p.decs, d)
		if !d.Implied {
			ex.addPC(c)
		} else if d.B {
			ex.fact(c, true)
		}
		return
	}
	ex.stats.SolverAsserts++
	r, md := ex.solve(ex.M.Not(c))
	switch r {
	case smt.Unsat:
		d, _ := ex.next()
		d.B, d.Implied = true, true
		p.decs = append(p.decs, d)
		ex.fact(c, true)
	case smt.Sat:
		save := p.model
		ex.setModel(md)
		ex.addViolation(label, "")
		// go on with the values for which it holds
		r2, md2 := smt.Sat, save
		ex.setModel(save)
		if ex.M.Eval(c) == 0 {
			r2, md2 = ex.solve(c)
		}
		if r2 != smt.Sat {
			panic(pathEnd{endViolation})
		}
		ex.setModel(md2)
		d, _ := ex.next()
		d.B = true
		p.decs = append(p.decs, d)
		ex.addPC(c)
	default:
		d, _ := ex.next()
		d.Implied = true
		p.decs = append(p.decs, d)
		// neither: go on under the model
		if ex.M.Eval(c) == 0 {
			ex.addViolation(label, "")
			panic(pathEnd{endViolation})
		}
	}
}

// addViolation records a candidate with the current model.
func (ex *Exec) addViolation(label, detail string) {
	p := ex.path
	v := &Violation{Label: label, Detail: detail, Assign: map[string]uint64{}, Choice: map[string]int64{}}
	ex.M.SetModel(p.model)
	for _, i := range p.vars {
		v.Assign[ex.M.Vars[i].Name] = ex.M.Eval(ex.M.Vars[i].T)
	}
	for k, c := range p.choice {
		v.Choice[k] = c
	}
	v.Trace = ex.trace()
	v.Reached = append([]string(nil), p.reached...)
	ex.viols = append(ex.viols, v)
}

// violation records a failure on this path and ends the path.
func (ex *Exec) violation(label, detail string, cond *smt.Term) {
	if ex.noFork > 0 {
		panic(regionBail{})
	}
	ex.addViolation(label, detail)
	panic(pathEnd{endViolation})
}

func (ex *Exec) fatal(why string) {
	ex.violation("fatal: "+why, "", nil)
}

func (ex *Exec) trace() []string {
	var r []string
	if ex.cur == nil {
		return r
	}
	for f := ex.cur.top; f != nil && len(r) < 12; f = f.caller {
		pos := ""
		if f.pc > 0 && f.pc-1 < len(f.blk.code) {
			pos = ""
		}
		r = append(r, f.fn.name+pos)
	}
	return r
}

// RunPath explores one path from item with body as entry; it returns new items.
func (ex *Exec) RunPath(it *Item, entry *Fn) (alts []*Item, viols []*Violation, end string) {
	// undo changes to the base state
	ex.restore()
	p := newPath(ex)
	p.prefix = it.Decs
	if it.Model != nil {
		p.model = it.Model.Clone()
	}
	ex.path = p
	if it.Named != nil {
		for k, v := range it.Named {
			if t := ex.M.Lookup(k); t != nil {
				p.model.M[int32(t.K)] = v
			} else {
				ex.pendNamed[k] = v
			}
		}
	}
	ex.M.SetModel(p.model)
	ex.alts, ex.viols = nil, nil
	ex.gs = nil
	ex.nextObj = ex.baseNext
	ex.steps = 0
	ex.noFork = 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case pathEnd:
					end = e.why
				case Unsupported:
					end = "unsupported"
					ex.stats.Unsupported++
					ex.stats.UnsupWhy[e.Why]++
					// hand the path's model to a native run
					ex.addViolation("unsupported", e.Why)
					ex.viols[len(ex.viols)-1].Reduced = true
				default:
					// a defect of the engine: run the path's model natively instead
					end = "unsupported"
					ex.stats.Unsupported++
					why := fmt.Sprint("internal error: ", r)
					if ex.stats.UnsupWhy[why] == 0 && os.Getenv("SYMGO_DEBUG") != "" {
						fmt.Fprintf(os.Stderr, "%s\nin %s\n%s\n", why, strings.Join(ex.trace(), " < "), debug.Stack())
					}
					ex.stats.UnsupWhy[why]++
					ex.noFork = 0
					ex.addViolation("unsupported", why)
					ex.viols[len(ex.viols)-1].Reduced = true
				}
			}
		}()
		g := ex.newGor()
		ex.cur = g
		ex.pushFrame(g, entry, nil, nil, -1)
		ex.run()
		end = endDone
	}()
	ex.stats.Steps += ex.steps
	switch end {
	case endInfeasible:
		ex.stats.Infeasible++
	default:
		ex.stats.Paths++
	}
	if n := int64(len(p.pc)); n > ex.stats.MaxPC {
		ex.stats.MaxPC = n
	}
	if end == endDone && ex.Cfg.ValidateEvery > 0 && ex.stats.Paths%int64(ex.Cfg.ValidateEvery) == 1 && len(p.pc) > 0 {
		// cross-check: the solver must agree that the path is feasible
		hasFP := false
		for _, c := range p.pc {
			hasFP = hasFP || c.HasFP
		}
		if !hasFP {
			r, _ := ex.solv.Check(p.pc, nil, nil)
			if r == smt.Unsat {
				panic(fmt.Sprintf("internal error: explored path is infeasible (pc of %d)", len(p.pc)))
			}
			if r == smt.Sat {
				ex.stats.Validated++
			}
		}
	}
	return ex.alts, ex.viols, end
}

// restore undoes the changes a path made to base objects.
func (ex *Exec) restore() {
	for i := len(ex.undo) - 1; i >= 0; i-- {
		u := &ex.undo[i]
		u.o.slots[u.off] = u.old
	}
	ex.undo = ex.undo[:0]
	for i := len(ex.undoM) - 1; i >= 0; i-- {
		u := &ex.undoM[i]
		u.m.restore(u)
	}
	ex.undoM = ex.undoM[:0]
	for _, o := range ex.syncTouched {
		o.sync = nil
		o.race = nil
	}
	ex.syncTouched = ex.syncTouched[:0]
	for _, m := range ex.raceMaps {
		m.race = slotRace{}
		m.hasRac = false
	}
	ex.raceMaps = ex.raceMaps[:0]
}

// Export converts an item for another worker.
func (ex *Exec) Export(it *Item) *Item {
	n := &Item{Decs: it.Decs, Named: map[string]uint64{}}
	if it.Model != nil {
		for k, v := range it.Model.M {
			n.Named[ex.M.Vars[k].Name] = v
		}
	}
	for k, v := range it.Named {
		n.Named[k] = v
	}
	return n
}

var _ = rand.Int
