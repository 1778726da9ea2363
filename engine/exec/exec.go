package exec

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"

	"symgo/smt"
)

// Program is the loaded SSA program, shared read-only by the workers.
type Program struct {
	Prog   *ssa.Program
	Pkgs   []*packages.Package
	ByPath map[string]*ssa.Package
	mu     sync.Mutex
	Models map[string]*ssa.Function // std function name -> replacement
	Vars   map[string]*ssa.Global   // std variable name -> replacement
	LoadS  float64
	Target string // import path prefix of the code under test
	preds  sync.Map
	allPkg []*ssa.Package
}

// Load loads the harness module in dir with the named packages.
func Load(dir string, env []string, target string, patterns ...string) (*Program, error) {
	t0 := time.Now()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), env...)}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Prog: prog, Pkgs: ps, ByPath: map[string]*ssa.Package{}, Models: map[string]*ssa.Function{}, Target: target}
	for _, sp := range prog.AllPackages() {
		p.ByPath[sp.Pkg.Path()] = sp
		p.allPkg = append(p.allPkg, sp)
	}
	p.LoadS = time.Since(t0).Seconds()
	return p, nil
}

// Model replaces the std functions and variables named by the keys with those of package env.
func (p *Program) Model(env, main *ssa.Package, fns, vars map[string]string) error {
	p.Vars = map[string]*ssa.Global{}
	for k, v := range fns {
		f := env.Func(v)
		if v == "main" {
			f = main.Func(v)
		}
		if f == nil {
			return fmt.Errorf("no model %s", v)
		}
		p.Models[k] = f
	}
	for k, v := range vars {
		g := env.Var(v)
		if i := strings.LastIndexByte(v, '.'); i >= 0 && p.ByPath[v[:i]] != nil {
			g = p.ByPath[v[:i]].Var(v[i+1:])
		}
		if g == nil {
			return fmt.Errorf("no model %s", v)
		}
		p.Vars[k] = g
	}
	return nil
}

// Exec is one worker's interpreter.
type Exec struct {
	Deadline time.Time // end of the budget
	P        *Program
	M        *smt.Mgr
	Cfg      *Config
	solv     *smt.Solver
	alt      *smt.Solver

	layouts   map[types.Type]*layout
	rtypes    typeutil.Map
	rtypeFast map[types.Type]*RType
	byteC     [256]*smt.Term
	fns       map[*ssa.Function]*Fn
	globals   map[*ssa.Global]*Obj
	methods   map[methodKey]*Fn
	nextObj   int64
	inBase    bool
	baseNext  int64
	impls     map[implKey]bool
	inited    map[*ssa.Package]bool

	// types used by the engine
	tEmptyIface types.Type
	tJSONArr    types.Type
	tJSONObj    types.Type
	tRuntimeErr types.Type
	tRegexp     types.Type
	rNil        *RType
	rBool       *RType
	rFloat      *RType
	rString     *RType
	rArr        *RType
	rObj        *RType
	rInt64      *RType

	path    *Path // current path state
	undo    []undoRec
	undoM   []undoMap
	gs      []*Gor
	cur     *Gor
	steps   int64
	noFork  int
	yield   bool
	yielded *Gor

	alts        []*Item
	viols       []*Violation
	recent      []*smt.Model // solutions of late
	recentN     int
	pendNamed   map[string]uint64
	syncTouched []*Obj
	raceMaps    []*MapObj

	Cov   map[string]int64 // function name -> times entered (code under test only)
	Enc   *EncStats
	stats *Stats
}

type methodKey struct {
	t    types.Type
	name string
}

type undoRec struct {
	o   *Obj
	off int
	old Value
}

type undoMap struct {
	m    *MapObj
	ents []*MapEnt
	vals []MapEnt
}

type EncStats struct {
	Merged int64
	Bail   int64
}

func NewExec(p *Program, cfg *Config) *Exec {
	ex := &Exec{P: p, M: smt.NewMgr(), Cfg: cfg,
		layouts: map[types.Type]*layout{}, rtypeFast: map[types.Type]*RType{}, fns: map[*ssa.Function]*Fn{},
		globals: map[*ssa.Global]*Obj{}, methods: map[methodKey]*Fn{}, inited: map[*ssa.Package]bool{},
		Cov: map[string]int64{}, Enc: &EncStats{}, stats: &Stats{UnsupWhy: map[string]int64{}, Reached: map[string]int64{}, Labels: map[string]int64{}, KnownHit: map[string]int64{}},
		pendNamed: map[string]uint64{}, impls: map[implKey]bool{}}
	for i := range ex.byteC {
		ex.byteC[i] = ex.M.Const(8, uint64(i))
	}
	any := types.NewInterfaceType(nil, nil).Complete()
	ex.tEmptyIface = any
	ex.tJSONArr = types.NewSlice(any)
	ex.tJSONObj = types.NewMap(types.Typ[types.String], any)
	ex.rBool = ex.rtype(types.Typ[types.Bool])
	ex.rFloat = ex.rtype(types.Typ[types.Float64])
	ex.rString = ex.rtype(types.Typ[types.String])
	ex.rInt64 = ex.rtype(types.Typ[types.Int64])
	ex.rArr = ex.rtype(ex.tJSONArr)
	ex.rObj = ex.rtype(ex.tJSONObj)
	ex.rBool.jk, ex.rFloat.jk, ex.rString.jk, ex.rArr.jk, ex.rObj.jk = KBool, KNum, KStr, KArr, KObj
	if rp := p.ByPath["runtime"]; rp != nil {
		if o := rp.Pkg.Scope().Lookup("errorString"); o != nil {
			ex.tRuntimeErr = o.Type()
		}
	}
	if rp := p.ByPath["regexp"]; rp != nil {
		ex.tRegexp = types.NewPointer(rp.Pkg.Scope().Lookup("Regexp").Type())
	}
	ex.solv = smt.NewSolver(ex.M, cfg.Solver, cfg.QueryTimeout)
	ex.alt = smt.NewSolver(ex.M, cfg.AltSolver, cfg.QueryTimeout)
	return ex
}

func (ex *Exec) Close() {
	ex.solv.Close()
	ex.alt.Close()
}

// packages whose initialisers are executed
var initAllow = map[string]bool{
	"errors": true, "io": true, "strconv": true, "internal/strconv": true, "strings": true, "bytes": true,
	"unicode": true, "unicode/utf8": true, "unicode/utf16": true, "math": true, "math/bits": true, "sort": true, "slices": true,
	"maps": true, "cmp": true, "iter": true, "container/list": true, "container/heap": true, "container/ring": true, "internal/stringslite": true,
	"internal/byteorder": true, "context": true, "bufio": true, "flag": true, "internal/oserror": true, "io/fs": true,
}

func (ex *Exec) initOK(p *ssa.Package) bool {
	path := p.Pkg.Path()
	return initAllow[path] || strings.HasPrefix(path, ex.P.Target) || strings.HasPrefix(path, "verifharness")
}

// InitBase runs package initialisers and makes the base state.
func (ex *Exec) InitBase(roots ...*ssa.Package) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Unsupported); ok {
				err = fmt.Errorf("initialisation: unsupported: %s", u.Why)
				return
			}
			if e, ok := r.(pathEnd); ok {
				err = fmt.Errorf("initialisation: %s", e.why)
				return
			}
			panic(fmt.Sprintf("%v\nin %s\n%s", r, strings.Join(ex.trace(), " < "), debug.Stack()))
		}
	}()
	ex.inBase = true
	ex.path = newPath(ex)
	ex.path.init = true
	for _, r := range roots {
		ex.runInit(r)
	}
	ex.inBase = false
	ex.baseNext = ex.nextObj
	return nil
}

func (ex *Exec) runInit(p *ssa.Package) {
	fn := p.Func("init")
	if fn == nil {
		return
	}
	ex.steps = 0
	ex.gs = nil
	g := ex.newGor()
	ex.cur = g
	ex.pushFrame(g, ex.fn(fn), nil, nil, -1)
	ex.run()
}

func (ex *Exec) global(g *ssa.Global) *Obj {
	if o, ok := ex.globals[g]; ok {
		return o
	}
	if r := ex.P.Vars[g.String()]; r != nil {
		o := ex.global(r)
		ex.globals[g] = o
		return o
	}
	t := g.Type().(*types.Pointer).Elem()
	save := ex.inBase
	ex.inBase = true
	o := ex.newObj(ex.layoutOf(t).size)
	ex.inBase = save
	o.name = g.String()
	if g.Pkg != nil && !ex.initOK(g.Pkg) {
		o.uninit = true
	}
	ex.fillZero(o.slots, t)
	ex.globals[g] = o
	return o
}

// fillZero is a no-op today: the zero Value is the zero of every slot type.
func (ex *Exec) fillZero(s []Value, t types.Type) {}
