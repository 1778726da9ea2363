package driver

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"

	"symgo/exec"
)

var goEnv = []string{"GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off"}

const target = "github.com/forsyth/jsonpath"

// Known is an entry of known_findings.json.
type Known struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Status   string `json:"status"` // open or fixed
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
	Demo     string `json:"demo,omitempty"` // harness that fails natively while the finding is there
}

type options struct {
	verif   string
	prop    string
	tier    string
	only    string
	budget  float64
	workers int
	verbose bool
	seed    int64
	timeout float64
	keep    bool
	steps   int64
}

// Main is the command.
func Main(args []string) int {
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: symgo check|replay|list ...")
		return 2
	}
	cmd := args[0]
	var o options
	fs := flag.NewFlagSet(cmd, flag.ContinueOnError)
	exe, _ := os.Executable()
	fs.StringVar(&o.verif, "verif", filepath.Dir(filepath.Dir(exe)), "directory of the framework")
	fs.StringVar(&o.prop, "prop", "", "property")
	fs.StringVar(&o.tier, "tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	fs.StringVar(&o.only, "only", "", "harnesses (substring)")
	fs.Float64Var(&o.budget, "budget", 0, "seconds of exploration")
	fs.IntVar(&o.workers, "j", 0, "workers")
	fs.BoolVar(&o.verbose, "v", false, "verbose")
	fs.Float64Var(&o.timeout, "qt", 0, "seconds per solver query")
	fs.BoolVar(&o.keep, "keep", false, "go on after a violation")
	if err := fs.Parse(args[1:]); err != nil {
		return 2
	}
	o.seed = 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			o.seed = n
		}
	}
	if o.tier == "" {
		o.tier = "quick"
	}
	if o.workers == 0 {
		o.workers = min(8, max(2, runtime.NumCPU()))
	}
	dir, err := os.MkdirTemp("", "symgo")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if os.Getenv("GOGC") == "" {
		debug.SetGCPercent(400)
		debug.SetMemoryLimit(10 << 30)
	}
	if f := os.Getenv("SYMGO_PROFILE"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, os.Interrupt, syscall.SIGTERM)
	go func() {
		<-sig
		os.RemoveAll(dir)
		os.Exit(2)
	}()
	defer os.RemoveAll(dir)
	switch cmd {
	case "check":
		return check(&o, dir)
	case "replay":
		return replay(&o, dir, fs.Args())
	case "list":
		return list(&o)
	}
	fmt.Fprintln(os.Stderr, "unknown command", cmd)
	return 2
}

// harnesses finds the harness functions of a property.
func harnesses(p *exec.Program, o *options) ([]*Harness, *ssa.Package, error) {
	var hs []*Harness
	sp := p.ByPath["verifharness/props"]
	for _, pk := range p.Pkgs {
		if pk.PkgPath != "verifharness/props" {
			continue
		}
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "C") || fd.Type.Params.NumFields() > 0 {
					continue
				}
				prop, _, ok := strings.Cut(fd.Name.Name, "_")
				if !ok || o.prop != "" && prop != o.prop {
					continue
				}
				h := &Harness{Prop: prop, Name: fd.Name.Name, Fn: sp.Func(fd.Name.Name), Weight: 1}
				var doc []string
				for _, l := range strings.Split(fd.Doc.Text(), "\n") {
					if !strings.HasPrefix(l, "sym:") {
						if l != "" {
							doc = append(doc, l)
						}
						continue
					}
					for _, w := range strings.Fields(l[4:]) {
						k, v, _ := strings.Cut(w, "=")
						switch k {
						case "weight":
							h.Weight, _ = strconv.ParseFloat(v, 64)
						case "thorough":
							h.Thorough = true
						case "quick":
							h.Quick = true
						case "race":
							h.Race = true
						case "tries":
							h.Tries, _ = strconv.Atoi(v)
						case "depth":
							h.Depth, _ = strconv.Atoi(v)
						case "steps":
							h.Steps, _ = strconv.ParseInt(v, 10, 64)
						default:
							return nil, nil, fmt.Errorf("%s: bad directive %q", h.Name, w)
						}
					}
				}
				h.Doc = strings.Join(doc, " ")
				if h.Thorough && o.tier != "thorough" || h.Quick && o.tier != "quick" {
					continue
				}
				if o.only != "" && !strings.Contains(h.Name, o.only) {
					continue
				}
				hs = append(hs, h)
			}
		}
	}
	return hs, sp, nil
}

func list(o *options) int {
	p, err := exec.Load(filepath.Join(o.verif, "harness"), goEnv, target, "./props")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	hs, _, err := harnesses(p, o)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, h := range hs {
		fmt.Printf("%s: %s\n", h.Name, h.Doc)
	}
	return 0
}

func readKnown(o *options) ([]Known, error) {
	var ks []Known
	b, err := os.ReadFile(filepath.Join(o.verif, "known_findings.json"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	if err := json.Unmarshal(b, &ks); err != nil {
		return nil, fmt.Errorf("known_findings.json: %v", err)
	}
	return ks, nil
}

// Saved is a replay file.
type Saved struct {
	Property string   `json:"property"`
	Harness  string   `json:"harness"`
	Label    string   `json:"label"`
	Notes    []string `json:"notes"`
	Detail   string   `json:"detail,omitempty"`
	Trace    []string `json:"trace,omitempty"`
	Race     bool     `json:"race,omitempty"`
	Request  *Request `json:"request"`
}

func replay(o *options, dir string, args []string) int {
	if len(args) != 1 {
		fmt.Fprintln(os.Stderr, "usage: symgo replay FILE")
		return 2
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var s Saved
	if err := json.Unmarshal(b, &s); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	bin, err := buildReplay(filepath.Join(o.verif, "harness"), dir, s.Race, s.Property == cliProp)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rp := &Replayer{bin: bin, timeout: 30 * time.Second}
	defer rp.Close()
	r := rp.Run(s.Request)
	j, _ := json.MarshalIndent(r, "", " ")
	fmt.Println(string(j))
	if r.Status == "violation" {
		return 1
	}
	return 0
}

func check(o *options, dir string) int {
	t0 := time.Now()
	hdir := filepath.Join(o.verif, "harness")
	var wg sync.WaitGroup
	var bin string
	var berr error
	wg.Add(1)
	go func() {
		defer wg.Done()
		bin, berr = buildReplay(hdir, dir, false, o.prop == cliProp)
	}()
	patterns := []string{"./props"}
	if o.prop == cliProp {
		patterns = append(patterns, "./env", cliPkg)
	}
	p, err := exec.Load(hdir, goEnv, target, patterns...)
	wg.Wait()
	if err == nil {
		err = berr
	}
	if err == nil && o.prop == cliProp {
		err = modelCLI(p)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot build:", err)
		return 2
	}
	hs, root, err := harnesses(p, o)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", o.prop)
		return 2
	}
	known, err := readKnown(o)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	tier := 0
	budget := 80.0
	qt := 8 * time.Second
	if o.tier == "thorough" {
		tier = 1
		budget = 700
		qt = 60 * time.Second
	}
	if o.timeout > 0 {
		qt = time.Duration(o.timeout * float64(time.Second))
	}
	if o.budget > 0 {
		budget = o.budget
	}
	cfg := exec.Config{Solver: "z3", AltSolver: "cvc5", QueryTimeout: qt, MaxDepth: 4000, MaxDecs: 3000, MaxSteps: 3_000_000, Seed: o.seed, Known: map[string]bool{}, Tier: tier, ValidateEvery: 16}
	var open []string
	for _, k := range known {
		if k.Status == "open" {
			cfg.Known[k.ID] = true
			open = append(open, k.ID)
		}
	}
	roots := []*ssa.Package{root}
	if o.prop == cliProp {
		roots = []*ssa.Package{p.ByPath["io/fs"], p.ByPath["verifharness/env"], p.ByPath[cliPkg], root}
	}
	s := &Session{P: p, Cfg: cfg, N: o.workers, roots: roots, Known: open, Verbose: o.verbose, MaxTerms: 2_000_000, Confirm: 6}
	s.execs = make([]*exec.Exec, s.N)
	defer s.Close()
	s.Rep = &Replayer{bin: bin, timeout: 20 * time.Second}
	defer s.Rep.Close()
	var raceOnce sync.Once
	var raceRep *Replayer
	s.RaceRep = func() *Replayer {
		raceOnce.Do(func() {
			b, err := buildReplay(hdir, dir, true, false)
			if err != nil {
				fmt.Fprintln(os.Stderr, "no race replay:", err)
				raceRep = s.Rep
				return
			}
			raceRep = &Replayer{bin: b, timeout: 40 * time.Second}
		})
		return raceRep
	}
	defer func() {
		if raceRep != nil && raceRep != s.Rep {
			raceRep.Close()
		}
	}()

	// known findings of this property: still there?
	var knownLines []string
	for _, k := range known {
		if k.Property != o.prop || k.Status != "open" {
			continue
		}
		present := true
		if k.Demo != "" {
			r := s.Rep.Run(&Request{Fn: k.Demo})
			present = r.Status == "violation"
		}
		if present {
			l := fmt.Sprintf("KNOWN-FINDING: property=%s %s: %s", o.prop, k.ID, k.What)
			knownLines = append(knownLines, l)
			fmt.Println(l)
		} else {
			fmt.Printf("note: the known finding %s is no longer there\n", k.ID)
		}
	}

	if o.verbose {
		fmt.Fprintf(os.Stderr, "loaded in %.1fs (%.1fs ssa)\n", time.Since(t0).Seconds(), p.LoadS)
	}
	end := time.Now().Add(time.Duration(budget * float64(time.Second)))
	var results []*Result
	var errs []string
	viol := 0
	wtotal := 0.0
	for _, x := range hs {
		wtotal += x.Weight
	}
	for i, h := range hs {
		wsum := 0.0
		for _, x := range hs[i:] {
			wsum += x.Weight
		}
		left := time.Until(end).Seconds()
		if left < 1 {
			left = 1
		}
		share := max(left*h.Weight/wsum, budget*h.Weight/wtotal/2)
		dl := time.Now().Add(time.Duration(share * float64(time.Second)))
		r, err := s.Run(h, dl, o.seed)
		if err != nil {
			r.Complete = false
			errs = append(errs, h.Name+": "+err.Error())
			fmt.Fprintf(os.Stderr, "%s: error: %v\n", h.Name, err)
			// start afresh
			s.Close()
		}
		results = append(results, r)
		if o.verbose {
			printResult(r)
		} else {
			state := "complete"
			if !r.Complete {
				state = "bounded by time or by undecided paths"
			}
			fmt.Printf("%s: %d paths, %d queries, %s, %.1fs\n", r.Harness, r.Paths, r.Queries, state, r.WallS)
		}
		for _, c := range r.Violations {
			viol++
			f := saveViolation(o, h, c, viol)
			fmt.Printf("%s: %s\n", h.Name, c.Reply.Label)
			for _, n := range trimNotes(c.Reply.Notes) {
				fmt.Printf("  %s\n", n)
			}
			if c.Reply.Detail != "" {
				d := c.Reply.Detail
				if len(d) > 1200 {
					d = d[:1200]
				}
				fmt.Printf("  %s\n", strings.ReplaceAll(strings.TrimSpace(d), "\n", "\n  "))
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", h.Prop, f)
		}
		if viol > 0 && !o.keep {
			break
		}
	}
	if o.prop != "" {
		if err := writeEvidence(o, p, s, results, errs, knownLines, viol, time.Since(t0).Seconds()); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if viol > 0 {
		return 1
	}
	// nothing ran at all: no answer
	ran := false
	for _, r := range results {
		ran = ran || r.Paths > 0
	}
	if !ran {
		return 2
	}
	return 0
}

func printResult(r *Result) {
	j, _ := json.Marshal(r)
	fmt.Fprintf(os.Stderr, "%s\n", j)
	var fns []string
	for k := range r.cov {
		fns = append(fns, k)
	}
	sort.Strings(fns)
	for _, s := range r.Samples {
		fmt.Fprintf(os.Stderr, "  sample %s\n", s)
	}
}

func saveViolation(o *options, h *Harness, c *Confirmed, n int) string {
	d := filepath.Join(o.verif, "evidence", "replays")
	os.MkdirAll(d, 0o777)
	f := filepath.Join(d, fmt.Sprintf("%s-%d.json", h.Prop, n))
	s := Saved{Property: h.Prop, Harness: h.Name, Label: c.Reply.Label, Notes: c.Reply.Notes, Detail: c.Reply.Detail, Trace: c.V.Trace, Race: h.Race, Request: c.Rq}
	b, _ := json.MarshalIndent(s, "", " ")
	os.WriteFile(f, append(b, '\n'), 0o666)
	return f
}

func writeEvidence(o *options, p *exec.Program, s *Session, rs []*Result, errs, known []string, viol int, wall float64) error {
	var paths, branches, queries, validated, asserts, assertsSym, unknown, nativeOnly, mismatch int64
	var solver float64
	cov := map[string]bool{}
	var samples []string
	complete := true
	for _, r := range rs {
		paths += r.Paths
		branches += r.Branches
		queries += r.Queries
		validated += r.Validated
		asserts += r.Asserts
		assertsSym += r.AssertsSym
		unknown += r.Unknown
		nativeOnly += r.Unsupported
		mismatch += r.Mismatch
		solver += r.SolverS
		complete = complete && r.Complete
		for k := range r.cov {
			cov[k] = true
		}
		if len(r.Samples) > 0 && len(samples) < 24 {
			samples = append(samples, r.Harness+": "+r.Samples[0])
			if len(r.Samples) > 1 {
				samples = append(samples, r.Harness+": "+r.Samples[len(r.Samples)-1])
			}
		}
		for k, v := range r.UnsupWhy {
			if len(k) > 100 {
				delete(r.UnsupWhy, k)
				r.UnsupWhy[k[:100]] += v
			}
		}
		for i := range r.Unconfirmed {
			if len(r.Unconfirmed[i]) > 300 {
				r.Unconfirmed[i] = r.Unconfirmed[i][:300]
			}
		}
	}
	if samples == nil {
		samples = []string{}
	}
	fns := sortedKeys(cov)
	ev := map[string]any{
		"property": o.prop,
		"tier":     o.tier,
		"seed":     o.seed,
		"level":    "model_checking",
		"wall_s":   wall,
		"coverage": map[string]any{
			"states":                        paths,
			"transitions":                   branches,
			"traces_validated_against_impl": validated,
			"samples":                       samples,
			"exhaustive":                    complete,
			"explanation":                   "states: symbolic paths explored to their end; transitions: two-sided branch decisions on symbolic inputs; each path stands for all inputs that satisfy its path condition. exhaustive: every harness explored all paths within its stated bounds with no undecided query.",
			"functions_encoded":             fns,
			"assertions_evaluated":          asserts,
			"assertions_with_symbolic_term": assertsSym,
			"smt_queries":                   queries,
			"smt_seconds":                   solver,
			"smt_unknown":                   unknown,
			"native_only_paths":             nativeOnly,
			"validation_mismatches":         mismatch,
			"solvers":                       "z3-new (bit-vectors), cvc5 (floating point)",
			"harnesses":                     rs,
			"engine_errors":                 errs,
			"known_findings":                known,
		},
		"assumptions": []string{
			"the symbolic executor's model of Go and of the standard-library functions it replaces (validated by native replay of sampled paths; every reported violation is reproduced natively)",
			"bounds as stated by each harness under covers; inputs outside them are outside the claim",
		},
		"violations": viol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Join(o.verif, "evidence"), 0o777)
	return os.WriteFile(filepath.Join(o.verif, "evidence", o.prop+".json"), append(b, '\n'), 0o666)
}
