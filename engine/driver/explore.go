package driver

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"

	"symgo/exec"
)

// Harness is a harness function and its options.
type Harness struct {
	Prop     string
	Name     string
	Doc      string // what it covers and its bounds
	Fn       *ssa.Function
	Weight   float64
	Thorough bool // only in the thorough tier
	Quick    bool // only in the quick tier
	Race     bool // replay with the race detector
	Tries    int  // native repetitions to reproduce a schedule- or order-dependent failure
	Depth    int
	Steps    int64
}

// Result of one harness.
type Result struct {
	Harness     string           `json:"harness"`
	Covers      string           `json:"covers"`
	Complete    bool             `json:"complete"`
	Paths       int64            `json:"paths"`
	Infeasible  int64            `json:"infeasible,omitempty"`
	Pending     int64            `json:"pending,omitempty"`
	Unsupported int64            `json:"native_only,omitempty"`
	UnsupWhy    map[string]int64 `json:"native_only_why,omitempty"`
	Diverged    int64            `json:"diverged,omitempty"`
	UnknownEnd  int64            `json:"undecided_paths,omitempty"`
	Cut         int64            `json:"cut_paths,omitempty"`
	Branches    int64            `json:"branches"`
	Steps       int64            `json:"instructions"`
	Asserts     int64            `json:"assertions"`
	AssertsSym  int64            `json:"assertions_symbolic"`
	Queries     int64            `json:"queries"`
	Presolved   int64            `json:"presolved"`
	Unknown     int64            `json:"unknown"`
	SolverS     float64          `json:"solver_s"`
	WallS       float64          `json:"wall_s"`
	Reached     map[string]int64 `json:"reached,omitempty"`
	Validated   int64            `json:"validated_natively"`
	Mismatch    int64            `json:"validation_mismatches,omitempty"`
	Unconfirmed []string         `json:"unconfirmed,omitempty"`
	Known       map[string]int64 `json:"known_findings_hit,omitempty"`
	Samples     []string         `json:"-"`

	Violations []*Confirmed `json:"-"`
	mismatches []string
	cov        map[string]bool
}

// Confirmed is a violation reproduced natively.
type Confirmed struct {
	V     *exec.Violation
	Reply *Reply
	Rq    *Request
}

type pool struct {
	mu      sync.Mutex
	cond    *sync.Cond
	items   []*exec.Item
	idle    int32
	n       int
	stopped bool
}

func (p *pool) stop() {
	p.mu.Lock()
	p.stopped = true
	p.cond.Broadcast()
	p.mu.Unlock()
}

// get waits for an item; nil at the end.
func (p *pool) get() *exec.Item {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.idle++
	for {
		if p.stopped {
			return nil
		}
		if n := len(p.items); n > 0 {
			it := p.items[n-1]
			p.items = p.items[:n-1]
			p.idle--
			return it
		}
		if int(p.idle) == p.n {
			p.stopped = true
			p.cond.Broadcast()
			return nil
		}
		p.cond.Wait()
	}
}

// try takes an item, if there is one, without waiting.
func (p *pool) try(rnd *rand.Rand) *exec.Item {
	p.mu.Lock()
	defer p.mu.Unlock()
	n := len(p.items)
	if n == 0 || p.stopped {
		return nil
	}
	k := rnd.Intn(n)
	it := p.items[k]
	p.items = append(p.items[:k], p.items[k+1:]...)
	return it
}

func (p *pool) put(its []*exec.Item) {
	p.mu.Lock()
	p.items = append(p.items, its...)
	p.cond.Broadcast()
	p.mu.Unlock()
}

func (p *pool) hungry() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.idle > 0 && len(p.items) == 0
}

// Session holds the workers.
type Session struct {
	P        *exec.Program
	Cfg      exec.Config
	N        int
	execs    []*exec.Exec
	roots    []*ssa.Package
	Rep      *Replayer
	RaceRep  func() *Replayer
	Known    []string
	Verbose  bool
	MaxTerms int
	InitS    float64
	Confirm  int // native attempts per kind of candidate
}

func (s *Session) worker(i int) (*exec.Exec, error) {
	if s.execs[i] != nil && s.execs[i].M.NumTerms() > s.MaxTerms {
		s.execs[i].Close()
		s.execs[i] = nil
	}
	if s.execs[i] == nil {
		c := s.Cfg
		ex := exec.NewExec(s.P, &c)
		if err := ex.InitBase(s.roots...); err != nil {
			ex.Close()
			return nil, err
		}
		s.execs[i] = ex
	}
	return s.execs[i], nil
}

func (s *Session) Close() {
	for _, ex := range s.execs {
		if ex != nil {
			ex.Close()
		}
	}
	s.execs = make([]*exec.Exec, s.N)
}

// Run explores h until it is complete or the deadline.
func (s *Session) Run(h *Harness, deadline time.Time, seed int64) (*Result, error) {
	t0 := time.Now()
	res := &Result{Harness: h.Name, Covers: h.Doc, UnsupWhy: map[string]int64{}, Reached: map[string]int64{}, Known: map[string]int64{}, cov: map[string]bool{}}
	pl := &pool{n: s.N, items: []*exec.Item{{}}}
	pl.cond = sync.NewCond(&pl.mu)
	timer := time.AfterFunc(time.Until(deadline), pl.stop)
	defer timer.Stop()
	var mu sync.Mutex // guards res and tried
	tried := map[string]int{}
	confirmedKey := map[string]bool{}
	var pending int64
	var firstErr error
	var wg sync.WaitGroup
	var reducedRuns int64
	rep := s.Rep
	for w := 0; w < s.N; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					if firstErr == nil {
						firstErr = fmt.Errorf("internal error: %v\n%s", r, debug.Stack())
					}
					mu.Unlock()
					pl.stop()
				}
			}()
			ex, err := s.worker(w)
			if err != nil {
				mu.Lock()
				firstErr = err
				mu.Unlock()
				pl.stop()
				return
			}
			ex.Cfg.MaxDepth, ex.Cfg.MaxSteps = s.Cfg.MaxDepth, s.Cfg.MaxSteps
			if h.Depth > 0 {
				ex.Cfg.MaxDepth = h.Depth
			}
			if h.Steps > 0 {
				ex.Cfg.MaxSteps = h.Steps
			}
			ex.Deadline = deadline
			ex.ResetStats()
			q0, st0 := ex.SolverStats()
			rnd := rand.New(rand.NewSource(seed*1000 + int64(w)))
			entry := ex.Entry(h.Fn)
			var stack []*exec.Item
			var diverged, unknownEnd, cut, done int64
			flush := func() {
				st := ex.Stats()
				q1, st1 := ex.SolverStats()
				mu.Lock()
				res.Paths += st.Paths
				res.Infeasible += st.Infeasible
				res.Unsupported += st.Unsupported
				res.Branches += st.Branches
				res.Steps += st.Steps
				res.Asserts += st.Asserts
				res.AssertsSym += st.AssertsSym
				res.Presolved += st.Presolved
				res.Unknown += st.Unknown
				res.Queries += q1 - q0
				res.SolverS += st1 - st0
				res.Diverged += diverged
				res.UnknownEnd += unknownEnd
				res.Cut += cut
				for k, v := range st.UnsupWhy {
					res.UnsupWhy[k] += v
				}
				for k, v := range st.Reached {
					res.Reached[k] += v
				}
				for k, v := range st.KnownHit {
					res.Known[k] += v
				}
				for k := range ex.Cov {
					res.cov[k] = true
				}
				mu.Unlock()
				diverged, unknownEnd, cut = 0, 0, 0
				ex.ResetStats()
				q0, st0 = q1, st1
			}
			defer func() { flush() }()
			for {
				if time.Now().After(deadline) {
					pl.stop()
				}
				pl.mu.Lock()
				stop := pl.stopped
				pl.mu.Unlock()
				if stop && (len(stack) > 0 || time.Now().After(deadline)) {
					atomic.AddInt64(&pending, int64(len(stack)))
					return
				}
				var it *exec.Item
				if done%4 == 1 {
					it = pl.try(rnd)
				}
				if n := len(stack); it != nil {
				} else if n > 0 {
					// depth first, with jumps, most of them to early decisions, so that a limited search spreads out
					k := n - 1
					switch done % 8 {
					case 7:
						k = rnd.Intn(n)
					case 1, 3, 5:
						r := rnd.Float64()
						k = int(r * r * r * float64(n))
					}
					it = stack[k]
					stack = append(stack[:k], stack[k+1:]...)
				} else {
					it = pl.get()
					if it == nil {
						return
					}
				}
				if ex.M.NumTerms() > s.MaxTerms {
					// start afresh
					imported := []*exec.Item{ex.Export(it)}
					for _, x := range stack {
						imported = append(imported, ex.Export(x))
					}
					flush()
					nx, err := s.worker(w)
					if err != nil {
						panic(err)
					}
					d, m := ex.Cfg.MaxDepth, ex.Cfg.MaxSteps
					ex = nx
					ex.Cfg.MaxDepth, ex.Cfg.MaxSteps = d, m
					ex.Deadline = deadline
					ex.ResetStats()
					q0, st0 = ex.SolverStats()
					entry = ex.Entry(h.Fn)
					it, stack = imported[0], imported[1:]
				}
				alts, viols, end := ex.RunPath(it, entry)
				done++
				stack = append(stack, alts...)
				switch end {
				case "diverged":
					diverged++
				case "unknown":
					unknownEnd++
				case "timeout":
					atomic.AddInt64(&pending, 1)
				case "cut":
					cut++
				}
				if len(stack) > 1 && pl.hungry() {
					// give away the shallow half
					k := (len(stack) + 1) / 2
					var out []*exec.Item
					for _, x := range stack[:k] {
						out = append(out, ex.Export(x))
					}
					stack = append([]*exec.Item(nil), stack[k:]...)
					pl.put(out)
				}
				// candidates
				for _, v := range viols {
					key := v.Label
					if len(v.Trace) > 0 {
						key += "|" + strings.Join(v.Trace[:min(2, len(v.Trace))], "<")
					}
					mu.Lock()
					n := tried[key]
					skip := confirmedKey[v.Label] || !v.Reduced && n >= s.Confirm || v.Reduced && reducedRuns > 400
					tried[key]++
					if v.Reduced {
						reducedRuns++
					}
					mu.Unlock()
					if skip {
						continue
					}
					rq := s.request(h, v)
					use := rep
					if h.Race && !v.Reduced && s.RaceRep != nil {
						use = s.RaceRep()
					}
					rq.Tries = h.Tries
					rp := use.Run(rq)
					mu.Lock()
					switch {
					case rp.Status == "violation":
						res.Violations = append(res.Violations, &Confirmed{v, rp, rq})
						confirmedKey[v.Label] = true
						mu.Unlock()
						pl.stop()
						continue
					case v.Reduced:
						if rp.Status == "error" && firstErr == nil {
							firstErr = fmt.Errorf("replay: %s", rp.Detail)
						}
					default:
						if len(res.Unconfirmed) < 8 {
							res.Unconfirmed = append(res.Unconfirmed, fmt.Sprintf("%s %s: native run gives %s %v; %s", v.Label, v.Detail, rp.Status, trimNotes(rp.Notes), strings.Join(v.Trace, " < ")))
							if s.Verbose {
								fmt.Fprintf(os.Stderr, "UNCONFIRMED %s: %s\n  assign=%v\n  choice=%v\n", h.Name, res.Unconfirmed[len(res.Unconfirmed)-1], v.Assign, v.Choice)
							}
						}
					}
					mu.Unlock()
				}
				// native validation of a sample of the completed paths
				if end == "done" {
					mu.Lock()
					n := res.Validated
					want := n < 40 || n < 400 && done%16 == 0
					if want {
						res.Validated++
					}
					mu.Unlock()
					if want {
						v := ex.PathModel()
						rq := s.request(h, v)
						rp := rep.Run(rq)
						mu.Lock()
						if len(res.Samples) < 6 && len(rp.Notes) > 0 {
							res.Samples = append(res.Samples, strings.Join(trimNotes(rp.Notes), "; "))
						}
						switch {
						case rp.Status == "violation":
							v.Label = rp.Label
							res.Violations = append(res.Violations, &Confirmed{v, rp, rq})
							if s.Verbose {
								fmt.Fprintf(os.Stderr, "NATIVE-ONLY violation %s: %s %v\n", h.Name, rp.Label, rp.Notes)
							}
							pl.stop()
						case rp.Status != "ok" || strings.Join(rp.Reached, ",") != strings.Join(v.Reached, ","):
							res.Mismatch++
							if len(res.mismatches) < 5 {
								m := fmt.Sprintf("engine reached %v, native %s reached %v notes %v assign=%v choice=%v", v.Reached, rp.Status, rp.Reached, rp.Notes, v.Assign, v.Choice)
								res.mismatches = append(res.mismatches, m)
								if s.Verbose {
									fmt.Fprintf(os.Stderr, "MISMATCH %s: %s\n", h.Name, m)
								}
							}
						}
						mu.Unlock()
					}
				}
			}
		}(w)
	}
	wg.Wait()
	for _, it := range pl.items {
		_ = it
		pending++
	}
	res.Pending = pending
	res.Complete = pending == 0 && res.Diverged == 0 && res.UnknownEnd == 0 && res.Cut == 0 && res.Unknown == 0 && len(res.Violations) == 0 && !time.Now().After(deadline)
	res.WallS = time.Since(t0).Seconds()
	return res, firstErr
}

func trimNotes(ns []string) []string {
	var r []string
	for _, n := range ns {
		if len(n) > 200 {
			n = n[:200] + "..."
		}
		r = append(r, n)
	}
	return r
}

func (s *Session) request(h *Harness, v *exec.Violation) *Request {
	return &Request{Fn: h.Name, Assign: v.Assign, Choice: v.Choice, Tier: s.Cfg.Tier, Known: s.Known}
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func hash(s string) uint32 {
	h := fnv.New32a()
	h.Write([]byte(s))
	return h.Sum32()
}
