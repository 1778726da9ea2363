package exec

import "golang.org/x/tools/go/ssa"

func newStats() *Stats {
	return &Stats{UnsupWhy: map[string]int64{}, Reached: map[string]int64{}, Labels: map[string]int64{}, KnownHit: map[string]int64{}}
}

// ResetStats starts new counts.
func (ex *Exec) ResetStats() { *ex.stats = *newStats() }

// Stats are the counts since ResetStats.
func (ex *Exec) Stats() *Stats { return ex.stats }

// SolverStats are the number of queries and the solver time of both solvers, in all.
func (ex *Exec) SolverStats() (int64, float64) {
	return ex.solv.Stats.Queries + ex.alt.Stats.Queries, (ex.solv.Stats.Time + ex.alt.Stats.Time).Seconds()
}

// Entry compiles a harness function.
func (ex *Exec) Entry(f *ssa.Function) *Fn { return ex.fn(f) }

// PathModel is the model of the path that ended.
func (ex *Exec) PathModel() *Violation {
	n := len(ex.viols)
	ex.addViolation("", "")
	v := ex.viols[n]
	ex.viols = ex.viols[:n]
	v.Trace = nil
	return v
}
