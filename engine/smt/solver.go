package smt

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Stats of one solver process.
type Stats struct {
	Queries, Sat, Unsat, Unknown int64
	Time                         time.Duration
	MaxTime                      time.Duration
	Restarts                     int64
	Slowest                      string
}

// Solver is an SMT solver process with an assertion stack kept in step with path conditions.
type Solver struct {
	m       *Mgr
	kind    string // "z3", "cvc5"
	timeout time.Duration
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	emitted map[int32]bool
	stack   []*Term
	Stats   Stats
	modDefs map[int32]bool
	lines   chan string
	Trace   io.Writer

	Deadline time.Time // give up then
}

func NewSolver(m *Mgr, kind string, timeout time.Duration) *Solver {
	return &Solver{m: m, kind: kind, timeout: timeout}
}

func (s *Solver) start() error {
	ms := s.timeout.Milliseconds()
	var cmd *exec.Cmd
	switch s.kind {
	case "z3":
		cmd = exec.Command("z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", ms))
	case "z3old":
		cmd = exec.Command("z3", "-in", "-smt2", fmt.Sprintf("-t:%d", ms))
	case "cvc5":
		cmd = exec.Command("cvc5", "--incremental", "--produce-models", "--fp-exp", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", ms))
	default:
		return fmt.Errorf("unknown solver %s", s.kind)
	}
	in, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		return err
	}
	s.cmd, s.inc, s.in, s.out = cmd, in, bufio.NewWriterSize(in, 1<<16), bufio.NewReaderSize(out, 1<<16)
	s.emitted = map[int32]bool{}
	s.modDefs = map[int32]bool{}
	s.stack = s.stack[:0]
	s.lines = make(chan string, 64)
	go func(r *bufio.Reader, ch chan string) {
		for {
			l, err := r.ReadString('\n')
			if l != "" {
				ch <- strings.TrimSpace(l)
			}
			if err != nil {
				close(ch)
				return
			}
		}
	}(s.out, s.lines)
	s.send("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	if s.kind == "cvc5" {
		s.send("(set-logic ALL)\n")
	}
	s.send("(declare-fun fmod ((_ FloatingPoint 11 53) (_ FloatingPoint 11 53)) (_ FloatingPoint 11 53))\n")
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		go func(ch chan string) {
			for range ch {
			}
		}(s.lines)
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(x string) {
	if s.Trace != nil {
		io.WriteString(s.Trace, x)
	}
	s.in.WriteString(x)
}

func sortName(x uint8) string {
	switch x {
	case SBool:
		return "Bool"
	case SF64:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", x)
}

func (s *Solver) ref(t *Term) string {
	switch t.Op {
	case OConst:
		switch t.S {
		case SBool:
			if t.K != 0 {
				return "true"
			}
			return "false"
		case SF64:
			if f := f64(t.K); f != f {
				return "(_ NaN 11 53)"
			}
			return fmt.Sprintf("(fp #b%01b #b%011b #b%052b)", t.K>>63, t.K>>52&0x7ff, t.K&(1<<52-1))
		}
		if t.S%4 == 0 {
			return fmt.Sprintf("#x%0*x", t.S/4, t.K)
		}
		return fmt.Sprintf("#b%0*b", t.S, t.K)
	case OVar:
		return fmt.Sprintf("v%d", t.K)
	}
	return fmt.Sprintf("t%d", t.ID)
}

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg", OFAbs: "fp.abs",
	OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFIsNaN: "fp.isNaN",
	OFFromSBV: "(_ to_fp 11 53) RNE", OFFromUBV: "(_ to_fp_unsigned 11 53) RNE", OFFromBits: "(_ to_fp 11 53)", OFMod: "fmod",
	OFSqrt: "fp.sqrt RNE",
}

func (s *Solver) emit(t *Term) {
	if t.Op == OConst || s.emitted[t.ID] {
		return
	}
	s.emitted[t.ID] = true
	if t.Op == OVar {
		s.send(fmt.Sprintf("(declare-const v%d %s)\n", t.K, sortName(t.S)))
		return
	}
	for _, x := range [3]*Term{t.A, t.B, t.C} {
		if x != nil {
			s.emit(x)
		}
	}
	var body string
	switch t.Op {
	case OZext:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.S-t.A.S, s.ref(t.A))
	case OSext:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.S-t.A.S, s.ref(t.A))
	case OExtract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", t.K>>8, t.K&255, s.ref(t.A))
	case OFRound:
		body = fmt.Sprintf("(fp.roundToIntegral %s %s)", [...]string{"RTN", "RTP", "RTZ"}[t.K], s.ref(t.A))
	case OFToSBV:
		a := s.ref(t.A)
		lo, hi := s.ref(s.m.FConst(-9223372036854775808.0)), s.ref(s.m.FConst(9223372036854775808.0))
		body = fmt.Sprintf("(ite (and (fp.leq %s %s) (fp.lt %s %s)) ((_ fp.to_sbv 64) RTZ %s) #x8000000000000000)", lo, a, a, hi, a)
	default:
		var sb strings.Builder
		sb.WriteByte('(')
		sb.WriteString(opNames[t.Op])
		for _, x := range [3]*Term{t.A, t.B, t.C} {
			if x != nil {
				sb.WriteByte(' ')
				sb.WriteString(s.ref(x))
			}
		}
		sb.WriteByte(')')
		body = sb.String()
	}
	s.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", t.ID, sortName(t.S), body))
}

func (s *Solver) readLine(limit time.Duration) (string, bool) {
	if !s.Deadline.IsZero() {
		limit = max(min(limit, time.Until(s.Deadline)+time.Second), 100*time.Millisecond)
	}
	tm := time.NewTimer(limit)
	defer tm.Stop()
	select {
	case l, ok := <-s.lines:
		return l, ok
	case <-tm.C:
		return "", false
	}
}

// Check decides the conjunction of pc and extra; on Sat it returns values for the given variables.
func (s *Solver) Check(pc []*Term, extra *Term, vars []int32) (Result, map[int32]uint64) {
	t0 := time.Now()
	r, md := s.check(pc, extra, vars)
	d := time.Since(t0)
	s.Stats.Queries++
	s.Stats.Time += d
	if d > s.Stats.MaxTime {
		s.Stats.MaxTime = d
	}
	switch r {
	case Sat:
		s.Stats.Sat++
	case Unsat:
		s.Stats.Unsat++
	default:
		s.Stats.Unknown++
	}
	return r, md
}

func (s *Solver) check(pc []*Term, extra *Term, vars []int32) (Result, map[int32]uint64) {
	limit := s.timeout + s.timeout/2 + 2*time.Second
	if !s.Deadline.IsZero() {
		left := time.Until(s.Deadline)
		if left <= 0 {
			return Unknown, nil
		}
		limit = min(limit, left+time.Second)
	}
	if s.cmd != nil && len(s.emitted) > 60000 {
		s.Close()
		s.Stats.Restarts++
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return Unknown, nil
		}
	}
	// a solver that stops reading or answering is ended, which unblocks what follows
	pr := s.cmd.Process
	watch := time.AfterFunc(limit, func() { pr.Kill() })
	defer watch.Stop()
	// synchronise the assertion stack
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", k))
	}
	s.stack = s.stack[:n]
	for _, t := range pc[n:] {
		s.emit(t)
		s.send("(push 1)\n(assert " + s.ref(t) + ")\n")
		s.stack = append(s.stack, t)
	}
	// (mod axioms are added by the caller as terms)
	if extra != nil {
		s.emit(extra)
		s.send("(push 1)\n(assert " + s.ref(extra) + ")\n")
	}
	for _, v := range vars {
		s.emit(s.m.Vars[v].T)
	}
	s.send("(check-sat)\n")
	if s.in.Flush() != nil {
		s.Close()
		return Unknown, nil
	}
	res := Unknown
	l, ok := s.readLine(limit)
	if !ok {
		s.Close()
		s.Stats.Restarts++
		return Unknown, nil
	}
	switch l {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	case "unknown":
	default:
		// an error line or a resource message: inconclusive, restart
		s.Stats.Slowest = "solver said: " + l
		s.Close()
		s.Stats.Restarts++
		return Unknown, nil
	}
	var md map[int32]uint64
	if res == Sat {
		md = map[int32]uint64{}
		if len(vars) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range vars {
				fmt.Fprintf(&sb, " v%d", v)
			}
			sb.WriteString("))\n(echo \"done\")\n")
			s.send(sb.String())
			s.in.Flush()
			var txt strings.Builder
			for {
				l, ok := s.readLine(10 * time.Second)
				if !ok {
					s.Close()
					return Unknown, nil
				}
				if l == "done" || l == `"done"` {
					break
				}
				txt.WriteString(l)
				txt.WriteByte(' ')
			}
			parseValues(txt.String(), md)
		}
	}
	if extra != nil {
		s.send("(pop 1)\n")
	}
	return res, md
}

func parseValues(s string, md map[int32]uint64) {
	f := strings.FieldsFunc(s, func(r rune) bool { return r == '(' || r == ')' || r == ' ' })
	for i := 0; i+1 < len(f); {
		if f[i][0] != 'v' {
			i++
			continue
		}
		n, err := strconv.Atoi(f[i][1:])
		if err != nil {
			i++
			continue
		}
		x := f[i+1]
		i += 2
		var v uint64
		switch {
		case x == "true":
			v = 1
		case x == "false":
		case strings.HasPrefix(x, "#x"):
			v, _ = strconv.ParseUint(x[2:], 16, 64)
		case strings.HasPrefix(x, "#b"):
			v, _ = strconv.ParseUint(x[2:], 2, 64)
		}
		md[int32(n)] = v
	}
}
