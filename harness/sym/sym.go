// Package sym gives harnesses their inputs and checks.
// The symbolic executor replaces every function of this package. The bodies below are
// the native meaning: they take one concrete assignment found by the solver and run
// the same harness against the compiled code.
package sym

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"time"
)

// Input is one assignment.
type Input struct {
	Fn     string            `json:"fn"`
	Assign map[string]uint64 `json:"assign,omitempty"`
	Choice map[string]int64  `json:"choice,omitempty"`
	Tier   int               `json:"tier"`
	Known  []string          `json:"known,omitempty"`
}

// Failure is a failed check.
type Failure struct{ Label string }

// Infeasible is a failed assumption.
type Infeasible struct{}

var (
	in      Input
	reached []string
	notes   []string
	hits    []string
	froz    []snapshot
	base    int
	vars    []string
)

type snapshot struct {
	v    any
	text string
}

// Start prepares a run with the given assignment.
func Start(i Input) {
	in = i
	reached, notes, froz, vars, hits = nil, nil, nil, nil, nil
	base = runtime.NumGoroutine()
}

// Reached gives the Reach labels of the run; Notes its notes.
func Reached() []string { return reached }
func Notes() []string   { return notes }
func Hits() []string    { return hits }

func Byte(name string) byte { return byte(in.Assign[name]) }

func ByteIn(name, set string) byte {
	b := byte(in.Assign[name])
	Assume(strings.IndexByte(set, b) >= 0)
	return b
}

// String is a string of n bytes from set (any byte if set is "").
func String(name string, n int, set string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(in.Assign[name+"["+strconv.Itoa(i)+"]"])
		Assume(set == "" || strings.IndexByte(set, b[i]) >= 0)
	}
	return string(b)
}

func Int64(name string) int64 { return int64(in.Assign[name]) }

func IntIn(name string, lo, hi int64) int64 {
	v := int64(in.Assign[name])
	Assume(lo <= v && v <= hi)
	return v
}

func Bool(name string) bool { return in.Assign[name] != 0 }

// Float is a double: mode full (any finite), int (32-bit integers), small (-8..8) or a list of values.
func Float(name, mode string) float64 {
	s := &spec{num: mode}
	if mode != "full" && mode != "fin" && mode != "int" && mode != "small" {
		s.setNums(mode)
	}
	return s.number(name)
}

// Choose picks one of n alternatives.
func Choose(name string, n int) int {
	if n <= 0 {
		panic(Infeasible{})
	}
	v := int(in.Choice[name])
	if v >= n {
		panic(Infeasible{})
	}
	return v
}

// Ident is the array [0, 1, 2, ...] of some length up to max.
func Ident(name string, max int64) []any {
	n := in.Assign[name]
	Assume(n <= uint64(max))
	if n > 1<<24 {
		panic(Infeasible{})
	}
	a := make([]any, n)
	for i := range a {
		a[i] = float64(i)
	}
	return a
}

func Assume(ok bool) {
	if !ok {
		panic(Infeasible{})
	}
}

func Assert(ok bool, label string) {
	if !ok {
		panic(Failure{label})
	}
}

func Fail(label string) { panic(Failure{label}) }

func Reach(label string) { reached = append(reached, label) }

// Note adds to the description of a counterexample.
func Note(what string, v any) { notes = append(notes, fmt.Sprintf("%s: %s", what, Text(v))) }

// Text writes a value exactly.
func Text(v any) string {
	var b bytes.Buffer
	text(&b, v, 0)
	return b.String()
}

func text(b *bytes.Buffer, v any, depth int) {
	if depth > 50 {
		b.WriteString("...")
		return
	}
	switch v := v.(type) {
	case nil:
		b.WriteString("null")
	case string:
		b.WriteString(strconv.Quote(v))
	case float64:
		b.WriteString(strconv.FormatFloat(v, 'g', -1, 64))
		if v == math.Trunc(v) {
			b.WriteString("d")
		}
	case []any:
		if v == nil {
			b.WriteString("nil")
		}
		b.WriteByte('[')
		for i, e := range v {
			if i > 0 {
				b.WriteByte(',')
			}
			text(b, e, depth+1)
		}
		b.WriteByte(']')
	case map[string]any:
		b.WriteByte('{')
		n := 0
		for _, k := range sortedKeys(v) {
			if n > 0 {
				b.WriteByte(',')
			}
			n++
			b.WriteString(strconv.Quote(k))
			b.WriteByte(':')
			text(b, v[k], depth+1)
		}
		b.WriteByte('}')
	case error:
		fmt.Fprintf(b, "error(%s)", v.Error())
	default:
		fmt.Fprintf(b, "%T(%v)", v, v)
	}
}

func sortedKeys(m map[string]any) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}

// Freeze declares that v must not change any more.
func Freeze(v any) { froz = append(froz, snapshot{v, Text(v)}) }

// CheckFrozen checks what Freeze was told.
func CheckFrozen() {
	for _, s := range froz {
		if Text(s.v) != s.text {
			panic(Failure{"document modified"})
		}
	}
}

// Goroutines is the number of goroutines started during the run that are still there.
func Goroutines() int { return runtime.NumGoroutine() - base }

// Settle lets all other goroutines run until they end or block.
func Settle() {
	n := runtime.NumGoroutine()
	still := 0
	for i := 0; i < 400 && still < 20; i++ {
		runtime.Gosched()
		time.Sleep(500 * time.Microsecond)
		m := runtime.NumGoroutine()
		if m == n {
			still++
		} else {
			still = 0
		}
		n = m
		if m <= base {
			break
		}
	}
}

// Same is exact equality of JSON values (double 1 and integer 1 differ, NaN equals NaN, 0 and -0 differ).
func Same(a, b any) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && SameFloat(x, y)
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !Same(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !Same(v, w) {
				return false
			}
		}
		return true
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	return reflect.DeepEqual(a, b)
}

func SameFloat(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || a != a && b != b
}

// Race, Sched and Permute switch on race detection, exploration of schedules and of object orders.
func Race(on bool)    {}
func Sched(n int)     {}
func Permute(on bool) {}

// Tier is 0 for quick checks, 1 for thorough ones.
func Tier() int { return in.Tier }

// Known tells whether a finding is listed in the known-findings file.
func Known(id string) bool {
	for _, k := range in.Known {
		if k == id {
			return true
		}
	}
	return false
}

// KnownHit says that a listed finding was seen.
func KnownHit(id string) { hits = append(hits, id) }

// Symbolic is 1 in the symbolic executor.
func Symbolic() int { return 0 }

// Concrete gives s one value per path.
func Concrete(s string) string { return s }

// And and Or evaluate both operands.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }

// StrEq is s == t without a fork.
func StrEq(s, t string) bool { return s == t }

// ---- documents

const (
	kNull = 1 << iota
	kBool
	kNum
	kStr
	kArr
	kObj
)

type spec struct {
	depth            int
	kinds, leaf, top uint8
	min, max         int
	keys             []string
	num              string
	nums             []float64
	str              int
	strs             []string
	alpha            []byte
}

func (s *spec) setNums(v string) {
	s.num = "list"
	for _, x := range strings.Split(v, ",") {
		f, err := strconv.ParseFloat(x, 64)
		if err != nil {
			panic(err)
		}
		s.nums = append(s.nums, f)
	}
}

func parseSpec(t string) *spec {
	s := &spec{depth: 1, kinds: 63, max: 2, num: "full", str: 1}
	letters := "nbfsao"
	for _, f := range strings.Fields(t) {
		k, v, _ := strings.Cut(f, "=")
		ks := func() (m uint8) {
			for i := 0; i < len(v); i++ {
				m |= 1 << strings.IndexByte(letters, v[i])
			}
			return
		}
		switch k {
		case "depth":
			s.depth, _ = strconv.Atoi(v)
		case "kinds":
			s.kinds = ks()
		case "leaf":
			s.leaf = ks()
		case "top":
			s.top = ks()
		case "min":
			s.min, _ = strconv.Atoi(v)
		case "len":
			s.max, _ = strconv.Atoi(v)
		case "keys":
			if v != "" {
				s.keys = strings.Split(v, ",")
			}
		case "num":
			s.num = v
			if v != "full" && v != "fin" && v != "int" && v != "small" {
				s.setNums(v)
			}
		case "str":
			s.str, _ = strconv.Atoi(v)
		case "alpha":
			s.alpha = []byte(v)
		case "strs":
			for _, x := range strings.Split(v, "|") {
				u, err := strconv.Unquote(`"` + x + `"`)
				if err != nil {
					panic(err)
				}
				s.strs = append(s.strs, u)
			}
		default:
			panic("bad spec field " + f)
		}
	}
	if s.leaf == 0 {
		s.leaf = s.kinds &^ (kArr | kObj)
		if s.leaf == 0 {
			s.leaf = kNull
		}
	}
	if s.top == 0 {
		s.top = s.kinds
	}
	return s
}

// Doc is a JSON document within the given bounds.
func Doc(name, bounds string) any {
	s := parseSpec(bounds)
	return s.value(name, s.depth, true)
}

func (s *spec) value(name string, depth int, top bool) any {
	mask := s.kinds
	if depth <= 0 {
		mask = s.leaf
	} else if top {
		mask = s.top
	}
	k := uint8(in.Choice[name+".kind"])
	if k == 0 {
		k = mask & -mask
	}
	if k&mask == 0 {
		panic(Infeasible{})
	}
	switch k {
	case kNull:
		return nil
	case kBool:
		return in.Assign[name+".b"] != 0
	case kNum:
		return s.number(name)
	case kStr:
		if s.strs != nil {
			return s.strs[in.Choice[name+".s"]]
		}
		n := int(in.Choice[name+".len"])
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(in.Assign[name+"["+strconv.Itoa(i)+"]"])
			if b[i] == 0 && s.alpha != nil {
				b[i] = s.alpha[0]
			}
		}
		return string(b)
	case kArr:
		n := s.min
		if l, ok := in.Choice[name+".len"]; ok {
			n = int(l)
		}
		a := make([]any, n)
		for i := range a {
			a[i] = s.value(name+"["+strconv.Itoa(i)+"]", depth-1, false)
		}
		return a
	}
	m := map[string]any{}
	for _, key := range s.keys {
		if v, ok := in.Choice[name+"."+key+".in"]; ok && v == 0 {
			m[key] = s.value(name+"."+key, depth-1, false)
		}
	}
	return m
}

func (s *spec) number(name string) float64 {
	switch s.num {
	case "list":
		return s.nums[in.Choice[name+".n"]]
	case "small":
		v := int8(in.Assign[name+".i"])
		Assume(-8 <= v && v <= 8)
		return float64(v)
	case "int":
		return float64(int32(in.Assign[name+".i"]))
	}
	f := math.Float64frombits(in.Assign[name+".n"])
	Assume(!math.IsNaN(f) && !math.IsInf(f, 0))
	return f
}

var _ = json.Marshal

// ---- the jpath command

// File is an input of the command: Missing does not exist, Bad cannot be read.
type File struct {
	Name, Data   string
	Missing, Bad bool
}

// Run runs the jpath command; full makes its writes to standard output fail.
func Run(args []string, stdin File, files []File, full bool) (stdout, stderr string, status int) {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	dir, err := os.MkdirTemp("", "jpath")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	put := func(f File) string {
		name := filepath.Join(dir, f.Name)
		switch {
		case f.Missing:
		case f.Bad:
			err = os.MkdirAll(name, 0o755)
		default:
			err = os.WriteFile(name, []byte(f.Data), 0o644)
		}
		if err != nil {
			panic(err)
		}
		return name
	}
	for _, f := range files {
		put(f)
	}
	stdin.Name = ".stdin"
	in, err := os.Open(put(stdin))
	if err != nil {
		panic(err)
	}
	defer in.Close()
	var out, er bytes.Buffer
	ctx, stop := context.WithTimeout(context.Background(), 10*time.Second)
	defer stop()
	l := []string{"-c", `ulimit -n 64 && exec "$0" "$@"`, filepath.Join(filepath.Dir(exe), "jpath")}
	c := exec.CommandContext(ctx, "/bin/sh", append(l, args...)...)
	c.Dir = dir
	c.Stdin, c.Stdout, c.Stderr = in, &out, &er
	if full {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			panic(err)
		}
		defer f.Close()
		c.Stdout = f
	}
	err = c.Run()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		panic(err)
	}
	if ctx.Err() != nil {
		panic(Failure{"jpath does not end"})
	}
	return out.String(), er.String(), c.ProcessState.ExitCode()
}
