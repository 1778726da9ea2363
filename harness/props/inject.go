package props

import (
	"github.com/forsyth/jsonpath/mach"
	"github.com/forsyth/jsonpath/paths"

	"verifharness/ref"
	"verifharness/sym"
)

// Placeholders in path texts that stand for symbolic constants: the integers 7001, 7002, ...
// and the reals 7001.5, 7002.5, ...
const hole = 7001

// evalWith evaluates a path some of whose constants are symbolic, through the public
// syntax tree, and compares with the reference evaluator.
func evalWith(text string, doc any, ints []int64, reals []float64) {
	sym.Note("path", text)
	sym.Note("integers", ints)
	sym.Note("reals", reals)
	path, err := paths.ParsePath(text)
	sym.Assert(err == nil, "path rejected")
	for _, st := range path {
		for i, a := range st.Args {
			st.Args[i] = fillVal(a, ints, reals)
		}
	}
	prog, err := mach.Compile(path)
	sym.Assert(err == nil, "path not compiled")
	got, err := prog.Run(doc)
	sym.Note("document", doc)
	steps, ok := ref.ParsePath(text)
	if !ok {
		panic("harness: not a path: " + text)
	}
	for _, st := range steps {
		for _, a := range st.Args {
			fillArg(a, ints, reals)
		}
	}
	judgeSteps(steps, doc, got, err)
}

func fillInt(v int64, ints []int64) int64 {
	if v >= hole && v < hole+int64(len(ints)) {
		return ints[v-hole]
	}
	return v
}

func fillReal(v float64, reals []float64) float64 {
	if v >= hole && v < hole+float64(len(reals)) {
		return reals[int(v)-hole]
	}
	return v
}

func fillVal(v paths.Val, ints []int64, reals []float64) paths.Val {
	switch v := v.(type) {
	case paths.IntVal:
		return paths.IntVal(fillInt(int64(v), ints))
	case *paths.Slice:
		if v.Start != nil {
			v.Start = fillVal(v.Start, ints, reals)
		}
		if v.End != nil {
			v.End = fillVal(v.End, ints, reals)
		}
		if v.Stride != nil {
			v.Stride = fillVal(v.Stride, ints, reals)
		}
	case *paths.IntLeaf:
		v.Val = fillInt(v.Val, ints)
	case *paths.FloatLeaf:
		v.Val = fillReal(v.Val, reals)
	case *paths.Inner:
		for _, k := range v.Kids {
			fillVal(k, ints, reals)
		}
	}
	return v
}

func fillArg(a *ref.Arg, ints []int64, reals []float64) {
	switch a.Kind {
	case ref.AInt:
		a.I = fillInt(a.I, ints)
	case ref.ASlice:
		for _, p := range a.Slice {
			if p != nil {
				fillArg(p, ints, reals)
			}
		}
	case ref.AExpr:
		fillExpr(a.E, ints, reals)
	}
}

func fillExpr(e *ref.Expr, ints []int64, reals []float64) {
	switch e.Op {
	case paths.OpInt:
		e.I = fillInt(e.I, ints)
	case paths.OpReal:
		if e.Real.Frac == "5" {
			for i := range reals {
				if e.Real.Int == string([]byte{'7', '0', '0', byte('1' + i)}) {
					e.F, e.Real = reals[i], nil
					return
				}
			}
		}
	}
	for _, k := range e.Kids {
		fillExpr(k, ints, reals)
	}
}
