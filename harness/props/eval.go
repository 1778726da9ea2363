package props

import (
	"github.com/forsyth/jsonpath"

	"verifharness/ref"
	"verifharness/sym"
)

// checkEval compares Eval with the reference evaluator. The text has to be a path.
func checkEval(text string, doc any) {
	sym.Note("path", text)
	p, err := jsonpath.Compile(text)
	sym.Assert(err == nil, "path rejected")
	got, err := p.Eval(doc)
	sym.Note("document", doc)
	judge(text, doc, got, err)
}

// judge compares results with what the reference gives.
func judge(text string, doc any, got []any, err error) {
	steps, ok := ref.ParsePath(text)
	if !ok {
		panic("harness: not a path: " + text)
	}
	judgeSteps(steps, doc, got, err)
}

func judgeSteps(steps []*ref.Step, doc any, got []any, err error) {
	ev := &ref.Eval{Root: doc}
	want := ev.Run(steps)
	sym.Note("results", got)
	if ev.Open {
		sym.Reach("not settled")
		return
	}
	if ev.Failed {
		sym.Assert(err != nil, "run-time error expected")
		sym.Assert(got == nil, "results with an error")
		sym.Reach("error")
		return
	}
	sym.Note("wanted", want.Values())
	sym.Assert(err == nil, "unexpected run-time error")
	sym.Assert(got != nil, "neither results nor an error")
	sym.Assert(want.Match(got), "wrong results")
	if len(got) > 0 {
		sym.Reach("results")
	} else {
		sym.Reach("no results")
	}
}

// pickText chooses one of the texts.
func pickText(name string, l ...string) string { return l[sym.Choose(name, len(l))] }
