package props

import (
	"sync"

	"github.com/forsyth/jsonpath"

	"verifharness/sym"
)

type outcome struct {
	got []any
	err error
}

// together evaluates the pairs at the same time, each n times in its own goroutine, under every schedule with
// up to k preemptions (if k is negative: one schedule), and compares every result with the reference.
func together(k, n int, l ...pair) {
	for _, p := range l {
		sym.Note("path", p.text)
		sym.Note("document", p.doc)
		sym.Freeze(p.doc)
	}
	out := make([][]outcome, len(l))
	var wg sync.WaitGroup
	if k >= 0 {
		sym.Sched(k)
	}
	sym.Race(true)
	for i := range l {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			rs := make([]outcome, n)
			for j := range rs {
				r, err := l[i].p.Eval(l[i].doc)
				rs[j] = outcome{r, err}
			}
			out[i] = rs
		}()
	}
	wg.Wait()
	sym.Race(false)
	for i, p := range l {
		for _, o := range out[i] {
			sym.Assert((o.got == nil) == (o.err != nil), "not either results or an error")
			judge(p.text, p.doc, o.got, o.err)
		}
	}
	sym.CheckFrozen()
}

var sharedPaths = []string{"$[?(@ > 1)]", "$..[?(@.a)]", "$..*", "$[?(@ in [1,2])]", "$.*", "$[0,1]", "$[::-1]", "$[(@.length-1)]", "$[?(@ ~ 'x')]", "$[?(@ ~ /x/)]", "$..a", "$[?(@ in 1)]", "$..[0,'a']", "$[?(max(@) == 2)]", "$[?(nosuch(@))]", "$", "$[?(@.a == @.b)]", "$[('a')]", "$[?(@[0] == 1)][?(@ == 1)]", "$..[?(@ ~ '(')]", "$[?(tokenize(@,'x'))]", "$[?(sum(@) == 3)]", "$[?(keys(@))]", "$.a[0]['a','b']"}

func sharedDoc(i int) any {
	switch i {
	case 0:
		return []any{1.0, 2.0}
	case 1:
		return map[string]any{"a": []any{1.0, 2.0}}
	case 2:
		return []any{"x", []any{1.0, 2.0}}
	case 3:
		return []any{}
	}
	return []any{map[string]any{"a": 1.0, "b": 1.0}, 3.0, "yxz"}
}

// C20_Same: one of 24 paths evaluated by two goroutines on two of five documents, or both on the same one, under every schedule
// with one preemption at a synchronisation (thorough: two).
// sym: race weight=3 tries=30
func C20_Same() {
	t := sharedPaths[sym.Choose("path", len(sharedPaths))]
	i := sym.Choose("doc", 5)
	d := sharedDoc(i)
	e := d
	if j := sym.Choose("other", 5); j != i {
		e = sharedDoc(j)
	}
	p := mustPath(t)
	together(tier(1, 2), 1, pair{p, t, d}, pair{p, t, e})
}

// C20_Symbolic: paths evaluated by two goroutines on documents with a symbolic part, on schedules without preemption.
// sym: race weight=2 tries=30
func C20_Symbolic() {
	t := sharedPaths[sym.Choose("path", len(sharedPaths))]
	d := []any{sym.Doc("d", "depth=1 kinds=nfsao leaf=fs len=2 keys=a,b num=0,1,2 strs=x|y"), 1.0}
	e := []any{2.0, sym.Doc("e", "depth=1 kinds=nfsao leaf=fs len=1 keys=a num=0,1,2 strs=x|(")}
	p := mustPath(t)
	together(0, 1, pair{p, t, d}, pair{p, t, e})
}

// C20_Repeated: two goroutines that evaluate a path three times each, on schedules with one preemption.
// sym: race tries=30
func C20_Repeated() {
	t := sharedPaths[sym.Choose("path", len(sharedPaths))]
	p := mustPath(t)
	together(tier(1, 2), 3, pair{p, t, sharedDoc(sym.Choose("doc", 5))}, pair{p, t, sharedDoc(sym.Choose("other", 5))})
}

// C20_Three: three goroutines, two of which share a path and two a document.
// sym: race weight=2 tries=30
func C20_Three() {
	t := sharedPaths[sym.Choose("path", len(sharedPaths))]
	u := sharedPaths[sym.Choose("other", tier(10, len(sharedPaths)))]
	p := mustPath(t)
	d, e := sharedDoc(2), sharedDoc(4)
	together(tier(0, 1), 1, pair{p, t, d}, pair{p, t, e}, pair{mustPath(u), u, d})
}

// C20_Compile: one goroutine compiles paths while another evaluates, and both compile.
// sym: race tries=30
func C20_Compile() {
	t := sharedPaths[sym.Choose("path", len(sharedPaths))]
	u := sharedPaths[sym.Choose("other", tier(10, len(sharedPaths)))]
	d := sharedDoc(sym.Choose("doc", 5))
	var p, q *jsonpath.JSONPath
	var wg sync.WaitGroup
	sym.Sched(tier(0, 1))
	sym.Race(true)
	wg.Add(2)
	go func() {
		defer wg.Done()
		p, _ = jsonpath.Compile(t)
		if p != nil {
			p.Eval(d)
		}
	}()
	go func() {
		defer wg.Done()
		q, _ = jsonpath.Compile(u)
	}()
	wg.Wait()
	sym.Race(false)
	sym.Assert(p != nil && q != nil, "path rejected")
	r, err := p.Eval(d)
	judge(t, d, r, err)
	r, err = q.Eval(d)
	judge(u, d, r, err)
}

// C20_Cross: 160 paths of all kinds evaluated by three goroutines on two of six documents on one schedule.
// sym: race weight=2 tries=30
func C20_Cross() {
	t := crossPath()
	i := sym.Choose("doc", 6)
	docs := []int{9, 18, 19, 21, 23, 31}
	p := mustPath(t)
	d, e := oddDoc(docs[i]), oddDoc(docs[(i+1)%6])
	together(-1, 1, pair{p, t, d}, pair{p, t, e}, pair{p, t, e})
}
