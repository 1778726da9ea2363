package props

import (
	"strings"
	"sync"

	"github.com/forsyth/jsonpath"
	"github.com/forsyth/jsonpath/mach"
	"github.com/forsyth/jsonpath/paths"

	"verifharness/ref"
	"verifharness/sym"
)

// parse gives the steps of a text that has to be one of the grammar.
func parse(text string) paths.Path {
	p, err := paths.ParsePath(text)
	sym.Assert(err == nil, "path rejected")
	return p
}

func parseExpr(text string) paths.Expr {
	e, err := paths.ParseScriptExpression(text)
	sym.Assert(err == nil, "expression rejected")
	return e
}

// built compiles steps and runs them on the document.
func built(p paths.Path, doc any) ([]any, error) {
	prog, err := mach.Compile(p)
	sym.Assert(err == nil, "steps rejected")
	return prog.Run(doc)
}

// equals compares steps with what a text gives on a document, and with what it should give.
func equals(p paths.Path, text string, doc any) {
	sym.Note("path", text)
	r, err := built(p, doc)
	q, err2 := jsonpath.Compile(text)
	sym.Assert(err2 == nil, "path rejected")
	u, err2 := q.Eval(doc)
	sym.Note("document", doc)
	sym.Note("results of the steps", r)
	sym.Note("results of the text", u)
	sym.Assert((err == nil) == (err2 == nil), "only one of the steps and the text fails")
	sym.Assert(sameBag(r, u), "the steps and the text give different results")
	judge(text, doc, r, err)
	if len(r) > 0 {
		sym.Reach("results")
	}
	sym.Reach("compared")
}

// tails are paths to join and to cut.
var tails = []string{"$", "$.a", "$.*", "$[1]", "$['b','a',0]", "$[-2:]", "$..a", "$..*", "$[?(@.a)]", "$[(@.length-1)]", "$..[?(@.b == 1.5)]", "$.a[0]..b", "$..[0]", "$..[(1)]", "$[::-1].a", "$.-1",
	"$[?(@ == 'a')]", "$[?(@.b ~ /a/)]", "$..[a,'b',a]", "$[a,0,a,0]", "$[?(@ in ['a','b',1])]"}

// C28_Joined: the steps of two paths of 21 put together are the path of the two texts, and each path is as before, on 5 documents.
// sym: weight=2
func C28_Joined() {
	joined(pickText("s", tails...), pickText("t", tails...), []any{
		meaningDoc(),
		map[string]any{"a": []any{"a", "b", 1.0, map[string]any{"a": "a", "b": "aa"}}, "b": "a"},
		[]any{[]any{"a", 1.0}, map[string]any{"a": []any{"b", "a"}, "b": 1.5}, "a"},
		map[string]any{"a": map[string]any{"a": "x", "b": "a", "c": "b"}, "b": []any{1.0, 1.5}},
		[]any{1.5, "a", []any{}},
	}[sym.Choose("doc", 5)])
}

// C28_JoinedAny: the same for two paths of 8, on any document of depth 2.
// sym: weight=2
func C28_JoinedAny() {
	joined(pickText("s", tails[1:9]...), pickText("t", tails[5:13]...), sym.Doc("d", "depth=2 kinds=nfsao leaf=nfs top=ao len=2 keys=a,b num=0,1 strs=a"))
}

func joined(s, t string, d any) {
	p, q := parse(s), parse(t)
	j := append(append(paths.Path{}, p...), q...)
	equals(j, s+t[1:], d)
	sym.Note("of these", s)
	equals(p, s, d)
	equals(q, t, d)
}

// C28_Cut: any run of the steps of 12 paths is the path of that text, on a document.
func C28_Cut() {
	l := []string{"$.a", "['b']", "..a", "[0,'a']", "[?(@.a || @.b)]", ".*", "..[?(@ > 0)]", "[1:]", "..*", "[(@.length - 1)]", "..[0]"}
	n := len(l)
	l[0] = ".a"
	r := sym.Choose("rotate", n)
	l = append(append([]string{}, l[r:]...), l[:r]...)
	s := "$"
	s += strings.Join(l, "")
	p := parse(s)
	sym.Assert(len(p) == n, "not one step for each")
	i := sym.Choose("from", n)
	k := sym.Choose("steps", 4)
	if i+k > n {
		k = n - i
	}
	t := "$" + strings.Join(l[i:i+k], "")
	equals(p[i:i+k], t, meaningDoc())
	sym.Assert(same(p, s), "compiling some of the steps changed others")
}

// same tells whether the steps are still those of the text.
func same(p paths.Path, text string) bool {
	want, ok := ref.ParsePath(text)
	return ok && ref.SameSteps(p, want)
}

// C28_Kept: the steps of 160 paths compiled three times, with evaluations between on two of 8 unusual documents, stay as
// they are, and every program gives what the text gives.
// sym: weight=2
func C28_Kept() {
	s := crossPath()
	p := parse(s)
	i := sym.Choose("doc", 8)
	a, err := mach.Compile(p)
	sym.Assert(err == nil, "steps rejected")
	la := a.String()
	a.Run(oddDoc(i))
	b, err := mach.Compile(p)
	sym.Assert(err == nil, "steps rejected the second time")
	sym.Note("path", s)
	sym.Assert(b.String() == la && a.String() == la, "another program for the same steps")
	r, err := b.Run(oddDoc(i + 1))
	u, err2 := a.Run(oddDoc(i + 1))
	sym.Assert((err == nil) == (err2 == nil) && sameBag(r, u), "another result for the same steps")
	sym.Assert(same(p, s), "the steps have changed")
	equals(p, s, oddDoc(i+1))
	sym.Assert(same(p, s), "the steps have changed")
}

// C28_KeptAny: the same for any path of 5 bytes after $ (thorough: 6) of a path alphabet.
// sym: weight=2
func C28_KeptAny() {
	s := "$" + sym.String("s", tier(5, 6), ".[]*a0-':,?(@)")
	p, err := paths.ParsePath(s)
	if err != nil {
		sym.Reach("rejected")
		return
	}
	kept(p, s)
}

// kept compiles the steps twice.
func kept(p paths.Path, s string) {
	d := meaningDoc()
	equals(p, s, d)
	sym.Assert(same(p, s), "the steps have changed")
	equals(p, s, d)
}

// C28_KeptList: the same for unions and slices of 6 characters (thorough: 8) with two steps before or after.
// sym: weight=4
func C28_KeptList() {
	s := pickText("start", "$[", "$..[", "$.a[", "$..a[") + sym.String("s", tier(6, 8), "a,01:'") + pickText("end", "]", "]..a", "][?(@ == 'a')]")
	p, err := paths.ParsePath(s)
	if err != nil {
		sym.Reach("rejected")
		return
	}
	kept(p, s)
}

var parts = []string{"@", "@.a", "@.a == 1.5", "@['b']", "1", "'a'", "-@.a", "[@.a, 'x']", "length(@)", "@.a ~ /a/", "@.b in ['a', 1.5]", "$.a", "@.a + 1", "@[0]", "!@.b", "null", "(@.a || @.b) && true"}

// C28_Placed: 17 expressions parsed on their own, as filters, subscripts and operands, once or twice in a path, on any document of depth 2.
// sym: weight=3
func C28_Placed() {
	x := pickText("e", parts...)
	e := parseExpr(x)
	d := sym.Doc("d", "depth=2 kinds=nfsao leaf=nfs top=ao len=2 keys=a,b num=0,1.5 strs=a")
	in := func(op paths.Op, k ...paths.Expr) *paths.Inner { return &paths.Inner{Op: op, Kids: k} }
	step := func(op paths.Op, e paths.Expr) *paths.Step { return &paths.Step{Op: op, Args: []paths.Val{e}} }
	switch sym.Choose("place", 9) {
	case 0:
		equals(paths.Path{step(paths.OpFilter, e)}, "$[?("+x+")]", d)
	case 1:
		equals(paths.Path{step(paths.OpSelect, e)}, "$[("+x+")]", d)
	case 2:
		equals(paths.Path{step(paths.OpNestFilter, e)}, "$..[?("+x+")]", d)
	case 3:
		f := step(paths.OpFilter, e)
		equals(paths.Path{f, f}, "$[?("+x+")][?("+x+")]", d)
	case 4:
		equals(paths.Path{step(paths.OpFilter, in(paths.OpOr, in(paths.OpNot, e), e))}, "$[?(!("+x+") || ("+x+"))]", d)
	case 5:
		equals(paths.Path{step(paths.OpFilter, in(paths.OpEQ, e, e))}, "$[?(("+x+") == ("+x+"))]", d)
	case 6:
		equals(paths.Path{step(paths.OpFilter, in(paths.OpIn, e, in(paths.OpArray, e, &paths.IntLeaf{Op: paths.OpInt, Val: 1})))}, "$[?(("+x+") in [("+x+"), 1])]", d)
	case 7:
		equals(paths.Path{step(paths.OpFilter, in(paths.OpCall, &paths.NameLeaf{Op: paths.OpID, Name: "length"}, e))}, "$[?(length("+x+"))]", d)
	case 8:
		equals(paths.Path{{Op: paths.OpNestWild}, step(paths.OpFilter, in(paths.OpDot, in(paths.OpArray, e), &paths.NameLeaf{Op: paths.OpID, Name: "length"}))}, "$..*[?([("+x+")].length)]", d)
	}
	w, ok := ref.ParseExpr(x)
	sym.Assert(ok && ref.SameExpr(e, w), "the expression has changed")
}

// C28_Indices: an index and two alternatives of any 64-bit value, on arrays of up to 3 elements.
func C28_Indices() {
	a, b := sym.Int64("a"), sym.Int64("b")
	n := sym.Choose("n", 4)
	doc := []any{"x", "y", "z"}[:n]
	st := &paths.Step{Op: paths.OpSelect, Args: []paths.Val{paths.IntVal(a)}}
	want := &ref.Step{Op: paths.OpSelect, Args: []*ref.Arg{{Kind: ref.AInt, I: a}}}
	switch sym.Choose("form", 3) {
	case 1:
		st.Op, want.Op = paths.OpUnion, paths.OpUnion
		st.Args = append(st.Args, paths.IntVal(b))
		want.Args = append(want.Args, &ref.Arg{Kind: ref.AInt, I: b})
	case 2:
		st.Op, want.Op = paths.OpNestSelect, paths.OpNestSelect
	}
	got, err := built(paths.Path{st}, doc)
	sym.Note("a", a)
	sym.Note("b", b)
	judgeSteps([]*ref.Step{want}, doc, got, err)
}

// C28_Slices: a slice with any 64-bit start, end and stride, or without, on arrays of up to 3 elements (thorough: 4).
// sym: weight=3
func C28_Slices() {
	n := sym.Choose("n", tier(4, 5))
	doc := []any{"x", "y", "z", "t"}[:n]
	s := &paths.Slice{}
	w := &ref.Arg{Kind: ref.ASlice}
	k := sym.Choose("which", 8)
	set := func(i int, name string, v *paths.Val) {
		if k>>i&1 != 0 {
			x := sym.Int64(name)
			sym.Note(name, x)
			*v = paths.IntVal(x)
			w.Slice[i] = &ref.Arg{Kind: ref.AInt, I: x}
		}
	}
	set(0, "start", &s.Start)
	set(1, "end", &s.End)
	set(2, "stride", &s.Stride)
	got, err := built(paths.Path{{Op: paths.OpSelect, Args: []paths.Val{s}}}, doc)
	judgeSteps([]*ref.Step{{Op: paths.OpSelect, Args: []*ref.Arg{w}}}, doc, got, err)
}

// C28_Names: members, keys and strings of any 2 bytes (thorough: 3) against a member of any such name and a value of it.
// sym: weight=2
func C28_Names() {
	n := tier(2, 3)
	s, t := sym.String("s", n, ""), sym.String("t", n, "")
	doc := []any{map[string]any{t: t}}
	var p paths.Path
	var want []any
	hit := sym.StrEq(s, t)
	one := &paths.Step{Op: paths.OpWild}
	str := &paths.StringLeaf{Op: paths.OpString, Val: s}
	dot := &paths.NameLeaf{Op: paths.OpCurrent, Name: "@"}
	switch sym.Choose("form", 6) {
	case 0:
		p = paths.Path{one, {Op: paths.OpMember, Args: []paths.Val{paths.NameVal(s)}}}
		want = []any{t}
	case 1:
		p = paths.Path{one, {Op: paths.OpSelect, Args: []paths.Val{paths.StringVal(s)}}}
		want = []any{t}
	case 2:
		p = paths.Path{{Op: paths.OpNestMember, Args: []paths.Val{paths.NameVal(s)}}}
		want = []any{t}
	case 3:
		p = paths.Path{{Op: paths.OpFilter, Args: []paths.Val{&paths.Inner{Op: paths.OpDot, Kids: []paths.Expr{dot, &paths.NameLeaf{Op: paths.OpID, Name: s}}}}}}
		want = []any{doc[0]}
		if len(s) > 0 && sym.StrEq(t, s) {
			sym.Assume(s != "length")
		}
	case 4:
		p = paths.Path{one, {Op: paths.OpFilter, Args: []paths.Val{&paths.Inner{Op: paths.OpEQ, Kids: []paths.Expr{dot, str}}}}}
		want = []any{t}
	case 5:
		p = paths.Path{{Op: paths.OpFilter, Args: []paths.Val{&paths.Inner{Op: paths.OpIndex, Kids: []paths.Expr{dot, str}}}}}
		want = []any{doc[0]}
	}
	got, err := built(p, doc)
	sym.Note("wanted", s)
	sym.Note("there", t)
	sym.Note("results", got)
	sym.Assert(err == nil, "unexpected run-time error")
	if hit {
		sym.Assert(sameBag(got, want), "wrong results")
		sym.Reach("there")
	} else {
		sym.Assert(len(got) == 0, "results of another name")
		sym.Reach("not there")
	}
}

// C28_Numbers: integers and reals of any value as operands, against any number of a document.
// sym: weight=2
func C28_Numbers() {
	op := []paths.Op{paths.OpEQ, paths.OpNE, paths.OpLT, paths.OpLE, paths.OpGT, paths.OpGE}[sym.Choose("op", 6)]
	var x float64
	var e paths.Expr
	w := &ref.Expr{}
	if sym.Choose("real", 2) == 1 {
		x = sym.Float("x", "full")
		f := sym.Float("f", "full")
		e, w = &paths.FloatLeaf{Op: paths.OpReal, Val: f}, &ref.Expr{Op: paths.OpReal, F: f}
		sym.Note("operand", f)
	} else {
		x = float64(sym.IntIn("x", -300, 300)) / 4
		i := sym.IntIn("i", -1<<40, 1<<40)
		e, w = &paths.IntLeaf{Op: paths.OpInt, Val: i}, &ref.Expr{Op: paths.OpInt, I: i}
		sym.Note("operand", i)
	}
	doc := []any{x}
	var dot paths.Expr = &paths.NameLeaf{Op: paths.OpCurrent, Name: "@"}
	wdot := &ref.Expr{Op: paths.OpCurrent}
	if sym.Choose("side", 2) == 1 {
		e, dot = dot, e
		w, wdot = wdot, w
	}
	got, err := built(paths.Path{{Op: paths.OpFilter, Args: []paths.Val{&paths.Inner{Op: op, Kids: []paths.Expr{dot, e}}}}}, doc)
	sym.Note("document", doc)
	judgeSteps([]*ref.Step{{Op: paths.OpFilter, Args: []*ref.Arg{{Kind: ref.AExpr, E: &ref.Expr{Op: op, Kids: []*ref.Expr{wdot, w}}}}}}, doc, got, err)
}

// nodes checks what the nodes of a tree say of themselves.
func nodes(e paths.Expr, more int) {
	op := e.Opcode()
	sym.Assert(e.IsLeaf() == op.IsLeaf(), "a node and its operator differ on being a leaf")
	sym.Assert(!op.HasVal() || op.IsLeaf(), "an operator with a value that is not a leaf")
	sym.Assert(op.Opcode() == op, "an operator of an operator")
	switch n := e.(type) {
	case *paths.Inner:
		sym.Assert(!e.IsLeaf(), "a node with operands says it is a leaf")
		for i, k := range n.Kids {
			x, ok := n.Kid(i)
			sym.Assert(ok && x == k, "another operand")
			nodes(k, more)
		}
		x, ok := n.Kid(len(n.Kids) + more)
		sym.Assert(!ok && x == nil, "an operand that is not there")
		c := len(n.Kids)
		switch op {
		case paths.OpNeg, paths.OpNot:
			sym.Assert(c == 1, "not one operand")
		case paths.OpCall:
			sym.Assert(c >= 1, "no name of a function")
		case paths.OpArray:
		default:
			sym.Assert(c == 2, "not two operands")
		}
	case *paths.NullLeaf:
		sym.Assert(op == paths.OpNull && !op.HasVal() && e.IsLeaf(), "null that is not one")
	case *paths.IntLeaf:
		sym.Assert(op == paths.OpInt && op.HasVal(), "an integer that is not one")
	case *paths.FloatLeaf:
		sym.Assert(op == paths.OpReal && op.HasVal(), "a real that is not one")
	case *paths.StringLeaf:
		sym.Assert(op == paths.OpString && op.HasVal(), "a string that is not one")
	case *paths.BoolLeaf:
		sym.Assert(op == paths.OpBool && op.HasVal(), "a boolean that is not one")
	case *paths.RegexpLeaf:
		sym.Assert(op == paths.OpRE && op.HasVal() && n.Prog != nil && n.Prog.String() == n.Pattern, "a pattern that is not one")
	case *paths.NameLeaf:
		switch op {
		case paths.OpID:
			sym.Assert(op.HasVal() && n.Name != "", "a name that is not one")
		case paths.OpCurrent, paths.OpRoot:
			sym.Assert(!op.HasVal(), "a value of @ or $")
		default:
			sym.Fail("a name that is not one")
		}
		sym.Assert(e.IsLeaf(), "a name with operands")
	default:
		sym.Fail("an unknown node")
	}
}

// C28_Nodes: the nodes of the tree of an operand, any 3 bytes (thorough: 4) of an expression alphabet, and an operand, and
// operands past the last.
// sym: weight=2
func C28_Nodes() {
	s := pickText("left", "@.a", "[1,'a']", "f(x", "!-2.5", "null", "/r/") + sym.String("s", tier(3, 4), "@$.[](),1a'-!+=<&|~ ") + pickText("right", "", "1", "@", "true", ")", "]")
	sym.Note("text", s)
	e, err := paths.ParseScriptExpression(s)
	if err != nil {
		sym.Assert(e == nil, "an expression with an error")
		sym.Reach("rejected")
		return
	}
	nodes(e, sym.Choose("more", 3))
	sym.Reach("parsed")
}

// C28_Kinds: whether a value is an object, an array or either, for any value of depth 1.
func C28_Kinds() {
	d := sym.Doc("d", "depth=1 kinds=nbfsao leaf=nbfs len=2 keys=a")
	sym.Note("value", d)
	_, o := d.(map[string]any)
	_, a := d.([]any)
	sym.Assert(mach.IsObject(d) == o, "IsObject is wrong")
	sym.Assert(mach.IsArray(d) == a, "IsArray is wrong")
	sym.Assert(mach.IsStructure(d) == (o || a), "IsStructure is wrong")
	sym.Reach("compared")
}

// C28_Together: the steps of a path compiled and run in two goroutines at once, every interleaving with 1 (thorough: 2) preemptions.
// sym: race
func C28_Together() {
	s := pickText("path", "$.a[0,'b',1:2]..c", "$[?(@.a == 1.5 && @.b ~ /x/)]", "$..[?(length(@) in [70000, 'a'])]", "$.a[(@.length-1)]")
	p := parse(s)
	w, err := built(parse(s), meaningDoc())
	sym.Assert(err == nil, "unexpected run-time error")
	sym.Note("path", s)
	sym.Race(true)
	sym.Sched(tier(1, 2))
	var wg sync.WaitGroup
	got := make([][]any, 2)
	bad := make([]bool, 2)
	for i := range got {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			prog, err := mach.Compile(p)
			if err != nil {
				bad[i] = true
				return
			}
			got[i], err = prog.Run(meaningDoc())
			bad[i] = err != nil
		}()
	}
	wg.Wait()
	sym.Race(false)
	for i := range got {
		sym.Assert(!bad[i], "an error of one of two at once")
		sym.Assert(sameBag(got[i], w), "different results of two at once")
	}
	sym.Assert(same(p, s), "the steps have changed")
	sym.Reach("together")
}
