package props

import (
	"github.com/forsyth/jsonpath"

	"verifharness/sym"
)

var steps = []string{".a", "[0]", ".*", "[::-1]", "[0,1]", "..a", "[?(@)]", "[-1]", "['a','b']", "[*]", "..[0]", "[('a')]", "[1:]", "..[?(@.a)]", ".b", "..*", "[(1)]", ".0"}

func sequence(n, k int) string {
	s := "$"
	for i := 0; i < n; i++ {
		s += steps[sym.Choose("s"+string(rune('0'+i)), k)]
	}
	return s
}

// C11_Two: every pair of 18 steps on any document of depth 2.
// sym: weight=2
func C11_Two() {
	checkEval(sequence(2, 18), sym.Doc("d", "depth=2 kinds=nao leaf=nf len=2 keys=a,b num=0,1"))
}

// C11_Three: every triple of 8 (thorough: 18) steps on any document of depth 2 (thorough: 3).
// sym: weight=3
func C11_Three() {
	if sym.Tier() > 0 {
		checkEval(sequence(3, 18), sym.Doc("d", "depth=3 kinds=nao leaf=n top=ao len=2 keys=a"))
		return
	}
	checkEval(sequence(3, 8), sym.Doc("d", "depth=3 kinds=nao leaf=n top=ao min=1 len=2 keys=a"))
}

// C11_Root: the path $ and paths that end in nothing.
func C11_Root() {
	checkEval(pickText("path", "$", " $ ", "$.a", "$[0][0][0][0]", "$.*.*.*", "$.a.b.c.d"), sym.Doc("d", "depth=2 len=2 keys=a,b"))
}

var computed = []string{"'a'", "$.k", "0", "-1", "1", "1.0", "0.5", "-0.5", "-1.9", "1.99", "'0'", "$.n", "$[0]", "$.k.length", "$.n + 1", "$[1] - $[0]", "1/0", "2*1", "3 - 2.0", "$.k || 1",
	"length($)", "'b'", "$['k']", "7.0/2", "'1' || 2"}

// C11_Computed: 25 computed subscripts in the forms [(e)], .(e), ..[(e)] and ..(e), alone, after and before another step.
// sym: weight=3
func C11_Computed() {
	e := computed[sym.Choose("e", len(computed))]
	pre := []string{"$", "$.*", "$.a"}[sym.Choose("before", 3)]
	form := [][2]string{{"[(", ")]"}, {".(", ")"}, {"..[(", ")]"}, {"..(", ")"}}[sym.Choose("form", 4)]
	post := []string{"", "[0]"}[sym.Choose("after", 2)]
	checkEval(pre+form[0]+e+form[1]+post, sym.Doc("d", "depth=2 kinds=nfsao leaf=nfs top=ao len=2 keys=a,0,k num=0,1,-1,1.5 strs=a|0|"))
}

// C11_Number: a computed subscript that is any double smaller than 2^53, on an array of any length up to a million
// and on an object with decimal keys.
func C11_Number() {
	f := sym.Float("f", "full")
	sym.Assume(f < 1<<53 && f > -(1<<53))
	text := pickText("form", "$.v[($.f)]", "$.v.($.f)")
	doc := map[string]any{"f": f}
	if sym.Choose("kind", 2) == 0 {
		doc["v"] = sym.Ident("n", 1000000)
	} else {
		sym.Assume(f < 3 && f > -3)
		doc["v"] = map[string]any{"0": 1.0, "1": 2.0, "-1": 3.0, "2": 4.0, "-0": 5.0, "1.5": 6.0}
	}
	checkEval(text, doc)
}

// C11_Integer: a computed subscript that is any 64-bit integer literal.
func C11_Integer() {
	text := pickText("form", "$[(7001)]", "$.(7001)", "$[(7001 + 7002)]", "$[(@.length-1)]")
	if text == "$[(@.length-1)]" {
		text = "$[($.length - 7001)]"
	}
	evalWith(text, sym.Ident("n", 1000000), []int64{sym.Int64("i"), sym.Int64("j")}, nil)
}

// checkComposed compares the path pre+last with last applied to each result of pre. The path last must not use $.
func checkComposed(pre, last string, doc any) {
	sym.Note("path", pre)
	sym.Note("last step", last)
	first, err1 := jsonpath.Compile(pre)
	then, err2 := jsonpath.Compile("$" + last)
	both, err3 := jsonpath.Compile(pre + last)
	sym.Assert(err1 == nil && err2 == nil && err3 == nil, "path rejected")
	got, err := both.Eval(doc)
	vals, err1 := first.Eval(doc)
	sym.Note("document", doc)
	want := []any{}
	fails := err1 != nil
	for _, v := range vals {
		r, err2 := then.Eval(v)
		fails = fails || err2 != nil
		want = append(want, r...)
	}
	sym.Note("results", got)
	sym.Assert((err != nil) == fails, "error of a part and of the whole differ")
	if fails {
		sym.Reach("error")
		return
	}
	sym.Note("wanted", want)
	sym.Assert(sym.Same(got, want), "the last step does not apply to each result")
	sym.Reach("results")
}

// C11_Compose: the last of two or three steps gives the same on all results as on each alone. Documents of depth 2 with
// objects of up to one member, so that there is one order.
// sym: weight=2
func C11_Compose() {
	last := pickText("last", ".a", "[0]", ".-1", "[(@)]", "[(@.length-1)]", ".(@)", "[?(@)]", "..a", "[0:(1)]", "[?(@ in 1)]", "..[(@.length-1)]", ".*", "[::-1]", "[('a')]", "[?(@.length)]", "[(@.a)]", "[(@[0])]", "['a',1,0]")
	pre := sequence(1+sym.Choose("n", 2), tier(9, 18))
	checkComposed(pre, last, sym.Doc("d", "depth=2 kinds=nsao leaf=ns top=ao len=2 keys=a strs=a"))
}
