package props

import (
	"strings"

	"github.com/forsyth/jsonpath"

	"verifharness/sym"
)

// occurs tells whether v is a value somewhere in doc. Looking through doc materialises all of it.
func occurs(doc, v any) bool {
	if sym.Same(doc, v) {
		return true
	}
	switch d := doc.(type) {
	case []any:
		for _, e := range d {
			if occurs(e, v) {
				return true
			}
		}
	case map[string]any:
		for _, e := range d {
			if occurs(e, v) {
				return true
			}
		}
	}
	return false
}

// checkTotal checks what holds of every evaluation. A text that is not a path ends the run.
func checkTotal(text string, doc any) {
	sym.Note("path", text)
	p, err := jsonpath.Compile(text)
	if err != nil {
		sym.Assert(p == nil, "path with an error")
		sym.Reach("rejected")
		return
	}
	got, err := p.Eval(doc)
	sym.Note("document", doc)
	sym.Note("results", got)
	sym.Assert((got == nil) == (err != nil), "not either results or an error")
	for _, v := range got {
		sym.Assert(occurs(doc, v), "result that is not in the document")
	}
	switch {
	case err != nil:
		sym.Reach("error")
	case len(got) > 0:
		sym.Reach("results")
	default:
		sym.Reach("no results")
	}
}

// odd are operands of every kind, usual and unusual.
var odd = []string{"@", "$", "@.a", "1", "'a'", "null", "/a/", "[]", "[@,1]", "foo", "@.length", "1.5", "true", "-@", "!@", "(@.a)", "@['a']", "@[0]", "@[1:]", "@[::-1]", "keys(@)", "max(@)", "length(@)", "''", "-'a'", "-/a/", "@..a", "@.*", "9223372036854775807", "[[1],@.a]", "@[@]", "@.a.b.c", "tokenize(@,'a')", "@['a','b']", "@[?(@)]", "sum(@)", "to_number(@)", "-[]", "@[@.a:@.b]", "avg(@)"}

var oddOps = []string{"==", "<", "+", "in", "~", "||", "&&", "/", "%", "!=", ">=", "-", "*", "nin", "=~", "<=", ">"}

var places = []string{"$[?(%)]", "$[(%)]", "$..[?(%)]", "$.(%)", "$..[(%)]", "$[0,(%)]", "$[(%):]", "$[?(@.a)][(%)]", "$.*[?(%)]", "$[?([%])]", "$[?(%)].a", "$..[(%),'a']", "$[:(%):(%)]", "$..(%)"}

func place(e string) string {
	return strings.ReplaceAll(places[sym.Choose("place", len(places))], "%", e)
}

const anyDoc = "depth=1 kinds=nbfsao leaf=nbfs len=1 keys=a num=0,1,-1.5,1e300 strs=|a|1"

// C18_Binary: every operator on every pair of 40 usual and unusual operands, in 14 places of a path, on documents of
// every kind with up to one element or member.
// sym: weight=4
func C18_Binary() {
	n, m := 12, 5
	if sym.Tier() > 0 {
		n, m = len(odd), len(oddOps)
	}
	a := odd[sym.Choose("a", len(odd))]
	b := odd[sym.Choose("b", n)]
	checkTotal(place(a+" "+oddOps[sym.Choose("op", m)]+" "+b), sym.Doc("d", anyDoc))
}

// C18_Operators: all 17 operators on 12 operands on either side.
// sym: weight=2
func C18_Operators() {
	a := odd[sym.Choose("a", 12)]
	b := odd[sym.Choose("b", 12)]
	e := a + " " + oddOps[sym.Choose("op", len(oddOps))] + " " + b
	t := pickText("place", "$[?(%)]", "$[(%)]", "$..[?(!(%))]")
	checkTotal(strings.ReplaceAll(t, "%", e), sym.Doc("d", anyDoc))
}

// C18_Unary: every operand, alone, negated, doubly negated, with each postfix form, in every place, on documents of
// depth 2 (thorough: with two elements or members).
// sym: weight=3
func C18_Unary() {
	a := odd[sym.Choose("a", len(odd))]
	f := pickText("form", "%", "-%", "!%", "-(-%)", "(%).a", "(%)[0]", "(%)['a']", "(%).length", "(%)[@]", "[%][0]", "(%)[1:]")
	d := "depth=2 kinds=nbfsao leaf=nfs len=1 keys=a num=0,1,-1.5,1e300 strs=|a|1"
	if sym.Tier() > 0 {
		d = "depth=2 kinds=nbfsao leaf=nbfs len=2 keys=a,b num=0,1,-1.5,1e300 strs=|a|1"
	}
	checkTotal(place(strings.ReplaceAll(f, "%", a)), sym.Doc("d", d))
}

// C18_Calls: every function, and names that are none, with none to four operands of every kind.
// sym: weight=3
func C18_Calls() {
	f := pickText("f", "abs", "avg", "ceil", "contains", "ends_with", "floor", "keys", "length", "max", "min", "prod", "starts_with", "sum", "to_number", "tokenize", "foo", "Abs")
	n := sym.Choose("n", 4)
	var args []string
	for i := 0; i < n; i++ {
		k := []int{len(odd), 12, 5}[i]
		args = append(args, odd[sym.Choose("arg"+string(rune('0'+i)), k)])
	}
	if n == 3 && sym.Choose("four", 2) == 1 {
		args = append(args, "1")
	}
	e := f + "(" + strings.Join(args, ",") + ")"
	t := pickText("place", "$[?(%)]", "$[(%)]", "$..[?(% == 1)]")
	checkTotal(strings.ReplaceAll(t, "%", e), sym.Doc("d", anyDoc))
}

// C18_Functions: every function on arrays of two values of any kinds and on values of any kind.
// sym: weight=2
func C18_Functions() {
	f := pickText("f", "abs(@)", "avg(@)", "ceil(@)", "contains(@,@[0])", "contains(@[0],@[1])", "ends_with(@[0],@[1])", "floor(@)", "keys(@)", "length(@)", "max(@)", "min(@)", "max(@[0],@[1])", "min(@[0],@[1],1)", "prod(@)", "starts_with(@[0],@[1])", "sum(@)", "to_number(@[0])", "tokenize(@[0],@[1])", "max([@,1])", "sum([@[0],'a'])")
	t := pickText("place", "$[?(%)]", "$[(%)]", "$[?(% == @)]", "$[?(% < 1)]")
	d := "depth=2 kinds=nbfsao leaf=nbfs top=a min=1 len=2 keys=a num=0,-1.5,1e300 strs=|a|(|1"
	if sym.Tier() == 0 {
		d = "depth=2 kinds=nfsao leaf=nfs top=a min=1 len=2 keys=a num=0,-1.5 strs=|a|("
	}
	doc := sym.Doc("d", d)
	checkTotal(strings.ReplaceAll(t, "%", f), doc)
}

// C18_Numbers: arithmetic, negation, subscripts and rounding with any double and any string of up to 2 bytes.
// sym: weight=2
func C18_Numbers() {
	e := pickText("e", "@.a + @.b", "@.a / @.b", "@.a % @.b", "-@.a", "@.a * 3", "abs(@.a)", "ceil(@.a)", "floor(@.a)", "to_number(@.a)", "@.a", "@.c[@.a]", "@.c[@.a] + 1", "@.c[-@.a]", "1 / @.a", "5 % @.a", "@.a - 9223372036854775807")
	t := pickText("place", "$.x[?(%)]", "$.c[($.x[0].a)]", "$.x[?(@.c[(%)])]", "$.x[?(% == @.b)]", "$.c[(-$.x[0].a)]")
	m := operands("kinds=nbfs depth=0 num=full str=2", "kinds=nbfs depth=0 num=full str=1")
	m[0].(map[string]any)["c"] = []any{"x", "y"}
	checkTotal(strings.ReplaceAll(t, "%", e), map[string]any{"x": m, "c": []any{"z", "w"}})
}

// C18_Steps: sequences of three steps of every kind, among them failing ones, on any document of depth 2.
// sym: weight=3
func C18_Steps() {
	more := append(append([]string{}, steps...), "[?(@ in 1)]", "[(foo)]", "[(1/0)]", "[0,(@.a),:]", "[::0]", "..[?(nosuch(@))]", "[(@)]", "['']", "[9223372036854775807]", "[-9223372036854775806:]", "[?(@ ~ '(')]", "..[::-1]")
	n := 12
	if sym.Tier() > 0 {
		n = len(more)
	}
	s := "$" + more[sym.Choose("s0", len(more))] + more[len(more)-1-sym.Choose("s1", n)]
	if sym.Choose("three", 2) == 1 {
		s += more[len(more)-1-sym.Choose("s2", n)]
	}
	checkTotal(s, sym.Doc("d", "depth=2 kinds=nfsao leaf=nfs len=2 keys=a,b num=0,1 strs=|a"))
}

// C18_Sizes: lists, calls, unions and nests of expressions of 1 to 300 (thorough: 2000) parts.
// sym: steps=40000000
func C18_Sizes() {
	n := []int{1, 7, 63, 64, 65, 100, 300}[sym.Choose("n", 7)]
	if sym.Tier() > 0 {
		n = []int{2, 100, 127, 128, 129, 1000, 2000}[sym.Choose("n", 7)]
	}
	r := strings.Repeat
	text := ""
	switch sym.Choose("form", 9) {
	case 0:
		text = "$[?([@" + r(",@.a", n) + "])]"
	case 1:
		text = "$[?(max(1" + r(",@", n) + ") == @)]"
	case 2:
		text = "$[0" + r(",0,'a'", n) + "]"
	case 3:
		text = "$[?(" + r("(", n) + "@" + r(")", n) + ")]"
	case 4:
		text = "$[?(1" + r(" + (1", n) + r(")", n) + " == @.a)]"
	case 5:
		text = "$[?(" + r("!", n) + "@)]"
	case 6:
		text = "$[?(@" + r(" || @.a", n) + ")]"
	case 7:
		text = "$" + r("[0]", n)
	case 8:
		text = "$[?(" + r("[", n) + "@" + r("]", n) + " == @)]"
	}
	checkTotal(text, sym.Doc("d", "depth=1 kinds=nfsao leaf=nf len=2 keys=a num=0,301 strs=a"))
}
