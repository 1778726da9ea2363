package props

import (
	"strings"

	"github.com/forsyth/jsonpath"
	"github.com/forsyth/jsonpath/paths"

	"verifharness/ref"
	"verifharness/sym"
)

// checkExpr compares the parsers of expressions, alone and in a filter and a subscript, with the reference grammar.
func checkExpr(text string) {
	sym.Note("text", text)
	want, ok := ref.ParseExpr(text)
	got, err := paths.ParseScriptExpression(text)
	if ok {
		sym.Assert(err == nil, "expression of the grammar rejected")
		sym.Assert(ref.SameExpr(got, want), "parsed tree differs from the text")
		sym.Reach("accepted")
	} else {
		sym.Assert(err != nil, "text outside the grammar accepted")
		sym.Assert(got == nil, "an expression with an error")
		sym.Reach("rejected")
	}
}

// checkInPath compares Compile of a path with the expression with the reference grammar.
func checkInPath(text string) {
	s := pickText("in", "$[?(", "$[(", "$.(")
	s += text + ")"
	if s[1] == '[' {
		s += "]"
	}
	sym.Note("text", s)
	_, ok := ref.ParsePath(s)
	_, err := jsonpath.Compile(s)
	sym.Assert((err == nil) == ok, "Compile and the grammar differ")
	if ok {
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
}

// C03_Bytes: any 2 bytes (thorough: 3).
// sym: weight=2
func C03_Bytes() { checkExpr(sym.String("t", tier(2, 3), "")) }

// C03_Operands: 4 bytes (thorough: 5) of "@$.[](),1a'-!" and a space.
// sym: weight=3
func C03_Operands() { checkExpr(sym.String("t", tier(4, 5), "@$.[](),1a'-! ")) }

// C03_Operators: an operand, 3 bytes (thorough: 4) of operator characters, and an operand.
// sym: weight=3
func C03_Operators() {
	checkExpr(pickText("left", "@.a", "1", "x", "'s'", "(2)") + sym.String("t", tier(3, 4), "=!<>~&|+-*/%in ") + pickText("right", "1", "@", "/r/", "b", ""))
}

// C03_Words: operands with any 3 bytes of "in", "nin" and names between.
// sym: weight=2
func C03_Words() {
	checkExpr(pickText("left", "@.a", "1", "x", "'s'", "f(1)") + sym.String("t", tier(3, 4), "in 1_.") + pickText("right", "[1]", " @", "x", " n"))
}

// C03_Postfix: calls, indexes and selections with 3 bytes (thorough: 4) after a primary.
// sym: weight=2
func C03_Postfix() {
	checkExpr(pickText("left", "f", "@", "@.a", "1", "'s'", "f()", "[1]", "true", "/r/", "-x", "$[0]") + sym.String("t", tier(3, 4), "().[],1a'") + pickText("right", "", ")", "]"))
}

var someExprs = []string{
	"@.a==1&&$.b.c!='x'",
	"f(1,@['k'],[2,-3.5e1])<=!!g()",
	"(@.a+2)*-3 % @.length",
	"@.n in [1,'a',null,true] || false",
	"@ nin $['x'][0] && @.s =~ /a\\/b[0-9]+/",
	"\"q\\\"\\u0041\" ~ 'z' >= 0.25",
	"[[],[[1]]] == [ ] / 2 - 1",
}

// C03_Changed: 7 expressions with any one byte replaced, inserted, or left out, or cut short anywhere.
// sym: weight=4
func C03_Changed() { checkExpr(mutate("m", pickText("expr", someExprs...))) }

// C03_Twice: 4 expressions changed in two places.
// sym: weight=4 thorough
func C03_Twice() {
	checkExpr(mutate("m", mutate("n", pickText("expr", "@.a==-1", "f(1,[2])", "!x in ['a']", "@['b']~/c/"))))
}

// C03_InPath: the changed expressions within a path.
// sym: weight=3
func C03_InPath() { checkInPath(mutate("m", pickText("expr", someExprs...))) }

// C03_InPathBytes: any 2 bytes (thorough: 3) within a path, with a rest.
// sym: weight=2
func C03_InPathBytes() {
	checkInPath(sym.String("t", tier(2, 3), "") + pickText("rest", "", ")", "(1", "@", "'", "=1"))
}

const wordBytes = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"

// C03_Names: any word of up to 4 letters, digits and underscores between two operands, and as an operand, a member and a function.
// sym: weight=2
func C03_Names() {
	w := sym.String("w", 1+sym.Choose("n", 4), wordBytes)
	l := pickText("left", "a ", "@", "1 ", "'s'", "", "@.", "a[", "-", "[1,", "a in ")
	checkExpr(l + w + pickText("right", " b", "'t'", "[1]", "", "(1)", "]", ".c"))
}

// C03_Long: lists, calls, operators, postfix forms and unary operators repeated 100 to 1100 (thorough: 2000) times, and the same with one thing missing.
// sym: steps=100000000 depth=20000
func C03_Long() {
	n := []int{100, 127, 128, 255, 256, 300, 1100, 2000}[sym.Choose("n", tier(7, 8))]
	l := []string{"[1|,1|]", "[|'a',|2]", "f(1|,@.x|)", "f(|1,|)", "1|+2|-1", "a| && !b|", "@|.a|", "@|[0]|", "|-|1", "|!|@", "|- !|@", "x| in y|", "'|a|'", "'|\\n|'", "/|a|/", "|0|.5", "0.|1|", "@.|a|", "(1|)|", "[1|]|"}
	s := strings.Split(l[sym.Choose("what", len(l))], "|")
	checkExpr(s[0] + strings.Repeat(s[1], n) + s[2])
}
