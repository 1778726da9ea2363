package props

import (
	"strings"

	"verifharness/sym"
)

// binop is a hole for a binary operator: three bytes of operator characters.
func binop(name string) string { return sym.String(name, 3, " =!<>~&|+-*/%in") }

var binops = []string{"*", "/", "%", "+", "-", "<", "<=", ">", ">=", " in ", " nin ", "~", "=~", "==", "!=", "&&", "||"}

func anyop(name string) string { return pickText(name, binops...) }

// C04_Two: two operators, each any 3 operator characters, between three operands.
// sym: weight=4
func C04_Two() {
	checkExpr("a" + binop("o") + pickText("b", "1", " @.x") + binop("p") + " 'c'")
}

// C04_Three: every sequence of three of the 17 operators.
// sym: weight=3
func C04_Three() {
	checkExpr("a" + anyop("o") + "@" + anyop("p") + "2" + anyop("q") + "'d'")
}

// C04_Four: sequences of four operators, one of each precedence and a second one of each (thorough: all 17).
// sym: weight=3
func C04_Four() {
	l := []string{"*", "%", "+", "<", "~", "==", "&&", "||"}
	if sym.Tier() > 0 {
		l = binops
	}
	checkExpr("a" + pickText("o", l...) + "b" + pickText("p", l...) + "2" + pickText("q", l...) + "d" + pickText("r", l...) + "e")
}

// C04_Kinds: two operands of any of 12 kinds and two more joined by sequences of three operators, one of each precedence.
// sym: weight=3
func C04_Kinds() {
	kind := func(n string) string {
		return pickText(n, "1", "1.5", "'s'", "@", "a", "@.x", "f(1)", "[1]", "(1)", "-1", "null", "(1+2)")
	}
	op := func(n string) string { return pickText(n, "*", "%", "+", "<", "==", "&&", "||") }
	checkExpr(kind("a") + op("o") + kind("b") + op("p") + pickText("c", "2", "@") + op("q") + "d")
}

// C04_Unary: unary operators, up to two before each operand, with two binary operators.
// sym: weight=3
func C04_Unary() {
	u := func(n string) string { return pickText(n, "", "-", "!", "!-", "- !", "--") }
	checkExpr(u("u") + pickText("a", "a", "a.b", "f(1)[2]", "(1+x)") + anyop("o") + u("v") + pickText("b", "2", "@.b[0]") + anyop("p") + u("w") + "c")
}

// C04_Parens: parentheses around any part of four operands.
// sym: weight=3
func C04_Parens() {
	var b strings.Builder
	depth := 0
	for i := 0; i < 4; i++ {
		n := string(rune('0' + i))
		if i > 0 {
			b.WriteString(pickText("o"+n, "-", "*", "==", "||", "<"))
		}
		if i < 3 && sym.Choose("open"+n, 2) == 1 {
			b.WriteByte('(')
			depth++
		}
		b.WriteByte("abcd"[i])
		if depth > 0 && i > 0 && (i == 3 || sym.Choose("close"+n, 2) == 1) {
			for k := 0; k < 1 || i == 3 && depth > 0; k++ {
				b.WriteByte(')')
				depth--
			}
		}
	}
	checkExpr(b.String())
}

// C04_Postfix: postfix forms on operands and on parenthesised and unary expressions, with one operator.
// sym: weight=2
func C04_Postfix() {
	post := func(n string) string { return pickText(n, "", ".a", "[1]", "[x+1]", ".b.c", "[0].d", "['k'][-1]") }
	pre := func(n string) string {
		return pickText(n, "@", "-$", "!(a)", "(x*y)", "f(1,2)", "-f(-1)", "[1,2]", "'s'")
	}
	checkExpr(pre("l") + post("m") + anyop("o") + pre("r") + post("s"))
}

// C04_Inner: two operators inside an index, a call, an array and parentheses, with one operator after.
// sym: weight=2
func C04_Inner() {
	in := "a" + anyop("o") + "b" + anyop("p") + "c"
	checkExpr(pickText("left", "@[", "f(", "f(1,", "[", "[x,", "(", "-(") + in + pickText("right", "]", ")", ",2)", ",y]") + pickText("q", "", "*d", "||d", "==d"))
}

// C04_Long: 40 (thorough: 100) operands joined by two alternating operators.
func C04_Long() {
	o, p := anyop("o"), anyop("p")
	checkExpr("a" + strings.Repeat(o+"b"+p+"3", tier(20, 50)))
}

// C04_Words: any word of 2 to 6 letters as an operand, a member and a function: only true, false and null are not names.
// sym: weight=2
func C04_Words() {
	w := sym.String("w", 2+sym.Choose("n", 5), wordBytes[:52])
	checkExpr(pickText("left", "", "@ == ", "!", "a.", "[", "-") + w + pickText("right", "", " == 1", "(2)", "]", ".a", "[0]"))
}
