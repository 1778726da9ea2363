package props

import "verifharness/sym"

var anyValue = "kinds=nbfsao leaf=nbfs depth=1 len=1 keys=x num=full str=2"

// C15_Truth: e, !e, !!e for any value e: null, boolean, any finite double, ASCII string of up to 2 bytes, array,
// object or missing.
func C15_Truth() {
	text := pickText("form", "$[?(@.a)]", "$[?(!@.a)]", "$[?(!!@.a)]", "$[?(!@.a == true)]", "$[?(!@.a == false)]", "$[?(!@.a == 1)]", "$[?(!!!@.a)]")
	checkEval(text, operands(anyValue, ""))
}

// C15_Numbers: any integer literal, any double, and results of arithmetic as conditions.
func C15_Numbers() {
	text := pickText("form", "$[?(7001)]", "$[?(!7001)]", "$[?(7001.5)]", "$[?(!7001.5)]", "$[?(7001 - 7002)]", "$[?(@.a - @.b)]", "$[?(@.a * 0)]", "$[?(-@.a)]", "$[?(7001 || 7002)]", "$[?(7001.5 && @.a)]", "$[?(1/@.a)]", "$[?(-7001.5)]", "$[?(!(@.a % 2))]")
	evalWith(text, operands("kinds=f depth=0 num=full", "kinds=f depth=0 num=full"), []int64{sym.Int64("i"), sym.Int64("j")}, []float64{sym.Float("r", "full")})
}

// C15_AndOr: the operand that && and || give, for any two values, tested by comparison with a third one.
// sym: weight=3
func C15_AndOr() {
	op := []string{"&&", "||"}[sym.Choose("op", 2)]
	e := "(@.a " + op + " @.b)"
	text := []string{"$[?" + e + "]", "$[?(" + e + " == @.c)]", "$[?(!" + e + ")]", "$[?(" + e + " == null)]"}[sym.Choose("form", 4)]
	v := "kinds=nbfsao leaf=nf depth=1 len=1 keys=x num=0,1,2.5 str=1"
	checkEval(text, withC(operands(v, v), "0,1,2.5"))
}

// C15_Values: && and || of numbers, any values, compared with any number.
func C15_Values() {
	e := []string{"(@.a && @.b)", "(@.a || @.b)", "(@.a || @.b || 7001)", "(@.a && @.b && 7001)", "(@.a && @.b || 7001)", "(@.a || @.b && 7001)"}[sym.Choose("e", 6)]
	text := []string{"$[?(" + e + " == @.c)]", "$[?(" + e + " < @.c)]", "$[?(" + e + " + 1 == @.c)]"}[sym.Choose("form", 3)]
	sym.Assume(true)
	evalWith(text, withC(operands("kinds=fb depth=0 num=full", "kinds=fb depth=0 num=full"), "full"), []int64{sym.IntIn("i", -1<<40, 1<<40)}, nil)
}

// C15_Structures: && and || that give arrays, objects and strings, taken apart afterwards.
func C15_Structures() {
	e := []string{"(@.a || @.b)", "(@.a && @.b)", "(@.a || [7])", "(@.a && 'xyz')", "(@.a || 'xyz')", "(!@.a || @.b)"}[sym.Choose("e", 6)]
	text := []string{"$[?(" + e + ".length == 1)]", "$[?(" + e + "[0] == 7)]", "$[?(" + e + ".x == 7)]", "$[?(" + e + " == @.b)]"}[sym.Choose("form", 4)]
	v := "kinds=nbfsao leaf=f depth=1 len=2 keys=x num=0,7 str=1"
	if text[len(text)-6:] == "== 7)]" && text[len(text)-9:len(text)-7] != ".x" {
		v = "kinds=nfsao leaf=f depth=1 len=2 keys=0 num=0,7 str=1"
	}
	checkEval(text, operands(v, v))
}
