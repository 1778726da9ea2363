package props

import "verifharness/sym"

func arithOp() string { return []string{"+", "-", "*", "/", "%"}[sym.Choose("op", 5)] }

// C14_Any: two operands of any kind, null, booleans, ASCII strings of up to 1 byte, arrays, objects, small
// integral doubles or missing; the result is compared with null, with a small number, and tested.
// sym: weight=2
func C14_Any() {
	e := "@.a " + arithOp() + " @.b"
	text := []string{"$[?((" + e + ") == null)]", "$[?((" + e + ") == @.c)]", "$[?(" + e + ")]", "$[?((" + e + ") / 2 == @.c)]"}[sym.Choose("form", 4)]
	d := "kinds=nbfsao leaf=nf depth=1 len=1 keys=x num=0,1,-3,7,2.5 str=1"
	checkEval(text, withC(operands(d, d), "0,1,-3,0.5,7,3.5,10"))
}

// C14_Integers: two integers, any 64-bit values: + and - compared with every 64-bit integer.
// sym: weight=2
func C14_Integers() {
	e := []string{"7001 + 7002", "7001 - 7002", "-7001", "true + 7001", "7001 - true", "- -7001", "7001 + 7002 - 7003", "-true", "-7001 + 7002"}[sym.Choose("e", 9)]
	text := []string{"$[?((" + e + ") == 7004)]", "$[?((" + e + ") < 7004)]", "$[?(" + e + ")]"}[sym.Choose("form", 3)]
	evalWith(text, []any{1.0}, []int64{sym.Int64("i"), sym.Int64("j"), sym.Int64("k"), sym.Int64("r")}, nil)
}

// C14_Products: * / % of two integers, one of them any 64-bit value and the other a chosen or small one.
// sym: weight=3
func C14_Products() {
	op := []string{"*", "/", "%"}[sym.Choose("op", 3)]
	v := []int64{0, 1, -1, 2, -2, 3, -7, 10, 1 << 31, -(1 << 31) - 1, 1<<63 - 1, -(1 << 63), 1 << 53}[sym.Choose("v", 13)]
	e := []string{"7001 " + op + " 7002", "7002 " + op + " 7001"}[sym.Choose("order", 2)]
	if op != "*" && e[:4] == "7002" && v != 0 && v != 1 && v != -1 && sym.Tier() == 0 {
		// a symbolic divisor takes long
		i := sym.IntIn("i", -20, 20)
		evalWith("$[?(("+e+") == 7003)]", []any{1.0}, []int64{i, v, sym.Int64("r")}, nil)
		return
	}
	text := []string{"$[?((" + e + ") == 7003)]", "$[?((" + e + ") == null)]"}[sym.Choose("form", 2)]
	evalWith(text, []any{1.0}, []int64{sym.Int64("i"), v, sym.Int64("r")}, nil)
}

// C14_Small: all five operators on two integers of up to 16 bits (thorough: 24).
// sym: weight=2
func C14_Small() {
	n := int64(1 << 15)
	if sym.Tier() > 0 {
		n = 1 << 23
	}
	e := "7001 " + arithOp() + " 7002"
	text := []string{"$[?((" + e + ") == 7003)]", "$[?((" + e + ") == null)]"}[sym.Choose("form", 2)]
	evalWith(text, []any{1.0}, []int64{sym.IntIn("i", -n, n), sym.IntIn("j", -n, n), sym.Int64("r")}, nil)
}

// C14_Doubles: + - * / % of two doubles, any finite values, compared with any double.
// sym: weight=3
func C14_Doubles() {
	e := "@.a " + arithOp() + " @.b"
	text := []string{"$[?((" + e + ") == @.c)]", "$[?((" + e + ") < @.c)]", "$[?((" + e + ") == null)]"}[sym.Choose("form", 3)]
	checkEval(text, withC(operands("kinds=fb depth=0 num=full", "kinds=fb depth=0 num=full"), "full"))
}

// C14_Mixed: an integer, any 64-bit value, and a double or boolean, compared with any double.
// sym: weight=3
func C14_Mixed() {
	op := arithOp()
	e := []string{"7001 " + op + " @.a", "@.a " + op + " 7001", "7001 " + op + " 7001.5", "7001.5 " + op + " true", "-@.a", "-7001.5", "-7001 " + op + " @.a"}[sym.Choose("e", 7)]
	text := []string{"$[?((" + e + ") == @.c)]", "$[?((" + e + ") == null)]"}[sym.Choose("form", 2)]
	evalWith(text, withC(operands("kinds=fb depth=0 num=full", ""), "full"), []int64{sym.Int64("i")}, []float64{sym.Float("r", "full")})
}

// C14_Chains: two operators in sequence on numbers small enough to be exact.
// sym: weight=2
func C14_Chains() {
	o, p := sym.Choose("o", 5), sym.Choose("p", 5)
	ops := []string{"+", "-", "*", "/", "%"}
	operand := []string{"@.a", "7001", "7001.5", "2", "true"}
	e := operand[sym.Choose("x", 3)] + ops[o] + operand[sym.Choose("y", 5)] + ops[p] + operand[sym.Choose("z", 5)]
	text := []string{"$[?((" + e + ") == @.c)]", "$[?((" + e + ") == null)]"}[sym.Choose("form", 2)]
	evalWith(text, withC(operands("kinds=fbn depth=0 num=0,3,-2.5", ""), "small"), []int64{[]int64{0, 5, -7}[sym.Choose("i", 3)]}, []float64{[]float64{0.5, 0}[sym.Choose("r", 2)]})
}
