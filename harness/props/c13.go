package props

import "verifharness/sym"

func relation() string { return []string{"<", "<=", ">", ">="}[sym.Choose("op", 4)] }

// relForm uses the relation so that false and no usable result can be told apart.
func relForm(a, b string) string {
	e := a + " " + relation() + " " + b
	return []string{"$[?(" + e + ")]", "$[?((" + e + ") == null)]", "$[?((" + e + ") == false)]"}[sym.Choose("form", 3)]
}

// C13_Any: two operands of any kind: null, boolean, any finite double, ASCII string of up to 2 bytes, array,
// object or missing.
// sym: weight=3
func C13_Any() {
	d := "kinds=nbfsao leaf=nf depth=1 len=1 keys=x num=full str=2"
	checkEval(relForm("@.a", "@.b"), operands(d, d))
}

// C13_Strings: two ASCII strings of up to 4 (thorough: 6) bytes.
func C13_Strings() {
	d := "kinds=s depth=0 str=4"
	if sym.Tier() > 0 {
		d = "kinds=s depth=0 str=6"
	}
	checkEval(relForm("@.a", "@.b"), operands(d, d))
}

// C13_Bytes: two strings of any 2 bytes each (also not UTF-8), and strings with a common long prefix.
func C13_Bytes() {
	p := []string{"", "héé", "0123456789012345678901234567890123456789"}[sym.Choose("prefix", 3)]
	m := map[string]any{"a": p + sym.String("a", sym.Choose("n", 3), ""), "b": p + sym.String("b", sym.Choose("m", 3), "")}
	checkEval(relForm("@.a", "@.b"), []any{m})
}

// C13_Integers: two integers, any 64-bit values; an integer and a double, boolean, string or null.
// sym: weight=2
func C13_Integers() {
	pair := [][2]string{{"7001", "7002"}, {"7001", "@.a"}, {"@.a", "7001"}, {"7001.5", "7001"}, {"7001", "7001.5"}, {"7001.5", "7002.5"}, {"7001.5", "@.a"}, {"7001", "true"}, {"false", "7001"}}[sym.Choose("pair", 9)]
	evalWith(relForm(pair[0], pair[1]), operands("kinds=nbfs depth=0 num=full str=1", ""), []int64{sym.Int64("i"), sym.Int64("j")}, []float64{sym.Float("r", "full"), sym.Float("s", "full")})
}

// C13_Results: results of other operators as operands.
func C13_Results() {
	e := [][2]string{{"@.a + @.b", "@.b"}, {"@.a.length", "7001"}, {"@.a / @.b", "@.a"}, {"!@.a", "@.b"}, {"@.a == @.b", "@.a"}, {"-@.a", "@.b"}, {"@.a || 2", "@.b && 1"}}[sym.Choose("e", 7)]
	d := "kinds=bf depth=0 num=small"
	if e[0] == "@.a.length" {
		d = "kinds=sa leaf=n depth=1 num=small str=2"
	}
	evalWith(relForm(e[0], e[1]), operands(d, d), []int64{sym.IntIn("i", -3, 3)}, nil)
}
