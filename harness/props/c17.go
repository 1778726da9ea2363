package props

import "verifharness/sym"

var unary = []string{"abs", "avg", "ceil", "floor", "keys", "length", "max", "min", "prod", "sum", "to_number"}

// C17_Kinds: every function of one argument on an argument of every kind or missing; the result compared with
// null, a number or a string, or tested.
// sym: weight=2
func C17_Kinds() {
	f := unary[sym.Choose("f", len(unary))]
	e := f + "(@.a)"
	text := []string{"$[?(" + e + " == null)]", "$[?(" + e + " == @.c)]", "$[?(" + e + ")]"}[sym.Choose("form", 3)]
	checkEval(text, withC(operands("kinds=nbfsao leaf=nbfs depth=1 len=2 keys=x,y num=0,-1.5,2.5 strs=|a|1|-2.5|1e2", ""), "0,-1.5,2.5,1,2,-2.5,100"))
}

// C17_Round: abs, ceil, floor of any double, any 64-bit integer.
// sym: weight=2
func C17_Round() {
	f := []string{"abs", "ceil", "floor", "to_number"}[sym.Choose("f", 4)]
	e := []string{f + "(@.a)", f + "(7001)", f + "(-7001)", f + "(@.a + 7001.5)"}[sym.Choose("arg", 4)]
	r := "@.c"
	if e[len(e)-2] == '1' {
		r = "7002"
	}
	text := []string{"$[?(" + e + " == " + r + ")]", "$[?(" + e + " < " + r + ")]", "$[?(" + e + ")]"}[sym.Choose("form", 3)]
	evalWith(text, withC(operands("kinds=f depth=0 num=full", ""), "full"), []int64{sym.Int64("i"), sym.Int64("j")}, []float64{sym.Float("r", "full")})
}

// C17_Sums: avg, sum, prod, max, min of arrays of up to 3 doubles of any values, compared with any double.
// sym: weight=4
func C17_Sums() {
	f := []string{"avg", "sum", "prod", "max", "min"}[sym.Choose("f", 5)]
	text := []string{"$[?(" + f + "(@.a) == @.c)]", "$[?(" + f + "(@.a) < @.c)]"}[sym.Choose("form", 2)]
	n := "3"
	if sym.Tier() > 0 {
		n = "4"
	}
	checkEval(text, withC(operands("top=a kinds=fb leaf=fb depth=1 num=full len="+n, ""), "full"))
}

// C17_Extremes: max and min of arrays of up to 3 strings or mixed values and of several arguments.
// sym: weight=2
func C17_Extremes() {
	f := []string{"max", "min"}[sym.Choose("f", 2)]
	e := []string{f + "(@.a)", f + "(@.a[0], @.a[1], @.a[2])", f + "(@.a[0], @.a[1])", f + "([@.a[1], @.a[0]])", f + "(7001, @.a[0], -1)", f + "(7001, 7002)"}[sym.Choose("e", 6)]
	text := []string{"$[?(" + e + " == @.b)]", "$[?(" + e + " == null)]", "$[?(" + e + " == 7001)]"}[sym.Choose("form", 3)]
	evalWith(text, operands("top=a kinds=fsn leaf=fsn depth=1 len=3 num=0,1,-2.5 str=2", "kinds=fs depth=0 num=0,1,-2.5 str=2"), []int64{sym.IntIn("i", -4, 4), sym.IntIn("j", -4, 4)}, nil)
}

// C17_Strings: contains, starts_with, ends_with on ASCII strings of up to 3 and 2 bytes (thorough: 5 and 3).
// sym: weight=3
func C17_Strings() {
	f := []string{"contains", "starts_with", "ends_with"}[sym.Choose("f", 3)]
	text := []string{"$[?(" + f + "(@.a, @.b))]", "$[?(" + f + "(@.a, @.b) == null)]", "$[?(" + f + "(@.a, 'ab'))]", "$[?(" + f + "('abcab', @.b))]"}[sym.Choose("form", 4)]
	if sym.Tier() > 0 {
		checkEval(text, operands("kinds=sf depth=0 str=5 num=0", "kinds=sf depth=0 str=3 num=0"))
		return
	}
	checkEval(text, operands("kinds=sf depth=0 str=3 num=0", "kinds=sf depth=0 str=2 num=0"))
}

// C17_Pairs: functions of two arguments on every pair of kinds.
// sym: weight=2
func C17_Pairs() {
	f := []string{"contains", "starts_with", "ends_with", "tokenize"}[sym.Choose("f", 4)]
	text := []string{"$[?(" + f + "(@.a, @.b))]", "$[?(" + f + "(@.a, @.b) == null)]", "$[?(!" + f + "(@.a, @.b))]", "$[?(" + f + "(@.a, @.b) == false)]"}[sym.Choose("form", 4)]
	d := "kinds=nbfsao leaf=nfs depth=1 len=2 keys=x num=0,1.5 strs=|a|ab|b"
	checkEval(text, operands(d, d))
}

// C17_Contains: contains on arrays of up to 2 elements of any scalar kind and any value.
// sym: weight=2
func C17_Contains() {
	checkEval(pickText("form", "$[?(contains(@.a, @.b))]", "$[?(contains(@.a, @.b) == false)]"),
		operands("top=a kinds=nbfs leaf=nbfs depth=1 len=2 num=full str=1", "kinds=nbfs depth=0 num=full str=1"))
}

// C17_Length: length, and .length, of strings of up to 3 bytes (any bytes), arrays and objects.
// sym: weight=2
func C17_Length() {
	e := []string{"length(@.a)", "@.a.length"}[sym.Choose("e", 2)]
	m := map[string]any{}
	switch sym.Choose("kind", 4) {
	case 0:
		m["a"] = sym.String("s", sym.Choose("n", 4), "")
	case 1:
		m["a"] = sym.Ident("n", 100000)
	case 2:
		m["a"] = sym.Doc("o", "top=ao kinds=n leaf=n depth=1 len=3 keys=x,y,z")
	case 3:
		m["a"] = []string{"日本語", "é", "\U0001F600x", "\x00"}[sym.Choose("text", 4)]
	}
	evalWith([]string{"$[?(" + e + " == 7001)]", "$[?(" + e + " < 7001)]"}[sym.Choose("form", 2)], []any{m}, []int64{sym.Int64("i")}, nil)
}

// C17_Keys: keys of objects, seen through length, contains and in.
func C17_Keys() {
	text := pickText("form", "$[?(length(keys(@.a)) == 2)]", "$[?('x' in keys(@.a))]", "$[?(contains(keys(@.a), 'y'))]", "$[?(keys(@.a))]", "$[?('' in keys(@.a))]", "$[?(max(keys(@.a)) == 'y')]", "$[?(keys(@.a) == null)]", "$[?(@.b in keys(@.a))]")
	checkEval(text, operands("kinds=noa leaf=n depth=1 len=1 keys=x,y,", "kinds=s depth=0 str=1"))
}

// C17_ToNumber: to_number of any string of up to 3 (thorough: 4) characters of numerals, compared with any number.
// sym: weight=3
func C17_ToNumber() {
	d := "kinds=s depth=0 str=3 alpha=0139.e-xA"
	if sym.Tier() > 0 {
		d = "kinds=s depth=0 str=4 alpha=0139.e-xA"
	}
	checkEval(pickText("form", "$[?(to_number(@.a) == @.c)]", "$[?(to_number(@.a) == null)]", "$[?(to_number(@.a) < @.c)]"), withC(operands(d, ""), "full"))
}

// C17_Tokenize: tokenize of strings over "a,; " of up to 3 characters by 8 patterns, seen through length, index and ==.
// sym: weight=2
func C17_Tokenize() {
	p := []string{",", "[,;]", " +", "a", "", ",*", "(", "^a"}[sym.Choose("re", 8)]
	e := "tokenize(@.a, '" + p + "')"
	text := []string{"$[?(" + e + ".length == @.c)]", "$[?(" + e + "[0] == @.b)]", "$[?(" + e + "[-1] == 'a')]", "$[?('a' in (" + e + " || []))]", "$[?(" + e + " == ['a','a'])]", "$[?(" + e + " == null)]"}[sym.Choose("form", 6)]
	checkEval(text, withC(operands("kinds=s depth=0 strs=|a|,|a,|,a|a,a|a;a|a\\x20a|a\\x20\\x20a|;,|aa|aaa|é,a|,,|a,;a|\\x20a\\x20", "kinds=s depth=0 strs=|a|aa|;"), "0,1,2,3"))
}

// C17_Calls: unknown functions and wrong numbers of arguments.
func C17_Calls() {
	f := []string{"abs", "avg", "ceil", "contains", "ends_with", "floor", "keys", "length", "max", "min", "prod", "starts_with", "sum", "to_number", "tokenize", "nosuch", "Abs", "lengths", "abs_", "concat"}[sym.Choose("f", 20)]
	args := []string{"", "@.a", "@.a, @.b", "@.a, @.b, 1", "1, 2, 3, 4"}[sym.Choose("args", 5)]
	d := "kinds=nfsa leaf=f depth=1 len=1 num=1 strs=a"
	checkEval("$[?("+f+"("+args+"))]", operands(d, d))
}

// C17_Long: sum, avg, min, max, contains, length over arrays of 20 and 70 small integers with 2 arbitrary ones.
func C17_Long() {
	n := []int{20, 70}[sym.Choose("n", 2)]
	f := []string{"sum(@.a)", "avg(@.a)", "min(@.a)", "max(@.a)", "length(@.a)"}[sym.Choose("f", 5)]
	a := make([]any, n)
	for i := range a {
		a[i] = float64(i%11 - 4)
	}
	a[n/2] = sym.Float("x", "small")
	a[n-1] = sym.Float("y", "small")
	c := "int"
	if f[0] == 'a' {
		c = "full"
	}
	checkEval([]string{"$[?(" + f + " == @.c)]", "$[?(contains(@.a, @.c))]"}[sym.Choose("form", 2)], []any{map[string]any{"a": a, "c": sym.Float("c", c)}})
}

// C17_Twice: two or three calls whose results are met at once: compared with each other, held in one list, found in
// it, as arguments of one call; on objects of at most one key, arrays of up to 2 elements and strings of up to 2 bytes.
// sym: weight=2
func C17_Twice() {
	f := pickText("call", "keys(V)", "tokenize(V, ',')", "max(V)", "min(V)", "sum(V)", "avg(V)", "length(V)", "to_number(V)", "abs(V)", "[keys(V), V]", "contains(V, 'x')", "starts_with(V, 'x')")
	form := pickText("form", "$[?(P == Q)]", "$[?([P, Q][0] == P)]", "$[?([P, Q][0] == Q)]", "$[?(Q in [P, Q, P])]", "$[?([P, Q] == [Q, P])]", "$[?(contains([P, Q], R))]", "$[?((P && Q) == P)]", "$[?(max([length(P), length(Q)]) == 1)]")
	text := ""
	for i := range len(form) {
		switch form[i] {
		case 'P', 'Q', 'R':
			v := map[byte]string{'P': "@.a", 'Q': "@.b", 'R': "'x'"}[form[i]]
			for j := range len(f) {
				if f[j] == 'V' {
					text += v
				} else {
					text += f[j : j+1]
				}
			}
		default:
			text += form[i : i+1]
		}
	}
	if sym.Bool("objects") {
		obj := func(name string) map[string]any {
			return []map[string]any{{}, {"x": nil}, {"y": 1.0}, {"xx": true}}[sym.Choose(name, 4)]
		}
		checkEval(text, []any{map[string]any{"a": obj("a"), "b": obj("b")}})
		return
	}
	ds := []string{"kinds=s depth=0 str=2 alpha=x,1", "kinds=a depth=1 leaf=fs len=2 num=0,1 str=1 alpha=x", "kinds=nbf depth=0 num=0,1"}
	d := ds[sym.Choose("kind", len(ds))]
	checkEval(text, operands(d, d))
}

// C17_Numerals: to_number of 40 texts: numerals of many forms and sizes, with blanks, signs, junk and other scripts.
func C17_Numerals() {
	ts := []string{"0", "-0", "7", "-7", "007", "1.5", "-1.5", "1.50", "1e3", "1E3", "1e+3", "1e-3", "1.5e300", "123456789012345678901234567890", "0.1", "0.30000000000000004", "1e-320", "5e-324",
		"9007199254740993", "9223372036854775807", "9223372036854775808", " 1", "1 ", "1\n", "\t1", "1 2", "1,5", "1.2.3", "--1", "-", "e1", "1e", "1e+", "", " ", "one", "true", "null", "1a", "\u0661", "1\u00a0", "$1", "1%"}
	t := ts[sym.Choose("t", len(ts))]
	checkEval(pickText("form", "$[?(to_number(@.a) == @.c)]", "$[?((to_number(@.a) || 'none') == 'none')]", "$[?(to_number(@.a) < @.c)]", "$[?([to_number(@.a) / 2][0] == @.c)]"), withC([]any{map[string]any{"a": t}}, "full"))
}
