package props

import (
	"math"
	"strings"

	"verifharness/sym"
)

var eqForms = []string{"$[?(@.a == @.b)]", "$[?(@.a != @.b)]", "$[?(@.b == @.a)]"}

func eqForm() string { return eqForms[sym.Choose("form", len(eqForms))] }

// C12_Scalars: two operands, each null, a boolean, any finite double, any ASCII string of up to 1 byte or missing.
// sym: weight=3
func C12_Scalars() {
	d := "kinds=nbfs depth=0 num=full str=1"
	checkEval(eqForm(), operands(d, d))
}

// C12_Strings: two strings of up to 3 (thorough: 4) ASCII bytes.
func C12_Strings() {
	d := "kinds=s depth=0 str=3"
	if sym.Tier() > 0 {
		d = "kinds=s depth=0 str=4"
	}
	checkEval(eqForm(), operands(d, d))
}

// C12_Numerals: any finite double, or boolean, and any string of up to 3 (thorough: 4) of the characters
// of numerals.
// sym: weight=4
func C12_Numerals() {
	s := "kinds=s depth=0 str=3 alpha=0159.eExXaf+-"
	if sym.Tier() > 0 {
		s = "kinds=s depth=0 str=4 alpha=0159.eExXaf+-"
	}
	checkEval(eqForm(), operands("kinds=bf depth=0 num=full", s))
}

// C12_Spelled: numerals with white space, signs, exponents, hexadecimal, Infinity and junk against any double or boolean.
// sym: weight=2
func C12_Spelled() {
	s := []string{" 1", "1 ", "\t-2.5\n", "1e3", "1E-2", "0x10", "0XfF", "0x", "-0x1", "Infinity", "-Infinity", "infinity", "inf", "nan", "NaN",
		"1_000", "0b11", "0o7", ".5", "5.", ".", "-", "+1", "--1", "1e", "e1", "1.5.2", "0x1p4", "1 2", "true", "null", "9007199254740993",
		"1e400", "1.00e400", "-1.00e400", "1e-00400", "0.30000000000000004", "00012", "-0", "\u00a012\ufeff", "\ufeff\u2028-1e3\u3000\u2029", "\u200912\u205f", "\u008512", "\u180e1", "1\xa0", "\xa01", "\ufeff", "١", "12abc", "1,5",
		"0xffffffffffffffff", "0X8000000000000001", "0x10000000000000000", "0x00000000000000000000000000000011", "0x20000000000001fffffffffffffff", "0xg1", "0x1_0", "0x1.8", "0x1p1", "+0x1", "0x1" + strings.Repeat("0", 300)}
	b := s[sym.Choose("s", len(s))]
	m := operands("kinds=bf depth=0 num=full", "")
	m[0].(map[string]any)["b"] = b
	checkEval(eqForm(), m)
}

// C12_Structures: two values of depth 2 (arrays of up to 2 elements, objects over two keys, null, numbers from 0 to 2).
// sym: weight=3
func C12_Structures() {
	d := "kinds=nfao leaf=nf depth=2 len=2 keys=x,y num=0,1"
	if sym.Tier() > 0 {
		d = "kinds=nbfao leaf=nbf depth=2 len=3 keys=x,y num=0,1"
	}
	checkEval(eqForm(), operands(d, d))
}

// C12_Elements: arrays of up to 3 and objects of up to 2 arbitrary doubles and strings of up to 1 byte.
// sym: weight=3
func C12_Elements() {
	d := "top=ao kinds=fs leaf=fs depth=1 len=2 keys=x,y num=full str=1"
	if sym.Tier() > 0 {
		d = "top=ao kinds=fsb leaf=fsb depth=1 len=3 keys=x,y num=full str=1"
	}
	checkEval(eqForm(), operands(d, d))
}

// C12_Literals: literal operands of every kind on either side against any value.
// sym: weight=2
func C12_Literals() {
	lits := []string{"null", "true", "false", "0", "1", "-1", "1.0", "0.5", "''", "'1'", "'a'", "[]", "[1]", "[1,null]", "[[]]", "@.nosuch", "['a','b']", "9007199254740992"}
	l := lits[sym.Choose("literal", len(lits))]
	text := []string{"$[?(@.a == " + l + ")]", "$[?(" + l + " == @.a)]", "$[?(@.a != " + l + ")]", "$[?(" + l + " != @.a)]"}[sym.Choose("form", 4)]
	checkEval(text, operands("depth=1 kinds=nbfsao leaf=nbfs len=2 keys=x num=full str=1", ""))
}

// C12_Integers: two integer literals, any 64-bit values, and an integer and a double.
func C12_Integers() {
	text := pickText("form", "$[?(7001 == 7002)]", "$[?(7001 != 7002)]", "$[?([7001] == [7002])]", "$[?(7001 == @.a)]", "$[?(@.a != 7001)]", "$[?(7001 == 7001.5)]")
	i, j := sym.Int64("i"), sym.Int64("j")
	if text != "$[?(7001 == 7002)]" && text != "$[?(7001 != 7002)]" && text != "$[?([7001] == [7002])]" {
		sym.Assume(i >= -(1<<53) && i <= 1<<53)
	}
	evalWith(text, operands("kinds=nbf depth=0 num=full", ""), []int64{i, j}, []float64{sym.Float("r", "full")})
}

// C12_Long: arrays of 20 and 70 equal elements and one arbitrary element at the start, middle or end of each.
func C12_Long() {
	n := []int{20, 70}[sym.Choose("n", 2)]
	k := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	mk := func(name string) []any {
		a := make([]any, n)
		for i := range a {
			a[i] = float64(i)
		}
		a[k] = sym.Doc(name, "kinds=nbfs depth=0 num=full str=1")
		return a
	}
	checkEval(eqForm(), []any{map[string]any{"a": mk("a"), "b": mk("b")}})
}

// C12_ArrayScalar: an array of up to 1 (thorough: 2) elements, any finite double, null, a boolean, a string of up to 1 byte,
// a list or an object, against any double, boolean or string of up to 2 bytes.
// sym: weight=2
func C12_ArrayScalar() {
	d := "top=a kinds=nbfsao leaf=nbfs depth=2 len=1 keys=x num=full str=1"
	if sym.Tier() > 0 {
		d = "top=a kinds=nbfsao leaf=nbfs depth=3 len=2 keys=x num=full str=1"
	}
	checkEval(eqForm(), operands(d, "kinds=bfs depth=0 num=full str=2"))
}

// C12_ArrayNumeral: an array of one number against a string: both written in many ways; and an array of one such
// string against any double or boolean.
// sym: weight=2
func C12_ArrayNumeral() {
	s := []string{"0", "1", "-0", "-1", "0.5", ".5", "1.0", "1e0", "1234567", "1.234567e+06", "12345678901234567890", "12345678901234567000",
		"1e+21", "1e21", "1e+20", "100000000000000000000", "0.000001", "1e-6", "1e-7", "1e-07", "1.5e-10", "-2.5e+100", " 1", "", "0x10", "Infinity", "NaN", "x", "true"}
	t := s[sym.Choose("s", len(s))]
	m := operands("kinds=bf depth=0 num=full", "")
	o := m[0].(map[string]any)
	if sym.Bool("numbers") {
		n := []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 16, 1234567, 12345678901234567890, 1e20, 1e21, -2.5e100, 1e-6, 1e-7, 1.5e-10}
		o["a"] = n[sym.Choose("n", len(n))]
	}
	if sym.Bool("list") {
		o["a"] = []any{o["a"]}
	} else {
		o["b"] = []any{t}
		checkEval(eqForm(), m)
		return
	}
	o["b"] = t
	checkEval(eqForm(), m)
}

// C12_ManyElements: arrays of 3 to 40 numbers or strings, equal but for one element at any place of either.
func C12_ManyElements() {
	n := []int{3, 9, 16, 17, 33, 40}[sym.Choose("n", 6)]
	at := int(sym.Int64("at"))
	sym.Assume(at >= 0 && at < n)
	strs := sym.Bool("strings")
	v := sym.Doc("v", "kinds=nbfs depth=0 num=full str=1")
	mk := func(change bool) []any {
		a := make([]any, n)
		for i := range a {
			if strs {
				a[i] = "e"
			} else {
				a[i] = float64(i)
			}
			if change && i == at {
				a[i] = v
			}
		}
		return a
	}
	w := mk(true)
	m := map[string]any{"a": mk(false), "b": w}
	if sym.Bool("swap") {
		m["a"], m["b"] = m["b"], m["a"]
	}
	checkEval(eqForm(), []any{m})
}
