package props

import (
	"verifharness/ref"
	"verifharness/sym"
)

// Operands that show the special cases: each kind, limits of the integers and the doubles, values that only computation
// gives (infinities, not-a-number), strings that look like other values. The doubles and structures are in tableDoc.
var numbers = []string{"0", "1", "-1", "3", "-7", "10", "9007199254740992", "9007199254740993", "-9007199254740993", "9223372036854775807", "-9223372036854775807", "4611686018427387904",
	"0.0", "(-0.0)", "0.1", "0.5", "1.0", "-2.5", "7.0", "9007199254740992.0", "@.big", "@.tiny", "(1.0e308*10)", "(0 - 1.0e308*10)", "(1.0e308*10 - 1.0e308*10)", "@.z", "@.one"}

var others = []string{"null", "true", "false", "''", "' '", "'0'", "'1'", "'-2.5'", "'a'", "'A'", "'ab'", "'1.0'", "'NaN'", "'true'", "'9007199254740993'", "[]", "[0]", "[1]", "['1']", "[null]", "[[]]", "[1,2]", "['a','b']", "@.nosuch", "@.o", "@.ox", "@.oy", "@.ox2", "@.e", "[@.ox]", "[5]", "/a/", "[@.nosuch]"}

var operandTexts = append(append([]string{}, others...), numbers...)

func tableDoc() any {
	return []any{map[string]any{"big": 1e308, "tiny": 5e-324, "z": 0.0, "one": 1.0, "e": []any{}, "o": map[string]any{},
		"ox": map[string]any{"x": 1.0}, "oy": map[string]any{"y": 1.0}, "ox2": map[string]any{"x": 1.0}}}
}

// checkValue checks the value of e itself: the numbers that the reference gives for e and for e / 2 and
// e * 4 / 3 are compared with.
func checkValue(e string) {
	doc := tableDoc()
	text := pickText("seen", "%", "(%) / 2", "(%) * 4 / 3", "(%) == null")
	text = replace(text, e)
	steps, ok := ref.ParsePath("$[?(" + text + ")]")
	if !ok {
		panic("harness: not a path: " + text)
	}
	ev := &ref.Eval{Root: doc}
	v := ev.Expr(steps[0].Args[0].E, doc.([]any)[0])
	var ints []int64
	var reals []float64
	if !ev.Failed && !ev.Open {
		switch v := v.(type) {
		case int64:
			ints = []int64{v}
			text = "(" + text + ") == 7001"
		case float64:
			reals = []float64{v}
			text = "(" + text + ") == 7001.5"
		}
	}
	evalWith("$[?("+text+")]", doc, ints, reals)
}

func replace(form, e string) string {
	for i := 0; i < len(form); i++ {
		if form[i] == '%' {
			return form[:i] + e + form[i+1:]
		}
	}
	return form
}

func operandText(name string) string { return operandTexts[sym.Choose(name, len(operandTexts))] }

// C12_Table: == and != on every pair of 60 operands: special values of every kind, computed infinities and NaN, integers
// beyond the precision of a double, strings that look like other values, structures.
// sym: weight=2
func C12_Table() {
	checkEval("$[?("+operandText("a")+pickText("op", " == ", " != ")+operandText("b")+")]", tableDoc())
}

// C13_Table: the four relations on every pair of the 60 operands, told apart from no usable result.
// sym: weight=2
func C13_Table() {
	e := operandText("a") + " " + relation() + " " + operandText("b")
	checkEval(pickText("form", "$[?("+e+")]", "$[?(("+e+") == false)]"), tableDoc())
}

// C14_Table: the value of the five operators on every pair of 27 special numbers and 8 other operands, also halved.
// sym: weight=2
func C14_Table() {
	l := append(append([]string{}, numbers...), "null", "true", "''", "'1'", "[]", "[1]", "@.nosuch", "@.o")
	checkValue(l[sym.Choose("a", len(l))] + " " + arithOp() + " " + l[sym.Choose("b", len(l))])
}

// C14_Negation: the value of - and - - on each of the 60 operands.
func C14_Negation() {
	checkValue(pickText("op", "-", "- -", "0 - ", "-true - ") + operandText("a"))
}

// C15_Table: the value of && and || on every pair of the 60 operands, and of ! on each.
// sym: weight=2
func C15_Table() {
	a := operandText("a")
	if sym.Choose("not", 2) == 1 {
		checkEval("$[?("+replace(pickText("form", "!(%)", "!!(%)", "!(%) == true", "%"), a)+")]", tableDoc())
		return
	}
	b := operandText("b")
	e := "(" + a + pickText("op", " && ", " || ") + b + ")"
	checkEval(pickText("is", "$[?("+e+" == "+a+")]", "$[?("+e+" == "+b+")]", "$[?"+e+"]"), tableDoc())
}

// C15_Kinds: the kind of the value of && and || on every pair of 14 operands, told by functions, lists and matches.
func C15_Kinds() {
	l := []string{"0", "1", "0.0", "2.5", "true", "false", "''", "'0'", "'a'", "null", "@.e", "@.ox", "@.nosuch", "(1 - 1)"}
	e := l[sym.Choose("a", len(l))] + pickText("op", " && ", " || ") + l[sym.Choose("b", len(l))]
	checkEval(replace(pickText("is", "$[?(abs(%) == 0)]", "$[?(abs(%) == 1)]", "$[?([%] == '0')]", "$[?([%] == 'false')]", "$[?([%] == '')]", "$[?([%] == [0])]", "$[?(length(%) == 1)]", "$[?((%) ~ /^/)]", "$[?(((%) + 1) / 2 == 0)]", "$[?(((%) + 1) / 2 == 0.5)]", "$[?(1 in (%))]", "$[?((%) < 1)]"), e), tableDoc())
}

// C16_Table: in, nin on every pair of the 60 operands, the second in a list, after another element, or by itself.
// sym: weight=2
func C16_Table() {
	b := pickText("list", "[%]", "[7,%]", "%")
	checkEval("$[?("+operandText("a")+pickText("op", " in ", " nin ")+replace(b, operandText("b"))+")]", tableDoc())
}

// C17_Table: the value of each function of one argument on each of the 60 operands and on lists of them, compared with
// what it has to be.
// sym: weight=2
func C17_Table() {
	f := unary[sym.Choose("f", len(unary))]
	a := operandText("a")
	switch sym.Choose("n", 3) {
	case 1:
		a = "[" + a + "]"
	case 2:
		a = "[" + a + "," + pickText("b", "1", "-2.5", "'1'", "'b'", "null", "@.big", "9007199254740993", "(1.0e308*10)", "[]") + "]"
	}
	checkValue(f + "(" + a + ")")
}

// C17_Table2: the functions of two arguments on every pair of the 60 operands.
// sym: weight=2
func C17_Table2() {
	e := pickText("f", "contains", "starts_with", "ends_with", "max", "min") + "(" + operandText("a") + "," + operandText("b") + ")"
	checkEval(pickText("form", "$[?("+e+")]", "$[?("+e+" == null)]"), tableDoc())
}
