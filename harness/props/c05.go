package props

import (
	"strings"

	"github.com/forsyth/jsonpath/paths"

	"verifharness/ref"
	"verifharness/sym"
)

// C05_Index: integers of up to 6 symbolic digits as index, member and slice parts, with and without a sign.
// sym: weight=2
func C05_Index() {
	d := sym.String("d", sym.Choose("n", 6)+1, "0123456789")
	checkPath(pickText("start", "$[", "$[-", "$.", "$.-", "$..", "$[:", "$[::-", "$[- ", "$[1,-") + d + pickText("end", "", "]", ":]"))
}

// C05_Large: integers of 18 to 20 digits with 3 (thorough: 6) symbolic digits, around 2^63.
// sym: weight=3
func C05_Large() {
	n := tier(3, 6)
	f := "92233720368547758080"
	k := 18 + sym.Choose("n", 3)
	d := f[:k-n] + sym.String("d", n, "0123456789")
	if sym.Choose("zeros", 2) == 1 {
		d = "000" + d
	}
	if sym.Choose("where", 2) == 0 {
		checkPath(pickText("start", "$[", "$[-", "$.", "$.-", "$[:") + d + pickText("end", "", "]"))
	} else {
		checkExpr(pickText("sign", "", "-", "1+") + d)
	}
}

// C05_Integers: integers of an expression of up to 19 symbolic digits.
// sym: weight=2
func C05_Integers() {
	checkExpr(sym.String("d", []int{1, 2, 5, 10, 16, 18, 19}[sym.Choose("n", tier(5, 7))], "0123456789"))
}

// C05_Reals: reals of up to 3 digits before and 2 after the point (thorough: 4 and 3), with one-digit exponents.
// sym: weight=3
func C05_Reals() {
	d := sym.String("d", sym.Choose("n", tier(3, 4))+1, "0123456789")
	f := sym.String("f", sym.Choose("m", tier(3, 4)), "0123456789")
	e := ""
	switch sym.Choose("exp", 4) {
	case 1:
		e = pickText("e", "e", "E", "e+", "E-", "e-") + sym.String("x", 1, "0123456789")
	case 2:
		e = pickText("e", "e", "e+", "e-") + "1" + sym.String("x", 1, "0123456789")
	case 3:
		e = sym.String("x", 2, "eE+-09 ")
	}
	checkExpr(d + "." + f + e)
}

// C05_RealSpellings: reals whose nearest double is known: halfway cases, the largest and least doubles, and overflow (rejected).
func C05_RealSpellings() {
	l := []struct {
		text string
		v    float64
		ok   bool
	}{
		{"0.1", 0.1, true}, {"9007199254740993.0", 9007199254740992, true}, {"9007199254740995.0", 9007199254740996, true},
		{"1.7976931348623157e308", 1.7976931348623157e308, true}, {"1.8e308", 0, false}, {"1.0e999", 0, false}, {"2.2250738585072014e-308", 2.2250738585072014e-308, true},
		{"4.9e-324", 5e-324, true}, {"2.0e-324", 0, true}, {"1.0e-400", 0, true}, {"0.30000000000000004", 0.30000000000000004, true}, {"123456789012345678901234567890.0", 123456789012345678901234567890.0, true},
		{"1.", 1, true}, {"00.5", 0.5, true}, {"1.e5", 1e5, true}, {"0.000001e6", 1, true}, {"1.0e00000000000000000000000000005", 1e5, true}, {"0.0e9999999999", 0, true},
	}
	c := l[sym.Choose("real", len(l))]
	sym.Note("text", c.text)
	e, err := paths.ParseScriptExpression(c.text)
	if !c.ok {
		sym.Assert(err != nil, "real out of range accepted")
		return
	}
	sym.Assert(err == nil, "real rejected")
	r, ok := e.(*paths.FloatLeaf)
	sym.Assert(ok, "not a real")
	sym.Note("value", r.Val)
	sym.Assert(sym.SameFloat(r.Val, c.v), "real not the nearest double")
}

// C05_Strings: any 3 bytes (thorough: 4) within quotes.
// sym: weight=3
func C05_Strings() {
	q := pickText("quote", "'", "\"")
	checkExpr(q + sym.String("t", tier(3, 4), "") + q)
}

// C05_PathStrings: any 2 bytes (thorough: 3) within quotes in a subscript.
// sym: weight=2
func C05_PathStrings() {
	q := pickText("quote", "'", "\"")
	checkPath("$[" + q + "a" + sym.String("t", tier(2, 3), "") + q + "]")
}

// C05_Escapes: a backslash with any 2 bytes after it, at the start, in the middle or at the end.
// sym: weight=2
func C05_Escapes() {
	q := pickText("quote", "'", "\"")
	checkExpr(q + pickText("before", "", "x", "\\\\", "\\n") + "\\" + sym.String("t", 2, "") + pickText("after", "", "y", "\\'", "\\t") + q)
}

// C05_Unicode: \u with four digits, two or four of them any bytes, and its encoding.
// sym: weight=3
func C05_Unicode() {
	h := ""
	switch sym.Choose("hole", 4) {
	case 0:
		h = sym.String("t", 4, "09afAF7d")
	case 1:
		h = pickText("high", "00", "07", "08", "d7", "e0", "ff", "d8") + sym.String("t", 2, "")
	case 2:
		h = sym.String("t", 2, "") + pickText("low", "00", "7f", "80", "ff")
	case 3:
		h = sym.String("t", 3, "0aF8g")
	}
	checkExpr("'" + pickText("before", "", "a") + "\\u" + h + pickText("after", "", "b") + "'")
}

// C05_Surrogates: two or three \u escapes, each an ordinary character or a high or low surrogate with a symbolic digit, and what may come between.
// sym: weight=3
func C05_Surrogates() {
	u := func(n string) string {
		return "\\u" + pickText(n, "d8", "db", "dc", "df", "d7", "00", "DB") + sym.String(n+".x", 1, "03fF") + "1"
	}
	s := u("a") + pickText("between", "", "x", "\\n", "\\\\") + u("b")
	if sym.Choose("third", 2) == 1 {
		s += u("c")
	}
	checkExpr("\"" + s + "\"")
}

// C05_Patterns: regular expressions: 3 bytes (thorough: 4) of "/\\a.[(*" and others between slashes.
// sym: weight=2
func C05_Patterns() {
	checkExpr("/" + sym.String("t", tier(3, 4), "/\\a.[(*]n") + pickText("end", "/", "/ == 1", "b/"))
}

// C05_Keep: strings of 10 and 100 characters with any one byte at the start, middle or end.
func C05_Keep() {
	n := []int{10, 100}[sym.Choose("n", 2)]
	k := []int{0, n / 2, n}[sym.Choose("at", 3)]
	s := strings.Repeat("é\\u00e9xy", n)[:n*2]
	for k < len(s) && (s[k]&0xC0 == 0x80 || s[k] != 'x' && s[k] != 'y') {
		k++
	}
	s = strings.TrimRight(s, "\\u0e9")
	if k > len(s) {
		k = len(s)
	}
	checkExpr("'" + s[:k] + sym.String("t", 1, "") + s[k:] + "'")
}

var _ = ref.ParsePath
