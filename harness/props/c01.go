package props

import (
	"strings"

	"github.com/forsyth/jsonpath"

	"verifharness/sym"
)

func checkCompile(text string) {
	sym.Note("text", text)
	p, err := jsonpath.Compile(text)
	if err != nil {
		sym.Assert(p == nil, "both a path and an error")
		sym.Assert(panics(text), "MustCompile does not panic")
		sym.Reach("rejected")
		return
	}
	sym.Assert(p != nil, "neither a path nor an error")
	sym.Assert(p.String() == text, "String differs from the text")
	q := jsonpath.MustCompile(text)
	sym.Assert(q != nil && q.String() == text, "MustCompile gives no path")
	_, _ = p.Eval(nil)
	sym.Reach("accepted")
}

func panics(text string) (yes bool) {
	defer func() { yes = recover() != nil }()
	jsonpath.MustCompile(text)
	return false
}

// C01_Bytes: any 4 bytes after $ (thorough: 5), and any 2 bytes alone.
// sym: weight=2
func C01_Bytes() {
	if sym.Choose("dollar", 2) == 1 {
		checkCompile(sym.String("t", 2, ""))
		return
	}
	checkCompile("$" + sym.String("t", tier(4, 5), ""))
}

// C01_Empty: the empty string, white space, and texts of one byte.
func C01_Empty() {
	checkCompile(sym.String("t", sym.Choose("n", 3), "\x00 \t\n\r\v\f$\x80\xff"))
}

// oddBytes are things put into texts that some reader might skip, take for something else, or choke on.
var oddBytes = []string{"\ufeff", "\u00a0", "\u2028", "\u200b", "\u3000", "\x85", "\x00", "\x1a", "\x1e", "\x7f", "\xff", "\xc0\xaf", "\xef\xbb", "\v", "\f", "#", "//", "/**/", "\\", "`", ";", "%20", "&amp;", "\ud7ff", "\U0001f600", "\u0301"}

// C01_Odd: 12 paths with one or two out of 26 odd sequences of bytes at any place.
func C01_Odd() {
	s := oddText()
	checkCompile(s)
}

func oddText() string {
	s := pickText("path", somePaths...)
	w := oddBytes[sym.Choose("odd", len(oddBytes))]
	i := sym.Choose("at", len(s)+1)
	if sym.Choose("twice", 2) == 1 {
		w += w
	}
	return s[:i] + w + s[i:]
}

// C02_Odd: 12 paths with one or two out of 26 odd sequences of bytes at any place, against the grammar.
func C02_Odd() { checkPath(oddText()) }

// C01_Changed: 12 paths with any one byte replaced, inserted, or left out, or cut short anywhere.
// sym: weight=3
func C01_Changed() {
	checkCompile(mutate("m", pickText("path", somePaths...)))
}

// C01_Brackets: any 5 bytes (thorough: 6) of "'[]()?:,.*-1a\" and white space between brackets.
// sym: weight=3
func C01_Brackets() {
	checkCompile("$[" + sym.String("t", tier(5, 6), "\"'[]()?:,.*-1a\\ ") + pickText("end", "]", "", ")]", "'"))
}

// C01_Expressions: any 4 bytes (thorough: 5) of an expression alphabet in a filter and in a computed subscript.
// sym: weight=3
func C01_Expressions() {
	checkCompile(pickText("start", "$[?(", "$.(", "$[(", "$[?(@.a") + sym.String("t", tier(4, 5), "@$.[](),!=<>~&|/*'1a -\\") + pickText("end", ")]", ""))
}

// C01_Literals: any 2 bytes (thorough: 3) in the middle of strings, escapes, numbers and patterns.
// sym: weight=2
func C01_Literals() {
	h := sym.String("t", tier(2, 3), "")
	checkCompile(pickText("start", "$['", "$[?(\"", "$['\\", "$['\\u00", "$[?(1.", "$[?(1.e", "$[?(9223372036854775", "$['\\ud83d\\") + h + pickText("end", "']", "/)]", "\")]", ")]", ""))
}

// C01_Patterns: any 2 bytes (thorough: 3) of regular-expression characters in literal patterns.
// sym: weight=2
func C01_Patterns() {
	h := sym.String("t", tier(2, 3), "/\\a.[](){}*+?|^$1,-:d\x00\x80")
	checkCompile(pickText("start", "$[?(/", "$[?(/[", "$[?(@ ~ /(", "$[?(/a") + h + pickText("end", "/)]", "]/)]", ")/)]", "/", ""))
}

// C01_Digits: runs of 17 to 40 digits with any 2 last digits (thorough: 3), as index, slice bound, member, and number of an expression,
// with and without a sign, a point and an exponent.
// sym: weight=2
func C01_Digits() {
	n := []int{14, 15, 16, 17, 21, 37, 330}[sym.Choose("n", 7)]
	d := strings.Repeat(pickText("first", "9", "1", "0"), n) + sym.String("d", tier(2, 3), "0123456789")
	checkCompile(pickText("start", "$[", "$[-", "$.", "$.-", "$[?(", "$[1:", "$[?(-", "$[?(0.", "$[?(1.0e", "$[?(1.0e-") + d + pickText("end", "]", "", ")]", ".5)]", ".0e9)]"))
}

// C01_Deep: nesting of 200 (thorough: 1000) brackets, parentheses, unary operators, calls, arrays and steps, closed or one short.
func C01_Deep() {
	n := tier(200, 1000)
	l := []string{"[", "(", "-", "!", "f(", "@[", "[?(@"}[sym.Choose("open", 6)]
	r := map[string]string{"[": "]", "(": ")", "f(": ")", "@[": "]"}[l]
	k := n - sym.Choose("short", 2)
	mid := pickText("middle", "1", "@", "")
	checkCompile("$[?(" + strings.Repeat(l, n) + mid + strings.Repeat(r, k) + ")]")
}

// C01_TooDeep: nesting of 1.2 million parentheses, unary operators, calls and such, which no stack can hold.
// sym: thorough depth=1200000
func C01_TooDeep() {
	n := 1200000
	l := []string{"(", "-", "!", "f(", "@[", "[", "1+(", "a.b[@||"}[sym.Choose("open", 8)]
	_, err := jsonpath.Compile("$[?(" + strings.Repeat(l, n))
	sym.Assert(err != nil, "unbalanced text accepted")
	sym.Reach("rejected")
}

// C01_TooLong: a chain of 6 million operators, and 5 million array or union elements.
// sym: thorough depth=1200000 steps=3000000000
func C01_TooLong() {
	var p *jsonpath.JSONPath
	var err error
	switch sym.Choose("kind", 3) {
	case 0:
		p, err = jsonpath.Compile("$[?(1" + strings.Repeat("+1", 6000000) + ")]")
	case 1:
		p, err = jsonpath.Compile("$[?([" + strings.Repeat("1,", 5000000) + "1])]")
	case 2:
		p, err = jsonpath.Compile("$[" + strings.Repeat("0,", 5000000) + "0]")
	}
	if err != nil {
		sym.Assert(p == nil, "path with an error")
		sym.Reach("rejected")
		return
	}
	r, err := p.Eval([]any{1.0})
	sym.Assert((r == nil) == (err != nil), "neither or both of results and an error")
	sym.Reach("accepted")
}

// C01_Long: chains of 200 (thorough: 2000) steps, union elements, operators and array elements.
func C01_Long() {
	n := tier(200, 2000)
	switch sym.Choose("kind", 6) {
	case 0:
		checkCompile("$" + strings.Repeat(pickText("step", ".a", "[0]", "..b", "[*]", "..[?(@)]", "[?(@.x)]", " .c "), n))
	case 1:
		checkCompile("$[0" + strings.Repeat(pickText("element", ",1", ",'a'", ",:", ",id"), n) + "]")
	case 2:
		checkCompile("$[?(1" + strings.Repeat(pickText("op", "+1", " in @", "&&0", "||'x'", "==1.5"), n) + ")]")
	case 3:
		checkCompile("$[?([1" + strings.Repeat(pickText("element", ",1", ",'a'", ",[]", ",@"), n) + "])]")
	case 4:
		checkCompile("$[?(f(1" + strings.Repeat(",1", n) + "))]")
	case 5:
		checkCompile("$['" + strings.Repeat(pickText("char", "a", "\\n", "\\u0041", "\\ud83d\\ude00", "é"), n) + "']")
	}
}

var subs = []string{"0", "-2", "a", "'k'", "1:", ":2", "::", "1:2:3", "::-1", "(1)", "('a')", "(@.a)", "(1):", ":(@.a)", "::(2)", "0:1:(2)", "(0):(1):(2)", "*", "?(@)", "?(@.a==1)", "(/x/)", "(foo)"}

var members = []string{"", ".a", ".-1", ".*", ".(@.a)", "..b", "..*", "..0", "..(1)", "..('a')"}

// C01_Shapes: every kind of subscript after '.', '..', another subscript or member, alone and in a union of two.
// sym: weight=2
func C01_Shapes() {
	s := subs[sym.Choose("a", len(subs))]
	if sym.Choose("two", 2) == 1 {
		s += "," + subs[sym.Choose("b", len(subs)-5)]
	}
	checkCompile("$" + members[sym.Choose("before", len(members))] + pickText("dots", "", "..") + "[" + s + "]" + pickText("after", "", ".b", "[0]", "..[a]"))
}
