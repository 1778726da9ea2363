package props

import "verifharness/sym"

// C16_In: a in b and a nin b for any two values, b an array of up to 2 (thorough: 3) elements or something else.
// sym: weight=3
func C16_In() {
	text := pickText("form", "$[?(@.a in @.b)]", "$[?(@.a nin @.b)]", "$[?((@.a in @.b) == null)]", "$[?((@.a nin @.b) == false)]")
	b := "kinds=nbfsao leaf=nfs depth=1 len=2 keys=x num=full str=1"
	if sym.Tier() > 0 {
		b = "kinds=nbfsao leaf=nbfs depth=1 len=3 keys=x num=full str=1"
	}
	checkEval(text, operands("kinds=nbfs depth=0 num=full str=1", b))
}

// C16_Nested: membership of arrays and objects in arrays of them.
func C16_Nested() {
	text := pickText("form", "$[?(@.a in @.b)]", "$[?(@.a nin @.b)]")
	checkEval(text, operands("kinds=nfao leaf=f depth=1 len=2 keys=x num=0,1", "kinds=nfao top=a leaf=f depth=2 len=2 keys=x num=0,1"))
}

// C16_Lists: literal lists, with literals, fields, and missing elements.
func C16_Lists() {
	l := []string{"[]", "[1]", "[@.b]", "['a', @.b, 2]", "[null]", "[@.nosuch]", "[true, false]", "[7001, 7001.5]", "[[@.b]]", "[1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,@.b]"}[sym.Choose("list", 10)]
	op := []string{" in ", " nin "}[sym.Choose("op", 2)]
	evalWith("$[?(@.a"+op+l+")]", operands("kinds=nbfs depth=0 num=full str=1", "kinds=nfs depth=0 num=full str=1"), []int64{sym.IntIn("i", -1<<50, 1<<50)}, []float64{sym.Float("r", "full")})
}

var patterns = []string{"a", "^a", "a$", "^a$", "ab", "a+b", "a*", "[ab]+$", "^[^a]", "a|b", "^(a|b)b$", ".", "^$", "", "(?i)A", "\\\\d", "a.b", "b{2}", "^a?b", "[a-c]x"}

// C16_Match: s ~ re for 20 patterns, as literal or string, and any ASCII string of up to 3 (thorough: 4) bytes,
// or another kind of operand.
// sym: weight=3
func C16_Match() {
	p := patterns[sym.Choose("re", len(patterns))]
	q := "'" + p + "'"
	if p == "\\\\d" {
		p = "\\d"
	}
	r := []string{"/" + p + "/", q}[sym.Choose("kind", 2)]
	op := []string{"~", "=~"}[sym.Choose("op", 2)]
	d := "kinds=nbfsao leaf=n depth=1 len=1 keys=x num=full str=3"
	if sym.Tier() > 0 {
		d = "kinds=nbfsao leaf=n depth=1 len=1 keys=x num=full str=4"
	}
	text := []string{"$[?(@.a " + op + " " + r + ")]", "$[?(!(@.a " + op + " " + r + "))]"}[sym.Choose("form", 2)]
	checkEval(text, operands(d, ""))
}

// C16_Dynamic: patterns from the document, valid and not, and right operands of other kinds.
func C16_Dynamic() {
	text := pickText("form", "$[?(@.a ~ @.b)]", "$[?(@.a =~ @.b)]", "$[?('ab' ~ @.b)]", "$[?(@.a ~ @.b || true)]", "$[?(@.b ~ @.a)]")
	checkEval(text, operands("kinds=nfs depth=0 num=0,1 str=2 alpha=ab", `kinds=nbfsao leaf=n depth=1 len=1 keys=x num=0,1 strs=a|^b|(|[a|a{2}|*|a+b|^$||b$|\\`))
}

// C16_Errors: failing operands in the middle of an evaluation: after good candidates, inside && and ||, in arguments.
func C16_Errors() {
	text := pickText("form", "$[?(@.a in @.b)]", "$[?(true || @.a in @.b)]", "$[?(false && @.a ~ @.b)]", "$[?(length(@.a in @.b))]", "$..[?(@.a in @.b)]", "$[?([@.a ~ @.b])]", "$[?(!(@.a nin @.b))]")
	good := map[string]any{"a": "x", "b": []any{"x"}}
	if text == "$[?(false && @.a ~ @.b)]" || text == "$[?([@.a ~ @.b])]" {
		good = map[string]any{"a": "x", "b": "x"}
	}
	bad := operands("kinds=nfsa leaf=n depth=1 len=1 num=0,1 strs=x|y", "kinds=nfsa leaf=s depth=1 len=1 num=0,1 strs=x|(")[0]
	docs := [][]any{{bad}, {good, bad}, {bad, good}, {good, good, bad, good}, {}}
	checkEval(text, docs[sym.Choose("doc", 5)])
}

// C16_Patterns: s ~ re for 36 more patterns (matching only the empty string, only at the end, across lines, several
// bytes as one character, lazily, with groups) and any ASCII string of up to 3 (thorough: 4) bytes, and 16 texts with
// lines, blanks and characters of several bytes.
// sym: weight=3
func C16_Patterns() {
	ps := []string{"$", "^", "()", "b?$", "a*?$", "\\b", "\\B", "\\bb", "(?m)^b$", "(?s)a.b", "(?U)a+", "(a)(b)?$", "[^a]", "[^a]$", "^.$", "^..$", "^...$",
		"a{0}", "a{2,}", "(a|b){2}$", "\\.", "\\*", "\\x61", "\\w\\W", "\\s", "\\S$", "[[:alpha:]]", "[[:^digit:]]$", "é", "^\\pL$", "[é-ü]", "\\Aab", "b\\z", "a|$", "(?i)aB", "\\Qa.b\\E"}
	p := ps[sym.Choose("re", len(ps))]
	r := "/" + p + "/"
	if sym.Bool("string") {
		q := ""
		for i := range len(p) {
			if p[i] == '\\' {
				q += "\\"
			}
			q += p[i : i+1]
		}
		r = "'" + q + "'"
	}
	d := "kinds=s depth=0 str=3"
	if sym.Tier() > 0 {
		d = "kinds=s depth=0 str=4"
	}
	m := operands(d, "")
	if sym.Bool("texts") {
		ts := []string{"a\nb", "\nb\n", "b\nb", "\u00e9", "a\u00e9b", "\u00fc\u00fc", "\u20ac", "a.b", "a b", " ", "aB", "AB", "a*b", "xaab", "zzzb", "\U0001F600"}
		m[0].(map[string]any)["a"] = ts[sym.Choose("text", len(ts))]
	}
	checkEval("$[?(@.a ~ "+r+")]", m)
}

// C16_Within: patterns without operators, of 1 to 4 characters, alone, anchored, in groups, repeated, and any string of
// up to 6 (thorough: 8) bytes out of 3.
// sym: weight=2
func C16_Within() {
	p := pickText("re", "b", "ab", "ba", "aa", "aba", "abc", "aab", "abab", "^ab", "ab$", "^ab$", "a.b", "(ab)", "(ab)+c", "ab|c", "^(ab|c)*$", "b*c", "[ab]c", "(a|ab)(c|bcb)", "a?ab", "c$|^b", "ab.*ab", "", "(?i)AB")
	r := "/" + p + "/"
	if sym.Choose("string", 2) == 1 {
		r = "'" + p + "'"
	}
	s := sym.String("s", sym.Choose("n", tier(6, 8)+1), "abc")
	checkEval(replace(pickText("form", "$[?(@ ~ %)]", "$[?(!(@ =~ %))]"), r), []any{s})
}
