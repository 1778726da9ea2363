package props

import (
	"verifharness/ref"
	"verifharness/sym"
)

// roomy is an array with spare room behind its elements, as encoding/json makes them.
func roomy(l ...any) []any {
	return append(make([]any, 0, len(l)+3), l...)
}

const oddDocs = 36

// oddDoc is one of 36 documents with something unusual: empty keys, keys that look like other things, empty strings,
// arrays and objects, deep and long ones, values of several kinds side by side.
func oddDoc(i int) any {
	switch i {
	case 0:
		return nil
	case 1:
		return ""
	case 2:
		return 0.0
	case 3:
		return roomy()
	case 4:
		return map[string]any{}
	case 5:
		return "abc"
	case 6:
		return true
	case 7:
		return roomy(1.0, 2.0, 3.0)
	case 8:
		return roomy("c", "a", "b")
	case 9:
		return roomy(roomy(3.0, 1.0, 2.0), roomy("x", "a", "y"), roomy(1.0, "a", nil))
	case 10:
		return roomy(roomy(roomy(roomy())))
	case 11:
		return map[string]any{"": 1.0}
	case 12:
		return map[string]any{"": roomy(1.0, 2.0), "a": "x"}
	case 13:
		return roomy(map[string]any{"": 1.0, "a": 2.0}, map[string]any{"": "x"})
	case 14:
		return map[string]any{"a": map[string]any{"a": map[string]any{"a": roomy(1.0)}}}
	case 15:
		return map[string]any{"0": 1.0, "-1": 2.0, "length": 3.0}
	case 16:
		return map[string]any{"a": nil, "b": false}
	case 17:
		return roomy(nil, false, true, 0.0, "", roomy(), map[string]any{})
	case 18:
		return roomy(map[string]any{"a": 1.0, "b": roomy(1.0)}, map[string]any{"a": 1.0, "b": 2.0})
	case 19:
		return roomy(map[string]any{"a": "x", "b": "("}, map[string]any{"a": "x", "b": "x"})
	case 20:
		return roomy("*", "(", "[a", "\\", "a{2", "+", "?", ")")
	case 21:
		return map[string]any{"a": roomy("b", "a", "c"), "b": roomy(2.0, 3.0, 1.0)}
	case 22:
		return roomy(1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0)
	case 23:
		return roomy("a,b,c,d,e,f", "xaxbxcx", "   ")
	case 24:
		return roomy(1.5, -1.0, 1e300, -1e300, 9007199254740993.0, 5e-324)
	case 25:
		return map[string]any{"a": roomy(map[string]any{"a": roomy(map[string]any{"a": 1.0})}, 1.0)}
	case 26:
		return roomy(roomy(), map[string]any{}, roomy(roomy()), map[string]any{"a": roomy()})
	case 27:
		return roomy("1", "0", "-1", "1.5", "x1")
	case 28:
		return map[string]any{"length": "x", "a": map[string]any{"length": roomy(1.0)}}
	case 29:
		return roomy(roomy(1.0, 2.0, 3.0, 4.0), roomy(4.0, 3.0), roomy(2.0))
	case 30:
		s := roomy(1.0, "x") // the same array twice
		return roomy(s, s, map[string]any{"a": s})
	case 31:
		return roomy(map[string]any{"a": 0.0, "b": ""}, map[string]any{"a": 1.0}, map[string]any{"b": "x"}, 1.0, "a")
	case 32:
		return roomy("\u00e9t\u00e9", "\U0001F600", "\x00")
	case 33:
		return map[string]any{"a": 2.0, "b": roomy(0.0, 1.0, 2.0)}
	case 34:
		return []any(nil)
	}
	return roomy(roomy(nil, nil), roomy(false), "a", roomy("a"))
}

var morePaths = []string{"$[::0]", "$[1::0]", "$[0:9:0]", "$[-1:0:-1]", "$[2:0:-1]", "$[-2:]", "$[:-1]", "$[9:]", "$[:,:]", "$[::2,::-2]", "$..[::2]", "$..[1::0]", "$..[-1]", "$..['']", "$['']", "$[''].a", "$['a','b'][0,1]", "$.a.b", "$.a[0]", "$.a[-1]", "$[-1]", "$[-3]", "$[3]", "$.length", "$..length", "$.*.*", "$.*.*.*", "$..*..*", "$..a..a", "$..*.*", "$.*..*", "$..[0]..[0]", "$['0','-1']", "$.0", "$.-1", "$[0,0,0]", "$['a','a']", "$[*][*]",
	"$[?(@)][?(@)]", "$[?(@.length)]", "$[?(@.a.b)]", "$[?(@.a[0])]", "$[?(true)]", "$[?(false)]", "$[?(@['a'])]", "$[?(@['length'])]", "$[?(@ == $)]", "$[?(@ == $[0])]", "$[?($[0])]", "$[?($.a)]", "$[?(@ in $)]", "$[?(@ in $[0])]", "$[?(@[0] in @)]", "$[?(@ in $.b)]", "$..[?(@[0] == 1)]", "$[?(1 in @)]", "$[?(@ nin [1,2,3])]", "$[?(@ ~ 'a')]", "$[?('x' ~ @)]", "$[?(@.a =~ @.b)]", "$[?(tokenize('a', @))]", "$[?(tokenize(@, ','))]", "$[?(tokenize(@, 'x')[4])]",
	"$[?(max(@))]", "$[?(min(@))]", "$[?(max(@) == 'y')]", "$[?(min(@) == 1)]", "$[?(max($) == @)]", "$[?(min($) == @)]", "$[?(sum($) > @)]", "$[?(avg($) == 2)]", "$[?(prod($))]", "$[?(contains(@, 'a'))]", "$[?(contains($, @))]", "$[?(starts_with(@, 'a'))]", "$[?(ends_with(@, @))]", "$[?(abs(@) == 1)]", "$[?(ceil(@) == floor(@))]", "$[?(to_number(@))]", "$[?(length(keys(@)) == 2)]", "$[?(length(@) > 1)]", "$[?(max(@.b) == 2)]",
	"$[?(@ + 1)]", "$[?(@ * 2 == 4)]", "$[?(@ % 2)]", "$[?(1 / @)]", "$[?(-@)]", "$[?(!@)]", "$[?(!(!@))]", "$[?(@ < 'b')]", "$[?(@ >= 1)]", "$[?(@ != null)]", "$[?(@ == null)]", "$[?(@.a != @.b)]", "$[?(@ && @.a)]", "$[?([@] == [1])]", "$[?([[@]][0][0] == 1)]",
	"$[(@)]", "$[($)]", "$.(@.a)", "$[(@.a)]", "$.b[($.a)]", "$[(-1)]", "$[(1.0)]", "$[(@.length - 1)]", "$.*[(@.length - 1)]", "$..[(@.length - 1)]", "$[(@[0])]", "$[(0):(2)]", "$[(@.length-2):]", "$[0:(1)]", "$[::(0)]", "$[(@.nosuch)]", "$.*.(@.length - 1)", "$[('length')]"}

// crossPath is one of 160 paths of all kinds.
func crossPath() string {
	n := len(manyPaths)
	i := sym.Choose("path", n+len(morePaths))
	if i < n {
		return manyPaths[i]
	}
	return morePaths[i-n]
}

func crossDoc() any { return oddDoc(sym.Choose("doc", oddDocs)) }

// C11_Cross: 160 paths of all kinds on 36 unusual documents, against the reference.
// sym: weight=2
func C11_Cross() { checkEval(crossPath(), crossDoc()) }

// C18_Cross: 160 paths of all kinds on 36 unusual documents.
// sym: weight=2
func C18_Cross() { checkTotal(crossPath(), crossDoc()) }

// C21_Cross: 160 paths of all kinds on 36 unusual documents.
// sym: weight=2
func C21_Cross() { checkEnds(crossPath(), crossDoc(), 1) }

// C21_Pairs: each of 160 paths followed by one of 12 steps, on documents with empty keys and with mixed elements.
// sym: weight=2
func C21_Pairs() {
	step := pickText("step", "[?(@)]", "..*", "[?(@ in 1)]", "..a", "[::0]", "[1::0]", ".*", "[0]", "[(@)]", "..[?(@)]", "['','a']", "[?(@ ~ '(')]")
	checkEnds(crossPath()+step, oddDoc([]int{12, 13, 17, 26, 31}[sym.Choose("doc", 5)]), 1)
}

// C19_Cross: 160 paths of all kinds on 36 unusual documents, evaluated on one, on another, and on the first again.
// sym: weight=3
func C19_Cross() {
	a := crossPath()
	i := sym.Choose("doc", oddDocs)
	j := (i + 7) % oddDocs
	if sym.Tier() > 0 {
		j = sym.Choose("other", oddDocs)
	}
	p := mustPath(a)
	history([]int{0, 1, 0}, pair{p, a, oddDoc(i)}, pair{p, a, oddDoc(j)})
}

// overwrite changes all of the values of a result list, then puts more behind them.
func overwrite(r []any) {
	for i := range r {
		r[i] = "changed"
	}
	if cap(r) > len(r) {
		r = r[:cap(r)]
		for i := range r {
			r[i] = "changed too"
		}
	}
	r = append(r, "more")
	r[0] = "changed again"
}

// C19_Owned: a result list belongs to the caller: overwriting it, to the end of its room, leaves the document, the other
// result lists and later evaluations as they are.
// sym: weight=2
func C19_Owned() {
	a := crossPath()
	doc := crossDoc()
	sym.Note("path", a)
	p := mustPath(a)
	sym.Freeze(doc)
	r1, err1 := p.Eval(doc)
	r2, err2 := p.Eval(doc)
	sym.Note("document", doc)
	if err1 != nil || err2 != nil {
		sym.Assert(err1 != nil && err2 != nil, "error at only one of two evaluations")
		sym.Reach("error")
		return
	}
	k := copied(r2)
	overwrite(r1)
	sym.CheckFrozen()
	sym.Assert(sameList(k, r2), "one result list changed with another")
	r3, err := p.Eval(doc)
	judge(a, doc, r3, err)
}

// shortList is an array of up to 4 of the values.
func shortList(n int, vals ...any) []any {
	l := roomy()
	for i := sym.Choose("n", n+1); i > 0; i-- {
		l = append(l, vals[sym.Choose("v"+string(rune('0'+i)), len(vals))])
	}
	return l
}

// C16_Arrays: in and nin on arrays of the document of up to 4 values, in any order.
// sym: weight=2
func C16_Arrays() {
	l := shortList(tier(3, 4), 1.0, 3.0, 4.0, "1", "a", nil)
	a := []any{1.0, 3.0, 4.0, 2.0, "1", "a", nil, true}[sym.Choose("a", 8)]
	checkEval(pickText("form", "$[?(@.a in @.l)]", "$[?(@.a nin @.l)]"), []any{map[string]any{"a": a, "l": l}})
}

// C17_Arrays: the value of the functions on arrays of the document of up to 4 numbers and strings, in any order.
// sym: weight=2
func C17_Arrays() {
	l := shortList(tier(3, 4), 1.0, -2.0, 3.5, "b", "a", "10")
	f := pickText("f", "max", "min", "sum", "prod", "avg", "length", "abs", "to_number")
	doc := []any{map[string]any{"l": l}}
	sym.Freeze(l)
	checkValueOf(f+"(@.l)", doc)
	sym.CheckFrozen()
}

// C17_Contains4: contains on arrays of up to 4 values and on strings.
func C17_Contains4() {
	l := shortList(tier(3, 4), 1.0, 3.0, "b", "ab", nil)
	a := []any{1.0, 3.0, 2.0, "b", "a", nil, ""}[sym.Choose("a", 7)]
	checkEval(pickText("form", "$[?(contains(@.l, @.a))]", "$[?(contains(@.l, @.a) == false)]"), []any{map[string]any{"a": a, "l": l}})
}

// checkValueOf checks the value of e for the first element of doc: as a truth value, and, when the reference gives a
// number or a string, against that.
func checkValueOf(e string, doc []any) {
	steps, ok := ref.ParsePath("$[?(" + e + ")]")
	if !ok {
		panic("harness: not a path: " + e)
	}
	ev := &ref.Eval{Root: doc}
	v := ev.Expr(steps[0].Args[0].E, doc[0])
	if !ev.Failed && !ev.Open {
		if i, ok := v.(int64); ok {
			v = float64(i)
		}
		switch v.(type) {
		case float64, string:
			doc[0].(map[string]any)["want"] = v
			e += " == @.want"
		}
	}
	checkEval("$[?("+e+")]", doc)
}

// C17_Tokens: tokenize of strings of many pieces: how many there are and what each is.
func C17_Tokens() {
	s := pickText("s", "a,b,c,d,e,f,g", ",,,,,,", "abcdefgh", "a b  c   d", "xaxbxcxdx", "", "a1b22c333d4444e", "éaéaéaéa", "a,b;c,d;e")
	p := pickText("re", ",", "", " +", "x", "[0-9]+", "a", "[,;]", "é", ",*", "z", "^a", "e$", "(", "*", "[", "\\\\", "a{2", ")", "+")
	e := "tokenize(@.s, '" + p + "')"
	form := pickText("form", "length(%)", "%[0]", "%[3]", "%[-1]", "%[5]", "%[-2]", "% == null")
	doc := []any{map[string]any{"s": s}}
	checkValueOf(replace(form, e), doc)
}

// C10_Four: filters on arrays of up to 4 candidates of different kinds.
// sym: weight=2
func C10_Four() {
	l := shortList(tier(3, 4), 1.0, "a", nil, map[string]any{"a": 1.0}, roomy(1.0))
	text := pickText("form", "$[?(@)]", "$[?(@.a)]", "$[?(@ == 1)]", "$[?(!@.a)]", "$[?(@.length)]", "$[?(@[0])]", "$[?(@ != 'a')]", "$[?(@ in 'a')]", "$..[?(@.a)]", "$[?(@.a)].a", "$[?(@ == $[1])]", "$[?(@ > 0)][0]", "$[?(true)]", "$.*[?(@)]")
	checkEval(text, l)
}

// C12_Arrays: == and != on two arrays of the document of up to 2 (thorough: 3) values.
// sym: weight=2
func C12_Arrays() {
	n := tier(2, 3)
	l := shortList(n, 1.0, "1", nil, true, map[string]any{"a": 1.0}, roomy(1.0))
	m := roomy()
	for i := sym.Choose("m", n+1); i > 0; i-- {
		m = append(m, []any{1.0, "1", nil, true, map[string]any{"a": 1.0}, map[string]any{"a": 2.0}, map[string]any{"b": 1.0}, roomy(1.0), roomy(), roomy(1.0, 1.0)}[sym.Choose("w"+string(rune('0'+i)), 10)])
	}
	checkEval(pickText("form", "$[?(@.l == @.m)]", "$[?(@.m != @.l)]", "$[?([@.l] == [@.m])]"), []any{map[string]any{"l": l, "m": m}})
}
