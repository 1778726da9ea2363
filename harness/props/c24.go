package props

import (
	"strings"
	"sync"

	"github.com/forsyth/jsonpath"
	"github.com/forsyth/jsonpath/paths"

	"verifharness/ref"
	"verifharness/sym"
)

// meaningDoc is a document on which most small paths select something of their own.
func meaningDoc() any {
	return map[string]any{
		"a": []any{1.0, "x", map[string]any{"a": 2.0, "b": nil, "c": "y"}, []any{3.0, "a", 4.5}},
		"b": map[string]any{"a": map[string]any{"b": true, "k": "x"}, "c": []any{}, "x": -1.0},
		"x": "ab", "k": []any{"x", "k", 0.5}, "c": 7.0, "l": false, "": "empty", "1": "one", "name": []any{"b"},
	}
}

// means compiles the text and compares what that gives with the reference: rejected or not, and if not, the steps
// and the results on the document.
func means(text string, doc any) *jsonpath.JSONPath {
	steps, ok := ref.ParsePath(text)
	p, err := jsonpath.Compile(text)
	sym.Note("compiled", text)
	if !ok {
		sym.Assert(err != nil, "text outside the grammar accepted")
		sym.Assert(p == nil, "a path with an error")
		sym.Reach("rejected")
		return nil
	}
	sym.Assert(err == nil, "path of the grammar rejected")
	sym.Assert(p.String() == text, "String differs from the text")
	r, err := p.Eval(doc)
	judgeSteps(steps, doc, r, err)
	sym.Reach("accepted")
	return p
}

// still compares what a path compiled earlier gives with the reference.
func still(p *jsonpath.JSONPath, text string, doc any) {
	if p == nil {
		return
	}
	sym.Note("again", text)
	sym.Assert(p.String() == text, "String differs from the text")
	r, err := p.Eval(doc)
	judge(text, doc, r, err)
}

// between compiles the texts in order, each judged, and then judges all of them again, old and compiled anew.
func between(doc any, l ...string) {
	ps := make([]*jsonpath.JSONPath, len(l))
	for i, t := range l {
		ps[i] = means(t, doc)
	}
	for i, t := range l {
		still(ps[i], t, doc)
		means(t, doc)
	}
}

// C24_Changed: a path of 12 and the same with any one byte replaced, inserted or left out, or cut short anywhere,
// compiled in either order and again.
// sym: weight=4
func C24_Changed() {
	s := pickText("path", somePaths...)
	t := mutate("m", s)
	if sym.Choose("order", 2) == 1 {
		s, t = t, s
	}
	between(meaningDoc(), s, t)
}

// C24_Bytes: two texts that differ in up to 2 bytes (thorough: 3), each any bytes, within the same rest.
// sym: weight=3
func C24_Bytes() {
	n := tier(2, 3)
	start := pickText("start", "$.", "$[", "$['", "$..a", "$[?(@.a", "$.a[?(@")
	end := pickText("end", "", "]", "']", ")]")
	between(meaningDoc(), start+sym.String("s", n, "")+end, start+sym.String("t", n, "a1.*'")+end)
}

// C24_Names: two paths that name any two words of up to 12 bytes (thorough: 24), or words that differ at the end only.
// sym: weight=2
func C24_Names() {
	k := anyText("k")
	l := variant(k)
	form := pickText("form", "$['%']", "$..['%']", "$[?(@['%'])]", "$['a','%']", "$.*['%']", "$[('%')]", "$[?(@ == '%')]")
	doc := map[string]any{"v": k, "w": map[string]any{l: 2.0}, "a": 3.0}
	doc[k] = []any{1.0, l}
	between(doc, fill(form, k), fill(form, l))
}

var alikePaths = []string{"$.a", "$.b", "$..a", "$.a ", " $.a", "$. a", "$.A", "$[a]", "$['a']", "$[ 'a' ]", "$['a ']", "$[\"a\"]", "$[1]", "$['1']", "$.1", "$[-1]", "$[1:]", "$[:1]", "$[::1]", "$[(1)]", "$[('a')]", "$[(a)]", "$.*", "$..*", "$['*']", "$[?(@)]", "$[?(@.a)]", "$[?(@ .a)]", "$[?(@['a'])]", "$[?(@ == 1)]", "$[?(@ == 1.0)]", "$[?(@ == '1')]", "$[?(@ == -1)]",
	"$[?(@ ~ 'a')]", "$[?(@ ~ /a/)]", "$[?(@ ~ /A/)]", "$[?(@ =~ 'a')]", "$[?('a' in @)]", "$[?(a in @)]", "$[?(@.a && @.b)]", "$[?(@.a || @.b)]", "$.a[0,1]", "$.a[1,0]", "$.a[0:1]", "$.a[01]", "$.a['0']", "$[?(@ == 0.5)]", "$[?(@ == 5)]"}

// C24_Alike: two of 48 paths that are alike in part or but for white space, quotes or case, compiled in either order and again.
// sym: weight=2
func C24_Alike() {
	between(meaningDoc(), alikePaths[sym.Choose("a", len(alikePaths))], alikePaths[sym.Choose("b", len(alikePaths))])
}

var badTexts = []string{"", "$.", "$[", "$['a", "$.a'", "$[?(@.a]", "$[?(@.a == )]", "$[?(/(/)]", "$[?(@ ~ /a)]", "$['\\q']", "$['\\u12']", "$[99999999999999999999]", "$[?(1e999)]", "$[?(1+)]", "$[?(f(1,)]", "$[?((((((((1)]", "$[?([1,[2,)]", "$[1:2:3:4]", "$[1,2", "$..", "$[(1)", "$a", "a.b", "$[?(@ = 1)]", "$[*,1]", "$\x00", "$[?(1 2)]", "$[?(1.(2))]", "$['a\nb']"}

// C24_Long: two keys, strings, patterns, names, numbers or lists of 4 to 300 bytes (thorough: 70000) that differ in one byte, which is any of some,
// at the start, in the middle, near the end or in the length only, compiled in either order and again.
// sym: weight=2 steps=400000000
func C24_Long() {
	n := []int{4, 9, 17, 33, 70, 130, 300, 5000, 70000}[sym.Choose("n", tier(7, 9))]
	at := []int{0, 1, n / 3, n / 2, n - 2, n - 1}[sym.Choose("at", 6)]
	k := strings.Repeat("a", n)
	l := k[:at] + string([]byte{sym.ByteIn("c", "bz_1")}) + k[at+1:]
	if sym.Choose("longer", 2) == 1 {
		l = k + "a"
	}
	form := pickText("form", "$['%']", "$.%", "$..['%']", "$[%,a]", "$[?(@ == '%')]", "$[?(@ == \"%\")]", "$[?(@.%)]", "$[?(@['%'])]", "$[('%')]", "$[?(@ in ['%'])]", "$[?('%a' ~ /%/)]", "$[?('%' ~ '%$')]", "$[?(% == @)]", "$[?(f%(1))]")
	doc := map[string]any{"v": k, "w": map[string]any{l: 2.0}}
	doc[k] = "k"
	doc[l] = "l"
	between(doc, fill(form, k), fill(form, l))
}

// C24_Large: paths compiled after one with a constant of 70000 bytes, 300 constants, steps, elements or operators, or
// integers and reals of all magnitudes.
// sym: weight=2 steps=400000000
func C24_Large() {
	t := manyPaths[sym.Choose("path", len(manyPaths))]
	var l string
	switch sym.Choose("large", 8) {
	case 0:
		l = "$.x.a['" + strings.Repeat("a", 70000) + "']"
	case 1:
		l = "$[?(@ == '" + strings.Repeat("\\u0061", 12000) + "')]"
	case 2:
		l = "$['x'"
		for i := 0; i < 300; i++ {
			l += ",'k" + digits(i) + "'"
		}
		l += "]"
	case 3:
		l = "$" + strings.Repeat(".a['b']", 300)
	case 4:
		l = "$[?(1" + strings.Repeat(" + 1.5", 300) + ")]"
	case 5:
		l = "$[?(@ in [9223372036854775807, 4194304, 4194303, 1.5e300, 0.1, 'x', true, null, -4194305])]"
	case 6:
		l = "$[?(" + strings.Repeat("(", 300) + "@" + strings.Repeat(")", 300) + ")]"
	case 7:
		l = "$[?('a' ~ /" + strings.Repeat("a?", 300) + "/)]"
	}
	doc := meaningDoc()
	p := means(t, doc)
	for i := 0; i < 2; i++ {
		_, err := jsonpath.Compile(l)
		sym.Assert(err == nil, "path rejected")
	}
	still(p, t, doc)
	means(t, doc)
}

// C24_Rejected: paths compiled and evaluated before and after one of 29 texts is rejected once or 70 times
// (thorough: 300), by MustCompile too.
// sym: weight=2 steps=60000000
func C24_Rejected() {
	t := manyPaths[sym.Choose("path", len(manyPaths))]
	bad := badTexts[sym.Choose("bad", len(badTexts))]
	doc := meaningDoc()
	p := means(t, doc)
	n := []int{1, tier(70, 300)}[sym.Choose("n", 2)]
	for i := 0; i < n; i++ {
		means(bad, doc)
	}
	sym.Assert(panics(bad), "MustCompile does not panic")
	still(p, t, doc)
	means(t, doc)
}

// C24_RejectedDeep: paths compiled after texts of 12000 (thorough: 120000) brackets, parentheses, unary operators or calls that are not closed, or too many, were rejected.
// sym: steps=400000000 depth=1200000
func C24_RejectedDeep() {
	t := pickText("path", "$.a", "$[?((((@.a))))]", "$..[?(@.a == [1,[2,[3]]])]", "$[?(-(-(1)))]", "$[?(@ in ['x', 1])]", "$[(@.length-1)]", "$[?(length(keys(@)) == 3)]")
	doc := meaningDoc()
	n := tier(12000, 120000)
	s := "$[?(" + strings.Repeat(pickText("open", "(", "-", "!", "f(", "[", "@["), n)
	for i := 0; i < 3; i++ {
		p, err := jsonpath.Compile(s)
		sym.Assert(err != nil && p == nil, "unbalanced text accepted")
	}
	means(t, doc)
	means(t, doc)
}

// C24_Failed: paths compiled before and after another fails at run time, by a bad pattern, an unknown function, a wrong
// argument or operand.
func C24_Failed() {
	t := manyPaths[sym.Choose("path", len(manyPaths))]
	f := pickText("failing", "$..[?(@ ~ '(')]", "$[?(@ ~ '[')]", "$[?(nosuch(@))]", "$[?(length(@, 1))]", "$[?(@ in 1)]", "$[?(tokenize(@, '('))]", "$[?(1 ~ 1)]", "$[(nosuch(1))]")
	doc := meaningDoc()
	p := means(t, doc)
	q := means(f, doc)
	still(q, f, doc)
	still(p, t, doc)
	means(t, doc)
	means(f, doc)
}

// C24_Many: 70, 140, 270 or 530 (thorough: also 1100 and 5000) different paths compiled one after the other, then again, the first, the last and
// some between judged each time; the paths differ in an index, a name, a constant, a pattern or a text.
// sym: steps=400000000
func C24_Many() {
	n := []int{70, 140, 270, 530, 1100, 5000}[sym.Choose("n", tier(4, 6))]
	form := pickText("form", "$[%]", "$['k%']", "$.k%", "$[?(@ == %)]", "$[?(@ == %.5)]", "$[?(@ == 'k%')]", "$[?(@ ~ /^k%$/)]", "$[?(@ ~ '^k%$')]", "$[%:]", "$[?(f%())]", "$..k%", "$[(%)]", "$[%")
	doc := make([]any, n+2)
	for i := range doc {
		switch i % 4 {
		case 0:
			doc[i] = float64(i)
		case 1:
			doc[i] = "k" + digits(i)
		case 2:
			doc[i] = float64(i) + 0.5
		case 3:
			doc[i] = map[string]any{"k" + digits(i): float64(i)}
		}
	}
	if form == "$['k%']" || form == "$.k%" {
		m := map[string]any{}
		for i := range doc {
			m["k"+digits(i)] = float64(i)
		}
		doc = []any{m}
		form = "$[0]" + form[1:]
	}
	ps := make([]*jsonpath.JSONPath, n)
	for round := 0; round < 2; round++ {
		for i := 0; i < n; i++ {
			t := fill(form, digits(i))
			if i%97 == 0 || i == n-1 {
				still(ps[i], t, doc)
				ps[i] = means(t, doc)
				continue
			}
			p, err := jsonpath.Compile(t)
			sym.Assert((p == nil) == (err != nil), "not either a path or an error")
		}
	}
	for i := range ps {
		still(ps[i], fill(form, digits(i)), doc)
	}
}

func digits(n int) string {
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return digits(n/10) + string([]byte{byte('0' + n%10)})
}

// C24_Parsers: ParsePath and ParseScriptExpression of a text of 7 paths and 7 expressions changed in one place, of another and again:
// the trees given first stay as they were.
// sym: weight=3
func C24_Parsers() {
	s := somePaths[sym.Choose("path", 7)]
	if sym.Choose("changed", 2) == 1 {
		s = mutate("m", s)
	}
	e := someExprs[sym.Choose("expr", len(someExprs))]
	parsed(s, e)
}

// C24_ParsersExpr: the same with the expression changed.
// sym: weight=3
func C24_ParsersExpr() {
	parsed(somePaths[sym.Choose("path", 7)], mutate("m", someExprs[sym.Choose("expr", len(someExprs))]))
}

func parsed(s, e string) {
	sym.Note("path", s)
	sym.Note("expression", e)
	ws, oks := ref.ParsePath(s)
	we, oke := ref.ParseExpr(e)
	var gs [3]paths.Path
	var ge [3]paths.Expr
	for i := range gs {
		var err error
		gs[i], err = paths.ParsePath(s)
		sym.Assert((err == nil) == oks, "ParsePath and the grammar differ")
		ge[i], err = paths.ParseScriptExpression(e)
		sym.Assert((err == nil) == oke, "ParseScriptExpression and the grammar differ")
	}
	for i := range gs {
		if oks {
			sym.Assert(ref.SameSteps(gs[i], ws), "parsed steps differ from the text")
			sym.Reach("path")
		}
		if oke {
			sym.Assert(ref.SameExpr(ge[i], we), "parsed tree differs from the text")
			sym.Reach("expression")
		}
	}
}

// compiling compiles the texts at the same time, n times each in its own goroutine, under every schedule with up to k
// preemptions, and judges the paths afterwards.
func compiling(k, n int, doc any, l ...string) {
	for _, t := range l {
		sym.Note("text", t)
	}
	out := make([][]*jsonpath.JSONPath, len(l))
	var wg sync.WaitGroup
	if k >= 0 {
		sym.Sched(k)
	}
	sym.Race(true)
	for i := range l {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			ps := make([]*jsonpath.JSONPath, n)
			for j := range ps {
				p, err := jsonpath.Compile(l[i])
				if (p == nil) != (err != nil) {
					panic("not either a path or an error")
				}
				ps[j] = p
			}
			out[i] = ps
		}()
	}
	wg.Wait()
	sym.Race(false)
	for i, t := range l {
		_, ok := ref.ParsePath(t)
		for _, p := range out[i] {
			sym.Assert((p != nil) == ok, "Compile and the grammar differ")
			still(p, t, doc)
		}
	}
}

// C24_Together: one of 48 paths, or of 29 texts that are none, compiled by two goroutines, with the same text or one of 10 others,
// on schedules with one preemption at a synchronisation (thorough: two).
// sym: race weight=2 tries=30
func C24_Together() {
	i := sym.Choose("text", len(alikePaths)+len(badTexts))
	var t string
	if i < len(alikePaths) {
		t = alikePaths[i]
	} else {
		t = badTexts[i-len(alikePaths)]
	}
	u := t
	if sym.Choose("same", 2) == 1 {
		u = pickText("other", "$.a", "$[?(@ ~ /a/)]", "$[?(@ ~ 'x')]", "$..[?(@.a == 1.5)]", "$['a',1:2]", "$[?([1,'a'][0] == f(2))]", "$[(@.length-1)]", "$[?(", "$['a", "$..*")
	}
	compiling(tier(1, 2), 1, meaningDoc(), t, u)
}

// C24_TogetherTwice: two goroutines compile two paths twice each and a third one a third.
// sym: race weight=2 tries=30
func C24_TogetherTwice() {
	t := manyPaths[sym.Choose("path", len(manyPaths))]
	u := pickText("other", "$.a", "$[?(@ ~ /a/)]", "$[?(@ == 1.5)]", "$['a', 1 ]", "$[?(")
	compiling(tier(0, 1), 2, meaningDoc(), t, u, t)
}

// C24_WhileEvaluating: a goroutine compiles and evaluates while another evaluates the same text compiled before.
// sym: race weight=2 tries=30
func C24_WhileEvaluating() {
	t := sharedPaths[sym.Choose("path", len(sharedPaths))]
	u := t
	if sym.Choose("same", 2) == 1 {
		u = sharedPaths[sym.Choose("other", tier(10, len(sharedPaths)))]
	}
	d, e := sharedDoc(sym.Choose("doc", 5)), sharedDoc(4)
	p := mustPath(t)
	sym.Note("path", t)
	sym.Note("other", u)
	var q *jsonpath.JSONPath
	var rp, rq []any
	var errp, errq error
	var wg sync.WaitGroup
	sym.Sched(tier(0, 1))
	sym.Race(true)
	wg.Add(2)
	go func() {
		defer wg.Done()
		rp, errp = p.Eval(d)
	}()
	go func() {
		defer wg.Done()
		q, _ = jsonpath.Compile(u)
		if q != nil {
			rq, errq = q.Eval(e)
		}
	}()
	wg.Wait()
	sym.Race(false)
	sym.Assert(q != nil, "path rejected")
	judge(t, d, rp, errp)
	judge(u, e, rq, errq)
}
