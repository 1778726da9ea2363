package props

import (
	"strconv"
	"strings"

	"github.com/forsyth/jsonpath"

	"verifharness/sym"
)

// a pair is a path with a document.
type pair struct {
	p    *jsonpath.JSONPath
	text string
	doc  any
}

func mustPath(text string) *jsonpath.JSONPath {
	p, err := jsonpath.Compile(text)
	sym.Assert(err == nil, "path rejected")
	return p
}

// copied is a copy of a result list.
func copied(l []any) []any {
	c := make([]any, len(l))
	copy(c, l)
	return c
}

func sameList(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sym.Same(a[i], b[i]) {
			return false
		}
	}
	return true
}

// sameBag tells whether the lists have the same values, in any order.
func sameBag(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	used := make([]bool, len(b))
next:
	for i := range a {
		for d := range b {
			j := (i + d) % len(b)
			if !used[j] && sym.Same(a[i], b[j]) {
				used[j] = true
				continue next
			}
		}
		return false
	}
	return true
}

// history evaluates the pairs in the given order, each time comparing the results with the reference, and
// checks at the end that documents and earlier results are what they were.
func history(order []int, l ...pair) {
	for _, p := range l {
		sym.Note("path", p.text)
		sym.Freeze(p.doc)
	}
	sym.Note("order", len(order))
	var got, keep [][]any
	for _, k := range order {
		sym.Note("evaluated", l[k].text)
		r, err := l[k].p.Eval(l[k].doc)
		sym.Note("document", l[k].doc)
		judge(l[k].text, l[k].doc, r, err)
		sym.Assert((r == nil) != (err == nil), "not either results or an error")
		for i := range got {
			if order[i] == k {
				sym.Assert((got[i] == nil) == (r == nil), "error at only one of two evaluations")
				sym.Assert(sameBag(keep[i], r), "different results the second time")
				break
			}
		}
		got = append(got, r)
		keep = append(keep, copied(r))
	}
	for i := range got {
		sym.Assert(sameList(got[i], keep[i]), "earlier results changed")
	}
	for _, p := range l {
		sym.Assert(p.p.String() == p.text, "path text changed")
	}
	sym.CheckFrozen()
}

var manyPaths = []string{"$", "$.a", "$[0]", "$.*", "$[::-1]", "$[0:2]", "$[0,1]", "$['a',0]", "$..a", "$..*", "$..[0]", "$..[0,'a']", "$[?(@)]", "$[?(@.a)]", "$[?(@ == 1)]", "$..[?(@.a)]", "$..[?(@.length > 1)]", "$[(0)]", "$[(@.length - 1)]", "$[('a')]", "$..[(0)]",
	"$[?(@ > 0)].a", "$.*[0]", "$.*[?(@)]", "$[?(@ in [1,'x'])]", "$[?(@.a == @.b)]", "$[?(keys(@))]", "$[?(max(@) == 1)]", "$[?(sum(@) > 0)]", "$[?(length(@) == 1)]", "$[?(@ ~ 'x')]", "$[?(@ ~ /x/)]", "$[?([@, 1][0] == 1)]", "$[?([@,[1]] == [1,[1]])]", "$[?(min(@.a, @.b))]", "$[?(-@ < 0)]", "$[?(tokenize(@, 'x'))]", "$[?(nosuch(@))]", "$[?(@ in @)]", "$[?(to_number(@) == 1)]", "$[?(avg(@) == 1)]", "$[?(prod(@) == 1)]", "$[?(contains(@, 1))]", "$[?(@[0] < @[1])]", "$[?(@.a || @.b)]"}

// C19_Twice: every one of 45 paths evaluated twice on any document of depth 2, with another path of 6 in between.
// sym: weight=3
func C19_Twice() {
	a := manyPaths[sym.Choose("path", len(manyPaths))]
	b := pickText("other", "$..*", "$[?(@)]", "$[?(nosuch(@))]", "$[1,0]", "$[::-1]", "$..[?(@ in @)]")
	d := "depth=2 kinds=nfsao leaf=nfs top=ao len=2 keys=a,b num=0,1 strs=|x"
	if sym.Tier() == 0 {
		d = "depth=2 kinds=nfao leaf=nf top=ao len=2 keys=a num=0,1"
	}
	doc := sym.Doc("d", d)
	history([]int{0, 1, 0}, pair{mustPath(a), a, doc}, pair{mustPath(b), b, doc})
}

// C19_Strings: paths over strings: patterns, tokenize, functions, twice, on objects and arrays of strings.
// sym: weight=1
func C19_Strings() {
	a := pickText("path", "$[?(@ ~ 'x')]", "$[?(@ ~ /x/)]", "$[?(@.a ~ @.b)]", "$[?(tokenize(@, 'x'))]", "$[?(tokenize(@, 'x')[0] == 'a')]", "$[?(contains(@, 'x'))]", "$[?('a' in keys(@))]", "$[?(max(@) == 'x')]", "$[?(starts_with(@, 'x'))]", "$[?(@ in ['x', 'a'])]", "$[?(to_number(@) == 1)]", "$..['a', 'b']")
	doc := sym.Doc("d", "depth=2 kinds=sao leaf=s top=ao len=2 keys=a,b strs=|x|ax|1|(")
	history([]int{0, 0, 0}, pair{mustPath(a), a, doc})
}

// C19_History: every order of 4 (thorough: 6) evaluations of two paths on two documents each, among them failing ones.
// sym: weight=3
func C19_History() {
	t := []string{"$[?(@.a in @.b)]", "$..[?(@.a)]", "$[0,0:2,'a']", "$..*", "$[?(@.a ~ @.b)]", "$[(@.length - 1)]", "$..[0,'b'].a", "$[?([@.a][0] == @.b[0])]"}
	i := sym.Choose("p", len(t))
	j := sym.Choose("q", len(t))
	p, q := mustPath(t[i]), mustPath(t[j])
	d := []any{map[string]any{"a": "x", "b": []any{"y", "x"}}, map[string]any{"a": 1.0, "b": []any{1.0}}, []any{1.0}}
	e := []any{map[string]any{"a": "x", "b": sym.Doc("b", "kinds=nsa leaf=s depth=1 len=2 strs=x|(|y")}, map[string]any{"a": "y", "b": "y"}}
	n := 4
	if sym.Tier() > 0 {
		n = 6
	}
	order := make([]int, n)
	for k := range order {
		order[k] = sym.Choose("step"+string(rune('0'+k)), 4)
	}
	history(order, pair{p, t[i], d}, pair{q, t[j], d}, pair{p, t[i], e}, pair{q, t[j], e})
}

// C19_Many: one path evaluated 12 (thorough: 60) times, on two documents in turn, with errors in between.
// sym: steps=40000000
func C19_Many() {
	a := manyPaths[sym.Choose("path", len(manyPaths))]
	d := sym.Doc("d", "depth=2 kinds=fao leaf=f top=ao min=1 len=2 keys=a num=1,-2")
	e := []any{map[string]any{"a": "x", "b": []any{"x", 1.0}}, []any{1.0, "x", []any{}}, 1.0, "x", nil}
	n := 12
	if sym.Tier() > 0 {
		n = 60
	}
	var order []int
	for k := 0; k < n; k++ {
		order = append(order, k*k%3%2, k%3)
	}
	history(order, pair{mustPath(a), a, d}, pair{mustPath(a), a, e}, pair{mustPath("$[?(@ in 1)]"), "$[?(@ in 1)]", d})
}

// C19_Results: appending to or overwriting a result list by the caller does not reach the document or later results.
func C19_Results() {
	a := manyPaths[sym.Choose("path", len(manyPaths))]
	changed(a, sym.Doc("d", "depth=2 kinds=fao leaf=f top=ao len=2 keys=a,b num=0,1"))
}

// C19_WideResults: the same with arrays, within arrays, of 1 to 300 (thorough: 4097) elements, and objects of 1 to 129 members.
// sym: steps=100000000
func C19_WideResults() {
	n := count("n")
	var v any = row(n, 1, []any{1.0, map[string]any{"a": 2.0}})
	if n <= 129 && sym.Choose("object", 2) == 1 {
		m := map[string]any{}
		for i := range n {
			m["k"+strconv.Itoa(i)] = float64(i)
		}
		v = m
	}
	a := pickText("path", "$", "$.*", "$[*]", "$[:]", "$[0:]", "$[::1]", "$[::-1]", "$[1:-1]", "$..*", "$[?(@ >= 0)]", "$[?(true)]", "$..[?(true)]", "$[:,0]", "$[0,:]", "$[(0)]", "$[0]")
	if sym.Choose("deep", 2) == 1 {
		a = "$[0,1]" + a[1:]
		v = []any{v, []any{"x", v}}
	}
	changed(a, v)
}

// changed evaluates path a on doc, changes the results, and evaluates it again.
func changed(a string, doc any) {
	sym.Note("path", a)
	p := mustPath(a)
	r, err := p.Eval(doc)
	sym.Freeze(doc)
	if err == nil {
		overwrite(r)
	}
	sym.CheckFrozen()
	r, err = p.Eval(doc)
	sym.Note("document", doc)
	judge(a, doc, r, err)
}

// C19_Wide: paths that search, sum up, slice and compare arrays of 5, 20 and 70 (thorough: 300) elements and objects of
// as many members, with what is looked for at any of 9 places, evaluated three times with another path in between.
// sym: weight=2 steps=40000000
func C19_Wide() {
	a := pickText("path", "$[?(@.a in @.b)]", "$[?(@.a nin @.b)]", "$[?(contains(@.b, @.a))]", "$[?(@.b == @.c)]", "$[?(@.b != $[0].b)]",
		"$[?(max(@.b) == @.a)].b[-1]", "$[?(min(@.b) == @.a)].b[0]", "$[?(sum(@.b) > 3)].b", "$[?(prod(@.b))].b[1]", "$[?(avg(@.b) > 0)].c", "$[?(@.a in keys(@.o))]",
		"$[?(length(@.b) > 3)].b[::-1]", "$[*].b[::3]", "$[*].b[-3:,0,2:4]", "$[0].b[(@.length - 1)]", "$[?(@.b[(@.b.length - 1)] == @.a)]", "$..[?(@ == 3)]", "$..b.*", "$[*].o.*",
		"$[?(@.a in [@.b, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, @.a])]", "$[?(max(@.b[0], @.b[1], 3, 2, 9, 4, 7, 5, 6, 8, @.a))].a", "$[?(@.s ~ 'x+y')].s", "$[?(tokenize(@.s, ','))].s")
	sizes := []int{5, 20, tier(70, 300)}
	n := sizes[sym.Choose("size", 3)]
	at := []int{0, 1, 2, 3, 4, n / 2, n - 3, n - 2, n - 1}[sym.Choose("at", 9)]
	var b, c []any
	o := map[string]any{}
	for i := range n {
		v := float64(i%7 + 1)
		b = append(b, v)
		c = append(c, v)
		o["k"+string([]byte{byte('a' + i%26), byte('a' + i/26)})] = v
	}
	b[at] = 99.5
	doc := []any{map[string]any{"a": 99.5, "b": b, "c": c, "o": o, "s": strings.Repeat("x,", n) + "xy"}, map[string]any{"a": 1.0, "b": c}}
	history([]int{0, 1, 0, 0}, pair{mustPath(a), a, doc}, pair{mustPath("$..b[?(@ in $[0].b)]"), "$..b[?(@ in $[0].b)]", doc})
}
