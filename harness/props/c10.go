package props

import "verifharness/sym"

var filters = []string{"@", "@.a", "!@.a", "@.a == 1", "@.a > @.b", "@ == $.k", "@[0]", "@.length", "@.length > 1", "$.k", "!@",
	"@.a || @.b", "@.a && @.b", "$", "@ == @", "@.a != $[0]", "@.a.b", "1", "0", "null", "@.b < 2 && !@.a", "$.a.length == @.length",
	"@ in $.a", "length(@) == 2", "[@.a]", "@ == null", "nosuch(@)", "@.a in 3"}

// C10_Filter: 28 filters on any document of depth 2 with up to 2 elements or members per container (thorough: 3, more kinds).
// sym: weight=3
func C10_Filter() {
	d := "depth=2 kinds=nfao leaf=nf top=ao len=2 keys=a,b,k num=0,1,2"
	if sym.Tier() > 0 {
		d = "depth=2 kinds=nbfao leaf=nfs len=3 keys=a,b,k num=0,1,2 str=0"
	}
	checkEval("$[?("+filters[sym.Choose("filter", len(filters))]+")]", sym.Doc("d", d))
}

// C10_Nest: 28 filters after '..' on any document of depth 2 (thorough: 3).
// sym: weight=3
func C10_Nest() {
	d := "depth=2 kinds=nfao leaf=nf top=ao len=2 keys=a,k num=0,1"
	if sym.Tier() > 0 {
		d = "depth=3 kinds=nao leaf=nf top=ao len=2 keys=a num=0,1"
	}
	checkEval("$..[?("+filters[sym.Choose("filter", len(filters))]+")]", sym.Doc("d", d))
}

// C10_Seq: filters before and after other steps and other filters; intermediate results without candidates.
// sym: weight=3
func C10_Seq() {
	a := []string{"$", "$.*", "$.a", "$[0,1]", "$..a", "$[?(@.a)]", "$..[?(@.a)]", "$[?(@)]", "$.a[?(@)]"}[sym.Choose("before", 9)]
	f := []string{"[?(@)]", "[?(@.a)]", "..[?(@)]", "[?(@.a != $.a)]", "..[?(@.a)]"}[sym.Choose("filter", 5)]
	c := []string{"", ".a", "[0]", "[?(@)]", ".*", "..a"}[sym.Choose("after", 6)]
	checkEval(a+f+c, sym.Doc("d", "depth=2 kinds=nao leaf=nf top=ao len=2 keys=a num=0,1"))
}

// C10_Values: a filter keeps exactly the elements above a limit, for arrays of up to 3 (thorough: 5) arbitrary numbers.
func C10_Values() {
	text := pickText("path", "$.v[?(@ > $.k)]", "$.v[?(@ < $.k)]", "$.v[?(@ == $.k)]", "$.v[?(@ - $.k)]", "$.v[?(@)]", "$.v[?(!(@ >= 0.5))]")
	n := 3
	if sym.Tier() > 0 {
		n = 5
	}
	v := make([]any, sym.Choose("n", n+1))
	for i := range v {
		v[i] = sym.Float("v"+string(rune('0'+i)), "full")
	}
	checkEval(text, map[string]any{"v": v, "k": sym.Float("k", "full")})
}

// C10_Long: filters over 20, 70 and 300 elements with an arbitrary number at 3 places.
func C10_Long() {
	text := pickText("path", "$[?(@ > 5)]", "$[?(@)]", "$[?(@ == $[1])]", "$[?(@ != 3)][?(@)]", "$.*[?(@)]", "$..[?(@.length > 2)]")
	n := []int{20, 70, 300}[sym.Choose("size", 3)]
	a := make([]any, n)
	for i := range a {
		a[i] = float64(i % 9)
	}
	a[1] = sym.Float("x", "int")
	a[n/2] = sym.Float("y", "int")
	a[n-1] = sym.Float("z", "int")
	checkEval(text, a)
}

// C10_Scalars: filters whose candidates are of every kind: null, booleans, numbers, strings, and empty and other arrays and objects.
func C10_Scalars() {
	e := pickText("e", "@", "!@", "@ == ''", "@ != ''", "@ == null", "@ == 0", "@ == false", "@ == true", "@ == 'a'", "@ < 1", "@ in ['', 0, null]", "@.length == 0", "@.length", "@ || true", "@ && true", "@ == @", "[@] == ['']", "@ ~ '^$'", "length(@) == 0", "@ + 1")
	d := sym.Doc("d", "depth=0 kinds=nbfs num=0,1,-0.5 strs=|a|0")
	switch sym.Choose("wrap", 4) {
	case 1:
		d = []any{}
	case 2:
		d = map[string]any{}
	case 3:
		d = []any{d}
	}
	doc := []any{[]any{d}, map[string]any{"k": d}, []any{1.0, d, "a"}, []any{[]any{d}}}[sym.Choose("doc", 4)]
	checkEval(replace(pickText("form", "$[?(%)]", "$..[?(%)]", "$[0][?(%)]", "$[?(true)]..[?(%)]"), e), doc)
}
