package props

import (
	"strings"

	"github.com/forsyth/jsonpath"

	"verifharness/sym"
)

// checkEnds evaluates a path and checks that nothing it started is left when all others have run on.
func checkEnds(text string, doc any, times int) {
	sym.Note("path", text)
	p, err := jsonpath.Compile(text)
	if err != nil {
		sym.Reach("rejected")
		return
	}
	for i := 0; i < times; i++ {
		_, err = p.Eval(doc)
	}
	sym.Note("document", doc)
	sym.Settle()
	sym.Assert(sym.Goroutines() == 0, "goroutines left behind")
	if err != nil {
		sym.Reach("error")
	} else {
		sym.Reach("results")
	}
}

var stops = []string{"@ in @", "@.a in @.b", "@ ~ @", "@.a ~ @.b", "@ ~ '('", "nosuch(@)", "@.a", "@ nin @.a", "1", "@.a && @ in 1", "@.a || @ in 1", "max()", "@ == 1", "!(@ in @.a)", "[@ ~ @]", "length(@ in @)", "@[@ in @]", "-(@ =~ @.b)"}

// C21_Filters: filters of 18 kinds, most of which can fail, alone, under '..', doubled and between other steps,
// on any document of depth 2.
// sym: weight=4
func C21_Filters() {
	e := stops[sym.Choose("e", len(stops))]
	t := pickText("form", "$[?(%)]", "$..[?(%)]", "$.*[?(%)]", "$[?(%)][?(%)]", "$..[?(%)][?(%)]", "$..[?(%)]..*", "$..*[?(%)]", "$[?(%)]..[?(%)]", "$..a[?(%)]")
	d := "depth=2 kinds=nsao leaf=ns top=ao len=2 keys=a strs=x"
	if sym.Tier() > 0 {
		d = "depth=2 kinds=nsao leaf=ns top=ao len=2 keys=a,b strs=x|("
	}
	checkEnds(strings.ReplaceAll(t, "%", e), sym.Doc("d", d), 1)
}

// C21_At: a run-time error at any one of 5 (thorough: 12) elements of an array, or none.
// sym: weight=2
func C21_At() {
	n := tier(5, 12)
	a := make([]any, n)
	k := sym.Choose("at", n+1)
	for i := range a {
		a[i] = map[string]any{"a": 1.0, "b": []any{float64(i)}}
		if i == k {
			a[i] = map[string]any{"a": 1.0, "b": sym.Doc("b", "kinds=nbfso depth=1 len=1 leaf=n keys=b num=0 strs=x")}
		}
	}
	text := pickText("path", "$[?(@.a in @.b)]", "$..[?(@.a in @.b)]", "$.*[?(@.a in @.b)]", "$..[?(@.b)][?(@ in @.b)]", "$[?(true)][?(@ in 1)]", "$[?(@.a ~ @.b)]", "$[?(@.a in @.b)].b[0]", "$[?(@.a in @.b)][?(@.a in @.b)]", "$..[?(@.a in @.b || true)]..[?(@ in @)]", "$.*.*[?(@ in 1)]", "$..b[?(@ ~ 'x')]")
	checkEnds(text, a, 1+sym.Choose("times", 3))
}

// C21_Nests: '..' with every selector, on any document of depth 3.
// sym: weight=3
func C21_Nests() {
	text := nests[sym.Choose("path", len(nests))]
	if sym.Choose("twice", 2) == 1 {
		text += nests[sym.Choose("path2", len(nests))][1:]
	}
	checkEnds(text, sym.Doc("d", "depth=3 kinds=nao leaf=n top=ao len=2 keys=a"), 1)
}

// C21_Schedules: loops and failing loops under every schedule with two preemptions (thorough: four).
// sym: weight=2
func C21_Schedules() {
	sym.Sched(tier(2, 4))
	text := pickText("path", "$[?(@)]", "$[?(@ in 1)]", "$..[?(@)]", "$..[?(@ in @.a)]", "$..*", "$..a", "$[?(@ ~ @)][?(@)]", "$[?(@)][?(@ in @)]", "$..[0]..[0]", "$.*[?(@ in 1)]")
	checkEnds(text, sym.Doc("d", "depth=2 kinds=nsao leaf=s top=ao len=2 keys=a strs=x"), 1)
}

// C21_Long: arrays of 100 to 70 000 (thorough: 300 000) values and nests of 20 to 1000 levels with an error at the start,
// in the middle, at the end or nowhere.
// sym: steps=400000000
func C21_Long() {
	deep := sym.Choose("deep", 2)
	sizes := []int{100, 1000, 5000, 20000, tier(70000, 300000)}
	if deep == 1 {
		sizes = []int{20, 200, 1000}
	}
	n := sizes[sym.Choose("n", len(sizes))]
	k := []int{0, n / 2, n - 1, n}[sym.Choose("at", 4)]
	var v any
	if deep == 0 {
		a := make([]any, n)
		for i := range a {
			a[i] = []any{1.0}
			if i == k {
				a[i] = "x"
			}
		}
		v = a
	} else {
		v = []any{}
		for i := 0; i < n; i++ {
			if i == k {
				v = map[string]any{"b": v}
			} else {
				v = []any{v}
			}
		}
	}
	text := pickText("path", "$[?(1 in @)]", "$..[?(1 in @)]", "$.*[?(1 in @)]", "$..*", "$..[0]", "$[?(@[0] == 1)]", "$[::-1][?(1 nin @)]", "$..[?(@.b ~ 'x')]", "$..[?(@.b && @.b in 1)]")
	checkEnds(text, v, 1)
}

// C21_Ends: every path of the list of 45 and sequences of steps on any document of depth 2, twice.
// sym: weight=2
func C21_Ends() {
	text := ""
	if sym.Choose("list", 2) == 0 {
		text = manyPaths[sym.Choose("path", len(manyPaths))]
	} else {
		text = sequence(2, 18)
	}
	checkEnds(text, sym.Doc("d", "depth=2 kinds=nsao leaf=ns top=ao len=2 keys=a,b strs=x"), 2)
}
