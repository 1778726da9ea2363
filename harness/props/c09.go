package props

import "verifharness/sym"

var nests = []string{"$..*", "$..[*]", "$..a", "$..[0]", "$..['a','b']", "$..[0,1]", "$..[::2]", "$..[-1]", "$..0", "$..-1",
	"$..[::-1]", "$..[a]", "$..['a',0,:]", "$..[?(@)]", "$..[?(@.a)]", "$..('a')", "$..[(0)]", "$..[(@.length-1)]"}

// C09_Wild: wildcards, alone and in sequence, on any document of depth 2.
func C09_Wild() {
	text := pickText("path", "$.*", "$[*]", "$.*.*", "$[*][*]", "$.a.*", "$[0].*", "$.*.a", "$[*][0]", "$[ * ]", "$.*[0,1]")
	checkEval(text, sym.Doc("d", "depth=2 len=2 keys=a,b num=int"))
}

// C09_Nest: '..' with each kind of selector on any document of depth 3 with up to 2 (thorough: 3) elements
// or members per container.
// sym: weight=4
func C09_Nest() {
	text := nests[sym.Choose("path", len(nests))]
	d := "depth=3 kinds=nao leaf=n top=ao len=2 keys=a,b"
	if sym.Tier() > 0 {
		d = "depth=3 kinds=nsao leaf=n len=2 keys=a,b,0 str=0"
	}
	checkEval(text, sym.Doc("d", d))
}

// C09_NestSeq: '..' before and after other steps, and twice, on documents of depth 2.
// sym: weight=3
func C09_NestSeq() {
	a := []string{"$", "$.*", "$.a", "$[0]", "$[::-1]", "$[0,1]", "$..a", "$..*"}[sym.Choose("before", 8)]
	b := nests[sym.Choose("nest", 10)][1:]
	c := []string{"", ".*", "[0]", "..a", "[?(@)]", ".a"}[sym.Choose("after", 6)]
	d := "depth=2 kinds=nao leaf=n top=ao len=2 keys=a"
	if sym.Tier() > 0 {
		d = "depth=3 kinds=nao leaf=n top=ao len=2 keys=a"
	}
	checkEval(a+b+c, sym.Doc("d", d))
}

// C09_Deep: '..' on nests of arrays and objects of up to 140 (thorough: 1030) levels, with a container of either kind at
// each of 4 of the levels.
// sym: steps=100000000 depth=20000
func C09_Deep() {
	text := pickText("path", "$..a", "$..[0]", "$..*", "$..[?(@.length > 1)]", "$..['a',1]")
	n := []int{7, 33, 66, 140, 300, 1030}[sym.Choose("levels", tier(4, 6))]
	var v any = "leaf"
	for i := 0; i < n; i++ {
		obj := i%2 == 0
		if i < 2 || i > n-3 {
			obj = sym.Choose("kind"+string(rune('A'+i%64)), 2) == 0
		}
		if obj {
			v = map[string]any{"a": v}
		} else {
			v = []any{v, float64(i)}
		}
	}
	checkEval(text, v)
}

// C09_Wide: wildcards and '..' over arrays of 20, 70 and 300 elements, some of them containers.
func C09_Wide() {
	text := pickText("path", "$.*", "$..*", "$..[0]", "$[*].*", "$..[?(@.length==1)]", "$[*][0]", "$.*[*]")
	n := []int{20, 70, 300}[sym.Choose("size", 3)]
	a := make([]any, n)
	for i := range a {
		a[i] = float64(i)
		if i%7 == 3 {
			a[i] = []any{float64(-i)}
		}
	}
	a[n-1] = sym.Doc("last", "depth=1 len=1 keys=a")
	a[n/2] = sym.Doc("mid", "depth=1 len=1 keys=a")
	checkEval(text, a)
}

// C09_Again: wildcards and '..' on several input values, the same container among them more than once.
func C09_Again() {
	pre := pickText("before", "$[0,0]", "$['a','a']", "$[0,-1,0]", "$[:,:]", "$[0,:1,0]", "$['a',a,'a']", "$[0,0][0,0]", "$.*[0,0]", "$..['a','a']")
	post := pickText("after", ".*", "[*]", "..*", "..a", "..[0]", "..[0,'a']", "..[?(@)]", "[?(@)]", "..[0,0]")
	checkEval(pre+post, sym.Doc("d", "depth=3 kinds=nao leaf=n top=ao len=1 keys=a"))
}

// C09_Odd: wildcards and '..' on documents whose keys are empty, look like numbers or like parts of paths, and whose values
// are empty strings, arrays and objects.
// sym: weight=2
func C09_Odd() {
	keys := pickText("keys", "", "0", "-1", "*", "$", "@", "length", "a.b", "..")
	text := pickText("path", "$.*", "$[*]", "$..*", "$..[*]", "$..a", "$..[0]", "$.*.*", "$..['']", "$..*..a", "$..length", "$..[?(@)]", "$..0")
	checkEval(text, sym.Doc("d", "depth=2 kinds=nsao leaf=ns top=ao len=1 keys=a,"+keys+" strs=|x"))
}

// C09_AnyName: wildcards, '..' and filters on objects with a member of any name of up to 12 (thorough: 24) bytes.
func C09_AnyName() {
	k := anyName()
	text := pickText("path", "$.*", "$[*]", "$..*", "$..[*]", "$..a", "$..[?(@.a)]", "$.*.*", "$[?(@)]", "$[?(@.a)]", "$..[?(true)].*")
	checkEval(text, map[string]any{k: map[string]any{"a": 1.0, k: "x", k + "1": []any{map[string]any{k: 2.0}}}})
}

// C09_Members: '..' on nests of objects with one member, named a or otherwise, and arrays of one element, of up to 4 levels.
func C09_Members() {
	text := pickText("path", "$..a", "$..*", "$..[0]", "$..['']", "$..[?(@.a)]")
	var v any
	v = []any{nil, "a", "", 0.0, []any{}, map[string]any{}, map[string]any{"a": nil}}[sym.Choose("leaf", 7)]
	for i := 0; i < 4; i++ {
		switch sym.Choose("level"+string(rune('0'+i)), 6) {
		case 1:
			v = map[string]any{"a": v}
		case 2:
			v = map[string]any{"": v}
		case 3:
			v = map[string]any{"length": v}
		case 4:
			v = []any{v}
		case 5:
			v = []any{"a", v, v}
		}
	}
	checkEval(text, v)
}
