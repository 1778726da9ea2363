package props

import (
	"strconv"
	"strings"

	"verifharness/sym"
)

// C22_Alike: lists of three constants out of 22 that look alike, each tested by comparison with any value, halving,
// length or match.
// sym: weight=3
func C22_Alike() {
	alike := []string{"1", "1.0", "'1'", "\"1\"", "true", "'true'", "null", "'null'", "0", "0.0", "''", "false", "3", "3.0", "'3'", "'a'", "\"a\"", "'A'", "1.0e0", "3.5", "[1]", "['1']"}
	n := 8
	if sym.Tier() > 0 {
		n = len(alike)
	}
	l := "[" + alike[sym.Choose("c0", n)] + "," + alike[sym.Choose("c1", n)] + "," + alike[sym.Choose("c2", len(alike))] + "]"
	e := l + "[@.i]"
	text := pickText("form", "$[?("+e+" == @.a)]", "$[?("+e+" / 2 == @.a)]", "$[?(length("+e+") == @.a)]")
	checkEval(text, []any{map[string]any{"i": sym.Float("i", "0,1,2"), "a": sym.Doc("a", "kinds=nbfsa leaf=nfs depth=1 len=1 num=0,1,2,3,1.5,0.5,3.5,4,5 strs=|1|true|null|a|A|3")}})
}

// C22_Types: lists of three constants out of 14 that are the same number, or nearly, in another type, as large as
// 2^22, 2^53 and 2^63, each tested by comparison, halving, division by 5, remainder, length or match.
// sym: weight=2
func C22_Types() {
	alike := []string{"4194304", "4194304.0", "'4194304'", "4194303", "4194303.0", "4194305", "9007199254740993", "9007199254740993.0", "9007199254740992", "9007199254740992.0", "'9007199254740992'", "9223372036854775807", "9223372036854775807.0", "/4194304/"}
	l := "[" + alike[sym.Choose("c0", len(alike))] + "," + alike[sym.Choose("c1", len(alike))] + "," + alike[sym.Choose("c2", len(alike))] + "]"
	e := l + "[" + pickText("i", "0", "1", "2") + "]"
	checkEval(pickText("form", "$[?("+e+" == @)]", "$[?("+e+" / 2 == @)]", "$[?("+e+" / 5 == @)]", "$[?("+e+" % 3 == @)]", "$[?(length("+e+") == @)]", "$[?('4194304' ~ "+e+")]"),
		[]any{4194304.0, 4194303.0, 2097152.0, 2097151.0, 2097151.5, 838860.8, 838860.0, 9007199254740992.0, 9007199254740994.0, 4503599627370496.0, 1801439850948198.0, 1801439850948198.4, 9223372036854775807.0, 4611686018427387904.0, 0.0, 1.0, 2.0, 7.0, 16.0})
}

// C22_Keys: unions of three out of 14 subscripts that look alike, on objects and arrays.
// sym: weight=2
func C22_Keys() {
	alike := []string{"1", "'1'", "\"1\"", "a", "'a'", "\"a\"", "0", "'0'", "00", "'00'", "-1", "'-1'", "1:", ":1"}
	s := "$[" + alike[sym.Choose("k0", len(alike))] + "," + alike[sym.Choose("k1", len(alike))] + "," + alike[sym.Choose("k2", len(alike))] + "]"
	m := map[string]any{"1": "one", "a": "A", "0": "zero", "00": "zeroes", "-1": "less"}
	docs := []any{m, []any{"x0", "x1"}, []any{m}, map[string]any{"1": "uno"}}
	checkEval(s, docs[sym.Choose("doc", 4)])
}

// C22_Across: a constant that comes in several steps, as name, string, index and in expressions.
func C22_Across() {
	k := pickText("k", "a", "b")
	text := pickText("path", "$."+k+"['a']..a", "$[?(@."+k+" == '"+k+"')].a", "$['a','"+k+"',a,"+k+"]", "$.a[?(@['"+k+"'] == @."+k+")]", "$..[?(@."+k+" == 'a' || @.b == '"+k+"')]['a',b]", "$."+k+"[?(@ ~ /"+k+"/ || @ == '"+k+"')]", "$[?('"+k+"' in ['a', @."+k+"])]."+k)
	checkEval(text, sym.Doc("d", "depth=2 kinds=nsao leaf=s len=2 keys=a,b strs=a|b"))
}

// C22_Integers: three integer literals of any 64-bit value in a list, a sum, a subscript or a slice.
// sym: weight=3
func C22_Integers() {
	ints := []int64{sym.Int64("i"), sym.Int64("j"), sym.Int64("k")}
	text := pickText("form", "$.v[([7001,7002,7003][$.n] - 7001)]", "$.v[([7001,7002,7003][$.n] - 7002)]", "$.v[([7001,7002,7003][$.n] - 7003)]", "$.v[(7001 - 7002 + 7003)]", "$.v[7001,7002,7003]", "$.v[7001:7002,7003]", "$.v[7001][7002]", "$.v[(7001),7002]", "$.v[(-7001 + 7002)]")
	if strings.HasSuffix(text, "),7002]") {
		text = "$.v[(7001)]"
	}
	m := int64(30)
	if sym.Tier() > 0 {
		m = 100000
	}
	if strings.Contains(text, ":") {
		m = 6
	}
	evalWith(text, map[string]any{"v": sym.Ident("len", m), "n": sym.Float("n", "0,1,2")}, ints, nil)
}

// C22_Reals: real literals of any value beside integers and other reals in a list, compared with any number.
// sym: weight=2
func C22_Reals() {
	e := "[7001.5, 7002.5, 3, 0.25][@.i]"
	text := pickText("form", "$[?("+e+" == @.a)]", "$[?("+e+" < @.a)]", "$[?(7001.5 == @.a && 7002.5 != @.a)]")
	m := "0,-0,1,3,0.25,4194304,-1.5,1e300"
	r := []float64{sym.Float("r", m), sym.Float("q", m)}
	if sym.Tier() > 0 {
		r = []float64{sym.Float("r", "full"), sym.Float("q", "full")}
	}
	evalWith(text, []any{map[string]any{"i": sym.Float("i", "0,1,2,3"), "a": sym.Float("a", "full")}}, nil, r)
}

// C22_Limits: integers written out around 2^21, 2^22, 2^23, 2^24, 2^31, 2^32 and 2^63, of both signs, in paths and expressions.
// sym: weight=2
func C22_Limits() {
	b := []int64{1 << 21, 1 << 22, 1 << 23, 1 << 24, 1 << 31, 1 << 32, 1<<62 + (1<<62 - 1)}[sym.Choose("limit", 7)]
	d := int64(sym.Choose("d", 5)) - 2
	if b == 1<<62+(1<<62-1) {
		d -= 3
	}
	n := strconv.FormatInt(b+d, 10)
	e := strconv.FormatInt(b-3, 10)
	o := map[string]any{n: "it", "-" + n: "minus", strconv.FormatInt(b+d-(1<<23), 10): "wrapped", "0": "zero"}
	text := pickText("form", "$.v[("+n+" - "+e+")]", "$.v[(-"+n+" + "+e+" + 3)]", "$.o["+n+"]", "$.o[-"+n+"]", "$.o."+n, "$.o.-"+n, "$.v[:"+n+"]", "$.v[-"+n+":2]", "$.v["+n+"]", "$.v[-"+n+"]", "$.v[::"+n+"]", "$.v[::-"+n+"]", "$.o[("+n+")]", "$.o[(-"+n+")]", "$..["+n+",0]", "$.v[?(@ < "+n+")]", "$.v[?(@ > -"+n+")]")
	checkEval(text, map[string]any{"v": []any{0.0, 1.0, 2.0, 3.0, 4.0, 5.0}, "o": o})
}

// C22_Texts: two strings of up to 2 of the bytes "a1.\x00é" each (thorough: 3), and a name, as keys and as operands.
// sym: weight=2
func C22_Texts() {
	n := 3
	if sym.Tier() > 0 {
		n = 4
	}
	s := sym.String("s", sym.Choose("ns", n), "a1. ")
	t := sym.String("t", sym.Choose("nt", n), "a1.A")
	text := pickText("form", "$['"+s+"','"+t+"',a]", "$['"+s+"']['"+t+"']", "$[?('"+s+"' == '"+t+"')]", "$[?(@ == '"+s+"' || @ == \""+t+"\")]", "$..['"+s+"',\""+t+"\"]")
	m := map[string]any{"": "none", "a": "A", "1": "one", "a1": "both", ".": "dot", "aa": map[string]any{"a": "aa.a", "A": "a", "1.": 1.0}}
	checkEval(text, m)
}

// C22_Patterns: several patterns and strings in one expression.
// sym: weight=2
func C22_Patterns() {
	ps := []string{"/a/", "/b/", "'a'", "'/a/'", "/^a/", "'^a'", "/a$/", "/A/", "/\\//"}
	p, q := ps[sym.Choose("p", len(ps))], ps[sym.Choose("q", len(ps))]
	text := pickText("form", "$[?(@.a ~ "+p+" && @.b ~ "+q+")]", "$[?(@.a ~ "+p+" && !(@.a ~ "+q+"))]", "$[?(@.a ~ "+p+")][?(@ ~ "+q+")]", "$[?(@.a ~ "+p+" || @.b == 'a' || @.b ~ "+q+")]")
	checkEval(text, []any{map[string]any{"a": sym.Doc("a", "kinds=s strs=a|b|ab|/a/|A|ba"), "b": sym.Doc("b", "kinds=s strs=a|b|/|aa")}})
}

// C22_Many: 40, 300 and 700 (thorough: 5000) constants, strings, integers and reals of many sizes in turn, in one list
// or union, any one (of 40 in longer lists) looked up.
// sym: weight=3 steps=100000000
func C22_Many() {
	n := []int{40, 300, 700}[sym.Choose("n", 3)]
	if sym.Tier() > 0 {
		n = []int{40, 700, 5000}[sym.Choose("n", 3)]
	}
	k := sym.Choose("at", 40)
	if n > 40 {
		k = k * n / 40
	}
	var c []string
	for i := 0; i < n; i++ {
		v := strconv.Itoa(i)
		switch i % 5 {
		case 0:
			c = append(c, "'"+v+"'")
		case 1:
			c = append(c, strconv.Itoa(i<<20))
		case 2:
			c = append(c, v+".5")
		case 3:
			c = append(c, "'s"+v+"'")
		case 4:
			c = append(c, strconv.Itoa(i<<38))
		}
	}
	switch sym.Choose("form", 3) {
	case 0:
		checkEval("$[?(["+strings.Join(c, ",")+"][@.i] == @.a)]", []any{map[string]any{"i": float64(k), "a": sym.Doc("a", "kinds=fs num=0,2.5,1048576,33.5 strs=0|s3|s33|10")}})
	case 1:
		checkEval("$[?("+c[0]+" == @.a || "+strings.Join(c[1:], " == @.b || ")+" == @.a)]", []any{map[string]any{"a": sym.Doc("a", "kinds=fs num=0,2.5,1048576,33.5,6291456 strs=0|s3|s33|10"), "b": "s8"}})
	case 2:
		var u []string
		m := map[string]any{}
		for i, x := range c {
			if i%5 != 2 {
				u = append(u, x)
				m[strings.Trim(x, "'")] = float64(i)
			}
		}
		m["0"] = sym.Doc("v", "kinds=nf num=1")
		checkEval("$["+strings.Join(u, ",")+"]", m)
	}
}

// C22_NearReals: pairs out of 24 real and integer literals, many equal as floats of fewer bits or to few digits, as
// they are spelled, each compared with itself read from the document.
func C22_NearReals() {
	rs := []string{"0.1", "0.10000000149011612", "0.1000000000000001", "0.30000000000000004", "0.3", "1.0", "1.00000001", "1.0000000000000002", "16777216.0", "16777217.0", "16777217",
		"16777216", "3.4e+38", "3.5e+38", "1.0e-50", "1.0e-60", "0.0", "4194304.5", "4194304", "9007199254740993", "9007199254740992.0", "123456.7", "123456.70001", "1.5"}
	p, q := rs[sym.Choose("p", len(rs))], rs[sym.Choose("q", len(rs))]
	pf, _ := strconv.ParseFloat(p, 64)
	qf, _ := strconv.ParseFloat(q, 64)
	text := pickText("form", "$[?("+p+" == @.p && "+q+" == @.q)]", "$[?("+p+" < "+q+")]", "$[?(@.p != @.q && "+p+" == "+q+")]", "$[?("+p+" - @.p == "+q+" - @.q)]")
	checkEval(text, []any{map[string]any{"p": pf, "q": qf}})
}
