package props

import "verifharness/sym"

var elements = []string{"0", "-1", "'a'", "b", "1:", "::-1", "5", "\"0\"", ":", "1", "-3", "::2", "'b'", "a", "'x'", "0:1"}

// union spells a union of n elements out of the first k of the list.
func union(n, k int) string {
	s := "["
	for i := 0; i < n; i++ {
		if i > 0 {
			s += ","
		}
		s += elements[sym.Choose("e"+string(rune('0'+i)), k)]
	}
	return s + "]"
}

// C08_Pairs: unions of any 2 of 16 elements (integers, names, strings, slices) on any document of depth 1,
// arrays of up to 3 elements.
// sym: weight=2
func C08_Pairs() {
	checkEval("$"+union(2, 16), sym.Doc("d", "depth=1 len=3 keys=a,b,0,x num=int"))
}

// C08_Triples: unions of 3 of 8 elements (thorough: 16), arrays of up to 2 elements (thorough: 4).
// sym: weight=3
func C08_Triples() {
	if sym.Tier() > 0 {
		checkEval("$"+union(3, 16), sym.Doc("d", "depth=1 len=4 keys=a,b,0 num=int"))
		return
	}
	checkEval("$"+union(3, 8), sym.Doc("d", "depth=1 len=2 keys=a,0 num=int"))
}

// C08_Inputs: unions of 2 of 8 elements applied to several values, and followed by another step.
// sym: weight=3
func C08_Inputs() {
	u := union(2, 8)
	pre := []string{"$[*]", "$.*", "$[0,1]", "$..", "$[::-1]", "$.a"}[sym.Choose("before", 6)]
	post := []string{"", "[0]", ".*", "[0,'a']"}[sym.Choose("after", 4)]
	d := "depth=2 min=1 len=2 keys=a,0 leaf=n num=int top=ao"
	if sym.Tier() > 0 {
		d = "depth=2 len=3 keys=a,0 num=int"
	}
	checkEval(pre+u+post, sym.Doc("d", d))
}

// C08_Long: unions of 12, 17 and 40 equal or alternating elements.
func C08_Long() {
	n := []int{12, 17, 40}[sym.Choose("n", 3)]
	a := elements[sym.Choose("a", 8)]
	b := elements[sym.Choose("b", 8)]
	s := "["
	for i := 0; i < n; i++ {
		if i > 0 {
			s += ","
		}
		if i%3 == 1 {
			s += b
		} else {
			s += a
		}
	}
	checkEval("$"+s+"]", sym.Doc("d", "depth=1 top=ao len=2 keys=a,0 num=int"))
}

// C08_Index: two integers, any 64-bit values, in a union on an array of any length up to a million.
func C08_Index() {
	evalWith("$[7001,7002,7001]", sym.Ident("n", 1000000), []int64{sym.Int64("i"), sym.Int64("j")}, nil)
}
