package props

import (
	"github.com/forsyth/jsonpath"
	"github.com/forsyth/jsonpath/paths"

	"verifharness/ref"
	"verifharness/sym"
)

// checkPath compares ParsePath and Compile with the reference grammar on one text.
func checkPath(text string) {
	sym.Note("text", text)
	want, ok := ref.ParsePath(text)
	got, err := paths.ParsePath(text)
	if ok {
		sym.Assert(err == nil, "path of the grammar rejected")
		sym.Assert(ref.SameSteps(got, want), "parsed steps differ from the text")
	} else {
		sym.Assert(err != nil, "text outside the grammar accepted")
		sym.Assert(got == nil, "a path with an error")
	}
	_, err = jsonpath.Compile(text)
	sym.Assert((err == nil) == ok, "Compile and the grammar differ")
	if ok {
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
}

// C02_Bytes: any 4 bytes (thorough: 5) after $.
// sym: weight=2
func C02_Bytes() { checkPath("$" + sym.String("t", tier(4, 5), "")) }

// C02_Steps: 7 bytes (thorough: 9) of ".[]*a0-'" and a space after $.
// sym: weight=3
func C02_Steps() { checkPath("$" + sym.String("t", tier(7, 9), ".[]*a0-' ")) }

// C02_Subscript: 5 bytes (thorough: 7) between brackets, of the characters of unions, slices and wildcards.
// sym: weight=3
func C02_Subscript() {
	checkPath(pickText("start", "$[", "$..[") + sym.String("t", tier(5, 7), ":,-*1a'?( ") + "]")
}

// C02_Slice: slices and unions of slices, 5 bytes (thorough: 6) after a start or an expression.
// sym: weight=2
func C02_Slice() {
	checkPath(pickText("start", "$[1", "$[-2:", "$[(1)", "$[(@.a):", "$[::", "$['k',", "$[a,:(") + sym.String("t", tier(5, 6), ":,-0()]' ") + pickText("end", "]", ":]", ")]"))
}

// C02_Space: one to three bytes of white space or anything else (thorough: two places) between the tokens of 12 paths.
// sym: weight=3
func C02_Space() {
	s := pickText("path", somePaths...)
	i := sym.Choose("at", len(s)+1)
	checkPath(s[:i] + sym.String("w", sym.Choose("n", 2)+1, " \t\n\v\f\r\x00\xa0x") + s[i:])
}

// C02_Changed: 12 paths with any one byte replaced, inserted, or left out, or cut short anywhere.
// sym: weight=4
func C02_Changed() { checkPath(mutate("m", pickText("path", somePaths...))) }

// C02_Twice: 5 paths changed in two places.
// sym: weight=4 thorough
func C02_Twice() {
	checkPath(mutate("m", mutate("n", pickText("path", "$.a[0]..b", "$['x',1:2,c]", "$..[(@.a)].*", "$[?(@)][::2]", "$.-1..*"))))
}

// C02_Members: any 2 bytes in the places of names, at the start and in the middle, after '.', '..' and '['.
// sym: weight=2
func C02_Members() {
	h := sym.String("t", 2, "")
	checkPath(pickText("start", "$.", "$..", "$[", "$.x", "$..x", "$[x", "$['a',", "$.*", "$.1") + h + pickText("end", "", "]", ".y", "z]"))
}

// C02_Numbers: integers near the limits of 15, 16, 22, 23, 31, 32, 53 and 63 bits, their last two digits any, in every place of a path.
// sym: weight=2
func C02_Numbers() {
	d := pickText("digits", "", "00", "327", "655", "41943", "83886", "21474836", "42949672", "90071992547409", "92233720368547758")
	d += sym.String("d", 2, "0123456789")
	checkPath(pickText("start", "$[", "$[-", "$.", "$.-", "$..", "$[:", "$[::-", "$[(1):-", "$[-1,", "$[-2:", "$[x,0:-") + d + pickText("end", "", "]"))
}
