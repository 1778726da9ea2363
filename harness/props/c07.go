package props

import (
	"verifharness/sym"
)

func slicePath(prefix, suffix string) (string, []int64) {
	var ints []int64
	part := func(name, hole string) string {
		ints = append(ints, 0)
		if sym.Choose(name+"?", 2) == 0 {
			return ""
		}
		ints[len(ints)-1] = sym.Int64(name)
		return hole
	}
	text := prefix + part("start", "7001") + ":" + part("end", "7002")
	if sym.Choose("stride?", 2) == 1 {
		ints = append(ints, sym.Int64("stride"))
		text += ":7003"
	}
	return text + suffix, ints
}

// C07_Small: start, end and stride any 64-bit integer or absent, arrays of up to 4 elements (thorough: 7).
// sym: weight=3
func C07_Small() {
	max := int64(4)
	if sym.Tier() > 0 {
		max = 7
	}
	text, ints := slicePath("$[", "]")
	evalWith(text, sym.Ident("n", max), ints, nil)
}

// C07_Large: start, end and stride any 64-bit integer or absent, arrays of 17, 100, 1000 or 100000
// elements, slices of up to 2 elements.
func C07_Large() {
	text, ints := slicePath("$[", "]")
	n := []int64{17, 100, 1000, 100000}[sym.Choose("size", 4)]
	doc := sym.Ident("n", n)
	sym.Assume(int64(len(doc)) == n)
	if len(ints) < 3 {
		ints = append(ints, 1)
	}
	// few steps fit between the bounds
	lo, hi := int64(0), n
	if text[2] != ':' {
		lo = ints[0]
	}
	if ints[1] != 0 {
		hi = ints[1]
	}
	if ints[2] > 0 {
		sym.Assume(ints[2] >= n/2 || lo >= 0 && hi >= 0 && hi-lo <= 2 || lo < 0 && hi < 0 && hi-lo <= 2)
	} else if ints[2] < 0 {
		sym.Assume(ints[2] <= -n/2)
	}
	evalWith(text, doc, ints, nil)
}

// C07_Union: slices as union elements and under '..', arrays of up to 3 elements.
func C07_Union() {
	var text string
	var ints []int64
	switch sym.Choose("form", 3) {
	case 0:
		text, ints = slicePath("$[0,", "]")
	case 1:
		text, ints = slicePath("$..[", "]")
	case 2:
		text, ints = slicePath("$..[", ",0]")
	}
	evalWith(text, sym.Ident("n", 3), ints, nil)
}

// C07_Docs: fixed slices of any document of depth 2 (arrays, objects and scalars), alone and in sequence.
func C07_Docs() {
	text := pickText("path", "$[:]", "$[::]", "$[1:]", "$[:2]", "$[-1:]", "$[::-1]", "$[::2]", "$[2:0:-1]", "$[::0]", "$[5:]", "$[:-5]",
		"$[:][:]", "$[1:][::-1]", "$.a[:]", "$.*[1:]", "$[*][:1]", "$[:].a", "$[ 0 : 1 : 1 ]", "$[-9223372036854775806:9223372036854775807:9223372036854775807]")
	checkEval(text, sym.Doc("d", "depth=2 len=3 keys=a,0"))
}
