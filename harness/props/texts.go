package props

import "verifharness/sym"

// mutate changes one of the texts in one place: a byte replaced, a byte inserted (any byte in both
// cases), a byte left out, or the rest cut off.
func mutate(name, s string) string {
	switch sym.Choose(name+".how", 4) {
	case 0:
		i := sym.Choose(name+".at", len(s))
		return s[:i] + string([]byte{sym.Byte(name + ".byte")}) + s[i+1:]
	case 1:
		i := sym.Choose(name+".at", len(s)+1)
		return s[:i] + string([]byte{sym.Byte(name + ".byte")}) + s[i:]
	case 2:
		i := sym.Choose(name+".at", len(s))
		return s[:i] + s[i+1:]
	}
	return s[:sym.Choose(name+".at", len(s))]
}

// tier picks the bound for the tier.
func tier(quick, thorough int) int {
	if sym.Tier() > 0 {
		return thorough
	}
	return quick
}

var somePaths = []string{
	"$.a-b.c1['x']",
	"$..name[*].*",
	"$[0,-1,'k',id,1:2]",
	"$..[1:-2:3]..*",
	"$ . a [ 'k' , \"l\" ]",
	"$[?(@.a==1)].b",
	"$[(@.length-1)]",
	"$.(@.a)..[?(@)]",
	"$[(@.i):(1):( 2 )]",
	"$..-1.-2[::]",
	"$[:,::,1::]",
	"$..[*]..[a,b]",
}
