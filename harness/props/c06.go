package props

import "verifharness/sym"

// C06_Keys: name, string and integer steps, in dot and bracket form, one or two of them, on
// any document of depth 2, arrays of up to 3 elements, objects over 6 keys.
func C06_Keys() {
	text := pickText("path",
		"$.a", "$['a']", `$["b"]`, "$[a]", "$[0]", "$[1]", "$[2]", "$[-1]", "$[-2]", "$[-3]",
		"$.0", "$.1", "$.-1", "$['0']", "$['1']", "$['']", "$['-1']", "$.a.b", "$[0][1]", "$.a[0]", "$[1].a",
		"$[9223372036854775807]", "$[-9223372036854775806]", "$[0].-1")
	checkEval(text, sym.Doc("d", "depth=2 len=3 keys=a,b,0,1,-1, str=1 num=full"))
}

// C06_Index: every 64-bit index in [i], .i and [i,i] on an array of any length up to 1000000, and
// in ..[i] and ..i on arrays of up to 3 elements.
func C06_Index() {
	text := pickText("form", "$[7001]", "$.7001", "$[7001,7002]", "$..[7001]", "$..7001")
	n := int64(1000000)
	if text[2] == '.' || text[1] == '.' && text[2] == '[' {
		n = 3
	}
	evalWith(text, sym.Ident("n", n), []int64{sym.Int64("i"), sym.Int64("j")}, nil)
}

// C06_Digits: an integer step of up to 3 digits with optional minus sign on an object
// whose keys are integers in various spellings.
func C06_Digits() {
	doc := map[string]any{"7": 1.0, "-7": 2.0, "07": 3.0, "42": 4.0, "-42": 5.0, "120": 6.0, "0": 7.0, "-0": 8.0, "00": 9.0, "+7": 10.0}
	i := sym.Choose("form", 6)
	text := []string{"$[", "$[-", "$..[-", "$.", "$.-", "$.."}[i]
	text += sym.String("d", 1+sym.Choose("n", 3), "0123456789")
	if i < 3 {
		text += "]"
	}
	checkEval(text, doc)
}

// C06_Names: any name of up to 3 letters, digits, underscores and minus signs, and any quoted
// string of up to 2 plain characters, on an object with keys of similar spelling.
func C06_Names() {
	doc := map[string]any{"a": 1.0, "A": 2.0, "ab": 3.0, "aB": 4.0, "a-b": 5.0, "_": 6.0, "a1": 7.0, "": 8.0, "abc": 9.0, "length": 10.0, " a": 11.0, "z": nil}
	var text string
	switch sym.Choose("form", 5) {
	case 0:
		text = "$." + name(3)
	case 1:
		text = "$[" + name(3) + "]"
	case 2:
		text = "$.." + name(2)
	case 3:
		text = "$['" + quoted() + "']"
	case 4:
		text = `$["` + quoted() + `"]`
	}
	checkEval(text, doc)
}

// anyName is a name of up to 12 (thorough: 24) bytes, each any letter, digit (but the first), underscore or byte beyond ASCII.
func anyName() string {
	const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
	return string([]byte{sym.ByteIn("c", letters)}) + sym.String("s", sym.Choose("len", tier(12, 24)), letters+"0123456789\x80\xe9\xff")
}

// C06_AnyName: a name of up to 12 (thorough: 24) arbitrary bytes of names, as a step and in an expression, on objects
// that have such a member, or one whose name is longer or shorter.
func C06_AnyName() {
	k := anyName()
	text := pickText("form", "$.%", "$['%']", "$[%]", "$..%", "$..['%']", "$.*.%", "$['%',a]", "$[?(@.%)]", "$[?(@['%'] == 2)]", "$[?(@.% == @.a)].%")
	l := len(k)
	n := sym.Choose("other", 3)
	m := map[string]any{"a": 1.0}
	m[[]string{k, k + "a", k[:l-1]}[n]] = 2.0
	for i := 0; i < len(text); i++ {
		if text[i] == '%' {
			text = text[:i] + k + text[i+1:]
			i += l - 1
		}
	}
	checkEval(text, map[string]any{"x": m, k: map[string]any{"a": nil, k: []any{}}})
}

func name(n int) string {
	s := string([]byte{sym.ByteIn("c", "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_")})
	return s + sym.String("s", sym.Choose("len", n), "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-")
}

func quoted() string {
	return sym.String("q", sym.Choose("len", 3), " !#$%&()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~")
}

// C06_After: member and index steps applied to none, one or several values, and the same step twice.
// sym: weight=2
func C06_After() {
	s := pickText("step", ".a", "['a']", "[0]", "[1]", "[-1]", "[-2]", ".0", ".1", ".-1", ".-2", "['']", "['-1']", "[a]")
	pre := pickText("before", "$.*", "$[*]", "$[0,1]", "$..a", "$[::-1]", "$.*.*", "$.a", "$[?(@)]", "$..*")
	post := pickText("after", "", s, ".*")
	checkEval(pre+s+post, sym.Doc("d", "depth=2 kinds=nsao leaf=ns top=ao len=2 keys=a,-1, strs=ab"))
}
