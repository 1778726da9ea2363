package props

import (
	"strconv"
	"strings"

	"verifharness/sym"
)

// Sizes just above the usual limits of buffers and tables.
var sizes = []int{3, 5, 9, 11, 17, 21, 33, 51, 65, 101, 129, 257, 300}
var bigSizes = []int{513, 1001, 1025, 2049, 4097}

func size(name string) int {
	l := sizes
	if sym.Tier() > 0 {
		l = append(append([]int{}, sizes...), bigSizes...)
	}
	return l[sym.Choose(name, len(l))]
}

// long is a text of n bytes, all a, but for c at one of three places, or, if c is 0, nowhere.
func long(n int, at int, c byte) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a'
	}
	if c != 0 {
		b[[]int{0, n / 2, n - 1}[at]] = c
	}
	return string(b)
}

// C05_LongText: string literals, keys and patterns of up to 300 (thorough: 4097) bytes, with an escape, a byte that is not
// ASCII or a quote at the start, in the middle or at the end.
// sym: steps=100000000
func C05_LongText() {
	n := size("n")
	at := sym.Choose("at", 3)
	i := []int{0, n / 2, n - 1}[at]
	a := long(n, 0, 0)
	how := sym.Choose("how", 6)
	mid := []string{"a", "\\n", "\u00e9", "\\u00e9", "\\'", "\\ud83d\\ude00"}[how]
	val := []string{"a", "\n", "\u00e9", "\u00e9", "'", "\U0001F600"}[how]
	lit := "'" + a[:i] + mid + a[i+1:] + "'"
	want := a[:i] + val + a[i+1:]
	switch sym.Choose("form", 4) {
	case 0:
		checkEval("$["+lit+"]", map[string]any{want: 1.0, a: 2.0, want + "a": 3.0})
	case 1:
		checkEval("$[?(@ == "+lit+")]", []any{want, a, want + "a", want[1:]})
	case 2:
		checkEval("$[?(@["+lit+"])]", []any{map[string]any{want: 1.0}, map[string]any{want + "a": 1.0}})
	case 3:
		if how != 0 && how != 2 {
			lit = "'" + a + "'"
			mid = "a"
		}
		checkEval("$[?(@ ~ /^"+a[:i]+mid+a[i+1:]+"$/)]", []any{want, a, a + "a", a[1:]})
	}
}

// C05_LongNumber: integers and reals of many digits with leading and trailing zeros.
func C05_LongNumber() {
	n := size("n")
	z := strings.Repeat("0", n)
	e := pickText("lit", z+"7", z+"7.5", "7.5"+z, "0."+z+"7", "7"+z+".0", z+".5", z+"9223372036854775807", z, "1."+strings.Repeat("3", n), strings.Repeat("9", n)+".0", "0."+strings.Repeat("9", n), "1.0e"+z+"2", "12345678901234567890123."+z+"1",
		"7.5"+z+"e0", "75."+z+"E-"+z+"1", z+"0.75e+"+z+"1", "7."+z+"e-0", "1."+z+"e2", "1."+z+"e10", "0."+z[1:]+"1e"+strconv.Itoa(n))
	checkEval(pickText("form", "$[?(@ == "+e+")]", "$[?(@ < "+e+")]", "$[?(@ >= "+e+")]"), []any{0.0, 7.0, 7.5, 0.5, 1.0, 100.0, 1.3333333333333333, 9223372036854775807.0, 12345678901234567890123.0})
}

// C06_LongKeys: members whose names are of up to 300 (thorough: 4097) bytes and differ in one.
// sym: steps=100000000
func C06_LongKeys() {
	n := size("n")
	at := sym.Choose("at", 3)
	k, l := long(n, at, 'b'), long(n, at, []byte{0, 'c', '-', '_', '0', 0xc3}[sym.Choose("c", 6)])
	if sym.Choose("same", 2) == 1 {
		l = k
	}
	checkEval(pickText("form", "$."+k, "$['"+k+"']", "$..*."+k, "$.x."+k, "$.x['"+k+"']", "$.."+k), map[string]any{l: 1.0, "a": 2.0, "x": map[string]any{l: 3.0, l + "a": 4.0, l[1:]: 5.0}})
}

// nested is v in n arrays, objects or both in turn.
func nested(kind, n int, v any) any {
	for i := 0; i < n; i++ {
		if kind == 0 || kind == 2 && i%2 == 0 {
			v = []any{v}
		} else {
			v = map[string]any{"a": v}
		}
	}
	return v
}

// C11_Long: 3 to 300 (thorough: 4097) steps of the same kind, or two kinds in turn, on a nest of as many levels, or one
// more or less.
// sym: steps=400000000
func C11_Long() {
	n := size("n")
	kind := sym.Choose("kind", 3)
	a := pickText("arr", "[0]", "[*]", "[-1]", "[0,1]", "[:]", "[?(true)]", "[(@.length)]", "[::-1]")
	o := pickText("obj", ".a", ".*", "['a']", "[?(@ != 1)]")
	if n > 40 && (a == "[?(true)]" || o == "[?(@ != 1)]") && sym.Tier() == 0 {
		n = 40
	}
	text := "$"
	for i := n - 1; i >= 0; i-- {
		if kind == 0 || kind == 2 && i%2 == 0 {
			text += a
		} else {
			text += o
		}
	}
	checkEval(text, nested(kind, n+sym.Choose("levels", 3)-1, []any{1.0, nil}))
}

// C11_Nests: several '..' in a path on nests of up to 9 levels.
func C11_Nests() {
	n := []int{1, 2, 3, 5, 9}[sym.Choose("n", 5)]
	s := pickText("step", "..a", "..[0]", "..*", "..[?(@.a)]", "..['a',0]")
	m := 1 + sym.Choose("m", 3)
	checkEval("$"+strings.Repeat(s, m), nested(sym.Choose("kind", 3), n, []any{1.0, map[string]any{"a": nil}}))
}

// C12_LongText: equality, order and membership of strings of up to 300 (thorough: 4097) bytes that differ in one place,
// in length, or not at all.
// sym: steps=100000000
func C12_LongText() { longText("$[?(@.a == @.b)]", "$[?(@.a != @.b)]", "$[?([@.a] == [@.b])]") }

// C13_LongText: the order of strings of up to 300 (thorough: 4097) bytes that differ in one place or in length.
// sym: steps=100000000
func C13_LongText() {
	longText("$[?(@.a < @.b)]", "$[?(@.a <= @.b)]", "$[?(@.a > @.b)]", "$[?(@.a >= @.b)]")
}

// C16_LongText: in, nin and ~ with strings of up to 300 (thorough: 4097) bytes.
// sym: steps=100000000
func C16_LongText() {
	longText("$[?(@.a in [@.b])]", "$[?(@.a nin [1, @.b])]", "$[?(@.a ~ @.b)]", "$[?(@.b ~ @.a)]")
}

// C17_LongText: functions of strings of up to 300 (thorough: 4097) bytes.
// sym: steps=100000000
func C17_LongText() {
	longText("$[?(contains(@.a, @.b))]", "$[?(starts_with(@.a, @.b))]", "$[?(ends_with(@.a, @.b))]", "$[?(length(@.a) == length(@.b))]", "$[?(max(@.a, @.b) == @.a)]", "$[?(min(@.a, @.b) == @.a)]", "$[?(contains([@.a], @.b))]", "$[?(@.a.length > @.b.length)]", "$[?(tokenize(@.a, 'b')[0] == @.b)]", "$[?(tokenize(@.a, 'b')[-1] == @.b)]", "$[?(starts_with(@.b, @.a))]", "$[?(contains(@.b, @.a))]", "$[?(ends_with(@.b, @.a))]")
}

func longText(forms ...string) {
	n := size("n")
	at := sym.Choose("at", 3)
	s := long(n, at, []byte{'b', 0, 'A'}[sym.Choose("c", 3)])
	t := long(n, at, 'b')
	switch sym.Choose("t", 4) {
	case 1:
		t = t[1:]
	case 2:
		t = t[:n-1]
	case 3:
		t = t[:n/2] + "\u00e9" + t[n/2+1:]
	}
	checkEval(pickText("form", forms...), []any{map[string]any{"a": s, "b": t}})
}

// C12_Deep: equality of nests of up to 300 (thorough: 4097) levels that differ at the bottom, in depth, or not at all.
// sym: steps=100000000
func C12_Deep() {
	n := size("n")
	kind := sym.Choose("kind", 3)
	v := []any{1.0, "1", nil, true, "a", roomy(), map[string]any{}}
	a := nested(kind, n, v[sym.Choose("a", 7)])
	b := nested(kind, n+sym.Choose("deeper", 2), v[sym.Choose("b", 7)])
	checkEval(pickText("form", "$[?(@.a == @.b)]", "$[?(@.a != @.b)]", "$[?(@.a in [@.b])]", "$[?(contains([1,@.b], @.a))]"), []any{map[string]any{"a": a, "b": b}})
}

// row is an array of n numbers and strings of ascending value with v at one of three places.
func row(n int, at int, v any) []any {
	a := make([]any, n)
	for i := range a {
		a[i] = float64(i)
	}
	a[[]int{0, n / 2, n - 1}[at]] = v
	return a
}

// C16_LongList: in and nin on arrays of the document and in the path of up to 300 (thorough: 4097) elements.
// sym: steps=100000000
func C16_LongList() {
	n := size("n")
	l := row(n, sym.Choose("at", 3), []any{"x", nil, -1.0, true, 0.5}[sym.Choose("v", 5)])
	a := []any{"x", nil, -1.0, true, 0.5, 0.0, float64(n - 1), float64(n), "2", float64(n - 2)}[sym.Choose("a", 10)]
	text := pickText("form", "$[?(@.a in @.l)]", "$[?(@.a nin @.l)]", "$[?(@.a in %)]", "$[?(@.a nin %)]")
	if strings.Contains(text, "%") {
		t := make([]string, n)
		for i := range t {
			t[i] = "@.l[" + strconv.Itoa(i) + "]"
			if n > 40 && i%2 == 0 {
				t[i] = strconv.Itoa(i)
			}
		}
		text = replace(text, "["+strings.Join(t, ",")+"]")
	}
	checkEval(text, []any{map[string]any{"a": a, "l": l}})
}

// C17_LongList: the value of functions on arrays of up to 300 (thorough: 4097) numbers or strings, and with as many arguments.
// sym: steps=100000000
func C17_LongList() {
	n := size("n")
	l := row(n, sym.Choose("at", 3), []any{-1.0, 0.5, 1e6, "x", true}[sym.Choose("v", 5)])
	if sym.Choose("texts", 2) == 1 {
		for i := range l {
			if f, ok := l[i].(float64); ok {
				l[i] = strconv.Itoa(int(f))
			}
		}
	}
	f := pickText("f", "max", "min", "sum", "prod", "avg", "length", "max,", "min,", "contains")
	e := f + "(@.l)"
	if f == "contains" {
		e = "contains(@.l, " + pickText("what", "-1", "0.5", "'x'", "2", "'2'", strconv.Itoa(n-1), strconv.Itoa(n)) + ")"
	} else if len(f) == 4 && f[3] == ',' {
		t := make([]string, n)
		for i := range t {
			t[i] = "@.l[" + strconv.Itoa(i) + "]"
		}
		e = f[:3] + "(" + strings.Join(t, ",") + ")"
	}
	doc := []any{map[string]any{"l": l}}
	checkValueOf(e, doc)
}

// C08_Wide: unions of up to 300 (thorough: 4097) indices, names and slices in an irregular order, on an array and an object.
// sym: steps=100000000
func C08_Wide() {
	n := size("n")
	t := make([]string, n)
	m := map[string]any{}
	kind := sym.Choose("kind", 4)
	for i := range t {
		k := (i*7 + 3) % (n + 2)
		t[i] = strconv.Itoa(k)
		if kind == 1 || kind == 2 && i%2 == 0 {
			t[i] = "'k" + t[i] + "'"
		} else if kind == 3 && i%3 == 0 {
			t[i] = t[i] + ":" + strconv.Itoa(k+2)
		} else if i%5 == 4 {
			t[i] = "-" + t[i]
		}
		m["k"+strconv.Itoa(k)] = float64(i)
	}
	text := pickText("form", "$[%]", "$..[%]", "$.*[%]")
	checkEval(replace(text, strings.Join(t, ",")), []any{row(n, 1, "x"), m}[sym.Choose("doc", 2)])
}

// C10_Chain: 2 to 17 (thorough: 65) filters in a row on a nest of arrays with mixed elements.
// sym: steps=100000000
func C10_Chain() {
	n := []int{2, 3, 5, 9, 17, 33, 65}[sym.Choose("n", tier(5, 7))]
	f := pickText("filter", "[?(@)]", "[?(@ != 1)]", "[?(@[0])]", "[?(@.a || @)]", "[?(@ == $)]", "[?(true)]")
	checkEval("$"+strings.Repeat(f, n), nested(sym.Choose("kind", 3), n+sym.Choose("levels", 3)-1, []any{1.0, nil, []any{2.0}}))
}

// counts are numbers of results, even and odd, around powers of two and ten.
var counts = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 300}

func count(name string) int {
	l := counts
	if sym.Tier() > 0 {
		l = append(append([]int{}, counts...), 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2048, 4096, 4097)
	}
	return l[sym.Choose(name, len(l))]
}

// C11_Many: a step of 20 kinds applied to 1 to 300 (thorough: 4097) results, elements or members, one of which is of
// another kind than the rest, and after it one more step of 3.
// sym: steps=100000000 weight=2
func C11_Many() {
	n := count("n")
	at := []int{n / 2, n - 1}[sym.Choose("at", 2)]
	odd := []any{nil, []any{}, map[string]any{"a": []any{7.0}}, []any{[]any{8.0, 9.0, 10.0}, 5.0}}[sym.Choose("odd", 4)]
	text := "$" + pickText("first", ".*", "[:]", "..x") + pickText("step", "[0]", "[-1]", ".a", "['a']", ".*", "[::-1]", "[1:]", "[0,1]", "[0,-1,'a']", "[?(@)]", "[?(@ > 3)]", "..[0]", "..*", "..a", "[(0)]", "[('a')]", "..[?(@.length > 1)]", "..[0,1]", "[5]", "") +
		pickText("last", "", ".*")
	a := make([]any, n)
	for i := range a {
		a[i] = []any{float64(i), []any{float64(i)}}
		if i%3 == 2 {
			a[i] = map[string]any{"a": []any{float64(i)}}
		}
	}
	a[at] = odd
	for i := range a {
		a[i] = map[string]any{"x": a[i]}["x"]
	}
	var doc any = a
	if text[1] == '.' && text[2] == '.' {
		for i := range a {
			a[i] = map[string]any{"x": a[i]}
		}
	} else if n < 12 && sym.Choose("object", 2) == 1 && text[2] == '*' {
		m := map[string]any{}
		for i := range a {
			m["k"+strconv.Itoa(i)] = a[i]
		}
		doc = m
	}
	checkEval(text, doc)
}

// C10_Many: filters over arrays and objects of 1 to 300 (thorough: 4097) candidates, of several kinds, one of which
// is another.
// sym: steps=100000000
func C10_Many() {
	n := count("n")
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	m := map[string]any{}
	a := make([]any, n)
	for i := range a {
		a[i] = []any{float64(i % 5), "s", []any{float64(i)}, map[string]any{"a": float64(i % 4)}, true, nil}[i*7%6]
	}
	a[at] = []any{nil, 0.0, "", map[string]any{"a": 1.0}, []any{}}[sym.Choose("odd", 5)]
	text := pickText("form", "$[?(@)]", "$[?(!@)]", "$[?(@.a)]", "$[?(@ == 2)]", "$[?(@ > 1 || @.length > 0)]", "$[?(true)]", "$..[?(@.length)]", "$[?(@ in [1,'s'])].a", "$[?(@.a < 2)].a")
	if sym.Choose("object", 2) == 1 {
		for i := range a {
			m["k"+strconv.Itoa(i)] = a[i]
		}
		checkEval(text, m)
		return
	}
	checkEval(text, a)
}

// C12_WideObjects: objects of 1 to 300 (thorough: 4097) members that are equal, or differ in the value, the name, or the
// presence of one member of either, alone, within an array, or as values of a member.
// sym: steps=100000000 tries=40
func C12_WideObjects() {
	n := count("n")
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	mk := func() map[string]any {
		m := map[string]any{}
		for i := range n {
			m["k"+strconv.Itoa(i)] = float64(i)
		}
		return m
	}
	x, y := mk(), mk()
	k := "k" + strconv.Itoa(at)
	switch sym.Choose("how", 6) {
	case 1:
		y[k] = -1.0
	case 2:
		y[k] = nil
	case 3:
		delete(y, k)
	case 4:
		delete(y, k)
		y["other"] = float64(at)
	case 5:
		y[k] = strconv.Itoa(at) // equal by value
	}
	var a, b any = x, y
	switch sym.Choose("in", 3) {
	case 1:
		a, b = []any{0.0, x}, []any{0.0, y}
	case 2:
		a, b = map[string]any{"k": x}, map[string]any{"k": y}
	}
	if sym.Choose("swap", 2) == 1 {
		a, b = b, a
	}
	checkEval(eqForm(), []any{map[string]any{"a": a, "b": b}})
}

// C06_LongDigits: integers around the powers of two and ten up to 2^63, in 9 forms of a step, on an object with members of
// these names, of their neighbours, of the number modulo 2^32, and of its spellings as a real.
func C06_LongDigits() {
	var v uint64 = 1
	if e := sym.Choose("e", 62+18); e < 62 {
		v <<= e + 1
	} else {
		for range e - 61 {
			v *= 10
		}
	}
	v += uint64(sym.Choose("d", 3)) - 1
	if v > 1<<63-2 {
		v = 1<<63 - 2
	}
	neg := pickText("sign", "", "-")
	t := neg + strconv.FormatUint(v, 10)
	m := map[string]any{t: 1.0}
	f := float64(v)
	if neg != "" {
		f = -f
	}
	for _, k := range []string{neg + strconv.FormatUint(v+1, 10), neg + strconv.FormatUint(v-1, 10), strconv.FormatInt(int64(int32(v)), 10), strconv.FormatUint(v&0xffffffff, 10), strconv.FormatFloat(f, 'g', -1, 64), strconv.FormatFloat(f, 'f', 1, 64), "0" + t, strconv.FormatUint(v, 16)} {
		if _, ok := m[k]; !ok {
			m[k] = 2.0
		}
	}
	text := replace(pickText("form", "$[%]", "$.%", "$..%", "$..[%]", "$[%,'a']", "$.*[%]", "$['%']", "$[(%)]", "$[?(@[%] == 1)]"), t)
	if sym.Choose("doc", 2) == 1 {
		checkEval(text, []any{m, 3.0})
		return
	}
	checkEval(text, m)
}
