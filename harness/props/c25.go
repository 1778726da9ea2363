package props

import (
	"strings"

	"github.com/forsyth/jsonpath"

	"verifharness/ref"
	"verifharness/sym"
)

// alike tells that two paths give the same results on the document, or both an error. The results of a path come in the
// order of the arrays, but objects have none.
func alike(doc any, ordered bool, s, t string) {
	sym.Note("path", s)
	sym.Note("other", t)
	p, q := mustPath(s), mustPath(t)
	r, err := p.Eval(doc)
	u, err2 := q.Eval(doc)
	sym.Note("document", doc)
	sym.Assert((err == nil) == (err2 == nil), "only one of the two fails")
	sym.Note("results", r)
	sym.Note("other results", u)
	if ordered {
		sym.Assert(sameList(r, u), "different results")
	} else {
		sym.Assert(sameBag(r, u), "different results")
	}
	if len(r) > 0 {
		sym.Reach("results")
	}
	sym.Reach("compared")
}

// settled tells whether the documentation says what the path gives on the document.
func settled(doc any, text string) bool {
	steps, _ := ref.ParsePath(text)
	ev := &ref.Eval{Root: doc}
	ev.Run(steps)
	return !ev.Open
}

var lazyDoc = "depth=2 kinds=nfsao leaf=nfs top=ao len=2 keys=a,1 num=0,1 strs=a|x"

var arrayDoc = "depth=2 kinds=nfsao leaf=fs top=a len=3 keys=a num=0,1 strs=a|x"

// C25_Steps: 30 pairs of paths that spell the same steps, on any document of depth 2.
// sym: weight=3
func C25_Steps() {
	l := []string{"$.a|$['a']", "$.a|$[\"a\"]", "$.a|$[a]", "$.a|$['\\u0061']", "$.a|$[('a')]", "$.a|$.('a')", "$.a|$['a']", "$..a|$..['a']", "$..a|$..[a]", "$..a|$..[\"a\"]", "$.*|$[*]", "$..*|$..[*]", "$.*.*|$[*][*]", "$..*.a|$..[*]['a']",
		"$.1|$[1]", "$[1]|$[(1)]", "$.1|$.(1)", "$..1|$..[1]", "$['a',1]|$[\"a\", 1 ]", "$[a,1]|$['a',1]", "$..['a',1]|$..[a,1]", "$[?(@.a)]|$[?(@['a'])]", "$[?(@[1])]|$[?(@[1.0])]", "$.a.a|$['a']['a']", "$..a.a|$..a['a']", "$.*.1|$[*][1]", "$[?(@.a)].a|$[ ?( @ . a ) ] . a", "$[?($.a)]|$[?($['a'])]", "$.a..a|$['a']..[a]"}
	s, t := cut(l[sym.Choose("pair", len(l))])
	doc := sym.Doc("d", lazyDoc)
	if len(s) > 3 && s[2] == '?' && !(settled(doc, s) && settled(doc, t)) {
		sym.Reach("not settled") // a name on an array
		return
	}
	alike(doc, false, s, t)
}

// cut splits s at its first bar.
func cut(s string) (string, string) {
	for i := 0; i < len(s); i++ {
		if s[i] == '|' {
			return s[:i], s[i+1:]
		}
	}
	panic("harness: no bar in " + s)
}

// spelled is a choice of two ways to write the same step.
func spelled(name string) (s, t string) {
	l := []string{".a|['a']", ".a|[a]", ".a|[\"a\"]", ".a|.('a')", "..a|..['a']", "..a|..[a]", ".*|[*]", "..*|..[*]", "[0]|[(0)]", "..[0]|..0", "[0,'a']|[ 0 , \"a\" ]", "[:1]|[0:1:1]", "[?(@.a)]|[?((@.a))]", "..[1,a]|..[1,'a']", "[-1]|[ - 1 ]", "[a]|['\\u0061']"}
	return cut(l[sym.Choose(name, len(l))])
}

// C25_Sequences: sequences of two steps of 16 kinds, each in one of two spellings, on any document of depth 2 (thorough: also of
// three steps).
// sym: weight=3
func C25_Sequences() {
	s, t := "$", "$"
	for i := 0; i < 2+sym.Choose("more", tier(1, 2)); i++ {
		a, b := spelled("step" + digits(i))
		if sym.Choose("swap"+digits(i), 2) == 1 {
			a, b = b, a
		}
		s, t = s+a, t+b
	}
	alike(sym.Doc("d", "depth=2 kinds=fsao leaf=f top=ao len=2 keys=a num=0 strs=a"), false, s, t)
}

// C25_Selections: chains of two (thorough: three) selections after '@' or '$', each as a name or as a key, or as an integer and
// a real index, on any nest of objects and arrays of depth 2 (3).
// sym: weight=2
func C25_Selections() {
	s, t := "", ""
	n := tier(2, 3)
	for i := 0; i < n; i++ {
		a, b := cut([]string{".a|['a']", ".b|[\"b\"]", "[0]|[0.0]", "[0]|[(0)]", "['b']|[('b')]", "[-1]|[-1.0]"}[sym.Choose("sel"+digits(i), 6)])
		if sym.Choose("swap"+digits(i), 2) == 1 {
			a, b = b, a
		}
		s, t = s+a, t+b
	}
	form := pickText("form", "$[?(@%)]", "$[?($%)]", "$[?(@% == 1)]", "$[?(!@%)]", "$[?(1 in [@%])]", "$.*[?(@%)]")
	doc := sym.Doc("d", "depth=3 kinds=fao leaf=f top=ao len=1 keys=a,b num=0,1")
	s, t = fill(form, s), fill(form, t)
	if !settled(doc, s) || !settled(doc, t) {
		sym.Reach("not settled") // a name on an array
		return
	}
	alike(doc, false, s, t)
}

// C25_After: what follows a selection of an object, itself spelled two ways, whatever the selection gives: also where the key or
// name that follows is not settled (on an array), it is the same after both.
func C25_After() {
	a, b := cut([]string{".a|['a']", ".a|[\"a\"]", "['a']|[('a')]", ".a|[ 'a' ]"}[sym.Choose("first", 4)])
	then := pickText("then", ".b", "['b']", "[0]", ".length", "[-1]", "[@.a]", "[true]", "[0.5]", ".b.a", "['b'][0]")
	form := pickText("form", "$[?($%)]", "$[?($% == 1)]", "$[?(!$%)]", "$[?(1 in [$%])]", "$.*[?($%)]", "$[?(-$%)]", "$[($%)]")
	alike(sym.Doc("d", "depth=3 kinds=fsao leaf=fs top=o len=1 keys=a,b num=0,1 strs=a"), false, fill(form, a+then), fill(form, b+then))
}

// C25_Slices: 20 pairs of slices that say the same, on any array of up to 3 values, in order.
// sym: weight=2
func C25_Slices() {
	l := []string{"$[:]|$[*]", "$[::]|$[*]", "$[::1]|$[*]", "$[0:]|$[:]", "$[0::1]|$[:]", "$[:2]|$[0:2]", "$[:2]|$[0:2:1]", "$[:2]|$[:2:]", "$[-2:]|$[-2::1]", "$[::-1]|$[3::-1]", "$[0,1]|$[:2]", "$[1]|$[1:2]", "$[::2]|$[0,2]", "$[2,1,0]|$[2::-1]", "$[-1]|$[-1:]", "$[-1]|$[($.length-1)]", "$[:2,2]|$[0,1,2:3]", "$[5:]|$[1:0]"}
	s, t := cut(l[sym.Choose("pair", len(l))])
	alike(sym.Doc("d", "depth=2 kinds=nfsao leaf=fs top=a len=3 keys=a num=0,1 strs=a|x"), true, s, t)
}

// C25_Space: any white space, up to two bytes of it at a token boundary of 18 paths (thorough: at two), changes nothing.
// sym: weight=3
func C25_Space() {
	s := tokens("p", pickText("path", "$ . a", "$ .. a", "$ [ 'a' , 1 ]", "$ [ 0 : 2 : 1 ]", "$ . *", "$ .. [ a ]", "$ [ ?( @ . a == 1 ) ]", "$ [ ( @ . length - 1 ) ]", "$ [ ?( @ in [ 1 , 'a' ] ) ] . a", "$ [ ?( ! @ . a || f ( 1 , @ ) ) ]", "$ .. [ ?( @ [ 0 ] =~ /a/ && 'a' ~ 'a' ) ]", "$ . ( @ . a )", "$ [ ?( @ - - 1 == - - 2 ) ]", "$ [ ?( ! ! @ && ! - @ == - 1.5 ) ]", "$ [ ?( @ . a [ 0 ] . b [ 'a' ] in [ ] ) ]", "$ [ ?( f ( ) ) ] [ - 1 ]", "$ [ ?( 1 / 2 / @ - 0.5 % 3 >= \"a\" ) ]", "$ .. * .. [ * ] . a-b"))
	alike(sym.Doc("d", "depth=2 kinds=fsao leaf=fs top=ao len=2 keys=a num=1 strs=a"), false, s[0], s[1])
}

// tokens gives s without its blanks but where words would run together, and with white space for one or two of them.
func tokens(name, s string) [2]string {
	var l []string
	for i, j := 0, 0; i <= len(s); i++ {
		if i == len(s) || s[i] == ' ' {
			l = append(l, s[j:i])
			j = i + 1
		}
	}
	at := sym.Choose(name+".at", len(l))
	w := sym.String(name+".w", 1+sym.Choose(name+".n", 2), " \t\n\v\f\r")
	also := at
	if sym.Tier() > 0 {
		also = sym.Choose(name+".also", len(l))
	}
	var r [2]string
	for i, t := range l {
		if i > 0 && wordy(t[0]) && wordy(l[i-1][len(l[i-1])-1]) {
			r[0] += " "
			r[1] += " "
		}
		if i > 0 && (i == at || i == also) {
			r[1] += w
		}
		r[0] += t
		r[1] += t
	}
	if at == 0 {
		r[1] += w
	}
	return r
}

func wordy(c byte) bool {
	return c == '@' || c == '_' || 'a' <= c && c <= 'z' || '0' <= c && c <= '9'
}

// C25_Parentheses: parentheses that say nothing, around an expression, an operand, a callee's argument or an element.
// sym: weight=2
func C25_Parentheses() {
	f := pickText("form", "$[?(#@.a#)]", "$[?(#@.a# == 1)]", "$[?(1 == #@.a#)]", "$[?(#@.a == 1# && @)]", "$[?(@ in [#@.a#,1])]", "$[?(#@.a#[0] == 1)]", "$[?(length(#@.a#) == 1)]", "$[?(-#@.a# < 0)]", "$[?(!#@.a#)]", "$[(#@.a#)]", "$.(#@.a#)", "$[?(@[#0#])]", "$[?(#@#.a)]", "$[?(#1 + 1# == 2)]", "$[?(#@.a * 2# + 1 == 3)]", "$[?(#@.a || @# == 1)]", "$[#(0)#:2]", "$[?(@.a ~ #/a/#)]", "$[?(#'a'# in @.a)]", "$[?(#@.a - 1# - 1 == 0)]")
	n := 1 + sym.Choose("n", 2)
	if n == 2 {
		n = tier(3, 200)
	}
	one, many := "", ""
	open := true
	for i := 0; i < len(f); i++ {
		if f[i] != '#' {
			one += f[i : i+1]
			many += f[i : i+1]
			continue
		}
		if open {
			one += "("
		} else {
			one += ")"
		}
		for j := 0; j < n; j++ {
			if open {
				many += "(("
			} else {
				many += "))"
			}
		}
		open = !open
	}
	if f == "$[#(0)#:2]" {
		one, many = "$[(0):2]", "$[((0)):2]"
	}
	doc := sym.Doc("d", "depth=2 kinds=fsao leaf=fs top=ao len=2 keys=a num=0,1 strs=a")
	plain := fill2(f)
	if plain == "" || sym.Choose("with", 2) == 0 {
		plain = many
	}
	alike(doc, false, one, plain)
}

// C25_Wrapped: 24 operands, plain and in one or more parentheses, in 22 places, for any value.
// sym: weight=3
func C25_Wrapped() {
	e := pickText("e", "@", "@.a", "-@", "-@.a", "!@", "!!@", "- -@", "-!@", "1", "-1", "1.5", "-1.5", "0", "'a'", "''", "true", "null", "[]", "[@]", "length(@)", "@[0]", "@['a']", "$", "$.a", "nosuch(@)", "/a/", "@.length")
	form := pickText("form", "$[?(%)]", "$[?(% == 0)]", "$[?(0 == %)]", "$[?(% != @)]", "$[?(% < 0)]", "$[?(1 >= %)]", "$[?(% + 1 == 2)]", "$[?(1 - % == 2)]", "$[?(2 * % == 2)]", "$[?(% / 2 == 1)]", "$[?(1 % % == 0)]", "$[?(% && true)]", "$[?(false || %)]", "$[?(!%)]", "$[?(-% == 1)]", "$[?(% in [0,1])]", "$[?(1 in [%])]", "$[?([%][0] == 1)]", "$[?([1,%] == [1,1])]", "$[?(length(%) == 1)]", "$[?('a' ~ %)]", "$[(%)]", "$[?(@ == % && @ == %)]", "$[?(max(%, 1) == 1)]")
	if form == "$[?(1 % % == 0)]" {
		form = "$[?(@ - % == 0)]"
	}
	n := 1
	if sym.Choose("n", 2) == 1 {
		n = tier(3, 100)
	}
	w := strings.Repeat("(", n) + e + strings.Repeat(")", n)
	alike(sym.Doc("d", "depth=1 kinds=nbfsao leaf=fs top=ao len=1 keys=a num=0,1 strs=a|1"), false, fill(form, e), fill(form, w))
}

// fill2 is f without the marks, if that is a path.
func fill2(f string) string {
	if f == "$[#(0)#:2]" || f == "$[?(#@.a || @# == 1)]" {
		return ""
	}
	r := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '#' {
			r += f[i : i+1]
		}
	}
	return r
}

// C25_Logic: 14 laws of ==, !=, &&, || and ! for two operands that are any of null, boolean, any finite double,
// string, array, object or missing.
// sym: weight=4
func C25_Logic() {
	l := []string{"A != B|!(A == B)", "A == B|!(A != B)", "A == B|B == A", "A != B|B != A", "A && B|!(!A || !B)", "A || B|!(!A && !B)", "A && B|B && A", "A || B|B || A", "A && A|A", "A || A|A", "!(!A)|A", "A && (B || A)|A", "A == B && A == B|A == B", "A == B || A == B|B == A"}
	d := "kinds=nbfsao leaf=fs depth=1 len=1 keys=x num=full strs=|a|1"
	law(l[sym.Choose("law", len(l))], operands(d, d))
}

// C25_In: 10 laws of in, nin, ~ and =~ for any value and any list of up to two (thorough: three) values, or any pattern of six.
// sym: weight=2
func C25_In() {
	l := []string{"A nin B|!(A in B)", "A in B|!(A nin B)", "A in [B]|A == B", "A in [1, B]|A in [B, 1]", "A in [B, A]|A == A || A == B", "A in B && A in B|A in B", "A in B|B.length > 0 && A == B[0] || B.length > 1 && A == B[1] || B.length > 2 && A == B[2]", "A =~ 'a'|A ~ 'a'", "A =~ /^a/|A ~ '^a'", "'ab' =~ A|'ab' ~ A"}
	i := sym.Choose("law", len(l))
	doc := []any{map[string]any{"a": sym.Doc("a", "kinds=nfs depth=0 num=small strs=|a|1|ab")}}
	if i < 7 {
		d := "kinds=nfsa leaf=nfs depth=1 top=a len=2 num=0,1 strs=a|1"
		if sym.Tier() > 0 {
			d = "kinds=nfsa leaf=nfs depth=1 top=a len=3 num=full strs=a|1|"
		}
		doc[0].(map[string]any)["b"] = sym.Doc("b", d)
	} else {
		doc[0].(map[string]any)["a"] = pickText("text", "", "a", "ab", "(", "^ab$", "[b]")
	}
	law(l[i], doc)
}

func law(l string, doc any) {
	s, t := cut2(l)
	s, t = "$[?("+operand(s)+")]", "$[?("+operand(t)+")]"
	if !settled(doc, s) || !settled(doc, t) {
		sym.Reach("not settled")
		return
	}
	alike(doc, true, s, t)
}

// operand puts the operands for A and B.
func operand(s string) string {
	r := ""
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case 'A':
			r += "@.a"
		case 'B':
			r += "@.b"
		default:
			r += s[i : i+1]
		}
	}
	return r
}

// C25_Order: 10 laws of <, <=, > and >= for any two numbers, strings, booleans or null.
// sym: weight=3
func C25_Order() {
	l := []string{"A < B|B > A", "A <= B|B >= A", "A > B|B < A", "A >= B|B <= A", "A < B|A <= B && !(B <= A)", "A <= B|A < B || A >= B && A <= B", "A < B && B < A|false", "A > A|false", "A < B|!(!(A < B))", "A < B || A > B|B < A || B > A"}
	d := "kinds=nbfs depth=0 num=full str=2"
	law(l[sym.Choose("law", len(l))], operands(d, d))
}

// C25_Arithmetic: 14 laws of arithmetic for any two finite doubles (a product of two and a difference as a sum, quick: small integers), compared with any third.
// sym: weight=3
func C25_Arithmetic() {
	l := []string{"A + B == @.c|B + A == @.c", "A * B == @.c|B * A == @.c", "A - B == @.c|A + -B == @.c", "-(-A) == @.c|A == @.c", "A + 0 == @.c|A == @.c", "A * 1 == @.c|A == @.c", "A / 1 == @.c|A == @.c", "A - 0 == @.c|A == @.c", "-A == @.c|0 - A == @.c", "-A == @.c|A * -1 == @.c", "A + A == @.c|A * 2 == @.c", "A + B < @.c|@.c > B + A", "-(A - B) == @.c|B - A == @.c", "A * 0.5 == @.c|A / 2 == @.c"}
	i := sym.Choose("law", len(l))
	mode := "full"
	if sym.Tier() == 0 && (i == 1 || i == 2 || i == 12) {
		mode = "small" // the solver is slow at products and at differences as sums of any doubles
	}
	law(l[i], withC(operands("kinds=f depth=0 num="+mode, "kinds=f depth=0 num="+mode), mode))
}

// C25_Functions: 12 laws of functions and subscripts for two values that are any number, string, array or object.
// sym: weight=3
func C25_Functions() {
	l := []string{"A.length == @.c|length(A) == @.c", "A['x'] == B|A.x == B", "A[0] == B|A[0.0] == B", "contains(A, B)|!(!contains(A, B))", "abs(B) == @.c|abs(-B) == @.c", "max(B, @.c) == @.c|max(@.c, B) == @.c", "min(B, @.c) == @.c|min(@.c, B) == @.c", "ceil(B) == @.c|-floor(-B) == @.c", "max(B, @.c) == @.c|B <= @.c", "A[(0)] == B|A[0] == B", "[A, B][1] == @.c|B == @.c", "[[A, B]][0][0] == B|A == B"}
	law(l[sym.Choose("law", len(l))], withC(operands("kinds=fsao leaf=fs depth=1 len=2 keys=x num=0,1 strs=|a|ab", "kinds=fs depth=0 num=small strs=|a"), "small"))
}

// C25_Compose: the results of a path of two parts are those of the second on the results of the first.
// sym: weight=3
func C25_Compose() {
	parts := []string{".a", "[0]", "[-1]", ".*", "..*", "..a", "[0,1]", "['a',0]", "[::-1]", "[?(@)]", "[?(@.a)]", "[?(@ == 1)]", "..[0]", "..[?(@.a)]", "..['a',0]", "[1:]", "[('a')]"}
	x, y := parts[sym.Choose("x", len(parts))], parts[sym.Choose("y", len(parts))]
	doc := sym.Doc("d", "depth=2 kinds=fsao leaf=f top=ao len=2 keys=a,b num=0,1 strs=a")
	sym.Note("path", "$"+x+y)
	whole, err := mustPath("$" + x + y).Eval(doc)
	first, err2 := mustPath("$" + x).Eval(doc)
	sym.Note("document", doc)
	sym.Assert(err == nil && err2 == nil, "unexpected run-time error")
	q := mustPath("$" + y)
	got := []any{}
	for _, v := range first {
		r, err := q.Eval(v)
		sym.Assert(err == nil, "unexpected run-time error")
		got = append(got, r...)
	}
	sym.Note("results", whole)
	sym.Note("of the parts", got)
	sym.Assert(sameBag(whole, got), "different results")
	if len(whole) > 0 {
		sym.Reach("results")
	}
	sym.Reach("compared")
}

// results evaluates a path that does not fail.
func results(p *jsonpath.JSONPath, doc any) []any {
	r, err := p.Eval(doc)
	sym.Assert(err == nil, "unexpected run-time error")
	return r
}

// C25_Sums: results that are those of two other paths together: unions, '..' as the value itself and everything beneath, and
// a filter and its opposite.
// sym: weight=3
func C25_Sums() {
	l := []string{"$['a',0]|$.a|$[0]", "$[0,1]|$[0]|$[1]", "$[0,0]|$[0]|$[0]", "$[:1,1:]|$[*]|$[5]", "$..a|$.a|$..*.a", "$..[0]|$[0]|$..*[0]", "$..*|$.*|$..*.*", "$..['a',0]|$..a|$..[0]", "$.*|$[?(@)]|$[?(!@)]", "$.*|$[?(@.a == 1)]|$[?(@.a != 1)]", "$.*|$[?(@ in [1,'a'])]|$[?(@ nin [1,'a'])]", "$..[1:]|$[1:]|$..*[1:]", "$.*|$[?(@ == 1 || @ == 'a')]|$[?(@ != 1 && @ != 'a')]"}
	s, rest := cut2(l[sym.Choose("sum", len(l))])
	t, u := cut2(rest)
	doc := sym.Doc("d", "depth=2 kinds=nfsao leaf=fs top=ao len=2 keys=a num=0,1 strs=a|")
	if s == "$[:1,1:]" {
		doc = sym.Doc("d", arrayDoc)
	}
	sym.Note("path", s)
	sym.Note("parts", t+" and "+u)
	whole := results(mustPath(s), doc)
	sym.Note("document", doc)
	got := append(append([]any{}, results(mustPath(t), doc)...), results(mustPath(u), doc)...)
	sym.Note("results", whole)
	sym.Note("of the parts", got)
	sym.Assert(sameBag(whole, got), "different results")
	if len(whole) > 0 {
		sym.Reach("results")
	}
	sym.Reach("compared")
}

// cut2 splits s at its first bar that is no part of ||.
func cut2(s string) (string, string) {
	for i := 1; i < len(s)-1; i++ {
		if s[i] == '|' && s[i-1] != '|' && s[i+1] != '|' {
			return s[:i], s[i+1:]
		}
	}
	panic("harness: no bar in " + s)
}

// C25_Quotes: a key or string of any 3 (thorough: 4) bytes but quotes, backslashes and control characters, in single or double
// quotes, as a step, in a union, beneath '..', in a filter and as a computed subscript.
// sym: weight=2
func C25_Quotes() {
	k := sym.String("k", sym.Choose("n", tier(4, 5)), " !#$%&()*+,-./019:;<=>?@AZ[]^_`az{|}~\x7f\x80\xc3\xa9\xff")
	form := pickText("form", "$[%]", "$..[%]", "$['a',%]", "$[?(@[%])]", "$[?(@ == %)]", "$[?(@ != %)]", "$[?(% in [@])]", "$[(%)]", "$.(%)", "$[?(length(%) == 1)]", "$[?(@ in [%, 1])]", "$[?(@ < %)]")
	doc := map[string]any{"a": k, "b": map[string]any{k: 1.0}, "c": map[string]any{"": 2.0}}
	doc[k] = "z"
	alike(doc, false, fill(form, "'"+k+"'"), fill(form, "\""+k+"\""))
}

// C25_Numbers: a number of any 2 (thorough: 3) digits spelled as integer, with a point, zeros or an exponent, against any double.
// sym: weight=2
func C25_Numbers() {
	d := sym.String("d", tier(2, 3), "0123456789")
	if d[0] == '0' {
		d = "1" + d
	}
	form := pickText("form", "$[?(@ == %)]", "$[?(@ < %)]", "$[?(% <= @)]", "$[?(@ in [%])]", "$[?(@ + 1 == %)]", "$[?(-@ == -%)]", "$[?(@ != %)]", "$[?([@] == [%])]")
	alike([]any{sym.Float("a", "full")}, true, fill(form, d), fill(form, pickText("spelled", d+".0", d+".00", d+".0e0", d+"0.0e-1", "-(-"+d+")", "("+d+")", d+"+0", "(- -"+d+")", "--"+d, "- -"+d, " "+d+" ")))
}

// C25_Literals: 23 pairs of expressions of constants and @ that say the same, for any value.
// sym: weight=2
func C25_Literals() {
	l := []string{"@ == true|@ == !false", "@ == false|@ == !true", "@ == 'a'|@ == \"\\u0061\"", "@ == [1,'a']|@ == [ 1.0 , \"a\" ]", "@ == 0.5|@ == 5.0e-1", "@ == -1|@ == 0-1", "@ == -1|@ == - 1", "@ == '1'|'1' == @", "@ == []|[] == @", "@ in []|false", "@ nin []|true", "@ in [1]|@ in [1,1]", "@ == 1 && true|@ == 1", "@ == 1 || false|@ == 1", "true && @ == 1|@ == 1", "false || @ == 1|@ == 1",
		"true|1", "false|0", "null|''", "@ == 1 || true|true", "@ == 1 && false|false", "@ == 2 - 1|@ == 1", "@ == 2 * 3 - 5|@ == 1"}
	law(l[sym.Choose("pair", len(l))], []any{sym.Doc("d", "kinds=nbfsao leaf=nfs depth=1 len=2 keys=a num=0,1,0.5,-1 strs=|a|1")})
}
