package props

import (
	"strings"
	"sync"

	"github.com/forsyth/jsonpath/mach"
	"github.com/forsyth/jsonpath/paths"

	"verifharness/sym"
)

// program compiles a text, or gives nil.
func program(text string) *mach.Program {
	path, err := paths.ParsePath(text)
	if err != nil {
		return nil
	}
	p, err := mach.Compile(path)
	if err != nil {
		return nil
	}
	return p
}

// listed compares two programs that print the same on a document: they must do the same.
func listed(s, t string, doc func() any) {
	p, q := program(s), program(t)
	if p == nil || q == nil {
		sym.Reach("rejected")
		return
	}
	sym.Note("path", s)
	sym.Note("other", t)
	a, b := p.String(), q.String()
	sym.Note("listing", a)
	sym.Note("other listing", b)
	sym.Assert(p.String() == a && q.String() == b, "the listing varies")
	if a != b {
		sym.Reach("different listings")
		return
	}
	d := doc()
	r, err := p.Run(d)
	u, err2 := q.Run(d)
	sym.Note("document", d)
	sym.Assert((err == nil) == (err2 == nil), "the same listing, but only one of the two fails")
	sym.Note("results", r)
	sym.Note("other results", u)
	sym.Assert(sameBag(r, u), "the same listing, but different results")
	sym.Reach("same listing")
}

// C26_Constants: two texts that differ in any 2 bytes (thorough: 3) of one constant of 16 paths: names, keys, indices, bounds, numbers, strings, patterns.
// sym: weight=3
func C26_Constants() {
	form := pickText("form", "$.%", "$[%]", "$['%']", "$[0:%]", "$[%:]", "$[::%]", "$['a','%']", "$[?(@ == %)]", "$[?(@ == '%')]", "$[?(@.a > 1.%)]", "$[?(@ ~ /%/)]", "$..%", "$..['%']", "$[?(@.% == 1)]", "$[(@.length-%)]", "$[?(@ in [1,%])]")
	n := tier(2, 3)
	listed(fill(form, sym.String("s", n, "")), fill(form, sym.String("t", n, "")), func() any {
		return sym.Doc("d", "depth=2 kinds=nfsao leaf=nfs top=ao len=2 keys=a num=0,1 strs=a|x")
	})
}

// C26_Long: names, keys, strings and patterns of a common part of 10 to 1030 bytes and one of 3 last bytes (thorough: 5).
func C26_Long() {
	form := pickText("form", "$.%", "$['%']", "$['b','%']", "$[?(@ == '%')]", "$[?(@ ~ /%/)]", "$[?(@.% == 1)]")
	n := []int{10, 15, 16, 17, 20, 24, 31, 32, 33, 40, 50, 63, 64, 65, 80, 100, 127, 128, 200, 255, 256, 260, 520, 1030}[sym.Choose("n", 24)]
	k := strings.Repeat("a", n)
	a := []string{"a", "b", "c", "0", "A"}[sym.Choose("a", tier(3, 5))]
	b := []string{"a", "b", "c", "0", "A"}[sym.Choose("b", tier(3, 5))]
	then := pickText("then", "", "zz")
	listed(fill(form, k+a+then), fill(form, k+b+then), func() any {
		d := map[string]any{k + b + then: k + b + then, "y": k + a + then}
		if form == "$[?(@.% == 1)]" {
			return map[string]any{"x": map[string]any{k + a + then: 1.0}}
		}
		return d
	})
}

// C26_Reals: reals that agree in 1 to 16 digits before and after the point, and then one of 4 digits (thorough: 10).
func C26_Reals() {
	form := pickText("form", "$[?(@ == %)]", "$[?(@ in [1,%])]", "$[(%)]", "$[?(@ > -%)]")
	k := pickText("digits", "1", "12345678", "123456789012345", "0.", "1.", "0.0", "0.000", "0.00000", "0.0000000", "1.2345", "1.23456", "1.234567", "1.2345678901", "1.23456789012345", "70000.00", "12345678.9", "0.1234567890123456", "1000000000000000000000.") + digits(sym.Choose("x", tier(4, 10)))
	l := k[:len(k)-1] + digits(sym.Choose("y", tier(4, 10)))
	then := pickText("then", ".5", "e-9", "e9", "5e30")
	if strings.IndexByte(k, '.') >= 0 && then == ".5" {
		then = "5"
	}
	listed(fill(form, k+then), fill(form, l+then), func() any { return []any{sym.Float("v", "full"), 1.0} })
}

// C26_Many: a path of 2 to 300 different constants in a union, an array or steps (thorough: 3000), against the same with any one of
// them changed; or two of the same constants more.
// sym: weight=2
func C26_Many() {
	form := pickText("form", "$[%]", "$[?([%][#] == @)]", "$[?(max(%) == @)]")
	n := []int{2, 3, 9, 10, 11, 99, 100, 101, 130, 300, 1100, 3000}[sym.Choose("n", tier(10, 12))]
	at := []int{0, 1, n / 2, n - 2, n - 1}[sym.Choose("at", 5)]
	again := sym.Choose("again", 9)
	pick := sym.Choose("value", 3)
	v := []string{"'x'", "1.5", "70000000"}[pick]
	constant := func(i int) string {
		kind := i % 3
		if again > 0 { // all of one kind
			kind = pick
		}
		if form == "$[%]" && kind == 2 {
			return "'k" + digits(i) + "'"
		}
		return []string{"'" + digits(i) + "'", digits(9000000 + i), digits(i) + ".25"}[kind]
	}
	from, was := at, at
	s, t := "", ""
	for i := 0; i < n; i++ {
		if i > 0 {
			s, t = s+",", t+","
		}
		e := constant(i)
		s += e
		if again == 0 && i == at && (form != "$[%]" || v != "1.5") {
			e = v
		}
		t += e
	}
	if again > 0 {
		i := (at + []int{1, 3, 10, 16, 64, 100, 128, 256}[again-1]) % n
		from = at
		s, t = s+","+constant(at), t+","+constant(i)
		at, was, n = n, i, n+1
	}
	form = fill2op(form, "%", digits(at))
	listed(fill(form, s), fill(form, t), func() any {
		m := map[string]any{"x": "x", "10": "10", "y": 1.5, "z": 70000000.0}
		for _, i := range []int{from, was, n - 1} {
			k := digits(i)
			m[k], m["k"+k] = k, "k"+k
			m[digits(9000000+i)] = float64(9000000 + i)
			m["r"+k] = float64(i) + 0.25
		}
		return m
	})
}

// C26_Integers: 36 integers of 1 to 63 bits and others that differ from them by 1, a power of 2 or a power of 10, in 8 paths.
// sym: weight=2
func C26_Integers() {
	form := pickText("form", "$[%]", "$[-%]", "$.%", "$[0:%]", "$[%,0]", "$..[%]", "$[?(@ == %)]", "$[?(@ < -%)]")
	n := sym.Choose("n", 36)
	v := []int{0, 1, 2, 3, 9, 10, 99, 127, 128, 255, 256, 999}[n%12]
	if n >= 12 {
		v += []int{1<<15 - 1, 1<<22 - 2}[n/12-1]
	}
	d := []int{1, 10, 100, 1 << 8, 1 << 9, 1000, 1 << 15, 1 << 16, 1 << 20, 1 << 22, 1 << 23, 1 << 24, 1 << 30, 1 << 31, 1 << 32, 1 << 48, 1 << 53, 1<<53 + 1, 1 << 62}[sym.Choose("d", 19)]
	if n%3 == 0 && v+d > 0 {
		v, d = v+d, tier(1, 2)
	}
	listed(fill(form, digits(v)), fill(form, digits(v+d)), func() any {
		return []any{1.0, 0.0, float64(sym.Int64("v")), []any{2.0}}
	})
}

// C26_Changed: 12 paths and 20 more against the same with any one byte replaced, inserted or left out, or cut short anywhere.
// sym: weight=3
func C26_Changed() {
	l := []string{"$[?(@ + 1 - 2 * 3 == 1.5)]", "$[?(@.a == 'a' || @ in [1, 2] && !@)]", "$[?(f(1, 2))]", "$..[?(@ =~ /a/)].*", "$['a',0,1:2,b]", "$..[a,1]..b"}
	i := sym.Choose("path", len(somePaths)+len(l))
	s := ""
	if i < len(l) {
		s = l[i]
	} else {
		s = somePaths[i-len(l)]
	}
	if i == len(l)+8 {
		sym.Reach("rejected") // computed slices are not implemented
		return
	}
	listed(s, mutate("m", s), meaningDoc)
}

// C26_Cross: any two of 160 paths of all kinds.
// sym: weight=3
func C26_Cross() {
	s := crossPath()
	for i := 0; i < 4; i++ {
		n := len(manyPaths)
		j := 4*sym.Choose("other", (n+len(morePaths)+3)/4) + i
		t := ""
		if j < n {
			t = manyPaths[j]
		} else if j-n < len(morePaths) {
			t = morePaths[j-n]
		} else {
			return
		}
		listed(s, t, meaningDoc)
	}
}

// C26_Shapes: expressions of three operands with any of 17 operators and one of 2 more (thorough: 4), grouped either way, with unary operators or not.
// sym: weight=3
func C26_Shapes() {
	listed(shape("s"), shape("t"), func() any {
		return sym.Doc("d", "depth=2 kinds=fsao leaf=fs top=a len=1 keys=a num=0,1,2 strs=a")
	})
}

func shape(name string) string {
	a := pickText(name+".op", "+", "-", "*", "/", "%", "<", "<=", "==", "!=", ">=", ">", "&&", "||", "in", "nin", "~", "=~")
	b := []string{"-", "&&", "==", "in"}[sym.Choose(name+".and", tier(2, 4))]
	return "$[?(" + fill2op(pickText(name+".form", "(@ % 1) # 2", "@ % (1 # 2)", "[@ % 1] # 2", "!(@ % 1) # 2", "-(@ % 1) # 2"), a, b) + ")]"
}

// fill2op puts operators in a form.
func fill2op(form, a, b string) string {
	r := ""
	for i := 0; i < len(form); i++ {
		switch form[i] {
		case '%':
			r += a
		case '#':
			r += b
		default:
			r += form[i : i+1]
		}
	}
	return r
}

// C26_Counts: unions, arrays and calls of any length up to 4, of any of 3 elements, alone and next to each other.
func C26_Counts() {
	form := pickText("form", "$[%]", "$..[%]", "$[?([%] == 1)]", "$[?(max(%) == 1)]", "$[?([[%],1] == 1)]", "$[?([[%]] == [%])]")
	listed(fill(form, elems("s")), fill(form, elems("t")), func() any {
		return []any{sym.Doc("d", "depth=1 kinds=fs leaf=fs num=0,1 strs=a"), 1.0}
	})
}

func elems(name string) string {
	s := ""
	for i, n := 0, sym.Choose(name+".n", tier(4, 5)); i < n; i++ {
		if i > 0 {
			s += ","
		}
		s += pickText(name+digits(i), "0", "1", "'a'")
	}
	return s
}

// C26_Values: two constants of any value print the same only if they are the same: integers, names and strings of 2 (thorough: 3) bytes, slices.
func C26_Values() {
	var a, b string
	same := false
	n := tier(2, 3)
	switch sym.Choose("kind", 6) {
	case 0:
		x, y := sym.IntIn("x", -150, 150), sym.IntIn("y", -150, 150)
		a, b, same = paths.IntVal(x).String(), paths.IntVal(y).String(), x == y
	case 1:
		x, y := sym.String("x", n, ""), sym.String("y", n, "")
		a, b, same = paths.StringVal(x).String(), paths.StringVal(y).String(), x == y
	case 2:
		x, y := sym.String("x", n, ""), sym.String("y", n, "")
		a, b, same = paths.NameVal(x).String(), paths.NameVal(y).String(), x == y
	case 3:
		x, y := bounds("x"), bounds("y")
		a, b, same = x.String(), y.String(), sym.Same(x.Start, y.Start) && sym.Same(x.End, y.End) && sym.Same(x.Stride, y.Stride)
	case 4:
		x, y := sym.IntIn("x", -150, 150), sym.IntIn("y", -150, 150)
		a, b, same = (&paths.IntLeaf{Op: paths.OpInt, Val: int64(x)}).String(), (&paths.IntLeaf{Op: paths.OpInt, Val: int64(y)}).String(), x == y
	case 5:
		x, y := sym.String("x", n, ""), sym.String("y", n, "")
		a, b, same = (&paths.StringLeaf{Op: paths.OpString, Val: x}).String(), (&paths.StringLeaf{Op: paths.OpString, Val: y}).String(), x == y
	}
	sym.Note("one", a)
	sym.Note("other", b)
	sym.Assert((a == b) == same, "the text of two values is the same and the values are not, or the other way round")
	sym.Reach("compared")
}

func bounds(name string) *paths.Slice {
	s := &paths.Slice{}
	k := sym.Choose(name+".which", 8)
	if k&1 != 0 {
		s.Start = paths.IntVal(sym.IntIn(name+".start", -20, 20))
	}
	if k&2 != 0 {
		s.End = paths.IntVal(sym.IntIn(name+".end", -20, 20))
	}
	if k&4 != 0 {
		s.Stride = paths.IntVal(sym.IntIn(name+".stride", -20, 20))
	}
	return s
}

// C26_ReadBack: the text of an integer, a slice, a boolean and null is one that reads back as the same.
func C26_ReadBack() {
	switch sym.Choose("kind", 4) {
	case 0:
		v := paths.IntVal(sym.IntIn("x", -999, 999))
		p, err := paths.ParsePath("$[" + v.String() + "]")
		sym.Note("text", v.String())
		sym.Assert(err == nil && len(p) == 1 && len(p[0].Args) == 1, "the text of an integer is no index")
		w, ok := p[0].Args[0].(paths.IntVal)
		sym.Assert(ok && w == v, "the text of an integer is another integer")
	case 1:
		v := bounds("x")
		p, err := paths.ParsePath("$" + v.String())
		sym.Note("text", v.String())
		sym.Assert(err == nil && len(p) == 1 && len(p[0].Args) == 1, "the text of a slice is no slice")
		w, ok := p[0].Args[0].(*paths.Slice)
		sym.Assert(ok && sym.Same(v.Start, w.Start) && sym.Same(v.End, w.End) && sym.Same(v.Stride, w.Stride), "the text of a slice is another slice")
	case 2:
		v := &paths.BoolLeaf{Op: paths.OpBool, Val: sym.Choose("x", 2) == 1}
		e, err := paths.ParseScriptExpression(v.String())
		sym.Note("text", v.String())
		w, ok := e.(*paths.BoolLeaf)
		sym.Assert(err == nil && ok && w.Val == v.Val, "the text of a boolean is another")
	case 3:
		e, err := paths.ParseScriptExpression((&paths.NullLeaf{Op: paths.OpNull}).String())
		_, ok := e.(*paths.NullLeaf)
		sym.Assert(err == nil && ok, "the text of null is not null")
	}
	sym.Reach("read back")
}

// C26_Ops: the internal names of any two operators differ, and there is one for each.
func C26_Ops() {
	a := paths.Op(sym.IntIn("a", int64(paths.OpError), int64(paths.OpNot)))
	b := paths.Op(sym.IntIn("b", int64(paths.OpError), int64(paths.OpNot)))
	s, t := a.GoString(), b.GoString()
	sym.Note("a", s)
	sym.Note("b", t)
	sym.Assert(len(s) > 2 && s[:2] == "Op", "an operator without a name")
	sym.Assert((s == t) == (a == b), "two operators with one name")
	sym.Assert(a.String() != "", "an operator without a text")
	sym.Reach("compared")
}

// C26_Around: the listing is the same before, between and after evaluations, and printing changes no result.
func C26_Around() {
	s := crossPath()
	p := program(s)
	sym.Assert(p != nil, "path rejected")
	a := p.String()
	i := sym.Choose("doc", oddDocs)
	r, err := p.Run(oddDoc(i))
	b := p.String()
	u, err2 := p.Run(oddDoc(i))
	sym.Note("path", s)
	sym.Note("listing", a)
	sym.Note("later", b)
	sym.Assert(a == b && p.String() == a, "the listing varies")
	sym.Assert((err == nil) == (err2 == nil) && sameBag(r, u), "printing changed the results")
	sym.Reach("printed")
}

// C26_While: a program printed in one goroutine while evaluated in another.
// sym: race
func C26_While() {
	s := pickText("path", "$.a[0,'b',1:2]..c", "$[?(@.a == 1.5 && @.b ~ /x/)]", "$..[?(length(@) in [70000, 'a'])]")
	p := program(s)
	sym.Assert(p != nil, "path rejected")
	want := program(s).String()
	sym.Note("path", s)
	sym.Race(true)
	sym.Sched(2)
	var wg sync.WaitGroup
	got := make([]string, 2)
	for i := range got {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			if i == 1 {
				p.Run(meaningDoc())
			}
			got[i] = p.String()
		}()
	}
	wg.Wait()
	sym.Race(false)
	sym.Assert(got[0] == want && got[1] == want, "the listing varies")
	sym.Reach("printed")
}

// C26_Steps: the text of a step names its operation and is the same each time, for any path of 5 bytes after $ (thorough: 6) of a path alphabet.
func C26_Steps() {
	p, err := paths.ParsePath("$" + sym.String("s", tier(5, 6), ".[]*a0-':,"))
	if err != nil {
		sym.Reach("rejected")
		return
	}
	for _, s := range p {
		t := s.String()
		sym.Note("step", t)
		n := s.Op.GoString()
		sym.Assert(len(t) >= len(n) && t[:len(n)] == n, "the text of a step does not name its operation")
		for _, a := range s.Args {
			sym.Assert(a.String() == a.String(), "the text of a value varies")
		}
		sym.Reach("printed")
	}
}
