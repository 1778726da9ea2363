package props

import (
	"strings"
	"unicode/utf8"

	"github.com/forsyth/jsonpath"

	"verifharness/ref"
	"verifharness/sym"
)

// command is a run of jpath: what is on its command line and in its inputs.
type command struct {
	lines bool
	path  string
	stdin sym.File
	files []sym.File
	full  bool
}

// wanted gives the results that the command has to write, and whether it has to fail after that.
func (c *command) wanted() (results [][]any, fail bool) {
	p, err := jsonpath.Compile(c.path)
	if err != nil {
		return nil, true
	}
	inputs := c.files
	if len(inputs) == 0 {
		inputs = []sym.File{c.stdin}
	}
	for _, f := range inputs {
		if f.Missing || f.Bad {
			return results, true
		}
		values, ok := valuesOf(f.Data, c.lines)
		for _, v := range values {
			r, err := p.Eval(v)
			if err != nil {
				return results, true
			}
			results = append(results, r)
		}
		if !ok {
			return results, true
		}
	}
	return results, false
}

// valuesOf gives the JSON values of an input and whether there was nothing else in it.
func valuesOf(data string, lines bool) (vs []any, ok bool) {
	if !lines {
		j := ref.JSON{S: data}
		for {
			j.Space()
			if j.Pos == len(j.S) {
				return vs, true
			}
			v, ok := j.Value()
			if !ok {
				return vs, false
			}
			vs = append(vs, v)
		}
	}
	for data != "" {
		line, rest, _ := strings.Cut(data, "\n")
		data = rest
		j := ref.JSON{S: line}
		v, ok := j.Value()
		j.Space()
		if !ok || j.Pos < len(j.S) {
			return vs, false
		}
		vs = append(vs, v)
	}
	return vs, true
}

// check runs the command and compares.
func (c *command) check() {
	var args []string
	if c.lines {
		args = append(args, "-l")
	}
	args = append(args, c.path)
	for _, f := range c.files {
		args = append(args, f.Name)
		sym.Note("file "+f.Name, f.Data)
		sym.Note("missing", f.Missing)
		sym.Note("unreadable", f.Bad)
	}
	sym.Note("path", c.path)
	sym.Note("by line", c.lines)
	sym.Note("standard input", c.stdin.Data)
	want, fail := c.wanted()
	out, er, status := sym.Run(args, c.stdin, c.files, c.full)
	sym.Note("status", status)
	if c.full && len(want) > 0 {
		sym.Assert(status == 1, "status with output that cannot be written")
		sym.Assert(er != "", "no message about output that cannot be written")
		sym.Reach("output failure")
		return
	}
	if fail {
		sym.Assert(status == 1, "status of a failure")
		sym.Assert(er != "", "no message about a failure")
		sym.Reach("failure")
	} else {
		sym.Assert(status == 0, "status without a failure")
		sym.Assert(er == "", "message without a failure")
		sym.Reach("no failure")
	}
	if c.full {
		return
	}
	sym.Note("output", out)
	if c.lines {
		n := 0
		for i := 0; i < len(out); i++ {
			if out[i] == '\n' {
				n++
			}
		}
		sym.Assert(n == len(want), "not one line for each result list")
	}
	got, ok := valuesOf(out, c.lines)
	sym.Assert(ok, "output that is not JSON")
	sym.Assert(len(got) >= len(want), "results missing")
	sym.Assert(len(got) <= len(want), "results for something else")
	for i := range want {
		sym.Assert(sym.Same(got[i], want[i]), "wrong results")
	}
}

// jsonPiece is a piece of input: a value with any letter, digit or sign in it, or something that is no value.
func jsonPiece(name string, n int) string {
	pieces := []string{`{"a":`, `[`, `null`, `{"b":{"a":[]}}`, "", `"a"`, `[{"a":1},{"a":2}]`, `{"a":`, `{"a":1`, "]", `{"a" 1}`, "nul", "7"}
	i := sym.Choose(name, min(n, len(pieces)))
	s := pieces[i]
	switch i {
	case 0:
		s += `"` + string([]byte{sym.ByteIn(name+".byte", "aZ09 <&'\x7f/,:[{]}.-")}) + `"}`
	case 1:
		s += string([]byte{sym.ByteIn(name+".digit", "123456789")}) + `]`
	}
	return s
}

var gaps = []string{"\n", "", " ", "\n\n", "\r\n\t"}

// jsonText is up to n pieces with or without space between and after them.
func jsonText(name string, n, kinds, spaces int) string {
	s := ""
	for i := range sym.Choose(name+".n", n+1) {
		t := name + string([]byte{byte('0' + i)})
		s += jsonPiece(t, kinds) + gaps[sym.Choose(t+".gap", spaces)]
	}
	return s
}

var cliPaths = []string{"$.a", "$..a", "$[0]", "$[?(@.a in @.b)]", "$.", "", "$[?(@ ~ 'x')].a"}

// C23_Values: standard input of up to 2 (thorough: 3) pieces out of 13, values and texts that are none, with 3
// (thorough: 5) kinds of space between and after them, for 7 paths, with and without -l.
// sym: weight=3
func C23_Values() {
	c := command{lines: sym.Choose("lines", 2) == 1, path: cliPaths[sym.Choose("path", len(cliPaths))]}
	c.stdin.Data = jsonText("in", tier(2, 3), 13, tier(3, 5))
	c.check()
}

// C23_Bytes: standard input of up to 4 (thorough: 6) bytes, each any out of 16.
// sym: weight=3
func C23_Bytes() {
	n := sym.Choose("n", tier(4, 6)+1)
	c := command{lines: sym.Choose("lines", 2) == 1, path: pickText("path", "$", "$[0]", "$..*")}
	c.stdin.Data = sym.String("in", n, "[]{}\",:a1 \n\t-.0\\")
	c.check()
}

// C23_Odd: 5 inputs of one to three values with one out of 47 things at any place: odd characters, and what is nearly JSON.
func C23_Odd() {
	s := []string{"1\n", "{\"a\":[1,2]}\n", "[\"a\",null]\n{\"a\":2}\n", "\"a\" \n\n3\n", "[true,-1.5e3]"}[sym.Choose("in", 5)]
	l := append([]string{"'", "''", ",", ",,", ":", "NaN", "Infinity", "+", "-", "0", "0x1", ".", "e", "e1", "True", "t", "{}", "]", "\x1e\n", "\r", "\\ud83d\\ude00", "\\ud83d", "\\ude00\\ud83d", "\\u00E9"}, oddBytes...)
	w := l[sym.Choose("odd", len(l))]
	if !utf8.ValidString(w) {
		w = "\u00e9" // what a decoder makes of bytes that are not UTF-8 is its own affair
	}
	i := sym.Choose("at", len(s)+1)
	c := command{lines: sym.Choose("lines", 2) == 1, path: pickText("path", "$", "$.a")}
	c.stdin.Data = s[:i] + w + s[i:]
	c.check()
}

// C23_Files: one or two (thorough: up to three) files, any of which may not exist, may be unreadable, or has up to
// 2 pieces of text; the same file may be named more than once. Or none, and standard input that cannot be read.
// sym: weight=3
func C23_Files() {
	c := command{lines: sym.Choose("lines", 2) == 1, path: cliPaths[sym.Choose("path", 4)]}
	c.stdin.Data = "[1]\n"
	n := sym.Choose("n", tier(2, 3)+1)
	c.stdin.Bad = n == 0
	for i := range n {
		name := "f" + string([]byte{byte('0' + i)})
		f := sym.File{Name: name}
		switch sym.Choose(name+".kind", 4) {
		case 0:
			f.Data = jsonText(name, 2, tier(4, 9), tier(1, 2))
		case 1:
			f.Missing = true
		case 2:
			f.Bad = true
		case 3:
			if i == 0 {
				f.Data = "[0]\n[0]"
			} else {
				f = c.files[0]
			}
		}
		c.files = append(c.files, f)
	}
	c.check()
}

// C23_Many: 80 files (thorough: 200), all of one of 4 kinds but for one of another kind at any place of 4, where 64 files may be open at once.
func C23_Many() {
	c := command{lines: sym.Choose("lines", 2) == 1, path: "$.a"}
	kinds := []sym.File{{Data: "{\"a\":1}\n"}, {Missing: true}, {Bad: true}, {Data: "{\"a\""}}
	names := []string{"good", "missing", "unreadable", "broken"}
	n := tier(80, 200)
	k, l := sym.Choose("kind", 4), sym.Choose("other", 4)
	at := []int{0, 1, n / 2, n - 1}[sym.Choose("at", 4)]
	for i := range n {
		j := k
		if i == at {
			j = l
		}
		f := kinds[j]
		f.Name = names[j]
		c.files = append(c.files, f)
	}
	c.check()
}

// C23_Paths: paths that are '$' and up to 3 (thorough: 5) bytes, each any out of 14.
func C23_Paths() {
	c := command{lines: sym.Choose("lines", 2) == 1}
	c.path = "$" + sym.String("path", sym.Choose("n", tier(3, 5)+1), ".[]a0'*`\x01\"(? ~")
	c.stdin.Data = "{\"a\":[1,{\"a\":\"b\"}]}\n[2]"
	c.check()
}

// C23_Full: writes to standard output fail, for up to 3 pieces of input.
func C23_Full() {
	c := command{full: true, lines: sym.Choose("lines", 2) == 1, path: cliPaths[sym.Choose("path", 5)]}
	c.stdin.Data = jsonText("in", 3, 9, 1)
	c.check()
}

// C23_Numbers: two numbers out of 9 (8 digits and more, exponents, fractions, -0), as they stand and in 13 paths that
// compare, add, select or test them, with and without -l.
func C23_Numbers() {
	nums := []string{"0", "1", "-0", "1.0", "10e-1", "1E2", "0.1", "12345678901234567890", "1e400"}
	text := "[" + nums[sym.Choose("x", len(nums))] + "," + nums[sym.Choose("y", len(nums))] + ",\"s\"]\n"
	c := command{lines: sym.Choose("lines", 2) == 1}
	c.path = pickText("path", "$", "$[*]", "$[?(@ == 1)]", "$[?(@ != 0)]", "$[?(@ > 0.5)]", "$[?(@ < 'z')]", "$[?(@ + 1 == 2)]",
		"$[?(@ in [1, 0.1])]", "$[?(@)]", "$[?(!@)]", "$[?(-@ < 0)]", "$[($[0])]", "$[?($[0] == $[1])]")
	c.stdin.Data = text
	c.check()
}

// C23_Usage: no path, with and without -l.
func C23_Usage() {
	var args []string
	if sym.Choose("lines", 2) == 1 {
		args = append(args, "-l")
	}
	out, er, status := sym.Run(args, sym.File{Data: sym.String("in", 2, "[]")}, nil, false)
	sym.Assert(status == 2, "status of a missing path")
	sym.Assert(out == "", "output of a missing path")
	sym.Assert(er != "", "no message about a missing path")
	sym.Reach("usage")
}

// C23_Ends: one or two files, either of which is cut short after any number of its bytes; the other is whole, short,
// empty, or does not exist.
// sym: weight=2
func C23_Ends() {
	c := command{lines: sym.Choose("lines", 2) == 1, path: cliPaths[sym.Choose("path", 2)]}
	s := pickText("text", "{\"a\":[1,{\"a\":\"b\\u0041\"}]}\n", "[{\"a\":1e1}]\n null\n", "1\n{\"a\":-0.5}\ntrue\n", "\"a\"\n\n12\n")
	s = s[:sym.Choose("cut", len(s)+1)]
	if sym.Choose("stdin", 2) == 1 {
		c.stdin.Data = s
		c.check()
		return
	}
	f := sym.File{Name: "f", Data: s}
	g := sym.File{Name: "g", Data: "{\"a\":2}\n"}
	switch sym.Choose("other", 5) {
	case 0:
		c.files = []sym.File{f}
	case 1:
		c.files = []sym.File{f, g}
	case 2:
		c.files = []sym.File{g, f}
	case 3:
		g.Missing = true
		c.files = []sym.File{f, g}
	case 4:
		g.Data = ""
		c.files = []sym.File{g, f, g}
	}
	c.check()
}

// C23_Long: a value of about 5000, 66 000, 132 000 and 300 000 (thorough: 1.1 million) bytes in a string, in space, or in
// an array, before or after another value, part of a value, or nothing.
// sym: weight=2 steps=400000000
func C23_Long() {
	c := command{lines: sym.Choose("lines", 2) == 1, path: "$.a"}
	n := []int{5000, 66000, 132000, tier(300000, 1100000)}[sym.Choose("size", 4)]
	s := ""
	switch sym.Choose("kind", 3) {
	case 0:
		s = `{"a":"` + strings.Repeat("x", n) + string([]byte{sym.ByteIn("byte", "ab<&")}) + "\"}\n"
	case 1:
		s = `{"a":` + strings.Repeat(" ", n) + string([]byte{sym.ByteIn("byte", "12]")}) + "}\n"
	case 2:
		s = `{"a":[` + strings.Repeat(`"`+strings.Repeat("x", 500)+`",`, n/500) + string([]byte{sym.ByteIn("byte", "12]")}) + "]}\n"
	}
	t := pickText("in", "{\"a\":1}", "{\"a\":", "")
	if sym.Choose("last", 2) == 1 {
		s = t + "\n" + s
	} else {
		s += t
	}
	c.stdin.Data = s
	c.check()
}
