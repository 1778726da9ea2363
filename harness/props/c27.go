package props

import (
	"strings"

	"github.com/forsyth/jsonpath"
	"github.com/forsyth/jsonpath/paths"

	"verifharness/sym"
)

// where finds the offsets that an error names, and the largest of them (or -1).
func where(msg string) ([]int, int) {
	var l []int
	most := -1
	for i := 0; i+7 <= len(msg); i++ {
		if msg[i:i+7] != "offset " {
			continue
		}
		n, j := 0, i+7
		for ; j < len(msg) && msg[j] >= '0' && msg[j] <= '9' && n < 1e9; j++ {
			n = 10*n + int(msg[j]-'0')
		}
		if j > i+7 {
			l = append(l, n)
			most = max(most, n)
		}
	}
	return l, most
}

// complaint compiles a text that may be rejected and gives the message, with what must hold of any rejection.
func complaint(text string) (string, int) {
	p, err := jsonpath.Compile(text)
	if err == nil {
		return "", -1
	}
	sym.Note("text", text)
	msg := err.Error()
	sym.Note("message", msg)
	sym.Assert(p == nil, "a path with an error")
	sym.Assert(msg != "", "an error without a message")
	_, again := jsonpath.Compile(text)
	sym.Assert(again != nil && again.Error() == msg, "a different error the second time")
	l, most := where(msg)
	for _, n := range l {
		sym.Assert(n <= len(text), "an offset beyond the text")
	}
	return msg, most
}

// spaced are paths with a blank at each token boundary.
var spaced = []string{"$ . a", "$ .. a", "$ [ 'a' , 1 ]", "$ [ 0 : 2 : 1 ]", "$ . *", "$ .. [ a ]", "$ [ ?( @ . a == 1 ) ]", "$ [ ( @ . length - 1 ) ]", "$ [ ?( @ in [ 1 , 'a' ] ) ] . a", "$ [ ?( ! @ . a || f ( 1 , @ ) ) ]", "$ .. [ ?( @ [ 0 ] =~ /a/ && 'a' ~ 'a' ) ]", "$ . ( @ . a )", "$ [ ?( @ - - 1 == - - 2 ) ]", "$ [ ?( @ . a [ 0 ] . b [ 'a' ] in [ ] ) ]", "$ [ ?( f ( ) ) ] [ - 1 ]", "$ [ ?( 1 / 2 / @ - 0.5 % 3 >= \"a\" ) ]", "$ .. * .. [ * ] . a-b", "$ . 屬性 [ 'é' ] [ ?( @ . é == '屬' ) ]"}

// C27_Illegal: a byte that no path has outside of its strings, after up to 2 bytes of white space between any two tokens of 18 paths,
// and then the rest of the path, or up to 2 bytes of anything: rejected, and the message names the offset of that byte, or one
// in the token before it.
// sym: weight=3
func C27_Illegal() {
	l := strings.Split(pickText("path", spaced...), " ")
	at := 1 + sym.Choose("at", len(l))
	s := ""
	for i, t := range l[:at] {
		if i > 0 && wordy(t[0]) && wordy(l[i-1][len(l[i-1])-1]) {
			s += " "
		}
		s += t
	}
	last := len(s) - len(l[at-1])
	s += sym.String("w", sym.Choose("n", 3), " \t\n\v\f\r")
	k := len(s)
	s += pickText("illegal", "#", ";", "^", "`", "{", "}", "\\", "\x00", "\x01", "\x1f", "\x7f")
	if sym.Choose("then", 2) == 0 {
		s += strings.Join(l[at:], " ")
	} else {
		s += sym.String("rest", sym.Choose("m", 3), "")
	}
	msg, _ := complaint(s)
	sym.Assert(msg != "", "a byte outside the grammar accepted")
	named, _ := where(msg)
	ok := false
	for _, n := range named {
		ok = ok || n >= last && n <= k
	}
	sym.Assert(ok, "the message does not name the offset of the byte that is wrong")
	sym.Reach("named")
}

// follows compares a text that is rejected at an offset with the same up to a byte beyond it and anything after that.
func follows(s, after string) {
	msg, at := complaint(s)
	if msg == "" {
		sym.Reach("accepted")
		return
	}
	if at < 0 || strings.Contains(msg, "regexp") { // which names where the pattern starts
		sym.Reach("no offset")
		return
	}
	n := at + 2
	if n >= len(s) {
		sym.Reach("at the end")
		return
	}
	other, _ := complaint(s[:n] + after)
	sym.Note("other text", s[:n]+after)
	sym.Note("other message", other)
	sym.Assert(other == msg, "what follows the offset that is named makes a difference")
	sym.Reach("the same")
}

// C27_Changed: 12 paths with any one byte replaced, inserted or left out, or cut short anywhere, and then nothing or any 2 bytes after
// the offset named: the same error.
// sym: weight=3
func C27_Changed() {
	follows(mutate("m", pickText("path", somePaths...)), sym.String("after", 2*sym.Choose("n", 2), ""))
}

// C27_Bytes: any 4 bytes of a path alphabet after $ and in a filter (thorough: 5), with a rest, and then nothing or any 2 bytes after the offset named.
// sym: weight=3
func C27_Bytes() {
	form := pickText("form", "$%,  a", "$[?(%  #", "$[%   a", "$.a[?(@ %)]  ")
	follows(fill(form, sym.String("s", tier(4, 5), "$@.[]()?*:,'a1- =&!")), sym.String("after", 2*sym.Choose("n", 2), ""))
}

// C27_Cut: any of 160 paths cut short anywhere: if rejected, then always with the same message, and an offset within the text.
func C27_Cut() {
	s := crossPath()
	complaint(s[:sym.Choose("cut", len(s))])
	sym.Reach("cut")
}

// C27_Far: an illegal byte after 1 to 5000 steps, elements, operators, blanks and lines.
func C27_Far() {
	unit := pickText("unit", "$.a", "$[0]", "$[%0,", "$[?(%1+", "$[?(%!", "$% ", "$%\n", "$['%a", "$..*", "$.屬", "$['%é", "$[?(%'屬性'!=")
	n := []int{1, 9, 10, 99, 100, 127, 128, 255, 256, 300, 1000, 5000}[sym.Choose("n", tier(11, 12))]
	a, b := "", unit
	if i := strings.IndexByte(unit, '%'); i >= 0 {
		a, b = unit[:i], unit[i+1:]
	} else {
		a, b = "$", unit[1:]
	}
	s := a + strings.Repeat(b, n)
	if unit[:3] == "$['" {
		s += "']"
	}
	k := len(s)
	s += pickText("illegal", "#", "{", "\\")
	msg, _ := complaint(s)
	sym.Assert(msg != "", "a byte outside the grammar accepted")
	named, _ := where(msg)
	ok := false
	for _, m := range named {
		ok = ok || m == k
	}
	sym.Assert(ok, "the message does not name the offset of the byte that is wrong")
	sym.Reach("named")
}

// C27_Expression: the same for ParseScriptExpression: any 4 bytes (thorough: 5) of an expression alphabet, and then nothing or any 2 bytes
// after the offset named.
// sym: weight=2
func C27_Expression() {
	s := sym.String("s", tier(4, 5), "$@.[]()/,'a1- =&!<") + "  a"
	_, err := paths.ParseScriptExpression(s)
	if err == nil {
		sym.Reach("accepted")
		return
	}
	msg := err.Error()
	sym.Note("text", s)
	sym.Note("message", msg)
	sym.Assert(msg != "", "an error without a message")
	_, at := where(msg)
	sym.Assert(at <= len(s), "an offset beyond the text")
	if at < 0 || at+2 >= len(s) || strings.Contains(msg, "regexp") {
		sym.Reach("no offset, or at the end")
		return
	}
	t := s[:at+2] + sym.String("after", 2*sym.Choose("n", 2), "")
	_, err = paths.ParseScriptExpression(t)
	sym.Note("other text", t)
	sym.Assert(err != nil && err.Error() == msg, "what follows the offset that is named makes a difference")
	sym.Reach("the same")
}
