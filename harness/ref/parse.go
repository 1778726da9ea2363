// Package ref is an independent reading of the documentation: grammar and meaning of
// JSONPath expressions, against which harnesses compare the package under test.
package ref

import (
	"regexp"

	"github.com/forsyth/jsonpath/paths"
)

// Expr is an expression tree. Op says which fields count.
type Expr struct {
	Op   paths.Op
	Kids []*Expr
	I    int64
	F    float64
	S    string // name, string, pattern
	B    bool
	// how a real is spelled: digits before the point, after it, exponent
	Real *Real
}

// Real is the spelling of a real literal.
type Real struct {
	Int, Frac string
	Exp       string
	ENeg      bool
	HasExp    bool
	Text      string
}

// Kinds of arguments.
const (
	AInt = iota
	AName
	AString
	ASlice
	AExpr
)

// Arg is an argument of a step.
type Arg struct {
	Kind  int
	I     int64
	S     string
	E     *Expr
	Slice [3]*Arg // start, end, stride; nil if absent
}

// Step is a step of a path.
type Step struct {
	Op   paths.Op
	Args []*Arg
}

type parser struct {
	s    string
	i    int
	bad  bool
	Deep int
}

func (p *parser) fail() { p.bad = true }

// peek is the byte at offset k from here, or -1.
func (p *parser) peek(k int) int {
	if p.i+k >= len(p.s) {
		return -1
	}
	return int(p.s[p.i+k])
}

func (p *parser) space() {
	for p.i < len(p.s) {
		c := p.s[p.i]
		if c != ' ' && (c < '\t' || c > '\r') {
			return
		}
		p.i++
	}
}

// tok skips white space and c, if it is there.
func (p *parser) tok(c int) bool {
	p.space()
	if p.peek(0) == c {
		p.i++
		return true
	}
	return false
}

func digit(c int) bool { return '0' <= c && c <= '9' }

func letter(c int) bool {
	return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || c == '_' || c >= 0x80
}

// digits consumes a run of digits.
func (p *parser) digits() string {
	j := p.i
	for digit(p.peek(0)) {
		p.i++
	}
	return p.s[j:p.i]
}

// decimal is the value of digits if at most 2^63-1.
func decimal(ds string) (int64, bool) {
	var v uint64
	for i := 0; i < len(ds); i++ {
		d := uint64(ds[i] - '0')
		if v > (1<<63-1)/10 {
			return 0, false
		}
		v = v*10 + d
		if v > 1<<63-1 {
			return 0, false
		}
	}
	return int64(v), true
}

// name consumes letters, digits and, in paths, dashes.
func (p *parser) name(dash bool) string {
	j := p.i
	for {
		c := p.peek(0)
		if !letter(c) && !digit(c) && !(dash && c == '-') {
			break
		}
		p.i++
	}
	return p.s[j:p.i]
}

func hex(c int) int {
	switch {
	case digit(c):
		return c - '0'
	case 'a' <= c && c <= 'f':
		return c - 'a' + 10
	case 'A' <= c && c <= 'F':
		return c - 'A' + 10
	}
	return -1
}

func appendUTF8(b []byte, r int) []byte {
	switch {
	case r < 0x80:
		return append(b, byte(r))
	case r < 0x800:
		return append(b, byte(0xC0|r>>6), byte(0x80|r&63))
	case r < 0x10000:
		return append(b, byte(0xE0|r>>12), byte(0x80|r>>6&63), byte(0x80|r&63))
	}
	return append(b, byte(0xF0|r>>18), byte(0x80|r>>12&63), byte(0x80|r>>6&63), byte(0x80|r&63))
}

// hex4 reads four hexadecimal digits.
func (p *parser) hex4() int {
	v := 0
	for k := 0; k < 4; k++ {
		h := hex(p.peek(0))
		if h < 0 {
			p.fail()
			return 0
		}
		p.i++
		v = v<<4 | h
	}
	return v
}

// str consumes a string after its opening quote.
func (p *parser) str(q int) string {
	var b []byte
	for {
		c := p.peek(0)
		if c < 0 || c < 0x20 {
			p.fail()
			return ""
		}
		p.i++
		if c == q {
			return string(b)
		}
		if c != '\\' {
			b = append(b, byte(c))
			continue
		}
		c = p.peek(0)
		p.i++
		switch c {
		case '\\', '/':
			b = append(b, byte(c))
		case 'b':
			b = append(b, 8)
		case 'f':
			b = append(b, 12)
		case 'n':
			b = append(b, 10)
		case 'r':
			b = append(b, 13)
		case 't':
			b = append(b, 9)
		case 'u':
			r := p.hex4()
			if p.bad {
				return ""
			}
			if 0xD800 <= r && r <= 0xDFFF {
				// a high and a low surrogate make one character
				if r < 0xDC00 && p.peek(0) == '\\' && p.peek(1) == 'u' {
					save := p.i
					p.i += 2
					lo := p.hex4()
					if p.bad {
						return ""
					}
					if 0xDC00 <= lo && lo <= 0xDFFF {
						b = appendUTF8(b, 0x10000+(r-0xD800)<<10+(lo-0xDC00))
						continue
					}
					p.i = save
				}
				r = 0xFFFD
			}
			b = appendUTF8(b, r)
		default:
			if c != q || c < 0 {
				p.fail()
				return ""
			}
			b = append(b, byte(c))
		}
	}
}

// ParsePath parses a path.
func ParsePath(s string) ([]*Step, bool) {
	p := &parser{s: s}
	if !p.tok('$') {
		return nil, false
	}
	var steps []*Step
	for {
		p.space()
		switch p.peek(0) {
		case -1:
			return steps, true
		case '.':
			p.i++
			if p.peek(0) == '.' {
				p.i++
				p.space()
				if p.tok('[') {
					st := p.brackets()
					if p.bad {
						return nil, false
					}
					switch st.Op {
					case paths.OpSelect:
						st.Op = paths.OpNestSelect
					case paths.OpUnion:
						st.Op = paths.OpNestUnion
					case paths.OpWild:
						st.Op = paths.OpNestWild
					case paths.OpFilter:
						st.Op = paths.OpNestFilter
					}
					steps = append(steps, st)
					break
				}
				st := p.member(paths.OpNestMember, paths.OpNestWild)
				if p.bad {
					return nil, false
				}
				steps = append(steps, st)
				break
			}
			st := p.member(paths.OpMember, paths.OpWild)
			if p.bad {
				return nil, false
			}
			steps = append(steps, st)
		case '[':
			p.i++
			st := p.brackets()
			if p.bad {
				return nil, false
			}
			steps = append(steps, st)
		default:
			return nil, false
		}
	}
}

// integer is a signed integer: nil if there is none.
func (p *parser) integer() *Arg {
	p.space()
	neg := false
	if p.peek(0) == '-' {
		p.i++
		p.space()
		neg = true
		if !digit(p.peek(0)) {
			p.fail()
			return nil
		}
	}
	if !digit(p.peek(0)) {
		return nil
	}
	v, ok := decimal(p.digits())
	if !ok || neg && v == 1<<63-1 {
		p.fail()
		return nil
	}
	if neg {
		v = -v
	}
	return &Arg{Kind: AInt, I: v}
}

func (p *parser) member(op, wild paths.Op) *Step {
	p.space()
	c := p.peek(0)
	switch {
	case c == '*':
		p.i++
		return &Step{Op: wild}
	case c == '(':
		p.i++
		return &Step{op, []*Arg{p.bracketed()}}
	case letter(c):
		return &Step{op, []*Arg{{Kind: AName, S: p.name(true)}}}
	}
	a := p.integer()
	if a == nil {
		p.fail()
	}
	return &Step{op, []*Arg{a}}
}

// bracketed is a script expression and its closing parenthesis.
func (p *parser) bracketed() *Arg {
	e := p.expr(0)
	if p.bad || !p.tok(')') {
		p.fail()
		return nil
	}
	return &Arg{Kind: AExpr, E: e}
}

// brackets is a subscript after "[" including "]".
func (p *parser) brackets() *Step {
	var args []*Arg
	single := false // something that cannot be in a union
	var st *Step
	for {
		p.space()
		c := p.peek(0)
		var a *Arg
		switch {
		case c == '*':
			p.i++
			single = true
			st = &Step{Op: paths.OpWild}
		case c == '?':
			p.i++
			if p.peek(0) != '(' {
				p.fail()
				return nil
			}
			p.i++
			f := p.bracketed()
			if p.bad {
				return nil
			}
			single = true
			st = &Step{paths.OpFilter, []*Arg{f}}
		case c == '\'' || c == '"':
			p.i++
			a = &Arg{Kind: AString, S: p.str(c)}
		case letter(c):
			a = &Arg{Kind: AName, S: p.name(true)}
		case c == ':':
			a = p.slice(nil)
		case c == '(':
			p.i++
			a = p.bracketed()
			if p.bad {
				return nil
			}
			p.space()
			if p.peek(0) == ':' {
				a = p.slice(a)
			} else {
				single = true
				st = &Step{paths.OpSelect, []*Arg{a}}
				a = nil
			}
		default:
			a = p.integer()
			if a == nil {
				p.fail()
				return nil
			}
			p.space()
			if p.peek(0) == ':' {
				a = p.slice(a)
			}
		}
		if p.bad {
			return nil
		}
		args = append(args, a)
		if !p.tok(',') {
			break
		}
	}
	if !p.tok(']') || single && len(args) > 1 {
		p.fail()
		return nil
	}
	if single {
		return st
	}
	if len(args) == 1 {
		return &Step{paths.OpSelect, args}
	}
	return &Step{paths.OpUnion, args}
}

// slice is ":" end? (":" stride?)?
func (p *parser) slice(start *Arg) *Arg {
	a := &Arg{Kind: ASlice}
	a.Slice[0] = start
	for k := 1; k < 3; k++ {
		p.space()
		if p.peek(0) != ':' {
			break
		}
		p.i++
		p.space()
		if p.peek(0) == '(' {
			p.i++
			a.Slice[k] = p.bracketed()
		} else {
			a.Slice[k] = p.integer()
		}
		if p.bad {
			return nil
		}
	}
	p.space()
	if c := p.peek(0); c != ',' && c != ']' {
		p.fail()
	}
	return a
}

// ParseExpr parses a whole script expression.
func ParseExpr(s string) (*Expr, bool) {
	p := &parser{s: s}
	e := p.expr(0)
	if p.bad {
		return nil, false
	}
	p.space()
	return e, p.i == len(s)
}

// binary looks for a binary operator: its length, operator and precedence. Length 0 is none.
func (p *parser) binary() (n int, op paths.Op, prec int) {
	p.space()
	c, d := p.peek(0), p.peek(1)
	switch c {
	case '|':
		if d == '|' {
			return 2, paths.OpOr, 0
		}
	case '&':
		if d == '&' {
			return 2, paths.OpAnd, 1
		}
	case '=':
		switch d {
		case '=':
			return 2, paths.OpEQ, 2
		case '~':
			return 2, paths.OpMatch, 3
		}
	case '!':
		if d == '=' {
			return 2, paths.OpNE, 2
		}
	case '<':
		if d == '=' {
			return 2, paths.OpLE, 3
		}
		return 1, paths.OpLT, 3
	case '>':
		if d == '=' {
			return 2, paths.OpGE, 3
		}
		return 1, paths.OpGT, 3
	case '~':
		return 1, paths.OpMatch, 3
	case '+':
		return 1, paths.OpAdd, 4
	case '-':
		return 1, paths.OpSub, 4
	case '*':
		return 1, paths.OpMul, 5
	case '/':
		return 1, paths.OpDiv, 5
	case '%':
		return 1, paths.OpMod, 5
	case 'i', 'n':
		k := 0
		for letter(p.peek(k)) || digit(p.peek(k)) {
			k++
		}
		switch p.s[p.i : p.i+k] {
		case "in":
			return 2, paths.OpIn, 3
		case "nin":
			return 3, paths.OpNin, 3
		}
	}
	return 0, 0, -1
}

// expr is a sequence of operands and binary operators of precedence min or more.
func (p *parser) expr(min int) *Expr {
	e := p.operand()
	for !p.bad {
		n, op, prec := p.binary()
		if n == 0 || prec < min {
			break
		}
		p.i += n
		r := p.expr(prec + 1)
		e = &Expr{Op: op, Kids: []*Expr{e, r}}
	}
	return e
}

// operand is unary operators and a primary with its postfix forms.
func (p *parser) operand() *Expr {
	p.space()
	switch p.peek(0) {
	case '-':
		p.i++
		return &Expr{Op: paths.OpNeg, Kids: []*Expr{p.operand()}}
	case '!':
		if p.peek(1) == '=' {
			p.fail()
			return nil
		}
		p.i++
		return &Expr{Op: paths.OpNot, Kids: []*Expr{p.operand()}}
	}
	e := p.primary()
	for !p.bad {
		p.space()
		switch p.peek(0) {
		case '(':
			if e.Op != paths.OpID {
				p.fail()
				return nil
			}
			p.i++
			e = &Expr{Op: paths.OpCall, Kids: p.list([]*Expr{e}, ')')}
		case '[':
			p.i++
			x := p.expr(0)
			if p.bad || !p.tok(']') {
				p.fail()
				return nil
			}
			e = &Expr{Op: paths.OpIndex, Kids: []*Expr{e, x}}
		case '.':
			p.i++
			p.space()
			if !letter(p.peek(0)) {
				p.fail()
				return nil
			}
			e = &Expr{Op: paths.OpDot, Kids: []*Expr{e, {Op: paths.OpID, S: p.name(false)}}}
		default:
			return e
		}
	}
	return nil
}

// list is expressions separated by commas up to end.
func (p *parser) list(l []*Expr, end int) []*Expr {
	if p.tok(end) {
		return l
	}
	for {
		l = append(l, p.expr(0))
		if p.bad {
			return nil
		}
		if !p.tok(',') {
			break
		}
	}
	if !p.tok(end) {
		p.fail()
	}
	return l
}

func (p *parser) primary() *Expr {
	p.space()
	c := p.peek(0)
	switch {
	case c == '@':
		p.i++
		return &Expr{Op: paths.OpCurrent, S: "@"}
	case c == '$':
		p.i++
		return &Expr{Op: paths.OpRoot, S: "$"}
	case c == '(':
		p.i++
		e := p.expr(0)
		if p.bad || !p.tok(')') {
			p.fail()
			return nil
		}
		return e
	case c == '[':
		p.i++
		return &Expr{Op: paths.OpArray, Kids: p.list(nil, ']')}
	case c == '\'' || c == '"':
		p.i++
		return &Expr{Op: paths.OpString, S: p.str(c)}
	case c == '/':
		p.i++
		return p.regexp()
	case digit(c):
		return p.number()
	case letter(c):
		n := p.name(false)
		switch n {
		case "true", "false":
			return &Expr{Op: paths.OpBool, B: n == "true"}
		case "null":
			return &Expr{Op: paths.OpNull}
		}
		return &Expr{Op: paths.OpID, S: n}
	}
	p.fail()
	return nil
}

func (p *parser) regexp() *Expr {
	var b []byte
	for {
		c := p.peek(0)
		if c < 0 {
			p.fail()
			return nil
		}
		p.i++
		if c == '/' {
			break
		}
		if c == '\\' && p.peek(0) == '/' {
			p.i++
			c = '/'
		}
		b = append(b, byte(c))
	}
	if _, err := regexp.Compile(string(b)); err != nil {
		p.fail()
		return nil
	}
	return &Expr{Op: paths.OpRE, S: string(b)}
}

func (p *parser) number() *Expr {
	j := p.i
	ds := p.digits()
	if p.peek(0) != '.' {
		v, ok := decimal(ds)
		if !ok {
			p.fail()
		}
		return &Expr{Op: paths.OpInt, I: v}
	}
	p.i++
	r := &Real{Int: ds, Frac: p.digits()}
	if c := p.peek(0); c == 'e' || c == 'E' {
		p.i++
		r.HasExp = true
		if c := p.peek(0); c == '+' || c == '-' {
			p.i++
			r.ENeg = c == '-'
		}
		if !digit(p.peek(0)) {
			p.fail()
			return nil
		}
		r.Exp = p.digits()
	}
	r.Text = p.s[j:p.i]
	return &Expr{Op: paths.OpReal, Real: r}
}
