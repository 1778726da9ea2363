package ref

import (
	"encoding/json"
	"strconv"
	"unicode/utf16"
	"unicode/utf8"
)

// JSON is a parser of RFC 8259 text.
type JSON struct {
	S       string
	Pos     int
	Numbers bool // numbers are wanted as json.Number
}

func (j *JSON) Space() {
	for j.Pos < len(j.S) {
		switch j.S[j.Pos] {
		case ' ', '\t', '\n', '\r':
			j.Pos++
			j.Pos = Blanks(j.S, j.Pos)
		default:
			return
		}
	}
}

func (j *JSON) look() int {
	if j.Pos < len(j.S) {
		return int(j.S[j.Pos])
	}
	return -1
}

func (j *JSON) word(w string, v any) (any, bool) {
	if len(j.S)-j.Pos < len(w) || j.S[j.Pos:j.Pos+len(w)] != w {
		return nil, false
	}
	j.Pos += len(w)
	return v, true
}

// Blanks gives the end of a run of spaces from position i (which the executor takes to end before a symbolic byte).
func Blanks(s string, i int) int {
	for i < len(s) && s[i] == ' ' {
		i++
	}
	return i
}

// Plain gives the end of a run of letters, digits and '_' from position i (which the executor takes to end before a symbolic byte).
func Plain(s string, i int) int {
	for i < len(s) && (s[i] >= 'a' && s[i] <= 'z' || s[i] >= 'A' && s[i] <= 'Z' || s[i] >= '0' && s[i] <= '9' || s[i] == '_') {
		i++
	}
	return i
}

// Value parses one value after optional space; false if there is none.
func (j *JSON) Value() (any, bool) {
	j.Space()
	switch c := j.look(); {
	case c == 'n':
		return j.word("null", nil)
	case c == 't':
		return j.word("true", true)
	case c == 'f':
		return j.word("false", false)
	case c == '"':
		s, ok := j.str()
		if !ok {
			return nil, false
		}
		return s, true
	case c == '[':
		j.Pos++
		a := []any{}
		j.Space()
		if j.look() == ']' {
			j.Pos++
			return a, true
		}
		for {
			v, ok := j.Value()
			if !ok {
				return nil, false
			}
			a = append(a, v)
			j.Space()
			switch j.look() {
			case ',':
				j.Pos++
			case ']':
				j.Pos++
				return a, true
			default:
				return nil, false
			}
		}
	case c == '{':
		j.Pos++
		m := map[string]any{}
		j.Space()
		if j.look() == '}' {
			j.Pos++
			return m, true
		}
		for {
			j.Space()
			if j.look() != '"' {
				return nil, false
			}
			k, ok := j.str()
			if !ok {
				return nil, false
			}
			j.Space()
			if j.look() != ':' {
				return nil, false
			}
			j.Pos++
			v, ok := j.Value()
			if !ok {
				return nil, false
			}
			m[k] = v
			j.Space()
			switch j.look() {
			case ',':
				j.Pos++
			case '}':
				j.Pos++
				return m, true
			default:
				return nil, false
			}
		}
	default:
		return j.number()
	}
}

func (j *JSON) digits(b []byte) ([]byte, bool) {
	n := len(b)
	for {
		c := j.look()
		if c < '0' || c > '9' {
			return b, len(b) > n
		}
		for d := '0'; d <= '9'; d++ {
			if c == int(d) {
				b = append(b, byte(d))
			}
		}
		j.Pos++
	}
}

func (j *JSON) number() (any, bool) {
	var b []byte
	if j.look() == '-' {
		b = append(b, '-')
		j.Pos++
	}
	var ok bool
	if j.look() == '0' {
		b = append(b, '0')
		j.Pos++
	} else if b, ok = j.digits(b); !ok {
		return nil, false
	}
	if j.look() == '.' {
		b = append(b, '.')
		j.Pos++
		if b, ok = j.digits(b); !ok {
			return nil, false
		}
	}
	if c := j.look(); c == 'e' || c == 'E' {
		b = append(b, 'e')
		j.Pos++
		if c := j.look(); c == '-' {
			b = append(b, '-')
			j.Pos++
		} else if c == '+' {
			j.Pos++
		}
		if b, ok = j.digits(b); !ok {
			return nil, false
		}
	}
	if j.Numbers {
		return json.Number(string(b)), true
	}
	f, err := strconv.ParseFloat(string(b), 64)
	return f, err == nil
}

// hex gives the value of the four hexadecimal digits at offset off.
func (j *JSON) hex(off int) (n int, ok bool) {
	for i := off; i < off+4; i++ {
		if j.Pos+i >= len(j.S) {
			return 0, false
		}
		h := j.S[j.Pos+i]
		switch {
		case h >= '0' && h <= '9':
			n = n<<4 | int(h-'0')
		case h >= 'a' && h <= 'f':
			n = n<<4 | int(h-'a'+10)
		case h >= 'A' && h <= 'F':
			n = n<<4 | int(h-'A'+10)
		default:
			return 0, false
		}
	}
	return n, true
}

func (j *JSON) str() (string, bool) {
	j.Pos++
	var b []byte
	for {
		if n := Plain(j.S, j.Pos); n > j.Pos {
			b = append(b, j.S[j.Pos:n]...)
			j.Pos = n
		}
		if j.Pos >= len(j.S) {
			return "", false
		}
		c := j.S[j.Pos]
		j.Pos++
		switch {
		case c == '"':
			return string(b), true
		case c < ' ':
			return "", false
		case c != '\\':
			b = append(b, c)
		default:
			switch j.look() {
			case '"':
				c = '"'
			case '\\':
				c = '\\'
			case '/':
				c = '/'
			case 'b':
				c = '\b'
			case 'f':
				c = '\f'
			case 'n':
				c = '\n'
			case 'r':
				c = '\r'
			case 't':
				c = '\t'
			case 'u':
				n, ok := j.hex(1)
				if !ok {
					return "", false
				}
				j.Pos += 4
				if n >= 0x80 {
					j.Pos++
					r := rune(n)
					if utf16.IsSurrogate(r) {
						// half of a pair, with the other half next, or bad
						r = utf8.RuneError
						if j.look() == '\\' && j.Pos+1 < len(j.S) && j.S[j.Pos+1] == 'u' {
							if m, ok := j.hex(2); ok {
								if r = utf16.DecodeRune(rune(n), rune(m)); r != utf8.RuneError {
									j.Pos += 6
								}
							}
						}
					}
					b = append(b, string(r)...)
					continue
				}
				c = byte(n)
			default:
				return "", false
			}
			b = append(b, c)
			j.Pos++
		}
	}
}

// Encode writes v as JSON text, as encoding/json does.
func Encode(v any, indent string) string { return string(encode(nil, v, "\n", indent)) }

func encode(b []byte, v any, nl, indent string) []byte {
	in := nl + indent
	if indent == "" {
		nl, in = "", ""
	}
	switch v := v.(type) {
	case nil:
		return append(b, "null"...)
	case bool:
		if v {
			return append(b, "true"...)
		}
		return append(b, "false"...)
	case float64:
		return append(b, strconv.FormatFloat(v, 'f', -1, 64)...)
	case json.Number:
		return append(b, string(v)...)
	case string:
		return quote(b, v)
	case []any:
		if v == nil {
			return append(b, "null"...)
		}
		if len(v) == 0 {
			return append(b, "[]"...)
		}
		b = append(b, '[')
		for i, e := range v {
			if i > 0 {
				b = append(b, ',')
			}
			b = append(b, in...)
			b = encode(b, e, in, indent)
		}
		b = append(b, nl...)
		return append(b, ']')
	case map[string]any:
		if len(v) == 0 {
			return append(b, "{}"...)
		}
		b = append(b, '{')
		var ks []string
		for k := range v {
			ks = append(ks, k)
		}
		for i := range ks {
			for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
				ks[j], ks[j-1] = ks[j-1], ks[j]
			}
		}
		for i, k := range ks {
			if i > 0 {
				b = append(b, ',')
			}
			b = append(b, in...)
			b = append(quote(b, k), ':')
			if indent != "" {
				b = append(b, ' ')
			}
			b = encode(b, v[k], in, indent)
		}
		b = append(b, nl...)
		return append(b, '}')
	}
	panic("not a JSON value")
}

func quote(b []byte, s string) []byte {
	const hex = "0123456789abcdef"
	b = append(b, '"')
	for i := 0; i < len(s); i++ {
		if n := Plain(s, i); n > i {
			b = append(b, s[i:n]...)
			i = n - 1
			continue
		}
		c := s[i]
		switch {
		case c == '"' || c == '\\':
			b = append(b, '\\', c)
		case c == '\n':
			b = append(b, "\\n"...)
		case c == '\t':
			b = append(b, "\\t"...)
		case c == '\r':
			b = append(b, "\\r"...)
		case c == '\b':
			b = append(b, "\\b"...)
		case c == '\f':
			b = append(b, "\\f"...)
		case c < ' ' || c == '<' || c == '>' || c == '&':
			b = append(b, "\\u00"...)
			b = append(b, hex[c>>4], hex[c&15])
		default:
			b = append(b, c)
		}
	}
	return append(b, '"')
}
