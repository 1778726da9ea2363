package ref

import (
	"math"
	"regexp"
	"unicode/utf8"
)

var arity = map[string]int{
	"abs": 1, "avg": 1, "ceil": 1, "contains": 2, "ends_with": 2, "floor": 1, "keys": 1,
	"length": 1, "max": -1, "min": -1, "prod": 1, "starts_with": 2, "sum": 1, "to_number": 1, "tokenize": 2,
}

// Call applies the function called name.
func (ev *Eval) Call(name string, args []any) any {
	n, ok := arity[name]
	if !ok || n >= 0 && n != len(args) {
		ev.Failed = true
		return Missing
	}
	switch name {
	case "max", "min":
		if len(args) == 1 {
			a, ok := args[0].([]any)
			if !ok {
				return Missing
			}
			args = a
		}
		return ev.extreme(args, name == "max")
	}
	if n > 0 && IsMissing(args[0]) {
		if name == "length" {
			return nil
		}
		return Missing
	}
	switch name {
	case "abs":
		switch v := args[0].(type) {
		case int64:
			if v == math.MinInt64 {
				return Missing
			}
			if v < 0 {
				return -v
			}
			return v
		case float64:
			return math.Abs(v)
		}
	case "ceil":
		switch v := args[0].(type) {
		case int64:
			return v
		case float64:
			return math.Ceil(v)
		}
	case "floor":
		switch v := args[0].(type) {
		case int64:
			return v
		case float64:
			return math.Floor(v)
		}
	case "avg", "sum", "prod":
		a, ok := args[0].([]any)
		if !ok {
			return Missing
		}
		if len(a) == 0 {
			if name == "sum" {
				return float64(0)
			}
			return nil
		}
		var r float64
		for i, x := range a {
			_, f, _, ok := num(x)
			switch {
			case !ok:
				return Missing
			case i == 0:
				r = f
			case name == "prod":
				r *= f
			default:
				r += f
			}
		}
		if name == "avg" {
			r /= float64(len(a))
		}
		return r
	case "contains":
		switch a := args[0].(type) {
		case string:
			b, ok := args[1].(string)
			if !ok {
				return Missing
			}
			return within(a, b)
		case []any:
			for _, x := range a {
				if ev.Equal(x, args[1]) {
					return true
				}
				if ev.Open {
					return Missing
				}
			}
			return false
		}
	case "starts_with", "ends_with":
		a, ok := args[0].(string)
		b, ok2 := args[1].(string)
		if !ok || !ok2 {
			return Missing
		}
		if len(b) > len(a) {
			return false
		}
		if name == "starts_with" {
			return a[:len(b)] == b
		}
		return a[len(a)-len(b):] == b
	case "keys":
		if m, ok := args[0].(map[string]any); ok {
			ks := make([]any, 0, len(m))
			for k := range m {
				ks = append(ks, k)
			}
			return ks
		}
	case "length":
		switch v := args[0].(type) {
		case string:
			return int64(utf8.RuneCountInString(v))
		case []any:
			return int64(len(v))
		case map[string]any:
			return int64(len(v))
		}
		return nil
	case "to_number":
		switch v := args[0].(type) {
		case int64, float64:
			return v
		case string:
			return ev.numeral(v)
		}
	case "tokenize":
		a, ok := args[0].(string)
		b, ok2 := args[1].(string)
		if !ok || !ok2 {
			return Missing
		}
		re, err := regexp.Compile(b)
		if err != nil {
			return Missing
		}
		return pieces(a, re)
	}
	return Missing
}

// within tells whether b occurs in a.
func within(a, b string) bool {
	for i := 0; i+len(b) <= len(a); i++ {
		if a[i:i+len(b)] == b {
			return true
		}
	}
	return false
}

// extreme is the greatest or least of numbers or of strings.
func (ev *Eval) extreme(a []any, max bool) any {
	if len(a) == 0 {
		return nil
	}
	nums, strs := 0, 0
	for _, x := range a {
		switch x := x.(type) {
		case int64:
			nums++
			if x > 1<<53 || x < -(1<<53) {
				ev.Open = true
			}
		case float64:
			nums++
		case string:
			strs++
		case bool:
			ev.Open = true
		}
	}
	if ev.Open {
		return Missing
	}
	switch len(a) {
	case nums:
		_, r, _, _ := num(a[0])
		for _, x := range a[1:] {
			_, f, _, _ := num(x)
			if max && f > r || !max && f < r {
				r = f
			}
		}
		return r
	case strs:
		r := a[0].(string)
		for _, x := range a[1:] {
			s := x.(string)
			if max && s > r || !max && s < r {
				r = s
			}
		}
		return r
	}
	return Missing
}

// numeral is the value of a string that is a JSON number.
func (ev *Eval) numeral(s string) any {
	t := s
	neg := len(t) > 0 && t[0] == '-'
	if neg {
		t = t[1:]
	}
	for i := 0; i < len(t); i++ {
		c := t[i]
		if !digit(int(c)) && c != '.' && c != 'e' && c != 'E' && c != '+' && c != '-' {
			if c == 'x' || c == 'X' || c == '_' || c == 'i' || c == 'I' || c == 'n' || c == 'N' {
				ev.Open = true // other notations are not settled
			}
			return Missing
		}
	}
	if len(t) == 0 {
		return Missing
	}
	if t[0] == '+' || t[0] == '.' || len(t) > 1 && t[0] == '0' && digit(int(t[1])) {
		ev.Open = true
		return Missing
	}
	for i := 0; i < len(t); i++ {
		if t[i] == '.' && (i+1 == len(t) || !digit(int(t[i+1]))) {
			ev.Open = true
			return Missing
		}
	}
	v, ok := ev.Decimal(t)
	if !ok {
		return Missing
	}
	if neg {
		return -v
	}
	return v
}

// pieces are the parts of s between matches of re.
func pieces(s string, re *regexp.Regexp) any {
	var r []any
	for _, p := range re.Split(s, -1) {
		r = append(r, p)
	}
	if r == nil {
		r = []any{}
	}
	return r
}
