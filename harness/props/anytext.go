package props

import "verifharness/sym"

// anyText is a string of up to 12 (thorough: 24) bytes, each any letter, underscore or space.
func anyText(name string) string {
	return sym.String(name, sym.Choose(name+".len", tier(13, 25)), "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_ ")
}

// variant is s, or s changed at its end.
func variant(s string) string {
	switch sym.Choose("variant", 4) {
	case 1:
		return s + "a"
	case 2:
		if s != "" {
			return s[:len(s)-1]
		}
	case 3:
		if s != "" {
			return s[:len(s)-1] + "~"
		}
	}
	return s
}

// fill replaces each % in form by s.
func fill(form, s string) string {
	r := ""
	for i := 0; i < len(form); i++ {
		if form[i] == '%' {
			r += s
		} else {
			r += form[i : i+1]
		}
	}
	return r
}

// C15_AnyText: strings of up to 12 (thorough: 24) bytes, of the document and as literals, as conditions and operands of
// ||, && and !.
func C15_AnyText() {
	k := anyText("k")
	text := pickText("form", "$[?(@)]", "$[?(!@)]", "$[?((@ || 1) == $[0])]", "$[?((@ && 2) == 2)]", "$[?('%')]", "$[?(!'%')]", "$[?(('%' || 1) == $[0])]", "$[?((1 && '%') == $[0])]")
	checkEval(fill(text, k), []any{k, 1.0, nil, k + "a"})
}

// C12_AnyText: a string of up to 12 (thorough: 24) bytes against itself or one that differs at the end.
func C12_AnyText() {
	k := anyText("k")
	text := pickText("form", "$[?(@ == $[1])]", "$[?(@ != $[1])]", "$[?(@ == '%')]", "$[?('%' != @)]", "$[?([@] == ['%'])]", "$[?([@] == '%')]", "$[?(@ == true)]", "$[?(@ == null)]", "$[?(@ == 0)]")
	checkEval(fill(text, k), []any{variant(k), k, 1.0, nil, true, []any{k}})
}

// C13_AnyText: a string of up to 12 (thorough: 24) bytes before, after or like itself or one that differs at the end,
// and numbers.
func C13_AnyText() {
	k := anyText("k")
	text := pickText("form", "$[?(@ < $[1])]", "$[?(@ <= $[1])]", "$[?(@ > '%')]", "$[?('%' >= @)]")
	checkEval(fill(text, k), []any{variant(k), k, 1.0, nil, true})
}

// C16_AnyText: a string of up to 12 (thorough: 24) bytes in lists with it or one that differs at the end, and ~ with a
// pattern of it.
func C16_AnyText() {
	k := anyText("k")
	text := pickText("form", "$[?(@ in [1, '%'])]", "$[?(@ nin ['%', 'a'])]", "$[?('%' in [@])]", "$[?(@ in $[2])]", "$[?(@ nin $[2])]")
	checkEval(fill(text, k), []any{variant(k), k, []any{1.0, k}})
}

// C17_AnyText: the functions of strings on any string of up to 12 (thorough: 24) bytes.
func C17_AnyText() {
	k := anyText("k")
	text := pickText("form", "$[?(starts_with(@, $[1]))]", "$[?(ends_with(@, 'a'))]", "$[?(contains(@, $[1]))]", "$[?(length(@) == length($[1]))]", "$[?(min(@, $[1]) == $[1])]", "$[?(max(@, $[1]) == $[1])]",
		"$[?(contains([1, '%'], @))]", "$[?(to_number(@))]", "$[?(keys($[2]) == [$[1]])]")
	checkEval(fill(text, k), []any{variant(k), k, map[string]any{k: 1.0}})
}

// C17_AnyCall: a call of a function of any name of up to 12 (thorough: 24) bytes, with up to three arguments.
// sym: weight=2
func C17_AnyCall() {
	k := anyName()
	if k == "true" || k == "false" || k == "null" {
		return // not a name here
	}
	args := pickText("args", "", "@", "@, 'a'", "@, 1, 2")
	checkEval("$[?("+k+"("+args+"))]", []any{"a", 1.0, []any{1.0, "a"}, map[string]any{"a": 1.0}, nil}[:1+sym.Choose("n", 5)])
}

// C11_AnyText: a computed subscript that is any string of up to 12 (thorough: 24) bytes.
func C11_AnyText() {
	k := anyText("k")
	text := pickText("form", "$.v[($.k)]", "$.v.($.k)", "$..[($.k)]", "$.v[('%')]", "$..('%')", "$.v[($.k)].a")
	checkEval(fill(text, k), map[string]any{"k": k, "v": map[string]any{variant(k): map[string]any{"a": 1.0}}})
}

// C10_AnyText: filters that select by a member that is any string of up to 12 (thorough: 24) bytes.
func C10_AnyText() {
	k := anyText("k")
	text := pickText("form", "$[?(@.t == '%')]", "$[?(@.t)].n", "$..[?(@.t == '%')].n", "$[?(@['t'] == $[1].t)]", "$[?(@.t == '%' && @.n)]")
	checkEval(fill(text, k), []any{map[string]any{"t": variant(k), "n": 1.0}, map[string]any{"t": k, "n": 2.0}, map[string]any{k: 3.0}, k})
}

// C18_AnyText: results that are any string of up to 12 (thorough: 24) bytes, or named so.
func C18_AnyText() {
	k := anyText("k")
	checkEval(pickText("path", "$", "$.*", "$..*", "$[0]", "$[:2]", "$[1]['a']", "$[-1].*", "$[?(true)]"), []any{k, map[string]any{"a": k, k + "1": k}, map[string]any{k: k}})
}
