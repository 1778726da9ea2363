package props

import "verifharness/sym"

// operands is the document [{a, b, c}] of which a and b can be missing.
func operands(a, b string) []any {
	m := map[string]any{}
	if a != "" && sym.Choose("a?", 2) == 0 {
		m["a"] = sym.Doc("a", a)
	}
	if b != "" && sym.Choose("b?", 2) == 0 {
		m["b"] = sym.Doc("b", b)
	}
	return []any{m}
}

// withC adds a number c to the document, to compare results with.
func withC(d []any, mode string) []any {
	d[0].(map[string]any)["c"] = sym.Float("c", mode)
	return d
}
