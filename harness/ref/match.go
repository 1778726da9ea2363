package ref

import "verifharness/sym"

func (t *Tree) size() int {
	if t == nil {
		return 0
	}
	if t.Leaf {
		return 1
	}
	n := 0
	for _, k := range t.Kids {
		n += k.size()
	}
	return n
}

// Match tells whether list is an order of the results in t.
func (t *Tree) Match(list []any) bool {
	if t.size() != len(list) {
		return false
	}
	if t == nil {
		return true
	}
	return t.match(list)
}

// match has list of the right size.
func (t *Tree) match(list []any) bool {
	if t.Leaf {
		return sym.Same(t.V, list[0])
	}
	if !t.Bag || len(t.Kids) == 1 {
		for _, k := range t.Kids {
			n := k.size()
			if !k.match(list[:n]) {
				return false
			}
			list = list[n:]
		}
		return true
	}
	return bag(t.Kids, make([]bool, len(t.Kids)), list)
}

// bag matches the kids that are not used yet in any order.
func bag(kids []*Tree, used []bool, list []any) bool {
	if len(list) == 0 {
		return true
	}
	for i, k := range kids {
		n := k.size()
		if used[i] || n == 0 || n > len(list) || !k.match(list[:n]) {
			continue
		}
		used[i] = true
		if bag(kids, used, list[n:]) {
			return true
		}
		used[i] = false
	}
	return false
}

// Values are the results in one of their orders.
func (t *Tree) Values() []any {
	if t == nil {
		return []any{}
	}
	if t.Leaf {
		return []any{t.V}
	}
	l := []any{}
	for _, k := range t.Kids {
		l = append(l, k.Values()...)
	}
	return l
}
