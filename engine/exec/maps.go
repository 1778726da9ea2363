package exec

import (
	"go/types"
	"strconv"

	"symgo/smt"
)

func (ex *Exec) newMap(kt types.Type) *MapObj {
	ex.nextObj++
	return &MapObj{id: ex.nextObj, idx: map[string]*MapEnt{}, kt: kt, base: ex.inBase}
}

// mapKey gives a canonical text for concrete keys.
func (ex *Exec) mapKey(k Value, kt types.Type) (string, bool) {
	switch u := kt.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			s, ok := concStr(k)
			return s, ok
		}
		if k.T != nil {
			return "", false
		}
		if u.Info()&types.IsFloat != 0 {
			return "", false
		}
		return strconv.FormatUint(k.N, 16), true
	case *types.Interface:
		i := ex.force(k)
		if i == nil {
			return "nil", true
		}
		if !types.Comparable(i.T.T) {
			ex.goPanicStr("hash of unhashable type " + i.T.name)
		}
		s, ok := ex.mapKey(i.V, i.T.T)
		return i.T.name + ":" + s, ok
	}
	return "", false
}

func (ex *Exec) touchMap(m *MapObj) {
	if ex.noFork > 0 {
		panic(regionBail{})
	}
	if m.doc {
		ex.docWrite("object")
	}
	ex.raceMap(m, true)
	if m.base && !ex.inBase && !m.saved {
		m.saved = true
		u := undoMap{m: m, ents: append([]*MapEnt(nil), m.ents...)}
		for _, e := range m.ents {
			u.vals = append(u.vals, *e)
		}
		ex.undoM = append(ex.undoM, u)
	}
}

func (m *MapObj) restore(u *undoMap) {
	m.saved = false
	m.ents = u.ents
	m.idx = map[string]*MapEnt{}
	m.nsym = 0
	m.count = 0
	for i, e := range u.ents {
		*e = u.vals[i]
		if !e.dead {
			m.count++
			if e.key != "" || e.isc {
				m.idx[e.key] = e
			} else {
				m.nsym++
			}
		}
	}
}

func (ex *Exec) mapFind(m *MapObj, k Value, kt types.Type) *MapEnt {
	if m.Lz != nil {
		ex.lazyFind(m, k)
	}
	s, conc := ex.mapKey(k, kt)
	if conc {
		if e := m.idx[s]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead || conc && e.isc {
			continue
		}
		if ex.branch(ex.eqTerm(kt, k, e.K)) {
			return e
		}
	}
	return nil
}

func (ex *Exec) mapGet(m *MapObj, k Value, kt types.Type) (Value, bool) {
	if m == nil {
		return Value{}, false
	}
	ex.raceMap(m, false)
	e := ex.mapFind(m, k, kt)
	if e == nil {
		return Value{}, false
	}
	return e.V, true
}

func (ex *Exec) mapPut(m *MapObj, k, v Value, kt types.Type) {
	e := ex.mapFind(m, k, kt)
	ex.touchMap(m)
	if e != nil {
		e.V = v
		return
	}
	e = &MapEnt{K: k, V: v}
	m.ents = append(m.ents, e)
	m.count++
	if s, ok := ex.mapKey(k, kt); ok {
		e.key, e.isc = s, true
		m.idx[s] = e
	} else {
		m.nsym++
	}
}

func (ex *Exec) mapDelete(m *MapObj, k Value, kt types.Type) {
	e := ex.mapFind(m, k, kt)
	if e == nil {
		return
	}
	ex.touchMap(m)
	e.dead = true
	m.count--
	if e.isc {
		delete(m.idx, e.key)
	} else {
		m.nsym--
	}
	n := make([]*MapEnt, 0, len(m.ents))
	for _, x := range m.ents {
		if x != e {
			n = append(n, x)
		}
	}
	m.ents = n
}

func (ex *Exec) mapClear(m *MapObj) {
	if m == nil {
		return
	}
	ex.lazyAll(m)
	ex.touchMap(m)
	for _, e := range m.ents {
		e.dead = true
	}
	m.ents, m.idx, m.count, m.nsym = nil, map[string]*MapEnt{}, 0, 0
}

func (ex *Exec) mapLen(m *MapObj) int {
	if m == nil {
		return 0
	}
	ex.lazyAll(m)
	ex.raceMap(m, false)
	return m.count
}

func (ex *Exec) mapRange(m *MapObj) *mapIter {
	if m == nil {
		return &mapIter{}
	}
	ex.lazyAll(m)
	ex.raceMap(m, false)
	ents := append([]*MapEnt(nil), m.ents...)
	if ex.path.permute && len(ents) > 1 && len(ents) <= 4 {
		// any order
		for i := range ents {
			if j := i + ex.choose("", len(ents)-i); j != i {
				ents[i], ents[j] = ents[j], ents[i]
			}
		}
	}
	return &mapIter{m: m, ents: ents}
}

var _ = smt.SBool
