package rules

import (
	"fmt"
	"go/types"

	"trypocheck/eng"
)

// MapOf describes a list that has one element per element of another list.
type MapOf struct {
	Cv       *Cover
	Elems    []*eng.Term // what the element for the current element may be
	At       *eng.Val    // where
	Filtered bool        // some elements may be left out
	Indexed  bool        // stored by position (order is kept in any case)
}

func emptyList(x *eng.Term) bool {
	if x.IsNil() {
		return true
	}
	switch x.Op {
	case eng.OpMakeSlice:
		n, ok := x.V.Args[0].IntConst()
		return ok && n == 0
	case eng.OpSlice:
		if x.Args[2] != nil {
			if n, ok := x.Args[2].Int(); ok && n == 0 && x.Args[1] == nil {
				return true
			}
		}
		// []T{}
		if x.Args[0].Op == eng.OpAlloc && x.Args[1] == nil && x.Args[2] == nil {
			if pt, ok := x.Args[0].Typ.Underlying().(*types.Pointer); ok {
				if a, ok := pt.Elem().Underlying().(*types.Array); ok && a.Len() == 0 {
					return true
				}
			}
		}
	}
	return false
}

// mapLoop recognises lists made by visiting all elements of another one.
// empty tells which other terms are known to be empty lists.
func mapLoop(g *eng.Graph, t *eng.Terms, x *eng.Term, empty func(*eng.Term) bool) (*MapOf, string) {
	isEmpty := func(y *eng.Term) bool { return emptyList(y) || empty != nil && empty(y) }
	// copy(res, src) into a list of the same length is handled by the callers.
	if b := x.JoinBlk(); b != nil {
		l := b.G.LoopAt(b)
		if l == nil {
			// a join of the list with an empty one, e.g. if the source is empty
			var one *eng.Term
			for _, lf := range t.Leaves(x, func(y *eng.Term) bool { return y.JoinBlk() != nil && y.JoinBlk().IsLoopHeader() }) {
				if isEmpty(lf) && len(lf.Args) == 0 {
					continue
				}
				if one != nil && one != lf {
					return nil, "several lists may arrive here"
				}
				one = lf
			}
			if one == nil || one == x {
				return nil, "not a list built by a loop"
			}
			return mapLoop(g, t, one, empty)
		}
		cv := cover(t, l)
		if cv == nil {
			return nil, "the loop is not known to visit all elements of a list"
		}
		if len(l.Exits()) != 1 {
			return nil, "the loop can be left early"
		}
		entry, back := t.Carried(l, x)
		for _, e := range entry {
			if !isEmpty(e) {
				return nil, fmt.Sprintf("the list is not empty at first: %v", e)
			}
		}
		m := &MapOf{Cv: cv}
		for _, bk := range back {
			for _, lf := range t.Leaves(bk, func(y *eng.Term) bool { return y == x }) {
				if lf == x {
					m.Filtered = true
					continue
				}
				if lf.Op != eng.OpAppend || t.Of(lf.V.Args[0]) != x {
					return nil, fmt.Sprintf("unexpected list in the loop: %v", lf)
				}
				el, sp := appended(t, lf.V)
				if sp != nil || len(el) != 1 {
					return nil, "not exactly one element is appended"
				}
				m.Elems = append(m.Elems, el[0])
				m.At = lf.V
			}
		}
		if len(m.Elems) == 0 {
			return nil, "nothing is ever appended"
		}
		return m, ""
	}
	if x.Op == eng.OpMakeSlice {
		et := eng.ElemType(x.Typ)
		n := t.Of(x.V.Args[0])
		for _, l := range x.V.Graph().Loops() {
			cv := cover(t, l)
			if cv == nil {
				continue
			}
			idx := cv.Idx
			if idx == nil {
				idx = nthEntry(t, cv, n)
			} else if t.Len(cv.List, nil) != n && cv.List != n {
				idx = nil
			}
			if idx == nil {
				continue
			}
			if len(l.Exits()) != 1 {
				continue
			}
			if cv.List.Op == eng.OpLen {
				continue
			}
			m := &MapOf{Cv: cv, Indexed: true}
			ok := true
			loc := t.ElemLoc(x, idx, et)
			for _, la := range l.Latches {
				y := t.LoadAt(loc, et, la.Last())
				outside := func(z *eng.Term) bool { b := z.JoinBlk(); return b != nil && !l.Blocks[b] }
				for _, lf := range t.Leaves(y, outside) {
					if lf.Op == eng.OpMemPhi && lf.Path != nil && eng.SamePath(lf.Path, loc) {
						ok = false
					}
					if lf.Op == eng.OpLoad && lf.Path != nil && eng.SamePath(lf.Path, loc) && (lf.Ver == nil || !l.Blocks[lf.Ver.Blk]) {
						ok = false // not stored
						continue
					}
					m.Elems = append(m.Elems, lf)
				}
				m.At = la.Last()
			}
			if ok && len(m.Elems) > 0 {
				return m, ""
			}
		}
		return nil, "no loop fills every position of the list"
	}
	return nil, fmt.Sprintf("not a list built by a loop: %v", x)
}

// nthEntry: a counter that goes up from zero once per entry of a map that has n
// entries meanwhile.
func nthEntry(t *eng.Terms, cv *Cover, n *eng.Term) *eng.Term {
	if cv.Next == nil || cv.List == nil || cv.List.Typ == nil {
		return nil
	}
	m := cv.List
	if _, isMap := m.Typ.Underlying().(*types.Map); !isMap || !t.Invariant(cv.L, m) {
		return nil
	}
	for _, b := range append([]*eng.Blk{cv.L.Head}, cv.L.Latches...) {
		if last := b.Last(); last == nil || t.Len(m, last) != n {
			return nil
		}
	}
	for _, v := range cv.L.Head.Instrs {
		if v.Op != eng.OpPhi {
			continue
		}
		a := t.Of(v)
		init, deltas, ok := t.Induction(cv.L, a)
		if ok && len(deltas) == 1 && deltas[1] {
			if z, isC := init.Int(); isC && z == 0 {
				return a
			}
		}
	}
	return nil
}

// sel takes a term apart into a root and selected fields.
func sel(x *eng.Term) (root *eng.Term, fields []string) {
	for x != nil {
		switch x.Op {
		case eng.OpField:
			name := x.Aux
			if x.Args[0].Typ != nil {
				if st, ok := x.Args[0].Typ.Underlying().(*types.Struct); ok {
					n := 0
					fmt.Sscan(x.Aux, &n)
					if n < st.NumFields() {
						name = st.Field(n).Name()
					}
				}
			}
			fields = append([]string{name}, fields...)
			x = x.Args[0]
			continue
		case eng.OpLoad, eng.OpMemPhi:
			for i := len(x.Path.Steps) - 1; i >= 0; i-- {
				s := x.Path.Steps[i]
				if s.Idx != nil {
					return x, fields
				}
				fields = append([]string{s.Name}, fields...)
			}
			return x.Path.Root, fields
		}
		break
	}
	return x, fields
}

// fieldTerm gives the field of a struct term by name.
func fieldTerm(t *eng.Terms, x *eng.Term, name string) *eng.Term {
	if x == nil || x.Typ == nil {
		return nil
	}
	st, ok := x.Typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return t.Project(x, i, st.Field(i).Type())
		}
	}
	return nil
}
