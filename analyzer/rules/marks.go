package rules

import (
	"go/types"
	"strconv"

	"trypocheck/eng"
)

// markSet is a local set of positions of the own list.
type markSet struct {
	m     *eng.Term
	list  *eng.Term // what the positions refer to
	sites []*eng.Val
	bad   string
	badAt string
	used  bool
}

// memberOf: cond says whether a position is in a set.
func memberOf(cond *eng.Term) (m, key *eng.Term) {
	if cond.Op == eng.OpExtract && cond.Aux == "1" {
		cond = cond.Args[0]
	}
	if cond.Op == eng.OpLookup && cond.Args[0].Op == eng.OpMakeMap {
		return cond.Args[0], cond.Args[1]
	}
	if l, i, fs := elemAt(cond); l != nil && len(fs) == 0 && l.Op == eng.OpMakeSlice && isBoolType(cond.Typ) {
		return l, i
	}
	return nil, nil
}

// markSite: an instruction that adds a position to a set.
func markSite(t *eng.Terms, v *eng.Val) (m, key, val *eng.Term) {
	switch v.Op {
	case eng.OpMapUpdate:
		m = t.Of(v.Args[0])
		if m.Op != eng.OpMakeMap {
			return nil, nil, nil
		}
		mt, ok := m.Typ.Underlying().(*types.Map)
		if !ok || !isIntType(mt.Key()) {
			return nil, nil, nil
		}
		if st, ok := mt.Elem().Underlying().(*types.Struct); ok && st.NumFields() == 0 {
			return m, t.Of(v.Args[1]), t.Bool(true)
		}
		if isBoolType(mt.Elem()) {
			return m, t.Of(v.Args[1]), t.Of(v.Args[2])
		}
	case eng.OpStore:
		p := t.PathOf(v.Args[0])
		if p.Root.Op == eng.OpMakeSlice && len(p.Steps) == 1 && p.Steps[0].Idx != nil && isBoolType(v.Args[1].Typ) {
			return p.Root, p.Steps[0].Idx, t.Of(v.Args[1])
		}
	}
	return nil, nil, nil
}

func isIntType(tp types.Type) bool {
	b, ok := tp.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// notMember: a position is known not to be in a set (at some earlier time).
func notMember(t *eng.Terms, f *eng.FactSet, m, key *eng.Term) bool {
	for _, y := range f.List() {
		if n, k := memberOf(y.Cond); n == m && !y.Val && sameInt(t, k, key) {
			return true
		}
	}
	return false
}

// differ: two positions are known to be different.
func differ(t *eng.Terms, f *eng.FactSet, a, b *eng.Term) bool {
	if d, ok := t.Diff(a, b); ok && d != 0 {
		return true
	}
	v, known := f.Truth(t.Bin(eqTok, a, b, types.Typ[types.Bool]))
	if known && !v {
		return true
	}
	v, known = f.Truth(t.Bin(eqTok, b, a, types.Typ[types.Bool]))
	return known && !v
}

// ownElem: an element of the own list, and its position.
func (f *Flow) ownElem(x *eng.Term, list *eng.Term) *eng.Term {
	if l, i, fs := elemAt(x); l != nil && len(fs) == 0 && l == list {
		return i
	}
	return nil
}

// findMarks finds the sets of positions of absorbed centroids.
func (f *Flow) findMarks() {
	if f.list == nil || f.exp {
		return
	}
	t := f.t
	sets := map[*eng.Term]*markSet{}
	f.g.EachOwn(func(v *eng.Val) {
		m, _, val := markSite(t, v)
		if m == nil {
			return
		}
		s := sets[m]
		l := t.LoadAt(f.list, f.listT, v)
		if s == nil {
			s = &markSet{m: m, list: l}
			sets[m] = s
			f.marks = append(f.marks, s)
		}
		s.sites = append(s.sites, v)
		if b, ok := val.Bool(); !ok || !b {
			s.no(v, "marks are taken back")
		}
		if l != s.list {
			s.no(v, "the list changes while positions are remembered")
		}
	})
	for _, s := range f.marks {
		f.g.Each(func(v *eng.Val) {
			switch v.Op {
			case eng.OpMapUpdate, eng.OpLookup, eng.OpLen, eng.OpRange, eng.OpIndexAddr, eng.OpEnter, eng.OpLeave:
				return
			}
			for _, a := range v.Args {
				if a != nil && a.Typ != nil && types.Identical(a.Typ, s.m.Typ) && t.Of(a) == s.m {
					s.no(v, "the set of marks is used in other ways")
				}
			}
		})
		// nothing is given to a marked centroid
		f.g.EachOwn(func(v *eng.Val) {
			if Callee(v) != "Centroid.AddDataPoint" {
				return
			}
			i := f.ownElem(t.Of(v.Args[0]), s.list)
			if i == nil {
				if t.Of(v.Args[0]).Op != eng.OpAlloc {
					s.no(v, "a datapoint is given to an unknown centroid while others are marked for removal")
				}
				return
			}
			if !notMember(t, t.BlockFacts(v.Blk), s.m, i) {
				s.no(v, "a datapoint is given to a centroid that may be marked for removal")
			}
			for _, w := range s.sites {
				_, k, _ := markSite(t, w)
				if !differ(t, t.BlockFacts(w.Blk), k, i) {
					s.no(w, "a centroid that takes datapoints of others may be marked for removal itself")
				}
			}
		})
	}
}

func (s *markSet) no(v *eng.Val, why string) {
	if s.bad == "" {
		s.bad, s.badAt = why, v.Where()
	}
}

// markEvents notes what is marked and what has been emptied.
func (f *Flow) markEvent(e *St, v *eng.Val) {
	t := f.t
	if m, key, _ := markSite(t, v); m != nil {
		for _, s := range f.marks {
			if s.m != m {
				continue
			}
			k := toks(e)
			if k.find("Z", f.id(e.Resolve(key))) != nil {
				return
			}
			k.with("M:" + f.id(e.Resolve(key)) + ":" + strconv.Itoa(m.ID)).put(e)
		}
		return
	}
	if is, _ := f.source(v); is && isDrain(Callee(v)) {
		x := e.Resolve(t.Of(v.Args[0]))
		for _, s := range f.marks {
			i := f.ownElem(x, s.list)
			if i == nil || !f.whole(e, v, x) {
				continue
			}
			n := f.id(e.Resolve(i))
			toks(e).without(func(q []string) bool { return q[0] == "M" && q[1] == n }).with("Z:" + n).put(e)
			return
		}
	}
}

func isDrain(n string) bool {
	return n == "Centroid.DrainUnordered" || n == "Centroid.DrainOrdered"
}

// whole: all datapoints of a centroid are asked for.
func (f *Flow) whole(e *St, v *eng.Val, x *eng.Term) bool {
	t := f.t
	n := e.Resolve(t.Of(v.Args[1]))
	if n.Op == eng.OpCall && n.V != nil && Callee(n.V) == "Centroid.LenDP" && e.Resolve(t.Of(n.V.Args[0])) == x {
		return true
	}
	cn := f.c.P.Named(pCent, "Centroid")
	lf := f.lists[pCent+".Centroid"][0]
	tp := fieldType(cn, lf)
	return sameInt(t, n, t.Len(t.LoadAt(t.FieldLoc(t.PtrLoc(x), cn, lf), tp, v), v))
}

// unmarked: at the end of an iteration nothing may be marked without being empty.
func (f *Flow) markEnd(e *St, v *eng.Val, back *eng.Loop) {
	k := toks(e)
	for _, x := range k {
		p := splitTok(x)
		if p[0] != "M" {
			continue
		}
		key := f.term(p[1])
		if back != nil && f.t.Invariant(back, key) {
			continue
		}
		for _, s := range f.marks {
			if strconv.Itoa(s.m.ID) != p[2] {
				continue
			}
			et := eng.ElemType(f.listT)
			c := f.t.LoadAt(f.t.ElemLoc(s.list, key, et), et, v)
			if !f.hollow(e, c, v) {
				s.no(v, "a centroid is marked for removal without all of its datapoints being taken out")
			}
		}
	}
	k.without(func(q []string) bool {
		return (q[0] == "M" || q[0] == "Z") && (back == nil || !f.t.Invariant(back, f.term(q[1])))
	}).put(e)
}

// markedAt: the element at a position of a list is known to be marked.
func (f *Flow) markedAt(e *St, list, idx *eng.Term) bool {
	t := f.t
	for _, y := range e.Facts().List() {
		m, k := memberOf(y.Cond)
		if m == nil || !y.Val || !sameInt(t, k, idx) {
			continue
		}
		for _, s := range f.marks {
			if s.m == m && f.stillThere(s, list, idx) {
				s.used = true
				return true
			}
		}
	}
	return false
}

// stillThere: a position of a list is the same element as in the list that was marked.
func (f *Flow) stillThere(s *markSet, list, idx *eng.Term) bool {
	t := f.t
	if list == s.list {
		return true
	}
	b := list.JoinBlk()
	if b == nil {
		return false
	}
	l := f.g.LoopAt(b)
	if l == nil {
		return false
	}
	entry, back := t.Carried(l, list)
	for _, x := range entry {
		if x != s.list {
			return false
		}
	}
	// only what comes after the position has changed so far
	for _, x := range back {
		for _, lf := range t.Leaves(x, func(y *eng.Term) bool { return y == list }) {
			if lf == list {
				continue
			}
			old, i, ok := removal(t, lf)
			if !ok || old != list || !sameInt(t, i, idx) {
				return false
			}
		}
	}
	for _, j := range condAtoms(t, idx) {
		if j.JoinBlk() == b {
			if d, ok := t.Diff(idx, j); !ok || d < -1000 || d > 1000 {
				return false
			}
			_, ds, ok := t.Induction(l, j)
			if !ok {
				return false
			}
			for d := range ds {
				if d >= 0 {
					return false
				}
			}
			return true
		}
	}
	return false
}

// judgeMarks reports unsound sets that removals relied on.
func (f *Flow) judgeMarks() {
	for _, s := range f.marks {
		if s.used && s.bad != "" {
			k := "lost" + s.badAt + s.bad
			if !f.seen[k] {
				f.seen[k] = true
				f.Bad = append(f.Bad, flowBad{"lost", s.badAt, s.bad})
			}
		}
	}
}
