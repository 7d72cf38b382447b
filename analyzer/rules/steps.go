package rules

import (
	"go/types"

	"trypocheck/eng"
)

// Change says how a list became another one.
type Change struct {
	Kind string // same, add, remove, empty, other
	Elem *eng.Term
	Idx  *eng.Term
	From *eng.Term // the list as written in the removal
	At   *eng.Val  // where elements are moved
}

// removal: new is old without one element; at is a point after it was made.
func removal(t *eng.Terms, new *eng.Term) (old, idx *eng.Term, ok bool) {
	old, idx, v := removalAt(t, new)
	return old, idx, v != nil
}

// removalAt also gives the instruction that moves the other elements.
func removalAt(t *eng.Terms, new *eng.Term) (old, idx *eng.Term, at *eng.Val) {
	cut := func(a, b *eng.Term) (*eng.Term, *eng.Term, *eng.Val) {
		// a = L[:i], b = L[i+1:]
		if a.Op != eng.OpSlice || b.Op != eng.OpSlice || a.Args[0] != b.Args[0] || a.Args[1] != nil || a.Args[2] == nil || b.Args[1] == nil || a.Args[3] != nil {
			return nil, nil, nil
		}
		if b.Args[2] != nil {
			if d, ok := t.Diff(b.Args[2], t.Len(b.Args[0], nil)); !ok || d != 0 {
				return nil, nil, nil
			}
		}
		if d, ok := t.Diff(b.Args[1], a.Args[2]); !ok || d != 1 {
			return nil, nil, nil
		}
		return a.Args[0], a.Args[2], new.V
	}
	switch new.Op {
	case eng.OpAppend:
		if len(new.V.Args) != 2 {
			return nil, nil, nil
		}
		return cut(t.Of(new.V.Args[0]), t.Of(new.V.Args[1]))
	case eng.OpSlice:
		// copy(L[i:], L[i+1:]); L[:len(L)-1]
		l := new.Args[0]
		if new.Args[1] != nil || new.Args[2] == nil || new.V == nil {
			return nil, nil, nil
		}
		if d, ok := t.Diff(new.Args[2], t.Len(l, nil)); !ok || d != -1 {
			return nil, nil, nil
		}
		for b, i := new.V.Blk, len(new.V.Blk.Instrs); b != nil; {
			for j := i - 1; j >= 0; j-- {
				v := b.Instrs[j]
				if v.Op == eng.OpStore {
					if p := t.PathOf(v.Args[0]); p.Root == l {
						return nil, nil, nil
					}
				}
				if v.Op != eng.OpCopy {
					continue
				}
				d, s := t.Of(v.Args[0]), t.Of(v.Args[1])
				if s.Op != eng.OpSlice || s.Args[0] != l || s.Args[2] != nil || s.Args[1] == nil {
					return nil, nil, nil
				}
				at := t.Int(0)
				if d != l {
					if d.Op != eng.OpSlice || d.Args[0] != l || d.Args[2] != nil || d.Args[1] == nil {
						return nil, nil, nil
					}
					at = d.Args[1]
				}
				if k, ok := t.Diff(s.Args[1], at); !ok || k != 1 {
					return nil, nil, nil
				}
				return l, at, v
			}
			if len(b.Preds) != 1 {
				return nil, nil, nil
			}
			b = b.Preds[0]
			i = len(b.Instrs)
		}
	}
	return nil, nil, nil
}

// changeOf compares two versions of a list.
func changeOf(t *eng.Terms, old, new *eng.Term, res func(*eng.Term) *eng.Term) Change {
	if res == nil {
		res = func(x *eng.Term) *eng.Term { return x }
	}
	if old == new {
		return Change{Kind: "same"}
	}
	if emptyList(new) {
		return Change{Kind: "empty"}
	}
	if l, i, v := removalAt(t, new); v != nil && (l == old || res(l) == old) {
		return Change{Kind: "remove", Idx: i, From: l, At: v}
	}
	if new.Op == eng.OpAppend && res(t.Of(new.V.Args[0])) == old {
		el, sp := appended(t, new.V)
		if sp == nil && len(el) == 1 {
			return Change{Kind: "add", Elem: el[0]}
		}
	}
	return Change{Kind: "other"}
}

func isExpired(v *eng.Val) bool { return v.Op == eng.OpCall && Callee(v) == "DataPoint.Expired" }

// expiredOf gives the datapoint (term) that a condition tests for being expired.
func expiredOf(t *eng.Terms, cond *eng.Term) *eng.Term {
	if cond == nil || cond.Op != eng.OpCall || cond.V == nil || !isExpired(cond.V) {
		return nil
	}
	a := cond.V.Args[0]
	p, ok := a.Typ.Underlying().(*types.Pointer)
	if !ok {
		return t.Of(a)
	}
	return t.LoadAt(t.PathOf(a), p.Elem(), cond.V)
}

// knownExpired: under some facts, the datapoint at a position of a list has (not)
// expired.
func knownExpired(t *eng.Terms, f *eng.FactSet, list, idx *eng.Term, res func(*eng.Term) *eng.Term) (val, known bool) {
	for _, x := range f.List() {
		dp := expiredOf(t, x.Cond)
		if dp == nil {
			continue
		}
		if res != nil {
			dp = res(dp)
		}
		l, i, fields := elemAt(dp)
		if l == list && len(fields) == 0 && (i == idx || sameInt(t, i, idx)) {
			return x.Val, true
		}
	}
	return false, false
}

func sameInt(t *eng.Terms, a, b *eng.Term) bool {
	d, ok := t.Diff(a, b)
	return ok && d == 0
}
