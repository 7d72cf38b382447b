package rules

import (
	"go/token"
	"go/types"

	"trypocheck/eng"
)

const plus, minus, times, divTok, eqTok, lssTok = token.ADD, token.SUB, token.MUL, token.QUO, token.EQL, token.LSS

// Cover says that a loop visits every element of a list once.
type Cover struct {
	L    *eng.Loop
	List *eng.Term // slice (or map) term
	Idx  *eng.Term // position of the current element
	Back bool
	Next *eng.Val // map iteration
	Exit eng.Edge // the edge on which the list is exhausted
}

// cover recognises loops over all elements of a list.
func cover(t *eng.Terms, l *eng.Loop) *Cover {
	for _, e := range l.Exits() {
		last := e.From.Last()
		if last == nil || last.Op != eng.OpIf || e.From.Succs[0] == e.From.Succs[1] {
			continue
		}
		// The exit has to be tested before anything else in every iteration.
		if e.From != l.Head && !onlyStraight(l, e.From) {
			continue
		}
		c := t.Of(last.Args[0])
		if e.To == e.From.Succs[0] {
			c = t.Not(c)
		}
		if cv := coverCond(t, l, c); cv != nil {
			cv.Exit = e
			return cv
		}
	}
	return nil
}

// onlyStraight: b is reached from the head without branching and dominates the latches.
func onlyStraight(l *eng.Loop, b *eng.Blk) bool {
	for _, x := range l.Latches {
		if !b.Dominates(x) {
			return false
		}
	}
	return true
}

// coverCond: c is the condition for staying in the loop.
func coverCond(t *eng.Terms, l *eng.Loop, c *eng.Term) *Cover {
	if c.Op == eng.OpExtract && c.Aux == "0" && c.Args[0].Op == eng.OpNext && c.Args[0].V != nil {
		nx := c.Args[0].V
		if !l.Blocks[nx.Blk] {
			return nil
		}
		rg := nx.Args[0]
		if rg.Op != eng.OpRange {
			return nil
		}
		return &Cover{L: l, List: t.Of(rg.Args[0]), Next: nx}
	}
	var sum *eng.Term
	k := int64(0)
	switch {
	case c.Op == eng.OpBin && (c.Aux == "<" || c.Aux == "!="):
		n, ok := c.Args[1].Int()
		if !ok {
			return nil
		}
		sum, k = c.Args[0], n
	default:
		return nil
	}
	m, c0 := t.Lin(sum)
	k -= c0
	var lenT, ph *eng.Term
	var lc, pc int64
	for a, n := range m {
		switch {
		case a.Op == eng.OpLen && a.Aux == "":
			if lenT != nil {
				return nil
			}
			lenT, lc = a, n
		case a.JoinBlk() == l.Head:
			if ph != nil {
				return nil
			}
			ph, pc = a, n
		default:
			// an amount that is the length of a list (make([]T, n))
			if lenT != nil {
				return nil
			}
			lenT, lc = a, n
		}
	}
	if ph == nil {
		return nil
	}
	init, deltas, ok := t.Induction(l, ph)
	if !ok || len(deltas) != 1 {
		return nil
	}
	if c.Aux == "!=" && pc < 0 {
		pc, lc, k = -pc, -lc, -k
	}
	switch {
	case pc == 1 && (lenT != nil && lc == -1 || lenT == nil):
		// ph - len < k   <=>  ph - k < len
		if c.Aux == "!=" { // ph - len != k: stays while ph - k != len
			// same index as for <
		}
		if !deltas[1] {
			return nil
		}
		idx := addK(t, ph, -k)
		if lenT == nil {
			// a list of known length
			if n, isC := init.Int(); !isC || n < -1 {
				return nil
			} else if x := constList(t, l, idxFrom(t, ph, n), k-n); x != nil {
				return &Cover{L: l, List: x, Idx: idxFrom(t, ph, n)}
			}
			return nil
		}
		first := addK(t, init, -k)
		if n, isC := first.Int(); !isC || n != 0 {
			return nil
		}
		if !t.Invariant(l, lenT) {
			return nil
		}
		if lenT.Op == eng.OpLen && lenT.Aux == "" {
			return &Cover{L: l, List: lenT.Args[0], Idx: idx}
		}
		return &Cover{L: l, List: lenT, Idx: idx}
	case pc == -1 && lenT == nil && c.Aux == "<":
		// -ph < k  <=>  ph + k - 1 >= 0
		if !deltas[-1] {
			return nil
		}
		idx := addK(t, ph, k-1)
		first := addK(t, init, k-1)
		// first must be len-1
		fm, fc := t.Lin(first)
		if fc != -1 || len(fm) != 1 {
			return nil
		}
		for a, n := range fm {
			if n != 1 {
				return nil
			}
			if a.Op == eng.OpLen && a.Aux == "" {
				return &Cover{L: l, List: a.Args[0], Idx: idx, Back: true}
			}
			return &Cover{L: l, List: a, Idx: idx, Back: true}
		}
	}
	return nil
}

func idxFrom(t *eng.Terms, ph *eng.Term, first int64) *eng.Term { return addK(t, ph, -first) }

// constList: a list of n elements that is indexed by idx in the loop.
func constList(t *eng.Terms, l *eng.Loop, idx *eng.Term, n int64) *eng.Term {
	var r *eng.Term
	for b := range l.Blocks {
		for _, v := range b.Instrs {
			if r != nil || v.Op != eng.OpIndexAddr || t.Of(v.Args[1]) != idx {
				continue
			}
			x := t.Of(v.Args[0])
			if k, ok := t.Len(x, v).Int(); ok && k == n {
				r = x
			}
		}
	}
	return r
}

func addK(t *eng.Terms, x *eng.Term, k int64) *eng.Term {
	return t.Bin(plus, x, t.Int(k), types.Typ[types.Int])
}

// ElemOf tells whether x is (part of) the current element of a covered list, and
// which fields are selected.
func (cv *Cover) ElemOf(t *eng.Terms, x *eng.Term) (fields []string, ok bool) {
	if x == nil {
		return nil, false
	}
	if cv.Next != nil {
		for x.Op == eng.OpField {
			fields = append([]string{x.Aux}, fields...)
			x = x.Args[0]
		}
		return fields, x.Op == eng.OpExtract && x.Aux == "2" && x.Args[0].V == cv.Next
	}
	if x.Op == eng.OpField || x.Op == eng.OpLoad && false {
		f, ok := cv.ElemOf(t, x.Args[0])
		return append(f, x.Aux), ok
	}
	if x.Op != eng.OpLoad && x.Op != eng.OpMemPhi || len(x.Path.Steps) == 0 {
		return nil, false
	}
	want := t.ElemLoc(cv.List, cv.Idx, nil)
	if x.Path.Root != want.Root || len(x.Path.Steps) < len(want.Steps) {
		return nil, false
	}
	for i, s := range want.Steps {
		o := x.Path.Steps[i]
		if s.Idx != nil && o.Idx != s.Idx || s.Idx == nil && (o.Idx != nil || o.Field != s.Field) {
			return nil, false
		}
	}
	for _, s := range x.Path.Steps[len(want.Steps):] {
		if s.Idx != nil {
			return nil, false
		}
		fields = append(fields, s.Name)
	}
	return fields, true
}

// over gives the loop as one over the list that x is taken from, if it only counts
// up to the length of that list.
func (cv *Cover) over(t *eng.Terms, x *eng.Term) *Cover {
	if cv.Idx == nil || cv.List == nil || !isIntType(cv.List.Typ) || x == nil || x.Path == nil || len(x.Path.Steps) == 0 {
		return cv
	}
	r := x.Path.Root
	if r == nil || x.Path.Steps[0].Idx != cv.Idx || r.Typ == nil {
		return cv
	}
	if _, ok := r.Typ.Underlying().(*types.Slice); !ok || t.Len(r, nil) != cv.List {
		return cv
	}
	y := *cv
	y.List = r
	return &y
}

// App is something that was appended to a list.
type App struct {
	V *eng.Val  // the append
	X *eng.Term // element, or list (spread)
}

// ListSrc says what a list is made of.
type ListSrc struct {
	Bases   []*eng.Term
	Elems   []App
	Spreads []App
}

// listSrc finds everything that may flow into a list.
func listSrc(t *eng.Terms, x *eng.Term) ListSrc {
	var r ListSrc
	seen := map[*eng.Term]bool{}
	var walk func(*eng.Term)
	walk = func(x *eng.Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		switch x.Op {
		case eng.OpPhi, eng.OpMemPhi:
			args, _ := t.PhiArgs(x)
			for _, a := range args {
				walk(a)
			}
			return
		case eng.OpAppend:
			elems, spread := appended(t, x.V)
			for _, e := range elems {
				r.Elems = append(r.Elems, App{x.V, e})
			}
			if spread != nil {
				r.Spreads = append(r.Spreads, App{x.V, spread})
			}
			walk(t.Of(x.V.Args[0]))
			return
		}
		r.Bases = append(r.Bases, x)
	}
	walk(x)
	return r
}

// appended gives the elements (or the list) an append adds.
func appended(t *eng.Terms, v *eng.Val) (elems []*eng.Term, spread *eng.Term) {
	if len(v.Args) < 2 {
		return nil, nil
	}
	a := t.Of(v.Args[1])
	if a.IsNil() {
		return nil, nil
	}
	if a.Op == eng.OpSlice && a.Args[1] == nil && a.Args[2] == nil && a.Args[0].Op == eng.OpAlloc {
		if pt, ok := a.Args[0].Typ.Underlying().(*types.Pointer); ok {
			if arr, ok := pt.Elem().Underlying().(*types.Array); ok {
				for k := int64(0); k < arr.Len(); k++ {
					p := t.PtrLoc(a.Args[0])
					loc := t.IdxLoc(p, t.Int(k), arr.Elem())
					elems = append(elems, t.LoadAt(loc, arr.Elem(), v))
				}
				return elems, nil
			}
		}
	}
	return nil, a
}

// isFreshList: a base that nothing else refers to.
func isFreshList(x *eng.Term) bool {
	return x.Op == eng.OpMakeSlice || x.IsNil() || x.Op == eng.OpSlice && x.Args[0].Op == eng.OpAlloc
}

// unwrapIface strips interface conversions.
func unwrapIface(x *eng.Term) *eng.Term {
	for x != nil && x.Op == eng.OpIface {
		x = x.Args[0]
	}
	return x
}
