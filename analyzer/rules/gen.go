package rules

import (
	"fmt"
	"go/token"

	"trypocheck/eng"
)

// Gen describes a generator (a closure that returns the next element and whether
// there was one) that is handed to a call: it goes once through a list, in order.
type Gen struct {
	List   *eng.Term // the list
	Elem   *eng.Term // what is returned, as a term of the enclosing graph
	Idx    *eng.Term // position of Elem in the list (within the model of the generator)
	Fields []string  // selected from the element
	Loop   *eng.Loop // model of the generator's calls
	off    int64
	Prunes bool // removes expired elements it comes across
	Fresh  bool // no element that it returns has expired
}

// spliced finds the model of a callback that an opaque call may invoke.
func spliced(call *eng.Val, cl *eng.Val) (l *eng.Loop, leave *eng.Val) {
	g := call.Graph()
	b := call.Blk
	for k := 0; k < 4 && b != nil; k++ {
		b = b.Idom
		if b == nil {
			return nil, nil
		}
		if !b.IsLoopHeader() {
			continue
		}
		l = g.LoopAt(b)
		if l == nil || l.Blocks[call.Blk] {
			return nil, nil
		}
		break
	}
	if l == nil {
		return nil, nil
	}
	for x := range l.Blocks {
		for _, v := range x.Instrs {
			if v.Op == eng.OpLeave && v.Fn == cl.Fn {
				if leave != nil {
					return nil, nil
				}
				leave = v
			}
		}
	}
	return l, leave
}

// elemAt takes the term of (a field of) an element apart.
func elemAt(x *eng.Term) (list, idx *eng.Term, fields []string) {
	root, f := sel(x)
	if root == nil || root.Op != eng.OpLoad && root.Op != eng.OpMemPhi || root.Path == nil {
		return nil, nil, nil
	}
	st := root.Path.Steps
	if len(st) == 0 {
		return nil, nil, nil
	}
	k := len(st) - 1
	for k >= 0 && st[k].Idx == nil {
		k--
	}
	if k != 0 {
		return nil, nil, nil
	}
	return root.Path.Root, st[0].Idx, f
}

// sameCell: the same list, or versions of the list in the same place.
func sameCell(a, b *eng.Term) bool {
	return a == b || a.Path != nil && b.Path != nil && len(a.Path.Steps) > 0 && eng.SamePath(a.Path, b.Path)
}

// genOf decides that the generator given to a call goes through a list from its
// first to its last element.
func (c *C) genOf(t *eng.Terms, call *eng.Val, arg *eng.Val) (*Gen, string) {
	x := t.Of(arg)
	if x.Op != eng.OpClosure || x.V == nil {
		return nil, fmt.Sprintf("the generator %v is not known", x)
	}
	l, leave := spliced(call, x.V)
	if leave == nil || len(leave.Args) != 2 {
		return nil, "the generator is not modelled"
	}
	g := &Gen{Loop: l, Fresh: true}
	why := ""
	n := 0
	bad := func(f string, a ...interface{}) {
		if why == "" {
			why = fmt.Sprintf(f, a...)
		}
	}
	rvec, rok := t.Of(leave.Args[0]), t.Of(leave.Args[1])
	var ctr *eng.Term
	s := &Sim{G: call.Graph(), T: t, From: l.Head, Track: []*eng.Term{rvec, rok}}
	s.Edge = func(e *St, from, to *eng.Blk) bool { return l.Blocks[to] && to != l.Head }
	for b := range l.Blocks {
		for _, v := range b.Instrs {
			if isExpired(v) {
				s.Track = append(s.Track, t.Of(v))
			}
		}
	}
	ends := 0
	s.Event = func(e *St, v *eng.Val) {
		if v != leave {
			return
		}
		e.Dead = true
		val, known := e.Truth(rok)
		if !known {
			if b, ok := e.Resolve(rok).Bool(); ok {
				val, known = b, true
			}
		}
		try := func(val bool) {
			y := e.fork()
			if !known {
				y.Assume(e.Resolve(rok), val)
			}
			if val {
				n++
				vec := y.Resolve(rvec)
				list, idx, f := elemAt(vec)
				if list == nil && vec.Op == eng.OpCall && vec.V != nil && len(vec.V.Args) == 1 && vec.V.Method != nil {
					// what a method of the element gives
					list, idx, f = elemAt(t.Of(vec.V.Args[0]))
					f = append(f, vec.V.Method.Name()+"()")
				}
				if list == nil {
					bad("the generator returns %v, which is no element of a list", vec)
					return
				}
				if g.List != nil && (!sameCell(g.List, list) || len(f) != len(g.Fields)) {
					bad("the generator returns elements of several lists")
					return
				}
				g.List, g.Fields, g.Idx, g.Elem = list, f, idx, vec
				if x, known := knownExpired(t, y.Facts(), list, idx, y.Resolve); x || !known {
					g.Fresh = false
				}
				// the counter
				lin, k := t.Lin(idx)
				if len(lin) != 1 {
					bad("the position %v is not a counter", idx)
					return
				}
				for a, co := range lin {
					if co != 1 || a.JoinBlk() != l.Head {
						bad("the position %v does not advance with the generator", idx)
						return
					}
					if ctr != nil && ctr != a {
						bad("the generator uses several counters")
						return
					}
					ctr = a
					g.off = k
					entry, _ := t.Carried(l, a)
					for _, en := range entry {
						if c0, ok := en.Int(); !ok || c0+k != 0 {
							bad("the generator starts at %v", t.Bin(plus, en, t.Int(k), en.Typ))
							return
						}
					}
					next := y.Resolve(t.LoadAt(a.Path, a.Typ, leave))
					if d, ok := t.Diff(next, a); !ok || d != 1 {
						bad("after the element at %v, the generator goes on at %v", idx, t.Bin(plus, next, t.Int(k), idx.Typ))
						return
					}
				}
			} else {
				ends++ // decided below, once the list is known
			}
		}
		if !known || val {
			try(true)
		}
		if !known || !val {
			try(false)
		}
	}
	s.Run()
	c.States += s.States
	if why != "" {
		return nil, why
	}
	if s.Overflow || n == 0 || ctr == nil || ends == 0 {
		return nil, "the generator never yields anything, or never ends"
	}
	// It ends only after the last element.
	pos := t.Bin(plus, ctr, t.Int(g.off), g.Idx.Typ)
	left := t.Bin(token.LSS, pos, t.Len(g.List, leave), rok.Typ)
	var end *eng.Term
	if g.List.Path != nil {
		end = t.LoadAt(g.List.Path, g.List.Typ, leave)
	}
	track := []*eng.Term{rok, left}
	if end != nil {
		track = append(track, end)
	}
	s2 := &Sim{G: call.Graph(), T: t, From: l.Head, Track: track}
	s2.Edge = s.Edge
	s2.Event = func(e *St, v *eng.Val) {
		if v != leave {
			return
		}
		e.Dead = true
		val, known := e.Truth(rok)
		if b, ok := e.Resolve(rok).Bool(); ok {
			val, known = b, true
		}
		if known && val {
			return
		}
		y := e.fork()
		if !known {
			y.Assume(e.Resolve(rok), false)
		}
		left := left
		if end != nil {
			left = t.Bin(token.LSS, pos, t.Len(y.Resolve(end), leave), rok.Typ)
		}
		if more, ok := y.Truth(left); !ok || more {
			bad("the generator may end before the last element (path %s)", e.Path())
		}
	}
	s2.Run()
	c.States += s2.States
	if why != "" {
		return nil, why
	}
	if t.Invariant(l, g.List) {
		return g, ""
	}
	// Expired elements may be removed at the current position.
	if g.List.Path == nil || len(g.List.Path.Steps) == 0 {
		return nil, "the list of the generator changes while it is used"
	}
	for b := range l.Blocks {
		for _, v := range b.Instrs {
			if v.Op == eng.OpLoad || v.Op == eng.OpCall && isExpired(v) || !t.Affects(v, g.List.Path, g.List.Typ) {
				continue
			}
			if v.Op != eng.OpStore || !eng.SamePath(t.PathOf(v.Args[0]), g.List.Path) {
				return nil, "the list of the generator may be changed at " + v.Where()
			}
			was := t.LoadAt(g.List.Path, g.List.Typ, v)
			old, idx, ok := removal(t, t.Of(v.Args[1]))
			if !ok || old != was {
				return nil, "the generator changes its list at " + v.Where()
			}
			if !sameInt(t, idx, t.Bin(plus, ctr, t.Int(g.off), idx.Typ)) {
				return nil, "the generator removes another element than the next one at " + v.Where()
			}
			if x, known := knownExpired(t, t.BlockFacts(v.Blk), old, idx, nil); !known || !x {
				return nil, "the generator may remove an element that has not expired at " + v.Where()
			}
			g.Prunes = true
		}
	}
	return g, ""
}

// Origin says where the elements of a list come from: the place in a loop where
// one is added, or the list that is not made of another one.
type Origin struct {
	Loop *eng.Loop
	Blk  *eng.Blk
	List *eng.Term
	Elem *eng.Term // per element (with the fields that were followed)
	Cv   *Cover
	Via  []*eng.Term // the lists on the way
}

// origin follows lists that have one element per element of another list.
func origin(g *eng.Graph, t *eng.Terms, list *eng.Term, fields []string) (*Origin, string) {
	var via []*eng.Term
	for k := 0; k < 6; k++ {
		m, why := mapLoop(g, t, list, nil)
		if m == nil {
			return nil, why
		}
		if w := changedAfter(g, t, list, m); w != nil {
			return nil, "the list may be changed at " + w.Where()
		}
		via = append(via, list)
		if len(m.Elems) != 1 {
			return nil, "several things are put into the list"
		}
		el := m.Elems[0]
		if cv := m.Cv; !m.Filtered && cv.Next == nil && isListType(cv.List.Typ) && !cv.Back {
			f, ok := cv.ElemOf(t, el)
			if ok {
				list, fields = cv.List, append(append([]string{}, f...), fields...)
				continue
			}
		}
		for _, f := range fields {
			y := fieldTerm(t, el, f)
			if y == nil {
				return nil, fmt.Sprintf("there is no %s in %v", f, el)
			}
			el = y
		}
		return &Origin{Loop: m.Cv.L, Blk: m.At.Blk, List: list, Elem: el, Cv: m.Cv, Via: via}, ""
	}
	return nil, "too many lists"
}

func (o *Origin) same(p *Origin) bool { return o.Loop == p.Loop && o.Blk == p.Blk }

// changedAfter finds something that writes elements of a list after it was made.
func changedAfter(g *eng.Graph, t *eng.Terms, list *eng.Term, m *MapOf) *eng.Val {
	et := eng.ElemType(list.Typ)
	if et == nil {
		return nil
	}
	loc := t.ElemLoc(list, m.Cv.Idx, et)
	if m.Cv.Idx == nil {
		loc = t.ElemLoc(list, t.Int(0), et)
	}
	var r *eng.Val
	g.Each(func(v *eng.Val) {
		if r != nil || v.Op == eng.OpAlloc || v.Op == eng.OpMakeSlice || v.IsLock() || v.Graph() == g && (m.Cv.L.Blocks[v.Blk] || !g.Reaches(m.Cv.L.Head, v.Blk)) {
			return
		}
		if t.Affects(v, loc, et) {
			r = v
		}
	})
	return r
}
