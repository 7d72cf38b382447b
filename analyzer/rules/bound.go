package rules

import (
	"go/token"
	"go/types"
	"strings"

	"trypocheck/eng"
)

// bounder proves linear bounds, working backwards from a point: a goal "E <= 0" is
// implied by what is known there, or has to hold on each way into the block, with
// the values of joins replaced by what arrives that way. A goal met again at the
// same block on the way back holds by induction over the visits.
//
// The lengths of lists that operations return are replaced by what the operations
// are known to return at most: for an amount of m no more than m, and nothing for
// m < 1. A goal may contain the sum of the entries of one map.
type bounder struct {
	t    *eng.Terms
	most func(list *eng.Term) *eng.Term // the amount asked for, if the list is bounded by one
	zero func(list *eng.Term) bool      // lists known to be empty
	sum  *eng.Term                      // the map summed up
	hyp  []*eng.Term                    // what is assumed, each <= 0
	some func(call *eng.Val) bool       // the call returns a list with something in it, if it returns true
	also func(a *eng.Term) []*eng.Term  // what is known about an unknown, each <= 0

	grows func(call *eng.Val, list *eng.Path) bool // a call never makes this list shorter

	stack map[goalKey]bool
	steps int
	inMap int
}

type goal struct {
	E *eng.Term
	S int64
}

type goalKey struct {
	b *eng.Blk
	g goal
}

const maxBound = 6000

func newBounder(t *eng.Terms) *bounder {
	return &bounder{t: t, stack: map[goalKey]bool{}}
}

func (b *bounder) add(x, y *eng.Term) *eng.Term { return b.t.Bin(token.ADD, x, y, intT) }
func (b *bounder) sub(x, y *eng.Term) *eng.Term { return b.t.Bin(token.SUB, x, y, intT) }
func (b *bounder) times(x *eng.Term, k int64) *eng.Term {
	return b.t.Bin(token.MUL, x, b.t.Int(k), intT)
}

// leq proves x <= y just before v.
func (b *bounder) leq(x, y *eng.Term, v *eng.Val) bool {
	b.steps = 0
	return b.prove(goal{b.sub(x, y), 0}, v.Blk, posIn(v), 2)
}

// atMost proves that a list has at most n elements, and none for n < 1.
func (b *bounder) atMost(list, n *eng.Term, v *eng.Val) bool {
	old := b.hyp
	defer func() { b.hyp = old }()
	l := b.t.Len(list, v)
	b.hyp = append(append([]*eng.Term{}, old...), b.sub(b.t.Int(0), n))
	if !b.leq(l, n, v) {
		return false
	}
	b.hyp = append(append([]*eng.Term{}, old...), b.add(n, b.t.Int(1)))
	return b.leq(l, b.t.Int(0), v)
}

// linFacts are the linear facts, each <= 0.
func (b *bounder) linFacts(fs *eng.FactSet) []*eng.Term { return b.linear(fs.List()) }

func (b *bounder) linear(fs []eng.Fact) []*eng.Term {
	var r []*eng.Term
	for _, f := range fs {
		c := f.Cond
		if b.some != nil && f.Val && c.Op == eng.OpExtract && c.Aux == "1" && c.Args[0].Op == eng.OpCall && c.Args[0].V != nil && b.some(c.Args[0].V) {
			v := c.Args[0].V
			r = append(r, b.sub(b.t.Int(1), b.t.Len(b.t.Extract(c.Args[0], 0, v.Typ.(*types.Tuple).At(0).Type()), v)))
			continue
		}
		if c.Op != eng.OpBin || len(c.Args) != 2 {
			continue
		}
		if bt, ok := c.Args[0].Typ.Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 || bt.Info()&types.IsUnsigned != 0 {
			continue
		}
		d := b.sub(c.Args[0], c.Args[1])
		switch {
		case c.Aux == "<" && f.Val:
			r = append(r, b.add(d, b.t.Int(1)))
		case c.Aux == "<":
			r = append(r, b.sub(b.t.Int(0), d))
		case c.Aux == "==" && f.Val, c.Aux == "!=" && !f.Val:
			r = append(r, d, b.sub(b.t.Int(0), d))
		case c.Aux == "==", c.Aux == "!=":
			// a length other than zero
			if at, k := b.t.Lin(d); k == 0 && len(at) == 1 {
				for a, q := range at {
					if a.Op == eng.OpLen && (q == 1 || q == -1) {
						r = append(r, b.sub(b.t.Int(1), a))
					}
				}
			}
		}
	}
	return r
}

// norm replaces the lengths of lists known to be empty.
func (b *bounder) norm(E *eng.Term) *eng.Term {
	if b.zero == nil {
		return E
	}
	at, _ := b.t.Lin(E)
	for a, k := range at {
		if a.Op == eng.OpLen && len(a.Args) == 1 && b.zero(a.Args[0]) {
			E = b.sub(E, b.times(a, k))
		}
	}
	return E
}

// ghost gives the linear goal; with a sum in it, nothing implies it directly.
func (b *bounder) ghost(g goal) *eng.Term {
	if g.S == 0 {
		return g.E
	}
	return b.add(g.E, b.t.Of(b.sum.V))
}

func (b *bounder) known(E *eng.Term, facts []*eng.Term) bool {
	at, k := b.t.Lin(E)
	if k <= 0 {
		// lengths are never negative
		ok := true
		for a, n := range at {
			ok = ok && n < 0 && a.Op == eng.OpLen
		}
		if ok {
			return true
		}
	}
	for i, f := range facts {
		if d, ok := b.t.Diff(E, f); ok && d <= 0 {
			return true
		}
		// cannot happen
		for _, h := range facts[:i] {
			if at, k := b.t.Lin(b.add(f, h)); len(at) == 0 && k > 0 {
				return true
			}
		}
	}
	return false
}

// prove: the goal holds in block x, before instruction idx.
func (b *bounder) prove(g goal, x *eng.Blk, idx, depth int) bool {
	return b.proveWith(g, x, idx, depth, nil)
}

func (b *bounder) proveWith(g goal, x *eng.Blk, idx, depth int, extra []*eng.Term) bool {
	if b.steps++; b.steps > maxBound {
		return false
	}
	g.E = b.norm(g.E)
	if b.t.BlockFacts(x).Bad {
		return true // cannot be reached
	}
	facts := append(append(b.linFacts(b.t.BlockFacts(x)), extra...), b.hyp...)
	at, _ := b.t.Lin(g.E)
	if b.also != nil {
		for _, a := range sortedTerms(at) {
			facts = append(facts, b.also(a)...)
		}
	}
	if b.known(b.ghost(g), facts) {
		return true
	}
	for _, a := range sortedTerms(at) {
		k := at[a]
		if a.Op != eng.OpLen || k <= 0 {
			continue
		}
		if n := b.limit(a.Args[0]); n != nil {
			rest := b.sub(g.E, b.times(a, k))
			return b.proveWith(goal{rest, g.S}, x, idx, depth, extra) &&
				b.proveWith(goal{b.add(rest, b.times(n, k)), g.S}, x, idx, depth, extra)
		}
	}
	for _, a := range sortedTerms(at) {
		if k := at[a]; b.grows != nil && a.Op == eng.OpLen && k < 0 {
			L := a.Args[0]
			if L.Op == eng.OpLoad && L.Ver != nil && L.Ver.Op == eng.OpCall && b.grows(L.Ver, L.Path) {
				was := b.t.Len(b.t.LoadAt(L.Path, L.Typ, L.Ver), L.Ver)
				if was != a && b.proveWith(goal{b.add(b.sub(g.E, b.times(a, k)), b.times(was, k)), g.S}, x, idx, depth, extra) {
					return true
				}
			}
		}
	}
	for _, a := range sortedTerms(at) {
		k := at[a]
		if a.Op != eng.OpLen || k <= 0 || g.S != 0 {
			continue
		}
		if y := b.mapped(a.Args[0]); y != nil {
			if b.proveWith(goal{b.add(b.sub(g.E, b.times(a, k)), b.times(y, k)), g.S}, x, idx, depth, extra) {
				return true
			}
		}
		if k == 1 && b.summed(goal{b.sub(g.E, a), 1}, a.Args[0]) {
			return true
		}
	}
	for _, a := range sortedTerms(at) {
		k := at[a]
		if a.Op != eng.OpLen || k >= 0 || g.S != 0 {
			continue
		}
		if y := b.filled(a.Args[0], x); y != nil && y != a {
			if b.proveWith(goal{b.add(b.sub(g.E, b.times(a, k)), b.times(y, k)), g.S}, x, idx, depth, extra) {
				return true
			}
		}
	}
	// known not to be equal, and never above
	if g.S == 0 && depth > 0 {
		for _, f := range b.t.BlockFacts(x).List() {
			c := f.Cond
			if c.Op != eng.OpBin || !(c.Aux == "==" && !f.Val || c.Aux == "!=" && f.Val) || !isIntType(c.Args[0].Typ) {
				continue
			}
			d := b.sub(c.Args[0], c.Args[1])
			for _, d := range []*eng.Term{d, b.sub(b.t.Int(0), d)} {
				if k, ok := b.t.Diff(g.E, d); ok && k == 1 && b.proveWith(goal{d, 0}, x, idx, depth-1, extra) {
					return true
				}
			}
		}
	}
	if b.back(g, x, idx, depth) {
		return true
	}
	if depth > 0 {
		for _, f := range facts {
			fa, _ := b.t.Lin(f)
			shared := false
			for a, k := range fa {
				if n, ok := at[a]; ok && (n > 0) == (k > 0) {
					shared = true
				}
			}
			if shared && b.proveWith(goal{b.sub(g.E, f), g.S}, x, idx, depth-1, extra) {
				return true
			}
		}
	}
	return false
}

func (b *bounder) limit(list *eng.Term) *eng.Term {
	if b.most == nil {
		return nil
	}
	return b.most(list)
}

// back goes to the start of the block, and to the blocks before it.
func (b *bounder) back(g goal, x *eng.Blk, idx, depth int) bool {
	if g.S != 0 {
		for i := idx - 1; i >= 0; i-- {
			if v := x.Instrs[i]; v.Op == eng.OpMapUpdate && b.t.Of(v.Args[0]) == b.sum {
				w := b.weight(v)
				if w == nil {
					return false
				}
				g.E = b.add(g.E, b.times(w, g.S))
			}
		}
	}
	if g.S != 0 && b.sum.V.Blk == x {
		// made here: empty before
		g.S = 0
		if b.known(b.norm(g.E), append(b.linFacts(b.t.BlockFacts(x)), b.hyp...)) {
			return true
		}
	}
	if len(x.Preds) == 0 {
		return false
	}
	if at, _ := b.t.Lin(g.E); g.S == 0 && len(at) == 0 {
		return false
	}
	key := goalKey{x, g}
	same := 0
	for k := range b.stack {
		if k.b != x || k.g.S != g.S {
			continue
		}
		if d, ok := b.t.Diff(g.E, k.g.E); ok && d <= 0 {
			return true
		}
		same++
	}
	if same > 6 {
		return false
	}
	if g.S > 0 && depth > 0 && x.IsLoopHeader() && b.split(g, x, depth-1) {
		return true
	}
	b.stack[key] = true
	defer delete(b.stack, key)
	if l := x.G.LoopAt(x); l != nil {
		at, _ := b.t.Lin(g.E)
		for a := range at {
			if a.JoinBlk() == x || a.Op == eng.OpLen && a.Args[0].JoinBlk() == x {
				continue
			}
			if !b.t.Invariant(l, a) || hasLookup(a) {
				return false
			}
		}
	}
	for i, p := range x.Preds {
		E := b.subst(g.E, x, i)
		if E == nil {
			return false
		}
		efs := b.t.EdgeFacts(p, x)
		if efs.Bad {
			continue
		}
		ef := b.linFacts(efs)
		if b.known(b.ghost(goal{b.norm(E), g.S}), append(ef, b.hyp...)) {
			continue
		}
		if !b.proveWith(goal{E, g.S}, p, len(p.Instrs), depth, ef) {
			return false
		}
	}
	return true
}

// split: the sum is bounded by a counter, and the counter by the rest.
func (b *bounder) split(g goal, x *eng.Blk, depth int) bool {
	at, _ := b.t.Lin(g.E)
	for a := range at {
		if a.JoinBlk() == x {
			return false
		}
	}
	for _, v := range x.Instrs {
		if v.Op != eng.OpPhi || v.Typ == nil {
			continue
		}
		if bt, ok := v.Typ.Underlying().(*types.Basic); !ok || bt.Kind() != types.Int {
			continue
		}
		cnt := b.times(b.t.Of(v), g.S)
		if b.proveWith(goal{b.add(g.E, cnt), 0}, x, 0, depth, nil) &&
			b.proveWith(goal{b.sub(b.t.Int(0), cnt), g.S}, x, 0, depth, nil) {
			return true
		}
	}
	return false
}

// subst replaces the joins of block x by what arrives over its i-th way in.
func (b *bounder) subst(E *eng.Term, x *eng.Blk, i int) *eng.Term {
	at, _ := b.t.Lin(E)
	for _, a := range sortedTerms(at) {
		k := at[a]
		switch {
		case a.JoinBlk() == x:
			args, _ := b.t.PhiArgs(a)
			E = b.add(b.sub(E, b.times(a, k)), b.times(args[i], k))
		case a.Op == eng.OpLen && a.Args[0].JoinBlk() == x:
			args, _ := b.t.PhiArgs(a.Args[0])
			E = b.add(b.sub(E, b.times(a, k)), b.times(b.t.Len(args[i], x.Preds[i].Last()), k))
		case mentions(a, x):
			return nil
		}
	}
	return E
}

// mentions tells whether a join of block x is part of a term.
func mentions(a *eng.Term, x *eng.Blk) bool {
	seen := map[*eng.Term]bool{}
	var walk func(a *eng.Term) bool
	walk = func(a *eng.Term) bool {
		if a == nil || seen[a] {
			return false
		}
		seen[a] = true
		if a.JoinBlk() == x {
			return true
		}
		for _, y := range a.Args {
			if walk(y) {
				return true
			}
		}
		if a.Path != nil {
			if walk(a.Path.Root) {
				return true
			}
			for _, s := range a.Path.Steps {
				if walk(s.Idx) {
					return true
				}
			}
		}
		return false
	}
	return walk(a)
}

func hasLookup(a *eng.Term) bool {
	if a == nil {
		return false
	}
	if a.Op == eng.OpLookup {
		return true
	}
	for _, y := range a.Args {
		if hasLookup(y) {
			return true
		}
	}
	return false
}

// mapped: a list made by visiting another one is not longer than that.
func (b *bounder) mapped(list *eng.Term) *eng.Term {
	if list.JoinBlk() == nil {
		return nil
	}
	h := list.JoinBlk()
	m, _ := mapLoop(h.G, b.t, list, b.zero)
	var init *eng.Term
	if l := h.G.LoopAt(h); m == nil && l != nil {
		// elements are added to what was there before
		entry, _ := b.t.Carried(l, list)
		if len(entry) != 1 || len(l.Entries) != 1 {
			return nil
		}
		init = b.t.Len(entry[0], l.Entries[0].Last())
		m, _ = mapLoop(h.G, b.t, list, func(*eng.Term) bool { return true })
	}
	if m == nil || m.Cv == nil || m.Cv.Next != nil || m.Cv.List == nil || len(m.Cv.L.Latches) == 0 {
		return nil
	}
	n := m.Cv.List
	if n.Op != eng.OpLen {
		n = b.t.Len(m.Cv.List, m.Cv.L.Head.Last())
	}
	if init != nil {
		n = b.add(init, n)
	}
	return n
}

// filled: a list that got one element per element of another one, after that.
func (b *bounder) filled(list *eng.Term, x *eng.Blk) *eng.Term {
	h := list.JoinBlk()
	if h == nil || h.G.LoopAt(h) == nil || x.G != h.G {
		return nil
	}
	m, _ := mapLoop(h.G, b.t, list, b.zero)
	if m == nil || m.Filtered || m.Cv == nil || m.Cv.Next != nil || m.Cv.List == nil {
		return nil
	}
	if to := m.Cv.Exit.To; to == nil || len(to.Preds) != 1 || !to.Dominates(x) {
		return nil
	}
	if m.Cv.List.Op == eng.OpLen {
		return m.Cv.List
	}
	return b.t.Len(m.Cv.List, m.Cv.L.Head.Last())
}

// summed: a list that grows, while a map is gone through, by no more than each entry,
// is not longer than the sum of the entries. g has to hold for the sum when the
// loop is entered.
func (b *bounder) summed(g goal, list *eng.Term) bool {
	h := list.JoinBlk()
	if h == nil || b.inMap > 0 {
		return false
	}
	l := h.G.LoopAt(h)
	if l == nil {
		return false
	}
	var next *eng.Val
	for x := range l.Blocks {
		for _, v := range x.Instrs {
			if v.Op == eng.OpNext && h.G.LoopOf(x) == l {
				next = v
			}
		}
	}
	var m, val *eng.Term
	if next != nil && next.Blk == h {
		m = b.t.Of(next.Args[0])
		if m.Op == eng.OpRange {
			m = b.t.Of(m.V.Args[0])
		}
		val = b.t.Extract(b.t.Of(next), 2, intT)
	} else if cv := cover(b.t, l); cv != nil && cv.Next == nil {
		// The entry of each position is looked up.
		for x := range l.Blocks {
			for _, v := range x.Instrs {
				lk := b.t.Of(v)
				if v.Op != eng.OpLookup || lk.Op != eng.OpLookup || h.G.LoopOf(x) != l || lk.Args[1] != cv.Idx {
					continue
				}
				y := lk
				if strings.HasSuffix(lk.Aux, ",ok") {
					y = b.t.Extract(lk, 0, intT)
				}
				if m != nil && (m != lk.Args[0] || val != y) {
					return false
				}
				m, val = lk.Args[0], y
			}
		}
	}
	if m == nil || m.Op != eng.OpMakeMap {
		return false
	}
	ok := true
	rest, _ := b.t.Lin(g.E)
	for a := range rest {
		ok = ok && b.t.Invariant(l, a) && !hasLookup(a)
	}
	// all changes of the map are before the loop
	h.G.Each(func(v *eng.Val) {
		switch v.Op {
		case eng.OpMapUpdate:
			if b.t.Of(v.Args[0]) == m && (v.Graph() != h.G || v.Graph().Reaches(h, v.Blk)) {
				ok = false
			}
		case eng.OpCall, eng.OpStore:
			for _, a := range v.Args {
				if a != nil && b.t.Of(a) == m {
					ok = false
				}
			}
		}
	})
	if !ok {
		return false
	}
	args, preds := b.t.PhiArgs(list)
	b.inMap++
	defer func() { b.inMap-- }()
	for i, a := range args {
		p := preds[i]
		if !l.Blocks[p] {
			if !emptyList(a) && (b.zero == nil || !b.zero(a)) {
				return false
			}
			continue
		}
		in := newBounder(b.t)
		in.most, in.zero, in.inMap = b.most, b.zero, b.inMap
		in.hyp = append(append([]*eng.Term{}, b.hyp...), b.sub(b.t.Int(0), val))
		d := b.sub(b.sub(b.t.Len(a, p.Last()), b.t.Len(list, p.Last())), val)
		if !in.prove(goal{d, 0}, p, len(p.Instrs), 1) {
			return false
		}
	}
	for _, p := range preds {
		if l.Blocks[p] {
			continue
		}
		in := newBounder(b.t)
		in.most, in.zero, in.inMap, in.hyp, in.sum = b.most, b.zero, b.inMap, b.hyp, m
		if !in.prove(g, p, len(p.Instrs), 2) {
			return false
		}
	}
	return true
}

// weight is what a map update adds to the sum of the entries.
func (b *bounder) weight(v *eng.Val) *eng.Term {
	t := b.t
	key, val := t.Of(v.Args[1]), t.Of(v.Args[2])
	at, k := t.Lin(val)
	if len(at) != 1 || k < 0 {
		return nil
	}
	for a, n := range at {
		if n != 1 {
			return nil
		}
		lk := a
		if a.Op == eng.OpExtract {
			lk = a.Args[0]
		}
		if lk.Op != eng.OpLookup || lk.Args[0] != b.sum || lk.Args[1] != key {
			return nil
		}
		// not changed in between
		if strings.TrimSuffix(lk.Aux, ",ok") != t.MapVersion(b.sum, v) {
			return nil
		}
	}
	return t.Int(k)
}

func sortedTerms(m map[*eng.Term]int64) []*eng.Term {
	var r []*eng.Term
	for a := range m {
		r = append(r, a)
	}
	for i := range r {
		for j := i; j > 0 && r[j].ID < r[j-1].ID; j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}

func posIn(v *eng.Val) int {
	for i, u := range v.Blk.Instrs {
		if u == v {
			return i
		}
	}
	return len(v.Blk.Instrs)
}
