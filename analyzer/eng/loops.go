package eng

import (
	"sort"
)

// Loop is a natural loop.
type Loop struct {
	Head    *Blk
	Blocks  map[*Blk]bool
	Latches []*Blk
	Entries []*Blk // predecessors of the head outside of the loop
	Parent  *Loop
	G       *Graph
}

// Edge is a control flow edge.
type Edge struct{ From, To *Blk }

// Loops finds the natural loops, outermost first.
func (g *Graph) Loops() []*Loop {
	if g.loops != nil {
		return g.loops
	}
	by := map[*Blk]*Loop{}
	for _, b := range g.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := by[s]
			if l == nil {
				l = &Loop{Head: s, Blocks: map[*Blk]bool{s: true}, G: g}
				by[s] = l
			}
			l.Latches = append(l.Latches, b)
			work := []*Blk{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.Blocks[x] {
					continue
				}
				l.Blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	ls := []*Loop{}
	for _, l := range by {
		for _, p := range l.Head.Preds {
			if !l.Blocks[p] {
				l.Entries = append(l.Entries, p)
			}
		}
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		if len(ls[i].Blocks) != len(ls[j].Blocks) {
			return len(ls[i].Blocks) > len(ls[j].Blocks)
		}
		return ls[i].Head.rpo < ls[j].Head.rpo
	})
	for i, l := range ls {
		for j := i - 1; j >= 0; j-- {
			if ls[j] != l && ls[j].Blocks[l.Head] {
				l.Parent = ls[j]
				break
			}
		}
	}
	g.loops = ls
	return ls
}

// LoopOf gives the innermost loop a block is in.
func (g *Graph) LoopOf(b *Blk) *Loop {
	ls := g.Loops()
	for i := len(ls) - 1; i >= 0; i-- {
		if ls[i].Blocks[b] {
			return ls[i]
		}
	}
	return nil
}

// LoopAt gives the loop with a given head.
func (g *Graph) LoopAt(h *Blk) *Loop {
	for _, l := range g.Loops() {
		if l.Head == h {
			return l
		}
	}
	return nil
}

// Exits lists the edges that leave a loop.
func (l *Loop) Exits() []Edge {
	var r []Edge
	for _, b := range l.G.Blocks {
		if !l.Blocks[b] {
			continue
		}
		for _, s := range b.Succs {
			if !l.Blocks[s] {
				r = append(r, Edge{b, s})
			}
		}
	}
	return r
}

// Inside tells whether a value is computed in the loop.
func (l *Loop) Inside(v *Val) bool { return v.Blk != nil && l.Blocks[v.Blk] }

// Invariant tells whether a term has the same value in all iterations.
func (t *Terms) Invariant(l *Loop, x *Term) bool {
	return t.invariant(l, x, map[*Term]bool{})
}

func (t *Terms) invariant(l *Loop, x *Term, seen map[*Term]bool) bool {
	if x == nil || seen[x] {
		return true
	}
	seen[x] = true
	switch x.Op {
	case OpConst, OpZero, OpFunc, OpGlobal, OpParam, OpFreeVar:
		return true
	case OpLoad:
		if x.Ver != nil && l.Blocks[x.Ver.Blk] {
			return false
		}
		return t.invariantPath(l, x.Path, seen)
	case OpMemPhi:
		if l.Blocks[x.Blk] {
			return false
		}
		return t.invariantPath(l, x.Path, seen)
	}
	if len(x.Args) > 0 {
		for _, a := range x.Args {
			if !t.invariant(l, a, seen) {
				return false
			}
		}
		return true
	}
	if x.V != nil {
		return x.V.Blk == nil || !l.Blocks[x.V.Blk]
	}
	return true
}

func (t *Terms) invariantPath(l *Loop, p *Path, seen map[*Term]bool) bool {
	if !t.invariant(l, p.Root, seen) {
		return false
	}
	for _, s := range p.Steps {
		if s.Idx != nil && !t.invariant(l, s.Idx, seen) {
			return false
		}
	}
	return true
}

// HeadJoin gives the loop a term is carried around, if it is a join at a loop head.
func (t *Terms) HeadJoin(g *Graph, x *Term) *Loop {
	b := x.JoinBlk()
	if b == nil {
		return nil
	}
	return b.G.LoopAt(b)
}

// Carried splits a loop-carried join into the values on entry and from the previous iterations.
func (t *Terms) Carried(l *Loop, x *Term) (entry, back []*Term) {
	args, preds := t.PhiArgs(x)
	for i, a := range args {
		if l.Blocks[preds[i]] {
			back = append(back, a)
		} else {
			entry = append(entry, a)
		}
	}
	return
}

// Leaves expands joins (other than those in stop) into the values that may flow into them.
func (t *Terms) Leaves(x *Term, stop func(*Term) bool) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(*Term)
	walk = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if (x.Op == OpPhi || x.Op == OpMemPhi) && (stop == nil || !stop(x)) {
			args, _ := t.PhiArgs(x)
			for _, a := range args {
				walk(a)
			}
			return
		}
		out = append(out, x)
	}
	walk(x)
	return out
}

// Induction recognises a counter: entry value, and the set of amounts it may
// change by per iteration.
func (t *Terms) Induction(l *Loop, x *Term) (init *Term, deltas map[int64]bool, ok bool) {
	if x.JoinBlk() != l.Head {
		return nil, nil, false
	}
	entry, back := t.Carried(l, x)
	for _, e := range entry {
		if init != nil && init != e {
			return nil, nil, false
		}
		init = e
	}
	deltas = map[int64]bool{}
	for _, b := range back {
		for _, v := range t.Leaves(b, func(y *Term) bool { return y == x }) {
			d, k := t.Diff(v, x)
			if !k {
				// x + join
				k = t.deltaLeaves(v, x, deltas)
				if !k {
					return nil, nil, false
				}
				continue
			}
			deltas[d] = true
		}
	}
	return init, deltas, init != nil && len(deltas) > 0
}

func (t *Terms) deltaLeaves(v, x *Term, out map[int64]bool) bool {
	return t.deltas(v, x, out, map[*Term]bool{})
}

func (t *Terms) deltas(v, x *Term, out map[int64]bool, seen map[*Term]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	m, c := t.Lin(v)
	var rest *Term
	var coef int64
	for a, k := range m {
		if a == x {
			if k != 1 {
				return false
			}
			continue
		}
		if rest != nil {
			return false
		}
		rest, coef = a, k
	}
	if rest == nil {
		return false
	}
	if _, has := m[x]; has {
		for _, y := range t.Leaves(rest, nil) {
			n, ok := y.Int()
			if !ok {
				return false
			}
			out[c+coef*n] = true
		}
		return true
	}
	// coef*join + c where the join's leaves contain x
	if coef != 1 {
		return false
	}
	if rest.Op != OpPhi && rest.Op != OpMemPhi {
		return false
	}
	for _, y := range t.Leaves(rest, func(z *Term) bool { return z == x }) {
		if d, ok := t.Diff(y, x); ok {
			out[d+c] = true
			continue
		}
		sub := map[int64]bool{}
		if y == rest || !t.deltas(y, x, sub, seen) {
			return false
		}
		for d := range sub {
			out[d+c] = true
		}
	}
	return true
}

// JoinsAt lists the terms that are joined at a loop head among those found by walking a term.
func (t *Terms) JoinsAt(l *Loop, x *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(*Term)
	walk = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if x.JoinBlk() == l.Head {
			out = append(out, x)
			return
		}
		if x.Op == OpLoad || x.Op == OpMemPhi {
			walk(x.Path.Root)
			for _, s := range x.Path.Steps {
				walk(s.Idx)
			}
			return
		}
		for _, a := range x.Args {
			walk(a)
		}
	}
	walk(x)
	return out
}
