package eng

import (
	"math"
)

// Fact is a condition that is known to have a value.
type Fact struct {
	Cond *Term
	Val  bool
}

// FactSet is a conjunction of facts.
type FactSet struct {
	t     *Terms
	vals  map[*Term]bool
	rng   map[*Term]*interval // linear integer forms
	Bad   bool                // contradictory
	order []Fact
	depth int
}

type interval struct {
	lo, hi int64
	ne     map[int64]bool
}

func (t *Terms) newFacts() *FactSet {
	return &FactSet{t: t, vals: map[*Term]bool{}, rng: map[*Term]*interval{}}
}

func (f *FactSet) clone() *FactSet {
	n := f.t.newFacts()
	n.Bad = f.Bad
	n.depth = f.depth
	for k, v := range f.vals {
		n.vals[k] = v
	}
	for k, v := range f.rng {
		c := &interval{v.lo, v.hi, map[int64]bool{}}
		for x := range v.ne {
			c.ne[x] = true
		}
		n.rng[k] = c
	}
	n.order = append([]Fact{}, f.order...)
	return n
}

// List gives the facts in the order they were found.
func (f *FactSet) List() []Fact { return f.order }

func (f *FactSet) iv(x *Term) *interval {
	i := f.rng[x]
	if i == nil {
		i = &interval{math.MinInt64, math.MaxInt64, map[int64]bool{}}
		if nonNeg(x) {
			i.lo = 0
		}
		f.rng[x] = i
	}
	return i
}

func nonNeg(x *Term) bool { return x.Op == OpLen || x.Op == OpCap }

func (i *interval) fix() {
	for i.ne[i.lo] && i.lo <= i.hi {
		i.lo++
	}
	for i.ne[i.hi] && i.lo <= i.hi {
		i.hi--
	}
}

// normal form of an integer comparison: base (lead-normalised, no constant), bounds
func (t *Terms) cmpForm(c *Term) (base *Term, kind string, k int64, ok bool) {
	if c.Op != OpBin || len(c.Args) != 2 {
		return nil, "", 0, false
	}
	n, isC := c.Args[1].Int()
	if !isC {
		return nil, "", 0, false
	}
	if c.Args[0].Typ == nil || !isInt(c.Args[0].Typ) {
		return nil, "", 0, false
	}
	l := t.lin(c.Args[0])
	n -= l.c
	l.c = 0
	if len(l.m) == 0 {
		return nil, "", 0, false
	}
	neg := l.lead() < 0
	if neg {
		l = l.scale(-1)
	}
	b := t.fromLin(l)
	switch c.Aux {
	case "<":
		if neg { // -b < n  =>  b > -n
			return b, ">=", -n + 1, true
		}
		return b, "<=", n - 1, true
	case "==", "!=":
		if neg {
			n = -n
		}
		return b, c.Aux, n, true
	}
	return nil, "", 0, false
}

// Add records that a condition has a value and what follows from that.
func (f *FactSet) Add(c *Term, val bool) { f.add(c, val, true) }

func (f *FactSet) add(c *Term, val, expand bool) {
	if f.Bad || c == nil {
		return
	}
	for c.Op == OpUn && c.Aux == "!" {
		c, val = c.Args[0], !val
	}
	if b, ok := c.Bool(); ok {
		if b != val {
			f.Bad = true
		}
		return
	}
	if old, ok := f.vals[c]; ok {
		if old != val {
			f.Bad = true
		}
		return
	}
	f.vals[c] = val
	f.order = append(f.order, Fact{c, val})
	if n := f.t.Not(c); n.Op != OpUn {
		f.vals[n] = !val
	}
	if base, kind, k, ok := f.t.cmpForm(c); ok {
		if !val {
			switch kind {
			case "<=":
				kind, k = ">=", k+1
			case ">=":
				kind, k = "<=", k-1
			case "==":
				kind = "!="
			case "!=":
				kind = "=="
			}
		}
		i := f.iv(base)
		switch kind {
		case "<=":
			if k < i.hi {
				i.hi = k
			}
		case ">=":
			if k > i.lo {
				i.lo = k
			}
		case "==":
			if k > i.lo {
				i.lo = k
			}
			if k < i.hi {
				i.hi = k
			}
		case "!=":
			i.ne[k] = true
		}
		i.fix()
		if i.lo > i.hi {
			f.Bad = true
		}
	}
	// A nil slice is empty.
	if c.Op == OpBin && (c.Aux == "==" || c.Aux == "!=") && len(c.Args) == 2 && (c.Args[0].IsNil() || c.Args[1].IsNil()) {
		x := c.Args[0]
		if x.IsNil() {
			x = c.Args[1]
		}
		if (c.Aux == "==") == val {
			i := f.iv(f.t.Len(x, nil))
			i.hi = 0
			if i.lo > 0 {
				f.Bad = true
			}
		}
	}
	// A join of booleans.
	if expand && (c.Op == OpPhi || c.Op == OpMemPhi) {
		f.expand(c, val)
	}
}

func (f *FactSet) expand(c *Term, val bool) {
	t := f.t
	b := c.JoinBlk()
	if b == nil || b.G.isLoopHeader(b) || f.depth > 2 {
		return
	}
	args, preds := t.PhiArgs(c)
	var inter *FactSet
	for i, a := range args {
		if v, ok := a.Bool(); ok && v != val {
			continue
		}
		e := t.EdgeFacts(preds[i], b).clone()
		e.depth = f.depth + 1
		e.Add(a, val)
		for _, x := range f.order {
			if x.Cond != c {
				e.add(x.Cond, x.Val, false)
			}
		}
		if e.Bad {
			continue
		}
		if inter == nil {
			inter = e
			continue
		}
		inter = inter.meet(e)
	}
	if inter == nil {
		f.Bad = true
		return
	}
	for _, x := range inter.order {
		if x.Cond != c {
			f.add(x.Cond, x.Val, false)
		}
	}
}

func (f *FactSet) meet(o *FactSet) *FactSet {
	n := f.t.newFacts()
	for _, x := range f.order {
		if v, ok := o.Truth(x.Cond); ok && v == x.Val {
			n.add(x.Cond, x.Val, false)
		}
	}
	for _, x := range o.order {
		if v, ok := f.Truth(x.Cond); ok && v == x.Val {
			n.add(x.Cond, x.Val, false)
		}
	}
	return n
}

// Truth decides a condition from the facts.
func (f *FactSet) Truth(c *Term) (val, known bool) {
	if b, ok := c.Bool(); ok {
		return b, true
	}
	if v, ok := f.vals[c]; ok {
		return v, true
	}
	if c.Op == OpUn && c.Aux == "!" {
		v, ok := f.Truth(c.Args[0])
		return !v, ok
	}
	if base, kind, k, ok := f.t.cmpForm(c); ok {
		var i interval
		if p := f.rng[base]; p != nil {
			i = *p
		} else {
			i = interval{math.MinInt64, math.MaxInt64, nil}
			if nonNeg(base) {
				i.lo = 0
			}
		}
		switch kind {
		case "<=":
			if i.hi <= k {
				return true, true
			}
			if i.lo > k {
				return false, true
			}
		case ">=":
			if i.lo >= k {
				return true, true
			}
			if i.hi < k {
				return false, true
			}
		case "==", "!=":
			if i.lo == k && i.hi == k {
				return kind == "==", true
			}
			if k < i.lo || k > i.hi || i.ne[k] {
				return kind == "!=", true
			}
		}
	}
	return false, false
}

// Range gives the known bounds of an integer term.
func (f *FactSet) Range(x *Term) (lo, hi int64) {
	l := f.t.lin(x)
	c := l.c
	l.c = 0
	if len(l.m) == 0 {
		return c, c
	}
	neg := l.lead() < 0
	if neg {
		l = l.scale(-1)
	}
	b := f.t.fromLin(l)
	i := interval{math.MinInt64, math.MaxInt64, nil}
	if p := f.rng[b]; p != nil {
		i = *p
	} else if nonNeg(b) {
		i.lo = 0
	}
	sat := func(v int64, neg bool) int64 {
		if v == math.MinInt64 || v == math.MaxInt64 {
			if neg {
				if v == math.MinInt64 {
					return math.MaxInt64
				}
				return math.MinInt64
			}
			return v
		}
		if neg {
			return -v + c
		}
		return v + c
	}
	if neg {
		return sat(i.hi, true), sat(i.lo, true)
	}
	return sat(i.lo, false), sat(i.hi, false)
}

// BlockFacts gives what is known when a block runs.
func (t *Terms) BlockFacts(b *Blk) *FactSet {
	g := b.G
	if g.facts == nil {
		g.facts = map[*Blk]*FactSet{}
	}
	if f, ok := g.facts[b]; ok {
		if f == nil {
			return t.newFacts() // being computed
		}
		return f
	}
	g.facts[b] = nil
	var f *FactSet
	switch {
	case b.Idom == nil:
		f = t.newFacts()
		if g.Parent != nil && g.GoVal != nil {
			f = t.BlockFacts(g.GoVal.Blk).clone()
		}
	case len(b.Preds) == 1:
		f = t.EdgeFacts(b.Preds[0], b)
	default:
		f = t.BlockFacts(b.Idom).clone()
		// a join: what all feasible incoming edges agree on
		// (at a loop head: all that enter the loop)
		{
			var inter *FactSet
			for _, p := range b.Preds {
				if b == p || b.Dominates(p) {
					continue
				}
				e := t.EdgeFacts(p, b)
				if e.Bad {
					continue
				}
				if inter == nil {
					inter = e
				} else {
					inter = inter.meet(e)
				}
			}
			if inter != nil {
				for _, x := range inter.order {
					f.add(x.Cond, x.Val, false)
				}
			} else if !g.isLoopHeader(b) {
				f.Bad = true
			}
		}
	}
	g.facts[b] = f
	return f
}

// EdgeFacts gives what is known when control takes an edge.
func (t *Terms) EdgeFacts(a, b *Blk) *FactSet {
	f := t.BlockFacts(a)
	l := a.Last()
	if l == nil || l.Op != OpIf || a.Succs[0] == a.Succs[1] {
		return f
	}
	f = f.clone()
	f.Add(t.Of(l.Args[0]), b == a.Succs[0])
	return f
}

// Feasible tells which incoming edges of a join block are possible under some facts.
func (t *Terms) Feasible(b *Blk, f *FactSet) []*Blk {
	var r []*Blk
	for _, p := range b.Preds {
		e := t.EdgeFacts(p, b).clone()
		if !b.G.isLoopHeader(b) {
			for _, x := range f.order {
				// What is known of joins at b in terms of the values that come in over this edge.
				if x.Cond.JoinBlk() == b {
					args, preds := t.PhiArgs(x.Cond)
					for i := range preds {
						if preds[i] == p {
							e.Add(args[i], x.Val)
						}
					}
					continue
				}
				if c := t.substJoin(x.Cond, b, p); c != nil {
					e.Add(c, x.Val)
				}
			}
		}
		if !e.Bad {
			r = append(r, p)
		}
	}
	return r
}

// substJoin rewrites comparisons of joins at b to the values coming from p.
func (t *Terms) substJoin(c *Term, b *Blk, p *Blk) *Term {
	pick := func(x *Term) *Term {
		if x.JoinBlk() == b {
			args, preds := t.PhiArgs(x)
			for i := range preds {
				if preds[i] == p {
					return args[i]
				}
			}
		}
		if x.Op == OpLen && len(x.Args) == 1 && x.Args[0].JoinBlk() == b {
			args, preds := t.PhiArgs(x.Args[0])
			for i := range preds {
				if preds[i] == p {
					return t.Len(args[i], nil)
				}
			}
		}
		return x
	}
	if c.Op != OpBin || len(c.Args) != 2 {
		return c
	}
	x, y := pick(c.Args[0]), pick(c.Args[1])
	if x == c.Args[0] && y == c.Args[1] {
		return c
	}
	return t.Bin(tokOf(c.Aux), x, y, c.Typ)
}

// Under simplifies a value with what is known: joins whose other inputs are impossible disappear.
func (t *Terms) Under(x *Term, f *FactSet) *Term {
	for n := 0; n < 8; n++ {
		b := x.JoinBlk()
		if b == nil || b.G.isLoopHeader(b) {
			return x
		}
		args, preds := t.PhiArgs(x)
		feas := map[*Blk]bool{}
		for _, p := range t.Feasible(b, f) {
			feas[p] = true
		}
		var one *Term
		for i, a := range args {
			if !feas[preds[i]] {
				continue
			}
			if one != nil && one != a {
				return x
			}
			one = a
		}
		if one == nil {
			return x
		}
		x = one
	}
	return x
}
