package rules

import (
	"fmt"
	"strings"

	"trypocheck/eng"
)

func checkP24(c *C) {
	c.ranges()
	c.splits()
	c.merges()
	c.Min("range", 2)
	c.Min("split", 3)
	c.Min("merge", 4)
}

// ranges: the predicates that the server passes on say whether the size lies
// strictly between the limits of the request.
func (c *C) ranges() {
	for _, fn := range c.P.Methods(pRPC, "KMeansServer") {
		if !exported(fn) {
			continue
		}
		g := c.Flat(fn, "L3")
		if g == nil {
			continue
		}
		t := g.Terms()
		g.Each(func(v *eng.Val) {
			n := Callee(v)
			if v.Op != eng.OpCall || n != "CentroidManager.SplitCentroids" && n != "CentroidManager.MergeCentroids" {
				return
			}
			inst := "KMeansServer." + fn.Name()
			if fn.Name() != n[len("CentroidManager."):] {
				c.Bad("range", inst, v.Where(), "calls %s", n)
				return
			}
			cl := t.Of(v.Args[1])
			if cl.Op != eng.OpClosure || cl.V == nil {
				c.Bad("range", inst, v.Where(), "the predicate is not known")
				return
			}
			_, leave := spliced(v, cl.V)
			if leave == nil {
				c.Bad("range", inst, v.Where(), "the predicate is not known")
				return
			}
			var req *eng.Term
			if len(g.Params) > 1 {
				req = t.Of(g.Params[1])
			}
			why := c.strictlyBetween(g, t, leave, req)
			c.Expect(why == "", "range", inst, leave.Where(), "%s", why)
		})
	}
}

// strictlyBetween: a result is true exactly if the size of the centroid is between the limits.
func (c *C) strictlyBetween(g *eng.Graph, t *eng.Terms, leave *eng.Val, req *eng.Term) string {
	var enter *eng.Val
	b := leave.Blk
	for b != nil && enter == nil {
		for _, v := range b.Instrs {
			if v.Op == eng.OpEnter && v.Fn != nil && v.Fn == leave.Fn {
				enter = v
			}
		}
		b = b.Idom
	}
	if enter == nil {
		return "the predicate is not known"
	}
	if req == nil {
		return "there is no request"
	}
	lim := func(name string) *eng.Term { return fieldTerm(t, req, name) }
	min, max := lim("DPRangeMin"), lim("DPRangeMax")
	if min == nil || max == nil {
		return "the limits are not fields of the request"
	}
	// sizes of the centroid
	var sizes []*eng.Term
	res := t.Of(leave.Args[0])
	track := []*eng.Term{res}
	el := t.Of(enter.Args[0])
	g.Each(func(v *eng.Val) {
		if v.Op == eng.OpCall && Callee(v) == "Centroid.LenDP" && t.Of(v.Args[0]) == el {
			sizes = append(sizes, t.Of(v))
		}
		if v.Op == eng.OpLen {
			if x := t.Of(v.Args[0]); x.Path != nil && x.Path.Root == el && len(x.Path.Steps) == 1 {
				sizes = append(sizes, t.Of(v))
			}
		}
	})
	if len(sizes) == 0 {
		return "the size of the centroid is not looked at"
	}
	track = append(track, sizes...)
	one := sizes[0]
	same := func(f *eng.FactSet) *eng.FactSet {
		// the size does not change within the predicate
		for _, s := range sizes[1:] {
			f.Add(t.Bin(eqTok, s, one, boolT), true)
		}
		return f
	}
	bad := ""
	n := 0
	s := &Sim{G: g, T: t, From: enter.Blk, Track: track}
	judge := func(f *eng.FactSet, val bool) {
		n++
		in := func(d *eng.Term) (yes, no bool) { // d > 0
			lo, hi := f.Range(d)
			return lo >= 1, hi <= 0
		}
		some := func(hi bool) (yes, no bool) {
			for _, s := range sizes {
				d := t.Bin(minus, s, min, intT)
				if hi {
					d = t.Bin(minus, max, s, intT)
				}
				y, n := in(d)
				yes, no = yes || y, no || n
			}
			return
		}
		loY, loN := some(false)
		hiY, hiN := some(true)
		if val && !(loY && hiY) {
			bad = "a centroid whose size is not strictly between the limits may be chosen"
		}
		if !val && !loN && !hiN {
			bad = "a centroid whose size is strictly between the limits may be left out"
		}
	}
	s.Edge = func(e *St, from, to *eng.Blk) bool {
		return from != leave.Blk
	}
	s.Event = func(e *St, v *eng.Val) {
		if v != leave {
			return
		}
		x := e.Resolve(res)
		if b, ok := e.Truth(x); ok {
			judge(e.Facts(), b)
			return
		}
		for _, b := range []bool{true, false} {
			f := e.Facts().Clone()
			f.Add(x, b)
			judge(same(f), b)
		}
	}
	s.Run()
	if s.Overflow || n == 0 {
		return "the predicate could not be followed"
	}
	return bad
}

// splits: SplitCentroids
func (c *C) splits() {
	fn := c.method(pCM, "CentroidManager", "SplitCentroids")
	if fn == nil {
		c.Bad("split", "CentroidManager.SplitCentroids", "-", "there is no such operation")
		return
	}
	inst := "CentroidManager.SplitCentroids"
	g := c.Flat(fn, "L2")
	f := c.newFlow(fn, g, inst)
	f.Run()
	c.visits(f, "split", inst, func(v *eng.Val) bool {
		return Callee(v) == "Centroid.DrainUnordered" || Callee(v) == "Centroid.DrainOrdered"
	})
	// nothing is removed
	n := 0
	g.EachOwn(func(v *eng.Val) {
		if v.Op != eng.OpStore || !eng.SamePath(f.t.PathOf(v.Args[0]), f.list) {
			return
		}
		n++
		N, O := f.t.Of(v.Args[1]), f.t.LoadAt(f.list, f.listT, v)
		ok := N == O || N.Op == eng.OpAppend && sameOrPhi(f.t, f.t.Of(N.V.Args[0]), O)
		c.Expect(ok, "split", inst+" keeps", v.Where(), "the list of centroids is replaced by one that does not start with all old centroids")
	})
	if n == 0 {
		c.Bad("split", inst+" adds", where(c, fn), "no centroid is added")
	} else {
		c.OK("split", inst+" adds", where(c, fn))
	}
}

func sameOrPhi(t *eng.Terms, x, y *eng.Term) bool { return x == y }

// merges: MergeCentroids
func (c *C) merges() {
	fn := c.method(pCM, "CentroidManager", "MergeCentroids")
	if fn == nil {
		c.Bad("merge", "CentroidManager.MergeCentroids", "-", "there is no such operation")
		return
	}
	inst := "CentroidManager.MergeCentroids"
	g := c.Flat(fn, "L2")
	f := c.newFlow(fn, g, inst)
	f.Run()
	t := f.t
	c.visits(f, "merge", inst, func(v *eng.Val) bool { return isSearch(v) })
	// what is absorbed
	for _, s := range f.marks {
		if !s.used {
			continue
		}
		c.Expect(s.bad == "", "merge", inst+" absorbed", s.badAt, "%s", s.bad)
	}
	g.EachOwn(func(v *eng.Val) {
		if is, _ := f.source(v); !is || !isDrain(Callee(v)) {
			return
		}
		facts := t.BlockFacts(v.Blk)
		l, k, fs := elemAt(t.Of(v.Args[0]))
		if l == nil || len(fs) != 0 {
			c.Bad("merge", inst+" self", v.Where(), "it is not known which centroid is emptied")
			return
		}
		g.EachOwn(func(w *eng.Val) {
			if Callee(w) != "Centroid.AddDataPoint" || w.Op != eng.OpCall {
				return
			}
			m, i, fs := elemAt(t.Of(w.Args[0]))
			ok := m != nil && len(fs) == 0 && sameCell(l, m) && differ(t, facts, k, i)
			c.Expect(ok, "merge", inst+" self", v.Where(), "a centroid may be merged with itself")
		})
		twice := true
		for _, s := range f.marks {
			if notMember(t, facts, s.m, k) {
				twice = false
			}
		}
		if f.someEmptyTest(facts, t.Of(v.Args[0])) {
			twice = false
		}
		c.Expect(!twice, "merge", inst+" twice", v.Where(), "the same centroid may be merged twice")
	})
	c.asksAgain(f, inst)
	c.removesMarked(f, inst)
}

// asksAgain: before a centroid absorbs another one, the predicate says yes to it as it
// is then, with what it has absorbed before.
func (c *C) asksAgain(f *Flow, inst string) {
	t, g := f.t, f.g
	if len(g.Params) < 2 {
		return
	}
	pred := t.Of(g.Params[1])
	// for each way to empty a centroid, the loop over those that are emptied
	over := map[*eng.Val]*eng.Loop{}
	var outer *eng.Loop
	g.EachOwn(func(v *eng.Val) {
		if is, _ := f.source(v); !is || !isDrain(Callee(v)) {
			return
		}
		_, k, fs := elemAt(t.Of(v.Args[0]))
		if k == nil || len(fs) != 0 {
			return
		}
		l := innermost(v)
		for l != nil && t.Invariant(l, k) {
			l = l.Parent
		}
		over[v] = l
		for x := l; x != nil; x = x.Parent {
			outer = x
		}
	})
	if len(over) == 0 || outer == nil {
		return
	}
	calls := map[string]*eng.Term{}
	s := &Sim{G: g, T: t}
	g.EachOwn(func(v *eng.Val) {
		if v.Op == eng.OpCall && Callee(v) == "dynamic" && t.Of(v.Args[0]) == pred {
			calls[fmt.Sprint(v.ID)] = t.Of(v)
			s.Track = append(s.Track, t.Of(v))
		}
	})
	bad := false
	// a<id> asked, y it said yes, n it said no, d one was absorbed since
	s.Event = func(e *St, v *eng.Val) {
		if calls[fmt.Sprint(v.ID)] != nil {
			e.A = "a" + fmt.Sprint(v.ID)
			return
		}
		if _, ok := over[v]; !ok {
			return
		}
		if strings.HasPrefix(e.A, "a") {
			if val, ok := e.Truth(calls[e.A[1:]]); ok && val {
				e.A = "y"
			}
		}
		if e.A != "y" && e.A != "d" && !bad {
			bad = true
			c.Bad("merge", inst+" in range", v.Where(), "a centroid absorbs another one although the predicate may not say yes to it any more (path %s)", e.Path())
		}
		e.A = "d"
	}
	s.Edge = func(e *St, from, to *eng.Blk) bool {
		if strings.HasPrefix(e.A, "a") {
			if val, ok := e.Truth(calls[e.A[1:]]); ok {
				e.A = map[bool]string{true: "y", false: "n"}[val]
			}
		}
		for _, l := range over {
			if l != nil && to == l.Head && l.Blocks[from] {
				if e.A == "d" {
					e.A = ""
				}
			}
		}
		return !bad
	}
	s.Run()
	c.States += s.States
	if s.Overflow {
		c.Bad("merge", inst+" in range", where(c, g.Fn), "too many paths")
	} else if !bad {
		c.OK("merge", inst+" in range", where(c, g.Fn))
	}
}

// someEmptyTest: a centroid is known to have datapoints.
func (f *Flow) someEmptyTest(facts *eng.FactSet, x *eng.Term) bool {
	for _, y := range facts.List() {
		for _, a := range condAtoms(f.t, y.Cond) {
			if a.Op == eng.OpLen && a.Args[0].Path != nil && a.Args[0].Path.Root == x {
				if lo, _ := facts.Range(a); lo > 0 {
					return true
				}
			}
		}
	}
	return false
}

// removesMarked: exactly the marked centroids disappear.
func (c *C) removesMarked(f *Flow, inst string) {
	t := f.t
	found := false
	f.g.EachOwn(func(v *eng.Val) {
		if v.Op != eng.OpStore || !eng.SamePath(t.PathOf(v.Args[0]), f.list) {
			return
		}
		found = true
		N := t.Of(v.Args[1])
		why := "it is not known which centroids disappear"
		if _, idx, ok := removal(t, N); ok {
			if l := f.g.LoopOf(v.Blk); l != nil {
				why = f.allMarkedRemoved(l, v, idx)
			}
		} else if m, _ := mapLoop(f.g, t, N, nil); m != nil && m.Cv.Idx != nil {
			why = ""
			if m.Filtered {
				// kept exactly if not marked
				fx := t.BlockFacts(m.At.Blk)
				ok := false
				for _, s := range f.marks {
					if s.list == m.Cv.List && notMember(t, fx, s.m, m.Cv.Idx) {
						ok = true
					}
				}
				if !ok {
					why = "absorbed centroids may stay"
				}
			} else {
				why = "absorbed centroids stay"
			}
		}
		c.Expect(why == "", "merge", inst+" removes", v.Where(), "%s", why)
	})
	if !found {
		c.Bad("merge", inst+" removes", where(c, f.g.Fn), "no centroid is removed")
	}
}

// allMarkedRemoved: a loop over all positions removes an element whenever it is marked.
func (f *Flow) allMarkedRemoved(l *eng.Loop, v *eng.Val, idx *eng.Term) string {
	t := f.t
	cv := f.covs[l.Head]
	if cv == nil || cv.Idx == nil || len(l.Exits()) != 1 || !sameInt(t, cv.Idx, idx) {
		return "the loop is not known to look at all centroids"
	}
	okList := false
	for _, s := range f.marks {
		if s.list == cv.List {
			okList = true
		}
	}
	if !okList {
		return "the loop is not known to look at all centroids"
	}
	bad := ""
	s := &Sim{G: f.g, T: t, From: l.Head, Start: ""}
	f.g.EachOwn(func(w *eng.Val) {
		if w.Op == eng.OpIf && l.Blocks[w.Blk] {
			s.Track = append(s.Track, t.Of(w.Args[0]))
		}
	})
	s.Event = func(e *St, w *eng.Val) {
		if w == v {
			e.A = "removed"
		}
	}
	s.Edge = func(e *St, from, to *eng.Blk) bool {
		if to == l.Head {
			if e.A == "" {
				ok := false
				for _, y := range e.Facts().List() {
					if m, k := memberOf(y.Cond); m != nil && !y.Val && sameInt(t, k, idx) {
						ok = true
					}
				}
				if !ok {
					bad = "an absorbed centroid may stay"
				}
			}
			return false
		}
		return l.Blocks[to]
	}
	s.Run()
	if s.Overflow {
		return "too many paths"
	}
	return bad
}

// visits: all centroids of the own list are looked at, those for which the predicate
// (a parameter) says so are acted upon, and only those.
func (c *C) visits(f *Flow, rule, inst string, acts func(*eng.Val) bool) {
	t, g := f.t, f.g
	if len(g.Params) < 2 {
		c.Bad(rule, inst+" chosen", where(c, g.Fn), "there is no predicate")
		return
	}
	pred := t.Of(g.Params[1])
	isPred := func(v *eng.Val) bool {
		return v.Op == eng.OpCall && Callee(v) == "dynamic" && t.Of(v.Args[0]) == pred
	}
	// the loop over all centroids
	var loop *eng.Loop
	var cv *Cover
	for _, l := range g.Loops() {
		x := f.covs[l.Head]
		if x == nil || !isOwnList(f, x.List, l) {
			continue
		}
		has := false
		for b := range l.Blocks {
			for _, v := range b.Instrs {
				if isPred(v) {
					if fs, ok := x.ElemOf(t, t.Of(v.Args[1])); ok && len(fs) == 0 {
						has = true
					}
				}
			}
		}
		if has && loop == nil {
			loop, cv = l, x
		}
	}
	if loop == nil {
		c.Bad(rule, inst+" chosen", where(c, g.Fn), "no loop that asks the predicate for each centroid was found")
		return
	}
	for _, e := range loop.Exits() {
		if e != cv.Exit && !panics(e.To) {
			c.Bad(rule, inst+" chosen", e.From.Last().Where(), "the remaining centroids are not looked at")
			return
		}
	}
	known := func(fx *eng.FactSet) (val, ok bool) {
		for _, y := range fx.List() {
			if y.Cond.Op == eng.OpCall && y.Cond.V != nil && isPred(y.Cond.V) && loop.Blocks[y.Cond.V.Blk] && g.LoopOf(y.Cond.V.Blk) == loop {
				if fs, is := cv.ElemOf(t, t.Of(y.Cond.V.Args[1])); is && len(fs) == 0 {
					return y.Val, true
				}
			}
		}
		return false, false
	}
	n := 0
	g.EachOwn(func(v *eng.Val) {
		if v.Op != eng.OpCall || !acts(v) {
			return
		}
		n++
		if !loop.Blocks[v.Blk] {
			c.Bad(rule, inst+" chosen", v.Where(), "acts on a centroid without asking the predicate")
			return
		}
		if isDrain(Callee(v)) {
			if fs, ok := cv.ElemOf(t, t.Of(v.Args[0])); !ok || len(fs) != 0 {
				c.Bad(rule, inst+" chosen", v.Where(), "acts on another centroid than the one the predicate was asked about")
				return
			}
		}
		val, ok := known(t.BlockFacts(v.Blk))
		c.Expect(ok && val, rule, inst+" chosen", v.Where(), "acts on a centroid although the predicate may say no")
	})
	if n == 0 {
		c.Bad(rule, inst+" chosen", where(c, g.Fn), "nothing is done with the chosen centroids")
		return
	}
	// nothing is left out
	bad, badAt := "", loop.Head.Last().Where()
	s := &Sim{G: g, T: t, From: loop.Head}
	g.EachOwn(func(w *eng.Val) {
		if w.Op == eng.OpIf && loop.Blocks[w.Blk] {
			s.Track = append(s.Track, t.Of(w.Args[0]))
		}
	})
	s.Event = func(e *St, w *eng.Val) {
		if w.Op == eng.OpCall && acts(w) {
			e.A = "done"
		}
	}
	s.Edge = func(e *St, from, to *eng.Blk) bool {
		if to != loop.Head {
			return loop.Blocks[to]
		}
		if e.A == "done" {
			return false
		}
		if val, ok := known(e.Facts()); ok && !val {
			return false
		}
		// absorbed already
		for _, y := range e.Facts().List() {
			if m, k := memberOf(y.Cond); m != nil && y.Val && sameInt(t, k, cv.Idx) {
				return false
			}
		}
		if rule == "split" && f.tooSmall(e, cv) {
			return false
		}
		if cv.Idx != nil {
			if _, hi := e.Facts().Range(cv.Idx); hi < 0 {
				return false // not a position
			}
		}
		bad, badAt = "a centroid for which the predicate says yes may be left out", from.Last().Where()
		return false
	}
	s.Run()
	if s.Overflow {
		bad = "too many paths"
	}
	c.Expect(bad == "", rule, inst+" all chosen", badAt, "%s", bad)
}

// panics: nothing but a panic follows.
func panics(b *eng.Blk) bool {
	for i := 0; i < 10 && b != nil; i++ {
		if l := b.Last(); l != nil && l.Op == eng.OpPanic {
			return true
		}
		if len(b.Succs) != 1 {
			return false
		}
		b = b.Succs[0]
	}
	return false
}

// isOwnList: a list is the own list as it is when a loop starts.
func isOwnList(f *Flow, x *eng.Term, l *eng.Loop) bool {
	if f.list == nil {
		return false
	}
	for _, p := range l.Head.Preds {
		if !l.Blocks[p] && f.t.LoadAt(f.list, f.listT, p.Last()) != x {
			return false
		}
	}
	return true
}

// tooSmall: the current centroid has fewer than two datapoints.
func (f *Flow) tooSmall(e *St, cv *Cover) bool {
	t := f.t
	lf := f.lists[pCent+".Centroid"][0]
	size := func(a *eng.Term) bool {
		if a.Op != eng.OpLen || a.Args[0].Path == nil {
			return false
		}
		st, fl := a.Args[0].Path.LastField()
		fs, ok := cv.ElemOf(t, a.Args[0].Path.Root)
		return st == pCent+".Centroid" && fl == lf && ok && len(fs) == 0
	}
	for _, y := range e.Facts().List() {
		small := false
		t.Walk(y.Cond, func(a *eng.Term) bool {
			max := int64(1)
			if a.Op == eng.OpBin && a.Aux == "/" {
				if n, ok := a.Args[1].Int(); !ok || n != 2 || !size(a.Args[0]) {
					return true
				}
				max = 0
			} else if !size(a) {
				return true
			}
			if _, hi := e.Facts().Range(a); hi <= max {
				small = true
			}
			return true
		})
		if small {
			return true
		}
	}
	return false
}

func init() {
	register("P24", checkP24, Desc{
		How: "Path-sensitive analysis of the predicates that the server passes to the manager (truth of the result against the linear facts about size and limits on every path), and of the split and merge operations: which centroids are chosen, absorbed and removed.",
		Rules: map[string]string{
			"range": "the predicate is true exactly if the size of the centroid is greater than the lower and less than the upper limit of the request",
			"split": "every centroid of the list is looked at, drained if and only if the predicate says so (unless there is nothing to split), and the list only grows",
			"merge": "every centroid is looked at and absorbs others if and only if the predicate says so and it was not absorbed itself; what is emptied is another centroid that was not absorbed before; a centroid is marked only if it is emptied completely, gets nothing afterwards, and exactly the marked ones are removed; before each absorption the predicate said yes to the centroid as it was then, at positions that still mean the same centroid",
		},
		Assumes: []string{"search functions return valid, distinct positions", "the size of a centroid does not change while the predicate runs (the namespace is locked, P04)", "a centroid is in a list once"},
	})
}
