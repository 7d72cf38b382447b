package rules

import (
	"go/constant"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"

	"trypocheck/eng"
)

func checkP18(c *C) {
	c.prefabs()
	c.brute()
	c.wiring()
	c.storeSearches()
	c.Min("prefab", 4)
	c.Min("candidate", 1)
	c.Min("counter", 2)
	c.Min("insert", 2)
	c.Min("better", 1)
	c.Min("result", 1)
	c.Min("wired", 8)
	c.Min("search", 6)
}

// floatConst evaluates constant terms.
func floatConst(x *eng.Term) (float64, bool) {
	switch x.Op {
	case eng.OpConst:
		if k := x.V.Const; k != nil && (k.Kind() == constant.Float || k.Kind() == constant.Int) {
			f, _ := constant.Float64Val(constant.ToFloat(k))
			return f, true
		}
	case eng.OpZero:
		return 0, !x.IsNil()
	case eng.OpConv:
		return floatConst(x.Args[0])
	case eng.OpUn:
		if x.Aux == "-" {
			f, ok := floatConst(x.Args[0])
			return -f, ok
		}
	case eng.OpBin:
		a, ok := floatConst(x.Args[0])
		if !ok {
			return 0, false
		}
		b, ok := floatConst(x.Args[1])
		if !ok {
			return 0, false
		}
		switch x.Aux {
		case "*":
			return a * b, true
		case "+":
			return a + b, true
		case "-":
			return a - b, true
		}
	case eng.OpCall:
		if Callee(x.V) == "math.Inf" {
			if n, ok := x.V.Args[0].IntConst(); ok {
				if n >= 0 {
					return math.Inf(1), true
				}
				return math.Inf(-1), true
			}
		}
	}
	return 0, false
}

// prefabs: the named searches configure the general one by their name.
func (c *C) prefabs() {
	for _, w := range []struct {
		name, dist string
		asc        bool
	}{{"KNNCos", "CosineSimilarity", false}, {"KFNCos", "CosineSimilarity", true}, {"KNNEuc", "EuclideanDistance", true}, {"KFNEuc", "EuclideanDistance", false}} {
		f := c.Func(pSearch, w.name)
		if f == nil {
			c.Bad("prefab", w.name, "-", "there is no %s", w.name)
			continue
		}
		g := c.Flat(f, "L1")
		t := g.Terms()
		calls := Calls(g, is("searchutils.KNNBrute"))
		if !c.Expect(len(calls) == 1, "prefab", w.name, where(c, f), "searches %d times", len(calls)) {
			continue
		}
		v := calls[0]
		a := t.Of(v.Args[0])
		asc, known := fieldTerm(t, a, "Ascending").Bool()
		ok := fieldTerm(t, a, "TargetVec") == t.Of(g.Params[0]) && fieldTerm(t, a, "VecPoolGenerator") == t.Of(g.Params[1]) && fieldTerm(t, a, "K") == t.Of(g.Params[2])
		c.Expect(ok, "prefab", w.name+" arguments", v.Where(), "does not search with what it is given: %v", a)
		c.Expect(known && asc == w.asc, "prefab", w.name+" order", v.Where(), "ranks in the order ascending=%v", fieldTerm(t, a, "Ascending"))
		d := fieldTerm(t, a, "DistFunc")
		c.Expect((d.Op == eng.OpFunc || d.Op == eng.OpClosure) && d.V != nil && d.V.Fn != nil && fnName(d.V.Fn) == "pkg/mathutils."+w.dist, "prefab", w.name+" measure", v.Where(), "compares with %v instead of %s", d, w.dist)
		g.EachOwn(func(r *eng.Val) {
			if r.Op == eng.OpReturn {
				c.Expect(len(r.Args) == 1 && t.Of(r.Args[0]) == t.Of(v), "prefab", w.name+" result", r.Where(), "does not return what the search found")
			}
		})
	}
}

// brute is the general search.
func (c *C) brute() {
	f := c.Func(pSearch, "KNNBrute")
	if f == nil {
		c.Bad("candidate", "KNNBrute", "-", "there is no KNNBrute")
		return
	}
	g := c.Flat(f, "L0")
	t := g.Terms()
	args := t.Of(g.Params[0])
	fld := func(n string) *eng.Term { return fieldTerm(t, args, n) }
	asc := fld("Ascending")
	var gens, dists []*eng.Val
	g.Each(func(v *eng.Val) {
		if v.Op != eng.OpCall || !v.Dyn {
			return
		}
		switch t.Of(v.Args[0]) {
		case fld("VecPoolGenerator"):
			gens = append(gens, v)
		case fld("DistFunc"):
			dists = append(dists, v)
		}
	})
	if !c.Expect(len(gens) == 1 && len(dists) == 1, "candidate", "KNNBrute", where(c, f), "candidates are produced at %d places and compared at %d", len(gens), len(dists)) {
		return
	}
	gen, dist := t.Of(gens[0]), t.Of(dists[0])
	boolT := types.Typ[types.Bool]
	vec, more := t.Extract(gen, 0, gens[0].Typ.(*types.Tuple).At(0).Type()), t.Extract(gen, 1, boolT)
	score, err := t.Extract(dist, 0, types.Typ[types.Float64]), t.Extract(dist, 1, dists[0].Typ.(*types.Tuple).At(1).Type())
	a := dists[0].Args
	c.Expect(len(a) == 3 && t.Of(a[1]) == fld("TargetVec") && t.Of(a[2]) == vec, "candidate", "KNNBrute measure", dists[0].Where(), "compares %v with %v instead of the query with the candidate", t.Of(a[1]), t.Of(a[2]))
	l := innermost(gens[0])
	if !c.Expect(l != nil && l.Blocks[dists[0].Blk], "candidate", "KNNBrute loop", gens[0].Where(), "there is no loop over the candidates") {
		return
	}
	for _, x := range l.Exits() {
		m, known := t.EdgeFacts(x.From, x.To).Truth(more)
		c.Expect(known && !m, "candidate", "KNNBrute all", x.From.Last().Where(), "the search may end before all candidates were seen")
	}
	// insertion loops
	type ins struct {
		cv  *Cover
		at  *eng.Path
		typ types.Type
	}
	inserts := map[*eng.Blk]*ins{}
	for _, x := range g.Loops() {
		if x == l || !l.Blocks[x.Head] {
			continue
		}
		cv := cover(t, x)
		if cv == nil || cv.Next != nil || !isListType(cv.List.Typ) {
			continue
		}
		et := eng.ElemType(cv.List.Typ)
		in := &ins{cv: cv, typ: et}
		writes, bad := 0, false
		for b := range x.Blocks {
			for _, v := range b.Instrs {
				if v.Op != eng.OpStore {
					continue
				}
				p := t.PathOf(v.Args[0])
				if p.Root == cv.List {
					writes++
					continue
				}
				if p.Root.Op == eng.OpAlloc && types.Identical(p.Root.Typ, types.NewPointer(et)) && !x.Blocks[p.Root.V.Blk] {
					if in.at != nil && in.at.Root != p.Root {
						bad = true
					}
					in.at = t.PtrLoc(p.Root)
				}
			}
		}
		if writes == 0 {
			continue
		}
		if bad || in.at == nil || cv.Back {
			c.Bad("insert", "KNNBrute", x.Head.Instrs[0].Where(), "candidates are not inserted from the best position to the worst")
			continue
		}
		inserts[x.Head] = in
	}
	if !c.Expect(len(inserts) > 0, "insert", "KNNBrute", where(c, f), "candidates are not inserted into the result in order") {
		return
	}
	// the fields of a result
	var et types.Type
	for _, in := range inserts {
		et = in.typ
	}
	st, ok := et.Underlying().(*types.Struct)
	if !ok {
		c.Bad("insert", "KNNBrute", where(c, f), "results have no score")
		return
	}
	scoreF, indexF, setF := "", "", ""
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Type().Underlying().String() {
		case "float64":
			scoreF = st.Field(i).Name()
		case "int":
			indexF = st.Field(i).Name()
		case "bool":
			setF = st.Field(i).Name()
		}
	}
	if scoreF == "" || indexF == "" || setF == "" {
		c.Bad("insert", "KNNBrute", where(c, f), "a result needs a score, a position and whether it is in use")
		return
	}
	// one candidate
	var ctr *eng.Term
	var list *eng.Term
	said := map[string]bool{}
	say := func(ok bool, rule, inst string, v *eng.Val, f string, a ...interface{}) {
		k := rule + inst + v.Where() + f
		if said[k] {
			return
		}
		said[k] = true
		c.Expect(ok, rule, inst, v.Where(), f, a...)
	}
	var track []*eng.Term
	for _, in := range inserts {
		track = append(track, in.cv.List, t.Bin(eqTok, err, t.Zero(err.Typ), nil))
	}
	run := func(check bool) {
		s := &Sim{G: g, T: t, From: l.Head, Track: append(track, asc)}
		s.Edge = func(e *St, from, to *eng.Blk) bool {
			if in := inserts[to]; in != nil && !in.cv.L.Blocks[from] {
				at := from.Last()
				get := func(n string) *eng.Term {
					p := t.FieldLoc(in.at, in.typ, n)
					return e.Resolve(t.LoadAt(p, fieldType(in.typ, n), at))
				}
				idx := get(indexF)
				if idx.JoinBlk() == l.Head {
					ctr = idx
				}
				if check {
					bv, isb := get(setF).Bool()
					say(idx == ctr && get(scoreF) == score && isb && bv, "insert", "KNNBrute item", at, "a candidate is inserted with position %v and score %v", idx, get(scoreF))
					if e.A != "" {
						say(false, "insert", "KNNBrute once", at, "a candidate may be inserted twice")
					}
					if isn, k := e.Truth(t.Bin(eqTok, err, t.Zero(err.Typ), nil)); !k || !isn {
						say(false, "insert", "KNNBrute comparable", at, "a candidate that cannot be compared may be inserted")
					}
				}
				// room
				x := e.Resolve(in.cv.List)
				base := x
				grown := false
				if x.Op == eng.OpAppend {
					el, sp := appended(t, x.V)
					if sp == nil && len(el) == 1 {
						if b, k := fieldTerm(t, el[0], setF).Bool(); k && !b {
							grown = true
						}
					}
					base = t.Of(x.V.Args[0])
				}
				if base.JoinBlk() == l.Head {
					list = base
				}
				if check {
					full := false
					if less, k := e.Truth(t.Bin(lssTok, t.Len(base, nil), fld("K"), nil)); k && !less {
						full = true
					}
					say(base == list && (grown && x != base || full && x == base), "insert", "KNNBrute room", at, "a candidate is inserted although there may be no room for it while there are less than K results, or results are dropped")
				}
				e.A = "i"
				return true
			}
			for h, in := range inserts {
				// the body decides nothing here
				if to != h && in.cv.L.Blocks[to] && len(in.cv.L.Exits()) == 1 {
					return false
				}
			}
			if to == l.Head {
				if !check {
					return false
				}
				at := from.Last()
				// the counter
				if ctr != nil {
					as, ps := t.PhiArgs(ctr)
					for i := range ps {
						if ps[i] == from {
							d, ok := t.Diff(e.Resolve(as[i]), ctr)
							say(ok && d == 1, "counter", "KNNBrute", at, "after a candidate, the position goes from %v to %v", ctr, as[i])
						}
					}
				}
				if list != nil {
					as, ps := t.PhiArgs(list)
					for i := range ps {
						if ps[i] == from {
							x := e.Resolve(as[i])
							ok := x == list
							if x.Op == eng.OpAppend && t.Of(x.V.Args[0]) == list {
								ok = true
							}
							say(ok, "insert", "KNNBrute keeps", at, "the results found so far become %v", x)
						}
					}
				}
				if e.A == "" {
					isn, k := e.Truth(t.Bin(eqTok, err, t.Zero(err.Typ), nil))
					if k && !isn {
						return false
					}
					say(c.gated(t, e, score, asc), "insert", "KNNBrute every", at, "a candidate that can be compared may be left out (path %s)", e.Path())
				}
				return false
			}
			return l.Blocks[to]
		}
		s.Run()
		c.States += s.States
		if s.Overflow {
			c.Bad("insert", "KNNBrute", where(c, f), "too many paths")
		}
	}
	run(false)
	if ctr == nil || list == nil {
		c.Bad("counter", "KNNBrute", where(c, f), "the position of a candidate is not known")
		return
	}
	run(true)
	for _, lp := range l.Entries {
		as, ps := t.PhiArgs(ctr)
		for i := range ps {
			if ps[i] == lp {
				n, k := as[i].Int()
				c.Expect(k && n == 0, "counter", "KNNBrute first", lp.Last().Where(), "the first candidate has position %v", as[i])
			}
		}
		as, ps = t.PhiArgs(list)
		for i := range ps {
			if ps[i] == lp {
				c.Expect(emptyList(as[i]), "insert", "KNNBrute first", lp.Last().Where(), "there are results before the search: %v", as[i])
			}
		}
	}
	for _, in := range inserts {
		c.betterFirst(g, t, in.cv, in.at, in.typ, asc, scoreF, indexF, setF)
	}
	c.indexesOf(g, t, l, list, setF, indexF, fld("K"))
}

// gated: the candidate was left out only because its score is beyond the largest
// (smallest) number.
func (c *C) gated(t *eng.Terms, e *St, score, asc *eng.Term) bool {
	up, known := e.Truth(asc)
	if !known {
		return false
	}
	for _, f := range e.Facts().List() {
		if f.Val || f.Cond.Op != eng.OpBin || f.Cond.Aux != "<" && f.Cond.Aux != "<=" {
			continue
		}
		a, b := f.Cond.Args[0], f.Cond.Args[1]
		if up && a == score {
			if x, ok := floatConst(t.Under(e.Resolve(b), e.Facts())); ok && x >= math.MaxFloat64 {
				return true
			}
		}
		if !up && b == score {
			if x, ok := floatConst(t.Under(e.Resolve(a), e.Facts())); ok && x <= -math.MaxFloat64 {
				return true
			}
		}
	}
	return false
}

// betterFirst: at each position the better of two stays, the other one goes on.
func (c *C) betterFirst(g *eng.Graph, t *eng.Terms, cv *Cover, at *eng.Path, et types.Type, asc *eng.Term, scoreF, indexF, setF string) {
	l := cv.L
	head := l.Head.Instrs[0]
	item := t.ElemLoc(cv.List, cv.Idx, et)
	load := func(p *eng.Path, f string, v *eng.Val) *eng.Term {
		return t.LoadAt(t.FieldLoc(p, et, f), fieldType(et, f), v)
	}
	// at the head, after joins
	for _, v := range l.Head.Instrs {
		head = v
		if v.Op != eng.OpPhi {
			break
		}
	}
	fs := []string{scoreF, indexF, setF}
	old := map[string][2]*eng.Term{}
	var track []*eng.Term
	for _, f := range fs {
		old[f] = [2]*eng.Term{load(item, f, head), load(at, f, head)}
	}
	is, ns := old[scoreF][0], old[scoreF][1]
	newLess, itemLess := t.Bin(lssTok, ns, is, nil), t.Bin(lssTok, is, ns, nil)
	track = append(track, newLess, itemLess, asc, old[setF][0])
	for _, la := range l.Latches {
		for _, f := range fs {
			track = append(track, load(item, f, la.Last()), load(at, f, la.Last()))
		}
	}
	n := 0
	bad := false
	s := &Sim{G: g, T: t, From: l.Head, Track: track}
	s.Edge = func(e *St, from, to *eng.Blk) bool {
		if l.Blocks[to] && to != l.Head || from == cv.Exit.From && to == cv.Exit.To {
			return l.Blocks[to]
		}
		n++
		v := from.Last()
		same, swapped := true, true
		for _, f := range fs {
			a, b := e.Resolve(load(item, f, v)), e.Resolve(load(at, f, v))
			if a != old[f][0] || b != old[f][1] {
				same = false
			}
			if a != old[f][1] || b != old[f][0] {
				swapped = false
			}
		}
		up, kUp := e.Truth(asc)
		set, kSet := e.Truth(old[setF][0])
		nl, kNl := e.Truth(newLess)
		il, kIl := e.Truth(itemLess)
		fail := func(f string) {
			bad = true
			c.Bad("better", "KNNBrute", v.Where(), f+" (path %s)", e.Path())
		}
		switch {
		case !same && !swapped:
			fail("an insertion changes results in another way than by exchanging two")
		case swapped && same:
		case swapped && kSet && !set:
		case to != l.Head:
			fail("the insertion may end before all positions were compared")
		case swapped:
			ok := func(up bool) bool {
				return up && (kNl && nl || kIl && !il) || !up && (kIl && il || kNl && !nl)
			}
			if kUp && ok(up) || !kUp && ok(true) && ok(false) {
				return false
			}
			fail("a better result may be replaced by a worse one")
		case same:
			if !kSet || !set {
				fail("a candidate may pass by an unused position")
				return false
			}
			ok := func(up bool) bool {
				return up && (kNl && !nl || kIl && il) || !up && (kIl && !il || kNl && nl)
			}
			if kUp && ok(up) || !kUp && ok(true) && ok(false) {
				return false
			}
			fail("a candidate may pass by a worse result")
		}
		return false
	}
	s.Run()
	c.States += s.States
	if !bad {
		c.Expect(n > 0 && !s.Overflow, "better", "KNNBrute", head.Where(), "the insertion could not be followed")
	}
}

// indexesOf: the positions of the results in use are returned in order.
func (c *C) indexesOf(g *eng.Graph, t *eng.Terms, l *eng.Loop, list *eng.Term, setF, indexF string, k *eng.Term) {
	s := &Sim{G: g, T: t}
	s.Edge = func(e *St, from, to *eng.Blk) bool {
		if !l.Blocks[from] || !l.Blocks[to] {
			return true
		}
		// only on the way out
		for _, x := range l.Exits() {
			if to != l.Head && to.Dominates(x.From) {
				return true
			}
		}
		return false
	}
	seen := map[string]bool{}
	s.Exit = func(e *St, ret *eng.Val) {
		x := e.Resolve(t.Of(ret.Args[0]))
		key := ret.Where() + x.String()
		if seen[key] {
			return
		}
		seen[key] = true
		if emptyList(x) {
			_, hi := e.Facts().Range(k)
			c.Expect(hi <= 0, "result", "KNNBrute none", ret.Where(), "nothing is returned although results may be asked for (path %s)", e.Path())
			return
		}
		m, why := mapLoop(g, t, x, nil)
		if !c.Expect(m != nil, "result", "KNNBrute", ret.Where(), "%s", why) {
			return
		}
		f, ok := []string(nil), false
		if len(m.Elems) == 1 {
			f, ok = m.Cv.ElemOf(t, m.Elems[0])
		}
		c.Expect(ok && len(f) == 1 && f[0] == indexF && m.Cv.List == list && !m.Cv.Back, "result", "KNNBrute positions", m.At.Where(), "%v is returned instead of the positions of the results", m.Elems)
		if w := changedAfter(g, t, x, m); w != nil {
			c.Bad("result", "KNNBrute changed", w.Where(), "the positions are changed before they are returned")
		}
		if !m.Filtered {
			return
		}
		// left out only if not in use
		l := m.Cv.L
		set := t.LoadAt(t.FieldLoc(t.ElemLoc(list, m.Cv.Idx, eng.ElemType(list.Typ)), eng.ElemType(list.Typ), setF), types.Typ[types.Bool], m.At)
		s2 := &Sim{G: g, T: t, From: l.Head, Track: []*eng.Term{set}}
		bad := false
		s2.Event = func(e *St, v *eng.Val) {
			if v == m.At {
				e.A = "a"
			}
		}
		s2.Edge = func(e *St, from, to *eng.Blk) bool {
			if to == l.Head {
				if e.A == "" {
					if b, k := e.Truth(set); !k || b {
						bad = true
					}
				}
				return false
			}
			return l.Blocks[to]
		}
		s2.Run()
		c.States += s2.States
		c.Expect(!bad, "result", "KNNBrute all", m.At.Where(), "a result may be left out")
	}
	s.Run()
	c.States += s.States
}

// wiring: search functions for the nearest and for the furthest are not mixed up.
func (c *C) wiring() {
	kind := func(n string) string {
		n = strings.ToLower(n)
		switch {
		case strings.HasPrefix(n, "knn") && n != "knnbrute":
			return "knn"
		case strings.HasPrefix(n, "kfn"):
			return "kfn"
		}
		return ""
	}
	var of func(v ssa.Value, d int) string
	of = func(v ssa.Value, d int) string {
		if d > 6 {
			return ""
		}
		switch v := v.(type) {
		case *ssa.Function:
			return kind(v.Name())
		case *ssa.ChangeType:
			return of(v.X, d+1)
		case *ssa.UnOp:
			return of(v.X, d+1)
		case *ssa.FieldAddr:
			st := v.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			return kind(st.Field(v.Field).Name())
		case *ssa.Field:
			st := v.X.Type().Underlying().(*types.Struct)
			return kind(st.Field(v.Field).Name())
		case *ssa.Parameter:
			return kind(v.Name())
		case *ssa.MakeClosure:
			return of(v.Fn, d+1)
		}
		return ""
	}
	for _, f := range c.P.Funcs {
		if eng.IsTestSupport(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if _, ok := st.Val.Type().Underlying().(*types.Signature); !ok {
					continue
				}
				want, got := of(fa, 0), of(st.Val, 0)
				if want == "" || got == "" {
					continue
				}
				c.Expect(want == got, "wired", fnName(f), c.P.Pos(st.Pos())+" in "+fnName(f), "a search for the %s is used as one for the %s", rankName(got), rankName(want))
			}
		}
	}
}

func rankName(k string) string {
	if k == "kfn" {
		return "furthest"
	}
	return "nearest"
}

// storeSearches: the store looks for the nearest, except to find the worst fitting.
func (c *C) storeSearches() {
	for _, w := range []struct {
		pkg, typ, name, fn string
		vec                func(t *eng.Terms, g *eng.Graph) []*eng.Term
	}{
		{pCent, "Centroid", "KNNLookup", "knn", paramVec},
		{pCent, "Centroid", "DrainOrdered", "kfn", nil},
		{pCent, "Centroid", "DistributeDataPoints", "", nil},
		{pCM, "CentroidManager", "AddDataPoint", "knn", paramVec},
		{pCM, "CentroidManager", "KNNLookup", "knn", paramVec},
		{pCM, "CentroidManager", "NearestCentroids", "knn", paramVec},
		{pCM, "CentroidManager", "MergeCentroids", "knn", nil},
	} {
		f := c.Method(w.pkg, w.typ, w.name)
		if f == nil {
			c.Bad("search", w.typ+"."+w.name, "-", "there is no %s", w.name)
			continue
		}
		layer := "L1"
		if w.pkg == pCM {
			layer = "L2"
		}
		g := c.Flat(f, layer)
		t := g.Terms()
		n := 0
		g.EachOwn(func(v *eng.Val) {
			if !isSearch(v) {
				return
			}
			n++
			inst := w.typ + "." + w.name
			_, fld := "", ""
			x := t.Of(v.Args[0])
			if x.Op == eng.OpLoad && x.Path != nil {
				_, fld = x.Path.LastField()
			}
			if w.fn != "" {
				c.Expect(strings.HasPrefix(strings.ToLower(fld), w.fn), "search", inst, v.Where(), "looks for the nearest or furthest with %v", x)
			}
			q := t.Of(searchArgs(v)[0])
			if w.fn == "kfn" {
				r := t.Of(g.Params[0])
				_, f := "", ""
				if q.Op == eng.OpLoad && q.Path.Root == r {
					_, f = q.Path.LastField()
				}
				c.Expect(f == "vec", "search", inst+" query", v.Where(), "searches far from %v instead of the own vector", q)
			}
			if w.vec != nil {
				ok := false
				for _, y := range w.vec(t, g) {
					if y == q {
						ok = true
					}
				}
				c.Expect(ok, "search", inst+" query", v.Where(), "searches near %v instead of the vector in question", q)
			}
		})
		c.Expect(n > 0, "search", w.typ+"."+w.name+" made", where(c, f), "does not search")
	}
}

// paramVec: the vector among the parameters (or in a datapoint).
func paramVec(t *eng.Terms, g *eng.Graph) []*eng.Term {
	p := t.Of(g.Params[1])
	if x := fieldTerm(t, p, "Vec"); x != nil {
		return []*eng.Term{x}
	}
	return []*eng.Term{p}
}

func init() {
	register("P18", checkP18, Desc{
		How: "The named searches are decided by the configuration they hand to the general one. In the general search, every path through one iteration is walked: the position counter advances by one for every candidate, also for incomparable ones; every comparable candidate is inserted once with its own score and position, into a list that grows while it has less than K results; and in the insertion loop every path keeps the better of two at a position and passes the other on, where better follows the configured order. By induction over the loops the results are the best ones in order. The wiring of search functions is decided by a flow rule over all stores of them.",
		Rules: map[string]string{
			"prefab":    "a named search passes on what it is given, with the order and measure of its name",
			"candidate": "every candidate is compared with the query, until there are no more", "counter": "positions count all candidates from 0",
			"insert": "every comparable candidate is offered to the result once, with its own score and position; results are only dropped if there are K", "better": "the better one of two is kept at a position",
			"result": "the positions of the results are returned in order", "wired": "functions for the nearest and the furthest are not mixed up", "search": "the store searches near the vector in question, with the right rank",
		},
		Assumes: []string{"similarities are not NaN and not beyond the range of numbers"},
	})
}
