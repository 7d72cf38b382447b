package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"trypocheck/eng"
)

func checkP13(c *C) {
	c.managerMeans()
	c.refusedUnchanged()
	c.Import("P27", func(i Item) bool { return i.Rule == "helper" || i.Rule == "mean" })
	c.Min("mean-kept", 8)
	c.Min("owner", 1)
	c.Min("refused", 1)
}

// fieldOfElems gives the only field that is a list of a type.
func fieldOfElems(st *types.Struct, elem string) string {
	r := ""
	for i := 0; st != nil && i < st.NumFields(); i++ {
		s, ok := st.Field(i).Type().(*types.Slice)
		if !ok {
			continue
		}
		e := s.Elem()
		if p, ok := e.(*types.Pointer); ok {
			e = p.Elem()
		}
		if eng.TypeName(e) == elem {
			if r != "" {
				return ""
			}
			r = st.Field(i).Name()
		}
	}
	return r
}

func (c *C) managerMeans() {
	n, st := c.structOf(pCM, "CentroidManager")
	vecF, listF := fieldOfType(st, "[]float64"), fieldOfElems(st, pCent+".Centroid")
	_, cst := c.structOf(pCent, "Centroid")
	cvec := fieldOfType(cst, "[]float64")
	if vecF == "" || listF == "" || cvec == "" {
		c.Bad("mean-kept", "CentroidManager", "-", "a manager has no vector or no centroids")
		return
	}
	seen := map[*ssa.Function]bool{}
	for _, f := range c.P.Methods(pCM, "CentroidManager") {
		if exported(f) {
			g := c.Flat(f, "L2")
			g.Each(func(v *eng.Val) {
				for x := v.Ctx; x != nil; x = x.Parent {
					seen[x.Fn] = true
				}
			})
			seen[f] = true
			c.managerMean(f, g, n, vecF, listF, cvec)
		}
	}
	w := c.writersOf(n, vecF, listF)
	out := map[*ssa.Function]bool{}
	for f := range w {
		if !seen[f] {
			for f.Parent() != nil {
				f = f.Parent()
			}
			out[f] = true
		}
	}
	var fs []*ssa.Function
	for f := range out {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		c.managerRemeaned(f, listF, vecF)
	}
}

// managerRemeaned: centroids put in elsewhere are followed by MoveVector.
func (c *C) managerRemeaned(f *ssa.Function, listF, vecF string) {
	// from the operations of servers, so that the manager is known
	var roots []*entry
	for _, e := range c.entries("L3", pRPC) {
		e := e
		uses := e.Fn == f
		e.G.Each(func(v *eng.Val) {
			for x := v.Ctx; x != nil && !uses; x = x.Parent {
				uses = x.Fn == f
			}
		})
		if uses {
			roots = append(roots, &e)
		}
	}
	if len(roots) == 0 {
		c.Bad("owner", fnName(f), where(c, f), "the vector or the centroids of a manager are changed outside of its operations")
		return
	}
	for _, r := range roots {
		g := r.G
		t := g.Terms()
		var at *eng.Val
		bad := false
		fail := func(v *eng.Val, format string, a ...interface{}) {
			if !bad {
				c.Bad("owner", r.Name, v.Where(), format, a...)
			}
			bad = true
		}
		name := func(cm *eng.Term) string {
			if k := managerKey(t, cm); k != nil {
				return "k" + fmt.Sprint(k.ID)
			}
			return "t" + fmt.Sprint(cm.ID)
		}
		s := &Sim{G: g, T: t}
		s.Event = func(e *St, v *eng.Val) {
			switch v.Op {
			case eng.OpStore:
				p := t.PathOf(v.Args[0])
				sn, fl := p.LastField()
				if sn != pCM+".CentroidManager" || fl != vecF && fl != listF {
					return
				}
				if p.Root.Op == eng.OpAlloc {
					return
				}
				if len(p.Steps) != 1 {
					fail(v, "a manager that is not known is changed")
					return
				}
				if fl == vecF {
					fail(v, "the vector of a manager is set outside of its operations")
					return
				}
				k := name(p.Root)
				if e.A != "" && e.A != k {
					fail(v, "two managers are changed")
				}
				at = v
				e.A = k
			case eng.OpCall:
				if Callee(v) == "CentroidManager.MoveVector" && e.A == name(t.Of(v.Args[0])) {
					e.A = ""
				}
			}
		}
		s.Edge = func(e *St, from, to *eng.Blk) bool { return !bad }
		s.Branch = func(e *St, cond *eng.Term, val bool) {
			if k, ex, ok := existsCond(cond); ok && e.A == "k"+fmt.Sprint(k.ID) && ex != val {
				e.Dead = true // namespaces are never removed
			}
		}
		s.Exit = func(e *St, ret *eng.Val) {
			if e.A != "" {
				fail(ret, "the vector of the manager is not brought up to date after its centroids are changed at %s (path %s)", at.Where(), e.Path())
			}
		}
		s.Run()
		c.States += s.States
		if s.Overflow {
			fail(g.Entry.Instrs[0], "too many paths")
		}
		if !bad && at != nil {
			c.OK("owner", r.Name, at.Where())
		}
	}
}

// refusedUnchanged: a centroid that refuses a datapoint stays as it is.
func (c *C) refusedUnchanged() {
	n, st := c.structOf(pCent, "Centroid")
	var f *ssa.Function
	for _, m := range c.P.Methods(pCent, "Centroid") {
		if m.Name() == "AddDataPoint" {
			f = m
		}
	}
	if f == nil || st == nil {
		c.Bad("refused", "Centroid.AddDataPoint", "-", "there is no such operation")
		return
	}
	g := c.Flat(f, "L1")
	t := g.Terms()
	self := t.PtrLoc(t.Of(g.Params[0]))
	bad := false
	s := &Sim{G: g, T: t, Track: returned(g)}
	g.EachOwn(func(v *eng.Val) {
		if v.Op == eng.OpReturn {
			for i := 0; i < st.NumFields(); i++ {
				s.Track = append(s.Track, t.LoadAt(t.FieldLoc(self, n, st.Field(i).Name()), st.Field(i).Type(), v))
			}
		}
	})
	first := g.Entry.Instrs[0]
	s.Exit = func(e *St, ret *eng.Val) {
		if len(ret.Args) != 1 {
			return
		}
		if val, known := e.Truth(e.Resolve(t.Of(ret.Args[0]))); known && val {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			p := t.FieldLoc(self, n, st.Field(i).Name())
			tp := st.Field(i).Type()
			if e.Resolve(t.LoadAt(p, tp, ret)) != t.LoadAt(p, tp, first) && !bad {
				bad = true
				c.Bad("refused", "Centroid.AddDataPoint", ret.Where(), "%s may be changed although the datapoint is refused (path %s)", st.Field(i).Name(), e.Path())
			}
		}
	}
	s.Run()
	c.States += s.States
	if s.Overflow {
		bad = true
		c.Bad("refused", "Centroid.AddDataPoint", where(c, f), "too many paths")
	}
	if !bad {
		c.OK("refused", "Centroid.AddDataPoint", where(c, f))
	}
}

// managerMean walks an operation of a manager.
func (c *C) managerMean(f *ssa.Function, g *eng.Graph, n *types.Named, vecF, listF, cvec string) {
	t := g.Terms()
	inst := "CentroidManager." + f.Name()
	cn := c.P.Named(pCent, "Centroid")
	self := t.PtrLoc(t.Of(g.Params[0]))
	vp, lp := t.FieldLoc(self, n, vecF), t.FieldLoc(self, n, listF)
	vt, lt := fieldType(n, vecF), fieldType(n, listF)
	vecAt := func(v *eng.Val) *eng.Term { return t.LoadAt(vp, vt, v) }
	listAt := func(v *eng.Val) *eng.Term { return t.LoadAt(lp, lt, v) }
	vecOf := func(x *eng.Term, v *eng.Val) *eng.Term { return t.LoadAt(t.FieldLoc(t.PtrLoc(x), cn, cvec), vt, v) }
	byID := map[string]*eng.Term{}
	id := func(x *eng.Term) string { s := fmt.Sprint(x.ID); byID[s] = x; return s }
	boolT := types.Typ[types.Bool]
	// what changes the vector of a centroid
	anyC := func(v *eng.Val) bool {
		if v.Op != eng.OpCall && v.Op != eng.OpGo || len(v.Args) == 0 {
			return false
		}
		nm := Callee(v)
		if strings.HasPrefix(nm, "iface ") && strings.HasSuffix(nm, ".AddDataPoint") {
			return true
		}
		return strings.HasPrefix(nm, "Centroid.") && t.Affects(v, t.FieldLoc(t.PtrLoc(t.Of(v.Args[0])), cn, cvec), vt)
	}
	touches := false
	var track []*eng.Term
	var means []*eng.Val
	g.EachOwn(func(v *eng.Val) {
		if v.Op == eng.OpStore {
			p := t.PathOf(v.Args[0])
			sn, fl := p.LastField()
			if sn == pCM+".CentroidManager" && (fl == vecF || fl == listF) {
				if eng.SamePath(p, vp) || eng.SamePath(p, lp) {
					touches = true
					track = append(track, vecAt(v), listAt(v), t.Of(v.Args[1]))
				} else if p.Root.Op != eng.OpAlloc {
					c.Bad("mean-kept", inst, v.Where(), "another manager is changed")
				}
			}
		}
		if anyC(v) {
			touches = true
			track = append(track, t.Of(v))
		}
		if v.Op == eng.OpReturn {
			track = append(track, vecAt(v), listAt(v))
		}
		if v.Op == eng.OpCall && Callee(v) == "mathutils.VecMean" {
			means = append(means, v)
			track = append(track, t.Extract(t.Of(v), 1, boolT), listAt(v))
		}
	})
	if !touches {
		return
	}
	for _, b := range g.Blocks {
		if len(b.Preds) > 1 {
			track = append(track, vecAt(b.Instrs[0]), listAt(b.Instrs[0]))
		}
	}
	gens := map[*eng.Val]*Gen{}
	for _, v := range means {
		m, why := c.genOf(t, v, v.Args[0])
		if m == nil {
			c.Bad("mean-kept", inst, v.Where(), "it is not known what the mean is taken of: %s", why)
			continue
		}
		if sameCell(m.List, listAt(v)) && len(m.Fields) == 1 && m.Fields[0] == cvec && !m.Prunes {
			gens[v] = m
		}
	}
	bad := false
	fail := func(v *eng.Val, format string, a ...interface{}) {
		if !bad {
			c.Bad("mean-kept", inst, v.Where(), format, a...)
		}
		bad = true
	}
	// state: kind | V | L | X | old | mean | where
	// The vector V was the mean of the centroids L; X changed since (its vector was
	// old). mean: the call that took the mean of the centroids as they are now.
	type state struct {
		kind, V, L, X, old, mean, where string
	}
	get := func(e *St) state {
		p := strings.SplitN(e.A, "|", 7)
		return state{p[0], p[1], p[2], p[3], p[4], p[5], p[6]}
	}
	put := func(e *St, s state) {
		e.A = strings.Join([]string{s.kind, s.V, s.L, s.X, s.old, s.mean, s.where}, "|")
	}
	consistent := func(e *St, s state, v, d *eng.Term, at *eng.Val) bool {
		if lo, hi := e.Facts().Range(t.Len(d, at)); lo == 0 && hi == 0 || emptyList(d) {
			return true
		}
		for m := range gens {
			if s.mean != fmt.Sprint(m.ID) || e.Resolve(listAt(m)) != d {
				continue
			}
			if v.Op == eng.OpExtract && v.Aux == "0" && v.Args[0].V == m {
				return true
			}
			if ok, known := e.Truth(t.Extract(t.Of(m), 1, boolT)); known && !ok {
				return true // no mean of no vectors
			}
		}
		if s.kind == "any" {
			return false
		}
		V, L := byID[s.V], byID[s.L]
		ch := changeOf(t, L, d, e.Resolve)
		nu := newNum(g)
		nu.vec = func(x *eng.Term) (Rat, bool) {
			if x == V {
				return ratAtom("V@"), true
			}
			return Rat{}, false
		}
		nu.res = e.Resolve
		ln := nu.Of(t.Len(L, at))
		sum := ratAtom("V@").mul(ln)
		if s.X != "" {
			now, old := e.Resolve(vecOf(byID[s.X], at)), byID[s.old]
			if now != old {
				sum = sum.add(nu.Vec(now, at)).add(nu.Vec(old, at).neg())
			}
		}
		switch ch.Kind {
		case "same":
			return v == V && s.X == "" || nu.Vec(v, at).eq(sum.div(ln))
		case "add":
			x := vecOf(ch.Elem, at)
			if _, hi := e.Facts().Range(t.Len(L, at)); hi <= 0 {
				return nu.Vec(v, at).eq(nu.Vec(x, at))
			}
			return nu.Vec(v, at).eq(sum.add(nu.Vec(x, at)).div(ln.add(ratK(1))))
		case "remove":
			if _, hi := e.Facts().Range(t.Len(L, at)); hi <= 1 {
				return true
			}
			el := t.LoadAt(t.ElemLoc(ch.From, ch.Idx, eng.ElemType(lt)), eng.ElemType(lt), ch.At)
			x := vecOf(el, ch.At)
			return nu.Vec(v, at).eq(sum.add(nu.Vec(x, at).neg()).div(ln.add(ratK(-1))))
		}
		return false
	}
	s := &Sim{G: g, T: t, Track: track}
	first := g.Entry.Instrs[0]
	s.Start = strings.Join([]string{"ok", id(vecAt(first)), id(listAt(first)), "", "", "", ""}, "|")
	update := func(e *St, v, d *eng.Term, at *eng.Val) {
		p := get(e)
		if consistent(e, p, v, d, at) {
			put(e, state{kind: "ok", V: id(v), L: id(d), mean: p.mean})
			return
		}
		if p.kind == "ok" {
			p.kind = "pend"
			p.where = at.Where()
		}
		put(e, p)
	}
	s.Event = func(e *St, v *eng.Val) {
		switch {
		case v.Op == eng.OpStore:
			p := t.PathOf(v.Args[0])
			switch {
			case eng.SamePath(p, vp):
				update(e, e.Resolve(t.Of(v.Args[1])), e.Resolve(listAt(v)), v)
			case eng.SamePath(p, lp):
				update(e, e.Resolve(vecAt(v)), e.Resolve(t.Of(v.Args[1])), v)
			case t.Affects(v, vp, vt) || t.Affects(v, lp, lt):
				fail(v, "the manager may be changed in an unknown way")
			}
		case anyC(v):
			p := get(e)
			// a new centroid that is not in the list yet
			if x := e.Resolve(t.Of(v.Args[0])); v.Op == eng.OpCall && strings.HasPrefix(Callee(v), "Centroid.") && !c.withOthers(v) {
				if x.Op == eng.OpAlloc {
					listed := false
					g.EachOwn(func(w *eng.Val) {
						if w.Op != eng.OpAppend && w.Op != eng.OpStore {
							return
						}
						uses := false
						if w.Op == eng.OpAppend {
							el, sp := appended(t, w)
							for _, y := range el {
								uses = uses || e.Resolve(y) == x
							}
							_ = sp
						} else {
							uses = t.Of(w.Args[1]) == x && eng.ElemType(lt) == w.Args[1].Typ && t.PathOf(w.Args[0]).Root.Op != eng.OpAlloc
						}
						listed = listed || uses && before(g, w, v)
					})
					if !listed {
						return
					}
				}
				p.mean = ""
				xs := id(x)
				l, _, fs := elemAt(x)
				switch {
				case p.kind == "ok" && l != nil && len(fs) == 0 && e.Resolve(l) == byID[p.L]:
					p.kind, p.X, p.old, p.where = "touch", xs, id(e.Resolve(vecOf(x, v))), v.Where()
				case p.kind == "touch" && p.X == xs:
				default:
					p.kind, p.where = "any", v.Where()
				}
				put(e, p)
				return
			}
			p.mean = ""
			p.kind, p.where = "any", v.Where()
			put(e, p)
		case v.Op == eng.OpCall && gens[v] != nil:
			p := get(e)
			p.mean = fmt.Sprint(v.ID)
			put(e, p)
		case v.Op == eng.OpCall && (t.Affects(v, vp, vt) || t.Affects(v, lp, lt)):
			fail(v, "the manager may be changed in an unknown way")
		}
	}
	s.Edge = func(e *St, from, to *eng.Blk) bool {
		if bad {
			return false
		}
		if !to.IsLoopHeader() {
			return true
		}
		p := get(e)
		at := from.Last()
		v, d := e.Resolve(vecAt(at)), e.Resolve(listAt(at))
		if p.kind != "ok" && consistent(e, p, v, d, at) {
			p = state{kind: "ok", mean: p.mean}
		}
		hv, hd := vecAt(to.Instrs[0]), listAt(to.Instrs[0])
		switch p.kind {
		case "ok":
			p.V, p.L = id(hv), id(hd)
		case "touch":
			l := g.LoopAt(to)
			if hv != byID[p.V] || hd != byID[p.L] || l == nil || !t.Invariant(l, byID[p.X]) || !t.Invariant(l, byID[p.old]) {
				p.kind = "any"
			}
		default:
			p.kind = "any"
		}
		if p.mean != "" {
			if l := g.LoopAt(to); l == nil || c.loopTouches(l, anyC) {
				p.mean = ""
			}
		}
		if p.kind == "any" {
			p.V, p.L, p.X, p.old = "", "", "", ""
		}
		put(e, p)
		return true
	}
	s.Branch = func(e *St, cond *eng.Term, val bool) {
		if cond.Op == eng.OpExtract && cond.Aux == "1" && cond.Args[0].V != nil && !val {
			if n := Callee(cond.Args[0].V); n == "mathutils.VecAdd" || n == "mathutils.VecSub" {
				e.Dead = true
			}
		}
		// refused: nothing changed
		p := get(e)
		if cond.Op == eng.OpCall && cond.V != nil && Callee(cond.V) == "Centroid.AddDataPoint" && !val && p.kind == "touch" && p.where == cond.V.Where() {
			p.kind, p.X, p.old = "ok", "", ""
			put(e, p)
		}
	}
	s.Exit = func(e *St, ret *eng.Val) {
		p := get(e)
		if p.kind == "ok" {
			return
		}
		v, d := e.Resolve(vecAt(ret)), e.Resolve(listAt(ret))
		if consistent(e, p, v, d, ret) {
			return
		}
		fail(ret, "the vector may not be the mean of the centroids, which changed at %s (path %s)", p.where, e.Path())
	}
	s.Run()
	c.States += s.States
	if s.Overflow {
		fail(first, "too many paths")
	}
	if !bad {
		c.OK("mean-kept", inst, where(c, f))
	}
}

// withOthers: the operation of a centroid is given other centroids to change.
func (c *C) withOthers(v *eng.Val) bool {
	for _, a := range v.Args[1:] {
		s := a.Typ.String()
		if strings.Contains(s, "DataPointReceiver") || strings.Contains(s, "centroid.Centroid") {
			return true
		}
		if _, ok := a.Typ.Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

func (c *C) loopTouches(l *eng.Loop, f func(*eng.Val) bool) bool {
	for b := range l.Blocks {
		for _, v := range b.Instrs {
			if f(v) {
				return true
			}
		}
	}
	return false
}

func init() {
	register("P13", checkP13, Desc{
		How: "Every path of every operation of a manager is walked with the last state in which its vector was the mean of the vectors of its centroids, and with the one centroid that changed since (its former vector is kept as a term). A vector that is stored is evaluated symbolically and compared, as a rational function, with the mean it has to be: (V*n-old+new)/n after one centroid changed, (V*n+x)/(n+1) after one was added, (V*n-x)/(n-1) after one was removed, or the mean over a generator that is proved to visit the vectors of all current centroids, with no centroid changed since. Where several centroids change, only such a mean restores the state. At every exit the state has to be restored. Servers that put centroids into a manager have to call MoveVector on that manager on every path to the end of the call.",
		Rules: map[string]string{
			"mean-kept": "at every exit of an operation, the vector is the mean of the centroids' vectors (or there are none)",
			"owner":     "centroids that are put into a manager from outside are followed by MoveVector on that manager",
			"refused":   "a centroid that refuses a datapoint is unchanged",
		},
		Assumes: []string{"floating point rounding is set aside", "all centroids of a manager have one dimension (P08), so that a mean exists unless there are none", "no centroid is listed twice"},
	})
}

// before: w may run before v.
func before(g *eng.Graph, w, v *eng.Val) bool {
	if w.Blk == v.Blk {
		for _, x := range w.Blk.Instrs {
			if x == w {
				return true
			}
			if x == v {
				break
			}
		}
		for _, s := range w.Blk.Succs {
			if s == v.Blk || g.Reaches(s, v.Blk) {
				return true
			}
		}
		return false
	}
	return g.Reaches(w.Blk, v.Blk)
}
