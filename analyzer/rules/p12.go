package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"trypocheck/eng"
)

func checkP12(c *C) {
	c.centroidMeans()
	c.receivedMeans()
	c.Import("P27", func(i Item) bool { return i.Rule == "helper" || i.Rule == "mean" })
	c.Min("mean-kept", 8)
	c.Min("owner", 3)
	c.Min("received", 1)
}

// receivedMeans: what is sent of a centroid leaves out its vector, so that the client
// makes a new one of each that it received.
func (c *C) receivedMeans() {
	fn := c.method(pRPC, "kmeansClient", "NearestCentroids")
	inst := "kmeansClient.NearestCentroids"
	if fn == nil {
		c.Bad("received", inst, "-", "there is no client method NearestCentroids")
		return
	}
	g := c.Flat(fn, "L2")
	t := g.Terms()
	isNew := func(x *eng.Term) bool {
		return x != nil && x.Op == eng.OpCall && (Callee(x.V) == "dynamic" || Callee(x.V) == "centroid.NewCentroid")
	}
	type made struct {
		cv  *Cover
		add map[*eng.Term]bool // lists that new centroids were added to
	}
	var ms []made
	for _, l := range g.Loops() {
		cv := cover(t, l)
		if cv == nil || eng.TypeName(eng.ElemType(cv.List.Typ)) != pCent+".Centroid" {
			continue
		}
		m := made{cv: cv, add: map[*eng.Term]bool{}}
		put := map[*eng.Val]bool{}
		for b := range l.Blocks {
			for _, v := range b.Instrs {
				switch {
				case v.Op == eng.OpStore && v.Args[0].Op == eng.OpIndexAddr && isNew(t.Of(v.Args[1])):
					a := v.Args[0]
					put[v] = cv.Idx != nil && t.Of(a.Args[0]) == cv.List && sameInt(t, t.Of(a.Args[1]), cv.Idx)
				case v.Op == eng.OpAppend:
					es, spread := appended(t, v)
					if spread == nil && len(es) == 1 && isNew(es[0]) {
						m.add[t.Of(v)] = true
					}
				}
			}
		}
		all := true
		if len(m.add) == 0 {
			s := &Sim{G: g, T: t, From: l.Head}
			s.Event = func(e *St, v *eng.Val) {
				if put[v] {
					e.A = "new"
				}
			}
			s.Edge = func(e *St, from, to *eng.Blk) bool {
				if to == l.Head && e.A != "new" {
					all = false
				}
				return l.Blocks[to] && to != l.Head
			}
			s.Run()
			c.States += s.States
			for _, e := range l.Exits() {
				all = all && (e == cv.Exit || panics(e.To))
			}
		}
		if all {
			ms = append(ms, m)
		}
	}
	for _, ret := range g.Exits {
		x := t.Of(ret.Args[0])
		if x.IsNil() {
			continue
		}
		ok := false
		for _, m := range ms {
			if len(m.add) == 0 {
				ok = ok || m.cv.Exit.To.Dominates(ret.Blk)
				continue
			}
			// nothing else than new centroids is in the list
			fine, some := true, false
			for _, lf := range t.Leaves(x, nil) {
				some = some || m.add[lf]
				fine = fine && (m.add[lf] || emptyList(lf))
			}
			ok = ok || fine && some
		}
		c.Expect(ok, "received", inst, ret.Where(), "a centroid may be returned as it was received, without a vector")
	}
}

// structOf gives a struct type of the program.
func (c *C) structOf(pkg, name string) (*types.Named, *types.Struct) {
	n := c.P.Named(pkg, name)
	if n == nil {
		return nil, nil
	}
	st, _ := n.Underlying().(*types.Struct)
	return n, st
}

// fieldOfType gives the only field with a type.
func fieldOfType(st *types.Struct, typ string) string {
	r := ""
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Type().String() == typ {
			if r != "" {
				return ""
			}
			r = st.Field(i).Name()
		}
	}
	return r
}

// writersOf lists the functions that write to fields of a struct, other than of a
// value they are just making.
func (c *C) writersOf(n *types.Named, fields ...string) map[*ssa.Function][]*ssa.Store {
	r := map[*ssa.Function][]*ssa.Store{}
	for _, f := range c.P.Funcs {
		if eng.IsTestSupport(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok || !types.Identical(pt.Elem(), n) {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); fresh {
					continue
				}
				name := n.Underlying().(*types.Struct).Field(fa.Field).Name()
				for _, w := range fields {
					if w == name {
						r[f] = append(r[f], st)
					}
				}
			}
		}
	}
	return r
}

func (c *C) centroidMeans() {
	n, st := c.structOf(pCent, "Centroid")
	vecF, listF := fieldOfType(st, "[]float64"), ""
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if s, ok := st.Field(i).Type().(*types.Slice); ok && eng.TypeName(s.Elem()) == pCommon+".DataPoint" {
			listF = st.Field(i).Name()
		}
	}
	if vecF == "" || listF == "" {
		c.Bad("mean-kept", "Centroid", "-", "a centroid has no vector or no datapoints")
		return
	}
	seen := map[*ssa.Function]bool{}
	for _, f := range c.P.Methods(pCent, "Centroid") {
		if exported(f) {
			g := c.Flat(f, "L1")
			g.Each(func(v *eng.Val) {
				for x := v.Ctx; x != nil; x = x.Parent {
					seen[x.Fn] = true
				}
			})
			seen[f] = true
			c.meanKept(f, g, n, vecF, listF)
		}
	}
	w := c.writersOf(n, vecF, listF)
	var fs []*ssa.Function
	for f := range w {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		if !seen[f] && c.remeaned(f, n, vecF, listF) {
			continue
		}
		for _, s := range w[f] {
			c.Expect(seen[f], "owner", fnName(f), c.P.Pos(s.Pos())+" in "+fnName(f), "the vector or the datapoints of a centroid are changed outside of its operations")
		}
	}
}

// remeaned: a centroid that got its datapoints elsewhere takes their mean at once.
func (c *C) remeaned(f *ssa.Function, n *types.Named, vecF, listF string) bool {
	g := c.Flat(f, "client")
	t := g.Terms()
	ok, k := true, 0
	var at *eng.Val
	s := &Sim{G: g, T: t}
	s.Event = func(e *St, v *eng.Val) {
		switch v.Op {
		case eng.OpStore:
			p := t.PathOf(v.Args[0])
			sn, fl := p.LastField()
			if sn != pCent+".Centroid" || fl != vecF && fl != listF {
				return
			}
			if fl == vecF || e.A != "" {
				ok = false
				return
			}
			k++
			at = v
			e.A = fmt.Sprint(p.Root.ID)
		case eng.OpCall:
			if Callee(v) == "Centroid.MoveVector" && e.A == fmt.Sprint(t.Of(v.Args[0]).ID) {
				e.A = ""
				return
			}
			if strings.HasPrefix(Callee(v), "Centroid.") && e.A != "" {
				ok = false
			}
		}
	}
	s.Edge = func(e *St, from, to *eng.Blk) bool {
		if e.A != "" && to.IsLoopHeader() {
			ok = false
		}
		return ok
	}
	s.Exit = func(e *St, ret *eng.Val) {
		if e.A != "" {
			ok = false
		}
	}
	s.Run()
	c.States += s.States
	if ok && k > 0 && !s.Overflow {
		c.OK("owner", fnName(f), at.Where())
		return true
	}
	return false
}

// meanKept walks an operation of a centroid.
func (c *C) meanKept(f *ssa.Function, g *eng.Graph, n *types.Named, vecF, listF string) {
	t := g.Terms()
	inst := "Centroid." + f.Name()
	self := t.PtrLoc(t.Of(g.Params[0]))
	vp, lp := t.FieldLoc(self, n, vecF), t.FieldLoc(self, n, listF)
	vt, lt := fieldType(n, vecF), fieldType(n, listF)
	vecAt := func(v *eng.Val) *eng.Term { return t.LoadAt(vp, vt, v) }
	listAt := func(v *eng.Val) *eng.Term { return t.LoadAt(lp, lt, v) }
	byID := map[string]*eng.Term{}
	id := func(x *eng.Term) string { s := fmt.Sprint(x.ID); byID[s] = x; return s }
	touches := false
	var track []*eng.Term
	var means []*eng.Val
	g.EachOwn(func(v *eng.Val) {
		if v.Op == eng.OpStore {
			p := t.PathOf(v.Args[0])
			if s, fl := p.LastField(); s == pCent+".Centroid" && (fl == vecF || fl == listF) {
				if eng.SamePath(p, vp) || eng.SamePath(p, lp) {
					touches = true
					track = append(track, vecAt(v), listAt(v), t.Of(v.Args[1]))
				} else if p.Root.Op != eng.OpAlloc {
					c.Bad("mean-kept", inst, v.Where(), "another centroid is changed")
				}
			}
		}
		if v.Op == eng.OpReturn {
			track = append(track, vecAt(v), listAt(v))
		}
		if v.Op == eng.OpCall && Callee(v) == "mathutils.VecMean" {
			means = append(means, v)
			track = append(track, t.Extract(t.Of(v), 1, types.Typ[types.Bool]), listAt(v))
		}
	})
	if !touches {
		return
	}
	for _, b := range g.Blocks {
		if len(b.Preds) > 1 {
			track = append(track, vecAt(b.Instrs[0]), listAt(b.Instrs[0]))
		}
	}
	// means over all datapoints
	gens := map[*eng.Val]*Gen{}
	for _, v := range means {
		m, why := c.genOf(t, v, v.Args[0])
		if m == nil {
			c.Bad("mean-kept", inst, v.Where(), "it is not known what the mean is taken of: %s", why)
			continue
		}
		if sameCell(m.List, listAt(v)) && len(m.Fields) == 1 && m.Fields[0] == "Vec" {
			gens[v] = m
		}
	}
	boolT := types.Typ[types.Bool]
	bad := false
	fail := func(v *eng.Val, format string, a ...interface{}) {
		if !bad {
			c.Bad("mean-kept", inst, v.Where(), format, a...)
		}
		bad = true
	}
	// consistent: from the last good state, the vector and the list changed together
	consistent := func(e *St, V, L, v, d *eng.Term, at *eng.Val) bool {
		if lo, hi := e.Facts().Range(t.Len(d, at)); lo == 0 && hi == 0 || emptyList(d) {
			return true
		}
		if v.Op == eng.OpExtract && v.Aux == "0" && v.Args[0].V != nil && gens[v.Args[0].V] != nil {
			if e.Resolve(listAt(v.Args[0].V)) == d {
				return true
			}
		}
		for m := range gens {
			// no mean of no vectors
			if ok, known := e.Truth(t.Extract(t.Of(m), 1, boolT)); known && !ok && e.Resolve(listAt(m)) == d {
				return true
			}
		}
		if L == nil {
			return false
		}
		ch := changeOf(t, L, d, e.Resolve)
		nu := newNum(g)
		nu.vec = func(x *eng.Term) (Rat, bool) {
			if x == V {
				return ratAtom("V@"), true
			}
			return Rat{}, false
		}
		nu.res = e.Resolve
		ln := nu.Of(t.Len(L, at))
		sum := ratAtom("V@").mul(ln)
		switch ch.Kind {
		case "same":
			return v == V
		case "add":
			x := fieldTerm(t, ch.Elem, "Vec")
			if x == nil {
				return false
			}
			return nu.Vec(v, at).eq(sum.add(nu.Vec(x, at)).div(ln.add(ratK(1))))
		case "remove":
			if _, hi := e.Facts().Range(t.Len(L, at)); hi <= 1 {
				return true
			}
			et := eng.ElemType(lt)
			loc := t.FieldLoc(t.ElemLoc(ch.From, ch.Idx, et), et, "Vec")
			x := t.LoadAt(loc, fieldType(et, "Vec"), ch.At)
			return nu.Vec(v, at).eq(sum.add(nu.Vec(x, at).neg()).div(ln.add(ratK(-1))))
		}
		return false
	}
	s := &Sim{G: g, T: t, Track: track}
	first := g.Entry.Instrs[0]
	s.Start = "ok|" + id(vecAt(first)) + "|" + id(listAt(first)) + "|"
	update := func(e *St, v, d *eng.Term, at *eng.Val) {
		p := strings.SplitN(e.A, "|", 4)
		if p[0] == "any" {
			// only a mean of all restores it
			if consistent(e, nil, nil, v, d, at) {
				e.A = "ok|" + id(v) + "|" + id(d) + "|"
			}
			return
		}
		if consistent(e, byID[p[1]], byID[p[2]], v, d, at) {
			e.A = "ok|" + id(v) + "|" + id(d) + "|"
			return
		}
		w := p[3]
		if p[0] == "ok" {
			w = at.Where()
		}
		e.A = "pend|" + p[1] + "|" + p[2] + "|" + w
	}
	s.Event = func(e *St, v *eng.Val) {
		switch v.Op {
		case eng.OpStore:
			p := t.PathOf(v.Args[0])
			switch {
			case eng.SamePath(p, vp):
				update(e, e.Resolve(t.Of(v.Args[1])), e.Resolve(listAt(v)), v)
			case eng.SamePath(p, lp):
				update(e, e.Resolve(vecAt(v)), e.Resolve(t.Of(v.Args[1])), v)
			case t.Affects(v, vp, vt) || t.Affects(v, lp, lt):
				fail(v, "the centroid may be changed in an unknown way")
			}
		case eng.OpCall, eng.OpGo:
			if v.Op == eng.OpCall && !t.Affects(v, vp, vt) && !t.Affects(v, lp, lt) {
				return
			}
			// Another operation, maybe of the same centroid.
			if !strings.HasPrefix(e.A, "ok|") {
				fail(v, "another operation is called while the vector is not the mean (path %s)", e.Path())
				return
			}
			e.A = "rebase|||"
		}
		if strings.HasPrefix(e.A, "rebase|") && v.Op != eng.OpCall && v.Op != eng.OpGo {
			e.A = "ok|" + id(e.Resolve(vecAt(v))) + "|" + id(e.Resolve(listAt(v))) + "|"
		}
	}
	s.Edge = func(e *St, from, to *eng.Blk) bool {
		if bad {
			return false
		}
		if !to.IsLoopHeader() {
			return true
		}
		p := strings.SplitN(e.A, "|", 4)
		if p[0] == "pend" || p[0] == "any" {
			// restored by what is known since?
			at := from.Last()
			v, d := e.Resolve(vecAt(at)), e.Resolve(listAt(at))
			if consistent(e, byID[p[1]], byID[p[2]], v, d, at) {
				p[0] = "ok"
			}
		}
		switch p[0] {
		case "pend":
			e.A = "any|||" + p[3]
		case "ok":
			at := to.Instrs[0]
			e.A = "ok|" + id(vecAt(at)) + "|" + id(listAt(at)) + "|"
		}
		return true
	}
	s.Branch = func(e *St, cond *eng.Term, val bool) {
		// vectors of one centroid have the same dimension
		if cond.Op == eng.OpExtract && cond.Aux == "1" && cond.Args[0].V != nil && !val {
			if n := Callee(cond.Args[0].V); n == "mathutils.VecAdd" || n == "mathutils.VecSub" {
				e.Dead = true
			}
		}
	}
	s.Exit = func(e *St, ret *eng.Val) {
		p := strings.SplitN(e.A, "|", 4)
		if p[0] == "ok" || p[0] == "rebase" {
			return
		}
		v, d := e.Resolve(vecAt(ret)), e.Resolve(listAt(ret))
		V, L := byID[p[1]], byID[p[2]]
		if consistent(e, V, L, v, d, ret) {
			return
		}
		fail(ret, "the vector may not be the mean of the datapoints, which changed at %s (path %s)", p[3], e.Path())
	}
	s.Run()
	c.States += s.States
	if s.Overflow {
		fail(first, "too many paths")
	}
	if !bad {
		c.OK("mean-kept", inst, where(c, f))
	}
}

func init() {
	register("P12", checkP12, Desc{
		How: "Every path of every operation of a centroid is walked with the last state in which its vector was the mean of its datapoints. Each change of the list is classified (one added, one removed at a position, emptied, replaced), and the vector that goes with it is evaluated symbolically and compared, as a rational function, with the mean it has to be: (V*n+x)/(n+1), (V*n-x)/(n-1), or the mean over a generator that is proved to visit all datapoints of the current list. By induction over the steps (loop heads included) the vector is the mean at every exit. A flow rule makes sure that nothing else writes these fields.",
		Rules: map[string]string{
			"mean-kept": "at every exit of an operation, the vector is the mean of the datapoints (or there are none)", "owner": "only operations of centroids change their vector and datapoints", "received": "the client makes a new centroid of every one that it received before it returns them",
		},
		Assumes: []string{"floating point rounding is set aside", "datapoints of a centroid have its dimension (P08), so that a mean exists unless there are none"},
	})
}
