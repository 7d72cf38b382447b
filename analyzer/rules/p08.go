package rules

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"trypocheck/eng"
)

func checkP08(c *C) {
	c.dimensions()
	c.addDecision(true, false)
	c.vectorBounds()
	c.Import("P12", func(i Item) bool { return i.Rule == "owner" })
	c.Import("P27", func(i Item) bool { return i.Rule == "refused" || i.Rule == "helper" || i.Rule == "mean" })
	c.Import("P18", func(i Item) bool { return i.Rule == "better" })
	c.Min("dimension", 6)
	c.Min("bounds", 6)
	c.Min("accepts", 1)
}

func (c *C) method(pkg, typ, name string) *ssa.Function {
	for _, m := range c.P.Methods(pkg, typ) {
		if m.Name() == name {
			return m
		}
	}
	return nil
}

// dims decides which vectors have the dimension of a centroid.
type dims struct {
	c         *C
	g         *eng.Graph
	t         *eng.Terms
	vp, lp    *eng.Path
	seen      map[*eng.Term]bool
	gens      map[*eng.Val]*Gen
	vecF, why string
}

func (d *dims) no(x *eng.Term, why string) bool {
	if d.why == "" {
		d.why = why + " (" + x.String() + ")"
		if len(d.why) > 160 {
			d.why = d.why[:160]
		}
	}
	return false
}

// vec: a vector (at a point) has the dimension.
func (d *dims) vec(x *eng.Term, at *eng.Val) bool {
	if x.Path != nil && (x.Op == eng.OpLoad || x.Op == eng.OpMemPhi) && eng.SamePath(x.Path, d.vp) {
		return true
	}
	if d.seen[x] {
		return true
	}
	d.seen[x] = true
	if l, _, fs := elemAt(x); l != nil && len(fs) == 1 && fs[0] == "Vec" && d.list(l, at) {
		return true
	}
	// compared with a vector of that dimension
	if at != nil {
		for _, f := range d.t.BlockFacts(at.Blk).List() {
			if f.Cond.Op != eng.OpBin || f.Cond.Aux != "==" && f.Cond.Aux != "!=" || f.Val != (f.Cond.Aux == "==") {
				continue
			}
			m, k := d.t.Lin(f.Cond.Args[0])
			k2, ok := f.Cond.Args[1].Int()
			if !ok || k != k2 || len(m) != 2 {
				continue
			}
			var me, other *eng.Term
			for a := range m {
				if a.Op != eng.OpLen {
					break
				}
				if a.Args[0] == x {
					me = a
				} else {
					other = a
				}
			}
			if me != nil && other != nil && m[me] == -m[other] && d.vec(other.Args[0], nil) {
				return true
			}
		}
	}
	switch x.Op {
	case eng.OpExtract:
		v := x.Args[0].V
		if v == nil || x.Aux != "0" {
			return d.no(x, "unknown vector")
		}
		switch Callee(v) {
		case "mathutils.VecAdd", "mathutils.VecSub":
			return d.vec(d.t.Of(v.Args[0]), v) && d.vec(d.t.Of(v.Args[1]), v)
		case "mathutils.VecMean":
			m := d.gens[v]
			if m == nil {
				var why string
				if m, why = d.c.genOf(d.t, v, v.Args[0]); m == nil {
					return d.no(x, why)
				}
				d.gens[v] = m
			}
			return len(m.Fields) == 1 && m.Fields[0] == "Vec" && d.list(m.List, v) || d.no(x, "a mean of other vectors")
		}
	case eng.OpCall:
		switch Callee(x.V) {
		case "mathutils.VecMulScalar", "mathutils.VecDivScalar":
			return d.vec(d.t.Of(x.V.Args[0]), x.V)
		case "mathutils.Vec":
			return d.vec(d.t.Of(x.V.Args[0]), x.V)
		}
	case eng.OpMakeSlice:
		n := d.t.Of(x.V.Args[0])
		return n.Op == eng.OpLen && d.vec(n.Args[0], x.V) || d.no(x, "of another length")
	case eng.OpAppend:
		if b := d.t.Of(x.V.Args[0]); emptyList(b) {
			if el, sp := appended(d.t, x.V); sp != nil && len(el) == 0 {
				return d.vec(sp, x.V)
			}
		}
	case eng.OpPhi, eng.OpMemPhi:
		as, ps := d.t.PhiArgs(x)
		for i, a := range as {
			if !d.vec(a, ps[i].Last()) {
				return false
			}
		}
		return len(as) > 0
	}
	return d.no(x, "not known to have the dimension of the centroid")
}

// list: all datapoints of a list have the dimension.
func (d *dims) list(x *eng.Term, at *eng.Val) bool {
	if emptyList(x) {
		return true
	}
	if x.Path != nil && (x.Op == eng.OpLoad || x.Op == eng.OpMemPhi) && eng.SamePath(x.Path, d.lp) {
		return true
	}
	if d.seen[x] {
		return true
	}
	d.seen[x] = true
	switch x.Op {
	case eng.OpSlice:
		if x.Args[0].Op != eng.OpAlloc {
			return d.list(x.Args[0], at)
		}
	case eng.OpAppend:
		if !d.list(d.t.Of(x.V.Args[0]), x.V) {
			return false
		}
		el, sp := appended(d.t, x.V)
		for _, e := range el {
			v := fieldTerm(d.t, e, "Vec")
			if l, _, fs := elemAt(e); l != nil && len(fs) == 0 && d.list(l, x.V) {
				continue
			}
			if v == nil || !d.vec(v, x.V) {
				return d.no(e, "a datapoint of another dimension")
			}
		}
		return sp == nil || d.list(sp, x.V)
	case eng.OpPhi, eng.OpMemPhi:
		as, ps := d.t.PhiArgs(x)
		for i, a := range as {
			if !d.list(a, ps[i].Last()) {
				return false
			}
		}
		return len(as) > 0
	case eng.OpMakeSlice:
		// filled in place
		n := 0
		ok := true
		d.g.EachOwn(func(v *eng.Val) {
			switch v.Op {
			case eng.OpStore:
				p := d.t.PathOf(v.Args[0])
				if p.Root == x {
					n++
					e := d.t.Of(v.Args[1])
					l, _, fs := elemAt(e)
					if len(p.Steps) != 1 || !(l != nil && len(fs) == 0 && d.list(l, v)) {
						w := fieldTerm(d.t, e, "Vec")
						ok = ok && len(p.Steps) == 1 && w != nil && d.vec(w, v)
					}
				}
			case eng.OpCopy:
				if y := d.t.Of(v.Args[0]); y == x {
					n++
					ok = ok && d.list(d.t.Of(v.Args[1]), v)
				}
			}
		})
		return ok && n > 0 || d.no(x, "a list of other datapoints")
	}
	return d.no(x, "a list of other datapoints")
}

// dimensions: what a centroid stores has its dimension.
func (c *C) dimensions() {
	n, st := c.structOf(pCent, "Centroid")
	vecF, listF := fieldOfType(st, "[]float64"), fieldOfElems(st, pCommon+".DataPoint")
	if vecF == "" || listF == "" {
		c.Bad("dimension", "Centroid", "-", "a centroid has no vector or no datapoints")
		return
	}
	for _, f := range c.P.Methods(pCent, "Centroid") {
		if !exported(f) {
			continue
		}
		g := c.Flat(f, "L1")
		t := g.Terms()
		self := t.PtrLoc(t.Of(g.Params[0]))
		g.EachOwn(func(v *eng.Val) {
			if v.Op != eng.OpStore {
				return
			}
			p := t.PathOf(v.Args[0])
			d := &dims{c: c, g: g, t: t, vp: t.FieldLoc(self, n, vecF), lp: t.FieldLoc(self, n, listF), seen: map[*eng.Term]bool{}, gens: map[*eng.Val]*Gen{}, vecF: vecF}
			inst := "Centroid." + f.Name()
			switch {
			case eng.SamePath(p, d.vp):
				ok := d.vec(t.Of(v.Args[1]), v)
				c.Expect(ok, "dimension", inst+" vector", v.Where(), "the vector may get another dimension than the datapoints: %s", d.why)
			case eng.SamePath(p, d.lp):
				ok := d.list(t.Of(v.Args[1]), v)
				c.Expect(ok, "dimension", inst+" datapoints", v.Where(), "datapoints may have another dimension than the vector: %s", d.why)
			default:
				// an element is overwritten
				if p.Root.Path != nil && eng.SamePath(p.Root.Path, d.lp) && len(p.Steps) >= 1 {
					e := t.Of(v.Args[1])
					l, _, fs := elemAt(e)
					ok := len(p.Steps) == 1 && l != nil && len(fs) == 0 && d.list(l, v)
					if _, fl := p.LastField(); len(p.Steps) == 2 && fl != "Vec" && fl != "" {
						ok = true
					}
					c.Expect(ok, "dimension", inst+" datapoint", v.Where(), "a datapoint is overwritten by one that may have another dimension")
				}
			}
		})
	}
	// a new centroid has no datapoints
	if f := c.P.Func(pCent, "NewCentroid"); f != nil {
		g := c.Flat(f, "L1")
		t := g.Terms()
		ok := true
		g.EachOwn(func(v *eng.Val) {
			if v.Op == eng.OpStore {
				if s, fl := t.PathOf(v.Args[0]).LastField(); s == pCent+".Centroid" && fl == listF {
					ok = ok && emptyList(t.Of(v.Args[1]))
				}
			}
		})
		c.Expect(ok, "dimension", "NewCentroid", where(c, f), "a new centroid may have datapoints")
	} else {
		c.Bad("dimension", "NewCentroid", "-", "there is no such function")
	}
}

// addDecision: a centroid takes a datapoint exactly if it has the right dimension and
// has not expired.
func (c *C) addDecision(dim, exp bool) {
	n, st := c.structOf(pCent, "Centroid")
	vecF := fieldOfType(st, "[]float64")
	f := c.method(pCent, "Centroid", "AddDataPoint")
	if f == nil || vecF == "" {
		c.Bad("accepts", "Centroid.AddDataPoint", "-", "there is no such operation")
		return
	}
	g := c.Flat(f, "L1")
	t := g.Terms()
	self := t.PtrLoc(t.Of(g.Params[0]))
	first := g.Entry.Instrs[0]
	dp := t.Of(g.Params[1])
	dv := fieldTerm(t, dp, "Vec")
	if dv == nil {
		c.Bad("accepts", "Centroid.AddDataPoint", where(c, f), "the vector of the datapoint is not known")
		return
	}
	vec := t.LoadAt(t.FieldLoc(self, n, vecF), fieldType(n, vecF), first)
	same := t.Bin(token.EQL, t.Len(dv, first), t.Len(vec, first), types.Typ[types.Bool])
	s := &Sim{G: g, T: t, Track: append(returned(g), same)}
	ok := true
	fail := func(ret *eng.Val, format string, a ...interface{}) {
		if ok {
			c.Bad("accepts", "Centroid.AddDataPoint", ret.Where(), format, a...)
		}
		ok = false
	}
	g.EachOwn(func(v *eng.Val) {
		if isExpired(v) {
			s.Track = append(s.Track, t.Of(v))
		}
	})
	s.Exit = func(e *St, ret *eng.Val) {
		sameDim, known := e.Truth(same)
		expired, ek := false, false
		for _, y := range e.Facts().List() {
			if x := expiredOf(t, y.Cond); x != nil && (x == dp || sameStruct(t, x, dp)) {
				expired, ek = y.Val, true
			}
		}
		r := e.Resolve(t.Of(ret.Args[0]))
		val, rk := e.Truth(r)
		if !rk {
			// the outcome is one of the conditions
			if r == same || r == t.Not(same) {
				return
			}
			fail(ret, "it is not known whether the datapoint is taken (path %s)", e.Path())
			return
		}
		if val {
			if dim && !(known && sameDim) {
				fail(ret, "a datapoint of another dimension may be taken (path %s)", e.Path())
			}
			if exp && !(ek && !expired) {
				fail(ret, "an expired datapoint may be taken (path %s)", e.Path())
			}
			return
		}
		if !(known && !sameDim) && !(ek && expired) {
			fail(ret, "an unexpired datapoint of the right dimension may be refused (path %s)", e.Path())
		}
	}
	s.Run()
	c.States += s.States
	if s.Overflow {
		fail(first, "too many paths")
	}
	if ok {
		c.OK("accepts", "Centroid.AddDataPoint", where(c, f))
	}
}

// vectorBounds: components of vectors are only read and written within them.
func (c *C) vectorBounds() {
	done := map[string]bool{}
	for _, e := range c.everything() {
		g := e.G
		t := g.Terms()
		g.EachOwn(func(v *eng.Val) {
			if v.Op != eng.OpIndexAddr && v.Op != eng.OpIndex || len(v.Args) != 2 || !isVecType(v.Args[0].Typ) {
				return
			}
			key := fmt.Sprint(v.Where(), v.Pos)
			if done[key] {
				return
			}
			done[key] = true
			why := c.inBounds(g, v, t.Of(v.Args[0]), t.Of(v.Args[1]))
			c.Expect(why == "", "bounds", e.Name, v.Where(), "a component outside of the vector may be used: %s", why)
		})
	}
}

// inBounds decides that a position is within a list at a point.
func (c *C) inBounds(g *eng.Graph, v *eng.Val, list, idx *eng.Term) string {
	t := g.Terms()
	if within(t, t.BlockFacts(v.Blk), v, list, idx) {
		return ""
	}
	bad := ""
	s := &Sim{G: g, T: t, Track: append(append(atoms(idx), list), t.Len(list, v)), Limit: 3000}
	s.Event = func(e *St, w *eng.Val) {
		if w == v {
			if !within(t, e.Facts(), v, e.Resolve(list), e.Resolve(idx)) && bad == "" {
				bad = "path " + e.Path()
			}
			e.Dead = true
		}
	}
	s.Edge = func(e *St, from, to *eng.Blk) bool { return bad == "" && (to == v.Blk || g.Reaches(to, v.Blk)) }
	s.Run()
	c.States += s.States
	if s.Overflow {
		return "too many paths"
	}
	return bad
}

// within: 0 <= idx < len(list) under some facts.
func within(t *eng.Terms, f *eng.FactSet, at *eng.Val, list, idx *eng.Term) bool {
	if lo, ok := lower(t, f, nil, idx, 0); !ok || lo < 0 {
		return false
	}
	return below(t, f, idx, t.Len(list, at), 1)
}

// below: idx + d <= n under some facts.
func below(t *eng.Terms, f *eng.FactSet, idx, n *eng.Term, d int64) bool {
	intT := types.Typ[types.Int]
	try := func(n *eng.Term) bool {
		x := t.Bin(token.SUB, idx, n, intT)
		if k, ok := x.Int(); ok {
			return k+d <= 0
		}
		_, hi := f.Range(x)
		return hi <= -d
	}
	if try(n) {
		return true
	}
	// counting down
	if m, k := t.Lin(idx); d < 1<<30 {
		for a, q := range m {
			b := a.JoinBlk()
			if q != 1 || a.Op != eng.OpPhi || b == nil || !b.IsLoopHeader() {
				continue
			}
			in, ds, ok := t.Induction(b.G.LoopAt(b), a)
			for x := range ds {
				ok = ok && x <= 0
			}
			if ok && in != nil {
				top := t.Bin(token.ADD, t.Bin(token.SUB, idx, a, intT), in, intT)
				_ = k
				if below(t, f, top, n, d) {
					return true
				}
			}
		}
	}
	// lengths known to be equal
	for _, y := range f.List() {
		c := y.Cond
		if c.Op != eng.OpBin || c.Aux != "==" && c.Aux != "!=" || y.Val != (c.Aux == "==") || isFloatType(c.Args[0].Typ) || !isNumeric(c.Args[0].Typ) {
			continue
		}
		dif := t.Bin(token.SUB, c.Args[0], c.Args[1], intT) // is zero
		m, _ := t.Lin(dif)
		for a, k := range m {
			if a == n && (k == 1 || k == -1) {
				var other *eng.Term
				if k == 1 {
					other = t.Bin(token.SUB, n, dif, intT)
				} else {
					other = t.Bin(token.ADD, n, dif, intT)
				}
				if try(other) {
					return true
				}
			}
		}
	}
	return false
}

func init() {
	register("P08", checkP08, Desc{
		How: "The dimension of vectors is followed as an abstract value: a vector that an operation of a centroid stores, and every datapoint it puts into its list, has to be derived from the centroid's own vector and datapoints by dimension-preserving operations, or to be compared with such a vector for equal length on the way. All exits of AddDataPoint are classified by what is known on their paths. Every access to a component of a vector in the program is checked to be within it under the conditions that hold there (loop bounds, length comparisons).",
		Rules: map[string]string{
			"dimension": "what a centroid stores has the dimension of its vector", "accepts": "a datapoint is refused if (and, unless expired, only if) it has another dimension",
			"bounds": "components are only used within the vector",
		},
		Assumes: []string{"centroids of an answer over rpc hold datapoints of one dimension, as those of the sender do (owner: they get the mean of their datapoints as vector at once)"},
	})
}
