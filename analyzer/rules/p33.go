package rules

import (
	"fmt"
	"strings"

	"trypocheck/eng"
)

func checkP33(c *C) {
	c.placedNearest()
	c.givenNearest()
	c.mergedNearest()
	c.Import("P18", func(i Item) bool {
		return i.Rule == "search" && (i.Inst == "CentroidManager.AddDataPoint" || i.Inst == "CentroidManager.AddDataPoint query")
	})
	c.Min("placed", 2)
	c.Min("given", 1)
	c.Min("merged", 1)
}

// best: x is the element of a list that a search over the whole list ranked first for
// a vector.
func (c *C) best(e *St, g *eng.Graph, x, vec *eng.Term) (list *eng.Term, why string) {
	t := g.Terms()
	list, i, fs := elemAt(x)
	if list == nil || len(fs) != 0 {
		return nil, fmt.Sprintf("%v is not one of a list", x)
	}
	i = e.Resolve(i)
	I, at, fs := elemAt(i)
	if I == nil || len(fs) != 0 {
		return nil, fmt.Sprintf("the position %v is not the result of a search", i)
	}
	f := &Flow{c: c, g: g, t: t}
	sv := f.indexList(I)
	if sv == nil {
		return nil, fmt.Sprintf("the position %v is not the result of a search", i)
	}
	if w := i.Ver; w != nil && w.Op == eng.OpCall && reorders(w) && !w.Before(sv) && (sv.Before(w) || g.Reaches(sv.Blk, w.Blk)) {
		return nil, "the results of the search are reordered"
	}
	if !isZeroConst(at) {
		return nil, fmt.Sprintf("the one at rank %v is taken, not the first", at)
	}
	a := searchArgs(sv)
	if vec == nil || t.Of(a[0]) != vec {
		return nil, fmt.Sprintf("the search is for what is near %v", t.Of(a[0]))
	}
	gn, w := c.genOf(t, sv, a[1])
	if gn == nil {
		return nil, w
	}
	if !sameCell(gn.List, list) {
		return nil, fmt.Sprintf("the search goes through %v, not through %v", gn.List, list)
	}
	return list, ""
}

// handed checks, on every path, to whom a call hands a datapoint.
func (c *C) handed(g *eng.Graph, v *eng.Val, is func(e *St, x *eng.Term) string) string {
	t := g.Terms()
	x := t.Of(v.Args[0])
	s := &Sim{G: g, T: t, Track: []*eng.Term{x}}
	for _, lf := range t.Leaves(x, nil) {
		if _, i, _ := elemAt(lf); i != nil {
			s.Track = append(s.Track, i)
		}
	}
	why := ""
	s.Event = func(e *St, w *eng.Val) {
		if w == v && why == "" {
			why = is(e, e.Resolve(x))
		}
	}
	s.Run()
	c.States += s.States
	if s.Overflow {
		return "too many paths"
	}
	return why
}

// reorders: a library function that changes the order of a list.
func reorders(v *eng.Val) bool {
	n := Callee(v)
	return strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.") || n == "math/rand.Shuffle"
}

// placedNearest: where a manager puts a datapoint.
func (c *C) placedNearest() {
	fn := c.method(pCM, "CentroidManager", "AddDataPoint")
	inst := "CentroidManager.AddDataPoint"
	if fn == nil {
		c.Bad("placed", inst, "-", "there is no such operation")
		return
	}
	g := c.Flat(fn, "L2")
	f := c.newFlow(fn, g, inst)
	t := g.Terms()
	if f.list == nil {
		c.Bad("placed", inst, where(c, fn), "a manager has no list of centroids")
		return
	}
	dp := t.Of(g.Params[1])
	g.EachOwn(func(v *eng.Val) {
		if v.Op != eng.OpCall || Callee(v) != "Centroid.AddDataPoint" || t.Of(v.Args[1]) != dp {
			return
		}
		why := c.handed(g, v, func(e *St, x *eng.Term) string {
			if x.Op == eng.OpCall || x.Op == eng.OpAlloc {
				L := t.LoadAt(f.list, f.listT, v)
				if _, hi := e.Facts().Range(t.Len(L, v)); hi > 0 {
					return "a centroid is made for it although there may be others"
				}
				return ""
			}
			list, why := c.best(e, g, x, fieldTerm(t, dp, "Vec"))
			if why == "" && (list.Path == nil || !eng.SamePath(list.Path, f.list)) {
				why = fmt.Sprintf("%v is not the list of centroids", list)
			}
			return why
		})
		c.Expect(why == "", "placed", inst, v.Where(), "a datapoint may be put into another centroid than the nearest one: %s", why)
	})
}

// givenNearest: to whom a centroid gives its datapoints, and to whom a manager lets
// its centroids give theirs.
func (c *C) givenNearest() {
	fn := c.method(pCent, "Centroid", "DistributeDataPoints")
	inst := "Centroid.DistributeDataPoints"
	if fn == nil || len(fn.Params) < 3 {
		c.Bad("given", inst, "-", "there is no such operation")
		return
	}
	g := c.Flat(fn, "L1")
	t := g.Terms()
	recv := t.Of(g.Params[2])
	g.EachOwn(func(v *eng.Val) {
		if v.Op != eng.OpCall || v.Method == nil || v.Method.Name() != "AddDataPoint" {
			return
		}
		why := c.handed(g, v, func(e *St, x *eng.Term) string {
			if unwrapIface(x) == t.Of(g.Params[0]) {
				return "" // kept
			}
			list, why := c.best(e, g, x, fieldTerm(t, t.Of(v.Args[1]), "Vec"))
			if why == "" && list != recv {
				why = fmt.Sprintf("%v are not the receivers", list)
			}
			return why
		})
		c.Expect(why == "", "given", inst, v.Where(), "a datapoint may be given to another receiver than the nearest one: %s", why)
	})
	mf := c.method(pCM, "CentroidManager", "DistributeDataPoints")
	if mf == nil || len(mf.Params) < 3 {
		c.Bad("given", "CentroidManager.DistributeDataPoints", "-", "there is no such operation")
		return
	}
	mg := c.Flat(mf, "L2")
	mt := mg.Terms()
	mg.EachOwn(func(v *eng.Val) {
		if v.Op == eng.OpCall && Callee(v) == "Centroid.DistributeDataPoints" {
			c.Expect(mt.Of(v.Args[2]) == mt.Of(mg.Params[2]), "given", "CentroidManager.DistributeDataPoints", v.Where(), "the centroids give to %v instead of all receivers", mt.Of(v.Args[2]))
		}
	})
}

// mergedNearest: a centroid absorbs those that are nearest to itself.
func (c *C) mergedNearest() {
	fn := c.method(pCM, "CentroidManager", "MergeCentroids")
	inst := "CentroidManager.MergeCentroids"
	if fn == nil {
		c.Bad("merged", inst, "-", "there is no such operation")
		return
	}
	g := c.Flat(fn, "L2")
	f := c.newFlow(fn, g, inst)
	f.Run()
	t := g.Terms()
	if f.list == nil {
		c.Bad("merged", inst, where(c, fn), "a manager has no list of centroids")
		return
	}
	g.EachOwn(func(v *eng.Val) {
		if !isSearch(v) {
			return
		}
		q := t.Of(searchArgs(v)[0])
		why := fmt.Sprintf("the search is for what is near %v", q)
		if (q.Op == eng.OpLoad || q.Op == eng.OpMemPhi) && q.Path != nil && len(q.Path.Steps) == 1 {
			for _, l := range g.Loops() {
				cv := f.covs[l.Head]
				if cv == nil || !l.Blocks[v.Blk] || !isOwnList(f, cv.List, l) {
					continue
				}
				if fs, ok := cv.ElemOf(t, q.Path.Root); ok && len(fs) == 0 {
					why = ""
				}
			}
		}
		c.Expect(why == "", "merged", inst+" query", v.Where(), "a centroid may absorb others than the nearest ones: %s", why)
		// in the order of the search, from its first result on
		n := 0
		g.EachOwn(func(d *eng.Val) {
			if is, _ := f.source(d); !is || !isDrain(Callee(d)) {
				return
			}
			_, k, fs := elemAt(t.Of(d.Args[0]))
			if k == nil || len(fs) != 0 {
				return
			}
			for l := innermost(d); l != nil; l = l.Parent {
				cv := f.covs[l.Head]
				if cv == nil || f.posOf(cv, k) != v {
					continue
				}
				n++
				c.Expect(!cv.Back, "merged", inst, d.Where(), "the furthest are absorbed first")
			}
		})
		c.Expect(n > 0, "merged", inst+" found", v.Where(), "what is absorbed is not what the search found")
	})
}

func init() {
	register("P33", checkP33, Desc{
		How: "Provenance of receivers: the term of the centroid or receiver that a datapoint is handed to is taken apart into list, position and search. It has to be the element at the first position that a search for the vector of that datapoint returned, where the generator of the search was proved to go through the same list, completely and from its beginning (for each search anew). The search functions themselves are decided by P18.",
		Rules: map[string]string{
			"placed": "a manager adds a datapoint to the centroid that a search for its vector over all centroids ranks first, and makes a new one only if it has none",
			"given":  "a centroid offers each datapoint that it gives away to the receiver that a search for its vector over all receivers ranks first; a manager passes all receivers on",
			"merged": "a centroid absorbs the others in the order of a search for its own vector over all centroids",
		},
		Assumes: []string{"search functions rank as P18 says and return positions of what the generator yielded"},
	})
}
