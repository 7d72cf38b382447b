package rules

import (
	"go/types"

	"trypocheck/eng"
)

func checkP01(c *C) {
	kinds := map[string]bool{"lost": true, "twice": true, "other": true}
	c.flows("kept", kinds)
	c.received()
	for _, r := range [][2]string{{pCM, "CentroidManager"}, {pRPC, "kmeansClient"}} {
		if fn := c.method(r[0], r[1], "NearestCentroids"); fn != nil {
			c.Expect(c.okMeans(fn, false), "refused", r[1]+".NearestCentroids", where(c, fn), "centroids may be returned although it is reported that there are none")
		}
	}
	c.Min("refused", 2)
	c.Min("kept", 12)
}

// flows analyses all operations that can take something out of a store.
func (c *C) flows(rule string, kinds map[string]bool) {
	run := func(pkg, typ, layer string) {
		for _, fn := range c.P.Methods(pkg, typ) {
			if !exported(fn) {
				continue
			}
			g := c.Flat(fn, layer)
			if g == nil {
				continue
			}
			f := c.newFlow(fn, g, typ+"."+fn.Name())
			f.Run()
			c.report(rule, f, where(c, fn), kinds)
		}
	}
	run(pCent, "Centroid", "L2")
	run(pCM, "CentroidManager", "L2")
	run(pRPC, "KMeansServer", "L3")
}

func (c *C) report(rule string, f *Flow, w string, kinds map[string]bool) {
	n := 0
	for _, b := range f.Bad {
		if kinds == nil || kinds[b.kind] {
			n++
			c.Bad(rule, f.inst, b.where, "%s", b.msg)
		}
	}
	if n == 0 && f.Took > 0 {
		c.OK(rule, f.inst, w)
	}
}

// received: the client hands on all drained centroids that it received.
func (c *C) received() {
	fn := c.method(pRPC, "kmeansClient", "NearestCentroids")
	if fn == nil {
		c.Bad("answer", "kmeansClient.NearestCentroids", "-", "there is no client method NearestCentroids")
		return
	}
	g := c.Flat(fn, "L2")
	f := c.newFlow(fn, g, "kmeansClient.NearestCentroids")
	f.rewrap = true
	t := f.t
	for _, l := range g.Loops() {
		if cv := cover(t, l); cv != nil {
			f.covs[l.Head] = cv
		}
	}
	// the variable that receives the reply
	cell := func(p *eng.Path) bool {
		return p.Root.Op == eng.OpAlloc && len(p.Steps) == 0
	}
	isReplyList := func(x *eng.Term) bool {
		return (x.Op == eng.OpLoad || x.Op == eng.OpMemPhi) && x.Path != nil && cell(x.Path)
	}
	var track []*eng.Term
	g.EachOwn(func(v *eng.Val) {
		switch v.Op {
		case eng.OpStore:
			p := t.PathOf(v.Args[0])
			if f.isItemList(v.Args[1].Typ) && cell(p) {
				track = append(track, t.Of(v.Args[1]), t.LoadAt(p, v.Args[1].Typ, v))
			}
		case eng.OpReturn:
			track = append(track, t.Of(v.Args[0]))
		case eng.OpIf:
			track = append(track, t.Of(v.Args[0]))
		case eng.OpCall:
			if Callee(v) == "Centroid.LenDP" {
				track = append(track, t.Of(v))
			}
		}
	})
	n := 0
	s := &Sim{G: g, T: t, Track: track}
	f.s = s
	s.Event = func(e *St, v *eng.Val) {
		if v.Op != eng.OpStore || len(f.Bad) > 3 {
			return
		}
		p := t.PathOf(v.Args[0])
		if f.isItemList(v.Args[1].Typ) && cell(p) {
			N, O := e.Resolve(t.Of(v.Args[1])), e.Resolve(t.LoadAt(p, v.Args[1].Typ, v))
			if N == O || isReplyList(N) || emptyList(N) && (f.noElems(e, O, v) || O.IsNil()) {
				return
			}
			n++
			if old, idx, at := removalAt(t, N); at != nil {
				if sameCell(old, O) {
					et := eng.ElemType(v.Args[1].Typ)
					x := e.Resolve(t.LoadAt(t.ElemLoc(old, idx, et), et, at))
					if f.hollow(e, x, at) {
						return
					}
					f.fail(e, v, "lost", "a received centroid that may have datapoints is left out")
					return
				}
			}
			if why := f.keepsAll(e, N, O, v); why != "" {
				f.fail(e, v, "lost", "received centroids may be left out: %s", why)
			}
			return
		}
		// an element is replaced
		if f.isItem(v.Args[1].Typ) && len(p.Steps) == 1 && p.Steps[0].Idx != nil && isReplyList(p.Root) {
			n++
			if !f.carries(t.Of(v.Args[1]), p.Root, p.Steps[0].Idx) {
				f.fail(e, v, "lost", "a received centroid is replaced by one that is not known to have its datapoints")
			}
		}
	}
	s.Exit = func(e *St, ret *eng.Val) {
		x := e.Resolve(t.Of(ret.Args[0]))
		if isReplyList(x) {
			return
		}
		n++
		if emptyList(x) {
			// only if nothing was received
			ok := false
			seen := false
			g.EachOwn(func(w *eng.Val) {
				if w.Op == eng.OpAlloc && f.isItemList(derefType(w.Typ)) && w.Blk.Dominates(ret.Blk) {
					seen = true
					y := e.Resolve(t.LoadAt(t.PathOf(w), derefType(w.Typ), ret))
					if b, known := e.Truth(t.Bin(eqTok, y, t.Zero(y.Typ), types.Typ[types.Bool])); known && b || y.IsNil() || f.noElems(e, y, ret) {
						ok = true
					}
				}
			})
			if !ok && seen {
				f.fail(e, ret, "lost", "nothing is returned although something may have been received")
			}
			return
		}
		m, why := mapLoop(g, t, x, nil)
		if m == nil || !isReplyList(m.Cv.List) {
			f.fail(e, ret, "lost", "what is returned is not known to be what was received: %s", why)
			return
		}
		if why := f.keepsAll(e, x, e.Resolve(m.Cv.List), ret); why != "" {
			f.fail(e, ret, "lost", "received centroids may be left out: %s", why)
		}
	}
	s.Run()
	c.States += s.States
	if s.Overflow {
		f.fail(nil, g.Entry.Instrs[0], "other", "too many paths")
	}
	f.Took = n
	c.report("answer", f, where(c, fn), nil)
	c.Min("answer", 1)
}

// carries: x is a centroid that was given the datapoints of an element of a list.
func (f *Flow) carries(x, list, idx *eng.Term) bool {
	t := f.t
	for x.Op == eng.OpPhi && len(x.V.Args) == 1 {
		x = t.Of(x.V.Args[0])
	}
	if fs, ok := elemSel(x); ok && fs == list {
		if _, i, _ := elemAt(x); sameInt(t, i, idx) {
			return true // itself
		}
	}
	if x.Op != eng.OpCall && x.Op != eng.OpAlloc && x.Op != eng.OpExtract {
		return false
	}
	lf := f.lists[pCent+".Centroid"][0]
	cnt, good := 0, true
	f.g.EachOwn(func(v *eng.Val) {
		switch v.Op {
		case eng.OpStore:
			p := t.PathOf(v.Args[0])
			if _, name := p.LastField(); p.Root != x || name != lf || len(p.Steps) != 1 {
				return
			}
			cnt++
			y := t.Of(v.Args[1])
			if _, name := pathField(y); name != lf || y.Path.Root == nil || len(y.Path.Steps) != 1 {
				good = false
				return
			}
			l, i, fs := elemAt(y.Path.Root)
			if l == nil || len(fs) != 0 || !sameCell(l, list) || !sameInt(t, i, idx) {
				good = false
			}
		case eng.OpCall:
			if len(v.Args) > 0 && v.Args[0] != nil && t.Of(v.Args[0]) == x {
				switch Callee(v) {
				case "Centroid.MoveVector", "Centroid.LenDP", "Centroid.Vec":
				default:
					good = false
				}
			}
		}
	})
	return cnt == 1 && good
}

func elemSel(x *eng.Term) (*eng.Term, bool) {
	l, _, fs := elemAt(x)
	return l, l != nil && len(fs) == 0
}

func pathField(x *eng.Term) (string, string) {
	if x.Path == nil {
		return "", ""
	}
	return x.Path.LastField()
}

func init() {
	register("P01", checkP01, Desc{
		How: "Ownership analysis over all paths of every operation of centroids, managers and the server (helpers inlined, one layer below opaque): whatever is taken out of a list (removal, drain, draining lookup) is a resource that has to be stored again, be put into a list that is, be handed on, or be returned. Handing over counts only if the receiver is known to have taken it, or cannot refuse.",
		Rules: map[string]string{
			"kept":    "on every path each datapoint or centroid that is taken out is stored again exactly once, handed to a receiver that said yes, or returned to the caller; lists of them are gone through to the end; nothing is left out but expired datapoints, empty centroids, and centroids whose datapoints were all moved to another one",
			"answer":  "the client hands on every received centroid with all of its datapoints, leaving out missing and empty ones only",
			"refused": "no centroid is handed out together with the answer that there is none, which callers rely on",
		},
		Assumes: []string{"search functions return valid, distinct positions", "the manager factory gives a manager that takes datapoints of the dimension it was made for", "a namespace that exists stays", "expired datapoints are not missed; a datapoint that expires while it is moved is not either", "a connection that breaks between execution and reply is not considered (P30)"},
	})
}

func derefType(tp types.Type) types.Type {
	if p, ok := tp.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return tp
}
