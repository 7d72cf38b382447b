package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"trypocheck/eng"
)

func checkP09(c *C) {
	run := func(fns []*ssa.Function, layer, prefix string) {
		for _, fn := range fns {
			if !exported(fn) {
				continue
			}
			g := c.Flat(fn, layer)
			if g == nil {
				continue
			}
			f := c.newFlow(fn, g, prefix+fn.Name())
			looks := f.asks || f.flag != nil || lookupName(fn.Name())
			c.passesOption(f)
			if !looks {
				continue
			}
			f.Run()
			c.report("exact", f, where(c, fn), nil)
			if fn.Name() == "NearestCentroidVec" {
				if len(f.Bad) == 0 {
					c.OK("exact", f.inst, where(c, fn))
				}
			} else if f.Took == 0 && f.Read == 0 && len(f.Bad) == 0 {
				c.Bad("exact", f.inst, where(c, fn), "nothing is looked up here")
			}
		}
	}
	run(c.P.Methods(pCent, "Centroid"), "L2", "Centroid.")
	run(c.P.Methods(pCM, "CentroidManager"), "L2", "CentroidManager.")
	run(c.P.Methods(pRPC, "KMeansServer"), "L3", "KMeansServer.")
	var dps []*ssa.Function
	for _, fn := range c.P.Funcs {
		if eng.FuncPkgPath(fn) == pDps && fn.Signature.Recv() == nil && fn.Parent() == nil {
			dps = append(dps, fn)
		}
	}
	run(dps, "dps", "dps.")
	c.Min("exact", 12)
	c.Min("option", 5)
	c.Import("P15", func(i Item) bool {
		n := strings.Fields(i.Inst)
		return len(n) > 0 && lookupName(n[0])
	})
	c.Import("P21", func(i Item) bool {
		return strings.HasPrefix(i.Inst, "/api/dp/query") && (i.Rule == "option" && strings.HasSuffix(i.Inst, "Drain") || i.Rule == "outcome" || i.Rule == "operation")
	})
	c.received()
}

func lookupName(n string) bool {
	switch n {
	case "KNNLookup", "NearestCentroids", "NearestCentroidVec", "DrainOrdered", "DrainUnordered":
		return true
	}
	return strings.HasPrefix(n, "GetDataPoints")
}

// ownOptions gives the drain options of a function.
func ownOptions(g *eng.Graph) []*eng.Term {
	t := g.Terms()
	var r []*eng.Term
	for _, p := range g.Params {
		if isBoolType(p.Typ) {
			r = append(r, t.Of(p))
			continue
		}
		st, ok := p.Typ.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		var all []string
		for i := 0; i < st.NumFields(); i++ {
			if isBoolType(st.Field(i).Type()) {
				n := st.Field(i).Name()
				if strings.EqualFold(n, "drain") {
					all = []string{n}
					break
				}
				all = append(all, n)
			}
		}
		if len(all) == 1 {
			if x := fieldTerm(t, t.Of(p), all[0]); x != nil {
				r = append(r, x)
			}
		}
	}
	return r
}

// passesOption: a lookup asks the next layer to remove if and only if it was asked to.
func (c *C) passesOption(f *Flow) {
	own := ownOptions(f.g)
	var calls []*eng.Val
	var track []*eng.Term
	f.g.Each(func(v *eng.Val) {
		if v.Op != eng.OpCall {
			return
		}
		n := Callee(v)
		switch n {
		case "Centroid.KNNLookup", "CentroidManager.KNNLookup", "CentroidManager.NearestCentroids", "kmeansClient.KNNLookup", "kmeansClient.NearestCentroids":
			calls = append(calls, v)
			track = append(track, f.t.Of(v.Args[len(v.Args)-1]))
		}
	})
	if len(calls) == 0 || len(own) == 0 {
		return
	}
	bad := map[*eng.Val]string{}
	seen := map[*eng.Val]bool{}
	s := &Sim{G: f.g, T: f.t, Track: append(track, own...)}
	s.Event = func(e *St, v *eng.Val) {
		for _, k := range calls {
			if k != v {
				continue
			}
			seen[v] = true
			fl := e.Resolve(f.t.Of(v.Args[len(v.Args)-1]))
			ok := false
			for _, o := range own {
				if fl == o {
					ok = true
				}
				a, ka := e.Truth(fl)
				b, kb := e.Truth(o)
				if ka && kb && a == b {
					ok = true
				}
			}
			if !ok {
				bad[v] = e.Path()
			}
		}
	}
	s.Run()
	c.States += s.States
	for _, v := range calls {
		inst := f.inst + " " + Callee(v)
		switch {
		case s.Overflow || !seen[v]:
			c.Bad("option", inst, v.Where(), "what is passed on as drain option is not known")
		case bad[v] != "":
			c.Bad("option", inst, v.Where(), "the drain option that is passed on is not the one that was given (path %s)", bad[v])
		default:
			c.OK("option", inst, v.Where())
		}
	}
}

func init() {
	register("P09", checkP09, Desc{
		How: "The ownership analysis of P01 restricted to lookups and drains (of centroids, managers, the server and the multi-node queries): copies of what is still stored and removals have to pair up when removing is asked for, and nothing may be removed otherwise; the option is traced through all layers.",
		Rules: map[string]string{
			"exact":  "with the drain option (always, for drains) each returned item is removed and each removed item returned; without it nothing but expired datapoints is removed",
			"option": "the drain option given to the layer below is the one the function was given",
			"answer": "the client hands on every received centroid with all of its datapoints",
		},
		Assumes: []string{"search functions return valid, distinct positions", "as for P01, P15 and P21, whose obligations about lookups, drains and queries are part of this check"},
	})
}
