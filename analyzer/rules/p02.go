package rules

import (
	"go/types"
	"strings"

	"trypocheck/eng"
)

// putFuncs: the exported functions of core/dps that put one datapoint.
func (c *C) putFuncs() []entry {
	var r []entry
	for _, f := range c.roots() {
		if eng.FuncPkgPath(f) == pDps && exported(f) && f.Signature.Recv() == nil && f.Signature.Results().Len() == 1 && isBoolType(f.Signature.Results().At(0).Type()) {
			if g := c.Flat(f, "dps"); g != nil && len(Calls(g, is("kmeansClient.AddDataPoint"))) > 0 {
				r = append(r, entry{Fn: f, G: g, Name: fnName(f)})
			}
		}
	}
	return r
}

func isBoolType(tp types.Type) bool {
	b, ok := tp.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func boolResult(g *eng.Graph, t *eng.Terms) func(*eng.Val) *eng.Term {
	return func(ret *eng.Val) *eng.Term {
		if len(ret.Args) == 0 {
			return nil
		}
		return t.Of(ret.Args[0])
	}
}

func checkP02(c *C) {
	c.centroidPut()
	c.managerPut()
	c.serverPut()
	for _, en := range c.putFuncs() {
		g, t := en.G, en.G.Terms()
		k := &ack{c: c, rule: "put", inst: en.Name, g: g, t: t, result: boolResult(g, t)}
		k.try = func(v *eng.Val) (bool, bool) {
			return v.Op == eng.OpCall && Callee(v) == "kmeansClient.AddDataPoint", false
		}
		k.run()
	}
	c.Min("put", 3)
	// what lies in between has its own rules
	c.Import("P15", func(i Item) bool {
		return (i.Inst == "AddDataPoint" || strings.HasPrefix(i.Inst, "AddDataPoint ")) && i.Rule != "wire" && i.Rule != "types"
	})
	c.Import("P22", func(i Item) bool { return strings.HasPrefix(i.Inst, "AddDataPoint") })
	c.Import("P21", func(i Item) bool { return strings.Contains(i.Inst, "put") })
	c.Import("P16", func(i Item) bool { return strings.Contains(i.Inst, "Put") })
	c.Import("P04", func(i Item) bool { return i.Rule == "reported" })
}

// centroidPut: a centroid has the datapoint in its list if and only if it says so.
func (c *C) centroidPut() {
	f := c.Method(pCent, "Centroid", "AddDataPoint")
	g := c.Flat(f, "L1")
	if g == nil {
		return
	}
	t := g.Terms()
	ct := f.Params[0].Type().Underlying().(*types.Pointer).Elem()
	loc := t.FieldLoc(t.PtrLoc(t.Of(g.Params[0])), ct, "DataPoints")
	if loc == nil {
		c.Bad("centroid", fnName(f), where(c, f), "the centroid has no list of datapoints")
		return
	}
	lt := fieldType(ct, "DataPoints")
	s := &Sim{G: g, T: t}
	bad, n := false, 0
	for _, x := range g.Exits {
		s.Track = append(s.Track, t.Of(x.Args[0]), t.LoadAt(loc, lt, x))
	}
	s.Exit = func(e *St, ret *eng.Val) {
		n++
		x := e.Resolve(t.LoadAt(loc, lt, ret))
		added := false
		switch {
		case x.Op == eng.OpAppend:
			elems, spread := appended(t, x.V)
			base := e.Resolve(t.Of(x.V.Args[0]))
			if spread != nil || len(elems) != 1 || !sameStruct(t, elems[0], t.Of(g.Params[1])) || !isInit(base, loc) {
				bad = true
				c.Bad("centroid", fnName(f), ret.Where(), "the list becomes %v, which is not the old list and the new datapoint (path %s)", x, e.Path())
				return
			}
			added = true
		case isInit(x, loc):
		default:
			bad = true
			c.Bad("centroid", fnName(f), ret.Where(), "the list becomes %v (path %s)", x, e.Path())
			return
		}
		val, known := e.Truth(t.Of(ret.Args[0]))
		if !known || val != added {
			bad = true
			c.Bad("centroid", fnName(f), ret.Where(), "reports %v while the datapoint is stored: %v (path %s)", e.Resolve(t.Of(ret.Args[0])), added, e.Path())
		}
	}
	s.Run()
	c.States += s.States
	if !bad && n > 0 && !s.Overflow {
		c.OK("centroid", fnName(f), where(c, f))
	}
	c.Min("centroid", 1)
}

// isInit: x is the content that a location had at the start.
func isInit(x *eng.Term, loc *eng.Path) bool {
	return x != nil && x.Op == eng.OpLoad && x.Aux == "init" && x.Path != nil && x.Path.String() == loc.String()
}

// managerPut: a manager gives the datapoint to one of its centroids.
func (c *C) managerPut() {
	f := c.Method(pCM, "CentroidManager", "AddDataPoint")
	g := c.Flat(f, "L2")
	if g == nil {
		return
	}
	t := g.Terms()
	mt := f.Params[0].Type().Underlying().(*types.Pointer).Elem()
	loc := t.FieldLoc(t.PtrLoc(t.Of(g.Params[0])), mt, "Centroids")
	if loc == nil {
		c.Bad("manager", fnName(f), where(c, f), "the manager has no list of centroids")
		return
	}
	lt := fieldType(mt, "Centroids")
	k := &ack{c: c, rule: "manager", inst: fnName(f), g: g, t: t, result: boolResult(g, t)}
	k.try = func(v *eng.Val) (bool, bool) {
		if v.Op != eng.OpCall || Callee(v) != "Centroid.AddDataPoint" {
			return false, false
		}
		return sameStruct(t, t.Of(v.Args[1]), t.Of(g.Params[1])), false
	}
	k.placed = func(e *St, v, ret *eng.Val) string {
		now := e.Resolve(t.LoadAt(loc, lt, ret))
		r := e.Resolve(t.Of(v.Args[0]))
		src := listSrc(t, now)
		for _, a := range src.Elems {
			if e.Resolve(a.X) == r {
				return ""
			}
		}
		then := e.Resolve(t.LoadAt(loc, lt, v))
		if r.Op == eng.OpLoad && r.Path.Root == then || r.Op == eng.OpLoad && r.Path.Root.Op == eng.OpLoad && r.Path.Root.Path.String() == loc.String() {
			for _, b := range src.Bases {
				if b == then || b == r.Path.Root {
					return ""
				}
			}
		}
		return "the datapoint was given to " + r.String() + ", which is not a centroid of the manager afterwards (" + now.String() + ")"
	}
	k.run()
	c.Min("manager", 1)
}

// serverPut: the reply tells whether a manager of the namespace took it.
func (c *C) serverPut() {
	sm := c.serverMethods()["AddDataPoint"]
	if sm == nil {
		c.Bad("server", "AddDataPoint", "-", "the server has no operation AddDataPoint")
		return
	}
	t := sm.T
	rt := sm.Fn.Signature.Params().At(1).Type().Underlying().(*types.Pointer).Elem()
	k := &ack{c: c, rule: "server", inst: "AddDataPoint", g: sm.G, t: t}
	k.try = func(v *eng.Val) (bool, bool) {
		if v.Op != eng.OpCall || Callee(v) != "CentroidManager.AddDataPoint" {
			return false, false
		}
		fresh := false
		for _, y := range t.Leaves(t.Of(v.Args[0]), nil) {
			if managerKey(t, y) == nil {
				fresh = true
			}
		}
		return true, fresh
	}
	k.holder = func(v *eng.Val) *eng.Term { return t.Of(v.Args[0]) }
	k.publish = func(v *eng.Val) *eng.Term {
		if v.Op != eng.OpMapUpdate || !isSlots(t.Of(v.Args[0])) {
			return nil
		}
		return slotManager(t, t.Of(v.Args[2]), v)
	}
	k.result = func(ret *eng.Val) *eng.Term { return t.LoadAt(t.PtrLoc(sm.Reply), rt, ret) }
	k.isFalse = func(x *eng.Term) bool { return isInitReply(sm, x) }
	errT := sm.Fn.Signature.Results().At(0).Type()
	k.failed = func(e *St, ret *eng.Val) bool {
		x := t.Of(ret.Args[0])
		val, known := e.Truth(t.Bin(eqTok, x, t.Zero(errT), types.Typ[types.Bool]))
		return known && !val
	}
	k.run()
	c.Min("server", 1)
}

// slotManager: the manager in a slot, at v.
func slotManager(t *eng.Terms, slot *eng.Term, at *eng.Val) *eng.Term {
	pt, ok := slot.Typ.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if isManagerPtr(st.Field(i).Type()) {
			return t.LoadAt(t.FieldLoc(t.PtrLoc(slot), pt.Elem(), st.Field(i).Name()), st.Field(i).Type(), at)
		}
	}
	return nil
}

func init() {
	register("P02", checkP02, Desc{
		How:     "All paths of every function that acknowledges a write are walked: the centroid (its list afterwards is the old one with the datapoint, or the old one), the manager (a centroid that is its own said yes), the server operation (a manager that is registered under the namespace said yes), and the put functions of core/dps. On each path the reported result must be true exactly if one attempt succeeded, and no attempt may follow one that may have succeeded. The client method, the HTTP handlers and the registration of a namespace in between are decided by the same obligations as for P15, P22, P21, P16 and P04.",
		Rules:   map[string]string{"centroid": "Centroid.AddDataPoint stores if and only if it returns true", "manager": "CentroidManager.AddDataPoint returns true if and only if one of its centroids took the datapoint", "server": "the reply is true if and only if a registered manager took it", "put": "the put functions return true if and only if one node said so, and do not go on after that"},
		Assumes: []string{"a reply variable is false when an operation starts (net/rpc allocates it)", "what happens to the datapoint after it was stored (splitting) is P01"},
	})
}

func fieldType(tp types.Type, name string) types.Type {
	st, ok := tp.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	return nil
}
