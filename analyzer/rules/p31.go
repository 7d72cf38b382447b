package rules

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"trypocheck/eng"
)

const pCfg = "trypo/cfg"

func checkP31(c *C) {
	c.service()
	c.configured()
	m := c.managerKeeps()
	c.centroidKeeps()
	c.handsDown(m)
	c.grows(m)
	c.apiServes()
	c.nodeListens()
	c.Min("service", 12)
	c.Min("config", 8)
	c.Min("kept", 8)
	c.Min("inherited", 3)
	c.Min("threshold", 2)
	c.Min("served", 5)
	c.Min("listens", 5)
}

// settings lists the configured variables that a value is made of.
func settings(t *eng.Terms, x *eng.Term, at *eng.Val) map[string]bool {
	r := map[string]bool{}
	seen := map[*eng.Term]bool{}
	var walk func(x *eng.Term)
	walk = func(x *eng.Term) {
		t.Walk(x, func(y *eng.Term) bool {
			if seen[y] {
				return false
			}
			seen[y] = true
			switch y.Op {
			case eng.OpGlobal:
				r[globalName(y)] = true
			case eng.OpCall:
				for _, a := range y.V.Args {
					if a != nil {
						walk(t.Of(a))
					}
				}
			case eng.OpLoad:
				if y.Path != nil {
					walk(y.Path.Root)
				}
			case eng.OpAlloc:
				if at != nil {
					p := t.PtrLoc(y)
					if et := pointee(y.Typ); p != nil && et != nil {
						walk(t.LoadAt(p, et, at))
					}
				}
			}
			return true
		})
	}
	walk(x)
	return r
}

func pointee(tp types.Type) types.Type {
	if tp == nil {
		return nil
	}
	if p, ok := tp.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// globalName names a variable of the configuration.
func globalName(x *eng.Term) string {
	if x.V != nil && x.V.Global != nil && x.V.Global.Pkg != nil && x.V.Global.Pkg.Pkg.Path() == pCfg {
		return x.V.Global.Name()
	}
	return "?"
}

func justSetting(t *eng.Terms, x *eng.Term, at *eng.Val, name string) bool {
	s := settings(t, x, at)
	return len(s) == 1 && s[name]
}

// isSetting: the value of a configured variable, as it is.
func isSetting(x *eng.Term, name string) bool {
	return x != nil && x.Op == eng.OpLoad && x.Path != nil && len(x.Path.Steps) == 0 && x.Path.Root.Op == eng.OpGlobal && globalName(x.Path.Root) == name
}

// the one call of a function in a graph.
func oneCall(g *eng.Graph, name string) (*eng.Val, int) {
	var r *eng.Val
	n := 0
	g.Each(func(v *eng.Val) {
		if v.Op == eng.OpCall && v.Fn != nil && v.Fn.Signature.Recv() == nil && eng.FuncPkgPath(v.Fn)+"."+v.Fn.Name() == name {
			r = v
			n++
		}
	})
	return r, n
}

// service: the service hands each setting to what it is named after.
func (c *C) service() {
	var mains []*ssa.Function
	for _, f := range c.P.Funcs {
		if f.Pkg != nil && f.Pkg.Pkg.Name() == "main" && f.Name() == "main" && f.Parent() == nil && eng.InModulePath(eng.FuncPkgPath(f)) && !eng.IsTestSupport(f) {
			mains = append(mains, f)
		}
	}
	n := 0
	for _, f := range mains {
		g := c.Flat(f, "main")
		if g == nil {
			continue
		}
		t := g.Terms()
		if _, k := oneCall(g, pAPI+".Start"); k == 0 {
			continue // another program
		}
		n++
		one := func(name string) *eng.Val {
			v, k := oneCall(g, name)
			if !c.Expect(k == 1, "service", name, where(c, f), "called %d times instead of once", k) {
				return nil
			}
			return v
		}
		node, listen, loop, start := one(pRPC+".NewKMeansServer"), one(pRPC+".StartListen"), one(pEL+".EventLoop"), one(pAPI+".Start")
		if node == nil || listen == nil || loop == nil || start == nil {
			continue
		}
		c.Expect(justSetting(t, t.Of(node.Args[0]), node, "LocalAddrRPC"), "service", "address of the node", node.Where(), "the node gets the address %v instead of its own configured one", t.Of(node.Args[0]))
		c.Expect(t.Of(listen.Args[0]) == t.Of(node), "service", "listening node", listen.Where(), "listens with something else than the configured node")
		c.Expect(justSetting(t, t.Of(loop.Args[0]), loop, "ELT"), "service", "configuration of the event loop", loop.Where(), "the event loop gets another configuration")
		arg := t.Of(start.Args[0])
		a, nw := fieldTerm(t, arg, "Addr"), fieldTerm(t, arg, "RPCAddrs")
		c.Expect(a != nil && justSetting(t, a, start, "LocalAddrAPI"), "service", "address of the API", start.Where(), "the web API gets the address %v", a)
		c.Expect(isSetting(nw, "OtherAddrRPC"), "service", "network of the API", start.Where(), "the web API serves %v instead of the configured network", nw)
		// the API blocks: everything runs by then
		c.Expect(loop.Before(start), "service", "event loop runs", start.Where(), "the web API may run without the event loop")
		err := t.Extract(t.Of(listen), 1, listen.Typ.(*types.Tuple).At(1).Type())
		fine := t.Bin(eqTok, err, t.Zero(err.Typ), boolT)
		ok, reached := true, false
		s := &Sim{G: g, T: t, Track: []*eng.Term{fine}}
		s.Event = func(e *St, v *eng.Val) {
			switch {
			case v.Op == eng.OpCall && noReturn(v):
				e.Dead = true
			case v == listen:
				e.A = "l"
			case v == start:
				reached = true
				val, known := e.Truth(fine)
				ok = ok && e.A == "l" && known && val
				e.Dead = true
			}
		}
		s.Run()
		c.States += s.States
		c.Expect(ok && reached && !s.Overflow, "service", "node runs", start.Where(), "the web API may run without the node listening")
		// nothing is stopped before the API ends
		stops := map[*eng.Term]bool{t.Extract(t.Of(listen), 0, listen.Typ.(*types.Tuple).At(0).Type()): true, t.Of(loop): true}
		early := false
		g.Each(func(v *eng.Val) {
			if v.Op == eng.OpGo || v.Op == eng.OpCall && Callee(v) == "dynamic" && stops[t.Of(v.Args[0])] {
				if v.Op == eng.OpGo {
					return
				}
				if g.Reaches(v.Blk, start.Blk) || v.Blk == start.Blk && v.Before(start) {
					early = true
				}
			}
		})
		c.Expect(!early, "service", "nothing stopped early", start.Where(), "the node or its event loop is stopped before the web API ends")
		c.factory(f, t, node)
	}
	c.Expect(n == 1, "service", "main", "-", "there are %d programs that start the service", n)
}

// factory: how a node makes the manager of a new namespace.
func (c *C) factory(f *ssa.Function, mt *eng.Terms, node *eng.Val) {
	x := mt.Of(node.Args[1])
	var fn *ssa.Function
	if (x.Op == eng.OpClosure || x.Op == eng.OpFunc) && x.V != nil {
		fn = x.V.Fn
	}
	if fn == nil {
		c.Bad("service", "factory", node.Where(), "unknown how managers are made: %v", x)
		return
	}
	g := c.Flat(fn, "main")
	if g == nil {
		return
	}
	t := g.Terms()
	v, k := oneCall(g, pCM+".NewCentroidManager")
	if !c.Expect(k == 1, "service", "factory", where(c, fn), "makes %d managers instead of one", k) {
		return
	}
	arg := t.Of(v.Args[0])
	for _, w := range []struct{ field, setting string }{
		{"InitCap", "KMEANS_INITCAP"},
		{"CentroidDPThreshold", "KMEANS_CENTROID_DP_THRESHOLD"},
		{"KNNSearchFunc", "KNN_SEARCH_FUNC"},
		{"KFNSearchFunc", "KFN_SEARCH_FUNC"},
	} {
		y := fieldTerm(t, arg, w.field)
		c.Expect(isSetting(y, w.setting), "service", "factory "+w.field, v.Where(), "the %s of a manager is %v instead of the configured %s", w.field, y, w.setting)
	}
	y := fieldTerm(t, arg, "InitVec")
	c.Expect(len(g.Params) == 1 && y != nil && y == t.Of(g.Params[0]), "service", "factory InitVec", v.Where(), "a manager starts at %v instead of the vector it is made for", y)
	cm := t.Extract(t.Of(v), 0, v.Typ.(*types.Tuple).At(0).Type())
	made := t.Extract(t.Of(v), 1, boolT)
	for _, e := range g.Exits {
		r := t.Of(e.Args[0])
		ok := r.Op == eng.OpAlloc && t.LoadAt(t.PtrLoc(r), cm.Typ, e) == cm
		val, known := t.BlockFacts(e.Blk).Truth(made)
		c.Expect(ok && known && val, "service", "factory result", e.Where(), "may give something else than the manager that was made")
	}
}

// configured: the defaults fit together.
func (c *C) configured() {
	f := c.Func(pCfg, "init")
	if f == nil {
		c.Bad("config", "cfg", "-", "there is no configuration")
		return
	}
	g := c.Flat(f, "main")
	if g == nil {
		return
	}
	t := g.Terms()
	val, last := map[string]*eng.Term{}, map[string]*eng.Val{}
	g.EachOwn(func(v *eng.Val) {
		if v.Op != eng.OpStore {
			return
		}
		if a := t.Of(v.Args[0]); a.Op == eng.OpGlobal {
			n := globalName(a)
			val[n], last[n] = t.Of(v.Args[1]), v
		}
	})
	pos := func(n string) string {
		if v := last[n]; v != nil {
			return v.Where()
		}
		return where(c, f)
	}
	local, others := val["LocalAddrRPC"], val["OtherAddrRPC"]
	elt := val["ELT"]
	if !c.Expect(local != nil && others != nil && elt != nil && val["LocalAddrAPI"] != nil, "config", "addresses", where(c, f), "there are no configured addresses") {
		return
	}
	c.Expect(local != val["LocalAddrAPI"], "config", "own address of the API", pos("LocalAddrAPI"), "the node and its web API have the same address")
	in := false
	if n, ok := t.Len(others, last["ELT"]).V, others.Op == eng.OpSlice; ok && n != nil {
		k, _ := n.IntConst()
		for i := int64(0); i < k; i++ {
			et := eng.ElemType(others.Typ)
			if t.LoadAt(t.ElemLoc(others, t.Int(i), et), et, last["ELT"]) == local {
				in = true
			}
		}
	}
	c.Expect(in, "config", "network", pos("OtherAddrRPC"), "the configured network does not include the node itself")
	c.Expect(fieldTerm(t, elt, "LocalAddr") == local, "config", "ELT.LocalAddr", pos("ELT"), "the event loop works for %v instead of the local node", fieldTerm(t, elt, "LocalAddr"))
	c.Expect(fieldTerm(t, elt, "RemoteAddrs") == others, "config", "ELT.RemoteAddrs", pos("ELT"), "the event loop works with %v instead of the configured network", fieldTerm(t, elt, "RemoteAddrs"))
	for _, w := range []struct{ name, fn string }{{"KNN_SEARCH_FUNC", "KNNCos"}, {"KFN_SEARCH_FUNC", "KFNCos"}} {
		x := val[w.name]
		ok := x != nil && x.Op == eng.OpFunc && x.V.Fn != nil && eng.FuncPkgPath(x.V.Fn) == pSearch && x.V.Fn.Name() == w.fn
		c.Expect(ok, "config", w.name, pos(w.name), "the configured search is %v, while the rest of the system works with %s", x, w.fn)
	}
	num := func(n string) (int64, bool) {
		x := fieldTerm(t, elt, n)
		if x == nil || x.V == nil {
			return 0, false
		}
		return x.V.IntConst()
	}
	for _, k := range []string{"Split", "Merge"} {
		lo, ok1 := num(k + "CentroidsMin")
		hi, ok2 := num(k + "CentroidsMax")
		if ok1 && ok2 {
			c.Expect(lo+1 < hi, "config", k+" range", pos("ELT"), "no size is between %d and %d", lo, hi)
		} else {
			c.OK("config", k+" range", pos("ELT"))
		}
	}
}

// keeps: which fields of what a constructor makes keep which of its arguments.
func (c *C) keeps(pkg, name, typ string, want []string) map[string]string {
	f := c.Func(pkg, name)
	g := c.Flat(f, "L1")
	if g == nil {
		c.Bad("kept", name, "-", "there is no %s", name)
		return nil
	}
	t := g.Terms()
	m := map[string]string{}
	n := 0
	argOf := func(x *eng.Term) string {
		if x == nil || len(g.Params) != 1 {
			return ""
		}
		st, ok := g.Params[0].Typ.Underlying().(*types.Struct)
		if !ok {
			return ""
		}
		for i := 0; i < st.NumFields(); i++ {
			if t.Project(t.Of(g.Params[0]), i, st.Field(i).Type()) == x {
				return st.Field(i).Name()
			}
		}
		return ""
	}
	// whatever is made: on each way out that says so
	s := &Sim{G: g, T: t}
	for _, e := range g.Exits {
		for _, a := range e.Args {
			s.Track = append(s.Track, t.Of(a))
		}
	}
	var funcs []*eng.Term
	for _, w := range []string{"KNNSearchFunc", "KFNSearchFunc"} {
		x := fieldTerm(t, t.Of(g.Params[0]), w)
		if x == nil {
			c.Bad("kept", name, where(c, f), "there is no argument %s", w)
			return nil
		}
		funcs = append(funcs, t.Bin(eqTok, x, t.Zero(x.Typ), boolT))
	}
	s.Track = append(s.Track, funcs...)
	s.Exit = func(e *St, ret *eng.Val) {
		if len(ret.Args) != 2 {
			c.Bad("kept", name, ret.Where(), "does not tell whether something was made")
			return
		}
		made := e.Resolve(t.Of(ret.Args[1]))
		missing, unknown := false, false
		for _, q := range funcs {
			if val, known := e.Truth(q); known && val {
				missing = true
			} else if !known {
				unknown = true
			}
		}
		b, isConst := boolConst(made)
		if !isConst {
			b, isConst = e.Truth(made)
		}
		c.Expect(isConst, "kept", name+" tells", ret.Where(), "unknown whether something was made (path %s)", e.Path())
		if !isConst {
			return
		}
		if !b {
			c.Expect(missing, "kept", name+" refuses", ret.Where(), "refuses to make one although nothing is missing (path %s)", e.Path())
			return
		}
		c.Expect(!missing && !unknown, "kept", name+" complete", ret.Where(), "makes one without its search functions (path %s)", e.Path())
		r := e.Resolve(t.Of(ret.Args[0]))
		st, ok := r.Typ.Underlying().(*types.Struct)
		if !ok {
			return
		}
		n++
		for i := 0; i < st.NumFields(); i++ {
			x := e.Resolve(t.Project(r, i, st.Field(i).Type()))
			if a := argOf(x); a != "" {
				if o, ok := m[st.Field(i).Name()]; ok && o != a {
					a = "?"
				}
				m[st.Field(i).Name()] = a
			}
		}
	}
	s.Run()
	c.States += s.States
	if s.Overflow || n == 0 {
		c.Bad("kept", name, where(c, f), "cannot follow how one is made")
		return nil
	}
	for _, w := range want {
		var in []string
		for k, a := range m {
			if a == w {
				in = append(in, k)
			}
		}
		if !c.Expect(len(in) > 0, "kept", name+" "+w, where(c, f), "what is made does not keep the %s it was given", w) {
			continue
		}
		for _, k := range in {
			if k == "DataPoints" || k == "Centroids" {
				continue
			}
			c.Expect(c.P.ConstantField(pkg+"."+typ, k), "kept", typ+"."+k, where(c, f), "the %s may change later", w)
		}
	}
	return m
}

var strT = types.Typ[types.String]

func structUnder(tp types.Type) *types.Struct {
	if p := pointee(tp); p != nil {
		tp = p
	}
	st, _ := tp.Underlying().(*types.Struct)
	return st
}

func strConst(x *eng.Term) (string, bool) {
	if x.Op == eng.OpConst && x.V != nil && x.V.Const != nil && x.V.Const.Kind() == constant.String {
		return constant.StringVal(x.V.Const), true
	}
	return "", false
}

func boolConst(x *eng.Term) (bool, bool) {
	if x.Op == eng.OpConst && x.V != nil && x.V.Const != nil {
		switch x.V.Const.ExactString() {
		case "true":
			return true, true
		case "false":
			return false, true
		}
	}
	if x.Op == eng.OpZero {
		return false, true
	}
	return false, false
}

func (c *C) managerKeeps() map[string]string {
	return c.keeps(pCM, "NewCentroidManager", "CentroidManager", []string{"InitCap", "CentroidDPThreshold", "KNNSearchFunc", "KFNSearchFunc"})
}

func (c *C) centroidKeeps() {
	c.keeps(pCent, "NewCentroid", "Centroid", []string{"KNNSearchFunc", "KFNSearchFunc"})
}

// handsDown: a new centroid of a manager gets what the manager was made with.
func (c *C) handsDown(m map[string]string) {
	seen := map[string]bool{}
	for _, f := range c.P.Methods(pCM, "CentroidManager") {
		if !exported(f) {
			continue
		}
		g := c.Flat(f, "L2")
		if g == nil {
			continue
		}
		t := g.Terms()
		g.Each(func(v *eng.Val) {
			if Callee(v) != "centroid.NewCentroid" {
				return
			}
			if w := v.Where(); seen[w] {
				return
			} else {
				seen[w] = true
			}
			arg := t.Of(v.Args[0])
			for _, k := range []string{"InitCap", "KNNSearchFunc", "KFNSearchFunc"} {
				x := fieldTerm(t, arg, k)
				from := ""
				if x != nil && x.Op == eng.OpLoad && x.Path != nil && x.Path.Root == t.Of(g.Params[0]) && len(x.Path.Steps) == 1 {
					_, fl := x.Path.LastField()
					from = m[fl]
				}
				c.Expect(from == k, "inherited", k, v.Where(), "the %s of a new centroid is %v instead of the one of its manager", k, x)
			}
		})
	}
}

// grows: a centroid that has grown over the limit is split.
func (c *C) grows(m map[string]string) {
	f := c.Method(pCM, "CentroidManager", "AddDataPoint")
	g := c.Flat(f, "L2")
	if g == nil {
		c.Bad("threshold", "AddDataPoint", "-", "there is no AddDataPoint")
		return
	}
	t := g.Terms()
	limit := func(x *eng.Term) bool {
		if x.Op != eng.OpLoad || x.Path == nil || x.Path.Root != t.Of(g.Params[0]) || len(x.Path.Steps) != 1 {
			return false
		}
		_, fl := x.Path.LastField()
		return m[fl] == "CentroidDPThreshold"
	}
	size := func(x *eng.Term) bool {
		return x.Op == eng.OpCall && (Callee(x.V) == "Centroid.LenDP" || x.V.Fn != nil && x.V.Fn.Name() == "LenDP") || x.Op == eng.OpLen && listOfDPs(x)
	}
	// a number compared with the limit: size - limit < k
	over := func(x *eng.Term) (int64, int64, bool) {
		if x.Op != eng.OpBin || x.Aux != "<" {
			return 0, 0, false
		}
		l, k0 := t.Lin(x.Args[0])
		r, k1 := t.Lin(x.Args[1])
		var cs, cl int64
		for y, k := range l {
			switch {
			case limit(y):
				cl += k
			case size(y):
				cs += k
			case k != 0:
				return 0, 0, false
			}
		}
		for y, k := range r {
			switch {
			case limit(y):
				cl -= k
			case size(y):
				cs -= k
			case k != 0:
				return 0, 0, false
			}
		}
		if cs == 1 && cl == -1 || cs == -1 && cl == 1 {
			return cs, k1 - k0, true
		}
		return 0, 0, false
	}
	compared := 0
	split := 0
	ok := true
	s := &Sim{G: g, T: t, Start: "...."}
	// 0: added to an existing centroid, 1: over the limit, 2: halved, 3: listed
	set := func(e *St, i int, b byte) {
		r := []byte(e.A)
		r[i] = b
		e.A = string(r)
	}
	g.EachOwn(func(v *eng.Val) {
		if v.Op == eng.OpBin {
			if _, _, is := over(t.Of(v)); is {
				s.Track = append(s.Track, t.Of(v))
			}
		}
	})
	for _, e := range g.Exits {
		s.Track = append(s.Track, t.Of(e.Args[0]))
	}
	s.Branch = func(e *St, cond *eng.Term, val bool) {
		cs, k, is := over(cond)
		if !is {
			if noSplit(t, cond, val, limit, size) {
				set(e, 3, 'e')
			}
			return
		}
		compared++
		// cs=1: size-limit < k; cs=-1: limit-size < k
		big, exact := false, false
		if cs == 1 {
			big, exact = !val, k == 0 || k == 1
		} else {
			big, exact = val, k == 1 || k == 0
		}
		if !exact {
			ok = false
			c.Bad("threshold", "limit", where(c, f), "splits at another size than the configured one (path %s)", e.Path())
		}
		if big {
			set(e, 1, 'y')
		} else {
			set(e, 1, 'n')
		}
	}
	s.Event = func(e *St, v *eng.Val) {
		switch {
		case Callee(v) == "Centroid.DrainUnordered":
			x := e.Resolve(t.Of(v.Args[1]))
			if halved(x, func(y *eng.Term) bool { return limit(y) || size(y) }) {
				set(e, 2, 'y')
			} else {
				set(e, 2, 'o')
			}
		case v.Op == eng.OpStore:
			p := t.PathOf(v.Args[0])
			if p == nil {
				return
			}
			if _, fl := p.LastField(); fl == "Centroids" && e.A[2] != '.' {
				set(e, 3, 'y')
			}
		case Callee(v) == "Centroid.AddDataPoint" && e.A[2] == '.':
			set(e, 0, 'y')
		}
	}
	s.Exit = func(e *St, ret *eng.Val) {
		if b, is := boolConst(e.Resolve(t.Of(ret.Args[0]))); is && !b {
			return
		}
		switch {
		case e.A[1] == 'y' && e.A[2] == '.':
			if e.A[3] != 'e' {
				ok = false
				c.Bad("threshold", "split", ret.Where(), "a centroid over the limit is not split (path %s)", e.Path())
			} else {
				split++
			}
		case e.A[1] == 'y' && (e.A[2] == 'o' || e.A[3] != 'y'):
			ok = false
			c.Bad("threshold", "split", ret.Where(), "a centroid over the limit is not split in two halves (path %s)", e.Path())
		case e.A[1] == 'y':
			split++
		case e.A[1] == 'n' && e.A[2] != '.':
			ok = false
			c.Bad("threshold", "kept", ret.Where(), "a centroid within the limit is split (path %s)", e.Path())
		}
	}
	s.Run()
	c.States += s.States
	if s.Overflow {
		c.Bad("threshold", "AddDataPoint", where(c, f), "too many paths")
		return
	}
	c.Expect(compared > 0, "threshold", "size checked", where(c, f), "the size of a centroid is never compared with the limit")
	if ok {
		c.Expect(split > 0, "threshold", "split", where(c, f), "no centroid is ever split")
	}
}

func listOfDPs(x *eng.Term) bool {
	return len(x.Args) > 0 && x.Args[0].Typ != nil && eng.ElemType(x.Args[0].Typ) != nil && eng.TypeName(eng.ElemType(x.Args[0].Typ)) == pCommon+".DataPoint"
}

// halved: half of something.
func halved(x *eng.Term, of func(*eng.Term) bool) bool {
	if x.Op == eng.OpBin && x.Aux == "/" && of(x.Args[0]) {
		k, ok := x.Args[1].V.IntConst()
		return ok && k == 2
	}
	if x.Op == eng.OpBin && x.Aux == ">>" && of(x.Args[0]) {
		k, ok := stripConv(x.Args[1]).V.IntConst()
		return ok && k == 1
	}
	return false
}

// noSplit: a condition that says that there is nothing to halve, or that a position is
// none of the list.
func noSplit(t *eng.Terms, x *eng.Term, val bool, limit, size func(*eng.Term) bool) bool {
	if x.Op != eng.OpBin || x.Aux != "<" {
		return false
	}
	l, l0 := t.Lin(x.Args[0])
	r, r0 := t.Lin(x.Args[1])
	k := r0 - l0
	if len(r) > 0 {
		return false
	}
	sum := map[string]int64{}
	n := 0
	for y, a := range l {
		if a == 0 {
			continue
		}
		n++
		switch {
		case limit(y):
			sum["limit"] += a
		case halved(y, func(z *eng.Term) bool { return limit(z) || size(z) }):
			sum["half"] += a
		case y.Op == eng.OpLen && !size(y):
			sum["list"] += a
		case y.Op == eng.OpLoad && y.Path != nil && y.Path.Root.Op == eng.OpCall && isSearch(y.Path.Root.V):
			sum["pos"] += a
		default:
			return false
		}
	}
	switch {
	case n == 1 && sum["half"] == 1, n == 1 && sum["limit"] == 1:
		return val && k <= 1+sum["limit"]
	case n == 1 && sum["half"] == -1, n == 1 && sum["limit"] == -1:
		return !val && k >= sum["limit"]
	case n == 1 && sum["pos"] == 1:
		return val && k <= 0
	case n == 1 && sum["pos"] == -1:
		return !val && k >= 1
	case n == 2 && sum["pos"] == 1 && sum["list"] == -1:
		return !val && k >= 0
	case n == 2 && sum["pos"] == -1 && sum["list"] == 1:
		return val && k <= 1
	}
	return false
}

// apiServes: the web API listens where it was told to and serves the network it was given.
func (c *C) apiServes() {
	f := c.Func(pAPI, "Start")
	g := c.Flat(f, "L3")
	if g == nil {
		c.Bad("served", "Start", "-", "there is no Start")
		return
	}
	t := g.Terms()
	p := t.Of(g.Params[0])
	addr, nw := fieldTerm(t, p, "Addr"), fieldTerm(t, p, "RPCAddrs")
	if addr == nil || nw == nil {
		c.Bad("served", "Start", where(c, f), "there is no address or network to serve")
		return
	}
	n := 0
	noNet := t.Bin(eqTok, nw, t.Zero(nw.Typ), boolT)
	var serving []*eng.Val
	g.Each(func(v *eng.Val) {
		switch Callee(v) {
		case "(*net/http.Server).ListenAndServe":
			serving = append(serving, v)
			st := t.PtrLoc(t.Of(v.Args[0]))
			at := pointee(v.Args[0].Typ)
			x := t.LoadAt(t.FieldLoc(st, at, "Addr"), strT, v)
			c.Expect(isAddrText(t, x, addr, v), "served", "address", v.Where(), "listens at %v instead of the configured address", x)
			for _, k := range []string{"ReadTimeout", "WriteTimeout"} {
				w := fieldTerm(t, p, k)
				if w == nil {
					continue
				}
				x := t.LoadAt(t.FieldLoc(st, at, k), w.Typ, v)
				c.Expect(x == w, "served", k, v.Where(), "the %s is %v instead of the configured one", k, x)
			}
		case "net/http.ListenAndServe":
			serving = append(serving, v)
			x := t.Of(v.Args[0])
			c.Expect(isAddrText(t, x, addr, v), "served", "address", v.Where(), "listens at %v instead of the configured address", x)
		}
		if v.Op == eng.OpStore && types.Identical(v.Args[1].Typ, nw.Typ) {
			if pk := eng.FuncPkgPath(v.Ctx.Fn); pk == pDps || pk == pNodes {
				return // what an operation that a handler calls does with its arguments
			}
			if a := t.Of(v.Args[0]); a.Op == eng.OpFieldAddr {
				n++
				c.Expect(t.Of(v.Args[1]) == nw, "served", "network", v.Where(), "serves the nodes %v instead of the configured network", t.Of(v.Args[1]))
			}
		}
	})
	c.Expect(n > 0, "served", "network given", where(c, f), "the handlers do not get the configured network")
	if !c.Expect(len(serving) == 1, "served", "serves", where(c, f), "serves %d times", len(serving)) {
		return
	}
	v := serving[0]
	s := &Sim{G: g, T: t, Track: []*eng.Term{noNet}}
	ok, reached := true, false
	s.Event = func(e *St, w *eng.Val) {
		if w == v {
			reached = true
			val, known := e.Truth(noNet)
			ok = ok && known && !val
		}
	}
	s.Run()
	c.States += s.States
	c.Expect(ok && reached && !s.Overflow, "served", "checked", v.Where(), "serves without a network of nodes")
	// the outcome is reported
	res := t.Bin(eqTok, t.Of(v), t.Zero(v.Typ), boolT)
	s = &Sim{G: g, T: t, Track: []*eng.Term{noNet, res}}
	for _, e := range g.Exits {
		s.Track = append(s.Track, t.Of(e.Args[0]))
	}
	s.Event = func(e *St, w *eng.Val) {
		if w == v {
			e.A = "s"
		}
	}
	s.Exit = func(e *St, ret *eng.Val) {
		x := e.Resolve(t.Of(ret.Args[0]))
		ok := x == t.Of(v)
		if !ok {
			q := t.Bin(eqTok, x, t.Zero(x.Typ), boolT)
			isNil, known := boolConst(q)
			if !known {
				isNil, known = e.Truth(q)
			}
			served, told := e.Truth(res)
			ok = known && !isNil || e.A == "s" && told && served
		}
		c.Expect(ok, "served", "outcome", ret.Where(), "may report success although nothing is served (path %s)", e.Path())
	}
	s.Run()
	c.States += s.States
}

// noReturn: calls that end the program.
func noReturn(v *eng.Val) bool {
	switch Callee(v) {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln":
		return true
	}
	return false
}

// isAddrText: the text of an address.
func isAddrText(t *eng.Terms, x, addr *eng.Term, at *eng.Val) bool {
	if x == nil {
		return false
	}
	if x.Op == eng.OpCall && x.V != nil && strings.HasSuffix(Callee(x.V), ".ToStr") && len(x.V.Args) > 0 {
		r := t.Of(x.V.Args[0])
		if r == addr {
			return true
		}
		if pl := t.PtrLoc(r); pl != nil && pointee(r.Typ) != nil {
			return t.LoadAt(pl, pointee(r.Typ), x.V) == addr
		}
	}
	return false
}

// nodeListens: a node listens at its address and serves its own table.
func (c *C) nodeListens() {
	nf, lf := c.Func(pRPC, "NewKMeansServer"), c.Func(pRPC, "StartListen")
	g, lg := c.Flat(nf, "L4"), c.Flat(lf, "L4")
	if g == nil || lg == nil {
		c.Bad("listens", "node", "-", "there is no way to make or start a node")
		return
	}
	t := g.Terms()
	// what the node keeps
	addrF, facF := "", ""
	for _, e := range g.Exits {
		r := t.Of(e.Args[0])
		pl, st := t.PtrLoc(r), structUnder(r.Typ)
		if pl == nil || st == nil {
			c.Bad("listens", "node made", e.Where(), "unknown what is made")
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			fl := st.Field(i)
			x := t.LoadAt(t.FieldLoc(pl, pointee(r.Typ), fl.Name()), fl.Type(), e)
			switch {
			case x == t.Of(g.Params[0]):
				addrF = fl.Name()
			case x == t.Of(g.Params[1]):
				facF = fl.Name()
			case fl.Name() == "Table":
				tb := structUnder(fl.Type())
				ok := x.Op == eng.OpAlloc && tb != nil
				if ok {
					for j := 0; j < tb.NumFields(); j++ {
						if _, is := tb.Field(j).Type().Underlying().(*types.Map); is {
							y := t.LoadAt(t.FieldLoc(t.PtrLoc(x), pointee(x.Typ), tb.Field(j).Name()), tb.Field(j).Type(), e)
							ok = ok && y.Op == eng.OpMakeMap
						}
					}
				}
				c.Expect(ok, "listens", "table", e.Where(), "a new node has no table to keep namespaces in")
			}
		}
	}
	c.Expect(addrF != "", "listens", "address kept", where(c, nf), "a node does not keep its address")
	c.Expect(facF != "", "listens", "factory kept", where(c, nf), "a node does not keep the function that makes managers")
	sn := pRPC + ".KMeansServer"
	if addrF != "" {
		c.Expect(c.P.ConstantField(sn, addrF), "listens", "address fixed", where(c, nf), "the address of a node may change")
	}
	lt := lg.Terms()
	s := lt.Of(lg.Params[0])
	n := 0
	var handlers []*eng.Term
	lg.Each(func(v *eng.Val) {
		switch Callee(v) {
		case "net.Listen":
			n++
			x := lt.Of(v.Args[1])
			ok := false
			if x.Op == eng.OpLoad && x.Path != nil && x.Path.Root == s && len(x.Path.Steps) == 1 {
				_, fl := x.Path.LastField()
				ok = fl == addrF
			}
			nw, _ := strConst(lt.Of(v.Args[0]))
			c.Expect(ok && nw == "tcp", "listens", "address", v.Where(), "listens at %v %v instead of the address of the node", lt.Of(v.Args[0]), x)
		case "(*net/rpc.Server).Register":
			if unwrapIface(lt.Of(v.Args[1])) == s {
				handlers = append(handlers, lt.Of(v.Args[0]))
			}
		}
	})
	c.Expect(n == 1, "listens", "listens", where(c, lf), "listens %d times", n)
	c.Expect(len(handlers) == 1, "listens", "registered", where(c, lf), "the node is registered %d times", len(handlers))
	served := 0
	lg.Each(func(v *eng.Val) {
		if Callee(v) != "(*net/rpc.Server).ServeConn" {
			return
		}
		served++
		x := lt.Of(v.Args[0])
		c.Expect(len(handlers) == 1 && x == handlers[0], "listens", "served", v.Where(), "connections are served by %v instead of the node", x)
	})
	c.Expect(served > 0, "listens", "serving", where(c, lf), "connections are not served")
}

func init() {
	register("P31", checkP31, Desc{
		How: "Value flow from the configured variables: the service entry point, the function it makes managers with, the constructors, the start of the web API and of the node are flattened, and every value that arrives at a part (address, network, capacity, limit, search functions) is traced to the variable or argument it comes from. The initialiser of the configuration is evaluated symbolically. The split at the configured size is followed along all paths of AddDataPoint.",
		Rules: map[string]string{
			"service":   "the node, its event loop and the web API each get their own settings; the node listens (successfully) and its event loop runs before the web API blocks, and neither is stopped before it ends; the managers of a node are made with the configured capacity, limit and search functions, for the vector in question",
			"config":    "the default configuration fits together: the event loop works for the local node and the configured network, which includes the local node; node and web API have different addresses; the nearest and furthest search are those of the measure used everywhere else; the ranges are not empty",
			"kept":      "a constructor refuses exactly if a search function is missing and otherwise keeps what it was given, for good",
			"inherited": "a new centroid gets the capacity and the search functions of its manager",
			"threshold": "a centroid that has grown to the configured size is split in half and both halves are kept, a smaller one is not split",
			"served":    "the web API listens at its address with its timeouts, gives its network to the handlers, refuses to run without one and reports the outcome",
			"listens":   "a node listens at the address it was made with and serves itself on every connection",
		},
		Assumes: []string{"there is one program that starts the web API"},
	})
}
