package rules

import (
	"go/types"
	"strings"

	"trypocheck/eng"
)

// Operations that concern all namespaces of a node.
var allNamespaces = map[string]bool{"Namespaces": true, "Meta": true}

func isManagerPtr(tp types.Type) bool {
	p, ok := tp.Underlying().(*types.Pointer)
	return ok && eng.TypeName(p.Elem()) == pCM+".CentroidManager"
}

func isSlotPtr(tp types.Type) bool {
	p, ok := tp.Underlying().(*types.Pointer)
	return ok && eng.TypeName(p.Elem()) == pRPC+".CManagerSlot"
}

func checkP06(c *C) {
	addrF, nsF, _ := c.clientFields()
	c.Expect(nsF != "", "client-keeps", "KMeansClient", "-", "KMeansClient does not keep the namespace it is given")
	if nsF != "" {
		c.Expect(c.P.ConstantField(pRPC+".kmeansClient", nsF), "client-keeps", "namespace", "-", "the namespace of a client is changed after it was made")
		c.Expect(addrF != "" && c.P.ConstantField(pRPC+".kmeansClient", addrF), "client-keeps", "address", "-", "the address of a client is changed after it was made")
	}
	sms := c.serverMethods()
	cms := map[string]*clientM{}
	for _, m := range c.clientMethods() {
		if m.Op != "" {
			cms[strings.TrimPrefix(m.Op, "KMeansServer.")] = m
		}
	}
	for n, sm := range sms {
		cm := cms[n]
		if allNamespaces[n] {
			c.readsAll(sm)
			continue
		}
		if cm == nil {
			continue // unreachable through the client
		}
		isNS := func(x *eng.Term) bool { return isClientField(cm, sent(cm, sm, x), nsF) }
		c.onlyNamespace(sm, isNS)
	}
	c.tableByName()
	c.namespacesInLoop()
	c.namespacesInDps()
	c.namespacesInAPI()
	c.Min("client-keeps", 3)
	c.Min("lookup", 20)
	c.Min("op", 15)
	c.Min("forward", 4)
	c.Min("table", 2)
	c.Min("duty", 10)
	c.Min("helper", 6)
	c.Min("request", 5)
}

// ownManager tells why a manager is not that of the wanted namespace (or a fresh one).
func ownManager(t *eng.Terms, x *eng.Term, isNS func(*eng.Term) bool) string {
	for _, y := range t.Leaves(x, nil) {
		switch y.Op {
		case eng.OpCall:
			if y.V.Dyn {
				continue
			}
		case eng.OpAlloc:
			continue
		case eng.OpZero:
			continue
		}
		k := managerKey(t, y)
		if k == nil {
			return "the manager " + y.String() + " is not looked up by name"
		}
		if !isNS(k) {
			return "the manager is that of namespace " + k.String()
		}
	}
	return ""
}

func (c *C) onlyNamespace(sm *serverM, isNS func(*eng.Term) bool) {
	t := sm.T
	n := 0
	sm.G.Each(func(v *eng.Val) {
		switch v.Op {
		case eng.OpLookup:
			if isSlots(t.Of(v.Args[0])) {
				n++
				c.Expect(isNS(t.Of(v.Args[1])), "lookup", sm.Name, v.Where(), "looks the namespace %v up and not the one of the request", t.Of(v.Args[1]))
			}
		case eng.OpMapUpdate:
			if isSlots(t.Of(v.Args[0])) {
				n++
				c.Expect(isNS(t.Of(v.Args[1])), "lookup", sm.Name+" new", v.Where(), "creates the namespace %v and not the one of the request", t.Of(v.Args[1]))
				slot := t.Of(v.Args[2])
				cmT := types.Type(nil)
				if pt, ok := slot.Typ.Underlying().(*types.Pointer); ok && isSlotPtr(slot.Typ) {
					st := pt.Elem().Underlying().(*types.Struct)
					for i := 0; i < st.NumFields(); i++ {
						if isManagerPtr(st.Field(i).Type()) {
							cmT = st.Field(i).Type()
							x := t.LoadAt(t.FieldLoc(t.PtrLoc(slot), pt.Elem(), st.Field(i).Name()), cmT, v)
							ok := slot.Op == eng.OpAlloc && (x.Op == eng.OpAlloc || x.Op == eng.OpCall && x.V.Dyn)
							c.Expect(ok, "lookup", sm.Name+" new manager", v.Where(), "the new namespace gets the manager %v, which is not a new one", x)
						}
					}
				}
			}
		case eng.OpRange:
			if isSlots(t.Of(v.Args[0])) {
				c.Bad("lookup", sm.Name, v.Where(), "runs through all namespaces")
			}
		case eng.OpDelete:
			if isSlots(t.Of(v.Args[0])) {
				c.Bad("lookup", sm.Name, v.Where(), "removes a namespace")
			}
		case eng.OpLoad, eng.OpStore:
			p := t.PathOf(v.Args[0])
			if p != nil && len(p.Steps) > 0 && p.Root.Typ != nil && isManagerPtr(p.Root.Typ) {
				why := ownManager(t, p.Root, isNS)
				c.Expect(why == "", "op", sm.Name+" field "+p.Steps[0].Name, v.Where(), "%s", why)
			}
		case eng.OpCall, eng.OpGo:
			if v.Op == eng.OpGo && v.Sub != nil {
				return
			}
			name := Callee(v)
			if strings.HasPrefix(name, "CentroidManager.") {
				why := ownManager(t, t.Of(v.Args[0]), isNS)
				c.Expect(why == "", "op", sm.Name+" "+name, v.Where(), "%s", why)
			}
			if name == "rpc.KMeansClient" {
				c.Expect(isNS(t.Of(v.Args[1])), "forward", sm.Name, v.Where(), "the other node is asked about the namespace %v and not the one of the request", t.Of(v.Args[1]))
			}
		}
	})
	if n == 0 {
		c.Bad("lookup", sm.Name, where(c, sm.Fn), "the namespace of the request is never looked up")
	}
}

// readsAll: an operation about all namespaces changes none.
func (c *C) readsAll(sm *serverM) {
	t := sm.T
	ok := true
	sm.G.Each(func(v *eng.Val) {
		switch v.Op {
		case eng.OpMapUpdate, eng.OpDelete:
			if isSlots(t.Of(v.Args[0])) {
				ok = false
				c.Bad("reads", sm.Name, v.Where(), "changes the table of namespaces")
			}
		case eng.OpStore:
			p := t.PathOf(v.Args[0])
			if p != nil && p.Root.Typ != nil && isManagerPtr(p.Root.Typ) && p.Root.Op != eng.OpAlloc {
				ok = false
				c.Bad("reads", sm.Name, v.Where(), "changes data of a namespace")
			}
		case eng.OpCall, eng.OpGo:
			if v.Op == eng.OpGo && v.Sub != nil {
				return
			}
			n := Callee(v)
			if isStoreOp(n) && !pureOps[n] || n == "rpc.KMeansClient" {
				ok = false
				c.Bad("reads", sm.Name, v.Where(), "runs %s without having been given a namespace", n)
			}
		}
	})
	if ok {
		c.OK("reads", sm.Name, where(c, sm.Fn))
	}
}

// tableByName: the table finds and registers under exactly the given name.
func (c *C) tableByName() {
	for _, n := range []string{"Access", "AddSlot"} {
		f := c.Method(pRPC, "CManagerTable", n)
		g := c.Flat(f, "L3")
		if g == nil {
			continue
		}
		t := g.Terms()
		p := t.Of(g.Params[1])
		cnt := 0
		g.Each(func(v *eng.Val) {
			switch v.Op {
			case eng.OpLookup, eng.OpMapUpdate:
				if isSlots(t.Of(v.Args[0])) {
					cnt++
					c.Expect(t.Of(v.Args[1]) == p, "table", n, v.Where(), "uses the namespace %v instead of the given one", t.Of(v.Args[1]))
				}
				if v.Op == eng.OpMapUpdate && isSlots(t.Of(v.Args[0])) {
					c.Expect(t.Of(v.Args[2]) == t.Of(g.Params[2]), "table", n+" slot", v.Where(), "registers %v instead of what it is given", t.Of(v.Args[2]))
				}
			case eng.OpRange:
				if isSlots(t.Of(v.Args[0])) {
					c.Bad("table", n, v.Where(), "runs through all namespaces")
				}
			case eng.OpCall:
				if v.Dyn && n == "Access" {
					why := ownManager(t, t.Of(v.Args[1]), func(x *eng.Term) bool { return x == p })
					c.Expect(why == "", "table", n+" manager", v.Where(), "%s", why)
				}
			}
		})
		if cnt == 0 {
			c.Bad("table", n, where(c, f), "does not use the table")
		}
	}
}

// namespaceName: x is one of the names of namespaces that nodes report.
func namespaceName(g *eng.Graph, t *eng.Terms, x *eng.Term) (string, *Cover) {
	for _, l := range loopsAround(g) {
		cv := cover(t, l)
		if cv == nil {
			continue
		}
		if isKeyOf(cv, x) && cv.List.Typ != nil {
			if m, ok := cv.List.Typ.Underlying().(*types.Map); ok && isString(m.Key()) {
				return "", cv
			}
		}
		cv = cv.over(t, x)
		if f, ok := cv.ElemOf(t, x); ok && len(f) == 0 {
			return namesList(g, t, cv.List), cv
		}
	}
	return "it is " + x.String(), nil
}

// loopsAround lists the loops of a graph and of those that started it.
func loopsAround(g *eng.Graph) []*eng.Loop {
	var r []*eng.Loop
	for ; g != nil; g = g.Parent {
		r = append(r, g.Loops()...)
	}
	return r
}

func isString(tp types.Type) bool {
	b, ok := tp.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// namesList: x is a list of names of namespaces.
func namesList(g *eng.Graph, t *eng.Terms, x *eng.Term) string {
	if x.Op == eng.OpCall && Callee(x.V) == "kmeansClient.Namespaces" {
		return ""
	}
	src := listSrc(t, x)
	for _, b := range src.Bases {
		if b.Op == eng.OpCall && Callee(b.V) == "kmeansClient.Namespaces" {
			continue
		}
		if !emptyList(b) && b.Op != eng.OpMakeSlice {
			return "its list comes from " + b.String()
		}
	}
	for _, sp := range src.Spreads {
		if why := namesList(g, t, sp.X); why != "" {
			return why
		}
	}
	for _, e := range src.Elems {
		if why, _ := namespaceName(g, t, e.X); why != "" {
			return why
		}
	}
	if len(src.Elems) == 0 && len(src.Spreads) == 0 && len(src.Bases) > 0 {
		if m, why := mapLoop(g, t, x, nil); m != nil {
			for _, el := range m.Elems {
				if w, _ := namespaceName(g, t, el); w != "" {
					return w
				}
			}
			return ""
		} else {
			return why
		}
	}
	return ""
}

// namespacesInLoop: the event loop works on the namespaces that nodes report.
func (c *C) namespacesInLoop() {
	for _, en := range c.entries("L4", pEL) {
		g, t := en.G, en.G.Terms()
		g.EachOwn(func(v *eng.Val) {
			if v.Op != eng.OpCall && v.Op != eng.OpGo {
				return
			}
			if Callee(v) != "rpc.KMeansClient" {
				return
			}
			ns := t.Of(v.Args[1])
			used := clientUses(g, v)
			all := len(used) > 0
			for _, u := range used {
				if !allNamespaces[strings.TrimPrefix(Callee(u), "kmeansClient.")] {
					all = false
				}
			}
			if all {
				c.OK("duty", en.Name+" all", v.Where())
				return
			}
			why, _ := namespaceName(g, t, ns)
			if why != "" && ns.Op == eng.OpParam {
				// a helper that is given the namespace
				why = ""
			}
			c.Expect(why == "", "duty", en.Name, v.Where(), "the namespace is not one that a node reported: %s", why)
		})
	}
}

// clientUses lists the calls on a client.
func clientUses(g *eng.Graph, cl *eng.Val) []*eng.Val {
	root := g
	for root.Parent != nil {
		root = root.Parent
	}
	var r []*eng.Val
	root.Each(func(v *eng.Val) {
		if (v.Op == eng.OpCall || v.Op == eng.OpGo && v.Sub == nil) && strings.HasPrefix(Callee(v), "kmeansClient.") {
			if x := v.Graph().Terms().Of(v.Args[0]); x.V == cl {
				r = append(r, v)
			}
		}
	})
	return r
}

// namespacesInDps: the data and node helpers use the namespace they are given.
func (c *C) namespacesInDps() {
	for _, en := range c.entries("L4", pDps, pNodes) {
		g, t := en.G, en.G.Terms()
		root := g
		for root.Parent != nil {
			root = root.Parent
		}
		if !exported(en.Fn) || len(root.Params) == 0 {
			continue
		}
		p0 := t.Of(root.Params[0])
		want := fieldTerm(t, p0, "Namespace")
		g.EachOwn(func(v *eng.Val) {
			if v.Op != eng.OpCall && v.Op != eng.OpGo || Callee(v) != "rpc.KMeansClient" {
				return
			}
			ns := t.Of(v.Args[1])
			c.Expect(want != nil && ns == want, "helper", en.Name, v.Where(), "uses the namespace %v instead of the one it was given", ns)
		})
	}
}

// namespacesInAPI: the handlers use the namespace of the request.
func (c *C) namespacesInAPI() {
	for _, en := range c.entries("api", pAPI) {
		g, t := en.G, en.G.Terms()
		g.EachOwn(func(v *eng.Val) {
			if v.Op != eng.OpCall || !isPut(Callee(v)) && !isGet(Callee(v)) {
				return
			}
			x := fieldTerm(t, t.Of(v.Args[0]), "Namespace")
			_, p, why := decoded(t, x)
			c.Expect(why == "" && p == "namespace", "request", en.Name+" "+Callee(v), v.Where(), "the namespace is not the one of the request: %s%s", why, p)
		})
		for _, v := range Calls(g, is("rpc.KMeansClient")) {
			_, p, why := decoded(t, t.Of(v.Args[1]))
			c.Expect(why == "" && p == "namespace", "request", en.Name+" client", v.Where(), "the namespace is not the one of the request: %s%s", why, p)
		}
	}
}

func init() {
	register("P06", checkP06, Desc{
		How: "The key of every access to the table of namespaces is traced back: in the server's operations through the arguments of the client method to the namespace that the client was made with, in the data and node helpers to the namespace argument, in the event loop to the names that a node reported, in the HTTP handlers to the decoded request. Every manager that is used has to come from such a lookup (or be new).",
		Rules: map[string]string{
			"client-keeps": "a client keeps the namespace and address it was made with", "lookup": "every lookup or registration of an operation is under the namespace of its request",
			"op": "every manager that is used is that of the request's namespace", "forward": "other nodes are asked about the same namespace", "reads": "operations without a namespace change nothing",
			"table": "the table looks up and registers exactly the name it is given", "duty": "the event loop passes on names of namespaces that a node reported", "helper": "data and node helpers pass their namespace on", "request": "the HTTP handlers pass the request's namespace on",
		},
		Assumes: []string{"the manager factory returns a new manager each time"},
	})
}
