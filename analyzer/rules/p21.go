package rules

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"trypocheck/eng"
)

// The routes of the API, and whether they put or query.
var apiRoutes = map[string]string{"/api/dp/put": "put", "/api/dp/query": "query"}

// What the helpers are given: field of the arguments and name in the request.
var apiOptions = map[string]map[string]string{
	"put":   {"Namespace": "namespace"},
	"query": {"Namespace": "namespace", "QueryVec": "queryVec", "N": "n", "Drain": "drain"},
}

func isRegister(n string) bool {
	switch n {
	case "net/http.Handle", "net/http.HandleFunc", "(*net/http.ServeMux).Handle", "(*net/http.ServeMux).HandleFunc":
		return true
	}
	return false
}

type route struct {
	fn   *ssa.Function
	recv *eng.Term
	at   *eng.Val
	g    *eng.Graph
}

func checkP21(c *C) {
	routes := map[string]route{}
	served := false
	for _, en := range c.entries("api", pAPI) {
		if !exported(en.Fn) {
			continue
		}
		g, t := en.G, en.G.Terms()
		var muxes []*eng.Term
		for _, v := range Calls(g, isRegister) {
			a := v.Args
			var mux *eng.Term
			if strings.HasPrefix(Callee(v), "(*net/http.ServeMux)") {
				mux = t.Of(a[0])
				a = a[1:]
			}
			muxes = append(muxes, mux)
			for p, x := range c.routesOf(g, t, v, t.Of(a[0]), unconv(t.Of(a[1]))) {
				old, dup := routes[p]
				c.Expect(!dup || old.fn == x.fn && old.at == v, "route", p, v.Where(), "the route %s is registered twice", p)
				x.at, x.g = v, g
				routes[p] = x
			}
		}
		for _, v := range Calls(g, func(n string) bool {
			return strings.Contains(n, "net/http.") && strings.Contains(n, "ListenAndServe") || strings.HasPrefix(n, "(*net/http.Server).Serve")
		}) {
			if len(muxes) == 0 {
				continue
			}
			served = true
			var h *eng.Term
			if v.Fn.Signature.Recv() != nil {
				pt := v.Args[0].Typ.Underlying().(*types.Pointer)
				st := pt.Elem().Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == "Handler" {
						h = t.LoadAt(t.FieldLoc(t.PtrLoc(t.Of(v.Args[0])), pt.Elem(), "Handler"), st.Field(i).Type(), v)
					}
				}
			} else {
				h = t.Of(v.Args[len(v.Args)-1])
			}
			for _, m := range muxes {
				ok := m == nil && (h == nil || h.IsNil() || zeroish(h)) || m != nil && h != nil && unwrapIface(h) == m
				c.Expect(ok, "route", "served", v.Where(), "the server does not serve the routes that were registered")
			}
			for _, r := range Calls(g, isRegister) {
				before := r.Before(v)
				for _, l := range g.Loops() {
					if l.Inside(r) && !l.Inside(v) && l.Head.Dominates(v.Blk) {
						before = true
					}
				}
				c.Expect(before, "route", "order", r.Where(), "is registered after the server has been started, or not always")
			}
		}
	}
	c.Expect(served, "route", "served", "-", "no server is started with the registered routes")
	var ps []string
	for p := range apiRoutes {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		r, ok := routes[p]
		if !c.Expect(ok, "route", p, "-", "nothing is registered for %s", p) {
			continue
		}
		c.apiHandler(p, apiRoutes[p], r)
	}
	c.Min("route", 4)
	c.Min("operation", 5)
	c.Min("rejected", 2)
	c.Min("option", 9)
	c.Min("outcome", 2)
}

func unconv(x *eng.Term) *eng.Term {
	for x != nil && (x.Op == eng.OpIface || x.Op == eng.OpConv) {
		x = x.Args[0]
	}
	return x
}

// routesOf: what a registration registers: directly or from a table.
func (c *C) routesOf(g *eng.Graph, t *eng.Terms, v *eng.Val, pat, h *eng.Term) map[string]route {
	r := map[string]route{}
	add := func(p, h *eng.Term, at *eng.Val) {
		s, ok := p.Str()
		h = unconv(h)
		if !ok || h == nil || h.V == nil || h.V.Fn == nil || h.Op != eng.OpClosure && h.Op != eng.OpFunc {
			c.Bad("route", "known", at.Where(), "the route %v or its handler %v is not known", p, h)
			return
		}
		x := route{fn: h.V.Fn}
		if len(h.Args) > 0 {
			x.recv = h.Args[0]
		} else if len(h.V.Args) > 0 {
			x.recv = t.Of(h.V.Args[0])
		}
		r[s] = x
	}
	if pat.Op == eng.OpConst {
		add(pat, h, v)
		return r
	}
	// the loop over a table
	for _, l := range g.Loops() {
		if !l.Inside(v) {
			continue
		}
		cv := cover(t, l)
		if cv == nil || len(l.Exits()) != 1 {
			continue
		}
		if cv.Next != nil {
			okK := pat.Op == eng.OpExtract && pat.Aux == "1" && pat.Args[0].V == cv.Next
			okV := h.Op == eng.OpExtract && h.Aux == "2" && h.Args[0].V == cv.Next
			if !okK || !okV || cv.List.Op != eng.OpMakeMap {
				continue
			}
			g.EachOwn(func(u *eng.Val) {
				if u.Op == eng.OpMapUpdate && t.Of(u.Args[0]) == cv.List {
					c.Expect(u.Before(l.Head.Instrs[0]), "route", "table", u.Where(), "the table of routes is changed later, or not always filled")
					add(t.Of(u.Args[1]), t.Of(u.Args[2]), u)
				}
			})
			return r
		}
		fp, ok1 := cv.ElemOf(t, pat)
		fh, ok2 := cv.ElemOf(t, h)
		n, isC := t.Len(cv.List, v).Int()
		if !ok1 || !ok2 || len(fp) != 1 || len(fh) != 1 || !isC || n > 100 {
			continue
		}
		pre := l.Entries[0].Last()
		et := eng.ElemType(cv.List.Typ)
		for k := int64(0); k < n; k++ {
			e := t.LoadAt(t.ElemLoc(cv.List, t.Int(k), et), et, pre)
			add(fieldTerm(t, e, fp[0]), fieldTerm(t, e, fh[0]), v)
		}
		return r
	}
	c.Bad("route", "known", v.Where(), "the route %v is not known", pat)
	return r
}

// apiHandler decides one route.
func (c *C) apiHandler(path, kind string, r route) {
	g := c.Flat(r.fn, "api")
	if g == nil {
		return
	}
	t := g.Terms()
	w := where(c, r.fn)
	errT := types.Universe.Lookup("error").Type()
	boolT := types.Typ[types.Bool]
	isOp, other := isPut, isGet
	if kind == "query" {
		isOp, other = isGet, isPut
	}
	ops := Calls(g, isOp)
	c.Expect(len(ops) > 0, "operation", path, w, "the route does not %s anything", kind)
	for _, v := range Calls(g, func(n string) bool { return other(n) || strings.HasPrefix(n, "kmeansClient.") }) {
		c.Bad("operation", path, v.Where(), "the route also calls %s", Callee(v))
	}
	nodes := ""
	for _, v := range ops {
		c.Expect(v.Graph() == g, "operation", path+" "+Callee(v), v.Where(), "is run in the background")
		a := t.Of(v.Args[0])
		for f, want := range apiOptions[kind] {
			x := fieldTerm(t, a, f)
			if x != nil {
				x = knownFlag(t, x, v, func(o *eng.Term) bool {
					_, p, why := decoded(t, o)
					return why == "" && strings.EqualFold(p, want)
				})
			}
			_, p, why := decoded(t, x)
			c.Expect(why == "" && strings.EqualFold(p, want), "option", path+" "+Callee(v)+" "+f, v.Where(), "the option %q is not what the user sent: %v %s", want, x, why)
		}
		fn := fieldTerm(t, a, "KNNSearchFunc")
		c.Expect(fn != nil && fn.Op == eng.OpFunc && fn.V != nil && fn.V.Fn != nil && fn.V.Fn.Name() == "KNNCos", "option", path+" "+Callee(v)+" search", v.Where(), "nodes are not ranked with searchutils.KNNCos but with %v", fn)
		ad := fieldTerm(t, a, "AddrOptions")
		ok := false
		if ad != nil && ad.Op == eng.OpLoad && len(ad.Path.Steps) == 1 && ad.Aux == "init" || ad != nil && ad.Op == eng.OpLoad && len(ad.Path.Steps) == 1 {
			ok = nodes == "" || nodes == ad.Path.Steps[0].Name
			nodes = ad.Path.Steps[0].Name
		}
		c.Expect(ok, "option", path+" "+Callee(v)+" nodes", v.Where(), "the nodes are %v and not the configured ones", ad)
	}
	// the configured nodes
	if r.recv != nil && nodes != "" {
		rt := r.g.Terms()
		if pt, isP := r.recv.Typ.Underlying().(*types.Pointer); isP {
			st, _ := pt.Elem().Underlying().(*types.Struct)
			for i := 0; st != nil && i < st.NumFields(); i++ {
				if st.Field(i).Name() != nodes {
					continue
				}
				x := rt.LoadAt(rt.FieldLoc(rt.PtrLoc(r.recv), pt.Elem(), nodes), st.Field(i).Type(), r.at)
				c.Expect(fieldIs(x, "RPCAddrs"), "option", path+" configured nodes", r.at.Where(), "the handler gets %v as its nodes and not the configured RPCAddrs", x)
			}
		}
	}
	c.apiPaths(g, path, kind, ops, errT, boolT)
}

// fieldIs: x is a field with this name of a parameter.
func fieldIs(x *eng.Term, name string) bool {
	if x == nil {
		return false
	}
	_, fs := sel(x)
	return len(fs) > 0 && fs[len(fs)-1] == name
}

// apiPaths walks all paths of a handler.
func (c *C) apiPaths(g *eng.Graph, path, kind string, ops []*eng.Val, errT, boolT types.Type) {
	t := g.Terms()
	isOp := map[*eng.Val]bool{}
	for _, v := range ops {
		isOp[v] = true
	}
	nilOf := func(v *eng.Val) *eng.Term { return t.Bin(eqTok, t.Of(v), t.Zero(errT), boolT) }
	s := &Sim{G: g, T: t}
	for _, b := range g.Blocks {
		if l := b.Last(); l != nil && l.Op == eng.OpIf {
			s.Track = append(s.Track, t.Of(l.Args[0]))
		}
	}
	decodes := Calls(g, isDecode)
	var codes, writes, marshals []*eng.Val
	for _, v := range Calls(g, func(string) bool { return true }) {
		n := Callee(v)
		switch {
		case n == "iface ResponseWriter.WriteHeader":
			codes = append(codes, v)
			s.Track = append(s.Track, t.Of(v.Args[1]))
		case n == "net/http.Error":
			codes = append(codes, v)
			s.Track = append(s.Track, t.Of(v.Args[2]))
		case n == "iface ResponseWriter.Write":
			writes = append(writes, v)
			s.Track = append(s.Track, t.Of(v.Args[1]))
		case n == "encoding/json.Marshal" || n == "encoding/json.MarshalIndent":
			marshals = append(marshals, v)
			s.Track = append(s.Track, t.Of(v.Args[0]), t.Extract(t.Of(v), 1, errT))
		case n == "(*encoding/json.Encoder).Encode":
			writes = append(writes, v)
			s.Track = append(s.Track, t.Of(v.Args[1]))
		}
	}
	in := func(l []*eng.Val, v *eng.Val) bool {
		for _, x := range l {
			if x == v {
				return true
			}
		}
		return false
	}
	for _, v := range decodes {
		s.Track = append(s.Track, nilOf(v))
		why := wholeBody(t, v)
		c.Expect(why == "", "rejected", path+" body", v.Where(), "not the whole body of the request is decoded: %s", why)
	}
	c.Expect(len(decodes) > 0, "rejected", path, where(c, g.Fn), "the request is not decoded")
	for _, v := range ops {
		s.Track = append(s.Track, t.Of(v))
	}
	type state struct{ dec, op, code, wrote string }
	parse := func(a string) state {
		f := strings.Split(a+"||||", "|")
		return state{f[0], f[1], f[2], f[3]}
	}
	byID := func(id string, l []*eng.Val) *eng.Val {
		for _, v := range l {
			if strconv.Itoa(v.ID) == id {
				return v
			}
		}
		return nil
	}
	bad := map[string]bool{}
	fail := func(e *St, rule string, v *eng.Val, f string, a ...interface{}) {
		bad[rule] = true
		c.Bad(rule, path, v.Where(), f+" (path %s)", append(a, e.Path())...)
		e.Dead = true
	}
	// does the decoding call of this path have failed?
	failed := func(e *St, st state) (failed, known bool) {
		v := byID(st.dec, decodes)
		if v == nil {
			for _, d := range decodes {
				// the body could not even be read
				x := t.Of(d.Args[0])
				if x.Op == eng.OpExtract && x.Args[0].Op == eng.OpCall {
					val, known := e.Truth(t.Bin(eqTok, t.Extract(x.Args[0], 1, errT), t.Zero(errT), boolT))
					if known && !val {
						return true, true
					}
				}
			}
			return false, false
		}
		val, known := e.Truth(nilOf(v))
		return !val, known
	}
	s.Event = func(e *St, v *eng.Val) {
		st := parse(e.A)
		defer func() { e.A = st.dec + "|" + st.op + "|" + st.code + "|" + st.wrote }()
		switch {
		case in(decodes, v):
			if st.dec != "" {
				fail(e, "rejected", v, "decodes the request twice")
				return
			}
			st.dec = strconv.Itoa(v.ID)
		case isOp[v]:
			if no, known := failed(e, st); !known || no {
				fail(e, "rejected", v, "%s is called although the request may not have been decoded", Callee(v))
				return
			}
			if old := byID(st.op, ops); old != nil {
				val, known := e.Truth(t.Of(old))
				if kind != "put" || !known || val {
					fail(e, "outcome", v, "%s is called although %s may have succeeded", Callee(v), Callee(old))
					return
				}
			}
			if st.code != "" || st.wrote != "" {
				fail(e, "outcome", v, "replies before the outcome is known")
				return
			}
			acc, known := accurate(e, t)
			n := Callee(v)
			if strings.HasSuffix(n, "Accurate") && !(known && acc) || strings.HasSuffix(n, "Fast") && !(known && !acc) || !strings.HasSuffix(n, "Accurate") && !strings.HasSuffix(n, "Fast") && st.op == "" {
				fail(e, "operation", v, "%s is called although the user did not ask for it", n)
				return
			}
			st.op = strconv.Itoa(v.ID)
		case in(codes, v):
			if st.code != "" || st.wrote != "" {
				return // too late
			}
			i := 1
			if Callee(v) == "net/http.Error" {
				i = 2
			}
			k, ok := e.Resolve(t.Of(v.Args[i])).Int()
			if !ok {
				fail(e, "outcome", v, "the status %v is not known", e.Resolve(t.Of(v.Args[i])))
				return
			}
			st.code = strconv.FormatInt(k, 10)
			if Callee(v) == "net/http.Error" {
				st.wrote = "e"
			}
		case in(marshals, v):
			if kind == "query" && st.op != "" {
				if why := c.nothingFound(e, t, byID(st.op, ops), t.Of(v.Args[0])); why != "" {
					fail(e, "outcome", v, "%s", why)
				}
			}
		case in(writes, v):
			if st.code == "" {
				st.code = "200"
			}
			x := e.Resolve(t.Of(v.Args[1]))
			if Callee(v) != "iface ResponseWriter.Write" {
				if why := c.nothingFound(e, t, byID(st.op, ops), t.Of(v.Args[1])); kind == "query" && why != "" {
					fail(e, "outcome", v, "%s", why)
				}
				st.wrote += "b"
				return
			}
			if x.Op == eng.OpExtract && x.Aux == "0" && in(marshals, x.Args[0].V) {
				st.wrote += "b"
			} else {
				st.wrote += "x"
			}
		}
	}
	s.Exit = func(e *St, ret *eng.Val) {
		st := parse(e.A)
		if st.code == "" {
			st.code = "200"
		}
		no, known := failed(e, st)
		if !known {
			fail(e, "rejected", ret, "it is not known whether the request was decoded")
			return
		}
		if no {
			if st.code != "400" || st.op != "" {
				fail(e, "rejected", ret, "a malformed request is answered with %s", st.code)
			}
			return
		}
		op := byID(st.op, ops)
		if op == nil {
			fail(e, "outcome", ret, "a request is answered with %s without being run", st.code)
			return
		}
		if kind == "put" {
			val, known := e.Truth(t.Of(op))
			if !known || val && st.code != "200" || !val && st.code != "500" {
				fail(e, "outcome", ret, "%s is answered with %s while its success is %v (known: %v)", Callee(op), st.code, val, known)
			}
			return
		}
		for _, m := range marshals {
			if val, known := e.Truth(t.Bin(eqTok, t.Extract(t.Of(m), 1, errT), t.Zero(errT), boolT)); known && !val && st.code == "500" {
				return
			}
		}
		if st.code != "200" || st.wrote != "b" {
			fail(e, "outcome", ret, "a query is answered with status %s and its result is not written exactly once (%q)", st.code, st.wrote)
		}
	}
	s.Run()
	c.States += s.States
	if s.Overflow {
		c.Bad("outcome", path, where(c, g.Fn), "too many paths")
	}
	for _, r := range []string{"rejected", "outcome", "operation"} {
		if !bad[r] {
			c.OK(r, path, where(c, g.Fn))
		}
	}
}

// accurate: whether the user asked for the accurate variant, on this path.
func accurate(e *St, t *eng.Terms) (val, known bool) {
	for _, f := range e.Facts().List() {
		x, v := f.Cond, f.Val
		for x.Op == eng.OpUn && x.Aux == "!" {
			x, v = x.Args[0], !v
		}
		if a, b, eq, ok := eqCond(x, v); ok {
			if k, isB := b.Bool(); isB {
				x, v = a, eq == k
			}
		}
		if _, p, why := decoded(t, x); why == "" && strings.EqualFold(p, "accurate") {
			return v, true
		}
	}
	return false, false
}

// nothingFound: an empty reply is only made if nothing was found.
func (c *C) nothingFound(e *St, t *eng.Terms, op *eng.Val, x *eng.Term) string {
	y := unwrapIface(e.Resolve(x))
	y = e.Resolve(y)
	if op == nil {
		return "a reply is made before the query"
	}
	if !y.IsNil() && !(y.Op == eng.OpMakeSlice && isZeroLen(t, y, op)) && !zeroish(y) {
		return ""
	}
	res := t.Of(op)
	if v, ok := e.Truth(t.Bin(eqTok, res, t.Zero(res.Typ), types.Typ[types.Bool])); ok && v {
		return ""
	}
	if _, hi := e.Facts().Range(t.Len(res, op)); hi == 0 {
		return ""
	}
	return "the reply is empty although something may have been found"
}

func isZeroLen(t *eng.Terms, x *eng.Term, at *eng.Val) bool {
	n, ok := t.Len(x, at).Int()
	return ok && n == 0
}

// wholeBody: the whole body is decoded, and nothing but the body.
func wholeBody(t *eng.Terms, v *eng.Val) string {
	if Callee(v) != "encoding/json.Unmarshal" {
		return "what follows the first JSON value is ignored"
	}
	x := t.Of(v.Args[0])
	if x.Op != eng.OpExtract || x.Aux != "0" || x.Args[0].Op != eng.OpCall {
		return x.String()
	}
	n := Callee(x.Args[0].V)
	if n != "io.ReadAll" && n != "io/ioutil.ReadAll" {
		return n
	}
	b := unwrapIface(t.Of(x.Args[0].V.Args[0]))
	if b.Op == eng.OpCall && Callee(b.V) == "net/http.MaxBytesReader" {
		b = unwrapIface(t.Of(b.V.Args[1]))
	}
	if !fieldIs(b, "Body") {
		return b.String()
	}
	return ""
}

func init() {
	register("P21", checkP21, Desc{
		How: "The routes are read off the registrations (a table of routes is followed), each handler is flattened with the put and get helpers as opaque calls, and all of its paths are walked with an automaton of what was decoded, run and answered.",
		Rules: map[string]string{
			"route": "each route is registered once, before serving, with the mux that is served", "operation": "a route runs its own operation, in the variant the user asked for",
			"rejected": "the whole body is decoded and nothing is run unless that succeeded; otherwise the answer is 400", "option": "every option of the operation is the one of the request with its documented name",
			"outcome": "a put is answered with 200 exactly if the last helper reported success, else 500, and is not tried again after a success; a query writes its encoded result with 200, an empty one only if nothing was found",
		},
		Assumes: []string{"net/http calls the handler registered for a route", "encoding/json reports malformed input"},
	})
}
