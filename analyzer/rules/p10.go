package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"trypocheck/eng"
)

// amountOf finds the one number of a function's arguments.
func amountOf(t *eng.Terms, g *eng.Graph) *eng.Term {
	var found *eng.Term
	n := 0
	see := func(x *eng.Term) { found, n = x, n+1 }
	isInt := func(tp types.Type) bool {
		b, ok := tp.Underlying().(*types.Basic)
		return ok && b.Kind() == types.Int
	}
	for i, p := range g.Params {
		if g.Fn.Params[i].Name() == "_" {
			continue // a placeholder that net/rpc wants
		}
		if isInt(p.Typ) {
			see(t.Of(p))
			continue
		}
		if st, ok := p.Typ.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if isInt(st.Field(i).Type()) {
					see(fieldTerm(t, t.Of(p), st.Field(i).Name()))
				}
			}
		}
	}
	if n != 1 {
		return nil
	}
	return found
}

func isSlice(tp types.Type) bool {
	_, ok := tp.Underlying().(*types.Slice)
	return ok
}

// amountArg: what a bounded operation is asked for.
func amountArg(t *eng.Terms, v *eng.Val) *eng.Term {
	if isSearch(v) {
		return t.Of(searchArgs(v)[2])
	}
	n := Callee(v)
	i := strings.LastIndex(n, ".")
	if i < 0 {
		return nil
	}
	switch n[:i] {
	case "Centroid", "CentroidManager", "kmeansClient":
	default:
		return nil
	}
	switch n[i+1:] {
	case "DrainUnordered", "DrainOrdered", "KNNLookup", "NearestCentroids":
	default:
		return nil
	}
	var found *eng.Term
	for _, a := range v.Args[1:] {
		if a == nil || a.Typ == nil {
			continue
		}
		if b, ok := a.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if found != nil {
				return nil
			}
			found = t.Of(a)
		}
	}
	return found
}

func boundedLists(t *eng.Terms) func(x *eng.Term) *eng.Term {
	return func(x *eng.Term) *eng.Term {
		if x.Op == eng.OpExtract && x.Aux == "0" {
			x = x.Args[0]
		}
		if x.Op != eng.OpCall || x.V == nil {
			return nil
		}
		return amountArg(t, x.V)
	}
}

func checkP10(c *C) {
	run := func(rule, layer string, fns []*ssa.Function, prefix string) {
		for _, fn := range fns {
			if !exported(fn) || fn.Parent() != nil {
				continue
			}
			c.bounded(rule, layer, fn, prefix)
		}
	}
	funcsOf := func(pkg string) []*ssa.Function {
		var r []*ssa.Function
		for _, fn := range c.P.Funcs {
			if eng.FuncPkgPath(fn) == pkg && fn.Signature.Recv() == nil && fn.Parent() == nil {
				r = append(r, fn)
			}
		}
		return r
	}
	run("search", "L0", funcsOf(pSearch), "")
	run("store", "L2", c.P.Methods(pCent, "Centroid"), "Centroid.")
	run("store", "L2", c.P.Methods(pCM, "CentroidManager"), "CentroidManager.")
	run("reply", "L2", c.P.Methods(pRPC, "KMeansServer"), "KMeansServer.")
	run("query", "dps", funcsOf(pDps), "")
	c.Min("search", 5)
	c.Min("store", 7)
	c.Min("reply", 4)
	c.Min("query", 3)
	// the client asks for what it was asked for, and hands on what it got
	c.Import("P15", func(i Item) bool {
		n := strings.Fields(i.Inst)
		if len(n) == 0 {
			return false
		}
		switch strings.TrimPrefix(n[0], "kmeansClient.") {
		case "KNNLookup", "DrainUnordered", "DrainOrdered", "NearestCentroids":
			return true
		}
		return false
	})
	c.Import("P21", func(i Item) bool {
		return strings.HasPrefix(i.Inst, "/api/dp/query")
	})
}

// bounded: on every return, the list that is handed out (the result, or the reply)
// is no longer than the amount that was asked for.
func (c *C) bounded(rule, layer string, fn *ssa.Function, prefix string) {
	sig := fn.Signature
	var reply *eng.Val
	hasList := sig.Results().Len() > 0 && isSlice(sig.Results().At(0).Type())
	g := c.Flat(fn, layer)
	if g == nil {
		return
	}
	if !hasList {
		for _, p := range g.Params {
			if pt, ok := p.Typ.Underlying().(*types.Pointer); ok && isSlice(pt.Elem()) {
				reply = p
			}
		}
		if reply == nil {
			return
		}
	}
	t := g.Terms()
	n := amountOf(t, g)
	if n == nil {
		return
	}
	b := newBounder(t)
	b.most = boundedLists(t)
	var rp *eng.Path
	var lt types.Type
	if reply != nil {
		rp = t.PtrLoc(t.Of(reply))
		lt = reply.Typ.Underlying().(*types.Pointer).Elem()
		// net/rpc hands an empty reply to each call
		b.zero = func(x *eng.Term) bool {
			return x.Op == eng.OpLoad && x.Aux == "init" && eng.SamePath(x.Path, rp)
		}
	}
	for _, e := range g.Exits {
		ret := e
		if ret == nil || ret.Op != eng.OpReturn {
			continue
		}
		var x *eng.Term
		if reply != nil {
			x = t.LoadAt(rp, lt, ret)
		} else {
			x = t.Of(ret.Args[0])
		}
		c.Expect(b.atMost(x, n, ret), rule, prefix+fn.Name()+" "+ret.Where(), ret.Where(), "not shown to give at most the number asked for, and nothing for less than one")
	}
}

func init() {
	register("P10", checkP10, Desc{
		How: "Bound analysis: for each operation that is asked for an amount, the length of the list it returns is shown to be at most that amount, and zero for amounts below one. The proof works backwards from each return over the inlined program: joins are replaced by what arrives from each way in, conditions on the way are used as linear facts, a goal met again at the same block holds by induction, and lengths of lists from operations below are bounded by the amount those were asked for (each of which is an obligation of its own).",
		Rules: map[string]string{
			"search": "the searches return at most k positions",
			"store":  "drains and lookups of centroids and managers return at most the amount asked for; portions per centroid add up to at most the amount",
			"reply":  "the replies of the server's drains and lookups are bounded by the amount of the request",
			"query":  "a query over several nodes collects at most n datapoints, asking each node for what is missing only",
		},
		Assumes: []string{"search functions handed to a store return at most k positions (shown for the ones of searchutils)", "a reply is empty when net/rpc hands it to a method", "lists do not get so long that int overflows"},
	})
}
