package rules

import (
	"go/types"
	"strings"

	"trypocheck/eng"
)

// isSearch: a call that ranks candidates: one of the searches, or a search
// function that was handed in.
func isSearch(v *eng.Val) bool {
	if v.Op != eng.OpCall || len(v.Args) < 3 {
		return false
	}
	if strings.HasPrefix(Callee(v), "searchutils.K") {
		return len(v.Args) == 3
	}
	return v.Dyn && len(v.Args) == 4 && v.Typ != nil && v.Typ.Underlying().String() == "[]int"
}

func searchArgs(v *eng.Val) []*eng.Val { return v.Args[len(v.Args)-3:] }

// addressOf strips the conversion of an address to a string.
func addressOf(t *eng.Terms, x *eng.Term) *eng.Term {
	if a := addrOf(t, x); a != nil {
		return a
	}
	return x
}

func checkP19(c *C) {
	for _, n := range []string{"BestFitNodesFast", "BestFitNodesAccurate"} {
		f := c.Func(pNodes, n)
		if f == nil {
			c.Bad("ranked", n, "-", "there is no %s", n)
			continue
		}
		g := c.Flat(f, "L4")
		t := g.Terms()
		args := t.Of(g.Params[0])
		for _, v := range c.searches("nodes."+n, g) {
			c.Expect(v.Dyn && t.Of(v.Args[0]) == fieldTerm(t, args, "KNNSearchFunc"), "ranked", n+" measure", v.Where(), "ranks with %v instead of the search function it was given", Callee(v))
			c.ranking("nodes."+n, g, v, fieldTerm(t, args, "Vec"), func(r *rank) { c.rankedResult("nodes."+n, g, r) })
		}
	}
	for n, sm := range c.serverMethods() {
		if !strings.HasPrefix(n, "DistributeDataPoints") || n == "DistributeDataPointsInternal" {
			continue
		}
		for _, v := range c.searches(n, sm.G) {
			// the datapoint is the one that is sent
			var dp *eng.Term
			for _, a := range Calls(sm.G, is("kmeansClient.AddDataPoint")) {
				if a.Graph() != sm.G || dp != nil && dp != sm.T.Of(a.Args[1]) {
					dp = nil
					break
				}
				dp = sm.T.Of(a.Args[1])
			}
			var want *eng.Term
			if dp != nil {
				want = fieldTerm(sm.T, dp, "Vec")
			}
			c.Expect(Callee(v) == "searchutils.KNNCos" || Callee(v) == "searchutils.KNNEuc", "ranked", n+" measure", v.Where(), "ranks with %s, not by nearness", Callee(v))
			c.ranking(n, sm.G, v, want, func(r *rank) { c.rankedSends(n, sm.G, r) })
		}
	}
	c.helpersRanked()
	c.helpersAsk()
	c.Import("P20", func(i Item) bool {
		switch i.Rule {
		case "asked", "collected", "one-answer":
			return strings.Contains(i.Inst, "BestFitNodes") || strings.Contains(i.Inst, "DistributeDataPoints")
		}
		return false
	})
	c.Min("ranked", 4)
	c.Min("query", 4)
	c.Min("candidates", 4)
	c.Min("amount", 4)
	c.Min("paired", 4)
	c.Min("answered", 4)
	c.Min("order", 4)
	c.Min("helper", 8)
}

func (c *C) searches(inst string, g *eng.Graph) []*eng.Val {
	var r []*eng.Val
	g.EachOwn(func(v *eng.Val) {
		if isSearch(v) {
			r = append(r, v)
		}
	})
	if len(r) != 1 {
		c.Bad("ranked", inst, where(c, g.Fn), "nodes are ranked by %d searches", len(r))
		return nil
	}
	return r
}

// rank is a decided ranking: addresses by position.
type rank struct {
	call *eng.Val
	gen  *Gen
	vecs *Origin
	recv *eng.Term // the answer that is added to the list
}

// addrAt: x is the address that belongs to the candidate at a position.
func (r *rank) addrAt(c *C, g *eng.Graph, t *eng.Terms, x *eng.Term) (pos *eng.Term, why string) {
	x = addressOf(t, x)
	list, pos, f := elemAt(x)
	if list == nil {
		return nil, "no element of a list"
	}
	o, why := origin(g, t, list, f)
	if o == nil {
		return nil, why
	}
	if !o.same(r.vecs) {
		return nil, "the addresses are not in the order of the vectors"
	}
	if o.Elem == r.vecs.Elem || o.Elem == nil {
		return nil, "not an address"
	}
	if why := c.fromAnswer(t, r, o); why != "" {
		return nil, why
	}
	return pos, ""
}

// fromAnswer: the address that belongs to the vector in the same answer.
func (c *C) fromAnswer(t *eng.Terms, r *rank, o *Origin) string {
	recv, f := sel(o.Elem)
	if recv != r.recv || len(f) != 1 {
		return "the address does not come from the answer that the vector comes from"
	}
	_, vf := sel(r.vecs.Elem)
	for _, s := range sendsTo(t, r.recv) {
		sv := t.Of(s.Args[1])
		vec, addr := fieldTerm(t, sv, vf[0]), addressOf(t, fieldTerm(t, sv, f[0]))
		for _, lf := range t.Leaves(vec, nil) {
			if lf.IsNil() {
				continue
			}
			at := clientAddr(t, lf)
			if at == nil {
				return "an answer has a vector that no node gave: " + lf.String()
			}
			if at != addr {
				return "an answer pairs a vector with an address it does not come from"
			}
			// vectors that depend on a query are for the one that is ranked by
			if len(lf.V.Args) > 1 && joinedValue(t, t.Of(lf.V.Args[1]), lf.V, r) != t.Of(searchArgs(r.call)[0]) {
				return "the nodes are asked for their vectors near " + t.Of(lf.V.Args[1]).String() + ", not near the one they are ranked by"
			}
		}
	}
	return ""
}

// joinedValue: a variable that a goroutine shares with its maker has the value from
// when it was started, if it is written only after all answers are there.
func joinedValue(t *eng.Terms, x *eng.Term, at *eng.Val, r *rank) *eng.Term {
	g := at.Graph()
	if x.Op != eng.OpLoad || x.Aux != "shared" || g.Parent == nil || g.Parent != r.call.Graph() {
		return x
	}
	gv := g.GoVal
	ok := true
	rootOf(g).Each(func(v *eng.Val) {
		if v.Op == eng.OpAlloc || !t.Affects(v, x.Path, x.Typ) {
			return
		}
		if v.Graph() != g.Parent || g.Parent.ReachesAvoiding(gv.Blk, v.Blk, r.vecs.Loop.Head) {
			ok = false
		}
	})
	if !ok {
		return x
	}
	return t.LoadAt(x.Path, x.Typ, gv)
}

// clientAddr gives the address of the node that returned a value.
func clientAddr(t *eng.Terms, x *eng.Term) *eng.Term {
	if x.Op != eng.OpCall || !strings.HasPrefix(Callee(x.V), "kmeansClient.") {
		return nil
	}
	cl := t.Of(x.V.Args[0])
	if cl.Op != eng.OpCall || Callee(cl.V) != "rpc.KMeansClient" {
		return nil
	}
	return addressOf(t, t.Of(cl.V.Args[0]))
}

// sendsTo lists the sends to the channel that a value was received from.
func sendsTo(t *eng.Terms, recv *eng.Term) []*eng.Val {
	var r []*eng.Val
	ch := t.Of(recv.V.Args[0])
	rootOf(recv.V.Graph()).Each(func(v *eng.Val) {
		if v.Op == eng.OpSend && t.Of(v.Args[0]) == ch {
			r = append(r, v)
		}
	})
	return r
}

func (c *C) ranking(inst string, g *eng.Graph, v *eng.Val, want *eng.Term, then func(*rank)) {
	t := g.Terms()
	a := searchArgs(v)
	c.Expect(want != nil && t.Of(a[0]) == want, "query", inst, v.Where(), "ranks by nearness to %v instead of the vector in question (%v)", t.Of(a[0]), want)
	gen, why := c.genOf(t, v, a[1])
	if !c.Expect(gen != nil, "candidates", inst, v.Where(), "%s", why) {
		return
	}
	vecs, why := origin(g, t, gen.List, gen.Fields)
	if !c.Expect(vecs != nil, "candidates", inst+" list", v.Where(), "the list of candidates is not known: %s", why) {
		return
	}
	recv, f := sel(vecs.Elem)
	if !c.Expect(recv != nil && recv.Op == eng.OpRecv && len(f) == 1, "candidates", inst+" source", v.Where(), "the candidates (%v) are not the vectors that nodes answered with", vecs.Elem) {
		return
	}
	r := &rank{v, gen, vecs, recv}
	k := t.Of(a[2])
	okK := false
	for _, n := range []*eng.Term{t.Len(gen.List, v), t.Len(vecs.List, v)} {
		if d, ok := t.Diff(k, n); ok && d >= 0 {
			okK = true
		}
	}
	if k.Op == eng.OpLen && !okK {
		if o, _ := origin(g, t, k.Args[0], nil); o != nil && o.same(vecs) {
			okK = true
		}
	}
	c.Expect(okK, "amount", inst, v.Where(), "%v nodes are ranked, which may leave out some that answered", k)
	c.answers(inst, g, r, f[0])
	then(r)
}

// answers: only those who answered are candidates, with the vector they are asked for.
func (c *C) answers(inst string, g *eng.Graph, r *rank, vecField string) {
	t := g.Terms()
	sends := sendsTo(t, r.recv)
	if len(sends) == 0 {
		c.Bad("answered", inst, r.recv.V.Where(), "nobody answers")
		return
	}
	facts := t.BlockFacts(r.vecs.Blk)
	vecOfRecv := fieldTerm(t, r.recv, vecField)
	byVec, known := facts.Truth(t.Bin(eqTok, vecOfRecv, t.Zero(vecOfRecv.Typ), nil))
	if known && !byVec {
		c.OK("answered", inst, r.recv.V.Where())
		return
	}
	// a flag of the answer tells
	for _, name := range boolFields(r.recv) {
		val, known := facts.Truth(fieldTerm(t, r.recv, name))
		if !known {
			continue
		}
		bad := ""
		for _, s := range sends {
			if w := c.flagMeans(t, s, name, vecField, val); w != "" {
				bad = w
			}
		}
		c.Expect(bad == "", "answered", inst, sends[0].Where(), "%s", bad)
		return
	}
	// or only those who answered send at all
	bad := ""
	for _, s := range sends {
		if w := c.flagMeans(t, s, "", vecField, true); w != "" {
			bad = w
		}
	}
	c.Expect(bad == "", "answered", inst, r.recv.V.Where(), "nodes that failed to answer are ranked too")
}

func (c *C) flagMeans(t *eng.Terms, s *eng.Val, flag, vecField string, val bool) string {
	sv := t.Of(s.Args[1])
	var ft *eng.Term
	if flag != "" {
		ft = fieldTerm(t, sv, flag)
	}
	vec := fieldTerm(t, sv, vecField)
	bad := ""
	track := []*eng.Term{vec}
	if ft != nil {
		track = append(track, ft)
		for _, lf := range t.Leaves(vec, nil) {
			if er := errCell(t, lf); er != nil {
				y := t.LoadAt(er, errType(t, lf), s)
				track = append(track, t.Bin(eqTok, y, t.Zero(y.Typ), boolT))
			}
			if !lf.IsNil() {
				track = append(track, t.Bin(eqTok, lf, t.Zero(lf.Typ), boolT))
			}
		}
	}
	sim := &Sim{G: s.Graph(), T: t, Track: track}
	sim.Event = func(e *St, v *eng.Val) {
		if v != s {
			return
		}
		if ft != nil {
			f := e.Resolve(ft)
			got, known := e.Truth(ft)
			if b, ok := f.Bool(); ok {
				got, known = b, true
			}
			if !known || got != val {
				y := e
				if !known {
					y = e.fork()
					y.Assume(f, !val)
				}
				if why := leftOut(t, y, y.Resolve(vec), v); why != "" {
					bad = why
				}
			}
			if known && got != val {
				return
			}
			if !known {
				e = e.fork()
				e.Assume(f, val)
			}
		}
		x := e.Resolve(vec)
		if x.IsNil() {
			bad = "an answer may be marked as given although there is no vector"
			return
		}
		if nilv, ok := e.Truth(t.Bin(eqTok, x, t.Zero(x.Typ), nil)); ok && !nilv {
			return
		}
		if er := errCell(t, x); er != nil {
			y := t.LoadAt(er, errType(t, x), v)
			if isnil, ok := e.Truth(t.Bin(eqTok, y, t.Zero(y.Typ), nil)); ok && isnil {
				return
			}
		}
		bad = "an answer may be marked as given although the node failed (path " + e.Path() + ")"
	}
	sim.Run()
	c.States += sim.States
	return bad
}

// leftOut: an answer that is not marked as given is one of a node that failed.
func leftOut(t *eng.Terms, e *St, x *eng.Term, at *eng.Val) string {
	if x.IsNil() || zeroish(x) {
		return ""
	}
	if isnil, ok := e.Truth(t.Bin(eqTok, x, t.Zero(x.Typ), boolT)); ok && isnil {
		return ""
	}
	if _, hi := e.Facts().Range(t.Len(x, at)); hi <= 0 {
		return ""
	}
	if er := errCell(t, x); er != nil {
		y := t.LoadAt(er, errType(t, x), at)
		if isnil, ok := e.Truth(t.Bin(eqTok, y, t.Zero(y.Typ), boolT)); ok && !isnil {
			return ""
		}
	}
	return "the answer of a node that did not fail may be left out (path " + e.Path() + ")"
}

func boolFields(x *eng.Term) []string {
	var r []string
	if st, ok := x.Typ.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if isBoolType(st.Field(i).Type()) {
				r = append(r, st.Field(i).Name())
			}
		}
	}
	return r
}

// errCell is where the client that returned a value puts its errors.
func errCell(t *eng.Terms, x *eng.Term) *eng.Path {
	if clientAddr(t, x) == nil {
		return nil
	}
	cl := t.Of(x.V.Args[0]).V
	if len(cl.Args) < 3 {
		return nil
	}
	p := t.Of(cl.Args[2])
	if p.IsNil() {
		return nil
	}
	return t.PtrLoc(p)
}

func errType(t *eng.Terms, x *eng.Term) types.Type {
	return t.Of(t.Of(x.V.Args[0]).V.Args[2]).Typ.Underlying().(*types.Pointer).Elem()
}

// byRank: the loop visits the positions in the order of their rank; pos is the
// current one.
func (r *rank) byRank(t *eng.Terms, cv *Cover, pos *eng.Term) string {
	if cv.Next != nil || cv.List != t.Of(r.call) {
		return "does not go through the ranking"
	}
	if cv.Back {
		return "goes through the ranking from its end"
	}
	f, ok := cv.ElemOf(t, pos)
	if !ok || len(f) != 0 {
		return "uses the position " + pos.String() + " instead of the current one of the ranking"
	}
	if pos.Ver != nil && pos.Ver != r.call {
		return "the ranking is changed before it is used"
	}
	return ""
}

func (c *C) rankedResult(inst string, g *eng.Graph, r *rank) {
	t := g.Terms()
	s := &Sim{G: g, T: t}
	done := map[string]bool{}
	s.Exit = func(e *St, ret *eng.Val) {
		if len(ret.Args) != 1 {
			return
		}
		x := e.Resolve(t.Of(ret.Args[0]))
		say := func(ok bool, f string, a ...interface{}) {
			k := ret.Where() + x.String()
			if done[k] {
				return
			}
			done[k] = true
			c.Expect(ok, "order", inst, ret.Where(), f, a...)
		}
		if emptyList(x) {
			for _, l := range []*eng.Term{r.gen.List, r.vecs.List, t.Of(r.call)} {
				if _, hi := e.Facts().Range(t.Len(l, ret)); hi <= 0 {
					return
				}
			}
			say(false, "no addresses are returned although there may be some (path %s)", e.Path())
			return
		}
		m, why := mapLoop(g, t, x, nil)
		if m == nil {
			say(false, "%s", why)
			return
		}
		if m.Filtered || len(m.Elems) != 1 {
			say(false, "some of the ranked addresses may be left out")
			return
		}
		pos, why := r.addrAt(c, g, t, m.Elems[0])
		if pos == nil {
			c.Bad("paired", inst, m.At.Where(), "%s", why)
			return
		}
		if !done["paired"] {
			done["paired"] = true
			c.OK("paired", inst, m.At.Where())
		}
		why = r.byRank(t, m.Cv, pos)
		say(why == "", "%s", why)
	}
	s.Run()
	c.States += s.States
}

// rankedSends: the datapoint is offered to the nodes by rank.
func (c *C) rankedSends(inst string, g *eng.Graph, r *rank) {
	t := g.Terms()
	n := 0
	for _, v := range Calls(g, is("kmeansClient.AddDataPoint")) {
		cl := t.Of(v.Args[0])
		if cl.Op != eng.OpCall || Callee(cl.V) != "rpc.KMeansClient" {
			c.Bad("paired", inst, v.Where(), "the node %v is not known", cl)
			continue
		}
		n++
		pos, why := r.addrAt(c, g, t, t.Of(cl.V.Args[0]))
		if !c.Expect(pos != nil, "paired", inst, v.Where(), "%s", why) {
			continue
		}
		l := innermost(v)
		var cv *Cover
		if l != nil {
			cv = cover(t, l)
		}
		if cv == nil {
			c.Bad("order", inst, v.Where(), "the datapoint is not offered to the nodes in order")
			continue
		}
		why = r.byRank(t, cv, pos)
		c.Expect(why == "", "order", inst, v.Where(), "%s", why)
	}
	if n == 0 {
		c.Bad("order", inst, r.call.Where(), "the ranked nodes are not used")
	}
}

// helpersRanked: the data helpers ask the nodes in the order of the ranking.
func (c *C) helpersRanked() {
	for _, en := range []struct{ name, best, vec string }{
		{"PutDataPointFast", "BestFitNodesFast", "DataPoint.Vec"}, {"PutDataPointAccurate", "BestFitNodesAccurate", "DataPoint.Vec"},
		{"GetDataPointsFast", "BestFitNodesFast", "QueryVec"}, {"GetDataPointsAccurate", "BestFitNodesAccurate", "QueryVec"},
	} {
		f := c.Func(pDps, en.name)
		if f == nil {
			c.Bad("helper", en.name, "-", "there is no %s", en.name)
			continue
		}
		g := c.Flat(f, "dps")
		t := g.Terms()
		p := t.Of(g.Params[0])
		best := Calls(g, is("nodes."+en.best))
		if !c.Expect(len(best) == 1, "helper", en.name+" ranks", where(c, g.Fn), "nodes are ranked by %d calls of %s", len(best), en.best) {
			continue
		}
		b := best[0]
		arg := t.Of(b.Args[0])
		vec := p
		for _, n := range strings.Split(en.vec, ".") {
			vec = fieldTerm(t, vec, n)
		}
		for _, w := range []struct {
			f string
			x *eng.Term
		}{{"AddrOpts", fieldTerm(t, p, "AddrOptions")}, {"Vec", vec}, {"KNNSearchFunc", fieldTerm(t, p, "KNNSearchFunc")}} {
			got := fieldTerm(t, arg, w.f)
			c.Expect(got != nil && got == w.x, "helper", en.name+" "+w.f, b.Where(), "nodes are ranked with %s = %v instead of %v", w.f, got, w.x)
		}
		n := 0
		for _, v := range Calls(g, is("rpc.KMeansClient")) {
			n++
			l := innermost(v)
			var cv *Cover
			if l != nil {
				cv = cover(t, l)
			}
			if !c.Expect(cv != nil && cv.List == t.Of(b) && !cv.Back, "helper", en.name+" order", v.Where(), "the nodes are not asked in the order of the ranking") {
				continue
			}
			a := addressOf(t, t.Of(v.Args[0]))
			fs, ok := cv.ElemOf(t, a)
			c.Expect(ok && len(fs) == 0 && (a.Ver == nil || a.Ver == b), "helper", en.name+" node", v.Where(), "the node %v is asked instead of the current one of the ranking", a)
		}
		c.Expect(n > 0, "helper", en.name+" asks", where(c, g.Fn), "no node is asked")
	}
}

// helpersAsk: the data helpers ask one node after the other, until the datapoint was
// stored, or enough datapoints were found.
func (c *C) helpersAsk() {
	for _, fn := range c.P.Funcs {
		if eng.FuncPkgPath(fn) != pDps || fn.Parent() != nil || fn.Signature.Recv() != nil || !exported(fn) {
			continue
		}
		put, get := strings.HasPrefix(fn.Name(), "PutDataPoint"), strings.HasPrefix(fn.Name(), "GetDataPoints")
		if !put && !get {
			continue
		}
		g := c.Flat(fn, "dps")
		t := g.Terms()
		op := "kmeansClient.KNNLookup"
		if put {
			op = "kmeansClient.AddDataPoint"
		}
		calls := Calls(g, is(op))
		if !c.Expect(len(calls) > 0, "until", fn.Name(), where(c, fn), "no node is asked") {
			continue
		}
		for _, v := range calls {
			l := innermost(v)
			var cv *Cover
			if l != nil {
				cv = cover(t, l)
			}
			if !c.Expect(cv != nil, "until", fn.Name()+" loop", v.Where(), "not all nodes are asked in turn") {
				continue
			}
			for _, la := range l.Latches {
				c.Expect(v.Before(la.Last()), "until", fn.Name()+" each", v.Where(), "a node may be passed over")
				if put {
					x, known := t.BlockFacts(la).Truth(t.Of(v))
					if !known {
						x, known = t.EdgeFacts(la, l.Head).Truth(t.Of(v))
					}
					c.Expect(known && !x || stopsIf(t, l, cv, t.Of(v)), "until", fn.Name()+" goes on", v.Where(), "another node is asked although the datapoint was stored")
				}
			}
			for _, e := range l.Exits() {
				if e == cv.Exit {
					continue
				}
				ok := t.EdgeFacts(e.From, e.To).Bad
				if put {
					ok = ok || knownDone(t, t.EdgeFacts(e.From, e.To), t.Of(v))
				} else {
					n := fieldTerm(t, t.Of(g.Params[0]), "N")
					ok = ok || n != nil && c.enough(t, l, e, v, n)
				}
				c.Expect(ok, "until", fn.Name()+" stops", e.From.Last().Where(), "no further node is asked although this one %s", map[bool]string{true: "did not store the datapoint", false: "may not have filled up the answer"}[put])
			}
		}
	}
	c.Min("until", 18)
}

// knownDone: what is known tells that the result is true, possibly through a
// variable that is only set by it.
func knownDone(t *eng.Terms, fs *eng.FactSet, res *eng.Term) bool {
	if v, ok := fs.Truth(res); ok {
		return v
	}
	for _, f := range fs.List() {
		if f.Cond.Op != eng.OpPhi || !isBoolT(f.Cond) {
			continue
		}
		all, some := true, false
		for _, lf := range t.Leaves(f.Cond, nil) {
			k, isC := lf.Bool()
			switch {
			case isC && k != f.Val:
			case lf == res && f.Val:
				some = true
			default:
				all = false
			}
		}
		if all && some {
			return true
		}
	}
	return false
}

// stopsIf: the loop is left on its next test if the result was true.
func stopsIf(t *eng.Terms, l *eng.Loop, cv *Cover, res *eng.Term) bool {
	for _, e := range l.Exits() {
		last := e.From.Last()
		if e == cv.Exit || last.Op != eng.OpIf || !onlyStraight(l, e.From) {
			continue
		}
		x, leave := t.Of(last.Args[0]), e.To == e.From.Succs[0]
		if x.Op == eng.OpUn && x.Aux == "!" {
			x, leave = x.Args[0], !leave
		}
		if x.Op != eng.OpPhi || x.JoinBlk() != l.Head || !leave {
			continue
		}
		_, back := t.Carried(l, x)
		all := len(back) > 0
		for _, y := range back {
			all = all && y == res
		}
		if all {
			return true
		}
	}
	return false
}

// enough: at least n datapoints were found when the loop is left.
func (c *C) enough(t *eng.Terms, l *eng.Loop, e eng.Edge, op *eng.Val, n *eng.Term) bool {
	var lists []*eng.Term
	for b := range l.Blocks {
		for _, v := range b.Instrs {
			if v.Op == eng.OpAppend {
				if _, sp := appended(t, v); sp == t.Of(op) {
					lists = append(lists, t.Of(v))
				}
			}
		}
	}
	from := func(x *eng.Term) bool {
		src := listSrc(t, x)
		for _, sp := range src.Spreads {
			if sp.X == t.Of(op) {
				return true
			}
		}
		for _, el := range src.Elems {
			il := innermost(el.V)
			if il == nil || il == l || !l.Blocks[il.Head] {
				continue
			}
			if cv := cover(t, il); cv != nil && cv.List == t.Of(op) {
				if f, ok := cv.ElemOf(t, el.X); ok && len(f) == 0 {
					return true
				}
			}
		}
		return false
	}
	for b := range l.Blocks {
		for _, v := range b.Instrs {
			if v.Op != eng.OpPhi || b != l.Head && !b.Dominates(e.From) {
				continue
			}
			if _, ok := v.Typ.Underlying().(*types.Slice); ok && from(t.Of(v)) {
				lists = append(lists, t.Of(v))
			}
		}
	}
	for _, x := range lists {
		b := newBounder(t)
		E := b.sub(n, t.Len(x, e.From.Last()))
		if b.proveWith(goal{E, 0}, e.From, len(e.From.Instrs), 2, b.linFacts(t.EdgeFacts(e.From, e.To))) {
			return true
		}
	}
	return false
}

func init() {
	register("P19", checkP19, Desc{
		How: "Every ranking of nodes (a call of a search, or of a search function that was handed in) is decided in the flattened function it happens in. The generator is modelled at the call and walked path by path: it has to go through one list from its first to its last element. That list, and the list the addresses are taken from, are followed back through element-wise copies to the place where an answer is received; both have to come from the same place, and from fields of the same answer. All sends to that channel are then checked to pair a vector with the address of the client that returned it.",
		Rules: map[string]string{
			"ranked": "nodes are ranked by exactly one search, with the measure in question", "query": "the search compares with the vector in question",
			"candidates": "the candidates are the vectors of the answers, each once, in order", "amount": "all who answered are ranked",
			"paired": "the address used for a position is from the same answer as the vector at that position, and that answer pairs the vector with the node it came from", "answered": "only answers of nodes that did not fail are candidates",
			"order": "the ranking is used from its best to its worst", "helper": "the data helpers rank with what they were given and ask the nodes in that order",
			"until": "they ask each node in turn, and stop early only if the datapoint was stored or enough were found",
			"P20/*": "the fan-outs ask the right nodes and collect all answers",
		},
		Assumes: []string{"search functions that are handed in return positions of the candidates in the order of rank (P18 decides the module's own)"},
	})
}
