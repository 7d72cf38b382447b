package rules

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"trypocheck/eng"
)

const skipType = pEL + ".EventLoopTaskSkipConfig"
const elcType = pEL + ".EventLoopConfig"

// A duty of the event loop: the remote operation, its interval and its amounts.
type duty struct {
	op, skip string
	amounts  []string // fields of the configuration, "" for other arguments
}

var duties = []duty{
	{"Expire", "Expire", nil},
	{"MemTrim", "MemTrim", nil},
	{"DistributeDataPointsFast", "DistributeDataPointsFast", []string{"", "DistributeDataPointsFastN"}},
	{"DistributeDataPointsAccurate", "DistributeDataPointsAccurate", []string{"", "DistributeDataPointsAccurateN"}},
	{"DistributeDataPointsInternal", "DistributeDataPointsInternal", []string{"DistributeDataPointsInternalN"}},
	{"SplitCentroids", "SplitCentroids", []string{"SplitCentroidsMin", "SplitCentroidsMax"}},
	{"MergeCentroids", "MergeCentroids", []string{"MergeCentroidsMin", "MergeCentroidsMax"}},
	{"StealCentroids", "LoadBalancing", nil},
	{"Meta", "Meta", nil},
}

// cfgField: x is a field of the event loop's configuration (or of its intervals).
func cfgField(x *eng.Term) (strct, field string) {
	if x == nil || x.Op != eng.OpLoad && x.Op != eng.OpMemPhi || x.Path == nil {
		return "", ""
	}
	return x.Path.LastField()
}

// flag describes how the loop is told to stop.
type flag struct {
	strct, field string
	set          int64 // what the stop function writes
}

func constOf(x *eng.Term) (int64, bool) {
	if n, ok := x.Int(); ok {
		return n, true
	}
	if b, ok := x.Bool(); ok {
		if b {
			return 1, true
		}
		return 0, true
	}
	return 0, false
}

// flagRead: x is the value of the flag.
func (f flag) read(t *eng.Terms, x *eng.Term) bool {
	if x.Op == eng.OpCall && strings.Contains(Callee(x.V), "sync/atomic.") && strings.Contains(Callee(x.V), "Load") && len(x.V.Args) > 0 {
		s, n := t.PathOf(x.V.Args[0]).LastField()
		return s == f.strct && n == f.field
	}
	s, n := cfgField(x)
	return s == f.strct && n == f.field && n != ""
}

// means evaluates a condition on the flag for a value of it.
func (f flag) means(t *eng.Terms, c *eng.Term, val int64) (res, ok bool) {
	if c.Op == eng.OpUn && c.Aux == "!" {
		r, ok := f.means(t, c.Args[0], val)
		return !r, ok
	}
	if f.read(t, c) {
		return val != 0, true
	}
	if c.Op == eng.OpBin && len(c.Args) == 2 {
		k, isC := constOf(c.Args[1])
		if !isC {
			return false, false
		}
		m, k0 := t.Lin(c.Args[0])
		if f.read(t, c.Args[0]) {
			m, k0 = map[*eng.Term]int64{c.Args[0]: 1}, 0
		}
		if len(m) != 1 {
			return false, false
		}
		for a, n := range m {
			if !f.read(t, a) {
				return false, false
			}
			v := n*val + k0
			switch c.Aux {
			case "==":
				return v == k, true
			case "!=":
				return v != k, true
			case "<":
				return v < k, true
			}
		}
	}
	return false, false
}

// stopCond: the condition tells whether the loop was stopped.
func (f flag) stopCond(t *eng.Terms, c *eng.Term, val bool) (stopped, ok bool) {
	on, ok1 := f.means(t, c, f.set)
	off, ok2 := f.means(t, c, 0)
	if !ok1 || !ok2 || on == off {
		return false, false
	}
	return on == val, true
}

func checkP17(c *C) {
	f := c.Func(pEL, "EventLoop")
	g := c.Flat(f, "L4")
	if g == nil {
		return
	}
	t := g.Terms()
	w := where(c, f)
	fl, ok := c.stopFlag(g)
	if !ok {
		return
	}
	// The goroutine with the duties.
	var goes []*eng.Val
	g.EachOwn(func(v *eng.Val) {
		if v.Op == eng.OpGo {
			goes = append(goes, v)
		}
	})
	if !c.Expect(len(goes) == 1 && goes[0].Sub != nil, "starts", "EventLoop", w, "starts %d goroutines (or one that is not known) instead of one", len(goes)) {
		return
	}
	gv := goes[0]
	for _, e := range g.Exits {
		c.Expect(gv.Before(e), "starts", "EventLoop start", e.Where(), "may return without having started the loop")
	}
	body := gv.Sub
	ops := map[string][]*eng.Val{}
	body.Each(func(v *eng.Val) {
		if d, ok := dutyOp(v); ok {
			ops[d] = append(ops[d], v)
			c.startedAlways(t, body, v, d)
		}
	})
	main := mainLoop(body, ops)
	if !c.Expect(main != nil, "loop", "EventLoop", gv.Where(), "there is no loop around the duties") {
		return
	}
	start := t.BlockFacts(gv.Blk)
	base := map[*eng.Term]bool{}
	for _, x := range start.List() {
		base[x.Cond] = true
	}
	iter := ""
	for _, d := range duties {
		vs := ops[d.op]
		if !c.Expect(len(vs) > 0, "duty", d.op, w, "the event loop never runs %s", d.op) {
			continue
		}
		for _, v := range vs {
			it := c.dutyRuns(t, body, main, v, d, fl, base)
			if it != "" && iter == "" {
				iter = it
			}
			c.Expect(it == "" || it == iter, "interval", d.op+" counter", v.Where(), "counts iterations with another counter (%s, others %s)", it, iter)
			c.dutyArgs(t, body, v, d)
		}
	}
	for op, vs := range ops {
		known := op == "Namespaces" || op == "LenDP" || op == "LogMeta"
		for _, d := range duties {
			known = known || d.op == op
		}
		c.Expect(known, "duty", op, vs[0].Where(), "the event loop also runs %s", op)
	}
	c.ticks(t, body, main, iter)
	c.safeIntervals(g, gv)
	c.stops(t, body, main, fl)
	for _, v := range ops["LogMeta"] {
		c.dutyRuns(t, body, main, v, duty{"LogMeta", "Meta", nil}, fl, base)
	}
	c.metaLogged(t, body, ops)
	c.Min("interval", 9)
	c.Min("duty", 9)
	c.Min("amount", 7)
	c.Min("local", 8)
	c.Min("namespaces", 7)
	c.Min("tick", 1)
	c.Min("stop", 9)
	c.Min("clamped", 9)
	c.Min("flag", 1)
	c.Min("meta", 3)
}

// dutyOp: an instruction that is part of a duty.
func dutyOp(v *eng.Val) (string, bool) {
	if v.Op != eng.OpCall && !(v.Op == eng.OpGo && v.Sub == nil) {
		return "", false
	}
	n := Callee(v)
	if strings.HasPrefix(n, "kmeansClient.") {
		return strings.TrimPrefix(n, "kmeansClient."), true
	}
	if n == "iface Logger.LogMeta" {
		return "LogMeta", true
	}
	return "", false
}

// siteOf: where the graph starts the goroutine an instruction is in, or the
// instruction itself.
func siteOf(body *eng.Graph, v *eng.Val) *eng.Val {
	for v != nil && v.Blk.G != body {
		v = v.Blk.G.GoVal
	}
	return v
}

// startedAlways: a goroutine that is started for a duty runs it once, and at once.
func (c *C) startedAlways(t *eng.Terms, body *eng.Graph, v *eng.Val, d string) {
	for w := v; w.Blk.G != body; w = w.Blk.G.GoVal {
		g := w.Blk.G
		always := len(g.Loops()) == 0 || g.LoopOf(w.Blk) == nil
		for _, e := range g.Exits {
			always = always && w.Before(e)
		}
		c.Expect(always, "duty", d, v.Where(), "its goroutine does not run it exactly once")
		g.EachOwn(func(u *eng.Val) {
			if u.Op == eng.OpCall && Callee(u) == "time.Sleep" {
				c.Bad("duty", d, u.Where(), "its goroutine waits")
			}
		})
	}
}

// hasDuty: the instruction is a duty or starts a goroutine with one.
func hasDuty(v *eng.Val) (string, bool) {
	if d, ok := dutyOp(v); ok {
		return d, true
	}
	r, found := "", false
	if v.Op == eng.OpGo && v.Sub != nil {
		v.Sub.Each(func(u *eng.Val) {
			if d, ok := dutyOp(u); ok && !found {
				r, found = d, true
			}
		})
	}
	return r, found
}

func mainLoop(g *eng.Graph, ops map[string][]*eng.Val) *eng.Loop {
	var best *eng.Loop
	for _, l := range g.Loops() {
		all := true
		for _, vs := range ops {
			for _, v := range vs {
				if !l.Inside(siteOf(g, v)) {
					all = false
				}
			}
		}
		if all && (best == nil || len(l.Blocks) > len(best.Blocks)) {
			best = l
		}
	}
	return best
}

// stopFlag finds what the returned function does.
func (c *C) stopFlag(g *eng.Graph) (flag, bool) {
	t := g.Terms()
	var fl flag
	found := false
	for _, e := range g.Exits {
		for _, x := range t.Leaves(t.Of(e.Args[0]), nil) {
			if x.Op != eng.OpClosure || x.V.Fn == nil {
				c.Bad("flag", "EventLoop", e.Where(), "returns %v as the stop function", x)
				return fl, false
			}
			sg := c.Flat(x.V.Fn, "L4")
			if sg == nil {
				return fl, false
			}
			st := sg.Terms()
			okHere := false
			sg.EachOwn(func(v *eng.Val) {
				var addr, val *eng.Val
				switch {
				case v.Op == eng.OpStore:
					addr, val = v.Args[0], v.Args[1]
				case v.Op == eng.OpCall && strings.Contains(Callee(v), "sync/atomic.") && (strings.Contains(Callee(v), "Store") || strings.Contains(Callee(v), "Swap") && !strings.Contains(Callee(v), "Compare")):
					addr, val = v.Args[0], v.Args[1]
				default:
					return
				}
				s, n := st.PathOf(addr).LastField()
				k, isC := constOf(st.Of(val))
				if n == "" || !isC || k == 0 {
					return
				}
				for _, ex := range sg.Exits {
					if !v.Before(ex) {
						return
					}
				}
				fl = flag{s, n, k}
				okHere = true
			})
			if !c.Expect(okHere, "flag", "stop", e.Where(), "the stop function does not set a flag on all of its paths") {
				return fl, false
			}
			found = true
		}
	}
	if !found {
		c.Bad("flag", "EventLoop", "-", "no stop function is returned")
		return fl, false
	}
	// nobody clears it
	for _, fn := range c.P.Funcs {
		if eng.FuncPkgPath(fn) != pEL || eng.IsTestSupport(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
				stt := pt.Underlying().(*types.Struct)
				if eng.TypeName(pt) != fl.strct || stt.Field(fa.Field).Name() != fl.field {
					continue
				}
				for _, r := range *fa.Referrers() {
					var val ssa.Value
					switch x := r.(type) {
					case *ssa.Store:
						val = x.Val
					case *ssa.Call:
						if cal := x.Call.StaticCallee(); cal != nil && (strings.HasPrefix(cal.Name(), "Store") || strings.HasPrefix(cal.Name(), "Swap")) && len(x.Call.Args) > 1 {
							val = x.Call.Args[1]
						}
					}
					if k, ok := val.(*ssa.Const); ok && val != nil {
						s := k.Value.String()
						c.Expect(s != "0" && s != "false", "flag", "cleared", c.P.Pos(r.Pos()), "the stop flag is cleared again")
					} else if val != nil {
						c.Bad("flag", "cleared", c.P.Pos(r.Pos()), "the stop flag gets an unknown value")
					}
				}
			}
		}
	}
	return fl, true
}

// guardOf finds the interval that decides about a block: iter%field == 0.
func guardOf(t *eng.Terms, b *eng.Blk) (field, iter string, mod, fieldT *eng.Term) {
	for _, f := range t.BlockFacts(b).List() {
		x, val := f.Cond, f.Val
		if x.Op == eng.OpBin && (x.Aux == "==" && val || x.Aux == "!=" && !val) {
			if n, ok := x.Args[1].Int(); ok && n == 0 {
				m := x.Args[0]
				if m.Op == eng.OpBin && m.Aux == "%" {
					if s, n := cfgField(m.Args[1]); s == skipType {
						_, it := cfgField(m.Args[0])
						return n, it, x, m.Args[1]
					}
				}
			}
		}
	}
	return "", "", nil, nil
}

// dutyRuns: the duty runs exactly in its iterations, for all namespaces. It gives
// the name of the counter.
func (c *C) dutyRuns(t *eng.Terms, body *eng.Graph, main *eng.Loop, v *eng.Val, d duty, fl flag, base map[*eng.Term]bool) string {
	site := siteOf(body, v)
	field, iter, mod, ft := guardOf(t, site.Blk)
	if !c.Expect(field == d.skip, "interval", d.op, v.Where(), "is not run in the iterations that are multiples of TaskSkip.%s (but of %q)", d.skip, field) {
		return ""
	}
	facts := t.BlockFacts(site.Blk)
	_, hi := facts.Range(ft)
	c.Expect(hi == 1000, "interval", d.op+" limit", v.Where(), "is run for intervals up to %d instead of 1000", hi)
	if d.op == "StealCentroids" {
		return iter // its further conditions have their own property
	}
	// no other condition, and no early end of the loops around
	for _, f := range facts.List() {
		x := f.Cond
		if base[x] || x == mod {
			continue
		}
		if _, ok := fl.stopCond(t, x, f.Val); ok {
			continue
		}
		if m, _ := t.Lin(condSide(x)); len(m) == 1 && m[ft] != 0 {
			continue
		}
		if loopCond(t, body, x) {
			continue
		}
		if len(c.dutyLoops(body, main, site)) > 0 && nonEmptyCond(t, x) {
			continue
		}
		if c.harmless(t, main, x, mod, ft, fl) {
			continue
		}
		c.Bad("duty", d.op, v.Where(), "is only run if %v is %v", x, f.Val)
	}
	for _, l := range c.dutyLoops(body, main, site) {
		cv := cover(t, l)
		c.Expect(cv != nil && len(l.Exits()) == 1, "namespaces", d.op+" loop", v.Where(), "the loop around it may end early")
	}
	c.OK("duty", d.op, v.Where())
	if d.op == "Meta" || d.op == "LogMeta" {
		return iter
	}
	// for all namespaces of the local node
	cl := t.Of(v.Args[0])
	if cl.Op != eng.OpCall || Callee(cl.V) != "rpc.KMeansClient" {
		c.Bad("namespaces", d.op, v.Where(), "the client %v is not known", cl)
		return iter
	}
	why, cv := namespaceName(body, t, t.Of(cl.V.Args[1]))
	ok := why == "" && cv != nil && cv.List.Op == eng.OpCall && Callee(cv.List.V) == "kmeansClient.Namespaces"
	if c.Expect(ok && cv.L.Inside(site), "namespaces", d.op, v.Where(), "is not run for all namespaces that the local node reports %s", why) {
		c.Expect(localClient(t, t.Of(cv.List.V.Args[0])), "namespaces", d.op+" of", cv.List.V.Where(), "the namespaces are not those of the local node")
	}
	return iter
}

// harmless: a condition that does not restrict the iterations further.
func (c *C) harmless(t *eng.Terms, main *eng.Loop, x, mod, ft *eng.Term, fl flag) bool {
	if x.Op == eng.OpNondet && x.V != nil && x.V.Target != nil {
		// one function of a list, all of which are called
		for _, l := range main.G.Loops() {
			if l == main || !l.Blocks[x.V.Blk] || len(l.Exits()) != 1 {
				continue
			}
			if cv := cover(t, l); cv != nil {
				if fs, ok := cv.ElemOf(t, t.Of(x.V.Target)); ok && len(fs) == 0 {
					return true
				}
			}
		}
		return false
	}
	if x.Op != eng.OpPhi {
		return false
	}
	for _, lf := range t.Leaves(x, nil) {
		if _, isC := lf.Bool(); isC || lf == mod || t.Not(lf) == mod {
			continue
		}
		if _, ok := fl.stopCond(t, lf, true); ok {
			continue
		}
		if m, _ := t.Lin(condSide(lf)); len(m) == 1 && m[ft] != 0 {
			continue
		}
		return false
	}
	// what the leaves depend on is known on the way to the join
	args, preds := t.PhiArgs(x)
	for i := range args {
		if _, isC := args[i].Bool(); !isC {
			continue
		}
		for _, f := range t.EdgeFacts(preds[i], x.JoinBlk()).List() {
			y := f.Cond
			m, _ := t.Lin(condSide(y))
			if y != mod && t.Not(y) != mod && !(len(m) == 1 && m[ft] != 0) && !c.known(t, x.JoinBlk(), f) {
				if _, ok := fl.stopCond(t, y, f.Val); !ok {
					return false
				}
			}
		}
	}
	return true
}

// joinedUnder: x is a join of constants that is decided by some conditions.
func joinedUnder(t *eng.Terms, x *eng.Term, f func(*eng.Term) bool) bool {
	b := x.JoinBlk()
	if b == nil || b.IsLoopHeader() {
		return false
	}
	args, preds := t.PhiArgs(x)
	for i := range args {
		if joinedUnder(t, args[i], f) {
			return true
		}
		for _, k := range t.EdgeFacts(preds[i], b).List() {
			if _, ok := t.BlockFacts(b).Truth(k.Cond); !ok && f(k.Cond) {
				return true
			}
		}
	}
	return false
}

// known: the fact holds at the block anyway.
func (c *C) known(t *eng.Terms, b *eng.Blk, f eng.Fact) bool {
	v, ok := t.BlockFacts(b).Truth(f.Cond)
	return ok && v == f.Val
}

// condSide: the left side of a comparison with a constant.
func condSide(x *eng.Term) *eng.Term {
	if x.Op == eng.OpBin && len(x.Args) == 2 {
		return x.Args[0]
	}
	return x
}

// nonEmptyCond: a condition on the length of a list only (a check for nothing to do).
func nonEmptyCond(t *eng.Terms, x *eng.Term) bool {
	y := condSide(x)
	m, _ := t.Lin(y)
	if y.Op == eng.OpLen {
		m = map[*eng.Term]int64{y: 1}
	}
	if len(m) != 1 || x.Op != eng.OpBin {
		return false
	}
	k, ok := x.Args[1].Int()
	for a, n := range m {
		if a.Op == eng.OpLen && ok && (k == 0 || k == 1 && n == 1) && a.Args[0].Op == eng.OpCall && Callee(a.Args[0].V) == "kmeansClient.Namespaces" {
			return true
		}
	}
	return false
}

// loopCond: the condition of a loop that visits all elements of a list.
func loopCond(t *eng.Terms, body *eng.Graph, x *eng.Term) bool {
	for _, l := range loopsAround(body) {
		cv := cover(t, l)
		if cv == nil {
			continue
		}
		last := cv.Exit.From.Last()
		cd := t.Of(last.Args[0])
		if cd == x || t.Not(cd) == x {
			return true
		}
	}
	return false
}

func (c *C) dutyLoops(body *eng.Graph, main *eng.Loop, v *eng.Val) []*eng.Loop {
	var r []*eng.Loop
	for _, l := range body.Loops() {
		if l != main && l.Inside(v) && !l.Blocks[main.Head] {
			r = append(r, l)
		}
	}
	return r
}

// addrOf: the address behind its string form.
func addrOf(t *eng.Terms, x *eng.Term) *eng.Term {
	if x == nil || x.Op != eng.OpCall || !strings.HasSuffix(Callee(x.V), ".ToStr") || len(x.V.Args) == 0 {
		return nil
	}
	a := t.Of(x.V.Args[0])
	if p, ok := a.Typ.Underlying().(*types.Pointer); ok {
		return t.LoadAt(t.PtrLoc(a), p.Elem(), x.V)
	}
	return a
}

// localClient: a client of the local node.
func localClient(t *eng.Terms, cl *eng.Term) bool {
	if cl.Op != eng.OpCall || Callee(cl.V) != "rpc.KMeansClient" {
		return false
	}
	return isLocalAddr(addrOf(t, t.Of(cl.V.Args[0])))
}

func isLocalAddr(a *eng.Term) bool {
	s, n := cfgField(a)
	return s == elcType && n == "LocalAddr"
}

// dutyArgs: the duty runs at the local node with its own amounts.
func (c *C) dutyArgs(t *eng.Terms, body *eng.Graph, v *eng.Val, d duty) {
	cl := t.Of(v.Args[0])
	if d.op != "Meta" {
		c.Expect(localClient(t, cl), "local", d.op, v.Where(), "is not run by the local node")
	}
	for i, a := range d.amounts {
		if a == "" {
			continue
		}
		if !c.Expect(i+1 < len(v.Args), "amount", d.op, v.Where(), "argument %d is missing", i) {
			continue
		}
		s, n := cfgField(t.Of(v.Args[i+1]))
		c.Expect(s == elcType && n == a, "amount", d.op+" "+a, v.Where(), "argument %d is %v and not the configured %s", i, t.Of(v.Args[i+1]), a)
	}
}

// ticks: the counter goes up by one per iteration and starts over above 1000 at the earliest.
func (c *C) ticks(t *eng.Terms, body *eng.Graph, main *eng.Loop, iter string) {
	var stores []*eng.Val
	body.Each(func(v *eng.Val) {
		if v.Op == eng.OpStore {
			if _, n := t.PathOf(v.Args[0]).LastField(); n == iter && iter != "" {
				stores = append(stores, v)
			}
		}
	})
	if !c.Expect(len(stores) > 0, "tick", "counter", body.GoVal.Where(), "the iterations are never counted") {
		return
	}
	start := main.Head
	for b := stores[0].Blk; b != nil && b.G == body; b = b.Idom {
		all := main.Blocks[b]
		for _, st := range stores {
			all = all && (st.Blk == b || b.Dominates(st.Blk))
		}
		for _, l := range main.Latches {
			all = all && (l == b || b.Dominates(l))
		}
		for _, st := range stores {
			t.Leaves(t.Of(st.Args[1]), func(y *eng.Term) bool {
				if j := y.JoinBlk(); j == b || j != nil && main.Blocks[j] && !b.Dominates(j) {
					all = false
				}
				return false
			})
		}
		if all {
			start = b
			break
		}
	}
	ok, steps := true, 0
	s := &Sim{G: body, T: t, From: start}
	s.Rel = func(cond *eng.Term) bool {
		for _, lf := range t.Leaves(cond, nil) {
			m, _ := t.Lin(condSide(lf))
			for a := range m {
				if isCounter(a, iter) {
					return true
				}
			}
		}
		return false
	}
	isStore := map[*eng.Val]bool{}
	for _, st := range stores {
		isStore[st] = true
		if x := t.Of(st.Args[1]); x.Op == eng.OpPhi {
			s.Track = append(s.Track, x)
		}
	}
	fail := func(e *St, v *eng.Val, f string, args ...interface{}) {
		if ok {
			c.Bad("tick", "counter", v.Where(), f, args...)
		}
		ok = false
		e.Dead = true
	}
	s.Event = func(e *St, v *eng.Val) {
		if d, isOp := hasDuty(v); isOp && e.A != "" {
			fail(e, v, "%s runs after the iteration was counted already", d)
		}
		if !isStore[v] {
			return
		}
		x := e.Resolve(t.Of(v.Args[1]))
		d, isD := counterDelta(t, x, iter)
		wrap, isW := counterWrap(t, x, iter)
		k, isC := x.Int()
		switch {
		case isD && d == 1 && e.A == "":
			e.A = "i"
		case isD && d == 0:
		case isW && e.A == "":
			if wrap < 1000 {
				fail(e, v, "the count of iterations starts over at %d", wrap)
			}
			e.A = "w"
		case isC && k == 0:
			if !counterAbove(t, e, iter, 999) {
				fail(e, v, "the count of iterations starts over before 1000 (path %s)", e.Path())
			}
			e.A = "r"
		default:
			fail(e, v, "the count of iterations becomes %v instead of one more (path %s)", x, e.Path())
		}
	}
	s.Edge = func(e *St, from, to *eng.Blk) bool {
		if to != main.Head {
			return main.Blocks[to]
		}
		steps++
		if e.A == "" {
			fail(e, from.Last(), "an iteration is not counted (path %s)", e.Path())
		}
		return false
	}
	s.Run()
	c.States += s.States
	if ok && !s.Overflow && steps > 0 {
		c.OK("tick", "counter", stores[0].Where())
	} else if ok {
		c.Bad("tick", "counter", stores[0].Where(), "not decided (%d states, %d iterations)", s.States, steps)
	}
}

// counterWrap: x is the next value of a counter that starts over at a constant.
func counterWrap(t *eng.Terms, x *eng.Term, iter string) (int64, bool) {
	if x.Op == eng.OpBin && x.Aux == "%" {
		d, ok := counterDelta(t, x.Args[0], iter)
		k, isC := x.Args[1].Int()
		return k, ok && isC && d == 1
	}
	return 0, false
}

func isCounter(x *eng.Term, iter string) bool {
	_, n := cfgField(x)
	return n == iter
}

// counterDelta: x is the counter plus a constant.
func counterDelta(t *eng.Terms, x *eng.Term, iter string) (int64, bool) {
	m, k := t.Lin(x)
	if len(m) != 1 {
		return 0, false
	}
	for a, n := range m {
		if n == 1 && isCounter(a, iter) {
			return k, true
		}
	}
	return 0, false
}

// counterAbove: on this path the counter (after being increased) is above a number.
func counterAbove(t *eng.Terms, e *St, iter string, k int64) bool {
	for _, f := range e.Facts().List() {
		x := f.Cond
		if x.Op != eng.OpBin {
			continue
		}
		m, k0 := t.Lin(condSide(x))
		if len(m) != 1 {
			continue
		}
		for a := range m {
			if !isCounter(a, iter) {
				continue
			}
			lo, _ := e.Facts().Range(a)
			// a is the counter before it was increased
			if lo >= k && k0 >= -1<<30 {
				return true
			}
		}
	}
	return false
}

// safeIntervals: whatever is configured, intervals are positive when they are divided
// by, and those over 1000 stay so.
func (c *C) safeIntervals(g *eng.Graph, gv *eng.Val) {
	t := g.Terms()
	// where they are divided by
	type use struct {
		v *eng.Val
		n string
	}
	var uses []use
	gv.Sub.Each(func(v *eng.Val) {
		if v.Op != eng.OpBin {
			return
		}
		x := t.Of(v)
		if x.Op != eng.OpBin || x.Aux != "%" && x.Aux != "/" {
			return
		}
		s, n := cfgField(x.Args[1])
		if s != skipType {
			return
		}
		if lo, _ := t.BlockFacts(v.Blk).Range(x.Args[1]); lo >= 1 {
			c.OK("clamped", n, v.Where())
			return
		}
		uses = append(uses, use{v, n})
	})
	// what is written before the start
	low := map[string]bool{}
	loops := map[*eng.Loop]*eng.Term{}
	for _, l := range g.Loops() {
		cv := cover(t, l)
		if cv == nil || cv.Idx == nil || len(l.Exits()) != 1 || !l.Head.Dominates(gv.Blk) {
			continue
		}
		fs, elem := pointedFields(t, g, l, cv)
		if len(fs) == 0 {
			continue
		}
		loops[l] = elem
		if c.clampsElem(t, g, l, elem) {
			for _, f := range fs {
				low[f] = true
			}
		}
	}
	var cfgP *eng.Path
	for _, p := range g.Params {
		if pt, ok := p.Typ.Underlying().(*types.Pointer); ok && eng.TypeName(pt.Elem()) == elcType {
			cfgP = t.FieldLoc(t.PtrLoc(t.Of(p)), pt.Elem(), "TaskSkip")
		}
	}
	if !c.Expect(cfgP != nil, "clamped", "configuration", gv.Where(), "there is no configuration") {
		return
	}
	used := map[string]*eng.Val{}
	for _, u := range uses {
		used[u.n] = u.v
	}
	skipT := g.P.Named(pEL, "EventLoopTaskSkipConfig")
	st := skipT.Underlying().(*types.Struct)
	values := true
	for i := 0; i < st.NumFields(); i++ {
		name := st.Field(i).Name()
		loc := t.FieldLoc(cfgP, skipT, name)
		final := t.LoadAt(loc, st.Field(i).Type(), gv)
		mine := func(p *eng.Path) bool {
			if s, n := p.LastField(); s == skipType && n == name {
				return true
			}
			for _, el := range loops {
				if p.Root == el && len(p.Steps) == 0 {
					return true
				}
			}
			return false
		}
		isStore := map[*eng.Val]bool{}
		s := &Sim{G: g, T: t}
		g.EachOwn(func(v *eng.Val) {
			if v.Op == eng.OpStore && mine(t.PathOf(v.Args[0])) {
				isStore[v] = true
				s.Track = append(s.Track, t.Of(v.Args[1]), t.LoadAt(t.PathOf(v.Args[0]), v.Args[1].Typ, v))
			}
		})
		if used[name] != nil && !low[name] {
			s.Track = append(s.Track, final)
		}
		s.Rel = func(cond *eng.Term) bool {
			for _, lf := range t.Leaves(cond, nil) {
				m, _ := t.Lin(condSide(lf))
				for a := range m {
					for _, la := range t.Leaves(a, nil) {
						if (la.Op == eng.OpLoad || la.Op == eng.OpMemPhi) && la.Path != nil && mine(la.Path) {
							return true
						}
					}
				}
			}
			return false
		}
		worst := int64(1)
		s.Event = func(e *St, v *eng.Val) {
			if v == gv && used[name] != nil && !low[name] {
				x := e.Resolve(final)
				lo, _ := e.Facts().Range(x)
				if k, isC := x.Int(); isC {
					lo = k
				}
				if lo < worst {
					worst = lo
				}
			}
			if !isStore[v] {
				return
			}
			old := t.LoadAt(t.PathOf(v.Args[0]), v.Args[1].Typ, v)
			x := e.Resolve(t.Of(v.Args[1]))
			old2 := e.Resolve(old)
			if x == old2 || x == old {
				return
			}
			k, isC := x.Int()
			lo, hi := e.Facts().Range(old2)
			if l2, h2 := e.Facts().Range(old); old2 != old {
				if l2 > lo {
					lo = l2
				}
				if h2 < hi {
					hi = h2
				}
			}
			if !(isC && (hi <= 0 && k >= 1 || lo > 1000 && k > 1000)) && values {
				values = false
				c.Bad("clamped", "value", v.Where(), "an interval is replaced by %v, which changes in which iterations the duty runs (path %s)", x, e.Path())
			}
		}
		s.Run()
		c.States += s.States
		c.Expect(!s.Overflow, "clamped", name+" paths", gv.Where(), "too many paths")
		if u := used[name]; u != nil {
			c.Expect(low[name] || worst >= 1, "clamped", name, u.Where(), "divides by the configured interval TaskSkip.%s, which may be zero", name)
		}
	}
	if values {
		c.OK("clamped", "values", gv.Where())
	}
	// and nothing changes them later
	changed := false
	gv.Sub.Each(func(v *eng.Val) {
		if v.Op == eng.OpStore {
			if s, n := t.PathOf(v.Args[0]).LastField(); s == skipType || s == elcType {
				changed = true
				c.Bad("clamped", n+" changed", v.Where(), "the configuration is changed while the loop runs")
			}
		}
	})
	if !changed {
		c.OK("clamped", "constant", gv.Where())
	}
}

// pointedFields: the loop runs through pointers to intervals: their names.
func pointedFields(t *eng.Terms, g *eng.Graph, l *eng.Loop, cv *Cover) ([]string, *eng.Term) {
	x := cv.List
	if x.Op != eng.OpSlice || x.Args[0].Op != eng.OpAlloc {
		return nil, nil
	}
	pt, ok := x.Args[0].Typ.Underlying().(*types.Pointer)
	if !ok {
		return nil, nil
	}
	arr, ok := pt.Elem().Underlying().(*types.Array)
	if !ok {
		return nil, nil
	}
	ep, ok := arr.Elem().Underlying().(*types.Pointer)
	if !ok {
		return nil, nil
	}
	_ = ep
	var pre *eng.Val
	for _, p := range l.Head.Preds {
		if !l.Blocks[p] {
			pre = p.Last()
		}
	}
	if pre == nil {
		return nil, nil
	}
	var r []string
	for k := int64(0); k < arr.Len(); k++ {
		e := t.LoadAt(t.IdxLoc(t.PtrLoc(x.Args[0]), t.Int(k), arr.Elem()), arr.Elem(), pre)
		if e.Op != eng.OpFieldAddr {
			return nil, nil
		}
		s, n := t.PtrLoc(e).LastField()
		if s != skipType {
			return nil, nil
		}
		r = append(r, n)
	}
	sort.Strings(r)
	// the pointer of the current element
	var elem *eng.Term
	g.EachOwn(func(v *eng.Val) {
		if elem == nil && v.Op == eng.OpLoad && l.Inside(v) {
			if f, ok := cv.ElemOf(t, t.Of(v)); ok && len(f) == 0 {
				elem = t.Of(v)
			}
		}
	})
	return r, elem
}

// clampsElem: after an iteration the current element is at least one.
func (c *C) clampsElem(t *eng.Terms, g *eng.Graph, l *eng.Loop, elem *eng.Term) bool {
	if elem == nil {
		return false
	}
	ok, n := true, 0
	p := t.PtrLoc(elem)
	tp := types.Typ[types.Int]
	s := &Sim{G: g, T: t, From: l.Head}
	for _, la := range l.Latches {
		s.Track = append(s.Track, t.LoadAt(p, tp, la.Last()))
	}
	s.Edge = func(e *St, from, to *eng.Blk) bool {
		if to != l.Head {
			return l.Blocks[to]
		}
		n++
		x := e.Resolve(t.LoadAt(p, tp, from.Last()))
		lo, _ := e.Facts().Range(x)
		if k, isC := x.Int(); isC {
			lo = k
		}
		if lo < 1 {
			ok = false
		}
		return false
	}
	s.Run()
	c.States += s.States
	return ok && n > 0 && !s.Overflow
}

// stops: no duty is started unless the flag was seen unset since the last wait or the
// last duty; once it is seen set nothing is started and the loop ends.
func (c *C) stops(t *eng.Terms, body *eng.Graph, main *eng.Loop, fl flag) {
	bad := map[string]bool{}
	seen := map[string]string{}
	reads := func(x *eng.Term) bool {
		for _, a := range condAtoms(t, x) {
			if fl.read(t, a) {
				return true
			}
		}
		return false
	}
	rel := func(cond *eng.Term) bool {
		for _, lf := range t.Leaves(cond, nil) {
			if reads(lf) {
				return true
			}
		}
		return joinedUnder(t, cond, reads)
	}
	s := &Sim{G: body, T: t, Rel: rel}
	dutyOf := func(v *eng.Val) string {
		f, _, _, _ := guardOf(t, v.Blk)
		if f == "" {
			d, _ := hasDuty(v)
			f = "?" + d
		}
		return f
	}
	s.Event = func(e *St, v *eng.Val) {
		if _, ok := hasDuty(v); ok {
			d := dutyOf(v)
			seen[d] = v.Where()
			switch {
			case e.A == "X" || e.A == "XX":
				bad[d] = true
				c.Bad("stop", d, v.Where(), "is started although the loop was seen to be stopped (path %s)", e.Path())
				e.Dead = true
			case e.A == "C" || e.A == "D"+d:
			default:
				bad[d] = true
				c.Bad("stop", d, v.Where(), "is started without a look at whether the loop was stopped since the last wait or duty (path %s)", e.Path())
				e.Dead = true
			}
			if e.A != "X" && e.A != "XX" {
				e.A = "D" + d
			}
			return
		}
		if v.Op == eng.OpCall && Callee(v) == "time.Sleep" && e.A != "X" && e.A != "XX" {
			e.A = "S"
		}
	}
	s.Branch = func(e *St, cond *eng.Term, val bool) {
		stopped, ok := fl.stopCond(t, cond, val)
		if !ok {
			return
		}
		if e.A == "X" || e.A == "XX" {
			if !stopped {
				e.Dead = true // it stays set
			}
			return
		}
		e.A = "C"
		if stopped {
			e.A = "X"
		}
	}
	ends := true
	s.Edge = func(e *St, from, to *eng.Blk) bool {
		if to == main.Head && main.Blocks[from] {
			switch e.A {
			case "X":
				e.A = "XX"
			case "XX":
				ends = false
				c.Bad("stop", "ends", from.Last().Where(), "the loop goes on after it was seen to be stopped (path %s)", e.Path())
				return false
			}
		}
		return true
	}
	exits := 0
	s.Exit = func(e *St, ret *eng.Val) {
		exits++
		if e.A != "X" && e.A != "XX" {
			ends = false
			c.Bad("stop", "goes on", ret.Where(), "the loop may end although it was not stopped (path %s)", e.Path())
		}
	}
	s.Run()
	c.States += s.States
	if s.Overflow {
		c.Bad("stop", "paths", body.GoVal.Where(), "too many paths")
		return
	}
	for d, w := range seen {
		if !bad[d] {
			c.OK("stop", d, w)
		}
	}
	if ends && exits > 0 {
		c.OK("stop", "ends", body.GoVal.Where())
	} else if exits == 0 {
		c.Bad("stop", "ends", body.GoVal.Where(), "the loop never ends")
	}
	// Every iteration looks at the flag.
	s2 := &Sim{G: body, T: t, From: main.Head, Rel: rel}
	s2.Branch = func(e *St, cond *eng.Term, val bool) {
		if _, ok := fl.stopCond(t, cond, val); ok {
			e.A = "C"
		}
	}
	okI := true
	s2.Edge = func(e *St, from, to *eng.Blk) bool {
		if to == main.Head && e.A != "C" {
			okI = false
			c.Bad("stop", "iteration", from.Last().Where(), "an iteration does not look at whether the loop was stopped (path %s)", e.Path())
		}
		return to != main.Head && main.Blocks[to]
	}
	s2.Run()
	c.States += s2.States
	if okI && !s2.Overflow {
		c.OK("stop", "iteration", body.GoVal.Where())
	}
}

// sameAddr: two reads of one address (a variable that is only assigned once per iteration).
func sameAddr(t *eng.Terms, body *eng.Graph, a, b *eng.Term) bool {
	if a == b {
		return a != nil
	}
	if a == nil || b == nil {
		return false
	}
	kept := func(x, y *eng.Term) bool { // x is read from a variable that is only set to y
		if x.Op != eng.OpLoad && x.Op != eng.OpMemPhi || x.Path == nil || x.Path.Root.Op != eng.OpAlloc || len(x.Path.Steps) > 0 {
			return false
		}
		n, same := 0, false
		body.Each(func(v *eng.Val) {
			if v.Op == eng.OpStore && t.PathOf(v.Args[0]).Root == x.Path.Root {
				n++
				z := t.Of(v.Args[1])
				same = z == y || y.Path != nil && eng.SamePath(x.Path, y.Path)
			}
		})
		return n == 1 && same
	}
	return kept(a, b) || kept(b, a)
}

// metaLogged: the metadata of each node is logged under its own address.
func (c *C) metaLogged(t *eng.Terms, body *eng.Graph, ops map[string][]*eng.Val) {
	if !c.Expect(len(ops["LogMeta"]) > 0, "meta", "LogMeta", body.GoVal.Where(), "the metadata is never passed to the logger") {
		return
	}
	for _, v := range ops["LogMeta"] {
		f, _, _, _ := guardOf(t, siteOf(body, v).Blk)
		c.Expect(f == "Meta", "meta", "LogMeta", v.Where(), "is logged at the interval of %q", f)
		m := fieldTerm(t, t.Of(v.Args[1]), "Items")
		n := 0
		body.EachOwn(func(u *eng.Val) {
			if u.Op != eng.OpMapUpdate || m == nil || t.Of(u.Args[0]) != m {
				return
			}
			n++
			item := t.Of(u.Args[2])
			var call *eng.Val
			for _, p := range [][2]string{{"LenDP", "DPs"}, {"LenCentroids", "Centroids"}} {
				x := fieldTerm(t, item, p[0])
				root, fs := sel(x)
				ok := root != nil && len(fs) == 1 && fs[0] == p[1] && root.Op == eng.OpCall && Callee(root.V) == "kmeansClient.Meta"
				if ok && call != nil && call != root.V {
					ok = false
				}
				if ok {
					call = root.V
				}
				c.Expect(ok, "meta", p[0], u.Where(), "%s is %v and not the %s of the node's metadata", p[0], x, p[1])
			}
			if call == nil {
				return
			}
			cl := t.Of(call.Args[0])
			ok := cl.Op == eng.OpCall && Callee(cl.V) == "rpc.KMeansClient" && sameAddr(t, body, addrOf(t, t.Of(cl.V.Args[0])), t.Of(u.Args[1]))
			c.Expect(ok, "meta", "address", u.Where(), "the metadata is recorded under %v, which is not the address it came from", t.Of(u.Args[1]))
		})
		c.Expect(n > 0, "meta", "items", v.Where(), "what is logged has no data of any node")
	}
}

func init() {
	register("P17", checkP17, Desc{
		How: "The event loop is flattened into one graph with all of its duties. For every remote operation in it the conditions that decide about it are read off the dominating branches: counter%interval==0 with the duty's own interval field and interval<=1000, and nothing else but the loops over all namespaces of the local node. All paths are walked with an automaton for the stop flag, the counter is followed around the loop, and the validation of the intervals is checked for every interval that is divided by.",
		Rules: map[string]string{
			"flag": "the stop function sets a flag on all paths and nothing clears it", "starts": "one goroutine runs the duties", "loop": "in a loop",
			"duty": "every duty is there and nothing else decides about it", "interval": "it runs if the counter is a multiple of its own interval and that is at most 1000", "amount": "with its own configured amounts",
			"local": "at the local node", "namespaces": "for all namespaces that the local node reports", "tick": "the counter goes up by one per iteration, after the duties, and starts over beyond 1000",
			"clamped": "intervals are at least one wherever they are divided by, valid ones are left alone and those over 1000 stay over 1000", "stop": "a duty is only started after looking at the flag since the last wait and duty; when set nothing is started and the loop ends",
			"meta": "metadata is logged under the address it came from",
		},
		Assumes: []string{"loggers return", "the configuration is not changed by its owner while the loop runs"},
	})
}
