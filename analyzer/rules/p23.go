package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"trypocheck/eng"
)

func checkP23(c *C) {
	done := map[string]bool{}
	for _, e := range c.everything() {
		if eng.FuncPkgPath(e.Fn) == pRPC {
			continue
		}
		e.G.EachOwn(func(v *eng.Val) {
			if v.Op != eng.OpCall || Callee(v) != "kmeansClient.StealCentroids" || len(v.Args) < 3 {
				return
			}
			if key := fmt.Sprint(v.Where(), v.Pos); !done[key] {
				done[key] = true
				(&balance{c: c, e: e, g: e.G, t: e.G.Terms(), call: v}).check()
			}
		})
	}
	c.Min("towards-local", 1)
	c.Min("asked", 1)
}

// balance is one place that has data moved.
type balance struct {
	c     *C
	e     entry
	g     *eng.Graph
	t     *eng.Terms
	call  *eng.Val
	m     *eng.Term // how much each node has
	other *eng.Term
}

func (b *balance) check() {
	c, t, v := b.c, b.t, b.call
	inst := b.e.Name
	cl := t.Of(v.Args[0])
	if !c.Expect(cl.Op == eng.OpCall && Callee(cl.V) == "rpc.KMeansClient", "towards-local", inst, v.Where(), "the node that data is moved to is not known") {
		return
	}
	to := addressOf(t, t.Of(cl.V.Args[0]))
	c.Expect(b.isLocal(to), "towards-local", inst, v.Where(), "data is moved to %v and not to the local node", to)
	b.other = b.single(addressOf(t, t.Of(v.Args[1])))

	l := b.g.LoopOf(v.Blk)
	if !c.Expect(l != nil, "needy", inst, v.Where(), "the nodes are not gone through") {
		return
	}
	amount := t.Of(v.Args[2])
	track := []*eng.Term{amount}
	for blk := range l.Blocks {
		if last := blk.Last(); last != nil && last.Op == eng.OpIf {
			track = append(track, t.Of(last.Args[0]))
		}
	}
	seen := false
	bad := map[string]string{}
	note := func(rule, f string, a ...interface{}) {
		if bad[rule] == "" {
			bad[rule] = fmt.Sprintf(f, a...)
		}
	}
	s := &Sim{G: b.g, T: t, From: l.Head, Track: track, Limit: 4000}
	s.Edge = func(y *St, from, to *eng.Blk) bool { return l.Blocks[to] && to != l.Head }
	s.Event = func(y *St, w *eng.Val) {
		if w != v {
			return
		}
		seen = true
		facts := append(t.BlockFacts(v.Blk).List(), y.Facts().List()...)
		if !b.notLocal(facts) {
			note("other", "the local node may be asked for its own data (path %s)", y.Path())
		}
		b.figures(facts, y.Resolve(amount), y, note)
	}
	s.Run()
	c.States += s.States
	if !c.Expect(seen && !s.Overflow, "needy", inst, v.Where(), "the paths to the transfer are not known") {
		return
	}
	for _, r := range []string{"other", "amount", "needy", "surplus"} {
		c.Expect(bad[r] == "", r, inst, v.Where(), "%s", bad[r])
	}
	if b.m != nil {
		b.keptUp(l)
		b.asked(t.Of(cl.V.Args[1]))
	}
}

// single: the value of a variable that has only one.
func (b *balance) single(y *eng.Term) *eng.Term {
	t := b.t
	if y.Path == nil || y.Path.Root.Op != eng.OpAlloc || len(y.Path.Steps) != 0 {
		return y
	}
	var r *eng.Term
	n := 0
	rootOf(b.g).Each(func(w *eng.Val) {
		if w.Op == eng.OpStore && t.PathOf(w.Args[0]).Root == y.Path.Root {
			n++
			r = t.Of(w.Args[1])
		}
	})
	if n == 1 && r.Typ != nil && types.Identical(r.Typ, y.Typ) {
		return r
	}
	return y
}

func (b *balance) isLocal(y *eng.Term) bool {
	return y != nil && (isLocalAddr(y) || isLocalAddr(b.single(y)))
}

// notLocal: the other node was compared with the local one.
func (b *balance) notLocal(facts []eng.Fact) bool {
	t := b.t
	for _, f := range facts {
		var x, y *eng.Term
		c := f.Cond
		if f.Val {
			continue
		}
		at := c.V
		val := func(a *eng.Val) *eng.Term {
			z := t.Of(a)
			if p, ok := a.Typ.Underlying().(*types.Pointer); ok {
				z = t.LoadAt(t.PtrLoc(z), p.Elem(), at)
			}
			return b.single(z)
		}
		switch {
		case c.Op == eng.OpCall && at != nil && strings.HasSuffix(Callee(at), ".Comp") && len(at.Args) == 2,
			c.Op == eng.OpCall && at != nil && strings.HasSuffix(Callee(at), ").Comp") && len(at.Args) == 2:
			x, y = val(at.Args[0]), val(at.Args[1])
		case c.Op == eng.OpBin && c.Aux == "==":
			x, y = b.single(addressOf(t, c.Args[0])), b.single(addressOf(t, c.Args[1]))
		default:
			continue
		}
		if b.isLocal(x) && y == b.other || b.isLocal(y) && x == b.other {
			return true
		}
	}
	return false
}

// counted: x is how much a node has, according to a table.
func (b *balance) counted(x *eng.Term) (m, node *eng.Term) {
	t := b.t
	if x.Op == eng.OpExtract && x.Aux == "0" && x.Args[0].Op == eng.OpLookup {
		x = x.Args[0]
	}
	if x.Op == eng.OpLookup && len(x.Args) == 2 {
		// as the table is now
		if strings.TrimSuffix(x.Aux, ",ok") != t.MapVersion(x.Args[0], b.call) {
			return nil, nil
		}
		return x.Args[0], b.single(x.Args[1])
	}
	if x.Op == eng.OpExtract && x.Aux == "2" && x.Args[0].Op == eng.OpNext {
		m := t.Of(x.Args[0].V.Args[0])
		if m.Op == eng.OpRange {
			m = t.Of(m.V.Args[0])
		}
		key := t.Extract(x.Args[0], 1, b.other.Typ)
		return m, key
	}
	// a copy that is kept up
	if x.Op == eng.OpPhi && x.JoinBlk() != nil && x.JoinBlk().IsLoopHeader() {
		l := b.g.LoopAt(x.JoinBlk())
		if l == nil || !l.Blocks[b.call.Blk] {
			return nil, nil
		}
		entry, _ := t.Carried(l, x)
		for _, e := range entry {
			if e.Op == eng.OpExtract && e.Aux == "0" {
				e = e.Args[0]
			}
			if e.Op != eng.OpLookup || len(e.Args) != 2 {
				return nil, nil
			}
			m, node = e.Args[0], b.single(e.Args[1])
		}
		return m, node
	}
	return nil, nil
}

// ineq is a linear fact, at most zero.
func (b *balance) ineqs(facts []eng.Fact) []*eng.Term {
	return newBounder(b.t).linear(facts)
}

func (b *balance) implied(E *eng.Term, by []*eng.Term, depth int) bool {
	t := b.t
	at, k := t.Lin(E)
	if len(at) == 0 {
		return k <= 0
	}
	if depth == 0 {
		return false
	}
	for _, f := range by {
		fa, _ := t.Lin(f)
		shared := false
		for a, n := range fa {
			if q, ok := at[a]; ok && (q > 0) == (n > 0) {
				shared = true
			}
		}
		if shared && b.implied(t.Bin(token.SUB, E, f, intT), by, depth-1) {
			return true
		}
	}
	return false
}

// nonNeg: counts are not negative, nor are their sums and parts.
func (b *balance) nonNeg(x *eng.Term, by []*eng.Term, depth int) bool {
	t := b.t
	if x == nil || depth > 12 {
		return false
	}
	if n, ok := x.Int(); ok {
		return n >= 0
	}
	if b.implied(t.Bin(token.SUB, t.Int(0), x, intT), by, 2) {
		return true
	}
	if m, _ := b.count(x); m {
		return true
	}
	switch x.Op {
	case eng.OpLen:
		return true
	case eng.OpConst:
		return !strings.HasPrefix(x.Aux, "-")
	case eng.OpConv:
		return b.nonNeg(x.Args[0], by, depth+1)
	case eng.OpBin:
		if x.Aux == "/" || x.Aux == "*" {
			return b.nonNeg(x.Args[0], by, depth+1) && b.nonNeg(x.Args[1], by, depth+1)
		}
	case eng.OpPhi:
		args, _ := t.PhiArgs(x)
		for _, a := range args {
			if a == x {
				continue
			}
			if d, k := t.Lin(a); d[x] == 1 && k >= 0 {
				for y, n := range d {
					if y != x && (n < 0 || !b.nonNeg(y, by, depth+1)) {
						return false
					}
				}
				continue
			}
			if !b.nonNeg(a, by, depth+1) {
				return false
			}
		}
		return true
	}
	at, k := t.Lin(x)
	if _, self := at[x]; self || k < 0 {
		return false
	}
	for a, n := range at {
		if n < 0 || !b.nonNeg(a, by, depth+1) {
			return false
		}
	}
	return true
}

// count: an entry of a table of counts (as it was filled).
func (b *balance) count(x *eng.Term) (bool, *eng.Term) {
	if x.Op == eng.OpExtract && x.Aux == "2" && x.Args[0].Op == eng.OpNext {
		m := b.t.Of(x.Args[0].V.Args[0])
		if m.Op == eng.OpRange {
			m = b.t.Of(m.V.Args[0])
		}
		return m.Op == eng.OpMakeMap, m
	}
	if x.Op == eng.OpLookup && len(x.Args) == 2 && x.Args[1].Op == eng.OpExtract && x.Args[1].Aux == "1" && x.Args[1].Args[0].Op == eng.OpNext {
		m := b.t.Of(x.Args[1].Args[0].V.Args[0])
		if m.Op == eng.OpRange {
			m = b.t.Of(m.V.Args[0])
		}
		return m == x.Args[0] && m.Op == eng.OpMakeMap, m
	}
	return false, nil
}

// mean: x is the sum over a table by its size.
func (b *balance) mean(x *eng.Term) *eng.Term {
	t := b.t
	if x.Op != eng.OpBin || x.Aux != "/" {
		return nil
	}
	n, sum := x.Args[1], x.Args[0]
	if n.Op != eng.OpLen || sum.Op != eng.OpPhi || sum.JoinBlk() == nil {
		return nil
	}
	m := n.Args[0]
	l := b.g.LoopAt(sum.JoinBlk())
	if l == nil || cover(t, l) == nil || len(l.Exits()) != 1 {
		return nil
	}
	entry, back := t.Carried(l, sum)
	for _, e := range entry {
		if !isZeroConst(e) {
			return nil
		}
	}
	for _, e := range back {
		d, k := t.Lin(e)
		if len(d) != 2 || k != 0 || d[sum] != 1 {
			return nil
		}
		for a, n := range d {
			if a == sum {
				continue
			}
			ok, am := b.count(a)
			if n != 1 || !ok || am != m {
				return nil
			}
		}
	}
	return m
}

// fraction: x is a part of the mean that grows with it.
func (b *balance) fraction(x, mean *eng.Term) bool {
	switch x.Op {
	case eng.OpConv:
		return b.fraction(x.Args[0], mean)
	case eng.OpBin:
		switch x.Aux {
		case "*":
			for i := range x.Args {
				k, p := x.Args[i], x.Args[1-i]
				if f, ok := constFloat(k); ok && f > 0 && f <= 1 && stripConv(p) == mean {
					return true
				}
			}
		case "/":
			if f, ok := constFloat(x.Args[1]); ok && f >= 1 {
				p := stripConv(x.Args[0])
				if p == mean {
					return true
				}
				if d, k := b.t.Lin(p); k == 0 && len(d) == 1 && d[mean] > 0 && float64(d[mean]) <= f {
					return true
				}
			}
		}
	}
	return false
}

func constFloat(x *eng.Term) (float64, bool) {
	if x.Op != eng.OpConst || x.V == nil || x.V.Const == nil {
		if n, ok := x.Int(); ok {
			return float64(n), true
		}
		return 0, false
	}
	f, _ := constant.Float64Val(constant.ToFloat(x.V.Const))
	return f, true
}

func stripConv(x *eng.Term) *eng.Term {
	for x.Op == eng.OpConv {
		x = x.Args[0]
	}
	return x
}

// figures: what is known about the amounts at the transfer.
func (b *balance) figures(facts []eng.Fact, amount *eng.Term, y *St, note func(rule, f string, a ...interface{})) {
	t := b.t
	by := b.ineqs(facts)
	// who has how much
	var local, others, means []*eng.Term
	seen := map[*eng.Term]bool{}
	look := func(x *eng.Term) {
		t.Walk(x, func(a *eng.Term) bool {
			if seen[a] {
				return true
			}
			seen[a] = true
			if m, node := b.counted(a); m != nil {
				if b.isLocal(node) {
					local = append(local, a)
				} else if node == b.other {
					others = append(others, a)
				}
			}
			if b.mean(a) != nil {
				means = append(means, a)
			}
			return true
		})
	}
	for _, f := range facts {
		look(f.Cond)
	}
	look(amount)
	var margins []*eng.Term
	for a := range seen {
		for _, m := range means {
			if b.fraction(a, m) && b.nonNeg(a, nil, 0) {
				margins = append(margins, a)
				by = append(by, t.Bin(token.SUB, t.Int(0), a, intT))
			}
		}
	}
	tooMuch := "the transfer is not shown to depend on how much nodes have on average"
	if len(means) == 0 {
		note("needy", "%s", tooMuch)
	}
	needy := false
	for _, m := range means {
		for _, lo := range local {
			for _, mg := range margins {
				if mp, _ := b.counted(lo); mp == b.mean(m) && b.implied(t.Bin(token.SUB, t.Bin(token.ADD, lo, mg, intT), m, intT), by, 3) {
					needy = true
					b.m = mp
				}
			}
		}
	}
	if !needy {
		note("needy", "data is moved although the local node may not be clearly below the average (path %s)", y.Path())
	}
	surplus := false
	for _, m := range means {
		for _, o := range others {
			left := t.Bin(token.SUB, o, amount, intT)
			if mp, _ := b.counted(o); mp == b.mean(m) && b.implied(t.Bin(token.SUB, m, left, intT), by, 3) {
				surplus = true
			}
		}
		// nobody else has anything
		for a := range seen {
			if a.Op != eng.OpLen {
				continue
			}
			one := b.implied(t.Bin(token.SUB, a, t.Int(1), intT), by, 2)
			for _, f := range facts {
				if f.Val && f.Cond == t.Bin(token.EQL, a, t.Int(1), boolT) {
					one = true
				}
			}
			if one && (a.Args[0] == b.mean(m) || b.nodesOf(b.mean(m)) == a.Args[0]) {
				surplus = true
			}
		}
	}
	if !surplus {
		note("surplus", "data is taken from a node that may be left with less than the average (path %s)", y.Path())
	}
	pos := b.implied(t.Bin(token.SUB, t.Int(1), amount, intT), by, 2)
	if !pos && b.nonNeg(amount, by, 0) {
		zero, known := y.Truth(t.Bin(token.EQL, amount, t.Int(0), boolT))
		pos = known && !zero
		for _, f := range facts {
			pos = pos || !f.Val && f.Cond == t.Bin(token.EQL, amount, t.Int(0), boolT)
		}
	}
	if !pos {
		note("amount", "an amount of %v, which may be zero or less, is asked for (path %s)", amount, y.Path())
	}
}

// entriesOf: what is put into a table outside of the loop that moves data.
func (b *balance) entriesOf(m *eng.Term) []*eng.Val {
	var r []*eng.Val
	l := b.g.LoopOf(b.call.Blk)
	b.g.Each(func(w *eng.Val) {
		if w.Op == eng.OpMapUpdate && b.t.Of(w.Args[0]) == m && !l.Blocks[w.Blk] {
			r = append(r, w)
		}
	})
	return r
}

// nodesOf: the list of the nodes that were asked for a table.
func (b *balance) nodesOf(m *eng.Term) *eng.Term {
	if m == nil {
		return nil
	}
	var L *eng.Term
	for _, u := range b.entriesOf(m) {
		for _, s := range b.answersOf(u) {
			I, _, fs := elemAt(b.atStart(s.key, s.at))
			if I == nil || len(fs) != 0 || L != nil && L != I {
				return nil
			}
			L = I
		}
	}
	return L
}

// answer is one way a node's count gets into the table.
type answer struct {
	at       *eng.Val
	key, val *eng.Term
	flag     *eng.Term
	want     bool
}

// answersOf follows an entry back to the goroutine that asked.
func (b *balance) answersOf(u *eng.Val) []answer {
	t := b.t
	key, val := t.Of(u.Args[1]), t.Of(u.Args[2])
	kr, kf := sel(key)
	vr, vf := sel(val)
	if vr == nil || vr.Op != eng.OpRecv {
		return []answer{{at: u, key: b.single(key), val: val}}
	}
	if kr != vr || len(kf) != 1 || len(vf) != 1 {
		return nil
	}
	var r []answer
	for _, s := range sendsTo(t, vr) {
		sv := t.Of(s.Args[1])
		a := answer{at: s, key: b.single(fieldTerm(t, sv, kf[0])), val: fieldTerm(t, sv, vf[0])}
		for _, n := range boolFields(vr) {
			if v, known := t.BlockFacts(u.Blk).Truth(fieldTerm(t, vr, n)); known {
				a.flag, a.want = fieldTerm(t, sv, n), v
			}
		}
		r = append(r, a)
	}
	return r
}

// atStart: a parameter of a goroutine is what it was started with.
func (b *balance) atStart(x *eng.Term, at *eng.Val) *eng.Term { return b.single(x) }

// asked: every entry is what a node answered, in the right namespace; one that could
// not be asked gets no entry.
func (b *balance) asked(ns *eng.Term) {
	c, t := b.c, b.t
	inst := b.e.Name
	es := b.entriesOf(b.m)
	c.Expect(len(es) > 0, "asked", inst, b.call.Where(), "nobody is asked how much they have")
	for _, u := range es {
		as := b.answersOf(u)
		c.Expect(len(as) > 0, "asked", inst, u.Where(), "the entry is not what a node answered")
		for _, a := range as {
			bad := ""
			track := []*eng.Term{a.val}
			if a.flag != nil {
				track = append(track, a.flag)
			}
			g := a.at.Graph()
			var cells []*eng.Term
			g.EachOwn(func(v *eng.Val) {
				if v.Op == eng.OpIf {
					track = append(track, t.Of(v.Args[0]))
				}
				if v.Op == eng.OpCall && Callee(v) == "kmeansClient.LenDP" {
					if er := errCell(t, t.Of(v)); er != nil {
						y := t.LoadAt(er, errType(t, t.Of(v)), a.at)
						cells = append(cells, y)
					}
				}
			})
			s := &Sim{G: g, T: t, Track: append(track, cells...), Limit: 2000}
			if l := g.LoopOf(a.at.Blk); l != nil {
				s.From = l.Head
				s.Edge = func(y *St, from, to *eng.Blk) bool { return l.Blocks[to] && to != l.Head }
			}
			s.Event = func(y *St, v *eng.Val) {
				if v != a.at {
					return
				}
				if a.flag != nil {
					f := y.Resolve(a.flag)
					got, known := y.Truth(f)
					if k, ok := f.Bool(); ok {
						got, known = k, true
					}
					if known && got != a.want {
						return
					}
					if !known {
						y = y.fork()
						y.Assume(f, a.want)
					}
				}
				x := y.Resolve(a.val)
				isZero := isZeroConst(x)
				if !isZero && (x.Op != eng.OpCall || Callee(x.V) != "kmeansClient.LenDP") {
					bad = fmt.Sprintf("%v is taken for what a node has", x)
					return
				}
				if !isZero {
					cl := t.Of(x.V.Args[0]).V
					if to := b.single(addressOf(t, t.Of(cl.Args[0]))); to != a.key {
						bad = fmt.Sprintf("the answer of %v is taken for that of %v", to, a.key)
					}
					n := t.Of(cl.Args[1])
					if b.single(n) != b.single(ns) {
						bad = fmt.Sprintf("nodes are asked about namespace %v, but data of %v is moved", n, ns)
					}
				}
				ok := false
				for _, e := range cells {
					if z, known := y.Truth(t.Bin(eqTok, e, t.Zero(e.Typ), nil)); known && z && !isZero {
						ok = true
					}
					for _, f := range y.Facts().List() {
						if f.Val && f.Cond.Op == eng.OpExtract && f.Cond.Aux == "1" && f.Cond.Args[0].Op == eng.OpAssert {
							as := f.Cond.Args[0]
							if t.Of(as.V.Args[0]) == e && serverError(as.V) {
								ok = true
							}
						}
					}
				}
				if !ok {
					bad = "a node that could not be asked may be taken for one that has nothing (path " + y.Path() + ")"
				}
			}
			s.Run()
			c.States += s.States
			c.Expect(bad == "" && !s.Overflow, "asked", inst, a.at.Where(), "%s", bad)
		}
	}
}

// serverError: an assertion that the other node answered with an error.
func serverError(v *eng.Val) bool {
	T := v.Typ
	if tp, ok := T.(*types.Tuple); ok && tp.Len() > 0 {
		T = tp.At(0).Type()
	}
	return eng.TypeName(T) == "net/rpc.ServerError"
}

// keptUp: what was moved counts for the next decision.
func (b *balance) keptUp(l *eng.Loop) {
	c, t, v := b.c, b.t, b.call
	moved := t.Extract(t.Of(v), 0, intT)
	var upd []*eng.Blk
	for blk := range l.Blocks {
		for _, w := range blk.Instrs {
			if w.Op != eng.OpMapUpdate || t.Of(w.Args[0]) != b.m || !b.isLocal(t.Of(w.Args[1])) || !v.Blk.Dominates(w.Blk) {
				continue
			}
			d, k := t.Lin(t.Of(w.Args[2]))
			if k != 0 || len(d) != 2 || d[moved] != 1 {
				continue
			}
			for a, n := range d {
				if a.Op == eng.OpLookup && n == 1 && a.Args[0] == b.m && b.isLocal(b.single(a.Args[1])) {
					upd = append(upd, blk)
				}
			}
		}
	}
	ok := true
	for _, q := range l.Latches {
		if q != v.Blk && !l.G.ReachesAvoiding(v.Blk, q, l.Head) {
			continue
		}
		hit := false
		for _, u := range upd {
			if u == v.Blk || u.Dominates(q) || !l.G.ReachesAvoiding(v.Blk, q, u) {
				hit = true
			}
		}
		// a copy
		for _, w := range l.Head.Instrs {
			if w.Op != eng.OpPhi {
				continue
			}
			x := t.Of(w)
			if m, node := b.counted(x); m != b.m || !b.isLocal(node) {
				continue
			}
			args, preds := t.PhiArgs(x)
			for i, p := range preds {
				d, k := t.Lin(args[i])
				if p == q && k == 0 && len(d) == 2 && d[x] == 1 && d[moved] == 1 {
					hit = true
				}
			}
		}
		ok = ok && hit
	}
	c.Expect(ok, "kept-up", b.e.Name, v.Where(), "what was moved is not added to what the local node has before the next node is considered")
}

func init() {
	register("P23", checkP23, Desc{
		How: "Every place outside of the rpc package that has centroids moved is found. All paths through one turn of the loop around it are walked, and at the transfer the linear facts of the path have to imply: the other node was compared with the local one; the local node has at most the average less a fraction of it, where the average has to be the sum over the table of counts by its size, and the count has to be that of the table as it is then (or a copy that is kept up); the other node has at least the average left after the amount is gone, or it is the only one there is; the amount is at least one (a quotient of differences that the facts show to be non-negative, compared with zero). The receiving client has to be that of the configured local address. The entries of the table are followed back through the channel to the goroutines that asked: an entry has to pair a node with its own answer about the same namespace, and on all paths to the send (or those that set the flag that is looked at) either there was no error or it was an answer of the other node.",
		Rules: map[string]string{
			"towards-local": "data is moved to the local node", "other": "and not from it",
			"needy": "only while the local node is clearly below the average", "surplus": "only if the other stays above it, or is the only one",
			"amount": "the amount is positive", "kept-up": "what was moved counts for the next decision",
			"asked": "the counts are what the nodes answered; those that could not be asked have none",
		},
		Assumes: []string{"counts that nodes answer with are not negative", "the local node can reach itself: one that cannot is counted as empty, but the request to it to pull data fails as well", "'clearly below' means by any constant fraction of the average"},
	})
}
