package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"trypocheck/eng"
)

func checkP07(c *C) {
	c.expiredFormula()
	c.addDecision(false, true)
	c.managerTakes()
	c.onlyUnexpiredAdded()
	kinds := map[string]bool{"lost": true, "other": true}
	c.flowsOf("stays", kinds, func(fn *ssa.Function) bool {
		switch fn.Name() {
		case "Expire", "MemTrim", "MoveVector":
			return true
		}
		return false
	})
	c.prunes("Expire")
	c.prunes("MemTrim")
	c.everyCentroid("Expire")
	c.everyCentroid("MemTrim")
	c.servesUnexpired()
	c.receivedPruned()
	c.Import("P15", func(i Item) bool {
		return i.Inst == "Expire" || strings.HasPrefix(i.Inst, "Expire ") || i.Inst == "MemTrim"
	})
}

// expiredFormula: expired = enabled and now is after the expiry.
func (c *C) expiredFormula() {
	fn := c.method(pCommon, "DataPoint", "Expired")
	if fn == nil {
		c.Bad("expired", "DataPoint.Expired", "-", "there is no such method")
		return
	}
	w := where(c, fn)
	g := c.Flat(fn, "L0")
	t := g.Terms()
	isField := func(x *eng.Term, name string) bool {
		r, f := sel(x)
		return r != nil && r == t.Of(g.Params[0]) && len(f) == 1 && f[0] == name
	}
	var isNow func(x *eng.Term) bool
	isNow = func(x *eng.Term) bool {
		if x.Op != eng.OpCall || x.V == nil {
			return false
		}
		switch Callee(x.V) {
		case "time.Now":
			return true
		case "(time.Time).UTC", "(time.Time).Local":
			return isNow(t.Of(x.V.Args[0]))
		}
		return false
	}
	isExp := func(x *eng.Term) bool {
		for x.Op == eng.OpCall && x.V != nil && (Callee(x.V) == "(time.Time).UTC" || Callee(x.V) == "(time.Time).Local") {
			x = t.Of(x.V.Args[0])
		}
		return isField(x, "Expires")
	}
	// past says whether x being true means that the expiry has passed (1), has not (-1)
	past := func(x *eng.Term) int {
		neg := 1
		for x.Op == eng.OpUn && x.Aux == "!" {
			x, neg = x.Args[0], -neg
		}
		call := x
		sign := 1
		if x.Op == eng.OpBin {
			lin, k := t.Lin(x.Args[0])
			if len(lin) != 1 || k != 0 {
				return 0
			}
			for a, co := range lin {
				call = a
				if co < 0 {
					sign = -1
				}
			}
		}
		if call.Op != eng.OpCall || call.V == nil || len(call.V.Args) == 0 {
			return 0
		}
		a := t.Of(call.V.Args[0])
		var b *eng.Term
		if len(call.V.Args) > 1 {
			b = t.Of(call.V.Args[1])
		}
		dir := 0 // 1: positive means past
		switch Callee(call.V) {
		case "(time.Time).After", "(time.Time).Sub", "(time.Time).Compare":
			if isNow(a) && isExp(b) {
				dir = 1
			}
			if isExp(a) && isNow(b) {
				dir = -1
			}
		case "(time.Time).Before":
			if isNow(a) && isExp(b) {
				dir = -1
			}
			if isExp(a) && isNow(b) {
				dir = 1
			}
		case "time.Since":
			if isExp(a) {
				dir = 1
			}
		case "time.Until":
			if isExp(a) {
				dir = -1
			}
		}
		if x == call {
			if !isBoolType(x.Typ) {
				return 0
			}
			return neg * dir
		}
		k, ok := x.Args[1].Int()
		if !ok || x.Aux != "<" || k != 0 && k != 1 {
			return 0
		}
		return -neg * dir * sign // x < 0, x < 1
	}
	s := &Sim{G: g, T: t, Track: returned(g)}
	g.EachOwn(func(v *eng.Val) {
		if v.Op == eng.OpIf {
			s.Track = append(s.Track, t.Of(v.Args[0]))
		}
	})
	ok := true
	fail := func(v *eng.Val, format string, a ...interface{}) {
		if ok {
			c.Bad("expired", "DataPoint.Expired", v.Where(), format, a...)
		}
		ok = false
	}
	judge := func(e *St, ret *eng.Val, val bool) {
		en, enK := false, false
		pa, paK := false, false
		for _, f := range e.Facts().List() {
			if isField(f.Cond, "ExpireEnabled") {
				en, enK = f.Val, true
			} else if d := past(f.Cond); d != 0 {
				pa, paK = f.Val == (d > 0), true
			}
		}
		if val && !(enK && en && paK && pa) {
			fail(ret, "a datapoint may count as expired although expiry is not enabled or has not passed (path %s)", e.Path())
		}
		if !val && !(enK && !en || paK && !pa) {
			fail(ret, "an expired datapoint may not count as expired (path %s)", e.Path())
		}
	}
	s.Exit = func(e *St, ret *eng.Val) {
		r := e.Resolve(t.Of(ret.Args[0]))
		val, known := e.Truth(r)
		if b, is := r.Bool(); is {
			val, known = b, true
		}
		if known {
			judge(e, ret, val)
			return
		}
		for _, val := range []bool{true, false} {
			y := e.fork()
			y.Assume(r, val)
			judge(y, ret, val)
		}
	}
	s.Run()
	if ok {
		c.OK("expired", "DataPoint.Expired", w)
	}
}

// managerTakes: a manager refuses only what has expired, what its centroid refuses,
// and what no centroid can be found for.
func (c *C) managerTakes() {
	fn := c.method(pCM, "CentroidManager", "AddDataPoint")
	inst := "CentroidManager.AddDataPoint"
	if fn == nil {
		c.Bad("takes", inst, "-", "there is no such operation")
		return
	}
	g := c.Flat(fn, "L2")
	t := g.Terms()
	dp := t.Of(g.Params[1])
	s := &Sim{G: g, T: t, Track: returned(g)}
	ok := true
	var calls []*eng.Val
	g.EachOwn(func(v *eng.Val) {
		if isExpired(v) || Callee(v) == "Centroid.AddDataPoint" {
			s.Track = append(s.Track, t.Of(v))
		}
		if v.Op == eng.OpCall && isSearch(v) {
			calls = append(calls, v)
			s.Track = append(s.Track, t.Len(t.Of(v), v))
		}
	})
	s.Exit = func(e *St, ret *eng.Val) {
		r := e.Resolve(t.Of(ret.Args[0]))
		if val, known := e.Truth(r); known && val {
			return
		}
		if r.Op == eng.OpCall && r.V != nil && Callee(r.V) == "Centroid.AddDataPoint" {
			return
		}
		for _, y := range e.Facts().List() {
			if x := expiredOf(t, y.Cond); x != nil && y.Val && (x == dp || sameStruct(t, x, dp)) {
				return
			}
			if y.Cond.Op == eng.OpCall && y.Cond.V != nil && !y.Val && Callee(y.Cond.V) == "Centroid.AddDataPoint" {
				return
			}
		}
		for _, v := range calls {
			if _, hi := e.Facts().Range(t.Len(t.Of(v), v)); hi <= 0 {
				return
			}
		}
		if ok {
			c.Bad("takes", inst, ret.Where(), "an unexpired datapoint may be refused (path %s)", e.Path())
		}
		ok = false
	}
	s.Run()
	c.States += s.States
	if ok {
		c.OK("takes", inst, where(c, fn))
	}
}

// onlyUnexpiredAdded: what is put into the list of a centroid has not expired.
func (c *C) onlyUnexpiredAdded() {
	_, cs := c.structOf(pCent, "Centroid")
	lf := fieldOfElems(cs, pCommon+".DataPoint")
	n := 0
	for _, fn := range c.P.Methods(pCent, "Centroid") {
		if !exported(fn) {
			continue
		}
		g := c.Flat(fn, "L1")
		if g == nil {
			continue
		}
		t := g.Terms()
		bad := map[*eng.Val]string{}
		var adds []*eng.Val
		s := &Sim{G: g, T: t}
		g.EachOwn(func(v *eng.Val) {
			if isExpired(v) {
				s.Track = append(s.Track, t.Of(v))
			}
			if v.Op != eng.OpStore {
				return
			}
			p := t.PathOf(v.Args[0])
			if sn, f := p.LastField(); sn != pCent+".Centroid" || f != lf {
				return
			}
			if x := t.Of(v.Args[1]); x.Op == eng.OpAppend {
				if _, _, ok := removal(t, x); !ok {
					adds = append(adds, v)
				}
			}
		})
		if len(adds) == 0 {
			continue
		}
		sv := &servedness{c: c, g: g, t: t}
		s.Event = func(e *St, v *eng.Val) {
			for _, a := range adds {
				if a != v {
					continue
				}
				el, sp := appended(t, t.Of(v.Args[1]).V)
				if sp != nil && !sv.list(e.Resolve(sp), v) {
					bad[v] = e.Path()
				}
				for _, x := range el {
					if !sv.elem(e.Resolve(x), v, e) {
						bad[v] = e.Path()
					}
				}
			}
		}
		s.Run()
		c.States += s.States
		for _, a := range adds {
			n++
			c.Expect(bad[a] == "", "added", "Centroid."+fn.Name(), a.Where(), "an expired datapoint may be put into the list (path %s)", bad[a])
		}
	}
	if n == 0 {
		c.Bad("added", "Centroid", "-", "nothing adds to the list of a centroid")
	}
}

// flowsOf is flows for some operations only.
func (c *C) flowsOf(rule string, kinds map[string]bool, want func(*ssa.Function) bool) {
	for _, k := range [][3]string{{pCent, "Centroid", "L2"}, {pCM, "CentroidManager", "L2"}} {
		for _, fn := range c.P.Methods(k[0], k[1]) {
			if !exported(fn) || !want(fn) {
				continue
			}
			if g := c.Flat(fn, k[2]); g != nil {
				f := c.newFlow(fn, g, k[1]+"."+fn.Name())
				f.Run()
				n := 0
				for _, b := range f.Bad {
					if kinds[b.kind] {
						n++
						c.Bad(rule, f.inst, b.where, "%s", b.msg)
					}
				}
				if n == 0 {
					c.OK(rule, f.inst, where(c, fn))
				}
			}
		}
	}
}

// servedness decides that the datapoints of a list have not expired.
type servedness struct {
	c    *C
	g    *eng.Graph
	t    *eng.Terms
	f    *Flow
	seen map[*eng.Term]bool
	why  string
}

func (s *servedness) no(format string, v *eng.Val) bool {
	if s.why == "" {
		s.why = format
		if v != nil {
			s.why += " at " + v.Where()
		}
	}
	return false
}

func (s *servedness) list(x *eng.Term, at *eng.Val) bool {
	t := s.t
	if s.seen == nil {
		s.seen = map[*eng.Term]bool{}
	}
	if s.seen[x] {
		return true
	}
	s.seen[x] = true
	if emptyList(x) || x.IsNil() {
		return true
	}
	switch x.Op {
	case eng.OpCall:
		if x.V != nil {
			if n := Callee(x.V); isDrain(n) || strings.HasSuffix(n, ".KNNLookup") {
				return true
			}
		}
	case eng.OpPhi, eng.OpMemPhi:
		as, _ := t.PhiArgs(x)
		for _, a := range as {
			if !s.list(a, at) {
				return false
			}
		}
		return len(as) > 0
	case eng.OpAppend:
		if !s.list(t.Of(x.V.Args[0]), x.V) {
			return false
		}
		el, sp := appended(t, x.V)
		if sp != nil {
			return s.list(sp, x.V)
		}
		if len(el) == 0 {
			return s.no("it is not known what is added", x.V)
		}
		for _, y := range el {
			if !s.elem(y, x.V, nil) {
				return false
			}
		}
		return true
	case eng.OpSlice:
		return s.list(x.Args[0], at)
	case eng.OpMakeSlice:
		if b := copiedFrom(t, x, at); b != nil {
			return s.list(b, at)
		}
		m, _ := mapLoop(s.g, t, x, nil)
		if m == nil {
			break
		}
		for _, y := range m.Elems {
			if !s.elem(y, m.At, nil) {
				return false
			}
		}
		return true
	}
	return s.no("a list with datapoints that may have expired", x.V)
}

// elem: one datapoint has not expired.
func (s *servedness) elem(y *eng.Term, at *eng.Val, e *St) bool {
	t := s.t
	fresh := func(f *eng.FactSet, res func(*eng.Term) *eng.Term) bool {
		for _, k := range f.List() {
			if k.Val {
				continue
			}
			x := expiredOf(t, k.Cond)
			if x == nil {
				continue
			}
			if res != nil {
				x = res(x)
			}
			if x == y || sameStruct(t, x, y) {
				return true
			}
			if l, i, fs := elemAt(x); l != nil && len(fs) == 0 {
				if m, j, gs := elemAt(y); m == l && len(gs) == 0 && sameInt(t, i, j) {
					return true
				}
			}
		}
		return false
	}
	if e != nil {
		if fresh(e.Facts(), e.Resolve) {
			return true
		}
	} else if fresh(t.BlockFacts(at.Blk), nil) {
		return true
	}
	l, i, fs := elemAt(y)
	if l == nil && y.Op == eng.OpPhi || y.Op == eng.OpMemPhi && l == nil {
		as, _ := t.PhiArgs(y)
		for _, a := range as {
			if !s.elem(a, at, nil) {
				return false
			}
		}
		return len(as) > 0
	}
	if l == nil || len(fs) != 0 {
		return s.no("a datapoint that may have expired is added", at)
	}
	if s.f != nil && s.f.list != nil {
		if il, _, _ := elemAt(i); il != nil {
			if sv := s.f.indexList(il); sv != nil && s.f.listAfter(sv) == l {
				gen, why := s.c.genOf(t, sv, sv.Args[len(sv.Args)-2])
				if gen == nil {
					return s.no("the search at "+sv.Where()+" uses an unknown generator: "+why, at)
				}
				if !sameCell(gen.List, l) {
					return s.no("the search goes through another list", sv)
				}
				if !gen.Fresh {
					return s.no("the search is given datapoints that may have expired", sv)
				}
				return true
			}
		}
		if sameCell(l, t.LoadAt(s.f.list, s.f.listT, at)) {
			return s.no("a stored datapoint that may have expired is added", at)
		}
	}
	return s.list(l, at)
}

// served: lookups and drains return no expired datapoints.
func (c *C) servesUnexpired() {
	n := 0
	for _, k := range [][3]string{{pCent, "Centroid", "L1"}, {pCM, "CentroidManager", "L2"}} {
		for _, fn := range c.P.Methods(k[0], k[1]) {
			if !exported(fn) {
				continue
			}
			res := fn.Signature.Results()
			if res.Len() != 1 || !isListType(res.At(0).Type()) || eng.TypeName(eng.ElemType(res.At(0).Type())) != pCommon+".DataPoint" {
				continue
			}
			g := c.Flat(fn, k[2])
			if g == nil {
				continue
			}
			t := g.Terms()
			s := &servedness{c: c, g: g, t: t, f: c.newFlow(fn, g, fn.Name())}
			ok := true
			at := where(c, fn)
			g.EachOwn(func(v *eng.Val) {
				if v.Op == eng.OpReturn && !s.list(t.Of(v.Args[0]), v) {
					ok = false
				}
			})
			n++
			c.Expect(ok, "served", k[1]+"."+fn.Name(), at, "expired datapoints may be returned: %s", s.why)
		}
	}
	c.Min("served", 6)
	_ = n
}

// prunes: an operation of a centroid leaves no expired datapoint behind.
func (c *C) prunes(name string) {
	fn := c.method(pCent, "Centroid", name)
	inst := "Centroid." + name
	if fn == nil {
		c.Bad("all", inst, "-", "there is no such operation")
		return
	}
	g := c.Flat(fn, "L1")
	t := g.Terms()
	f := c.newFlow(fn, g, inst)
	good := map[*eng.Loop]bool{}
	for _, l := range g.Loops() {
		good[l] = c.pruneLoop(f, l)
	}
	s := &Sim{G: g, T: t}
	g.EachOwn(func(v *eng.Val) {
		if v.Op == eng.OpStore && eng.SamePath(t.PathOf(v.Args[0]), f.list) {
			s.Track = append(s.Track, t.Of(v.Args[1]), t.LoadAt(f.list, f.listT, v))
		}
		if isExpired(v) {
			s.Track = append(s.Track, t.Of(v))
		}
		if v.Op == eng.OpReturn {
			s.Track = append(s.Track, t.Len(t.LoadAt(f.list, f.listT, v), v))
		}
	})
	bad, at := "", where(c, fn)
	s.Edge = func(e *St, from, to *eng.Blk) bool {
		for l, ok := range good {
			if ok && l.Blocks[from] && !l.Blocks[to] {
				e.A = "done"
			}
		}
		return true
	}
	s.Event = func(e *St, v *eng.Val) {
		if v.Op != eng.OpStore || !eng.SamePath(t.PathOf(v.Args[0]), f.list) {
			return
		}
		N := e.Resolve(t.Of(v.Args[1]))
		O := e.Resolve(t.LoadAt(f.list, f.listT, v))
		if N == O || emptyList(N) {
			return
		}
		if _, _, ok := removal(t, N); ok {
			return
		}
		if b := copiedFrom(t, N, v); b != nil && e.Resolve(b) == O {
			return
		}
		sv := &servedness{c: c, g: g, t: t, f: f}
		if sv.list(N, v) {
			e.A = "done"
			return
		}
		// the rest is mean maintenance
		if e.A == "done" {
			e.A = "lost"
		}
	}
	s.Exit = func(e *St, ret *eng.Val) {
		L := e.Resolve(t.LoadAt(f.list, f.listT, ret))
		if e.A != "done" && !f.noElems(e, L, ret) && bad == "" {
			bad, at = "path "+e.Path(), ret.Where()
		}
	}
	s.Run()
	c.States += s.States
	c.Expect(bad == "" && !s.Overflow, "all", inst, at, "expired datapoints may be left behind (%s)", bad)
}

// pruneLoop: when the loop is done, no datapoint of the own list has expired: those
// before (or behind) a counter have not, and the counter goes to the end.
func (c *C) pruneLoop(f *Flow, l *eng.Loop) bool {
	t, g := f.t, f.g
	if g.LoopAt(l.Head) != l {
		return false
	}
	var track []*eng.Term
	cand := map[*eng.Term]bool{}
	for b := range l.Blocks {
		for _, v := range b.Instrs {
			if isExpired(v) {
				track = append(track, t.Of(v))
				dp := expiredOf(t, t.Of(v))
				if _, i, _ := elemAt(dp); i != nil {
					for _, a := range atoms(i) {
						cand[a] = true
					}
					lin, _ := t.Lin(i)
					for a := range lin {
						cand[a] = true
					}
				}
			}
			if v.Op == eng.OpStore && eng.SamePath(t.PathOf(v.Args[0]), f.list) {
				track = append(track, t.Of(v.Args[1]), t.LoadAt(f.list, f.listT, v))
			}
		}
	}
	for i := range cand {
		if i.JoinBlk() != l.Head {
			continue
		}
		for _, off := range []int64{0, -1} {
			for _, up := range []bool{true, false} {
				if up && off != 0 {
					continue
				}
				if c.prunesBy(f, l, i, off, up, track) {
					return true
				}
			}
		}
	}
	return false
}

func (c *C) prunesBy(f *Flow, l *eng.Loop, i *eng.Term, off int64, up bool, track []*eng.Term) bool {
	t, g := f.t, f.g
	intT := types.Typ[types.Int]
	pos := t.Bin(plus, i, t.Int(off), intT)
	entry, _ := t.Carried(l, i)
	if len(entry) == 0 {
		return false
	}
	for _, en := range entry {
		if up {
			if k, ok := en.Int(); !ok || k != 0 {
				return false
			}
			continue
		}
		// len-1-off at the start
		ok := false
		for _, p := range l.Head.Preds {
			if l.Blocks[p] {
				continue
			}
			d, known := t.Diff(en, t.Len(t.LoadAt(f.list, f.listT, p.Last()), p.Last()))
			ok = known && d == -1-off
		}
		if !ok {
			return false
		}
	}
	good := true
	s := &Sim{G: g, T: t, From: l.Head, Track: append(append([]*eng.Term{i}, track...), atoms(i)...)}
	cur := func(e *St, v *eng.Val) *eng.Term { return e.Resolve(t.LoadAt(f.list, f.listT, v)) }
	for b := range l.Blocks {
		if len(b.Instrs) > 0 {
			x := t.LoadAt(f.list, f.listT, b.Last())
			s.Track = append(s.Track, x, t.Len(x, b.Last()))
		}
	}
	s.Event = func(e *St, v *eng.Val) {
		if !l.Blocks[v.Blk] || v.Op == eng.OpAlloc || v.Op == eng.OpLoad {
			return
		}
		if v.Op != eng.OpStore || !eng.SamePath(t.PathOf(v.Args[0]), f.list) {
			if t.Affects(v, f.list, f.listT) {
				// elements are moved by the removal
				if v.Op == eng.OpAppend || v.Op == eng.OpCopy {
					return
				}
				good = false
			}
			return
		}
		N := e.Resolve(t.Of(v.Args[1]))
		O := cur(e, v)
		if N == O {
			return
		}
		old, idx, ok := removal(t, N)
		if !ok || e.Resolve(old) != O && old != O {
			good = false
			return
		}
		if !sameInt(t, e.Resolve(idx), pos) && !sameInt(t, idx, pos) {
			good = false
			return
		}
		if e.A == "removed" && !up {
			good = false
		}
		e.A = "removed"
	}
	s.Edge = func(e *St, from, to *eng.Blk) bool {
		if !good {
			return false
		}
		last := from.Last()
		L := cur(e, last)
		if to == l.Head {
			var next *eng.Term
			as, ps := t.PhiArgs(i)
			for k := range as {
				if ps[k] == from {
					next = e.Resolve(as[k])
				}
			}
			if next == nil {
				good = false
				return false
			}
			d, ok := t.Diff(next, i)
			fresh := false
			if x, known := knownExpired(t, e.Facts(), L, pos, e.Resolve); known && !x {
				fresh = true
			}
			if _, hi := e.Facts().Range(t.Bin(minus, t.Len(L, last), pos, intT)); hi <= 0 {
				fresh = true // behind the end
			}
			switch {
			case !ok:
				good = false
			case up && d == 0:
			case up && d == 1:
				if !fresh {
					good = false
				}
			case !up && d == 0 && e.A == "":
			case !up && d == -1:
				if !fresh && e.A != "removed" {
					good = false
				}
			default:
				good = false
			}
			return false
		}
		if !l.Blocks[to] {
			rest := t.Bin(minus, t.Len(L, last), pos, intT)
			if up {
				if _, hi := e.Facts().Range(rest); hi > 0 {
					good = false
				}
			} else if _, hi := e.Facts().Range(pos); hi >= 0 || e.A != "" {
				good = false
			}
			return false
		}
		return true
	}
	s.Run()
	c.States += s.States
	return good && !s.Overflow
}

// everyCentroid: an operation of a manager is carried out on all its centroids.
func (c *C) everyCentroid(name string) {
	fn := c.method(pCM, "CentroidManager", name)
	inst := "CentroidManager." + name
	if fn == nil {
		c.Bad("all", inst, "-", "there is no such operation")
		return
	}
	g := c.Flat(fn, "L2")
	t := g.Terms()
	f := c.newFlow(fn, g, inst)
	done := map[*eng.Loop]*Cover{}
	for _, l := range g.Loops() {
		cv := cover(t, l)
		if cv == nil || !isOwnList(f, cv.List, l) {
			continue
		}
		ok := true
		for _, e := range l.Exits() {
			if e != cv.Exit && !panics(e.To) {
				ok = false
			}
		}
		n := 0
		s := &Sim{G: g, T: t, From: l.Head}
		for b := range l.Blocks {
			for _, v := range b.Instrs {
				if Callee(v) == "Centroid.LenDP" || v.Op == eng.OpLen {
					s.Track = append(s.Track, t.Of(v))
				}
			}
		}
		s.Event = func(e *St, v *eng.Val) {
			if v.Op == eng.OpCall && Callee(v) == "Centroid."+name {
				if fs, is := cv.ElemOf(t, e.Resolve(t.Of(v.Args[0]))); is && len(fs) == 0 {
					e.A = "done"
					n++
				}
			}
		}
		s.Edge = func(e *St, from, to *eng.Blk) bool {
			if to == l.Head {
				if e.A != "done" {
					et := eng.ElemType(cv.List.Typ)
					if x := t.LoadAt(t.ElemLoc(cv.List, cv.Idx, et), et, from.Last()); !f.hollow(e, x, from.Last()) {
						ok = false
					}
				}
				return false
			}
			return l.Blocks[to]
		}
		s.Run()
		c.States += s.States
		if ok && n > 0 {
			done[l] = cv
		}
	}
	bad := ""
	s := &Sim{G: g, T: t}
	s.Edge = func(e *St, from, to *eng.Blk) bool {
		for _, cv := range done {
			if cv.Exit.From == from && cv.Exit.To == to {
				e.A = "done"
			}
		}
		return true
	}
	s.Exit = func(e *St, ret *eng.Val) {
		if e.A != "done" && !f.noElems(e, e.Resolve(t.LoadAt(f.list, f.listT, g.Entry.Instrs[0])), ret) {
			bad = "path " + e.Path()
		}
	}
	s.Run()
	c.States += s.States
	c.Expect(bad == "", "all", inst, where(c, fn), "the operation may not be carried out on all centroids (%s)", bad)
}

// receivedPruned: centroids that the client returns are rid of expired datapoints.
func (c *C) receivedPruned() {
	fn := c.method(pRPC, "kmeansClient", "NearestCentroids")
	inst := "kmeansClient.NearestCentroids"
	if fn == nil {
		c.Bad("served", inst, "-", "there is no client method NearestCentroids")
		return
	}
	g := c.Flat(fn, "L2")
	t := g.Terms()
	_, cs := c.structOf(pCent, "Centroid")
	lf := fieldOfElems(cs, pCommon+".DataPoint")
	n, bad := 0, ""
	g.EachOwn(func(v *eng.Val) {
		if v.Op != eng.OpStore {
			return
		}
		p := t.PathOf(v.Args[0])
		sn, f := p.LastField()
		if sn != pCent+".Centroid" || f != lf {
			return
		}
		n++
		// pruned afterwards, on every path
		ok := true
		s := &Sim{G: g, T: t, From: v.Blk}
		started := false
		s.Event = func(e *St, w *eng.Val) {
			if w == v {
				e.A = "set"
				started = true
			}
			if e.A == "set" && w.Op == eng.OpCall && len(w.Args) > 0 && w.Args[0] != nil {
				switch Callee(w) {
				case "Centroid.MoveVector", "Centroid.Expire", "Centroid.MemTrim":
					if t.Of(w.Args[0]) == p.Root {
						e.Dead = true
					}
				}
			}
		}
		s.Edge = func(e *St, from, to *eng.Blk) bool {
			if l := g.LoopOf(v.Blk); l != nil && (to == l.Head || !l.Blocks[to] && l.Blocks[from] && !panics(to)) {
				ok = false
			}
			return ok
		}
		s.Exit = func(e *St, ret *eng.Val) { ok = false }
		s.Run()
		if !ok || !started {
			bad = v.Where()
		}
	})
	if n == 0 {
		bad = where(c, fn)
	}
	c.Expect(bad == "", "served", inst, where(c, fn), "received centroids may keep expired datapoints (%s)", bad)
	// the generator that MoveVector uses prunes
	if mv := c.method(pCent, "Centroid", "MoveVector"); mv != nil {
		c.prunesMean(mv)
	}
}

// prunesMean: MoveVector removes what has expired.
func (c *C) prunesMean(fn *ssa.Function) {
	g := c.Flat(fn, "L1")
	t := g.Terms()
	ok := false
	why := "there is no mean over a generator"
	for _, v := range Calls(g, func(n string) bool { return n == "mathutils.VecMean" }) {
		gen, w := c.genOf(t, v, v.Args[0])
		if gen != nil {
			ok = gen.Fresh && gen.Prunes
			why = "the mean is taken over expired datapoints as well"
		} else {
			why = w
		}
	}
	c.Expect(ok, "served", "Centroid.MoveVector", where(c, fn), "expired datapoints may stay: %s", why)
}

func init() {
	register("P07", checkP07, Desc{
		How: "The rule that decides expiry is read off all paths of DataPoint.Expired. Everything else is decided relative to calls of that method: path conditions at insertions, ownership analysis of what expiry removes, loop invariants (everything before the counter is unexpired, and the counter reaches the end) for what it leaves behind, and provenance of every element of a returned list.",
		Rules: map[string]string{
			"expired": "Expired() is true exactly if expiry is enabled and now is after the expiry time",
			"accepts": "a centroid takes a datapoint only if it has not expired, and refuses it only if it has or is of another dimension",
			"takes":   "a manager refuses only what has expired, what the chosen centroid refuses, or when no centroid is found",
			"added":   "what an operation of a centroid appends to its list is known not to have expired",
			"stays":   "expiry, trimming and re-computing the mean remove nothing but what has expired (and empty centroids)",
			"all":     "after expiry or trimming no datapoint that is left was expired; managers do that for each centroid",
			"served":  "each datapoint in a list that a lookup or drain returns was tested and had not expired, or was found by a search over a generator that yields such datapoints only; centroids that the client receives are pruned",
		},
		Assumes: []string{"a datapoint does not expire between the test and the answer", "search functions return positions of what the generator yielded"},
	})
}
