package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"trypocheck/eng"
)

func checkP14(c *C) {
	c.allBounds()
	c.amounts()
	c.Min("index", 20)
	c.Min("slice", 5)
	c.Min("alloc", 20)
	c.Min("loop", 20)
}

// place is an index or slice operation, of possibly several entry points.
type place struct {
	c    *C
	g    *eng.Graph
	t    *eng.Terms
	b    *bounder
	gens map[*eng.Val]*eng.Term // lists that searches went through, as they are afterwards
}

func (c *C) newPlace(g *eng.Graph) *place {
	p := &place{c: c, g: g, t: g.Terms(), gens: map[*eng.Val]*eng.Term{}}
	p.b = newBounder(p.t)
	p.b.also = p.also
	p.b.grows = c.onlyGrows
	p.b.some = func(v *eng.Val) bool { return v.Fn != nil && c.okMeans(v.Fn, true) }
	return p
}

// searched: the list that a search goes through, right after it.
func (p *place) searched(sv *eng.Val) *eng.Term {
	if L, ok := p.gens[sv]; ok {
		return L
	}
	p.gens[sv] = nil
	args := searchArgs(sv)
	gn, _ := p.c.genOf(p.t, sv, args[1])
	if gn == nil {
		return nil
	}
	L := gn.List
	if L.Path != nil && len(L.Path.Steps) > 0 {
		for i, v := range sv.Blk.Instrs {
			if v == sv && i+1 < len(sv.Blk.Instrs) {
				L = p.t.LoadAt(L.Path, L.Typ, sv.Blk.Instrs[i+1])
			}
		}
	}
	p.gens[sv] = L
	return L
}

// also: a position that a search found is one of the list it went through; a random
// number is below its limit.
func (p *place) also(a *eng.Term) []*eng.Term {
	t, b := p.t, p.b
	if a.Op == eng.OpCall && a.V != nil {
		switch Callee(a.V) {
		case "math/rand.Intn", "math/rand.Int31n", "math/rand.Int63n":
			n := t.Of(a.V.Args[0])
			return []*eng.Term{b.sub(t.Int(0), a), b.add(b.sub(a, n), t.Int(1))}
		}
		return nil
	}
	if a.Op == eng.OpUnknown && a.V != nil && len(a.V.Cands) > 1 && isIntType(a.Typ) {
		// positions that library functions call back with
		f, n := a.V.Cands[0], a.V.Cands[1]
		if f == nil || n == nil || f.Fn == nil || f.Fn.Pkg == nil || f.Op != eng.OpFunc {
			return nil
		}
		var limit *eng.Term
		switch f.Fn.Pkg.Pkg.Path() + "." + f.Fn.Name() {
		case "math/rand.Shuffle", "sort.Search":
			limit = t.Of(n)
		case "sort.Slice", "sort.SliceStable":
			if l := t.Of(n); l.Op == eng.OpIface {
				limit = t.Len(l.Args[0], a.V)
			}
		}
		if limit == nil {
			return nil
		}
		return []*eng.Term{b.sub(t.Int(0), a), b.add(b.sub(a, limit), t.Int(1))}
	}
	if a.Op == eng.OpLen {
		if n := permuted(t, a.Args[0]); n != nil {
			return []*eng.Term{b.sub(a, n), b.sub(n, a)}
		}
		return nil
	}
	I, _, fs := elemAt(a)
	if I == nil || len(fs) != 0 {
		return nil
	}
	if n := permuted(t, I); n != nil && a.Op == eng.OpLoad && a.Ver == nil {
		return []*eng.Term{b.sub(t.Int(0), a), b.add(b.sub(a, n), t.Int(1))}
	}
	f := &Flow{c: p.c, g: p.g, t: t}
	sv := f.indexList(I)
	if sv == nil {
		return nil
	}
	r := []*eng.Term{b.sub(t.Int(0), a)}
	if L := p.searched(sv); L != nil {
		r = append(r, b.add(b.sub(a, t.Len(L, sv)), t.Int(1)))
	}
	return r
}

// permuted: x is a permutation of the numbers below n.
func permuted(t *eng.Terms, x *eng.Term) *eng.Term {
	if x.Op == eng.OpCall && x.V != nil && Callee(x.V) == "math/rand.Perm" && len(x.V.Args) == 1 {
		return t.Of(x.V.Args[0])
	}
	return nil
}

// leq proves x <= y at v.
func (p *place) leq(x, y *eng.Term, v *eng.Val) bool {
	if p.b.leq(x, y, v) {
		return true
	}
	return p.keyed(x, y, v) || p.ranged(x, y, v)
}

// ranged: a counter that goes up once per entry of a map stays below the number of entries.
func (p *place) ranged(x, y *eng.Term, v *eng.Val) bool {
	t, b := p.t, p.b
	E := b.sub(x, y)
	at, _ := t.Lin(E)
	for _, a := range sortedTerms(at) {
		k := at[a]
		h := a.JoinBlk()
		if k <= 0 || a.Op != eng.OpPhi || h == nil {
			continue
		}
		l := h.G.LoopAt(h)
		if l == nil {
			continue
		}
		init, deltas, ok := t.Induction(l, a)
		if !ok {
			continue
		}
		for d := range deltas {
			ok = ok && (d == 0 || d == 1)
		}
		last := h.Last()
		if !ok || last == nil || last.Op != eng.OpIf {
			continue
		}
		c := t.Of(last.Args[0])
		if c.Op != eng.OpExtract || c.Aux != "0" || c.Args[0].Op != eng.OpNext || c.Args[0].V == nil || c.Args[0].V.Blk != h {
			continue
		}
		rv := c.Args[0].V.Args[0]
		if rv.Op != eng.OpRange || l.Blocks[rv.Blk] {
			continue
		}
		m := t.Of(rv.Args[0])
		if _, isMap := m.Typ.Underlying().(*types.Map); !isMap || !t.Invariant(l, m) {
			continue
		}
		n := t.Len(m, rv)
		for _, la := range l.Latches {
			ok = ok && t.Len(m, la.Last()) == n
		}
		if !ok {
			continue // entries may be added meanwhile
		}
		top := b.add(init, n)
		if val, known := t.BlockFacts(v.Blk).Truth(c); known && val && l.Blocks[v.Blk] {
			top = b.sub(top, t.Int(1))
		}
		if p.leq(b.add(b.sub(E, b.times(a, k)), b.times(top, k)), t.Int(0), v) {
			return true
		}
	}
	return false
}

// keyed: the keys of a map are bounded by what is put into it.
func (p *place) keyed(x, y *eng.Term, v *eng.Val) bool {
	t, b := p.t, p.b
	E := b.sub(x, y)
	at, _ := t.Lin(E)
	for _, a := range sortedTerms(at) {
		if a.Op != eng.OpExtract || a.Aux != "1" || a.Args[0].Op != eng.OpNext {
			continue
		}
		m := t.Of(a.Args[0].V.Args[0])
		if m.Op == eng.OpRange {
			m = t.Of(m.V.Args[0])
		}
		if m.Op != eng.OpMakeMap {
			continue
		}
		// lists that are no longer than they are now when the map is gone through
		rv := a.Args[0].V.Args[0]
		E := E
		for _, o := range sortedTerms(at) {
			k := at[o]
			if o.Op != eng.OpLen || k >= 0 || o.Args[0].Path == nil {
				continue
			}
			L := o.Args[0]
			was := t.Len(t.LoadAt(L.Path, L.Typ, rv), rv)
			if was != o && b.leq(was, o, v) {
				E = b.add(b.sub(E, b.times(o, k)), b.times(was, k))
			}
		}
		at, _ := t.Lin(E)
		ok := true
		p.g.Each(func(u *eng.Val) {
			switch u.Op {
			case eng.OpMapUpdate:
				if t.Of(u.Args[0]) != m {
					return
				}
				for o := range at {
					for l := p.g.LoopOf(u.Blk); l != nil; l = l.Parent {
						ok = ok && (o == a || t.Invariant(l, o))
					}
				}
				ok = ok && u.Graph() == p.g && b.leq(b.add(b.sub(E, b.times(a, at[a])), b.times(t.Of(u.Args[1]), at[a])), t.Int(0), u)
			case eng.OpStore, eng.OpCall, eng.OpSend:
				for _, y := range u.Args {
					ok = ok && t.Of(y) != m
				}
			}
		})
		if ok {
			return true
		}
	}
	return false
}

// onlyGrows: nothing that a call may run makes the list in a field shorter. Everything
// that is called by name, through an interface of the module, or from a closure that
// is made on the way is followed.
func (c *C) onlyGrows(call *eng.Val, loc *eng.Path) bool {
	str, fld := loc.LastField()
	if fld == "" {
		return false
	}
	var work []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] {
			seen[f] = true
			work = append(work, f)
		}
	}
	invoked := func(m *types.Func) {
		for _, f := range c.P.Funcs {
			if f.Signature.Recv() != nil && f.Name() == m.Name() && types.Identical(
				types.NewSignature(nil, f.Signature.Params(), f.Signature.Results(), false),
				types.NewSignature(nil, m.Type().(*types.Signature).Params(), m.Type().(*types.Signature).Results(), false)) {
				add(f)
			}
		}
	}
	switch {
	case call.Fn != nil:
		add(call.Fn)
	case call.Method != nil:
		invoked(call.Method)
	default:
		return false
	}
	isField := func(x ssa.Value) *ssa.FieldAddr {
		fa, ok := x.(*ssa.FieldAddr)
		if !ok {
			return nil
		}
		pt := fa.X.Type().Underlying().(*types.Pointer)
		st, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok || eng.TypeName(pt.Elem()) != str || st.Field(fa.Field).Name() != fld {
			return nil
		}
		return fa
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch v := in.(type) {
				case *ssa.MakeClosure:
					add(v.Fn.(*ssa.Function))
				case ssa.CallInstruction:
					if v.Common().IsInvoke() {
						invoked(v.Common().Method)
					}
					add(v.Common().StaticCallee())
				}
				if st, ok := in.(*ssa.Store); ok {
					if _, ptr := types.Unalias(st.Val.Type()).(*types.Pointer); !ptr && eng.TypeName(st.Val.Type()) == str {
						if _, ok := st.Addr.(*ssa.Alloc); !ok {
							return false
						}
					}
				}
				v, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				fa := isField(v)
				if fa == nil {
					continue
				}
				for _, r := range *fa.Referrers() {
					switch r := r.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						if _, ok := fa.X.(*ssa.Alloc); ok {
							continue // of something new
						}
						ap, ok := r.Val.(*ssa.Call)
						if !ok || r.Addr != ssa.Value(fa) {
							return false
						}
						if bi, ok := ap.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "append" {
							return false
						}
						ld, ok := ap.Call.Args[0].(*ssa.UnOp)
						if !ok {
							return false
						}
						if fb := isField(ld.X); fb == nil || fb.X != fa.X {
							return false
						}
					default:
						return false
					}
				}
			}
		}
	}
	return true
}

func (c *C) allBounds() {
	done := map[string]bool{}
	for _, e := range c.everything() {
		p := c.newPlace(e.G)
		e.G.EachOwn(func(v *eng.Val) {
			switch v.Op {
			case eng.OpIndexAddr, eng.OpIndex:
				if len(v.Args) != 2 {
					return
				}
			case eng.OpSlice:
			default:
				return
			}
			if pt, ok := v.Args[0].Typ.Underlying().(*types.Pointer); ok {
				if _, ok := pt.Elem().Underlying().(*types.Array); ok {
					return // variadic arguments
				}
			}
			key := fmt.Sprint(v.Where(), v.Pos, v.Op)
			if done[key] {
				return
			}
			done[key] = true
			if v.Op == eng.OpSlice {
				why := p.slice(v)
				c.Expect(why == "", "slice", e.Name, v.Where(), "%s", why)
				return
			}
			why := p.index(v)
			c.Expect(why == "", "index", e.Name, v.Where(), "%s", why)
		})
	}
}

func (p *place) index(v *eng.Val) string {
	t := p.t
	L, i := t.Of(v.Args[0]), t.Of(v.Args[1])
	if within(t, t.BlockFacts(v.Blk), v, L, i) || p.removed(v, L, i) {
		return ""
	}
	switch {
	case !p.leq(t.Int(0), i, v):
		return fmt.Sprintf("the index %v may be negative", i)
	case !p.leq(p.b.add(i, t.Int(1)), t.Len(L, v), v) && !(isZeroConst(i) && p.kept(v, L)):
		return fmt.Sprintf("the index %v may be too high", i)
	}
	return ""
}

func (p *place) slice(v *eng.Val) string {
	t := p.t
	x := t.Of(v)
	if x.Op != eng.OpSlice {
		return ""
	}
	n := t.Len(t.Of(v.Args[0]), v)
	lo, hi := t.Int(0), n
	for k, y := range x.Args[1:3] {
		if y == nil {
			continue
		}
		if p.removed(v, x.Args[0], p.b.sub(y, t.Int(int64(1-k)))) || p.removed(v, x.Args[0], y) {
			return ""
		}
		// what is left after the elements behind were moved
		if old, at, ok := removal(t, x); ok && p.removed(v, old, at) {
			return ""
		}
	}
	if x.Args[1] != nil {
		lo = x.Args[1]
		if !p.leq(t.Int(0), lo, v) {
			return fmt.Sprintf("the start %v may be negative", lo)
		}
	}
	if x.Args[2] != nil {
		hi = x.Args[2]
		if !p.leq(hi, n, v) {
			return fmt.Sprintf("the end %v may be too high", hi)
		}
	}
	if !p.leq(lo, hi, v) {
		return fmt.Sprintf("the start %v may be behind the end %v", lo, hi)
	}
	return ""
}

// removed: the elements at positions that a search found are removed one by one,
// from the highest position to the lowest; i is the next one.
func (p *place) removed(v *eng.Val, L, i *eng.Term) bool {
	t := p.t
	l := p.g.LoopOf(v.Blk)
	if l == nil || L.Path == nil || len(L.Path.Steps) == 0 || L != t.LoadAt(L.Path, L.Typ, l.Head.Instrs[0]) {
		return false
	}
	cv := cover(t, l)
	if cv == nil || cv.Next != nil || len(l.Exits()) != 1 {
		return false
	}
	f := &Flow{c: p.c, g: p.g, t: t, list: L.Path, listT: L.Typ}
	var store *eng.Val
	for b := range l.Blocks {
		for _, w := range b.Instrs {
			if w.Op == eng.OpStore && eng.SamePath(t.PathOf(w.Args[0]), L.Path) {
				if store != nil {
					return false
				}
				store = w
			}
		}
	}
	if store == nil {
		return false
	}
	old, idx, ok := removal(t, t.Of(store.Args[1]))
	if !ok || old != L || !sameInt(t, idx, i) {
		return false
	}
	sv := f.positions(cv, l, idx)
	return sv != nil && f.intact(l, sv)
}

// purge: a loop goes through the positions of a list R, some of which it removes; it
// gives the position and its step (per element that stays).
func (p *place) purge(l *eng.Loop, R *eng.Term) (idx *eng.Term, dir int64) {
	t := p.t
	for b := range l.Blocks {
		for _, w := range b.Instrs {
			if w.Typ == nil || w.Op != eng.OpAppend && w.Op != eng.OpSlice {
				continue
			}
			if old, at, ok := removal(t, t.Of(w)); ok && old == R {
				idx = at
			}
		}
	}
	if idx == nil || idx.JoinBlk() != l.Head || R.JoinBlk() != l.Head {
		return nil, 0
	}
	at, preds := t.PhiArgs(idx)
	rs, _ := t.PhiArgs(R)
	for k, q := range preds {
		if l.Blocks[q] {
			continue
		}
		if isZeroConst(at[k]) {
			dir = 1
		} else if d, ok := t.Diff(at[k], t.Len(rs[k], q.Last())); ok && d == -1 {
			dir = -1
		} else {
			return nil, 0
		}
	}
	for _, e := range l.Exits() {
		fs := t.EdgeFacts(e.From, e.To)
		if dir < 0 {
			if _, hi := fs.Range(idx); hi >= 0 {
				return nil, 0
			}
		} else if lo, _ := fs.Range(p.b.sub(idx, t.Len(R, e.From.Last()))); lo < 0 {
			return nil, 0
		}
	}
	return idx, dir
}

// kept: L is a list of an element of a list that was filtered before, and whatever
// stayed in that has a non-empty L.
func (p *place) kept(v *eng.Val, L *eng.Term) bool {
	t := p.t
	if L.Path == nil || len(L.Path.Steps) == 0 {
		return false
	}
	str, fld := L.Path.LastField()
	R, _, fs := elemAt(L.Path.Root)
	if R == nil || len(fs) != 0 || fld == "" {
		return false
	}
	var l *eng.Loop
	if h := R.JoinBlk(); h != nil {
		l = p.g.LoopAt(h)
	}
	if l == nil || l.Blocks[v.Blk] {
		return false
	}
	// the list at the start and at the end of a turn
	_, back := t.Carried(l, R)
	if len(back) == 0 {
		return false
	}
	et := eng.ElemType(R.Typ)
	pt, ok := types.Unalias(et).Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, _ := types.Unalias(pt.Elem()).(*types.Named)
	if n == nil || eng.TypeName(n) != str {
		return false
	}
	has := func(y *St, x *eng.Term, at *eng.Val) bool {
		some := func(a *eng.Term) bool {
			if lo, _ := y.Facts().Range(a); lo >= 1 {
				return true
			}
			zero, known := y.Truth(t.Bin(token.EQL, a, t.Int(0), boolT))
			return known && !zero
		}
		dps := t.LoadAt(t.FieldLoc(t.PtrLoc(x), n, fld), fieldType(n, fld), at)
		if some(t.Len(dps, at)) {
			return true
		}
		for _, f := range y.Facts().List() {
			for _, a := range condAtoms(t, f.Cond) {
				if a.Op == eng.OpCall && a.V != nil && Callee(a.V) == "Centroid.LenDP" && fld == "DataPoints" && y.Resolve(t.Of(a.V.Args[0])) == x {
					if some(a) {
						return true
					}
				}
			}
		}
		return false
	}
	idx, dir := p.purge(l, R)
	purge := idx != nil
	good := true
	track := append([]*eng.Term{R}, back...)
	for b := range l.Blocks {
		for _, w := range b.Instrs {
			if w.Op == eng.OpIf {
				track = append(track, t.Of(w.Args[0]))
			}
			if w.Op == eng.OpCall {
				track = append(track, t.Of(w))
			}
		}
	}
	if idx != nil {
		track = append(track, idx, t.LoadAt(t.ElemLoc(R, idx, et), et, l.Head.Instrs[0]))
	}
	s := &Sim{G: p.g, T: t, From: l.Head, Track: track, Limit: 500}
	s.Edge = func(y *St, from, to *eng.Blk) bool {
		if to != l.Head {
			return l.Blocks[to]
		}
		args, preds := t.PhiArgs(R)
		for k, q := range preds {
			if q != from {
				continue
			}
			la := from.Last()
			N := y.Resolve(args[k])
			step := int64(0)
			if purge {
				ia, _ := t.PhiArgs(idx)
				d, ok := t.Diff(y.Resolve(ia[k]), idx)
				good = good && ok
				step = d
			}
			switch {
			case N == R && purge:
				good = good && step == dir
				x := y.Resolve(t.LoadAt(t.ElemLoc(R, idx, et), et, la))
				good = good && has(y, x, la)
			case N == R && !purge:
			case N.Op == eng.OpAppend && N.V != nil && len(N.V.Args) == 2 && y.Resolve(t.Of(N.V.Args[0])) == R && !purge:
				xs, spread := appended(t, N.V)
				good = good && spread == nil
				for _, x := range xs {
					good = good && has(y, y.Resolve(x), la)
				}
			default:
				old, at, ok := removal(t, N)
				good = good && ok && purge && old == R && sameInt(t, at, idx) && step == (dir-1)/2
			}
		}
		return false
	}
	s.Run()
	p.c.States += s.States
	if !purge {
		entry, _ := t.Carried(l, R)
		for _, e := range entry {
			good = good && emptyList(e)
		}
	}
	return good && !s.Overflow
}

// asked finds a number in x that a caller may choose: an integer parameter, a part of
// a parameter, or something that was decoded. Lengths of lists are not: those are there
// already. Constructors and configuration aside.
func (p *place) asked(x *eng.Term) *eng.Term {
	t := p.t
	seen := map[*eng.Term]bool{}
	var find func(x *eng.Term, num bool) *eng.Term
	fromCaller := func(r *eng.Term) bool {
		if r == nil || r.Op != eng.OpParam || r.V == nil {
			return false
		}
		if rc := p.g.Fn.Signature.Recv(); rc != nil && len(p.g.Params) > 0 && r.V == p.g.Params[0] {
			return false
		}
		return true
	}
	find = func(x *eng.Term, num bool) *eng.Term {
		if x == nil || seen[x] {
			return nil
		}
		seen[x] = true
		switch x.Op {
		case eng.OpLen, eng.OpConst, eng.OpFunc, eng.OpNext:
			return nil
		case eng.OpParam:
			if fromCaller(x) && isNumeric(x.Typ) {
				return x
			}
			return nil
		case eng.OpField:
			if r := x.Args[0]; isNumeric(x.Typ) && fromCaller(baseOf(r)) {
				return x
			}
			return nil
		case eng.OpLoad:
			if !isNumeric(x.Typ) || x.Path == nil {
				return nil
			}
			if fromCaller(baseOf(x.Path.Root)) && !isConfig(x.Path.Root.Typ) {
				return x
			}
			if x.Ver != nil && x.Ver.Op == eng.OpCall {
				if n := Callee(x.Ver); strings.HasSuffix(n, ".Decode") || strings.HasSuffix(n, ".Unmarshal") {
					return x
				}
			}
			return nil
		case eng.OpPhi, eng.OpMemPhi:
			args, _ := t.PhiArgs(x)
			for _, a := range args {
				if r := find(a, num); r != nil {
					return r
				}
			}
			return nil
		case eng.OpCall, eng.OpExtract:
			// what a function that only calculates makes of a number
			if x.V == nil || x.V.Fn == nil || !isNumeric(x.Typ) && !isBool(x.Typ) {
				return nil
			}
			for _, a := range x.V.Args {
				if isNumeric(a.Typ) {
					if r := find(t.Of(a), num); r != nil {
						return r
					}
				}
			}
			return nil
		}
		for _, a := range x.Args {
			if r := find(a, num); r != nil {
				return r
			}
		}
		return nil
	}
	return find(x, true)
}

// isConfig: a setup of a part of the node, made where the node is started.
func isConfig(T types.Type) bool {
	if pt, ok := T.Underlying().(*types.Pointer); ok {
		T = pt.Elem()
	}
	return strings.Contains(eng.TypeName(T), "eventloop.")
}

func isBool(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func baseOf(x *eng.Term) *eng.Term {
	for i := 0; i < 20 && x != nil; i++ {
		switch {
		case x.Op == eng.OpField && len(x.Args) > 0:
			x = x.Args[0]
		case x.Op == eng.OpLoad && x.Path != nil:
			x = x.Path.Root
		default:
			return x
		}
	}
	return x
}

// fewer: x is at most the length of a list there is, or a constant, give or take a bit.
func (p *place) fewer(x *eng.Term, v *eng.Val) bool {
	t, b := p.t, p.b
	const some = 1 << 16
	if p.leq(x, t.Int(some), v) {
		return true
	}
	lens := map[*eng.Term]int64{}
	var find func(x *eng.Term, d int)
	find = func(x *eng.Term, d int) {
		if x == nil || d > 6 {
			return
		}
		switch x.Op {
		case eng.OpLen:
			lens[x] = 1
			return
		case eng.OpPhi, eng.OpMemPhi:
			args, _ := t.PhiArgs(x)
			for _, a := range args {
				find(a, d+1)
			}
			return
		}
		for _, a := range x.Args {
			find(a, d+1)
		}
	}
	find(x, 0)
	for _, f := range t.BlockFacts(v.Blk).List() {
		find(f.Cond, 0)
	}
	for _, o := range sortedTerms(lens) {
		if p.leq(x, b.add(o, t.Int(some)), v) {
			return true
		}
	}
	return false
}

// constructor: a function that makes a new part of the node from a setup.
func constructor(f *ssa.Function) bool {
	if f.Signature.Recv() != nil || f.Signature.Results().Len() == 0 {
		return false
	}
	T := f.Signature.Results().At(0).Type()
	pt, ok := T.Underlying().(*types.Pointer)
	if ok {
		T = pt.Elem()
	}
	n, ok := types.Unalias(T).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), "trypo") {
		return false
	}
	_, ok = n.Underlying().(*types.Struct)
	return ok
}

// amounts: what callers ask for decides neither on the size of an allocation, nor
// alone on how long a loop runs, nor on whether the process is ended.
func (c *C) amounts() {
	done := map[string]bool{}
	for _, e := range c.everything() {
		p := c.newPlace(e.G)
		t := p.t
		setup := e.G.Fn != nil && constructor(e.G.Fn)
		first := func(v *eng.Val) bool {
			key := fmt.Sprint(v.Where(), v.Pos, v.Op)
			was := done[key]
			done[key] = true
			return !was
		}
		small := func(rule string, v *eng.Val, x *eng.Term, what string) {
			if a := p.asked(x); a != nil && !p.fewer(x, v) {
				c.Bad(rule, e.Name, v.Where(), "the %s depends on %v, which a caller may choose freely", what, a)
				return
			}
			c.OK(rule, e.Name, v.Where())
		}
		ends := func(v *eng.Val) {
			if setup || !first(v) {
				return
			}
			for _, f := range t.BlockFacts(v.Blk).List() {
				if a := p.asked(f.Cond); a != nil {
					c.Bad("panic", e.Name, v.Where(), "the process ends because of %v, which a caller may choose freely", a)
					return
				}
			}
			c.OK("panic", e.Name, v.Where())
		}
		e.G.EachOwn(func(v *eng.Val) {
			switch v.Op {
			case eng.OpMakeSlice, eng.OpMakeMap, eng.OpMakeChan:
				if setup || !first(v) {
					return
				}
				for _, a := range v.Args {
					if a == nil || !isNumeric(a.Typ) {
						continue
					}
					x := t.Of(a)
					small("alloc", v, x, "size")
					if v.Op != eng.OpMakeMap && !p.leq(t.Int(0), x, v) {
						c.Bad("alloc", e.Name, v.Where(), "the size %v may be negative", x)
					}
				}
			case eng.OpCall:
				switch n := Callee(v); n {
				case "math/rand.Intn", "math/rand.Int31n", "math/rand.Int63n", "time.NewTicker", "time.Tick":
					if first(v) {
						x := t.Of(v.Args[0])
						c.Expect(p.leq(t.Int(1), x, v), "limit", e.Name, v.Where(), "%v may be given %v, which may be zero or less", n, x)
					}
					return
				case "math/rand.Perm":
					if first(v) {
						x := t.Of(v.Args[0])
						small("alloc", v, x, "size")
						c.Expect(p.leq(t.Int(0), x, v), "limit", e.Name, v.Where(), "%v may be given %v, which may be less than zero", n, x)
					}
					return
				case "strings.Repeat", "bytes.Repeat", "bytes.Buffer.Grow", "(*bytes.Buffer).Grow", "(*strings.Builder).Grow":
					if first(v) {
						x := t.Of(v.Args[1])
						small("alloc", v, x, "size")
						if !p.leq(t.Int(0), x, v) {
							c.Bad("alloc", e.Name, v.Where(), "the size %v may be negative", x)
						}
					}
					return
				case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln":
					ends(v)
					return
				}
				if v.Fn == nil || !constructor(v.Fn) || setup || !first(v) {
					return
				}
				for _, a := range v.Args {
					st, ok := a.Typ.Underlying().(*types.Struct)
					if !ok {
						if isNumeric(a.Typ) {
							small("alloc", v, t.Of(a), "setup")
						}
						continue
					}
					for k := 0; k < st.NumFields(); k++ {
						if isNumeric(st.Field(k).Type()) {
							small("alloc", v, t.Project(t.Of(a), k, st.Field(k).Type()), "setup")
						}
					}
				}
			case eng.OpPanic:
				ends(v)
			}
		})
		for _, l := range e.G.Loops() {
			h := l.Head.Instrs[0]
			if l.G != e.G || !first(h) {
				continue
			}
			why := p.endless(l)
			c.Expect(why == "", "loop", e.Name, h.Where(), "%s", why)
		}
	}
}

// endless: the only thing that ends a loop is a number that a caller chose.
func (p *place) endless(l *eng.Loop) string {
	t := p.t
	var by *eng.Term
	for _, x := range l.Exits() {
		last := x.From.Last()
		if last == nil || last.Op != eng.OpIf {
			return ""
		}
		cond := t.Of(last.Args[0])
		if cond.Op == eng.OpBin && cond.Aux == token.LSS.String() && isIntType(cond.Args[0].Typ) {
			// an exit that is never taken
			x0, x1 := cond.Args[0], cond.Args[1]
			if len(x.From.Succs) == 2 && (x.From.Succs[0] == x.To && p.leq(x1, x0, last) ||
				x.From.Succs[1] == x.To && p.leq(p.b.add(x0, t.Int(1)), x1, last)) {
				continue
			}
		}
		a := p.asked(cond)
		if a == nil {
			return ""
		}
		ok := true
		at, _ := t.Lin(cond)
		if cond.Op == eng.OpBin {
			at, _ = t.Lin(cond.Args[0])
		}
		for o := range at {
			if p.asked(o) != nil && !p.fewer(o, last) {
				ok = false
			}
		}
		if ok && len(at) > 0 {
			return ""
		}
		by = a
	}
	if by == nil {
		return ""
	}
	return fmt.Sprintf("nothing but %v, which a caller may choose freely, ends the loop", by)
}

func init() {
	register("P14", checkP14, Desc{
		How: "Every index, slice, allocation, loop and way to end the process is found in the flattened graphs of all functions that may run. An index or the bounds of a slice have to be shown to be within the list as it is at that point, by linear inequalities over the conditions that hold there, the invariants of counters (which are proven by induction, also over several loops and returns of helpers), what is put into maps of positions, what a search of a list returns (positions of that list), how calls in between change the list (positions removed from the highest down, lists that are only appended to), and what filters leave in a list. Numbers that a caller chooses (parameters, their parts, decoded requests, and what is calculated from them, but not the lengths of lists, which exist already) may decide on the size of an allocation or the setup of a new part of the node only below the length of a list or a constant, may not be the only thing that ends a loop (exits that can be shown not to be taken do not count), and may not decide on a panic or an exit of the process. Sizes may not be negative.",
		Rules: map[string]string{
			"index": "an index is within the list", "slice": "the bounds of a slice are ordered and within it",
			"alloc": "a size is not negative, and not chosen by a caller", "loop": "something other than a caller's number ends a loop",
			"limit": "functions of the standard library that refuse zero or less are not given it", "panic": "no caller's number ends the process",
		},
		Assumes: []string{"search functions return distinct positions of the list they were given, at most k (checked for the built-in ones by P19)", "elements and receivers that are themselves nil are not considered (a request cannot contain them other than by addresses that are resolved)", "configuration of a node, like the initial capacity, is not a request", "closing bounds proven by arithmetic over unbounded integers: overflow of a caller's number that is close to the limit of the type is set aside"},
	})
}
