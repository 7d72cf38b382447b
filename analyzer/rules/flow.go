package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"trypocheck/eng"
)

// Flow follows what is taken out of the store (datapoints, centroids) as a resource:
// on every path it has to be handed on, stored somewhere or given back.
//
// The state is a set of tokens:
//
//	E:name:src       an element that is in nobody's hands but ours
//	L:list:src       a list of such elements
//	H:centroid:src   a new centroid with such elements, not part of the store yet
//	A:name:call:src  somebody was asked to take an element; the outcome is not known
//	S:name           an element that was stored again
//	I:head:list:src  a list whose elements are being handed on one by one
//	D:name           an element that was copied but is still stored
//	C                elements that are still stored were copied
//	K:search:list    a list of the elements at the positions that a search found
//	R:search         the elements at these positions were removed
//	N:key            a namespace that is known to exist
type Flow struct {
	c    *C
	g    *eng.Graph
	t    *eng.Terms
	inst string
	self *eng.Term // receiver, if the function is an operation of the store
	flag *eng.Term // own drain option
	asks bool      // removing is the purpose (a drain)

	list  *eng.Path // own list
	listT types.Type
	exp   bool // elements expire

	lists map[string][2]string // type name -> list field
	byID  map[int]*eng.Term
	srcs  map[int]*eng.Val
	copyB map[*eng.Loop]*bulk
	rmB   map[*eng.Loop]*bulk
	covs  map[*eng.Blk]*Cover
	sinks map[*eng.Blk]bool // loops that hand on the elements of a list
	track []*eng.Term
	s     *Sim

	rewrap bool       // elements may be replaced by new ones with the same datapoints
	marks  []*markSet // centroids that may be removed because they were absorbed

	Bad  []flowBad
	seen map[string]bool
	Took int // things taken out
	Read int
}

type flowBad struct {
	kind  string // lost, twice, kept, unasked, other
	where string
	msg   string
}

type bulk struct {
	l      *eng.Loop
	search *eng.Val
	list   *eng.Term // copies: the list they are put into
	store  *eng.Val  // removal
}

func (f *Flow) fail(e *St, v *eng.Val, kind, format string, a ...interface{}) {
	w := v.Where()
	m := fmt.Sprintf(format, a...)
	k := kind + w + m
	if f.seen[k] {
		return
	}
	f.seen[k] = true
	if e != nil {
		m += " (path " + e.Path() + ")"
	}
	f.Bad = append(f.Bad, flowBad{kind, w, m})
}

func (f *Flow) id(x *eng.Term) string { f.byID[x.ID] = x; return strconv.Itoa(x.ID) }

func (f *Flow) term(s string) *eng.Term {
	n, err := strconv.Atoi(s)
	if err != nil {
		return nil
	}
	return f.byID[n]
}

type tokens []string

func toks(e *St) tokens { return strings.Fields(e.A) }

func (k tokens) put(e *St) {
	sort.Strings(k)
	var r []string
	for i, x := range k {
		if i == 0 || x != k[i-1] {
			r = append(r, x)
		}
	}
	e.A = strings.Join(r, " ")
}

func (k tokens) with(s ...string) tokens { return append(append(tokens{}, k...), s...) }

func (k tokens) without(f func(p []string) bool) tokens {
	var r tokens
	for _, x := range k {
		if !f(splitTok(x)) {
			r = append(r, x)
		}
	}
	return r
}

func (k tokens) find(kind, name string) []string {
	for _, x := range k {
		p := splitTok(x)
		if p[0] == kind && (name == "" || len(p) > 1 && p[1] == name) {
			return p
		}
	}
	return nil
}

// newFlow prepares the analysis of one function.
func (c *C) newFlow(fn *ssa.Function, g *eng.Graph, inst string) *Flow {
	t := g.Terms()
	f := &Flow{c: c, g: g, t: t, inst: inst, lists: map[string][2]string{}, byID: map[int]*eng.Term{}, srcs: map[int]*eng.Val{}, copyB: map[*eng.Loop]*bulk{}, rmB: map[*eng.Loop]*bulk{}, covs: map[*eng.Blk]*Cover{}, sinks: map[*eng.Blk]bool{}, seen: map[string]bool{}}
	_, cs := c.structOf(pCent, "Centroid")
	_, ms := c.structOf(pCM, "CentroidManager")
	f.lists[pCent+".Centroid"] = [2]string{fieldOfElems(cs, pCommon+".DataPoint"), pCommon + ".DataPoint"}
	f.lists[pCM+".CentroidManager"] = [2]string{fieldOfElems(ms, pCent+".Centroid"), pCent + ".Centroid"}
	if fn.Signature.Recv() != nil && len(g.Params) > 0 {
		if p, ok := g.Params[0].Typ.Underlying().(*types.Pointer); ok {
			if l, ok := f.lists[eng.TypeName(p.Elem())]; ok && l[0] != "" {
				f.self = t.Of(g.Params[0])
				f.list = t.FieldLoc(t.PtrLoc(f.self), p.Elem(), l[0])
				f.listT = fieldType(p.Elem(), l[0])
				f.exp = l[1] == pCommon+".DataPoint"
				for _, q := range g.Params[1:] {
					if isBoolType(q.Typ) {
						f.flag = t.Of(q)
					}
				}
				f.asks = strings.HasPrefix(fn.Name(), "Drain")
			}
		}
	}
	return f
}

// source: a call that takes things out of a store; flag: whether it does.
func (f *Flow) source(v *eng.Val) (is bool, flag *eng.Term) {
	if v.Op != eng.OpCall {
		return false, nil
	}
	n := Callee(v)
	i := strings.LastIndex(n, ".")
	if i < 0 {
		return false, nil
	}
	switch n[:i] {
	case "Centroid", "CentroidManager", "kmeansClient":
	default:
		return false, nil
	}
	switch n[i+1:] {
	case "DrainUnordered", "DrainOrdered":
		return true, nil
	case "KNNLookup", "NearestCentroids":
		fl := f.t.Of(v.Args[len(v.Args)-1])
		if b, ok := fl.Bool(); ok {
			return b, nil
		}
		return true, fl
	}
	return false, nil
}

// sink: a call that stores a datapoint.
func sinkArg(v *eng.Val) *eng.Val {
	if v.Op != eng.OpCall {
		return nil
	}
	switch Callee(v) {
	case "Centroid.AddDataPoint", "CentroidManager.AddDataPoint", "kmeansClient.AddDataPoint", "iface DataPointReceiver.AddDataPoint":
		return v.Args[1]
	}
	return nil
}

// listOf gives the list that a source returns.
func (f *Flow) listOf(v *eng.Val) *eng.Term {
	if strings.HasSuffix(Callee(v), ".NearestCentroids") {
		return f.t.Extract(f.t.Of(v), 0, v.Typ.(*types.Tuple).At(0).Type())
	}
	return f.t.Of(v)
}

// excused: nothing was taken out after all.
func (f *Flow) excused(e *St, src string) bool {
	n, err := strconv.Atoi(src)
	if err != nil || n == 0 {
		return f.flag != nil && src == "self" && f.isFalse(e, f.flag)
	}
	v := f.srcs[n]
	if v == nil {
		return false
	}
	if _, fl := f.source(v); fl != nil && f.isFalse(e, fl) {
		return true
	}
	if tp, ok := v.Typ.(*types.Tuple); ok && tp.Len() == 2 && f.isFalse(e, f.t.Extract(f.t.Of(v), 1, tp.At(1).Type())) {
		return true
	}
	return false
}

func (f *Flow) isFalse(e *St, x *eng.Term) bool {
	v, known := e.Truth(x)
	return known && !v
}

func (f *Flow) noElems(e *St, x *eng.Term, at *eng.Val) bool {
	if emptyList(x) {
		return true
	}
	_, hi := e.Facts().Range(f.t.Len(x, at))
	return hi <= 0
}

// storeOf says whether an address is the list of a centroid or manager.
func (f *Flow) storeOf(p *eng.Path) bool {
	s, fl := p.LastField()
	l, ok := f.lists[s]
	return ok && l[0] == fl
}

// isItem: the elements that are followed.
func (f *Flow) isItemList(tp types.Type) bool {
	if !isListType(tp) {
		return false
	}
	return f.isItem(eng.ElemType(tp))
}

func (f *Flow) isItem(et types.Type) bool {
	if et == nil {
		return false
	}
	if p, ok := et.(*types.Pointer); ok {
		return eng.TypeName(p.Elem()) == pCent+".Centroid"
	}
	return eng.TypeName(et) == pCommon+".DataPoint"
}

// name gives an element a name: the current one of a list that is handed on, or itself.
func (f *Flow) name(e *St, x *eng.Term) string {
	x = e.Resolve(x)
	for _, k := range toks(e) {
		p := strings.Split(k, ":")
		if p[0] != "I" {
			continue
		}
		if f.isCur(f.covs[f.blk(p[1])], x) {
			return "cur" + p[1]
		}
	}
	return f.id(x)
}

func (f *Flow) blk(s string) *eng.Blk {
	n, _ := strconv.Atoi(s)
	for _, b := range f.g.Blocks {
		if b.ID == n {
			return b
		}
	}
	return nil
}

func (f *Flow) isCur(cv *Cover, x *eng.Term) bool {
	if cv == nil {
		return false
	}
	if fs, ok := cv.ElemOf(f.t, x); ok {
		return len(fs) == 0
	}
	if x.Op == eng.OpAgg {
		st, ok := x.Typ.Underlying().(*types.Struct)
		if !ok || len(x.Args) != st.NumFields() {
			return false
		}
		for i := range x.Args {
			if fs, ok := cv.ElemOf(f.t, x.Args[i]); !ok || len(fs) != 1 || fs[0] != st.Field(i).Name() && fs[0] != strconv.Itoa(i) {
				return false
			}
		}
		return true
	}
	return false
}

// sameHolder: two receivers are the same centroid, manager or node.
func (f *Flow) sameHolder(a, b *eng.Term) bool {
	if a == nil || b == nil {
		return false
	}
	if a == b {
		return true
	}
	if x, y := managerKey(f.t, a), managerKey(f.t, b); x != nil && x == y {
		return true
	}
	// the same position of the same list
	if l, i, _ := elemAt(a); l != nil {
		if m, j, _ := elemAt(b); m != nil && sameCell(l, m) && sameInt(f.t, i, j) {
			return true
		}
	}
	return false
}

// safeFor: the receiver can not refuse an (unexpired) element of a source.
func (f *Flow) safeFor(e *St, v *eng.Val, src string) bool {
	recv := e.Resolve(f.t.Of(v.Args[0]))
	var from *eng.Term
	var at *eng.Val
	if n, err := strconv.Atoi(src); err == nil && f.srcs[n] != nil {
		at = f.srcs[n]
		from = e.Resolve(f.t.Of(at.Args[0]))
	} else if src == "self" {
		from, at = f.self, f.g.Entry.Instrs[0]
	}
	if from == nil {
		return false
	}
	if f.sameHolder(recv, unwrapIface(from)) {
		return true
	}
	if Callee(v) != "Centroid.AddDataPoint" {
		return false
	}
	vecF := f.centroidVec()
	cn := f.c.P.Named(pCent, "Centroid")
	vec := func(x *eng.Term, at *eng.Val) *eng.Term {
		return e.Resolve(f.t.LoadAt(f.t.FieldLoc(f.t.PtrLoc(x), cn, vecF), fieldType(cn, vecF), at))
	}
	if iv := f.initVec(e, recv, v); iv != nil {
	}
	// a new centroid of the same dimension
	if recv.Op == eng.OpAlloc {
		if iv := f.initVec(e, recv, v); iv != nil && sameInt(f.t, f.t.Len(iv, v), f.t.Len(vec(from, at), at)) {
			return true
		}
	}
	// found by a search for what is near the receiver
	if l, i, _ := elemAt(from); l != nil && f.list != nil && sameCell(l, f.t.LoadAt(f.list, f.listT, at)) {
		if il, _, _ := elemAt(i); il != nil && il.V != nil && isSearch(il.V) {
			q := e.Resolve(f.t.Of(searchArgs(il.V)[0]))
			if q == vec(recv, il.V) {
				return true
			}
			if q.Path != nil && eng.SamePath(q.Path, f.t.FieldLoc(f.t.PtrLoc(recv), cn, vecF)) {
				return true
			}
		}
	}
	return false
}

func (f *Flow) centroidVec() string {
	_, st := f.c.structOf(pCent, "Centroid")
	return fieldOfType(st, "[]float64")
}

// initVec gives the vector that a new centroid was made with.
func (f *Flow) initVec(e *St, alloc *eng.Term, at *eng.Val) *eng.Term {
	var call *eng.Val
	f.g.EachOwn(func(w *eng.Val) {
		if w.Op == eng.OpStore && f.t.PathOf(w.Args[0]).Root == alloc {
			x := f.t.Of(w.Args[1])
			if x.Op == eng.OpExtract && x.Args[0].V != nil && Callee(x.Args[0].V) == "centroid.NewCentroid" {
				call = x.Args[0].V
			}
		}
	})
	if call == nil {
		return nil
	}
	return fieldTerm(f.t, e.Resolve(f.t.Of(call.Args[0])), "InitVec")
}

// stored: an element was put (back) into a store.
func (f *Flow) stored(e *St, v *eng.Val, name string) {
	k := toks(e)
	if k.find("E", name) == nil && k.find("S", name) != nil {
		f.fail(e, v, "twice", "something may be stored a second time")
	}
	k = k.without(func(p []string) bool { return (p[0] == "E" || p[0] == "A") && p[1] == name })
	k.with("S:" + name).put(e)
}

// settle decides the outcome of attempts to hand something over.
func (f *Flow) settle(e *St, v *eng.Val, force bool) {
	k := toks(e)
	changed := false
	var r tokens
	var done []string
	for _, x := range k {
		p := splitTok(x)
		if p[0] != "A" {
			r = append(r, x)
			continue
		}
		n, _ := strconv.Atoi(p[2])
		call := f.srcs[n]
		val, known := e.Truth(f.t.Of(call))
		switch {
		case known && val, force && !known && f.safeFor(e, call, p[3]):
			done = append(done, p[1])
			changed = true
		case known && !val:
			if f.safeFor(e, call, p[3]) {
				done = append(done, p[1]) // refused by the one it came from: has expired
			} else {
				r = append(r, "E:"+p[1]+":"+p[3])
			}
			changed = true
		case force:
			f.fail(e, v, "lost", "something is handed over at %s without looking at whether it was taken", call.Where())
			changed = true
		default:
			r = append(r, x)
		}
	}
	if changed {
		r.put(e)
		for _, n := range done {
			f.stored(e, v, n)
		}
	}
}

// grow: list x is made from base by adding elements.
func (f *Flow) grow(e *St, v *eng.Val) {
	t := f.t
	if !f.isItemList(v.Typ) {
		return
	}
	for l, b := range f.copyB {
		if l.Blocks[v.Blk] && b.list != nil && e.Resolve(t.Of(v.Args[0])) == b.list {
			return
		}
	}
	x := t.Of(v)
	base := e.Resolve(t.Of(v.Args[0]))
	k := toks(e)
	src := ""
	join := func(s string) {
		if src != "" && src != s {
			s = "0"
		}
		src = s
	}
	el, sp := appended(t, v)
	if _, _, ok := removal(t, x); ok {
		return
	}
	if p := k.find("L", f.id(base)); p != nil {
		join(p[2])
		k = k.without(func(q []string) bool { return q[0] == "L" && q[1] == p[1] })
	}
	if sp != nil {
		y := e.Resolve(sp)
		if p := k.find("L", f.id(y)); p != nil {
			join(p[2])
			k = k.without(func(q []string) bool { return q[0] == "L" && q[1] == p[1] })
		}
	}
	for _, y := range el {
		y = e.Resolve(y)
		n := f.name(e, y)
		if p := k.find("E", n); p != nil {
			join(p[2])
			k = k.without(func(q []string) bool { return q[0] == "E" && q[1] == n }).with("S:" + n)
			continue
		}
		if k.find("S", n) != nil {
			f.fail(e, v, "twice", "something that was stored again is handed on as well")
		}
		if p := k.find("H", n); p != nil {
			join(p[2])
			k = k.without(func(q []string) bool { return q[0] == "H" && q[1] == n })
			continue
		}
		// a copy of something that is still stored
		if f.list != nil {
			if l, _, fs := elemAt(y); l != nil && len(fs) == 0 && sameCell(l, t.LoadAt(f.list, f.listT, v)) {
				k = k.with("D:" + n)
				join("self")
				f.Read++
			}
		}
	}
	if src != "" {
		k = k.with("L:" + f.id(x) + ":" + src)
	}
	k.put(e)
}

// replace: the list of a store is set.
func (f *Flow) replace(e *St, v *eng.Val, p *eng.Path) {
	t := f.t
	lt := v.Args[1].Typ
	own := f.list != nil && eng.SamePath(p, f.list)
	N := e.Resolve(t.Of(v.Args[1]))
	O := e.Resolve(t.LoadAt(p, lt, v))
	for l, b := range f.rmB {
		if b.store == v && l.Blocks[v.Blk] {
			return
		}
	}
	k := toks(e)
	ch := changeOf(t, O, N, e.Resolve)
	switch ch.Kind {
	case "same":
		return
	case "add":
		n := f.name(e, ch.Elem)
		if k.find("L", f.id(N)) != nil && k.find("E", n) == nil {
			// counted when it was appended
			k.without(func(q []string) bool { return q[0] == "H" && q[1] == n || q[0] == "L" && q[1] == f.id(N) }).put(e)
			return
		}
		k = k.without(func(q []string) bool { return q[0] == "H" && q[1] == n || q[0] == "L" && q[1] == f.id(N) })
		k.put(e)
		if k.find("E", n) != nil || k.find("A", n) != nil || k.find("S", n) != nil {
			f.stored(e, v, n)
		}
		return
	case "remove":
		f.removed(e, v, ch, own)
		return
	}
	if N.Op == eng.OpAppend && e.Resolve(t.Of(N.V.Args[0])) == O {
		// several elements are added; what is held of them was turned into a list
		k.without(func(q []string) bool { return q[0] == "L" && q[1] == f.id(N) }).put(e)
		return
	}
	why := f.keepsAll(e, N, O, v)
	if why == "" {
		k.without(func(q []string) bool { return q[0] == "L" && q[1] == f.id(N) }).put(e)
		return
	} else if !f.noElems(e, O, v) {
		// all of the old list is in our hands now
		if f.needFlag(e, v) {
			k = k.with("L:" + f.id(O) + ":self")
			f.Took++
		}
	}
	k = k.without(func(q []string) bool { return q[0] == "L" && q[1] == f.id(N) })
	k.put(e)
}

// needFlag: without the drain option nothing is taken out.
func (f *Flow) needFlag(e *St, v *eng.Val) bool {
	if f.flag != nil {
		if val, known := e.Truth(f.flag); !known || !val {
			f.fail(e, v, "unasked", "something is removed although the drain option is not known to be set")
			return false
		}
	}
	return true
}

// removed: one element leaves a list.
func (f *Flow) removed(e *St, v *eng.Val, ch Change, own bool) {
	t := f.t
	et := eng.ElemType(v.Args[1].Typ)
	x := e.Resolve(t.LoadAt(t.ElemLoc(ch.From, ch.Idx, et), et, ch.At))
	if f.gone(e, x, ch.From, ch.Idx, ch.At) {
		return
	}
	if !f.needFlag(e, v) {
		return
	}
	f.Took++
	n := f.name(e, x)
	k := toks(e)
	if k.find("D", n) != nil {
		k.without(func(q []string) bool { return q[0] == "D" && q[1] == n }).put(e)
		return
	}
	k.with("E:" + n + ":self").put(e)
}

// gone: nobody misses an element: it has expired, or is a centroid without datapoints.
func (f *Flow) gone(e *St, x, list, idx *eng.Term, at *eng.Val) bool {
	t := f.t
	if _, ptr := x.Typ.(*types.Pointer); !ptr {
		if list != nil {
			if y, known := knownExpired(t, e.Facts(), list, idx, e.Resolve); known && y {
				return true
			}
		}
		for _, y := range e.Facts().List() {
			if dp := expiredOf(t, y.Cond); dp != nil && y.Val {
				if dp = e.Resolve(dp); dp == x || sameStruct(t, dp, x) {
					return true
				}
			}
		}
		return false
	}
	if list != nil && f.markedAt(e, list, idx) {
		return true
	}
	return f.hollow(e, x, at)
}

// hollow: a centroid has no datapoints.
func (f *Flow) hollow(e *St, x *eng.Term, at *eng.Val) bool {
	if b, known := e.Truth(f.t.Bin(eqTok, x, f.t.Zero(x.Typ), types.Typ[types.Bool])); known && b {
		return true
	}
	cn := f.c.P.Named(pCent, "Centroid")
	lf := f.lists[pCent+".Centroid"][0]
	dps := f.t.LoadAt(f.t.FieldLoc(f.t.PtrLoc(x), cn, lf), fieldType(cn, lf), at)
	if _, hi := e.Facts().Range(f.t.Len(dps, at)); hi <= 0 {
		return true
	}
	// LenDP() = 0
	for _, y := range e.Facts().List() {
		c := y.Cond
		for _, a := range condAtoms(f.t, c) {
			if a.Op == eng.OpCall && a.V != nil && Callee(a.V) == "Centroid.LenDP" && e.Resolve(f.t.Of(a.V.Args[0])) == x {
				if _, hi := e.Facts().Range(a); hi <= 0 {
					return true
				}
			}
		}
	}
	return false
}

// keepsAll: a new list has everything of the old one that matters.
func (f *Flow) keepsAll(e *St, N, O *eng.Term, at *eng.Val) string {
	t := f.t
	if b := copiedFrom(t, N, at); b != nil {
		if b = e.Resolve(b); b == O {
			return ""
		}
		if N.Op == eng.OpAppend && b != N {
			// a copy of a list that was built before
			return f.keepsAll(e, b, O, at)
		}
	}
	m, why := mapLoop(f.g, t, N, nil)
	if m == nil {
		return why
	}
	if e.Resolve(m.Cv.List) != O || m.Cv.Next != nil {
		return "made from another list"
	}
	for _, x := range m.Elems {
		if !f.isCur(m.Cv, x) && !(f.rewrap && f.carries(x, m.Cv.List, m.Cv.Idx)) {
			return "other elements"
		}
	}
	if !m.Filtered {
		return ""
	}
	l := m.Cv.L
	et := eng.ElemType(N.Typ)
	bad := ""
	var track []*eng.Term
	for b := range l.Blocks {
		for _, v := range b.Instrs {
			if v.Op == eng.OpCall {
				track = append(track, t.Of(v))
			}
			if v.Op == eng.OpIf {
				track = append(track, t.Of(v.Args[0]))
			}
		}
	}
	s := &Sim{G: f.g, T: t, From: l.Head, Track: track}
	s.Event = func(y *St, v *eng.Val) {
		if v == m.At {
			y.Dead = true
		}
	}
	s.Edge = func(y *St, from, to *eng.Blk) bool {
		if to == l.Head {
			la := from.Last()
			x := y.Resolve(t.LoadAt(t.ElemLoc(m.Cv.List, m.Cv.Idx, et), et, la))
			if !f.gone(y, x, m.Cv.List, m.Cv.Idx, la) {
				bad = "elements may be left out"
			}
			return false
		}
		return l.Blocks[to]
	}
	s.Run()
	f.c.States += s.States
	if s.Overflow {
		return "too many paths"
	}
	return bad
}

// findBulk finds loops that copy or remove the elements at the positions that a
// search found.
func (f *Flow) findBulk() {
	t := f.t
	for _, l := range f.g.Loops() {
		if cv := cover(t, l); cv != nil {
			f.covs[l.Head] = cv
		}
	}
	if f.list == nil {
		return
	}
	for _, l := range f.g.Loops() {
		cv := f.covs[l.Head]
		if cv == nil || cv.Next != nil || len(l.Exits()) != 1 {
			continue
		}
		var stores []*eng.Val
		for b := range l.Blocks {
			for _, v := range b.Instrs {
				if v.Op == eng.OpStore && eng.SamePath(t.PathOf(v.Args[0]), f.list) {
					stores = append(stores, v)
				}
			}
		}
		if len(stores) == 1 {
			v := stores[0]
			old, idx, ok := removal(t, t.Of(v.Args[1]))
			if ok && old == t.LoadAt(f.list, f.listT, v) && onlyStraight(l, v.Blk) {
				if sv := f.positions(cv, l, idx); sv != nil && f.intact(l, sv) {
					f.rmB[l] = &bulk{l: l, search: sv, store: v}
				}
			}
		}
	}
	// lists of copies
	seen := map[*eng.Term]bool{}
	for _, x := range f.joinsOfLists() {
		if seen[x] {
			continue
		}
		seen[x] = true
		m, _ := mapLoop(f.g, t, x, nil)
		if m == nil || m.Filtered || len(m.Elems) != 1 {
			continue
		}
		S, idx, fs := elemAt(m.Elems[0])
		if S == nil || len(fs) != 0 || !sameCell(S, t.LoadAt(f.list, f.listT, m.At)) {
			continue
		}
		sv := f.posOf(m.Cv, idx)
		if sv != nil && f.listAfter(sv) == S {
			f.copyB[m.Cv.L] = &bulk{l: m.Cv.L, search: sv, list: x}
		}
	}
}

// joinsOfLists gives lists of elements that a loop builds.
func (f *Flow) joinsOfLists() []*eng.Term {
	var r []*eng.Term
	f.g.EachOwn(func(v *eng.Val) {
		switch v.Op {
		case eng.OpAppend:
			if f.isItemList(v.Typ) {
				b := f.t.Of(v.Args[0])
				if j := b.JoinBlk(); j != nil && j.IsLoopHeader() {
					r = append(r, b)
				}
			}
		case eng.OpMakeSlice:
			if f.isItemList(v.Typ) {
				r = append(r, f.t.Of(v))
			}
		}
	})
	return r
}

// listAfter: the own list right after a search.
func (f *Flow) listAfter(sv *eng.Val) *eng.Term {
	for i, v := range sv.Blk.Instrs {
		if v == sv && i+1 < len(sv.Blk.Instrs) {
			return f.t.LoadAt(f.list, f.listT, sv.Blk.Instrs[i+1])
		}
	}
	return nil
}

// intact: the list is as it was at the search when the loop starts.
func (f *Flow) intact(l *eng.Loop, sv *eng.Val) bool {
	if !sv.Blk.Dominates(l.Head) || l.Blocks[sv.Blk] {
		return false
	}
	want := f.listAfter(sv)
	for _, p := range l.Head.Preds {
		if !l.Blocks[p] && f.t.LoadAt(f.list, f.listT, p.Last()) != want {
			return false
		}
	}
	return want != nil
}

// indexList: a list of positions that a search found (or a copy of it).
func (f *Flow) indexList(x *eng.Term) *eng.Val {
	for i := 0; i < 3; i++ {
		if x == nil {
			return nil
		}
		if x.Op == eng.OpCall && x.V != nil && isSearch(x.V) {
			return x.V
		}
		var at *eng.Val
		if x.V != nil {
			at = x.V
		}
		x = copiedFrom(f.t, x, at)
	}
	return nil
}

// posOf: idx is the current element of the positions that a search found.
func (f *Flow) posOf(cv *Cover, idx *eng.Term) *eng.Val {
	if fs, ok := cv.ElemOf(f.t, idx); ok && len(fs) == 0 {
		return f.indexList(cv.List)
	}
	return nil
}

// positions: a loop goes through found positions from the highest to the lowest.
func (f *Flow) positions(cv *Cover, l *eng.Loop, idx *eng.Term) *eng.Val {
	t := f.t
	I, pos, fs := elemAt(idx)
	if I == nil || len(fs) != 0 || cv.Idx == nil {
		return nil
	}
	sv := f.indexList(I)
	if sv == nil {
		return nil
	}
	// over all of them
	n := t.Len(I, nil)
	if t.Len(cv.List, nil) != n {
		return nil
	}
	back := cv.Back
	if !sameInt(t, pos, cv.Idx) {
		sum := t.Bin(plus, pos, cv.Idx, types.Typ[types.Int])
		if d, ok := t.Diff(sum, n); !ok || d != -1 {
			return nil
		}
		back = !back
	}
	// sorted
	dir := ""
	var at *eng.Val
	f.g.EachOwn(func(v *eng.Val) {
		if v.Op != eng.OpCall || !v.Blk.Dominates(l.Head) || l.Blocks[v.Blk] {
			return
		}
		d := ""
		switch Callee(v) {
		case "sort.Ints", "slices.Sort":
			if f.t.Of(v.Args[0]) == I {
				d = "asc"
			}
		case "sort.Sort", "sort.Stable":
			x := unwrapIface(f.t.Of(v.Args[0]))
			for x.Op == eng.OpConv {
				x = x.Args[0]
			}
			if x == I {
				d = "asc"
			}
			if x.Op == eng.OpCall && x.V != nil && Callee(x.V) == "sort.Reverse" {
				y := unwrapIface(f.t.Of(x.V.Args[0]))
				for y.Op == eng.OpConv {
					y = y.Args[0]
				}
				if y == I {
					d = "desc"
				}
			}
		}
		if d != "" {
			dir, at = d, v
		}
	})
	if dir == "" || back != (dir == "asc") {
		return nil
	}
	// not written after that
	loc := t.ElemLoc(I, cv.Idx, types.Typ[types.Int])
	ok := true
	f.g.EachOwn(func(v *eng.Val) {
		if v != at && v.Op != eng.OpAlloc && v.Op != eng.OpMakeSlice && (f.g.Reaches(at.Blk, v.Blk) || v.Blk == at.Blk && before(f.g, at, v)) && (l.Blocks[v.Blk] || f.g.Reaches(v.Blk, l.Head)) && t.Affects(v, loc, types.Typ[types.Int]) {
			ok = false
		}
	})
	if !ok {
		return nil
	}
	return sv
}

// Run walks all paths.
func (f *Flow) Run() {
	t := f.t
	f.findBulk()
	f.findMarks()
	f.g.EachOwn(func(v *eng.Val) {
		if is, _ := f.source(v); is {
			f.srcs[v.ID] = v
			f.Took++
			f.track = append(f.track, f.listOf(v))
			if tp, ok := v.Typ.(*types.Tuple); ok && tp.Len() == 2 {
				f.track = append(f.track, t.Extract(t.Of(v), 1, tp.At(1).Type()))
			}
		}
		if sinkArg(v) != nil {
			f.srcs[v.ID] = v
			f.track = append(f.track, t.Of(v))
		}
		switch v.Op {
		case eng.OpAppend:
			if f.isItemList(v.Typ) {
				f.track = append(f.track, t.Of(v), t.Of(v.Args[0]))
				if _, sp := appended(t, v); sp != nil {
					f.track = append(f.track, t.Len(sp, v))
				}
			}
		case eng.OpStore:
			if p := t.PathOf(v.Args[0]); f.storeOf(p) {
				f.track = append(f.track, t.Of(v.Args[1]), t.LoadAt(p, v.Args[1].Typ, v), t.Len(t.LoadAt(p, v.Args[1].Typ, v), v))
			} else if f.isReply(p) && f.isItemList(v.Args[1].Typ) {
				f.track = append(f.track, t.Of(v.Args[1]))
			}
		case eng.OpReturn:
			for _, a := range v.Args {
				f.track = append(f.track, t.Of(a))
			}
		case eng.OpCall:
			if isExpired(v) || Callee(v) == "Centroid.LenDP" {
				f.track = append(f.track, t.Of(v))
			}
		}
	})
	if f.flag != nil {
		f.track = append(f.track, f.flag)
	}
	for _, v := range f.srcs {
		if _, fl := f.source(v); fl != nil {
			f.track = append(f.track, fl)
		}
	}
	for h, cv := range f.covs {
		if f.isItemList(cv.List.Typ) || cv.Next != nil && f.isMapOfItems(cv.List.Typ) {
			f.track = append(f.track, cv.List)
			if !f.isItemList(cv.List.Typ) {
				continue
			}
			for b := range cv.L.Blocks {
				for _, v := range b.Instrs {
					if a := sinkArg(v); a != nil && f.curLoose(cv, t.Of(a)) {
						f.sinks[h] = true
					}
					if v.Op == eng.OpAppend && f.isItemList(v.Typ) {
						el, _ := appended(t, v)
						for _, x := range el {
							if f.curLoose(cv, x) {
								f.sinks[h] = true
							}
						}
					}
				}
			}
		}
	}
	s := &Sim{G: f.g, T: t, Track: f.track}
	f.s = s
	s.Branch = func(e *St, cond *eng.Term, val bool) {
		if x, none := nilTested(cond, val); x != nil {
			// the factory gives a manager
			if x = e.Resolve(x); none && x.Op == eng.OpCall && x.V != nil && Callee(x.V) == "dynamic" && isManagerPtr(x.Typ) {
				e.Dead = true
				return
			}
		}
		if key, ex, ok := existsCond(cond); ok && ex != val {
			if toks(e).find("N", f.id(key)) != nil {
				e.Dead = true
				return
			}
		} else if ok {
			toks(e).with("N:" + f.id(key)).put(e)
		}
		f.settle(e, e.Blk.Last(), false)
	}
	s.Event = func(e *St, v *eng.Val) { f.event(e, v) }
	s.Edge = func(e *St, from, to *eng.Blk) bool { return f.edge(e, from, to) }
	s.Exit = func(e *St, ret *eng.Val) { f.exit(e, ret) }
	s.Run()
	f.c.States += s.States
	f.judgeMarks()
	if s.Overflow {
		f.fail(nil, f.g.Entry.Instrs[0], "other", "too many paths")
	}
}

func (f *Flow) isMapOfItems(tp types.Type) bool {
	m, ok := tp.Underlying().(*types.Map)
	return ok && f.isItem(m.Elem())
}

// curLoose: the element of a loop, possibly behind joins.
func (f *Flow) curLoose(cv *Cover, x *eng.Term) bool {
	for _, y := range f.t.Leaves(x, nil) {
		if f.isCur(cv, y) {
			return true
		}
	}
	return false
}

func (f *Flow) event(e *St, v *eng.Val) {
	t := f.t
	f.markEvent(e, v)
	if is, _ := f.source(v); is {
		if !f.excused(e, strconv.Itoa(v.ID)) {
			toks(e).with("L:" + f.id(f.listOf(v)) + ":" + strconv.Itoa(v.ID)).put(e)
		}
		return
	}
	if a := sinkArg(v); a != nil {
		f.settle(e, v, false)
		n := f.name(e, t.Of(a))
		k := toks(e)
		if p := k.find("A", n); p != nil {
			// asked somebody else without knowing what became of it
			f.settle(e, v, true)
			k = toks(e)
		}
		if p := k.find("E", n); p != nil {
			recv := e.Resolve(t.Of(v.Args[0]))
			if recv.Op == eng.OpAlloc && Callee(v) == "Centroid.AddDataPoint" {
				if f.safeFor(e, v, p[2]) {
					k.without(func(q []string) bool { return q[0] == "E" && q[1] == n }).with("S:"+n, "H:"+f.id(recv)+":"+p[2]).put(e)
					return
				}
				k = k.with("H:" + f.id(recv) + ":" + p[2])
			}
			k.without(func(q []string) bool { return q[0] == "E" && q[1] == n }).with("A:" + n + ":" + strconv.Itoa(v.ID) + ":" + p[2]).put(e)
		} else if k.find("S", n) != nil {
			f.fail(e, v, "twice", "something may be stored a second time")
		}
		return
	}
	switch v.Op {
	case eng.OpAppend:
		f.grow(e, v)
	case eng.OpStore:
		p := t.PathOf(v.Args[0])
		if f.storeOf(p) && !f.fresh(p) {
			f.replace(e, v, p)
			return
		}
		// the reply of a server
		if f.isReply(p) {
			x := e.Resolve(t.Of(v.Args[1]))
			toks(e).without(func(q []string) bool { return q[0] == "L" && q[1] == f.id(x) }).put(e)
		}
	case eng.OpMapUpdate:
		if isSlots(t.Of(v.Args[0])) {
			toks(e).with("N:" + f.id(e.Resolve(t.Of(v.Args[1])))).put(e)
		}
	}
}

func (f *Flow) fresh(p *eng.Path) bool {
	return p.Root.Op == eng.OpAlloc
}

func (f *Flow) isReply(p *eng.Path) bool {
	if f.self != nil {
		return false
	}
	for i, q := range f.g.Params {
		if i > 0 && f.t.Of(q) == p.Root {
			return true
		}
	}
	return false
}

// rename follows what is held over the edge to a loop head.
func (f *Flow) rename(e *St, from, to *eng.Blk, l *eng.Loop) {
	back := l.Blocks[from]
	if back {
		f.markEnd(e, from.Last(), l)
	}
	var r tokens
	for _, x := range toks(e) {
		p := splitTok(x)
		switch p[0] {
		case "L", "H", "E", "K":
			ix := 1
			if p[0] == "K" {
				ix = 2
			}
			y := f.term(p[ix])
			if y == nil {
				r = append(r, x)
				continue
			}
			done := false
			for _, j := range f.s.relJoin[to] {
				as, ps := f.t.PhiArgs(j)
				for i := range as {
					if ps[i] == from && e.Resolve(as[i]) == y && types.Identical(j.Typ, y.Typ) {
						p[ix] = f.id(j)
						done = true
					}
				}
				if done {
					break
				}
			}
			if !done && back && !f.t.Invariant(l, y) {
				if p[0] == "L" && f.noElems(e, y, from.Last()) || len(p) > 2 && f.excused(e, p[2]) {
					continue
				}
				if p[0] == "E" && f.gone(e, y, nil, nil, from.Last()) {
					continue
				}
				f.fail(e, from.Last(), "lost", "something that was taken out is dropped")
				continue
			}
			r = append(r, strings.Join(p, ":"))
		case "D":
			if back {
				r = append(r, "C")
			} else {
				r = append(r, x)
			}
		case "S":
			if !back {
				r = append(r, x)
			}
		default:
			r = append(r, x)
		}
	}
	r.put(e)
}

func (f *Flow) edge(e *St, from, to *eng.Blk) bool {
	if len(f.Bad) > 3 {
		return false
	}
	// leaving loops
	for _, x := range toks(e) {
		p := splitTok(x)
		if p[0] != "I" {
			continue
		}
		cv := f.covs[f.blk(p[1])]
		cur := "cur" + p[1]
		switch {
		case cv.Exit.From == from && cv.Exit.To == to:
			toks(e).without(func(q []string) bool { return q[0] == "I" && q[1] == p[1] || q[0] == "S" && q[1] == cur }).put(e)
		case cv.L.Blocks[from] && !cv.L.Blocks[to]:
			f.settle(e, from.Last(), true)
			k := toks(e)
			if !f.excused(e, p[3]) && !f.lastOne(e, cv, from) {
				f.fail(e, from.Last(), "lost", "the rest of what was taken out is dropped")
			}
			k.without(func(q []string) bool {
				return q[0] == "I" && q[1] == p[1] || (q[0] == "E" || q[0] == "S") && q[1] == cur
			}).put(e)
		case to == cv.L.Head && cv.L.Blocks[from]:
			f.settle(e, from.Last(), true)
			k := toks(e)
			if q := k.find("E", cur); q != nil && !f.excused(e, p[3]) {
				y := f.t.LoadAt(f.t.ElemLoc(cv.List, cv.Idx, eng.ElemType(cv.List.Typ)), eng.ElemType(cv.List.Typ), from.Last())
				if !f.gone(e, y, cv.List, cv.Idx, from.Last()) {
					f.fail(e, from.Last(), "lost", "something that was taken out is dropped")
				}
			}
			k.without(func(q []string) bool { return (q[0] == "E" || q[0] == "S") && q[1] == cur }).put(e)
		case cv.Exit.From == from && cv.L.Blocks[to]:
			toks(e).with("E:" + cur + ":" + p[3]).put(e)
		}
	}
	for _, l := range f.g.Loops() {
		if l.Blocks[from] && !l.Blocks[to] {
			if b := f.copyB[l]; b != nil {
				f.Read++
				toks(e).with("K:" + strconv.Itoa(b.search.ID) + ":" + f.id(b.list)).put(e)
			}
			if b := f.rmB[l]; b != nil {
				if f.needFlag(e, b.store) {
					f.Took++
					toks(e).with("R:" + strconv.Itoa(b.search.ID)).put(e)
				}
			}
		}
	}
	k := toks(e)
	for _, x := range k {
		p := splitTok(x)
		if p[0] == "K" && k.find("R", p[1]) != nil {
			k = k.without(func(q []string) bool { return (q[0] == "K" || q[0] == "R") && q[1] == p[1] }).with("L:" + p[2] + ":self")
			k.put(e)
		}
	}
	if l := f.g.LoopAt(to); l != nil {
		f.settle(e, from.Last(), true)
		f.rename(e, from, to, l)
		if !l.Blocks[from] {
			if cv := f.covs[to]; cv != nil && f.sinks[to] && f.copyB[l] == nil {
				y := e.Resolve(cv.List)
				k := toks(e)
				if p := k.find("L", f.id(y)); p != nil {
					h := strconv.Itoa(to.ID)
					k.without(func(q []string) bool { return q[0] == "L" && q[1] == p[1] }).with("I:" + h + ":" + p[1] + ":" + p[2]).put(e)
				}
			}
		}
	}
	return !e.Dead
}

// lastOne: a loop is left at the last element.
func (f *Flow) lastOne(e *St, cv *Cover, from *eng.Blk) bool {
	if cv.Idx == nil || cv.Back || toks(e).find("E", "cur"+strconv.Itoa(cv.L.Head.ID)) != nil {
		return false
	}
	rest := f.t.Bin(minus, f.t.Len(cv.List, from.Last()), cv.Idx, types.Typ[types.Int])
	_, hi := e.Facts().Range(rest)
	return hi <= 1
}

func (f *Flow) exit(e *St, ret *eng.Val) {
	f.settle(e, ret, true)
	f.markEnd(e, ret, nil)
	var res []*eng.Term
	for _, a := range ret.Args {
		res = append(res, e.Resolve(f.t.Of(a)))
	}
	returned := func(x *eng.Term) bool {
		for _, r := range res {
			if r == x {
				return true
			}
		}
		return false
	}
	for _, x := range toks(e) {
		p := splitTok(x)
		switch p[0] {
		case "E":
			y := f.term(p[1])
			if f.excused(e, p[2]) || y != nil && (returned(y) || f.gone(e, y, nil, nil, ret)) {
				continue
			}
			f.fail(e, ret, "lost", "something that was taken out is dropped")
		case "H":
			if y := f.term(p[1]); f.excused(e, p[2]) || y != nil && returned(y) {
				continue
			}
			f.fail(e, ret, "lost", "a new centroid with what was taken out is dropped")
		case "L":
			y := f.term(p[1])
			if f.excused(e, p[2]) || returned(y) || f.noElems(e, y, ret) {
				continue
			}
			f.fail(e, ret, "lost", "what was taken out is dropped")
		case "R":
			f.fail(e, ret, "lost", "elements at positions that a search found are removed without being returned")
		case "I":
			if !f.excused(e, p[3]) {
				f.fail(e, ret, "lost", "the rest of what was taken out is dropped")
			}
		case "K":
			y := f.term(p[2])
			if returned(y) && f.mustRemove(e) {
				f.fail(e, ret, "kept", "what is returned stays in the store although it is asked to be removed")
			}
		case "C", "D":
			if f.mustRemove(e) {
				f.fail(e, ret, "kept", "what is returned may stay in the store although it is asked to be removed")
			}
		}
	}
}

// mustRemove: what is returned has to be removed.
func (f *Flow) mustRemove(e *St) bool {
	if f.flag != nil {
		return !f.isFalse(e, f.flag)
	}
	return f.asks
}

// nilTested: x is compared with nil; isNil tells whether it is if the condition has a value.
func nilTested(cond *eng.Term, val bool) (x *eng.Term, isNil bool) {
	if cond.Op == eng.OpUn && cond.Aux == "!" {
		return nilTested(cond.Args[0], !val)
	}
	if cond.Op == eng.OpBin && (cond.Aux == "==" || cond.Aux == "!=") && cond.Args[1].IsNil() {
		return cond.Args[0], val == (cond.Aux == "==")
	}
	return nil, false
}

func splitTok(x string) []string { return strings.Split(x, ":") }
