package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"trypocheck/eng"
)

// exclusion decides that shared data is only used under its lock.
type exclusion struct {
	c       *C
	boxes   map[string]bool // "struct.field" of guarded data (a struct with a lock that holds a manager)
	shared  map[string]bool // structs that several requests may use at a time
	atomics map[string]bool // "struct.field" used through sync/atomic
	acc     map[string][]access
	out     []handed
	seen    map[string]bool
	terms   map[string]*eng.Term // terms that marks name
	taints  map[*eng.Terms]map[*eng.Term]string
	data    int
	names   map[string]string // of locations, for messages
}

// key names a location.
func (p *exclusion) key(l *eng.Path) string {
	k := strconv.Itoa(l.Root.ID)
	if l.Root.Op == eng.OpGlobal {
		k = "global " + l.Root.Aux
	}
	for _, s := range l.Steps {
		if s.Idx != nil {
			k += "[" + strconv.Itoa(s.Idx.ID) + "]"
		} else {
			k += "." + s.Name
		}
	}
	p.names[k] = l.String()
	return k
}

func (p *exclusion) name(k string) string {
	if n := p.names[k]; n != "" {
		return n
	}
	return k
}

// access is a use of a field (or of what it holds) of a shared struct.
type access struct {
	write bool
	locks map[string]bool // locks held, relative to the struct; true if exclusively
	inst  string
	where string
	path  string
}

// handed is the content of a field leaving a function.
type handed struct {
	loc, inst, where string
}

func checkP03(c *C) {
	p := &exclusion{c: c, boxes: map[string]bool{}, shared: map[string]bool{}, atomics: map[string]bool{}, acc: map[string][]access{}, seen: map[string]bool{}, terms: map[string]*eng.Term{}, names: map[string]string{}, taints: map[*eng.Terms]map[*eng.Term]string{}}
	p.types()
	var ens []entry
	for _, en := range c.entries("L3") {
		if n := en.Fn.Name(); n != "init" && !strings.HasPrefix(n, "init#") {
			ens = append(ens, en)
		}
	}
	p.findAtomics(ens)
	for _, en := range ens {
		p.walk(en)
	}
	p.guards()
	p.atomicUse(ens)
	p.threads(ens)
	p.ownLists()
	c.Min("data", 15)
	c.Min("guard", 1)
	c.Min("own-list", 5)
	c.Min("thread", 3)
	if len(p.boxes) == 0 {
		c.Bad("data", "-", "-", "no struct was found that keeps a manager together with a lock")
	}
}

func (p *exclusion) bad(rule, inst, where, format string, a ...interface{}) {
	key := rule + where + fmt.Sprintf(format, a...)
	if !p.seen[key] {
		p.seen[key] = true
		p.c.Bad(rule, inst, where, format, a...)
	}
}

func (p *exclusion) ok(rule, inst, where string, v *eng.Val) {
	key := fmt.Sprint(rule, where, v.Pos)
	if !p.seen[key] {
		p.seen[key] = true
		p.c.OK(rule, inst, where)
	}
}

func isMutex(tp types.Type) bool {
	n := eng.TypeName(tp)
	return n == "sync.Mutex" || n == "sync.RWMutex"
}

// types finds the structs that are used concurrently.
func (p *exclusion) types() {
	all := map[string]*types.Struct{}
	for path, s := range p.c.P.ByPkg {
		if !eng.InModulePath(path) {
			continue
		}
		for _, m := range s.Members {
			tp, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			st, ok := tp.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			n := eng.TypeName(tp.Type())
			all[n] = st
			lock := false
			for i := 0; i < st.NumFields(); i++ {
				lock = lock || isMutex(st.Field(i).Type())
			}
			for i := 0; i < st.NumFields() && lock; i++ {
				p.shared[n] = true
				if eng.TypeName(st.Field(i).Type()) == pCM+".CentroidManager" {
					p.boxes[n+"."+st.Field(i).Name()] = true
				}
			}
		}
	}
	// receivers of remote calls and of web requests
	for _, f := range p.c.P.Funcs {
		if eng.IsTestSupport(f) {
			continue
		}
		if f.Signature.Recv() != nil && f.Parent() == nil {
			ps := f.Signature.Params()
			if ps.Len() == 2 && strings.HasSuffix(ps.At(0).Type().String(), "net/http.ResponseWriter") {
				p.shared[eng.TypeName(f.Signature.Recv().Type())] = true
			}
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				x := ci.Common().StaticCallee()
				if x == nil || eng.FuncPkgPath(x) != "net/rpc" {
					continue
				}
				for _, a := range ci.Common().Args {
					if m, ok := a.(*ssa.MakeInterface); ok {
						p.shared[eng.TypeName(m.X.Type())] = true
					}
				}
			}
		}
	}
	// what they hold
	for again := true; again; {
		again = false
		for n := range p.shared {
			st := all[n]
			if st == nil {
				delete(p.shared, n)
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				for _, m := range structsIn(st.Field(i).Type(), 0) {
					if all[m] != nil && !p.shared[m] && !storageType(m) {
						p.shared[m] = true
						again = true
					}
				}
			}
		}
	}
}

func storageType(n string) bool {
	return strings.HasPrefix(n, pCM+".") || strings.HasPrefix(n, pCent+".") || strings.HasPrefix(n, pCommon+".")
}

// structsIn lists the named structs that values of a type lead to directly.
func structsIn(tp types.Type, d int) []string {
	if d > 4 {
		return nil
	}
	if n := eng.TypeName(tp); n != "" {
		x := types.Unalias(tp)
		if q, ok := x.(*types.Pointer); ok {
			x = q.Elem()
		}
		if _, ok := x.Underlying().(*types.Struct); ok {
			return []string{n}
		}
	}
	switch u := tp.Underlying().(type) {
	case *types.Slice:
		return structsIn(u.Elem(), d+1)
	case *types.Map:
		return structsIn(u.Elem(), d+1)
	case *types.Pointer:
		return structsIn(u.Elem(), d+1)
	case *types.Array:
		return structsIn(u.Elem(), d+1)
	}
	return nil
}

// refers: a value of the type gives access to data that can be changed through it.
// Vectors and payloads are never written to after they were made (P11).
func refers(tp types.Type, d int) bool {
	if tp == nil || d > 6 {
		return true
	}
	switch eng.TypeName(tp) {
	case "time.Time", "error":
		return false
	}
	switch u := tp.Underlying().(type) {
	case *types.Basic, *types.Signature, *types.Chan:
		return false
	case *types.Slice:
		_, basic := u.Elem().Underlying().(*types.Basic)
		return !basic
	case *types.Array:
		return refers(u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refers(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refers(u.At(i).Type(), d+1) {
				return true
			}
		}
		return false
	}
	return true
}

// holdsCentroids: a value of the type leads to centroids or managers.
func holdsCentroids(tp types.Type, d int) bool {
	if tp == nil || d > 6 {
		return false
	}
	switch eng.TypeName(tp) {
	case pCent + ".Centroid", pCM + ".CentroidManager":
		return true
	}
	switch u := tp.Underlying().(type) {
	case *types.Slice:
		return holdsCentroids(u.Elem(), d+1)
	case *types.Map:
		return holdsCentroids(u.Elem(), d+1)
	case *types.Pointer:
		return holdsCentroids(u.Elem(), d+1)
	case *types.Array:
		return holdsCentroids(u.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if holdsCentroids(u.At(i).Type(), d+1) {
				return true
			}
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsCentroids(u.Field(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

func (p *exclusion) isBox(s eng.Step) bool { return s.Idx == nil && p.boxes[s.Struct+"."+s.Name] }

// look is what is known at a point: what was put where others find it.
type look struct {
	t     *eng.Terms
	taint map[*eng.Term]string
	marks map[string]string // id of a term: prefix of its owner
	truth func(*eng.Term) (bool, bool)
	entry *eng.Graph
}

func termID(x *eng.Term) string { return strconv.Itoa(x.ID) }

// owned: a struct that nobody else knows yet.
func (p *exclusion) owned(w *look, root *eng.Term) bool {
	if w.marks[termID(root)] != "" {
		return false
	}
	switch root.Op {
	case eng.OpAlloc:
		return true
	case eng.OpParam:
		// given to this function, which puts it somewhere
		g := w.entry
		return root.V != nil && len(g.Params) > 0 && g.Parent == nil && !(g.Fn.Signature.Recv() != nil && g.Params[0] == root.V)
	}
	return false
}

// owner gives the struct with the lock for a location in guarded data ("" if it is
// not in guarded data).
func (p *exclusion) owner(w *look, l *eng.Path, seen map[*eng.Term]bool) string {
	for k, s := range l.Steps {
		if p.isBox(s) {
			if k == 0 && p.owned(w, l.Root) {
				return ""
			}
			return p.key(&eng.Path{Root: l.Root, Steps: l.Steps[:k]})
		}
	}
	switch l.Root.Op {
	case eng.OpAlloc, eng.OpMakeSlice, eng.OpMakeMap:
		// a variable that may hold guarded data is not guarded data itself
		return w.marks[termID(l.Root)]
	}
	return p.liveIn(w, l.Root, seen)
}

// live gives the owner of the guarded data that a value refers to.
func (p *exclusion) live(w *look, x *eng.Term) string { return p.liveIn(w, x, map[*eng.Term]bool{}) }

func (p *exclusion) liveIn(w *look, x *eng.Term, seen map[*eng.Term]bool) string {
	if x == nil || seen[x] {
		return ""
	}
	seen[x] = true
	if m := w.marks[termID(x)]; m != "" {
		return m
	}
	any := func(xs ...*eng.Term) string {
		for _, y := range xs {
			if r := p.liveIn(w, y, seen); r != "" {
				return r
			}
		}
		return ""
	}
	if x.Op == eng.OpClosure && x.V != nil {
		var xs []*eng.Term
		for _, a := range x.V.Args {
			xs = append(xs, w.t.Of(a))
		}
		return any(xs...)
	}
	if !refers(x.Typ, 0) {
		return ""
	}
	switch x.Op {
	case eng.OpLoad:
		return p.owner(w, x.Path, seen)
	case eng.OpMemPhi, eng.OpPhi:
		if x.Path != nil {
			if r := p.owner(w, x.Path, seen); r != "" {
				return r
			}
		}
		as, preds := w.t.PhiArgs(x)
		b := x.JoinBlk()
		if b == nil || b.IsLoopHeader() || len(as) != len(preds) || len(as) > 3 || len(seen) > 40 || !holdsCentroids(x.Typ, 0) {
			return any(as...)
		}
		for i, a := range as {
			// what is known where the value comes from
			known := w.t.EdgeFacts(preds[i], b)
			w2 := *w
			w2.truth = func(c *eng.Term) (bool, bool) {
				if v, ok := known.Truth(c); ok {
					return v, true
				}
				return w.truth(c)
			}
			s2 := map[*eng.Term]bool{}
			for k := range seen {
				s2[k] = true
			}
			if r := p.liveIn(&w2, a, s2); r != "" {
				return r
			}
		}
		return ""
	case eng.OpAlloc, eng.OpMakeSlice, eng.OpMakeMap:
		return w.taint[x]
	case eng.OpCall:
		if x.V == nil || !holdsCentroids(x.Typ, 0) && !x.V.Dyn {
			return ""
		}
		n := Callee(x.V)
		if strings.HasPrefix(n, "kmeansClient.") {
			return ""
		}
		if strings.HasSuffix(n, ".NearestCentroids") {
			for _, a := range x.V.Args {
				if isBoolT(w.t.Of(a)) {
					if b, known := w.truth(w.t.Of(a)); known && b {
						return "" // taken out
					}
				}
			}
		}
		for _, a := range x.V.Args {
			if r := p.liveIn(w, w.t.Of(a), seen); r != "" {
				return r
			}
		}
		return ""
	case eng.OpAppend:
		as := appArgs(w.t, x)
		if r := any(as[0]); r != "" {
			return r
		}
		if s, ok := x.Typ.Underlying().(*types.Slice); ok && !refers(s.Elem(), 0) {
			return ""
		}
		return any(as[1:]...)
	case eng.OpBin, eng.OpUn, eng.OpLen, eng.OpCap, eng.OpConst, eng.OpZero, eng.OpParam, eng.OpGlobal, eng.OpFunc, eng.OpFreeVar, eng.OpRecv:
		return ""
	}
	if x.V != nil && (x.Op == eng.OpRange || x.Op == eng.OpNext) {
		var xs []*eng.Term
		for _, a := range x.V.Args {
			xs = append(xs, w.t.Of(a))
		}
		return any(xs...)
	}
	return any(x.Args...)
}

// taint finds the variables of a graph that may hold references to guarded data.
func (p *exclusion) taint(g *eng.Graph) map[*eng.Term]string {
	root := g
	for root.Parent != nil {
		root = root.Parent
	}
	t := g.Terms()
	if m, ok := p.taints[t]; ok {
		return m
	}
	w := &look{t: t, taint: map[*eng.Term]string{}, entry: root}
	set := func(x *eng.Term, owner string) bool {
		done := false
		for _, l := range append(t.Leaves(x, nil), x) {
			switch l.Op {
			case eng.OpAlloc, eng.OpMakeSlice, eng.OpMakeMap:
				if w.taint[l] == "" {
					w.taint[l] = owner
					done = true
				}
			}
		}
		return done
	}
	for again := true; again; {
		again = false
		for _, sg := range root.Graphs() {
			sg.EachOwn(func(v *eng.Val) {
				var val, into *eng.Term
				switch v.Op {
				case eng.OpStore:
					into, val = t.PathOf(v.Args[0]).Root, t.Of(v.Args[1])
				case eng.OpMapUpdate:
					into, val = t.Of(v.Args[0]), t.Of(v.Args[2])
				case eng.OpCopy:
					into, val = t.Of(v.Args[0]), t.Of(v.Args[1])
					if s, ok := into.Typ.Underlying().(*types.Slice); !ok || !refers(s.Elem(), 0) {
						return
					}
					for into.Op == eng.OpSlice {
						into = into.Args[0]
					}
				default:
					return
				}
				w.truth = t.BlockFacts(v.Blk).Truth
				if r := p.live(w, val); r != "" && set(into, r) {
					again = true
				}
			})
		}
	}
	p.taints[t] = w.taint
	return w.taint
}

// holds: the lock of a struct is held.
func holdsLock(a string, owner string, write bool) bool {
	for _, x := range parseHeld(a) {
		if strings.HasPrefix(x[2:], owner+".") && (x[0] == 'W' || x[0] == 'R' && !write) {
			return true
		}
	}
	return false
}

// walk follows all paths of an entry point with the locks that are held and what
// has been handed over to the shared state.
func (p *exclusion) walk(en entry) {
	g := en.G
	t := g.Terms()
	taint := p.taint(g)
	uses := false
	g.EachOwn(func(v *eng.Val) {
		switch v.Op {
		case eng.OpLoad, eng.OpStore, eng.OpMapUpdate, eng.OpLookup, eng.OpCall, eng.OpSend:
			uses = true
		}
	})
	if !uses {
		return
	}
	view := func(e *St) *look {
		w := &look{t: t, taint: taint, marks: map[string]string{}, truth: e.Truth, entry: g}
		for _, x := range parseHeld(e.A) {
			if x[0] == 'P' {
				i := strings.LastIndexByte(x, '\x01')
				w.marks[x[i+1:]] = x[2:i]
			}
		}
		return w
	}
	if !hasLocks(g) {
		// nothing changes along the paths, unless something becomes known
		marks := false
		g.EachOwn(func(v *eng.Val) {
			a := &spot{Path: func() string { return "any" }}
			w := &look{t: t, taint: taint, marks: map[string]string{}, truth: t.BlockFacts(v.Blk).Truth, entry: g}
			p.use(en, a, v, w)
			if v.Op == eng.OpReturn {
				p.exit(en, a, v, w)
			}
			marks = marks || a.A != ""
		})
		if !marks {
			g.EachOwn(func(v *eng.Val) {
				a := &spot{Path: func() string { return "any" }}
				p.field(en, a, v, &look{t: t, taint: taint, marks: map[string]string{}, truth: t.BlockFacts(v.Blk).Truth, entry: g})
			})
			return
		}
	}
	s := &Sim{G: g, T: t}
	s.Event = func(e *St, v *eng.Val) {
		// what is made anew is not what was handed over
		if strings.Contains(e.A, "P ") {
			h := parseHeld(e.A)
			var keep held
			for _, x := range h {
				if x[0] == 'P' {
					m := p.terms[x[strings.LastIndexByte(x, '\x01')+1:]]
					if m.V == v || len(m.Args) > 0 && m.Args[0].V == v {
						continue
					}
				}
				keep = append(keep, x)
			}
			e.A = keep.String()
		}
		a := &spot{A: e.A, Path: e.Path}
		w := view(e)
		p.use(en, a, v, w)
		p.field(en, a, v, w)
		e.A = a.A
		switch {
		case v.IsLock():
			m := "W "
			if isRLock(v) {
				m = "R "
			}
			e.A = parseHeld(e.A).add(m + p.key(t.PathOf(v.Args[0]))).String()
		case v.IsUnlock():
			n, _ := parseHeld(e.A).del(p.key(t.PathOf(v.Args[0])))
			e.A = n.String()
		}
	}
	s.Exit = func(e *St, ret *eng.Val) { p.exit(en, &spot{A: e.A, Path: e.Path}, ret, view(e)) }
	s.Run()
	p.c.States += s.States
	if s.Overflow {
		p.c.Bad("data", en.Name, "-", "too many paths")
	}
}

// spot is a point on a path: what is held and known there.
type spot struct {
	A    string
	Path func() string
}

func (p *exclusion) exit(en entry, e *spot, ret *eng.Val, w *look) {
	for _, a := range ret.Args {
		if r := p.live(w, w.t.Of(a)); r != "" {
			p.bad("reply", en.Name, ret.Where(), "returns something that refers to the data of %s (path %s)", p.name(r), e.Path())
		}
		p.leaves(en, w.t, w.t.Of(a), ret)
	}
}

func (p *exclusion) mark(e *spot, owner string, x *eng.Term) {
	p.terms[termID(x)] = x
	k := "P " + owner + "\x01" + termID(x)
	for _, y := range parseHeld(e.A) {
		if y == k {
			return
		}
	}
	e.A = parseHeld(e.A).add(k).String()
}

// publish marks what a value consists of as part of the data of an owner.
func (p *exclusion) publish(e *spot, w *look, owner string, x *eng.Term, seen map[*eng.Term]bool) {
	if x == nil || seen[x] || !refers(x.Typ, 0) {
		return
	}
	seen[x] = true
	switch x.Op {
	case eng.OpCall, eng.OpAlloc, eng.OpMakeSlice, eng.OpMakeMap, eng.OpRecv:
		if p.live(w, x) == "" {
			p.mark(e, owner, x)
		}
	case eng.OpExtract:
		if p.live(w, x) == "" {
			p.mark(e, owner, x)
		}
	case eng.OpSlice, eng.OpConv, eng.OpIface, eng.OpAssert:
		p.publish(e, w, owner, x.Args[0], seen)
	case eng.OpAppend:
		for _, a := range appArgs(w.t, x) {
			p.publish(e, w, owner, a, seen)
		}
	case eng.OpPhi, eng.OpMemPhi:
		as, _ := w.t.PhiArgs(x)
		for _, a := range as {
			p.publish(e, w, owner, a, seen)
		}
	}
}

// use decides one instruction with regard to guarded data.
func (p *exclusion) use(en entry, e *spot, v *eng.Val, w *look) {
	t := w.t
	touch := func(owner string, write bool, what string) {
		if owner == "" {
			return
		}
		if !holdsLock(e.A, owner, write) {
			p.bad("data", en.Name, v.Where(), "%s without the lock of %s being held (path %s)", what, p.name(owner), e.Path())
			return
		}
		p.data++
		p.ok("data", en.Name, v.Where(), v)
	}
	gone := func(owner, how string) {
		if owner != "" {
			p.bad("reply", en.Name, v.Where(), "something that refers to the data of %s is %s (path %s)", p.name(owner), how, e.Path())
		}
	}
	switch v.Op {
	case eng.OpLoad:
		touch(p.owner(w, t.PathOf(v.Args[0]), map[*eng.Term]bool{}), false, "data is read")
	case eng.OpStore:
		l := t.PathOf(v.Args[0])
		into := p.owner(w, l, map[*eng.Term]bool{})
		touch(into, true, "data is changed")
		val := t.Of(v.Args[1])
		from := p.live(w, val)
		if into != "" {
			if from != "" && from != into {
				gone(from, "stored with the data of "+p.name(into))
			}
			p.publish(e, w, into, val, map[*eng.Term]bool{})
			return
		}
		switch l.Root.Op {
		case eng.OpAlloc, eng.OpMakeSlice:
			return
		}
		gone(from, "stored where it can be reached without the lock")
		p.leaves(en, t, val, v)
	case eng.OpMapUpdate:
		m, val := t.Of(v.Args[0]), t.Of(v.Args[2])
		into := p.live(w, m)
		if m.Op != eng.OpMakeMap {
			touch(into, true, "data is changed")
		}
		if into == "" && m.Op != eng.OpMakeMap {
			gone(p.live(w, val), "put into a map that others can use")
		}
		// a manager becomes known
		if n := eng.TypeName(val.Typ); n != "" && m.Op != eng.OpMakeMap {
			for b := range p.boxes {
				i := strings.LastIndexByte(b, '.')
				if b[:i] != n {
					continue
				}
				nt := p.c.P.Named(n[:strings.LastIndexByte(n, '.')], n[strings.LastIndexByte(n, '.')+1:])
				if nt == nil {
					continue
				}
				l := t.FieldLoc(t.PtrLoc(val), nt, b[i+1:])
				if l == nil {
					continue
				}
				owner := p.key(t.PtrLoc(val))
				cm := t.LoadAt(l, fieldType(nt, b[i+1:]), v)
				for _, x := range append(t.Leaves(cm, nil), val) {
					if !x.IsNil() {
						p.mark(e, owner, x)
					}
				}
			}
		}
	case eng.OpLookup, eng.OpRange, eng.OpNext, eng.OpDelete:
		if _, ok := v.Args[0].Typ.Underlying().(*types.Map); ok || v.Op == eng.OpNext {
			touch(p.liveMem(w, t.Of(v.Args[0])), v.Op == eng.OpDelete, "data is used")
		}
	case eng.OpAppend:
		touch(p.liveMem(w, t.Of(v.Args[0])), true, "a list of the data is appended to")
		for _, a := range v.Args[1:] {
			touch(p.liveMem(w, t.Of(a)), false, "a list of the data is read")
		}
	case eng.OpCopy:
		touch(p.liveMem(w, t.Of(v.Args[0])), true, "a list of the data is written to")
		touch(p.liveMem(w, t.Of(v.Args[1])), false, "a list of the data is read")
	case eng.OpCall:
		if v.IsLock() || v.IsUnlock() {
			return
		}
		owner := ""
		for _, a := range v.Args {
			if a == nil {
				continue
			}
			if r := p.live(w, t.Of(a)); r != "" {
				owner = r
			}
		}
		if owner == "" {
			return
		}
		touch(owner, p.mayWrite(v), "data is used by "+Callee(v))
		for _, a := range v.Args {
			x := t.Of(a)
			if holdsCentroids(x.Typ, 0) && x.Op != eng.OpClosure {
				p.publish(e, w, owner, x, map[*eng.Term]bool{})
			}
		}
	case eng.OpGo:
		if v.Sub == nil {
			for _, a := range v.Args {
				if a != nil {
					gone(p.live(w, t.Of(a)), "handed to a goroutine")
				}
			}
		}
	case eng.OpSend:
		gone(p.live(w, t.Of(v.Args[1])), "sent on a channel")
		p.leaves(en, t, t.Of(v.Args[1]), v)
	}
}

// appArgs: the list and what is appended to it.
func appArgs(t *eng.Terms, x *eng.Term) []*eng.Term {
	var r []*eng.Term
	for _, a := range x.V.Args {
		r = append(r, t.Of(a))
	}
	return r
}

// liveMem: the memory behind a slice or map is guarded data (as opposed to a local
// list of references).
func (p *exclusion) liveMem(w *look, x *eng.Term) string {
	return p.liveMemIn(w, x, map[*eng.Term]bool{})
}

func (p *exclusion) liveMemIn(w *look, x *eng.Term, seen map[*eng.Term]bool) string {
	if seen[x] {
		return ""
	}
	seen[x] = true
	for x.Op == eng.OpSlice {
		x = x.Args[0]
	}
	switch x.Op {
	case eng.OpAlloc, eng.OpMakeSlice, eng.OpMakeMap:
		return w.marks[termID(x)]
	case eng.OpAppend:
		if m := w.marks[termID(x)]; m != "" {
			return m
		}
		return p.liveMemIn(w, appArgs(w.t, x)[0], seen)
	case eng.OpPhi, eng.OpMemPhi:
		if x.Path == nil || x.Path.Root.Op == eng.OpAlloc {
			as, _ := w.t.PhiArgs(x)
			for _, a := range as {
				if q := p.liveMemIn(w, a, seen); q != "" {
					return q
				}
			}
			return ""
		}
	case eng.OpLoad:
		if x.Path.Root.Op == eng.OpAlloc && len(x.Path.Steps) == 0 {
			return ""
		}
	case eng.OpCall, eng.OpExtract:
		// a list that was made for the caller
		if _, ok := x.Typ.Underlying().(*types.Slice); ok {
			return w.marks[termID(x)]
		}
	}
	return p.live(w, x)
}

// mayWrite: an opaque call may change what it is given.
func (p *exclusion) mayWrite(v *eng.Val) bool {
	if v.Fn == nil || !eng.InModulePath(eng.FuncPkgPath(v.Fn)) {
		return true
	}
	m := p.c.P.ModOf(v.Fn)
	return m.All || len(m.Classes) > 0
}

// place finds the field of a shared struct that a location belongs to.
func (p *exclusion) place(w *look, l *eng.Path) (loc string, base *eng.Path) {
	for k := len(l.Steps) - 1; k >= 0; k-- {
		s := l.Steps[k]
		if s.Idx == nil && p.shared[s.Struct] && !isMutex(s.Typ) {
			return s.Struct + "." + s.Name, &eng.Path{Root: l.Root, Steps: l.Steps[:k]}
		}
	}
	if r := l.Root; r.Op == eng.OpGlobal && r.V != nil && r.V.Global != nil && r.V.Global.Pkg != nil && eng.InModulePath(r.V.Global.Pkg.Pkg.Path()) {
		return "variable " + r.Aux, &eng.Path{Root: r}
	}
	return p.placeOf(w, l.Root)
}

// placeOf: the field that holds a map or list.
func (p *exclusion) placeOf(w *look, x *eng.Term) (loc string, base *eng.Path) {
	for x.Op == eng.OpSlice {
		x = x.Args[0]
	}
	if (x.Op == eng.OpLoad || x.Op == eng.OpMemPhi) && x.Path != nil {
		switch x.Typ.Underlying().(type) {
		case *types.Map, *types.Slice:
			return p.place(w, x.Path)
		}
	}
	if x.Op == eng.OpRange || x.Op == eng.OpNext {
		if x.V != nil && len(x.V.Args) > 0 {
			return p.placeOf(w, w.t.Of(x.V.Args[0]))
		}
	}
	return "", nil
}

// field records a use of a field of a shared struct.
func (p *exclusion) field(en entry, e *spot, v *eng.Val, w *look) {
	t := w.t
	var loc string
	var base *eng.Path
	write := false
	switch v.Op {
	case eng.OpLoad:
		loc, base = p.place(w, t.PathOf(v.Args[0]))
	case eng.OpStore:
		loc, base = p.place(w, t.PathOf(v.Args[0]))
		write = true
	case eng.OpMapUpdate, eng.OpDelete:
		loc, base = p.placeOf(w, t.Of(v.Args[0]))
		write = true
	case eng.OpLookup, eng.OpRange, eng.OpNext:
		loc, base = p.placeOf(w, t.Of(v.Args[0]))
	case eng.OpLen:
		if _, ok := v.Args[0].Typ.Underlying().(*types.Map); ok {
			loc, base = p.placeOf(w, t.Of(v.Args[0]))
		}
	case eng.OpCall:
		if v.Note == "clear" && len(v.Args) > 0 {
			loc, base = p.placeOf(w, t.Of(v.Args[0]))
			write = true
		}
	default:
		return
	}
	if base == nil || p.atomics[loc] {
		return
	}
	if p.owned(w, base.Root) {
		return
	}
	a := access{write: write, inst: en.Name, where: v.Where(), path: e.Path(), locks: map[string]bool{}}
	for _, x := range parseHeld(e.A) {
		if x[0] == 'P' {
			continue
		}
		add := func(k string) { a.locks[k] = a.locks[k] || x[0] == 'W' }
		if b := p.key(base) + "."; strings.HasPrefix(x[2:], b) {
			add("." + x[2+len(b):])
		}
		// the struct that leads to this one
		if r := base.Root; r.Op == eng.OpLoad && len(r.Path.Steps) > 0 {
			b := p.key(&eng.Path{Root: r.Path.Root, Steps: r.Path.Steps[:len(r.Path.Steps)-1]}) + "."
			if strings.HasPrefix(x[2:], b) {
				add("^." + x[2+len(b):])
			}
		}
		if strings.HasPrefix(x[2:], "global ") {
			add(x[2:])
		}
	}
	p.acc[loc] = append(p.acc[loc], a)
}

// leaves records that the map or list of a field goes to others.
func (p *exclusion) leaves(en entry, t *eng.Terms, x *eng.Term, v *eng.Val) {
	if x == nil || x.Typ == nil || !refers(x.Typ, 0) {
		return
	}
	for _, l := range append(t.Leaves(x, nil), x) {
		l = unwrapIface(l)
		if loc, _ := p.placeOf(&look{t: t, entry: en.G}, l); loc != "" && refers(l.Typ, 0) {
			p.out = append(p.out, handed{loc, en.Name, v.Where()})
		}
	}
}

// guards: fields that change are only used under a lock that all uses have in common.
func (p *exclusion) guards() {
	var locs []string
	for k := range p.acc {
		locs = append(locs, k)
	}
	sort.Strings(locs)
	for _, loc := range locs {
		as := p.acc[loc]
		writes := 0
		votes := map[string]int{}
		for _, a := range as {
			if a.write {
				writes++
			}
			for l, excl := range a.locks {
				if excl || !a.write {
					votes[l]++
				}
			}
		}
		if writes == 0 {
			continue // only set when it is made
		}
		best := ""
		var names []string
		for l := range votes {
			names = append(names, l)
		}
		sort.Strings(names)
		for _, l := range names {
			if best == "" || votes[l] > votes[best] {
				best = l
			}
		}
		short := loc[strings.LastIndexByte(loc, '/')+1:]
		if best == "" {
			for _, a := range as {
				if a.write {
					p.bad("guard", a.inst, a.where, "%s, which others may use at the same time, is changed without a lock (path %s)", short, a.path)
				}
			}
			continue
		}
		good := true
		for _, a := range as {
			if excl, held := a.locks[best]; !held || a.write && !excl {
				good = false
				how := "read"
				if a.write {
					how = "changed"
				}
				p.bad("guard", a.inst, a.where, "%s is %s without the lock (%s) that protects it elsewhere (path %s)", short, how, best, a.path)
			}
		}
		for _, h := range p.out {
			if h.loc == loc {
				good = false
				p.bad("guard", h.inst, h.where, "%s is handed out, to be used without the lock (%s) that protects it", short, best)
			}
		}
		if good {
			p.c.OK("guard", fmt.Sprintf("%s by %s (%d uses)", short, best, len(as)), "-")
		}
	}
}

func init() {
	register("P03", checkP03, Desc{
		How: "The data under a lock is found by type: a struct that has a lock and keeps a manager of data points. Starting from where such a field is read, everything that can be reached from it (through fields, elements, calls and copies of lists) is followed over the flattened graph of every entry point, and on all paths each use must happen with that very lock held; what leaves (RPC replies, results, sends, goroutines, closures) may not lead to it. For fields of shared structs and module variables the locks of all uses are intersected. For variables that goroutines and handed-out closures share with their creators, objects are told apart by unification; two uses of which one is a change have to be ordered (go statement, WaitGroup, channel), use one lock, be atomic, or use another index or allocation in every run.",
		Rules: map[string]string{
			"data":     "data of a namespace is used under the lock of its slot only, also what was just put there",
			"reply":    "nothing that leaves the critical section refers to such data",
			"guard":    "a field of a shared struct (or module variable) that changes after construction has one lock that all uses hold; its map or list is not handed out",
			"atomic":   "what is used through sync/atomic somewhere is used so everywhere",
			"thread":   "goroutines, handed-out closures and their creators do not use a variable at the same time, unless read-only",
			"own-list": "lists returned by storage are made for the caller and not kept",
		},
		Assumes: []string{
			"vectors and payloads are not written after they were made (P11)",
			"functions outside of the module do not keep or change what they are given, except through pointers to variables",
			"a struct is private to its creator until it is put in a table or returned",
		},
	})
}
