package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"trypocheck/eng"
)

// findAtomics finds the fields that are used through sync/atomic.
func (p *exclusion) findAtomics(ens []entry) {
	for _, en := range ens {
		t := en.G.Terms()
		en.G.EachOwn(func(v *eng.Val) {
			if v.Op == eng.OpCall && isAtomic(v) && len(v.Args) > 0 {
				if s, f := t.PathOf(v.Args[0]).LastField(); f != "" {
					p.atomics[s+"."+f] = true
				}
			}
		})
	}
}

func isAtomic(v *eng.Val) bool {
	n := Callee(v)
	return strings.HasPrefix(n, "sync/atomic.")
}

func isAtomicWrite(v *eng.Val) bool {
	return isAtomic(v) && !strings.HasPrefix(Callee(v), "sync/atomic.Load")
}

// atomicUse: what is used atomically somewhere is used atomically everywhere.
func (p *exclusion) atomicUse(ens []entry) {
	uses := map[string]int{}
	for _, en := range ens {
		t := en.G.Terms()
		root := en.G
		for root.Parent != nil {
			root = root.Parent
		}
		var gos []*eng.Val
		root.EachOwn(func(v *eng.Val) {
			if v.Op == eng.OpGo {
				gos = append(gos, v)
			}
		})
		en.G.EachOwn(func(v *eng.Val) {
			if v.Op == eng.OpCall && isAtomic(v) && len(v.Args) > 0 {
				if s, f := t.PathOf(v.Args[0]).LastField(); f != "" {
					uses[s+"."+f]++
				}
				return
			}
			if v.Op != eng.OpLoad && v.Op != eng.OpStore {
				return
			}
			l := t.PathOf(v.Args[0])
			if l.Root.Op == eng.OpAlloc {
				return
			}
			s, f := l.LastField()
			hit := ""
			if p.atomics[s+"."+f] {
				hit = s + "." + f
			} else if v.Op == eng.OpStore {
				hit = p.holdsAtomic(v.Args[1].Typ, 0)
			}
			if hit == "" {
				return
			}
			if en.G == root && len(gos) > 0 {
				after := false
				for _, g := range gos {
					after = after || before(root, g, v)
				}
				if !after {
					return // set up before anybody else can use it
				}
			}
			p.bad("atomic", en.Name, v.Where(), "%s, which others use atomically, is used without", hit)
		})
	}
	for _, k := range sortedKeys(p.atomics) {
		p.c.OK("atomic", fmt.Sprintf("%s (%d uses)", k[strings.LastIndexByte(k, '/')+1:], uses[k]), "-")
	}
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (p *exclusion) holdsAtomic(tp types.Type, d int) string {
	st, ok := tp.Underlying().(*types.Struct)
	if !ok || d > 4 {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		k := eng.TypeName(tp) + "." + st.Field(i).Name()
		if p.atomics[k] {
			return k
		}
		if r := p.holdsAtomic(st.Field(i).Type(), d+1); r != "" {
			return r
		}
	}
	return ""
}

// Objects of a graph, its goroutines and the closures it hands out, by unification.
type obj struct {
	up   *obj
	kids map[string]*obj // parts of the location
	to   *obj            // what the value kept here leads to
	name string
}

func (o *obj) find() *obj {
	for o.up != nil {
		o = o.up
	}
	return o
}

func (o *obj) kid(k string) *obj {
	o = o.find()
	if o.kids == nil {
		o.kids = map[string]*obj{}
	}
	if o.kids[k] == nil {
		o.kids[k] = &obj{name: k}
	}
	return o.kids[k].find()
}

func (o *obj) target() *obj {
	o = o.find()
	if o.to == nil {
		o.to = &obj{}
	}
	return o.to.find()
}

func unify(a, b *obj) {
	a, b = a.find(), b.find()
	if a == b {
		return
	}
	b.up = a
	bk, bt := b.kids, b.to
	b.kids, b.to = nil, nil
	if bt != nil {
		if a.to == nil {
			a.to = bt
		} else {
			unify(a.to, bt)
		}
	}
	var ks []string
	for k := range bk {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		a = a.find()
		if a.kids == nil {
			a.kids = map[string]*obj{}
		}
		if x := a.kids[k]; x != nil {
			unify(x, bk[k])
		} else {
			a.kids[k] = bk[k]
		}
	}
}

// objects resolves terms to objects.
type objects struct {
	of   map[*eng.Term]*obj
	free map[*eng.Val]*obj // captured addresses of closures that are handed out
	ts   []*eng.Terms
}

// loc is the object for a location.
func (o *objects) loc(t *eng.Terms, l *eng.Path) *obj {
	r := o.val(t, l.Root)
	if r == nil {
		return nil
	}
	for _, s := range l.Steps {
		if s.Idx != nil {
			r = r.kid("[]")
		} else {
			r = r.kid(s.Name)
		}
	}
	return r.find()
}

// leads: values of the type lead to memory.
func leads(tp types.Type) bool {
	if tp == nil {
		return false
	}
	switch u := tp.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return true
	case *types.Tuple:
		return u.Len() > 0
	}
	return false
}

// val is the object a value leads to.
func (o *objects) val(t *eng.Terms, x *eng.Term) *obj {
	if x == nil || x.IsNil() {
		return nil
	}
	if r := o.of[x]; r != nil {
		return r.find()
	}
	if x.V != nil && x.Op == eng.OpFreeVar {
		if r := o.free[x.V]; r != nil {
			return r.find()
		}
	}
	switch x.Op {
	case eng.OpConst, eng.OpZero, eng.OpBin, eng.OpUn, eng.OpLen, eng.OpCap, eng.OpAdd, eng.OpFunc:
		return nil
	}
	n := &obj{name: string(x.Op)}
	o.of[x] = n
	join := func(y *eng.Term) {
		if r := o.val(t, y); r != nil {
			unify(n, r)
		}
	}
	switch x.Op {
	case eng.OpLoad, eng.OpMemPhi:
		if l := o.loc(t, x.Path); l != nil && leads(x.Typ) {
			unify(n, l.target())
		}
	case eng.OpPhi:
		as, _ := t.PhiArgs(x)
		for _, a := range as {
			join(a)
		}
	case eng.OpSlice, eng.OpConv, eng.OpIface, eng.OpAssert:
		join(x.Args[0])
	case eng.OpAppend:
		as := appArgs(t, x)
		join(as[0])
		for _, a := range as[1:] {
			if s, ok := x.Typ.Underlying().(*types.Slice); ok && leads(s.Elem()) {
				if r := o.val(t, a); r != nil {
					unify(n.kid("[]").target(), r.kid("[]").target())
				}
			}
		}
	case eng.OpExtract:
		switch b := x.Args[0]; b.Op {
		case eng.OpLookup:
			if r := o.val(t, b.Args[0]); r != nil && x.Aux == "0" && leads(x.Typ) {
				unify(n, r.kid("[]").target())
			}
		case eng.OpNext:
			if b.V != nil && x.Aux == "2" && leads(x.Typ) {
				if r := o.val(t, t.Of(b.V.Args[0])); r != nil {
					unify(n, r.kid("[]").target())
				}
			}
		}
	case eng.OpRange:
		if x.V != nil {
			join(t.Of(x.V.Args[0]))
		}
	case eng.OpLookup:
		if r := o.val(t, x.Args[0]); r != nil && leads(x.Typ) {
			unify(n, r.kid("[]").target())
		}
	case eng.OpIndex, eng.OpField:
		// part of a value
	case eng.OpFieldAddr, eng.OpIndexAddr:
		if x.At != nil {
			if l := o.loc(t, t.PathOf(x.At)); l != nil {
				unify(n, l)
			}
		}
	}
	return n.find()
}

// thread is something that runs concurrently with others.
type thread struct {
	g       *eng.Graph
	t       *eng.Terms
	name    string
	closure *eng.Val // for closures that are handed out: where they are made
	many    bool     // may run several times at once (web handlers)
}

// touchOf is an access of a thread to an object.
type touchOf struct {
	th     *thread
	v      *eng.Val
	o      *obj
	root   *eng.Val // of the location, if it is made somewhere
	idx    *eng.Term
	write  bool
	atomic bool
	locks  map[*obj]bool // held; true if exclusively
	local  map[*obj]bool // of them those that every run makes anew
	what   string
}

// threads: variables and objects that goroutines share with their creators are only
// used at different times, atomically, or under a common lock.
func (p *exclusion) threads(ens []entry) {
	closures := map[*ssa.Function]entry{}
	var order []entry
	for _, en := range ens {
		if en.G.Parent == nil {
			if en.Fn.Parent() != nil {
				closures[en.Fn] = en
			}
			order = append(order, en)
		}
	}
	for _, en := range order {
		en, root := en, en.G
		gos := 0
		out := false
		root.Each(func(v *eng.Val) {
			if v.Op == eng.OpGo {
				gos++
			}
			if v.Op == eng.OpClosure && p.handler(v) {
				out = true
			}
		})
		if gos == 0 && !out {
			continue
		}
		p.race(en, closures)
	}
}

// handler: a closure is registered for requests of others.
func (p *exclusion) handler(v *eng.Val) bool {
	s, ok := v.Typ.Underlying().(*types.Signature)
	return ok && s.Params().Len() == 2 && strings.HasSuffix(s.Params().At(0).Type().String(), "net/http.ResponseWriter")
}

func (p *exclusion) race(en entry, closures map[*ssa.Function]entry) {
	root := en.G
	o := &objects{of: map[*eng.Term]*obj{}, free: map[*eng.Val]*obj{}}
	var ths []*thread
	for i, g := range root.Graphs() {
		n := en.Name
		if i > 0 {
			n += " (goroutine at " + g.GoVal.Where() + ")"
		}
		ths = append(ths, &thread{g: g, t: root.Terms(), name: n})
	}
	// closures that are handed out, with what they capture
	work := append([]*thread{}, ths...)
	made := map[*ssa.Function]bool{}
	for len(work) > 0 {
		th := work[0]
		work = work[1:]
		th.g.EachOwn(func(v *eng.Val) {
			if v.Op != eng.OpClosure || made[v.Fn] {
				return
			}
			ce, ok := closures[v.Fn]
			if !ok {
				return
			}
			made[v.Fn] = true
			for i, a := range v.Args {
				if i < len(ce.G.Free) {
					if l := o.val(th.t, th.t.Of(a)); l != nil {
						o.free[ce.G.Free[i]] = l
					}
				}
			}
			for i, g := range ce.G.Graphs() {
				n := ce.Name
				if i > 0 {
					n += " (goroutine at " + g.GoVal.Where() + ")"
				}
				x := &thread{g: g, t: ce.G.Terms(), name: n, closure: v, many: p.handler(v)}
				ths = append(ths, x)
				work = append(work, x)
			}
		})
	}
	// links
	for k := 0; k < 2; k++ {
		for _, th := range ths {
			t := th.t
			th.g.EachOwn(func(v *eng.Val) {
				switch v.Op {
				case eng.OpStore:
					if !leads(v.Args[1].Typ) {
						return
					}
					if l, r := o.loc(t, t.PathOf(v.Args[0])), o.val(t, t.Of(v.Args[1])); l != nil && r != nil {
						unify(l.target(), r)
					}
				case eng.OpMapUpdate:
					if !leads(v.Args[2].Typ) {
						return
					}
					if l, r := o.val(t, t.Of(v.Args[0])), o.val(t, t.Of(v.Args[2])); l != nil && r != nil {
						unify(l.kid("[]").target(), r)
					}
				case eng.OpCall:
					// what a function makes may keep what it was given
					if v.Fn == nil || !eng.InModulePath(eng.FuncPkgPath(v.Fn)) {
						return
					}
					if _, ptr := v.Typ.Underlying().(*types.Pointer); !ptr {
						return
					}
					r := o.val(t, t.Of(v))
					for _, a := range v.Args {
						if _, ptr := a.Typ.Underlying().(*types.Pointer); ptr {
							if x := o.val(t, t.Of(a)); x != nil && r != nil {
								unify(r.kid("given").target(), x)
							}
						}
					}
				}
			})
		}
	}
	// accesses
	var all []touchOf
	for _, th := range ths {
		all = append(all, p.touches(o, th)...)
	}
	n := map[*thread]int{}
	for i := range all {
		n[all[i].th]++
		for j := i; j < len(all); j++ {
			a, b := all[i], all[j]
			if a.o.find() != b.o.find() || !a.write && !b.write || a.atomic && b.atomic {
				continue
			}
			if p.exclusive(a, b) || !p.concurrent(o, a, b) {
				continue
			}
			if !a.write {
				a, b = b, a
			}
			where := a.v.Where()
			other := ""
			if a.v != b.v {
				other = ", which is used at " + b.v.Where() + ","
			}
			p.bad("thread", en.Name, where, "%s%s is changed in %s at the same time as %s may use it, without a lock that both hold", a.what, other, a.th.name, b.th.name)
		}
	}
	for _, th := range ths {
		if th.g.Parent != nil || th.closure != nil {
			p.c.OK("thread", fmt.Sprintf("%s (%d shared uses)", th.name, n[th]), where(p.c, th.g.Fn))
		}
	}
}

// touches lists the accesses of a thread to what others may know.
func (p *exclusion) touches(o *objects, th *thread) []touchOf {
	t := th.t
	// locks held on all ways
	held := map[*eng.Val]map[string]bool{}
	paths := map[string]*eng.Path{}
	s := &Sim{G: th.g, T: t}
	s.Event = func(e *St, v *eng.Val) {
		h := map[string]bool{}
		for _, x := range parseHeld(e.A) {
			h[x] = true
		}
		if old, ok := held[v]; ok {
			for k := range old {
				if !h[k] {
					delete(old, k)
				}
			}
		} else {
			held[v] = h
		}
		switch {
		case v.IsLock():
			paths[p.key(t.PathOf(v.Args[0]))] = t.PathOf(v.Args[0])
			m := "W "
			if isRLock(v) {
				m = "R "
			}
			e.A = parseHeld(e.A).add(m + p.key(t.PathOf(v.Args[0]))).String()
		case v.IsUnlock():
			n, _ := parseHeld(e.A).del(p.key(t.PathOf(v.Args[0])))
			e.A = n.String()
		}
	}
	if hasLocks(th.g) {
		s.Run()
	} else {
		th.g.EachOwn(func(v *eng.Val) { held[v] = map[string]bool{} })
	}
	p.c.States += s.States
	if s.Overflow {
		p.c.Bad("thread", th.name, "-", "too many paths")
	}
	var r []touchOf
	add := func(v *eng.Val, ob *obj, root *eng.Term, write bool, idx *eng.Term, what string) {
		if ob == nil || held[v] == nil {
			return
		}
		x := touchOf{th: th, v: v, o: ob, write: write, idx: idx, locks: map[*obj]bool{}, local: map[*obj]bool{}, what: what}
		if root != nil && (root.Op == eng.OpAlloc || root.Op == eng.OpMakeSlice || root.Op == eng.OpMakeMap || root.Op == eng.OpCall) {
			x.root = root.V
		}
		for k := range held[v] {
			pa := paths[k[2:]]
			if pa == nil {
				continue
			}
			if l := o.loc(t, pa); l != nil {
				x.locks[l] = x.locks[l] || k[0] == 'W'
				if q := pa.Root.V; q != nil && q.Op == eng.OpAlloc && q.Graph() == th.g && th.g.Parent != nil {
					x.local[l] = true
				}
			}
		}
		r = append(r, x)
	}
	name := func(l *eng.Path) string {
		if _, f := l.LastField(); f != "" {
			return "the field " + f
		}
		if len(l.Steps) > 0 {
			return "an element"
		}
		if l.Root.V != nil && l.Root.V.Note != "" {
			return "the variable " + l.Root.V.Note
		}
		return "a variable"
	}
	th.g.EachOwn(func(v *eng.Val) {
		switch v.Op {
		case eng.OpLoad, eng.OpStore:
			l := t.PathOf(v.Args[0])
			var idx *eng.Term
			for _, s := range l.Steps {
				if s.Idx != nil {
					idx = s.Idx
				}
			}
			for _, q := range parts(o.loc(t, l), v.Typ, v) {
				add(v, q, l.Root, v.Op == eng.OpStore, idx, name(l))
			}
		case eng.OpMapUpdate, eng.OpDelete, eng.OpLookup, eng.OpRange, eng.OpNext:
			x := t.Of(v.Args[0])
			if v.Op == eng.OpNext && x.V != nil && len(x.V.Args) > 0 {
				x = t.Of(x.V.Args[0])
			}
			if _, ok := x.Typ.Underlying().(*types.Map); !ok {
				return
			}
			if ob := o.val(t, x); ob != nil {
				add(v, ob.kid("[]"), x, v.Op == eng.OpMapUpdate || v.Op == eng.OpDelete, nil, "a map")
			}
		case eng.OpLen:
			x := t.Of(v.Args[0])
			if _, ok := x.Typ.Underlying().(*types.Map); ok {
				if ob := o.val(t, x); ob != nil {
					add(v, ob.kid("[]"), x, false, nil, "a map")
				}
			}
		case eng.OpAppend, eng.OpCopy:
			// writes past the end of (or into) the list, reads the other one
			x := t.Of(v.Args[0])
			if ob := o.val(t, x); ob != nil && !x.IsNil() {
				add(v, ob.kid("[]"), x, true, nil, "a list")
			}
			for _, a := range v.Args[1:] {
				y := t.Of(a)
				if _, ok := y.Typ.Underlying().(*types.Slice); !ok {
					continue
				}
				if ob := o.val(t, y); ob != nil {
					add(v, ob.kid("[]"), y, false, nil, "a list")
				}
			}
		case eng.OpCall:
			if isAtomic(v) {
				l := t.PathOf(v.Args[0])
				k := len(r)
				add(v, o.loc(t, l), l.Root, isAtomicWrite(v), nil, name(l))
				if len(r) > k {
					r[k].atomic = true
				}
				return
			}
			if v.IsLock() || v.IsUnlock() {
				return
			}
			p.callTouches(o, th, v, add)
		case eng.OpGo:
			if v.Sub == nil {
				p.callTouches(o, th, v, add)
			}
		}
	})
	return r
}

// parts: the single locations that a whole value consists of.
func parts(l *obj, tp types.Type, v *eng.Val) []*obj {
	if l == nil {
		return nil
	}
	if v.Op == eng.OpStore {
		tp = v.Args[1].Typ
	}
	st, ok := tp.Underlying().(*types.Struct)
	if !ok {
		return []*obj{l}
	}
	var r []*obj
	for i := 0; i < st.NumFields(); i++ {
		x := *v
		x.Op, x.Args = eng.OpLoad, nil
		r = append(r, parts(l.kid(st.Field(i).Name()), st.Field(i).Type(), &x)...)
	}
	return r
}

// callTouches: what an opaque call does to objects it is given.
func (p *exclusion) callTouches(o *objects, th *thread, v *eng.Val, add func(*eng.Val, *obj, *eng.Term, bool, *eng.Term, string)) {
	t := th.t
	inModule := v.Fn != nil && eng.InModulePath(eng.FuncPkgPath(v.Fn))
	n := Callee(v)
	for i, a := range v.Args {
		if a == nil {
			continue
		}
		x := unwrapIface(t.Of(a))
		pt, ok := x.Typ.Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		ob := o.val(t, x)
		if ob == nil {
			continue
		}
		if l := t.PtrLoc(x); len(l.Steps) > 0 {
			if y := o.loc(t, l); y != nil {
				ob = y
			}
		}
		en := eng.TypeName(pt.Elem())
		if !inModule && (strings.HasPrefix(en, "sync") || strings.HasPrefix(en, "net/") || strings.HasPrefix(en, "log.") || strings.HasPrefix(en, "context.") || strings.HasPrefix(en, "os.")) {
			continue
		}
		if inModule && v.Fn.Signature.Recv() == nil && !strings.Contains(n, "KMeansClient") || !inModule {
			// a variable or struct that the callee may set
			write := !strings.HasPrefix(n, "(*github.com/crunchypi/go-narb/apsa/common.") // its methods only read
			if inModule {
				write = p.mayWrite(v)
			}
			for _, q := range parts(ob, pt.Elem(), &eng.Val{Op: eng.OpLoad}) {
				add(v, q, x, write, nil, "something passed to "+n)
			}
			continue
		}
		if inModule && v.Fn.Signature.Recv() != nil && i == 0 && p.mayWrite(v) {
			// an object that is not made for concurrent use
			if en == pRPC+".KMeansServer" || p.shared[en] {
				continue
			}
			add(v, ob.kid("state"), x, true, nil, "an object ("+en[strings.LastIndexByte(en, '/')+1:]+")")
			if ob.kids["given"] != nil {
				given := ob.kid("given").target()
				root := x
				if x.Op == eng.OpCall && x.V != nil {
					for _, a := range x.V.Args {
						if _, ptr := a.Typ.Underlying().(*types.Pointer); ptr && sameObj(o.val(t, t.Of(a)), given) {
							root = t.PathOf(a).Root
						}
					}
				}
				add(v, given, root, true, nil, "what was given to "+n)
			}
		}
	}
}

// exclusive: both accesses happen under one lock.
func (p *exclusion) exclusive(a, b touchOf) bool {
	for la, ea := range a.locks {
		for lb, eb := range b.locks {
			if la.find() == lb.find() && (ea || !a.write) && (eb || !b.write) && (ea || eb) {
				if a.th == b.th && a.local[la] {
					continue // every run has a lock of its own
				}
				return true
			}
		}
	}
	return false
}

// chain lists the goroutines that lead to a thread.
func chain(g *eng.Graph) []*eng.Graph {
	var r []*eng.Graph
	for x := g; x != nil; x = x.Parent {
		r = append(r, x)
	}
	return r
}

// again: the instruction is run once more before the variable is made anew.
func again(v *eng.Val, root *eng.Val) bool {
	g := v.Graph()
	if root != nil && root.Graph() == g {
		if root.Blk == v.Blk {
			return false
		}
		return g.ReachesAvoiding(v.Blk, v.Blk, root.Blk)
	}
	return g.Reaches(v.Blk, v.Blk)
}

// concurrent: the two accesses may happen at the same time.
func (p *exclusion) concurrent(o *objects, a, b touchOf) bool {
	if a.th == b.th {
		return p.manyTimes(a, b)
	}
	ca, cb := a.th.closure, b.th.closure
	if ca != nil || cb != nil {
		// closures that were handed out run at any time after they were made; the
		// goroutines may still be running then
		if a.th.many || b.th.many {
			return true
		}
		ga, gb := a.th.g.Parent != nil, b.th.g.Parent != nil
		if ca != nil && cb != nil {
			return ga || gb
		}
		if ca != nil {
			return gb
		}
		return ga
	}
	// the same tree of goroutines
	xa, xb := chain(a.th.g), chain(b.th.g)
	up := map[*eng.Graph]bool{}
	for _, g := range xa {
		up[g] = true
	}
	var top *eng.Graph
	for _, g := range xb {
		if up[g] {
			top = g
			break
		}
	}
	if top == nil {
		return true
	}
	// where each of them is, as seen from the graph they have in common
	at := func(x touchOf, c []*eng.Graph) *eng.Val {
		v := x.v
		for _, g := range c {
			if g == top {
				return v
			}
			v = g.GoVal
		}
		return v
	}
	va, vb := at(a, xa), at(b, xb)
	ga, gb := a.th.g != top, b.th.g != top
	roots := []*eng.Val{a.root, b.root}
	if ga && gb {
		// two goroutines: both were started with this variable
		if p.joined(o, a, va, vb) || p.joined(o, b, vb, va) {
			return false
		}
		return p.follows(va, vb, roots) || p.follows(vb, va, roots)
	}
	if gb {
		va, vb = vb, va
		a, b = b, a
	}
	// va starts a goroutine, vb happens in its creator
	return p.follows(va, vb, roots) && !p.joined(o, a, va, vb)
}

// follows: b may come after a without the variable being made anew in between.
func (p *exclusion) follows(a, b *eng.Val, roots []*eng.Val) bool {
	g := a.Graph()
	for _, r := range roots {
		if r != nil && r.Graph() == g && !reachesPast(g, a, b, r) {
			return false
		}
	}
	return before(g, a, b)
}

// joined: the goroutine started at start has made the access when the creator gets to v.
func (p *exclusion) joined(o *objects, a touchOf, start, v *eng.Val) bool {
	if a.th.g.Parent != start.Graph() {
		return false
	}
	g := start.Graph()
	gt := a.th.t
	done := false
	g.EachOwn(func(w *eng.Val) {
		if done || w.Op != eng.OpCall && w.Op != eng.OpRecv {
			return
		}
		// all ways from the start to v go through w (or the loop that w is in)
		gate := w.Blk
		inLoop := false
		for l := g.LoopOf(w.Blk); l != nil && !l.Blocks[start.Blk] && !l.Blocks[v.Blk]; l = l.Parent {
			gate, inLoop = l.Head, true
		}
		switch {
		case gate == start.Blk && gate == v.Blk:
			if !(start.Before(w) && w.Before(v)) {
				return
			}
		case gate == start.Blk:
			if !start.Before(w) {
				return
			}
		case gate == v.Blk:
			if start.Blk == v.Blk || !w.Before(v) {
				return
			}
		default:
			if start.Blk == v.Blk && start.Before(v) || start.Blk != gate && g.ReachesAvoiding(start.Blk, v.Blk, gate) {
				return
			}
		}
		if l := g.LoopOf(start.Blk); w.Op == eng.OpRecv && l != nil && !l.Blocks[w.Blk] && !inLoop {
			return // one of several
		}
		match := func(sig func(x *eng.Val) bool) bool {
			hit := false
			a.th.g.EachOwn(func(x *eng.Val) {
				if sig(x) && before(a.th.g, a.v, x) && !before(a.th.g, x, a.v) {
					hit = true
				}
			})
			return hit
		}
		switch {
		case w.Op == eng.OpCall && Callee(w) == "(*sync.WaitGroup).Wait":
			wg := o.loc(gt, gt.PathOf(w.Args[0]))
			done = match(func(x *eng.Val) bool {
				return x.Op == eng.OpCall && Callee(x) == "(*sync.WaitGroup).Done" && sameObj(o.loc(gt, gt.PathOf(x.Args[0])), wg)
			})
		case w.Op == eng.OpRecv:
			ch := o.val(gt, gt.Of(w.Args[0]))
			done = match(func(x *eng.Val) bool {
				return (x.Op == eng.OpSend || x.Op == eng.OpClose) && sameObj(o.val(gt, gt.Of(x.Args[0])), ch)
			})
		}
	})
	return done
}

func sameObj(a, b *obj) bool { return a != nil && b != nil && a.find() == b.find() }

// manyTimes: a thread may run several times at once with the same variable.
func (p *exclusion) manyTimes(a, b touchOf) bool {
	if a.th.many {
		return a.root == nil || a.root.Graph() != a.th.g
	}
	for g := a.th.g; g.Parent != nil; g = g.Parent {
		for _, r := range []*eng.Val{a.root, b.root} {
			if r != nil && (r.Graph() == g || r.Graph() == g.Parent && !again(g.GoVal, r)) {
				return false // each run has its own
			}
		}
		if again(g.GoVal, nil) {
			return !(a.idx != nil && a.idx == b.idx && perRun(a.idx, g.GoVal))
		}
	}
	return false
}

// perRun: the index differs for each run of a goroutine.
func perRun(idx *eng.Term, start *eng.Val) bool {
	g := start.Graph()
	l := g.LoopOf(start.Blk)
	if l == nil {
		return false
	}
	t := g.Terms()
	if idx.Op == eng.OpPhi && idx.V != nil && idx.V.Blk == l.Head {
		if _, ds, ok := t.Induction(l, idx); ok && !ds[0] {
			return true
		}
	}
	if m, c := t.Lin(idx); len(m) == 1 {
		_ = c
		for x, k := range m {
			if k != 0 && x != idx && x.Op == eng.OpPhi && x.V != nil && x.V.Blk == l.Head {
				if _, ds, ok := t.Induction(l, x); ok && !ds[0] {
					return true
				}
			}
		}
	}
	return idx.Op == eng.OpExtract && idx.Aux == "1" && idx.Args[0].Op == eng.OpNext
}

// ownLists: lists that storage hands out are made for the caller.
func (p *exclusion) ownLists() {
	c := p.c
	for _, f := range c.roots() {
		if pk := eng.FuncPkgPath(f); pk != pCent && pk != pCM || !exported(f) {
			continue
		}
		res := f.Signature.Results()
		var which []int
		for i := 0; i < res.Len(); i++ {
			if _, ok := res.At(i).Type().Underlying().(*types.Slice); ok && !isVecLike(res.At(i).Type()) {
				which = append(which, i)
			}
		}
		if len(which) == 0 {
			continue
		}
		g := c.Flat(f, "L2")
		t := g.Terms()
		good := true
		for _, ret := range g.Exits {
			for _, i := range which {
				made := map[*eng.Val]bool{}
				if !ownList(t, t.Of(ret.Args[i]), made, map[*eng.Term]bool{}) {
					x := t.Of(ret.Args[i])
					// handed over as a whole
					if x.Op == eng.OpLoad && x.Path != nil {
						now := t.LoadAt(x.Path, x.Typ, ret)
						other := map[*eng.Val]bool{}
						if now != x && ownList(t, now, other, map[*eng.Term]bool{}) {
							continue
						}
					}
					good = false
					p.bad("own-list", fnName(f), ret.Where(), "what is returned may share memory with the data that is kept")
					continue
				}
				// and not kept
				g.EachOwn(func(v *eng.Val) {
					var x *eng.Term
					switch v.Op {
					case eng.OpStore:
						if t.PathOf(v.Args[0]).Root.Op == eng.OpAlloc {
							return
						}
						x = t.Of(v.Args[1])
					case eng.OpMapUpdate:
						if t.Of(v.Args[0]).Op == eng.OpMakeMap {
							return
						}
						x = t.Of(v.Args[2])
					default:
						return
					}
					if _, ok := x.Typ.Underlying().(*types.Slice); !ok || isVecLike(x.Typ) {
						return
					}
					m := map[*eng.Val]bool{}
					ownList(t, x, m, map[*eng.Term]bool{})
					for y := range m {
						if made[y] && (v.Blk == ret.Blk || g.Reaches(v.Blk, ret.Blk)) {
							good = false
							p.bad("own-list", fnName(f), v.Where(), "a list that is returned is kept as well")
						}
					}
				})
			}
		}
		if good {
			p.c.OK("own-list", fnName(f), where(c, f))
		}
	}
}

// ownList: a list that was made in this graph, or for it.
func ownList(t *eng.Terms, x *eng.Term, made map[*eng.Val]bool, seen map[*eng.Term]bool) bool {
	if seen[x] {
		return true
	}
	seen[x] = true
	if x.IsNil() || x.Op == eng.OpZero {
		return true
	}
	switch x.Op {
	case eng.OpMakeSlice:
		made[x.V] = true
		return true
	case eng.OpSlice:
		if x.Args[0].Op == eng.OpAlloc {
			made[x.Args[0].V] = true
			return true
		}
		return ownList(t, x.Args[0], made, seen)
	case eng.OpConv:
		return ownList(t, x.Args[0], made, seen)
	case eng.OpAppend:
		made[x.V] = true
		return ownList(t, appArgs(t, x)[0], made, seen)
	case eng.OpPhi, eng.OpMemPhi:
		if x.Path != nil && x.Path.Root.Op != eng.OpAlloc {
			return false
		}
		as, _ := t.PhiArgs(x)
		for _, a := range as {
			if !ownList(t, a, made, seen) {
				return false
			}
		}
		return len(as) > 0
	case eng.OpCall, eng.OpExtract:
		v := x.V
		if x.Op == eng.OpExtract {
			v = x.Args[0].V
		}
		if v == nil || v.Op != eng.OpCall {
			return false
		}
		if v.Fn != nil {
			if pk := eng.FuncPkgPath(v.Fn); (pk == pCent || pk == pCM) && exported(v.Fn) {
				made[v] = true
				return true
			}
		}
	}
	return false
}
