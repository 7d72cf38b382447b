package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"trypocheck/eng"
)

func checkP25(c *C) {
	c.divisions()
	c.Import("P17", func(i Item) bool { return i.Rule == "clamped" })
	c.Min("division", 5)
	c.Min("by-scalar", 4)
}

// layerOf: how the functions of a package are looked at.
func layerOf(pkg string) string {
	switch pkg {
	case pMath, pSearch, pCommon:
		return "L0"
	case pCent:
		return "L1"
	case pCM:
		return "L2"
	}
	return "L3"
}

// everything lists what may run, package by package.
func (c *C) everything() []entry {
	var r []entry
	seen := map[string]bool{}
	for _, f := range c.roots() {
		p := eng.FuncPkgPath(f)
		if seen[p] {
			continue
		}
		seen[p] = true
		r = append(r, c.entries(layerOf(p), p)...)
	}
	return r
}

func (c *C) divisions() {
	done := map[string]bool{}
	for _, e := range c.everything() {
		g := e.G
		t := g.Terms()
		g.EachOwn(func(v *eng.Val) {
			var d *eng.Val
			rule := "division"
			switch {
			case v.Op == eng.OpBin && (v.Tok == token.QUO || v.Tok == token.REM) && isNumeric(v.Typ):
				d = v.Args[1]
			case v.Op == eng.OpCall && Callee(v) == "mathutils.VecDivScalar":
				d = v.Args[1]
				rule = "by-scalar"
			default:
				return
			}
			x := t.Of(d)
			if k := x; k.V != nil && k.V.Const != nil {
				if f, ok := floatConst(x); ok && f != 0 {
					return
				}
				if n, ok := x.Int(); ok && n != 0 {
					return
				}
			}
			// The scalar that VecDivScalar is given: see by-scalar.
			if x.Op == eng.OpParam && e.Fn.Name() == "VecDivScalar" && eng.FuncPkgPath(e.Fn) == pMath {
				return
			}
			if s, n := cfgField(x); strings.HasSuffix(s, ".EventLoopTaskSkipConfig") && n != "" && v.Tok == token.REM {
				return // an interval: see P17
			}
			key := v.Where()
			why := ""
			if !c.otherNode(t, v, x) {
				why = c.nonzeroAt(g, v, x)
			}
			if why != "" {
				c.Bad(rule, e.Name, v.Where(), "the divisor %v may be zero: %s", x, why)
			} else if !done[key] {
				c.OK(rule, e.Name, v.Where())
			}
			done[key] = true
		})
	}
}

// nonzeroAt decides that a number is not zero at a point.
func (c *C) nonzeroAt(g *eng.Graph, v *eng.Val, x *eng.Term) string {
	t := g.Terms()
	if nonzero(t, t.BlockFacts(v.Blk), v, x, 0) {
		return ""
	}
	bad := ""
	s := &Sim{G: g, T: t, Track: append(atoms(x), x), Limit: 4000}
	s.Event = func(e *St, w *eng.Val) {
		if w == v {
			y := e.Resolve(x)
			if !nonzero(t, e.Facts(), v, y, 0) && bad == "" {
				bad = "path " + e.Path()
			}
			e.Dead = true
		}
	}
	s.Edge = func(e *St, from, to *eng.Blk) bool { return bad == "" && (to == v.Blk || g.Reaches(to, v.Blk)) }
	s.Run()
	c.States += s.States
	if s.Overflow {
		return "too many paths"
	}
	return bad
}

// atoms lists the parts of a numeric term.
func atoms(x *eng.Term) []*eng.Term {
	seen := map[*eng.Term]bool{}
	var r []*eng.Term
	var walk func(x *eng.Term)
	walk = func(x *eng.Term) {
		if x == nil || seen[x] || len(r) > 40 {
			return
		}
		seen[x] = true
		r = append(r, x)
		for _, a := range x.Args {
			walk(a)
		}
	}
	walk(x)
	return r
}

func isZeroConst(x *eng.Term) bool {
	if k, ok := x.Int(); ok {
		return k == 0
	}
	k, ok := floatConst(x)
	return ok && k == 0
}

// nonzero decides that a number is not zero under some facts.
func nonzero(t *eng.Terms, f *eng.FactSet, at *eng.Val, x *eng.Term, depth int) bool {
	if depth > 12 {
		return false
	}
	if k, ok := x.Int(); ok {
		return k != 0
	}
	if k, ok := floatConst(x); ok {
		return k != 0
	}
	if !isFloatType(x.Typ) {
		if lo, hi := f.Range(x); lo > 0 || hi < 0 {
			return true
		}
	}
	if lo, ok := lower(t, f, at, x, 0); ok && lo > 0 {
		return true
	}
	for _, y := range f.List() {
		c := y.Cond
		if c.Op != eng.OpBin {
			continue
		}
		a, b := c.Args[0], c.Args[1]
		switch c.Aux {
		case "==", "!=":
			if y.Val == (c.Aux == "!=") && isZeroConst(b) && (a == x || factorOf(a, x)) {
				return true
			}
		case "<":
			if y.Val && (isZeroConst(a) && (b == x || factorOf(b, x)) || isZeroConst(b) && (a == x || factorOf(a, x))) {
				return true
			}
		}
	}
	switch x.Op {
	case eng.OpConv:
		if isNumeric(x.Args[0].Typ) && !isFloatType(x.Args[0].Typ) && isFloatType(x.Typ) {
			return nonzero(t, f, at, x.Args[0], depth+1)
		}
	case eng.OpBin:
		if x.Aux == "*" && isFloatType(x.Typ) {
			return nonzero(t, f, at, x.Args[0], depth+1) && nonzero(t, f, at, x.Args[1], depth+1)
		}
	case eng.OpUn:
		if x.Aux == "-" {
			return nonzero(t, f, at, x.Args[0], depth+1)
		}
	case eng.OpCall:
		if Callee(x.V) == "math.Sqrt" || Callee(x.V) == "math.Abs" {
			return nonzero(t, f, at, t.Of(x.V.Args[0]), depth+1)
		}
	case eng.OpPhi:
		if x.JoinBlk().IsLoopHeader() {
			return false
		}
		as, ps := t.PhiArgs(x)
		for i, a := range as {
			if !nonzero(t, t.EdgeFacts(ps[i], x.JoinBlk()), ps[i].Last(), a, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// factorOf: a product that is not zero has no factor that is.
func factorOf(p, x *eng.Term) bool {
	if p.Op == eng.OpBin && p.Aux == "*" {
		return p.Args[0] == x || p.Args[1] == x || factorOf(p.Args[0], x) || factorOf(p.Args[1], x)
	}
	if x.Op == eng.OpCall && x.V != nil && (Callee(x.V) == "math.Sqrt" || Callee(x.V) == "math.Abs") {
		return p == x.V.Graph().Terms().Of(x.V.Args[0])
	}
	return false
}

// lower gives a lower bound of a number.
func lower(t *eng.Terms, f *eng.FactSet, at *eng.Val, x *eng.Term, depth int) (float64, bool) {
	if depth > 12 {
		return 0, false
	}
	if k, ok := x.Int(); ok {
		return float64(k), true
	}
	if k, ok := floatConst(x); ok {
		return k, true
	}
	if !isFloatType(x.Typ) {
		lo, _ := f.Range(x)
		if lo > -1<<62 {
			if lo <= 0 && x.Op == eng.OpLen && at != nil && indexed(t, at, x.Args[0]) {
				return 1, true
			}
			if lo <= 0 && x.Op == eng.OpPhi {
				if k, ok := counts(t, x); ok && k > float64(lo) {
					return k, true
				}
			}
			return float64(lo), true
		}
	}
	switch x.Op {
	case eng.OpConv:
		if isNumeric(x.Args[0].Typ) && !isFloatType(x.Args[0].Typ) {
			return lower(t, f, at, x.Args[0], depth+1)
		}
	case eng.OpAdd:
		m, k := t.Lin(x)
		r := float64(k)
		for a, c := range m {
			l, ok := lower(t, f, at, a, depth+1)
			if !ok || c < 0 {
				return 0, false
			}
			r += l * float64(c)
		}
		return r, true
	case eng.OpBin:
		if k, isK := floatConst(x.Args[1]); isK && x.Aux == "-" {
			a, ok := lower(t, f, at, x.Args[0], depth+1)
			return a - k, ok
		}
		if x.Aux == "+" || x.Aux == "*" {
			a, ok1 := lower(t, f, at, x.Args[0], depth+1)
			b, ok2 := lower(t, f, at, x.Args[1], depth+1)
			if ok1 && ok2 && x.Aux == "+" {
				return a + b, true
			}
			if ok1 && ok2 && a >= 0 && b >= 0 {
				return a * b, true
			}
		}
	case eng.OpCall:
		if Callee(x.V) == "math.Max" {
			a, ok1 := lower(t, f, at, t.Of(x.V.Args[0]), depth+1)
			b, ok2 := lower(t, f, at, t.Of(x.V.Args[1]), depth+1)
			switch {
			case ok1 && (!ok2 || a > b):
				return a, true
			case ok2:
				return b, true
			}
		}
	case eng.OpPhi:
		return counts(t, x)
	}
	return 0, false
}

// counts: a number that only goes up in a loop is never below what it started with.
func counts(t *eng.Terms, x *eng.Term) (float64, bool) {
	b := x.JoinBlk()
	if b == nil || !b.IsLoopHeader() {
		return 0, false
	}
	l := b.G.LoopAt(b)
	var up func(y *eng.Term, d int) bool
	up = func(y *eng.Term, d int) bool {
		if y == x {
			return true
		}
		if d > 8 {
			return false
		}
		switch y.Op {
		case eng.OpBin:
			if y.Aux != "+" {
				return false
			}
			for i := range y.Args[:2] {
				if k, ok := floatConst(y.Args[1-i]); ok && k >= 0 && up(y.Args[i], d+1) {
					return true
				}
			}
		case eng.OpAdd:
			m, k := t.Lin(y)
			if len(m) == 1 && k >= 0 {
				for a, c := range m {
					return c == 1 && up(a, d+1)
				}
			}
		case eng.OpPhi, eng.OpMemPhi:
			as, _ := t.PhiArgs(y)
			for _, a := range as {
				if !up(a, d+1) {
					return false
				}
			}
			return len(as) > 0 && y.JoinBlk() != b
		}
		return false
	}
	as, ps := t.PhiArgs(x)
	var r float64
	got := false
	for i, a := range as {
		if l.Blocks[ps[i]] {
			if !up(a, 0) {
				return 0, false
			}
			continue
		}
		k, ok := lower(t, t.EdgeFacts(ps[i], b), ps[i].Last(), a, 4)
		if !ok {
			return 0, false
		}
		if !got || k < r {
			r = k
		}
		got = true
	}
	return r, got
}

// indexed: an element of the list was used on all ways to a point, so that there is one.
func indexed(t *eng.Terms, at *eng.Val, list *eng.Term) bool {
	for b := at.Blk; b != nil; b = b.Idom {
		for _, w := range b.Instrs {
			if w == at {
				break
			}
			if (w.Op == eng.OpIndexAddr || w.Op == eng.OpIndex) && len(w.Args) == 2 && t.Of(w.Args[0]) == list {
				return true
			}
		}
	}
	return false
}

// otherNode: the number of other nodes is not zero where one of them is dealt with.
func (c *C) otherNode(t *eng.Terms, v *eng.Val, x *eng.Term) bool {
	if x.Op != eng.OpLen {
		return false
	}
	s, n := cfgField(x.Args[0])
	if s != elcType || n != "RemoteAddrs" {
		return false
	}
	for f := range c.writersOf(c.P.Named(pEL, "EventLoopConfig"), n) {
		if eng.FuncPkgPath(f) == pEL {
			return false // not the addresses that the table was made from
		}
	}
	// an address that is not the local one ...
	found := false
	for _, f := range t.BlockFacts(v.Blk).List() {
		if f.Cond.Op != eng.OpCall || f.Cond.V == nil || f.Val || !strings.HasSuffix(Callee(f.Cond.V), "Addr).Comp") && !strings.HasSuffix(Callee(f.Cond.V), "Addr.Comp") {
			continue
		}
		for _, a := range f.Cond.V.Args {
			y := t.Of(a)
			if p, ok := a.Typ.Underlying().(*types.Pointer); ok {
				y = t.LoadAt(t.PtrLoc(y), p.Elem(), f.Cond.V)
			}
			// a variable that is only set to it
			if y.Path != nil && y.Path.Root.Op == eng.OpAlloc && len(y.Path.Steps) == 0 {
				n, local := 0, true
				v.Graph().Each(func(w *eng.Val) {
					if w.Op == eng.OpStore && t.PathOf(w.Args[0]).Root == y.Path.Root {
						n++
						local = local && isLocalAddr(t.Of(w.Args[1]))
					}
				})
				found = found || n > 0 && local
			}
			found = found || isLocalAddr(y)
		}
	}
	if !found {
		return false
	}
	// ... is one of the others: the event loop does not make up addresses.
	for _, f := range c.P.Funcs {
		if eng.FuncPkgPath(f) != pEL || eng.IsTestSupport(f) {
			continue
		}
		if makesAddr(f) {
			return false
		}
	}
	return true
}

func init() {
	register("P25", checkP25, Desc{
		How: "Every division of the program, and every call that divides a vector by a scalar, is found in the flattened graphs of all functions that may run. For each one the divisor has to be non-zero on all paths that lead to it: by its range under the conditions that dominate it or hold on the path, because an element of the list that is counted was used before, because it is a sum or counter that starts above zero and only goes up, or because it was compared with zero.",
		Rules: map[string]string{
			"division": "the divisor of a division is not zero", "by-scalar": "neither is the scalar given to VecDivScalar",
		},
		Assumes: []string{"intervals of the event loop are checked by P17 (imported)", "an address that the event loop deals with and that is not the local one is one of the configured remote addresses: the loop makes no addresses itself (checked) and only gets those of the configuration", "underflow of products is set aside"},
	})
}

// makesAddr: a function puts an address together.
func makesAddr(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			st, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			p, ok := fa.X.Type().Underlying().(*types.Pointer)
			if ok && strings.HasSuffix(eng.TypeName(p.Elem()), ".Addr") {
				return true
			}
		}
	}
	return false
}
