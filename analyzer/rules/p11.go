package rules

import (
	"fmt"
	"go/types"
	"strings"

	"trypocheck/eng"
)

func checkP11(c *C) {
	c.vectorWrites()
	c.freshResults()
	c.Min("write", 5)
	c.Min("fresh", 4)
}

func isVecLike(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// own: a vector that was made in this graph; made lists the places.
func own(t *eng.Terms, x *eng.Term, made map[*eng.Val]bool, seen map[*eng.Term]bool) bool {
	if seen[x] {
		return true
	}
	seen[x] = true
	if x.IsNil() {
		return true
	}
	switch x.Op {
	case eng.OpMakeSlice:
		made[x.V] = true
		return true
	case eng.OpZero:
		return true
	case eng.OpSlice:
		if x.Args[0].Op == eng.OpAlloc {
			made[x.Args[0].V] = true
			return true
		}
		return own(t, x.Args[0], made, seen)
	case eng.OpConv:
		return isVecLike(x.Args[0].Typ) && own(t, x.Args[0], made, seen)
	case eng.OpAppend:
		made[x.V] = true
		return own(t, t.Of(x.V.Args[0]), made, seen)
	case eng.OpPhi:
		as, _ := t.PhiArgs(x)
		for _, a := range as {
			if !own(t, a, made, seen) {
				return false
			}
		}
		return len(as) > 0
	case eng.OpMemPhi:
		if x.Path == nil || x.Path.Root.Op != eng.OpAlloc {
			return false
		}
		as, _ := t.PhiArgs(x)
		for _, a := range as {
			if !own(t, a, made, seen) {
				return false
			}
		}
		return len(as) > 0
	case eng.OpCall:
		if freshResult(x.V) {
			made[x.V] = true
			return true
		}
	case eng.OpExtract:
		if v := x.Args[0].V; v != nil && x.Aux == "0" && freshResult(v) {
			made[v] = true
			return true
		}
	}
	return false
}

func freshResult(v *eng.Val) bool {
	switch Callee(v) {
	case "mathutils.VecAdd", "mathutils.VecSub", "mathutils.VecMulScalar", "mathutils.VecDivScalar", "mathutils.VecMean", "mathutils.Vec":
		return true
	}
	return false
}

// aliases: what may be the same vector as one of those made.
func aliasOf(t *eng.Terms, x *eng.Term, made map[*eng.Val]bool) bool {
	m := map[*eng.Val]bool{}
	if !own(t, x, m, map[*eng.Term]bool{}) {
		return false
	}
	for v := range m {
		if made[v] {
			return true
		}
	}
	return false
}

// vectorWrites: only vectors that were just made are written to.
func (c *C) vectorWrites() {
	done := map[string]bool{}
	for _, e := range c.everything() {
		g := e.G
		t := g.Terms()
		g.EachOwn(func(v *eng.Val) {
			var x *eng.Term
			what := ""
			switch v.Op {
			case eng.OpStore:
				a := v.Args[0]
				if a.Op != eng.OpIndexAddr || len(a.Args) == 0 || !isVecLike(a.Args[0].Typ) {
					// through a pointer to a component
					if p, ok := a.Typ.Underlying().(*types.Pointer); ok && isFloatType(p.Elem()) && a.Op != eng.OpFieldAddr {
						pa := t.PathOf(a)
						if r := pa.Root; r.Op != eng.OpAlloc {
							x, what = r, "written to through a pointer"
							break
						}
					}
					return
				}
				x, what = t.Of(a.Args[0]), "written to"
			case eng.OpCopy:
				if !isVecLike(v.Args[0].Typ) {
					return
				}
				x, what = t.Of(v.Args[0]), "copied into"
			case eng.OpAppend:
				if !isVecLike(v.Args[0].Typ) {
					return
				}
				x, what = t.Of(v.Args[0]), "appended to"
			case eng.OpCall:
				n := Callee(v)
				if i := strings.LastIndexByte(n, '.'); i < 0 || !(n[:i] == "sort" || n[:i] == "slices") {
					c.decodes(e, t, v)
					return
				}
				for _, a := range v.Args {
					if y := unwrapIface(t.Of(a)); isVecLike(y.Typ) {
						x, what = y, "passed to "+n
					}
				}
				if x == nil {
					return
				}
			default:
				return
			}
			key := fmt.Sprint(v.Where(), v.Pos)
			made := map[*eng.Val]bool{}
			if !own(t, x, made, map[*eng.Term]bool{}) {
				c.Bad("write", e.Name, v.Where(), "a vector that may be in use elsewhere is %s", what)
				return
			}
			if w := c.escaped(g, t, v, made); w != nil {
				c.Bad("write", e.Name, v.Where(), "a vector is %s after it was handed out at %s", what, w.Where())
				return
			}
			if !done[key] {
				c.OK("write", e.Name, v.Where())
			}
			done[key] = true
		})
	}
}

// escaped: the vector was handed out before it is written to at v.
func (c *C) escaped(g *eng.Graph, t *eng.Terms, v *eng.Val, made map[*eng.Val]bool) *eng.Val {
	var r *eng.Val
	g.EachOwn(func(w *eng.Val) {
		if r != nil || w == v {
			return
		}
		var xs []*eng.Val
		switch w.Op {
		case eng.OpStore:
			if root := t.PathOf(w.Args[0]).Root; root.Op == eng.OpAlloc && !c.sharedAlloc(g, t, root, v) {
				return
			}
			xs = w.Args[1:]
		case eng.OpCall, eng.OpGo:
			if freshResult(w) || strings.HasPrefix(Callee(w), "mathutils.") || strings.HasPrefix(Callee(w), "searchutils.") {
				return
			}
			xs = w.Args
		case eng.OpMapUpdate:
			xs = w.Args[2:]
		case eng.OpSend:
			xs = w.Args[1:]
		default:
			return
		}
		hit := false
		for _, a := range xs {
			y := unwrapIface(t.Of(a))
			hit = hit || isVecLike(y.Typ) && aliasOf(t, y, made)
		}
		if !hit {
			return
		}
		for m := range made {
			if reachesPast(g, w, v, m) {
				r = w
			}
		}
	})
	return r
}

// sharedAlloc: a variable or struct that others know of by the time of v.
func (c *C) sharedAlloc(g *eng.Graph, t *eng.Terms, a *eng.Term, v *eng.Val) bool {
	shared := false
	g.EachOwn(func(w *eng.Val) {
		if w.Op != eng.OpStore && w.Op != eng.OpCall && w.Op != eng.OpGo && w.Op != eng.OpSend && w.Op != eng.OpMapUpdate {
			return
		}
		xs := w.Args
		if w.Op == eng.OpStore {
			if t.PathOf(w.Args[0]).Root.Op == eng.OpAlloc {
				return
			}
			xs = w.Args[1:]
		}
		for _, y := range xs {
			if unwrapIface(t.Of(y)) == a && before(g, w, v) {
				shared = true
			}
		}
	})
	return shared
}

// reachesPast: from w to v without making m anew.
func reachesPast(g *eng.Graph, w, v, m *eng.Val) bool {
	if w.Blk == v.Blk {
		wi, vi, mi := -1, -1, -1
		for i, x := range w.Blk.Instrs {
			switch x {
			case w:
				wi = i
			case v:
				vi = i
			}
			if x == m {
				mi = i
			}
		}
		if wi < vi {
			return !(wi < mi && mi < vi)
		}
	}
	if m.Blk == v.Blk {
		return false
	}
	return g.ReachesAvoiding(w.Blk, v.Blk, m.Blk)
}

// decodes: answers are only decoded into something new (decoding reuses vectors that
// are there already).
func (c *C) decodes(e entry, t *eng.Terms, v *eng.Val) {
	n := Callee(v)
	if !strings.HasSuffix(n, ".Call") && !strings.HasSuffix(n, ".Decode") && !strings.HasSuffix(n, ".Unmarshal") {
		return
	}
	for _, a := range v.Args {
		y := unwrapIface(t.Of(a))
		p, ok := y.Typ.Underlying().(*types.Pointer)
		if !ok || a.Op != eng.OpIface || !holdsVec(p.Elem(), 0) {
			continue
		}
		if y.Op != eng.OpAlloc {
			// a pointer from elsewhere
			if y.Op == eng.OpParam {
				continue
			}
			c.Bad("write", e.Name, v.Where(), "something that may be in use elsewhere is decoded into")
			continue
		}
		now := t.LoadAt(t.PtrLoc(y), p.Elem(), v)
		c.Expect(zeroAll(now) || emptyList(now), "write", e.Name, v.Where(), "an answer is decoded into something that is not empty, which overwrites vectors it holds")
	}
}

func zeroAll(x *eng.Term) bool {
	if x.Op == eng.OpZero || x.IsNil() {
		return true
	}
	if x.Op == eng.OpAgg {
		for _, a := range x.Args {
			if a != nil && !zeroAll(a) {
				if _, ok := a.Int(); !ok {
					return false
				}
			}
		}
		return true
	}
	if x.V != nil && x.V.Op == eng.OpConst {
		return true
	}
	return false
}

// holdsVec: a value of the type may hold vectors.
func holdsVec(tp types.Type, d int) bool {
	if d > 6 {
		return false
	}
	if isVecLike(tp) {
		return true
	}
	switch u := tp.Underlying().(type) {
	case *types.Slice:
		return holdsVec(u.Elem(), d+1)
	case *types.Map:
		return holdsVec(u.Elem(), d+1)
	case *types.Pointer:
		return holdsVec(u.Elem(), d+1)
	case *types.Array:
		return holdsVec(u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsVec(u.Field(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

// freshResults: the vector helpers return new vectors.
func (c *C) freshResults() {
	for _, f := range c.roots() {
		if eng.FuncPkgPath(f) != pMath || !exported(f) {
			continue
		}
		res := f.Signature.Results()
		if res.Len() == 0 || !isVecLike(res.At(0).Type()) {
			continue
		}
		g := c.Flat(f, "L0")
		t := g.Terms()
		s := &Sim{G: g, T: t, Track: returned(g)}
		bad := false
		s.Exit = func(e *St, ret *eng.Val) {
			if len(ret.Args) > 1 && isBoolType(ret.Args[1].Typ) {
				if ok, known := e.Truth(e.Resolve(t.Of(ret.Args[1]))); known && !ok {
					return
				}
			}
			x := e.Resolve(t.Of(ret.Args[0]))
			if !own(t, x, map[*eng.Val]bool{}, map[*eng.Term]bool{}) && !bad {
				bad = true
				c.Bad("fresh", fnName(f), ret.Where(), "returns a vector that is not new (path %s)", e.Path())
			}
		}
		s.Run()
		c.States += s.States
		if s.Overflow {
			bad = true
			c.Bad("fresh", fnName(f), where(c, f), "too many paths")
		}
		if !bad {
			c.OK("fresh", fnName(f), where(c, f))
		}
	}
}

func init() {
	register("P11", checkP11, Desc{
		How: "An escape analysis for vectors. Every instruction of the program that can write to the components of a vector (stores to an element, copy, append, sorting, decoding an answer into a variable) is found in the flattened graphs of all functions that may run. Its target has to be a vector that was made in the same activation, on all ways in which it gets there, and that was not stored, sent, or passed on before the write without being made anew. What the vector helpers return on success has to be made by them.",
		Rules: map[string]string{
			"write": "only a vector that was just made, and is not known elsewhere yet, is written to", "fresh": "vector helpers return new vectors",
		},
		Assumes: []string{"functions outside of the module do not write to vectors they are given, other than by sorting or decoding"},
	})
}
