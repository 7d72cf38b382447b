package eng

import (
	"go/token"
	"go/types"
	"strings"
)

// NewFacts makes an empty set of facts.
func (t *Terms) NewFacts() *FactSet { return t.newFacts() }

// Clone copies a set of facts.
func (f *FactSet) Clone() *FactSet { return f.clone() }

// IsLoopHeader tells whether a block is the head of a loop.
func (b *Blk) IsLoopHeader() bool { return b.G.isLoopHeader(b) }

// Resolve rewrites a term with the joins decided by pick (the predecessor that
// was taken into a block, or nil if unknown).
func (t *Terms) Resolve(x *Term, pick func(*Blk) *Blk) *Term {
	return t.resolve(x, pick, 0)
}

func (t *Terms) resolve(x *Term, pick func(*Blk) *Blk, d int) *Term {
	if x == nil || d > 40 {
		return x
	}
	if b := x.JoinBlk(); b != nil {
		if p := pick(b); p != nil {
			args, preds := t.PhiArgs(x)
			for i := range preds {
				if preds[i] == p && args[i] != x {
					return t.resolve(args[i], pick, d+1)
				}
			}
		}
		return x
	}
	if len(x.Args) == 0 {
		return x
	}
	ch := false
	args := make([]*Term, len(x.Args))
	for i, a := range x.Args {
		args[i] = t.resolve(a, pick, d+1)
		if args[i] != a {
			ch = true
		}
	}
	if !ch {
		return x
	}
	return t.Rebuild(x, args)
}

// Rebuild makes the term with the same operator as x but other arguments.
func (t *Terms) Rebuild(x *Term, args []*Term) *Term {
	switch x.Op {
	case OpBin:
		if tok := tokOf(x.Aux); tok != token.ILLEGAL {
			return t.Bin(tok, args[0], args[1], x.Typ)
		}
	case OpUn:
		if x.Aux == "!" {
			return t.Not(args[0])
		}
	case OpAdd:
		l := linear{m: map[*Term]int64{}}
		old := t.lin(x)
		l.c = old.c
		for i, a := range args {
			l = l.add(t.lin(a).scale(old.m[x.Args[i]]))
		}
		return t.fromLin(l)
	case OpLen:
		if !strings.HasPrefix(x.Aux, "m") && x.Aux != "init" {
			return t.Len(args[0], nil)
		}
	case OpField:
		var n int
		for _, c := range x.Aux {
			n = n*10 + int(c-'0')
		}
		return t.Project(args[0], n, x.Typ)
	case OpAgg:
		return t.agg(x.Typ, args)
	}
	y := t.mk(x.Op, x.Aux, x.Typ, args...)
	if y.V == nil {
		y.V = x.V
	}
	if y.At == nil {
		y.At = x.At
	}
	return y
}

// Walk visits a term and everything it is made of.
func (t *Terms) Walk(x *Term, f func(*Term) bool) {
	seen := map[*Term]bool{}
	var w func(*Term)
	w = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if !f(x) {
			return
		}
		for _, a := range x.Args {
			w(a)
		}
		if x.Path != nil {
			w(x.Path.Root)
			for _, s := range x.Path.Steps {
				w(s.Idx)
			}
		}
	}
	w(x)
}

// ElemLoc is the location of an element of a slice.
func (t *Terms) ElemLoc(s, idx *Term, et types.Type) *Path { return t.elemPath(s, idx, et) }

// FieldLoc extends a location by a field.
func (t *Terms) FieldLoc(p *Path, st types.Type, field string) *Path {
	u, ok := st.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == field {
			return p.with(Step{Field: i, Struct: structName(st), Name: field, Typ: u.Field(i).Type()})
		}
	}
	return nil
}

// PtrLoc is the location that a pointer term points to.
func (t *Terms) PtrLoc(x *Term) *Path { return t.ptrPath(x) }

// SamePath tells whether two locations are the same.
func SamePath(a, b *Path) bool { return a.key() == b.key() }

// Affects tells whether an instruction may change a location.
func (t *Terms) Affects(s *Val, p *Path, typ types.Type) bool {
	e := t.effect(s, p, typ)
	return e != effNone
}

// RootsDisjoint tells whether two roots certainly are different memory.
func (t *Terms) RootsDisjoint(a, b *Term) bool { return t.rootsDisjoint(a, b) }

// Escapes tells whether an allocation may be known elsewhere under another name.
func (t *Terms) Escapes(a *Val) bool { return t.escapes(a) }

// Root gives the outermost graph.
func (g *Graph) Root() *Graph {
	for g.Parent != nil {
		g = g.Parent
	}
	return g
}

// ElemType gives the element type of a slice or array.
func ElemType(t types.Type) types.Type { return elemType(t) }

// IdxLoc extends a location (of an array) by an index.
func (t *Terms) IdxLoc(p *Path, idx *Term, et types.Type) *Path {
	return p.with(Step{Idx: idx, Typ: et})
}

// MapVersion names the state of a map just before an instruction.
func (t *Terms) MapVersion(m *Term, v *Val) string { return t.mapVersion(m, v) }

// Graphs lists a graph and all the goroutine bodies in it.
func (g *Graph) Graphs() []*Graph {
	r := []*Graph{g}
	for _, b := range g.Blocks {
		for _, v := range b.Instrs {
			if v.Op == OpGo && v.Sub != nil {
				r = append(r, v.Sub.Graphs()...)
			}
		}
	}
	return r
}
