package rules

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"

	"trypocheck/eng"
)

// tableOf gives the location of the table that a namespace map belongs to.
func tableOf(x *eng.Term) *eng.Term {
	if x != nil && (x.Op == eng.OpLoad || x.Op == eng.OpMemPhi) && len(x.Path.Steps) == 1 && x.Path.Steps[0].Name == slotsField {
		return x.Path.Root
	}
	return nil
}

const slotsField = "slots"

func checkP04(c *C) {
	updates := 0
	for _, en := range c.entries("L3") {
		g := en.G
		t := g.Terms()
		var ups []*eng.Val
		g.EachOwn(func(v *eng.Val) {
			switch v.Op {
			case eng.OpMapUpdate:
				if isSlots(t.Of(v.Args[0])) {
					ups = append(ups, v)
				}
			case eng.OpDelete:
				if isSlots(t.Of(v.Args[0])) {
					c.Bad("no-removal", en.Name, v.Where(), "removes a namespace from the table")
				}
			case eng.OpCall:
				if v.Note == "clear" && len(v.Args) > 0 && isSlots(t.Of(v.Args[0])) {
					c.Bad("no-removal", en.Name, v.Where(), "removes all namespaces from the table")
				}
			}
		})
		if len(ups) == 0 {
			continue
		}
		isUp := map[*eng.Val]bool{}
		for _, v := range ups {
			isUp[v] = true
		}
		c.lockWalk(en, "guarded", func(e *St, v *eng.Val, h held) {
			if !isUp[v] {
				return
			}
			m, key := t.Of(v.Args[0]), t.Of(v.Args[1])
			updates++
			// exclusive use of this table
			if !c.Expect(lockedTable(h, m), "locked", en.Name, v.Where(), "the table is changed without its lock being held (path %s)", e.Path()) {
				return
			}
			// known not to exist since the lock was taken
			ver := t.MapVersion(m, v)
			ok := false
			for _, f := range e.Facts().List() {
				k, ex, is := existsCond(f.Cond)
				if !is || k != key || ex == f.Val {
					continue
				}
				if lookupOf(f.Cond, m, ver) {
					ok = true
				}
			}
			c.Expect(ok, "guarded", en.Name, v.Where(), "a namespace is put into the table under %v without it being known that there is none yet (path %s)", key, e.Path())
			slot := t.Of(v.Args[2])
			c.Expect(!slot.IsNil(), "guarded", en.Name+" slot", v.Where(), "nothing is put into the table")
		}, nil)
	}
	// The table as a whole is only replaced when it is made (or reset on demand).
	for _, f := range c.P.Funcs {
		if eng.IsTestSupport(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				if !isSlotsType(st.Val.Type()) {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); fresh {
					c.OK("whole-table", fnName(f), c.P.Pos(st.Pos()))
					continue
				}
				c.Expect(c.resets(f, 0), "whole-table", fnName(f), c.P.Pos(st.Pos()), "the whole table of namespaces is replaced")
			}
		}
	}
	// Nobody resets it behind the users' backs.
	for _, f := range c.roots() {
		for _, g := range []*ssa.Function{f} {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					if ci, ok := ins.(ssa.CallInstruction); ok {
						if x := ci.Common().StaticCallee(); x != nil && x.Name() == "Reset" && strings.HasSuffix(recvName(x), "CManagerTable") && !newObject(ci.Common().Args[0], 0) {
							c.Bad("whole-table", fnName(f), c.P.Pos(ins.Pos()), "resets the table of namespaces")
						}
					}
				}
			}
		}
	}
	// A refused registration is reported.
	if f := c.Method(pRPC, "CManagerTable", "AddSlot"); f != nil {
		c.storedIffTrue(f, "reported")
	}
	c.Min("guarded", 2)
	c.Min("whole-table", 1)
	c.Min("reported", 1)
	_ = updates
}

// lockedTable: the table that a map of namespaces belongs to is locked for writing.
func lockedTable(h held, m *eng.Term) bool {
	r := tableOf(m)
	if r == nil {
		return m.Op == eng.OpMakeMap
	}
	for _, x := range h {
		if x[0] == 'W' && strings.HasPrefix(x[2:], (&eng.Path{Root: r}).String()+".") {
			return true
		}
	}
	return false
}

// lookupOf: the condition is about a lookup in this state of the map.
func lookupOf(cond, m *eng.Term, ver string) bool {
	found := false
	for cond.Op == eng.OpUn {
		cond = cond.Args[0]
	}
	y := cond
	if y.Op == eng.OpBin {
		y = y.Args[0]
	}
	if y.Op == eng.OpExtract {
		y = y.Args[0]
	}
	if y.Op == eng.OpLookup && y.Args[0] == m && strings.TrimSuffix(y.Aux, ",ok") == ver {
		found = true
	}
	return found
}

// storedIffTrue: a function that registers something returns true exactly on the
// paths on which it put it into the table.
func (c *C) storedIffTrue(f *ssa.Function, rule string) {
	g := c.Flat(f, "L3")
	if g == nil {
		return
	}
	t := g.Terms()
	ok := true
	n := 0
	s := &Sim{G: g, T: t}
	for _, e := range g.Exits {
		for _, a := range e.Args {
			s.Track = append(s.Track, t.Of(a))
		}
	}
	s.Event = func(e *St, v *eng.Val) {
		if v.Op == eng.OpMapUpdate && isSlots(t.Of(v.Args[0])) {
			e.A = "stored"
			if t.Of(v.Args[2]) != t.Of(g.Params[2]) || t.Of(v.Args[1]) != t.Of(g.Params[1]) {
				ok = false
				c.Bad(rule, fnName(f), v.Where(), "stores %v under %v instead of what was given", t.Of(v.Args[2]), t.Of(v.Args[1]))
			}
		}
	}
	s.Exit = func(e *St, ret *eng.Val) {
		n++
		v, known := e.Truth(t.Of(ret.Args[0]))
		if !known || v != (e.A == "stored") {
			ok = false
			what := "refused"
			if e.A == "stored" {
				what = "stored"
			}
			c.Bad(rule, fnName(f), ret.Where(), "reports %v although the namespace was %s (path %s)", e.Resolve(t.Of(ret.Args[0])), what, e.Path())
		}
	}
	s.Run()
	c.States += s.States
	if ok && n > 0 {
		c.OK(rule, fnName(f), where(c, f))
	}
}

func init() {
	register("P04", checkP04, Desc{
		How:     "Every change of the namespace table in the program is found in the flattened entry points; on every path to it the lock of that table must be held and the key must have been seen to be absent since that lock was taken. The table is never shrunk or replaced, and AddSlot returns true exactly on the paths on which it stored.",
		Rules:   map[string]string{"locked": "changes happen under the lock of the table", "guarded": "and only for a key that is known to be absent in this critical section", "no-removal": "no namespace is removed", "whole-table": "the map is only replaced by the constructor or the explicit reset", "reported": "AddSlot reports what it did"},
		Assumes: []string{"the table is only reached through the module's own code (its fields are not exported)"},
	})
}

// newObject: an object made in the same function, possibly reached through a field of
// another such object.
func newObject(x ssa.Value, depth int) bool {
	switch x := x.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok || x.Op != token.MUL || depth > 3 {
			return false
		}
		base, ok := fa.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		n := 0
		for _, r := range *base.Referrers() {
			switch r := r.(type) {
			case *ssa.FieldAddr:
				if r.Field != fa.Field {
					continue
				}
				for _, u := range *r.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(r) {
						n++
						if !newObject(st.Val, depth+1) {
							return false
						}
					}
				}
			case *ssa.Store:
				if r.Addr == ssa.Value(base) {
					return false // set as a whole
				}
			}
		}
		return n > 0
	}
	return false
}

// resets: the function is Reset, or only ever called by it.
func (c *C) resets(f *ssa.Function, depth int) bool {
	if f.Name() == "Reset" && strings.HasSuffix(recvName(f), "CManagerTable") {
		return true
	}
	if depth > 4 || exported(f) {
		return false
	}
	n := 0
	for _, g := range c.P.Funcs {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				ci, isCall := ins.(ssa.CallInstruction)
				if isCall && ci.Common().StaticCallee() == f {
					n++
					a := ci.Common().Args
					if !c.resets(g, depth+1) && !(len(a) > 0 && newObject(a[0], 0)) {
						return false
					}
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op == ssa.Value(f) {
						return false
					}
				}
			}
		}
	}
	return n > 0
}
