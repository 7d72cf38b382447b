package rules

import (
	"fmt"
	"sort"
	"strings"

	"trypocheck/eng"
)

// Sim walks the paths of a graph with a finite automaton, remembering the
// outcomes of those branches that matter again later (property simulation).
type Sim struct {
	G     *eng.Graph
	T     *eng.Terms
	Start string
	From  *eng.Blk                  // entry block by default
	Track []*eng.Term               // terms whose joins are to be resolved per path
	Rel   func(cond *eng.Term) bool // if set: the only branches to be remembered

	Event  func(e *St, v *eng.Val)
	Branch func(e *St, cond *eng.Term, val bool)
	Edge   func(e *St, from, to *eng.Blk) bool // false: do not follow
	Exit   func(e *St, ret *eng.Val)
	Panic  func(e *St, v *eng.Val)

	Overflow bool
	Limit    int // of states, if not the usual one
	States   int

	relJoin map[*eng.Blk][]*eng.Term
	relAtom map[*eng.Term]int
	sim     *Sim
}

// St is a state on a path.
type St struct {
	A     string // automaton state
	Blk   *eng.Blk
	pred  map[*eng.Blk]*eng.Blk
	known map[*eng.Term]bool
	s     *Sim
	prev  *St
	facts *eng.FactSet
	Dead  bool
}

// Facts gives what is known on this path.
func (e *St) Facts() *eng.FactSet {
	if e.facts == nil {
		f := e.s.T.BlockFacts(e.Blk).Clone()
		for _, x := range e.s.sortedKnown(e.known) {
			f.Add(x, e.known[x])
		}
		e.facts = f
	}
	return e.facts
}

func (s *Sim) sortedKnown(m map[*eng.Term]bool) []*eng.Term {
	var r []*eng.Term
	for x := range m {
		r = append(r, x)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

// Resolve decides the joins of a term by the path taken.
func (e *St) Resolve(x *eng.Term) *eng.Term {
	return e.s.T.Resolve(x, func(b *eng.Blk) *eng.Blk { return e.pred[b] })
}

// Truth decides a condition on this path.
func (e *St) Truth(x *eng.Term) (val, known bool) {
	y := e.Resolve(x)
	if v, ok := e.Facts().Truth(y); ok {
		return v, true
	}
	return e.Facts().Truth(x)
}

// Assume adds a fact to the path.
func (e *St) Assume(x *eng.Term, val bool) {
	e.known[x] = val
	e.facts = nil
}

// Path renders how a state was reached.
func (e *St) Path() string {
	var lines []string
	last := ""
	for x := e; x != nil; x = x.prev {
		for _, v := range x.Blk.Instrs {
			if v.Pos.IsValid() {
				p := e.s.G.P.Pos(v.Pos)
				if p != last {
					lines = append(lines, p)
					last = p
				}
				break
			}
		}
		if len(lines) > 40 {
			break
		}
	}
	for i, j := 0, len(lines)-1; i < j; i, j = i+1, j-1 {
		lines[i], lines[j] = lines[j], lines[i]
	}
	if len(lines) > 14 {
		lines = append(append(append([]string{}, lines[:4]...), "..."), lines[len(lines)-9:]...)
	}
	return strings.Join(lines, " -> ")
}

func (e *St) key() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|", e.Blk.ID, e.A)
	var ps []string
	for b, p := range e.pred {
		ps = append(ps, fmt.Sprintf("%d<%d", b.ID, p.ID))
	}
	sort.Strings(ps)
	sb.WriteString(strings.Join(ps, ","))
	sb.WriteByte('|')
	for _, x := range e.s.sortedKnown(e.known) {
		fmt.Fprintf(&sb, "%d=%v,", x.ID, e.known[x])
	}
	return sb.String()
}

func condAtoms(t *eng.Terms, c *eng.Term) []*eng.Term {
	var r []*eng.Term
	seen := map[*eng.Term]bool{}
	var w func(*eng.Term)
	w = func(x *eng.Term) {
		if x == nil || seen[x] || x.Op == eng.OpConst || x.Op == eng.OpZero {
			return
		}
		seen[x] = true
		switch x.Op {
		case eng.OpBin, eng.OpUn, eng.OpAdd, eng.OpConv, eng.OpIface, eng.OpLen:
			for _, a := range x.Args {
				w(a)
			}
			if x.Op == eng.OpLen {
				r = append(r, x)
			}
			return
		}
		r = append(r, x)
	}
	w(c)
	return r
}

func (s *Sim) prepare() {
	s.relJoin = map[*eng.Blk][]*eng.Term{}
	s.relAtom = map[*eng.Term]int{}
	seen := map[*eng.Term]bool{}
	var addJoins func(x *eng.Term)
	addJoins = func(x *eng.Term) {
		s.T.Walk(x, func(y *eng.Term) bool {
			if seen[y] {
				return false
			}
			seen[y] = true
			if b := y.JoinBlk(); b != nil {
				s.relJoin[b] = append(s.relJoin[b], y)
				args, _ := s.T.PhiArgs(y)
				for _, a := range args {
					addJoins(a)
				}
			}
			return true
		})
	}
	for _, b := range s.G.Blocks {
		l := b.Last()
		if l == nil || l.Op != eng.OpIf {
			continue
		}
		c := s.T.Of(l.Args[0])
		if s.Rel != nil && !s.Rel(c) {
			continue
		}
		addJoins(c)
		m := map[*eng.Term]bool{}
		for _, a := range condAtoms(s.T, c) {
			m[a] = true
			// what may flow into a join counts as well
			for _, lf := range s.joined(a) {
				for _, x := range condAtoms(s.T, lf) {
					m[x] = true
				}
			}
		}
		for a := range m {
			s.relAtom[a]++
		}
	}
	for _, x := range s.Track {
		addJoins(x)
		for _, lf := range s.joined(x) {
			for _, a := range condAtoms(s.T, lf) {
				s.relAtom[a] += 2
			}
		}
	}
}

// joined: everything that a term may be, joins at loop heads included.
func (s *Sim) joined(x *eng.Term) []*eng.Term {
	var heads []*eng.Term
	r := s.T.Leaves(x, func(y *eng.Term) bool {
		if b := y.JoinBlk(); b != nil && b.IsLoopHeader() {
			heads = append(heads, y)
		}
		return false
	})
	return append(r, heads...)
}

func (s *Sim) relevant(c *eng.Term) bool {
	if s.Rel != nil && !s.Rel(c) {
		return false
	}
	for _, a := range condAtoms(s.T, c) {
		if s.relAtom[a] >= 2 {
			return true
		}
	}
	return false
}

const simLimit = 60000

// Run explores all paths.
func (s *Sim) Run() {
	if s.T == nil {
		s.T = s.G.Terms()
	}
	s.prepare()
	start := s.From
	if start == nil {
		start = s.G.Entry
	}
	visited := map[string]bool{}
	st := &St{A: s.Start, Blk: start, pred: map[*eng.Blk]*eng.Blk{}, known: map[*eng.Term]bool{}, s: s}
	work := []*St{st}
	visited[st.key()] = true
	push := func(e *St) {
		k := e.key()
		if visited[k] {
			return
		}
		visited[k] = true
		work = append(work, e)
	}
	for len(work) > 0 {
		e := work[len(work)-1]
		work = work[:len(work)-1]
		s.States++
		if s.States > simLimit || s.Limit > 0 && s.States > s.Limit {
			s.Overflow = true
			return
		}
		if e.Facts().Bad {
			continue
		}
		e.facts = nil
		for _, v := range e.Blk.Instrs {
			if v.Op == eng.OpReturn {
				if s.Event != nil {
					s.Event(e, v)
				}
				if s.Exit != nil && !e.Dead {
					s.Exit(e, v)
				}
				continue
			}
			if v.Op == eng.OpPanic {
				if s.Panic != nil {
					s.Panic(e, v)
				}
				continue
			}
			if s.Event != nil {
				s.Event(e, v)
			}
			if e.Dead {
				break
			}
		}
		if e.Dead {
			continue
		}
		l := e.Blk.Last()
		if l != nil && l.Op == eng.OpIf && e.Blk.Succs[0] != e.Blk.Succs[1] {
			c := s.T.Of(l.Args[0])
			rc := e.Resolve(c)
			val, known := e.Facts().Truth(rc)
			if !known {
				val, known = e.Facts().Truth(c)
			}
			for k, to := range e.Blk.Succs {
				bv := k == 0
				if known && bv != val {
					continue
				}
				n := e.fork()
				if !known && s.relevant(rc) {
					n.known[rc] = bv
				}
				if !known && rc != c && s.relevant(c) {
					n.known[c] = bv
				}
				n.facts = nil
				if s.Branch != nil {
					s.Branch(n, rc, bv)
				}
				if !n.Dead {
					s.step(n, to, push)
				}
			}
			continue
		}
		for _, to := range e.Blk.Succs {
			s.step(e.fork(), to, push)
		}
	}
}

func (e *St) fork() *St {
	n := &St{A: e.A, Blk: e.Blk, pred: map[*eng.Blk]*eng.Blk{}, known: map[*eng.Term]bool{}, s: e.s, prev: e}
	for k, v := range e.pred {
		n.pred[k] = v
	}
	for k, v := range e.known {
		n.known[k] = v
	}
	return n
}

// step moves a (forked) state over an edge.
func (s *Sim) step(n *St, to *eng.Blk, push func(*St)) {
	from := n.Blk
	if l := to.G.LoopAt(to); l != nil {
		// A condition that is carried around the loop is decided before it is forgotten.
		for _, x := range s.relJoin[to] {
			if x.Typ == nil || !isBoolT(x) {
				continue
			}
			args, preds := s.T.PhiArgs(x)
			for i := range preds {
				if preds[i] != from {
					continue
				}
				y := n.Resolve(args[i])
				if _, ok := n.Truth(args[i]); ok || y.Op == eng.OpPhi || y.Op == eng.OpMemPhi {
					continue
				}
				for _, v := range []bool{true, false} {
					m := n.fork()
					m.Blk = from
					m.Assume(y, v)
					m.Assume(args[i], v)
					if s.Branch != nil {
						s.Branch(m, y, v)
					}
					if !m.Dead {
						s.step(m, to, push)
					}
				}
				return
			}
		}
	}
	if s.Edge != nil {
		if !s.Edge(n, from, to) || n.Dead {
			return
		}
	}
	if l := to.G.LoopAt(to); l != nil {
		// Values that joins at the head get, as far as known.
		type kv struct {
			x *eng.Term
			v bool
		}
		var carry []kv
		for _, x := range s.relJoin[to] {
			args, preds := s.T.PhiArgs(x)
			for i := range preds {
				if preds[i] != from {
					continue
				}
				if x.Typ == nil || !isBoolT(x) {
					continue
				}
				if v, ok := n.Truth(args[i]); ok {
					carry = append(carry, kv{x, v})
				}
			}
		}
		if l.Blocks[from] {
			for x := range n.known {
				if !s.T.Invariant(l, x) {
					delete(n.known, x)
				}
			}
			for b := range n.pred {
				if l.Blocks[b] {
					delete(n.pred, b)
				}
			}
		}
		for _, c := range carry {
			n.known[c.x] = c.v
		}
		delete(n.pred, to)
	} else if len(to.Preds) > 1 && len(s.relJoin[to]) > 0 {
		n.pred[to] = from
	}
	n.Blk = to
	n.facts = nil
	push(n)
}

func isBoolT(x *eng.Term) bool { return x.Typ.Underlying().String() == "bool" }
