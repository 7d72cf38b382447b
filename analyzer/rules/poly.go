package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"trypocheck/eng"
)

// Poly is a polynomial over named atoms: products of atoms (sorted, joined by "·") with
// their factors.
type Poly map[string]float64

// Rat is a quotient of polynomials.
type Rat struct{ N, D Poly }

func constPoly(k float64) Poly {
	if k == 0 {
		return Poly{}
	}
	return Poly{"": k}
}

func (p Poly) add(q Poly, k float64) Poly {
	r := Poly{}
	for m, c := range p {
		r[m] += c
	}
	for m, c := range q {
		r[m] += k * c
	}
	for m, c := range r {
		if c == 0 {
			delete(r, m)
		}
	}
	return r
}

const dot = "·"

func (p Poly) mul(q Poly) Poly {
	r := Poly{}
	for m, c := range p {
		for n, d := range q {
			r[mono(m, n)] += c * d
		}
	}
	for m, c := range r {
		if c == 0 {
			delete(r, m)
		}
	}
	return r
}

func mono(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	x := append(strings.Split(a, dot), strings.Split(b, dot)...)
	sort.Strings(x)
	return strings.Join(x, dot)
}

func (p Poly) String() string {
	var r []string
	for m, c := range p {
		r = append(r, fmt.Sprintf("%g*%s", c, m))
	}
	sort.Strings(r)
	return strings.Join(r, " + ")
}

func (p Poly) has(atom string) bool {
	for m := range p {
		for _, a := range strings.Split(m, dot) {
			if a == atom {
				return true
			}
		}
	}
	return false
}

// ren renames inside the atoms.
func (p Poly) ren(f func(string) string) Poly {
	r := Poly{}
	for m, c := range p {
		if m == "" {
			r[""] += c
			continue
		}
		x := strings.Split(m, dot)
		for i := range x {
			x[i] = f(x[i])
		}
		sort.Strings(x)
		r[strings.Join(x, dot)] += c
	}
	return r
}

func (a Rat) ren(f func(string) string) Rat { return Rat{a.N.ren(f), a.D.ren(f)} }
func (a Rat) add(b Rat) Rat {
	if a.D.String() == b.D.String() {
		return Rat{a.N.add(b.N, 1), a.D}
	}
	return Rat{a.N.mul(b.D).add(b.N.mul(a.D), 1), a.D.mul(b.D)}
}
func (a Rat) neg() Rat      { return Rat{Poly{}.add(a.N, -1), a.D} }
func (a Rat) mul(b Rat) Rat { return Rat{a.N.mul(b.N), a.D.mul(b.D)} }
func (a Rat) div(b Rat) Rat { return Rat{a.N.mul(b.D), a.D.mul(b.N)} }
func (a Rat) eq(b Rat) bool {
	return len(a.D) > 0 && len(b.D) > 0 && len(a.N.mul(b.D).add(b.N.mul(a.D), -1)) == 0
}
func (a Rat) String() string {
	if a.D.String() == "1*" {
		return "(" + a.N.String() + ")"
	}
	return "(" + a.N.String() + ") / (" + a.D.String() + ")"
}

func ratK(k float64) Rat               { return Rat{constPoly(k), constPoly(1)} }
func ratAtom(a string) Rat             { return Rat{Poly{a: 1}, constPoly(1)} }
func (a Rat) isPoly() bool             { return a.D.String() == "1*" }
func esc(s string) string              { return strings.ReplaceAll(s, dot, "×") }
func sumAtom(over, body string) string { return "Σ[" + over + "]{" + esc(body) + "}" }

// Num evaluates numbers and vectors symbolically: vectors by the value of the
// component "@", sums over all components by the component "#".
type Num struct {
	g    *eng.Graph
	t    *eng.Terms
	idx  map[*eng.Term]string // positions of the current components
	memo map[*eng.Term]Rat
	// accumulators that are being evaluated
	acc map[*eng.Term]string
	// vectors being updated in place: their value before
	own   map[*eng.Term]Rat
	vec   func(x *eng.Term) (Rat, bool) // what is known about a vector
	num   func(x *eng.Term) (Rat, bool) // what is known about a number
	res   func(x *eng.Term) *eng.Term   // joins decided by a path
	depth int
	loops map[string]*eng.Loop // by the name used in sums
}

func newNum(g *eng.Graph) *Num {
	return &Num{g: g, t: g.Terms(), idx: map[*eng.Term]string{}, acc: map[*eng.Term]string{}, own: map[*eng.Term]Rat{}, loops: map[string]*eng.Loop{}}
}

func el(list *eng.Term, at string) string { return fmt.Sprintf("e%d%s", list.ID, at) }

func (n *Num) opaque(x *eng.Term) Rat { return ratAtom(fmt.Sprintf("t%d", x.ID)) }

// Of evaluates a number.
func (n *Num) Of(x *eng.Term) Rat {
	if n.depth > 60 {
		return n.opaque(x)
	}
	n.depth++
	defer func() { n.depth-- }()
	if n.res != nil {
		x = n.res(x)
	}
	if a, ok := n.acc[x]; ok {
		return ratAtom(a)
	}
	if n.num != nil {
		if r, ok := n.num(x); ok {
			return r
		}
	}
	if k, ok := floatConst(x); ok {
		return ratK(k)
	}
	if (x.Op == eng.OpLoad || x.Op == eng.OpMemPhi) && x.Path != nil && len(x.Path.Steps) == 1 && x.Path.Steps[0].Idx != nil {
		list, i := x.Path.Root, x.Path.Steps[0].Idx
		if r, ok := n.own[list]; ok && n.idx[i] != "" {
			return at(r, n.idx[i])
		}
		if p := n.idx[i]; p != "" {
			v := x.At
			return at(n.Vec(list, v), p)
		}
	}
	switch x.Op {
	case eng.OpConv:
		if isNumeric(x.Typ) && isNumeric(x.Args[0].Typ) && (isFloatType(x.Typ) || !isFloatType(x.Args[0].Typ)) {
			return n.Of(x.Args[0])
		}
	case eng.OpAdd:
		m, k := n.t.Lin(x)
		r := ratK(float64(k))
		for a, c := range m {
			r = r.add(n.Of(a).mul(ratK(float64(c))))
		}
		return r
	case eng.OpUn:
		if x.Aux == "-" {
			return n.Of(x.Args[0]).neg()
		}
	case eng.OpBin:
		if !isNumeric(x.Typ) {
			break
		}
		a, b := n.Of(x.Args[0]), n.Of(x.Args[1])
		switch x.Aux {
		case "+":
			return a.add(b)
		case "-":
			return a.add(b.neg())
		case "*":
			return a.mul(b)
		case "/":
			if isFloatType(x.Typ) && len(b.N) > 0 {
				return a.div(b)
			}
		}
	case eng.OpCall:
		switch Callee(x.V) {
		case "math.Sqrt":
			return sqrtOf(n.Of(n.t.Of(x.V.Args[0])))
		case "math.Pow":
			if k, ok := floatConst(n.t.Of(x.V.Args[1])); ok {
				b := n.Of(n.t.Of(x.V.Args[0]))
				switch k {
				case 1:
					return b
				case 2:
					return b.mul(b)
				case .5:
					return sqrtOf(b)
				}
			}
		}
	case eng.OpPhi, eng.OpMemPhi:
		if r, ok := n.carried(x); ok {
			return r
		}
	}
	return n.opaque(x)
}

func at(r Rat, p string) Rat {
	if p == "@" {
		return r
	}
	return r.ren(func(s string) string { return strings.ReplaceAll(s, "@", p) })
}

func sqrtOf(a Rat) Rat {
	half := func(p Poly) Rat {
		if len(p) == 1 {
			for m, c := range p {
				if c == 1 {
					r := ratK(1)
					if m != "" {
						for _, x := range strings.Split(m, dot) {
							r = r.mul(ratAtom("√" + x))
						}
					}
					return r
				}
			}
		}
		return ratAtom("√" + esc(p.String()))
	}
	return half(a.N).div(half(a.D))
}

// carried evaluates what is accumulated in a loop.
func (n *Num) carried(x *eng.Term) (Rat, bool) {
	b := x.JoinBlk()
	if b == nil {
		return Rat{}, false
	}
	as, ps := n.t.PhiArgs(x)
	l := b.G.LoopAt(b)
	if l == nil {
		// the same on all ways
		var r *Rat
		for _, a := range as {
			y := n.Of(a)
			if r != nil && !r.eq(y) {
				return Rat{}, false
			}
			r = &y
		}
		if r == nil {
			return Rat{}, false
		}
		return *r, true
	}
	var in, out *Rat
	over, pos := n.over(l)
	if over == "" {
		return Rat{}, false
	}
	atom := fmt.Sprintf("acc%d", x.ID)
	n.acc[x] = atom
	defer n.with(pos, "#")()
	for i, a := range as {
		if l.Blocks[ps[i]] {
			y := n.Of(a)
			if out != nil && !out.eq(y) {
				delete(n.acc, x)
				return Rat{}, false
			}
			out = &y
		}
	}
	delete(n.acc, x)
	for i, a := range as {
		if !l.Blocks[ps[i]] {
			y := n.Of(a)
			if in != nil && !in.eq(y) {
				return Rat{}, false
			}
			in = &y
		}
	}
	if in == nil || out == nil {
		return Rat{}, false
	}
	body := out.add(ratAtom(atom).neg())
	if body.N.has(atom) || body.D.has(atom) {
		return Rat{}, false
	}
	return in.add(n.sum(over, body)), true
}

// with names a position for a while.
func (n *Num) with(pos *eng.Term, name string) func() {
	if pos == nil {
		return func() {}
	}
	was, had := n.idx[pos]
	n.idx[pos] = name
	return func() {
		delete(n.idx, pos)
		if had {
			n.idx[pos] = was
		}
	}
}

// sum: Σ is linear.
func (n *Num) sum(over string, body Rat) Rat {
	if !body.isPoly() {
		return ratAtom(sumAtom(over, body.String()))
	}
	r := ratK(0)
	for m, c := range body.N {
		r = r.add(ratAtom(sumAtom(over, m)).mul(ratK(c)))
	}
	return r
}

// over names what a loop runs over: all components of vectors of some length, or
// whatever a generator produces.
func (n *Num) over(l *eng.Loop) (string, *eng.Term) {
	if len(l.Exits()) == 1 {
		if cv := cover(n.t, l); cv != nil && cv.Next == nil && cv.Idx != nil && isVecType(cv.List.Typ) {
			return n.lenName(cv.List, l.Head), cv.Idx
		}
	}
	s := fmt.Sprintf("loop%d", l.Head.ID)
	n.loops[s] = l
	return s, nil
}

// lenName: vectors known to be of the same length have the same name.
func (n *Num) lenName(x *eng.Term, b *eng.Blk) string {
	r := n.t.Len(x, b.Last())
	for _, f := range n.t.BlockFacts(b).List() {
		if f.Cond.Op != eng.OpBin || f.Cond.Aux != "==" && f.Cond.Aux != "!=" || f.Val != (f.Cond.Aux == "==") {
			continue
		}
		m, k := n.t.Lin(f.Cond.Args[0])
		k2, ok := f.Cond.Args[1].Int()
		if !ok || k != k2 || len(m) != 2 || m[r] == 0 {
			continue
		}
		for a, c := range m {
			if a != r && a.Op == eng.OpLen && c == -m[r] && a.ID < r.ID {
				r = a
				break
			}
		}
	}
	return fmt.Sprintf("len%d", r.ID)
}

func isVecType(t types.Type) bool {
	return t != nil && t.String() == "[]float64"
}

// Vec evaluates a vector at a point.
func (n *Num) Vec(x *eng.Term, p *eng.Val) Rat {
	if n.depth > 60 {
		return ratAtom(el(x, "@"))
	}
	n.depth++
	defer func() { n.depth-- }()
	if n.res != nil {
		x = n.res(x)
	}
	if a, ok := n.acc[x]; ok {
		return ratAtom(a + "@")
	}
	if n.vec != nil {
		if r, ok := n.vec(x); ok {
			return r
		}
	}
	t := n.t
	for i := 0; i < 8 && x.JoinBlk() != nil && !x.JoinBlk().IsLoopHeader() && p != nil && p.Blk != nil; i++ {
		// only one way is possible
		fs := t.Feasible(x.JoinBlk(), t.BlockFacts(p.Blk))
		if len(fs) != 1 {
			break
		}
		as, ps := t.PhiArgs(x)
		for j := range ps {
			if ps[j] == fs[0] {
				x, p = as[j], ps[j].Last()
				break
			}
		}
	}
	switch x.Op {
	case eng.OpMakeSlice:
		if r, ok := n.filled(x, p); ok {
			return r
		}
	case eng.OpAppend:
		e, sp := appended(t, x.V)
		if len(e) == 0 && sp != nil && emptyList(t.Of(x.V.Args[0])) {
			if r, ok := n.filled(x, p); ok {
				return r
			}
		}
	case eng.OpCall, eng.OpExtract:
		v, i := x.V, 0
		if x.Op == eng.OpExtract {
			v = x.Args[0].V
			if x.Aux != "0" {
				i = 1
			}
		}
		if v == nil || v.Op != eng.OpCall || i != 0 {
			break
		}
		arg := func(i int) *eng.Term { return t.Of(v.Args[i]) }
		switch Callee(v) {
		case "mathutils.VecAdd":
			return n.Vec(arg(0), v).add(n.Vec(arg(1), v))
		case "mathutils.VecSub":
			return n.Vec(arg(0), v).add(n.Vec(arg(1), v).neg())
		case "mathutils.VecMulScalar":
			return n.Vec(arg(0), v).mul(n.Of(arg(1)))
		case "mathutils.VecDivScalar":
			if k := n.Of(arg(1)); len(k.N) > 0 {
				return n.Vec(arg(0), v).div(k)
			}
		case "mathutils.Vec":
			if len(v.Args) == 1 {
				return n.Vec(arg(0), v)
			}
		}
	case eng.OpPhi, eng.OpMemPhi:
		b := x.JoinBlk()
		if b == nil {
			break
		}
		l := b.G.LoopAt(b)
		if l != nil {
			if m, _ := mapLoop(n.g, t, x, nil); m != nil && !m.Filtered && !m.Cv.Back && len(m.Elems) == 1 && m.Cv.Next == nil {
				defer n.with(m.Cv.Idx, "@")()
				return n.Of(m.Elems[0])
			}
		}
		as, ps := t.PhiArgs(x)
		if l == nil {
			var r *Rat
			for i, a := range as {
				y := n.Vec(a, ps[i].Last())
				if r != nil && !r.eq(y) {
					return ratAtom(el(x, "@"))
				}
				r = &y
			}
			if r != nil {
				return *r
			}
			break
		}
		atom := fmt.Sprintf("acc%d", x.ID)
		n.acc[x] = atom
		in, out, ok := n.inOut(l, as, ps)
		delete(n.acc, x)
		if ok {
			if r, ok := n.reduce(l, atom+"@", in, out); ok {
				return r
			}
		}
	}
	return ratAtom(el(x, "@"))
}

func (n *Num) inOut(l *eng.Loop, as []*eng.Term, ps []*eng.Blk) (in, out Rat, ok bool) {
	var a, b *Rat
	for i, x := range as {
		y := n.Vec(x, ps[i].Last())
		to := &a
		if l.Blocks[ps[i]] {
			to = &b
		}
		if *to != nil && !(*to).eq(y) {
			return in, out, false
		}
		*to = &y
	}
	if a == nil || b == nil {
		return in, out, false
	}
	return *a, *b, true
}

func (n *Num) reduce(l *eng.Loop, atom string, in, out Rat) (Rat, bool) {
	body := out.add(ratAtom(atom).neg())
	if body.N.has(atom) || body.D.has(atom) {
		return Rat{}, false
	}
	over, pos := n.over(l)
	if over == "" || pos != nil {
		return Rat{}, false
	}
	return in.add(n.sum(over, body)), true
}

// filled evaluates a vector that is made here and filled by loops over all its
// components.
func (n *Num) filled(x *eng.Term, p *eng.Val) (Rat, bool) {
	if p == nil || p.Blk == nil {
		return Rat{}, false
	}
	t := n.t
	// loops that write
	ups := map[*eng.Blk]*eng.Val{} // head -> store
	writes := map[*eng.Val]bool{}
	bad := false
	x.V.Graph().EachOwn(func(v *eng.Val) {
		switch v.Op {
		case eng.OpStore:
			pt := t.PathOf(v.Args[0])
			if pt.Root != x {
				return
			}
			l := innermost(v)
			if l == nil || len(pt.Steps) != 1 || pt.Steps[0].Idx == nil || len(l.Exits()) != 1 {
				bad = true
				return
			}
			cv := cover(t, l)
			if cv == nil || cv.Idx != pt.Steps[0].Idx || n.lenName(x, l.Head) != n.lenName(cv.List, l.Head) || ups[l.Head] != nil {
				bad = true
				return
			}
			for _, la := range l.Latches {
				if !v.Blk.Dominates(la) {
					bad = true
				}
			}
			ups[l.Head] = v
		case eng.OpCopy:
			if t.Of(v.Args[0]) == x {
				writes[v] = true
			}
		case eng.OpCall, eng.OpGo, eng.OpSlice:
			if v.Op == eng.OpCall && strings.HasPrefix(Callee(v), "mathutils.") {
				return
			}
			for _, a := range v.Args {
				if a != nil && t.Of(a) == x && v.Op != eng.OpSlice {
					bad = true
				}
				if v.Op == eng.OpSlice && a != nil && t.Of(a) == x {
					bad = true
				}
			}
		}
	})
	if bad {
		return Rat{}, false
	}
	has := func(l *eng.Loop) bool {
		for h := range ups {
			if l.Blocks[h] {
				return true
			}
		}
		for w := range writes {
			if l.Blocks[w.Blk] {
				return true
			}
		}
		return false
	}
	heads := map[*eng.Blk]Rat{}
	var state func(b *eng.Blk, i int, d int) (Rat, bool)
	var pred func(b *eng.Blk, only func(*eng.Blk) bool, d int) (Rat, bool)
	pred = func(b *eng.Blk, only func(*eng.Blk) bool, d int) (Rat, bool) {
		var r *Rat
		for _, q := range b.Preds {
			if !only(q) || !x.V.Blk.Dominates(q) {
				continue
			}
			y, ok := state(q, len(q.Instrs), d+1)
			if !ok || r != nil && !r.eq(y) {
				return Rat{}, false
			}
			r = &y
		}
		if r == nil {
			return Rat{}, false
		}
		return *r, true
	}
	state = func(b *eng.Blk, i int, d int) (Rat, bool) {
		if d > 40 {
			return Rat{}, false
		}
		for j := i - 1; j >= 0; j-- {
			v := b.Instrs[j]
			if v == x.V {
				if v.Op == eng.OpAppend {
					return n.Vec(t.Of(v.Args[1]), v), true
				}
				return ratK(0), true
			}
			if writes[v] {
				src := t.Of(v.Args[1])
				if n.lenName(x, b) != n.lenName(src, b) {
					return Rat{}, false
				}
				return n.Vec(src, v), true
			}
		}
		if r, ok := heads[b]; ok {
			return r, true
		}
		l := b.G.LoopAt(b)
		if l == nil {
			return pred(b, func(*eng.Blk) bool { return true }, d)
		}
		in, ok := pred(b, func(q *eng.Blk) bool { return !l.Blocks[q] }, d)
		if !ok || !has(l) {
			return in, ok
		}
		if st := ups[b]; st != nil {
			cv := cover(t, l)
			was, had := n.own[x]
			n.own[x] = in
			undo := n.with(cv.Idx, "@")
			r := n.Of(t.Of(st.Args[1]))
			undo()
			delete(n.own, x)
			if had {
				n.own[x] = was
			}
			return r, true
		}
		atom := fmt.Sprintf("mem%d.%d@", x.ID, b.ID)
		heads[b] = ratAtom(atom)
		out, ok := pred(b, func(q *eng.Blk) bool { return l.Blocks[q] }, d)
		delete(heads, b)
		if !ok {
			return Rat{}, false
		}
		return n.reduce(l, atom, in, out)
	}
	for j, v := range p.Blk.Instrs {
		if v == p {
			return state(p.Blk, j, 0)
		}
	}
	return Rat{}, false
}

func isNumeric(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func isFloatType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
