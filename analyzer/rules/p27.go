package rules

import (
	"go/types"
	"strings"

	"trypocheck/eng"
)

func checkP27(c *C) {
	c.measures()
	c.vecHelpers()
	c.vecMean()
	c.Min("measure", 2)
	c.Min("refused", 2)
	c.Min("zero", 1)
	c.Min("helper", 4)
	c.Min("mean", 2)
}

// measures: every exit of a measure returns its formula, or reports that the vectors
// cannot be compared.
func (c *C) measures() {
	for _, name := range []string{"EuclideanDistance", "CosineSimilarity"} {
		f := c.Func(pMath, name)
		if f == nil {
			c.Bad("measure", name, "-", "there is no %s", name)
			continue
		}
		g := c.Flat(f, "L0")
		t := g.Terms()
		a, b := t.Of(g.Params[0]), t.Of(g.Params[1])
		same := t.Bin(eqTok, t.Len(a, nil), t.Len(b, nil), nil)
		track := append(returned(g), same)
		g.EachOwn(func(v *eng.Val) {
			if v.Op == eng.OpIf {
				if x := t.Of(v.Args[0]); x.Op == eng.OpBin && isFloatType(x.Args[0].Typ) {
					track = append(track, x)
				}
			}
		})
		s := &Sim{G: g, T: t, Track: track}
		seen := map[string]bool{}
		s.Exit = func(e *St, ret *eng.Val) {
			x, err := e.Resolve(t.Of(ret.Args[0])), e.Resolve(t.Of(ret.Args[1]))
			eq, known := e.Truth(same)
			k := ret.Where() + x.String() + err.String()
			for _, f := range e.Facts().List() {
				k += f.Cond.String()
				if f.Val {
					k += "+"
				}
			}
			if seen[k] {
				return
			}
			seen[k] = true
			if !err.IsNil() {
				c.Expect(known && !eq, "refused", name, ret.Where(), "an error is returned although the vectors can be compared (path %s)", e.Path())
				return
			}
			if !c.Expect(known && eq, "refused", name+" other", ret.Where(), "a result is returned although the vectors may be of different dimensions (path %s)", e.Path()) {
				return
			}
			n := newNum(g)
			got := n.Of(x)
			over := n.lenName(a, ret.Blk)
			A, B := el(a, "#"), el(b, "#")
			S := func(m string) Rat { return ratAtom(sumAtom(over, m)) }
			aa, ab, bb := S(mono(A, A)), S(mono(A, B)), S(mono(B, B))
			if name == "EuclideanDistance" {
				want := sqrtOf(aa.add(bb).add(ab.mul(ratK(-2))))
				c.Expect(got.eq(want), "measure", name, ret.Where(), "returns %v", got)
				return
			}
			want := ab.div(sqrtOf(aa)).div(sqrtOf(bb))
			na, nb := false, false // known not to be zero
			zero := false
			for _, f := range e.Facts().List() {
				if f.Cond.Op != eng.OpBin || len(f.Cond.Args) != 2 {
					continue
				}
				num, is := f.Cond.Args[0], false
				switch f.Cond.Aux {
				case "==", "!=":
					is = isZeroConst(f.Cond.Args[1]) && f.Val == (f.Cond.Aux == "==")
				case "<": // norms are not below zero
					num, is = f.Cond.Args[1], !f.Val
				case "<=":
					is = f.Val
				default:
					continue
				}
				if z := f.Cond.Args[0]; num == z && !isZeroConst(f.Cond.Args[1]) || num != z && !isZeroConst(z) || !isFloatType(num.Typ) {
					continue
				}
				y := n.Of(num)
				if !y.isPoly() || len(y.N) != 1 {
					continue
				}
				isA, isB, other := false, false, false
				for m := range y.N {
					for _, p := range strings.Split(m, dot) {
						switch p {
						case one(aa), one(sqrtOf(aa)):
							isA = true
						case one(bb), one(sqrtOf(bb)):
							isB = true
						default:
							other = true
						}
					}
				}
				if other {
					continue
				}
				if is {
					zero = true
				} else {
					na, nb = na || isA, nb || isB
				}
			}
			if k, ok := floatConst(x); ok && k == 0 {
				c.Expect(zero, "zero", name, ret.Where(), "0 is returned although no norm is zero (path %s)", e.Path())
				return
			}
			c.Expect(got.eq(want), "measure", name, ret.Where(), "returns %v", got)
			c.Expect(na && nb, "zero", name+" norms", ret.Where(), "divides by a norm that may be zero (path %s)", e.Path())
		}
		s.Run()
		c.States += s.States
		if s.Overflow {
			c.Bad("measure", name, where(c, f), "too many paths")
		}
	}
}

func one(r Rat) string {
	for m := range r.N {
		return m
	}
	return "-"
}

// vecHelpers: what the store computes with.
func (c *C) vecHelpers() {
	for _, w := range []struct {
		name string
		want func(a, b Rat) Rat
		two  bool
	}{
		{"VecAdd", func(a, b Rat) Rat { return a.add(b) }, true},
		{"VecSub", func(a, b Rat) Rat { return a.add(b.neg()) }, true},
		{"VecMulScalar", func(a, b Rat) Rat { return a.mul(b) }, false},
		{"VecDivScalar", func(a, b Rat) Rat { return a.div(b) }, false},
	} {
		f := c.Func(pMath, w.name)
		if f == nil {
			c.Bad("helper", w.name, "-", "there is no %s", w.name)
			continue
		}
		g := c.Flat(f, "L0")
		t := g.Terms()
		a, b := t.Of(g.Params[0]), t.Of(g.Params[1])
		same := t.Bin(eqTok, t.Len(a, nil), t.Len(b, nil), nil)
		s := &Sim{G: g, T: t, Track: append(returned(g), same)}
		seen := map[string]bool{}
		s.Exit = func(e *St, ret *eng.Val) {
			x := e.Resolve(t.Of(ret.Args[0]))
			k := ret.Where() + x.String()
			n := newNum(g)
			if w.two {
				ok, isb := e.Resolve(t.Of(ret.Args[1])).Bool()
				eq, known := e.Truth(same)
				if seen[k] {
					return
				}
				seen[k] = true
				if !c.Expect(isb && known && ok == eq, "helper", w.name+" refused", ret.Where(), "vectors of different dimensions are not told apart (path %s)", e.Path()) || !ok {
					return
				}
			}
			if seen[k+"r"] {
				return
			}
			seen[k+"r"] = true
			B := ratAtom(el(b, "@"))
			if !w.two {
				B = n.Of(b)
			}
			got := n.Vec(x, ret)
			c.Expect(got.eq(w.want(ratAtom(el(a, "@")), B)), "helper", w.name, ret.Where(), "returns %v", got)
			c.Expect(n.lenName(x, ret.Blk) == n.lenName(a, ret.Blk) || n.sameLen(x, a), "helper", w.name+" dimension", ret.Where(), "the result may have another dimension")
		}
		s.Run()
		c.States += s.States
	}
}

// sameLen: lists built with one element for each of another list.
func (n *Num) sameLen(x, a *eng.Term) bool {
	m, _ := mapLoop(n.g, n.t, x, nil)
	return m != nil && !m.Filtered && m.Cv.Next == nil && n.lenName(m.Cv.List, m.Cv.L.Head) == n.lenName(a, m.Cv.L.Head)
}

// vecMean: the sum of all that the generator produces, by their number.
func (c *C) vecMean() {
	f := c.Func(pMath, "VecMean")
	if f == nil {
		c.Bad("mean", "VecMean", "-", "there is no VecMean")
		return
	}
	g := c.Flat(f, "L0")
	t := g.Terms()
	gen := t.Of(g.Params[0])
	var calls []*eng.Val
	g.Each(func(v *eng.Val) {
		if v.Op == eng.OpCall && v.Dyn && t.Of(v.Args[0]) == gen {
			calls = append(calls, v)
		}
	})
	var mores []*eng.Term
	for _, v := range calls {
		mores = append(mores, t.Extract(t.Of(v), 1, types.Typ[types.Bool]))
	}
	s := &Sim{G: g, T: t, Track: append(returned(g), mores...)}
	seen := map[string]bool{}
	s.Exit = func(e *St, ret *eng.Val) {
		ok, isb := e.Resolve(t.Of(ret.Args[1])).Bool()
		if isb && !ok {
			return
		}
		x := e.Resolve(t.Of(ret.Args[0]))
		k := ret.Where() + x.String()
		if seen[k] {
			return
		}
		seen[k] = true
		if !c.Expect(isb, "mean", "VecMean ok", ret.Where(), "it is not known whether there is a mean") {
			return
		}
		ended := false
		for _, m := range mores {
			if b, known := e.Truth(m); known && !b {
				ended = true
			}
		}
		c.Expect(ended, "mean", "VecMean all", ret.Where(), "the mean may be taken before all vectors were seen (path %s)", e.Path())
		n := newNum(g)
		got := n.Vec(x, ret)
		sum, num, why := allOf(n, got, calls)
		if !c.Expect(why == "", "mean", "VecMean vectors", ret.Where(), "%s in %v", why, got) {
			return
		}
		c.Expect(got.eq(sum.div(num)), "mean", "VecMean", ret.Where(), "returns %v instead of %v", got, sum.div(num))
	}
	s.Run()
	c.States += s.States
	// one vector at a time
	for _, l := range g.Loops() {
		for i, v := range calls {
			if innermost(v) != l {
				continue
			}
			for _, la := range l.Latches {
				c.Expect(v.Blk.Dominates(la), "mean", "VecMean each", v.Where(), "an iteration may count without a vector")
			}
			for _, w := range calls[:i] {
				c.Expect(innermost(w) != l, "mean", "VecMean one", v.Where(), "several vectors are taken in one iteration")
			}
		}
	}
}

// allOf finds the vectors that make up a mean: every call of the generator has to
// contribute. It gives their sum and their number.
func allOf(n *Num, got Rat, calls []*eng.Val) (sum, num Rat, why string) {
	t := n.t
	sum, num = ratK(0), ratK(0)
	used := map[*eng.Val]bool{}
	first := func(v *eng.Val) *eng.Term { return t.Extract(t.Of(v), 0, v.Typ.(*types.Tuple).At(0).Type()) }
	isFirst := func(x *eng.Term) *eng.Val {
		for _, v := range calls {
			if first(v) == x {
				return v
			}
		}
		return nil
	}
	in := func(x *eng.Term, over string) bool {
		a := el(x, "@")
		if over != "" {
			a = sumAtom(over, a)
		}
		return got.N.has(a)
	}
	for _, v := range calls {
		if used[v] {
			continue
		}
		x := first(v)
		l := innermost(v)
		if l == nil && in(x, "") {
			used[v] = true
			sum, num = sum.add(ratAtom(el(x, "@"))), num.add(ratK(1))
			continue
		}
		if l != nil {
			over, _ := n.over(l)
			if in(x, over) {
				used[v] = true
				sum, num = sum.add(ratAtom(sumAtom(over, el(x, "@")))), num.add(ratAtom(sumAtom(over, "")))
				continue
			}
		}
		// taken before the first iteration and at the end of each one
		for _, l := range n.g.Loops() {
			over, _ := n.over(l)
			for _, p := range l.Head.Instrs {
				if p.Op != eng.OpPhi || !in(t.Of(p), over) {
					continue
				}
				as, _ := t.PhiArgs(t.Of(p))
				all, has := true, false
				for _, a := range as {
					w := isFirst(a)
					if w == nil || used[w] {
						all = false
					}
					if w == v {
						has = true
					}
				}
				if all && has {
					for _, a := range as {
						used[isFirst(a)] = true
					}
					sum, num = sum.add(ratAtom(sumAtom(over, el(t.Of(p), "@")))), num.add(ratAtom(sumAtom(over, "")))
				}
			}
		}
		if !used[v] {
			return sum, num, "the vector taken at " + v.Where() + " is missing"
		}
	}
	if len(calls) == 0 {
		return sum, num, "no vector is taken"
	}
	return sum, num, ""
}

// returned lists what a function returns.
func returned(g *eng.Graph) []*eng.Term {
	var r []*eng.Term
	g.EachOwn(func(v *eng.Val) {
		if v.Op == eng.OpReturn {
			for _, a := range v.Args {
				r = append(r, g.Terms().Of(a))
			}
		}
	})
	return r
}

func init() {
	register("P27", checkP27, Desc{
		How: "Numbers are evaluated symbolically from the SSA form: accumulators of loops that cover all components become sums, vectors are represented by their value at a component (in-place updates, copies and fresh results alike), and the outcome is normalised to a quotient of polynomials. Every exit of a measure or vector helper is compared with the formula it is named after, as rational functions.",
		Rules: map[string]string{
			"measure": "a measure returns its formula over all components", "refused": "vectors of different dimensions, and only those, are refused",
			"zero": "the similarity is 0 exactly if a norm is 0", "helper": "vector arithmetic is componentwise over all components", "mean": "the mean is the sum of all vectors divided by their number",
		},
		Assumes: []string{"floating point rounding, overflow and NaN are set aside: formulas are compared over the reals"},
	})
}
