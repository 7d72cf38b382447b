package rules

import (
	"fmt"

	"golang.org/x/tools/go/ssa"

	"trypocheck/eng"
)

// recvMap tells whether a list is the map behind the receiver.
func recvMap(g *eng.Graph, t *eng.Terms, x *eng.Term) bool {
	r := t.Of(g.Params[0])
	return x == r || x.Op == eng.OpLoad && x.Path.Root == r && len(x.Path.Steps) == 0
}

// agreement is the state of a walk over all collected values.
type agreement struct{ ex, bad, unk, cur string }

func (a agreement) String() string { return a.ex + a.cur + a.bad + a.unk }

func parseAgreement(s string) agreement {
	return agreement{ex: s[0:1], cur: s[1:2], bad: s[2:3], unk: s[3:4]}
}

// walkAll runs paths over a loop over the receiver's map. test tells what a
// condition says about the current element: 'y' fine, 'n' not fine, 0 nothing.
func (c *C) walkAll(f *ssa.Function, rule string, test func(g *eng.Graph, t *eng.Terms, cv *Cover, cond *eng.Term, val bool) byte, exit func(e *St, t *eng.Terms, cv *Cover, ret *eng.Val, a agreement) string) {
	g := c.Flat(f, "L1")
	if g == nil {
		return
	}
	t := g.Terms()
	var cv *Cover
	for _, l := range g.Loops() {
		if x := cover(t, l); x != nil && recvMap(g, t, x.List) {
			cv = x
		}
	}
	if cv == nil {
		c.Bad(rule, fnName(f), where(c, f), "does not visit everything that was collected")
		return
	}
	ok := true
	s := &Sim{G: g, T: t, Start: agreement{"0", "?", "0", "0"}.String()}
	for _, e := range g.Exits {
		for _, a := range e.Args {
			s.Track = append(s.Track, t.Of(a))
		}
	}
	s.Branch = func(e *St, cond *eng.Term, val bool) {
		if r := test(g, t, cv, cond, val); r != 0 {
			a := parseAgreement(e.A)
			if a.cur != "n" {
				a.cur = string(r)
			}
			e.A = a.String()
		}
	}
	s.Edge = func(e *St, from, to *eng.Blk) bool {
		a := parseAgreement(e.A)
		switch {
		case from == cv.Exit.From && to == cv.Exit.To:
			a.ex = "1"
		case to == cv.L.Head && cv.L.Blocks[from]:
			if a.cur == "n" {
				a.bad = "1"
			}
			if a.cur == "?" {
				a.unk = "1"
			}
			a.cur = "?"
		}
		e.A = a.String()
		return true
	}
	n := 0
	s.Exit = func(e *St, ret *eng.Val) {
		n++
		if m := exit(e, t, cv, ret, parseAgreement(e.A)); m != "" {
			ok = false
			c.Bad(rule, fnName(f), ret.Where(), "%s (path %s)", m, e.Path())
		}
	}
	s.Run()
	c.States += s.States
	if s.Overflow {
		c.Bad(rule, fnName(f), where(c, f), "too many paths")
	} else if ok && n > 0 {
		c.OK(rule, fnName(f), where(c, f))
	}
}

// eqCond reads x==y / x!=y: what the condition being val means for equality.
func eqCond(cond *eng.Term, val bool) (x, y *eng.Term, equal, ok bool) {
	for cond.Op == eng.OpUn && cond.Aux == "!" {
		cond, val = cond.Args[0], !val
	}
	if cond.Op != eng.OpBin || len(cond.Args) != 2 {
		return
	}
	x, y = cond.Args[0], cond.Args[1]
	switch cond.Aux {
	case "==":
		return x, y, val, true
	case "!=":
		return x, y, !val, true
	}
	return
}

// eqTerms: like eqCond, also for differences of integers compared with zero.
func eqTerms(t *eng.Terms, cond *eng.Term, val bool) (x, y *eng.Term, equal, ok bool) {
	x, y, equal, ok = eqCond(cond, val)
	if !ok {
		return
	}
	if n, isC := y.Int(); isC && n == 0 {
		m, k := t.Lin(x)
		if k == 0 && len(m) == 2 {
			var a, b *eng.Term
			for z, c := range m {
				if c == 1 {
					a = z
				} else if c == -1 {
					b = z
				}
			}
			if a != nil && b != nil {
				return a, b, equal, true
			}
		}
	}
	return
}

func checkP26(c *C) {
	if f := c.Method(pArb, "ArbStats", "UniformStatus"); f != nil {
		c.walkAll(f, "uniform", func(g *eng.Graph, t *eng.Terms, cv *Cover, cond *eng.Term, val bool) byte {
			x, y, eq, ok := eqTerms(t, cond, val)
			if !ok {
				return 0
			}
			want := t.Of(g.Params[1])
			if y != want {
				x, y = y, x
			}
			if y != want {
				return 0
			}
			if fs, ok := cv.ElemOf(t, x); ok && len(fs) == 0 || mapElem(t, cv, x) {
				if eq {
					return 'y'
				}
				return 'n'
			}
			return 0
		}, func(e *St, t *eng.Terms, cv *Cover, ret *eng.Val, a agreement) string {
			v, known := e.Truth(t.Of(ret.Args[0]))
			if !known {
				return fmt.Sprintf("the result %v is not understood", e.Resolve(t.Of(ret.Args[0])))
			}
			if v && (a.ex != "1" || a.bad == "1" || a.unk == "1") {
				return "reports a uniform status without every collected status being known to equal it"
			}
			if !v && a.bad != "1" && a.cur != "n" {
				return "denies a uniform status although no collected status differs"
			}
			return ""
		})
	}
	if f := c.Method(pArb, "ArbErrs", "CheckAll"); f != nil {
		c.walkAll(f, "errors", func(g *eng.Graph, t *eng.Terms, cv *Cover, cond *eng.Term, val bool) byte {
			x, y, eq, ok := eqCond(cond, val)
			if !ok {
				return 0
			}
			if x.IsNil() {
				x, y = y, x
			}
			if !y.IsNil() {
				return 0
			}
			if fs, ok := cv.ElemOf(t, x); ok && len(fs) == 0 || mapElem(t, cv, x) {
				if eq {
					return 'y'
				}
				return 'n'
			}
			return 0
		}, func(e *St, t *eng.Terms, cv *Cover, ret *eng.Val, a agreement) string {
			addr, err := e.Resolve(t.Of(ret.Args[0])), e.Resolve(t.Of(ret.Args[1]))
			if err.IsNil() {
				if a.ex != "1" || a.bad == "1" || a.unk == "1" {
					return "reports no error without every collected error being known to be nil"
				}
				return ""
			}
			if fs, ok := cv.ElemOf(t, err); !(ok && len(fs) == 0 || mapElem(t, cv, err)) {
				return fmt.Sprintf("reports %v, which is not a collected error", err)
			}
			if !isKeyOf(cv, addr) {
				return fmt.Sprintf("reports the error with %v, which is not the address it was collected for", addr)
			}
			if a.cur != "n" {
				// returning a nil error before everything was looked at
				return "stops at an error that may be nil"
			}
			return ""
		})
	}
	c.Min("uniform", 1)
	c.Min("errors", 1)
}

// mapElem: the map's value looked up under the current key.
func mapElem(t *eng.Terms, cv *Cover, x *eng.Term) bool {
	if x.Op == eng.OpExtract && x.Aux == "0" {
		x = x.Args[0]
	}
	return x.Op == eng.OpLookup && x.Args[0] == cv.List && isKeyOf(cv, x.Args[1])
}

func init() {
	register("P26", checkP26, Desc{
		How:   "All paths of the two arbiter helpers are walked with an automaton that tracks, for the loop over the collected values, whether the current one was compared, whether one differed and whether the loop ran to its end; what is returned has to agree with that.",
		Rules: map[string]string{"uniform": "true only after comparing every status, false only after one differed", "errors": "nil only after every error was seen to be nil; otherwise the current error with its own key"},
	})
}
