package rules

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
	"trypocheck/eng"
)

// okMeans: whenever a function that returns a list and a flag returns this value as
// its flag, the list has elements (true) or has none (false).
func (c *C) okMeans(fn *ssa.Function, flag bool) bool {
	key := "okMeans " + fn.String()
	if flag {
		key += " true"
	}
	if r, ok := c.memo[key]; ok {
		return r
	}
	c.memo[key] = false
	r := c.okImplies(fn, flag)
	c.memo[key] = r
	return r
}

func (c *C) okImplies(fn *ssa.Function, flag bool) bool {
	rs := fn.Signature.Results()
	if len(fn.Blocks) == 0 || rs.Len() != 2 || !types.Identical(rs.At(1).Type(), types.Typ[types.Bool]) {
		return false
	}
	if _, ok := rs.At(0).Type().Underlying().(*types.Slice); !ok {
		return false
	}
	g := c.Flat(fn, "L2")
	if g == nil {
		return false
	}
	t := g.Terms()
	b := newBounder(t)
	// at the end of block x, for a list and a flag (possibly joined there)
	var holds func(list, ok *eng.Term, x *eng.Blk, extra []eng.Fact, depth int) bool
	holds = func(list, ok *eng.Term, x *eng.Blk, extra []eng.Fact, depth int) bool {
		if k, isC := ok.Bool(); isC && k != flag {
			return true
		}
		if k, known := t.BlockFacts(x).Truth(ok); known && k != flag {
			return true
		}
		if emptyList(list) {
			return !flag
		}
		facts := b.linear(append(extra, eng.Fact{Cond: ok, Val: flag}))
		n := t.Len(list, x.Last())
		goal_ := goal{n, 0}
		if flag {
			goal_ = goal{b.sub(t.Int(1), n), 0}
		}
		if b.proveWith(goal_, x, len(x.Instrs), 2, facts) {
			return true
		}
		j := ok.JoinBlk()
		if j == nil {
			j = list.JoinBlk()
		}
		if j == nil || depth == 0 || g.LoopAt(j) != nil {
			return false
		}
		part := func(x *eng.Term, p *eng.Blk) *eng.Term {
			if x.JoinBlk() != j {
				return x
			}
			args, preds := t.PhiArgs(x)
			for i, q := range preds {
				if q == p {
					return args[i]
				}
			}
			return nil
		}
		for _, p := range j.Preds {
			l, o := part(list, p), part(ok, p)
			if l == nil || o == nil || !holds(l, o, p, t.EdgeFacts(p, j).List(), depth-1) {
				return false
			}
		}
		return true
	}
	for _, ret := range g.Exits {
		if len(ret.Args) != 2 || !holds(t.Of(ret.Args[0]), t.Of(ret.Args[1]), ret.Blk, nil, 4) {
			return false
		}
	}
	return len(g.Exits) > 0
}
