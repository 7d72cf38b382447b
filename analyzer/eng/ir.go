package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the kind of an instruction or value of a flattened graph.
type Op string

// Kinds of values.
const (
	OpConst     Op = "const"
	OpGlobal    Op = "global"
	OpFunc      Op = "func"
	OpParam     Op = "param"
	OpFreeVar   Op = "freevar"
	OpUnknown   Op = "unknown"
	OpNondet    Op = "nondet"
	OpAlloc     Op = "alloc"
	OpPhi       Op = "phi"
	OpBin       Op = "bin"
	OpUn        Op = "un"
	OpLoad      Op = "load"
	OpRecv      Op = "recv"
	OpConv      Op = "conv"
	OpIface     Op = "iface"
	OpAssert    Op = "assert"
	OpExtract   Op = "extract"
	OpField     Op = "field"
	OpFieldAddr Op = "fieldaddr"
	OpIndex     Op = "index"
	OpIndexAddr Op = "indexaddr"
	OpSlice     Op = "slice"
	OpMakeSlice Op = "makeslice"
	OpMakeMap   Op = "makemap"
	OpMakeChan  Op = "makechan"
	OpClosure   Op = "closure"
	OpLookup    Op = "lookup"
	OpRange     Op = "range"
	OpNext      Op = "next"
	OpTuple     Op = "tuple"
	OpCall      Op = "call"
	OpAppend    Op = "append"
	OpLen       Op = "len"
	OpCap       Op = "cap"
	OpCopy      Op = "copy"
	OpDelete    Op = "delete"
	OpClose     Op = "close"
	OpStore     Op = "store"
	OpMapUpdate Op = "mapupdate"
	OpSend      Op = "send"
	OpGo        Op = "go"
	OpSelect    Op = "select"
	OpIf        Op = "if"
	OpJump      Op = "jump"
	OpReturn    Op = "return"
	OpPanic     Op = "panic"
	// Markers of inlining; they have no effect.
	OpEnter Op = "enter"
	OpLeave Op = "leave"
)

// Val is an instruction and/or value of a flattened graph.
type Val struct {
	ID   int
	Op   Op
	Args []*Val
	Typ  types.Type
	Pos  token.Pos
	Ctx  *Ctx
	Blk  *Blk
	Src  ssa.Instruction // may be nil
	SrcV ssa.Value       // may be nil

	Const   constant.Value // OpConst; nil means nil/zero
	Tok     token.Token    // OpBin, OpUn
	Index   int            // OpField, OpFieldAddr, OpExtract, OpParam
	Fn      *ssa.Function  // OpFunc, OpClosure, OpCall (static), OpEnter, OpLeave
	Method  *types.Func    // OpCall (invoke)
	Dyn     bool           // OpCall through a function value: Args[0] is the function
	CommaOk bool
	Global  *ssa.Global
	Sub     *Graph // OpGo: the flattened body, if known
	Cands   []*Val // OpNondet dispatch
	Target  *Val   // OpNondet dispatch: the function value
	Note    string
	g       *Graph
}

// Graph gives the graph a value belongs to.
func (v *Val) Graph() *Graph { return v.g }

// Ctx is an inlining context.
type Ctx struct {
	Parent *Ctx
	Fn     *ssa.Function
	Site   token.Pos // call site in the parent
	Key    string
	Depth  int
}

// Blk is a basic block of a flattened graph.
type Blk struct {
	ID     int
	Instrs []*Val
	Preds  []*Blk
	Succs  []*Blk
	Ctx    *Ctx
	G      *Graph

	Idom   *Blk
	domSub []*Blk
	domPre int
	domPst int
	rpo    int
}

// Last gives the terminator of a block.
func (b *Blk) Last() *Val {
	if len(b.Instrs) == 0 {
		return nil
	}
	return b.Instrs[len(b.Instrs)-1]
}

// Graph is a flattened function.
type Graph struct {
	P      *Prog
	Fn     *ssa.Function
	Entry  *Blk
	Blocks []*Blk // reachable, reverse postorder
	Params []*Val
	Free   []*Val
	Exits  []*Val // OpReturn values
	Parent *Graph // for go bodies
	GoVal  *Val

	st    *flatState
	terms *Terms
	loops []*Loop
	facts map[*Blk]*FactSet
	reach map[*Blk]map[*Blk]bool
}

// Opts configures flattening.
type Opts struct {
	// Opaque functions are kept as calls.
	Opaque func(*ssa.Function) bool
}

type flatState struct {
	p        *Prog
	opts     Opts
	nextID   int
	nextBlk  int
	resolved map[string][]string // dynamic call key -> closure instance keys
	named    map[string]*Val     // "func:..." key -> a value that is that function
	inst     map[string]*Val     // closure instance key -> value
	dyn      []*Val              // unresolved dynamic calls
	passed   map[string]*Val     // functions in variables that are passed to opaque calls
	goVals   []*Val
	size     int
}

const maxSize = 60000
const maxDepth = 24

// Flatten virtually inlines everything reachable from fn that is not opaque.
func (p *Prog) Flatten(fn *ssa.Function, opts Opts) (*Graph, error) {
	if fn == nil || len(fn.Blocks) == 0 {
		return nil, fmt.Errorf("no body to analyse")
	}
	resolved := map[string][]string{}
	named := map[string]*Val{}
	var g *Graph
	for iter := 0; iter < 8; iter++ {
		st := &flatState{p: p, opts: opts, resolved: resolved, named: named, inst: map[string]*Val{}, passed: map[string]*Val{}}
		g = &Graph{P: p, Fn: fn, st: st}
		if err := g.build(fn, nil, nil, nil); err != nil {
			return nil, err
		}
		changed := false
		for key, a := range st.passed {
			if _, ok := resolved[key]; ok || a.Blk == nil || !a.Blk.reachable() {
				continue
			}
			if cands := a.g.resolveFuncs(a); len(cands) == 1 && cands[0].Op == OpClosure {
				resolved[key] = []string{instKey(cands[0])}
				changed = true
			}
		}
		for _, c := range st.dyn {
			key := callKey(c)
			if _, ok := resolved[key]; ok {
				continue
			}
			if c.Blk == nil || !c.Blk.reachable() {
				continue
			}
			cands := c.g.resolveFuncs(c.Args[0])
			if len(cands) == 0 {
				continue
			}
			var keys []string
			for _, cv := range cands {
				keys = append(keys, instKey(cv))
				if cv.Op == OpFunc {
					named[instKey(cv)] = cv
				}
			}
			resolved[key] = keys
			changed = true
		}
		if !changed {
			break
		}
	}
	return g, nil
}

func (b *Blk) reachable() bool { return b.rpo > 0 }

func callKey(c *Val) string { return c.Ctx.Key + "@" + c.Note }

func instKey(v *Val) string {
	if v.Op == OpFunc {
		return "func:" + v.Fn.String()
	}
	return v.Ctx.Key + "#" + v.Note
}

func siteID(i ssa.Instruction) string {
	b := i.Block()
	for k, x := range b.Instrs {
		if x == i {
			return fmt.Sprintf("%d.%d", b.Index, k)
		}
	}
	return fmt.Sprintf("%d.?", b.Index)
}

func (g *Graph) newVal(op Op, t types.Type, pos token.Pos, ctx *Ctx) *Val {
	g.st.nextID++
	g.st.size++
	return &Val{ID: g.st.nextID, Op: op, Typ: t, Pos: pos, Ctx: ctx, g: g}
}

func (g *Graph) newBlk(ctx *Ctx) *Blk {
	g.st.nextBlk++
	return &Blk{ID: g.st.nextBlk, Ctx: ctx, G: g}
}

func (g *Graph) build(fn *ssa.Function, args, free []*Val, parent *Ctx) error {
	ctx := &Ctx{Fn: fn, Key: fn.String()}
	if parent != nil {
		ctx.Parent = parent
		ctx.Key = parent.Key + "/go:" + fn.String()
		ctx.Depth = parent.Depth + 1
	}
	if args == nil {
		for i, p := range fn.Params {
			v := g.newVal(OpParam, p.Type(), p.Pos(), ctx)
			v.Index = i
			v.SrcV = p
			args = append(args, v)
		}
	}
	if free == nil {
		for i, p := range fn.FreeVars {
			v := g.newVal(OpFreeVar, p.Type(), p.Pos(), ctx)
			v.Index = i
			v.SrcV = p
			free = append(free, v)
		}
	}
	g.Params, g.Free = args, free
	g.Entry = g.newBlk(ctx)
	exits, err := g.inline(fn, args, free, ctx, g.Entry)
	if err != nil {
		return err
	}
	for _, e := range exits {
		r := g.newVal(OpReturn, nil, e.pos, ctx)
		r.Args = e.res
		r.Src = e.src
		e.blk.add(r)
		g.Exits = append(g.Exits, r)
	}
	g.finish()
	return nil
}

func (b *Blk) add(v *Val) {
	v.Blk = b
	b.Instrs = append(b.Instrs, v)
}

func edge(a, b *Blk) {
	a.Succs = append(a.Succs, b)
	b.Preds = append(b.Preds, a)
}

type exit struct {
	blk *Blk
	res []*Val
	pos token.Pos
	src ssa.Instruction
}

type inliner struct {
	g      *Graph
	fn     *ssa.Function
	ctx    *Ctx
	vals   map[ssa.Value]*Val
	first  map[*ssa.BasicBlock]*Blk
	last   map[*ssa.BasicBlock]*Blk
	phis   []phiFix
	exits  []exit
	defers []*deferred
	cells  map[*ssa.Defer]*Val
	cur    *Blk
	err    error
}

type phiFix struct {
	v   *Val
	phi *ssa.Phi
}

type deferred struct {
	d    *ssa.Defer
	args []*Val
	ran  *Val // the cell that says whether it was deferred; nil if always
}

func boolVal(g *Graph, ctx *Ctx, pos token.Pos, b bool) *Val {
	v := g.newVal(OpConst, types.Typ[types.Bool], pos, ctx)
	v.Const = constant.MakeBool(b)
	return v
}

// deferCells makes a cell for each defer statement that is not run on
// every path to the end of the function, initially false.
func (in *inliner) deferCells(order []*ssa.BasicBlock) {
	var ends []*ssa.BasicBlock
	for _, b := range order {
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.RunDefers); ok {
				ends = append(ends, b)
			}
		}
	}
	for _, b := range order {
		for _, ins := range b.Instrs {
			d, ok := ins.(*ssa.Defer)
			if !ok {
				continue
			}
			always := true
			for _, e := range ends {
				always = always && b.Dominates(e)
			}
			if always || cyclic(b) {
				continue
			}
			cell := in.g.newVal(OpAlloc, types.NewPointer(types.Typ[types.Bool]), d.Pos(), in.ctx)
			in.cur.add(cell)
			in.setCell(cell, false, d.Pos())
			in.cells[d] = cell
		}
	}
}

func (in *inliner) setCell(cell *Val, b bool, pos token.Pos) {
	s := in.g.newVal(OpStore, nil, pos, in.ctx)
	s.Args = []*Val{cell, boolVal(in.g, in.ctx, pos, b)}
	in.cur.add(s)
}

// cyclic reports whether b can be reached from itself.
func cyclic(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	todo := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if x == b {
			return true
		}
		if !seen[x] {
			seen[x] = true
			todo = append(todo, x.Succs...)
		}
	}
	return false
}

func (g *Graph) inline(fn *ssa.Function, args, free []*Val, ctx *Ctx, entry *Blk) ([]exit, error) {
	if g.st.size > maxSize {
		return nil, fmt.Errorf("%s: flattened program too large", fn)
	}
	in := &inliner{g: g, fn: fn, ctx: ctx, vals: map[ssa.Value]*Val{},
		first: map[*ssa.BasicBlock]*Blk{}, last: map[*ssa.BasicBlock]*Blk{},
		cells: map[*ssa.Defer]*Val{}}
	for i, p := range fn.Params {
		in.vals[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		in.vals[p] = free[i]
	}
	order := rpoSSA(fn)
	for i, b := range order {
		if i == 0 {
			in.first[b] = entry
			continue
		}
		in.first[b] = g.newBlk(ctx)
	}
	for i, b := range order {
		in.cur = in.first[b]
		if i == 0 {
			in.deferCells(order)
		}
		for _, ins := range b.Instrs {
			in.instr(ins)
			if in.err != nil {
				return nil, in.err
			}
			if in.cur == nil {
				break
			}
		}
		if in.cur != nil {
			in.last[b] = in.cur
		}
	}
	// Wire the blocks in the order of the original edges.
	for _, b := range order {
		l := in.last[b]
		if l == nil {
			continue
		}
		for _, s := range b.Succs {
			l.Succs = append(l.Succs, in.first[s])
		}
	}
	for _, b := range order {
		f := in.first[b]
		for _, p := range b.Preds {
			// nil for predecessors that never get here (dead or ending in a panic)
			f.Preds = append(f.Preds, in.last[p])
		}
	}
	for _, pf := range in.phis {
		for i, e := range pf.phi.Edges {
			if pf.v.Blk.Preds[i] == nil {
				pf.v.Args = append(pf.v.Args, nil)
				continue
			}
			pf.v.Args = append(pf.v.Args, in.val(e))
		}
	}
	// Drop missing predecessors.
	for _, b := range order {
		f := in.first[b]
		var np []*Blk
		var keep []int
		for i, p := range f.Preds {
			if p != nil {
				np = append(np, p)
				keep = append(keep, i)
			}
		}
		if len(np) != len(f.Preds) {
			for _, v := range f.Instrs {
				if v.Op == OpPhi && len(v.Args) == len(f.Preds) {
					var na []*Val
					for _, k := range keep {
						na = append(na, v.Args[k])
					}
					v.Args = na
				}
			}
			f.Preds = np
		}
	}
	return in.exits, nil
}

func rpoSSA(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

func (in *inliner) val(v ssa.Value) *Val {
	if x, ok := in.vals[v]; ok {
		return x
	}
	g := in.g
	var r *Val
	switch v := v.(type) {
	case *ssa.Const:
		r = g.newVal(OpConst, v.Type(), v.Pos(), in.ctx)
		r.Const = v.Value
	case *ssa.Global:
		r = g.newVal(OpGlobal, v.Type(), v.Pos(), in.ctx)
		r.Global = v
	case *ssa.Function:
		r = g.newVal(OpFunc, v.Type(), v.Pos(), in.ctx)
		r.Fn = v
		g.st.inst["func:"+v.String()] = r
	case *ssa.Builtin:
		r = g.newVal(OpUnknown, v.Type(), v.Pos(), in.ctx)
		r.Note = "builtin " + v.Name()
	default:
		r = g.newVal(OpUnknown, v.Type(), v.Pos(), in.ctx)
		r.Note = "undefined " + v.Name()
	}
	r.SrcV = v
	in.vals[v] = r
	return r
}

func (in *inliner) emit(op Op, ins ssa.Instruction, args ...*Val) *Val {
	var t types.Type
	v, isVal := ins.(ssa.Value)
	if isVal {
		t = v.Type()
	}
	x := in.g.newVal(op, t, ins.Pos(), in.ctx)
	x.Src = ins
	if isVal {
		x.SrcV = v
		in.vals[v] = x
	}
	x.Args = args
	in.cur.add(x)
	return x
}

func (in *inliner) instr(ins ssa.Instruction) {
	switch i := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		in.emit(OpAlloc, i)
	case *ssa.Phi:
		x := in.emit(OpPhi, i)
		in.phis = append(in.phis, phiFix{x, i})
	case *ssa.BinOp:
		x := in.emit(OpBin, i, in.val(i.X), in.val(i.Y))
		x.Tok = i.Op
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL:
			in.emit(OpLoad, i, in.val(i.X))
		case token.ARROW:
			x := in.emit(OpRecv, i, in.val(i.X))
			x.CommaOk = i.CommaOk
		default:
			x := in.emit(OpUn, i, in.val(i.X))
			x.Tok = i.Op
		}
	case *ssa.ChangeType:
		in.vals[i] = in.val(i.X)
		// The value keeps its identity; only the static type differs.
	case *ssa.Convert:
		in.emit(OpConv, i, in.val(i.X))
	case *ssa.MultiConvert:
		in.emit(OpConv, i, in.val(i.X))
	case *ssa.ChangeInterface:
		in.vals[i] = in.val(i.X)
	case *ssa.SliceToArrayPointer:
		in.emit(OpConv, i, in.val(i.X))
	case *ssa.MakeInterface:
		in.emit(OpIface, i, in.val(i.X))
	case *ssa.TypeAssert:
		x := in.emit(OpAssert, i, in.val(i.X))
		x.CommaOk = i.CommaOk
	case *ssa.Extract:
		t := in.val(i.Tuple)
		if t.Op == OpTuple {
			in.vals[i] = t.Args[i.Index]
			return
		}
		x := in.emit(OpExtract, i, t)
		x.Index = i.Index
	case *ssa.Field:
		x := in.emit(OpField, i, in.val(i.X))
		x.Index = i.Field
	case *ssa.FieldAddr:
		x := in.emit(OpFieldAddr, i, in.val(i.X))
		x.Index = i.Field
	case *ssa.Index:
		in.emit(OpIndex, i, in.val(i.X), in.val(i.Index))
	case *ssa.IndexAddr:
		in.emit(OpIndexAddr, i, in.val(i.X), in.val(i.Index))
	case *ssa.Lookup:
		x := in.emit(OpLookup, i, in.val(i.X), in.val(i.Index))
		x.CommaOk = i.CommaOk
	case *ssa.Slice:
		// Args: x, low, high, max (nil when absent)
		a := []*Val{in.val(i.X), nil, nil, nil}
		for k, b := range []ssa.Value{i.Low, i.High, i.Max} {
			if b != nil {
				a[k+1] = in.val(b)
			}
		}
		in.emit(OpSlice, i, a...)
	case *ssa.MakeSlice:
		in.emit(OpMakeSlice, i, in.val(i.Len), in.val(i.Cap))
	case *ssa.MakeMap:
		x := in.emit(OpMakeMap, i)
		if i.Reserve != nil {
			x.Args = []*Val{in.val(i.Reserve)}
		}
	case *ssa.MakeChan:
		in.emit(OpMakeChan, i, in.val(i.Size))
	case *ssa.MakeClosure:
		var a []*Val
		for _, b := range i.Bindings {
			a = append(a, in.val(b))
		}
		x := in.emit(OpClosure, i, a...)
		x.Fn = i.Fn.(*ssa.Function)
		x.Note = siteID(i)
		in.g.st.inst[instKey(x)] = x
	case *ssa.Range:
		in.emit(OpRange, i, in.val(i.X))
	case *ssa.Next:
		x := in.emit(OpNext, i, in.val(i.Iter))
		if i.IsString {
			x.Note = "string"
		}
	case *ssa.Select:
		x := in.emit(OpSelect, i)
		for _, s := range i.States {
			x.Args = append(x.Args, in.val(s.Chan))
			if s.Send != nil {
				x.Args = append(x.Args, in.val(s.Send))
			}
		}
	case *ssa.Store:
		in.emit(OpStore, i, in.val(i.Addr), in.val(i.Val))
	case *ssa.MapUpdate:
		in.emit(OpMapUpdate, i, in.val(i.Map), in.val(i.Key), in.val(i.Value))
	case *ssa.Send:
		in.emit(OpSend, i, in.val(i.Chan), in.val(i.X))
	case *ssa.If:
		in.emit(OpIf, i, in.val(i.Cond))
	case *ssa.Jump:
		in.emit(OpJump, i)
	case *ssa.Panic:
		in.emit(OpPanic, i, in.val(i.X))
		in.cur = nil
	case *ssa.Return:
		e := exit{blk: in.cur, pos: i.Pos(), src: i}
		for _, r := range i.Results {
			e.res = append(e.res, in.val(r))
		}
		in.exits = append(in.exits, e)
		in.cur = nil
	case *ssa.Defer:
		d := &deferred{d: i}
		if i.Call.IsInvoke() {
			d.args = append(d.args, in.val(i.Call.Value))
		} else if i.Call.StaticCallee() == nil || len(i.Call.Args) == 0 || true {
			d.args = append(d.args, in.val(i.Call.Value))
		}
		for _, a := range i.Call.Args {
			d.args = append(d.args, in.val(a))
		}
		if d.ran = in.cells[i]; d.ran != nil {
			in.setCell(d.ran, true, i.Pos())
		}
		in.defers = append(in.defers, d)
	case *ssa.RunDefers:
		for k := len(in.defers) - 1; k >= 0; k-- {
			d := in.defers[k]
			if d.d.Block() == i.Block() || d.d.Block().Dominates(i.Block()) {
				in.call(d.d, &d.d.Call, d.args, true)
			} else {
				// Not deferred on every path: may or may not run.
				var c *Val
				if d.ran != nil {
					c = in.g.newVal(OpLoad, types.Typ[types.Bool], d.d.Pos(), in.ctx)
					c.Args = []*Val{d.ran}
				} else {
					c = in.g.newVal(OpNondet, types.Typ[types.Bool], d.d.Pos(), in.ctx)
					c.Note = "deferred?"
				}
				in.cur.add(c)
				f := in.g.newVal(OpIf, nil, d.d.Pos(), in.ctx)
				f.Args = []*Val{c}
				in.cur.add(f)
				from, yes, cont := in.cur, in.g.newBlk(in.ctx), in.g.newBlk(in.ctx)
				edge(from, yes)
				in.cur = yes
				in.call(d.d, &d.d.Call, d.args, true)
				if in.cur != nil {
					in.cur.add(in.g.newVal(OpJump, nil, d.d.Pos(), in.ctx))
					edge(in.cur, cont)
				}
				edge(from, cont)
				in.cur = cont
			}
			if in.cur == nil {
				return
			}
		}
	case *ssa.Go:
		in.goStmt(i)
	case *ssa.Call:
		var a []*Val
		a = append(a, nil)
		if _, ok := i.Call.Value.(*ssa.Builtin); !ok {
			a[0] = in.val(i.Call.Value)
		}
		for _, x := range i.Call.Args {
			a = append(a, in.val(x))
		}
		in.call(i, &i.Call, a, false)
	default:
		in.err = fmt.Errorf("%s: unsupported instruction %T", in.fn, ins)
	}
}

// target finds the function and bindings that a call runs, if known.
func (in *inliner) target(c *ssa.CallCommon, args []*Val) (fn *ssa.Function, free, callArgs []*Val) {
	if c.IsInvoke() {
		recv := args[0]
		if recv.Op == OpIface {
			t := recv.Args[0].Typ
			if f := in.g.P.SSA.LookupMethod(t, c.Method.Pkg(), c.Method.Name()); f != nil {
				return f, nil, append([]*Val{recv.Args[0]}, args[1:]...)
			}
		}
		return nil, nil, nil
	}
	fv := args[0]
	if fv == nil {
		return nil, nil, nil
	}
	switch fv.Op {
	case OpFunc:
		return fv.Fn, nil, args[1:]
	case OpClosure:
		return fv.Fn, fv.Args, args[1:]
	}
	return nil, nil, nil
}

func (in *inliner) depthOf(fn *ssa.Function) int {
	n := 0
	for c := in.ctx; c != nil; c = c.Parent {
		if c.Fn == fn {
			n++
		}
	}
	return n
}

func (in *inliner) inlinable(fn *ssa.Function) bool {
	if fn == nil || len(fn.Blocks) == 0 {
		return false
	}
	if !in.g.P.InModule(fn) && !in.moduleWrapper(fn) {
		return false
	}
	if in.g.st.opts.Opaque != nil && in.g.st.opts.Opaque(fn) && !methodWrapper(fn) {
		return false
	}
	return in.depthOf(fn) == 0 && in.ctx.Depth < maxDepth
}

// methodWrapper: the function behind a method value or method expression, which
// only calls the method.
func methodWrapper(fn *ssa.Function) bool {
	return fn.Synthetic != "" && (strings.HasSuffix(fn.Name(), "$thunk") || strings.HasSuffix(fn.Name(), "$bound"))
}

// moduleWrapper: synthetic wrappers (bound methods, thunks, promoted methods).
func (in *inliner) moduleWrapper(fn *ssa.Function) bool {
	return fn.Synthetic != "" && in.g.P.InModule(fn)
}

func (in *inliner) call(ins ssa.CallInstruction, c *ssa.CallCommon, args []*Val, isDefer bool) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		a := args[1:]
		if isDefer {
			a = args[1:]
		}
		in.builtin(ins, b, a)
		return
	}
	fn, free, cargs := in.target(c, args)
	if fn != nil && in.inlinable(fn) {
		in.splice(ins, fn, free, cargs, isDefer, siteID(ins))
		return
	}
	if fn == nil && !c.IsInvoke() {
		key := in.ctx.Key + "@" + siteID(ins)
		if insts, ok := in.g.st.resolved[key]; ok {
			var cands []*Val
			for _, k := range insts {
				if v := in.g.st.inst[k]; v != nil {
					cands = append(cands, v)
				} else if v := in.g.st.named[k]; v != nil && len(insts) > 1 {
					f := in.g.newVal(OpFunc, v.Typ, v.Pos, in.ctx)
					f.Fn = v.Fn
					cands = append(cands, f)
				} else {
					cands = nil
					break
				}
			}
			if len(cands) == len(insts) && len(cands) > 0 {
				ok := true
				for _, cv := range cands {
					if !in.inlinable(cv.Fn) && (cv.Op != OpFunc || len(cands) < 2) {
						ok = false
					}
				}
				if ok {
					in.dispatch(ins, args[0], cands, args[1:], isDefer)
					return
				}
			}
		}
	}
	// Opaque call. Closures passed along may be invoked any number of times.
	in.callbacks(ins, args)
	if in.err != nil {
		return
	}
	var x *Val
	if isDefer {
		x = in.g.newVal(OpCall, nil, ins.Pos(), in.ctx)
		x.Src = ins
		in.cur.add(x)
	} else {
		x = in.emit(OpCall, ins.(ssa.Instruction))
	}
	x.Note = siteID(ins)
	switch {
	case c.IsInvoke():
		if fn != nil { // devirtualised
			x.Fn = fn
			x.Args = cargs
		} else {
			x.Method = c.Method
			x.Args = args
		}
	case fn != nil:
		x.Fn = fn
		x.Args = cargs
		if len(free) > 0 {
			x.Args = append(append([]*Val{}, cargs...), free...)
		}
	default:
		x.Dyn = true
		x.Args = args
		in.g.st.dyn = append(in.g.st.dyn, x)
	}
}

// callbacks models an opaque callee that may invoke the closures it is given.
func (in *inliner) callbacks(ins ssa.CallInstruction, args []*Val) {
	var fs []*Val
	for k, a := range args {
		if a == nil {
			continue
		}
		if a.Op == OpLoad && k > 0 {
			if _, isF := a.Typ.Underlying().(*types.Signature); isF {
				key := fmt.Sprint(in.ctx.Key, "@", siteID(ins), "#", k)
				if insts := in.g.st.resolved[key]; len(insts) == 1 && in.g.st.inst[insts[0]] != nil {
					a = in.g.st.inst[insts[0]]
				} else {
					in.g.st.passed[key] = a
				}
			}
		}
		if (a.Op == OpClosure || a.Op == OpFunc && a != args[0]) && in.inlinable(a.Fn) {
			fs = append(fs, a)
		}
	}
	if len(fs) == 0 {
		return
	}
	g := in.g
	head := g.newBlk(in.ctx)
	in.cur.add(g.newVal(OpJump, nil, ins.Pos(), in.ctx))
	edge(in.cur, head)
	cont := g.newBlk(in.ctx)
	at := head
	for k, f := range fs {
		nd := g.newVal(OpNondet, types.Typ[types.Bool], ins.Pos(), in.ctx)
		nd.Note = "invoked by callee?"
		at.add(nd)
		iff := g.newVal(OpIf, nil, ins.Pos(), in.ctx)
		iff.Args = []*Val{nd}
		at.add(iff)
		body := g.newBlk(in.ctx)
		next := cont
		if k < len(fs)-1 {
			next = g.newBlk(in.ctx)
		}
		edge(at, body)
		edge(at, next)
		in.cur = body
		var a []*Val
		sig := f.Fn.Signature
		for i := 0; i < sig.Params().Len(); i++ {
			u := g.newVal(OpUnknown, sig.Params().At(i).Type(), ins.Pos(), in.ctx)
			u.Note = "callback argument"
			u.Cands = args
			body.add(u)
			a = append(a, u)
		}
		in.spliceRaw(ins.Pos(), f.Fn, f.Args, a, fmt.Sprintf("%s.cb%d", siteID(ins), k))
		if in.err != nil {
			return
		}
		if in.cur != nil {
			in.cur.add(g.newVal(OpJump, nil, ins.Pos(), in.ctx))
			edge(in.cur, head)
		}
		at = next
	}
	in.cur = cont
}

// spliceRaw inlines fn at the current block and returns its results.
func (in *inliner) spliceRaw(pos token.Pos, fn *ssa.Function, free, args []*Val, site string) []*Val {
	g := in.g
	ctx := &Ctx{Parent: in.ctx, Fn: fn, Site: pos, Key: in.ctx.Key + "/" + site + ":" + fn.Name(), Depth: in.ctx.Depth + 1}
	entry := g.newBlk(ctx)
	ent := g.newVal(OpEnter, nil, pos, ctx)
	ent.Fn = fn
	ent.Args = args
	in.cur.add(ent)
	in.cur.add(g.newVal(OpJump, nil, pos, in.ctx))
	edge(in.cur, entry)
	exits, err := g.inline(fn, args, free, ctx, entry)
	if err != nil {
		in.err = err
		return nil
	}
	if len(exits) == 0 {
		in.cur = nil
		return nil
	}
	cont := g.newBlk(in.ctx)
	n := fn.Signature.Results().Len()
	res := make([]*Val, n)
	for k := 0; k < n; k++ {
		if len(exits) == 1 {
			res[k] = exits[0].res[k]
			continue
		}
		ph := g.newVal(OpPhi, fn.Signature.Results().At(k).Type(), pos, in.ctx)
		ph.Note = "result"
		for _, e := range exits {
			ph.Args = append(ph.Args, e.res[k])
		}
		cont.add(ph)
		res[k] = ph
	}
	for _, e := range exits {
		e.blk.add(g.newVal(OpJump, nil, pos, ctx))
		edge(e.blk, cont)
	}
	lv := g.newVal(OpLeave, nil, pos, ctx)
	lv.Fn = fn
	lv.Args = res
	cont.add(lv)
	in.cur = cont
	return res
}

func (in *inliner) splice(ins ssa.CallInstruction, fn *ssa.Function, free, args []*Val, isDefer bool, site string) {
	res := in.spliceRaw(ins.Pos(), fn, free, args, site)
	if in.err != nil || in.cur == nil || isDefer {
		return
	}
	in.bindResult(ins, res)
}

func (in *inliner) bindResult(ins ssa.CallInstruction, res []*Val) {
	v, ok := ins.(*ssa.Call)
	if !ok {
		return
	}
	switch len(res) {
	case 0:
	case 1:
		in.vals[v] = res[0]
	default:
		t := in.g.newVal(OpTuple, v.Type(), v.Pos(), in.ctx)
		t.Args = res
		in.cur.add(t)
		in.vals[v] = t
	}
}

// chosen calls one of several known callees that isn't inlined.
func (in *inliner) chosen(ins ssa.CallInstruction, cv *Val, args []*Val) []*Val {
	g := in.g
	in.callbacks(ins, args)
	if in.err != nil {
		return nil
	}
	res := cv.Fn.Signature.Results()
	var typ types.Type
	switch res.Len() {
	case 0:
	case 1:
		typ = res.At(0).Type()
	default:
		typ = res
	}
	x := g.newVal(OpCall, typ, ins.Pos(), in.ctx)
	x.Src = ins
	x.Note = siteID(ins) + "." + cv.Fn.Name()
	x.Fn = cv.Fn
	x.Args = args
	in.cur.add(x)
	if res.Len() == 1 {
		return []*Val{x}
	}
	var out []*Val
	for k := 0; k < res.Len(); k++ {
		e := g.newVal(OpExtract, res.At(k).Type(), ins.Pos(), in.ctx)
		e.Args = []*Val{x}
		e.Index = k
		in.cur.add(e)
		out = append(out, e)
	}
	return out
}

// dispatch inlines one of several known callees.
func (in *inliner) dispatch(ins ssa.CallInstruction, target *Val, cands []*Val, args []*Val, isDefer bool) {
	if len(cands) == 1 {
		in.splice(ins, cands[0].Fn, cands[0].closureArgs(), args, isDefer, siteID(ins))
		return
	}
	g := in.g
	cont := g.newBlk(in.ctx)
	var results [][]*Val
	at := in.cur
	for k, cv := range cands {
		body := at
		if k < len(cands)-1 {
			var nd *Val
			if cv.Op == OpFunc && target.Op == OpPhi {
				nd = g.newVal(OpBin, types.Typ[types.Bool], ins.Pos(), in.ctx)
				nd.Tok = token.EQL
				nd.Args = []*Val{target, cv}
			} else {
				nd = g.newVal(OpNondet, types.Typ[types.Bool], ins.Pos(), in.ctx)
				nd.Note = "which function?"
				nd.Cands, nd.Target = cands, target
			}
			at.add(nd)
			iff := g.newVal(OpIf, nil, ins.Pos(), in.ctx)
			iff.Args = []*Val{nd}
			at.add(iff)
			body = g.newBlk(in.ctx)
			next := g.newBlk(in.ctx)
			edge(at, body)
			edge(at, next)
			at = next
		}
		in.cur = body
		var r []*Val
		if in.inlinable(cv.Fn) {
			r = in.spliceRaw(ins.Pos(), cv.Fn, cv.closureArgs(), args, fmt.Sprintf("%s.d%d", siteID(ins), k))
		} else {
			r = in.chosen(ins, cv, args)
		}
		if in.err != nil {
			return
		}
		if in.cur != nil {
			in.cur.add(g.newVal(OpJump, nil, ins.Pos(), in.ctx))
			edge(in.cur, cont)
			results = append(results, r)
		}
	}
	if len(results) == 0 {
		in.cur = nil
		return
	}
	in.cur = cont
	n := cands[0].Fn.Signature.Results().Len()
	res := make([]*Val, n)
	for k := 0; k < n; k++ {
		ph := g.newVal(OpPhi, cands[0].Fn.Signature.Results().At(k).Type(), ins.Pos(), in.ctx)
		for _, r := range results {
			ph.Args = append(ph.Args, r[k])
		}
		cont.add(ph)
		res[k] = ph
	}
	if !isDefer {
		in.bindResult(ins, res)
	}
}

func (v *Val) closureArgs() []*Val {
	if v.Op == OpClosure {
		return v.Args
	}
	return nil
}

func (in *inliner) builtin(ins ssa.CallInstruction, b *ssa.Builtin, args []*Val) {
	op := OpCall
	switch b.Name() {
	case "append":
		op = OpAppend
	case "len":
		op = OpLen
	case "cap":
		op = OpCap
	case "copy":
		op = OpCopy
	case "delete":
		op = OpDelete
	case "close":
		op = OpClose
	}
	var x *Val
	if c, ok := ins.(*ssa.Call); ok {
		x = in.emit(op, c, args...)
	} else {
		x = in.g.newVal(op, nil, ins.Pos(), in.ctx)
		x.Src = ins
		x.Args = args
		in.cur.add(x)
	}
	if op == OpCall {
		x.Note = "builtin " + b.Name()
	}
}

func (in *inliner) goStmt(i *ssa.Go) {
	var args []*Val
	args = append(args, nil)
	if _, ok := i.Call.Value.(*ssa.Builtin); !ok {
		args[0] = in.val(i.Call.Value)
	}
	for _, a := range i.Call.Args {
		args = append(args, in.val(a))
	}
	x := in.emit(OpGo, i, args...)
	x.Note = siteID(i)
	fn, free, cargs := in.target(&i.Call, args)
	if fn == nil && !i.Call.IsInvoke() {
		if insts, ok := in.g.st.resolved[in.ctx.Key+"@"+x.Note]; ok && len(insts) == 1 {
			if cv := in.g.st.inst[insts[0]]; cv != nil {
				fn, free, cargs = cv.Fn, cv.closureArgs(), args[1:]
			}
		}
		if fn == nil && args[0] != nil {
			d := *x
			d.Args = args
			in.g.st.dyn = append(in.g.st.dyn, x)
		}
	}
	x.Fn = fn
	if i.Call.IsInvoke() {
		x.Method = i.Call.Method
	}
	if fn == nil {
		return
	}
	x.Args = append(append([]*Val{}, cargs...), free...)
	if in.inlinable(fn) {
		sub := &Graph{P: in.g.P, Fn: fn, st: in.g.st, Parent: in.g, GoVal: x}
		if free == nil {
			free = []*Val{}
		}
		if cargs == nil {
			cargs = []*Val{}
		}
		ctx := &Ctx{Parent: in.ctx, Fn: fn, Site: i.Pos(), Key: in.ctx.Key + "/" + x.Note + ":go", Depth: in.ctx.Depth + 1}
		if err := sub.build(fn, cargs, free, ctx); err != nil {
			in.err = err
			return
		}
		x.Sub = sub
		in.g.st.goVals = append(in.g.st.goVals, x)
	}
}

// finish removes unreachable blocks and computes orders and dominators.
func (g *Graph) finish() {
	seen := map[*Blk]bool{}
	var post []*Blk
	type frame struct {
		b *Blk
		i int
	}
	stack := []frame{{g.Entry, 0}}
	seen[g.Entry] = true
	for len(stack) > 0 {
		f := &stack[len(stack)-1]
		if f.i < len(f.b.Succs) {
			s := f.b.Succs[len(f.b.Succs)-1-f.i]
			f.i++
			if !seen[s] {
				seen[s] = true
				stack = append(stack, frame{s, 0})
			}
			continue
		}
		post = append(post, f.b)
		stack = stack[:len(stack)-1]
	}
	for i := len(post) - 1; i >= 0; i-- {
		g.Blocks = append(g.Blocks, post[i])
		post[i].rpo = len(g.Blocks)
	}
	for _, b := range g.Blocks {
		var np []*Blk
		var keep []int
		for i, p := range b.Preds {
			if seen[p] {
				np = append(np, p)
				keep = append(keep, i)
			}
		}
		if len(np) != len(b.Preds) {
			for _, v := range b.Instrs {
				if v.Op == OpPhi && len(v.Args) == len(b.Preds) {
					var na []*Val
					for _, k := range keep {
						na = append(na, v.Args[k])
					}
					v.Args = na
				}
			}
			b.Preds = np
		}
	}
	var ex []*Val
	for _, e := range g.Exits {
		if seen[e.Blk] {
			ex = append(ex, e)
		}
	}
	g.Exits = ex
	g.dominators()
}

func (g *Graph) dominators() {
	// Cooper, Harvey, Kennedy.
	g.Entry.Idom = nil
	idom := map[*Blk]*Blk{g.Entry: g.Entry}
	inter := func(a, b *Blk) *Blk {
		for a != b {
			for a.rpo > b.rpo {
				a = idom[a]
			}
			for b.rpo > a.rpo {
				b = idom[b]
			}
		}
		return a
	}
	for changed := true; changed; {
		changed = false
		for _, b := range g.Blocks[1:] {
			var n *Blk
			for _, p := range b.Preds {
				if idom[p] == nil {
					continue
				}
				if n == nil {
					n = p
				} else {
					n = inter(p, n)
				}
			}
			if n != nil && idom[b] != n {
				idom[b] = n
				changed = true
			}
		}
	}
	for _, b := range g.Blocks[1:] {
		b.Idom = idom[b]
		b.Idom.domSub = append(b.Idom.domSub, b)
	}
	n := 0
	var num func(b *Blk)
	num = func(b *Blk) {
		n++
		b.domPre = n
		for _, c := range b.domSub {
			num(c)
		}
		n++
		b.domPst = n
	}
	num(g.Entry)
}

// Dominates tells whether a dominates b (reflexively).
func (a *Blk) Dominates(b *Blk) bool { return a.domPre <= b.domPre && b.domPst <= a.domPst }

// Before tells whether v comes before w on every path to w.
func (v *Val) Before(w *Val) bool {
	if v.Blk == w.Blk {
		for _, x := range v.Blk.Instrs {
			if x == v {
				return v != w
			}
			if x == w {
				return false
			}
		}
	}
	return v.Blk.Dominates(w.Blk)
}

// Each calls f for every instruction, go bodies included.
func (g *Graph) Each(f func(*Val)) {
	for _, b := range g.Blocks {
		for _, v := range b.Instrs {
			f(v)
			if v.Op == OpGo && v.Sub != nil {
				v.Sub.Each(f)
			}
		}
	}
}

// EachOwn is Each without go bodies.
func (g *Graph) EachOwn(f func(*Val)) {
	for _, b := range g.Blocks {
		for _, v := range b.Instrs {
			f(v)
		}
	}
}

// Reaches tells whether control can flow from a to b over at least one edge.
func (g *Graph) Reaches(a, b *Blk) bool {
	if g.reach == nil {
		g.reach = map[*Blk]map[*Blk]bool{}
	}
	m, ok := g.reach[a]
	if !ok {
		m = map[*Blk]bool{}
		work := append([]*Blk{}, a.Succs...)
		for len(work) > 0 {
			x := work[len(work)-1]
			work = work[:len(work)-1]
			if m[x] {
				continue
			}
			m[x] = true
			work = append(work, x.Succs...)
		}
		g.reach[a] = m
	}
	return m[b]
}

// ReachesAvoiding tells whether there is a path from the end of a to the start of b
// that does not enter another block on the way.
func (g *Graph) ReachesAvoiding(a, b, not *Blk) bool {
	seen := map[*Blk]bool{}
	work := append([]*Blk{}, a.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] || x == not {
			continue
		}
		seen[x] = true
		if x == b {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}

// CalleeName gives a full name for the callee of an opaque call.
func (v *Val) CalleeName() string {
	switch {
	case v.Fn != nil:
		return v.Fn.RelString(nil)
	case v.Method != nil:
		return "invoke " + v.Method.FullName()
	case v.Dyn:
		return "dynamic"
	}
	return v.Note
}

// Where renders the position of a value with its inlining chain.
func (v *Val) Where() string {
	p := v.g.P
	s := ""
	pos := v.Pos
	if !pos.IsValid() {
		// nearest instruction with a position
		if v.Blk != nil {
			for _, x := range v.Blk.Instrs {
				if x.Pos.IsValid() && x.Ctx == v.Ctx {
					pos = x.Pos
					break
				}
			}
		}
		if !pos.IsValid() && v.Ctx != nil && v.Ctx.Fn != nil {
			pos = v.Ctx.Fn.Pos()
		}
	}
	s = p.Pos(pos)
	if v.Ctx != nil && v.Ctx.Fn != nil {
		s += " in " + ShortFn(v.Ctx.Fn)
		for c := v.Ctx; c.Parent != nil; c = c.Parent {
			s += " <- " + ShortFn(c.Parent.Fn)
		}
	}
	return s
}

// ShortFn renders a function name without the module prefix.
func ShortFn(f *ssa.Function) string {
	return strings.ReplaceAll(f.String(), Module+"/", "")
}

// IsNilConst tells whether a value is the nil constant.
func (v *Val) IsNilConst() bool {
	if v.Op != OpConst || v.Const != nil {
		return false
	}
	switch v.Typ.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return true
	}
	return false
}

// BoolConst gives the value of a boolean constant.
func (v *Val) BoolConst() (val, ok bool) {
	if v.Op == OpConst && v.Const != nil && v.Const.Kind() == constant.Bool {
		return constant.BoolVal(v.Const), true
	}
	return false, false
}

// IntConst gives the value of an integer constant.
func (v *Val) IntConst() (int64, bool) {
	if v.Op == OpConst && v.Const != nil && v.Const.Kind() == constant.Int {
		n, ok := constant.Int64Val(v.Const)
		return n, ok
	}
	return 0, false
}

// Dump renders a graph for debugging.
func (g *Graph) Dump() string {
	var sb strings.Builder
	var dump func(g *Graph, ind string)
	dump = func(g *Graph, ind string) {
		for _, b := range g.Blocks {
			var ps, ss []string
			for _, p := range b.Preds {
				ps = append(ps, fmt.Sprint(p.ID))
			}
			for _, p := range b.Succs {
				ss = append(ss, fmt.Sprint(p.ID))
			}
			id := "-"
			if b.Idom != nil {
				id = fmt.Sprint(b.Idom.ID)
			}
			fmt.Fprintf(&sb, "%sb%d (%s) <- [%s] -> [%s] idom %s\n", ind, b.ID, ShortFn(b.Ctx.Fn), strings.Join(ps, " "), strings.Join(ss, " "), id)
			for _, v := range b.Instrs {
				fmt.Fprintf(&sb, "%s  %s\n", ind, v)
				if v.Op == OpGo && v.Sub != nil {
					dump(v.Sub, ind+"    ")
				}
			}
		}
	}
	dump(g, "")
	return sb.String()
}

func (v *Val) short() string {
	if v == nil {
		return "_"
	}
	switch v.Op {
	case OpConst:
		if v.Const == nil {
			return "nil:" + types.TypeString(v.Typ, func(*types.Package) string { return "" })
		}
		return v.Const.String()
	case OpGlobal:
		return v.Global.Name()
	case OpFunc:
		return v.Fn.Name()
	case OpParam:
		return fmt.Sprintf("p%d:%s", v.ID, v.SrcV.Name())
	case OpFreeVar:
		return fmt.Sprintf("fv%d:%s", v.ID, v.SrcV.Name())
	}
	return fmt.Sprintf("v%d", v.ID)
}

func (v *Val) String() string {
	var as []string
	for _, a := range v.Args {
		as = append(as, a.short())
	}
	x := ""
	switch v.Op {
	case OpBin, OpUn:
		x = v.Tok.String()
	case OpField, OpFieldAddr, OpExtract:
		x = fmt.Sprintf("#%d", v.Index)
		if v.Op == OpFieldAddr {
			x = "." + FieldName(v)
		}
	case OpCall:
		x = v.CalleeName()
	case OpClosure, OpEnter, OpLeave:
		x = v.Fn.Name()
	case OpAlloc:
		if a, ok := v.SrcV.(*ssa.Alloc); ok {
			x = a.Comment
		}
	}
	t := ""
	if v.Typ != nil {
		t = types.TypeString(v.Typ, func(p *types.Package) string { return p.Name() })
	}
	return fmt.Sprintf("v%d = %s %s [%s] %s", v.ID, v.Op, x, strings.Join(as, ", "), t)
}

// FieldOf gives the struct type and field of a field access.
func FieldOf(v *Val) (*types.Struct, *types.Var, string) {
	t := v.Args[0].Typ
	if v.Op == OpFieldAddr {
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return nil, nil, ""
		}
		t = pt.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, nil, ""
	}
	name := TypeName(t)
	if name == "" {
		name = t.Underlying().String()
	}
	return st, st.Field(v.Index), name
}

// FieldName gives the name of the accessed field.
func FieldName(v *Val) string {
	_, f, _ := FieldOf(v)
	if f == nil {
		return "?"
	}
	return f.Name()
}
