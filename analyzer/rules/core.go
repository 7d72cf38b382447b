// Package rules has the rules that decide the properties.
package rules

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"trypocheck/eng"
)

// Package paths.
const (
	pMath   = "trypo/pkg/mathutils"
	pSearch = "trypo/pkg/searchutils"
	pCommon = "trypo/pkg/kmeans/common"
	pCent   = "trypo/pkg/kmeans/centroid"
	pCM     = "trypo/pkg/kmeans/centroidmanager"
	pRPC    = "trypo/pkg/kmeans/rpc"
	pArb    = "trypo/pkg/arbiter"
	pNodes  = "trypo/core/nodes"
	pDps    = "trypo/core/dps"
	pAPI    = "trypo/core/api"
	pEL     = "trypo/core/eventloop"
)

// Item is one decided obligation.
type Item struct {
	Rule  string `json:"rule"`
	Inst  string `json:"instance"`
	Where string `json:"where"`
	OK    bool   `json:"ok"`
	Msg   string `json:"msg,omitempty"`
}

// C is the context of one check.
type C struct {
	P      *eng.Prog
	Prop   string
	Items  []Item
	Notes  []string
	Graphs int
	Blocks int
	Vals   int
	States int

	flat  map[string]*eng.Graph
	memo  map[string]bool
	min   map[string]int
	Trace []string
	seen  map[string]bool

	importing bool
}

// New makes a context.
func New(p *eng.Prog, prop string) *C {
	return &C{P: p, Prop: prop, flat: map[string]*eng.Graph{}, memo: map[string]bool{}, min: map[string]int{}, seen: map[string]bool{}}
}

// OK records a discharged obligation.
func (c *C) OK(rule, inst, where string) {
	c.Items = append(c.Items, Item{Rule: rule, Inst: inst, Where: where, OK: true})
}

// Bad records a violated (or undecidable) obligation.
func (c *C) Bad(rule, inst, where, format string, a ...interface{}) {
	m := fmt.Sprintf(format, a...)
	k := rule + "|" + inst + "|" + where + "|" + strings.SplitN(m, "(path ", 2)[0]
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.Items = append(c.Items, Item{Rule: rule, Inst: inst, Where: where, Msg: m})
}

// Expect records OK or Bad.
func (c *C) Expect(ok bool, rule, inst, where, format string, a ...interface{}) bool {
	if ok {
		c.OK(rule, inst, where)
	} else {
		c.Bad(rule, inst, where, format, a...)
	}
	return ok
}

// Min says how many instances of a rule there must be at least.
func (c *C) Min(rule string, n int) { c.min[rule] = n }

// Finish applies the minimum counts.
func (c *C) Finish() {
	n := map[string]int{}
	for _, i := range c.Items {
		n[i.Rule]++
	}
	var rs []string
	for r := range c.min {
		rs = append(rs, r)
	}
	sort.Strings(rs)
	for _, r := range rs {
		if n[r] < c.min[r] {
			c.Bad(r, "instances", "-", "only %d instances of this rule were found, at least %d are known to exist", n[r], c.min[r])
		}
	}
}

// Run runs a rule function, turning panics into reports.
func (c *C) Run(name string, f func(*C)) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			lines := strings.Split(st, "\n")
			var keep []string
			for _, l := range lines {
				if strings.Contains(l, "/rules/") || strings.Contains(l, "/eng/") {
					keep = append(keep, strings.TrimSpace(l))
				}
				if len(keep) > 8 {
					break
				}
			}
			c.Bad(name, "analysis", "-", "the analysis could not decide this: %v [%s]", r, strings.Join(keep, " | "))
		}
	}()
	f(c)
}

// Import decides obligations of another property that this one rests on.
func (c *C) Import(prop string, keep func(Item) bool) {
	k, ok := registry[prop]
	if !ok {
		c.Bad("import", prop, "-", "there is no check for %s", prop)
		return
	}
	if c.importing {
		return
	}
	sub := New(c.P, prop)
	sub.flat = c.flat
	sub.importing = true
	sub.Run(prop, k.f)
	n := 0
	for _, i := range sub.Items {
		if i.Inst == "analysis" || keep(i) {
			i.Rule = prop + "/" + i.Rule
			if !i.OK {
				c.Bad(i.Rule, i.Inst, i.Where, "%s", i.Msg)
			} else {
				c.Items = append(c.Items, i)
			}
			n++
		}
	}
	c.Graphs += sub.Graphs
	c.Blocks += sub.Blocks
	c.Vals += sub.Vals
	c.States += sub.States
	if n == 0 {
		c.Bad("import", prop, "-", "no obligation of %s applies anymore", prop)
	}
}

// Violations lists what failed.
func (c *C) Violations() []Item {
	var r []Item
	for _, i := range c.Items {
		if !i.OK {
			r = append(r, i)
		}
	}
	return r
}

// Func finds a function or reports that it is missing.
func (c *C) Func(pkg, name string) *ssa.Function {
	f := c.P.Func(pkg, name)
	if f == nil {
		c.Bad("anchor", pkg+"."+name, "-", "function %s.%s does not exist anymore", pkg, name)
	}
	return f
}

// Method finds a method or reports that it is missing.
func (c *C) Method(pkg, typ, name string) *ssa.Function {
	f := c.P.Method(pkg, typ, name)
	if f == nil {
		c.Bad("anchor", typ+"."+name, "-", "method %s.%s.%s does not exist anymore", pkg, typ, name)
	}
	return f
}

// Layer says which functions stay opaque.
type Layer func(f *ssa.Function) bool

func recvName(f *ssa.Function) string {
	if f.Signature.Recv() == nil {
		return ""
	}
	return eng.TypeName(f.Signature.Recv().Type())
}

func exported(f *ssa.Function) bool { return f.Object() != nil && f.Object().Exported() }

func opaqueMath(f *ssa.Function) bool {
	p := eng.FuncPkgPath(f)
	return (p == pMath || p == pSearch) && exported(f) && f.Signature.Recv() == nil
}

func opaqueL0(f *ssa.Function) bool {
	return opaqueMath(f) || eng.FuncPkgPath(f) == pCommon && f.Name() == "Expired"
}

func opaqueL1(f *ssa.Function) bool {
	if opaqueL0(f) {
		return true
	}
	if eng.FuncPkgPath(f) == pCent && exported(f) {
		return f.Name() != "Vec" && f.Name() != "LenDP"
	}
	return false
}

// opaqueL2: everything of the storage layer stays a call.
func opaqueL2(f *ssa.Function) bool {
	if opaqueL0(f) {
		return true
	}
	p := eng.FuncPkgPath(f)
	return (p == pCent || p == pCM) && exported(f)
}

// opaqueServer: as the server sees things: remote calls stay calls too.
func opaqueServer(f *ssa.Function) bool {
	if opaqueL2(f) {
		return true
	}
	return eng.FuncPkgPath(f) == pRPC && isClientFn(f)
}

func isClientFn(f *ssa.Function) bool {
	if f.Name() == "KMeansClient" && f.Signature.Recv() == nil && eng.FuncPkgPath(f) == pRPC {
		return true
	}
	return isClientMethod(f)
}

func isClientMethod(f *ssa.Function) bool {
	return eng.FuncPkgPath(f) == pRPC && f.Signature.Recv() != nil && exported(f) && strings.HasSuffix(recvName(f), ".kmeansClient")
}

// opaqueCore: as the packages under core see things.
func opaqueCore(f *ssa.Function) bool {
	return opaqueServer(f)
}

// opaqueAPI: as the HTTP handlers see things: the helpers for data and nodes stay calls.
func opaqueAPI(f *ssa.Function) bool {
	p := eng.FuncPkgPath(f)
	return opaqueServer(f) || (p == pDps || p == pNodes) && exported(f) && f.Signature.Recv() == nil
}

// opaqueDps: as the data helpers see things: the selection of nodes stays a call.
func opaqueDps(f *ssa.Function) bool {
	return opaqueServer(f) || eng.FuncPkgPath(f) == pNodes && exported(f) && f.Signature.Recv() == nil
}

var layers = map[string]Layer{"api": opaqueAPI, "dps": opaqueDps, "L0": func(*ssa.Function) bool { return false }, "L1": opaqueL0, "L2": opaqueL1, "L3": opaqueServer, "L4": opaqueCore, "client": opaqueL2,
	"main": func(f *ssa.Function) bool { return f.Pkg != nil && f.Pkg.Pkg.Name() != "main" && f.Parent() == nil }}

// Flat flattens a function for a layer.
func (c *C) Flat(f *ssa.Function, layer string) *eng.Graph {
	if f == nil {
		return nil
	}
	key := layer + "|" + f.String()
	if g, ok := c.flat[key]; ok {
		return g
	}
	op := layers[layer]
	g, err := c.P.Flatten(f, eng.Opts{Opaque: func(x *ssa.Function) bool { return x != f && op(x) }})
	if err != nil {
		c.Bad("anchor", f.String(), "-", "cannot analyse %s: %v", f, err)
		g = nil
	}
	c.flat[key] = g
	if g != nil {
		c.Graphs++
		c.Blocks += len(g.Blocks)
		g.Each(func(*eng.Val) { c.Vals++ })
	}
	return g
}

// Callee names an opaque callee: "Centroid.AddDataPoint", "mathutils.VecMean",
// "iface DataPointReceiver.AddDataPoint", "dynamic" or the full name of anything
// outside of the module.
func Callee(v *eng.Val) string {
	if v.Op != eng.OpCall && v.Op != eng.OpGo {
		return ""
	}
	if v.Fn != nil {
		f := v.Fn
		p := eng.FuncPkgPath(f)
		if !eng.InModulePath(p) {
			return f.RelString(nil)
		}
		if f.Signature.Recv() != nil {
			n := recvName(f)
			return n[strings.LastIndex(n, ".")+1:] + "." + f.Name()
		}
		return p[strings.LastIndex(p, "/")+1:] + "." + f.Name()
	}
	if v.Method != nil {
		s := v.Method.Type().(*types.Signature)
		n := ""
		if s.Recv() != nil {
			n = eng.TypeName(s.Recv().Type())
		}
		return "iface " + n[strings.LastIndex(n, ".")+1:] + "." + v.Method.Name()
	}
	if v.Dyn {
		return "dynamic"
	}
	return v.Note
}

// Calls lists the opaque calls of a graph (go bodies included) that match.
func Calls(g *eng.Graph, match func(string) bool) []*eng.Val {
	var r []*eng.Val
	g.Each(func(v *eng.Val) {
		if v.Op == eng.OpCall && match(Callee(v)) {
			r = append(r, v)
		}
		if v.Op == eng.OpGo && v.Sub == nil && match(Callee(v)) {
			r = append(r, v)
		}
	})
	return r
}

func is(names ...string) func(string) bool {
	return func(s string) bool {
		for _, n := range names {
			if s == n {
				return true
			}
		}
		return false
	}
}

// fnName renders a function for reports.
func fnName(f *ssa.Function) string { return eng.ShortFn(f) }

func where(c *C, f *ssa.Function) string { return c.P.Pos(f.Pos()) + " in " + fnName(f) }

// nonTest lists the module's functions that are not test support, roots only
// (anonymous functions are analysed with their parents).
func (c *C) roots() []*ssa.Function {
	var r []*ssa.Function
	for _, f := range c.P.Funcs {
		if f.Parent() != nil || eng.IsTestSupport(f) || f.Synthetic != "" {
			continue
		}
		r = append(r, f)
	}
	return r
}

var boolT, intT = types.Typ[types.Bool], types.Typ[types.Int]
