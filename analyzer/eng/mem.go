package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed canonical value: two program points whose values have
// the same term hold the same value.
type Term struct {
	ID   int
	Op   Op
	Aux  string
	Args []*Term
	V    *Val // representative (identity terms)
	Typ  types.Type
	Path *Path // loads and memory joins
	Blk  *Blk  // memory joins
	Ver  *Val  // loads: the instruction that last may have changed the location
	At   *Val  // the load (or other point) that the term was first built for
	key  string
}

// Operators that only terms have.
const (
	OpAgg    Op = "agg"
	OpMemPhi Op = "memphi"
	OpZero   Op = "zero"
	OpAdd    Op = "add" // linear form: Aux has the coefficients
)

// Path is a memory location.
type Path struct {
	Root  *Term
	Steps []Step
}

// Step is one selection in a path.
type Step struct {
	Field  int
	Idx    *Term // nil for fields
	Struct string
	Name   string
	Typ    types.Type // of the selected location
}

func (p *Path) key() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d", p.Root.ID)
	for _, s := range p.Steps {
		if s.Idx != nil {
			fmt.Fprintf(&sb, "[%d]", s.Idx.ID)
		} else {
			fmt.Fprintf(&sb, ".%d", s.Field)
		}
	}
	return sb.String()
}

func (p *Path) with(s Step) *Path {
	n := &Path{Root: p.Root, Steps: append(append([]Step{}, p.Steps...), s)}
	return n
}

// LastField is the name of the selected field ("" if the location is not a field), with its struct.
func (p *Path) LastField() (structName, field string) {
	if len(p.Steps) == 0 {
		return "", ""
	}
	s := p.Steps[len(p.Steps)-1]
	return s.Struct, s.Name
}

func (p *Path) String() string {
	r := p.Root.String()
	for _, s := range p.Steps {
		if s.Idx != nil {
			r += "[" + s.Idx.String() + "]"
		} else {
			r += "." + s.Name
		}
	}
	return r
}

func (p *Path) class(t types.Type) string {
	if len(p.Steps) == 0 {
		return cellClass(t)
	}
	s := p.Steps[len(p.Steps)-1]
	if s.Idx != nil {
		return elemClass(t)
	}
	return fieldClass(s.Struct, s.Name)
}

// Terms builds terms for the values of a graph (and its go bodies).
type Terms struct {
	st      *flatState
	byKey   map[string]*Term
	ofVal   map[*Val]*Term
	busy    map[*Val]bool
	uses    map[*Val][]*Val
	esc     map[*Val]int // 1 no, 2 yes
	addrTkn map[string]bool
	loadMem map[string]*Term
	later   map[*Val]bool
	recs    map[*Val]bool // being computed, and were asked for meanwhile
}

// Terms gives the term builder of a graph.
func (g *Graph) Terms() *Terms {
	root := g
	for root.Parent != nil {
		root = root.Parent
	}
	if root.terms == nil {
		t := &Terms{st: g.st, byKey: map[string]*Term{}, ofVal: map[*Val]*Term{}, busy: map[*Val]bool{},
			uses: map[*Val][]*Val{}, esc: map[*Val]int{}, loadMem: map[string]*Term{}, recs: map[*Val]bool{}}
		root.terms = t
		root.Each(func(v *Val) {
			for _, a := range v.Args {
				if a != nil {
					t.uses[a] = append(t.uses[a], v)
				}
			}
		})
		t.addrTkn = g.P.addressTakenFields()
	}
	return root.terms
}

// Uses lists the instructions that use a value.
func (g *Graph) Uses(v *Val) []*Val { return g.Terms().uses[v] }

func (p *Prog) addressTakenFields() map[string]bool {
	r := map[string]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok || fa.Referrers() == nil {
					continue
				}
				for _, u := range *fa.Referrers() {
					switch u := u.(type) {
					case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
					case *ssa.Store:
						if u.Val == fa {
							st := fa.X.Type().Underlying().(*types.Pointer).Elem()
							r[fieldClass(structName(st), st.Underlying().(*types.Struct).Field(fa.Field).Name())] = true
						}
					case ssa.CallInstruction:
						// method calls on embedded values (mutexes) are calls, not stores
						st := fa.X.Type().Underlying().(*types.Pointer).Elem()
						r[fieldClass(structName(st), st.Underlying().(*types.Struct).Field(fa.Field).Name())] = true
					default:
						st := fa.X.Type().Underlying().(*types.Pointer).Elem()
						r[fieldClass(structName(st), st.Underlying().(*types.Struct).Field(fa.Field).Name())] = true
					}
				}
			}
		}
	}
	return r
}

func (t *Terms) mk(op Op, aux string, typ types.Type, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(string(op))
	sb.WriteByte('|')
	sb.WriteString(aux)
	for _, a := range args {
		if a == nil {
			sb.WriteString(",_")
		} else {
			fmt.Fprintf(&sb, ",%d", a.ID)
		}
	}
	return t.intern(sb.String(), func() *Term { return &Term{Op: op, Aux: aux, Args: args, Typ: typ} })
}

func (t *Terms) intern(key string, f func() *Term) *Term {
	if x, ok := t.byKey[key]; ok {
		return x
	}
	x := f()
	x.key = key
	x.ID = len(t.byKey) + 1
	t.byKey[key] = x
	return x
}

func (t *Terms) ident(v *Val) *Term {
	return t.intern(fmt.Sprintf("id|%d", v.ID), func() *Term { return &Term{Op: v.Op, V: v, Typ: v.Typ} })
}

// Const builds a constant term.
func (t *Terms) Const(c constant.Value, typ types.Type) *Term {
	if c == nil {
		return t.Zero(typ)
	}
	if c.Kind() == constant.Float && isInt(typ) {
		c = constant.ToInt(c)
	}
	if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		c = constant.ToFloat(c)
	}
	kind := "k"
	if c.Kind() == constant.String {
		kind = "s"
	}
	return t.intern("const|"+kind+c.ExactString(), func() *Term {
		return &Term{Op: OpConst, Aux: c.ExactString(), Typ: typ, V: &Val{Op: OpConst, Const: c, Typ: typ}}
	})
}

// Int builds an integer constant term.
func (t *Terms) Int(n int64) *Term { return t.Const(constant.MakeInt64(n), types.Typ[types.Int]) }

// Bool builds a boolean constant term.
func (t *Terms) Bool(b bool) *Term { return t.Const(constant.MakeBool(b), types.Typ[types.Bool]) }

// Zero builds the zero value of a type.
func (t *Terms) Zero(typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return t.Const(constant.MakeBool(false), typ)
		case u.Info()&types.IsString != 0:
			return t.Const(constant.MakeString(""), typ)
		case u.Info()&types.IsNumeric != 0:
			return t.Const(constant.MakeInt64(0), typ)
		}
	case *types.Struct:
		var args []*Term
		for i := 0; i < u.NumFields(); i++ {
			args = append(args, t.Zero(u.Field(i).Type()))
		}
		return t.mk(OpAgg, typeKey(typ), typ, args...)
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return t.intern("nil", func() *Term { return &Term{Op: OpZero, Aux: "nil", Typ: typ} })
	}
	return t.mk(OpZero, typeKey(typ), typ)
}

// IsNil tells whether a term is the nil constant.
func (x *Term) IsNil() bool { return x.Op == OpZero && x.Aux == "nil" }

// Bool gives the value of a boolean constant term.
func (x *Term) Bool() (val, ok bool) {
	if x.Op == OpConst {
		return x.V.BoolConst()
	}
	return false, false
}

// Int gives the value of an integer constant term.
func (x *Term) Int() (int64, bool) {
	if x.Op == OpConst && x.V.Const.Kind() == constant.Int {
		return constant.Int64Val(x.V.Const)
	}
	if x.Op == OpConst && x.V.Const.Kind() == constant.Float {
		if c := constant.ToInt(x.V.Const); c.Kind() == constant.Int {
			return constant.Int64Val(c)
		}
	}
	return 0, false
}

// Str gives the value of a string constant term.
func (x *Term) Str() (string, bool) {
	if x.Op == OpConst && x.V.Const.Kind() == constant.String {
		return constant.StringVal(x.V.Const), true
	}
	return "", false
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// Of gives the term of a value.
func (t *Terms) Of(v *Val) *Term {
	if v == nil {
		return nil
	}
	if x, ok := t.ofVal[v]; ok {
		return x
	}
	if t.busy[v] {
		switch v.Op {
		case OpPhi, OpCall, OpAlloc, OpMakeSlice, OpMakeMap, OpMakeChan, OpAppend, OpClosure, OpTuple:
			return t.ident(v)
		}
		t.recs[v] = true
		return t.intern(fmt.Sprintf("rec|%d", v.ID), func() *Term { return &Term{Op: OpUnknown, Aux: "rec", V: v, Typ: v.Typ} })
	}
	t.busy[v] = true
	x := t.build(v)
	delete(t.busy, v)
	delete(t.recs, v)
	if len(t.recs) == 0 || !hasRec(x, 4) {
		t.ofVal[v] = x
	}
	return x
}

func (t *Terms) build(v *Val) *Term {
	switch v.Op {
	case OpConst:
		return t.Const(v.Const, v.Typ)
	case OpGlobal:
		return t.intern("global|"+v.Global.String(), func() *Term { return &Term{Op: OpGlobal, Aux: v.Global.String(), V: v, Typ: v.Typ} })
	case OpFunc:
		return t.intern("func|"+v.Fn.String(), func() *Term { return &Term{Op: OpFunc, Aux: v.Fn.String(), V: v, Typ: v.Typ} })
	case OpBin:
		return t.Bin(v.Tok, t.Of(v.Args[0]), t.Of(v.Args[1]), v.Typ)
	case OpUn:
		a := t.Of(v.Args[0])
		if v.Tok == token.NOT {
			return t.Not(a)
		}
		if v.Tok == token.SUB {
			if isInt(v.Typ) {
				return t.Bin(token.SUB, t.Int(0), a, v.Typ)
			}
			return t.mk(OpUn, "-", v.Typ, a)
		}
		return t.mk(OpUn, v.Tok.String(), v.Typ, a)
	case OpConv:
		a := t.Of(v.Args[0])
		if a.Op == OpConst && v.Typ != nil {
			if b, ok := v.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 && a.V.Const.Kind() != constant.String {
				return t.Const(a.V.Const, v.Typ)
			}
		}
		if types.Identical(v.Typ.Underlying(), v.Args[0].Typ.Underlying()) {
			return a
		}
		return t.mk(OpConv, typeKey(v.Typ.Underlying()), v.Typ, a)
	case OpIface:
		return t.mk(OpIface, typeKey(v.Args[0].Typ), v.Typ, t.Of(v.Args[0]))
	case OpField:
		return t.Project(t.Of(v.Args[0]), v.Index, v.Typ)
	case OpExtract:
		a := v.Args[0]
		if a.Op == OpAssert || a.Op == OpLookup || a.Op == OpRecv || a.Op == OpCall || a.Op == OpNext || a.Op == OpSelect {
			return t.mk(OpExtract, fmt.Sprint(v.Index), v.Typ, t.Of(a))
		}
		return t.mk(OpExtract, fmt.Sprint(v.Index), v.Typ, t.Of(a))
	case OpTuple:
		return t.ident(v)
	case OpLen:
		return t.Len(t.Of(v.Args[0]), v)
	case OpSlice:
		args := make([]*Term, 4)
		base := v.Args[0]
		args[0] = t.Of(base)
		for k := 1; k < 4; k++ {
			args[k] = t.Of(v.Args[k])
		}
		if args[1] != nil {
			if n, ok := args[1].Int(); ok && n == 0 {
				args[1] = nil
			}
		}
		if args[1] == nil && args[2] == nil && args[3] == nil {
			if _, ok := base.Typ.Underlying().(*types.Slice); ok {
				return args[0] // x[:]
			}
		}
		x := t.mk(OpSlice, "", v.Typ, args...)
		if x.V == nil {
			x.V = v
		}
		return x
	case OpIndex:
		return t.mk(OpIndex, "", v.Typ, t.Of(v.Args[0]), t.Of(v.Args[1]))
	case OpFieldAddr:
		x := t.mk(OpFieldAddr, fmt.Sprint(v.Index), v.Typ, t.Of(v.Args[0]))
		x.At = v
		return x
	case OpIndexAddr:
		x := t.mk(OpIndexAddr, "", v.Typ, t.Of(v.Args[0]), t.Of(v.Args[1]))
		x.At = v
		return x
	case OpClosure:
		return t.ident(v)
	case OpPhi:
		// A join of equal values is that value.
		var same *Val
		for _, a := range v.Args {
			if a == v {
				continue
			}
			if same != nil && a != same {
				same = nil
				break
			}
			same = a
		}
		if same != nil && len(v.Args) > 0 {
			ok := true
			for _, a := range v.Args {
				if a != v && a != same {
					ok = false
				}
			}
			if ok {
				return t.Of(same)
			}
		}
		if !v.g.isLoopHeader(v.Blk) {
			var st *Term
			ok := true
			for _, a := range v.Args {
				x := t.Of(a)
				if st == nil {
					st = x
				} else if st != x {
					ok = false
				}
			}
			if ok && st != nil {
				return st
			}
		}
		return t.ident(v)
	case OpLoad:
		return t.loadVal(v)
	case OpLookup:
		return t.lookupVal(v)
	}
	return t.ident(v)
}

func (g *Graph) isLoopHeader(b *Blk) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

// Project selects a field of a struct term.
func (t *Terms) Project(s *Term, field int, typ types.Type) *Term {
	if s.Op == OpAgg && field < len(s.Args) {
		return s.Args[field]
	}
	if s.Op == OpLoad || s.Op == OpMemPhi {
		// A field of a struct that was loaded as a whole: the field's location at that point.
		if st, ok := s.Typ.Underlying().(*types.Struct); ok && s.At != nil {
			step := Step{Field: field, Struct: structName(s.Typ), Name: st.Field(field).Name(), Typ: st.Field(field).Type()}
			return t.loadAt(s.Path.with(step), typ, s.At)
		}
	}
	return t.mk(OpField, fmt.Sprint(field), typ, s)
}

// Len builds the length of a term.
func (t *Terms) Len(a *Term, at *Val) *Term {
	intT := types.Typ[types.Int]
	switch a.Op {
	case OpMakeSlice:
		return t.Of(a.V.Args[0])
	case OpAppend:
		if a.V != nil && len(a.V.Args) == 2 {
			return t.Bin(token.ADD, t.Len(t.Of(a.V.Args[0]), at), t.Len(t.Of(a.V.Args[1]), at), intT)
		}
	case OpZero:
		return t.Int(0)
	case OpConst:
		if a.IsNil() {
			return t.Int(0)
		}
		if s, ok := a.Str(); ok {
			return t.Int(int64(len(s)))
		}
	case OpSlice:
		if pt, ok := a.Args[0].Typ.Underlying().(*types.Pointer); ok {
			if arr, ok := pt.Elem().Underlying().(*types.Array); ok {
				lo, hi := t.Int(0), t.Int(arr.Len())
				if a.Args[1] != nil {
					lo = a.Args[1]
				}
				if a.Args[2] != nil {
					hi = a.Args[2]
				}
				return t.Bin(token.SUB, hi, lo, intT)
			}
		}
		hi := a.Args[2]
		if hi == nil {
			hi = t.Len(a.Args[0], at)
		}
		if a.Args[1] == nil {
			return hi
		}
		return t.Bin(token.SUB, hi, a.Args[1], intT)
	}
	if a.Typ != nil {
		if _, ok := a.Typ.Underlying().(*types.Map); ok && at != nil {
			ver := t.mapVersion(a, at)
			return t.mk(OpLen, ver, intT, a)
		}
	}
	return t.mk(OpLen, "", intT, a)
}

// Not negates a condition.
func (t *Terms) Not(a *Term) *Term {
	if b, ok := a.Bool(); ok {
		return t.Bool(!b)
	}
	if a.Op == OpUn && a.Aux == "!" {
		return a.Args[0]
	}
	if a.Op == OpBin {
		switch a.Aux {
		case "==":
			return t.mk(OpBin, "!=", a.Typ, a.Args...)
		case "!=":
			return t.mk(OpBin, "==", a.Typ, a.Args...)
		case "<":
			if a.Args[0].Typ != nil && isFloat(a.Args[0].Typ) {
				break
			}
			// !(a<b)  ==  b<=a  ==  b < a+1 for integers
			return t.cmpLess(a.Args[1], a.Args[0], true, a.Args[0].Typ)
		}
	}
	return t.mk(OpUn, "!", types.Typ[types.Bool], a)
}

// cmpLess builds a<b, or a<=b if orEq.
func (t *Terms) cmpLess(a, b *Term, orEq bool, typ types.Type) *Term {
	bt := types.Typ[types.Bool]
	if typ != nil && isInt(typ) {
		// Canonical: L < 0 with L linear without constant on the left:  sum < c.
		d := t.lin(a).sub(t.lin(b))
		if orEq {
			d.c--
		}
		// d < 0
		if len(d.m) == 0 {
			return t.Bool(d.c < 0)
		}
		c := -d.c
		d.c = 0
		return t.mk(OpBin, "<", bt, t.fromLin(d), t.Int(c))
	}
	if orEq {
		return t.mk(OpBin, "<=", bt, a, b)
	}
	return t.mk(OpBin, "<", bt, a, b)
}

// Bin builds a binary operation in canonical form.
// newError: an error made for the occasion, never nil.
func newError(x *Term) bool {
	if x.Op != OpCall || x.V == nil || x.V.Fn == nil {
		return false
	}
	switch x.V.Fn.String() {
	case "errors.New", "fmt.Errorf":
		return true
	}
	return false
}

func (t *Terms) Bin(tok token.Token, a, b *Term, typ types.Type) *Term {
	bt := types.Typ[types.Bool]
	at := a.Typ
	if at == nil {
		at = b.Typ
	}
	switch tok {
	case token.LSS:
		return t.cmpLess(a, b, false, at)
	case token.GTR:
		return t.cmpLess(b, a, false, at)
	case token.LEQ:
		return t.cmpLess(a, b, true, at)
	case token.GEQ:
		return t.cmpLess(b, a, true, at)
	case token.EQL, token.NEQ:
		op := "=="
		if tok == token.NEQ {
			op = "!="
		}
		if at != nil && isInt(at) {
			d := t.lin(a).sub(t.lin(b))
			if len(d.m) == 0 {
				return t.Bool((d.c == 0) == (op == "=="))
			}
			// normalise the sign by the smallest id
			if d.lead() < 0 {
				d = d.scale(-1)
			}
			c := -d.c
			d.c = 0
			return t.mk(OpBin, op, bt, t.fromLin(d), t.Int(c))
		}
		if x, ok := a.Bool(); ok {
			if x == (op == "==") {
				return b
			}
			return t.Not(b)
		}
		if x, ok := b.Bool(); ok {
			if x == (op == "==") {
				return a
			}
			return t.Not(a)
		}
		if a.Op == OpConst && b.Op == OpConst {
			return t.Bool((a == b) == (op == "=="))
		}
		if a.Op == OpFunc && (b.Op == OpFunc || b.Op == OpClosure) || a.Op == OpClosure && b.Op == OpFunc {
			// only compared to find out which function is called
			return t.Bool((a == b) == (op == "=="))
		}
		if a == b && at != nil && !isFloat(at) {
			return t.Bool(op == "==")
		}
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if p[0].IsNil() && (p[1].Op == OpIface || p[1].Op == OpAlloc || p[1].Op == OpMakeSlice || p[1].Op == OpMakeMap || p[1].Op == OpClosure || p[1].Op == OpFunc || newError(p[1])) {
				return t.Bool(op == "!=")
			}
		}
		// constants to the right
		ca, cb := a.Op == OpConst || a.Op == OpZero, b.Op == OpConst || b.Op == OpZero
		if ca && !cb || ca == cb && b.ID < a.ID {
			a, b = b, a
		}
		return t.mk(OpBin, op, bt, a, b)
	case token.ADD, token.SUB, token.MUL:
		if typ != nil && isInt(typ) {
			la, lb := t.lin(a), t.lin(b)
			switch tok {
			case token.ADD:
				return t.fromLin(la.add(lb))
			case token.SUB:
				return t.fromLin(la.sub(lb))
			case token.MUL:
				if len(la.m) == 0 {
					return t.fromLin(lb.scale(la.c))
				}
				if len(lb.m) == 0 {
					return t.fromLin(la.scale(lb.c))
				}
			}
		}
		if x, ok := a.Str(); ok && tok == token.ADD {
			if y, ok := b.Str(); ok {
				return t.Const(constant.MakeString(x+y), typ)
			}
		}
		if (tok == token.ADD && (typ == nil || isFloat(typ)) || tok == token.MUL) && b.ID < a.ID {
			a, b = b, a
		}
	}
	return t.mk(OpBin, tok.String(), typ, a, b)
}

// linear integer forms
type linear struct {
	m map[*Term]int64
	c int64
}

func (t *Terms) lin(x *Term) linear {
	if n, ok := x.Int(); ok {
		return linear{m: map[*Term]int64{}, c: n}
	}
	if x.Op == OpAdd {
		l := linear{m: map[*Term]int64{}}
		parts := strings.Split(x.Aux, ",")
		for i, a := range x.Args {
			var n int64
			fmt.Sscan(parts[i], &n)
			l.m[a] = n
		}
		fmt.Sscan(parts[len(parts)-1], &l.c)
		return l
	}
	return linear{m: map[*Term]int64{x: 1}}
}

func (a linear) add(b linear) linear { return a.comb(b, 1) }
func (a linear) sub(b linear) linear { return a.comb(b, -1) }
func (a linear) comb(b linear, k int64) linear {
	r := linear{m: map[*Term]int64{}, c: a.c + k*b.c}
	for x, n := range a.m {
		r.m[x] += n
	}
	for x, n := range b.m {
		r.m[x] += k * n
	}
	for x, n := range r.m {
		if n == 0 {
			delete(r.m, x)
		}
	}
	return r
}
func (a linear) scale(k int64) linear {
	r := linear{m: map[*Term]int64{}, c: a.c * k}
	if k != 0 {
		for x, n := range a.m {
			r.m[x] = n * k
		}
	}
	return r
}
func (a linear) terms() []*Term {
	var r []*Term
	for x := range a.m {
		r = append(r, x)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}
func (a linear) lead() int64 {
	ts := a.terms()
	if len(ts) == 0 {
		return 0
	}
	return a.m[ts[0]]
}

func (t *Terms) fromLin(l linear) *Term {
	ts := l.terms()
	if len(ts) == 0 {
		return t.Int(l.c)
	}
	if len(ts) == 1 && l.m[ts[0]] == 1 && l.c == 0 {
		return ts[0]
	}
	var cs []string
	for _, x := range ts {
		cs = append(cs, fmt.Sprint(l.m[x]))
	}
	cs = append(cs, fmt.Sprint(l.c))
	return t.mk(OpAdd, strings.Join(cs, ","), types.Typ[types.Int], ts...)
}

// Diff gives a-b if that is a known constant.
func (t *Terms) Diff(a, b *Term) (int64, bool) {
	d := t.lin(a).sub(t.lin(b))
	if len(d.m) == 0 {
		return d.c, true
	}
	return 0, false
}

// Lin exposes the linear form of an integer term.
func (t *Terms) Lin(x *Term) (map[*Term]int64, int64) {
	l := t.lin(x)
	return l.m, l.c
}

// PathOf gives the location an address value denotes.
func (t *Terms) PathOf(a *Val) *Path {
	switch a.Op {
	case OpFieldAddr:
		st, f, name := FieldOf(a)
		_ = st
		return t.PathOf(a.Args[0]).with(Step{Field: a.Index, Struct: name, Name: f.Name(), Typ: f.Type()})
	case OpIndexAddr:
		var et types.Type
		if p, ok := a.Typ.Underlying().(*types.Pointer); ok {
			et = p.Elem()
		}
		idx := t.Of(a.Args[1])
		if _, ok := a.Args[0].Typ.Underlying().(*types.Pointer); ok { // array
			return t.PathOf(a.Args[0]).with(Step{Idx: idx, Typ: et})
		}
		return t.elemPath(t.Of(a.Args[0]), idx, et)
	}
	return t.ptrPath(t.Of(a))
}

// ptrPath is the location a pointer term points to.
func (t *Terms) ptrPath(x *Term) *Path {
	switch x.Op {
	case OpFieldAddr:
		if x.At != nil {
			_, f, name := FieldOf(x.At)
			return t.ptrPath(x.Args[0]).with(Step{Field: x.At.Index, Struct: name, Name: f.Name(), Typ: f.Type()})
		}
	case OpIndexAddr:
		if x.At != nil {
			return t.PathOf(x.At)
		}
	}
	return &Path{Root: x}
}

// elemPath is the location of element idx of a slice term.
func (t *Terms) elemPath(s, idx *Term, et types.Type) *Path {
	for s.Op == OpSlice {
		if s.Args[1] != nil {
			idx = t.Bin(token.ADD, idx, s.Args[1], types.Typ[types.Int])
		}
		base := s.Args[0]
		if base.Typ != nil {
			if _, ok := base.Typ.Underlying().(*types.Pointer); ok {
				return t.ptrPath(base).with(Step{Idx: idx, Typ: et})
			}
		}
		s = base
	}
	return &Path{Root: s, Steps: []Step{{Idx: idx, Typ: et}}}
}

func (t *Terms) loadVal(v *Val) *Term {
	return t.loadAt(t.PathOf(v.Args[0]), v.Typ, v)
}

type effKind int

const (
	effNone effKind = iota
	effMust         // writes exactly this location
	effOver         // writes an enclosing location (struct)
	effPart         // writes a part of this location
	effMay          // may write this location
	effZero         // allocates it
)

// loadAt resolves the value of a location just before v.
func (t *Terms) loadAt(p *Path, typ types.Type, v *Val) *Term {
	key := fmt.Sprintf("%s@%d", p.key(), v.ID)
	if x, ok := t.loadMem[key]; ok {
		return x
	}
	x := t.loadBefore(p, typ, v.Blk, posIn(v)-1, v)
	if len(t.recs) == 0 || !hasRec(x, 4) {
		t.loadMem[key] = x
	}
	return x
}

// LoadAt gives the term of a location just before an instruction.
func (t *Terms) LoadAt(p *Path, typ types.Type, v *Val) *Term { return t.loadAt(p, typ, v) }

func posIn(v *Val) int {
	for i, x := range v.Blk.Instrs {
		if x == v {
			return i
		}
	}
	return len(v.Blk.Instrs)
}

func (t *Terms) loadBefore(p *Path, typ types.Type, b *Blk, i int, at *Val) *Term {
	for {
		for ; i >= 0; i-- {
			s := b.Instrs[i]
			switch t.effect(s, p, typ) {
			case effNone:
			case effMust:
				return t.Of(s.Args[1])
			case effOver:
				x := t.Of(s.Args[1])
				sp := t.PathOf(s.Args[0])
				for _, st := range p.Steps[len(sp.Steps):] {
					x = t.Project(x, st.Field, st.Typ)
				}
				return x
			case effPart:
				// Put the parts together.
				st, ok := typ.Underlying().(*types.Struct)
				if !ok {
					return t.versioned(p, typ, s, at)
				}
				var args []*Term
				for k := 0; k < st.NumFields(); k++ {
					f := st.Field(k)
					args = append(args, t.loadBefore(p.with(Step{Field: k, Struct: structName(typ), Name: f.Name(), Typ: f.Type()}), f.Type(), b, i, at))
				}
				return t.agg(typ, args)
			case effZero:
				return t.Zero(typ)
			case effMay:
				return t.versioned(p, typ, s, at)
			}
		}
		if b.Idom == nil {
			return t.initial(p, typ, b.G, at)
		}
		if len(b.Preds) == 1 {
			b = b.Preds[0]
			i = len(b.Instrs) - 1
			continue
		}
		if t.writtenBetween(b.Idom, b, p, typ) {
			return t.memPhi(p, typ, b, at)
		}
		b = b.Idom
		i = len(b.Instrs) - 1
	}
}

// agg builds a struct value from its fields; the fields of one struct in order are that struct.
func (t *Terms) agg(typ types.Type, args []*Term) *Term {
	var whole *Term
	ok := len(args) > 0
	for k, a := range args {
		if a.Op != OpField || a.Aux != fmt.Sprint(k) || whole != nil && a.Args[0] != whole {
			ok = false
			break
		}
		whole = a.Args[0]
	}
	if ok && whole != nil && whole.Typ != nil && types.Identical(whole.Typ, typ) {
		return whole
	}
	return t.mk(OpAgg, typeKey(typ), typ, args...)
}

func (t *Terms) versioned(p *Path, typ types.Type, s *Val, at *Val) *Term {
	return t.intern(fmt.Sprintf("load|%s@%d", p.key(), s.ID), func() *Term {
		return &Term{Op: OpLoad, Path: p, Typ: typ, Ver: s, At: at}
	})
}

func (t *Terms) memPhi(p *Path, typ types.Type, b *Blk, at *Val) *Term {
	return t.intern(fmt.Sprintf("memphi|%s@%d", p.key(), b.ID), func() *Term {
		return &Term{Op: OpMemPhi, Path: p, Typ: typ, Blk: b, At: at}
	})
}

func (t *Terms) initial(p *Path, typ types.Type, g *Graph, at *Val) *Term {
	if g.Parent != nil {
		// A go body: a captured location that is not written after the goroutine
		// was started has the value from then.
		stable := true
		chk := func(s *Val) {
			if s.Blk == nil || !stable {
				return
			}
			if t.effect(s, p, typ) == effNone || t.effect(s, p, typ) == effZero {
				return
			}
			// the goroutine itself, which has a cell of its own, is followed step by step
			if a := p.Root.V; s.g == g && p.Root.Op == OpAlloc && a != nil && a.g == g.Parent && a.Before(g.GoVal) && !a.g.ReachesAvoiding(g.GoVal.Blk, g.GoVal.Blk, a.Blk) {
				return
			}
			for x := g; x.Parent != nil; x = x.Parent {
				if s.g == x.Parent && s.Before(x.GoVal) && !x.Parent.Reaches(x.GoVal.Blk, s.Blk) {
					return
				}
				// written again only after the cell was made anew
				if a := p.Root.V; p.Root.Op == OpAlloc && a != nil && a.g == x.Parent && s.g == a.g && a.Before(s) && s.Before(x.GoVal) && !s.g.ReachesAvoiding(x.GoVal.Blk, s.Blk, a.Blk) {
					return
				}
			}
			stable = false
		}
		root := g.Parent
		for root.Parent != nil {
			root = root.Parent
		}
		root.Each(chk)
		if stable && p.Root.Op == OpAlloc && t.writtenLater(p.Root.V, root) {
			stable = false
		}
		if stable {
			return t.loadAt(p, typ, g.GoVal)
		}
		return t.intern(fmt.Sprintf("load|%s@go%d", p.key(), g.GoVal.ID), func() *Term {
			return &Term{Op: OpLoad, Path: p, Typ: typ, At: at, Aux: "shared"}
		})
	}
	return t.intern(fmt.Sprintf("load|%s@init", p.key()), func() *Term {
		return &Term{Op: OpLoad, Path: p, Typ: typ, At: at, Aux: "init"}
	})
}

// writtenBetween: some block strictly between d (exclusive) and b (exclusive) may write p.
func (t *Terms) writtenBetween(d, b *Blk, p *Path, typ types.Type) bool {
	seen := map[*Blk]bool{d: true}
	work := append([]*Blk{}, b.Preds...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		for _, s := range x.Instrs {
			if e := t.effect(s, p, typ); e != effNone {
				return true
			}
		}
		work = append(work, x.Preds...)
	}
	return false
}

// PhiArgs gives the values that are joined by a join term, per predecessor block.
func (t *Terms) PhiArgs(x *Term) ([]*Term, []*Blk) {
	switch x.Op {
	case OpPhi:
		var r []*Term
		for _, a := range x.V.Args {
			r = append(r, t.Of(a))
		}
		return r, x.V.Blk.Preds
	case OpMemPhi:
		var r []*Term
		for _, p := range x.Blk.Preds {
			r = append(r, t.loadBefore(x.Path, x.Typ, p, len(p.Instrs)-1, x.At))
		}
		return r, x.Blk.Preds
	}
	return nil, nil
}

// JoinBlk is the block a join term belongs to.
func (x *Term) JoinBlk() *Blk {
	switch x.Op {
	case OpPhi:
		return x.V.Blk
	case OpMemPhi:
		return x.Blk
	}
	return nil
}

func isFreshOp(op Op) bool {
	return op == OpAlloc || op == OpMakeSlice || op == OpMakeMap || op == OpMakeChan
}

// escapes tells whether an allocation may be known elsewhere under another name.
func (t *Terms) escapes(a *Val) bool {
	if e := t.esc[a]; e != 0 {
		return e == 2
	}
	t.esc[a] = 1
	seen := map[*Val]bool{}
	var walk func(v *Val) bool
	walk = func(v *Val) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		for _, u := range t.uses[v] {
			switch u.Op {
			case OpLoad, OpLen, OpCap, OpIf, OpEnter, OpLeave, OpLookup, OpDelete, OpRange, OpNext, OpBin, OpIndex, OpCopy, OpRecv, OpClose:
			case OpStore:
				if u.Args[1] == v {
					// kept in a local variable that always has this value
					ls, ok := t.aliasLoads(u)
					if !ok {
						return true
					}
					for _, l := range ls {
						if l.g != a.g || walk(l) {
							return true
						}
					}
					continue
				}
				if u.g != a.g {
					return true // written by another goroutine
				}
			case OpMapUpdate:
				if u.Args[0] != v || u.g != a.g {
					return true
				}
			case OpFieldAddr, OpIndexAddr, OpSlice, OpIface, OpPhi, OpAssert, OpExtract, OpConv:
				if walk(u) {
					return true
				}
			case OpAppend:
				if len(u.Args) > 1 && u.Args[1] == v {
					// elements are copied
					if _, ok := v.Typ.Underlying().(*types.Slice); ok {
						continue
					}
					return true
				}
				if walk(u) {
					return true
				}
			case OpCall:
				// handled at the call
			case OpClosure:
				if t.closureEscapes(u, map[*Val]bool{}) {
					return true
				}
			case OpReturn:
			case OpGo:
				if u.Sub == nil {
					return true
				}
			default:
				return true
			}
		}
		return false
	}
	if walk(a) {
		t.esc[a] = 2
		return true
	}
	return false
}

// aliasLoads: the loads of the local variable that a store sets, if that is the
// only store to it.
func (t *Terms) aliasLoads(st *Val) ([]*Val, bool) {
	cell := st.Args[0]
	if cell.Op != OpAlloc || cell.g != st.g || t.escapes(cell) {
		return nil, false
	}
	var r []*Val
	for _, u := range t.uses[cell] {
		switch u.Op {
		case OpStore:
			if u != st {
				return nil, false
			}
		case OpLoad:
			if u.g != st.g || !st.Before(u) && !st.Blk.Dominates(u.Blk) {
				return nil, false
			}
			r = append(r, u)
		case OpClosure, OpEnter, OpLeave:
		default:
			return nil, false
		}
	}
	return r, true
}

// writtenLater: a closure that leaves the function writes to a local variable.
func (t *Terms) writtenLater(a *Val, root *Graph) bool {
	if r, ok := t.later[a]; ok {
		return r
	}
	if t.later == nil {
		t.later = map[*Val]bool{}
	}
	r := false
	for _, u := range t.uses[a] {
		if u.Op != OpClosure || u.Fn == nil {
			continue
		}
		writes := false
		for i, x := range u.Args {
			if x == a && i < len(u.Fn.FreeVars) && writesTo(u.Fn.FreeVars[i], map[ssa.Value]bool{}) {
				writes = true
			}
		}
		if !writes {
			continue
		}
		if t.closureEscapes(u, map[*Val]bool{}) {
			r = true
		}
		ct := t.Of(u)
		for _, e := range root.Exits {
			for _, x := range e.Args {
				for _, l := range t.Leaves(t.Of(x), nil) {
					if l == ct {
						r = true
					}
				}
			}
		}
	}
	t.later[a] = r
	return r
}

// writesTo: a function may write through a captured address.
func writesTo(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch i := r.(type) {
		case *ssa.Store:
			return true
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if writesTo(i, seen) {
				return true
			}
		case *ssa.IndexAddr:
			if writesTo(i, seen) {
				return true
			}
		case *ssa.MakeClosure:
			f := i.Fn.(*ssa.Function)
			for k, b := range i.Bindings {
				if b == v && writesTo(f.FreeVars[k], seen) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

// closureEscapes: the closure may run at a time this graph does not show.
func (t *Terms) closureEscapes(c *Val, seen map[*Val]bool) bool {
	if seen[c] {
		return false
	}
	seen[c] = true
	for _, u := range t.uses[c] {
		switch u.Op {
		case OpCall, OpEnter, OpLeave, OpReturn:
			// invoked during the call (spliced in), or inlined
		case OpPhi:
			if t.closureEscapes(u, seen) {
				return true
			}
		case OpStore:
			// into a local cell: it is found again through loads
			r := t.PathOf(u.Args[0]).Root
			if u.Args[1] == c && r.Op == OpAlloc && !t.escapes(r.V) {
				continue
			}
			return true
		case OpClosure:
			if t.closureEscapes(u, seen) {
				return true
			}
		case OpGo:
			if u.Sub == nil {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// rootsDisjoint: the two roots certainly denote different memory.
func (t *Terms) rootsDisjoint(a, b *Term) bool {
	if a == b {
		return false
	}
	if isFreshOp(a.Op) && isFreshOp(b.Op) {
		return true
	}
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		x, y := p[0], p[1]
		if !isFreshOp(x.Op) {
			continue
		}
		if t.derives(y, x, 0) {
			continue
		}
		if !t.escapes(x.V) {
			return true
		}
		if isOld(y) {
			return true // existed before the allocation
		}
	}
	if a.Op == OpGlobal && b.Op == OpGlobal {
		return true
	}
	return false
}

// isOld: a pointer that was there when the function was entered.
func isOld(y *Term) bool {
	switch y.Op {
	case OpGlobal, OpParam, OpFreeVar:
		return true
	case OpLoad:
		return y.Aux == "init" && y.Path != nil && isOld(y.Path.Root)
	}
	return false
}

// derives: y may have been computed from x (phi, append, slice...).
func (t *Terms) derives(y, x *Term, depth int) bool {
	if y == x {
		return true
	}
	if depth > 12 {
		return true
	}
	switch y.Op {
	case OpPhi:
		key := fmt.Sprintf("derives|%d|%d", y.ID, x.ID)
		if _, ok := t.loadMem[key]; ok {
			return false
		}
		t.loadMem[key] = y
		defer delete(t.loadMem, key)
		for _, a := range y.V.Args {
			if t.derives(t.Of(a), x, depth+1) {
				return true
			}
		}
		return false
	case OpAppend:
		return t.derives(t.Of(y.V.Args[0]), x, depth+1)
	case OpSlice, OpFieldAddr, OpIndexAddr:
		return t.derives(y.Args[0], x, depth+1)
	case OpCall:
		// fresh or received through memory; an allocation that is passed in may come back
		for _, a := range y.V.Args {
			if a != nil && t.Of(a) == x {
				return true
			}
		}
		return false
	case OpMemPhi, OpLoad:
		// loaded pointers only reach allocations that escaped (checked by the caller)
		return false
	}
	return false
}

// related: how a write to w (of type wt) concerns a location p (of type pt).
func (t *Terms) related(w *Path, wt types.Type, p *Path, pt types.Type) effKind {
	if wc, pc := w.class(wt), p.class(pt); wc != pc && !t.classesOverlap(w, wt, p, pt) {
		return effNone
	}
	if w.Root == p.Root {
		n := len(w.Steps)
		if len(p.Steps) < n {
			n = len(p.Steps)
		}
		exact := true
		for i := 0; i < n; i++ {
			a, b := w.Steps[i], p.Steps[i]
			if (a.Idx == nil) != (b.Idx == nil) {
				return effMay
			}
			if a.Idx == nil {
				if a.Field != b.Field {
					return effNone
				}
				continue
			}
			if a.Idx == b.Idx {
				continue
			}
			if d, ok := t.Diff(a.Idx, b.Idx); ok && d != 0 {
				return effNone
			}
			exact = false
		}
		if !exact {
			return effMay
		}
		switch {
		case len(w.Steps) == len(p.Steps):
			return effMust
		case len(w.Steps) < len(p.Steps):
			for _, s := range p.Steps[len(w.Steps):] {
				if s.Idx != nil {
					return effMay
				}
			}
			return effOver
		default:
			for _, s := range w.Steps[len(p.Steps):] {
				if s.Idx != nil {
					return effMay
				}
			}
			return effPart
		}
	}
	if t.rootsDisjoint(w.Root, p.Root) {
		return effNone
	}
	return effMay
}

// classesOverlap: locations of different class that may still be the same memory.
func (t *Terms) classesOverlap(w *Path, wt types.Type, p *Path, pt types.Type) bool {
	// struct stores cover fields and the other way round
	if hasField(wt, p) || hasField(pt, w) {
		return true
	}
	if types.Identical(wt, pt) {
		// same type through a plain pointer, or an element
		wf, pf := lastIsField(w), lastIsField(p)
		if wf && pf {
			return false
		}
		if !wf && !pf {
			return true
		}
		// a plain pointer can only point into a field whose address is taken
		f, o := w, p
		if pf {
			f, o = p, w
		}
		if len(o.Steps) == 0 {
			return t.addrTkn[f.class(wt)]
		}
		return false
	}
	return false
}

func lastIsField(p *Path) bool { return len(p.Steps) > 0 && p.Steps[len(p.Steps)-1].Idx == nil }

// hasField: struct type st has (possibly nested) the field that p selects last.
func hasField(st types.Type, p *Path) bool {
	s, ok := st.Underlying().(*types.Struct)
	if !ok || !lastIsField(p) {
		return false
	}
	for i := len(p.Steps) - 1; i >= 0 && p.Steps[i].Idx == nil; i-- {
		if p.Steps[i].Struct == structName(st) {
			return true
		}
	}
	_ = s
	return false
}

// effect tells what an instruction does to a location.
func (t *Terms) effect(s *Val, p *Path, typ types.Type) effKind {
	switch s.Op {
	case OpAlloc:
		if p.Root.Op == OpAlloc && p.Root.V == s {
			return effZero
		}
	case OpMakeSlice:
		if p.Root.Op == OpMakeSlice && p.Root.V == s {
			return effZero
		}
	case OpStore:
		st := s.Args[1].Typ
		if pt, ok := s.Args[0].Typ.Underlying().(*types.Pointer); ok {
			st = pt.Elem() // the value may have been converted
		}
		return t.related(t.PathOf(s.Args[0]), st, p, typ)
	case OpCopy:
		if t.elemsMay(s.Args[0].Typ, p, typ) {
			return t.elemsWritten(t.Of(s.Args[0]), s.Args[0].Typ, p, typ)
		}
	case OpAppend:
		if d := s.Args[0]; d.Op == OpSlice && d.Args[2] != nil && t.elemsMay(d.Typ, p, typ) {
			return t.elemsWritten(t.Of(d), d.Typ, p, typ)
		}
	case OpCall:
		return t.callEffect(s, p, typ)
	case OpSelect, OpRecv:
		return effNone
	}
	return effNone
}

// elemsMay: a cheap test whether writing elements of a slice type can concern a location at all.
func (t *Terms) elemsMay(st types.Type, p *Path, typ types.Type) bool {
	et := elemType(st)
	if et == nil {
		return false
	}
	if types.Identical(et, typ) {
		return !lastIsField(p)
	}
	return hasField(et, p) || containsType(typ, et)
}

func containsType(t, x types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if types.Identical(u.Field(i).Type(), x) || containsType(u.Field(i).Type(), x) {
				return true
			}
		}
	case *types.Array:
		return types.Identical(u.Elem(), x) || containsType(u.Elem(), x)
	}
	return false
}

func (t *Terms) elemsWritten(slice *Term, st types.Type, p *Path, typ types.Type) effKind {
	et := elemType(st)
	if et == nil {
		return effNone
	}
	unk := t.intern("anyindex", func() *Term { return &Term{Op: OpUnknown, Aux: "any"} })
	w := t.elemPath(slice, unk, et)
	if r := t.related(w, et, p, typ); r != effNone {
		return effMay
	}
	return effNone
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return a.Elem()
		}
	case *types.Array:
		return u.Elem()
	}
	return nil
}

// IsLock recognises taking a mutex.
func (v *Val) IsLock() bool {
	n := v.CalleeName()
	return v.Op == OpCall && (n == "(*sync.Mutex).Lock" || n == "(*sync.RWMutex).Lock" || n == "(*sync.RWMutex).RLock")
}

// IsUnlock recognises releasing a mutex.
func (v *Val) IsUnlock() bool {
	n := v.CalleeName()
	return v.Op == OpCall && (n == "(*sync.Mutex).Unlock" || n == "(*sync.RWMutex).Unlock" || n == "(*sync.RWMutex).RUnlock")
}

var pureExternal = []string{"fmt.", "errors.", "math.", "math/rand.", "time.", "(time.", "strings.", "strconv.", "log.", "os.", "(*log.", "(*github.com/crunchypi/go-narb/apsa/common.", "(github.com/crunchypi", "github.com/crunchypi"}

func (t *Terms) callEffect(s *Val, p *Path, typ types.Type) effKind {
	if s.IsLock() {
		// Other goroutines ran: everything that is not private may have changed.
		if isFreshOp(p.Root.Op) && !t.escapes(p.Root.V) {
			return effNone
		}
		if p.Root.Op == OpAlloc && t.privateCell(p.Root.V) {
			return effNone
		}
		if lastIsField(p) && t.st.p.constantField(p.class(typ)) {
			return effNone
		}
		if isReply(p.Root) && len(p.Steps) <= 1 && (len(p.Steps) == 0 || p.Steps[0].Idx == nil) {
			return effNone
		}
		return effMay
	}
	if s.IsUnlock() {
		return effNone
	}
	if s.Fn != nil && t.st.p.InModule(s.Fn) {
		m := t.st.p.ModOf(s.Fn)
		return t.modEffect(m, s, p, typ)
	}
	if s.Method != nil {
		r := effNone
		if len(s.Args) > 0 {
			for _, f := range t.st.p.Impls(s.Args[0].Typ, s.Method) {
				if e := t.modEffect(t.st.p.ModOf(f), s, p, typ); e != effNone {
					r = effMay
				}
			}
		}
		return r
	}
	if s.Dyn {
		return effNone // search functions and factories: assumed not to write their inputs
	}
	name := s.CalleeName()
	for _, x := range pureExternal {
		if strings.HasPrefix(name, x) {
			return effNone
		}
	}
	// External functions write what they are handed pointers to.
	for _, a := range s.Args {
		if a == nil {
			continue
		}
		x := t.Of(a)
		for x.Op == OpIface {
			x = x.Args[0]
		}
		if x.Typ == nil {
			continue
		}
		switch x.Typ.Underlying().(type) {
		case *types.Pointer:
			w := t.ptrPath(x)
			if w.Root == p.Root && len(w.Steps) <= len(p.Steps) {
				return effMay
			}
		case *types.Slice:
			if t.elemsWritten(x, x.Typ, p, typ) != effNone {
				return effMay
			}
		case *types.Interface:
			if x == p.Root {
				return effMay
			}
		}
	}
	return effNone
}

// isReply: the reply of an operation that net/rpc exports. It belongs to the call
// until it returns.
func isReply(x *Term) bool {
	if x.Op != OpParam || x.V == nil || x.V.SrcV == nil {
		return false
	}
	pr, ok := x.V.SrcV.(*ssa.Parameter)
	if !ok {
		return false
	}
	f := pr.Parent()
	sg := f.Signature
	if sg.Recv() == nil || f.Object() == nil || !f.Object().Exported() || sg.Params().Len() != 2 || sg.Results().Len() != 1 || len(f.Params) != 3 || f.Params[2] != pr {
		return false
	}
	if _, ok := pr.Type().Underlying().(*types.Pointer); !ok {
		return false
	}
	return types.Identical(sg.Results().At(0).Type(), types.Universe.Lookup("error").Type())
}

// privateCell: an allocation whose address only is captured by closures (a local variable).
func (t *Terms) privateCell(a *Val) bool { return !t.escapes(a) }

func (t *Terms) modEffect(m *ModSet, s *Val, p *Path, typ types.Type) effKind {
	c := p.class(typ)
	hit := m.Classes[c]
	if !hit {
		// structs that contain, or are contained in, written ones
		if st, ok := typ.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if m.Classes[fieldClass(structName(typ), st.Field(i).Name())] {
					hit = true
				}
			}
		}
		if !hit && len(p.Steps) == 0 && m.Classes[elemClass(typ)] {
			hit = true
		}
		if !hit && lastIsField(p) {
			if t.addrTkn[c] && m.Classes[cellClass(typ)] {
				hit = true
			}
		}
	}
	if !hit {
		return effNone
	}
	if isFreshOp(p.Root.Op) && !t.escapes(p.Root.V) {
		// only if it is passed along
		for _, a := range s.Args {
			if a != nil && t.derives(t.Of(a), p.Root, 0) {
				return effMay
			}
			if a != nil && a.Op == OpIface && t.derives(t.Of(a.Args[0]), p.Root, 0) {
				return effMay
			}
		}
		return effNone
	}
	return effMay
}

// map versions

// mapVersion names the state of a map just before an instruction.
func (t *Terms) mapVersion(m *Term, v *Val) string {
	b := v.Blk
	i := posIn(v) - 1
	for {
		for ; i >= 0; i-- {
			if t.mapEffect(b.Instrs[i], m) {
				return fmt.Sprintf("m%d", b.Instrs[i].ID)
			}
		}
		if b.Idom == nil {
			return "init"
		}
		if len(b.Preds) == 1 {
			b = b.Preds[0]
			i = len(b.Instrs) - 1
			continue
		}
		seen := map[*Blk]bool{b.Idom: true}
		work := append([]*Blk{}, b.Preds...)
		hit := false
		for len(work) > 0 && !hit {
			x := work[len(work)-1]
			work = work[:len(work)-1]
			if seen[x] {
				continue
			}
			seen[x] = true
			for _, s := range x.Instrs {
				if t.mapEffect(s, m) {
					hit = true
				}
			}
			work = append(work, x.Preds...)
		}
		if hit {
			return fmt.Sprintf("mphi%d", b.ID)
		}
		b = b.Idom
		i = len(b.Instrs) - 1
	}
}

func (t *Terms) mapEffect(s *Val, m *Term) bool {
	switch s.Op {
	case OpMapUpdate, OpDelete:
		x := t.Of(s.Args[0])
		return x == m || m.Typ != nil && x.Typ != nil && types.Identical(x.Typ.Underlying(), m.Typ.Underlying()) && !t.rootsDisjoint(x, m)
	case OpMakeMap:
		return m.V == s
	case OpCall:
		if s.IsLock() {
			return !(isFreshOp(m.Op) && !t.escapes(m.V))
		}
		if s.Fn != nil && t.st.p.InModule(s.Fn) && m.Typ != nil && t.st.p.ModOf(s.Fn).Classes[mapClass(m.Typ)] {
			if isFreshOp(m.Op) && !t.escapes(m.V) {
				for _, a := range s.Args {
					if a != nil && t.derives(t.Of(a), m, 0) {
						return true
					}
				}
				return false
			}
			return true
		}
	}
	return false
}

func (t *Terms) lookupVal(v *Val) *Term {
	m := t.Of(v.Args[0])
	k := t.Of(v.Args[1])
	if v.Args[0].Typ != nil {
		if _, ok := v.Args[0].Typ.Underlying().(*types.Map); !ok {
			return t.mk(OpIndex, "", v.Typ, m, k)
		}
	}
	aux := t.mapVersion(m, v)
	if v.CommaOk {
		aux += ",ok"
	}
	x := t.mk(OpLookup, aux, v.Typ, m, k)
	if x.V == nil {
		x.V = v
	}
	return x
}

// resolveFuncs finds all functions a value may be, if that set is known.
func (g *Graph) resolveFuncs(v *Val) []*Val {
	t := g.Terms()
	var out []*Val
	seen := map[*Term]bool{}
	var walk func(x *Term) bool
	walk = func(x *Term) bool {
		if x == nil {
			return false
		}
		if seen[x] {
			return true
		}
		seen[x] = true
		switch x.Op {
		case OpClosure, OpFunc:
			out = append(out, x.V)
			return true
		case OpPhi, OpMemPhi:
			args, _ := t.PhiArgs(x)
			for _, a := range args {
				if !walk(a) {
					return false
				}
			}
			return len(args) > 0
		case OpLoad:
			return t.elemFuncs(x, walk)
		}
		return false
	}
	if !walk(t.Of(v)) {
		return nil
	}
	return out
}

// elemFuncs: an element of a local array or slice literal that is filled with
// functions and not written otherwise.
func (t *Terms) elemFuncs(x *Term, walk func(*Term) bool) bool {
	if len(x.Path.Steps) == 0 || !isFreshOp(x.Path.Root.Op) || t.escapes(x.Path.Root.V) {
		return false
	}
	any := false
	for i := range x.Path.Steps {
		if x.Path.Steps[i].Idx != nil {
			any = true
		}
	}
	if !any {
		return false
	}
	ok, n := true, 0
	x.Path.Root.V.g.Each(func(s *Val) {
		if s.Op != OpStore || !ok {
			return
		}
		w := t.PathOf(s.Args[0])
		if w.Root != x.Path.Root || len(w.Steps) != len(x.Path.Steps) {
			return
		}
		for i := range w.Steps {
			if w.Steps[i].Idx == nil && w.Steps[i].Field != x.Path.Steps[i].Field {
				return
			}
		}
		n++
		if !walk(t.Of(s.Args[1])) {
			ok = false
		}
	})
	return ok && n > 0
}

func (x *Term) String() string { return x.str(0) }

func (x *Term) str(d int) string {
	if x == nil {
		return "_"
	}
	if d > 6 {
		return "..."
	}
	switch x.Op {
	case OpConst:
		return x.Aux
	case OpZero:
		return x.Aux
	case OpGlobal, OpFunc:
		return x.Aux
	case OpParam, OpFreeVar:
		return x.V.SrcV.Name()
	case OpLoad:
		ver := x.Aux
		if x.Ver != nil {
			ver = fmt.Sprintf("v%d", x.Ver.ID)
		}
		return "*" + x.Path.str(d+1) + "@" + ver
	case OpMemPhi:
		return "*" + x.Path.str(d+1) + fmt.Sprintf("@b%d", x.Blk.ID)
	case OpAdd:
		cs := strings.Split(x.Aux, ",")
		var p []string
		for i, a := range x.Args {
			p = append(p, cs[i]+"*"+a.str(d+1))
		}
		p = append(p, cs[len(cs)-1])
		return "(" + strings.Join(p, "+") + ")"
	case OpBin:
		return "(" + x.Args[0].str(d+1) + x.Aux + x.Args[1].str(d+1) + ")"
	}
	if x.V != nil && len(x.Args) == 0 {
		if x.Op == OpCall {
			return fmt.Sprintf("v%d:%s()", x.V.ID, x.V.CalleeName())
		}
		return fmt.Sprintf("v%d:%s", x.V.ID, x.Op)
	}
	var as []string
	for _, a := range x.Args {
		as = append(as, a.str(d+1))
	}
	return string(x.Op) + "{" + x.Aux + "}(" + strings.Join(as, ",") + ")"
}

func (p *Path) str(d int) string {
	r := p.Root.str(d)
	for _, s := range p.Steps {
		if s.Idx != nil {
			r += "[" + s.Idx.str(d) + "]"
		} else {
			r += "." + s.Name
		}
	}
	return r
}

func tokOf(s string) token.Token {
	switch s {
	case "==":
		return token.EQL
	case "!=":
		return token.NEQ
	case "<":
		return token.LSS
	case "<=":
		return token.LEQ
	case "+":
		return token.ADD
	case "-":
		return token.SUB
	case "*":
		return token.MUL
	case "/":
		return token.QUO
	case "%":
		return token.REM
	}
	return token.ILLEGAL
}

// Extract is one result of a call that gives several.
func (t *Terms) Extract(x *Term, i int, typ types.Type) *Term {
	return t.mk(OpExtract, fmt.Sprint(i), typ, x)
}

// hasRec: the term is made from one that was still being computed.
func hasRec(x *Term, depth int) bool {
	if x == nil || depth == 0 {
		return false
	}
	if x.Op == OpUnknown && x.Aux == "rec" {
		return true
	}
	for _, a := range x.Args {
		if hasRec(a, depth-1) {
			return true
		}
	}
	return false
}
