package rules

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"trypocheck/eng"
)

// Operations that answer without looking a namespace up, or create it.
var noNamespaceErr = map[string]bool{"Namespaces": true, "Meta": true, "AddDataPoint": true, "StealCentroid": true}

func checkP22(c *C) {
	_, _, errF := c.clientFields()
	if c.Expect(errF != "", "client-error", "KMeansClient", "-", "KMeansClient does not keep the error it is given") {
		c.errKept(errF)
		for _, m := range c.clientMethods() {
			c.clientReports(m, errF)
		}
	}
	nsErr := c.nsErrType()
	names := map[string]bool{}
	for n, m := range c.serverMethods() {
		names[n] = true
		if noNamespaceErr[n] {
			continue
		}
		c.serverReports(m, nsErr)
	}
	c.stealOK()
	c.Min("client-error", 22)
	c.Min("no-success", 19)
	c.Min("namespace-error", 14)
	c.Min("steal-ok", 1)
}

// errKept: the constructor keeps the error variable of the caller; nothing replaces it.
func (c *C) errKept(errF string) {
	f := c.Func(pRPC, "KMeansClient")
	g := c.Flat(f, "client")
	if g == nil {
		return
	}
	t := g.Terms()
	for _, e := range g.Exits {
		r := t.Of(e.Args[0])
		pt, ok := r.Typ.Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		loc := t.FieldLoc(t.PtrLoc(r), pt.Elem(), errF)
		p := t.Of(g.Params[2])
		x := t.LoadAt(loc, p.Typ, e)
		s := &Sim{G: g, T: t, Track: []*eng.Term{x, t.Bin(eqTok, p, t.Zero(p.Typ), types.Typ[types.Bool])}}
		isNil := t.Bin(eqTok, p, t.Zero(p.Typ), types.Typ[types.Bool])
		s.Exit = func(st *St, ret *eng.Val) {
			if ret != e {
				return
			}
			y := st.Resolve(x)
			v, known := st.Truth(isNil)
			switch {
			case y == p && known && !v:
				c.OK("client-error", "KMeansClient", e.Where())
			case y.Op == eng.OpAlloc && known && v:
				c.OK("client-error", "KMeansClient nil", e.Where())
			default:
				c.Bad("client-error", "KMeansClient", e.Where(), "the client reports errors to %v and not to the variable of the caller (path %s)", y, st.Path())
			}
		}
		s.Run()
		c.States += s.States
	}
	sn := pRPC + ".kmeansClient"
	c.Expect(c.P.ConstantField(sn, errF), "client-error", "field", where(c, f), "the error variable of a client is replaced after it was made")
}

// clientReports: after a client method the error is what dialing or the call gave.
func (c *C) clientReports(m *clientM, errF string) {
	w := where(c, m.Fn)
	if len(m.Calls) != 1 {
		c.Bad("client-error", m.Name, w, "makes %d remote calls instead of one", len(m.Calls))
		return
	}
	g, t, call := m.G, m.T, m.Calls[0]
	self := t.Of(g.Params[0])
	pt, ok := self.Typ.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	cl := m.Fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	var ft types.Type
	for i := 0; i < cl.NumFields(); i++ {
		if cl.Field(i).Name() == errF {
			ft = cl.Field(i).Type()
		}
	}
	errT := types.Universe.Lookup("error").Type()
	floc := t.FieldLoc(t.PtrLoc(self), pt.Elem(), errF)
	res := t.Of(call)
	resNil := t.Bin(eqTok, res, t.Zero(errT), types.Typ[types.Bool])
	isDial := map[*eng.Val]bool{}
	for _, d := range m.Dials {
		isDial[d] = true
	}
	// the error as it is before an instruction
	var errAt func(at *eng.Val, depth int) *eng.Term
	errAt = func(at *eng.Val, depth int) *eng.Term {
		p := t.LoadAt(floc, ft, at)
		x := t.LoadAt(t.PtrLoc(p), errT, at)
		// calls that have nothing to do with the error
		if x.Op == eng.OpLoad && x.Ver != nil && x.Ver.Op == eng.OpCall && x.Ver != call && !isDial[x.Ver] && depth < 8 {
			return errAt(x.Ver, depth+1)
		}
		return x
	}
	s := &Sim{G: g, T: t, Track: []*eng.Term{resNil}}
	for _, e := range g.Exits {
		s.Track = append(s.Track, errAt(e, 0))
		for _, a := range e.Args {
			s.Track = append(s.Track, t.Of(a))
		}
	}
	bad, badS := false, false
	s.Event = func(e *St, v *eng.Val) {
		if v == call {
			e.A = "called"
		}
	}
	s.Exit = func(e *St, ret *eng.Val) {
		x := e.Resolve(errAt(ret, 0))
		if e.A == "called" {
			if x != res {
				if v, known := e.Truth(resNil); known && v && (x.IsNil() || x.Op == eng.OpLoad && x.Aux == "init") {
					return
				}
				bad = true
				c.Bad("client-error", m.Name, ret.Where(), "the error of the call is not reported, the client's error is %v (path %s)", x, e.Path())
			}
			return
		}
		isErr := x.Op == eng.OpExtract && x.Aux == "1" && isDial[x.Args[0].V]
		if isErr {
			v, known := e.Truth(t.Bin(eqTok, x, t.Zero(errT), types.Typ[types.Bool]))
			isErr = known && !v
		}
		if !isErr {
			bad = true
			c.Bad("client-error", m.Name, ret.Where(), "returns without having called the node and without reporting why, the client's error is %v (path %s)", x, e.Path())
		}
		for i, a := range ret.Args {
			y := e.Resolve(t.Of(a))
			if !zeroish(y) {
				badS = true
				c.Bad("no-success", m.Name, ret.Where(), "result %d is %v although the node was not called (path %s)", i, y, e.Path())
			}
		}
	}
	s.Run()
	c.States += s.States
	if s.Overflow {
		c.Bad("client-error", m.Name, w, "too many paths")
		return
	}
	// A failed call leaves the reply as it was: it has to be empty before.
	if m.Reply != nil {
		rt := m.Reply.Typ
		if p, ok := rt.Underlying().(*types.Pointer); ok {
			rt = p.Elem()
		}
		x := t.LoadAt(t.PtrLoc(m.Reply), rt, call)
		if !zeroish(x) {
			badS = true
			c.Bad("no-success", m.Name, call.Where(), "a call that fails leaves %v as the reply", x)
		}
	}
	if m.Name == "NearestCentroids" && !c.nearestTrue(m, call, resNil) {
		badS = true
	}
	if !bad {
		c.OK("client-error", m.Name, w)
	}
	if !badS {
		c.OK("no-success", m.Name, w)
	}
}

// nearestTrue: success is only reported for a call that replied something.
func (c *C) nearestTrue(m *clientM, call *eng.Val, resNil *eng.Term) bool {
	g, t := m.G, m.T
	if m.Reply == nil {
		return true
	}
	rt := m.Reply.Typ.Underlying().(*types.Pointer).Elem()
	ok := true
	reply := t.PtrLoc(m.Reply)
	s := &Sim{G: g, T: t, Track: []*eng.Term{resNil}}
	for _, e := range g.Exits {
		for _, a := range e.Args {
			s.Track = append(s.Track, t.Of(a))
		}
	}
	nonEmpty := func(e *St) bool {
		if v, known := e.Truth(resNil); known && v {
			return true
		}
		for _, f := range e.Facts().List() {
			hit := false
			t.Walk(f.Cond, func(x *eng.Term) bool {
				if x.Op == eng.OpLen {
					y := e.Resolve(x.Args[0])
					if y.Op == eng.OpLoad && y.Path != nil && eng.SamePath(y.Path, reply) && y.Ver == call {
						if lo, _ := e.Facts().Range(x); lo >= 1 {
							hit = true
						}
					}
				}
				return true
			})
			if hit {
				return true
			}
		}
		return false
	}
	s.Event = func(e *St, v *eng.Val) {
		if v == call {
			e.A = "called"
		}
		if e.A == "called" && nonEmpty(e) {
			e.A = "got"
		}
	}
	_ = rt
	s.Exit = func(e *St, ret *eng.Val) {
		x := t.Of(ret.Args[1])
		if v, known := e.Truth(x); known && !v {
			return
		}
		if e.A == "got" || e.A == "called" && nonEmpty(e) {
			return
		}
		ok = false
		c.Bad("no-success", m.Name, ret.Where(), "may report success although the call failed (path %s)", e.Path())
	}
	s.Run()
	c.States += s.States
	return ok
}

// zeroish: a value that says nothing was found or done.
func zeroish(x *eng.Term) bool {
	if x == nil {
		return false
	}
	if x.IsNil() || x.Op == eng.OpZero || emptyList(x) {
		return true
	}
	if b, ok := x.Bool(); ok {
		return !b
	}
	if n, ok := x.Int(); ok {
		return n == 0
	}
	if s, ok := x.Str(); ok {
		return s == ""
	}
	if x.Op == eng.OpAgg {
		for _, a := range x.Args {
			if !zeroish(a) {
				return false
			}
		}
		return true
	}
	return false
}

// nsErrType finds the error for unknown namespaces and checks that it survives the
// wire: net/rpc takes an empty message for success.
func (c *C) nsErrType() types.Type {
	n := c.P.Named(pRPC, "NamespaceErr")
	if n == nil {
		c.Bad("namespace-error", "NamespaceErr", "-", "type NamespaceErr does not exist anymore")
		return nil
	}
	f := c.P.Method(pRPC, "NamespaceErr", "Error")
	if f == nil {
		c.Bad("namespace-error", "NamespaceErr", "-", "NamespaceErr is not an error anymore")
		return n
	}
	g := c.Flat(f, "L3")
	if g == nil {
		return n
	}
	t := g.Terms()
	for _, e := range g.Exits {
		for _, x := range t.Leaves(t.Of(e.Args[0]), nil) {
			c.Expect(nonEmptyString(x), "namespace-error", "NamespaceErr.Error", e.Where(), "the message may be empty (%v), which net/rpc reports as success", x)
		}
	}
	return n
}

func nonEmptyString(x *eng.Term) bool {
	if s, ok := x.Str(); ok {
		return s != ""
	}
	switch x.Op {
	case eng.OpCall:
		if n := Callee(x.V); n == "fmt.Sprintf" || n == "fmt.Sprint" || n == "fmt.Sprintln" {
			if n == "fmt.Sprintln" {
				return true
			}
			if len(x.V.Args) > 0 {
				if k := x.V.Args[0]; k.Op == eng.OpConst {
					if cv, ok := k.SrcV.(*ssa.Const); ok && cv.Value != nil && cv.Value.Kind() == constant.String {
						return literalText(constant.StringVal(cv.Value))
					}
				}
			}
		}
		return false
	case eng.OpBin, eng.OpAdd:
		for _, a := range x.Args {
			if nonEmptyString(a) {
				return true
			}
		}
	}
	return false
}

// literalText: a format that prints something whatever the operands are.
func literalText(f string) bool {
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			return true
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[i]) >= 0 {
			i++
		}
		if i < len(f) && (f[i] == '%' || f[i] == 'q') {
			return true
		}
	}
	return false
}

// serverReports: a missing namespace is answered with its error, an existing one without.
func (c *C) serverReports(m *serverM, nsErr types.Type) {
	g, t := m.G, m.T
	w := where(c, m.Fn)
	s := &Sim{G: g, T: t}
	for _, e := range g.Exits {
		s.Track = append(s.Track, t.Of(e.Args[0]))
	}
	bad := false
	n := 0
	s.Branch = func(e *St, cond *eng.Term, val bool) {
		if e.A != "" {
			return
		}
		key, ex, ok := existsCond(cond)
		if !ok || !requestNS(m, key) {
			return
		}
		if ex == val {
			e.A = "E"
		} else {
			e.A = "M"
		}
	}
	s.Exit = func(e *St, ret *eng.Val) {
		n++
		x := e.Resolve(t.Of(ret.Args[0]))
		switch e.A {
		case "":
			bad = true
			c.Bad("namespace-error", m.Name, ret.Where(), "answers without having looked for the namespace of the request (path %s)", e.Path())
		case "M":
			good := x.Op == eng.OpIface && x.Args[0].Typ != nil && nsErr != nil && (types.Identical(x.Args[0].Typ, nsErr) || types.Identical(x.Args[0].Typ, types.NewPointer(nsErr)))
			if !good {
				bad = true
				c.Bad("namespace-error", m.Name, ret.Where(), "a missing namespace is answered with %v instead of the namespace error (path %s)", x, e.Path())
			}
		case "E":
			if !x.IsNil() {
				bad = true
				c.Bad("namespace-error", m.Name, ret.Where(), "an existing namespace is answered with the error %v (path %s)", x, e.Path())
			}
		}
	}
	s.Run()
	c.States += s.States
	if s.Overflow || n == 0 {
		c.Bad("namespace-error", m.Name, w, "the ways out of this operation are not known")
		return
	}
	if !bad {
		c.OK("namespace-error", m.Name, w)
	}
}

// requestNS: a server term that is the namespace of the request.
func requestNS(m *serverM, x *eng.Term) bool {
	if x == nil {
		return false
	}
	if x == m.Arg {
		b, ok := x.Typ.Underlying().(*types.Basic)
		return ok && b.Kind() == types.String
	}
	root, f := sel(x)
	return root == m.Arg && len(f) == 1 && f[0] == "NameSpace"
}

// stealOK: stealing reports ok only if none of its remote calls failed.
func (c *C) stealOK() {
	f := c.Method(pRPC, "KMeansServer", "StealCentroid")
	g := c.Flat(f, "L3")
	if g == nil {
		return
	}
	t := g.Terms()
	w := where(c, f)
	errT := types.Universe.Lookup("error").Type()
	// error variables of the clients it uses
	var errs []*eng.Term
	clientOf := map[*eng.Term]*eng.Term{}
	for _, v := range Calls(g, is("rpc.KMeansClient")) {
		x := t.Of(v.Args[2])
		if x.IsNil() {
			continue
		}
		if x.Op != eng.OpAlloc {
			c.Bad("steal-ok", "client", v.Where(), "the error variable of the client is %v", x)
			return
		}
		errs = append(errs, x)
		clientOf[t.Of(v)] = x
	}
	ops := Calls(g, func(n string) bool { return strings.HasPrefix(n, "kmeansClient.") })
	isOp := map[*eng.Val]bool{}
	for _, v := range ops {
		isOp[v] = true
	}
	if !c.Expect(len(ops) > 0 && len(errs) > 0, "steal-ok", "calls", w, "no remote calls with an error variable") {
		return
	}
	pt := f.Signature.Params().At(1).Type().Underlying().(*types.Pointer).Elem()
	okLoc := t.FieldLoc(t.PtrLoc(t.Of(g.Params[2])), pt, "OK")
	bt := types.Typ[types.Bool]
	s := &Sim{G: g, T: t, Start: "00"}
	for _, e := range g.Exits {
		s.Track = append(s.Track, t.LoadAt(okLoc, bt, e))
	}
	// curErr: a value is the current content of the error variable
	isCur := func(e *St, x *eng.Term, at *eng.Val) bool {
		for _, v := range errs {
			y := t.LoadAt(t.PtrLoc(v), errT, at)
			if y == x || e.Resolve(y) == x {
				return true
			}
		}
		return false
	}
	errTest := func(cond *eng.Term) (x *eng.Term, nilIf bool, ok bool) {
		neg := false
		for cond.Op == eng.OpUn && cond.Aux == "!" {
			cond, neg = cond.Args[0], !neg
		}
		if cond.Op == eng.OpBin && (cond.Aux == "==" || cond.Aux == "!=") && cond.Args[1].IsNil() {
			return cond.Args[0], (cond.Aux == "==") != neg, true
		}
		return nil, false, false
	}
	bad := false
	n := 0
	s.Event = func(e *St, v *eng.Val) {
		if !isOp[v] {
			return
		}
		if cl := t.Of(v.Args[0]); clientOf[cl] == nil {
			e.A = "11" // its errors are dropped
			return
		}
		if e.A[0] == '1' {
			e.A = "11"
		} else {
			e.A = "1" + e.A[1:]
		}
	}
	s.Branch = func(e *St, cond *eng.Term, val bool) {
		x, nilIf, ok := errTest(cond)
		if !ok || nilIf != val {
			return
		}
		if isCur(e, x, e.Blk.Last()) {
			e.A = "0" + e.A[1:]
		}
	}
	s.Exit = func(e *St, ret *eng.Val) {
		n++
		x := e.Resolve(t.LoadAt(okLoc, bt, ret))
		if v, known := e.Truth(x); known && !v {
			return
		}
		if x.Op == eng.OpLoad && x.Aux == "init" {
			return // as net/rpc made it: false
		}
		if e.A == "00" {
			if v, known := e.Truth(x); known && v {
				return
			}
		}
		if y, nilIf, ok := errTest(x); ok && nilIf && isCur(e, y, ret) && e.A[1] == '0' {
			return
		}
		bad = true
		c.Bad("steal-ok", "StealCentroid", ret.Where(), "ok may be reported although a call to the other node failed: %v (path %s)", x, e.Path())
	}
	s.Run()
	c.States += s.States
	if s.Overflow || n == 0 {
		c.Bad("steal-ok", "StealCentroid", w, "the ways out of this operation are not known")
		return
	}
	if !bad {
		c.OK("steal-ok", "StealCentroid", w)
	}
}

func init() {
	register("P22", checkP22, Desc{
		How: "On every path of every client method the variable for errors must hold, at the end, the error of the remote call (or the dialing error, known to be set, if no call was made), and the results must be empty without a call; the reply is empty before the call. On every path of the server operations the first decision on the existence of the requested namespace decides between the namespace error and none. For stealing an automaton tracks which remote calls were made since the shared error was last seen to be nil.",
		Rules: map[string]string{
			"client-error": "client methods report dialing and call errors in the caller's variable", "no-success": "and nothing but empty results without a successful call",
			"namespace-error": "a missing namespace is answered with a non-empty NamespaceErr, an existing one with no error", "steal-ok": "StealCentroid reports OK only if no remote call failed",
		},
		Assumes: []string{"net/rpc leaves the reply alone if a call fails", "a namespace that exists stays (P04)"},
	})
}
