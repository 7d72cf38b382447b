package rules

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"trypocheck/eng"
)

// clientM is the model of a method of the client.
type clientM struct {
	Fn    *ssa.Function
	Name  string
	G     *eng.Graph
	T     *eng.Terms
	Dials []*eng.Val
	Calls []*eng.Val // remote calls
	Op    string     // name of the remote operation
	Arg   *eng.Term  // value that is sent
	Reply *eng.Term  // address of the reply (nil if none)
}

// serverM is the model of an operation of the server.
type serverM struct {
	Fn    *ssa.Function
	Name  string
	G     *eng.Graph
	T     *eng.Terms
	Arg   *eng.Term
	Reply *eng.Term
	Looks []*eng.Val // lookups in the namespace table
}

func (c *C) clientMethods() []*clientM {
	var r []*clientM
	for _, f := range c.P.Methods(pRPC, "kmeansClient") {
		if !exported(f) {
			continue
		}
		g := c.Flat(f, "client")
		if g == nil {
			continue
		}
		m := &clientM{Fn: f, Name: f.Name(), G: g, T: g.Terms()}
		g.Each(func(v *eng.Val) {
			switch Callee(v) {
			case "net/rpc.Dial", "net/rpc.DialHTTP", "net.Dial", "net.DialTimeout", "net/rpc/jsonrpc.Dial":
				m.Dials = append(m.Dials, v)
			case "(*net/rpc.Client).Call", "(*net/rpc.Client).Go":
				m.Calls = append(m.Calls, v)
			}
		})
		if len(m.Calls) >= 1 {
			v := m.Calls[0]
			if s, ok := m.T.Of(v.Args[1]).Str(); ok {
				m.Op = s
			}
			m.Arg = unwrapIface(m.T.Of(v.Args[2]))
			if rp := unwrapIface(m.T.Of(v.Args[3])); rp != nil && !rp.IsNil() {
				m.Reply = rp
			}
		}
		r = append(r, m)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name < r[j].Name })
	return r
}

// serverMethods finds the operations that net/rpc exports.
func (c *C) serverMethods() map[string]*serverM {
	r := map[string]*serverM{}
	for _, f := range c.P.Methods(pRPC, "KMeansServer") {
		if !exported(f) || f.Signature.Params().Len() != 2 || f.Signature.Results().Len() != 1 {
			continue
		}
		if _, ok := f.Signature.Params().At(1).Type().Underlying().(*types.Pointer); !ok {
			continue
		}
		g := c.Flat(f, "L3")
		if g == nil {
			continue
		}
		m := &serverM{Fn: f, Name: f.Name(), G: g, T: g.Terms()}
		m.Arg, m.Reply = m.T.Of(g.Params[1]), m.T.Of(g.Params[2])
		g.Each(func(v *eng.Val) {
			if v.Op == eng.OpLookup && isSlots(m.T.Of(v.Args[0])) {
				m.Looks = append(m.Looks, v)
			}
		})
		r[m.Name] = m
	}
	return r
}

// isSlots recognises the map of namespaces by its type.
func isSlots(x *eng.Term) bool { return x != nil && x.Typ != nil && isSlotsType(x.Typ) }

func isSlotsType(tp types.Type) bool {
	m, ok := tp.Underlying().(*types.Map)
	if !ok {
		return false
	}
	p, ok := m.Elem().Underlying().(*types.Pointer)
	return ok && eng.TypeName(p.Elem()) == pRPC+".CManagerSlot"
}

// lookupOK: x is the "exists" result of a lookup in the namespace table.
func lookupOK(x *eng.Term) (key *eng.Term, ok bool) {
	if x.Op == eng.OpExtract && x.Aux == "1" && x.Args[0].Op == eng.OpLookup && isSlots(x.Args[0].Args[0]) {
		return x.Args[0].Args[1], true
	}
	return nil, false
}

// existsCond reads a condition on the existence of a namespace: the key and what
// the condition being true means.
func existsCond(x *eng.Term) (key *eng.Term, exists, ok bool) {
	if x.Op == eng.OpUn && x.Aux == "!" {
		k, e, ok := existsCond(x.Args[0])
		return k, !e, ok
	}
	if k, ok := lookupOK(x); ok {
		return k, true, true
	}
	if x.Op == eng.OpBin && (x.Aux == "==" || x.Aux == "!=") && x.Args[1].IsNil() {
		y := x.Args[0]
		if y.Op == eng.OpExtract && y.Aux == "0" {
			y = y.Args[0]
		}
		if y.Op == eng.OpLookup && isSlots(y.Args[0]) {
			return y.Args[1], x.Aux == "!=", true
		}
	}
	return nil, false, false
}

// sent translates a server term into the value the client sent there.
func sent(cm *clientM, sm *serverM, x *eng.Term) *eng.Term {
	if x == nil || cm.Arg == nil {
		return nil
	}
	if x == sm.Arg {
		return cm.Arg
	}
	if x.Op == eng.OpField && x.Args[0] == sm.Arg {
		n := 0
		for _, ch := range x.Aux {
			n = n*10 + int(ch-'0')
		}
		return cm.T.Project(cm.Arg, n, x.Typ)
	}
	return nil
}

// knownFlag: a constant option is as good as a condition that is known to have its value.
func knownFlag(t *eng.Terms, x *eng.Term, at *eng.Val, want func(*eng.Term) bool) *eng.Term {
	b, ok := x.Bool()
	if !ok {
		return x
	}
	for _, f := range t.BlockFacts(at.Blk).List() {
		if f.Val == b && want(f.Cond) {
			return f.Cond
		}
	}
	return x
}

// isNS: a client term that is the namespace of the client.
func isClientField(cm *clientM, x *eng.Term, field string) bool {
	if x == nil {
		return false
	}
	root, f := sel(x)
	return root == cm.T.Of(cm.G.Params[0]) && len(f) == 1 && f[0] == field && (x.Op == eng.OpLoad && x.Aux == "init" || x.Op == eng.OpField)
}

// nsFieldName finds the field of the client that its constructor fills with the
// namespace, and the one with the address.
func (c *C) clientFields() (addr, ns, err string) {
	f := c.Func(pRPC, "KMeansClient")
	g := c.Flat(f, "client")
	if g == nil {
		return
	}
	t := g.Terms()
	for _, e := range g.Exits {
		r := t.Of(e.Args[0])
		pt, ok := r.Typ.Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		st, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			loc := t.FieldLoc(t.PtrLoc(r), pt.Elem(), st.Field(i).Name())
			v := t.LoadAt(loc, st.Field(i).Type(), e)
			switch v {
			case t.Of(g.Params[0]):
				addr = st.Field(i).Name()
			case t.Of(g.Params[1]):
				ns = st.Field(i).Name()
			}
			for _, lf := range t.Leaves(v, nil) {
				if lf == t.Of(g.Params[2]) {
					err = st.Field(i).Name()
				}
			}
		}
	}
	return
}

// The remote operation a client method stands for where the names differ.
var opNames = map[string]string{"StealCentroids": "StealCentroid"}

func opOf(m string) string {
	if o, ok := opNames[m]; ok {
		return o
	}
	return m
}

// Operations of the storage layer behind a remote operation, with the client
// parameters that have to arrive as their arguments (-1: anything, checked elsewhere).
type spec struct {
	op     string
	args   []interface{} // int: client parameter; bool/int64 constants as "=..." strings; nil: checked elsewhere
	result bool
	allow  []string
}

var specs = map[string]spec{
	"Vec":                          {op: "CentroidManager.Vec", result: true},
	"AddDataPoint":                 {op: "CentroidManager.AddDataPoint", args: []interface{}{0}},
	"DrainUnordered":               {op: "CentroidManager.DrainUnordered", args: []interface{}{0}, result: true},
	"DrainOrdered":                 {op: "CentroidManager.DrainOrdered", args: []interface{}{0}, result: true},
	"Expire":                       {op: "CentroidManager.Expire"},
	"LenDP":                        {op: "CentroidManager.LenDP", result: true},
	"MemTrim":                      {op: "CentroidManager.MemTrim"},
	"MoveVector":                   {op: "CentroidManager.MoveVector", result: true},
	"DistributeDataPointsInternal": {op: "CentroidManager.DistributeDataPointsInternal", args: []interface{}{0}},
	"KNNLookup":                    {op: "CentroidManager.KNNLookup", args: []interface{}{0, 1, 2}, result: true},
	"NearestCentroids":             {op: "CentroidManager.NearestCentroids", args: []interface{}{0, 1, 2}},
	"NearestCentroidVec":           {op: "CentroidManager.NearestCentroids", args: []interface{}{0, "=1", "=false"}},
	"SplitCentroids":               {op: "CentroidManager.SplitCentroids", args: []interface{}{nil}},
	"MergeCentroids":               {op: "CentroidManager.MergeCentroids", args: []interface{}{nil}},
	"DistributeDataPointsFast":     {op: "CentroidManager.DrainOrdered", args: []interface{}{1}, allow: []string{"CentroidManager.AddDataPoint"}},
	"DistributeDataPointsAccurate": {op: "CentroidManager.DrainOrdered", args: []interface{}{1}, allow: []string{"CentroidManager.AddDataPoint"}},
	"StealCentroids":               {allow: []string{"CentroidManager.Vec", "CentroidManager.MoveVector", "CentroidManager.LenDP", "Centroid.LenDP", "Centroid.Vec"}},
	"Namespaces":                   {},
	"Meta":                         {allow: []string{"CentroidManager.LenDP"}},
}

// Reads that may accompany any operation.
var pureOps = map[string]bool{"CentroidManager.Vec": true, "CentroidManager.LenDP": true, "Centroid.Vec": true, "Centroid.LenDP": true}

func isStoreOp(n string) bool {
	return strings.HasPrefix(n, "CentroidManager.") || strings.HasPrefix(n, "Centroid.") || strings.HasPrefix(n, "centroid.") || strings.HasPrefix(n, "centroidmanager.")
}

func checkP15(c *C) {
	_, nsF, _ := c.clientFields()
	c.Expect(nsF != "", "client", "KMeansClient", "-", "KMeansClient does not keep the namespace it is given")
	cms := c.clientMethods()
	sms := c.serverMethods()
	byName := map[string]*clientM{}
	for _, m := range cms {
		byName[m.Name] = m
	}
	var names []string
	for n := range specs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if byName[n] == nil {
			c.Bad("client", n, "-", "client method %s does not exist anymore", n)
		}
	}
	for _, m := range cms {
		w := where(c, m.Fn)
		sp, known := specs[m.Name]
		if !known {
			if len(m.Calls) == 0 {
				continue
			}
			// An operation that was added: it has to go to the server operation of its own name.
			c.Expect(m.Op == "KMeansServer."+m.Name, "name", m.Name, w, "calls %q", m.Op)
			continue
		}
		if !c.Expect(len(m.Calls) == 1, "one-call", m.Name, w, "makes %d remote calls instead of one", len(m.Calls)) {
			continue
		}
		call := m.Calls[0]
		if !c.Expect(m.Op == "KMeansServer."+opOf(m.Name), "name", m.Name, call.Where(), "calls remote operation %q", m.Op) {
			continue
		}
		sm := sms[opOf(m.Name)]
		if !c.Expect(sm != nil, "server", m.Name, w, "the server has no such operation with a signature that net/rpc accepts") {
			continue
		}
		c.dialed(m)
		c.wireTypes(m, sm)
		c.replyReturned(m, sm)
		c.served(m, sm, sp, nsF)
	}
	c.registered()
	c.Min("one-call", 19)
	c.Min("name", 19)
	c.Min("types", 19)
	c.Min("returns", 11)
	c.Min("op", 14)
	c.Min("arg", 14)
	c.Min("reply", 10)
	c.Min("wire", 40)
}

// dialed: the call goes to the address of the client.
func (c *C) dialed(m *clientM) {
	addrF, _, _ := c.clientFields()
	for _, d := range m.Dials {
		a := m.T.Of(d.Args[1])
		c.Expect(isClientField(m, a, addrF), "dial", m.Name, d.Where(), "connects to %v and not to the address of the client", a)
	}
	c.Expect(len(m.Dials) > 0, "dial", m.Name, where(c, m.Fn), "does not connect")
}

func (c *C) wireTypes(m *clientM, sm *serverM) {
	w := m.Calls[0].Where()
	at := m.Arg.Typ
	st := sm.Fn.Signature.Params().At(0).Type()
	if pt, ok := st.Underlying().(*types.Pointer); ok {
		st = pt.Elem()
	}
	if pt, ok := at.Underlying().(*types.Pointer); ok {
		at = pt.Elem()
	}
	c.Expect(types.Identical(at, st) || gobCompatible(at, st), "types", m.Name, w, "sends %v but the server expects %v", at, st)
	if m.Reply != nil {
		rt := m.Reply.Typ
		c.Expect(types.Identical(rt, sm.Fn.Signature.Params().At(1).Type()), "types", m.Name+" reply", w, "receives %v but the server replies with %v", rt, sm.Fn.Signature.Params().At(1).Type())
	}
	seen := map[string]bool{}
	c.wire(m.Name, st, seen, w)
	c.wire(m.Name, sm.Fn.Signature.Params().At(1).Type(), seen, w)
}

func gobCompatible(a, b types.Type) bool {
	x, ok := a.Underlying().(*types.Struct)
	y, ok2 := b.Underlying().(*types.Struct)
	if !ok || !ok2 || x.NumFields() != y.NumFields() {
		return false
	}
	for i := 0; i < x.NumFields(); i++ {
		f := x.Field(i)
		found := false
		for j := 0; j < y.NumFields(); j++ {
			if y.Field(j).Name() == f.Name() && types.Identical(y.Field(j).Type(), f.Type()) {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// wire: every field of a type that travels survives encoding/gob.
func (c *C) wire(inst string, tp types.Type, seen map[string]bool, w string) {
	k := tp.String()
	if seen[k] {
		return
	}
	seen[k] = true
	if n, ok := tp.(*types.Named); ok {
		if n.Obj().Pkg() != nil && !eng.InModulePath(n.Obj().Pkg().Path()) {
			return // time.Time and the like bring their own encoding
		}
		for _, mn := range []string{"GobEncode", "GobDecode", "MarshalBinary", "UnmarshalBinary"} {
			for _, x := range []types.Type{n, types.NewPointer(n)} {
				if ms := types.NewMethodSet(x).Lookup(n.Obj().Pkg(), mn); ms != nil {
					c.Bad("wire", inst, w, "%v has its own encoding (%s), which is not understood", n, mn)
					return
				}
			}
		}
	}
	switch u := tp.Underlying().(type) {
	case *types.Basic:
		c.Expect(u.Kind() != types.UnsafePointer && u.Kind() != types.Uintptr, "wire", inst+" "+k, w, "cannot be sent")
	case *types.Pointer:
		c.wire(inst, u.Elem(), seen, w)
	case *types.Slice:
		c.wire(inst, u.Elem(), seen, w)
	case *types.Array:
		c.wire(inst, u.Elem(), seen, w)
	case *types.Map:
		c.wire(inst, u.Key(), seen, w)
		c.wire(inst, u.Elem(), seen, w)
	case *types.Struct:
		// Centroids lose their internals on the way: the client has to make new ones.
		if eng.TypeName(tp) == pCent+".Centroid" {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			c.Expect(f.Exported(), "wire", inst+" "+eng.TypeName(tp)+"."+f.Name(), w, "field %s of %v is not exported and gets lost on the wire", f.Name(), tp)
			c.wire(inst, f.Type(), seen, w)
		}
	default:
		c.Bad("wire", inst+" "+k, w, "values of type %v cannot be sent", tp)
	}
}

// replyReturned: what the client returns is what came back.
func (c *C) replyReturned(m *clientM, sm *serverM) {
	nres := m.Fn.Signature.Results().Len()
	if nres == 0 {
		return
	}
	if m.Reply == nil {
		c.Bad("returns", m.Name, m.Calls[0].Where(), "returns values although no reply is asked for")
		return
	}
	if m.Name == "NearestCentroids" {
		return // rebuilt: decided with the property on moving datapoints
	}
	call := m.Calls[0]
	ok := true
	s := &Sim{G: m.G, T: m.T, Start: ""}
	for _, e := range m.G.Exits {
		for _, a := range e.Args {
			s.Track = append(s.Track, m.T.Of(a))
		}
	}
	s.Event = func(e *St, v *eng.Val) {
		if v == call {
			e.A = "called"
		}
	}
	s.Exit = func(e *St, ret *eng.Val) {
		if e.A != "called" {
			return
		}
		for i, a := range ret.Args {
			x := e.Resolve(m.T.Of(a))
			root, f := sel(x)
			good := x.Op == eng.OpLoad && root == m.Reply && x.Ver == call
			if nres > 1 {
				// the fields of the reply in the order of the server's struct, matched by type
				good = good && len(f) == 1 && replyField(sm, f[0], i)
			} else {
				good = good && len(f) == 0
			}
			if !good {
				ok = false
				c.Bad("returns", m.Name, ret.Where(), "result %d is %v and not what the server replied (path %s)", i, x, e.Path())
			}
		}
	}
	s.Run()
	c.States += s.States
	if s.Overflow {
		c.Bad("returns", m.Name, where(c, m.Fn), "too many paths")
		return
	}
	if ok {
		c.OK("returns", m.Name, where(c, m.Fn))
	}
}

// replyField: the reply struct's field that result i has to come from: the only
// one of its type.
func replyField(sm *serverM, f string, i int) bool {
	pt := sm.Fn.Signature.Params().At(1).Type().Underlying().(*types.Pointer)
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return false
	}
	return i < st.NumFields() && typedField(st, f)
}

func typedField(st *types.Struct, f string) bool {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == f {
			return true
		}
	}
	return false
}

// served: the server runs the operation with what the client was given.
func (c *C) served(m *clientM, sm *serverM, sp spec, nsF string) {
	t := sm.T
	w := where(c, sm.Fn)
	allowed := map[string]bool{sp.op: true}
	for _, a := range sp.allow {
		allowed[a] = true
	}
	var ops []*eng.Val
	for _, v := range Calls(sm.G, isStoreOp) {
		n := Callee(v)
		if n == sp.op {
			ops = append(ops, v)
		}
		if n == "centroidmanager.NewCentroidManager" || n == "centroid.NewCentroid" {
			continue
		}
		c.Expect(allowed[n] || pureOps[n], "other-op", m.Name+" "+n, v.Where(), "%s also runs %s", m.Name, n)
	}
	if sp.op != "" {
		if !c.Expect(len(ops) > 0, "op", m.Name, w, "never runs %s", sp.op) {
			return
		}
	}
	for _, v := range ops {
		for i, want := range sp.args {
			if i+1 >= len(v.Args) {
				continue
			}
			x := t.Of(v.Args[i+1])
			switch k := want.(type) {
			case nil:
			case string:
				got := x.String()
				if b, ok := x.Bool(); ok {
					got = map[bool]string{true: "true", false: "false"}[b]
				}
				if n, ok := x.Int(); ok {
					got = itoa(n)
				}
				c.Expect("="+got == k, "arg", m.Name, v.Where(), "argument %d of %s is %v instead of %s", i, sp.op, x, k[1:])
			case int:
				src := sent(m, sm, x)
				p := m.G.Params[k+1]
				if isBoolType(p.Typ) {
					y := knownFlag(t, x, v, func(o *eng.Term) bool { return sent(m, sm, o) == m.T.Of(p) })
					if y != x {
						x, src = y, sent(m, sm, y)
					}
				}
				if m.Name == "StealCentroids" {
					continue
				}
				// a datapoint that is put back after a failed move has its own rule
				if sp.op == "CentroidManager.AddDataPoint" && m.Name != "AddDataPoint" {
					continue
				}
				c.Expect(src != nil && src == m.T.Of(p), "arg", m.Name, v.Where(), "argument %d of %s is %v, which is not parameter %s of the client method", i, sp.op, x, p.SrcV.Name())
			}
		}
	}
	switch m.Name {
	case "StealCentroids":
		c.stealArgs(m, sm)
		return
	case "Namespaces":
		c.namespacesReply(m, sm)
		return
	case "Meta":
		c.metaReply(m, sm)
		return
	}
	if strings.HasPrefix(m.Name, "DistributeDataPoints") && !strings.HasSuffix(m.Name, "Internal") {
		// the nodes that may receive datapoints
		for _, v := range Calls(sm.G, is("rpc.KMeansClient")) {
			_ = v
		}
		return
	}
	if m.Name == "AddDataPoint" {
		return // P02
	}
	c.runsOnce(m, sm, sp, ops)
}

func itoa(n int64) string {
	s := ""
	neg := n < 0
	if neg {
		n = -n
	}
	for {
		s = string(rune('0'+n%10)) + s
		n /= 10
		if n == 0 {
			break
		}
	}
	if neg {
		s = "-" + s
	}
	return s
}

// runsOnce: on every path on which the namespace exists the operation runs once and its result is the reply.
func (c *C) runsOnce(m *clientM, sm *serverM, sp spec, ops []*eng.Val) {
	t := sm.T
	isOp := map[*eng.Val]bool{}
	for _, v := range ops {
		isOp[v] = true
	}
	bad := false
	replies := 0
	rt := sm.Fn.Signature.Params().At(1).Type().Underlying().(*types.Pointer).Elem()
	s := &Sim{G: sm.G, T: t}
	for _, e := range sm.G.Exits {
		s.Track = append(s.Track, t.LoadAt(t.PtrLoc(sm.Reply), rt, e))
	}
	for _, v := range ops {
		if tp, ok := v.Typ.(*types.Tuple); ok && tp.Len() == 2 && isListType(tp.At(0).Type()) {
			s.Track = append(s.Track, t.Extract(t.Of(v), 1, tp.At(1).Type()), t.Len(t.Extract(t.Of(v), 0, tp.At(0).Type()), v))
		}
	}
	// nothing: the operation that ran is known to have found nothing
	nothing := func(e *St, at *eng.Val) bool {
		for _, v := range ops {
			tp, ok := v.Typ.(*types.Tuple)
			if !ok || tp.Len() != 2 || !strings.Contains(e.A+" ", "op#"+itoa(int64(v.ID))) {
				continue
			}
			if val, known := e.Truth(t.Extract(t.Of(v), 1, tp.At(1).Type())); known && !val {
				return true
			}
			L := t.Extract(t.Of(v), 0, tp.At(0).Type())
			if _, hi := e.Facts().Range(t.Len(L, at)); hi <= 0 {
				return true
			}
			if val, known := e.Truth(t.Bin(eqTok, L, t.Zero(L.Typ), boolT)); known && val {
				return true
			}
		}
		return false
	}
	s.Event = func(e *St, v *eng.Val) {
		if isOp[v] {
			if strings.Contains(e.A, "op") {
				bad = true
				c.Bad("op", m.Name, v.Where(), "%s may run twice for one call", sp.op)
				e.Dead = true
				return
			}
			e.A += " op#" + itoa(int64(v.ID))
		}
	}
	s.Branch = func(e *St, cond *eng.Term, val bool) {
		if _, ex, ok := existsCond(cond); ok {
			if ex == val {
				e.A += "E"
			} else {
				e.A += "M"
			}
		}
	}
	s.Exit = func(e *St, ret *eng.Val) {
		ran := strings.Contains(e.A, "op")
		if !ran {
			if strings.Contains(e.A, "M") {
				return
			}
			bad = true
			c.Bad("op", m.Name, ret.Where(), "%s does not run although the namespace exists (path %s)", sp.op, e.Path())
			return
		}
		if m.Name == "NearestCentroidVec" {
			x := e.Resolve(t.LoadAt(t.PtrLoc(sm.Reply), rt, ret))
			if isInitReply(sm, x) && nothing(e, ret) {
				return
			}
			replies++
			if !isVecOfFirst(t, x, ops) {
				bad = true
				c.Bad("reply", m.Name, ret.Where(), "the reply is %v and not the vector of the nearest centroid", x)
			}
			return
		}
		if m.Name == "NearestCentroids" {
			x := e.Resolve(t.LoadAt(t.PtrLoc(sm.Reply), rt, ret))
			if isInitReply(sm, x) && nothing(e, ret) {
				return
			}
			replies++
			if msg := c.nearestReply(sm, x, ops); msg != "" {
				bad = true
				c.Bad("reply", m.Name, ret.Where(), "%s", msg)
			}
			return
		}
		if !sp.result {
			return
		}
		x := e.Resolve(t.LoadAt(t.PtrLoc(sm.Reply), rt, ret))
		replies++
		if x.Op != eng.OpCall || !isOp[x.V] {
			bad = true
			c.Bad("reply", m.Name, ret.Where(), "the reply is %v and not the result of %s (path %s)", x, sp.op, e.Path())
		}
	}
	s.Run()
	c.States += s.States
	if s.Overflow {
		c.Bad("op", m.Name, where(c, sm.Fn), "too many paths")
		return
	}
	if !bad {
		c.OK("op", m.Name, where(c, sm.Fn))
		if replies > 0 {
			c.OK("reply", m.Name, where(c, sm.Fn))
		}
	}
	if sp.result && replies == 0 {
		c.Bad("reply", m.Name, where(c, sm.Fn), "no reply is ever made")
	}
}

func isInitReply(sm *serverM, x *eng.Term) bool {
	return x.Op == eng.OpLoad && x.Aux == "init" && x.Path.Root == sm.Reply || x.IsNil()
}

// resultList: x is the list that one of the calls returned.
func resultList(x *eng.Term, ops []*eng.Val) bool {
	for _, v := range ops {
		if x.Op == eng.OpCall && x.V == v {
			return true
		}
		if x.Op == eng.OpExtract && x.Aux == "0" && x.Args[0].V == v {
			return true
		}
	}
	return false
}

// isVecOfFirst: x is the vector of the first element of a list that ops returned.
func isVecOfFirst(t *eng.Terms, x *eng.Term, ops []*eng.Val) bool {
	// Vec() opaque
	if x.Op == eng.OpCall && Callee(x.V) == "Centroid.Vec" {
		y := t.Of(x.V.Args[0])
		return isFirst(y, ops)
	}
	root, f := sel(x)
	_ = f
	if root != nil && x.Op == eng.OpLoad && len(x.Path.Steps) == 1 && x.Path.Steps[0].Name == "vec" {
		return isFirst(x.Path.Root, ops)
	}
	return false
}

func isFirst(y *eng.Term, ops []*eng.Val) bool {
	if y.Op != eng.OpLoad || len(y.Path.Steps) != 1 || y.Path.Steps[0].Idx == nil {
		return false
	}
	n, ok := y.Path.Steps[0].Idx.Int()
	return ok && n == 0 && resultList(y.Path.Root, ops)
}

// nearestReply: the reply of NearestCentroids has all centroids that were found.
func (c *C) nearestReply(sm *serverM, x *eng.Term, ops []*eng.Val) string {
	t := sm.T
	if resultList(x, ops) {
		return ""
	}
	if isInitReply(sm, x) {
		return "nothing is replied"
	}
	m, why := mapLoop(sm.G, t, x, func(y *eng.Term) bool { return isInitReply(sm, y) })
	if m == nil {
		return "the reply is not understood: " + why
	}
	if m.Filtered {
		return "some of the centroids may be left out of the reply"
	}
	if !resultList(m.Cv.List, ops) {
		return "the reply is not made from the centroids that were found"
	}
	for _, el := range m.Elems {
		if f, ok := m.Cv.ElemOf(t, el); ok && len(f) == 0 {
			continue
		}
		if el.Op != eng.OpAlloc && el.Op != eng.OpCall {
			return "an element of the reply is not made from the centroid that was found: " + el.String()
		}
		dp := dataPointsOf(t, el, m.At)
		if dp == nil {
			return "the datapoints of a replied centroid are not known"
		}
		src := copiedFrom(t, dp, m.At)
		if src == nil {
			return "the datapoints of a replied centroid are not those of the centroid that was found"
		}
		if f, ok := elemPtrField(m.Cv, t, src); !ok || f != "DataPoints" {
			return "the datapoints of a replied centroid are not those of the centroid that was found: " + src.String()
		}
	}
	return ""
}

// dataPointsOf gives the content of the DataPoints field of a centroid (pointer) at some point.
func dataPointsOf(t *eng.Terms, p *eng.Term, at *eng.Val) *eng.Term {
	pt, ok := p.Typ.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "DataPoints" {
			return t.LoadAt(t.FieldLoc(t.PtrLoc(p), pt.Elem(), "DataPoints"), st.Field(i).Type(), at)
		}
	}
	return nil
}

// copiedFrom: x is a fresh list with the same elements as the one returned (or that list itself).
func copiedFrom(t *eng.Terms, x *eng.Term, at *eng.Val) *eng.Term {
	if x.Op == eng.OpAppend && len(x.V.Args) == 2 {
		_, sp := appended(t, x.V)
		if sp != nil && emptyList(t.Of(x.V.Args[0])) {
			return sp
		}
		return nil
	}
	if x.Op == eng.OpMakeSlice {
		var src *eng.Term
		x.V.Graph().Each(func(v *eng.Val) {
			if v.Op == eng.OpCopy && t.Of(v.Args[0]) == x && v.Before(at) {
				y := t.Of(v.Args[1])
				if t.Len(y, v) == t.Of(x.V.Args[0]) {
					src = y
				}
			}
		})
		if src != nil {
			return src
		}
		if m, _ := mapLoop(x.V.Graph(), t, x, nil); m != nil && !m.Filtered {
			for _, el := range m.Elems {
				if f, ok := m.Cv.ElemOf(t, el); !ok || len(f) != 0 {
					return nil
				}
			}
			return m.Cv.List
		}
		return nil
	}
	if x.JoinBlk() != nil {
		if m, _ := mapLoop(x.JoinBlk().G, t, x, nil); m != nil && !m.Filtered {
			for _, el := range m.Elems {
				if f, ok := m.Cv.ElemOf(t, el); !ok || len(f) != 0 {
					return nil
				}
			}
			return m.Cv.List
		}
		return nil
	}
	return x
}

// elemPtrField: x is a field of what the current element of a covered list points to.
func elemPtrField(cv *Cover, t *eng.Terms, x *eng.Term) (string, bool) {
	if x.Op != eng.OpLoad && x.Op != eng.OpMemPhi || len(x.Path.Steps) != 1 || x.Path.Steps[0].Idx != nil {
		return "", false
	}
	f, ok := cv.ElemOf(t, x.Path.Root)
	return x.Path.Steps[0].Name, ok && len(f) == 0
}

// registered: the server is registered under the name that clients use.
func (c *C) registered() {
	f := c.Func(pRPC, "StartListen")
	g := c.Flat(f, "L3")
	if g == nil {
		return
	}
	t := g.Terms()
	n := 0
	for _, v := range Calls(g, is("(*net/rpc.Server).Register", "(*net/rpc.Server).RegisterName", "net/rpc.Register", "net/rpc.RegisterName")) {
		x := unwrapIface(t.Of(v.Args[len(v.Args)-1]))
		if x != t.Of(g.Params[0]) {
			c.Bad("register", "StartListen", v.Where(), "registers %v and not the server it is given", x)
			continue
		}
		if strings.HasSuffix(Callee(v), "Name") {
			s, _ := t.Of(v.Args[len(v.Args)-2]).Str()
			c.Expect(s == "KMeansServer", "register", "StartListen", v.Where(), "registers the server as %q", s)
		} else {
			c.OK("register", "StartListen", v.Where())
		}
		n++
		// the same rpc server must serve the connections
		for _, sv := range Calls(g, is("(*net/rpc.Server).ServeConn")) {
			c.Expect(t.Of(sv.Args[0]) == t.Of(v.Args[0]), "register", "serve", sv.Where(), "connections are served by another rpc server than the one with the operations")
		}
	}
	c.Expect(n > 0, "register", "StartListen", where(c, f), "the operations are never registered")
}

func (c *C) stealArgs(m *clientM, sm *serverM) {
	t := sm.T
	froms := 0
	for _, v := range Calls(sm.G, is("rpc.KMeansClient")) {
		src := sent(m, sm, t.Of(v.Args[0]))
		froms++
		c.Expect(src != nil && src == m.T.Of(m.G.Params[1]), "arg", "StealCentroids from", v.Where(), "steals from %v and not from the address that the caller gave", t.Of(v.Args[0]))
	}
	c.Expect(froms > 0, "arg", "StealCentroids from", where(c, sm.Fn), "contacts no other node")
	// the limit is what is compared
	lim := false
	sm.G.Each(func(v *eng.Val) {
		if v.Op == eng.OpIf {
			t.Walk(t.Of(v.Args[0]), func(x *eng.Term) bool {
				if s := sent(m, sm, x); s != nil && s == m.T.Of(m.G.Params[2]) {
					lim = true
				}
				return true
			})
		}
	})
	c.Expect(lim, "arg", "StealCentroids limit", where(c, sm.Fn), "the limit that the caller gave is never compared with anything")
	for _, v := range Calls(sm.G, is("kmeansClient.NearestCentroids")) {
		b, ok := t.Of(v.Args[3]).Bool()
		c.Expect(ok && b, "arg", "StealCentroids drains", v.Where(), "the stolen centroids are not taken out of the other node")
	}
}

// namespacesReply: the reply lists exactly the keys of the table.
func (c *C) namespacesReply(m *clientM, sm *serverM) {
	t := sm.T
	rt := sm.Fn.Signature.Params().At(1).Type().Underlying().(*types.Pointer).Elem()
	for _, e := range sm.G.Exits {
		x := t.LoadAt(t.PtrLoc(sm.Reply), rt, e)
		c.Expect(allKeys(sm, x) == "", "reply", "Namespaces", e.Where(), "the reply is not the list of all namespaces: %s", allKeys(sm, x))
	}
}

func allKeys(sm *serverM, x *eng.Term) string {
	t := sm.T
	mp, why := mapLoop(sm.G, t, x, nil)
	if mp == nil {
		return why
	}
	if mp.Filtered {
		return "namespaces may be left out"
	}
	if !isSlots(mp.Cv.List) {
		return "it is not made from the table of namespaces"
	}
	for _, el := range mp.Elems {
		if !isKeyOf(mp.Cv, el) {
			return "an element is " + el.String() + " and not the name of a namespace"
		}
	}
	return ""
}

func isKeyOf(cv *Cover, el *eng.Term) bool {
	return cv.Next != nil && el.Op == eng.OpExtract && el.Aux == "1" && el.Args[0].V == cv.Next
}

// metaReply: per namespace the number of its centroids and datapoints.
func (c *C) metaReply(m *clientM, sm *serverM) {
	t := sm.T
	pt := sm.Fn.Signature.Params().At(1).Type().Underlying().(*types.Pointer).Elem()
	st, ok := pt.Underlying().(*types.Struct)
	if !ok {
		c.Bad("reply", "Meta", where(c, sm.Fn), "unexpected reply type %v", pt)
		return
	}
	for _, e := range sm.G.Exits {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			mv := t.LoadAt(t.FieldLoc(t.PtrLoc(sm.Reply), pt, f.Name()), f.Type(), e)
			if mv.Op != eng.OpMakeMap {
				c.Bad("reply", "Meta."+f.Name(), e.Where(), "the reply is %v", mv)
				continue
			}
			n := 0
			sm.G.Each(func(v *eng.Val) {
				if v.Op != eng.OpMapUpdate || t.Of(v.Args[0]) != mv {
					return
				}
				n++
				key, val := t.Of(v.Args[1]), t.Of(v.Args[2])
				var slot *eng.Term
				kind := ""
				switch {
				case val.Op == eng.OpLen && val.Args[0].Op == eng.OpLoad:
					p := val.Args[0].Path
					if _, fn := p.LastField(); fn == "Centroids" {
						kind, slot = "Centroids", p.Root
					}
				case val.Op == eng.OpCall && Callee(val.V) == "CentroidManager.LenDP":
					kind, slot = "DPs", t.Of(val.V.Args[0])
				}
				if !c.Expect(kind == f.Name(), "reply", "Meta."+f.Name(), v.Where(), "field %s is filled with %v", f.Name(), val) {
					return
				}
				// slot must be the manager of the namespace under that key
				c.Expect(slot != nil && managerKey(t, slot) == key, "reply", "Meta."+f.Name()+" key", v.Where(), "%v is recorded under the name %v", val, key)
				c.Expect(keyFromTable(sm, key), "reply", "Meta."+f.Name()+" names", v.Where(), "%v is not taken from all names of the table", key)
			})
			c.Expect(n > 0, "reply", "Meta."+f.Name(), e.Where(), "the reply is never filled")
		}
	}
}

// managerKey gives the name of the namespace that a manager belongs to.
func managerKey(t *eng.Terms, cm *eng.Term) *eng.Term {
	if cm.Op != eng.OpLoad && cm.Op != eng.OpMemPhi || cm.Path == nil || len(cm.Path.Steps) != 1 {
		return nil
	}
	return slotKey(cm.Path.Root)
}

func slotKey(s *eng.Term) *eng.Term {
	if s.Op == eng.OpExtract && s.Aux == "0" {
		s = s.Args[0]
	}
	if s.Op == eng.OpLookup && isSlots(s.Args[0]) {
		return s.Args[1]
	}
	if s.Op == eng.OpExtract && s.Aux == "2" && s.Args[0].Op == eng.OpNext {
		return nil
	}
	return nil
}

// keyFromTable: a name that runs through all names of the table.
func keyFromTable(sm *serverM, key *eng.Term) bool {
	t := sm.T
	for _, l := range sm.G.Loops() {
		cv := cover(t, l)
		if cv == nil {
			continue
		}
		if isSlots(cv.List) && isKeyOf(cv, key) {
			return true
		}
		if f, ok := cv.ElemOf(t, key); ok && len(f) == 0 && allKeys(sm, cv.List) == "" {
			return true
		}
	}
	return false
}

func init() {
	register("P15", checkP15, Desc{
		How: "Every client method and the server operation behind it are flattened (all helpers and closures inlined); the values sent are composed with the use that the server makes of them, so that parameter i of the client method has to arrive as argument i of the storage operation of the same name, the result of that operation has to be the reply on all paths and the reply has to be what the client returns.",
		Rules: map[string]string{
			"one-call": "a client method makes one remote call", "name": "and names the server operation of its own name", "dial": "at its own address",
			"types": "argument and reply types agree", "wire": "every field of a type on the wire is exported and encodable",
			"returns": "on all paths with the call the client returns the reply", "op": "the server runs the operation exactly once on all paths on which the namespace exists",
			"other-op": "and no other operation", "arg": "with the client's parameters in their positions", "reply": "and replies its result", "register": "the server is registered under the name in use",
		},
		Assumes: []string{"net/rpc and encoding/gob deliver exported fields unchanged", "gob omits zero values, replies are decoded into fresh variables"},
	})
}
