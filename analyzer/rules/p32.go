package rules

import (
	"fmt"
	"go/types"
	"strings"

	"trypocheck/eng"
)

func checkP32(c *C) {
	f := c.Func(pRPC, "StartListen")
	g := c.Flat(f, "L4")
	if g == nil {
		c.Bad("stop", "StartListen", "-", "there is no way to start a node")
		return
	}
	n := &nodeStop{c: c, g: g, t: g.Terms(), name: where(c, f)}
	n.run()
	c.Min("started", 2)
	c.Min("accept", 1)
	c.Min("handshake", 1)
	c.Min("stop", 1)
}

// nodeStop follows how a node is started, serves connections and is stopped.
type nodeStop struct {
	c    *C
	g    *eng.Graph
	t    *eng.Terms
	name string

	listen *eng.Val
	ln     *eng.Term
	conns  *eng.Term // the set of connections being served
	flag   *eng.Path // tells that the node is stopped
	mu     *eng.Path
}

func (n *nodeStop) run() {
	c, t := n.c, n.t
	n.g.Each(func(v *eng.Val) {
		if Callee(v) == "net.Listen" {
			n.listen = v
		}
	})
	if !c.Expect(n.listen != nil, "started", "listens", n.name, "does not listen") {
		return
	}
	tp := n.listen.Typ.(*types.Tuple)
	n.ln = t.Extract(t.Of(n.listen), 0, tp.At(0).Type())
	n.started(t.Extract(t.Of(n.listen), 1, tp.At(1).Type()))
	var serving []*eng.Graph
	accepting := 0
	for _, sg := range n.g.Graphs() {
		srv, acc := false, false
		sg.EachOwn(func(v *eng.Val) {
			srv = srv || Callee(v) == "(*net/rpc.Server).ServeConn"
			if isAccept(v) && unwrapIface(t.Of(v.Args[0])) == n.ln {
				acc = true
			}
		})
		if srv {
			serving = append(serving, sg)
		}
		if acc {
			accepting++
			n.accepts(sg)
		}
	}
	c.Expect(accepting == 1, "accept", "once", n.name, "connections are accepted in %d places", accepting)
	if !c.Expect(len(serving) > 0, "handshake", "serves", n.name, "connections are not served by a goroutine that knows of stopping") {
		return
	}
	for _, sg := range serving {
		n.serves(sg)
	}
	n.stops()
}

func isAccept(v *eng.Val) bool {
	return v.Op == eng.OpCall && strings.HasSuffix(Callee(v), ".Accept")
}

// started: failing to listen is reported and leaves nothing running.
func (n *nodeStop) started(err *eng.Term) {
	c, t := n.c, n.t
	fine := t.Bin(eqTok, err, t.Zero(err.Typ), boolT)
	s := &Sim{G: n.g, T: t, Track: []*eng.Term{fine}}
	for _, e := range n.g.Exits {
		for _, a := range e.Args {
			s.Track = append(s.Track, t.Of(a))
		}
	}
	ok := true
	s.Event = func(e *St, v *eng.Val) {
		if v == n.listen {
			e.A = "l"
		}
		if v.Op == eng.OpGo {
			val, known := e.Truth(fine)
			if e.A == "" || !known || !val {
				ok = false
				c.Bad("started", "goroutine", v.Where(), "starts to work although it may not listen (path %s)", e.Path())
			}
			e.A = "lg"
		}
	}
	s.Exit = func(e *St, ret *eng.Val) {
		if len(ret.Args) != 2 {
			ok = false
			c.Bad("started", "outcome", ret.Where(), "does not give a stop function and an error")
			return
		}
		val, known := e.Truth(fine)
		stop, er := e.Resolve(t.Of(ret.Args[0])), e.Resolve(t.Of(ret.Args[1]))
		switch {
		case e.A == "" || !known:
			ok = false
			c.Bad("started", "outcome", ret.Where(), "ends without knowing whether it listens (path %s)", e.Path())
		case !val:
			isNil, k := boolConst(t.Bin(eqTok, er, t.Zero(er.Typ), boolT))
			if !k {
				isNil, k = e.Truth(t.Bin(eqTok, er, t.Zero(er.Typ), boolT))
			}
			if !k || isNil {
				ok = false
				c.Bad("started", "outcome", ret.Where(), "does not report that it could not listen (path %s)", e.Path())
			}
		default:
			if stop.Op != eng.OpClosure || !er.IsNil() || e.A != "lg" {
				ok = false
				c.Bad("started", "outcome", ret.Where(), "a started node is not reported as such, with a function to stop it (path %s)", e.Path())
			}
		}
	}
	s.Run()
	c.States += s.States
	if s.Overflow {
		c.Bad("started", "StartListen", n.name, "too many paths")
	} else if ok {
		c.OK("started", "outcome", n.name)
	}
}

// accepts: every connection gets a goroutine of its own, until accepting fails.
func (n *nodeStop) accepts(g *eng.Graph) {
	c, t := n.c, n.t
	var acc *eng.Val
	k := 0
	g.EachOwn(func(v *eng.Val) {
		if isAccept(v) {
			acc = v
			k++
		}
	})
	l := innermost(acc)
	if !c.Expect(k == 1 && l != nil, "accept", "loop", acc.Where(), "connections are not accepted in a loop") {
		return
	}
	tp := acc.Typ.(*types.Tuple)
	conn := t.Extract(t.Of(acc), 0, tp.At(0).Type())
	err := t.Extract(t.Of(acc), 1, tp.At(1).Type())
	fine := t.Bin(eqTok, err, t.Zero(err.Typ), boolT)
	s := &Sim{G: g, T: t, Track: []*eng.Term{fine}}
	ok := true
	bad := func(v *eng.Val, e *St, m string) {
		ok = false
		e.Dead = true
		c.Bad("accept", "each", v.Where(), "%s (path %s)", m, e.Path())
	}
	s.Event = func(e *St, v *eng.Val) {
		switch {
		case v == acc:
			e.A = "a"
		case v.Op == eng.OpGo && v.Sub != nil && e.A == "a" && n.isServing(v.Sub, conn):
			e.A = "s"
		case Callee(v) == "(*net/rpc.Server).ServeConn":
			bad(v, e, "serves one connection before it accepts the next")
		}
	}
	s.Edge = func(e *St, from, to *eng.Blk) bool {
		if !l.Blocks[from] {
			return true
		}
		val, known := e.Truth(fine)
		switch {
		case to == l.Head && e.A == "a" && known && !val:
			bad(from.Last(), e, "goes on accepting although that failed, also when the node is stopped")
		case to == l.Head && e.A != "s":
			bad(from.Last(), e, "an accepted connection is not served")
		case !l.Blocks[to] && !panics(to) && (e.A != "a" || !known || val):
			bad(from.Last(), e, "stops accepting although nothing failed")
		}
		return !e.Dead
	}
	s.Run()
	c.States += s.States
	if s.Overflow {
		c.Bad("accept", "each", acc.Where(), "too many paths")
	} else if ok {
		c.OK("accept", "each", acc.Where())
	}
}

func (n *nodeStop) isServing(g *eng.Graph, conn *eng.Term) bool {
	r := false
	g.Each(func(v *eng.Val) {
		if Callee(v) == "(*net/rpc.Server).ServeConn" && unwrapIface(n.t.Of(v.Args[1])) == conn {
			r = true
		}
	})
	return r
}

// lockedAt is the location of the mutex of a lock or unlock.
func lockedAt(t *eng.Terms, v *eng.Val) *eng.Path {
	if len(v.Args) == 0 {
		return nil
	}
	return t.PtrLoc(t.Of(v.Args[0]))
}

// serves: a connection is only served if it was registered, in one critical section with
// the check that the node is not stopped.
func (n *nodeStop) serves(g *eng.Graph) {
	c, t := n.c, n.t
	var serve *eng.Val
	k := 0
	g.EachOwn(func(v *eng.Val) {
		if Callee(v) == "(*net/rpc.Server).ServeConn" {
			serve = v
			k++
		}
	})
	if !c.Expect(k == 1, "handshake", "serves once", serve.Where(), "serves a connection %d times", k) {
		return
	}
	conn := unwrapIface(t.Of(serve.Args[1]))
	loads := map[string]*eng.Term{}
	at := map[string]*eng.Path{}
	type refused struct {
		ret  *eng.Val
		path string
		ids  []string
	}
	var rs []refused
	s := &Sim{G: g, T: t}
	g.EachOwn(func(v *eng.Val) {
		if v.Op == eng.OpLoad && isBoolT(t.Of(v)) {
			id := fmt.Sprint(t.Of(v).ID)
			loads[id], at[id] = t.Of(v), t.PathOf(v.Args[0])
			s.Track = append(s.Track, t.Of(v))
		}
	})
	ok, reached := true, false
	bad := func(v *eng.Val, e *St, m string) {
		ok = false
		e.Dead = true
		c.Bad("handshake", "serve", v.Where(), "%s (path %s)", m, e.Path())
	}
	// the state: L locked, F<id> flag read in this section, m registered in it,
	// r registered for good, s served
	s.Event = func(e *St, v *eng.Val) {
		switch {
		case v.IsLock():
			if p := lockedAt(t, v); n.mu == nil {
				n.mu = p
			} else if p == nil || !eng.SamePath(n.mu, p) {
				bad(v, e, "another lock than the one of the connections")
				return
			}
			e.A = keepIn(e.A, "rs") + "L"
		case v.IsUnlock():
			r := ""
			if has(e.A, "m") {
				for _, id := range flagsIn(e.A) {
					if val, known := e.Truth(loads[id]); known && !val {
						r = "r"
						n.flag = at[id]
					}
				}
			}
			e.A = keepIn(e.A, "rs") + r
		case v.Op == eng.OpLoad && loads[fmt.Sprint(t.Of(v).ID)] != nil && has(e.A, "L"):
			e.A += ",F" + fmt.Sprint(t.Of(v).ID)
		case v.Op == eng.OpMapUpdate && unwrapIface(t.Of(v.Args[1])) == conn && has(e.A, "L"):
			n.conns = t.Of(v.Args[0])
			e.A += ",m"
		case isDelete(v) && unwrapIface(t.Of(v.Args[1])) == conn:
			e.A = keepIn(e.A, "sL")
		case v == serve:
			reached = true
			if !has(e.A, "r") {
				bad(v, e, "a connection is served that a stop may not know of")
				return
			}
			if has(e.A, "L") {
				bad(v, e, "a connection is served with the lock held")
				return
			}
			e.A += ",s"
		}
	}
	s.Exit = func(e *St, ret *eng.Val) {
		if has(e.A, "s") {
			return
		}
		r := refused{ret: ret, path: e.Path()}
		for id, x := range loads {
			if val, known := e.Truth(x); known && val {
				r.ids = append(r.ids, id)
			}
		}
		rs = append(rs, r)
	}
	s.Run()
	c.States += s.States
	for _, r := range rs {
		known := false
		for _, id := range r.ids {
			known = known || n.flag != nil && at[id] != nil && eng.SamePath(n.flag, at[id])
		}
		if !known {
			ok = false
			c.Bad("handshake", "serve", r.ret.Where(), "a connection is not served although the node is not stopped (path %s)", r.path)
		}
	}
	if s.Overflow {
		c.Bad("handshake", "serve", serve.Where(), "too many paths")
	} else if ok && c.Expect(reached, "handshake", "serve", serve.Where(), "connections are never served") {
		c.OK("handshake", "registered", serve.Where())
	}
}

func isDelete(v *eng.Val) bool { return v.Op == eng.OpDelete }

// has tells whether a mark is in a state (marks are separated by commas).
func has(a, m string) bool {
	for _, x := range strings.Split(a, ",") {
		if x == m {
			return true
		}
	}
	return false
}

func flagsIn(a string) []string {
	var r []string
	for _, x := range strings.Split(a, ",") {
		if strings.HasPrefix(x, "F") {
			r = append(r, x[1:])
		}
	}
	return r
}

// keepIn keeps the marks of one letter.
func keepIn(a, letters string) string {
	r := ""
	for _, x := range strings.Split(a, ",") {
		if len(x) == 1 && strings.Contains(letters, x) && !has(r, x) {
			r += "," + x
		}
	}
	return r + ","
}

// stops: the function that stops a node.
func (n *nodeStop) stops() {
	c, t := n.c, n.t
	seen := map[*eng.Val]bool{}
	k := 0
	for _, e := range n.g.Exits {
		for _, a := range e.Args {
			for _, x := range t.Leaves(t.Of(a), nil) {
				if x.Op == eng.OpClosure && x.V.Fn != nil && !seen[x.V] {
					seen[x.V] = true
					k++
					n.stopsWith(x.V, e)
				}
			}
		}
	}
	c.Expect(k > 0, "stop", "function", n.name, "there is no function that stops a node")
}

func (n *nodeStop) stopsWith(cl, exit *eng.Val) {
	c := n.c
	g := c.Flat(cl.Fn, "L4")
	if g == nil {
		return
	}
	t := g.Terms()
	w := where(c, cl.Fn)
	// what the function captured, as its maker knows it
	var term func(x *eng.Term) *eng.Term
	path := func(p *eng.Path) *eng.Path {
		if p == nil {
			return nil
		}
		r := term(p.Root)
		if r == nil {
			return nil
		}
		q := n.t.PtrLoc(r)
		if q == nil {
			return nil
		}
		return &eng.Path{Root: q.Root, Steps: append(append([]eng.Step{}, q.Steps...), p.Steps...)}
	}
	term = func(x *eng.Term) *eng.Term {
		x = unwrapIface(x)
		for i, fv := range g.Free {
			if t.Of(fv) == x && i < len(cl.Args) && cl.Args[i] != nil {
				return n.t.Of(cl.Args[i])
			}
		}
		if x.Op == eng.OpLoad {
			if p := path(x.Path); p != nil {
				return n.t.LoadAt(p, x.Typ, exit)
			}
		}
		return nil
	}
	same := func(p, q *eng.Path) bool {
		p = path(p)
		return p != nil && q != nil && eng.SamePath(p, q)
	}
	s := &Sim{G: g, T: t}
	// the loops that close every connection
	closing := map[*eng.Loop]*Cover{}
	for _, l := range g.Loops() {
		cv := cover(t, l)
		if cv == nil || term(cv.List) == nil || n.conns == nil || !n.sameSet(g, term(cv.List), n.conns, exit) {
			continue
		}
		early := false
		for _, ex := range l.Exits() {
			early = early || ex != cv.Exit
		}
		closes := false
		g.EachOwn(func(v *eng.Val) {
			a := closesArg(v)
			if a == nil || !l.Blocks[v.Blk] {
				return
			}
			for _, la := range l.Latches {
				if !v.Blk.Dominates(la) {
					return
				}
			}
			if isKeyOf(cv, unwrapIface(t.Of(a))) {
				closes = true
			}
		})
		if closes && !early {
			closing[l] = cv
		}
	}
	flags := map[string]*eng.Term{}
	g.EachOwn(func(v *eng.Val) {
		if v.Op == eng.OpLoad && isBoolT(t.Of(v)) && same(t.PathOf(v.Args[0]), n.flag) {
			flags[fmt.Sprint(t.Of(v).ID)] = t.Of(v)
			s.Track = append(s.Track, t.Of(v))
		}
	})
	ok := true
	// L locked, l listener closed, f flag set, c connections closed
	s.Event = func(e *St, v *eng.Val) {
		switch {
		case v.IsLock():
			if same(lockedAt(t, v), n.mu) {
				e.A = keepIn(e.A, "lfc") + "L"
			}
		case v.IsUnlock():
			if has(e.A, "f") {
				e.A = keepIn(e.A, "lfc")
			} else {
				// others may come before the flag is set
				e.A = keepIn(e.A, "l")
			}
		case v.Op == eng.OpStore && same(t.PathOf(v.Args[0]), n.flag):
			b, k := boolConst(t.Of(v.Args[1]))
			if k && b && has(e.A, "L") {
				e.A += ",f"
			} else {
				e.A = keepIn(e.A, "lcL")
			}
		case closesArg(v) != nil && term(t.Of(closesArg(v))) == n.ln:
			e.A += ",l"
		}
	}
	s.Edge = func(e *St, from, to *eng.Blk) bool {
		for _, cv := range closing {
			if from == cv.Exit.From && to == cv.Exit.To && has(e.A, "L") {
				e.A = strings.ReplaceAll(e.A, ",c", "") + ",c"
			}
		}
		return true
	}
	s.Exit = func(e *St, ret *eng.Val) {
		for _, x := range flags {
			if val, known := e.Truth(x); known && val {
				return // was stopped before
			}
		}
		for _, m := range []struct{ mark, text string }{{"l", "goes on listening"}, {"f", "goes on serving connections that are just being accepted"}, {"c", "does not close the connections that it serves"}} {
			if !has(e.A, m.mark) {
				ok = false
				c.Bad("stop", "complete", ret.Where(), "a stopped node %s (path %s)", m.text, e.Path())
				return
			}
		}
	}
	s.Run()
	c.States += s.States
	if s.Overflow {
		c.Bad("stop", "complete", w, "too many paths")
	} else if ok {
		c.OK("stop", "complete", w)
	}
}

// sameSet: the same map.
func (n *nodeStop) sameSet(g *eng.Graph, x, y *eng.Term, exit *eng.Val) bool {
	if x == y {
		return true
	}
	if x.Op == eng.OpLoad && y.Op != eng.OpLoad {
		x, y = y, x
	}
	if y.Op != eng.OpLoad || y.Path == nil {
		return false
	}
	if x.Op == eng.OpLoad {
		return x.Path != nil && eng.SamePath(x.Path, y.Path)
	}
	// a variable that is set once, when it is made
	set := 0
	n.g.Each(func(v *eng.Val) {
		if v.Op != eng.OpStore {
			return
		}
		p := n.t.PathOf(v.Args[0])
		if p != nil && p.Root == y.Path.Root && len(p.Steps) <= len(y.Path.Steps) && eng.SamePath(p, &eng.Path{Root: y.Path.Root, Steps: y.Path.Steps[:len(p.Steps)]}) {
			set++
		}
	})
	g.Each(func(v *eng.Val) {
		if v.Op == eng.OpStore && mayHold(v.Args[1].Typ, y.Typ) {
			set++
		}
	})
	return set == 1 && n.t.LoadAt(y.Path, y.Typ, exit) == x
}

// mayHold: a value of one type can have one of the other in it.
func mayHold(a, b types.Type) bool {
	if types.Identical(a, b) {
		return true
	}
	if st, ok := a.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if mayHold(st.Field(i).Type(), b) {
				return true
			}
		}
	}
	return false
}

func init() {
	register("P32", checkP32, Desc{
		How: "Path-sensitive analysis of how a node is started, of the goroutine that accepts connections, of those that serve them, and of the function that stops the node (whose captured variables are mapped to those of its maker). The stop flag and the set of connections are found by their use: what is read and filled before a connection is served is what the stop function must set and go through.",
		Rules: map[string]string{
			"started":   "goroutines are only started once the node listens; otherwise the error is reported; a started node gives a function to stop it",
			"accept":    "every accepted connection is handed to a goroutine of its own, and accepting goes on exactly until it fails",
			"handshake": "a connection is served only after it was registered in the same critical section in which the node was seen not to be stopped, and not served only if it was",
			"stop":      "on every path the stop function closes the listener, sets the flag and then (or in the same critical section) closes every registered connection, unless the node was stopped before",
		},
		Assumes: []string{"net/rpc ends serving a connection that is closed, and accepting fails once the listener is closed", "the accesses are locked (P03), connections are closed after serving (P20)"},
	})
}
