package rules

import (
	"go/types"
	"strings"

	"trypocheck/eng"
)

// rootOf gives the outermost graph.
func rootOf(g *eng.Graph) *eng.Graph {
	for g.Parent != nil {
		g = g.Parent
	}
	return g
}

// innermost gives the innermost loop around an instruction in its own graph.
func innermost(v *eng.Val) *eng.Loop {
	var r *eng.Loop
	for _, l := range v.Graph().Loops() {
		if l.Blocks[v.Blk] && (r == nil || r.Blocks[l.Head]) {
			r = l
		}
	}
	return r
}

func checkP20(c *C) {
	for _, en := range c.entries("L4") {
		if en.G.Parent != nil {
			continue
		}
		c.fanOuts(en)
		c.opened(en)
	}
	for _, f := range c.roots() {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "main" {
			continue
		}
		if g := c.Flat(f, "main"); g != nil {
			c.fanOuts(entry{f, g, fnName(f)})
			c.opened(entry{f, g, fnName(f)})
		}
	}
	c.stopCloses()
	c.Min("capacity", 4)
	c.Min("one-answer", 4)
	c.Min("collected", 4)
	c.Min("asked", 4)
	c.Min("closed", 19)
	c.Min("no-block", 4)
}

// fanOuts decides the channels of an entry point and of everything it starts.
func (c *C) fanOuts(en entry) {
	g, t := en.G, en.G.Terms()
	var chans, sends, recvs []*eng.Val
	g.Each(func(v *eng.Val) {
		switch v.Op {
		case eng.OpMakeChan:
			chans = append(chans, v)
		case eng.OpSend:
			sends = append(sends, v)
		case eng.OpRecv:
			recvs = append(recvs, v)
		case eng.OpSelect:
			c.Bad("no-block", en.Name, v.Where(), "waits for one of several channels, which nothing guarantees to be ready")
		case eng.OpCall:
			switch Callee(v) {
			case "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait":
				c.Bad("no-block", en.Name, v.Where(), "%s may wait forever", Callee(v))
			}
		}
	})
	known := map[*eng.Val]bool{}
	for _, m := range chans {
		mt := t.Of(m)
		var ss, rs []*eng.Val
		for _, s := range sends {
			if t.Of(s.Args[0]) == mt {
				ss = append(ss, s)
				known[s] = true
			}
		}
		for _, r := range recvs {
			if t.Of(r.Args[0]) == mt {
				rs = append(rs, r)
				known[r] = true
			}
		}
		c.fanOut(en, m, ss, rs)
	}
	for _, s := range sends {
		c.Expect(known[s], "no-block", en.Name+" send", s.Where(), "sends to %v, whose capacity and receivers are not known", t.Of(s.Args[0]))
	}
	for _, r := range recvs {
		x := t.Of(r.Args[0])
		outside := x.Op == eng.OpCall && x.V.Fn != nil && !eng.InModulePath(eng.FuncPkgPath(x.V.Fn)) || x.Op == eng.OpLoad && len(x.Path.Steps) > 0 && strings.HasPrefix(x.Path.Steps[len(x.Path.Steps)-1].Struct, "time.")
		c.Expect(known[r] || outside, "no-block", en.Name+" receive", r.Where(), "waits for %v, to which nothing is known to send", x)
	}
}

// contributions are what puts answers into a channel: goroutines, or direct sends.
func (c *C) fanOut(en entry, m *eng.Val, sends, recvs []*eng.Val) {
	t := en.G.Terms()
	if len(sends) == 0 && len(recvs) == 0 {
		return
	}
	inst := en.Name
	home := m.Graph()
	contrib := map[*eng.Val]bool{}
	bodies := map[*eng.Val][]*eng.Val{}
	for _, s := range sends {
		sg := s.Graph()
		if sg == home {
			contrib[s] = true
			continue
		}
		if sg.Parent != home {
			c.Bad("one-answer", inst, s.Where(), "the answer is sent by a goroutine that another goroutine started")
			return
		}
		contrib[sg.GoVal] = true
		bodies[sg.GoVal] = append(bodies[sg.GoVal], s)
	}
	var loop *eng.Loop
	first := true
	for v := range contrib {
		l := innermost(v)
		if l != nil && l.Blocks[m.Blk] {
			l = nil // the channel is made anew every time
		}
		if !first && l != loop {
			c.Bad("one-answer", inst, v.Where(), "answers come from several places")
			return
		}
		loop, first = l, false
	}
	// Every goroutine answers once, whatever happens.
	for gv, ss := range bodies {
		in := map[*eng.Val]bool{}
		for _, s := range ss {
			in[s] = true
		}
		body := gv.Sub
		bad := false
		n := 0
		s := &Sim{G: body, T: t}
		s.Event = func(e *St, v *eng.Val) {
			if in[v] {
				if e.A != "" {
					bad, e.Dead = true, true
					c.Bad("one-answer", inst, v.Where(), "a goroutine may answer twice (path %s)", e.Path())
				}
				e.A = "1"
			}
		}
		s.Exit = func(e *St, ret *eng.Val) {
			n++
			if e.A == "" {
				bad = true
				c.Bad("one-answer", inst, ret.Where(), "a goroutine may end without an answer (path %s)", e.Path())
			}
		}
		s.Run()
		c.States += s.States
		for _, l := range body.Loops() {
			if cover(t, l) == nil {
				bad = true
				c.Bad("one-answer", inst, l.Head.Instrs[0].Where(), "a goroutine has a loop that is not known to end before it answers")
			}
		}
		if s.Overflow {
			bad = true
			c.Bad("one-answer", inst, gv.Where(), "too many paths")
		}
		if !bad {
			c.Expect(n > 0, "one-answer", inst, gv.Where(), "a goroutine never ends")
		}
	}
	if loop == nil {
		if len(contrib) == 1 {
			k, ok := t.Of(m.Args[0]).Int()
			c.Expect(ok && k >= 1, "capacity", inst, m.Where(), "the channel has no room for the answer")
			for _, r := range recvs {
				rl := innermost(r)
				c.Expect(rl == nil || rl.Blocks[m.Blk], "collected", inst, r.Where(), "waits more than once for one answer")
			}
			return
		}
		c.Bad("one-answer", inst, m.Where(), "it is not known how many answers there will be")
		return
	}
	cv := cover(t, loop)
	if cv == nil {
		c.Bad("one-answer", inst, loop.Head.Instrs[0].Where(), "the loop that asks the nodes does not visit each node once")
		return
	}
	for _, x := range loop.Exits() {
		if x != cv.Exit {
			c.Bad("one-answer", inst, x.From.Last().Where(), "the loop that asks the nodes may end early")
			return
		}
	}
	// One contribution in every iteration.
	bad := false
	s := &Sim{G: home, T: t, From: loop.Head}
	s.Event = func(e *St, v *eng.Val) {
		if contrib[v] {
			if e.A != "" {
				bad, e.Dead = true, true
				c.Bad("one-answer", inst, v.Where(), "a node may be asked twice")
			}
			e.A = "1"
		}
	}
	s.Edge = func(e *St, from, to *eng.Blk) bool {
		if to == loop.Head {
			if e.A == "" {
				bad = true
				c.Bad("one-answer", inst, from.Last().Where(), "a node may be left out without an answer for it (path %s)", e.Path())
			}
			return false
		}
		return loop.Blocks[to]
	}
	s.Run()
	c.States += s.States
	if !bad {
		c.OK("one-answer", inst+" each", m.Where())
	}
	// Room for all answers.
	var n *eng.Term
	if cv.Next != nil || isListType(cv.List.Typ) {
		n = t.Len(cv.List, loop.Head.Instrs[0])
	} else {
		n = cv.List // an amount
	}
	d, ok := t.Diff(t.Of(m.Args[0]), n)
	c.Expect(ok && d >= 0, "capacity", inst, m.Where(), "the channel has room for %v answers and there are %v: a goroutine whose answer is not collected stays blocked", t.Of(m.Args[0]), n)
	// Each goroutine asks the node of its iteration.
	for gv := range bodies {
		for _, v := range Calls(gv.Sub, is("rpc.KMeansClient")) {
			a := t.Of(v.Args[0])
			if x := addrOf(t, a); x != nil {
				a = x
			}
			f, ok := cv.ElemOf(t, a)
			if !ok && cv.Next != nil {
				ok = a.Op == eng.OpExtract && a.Aux == "1" && a.Args[0].V == cv.Next
			}
			c.Expect(ok && len(f) == 0, "asked", inst, v.Where(), "the node %v is asked instead of the one of this iteration", a)
		}
	}
	if len(recvs) == 0 {
		return
	}
	// The collector.
	rl := innermost(recvs[0])
	bad = false
	fail := func(v *eng.Val, f string, a ...interface{}) {
		bad = true
		c.Bad("collected", inst, v.Where(), f, a...)
	}
	in := map[*eng.Val]bool{}
	for _, r := range recvs {
		in[r] = true
		if r.Graph() != home {
			fail(r, "the answers are collected by another goroutine")
			return
		}
		if innermost(r) != rl {
			fail(r, "answers are collected in several places")
			return
		}
	}
	if rl == nil || rl.Blocks[m.Blk] {
		fail(recvs[0], "only one answer is collected")
		return
	}
	rc := cover(t, rl)
	if rc == nil {
		fail(recvs[0], "the amount of answers that are collected is not known")
		return
	}
	var rn *eng.Term
	if rc.Next != nil || isListType(rc.List.Typ) {
		rn = t.Len(rc.List, rl.Head.Instrs[0])
	} else {
		rn = rc.List
	}
	if d, ok := t.Diff(rn, n); !ok || d != 0 {
		fail(recvs[0], "%v answers are collected and there are %v", rn, n)
	}
	for _, x := range rl.Exits() {
		if x != rc.Exit {
			fail(x.From.Last(), "the collector may stop before all answers are there")
		}
	}
	s = &Sim{G: home, T: t, From: rl.Head}
	s.Event = func(e *St, v *eng.Val) {
		if in[v] {
			if e.A != "" {
				e.Dead = true
				fail(v, "two answers may be collected at once")
			}
			e.A = "1"
		}
	}
	s.Edge = func(e *St, from, to *eng.Blk) bool {
		if to == rl.Head {
			if e.A == "" {
				fail(from.Last(), "the collector may skip an answer")
			}
			return false
		}
		return rl.Blocks[to]
	}
	s.Run()
	c.States += s.States
	if !bad {
		c.OK("collected", inst, recvs[0].Where())
	}
}

func isListType(tp types.Type) bool {
	if tp == nil {
		return false
	}
	switch tp.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Array:
		return true
	case *types.Pointer:
		_, ok := tp.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		return ok
	}
	return false
}

// opens: calls that open a connection (or a listener), with the position of the result.
func opens(v *eng.Val) bool {
	if v.Op != eng.OpCall {
		return false
	}
	n := Callee(v)
	switch n {
	case "net/rpc.Dial", "net/rpc.DialHTTP", "net/rpc.DialHTTPPath", "net/rpc/jsonrpc.Dial",
		"net.Dial", "net.DialTimeout", "net.DialTCP", "net.Listen", "net.ListenTCP",
		"crypto/tls.Dial", "(*net.Dialer).Dial", "(*net.Dialer).DialContext":
		return true
	}
	return strings.HasPrefix(n, "iface ") && strings.HasSuffix(n, ".Accept") || strings.HasSuffix(n, "Listener).Accept")
}

// closes: the connection that an instruction closes (or hands to something that closes it).
func closesArg(v *eng.Val) *eng.Val {
	if v.Op != eng.OpCall {
		return nil
	}
	n := Callee(v)
	switch {
	case strings.HasSuffix(n, ".Close") && len(v.Args) == 1:
		return v.Args[0]
	case n == "(*net/rpc.Server).ServeConn" && len(v.Args) == 2:
		return v.Args[1] // closes it when the client hangs up
	}
	return nil
}

// wraps: clients that are built on a connection and close it with themselves.
func wrapsArg(v *eng.Val) *eng.Val {
	if v.Op != eng.OpCall {
		return nil
	}
	switch Callee(v) {
	case "net/rpc.NewClient", "net/rpc/jsonrpc.NewClient":
		return v.Args[0]
	}
	return nil
}

// opened: what is opened is closed on every path (or by the one it is handed to).
func (c *C) opened(en entry) {
	for _, g := range en.G.Graphs() {
		var os []*eng.Val
		g.EachOwn(func(v *eng.Val) {
			if opens(v) {
				os = append(os, v)
			}
		})
		for _, v := range os {
			c.openedAt(en, g, v)
		}
	}
}

func (c *C) openedAt(en entry, g *eng.Graph, v *eng.Val) {
	t := g.Terms()
	tp, ok := v.Typ.(*types.Tuple)
	if !ok || tp.Len() != 2 {
		c.Bad("closed", en.Name, v.Where(), "%s gives something else than a connection and an error", Callee(v))
		return
	}
	conn := t.Extract(t.Of(v), 0, tp.At(0).Type())
	failed := t.Bin(eqTok, t.Extract(t.Of(v), 1, tp.At(1).Type()), t.Zero(tp.At(1).Type()), types.Typ[types.Bool])
	same := map[*eng.Term]bool{conn: true}
	g.Each(func(x *eng.Val) {
		if a := wrapsArg(x); a != nil && same[unwrapIface(t.Of(a))] {
			same[t.Of(x)] = true
		}
	})
	is := func(a *eng.Val) bool {
		x := unwrapIface(t.Of(a))
		return same[x] || x.Op == eng.OpAssert && same[x.Args[0]]
	}
	bad := false
	s := &Sim{G: g, T: t, Track: []*eng.Term{failed}}
	lost := func(e *St, w *eng.Val) {
		if !strings.Contains(e.A, "o") {
			return
		}
		if val, known := e.Truth(failed); known && !val {
			return
		}
		bad = true
		e.Dead = true
		c.Bad("closed", en.Name, w.Where(), "what %s opened may never be closed (path %s)", Callee(v), e.Path())
	}
	s.Event = func(e *St, w *eng.Val) {
		if w == v {
			lost(e, w)
			e.A = "o"
			return
		}
		if a := closesArg(w); a != nil && is(a) {
			e.A = ""
			return
		}
		if w.Op == eng.OpGo && w.Sub != nil && c.takesOver(t, w.Sub, is) {
			e.A = ""
		}
		if w.Op == eng.OpGo && w.Sub == nil {
			for _, a := range w.Args {
				if a != nil && is(a) && Callee(w) == "(*net/rpc.Server).ServeConn" {
					e.A = ""
				}
			}
		}
		if w.Op == eng.OpReturn {
			for _, a := range w.Args {
				for _, x := range t.Leaves(e.Resolve(t.Of(a)), nil) {
					if x.Op == eng.OpClosure && c.closureCloses(t, x.V, conn) {
						e.A = ""
					}
				}
			}
		}
	}
	s.Edge = func(e *St, from, to *eng.Blk) bool {
		// forgotten when the loop goes on
		if l := g.LoopAt(to); l != nil && l.Blocks[from] && l.Blocks[v.Blk] {
			lost(e, from.Last())
		}
		return true
	}
	s.Exit = func(e *St, ret *eng.Val) { lost(e, ret) }
	s.Run()
	c.States += s.States
	if s.Overflow {
		c.Bad("closed", en.Name, v.Where(), "too many paths")
		return
	}
	if !bad {
		c.OK("closed", en.Name+" "+Callee(v), v.Where())
	}
}

// takesOver: a goroutine closes what it was given, on every path.
func (c *C) takesOver(t *eng.Terms, body *eng.Graph, is func(*eng.Val) bool) bool {
	any := false
	body.EachOwn(func(w *eng.Val) {
		if a := closesArg(w); a != nil && is(a) {
			any = true
		}
	})
	if !any {
		return false
	}
	ok, n := true, 0
	s := &Sim{G: body, T: t}
	s.Event = func(e *St, w *eng.Val) {
		if a := closesArg(w); a != nil && is(a) {
			e.A = "c"
		}
	}
	s.Exit = func(e *St, ret *eng.Val) {
		n++
		if e.A == "" {
			ok = false
		}
	}
	s.Run()
	c.States += s.States
	return ok && n > 0 && !s.Overflow
}

// closureCloses: a closure that is handed out closes what it captured, on every path.
func (c *C) closureCloses(t *eng.Terms, cl *eng.Val, conn *eng.Term) bool {
	if cl.Fn == nil {
		return false
	}
	k := -1
	for i, a := range cl.Args {
		if a == nil {
			continue
		}
		x := t.Of(a)
		if x == conn {
			k = i
		}
		if x.Op == eng.OpAlloc {
			// the variable it is kept in
			for _, u := range cl.Graph().Blocks {
				for _, w := range u.Instrs {
					if w.Op == eng.OpStore && t.Of(w.Args[0]) == x && t.Of(w.Args[1]) == conn {
						k = i
					}
				}
			}
		}
	}
	if k < 0 {
		return false
	}
	g := c.Flat(cl.Fn, "L4")
	if g == nil || k >= len(g.Free) {
		return false
	}
	gt := g.Terms()
	fv := gt.Of(g.Free[k])
	return c.takesOver(gt, g, func(a *eng.Val) bool {
		x := unwrapIface(gt.Of(a))
		return x == fv || x.Op == eng.OpLoad && x.Path.Root == fv
	})
}

// stopCloses: stopping a node also closes the connections that are still being served.
func (c *C) stopCloses() {
	f := c.Func(pRPC, "StartListen")
	g := c.Flat(f, "L4")
	if g == nil {
		return
	}
	t := g.Terms()
	w := where(c, f)
	n := 0
	seen := map[*eng.Val]bool{}
	for _, e := range g.Exits {
		for _, a := range e.Args {
			for _, x := range t.Leaves(t.Of(a), nil) {
				if x.Op != eng.OpClosure || x.V.Fn == nil || seen[x.V] {
					continue
				}
				seen[x.V] = true
				sg := c.Flat(x.V.Fn, "L4")
				if sg == nil {
					continue
				}
				st := sg.Terms()
				for _, l := range sg.Loops() {
					cv := cover(st, l)
					if cv == nil {
						continue
					}
					early := false
					for _, ex := range l.Exits() {
						early = early || ex != cv.Exit
					}
					sg.EachOwn(func(v *eng.Val) {
						a := closesArg(v)
						if a == nil || !l.Blocks[v.Blk] || early {
							return
						}
						for _, la := range l.Latches {
							if !v.Blk.Dominates(la) {
								return
							}
						}
						y := unwrapIface(st.Of(a))
						_, isElem := cv.ElemOf(st, y)
						if isElem || isKeyOf(cv, y) {
							n++
						}
					})
				}
			}
		}
	}
	c.Expect(n > 0, "closed", "StartListen stop", w, "stopping a node does not close the connections that it still serves")
}

func init() {
	register("P20", checkP20, Desc{
		How:     "Every channel, send, receive and wait of the program is found in the flattened entry points (goroutine bodies included). For each fan-out: the loop that starts the goroutines visits every element of its list once and starts (or sends) exactly one answer per iteration, each goroutine body sends exactly once on every path and asks the node of its iteration, the capacity of the channel is at least the amount of elements, and the loop that collects receives exactly once per iteration and runs exactly that many times. Every dialled, listened or accepted connection is followed along all paths: it is closed, or handed to a goroutine or a returned stop function that closes it on all of its paths.",
		Rules:   map[string]string{"one-answer": "one answer per node, on every path", "capacity": "the channel has room for all answers, so that no goroutine needs a receiver", "collected": "as many answers are collected as there are", "asked": "a goroutine asks the node of its iteration", "no-block": "no other send, receive or wait that may block forever", "closed": "opened connections are closed on every path"},
		Assumes: []string{"remote calls return at some point (TCP errors included)", "net/rpc's ServeConn closes its connection when it ends, and Close of a client closes its connection", "panics are not counted as paths"},
	})
}
