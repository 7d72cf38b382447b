package rules

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"trypocheck/eng"
)

// entry is a graph that stands for one thread of control.
type entry struct {
	Fn   *ssa.Function
	G    *eng.Graph // the graph (or goroutine body)
	Name string
}

// entries lists everything that may run by itself at the server's level: functions
// that others may call, closures that are handed out and goroutine bodies.
func (c *C) entries(layer string, pkgs ...string) []entry {
	in := func(f *ssa.Function) bool {
		for _, p := range pkgs {
			if eng.FuncPkgPath(f) == p {
				return true
			}
		}
		return len(pkgs) == 0
	}
	inlinedIn := map[*ssa.Function]bool{}
	graphs := map[*ssa.Function]*eng.Graph{}
	var order []*ssa.Function
	add := func(f *ssa.Function) {
		if graphs[f] != nil {
			return
		}
		g := c.Flat(f, layer)
		if g == nil {
			return
		}
		graphs[f] = g
		order = append(order, f)
		for _, sg := range g.Graphs() {
			for _, b := range sg.Blocks {
				for x := b.Ctx; x != nil; x = x.Parent {
					if x.Fn != f {
						inlinedIn[x.Fn] = true
					}
				}
			}
		}
	}
	for _, f := range c.roots() {
		if in(f) && (f.Pkg == nil || f.Pkg.Pkg.Name() != "main") {
			add(f)
		}
	}
	// closures that are not run where they are made
	for _, f := range c.P.Funcs {
		if f.Parent() != nil && in(f) && !inlinedIn[f] && !eng.IsTestSupport(f) {
			add(f)
		}
	}
	var r []entry
	for _, f := range order {
		if inlinedIn[f] && !exported(f) {
			continue
		}
		for i, g := range graphs[f].Graphs() {
			n := fnName(f)
			if i > 0 {
				n += " (goroutine)"
			}
			r = append(r, entry{f, g, n})
		}
	}
	return r
}

// hasLocks tells whether a graph takes locks at all.
func hasLocks(g *eng.Graph) bool {
	n := false
	g.EachOwn(func(v *eng.Val) {
		if v.IsLock() || v.IsUnlock() {
			n = true
		}
	})
	return n
}

type held []string // "W path" or "R path"

func parseHeld(s string) held {
	if s == "" {
		return nil
	}
	return strings.Split(s, "\x00")
}

func (h held) String() string { return strings.Join(h, "\x00") }

func (h held) has(lock string, write bool) bool {
	for _, x := range h {
		if x[2:] == lock && (x[0] == 'W' || !write) {
			return true
		}
	}
	return false
}

func (h held) add(x string) held {
	r := append(append(held{}, h...), x)
	sort.Strings(r)
	return r
}

func (h held) del(lock string) (held, bool) {
	for i, x := range h {
		if x[2:] == lock {
			return append(append(held{}, h[:i]...), h[i+1:]...), true
		}
	}
	return h, false
}

// lockKey names a mutex by the location it is at.
func lockKey(t *eng.Terms, v *eng.Val) string { return t.PathOf(v.Args[0]).String() }

func isRLock(v *eng.Val) bool { return strings.HasSuffix(v.CalleeName(), "RLock") }

// lockWalk walks all paths of a graph tracking which locks are held.
func (c *C) lockWalk(en entry, rule string, event func(e *St, v *eng.Val, h held), unbalanced func(where, msg string)) {
	t := en.G.Terms()
	s := &Sim{G: en.G, T: t}
	s.Event = func(e *St, v *eng.Val) {
		h := parseHeld(e.A)
		event(e, v, h)
		switch {
		case v.IsLock():
			m := "W "
			if isRLock(v) {
				m = "R "
			}
			e.A = h.add(m + lockKey(t, v)).String()
		case v.IsUnlock():
			n, ok := h.del(lockKey(t, v))
			if !ok && unbalanced != nil {
				unbalanced(v.Where(), "releases a lock that is not held (path "+e.Path()+")")
			}
			e.A = n.String()
		}
	}
	s.Exit = func(e *St, ret *eng.Val) {
		if e.A != "" && unbalanced != nil {
			unbalanced(ret.Where(), "leaves with "+strings.ReplaceAll(e.A, "\x00", ", ")+" still locked (path "+e.Path()+")")
		}
	}
	s.Run()
	c.States += s.States
	if s.Overflow {
		c.Bad(rule, en.Name, "-", "too many paths")
	}
}

// blocking tells why an instruction may wait for something.
func blocking(v *eng.Val) string {
	switch v.Op {
	case eng.OpRecv:
		return "receives from a channel"
	case eng.OpSend:
		return "sends on a channel"
	case eng.OpSelect:
		return "waits on channels"
	case eng.OpRange:
		return ""
	case eng.OpCall:
		n := Callee(v)
		if strings.HasPrefix(n, "kmeansClient.") {
			return "calls another node (" + n + ")"
		}
		if strings.HasSuffix(n, ".DistributeDataPoints") {
			return "hands datapoints to receivers that may be remote (" + n + ")"
		}
		for _, p := range []string{"time.Sleep", "net.", "net/", "(*net/", "(*net.", "(net.", "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "github.com/", "(*github.com/", "io/ioutil.ReadAll", "io.ReadAll", "iface Listener.", "iface Conn.Read", "iface Conn.Write", "(*os/exec", "time.Tick"} {
			if strings.HasPrefix(n, p) {
				if strings.HasPrefix(n, "net/http.StatusText") || strings.HasSuffix(n, ".Close") || n == "net/rpc.NewServer" {
					continue
				}
				return "waits in " + n
			}
		}
	}
	return ""
}

func checkP05(c *C) {
	n, sites := 0, 0
	for _, en := range c.entries("L3") {
		if !hasLocks(en.G) {
			continue
		}
		n++
		ok := true
		en := en
		bad := func(where, msg string) {
			ok = false
			c.Bad("balanced", en.Name, where, "%s", msg)
		}
		lockSites := map[*eng.Val]bool{}
		c.lockWalk(en, "balanced", func(e *St, v *eng.Val, h held) {
			if v.IsLock() {
				lockSites[v] = true
			}
			if len(h) == 0 {
				return
			}
			if v.IsLock() {
				ok = false
				c.Bad("nested", en.Name, v.Where(), "takes %s while %s is held (path %s)", lockKey(en.G.Terms(), v), strings.Join(h, ", "), e.Path())
				return
			}
			if why := blocking(v); why != "" {
				ok = false
				c.Bad("blocking", en.Name, v.Where(), "%s while %s is held (path %s)", why, strings.Join(h, ", "), e.Path())
			}
		}, bad)
		if ok {
			c.OK("balanced", en.Name, where(c, en.Fn))
		}
		for v := range lockSites {
			sites++
			c.OK("lock-site", en.Name, v.Where())
		}
	}
	c.Min("balanced", 20)
	c.Min("lock-site", 20)
}

func init() {
	register("P05", checkP05, Desc{
		How:     "Every function that others can call, every closure that is handed out and every goroutine body is flattened (helpers, deferred calls and callbacks inlined) and all its paths are walked with the set of held locks: the set has to be empty at every exit, no lock may be taken while one is held, and no instruction that can wait may run while one is held.",
		Rules:   map[string]string{"balanced": "every way out of an entry point leaves no lock held and releases only what is held", "nested": "no lock is taken while another one is held", "blocking": "no network call, sleep, channel operation or wait while a lock is held", "lock-site": "places that take a lock and were covered"},
		Assumes: []string{"the search functions and the manager factory that a user configures do not block", "panics are not counted as ways out (the process ends)"},
	})
}
