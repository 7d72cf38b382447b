package rules

import (
	"strconv"
	"strings"

	"trypocheck/eng"
)

// An acknowledged write: a function that tries to store something and reports
// whether it did.
type ack struct {
	c    *C
	rule string
	inst string
	g    *eng.Graph
	t    *eng.Terms
	// try says whether v tries to store; fresh: into something that still has to
	// be published.
	try func(v *eng.Val) (is, fresh bool)
	// publish gives the holder that v makes reachable.
	publish func(v *eng.Val) *eng.Term
	holder  func(v *eng.Val) *eng.Term // what a try stores into
	result  func(ret *eng.Val) *eng.Term
	isFalse func(x *eng.Term) bool // results that count as false
	failed  func(e *St, ret *eng.Val) bool
	// placed checks a successful attempt at the exit ("" if fine).
	placed func(e *St, v *eng.Val, ret *eng.Val) string
}

type attempt struct {
	id    int
	st    byte // '?' not known, 'y' succeeded
	fresh bool
}

func parseAttempts(s string) []attempt {
	var r []attempt
	for _, f := range strings.Fields(s) {
		a := attempt{st: f[0], fresh: f[1] == 'f'}
		a.id, _ = strconv.Atoi(f[2:])
		r = append(r, a)
	}
	return r
}

func showAttempts(l []attempt) string {
	s := ""
	for _, a := range l {
		f := "-"
		if a.fresh {
			f = "f"
		}
		s += " " + string(rune(a.st)) + f + strconv.Itoa(a.id)
	}
	return s
}

// settle notes which attempts are known to have succeeded or failed on this path.
func (k *ack) settle(e *St, vals map[int]*eng.Val) []attempt {
	var r []attempt
	for _, a := range parseAttempts(e.A) {
		if a.st == '?' {
			if val, known := e.Truth(k.t.Of(vals[a.id])); known {
				if !val {
					continue
				}
				a.st = 'y'
			}
		}
		r = append(r, a)
	}
	e.A = showAttempts(r)
	return r
}

// run walks all paths: the result is true if and only if something was stored, and
// nothing is stored twice.
func (k *ack) run() {
	c, t, g := k.c, k.t, k.g
	vals := map[int]*eng.Val{}
	g.EachOwn(func(v *eng.Val) {
		if is, _ := k.try(v); is {
			vals[v.ID] = v
		}
	})
	w := where(c, g.Fn)
	if len(vals) == 0 {
		c.Bad(k.rule, k.inst, w, "nothing is ever stored")
		return
	}
	s := &Sim{G: g, T: t}
	for _, v := range vals {
		s.Track = append(s.Track, t.Of(v))
	}
	for _, x := range g.Exits {
		if r := k.result(x); r != nil {
			s.Track = append(s.Track, r)
		}
	}
	bad := false
	n := 0
	fail := func(e *St, v *eng.Val, f string, a ...interface{}) {
		bad = true
		e.Dead = true
		c.Bad(k.rule, k.inst, v.Where(), f+" (path %s)", append(a, e.Path())...)
	}
	s.Branch = func(e *St, cond *eng.Term, val bool) { k.settle(e, vals) }
	s.Event = func(e *St, v *eng.Val) {
		if is, fresh := k.try(v); is {
			for _, a := range k.settle(e, vals) {
				if !a.fresh && !fresh || a.id == v.ID {
					fail(e, v, "it may be stored a second time after %s", vals[a.id].Where())
					return
				}
			}
			f := "-"
			if fresh {
				f = "f"
			}
			e.A += " ?" + f + strconv.Itoa(v.ID)
			return
		}
		if k.publish == nil {
			return
		}
		h := k.publish(v)
		if h == nil {
			return
		}
		l := k.settle(e, vals)
		for i, a := range l {
			if a.fresh && e.Resolve(k.holder(vals[a.id])) == e.Resolve(h) {
				l[i].fresh = false
			}
		}
		e.A = showAttempts(l)
	}
	s.Exit = func(e *St, ret *eng.Val) {
		n++
		r := k.result(ret)
		if k.failed != nil && k.failed(e, ret) {
			for _, a := range k.settle(e, vals) {
				if !a.fresh {
					fail(e, ret, "a failure is reported although it may have been stored")
					return
				}
			}
			return
		}
		var decide func(e *St)
		decide = func(e *St) {
			if e.Facts().Bad {
				return
			}
			stored := 0
			for _, a := range k.settle(e, vals) {
				if a.fresh {
					continue // never registered: gone
				}
				if a.st == '?' {
					for _, b := range []bool{true, false} {
						m := e.fork()
						m.Assume(t.Of(vals[a.id]), b)
						decide(m)
						if m.Dead {
							e.Dead = true
							return
						}
					}
					return
				}
				stored++
				if k.placed != nil {
					if why := k.placed(e, vals[a.id], ret); why != "" {
						fail(e, ret, "%s", why)
						return
					}
				}
			}
			x := e.Resolve(r)
			val, known := e.Truth(r)
			if !known && k.isFalse != nil && k.isFalse(x) {
				val, known = false, true
			}
			switch {
			case stored > 1:
				fail(e, ret, "it is stored %d times", stored)
			case !known:
				fail(e, ret, "the result %v says nothing about whether it was stored", x)
			case val && stored == 0:
				fail(e, ret, "success is reported although nothing was stored")
			case !val && stored > 0:
				fail(e, ret, "a failure is reported although it was stored")
			}
		}
		decide(e)
	}
	s.Run()
	c.States += s.States
	if s.Overflow {
		c.Bad(k.rule, k.inst, w, "too many paths")
		return
	}
	if !bad {
		if n == 0 {
			c.Bad(k.rule, k.inst, w, "no way out of the function was found")
			return
		}
		c.OK(k.rule, k.inst, w)
	}
}
