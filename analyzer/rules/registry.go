package rules

import "sort"

// Desc documents a check for its evidence.
type Desc struct {
	How     string
	Rules   map[string]string
	Assumes []string
}

type check struct {
	f    func(*C)
	desc Desc
}

var registry = map[string]check{}

func register(id string, f func(*C), d Desc) { registry[id] = check{f, d} }

// IDs lists the properties that have rules.
func IDs() []string {
	var r []string
	for k := range registry {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Decide runs the rules of a property.
func Decide(c *C) {
	k, ok := registry[c.Prop]
	if !ok {
		c.Bad("registry", c.Prop, "-", "there is no check for this property")
		return
	}
	c.Run(c.Prop, k.f)
	c.Finish()
	if len(c.Items) == 0 {
		c.Bad("registry", c.Prop, "-", "nothing was decided")
	}
}

// Describe documents a check.
func Describe(id string) Desc { return registry[id].desc }
