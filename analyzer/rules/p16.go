package rules

import (
	"go/types"
	"reflect"
	"strings"

	"trypocheck/eng"
)

// dpKind tells whether a type is one of the representations of a datapoint.
func dpKind(tp types.Type) string {
	if tp == nil {
		return ""
	}
	switch eng.TypeName(tp) {
	case pCommon + ".DataPoint":
		return "DataPoint"
	case pAPI + ".DP":
		return "DP"
	}
	return ""
}

var dpFields = []string{"Vec", "Payload", "Expires", "ExpireEnabled"}

// The names that the HTTP API documents.
var jsonNames = map[string]string{"Vec": "vec", "Payload": "payload", "Expires": "expires", "ExpireEnabled": "expireEnabled"}

func jsonName(st *types.Struct, i int) string {
	tag := reflect.StructTag(st.Tag(i)).Get("json")
	n := strings.Split(tag, ",")[0]
	if n == "" {
		n = st.Field(i).Name()
	}
	return n
}

// omits: the field is left out of the output for some values.
func jsonOptions(st *types.Struct, i int) string {
	tag := reflect.StructTag(st.Tag(i)).Get("json")
	if k := strings.Index(tag, ","); k >= 0 {
		return tag[k+1:]
	}
	return ""
}

// promoted: the fields of an embedded struct are those of the one that embeds it.
func promoted(st *types.Struct, i int) bool {
	f := st.Field(i)
	_, isS := f.Type().Underlying().(*types.Struct)
	return f.Anonymous() && isS && strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0] == ""
}

// hides: another field of a struct has the name of a field of the embedded one.
func hides(st *types.Struct, i int, name string) bool {
	for k := 0; k < st.NumFields(); k++ {
		if k == i {
			continue
		}
		if !promoted(st, k) {
			if strings.EqualFold(jsonName(st, k), name) {
				return true
			}
			continue
		}
		in := st.Field(k).Type().Underlying().(*types.Struct)
		if hides(in, -1, name) {
			return true
		}
	}
	return false
}

// jsonPath gives the path of JSON names that a decoded value was read from.
func jsonPath(x *eng.Term) (root *eng.Term, path string, ok bool) {
	type step struct {
		st *types.Struct
		i  int
	}
	var steps []step
	for x != nil && x.Op == eng.OpField {
		st, isS := x.Args[0].Typ.Underlying().(*types.Struct)
		n := 0
		for _, ch := range x.Aux {
			n = n*10 + int(ch-'0')
		}
		if !isS || n >= st.NumFields() {
			return nil, "", false
		}
		steps = append([]step{{st, n}}, steps...)
		x = x.Args[0]
	}
	if x == nil || x.Op != eng.OpLoad && x.Op != eng.OpMemPhi {
		return nil, "", false
	}
	var pre []step
	tp := x.Path.Root.Typ
	if pt, isP := tp.Underlying().(*types.Pointer); isP {
		tp = pt.Elem()
	}
	for _, s := range x.Path.Steps {
		st, isS := tp.Underlying().(*types.Struct)
		if s.Idx != nil || !isS || s.Field >= st.NumFields() {
			return nil, "", false
		}
		pre = append(pre, step{st, s.Field})
		tp = st.Field(s.Field).Type()
	}
	var names []string
	var outer []step
	for _, s := range append(pre, steps...) {
		if promoted(s.st, s.i) {
			outer = append(outer, s)
			continue
		}
		n := jsonName(s.st, s.i)
		for _, o := range outer {
			if hides(o.st, o.i, n) {
				return nil, "", false
			}
		}
		names, outer = append(names, n), nil
	}
	return x.Path.Root, strings.Join(names, "."), true
}

func isDecode(n string) bool {
	return n == "encoding/json.Unmarshal" || n == "(*encoding/json.Decoder).Decode"
}

// decoded: x was read from a request: the JSON path, and the decoding call.
func decoded(t *eng.Terms, x *eng.Term) (call *eng.Val, path string, why string) {
	if x == nil {
		return nil, "", "nothing"
	}
	y := x
	for y.Op == eng.OpField {
		y = y.Args[0]
	}
	root, p, ok := jsonPath(x)
	if ok && y.Op == eng.OpMemPhi {
		// decoded on some paths only; whether anything is done on the others is
		// decided by the property on malformed requests
		var d *eng.Term
		for _, lf := range t.Leaves(y, nil) {
			if zeroish(lf) {
				continue
			}
			if lf.Op != eng.OpLoad || d != nil && d.Ver != lf.Ver {
				d = nil
				break
			}
			d = lf
		}
		if d != nil {
			y = d
		}
	}
	if !ok || y.Op != eng.OpLoad || y.Ver == nil || !isDecode(Callee(y.Ver)) {
		return nil, "", "it is " + x.String() + " and not read from the decoded request"
	}
	a := unwrapIface(t.Of(y.Ver.Args[len(y.Ver.Args)-1]))
	if a != root {
		return nil, "", "it is not read from what was decoded"
	}
	return y.Ver, p, ""
}

func isPut(n string) bool { return strings.HasPrefix(n, "dps.PutDataPoint") }
func isGet(n string) bool { return strings.HasPrefix(n, "dps.GetDataPoints") }

func checkP16(c *C) {
	// What the API makes of a request's datapoint, and of the datapoints it found.
	puts, gets := 0, 0
	for _, en := range c.entries("api", pAPI) {
		g, t := en.G, en.G.Terms()
		for _, v := range Calls(g, isPut) {
			puts++
			dp := fieldTerm(t, t.Of(v.Args[0]), "DataPoint")
			for _, f := range dpFields {
				x := fieldTerm(t, dp, f)
				_, p, why := decoded(t, x)
				if why != "" {
					c.Bad("put", en.Name+" "+f, v.Where(), "field %s of the stored datapoint: %s", f, why)
					continue
				}
				c.Expect(strings.EqualFold(p, "dp."+jsonNames[f]), "put", en.Name+" "+f, v.Where(), "field %s of the stored datapoint is taken from %q of the request", f, p)
			}
		}
		var getCalls = Calls(g, isGet)
		if len(getCalls) == 0 {
			continue
		}
		ms := Calls(g, is("encoding/json.Marshal", "encoding/json.MarshalIndent", "(*encoding/json.Encoder).Encode"))
		c.Expect(len(ms) > 0, "query", en.Name, where(c, en.Fn), "the datapoints that were found are not encoded")
		for _, v := range ms {
			gets++
			i := 0
			if v.Fn.Signature.Recv() != nil {
				i = 1
			}
			why := c.convertedList(g, t, unwrapIface(t.Of(v.Args[i])), getCalls)
			c.Expect(why == "", "query", en.Name, v.Where(), "the reply is not the list of all datapoints that were found: %s", why)
		}
	}
	c.dpTypes()
	c.dpWhole()
	c.dpThroughDps()
	c.Min("put", 12)
	c.Min("query", 1)
	c.Min("names", 8)
	c.Min("whole", 1)
	c.Min("helpers", 6)
}

// convertedList: x has one element per found datapoint, with all its fields.
func (c *C) convertedList(g *eng.Graph, t *eng.Terms, x *eng.Term, found []*eng.Val) string {
	isFound := func(y *eng.Term) bool {
		lv := t.Leaves(y, nil)
		n := 0
		for _, l := range lv {
			if l.IsNil() {
				continue
			}
			hit := false
			for _, f := range found {
				if l.Op == eng.OpCall && l.V == f {
					hit = true
				}
			}
			if !hit {
				return false
			}
			n++
		}
		return n > 0
	}
	msg := ""
	n := 0
	for _, lf := range t.Leaves(x, func(y *eng.Term) bool { return y.JoinBlk() != nil && y.JoinBlk().IsLoopHeader() }) {
		if lf.IsNil() || emptyList(lf) && lf.Op == eng.OpSlice {
			continue // only used if nothing was found: checked by the property on outcomes
		}
		n++
		et := eng.ElemType(lf.Typ)
		if dpKind(et) == "DataPoint" && isFound(lf) {
			continue
		}
		m, why := mapLoop(g, t, lf, nil)
		if m == nil {
			return why
		}
		if m.Filtered {
			return "datapoints may be left out"
		}
		if !isFound(m.Cv.List) {
			return "it is made from " + m.Cv.List.String()
		}
		if m.Cv.Back && !m.Indexed {
			return "the order is reversed"
		}
		for _, el := range m.Elems {
			for _, f := range dpFields {
				y := fieldTerm(t, el, f)
				if y == nil {
					return "the elements have no field " + f
				}
				fs, ok := m.Cv.ElemOf(t, y)
				if !ok || len(fs) != 1 || fs[0] != f {
					msg = "field " + f + " of a replied datapoint is " + y.String()
				}
			}
		}
	}
	if n == 0 {
		return "nothing is replied"
	}
	return msg
}

// dpTypes: the names on the wire and that nothing encodes datapoints in its own way.
func (c *C) dpTypes() {
	for _, tn := range [][2]string{{pCommon, "DataPoint"}, {pAPI, "DP"}} {
		n := c.P.Named(tn[0], tn[1])
		if n == nil {
			c.Bad("names", tn[1], "-", "type %s does not exist anymore", tn[1])
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			c.Bad("names", tn[1], "-", "type %s is not a struct anymore", tn[1])
			continue
		}
		w := c.P.Pos(n.Obj().Pos())
		for _, f := range dpFields {
			found := false
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() != f {
					continue
				}
				found = true
				if tn[1] == "DP" {
					c.Expect(jsonName(st, i) == jsonNames[f] && jsonOptions(st, i) == "", "names", tn[1]+"."+f, w, "field %s is encoded as %q with options %q", f, jsonName(st, i), jsonOptions(st, i))
				} else {
					c.OK("names", tn[1]+"."+f, w)
				}
			}
			c.Expect(found, "fields", tn[1]+"."+f, w, "field %s of %s does not exist anymore", f, tn[1])
		}
		for _, mn := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText", "GobEncode", "GobDecode", "MarshalBinary", "UnmarshalBinary"} {
			for _, x := range []types.Type{n, types.NewPointer(n)} {
				if s := types.NewMethodSet(x).Lookup(n.Obj().Pkg(), mn); s != nil {
					c.Bad("names", tn[1]+"."+mn, w, "%s has its own encoding", tn[1])
				}
			}
		}
	}
}

// dpWhole: datapoints are only passed on as a whole.
func (c *C) dpWhole() {
	n := 0
	seen := map[string]bool{}
	for _, en := range c.entries("L1") {
		g, t := en.G, en.G.Terms()
		g.EachOwn(func(v *eng.Val) {
			one := func(x *eng.Term, at *eng.Val) {
				if x == nil || x.Op != eng.OpAgg || dpKind(x.Typ) == "" {
					return
				}
				why := partial(t, x)
				k := at.Where() + why
				if seen[k] {
					return
				}
				seen[k] = true
				n++
				c.Expect(why == "", "whole", en.Name, at.Where(), "a datapoint is not passed on unchanged: %s", why)
			}
			check := func(x *eng.Term, at *eng.Val) {
				for _, lf := range t.Leaves(x, nil) {
					one(lf, at)
				}
			}
			switch v.Op {
			case eng.OpStore:
				if dpKind(v.Args[1].Typ) != "" {
					check(t.Of(v.Args[1]), v)
				}
				p := t.PathOf(v.Args[0])
				if p == nil || len(p.Steps) == 0 {
					return
				}
				last := p.Steps[len(p.Steps)-1]
				if last.Idx == nil && (last.Struct == pCommon+".DataPoint" || last.Struct == pAPI+".DP") && !underConstruction(t, p) {
					c.Bad("in-place", en.Name, v.Where(), "changes field %s of a datapoint that others know", last.Name)
				}
				if last.Idx != nil && isBytes(v.Args[1].Typ) && !underConstruction(t, p) {
					c.Bad("in-place", en.Name, v.Where(), "writes into the bytes of a payload")
				}
			case eng.OpReturn, eng.OpCall, eng.OpSend, eng.OpAppend, eng.OpMapUpdate:
				for _, a := range v.Args {
					if a != nil && dpKind(a.Typ) != "" {
						check(t.Of(a), v)
					}
				}
			}
		})
	}
}

func isBytes(tp types.Type) bool {
	b, ok := tp.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// underConstruction: a location in memory that was made here.
func underConstruction(t *eng.Terms, p *eng.Path) bool {
	for _, r := range t.Leaves(p.Root, nil) {
		for r.Op == eng.OpSlice {
			r = r.Args[0]
		}
		if r.Op != eng.OpAlloc && r.Op != eng.OpMakeSlice && !r.IsNil() {
			return false
		}
	}
	return true
}

// dpSource: x is field f of some datapoint.
func dpSource(t *eng.Terms, x *eng.Term) (src string, field string) {
	switch x.Op {
	case eng.OpField:
		if dpKind(x.Args[0].Typ) != "" {
			_, fs := sel(x)
			return x.Args[0].String(), fs[len(fs)-1]
		}
	case eng.OpLoad, eng.OpMemPhi:
		if len(x.Path.Steps) == 0 {
			return "", ""
		}
		last := x.Path.Steps[len(x.Path.Steps)-1]
		if last.Idx == nil && (last.Struct == pCommon+".DataPoint" || last.Struct == pAPI+".DP") {
			q := *x.Path
			q.Steps = q.Steps[:len(q.Steps)-1]
			return q.String() + "@" + verOf(x), last.Name
		}
	}
	return "", ""
}

func verOf(x *eng.Term) string {
	if x.Ver != nil {
		return itoa(int64(x.Ver.ID))
	}
	if x.Blk != nil {
		return "b" + itoa(int64(x.Blk.ID))
	}
	return x.Aux
}

// partial tells what is wrong with a datapoint that is put together from parts.
func partial(t *eng.Terms, x *eng.Term) string {
	st, ok := x.Typ.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	srcs := map[string]bool{}
	any := false
	for i, a := range x.Args {
		s, _ := dpSource(t, a)
		if s != "" {
			srcs[s] = true
			any = true
		}
		_ = i
	}
	if !any {
		return ""
	}
	for i, a := range x.Args {
		s, f := dpSource(t, a)
		name := st.Field(i).Name()
		if !isDpField(name) {
			continue
		}
		if s == "" {
			return "field " + name + " is " + a.String()
		}
		if f != name {
			return "field " + name + " gets " + f
		}
	}
	if len(srcs) > 1 {
		return "its fields come from different datapoints"
	}
	return ""
}

func isDpField(n string) bool {
	for _, f := range dpFields {
		if f == n {
			return true
		}
	}
	return false
}

// dpThroughDps: the helpers send what they are given and return what was found.
func (c *C) dpThroughDps() {
	for _, en := range c.entries("dps", pDps) {
		if !exported(en.Fn) || en.G.Parent != nil {
			continue
		}
		g, t := en.G, en.G.Terms()
		if isPut("dps." + en.Fn.Name()) {
			want := fieldTerm(t, t.Of(g.Params[0]), "DataPoint")
			for _, v := range Calls(g, is("kmeansClient.AddDataPoint")) {
				x := t.Of(v.Args[1])
				c.Expect(sameStruct(t, x, want), "helpers", en.Name, v.Where(), "adds %v and not the datapoint it was given", x)
			}
		}
		if isGet("dps." + en.Fn.Name()) {
			for _, e := range g.Exits {
				src := listSrc(t, t.Of(e.Args[0]))
				why := ""
				for _, b := range src.Bases {
					if !emptyList(b) && !(b.Op == eng.OpCall && Callee(b.V) == "kmeansClient.KNNLookup") {
						if b.Op == eng.OpSlice {
							continue // cut to size
						}
						why = b.String()
					}
				}
				for _, a := range src.Spreads {
					if !fromLookup(a.X) {
						why = a.X.String()
					}
				}
				for _, a := range src.Elems {
					if a.X.Op != eng.OpLoad || !fromLookup(a.X.Path.Root) {
						why = a.X.String()
					}
				}
				c.Expect(why == "", "helpers", en.Name, e.Where(), "returns %s, which no node returned", why)
			}
		}
	}
}

func fromLookup(x *eng.Term) bool {
	for x.Op == eng.OpSlice {
		x = x.Args[0]
	}
	return x.Op == eng.OpCall && Callee(x.V) == "kmeansClient.KNNLookup"
}

// sameStruct: two struct values are equal, field by field.
func sameStruct(t *eng.Terms, x, y *eng.Term) bool {
	if x == y {
		return true
	}
	if x == nil || y == nil || x.Typ == nil || y.Typ == nil {
		return false
	}
	st, ok := x.Typ.Underlying().(*types.Struct)
	if !ok || !types.Identical(x.Typ, y.Typ) {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if t.Project(x, i, st.Field(i).Type()) != t.Project(y, i, st.Field(i).Type()) {
			return false
		}
	}
	return true
}

func init() {
	register("P16", checkP16, Desc{
		How:     "In the flattened HTTP handlers the datapoint given to the store must have every field read from the decoded request under its documented name, and the encoded reply must be a list with one element per found datapoint, in order, whose fields are the same-named fields of that datapoint. Everywhere in the module a datapoint value that is assembled from parts must take all its fields from the same-named fields of one datapoint, and nobody writes to a field of a datapoint (or to payload bytes) that is not under construction.",
		Rules:   map[string]string{"put": "fields of the stored datapoint are those of the request", "query": "the reply has every found datapoint, complete and in order", "names": "documented JSON names, no custom encodings", "fields": "all representations have all fields", "whole": "datapoints assembled from parts are complete copies", "in-place": "no field or payload byte of a shared datapoint is written", "helpers": "the put/get helpers pass datapoints through"},
		Assumes: []string{"encoding/json and encoding/gob round-trip these field types (time.Time loses its monotonic reading and location name, not the instant)"},
	})
}
