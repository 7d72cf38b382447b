package eng

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ModSet says what memory a function may write, by location class.
type ModSet struct {
	Classes map[string]bool
	All     bool // unknown effects
}

func typeKey(t types.Type) string { return types.TypeString(t, nil) }

// classes of locations
func fieldClass(structName, field string) string { return "F:" + structName + "." + field }
func elemClass(t types.Type) string              { return "E:" + typeKey(t) }
func cellClass(t types.Type) string              { return "C:" + typeKey(t) }
func mapClass(t types.Type) string               { return "M:" + typeKey(t.Underlying()) }

func structName(t types.Type) string {
	n := TypeName(t)
	if n == "" {
		n = t.Underlying().String()
	}
	return n
}

// ModOf computes what fn may write, callees included.
func (p *Prog) ModOf(fn *ssa.Function) *ModSet {
	if m, ok := p.mods[fn]; ok {
		return m
	}
	m := &ModSet{Classes: map[string]bool{}}
	p.mods[fn] = m
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Store:
					if localAlloc(i.Addr) {
						continue
					}
					addStoreClasses(m, i.Addr, i.Val.Type())
				case *ssa.MapUpdate:
					if _, ok := i.Map.(*ssa.MakeMap); !ok {
						m.Classes[mapClass(i.Map.Type())] = true
					}
				case *ssa.MakeClosure:
					visit(i.Fn.(*ssa.Function))
				case ssa.CallInstruction:
					c := i.Common()
					if b, ok := c.Value.(*ssa.Builtin); ok {
						switch b.Name() {
						case "copy":
							if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
								if _, fresh := c.Args[0].(*ssa.MakeSlice); !fresh {
									m.Classes[elemClass(s.Elem())] = true
								}
							}
						case "append":
							if _, ok := c.Args[0].(*ssa.Slice); ok {
								if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
									m.Classes[elemClass(s.Elem())] = true
								}
							}
						case "delete":
							m.Classes[mapClass(c.Args[0].Type())] = true
						}
						continue
					}
					if c.IsInvoke() {
						for _, impl := range p.Impls(c.Value.Type(), c.Method) {
							visit(impl)
						}
						continue
					}
					if callee := c.StaticCallee(); callee != nil {
						if p.InModule(callee) {
							visit(callee)
						} else if strings.HasPrefix(callee.String(), "sort.") && len(c.Args) > 0 {
							if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
								m.Classes[elemClass(s.Elem())] = true
							}
						}
					}
					for _, a := range c.Args {
						if af, ok := a.(*ssa.Function); ok && p.InModule(af) {
							visit(af)
						}
					}
				}
			}
		}
	}
	visit(fn)
	return m
}

func addStoreClasses(m *ModSet, addr ssa.Value, t types.Type) {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		st := a.X.Type().Underlying().(*types.Pointer).Elem()
		m.Classes[fieldClass(structName(st), st.Underlying().(*types.Struct).Field(a.Field).Name())] = true
	case *ssa.IndexAddr:
		m.Classes[elemClass(t)] = true
	default:
		m.Classes[cellClass(t)] = true
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			m.Classes[fieldClass(structName(t), st.Field(i).Name())] = true
		}
	}
}

// localAlloc tells whether addr is inside an allocation of the same function
// that never leaves it other than through closures.
func localAlloc(addr ssa.Value) bool {
	for {
		switch a := addr.(type) {
		case *ssa.FieldAddr:
			addr = a.X
			continue
		case *ssa.IndexAddr:
			if _, ok := a.X.Type().Underlying().(*types.Pointer); ok {
				addr = a.X
				continue
			}
			switch x := a.X.(type) {
			case *ssa.MakeSlice:
				return true
			case *ssa.Slice:
				if al, ok := x.X.(*ssa.Alloc); ok {
					addr = al
					continue
				}
			}
			return false
		case *ssa.Alloc:
			return true
		default:
			return false
		}
	}
}

// Impls lists the module's implementations of an interface method.
func (p *Prog) Impls(iface types.Type, m *types.Func) []*ssa.Function {
	it, ok := iface.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var r []*ssa.Function
	var paths []string
	for k := range p.ByPkg {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		s := p.ByPkg[k]
		var names []string
		for n := range s.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			t, ok := s.Members[n].(*ssa.Type)
			if !ok || types.IsInterface(t.Type()) {
				continue
			}
			for _, x := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if types.Implements(x, it) {
					if f := p.SSA.LookupMethod(x, m.Pkg(), m.Name()); f != nil {
						r = append(r, f)
						break
					}
				}
			}
		}
	}
	return r
}

// Constant tells whether a class of fields is only ever written while the struct
// that it is in is being made.
func (p *Prog) constantField(class string) bool {
	if p.mutable == nil {
		p.mutable = map[string]bool{}
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					switch i := ins.(type) {
					case *ssa.Store:
						if localAlloc(i.Addr) {
							continue
						}
						m := &ModSet{Classes: map[string]bool{}}
						addStoreClasses(m, i.Addr, i.Val.Type())
						for k := range m.Classes {
							p.mutable[k] = true
						}
					case ssa.CallInstruction:
						// addresses of fields that are handed out (other than to methods of locks)
						for _, a := range i.Common().Args {
							fa, ok := a.(*ssa.FieldAddr)
							if !ok {
								continue
							}
							if n := TypeName(fa.Type()); strings.HasPrefix(n, "sync.") {
								continue
							}
							st := fa.X.Type().Underlying().(*types.Pointer).Elem()
							p.mutable[fieldClass(structName(st), st.Underlying().(*types.Struct).Field(fa.Field).Name())] = true
						}
					}
				}
			}
		}
	}
	return strings.HasPrefix(class, "F:"+Module) && !p.mutable[class]
}

// ConstantField tells whether a field is only written while its struct is made.
func (p *Prog) ConstantField(structName, field string) bool {
	return p.constantField(fieldClass(structName, field))
}
