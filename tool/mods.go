package main

// Side-effect summaries: for every repository function the set of memory
// classes (struct fields, map contents, slice elements, globals) it may modify,
// transitively through static, interface (class hierarchy) and dynamic calls.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func tstr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func fieldKeyOf(st types.Type, i int) string {
	s := deref(st)
	u, ok := s.Underlying().(*types.Struct)
	if !ok {
		return "F:?"
	}
	return "F:" + tstr(s) + "." + u.Field(i).Name()
}

// addrKey classifies the memory an address value points to
func addrKey(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		return fieldKeyOf(v.X.Type(), v.Field)
	case *ssa.IndexAddr:
		t := deref(v.X.Type()).Underlying()
		switch t := t.(type) {
		case *types.Slice:
			return "E:" + tstr(t.Elem())
		case *types.Array:
			return "E:" + tstr(t.Elem())
		}
		return "E:?"
	case *ssa.Global:
		return "G:" + v.String()
	case *ssa.Alloc:
		return ""
	case *ssa.FreeVar:
		return ""
	}
	return "P:" + tstr(deref(v.Type()))
}

func structFieldKeys(t types.Type, out map[string]bool) {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < u.NumFields(); i++ {
		out[fieldKeyOf(t, i)] = true
	}
}

func (p *Prog) directMods(f *ssa.Function, m map[string]bool) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if k := addrKey(in.Addr); k != "" {
					m[k] = true
					if strings.HasPrefix(k, "P:") {
						structFieldKeys(deref(in.Addr.Type()), m)
					}
				}
			case *ssa.MapUpdate:
				m["M:"+tstr(in.Map.Type())] = true
			case ssa.CallInstruction:
				c := in.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "delete", "clear":
						m["M:"+tstr(c.Args[0].Type())] = true
					case "copy":
						if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
							m["E:"+tstr(s.Elem())] = true
						}
					}
				}
			}
		}
	}
}

// calleesOf resolves the possible repository callees of a call instruction
func (p *Prog) calleesOf(c *ssa.CallCommon) []*ssa.Function {
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	if c.IsInvoke() {
		return p.impls(c.Value.Type(), c.Method)
	}
	return p.dynCallees(c.Signature())
}

// impls: implementations of an interface method among the repository types
func (p *Prog) impls(it types.Type, m *types.Func) []*ssa.Function {
	key := tstr(it) + "." + m.Name()
	if r, ok := p.implsMem[key]; ok {
		return r
	}
	var out []*ssa.Function
	iface, _ := it.Underlying().(*types.Interface)
	if iface != nil {
		for _, rel := range repoPkgs {
			sc := p.Types[rel].Scope()
			for _, n := range sc.Names() {
				tn, ok := sc.Lookup(n).(*types.TypeName)
				if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
					continue
				}
				for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
					if !types.Implements(t, iface) {
						continue
					}
					ms := types.NewMethodSet(t)
					if s := ms.Lookup(m.Pkg(), m.Name()); s != nil {
						if f := p.SSA.MethodValue(s); f != nil {
							out = append(out, unwrap(f))
						}
					}
					break
				}
			}
		}
	}
	if p.implsMem == nil {
		p.implsMem = map[string][]*ssa.Function{}
	}
	p.implsMem[key] = out
	return out
}

// unwrap follows synthetic wrappers to the declared function
func unwrap(f *ssa.Function) *ssa.Function {
	if f.Synthetic == "" || len(f.Blocks) == 0 {
		return f
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && g.Name() == f.Name() || g != nil && strings.HasPrefix(f.Name(), g.Name()) {
					return g
				}
			}
		}
	}
	return f
}

func sigKey(s *types.Signature) string {
	return types.TypeString(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), func(p *types.Package) string { return p.Path() })
}

// dynCallees: address-taken repository functions of the signature
func (p *Prog) dynCallees(s *types.Signature) []*ssa.Function {
	if p.addrOf == nil {
		p.addrOf = map[string][]*ssa.Function{}
		seen := map[*ssa.Function]bool{}
		add := func(f *ssa.Function) {
			if !seen[f] && len(f.Blocks) > 0 {
				seen[f] = true
				k := sigKey(f.Signature)
				p.addrOf[k] = append(p.addrOf[k], f)
			}
		}
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok {
						add(mc.Fn.(*ssa.Function))
					}
					var rands [16]*ssa.Value
					for _, r := range in.Operands(rands[:0]) {
						if g, ok := (*r).(*ssa.Function); ok {
							if c, isCall := in.(ssa.CallInstruction); isCall && c.Common().Value == g {
								continue
							}
							add(g)
						}
					}
				}
			}
		}
	}
	return p.addrOf[sigKey(s)]
}

// edges: all repository functions a function may cause to run
func (p *Prog) edges(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case ssa.CallInstruction:
				out = append(out, p.calleesOf(in.Common())...)
			case *ssa.MakeClosure:
				out = append(out, in.Fn.(*ssa.Function))
			}
		}
	}
	return out
}

// Mods: transitive modification set
func (p *Prog) Mods(f *ssa.Function) map[string]bool {
	if p.mods == nil {
		p.mods = map[*ssa.Function]map[string]bool{}
	}
	if m, ok := p.mods[f]; ok {
		return m
	}
	m := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function)
	rec = func(g *ssa.Function) {
		if seen[g] || len(g.Blocks) == 0 {
			return
		}
		seen[g] = true
		p.directMods(g, m)
		for _, h := range p.edges(g) {
			rec(h)
		}
	}
	rec(f)
	p.mods[f] = m
	return m
}

// Reach: all functions reachable from f (itself included)
func (p *Prog) Reach(f *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function)
	rec = func(g *ssa.Function) {
		if seen[g] {
			return
		}
		seen[g] = true
		for _, h := range p.edges(g) {
			rec(h)
		}
	}
	rec(f)
	return seen
}

// which captured variables a closure body may store to (transitively)
func closureStores(f *ssa.Function, seen map[*ssa.Function]bool) map[int]bool {
	out := map[int]bool{}
	if seen[f] {
		return out
	}
	seen[f] = true
	idx := map[ssa.Value]int{}
	for i, fv := range f.FreeVars {
		idx[fv] = i
	}
	root := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			case *ssa.Slice:
				v = x.X
			default:
				return v
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if i, ok := idx[root(in.Addr)]; ok {
					out[i] = true
				}
			case *ssa.MakeClosure:
				sub := closureStores(in.Fn.(*ssa.Function), seen)
				for j, bnd := range in.Bindings {
					if i, ok := idx[bnd]; ok && sub[j] {
						out[i] = true
					}
				}
			case ssa.CallInstruction:
				for _, a := range in.Common().Args {
					if i, ok := idx[root(a)]; ok {
						if _, isPtr := f.FreeVars[i].Type().Underlying().(*types.Pointer); isPtr {
							out[i] = true
						}
					}
				}
			}
		}
	}
	return out
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
