package main

// Generic rules instantiated with tables confirmed by reading: lock discipline
// and error discipline.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A guard: fields of a structure protected by a lock
type guard struct {
	pkg, typ string   // structure holding the lock
	mutex    string   // field
	fields   []string // guarded fields of the same structure
	items    []string // guarded fields of other structures: "type.field" or "type.*" of the same package
	// entry that owns the goroutines sharing the state: it may access the state
	// before it starts one and after it has waited for all (the named
	// sync.Once or sync.WaitGroup field)
	owner, joined string
}

func (g guard) class() string {
	return g.pkg[strings.LastIndex(g.pkg, "/")+1:] + "." + g.typ + "." + g.mutex
}

// entries of a package: functions that can be called with no lock held:
// exported functions and methods, methods of unexported types implementing
// interfaces of the repository, goroutines
func (p *Prog) entries(rel string, typs ...string) []*ssa.Function {
	want := map[string]bool{}
	for _, t := range typs {
		want[t] = true
	}
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && len(f.Blocks) > 0 {
			seen[f] = true
			out = append(out, f)
		}
	}
	for _, f := range p.Funcs {
		if f.Pkg == nil || p.rel(f.Pkg) != rel || f.Synthetic != "" {
			continue
		}
		if f.Parent() == nil && f.Object() != nil && f.Object().Exported() {
			if r := f.Signature.Recv(); r == nil || len(want) == 0 || want[typeName(r.Type())] {
				add(f)
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					if h := g.Common().StaticCallee(); h != nil && p.isRepo(h) && h.Pkg != nil && p.rel(h.Pkg) == rel {
						add(h)
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return fname(out[i]) < fname(out[j]) })
	return out
}

func (p *Prog) rel(pk *ssa.Package) string {
	return strings.TrimPrefix(strings.TrimPrefix(pk.Pkg.Path(), modPath), "/")
}

func typeName(t types.Type) string {
	if n, ok := types.Unalias(deref(t)).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// lockCall classifies a call of a sync lock method
func lockCall(name string) string {
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return "Lock"
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return "Unlock"
	case "(*sync.RWMutex).RLock":
		return "RLock"
	case "(*sync.RWMutex).RUnlock":
		return "RUnlock"
	}
	return ""
}

// lockClass: type and field of a lock address
func lockClass(a *Term) string {
	if a.Op == "field" {
		return typeKey(deref(a.Args[0].T)) + "." + a.Aux
	}
	return a.Op
}

func typeKey(t types.Type) string {
	if t == nil {
		return "?"
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		pp := n.Obj().Pkg().Path()
		return pp[strings.LastIndex(pp, "/")+1:] + "." + n.Obj().Name()
	}
	return tstr(t)
}

// lockRule: guarded fields are accessed with their lock held (exclusively for
// writes), locks are released on every exit, never taken twice or released
// when not held. order collects pairs held -> taken.
func lockRule(c *Ctx, rule string, gs []guard, entries []*ssa.Function, opts func(w *Walker), order map[string]string) {
	type gi struct {
		g     guard
		class string
		st    types.Type
		mi    int
	}
	fieldGuard := map[string]*gi{} // fieldKey -> guard
	for _, g := range gs {
		n := c.P.Named(g.pkg, g.typ)
		if n == nil {
			c.Anchor(g.pkg + "." + g.typ)
			return
		}
		mi, _ := fieldIndex(n, g.mutex)
		if mi < 0 {
			c.Anchor(g.pkg + "." + g.typ + "." + g.mutex)
			return
		}
		x := &gi{g: g, class: typeKey(n) + "." + g.mutex, st: n, mi: mi}
		for _, f := range g.fields {
			i, _ := fieldIndex(n, f)
			if i < 0 {
				c.Anchor(g.pkg + "." + g.typ + "." + f)
				return
			}
			fieldGuard[fieldKeyOf(n, i)] = x
		}
		for _, it := range g.items {
			k := strings.LastIndex(it, ".")
			m := c.P.Named(g.pkg, it[:k])
			if m == nil {
				c.Anchor(g.pkg + "." + it[:k])
				return
			}
			s := m.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if it[k+1:] == "*" || it[k+1:] == s.Field(i).Name() {
					fieldGuard[fieldKeyOf(m, i)] = x
				}
			}
		}
	}
	isRel := func(f *ssa.Function, in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.FieldAddr:
			return fieldGuard[fieldKeyOf(deref(in.X.Type()), in.Field)] != nil
		case ssa.CallInstruction:
			if g := in.Common().StaticCallee(); g != nil {
				return lockCall(g.String()) != ""
			}
		}
		return false
	}
	for _, e := range entries {
		w := c.P.NewWalker()
		w.Relevant = isRel
		w.Want["load"], w.Want["lookup"] = true, true
		w.Merge = true
		mapOf := map[*Term]*Term{} // map values read from guarded fields
		if opts != nil {
			opts(w)
		}
		if !w.relevant(e) {
			continue
		}
		ename := fname(e)
		used := false
		// where a lock was taken, for messages
		where := map[string]string{}
		w.OnEvent = func(s *State, ev *Event) bool {
			switch ev.Kind {
			case "go":
				s.auto["G"] = "1"
			case "begin":
				if ev.Name == "Do" && ev.Args[0].Op == "field" {
					s.auto["J"+ev.Args[0].Aux] = "1"
				}
			case "call":
				m := lockCall(ev.Name)
				if m == "" {
					if ev.Name == "(*sync.WaitGroup).Wait" && ev.Args[0].Op == "field" {
						s.auto["J"+ev.Args[0].Aux] = "1"
					}
					return false
				}
				used = true
				a := ev.Args[0]
				cls := lockClass(a)
				k := "L" + strconv.Itoa(a.ID)
				switch m {
				case "Lock", "RLock":
					if h := s.auto[k]; h != "" {
						c.Bad(rule, ename+" takes "+cls, c.at(ev.Instr), "%s: the lock %s is taken while it is already held (since %s): the goroutine blocks for ever", ename, cls, where[k])
					}
					for h, v := range s.auto {
						if strings.HasPrefix(h, "L") && h != k && order != nil {
							hc := v[strings.Index(v, ":")+1:]
							if _, ok := order[hc+" -> "+cls]; !ok {
								order[hc+" -> "+cls] = c.at(ev.Instr) + " in " + ename
							}
						}
					}
					s.auto[k] = m + ":" + cls
					where[k] = c.at(ev.Instr)
				default:
					h := s.auto[k]
					if h == "" {
						c.Bad(rule, ename+" releases "+cls, c.at(ev.Instr), "%s: the lock %s is released without being held", ename, cls)
					} else if strings.HasPrefix(h, "Lock:") != (m == "Unlock") {
						c.Bad(rule, ename+" releases "+cls, c.at(ev.Instr), "%s: the lock %s is taken by %s and released by %s", ename, cls, h, m)
					}
					delete(s.auto, k)
				}
			case "load", "store", "mapupdate", "mapdelete", "range", "lookup":
				chk := func(a *Term, write bool) {
					for x := a; x != nil && x.Op == "field"; x = x.Args[0] {
						key, _ := x.Obj.(string)
						g := fieldGuard[key]
						if g == nil {
							continue
						}
						r := rootTerm(x)
						if r.Op == "alloc" && s.auto["pub"+strconv.Itoa(r.ID)] == "" {
							return // not shared yet
						}
						used = true
						if g.g.owner != "" && ename == g.g.owner && (s.auto["G"] == "" || s.auto["J"+g.g.joined] != "") {
							c.Site(rule, ename+": "+key+" alone")
							return
						}
						held := ""
						own := x.Args[0].T != nil && types.Identical(deref(x.Args[0].T), g.st)
						if own {
							held = s.auto["L"+strconv.Itoa(w.fieldAddr(x.Args[0], g.st, g.mi).ID)]
							if i := strings.Index(held, ":"); i >= 0 {
								held = held[:i]
							}
						} else {
							for h, v := range s.auto {
								if strings.HasPrefix(h, "L") && v[strings.Index(v, ":")+1:] == g.class && held != "Lock" {
									held = v[:strings.Index(v, ":")]
								}
							}
						}
						what := "read"
						if write {
							what = "written"
						}
						c.Expect(held == "Lock" || held == "RLock" && !write, rule, ename+": "+key+" "+what, c.at(ev.Instr),
							"%s: %s is %s without holding %s", ename, strings.TrimPrefix(key, "F:"), what, g.class)
						return
					}
				}
				switch ev.Kind {
				case "load":
					chk(ev.Addr, false)
					if _, ok := ev.Addr.Obj.(string); ok && ev.Addr.T != nil {
						if _, ok := deref(ev.Addr.T).Underlying().(*types.Map); ok {
							mapOf[ev.Val] = ev.Addr
						}
					}
				case "range", "lookup":
					if a := mapOf[ev.Addr]; a != nil && s.auto["T"+strconv.Itoa(ev.Addr.ID)] == "" {
						chk(a, false)
					}
				case "store":
					for m, a := range mapOf { // a map replaced is not shared any more
						if a == ev.Addr {
							s.auto["T"+strconv.Itoa(m.ID)] = "1"
						}
					}
					chk(ev.Addr, true)
				case "mapupdate", "mapdelete":
					if a := mapOf[ev.Addr]; a != nil && s.auto["T"+strconv.Itoa(ev.Addr.ID)] == "" {
						chk(a, true)
					}
				}
			}
			return false
		}
		for _, x := range w.Run(e, w.Params(e), nil, nil) {
			for h, v := range x.St.auto {
				if strings.HasPrefix(h, "L") && !x.Panic {
					cls := v[strings.Index(v, ":")+1:]
					c.Bad(rule, ename+" leaves "+cls, c.at(x.Instr), "%s returns with the lock %s held (taken at %s)", ename, cls, where[h])
				}
			}
		}
		if used {
			c.Site(rule, ename)
		}
		c.Done(w)
	}
}

// acyclic reports cycles of the lock order
func acyclic(c *Ctx, rule string, order map[string]string) {
	next := map[string][]string{}
	for k := range order {
		i := strings.Index(k, " -> ")
		next[k[:i]] = append(next[k[:i]], k[i+4:])
		c.Site(rule, k)
	}
	var path []string
	on, done := map[string]bool{}, map[string]bool{}
	var dfs func(n string)
	dfs = func(n string) {
		if done[n] {
			return
		}
		on[n] = true
		path = append(path, n)
		sort.Strings(next[n])
		for _, m := range next[n] {
			if on[m] {
				i := len(path) - 1
				for path[i] != m {
					i--
				}
				cy := append(append([]string{}, path[i:]...), m)
				var at []string
				for j := 0; j+1 < len(cy); j++ {
					at = append(at, order[cy[j]+" -> "+cy[j+1]])
				}
				key := append([]string{}, cy[:len(cy)-1]...)
				sort.Strings(key)
				c.Bad(rule, "cycle "+strings.Join(key, ","), order[n+" -> "+m], "the locks are taken in a cycle %s (%s): two goroutines can block each other", strings.Join(cy, " -> "), strings.Join(at, "; "))
				continue
			}
			dfs(m)
		}
		on[n] = false
		done[n] = true
		path = path[:len(path)-1]
	}
	var ns []string
	for n := range next {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		dfs(n)
	}
}

var _ = fmt.Sprint
