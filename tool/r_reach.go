package main

// Walking and splitting: every object reachable from a Root is reached.

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R02", "Walk and Split reach every object below a reference, and stop when told to",
		"Starting with the exported Walk and Split methods every function going through a reference, an encoded object, an object by its hash or a node of Refs is judged on its own, calls of the others being its steps; a round of every loop is judged from an arbitrary state, from its beginning by its entry values, and its end by what ends it.", checkR02)
}

type reachCtx struct {
	c                          *Ctx
	reg                        *types.Package
	ref, refs, dyn, node, root *types.Named
	fNode                      string // the root node, of Refs
	fBranches, fLeafs          string // of a node
	fElem                      string // the hash of a leaf
	fMods                      string
	fRootRefs                  string
	consts                     map[string]*Term
	queue                      []*reachUnit
	seen                       map[*ssa.Function]bool
	order                      []*ssa.Function
	walked, split              int
	entries                    map[*ssa.Function]bool
	inline                     map[*ssa.Function]bool // helpers, judged where they are called
}

// a reachUnit is a function going through something on behalf of a visitor
type reachUnit struct {
	f     *ssa.Function
	kind  string // hash data ref node
	walk  bool   // or split
	entry bool
}

type reachLoop struct {
	what    string
	t, n    *Term
	list    *Term
	carried *Term
}

type reachRun struct {
	*reachCtx
	u     *reachUnit
	w     *Walker
	name  string
	obj   *Term // the reference
	hash  *Term
	data  *Term
	sch   *Term
	rn    *Term
	depth *Term
	vis   *Term // the visitor
	pack  *Term
	loops []reachLoop
	back  map[*ssa.BasicBlock]bool

	e   *Exit
	st  *State
	evs []*Event
	at  string
}

func newReachCtx(c *Ctx) *reachCtx {
	x := &reachCtx{c: c, reg: c.P.Types["skyobject/registry"], seen: map[*ssa.Function]bool{}, entries: map[*ssa.Function]bool{}, consts: map[string]*Term{}}
	nm := func(n string) *types.Named { return c.P.Named("skyobject/registry", n) }
	x.ref, x.refs, x.dyn, x.root = nm("Ref"), nm("Refs"), nm("Dynamic"), nm("Root")
	if x.reg == nil || x.ref == nil || x.refs == nil || x.dyn == nil || x.root == nil {
		c.Anchor("registry: Ref, Refs, Dynamic, Root")
		return nil
	}
	x.fNode = fieldBy(x.refs, func(t types.Type) bool {
		n, ok := deref(t).(*types.Named)
		if !ok || !isPtrT(t) {
			return false
		}
		s, ok := n.Underlying().(*types.Struct)
		if !ok {
			return false
		}
		for i := 0; i < s.NumFields(); i++ {
			if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(deref(sl.Elem()), n) {
				x.node, x.fBranches = n, s.Field(i).Name()
			}
		}
		return x.node == n
	})
	if x.node == nil || x.fNode == "" {
		c.Anchor("registry: the tree of Refs")
		return nil
	}
	x.fLeafs = fieldBy(x.node, func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return ok && !types.Identical(deref(sl.Elem()), x.node)
	})
	x.fMods = fieldBy(x.node, func(t types.Type) bool { return typeName(t) == "refsMod" })
	x.fRootRefs = fieldBy(x.root, func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return ok && types.Identical(sl.Elem(), x.dyn)
	})
	for _, n := range []string{"ReferenceTypeSingle", "ReferenceTypeSlice", "ReferenceTypeDynamic", "loadedMod", "contentMod"} {
		if k, ok := x.reg.Scope().Lookup(n).(*types.Const); ok {
			if v, exact := constant.Int64Val(constant.ToInt(k.Val())); exact {
				x.consts[n] = tInt(v)
			}
		}
		if x.consts[n] == nil {
			c.Anchor("registry." + n)
			return nil
		}
	}
	if x.fLeafs == "" || x.fMods == "" || x.fRootRefs == "" {
		c.Anchor("registry: leafs and marks of nodes of Refs, references of a Root")
		return nil
	}
	return x
}

func (x *reachCtx) isPkg(f *ssa.Function) bool {
	return f != nil && f.Pkg != nil && f.Pkg.Pkg == x.reg
}

type reachSig struct {
	kind                         string
	walk                         bool
	vis, pack                    int
	obj, sch, hash, data, rn, dp int
	ints                         int
}

// sig: what a function goes through
func (x *reachCtx) sig(f *ssa.Function) (s reachSig) {
	s = reachSig{vis: -1, pack: -1, obj: -1, sch: -1, hash: -1, data: -1, rn: -1, dp: -1}
	for i, p := range f.Params {
		t := p.Type()
		switch n := typeName(t); {
		case n == "WalkFunc":
			s.vis, s.walk = i, true
		case n == "Splitter":
			s.vis = i
		case n == "Pack":
			s.pack = i
		case n == "Schema":
			s.sch = i
		case n == "SHA256":
			s.hash = i
		case isBytes(t):
			s.data = i
		case isPtrT(t) && types.Identical(deref(t), x.node):
			s.rn = i
		case isPtrT(t) && (types.Identical(deref(t), x.ref) || types.Identical(deref(t), x.refs) || types.Identical(deref(t), x.dyn) || types.Identical(deref(t), x.root)):
			s.obj = i
		case isPtrT(t) && x.splitterField(deref(t)) != "":
			s.vis = i
		case isNum(t):
			s.ints++
			s.dp = i
		default:
			s.ints += 100
		}
	}
	rs := f.Signature.Results()
	if f.Parent() != nil || s.vis < 0 || !x.isPkg(f) || f.Blocks == nil || rs.Len() > 1 || rs.Len() == 1 && !isErrorT(rs.At(0).Type()) || s.walk != (rs.Len() == 1) {
		return
	}
	switch {
	case s.rn >= 0 && s.dp >= 0 && s.ints == 1 && s.hash < 0 && s.data < 0:
		s.kind = "node"
	case s.rn < 0 && s.obj >= 0 && s.ints == 0 && s.hash < 0 && s.data < 0:
		s.kind = "ref"
	case s.rn < 0 && s.obj < 0 && s.ints == 0 && s.sch >= 0 && s.hash >= 0 && s.data < 0:
		s.kind = "hash"
	case s.rn < 0 && s.obj < 0 && s.ints == 0 && s.sch >= 0 && s.hash < 0 && s.data >= 0:
		s.kind = "data"
	}
	return
}

func (x *reachCtx) splitterField(t types.Type) string {
	n, ok := t.(*types.Named)
	if !ok {
		return ""
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return ""
	}
	return fieldBy(n, isNamedT("Splitter"))
}

func (x *reachCtx) add(f *ssa.Function, entry bool) {
	if x.seen[f] {
		return
	}
	s := x.sig(f)
	if s.kind == "" {
		return
	}
	x.seen[f] = true
	x.order = append(x.order, f)
	x.queue = append(x.queue, &reachUnit{f: f, kind: s.kind, walk: s.walk, entry: entry})
}

func checkR02(c *Ctx) {
	c.Rule("object", "An object got by its hash: one get, by that hash; a failure is returned (given to Fail), nothing follows it; the object got is gone through with its schema, unless the schema has no references (Walk), or the count says it belongs to a filled Root (Split).", 8)
	c.Rule("data", "An encoded object is gone through by its schema: a Ref, Refs or Dynamic is decoded from the object and gone through, its kind given by the schema, with the schema of elements; what cannot be decoded, has no schema of elements, or is of no known kind is a failure, and there is no other.", 30)
	c.Rule("elements", "Every element of an array, a slice or a struct, from the first to the last, beginning with its offset, is gone through with its own schema and exactly its own bytes, as sized by its schema; one passed by has no references.", 10)
	c.Rule("reference", "A Ref and a Dynamic offer their hash once (Walk) before the object is gone through, which is when the function wants it and the hash is not blank; the schema of a Dynamic is looked for in the registry by its reference; an invalid Dynamic is a failure.", 14)
	c.Rule("refs", "Refs offer the actual hash of their root first: what is not loaded is loaded before and reset after, hashes that are obsolete are updated before; from there its root node is gone through with the depth of the Refs; the first failure ends it.", 12)
	c.Rule("nodes", "A node of Refs goes through every leaf and every branch, each offered once with the depth of it (Walk) or requested once (Split), loaded before it is gone through, one level below; blank leafs are not gone through.", 12)
	c.Rule("root", "Every reference of a Root is gone through.", 2)
	c.Rule("stop", "A failure of the function ends the walk at once and is returned as it is; only exported Walk methods turn ErrStopIteration, and nothing else, into success.", 12)
	c.Rule("task", "What is given to the splitter to run captures no variable that changes after, and no node is loaded once tasks on its branches are started.", 3)
	c.Assume("Sizes given by schemas are within the data, and a schema has references exactly if one of its elements or fields has (decided by R01); a visitor, a Pack or a Splitter does what it says (decided by F01 for the filler).")
	// a function that does not keep to what those going through something do is
	// regarded as a helper, and judged with every function calling it
	inline := map[*ssa.Function]bool{}
	first := c.Fork()
	x := runReach(first, inline)
	for d := first; x != nil; {
		if len(d.viol) == 0 {
			c.Join(d)
			return
		}
		var best *ssa.Function
		var bd *Ctx
		var bx *reachCtx
		for _, f := range x.order {
			if inline[f] || x.entries[f] || !d.badWith(fname(f)+": ") || x.recursive(f) {
				continue
			}
			inline[f] = true
			e := c.Fork()
			if y := runReach(e, inline); len(e.viol) < len(d.viol) && (bd == nil || len(e.viol) < len(bd.viol)) {
				best, bd, bx = f, e, y
			}
			delete(inline, f)
		}
		if best == nil {
			break
		}
		inline[best] = true
		d, x = bd, bx
	}
	c.Join(first)
}

// badWith: something is wrong with a construct beginning so
func (c *Ctx) badWith(pre string) bool {
	for k := range c.viol {
		if strings.HasPrefix(k[strings.Index(k, "|")+1:], pre) {
			return true
		}
	}
	return false
}

// recursive: a function calls itself, not by way of those judged on their own
func (x *reachCtx) recursive(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function) bool
	rec = func(g *ssa.Function) bool {
		if g == f {
			return true
		}
		if seen[g] || x.sig(g).kind != "" && !x.inline[g] {
			return false
		}
		seen[g] = true
		for _, h := range staticEdges(g) {
			if rec(h) {
				return true
			}
		}
		return false
	}
	for _, h := range staticEdges(f) {
		if rec(h) {
			return true
		}
	}
	return false
}

// staticEdges: the functions of the source a function calls, or makes closures of
func staticEdges(f *ssa.Function) (out []*ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil {
					out = append(out, g)
				}
			}
			for _, o := range in.Operands(nil) {
				if g, ok := (*o).(*ssa.Function); ok {
					out = append(out, g)
				}
			}
		}
	}
	return
}

func runReach(c *Ctx, inline map[*ssa.Function]bool) *reachCtx {
	x := newReachCtx(c)
	if x == nil {
		return nil
	}
	x.inline = map[*ssa.Function]bool{}
	for f := range inline {
		x.inline[f] = true
	}
	for _, n := range []*types.Named{x.ref, x.refs, x.dyn, x.root} {
		for _, m := range []string{"Walk", "Split"} {
			f := c.P.methodOf(n, m)
			if f == nil && n == x.root && m == "Split" {
				continue // by the filler
			}
			if f == nil || x.sig(f).kind != "ref" {
				c.Anchor("registry." + n.Obj().Name() + "." + m)
				return nil
			}
			x.entries[f] = true
			x.add(f, true)
		}
	}
	for len(x.queue) > 0 {
		u := x.queue[0]
		x.queue = x.queue[1:]
		x.unit(u)
	}
	x.tasks()
	return x
}

// tasks: what is captured by what runs at some other time
func (x *reachCtx) tasks() {
	for _, f := range x.c.P.Funcs {
		if !x.isPkg(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !ci.Common().IsInvoke() || ci.Common().Method.Name() != "Go" || typeName(ci.Common().Value.Type()) != "Splitter" {
					continue
				}
				at := x.c.at(in)
				mc, ok := ci.Common().Args[0].(*ssa.MakeClosure)
				if !ok {
					if _, isFn := ci.Common().Args[0].(*ssa.Function); !isFn {
						x.c.Bad("task", fname(f)+": task", at, "the task cannot be told")
					}
					continue
				}
				x.c.Site("task", at)
				for _, v := range mc.Bindings {
					al, ok := v.(*ssa.Alloc)
					if !ok {
						continue
					}
					if st := storedAfter(mc, al); st != nil {
						x.c.Bad("task", fname(f)+": "+al.Comment, x.c.at(st), "variable %s is captured by a task and changes after", al.Comment)
					}
				}
			}
		}
	}
}

// storedAfter: a store to a variable after a closure captured it, within the
// life of the variable
func storedAfter(mc *ssa.MakeClosure, al *ssa.Alloc) ssa.Instruction {
	type pt struct {
		b *ssa.BasicBlock
		i int
	}
	start := 0
	for i, in := range mc.Block().Instrs {
		if in == ssa.Instruction(mc) {
			start = i + 1
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []pt{{mc.Block(), start}}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		dead := false
		for i := p.i; i < len(p.b.Instrs); i++ {
			in := p.b.Instrs[i]
			if in == ssa.Instruction(al) {
				dead = true
				break
			}
			if s, ok := in.(*ssa.Store); ok && rootOf(s.Addr) == ssa.Value(al) {
				return in
			}
		}
		if dead {
			continue
		}
		for _, s := range p.b.Succs {
			if !seen[s] {
				seen[s] = true
				work = append(work, pt{s, 0})
			}
		}
	}
	return nil
}

func (x *reachCtx) unit(u *reachUnit) {
	c := x.c
	w := c.P.NewWalker()
	w.SamePkg = true
	w.Split = true
	w.AnyRound = true
	w.Loops = 1
	w.MaxStates = 3000
	w.OnEvent = anyEvent
	w.Entry = map[*Term][]*Term{}
	s := x.sig(u.f)
	r := &reachRun{reachCtx: x, u: u, w: w, name: fname(u.f)}
	st := newState()
	var args []*Term
	for i, p := range u.f.Params {
		t := mk("param", p.Name(), p.Type())
		args = append(args, t)
		switch i {
		case s.obj:
			r.obj = t
		case s.sch:
			r.sch = t
		case s.hash:
			r.hash = t
		case s.data:
			r.data = t
		case s.rn:
			r.rn = t
		case s.pack:
			r.pack = t
		}
		if i == s.dp && s.dp >= 0 {
			r.depth = t
			st.assume(tLe0(tScale(t, -1)), true)
		}
		if isPtrT(p.Type()) {
			st.assume(tEq(t, tNil), false)
		}
		if i == s.vis {
			r.vis = t
			if n := x.splitterField(deref(p.Type())); n != "" && isPtrT(p.Type()) {
				j, ft := fieldIndex(deref(p.Type()), n)
				r.vis = w.load(st, w.fieldAddr(t, deref(p.Type()).(*types.Named), j), ft)
			} else {
				st.assume(tEq(t, tNil), false)
			}
		}
	}
	if u.walk && u.kind == "data" {
		st.assume(r.pure("HasReferences"), true)
	}
	if u.walk && u.kind == "hash" {
		st.assume(tEq(r.hash, zeroTerm(r.hash.T)), false)
	}
	w.Through = func(name string) string {
		if strings.HasSuffix(name, "Splitter.Go") {
			return "run"
		}
		return ""
	}
	w.Opaque = func(f *ssa.Function) bool { return x.loads(f) != "" }
	w.Model = r.model
	sub := func(e *Exit) {
		r.e, r.st, r.evs = e, e.St, e.St.Events()
		r.at = c.P.pos(u.f.Pos())
		if e.Instr != nil {
			r.at = c.at(e.Instr)
		}
	}
	w.OnBack = func(g *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
		sub(&Exit{St: st, Fn: g})
		dbg("back", r.name, r.e)
		r.round(g, head, env)
	}
	for _, e := range w.Run(u.f, args, nil, st) {
		sub(e)
		dbg("exit", r.name, e)
		if e.Panic {
			r.bad("stop", "panic", "%s panics", r.name)
			continue
		}
		r.judge()
	}
	if u.walk {
		x.walked++
	} else {
		x.split++
	}
	c.Done(w)
}

// loads: what loads or updates Refs, or a node of it
func (x *reachCtx) loads(f *ssa.Function) string {
	if !x.isPkg(f) || f.Signature.Recv() == nil || f.Blocks == nil {
		return ""
	}
	rt := deref(f.Signature.Recv().Type())
	if !types.Identical(rt, x.refs) && !types.Identical(rt, x.node) {
		return ""
	}
	rs := f.Signature.Results()
	if rs.Len() != 1 || !isErrorT(rs.At(0).Type()) {
		return ""
	}
	if f.Name() == "Reset" && len(f.Params) == 1 {
		return "reset"
	}
	pack, node, hash := false, false, false
	for _, p := range f.Params[1:] {
		switch n := typeName(p.Type()); {
		case n == "WalkFunc" || n == "Splitter":
			return ""
		case n == "Pack":
			pack = true
		case n == "SHA256":
			hash = true
		case isPtrT(p.Type()) && types.Identical(deref(p.Type()), x.node):
			node = true
		case isPtrT(p.Type()) && x.splitterField(deref(p.Type())) != "":
			return ""
		case n == "Schema":
			return ""
		}
	}
	if !pack || hash {
		return ""
	}
	if node {
		return "node"
	}
	if !types.Identical(rt, x.refs) {
		return ""
	}
	if x.c.P.Mods(f)["F:"+tstr(x.refs)+".Hash"] {
		return "update"
	}
	return "init"
}

func (r *reachRun) pureOf(name string, recv *Term, t types.Type, args ...*Term) *Term {
	return mk("pure", "Schema."+name, t, append([]*Term{recv}, args...)...)
}

func (r *reachRun) pure(name string) *Term {
	sc, _ := r.reg.Scope().Lookup("Schema").Type().Underlying().(*types.Interface)
	for i := 0; i < sc.NumMethods(); i++ {
		if m := sc.Method(i); m.Name() == name {
			return r.pureOf(name, r.sch, m.Type().(*types.Signature).Results().At(0).Type())
		}
	}
	return tNil
}

func (r *reachRun) model(st *State, ev *Event, args []*Term) (*Term, bool) {
	if ev.Static == nil {
		i := strings.LastIndex(ev.Name, ".")
		if i < 0 || !strings.HasPrefix(ev.Name, "iface:") {
			return nil, false
		}
		m := ev.Name[i+1:]
		switch {
		case strings.HasSuffix(ev.Name[:i], ".Schema"), strings.HasSuffix(ev.Name[:i], ".Field"):
			return resTerm(ev.Sig, func(k int, t types.Type) *Term {
				n := m
				if k > 0 {
					n = fmt.Sprintf("%s#%d", m, k)
				}
				return r.pureOf(n, ev.Args[0], t, ev.Args[1:]...)
			}), true
		}
		return nil, false
	}
	f := ev.Static
	if !r.isPkg(f) {
		return nil, false
	}
	// the length of an encoded slice
	if s := f.Signature; s.Recv() == nil && s.Params().Len() == 1 && isBytes(s.Params().At(0).Type()) && s.Results().Len() == 2 && isNum(s.Results().At(0).Type()) && isErrorT(s.Results().At(1).Type()) {
		ev.Tag = "length"
		return resTerm(s, func(k int, t types.Type) *Term {
			return mk("pure", fmt.Sprintf("length#%d", k), t, ev.Args[0])
		}), true
	}
	if f.Name() == "SchemaByReference" {
		ev.Tag = "schema"
		return resTerm(f.Signature, func(k int, t types.Type) *Term {
			return mk("pure", fmt.Sprintf("SchemaByReference#%d", k), t, ev.Args...)
		}), true
	}
	s := r.sig(f)
	if s.kind == "" || s.walk != r.u.walk || r.inline[f] {
		return nil, false
	}
	if s.kind == r.u.kind {
		self := false
		switch s.kind {
		case "hash":
			self = args[s.hash] == r.hash && args[s.sch] == r.sch
		case "data":
			self = args[s.data] == r.data && args[s.sch] == r.sch
		case "ref":
			self = args[s.obj] == r.obj
		case "node":
			self = args[s.rn] == r.rn
		}
		if self {
			return nil, false
		}
	}
	r.add(f, false)
	ev.Kind = "visit"
	ev.Tag = s.kind
	// normal form: what is gone through, the schema, the depth, the visitor, the pack
	get := func(i int) *Term {
		if i < 0 {
			return tNone
		}
		return args[i]
	}
	what := map[string]int{"hash": s.hash, "data": s.data, "ref": s.obj, "node": s.rn}[s.kind]
	vis := get(s.vis)
	if pt := f.Params[s.vis].Type(); isPtrT(pt) {
		j, ft := fieldIndex(deref(pt), r.splitterField(deref(pt)))
		vis = r.w.load(st, r.w.fieldAddr(vis, deref(pt).(*types.Named), j), ft)
	}
	ev.Args = []*Term{args[what], get(s.sch), get(s.dp), vis, get(s.pack)}
	if s.kind == "ref" {
		ev.Addr = args[what]
		ev.Val = r.w.load(st, args[what], deref(f.Params[s.obj].Type()))
		ev.Key = typeName(deref(f.Params[s.obj].Type()))
	}
	if s.kind == "node" && s.obj >= 0 {
		ev.Addr = args[s.obj]
	}
	if !s.walk {
		return tNone, true
	}
	ev.Res = mk("visit", fmt.Sprintf("%s@%s#%d", s.kind, r.c.at(ev.Instr), len(st.Events())), types.Universe.Lookup("error").Type(), args...)
	return ev.Res, true
}

func (r *reachRun) bad(rule, what, f string, a ...interface{}) {
	r.c.Bad(rule, r.name+": "+what, r.at, f, a...)
}

func (r *reachRun) expect(ok bool, rule, what, f string, a ...interface{}) bool {
	return r.c.Expect(ok, rule, r.name+": "+what, r.at, f, a...)
}

func (r *reachRun) same(a, b *Term) bool {
	return a != nil && b != nil && (a == b || timeless(a) == timeless(b) || r.st.Eq(a, b))
}

func (r *reachRun) truth(t *Term) tri { return truthLoose(r.st, t) }

func (r *reachRun) kindEvs(kind string) (out []*Event) {
	for _, ev := range r.evs {
		if ev.Kind == kind {
			out = append(out, ev)
		}
	}
	return
}

func (r *reachRun) calls(suffix string) (out []*Event) {
	for _, ev := range r.evs {
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, suffix) {
			out = append(out, ev)
		}
	}
	return
}

func (r *reachRun) tagged(tag string) (out []*Event) {
	for _, ev := range r.evs {
		if ev.Kind == "call" && ev.Tag == tag {
			out = append(out, ev)
		}
	}
	return
}

// offers: calls of the function of a walk
func (r *reachRun) offers() (out []*Event) {
	for _, ev := range r.evs {
		if ev.Kind == "call" && ev.Name == "dyn" && unconv(ev.Addr) == r.vis {
			out = append(out, ev)
		}
	}
	return
}

func (r *reachRun) loadEvs(kind string) (out []*Event) {
	for _, ev := range r.evs {
		if ev.Kind == "call" && ev.Static != nil && r.loads(ev.Static) == kind {
			out = append(out, ev)
		}
	}
	return
}

func (r *reachRun) fails() []*Event { return r.calls("Splitter.Fail") }

// gets: objects got; the keys are the last arguments
func (r *reachRun) gets() []*Event {
	if r.u.walk {
		return r.calls("Pack.Get")
	}
	return r.calls("Splitter.Get")
}

// fine: success
func (r *reachRun) fine(rule, what string) bool {
	if r.u.walk {
		return r.expect(r.st.IsNil(r.e.Rets[0]) == yes, rule, what, "success is expected: nil is not what is returned")
	}
	return r.expect(len(r.fails()) == 0, rule, what, "the splitting fails for no reason")
}

// failed: some failure
func (r *reachRun) failed(rule, what, why string) {
	if r.u.walk {
		err := r.e.Rets[0]
		r.expect(r.st.IsNil(err) == no && !isSentinel(err, "ErrStopIteration"), rule, what, "no error is returned: %s", why)
		return
	}
	fs := r.fails()
	r.expect(len(fs) == 1 && r.st.IsNil(fs[0].Args[1]) == no, rule, what, "the splitting does not fail, with an error: %s", why)
}

// ends: ends with the error of a step, nil included
func (r *reachRun) ends(rule, what string, err *Term) {
	if !r.u.walk {
		fs := r.fails()
		if r.st.IsNil(err) == yes {
			r.expect(len(fs) == 0, rule, what, "the splitting fails for no reason")
			return
		}
		r.expect(len(fs) == 1 && r.same(fs[0].Args[1], err), rule, what, "the failure is not given to Fail, once")
		return
	}
	res := r.e.Rets[0]
	if !r.u.entry {
		r.expect(r.same(res, err) || r.st.IsNil(err) == yes && r.st.IsNil(res) == yes, "stop", what, "the error is not returned as it is")
		return
	}
	stop := mk("sentinel", r.reg.Path()+".ErrStopIteration", nil)
	for t := range r.st.facts.b {
		if t.Op == "eq" {
			for _, a := range t.Args {
				if isSentinel(a, "ErrStopIteration") {
					stop = a
				}
			}
		}
	}
	switch {
	case r.st.IsNil(err) == yes, r.st.Eq(err, stop):
		r.expect(r.st.IsNil(res) == yes, "stop", what, "success is returned as an error")
	default:
		r.expect(r.same(res, err), "stop", what, "the error is not returned as it is")
		r.expect(r.st.Ne(err, stop) || err.Op == "sentinel", "stop", what, "ErrStopIteration leaves an exported Walk")
	}
}

func (r *reachRun) none(rule, what string, evs []*Event, f string) bool {
	return r.expect(len(evs) == 0, rule, what, "%s", f)
}

// visit: a step on behalf of the same visitor
func (r *reachRun) visit(rule, what string, ev *Event) {
	if r.u.walk {
		r.expect(unconv(ev.Args[3]) == r.vis, rule, what, "another function walks on")
		r.expect(ev.Args[4] == r.pack, rule, what, "another pack is used to walk on")
		r.expect(!r.entries[ev.Static], "stop", what, "an exported Walk hides from the walk that it is to stop")
	} else {
		r.expect(r.same(ev.Args[3], r.vis), rule, what, "another splitter goes on")
	}
	switch ev.Tag {
	case "hash":
		if r.u.walk {
			r.expect(r.st.Ne(ev.Args[0], zeroTerm(ev.Args[0].T)), rule, what, "a blank hash may be gone through")
		}
	case "data":
		if r.u.walk {
			s := ev.Args[1]
			ok := r.st.Holds(r.pureOf("HasReferences", s, nil)) || s == r.pure("Elem") || r.u.kind == "hash" && s == r.sch && r.st.Holds(r.pure("HasReferences"))
			r.expect(ok, rule, what, "an object without references is gone through, which fails")
		}
	}
}

func (r *reachRun) judge() {
	switch r.u.kind {
	case "hash":
		r.judgeHash()
	case "data":
		r.judgeData()
	case "ref":
		switch t := deref(r.obj.T); {
		case types.Identical(t, r.ref), types.Identical(t, r.dyn):
			r.judgeRef(types.Identical(t, r.dyn))
		case types.Identical(t, r.refs):
			r.judgeRefs()
		case types.Identical(t, r.root):
			r.judgeRoot()
		}
	case "node":
		r.judgeNode()
	}
}

func (r *reachRun) judgeHash() {
	gets, vis := r.gets(), r.kindEvs("visit")
	if len(vis) > 0 && len(gets) == 0 {
		// on to another function going through the same object
		if r.expect(len(vis) == 1 && vis[0].Tag == "hash" && vis[0].Args[0] == r.hash && vis[0].Args[1] == r.sch, "object", "step", "something else is gone through") {
			r.visit("object", "step", vis[0])
			r.end1(vis[0])
		}
		return
	}
	if len(gets) == 0 {
		if r.u.walk {
			r.expect(r.st.Truth(r.pure("HasReferences")) == no, "object", "get", "an object that has references is not got")
		} else {
			r.expect(r.st.Eq(r.hash, zeroTerm(r.hash.T)), "object", "get", "an object is not got")
		}
		r.fine("object", "nothing to do")
		return
	}
	if !r.expect(len(gets) == 1 && r.same(gets[0].Args[len(gets[0].Args)-1], r.hash), "object", "get", "the object is not got once, by its hash") {
		return
	}
	g := gets[0]
	err := lastRes(g)
	if r.st.IsNil(err) != yes {
		r.none("object", "get fails", vis, "an object that may not have been got is gone through")
		r.ends("object", "get fails", err)
		return
	}
	val := g.Res.Args[0]
	if len(vis) == 0 {
		ok := r.st.Truth(r.pure("HasReferences")) == no
		if !r.u.walk {
			ok = ok || r.truth(tLe0(tSub(tInt(2), g.Res.Args[1]))) == yes
		}
		r.expect(ok, "object", "step", "an object got is not gone through, and may have references below")
		r.fine("object", "nothing to do")
		return
	}
	if !r.u.walk {
		r.expect(r.truth(tLe0(tSub(g.Res.Args[1], tInt(1)))) == yes, "object", "known", "an object of a filled Root is gone through again: its objects are held again")
	}
	v := vis[0]
	if r.expect(len(vis) == 1 && v.Tag == "data" && v.Args[0] == val && v.Args[1] == r.sch, "object", "step", "the object got is not gone through once, with its schema") {
		r.visit("object", "step", v)
		r.end1(v)
	}
}

// end1: ends with a step
func (r *reachRun) end1(v *Event) {
	if r.u.walk {
		r.ends("stop", "step", v.Res)
		return
	}
	r.fine("stop", "step")
}

func (r *reachRun) isKind(k int64) tri {
	return r.st.Truth(tEq(r.pure("Kind"), tInt(k)))
}

func (r *reachRun) judgeData() {
	vis := r.kindEvs("visit")
	if r.st.Truth(r.pure("HasReferences")) == no {
		r.none("data", "no references", vis, "an object without references is gone through")
		r.fine("data", "no references")
		return
	}
	if len(vis) == 1 && vis[0].Tag == "data" && vis[0].Args[0] == r.data && vis[0].Args[1] == r.sch {
		r.visit("data", "step", vis[0])
		r.end1(vis[0])
		return
	}
	switch r.st.Truth(r.pure("IsReference")) {
	case yes:
		r.judgeDecoded(vis)
		return
	case unknown:
		if !r.failedStep(vis) {
			r.bad("data", "kind", "whether the object is a reference is not regarded")
		}
		return
	}
	var n *Term
	el := r.pure("Elem")
	lens := r.tagged("length")
	switch {
	case r.isKind(17) == yes:
		n = r.pure("Len")
	case r.isKind(23) == yes:
		for _, l := range lens {
			if l.Args[0] == r.data && r.st.IsNil(lastRes(l)) == yes {
				n = l.Res.Args[0]
			}
		}
	case r.isKind(25) == yes:
		el = nil
		fs := r.pure("Fields")
		n = r.w.lenOf(r.st, fs, fs.T)
	case r.isKind(17) == no && r.isKind(23) == no && r.isKind(25) == no:
		r.none("data", "unknown kind", vis, "something of an unknown kind is gone through")
		r.failed("data", "unknown kind", "the kind of the object is none that has references")
		return
	}
	if r.failedStep(vis) {
		return
	}
	if el != nil && r.st.IsNil(el) == yes {
		r.none("data", "no schema", vis, "something without a schema is gone through")
		r.failed("data", "no schema", "there is no schema of elements")
		return
	}
	// success
	if r.u.walk && r.st.IsNil(r.e.Rets[0]) != yes || !r.u.walk && len(r.fails()) > 0 {
		r.bad("data", "failure", "it fails, and nothing is wrong")
		return
	}
	if n == nil {
		r.bad("data", "length", "success with an object whose elements are not known")
		return
	}
	if r.st.Truth(tLe0(n)) == yes {
		r.c.Site("elements", r.name+": none")
		return
	}
	if el != nil {
		r.expect(r.st.IsNil(el) != unknown, "data", "no schema", "the schema of elements may be missing")
	}
	ok := false
	for _, l := range r.loops {
		ok = ok || l.what == "elements" && r.truth(tLt(l.t, l.n, false)) == no && r.same(l.n, n)
	}
	r.expect(ok, "elements", "all", "success before every element is gone through")
}

// failedStep: ends with the failure of something done on the way
func (r *reachRun) failedStep(vis []*Event) bool {
	for i, v := range vis {
		if r.u.walk && r.st.IsNil(v.Res) != yes {
			r.expect(i == len(vis)-1, "stop", "step fails", "it goes on after a failure")
			if r.u.kind == "data" && r.st.IsNil(v.Res) == no || r.u.kind != "data" {
				r.ends("stop", "step fails", v.Res)
				return true
			}
			r.ends("stop", "step", v.Res)
			return r.st.IsNil(v.Res) == no
		}
	}
	for _, ev := range r.evs {
		if ev.Kind == "call" && (ev.Tag == "length" || strings.HasSuffix(ev.Name, "Schema.Size")) && r.st.IsNil(lastRes(ev)) == no {
			r.failed("data", "size fails", "the size is not known")
			return true
		}
		if ev.Kind == "call" && (ev.Tag == "length" || strings.HasSuffix(ev.Name, "Schema.Size")) && r.st.IsNil(lastRes(ev)) == unknown {
			r.bad("data", "size fails", "whether the size is known is not regarded")
			return true
		}
	}
	if r.behind() {
		r.failed("data", "behind the end", "it is behind the end of the object")
		return true
	}
	return false
}

// behind: an offset of the elements is known to be behind the end
func (r *reachRun) behind() bool {
	for _, l := range r.loops {
		if l.what == "offset" && r.st.Truth(tLe0(tSub(l.t, l.n))) == no {
			return true
		}
	}
	return false
}

func (r *reachRun) judgeDecoded(vis []*Event) {
	rt := r.pure("ReferenceType")
	want := map[string]string{"ReferenceTypeSingle": "Ref", "ReferenceTypeSlice": "Refs", "ReferenceTypeDynamic": "Dynamic"}
	kind, others := "", 0
	for n, k := range want {
		switch r.st.Truth(tEq(rt, r.consts[n])) {
		case yes:
			kind = k
		case no:
			others++
		}
	}
	if kind == "" {
		r.none("data", "unknown reference", vis, "a reference of an unknown type is gone through")
		r.expect(others == len(want), "data", "reference type", "the type of the reference is not regarded")
		r.failed("data", "unknown reference", "the type of the reference is unknown")
		return
	}
	el := r.pure("Elem")
	if kind != "Dynamic" {
		if r.st.IsNil(el) == yes {
			r.none("data", "no schema", vis, "a reference to something without a schema is gone through")
			r.failed("data", "no schema", "there is no schema of elements")
			return
		}
		r.expect(r.st.IsNil(el) == no, "data", "no schema", "the schema of elements may be missing")
	}
	decs := r.calls("encoder.DeserializeRaw")
	if !r.expect(len(decs) == 1 && decs[0].Args[0] == r.data, "data", "decode "+kind, "the reference is not decoded once, from the object") {
		return
	}
	d := decs[0]
	if r.st.IsNil(lastRes(d)) != yes {
		r.none("data", "decode "+kind, vis, "a reference that may not have been decoded is gone through")
		r.ends("data", "decode "+kind, lastRes(d))
		return
	}
	if !r.expect(len(vis) == 1 && vis[0].Tag == "ref" && vis[0].Key == kind, "data", "go through "+kind, "a decoded %s is not gone through once, as what it is", kind) {
		return
	}
	v := vis[0]
	to := d.Args[1]
	for to.Op == "iface" || to.Op == "conv" || to.Op == "changetype" {
		to = to.Args[0]
	}
	r.expect(to == v.Addr, "data", "go through "+kind, "something else than the decoded %s is gone through", kind)
	if kind != "Dynamic" {
		r.expect(v.Args[1] == el, "data", "go through "+kind, "the elements of %s are gone through with another schema", kind)
	}
	r.visit("data", "go through "+kind, v)
	r.end1(v)
}

func (r *reachRun) fld(st *State, base *Term, n string) *Term {
	t := deref(base.T)
	i, ft := fieldIndex(t, n)
	if i < 0 {
		return tNil
	}
	return r.w.load(st, r.w.fieldAddr(base, t.(*types.Named), i), ft)
}

// hashOf: is t the hash of the reference
func (r *reachRun) isHash(t *Term) bool {
	return t != nil && (t.Op == "load" && t.Args[0].Op == "field" && t.Args[0].Aux == "Hash" && t.Args[0].Args[0] == r.obj || r.same(t, r.fld(r.st, r.obj, "Hash")))
}

func (r *reachRun) judgeRef(dyn bool) {
	vis := r.kindEvs("visit")
	h := r.fld(r.st, r.obj, "Hash")
	blank := r.st.Truth(tEq(h, zeroTerm(h.T)))
	if o := deref(r.obj.T); r.st.Eq(r.w.load(r.st, r.obj, o), zeroTerm(o)) {
		blank = yes
	}
	if dyn {
		si, st := fieldIndex(r.dyn, "Schema")
		if si < 0 {
			r.c.Anchor("Dynamic.Schema")
			return
		}
		s := r.fld(r.st, r.obj, "Schema")
		sBlank := r.st.Truth(tEq(s, zeroTerm(st)))
		if sBlank == yes && blank == no {
			r.none("reference", "invalid", vis, "an invalid Dynamic is gone through")
			r.none("reference", "invalid", r.offers(), "the hash of an invalid Dynamic is offered")
			r.failed("reference", "invalid", "the Dynamic is invalid")
			return
		}
		r.expect(sBlank == no || blank == yes, "reference", "invalid", "an invalid Dynamic may be gone through")
	}
	if r.u.walk {
		os := r.offers()
		if !r.expect(len(os) == 1 && r.isHash(os[0].Args[0]) && r.st.Eq(os[0].Args[1], tInt(0)), "reference", "offer", "the hash is not offered once, as an element") {
			return
		}
		err := lastRes(os[0])
		if r.st.IsNil(err) != yes {
			r.none("stop", "offer fails", vis, "it goes on after a failure")
			r.ends("stop", "offer fails", err)
			return
		}
		if r.st.Truth(os[0].Res.Args[0]) == no || blank == yes {
			r.none("reference", "not wanted", vis, "a blank reference, or one not wanted, is gone through")
			r.fine("reference", "not wanted")
			return
		}
		if len(vis) > 0 {
			r.expect(r.st.Truth(os[0].Res.Args[0]) == yes, "reference", "not wanted", "the function is not asked whether to go deeper")
		}
	} else if blank == yes && len(vis) == 0 && len(r.fails()) == 0 {
		r.c.Site("reference", r.name+": blank")
		return
	}
	sch := r.sch
	if dyn {
		ss := r.tagged("schema")
		if r.u.walk {
			for _, ev := range r.calls("Pack.Registry") {
				if r.st.IsNil(ev.Res) == yes {
					r.none("reference", "no registry", vis, "it goes on without a registry")
					r.failed("reference", "no registry", "there is no registry")
					return
				}
			}
		}
		if !r.expect(len(ss) == 1 && r.same(ss[0].Args[1], r.fld(r.st, r.obj, "Schema")), "reference", "schema", "the schema is not looked for once, by the reference") {
			return
		}
		rg := ss[0].Args[0]
		okReg := false
		for _, ev := range r.calls(".Registry") {
			okReg = okReg || ev.Res == rg && (r.u.walk && ev.Args[0] == r.pack || !r.u.walk && r.same(ev.Args[0], r.vis))
		}
		r.expect(okReg, "reference", "schema", "the schema is looked for in another registry")
		if r.u.walk {
			r.expect(r.st.IsNil(rg) == no, "reference", "no registry", "the registry may be missing")
		}
		err := lastRes(ss[0])
		if r.st.IsNil(err) != yes {
			r.none("reference", "no schema", vis, "it goes on without a schema")
			r.ends("reference", "no schema", err)
			return
		}
		sch = ss[0].Res.Args[0]
	}
	if !r.expect(len(vis) == 1 && vis[0].Tag == "hash" && r.isHash(vis[0].Args[0]) && vis[0].Args[1] == sch, "reference", "step", "the object is not gone through once, by the hash and its schema") {
		return
	}
	r.visit("reference", "step", vis[0])
	r.end1(vis[0])
}

// startIs: what a field of the reference was at the beginning
func (r *reachRun) startTerm(n string) *Term {
	return r.fld(newState(), r.obj, n)
}

func (r *reachRun) bit(mods *Term, k string) tri {
	return r.st.Truth(tEq(mk("bin", "&", mods.T, r.consts[k], mods), tInt(0))).not()
}

// markOf: is a mark set, as it was read first
func (r *reachRun) markOf(base *Term, k string) tri {
	i, ft := fieldIndex(r.node, r.fMods)
	m := r.w.load(newState(), r.w.fieldAddr(base, r.node, i), ft)
	return r.bit(m, k)
}

func (r *reachRun) rootNode() *Term { return r.startTerm(r.fNode) }

func (r *reachRun) judgeRefs() {
	vis := r.kindEvs("visit")
	inits, ups, resets := r.loadEvs("init"), r.loadEvs("update"), r.loadEvs("reset")
	pos := func(ev *Event) int {
		for i, e := range r.evs {
			if e == ev {
				return i
			}
		}
		return -1
	}
	r.expect(len(r.loadEvs("node")) == 0, "refs", "load", "nodes are loaded out of place")
	n0 := r.rootNode()
	h0 := r.startTerm("Hash")
	zero := zeroTerm(h0.T)
	loaded := r.st.IsNil(n0).not()
	blank0 := r.st.Truth(tEq(h0, zero))
	if !r.u.walk {
		r.judgeSplitRefs(vis, inits)
		return
	}
	if len(vis) == 1 && vis[0].Tag == "ref" && vis[0].Addr == r.obj {
		r.visit("refs", "step", vis[0])
		r.end1(vis[0])
		return
	}
	// what is loaded to walk is reset after, whatever comes
	if len(inits) > 0 {
		r.expect(len(inits) == 1 && r.st.IsNil(n0) == yes && inits[0].Args[1] == r.packArg(), "refs", "load", "Refs that are loaded are loaded again")
		r.expect(len(resets) == 1 && pos(resets[0]) == r.lastStep(), "refs", "reset", "Refs that were loaded to walk are not reset after, once")
	} else {
		r.expect(len(resets) == 0, "refs", "reset", "Refs that were loaded before are reset: changes may be lost")
	}
	final := func(err *Term, what string) {
		// the failure of the reset comes last
		if len(resets) == 1 && r.st.IsNil(err) == yes {
			r.ends("refs", what, resets[0].Res)
			return
		}
		if len(resets) == 1 && r.st.IsNil(err) == unknown {
			r.bad("stop", what, "whether the walk failed is not regarded when resetting")
			return
		}
		r.ends("refs", what, err)
	}
	for _, ev := range append(append([]*Event{}, inits...), ups...) {
		if r.st.IsNil(ev.Res) != yes {
			r.none("refs", "load fails", vis, "it goes on after a failure")
			r.none("refs", "load fails", r.offers(), "it goes on after a failure")
			final(ev.Res, "load fails")
			return
		}
	}
	os := r.offers()
	if !r.expect(len(os) == 1, "refs", "offer", "the hash of the root is not offered once") {
		return
	}
	o := os[0]
	// the hash offered is the actual one
	fresh := isF(o.Args[0], "Hash", r.obj) || r.same(o.Args[0], h0)
	r.expect(fresh, "refs", "offer", "another hash than the one of the root is offered")
	if len(ups) > 0 {
		r.expect(pos(ups[0]) < pos(o) && (o.Args[0] != h0), "refs", "update", "the hash offered was read before it was updated")
	} else if loaded != no && len(inits) == 0 {
		// not loaded, or not changed since the last update
		dirty := r.markOf(n0, "contentMod")
		isLoaded := r.markOf(n0, "loadedMod")
		r.expect(r.st.IsNil(n0) == yes || dirty == no || isLoaded == no, "refs", "update", "hashes that may be obsolete are walked through")
	}
	h := o.Args[0]
	blank := r.st.Truth(tEq(h, zero))
	if len(ups) == 0 {
		blank = blank0
	}
	err := lastRes(o)
	depth := o.Args[1]
	switch blank {
	case yes:
		r.expect(r.st.Holds(tLt(tInt(0), depth, false)), "refs", "depth", "the hash of the root is offered as one of an element")
		r.none("refs", "blank", vis, "blank Refs are gone through")
		r.none("refs", "blank", inits, "blank Refs are loaded")
		if r.st.IsNil(err) == yes {
			final(tNil, "blank")
		} else {
			final(err, "offer fails")
		}
		return
	case unknown:
		r.bad("refs", "blank", "whether Refs are blank is not regarded")
		return
	}
	r.expect(r.depthOff(depth) == 1, "refs", "depth", "the root is not offered with the depth of it")
	if r.st.IsNil(n0) == yes {
		r.expect(len(inits) == 1 && pos(inits[0]) < pos(o), "refs", "load", "Refs are not loaded before the depth is read")
	} else {
		r.expect(loaded == yes, "refs", "load", "whether Refs are loaded is not regarded")
	}
	if r.st.IsNil(err) != yes {
		r.none("stop", "offer fails", vis, "it goes on after a failure")
		final(err, "offer fails")
		return
	}
	if r.st.Truth(o.Res.Args[0]) == no {
		r.none("refs", "not wanted", vis, "Refs not wanted are gone through")
		final(tNil, "not wanted")
		return
	}
	r.expect(r.st.Truth(o.Res.Args[0]) == yes, "refs", "not wanted", "the function is not asked whether to go deeper")
	if !r.expect(len(vis) == 1 && vis[0].Tag == "node" && pos(vis[0]) > pos(o), "refs", "step", "the root node is not gone through once") {
		return
	}
	v := vis[0]
	r.rootStep(v)
	r.visit("refs", "step", v)
	final(v.Res, "step")
}

func (r *reachRun) packArg() *Term { return r.pack }

func (r *reachRun) rootStep(v *Event) {
	r.expect(isF(v.Args[0], r.fNode, r.obj), "refs", "step", "another node than the root is gone through")
	r.expect(r.depthOff(v.Args[2]) == 0, "refs", "step", "the root node is gone through with another depth than the one of Refs")
	r.expect(v.Args[1] == r.sch, "refs", "step", "the elements are gone through with another schema")
	r.expect(v.Addr == nil || v.Addr == r.obj, "refs", "step", "a node of other Refs is gone through")
}

// depthOff: the distance to the depth of Refs
func (r *reachRun) depthOff(t *Term) int64 {
	for k := int64(0); k <= 1; k++ {
		d := tSub(t, tInt(k))
		if d.Op == "load" && d.Args[0].Op == "field" && d.Args[0].Args[0] == r.obj && d.Args[0].Aux != r.fNode && d.Args[0].Aux != "degree" {
			return k
		}
	}
	return -1
}

// lastStep: the position of the last thing done
func (r *reachRun) lastStep() int {
	n := -1
	for i, ev := range r.evs {
		if ev.Kind == "visit" || ev.Kind == "call" {
			n = i
		}
	}
	return n
}

func (r *reachRun) judgeSplitRefs(vis, inits []*Event) {
	h := r.startTerm("Hash")
	pres := r.calls("Splitter.Pre")
	if r.st.Truth(tEq(h, zeroTerm(h.T))) == yes {
		r.expect(len(pres)+len(inits)+len(vis) == 0, "refs", "blank", "blank Refs are gone through")
		r.fine("refs", "blank")
		return
	}
	if !r.expect(len(pres) == 1 && r.same(pres[0].Args[1], h), "refs", "request", "the root of Refs is not requested once, by its hash") {
		return
	}
	if r.preEnds(pres[0]) {
		r.expect(len(inits)+len(vis) == 0, "refs", "known", "it goes on with what failed, or belongs to a filled Root")
		return
	}
	if !r.expect(len(inits) == 1, "refs", "load", "Refs are not loaded before they are gone through") {
		return
	}
	if err := inits[0].Res; r.st.IsNil(err) != yes {
		r.none("refs", "load fails", vis, "it goes on after a failure")
		r.ends("refs", "load fails", err)
		return
	}
	if !r.expect(len(vis) == 1 && vis[0].Tag == "node", "refs", "step", "the root node is not gone through once") {
		return
	}
	r.rootStep(vis[0])
	r.visit("refs", "step", vis[0])
	r.fine("refs", "step")
}

// preEnds: a request that ends the way: it failed, or nothing is to be done
func (r *reachRun) preEnds(p *Event) bool {
	err := lastRes(p)
	rc := p.Res.Args[0]
	switch r.st.IsNil(err) {
	case no:
		n := 0
		for _, f := range r.fails() {
			if r.same(f.Args[1], err) {
				n++
			}
		}
		r.expect(n == 1, "nodes", "request fails", "the failure is not given to Fail, once")
		return true
	case unknown:
		r.bad("nodes", "request fails", "whether the request failed is not regarded")
		return true
	}
	return r.truth(tLe0(tSub(tInt(2), rc))) == yes
}

func (r *reachRun) judgeRoot() {
	vis := r.kindEvs("visit")
	for _, v := range vis {
		if r.st.IsNil(v.Res) != yes {
			r.ends("stop", "step fails", v.Res)
			return
		}
	}
	if len(vis) == 1 && vis[0].Key == "Root" {
		r.end1(vis[0])
		return
	}
	r.fine("root", "success")
	r.expect(r.done("root", r.startTerm(r.fRootRefs)), "root", "all", "success before every reference is gone through")
}

// done: a loop over a list came to its end
func (r *reachRun) done(what string, list *Term) bool {
	if list != nil && r.truth(tLe0(r.w.lenOf(r.st, list, list.T))) == yes {
		return true
	}
	for _, l := range r.loops {
		if l.what == what && (list == nil || timeless(l.list) == timeless(list)) && r.truth(tLt(l.t, l.n, false)) == no {
			return true
		}
	}
	return false
}

func (r *reachRun) judgeNode() {
	vis := r.kindEvs("visit")
	for _, v := range vis {
		if v.Tag == "node" && v.Args[0] == r.rn {
			r.expect(len(vis) == 1 && v.Args[1] == r.sch && r.same(v.Args[2], r.depth), "nodes", "step", "the node is gone through in another way")
			r.visit("nodes", "step", v)
			r.end1(v)
			return
		}
		if r.u.walk && r.st.IsNil(v.Res) != yes {
			r.ends("stop", "step fails", v.Res)
			return
		}
	}
	for _, o := range r.offers() {
		if r.st.IsNil(lastRes(o)) != yes {
			r.ends("stop", "offer fails", lastRes(o))
			return
		}
	}
	for _, l := range r.loadEvs("node") {
		if r.st.IsNil(l.Res) != yes {
			r.ends("nodes", "load fails", l.Res)
			return
		}
	}
	if !r.u.walk && len(r.fails()) > 0 {
		for _, p := range r.calls("Splitter.Pre") {
			if r.st.IsNil(lastRes(p)) == no {
				return // judged with the round
			}
		}
	}
	r.fine("nodes", "success")
	zero := r.st.Truth(tEq(r.depth, tInt(0)))
	leafs, branches := r.nodeFld(r.fLeafs), r.nodeFld(r.fBranches)
	if zero != no {
		r.expect(r.done("leafs", leafs), "nodes", "all leafs", "success before every leaf is gone through")
	}
	if zero != yes {
		if r.expect(r.done("branches", branches), "nodes", "all branches", "success before every branch is gone through") && !r.u.walk {
			for _, l := range r.loops {
				if l.what == "branches" && l.carried != nil {
					r.expect(r.done("collected", l.carried), "nodes", "all branches", "success before every branch that is loaded is gone through")
				}
			}
		}
	}
}

func (r *reachRun) nodeFld(n string) *Term {
	i, ft := fieldIndex(r.node, n)
	return r.w.load(newState(), r.w.fieldAddr(r.rn, r.node, i), ft)
}

//
// rounds
//

func (r *reachRun) backVal(head *ssa.BasicBlock, ph *ssa.Phi, env map[ssa.Value]*Term) *Term {
	for i, p := range head.Preds {
		if p == r.w.BackFrom {
			v := ph.Edges[i]
			if k, ok := v.(*ssa.Const); ok {
				return constTerm(k)
			}
			if t, ok := env[v]; ok {
				return t
			}
			if prm, ok := v.(*ssa.Parameter); ok {
				return mk("param", prm.Name(), prm.Type())
			}
		}
	}
	return nil
}

func headPhis(head *ssa.BasicBlock) (out []*ssa.Phi) {
	for _, in := range head.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			out = append(out, ph)
		}
	}
	return
}

// progress: the number of rounds before this one, counted by a variable of the
// loop, when the loop ends with n
func (r *reachRun) progress(head *ssa.BasicBlock, env map[ssa.Value]*Term, n, idx *Term) *Term {
	for _, ph := range headPhis(head) {
		q := env[ph]
		if q == nil || !isNum(ph.Type()) {
			continue
		}
		b := r.backVal(head, ph, env)
		if b == nil {
			continue
		}
		s := tSub(b, q)
		if s.Op != "int" || s.C != 1 && s.C != -1 {
			continue
		}
		es := r.w.Entry[q]
		if len(es) == 0 {
			continue
		}
		same := true
		for _, e := range es {
			same = same && timeless(e) == timeless(es[0])
		}
		if !same {
			continue
		}
		t := tScale(tSub(q, es[0]), s.C)
		if r.truth(tLt(t, n, false)) != yes && r.truth(tEq(t, n)) != no {
			continue
		}
		if idx != nil && timeless(idx) != timeless(t) {
			continue
		}
		return t
	}
	return nil
}

func (r *reachRun) round(g *ssa.Function, head *ssa.BasicBlock, env map[ssa.Value]*Term) {
	vis := r.kindEvs("visit")
	switch r.u.kind {
	case "data":
		r.elementRound(head, env, vis)
	case "node":
		r.nodeRound(head, env, vis)
	case "ref":
		if types.Identical(deref(r.obj.T), r.root) {
			r.rootRound(head, env, vis)
			return
		}
		fallthrough
	default:
		r.none("object", "loop", vis, "something is gone through in a loop")
	}
}

func (r *reachRun) elementRound(head *ssa.BasicBlock, env map[ssa.Value]*Term, vis []*Event) {
	sizes := r.calls("Schema.Size")
	if len(sizes) == 0 && len(vis) == 0 {
		return
	}
	rule, what := "elements", "element"
	if !r.expect(len(sizes) == 1, rule, what, "an element is not sized once") {
		return
	}
	sz := sizes[0]
	el, p := sz.Args[0], sz.Args[1]
	off := tInt(0)
	switch {
	case p == r.data:
	case p.Op == "slice" && p.Args[0] == r.data:
		off = p.Args[1]
		r.expect(p.Args[2] == tNone, rule, what, "an element is sized in a part of the object")
	default:
		r.bad(rule, what, "an element is sized in something else than the object")
		return
	}
	m := sz.Res.Args[0]
	if !r.expect(r.st.IsNil(lastRes(sz)) == yes, "data", "size fails", "it goes on with an element whose size is not known") {
		return
	}
	// the element and the number of them
	var n, idx *Term
	start := int64(0)
	switch {
	case r.isKind(17) == yes:
		n = r.pure("Len")
		r.expect(el == r.pure("Elem"), rule, what, "an element is sized by another schema")
	case r.isKind(23) == yes:
		start = 4
		for _, l := range r.tagged("length") {
			if l.Args[0] == r.data && r.st.IsNil(lastRes(l)) == yes {
				n = l.Res.Args[0]
			}
		}
		r.expect(el == r.pure("Elem"), rule, what, "an element is sized by another schema")
	case r.isKind(25) == yes:
		fs := r.pure("Fields")
		n = r.w.lenOf(r.st, fs, fs.T)
		if el.Op == "pure" && el.Aux == "Schema.Schema" {
			if i := idxOf(el.Args[0]); i != nil && i.Args[0] == fs {
				idx = i.Args[1]
			}
		}
		if !r.expect(idx != nil, rule, what, "a field is sized by another schema than its own") {
			return
		}
	}
	if !r.expect(n != nil, rule, what, "the number of elements is not known") {
		return
	}
	// the offset
	okOff := false
	for _, ph := range headPhis(head) {
		q := env[ph]
		if q == nil || !isNum(ph.Type()) {
			continue
		}
		d := tSub(off, q)
		b := r.backVal(head, ph, env)
		if d.Op != "int" || b == nil {
			continue
		}
		ok := len(r.w.Entry[q]) > 0
		for _, e := range r.w.Entry[q] {
			v := tAdd(e, d)
			ok = ok && v.Op == "int" && v.C == start
		}
		if !r.expect(ok, rule, "first offset", "the elements do not begin where the first one is") {
			return
		}
		if !r.expect(r.same(tSub(b, q), m), rule, "next offset", "the next element is not looked for behind this one") {
			return
		}
		okOff = true
	}
	if !r.expect(okOff, rule, "offset", "the offset of an element is none that goes from one to the next") {
		return
	}
	switch len(vis) {
	case 0:
		r.expect(r.st.Truth(r.pureOf("HasReferences", el, nil)) == no, rule, what, "an element that may have references is passed by")
	case 1:
		v := vis[0]
		part := mk("slice", "", r.data.T, r.data, off, tAdd(off, m))
		r.expect(v.Tag == "data" && v.Args[1] == el, rule, what, "an element is gone through with another schema")
		got := v.Args[0]
		r.expect(got == part || got.Op == "slice" && got.Args[0] == r.data && r.same(got.Args[1], off) && got.Args[2] != tNone && r.same(got.Args[2], tAdd(off, m)), rule, what, "an element is gone through with other bytes than its own")
		r.visit(rule, what, v)
		if r.u.walk {
			r.expect(r.st.IsNil(v.Res) == yes, "stop", "step fails", "it goes on after a failure")
		}
	default:
		r.bad(rule, what, "an element is gone through more than once")
	}
	if !r.u.walk {
		r.expect(len(r.fails()) == 0, "data", "failure", "it fails for no reason")
	}
	t := r.progress(head, env, n, idx)
	if !r.expect(t != nil, rule, "index", "the elements are not counted one by one, from the first") {
		return
	}
	r.loops = append(r.loops, reachLoop{what: "elements", t: t, n: n}, reachLoop{what: "offset", t: off, n: r.w.lenOf(r.st, r.data, r.data.T)})
}

func (r *reachRun) rootRound(head *ssa.BasicBlock, env map[ssa.Value]*Term, vis []*Event) {
	if len(vis) == 0 {
		return
	}
	v := vis[0]
	if !r.expect(len(vis) == 1 && v.Key == "Dynamic", "root", "reference", "a reference is not gone through once") {
		return
	}
	list := r.startTerm(r.fRootRefs)
	i := idxOf(v.Addr)
	if i == nil || timeless(i.Args[0]) != timeless(list) {
		i = idxOf(v.Val)
	}
	if i == nil && v.Val != nil {
		v.Val.any(func(t *Term) bool {
			if t.Op == "idx" {
				i = t
			}
			return false
		})
	}
	if !r.expect(i != nil && timeless(i.Args[0]) == timeless(list), "root", "reference", "something else than a reference of the Root is gone through") {
		return
	}
	r.visit("root", "reference", v)
	r.expect(r.st.IsNil(v.Res) == yes, "stop", "step fails", "it goes on after a failure")
	n := r.w.lenOf(r.st, i.Args[0], list.T)
	t := r.progress(head, env, n, i.Args[1])
	if r.expect(t != nil, "root", "index", "the references are not counted one by one, from the first") {
		r.loops = append(r.loops, reachLoop{what: "root", t: t, n: n, list: list})
	}
}

// elemOfNode: an element of a list of the node t is, or is a hash of
func (r *reachRun) elemIn(t *Term) (list, idx *Term) {
	if t == nil {
		return
	}
	t.any(func(y *Term) bool {
		if y.Op == "idx" && list == nil {
			list, idx = y.Args[0], y.Args[1]
		}
		return false
	})
	return
}

func (r *reachRun) nodeRound(head *ssa.BasicBlock, env map[ssa.Value]*Term, vis []*Event) {
	leafs, branches := r.nodeFld(r.fLeafs), r.nodeFld(r.fBranches)
	loads := r.loadEvs("node")
	var hash *Term // the hash offered, or requested, in this round
	var os []*Event
	if r.u.walk {
		os = r.offers()
	} else {
		os = r.calls("Splitter.Pre")
	}
	rule := "nodes"
	if len(os) > 0 {
		if !r.expect(len(os) == 1, rule, "offer", "an element is offered, or requested, more than once") {
			return
		}
		hash = os[0].Args[0]
		if !r.u.walk {
			hash = os[0].Args[1]
		}
	} else if len(vis) == 1 {
		hash = vis[0].Args[0]
	} else if len(vis) == 0 {
		r.expect(len(loads) == 0, rule, "load", "nodes are loaded for nothing")
		return
	} else {
		r.bad(rule, "step", "an element is gone through more than once")
		return
	}
	list, idx := r.elemIn(hash)
	what := ""
	switch {
	case list == nil:
	case timeless(list) == timeless(leafs):
		what = "leafs"
	case timeless(list) == timeless(branches):
		what = "branches"
	case len(vis) == 1 && vis[0].Tag == "node" && !r.u.walk:
		what = "collected"
	}
	if !r.expect(what != "", rule, "element", "something that is no element of the node is gone through") {
		return
	}
	n := r.w.lenOf(r.st, list, list.T)
	t := r.progress(head, env, n, idx)
	if !r.expect(t != nil, rule, what+": index", "the elements are not counted one by one, from the first") {
		return
	}
	lp := reachLoop{what: what, t: t, n: n, list: list}
	isEl := func(t *Term) bool { // the branch
		l, i := r.elemIn(t)
		return t.Op == "load" && t.Args[0].Op == "idx" && l == list && i == idx
	}
	if len(os) == 1 {
		ok := hash.Op == "load" && hash.Args[0].Op == "field" && isEl(hash.Args[0].Args[0])
		r.expect(ok && typeName(hash.T) == "SHA256", rule, what+": offer", "another hash than the one of the element is offered, or requested")
	}
	if r.u.walk && len(os) == 1 {
		r.expect(r.same(os[0].Args[1], r.depth), rule, what+": depth", "an element is offered with another depth")
		r.expect(r.st.IsNil(lastRes(os[0])) == yes, "stop", "offer fails", "it goes on after a failure")
	}
	deeper := unknown
	if r.u.walk {
		if !r.expect(len(os) == 1, rule, what+": offer", "an element is not offered") {
			return
		}
		deeper = r.st.Truth(os[0].Res.Args[0])
	}
	if len(vis) > 1 {
		r.bad(rule, what+": step", "an element is gone through more than once")
		return
	}
	if !r.u.walk && what != "branches" && len(r.fails()) > 0 {
		r.bad(rule, what+": failure", "it fails for no reason")
	}
	switch what {
	case "leafs":
		r.expect(r.st.Truth(tEq(r.depth, tInt(0))) == yes, rule, "leafs: depth", "leafs of a node that has branches are gone through")
		blank := r.truth(tEq(hash, zeroTerm(hash.T)))
		if len(vis) == 0 {
			r.expect(blank == yes || deeper == no, rule, "leafs: step", "a leaf is passed by")
			break
		}
		v := vis[0]
		r.expect(!r.u.walk || deeper == yes, rule, "leafs: step", "a leaf not wanted is gone through")
		r.expect(v.Tag == "hash" && r.same(v.Args[0], hash) && v.Args[1] == r.sch, rule, "leafs: step", "a leaf is not gone through by its hash, with the schema of elements")
		if hash == v.Args[0] && len(os) == 0 {
			ok := hash.Op == "load" && hash.Args[0].Op == "field" && isEl(hash.Args[0].Args[0])
			r.expect(ok, rule, "leafs: step", "another hash than the one of the leaf is gone through")
		}
		r.visit(rule, "leafs: step", v)
		if r.u.walk {
			r.expect(r.st.IsNil(v.Res) == yes, "stop", "step fails", "it goes on after a failure")
		}
	case "branches":
		if r.u.walk {
			if deeper == no {
				r.expect(len(loads)+len(vis) == 0, rule, "branches: step", "a branch not wanted is loaded or gone through")
				break
			}
			r.expect(deeper == yes, rule, "branches: step", "the function is not asked whether to go deeper")
			if !r.expect(len(vis) == 1, rule, "branches: step", "a branch is passed by") {
				return
			}
			r.branch(vis[0], isEl)
			r.loaded(loads, isEl, vis[0])
			r.expect(r.st.IsNil(vis[0].Res) == yes, "stop", "step fails", "it goes on after a failure")
			break
		}
		if !r.expect(len(os) == 1, rule, "branches: request", "a branch is not requested") {
			return
		}
		var apps []*Event
		for _, ev := range r.evs {
			if ev.Kind == "append" {
				apps = append(apps, ev)
			}
		}
		skip := r.preEnds(os[0])
		if !skip {
			r.expect(len(r.fails()) == 0, rule, "branches: failure", "it fails for no reason")
			r.loaded(loads, isEl, nil)
		} else {
			r.expect(len(loads) == 0, rule, "branches: known", "what failed, or belongs to a filled Root, is loaded")
		}
		r.expect(len(vis) == 0 || len(loads) == 0, "task", "load", "a task on a branch is started before all are loaded")
		if len(vis) == 1 {
			r.bad("task", "load", "a task on a branch is started before all are loaded")
			break
		}
		// collected, to be gone through after
		for _, ph := range headPhis(head) {
			sl, ok := ph.Type().Underlying().(*types.Slice)
			if !ok || !types.Identical(deref(sl.Elem()), r.node) {
				continue
			}
			q, b := env[ph], r.backVal(head, ph, env)
			if q == nil || b == nil {
				continue
			}
			lp.carried = q
			for _, e := range r.w.Entry[q] {
				z := r.st.IsNil(e) == yes || e.Op == "makeslice" && e.Args[0] == tInt(0)
				r.expect(z, rule, "branches: collect", "the branches to be gone through are not collected from none")
			}
			if skip {
				r.expect(b == q, rule, "branches: known", "what failed, or belongs to a filled Root, is to be gone through")
			} else {
				ok := len(apps) == 1 && apps[0].Res == b && apps[0].Args[0] == q && apps[0].Args[1].any(isEl)
				r.expect(ok, rule, "branches: collect", "a branch is not collected to be gone through")
			}
		}
		r.expect(lp.carried != nil, rule, "branches: collect", "branches are not collected to be gone through")
	case "collected":
		r.branch(vis[0], isEl)
		r.expect(len(loads) == 0, "task", "load", "nodes are loaded when tasks on others are started")
	}
	r.loops = append(r.loops, lp)
}

func (r *reachRun) branch(v *Event, isEl func(*Term) bool) {
	rule := "nodes"
	r.expect(v.Tag == "node" && isEl(v.Args[0]), rule, "branches: step", "another node than the branch is gone through")
	r.expect(v.Args[1] == r.sch, rule, "branches: step", "a branch is gone through with another schema")
	r.expect(v.Args[2] != tNone && r.same(v.Args[2], tSub(r.depth, tInt(1))), rule, "branches: depth", "a branch is not gone through one level below")
	r.expect(v.Addr == nil || v.Addr == r.obj, rule, "branches: step", "a node of other Refs is gone through")
	r.visit(rule, "branches: step", v)
}

func (r *reachRun) loaded(loads []*Event, isEl func(*Term) bool, before *Event) {
	rule := "nodes"
	if !r.expect(len(loads) == 1, rule, "branches: load", "a branch is not loaded once before it is gone through") {
		return
	}
	l := loads[0]
	okN, okD := false, false
	for _, a := range l.Args[1:] {
		okN = okN || isEl(a)
		okD = okD || a.T != nil && isNum(a.T) && r.same(a, tSub(r.depth, tInt(1)))
	}
	r.expect(okN, rule, "branches: load", "another node than the branch is loaded")
	r.expect(okD, rule, "branches: load", "a branch is not loaded as one level below")
	r.expect(r.st.IsNil(l.Res) == yes, rule, "load fails", "it goes on after a failure")
	for _, ev := range r.evs {
		if ev == before {
			r.bad(rule, "branches: load", "a branch is loaded after it is gone through")
			return
		}
		if ev == l {
			return
		}
	}
}
