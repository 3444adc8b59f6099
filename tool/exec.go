package main

// The abstract interpreter: a path-sensitive property simulation (ESP style)
// over the SSA form. Abstract states carry value numbers of the live values, a
// store of known memory cells, facts from branch outcomes, and the rule's own
// automaton state; states meeting at a control-flow join with the same rule
// state are merged, loops are widened to a fixed point in the abstract domain.
// There is no solver and nothing of the repository is executed.

import (
	"container/heap"
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Event struct {
	Kind   string // call store mapupdate mapdelete send recv close go panic load index deref assert
	Name   string // callee
	Instr  ssa.Instruction
	Fn     *ssa.Function
	Static *ssa.Function
	Args   []*Term
	Res    *Term
	Addr   *Term
	Val    *Term
	Key    string // memory class of Addr
	Tag    string // set by the rule; part of the trace identity
	Depth  int
	Defer  bool
	Stack  []ssa.Instruction
	Select bool
	Sig    *types.Signature
}

func (e *Event) String() string {
	s := e.Kind
	if e.Name != "" {
		s += " " + e.Name
	}
	if e.Addr != nil {
		s += " " + e.Addr.String()
	}
	if len(e.Args) > 0 {
		var as []string
		for _, a := range e.Args {
			as = append(as, a.String())
		}
		s += "(" + strings.Join(as, ", ") + ")"
	}
	if e.Val != nil {
		s += " := " + e.Val.String()
	}
	if e.Tag != "" {
		s += " [" + e.Tag + "]"
	}
	return s
}

type tnode struct {
	prev *tnode
	ev   *Event
	key  string
	n    int
}

// State of the abstract machine outside the frames
type State struct {
	mem   map[*Term]*Term
	epoch map[string]string
	facts *Facts
	auto  map[string]string
	vals  map[string]*Term // rule values
	esc   map[*Term]bool   // local objects others may know of; never changed in place
	async map[*Term]bool   // local objects goroutines write to; never changed in place
	trace *tnode
}

// escape: others may know of the local objects in terms
func (s *State) escape(ts ...*Term) {
	var found []*Term
	for _, t := range ts {
		if t == nil || t.Op == "int" || t.Op == "param" || t.Op == "load" {
			continue
		}
		t.any(func(x *Term) bool {
			if (x.Op == "alloc" || x.Op == "makeslice") && !s.esc[x] {
				found = append(found, x)
			}
			return false
		})
	}
	if len(found) == 0 {
		return
	}
	n := make(map[*Term]bool, len(s.esc)+len(found))
	for k := range s.esc {
		n[k] = true
	}
	for _, x := range found {
		n[x] = true
	}
	s.esc = n
}

// writes: a goroutine writes to a local object
func (s *State) writes(a *Term) {
	if s.async[a] {
		return
	}
	n := map[*Term]bool{a: true}
	for k := range s.async {
		n[k] = true
	}
	s.async = n
}

// spawned: the local objects a goroutine writes to
func (w *Walker) spawned(st *State, ev *Event) {
	if cl := ev.Addr; cl != nil && cl.Op == "closure" {
		cs := closureStores(cl.Fn, map[*ssa.Function]bool{})
		for j, b := range cl.Args {
			if cs[j] {
				st.writes(b)
			}
		}
	}
}

// synced: the goroutine meets others; what they did is seen now
func (w *Walker) synced(st *State, tag string) {
	for a := range st.async {
		w.havocAt(st, a, "y"+tag)
	}
}

// own: a local object nobody else knows of
func (s *State) own(a *Term) bool {
	r := rootTerm(a)
	return r.Op == "alloc" && !s.esc[r]
}

// forget what a cell has
func (s *State) forget(a *Term, tag string) {
	if r := rootTerm(a); r.Op == "alloc" && a.T != nil && a != r {
		// what it had before is not what it has now
		s.mem[a] = mk("havoc", tag+"/"+strconv.Itoa(a.ID), deref(a.T))
		return
	}
	delete(s.mem, a)
}

func newState() *State {
	return &State{mem: map[*Term]*Term{}, epoch: map[string]string{}, facts: newFacts(), auto: map[string]string{}, vals: map[string]*Term{}}
}

func (s *State) clone() *State {
	n := &State{mem: make(map[*Term]*Term, len(s.mem)+2), epoch: make(map[string]string, len(s.epoch)+2), facts: s.facts,
		auto: make(map[string]string, len(s.auto)+1), vals: make(map[string]*Term, len(s.vals)+1), trace: s.trace, esc: s.esc, async: s.async}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.epoch {
		n.epoch[k] = v
	}
	for k, v := range s.auto {
		n.auto[k] = v
	}
	for k, v := range s.vals {
		n.vals[k] = v
	}
	return n
}

func (s *State) Events() []*Event {
	var out []*Event
	for t := s.trace; t != nil; t = t.prev {
		out = append(out, t.ev)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (s *State) push(ev *Event) {
	k := fmt.Sprintf("%s@%p/%s", ev.Kind, ev.Instr, ev.Tag)
	for _, a := range ev.Args {
		k += "," + strconv.Itoa(a.ID)
	}
	if ev.Addr != nil {
		k += ">" + strconv.Itoa(ev.Addr.ID)
	}
	if ev.Val != nil {
		k += "=" + strconv.Itoa(ev.Val.ID)
	}
	pk := ""
	n := 1
	if s.trace != nil {
		pk = s.trace.key
		n = s.trace.n + 1
	}
	// chain keys through the interner to keep them short
	id := internStr(pk + "|" + k)
	s.trace = &tnode{prev: s.trace, ev: ev, key: strconv.Itoa(id), n: n}
}

var strTab = map[string]int{}

func internStr(s string) int {
	if i, ok := strTab[s]; ok {
		return i
	}
	i := len(strTab) + 1
	strTab[s] = i
	return i
}

func (s *State) Truth(t *Term) tri  { return s.facts.Truth(t) }
func (s *State) IsNil(t *Term) tri  { return s.Truth(tEq(t, tNil)) }
func (s *State) Holds(t *Term) bool { return s.Truth(t) == yes }
func (s *State) Eq(a, b *Term) bool { return s.Truth(tEq(a, b)) == yes }
func (s *State) Ne(a, b *Term) bool { return s.Truth(tEq(a, b)) == no }
func (s *State) assume(t *Term, v bool) bool {
	f := s.facts.Assume(t, v)
	if f == nil {
		return false
	}
	s.facts = f
	return true
}

func (s *State) memKey() string {
	var ks []string
	for a, v := range s.mem {
		ks = append(ks, strconv.Itoa(a.ID)+":"+strconv.Itoa(v.ID))
	}
	sort.Strings(ks)
	var es []string
	for k, v := range s.epoch {
		es = append(es, k+"~"+v)
	}
	sort.Strings(es)
	for k := range s.esc {
		es = append(es, "esc"+strconv.Itoa(k.ID))
	}
	for k := range s.async {
		es = append(es, "go"+strconv.Itoa(k.ID))
	}
	sort.Strings(es)
	var as []string
	for k, v := range s.auto {
		as = append(as, k+"="+v)
	}
	for k, v := range s.vals {
		as = append(as, k+"=#"+strconv.Itoa(v.ID))
	}
	sort.Strings(as)
	t := ""
	if s.trace != nil {
		t = s.trace.key
	}
	return strings.Join(ks, ",") + "!" + strings.Join(es, ",") + "!" + strings.Join(as, ",") + "!" + t
}

type Exit struct {
	St    *State
	Rets  []*Term
	Panic bool
	Instr ssa.Instruction // return or panic
	Fn    *ssa.Function
}

type frame struct {
	fn     *ssa.Function
	parent *frame
	call   ssa.Instruction
	id     int
	depth  int
	params map[ssa.Value]*Term
	// roots of the callers: live values at the call
	callerRoots []*Term
}

func (f *frame) stack() []ssa.Instruction {
	var out []ssa.Instruction
	for g := f; g != nil && g.call != nil; g = g.parent {
		out = append(out, g.call)
	}
	return out
}

type deferred struct {
	in   *ssa.Defer
	args []*Term
	fnv  *Term
}

type item struct {
	b      *ssa.BasicBlock
	prev   *ssa.BasicBlock
	env    map[ssa.Value]*Term
	st     *State
	visits map[*ssa.BasicBlock]int
	defers []*deferred
	pri    []int
	seq    int
	key    string
}

type itemHeap []*item

func (h itemHeap) Len() int { return len(h) }
func (h itemHeap) Less(i, j int) bool {
	a, b := h[i].pri, h[j].pri
	for k := 0; k < len(a) && k < len(b); k++ {
		if a[k] != b[k] {
			return a[k] < b[k]
		}
	}
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	return h[i].seq < h[j].seq
}
func (h itemHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *itemHeap) Push(x interface{}) { *h = append(*h, x.(*item)) }
func (h *itemHeap) Pop() interface{} {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

// fnInfo: loops, liveness and numbering, cached per function
type fnInfo struct {
	rpo    map[*ssa.BasicBlock]int
	loops  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
	encl   map[*ssa.BasicBlock][]*ssa.BasicBlock        // enclosing headers outer first
	liveIn map[*ssa.BasicBlock]map[ssa.Value]bool
	num    map[ssa.Instruction]int
	lmods  map[*ssa.BasicBlock]map[string]bool
	lalloc map[*ssa.BasicBlock]map[ssa.Value]bool
	// values others may get to know in a loop
	lesc map[*ssa.BasicBlock][]ssa.Value
	// local structs of which only some fields are stored to in a loop
	lfield map[*ssa.BasicBlock]map[ssa.Value][]*ssa.FieldAddr
}

type Walker struct {
	P         *Prog
	Opaque    func(f *ssa.Function) bool                     // never inline
	Relevant  func(f *ssa.Function, in ssa.Instruction) bool // instructions a rule cares about; nil: inline all
	OnEvent   func(st *State, ev *Event) bool
	OnExit    func(x *Exit)
	Resolve   func(c *ssa.CallCommon, recv *Term) *ssa.Function // interface resolution
	MaxDepth  int
	MaxStates int
	MaxItems  int
	Want      map[string]bool // load, index, deref
	KeepTrunc bool
	KeepSign  bool // conversions that may change the sign as well
	SamePkg   bool
	NoInline  bool
	Loops     int  // visits of a loop header explored
	Split     bool // keep states apart that differ in branch facts only
	Merge     bool // join the states of a program point that agree on the rule state
	Unroll    bool // unroll without widening (loops whose bound follows from a type)
	Cut       bool // unroll without widening and leave longer runs out (bounded)
	CutAll    bool // Cut every loop
	// Follow: with AnyRound, follow these loops from their real beginning for
	// up to two rounds, without widening
	BackFrom *ssa.BasicBlock // the block the round of OnBack ends with
	// Entry: the values the variables of loops have at their beginning
	Entry map[*Term][]*Term
	// Head: told of every variable of a loop that is reached from outside of
	// it, with its value and what stands for it in any round (Entry is needed)
	Head     func(st, ns *State, ph *ssa.Phi, init, sym *Term)
	Follow   func(f *ssa.Function, head *ssa.BasicBlock) bool
	AnyRound bool // enter loops in an arbitrary state of theirs: with Loops 1, every loop is followed for one arbitrary round
	OnBack   func(f *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term)
	Narrow   bool // sums of bytes wrap around
	// Through: the kind of external (or interface) function calling its last
	// argument: "tx" once, its error ending it; "each" for every record of an
	// unknown number of them, until an error (data.ErrStopIteration is none)
	Through func(name string) string
	OnEach  func(ev *Event, params []*Term, pre *State, x *Exit) // a round of "each" that goes on
	Fork    func(st *State, ev *Event) [][]*Term                 // the outcomes of a call to be told apart
	Model   func(st *State, ev *Event, args []*Term) (res *Term, ok bool)

	// measured
	NItems, NPaths, NInlined, NCalls int
	FnSeen                           map[*ssa.Function]bool
	Undecided                        []string

	relMemo map[*ssa.Function]int
	info    map[*ssa.Function]*fnInfo
	over    bool
}

func (p *Prog) NewWalker() *Walker {
	return &Walker{P: p, MaxDepth: 10, MaxStates: 400, MaxItems: 400000, Loops: 3, Want: map[string]bool{},
		relMemo: map[*ssa.Function]int{}, info: map[*ssa.Function]*fnInfo{}, FnSeen: map[*ssa.Function]bool{}}
}

func (w *Walker) fi(f *ssa.Function) *fnInfo {
	if x := w.info[f]; x != nil {
		return x
	}
	x := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{},
		encl: map[*ssa.BasicBlock][]*ssa.BasicBlock{}, num: map[ssa.Instruction]int{},
		lmods: map[*ssa.BasicBlock]map[string]bool{}, lalloc: map[*ssa.BasicBlock]map[ssa.Value]bool{},
		lfield: map[*ssa.BasicBlock]map[ssa.Value][]*ssa.FieldAddr{}, lesc: map[*ssa.BasicBlock][]ssa.Value{}}
	w.info[f] = x
	// reverse post order
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, s := range b.Succs {
			dfs(s)
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	if f.Recover != nil {
		dfs(f.Recover)
	}
	for i := range post {
		x.rpo[post[len(post)-1-i]] = i
	}
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			n++
			x.num[in] = n
		}
	}
	// natural loops
	for _, b := range post {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := x.loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					x.loops[s] = body
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					c := work[len(work)-1]
					work = work[:len(work)-1]
					if body[c] {
						continue
					}
					body[c] = true
					work = append(work, c.Preds...)
				}
			}
		}
	}
	for _, b := range post {
		var hs []*ssa.BasicBlock
		for h, body := range x.loops {
			if body[b] {
				hs = append(hs, h)
			}
		}
		sort.Slice(hs, func(i, j int) bool { return x.rpo[hs[i]] < x.rpo[hs[j]] })
		x.encl[b] = hs
	}
	// liveness
	use := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	def := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	phiUse := map[*ssa.BasicBlock]map[ssa.Value]bool{} // live out of pred
	for _, b := range post {
		use[b], def[b] = map[ssa.Value]bool{}, map[ssa.Value]bool{}
	}
	for _, b := range post {
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				for i, e := range ph.Edges {
					pr := b.Preds[i]
					if phiUse[pr] == nil {
						phiUse[pr] = map[ssa.Value]bool{}
					}
					phiUse[pr][e] = true
				}
				def[b][ph] = true
				continue
			}
			var rands [16]*ssa.Value
			for _, r := range in.Operands(rands[:0]) {
				if *r != nil && !def[b][*r] {
					use[b][*r] = true
				}
			}
			if v, ok := in.(ssa.Value); ok {
				def[b][v] = true
			}
		}
	}
	x.liveIn = map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range post {
		x.liveIn[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for _, b := range post {
			in := x.liveIn[b]
			add := func(v ssa.Value) {
				if !in[v] {
					in[v] = true
					ch = true
				}
			}
			for v := range use[b] {
				add(v)
			}
			outv := func(v ssa.Value) {
				if !def[b][v] {
					add(v)
				}
			}
			for v := range phiUse[b] {
				outv(v)
			}
			for _, s := range b.Succs {
				for v := range x.liveIn[s] {
					// phis of s are defined in s
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					outv(v)
				}
			}
		}
	}
	// phis read in their own block are not live in; mark phi values needed
	// memory modified by loops
	for h, body := range x.loops {
		m := map[string]bool{}
		al := map[ssa.Value]bool{}
		fields, whole := map[ssa.Value][]*ssa.FieldAddr{}, map[ssa.Value]bool{}
		hasCall := false
		for b := range body {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if k := addrKey(in.Addr); k != "" {
						m[k] = true
					}
					r := rootOf(in.Addr)
					al[r] = al[r] || addrKey(in.Addr) == "" // false: its class is forgotten
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok && fa.X == r {
						fields[r] = append(fields[r], fa)
					} else {
						whole[r] = true
					}
				case *ssa.MapUpdate:
					m["M:"+tstr(in.Map.Type())] = true
				case ssa.CallInstruction:
					c := in.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "delete", "clear":
							m["M:"+tstr(c.Args[0].Type())] = true
						case "copy":
							if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
								m["E:"+tstr(s.Elem())] = true
							}
							al[rootOf(c.Args[0])] = true
						}
						continue
					}
					hasCall = true
					for _, g := range w.P.calleesOf(c) {
						for k := range w.P.Mods(g) {
							m[k] = true
						}
					}
					for _, a := range c.Args {
						r := rootOf(a)
						if _, ok := r.(*ssa.Alloc); ok {
							al[r] = true
						}
						if _, ok := r.(*ssa.FreeVar); ok {
							if _, isP := r.Type().Underlying().(*types.Pointer); isP {
								al[r] = true
							}
						}
					}
				}
			}
		}
		if hasCall {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok {
						cs := closureStores(mc.Fn.(*ssa.Function), map[*ssa.Function]bool{})
						for i, bd := range mc.Bindings {
							if cs[i] {
								al[bd] = true
							}
						}
					}
				}
			}
		}
		x.lmods[h], x.lalloc[h] = m, al
		x.lesc[h] = escaping(body)
		x.lfield[h] = map[ssa.Value][]*ssa.FieldAddr{}
		for r, fs := range fields {
			if _, ok := r.(*ssa.Alloc); ok && !whole[r] && !al[r] {
				x.lfield[h][r] = fs
			}
		}
	}
	return x
}

// escaping: the values of pointers that are used in blocks by more than
// reading and writing through them
func escaping(body map[*ssa.BasicBlock]bool) (out []ssa.Value) {
	seen := map[ssa.Value]bool{}
	for b := range body {
		for _, in := range b.Instrs {
			var skip ssa.Value
			switch in := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Store:
				skip = in.Addr
			case *ssa.FieldAddr:
				skip = in.X
			case *ssa.IndexAddr:
				skip = in.X
			case *ssa.UnOp:
				skip = in.X
			case *ssa.BinOp, *ssa.If, *ssa.Lookup, *ssa.Range, *ssa.Next:
				continue
			case ssa.CallInstruction:
				if b, ok := in.Common().Value.(*ssa.Builtin); ok && b.Name() != "append" {
					continue
				}
			}
			for _, op := range in.Operands(nil) {
				v := *op
				if v == nil || v == skip {
					continue
				}
				if _, ok := v.Type().Underlying().(*types.Basic); ok {
					continue
				}
				v = rootOf(v)
				if !seen[v] {
					seen[v] = true
					out = append(out, v)
				}
			}
		}
	}
	return
}

func rootOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return v
		}
	}
}

func (w *Walker) undecided(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	for _, u := range w.Undecided {
		if u == s {
			return
		}
	}
	w.Undecided = append(w.Undecided, s)
}

// Params makes the root argument terms of a function
func (w *Walker) Params(f *ssa.Function) []*Term {
	var out []*Term
	for _, p := range f.Params {
		out = append(out, mk("param", p.Name(), p.Type()))
	}
	return out
}

// Run analyses a root function
func (w *Walker) Run(f *ssa.Function, args []*Term, free []*Term, st *State) []*Exit {
	if st == nil {
		st = newState()
	}
	if args == nil {
		args = w.Params(f)
	}
	xs := w.exec(f, args, free, st, nil, nil, nil)
	w.NPaths += len(xs)
	if w.OnExit != nil {
		for _, x := range xs {
			w.OnExit(x)
		}
	}
	return xs
}

func (w *Walker) exec(f *ssa.Function, args, free []*Term, st *State, parent *frame, call ssa.Instruction, roots []*Term) []*Exit {
	w.FnSeen[f] = true
	fr := &frame{fn: f, parent: parent, call: call, params: map[ssa.Value]*Term{}}
	if parent != nil {
		fr.depth = parent.depth + 1
		n := 0
		if call != nil && call.Parent() == parent.fn {
			n = w.fi(parent.fn).num[call]
		}
		fr.id = internStr(fmt.Sprintf("frame:%d/%d/%s", parent.id, n, f.String()))
		fr.callerRoots = append(append([]*Term{}, parent.callerRoots...), roots...)
		for _, v := range parent.fn.FreeVars {
			fr.callerRoots = append(fr.callerRoots, parent.params[v])
		}
	} else {
		fr.id = internStr("frame:" + f.String())
	}
	for i, p := range f.Params {
		if i < len(args) {
			fr.params[p] = args[i]
		} else {
			fr.params[p] = mk("param", p.Name(), p.Type())
		}
	}
	for i, v := range f.FreeVars {
		if i < len(free) {
			fr.params[v] = free[i]
		} else {
			t := mk("free", fname(f)+"."+v.Name(), v.Type())
			fr.params[v] = t
		}
	}
	inf := w.fi(f)
	h := &itemHeap{}
	pending := map[string]*item{}
	var exits []*Exit
	exitIdx := map[string]*Exit{}
	seq := 0
	count := map[string]int{}
	push := func(it *item) {
		// prune env to live values
		live := inf.liveIn[it.b]
		env := make(map[ssa.Value]*Term, len(live))
		for v, t := range it.env {
			if live[v] {
				env[v] = t
			} else if ph, ok := v.(*ssa.Phi); ok && (ph.Block() == it.b || w.OnBack != nil && inf.loops[ph.Block()][it.b]) {
				env[v] = t // with OnBack: what a round starts from
			}
		}
		it.env = env
		w.gc(fr, it)
		var kb strings.Builder
		fmt.Fprintf(&kb, "%d", it.b.Index)
		for _, hd := range inf.encl[it.b] {
			fmt.Fprintf(&kb, ";%d:%d", hd.Index, it.visits[hd])
		}
		node := kb.String()
		if w.Merge {
			for _, d := range it.defers {
				fmt.Fprintf(&kb, "^%p", d.in)
			}
			kb.WriteString("#" + it.st.autoKey())
			if k := kb.String(); pending[k] != nil {
				w.join(fr, pending[k], it, node)
				return
			}
		} else {
			var es []string
			for v, t := range it.env {
				es = append(es, v.Name()+":"+strconv.Itoa(t.ID))
			}
			sort.Strings(es)
			kb.WriteString("#" + strings.Join(es, ","))
			for _, d := range it.defers {
				fmt.Fprintf(&kb, "^%p", d)
			}
			kb.WriteString("#" + it.st.memKey())
			if w.Split {
				kb.WriteString("#" + it.st.facts.key())
			}
		}
		k := kb.String()
		it.key = k
		if o := pending[k]; o != nil {
			o.st.facts = o.st.facts.intersect(it.st.facts)
			return
		}
		count[node]++
		if count[node] > w.MaxStates {
			w.undecided("%s: more than %d abstract states at block %d", fname(f), w.MaxStates, it.b.Index)
			w.over = true
			return
		}
		pending[k] = it
		it.pri = nil
		for _, hd := range inf.encl[it.b] {
			it.pri = append(it.pri, inf.rpo[hd], it.visits[hd])
		}
		it.pri = append(it.pri, inf.rpo[it.b])
		seq++
		it.seq = seq
		heap.Push(h, it)
	}
	addExit := func(x *Exit) {
		var kb strings.Builder
		fmt.Fprintf(&kb, "%v", x.Panic)
		w.gcExit(fr, x)
		if w.Merge {
			for _, r := range x.Rets {
				if r.T != nil && (types.IsInterface(r.T) || isPtrT(r.T)) || r == tNil {
					fmt.Fprintf(&kb, ",%d", x.St.IsNil(r))
				} else if r.T != nil && isBool(r.T) {
					fmt.Fprintf(&kb, ",%d", x.St.Truth(r))
				}
			}
			kb.WriteString("#" + x.St.autoKey())
			if o := exitIdx[kb.String()]; o != nil {
				w.joinState(o.St, x.St, fmt.Sprintf("x%d.%s", fr.id, kb.String()))
				for i, r := range x.Rets {
					o.Rets[i] = w.joinTerm(o.Rets[i], r, fmt.Sprintf("x%d.%d.%s", fr.id, i, kb.String()), o.St, x.St)
				}
				return
			}
			x.Rets = append([]*Term{}, x.Rets...)
		} else {
			for _, r := range x.Rets {
				fmt.Fprintf(&kb, ",%d", r.ID)
			}
			kb.WriteString("#" + x.St.memKey())
			if w.Split {
				kb.WriteString("#" + x.St.facts.key())
			}
		}
		k := kb.String()
		if o := exitIdx[k]; o != nil {
			o.St.facts = o.St.facts.intersect(x.St.facts)
			return
		}
		if len(exits) > 2*w.MaxStates {
			w.undecided("%s: more than %d exit states", fname(f), 2*w.MaxStates)
			w.over = true
			return
		}
		exitIdx[k] = x
		exits = append(exits, x)
	}
	env := map[ssa.Value]*Term{}
	push(&item{b: f.Blocks[0], env: env, st: st.clone(), visits: map[*ssa.BasicBlock]int{}})
	for h.Len() > 0 {
		if w.over || w.NItems > w.MaxItems {
			if !w.over {
				w.undecided("%s: more than %d block visits", fname(f), w.MaxItems)
				w.over = true
			}
			break
		}
		it := heap.Pop(h).(*item)
		delete(pending, it.key)
		w.NItems++
		w.block(fr, inf, it, push, addExit)
	}
	return exits
}

// collect reachable roots and drop unreachable allocation cells
func (w *Walker) gc(fr *frame, it *item) {
	has := false
	for a := range it.st.mem {
		if r := rootTerm(a); r.Op == "alloc" || r.Op == "makeslice" {
			has = true
			break
		}
	}
	if !has {
		return
	}
	var roots []*Term
	for _, t := range it.env {
		roots = append(roots, t)
	}
	for _, t := range fr.params {
		roots = append(roots, t)
	}
	roots = append(roots, fr.callerRoots...)
	for _, d := range it.defers {
		roots = append(roots, d.args...)
		if d.fnv != nil {
			roots = append(roots, d.fnv)
		}
	}
	gcState(it.st, roots)
}

func (w *Walker) gcExit(fr *frame, x *Exit) {
	roots := append([]*Term{}, x.Rets...)
	roots = append(roots, fr.callerRoots...)
	for _, t := range fr.params {
		roots = append(roots, t)
	}
	gcState(x.St, roots)
}

func rootTerm(a *Term) *Term {
	for {
		switch a.Op {
		case "field", "idx", "slice", "mapelem", "mappres":
			a = a.Args[0]
		default:
			return a
		}
	}
}

func gcState(st *State, roots []*Term) {
	reach := map[*Term]bool{}
	byRoot := map[*Term][]*Term{}
	for a := range st.mem {
		r := rootTerm(a)
		byRoot[r] = append(byRoot[r], a)
	}
	var work []*Term
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || reach[t] {
			return
		}
		reach[t] = true
		work = append(work, t)
		for _, a := range t.Args {
			mark(a)
		}
	}
	for _, r := range roots {
		mark(r)
	}
	for _, v := range st.vals {
		mark(v)
	}
	for r, cs := range byRoot {
		if r.Op != "alloc" && r.Op != "makeslice" {
			mark(r)
			_ = cs
		}
	}
	for len(work) > 0 {
		t := work[len(work)-1]
		work = work[:len(work)-1]
		for _, a := range byRoot[t] {
			mark(st.mem[a])
			mark(a)
		}
	}
	for r, cs := range byRoot {
		if !reach[r] {
			for _, a := range cs {
				delete(st.mem, a)
			}
		}
	}
}

func (w *Walker) visitTag(inf *fnInfo, it *item) string {
	s := ""
	for _, h := range inf.encl[it.b] {
		s += "." + strconv.Itoa(it.visits[h])
	}
	return s
}

func (w *Walker) site(fr *frame, inf *fnInfo, it *item, in ssa.Instruction) string {
	return fmt.Sprintf("%d:%d%s", fr.id, inf.num[in], w.visitTag(inf, it))
}

// cutLoop: a loop with calls of function values is followed round by round
func (w *Walker) cutLoop(body map[*ssa.BasicBlock]bool) bool {
	if !w.Cut || w.CutAll {
		return w.Cut
	}
	for b := range body {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cm := ci.Common()
			if _, ok := cm.Value.(*ssa.Builtin); ok {
				continue
			}
			if cm.StaticCallee() == nil {
				return true
			}
			for _, a := range cm.Args {
				if _, ok := a.Type().Underlying().(*types.Signature); ok {
					return true
				}
			}
			if _, ok := cm.Value.(*ssa.MakeClosure); ok {
				return true
			}
		}
	}
	return false
}

// go to a successor block
func (w *Walker) jump(fr *frame, inf *fnInfo, it *item, to *ssa.BasicBlock, st *State, env map[ssa.Value]*Term, push func(*item)) {
	from := it.b
	vis := map[*ssa.BasicBlock]int{}
	for _, h := range inf.encl[to] {
		if n, ok := it.visits[h]; ok {
			vis[h] = n
		}
	}
	n := &item{b: to, prev: from, visits: vis, defers: it.defers}
	nenv := make(map[ssa.Value]*Term, len(env))
	for k, v := range env {
		nenv[k] = v
	}
	wid := false
	if body := inf.loops[to]; body != nil {
		follow, most := w.Follow != nil && w.Follow(fr.fn, to), 3
		if n := constRounds(inf, to); w.AnyRound && n > 0 && n <= 4 {
			follow, most = true, n+1
		}
		if body[from] {
			vis[to]++
			if follow {
				if vis[to] > most {
					return
				}
			} else if vis[to] > w.Loops {
				if w.Unroll && !w.cutLoop(body) {
					w.undecided("%s: loop at block %d runs more than %d times", fname(fr.fn), to.Index, w.Loops)
				}
				if w.OnBack != nil {
					w.BackFrom = from
					w.OnBack(fr.fn, to, st, env)
				}
				return // covered: the state of the last visit is a fixed point
			}
			wid = !w.Unroll && !w.cutLoop(body) && !follow
		} else {
			vis[to] = 1
			wid = w.AnyRound && !follow
		}
	}
	// phis
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	ns := st.clone()
	n.st = ns
	n.env = nenv
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !wid {
			nenv[ph] = w.val(fr, env, ph.Edges[pi])
			continue
		}
		inv := true // loop invariant phi
		old := env[ph]
		for i, e := range ph.Edges {
			if inf.loops[to][to.Preds[i]] && e != ph {
				inv = false
			}
		}
		if inv && !inf.loops[to][from] {
			nenv[ph] = w.val(fr, env, ph.Edges[pi])
			continue
		}
		if inv && old != nil {
			nenv[ph] = old
			continue
		}
		s := mk("phi", fmt.Sprintf("%d:%d.%d", fr.id, inf.num[ph], vis[to])+w.visitTag(inf, n), ph.Type())
		nenv[ph] = s
		if w.Entry != nil && !inf.loops[to][from] {
			if t := w.tryVal(fr, env, ph.Edges[pi]); t != nil {
				w.Entry[s] = append(w.Entry[s], t)
			}
			if w.Head != nil {
				w.Head(st, ns, ph, w.tryVal(fr, env, ph.Edges[pi]), s)
			}
		}
		// simple induction: init + k*step with step > 0
		if isNum(ph.Type()) && !isFloatT(ph.Type()) {
			w.induct(fr, env, inf, to, ph, s, ns)
		}
		// nil before the loop and after every round
		if init := w.tryVal(fr, env, ph.Edges[pi]); init != nil && !inf.loops[to][from] && st.IsNil(init) == yes && nilBack(inf, to, ph) {
			ns.assume(tEq(s, tNil), true)
		}
		if old := w.val(fr, env, ph.Edges[pi]); old != nil && isBool(ph.Type()) == false {
			if allNonNil(ph, map[ssa.Value]bool{}) {
				ns.assume(tEq(s, tNil), false)
			}
		}
	}
	if wid {
		tag := fmt.Sprintf("L%d:%d.%d", fr.id, to.Index, vis[to]) + w.visitTag(inf, n)
		for _, v := range inf.lesc[to] {
			if t := w.tryVal(fr, env, v); t != nil {
				ns.escape(t)
			}
		}
		w.havocKeys(ns, inf.lmods[to], tag)
		for v, whole := range inf.lalloc[to] {
			t := w.tryVal(fr, env, v)
			if t == nil || t.Op == "param" && !whole {
				continue
			}
			isNil := false
			if v2, ok := v.(*ssa.Alloc); ok {
				if inf.loops[to][v2.Block()] {
					continue // allocated inside the loop
				}
				if !inf.loops[to][from] && !isNum(deref(v2.Type())) {
					isNil = ns.IsNil(w.load(ns, t, deref(v2.Type()))) == yes && cellNilBack(inf, to, v2)
				}
			}
			if fs := inf.lfield[to][v]; len(fs) > 0 && t.Op == "alloc" {
				for _, fa := range fs {
					st := deref(fa.X.Type())
					a := w.fieldAddr(t, st, fa.Field)
					w.havocAt(ns, a, tag)
					ft := st.Underlying().(*types.Struct).Field(fa.Field).Type()
					ns.mem[a] = mk("havoc", tag+"/"+strconv.Itoa(a.ID), ft)
				}
				continue
			}
			w.havocAt(ns, t, tag)
			if cur := ns.mem[t]; cur != nil && isNil {
				ns.assume(tEq(cur, tNil), true)
			}
		}
	}
	push(n)
}

// constRounds: how often a loop over a fixed number of elements goes round
func constRounds(inf *fnInfo, h *ssa.BasicBlock) int {
	if len(h.Instrs) == 0 {
		return 0
	}
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || !inf.loops[h][h.Succs[0]] {
		return 0
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return 0
	}
	n := 0
	switch y := cmp.Y.(type) {
	case *ssa.Const:
		if k := constTerm(y); k.Op == "int" {
			n = int(k.C)
		}
	case *ssa.Call:
		b, ok := y.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "len" || len(y.Call.Args) != 1 {
			return 0
		}
		sl, ok := y.Call.Args[0].(*ssa.Slice)
		if !ok || sl.Low != nil || sl.High != nil {
			return 0
		}
		if a, ok := deref(sl.X.Type()).Underlying().(*types.Array); ok {
			n = int(a.Len())
		}
	}
	// from zero, by one
	x := cmp.X
	if b, ok := x.(*ssa.BinOp); ok {
		x = b.X
	}
	ph, ok := x.(*ssa.Phi)
	if !ok || ph.Block() != h {
		return 0
	}
	for i, e := range ph.Edges {
		if inf.loops[h][h.Preds[i]] {
			b, ok := e.(*ssa.BinOp)
			if !ok || b.Op != token.ADD || b.X != ph || constTerm1(b.Y) != tInt(1) {
				return 0
			}
		} else if k := constTerm1(e); k == nil || k.Op != "int" || k.C != 0 && k.C != -1 {
			return 0
		}
	}
	return n
}

func constTerm1(v ssa.Value) *Term {
	if c, ok := v.(*ssa.Const); ok {
		return constTerm(c)
	}
	return nil
}

// nilBack: the values a phi has after a round are nil, by a branch of the round
func nilBack(inf *fnInfo, h *ssa.BasicBlock, ph *ssa.Phi) bool {
	seen := map[*ssa.Phi]bool{ph: true}
	// the value is nil if p, and the edge from there to b, are reached
	var isNil func(e ssa.Value, p, b *ssa.BasicBlock) bool
	isNil = func(e ssa.Value, p, b *ssa.BasicBlock) bool {
		if c, ok := e.(*ssa.Const); ok && c.IsNil() || e == ssa.Value(ph) {
			return true
		}
		if nilBranch(p, b, e) {
			return true
		}
		for b := p; b != nil && inf.loops[h][b]; b = b.Idom() {
			d := b.Idom()
			if d != nil && inf.loops[h][d] && len(b.Preds) == 1 && nilBranch(d, b, e) {
				return true
			}
		}
		q, ok := e.(*ssa.Phi)
		if !ok || !inf.loops[h][q.Block()] || q.Block() == h {
			return false
		}
		if seen[q] {
			return true
		}
		seen[q] = true
		for i, v := range q.Edges {
			if !isNil(v, q.Block().Preds[i], q.Block()) {
				return false
			}
		}
		return true
	}
	for i, e := range ph.Edges {
		p := h.Preds[i]
		if inf.loops[h][p] && !isNil(e, p, h) {
			return false
		}
	}
	return true
}

// cellNilBack: what a variable has after a round is nil, by a branch next to
// every store of the round
func cellNilBack(inf *fnInfo, h *ssa.BasicBlock, a *ssa.Alloc) bool {
	for _, u := range *a.Referrers() {
		switch u := u.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if u.Addr != ssa.Value(a) {
				return false
			}
			b := u.Block()
			if c, ok := u.Val.(*ssa.Const); ok && c.IsNil() || !inf.loops[h][b] {
				continue
			}
			vals := []ssa.Value{u.Val}
			after, last := false, true
			for _, in := range b.Instrs {
				if after {
					if l, ok := in.(*ssa.UnOp); ok && l.X == ssa.Value(a) {
						vals = append(vals, l)
					}
					if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
						last = false
					}
				}
				after = after || in == ssa.Instruction(u)
			}
			if !last {
				continue // the later one counts
			}
			ok := false
			for _, v := range vals {
				for i, n := range b.Succs {
					ok = ok || nilBranch(b, n, v) && !inf.loops[h][b.Succs[1-i]]
				}
			}
			if !ok {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// nilBranch: d goes to b only if v is nil
func nilBranch(d, b *ssa.BasicBlock, v ssa.Value) bool {
	if len(d.Instrs) == 0 {
		return false
	}
	br, isIf := d.Instrs[len(d.Instrs)-1].(*ssa.If)
	if !isIf || d.Succs[0] == d.Succs[1] {
		return false
	}
	cmp, isCmp := br.Cond.(*ssa.BinOp)
	if !isCmp {
		return false
	}
	x, y := cmp.X, cmp.Y
	if c, ok := x.(*ssa.Const); ok && c.IsNil() {
		x, y = y, x
	}
	c, isC := y.(*ssa.Const)
	if !isC || !c.IsNil() || x != v {
		return false
	}
	return cmp.Op == token.EQL && d.Succs[0] == b || cmp.Op == token.NEQ && d.Succs[1] == b
}

func allNonNil(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !allNonNil(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeClosure, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Function, *ssa.MakeInterface:
		return true
	}
	return false
}

// induct adds bounds of an induction variable
func (w *Walker) induct(fr *frame, env map[ssa.Value]*Term, inf *fnInfo, h *ssa.BasicBlock, ph *ssa.Phi, s *Term, st *State) {
	dir := 0
	var init []ssa.Value
	for i, e := range ph.Edges {
		if !inf.loops[h][h.Preds[i]] {
			init = append(init, e)
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.X != ph {
			return
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok {
			return
		}
		k := constTerm(c)
		if k.Op != "int" {
			return
		}
		d := 0
		switch {
		case b.Op == token.ADD && k.C > 0, b.Op == token.SUB && k.C < 0:
			d = 1
		case b.Op == token.ADD && k.C < 0, b.Op == token.SUB && k.C > 0:
			d = -1
		default:
			return
		}
		if dir != 0 && dir != d {
			return
		}
		dir = d
	}
	if dir == 0 {
		return
	}
	for _, e := range init {
		t := w.tryVal(fr, env, e)
		if t == nil {
			if c, ok := e.(*ssa.Const); ok {
				t = constTerm(c)
			}
		}
		if t == nil || len(init) > 1 && t.Op != "int" {
			return
		}
		one := tInt(1)
		if w.AnyRound { // the first round too
			one = tInt(0)
		}
		if dir > 0 { // s >= init+1 after one round
			st.assume(tLe0(tAdd(tSub(t, s), one)), true)
		} else {
			st.assume(tLe0(tAdd(tSub(s, t), one)), true)
		}
	}
}

// havocKeys forgets memory of the classes
func (w *Walker) havocKeys(st *State, keys map[string]bool, tag string) {
	if len(keys) == 0 {
		return
	}
	for k := range keys {
		st.epoch[k] = tag
	}
	w.taint(st, func(k string) bool { return keys[k] }, tag)
	for a := range st.mem {
		for x := a; x != nil; {
			if keys[termKey(x)] && !localCell(x) {
				if !st.own(a) {
					st.forget(a, tag)
				}
				break
			}
			if len(x.Args) == 0 || (x.Op != "field" && x.Op != "idx" && x.Op != "slice") {
				break
			}
			x = x.Args[0]
		}
	}
}

// cells of a local variable are not touched by class havoc unless they are
// struct fields or elements that may be shared
func localCell(a *Term) bool { return a.Op == "alloc" }

// havocAt forgets the contents of a cell and everything below it
func (w *Walker) havocAt(st *State, addr *Term, tag string) {
	if addr.Op == "slice" {
		addr = addr.Args[0]
	}
	for a := range st.mem {
		for x := a; ; {
			if x == addr {
				delete(st.mem, a)
				break
			}
			if len(x.Args) == 0 || (x.Op != "field" && x.Op != "idx") {
				break
			}
			x = x.Args[0]
		}
	}
	if addr.Op == "alloc" || addr.Op == "free" || addr.Op == "makeslice" || addr.Op == "param" {
		var et types.Type
		if addr.T != nil {
			et = deref(addr.T)
		}
		if addr.Op != "makeslice" {
			st.mem[addr] = mk("havoc", tag+"/"+strconv.Itoa(addr.ID), et)
		} else {
			st.mem[mk("contents", "", nil, addr)] = mk("havoc", tag, nil)
		}
	}
}

// termKey: memory class of an address term
func termKey(a *Term) string {
	if k, ok := a.Obj.(string); ok {
		return k
	}
	switch a.Op {
	case "global":
		return "G:" + a.Aux
	case "field", "idx", "mapelem", "mappres":
		return ""
	}
	if a.T != nil {
		return "P:" + tstr(deref(a.T))
	}
	return ""
}

func (w *Walker) tryVal(fr *frame, env map[ssa.Value]*Term, v ssa.Value) *Term {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function:
		return w.val(fr, env, v)
	}
	if t, ok := env[v]; ok {
		return t
	}
	if t, ok := fr.params[v]; ok {
		return t
	}
	return nil
}

func (w *Walker) val(fr *frame, env map[ssa.Value]*Term, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Global:
		return mk("global", v.String(), v.Type())
	case *ssa.Function:
		t := mk("func", v.String(), v.Type())
		t.Fn = v
		return t
	case *ssa.Builtin:
		return mk("builtin", v.Name(), v.Type())
	}
	if t, ok := env[v]; ok {
		return t
	}
	if t, ok := fr.params[v]; ok {
		return t
	}
	w.undecided("%s: value %s has no abstract value", fname(fr.fn), v.Name())
	return mk("undef", v.Name()+"@"+strconv.Itoa(fr.id), v.Type())
}

// sentinel: error variables set once by their package
func (w *Walker) isSentinel(g *ssa.Global) bool {
	t := deref(g.Type())
	if t.String() != "error" {
		return false
	}
	if !w.P.isRepoPkg(g.Pkg) {
		return true
	}
	return w.P.storedOnlyInInit(g)
}

func (p *Prog) isRepoPkg(pk *ssa.Package) bool {
	return pk != nil && strings.HasPrefix(pk.Pkg.Path(), modPath)
}

var initOnly map[*ssa.Global]bool

func (p *Prog) storedOnlyInInit(g *ssa.Global) bool {
	if initOnly == nil {
		initOnly = map[*ssa.Global]bool{}
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if gg, ok := rootOf(s.Addr).(*ssa.Global); ok && f.Name() != "init" && !strings.HasPrefix(f.Name(), "init#") {
							initOnly[gg] = true // stored elsewhere
						}
					}
				}
			}
		}
	}
	return !initOnly[g]
}

// ---- memory

func (w *Walker) epochOf(st *State, key string) string { return st.epoch[key] }

func fieldIndex(t types.Type, name string) (int, types.Type) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i, s.Field(i).Type()
		}
	}
	return -1, nil
}

func project(v *Term, name string, i int, ft types.Type) *Term {
	switch v.Op {
	case "struct":
		if i < len(v.Args) {
			return v.Args[i]
		}
	case "zero":
		return zeroTerm(ft)
	}
	return mk("fld", name, ft, v)
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Map:
		return u.Elem()
	}
	return nil
}

// known value of a cell, nil if only a symbol
// taint: what others may have changed in local objects they know of
func (w *Walker) taint(st *State, keys func(string) bool, tag string) {
	for r := range st.esc {
		if r.Op != "alloc" || r.T == nil {
			continue
		}
		var rec func(a *Term, t types.Type)
		rec = func(a *Term, t types.Type) {
			s, ok := t.Underlying().(*types.Struct)
			if !ok {
				return
			}
			for i := 0; i < s.NumFields(); i++ {
				f := w.fieldAddr(a, t, i)
				if keys(termKey(f)) {
					if st.mem[f] == nil {
						st.forget(f, tag)
					}
					continue
				}
				rec(f, s.Field(i).Type())
			}
		}
		rec(r, deref(r.T))
	}
}

func (w *Walker) known(st *State, a *Term) *Term {
	if v := st.mem[a]; v != nil {
		return v
	}
	switch a.Op {
	case "field":
		if p := w.known(st, a.Args[0]); p != nil && a.T != nil {
			bt := deref(a.Args[0].T)
			if i, ft := fieldIndex(bt, a.Aux); i >= 0 {
				return project(p, a.Aux, i, ft)
			}
		}
	case "idx":
		b := a.Args[0]
		if b.Op == "alloc" {
			if p := w.known(st, b); p != nil {
				if p.Op == "zero" {
					if w.idxClean(st, a) {
						return zeroTerm(elemType(b.T))
					}
					return nil
				}
				return mk("elem", "", elemType(b.T), p, a.Args[1])
			}
		}
		if b.Op == "makeslice" && st.mem[mk("contents", "", nil, b)] == nil && st.epoch[termKey(a)] == b.Aux2() {
			if w.idxClean(st, a) {
				return zeroTerm(elemType(b.T))
			}
		}
	case "alloc":
		if st.epoch["A:"+a.Aux] == "" {
			return zeroTerm(deref(a.T))
		}
	}
	return nil
}

// Aux2: epoch of the element class when the slice was made
func (t *Term) Aux2() string {
	if s, ok := t.Obj.(string); ok {
		return s
	}
	return ""
}

// idxClean: no store to an element that may be the same was recorded
func (w *Walker) idxClean(st *State, a *Term) bool {
	for x := range st.mem {
		if x.Op == "idx" && x.Args[0] == a.Args[0] && x != a {
			if st.Truth(tEq(x.Args[1], a.Args[1])) != no {
				return false
			}
		}
	}
	return true
}

func (w *Walker) load(st *State, a *Term, t types.Type) *Term {
	if a.Op == "global" {
		if v := st.mem[a]; v != nil {
			return v
		}
		return mk("load", st.epoch["G:"+a.Aux], t, a)
	}
	// struct with separately stored fields
	if s, ok := t.Underlying().(*types.Struct); ok {
		sub := false
		for x := range st.mem {
			if x.Op == "field" && x.Args[0] == a || x.Op == "field" && x.Args[0].Op == "field" && x.Args[0].Args[0] == a {
				sub = true
				break
			}
		}
		if sub {
			args := make([]*Term, s.NumFields())
			for i := range args {
				args[i] = w.load(st, w.fieldAddr(a, t, i), s.Field(i).Type())
			}
			return mk("struct", tstr(t), t, args...)
		}
	}
	// array with separately stored elements
	if at, ok := t.Underlying().(*types.Array); ok {
		if cs := st.cells(a); len(cs) > 0 {
			fixed := at.Len() <= 64
			var ids []string
			for _, x := range cs {
				fixed = fixed && x.Args[1].Op == "int"
				ids = append(ids, strconv.Itoa(x.ID)+"="+strconv.Itoa(st.mem[x].ID))
			}
			if !fixed {
				sort.Strings(ids)
				if v := w.known(st, a); v != nil {
					ids = append(ids, strconv.Itoa(v.ID))
				}
				return mk("load", "mixed:"+strings.Join(ids, ","), t, a)
			}
			args := make([]*Term, at.Len())
			for i := range args {
				args[i] = w.load(st, idxTerm(a, tInt(int64(i)), at.Elem()), at.Elem())
			}
			return mk("array", tstr(t), t, args...)
		}
	}
	if v := w.known(st, a); v != nil {
		return v
	}
	return mk("load", st.epoch[termKey(a)], t, a)
}

// cells: separately stored elements of an array
func (s *State) cells(a *Term) (out []*Term) {
	for x := range s.mem {
		if x.Op == "idx" && x.Args[0] == a {
			out = append(out, x)
		}
	}
	return
}

func (w *Walker) fieldAddr(base *Term, st types.Type, i int) *Term {
	s := st.Underlying().(*types.Struct)
	t := mk("field", s.Field(i).Name(), types.NewPointer(s.Field(i).Type()), base)
	if t.Obj == nil {
		t.Obj = fieldKeyOf(st, i)
	}
	return t
}

func idxTerm(base, i *Term, elem types.Type) *Term {
	if base.Op == "slice" {
		return idxTerm(base.Args[0], tAdd(base.Args[1], i), elem)
	}
	var pt types.Type
	k := "E:?"
	if elem != nil {
		pt = types.NewPointer(elem)
		k = "E:" + tstr(elem)
	}
	t := mk("idx", "", pt, base, i)
	if t.Obj == nil {
		t.Obj = k
	}
	return t
}

// distinct bases that cannot alias
func noAlias(a, b *Term) bool {
	ra, rb := rootTerm(a), rootTerm(b)
	if ra == rb {
		return false
	}
	la := ra.Op == "alloc" || ra.Op == "makeslice"
	lb := rb.Op == "alloc" || rb.Op == "makeslice"
	if la && lb {
		return true
	}
	// a fresh object is different from anything that existed before it; a
	// loaded value may be a published fresh object
	if la && (rb.Op == "param" || rb.Op == "global") || lb && (ra.Op == "param" || ra.Op == "global") {
		return true
	}
	return false
}

// apart: different fields of one struct, at any depth
func apart(a, b *Term) bool {
	for x := a; x.Op == "field"; x = x.Args[0] {
		for y := b; y.Op == "field"; y = y.Args[0] {
			if x != y && x.Args[0] == y.Args[0] {
				return true
			}
		}
	}
	return false
}

func (w *Walker) store(st *State, a, v *Term, tag string) {
	st.escape(v)
	key := termKey(a)
	// below a
	for x := range st.mem {
		if x == a {
			continue
		}
		for y := x; ; {
			if len(y.Args) == 0 || (y.Op != "field" && y.Op != "idx") {
				break
			}
			y = y.Args[0]
			if y == a {
				delete(st.mem, x)
				break
			}
		}
	}
	if a.Op == "idx" {
		r := rootTerm(a)
		for x := range st.mem {
			if x.Op == "contents" && rootTerm(x.Args[0]) == r {
				if y := x.Args[0]; y.Op == "slice" && st.Truth(tLe0(tSub(tAdd(a.Args[1], tInt(1)), y.Args[1]))) == yes {
					continue // below the copied part
				}
				delete(st.mem, x)
			}
		}
	}
	if a.Op != "alloc" {
		lone := rootTerm(a).Op == "alloc" || rootTerm(a).Op == "makeslice"
		for x := range st.mem {
			if x == a || termKey(x) != key || key == "" {
				continue
			}
			if noAlias(x, a) || apart(x, a) || rootTerm(x) != rootTerm(a) && (st.own(x) || st.own(a)) {
				continue
			}
			if x.Op == "idx" && a.Op == "idx" && x.Args[0] == a.Args[0] && st.Truth(tEq(x.Args[1], a.Args[1])) == no {
				continue
			}
			st.forget(x, "s"+tag)
		}
		if !lone && key != "" {
			if root := rootTerm(a); root.Op != "param" && root.Op != "global" {
				w.taint(st, func(k string) bool { return k == key }, "s"+tag)
			}
			st.epoch[key] = "s" + tag
			if strings.HasPrefix(key, "P:") && v.T != nil {
				ks := map[string]bool{}
				structFieldKeys(deref(a.T), ks)
				for k := range ks {
					st.epoch[k] = "s" + tag
				}
			}
		}
	}
	st.mem[a] = v
}

func mapAddr(op string, m, k *Term, mt types.Type) *Term {
	t := mk(op, "", nil, m, k)
	if t.Obj == nil && mt != nil {
		t.Obj = "M:" + tstr(mt)
		if op == "mapelem" {
			t.T = types.NewPointer(elemType(mt))
		}
	}
	return t
}

// Content resolves a byte-slice argument made from a local array to the
// contents of the array ("bytes of key")
func (w *Walker) Content(st *State, t *Term) *Term {
	if t.Op == "slice" && t.Args[1].Op == "int" && t.Args[1].C == 0 && t.Args[2].Op == "none" {
		b := t.Args[0]
		if b.T != nil {
			if pt, ok := b.T.Underlying().(*types.Pointer); ok {
				if at, ok := pt.Elem().Underlying().(*types.Array); ok && isNum(at.Elem()) {
					if b.Op == "alloc" && at.Len() <= 64 && len(st.cells(b)) > 0 {
						return t // element by element
					}
					return mk("bytesof", "", nil, w.load(st, b, pt.Elem()))
				}
			}
		}
	}
	return t
}

// SliceElems lists the known elements of a slice term: each part is either
// an element (spread=false) or a whole slice spliced in (spread=true)
type elemPart struct {
	t      *Term
	spread bool
}

func (w *Walker) SliceElems(st *State, s *Term) (out []elemPart, ok bool) {
	switch s.Op {
	case "nil":
		return nil, true
	case "append":
		a, ok := w.SliceElems(st, s.Args[0])
		if !ok {
			a = []elemPart{{s.Args[0], true}}
		}
		b, ok2 := w.SliceElems(st, s.Args[1])
		if !ok2 {
			b = []elemPart{{s.Args[1], true}}
		}
		return append(append([]elemPart{}, a...), b...), true
	case "snap":
		for i, a := range s.Args {
			out = append(out, elemPart{a, s.Aux[i] == 's'})
		}
		return out, true
	case "slice":
		b := s.Args[0]
		if b.Op == "alloc" {
			if at, isArr := deref(b.T).Underlying().(*types.Array); isArr && s.Args[1].Op == "int" && s.Args[1].C == 0 {
				n := at.Len()
				if s.Args[2].Op == "int" {
					n = s.Args[2].C
				} else if s.Args[2].Op != "none" {
					return nil, false
				}
				for i := int64(0); i < n; i++ {
					out = append(out, elemPart{w.load(st, idxTerm(b, tInt(i), at.Elem()), at.Elem()), false})
				}
				return out, true
			}
		}
	case "makeslice":
		et := elemType(s.T)
		// filled by copying and by storing elements, one after the other
		copies := map[*Term]*Term{}
		plain := true
		for x, v := range st.mem {
			if x.Op == "contents" && v.Op == "copied" && rootTerm(x.Args[0]) == s {
				lo := tInt(0)
				switch {
				case x.Args[0] == s:
				case x.Args[0].Op == "slice" && x.Args[0].Args[0] == s && (x.Args[0].Args[2] == tNone || x.Args[0].Args[2] == tAdd(x.Args[0].Args[1], w.lenOf(st, v.Args[0], v.Args[0].T))):
					lo = x.Args[0].Args[1]
				default:
					plain = false
				}
				if copies[lo] != nil {
					plain = false
				}
				copies[lo] = v.Args[0]
			}
			if x.Op == "idx" && x.Args[0] == s && x.Args[1].Op != "int" {
				plain = false
			}
		}
		if plain && len(copies) > 0 {
			pos, left := tInt(0), len(copies)
			for pos != s.Args[0] {
				if src := copies[pos]; src != nil {
					delete(copies, pos)
					left--
					if es, ok := w.SliceElems(st, src); ok {
						out = append(out, es...)
					} else {
						out = append(out, elemPart{src, true})
					}
					pos = tAdd(pos, w.lenOf(st, src, src.T))
					continue
				}
				if pos.Op != "int" || pos.C > 64 || len(copies) == 0 && s.Args[0].Op != "int" {
					break
				}
				out = append(out, elemPart{w.load(st, idxTerm(s, pos, et), et), false})
				pos = tAdd(pos, tInt(1))
			}
			if pos == s.Args[0] && left == 0 {
				return out, true
			}
			return []elemPart{{s, true}}, true
		}
		if s.Args[0].Op == "int" && s.Args[0].C <= 64 {
			for i := int64(0); i < s.Args[0].C; i++ {
				out = append(out, elemPart{w.load(st, idxTerm(s, tInt(i), et), et), false})
			}
			return out, true
		}
	}
	return []elemPart{{s, true}}, true
}

func isPtrT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// autoKey: the rule state only
func (s *State) autoKey() string {
	var as []string
	for k, v := range s.auto {
		as = append(as, k+"="+v)
	}
	for k, v := range s.vals {
		as = append(as, k+"=#"+strconv.Itoa(v.ID))
	}
	sort.Strings(as)
	t := ""
	if s.trace != nil {
		t = s.trace.key
	}
	return strings.Join(as, ",") + "!" + t
}

// joinTerm: equal values stay, others become a new symbol; what both states
// know about nilness of the value is kept
func (w *Walker) joinTerm(a, b *Term, tag string, sa, sb *State) *Term {
	if a == b {
		return a
	}
	ty := a.T
	if ty == nil || a == tNil {
		ty = b.T
	}
	return mk("join", tag, ty)
}

func (w *Walker) join(fr *frame, o, it *item, node string) {
	tag := fmt.Sprintf("j%d.%s.%s", fr.id, node, internKey(o.st))
	type nn struct {
		t *Term
		v tri
	}
	var keep []nn
	for v, t := range it.env {
		if ot, ok := o.env[v]; ok && ot != t {
			n := w.joinTerm(ot, t, tag+"."+v.Name(), o.st, it.st)
			a, b := o.st.IsNil(ot), it.st.IsNil(t)
			if n != ot && a == b && a != unknown {
				keep = append(keep, nn{n, a})
			}
			o.env[v] = n
		}
	}
	for v := range o.env {
		if _, ok := it.env[v]; !ok {
			delete(o.env, v)
		}
	}
	w.joinState(o.st, it.st, tag)
	for _, k := range keep {
		o.st.assume(tEq(k.t, tNil), k.v == yes)
	}
}

func internKey(s *State) string { return strconv.Itoa(internStr(s.autoKey())) }

// joinState joins b into a
func (w *Walker) joinState(a, b *State, tag string) {
	for x := range b.async {
		a.writes(x)
	}
	a.facts = a.facts.intersect(b.facts)
	sym := func(x, v, v2 *Term) *Term {
		var ty types.Type
		if x.T != nil && (x.Op == "field" || x.Op == "idx" || x.Op == "alloc" || x.Op == "global" || x.Op == "mapelem") {
			ty = deref(x.T)
		} else if v != nil && v.T != nil && v != tNil {
			ty = v.T
		} else if v2 != nil {
			ty = v2.T
		}
		return mk("join", tag, ty, x)
	}
	for x, v := range a.mem {
		if bv := b.mem[x]; bv != v {
			a.mem[x] = sym(x, v, bv)
		}
	}
	for x, v := range b.mem {
		if _, ok := a.mem[x]; !ok {
			a.mem[x] = sym(x, v, nil)
		}
	}
	for k, v := range a.epoch {
		if b.epoch[k] != v {
			a.epoch[k] = tag
		}
	}
	for k := range b.epoch {
		if _, ok := a.epoch[k]; !ok {
			a.epoch[k] = tag
		}
	}
}
