package main

// Giving room in the cache, cached registries, and closing the cache.

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C02", "The cache gives room by its least used values, keeps registries, closes clean",
		"Every path of cleaning down, of keeping registries and of closing is enumerated; a round of every loop is judged from an arbitrary state, the order by evaluating the comparison given to the sorting.", checkC02)
}

type cleanCtx struct {
	*cacheCtx
	w          *Walker
	regItem    *types.Named
	fPoints    string // of an item
	fRegPoints string
	fRegs      string // registries of the cache
	fReg       string // of what is kept of a registry
	touch      *ssa.Function
	f          *ssa.Function
	pos        map[*Term][]*Term
	minKey     map[*Term]bool
	name       string
	closing    bool
}

type cleanRun struct {
	*cleanCtx
	e   *Exit
	st  *State
	evs []*Event
	at  string
}

func newCleanCtx(c *Ctx) *cleanCtx {
	cc := newCacheCtx(c)
	if cc == nil {
		return nil
	}
	x := &cleanCtx{cacheCtx: cc}
	pts := c.P.Named("skyobject", "cachePoints")
	x.fRegs = fieldBy(x.cache, isMapT(isNamedT("RegistryRef"), isPtrT))
	if pts == nil || x.fRegs == "" {
		c.Anchor("skyobject: points of what is cached, cached registries")
		return nil
	}
	isP := func(t types.Type) bool { return types.Identical(t, pts) }
	x.fPoints = fieldBy(x.item, isP)
	_, mt := fieldIndex(x.cache, x.fRegs)
	x.regItem, _ = deref(mt.Underlying().(*types.Map).Elem()).(*types.Named)
	if x.regItem != nil {
		x.fRegPoints = fieldBy(x.regItem, isP)
		x.fReg = fieldBy(x.regItem, func(t types.Type) bool { return typeName(deref(t)) == "Registry" })
	}
	for _, f := range c.P.Funcs {
		if f.Synthetic == "" && f.Parent() == nil && f.Signature.Recv() != nil && types.Identical(deref(f.Signature.Recv().Type()), pts) && isPtrT(f.Signature.Recv().Type()) {
			x.touch = f
		}
	}
	if x.fPoints == "" || x.fRegPoints == "" || x.fReg == "" || x.touch == nil {
		c.Anchor("skyobject: points of what is cached")
		return nil
	}
	return x
}

func (x *cleanCtx) field(st *State, base *Term, t *types.Named, n string) *Term {
	i, ft := fieldIndex(t, n)
	if i < 0 {
		return tNil
	}
	return x.w.load(st, x.w.fieldAddr(base, t, i), ft)
}

func (x *cleanCtx) confFld(st *State, n string) *Term {
	ct := x.c.P.Named("skyobject", "Container")
	cf := x.c.P.Named("skyobject", "Config")
	cfn := fieldBy(ct, func(t types.Type) bool { return types.Identical(deref(t), cf) })
	return x.field(st, x.field(st, x.field(st, x.self, x.cache, "c"), ct, cfn), cf, n)
}

func (x *cleanCtx) go1(f *ssa.Function, judge func(r *cleanRun), back func(r *cleanRun, g *ssa.Function, head *ssa.BasicBlock, env map[ssa.Value]*Term)) {
	x.f, x.name, x.pos, x.minKey = f, f.Name(), map[*Term][]*Term{}, map[*Term]bool{}
	w := x.walker()
	w.Model = nil
	x.w = w
	st := newState()
	args := []*Term{x.self}
	for _, p := range f.Params[1:] {
		t := mk("param", p.Name(), p.Type())
		if isPtrT(p.Type()) {
			st.assume(tEq(t, tNil), false)
		}
		args = append(args, t)
	}
	sub := func(e *Exit) *cleanRun {
		r := &cleanRun{cleanCtx: x, e: e, st: e.St, evs: e.St.Events(), at: x.c.P.pos(f.Pos())}
		if e.Instr != nil {
			r.at = x.c.at(e.Instr)
		}
		return r
	}
	w.OnBack = func(g *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
		r := sub(&Exit{St: st, Fn: g})
		if len(head.Instrs) > 0 {
			r.at = x.c.P.pos(g.Pos())
		}
		dbg("back", f.Name(), r.e)
		back(r, g, head, env)
	}
	for _, e := range w.Run(f, args, nil, st) {
		dbg("exit", f.Name(), e)
		r := sub(e)
		if e.Panic {
			r.bad("room", "panic", "%s panics", f.Name())
			continue
		}
		judge(r)
	}
	x.c.Done(w)
}

func (r *cleanRun) bad(rule, what, f string, a ...interface{}) {
	r.c.Bad(rule, r.name+": "+what, r.at, f, a...)
}

func (r *cleanRun) expect(ok bool, rule, what, f string, a ...interface{}) bool {
	return r.c.Expect(ok, rule, r.name+": "+what, r.at, f, a...)
}

func (r *cleanRun) same(a, b *Term) bool {
	return a != nil && b != nil && (a == b || r.st.Eq(a, b))
}

func (r *cleanRun) isItems(m *Term) bool { return isF(m, "is", nil) }

func (r *cleanRun) cur(head *ssa.BasicBlock) (cur *Event, pos int) {
	for i, ev := range r.evs {
		if ev.Kind == "range" && ev.Instr.Block() == head {
			cur, pos = ev, i
		}
	}
	return
}

func (r *cleanRun) db(name string) (out []*Event) {
	for _, ev := range r.evs {
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, "data.CXDS."+name) {
			out = append(out, ev)
		}
	}
	return
}

// mentions: a term, or what a local it refers to has, has another one in it
func (r *cleanRun) mentions(t, what *Term, depth int) bool {
	if depth > 4 {
		return false
	}
	return t.any(func(y *Term) bool {
		if y == what {
			return true
		}
		if y.Op == "alloc" {
			for a, v := range r.st.mem {
				if a != y && a.any(func(z *Term) bool { return z == y }) && r.mentions(v, what, depth+1) {
					return true
				}
			}
		}
		return false
	})
}

// roomBack: rounds of cleaning down
func (r *cleanRun) roomBack(g *ssa.Function, head *ssa.BasicBlock, env map[ssa.Value]*Term) {
	cur, pos := r.cur(head)
	if cur != nil {
		if r.isItems(cur.Addr) {
			r.candidate(cur, pos)
		}
		return
	}
	r.removal(g, head, env)
}

// candidate: may an object leave the cache
func (r *cleanRun) candidate(cur *Event, pos int) {
	st, it := r.st, cur.Args[1]
	fw, val := r.field(st, it, r.item, "fwant"), r.field(st, it, r.item, "val")
	wanted := triNot(st.Truth(tEq(r.w.lenOf(st, fw, fw.T), tInt(0))))
	if wanted == unknown && st.IsNil(fw) == yes {
		wanted = no
	}
	empty := st.Truth(tEq(r.w.lenOf(st, val, val.T), tInt(0)))
	if st.IsNil(val) == yes {
		empty = yes
	}
	n := 0
	for _, ev := range r.evs[pos:] {
		switch {
		case ev.Kind == "append":
			n++
			ok := r.mentions(ev.Args[1], it, 0) || r.mentions(ev.Args[1], cur.Args[0], 0)
			r.expect(ok, "candidates", "which", "something else than the object is considered for leaving")
		case ev.Kind == "store" && ev.Addr.Op == "field" && isF2(ev.Addr.Args[0], it), ev.Kind == "mapdelete":
			r.bad("candidates", "kept", "an object is changed while candidates are looked for")
		}
	}
	if n > 0 {
		r.expect(wanted == no && empty == no, "candidates", "free", "an object that may be wanted or being filled is considered for leaving")
		r.seen["candidate"] = true
		return
	}
	r.expect(wanted == yes || empty == yes, "candidates", "all", "an object with a value that nobody waits for is not considered for leaving")
	if wanted == yes {
		r.seen["wanted"] = true
	}
	if empty == yes {
		r.seen["filling"] = true
	}
}

func isF2(base, it *Term) bool { return base == it }

// removal: an object leaves the cache
func (r *cleanRun) removal(g *ssa.Function, head *ssa.BasicBlock, env map[ssa.Value]*Term) {
	st := r.st
	// the object: what the amount of this round is about
	var it, el, list, idx, key *Term
	start := 0
	for i, ev := range r.evs {
		if ev.Kind == "call" && strings.HasPrefix(ev.Name, "sort.") || ev.Kind == "rangeend" {
			start = i
		}
	}
	see := func(t *Term) {
		t.any(func(y *Term) bool {
			if it == nil && y.T != nil && types.Identical(deref(y.T), r.item) && isPtrT(y.T) && y.Op == "load" {
				if p := idxOf(y); p != nil {
					it, el, list, idx = y, p, p.Args[0], p.Args[1]
				}
			}
			return false
		})
	}
	for _, ev := range r.evs[start:] {
		for _, t := range append([]*Term{ev.Addr, ev.Val}, ev.Args...) {
			if t != nil {
				see(t)
			}
		}
	}
	if it == nil {
		return // another loop
	}
	// progress: the next one is next
	ok := false
	for _, in := range head.Instrs {
		ph, isP := in.(*ssa.Phi)
		if !isP {
			break
		}
		for i, p := range head.Preds {
			if p != r.w.BackFrom {
				continue
			}
			v := r.w.tryVal(nil, env, ph.Edges[i])
			if v == nil || env[ph] == nil {
				continue
			}
			if isNum(ph.Type()) && idx.any(func(y *Term) bool { return y == env[ph] }) && r.same(v, tAdd(env[ph], tInt(1))) {
				ok = true
			}
			if env[ph] == list && idx == tInt(0) && isRest(v, list) {
				ok = true
			}
		}
	}
	for _, v := range st.mem {
		ok = ok || idx == tInt(0) && isRest(v, list)
	}
	for a, v := range st.mem { // an index in memory
		if a.Op == "alloc" && a.T != nil && isNum(deref(a.T)) && v.Op == "aff" && r.same(v, tAdd(idx, tInt(1))) {
			ok = true
		}
	}
	r.expect(ok, "order", "next", "the objects are not taken one after another from the least used one")
	r.pos[list] = append(r.pos[list], idx)
	// what it was before the round
	st0 := newState()
	old := func(n string) *Term { return r.field(st0, it, r.item, n) }
	_ = el
	a0, v0 := r.roundOld("amount"), r.roundOld("volume")
	r.expect(r.same(r.field(st, r.self, r.cache, "amount"), tAdd(a0, tInt(-1))), "removed", "amount", "the amount becomes %s", r.field(st, r.self, r.cache, "amount"))
	val := old("val")
	lv := r.field(st, r.self, r.cache, "volume")
	r.expect(lenLess(lv, v0, val), "removed", "volume", "the volume becomes %s", lv)
	// its key
	for _, ev := range r.evs[start:] {
		if ev.Kind == "mapdelete" && r.isItems(ev.Addr) {
			key = ev.Args[0]
		}
	}
	pend := tSub(old("cc"), old("rc"))
	sum := tInt(0)
	for _, ev := range r.db("Inc") {
		sum = tAdd(sum, ev.Args[2])
		key2 := ev.Args[1]
		if key != nil {
			r.expect(r.same(key, key2), "removed", "one object", "the count of another object is written")
		}
		key = key2
		r.expect(st.IsNil(lastRes(ev)) == yes, "removed", "failure", "cleaning goes on after a failure")
	}
	r.expect(eqLoose(st, sum, pend), "removed", "written", "%s is written for an object, not what is pending", sum)
	if key != nil {
		r.expect(idxOf(key) != nil && idxOf(key) == idxOf(it), "removed", "key", "%s leaves for %s", key, it)
	}
	del := 0
	for _, ev := range r.evs[start:] {
		if ev.Kind == "mapdelete" && r.isItems(ev.Addr) {
			del++
		}
	}
	switch truthLoose(st, tEq(old("fc"), tInt(0))) {
	case yes:
		r.expect(del == 1, "removed", "gone", "an object is deleted %d times", del)
		r.seen["gone"] = true
	case no:
		r.expect(del == 0, "removed", "kept for fillers", "an object of a filler is deleted")
		nv := r.field(st, it, r.item, "val")
		r.expect(st.IsNil(nv) == yes || isZero(nv), "removed", "value", "the value of an object of a filler stays")
		ncc, nrc := r.field(st, it, r.item, "cc"), r.field(st, it, r.item, "rc")
		r.expect(r.same(ncc, nrc), "removed", "nothing pending", "what is written stays pending")
		r.expect(looseEq(r.field(st, it, r.item, "fc"), old("fc")), "removed", "fillers", "the part of fillers changes")
		r.seen["kept for fillers"] = true
	default:
		r.bad("removed", "fillers", "whether a filler has the object is not regarded")
	}
	// needed
	vol := mk("param", r.f.Params[1].Name(), r.f.Params[1].Type())
	need := st.Truth(tLt(a0, r.field(st0, r.self, r.cache, "amountc"), false)) == no && ever(st, tLt(r.confFld(st0, "CacheMaxAmount"), tAdd(a0, tInt(1)), false), yes)
	if need {
		r.seen["by amount"] = true
	}
	over := st.Truth(tLt(r.field(st0, r.self, r.cache, "volumec"), tAdd(v0, vol), false)) == yes && ever(st, tLt(tAdd(v0, vol), r.confFld(st0, "CacheMaxVolume"), false), no)
	if over {
		r.seen["by volume"] = true
	}
	r.expect(need || over, "room", "needed", "an object leaves although there is room")
}

// roundOld: the value of a field of the cache a round begins with
func (r *cleanRun) roundOld(n string) *Term {
	var out *Term
	for _, ev := range r.evs {
		if ev.Kind == "store" && ev.Addr.Op == "field" && ev.Addr.Aux == n && ev.Addr.Args[0] == r.self {
			ev.Val.any(func(y *Term) bool {
				if y.Op == "load" && y.Args[0] == ev.Addr {
					out = y
				}
				return false
			})
		}
	}
	if out == nil {
		out = r.field(newState(), r.self, r.cache, n)
	}
	return out
}

// isRest: a list without its first element
func isRest(v, list *Term) bool {
	return v.Op == "slice" && v.Args[0] == list && v.Args[1] == tInt(1) && (len(v.Args) < 3 || v.Args[2].Op == "none" || v.Args[2] == tNone)
}

// idxOf: the element of a list a term is read from
func idxOf(t *Term) *Term {
	for t != nil {
		switch t.Op {
		case "idx":
			return t
		case "load", "field", "deref", "conv":
			t = t.Args[0]
		default:
			return nil
		}
	}
	return nil
}

// loose: terms without the time of their reading
func looseEq(a, b *Term) bool { return timeless(a) == timeless(b) }

// timeless: a term as if everything was read at the beginning
func timeless(t *Term) *Term {
	return rewrite(t, func(t *Term) *Term {
		if t.Op == "load" && t.Aux != "" {
			return mk("load", "", t.T, t.Args...)
		}
		if t.Op == "len" && t.Aux != "" {
			return mk("len", "", t.T, t.Args...)
		}
		return t
	})
}

func isSliceTerm(t *Term) bool {
	if t.T == nil {
		return false
	}
	_, ok := t.T.Underlying().(*types.Slice)
	return ok
}

// rewrite rebuilds a term from below
func rewrite(t *Term, f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t == nil {
			return nil
		}
		if x, ok := memo[t]; ok {
			return x
		}
		memo[t] = t
		x := t
		if t.Op == "aff" {
			x = tInt(t.C)
			for _, l := range t.Lin {
				x = tAdd(x, tScale(rec(l.t), l.k))
			}
			if x.T == nil {
				x.T = t.T
			}
		} else {
			args := make([]*Term, len(t.Args))
			diff := false
			for i, a := range t.Args {
				args[i] = rec(a)
				diff = diff || args[i] != a
			}
			if diff {
				switch t.Op {
				case "le0":
					x = tLe0(args[0])
				case "eq0":
					x = tEq(args[0], tInt(0))
				case "eq":
					x = tEq(args[0], args[1])
				case "not":
					x = tNot(args[0])
				case "slice":
					x = mk("slice", "", t.T, args...)
					if args[1] == tInt(0) && args[2] == tNone && isSliceTerm(args[0]) {
						x = args[0]
					} else if args[0].Op == "slice" {
						hi := args[2]
						if hi == tNone {
							hi = args[0].Args[2]
						} else {
							hi = tAdd(args[0].Args[1], hi)
						}
						x = mk("slice", "", t.T, args[0].Args[0], tAdd(args[0].Args[1], args[1]), hi)
					}
				default:
					x = mk(t.Op, t.Aux, t.T, args...)
					x.C, x.Fn = t.C, t.Fn
					if x.Obj == nil {
						x.Obj = t.Obj
					}
				}
			}
		}
		x = f(x)
		memo[t] = x
		return x
	}
	return rec(t)
}

type oneFact struct {
	t *Term
	v bool
}

// factsOf: what is known, timeless
func factsOf(st *State) (out []oneFact) {
	for f, v := range st.facts.b {
		out = append(out, oneFact{timeless(f), v})
	}
	for f, iv := range st.facts.iv {
		f = timeless(f)
		if iv.lo > negInf {
			out = append(out, oneFact{tLe0(tSub(tInt(iv.lo), f)), true})
		}
		if iv.hi < posInf {
			out = append(out, oneFact{tLe0(tSub(f, tInt(iv.hi))), true})
		}
	}
	for k := range st.facts.ne {
		out = append(out, oneFact{tEq(timeless(k.t), tInt(k.c)), false})
	}
	return
}

// truthLoose: whether something holds of what was read at some time
func truthLoose(st *State, t *Term) tri {
	if tt := st.Truth(t); tt != unknown {
		return tt
	}
	out := newState()
	for _, f := range factsOf(st) {
		out.assume(f.t, f.v)
	}
	return out.Truth(timeless(t))
}

// ever: did something hold at some time
func ever(st *State, t *Term, is tri) bool {
	if st.Truth(t) == is {
		return true
	}
	t = timeless(t)
	for _, f := range factsOf(st) {
		one := newState()
		if one.assume(f.t, f.v) && one.Truth(t) == is {
			return true
		}
	}
	return false
}

// eqLoose: equal, apart from the time of reading
func eqLoose(st *State, a, b *Term) bool {
	return st.Eq(a, b) || truthLoose(st, tEq(a, b)) == yes
}

// lenLess: a volume less the length of a value
func lenLess(v, v0, val *Term) bool {
	d := tSub(v0, v)
	return d.Op == "len" && looseEq(d.Args[0], val)
}

// ordered: sorting by points, the least first
func (r *cleanRun) ordered() {
	for _, ev := range r.evs {
		if ev.Kind != "call" || !strings.HasPrefix(ev.Name, "sort.Slice") || len(ev.Args) < 2 || ev.Args[1].Op != "closure" && ev.Args[1].Op != "func" {
			continue
		}
		fn := closureFn(r.c.P, ev.Args[1])
		if fn == nil {
			continue
		}
		r.seen["ordered"] = true
		w := r.walker()
		i, j := mk("param", "i", types.Typ[types.Int]), mk("param", "j", types.Typ[types.Int])
		for _, e := range w.Run(fn, []*Term{i, j}, ev.Args[1].Args, r.st.clone()) {
			if e.Panic {
				continue
			}
			for _, out := range []bool{true, false} {
				st := e.St.clone()
				if !st.assume(e.Rets[0], out) {
					continue
				}
				pt := func(k *Term) (p *Term) {
					e.Rets[0].any(func(y *Term) bool {
						if isF(y, r.fPoints, nil) && y.any(func(z *Term) bool { return z == k }) {
							p = y
						}
						return false
					})
					return
				}
				pi, pj := pt(i), pt(j)
				if !r.expect(pi != nil && pj != nil, "order", "points", "the order is not by points") {
					continue
				}
				lt := st.Truth(tLt(unconv(pi), unconv(pj), false))
				if out {
					r.expect(lt == yes || st.Truth(tLt(unconv(pj), unconv(pi), false)) == no, "order", "least first", "what is used more may come first")
				} else {
					r.expect(st.Truth(tLt(unconv(pi), unconv(pj), false)) == no, "order", "least first, else", "what is used less may come last")
				}
			}
		}
		r.c.Done(w)
	}
}

// room: cleaning down
func (r *cleanRun) room() {
	st := r.st
	st0 := newState()
	err := r.e.Rets[0]
	sorted, first := -1, -1
	for i, ev := range r.evs {
		switch {
		case ev.Kind == "call" && strings.HasPrefix(ev.Name, "sort."):
			sorted = i
		case ev.Kind == "store" && ev.Addr.Op == "field" && ev.Addr.Aux == "amount" && first < 0:
			first = i
		}
	}
	r.expect(sorted >= 0 && (first < 0 || sorted < first), "order", "sorted", "objects leave before they are ordered")
	r.ordered()
	for _, ev := range r.db("Inc") {
		e := lastRes(ev)
		if st.IsNil(e) == no {
			r.expect(r.same(err, e), "removed", "failure told", "a failure is reported as %s", err)
			r.unchanged(ev, "removed")
			r.seen["failure"] = true
		}
	}
	if st.IsNil(err) == no {
		return
	}
	r.expect(st.IsNil(err) == yes, "removed", "success", "success is reported as %s", err)
	done := false
	for l, ks := range r.pos {
		for _, k := range ks {
			done = done || st.Truth(tLt(k, r.w.lenOf(st, l, l.T), false)) == no
		}
	}
	vol := mk("param", r.f.Params[1].Name(), r.f.Params[1].Type())
	fa, fv := r.field(st0, r.self, r.cache, "amount"), tAdd(r.field(st0, r.self, r.cache, "volume"), vol)
	amount := ever(st, tLt(r.confFld(st0, "CacheMaxAmount"), tAdd(fa, tInt(1)), false), no) || ever(st, tLt(fa, r.field(st0, r.self, r.cache, "amountc"), false), yes)
	r.expect(done || amount, "room", "amount", "cleaning ends without room for another object")
	volume := ever(st, tLt(fv, r.confFld(st0, "CacheMaxVolume"), false), yes) || ever(st, tLt(r.field(st0, r.self, r.cache, "volumec"), fv, false), no)
	r.expect(done || volume, "room", "volume", "cleaning ends without room for the value")
	if done {
		r.seen["all"] = true
	} else {
		r.seen["room"] = true
	}
}

// unchanged: nothing of the cache changes after a failure
func (r *cleanRun) unchanged(fail *Event, rule string) {
	after := false
	for _, ev := range r.evs {
		if after && (ev.Kind == "mapdelete" || ev.Kind == "mapupdate" || ev.Kind == "store" && ev.Addr.Op == "field" && (ev.Addr.Args[0] == r.self || ev.Addr.Args[0].T != nil && types.Identical(deref(ev.Addr.Args[0].T), r.item))) {
			r.bad(rule, "after a failure", "an object whose count could not be written leaves")
		}
		after = after || ev == fail
	}
}

// isTouch: points are given to
func (r *cleanRun) touched(addr func(a *Term) bool) (n int) {
	for _, ev := range r.evs {
		if ev.Kind == "call" && ev.Static == r.touch && addr(ev.Args[0]) {
			n++
			r.expect(len(ev.Args) > 1 && looseEq(ev.Args[1], r.confFld(newState(), "CachePolicy")), "points", "policy", "points are given by another policy")
		}
	}
	return
}

func (r *cleanRun) pointsOf(a, it *Term, f string) bool {
	return a.Op == "field" && a.Aux == f && a.Args[0] == it
}

// regBack: looking for the registry with the least points
func (r *cleanRun) regBack(g *ssa.Function, head *ssa.BasicBlock, env map[ssa.Value]*Term) {
	st := r.st
	cur, _ := r.cur(head)
	if cur == nil || !isF(cur.Addr, r.fRegs, nil) {
		return
	}
	var k0, k1, p0, p1, f0 *Term
	first := false
	for _, in := range head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var v *Term
		for i, p := range head.Preds {
			if p == r.w.BackFrom {
				v = r.w.tryVal(nil, env, ph.Edges[i])
			} else if c, ok := ph.Edges[i].(*ssa.Const); ok && !r.w.fi(g).loops[head][p] && isBool(ph.Type()) && c.Value != nil {
				first = c.Value.String() == "true"
			}
		}
		switch {
		case typeName(ph.Type()) == "RegistryRef":
			k0, k1 = env[ph], v
		case isBool(ph.Type()):
			f0 = env[ph]
			if v != nil {
				r.expect(first && st.Truth(v) == no || !first && st.Truth(v) == yes, "registries", "least: first", "every registry counts as the first one")
			}
		case isNum(ph.Type()):
			p0, p1 = env[ph], v
		}
	}
	if k0 == nil { // in memory
		for a, v := range st.mem {
			if a.Op == "alloc" && a.T != nil {
				switch {
				case typeName(deref(a.T)) == "RegistryRef":
					k1 = v
				}
			}
		}
	}
	if !r.expect(k0 != nil && p0 != nil && k1 != nil && p1 != nil, "registries", "least: known", "how the registry to leave is found is not known") {
		return
	}
	r.minKey[k0] = true
	r.minKey[k1] = true
	pts := r.field(st, cur.Args[1], r.regItem, r.fRegPoints)
	isFirst := unknown
	if f0 != nil {
		isFirst = st.Truth(f0)
		if !first && isFirst != unknown {
			isFirst = triNot(isFirst)
		}
	}
	switch {
	case k1 == cur.Args[0] && (p1 == pts || r.same(p1, pts)):
		r.expect(isFirst == yes || st.Truth(tLt(p0, pts, false)) == no, "registries", "least: taken", "a registry leaves although another one is used less")
		r.seen["least"] = true
	case k1 == k0 && p1 == p0:
		r.expect(isFirst == no && st.Truth(tLt(pts, p0, false)) == no, "registries", "least: passed", "a registry used less is passed over")
	default:
		r.bad("registries", "least: pair", "the registry to leave becomes %s with the points %s", k1, p1)
	}
}

// registry changes
func (r *cleanRun) kept(reg *Term, must bool) {
	st := r.st
	isRs := func(m *Term) bool { return isF(m, r.fRegs, nil) }
	limit := r.confFld(newState(), "CacheRegistries")
	var ups, dels []*Event
	var rs *Term
	refs := map[*Term]bool{}
	for _, ev := range r.evs {
		switch {
		case ev.Kind == "mapupdate" && isRs(ev.Addr):
			ups = append(ups, ev)
		case ev.Kind == "mapdelete" && isRs(ev.Addr):
			dels = append(dels, ev)
		case ev.Kind == "call" && strings.HasSuffix(ev.Name, "registry.Registry).Reference") && ev.Args[0] == reg:
			refs[ev.Res] = true
		}
	}
	rs = r.field(newState(), r.self, r.cache, r.fRegs)
	isRef := func(k *Term) bool { return refs[k] }
	if truthLoose(st, tLt(tInt(0), limit, false)) == no {
		r.expect(len(ups)+len(dels) == 0, "registries", "none", "registries are kept although none have to be")
		r.seen["none kept"] = true
		return
	}
	if len(ups)+len(dels) > 0 {
		r.expect(truthLoose(st, tLt(tInt(0), limit, false)) == yes, "registries", "none: told", "a registry is kept although none may have to be")
	}
	here := unknown
	for k := range refs {
		if p := present(st, isRs, k); p != unknown {
			here = p
		}
	}
	if here == yes && len(ups) == 0 {
		r.expect(len(dels) == 0, "registries", "known: others", "a registry leaves although there is nothing to keep")
		r.expect(r.touched(func(a *Term) bool {
			if a.Op != "field" || a.Aux != r.fRegPoints {
				return false
			}
			m, k := elemOf(a.Args[0])
			return m != nil && isRs(m) && isRef(k)
		}) == 1, "points", "known registry", "using a registry gives no points to it")
		r.seen["registry known"] = true
		return
	}
	if !r.expect(len(ups) == 1 && isRef(ups[0].Args[0]), "registries", "kept", "a registry is not kept by its reference") {
		return
	}
	it := ups[0].Val
	r.expect(r.field(st, it, r.regItem, r.fReg) == reg, "registries", "kept: which", "another registry is kept")
	r.expect(r.touched(func(a *Term) bool { return r.pointsOf(a, it, r.fRegPoints) }) == 1, "points", "new registry", "a registry kept gets no points")
	n := r.w.lenOf(st, rs, rs.T)
	full := triNot(truthLoose(st, tLt(n, limit, false)))
	if full == unknown {
		full = truthLoose(st, tEq(n, limit))
	}
	switch {
	case len(dels) == 0:
		r.expect(full == no, "registries", "limit", "more registries may be kept than allowed")
		r.seen["registry kept"] = true
	default:
		r.expect(len(dels) == 1 && full == yes, "registries", "room", "%d registries leave although there may be room", len(dels))
		r.expect(r.minKey[dels[0].Args[0]], "registries", "least", "not the least used registry leaves")
		r.seen["registry replaced"] = true
	}
	if must {
		r.seen["fetched kept"] = true
	}
}

// looked: Cache.Registry
func (r *cleanRun) looked() {
	st := r.st
	ref := mk("param", r.f.Params[1].Name(), r.f.Params[1].Type())
	isRs := func(m *Term) bool { return isF(m, r.fRegs, nil) }
	reg, err := r.e.Rets[0], r.e.Rets[1]
	var dec *Event
	for _, ev := range r.evs {
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, "registry.DecodeRegistry") {
			dec = ev
		}
	}
	switch present(st, isRs, ref) {
	case yes:
		if dec != nil {
			return // found after it was decoded
		}
		if isF(reg, r.fReg, nil) {
			m, k := elemOf(reg.Args[0].Args[0])
			r.expect(m != nil && isRs(m) && k == ref && st.IsNil(err) == yes, "lookup", "cached", "another registry is given")
			r.expect(r.touched(func(a *Term) bool { return r.pointsOf(a, reg.Args[0].Args[0], r.fRegPoints) }) == 1, "points", "registry", "using a registry gives no points to it")
			r.seen["lookup cached"] = true
			return
		}
		r.bad("lookup", "cached", "%s is given for a registry that is cached", reg)
	default:
		if st.IsNil(err) == yes && dec == nil {
			r.bad("lookup", "decoded", "%s is given as the registry", reg)
			return
		}
		if dec == nil {
			r.expect(st.IsNil(err) == no, "lookup", "failure", "a failure is reported as %s", err)
			r.seen["lookup failed"] = true
			return
		}
		ok := false
		dec.Args[0].any(func(y *Term) bool { return y == ref })
		for _, ev := range r.evs { // its value is looked for
			for _, a := range ev.Args {
				ok = ok || unconv(a) == ref
			}
		}
		for _, t := range factTerms(st) {
			ok = ok || t.Op != "" && t.any(func(y *Term) bool {
				m, k := elemOf(y)
				return m != nil && r.isItems(m) && unconv(k) == ref
			})
		}
		r.expect(ok, "lookup", "which", "another registry is looked for")
		if st.IsNil(lastRes(dec)) != yes {
			r.expect(r.same(err, lastRes(dec)), "lookup", "broken", "a broken registry is reported as %s", err)
			r.seen["lookup broken"] = true
			return
		}
		r.expect(st.IsNil(err) == yes && r.same(reg, dec.Res.Args[0]), "lookup", "given", "%s is given as the registry", reg)
		r.kept(dec.Res.Args[0], true)
	}
}

// closeBack: a round of closing
func (r *cleanRun) closeBack(g *ssa.Function, head *ssa.BasicBlock, env map[ssa.Value]*Term) {
	cur, _ := r.cur(head)
	if cur == nil || !r.isItems(cur.Addr) {
		return
	}
	st := r.st
	it := cur.Args[1]
	st0 := newState()
	old := func(n string) *Term { return r.field(st0, it, r.item, n) }
	fw := old("fwant")
	wanted := triNot(truthLoose(st, tEq(r.w.lenOf(newState(), fw, fw.T), tInt(0))))
	sum := tInt(0)
	for _, ev := range r.db("Inc") {
		r.expect(ev.Args[1] == cur.Args[0], "close", "key", "the count of another object is written")
		sum = tAdd(sum, ev.Args[2])
		r.expect(st.IsNil(lastRes(ev)) == yes, "close", "goes on", "closing goes on after a failure")
	}
	switch wanted {
	case yes:
		r.expect(sum == tInt(0), "close", "wanted", "a count is written for an object that is not there")
		r.seen["closing wanted"] = true
	case no:
		want := tSub(tSub(old("cc"), old("fc")), old("rc"))
		r.expect(eqLoose(st, sum, want), "close", "written", "%s is written for an object, not what is pending less the part of fillers", sum)
		r.seen["closing"] = true
	default:
		r.bad("close", "wanted", "whether an object is wanted is not regarded")
	}
}

func (r *cleanRun) closed() {
	st := r.st
	err := r.e.Rets[0]
	var cl *Event
	n, stat := 0, 0
	over := false
	for _, ev := range r.evs {
		switch {
		case ev.Kind == "call" && strings.HasSuffix(ev.Name, "data.CXDS.Close"):
			cl = ev
			n++
			r.expect(over, "close", "order", "the store is closed before what is pending is written")
		case ev.Kind == "call" && strings.HasSuffix(ev.Name, "cxdsStat).Close"):
			stat++
		case ev.Kind == "rangeend" && r.isItems(ev.Addr):
			over = true
		}
	}
	for _, ev := range r.db("Inc") {
		if st.IsNil(lastRes(ev)) == no {
			r.expect(r.same(err, lastRes(ev)), "close", "failure", "a failure is reported as %s", err)
			r.unchanged(ev, "close")
			r.seen["close failure"] = true
			return
		}
	}
	if r.expect(n == 1, "close", "store", "the store is closed %d times", n) {
		r.expect(r.same(err, cl.Res), "close", "told", "closing the store is reported as %s", err)
	}
	r.expect(stat == 1, "close", "statistic", "the statistic is closed %d times", stat)
	r.seen["close ended"] = true
}

// touchRule: points by policy
func (x *cleanCtx) touchRule() {
	f := x.touch
	w := x.walker()
	w.Opaque, w.Model = nil, nil
	x.w = w
	self := mk("param", "points", f.Params[0].Type())
	pol := mk("param", "policy", f.Params[1].Type())
	lru, lfu := x.c.P.constOf("skyobject", "LRU"), x.c.P.constOf("skyobject", "LFU")
	if lru == nil || lfu == nil {
		x.c.Anchor("skyobject.LRU, LFU")
		return
	}
	for _, e := range w.Run(f, []*Term{self, pol}, nil, nil) {
		at := x.c.at(e.Instr)
		st := e.St
		v0 := w.load(newState(), self, deref(self.T))
		v := w.load(st, self, deref(self.T))
		switch {
		case st.Eq(pol, lru):
			if x.c.Expect(!e.Panic, "points", "LRU", at, "the policy LRU is not known") {
				ok := v.any(func(y *Term) bool { return strings.Contains(y.Aux, "time.Now") }) && v.any(func(y *Term) bool { return strings.Contains(y.Aux, ").Unix") })
				x.c.Expect(ok, "points", "LRU: time", at, "the points become %s by use", v)
				x.seen["LRU"] = true
			}
		case st.Eq(pol, lfu):
			if x.c.Expect(!e.Panic, "points", "LFU", at, "the policy LFU is not known") {
				x.c.Expect(st.Eq(v, tAdd(v0, tInt(1))), "points", "LFU: uses", at, "the points become %s by use", v)
				x.seen["LFU"] = true
			}
		}
	}
	x.c.Done(w)
}

// usesRule: use of a cached value gives points to it
func (x *cleanCtx) usesRule() {
	for _, f := range x.entries {
		k := x.kind(f)
		if k == "" || k == "cached" || k == "unwant" || k == "setwanted" {
			continue
		}
		if !f.Object().Exported() {
			continue
		}
		x.run(f, icCached, func(r *cacheRun) {
			if r.e.Panic || len(r.e.Rets) == 0 || r.st.IsNil(r.e.Rets[len(r.e.Rets)-1]) != yes || !r.lives {
				return
			}
			n := 0
			for _, ev := range r.evs {
				if ev.Kind == "call" && ev.Static == x.touch && ev.Args[0].Op == "field" && ev.Args[0].Args[0] == r.it {
					n++
				}
			}
			ok := n == 1 || k == "finc" && n <= 1
			x.c.Expect(ok, "points", "use: "+f.Name(), x.c.P.pos(f.Pos()), "using a cached value by %s gives points to it %d times", f.Name(), n)
			if n == 1 {
				x.seen["use "+k] = true
			}
		})
	}
}

func checkC02(c *Ctx) {
	c.Rule("candidates", "every cached value that is neither wanted nor being filled, and no other, may leave", 3)
	c.Rule("order", "the least used leave first, one after another", 4)
	c.Rule("removed", "what leaves has its pending count written, once, and amount and volume follow", 8)
	c.Rule("room", "values leave until there is room, or nothing is left, and no longer", 3)
	c.Rule("points", "use gives points, by the policy", 6)
	c.Rule("registries", "at most as many registries as allowed are kept; the least used one leaves", 6)
	c.Rule("lookup", "a registry is the cached one, or decoded from its value and kept", 5)
	c.Rule("close", "closing writes what is pending less the part of fillers, then closes the store", 5)
	x := newCleanCtx(c)
	if x == nil {
		return
	}
	m := func(n string) *ssa.Function {
		f := c.P.Method("skyobject", "Cache", n)
		if f == nil {
			c.Anchor("skyobject.Cache." + n)
		}
		return f
	}
	x.go1(x.clean, (*cleanRun).room, (*cleanRun).roomBack)
	if f := m("AddRegistryToCache"); f != nil {
		x.go1(f, func(r *cleanRun) { r.kept(mk("param", f.Params[1].Name(), f.Params[1].Type()), false) }, (*cleanRun).regBack)
	}
	if f := m("Registry"); f != nil {
		x.go1(f, (*cleanRun).looked, (*cleanRun).regBack)
	}
	if f := m("Close"); f != nil {
		x.go1(f, (*cleanRun).closed, (*cleanRun).closeBack)
	}
	x.touchRule()
	x.usesRule()
	for _, s := range []string{"candidate", "wanted", "filling", "gone", "kept for fillers", "by amount", "by volume", "ordered", "failure", "all", "room", "least", "none kept", "registry known", "registry kept", "registry replaced", "fetched kept", "lookup cached", "lookup failed", "lookup broken", "closing wanted", "closing", "close failure", "close ended", "LRU", "LFU", "use get", "use inc", "use set", "use want", "use finc"} {
		c.Expect(x.seen[s], "room", "case "+s, c.P.pos(x.cache.Obj().Pos()), "there is no way for the case %q", s)
	}
	c.Assume("amount and volume are those of the cached values (C01)")
	c.Assume("the reference of a registry decoded is the hash of its value")
}

func triNot(t tri) tri {
	switch t {
	case yes:
		return no
	case no:
		return yes
	}
	return unknown
}

// constOf: an integer constant of a package
func (p *Prog) constOf(pkg, name string) *Term {
	for _, sp := range p.SSA.AllPackages() {
		if sp.Pkg.Path() == modPath+"/"+pkg {
			if k, ok := sp.Members[name].(*ssa.NamedConst); ok {
				if n, ok := constant.Int64Val(k.Value.Value); ok {
					return tInt(n)
				}
			}
		}
	}
	return nil
}
