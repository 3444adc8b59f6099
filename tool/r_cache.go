package main

// The cache over the object store: counts of references, fillers, what is
// cached and what is wanted.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", "The cache keeps values and counts of references as the object store would",
		"Every path of every method of the cache is enumerated for an object that is not in the cache, wanted, being filled and cached. The count the store has together with what is pending in the cache has to change by exactly the given amount; what is returned, delivered and cached is compared with it.", checkC01)
}

type cacheCtx struct {
	c       *Ctx
	cache   *types.Named
	item    *types.Named
	clean   *ssa.Function // cleaning down
	self    *Term
	seen    map[string]bool
	entries []*ssa.Function
}

// itemCase: what the cache has for the key
type itemCase string

const (
	icAbsent  itemCase = "not in the cache"
	icWanted  itemCase = "wanted"
	icFilling itemCase = "filling"
	icCached  itemCase = "cached"
)

var itemCases = []itemCase{icAbsent, icWanted, icFilling, icCached}

func newCacheCtx(c *Ctx) *cacheCtx {
	x := &cacheCtx{c: c, cache: c.P.Named("skyobject", "Cache"), seen: map[string]bool{}}
	if x.cache == nil {
		c.Anchor("skyobject.Cache")
		return nil
	}
	i, ft := fieldIndex(x.cache, "is")
	if i < 0 {
		c.Anchor("skyobject.Cache.is")
		return nil
	}
	if m, ok := ft.Underlying().(*types.Map); ok {
		x.item, _ = deref(m.Elem()).(*types.Named)
	}
	if x.item == nil {
		c.Anchor("skyobject: the items of the cache")
		return nil
	}
	for _, f := range []string{"fwant", "fc", "cc", "rc", "val"} {
		if i, _ := fieldIndex(x.item, f); i < 0 {
			c.Anchor("skyobject.item." + f)
			return nil
		}
	}
	for _, f := range []string{"amount", "volume", "enable", "c"} {
		if i, _ := fieldIndex(x.cache, f); i < 0 {
			c.Anchor("skyobject.Cache." + f)
			return nil
		}
	}
	x.self = mk("param", "c", types.NewPointer(x.cache))
	// cleaning down: the innermost method that goes through the items and
	// writes what is pending, other than closing
	var all []*ssa.Function
	for _, f := range c.P.Funcs {
		if f.Synthetic == "" && f.Parent() == nil && f.Signature.Recv() != nil && types.Identical(deref(f.Signature.Recv().Type()), x.cache) {
			all = append(all, f)
		}
	}
	cleans := func(f *ssa.Function) bool {
		if f.Signature.Params().Len() == 1 && f.Signature.Results().Len() == 1 && f.Signature.Params().At(0).Type().String() == "int" && f.Signature.Results().At(0).Type().String() == "error" {
			for g := range c.P.Reach(f) {
				if x.rangesItems(g) {
					return true
				}
			}
			return x.rangesItems(f)
		}
		return false
	}
	for _, f := range all {
		if cleans(f) {
			inner := false
			for g := range c.P.Reach(f) {
				inner = inner || g != f && cleans(g)
			}
			if !inner {
				x.clean = f
			}
		}
	}
	if x.clean == nil {
		c.Anchor("skyobject: cleaning of the cache")
		return nil
	}
	// entries: methods by key that are not called by other methods
	called := map[*ssa.Function]bool{}
	for _, f := range all {
		for _, g := range c.P.edges(f) {
			called[g] = true
		}
	}
	for _, f := range all {
		ps := f.Signature.Params()
		if ps.Len() > 0 && typeName(ps.At(0).Type()) == "SHA256" && (!called[f] || f.Object().Exported()) {
			x.entries = append(x.entries, f)
		}
	}
	return x
}

func (x *cacheCtx) rangesItems(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Range); ok {
				if m, ok := r.X.Type().Underlying().(*types.Map); ok && types.Identical(deref(m.Elem()), x.item) {
					return true
				}
			}
		}
	}
	return false
}

// kind of a method, by its signature
func (x *cacheCtx) kind(f *ssa.Function) string {
	s := f.Signature
	var k []string
	for i := 1; i < s.Params().Len(); i++ {
		t := s.Params().At(i).Type()
		switch u := t.Underlying().(type) {
		case *types.Chan:
			k = append(k, "chan")
		case *types.Slice:
			k = append(k, "val")
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				k = append(k, "inc")
			}
		default:
			k = append(k, "?")
		}
	}
	k = append(k, "->")
	for i := 0; i < s.Results().Len(); i++ {
		t := s.Results().At(i).Type()
		switch {
		case t.String() == "error":
			k = append(k, "err")
		case isBytes(t):
			k = append(k, "val")
		case isBool(t):
			k = append(k, "bool")
		default:
			k = append(k, "rc")
		}
	}
	switch strings.Join(k, " ") {
	case "inc -> val rc err":
		return "get"
	case "inc -> rc err":
		return "inc"
	case "val inc -> rc err":
		return "set"
	case "chan inc -> err":
		return "want"
	case "chan ->":
		return "unwant"
	case "val -> rc err":
		return "setwanted"
	case "inc -> err":
		return "finc"
	case "-> bool":
		return "cached"
	}
	return ""
}

func (x *cacheCtx) walker() *Walker {
	w := x.c.P.NewWalker()
	w.SamePkg, w.Split = true, true
	w.AnyRound, w.Loops = true, 1
	w.MaxStates = 3000
	w.OnEvent = anyEvent
	w.Opaque = func(g *ssa.Function) bool {
		if r := g.Signature.Recv(); r != nil {
			switch typeName(deref(r.Type())) {
			case "cxdsStat", "cachePoints":
				return true
			}
		}
		return false
	}
	w.Model = func(st *State, ev *Event, args []*Term) (*Term, bool) {
		if ev.Static == x.clean { // its own contract
			res := mk("call", "cleaning", nil, mk("site", x.c.at(ev.Instr), nil))
			st.assume(tEq(res, mk("sentinel", modPath+"/data.ErrNotFound", nil)), false)
			return res, true
		}
		return nil, false
	}
	return w
}

// cacheRun: one method in one case
type cacheRun struct {
	*cacheCtx
	w              *Walker
	f              *ssa.Function
	kind           string
	cs             itemCase
	st0            *State
	key, val, inc  *Term
	ch             *Term
	is             *Term
	it0            *Term
	mt             *types.Map
	fc0, cc0, rc0  *Term
	val0, want0    *Term
	amount0, vol0  *Term
	name, where    string
	conf, maxSize  *Term
	e              *Exit
	st             *State
	evs            []*Event
	gone           bool  // no entry any more
	it             *Term // the item at the end
	fc, cc, rc     *Term
	valE, wantE    *Term
	lives          bool // has a value at the end
	ops            []*Event
	total          *Term // the sum of changes in the store
	last           *Term // the count after the last of them
	failed, opened bool
	sums, heads    map[*ssa.BasicBlock]bool // loops adding up, delivering
}

func (r *cacheRun) fld(st *State, base *Term, t *types.Named, name string) *Term {
	i, ft := fieldIndex(t, name)
	return r.w.load(st, r.w.fieldAddr(base, t, i), ft)
}

func (x *cacheCtx) run(f *ssa.Function, cs itemCase, judge func(r *cacheRun)) {
	w := x.walker()
	r := &cacheRun{cacheCtx: x, w: w, f: f, kind: x.kind(f), cs: cs, name: f.Name() + ", " + string(cs), where: x.c.P.pos(f.Pos()), sums: map[*ssa.BasicBlock]bool{}, heads: map[*ssa.BasicBlock]bool{}}
	args := []*Term{x.self}
	for _, p := range f.Params[1:] {
		t := mk("param", p.Name(), p.Type())
		args = append(args, t)
		switch u := p.Type().Underlying().(type) {
		case *types.Chan:
			r.ch = t
		case *types.Slice:
			r.val = t
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				r.inc = t
			}
		default:
			r.key = t
		}
	}
	st := newState()
	i, ft := fieldIndex(x.cache, "is")
	r.mt = ft.Underlying().(*types.Map)
	r.is = w.load(st, w.fieldAddr(x.self, x.cache, i), ft)
	pres := mk("present", "", types.Typ[types.Bool], mapAddr("mappres", r.is, r.key, ft))
	r.amount0, r.vol0 = r.fld(st, x.self, x.cache, "amount"), r.fld(st, x.self, x.cache, "volume")
	st.assume(pres, cs != icAbsent)
	if cs != icAbsent {
		r.it0 = w.loadMapElem(st, mapAddr("mapelem", r.is, r.key, ft), r.mt.Elem())
		st.assume(tEq(r.it0, tNil), false)
		r.fc0, r.cc0, r.rc0 = r.fld(st, r.it0, x.item, "fc"), r.fld(st, r.it0, x.item, "cc"), r.fld(st, r.it0, x.item, "rc")
		r.val0, r.want0 = r.fld(st, r.it0, x.item, "val"), r.fld(st, r.it0, x.item, "fwant")
		nv, nw := w.lenOf(st, r.val0, r.val0.T), w.lenOf(st, r.want0, r.want0.T)
		st.assume(tEq(nv, tInt(0)), cs != icCached)
		st.assume(tEq(nw, tInt(0)), cs != icWanted)
		st.assume(tEq(r.want0, tNil), cs != icWanted)
		st.assume(tLe0(tScale(r.fc0, -1)), true)
		if cs == icFilling {
			st.assume(tLe0(tSub(tInt(1), r.fc0)), true)
		}
		if cs == icCached { // what is cached is used
			st.assume(tLe0(tSub(tInt(1), r.cc0)), true)
			st.assume(tLe0(tSub(r.fc0, r.cc0)), true)
		}
	}
	r.st0 = st
	if r.kind == "setwanted" {
		r.inc = tInt(0)
	}
	w.OnBack = func(g *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
		r.wantLoop(g, head, st, env)
	}
	for _, e := range w.Run(f, args, nil, st) {
		r.finish(e)
		judge(r)
	}
	x.c.Done(w)
}

func (r *cacheRun) isDB(ev *Event, names ...string) bool {
	if ev.Kind != "call" {
		return false
	}
	for _, n := range names {
		if ev.Name == "iface:data.CXDS."+n || strings.HasSuffix(ev.Name, "data.CXDS."+n) {
			return true
		}
	}
	return false
}

func (r *cacheRun) finish(e *Exit) {
	r.e, r.st, r.evs = e, e.St, e.St.Events()
	st := r.st
	r.it, r.gone = r.it0, r.cs == icAbsent
	r.ops, r.total, r.last, r.failed, r.opened = nil, tInt(0), nil, false, false
	for _, ev := range r.evs {
		switch {
		case ev.Kind == "mapupdate" && ev.Addr == r.is && ev.Args[0] == r.key:
			r.it, r.gone = ev.Val, false
		case ev.Kind == "mapdelete" && ev.Addr == r.is && ev.Args[0] == r.key:
			r.gone = true
		case r.isDB(ev, "Get", "Inc", "Set"):
			r.ops = append(r.ops, ev)
			n := len(ev.Args) - 1
			er, rc := ev.Res.Args[len(ev.Res.Args)-1], ev.Res.Args[len(ev.Res.Args)-2]
			switch st.IsNil(er) {
			case yes:
				r.total = tAdd(r.total, ev.Args[n])
				r.last = rc
			case no:
				r.failed = true
			default:
				r.opened = true
			}
		}
	}
	r.fc, r.cc, r.rc, r.valE, r.wantE, r.lives = nil, nil, nil, nil, nil, false
	if r.it != nil && !r.gone {
		r.fc, r.cc, r.rc = r.fld(st, r.it, r.item, "fc"), r.fld(st, r.it, r.item, "cc"), r.fld(st, r.it, r.item, "rc")
		r.valE, r.wantE = r.fld(st, r.it, r.item, "val"), r.fld(st, r.it, r.item, "fwant")
		r.lives = st.IsNil(r.valE) != yes
	}
}

func (r *cacheRun) bad(rule, what, f string, a ...interface{}) {
	r.c.Bad(rule, r.name+": "+what, r.at(), f, a...)
}

func (r *cacheRun) at() string { return r.c.at(r.e.Instr) }

func (r *cacheRun) expect(ok bool, rule, what, f string, a ...interface{}) bool {
	return r.c.Expect(ok, rule, r.name+": "+what, r.at(), f, a...)
}

// count: the number a term is, without conversions
func unconv(t *Term) *Term {
	for t != nil && (t.Op == "conv" || t.Op == "changetype") {
		t = t.Args[0]
	}
	return t
}

func (r *cacheRun) same(a, b *Term) bool {
	return a == b || a != nil && b != nil && r.st.Eq(a, b)
}

// wantLoop: rounds of loops over those that want an object
func (r *cacheRun) wantLoop(g *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
	if r.cs != icWanted {
		return
	}
	var cur *Event
	sends := 0
	bad := false
	after := false
	for _, ev := range st.Events() {
		switch ev.Kind {
		case "range":
			if ev.Addr == r.want0 {
				cur, sends, bad, after = ev, 0, false, true
			}
		case "rangeend":
			after = false
		case "send":
			if after && cur != nil && ev.Addr == cur.Args[0] {
				sends++
				bad = bad || !ev.Select
			}
		}
	}
	if cur == nil || cur.Instr.Block() != head {
		return
	}
	// the sum
	sum := false
	for _, in := range head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range head.Preds {
			if p != r.w.BackFrom {
				continue
			}
			v := r.w.tryVal(nil, env, ph.Edges[i])
			if o := env[ph]; o != nil && v != nil && isNum(ph.Type()) && v == tAdd(o, cur.Args[1]) {
				sum = true
				r.seen["sum"] = true
			}
		}
	}
	if sends == 1 && !bad {
		r.seen["delivers"] = true
	}
	if sum && sends == 0 {
		r.sums[head] = true
		return
	}
	if sends == 0 { // tried
		tried := false
		for _, ev := range st.Events() {
			tried = tried || ev.Kind == "select"
		}
		r.c.Expect(tried, "wanted", r.name+": deliver each", r.c.P.pos(g.Pos()), "an object is not delivered to all that want it, or changes are not added up")
		return
	}
	r.heads[head] = true
	r.c.Expect(sends == 1, "wanted", r.name+": deliver once", r.c.P.pos(g.Pos()), "an object is delivered %d times", sends)
	r.c.Expect(!bad, "wanted", r.name+": block", r.c.P.pos(g.Pos()), "delivering an object may block the cache")
	// what is delivered
	q := *r
	q.e, q.st, q.evs = &Exit{St: st, Instr: cur.Instr}, st, st.Events()
	var op *Event
	for _, ev := range q.evs {
		if q.isDB(ev, "Set") {
			op = ev
		}
	}
	for _, ev := range q.evs {
		if ev.Kind != "send" {
			continue
		}
		k := part(ev.Val, ev.Val.T, func(t types.Type) bool { return typeName(t) == "SHA256" })
		q.expect(k == r.key, "wanted", "delivered: key", "the object is delivered as %s", k)
		switch {
		case q.over() == yes:
			er := part(ev.Val, ev.Val.T, func(t types.Type) bool { return t.String() == "error" })
			q.expect(er != nil && strings.Contains(er.String(), "ObjectIsTooLargeError"), "size", "delivered", "those that want an object that is too large get %s", er)
		case op == nil:
			q.objectIs(ev.Val, r.val, tInt(0), "stale")
		default:
			urc := unconv(op.Res.Args[0])
			q.objectIs(ev.Val, r.val, tSub(urc, tAdd(r.fc0, tSub(op.Args[3], r.inc))), "delivered")
		}
	}
}

// over: is the object known to be larger than the maximum size
func (r *cacheRun) over() tri {
	max := r.confField("MaxObjectSize")
	if max == nil {
		return unknown
	}
	return r.st.Truth(tLt(max, r.w.lenOf(r.st, r.val, r.val.T), false))
}

func checkC01(c *Ctx) {
	c.Rule("count", "the count of references changes by exactly the given amount, never below zero, in the store or in what is pending", 12)
	c.Rule("result", "the count returned or delivered is the new one without that of fillers; the value is that of the object", 12)
	c.Rule("filler", "the count of fillers changes by Want and Finc only, as given", 12)
	c.Rule("missing", "an object that is not there or only wanted is reported as data.ErrNotFound, and Want waits for it", 6)
	c.Rule("wanted", "an object that arrives is delivered to each that wants it, once, without blocking, and is not wanted any more", 6)
	c.Rule("entry", "an entry stays exactly while it has a value, is wanted or is being filled", 12)
	c.Rule("pending", "an object leaving the cache has its pending change written", 3)
	c.Rule("cached", "only an enabled cache keeps a value, within the maximum size of an item, used, and after cleaning if it would exceed the limits; amount and volume follow", 8)
	c.Rule("size", "an object larger than the maximum size is refused, stored nowhere, and reported to all that want it", 3)
	c.Rule("failure", "a failure of the store is reported and changes nothing", 8)
	x := newCacheCtx(c)
	if x == nil {
		return
	}
	kinds := map[string]bool{}
	for _, f := range x.entries {
		k := x.kind(f)
		if k == "" {
			c.Anchor("skyobject: the kind of method of " + fname(f))
			continue
		}
		kinds[k] = true
		for _, cs := range itemCases {
			x.run(f, cs, func(r *cacheRun) { r.judge() })
		}
	}
	for _, k := range []string{"get", "inc", "set", "want", "unwant", "setwanted", "finc", "cached"} {
		c.Expect(kinds[k], "count", "method "+k, c.P.pos(x.cache.Obj().Pos()), "the cache has no method of the kind %q", k)
	}
	for _, s := range []string{"sum", "delivers", "put", "put filling", "dropped", "kept filling", "too large", "stale", "too large wanted"} {
		c.Expect(x.seen[s], "count", "case "+s, c.P.pos(x.cache.Obj().Pos()), "the cache has no way for the case %q", s)
	}
	c.Assume("the object store does what its own properties say (D01)")
	c.Assume("a cached object is in the store, so writing its pending change does not fail with data.ErrNotFound")
	c.Assume("cleaning down removes only cached objects that are neither wanted nor being filled, with their pending change written (decided by C02)")
}

func (r *cacheRun) judge() {
	st := r.st
	if r.e.Panic {
		r.panics()
		return
	}
	switch r.kind {
	case "cached":
		r.expect(len(r.ops) == 0 && st.Truth(r.e.Rets[0]) == triOf(r.cs != icAbsent), "entry", "reported", "IsCached says %s", r.e.Rets[0])
		return
	case "unwant":
		r.unwant()
		return
	}
	for _, op := range r.ops { // the store has no empty values
		if r.isDB(op, "Get") && st.Eq(r.w.lenOf(st, op.Res.Args[0], op.Res.Args[0].T), tInt(0)) {
			return
		}
	}
	var err *Term
	if n := len(r.e.Rets); n > 0 {
		err = r.e.Rets[n-1]
	}
	if r.opened {
		r.bad("failure", "regarded", "a failure of the store is not regarded")
		return
	}
	if r.failed {
		r.failure(err)
		return
	}
	inc := r.inc
	incF := tInt(0) // change of the fillers' count
	// what has to happen
	switch r.kind {
	case "want":
		incF = inc
	case "finc":
		if st.Truth(tLt(tInt(0), inc, false)) == yes { // apply
			r.apply()
			return
		}
		incF = inc
		if r.cs == icAbsent {
			r.expect(len(r.ops) == 0 && r.gone, "filler", "not there", "rejecting an object that is not in the cache changes something")
			return
		}
		if st.Eq(r.fc0, tInt(0)) {
			r.expect(len(r.ops) == 0 && r.same(r.fc, r.fc0) && r.same(r.cc, r.cc0) && r.same(r.rc, r.rc0), "filler", "no filler", "an object no filler has is changed by Finc")
			return
		}
	case "setwanted":
		if r.cs != icWanted {
			r.expect(len(r.ops) == 0 && (r.cs == icAbsent) == r.gone && st.IsNil(err) == yes && r.sameItem(), "wanted", "not wanted", "an object that is not wanted is changed by SetWanted")
			return
		}
	}
	if r.tooLarge(err) {
		return
	}
	switch r.cs {
	case icWanted:
		r.wantedCase(inc, err)
		return
	case icCached:
		r.cachedCase(inc, incF, err)
	default:
		r.storeCase(inc, incF, err)
	}
}

// sameItem: nothing of the item changed
func (r *cacheRun) sameItem() bool {
	if r.cs == icAbsent {
		return r.gone
	}
	return !r.gone && r.it == r.it0 && r.same(r.fc, r.fc0) && r.same(r.cc, r.cc0) && r.same(r.rc, r.rc0) && r.valE == r.val0 && r.wantE == r.want0
}

// panics: only calls that can't be served do
func (r *cacheRun) panics() {
	st := r.st
	ok := len(r.ops) == 0
	switch r.kind {
	case "set":
		ok = ok && st.Truth(tLt(tInt(0), r.inc, false)) == no
	case "finc":
		neg := false // more than fillers have
		if r.fc0 != nil {
			neg = st.Truth(tLt(r.fc0, r.inc, false)) == yes || st.Truth(tLt(tAdd(r.fc0, r.inc), tInt(0), false)) == yes
		}
		ok = ok && (st.Eq(r.inc, tInt(0)) || neg || r.it != nil && !r.gone && st.Truth(tLt(r.fc, tInt(0), false)) == yes)
	default:
		ok = false
	}
	// an undefined policy
	for _, ev := range r.evs {
		if ev.Kind == "panic" && strings.Contains(ev.Val.String(), "CachePolicy") {
			ok = true
		}
	}
	r.expect(ok, "count", "panic", "%s panics", r.f.Name())
}

func (r *cacheRun) failure(err *Term) {
	st := r.st
	last := r.ops[len(r.ops)-1]
	er := last.Res.Args[len(last.Res.Args)-1]
	nf := mk("sentinel", modPath+"/data.ErrNotFound", nil)
	if r.kind == "want" && st.Truth(tEq(er, nf)) == yes {
		// wanted from now on
		r.expect(st.IsNil(err) == yes, "missing", "want: error", "wanting an object that is not there is an error")
		ok := !r.gone && r.wants(r.it)
		r.expect(ok && (r.cs != icFilling || r.it == r.it0 && r.same(r.fc, r.fc0)), "missing", "want: waits", "an object that is not there does not become wanted by the given channel with the given amount")
		return
	}
	r.expect(st.IsNil(err) == no && (err == er || r.same(err, er)), "failure", "reported", "a failure of the store is not reported: %s", err)
	if r.kind == "finc" {
		return // the rejected part is lost either way
	}
	if r.cs == icCached {
		return
	}
	if r.cs == icWanted {
		r.expect(!r.gone && r.same(r.fc, r.fc0) && r.wantE == r.want0, "failure", "item", "a failure of the store changes the entry")
		return
	}
	r.expect(r.sameItem() || r.kind == "want" && r.cs == icFilling && r.same(r.fc, r.fc0) && !r.gone, "failure", "item", "a failure of the store changes the entry")
	r.expect(r.same(r.amountE(), r.amount0), "failure", "amount", "a failure of the store changes the amount of the cache")
}

func (r *cacheRun) amountE() *Term { return r.fld(r.st, r.self, r.cache, "amount") }
func (r *cacheRun) volumeE() *Term { return r.fld(r.st, r.self, r.cache, "volume") }

// wants: the item is wanted by the channel with the amount and by no other
func (r *cacheRun) wants(it *Term) bool {
	m := r.fld(r.st, it, r.item, "fwant")
	n := 0
	for _, ev := range r.evs {
		if ev.Kind == "mapupdate" && ev.Addr == m {
			n++
			if ev.Args[0] != r.ch || !r.same(ev.Val, r.inc) {
				return false
			}
		}
	}
	return n == 1 && m.Op == "makemap"
}

// apply: the part of a filler becomes a part of the object
func (r *cacheRun) apply() {
	st := r.st
	ok := len(r.ops) == 0
	if r.cs == icAbsent {
		r.expect(ok && r.gone, "filler", "apply: not there", "applying an object that is not in the cache changes something")
		return
	}
	if st.Eq(r.fc0, tInt(0)) {
		r.expect(ok && r.sameItem(), "filler", "apply: no filler", "an object no filler has is changed by Finc")
		return
	}
	fc := tSub(r.fc0, r.inc)
	zero := st.Truth(tEq(fc, tInt(0)))
	if r.gone {
		r.expect(ok && r.cs == icFilling && zero == yes, "filler", "apply: removed", "an object is removed by applying the part of a filler")
		r.seen["applied"] = true
		return
	}
	r.expect(ok && r.same(r.fc, fc), "filler", "apply", "the part of fillers becomes %s", r.fc)
	r.expect(r.same(r.cc, r.cc0) && r.same(r.rc, r.rc0) && r.valE == r.val0, "filler", "apply: item", "applying the part of a filler changes the count")
	r.expect(r.cs != icFilling || zero == no, "entry", "apply", "an entry without a value and fillers stays")
}

func (r *cacheRun) unwant() {
	st := r.st
	r.expect(len(r.ops) == 0, "wanted", "unwant: store", "the store is changed because something is not wanted any more")
	if r.cs == icAbsent {
		r.expect(r.gone, "wanted", "unwant: entry", "an entry is made")
		return
	}
	n := 0
	for _, ev := range r.evs {
		if ev.Kind == "mapdelete" && ev.Addr == r.want0 {
			n++
			r.expect(ev.Args[0] == r.ch, "wanted", "unwant: who", "%s does not want the object any more", ev.Args[0])
		}
	}
	if r.cs != icWanted {
		r.expect(!r.gone, "entry", "unwant", "an entry that is not wanted is removed")
		return
	}
	r.expect(n == 1, "wanted", "unwant", "the object is still wanted")
	nw := r.w.lenOf(st, r.want0, r.want0.T)
	_ = nw
	if r.gone {
		r.expect(st.Eq(r.fc0, tInt(0)), "entry", "unwant: filling", "an entry of a filler is removed")
		r.seen["unwanted"] = true
	} else {
		r.expect(r.same(r.fc, r.fc0), "filler", "unwant", "the part of fillers changes")
		r.expect(st.IsNil(r.wantE) != yes || !st.Eq(r.fc0, tInt(0)), "entry", "unwant: stays", "an entry without a value and fillers stays")
	}
}

// tooLarge: paths that refuse the object for its size
func (r *cacheRun) tooLarge(err *Term) bool {
	if r.val == nil || !(r.cs == icAbsent || r.cs == icWanted) {
		return false
	}
	over := r.over()
	if over == no {
		return false
	}
	if over == unknown {
		r.bad("size", "regarded", "the size of an object is not limited")
		return true
	}
	r.expect(len(r.ops) == 0 && r.gone, "size", "refused", "an object that is too large is kept")
	r.expect(err != nil && strings.Contains(err.String(), "ObjectIsTooLargeError"), "size", "error", "an object that is too large is refused by %s", err)
	if r.cs == icWanted {
		r.delivered()
		r.seen["too large wanted"] = true
	}
	r.seen["too large"] = true
	return true
}

// confField: a field of the configuration, as loaded on the path
func (r *cacheRun) confField(name string) *Term {
	var out *Term
	for _, t := range factTerms(r.st) {
		t.any(func(y *Term) bool {
			if isF(y, name, nil) {
				out = y
			}
			return false
		})
	}
	return out
}

// delivered: the object has gone to all that want it
func (r *cacheRun) delivered() {
	n := 0
	for i, ev := range r.evs {
		if ev.Kind == "rangeend" && ev.Addr == r.want0 && r.heads[ev.Instr.Block()] {
			n++
			for _, op := range r.evs[i:] {
				r.expect(!r.isDB(op, "Set"), "wanted", "delivered: stored", "an object is delivered before it is stored")
			}
		}
	}
	r.expect(n == 1, "wanted", "delivered", "an object is delivered %d times to those that want it", n)
}

func (r *cacheRun) objectIs(o, val, rc *Term, what string) {
	v := part(o, o.T, isBytes)
	n := part(o, o.T, func(t types.Type) bool { return isNumT(t) })
	er := part(o, o.T, func(t types.Type) bool { return t.String() == "error" })
	r.expect(v == val, "result", what+": value", "the value delivered is %s", v)
	r.expect(r.same(unconv(n), rc), "result", what+": count", "the count delivered is %s, not %s", n, rc)
	r.expect(r.st.IsNil(er) == yes, "result", what+": error", "an object that is there is delivered with an error")
}

// wantedCase: the object is wanted, so not in the store
func (r *cacheRun) wantedCase(inc, err *Term) {
	st := r.st
	nf := mk("sentinel", modPath+"/data.ErrNotFound", nil)
	switch r.kind {
	case "get", "inc", "finc":
		r.expect(len(r.ops) == 0 && (err == nf || r.same(err, nf)), "missing", "reported", "a wanted object is reported by %s", err)
		if r.kind != "finc" {
			r.expect(r.sameItem(), "missing", "item", "a wanted object changes by being looked for")
		}
	case "want":
		r.expect(len(r.ops) == 0 && st.IsNil(err) == yes, "missing", "want", "an object that is wanted already is looked for")
		n := 0
		for _, ev := range r.evs {
			if ev.Kind == "mapupdate" && ev.Addr == r.want0 {
				n++
				ok := ev.Args[0] == r.ch
				d := tSub(ev.Val, inc)
				m, k := elemOf(d)
				r.expect(ok && m == r.want0 && k == r.ch, "missing", "want: added", "wanting an object again sets the amount to %s", ev.Val)
			}
		}
		r.expect(n == 1 && !r.gone && r.same(r.fc, r.fc0), "missing", "want: again", "a channel is not added to those that want the object")
	case "set", "setwanted":
		if len(r.ops) == 0 {
			// nobody keeps it
			r.expect(st.IsNil(err) == yes, "wanted", "stale: error", "an object nobody keeps is an error")
			r.delivered()
			if !r.gone {
				r.expect(st.IsNil(r.wantE) == yes && st.Eq(r.fc0, tInt(0)) == false, "entry", "stale", "an entry without a value and fillers stays")
			} else {
				r.expect(st.Eq(r.fc0, tInt(0)), "entry", "stale: filling", "an entry of a filler is removed")
			}
			none := false
			for _, t := range factTerms(st) {
				t.any(func(y *Term) bool {
					if v := tSub(y, inc); strings.HasPrefix(v.Op, "phi") && st.Eq(y, tInt(0)) {
						none = true
					}
					return false
				})
			}
			r.expect(none, "count", "stale", "an object that is kept by some is not stored")
			r.seen["stale"] = true
			return
		}
		op := r.ops[0]
		if !r.expect(len(r.ops) == 1 && r.isDB(op, "Set") && op.Args[1] == r.key && op.Args[2] == r.val, "count", "stored", "a wanted object is not stored once under its key") {
			return
		}
		wincs := tSub(op.Args[3], inc)
		r.expect(wincs.Op == "phi" || strings.HasPrefix(wincs.Op, "phi") || r.isSum(wincs), "count", "wanted", "the count of a wanted object changes by %s", op.Args[3])
		r.expect(len(r.sums) > 0, "count", "sum", "what fillers want is not added up")
		fc := tAdd(r.fc0, wincs)
		hard := tSub(unconv(r.last), fc)
		r.expect(!r.gone && r.same(r.fc, fc) && st.IsNil(r.wantE) == yes, "filler", "wanted", "the part of fillers becomes %s, or the object is still wanted", r.fc)
		r.expect(r.same(r.e.Rets[0], hard), "result", "wanted", "the count returned is %s, not %s", r.e.Rets[0], hard)
		r.delivered()
		r.cachedRules(r.val, r.last, err)
	}
}

// isSum: the sum made by a loop over those that want the object
func (r *cacheRun) isSum(t *Term) bool { return t.Op == "phi" || strings.Contains(t.String(), "phi") }

// storeCase: the object is not in the cache, or has no value there
func (r *cacheRun) storeCase(inc, incF, err *Term) {
	st := r.st
	if !r.expect(len(r.ops) == 1, "count", "once", "the store is asked %d times", len(r.ops)) {
		return
	}
	op := r.ops[0]
	arg := op.Args[len(op.Args)-1]
	r.expect(op.Args[1] == r.key && r.same(arg, inc), "count", "changed", "the count of %s is changed by %s", op.Args[1], arg)
	val := op.Res.Args[0]
	if !r.isDB(op, "Get") {
		val = r.val
	}
	if r.kind == "set" && r.cs == icAbsent {
		r.expect(r.isDB(op, "Set") && op.Args[2] == r.val, "count", "stored", "an object is not stored")
	}
	fc := incF
	if r.fc0 != nil {
		fc = tAdd(r.fc0, incF)
	}
	for _, ev := range r.evs { // a failed cleaning is a failure of the store
		if ev.Kind == "call" && ev.Static == r.clean && st.IsNil(ev.Res) == no && r.kind == "want" && r.cs == icFilling {
			r.expect(err == ev.Res, "failure", "cleaning: reported", "a failed cleaning is not reported")
			return
		}
	}
	hard := tSub(unconv(r.last), fc)
	if r.kind == "finc" { // no fillers have it any more, or it is still being filled
		if r.gone {
			r.expect(r.same(fc, tInt(0)), "entry", "reject", "an entry of a filler is removed")
			r.seen["rejected"] = true
		} else {
			r.expect(r.same(r.fc, fc), "filler", "reject", "the part of fillers becomes %s", r.fc)
			if !r.lives || st.IsNil(r.valE) == yes || st.Eq(r.w.lenOf(st, r.valE, r.valE.T), tInt(0)) {
				r.expect(st.Ne(fc, tInt(0)), "entry", "reject: stays", "an entry without a value and fillers stays")
			}
		}
	} else if r.kind == "want" {
		r.expect(!r.gone && r.same(r.fc, fc) && st.IsNil(r.wantE) == yes, "filler", "want", "the part of fillers becomes %s", r.fc)
		r.sentOnce(val, hard)
	} else {
		if !r.gone {
			r.expect(r.same(r.fc, fc), "filler", "kept", "the part of fillers becomes %s", r.fc)
		} else {
			r.expect(r.cs == icAbsent, "entry", "filling", "an entry of a filler is removed")
		}
		k := 0
		if r.kind == "get" {
			k = 1
			r.expect(r.e.Rets[0] == val, "result", "value", "the value returned is %s", r.e.Rets[0])
		}
		r.expect(r.same(unconv(r.e.Rets[k]), hard), "result", "count", "the count returned is %s, not %s", r.e.Rets[k], hard)
	}
	r.cachedRules(val, r.last, err)
}

// sentOnce: the object goes to the one that wants it
func (r *cacheRun) sentOnce(val, hard *Term) {
	n := 0
	for _, ev := range r.evs {
		if ev.Kind != "send" {
			continue
		}
		n++
		r.expect(ev.Addr == r.ch && ev.Select, "wanted", "sent", "the object is sent to %s, or blocks the cache", ev.Addr)
		k := part(ev.Val, ev.Val.T, func(t types.Type) bool { return typeName(t) == "SHA256" })
		r.expect(k == r.key, "wanted", "sent: key", "the object is delivered as %s", k)
		r.objectIs(ev.Val, val, hard, "sent")
	}
	if n == 0 { // the default of the send
		return
	}
	r.seen["sent "+r.kind+" "+string(r.cs)] = true
	r.expect(n == 1, "wanted", "sent: once", "the object is sent %d times", n)
}

// cachedRules: is the value kept in the cache, and may it be
func (r *cacheRun) cachedRules(val, urc, err *Term) {
	st := r.st
	put := !r.gone && st.IsNil(r.valE) != yes && r.valE != r.val0
	var cl *Event
	for _, ev := range r.evs {
		if ev.Kind == "call" && ev.Static == r.clean {
			r.expect(cl == nil, "cached", "clean once", "the cache is cleaned twice")
			cl = ev
		}
	}
	cerr := unknown
	if cl != nil {
		cerr = st.IsNil(cl.Res)
		r.expect(cerr != unknown, "failure", "cleaning", "a failed cleaning is not regarded")
		if cerr == no {
			r.expect(err == cl.Res || st.IsNil(err) == no, "failure", "cleaning: reported", "a failed cleaning is not reported")
			r.expect(!put, "cached", "cleaning failed", "a value is cached although there is no room")
		}
	}
	if cerr != no {
		r.expect(st.IsNil(err) == yes, "failure", "no error", "an operation that succeeded is reported as %s", err)
	}
	if !put {
		r.expect(r.same(r.amountE(), r.amount0) && r.same(r.volumeE(), r.vol0), "cached", "amount kept", "amount or volume change although no value is cached: %s, %s", r.amountE(), r.volumeE())
		if r.cs == icAbsent && r.kind != "want" {
			r.expect(r.gone, "entry", "not cached", "an entry without a value stays")
		}
		// one of the reasons
		why := cerr == no
		if r.w.load(st, r.w.fieldAddr(r.self, r.cache, fieldNo(r.cache, "enable")), types.Typ[types.Bool]); st.Truth(r.fld(st, r.self, r.cache, "enable")) == no {
			why = true
		}
		if m := r.confField("CacheMaxItemSize"); m != nil && val != nil && st.Truth(tLt(m, r.w.lenOf(st, val, val.T), false)) == yes {
			why = true
		}
		if st.Eq(unconv(urc), tInt(0)) {
			why = true
		}
		r.expect(why || !r.f.Object().Exported() && r.cs == icAbsent, "cached", "not kept", "a value is not kept in the cache without a reason")
		return
	}
	r.seen["put"] = true
	if r.cs == icFilling {
		r.seen["put filling"] = true
	}
	r.expect(r.valE == val, "cached", "value", "the value cached is %s", r.valE)
	r.expect(r.same(unconv(r.cc), unconv(urc)) && r.same(unconv(r.rc), unconv(urc)), "cached", "count", "the count cached is %s (%s in the store), not %s", r.cc, r.rc, urc)
	r.expect(st.Truth(r.fld(st, r.self, r.cache, "enable")) == yes, "cached", "enabled", "a value is cached although the cache may be disabled")
	m := r.confField("CacheMaxItemSize")
	r.expect(m != nil && st.Truth(tLt(m, r.w.lenOf(st, val, val.T), false)) == no, "cached", "item size", "a value is cached whatever its size")
	r.expect(st.Ne(unconv(urc), tInt(0)), "cached", "used", "a value is cached that nobody uses")
	n := r.w.lenOf(st, val, val.T)
	r.expect(r.same(r.amountE(), tAdd(r.amount0, tInt(1))), "cached", "amount", "the amount becomes %s", r.amountE())
	r.expect(r.same(r.volumeE(), tAdd(r.vol0, n)), "cached", "volume", "the volume becomes %s", r.volumeE())
	ma, mv := r.confField("CacheMaxAmount"), r.confField("CacheMaxVolume")
	if cl == nil {
		ok := ma != nil && mv != nil && st.Truth(tLt(ma, tAdd(r.amount0, tInt(1)), false)) == no && st.Truth(tLt(mv, tAdd(r.vol0, n), false)) == no
		r.expect(ok, "cached", "limits", "a value is cached without regard to the limits")
	} else {
		over := ma != nil && st.Truth(tLt(ma, tAdd(r.amount0, tInt(1)), false)) == yes || mv != nil && st.Truth(tLt(mv, tAdd(r.vol0, n), false)) == yes
		r.expect(over, "cached", "clean", "the cache is cleaned although there is room")
		r.expect(r.same(cl.Args[1], n), "cached", "clean for", "the cache is cleaned for %s bytes", cl.Args[1])
	}
	touched := false
	for _, ev := range r.evs {
		touched = touched || ev.Kind == "call" && strings.HasSuffix(ev.Name, "cachePoints).touch")
	}
	r.expect(touched, "cached", "touched", "a value cached has no time of access")
}

func fieldNo(t types.Type, n string) int {
	i, _ := fieldIndex(t, n)
	return i
}

// cachedCase: the object is in the cache
func (r *cacheRun) cachedCase(inc, incF, err *Term) {
	st := r.st
	sum := tAdd(r.cc0, inc)
	want := sum // the count that has to result
	if st.Truth(tLt(sum, tInt(0), false)) == yes {
		want = tInt(0)
	}
	fc := tAdd(r.fc0, incF)
	dropped := r.gone || st.IsNil(r.valE) == yes
	var have *Term
	if dropped {
		have = tAdd(r.rc0, r.total)
		r.expect(r.same(r.amountE(), tAdd(r.amount0, tInt(-1))), "cached", "dropped: amount", "the amount becomes %s", r.amountE())
		r.expect(r.same(r.volumeE(), tSub(r.vol0, r.w.lenOf(r.st0, r.val0, r.val0.T))), "cached", "dropped: volume", "the volume becomes %s", r.volumeE())
		r.expect(r.same(have, want), "pending", "written", "the count in the store of an object that leaves the cache is %s, not %s", have, want)
		for _, op := range r.ops {
			r.expect(r.isDB(op, "Inc") && op.Args[1] == r.key, "pending", "write", "%s", op)
		}
		r.expect(r.same(want, tInt(0)), "cached", "dropped", "a used object is dropped from the cache")
		r.seen["dropped"] = true
		if r.gone {
			r.expect(r.same(fc, tInt(0)), "entry", "dropped", "an entry of a filler is removed")
		} else {
			r.expect(st.Ne(fc, tInt(0)), "entry", "dropped: stays", "an entry without a value and fillers stays")
			r.seen["kept filling"] = true
		}
	} else {
		have = r.cc
		r.expect(len(r.ops) == 0 && r.same(r.rc, r.rc0), "count", "store", "the store is changed although the object is cached")
		r.expect(r.valE == r.val0, "count", "value", "the cached value changes")
		if r.kind == "get" || r.kind == "inc" {
			r.expect(st.Truth(tLt(sum, tInt(0), false)) == no, "count", "clamp", "the count of a cached object may become negative")
		}
		r.expect(r.same(have, want), "count", "changed", "the count becomes %s, not %s", have, want)
		r.expect(st.Ne(r.cc, tInt(0)) || r.same(r.cc, r.cc0) || r.kind == "want", "cached", "unused", "an unused object stays in the cache")
		r.expect(r.same(r.amountE(), r.amount0) && r.same(r.volumeE(), r.vol0), "cached", "amount kept", "amount or volume change")
	}
	if !r.gone {
		r.expect(r.same(r.fc, fc), "filler", "cached", "the part of fillers becomes %s, not %s", r.fc, fc)
	}
	r.expect(st.IsNil(err) == yes, "failure", "no error", "an operation that succeeded is reported as %s", err)
	hard := tSub(want, fc)
	switch r.kind {
	case "want":
		r.sentOnce(r.val0, hard)
	case "finc":
	default:
		k := 0
		if r.kind == "get" {
			k = 1
			r.expect(r.e.Rets[0] == r.val0, "result", "value", "the value returned is %s", r.e.Rets[0])
		}
		r.expect(r.same(unconv(r.e.Rets[k]), hard) || r.gone && r.same(r.e.Rets[k], tSub(tInt(0), r.fc0)), "result", "count", "the count returned is %s, not %s", r.e.Rets[k], hard)
	}
}
