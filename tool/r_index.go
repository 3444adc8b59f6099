package main

// The index of a container: the last Root of every head in memory, in step
// with the database; the active head.

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("I01", "The index gives the last Root of every head and the newest head of a feed",
		"Every path of every method of the index is enumerated from an arbitrary state, with transactions that commit, fail or cannot be started and iterations of any length. Changes of the memory have to follow the committed changes of the database; the active head is recomputed or set whenever the newest Root may be another one.", checkI01)
}

const idxAPI = "iface:" + modPath + "/data."

type indexCtx struct {
	c            *Ctx
	index, heads *types.Named
	droot, root  *types.Named
	self         *Term
	container    *types.Named
	related      *ssa.Function // removing what a Root keeps
	seen         map[string]bool
}

func newIndexCtx(c *Ctx) *indexCtx {
	x := &indexCtx{c: c, index: c.P.Named("skyobject", "Index"), heads: c.P.Named("skyobject", "indexHeads"), droot: c.P.Named("data", "Root"),
		root: c.P.Named("skyobject/registry", "Root"), container: c.P.Named("skyobject", "Container"), seen: map[string]bool{}}
	if x.index == nil || x.droot == nil || x.root == nil || x.container == nil {
		c.Anchor("skyobject: Index, Container; data.Root, registry.Root")
		return nil
	}
	if x.heads == nil { // by its use
		if s, ok := x.index.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if m, ok := s.Field(i).Type().Underlying().(*types.Map); ok && typeName(m.Key()) == "PubKey" {
					x.heads, _ = deref(m.Elem()).(*types.Named)
				}
			}
		}
	}
	if x.heads == nil {
		c.Anchor("skyobject: the heads of a feed in the Index")
		return nil
	}
	x.self = mk("param", "i", types.NewPointer(x.index))
	return x
}

// the fields of the index and of its heads, by their types
func (x *indexCtx) fFeeds() string {
	return fieldBy(x.index, isMapT(isNamedT("PubKey"), func(t types.Type) bool { return types.Identical(deref(t), x.heads) }))
}
func (x *indexCtx) fList() string {
	return fieldBy(x.index, isSliceT(isNamedT("PubKey")))
}
func (x *indexCtx) fHeads() string {
	return fieldBy(x.heads, func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && types.Identical(deref(m.Elem()), x.droot)
	})
}
func (x *indexCtx) fNonce() string {
	return fieldBy(x.heads, func(t types.Type) bool { return t.String() == "uint64" })
}
func (x *indexCtx) fTime() string {
	return fieldBy(x.heads, func(t types.Type) bool { return t.String() == "int64" })
}

func (x *indexCtx) fld(w *Walker, st *State, base *Term, t *types.Named, name string) *Term {
	i, ft := fieldIndex(t, name)
	if i < 0 {
		return nil
	}
	return w.load(st, w.fieldAddr(base, t, i), ft)
}

// idxOp: the name of an operation of the index database
func idxOp(ev *Event) string {
	if (ev.Kind == "call" || ev.Kind == "each" || ev.Kind == "eachend" || ev.Kind == "eachcall") && strings.HasPrefix(ev.Name, idxAPI) {
		switch n := strings.TrimPrefix(ev.Name, idxAPI); {
		case strings.HasPrefix(n, "Feeds."), strings.HasPrefix(n, "Heads."), strings.HasPrefix(n, "Roots."):
			return n
		}
	}
	return ""
}

func idxThrough(name string) string {
	switch strings.TrimPrefix(name, idxAPI) {
	case "IdxDB.Tx":
		return "tx"
	case "Feeds.Iterate", "Heads.Iterate", "Roots.Ascend", "Roots.Descend", "CXDS.Iterate":
		return "each"
	}
	if name == "(*"+modPath+"/skyobject/registry.Root).Walk" {
		return "each"
	}
	return ""
}

func (x *indexCtx) walker() *Walker {
	w := x.c.P.NewWalker()
	w.SamePkg, w.Split = true, true
	w.AnyRound, w.Loops = true, 1
	w.MaxStates = 3000
	w.OnEvent = anyEvent
	w.Through = idxThrough
	w.Opaque = func(g *ssa.Function) bool {
		if g == x.related {
			return true
		}
		if r := g.Signature.Recv(); r != nil {
			switch typeName(deref(r.Type())) {
			case "cxdsStat", "indexStat", "Cache":
				return true
			}
		}
		return false
	}
	w.Model = func(st *State, ev *Event, args []*Term) (*Term, bool) {
		if n := idxOp(ev); n != "" && idxThrough(ev.Name) == "" {
			at := x.c.at(ev.Instr)
			return resTerm(ev.Sig, func(i int, t types.Type) *Term {
				res := mk("dbres", n+"#"+string(rune('0'+i))+"@"+at, t, ev.Args...)
				if isErrorT(t) {
					st.assume(tEq(res, dataErr("ErrStopIteration")), false)
				}
				return res
			}), true
		}
		return nil, false
	}
	return w
}

type idxCall struct {
	op   string
	ev   *Event
	pos  int
	recv *Term
	args []*Term
	res  []*Term
}

type idxTx struct {
	tag string
	end int
	ops []*idxCall
	err *Term
}

// indexRun: one exit of one method
type indexRun struct {
	*indexCtx
	w     *Walker
	f     *ssa.Function
	name  string
	e     *Exit
	st    *State
	evs   []*Event
	txs   []*idxTx
	par   map[string]*Term // parameters: "pk", "nonce", "seq", "root", "c"
	loops *idxLoops
}

// idxLoops: what the loops of a method do, judged a round at a time
type idxLoops struct {
	pre     map[*Event][2]*Term // round of a loop over heads: active pair before
	active  map[string]bool     // "t|n": pairs recomputed
	badPair map[string]bool
	related map[*Term]*Term             // lists whose hashes are removed: the element of a round
	rec     map[*Event]map[string]*Term // the record of a Root when it is set
}

var recordFields = []string{"Seq", "Prev", "Hash", "Sig", "Time"}

func isHeadsMap(x *indexCtx, t *Term) bool { return isF(t, x.fHeads(), nil) }

// freshMap: a map made for a field of a heads object or the index
func freshMap(t *Term, elem types.Type) bool {
	if t.Op != "makemap" {
		return false
	}
	m, ok := t.T.Underlying().(*types.Map)
	return ok && types.Identical(deref(m.Elem()), elem)
}

func (x *indexCtx) run(f *ssa.Function, judge func(r *indexRun)) {
	w := x.walker()
	r := &indexRun{indexCtx: x, w: w, f: f, name: f.Name(), par: map[string]*Term{}}
	args := make([]*Term, len(f.Params))
	for i, p := range f.Params {
		args[i] = mk("param", p.Name(), p.Type())
		switch {
		case i == 0:
			if types.Identical(deref(p.Type()), x.index) {
				args[i] = x.self
			}
			r.par["self"] = args[i]
		case typeName(p.Type()) == "PubKey":
			r.par["pk"] = args[i]
		case types.Identical(deref(p.Type()), x.root):
			r.par["root"] = args[i]
		case types.Identical(deref(p.Type()), x.container):
			r.par["c"] = args[i]
		case typeName(p.Type()) == "SHA256":
			r.par["hash"] = args[i]
		case p.Type().String() == "uint64" && r.par["nonce"] == nil:
			r.par["nonce"] = args[i]
		case p.Type().String() == "uint64":
			r.par["seq"] = args[i]
		default:
			r.par["?"+p.Name()] = args[i]
		}
	}
	st := newState()
	if t := r.par["root"]; t != nil {
		st.assume(tEq(t, tNil), false)
	}
	lp := &idxLoops{pre: map[*Event][2]*Term{}, active: map[string]bool{}, badPair: map[string]bool{}, related: map[*Term]*Term{}, rec: map[*Event]map[string]*Term{}}
	r.loops = lp
	w.OnEvent = func(st *State, ev *Event) bool {
		if ev.Kind == "call" && idxOp(ev) == "Roots.Set" {
			m := map[string]*Term{}
			for _, f := range recordFields {
				m[f] = x.fld(w, st, ev.Args[1], x.droot, f)
			}
			lp.rec[ev] = m
		}
		if ev.Kind == "range" && isHeadsMap(x, ev.Addr) {
			hs := ev.Addr.Args[0].Args[0]
			lp.pre[ev] = [2]*Term{x.fld(w, st, hs, x.heads, x.fTime()), x.fld(w, st, hs, x.heads, x.fNonce())}
		}
		return true
	}
	w.OnBack = func(g *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
		q := *r
		q.e, q.st, q.evs = &Exit{St: st, Fn: g}, st, st.Events()
		q.back(g, head, env)
	}
	w.OnEach = func(ev *Event, params []*Term, pre *State, e *Exit) {
		q := *r
		q.set(e)
		dbg("each", f.Name(), e)
		q.each(ev, params, pre)
	}
	for _, e := range w.Run(f, args, nil, st) {
		q := *r
		q.set(e)
		dbg("exit", f.Name(), e)
		if q.impossible() {
			continue
		}
		if e.Panic {
			q.bad("update", "panic", "%s panics", f.Name())
			continue
		}
		judge(&q)
	}
	x.c.Done(w)
}

func (r *indexRun) set(e *Exit) {
	r.e, r.st, r.evs = e, e.St, e.St.Events()
	r.txs = nil
	var cur *idxTx
	for i, ev := range r.evs {
		switch {
		case ev.Kind == "begin" && ev.Name == "Update":
			cur = &idxTx{}
			r.txs = append(r.txs, cur)
		case ev.Kind == "end" && ev.Name == "Update" && cur != nil:
			cur.tag, cur.end = ev.Tag, i
			cur = nil
		default:
			if op := idxOp(ev); op != "" && ev.Kind == "call" && cur != nil {
				c := &idxCall{op: op, ev: ev, pos: i, recv: ev.Args[0], args: ev.Args[1:]}
				if ev.Res != nil {
					if ev.Res.Op == "tuple" {
						c.res = ev.Res.Args
					} else if ev.Res != tNone {
						c.res = []*Term{ev.Res}
					}
				}
				cur.ops = append(cur.ops, c)
			}
		}
	}
}

func (r *indexRun) at() string {
	if r.e.Instr == nil {
		return r.c.P.pos(r.f.Pos())
	}
	return r.c.at(r.e.Instr)
}

func (r *indexRun) bad(rule, what, f string, a ...interface{}) {
	r.c.Bad(rule, r.name+": "+what, r.at(), f, a...)
}

func (r *indexRun) expect(ok bool, rule, what, f string, a ...interface{}) bool {
	return r.c.Expect(ok, rule, r.name+": "+what, r.at(), f, a...)
}

func (r *indexRun) same(a, b *Term) bool {
	return a == b || a != nil && b != nil && r.st.Eq(a, b)
}

func (r *indexRun) err() *Term { return r.e.Rets[len(r.e.Rets)-1] }

// feed: is the feed known; its heads
func (r *indexRun) isFeeds(m *Term) bool { return isF(m, r.fFeeds(), nil) }

func (r *indexRun) feedIn(pk *Term) tri {
	if t := present(r.st, r.isFeeds, pk); t != unknown {
		return t
	}
	return r.noHeads(pk).not()
}

// noHeads: the heads of the feed are nil
func (r *indexRun) noHeads(pk *Term) tri {
	for _, t := range factTerms(r.st) {
		out := unknown
		t.any(func(y *Term) bool {
			if m, k := elemOf(y); m != nil && r.isFeeds(m) && r.same(k, pk) && out == unknown {
				out = r.st.IsNil(y)
			}
			return false
		})
		if out != unknown {
			return out
		}
	}
	return unknown
}

// impossible: the heads of a known feed are never nil
func (r *indexRun) impossible() bool {
	pk := r.par["pk"]
	return pk != nil && present(r.st, r.isFeeds, pk) == yes && r.noHeads(pk) == yes
}

func (r *indexRun) isHeadsOf(m, pk *Term) bool {
	if !isHeadsMap(r.indexCtx, m) {
		return false
	}
	fm, k := elemOf(m.Args[0].Args[0])
	return fm != nil && r.isFeeds(fm) && (pk == nil || r.same(k, pk))
}

func (r *indexRun) headIn(pk, nonce *Term) tri {
	for t, v := range r.st.facts.b {
		if t.Op == "present" && r.isHeadsOf(t.Args[0].Args[0], pk) && r.same(t.Args[0].Args[1], nonce) {
			return triOf(v)
		}
	}
	return unknown
}

// last: the value of the head before
func (r *indexRun) last(pk, nonce *Term) *Term {
	var out *Term
	for _, t := range factTerms(r.st) {
		t.any(func(y *Term) bool {
			if m, k := elemOf(y); m != nil && r.isHeadsOf(m, pk) && r.same(k, nonce) {
				out = y
			}
			return false
		})
	}
	return out
}

func (r *indexRun) drootFld(dr *Term, n string) *Term {
	return r.fld(r.w, r.st, dr, r.droot, n)
}

func (r *indexRun) rootFld(n string) *Term {
	return r.fld(r.w, r.st, r.par["root"], r.root, n)
}

// updates: what happens to the maps
type idxUpdate struct {
	pos   int
	feeds bool
	del   bool
	m     *Term
	key   *Term
	val   *Term
	pk    *Term
	hs    *Term
}

func (r *indexRun) updates() (out []*idxUpdate) {
	for i, ev := range r.evs {
		if ev.Kind != "mapupdate" && ev.Kind != "mapdelete" {
			continue
		}
		u := &idxUpdate{pos: i, del: ev.Kind == "mapdelete", m: ev.Addr, key: ev.Args[0], val: ev.Val}
		switch {
		case r.isFeeds(ev.Addr) || freshMap(ev.Addr, r.heads):
			u.feeds, u.pk = true, u.key
		case isHeadsMap(r.indexCtx, ev.Addr):
			u.hs = ev.Addr.Args[0].Args[0]
			_, u.pk = elemOf(u.hs)
		default:
			continue
		}
		out = append(out, u)
	}
	return
}

// failedOps: every operation that failed ends the transaction by its error
func (r *indexRun) opErrors(tx *idxTx, ignore func(op *idxCall) bool) {
	for _, op := range tx.ops {
		if len(op.res) == 0 || !isErrorT(op.res[len(op.res)-1].T) {
			continue
		}
		e := op.res[len(op.res)-1]
		if ignore != nil && ignore(op) {
			continue
		}
		if tx.tag == "commit" || tx.tag == "commitfail" {
			r.expect(r.st.IsNil(e) == yes, "database", op.op+": error", "a transaction is committed although %s may have failed", op.op)
		}
	}
}

func isErrorT(t types.Type) bool { return t != nil && t.String() == "error" }

// activeOK: the active head after an update of one head
func (r *indexRun) activeOK(u *idxUpdate, old *Term, oldIn tri, t0, n0 *Term) {
	st := r.st
	hs := u.hs
	t1, n1 := r.fld(r.w, st, hs, r.heads, r.fTime()), r.fld(r.w, st, hs, r.heads, r.fNonce())
	what := "after an update"
	if u.del {
		what = "after a removal"
	}
	pair := pairKey(t1, n1)
	if r.loops.active[pair] && !r.loops.badPair[pair] {
		// recomputed: after the update, from nothing
		after := false
		for _, ev := range r.evs[u.pos:] {
			after = after || ev.Kind == "rangeend" && isHeadsMap(r.indexCtx, ev.Addr) && ev.Addr.Args[0].Args[0] == hs
		}
		if r.expect(after, "active", what, "the active head is looked for before the heads change") {
			r.seen["recomputed"] = true
		}
		return
	}
	var tv *Term
	if u.val != nil && u.val != tNil && st.IsNil(u.val) != yes {
		tv = r.drootFld(u.val, "Time")
	}
	if tv != nil && r.same(t1, tv) && r.same(n1, u.key) && st.Truth(tLt(t1, t0, false)) == no {
		r.c.Site("active", r.name+": "+what+", newer")
		r.seen["newer"] = true
		return
	}
	if r.same(t1, t0) && r.same(n1, n0) {
		newOK := tv == nil || st.Truth(tLt(t0, tv, false)) == no
		oldOK := st.Ne(u.key, n0) || oldIn == no || old != nil && st.IsNil(old) == yes || tv != nil && r.same(tv, t0)
		r.expect(newOK, "active", what+", kept", "the active head stays although the new Root may be newer")
		r.expect(oldOK, "active", what+", same head", "the active head stays although its last Root is another one")
		return
	}
	r.bad("active", what, "the active head becomes %s of %s", n1, t1)
}

func pairKey(t, n *Term) string { return strconv.Itoa(t.ID) + "|" + strconv.Itoa(n.ID) }

// back: a round of a loop
func (r *indexRun) back(g *ssa.Function, head *ssa.BasicBlock, env map[ssa.Value]*Term) {
	var cur *Event
	pos := 0
	for i, ev := range r.evs {
		if ev.Kind == "range" && ev.Instr.Block() == head {
			cur, pos = ev, i
		}
	}
	if cur != nil && isHeadsMap(r.indexCtx, cur.Addr) {
		if r.activeRound(g, head, env, cur, pos) {
			return
		}
		if r.listRound(cur, pos) {
			return
		}
		r.removalRound(cur, pos)
		return
	}
	if cur != nil && r.isFeeds(cur.Addr) {
		r.listRound(cur, pos)
		return
	}
	// hashes: one removal for each
	n := 0
	for i := len(r.evs) - 1; i >= 0; i-- {
		ev := r.evs[i]
		if ev.Kind == "call" && ev.Static != nil && ev.Static == r.related {
			n++
			a := ev.Args[1]
			ok := a.Op == "load" && a.Args[0].Op == "idx"
			r.c.Expect(ok, "related", r.name+": each", r.c.at(ev.Instr), "what %s keeps is removed, not an element of the list", a)
			if ok {
				list, at := a.Args[0].Args[0], a.Args[0].Args[1]
				r.loops.related[list] = at
				first, last := tLt(tInt(0), at, false), tLt(at, tAdd(r.w.lenOf(r.st, list, types.Typ[types.Int]), tInt(-1)), false)
				r.c.Expect(r.st.Truth(first) != yes && r.st.Truth(last) != yes, "related", r.name+": all", r.c.at(ev.Instr), "not all Root objects of the list are removed")
			}
			r.c.Expect(r.st.IsNil(ev.Res) == yes, "related", r.name+": goes on", r.c.at(ev.Instr), "the removal goes on although it failed")
		}
	}
	r.c.Expect(n == 1, "related", r.name+": once", r.c.P.pos(g.Pos()), "%d Root objects are removed for one of the list", n)
}

// activeRound: a round of looking for the newest head
func (r *indexRun) activeRound(g *ssa.Function, head *ssa.BasicBlock, env map[ssa.Value]*Term, cur *Event, pos int) bool {
	st := r.st
	hs := cur.Addr.Args[0].Args[0]
	nonce, dr := cur.Args[0], cur.Args[1]
	var preT, preN, postT, postN *Term
	zero := false
	// variables of the loop
	for _, in := range head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range head.Preds {
			if p != r.w.BackFrom {
				continue
			}
			v := r.w.tryVal(nil, env, ph.Edges[i])
			switch ph.Type().String() {
			case "int64":
				preT, postT = env[ph], v
			case "uint64":
				preN, postN = env[ph], v
			}
		}
		for i, p := range head.Preds {
			if c, ok := ph.Edges[i].(*ssa.Const); ok && !r.w.fi(g).loops[head][p] && isNum(ph.Type()) {
				zero = zero || c.Int64() == 0
			}
		}
	}
	if preT == nil || preN == nil {
		pre := r.loops.pre[cur]
		preT, preN = pre[0], pre[1]
		postT, postN = r.fld(r.w, st, hs, r.heads, r.fTime()), r.fld(r.w, st, hs, r.heads, r.fNonce())
		if (preT == postT && preN == postN) && !r.storesActive(g, head) {
			return false // another loop
		}
		// reset before
		var zt, zn *Term
		for _, ev := range r.evs[:pos] {
			if ev.Kind == "store" && ev.Addr.Op == "field" && ev.Addr.Args[0] == hs {
				switch ev.Addr.Aux {
				case r.fTime():
					zt = ev.Val
				case r.fNonce():
					zn = ev.Val
				}
			}
		}
		zero = zt == tInt(0) && zn == tInt(0)
	}
	pair := pairKey(preT, preN)
	bad := func(what, f string, a ...interface{}) {
		r.loops.badPair[pair] = true
		r.c.Bad("active", "newest head: "+what, r.c.P.pos(g.Pos()), f, a...)
	}
	r.c.Site("active", "newest head: round")
	r.loops.active[pair] = true
	if !zero {
		bad("start", "looking for the newest head does not start from nothing")
	}
	var tv *Term
	if st.IsNil(dr) != yes {
		tv = r.drootFld(dr, "Time")
	}
	switch {
	case r.same(postT, preT) && r.same(postN, preN):
		if st.IsNil(dr) != yes && st.Truth(tLt(preT, tv, false)) != no {
			bad("kept", "a head with a newer Root is passed over")
		}
	case tv != nil && r.same(postT, tv) && r.same(postN, nonce):
		if st.IsNil(dr) != no || st.Truth(tLt(tv, preT, false)) != no {
			bad("taken", "a head is taken for the newest although its Root may be older")
		}
	default:
		bad("pair", "the newest head becomes %s with the time %s", postN, postT)
	}
	return true
}

// storesActive: does the loop set the active head
func (r *indexRun) storesActive(g *ssa.Function, head *ssa.BasicBlock) bool {
	for b := range r.w.fi(g).loops[head] {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), r.heads) {
					return true
				}
			}
		}
	}
	return false
}

// listRound: a round of listing keys
func (r *indexRun) listRound(cur *Event, pos int) bool {
	n, ok := 0, false
	for _, ev := range r.evs[pos:] {
		switch {
		case ev.Kind == "append":
			n++
			ok = r.same(lastOf(ev.Args[1]), cur.Args[0])
		case ev.Kind == "store" && ev.Addr.Op == "idx" && ev.Val == cur.Args[0]:
			n++
			ok = true
		case idxOp(ev) != "":
			return false
		}
	}
	if r.f.Name() != "Heads" && r.f.Name() != "Feeds" {
		return false
	}
	r.expect(n >= 1 && ok, "lookup", "each", "a key is not put into the list")
	r.seen["listed "+r.f.Name()] = true
	return true
}

// lastOf: the single element of an appended list
func lastOf(t *Term) *Term {
	var out *Term
	t.any(func(y *Term) bool {
		if y.Op == "load" || y.Op == "rangekey" || y.Op == "range" || strings.HasPrefix(y.Op, "next") {
			out = y
			return true
		}
		return false
	})
	if t.Op == "snap" {
		for _, a := range t.Args {
			if a.Op != "alloc" && a.Op != "slice" {
				return a
			}
		}
	}
	return out
}

// removalRound: a round over the heads of a feed that is removed
func (r *indexRun) removalRound(cur *Event, pos int) {
	st := r.st
	nonce := cur.Args[0]
	roots, each := 0, ""
	var rs *Term
	for _, ev := range r.evs[pos:] {
		switch op := idxOp(ev); {
		case op == "Heads.Roots" && ev.Kind == "call":
			roots++
			rs = ev.Res.Args[0]
			r.expect(r.same(ev.Args[1], nonce), "related", "head", "the Root objects of the head %s are looked for, not of %s", ev.Args[1], nonce)
			r.expect(st.IsNil(ev.Res.Args[1]) == yes, "database", "Roots: error", "a failure is not regarded")
		case (op == "Roots.Ascend" || op == "Roots.Descend") && ev.Kind == "eachend":
			r.expect(ev.Addr == rs, "related", "roots", "Root objects of another head are looked for")
			each = ev.Tag
		}
	}
	r.expect(roots == 1 && (each == "all" || each == "none"), "related", "every head", "not all Root objects of a removed feed are collected (%d, %q)", roots, each)
	r.seen["collected "+r.f.Name()] = true
}

// each: a round of an iteration
func (r *indexRun) each(ev *Event, params []*Term, pre *State) {
	switch idxOp(ev) {
	case "Roots.Ascend", "Roots.Descend":
		// hashes of Root objects to remove
		n := 0
		start := false
		for _, e := range r.evs {
			if e.Kind == "eachcall" && e.Addr == ev.Addr {
				start = true
				n = 0
			}
			if start && e.Kind == "append" {
				n++
				h := r.drootFld(params[0], "Hash")
				ok := e.Args[1].any(func(y *Term) bool { return y == h })
				r.expect(ok, "related", "collected", "not the hash of the Root is collected: %s", e.Args[1])
			}
		}
		r.expect(n == 1, "related", "collected once", "the hash of a Root is collected %d times", n)
	case "Feeds.Iterate":
		r.loadFeed(params[0])
	case "Heads.Iterate":
		r.loadHead(ev, params[0], pre)
	}
}

// loadFeed: a feed is loaded
func (r *indexRun) loadFeed(pk *Term) {
	n := 0
	for _, u := range r.updates() {
		if !u.feeds {
			continue
		}
		n++
		r.expect(!u.del && u.key == pk, "load", "feed", "the feed %s is loaded as %s", pk, u.key)
		r.expect(u.val.Op == "alloc", "load", "own heads", "the heads of a feed are %s", u.val)
		h := r.fld(r.w, r.st, u.val, r.heads, r.fHeads())
		r.expect(h != nil && (h.Op == "makemap" || h.Op == "havoc"), "load", "heads map", "the map of heads is %s", h)
	}
	r.expect(n >= 1, "load", "every feed", "a feed of the database is loaded %d times", n)
	heads := 0
	for _, e := range r.evs {
		switch idxOp(e) {
		case "Feeds.Heads":
			if e.Kind == "call" {
				heads++
				r.expect(e.Args[1] == pk && r.st.IsNil(e.Res.Args[1]) == yes, "load", "heads of", "the heads of %s are loaded, or a failure is not regarded", e.Args[1])
			}
		case "Heads.Iterate":
			if e.Kind == "eachend" {
				r.expect(e.Tag == "all" || e.Tag == "none", "load", "all heads", "the iteration over heads ends by %q", e.Tag)
			}
		}
	}
	r.expect(heads == 1, "load", "heads", "the heads of a feed are looked for %d times", heads)
	r.seen["feed loaded"] = true
}

// loadHead: a head is loaded
func (r *indexRun) loadHead(ev *Event, nonce *Term, pre *State) {
	st := r.st
	var rec *Term
	none := false
	for _, e := range r.evs {
		switch op := idxOp(e); {
		case op == "Heads.Roots" && e.Kind == "call":
			r.expect(e.Args[1] == nonce && e.Args[0] == ev.Addr && st.IsNil(e.Res.Args[1]) == yes, "load", "roots of", "the Root objects of %s are loaded, or a failure is not regarded", e.Args[1])
		case op == "Roots.Descend" && e.Kind == "eachcall":
			rec = e.Args[1]
			r.expect(e.Tag == "first", "load", "last", "the Root loaded for a head is not the last")
		case op == "Roots.Descend" && e.Kind == "eachend":
			none = e.Tag == "none"
			r.expect(none || e.Tag == "stop", "load", "last: ends", "looking for the last Root ends by %q", e.Tag)
		}
	}
	n := 0
	for _, e := range r.evs {
		if e.Kind != "mapupdate" {
			continue
		}
		if m, ok := e.Addr.T.Underlying().(*types.Map); !ok || !types.Identical(deref(m.Elem()), r.droot) {
			continue
		}
		n++
		r.expect(e.Args[0] == nonce, "load", "head", "the head %s is loaded as %s", nonce, e.Args[0])
		if none {
			r.expect(e.Val == tNil || st.IsNil(e.Val) == yes, "load", "blank head", "a head without Root objects is loaded with %s", e.Val)
		} else {
			r.expect(rec != nil && e.Val == rec, "load", "last Root", "the head is loaded with %s", e.Val)
		}
	}
	r.expect(n == 1, "load", "every head", "a head of the database is loaded %d times", n)
	r.seen["head loaded"] = true
	// the newest
	var hs *Term
	for t := range st.mem {
		if t.Op == "field" && t.Aux == r.fHeads() && t.Args[0].Op == "alloc" {
			hs = t.Args[0]
		}
	}
	if hs == nil {
		for _, e := range r.evs {
			if e.Kind == "mapupdate" && isHeadsMap(r.indexCtx, e.Addr) {
				hs = e.Addr.Args[0].Args[0]
			}
		}
	}
	if !r.expect(hs != nil, "load", "heads object", "the heads of a feed are not found") {
		return
	}
	t0, n0 := r.fld(r.w, pre, hs, r.heads, r.fTime()), r.fld(r.w, pre, hs, r.heads, r.fNonce())
	t1, n1 := r.fld(r.w, st, hs, r.heads, r.fTime()), r.fld(r.w, st, hs, r.heads, r.fNonce())
	var tv *Term
	if rec != nil {
		tv = r.drootFld(rec, "Time")
	}
	switch {
	case r.same(t1, t0) && r.same(n1, n0):
		r.expect(none || tv != nil && st.Truth(tLt(t0, tv, false)) == no, "active", "load: kept", "a newer head is passed over")
	case tv != nil && r.same(t1, tv) && r.same(n1, nonce):
		r.expect(st.Truth(tLt(t1, t0, false)) == no, "active", "load: taken", "an older head is taken")
		r.seen["load active"] = true
	default:
		r.bad("active", "load", "the active head becomes %s of %s", n1, t1)
	}
}

func checkI01(c *Ctx) {
	c.Rule("update", "the memory changes exactly as the committed transaction: a feed, a head, or the last Root of a head", 12)
	c.Rule("database", "every transaction does what the method is called for, with its arguments; a failure ends it, changes nothing and is reported", 15)
	c.Rule("active", "the active head is the one whose last Root is newest, after every change", 10)
	c.Rule("lookup", "lookups give what the index has, and report a missing feed, head or Root by its own error", 15)
	c.Rule("add", "a Root is added only if it is full, of a feed and signed, as one record with its fields; an older one does not replace the last", 10)
	c.Rule("related", "removing a feed, a head or a Root removes what each of its Root objects keeps, once", 8)
	c.Rule("load", "loading takes every feed, every head and the last Root of each from the database", 10)
	x := newIndexCtx(c)
	if x == nil {
		return
	}
	for _, f := range []string{x.fFeeds(), x.fList(), x.fHeads(), x.fNonce(), x.fTime()} {
		if f == "" {
			c.Anchor("skyobject: the fields of the Index and its heads")
			return
		}
	}
	m := func(n string) *ssa.Function {
		f := c.P.Method("skyobject", "Index", n)
		if f == nil {
			c.Anchor("skyobject.Index." + n)
		}
		return f
	}
	// removing what a Root keeps: the method taking its hash
	del := m("DelRoot")
	if del == nil {
		return
	}
	for g := range c.P.Reach(del) {
		if s := g.Signature; s.Recv() != nil && s.Params().Len() == 1 && typeName(s.Params().At(0).Type()) == "SHA256" && s.Results().Len() == 1 && isErrorT(s.Results().At(0).Type()) && g.Pkg == del.Pkg && g.Parent() == nil && g.Synthetic == "" {
			x.related = g
		}
	}
	if x.related == nil {
		c.Anchor("skyobject: removing what a Root keeps")
		return
	}
	// loading: the method of the index called to make a container
	var load *ssa.Function
	for _, f := range c.P.Funcs {
		if f.Synthetic == "" && f.Parent() == nil && f.Signature.Recv() != nil && types.Identical(deref(f.Signature.Recv().Type()), x.index) && f.Signature.Params().Len() == 1 &&
			types.Identical(deref(f.Signature.Params().At(0).Type()), x.container) {
			load = f
		}
	}
	if load == nil {
		c.Anchor("skyobject: loading of the Index")
		return
	}
	for n, j := range map[string]func(r *indexRun){
		"AddFeed": (*indexRun).addFeed, "AddHead": (*indexRun).addHead, "AddRoot": (*indexRun).addRoot,
		"DelFeed": (*indexRun).delFeed, "DelHead": (*indexRun).delHead, "DelRoot": (*indexRun).delRoot,
		"HasFeed": (*indexRun).lookup, "HasHead": (*indexRun).lookup, "ActiveHead": (*indexRun).lookup, "Heads": (*indexRun).lookup, "Feeds": (*indexRun).lookup,
		"LastRootSeq": (*indexRun).lookup, "LastRoot": (*indexRun).lookup, "Root": (*indexRun).lookup,
	} {
		if f := m(n); f != nil {
			x.run(f, j)
		}
	}
	x.run(load, (*indexRun).loaded)
	if f := c.P.Method("skyobject", "Container", "RootByHash"); f != nil {
		x.run(f, (*indexRun).byHash)
	} else {
		c.Anchor("skyobject.Container.RootByHash")
	}
	x.relatedRule()
	for _, s := range []string{"recomputed", "listed Heads", "listed Feeds", "collected DelFeed", "feed loaded", "head loaded", "load active", "added", "older", "already", "replaced", "blanked"} {
		c.Expect(x.seen[s], "update", "case "+s, c.P.pos(x.index.Obj().Pos()), "the index has no way for the case %q", s)
	}
	c.Assume("the index database does what its own properties say (X01–X03); transactions of it are atomic")
	c.Assume("times of Root objects are positive")
	c.Assume("a head with Root objects in the database has its last one in memory (this is the invariant every method keeps, and loading establishes)")
}

// onlyTx: the transaction of the path, if it has one
func (r *indexRun) onlyTx() *idxTx {
	if len(r.txs) == 0 {
		return nil
	}
	r.expect(len(r.txs) == 1, "database", "transactions", "the database is changed by %d transactions", len(r.txs))
	return r.txs[0]
}

// failedTx: paths whose transaction did not succeed
func (r *indexRun) failedTx(tx *idxTx) bool {
	if tx == nil || tx.tag == "commit" {
		return false
	}
	r.expect(r.st.IsNil(r.err()) == no, "database", "failure", "a failed transaction is not reported: %s", r.err())
	r.expect(len(r.updates()) == 0 && !r.changesActive(), "database", "failure: memory", "the memory changes although the transaction failed")
	return true
}

func (r *indexRun) changesActive() bool {
	for _, ev := range r.evs {
		if ev.Kind == "store" && ev.Addr.Op == "field" && (ev.Addr.Aux == r.fTime() || ev.Addr.Aux == r.fNonce()) && ev.Addr.Args[0].Op != "alloc" && types.Identical(deref(ev.Addr.Args[0].T), r.heads) {
			return true
		}
	}
	return false
}

// missing: paths ending because there is no such feed or head
func (r *indexRun) missing(pk, nonce *Term) bool {
	want := ""
	if r.feedIn(pk) == no {
		want = "ErrNoSuchFeed"
	} else if nonce != nil && r.headIn(pk, nonce) == no {
		want = "ErrNoSuchHead"
	}
	if want == "" {
		return false
	}
	r.expect(len(r.txs) == 0 && len(r.updates()) == 0, "lookup", "missing: changes", "something changes although the feed or head does not exist")
	r.expect(r.same(r.err(), dataErr(want)), "lookup", want, "a missing feed or head is reported as %s", r.err())
	return true
}

// steps compares the operations of a transaction with those expected
func (r *indexRun) steps(tx *idxTx, want ...string) (ops []*idxCall) {
	var got []string
	for _, op := range tx.ops {
		if op.op == "Roots.Has" || op.op == "Heads.Has" || op.op == "Feeds.Has" { // reading only
			continue
		}
		got = append(got, op.op)
		ops = append(ops, op)
	}
	for _, alt := range want {
		if strings.Join(got, " ") == alt {
			return ops
		}
	}
	r.bad("database", "operations", "the transaction does %q instead of %q", strings.Join(got, " "), want)
	return nil
}

// chain: each operation is on the result of the one before
func (r *indexRun) chain(ops []*idxCall, pk, nonce *Term) {
	last := map[string]*Term{}
	for _, op := range ops {
		switch op.op {
		case "Feeds.Heads":
			last["Heads"] = op.res[0]
		case "Heads.Roots", "Heads.Add":
			last["Roots"] = op.res[0]
		}
		switch op.op {
		case "Feeds.Heads", "Feeds.Add", "Feeds.Del":
			r.expect(op.recv.Op == "tx" && r.same(op.args[0], pk), "database", op.op, "%s of %s", op.op, op.args[0])
		case "Heads.Roots", "Heads.Add", "Heads.Del":
			r.expect(op.recv == last["Heads"] && r.same(op.args[0], nonce), "database", op.op, "%s of %s", op.op, op.args[0])
		default:
			r.expect(op.recv == last["Roots"], "database", op.op, "%s of the Root objects of another head", op.op)
		}
	}
}

// noList: the list of feeds is made anew after a change
func (r *indexRun) noList() {
	l := r.fld(r.w, r.st, r.self, r.index, r.fList())
	r.expect(r.st.IsNil(l) == yes || r.st.Eq(r.w.lenOf(r.st, l, types.Typ[types.Int]), tInt(0)), "update", "list", "the list of feeds stays although the feeds change")
}

func (r *indexRun) addFeed() {
	pk := r.par["pk"]
	tx := r.onlyTx()
	if r.failedTx(tx) {
		return
	}
	us := r.updates()
	r.expect(r.st.IsNil(r.err()) == yes, "database", "no error", "success is reported as %s", r.err())
	if tx == nil {
		r.expect(r.feedIn(pk) == yes && len(us) == 0, "update", "known", "nothing is done although the feed may be missing")
		return
	}
	r.opErrors(tx, nil)
	if ops := r.steps(tx, "Feeds.Add"); ops != nil {
		r.chain(ops, pk, nil)
	}
	r.expect(r.feedIn(pk) == no, "update", "new", "a feed is added that may exist, losing its heads")
	if !r.expect(len(us) == 1 && us[0].feeds && !us[0].del && us[0].key == pk, "update", "feed", "a feed added to the database is not added to the memory") {
		return
	}
	r.expect(us[0].pos > tx.end, "update", "order", "the memory changes before the transaction is committed")
	hs := us[0].val
	r.expect(hs.Op == "alloc" && r.st.Eq(r.fld(r.w, r.st, hs, r.heads, r.fTime()), tInt(0)) && r.st.Eq(r.fld(r.w, r.st, hs, r.heads, r.fNonce()), tInt(0)), "active", "blank feed", "a new feed has an active head")
	h := r.fld(r.w, r.st, hs, r.heads, r.fHeads())
	r.expect(h != nil && h.Op == "makemap", "update", "heads", "a new feed has no map of heads")
	r.noList()
}

func (r *indexRun) addHead() {
	pk, nonce := r.par["pk"], r.par["nonce"]
	if r.feedIn(pk) == no {
		r.missing(pk, nil)
		return
	}
	tx := r.onlyTx()
	if r.failedTx(tx) {
		return
	}
	us := r.updates()
	r.expect(r.st.IsNil(r.err()) == yes, "database", "no error", "success is reported as %s", r.err())
	if tx == nil {
		r.expect(r.headIn(pk, nonce) == yes && len(us) == 0, "update", "known", "nothing is done although the head may be missing")
		return
	}
	r.opErrors(tx, nil)
	if ops := r.steps(tx, "Feeds.Heads Heads.Add"); ops != nil {
		r.chain(ops, pk, nonce)
	}
	r.expect(r.headIn(pk, nonce) == no, "update", "new", "a head is added that may exist, losing its last Root")
	if r.expect(len(us) == 1 && !us[0].feeds && !us[0].del && us[0].key == nonce && us[0].val == tNil && r.same(us[0].pk, pk) && us[0].pos > tx.end, "update", "head", "a head added to the database is not added blank to the memory") {
		t0, n0 := r.active0(us[0].hs)
		r.activeOK(us[0], nil, no, t0, n0)
	}
}

// active0: the active head before
func (r *indexRun) active0(hs *Term) (t, n *Term) {
	st := newState()
	return r.fld(r.w, st, hs, r.heads, r.fTime()), r.fld(r.w, st, hs, r.heads, r.fNonce())
}

func (r *indexRun) addRoot() {
	st := r.st
	root := r.par["root"]
	pk, nonce, seq := r.rootFld("Pub"), r.rootFld("Nonce"), r.rootFld("Seq")
	_ = root
	already := r.e.Rets[0]
	tx := r.onlyTxAdd(pk, nonce, seq)
	us := r.updates()
	if tx == nil { // not added
		r.expect(len(us) == 0 && !r.changesActive(), "update", "not added", "the memory changes although no Root is added")
		if st.IsNil(r.err()) == yes {
			// it is there: the last, or in the database
			lr := r.last(pk, nonce)
			there := lr != nil && st.Eq(r.drootFld(lr, "Seq"), seq)
			for _, t := range r.txs {
				for _, op := range t.ops {
					there = there || t.tag == "commit" && op.op == "Roots.Get" && st.IsNil(op.res[1]) == yes && r.same(op.args[0], seq)
				}
			}
			r.expect(there, "add", "already: there", "a Root that may be missing is not added")
			r.expect(st.Truth(already) == yes, "add", "already", "a Root that is there is not reported as such")
			r.seen["already"] = true
			return
		}
		r.expect(st.IsNil(r.err()) == no, "database", "failure", "a failure is not reported: %s", r.err())
		return
	}
	// conditions
	r.expect(st.Truth(r.rootFld("IsFull")) == yes, "add", "full", "a Root that is not full is added")
	for _, f := range []string{"Pub", "Hash", "Sig"} {
		v := r.rootFld(f)
		z := false
		for t, b := range st.facts.b {
			if t.Op == "eq" && !b && (t.Args[0] == v || t.Args[1] == v) {
				z = true
			}
		}
		r.expect(z, "add", "blank "+f, "a Root is added without regard to a blank %s", f)
	}
	if r.failedTx(tx) {
		return
	}
	r.opErrors(tx, nil)
	r.expect(st.IsNil(r.err()) == yes, "database", "no error", "success is reported as %s", r.err())
	ops := r.steps(tx, "Feeds.Heads Heads.Add Roots.Set")
	if ops == nil {
		return
	}
	r.chain(ops, pk, nonce)
	dr := ops[2].args[0]
	for _, f := range recordFields {
		v := r.loops.rec[ops[2].ev][f]
		r.expect(r.same(v, r.rootFld(f)), "add", "record: "+f, "the record of the Root has %s as %s", v, f)
	}
	// not there before
	r.seen["added"] = true
	lr := r.last(pk, nonce)
	older := no
	if lr != nil && r.headIn(pk, nonce) != no && st.IsNil(lr) != yes {
		older = st.Truth(tLt(seq, r.drootFld(lr, "Seq"), false))
	}
	switch older {
	case yes:
		r.expect(len(us) == 0, "add", "older", "an older Root replaces the last one")
		r.seen["older"] = true
		return
	case unknown:
		if !st.Eq(seq, r.drootFld(lr, "Seq")) {
			r.bad("add", "order", "a Root replaces the last one whichever is newer")
			return
		}
	}
	if !r.expect(len(us) == 1 && !us[0].feeds && !us[0].del && r.same(us[0].pk, pk) && r.same(us[0].key, nonce) && us[0].val == dr && us[0].pos > tx.end, "update", "last", "a Root added to the database is not the last one in memory") {
		return
	}
	t0, n0 := r.active0(us[0].hs)
	r.activeOK(us[0], lr, r.headIn(pk, nonce), t0, n0)
}

// onlyTxAdd: the transaction adding a Root, after those looking for it
func (r *indexRun) onlyTxAdd(pk, nonce, seq *Term) (add *idxTx) {
	for _, tx := range r.txs {
		writes := tx.tag == "nostart" && tx != r.txs[0]
		for _, op := range tx.ops {
			if op.op == "Roots.Set" || op.op == "Heads.Add" {
				writes = true
			}
		}
		if writes {
			r.expect(add == nil, "database", "transactions", "the database is changed by more than one transaction")
			add = tx
			continue
		}
		// looking
		if tx.tag == "commit" {
			if ops := r.steps(tx, "Feeds.Heads Heads.Roots Roots.Get", "Feeds.Heads", ""); ops != nil {
				r.chain(ops, pk, nonce)
			}
		}
	}
	return
}

func (r *indexRun) delFeed() {
	pk := r.par["pk"]
	if r.missing(pk, nil) {
		return
	}
	tx := r.onlyTx()
	if r.failedTx(tx) {
		return
	}
	if !r.expect(tx != nil, "database", "transaction", "nothing is removed from the database") {
		return
	}
	r.opErrors(tx, nil)
	var ops []*idxCall
	for _, op := range tx.ops {
		if op.op != "Heads.Roots" {
			ops = append(ops, op)
		}
	}
	ok := len(ops) == 2 && ops[0].op == "Feeds.Heads" && ops[1].op == "Feeds.Del"
	if r.expect(ok, "database", "operations", "the transaction does not remove the feed") {
		r.chain(ops, pk, nil)
	}
	over := false
	for _, ev := range r.evs {
		over = over || ev.Kind == "rangeend" && r.isHeadsOf(ev.Addr, pk) || ev.Kind == "eachend" && idxOp(ev) == "Heads.Iterate"
	}
	r.expect(over, "related", "all heads", "Root objects of the heads of a removed feed are not collected")
	us := r.updates()
	r.expect(len(us) == 1 && us[0].feeds && us[0].del && us[0].key == pk && us[0].pos > tx.end, "update", "feed", "a removed feed stays in memory")
	r.noList()
	r.relatedCalls()
}

// relatedCalls: the error of a failed removal is reported
func (r *indexRun) relatedCalls() {
	n := 0
	for _, ev := range r.evs {
		if ev.Kind == "call" && ev.Static != nil && ev.Static == r.related {
			n++
			r.expect(r.st.IsNil(ev.Res) != no || r.same(r.err(), ev.Res) || r.st.IsNil(r.err()) == no, "related", "failure", "a failed removal is not reported")
			if r.st.IsNil(ev.Res) == no {
				r.seen["removal failed "+r.f.Name()] = true
				return
			}
		}
	}
	if n == 0 {
		r.expect(r.st.IsNil(r.err()) == yes, "database", "no error", "success is reported as %s", r.err())
	}
	if !r.expect(len(r.loops.related) > 0, "related", "removed", "what the Root objects keep is not removed") || n > 0 {
		return
	}
	over := false
	for list, at := range r.loops.related {
		over = over || r.st.Truth(tLt(at, r.w.lenOf(r.st, list, types.Typ[types.Int]), false)) == no || r.st.Truth(tLt(at, tInt(0), false)) == yes
	}
	for _, ev := range r.evs { // nothing collected
		over = over || ev.Kind == "eachend" && ev.Tag == "none" && strings.HasPrefix(idxOp(ev), "Roots.")
	}
	r.expect(over, "related", "removed all", "the removal of what the Root objects keep ends too early")
}

func (r *indexRun) delHead() {
	pk, nonce := r.par["pk"], r.par["nonce"]
	if r.missing(pk, nonce) {
		return
	}
	tx := r.onlyTx()
	if r.failedTx(tx) {
		return
	}
	if !r.expect(tx != nil, "database", "transaction", "nothing is removed from the database") {
		return
	}
	r.opErrors(tx, nil)
	if ops := r.steps(tx, "Feeds.Heads Heads.Roots Heads.Del"); ops != nil {
		r.chain(ops, pk, nonce)
	}
	all := false
	for _, ev := range r.evs {
		if op := idxOp(ev); ev.Kind == "eachend" && (op == "Roots.Ascend" || op == "Roots.Descend") {
			all = ev.Tag == "all" || ev.Tag == "none"
		}
	}
	r.expect(all, "related", "collected all", "not all Root objects of a removed head are collected")
	us := r.updates()
	if r.expect(len(us) == 1 && !us[0].feeds && us[0].del && us[0].key == nonce && r.same(us[0].pk, pk) && us[0].pos > tx.end, "update", "head", "a removed head stays in memory") {
		t0, n0 := r.active0(us[0].hs)
		r.activeOK(us[0], r.last(pk, nonce), r.headIn(pk, nonce), t0, n0)
	}
	r.relatedCalls()
}

func (r *indexRun) delRoot() {
	st := r.st
	pk, nonce, seq := r.par["pk"], r.par["nonce"], r.par["seq"]
	if r.missing(pk, nonce) {
		return
	}
	tx := r.onlyTx()
	if tx == nil { // nothing there
		lr := r.last(pk, nonce)
		r.expect(lr != nil && st.IsNil(lr) == yes && r.same(r.err(), dataErr("ErrNotFound")), "database", "transaction", "nothing is removed from the database")
		return
	}
	if r.failedTx(tx) {
		return
	}
	r.opErrors(tx, nil)
	ops := r.steps(tx, "Feeds.Heads Heads.Roots Roots.Get Roots.Del")
	if ops == nil {
		return
	}
	r.chain(ops, pk, nonce)
	for _, op := range ops[2:] {
		r.expect(r.same(op.args[0], seq), "database", op.op+": seq", "%s of %s", op.op, op.args[0])
	}
	us := r.updates()
	lr := r.last(pk, nonce)
	if lr == nil {
		r.bad("update", "last", "removing a Root does not regard the last one")
		return
	}
	isLast := st.Truth(tEq(seq, r.drootFld(lr, "Seq")))
	// the one before
	var rec *Term
	tag := ""
	for i, ev := range r.evs {
		switch {
		case idxOp(ev) == "Roots.Descend" && ev.Kind == "eachcall":
			rec = ev.Args[1]
			r.expect(ev.Tag == "first", "update", "new last: first", "not the last of the remaining Root objects is taken")
			r.expect(i > ops[3].pos, "update", "new last: order", "the new last Root is looked for before the removal")
			r.expect(ev.Addr == ops[1].res[0], "update", "new last: head", "the new last Root is of another head")
		case idxOp(ev) == "Roots.Descend" && ev.Kind == "eachend":
			tag = ev.Tag
		}
	}
	switch isLast {
	case no:
		r.expect(len(us) == 0 || len(us) == 1 && us[0].val == lr, "update", "not last", "the last Root of a head changes although another one is removed")
	case yes:
		if !r.expect(len(us) == 1 && !us[0].feeds && !us[0].del && r.same(us[0].key, nonce) && r.same(us[0].pk, pk) && us[0].pos > tx.end, "update", "last removed", "a removed Root stays the last one in memory") {
			return
		}
		switch tag {
		case "none":
			r.expect(us[0].val == tNil || st.IsNil(us[0].val) == yes, "update", "blank", "a head without Root objects has the last one %s", us[0].val)
			r.seen["blanked"] = true
		case "stop":
			r.expect(us[0].val == rec, "update", "new last", "the last Root becomes %s", us[0].val)
			r.seen["replaced"] = true
		default:
			r.bad("update", "new last: found", "the new last Root is not looked for (%q)", tag)
		}
		t0, n0 := r.active0(us[0].hs)
		r.activeOK(us[0], lr, yes, t0, n0)
	default:
		r.bad("update", "last: regarded", "removing a Root does not regard whether it is the last")
		return
	}
	// what it keeps
	n := 0
	for _, ev := range r.evs {
		if ev.Kind == "call" && ev.Static != nil && ev.Static == r.related {
			n++
			h := r.drootFld(ops[2].res[0], "Hash")
			r.expect(r.same(ev.Args[1], h), "related", "hash", "what %s keeps is removed", ev.Args[1])
			r.expect(r.same(r.err(), ev.Res), "related", "failure", "a failed removal is not reported")
		}
	}
	r.expect(n == 1, "related", "removed", "what a removed Root keeps is removed %d times", n)
}

// lookup: methods reading the index
func (r *indexRun) lookup() {
	st := r.st
	pk, nonce := r.par["pk"], r.par["nonce"]
	r.expect(len(r.updates()) == 0 && !r.changesActive(), "lookup", "changes", "a lookup changes the index")
	switch r.f.Name() {
	case "HasFeed":
		r.expect(r.verdict(r.e.Rets[0], pk, nil), "lookup", "reply", "the reply is %s", r.e.Rets[0])
	case "HasHead":
		if r.feedIn(pk) == no {
			r.expect(st.Truth(r.e.Rets[0]) == no, "lookup", "no feed", "a head of a missing feed exists")
			return
		}
		r.expect(r.verdict(r.e.Rets[0], pk, nonce), "lookup", "reply", "the reply is %s", r.e.Rets[0])
	case "ActiveHead":
		if r.feedIn(pk) == no {
			r.expect(st.Eq(r.e.Rets[0], tInt(0)), "lookup", "no feed", "a missing feed has an active head")
			return
		}
		t := r.e.Rets[0]
		ok := isF(t, r.fNonce(), nil)
		if ok {
			m, k := elemOf(t.Args[0].Args[0])
			ok = m != nil && r.isFeeds(m) && r.same(k, pk)
		}
		r.expect(ok, "lookup", "reply", "the active head is %s", t)
	case "Feeds":
		l := r.e.Rets[0]
		r.expect(l == r.fld(r.w, st, r.self, r.index, r.fList()) || l.Op != "load", "lookup", "reply", "the list is %s", l)
		over := false
		for _, ev := range r.evs {
			over = over || ev.Kind == "rangeend" && r.isFeeds(ev.Addr)
		}
		if !over {
			l0 := r.fld(r.w, newState(), r.self, r.index, r.fList())
			fs := r.fld(r.w, newState(), r.self, r.index, r.fFeeds())
			ok := l == l0 && (st.IsNil(l0) == no || st.Eq(r.w.lenOf(st, l0, l0.T), r.w.lenOf(st, fs, fs.T)))
			r.expect(ok, "lookup", "stale", "a list that may be outdated is returned")
		}
	case "Heads":
		if r.missing(pk, nil) {
			return
		}
		over := false
		for _, ev := range r.evs {
			over = over || ev.Kind == "rangeend" && r.isHeadsOf(ev.Addr, pk)
		}
		r.expect(over && st.IsNil(r.err()) == yes, "lookup", "all", "not all heads are listed")
	default:
		if r.missing(pk, nonce) {
			return
		}
		lr := r.last(pk, nonce)
		if lr == nil {
			r.bad("lookup", "last", "the last Root is not looked for")
			return
		}
		if st.IsNil(lr) == yes {
			r.expect(r.same(r.err(), dataErr("ErrNotFound")), "lookup", "blank head", "a blank head is reported as %s", r.err())
			return
		}
		if r.f.Name() == "LastRootSeq" {
			r.expect(st.IsNil(r.err()) == yes && r.same(r.e.Rets[0], r.drootFld(lr, "Seq")), "lookup", "reply", "the seq of the last Root is %s", r.e.Rets[0])
			return
		}
		dr := lr
		if r.f.Name() == "Root" {
			seq := r.par["seq"]
			if len(r.txs) > 0 {
				tx := r.txs[0]
				if tx.tag != "commit" {
					r.failedTx(tx)
					return
				}
				r.opErrors(tx, nil)
				ops := r.steps(tx, "Feeds.Heads Heads.Roots Roots.Get")
				if ops == nil {
					return
				}
				r.chain(ops, pk, nonce)
				r.expect(r.same(ops[2].args[0], seq), "database", "Get: seq", "the Root %s is looked for", ops[2].args[0])
				dr = ops[2].res[0]
			} else {
				r.expect(st.Eq(seq, r.drootFld(lr, "Seq")), "lookup", "last", "the last Root is returned whichever is asked for")
			}
		}
		r.decoded(dr)
	}
}

// verdict: the reply says whether the feed or head is there
func (r *indexRun) verdict(t, pk, nonce *Term) bool {
	in := r.feedIn(pk)
	if nonce != nil {
		in = r.headIn(pk, nonce)
	}
	if in != unknown {
		return r.st.Truth(t) == in
	}
	if t.Op != "present" {
		return false
	}
	m, k := t.Args[0].Args[0], t.Args[0].Args[1]
	if nonce != nil {
		return r.isHeadsOf(m, pk) && r.same(k, nonce)
	}
	return r.isFeeds(m) && r.same(k, pk)
}

// decoded: the Root of a record
func (r *indexRun) decoded(dr *Term) {
	st := r.st
	var get, dec *Event
	for _, ev := range r.evs {
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, "skyobject.Cache).Get") {
			get = ev
		}
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, "registry.DecodeRoot") {
			dec = ev
		}
	}
	if !r.expect(get != nil, "lookup", "value", "the value of the Root is not looked for") {
		return
	}
	n := len(get.Args)
	r.expect(r.same(get.Args[n-2], r.drootFld(dr, "Hash")) && r.same(get.Args[n-1], tInt(0)), "lookup", "value: hash", "%s is looked for, changing its count by %s", get.Args[n-2], get.Args[n-1])
	if st.IsNil(get.Res.Args[2]) != yes || dec == nil {
		r.expect(st.IsNil(get.Res.Args[2]) == no && r.same(r.err(), get.Res.Args[2]), "lookup", "value: error", "a missing value is reported as %s", r.err())
		return
	}
	r.expect(dec.Args[0] == get.Res.Args[0], "lookup", "decoded", "%s is decoded", dec.Args[0])
	if st.IsNil(dec.Res.Args[1]) != yes {
		r.expect(r.same(r.err(), dec.Res.Args[1]), "lookup", "decoded: error", "a failure of decoding is reported as %s", r.err())
		return
	}
	rt := r.e.Rets[0]
	r.expect(st.IsNil(r.err()) == yes && rt == dec.Res.Args[0], "lookup", "root", "the Root returned is %s", rt)
	r.expect(r.same(r.fld(r.w, st, rt, r.root, "Hash"), r.drootFld(dr, "Hash")), "lookup", "root: Hash", "the hash of the Root is %s", r.fld(r.w, st, rt, r.root, "Hash"))
	r.expect(r.same(r.fld(r.w, st, rt, r.root, "Sig"), r.drootFld(dr, "Sig")), "lookup", "root: Sig", "the signature of the Root is %s", r.fld(r.w, st, rt, r.root, "Sig"))
	r.expect(st.Truth(r.fld(r.w, st, rt, r.root, "IsFull")) == yes, "lookup", "root: IsFull", "a Root of the index is not full")
	r.seen["decoded "+r.f.Name()] = true
}

// byHash: a Root by its hash
func (r *indexRun) byHash() {
	st := r.st
	if st.IsNil(r.err()) == no || st.IsNil(r.err()) == unknown {
		return
	}
	var get, dec *Event
	for _, ev := range r.evs {
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, "skyobject.Cache).Get") {
			get = ev
		}
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, "registry.DecodeRoot") {
			dec = ev
		}
	}
	rt := r.e.Rets[0]
	ok := get != nil && dec != nil && st.IsNil(get.Res.Args[2]) == yes && st.IsNil(dec.Res.Args[1]) == yes && dec.Args[0] == get.Res.Args[0] && rt == dec.Res.Args[0]
	if !r.expect(ok, "lookup", "root", "the Root returned is %s", rt) {
		return
	}
	n := len(get.Args)
	r.expect(r.same(get.Args[n-2], r.par["hash"]) && r.same(get.Args[n-1], tInt(0)), "lookup", "hash", "%s is looked for", get.Args[n-2])
	r.expect(r.same(r.fld(r.w, st, rt, r.root, "Hash"), r.par["hash"]), "lookup", "root: Hash", "the hash of the Root is %s", r.fld(r.w, st, rt, r.root, "Hash"))
	r.expect(st.Truth(r.fld(r.w, st, rt, r.root, "IsFull")) == yes, "lookup", "root: IsFull", "a Root of the index is not full")
	pk, nonce, seq := r.fld(r.w, st, rt, r.root, "Pub"), r.fld(r.w, st, rt, r.root, "Nonce"), r.fld(r.w, st, rt, r.root, "Seq")
	dr := r.last(pk, nonce)
	if len(r.txs) > 0 {
		r.opErrors(r.txs[0], nil)
		if ops := r.steps(r.txs[0], "Feeds.Heads Heads.Roots Roots.Get"); ops != nil && r.txs[0].tag == "commit" {
			r.chain(ops, pk, nonce)
			r.expect(r.same(ops[2].args[0], seq), "database", "Get: seq", "the Root %s is looked for", ops[2].args[0])
			dr = ops[2].res[0]
		}
	} else {
		r.expect(dr != nil && st.Eq(seq, r.drootFld(dr, "Seq")), "lookup", "last", "the signature is that of the last Root whichever is asked for")
	}
	r.expect(dr != nil && r.same(r.fld(r.w, st, rt, r.root, "Sig"), r.drootFld(dr, "Sig")), "lookup", "root: Sig", "the signature of the Root is %s", r.fld(r.w, st, rt, r.root, "Sig"))
}

func (r *indexRun) loaded() {
	tx := r.onlyTx()
	if !r.expect(tx != nil, "load", "transaction", "the database is not read") {
		return
	}
	if tx.tag != "commit" {
		r.expect(r.st.IsNil(r.err()) == no, "database", "failure", "a failed transaction is not reported: %s", r.err())
		return
	}
	r.expect(r.st.IsNil(r.err()) == yes, "database", "no error", "success is reported as %s", r.err())
	for _, ev := range r.evs {
		if idxOp(ev) == "Feeds.Iterate" && ev.Kind == "eachend" {
			r.expect(ev.Tag == "all" || ev.Tag == "none", "load", "all feeds", "the iteration over feeds ends by %q", ev.Tag)
			r.seen["loaded "+ev.Tag] = true
		}
	}
}

// relatedRule: removing what a Root keeps
func (x *indexCtx) relatedRule() {
	f := x.related
	x.related = nil
	defer func() { x.related = f }()
	w := x.walker()
	name := f.Name()
	hash := mk("param", "hash", f.Params[1].Type())
	self := x.self
	if !types.Identical(deref(f.Params[0].Type()), x.index) {
		self = mk("param", "c", f.Params[0].Type())
	}
	gets := func(evs []*Event) (out []*Event) {
		for _, ev := range evs {
			if ev.Kind == "call" && ev.Static != nil && ev.Static.Signature.Recv() != nil && typeName(deref(ev.Static.Signature.Recv().Type())) == "Cache" && ev.Static.Signature.Results().Len() == 3 {
				out = append(out, ev)
			}
		}
		return
	}
	ext := func(ev *Event, n string) bool { return strings.HasSuffix(ev.Name, n) }
	one := func(ev *Event, params []*Term, st *State, rets []*Term, at string) {
		var g *Event
		start := false
		n := 0
		for _, e := range st.Events() {
			if e.Kind == "eachcall" {
				start = true
			}
			if !start {
				continue
			}
			for _, q := range gets([]*Event{e}) {
				g = q
				n++
			}
		}
		if !x.c.Expect(n == 1, "related", name+": once", at, "the count of an object changes %d times", n) {
			return
		}
		k := len(g.Args)
		x.c.Expect(g.Args[k-2] == params[0] && g.Args[k-1] == tInt(-1), "related", name+": count", at, "the count of %s changes by %s", g.Args[k-2], g.Args[k-1])
		if st.IsNil(g.Res.Args[2]) == yes {
			rc := g.Res.Args[1]
			deep := st.Truth(rets[0])
			zero := st.Truth(tEq(rc, tInt(0)))
			x.c.Expect(deep != unknown && deep == zero, "related", name+": deeper", at, "an object is walked although it is still used, or is not although it is gone")
			if deep == yes {
				x.seen["walks deeper"] = true
			}
		} else {
			x.c.Expect(st.IsNil(g.Res.Args[2]) == no && st.IsNil(rets[1]) == no, "related", name+": error", at, "a failure is not reported")
		}
	}
	w.OnEach = func(ev *Event, params []*Term, pre *State, e *Exit) {
		if ext(ev, "registry.Root).Walk") {
			one(ev, params, e.St, e.Rets, x.c.at(e.Instr))
		}
	}
	ok := false
	for _, e := range w.Run(f, []*Term{self, hash}, nil, nil) {
		at := x.c.at(e.Instr)
		if e.Panic {
			x.c.Bad("related", name+": panic", at, "%s panics", name)
			continue
		}
		var walk, end *Event
		var before []*Event
		var dec *Event
		for i, ev := range e.St.Events() {
			if ev.Kind == "each" && ext(ev, "registry.Root).Walk") {
				walk = ev
				before = e.St.Events()[:i]
			}
			if ev.Kind == "eachend" && ext(ev, "registry.Root).Walk") {
				end = ev
			}
			if ev.Kind == "call" && ext(ev, "registry.DecodeRoot") {
				dec = ev
			}
		}
		err := e.Rets[0]
		if walk == nil {
			stop := mk("sentinel", modPath+"/skyobject/registry.ErrStopIteration", nil)
			x.c.Expect(e.St.IsNil(err) == no || stopped(e.St, stop), "related", name+": failure", at, "a failure is not reported: %s", err)
			continue
		}
		ok = true
		if end != nil && end.Tag != "all" && end.Tag != "none" && end.Tag != "stop" {
			stop := mk("sentinel", modPath+"/skyobject/registry.ErrStopIteration", nil)
			x.c.Expect(e.St.IsNil(err) == no || e.St.Eq(end.Res, stop), "related", name+": walk failure", at, "a failed walk is not reported: %s", err)
		}
		var gs []*Event
		for _, g := range gets(before) {
			if g.Args[len(g.Args)-1] != tInt(0) {
				gs = append(gs, g)
			}
		}
		var rh, reg bool
		for _, g := range gs {
			k := g.Args[len(g.Args)-2]
			rh = rh || e.St.Eq(k, hash)
			if k.any(func(y *Term) bool { return isF(y, "Reg", nil) }) {
				reg = true
			}
			x.c.Expect(g.Args[len(g.Args)-1] == tInt(-1), "related", name+": root count", at, "the count changes by %s", g.Args[len(g.Args)-1])
			x.c.Expect(e.St.IsNil(g.Res.Args[2]) == yes, "related", name+": root error", at, "a failure is not regarded")
		}
		x.c.Expect(len(gs) == 2 && rh && reg, "related", name+": root and registry", at, "not the Root and its registry lose one each")
		x.c.Expect(dec != nil && walk.Addr == dec.Res.Args[0], "related", name+": walked", at, "%s is walked", walk.Addr)
	}
	x.c.Expect(ok && x.seen["walks deeper"], "related", name+": walks", x.c.P.pos(f.Pos()), "%s does not walk through the Root", name)
	x.c.Done(w)
}

// stopped: a call gave the error that ends a walk
func stopped(st *State, stop *Term) bool {
	for _, ev := range st.Events() {
		if ev.Kind == "call" && ev.Res != nil && ev.Res.Op == "tuple" {
			if e := ev.Res.Args[len(ev.Res.Args)-1]; isErrorT(e.T) && st.Eq(e, stop) {
				return true
			}
		}
	}
	return false
}
