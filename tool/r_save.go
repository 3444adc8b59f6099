package main

// Saving a Root: counts of references of what it keeps, the chain of Root
// objects, the record in the index.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("V01", "Saving a Root keeps the counts of references and the chain of Root objects",
		"Every path of Save, and of the methods of the Unpack, is enumerated with transactions that commit, fail or cannot be started; a round of walking through the Root, of the last step, and of a reset is judged from an arbitrary state.", checkV01)
}

type saveCtx struct {
	closing bool
	*indexCtx
	unpack, item     *types.Named
	fM, fSk, fPack   string // fields of the Unpack
	fInc, fDec, fNew string // fields of an item
	resets, finals   map[*ssa.BasicBlock][]string
	resetN, finalN   map[*ssa.BasicBlock]int
	refs             map[*Term]*Term
	enc              map[*Event]map[string]*Term
	pre              map[*Event][2]*Term
	walked           map[*Event]*Term
}

type saveRun struct {
	*indexRun
	x  *saveCtx
	up *Term
}

func newSaveCtx(c *Ctx) *saveCtx {
	ix := newIndexCtx(c)
	if ix == nil {
		return nil
	}
	x := &saveCtx{indexCtx: ix, unpack: c.P.Named("skyobject", "Unpack")}
	if x.unpack == nil {
		c.Anchor("skyobject.Unpack")
		return nil
	}
	isItem := func(t types.Type) bool {
		n, ok := deref(t).(*types.Named)
		if !ok || !isPtrT(t) {
			return false
		}
		_, ok = n.Underlying().(*types.Struct)
		return ok
	}
	x.fM = fieldBy(x.unpack, isMapT(isNamedT("SHA256"), isItem))
	x.fSk = fieldBy(x.unpack, isNamedT("SecKey"))
	x.fPack = fieldBy(x.unpack, func(t types.Type) bool { return typeName(deref(t)) == "Pack" })
	if x.fM == "" || x.fSk == "" || x.fPack == "" {
		c.Anchor("skyobject: fields of Unpack")
		return nil
	}
	_, mt := fieldIndex(x.unpack, x.fM)
	x.item = deref(mt.Underlying().(*types.Map).Elem()).(*types.Named)
	x.fNew = fieldBy(x.item, isBool)
	// saved times: the number that setting increments
	var ints []string
	s := x.item.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if isNum(s.Field(i).Type()) {
			ints = append(ints, s.Field(i).Name())
		}
	}
	set := c.P.Method("skyobject", "Unpack", "Set")
	if x.fNew == "" || len(ints) != 2 || set == nil {
		c.Anchor("skyobject: what an Unpack keeps of an object")
		return nil
	}
	for g := range c.P.Reach(set) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), x.item) && isNum(deref(fa.Type())) {
						x.fInc = s.Field(fa.Field).Name()
					}
				}
			}
		}
	}
	if x.fInc == "" {
		c.Anchor("skyobject: the number of times an Unpack saved an object")
		return nil
	}
	x.fDec = ints[0]
	if x.fDec == x.fInc {
		x.fDec = ints[1]
	}
	return x
}

func (x *saveCtx) runSave(f *ssa.Function, judge func(r *saveRun)) {
	x.resets, x.finals = map[*ssa.BasicBlock][]string{}, map[*ssa.BasicBlock][]string{}
	x.resetN, x.finalN = map[*ssa.BasicBlock]int{}, map[*ssa.BasicBlock]int{}
	x.refs, x.enc, x.pre, x.walked = map[*Term]*Term{}, map[*Event]map[string]*Term{}, map[*Event][2]*Term{}, map[*Event]*Term{}
	w := x.walker()
	w.Through = func(name string) string {
		if name == "(*"+modPath+"/skyobject/registry.Dynamic).Walk" {
			return "each"
		}
		return idxThrough(name)
	}
	ir := &indexRun{indexCtx: x.indexCtx, w: w, f: f, name: f.Name(), par: map[string]*Term{}}
	r := &saveRun{indexRun: ir, x: x}
	st := newState()
	args := make([]*Term, len(f.Params))
	for i, p := range f.Params {
		args[i] = mk("param", p.Name(), p.Type())
		switch {
		case types.Identical(deref(p.Type()), x.root):
			ir.par["root"] = args[i]
			st.assume(tEq(args[i], tNil), false)
		case types.Identical(deref(p.Type()), x.unpack):
			r.up = args[i]
			st.assume(tEq(args[i], tNil), false)
		default:
			ir.par[p.Name()] = args[i]
			ir.par["#"+typeName(deref(p.Type()))] = args[i]
		}
	}
	ir.loops = &idxLoops{pre: map[*Event][2]*Term{}, active: map[string]bool{}, badPair: map[string]bool{}, related: map[*Term]*Term{}, rec: map[*Event]map[string]*Term{}}
	w.OnEvent = func(st *State, ev *Event) bool {
		x.event(r, st, ev)
		return true
	}
	sub := func(e *Exit) *saveRun {
		q, qi := *r, *ir
		q.indexRun = &qi
		qi.set(e)
		return &q
	}
	w.OnBack = func(g *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
		sub(&Exit{St: st, Fn: g}).back(g, head, env)
	}
	w.OnEach = func(ev *Event, params []*Term, pre *State, e *Exit) {
		sub(e).each(ev, params, pre)
	}
	for _, e := range w.Run(f, args, nil, st) {
		dbg("exit", f.Name(), e)
		q := sub(e)
		if e.Panic {
			q.bad("save", "panic", "%s panics", f.Name())
			continue
		}
		judge(q)
	}
	x.c.Done(w)
}

// Root fields that are encoded
var savedFields = []string{"Seq", "Prev", "Time", "Reg", "Pub", "Nonce"}

func (r *saveRun) cacheOp(ev *Event, name string) bool {
	return ev.Kind == "call" && strings.HasSuffix(ev.Name, "skyobject.Cache)."+name)
}

func (r *saveRun) isM(m *Term) bool {
	return isF(m, r.x.fM, nil)
}

func (r *saveRun) itemFld(st *State, it *Term, n string) *Term {
	return r.fld(r.w, st, it, r.x.item, n)
}

// event remembers what is needed of the state at an event
func (x *saveCtx) event(r *saveRun, st *State, ev *Event) {
	switch {
	case ev.Kind == "call" && idxOp(ev) == "Roots.Set":
		m := map[string]*Term{}
		for _, f := range recordFields {
			m[f] = x.fld(r.w, st, ev.Args[1], x.droot, f)
		}
		r.loops.rec[ev] = m
	case ev.Kind == "call" && strings.HasSuffix(ev.Name, "registry.Root).Encode"):
		m := map[string]*Term{}
		for _, f := range savedFields {
			m[f] = x.fld(r.w, st, ev.Args[0], x.root, f)
		}
		x.enc[ev] = m
	case ev.Kind == "range" && isHeadsMap(x.indexCtx, ev.Addr):
		hs := ev.Addr.Args[0].Args[0]
		r.loops.pre[ev] = [2]*Term{x.fld(r.w, st, hs, x.heads, x.fTime()), x.fld(r.w, st, hs, x.heads, x.fNonce())}
	case ev.Kind == "range" && r.isM(ev.Addr):
		x.pre[ev] = [2]*Term{r.itemFld(st, ev.Args[1], x.fInc), r.itemFld(st, ev.Args[1], x.fDec)}
	case ev.Kind == "each" && strings.HasSuffix(ev.Name, "registry.Dynamic).Walk"):
		v := ev.Addr
		if v.Op == "alloc" {
			v = r.w.load(st, v, deref(v.T))
		}
		x.walked[ev] = v
	}
}

// back: a round of a loop
func (r *saveRun) back(g *ssa.Function, head *ssa.BasicBlock, env map[ssa.Value]*Term) {
	x, st := r.x, r.st
	var cur *Event
	pos := 0
	for i, ev := range r.evs {
		if ev.Kind == "range" && ev.Instr.Block() == head {
			cur, pos = ev, i
		}
	}
	if x.closing {
		r.closeRound(head)
		return
	}
	switch {
	case cur != nil && isHeadsMap(r.indexCtx, cur.Addr):
		if !r.activeRound(g, head, env, cur, pos) {
			r.c.Bad("index", "loop over heads", r.c.P.pos(g.Pos()), "a loop over heads does something else than looking for the newest one")
		}
	case cur != nil && r.isM(cur.Addr):
		x.finalN[head]++
		if what := r.resetRound(cur); what != "" {
			x.resets[head] = append(x.resets[head], what)
		}
		if what := r.finalRound(cur, pos); what != "" {
			x.finals[head] = append(x.finals[head], what)
		}
	default: // walks through the references
		n := 0
		for _, ev := range r.evs {
			if ev.Kind != "each" || !strings.HasSuffix(ev.Name, "registry.Dynamic).Walk") {
				continue
			}
			n++
			v := x.walked[ev]
			if v.Op == "load" {
				v = v.Args[0]
			}
			if !r.c.Expect(v.Op == "idx" && isF(v.Args[0], "Refs", nil), "walk", "reference", r.c.at(ev.Instr), "%s is walked, not a reference of the Root", v) {
				continue
			}
			x.refs[v.Args[0]] = v.Args[1]
			first, last := tLt(tInt(0), v.Args[1], false), tLt(v.Args[1], tAdd(r.w.lenOf(st, v.Args[0], types.Typ[types.Int]), tInt(-1)), false)
			r.c.Expect(st.Truth(first) != yes && st.Truth(last) != yes, "walk", "every reference", r.c.at(ev.Instr), "not every reference of the Root is walked")
			ok := len(ev.Args) > 1 && ev.Args[1].any(func(y *Term) bool { return y == r.up })
			r.c.Expect(ok, "walk", "pack", r.c.at(ev.Instr), "the walk does not use the Unpack")
		}
		r.c.Expect(n == 1, "walk", "once", r.c.P.pos(g.Pos()), "a reference of the Root is walked %d times", n)
	}
}

// resetRound: the object is not used any more
func (r *saveRun) resetRound(cur *Event) string {
	for _, ev := range r.evs {
		if ev.Kind == "range" && ev == cur {
			break
		}
	}
	it := cur.Args[1]
	if !r.st.Eq(r.itemFld(r.st, it, r.x.fDec), tInt(0)) {
		return "an object stays used after a failure"
	}
	if !r.same(r.itemFld(r.st, it, r.x.fInc), r.x.pre[cur][0]) {
		return "an object counts as saved another number of times after a failure"
	}
	return ""
}

// finalRound: the count of an object becomes the number of its uses
func (r *saveRun) finalRound(cur *Event, pos int) string {
	st, x := r.st, r.x
	key := cur.Args[0]
	pre := x.pre[cur]
	use := int64(0)
	for _, f := range []string{"Hash", "Reg"} {
		v := r.rootFld(f)
		switch st.Truth(tEq(key, v)) {
		case yes:
			use = 1
		case unknown:
			for _, o := range []string{"Hash", "Reg"} {
				if o != f && st.Eq(key, r.rootFld(o)) {
					use = 1
				}
			}
			if use == 0 {
				return "the last step does not regard whether an object is the " + f + " of the Root"
			}
		}
	}
	want := tSub(tAdd(pre[1], tInt(use)), pre[0])
	sum := tInt(0)
	for _, ev := range r.evs[pos:] {
		if r.cacheOp(ev, "Inc") {
			n := len(ev.Args)
			if !r.same(ev.Args[n-2], key) {
				return "the count of another object changes"
			}
			sum = tAdd(sum, ev.Args[n-1])
			if st.IsNil(ev.Res.Args[len(ev.Res.Args)-1]) != yes {
				return "the last step goes on after a failure"
			}
		}
	}
	if !r.same(sum, want) {
		return "the count of an object changes by " + sum.String() + " instead of " + want.String()
	}
	if present(st, r.isM, key) != no && !r.deleted(key, pos) {
		return "an object stays in the Unpack although it is saved"
	}
	return ""
}

func (r *saveRun) deleted(key *Term, pos int) bool {
	for _, ev := range r.evs[pos:] {
		if ev.Kind == "mapdelete" && r.isM(ev.Addr) && ev.Args[0] == key {
			return true
		}
	}
	return false
}

// after: the end of a loop over what the Unpack has, of a kind
func (r *saveRun) after(bad map[*ssa.BasicBlock][]string) (found bool, why string) {
	why = "there is no such step"
	for _, ev := range r.evs {
		if ev.Kind == "rangeend" && r.isM(ev.Addr) {
			h := ev.Instr.Block()
			if r.x.finalN[h] == 0 {
				continue
			}
			if len(bad[h]) == 0 {
				return true, ""
			}
			why = bad[h][0]
		}
	}
	return
}

// each: a round of an iteration
func (r *saveRun) each(ev *Event, params []*Term, pre *State) {
	if !strings.HasSuffix(ev.Name, "registry.Dynamic).Walk") {
		return
	}
	st, x := r.st, r.x
	hash := params[0]
	deep := r.e.Rets[0]
	start := 0
	for i, e := range r.evs {
		if e.Kind == "eachcall" && e.Addr == ev.Addr {
			start = i
		}
	}
	var incs, ups []*Event
	for _, e := range r.evs[start:] {
		if r.cacheOp(e, "Inc") || r.cacheOp(e, "Set") || r.cacheOp(e, "Finc") {
			incs = append(incs, e)
		}
		if (e.Kind == "mapupdate" || e.Kind == "mapdelete") && r.isM(e.Addr) {
			ups = append(ups, e)
		}
	}
	blank := st.Truth(tEq(hash, zeroTerm(hash.T)))
	if blank == yes {
		r.expect(len(incs) == 0 && len(ups) == 0 && st.Truth(deep) == no, "walk", "blank", "a blank reference counts as used")
		r.x.seen["blank"] = true
		return
	}
	r.expect(blank == no, "walk", "blank", "a blank reference counts as used")
	switch present(st, r.isM, hash) {
	case no:
		ok := len(incs) == 1 && r.cacheOp(incs[0], "Inc")
		if ok {
			n := len(incs[0].Args)
			ok = incs[0].Args[n-2] == hash && incs[0].Args[n-1] == tInt(1) && st.IsNil(incs[0].Res.Args[len(incs[0].Res.Args)-1]) == yes
		}
		r.expect(ok, "walk", "kept object", "an object saved before is not counted as used once more")
		if r.expect(len(ups) == 1 && ups[0].Kind == "mapupdate" && ups[0].Args[0] == hash, "walk", "kept object: noted", "the use of an object saved before is not noted") {
			it := ups[0].Val
			ok := st.Eq(r.itemFld(st, it, x.fInc), tInt(1)) && st.Eq(r.itemFld(st, it, x.fDec), tInt(1)) && st.Truth(r.itemFld(st, it, x.fNew)) == no
			r.expect(ok, "walk", "kept object: item", "an object saved before is noted as saved %s times, used %s times", r.itemFld(st, it, x.fInc), r.itemFld(st, it, x.fDec))
		}
		r.expect(st.Truth(deep) == no, "walk", "kept object: deeper", "objects of an object saved before count as used again")
		x.seen["kept"] = true
	case yes:
		r.expect(len(incs) == 0 && len(ups) == 0, "walk", "new object", "the count of an object changes although it is saved by the Unpack")
		it := r.itemOf(hash)
		if !r.expect(it != nil, "walk", "new object: item", "the use of an object is not noted") {
			return
		}
		d0 := r.itemFld(pre, it, x.fDec)
		r.expect(r.same(r.itemFld(st, it, x.fDec), tAdd(d0, tInt(1))), "walk", "new object: used", "the number of uses of an object becomes %s", r.itemFld(st, it, x.fDec))
		r.expect(r.same(r.itemFld(st, it, x.fInc), r.itemFld(pre, it, x.fInc)), "walk", "new object: saved", "the number of times an object is saved changes")
		created := r.itemFld(pre, it, x.fNew)
		r.expect(r.same(r.itemFld(st, it, x.fNew), created), "walk", "new object: created", "whether the object is new changes")
		yesS, noS := st.clone(), st.clone()
		if yesS.assume(deep, true) {
			r.expect(yesS.Truth(created) == yes && yesS.Eq(d0, tInt(0)), "walk", "deeper", "objects of an object count as used although it is not new, or more than once")
			x.seen["deeper"] = true
		}
		if noS.assume(deep, false) {
			r.expect(noS.Truth(created) == no || noS.Ne(d0, tInt(0)), "walk", "not deeper", "objects of a new object do not count as used")
		}
	default:
		r.bad("walk", "known", "whether the Unpack saved an object is not regarded")
	}
}

// itemOf: what the Unpack has of an object
func (r *saveRun) itemOf(key *Term) (out *Term) {
	look := func(t *Term) {
		t.any(func(y *Term) bool {
			if m, k := elemOf(y); m != nil && r.isM(m) && r.same(k, key) {
				out = y
			}
			return false
		})
	}
	for _, ev := range r.evs {
		if ev.Kind == "store" && ev.Addr != nil {
			look(ev.Addr)
		}
	}
	if out == nil {
		for _, t := range factTerms(r.st) {
			look(t)
		}
	}
	return
}

// save: Container.Save
func (r *saveRun) save() {
	st, x := r.st, r.x
	err := r.err()
	var started bool
	var tx *idxTx
	if len(r.txs) > 0 {
		tx = r.txs[0]
		r.expect(len(r.txs) == 1, "root", "transactions", "a Root is saved by %d transactions", len(r.txs))
	}
	for _, ev := range r.evs {
		if ev.Kind == "eachend" && strings.HasSuffix(ev.Name, "registry.Dynamic).Walk") {
			started = true
			if ev.Tag == "fail" || ev.Tag == "err" {
				r.expect(r.same(err, ev.Res), "walk", "failure", "a failed walk is reported as %s", err)
			}
		}
	}
	started = started || tx != nil
	pub, nonce := r.rootFld("Pub"), r.rootFld("Nonce")
	if st.IsNil(err) != yes {
		r.expect(st.IsNil(err) == no, "save", "error", "a failure is reported as %s", err)
		if started {
			ok, why := r.after(x.resets)
			r.expect(ok, "reset", "after a failure", "%s", why)
			x.seen["reset"] = true
		}
		if tx != nil && tx.tag != "commit" {
			us := r.updates()
			r.expect(len(us) == 0 && !r.changesActive(), "index", "failure", "the index changes although the transaction failed")
		}
		if tx == nil && !started {
			r.expect(len(r.updates()) == 0, "save", "refused: index", "the index changes although the Root is refused")
			for _, ev := range r.evs {
				if r.cacheOp(ev, "Inc") || r.cacheOp(ev, "Set") {
					r.bad("save", "refused: objects", "counts of objects change although the Root is refused")
				}
			}
		}
		return
	}
	// saved
	if !r.expect(tx != nil && tx.tag == "commit", "root", "transaction", "success is reported although the Root is not saved in the database") {
		return
	}
	r.expect(st.Ne(pub, zeroTerm(pub.T)), "save", "blank Pub", "a Root without Pub is saved")
	r.expect(st.Ne(nonce, tInt(0)), "save", "zero Nonce", "a Root without Nonce is saved")
	r.registry()
	over := false
	for list, at := range x.refs {
		over = over || st.Truth(tLt(at, r.w.lenOf(st, list, types.Typ[types.Int]), false)) == no || st.Truth(tLt(at, tInt(0), false)) == yes
	}
	r.expect(over, "walk", "all references", "the references of the Root are not walked, or not all of them")
	ok, why := r.after(x.finals)
	r.expect(ok, "counts", "last step", "%s", why)
	x.seen["saved"] = true
	// the transaction
	r.opErrors(tx, nil)
	ops := r.steps(tx, "Feeds.Heads Heads.Add Roots.Set")
	if ops == nil {
		return
	}
	r.chain(ops, pub, nonce)
	r.root(tx, ops)
	r.inIndex(tx, ops)
}

// root: the fields of the Root, its value and its record
func (r *saveRun) root(tx *idxTx, ops []*idxCall) {
	st, x := r.st, r.x
	var rec *Term
	tag := ""
	for _, ev := range r.evs {
		switch op := idxOp(ev); {
		case op == "Roots.Descend" && ev.Kind == "eachcall":
			rec = ev.Args[1]
			r.expect(ev.Tag == "first", "chain", "last", "not the last Root is the one before")
			r.expect(ev.Addr == ops[1].res[0], "chain", "head", "the Root before is of another head")
		case op == "Roots.Descend" && ev.Kind == "eachend":
			tag = ev.Tag
		}
	}
	seq, prev := r.rootFld("Seq"), r.rootFld("Prev")
	switch tag {
	case "stop":
		h := r.drootFld(rec, "Hash")
		if st.Eq(h, zeroTerm(h.T)) {
			return // there is no such Root
		}
		r.expect(r.same(seq, tAdd(r.drootFld(rec, "Seq"), tInt(1))), "chain", "Seq", "the Seq becomes %s", seq)
		r.expect(r.same(prev, h), "chain", "Prev", "the Prev becomes %s", prev)
		x.seen["next"] = true
	case "none":
		r.expect(st.Eq(seq, tInt(0)), "chain", "first: Seq", "the Seq of the first Root is %s", seq)
		r.expect(st.Eq(prev, zeroTerm(prev.T)), "chain", "first: Prev", "the Prev of the first Root is %s", prev)
		x.seen["first"] = true
	default:
		r.bad("chain", "last: found", "the last Root is not looked for (%q)", tag)
	}
	var enc, sign *Event
	var sets []*Event
	encPos, signPos := 0, 0
	for i, ev := range r.evs {
		if ev.Kind != "call" {
			continue
		}
		switch {
		case strings.HasSuffix(ev.Name, "registry.Root).Encode"):
			enc, encPos = ev, i
		case strings.HasSuffix(ev.Name, "cipher.SignHash"):
			sign, signPos = ev, i
		case r.cacheOp(ev, "Set"):
			sets = append(sets, ev)
		}
	}
	_ = signPos
	if !r.expect(enc != nil && enc.Args[0] == r.par["root"], "root", "encoded", "the Root is not encoded") {
		return
	}
	for _, f := range savedFields {
		r.expect(r.same(x.enc[enc][f], r.rootFld(f)), "root", "encoded: "+f, "the %s of the Root changes after it is encoded", f)
	}
	for _, ev := range r.evs[encPos:] {
		if ev.Kind == "store" && ev.Addr.Op == "field" && ev.Addr.Args[0] == r.par["root"] {
			switch ev.Addr.Aux {
			case "Hash", "Sig", "IsFull":
			default:
				r.bad("root", "encoded: "+ev.Addr.Aux, "the %s of the Root is set after it is encoded", ev.Addr.Aux)
			}
		}
	}
	t := r.rootFld("Time")
	r.expect(t.any(func(y *Term) bool { return strings.Contains(y.Aux, "time.Now") }) && t.any(func(y *Term) bool { return strings.Contains(y.Aux, "UnixNano") }), "root", "Time", "the Time of the Root is %s", t)
	hash := r.rootFld("Hash")
	r.expect(isHashOf(hash, enc.Res), "root", "Hash", "the Hash of the Root is %s", hash)
	if r.expect(sign != nil && r.same(sign.Args[0], hash) && isF(sign.Args[1], x.fSk, r.up), "root", "signed", "the Root is not signed with the key of the Unpack") {
		r.expect(st.IsNil(sign.Res.Args[1]) == yes, "root", "signed: error", "a failure to sign is not regarded")
		r.expect(r.same(r.rootFld("Sig"), sign.Res.Args[0]), "root", "Sig", "the Sig of the Root is %s", r.rootFld("Sig"))
	}
	r.expect(st.Truth(r.rootFld("IsFull")) == yes, "root", "IsFull", "a saved Root is not full")
	// its value and registry
	val, reg := 0, 0
	for _, ev := range sets {
		n := len(ev.Args)
		k, v := ev.Args[n-3], ev.Args[n-2]
		switch {
		case r.same(k, hash):
			val++
			r.expect(v == enc.Res, "root", "value", "the value of the Root is %s", v)
		case r.same(unconv(k), r.rootFld("Reg")):
			reg++
			r.expect(v.any(func(y *Term) bool { return strings.Contains(y.Aux, "Registry).Encode") }) && v.any(func(y *Term) bool { return y.any(func(z *Term) bool { return z == r.up }) }), "root", "registry value", "the value of the registry is %s", v)
		default:
			r.bad("root", "objects", "%s is saved", k)
		}
		r.expect(st.IsNil(ev.Res.Args[1]) == yes, "root", "object: error", "a failure to save is not regarded")
		r.expect(r.noted(ev, k), "root", "object: noted", "what is saved with the Root is not noted by the Unpack")
	}
	r.expect(val == 1 && reg == 1, "root", "value and registry", "the value of the Root is saved %d times, the registry %d times", val, reg)
	// the record
	for _, f := range recordFields {
		v := r.loops.rec[ops[2].ev][f]
		r.expect(r.same(v, r.rootFld(f)), "root", "record: "+f, "the record of the Root has %s as %s", v, f)
	}
}

// noted: the Unpack notes what is saved
func (r *saveRun) noted(set *Event, key *Term) bool {
	after := false
	for _, ev := range r.evs {
		switch {
		case ev == set:
			after = true
		case !after:
		case ev.Kind == "mapupdate" && r.isM(ev.Addr) && r.same(ev.Args[0], key):
			return true
		case ev.Kind == "store" && ev.Addr.Op == "field" && ev.Addr.Aux == r.x.fInc:
			if m, k := elemOf(ev.Addr.Args[0]); m != nil && r.isM(m) && r.same(k, key) {
				return true
			}
		}
	}
	return false
}

// registry: the Root gets the registry of the Unpack, if it can
func (r *saveRun) registry() {
	st := r.st
	reg := r.rootFld("Reg")
	ok := false
	for _, ev := range r.evs {
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, "registry.Registry).Reference") && ev.Args[0].any(func(y *Term) bool { return y == r.up }) {
			ok = ok || r.same(reg, ev.Res)
		}
	}
	r.expect(ok, "save", "registry", "a Root is saved with the registry %s", reg)
	reg0, refs0 := r.rootFld0("Reg"), r.rootFld0("Refs")
	ok = st.Eq(reg0, reg) || st.Eq(reg0, zeroTerm(reg0.T)) || st.Eq(r.w.lenOf(st, refs0, types.Typ[types.Int]), tInt(0))
	r.expect(ok, "save", "registry of references", "the registry of a Root with references changes")
}

func (r *saveRun) rootFld0(f string) *Term {
	return r.fld(r.w, newState(), r.par["root"], r.x.root, f)
}

// isHashOf: the hash of a value
func isHashOf(t, val *Term) bool {
	return t.any(func(y *Term) bool { return strings.Contains(y.Aux, "SumSHA256") && len(y.Args) > 0 && y.Args[0] == val })
}

// inIndex: the Root is the last one of its head
func (r *saveRun) inIndex(tx *idxTx, ops []*idxCall) {
	us := r.updates()
	pub, nonce := r.rootFld("Pub"), r.rootFld("Nonce")
	if !r.expect(len(us) == 1 && !us[0].feeds && !us[0].del && r.same(us[0].pk, pub) && r.same(us[0].key, nonce) && us[0].val == ops[2].args[0] && us[0].pos > tx.end, "index", "last", "a saved Root is not the last one of the index") {
		return
	}
	t0, n0 := r.active0(us[0].hs)
	r.activeOK(us[0], r.last(pub, nonce), unknown, t0, n0)
}

// set: Unpack.Set
func (r *saveRun) set1() {
	st, x := r.st, r.x
	key, val := r.par["#SHA256"], r.par["val"]
	var sets, ups []*Event
	for _, ev := range r.evs {
		if r.cacheOp(ev, "Set") || r.cacheOp(ev, "Inc") || r.cacheOp(ev, "Finc") {
			sets = append(sets, ev)
		}
		if (ev.Kind == "mapupdate" || ev.Kind == "mapdelete") && r.isM(ev.Addr) {
			ups = append(ups, ev)
		}
	}
	if key == nil { // Add
		val = r.par["val"]
		if len(sets) == 1 && len(sets[0].Args) > 2 {
			key = sets[0].Args[len(sets[0].Args)-3]
			r.expect(isHashOf(key, val) && r.same(r.e.Rets[0], key), "objects", "key", "a value is saved under %s, reported as %s", key, r.e.Rets[0])
		}
	}
	n := 0
	if len(sets) == 1 {
		n = len(sets[0].Args)
	}
	if !r.expect(n > 2 && r.cacheOp(sets[0], "Set") && r.same(sets[0].Args[n-3], key) && sets[0].Args[n-2] == val && sets[0].Args[n-1] == tInt(1), "objects", "saved", "a value is not saved once") {
		return
	}
	serr, rc := sets[0].Res.Args[1], sets[0].Res.Args[0]
	if st.IsNil(serr) != yes {
		r.expect(st.IsNil(serr) == no && r.same(r.err(), serr), "objects", "failure", "a failure is reported as %s", r.err())
		r.expect(len(ups) == 0 && !r.storesItem(), "objects", "failure: noted", "a failure counts as saved")
		return
	}
	r.expect(st.IsNil(r.err()) == yes, "objects", "success", "success is reported as %s", r.err())
	var it *Term
	var i0, d0, c0 *Term
	pre := newState()
	switch present(st0(st, r.evs), r.isM, key) {
	case no:
		if !r.expect(len(ups) == 1 && ups[0].Kind == "mapupdate" && r.same(ups[0].Args[0], key), "objects", "noted", "a saved object is not noted") {
			return
		}
		it, i0, d0, c0 = ups[0].Val, tInt(0), tInt(0), tFalse
		x.seen["new object"] = true
	case yes:
		if !r.expect(len(ups) == 0, "objects", "known", "what is known of a saved object is lost") {
			return
		}
		it = r.itemOf(key)
		if !r.expect(it != nil, "objects", "noted again", "a saved object is not noted") {
			return
		}
		i0, d0, c0 = r.itemFld(pre, it, x.fInc), r.itemFld(pre, it, x.fDec), r.itemFld(pre, it, x.fNew)
		x.seen["known object"] = true
	default:
		r.bad("objects", "known", "whether the Unpack saved an object is not regarded")
		return
	}
	r.expect(r.same(r.itemFld(st, it, x.fInc), tAdd(i0, tInt(1))), "objects", "count", "an object counts as saved %s times", r.itemFld(st, it, x.fInc))
	r.expect(r.same(r.itemFld(st, it, x.fDec), d0), "objects", "uses", "a saved object counts as used %s times", r.itemFld(st, it, x.fDec))
	c1 := r.itemFld(st, it, x.fNew)
	one, more := st.clone(), st.clone()
	if one.assume(tEq(rc, tInt(1)), true) {
		r.expect(one.Truth(c1) == yes, "objects", "new", "an object that was not there is not new")
		x.seen["created"] = true
	}
	if more.assume(tEq(rc, tInt(1)), false) {
		ok := r.same(c1, c0) || more.Truth(c1) != unknown && more.Truth(c1) == more.Truth(c0)
		r.expect(ok, "objects", "not new", "an object that was there becomes new")
	}
}

// st0: the facts of a path
func st0(st *State, evs []*Event) *State { return st }

func (r *saveRun) storesItem() bool {
	for _, ev := range r.evs {
		if ev.Kind == "store" && ev.Addr.Op == "field" && types.Identical(deref(ev.Addr.Args[0].T), r.x.item) {
			return true
		}
	}
	return false
}

// closeRule: Unpack.Close
func (r *saveRun) closed() {
	st := r.st
	if st.IsNil(r.err()) != yes {
		r.expect(st.IsNil(r.err()) == no, "close", "failure", "a failure is reported as %s", r.err())
		return
	}
	over := false
	for _, ev := range r.evs {
		over = over || ev.Kind == "rangeend" && r.isM(ev.Addr)
	}
	r.expect(over, "close", "all", "not all objects are given back")
	m := r.fld(r.w, st, r.up, r.x.unpack, r.x.fM)
	r.expect(st.IsNil(m) == yes || m.Op == "makemap", "close", "again", "closing again gives the objects back again")
	r.x.seen["closed"] = true
}

func (r *saveRun) closeRound(head *ssa.BasicBlock) {
	st := r.st
	var cur *Event
	pos := 0
	for i, ev := range r.evs {
		if ev.Kind == "range" && r.isM(ev.Addr) {
			cur, pos = ev, i
		}
	}
	if cur == nil {
		return
	}
	inc := r.x.pre[cur][0]
	sum := tInt(0)
	for _, ev := range r.evs[pos:] {
		if r.cacheOp(ev, "Inc") {
			n := len(ev.Args)
			r.expect(r.same(ev.Args[n-2], cur.Args[0]), "close", "object", "the count of another object changes")
			sum = tAdd(sum, ev.Args[n-1])
			r.expect(st.IsNil(ev.Res.Args[len(ev.Res.Args)-1]) == yes, "close", "error", "a failure is not regarded")
		}
	}
	ok := r.same(sum, tScale(inc, -1)) || sum == tInt(0) && st.Truth(tLt(tInt(0), inc, false)) == no
	r.expect(ok, "close", "count", "the count of an object saved %s times changes by %s", inc, sum)
}

// made: Container.Unpack
func (r *saveRun) made() {
	st, x := r.st, r.x
	sk, reg := r.par["#SecKey"], r.par["#Registry"]
	if st.IsNil(r.err()) != yes {
		r.expect(st.IsNil(r.err()) == no, "unpack", "failure", "a failure is reported as %s", r.err())
		return
	}
	r.expect(st.IsNil(reg) == no, "unpack", "registry", "an Unpack is made without a registry")
	ver := false
	for _, ev := range r.evs {
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, "SecKey).Verify") && r.same(ev.Args[0], sk) && st.IsNil(ev.Res) == yes {
			ver = true
		}
	}
	r.expect(ver, "unpack", "key", "an Unpack is made with an invalid key")
	up := r.e.Rets[0]
	r.expect(r.same(r.fld(r.w, st, up, x.unpack, x.fSk), sk), "unpack", "key kept", "the key of the Unpack is %s", r.fld(r.w, st, up, x.unpack, x.fSk))
	m := r.fld(r.w, st, up, x.unpack, x.fM)
	r.expect(m != nil && m.Op == "makemap", "unpack", "empty", "a new Unpack has objects")
	if pt := r.c.P.Named("skyobject", "Pack"); pt != nil {
		p := r.fld(r.w, st, up, x.unpack, x.fPack)
		fr := fieldBy(pt, func(t types.Type) bool { return typeName(deref(t)) == "Registry" })
		r.expect(p != nil && fr != "" && r.same(r.fld(r.w, st, p, pt, fr), reg), "unpack", "registry kept", "the registry of the Unpack is another one")
	}
	x.seen["made"] = true
}

func checkV01(c *Ctx) {
	c.Rule("unpack", "an Unpack is made with a registry and a valid key, and starts empty", 4)
	c.Rule("objects", "an object saved by the Unpack gets one reference each time and is noted; whether it was there before too", 6)
	c.Rule("walk", "every object the Root uses counts as used; objects saved before get one reference; only new ones are walked deeper, once", 10)
	c.Rule("save", "only a Root with Pub and Nonce is saved; a refused one changes nothing", 4)
	c.Rule("chain", "Seq and Prev follow the last Root of the head in the database", 5)
	c.Rule("root", "hash, signature, value, registry and record are those of the Root as it is saved", 15)
	c.Rule("index", "the saved Root is the last one of its head in the index, after the transaction", 2)
	c.Rule("active", "the active head is the newest one after saving", 2)
	c.Rule("counts", "in the end every object has as many references more as it is used, and is forgotten", 1)
	c.Rule("reset", "after a failure no object counts as used", 1)
	c.Rule("close", "closing gives back every object that is not used", 3)
	x := newSaveCtx(c)
	if x == nil {
		return
	}
	m := func(t, n string) *ssa.Function {
		f := c.P.Method("skyobject", t, n)
		if f == nil {
			c.Anchor("skyobject." + t + "." + n)
		}
		return f
	}
	for _, q := range []struct {
		t, n string
		j    func(r *saveRun)
	}{{"Container", "Save", (*saveRun).save}, {"Container", "Unpack", (*saveRun).made}, {"Unpack", "Set", (*saveRun).set1}, {"Unpack", "Add", (*saveRun).set1}, {"Unpack", "Close", (*saveRun).closed}} {
		if f := m(q.t, q.n); f != nil {
			x.closing = q.n == "Close"
			x.runSave(f, q.j)
		}
	}
	for _, s := range []string{"blank", "kept", "deeper", "saved", "reset", "next", "first", "recomputed", "new object", "known object", "created", "closed", "made"} {
		c.Expect(x.seen[s], "save", "case "+s, c.P.pos(x.unpack.Obj().Pos()), "there is no way for the case %q", s)
	}
	c.Assume("an Unpack is used with the container that made it, by one goroutine at a time")
	c.Assume("the hash of a Root in the database is not blank; times of Root objects are positive")
	c.Assume("walking through a reference calls back for it and, if told so, for what it refers to (R02)")
}
