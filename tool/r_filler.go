package main

// A filler: objects are held while a Root is filled, and kept or given back
// after.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("F01", "A filler keeps every object of a Root it filled, and gives back every object of one it did not",
		"Every path of the methods of a filler is enumerated, with every order of answers, failures and termination; a round of the loops over references and over held objects is judged from an arbitrary state; what is run in the background is enumerated from the state it is started in.", checkF01)
}

type fillerCtx struct {
	*indexCtx
	filler, object                                *types.Named
	fC, fR, fReg, fRq, fIncs, fPre, fErrq, fAwait string
	fLimit, fClose                                string
	refs                                          map[*Term]*Term
	kinds                                         map[*ssa.BasicBlock]map[string]bool
	full                                          map[*Event]*Term
	spawned                                       map[*Event]*State
	selects                                       map[*ssa.Select]bool // blocking: is the end regarded
}

type fillerRun struct {
	*indexRun
	x    *fillerCtx
	self *Term
}

func newFillerCtx(c *Ctx) *fillerCtx {
	ix := newIndexCtx(c)
	if ix == nil {
		return nil
	}
	x := &fillerCtx{indexCtx: ix, filler: c.P.Named("skyobject", "Filler"), object: c.P.Named("skyobject", "Object")}
	cl := c.P.Method("skyobject", "Filler", "Close")
	if x.filler == nil || x.object == nil || cl == nil {
		c.Anchor("skyobject.Filler")
		return nil
	}
	isChan := func(elem func(types.Type) bool) func(types.Type) bool {
		return func(t types.Type) bool {
			ch, ok := t.Underlying().(*types.Chan)
			return ok && elem(ch.Elem())
		}
	}
	x.fC = fieldBy(x.filler, func(t types.Type) bool { return typeName(deref(t)) == "Container" })
	x.fR = fieldBy(x.filler, func(t types.Type) bool { return types.Identical(deref(t), x.root) })
	x.fReg = fieldBy(x.filler, func(t types.Type) bool { return typeName(deref(t)) == "Registry" })
	x.fRq = fieldBy(x.filler, isChan(isNamedT("SHA256")))
	x.fIncs = fieldBy(x.filler, isMapT(isNamedT("SHA256"), isNum))
	x.fPre = fieldBy(x.filler, func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && !isNum(m.Elem())
	})
	x.fErrq = fieldBy(x.filler, isChan(isErrorT))
	x.fAwait = fieldBy(x.filler, isNamedT("WaitGroup"))
	for g := range c.P.Reach(cl) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						if u, ok := ci.Common().Args[0].(*ssa.UnOp); ok {
							if fa, ok := u.X.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), x.filler) {
								x.fClose = x.filler.Underlying().(*types.Struct).Field(fa.Field).Name()
							}
						}
					}
				}
			}
		}
	}
	s := x.filler.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if ch, ok := f.Type().Underlying().(*types.Chan); ok && f.Name() != x.fClose && f.Name() != x.fRq && f.Name() != x.fErrq {
			_ = ch
			x.fLimit = f.Name()
		}
	}
	for _, f := range []string{x.fC, x.fR, x.fReg, x.fRq, x.fIncs, x.fPre, x.fErrq, x.fAwait, x.fLimit, x.fClose} {
		if f == "" {
			c.Anchor("skyobject: fields of Filler")
			return nil
		}
	}
	x.selects = map[*ssa.Select]bool{}
	return x
}

func (x *fillerCtx) walker2(opaque ...string) *Walker {
	w := x.walker()
	base := w.Opaque
	w.Opaque = func(g *ssa.Function) bool {
		if base(g) {
			return true
		}
		if r := g.Signature.Recv(); r != nil {
			n := typeName(deref(r.Type())) + "." + g.Name()
			if n == "Index.AddRoot" {
				return true
			}
			for _, o := range opaque {
				if n == "Filler."+o {
					return true
				}
			}
		}
		return false
	}
	return w
}

func (x *fillerCtx) runFiller(f *ssa.Function, opaque []string, judge func(r *fillerRun)) {
	x.refs, x.kinds, x.full, x.spawned = map[*Term]*Term{}, map[*ssa.BasicBlock]map[string]bool{}, map[*Event]*Term{}, map[*Event]*State{}
	w := x.walker2(opaque...)
	ir := &indexRun{indexCtx: x.indexCtx, w: w, f: f, name: f.Name(), par: map[string]*Term{}}
	r := &fillerRun{indexRun: ir, x: x}
	st := newState()
	args := make([]*Term, len(f.Params))
	for i, p := range f.Params {
		args[i] = mk("param", p.Name(), p.Type())
		ir.par["#"+typeName(deref(p.Type()))] = args[i]
		ir.par[p.Name()] = args[i]
		if types.Identical(deref(p.Type()), x.filler) {
			r.self = args[i]
		}
		if isPtrT(p.Type()) {
			st.assume(tEq(args[i], tNil), false)
		}
	}
	ir.loops = &idxLoops{pre: map[*Event][2]*Term{}, active: map[string]bool{}, badPair: map[string]bool{}, related: map[*Term]*Term{}, rec: map[*Event]map[string]*Term{}}
	w.OnEvent = func(st *State, ev *Event) bool {
		switch {
		case ev.Kind == "call" && strings.HasSuffix(ev.Name, ").AddRoot"):
			x.full[ev] = x.fld(w, st, ev.Args[len(ev.Args)-1], x.root, "IsFull")
		case ev.Kind == "go" || ev.Kind == "call" && strings.HasSuffix(ev.Name, "Filler).Go"):
			x.spawned[ev] = st.clone()
		}
		return true
	}
	sub := func(e *Exit) *fillerRun {
		q, qi := *r, *ir
		q.indexRun = &qi
		qi.set(e)
		return &q
	}
	w.OnBack = func(g *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
		sub(&Exit{St: st, Fn: g}).back(g, head)
	}
	for _, e := range w.Run(f, args, nil, st) {
		dbg("exit", f.Name(), e)
		q := sub(e)
		if e.Panic {
			q.panics()
			continue
		}
		judge(q)
	}
	x.c.Done(w)
}

// panics: only for failures of the database
func (r *fillerRun) panics() {
	ok := false
	for _, ev := range r.evs {
		if r.cop(ev, "Want") || r.cop(ev, "Inc") || r.cop(ev, "Finc") {
			ok = ok || r.st.IsNil(lastRes(ev)) == no
		}
	}
	r.expect(ok, "held", "panic", "%s panics although the database did not fail", r.f.Name())
}

func lastRes(ev *Event) *Term {
	if ev.Res != nil && ev.Res.Op == "tuple" && len(ev.Res.Args) > 0 {
		return ev.Res.Args[len(ev.Res.Args)-1]
	}
	return ev.Res
}

// cop: a call of a method of the cache; its arguments end the arguments
func (r *fillerRun) cop(ev *Event, name string) bool {
	return ev.Kind == "call" && strings.HasSuffix(ev.Name, "skyobject.Cache)."+name)
}

func (r *fillerRun) of(t *Term, f string) bool { return isF(t, f, nil) }

// back: a round of a loop of Run
func (r *fillerRun) back(g *ssa.Function, head *ssa.BasicBlock) {
	x, st := r.x, r.st
	var cur *Event
	pos := 0
	for i, ev := range r.evs {
		if ev.Kind == "range" && ev.Instr.Block() == head {
			cur, pos = ev, i
		}
	}
	if cur != nil {
		if !r.of(cur.Addr, x.fIncs) {
			return
		}
		sum := tInt(0)
		kind := "other"
		for _, ev := range r.evs[pos:] {
			if r.cop(ev, "Finc") {
				n := len(ev.Args)
				if ev.Args[n-2] != cur.Args[0] || st.IsNil(lastRes(ev)) != yes {
					sum = nil
					break
				}
				sum = tAdd(sum, ev.Args[n-1])
			}
		}
		switch {
		case sum == nil:
		case r.same(sum, cur.Args[1]):
			kind = "keep"
		case r.same(sum, tScale(cur.Args[1], -1)):
			kind = "give back"
		}
		if x.kinds[head] == nil {
			x.kinds[head] = map[string]bool{}
		}
		x.kinds[head][kind] = true
		return
	}
	n := 0
	for _, ev := range r.evs {
		if ev.Kind != "call" && ev.Kind != "go" || x.spawned[ev] == nil {
			continue
		}
		n++
		for _, a := range ev.Args {
			if a.Op == "closure" {
				r.splits(ev, a)
			}
		}
	}
	r.c.Expect(n == 1, "split", "once", r.c.P.pos(g.Pos()), "a reference of the Root is walked %d times", n)
}

// splits: what is started for a reference
func (r *fillerRun) splits(ev *Event, cl *Term) {
	x := r.x
	fn := closureFn(x.c.P, cl)
	if !r.c.Expect(fn != nil, "split", "known", r.c.at(ev.Instr), "what is done for a reference is not known") {
		return
	}
	w := x.walker2()
	for _, e := range w.Run(fn, nil, cl.Args, x.spawned[ev].clone()) {
		if e.Panic {
			continue
		}
		n := 0
		for _, s := range e.St.Events()[len(x.spawned[ev].Events()):] {
			if s.Kind != "call" || !strings.HasSuffix(s.Name, "registry.Dynamic).Split") {
				continue
			}
			n++
			v := s.Args[0]
			if v.Op == "alloc" {
				v = w.load(e.St, v, deref(v.T))
			}
			if v.Op == "load" {
				v = v.Args[0]
			}
			if r.c.Expect(v.Op == "idx" && isF(v.Args[0], "Refs", nil), "split", "reference", r.c.at(s.Instr), "%s is filled, not a reference of the Root", v) {
				x.refs[v.Args[0]] = v.Args[1]
				st := x.spawned[ev]
				first, last := tLt(tInt(0), v.Args[1], false), tLt(v.Args[1], tAdd(r.w.lenOf(st, v.Args[0], types.Typ[types.Int]), tInt(-1)), false)
				r.c.Expect(st.Truth(first) != yes && st.Truth(last) != yes, "split", "every reference", r.c.at(s.Instr), "not every reference of the Root is filled")
			}
			ok := len(s.Args) > 1 && s.Args[1].any(func(y *Term) bool { return y == r.self })
			r.c.Expect(ok, "split", "filler", r.c.at(s.Instr), "a reference is filled by another filler")
		}
		r.c.Expect(n == 1, "split", "one", r.c.at(ev.Instr), "a reference is filled %d times", n)
	}
	x.c.Done(w)
}

// closureFn: the function of a closure
func closureFn(p *Prog, t *Term) *ssa.Function {
	if t.Op != "closure" && t.Op != "func" {
		return nil
	}
	return t.Fn
}

// ended: a loop over the held objects, of a kind
func (r *fillerRun) ended(kind string) (n, pos int) {
	pos = -1
	for i, ev := range r.evs {
		if ev.Kind == "rangeend" && r.of(ev.Addr, r.x.fIncs) {
			ks := r.x.kinds[ev.Instr.Block()]
			if ks[kind] && len(ks) == 1 {
				n++
				pos = i
			} else if kind == "any" {
				n++
			}
		}
	}
	return
}

// got: Pre and Get
func (r *fillerRun) got() {
	st, x := r.st, r.x
	key := r.par["#SHA256"]
	pre := r.f.Name() == "Pre"
	err := r.err()
	isIncs := func(m *Term) bool { return r.of(m, x.fIncs) }
	isPre := func(m *Term) bool { return r.of(m, x.fPre) }
	var want, unwant *Event
	var unPos int
	wants, unwants := 0, 0
	for i, ev := range r.evs {
		switch {
		case r.cop(ev, "Want"):
			want = ev
			wants++
		case r.cop(ev, "Unwant"):
			unwant, unPos = ev, i
			unwants++
		case r.cop(ev, "Get") || r.cop(ev, "Inc") || r.cop(ev, "Finc") || r.cop(ev, "Set"):
			r.bad("held", "other", "%s uses the cache in another way", r.f.Name())
		}
	}
	if !r.expect(wants == 1 && unwants == 1, "held", "wanted", "an object is wanted %d times and not wanted any more %d times", wants, unwants) {
		return
	}
	n := len(want.Args)
	gc, inc := want.Args[n-2], want.Args[n-1]
	if unconv(gc).Op == "makechan" {
		gc = unconv(gc)
	}
	isGc := func(t *Term) bool { return unconv(t) == gc }
	r.expect(want.Args[n-3] == key, "held", "key", "another object is wanted")
	r.expect(gc.Op == "makechan" && gc.Args[0].Op == "int" && gc.Args[0].C >= 1, "held", "channel", "an object is wanted by a channel without room")
	un := len(unwant.Args)
	r.expect(unwant.Args[un-2] == key && isGc(unwant.Args[un-1]), "held", "not wanted", "another object is not wanted any more")
	var pre0 tri
	if !pre {
		pre0 = present(st, isPre, key)
	} else {
		pre0 = no
	}
	switch pre0 {
	case yes:
		r.expect(inc == tInt(0), "held", "requested before", "an object requested before is held %s times more", inc)
		x.seen["requested before"] = true
	case no:
		r.expect(inc == tInt(1), "held", "once", "an object is held %s times", inc)
		x.seen["once"] = true
	default:
		r.bad("held", "requested before", "whether an object was requested before is not regarded")
		return
	}
	var recvs []*Event
	var ups, pres []*Event
	var reqs, closes, polls int
	mainRecv := false
	drained := false
	reqPos, pollPos := -1, -1
	for i, ev := range r.evs {
		switch {
		case ev.Kind == "recv" && isGc(ev.Addr):
			recvs = append(recvs, ev)
			if i < unPos {
				mainRecv = true
			} else {
				drained = true
			}
			r.waits(ev, i > unPos)
		case ev.Kind == "recv" && r.of(ev.Addr, x.fClose):
			closes++
		case ev.Kind == "send" && r.of(unconv(ev.Addr), x.fRq):
			reqs++
			reqPos = i
			r.expect(unconv(ev.Val) == key, "request", "key", "another object is requested")
			r.expect(pollPos >= 0, "request", "missing only", "an object is requested although it may be there")
			r.waits(ev, false)
		case ev.Kind == "select":
			s, ok := ev.Instr.(*ssa.Select)
			if ok && len(s.States) > 0 {
				if t, ok := s.States[0].Chan.Type().Underlying().(*types.Chan); ok && types.Identical(t.Elem(), x.object) {
					polls++
					pollPos = i
					if i > unPos {
						drained = true
					}
				}
			}
		case (ev.Kind == "mapupdate" || ev.Kind == "mapdelete") && isIncs(ev.Addr):
			ups = append(ups, ev)
		case (ev.Kind == "mapupdate" || ev.Kind == "mapdelete") && isPre(ev.Addr):
			pres = append(pres, ev)
		}
	}
	if len(recvs) > 1 {
		return // an object comes once
	}
	if len(recvs) == 1 && reqs > 0 {
		_ = reqPos
	}
	r.expect(reqs <= 1, "request", "once", "an object is requested %d times", reqs)
	r.expect(mainRecv || drained, "held", "late", "an object that comes late is not regarded: it stays held")
	held := 0
	if len(recvs) == 1 {
		obj := recvs[0].Val
		oerr := part(obj, x.object, isErrorT)
		switch {
		case inc != tInt(1):
		case st.IsNil(oerr) == yes:
			held = 1
		case st.IsNil(oerr) == unknown:
			r.bad("held", "failure", "whether there is an object is not regarded")
			return
		}
	}
	if !r.expect(len(ups) == held, "held", "counted", "an object held %d times is counted %d times", held, len(ups)) {
		return
	}
	known := no
	if held == 1 {
		u := ups[0]
		r.expect(u.Kind == "mapupdate" && u.Args[0] == key, "held", "counted: key", "another object is counted as held")
		known = presentBefore(st, r.evs, u, isIncs, key)
		var old *Term
		u.Val.any(func(y *Term) bool {
			if m, k := elemOf(y); m != nil && isIncs(m) && k == key {
				old = y
			}
			return false
		})
		if old == nil {
			old = tInt(0)
			r.expect(known == no, "held", "counted: again", "the times an object was held before get lost")
		}
		r.expect(r.same(u.Val, tAdd(old, tInt(1))), "held", "counted: by one", "the times an object is held become %s", u.Val)
		x.seen["held"] = true
	}
	// the result
	switch {
	case mainRecv:
		obj := recvs[0].Val
		oerr := part(obj, x.object, isErrorT)
		if st.IsNil(oerr) != yes {
			r.expect(r.same(err, oerr), "answer", "failure", "a failure is reported as %s", err)
			r.expect(len(pres) == 0, "answer", "failure: requested", "an object that failed counts as requested before")
			x.seen["failure"] = true
			return
		}
		r.expect(st.IsNil(err) == yes, "answer", "success", "success is reported as %s", err)
		rc := r.e.Rets[len(r.e.Rets)-2]
		base := tAdd(part(obj, x.object, isNum), inc)
		switch {
		case inc == tInt(0) || known == no:
			r.expect(r.same(rc, base), "answer", "count", "the count of an object is told as %s", rc)
		case known == yes:
			r.expect(r.same(rc, tAdd(base, tInt(1))), "answer", "count: held before", "the count of an object held before is told as %s", rc)
			x.seen["held before"] = true
		default:
			r.bad("answer", "held before", "whether an object was held before is not regarded")
		}
		if pre {
			r.expect(len(pres) == 1 && pres[0].Kind == "mapupdate" && pres[0].Args[0] == key, "answer", "requested", "an object is not noted as requested")
		} else {
			r.expect(r.same(r.e.Rets[0], part(obj, x.object, isBytes)), "answer", "value", "the value is told as %s", r.e.Rets[0])
		}
		if reqs == 0 {
			x.seen["there"] = true
		} else {
			x.seen["received"] = true
		}
	default:
		r.expect(closes > 0, "answer", "ends", "%s ends without an object, although the filler goes on", r.f.Name())
		r.expect(isSentinel(err, "ErrTerminated"), "answer", "terminated", "termination is reported as %s", err)
		r.expect(len(pres) == 0, "answer", "terminated: requested", "an object that did not come counts as requested before")
		if reqs == 0 {
			x.seen["terminated before"] = true
		} else {
			x.seen["terminated"] = true
		}
	}
	if !pre {
		r.expect(len(pres) == 0, "answer", "get: requested", "getting an object notes it as requested before")
	}
}

// presentBefore: was a key there before an update
func presentBefore(st *State, evs []*Event, u *Event, is func(*Term) bool, key *Term) tri {
	return present(st, is, key)
}

func isSentinel(t *Term, name string) bool {
	return t != nil && t.Op == "sentinel" && strings.HasSuffix(t.Aux, "."+name)
}

// waits: a wait ends with the filler
func (r *fillerRun) waits(ev *Event, late bool) {
	s, ok := ev.Instr.(*ssa.Select)
	if ok && !s.Blocking {
		return
	}
	end := false
	if ok {
		for _, ss := range s.States {
			if u, ok := ss.Chan.(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), r.x.filler) {
					end = end || r.x.filler.Underlying().(*types.Struct).Field(fa.Field).Name() == r.x.fClose
				}
			}
		}
	}
	r.expect(end, "request", "ends", "waiting does not end with the filler")
}

// failed: Fail
func (r *fillerRun) failed() {
	n := 0
	for _, ev := range r.evs {
		switch ev.Kind {
		case "send":
			s, ok := ev.Instr.(*ssa.Select)
			r.expect(ok && !s.Blocking, "fail", "waits", "Fail waits")
			r.expect(r.of(ev.Addr, r.x.fErrq) && ev.Val == r.par["err"] || r.of(ev.Addr, r.x.fErrq) && ev.Val == r.par["#error"], "fail", "error", "%s is given as the failure", ev.Val)
			n++
		case "recv":
			r.bad("fail", "first", "the first failure gets lost")
		case "select":
			r.x.seen["second failure"] = true
		}
	}
	r.expect(n <= 1, "fail", "once", "Fail fails %d times", n)
	if n == 1 {
		r.x.seen["first failure"] = true
	}
}

// closed: Close
func (r *fillerRun) closed() {
	once, closes, waits := 0, 0, 0
	for _, ev := range r.evs {
		switch {
		case ev.Kind == "begin" && ev.Name == "Do":
			once++
		case ev.Kind == "close":
			r.expect(r.of(ev.Addr, r.x.fClose) && once > 0, "close", "once", "the filler may be closed twice")
			closes++
		case ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Wait":
			r.expect(closes > 0, "close", "order", "waiting for what the filler started begins before it is told to end")
			waits++
		}
	}
	if closes > 0 || once == 0 {
		r.expect(closes == 1 && waits == 1, "close", "waits", "the filler is closed %d times and waits %d times for what it started", closes, waits)
		r.x.seen["closed"] = true
	}
}

// goes: Go
func (r *fillerRun) goes() {
	st, x := r.st, r.x
	fn := r.par["fn"]
	if fn == nil {
		fn = r.par[r.f.Params[1].Name()]
	}
	sync, add, taken := 0, 0, 0
	limit := r.fld(r.w, newState(), r.self, x.filler, x.fLimit)
	full := false
	var bg *Event
	for _, ev := range r.evs {
		switch {
		case ev.Kind == "call" && ev.Static == nil && ev.Addr == fn:
			sync++
		case ev.Kind == "go":
			r.expect(bg == nil, "go", "once", "a task is started more than once")
			bg = ev
			r.expect(add == 1, "go", "awaited", "a task is started that nobody waits for")
		case ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Add":
			r.expect(ev.Args[1] == tInt(1), "go", "awaited: one", "a task counts as %s", ev.Args[1])
			add++
		case ev.Kind == "send" && r.of(ev.Addr, x.fLimit):
			s, ok := ev.Instr.(*ssa.Select)
			r.expect(ok && !s.Blocking, "go", "waits", "starting a task waits for another one")
			taken++
		case ev.Kind == "select":
			full = true
		}
	}
	if bg == nil {
		r.expect(sync == 1 && add == 0 && taken == 0, "go", "in place", "a task is done %d times in place", sync)
		r.expect(full, "go", "limit", "a task is done in place although the limit is not reached")
		x.seen["in place"] = true
		return
	}
	r.expect(sync == 0, "go", "twice", "a task is done twice")
	want := 1
	if st.IsNil(limit) == yes {
		want = 0
	}
	r.expect(taken == want && (want == 0 || st.IsNil(limit) == no), "go", "counted", "a task started counts %d times for the limit", taken)
	var fr *ssa.Function
	var free, args []*Term
	fr = bg.Static
	if bg.Addr != nil && bg.Addr.Op == "closure" {
		free = bg.Addr.Args
	}
	args = bg.Args
	if !r.expect(fr != nil, "go", "known", "what is started is not known") {
		return
	}
	w := x.walker2()
	for _, e := range w.Run(fr, args, free, x.spawned[bg].clone()) {
		if e.Panic {
			continue
		}
		calls, dones, rel := 0, 0, 0
		for _, ev := range e.St.Events()[len(x.spawned[bg].Events()):] {
			switch {
			case ev.Kind == "call" && ev.Static == nil && ev.Addr == fn:
				r.expect(dones == 0 && rel == 0, "go", "order", "a task counts as done before it is")
				calls++
			case ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Done":
				dones++
			case ev.Kind == "recv" && r.of(ev.Addr, x.fLimit):
				rel++
			}
		}
		r.expect(calls == 1, "go", "done", "a task started is done %d times", calls)
		r.expect(dones == 1, "go", "ends", "a task done ends %d times", dones)
		r.expect(rel == want, "go", "released", "a task done is taken %d times from the limit", rel)
		x.seen["parallel"] = true
	}
	x.c.Done(w)
	if want == 0 {
		x.seen["no limit"] = true
	}
}

// made: Fill
func (r *fillerRun) made() {
	st, x := r.st, r.x
	f := r.e.Rets[0]
	fl := func(n string) *Term { return r.fld(r.w, st, f, x.filler, n) }
	r.expect(r.same(fl(x.fC), r.par["#Container"]), "fill", "container", "the filler uses another container")
	r.expect(r.same(fl(x.fR), r.par["#Root"]), "fill", "Root", "the filler fills another Root")
	r.expect(r.same(unconv(fl(x.fRq)), r.par["rq"]) || fl(x.fRq).any(func(y *Term) bool { return y.Op == "param" && y.T != nil && isChanT(y.T) }), "fill", "requests", "the filler requests by %s", fl(x.fRq))
	for _, n := range []string{x.fIncs, x.fPre} {
		r.expect(fl(n).Op == "makemap", "fill", "empty", "a new filler holds objects")
	}
	r.expect(fl(x.fClose).Op == "makechan", "fill", "end", "a new filler can not be closed")
	q := fl(x.fErrq)
	r.expect(q.Op == "makechan" && q.Args[0].Op == "int" && q.Args[0].C == 1, "fill", "failures", "the first failure is not kept")
	var max *Term
	for _, p := range r.f.Params {
		if isNum(p.Type()) {
			max = r.par[p.Name()]
		}
	}
	l := fl(x.fLimit)
	switch st.Truth(tLt(tInt(0), max, false)) {
	case yes:
		r.expect(l.Op == "makechan" && r.same(unconv(l.Args[0]), max), "fill", "limit", "the limit of tasks is %s", l)
		x.seen["limit"] = true
	case no:
		r.expect(st.IsNil(l) == yes || isZero(l), "fill", "no limit", "a filler without limit has the limit %s", l)
		x.seen["unlimited"] = true
	default:
		r.bad("fill", "limit", "the limit is not regarded")
	}
}

func isZero(t *Term) bool { return t == tNil || t.Op == "zero" }

func isChanT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

// ran: Run
func (r *fillerRun) ran() {
	st, x := r.st, r.x
	err := r.err()
	root := r.fld(r.w, newState(), r.self, x.filler, x.fR)
	rfld := func(s *State, f string) *Term { return r.fld(r.w, s, root, x.root, f) }
	var set, add, reg, get, give, cl *Event
	addPos, clPos, givePos := -1, -1, -1
	var gives, sets, adds int
	var fails []*Event
	done, clean := false, false
	for i, ev := range r.evs {
		switch {
		case r.cop(ev, "Set"):
			set = ev
			sets++
		case r.cop(ev, "Inc"):
			give, givePos = ev, i
			gives++
		case r.cop(ev, "Registry"):
			reg = ev
		case ev.Kind == "call" && strings.HasSuffix(ev.Name, ").AddRoot"):
			add, addPos = ev, i
			adds++
		case ev.Kind == "call" && strings.HasSuffix(ev.Name, "Filler).Get"):
			get = ev
			r.expect(set != nil, "run", "order", "the registry is got before the Root is saved")
		case ev.Kind == "call" && strings.HasSuffix(ev.Name, "Filler).Close"):
			cl, clPos = ev, i
		case ev.Kind == "recv" && r.of(ev.Addr, x.fErrq):
			fails = append(fails, ev)
			clean = false
		case ev.Kind == "recv" && r.doneChan(ev.Addr), ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Wait":
			done = true
			clean = false
		case ev.Kind == "select":
			if s, ok := ev.Instr.(*ssa.Select); ok && len(s.States) == 1 && isErrorT(s.States[0].Chan.Type().Underlying().(*types.Chan).Elem()) {
				clean = done
			}
		}
	}
	_ = get
	if !r.expect(sets == 1, "run", "saved", "the Root is saved %d times", sets) {
		return
	}
	n := len(set.Args)
	r.expect(r.same(set.Args[n-3], rfld(newState(), "Hash")) && set.Args[n-1] == tInt(1), "run", "saved: key", "the Root is saved as %s, %s times", set.Args[n-3], set.Args[n-1])
	v := set.Args[n-2]
	r.expect(v.any(func(y *Term) bool {
		return strings.Contains(y.Aux, "Root).Encode") && len(y.Args) > 0 && y.Args[0] == root
	}), "run", "saved: value", "the value of the Root is %s", v)
	for _, ev := range r.evs {
		if ev.Kind == "store" && ev.Addr.Op == "field" && ev.Addr.Args[0].T != nil && types.Identical(deref(ev.Addr.Args[0].T), x.root) {
			r.expect(ev.Addr.Aux == "IsFull", "run", "Root changed", "the %s of the Root changes", ev.Addr.Aux)
		}
		if ev.Kind == "store" && ev.Addr.Op == "field" && ev.Addr.Args[0] == r.self {
			r.expect(ev.Addr.Aux == x.fReg, "run", "filler changed", "the %s of the filler changes", ev.Addr.Aux)
		}
	}
	held, _ := r.ended("any")
	if st.IsNil(lastRes(set)) != yes {
		r.expect(r.same(err, lastRes(set)), "run", "not saved", "a failure is reported as %s", err)
		r.expect(adds == 0 && gives == 0, "run", "not saved: ends", "the filling goes on although the Root is not saved")
		x.seen["not saved"] = true
		return
	}
	started := false
	for list, at := range x.refs {
		_ = list
		_ = at
	}
	for _, ev := range r.evs {
		started = started || ev.Kind == "go"
	}
	if st.IsNil(err) != yes {
		if !r.expect(st.IsNil(err) == no, "run", "error", "a failure is reported as %s", err) {
			return
		}
		k, pos := r.ended("give back")
		r.expect(k == 1 && held == 1, "give", "objects", "the objects held are not given back once")
		ok := gives == 1
		if ok {
			gn := len(give.Args)
			h := give.Args[gn-2]
			ok = r.same(h, rfld(newState(), "Hash")) || h.Op == "load" && isF(h, "Hash", nil) && isF(h.Args[0].Args[0], x.fR, r.self)
			ok = ok && give.Args[gn-1] == tInt(-1)
		}
		r.expect(ok, "give", "Root", "the Root saved is not given back once")
		r.expect(st.Truth(rfld(st, "IsFull")) == no, "give", "not full", "a Root that is not filled is full")
		if started {
			r.expect(cl != nil && clPos < pos && clPos < givePos, "give", "order", "objects are given back before everything started ended")
		}
		known := reg != nil && r.same(err, lastRes(reg)) || add != nil && r.same(err, lastRes(add)) || isSentinel(err, "ErrBlankRegistryRef")
		for _, f := range fails {
			known = known || r.same(err, f.Val)
		}
		if get != nil {
			known = known || r.same(err, lastRes(get))
		}
		r.expect(known, "run", "failure", "a failure is reported as %s", err)
		for _, f := range fails {
			if st.IsNil(f.Val) != yes {
				r.expect(r.same(err, f.Val) && adds == 0, "run", "failed", "the filling goes on after a failure")
				x.seen["failed"] = true
			}
		}
		if add != nil {
			x.seen["not added"] = true
		}
		if isSentinel(err, "ErrBlankRegistryRef") {
			x.seen["no registry"] = true
		}
		return
	}
	// filled
	for _, f := range fails {
		r.expect(st.IsNil(f.Val) == yes, "run", "lost", "a failure gets lost")
	}
	if len(fails) > 0 {
		return // no failure is nil
	}
	r.expect(r.same(rfld(newState(), "Reg"), rfld(st, "Reg")) && st.Ne(rfld(st, "Reg"), zeroTerm(rfld(st, "Reg").T)), "run", "registry blank", "a Root without registry is filled")
	if r.expect(get != nil && r.same(unconv(get.Args[1]), rfld(newState(), "Reg")) && st.IsNil(lastRes(get)) == yes, "run", "registry held", "the registry of the Root is not held") {
		ok := reg != nil && r.same(reg.Args[len(reg.Args)-1], rfld(newState(), "Reg")) && st.IsNil(lastRes(reg)) == yes
		if r.expect(ok, "run", "registry", "the registry of the Root is not known") {
			r.expect(r.same(r.fld(r.w, st, r.self, x.filler, x.fReg), reg.Res.Args[0]), "run", "registry used", "the filler uses another registry")
		}
	}
	over := false
	for list, at := range x.refs {
		over = over || st.Truth(tLt(at, r.w.lenOf(st, list, types.Typ[types.Int]), false)) == no || st.Truth(tLt(at, tInt(0), false)) == yes
	}
	r.expect(over, "split", "all references", "the references of the Root are not filled, or not all of them")
	r.expect(done && clean, "run", "done", "the Root counts as filled before everything started ended without a failure")
	if r.expect(adds == 1, "run", "added", "the Root is added %d times to the index", adds) {
		r.expect(add.Args[len(add.Args)-1] == root && st.IsNil(lastRes(add)) == yes, "run", "added: Root", "another Root is added to the index")
		r.expect(st.Truth(x.full[add]) == yes, "run", "full", "the Root is not full when it is added")
	}
	r.expect(st.Truth(rfld(st, "IsFull")) == yes, "run", "stays full", "a filled Root is not full")
	k, pos := r.ended("keep")
	r.expect(k == 1 && held == 1 && gives == 0, "keep", "objects", "the objects held are not kept once")
	r.expect(addPos < pos && cl != nil && clPos < pos, "keep", "order", "objects are kept before the filling ended")
	x.seen["filled"] = true
}

// doneChan: a channel closed when everything started ended
func (r *fillerRun) doneChan(ch *Term) bool {
	for _, ev := range r.evs {
		if ev.Kind != "go" || ev.Static == nil || r.x.spawned[ev] == nil {
			continue
		}
		var free []*Term
		if ev.Addr != nil && ev.Addr.Op == "closure" {
			free = ev.Addr.Args
		}
		w := r.x.walker2()
		ok, n := true, 0
		for _, e := range w.Run(ev.Static, ev.Args, free, r.x.spawned[ev].clone()) {
			waited, closed := false, false
			for _, s := range e.St.Events()[len(r.x.spawned[ev].Events()):] {
				switch {
				case s.Kind == "call" && s.Name == "(*sync.WaitGroup).Wait":
					waited = true
				case s.Kind == "close" && s.Addr == ch:
					closed = waited
				}
			}
			ok = ok && closed
			n++
		}
		if ok && n > 0 {
			return true
		}
	}
	return false
}

func checkF01(c *Ctx) {
	c.Rule("held", "an object wanted is held once, counted once for that, and not wanted any more in the end, also when it comes late", 14)
	c.Rule("request", "an object the database does not have is requested once; waiting ends with the filler", 4)
	c.Rule("answer", "value and count are those received; failures and termination are reported", 8)
	c.Rule("fail", "the first failure is kept, nothing waits for the others", 2)
	c.Rule("close", "a filler is closed once, and waits for what it started", 2)
	c.Rule("go", "a task is done once, waited for, and counted for the limit while it runs", 8)
	c.Rule("fill", "a filler fills what it is made for, holds nothing and has the limit given", 7)
	c.Rule("split", "every reference of the Root is filled once", 4)
	c.Rule("run", "a Root is full and added to the index after everything ended without a failure", 12)
	c.Rule("keep", "objects of a filled Root are kept, once, in the end", 1)
	c.Rule("give", "objects and value of a Root that is not filled are given back, once, in the end", 3)
	x := newFillerCtx(c)
	if x == nil {
		return
	}
	m := func(t, n string) *ssa.Function {
		f := c.P.Method("skyobject", t, n)
		if f == nil {
			c.Anchor("skyobject." + t + "." + n)
		}
		return f
	}
	for _, q := range []struct {
		t, n   string
		opaque []string
		j      func(r *fillerRun)
	}{{"Filler", "Pre", nil, (*fillerRun).got}, {"Filler", "Get", nil, (*fillerRun).got}, {"Filler", "Fail", nil, (*fillerRun).failed}, {"Filler", "Close", nil, (*fillerRun).closed},
		{"Filler", "Go", nil, (*fillerRun).goes}, {"Container", "Fill", nil, (*fillerRun).made}, {"Filler", "Run", []string{"Get", "Go", "Close", "Fail", "Pre"}, (*fillerRun).ran}} {
		if f := m(q.t, q.n); f != nil {
			x.runFiller(f, q.opaque, q.j)
		}
	}
	if f := m("Filler", "Registry"); f != nil {
		x.runFiller(f, nil, func(r *fillerRun) {
			r.expect(isF(r.e.Rets[0], x.fReg, r.self), "fill", "Registry", "the registry of the filler is told as %s", r.e.Rets[0])
		})
	}
	for _, s := range []string{"requested before", "once", "held", "held before", "failure", "there", "received", "terminated before", "terminated", "first failure", "second failure", "closed", "in place", "parallel", "no limit", "limit", "unlimited", "not saved", "failed", "not added", "no registry", "filled"} {
		c.Expect(x.seen[s], "run", "case "+s, c.P.pos(x.filler.Obj().Pos()), "there is no way for the case %q", s)
	}
	c.Assume("the cache gives an object wanted at most once, holding it as often as told unless it gives a failure (C01)")
	c.Assume("the Root filled is not in the index; a filler is run once")
	c.Assume("tasks started by a reference use Go of the filler and end with it (R02)")
}
