package main

// Removing of old Roots and of ownerless objects.

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("U01", "Removing of the old keeps the last Roots of every head and everything in use",
		"The functions that remove are run on an arbitrary container with every outcome of it; each call that deletes, each round and each exit is compared with the specification.", checkU01)
}

func checkU01(c *Ctx) {
	c.Rule("last", "A Root is deleted only if it is older than the last n Roots of its head, of a feed and head of the container.", 2)
	c.Rule("all", "From the newest of the old ones down to the first, each Root of a head is deleted; a head without Roots, or with no more than n, is skipped; one that is not found ends the head.", 4)
	c.Rule("errors", "Any other error is returned and ends the removal.", 3)
	c.Rule("objects", "An object is deleted exactly if no one refers to it and it is not in the cache; the error of the database is returned.", 3)
	cont := c.P.Named("skyobject", "Container")
	f := c.P.Func("cxoutils", "RemoveRootObjects")
	g := c.P.Func("cxoutils", "RemoveObjects")
	if cont == nil || f == nil || g == nil {
		c.Anchor("skyobject.Container, cxoutils.RemoveRootObjects, cxoutils.RemoveObjects")
		return
	}
	u := &utilCtx{c: c, n: map[string]int{}}
	u.roots(f)
	u.objects(g)
}

type utilCtx struct {
	c *Ctx
	n map[string]int // rounds

	w     *Walker
	step  map[*Term]int64 // variables of loops and their steps
	down  map[*Term]*Term // of those that tell what is deleted, the distance to it
	later []func()        // to be judged if all the steps are known
}

// counted: a list is looked at from the first one, one after another;
// is idx the number of the round, or is the list over?
func (u *utilCtx) counted(st *State, list, idx *Term) bool {
	for q, es := range u.w.Entry {
		ok := u.step[q] == 1 && len(es) > 0
		for _, e := range es {
			d := tSub(q, e)
			if idx != nil {
				ok = ok && timeless(tSub(idx, d)) == tInt(0)
			} else {
				ok = ok && st.Truth(tLt(d, u.w.lenOf(st, list, nil), false)) == no
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func (u *utilCtx) walker() *Walker {
	w := u.c.P.NewWalker()
	w.SamePkg, w.Split, w.AnyRound, w.Loops, w.MaxStates = true, true, true, 1, 3000
	w.OnEvent = anyEvent
	w.Opaque = func(g *ssa.Function) bool {
		r := g.Signature.Recv()
		if r == nil {
			return false
		}
		switch typeName(deref(r.Type())) {
		case "Index", "Cache":
			return true
		case "Container":
			return g.Name() != "DB"
		}
		return false
	}
	return w
}

// named: a call of a method of the container
func named(ev *Event, m string) bool {
	return ev.Kind == "call" && ev.Static != nil && ev.Static.Name() == m && ev.Static.Signature.Recv() != nil
}

// elementOf: an element of a list
func elementOf(t, list *Term) bool {
	t = canon(t)
	return t.Op == "load" && t.Args[0].Op == "idx" && t.Args[0].Args[0] == canon(list)
}

func (u *utilCtx) roots(f *ssa.Function) {
	c := u.c
	name, at := fname(f), c.P.pos(f.Pos())
	w := u.walker()
	w.Entry = map[*Term][]*Term{}
	u.w, u.step, u.down = w, map[*Term]int64{}, map[*Term]*Term{}
	ps := w.Params(f)
	// what is known at a call
	check := func(st *State, del *Event, before []*Event) {
		var feeds, heads, last *Event
		for _, ev := range before {
			switch {
			case named(ev, "Feeds"):
				feeds = ev
			case named(ev, "Heads"):
				heads = ev
			case named(ev, "LastRootSeq"):
				last = ev
			}
		}
		if !c.Expect(feeds != nil && heads != nil && last != nil, "last", "known", at, "%s deletes without asking for feeds, heads and the last Root", name) {
			return
		}
		pk, nonce, seq := argEnd(del, 3), argEnd(del, 2), argEnd(del, 1)
		c.Expect(elementOf(pk, feeds.Res) && argEnd(heads, 1) == pk, "last", "feed", at, "%s deletes a Root of the feed %s", name, pk)
		c.Expect(elementOf(nonce, resOf(heads, 0)) && argEnd(last, 1) == nonce && argEnd(last, 2) == pk, "last", "head", at, "%s deletes a Root of the head %s", name, nonce)
		n := resOf(last, 0)
		c.Expect(st.IsNil(lastRes(last)) == yes, "last", "unknown", at, "%s deletes although the last Root is not known", name)
		// seq + keepLast <= last
		if !elementOf(pk, feeds.Res) || !elementOf(nonce, resOf(heads, 0)) {
			return
		}
		st = st.clone()
		u.later = append(u.later, func() {
			c.Expect(u.counted(st, nil, canon(pk).Args[0].Args[1]), "all", "all feeds", at, "%s does not look at all the feeds", name)
			c.Expect(u.counted(st, nil, canon(nonce).Args[0].Args[1]), "all", "all heads", at, "%s does not look at all the heads", name)
			// it is the next one of the loop
			next := false
			for q, es := range w.Entry {
				if d, ok := u.down[q]; ok && len(es) > 0 {
					next = next || st.Truth(tEq(seq, tAdd(q, d))) == yes
				}
			}
			c.Expect(next, "all", "one after another", at, "%s deletes the Root %s, there may be others before it", name, seq)
		})
		old := false
		for _, k := range u.keeps(st, ps[1]) {
			old = old || st.Truth(tLt(n, k, false)) == no && (st.Truth(tLt(tSub(n, k), seq, false)) == no || st.Truth(tLt(n, tAdd(seq, k), false)) == no)
		}
		c.Expect(old, "last", "old", at, "%s deletes the Root %s, it may be one of the last", name, seq)
	}
	del := map[string]bool{}
	w.OnEvent = func(st *State, ev *Event) bool {
		if named(ev, "DelRoot") {
			check(st, ev, st.Events())
			del[c.at(ev.Instr)] = true
		}
		return true
	}
	// a round that goes on
	w.OnBack = func(g *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
		for _, ph := range headPhis(head) {
			if b := backOf(w, head, ph, env); b != nil && env[ph] != nil && isNum(ph.Type()) {
				if d := timeless(tSub(b, env[ph])); d.Op == "int" {
					if old, ok := u.step[env[ph]]; ok && old != d.C {
						d = tInt(0)
					}
					u.step[env[ph]] = d.C
				}
			}
		}
		u.ended(w, st, ps, name, at, head, env)
	}
	okExit := false
	for _, e := range w.Run(f, ps, nil, nil) {
		dbg("exit", name, e)
		if !c.Expect(!e.Panic && len(e.Rets) == 1, "errors", "panic", at, "%s panics", name) {
			continue
		}
		u.exit(e, name, at)
		okExit = okExit || e.St.IsNil(e.Rets[0]) == yes
	}
	for _, fn := range u.later {
		fn()
	}
	c.Expect(okExit, "errors", "success", at, "%s never succeeds", name)
	c.Expect(len(del) > 0, "all", "deletes", at, "%s deletes nothing", name)
	for _, n := range []string{"feeds", "heads", "roots"} {
		c.Expect(u.n[n] > 0, "all", "rounds: "+n, at, "%s has no loop over %s", name, n)
	}
	c.Done(w)
}

// keeps: how many are kept, as a number of any type
func (u *utilCtx) keeps(st *State, p *Term) (out []*Term) {
	seen := map[*Term]bool{p: true}
	out = append(out, p)
	for _, t := range factTerms(st) {
		t.any(func(x *Term) bool {
			if !seen[x] && x.Op == "conv" && unconv(x) == p {
				seen[x] = true
				out = append(out, x)
			}
			return false
		})
	}
	return
}

// within: is an event one of the body of a loop
func within(ev *Event, head *ssa.BasicBlock) bool {
	if ev == nil {
		return false
	}
	g := head.Parent()
	for _, in := range append([]ssa.Instruction{ev.Instr}, ev.Stack...) {
		if in != nil && in.Parent() == g {
			return head.Dominates(in.Block())
		}
	}
	return false
}

func lastNamed(evs []*Event, m string) (out *Event) {
	for _, ev := range evs {
		if named(ev, m) {
			out = ev
		}
	}
	return
}

// ended: a round is over, and there is another one
func (u *utilCtx) ended(w *Walker, st *State, ps []*Term, name, at string, head *ssa.BasicBlock, env map[ssa.Value]*Term) {
	dbg("back "+head.String(), name, &Exit{St: st})
	c := u.c
	evs := st.Events()
	heads, last, del := lastNamed(evs, "Heads"), lastNamed(evs, "LastRootSeq"), lastNamed(evs, "DelRoot")
	switch {
	case within(heads, head) && last != nil:
		c.Bad("all", "heads", at, "%s leaves the heads of a feed before all of them are looked at", name)
	case within(last, head): // heads
		u.n["heads"]++
		c.Expect(u.over(st, last, del, ps), "all", "head", at, "%s leaves a head although there may be more to delete", name)
	case last == nil && del == nil && within(heads, head): // feeds
		u.n["feeds"]++
		c.Expect(st.IsNil(lastRes(heads)) == yes, "errors", "heads", at, "%s goes on although the heads of a feed are not known", name)
		st = st.clone()
		u.later = append(u.later, func() {
			c.Expect(u.counted(st, resOf(heads, 0), nil), "all", "heads", at, "%s leaves the heads of a feed before all of them are looked at", name)
		})
	case del != nil && within(del, head): // Roots
		u.n["roots"]++
		x := argEnd(del, 1)
		ph := u.counter(head, x, env)
		if !c.Expect(ph != nil, "all", "counter", at, "%s deletes %s in every round", name, x) {
			return
		}
		c.Expect(st.IsNil(del.Res) == yes, "errors", "goes on", at, "%s goes on although deleting fails", name)
		back := backOf(w, head, ph, env)
		d := tSub(x, env[ph])
		u.down[env[ph]] = d
		c.Expect(tSub(back, env[ph]) == tInt(-1), "all", "next", at, "%s deletes the Root %s after %s", name, back, x)
		for _, v := range w.Entry[env[ph]] {
			ok := false
			for _, k := range u.keeps(st, ps[1]) {
				ok = ok || st.Truth(tEq(tAdd(v, d), tSub(resOf(last, 0), k))) == yes
			}
			c.Expect(ok, "all", "first", at, "%s starts with the Root %s", name, tAdd(v, d))
		}
	}
}

// counter: the variable of a loop that tells what is deleted
func (u *utilCtx) counter(head *ssa.BasicBlock, x *Term, env map[ssa.Value]*Term) *ssa.Phi {
	for _, ph := range headPhis(head) {
		if q := env[ph]; q != nil && isNum(ph.Type()) {
			if d := tSub(x, q); d.Op == "int" {
				return ph
			}
		}
	}
	return nil
}

// over: nothing is left to be deleted of a head
func (u *utilCtx) over(st *State, last, del *Event, ps []*Term) bool {
	if st.IsNil(lastRes(last)) == no {
		return true // no Roots
	}
	if del == nil {
		for _, k := range u.keeps(st, ps[1]) {
			if st.Truth(tLt(resOf(last, 0), k, false)) == yes {
				return true // all are kept
			}
		}
		return false
	}
	if st.IsNil(del.Res) == yes {
		return st.Truth(tEq(argEnd(del, 1), tInt(0))) == yes
	}
	return equal(st, canon(del.Res), func(x *Term) bool { return isSentinel(x, "ErrNotFound") }) == yes
}

func (u *utilCtx) exit(e *Exit, name, at string) {
	c := u.c
	st, evs, err := e.St, e.St.Events(), e.Rets[0]
	heads, del := lastNamed(evs, "Heads"), lastNamed(evs, "DelRoot")
	switch {
	case heads == nil: // no more feeds
		c.Expect(st.IsNil(err) == yes, "errors", "none", at, "%s returns %s", name, err)
		if feeds := lastNamed(evs, "Feeds"); c.Expect(feeds != nil, "all", "feeds", at, "%s does nothing", name) {
			u.later = append(u.later, func() {
				c.Expect(u.counted(st, feeds.Res, nil), "all", "feeds", at, "%s ends before all the feeds are looked at", name)
			})
		}
	case del == nil:
		c.Expect(err == lastRes(heads) && st.IsNil(err) == no, "errors", "heads", at, "%s returns %s before all is done", name, err)
	default:
		is := equal(st, canon(del.Res), func(x *Term) bool { return isSentinel(x, "ErrNotFound") })
		c.Expect(err == del.Res && st.IsNil(err) == no && is == no, "errors", "deleting", at, "%s returns %s; it is ErrNotFound: %v", name, err, is)
	}
}

func (u *utilCtx) objects(f *ssa.Function) {
	c := u.c
	name, at := fname(f), c.P.pos(f.Pos())
	w := u.walker()
	ps := w.Params(f)
	type call struct {
		ev *Event
		st *State
	}
	var it *call
	w.OnEvent = func(st *State, ev *Event) bool {
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, "data.CXDS.IterateDel") {
			it = &call{ev, st.clone()}
		}
		return true
	}
	for _, e := range w.Run(f, ps, nil, nil) {
		dbg("exit", name, e)
		if !c.Expect(!e.Panic && it != nil, "objects", "iterates", at, "%s does not iterate over the objects", name) {
			continue
		}
		its := calls0(e.St, "data.CXDS.IterateDel")
		c.Expect(len(its) == 1 && (e.Rets[0] == its[0].Res || e.St.IsNil(its[0].Res) == yes && e.St.IsNil(e.Rets[0]) == yes), "objects", "error", at, "%s returns %s", name, e.Rets[0])
		if len(its) == 1 {
			c.Expect(canon(its[0].Args[0]).any(isT(ps[0])), "objects", "store", at, "%s iterates over %s", name, its[0].Args[0])
		}
	}
	c.Done(w)
	if it == nil {
		return
	}
	cl := argEnd(it.ev, 1)
	if !c.Expect(cl.Op == "closure" && cl.Fn != nil, "objects", "function", at, "objects are looked at by %s", cl) {
		return
	}
	w = u.walker()
	cs := w.Params(cl.Fn)
	it.st.trace = nil
	for _, e := range w.Run(cl.Fn, cs, cl.Args, it.st) {
		dbg("each", name, e)
		if !c.Expect(!e.Panic && len(e.Rets) == 2 && e.St.IsNil(e.Rets[1]) == yes, "objects", "each", at, "%s fails for an object", name) {
			continue
		}
		for _, out := range []bool{true, false} {
			st := e.St.clone()
			if !st.assume(e.Rets[0], out) {
				continue
			}
			zero := st.Truth(tEq(cs[1], tInt(0)))
			cached := unknown
			for _, ev := range st.Events() {
				if named(ev, "IsCached") && argEnd(ev, 1) == cs[0] && canon(ev.Args[0]).any(isT(ps[0])) {
					cached = st.Truth(ev.Res)
				}
			}
			c.Expect(tAnd(zero, triNot(cached)) == triOf(out), "objects", "which", at, "%s deletes an object: %v; it has no owner: %v, it is cached: %v", name, out, zero, cached)
		}
	}
	c.Done(w)
}
