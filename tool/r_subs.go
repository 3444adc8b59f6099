package main

// Subscriptions: which connections get and give Root objects of which feeds.

import (
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("N04", "Root objects flow along subscriptions",
		"Every round of the loop owning the feeds is enumerated from an arbitrary state of it, per request that starts it; what is added, removed, handed on and answered is compared with the specification. Likewise every path of the handlers of Sub, Unsub, RqList and of subscribing.", checkN04)
}

// fieldBy: the name of the only field of a struct type accepted
func fieldBy(n *types.Named, ok func(types.Type) bool) string {
	s, is := n.Underlying().(*types.Struct)
	if !is {
		return ""
	}
	out := ""
	for i := 0; i < s.NumFields(); i++ {
		if ok(s.Field(i).Type()) {
			if out != "" {
				return ""
			}
			out = s.Field(i).Name()
		}
	}
	return out
}

func isMapT(key, elem func(types.Type) bool) func(types.Type) bool {
	return func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && key(m.Key()) && elem(m.Elem())
	}
}

func isSliceT(elem func(types.Type) bool) func(types.Type) bool {
	return func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && elem(s.Elem())
	}
}

func isNamedT(n string) func(types.Type) bool {
	return func(t types.Type) bool { return typeName(t) == n }
}

func isEmptyT(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

// isF: the value of a field of an object
func isF(t *Term, name string, base *Term) bool {
	return t != nil && t.Op == "load" && t.Args[0].Op == "field" && t.Args[0].Aux == name && (base == nil || t.Args[0].Args[0] == base)
}

// mapKey: the key of an element of a map, if t is the value of one
func elemOf(t *Term) (m, key *Term) {
	if t != nil && t.Op == "load" && t.Args[0].Op == "mapelem" {
		return t.Args[0].Args[0], t.Args[0].Args[1]
	}
	return nil, nil
}

// present: is the key known to be in a map accepted by ok
func present(st *State, ok func(m *Term) bool, key *Term) tri {
	out := unknown
	for t, v := range st.facts.b {
		if t.Op == "present" && ok(t.Args[0].Args[0]) && (t.Args[0].Args[1] == key || st.Eq(t.Args[0].Args[1], key)) {
			out = triOf(v)
		}
		if t.Op == "eq" && out == unknown { // no table holds nil
			e := t.Args[0]
			if e == tNil {
				e = t.Args[1]
			} else if t.Args[1] != tNil {
				continue
			}
			if m, k := elemOf(e); m != nil && ok(m) && (k == key || st.Eq(k, key)) {
				out = triOf(!v)
			}
		}
	}
	return out
}

// feedsCtx: the loop owning the feeds
type feedsCtx struct {
	*nodeCtx
	feeds, feed, head      *types.Named
	fs, fl, cs, hs, ho, id string // fields, by their types
	loop                   *ssa.Function
	self                   *Term
	req, rep               map[string]string // channels of the API: method -> field
}

func (k *nodeCtx) feedsCtx() *feedsCtx {
	c := k.c
	x := &feedsCtx{nodeCtx: k, feeds: c.P.Named("node", "nodeFeeds"), feed: c.P.Named("node", "nodeFeed"), head: c.P.Named("node", "nodeHead"), req: map[string]string{}, rep: map[string]string{}}
	if x.feeds == nil || x.feed == nil || x.head == nil {
		c.Anchor("node: nodeFeeds, nodeFeed, nodeHead")
		return nil
	}
	pk, conn := isNamedT("PubKey"), isNamedT("Conn")
	x.fs = fieldBy(x.feeds, isMapT(pk, isNamedT("nodeFeed")))
	x.fl = fieldBy(x.feeds, isSliceT(pk))
	x.cs = fieldBy(x.feed, isMapT(conn, isEmptyT))
	x.hs = fieldBy(x.feed, isMapT(isNumT, isNamedT("nodeHead")))
	x.ho = fieldBy(x.feed, isSliceT(isNumT))
	x.id = fieldBy(x.feed, pk)
	if x.fs == "" || x.fl == "" || x.cs == "" || x.hs == "" || x.ho == "" || x.id == "" {
		c.Anchor("node: tables of nodeFeeds and nodeFeed")
		return nil
	}
	x.loop = c.P.goroutineOf(x.feeds)
	if x.loop == nil {
		c.Anchor("node: the loop owning the feeds")
		return nil
	}
	x.self = mk("param", "feeds", types.NewPointer(x.feeds))
	for _, m := range []string{"addConnFeed", "delConnFeed", "delConn", "receivedRoot", "addFeed", "delFeed", "broadcastRoot", "hasFeed", "hasConnFeed", "list", "feedsOfConnection", "connectionsOfFeed"} {
		f := c.P.Method("node", "nodeFeeds", m)
		if f == nil {
			c.Anchor("node: nodeFeeds." + m)
			return nil
		}
		x.apiRule(m, f)
	}
	return x
}

// goroutineOf: the method of a type started as a goroutine by its constructor
func (p *Prog) goroutineOf(n *types.Named) (out *ssa.Function) {
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				h := g.Common().StaticCallee()
				if h == nil || h.Signature.Recv() == nil || !types.Identical(deref(h.Signature.Recv().Type()), n) {
					continue
				}
				if len(h.Params) == 1 && selects(h) {
					out = h
				}
			}
		}
	}
	return
}

func selects(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Select); ok && s.Blocking {
				return true
			}
		}
	}
	return false
}

// apiRule: a method of the API gives its arguments to the loop once, waits for
// the answer if there is one, and returns if the loop ended
func (x *feedsCtx) apiRule(name string, f *ssa.Function) {
	c := x.c
	w := c.P.NewWalker()
	w.SamePkg = true
	w.OnEvent = x.events
	ps := append([]*Term{x.self}, w.Params(f)[1:]...)
	sent := false
	for _, e := range w.Run(f, ps, nil, nil) {
		at := c.at(e.Instr)
		if e.Panic {
			c.Bad("api", name+": panic", at, "%s panics", name)
			continue
		}
		var snd, rcv *Event
		var closing bool
		for _, ev := range e.St.Events() {
			switch ev.Kind {
			case "send":
				c.Expect(snd == nil, "api", name+": once", c.at(ev.Instr), "%s gives more than one request to the loop", name)
				snd = ev
			case "recv":
				if isF(ev.Addr, "closeq", x.self) {
					closing = true
				} else {
					rcv = ev
				}
			}
		}
		if snd == nil {
			special := false // the blank feed
			for _, p := range ps[1:] {
				special = special || typeName(p.T) == "PubKey" && e.St.Eq(p, zeroTerm(p.T))
			}
			c.Expect(closing || special, "api", name+": sent", at, "%s returns without having given the request to the loop", name)
			continue
		}
		sent = true
		if !isF(snd.Addr, fieldOfLoad(snd.Addr), x.self) {
			c.Bad("api", name+": channel", c.at(snd.Instr), "%s sends on %s", name, snd.Addr)
			continue
		}
		q := fieldOfLoad(snd.Addr)
		c.Expect(x.req[name] == "" || x.req[name] == q, "api", name+": channel", c.at(snd.Instr), "%s sends on two channels", name)
		x.req[name] = q
		for _, p := range ps[1:] {
			c.Expect(partOf(snd.Val, p), "api", name+": arguments", c.at(snd.Instr), "%s gives %s to the loop, without %s", name, snd.Val, p)
		}
		if f.Signature.Results().Len() > 0 && !closing {
			if c.Expect(rcv != nil && rcv.Val != nil || rcv != nil, "api", name+": answer", at, "%s does not wait for the answer", name) {
				x.rep[name] = fieldOfLoad(rcv.Addr)
				c.Expect(e.Rets[0].Op == "recv" && e.Rets[0].Args[0] == rcv.Addr, "api", name+": gives", at, "%s gives %s, which is not the answer", name, e.Rets[0])
			}
		}
	}
	c.Expect(sent, "api", name+": sends", c.P.pos(f.Pos()), "%s gives nothing to the loop", name)
	for m, q := range x.req {
		c.Expect(m == name || q != x.req[name], "api", name+": own channel", c.P.pos(f.Pos()), "%s and %s use the same channel", m, name)
	}
	c.Done(w)
}

func fieldOfLoad(t *Term) string {
	if t != nil && t.Op == "load" && t.Args[0].Op == "field" {
		return t.Args[0].Aux
	}
	return ""
}

// partOf: the value is p or a struct with p as a field
func partOf(v, p *Term) bool {
	if v == p {
		return true
	}
	if v != nil && v.Op == "struct" {
		for _, a := range v.Args {
			if a == p {
				return true
			}
		}
	}
	return false
}

// part: the part of a received value of a type
func part(v *Term, t types.Type, want func(types.Type) bool) *Term {
	if want(t) {
		return v
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if want(s.Field(i).Type()) {
			return project(v, s.Field(i).Name(), i, s.Field(i).Type())
		}
	}
	return nil
}

// round: one round of a loop of requests
type round struct {
	st    *State
	back  bool
	inner bool // ends at the back edge of a loop inside the round
	at    string
	role  string
	val   *Term // the received value
	ev    *Event
	open  []*Event // loops over maps not ended: the event of their current round
	loop  *Event   // the one whose round ends, if inner
	ended []*Event
	rest  []*Event // events after the request
}

// rounds runs the loop of requests and gives each round to judge
func (k *nodeCtx) rounds(w *Walker, loop *ssa.Function, self *Term, roleOf func(ev *Event) string, judge func(r *round)) []*Exit {
	one := func(st *State, back, inner bool, head *ssa.BasicBlock, at string) {
		r := &round{st: st, back: back, inner: inner, at: at}
		for _, ev := range st.Events() {
			if r.role == "" {
				if ev.Kind == "recv" && ev.Select {
					if role := roleOf(ev); role != "" {
						r.role, r.val, r.ev = role, ev.Val, ev
					}
				}
				continue
			}
			r.rest = append(r.rest, ev)
			switch ev.Kind {
			case "range":
				if n := len(r.open); n > 0 && r.open[n-1].Addr == ev.Addr {
					r.open[n-1] = ev
				} else {
					r.open = append(r.open, ev)
				}
			case "rangeend":
				for n := len(r.open); n > 0 && r.open[n-1].Addr == ev.Addr; n = len(r.open) {
					r.open = r.open[:n-1]
				}
				r.ended = append(r.ended, ev)
			}
		}
		for _, ev := range r.open {
			if inner && ev.Instr.Block() == head {
				r.loop = ev
			}
		}
		judge(r)
	}
	w.OnBack = func(g *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
		if g == loop && len(w.fi(loop).encl[head]) <= 1 {
			one(st, true, false, head, k.c.P.pos(g.Pos()))
		} else {
			one(st, false, true, head, k.c.P.pos(g.Pos()))
		}
	}
	var out []*Exit
	for _, x := range w.Run(loop, []*Term{self}, nil, nil) {
		if !x.Panic {
			one(x.St, false, false, nil, k.c.at(x.Instr))
			out = append(out, x)
		}
	}
	return out
}

func (x *feedsCtx) isFs(m *Term) bool { return isF(m, x.fs, x.self) }
func (x *feedsCtx) isCsOf(st *State, m *Term, key *Term) bool { // connections of the feed with a key
	if m == nil || m.Op != "load" || m.Args[0].Op != "field" || m.Args[0].Aux != x.cs {
		return false
	}
	mm, kk := elemOf(m.Args[0].Args[0])
	return mm != nil && x.isFs(mm) && (kk == key || st.Eq(kk, key))
}

func checkN04(c *Ctx) {
	c.Rule("api", "each request to the loop of feeds has a channel of its own, carries its arguments and returns its answer", 12)
	c.Rule("subscribe", "a connection gets subscribed to a feed exactly if asked, also to one not known yet, leaves the idle ones, and a closed one is not added", 3)
	c.Rule("unsubscribe", "a connection is taken out of exactly the feed asked for and becomes idle only if it shares no other", 3)
	c.Rule("remove", "a closed connection is taken out of every feed and its heads, a removed feed leaves no connection and no head behind", 3)
	c.Rule("received", "a Root reaches the head of its nonce only from a connection subscribed to its feed; a new head is made for an unknown nonce, within the limit of heads", 4)
	c.Rule("broadcast", "a Root is sent to every connection subscribed to its feed except the one it came from", 2)
	c.Rule("answers", "each question is answered once, from the tables", 5)
	c.Rule("list", "the list of feeds is made again after every change of the feeds and leaves the blank one out", 3)
	c.Rule("sub", "a Sub is accepted exactly if its feed is not blank, the callback does not refuse and the node shares the feed; then the last Root is pushed", 5)
	c.Rule("unsub", "an Unsub takes out exactly the subscription it names and reports it", 3)
	c.Rule("public", "the list of feeds is given to peers of a public node only", 2)
	c.Rule("accepted", "subscribing shares the feed, asks the peer and subscribes the connection exactly if it is accepted, before the next message", 5)
	k := newNodeCtx(c)
	if k == nil {
		return
	}
	x := k.feedsCtx()
	if x == nil {
		return
	}
	x.loopRules()
	k.subRules()
	k.subscribeRules()
}

func (x *feedsCtx) events(st *State, ev *Event) bool {
	switch ev.Kind {
	case "rangeend", "append", "store", "copy":
		return true
	}
	return x.nodeCtx.events(st, ev)
}

func (x *feedsCtx) loopRules() {
	c := x.c
	w := c.P.NewWalker()
	w.SamePkg = true
	w.AnyRound, w.Loops, w.Split = true, 1, true
	w.MaxStates = 3000
	w.OnEvent = x.events
	w.Opaque = func(g *ssa.Function) bool {
		if describes(g) {
			return true
		}
		r := g.Signature.Recv()
		if r == nil {
			return false
		}
		switch {
		case types.Identical(deref(r.Type()), x.conn):
			return sendsSome(x.nodeCtx, g)
		case types.Identical(deref(r.Type()), x.head):
			return true
		}
		return false
	}
	role := func(ev *Event) string {
		for m, q := range x.req {
			if isF(ev.Addr, q, x.self) {
				return m
			}
		}
		return ""
	}
	seen := map[string]bool{}
	exits := x.rounds(w, x.loop, x.self, role, func(r *round) {
		x.judge(w, r, seen)
	})
	ended := false
	for _, e := range exits {
		ended = true
		closing := false
		for _, ev := range e.St.Events() {
			closing = closing || ev.Kind == "recv" && isF(ev.Addr, "closeq", x.self)
		}
		c.Expect(closing, "remove", "end", c.at(e.Instr), "the loop of feeds ends without having been closed")
	}
	c.Expect(ended, "remove", "ends", c.P.pos(x.loop.Pos()), "the loop of feeds never ends")
	for m := range x.req {
		c.Expect(seen[m], "api", m+": handled", c.P.pos(x.loop.Pos()), "the loop of feeds does not handle %s", m)
	}
	for _, s := range []string{"subscribe known", "subscribe new", "subscribe closed", "idle: new", "idle: add", "unsubscribe", "remove conn", "remove feed", "remove: told", "remove: idle", "received known", "received new", "received limit", "broadcast send", "broadcast skip", "feed added", "feed known"} {
		rule := strings.Fields(s)[0]
		switch rule {
		case "idle:":
			rule = "unsubscribe"
		case "remove:":
			rule = "remove"
		case "feed":
			rule = "list"
		}
		c.Expect(seen[s], rule, "case "+s, c.P.pos(x.loop.Pos()), "the loop of feeds has no way for the case %q", s)
	}
	c.Done(w)
}

// sendsSome: a method of a connection from which something is sent to the peer
func sendsSome(k *nodeCtx, g *ssa.Function) bool {
	for h := range k.c.P.Reach(g) {
		for _, b := range h.Blocks {
			for _, in := range b.Instrs {
				if sendsBytes(in) {
					return true
				}
			}
		}
	}
	return false
}

func (x *feedsCtx) judge(w *Walker, r *round, seen map[string]bool) {
	c, st := x.c, r.st
	if r.role == "" {
		if r.back {
			c.Bad("api", "round", r.at, "the loop of feeds has a round not started by a request")
		}
		return
	}
	seen[r.role] = true
	if os.Getenv("DBGROLE") == r.role {
		println("ROUND back", r.back, "inner", r.inner, r.at)
		for _, ev := range r.rest {
			println("   ", ev.String())
		}
		for t, v := range st.facts.b {
			println("      fact", t.String(), v)
		}
	}
	pk := part(r.val, r.val.T, isNamedT("PubKey"))
	cn := part(r.val, r.val.T, isNamedT("Conn"))
	rt := part(r.val, r.val.T, isNamedT("Root"))
	blank := zeroTerm(c.P.pubKeyT())
	var ups, dels, fsUps, fsDels []*Event
	var reset bool // of the list
	var sends, calls []*Event
	for _, ev := range r.rest {
		switch ev.Kind {
		case "mapupdate":
			if x.isFs(ev.Addr) {
				fsUps = append(fsUps, ev)
			} else {
				ups = append(ups, ev)
			}
		case "mapdelete":
			if x.isFs(ev.Addr) {
				fsDels = append(fsDels, ev)
			} else {
				dels = append(dels, ev)
			}
		case "store":
			if ev.Addr.Op == "field" && ev.Addr.Aux == x.fl && ev.Addr.Args[0] == x.self {
				reset = ev.Val == tNil
			}
		case "send":
			sends = append(sends, ev)
		case "call":
			calls = append(calls, ev)
		}
	}
	// the cached list
	if r.back && len(fsUps)+len(fsDels) > 0 {
		c.Expect(reset, "list", r.role+": made again", r.at, "the feeds change by %s and the list of feeds does not", r.role)
	}
	for _, ev := range fsUps { // a new feed
		ok := ev.Val.Op == "alloc" && st.Eq(keyOfFeed(w, st, x, ev.Val), ev.Args[0])
		c.Expect(ok, "subscribe", r.role+": new feed", c.at(ev.Instr), "the feed entered under %s is %s", ev.Args[0], ev.Val)
		c.Expect(present(st, x.isFs, ev.Args[0]) == no, "subscribe", r.role+": replaced", c.at(ev.Instr), "a feed may be replaced by a new one, losing its connections")
	}
	isIdle := func(m *Term) bool { return x.isCsOf(st, m, blank) }
	// becoming idle: only after all feeds were looked through
	idle := func(ev *Event) {
		c.Expect(isIdle(ev.Addr), "unsubscribe", r.role+": idle", c.at(ev.Instr), "%s adds a connection to %s", r.role, ev.Addr)
	}
	inner := func() *Event {
		if r.inner {
			return r.loop
		}
		if n := len(r.open); n > 0 {
			return r.open[n-1]
		}
		return nil
	}
	// lookThrough: the loop over the feeds looking for one with the connection
	lookThrough := func(who *Term) {
		if in := inner(); in != nil && x.isFs(in.Addr) && r.inner {
			f := in.Args[0]
			has := present(st, func(m *Term) bool { return isF(m, x.cs, in.Args[1]) }, who)
			c.Expect(st.Eq(f, blank) || has == no, "unsubscribe", r.role+": looks", r.at, "%s passes a feed by without having looked for the connection in it", r.role)
		}
	}
	closedConn := false
	if cn != nil {
		for _, ev := range r.rest {
			if ev.Kind == "recv" && isF(ev.Addr, "closeq", cn) {
				closedConn = true
			}
		}
	}
	// idleRule: at the end of a round the connection is idle or in another feed
	idleRule := func(who *Term) {
		for _, ev := range ups {
			idle(ev)
			c.Expect(ev.Args[0] == who, "unsubscribe", r.role+": idle one", c.at(ev.Instr), "%s makes %s idle", r.role, ev.Args[0])
		}
		if in := inner(); in != nil && x.isFs(in.Addr) { // left in the middle
			has := present(st, func(m *Term) bool { return isF(m, x.cs, in.Args[1]) }, who)
			c.Expect(has == yes && st.Ne(in.Args[0], blank) && len(ups) == 0, "unsubscribe", r.role+": shares", r.at, "%s stops looking although the connection was not found in the feed", r.role)
			seen["idle: new"] = true
			return
		}
		all := false
		for _, ev := range r.ended {
			all = all || x.isFs(ev.Addr)
		}
		c.Expect(all && len(ups) == 1, "unsubscribe", r.role+": becomes idle", r.at, "%s: a connection that shares no feed is not made idle (all feeds looked through: %v)", r.role, all)
		seen["idle: add"] = true
	}
	ended := func(ok func(m *Term) bool) bool {
		for _, ev := range r.ended {
			if ok(ev.Addr) {
				return true
			}
		}
		return false
	}
	isHs := func(nf func(*Term) bool) func(m *Term) bool {
		return func(m *Term) bool {
			return m.Op == "load" && m.Args[0].Op == "field" && m.Args[0].Aux == x.hs && nf(m.Args[0].Args[0])
		}
	}
	headCall := func(nh *Term, name string) *Event {
		for _, ev := range calls {
			if ev.Static != nil && ev.Static.Name() == name && ev.Args[0] == nh {
				return ev
			}
		}
		return nil
	}
	switch r.role {
	case "addConnFeed":
		isNew := st.Truth(tEq(pk, blank))
		if r.inner {
			lookThrough(cn)
			return
		}
		if closedConn {
			c.Expect(len(ups)+len(dels)+len(fsUps)+len(fsDels) == 0, "subscribe", "closed", r.at, "a closed connection is added")
			seen["subscribe closed"] = true
			return
		}
		if isNew == yes {
			idleRule(cn)
			return
		}
		known := present(st, x.isFs, pk)
		okUp := false
		for _, ev := range ups {
			good := ev.Args[0] == cn && (x.isCsOf(st, ev.Addr, pk) || len(fsUps) == 1 && isF(ev.Addr, x.cs, fsUps[0].Val) || len(fsUps) == 1 && ev.Addr.Op == "makemap")
			c.Expect(good, "subscribe", "added", c.at(ev.Instr), "subscribing adds %s to %s", ev.Args[0], ev.Addr)
			okUp = okUp || good
		}
		okDel := false
		for _, ev := range dels {
			good := ev.Args[0] == cn && isIdle(ev.Addr)
			c.Expect(good, "subscribe", "removed", c.at(ev.Instr), "subscribing takes %s out of %s", ev.Args[0], ev.Addr)
			okDel = okDel || good
		}
		c.Expect(okUp && len(ups) == 1, "subscribe", "subscribed", r.at, "subscribing does not add the connection to the feed")
		c.Expect(okDel, "subscribe", "idle", r.at, "a subscribed connection stays among the idle ones")
		c.Expect(known == yes && len(fsUps) == 0 || known == no && len(fsUps) == 1 && fsUps[0].Args[0] == pk, "subscribe", "feed", r.at, "subscribing to a feed that is known %v enters %d feeds", known, len(fsUps))
		c.Expect(len(fsDels) == 0, "subscribe", "feed removed", r.at, "subscribing removes a feed")
		if known == yes {
			seen["subscribe known"] = true
		} else {
			seen["subscribe new"] = true
		}
	case "delConnFeed":
		isThis := func(t *Term) bool { m, kk := elemOf(t); return m != nil && x.isFs(m) && kk == pk }
		if r.inner {
			if in := inner(); in != nil && isHs(isThis)(in.Addr) {
				c.Expect(headCall(in.Args[1], "delConn") != nil, "unsubscribe", "heads", r.at, "a head of the feed keeps the connection")
				return
			}
			lookThrough(cn)
			return
		}
		if present(st, x.isFs, pk) == no {
			c.Expect(len(ups)+len(dels)+len(fsUps)+len(fsDels) == 0, "unsubscribe", "unknown", r.at, "unsubscribing from an unknown feed changes the feeds")
			return
		}
		ok := len(dels) == 1 && dels[0].Args[0] == cn && x.isCsOf(st, dels[0].Addr, pk)
		c.Expect(ok && len(fsUps)+len(fsDels) == 0, "unsubscribe", "removed", r.at, "unsubscribing takes out %d connections, not just the one from the feed", len(dels))
		c.Expect(ended(isHs(isThis)), "unsubscribe", "all heads", r.at, "not every head of the feed forgets the connection")
		seen["unsubscribe"] = true
		idleRule(cn)
	case "delConn":
		if r.inner {
			in := inner()
			if in == nil {
				return
			}
			if x.isFs(in.Addr) {
				nf := in.Args[1]
				ok := len(dels) > 0
				for _, ev := range dels {
					ok = ok && ev.Args[0] == cn && isF(ev.Addr, x.cs, nf)
				}
				c.Expect(ok, "remove", "conn", r.at, "a closed connection stays in a feed")
				c.Expect(ended(isHs(func(t *Term) bool { return t == nf })), "remove", "conn: heads", r.at, "a closed connection stays in heads of a feed")
			} else {
				c.Expect(headCall(in.Args[1], "delConn") != nil, "remove", "conn: head", r.at, "a closed connection stays in a head")
			}
			return
		}
		c.Expect(ended(x.isFs), "remove", "conn: all", r.at, "a closed connection is not taken out of all feeds")
		c.Expect(len(ups)+len(fsUps)+len(fsDels) == 0, "remove", "conn: only", r.at, "removing a connection adds something")
		seen["remove conn"] = true
	case "delFeed":
		isThis := func(t *Term) bool { m, kk := elemOf(t); return m != nil && x.isFs(m) && kk == pk }
		isCs := func(m *Term) bool {
			return m.Op == "load" && m.Args[0].Op == "field" && m.Args[0].Aux == x.cs && isThis(m.Args[0].Args[0])
		}
		thisBlank := false
		for t, v := range st.facts.b {
			if v && t.Op == "eq" && (t.Args[0] == blank && isF(t.Args[1], x.id, nil) || t.Args[1] == blank && isF(t.Args[0], x.id, nil)) {
				thisBlank = true
			}
		}
		if r.inner {
			in := inner()
			if in == nil {
				return
			}
			switch {
			case isHs(isThis)(in.Addr):
				c.Expect(headCall(in.Args[1], "close") != nil, "remove", "feed: head", r.at, "a head of a removed feed is not closed")
			case isCs(in.Addr):
				un := headCall(in.Args[0], "unsubscribe")
				added := false
				for _, ev := range ups {
					added = added || isIdle(ev.Addr) && ev.Args[0] == in.Args[0]
				}
				if un != nil { // telling the peers
					seen["remove: told"] = true
					a := un.Args[1]
					c.Expect(a == pk || isF(a, x.id, nil), "remove", "feed: told", c.at(un.Instr), "the peer is told about %s", a)
				}
				if last := r.open[len(r.open)-1]; last != in && x.isFs(last.Addr) { // shares another
					has := present(st, func(m *Term) bool { return isF(m, x.cs, last.Args[1]) }, in.Args[0])
					c.Expect(has == yes && st.Ne(last.Args[0], blank) && !added && len(fsDels) == 1, "remove", "feed: shares", r.at, "removing a feed stops looking although the connection was not found in another")
				} else if added {
					c.Expect(len(fsDels) == 1 && ended(x.isFs), "remove", "feed: idle", r.at, "a connection of a removed feed becomes idle although it may share another")
					seen["remove: idle"] = true
				} else {
					c.Expect(un != nil, "remove", "feed: connection", r.at, "a connection of a removed feed is neither told nor made idle")
				}
			case x.isFs(in.Addr):
				for _, o := range r.open {
					if isCs(o.Addr) {
						lookThrough(o.Args[0])
					}
				}
			}
			return
		}
		if present(st, x.isFs, pk) == no {
			c.Expect(len(ups)+len(dels)+len(fsUps)+len(fsDels) == 0, "remove", "unknown feed", r.at, "removing an unknown feed changes the feeds")
			return
		}
		c.Expect(len(fsDels) == 1 && fsDels[0].Args[0] == pk && len(fsUps) == 0, "remove", "feed", r.at, "the removed feed stays")
		if !thisBlank {
			c.Expect(ended(isHs(isThis)), "remove", "feed: heads", r.at, "heads of a removed feed are not closed")
			n := 0
			for _, ev := range r.ended {
				if isCs(ev.Addr) {
					n++
				}
			}
			c.Expect(n >= 1, "remove", "feed: conns", r.at, "the connections of a removed feed are not looked through")
		}
		seen["remove feed"] = true
	case "receivedRoot":
		rk, nonce := x.rootKeys(w, st, rt)
		var hand *Event
		for _, ev := range calls {
			if ev.Static != nil && ev.Static.Signature.Recv() != nil && types.Identical(deref(ev.Static.Signature.Recv().Type()), x.head) && ev.Static.Name() == "receivedRoot" {
				c.Expect(hand == nil, "received", "once", c.at(ev.Instr), "a Root is handed to two heads")
				hand = ev
			}
		}
		if r.inner {
			return
		}
		isThis := func(t *Term) bool { m, kk := elemOf(t); return m != nil && x.isFs(m) && isRootField(kk, rt, rk) }
		subscribed := unknown
		for t, v := range st.facts.b {
			if t.Op == "present" && t.Args[0].Args[1] == cn && t.Args[0].Args[0].Op == "load" && t.Args[0].Args[0].Args[0].Aux == x.cs && isThis(t.Args[0].Args[0].Args[0].Args[0]) {
				subscribed = triOf(v)
			}
		}
		if hand == nil {
			known := unknown
			for t, v := range st.facts.b {
				if t.Op == "present" && x.isFs(t.Args[0].Args[0]) && isRootField(t.Args[0].Args[1], rt, rk) {
					known = triOf(v)
				}
			}
			c.Expect(subscribed == no || known == no || st.Eq(rootField(st, rt, rk), blank), "received", "dropped", r.at, "a Root of a subscribed connection is dropped")
			c.Expect(len(ups)+len(dels)+len(fsUps)+len(fsDels) == 0, "received", "dropped: changes", r.at, "a dropped Root changes the feeds")
			return
		}
		at := c.at(hand.Instr)
		c.Expect(subscribed == yes, "received", "subscribed", at, "a Root is taken from a connection not subscribed to its feed")
		c.Expect(part(hand.Args[1], hand.Args[1].T, isNamedT("Root")) == rt && part(hand.Args[1], hand.Args[1].T, isNamedT("Conn")) == cn, "received", "same", at, "another Root or connection is handed to the head: %s", hand.Args[1])
		nh := hand.Args[0]
		m, kk := elemOf(nh)
		knownHead := m != nil && isHs(isThis)(m) && isRootField(kk, rt, nonce)
		if knownHead {
			c.Expect(len(ups)+len(dels)+len(fsUps)+len(fsDels) == 0, "received", "known head", at, "a Root of a known head changes the feeds")
			seen["received known"] = true
			return
		}
		entered := 0
		for _, ev := range ups {
			if isHs(isThis)(ev.Addr) && isRootField(ev.Args[0], rt, nonce) && ev.Val == nh {
				entered++
			}
		}
		c.Expect(entered == 1 && len(ups) == 1 && (nh.Op == "alloc" || nh.Op == "call"), "received", "new head", at, "a new head is not entered under the nonce of its Root")
		started := nh.Op == "call"
		for _, ev := range r.rest {
			started = started || ev.Kind == "go" && len(ev.Args) > 0 && ev.Args[0] == nh
		}
		c.Expect(started, "received", "started", at, "a new head is not started")
		// the limit of heads
		full := x.limitReached(st, r.rest)
		switch full {
		case yes:
			seen["received limit"] = true
			ok := len(dels) == 1 && isHs(isThis)(dels[0].Addr) && isOldest(dels[0].Args[0], x.ho)
			c.Expect(ok, "received", "limit", at, "the limit of heads is reached and the oldest head is not removed")
			if ok {
				var byErr, closed bool
				for _, ev := range calls {
					if ev.Static == nil || ev.Static.Signature.Recv() == nil || !types.Identical(deref(ev.Static.Signature.Recv().Type()), x.head) {
						continue
					}
					_, hk := elemOf(ev.Args[0])
					if hk == nil || !isOldest(hk, x.ho) {
						continue
					}
					byErr = byErr || len(ev.Args) > 1 && ev.Args[1] == nodeErr("ErrMaxHeadsLimit")
					closed = closed || ev.Static.Name() == "close"
				}
				c.Expect(byErr && closed, "received", "limit: closed", at, "the head removed by the limit is not closed with its error")
			}
		case no:
			seen["received new"] = true
			c.Expect(len(dels) == 0, "received", "no limit", at, "a head is removed although the limit is not reached")
		default:
			c.Bad("received", "limit: checked", at, "a new head is made without the limit of heads having been checked")
		}
		tracked, shifted := false, false
		young := func(ev *Event) bool {
			return ev.Args[1].any(func(t *Term) bool { return isRootField(t, rt, nonce) })
		}
		rest := func(t *Term) bool { // without the oldest
			return t.Op == "slice" && isF(t.Args[0], x.ho, nil) && t.Args[1] == tInt(1) && (t.Args[2] == tNone || t.Args[2].Op == "len" && t.Args[2].Args[0] == t.Args[0])
		}
		stored := func(v *Term) bool {
			for _, ev := range r.rest {
				if ev.Kind == "store" && ev.Addr.Op == "field" && ev.Addr.Aux == x.ho && ev.Val == v {
					return true
				}
			}
			return false
		}
		for _, ev := range r.rest {
			switch {
			case ev.Kind == "copy" && isF(ev.Args[0], x.ho, nil) && rest(ev.Args[1]):
				shifted = true
			case ev.Kind == "append" && young(ev) && isF(ev.Args[0], x.ho, nil) && full == no, ev.Kind == "append" && young(ev) && rest(ev.Args[0]) && full == yes:
				tracked = ev.Res == nil || stored(ev.Res)
			case ev.Kind == "store" && ev.Addr.Op == "idx" && isF(ev.Addr.Args[0], x.ho, nil) && isRootField(ev.Val, rt, nonce) && full == yes:
				tracked = shifted && isLast(ev.Addr.Args[1], ev.Addr.Args[0])
			}
		}
		c.Expect(tracked, "received", "order", at, "a new head does not become the youngest one")
	case "broadcastRoot":
		rk, _ := x.rootKeys(w, st, rt)
		isThis := func(t *Term) bool { m, kk := elemOf(t); return m != nil && x.isFs(m) && isRootField(kk, rt, rk) }
		isCs := func(m *Term) bool {
			return m.Op == "load" && m.Args[0].Op == "field" && m.Args[0].Aux == x.cs && isThis(m.Args[0].Args[0])
		}
		if r.inner {
			in := inner()
			if in == nil || !isCs(in.Addr) {
				return
			}
			n := 0
			for _, ev := range calls {
				if ev.Static != nil && ev.Args[0] == in.Args[0] && sendsSome(x.nodeCtx, ev.Static) {
					n++
					c.Expect(len(ev.Args) > 1 && ev.Args[1] == rt, "broadcast", "what", c.at(ev.Instr), "%s is sent instead of the Root", ev.Args)
				}
			}
			if st.Eq(in.Args[0], cn) {
				c.Expect(n == 0, "broadcast", "back", r.at, "a Root is sent back to where it came from")
				seen["broadcast skip"] = true
			} else {
				c.Expect(n == 1 && st.Ne(in.Args[0], cn), "broadcast", "sent", r.at, "a Root is sent %d times to a subscribed connection (or back to where it came from)", n)
				seen["broadcast send"] = true
			}
			return
		}
		known := unknown
		for t, v := range st.facts.b {
			if t.Op == "present" && x.isFs(t.Args[0].Args[0]) && isRootField(t.Args[0].Args[1], rt, rk) {
				known = triOf(v)
			}
		}
		c.Expect(known == no || ended(isCs), "broadcast", "all", r.at, "a Root is not sent to all subscribed connections")
	case "addFeed", "hasFeed", "hasConnFeed":
		x.answer(r, sends, func(v *Term) {
			has := present(st, x.isFs, pk)
			want := has
			switch r.role {
			case "addFeed":
				want = has.not()
				if has == no {
					ok := len(fsUps) == 1 && fsUps[0].Args[0] == pk
					c.Expect(ok, "list", "added", r.at, "an unknown feed is not added")
					seen["feed added"] = true
				} else {
					c.Expect(len(fsUps) == 0, "list", "known", r.at, "a known feed is added again")
					seen["feed known"] = true
				}
			case "hasConnFeed":
				if has == yes {
					want = present(st, func(m *Term) bool { return x.isCsOf(st, m, pk) }, cn)
				}
			}
			got := st.Truth(v)
			if v.Op == "present" && want == unknown { // not branched on
				ok := x.isFs(v.Args[0].Args[0]) && v.Args[0].Args[1] == pk && r.role == "hasFeed" ||
					r.role == "hasConnFeed" && has == yes && x.isCsOf(st, v.Args[0].Args[0], pk) && v.Args[0].Args[1] == cn
				c.Expect(ok, "answers", r.role, r.at, "%s answers %s", r.role, v)
				return
			}
			c.Expect(got != unknown && got == want, "answers", r.role, r.at, "%s answers %s, it is %v", r.role, v, want)
		})
	case "list", "feedsOfConnection", "connectionsOfFeed":
		if r.inner {
			in := inner()
			if in == nil {
				return
			}
			take := yes
			switch r.role {
			case "list":
				take = st.Truth(tEq(in.Args[0], blank)).not()
			case "feedsOfConnection":
				take = present(st, func(m *Term) bool { return isF(m, x.cs, in.Args[1]) }, cn)
				if st.Eq(in.Args[0], blank) {
					take = no
				} else if !st.Ne(in.Args[0], blank) {
					take = unknown
				}
			}
			n := 0
			for _, ev := range r.rest {
				if ev.Kind == "append" && ev.Args[1].contains(in.Args[0]) {
					n++
				}
			}
			c.Expect(take == yes && n == 1 || take == no && n == 0, "answers", r.role+": each", r.at, "%s takes an element %d times, it belongs to the answer: %v", r.role, n, take)
			return
		}
		x.answer(r, sends, func(v *Term) {
			switch r.role {
			case "list":
				c.Expect(isF(v, x.fl, x.self) || v.Op == "append" || v == tNil || v.Op != "load", "answers", r.role, r.at, "%s answers %s", r.role, v)
				ok := false // made again if needed
				for _, ev := range r.ended {
					ok = ok || x.isFs(ev.Addr)
				}
				if !ok {
					fl := (*Term)(nil)
					for t := range st.facts.b {
						if t.Op == "eq" && (isF(t.Args[0], x.fl, x.self) || isF(t.Args[1], x.fl, x.self)) && (t.Args[0] == tNil || t.Args[1] == tNil) {
							fl = t
						}
					}
					few := false
					for t := range st.facts.iv {
						if t.any(func(y *Term) bool { return y.Op == "len" && x.isFs(y.Args[0]) }) {
							few = true
						}
					}
					c.Expect(fl != nil && (st.Truth(fl) == no || few), "list", "stale", r.at, "the list of feeds is given without having been made")
				}
			case "connectionsOfFeed":
				isCs := func(m *Term) bool { return x.isCsOf(st, m, pk) }
				c.Expect(present(st, x.isFs, pk) == no || ended(isCs), "answers", r.role+": all", r.at, "%s does not look through all connections of the feed", r.role)
			case "feedsOfConnection":
				c.Expect(ended(x.isFs), "answers", r.role+": all", r.at, "%s does not look through all feeds", r.role)
			}
		})
	}
}

// answer: one answer on the channel of the question, or closing
func (x *feedsCtx) answer(r *round, sends []*Event, ok func(v *Term)) {
	c := x.c
	if r.inner {
		return
	}
	closing := false
	for _, ev := range r.rest {
		closing = closing || ev.Kind == "recv" && isF(ev.Addr, "closeq", x.self)
	}
	if len(sends) == 0 {
		c.Expect(closing, "answers", r.role+": answered", r.at, "%s is not answered", r.role)
		return
	}
	c.Expect(len(sends) == 1 && isF(sends[0].Addr, x.rep[r.role], x.self), "answers", r.role+": once", r.at, "%s is answered %d times or on the wrong channel", r.role, len(sends))
	ok(sends[0].Val)
}

func (p *Prog) pubKeyT() types.Type {
	if pk, err := p.Import("github.com/skycoin/skycoin/src/cipher"); err == nil {
		if o := pk.Scope().Lookup("PubKey"); o != nil {
			return o.Type()
		}
	}
	return nil
}

// keyOfFeed: the feed a new table of a feed is of
func keyOfFeed(w *Walker, st *State, x *feedsCtx, nf *Term) *Term {
	i, ft := fieldIndex(x.feed, x.id)
	return w.load(st, w.fieldAddr(nf, x.feed, i), ft)
}

func (x *feedsCtx) rootKeys(w *Walker, st *State, rt *Term) (feed, nonce string) {
	return "Pub", "Nonce"
}

func isRootField(t, rt *Term, f string) bool {
	return t != nil && t.Op == "load" && t.Args[0].Op == "field" && t.Args[0].Aux == f && t.Args[0].Args[0] == rt
}

// rootField: the field of the Root as read on the path
func rootField(st *State, rt *Term, f string) (out *Term) {
	for _, t := range factTerms(st) {
		t.any(func(y *Term) bool {
			if isRootField(y, rt, f) {
				out = y
			}
			return false
		})
	}
	if out == nil {
		return tNil
	}
	return
}

// limitReached: the number of heads has reached the configured limit
func (x *feedsCtx) limitReached(st *State, evs []*Event) tri {
	isMax := func(t *Term) bool { return t.Op == "load" && t.Args[0].Op == "field" && t.Args[0].Aux == "MaxHeads" }
	var max, n *Term
	look := func(t *Term) {
		t.any(func(y *Term) bool {
			if isMax(y) {
				max = y
			}
			if y.Op == "len" && (isF(y.Args[0], x.ho, nil) || isF(y.Args[0], x.hs, nil)) {
				n = y
			}
			return false
		})
	}
	for _, t := range factTerms(st) {
		look(t)
	}
	if max == nil {
		return unknown
	}
	if st.Truth(tLt(tInt(0), max, false)) == no {
		return no
	}
	if n == nil {
		return unknown
	}
	if st.Truth(tLt(n, max, false)) == no || st.Eq(n, max) {
		return yes
	}
	if st.Truth(tLt(n, max, false)) == yes || st.Ne(n, max) {
		return no
	}
	return unknown
}

// isOldest: the first element of the order of heads
func isOldest(t *Term, ho string) bool {
	return t != nil && t.Op == "load" && t.Args[0].Op == "idx" && isF(t.Args[0].Args[0], ho, nil) && t.Args[0].Args[1] == tInt(0)
}

func isLast(i, s *Term) bool {
	d := tAdd(i, tInt(1))
	return d.Op == "len" && d.Args[0] == s
}

// isMsg: is a value a message of a type
func isMsg(st *State, m *Term, typ string) tri {
	if u := unwrapIface(m); u != m && u.T != nil {
		return triOf(typeName(u.T) == typ)
	}
	out := unknown
	for t, v := range st.facts.b {
		if t.Op != "typeis" || len(t.Args) == 0 || t.Args[0] != m {
			continue
		}
		if t.Aux[strings.LastIndex(t.Aux, ".")+1:] == typ {
			if v {
				return yes
			}
			out = no
		} else if v {
			out = no
		}
	}
	return out
}

// feedCall: a call of the API of feeds
func feedCall(ev *Event, name string) bool {
	return ev.Kind == "call" && ev.Static != nil && ev.Static.Signature.Recv() != nil && typeName(ev.Static.Signature.Recv().Type()) == "nodeFeeds" && ev.Static.Name() == name
}

// callback: a call of a function of the configuration
func callback(ev *Event, name string) bool {
	return ev.Kind == "call" && ev.Name == "dyn" && isF(ev.Addr, name, nil)
}

func hasSuffixCall(ev *Event, suf string) bool {
	return ev.Kind == "call" && strings.HasSuffix(ev.Name, suf)
}

func (k *nodeCtx) subRules() {
	c := k.c
	h := k.handler()
	if h == nil {
		return
	}
	w := k.walker()
	w.Split = true
	seq := mk("param", "seq", types.Typ[types.Uint32])
	m := mk("param", "m", nil)
	var args []*Term
	for i, p := range h.Params {
		switch {
		case i == 0:
			args = append(args, k.self)
		case isNumT(p.Type()):
			args = append(args, seq)
		default:
			m = mk("param", "m", p.Type())
			args = append(args, m)
		}
	}
	seen := map[string]bool{}
	for _, x := range w.Run(h, args, nil, nil) {
		st, at := x.St, c.at(x.Instr)
		if x.Panic {
			continue
		}
		var er *Term
		if len(x.Rets) > 0 {
			er = x.Rets[len(x.Rets)-1]
		}
		typ := ""
		for _, t := range []string{"Sub", "Unsub", "RqList"} {
			if isMsg(st, m, t) == yes {
				typ = t
			}
		}
		evs := st.Events()
		if typ == "" {
			for _, ev := range evs {
				for _, n := range []string{"addConnFeed", "delConnFeed", "addFeed", "delFeed"} {
					c.Expect(!feedCall(ev, n), "sub", "other messages", c.at(ev.Instr), "a message that is no Sub and no Unsub changes the feeds")
				}
				c.Expect(!callback(ev, "OnSubscribeRemote") && !callback(ev, "OnUnsubscribeRemote"), "sub", "other callbacks", c.at(ev.Instr), "a message that is no Sub and no Unsub is reported as one")
			}
			continue
		}
		isFeed := func(t *Term) bool { return isFieldOf(t, typ, "Feed", m) }
		blank := unknown
		for t, v := range st.facts.b {
			if t.Op == "eq" && (isFeed(t.Args[0]) && strings.HasPrefix(t.Args[1].Op, "zero") || isFeed(t.Args[1]) && strings.HasPrefix(t.Args[0].Op, "zero")) {
				blank = triOf(v)
			}
		}
		var reply *frame0
		var root []frame0
		for _, fr := range k.frames(w, st) {
			fr := fr
			if fr.rseq == seq {
				reply = &fr
			} else if fr.typ == "Root" {
				root = append(root, fr)
			}
		}
		var has, shares, cb, add, del, last *Event
		pos := map[*Event]int{}
		for i, ev := range evs {
			pos[ev] = i
			one := func(p **Event, what string) {
				c.Expect(*p == nil, "sub", typ+": "+what+" once", c.at(ev.Instr), "%s twice for one %s", what, typ)
				*p = ev
			}
			switch {
			case feedCall(ev, "hasConnFeed"):
				has = ev
				c.Expect(ev.Args[1] == k.self && isFeed(ev.Args[2]), "sub", typ+": which", c.at(ev.Instr), "%s looks for a subscription of %s to %s", typ, ev.Args[1], ev.Args[2])
			case feedCall(ev, "hasFeed"):
				shares = ev
				c.Expect(isFeed(ev.Args[1]), "sub", typ+": which feed", c.at(ev.Instr), "%s looks for the feed %s", typ, ev.Args[1])
			case feedCall(ev, "addConnFeed"):
				one(&add, "subscribed")
				c.Expect(typ == "Sub" && ev.Args[1] == k.self && isFeed(ev.Args[2]), "sub", typ+": subscribed", c.at(ev.Instr), "%s subscribes %s to %s", typ, ev.Args[1], ev.Args[2])
			case feedCall(ev, "delConnFeed"):
				one(&del, "unsubscribed")
				c.Expect(typ == "Unsub" && ev.Args[1] == k.self && isFeed(ev.Args[2]), "unsub", typ+": unsubscribed", c.at(ev.Instr), "%s unsubscribes %s from %s", typ, ev.Args[1], ev.Args[2])
			case callback(ev, "OnSubscribeRemote"), callback(ev, "OnUnsubscribeRemote"):
				one(&cb, "reported")
				ok := callback(ev, "On"+map[string]string{"Sub": "Subscribe", "Unsub": "Unsubscribe"}[typ]+"Remote")
				c.Expect(ok && ev.Args[0] == k.self && isFeed(ev.Args[1]), "sub", typ+": reported", c.at(ev.Instr), "%s is reported by %s", typ, ev.Addr)
			case hasSuffixCall(ev, ".LastRoot"):
				last = ev
			}
		}
		cbIs := func(n string) tri { // is there a callback
			for t, v := range st.facts.b {
				if t.Op == "eq" && (t.Args[0] == tNil && isF(t.Args[1], n, nil) || t.Args[1] == tNil && isF(t.Args[0], n, nil)) {
					return triOf(!v)
				}
			}
			return unknown
		}
		failed := st.IsNil(er) == no
		closed := k.closed(st)
		replied := func(rule, what, want string) {
			if reply == nil {
				c.Expect(closed, rule, typ+": "+what, at, "%s, %s: no reply", typ, what)
				return
			}
			c.Expect(reply.typ == want, rule, typ+": "+what, at, "%s, %s: the reply is %s", typ, what, reply.typ)
			seen[typ+" "+what] = true
		}
		switch typ {
		case "Sub":
			if blank == yes {
				c.Expect(failed && add == nil && cb == nil, "sub", "blank", at, "a Sub with a blank feed is accepted")
				seen["Sub blank"] = true
				continue
			}
			if !c.Expect(blank == no && !failed, "sub", "fatal", at, "a Sub ends the connection although its feed is not blank, or a blank one is not recognised") {
				continue
			}
			if has != nil && st.Truth(has.Res) == yes {
				c.Expect(cb == nil, "sub", "again", at, "a Sub for what is subscribed is reported again")
				replied("sub", "subscribed already", "Ok")
				continue
			}
			if cb == nil {
				c.Expect(cbIs("OnSubscribeRemote") == no, "sub", "not reported", at, "a Sub is not reported to the callback")
			} else if st.IsNil(cb.Res) == no {
				c.Expect(add == nil, "sub", "refused", at, "a Sub the callback refused subscribes the connection")
				replied("sub", "refused", "Err")
				continue
			} else if st.IsNil(cb.Res) != yes {
				c.Bad("sub", "refusal", at, "the answer of the callback is not regarded")
				continue
			}
			if !c.Expect(shares != nil && (cb == nil || pos[shares] > pos[cb]), "sub", "shares", at, "a Sub does not look, after the callback, whether the feed is shared") {
				continue
			}
			switch st.Truth(shares.Res) {
			case no:
				c.Expect(add == nil, "sub", "not shared: subscribed", at, "a Sub for a feed not shared subscribes the connection")
				replied("sub", "not shared", "Err")
			case yes:
				c.Expect(add != nil, "sub", "not subscribed", at, "an accepted Sub does not subscribe the connection")
				replied("sub", "accepted", "Ok")
				if c.Expect(last != nil && isFeed(last.Args[1]) && last.Res.Op == "tuple", "sub", "last Root", at, "an accepted Sub does not push the last Root") {
					c.Expect(pos[last] > pos[add], "sub", "last Root: after", c.at(last.Instr), "the last Root is looked for before the connection is subscribed: one published in between is never sent")
					if st.IsNil(last.Res.Args[1]) == yes {
						c.Expect(len(root) == 1 || closed && len(root) == 0, "sub", "last Root: sent", at, "the last Root is sent %d times", len(root))
						for _, fr := range root {
							k.rootFrame(w, st, fr, last.Res.Args[0])
						}
						seen["Sub root"] = true
					} else {
						c.Expect(len(root) == 0, "sub", "last Root: none", at, "a Root is sent although there is none")
					}
				}
			default:
				c.Bad("sub", "shared", at, "a Sub does not regard whether the feed is shared")
			}
		case "Unsub":
			if blank == yes {
				c.Expect(failed && del == nil && cb == nil, "unsub", "blank", at, "an Unsub with a blank feed is accepted")
				seen["Unsub blank"] = true
				continue
			}
			if !c.Expect(blank == no && !failed, "unsub", "fatal", at, "an Unsub ends the connection although its feed is not blank, or a blank one is not recognised") {
				continue
			}
			if has == nil || st.Truth(has.Res) == unknown {
				c.Bad("unsub", "subscribed", at, "an Unsub does not regard whether the connection is subscribed")
				continue
			}
			if st.Truth(has.Res) == no {
				c.Expect(del == nil && cb == nil, "unsub", "not subscribed", at, "an Unsub of what is not subscribed is reported")
				seen["Unsub no"] = true
				continue
			}
			c.Expect(del != nil, "unsub", "removed", at, "an Unsub leaves the subscription")
			c.Expect(cb != nil || cbIs("OnUnsubscribeRemote") == no, "unsub", "not reported", at, "an Unsub is not reported to the callback")
			seen["Unsub yes"] = true
		case "RqList":
			pub := unknown
			for t, v := range st.facts.b {
				if isF(t, "Public", nil) {
					pub = triOf(v)
				}
			}
			var list *Event
			for _, ev := range evs {
				if feedCall(ev, "list") {
					list = ev
				}
			}
			switch pub {
			case yes:
				replied("public", "public", "List")
				if reply != nil && reply.typ == "List" {
					c.Expect(list != nil && reply.fields["Feeds"] == list.Res, "public", "which", at, "the list given is %s", reply.fields["Feeds"])
				}
			case no:
				replied("public", "not public", "Err")
			default:
				c.Bad("public", "asked", at, "the list of feeds is given without looking whether the node is public")
			}
		}
	}
	for _, s := range []string{"Sub blank", "Sub subscribed already", "Sub refused", "Sub not shared", "Sub accepted", "Sub root", "Unsub blank", "Unsub no", "Unsub yes", "RqList public", "RqList not public"} {
		c.Expect(seen[s], "sub", "case "+s, c.P.pos(h.Pos()), "there is no way for the case %q", s)
	}
	c.Done(w)
	// sending a Root
	n := 0
	for _, f := range c.P.Funcs {
		if f.Pkg == nil || c.P.rel(f.Pkg) != "node" || f.Signature.Recv() == nil || !types.Identical(deref(f.Signature.Recv().Type()), k.conn) || len(f.Params) != 2 || typeName(f.Params[1].Type()) != "Root" || !sendsSome(k, f) || strings.HasPrefix(f.Params[1].Type().String(), "*"+modPath+"/node/msg.") {
			continue
		}
		w := k.walker()
		r := mk("param", "r", f.Params[1].Type())
		for _, x := range w.Run(f, []*Term{k.self, r}, nil, nil) {
			if x.Panic {
				continue
			}
			fr := k.frames(w, x.St)
			if c.Expect(len(fr) == 1 || k.closed(x.St) && len(fr) == 0, "broadcast", "frames", c.at(x.Instr), "%s sends %d messages", fname(f), len(fr)) && len(fr) == 1 {
				c.Expect(fr[0].rseq == tInt(0), "broadcast", "no reply", c.at(x.Instr), "a pushed Root is sent as a reply")
				k.rootFrame(w, x.St, fr[0], r)
				n++
			}
		}
		c.Done(w)
	}
	c.Expect(n > 0, "broadcast", "sender", c.P.pos(h.Pos()), "nothing sends a Root")
}

// rootFrame: the message carries the Root
func (k *nodeCtx) rootFrame(w *Walker, st *State, fr frame0, r *Term) {
	c, at := k.c, k.c.at(fr.ev.Instr)
	if !c.Expect(fr.typ == "Root", "broadcast", "message", at, "a %s is sent instead of a Root", fr.typ) {
		return
	}
	for _, f := range [][2]string{{"Feed", "Pub"}, {"Nonce", "Nonce"}, {"Seq", "Seq"}, {"Sig", "Sig"}} {
		c.Expect(isRootField(fr.fields[f[0]], r, f[1]), "broadcast", "field "+f[0], at, "the field %s of a pushed Root is %s", f[0], fr.fields[f[0]])
	}
	ok := false
	for _, ev := range st.Events() {
		ok = ok || hasSuffixCall(ev, ".Encode") && ev.Args[0] == r && ev.Res == fr.fields["Value"]
	}
	c.Expect(ok, "broadcast", "field Value", at, "the value of a pushed Root is %s", fr.fields["Value"])
}

func (k *nodeCtx) subscribeRules() {
	c := k.c
	w, rq := k.requestWalker()
	f, u := c.P.Method("node", "Conn", "Subscribe"), c.P.Method("node", "Conn", "Unsubscribe")
	if w == nil || f == nil || u == nil {
		c.Anchor("node.Conn: Subscribe, Unsubscribe")
		return
	}
	// the table of subscriptions asked for
	subsF := ""
	if s, ok := k.conn.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if isMapT(isNumT, isNamedT("PubKey"))(s.Field(i).Type()) {
				subsF = s.Field(i).Name()
			}
		}
	}
	if subsF == "" {
		c.Anchor("node.Conn: the subscriptions asked for")
		return
	}
	isSubs := func(m *Term) bool { return isF(m, subsF, k.self) }
	// Subscribe
	w.Split = true
	feed := mk("param", "feed", f.Params[1].Type())
	seen := map[string]bool{}
	for _, x := range w.Run(f, []*Term{k.self, feed}, nil, nil) {
		st, at := x.St, c.at(x.Instr)
		if x.Panic {
			c.Bad("accepted", "Subscribe: panic", at, "Subscribe panics")
			continue
		}
		er := x.Rets[0]
		var ask, share, cont, last *Event
		pos := map[*Event]int{}
		for i, ev := range st.Events() {
			pos[ev] = i
			switch {
			case ev.Kind == "call" && ev.Static == rq:
				c.Expect(ask == nil, "accepted", "Subscribe: once", c.at(ev.Instr), "Subscribe asks twice")
				ask = ev
			case feedCall(ev, "addFeed"):
				share = ev
				c.Expect(ev.Args[1] == feed, "accepted", "Subscribe: shares", c.at(ev.Instr), "Subscribe shares %s", ev.Args[1])
			case hasSuffixCall(ev, ".AddFeed"):
				cont = ev
				c.Expect(ev.Args[1] == feed, "accepted", "Subscribe: container", c.at(ev.Instr), "Subscribe adds %s to the container", ev.Args[1])
			case hasSuffixCall(ev, ".LastRoot"):
				last = ev
			}
		}
		if ask == nil {
			c.Expect(st.IsNil(er) == no, "accepted", "Subscribe: asks", at, "Subscribe succeeds without having asked the peer")
			seen["failed"] = true
			continue
		}
		c.Expect(share != nil && cont != nil && st.IsNil(cont.Res) == yes && pos[share] < pos[ask] && pos[cont] < pos[share], "accepted", "Subscribe: shares first", at, "Subscribe asks the peer before the feed is in the container and shared")
		k.asks(w, st, ask, "Sub", "Feed", feed, "accepted", "Subscribe")
		rep, rerr := ask.Res.Args[0], ask.Res.Args[1]
		switch {
		case st.IsNil(rerr) == no:
			c.Expect(st.IsNil(er) == no && last == nil, "accepted", "Subscribe: failed", at, "Subscribe succeeds although the request failed")
			seen["failed"] = true
		case isMsg(st, rep, "Ok") == yes:
			c.Expect(st.IsNil(er) == yes, "accepted", "Subscribe: ok", at, "Subscribe fails although the peer accepted")
			c.Expect(last != nil && last.Args[1] == feed && pos[last] > pos[ask], "accepted", "Subscribe: last Root", at, "Subscribe does not push the last Root")
			seen["ok"] = true
		default:
			c.Expect(isMsg(st, rep, "Ok") == no && st.IsNil(er) == no && last == nil, "accepted", "Subscribe: refused", at, "Subscribe succeeds although the peer did not accept")
			seen["refused"] = true
		}
	}
	for _, s := range []string{"failed", "ok", "refused"} {
		c.Expect(seen[s], "accepted", "case "+s, c.P.pos(f.Pos()), "Subscribe has no way for the case %q", s)
	}
	c.Done(w)
	// Unsubscribe
	w = k.walker()
	for _, x := range w.Run(u, []*Term{k.self, feed}, nil, nil) {
		st, at := x.St, c.at(x.Instr)
		if x.Panic {
			continue
		}
		n, sent := 0, 0
		for _, ev := range st.Events() {
			if feedCall(ev, "delConnFeed") {
				n++
				c.Expect(ev.Args[1] == k.self && ev.Args[2] == feed, "accepted", "Unsubscribe: which", c.at(ev.Instr), "Unsubscribe takes %s out of %s", ev.Args[1], ev.Args[2])
			}
		}
		for _, fr := range k.frames(w, st) {
			if fr.typ == "Unsub" && fr.fields["Feed"] == feed && fr.rseq == tInt(0) {
				sent++
			}
		}
		c.Expect(n == 1, "accepted", "Unsubscribe: takes out", at, "Unsubscribe takes out %d subscriptions", n)
		c.Expect(sent == 1 || k.closed(st), "accepted", "Unsubscribe: tells", at, "Unsubscribe does not tell the peer")
	}
	c.Done(w)
	// the request is entered with its feed, and taken out
	w = k.walker()
	w.Split = true
	m := mk("param", "m", rq.Params[1].Type())
	for _, x := range w.Run(rq, []*Term{k.self, m}, nil, nil) {
		st, at := x.St, c.at(x.Instr)
		if x.Panic {
			continue
		}
		var in, out *Event
		var key *Term
		first := -1
		for i, ev := range st.Events() {
			switch {
			case ev.Kind == "mapupdate" && isSubs(ev.Addr):
				in = ev
				c.Expect(first < 0, "accepted", "request: order", c.at(ev.Instr), "a subscription asked for is entered after the request was sent")
			case ev.Kind == "mapdelete" && isSubs(ev.Addr):
				out = ev
			case ev.Kind == "mapupdate" && k.isReqs(ev.Addr):
				key = ev.Args[0]
			case ev.Kind == "send" && isBytesT(ev.Val):
				first = i
			}
		}
		is := isMsg(st, m, "Sub")
		if is == yes {
			c.Expect(in != nil && in.Args[0] == key && isFieldOf(in.Val, "Sub", "Feed", m), "accepted", "request: entered", at, "a subscription asked for is not entered with its feed under the number of the request")
			c.Expect(out != nil && out.Args[0] == key, "accepted", "request: taken out", at, "a subscription asked for is never taken out")
			seen["entered"] = true
		} else {
			c.Expect(is == no && in == nil, "accepted", "request: other", at, "a request that is no Sub (%v) may be entered as one", is)
		}
	}
	c.Expect(seen["entered"], "accepted", "request: case", c.P.pos(rq.Pos()), "no request is entered as a subscription asked for")
	c.Done(w)
	// the reply
	h := k.handler()
	if h == nil {
		return
	}
	rc := k.receiver(h)
	if rc == nil {
		return
	}
	w = k.walker()
	w.Split = true
	dec := c.P.Func("node/msg", "Decode")
	op := w.Opaque
	w.Opaque = func(g *ssa.Function) bool { return g == h || g == dec || op(g) }
	judge := func(st *State, at string) {
		var d, add, give *Event
		pos := map[*Event]int{}
		for i, ev := range st.Events() {
			pos[ev] = i
			switch {
			case ev.Kind == "call" && ev.Static == dec:
				d = ev
			case feedCall(ev, "addConnFeed"):
				c.Expect(add == nil, "accepted", "reply: once", c.at(ev.Instr), "a connection is subscribed twice")
				add = ev
			case ev.Kind == "send" && ev.Val != nil && d != nil && ev.Val == d.Res.Args[0]:
				give = ev
			}
		}
		if d == nil {
			c.Expect(add == nil, "accepted", "reply: without", at, "a connection is subscribed without a message")
			return
		}
		msg := d.Res.Args[0]
		waits := unknown
		var key *Term
		for t, v := range st.facts.b {
			if t.Op == "present" && k.isReqs(t.Args[0].Args[0]) {
				waits, key = triOf(v), t.Args[0].Args[1]
			}
		}
		if waits != yes {
			c.Expect(add == nil, "accepted", "reply: no request", at, "a message nobody asked for subscribes a connection")
			return
		}
		ok, asked := isMsg(st, msg, "Ok"), present(st, isSubs, key)
		if ok == yes && asked == yes {
			if c.Expect(add != nil, "accepted", "reply: accepted", at, "an accepted Sub does not subscribe the connection") {
				mm, kk := elemOf(add.Args[2])
				c.Expect(add.Args[1] == k.self && mm != nil && isSubs(mm) && kk == key, "accepted", "reply: to", c.at(add.Instr), "an accepted Sub subscribes %s to %s", add.Args[1], add.Args[2])
				c.Expect(give == nil || pos[give] > pos[add], "accepted", "reply: before", c.at(add.Instr), "the connection is subscribed only after the reply was handed over")
			}
			seen["subscribed"] = true
			return
		}
		c.Expect(add == nil && (ok == no || asked == no), "accepted", "reply: other", at, "a reply that is not the Ok to a Sub (Ok: %v, asked for: %v) may subscribe the connection", ok, asked)
	}
	w.OnBack = func(g *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
		if g == rc {
			judge(st, c.P.pos(rc.Pos()))
		}
	}
	for _, x := range w.Run(rc, append([]*Term{k.self}, w.Params(rc)[1:]...), nil, nil) {
		if !x.Panic {
			judge(x.St, c.at(x.Instr))
		}
	}
	c.Expect(seen["subscribed"], "accepted", "reply: case", c.P.pos(rc.Pos()), "no reply subscribes a connection")
	c.Done(w)
}
