package main

// Swarms: peers of a feed, kept, exchanged and connected to.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("N08", "A swarm keeps, exchanges and connects to peers of its feed",
		"Methods of a swarm, its goroutines and the functions of the node that use it are run on arbitrary tables of peers; every exit and every round of a loop is compared with the specification.", checkN08)
}

type swarmCtx struct {
	c                                                  *Ctx
	k                                                  *nodeCtx
	swarm, peer, conf                                  *types.Named
	fPeers, fConf                                      string
	fFeed                                              string
	self, peers                                        *Term
	valid                                              *ssa.Function // of an address
	received, exchange, expire, need, connect, request *ssa.Function
}

func checkN08(c *Ctx) {
	k := newNodeCtx(c)
	if k == nil {
		return
	}
	x := &swarmCtx{c: c, k: k, swarm: c.P.Named("node", "Swarm"), peer: c.P.Named("node", "Peer"), conf: c.P.Named("node", "SwarmConfig")}
	if x.swarm == nil || x.peer == nil || x.conf == nil {
		c.Anchor("node.Swarm, node.Peer, node.SwarmConfig")
		return
	}
	x.fPeers = fieldBy(x.swarm, isMapT(func(t types.Type) bool { return typeName(t) == "PubKey" }, func(t types.Type) bool { return typeName(t) == "Peer" }))
	x.fConf = fieldBy(x.swarm, func(t types.Type) bool { return typeName(t) == "SwarmConfig" })
	x.fFeed = fieldBy(x.swarm, func(t types.Type) bool { return typeName(t) == "PubKey" })
	if x.fPeers == "" || x.fConf == "" || x.fFeed == "" {
		c.Anchor("node.Swarm: peers, configuration, feed")
		return
	}
	x.self = mk("param", "swarm", types.NewPointer(x.swarm))
	c.Rule("valid", "A peer is accepted exactly if it is not this node and its addresses are empty or host:port of an IP, and not own ones.", 3)
	c.Rule("table", "AddPeer keeps a valid peer seen now, if there is room; RemovePeer removes one.", 4)
	c.Rule("received", "Of the peers received the valid ones are kept or updated, no more than there is room for; the changes are told.", 6)
	c.Rule("expired", "A peer not seen for the period is removed and told, no other one.", 2)
	c.Rule("exchange", "What is sent to a peer are up to PeersPerResponse peers which did not fail, not itself.", 4)
	c.Rule("request", "Peers are requested from every connection of the feed; only an answer for the feed is accepted.", 4)
	c.Rule("connect", "Connections are made to peers not connected, no more than needed; failures are counted, success resets them.", 6)
	c.Rule("life", "A swarm works until it is left; a feed has one swarm.", 5)
	c.Rule("config", "A value of the configuration that is zero becomes the default one.", 7)
	// functions, by what they do
	for _, f := range c.P.Funcs {
		if f.Pkg == nil || c.P.rel(f.Pkg) != "node" || f.Parent() != nil {
			continue
		}
		if f.Signature.Recv() == nil {
			if callsNamed(f, "net.ParseIP") && f.Signature.Params().Len() == 1 && isStr(f.Signature.Params().At(0).Type()) {
				x.valid = f
			}
			continue
		}
		if typeName(f.Signature.Recv().Type()) != "Swarm" {
			continue
		}
		isInfos := func(t types.Type) bool {
			s, ok := t.Underlying().(*types.Slice)
			return ok && typeName(s.Elem()) == "PeerInfo"
		}
		ps, rs := f.Signature.Params(), f.Signature.Results()
		switch {
		case ps.Len() == 1 && isInfos(ps.At(0).Type()) && rs.Len() == 0:
			x.received = f
		case rs.Len() == 1 && isInfos(rs.At(0).Type()):
			x.exchange = f
		}
		sub := c.P.Method("node", "Conn", "Subscribe")
		if ps.Len() == 1 && isNum(ps.At(0).Type()) && reaches(f, func(g *ssa.Function) bool { return callsDirectly(g, sub) }) {
			x.connect = f
		}
		if rs.Len() == 2 && isNum(rs.At(0).Type()) && reaches(f, func(g *ssa.Function) bool { return reads(g, x.conf, "MaxConns") }) {
			x.need = f
		}
	}
	// work of the goroutine: the outermost function but the one that does all
	outer := func(is func(*ssa.Function) bool) (out *ssa.Function) {
		for _, f := range c.P.Funcs {
			if f.Pkg == nil || c.P.rel(f.Pkg) != "node" || f.Parent() != nil || f.Signature.Recv() == nil || typeName(f.Signature.Recv().Type()) != "Swarm" {
				continue
			}
			if f.Signature.Params().Len() > 0 || f.Signature.Results().Len() > 0 || !reaches(f, is) || reaches(f, func(g *ssa.Function) bool { return g == x.connect }) {
				continue
			}
			if out == nil || calls(f, out) {
				out = f
			}
		}
		return
	}
	x.expire = outer(func(g *ssa.Function) bool { return reads(g, x.conf, "PeerExpirePeriod") })
	x.request = outer(func(g *ssa.Function) bool { return makes(g, "RqPeers") })
	for n, f := range map[string]*ssa.Function{"validation of an address": x.valid, "receiver of peers": x.received, "exchange": x.exchange, "expiration": x.expire, "need of connections": x.need, "making connections": x.connect, "request": x.request} {
		if f == nil {
			c.Anchor("node.Swarm: " + n)
			return
		}
	}
	x.addresses()
	x.table()
	x.receives()
	x.expires()
	x.exchanges()
	x.requests()
	x.connects()
	x.life()
}

// reads: does the function read the field
func reads(f *ssa.Function, n *types.Named, field string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.FieldAddr:
				if types.Identical(deref(in.X.Type()), n) && fieldName(in) == field {
					return true
				}
			case *ssa.Field:
				if types.Identical(in.X.Type(), n) && n.Underlying().(*types.Struct).Field(in.Field).Name() == field {
					return true
				}
			}
		}
	}
	return false
}

// callsDirectly: has the function a call of another one
func callsDirectly(f, g *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && g != nil && ci.Common().StaticCallee() == g {
				return true
			}
		}
	}
	return false
}

// reaches: is there such a function among the one and those of its package it runs
func reaches(f *ssa.Function, is func(*ssa.Function) bool) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(h *ssa.Function) bool
	walk = func(h *ssa.Function) bool {
		if seen[h] || h.Pkg != f.Pkg && h.Parent() == nil {
			return false
		}
		seen[h] = true
		if is(h) {
			return true
		}
		for _, a := range h.AnonFuncs {
			if walk(a) {
				return true
			}
		}
		for _, y := range staticEdges(h) {
			if walk(y) {
				return true
			}
		}
		return false
	}
	return walk(f)
}

// makes: does the function make a value of the type
func makes(f *ssa.Function, typ string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && typeName(deref(a.Type())) == typ {
				return true
			}
		}
	}
	return false
}

func callsNamed(f *ssa.Function, name string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && g.String() == name {
					return true
				}
			}
		}
	}
	return false
}

// args: parameters, with the swarm first
func (x *swarmCtx) args(w *Walker, f *ssa.Function) []*Term {
	ps := w.Params(f)
	for i := range ps {
		if types.Identical(f.Params[i].Type(), x.self.T) {
			ps[i] = x.self
		}
	}
	return ps
}

// walker of a swarm: connections, transports and addresses are not followed
func (x *swarmCtx) walker() *Walker {
	w := x.c.P.NewWalker()
	w.SamePkg, w.Split, w.AnyRound, w.Loops, w.MaxStates = true, true, true, 1, 4000
	w.OnEvent = anyEvent
	w.Opaque = func(g *ssa.Function) bool {
		if describes(g) || g == x.valid {
			return true
		}
		if r := g.Signature.Recv(); r != nil {
			switch typeName(r.Type()) {
			case "nodeFeeds", "TCP", "UDP", "Conn":
				return true
			case "Node":
				rs := g.Signature.Results()
				return rs.Len() > 0 && typeName(rs.At(0).Type()) != "PubKey"
			}
		}
		return false
	}
	return w
}

// fl: a field of a peer, or of a peer of a message
func fl(v *Term, name string) *Term {
	if v == nil || v.T == nil {
		return tNone
	}
	i, t := fieldIndex(v.T, name)
	if i < 0 {
		return tNone
	}
	return canon(project(v, name, i, t))
}

// canon: timeless, with a field of what is loaded being the loaded field
func canon(t *Term) *Term {
	return rewrite(timeless(t), func(t *Term) *Term {
		if t.Op == "fld" && t.Args[0].Op == "load" {
			return mk("load", "", t.T, mk("field", t.Aux, types.NewPointer(t.T), t.Args[0].Args[0]))
		}
		return t
	})
}

// equal: what is known of a value being equal to one
func equal(st *State, a *Term, is func(*Term) bool) tri {
	out := unknown
	for _, f := range factsOf(st) {
		if f.t.Op != "eq" {
			continue
		}
		p, q := canon(f.t.Args[0]), canon(f.t.Args[1])
		if (p == a && is(q) || q == a && is(p)) && out != yes {
			out = triOf(f.v)
		}
	}
	return out
}

// has: is the peer known to be in the table
func (x *swarmCtx) has(st *State, key *Term) tri {
	out := unknown
	for _, f := range factsOf(st) {
		if f.t.Op == "present" && x.isPeers(timeless(f.t.Args[0].Args[0])) && canon(f.t.Args[0].Args[1]) == key {
			out = triOf(f.v)
		}
	}
	return out
}

// keyOf: a peer of the table has the key it is kept under
func (x *swarmCtx) keyOf(t *Term) *Term {
	t = canon(t)
	if t.Op == "load" && t.Args[0].Op == "field" && t.Args[0].Aux == "PubKey" && t.Args[0].Args[0].Op == "mapelem" && x.isPeers(t.Args[0].Args[0].Args[0]) {
		return canon(t.Args[0].Args[0].Args[1])
	}
	return t
}

func isT(x *Term) func(*Term) bool { return func(t *Term) bool { return t == x } }

func isTimeNow(t *Term) bool {
	return t != nil && (t.Op == "call" || t.Op == "pure") && strings.HasPrefix(t.Aux, "time.Now#")
}

func (x *swarmCtx) isPeers(m *Term) bool { return isF(m, x.fPeers, x.self) }

func (x *swarmCtx) isCfg(t *Term, n string) bool {
	return t != nil && t.Op == "load" && t.Args[0].Op == "field" && t.Args[0].Aux == n && t.Args[0].Args[0].Op == "field" && t.Args[0].Args[0].Aux == x.fConf && t.Args[0].Args[0].Args[0] == x.self
}

// cfg: a value of the configuration
func (x *swarmCtx) cfg(w *Walker, n string) *Term {
	i, _ := fieldIndex(x.swarm, x.fConf)
	j, t := fieldIndex(x.conf, n)
	if j < 0 {
		x.c.Anchor("node.SwarmConfig." + n)
		return tNone
	}
	return w.load(newState(), w.fieldAddr(w.fieldAddr(x.self, x.swarm, i), x.conf, j), t)
}

func (x *swarmCtx) lenPeers(w *Walker) *Term {
	i, t := fieldIndex(x.swarm, x.fPeers)
	st := newState()
	return w.lenOf(st, w.load(st, w.fieldAddr(x.self, x.swarm, i), t), t)
}

// own: an own address of the transport
func own(t *Term, tr string) bool {
	return t.Op == "call" && strings.Contains(t.Aux, "node."+tr+").Address#")
}

// validity of a peer, as far as known
func (x *swarmCtx) validity(st *State, pub, tcp, udp *Term) tri {
	zero := equal(st, pub, func(t *Term) bool { return t.Op == "zero" })
	self := equal(st, pub, func(t *Term) bool {
		return t.Op == "load" && t.Args[0].Op == "field" && typeName(deref(t.Args[0].Args[0].T)) == "Node"
	})
	addr := func(a *Term, tr string) tri {
		if equal(st, a, isT(tStr(""))) == yes {
			return yes
		}
		o := equal(st, a, func(t *Term) bool { return own(t, tr) })
		v := unknown
		for _, ev := range st.Events() {
			if ev.Kind == "call" && ev.Static == x.valid && canon(ev.Args[0]) == a {
				v = st.IsNil(ev.Res)
			}
		}
		return tAnd(triNot(o), v)
	}
	return tAnd(tAnd(triNot(zero), triNot(self)), tAnd(addr(tcp, "TCP"), addr(udp, "UDP")))
}

// back: what a variable of the loop becomes in the next round
func backOf(w *Walker, head *ssa.BasicBlock, ph *ssa.Phi, env map[ssa.Value]*Term) *Term {
	return (&reachRun{w: w}).backVal(head, ph, env)
}

func (x *swarmCtx) at(f *ssa.Function) string { return x.c.P.pos(f.Pos()) }

// addresses are host:port of an IP
func (x *swarmCtx) addresses() {
	c := x.c
	w := x.walker()
	w.Opaque = func(g *ssa.Function) bool { return false }
	seen := map[tri]bool{}
	ps := w.Params(x.valid)
	for _, e := range w.Run(x.valid, ps, nil, nil) {
		dbg("valid", x.valid.Name(), e)
		if e.Panic {
			c.Bad("valid", "address: panic", x.at(x.valid), "%s panics", fname(x.valid))
			continue
		}
		ip, port := unknown, unknown
		wrong := false
		for _, ev := range e.St.Events() {
			if ev.Kind != "call" {
				continue
			}
			switch ev.Name {
			case "net.ParseIP":
				ip = triNot(e.St.IsNil(ev.Res))
				wrong = wrong || !ev.Args[0].contains(ps[0])
			case "strconv.ParseUint", "strconv.ParseInt", "strconv.Atoi":
				port = e.St.IsNil(lastRes(ev))
				wrong = wrong || !ev.Args[0].contains(ps[0]) || ev.Name != "strconv.ParseUint" || ev.Args[1] != tInt(10) || ev.Args[2] != tInt(16)
			}
		}
		parts := unknown // are there two parts
		for _, t := range factTerms(e.St) {
			t.any(func(y *Term) bool {
				if y.Op == "len" && strings.Contains(y.Args[0].Aux, "strings.Split#") {
					if v := e.St.Truth(tEq(y, tInt(2))); v != unknown {
						parts = v
					}
				}
				return false
			})
		}
		c.Expect(!wrong, "valid", "address: parts", x.at(x.valid), "what is checked is no part of the address, or the port is not 0 to 65535")
		switch r := e.St.IsNil(e.Rets[0]); r {
		case yes:
			c.Expect(ip == yes && port == yes && parts == yes, "valid", "address: accepted", x.at(x.valid), "two parts: %v, an IP: %v, a port: %v, and the address is accepted", parts, ip, port)
			seen[yes] = true
		case no:
			c.Expect(ip == no || port == no || parts == no, "valid", "address: rejected", x.at(x.valid), "nothing is wrong with the address, and it is rejected")
			seen[no] = true
		default:
			c.Bad("valid", "address: outcome", x.at(x.valid), "the result is %s", e.Rets[0])
		}
	}
	c.Done(w)
	c.Expect(seen[yes] && seen[no], "valid", "address: cases", x.at(x.valid), "addresses are not told apart")
}

// table: API of the table of peers
func (x *swarmCtx) table() {
	c := x.c
	add, rm, all := c.P.Method("node", "Swarm", "AddPeer"), c.P.Method("node", "Swarm", "RemovePeer"), c.P.Method("node", "Swarm", "Peers")
	if add == nil || rm == nil || all == nil {
		c.Anchor("node.Swarm: AddPeer, RemovePeer, Peers")
		return
	}
	w := x.walker()
	ps := x.args(w, add)
	seen := map[string]bool{}
	for _, e := range w.Run(add, ps, nil, nil) {
		dbg("exit", add.Name(), e)
		at := x.at(add)
		if e.Panic {
			c.Bad("table", "AddPeer: panic", at, "AddPeer panics")
			continue
		}
		var ups []*Event
		for _, ev := range e.St.Events() {
			if (ev.Kind == "mapupdate" || ev.Kind == "mapdelete") && x.isPeers(ev.Addr) {
				ups = append(ups, ev)
			}
		}
		valid := x.validity(e.St, ps[1], ps[3], ps[4])
		room := triNot(truthLoose(e.St, tLt(x.lenPeers(w), x.cfg(w, "MaxPeers"), false)))
		room = triNot(room)
		if e.St.IsNil(e.Rets[0]) == yes {
			c.Expect(valid == yes, "valid", "AddPeer", at, "a peer is kept, and it is not known to be valid")
			c.Expect(room == yes, "table", "AddPeer: room", at, "a peer is kept, and there is no room")
			if !c.Expect(len(ups) == 1 && ups[0].Kind == "mapupdate" && ups[0].Args[0] == ps[1], "table", "AddPeer: keeps", at, "the peer is not kept under its key") {
				continue
			}
			v := ups[0].Val
			ok := fl(v, "PubKey") == ps[1] && fl(v, "Metadata") == ps[2] && fl(v, "TCPAddr") == ps[3] && fl(v, "UDPAddr") == ps[4] && isTimeNow(fl(v, "LastSeen")) && fl(v, "RetryTimes") == tInt(0)
			c.Expect(ok, "table", "AddPeer: peer", at, "the peer kept is %s", v)
			seen["added"] = true
			continue
		}
		c.Expect(len(ups) == 0, "table", "AddPeer: fails", at, "AddPeer fails, and %v", ups)
		c.Expect(valid == no || room == no, "table", "AddPeer: rejected", at, "nothing is wrong with the peer, and it is rejected")
		if valid == no {
			seen["invalid"] = true
		} else {
			seen["full"] = true
		}
	}
	c.Done(w)
	for _, n := range []string{"added", "invalid", "full"} {
		c.Expect(seen[n], "table", "AddPeer: case "+n, x.at(add), "there is no way for the case %q", n)
	}
	x.listed(all)
	// remove
	w = x.walker()
	ps = x.args(w, rm)
	seen = map[string]bool{}
	for _, e := range w.Run(rm, ps, nil, nil) {
		at := x.at(rm)
		var dels []*Event
		for _, ev := range e.St.Events() {
			if (ev.Kind == "mapupdate" || ev.Kind == "mapdelete") && x.isPeers(ev.Addr) {
				dels = append(dels, ev)
			}
		}
		has := x.has(e.St, ps[1])
		switch {
		case e.Panic:
			c.Bad("table", "RemovePeer: panic", at, "RemovePeer panics")
		case has == yes:
			c.Expect(len(dels) == 1 && dels[0].Kind == "mapdelete" && dels[0].Args[0] == ps[1] && e.St.IsNil(e.Rets[0]) == yes, "table", "RemovePeer: removes", at, "the peer is not removed, or an error is returned: %s", e.Rets[0])
		case has == no:
			c.Expect(len(dels) == 0 && e.St.IsNil(e.Rets[0]) == no, "table", "RemovePeer: missing", at, "there is no such peer, the error is %s", e.Rets[0])
		default:
			c.Bad("table", "RemovePeer: looks", at, "the peer is not looked for")
		}
	}
	c.Done(w)
}

// lists: all peers of the table
func (x *swarmCtx) listed(f *ssa.Function) {
	w := x.walker()
	p := x.newPicks(w, "table", x.at(f))
	p.fit = func(*State, *Term) tri { return yes }
	w.OnBack = p.back
	for _, e := range w.Run(f, x.args(w, f), nil, nil) {
		p.whole(e.St)
		from, why := (*Term)(nil), "panic"
		if !e.Panic {
			from, why = p.picked(e.St, e.Rets[0])
		}
		x.c.Expect(from != nil, "table", "Peers", p.at, "not the peers of the table are returned: %s", why)
	}
	x.c.Done(w)
	x.c.Expect(p.seen["fit"], "table", "Peers: some", p.at, "no peers are returned")
}

// receives: peers received
func (x *swarmCtx) receives() {
	c, f := x.c, x.received
	w := x.walker()
	ps := x.args(w, f)
	var list *Term
	for _, p := range ps {
		if p != x.self {
			list = p
		}
	}
	at := x.at(f)
	seen := map[string]bool{}
	w.Entry = map[*Term][]*Term{}
	good, wrong := map[*Term]bool{}, map[*Term]bool{} // lists of valid peers
	var uses []*Term
	infos := func(t types.Type) bool { return typeName(t) == "PeerInfo" }
	max, n := x.cfg(w, "MaxPeers"), x.lenPeers(w)
	w.OnBack = func(g *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
		dbg("back "+g.Name(), f.Name(), &Exit{St: st, Fn: g})
		var up *Event
		var told []*Event
		var apps []*Event
		for _, ev := range st.Events() {
			switch {
			case (ev.Kind == "mapupdate" || ev.Kind == "mapdelete") && x.isPeers(ev.Addr):
				if !c.Expect(up == nil && ev.Kind == "mapupdate", "received", "one", at, "%s", ev) {
					return
				}
				up = ev
			case ev.Kind == "go":
				told = append(told, ev)
			case ev.Kind == "append" && ev.Res.T != nil && infos(elemType(ev.Res.T)):
				apps = append(apps, ev)
			}
		}
		valid := func(el *Term) tri { return x.validity(st, fl(el, "PubKey"), fl(el, "TCPAddr"), fl(el, "UDPAddr")) }
		appended := map[*Term]*Term{}
		for _, a := range apps {
			if a.Args[1].Op != "snap" || len(a.Args[1].Args) != 1 {
				c.Bad("received", "valid ones", at, "%s", a)
				return
			}
			el := a.Args[1].Args[0]
			c.Expect(valid(el) == yes, "received", "valid ones", at, "a peer is passed on, and it is not known to be valid")
			appended[a.Res] = a.Args[0]
			seen["valid"] = true
		}
		for _, ph := range headPhis(head) {
			q := env[ph]
			sl, ok := ph.Type().Underlying().(*types.Slice)
			if !ok || q == nil || !infos(sl.Elem()) {
				continue
			}
			b := backOf(w, head, ph, env)
			good[q] = true
			if b != q && appended[b] != q {
				wrong[q] = true
			}
		}
		if up == nil && len(apps) == 0 {
			// a peer that is not taken
			var el *Term
			for _, t := range factTerms(st) {
				t.any(func(y *Term) bool {
					if y.Op == "load" && y.Args[0].Op == "idx" && y.Args[0].Args[0] == list {
						el = y
					}
					if y.Op == "field" && y.Args[0].Op == "idx" && y.Args[0].Args[0] == list {
						el = mk("load", "", infosElem(list), y.Args[0])
					}
					return false
				})
			}
			if el == nil {
				c.Bad("received", "looked at", at, "a peer received is not looked at")
				return
			}
			v := x.invalid(st, el)
			full := truthLoose(st, tLt(n, max, false)) == no && truthLoose(st, tLt(tInt(0), max, false)) == yes
			c.Expect(v || full, "received", "dropped", at, "a valid peer is dropped")
			seen["invalid"] = true
			return
		}
		if up == nil {
			return
		}
		// which peer
		key := x.keyOf(up.Args[0])
		var el *Term
		key.any(func(y *Term) bool {
			if y.Op == "field" && y.Args[0].Op == "idx" && infos(deref(y.Args[0].T)) {
				el = mk("load", "", deref(y.Args[0].T), y.Args[0])
			}
			return false
		})
		for _, t := range append(factTerms(st), key, up.Val) {
			t.any(func(y *Term) bool {
				if y.Op == "load" && y.Args[0].Op == "idx" && y.T != nil && infos(y.T) && (el == nil || el.Args[0] == y.Args[0]) {
					el = y
				}
				return false
			})
		}
		if el == nil {
			c.Bad("received", "which", at, "the peer kept is none received: %s", up)
			return
		}
		src := el.Args[0].Args[0]
		for src.Op == "slice" {
			src = src.Args[0]
		}
		if src == list {
			c.Expect(valid(el) == yes, "received", "valid ones", at, "a peer is kept, and it is not known to be valid")
			seen["valid"] = true
		} else {
			uses = append(uses, src)
		}
		nomax := truthLoose(st, tLt(tInt(0), max, false)) == no
		lt := func(a, b *Term) tri { return truthLoose(st, tLt(a, b, false)) }
		has := x.has(st, key)
		if has != yes {
			ln := w.lenOf(st, src, src.T)
			room := lt(el.Args[0].Args[1], ln) == yes && lt(tSub(max, n), ln) == no || lt(tAdd(n, el.Args[0].Args[1]), max) == yes || src == list && lt(n, max) == yes
			c.Expect(nomax || room, "received", "room", at, "a peer is kept, and there is no room for it: %s", el)
		}
		v := up.Val
		c.Expect(key == fl(el, "PubKey"), "received", "key", at, "the peer is kept under %s", key)
		cb := func(n string) tri { return x.told(told, n, v) }
		can := func(n string) tri { return canTell(st, n) }
		is := func(n string) bool { return fl(v, n) == fl(el, n) }
		switch has {
		case no:
			ok := is("PubKey") && is("Metadata") && is("TCPAddr") && is("UDPAddr") && fl(v, "RetryTimes") == tInt(0)
			c.Expect(ok, "received", "new: peer", at, "a new peer is kept as %s", v)
			c.Expect(isTimeNow(fl(v, "LastSeen")), "received", "new: seen", at, "a new peer is kept as seen at %s: it expires at once", fl(v, "LastSeen"))
			a := can("OnPeerAdded")
			c.Expect(a != unknown && a == cb("OnPeerAdded") && len(told) <= 1, "received", "new: told", at, "a new peer is not told, or something else is: %v %v %v", a, cb("OnPeerAdded"), told)
			seen["new"] = true
		case yes:
			var old *Term
			for _, t := range factTerms(st) {
				t.any(func(y *Term) bool {
					if m, k := elemOf(y); m != nil && x.isPeers(m) && canon(k) == key {
						old = y
					}
					return false
				})
			}
			if old == nil {
				v.any(func(y *Term) bool {
					if m, k := elemOf(y); m != nil && x.isPeers(m) && canon(k) == key {
						old = y
					}
					return false
				})
			}
			if !c.Expect(old != nil, "received", "known: peer", at, "a known peer is not looked at") {
				return
			}
			c.Expect((fl(v, "PubKey") == fl(old, "PubKey") || is("PubKey")) && fl(v, "RetryTimes") == fl(old, "RetryTimes") && isTimeNow(fl(v, "LastSeen")), "received", "known: seen", at, "a known peer is kept as %s", v)
			diff := no
			for _, n := range []string{"Metadata", "TCPAddr", "UDPAddr"} {
				d := triNot(equal(st, fl(old, n), isT(fl(el, n))))
				if n == "Metadata" {
					d = unknown
					for _, t := range factTerms(st) {
						t.any(func(y *Term) bool {
							if y.Op == "pure" && (strings.HasPrefix(y.Aux, "bytes.Compare#") || strings.HasPrefix(y.Aux, "bytes.Equal#")) {
								p, q := canon(y.Args[0]), canon(y.Args[1])
								if p == fl(old, n) && q == fl(el, n) || q == fl(old, n) && p == fl(el, n) {
									if strings.HasPrefix(y.Aux, "bytes.Equal#") {
										d = triNot(st.Truth(y))
									} else {
										d = triNot(st.Truth(tEq(y, tInt(0))))
									}
								}
							}
							return false
						})
					}
				}
				if d == yes || d == unknown && diff == no {
					diff = d
				}
			}
			switch diff {
			case yes:
				c.Expect(is("Metadata") && is("TCPAddr") && is("UDPAddr"), "received", "known: updated", at, "a changed peer is kept as %s", v)
				a := can("OnPeerUpdated")
				c.Expect(a != unknown && a == cb("OnPeerUpdated") && len(told) <= 1, "received", "known: told", at, "a changed peer is not told, or something else is: %v %v %v", a, cb("OnPeerUpdated"), told)
				seen["changed"] = true
			case no:
				c.Expect(len(told) == 0, "received", "known: told", at, "an unchanged peer is told")
				seen["same"] = true
			default:
				c.Bad("received", "known: compared", at, "a known peer is not compared with what was received: %s %s", fl(old, "TCPAddr"), st.facts)
			}
		default:
			c.Bad("received", "known", at, "the peer is not looked for")
		}
	}
	for _, e := range w.Run(f, ps, nil, nil) {
		dbg("exit", f.Name(), e)
		if e.Panic {
			c.Bad("received", "panic", at, "%s panics", fname(f))
			continue
		}
		early := true
		for _, t := range factTerms(e.St) {
			early = early && !t.any(func(y *Term) bool { return strings.HasPrefix(y.Op, "phi") })
		}
		if early {
			full := truthLoose(e.St, tLt(n, max, false)) == no && truthLoose(e.St, tLt(tInt(0), max, false)) == yes
			c.Expect(full, "received", "full", at, "the peers received are not looked at, and there is room")
			seen["full"] = true
		}
	}
	c.Done(w)
	for _, u := range uses {
		ok := good[u] && !wrong[u]
		for _, e := range w.Entry[u] {
			ok = ok && (e == tNil || e.Op == "makeslice" && e.Args[0] == tInt(0))
		}
		c.Expect(ok && len(w.Entry[u]) > 0, "received", "only valid ones", at, "peers kept come from %s, which has others than the valid ones %v %v %v", u, good[u], wrong[u], w.Entry[u])
	}
	for _, n := range []string{"valid", "invalid", "new", "changed", "same", "full"} {
		c.Expect(seen[n], "received", "case "+n, at, "there is no way for the case %q", n)
	}
}

// told: was the callback started with the peer
func (x *swarmCtx) told(evs []*Event, n string, v *Term) tri {
	out := no
	for _, ev := range evs {
		if ev.Kind != "go" || len(ev.Args) == 0 {
			continue
		}
		if ad := ev.Args[0]; ad.Op == "load" && ad.Args[0].Op == "field" && ad.Args[0].Aux == n {
			out = triOf(len(ev.Args) == 3 && isF(ev.Args[1], x.fFeed, x.self) && samePeer(ev.Args[2], v))
		}
	}
	return out
}

// canTell: is there a callback
func canTell(st *State, n string) tri {
	for _, fc := range factsOf(st) {
		if fc.t.Op == "eq" && (fc.t.Args[0] == tNil || fc.t.Args[1] == tNil) && fc.t.any(func(y *Term) bool { return y.Op == "field" && y.Aux == n }) {
			return triOf(!fc.v)
		}
	}
	return unknown
}

func infosElem(list *Term) types.Type { return elemType(list.T) }

func samePeer(a, b *Term) bool {
	if a == b {
		return true
	}
	for _, n := range []string{"PubKey", "Metadata", "TCPAddr", "UDPAddr", "RetryTimes"} {
		if fl(a, n) != fl(b, n) {
			return false
		}
	}
	return true
}

// invalid: the peer is known not to be valid
func (x *swarmCtx) invalid(st *State, el *Term) bool {
	f := func(n string) *Term {
		// loaded as a part, or as a field of the whole
		v := fl(el, n)
		return v
	}
	return x.validity(st, f("PubKey"), f("TCPAddr"), f("UDPAddr")) == no
}

// expires: a round over the table removes an old peer
func (x *swarmCtx) expires() {
	c, f := x.c, x.expire
	w := x.walker()
	w.Opaque = x.only(w.Opaque, f)
	at := x.at(f)
	seen := map[string]bool{}
	round := false
	w.OnBack = func(g *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
		dbg("back "+g.Name(), f.Name(), &Exit{St: st, Fn: g})
		var key, p *Term
		var dels, told []*Event
		for _, ev := range st.Events() {
			switch {
			case ev.Kind == "range" && x.isPeers(ev.Addr):
				key, p = ev.Args[0], ev.Args[1]
			case (ev.Kind == "mapupdate" || ev.Kind == "mapdelete") && x.isPeers(ev.Addr):
				dels = append(dels, ev)
			case ev.Kind == "go":
				told = append(told, ev)
			}
		}
		if key == nil {
			return
		}
		round = true
		old := unknown
		for _, t := range factTerms(st) {
			t.any(func(y *Term) bool {
				if y.Op != "pure" && y.Op != "call" {
					return false
				}
				sub := strings.HasPrefix(y.Aux, "(time.Time).Sub#") && isTimeNow(y.Args[0]) && canon(y.Args[1]) == fl(p, "LastSeen")
				since := strings.HasPrefix(y.Aux, "time.Since#") && canon(y.Args[0]) == fl(p, "LastSeen")
				if sub || since {
					per := x.cfg(w, "PeerExpirePeriod")
					gt, lt := truthLoose(st, tLt(per, y, false)), truthLoose(st, tLt(y, per, false))
					switch {
					case gt == yes || lt == no:
						old = yes
					case lt == yes || gt == no:
						old = no
					}
				}
				return false
			})
		}
		switch old {
		case yes:
			ok := len(dels) == 1 && dels[0].Kind == "mapdelete" && (dels[0].Args[0] == key || x.keyOf(dels[0].Args[0]) == canon(key))
			c.Expect(ok, "expired", "removed", at, "an expired peer is not removed, or something else is: %v", dels)
			a := canTell(st, "OnPeerRemoved")
			c.Expect(a != unknown && a == x.told(told, "OnPeerRemoved", p) && len(told) <= 1, "expired", "told", at, "a peer removed is not told, or something else is: %v", told)
			seen["old"] = true
		case no:
			c.Expect(len(dels) == 0 && len(told) == 0, "expired", "kept", at, "a peer seen within the period is removed: %v", dels)
			seen["kept"] = true
		default:
			c.Bad("expired", "compared", at, "the time a peer was seen is not compared with the period")
		}
	}
	for _, e := range w.Run(f, x.args(w, f), nil, nil) {
		dbg("exit", f.Name(), e)
		end := 0
		for _, ev := range e.St.Events() {
			if ev.Kind == "rangeend" && x.isPeers(ev.Addr) {
				end++
			}
		}
		c.Expect(!e.Panic && end == 1, "expired", "all", at, "not all peers are looked at")
	}
	c.Done(w)
	c.Expect(round && seen["old"] && seen["kept"], "expired", "cases", at, "peers are not told apart")
}

// only: other functions of the swarm that do things of their own
func (x *swarmCtx) only(other func(*ssa.Function) bool, f *ssa.Function) func(*ssa.Function) bool {
	return func(g *ssa.Function) bool {
		for _, h := range []*ssa.Function{x.received, x.exchange, x.expire, x.need, x.connect, x.request} {
			if g == h && g != f {
				return true
			}
		}
		return other(g)
	}
}

// taken: a list is taken from another one by a loop
type taken struct{ src, idx, size *Term }

// picks: some of the peers of the table, fit for something
type picks struct {
	x    *swarmCtx
	w    *Walker
	rule string
	at   string
	// fit: is the peer, as far as known
	fit func(st *State, p *Term) tri
	// cases: facts a filter looks at
	cases []func(st *State, p *Term) tri
	lists map[*Term]bool    // variables holding fit peers
	bad   map[*Term]bool    // others
	loops map[*Term]*Term   // loops over filters, by the variable
	from  map[*Term][]taken // lists of picks: what they are taken from
	made  map[*Term]*State  // filters: the state they are made in
	seen  map[string]bool
	done  map[*ssa.Function]bool
}

func (x *swarmCtx) newPicks(w *Walker, rule, at string) *picks {
	w.Entry = map[*Term][]*Term{}
	return &picks{x: x, w: w, rule: rule, at: at, lists: map[*Term]bool{}, bad: map[*Term]bool{}, loops: map[*Term]*Term{}, from: map[*Term][]taken{}, made: map[*Term]*State{}, seen: map[string]bool{}, done: map[*ssa.Function]bool{}}
}

// filters: functions kept in an array, which take a peer
func (p *picks) filters(st *State, arr *Term) (out []*Term) {
	for i := 0; i < 64; i++ {
		v := st.mem[idxTerm(arr, tInt(int64(i)), p.filterType(arr))]
		if v == nil {
			break
		}
		out = append(out, v)
	}
	return
}

func (p *picks) filterType(arr *Term) types.Type { return elemType(arr.T) }

// event: a filter is kept
func (p *picks) event(st *State, ev *Event) {
	if ev.Kind == "store" && ev.Addr.Op == "idx" && ev.Val != nil && closureFn(p.x.c.P, ev.Val) != nil {
		s := st.clone()
		s.trace = nil
		p.made[ev.Val] = s
	}
}

// passed: the peer passed the filters
func (p *picks) passed(st *State, el *Term) bool {
	if p.fit(st, el) == yes {
		return true
	}
	for _, ev := range st.Events() {
		if ev.Kind == "call" && ev.Name == "dyn" && st.Truth(ev.Res) != yes {
			return false
		}
	}
	for q, arr := range p.loops {
		fs := p.filters(st, arr)
		if len(fs) == 0 || p.bad[q] || truthLoose(st, tLt(tAdd(q, tInt(1)), tInt(int64(len(fs))), false)) != no {
			continue
		}
		if p.exact(st, fs) {
			return true
		}
	}
	return false
}

// exact: filters pass exactly those that are fit
func (p *picks) exact(st *State, fs []*Term) bool {
	n := len(p.cases)
	for m := 0; m < 1<<n; m++ {
		pass := yes
		for _, f := range fs {
			pass = tAnd(pass, p.filter(st, f, m))
		}
		if pass != triOf(m == 1<<n-1) {
			return false
		}
	}
	return true
}

// filter: what a filter says in a case
func (p *picks) filter(st *State, cl *Term, m int) tri {
	fn := closureFn(p.x.c.P, cl)
	if fn == nil || len(fn.Params) != 1 {
		return unknown
	}
	w := p.x.walker()
	arg := mk("param", "peer", fn.Params[0].Type())
	if s := p.made[cl]; s != nil {
		st = s
	}
	out, first := unknown, true
	for _, e := range w.Run(fn, []*Term{arg}, cl.Args, st.clone()) {
		dbg("filter", fn.Name(), e)
		if e.Panic || len(e.Rets) != 1 {
			return unknown
		}
		for _, v := range []bool{true, false} {
			s := e.St.clone()
			if !s.assume(e.Rets[0], v) {
				continue
			}
			fits := true
			for i, cs := range p.cases {
				r := cs(s, arg)
				fits = fits && (r == unknown || r == triOf(m>>i&1 == 1))
			}
			if !fits {
				continue
			}
			if first {
				out, first = triOf(v), false
			} else if out != triOf(v) {
				out = unknown
				first = false
				return unknown
			}
		}
	}
	p.x.c.Done(w)
	return out
}

// count: the variable counting rounds, if the index is it
func (p *picks) count(head *ssa.BasicBlock, env map[ssa.Value]*Term, idx *Term) *Term {
	for _, ph := range headPhis(head) {
		q := env[ph]
		if q == nil || !isNum(ph.Type()) {
			continue
		}
		b := backOf(p.w, head, ph, env)
		if b == nil || timeless(tSub(b, q)) != tInt(1) || len(p.w.Entry[q]) == 0 {
			continue
		}
		ok := true
		for _, e := range p.w.Entry[q] {
			ok = ok && timeless(tSub(tAdd(e, idx), q)) == tInt(0)
		}
		if ok {
			return q
		}
	}
	return nil
}

// elemFrom: the list and the index of an element that was taken whole, or by fields
func (p *picks) elemFrom(v *Term) (list, idx *Term) {
	whole := func(t *Term) *Term {
		t = canon(t)
		if t.Op == "load" && t.Args[0].Op == "idx" {
			return t.Args[0]
		}
		return nil
	}
	if a := whole(v); a != nil {
		return a.Args[0], a.Args[1]
	}
	var at *Term
	if v.Op == "struct" {
		for _, n := range []string{"PubKey", "Metadata", "TCPAddr", "UDPAddr"} {
			f := fl(v, n)
			if f.Op != "load" || f.Args[0].Op != "field" || f.Args[0].Aux != n || f.Args[0].Args[0].Op != "idx" || at != nil && at != f.Args[0].Args[0] {
				return nil, nil
			}
			at = f.Args[0].Args[0]
		}
		return at.Args[0], at.Args[1]
	}
	return nil, nil
}

func isPeerish(t types.Type) bool {
	if t == nil {
		return false
	}
	n := typeName(t)
	return n == "Peer" || n == "PeerInfo"
}

// back: a round of a loop; was it one about picks
func (p *picks) back(g *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
	x, c, w := p.x, p.x.c, p.w
	var ranged *Term
	var app *Event
	var dyn *Event
	for _, ev := range st.Events() {
		switch {
		case ev.Kind == "range" && x.isPeers(ev.Addr):
			ranged = ev.Args[1]
		case ev.Kind == "append" && ev.Res.T != nil && isPeerish(elemType(ev.Res.T)):
			app = ev
		case ev.Kind == "call" && ev.Name == "dyn":
			dyn = ev
		}
	}
	// a filter is asked
	if dyn != nil && ranged != nil && app == nil {
		fn := dyn.Addr
		if fn == nil && len(dyn.Args) > 0 {
			fn = dyn.Args[0]
		}
		asked := len(dyn.Args) > 0 && timeless(dyn.Args[len(dyn.Args)-1]) == timeless(ranged)
		c.Expect(asked, p.rule, "filter: peer", p.at, "a filter is asked for another peer")
		if fn == nil || fn.Op != "load" || fn.Args[0].Op != "idx" {
			c.Bad(p.rule, "filter", p.at, "an unknown filter is asked: %s", fn)
			return
		}
		arr, idx := fn.Args[0].Args[0], fn.Args[0].Args[1]
		if q := p.count(head, env, idx); q != nil {
			p.loops[q] = arr
			if st.Truth(dyn.Res) != yes {
				p.bad[q] = true
			}
		} else {
			c.Expect(st.Truth(dyn.Res) == no, p.rule, "filter: passed", p.at, "a peer is passed over, and the filter passed it")
		}
		return
	}
	if app != nil && ranged != nil {
		ok := app.Args[1].Op == "snap" && len(app.Args[1].Args) == 1 && timeless(app.Args[1].Args[0]) == timeless(ranged)
		ok = ok && p.passed(st, ranged)
		c.Expect(ok, p.rule, "fit", p.at, "a peer is picked that may not be fit: %s", app)
		var q *Term
		for _, ph := range headPhis(head) {
			if env[ph] != nil && backOf(w, head, ph, env) == app.Res && app.Args[0] == env[ph] {
				q = env[ph]
			}
		}
		if !c.Expect(q != nil, p.rule, "kept", p.at, "a peer picked is lost: %s", app) {
			return
		}
		p.lists[q] = true
		p.bad[q] = p.bad[q] || !ok
		for _, e := range w.Entry[q] {
			p.bad[q] = p.bad[q] || !(e == tNil || e.Op == "makeslice" && e.Args[0] == tInt(0))
		}
		p.seen["fit"] = true
		return
	}
	if ranged != nil {
		c.Expect(p.fit(st, ranged) == no, p.rule, "passed over", p.at, "a fit peer is passed over")
		return
	}
	// a list of picks is made
	var dst, src, idx, el, whole *Term
	var parts map[string]*Term
	add := func(d, i, v *Term) {
		l, j := p.elemFrom(v)
		if l == nil {
			c.Bad(p.rule, "picks", p.at, "what is picked is %s", v)
			return
		}
		if dst != nil {
			c.Bad(p.rule, "picks: one", p.at, "more than one is taken in a round")
		}
		dst, idx, src, el = d, i, l, j
	}
	for _, ev := range st.Events() {
		if ev.Kind == "store" && ev.Addr.Op == "idx" && isPeerish(deref(ev.Addr.T)) && rootTerm(ev.Addr).Op == "makeslice" {
			add(ev.Addr.Args[0], ev.Addr.Args[1], ev.Val)
		}
		if a := ev.Addr; ev.Kind == "store" && a.Op == "field" && a.Args[0].Op == "idx" && isPeerish(deref(a.Args[0].T)) && rootTerm(a).Op == "makeslice" {
			if parts == nil {
				parts, whole = map[string]*Term{}, a.Args[0]
			}
			if whole != a.Args[0] {
				c.Bad(p.rule, "picks: one", p.at, "more than one is taken in a round")
			}
			parts[a.Aux] = ev.Val
		}
	}
	if parts != nil {
		t := deref(whole.T)
		u := t.Underlying().(*types.Struct)
		args := make([]*Term, u.NumFields())
		for i := range args {
			if args[i] = parts[u.Field(i).Name()]; args[i] == nil {
				args[i] = zeroTerm(u.Field(i).Type())
			}
		}
		add(whole.Args[0], whole.Args[1], mk("struct", tstr(t), t, args...))
	}
	if app != nil && app.Args[1].Op == "snap" && len(app.Args[1].Args) == 1 {
		for _, ph := range headPhis(head) {
			if env[ph] != nil && backOf(w, head, ph, env) == app.Res && app.Args[0] == env[ph] {
				add(env[ph], nil, app.Args[1].Args[0])
			}
		}
	}
	if dst == nil {
		return
	}
	// each one once
	j := el
	if el.Op == "load" && el.Args[0].Op == "idx" && strings.Contains(el.Args[0].Args[0].Aux, "math/rand.Perm#") {
		n := el.Args[0].Args[0].Args[0]
		if timeless(n) != timeless(w.lenOf(st, src, src.T)) {
			c.Bad(p.rule, "picks: random", p.at, "picks are of another list")
			return
		}
		j = el.Args[0].Args[1]
	}
	if idx == nil {
		idx = j
	}
	q := p.count(head, env, idx)
	if !c.Expect(q != nil && timeless(idx) == timeless(j), p.rule, "picks: each", p.at, "element %s of the picks is %s", idx, el) {
		return
	}
	size := w.lenOf(st, dst, dst.T)
	if dst.Op != "makeslice" {
		size = w.lenOf(st, src, src.T)
	}
	p.from[dst] = append(p.from[dst], taken{src, idx, size})
	p.seen["picks"] = true
}

// picked: a list holds picks only, and is complete
func (p *picks) picked(st *State, list *Term) (*Term, string) {
	for i := 0; i < 8; i++ {
		if p.lists[list] && !p.bad[list] {
			return list, ""
		}
		if len(p.from[list]) == 0 {
			return nil, "what is picked comes from " + list.String()
		}
		t := p.by(st, list)
		if t == nil {
			return nil, "not all is taken from the list"
		}
		list = t.src
	}
	return nil, "unknown"
}

// by: the loop the list was made by
func (p *picks) by(st *State, list *Term) *taken {
	for _, t := range p.from[list] {
		if truthLoose(st, tLt(t.idx, t.size, false)) == no {
			return &t
		}
	}
	return nil
}

func (x *swarmCtx) exchanges() {
	c, f := x.c, x.exchange
	at := x.at(f)
	w := x.walker()
	w.Opaque = x.only(w.Opaque, f)
	ps := x.args(w, f)
	var pk *Term
	for _, p := range ps {
		if p != x.self {
			pk = p
		}
	}
	if pk == nil {
		c.Anchor("the peer asking for peers")
		return
	}
	p := x.newPicks(w, "exchange", at)
	retry := func(st *State, el *Term) tri {
		z := unknown
		for _, t := range factTerms(st) {
			t.any(func(y *Term) bool {
				if canon(y) == fl(el, "RetryTimes") {
					if v := st.Truth(tEq(y, tInt(0))); v != unknown {
						z = v
					}
				}
				return false
			})
		}
		return z
	}
	other := func(st *State, el *Term) tri { return triNot(equal(st, fl(el, "PubKey"), isT(pk))) }
	p.cases = append(p.cases, retry, other)
	p.fit = func(st *State, el *Term) tri { return tAnd(retry(st, el), other(st, el)) }
	w.OnBack = func(g *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
		dbg("back "+g.Name(), f.Name(), &Exit{St: st, Fn: g})
		p.back(g, head, st, env)
	}
	w.OnEvent = func(st *State, ev *Event) bool { p.event(st, ev); return true }
	es := w.Run(f, ps, nil, nil)
	max := x.cfg(w, "PeersPerResponse")
	n := 0
	for _, e := range es {
		dbg("exit", f.Name(), e)
		if e.Panic {
			c.Bad("exchange", "panic", at, "%s panics", fname(f))
			continue
		}
		p.whole(e.St)
		r := e.Rets[0]
		from, why := p.picked(e.St, r)
		if !c.Expect(from != nil, "exchange", "picks", at, "%s", why) {
			continue
		}
		t := p.by(e.St, r)
		few := t != nil && truthLoose(e.St, tLt(max, t.size, false)) == no
		c.Expect(few, "exchange", "number", at, "more than PeersPerResponse peers may be sent")
		n++
	}
	c.Done(w)
	c.Expect(p.seen["fit"] && p.seen["picks"] && n > 0, "exchange", "cases", at, "there is no way for peers to be sent")
}

// spawn: a goroutine started with an element of a list
type spawn struct {
	ev *Event
	st *State
}

// run of a goroutine
func (x *swarmCtx) body(w *Walker, sp spawn) []*Exit {
	fn := sp.ev.Static
	if fn == nil {
		return nil
	}
	var free []*Term
	if cl := sp.ev.Addr; cl != nil && cl.Op == "closure" {
		free = cl.Args
	}
	st := sp.st.clone()
	st.trace = nil
	return w.Run(fn, sp.ev.Args, free, st)
}

// element of the spawn: the list and the index
func spawnElem(ev *Event) (list, idx *Term) {
	for _, a := range ev.Args {
		if t := canon(a); t.Op == "load" && t.Args[0].Op == "idx" {
			return t.Args[0].Args[0], t.Args[0].Args[1]
		}
	}
	return nil, nil
}

func isCallOf(t *Term, name string) bool {
	return t != nil && (t.Op == "call" || t.Op == "pure") && strings.Contains(t.Aux, name+"#")
}

func (x *swarmCtx) isFeed(t *Term) bool { return isF(timeless(t), x.fFeed, x.self) }

func (x *swarmCtx) requests() {
	c, f := x.c, x.request
	at := x.at(f)
	w := x.walker()
	w.Entry = map[*Term][]*Term{}
	w.Opaque = x.only(w.Opaque, f)
	p := x.newPicks(w, "request", at)
	var sps []spawn
	w.OnEvent = func(st *State, ev *Event) bool {
		if ev.Kind == "go" {
			sps = append(sps, spawn{ev, st.clone()})
		}
		return true
	}
	var bound [2]*Term
	w.OnBack = func(g *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
		dbg("back "+g.Name(), f.Name(), &Exit{St: st, Fn: g})
		n := 0
		for _, ev := range st.Events() {
			if ev.Kind != "go" {
				continue
			}
			n++
			list, idx := spawnElem(ev)
			ok := list != nil && isCallOf(list, "ConnectionsOfFeed") && x.isFeed(list.Args[len(list.Args)-1])
			if c.Expect(ok && p.count(head, env, idx) != nil, "request", "connections", at, "peers are requested from other connections than those of the feed: %s", ev) {
				bound = [2]*Term{idx, w.lenOf(st, list, list.T)}
			}
		}
		c.Expect(n == 1, "request", "each", at, "peers are requested %d times from a connection", n)
	}
	for _, e := range w.Run(f, x.args(w, f), nil, nil) {
		c.Expect(!e.Panic && bound[0] != nil && truthLoose(e.St, tLt(bound[0], bound[1], false)) == no, "request", "all", at, "peers are not requested from all connections")
	}
	c.Done(w)
	if !c.Expect(len(sps) > 0, "request", "goroutine", at, "peers are not requested in the background") {
		return
	}
	seen := map[string]bool{}
	for _, sp := range sps[:1] {
		w := x.walker()
		w.Opaque = x.only(x.walker().Opaque, nil)
		var asked *State
		send := x.sender()
		if send == nil {
			c.Anchor("node.Conn: the method sending a request")
			return
		}
		w.OnEvent = func(st *State, ev *Event) bool {
			if ev.Kind == "call" && ev.Static == send {
				asked = st.clone()
			}
			return true
		}
		for _, e := range x.body(w, sp) {
			dbg("exit", f.Name()+"$", e)
			if e.Panic {
				c.Bad("request", "panic", at, "requesting panics")
				continue
			}
			var req, rcv []*Event
			for _, ev := range e.St.Events() {
				switch {
				case ev.Kind == "call" && ev.Static == send:
					req = append(req, ev)
				case ev.Kind == "call" && ev.Static == x.received:
					rcv = append(rcv, ev)
				}
			}
			if !c.Expect(len(req) == 1, "request", "sent", at, "%d requests are sent", len(req)) {
				continue
			}
			r := req[0]
			list, _ := spawnElem(sp.ev)
			m := unwrapIface(r.Args[len(r.Args)-1])
			var feed *Term
			if n := c.P.Named("node/msg", "RqPeers"); n != nil && asked != nil && m != nil && m.T != nil && types.Identical(deref(m.T), n) {
				i, t := fieldIndex(n, "Feed")
				feed = w.load(asked, w.fieldAddr(m, n, i), t)
			}
			c.Expect(list != nil && feed != nil && x.isFeed(feed), "request", "message", at, "what is requested is %s", m)
			conn := false
			for _, a := range sp.ev.Args {
				conn = conn || a == r.Args[0]
			}
			c.Expect(conn, "request", "connection", at, "the request is sent over %s", r.Args[0])
			resp, err := r.Res.Args[0], lastRes(r)
			okErr := e.St.IsNil(err)
			is, same := unknown, unknown
			for _, fc := range factsOf(e.St) {
				if fc.t.Op == "typeis" && timeless(fc.t.Args[0]) == timeless(resp) && strings.HasSuffix(fc.t.Aux, "msg.Peers") {
					is = triOf(fc.v)
				}
				if fc.t.Op == "eq" {
					for i := 0; i < 2; i++ {
						if t := fc.t.Args[i]; x.isFeed(fc.t.Args[1-i]) && t.Op == "load" && t.Args[0].Op == "field" && t.Args[0].Aux == "Feed" {
							same = triOf(fc.v)
						}
					}
				}
			}
			good := tAnd(okErr, tAnd(is, same))
			switch {
			case len(rcv) == 0:
				c.Expect(good == no || okErr == no || is == no || same == no, "request", "answer: dropped", at, "an answer for the feed is dropped")
				seen["dropped"] = true
			case good != yes:
				c.Bad("request", "answer: checked", at, "peers are taken from an answer: no error: %v, an answer with peers: %v, for the feed: %v", okErr, is, same)
			default:
				l := rcv[0].Args[len(rcv[0].Args)-1]
				ok := len(rcv) == 1 && rcv[0].Args[0] == x.self && l.Op == "load" && l.Args[0].Op == "field" && l.Args[0].Aux == "List" && l.any(func(t *Term) bool { return t == resp })
				c.Expect(ok, "request", "answer: peers", at, "the peers taken are %s", l)
				seen["taken"] = true
			}
		}
		c.Done(w)
	}
	c.Expect(seen["taken"] && seen["dropped"], "request", "cases", at, "answers are not told apart")
}

// sender of requests: a method of a connection which takes a message and
// returns one and an error
func (x *swarmCtx) sender() *ssa.Function {
	for _, f := range x.c.P.Funcs {
		if f.Pkg == nil || x.c.P.rel(f.Pkg) != "node" || f.Parent() != nil || f.Signature.Recv() == nil || typeName(f.Signature.Recv().Type()) != "Conn" {
			continue
		}
		ps, rs := f.Signature.Params(), f.Signature.Results()
		if ps.Len() == 1 && typeName(ps.At(0).Type()) == "Msg" && rs.Len() == 2 && typeName(rs.At(0).Type()) == "Msg" {
			return f
		}
	}
	return nil
}

// isCap: the capacity for connections left
func (x *swarmCtx) connects() {
	c := x.c
	// how many are needed
	f := x.need
	at := x.at(f)
	w := x.walker()
	w.Opaque = x.only(w.Opaque, f)
	seen := map[string]bool{}
	for _, e := range w.Run(f, x.args(w, f), nil, nil) {
		dbg("exit", f.Name(), e)
		if e.Panic || len(e.Rets) != 2 {
			c.Bad("connect", "need: panic", at, "%s panics", fname(f))
			continue
		}
		var caps []*Term
		var have *Term
		for _, ev := range e.St.Events() {
			if ev.Kind != "call" || ev.Static == nil {
				continue
			}
			r := ev.Static.Signature.Recv()
			switch {
			case strings.HasSuffix(ev.Name, "Node).ConnectionsOfFeed"):
				if c.Expect(x.isFeed(ev.Args[1]), "connect", "need: feed", at, "connections are those of %s", ev.Args[1]) {
					have = w.lenOf(e.St, ev.Res, ev.Res.T)
				}
			case r != nil && typeName(r.Type()) == "Node" && ev.Static.Signature.Results().Len() == 1 && isNum(ev.Static.Signature.Results().At(0).Type()):
				caps = append(caps, ev.Res)
			}
		}
		if !c.Expect(len(caps) >= 1 && have != nil, "connect", "need: asked", at, "the connections there are and the capacity left are not asked for") {
			continue
		}
		max := x.cfg(w, "MaxConns")
		none := no
		var conns *Term
		for _, cp := range caps {
			switch e.St.Truth(tEq(cp, tInt(0))) {
			case yes:
				none = yes
			case unknown:
				if none == no {
					none = unknown
				}
			}
			if isCallOf(cp, x.capName("MaxConnections")) {
				conns = cp
			}
		}
		if truthLoose(e.St, tLt(have, max, false)) == no {
			none = yes
		} else if none == no && truthLoose(e.St, tLt(have, max, false)) != yes {
			none = unknown
		}
		switch e.St.Truth(e.Rets[1]) {
		case no:
			c.Expect(none == yes, "connect", "need: none", at, "there is capacity, and connections are needed, and no one is made")
			seen["none"] = true
		case yes:
			c.Expect(none == no && len(caps) == 2 && conns != nil, "connect", "need: some", at, "connections are made, and there may be no capacity or no need")
			n := e.Rets[0]
			le := func(a, b *Term) bool { return a == b || truthLoose(e.St, tLt(b, a, false)) == no }
			ok := conns != nil && le(n, conns) && le(n, tSub(max, have)) && (timeless(n) == timeless(conns) || timeless(n) == timeless(tSub(max, have)))
			c.Expect(ok, "connect", "need: number", at, "the number of connections to make is %s", n)
			seen["some"] = true
		default:
			c.Bad("connect", "need: outcome", at, "the result is %s", e.Rets[1])
		}
	}
	c.Done(w)
	c.Expect(seen["none"] && seen["some"], "connect", "need: cases", at, "needs are not told apart")
	x.capacity("MaxConnections", func(w *Walker, st *State, self *Term) *Term { return x.counted(w, st, self, true) })
	x.capacity("MaxPendingConnections", func(w *Walker, st *State, self *Term) *Term { return x.counted(w, st, self, false) })
	x.dials()
}

// capFn: the method of a node telling the capacity
func (x *swarmCtx) capFn(field string) *ssa.Function {
	conf := x.c.P.Named("node", "Config")
	if conf == nil {
		return nil
	}
	for _, f := range x.c.P.Funcs {
		if f.Pkg == nil || x.c.P.rel(f.Pkg) != "node" || f.Parent() != nil || f.Signature.Recv() == nil || typeName(f.Signature.Recv().Type()) != "Node" || !reads(f, conf, field) {
			continue
		}
		rs := f.Signature.Results()
		if f.Signature.Params().Len() == 0 && rs.Len() == 1 && isNum(rs.At(0).Type()) {
			return f
		}
	}
	return nil
}

func (x *swarmCtx) capName(field string) string {
	if f := x.capFn(field); f != nil {
		return f.Name()
	}
	return "?"
}

// counted: how many connections there are
func (x *swarmCtx) counted(w *Walker, st *State, self *Term, all bool) *Term {
	node := x.c.P.Named("node", "Node")
	sum := tInt(0)
	s := node.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		m, ok := s.Field(i).Type().Underlying().(*types.Map)
		if !ok || typeName(deref(m.Elem())) != "Conn" {
			continue
		}
		n := s.Field(i).Name()
		if n == "pendConns" || all && n == "addrToConn" {
			sum = tAdd(sum, w.lenOf(newState(), w.load(newState(), w.fieldAddr(self, node, i), s.Field(i).Type()), s.Field(i).Type()))
		}
	}
	return sum
}

// capacity: what is left of a limit
func (x *swarmCtx) capacity(field string, count func(w *Walker, st *State, self *Term) *Term) {
	c := x.c
	f := x.capFn(field)
	if f == nil {
		c.Anchor("node.Node: the capacity left of " + field)
		return
	}
	at := x.at(f)
	w := x.walker()
	ps := w.Params(f)
	seen := map[string]bool{}
	for _, e := range w.Run(f, ps, nil, nil) {
		dbg("exit", f.Name(), e)
		if e.Panic {
			c.Bad("connect", "capacity: panic", at, "%s panics", fname(f))
			continue
		}
		var lim *Term
		for _, t := range append(factTerms(e.St), e.Rets[0]) {
			t.any(func(y *Term) bool {
				if y.Op == "load" && y.Args[0].Op == "field" && y.Args[0].Aux == field {
					lim = timeless(y)
				}
				return false
			})
		}
		if lim == nil {
			c.Bad("connect", "capacity: limit", at, "the limit %s is not looked at", field)
			continue
		}
		n := count(w, e.St, ps[0])
		r := e.Rets[0]
		switch truthLoose(e.St, tLt(tInt(0), lim, false)) {
		case no:
			c.Expect(r.Op == "int" && r.C >= 1<<30, "connect", "capacity: unlimited", at, "there is no limit, and the capacity is %s", r)
			seen["unlimited"] = true
		case yes:
			switch truthLoose(e.St, tLt(n, lim, false)) {
			case yes:
				c.Expect(timeless(r) == timeless(tSub(lim, n)), "connect", "capacity: left", at, "the capacity left of %s is %s", field, r)
				seen["left"] = true
			case no:
				c.Expect(r == tInt(0), "connect", "capacity: none", at, "no capacity of %s is left, and it is %s", field, r)
				seen["none"] = true
			default:
				c.Bad("connect", "capacity: compared", at, "the connections are not compared with the limit %s", field)
			}
		default:
			c.Bad("connect", "capacity: limited", at, "it is not clear whether there is a limit %s", field)
		}
	}
	c.Done(w)
	c.Expect(seen["unlimited"] && seen["left"] && seen["none"], "connect", "capacity: cases", at, "limits are not told apart")
}

// dials: connections are made to peers not connected
func (x *swarmCtx) dials() {
	c, f := x.c, x.connect
	at := x.at(f)
	w := x.walker()
	w.Opaque = x.only(w.Opaque, f)
	ps := x.args(w, f)
	var num *Term
	for _, q := range ps {
		if q != x.self {
			num = q
		}
	}
	if num == nil {
		c.Anchor("the number of connections to make")
		return
	}
	p := x.newPicks(w, "connect", at)
	filled := map[*Term][2]*Term{} // maps of connected peers, and the loop that fills them
	apart := func(st *State, el *Term) tri {
		out := unknown
		for _, fc := range factsOf(st) {
			if fc.t.Op == "present" && canon(fc.t.Args[0].Args[1]) == fl(el, "PubKey") {
				b, ok := filled[fc.t.Args[0].Args[0]]
				if ok && truthLoose(st, tLt(b[0], b[1], false)) == no {
					out = triOf(!fc.v)
				}
			}
		}
		return out
	}
	p.cases = append(p.cases, apart)
	p.fit = apart
	var sps []spawn
	w.OnEvent = func(st *State, ev *Event) bool {
		if ev.Kind == "go" {
			sps = append(sps, spawn{ev, st.clone()})
		}
		p.event(st, ev)
		return true
	}
	bounds := map[*Term][2]*Term{}
	w.OnBack = func(g *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
		dbg("back "+g.Name(), f.Name(), &Exit{St: st, Fn: g})
		n := 0
		for _, ev := range st.Events() {
			switch {
			case ev.Kind == "mapupdate" && ev.Addr.Op == "makemap":
				k := ev.Args[0]
				if !isCallOf(k, "Conn).PeerID") {
					c.Bad("connect", "connected", at, "%s", ev)
					return
				}
				t := canon(k.Args[0])
				ok := t.Op == "load" && t.Args[0].Op == "idx" && isCallOf(t.Args[0].Args[0], "Node).Connections") && p.count(head, env, t.Args[0].Args[1]) != nil
				if c.Expect(ok, "connect", "connected: all", at, "not the peers of all connections are known") {
					l := t.Args[0].Args[0]
					filled[ev.Addr] = [2]*Term{t.Args[0].Args[1], w.lenOf(st, l, l.T)}
				}
				return
			case ev.Kind == "go":
				n++
				list, idx := spawnElem(ev)
				if list == nil {
					c.Bad("connect", "peer", at, "%s", ev)
					return
				}
				from, why := p.picked(st, list)
				if c.Expect(from != nil, "connect", "picks", at, "%s", why) && c.Expect(p.count(head, env, idx) != nil, "connect", "each", at, "not each peer picked is connected to") {
					bounds[list] = [2]*Term{idx, w.lenOf(st, list, list.T)}
					c.Expect(truthLoose(st, tLt(num, p.size(w, st, list), false)) == no, "connect", "number", at, "more connections are made than needed")
				}
			}
		}
		if n == 0 {
			for _, ph := range headPhis(head) {
				q := env[ph]
				for _, t := range factTerms(st) {
					t.any(func(y *Term) bool {
						if y.Op == "len" && isCallOf(y.Args[0], "Node).Connections") && q != nil && isNum(ph.Type()) && truthLoose(st, tLt(tAdd(q, tInt(1)), y, false)) == yes {
							c.Bad("connect", "connected: skipped", at, "a connection is passed over")
						}
						return false
					})
				}
			}
			p.back(g, head, st, env)
		}
	}
	n := 0
	for _, e := range w.Run(f, ps, nil, nil) {
		dbg("exit", f.Name(), e)
		all := false
		for _, b := range bounds {
			all = all || truthLoose(e.St, tLt(b[0], b[1], false)) == no
		}
		p.whole(e.St)
		c.Expect(!e.Panic && all, "connect", "all", at, "not all peers picked are connected to")
		n++
	}
	c.Done(w)
	if !c.Expect(len(sps) > 0 && n > 0 && p.seen["fit"] && p.seen["picks"], "connect", "cases", at, "no peers are connected to") {
		return
	}
	// a goroutine
	sp := sps[0]
	var peer *Term
	for _, a := range sp.ev.Args {
		if t := canon(a); t.Op == "load" && t.Args[0].Op == "idx" {
			peer = a
		}
	}
	w = x.walker()
	seen := map[string]bool{}
	for _, e := range x.body(w, sp) {
		dbg("exit", f.Name()+"$", e)
		if e.Panic {
			c.Bad("connect", "panic", at, "connecting panics")
			continue
		}
		var con, sub *Event
		var ups []*Event
		odd := ""
		for _, ev := range e.St.Events() {
			switch {
			case ev.Kind == "call" && strings.HasSuffix(ev.Name, "TCP).Connect"):
				if con != nil {
					odd = "a peer is connected to twice"
				}
				con = ev
			case ev.Kind == "call" && ev.Static == c.P.Method("node", "Conn", "Subscribe"):
				if sub != nil {
					odd = "a feed is subscribed to twice"
				}
				sub = ev
			case (ev.Kind == "mapupdate" || ev.Kind == "mapdelete") && x.isPeers(ev.Addr):
				ups = append(ups, ev)
			}
		}
		if !c.Expect(odd == "" && con != nil && canon(con.Args[1]) == fl(peer, "TCPAddr"), "connect", "address", at, "what is connected to is not the address of the peer %s", odd) {
			continue
		}
		ok := e.St.IsNil(lastRes(con))
		switch ok {
		case yes:
			good := sub != nil && sub.Args[0] == con.Res.Args[0] && x.isFeed(sub.Args[1])
			if !c.Expect(good, "connect", "subscribes", at, "there is a connection, and the feed is not subscribed to") {
				continue
			}
			ok = e.St.IsNil(lastRes(sub))
		case no:
			c.Expect(sub == nil, "connect", "no connection", at, "there is no connection, and it is used")
		}
		if !c.Expect(ok != unknown, "connect", "outcome", at, "it is not looked at whether the peer was connected to") {
			continue
		}
		key := fl(peer, "PubKey")
		switch x.has(e.St, key) {
		case no:
			c.Expect(len(ups) == 0, "connect", "gone", at, "the peer is no longer known, and it is kept")
			seen["gone"] = true
		case yes:
			if !c.Expect(len(ups) == 1 && ups[0].Kind == "mapupdate" && canon(ups[0].Args[0]) == key, "connect", "counted", at, "the outcome of connecting to a peer is not kept") {
				continue
			}
			v := ups[0].Val
			old := mk("load", "", peer.T, mk("mapelem", "", types.NewPointer(peer.T), timeless(ups[0].Addr), key))
			same := true
			var was *Term
			for _, n := range []string{"PubKey", "Metadata", "TCPAddr", "UDPAddr", "LastSeen"} {
				t := fl(v, n)
				y := t.Op == "load" && t.Args[0].Op == "field" && t.Args[0].Args[0].Op == "mapelem" && x.isPeers(t.Args[0].Args[0].Args[0]) && canon(t.Args[0].Args[0].Args[1]) == key && t.Args[0].Aux == n
				same = same && y
				if y {
					was = t.Args[0].Args[0]
				}
			}
			c.Expect(same, "connect", "counted: peer", at, "the peer is kept as %s", v)
			_ = old
			r := fl(v, "RetryTimes")
			switch ok {
			case yes:
				c.Expect(r == tInt(0), "connect", "reset", at, "the peer was connected to, and its failures become %s", r)
				seen["ok"] = true
			case no:
				d := tSub(r, tInt(1))
				y := was != nil && d.Op == "load" && d.Args[0].Op == "field" && d.Args[0].Aux == "RetryTimes" && d.Args[0].Args[0] == was
				c.Expect(y, "connect", "failed", at, "the peer was not connected to, and its failures become %s", r)
				seen["failed"] = true
			}
		default:
			c.Bad("connect", "known", at, "the peer is not looked for")
		}
	}
	c.Done(w)
	c.Expect(seen["gone"] && seen["ok"] && seen["failed"], "connect", "outcomes", at, "outcomes of connecting are not told apart")
}

// whole: all peers of the table were looked at
func (p *picks) whole(st *State) {
	n, left := 0, false
	for _, ev := range st.Events() {
		switch {
		case ev.Kind == "range" && p.x.isPeers(ev.Addr):
			left = true
		case ev.Kind == "rangeend" && p.x.isPeers(ev.Addr):
			n++
			left = false
		}
	}
	p.x.c.Expect(n == 1 && !left, p.rule, "whole table", p.at, "not all peers of the table are looked at")
}

// size of a list of picks
func (p *picks) size(w *Walker, st *State, list *Term) *Term {
	if t := p.by(st, list); t != nil {
		return t.size
	}
	return w.lenOf(st, list, list.T)
}

func (x *swarmCtx) life() {
	c := x.c
	join, leave, in := c.P.Method("node", "Node", "JoinSwarm"), c.P.Method("node", "Node", "LeaveSwarm"), c.P.Method("node", "Node", "InSwarm")
	node := c.P.Named("node", "Node")
	if join == nil || leave == nil || in == nil {
		c.Anchor("node.Node: JoinSwarm, LeaveSwarm, InSwarm")
		return
	}
	fs := fieldBy(node, isMapT(func(t types.Type) bool { return typeName(t) == "PubKey" }, func(t types.Type) bool { return typeName(deref(t)) == "Swarm" }))
	if fs == "" {
		c.Anchor("node.Node: the swarms")
		return
	}
	isSS := func(t *Term) bool { return isF(timeless(t), fs, nil) }
	hasS := func(st *State, key *Term) tri {
		out := unknown
		for _, fc := range factsOf(st) {
			if fc.t.Op == "present" && isSS(fc.t.Args[0].Args[0]) && canon(fc.t.Args[0].Args[1]) == key {
				out = triOf(fc.v)
			}
		}
		return out
	}
	isElem := func(t, key *Term) bool {
		m, k := elemOf(t)
		return m != nil && isSS(m) && canon(k) == key
	}
	// default configuration
	dflt := map[string]*Term{}
	fields := x.conf.Underlying().(*types.Struct)
	if d := c.P.Func("node", "DefaultSwarmConfig"); d != nil {
		w := x.walker()
		for _, e := range w.Run(d, nil, nil, nil) {
			for i := 0; i < fields.NumFields(); i++ {
				n := fields.Field(i).Name()
				t := fl(e.Rets[0], n)
				c.Expect(t.Op == "int" && t.C > 0, "config", "default "+n, x.at(d), "the default of %s is %s", n, t)
				dflt[n] = t
			}
		}
		c.Done(w)
	} else {
		c.Anchor("node.DefaultSwarmConfig")
		return
	}
	// join
	w := x.walker()
	ps := w.Params(join)
	at := x.at(join)
	var run *ssa.Function
	seen := map[string]bool{}
	for _, e := range w.Run(join, ps, nil, nil) {
		dbg("exit", join.Name(), e)
		var ups, gos []*Event
		for _, ev := range e.St.Events() {
			switch {
			case (ev.Kind == "mapupdate" || ev.Kind == "mapdelete") && isSS(ev.Addr):
				ups = append(ups, ev)
			case ev.Kind == "go":
				gos = append(gos, ev)
			}
		}
		if e.Panic {
			c.Bad("life", "join: panic", at, "JoinSwarm panics")
			continue
		}
		switch hasS(e.St, ps[1]) {
		case yes:
			c.Expect(len(ups) == 0 && len(gos) == 0 && isElem(e.Rets[0], ps[1]) && e.St.IsNil(e.Rets[1]) == yes, "life", "join: again", at, "a swarm joined before is not what is returned: %s", e.Rets[0])
			seen["again"] = true
		case no:
			s := e.Rets[0]
			ok := len(ups) == 1 && ups[0].Kind == "mapupdate" && ups[0].Args[0] == ps[1] && ups[0].Val == s && s.Op == "alloc" && e.St.IsNil(e.Rets[1]) == yes
			if !c.Expect(ok, "life", "join: kept", at, "the swarm joined is not kept") {
				continue
			}
			if c.Expect(len(gos) == 1 && gos[0].Static != nil && len(gos[0].Args) > 0 && gos[0].Args[0] == s, "life", "join: works", at, "the swarm joined does not work") {
				run = gos[0].Static
			}
			fld := func(n string) *Term {
				i, t := fieldIndex(x.swarm, n)
				return w.load(e.St, w.fieldAddr(s, x.swarm, i), t)
			}
			c.Expect(fld(x.fFeed) == ps[1], "life", "join: feed", at, "the feed of the swarm is %s", fld(x.fFeed))
			nf := fieldBy(x.swarm, func(t types.Type) bool { return typeName(deref(t)) == "Node" })
			c.Expect(nf != "" && fld(nf) == ps[0], "life", "join: node", at, "the node of the swarm is another one")
			c.Expect(fld(x.fPeers).Op == "makemap", "life", "join: table", at, "there is no table of peers")
			i, ct := fieldIndex(x.swarm, x.fConf)
			for j := 0; j < fields.NumFields(); j++ {
				n := fields.Field(j).Name()
				v := canon(w.load(e.St, w.fieldAddr(w.fieldAddr(s, x.swarm, i), ct, j), fields.Field(j).Type()))
				g := fl(ps[2], n)
				switch z := cfgZero(e.St, g); {
				case z == yes:
					c.Expect(v == dflt[n], "config", n+": default", at, "%s is zero, and becomes %s", n, v)
					seen[n+" zero"] = true
				case z == no:
					c.Expect(v == g, "config", n+": given", at, "%s is given, and becomes %s", n, v)
					seen[n+" given"] = true
				default:
					c.Bad("config", n+": looked at", at, "%s is not looked at", n)
				}
			}
			seen["new"] = true
		default:
			c.Bad("life", "join: known", at, "it is not looked at whether the swarm was joined")
		}
	}
	c.Done(w)
	c.Expect(seen["new"] && seen["again"], "life", "join: cases", at, "joining is not told apart from joining again")
	for j := 0; j < fields.NumFields(); j++ {
		n := fields.Field(j).Name()
		c.Expect(seen[n+" zero"] && seen[n+" given"], "config", n, at, "there is no way for %s to be given, or to be the default one", n)
	}
	if run == nil {
		c.Anchor("the goroutine of a swarm")
		return
	}
	quit, done := x.works(run)
	if quit == "" || done == "" {
		return
	}
	// leave
	w = x.walker()
	ps = w.Params(leave)
	at = x.at(leave)
	seen = map[string]bool{}
	for _, e := range w.Run(leave, ps, nil, nil) {
		dbg("exit", leave.Name(), e)
		if e.Panic {
			c.Bad("life", "leave: panic", at, "LeaveSwarm panics")
			continue
		}
		del, clos, wait := 0, 0, 0
		held, bad := 0, ""
		for _, ev := range e.St.Events() {
			isS := func(t *Term, n string) bool {
				return t != nil && t.Op == "load" && t.Args[0].Op == "field" && t.Args[0].Aux == n && isElem(t.Args[0].Args[0], ps[1])
			}
			switch {
			case ev.Kind == "mapdelete" && isSS(ev.Addr) && ev.Args[0] == ps[1]:
				del++
			case (ev.Kind == "mapdelete" || ev.Kind == "mapupdate") && isSS(ev.Addr):
				bad = "another swarm is left"
			case ev.Kind == "close" && isS(ev.Addr, quit):
				clos++
			case ev.Kind == "recv" && isS(ev.Addr, done):
				wait++
				if held > 0 {
					bad = "a swarm is waited for under the lock it uses"
				}
				if clos == 0 {
					bad = "a swarm is waited for before it is told to end"
				}
			case ev.Kind == "call" && strings.HasSuffix(ev.Name, "Mutex).Lock"):
				held++
			case ev.Kind == "call" && strings.HasSuffix(ev.Name, "Mutex).Unlock"):
				held--
			}
		}
		c.Expect(bad == "", "life", "leave: order", at, "%s", bad)
		switch hasS(e.St, ps[1]) {
		case yes:
			c.Expect(del == 1 && clos == 1 && wait == 1 && e.St.IsNil(e.Rets[0]) == yes, "life", "leave: ends", at, "a swarm left is not removed and ended once: removed %d, told %d, waited for %d", del, clos, wait)
			seen["left"] = true
		case no:
			c.Expect(clos == 0 && wait == 0 && e.St.IsNil(e.Rets[0]) == no, "life", "leave: none", at, "there is no swarm to leave, and the error is %s", e.Rets[0])
			seen["none"] = true
		default:
			c.Bad("life", "leave: known", at, "it is not looked at whether there is a swarm to leave")
		}
	}
	c.Done(w)
	c.Expect(seen["left"] && seen["none"], "life", "leave: cases", at, "leaving is not told apart")
	// in
	w = x.walker()
	ps = w.Params(in)
	at = x.at(in)
	for _, e := range w.Run(in, ps, nil, nil) {
		h := e.St.Truth(e.Rets[1])
		known := hasS(e.St, ps[1])
		pres := e.Rets[1].any(func(t *Term) bool {
			return t.Op == "present" && isSS(t.Args[0].Args[0]) && canon(t.Args[0].Args[1]) == ps[1]
		})
		ok := pres || h != unknown && h == known
		c.Expect(!e.Panic && ok && (h == no || isElem(e.Rets[0], ps[1])), "life", "in", at, "InSwarm returns %v", e.Rets)
	}
	c.Done(w)
	x.answers()
}

// cfgZero: is a value of the configuration known to be zero
func cfgZero(st *State, g *Term) tri {
	out := unknown
	for _, t := range factTerms(st) {
		t.any(func(y *Term) bool {
			if canon(y) == g {
				if v := st.Truth(tEq(y, tInt(0))); v != unknown {
					out = v
				}
			}
			return false
		})
	}
	if v := st.Truth(tEq(g, tInt(0))); v != unknown {
		out = v
	}
	return out
}

// works: the goroutine of a swarm
func (x *swarmCtx) works(run *ssa.Function) (quit, done string) {
	c := x.c
	at := x.at(run)
	w := x.walker()
	w.Opaque = x.only(w.Opaque, run)
	seen := map[string]bool{}
	ticks, quits := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	n, max := x.lenPeers(w), x.cfg(w, "MaxPeers")
	ps := x.args(w, run)
	own := func(t *Term) string {
		if t != nil && t.Op == "load" && t.Args[0].Op == "field" && t.Args[0].Args[0] == x.self {
			return t.Args[0].Aux
		}
		return ""
	}
	w.OnBack = func(g *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
		dbg("back "+g.Name(), run.Name(), &Exit{St: st, Fn: g})
		kind := ""
		did := map[*ssa.Function]*Event{}
		for _, ev := range st.Events() {
			switch {
			case ev.Kind == "recv":
				if q := own(ev.Addr); q != "" {
					c.Bad("life", "quit", at, "the goroutine goes on after %s", q)
					return
				}
				if isCallOf(ev.Addr, "time.Tick") || ev.Addr.Op == "call" && strings.Contains(ev.Addr.Aux, "time.Tick#") {
					for _, r := range []string{"RequestPeerRate", "ClearOldPeersRate", "OutgoingConnRate"} {
						if x.isCfg(timeless(ev.Addr.Args[0]), r) {
							kind = r
							ticks[ev.Instr] = true
						}
					}
				}
			case ev.Kind == "call" && ev.Static != nil:
				if did[ev.Static] != nil && (ev.Static == x.request || ev.Static == x.expire || ev.Static == x.connect) {
					c.Bad("life", "twice", at, "%s is done twice", ev.Name)
				}
				did[ev.Static] = ev
			}
		}
		req, exp, con, need := did[x.request], did[x.expire], did[x.connect], did[x.need]
		switch kind {
		case "RequestPeerRate":
			room := truthLoose(st, tLt(n, max, false))
			ok := exp == nil && con == nil && (req != nil && room == yes || req == nil && (room == no || truthLoose(st, tLt(tInt(0), max, false)) == no))
			c.Expect(ok, "life", "requests", at, "peers are not requested exactly if there is room for them")
			if req != nil {
				seen["req"] = true
			}
		case "ClearOldPeersRate":
			c.Expect(exp != nil && req == nil && con == nil, "life", "expires", at, "peers do not expire")
			seen["exp"] = true
		case "OutgoingConnRate":
			if !c.Expect(need != nil && exp == nil && req == nil && need.Res != nil && need.Res.Op == "tuple", "life", "needs", at, "the need of connections is not looked at") {
				return
			}
			nd := st.Truth(need.Res.Args[1])
			ok := nd == no && con == nil || nd == yes && con != nil && con.Args[1] == need.Res.Args[0]
			c.Expect(ok, "life", "connects", at, "connections are not made as needed")
			if con != nil {
				seen["con"] = true
			}
		default:
			c.Bad("life", "waits", at, "the goroutine does not wait for its time")
		}
	}
	for _, e := range w.Run(run, ps, nil, nil) {
		dbg("exit", run.Name(), e)
		if e.Panic {
			c.Bad("life", "panic", at, "the goroutine panics")
			continue
		}
		q, d := "", ""
		for _, ev := range e.St.Events() {
			if ev.Kind == "recv" && own(ev.Addr) != "" {
				q = own(ev.Addr)
				quits[ev.Instr] = true
			}
			if ev.Kind == "close" && own(ev.Addr) != "" {
				d = own(ev.Addr)
			}
		}
		if c.Expect(q != "" && d != "" && q != d, "life", "ends", at, "the goroutine ends without being told, or does not tell") {
			quit, done = q, d
		}
	}
	c.Done(w)
	for i := range ticks {
		c.Expect(quits[i], "life", "told", c.P.pos(i.Pos()), "the goroutine is not told to end while it waits")
	}
	c.Expect(seen["req"] && seen["exp"] && seen["con"], "life", "cases", at, "the goroutine does not do all of its work: %v", seen)
	return
}

// answers: a peer asks for peers
func (x *swarmCtx) answers() {
	c := x.c
	var f *ssa.Function
	for _, g := range c.P.Funcs {
		if g.Pkg == nil || c.P.rel(g.Pkg) != "node" || g.Parent() != nil || g.Signature.Recv() == nil || typeName(g.Signature.Recv().Type()) != "Conn" {
			continue
		}
		rq := false
		for i := 0; i < g.Signature.Params().Len(); i++ {
			rq = rq || typeName(deref(g.Signature.Params().At(i).Type())) == "RqPeers"
		}
		if rq && calls(g, x.exchange) && (f == nil || calls(g, f)) {
			f = g
		}
	}
	if f == nil {
		c.Anchor("node.Conn: the handler of a request for peers")
		return
	}
	at := x.at(f)
	w := x.walker()
	w.Opaque = x.only(w.Opaque, f)
	ps := w.Params(f)
	states := map[*Event]*State{}
	w.OnEvent = func(st *State, ev *Event) bool { states[ev] = st.clone(); return true }
	seen := map[string]bool{}
	var rq *Term
	for _, p := range ps {
		if typeName(deref(p.T)) == "RqPeers" {
			rq = p
		}
	}
	if rq == nil {
		c.Anchor("the request for peers")
		return
	}
	isRqFeed := func(t *Term) bool { return isF(timeless(t), "Feed", rq) }
	for _, e := range w.Run(f, ps, nil, nil) {
		dbg("exit", f.Name(), e)
		var ins, exs *Event
		var sent []*Event
		for _, ev := range e.St.Events() {
			if ev.Kind != "call" || ev.Static == nil {
				continue
			}
			switch {
			case strings.HasSuffix(ev.Name, "Node).InSwarm"):
				ins = ev
			case ev.Static == x.exchange:
				exs = ev
			case len(ev.Args) > 0 && typeName(ev.Args[len(ev.Args)-1].T) != "" && (c.P.msgOf(ev.Args[len(ev.Args)-1]) == "Peers" || c.P.msgOf(ev.Args[len(ev.Args)-1]) == "Err"):
				sent = append(sent, ev)
			}
		}
		if !c.Expect(!e.Panic && ins != nil && isRqFeed(ins.Args[1]) && len(sent) == 1, "exchange", "answered", at, "a request for peers is not answered once, or the swarm is another one") {
			continue
		}
		s := sent[0]
		m := unwrapIface(s.Args[len(s.Args)-1])
		switch e.St.Truth(ins.Res.Args[1]) {
		case no:
			c.Expect(exs == nil && c.P.msgOf(m) == "Err", "exchange", "answer: no swarm", at, "there is no swarm, and the answer is %s", m)
			seen["none"] = true
		case yes:
			ok := exs != nil && exs.Args[0] == ins.Res.Args[0] && isCallOf(exs.Args[1], "Conn).PeerID") && c.P.msgOf(m) == "Peers"
			if ok {
				n := c.P.Named("node/msg", "Peers")
				get := func(name string) *Term {
					i, t := fieldIndex(n, name)
					return w.load(states[s], w.fieldAddr(m, n, i), t)
				}
				ok = isRqFeed(get("Feed")) && get("List") == exs.Res
			}
			c.Expect(ok, "exchange", "answer: peers", at, "the answer is not of the peers for the one that asks: %s", m)
			seen["peers"] = true
		default:
			c.Bad("exchange", "answer: known", at, "it is not looked at whether there is a swarm")
		}
	}
	c.Done(w)
	c.Expect(seen["none"] && seen["peers"], "exchange", "answer: cases", at, "requests for peers are not told apart")
}

// msgOf: the type of a message
func (p *Prog) msgOf(t *Term) string {
	t = unwrapIface(t)
	if t == nil || t.T == nil {
		return ""
	}
	return typeName(deref(t.T))
}
