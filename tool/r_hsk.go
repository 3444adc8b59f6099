package main

import (
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("N06", "Connections are established by a handshake and removed when closed",
		"Handshakes of both sides, the making of a connection with all its bookkeeping, its life, transports and closing of the node are run on arbitrary states of the node and every answer of the peer; every exit is compared with the specification, rounds of loops are judged from an arbitrary state.", checkN06)
}

// hskCtx: connections from the handshake to the end
type hskCtx struct {
	*nodeCtx
	peer, incoming         string // fields of a connection
	initq, initErr         string
	pend, byAddr, byPK, id string // fields of a node
	feeds                  string
	version                *Term
	hsk, initConn, term    *ssa.Function
	decode                 *ssa.Function
	life                   *ssa.Function
}

func checkN06(c *Ctx) {
	c.Rule("perform", "An outgoing handshake sends Syn with own identifier and succeeds exactly if Ack is the response and the peer is not connected already.", 8)
	c.Rule("accept", "An incoming handshake succeeds exactly if Syn of the same version is received, the peer is not connected already, and Ack with own identifier is sent; a rejected peer is told why.", 8)
	c.Rule("timeout", "Timers of handshakes are made of the response timeout configured for the transport, unless that is zero.", 4)
	c.Rule("waits", "Handshakes wait no longer than the response timeout, or to the close of the connection.", 4)
	c.Rule("limits", "A connection is made only within the limits of connections and pending ones, and refused only outside of them.", 3)
	c.Rule("existing", "A connection to or from an address that exists already is returned, a pending one is waited for or, if incoming, refused.", 4)
	c.Rule("pending", "A new connection is complete, pending during its handshake, and no longer when that failed, with the error kept for those who wait.", 5)
	c.Rule("established", "A connection enters the tables of connections only if its peer is not connected, in one step, becomes ready once, idle in feeds and alive.", 6)
	c.Rule("life", "A connection receives until it is closed, ends if receiving or the callback fails, and then leaves feeds, tables and the transport; the last callback gets the reason.", 10)
	c.Rule("close", "Closing a connection ends it once and waits for its goroutines.", 2)
	c.Rule("transport", "A transport returns the connection it has, makes others of a new one of the factory by the handshake, keeps those alive and closes what it does not use.", 16)
	c.Rule("shutdown", "Closing the node ends every swarm, connection, transport, the feeds and the container, holding no lock it waits with, once; the error is that of the container.", 12)
	k := newHskCtx(c)
	if k == nil {
		return
	}
	k.handshakes()
	k.establish()
	k.lives()
	k.ends()
	k.shutdown()
	for _, t := range []string{"TCP", "UDP"} {
		k.transport(t)
	}
}

func newHskCtx(c *Ctx) *hskCtx {
	n := newNodeCtx(c)
	if n == nil {
		return nil
	}
	k := &hskCtx{nodeCtx: n}
	isErrF := func(t types.Type) bool { return isErrorT(t) }
	k.peer = fieldBy(k.conn, func(t types.Type) bool { return typeName(t) == "PubKey" })
	k.incoming = fieldBy(k.conn, isBool)
	k.initErr = fieldBy(k.conn, isErrF)
	s := k.conn.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); isChanT(f.Type()) && !k.closes(f.Name()) && isEmptyT(f.Type().Underlying().(*types.Chan).Elem()) {
			k.initq = f.Name()
		}
	}
	isConnMap := func(t types.Type, key func(types.Type) bool) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && types.Identical(deref(m.Elem()), k.conn) && key(m.Key())
	}
	k.byPK = fieldBy(k.node, func(t types.Type) bool {
		return isConnMap(t, func(t types.Type) bool { return typeName(t) == "PubKey" })
	})
	k.id = fieldBy(k.node, func(t types.Type) bool { return typeName(t) == "PubKey" })
	k.feeds = fieldBy(k.node, func(t types.Type) bool { return typeName(t) == "nodeFeeds" })
	k.decode = c.P.Func("node/msg", "Decode")
	if p := c.P.Types["node/msg"]; p != nil {
		if o, ok := p.Scope().Lookup("Version").(*types.Const); ok {
			if v, ok := constant.Int64Val(o.Val()); ok {
				k.version = tInt(v)
			}
		}
	}
	// the method that makes a connection of one of a factory
	for _, f := range c.P.Funcs {
		if f.Pkg == nil || c.P.rel(f.Pkg) != "node" || f.Synthetic != "" || f.Signature.Recv() == nil {
			continue
		}
		sg := f.Signature
		rcv := typeName(sg.Recv().Type())
		if rcv == "Node" && sg.Results().Len() == 2 && types.Identical(deref(sg.Results().At(0).Type()), k.conn) && isErrorT(sg.Results().At(1).Type()) && sg.Params().Len() == 2 && typeName(sg.Params().At(0).Type()) == "Connection" {
			k.initConn = f
		}
		if rcv == "Conn" && sg.Params().Len() == 0 && sg.Results().Len() == 0 && len(f.AnonFuncs) == 1 && k.closesIn(f.AnonFuncs[0]) {
			k.term = f
		}
	}
	asserts := func(n string) func(*ssa.Function) bool {
		return func(f *ssa.Function) bool {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ta, ok := in.(*ssa.TypeAssert); ok && typeName(ta.AssertedType) == n {
						return true
					}
				}
			}
			return false
		}
	}
	if k.initConn != nil {
		for _, f := range staticEdges(k.initConn) {
			if r := f.Signature.Recv(); r == nil || typeName(r.Type()) != "Conn" || f.Signature.Params().Len() != 0 {
				continue
			}
			syn, ack := false, false
			for g := range c.P.Reach(f) {
				syn, ack = syn || asserts("Syn")(g), ack || asserts("Ack")(g)
			}
			if syn && ack {
				k.hsk = f
			}
		}
	}
	for n, ok := range map[string]bool{"identifier of the peer": k.peer != "", "incoming": k.incoming != "", "ready": k.initq != "", "error of init": k.initErr != "", "connections by identifier": k.byPK != "", "own identifier": k.id != "", "feeds": k.feeds != "", "version": k.version != nil, "Decode": k.decode != nil, "making a connection": k.initConn != nil, "terminate": k.term != nil, "handshake": k.hsk != nil} {
		if !ok {
			c.Anchor("node: " + n)
			return nil
		}
	}
	return k
}

// closesIn: closes a channel of a connection
func (k *hskCtx) closesIn(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
					return true
				}
			}
		}
	}
	return false
}

func (k *hskCtx) isPK(m *Term) bool { return isF(m, k.byPK, k.n) }

// raw: a number of the frame received
func rawNum(t *Term) (raw *Term, off *Term) {
	t = unconv(t)
	if t == nil || t.Op != "endian" || !strings.HasPrefix(t.Aux, "le4/") {
		return nil, nil
	}
	a := t.Args[0]
	if a.Op == "slice" {
		return a.Args[0], tAdd(a.Args[1], t.Args[1])
	}
	return a, t.Args[1]
}

func msgIs(st *State, m *Term, typ string) tri {
	out := unknown
	for t, v := range st.facts.b {
		if t.Op == "typeis" && len(t.Args) > 0 && t.Args[0] == m {
			n := t.Aux[strings.LastIndex(t.Aux, ".")+1:]
			if n == typ {
				out = triOf(v)
			} else if v && out == unknown {
				out = no
			}
		}
	}
	return out
}

// ofMsg: a field of the message received
func ofMsg(t, m *Term, f string) bool {
	return isF(t, f, nil) && t.Args[0].Args[0].contains(m)
}

func (k *hskCtx) handshakes() {
	c := k.c
	w := k.walker()
	w.Split = true
	name := fname(k.hsk)
	seen := map[string]bool{}
	in := w.load(newState(), w.fieldAddr(k.self, k.conn, fieldNo(k.conn, k.incoming)), types.Typ[types.Bool])
	for _, e := range w.Run(k.hsk, []*Term{k.self}, nil, nil) {
		dbg("exit", name, e)
		at := c.at(e.Instr)
		st, evs := e.St, e.St.Events()
		side, rule := "", ""
		switch st.Truth(in) {
		case yes:
			side, rule = "accept", "accept"
		case no:
			side, rule = "perform", "perform"
		default:
			c.Bad("perform", "side", at, "%s does not depend on the side of the connection", name)
			continue
		}
		bad := func(what, f string, a ...interface{}) { c.Bad(rule, what, at, f, a...) }
		if e.Panic {
			bad("panic", "%s panics", name)
			continue
		}
		err := e.Rets[0]
		var dec, got *Event
		var peer *Event
		for _, ev := range evs {
			switch {
			case ev.Kind == "call" && ev.Static == k.decode:
				dec = ev
			case ev.Kind == "recv":
				got = ev
			case ev.Kind == "store" && ev.Addr.Op == "field" && ev.Addr.Aux == k.peer && ev.Addr.Args[0] == k.self:
				peer = ev
			case ev.Kind == "mapupdate" || ev.Kind == "mapdelete" || ev.Kind == "close" || ev.Kind == "go":
				bad("effects", "the handshake has the effect %s", ev)
			}
		}
		frs := k.frames(w, st)
		k.timeoutOf(w, st, evs, side, at)
		// the message and its numbers
		var m, raw *Term
		typ := map[string]tri{}
		var same tri // version is the same
		var known tri
		var seqT, rseqT *Term
		if dec != nil {
			m = dec.Res.Args[0]
			if a := dec.Args[0]; a.Op == "slice" {
				raw = a.Args[0]
			}
			if raw == nil || raw.Op != "recv" || !strings.Contains(raw.Args[0].Aux, "GetChanIn") {
				bad("source", "what is decoded is %s", dec.Args[0])
				continue
			}
			for _, t := range []string{"Syn", "Ack", "Err"} {
				typ[t] = msgIs(st, m, t)
			}
			for _, t := range factTerms(st) {
				t.any(func(x *Term) bool {
					if r, off := rawNum(x); r == raw {
						switch off {
						case tInt(0):
							seqT = x
						case tInt(4):
							rseqT = x
						}
					}
					if ofMsg(x, m, "Protocol") {
						same = st.Truth(tEq(x, k.version))
					}
					return false
				})
				if t.Op == "present" && k.isPK(t.Args[0].Args[0]) && ofMsg(t.Args[0].Args[1], m, "NodeID") {
					known = st.Truth(t)
				}
			}
		}
		decoded := dec != nil && st.IsNil(dec.Res.Args[1]) == yes
		fine := st.IsNil(err) == yes
		if !fine && st.IsNil(err) != no {
			bad("outcome", "it may fail without an error: %s", err)
			continue
		}
		c.Expect((peer != nil) == fine, rule, "identifier", at, "the identifier of the peer is stored without success of the handshake, or not")
		if peer != nil {
			c.Expect(m != nil && ofMsg(peer.Val, m, "NodeID"), rule, "identifier", at, "the identifier of the peer is %s", peer.Val)
		}
		own := func(fr frame0) bool { return isF(fr.fields["NodeID"], k.id, k.n) }
		ever := func() {
			// why did it fail
			switch {
			case dec != nil:
			case got != nil && got.Addr == k.closq:
				c.Expect(err == nodeErr("ErrClosed"), rule, "closed", at, "the error is %s", err)
				seen[side+" closed"] = true
			case got != nil && isTimerChan(got.Addr):
				c.Expect(err == nodeErr("ErrTimeout"), rule, "timeout", at, "the error is %s", err)
				seen[side+" timeout"] = true
			}
		}
		ends := got != nil && (got.Addr == k.closq || isTimerChan(got.Addr)) // ended before an answer
		if !ends && dec == nil {
			for t, v := range st.facts.b {
				ends = ends || t.Op == "recvok" && !v
			}
			for _, t := range factTerms(st) {
				t.any(func(x *Term) bool {
					if x.Op == "len" && x.Args[0].Op == "recv" && st.Truth(tLt(x, tInt(9), false)) == yes {
						ends = true
					}
					return false
				})
			}
		}
		sendFails := err == nodeErr("ErrClosed")
		if side == "perform" {
			if !c.Expect(len(frs) <= 1, rule, "one Syn", at, "%d messages are sent", len(frs)) {
				continue
			}
			if len(frs) == 1 {
				fr := frs[0]
				ok := fr.typ == "Syn" && fr.rseq == tInt(0) && k.fresh(st, fr.seq) && own(fr) && fr.fields["Protocol"] == k.version
				c.Expect(ok, rule, "Syn", c.at(fr.ev.Instr), "what is sent is %s %v (seq %s, rseq %s)", fr.typ, fr.fields, fr.seq, fr.rseq)
			} else {
				c.Expect(!fine && (sendFails || ends), rule, "Syn", at, "no Syn is sent")
			}
			resp := decoded && len(frs) == 1 && rseqT != nil && st.Truth(tEq(rseqT, frs[0].seq)) == yes
			notResp := decoded && len(frs) == 1 && rseqT != nil && st.Ne(rseqT, frs[0].seq)
			if fine {
				c.Expect(resp, rule, "response", at, "what is accepted is not the response to Syn")
				c.Expect(typ["Ack"] == yes, rule, "Ack", at, "what is accepted is not Ack")
				c.Expect(known == no, rule, "connected", at, "a peer that is connected already is accepted")
				seen["perform fine"] = true
				continue
			}
			ever()
			switch {
			case ends || sendFails && len(frs) == 0:
			case dec != nil && !decoded:
			case notResp:
			case typ["Ack"] == no:
				seen["perform rejected"] = true
			case typ["Ack"] == yes && known == yes:
				c.Expect(err == nodeErr("ErrAlreadyHaveConnection"), rule, "connected", at, "the error is %s", err)
				seen["perform connected"] = true
			default:
				bad("failure", "it fails (%s), and nothing is wrong", err)
			}
			continue
		}
		// accept
		if !c.Expect(len(frs) <= 1, rule, "one answer", at, "%d messages are sent", len(frs)) {
			continue
		}
		if len(frs) == 1 {
			fr := frs[0]
			r, off := rawNum(fr.rseq)
			ok := decoded && r == raw && off == tInt(0) && k.fresh(st, fr.seq)
			c.Expect(ok, rule, "answer", c.at(fr.ev.Instr), "the answer has seq %s and rseq %s", fr.seq, fr.rseq)
			switch fr.typ {
			case "Ack":
				c.Expect(own(fr), rule, "Ack", c.at(fr.ev.Instr), "Ack has %s", fr.fields["NodeID"])
				c.Expect(fine, rule, "Ack", c.at(fr.ev.Instr), "Ack is sent, and the handshake fails: %s", err)
			case "Err":
				c.Expect(!fine, rule, "Err", c.at(fr.ev.Instr), "a rejected peer is accepted")
				t := fr.fields["Err"]
				says := t != nil && t.any(func(x *Term) bool { return x == err })
				c.Expect(says, rule, "Err says", c.at(fr.ev.Instr), "the reason sent is %s, the error is %s", t, err)
			default:
				bad("answer", "the answer is %s", fr.typ)
			}
		}
		_ = seqT
		if fine {
			c.Expect(decoded && typ["Syn"] == yes, rule, "Syn", at, "what is accepted is not Syn")
			c.Expect(same == yes, rule, "version", at, "another version of the protocol is accepted")
			c.Expect(known == no, rule, "connected", at, "a peer that is connected already is accepted")
			ok := len(frs) == 1 && frs[0].typ == "Ack"
			c.Expect(ok, rule, "Ack", at, "Ack is not sent")
			seen["accept fine"] = true
			continue
		}
		ever()
		switch {
		case ends:
		case dec != nil && !decoded:
		case typ["Syn"] == no:
		case typ["Syn"] == yes && same == no:
			c.Expect(len(frs) == 1 || k.shut(st), rule, "version: told", at, "the peer is not told about another version")
			seen["accept version"] = true
		case typ["Syn"] == yes && known == yes:
			c.Expect(len(frs) == 1 || k.shut(st), rule, "connected: told", at, "the peer is not told that it is connected already")
			c.Expect(err == nodeErr("ErrAlreadyHaveConnection"), rule, "connected", at, "the error is %s", err)
			seen["accept connected"] = true
		case typ["Syn"] == yes && len(frs) == 0 && k.shut(st):
		default:
			bad("failure", "it fails (%s), and nothing is wrong", err)
		}
	}
	c.Done(w)
	for _, s := range []string{"perform fine", "perform rejected", "perform connected", "accept fine", "accept version", "accept connected"} {
		c.Expect(seen[s], strings.Fields(s)[0], "case "+s, c.P.pos(k.hsk.Pos()), "there is no way for the case %q", s)
	}
	for _, s := range []string{"perform closed", "perform timeout", "accept closed", "accept timeout"} {
		c.Expect(seen[s], "waits", "case "+s, c.P.pos(k.hsk.Pos()), "there is no way for the case %q", s)
	}
}

// shut: the path saw that the connection is closed
func (k *hskCtx) shut(st *State) bool { return k.closed(st) }

// maker: a walker that names remote addresses by their connection
func (k *hskCtx) maker() *Walker {
	w := k.walker()
	w.Split = true
	op := w.Opaque
	w.Opaque = func(g *ssa.Function) bool {
		if g == k.hsk || g == k.life && k.life != nil || g == k.term {
			return true
		}
		if describes(g) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() != nil && ci.Common().StaticCallee().Name() == "GetRemoteAddr" && len(g.Blocks) == 1 && len(b.Instrs) < 10 {
						return false
					}
				}
			}
		}
		return op(g)
	}
	w.OnEvent = func(st *State, ev *Event) bool {
		return ev.Kind == "store" && ev.Addr.Op == "field" || k.events(st, ev)
	}
	m := w.Model
	w.Model = func(st *State, ev *Event, args []*Term) (*Term, bool) {
		switch {
		case ev.Static == k.hsk && len(ev.Args) == 1:
			// it changes the identifier of the peer only: rules perform and accept
			i := fieldNo(k.conn, k.peer)
			t := k.conn.Underlying().(*types.Struct).Field(i).Type()
			w.store(st, w.fieldAddr(ev.Args[0], k.conn, i), mk("hskpeer", "", t, ev.Args[0]), "hsk")
			return mk("hskerr", "", ev.Sig.Results().At(0).Type(), ev.Args[0]), true
		case strings.HasSuffix(ev.Name, "factory.Connection).GetRemoteAddr"):
			return mk("pure", "remote", ev.Sig.Results().At(0).Type(), ev.Args[0]), true
		case strings.HasSuffix(ev.Name, "net.Addr.String"):
			return mk("pure", "addr", ev.Sig.Results().At(0).Type(), ev.Args[0]), true
		}
		return m(st, ev, args)
	}
	return w
}

// cfgOf: a setting of the node
func (k *hskCtx) cfgOf(t *Term, f string) bool {
	return isF(t, f, nil) && t.Args[0].Args[0].contains(k.n) || isF(t, f, nil) && t.Args[0].Args[0].Op == "load"
}

func (k *hskCtx) establish() {
	c := k.c
	f := k.initConn
	name := fname(f)
	// the life of a connection is started as a goroutine
	for _, g := range c.P.Funcs {
		if g.Signature.Recv() == nil || typeName(g.Signature.Recv().Type()) != "Conn" || g.Signature.Params().Len() != 0 || g.Signature.Results().Len() != 0 || g.Synthetic != "" {
			continue
		}
		for h := range c.P.Reach(f) {
			for _, b := range h.Blocks {
				for _, in := range b.Instrs {
					if gi, ok := in.(*ssa.Go); ok && gi.Call.StaticCallee() == g {
						k.life = g
					}
				}
			}
		}
	}
	if k.life == nil {
		c.Anchor("node: the goroutine of a connection")
		return
	}
	w := k.maker()
	ps := w.Params(f)
	n, fc, in := ps[0], ps[1], ps[2]
	ofN := func(m *Term, fl string) bool { return isF(m, fl, n) }
	connMaps := map[string]bool{}
	s := k.node.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if m, ok := s.Field(i).Type().Underlying().(*types.Map); ok && types.Identical(deref(m.Elem()), k.conn) && isStr(m.Key()) {
			connMaps[s.Field(i).Name()] = true
		}
	}
	addr := func(t *Term) bool {
		return t != nil && t.Op == "pure" && t.Aux == "addr" && t.Args[0].Op == "pure" && t.Args[0].Args[0] == fc
	}
	st0 := newState()
	st0.assume(tEq(n, tNil), false)
	st0.assume(tEq(fc, tNil), false)
	type exit struct {
		e  *Exit
		at string
	}
	var es []exit
	for _, e := range w.Run(f, ps, nil, st0) {
		dbg("exit", name, e)
		at := c.P.pos(f.Pos())
		if e.Instr != nil {
			at = c.at(e.Instr)
		}
		if e.Panic {
			// not reachable, or a panic of its own
			if len(e.St.Events()) > 0 {
				c.Bad("pending", "panic", at, "%s panics", name)
			}
			continue
		}
		es = append(es, exit{e, at})
		// tables: the pending one is updated before the handshake
		for _, ev := range e.St.Events() {
			if ev.Kind == "call" && ev.Static == k.hsk {
				break
			}
			if ev.Kind == "mapupdate" && ev.Addr.Op == "load" && ev.Addr.Args[0].Op == "field" && connMaps[ev.Addr.Args[0].Aux] {
				k.pend = ev.Addr.Args[0].Aux
			}
		}
	}
	for m := range connMaps {
		if m != k.pend {
			k.byAddr = m
		}
	}
	if len(connMaps) != 2 || k.pend == "" {
		c.Anchor("node: pending and established connections by address")
		return
	}
	seen := map[string]bool{}
	// limits, at the start
	load := func(fl string) *Term {
		return w.load(st0, w.fieldAddr(n, k.node, fieldNo(k.node, fl)), s.Field(fieldNo(k.node, fl)).Type())
	}
	size := func(fl string) *Term { m := load(fl); return w.lenOf(st0, m, m.T) }
	cfg := fieldBy(k.node, func(t types.Type) bool { return typeName(t) == "Config" })
	cfgT := deref(s.Field(fieldNo(k.node, cfg)).Type())
	limit := func(fl string) *Term {
		i, ft := fieldIndex(cfgT, fl)
		if i < 0 {
			return nil
		}
		return w.load(st0, w.fieldAddr(load(cfg), cfgT, i), ft)
	}
	mc, mpc := limit("MaxConnections"), limit("MaxPendingConnections")
	if mc == nil || mpc == nil {
		c.Anchor("node.Config: MaxConnections, MaxPendingConnections")
		return
	}
	pl := size(k.pend)
	sum := tAdd(pl, size(k.byAddr))
	over := func(st *State, lim, n *Term) tri {
		return tAnd(st.Truth(tLt(tInt(0), lim, false)), triNot(st.Truth(tLt(n, lim, false))))
	}
	for _, x := range es {
		e, at, st := x.e, x.at, x.e.St
		evs := st.Events()
		con, err := e.Rets[0], e.Rets[1]
		bad := func(rule, what, f string, a ...interface{}) { c.Bad(rule, what, at, f, a...) }
		var hsk *Event
		var wait *Event
		var ins *Event
		for _, ev := range evs {
			switch {
			case ev.Kind == "call" && ev.Static == k.hsk:
				hsk = ev
			case ev.Kind == "recv":
				wait = ev
			case ev.Kind == "mapupdate" && ofN(ev.Addr, k.pend):
				ins = ev
			}
		}
		fails := st.IsNil(err)
		has := func(fl string) tri {
			out := unknown
			for t, v := range st.facts.b {
				if t.Op == "present" && ofN(t.Args[0].Args[0], fl) && addr(t.Args[0].Args[1]) {
					out = triOf(v)
				}
			}
			return out
		}
		if ins == nil && hsk == nil {
			// nothing new
			for _, ev := range evs {
				if ev.Kind == "mapupdate" || ev.Kind == "mapdelete" || ev.Kind == "close" || ev.Kind == "go" {
					bad("existing", "effects", "no connection is made, and it has the effect %s", ev)
				}
			}
			switch {
			case err == nodeErr("ErrConnLimit"):
				c.Expect(over(st, mc, sum) == yes, "limits", "connections", at, "it is refused within the limit")
				seen["limit"] = true
			case err == nodeErr("ErrPendConnLimit"):
				c.Expect(over(st, mpc, pl) == yes, "limits", "pending", at, "it is refused within the limit")
				seen["pending limit"] = true
			case has(k.byAddr) == yes:
				m, key := elemOf(con)
				c.Expect(fails == yes && ofN(m, k.byAddr) && addr(key), "existing", "connection", at, "the connection returned is %s, the error %s", con, err)
				seen["existing"] = true
			case has(k.pend) == yes:
				m, key := elemOf(con)
				mine := func(t *Term) bool { m, key := elemOf(t); return ofN(m, k.pend) && addr(key) }
				if wait == nil {
					c.Expect(st.Truth(in) == yes && fails == no, "existing", "incoming pending", at, "a pending connection is not waited for: %s, %s", con, err)
					seen["incoming pending"] = true
					break
				}
				ok := isF(wait.Addr, k.initq, nil) && mine(wait.Addr.Args[0].Args[0])
				c.Expect(ok && st.Truth(in) == no, "existing", "wait", at, "it waits for %s", wait.Addr)
				if fails == yes {
					c.Expect(ofN(m, k.pend) && addr(key), "existing", "pending", at, "the connection returned is %s", con)
					// the error was looked at
					asked := false
					for _, t := range factTerms(st) {
						t.any(func(x *Term) bool {
							if isF(x, k.initErr, nil) && mine(x.Args[0].Args[0]) {
								asked = asked || st.IsNil(x) == yes
							}
							return false
						})
					}
					c.Expect(asked, "existing", "pending", at, "a connection that failed is returned")
					seen["waited"] = true
				} else {
					c.Expect(isF(err, k.initErr, nil) && mine(err.Args[0].Args[0]) && fails == no, "existing", "failed", at, "the error is %s", err)
					seen["waited, failed"] = true
				}
			default:
				bad("existing", "reason", "nothing is done: %s, %s", con, err)
			}
			continue
		}
		if !c.Expect(ins != nil && hsk != nil, "pending", "handshake", at, "a connection is made without being pending during its handshake") {
			continue
		}
		cn := ins.Val
		c.Expect(over(st, mc, sum) == no && over(st, mpc, pl) == no, "limits", "new", at, "a connection is made outside of the limits")
		c.Expect(has(k.byAddr) == no && has(k.pend) == no, "existing", "new", at, "a connection is made, and there may be one")
		c.Expect(addr(ins.Args[0]) && hsk.Args[0] == cn && cn.Op == "alloc", "pending", "made", at, "%s becomes pending at %s", cn, ins.Args[0])
		// what happened, in order
		pos := map[string]int{}
		cnt := map[string]int{}
		locks := 0
		lockAt := map[string]int{}
		mark := func(n string, i int) { pos[n], lockAt[n] = i, locks; cnt[n]++ }
		var feedE, goE, errE *Event
		for i, ev := range evs {
			switch {
			case ev == ins:
				mark("pending", i)
			case ev == hsk:
				mark("handshake", i)
			case ev.Kind == "call" && strings.HasSuffix(ev.Name, "Mutex).Lock"):
				locks++
			case ev.Kind == "mapdelete" && ofN(ev.Addr, k.pend):
				mark("not pending", i)
				c.Expect(k.addrOf(ev.Args[0], cn, fc), "pending", "taken out", at, "%s is taken out", ev.Args[0])
			case ev.Kind == "mapupdate" && ofN(ev.Addr, k.byAddr):
				mark("by address", i)
				c.Expect(ev.Val == cn && k.addrOf(ev.Args[0], cn, fc), "established", "by address", at, "%s is kept at %s", ev.Val, ev.Args[0])
			case ev.Kind == "mapupdate" && ofN(ev.Addr, k.byPK):
				mark("by identifier", i)
				id := w.load(st, w.fieldAddr(cn, k.conn, fieldNo(k.conn, k.peer)), k.conn.Underlying().(*types.Struct).Field(fieldNo(k.conn, k.peer)).Type())
				c.Expect(ev.Val == cn && ev.Args[0] == id, "established", "by identifier", at, "%s is kept at %s", ev.Val, ev.Args[0])
			case ev.Kind == "close":
				mark("ready", i)
			case ev.Kind == "store" && ev.Addr.Op == "field" && ev.Addr.Aux == k.initErr && ev.Addr.Args[0] == cn:
				mark("error", i)
				errE = ev
			case ev.Kind == "call" && ev.Static != nil && ev.Static.Signature.Recv() != nil && typeName(ev.Static.Signature.Recv().Type()) == "nodeFeeds":
				mark("feeds", i)
				feedE = ev
			case ev.Kind == "go":
				mark("alive", i)
				goE = ev
			}
		}
		c.Expect(pos["pending"] < pos["handshake"] && lockAt["pending"] == 1, "pending", "one step", at, "the connection becomes pending in more than one step, or after the handshake")
		c.Expect(cnt["not pending"] == 1 && cnt["ready"] == 1, "pending", "ends", at, "it is taken out %d times, ready %d times", cnt["not pending"], cnt["ready"])
		hres := hsk.Res
		known := unknown
		for t, v := range st.facts.b {
			if t.Op == "present" && ofN(t.Args[0].Args[0], k.byPK) {
				known = triOf(v)
			}
		}
		if fails == no {
			ok := st.IsNil(hres) == no || st.IsNil(hres) == yes && known == yes
			c.Expect(ok, "established", "failure", at, "it fails (%s), and nothing is wrong", err)
			c.Expect(st.IsNil(con) == yes, "established", "failure", at, "a connection is returned: %s", con)
			ev := errE
			c.Expect(ev != nil && ev.Val == err && pos["error"] < pos["ready"], "pending", "error", at, "the error is not kept before the connection is ready")
			c.Expect(cnt["by address"]+cnt["by identifier"]+cnt["feeds"]+cnt["alive"] == 0, "established", "failure", at, "a connection that failed is established")
			seen["failed"] = seen["failed"] || st.IsNil(hres) == no
			seen["connected"] = seen["connected"] || known == yes
			continue
		}
		c.Expect(fails == yes && con == cn, "established", "returned", at, "what is returned is %s, %s", con, err)
		c.Expect(st.IsNil(hres) == yes && known == no, "established", "peer", at, "a connection is established, and its handshake failed or its peer is connected already")
		c.Expect(cnt["by address"] == 1 && cnt["by identifier"] == 1 && lockAt["by address"] == lockAt["by identifier"] && lockAt["by address"] == lockAt["not pending"] && lockAt["by address"] == 2, "established", "one step", at, "a connection is established in more than one step")
		c.Expect(errE == nil, "established", "no error", at, "an error is kept")
		ok := feedE != nil && cnt["feeds"] == 1 && len(feedE.Args) == 3 && feedE.Args[1] == cn && isZero(feedE.Args[2]) && feedE.Static.Name() == "addConnFeed"
		c.Expect(ok, "established", "idle", at, "the connection is not added to idle ones")
		c.Expect(goE != nil && cnt["alive"] == 1 && goE.Static == k.life && goE.Args[0] == cn, "established", "alive", at, "the connection is not started once")
		c.Expect(pos["feeds"] < pos["alive"], "established", "order", at, "the connection is started before it is idle: it may end before")
		k.fresh2(w, st, cn, n, fc, in, at)
		seen["established"] = true
	}
	c.Done(w)
	for _, n := range []string{"limit", "pending limit", "existing", "incoming pending", "waited", "waited, failed", "failed", "connected", "established"} {
		c.Expect(seen[n], "existing", "case "+n, c.P.pos(f.Pos()), "there is no way for the case %q", n)
	}
}

// addrOf: the remote address of a connection made of fc
func (k *hskCtx) addrOf(t, cn, fc *Term) bool {
	if t == nil || t.Op != "pure" || t.Aux != "addr" || t.Args[0].Op != "pure" {
		return false
	}
	x := t.Args[0].Args[0]
	return x == fc || isF(x, "Connection", cn)
}

// fresh2: a new connection has all it needs
func (k *hskCtx) fresh2(w *Walker, st *State, cn, n, fc, in *Term, at string) {
	s := k.conn.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		v := w.load(st, w.fieldAddr(cn, k.conn, i), f.Type())
		ok := true
		switch u := f.Type().Underlying().(type) {
		case *types.Map:
			ok = st.IsNil(v) == no
		case *types.Chan:
			if isEmptyT(u.Elem()) {
				ok = v.Op == "makechan"
			} else {
				ok = strings.Contains(v.Aux, "GetChanOut")
			}
		case *types.Pointer:
			switch {
			case types.Identical(deref(f.Type()), k.node):
				ok = v == n
			case typeName(f.Type()) == "Connection":
				ok = v == fc
			}
		case *types.Basic:
			if f.Name() == k.incoming {
				ok = v == in || st.Truth(in) == st.Truth(v) && st.Truth(v) != unknown
			}
		}
		k.c.Expect(ok, "pending", "field "+f.Name(), at, "%s of a new connection is %s", f.Name(), v)
	}
}

// ofConf: a setting of the node of a connection
func (k *hskCtx) ofConf(t *Term, f string) bool {
	return isF(t, f, nil) && t.contains(k.n)
}

func (k *hskCtx) groupField() string {
	return fieldBy(k.conn, func(t types.Type) bool { return typeName(t) == "WaitGroup" })
}

// isGroup: the group of goroutines of the connection
func (k *hskCtx) isGroup(t *Term) bool {
	return t != nil && t.Op == "field" && t.Aux == k.groupField() && t.Args[0] == k.self
}

func (k *hskCtx) lives() {
	if k.life == nil {
		return
	}
	c := k.c
	h := k.handler()
	if h == nil {
		return
	}
	recv := k.receiver(h)
	if recv == nil || k.groupField() == "" {
		c.Anchor("node.Conn: receiving, goroutines")
		return
	}
	w := k.maker()
	op := w.Opaque
	w.Opaque = func(g *ssa.Function) bool { return g == recv || op(g) }
	ofNode := func(m *Term, f string) bool { return isF(m, f, k.n) }
	name := fname(k.life)
	type spawn struct {
		ev *Event
		st *State
	}
	spawns := map[ssa.Instruction]spawn{}
	on := w.OnEvent
	w.OnEvent = func(st *State, ev *Event) bool {
		if ev.Kind == "go" {
			spawns[ev.Instr] = spawn{ev, st.clone()}
		}
		if ev.Kind == "store" && rootTerm(ev.Addr).Op == "alloc" && isErrorT(deref(ev.Addr.T)) {
			return true
		}
		return on(st, ev)
	}
	addr := func(t *Term) bool {
		return t != nil && t.Op == "pure" && t.Aux == "addr" && t.Args[0].Op == "pure" && isF(t.Args[0].Args[0], "Connection", k.self)
	}
	exits := w.Run(k.life, []*Term{k.self}, nil, nil)
	// the goroutine that receives
	cells := map[ssa.Instruction]*Term{}
	for in, sp := range spawns {
		at := c.at(in)
		cl := sp.ev.Addr
		if !c.Expect(cl != nil && cl.Op == "closure", "life", "goroutine", at, "%s starts a goroutine that is not known", name) {
			continue
		}
		for _, e := range w.Run(cl.Fn, nil, cl.Args, sp.st.clone()) {
			dbg("go", name, e)
			if e.Panic {
				c.Bad("life", "goroutine", at, "it panics")
				continue
			}
			evs := e.St.Events()
			var rcv *Event
			ri, done, term, last := -1, 0, -1, ""
			for i, ev := range evs {
				if i < len(sp.st.Events()) {
					continue
				}
				switch {
				case ev.Kind == "call" && ev.Static == recv && ev.Args[0] == k.self:
					c.Expect(rcv == nil, "life", "receive once", at, "it receives twice")
					rcv, ri, last = ev, i, "receive"
				case ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Done" && k.isGroup(ev.Args[0]):
					done++
					last = "done"
				case ev.Kind == "call" && ev.Static == k.term && ev.Args[0] == k.self:
					term, last = i, "terminate"
				case ev.Kind == "store":
					last = "store"
					if rcv != nil && ev.Val == rcv.Res {
						cells[in] = ev.Addr
					}
				}
			}
			if !c.Expect(rcv != nil, "life", "receive", at, "the goroutine does not receive") {
				continue
			}
			c.Expect(done == 1 && last == "done", "life", "goroutine ends", at, "the end of receiving is not told once, at last")
			switch e.St.IsNil(rcv.Res) {
			case no:
				c.Expect(term > ri, "life", "receive fails", at, "the connection is not ended when receiving failed")
			case unknown:
				c.Bad("life", "receive fails", at, "the error of receiving is not looked at")
			}
		}
	}
	seen := map[string]bool{}
	for _, e := range exits {
		dbg("exit", name, e)
		at := c.P.pos(k.life.Pos())
		if e.Instr != nil {
			at = c.at(e.Instr)
		}
		st, evs := e.St, e.St.Events()
		bad := func(what, f string, a ...interface{}) { c.Bad("life", what, at, f, a...) }
		if e.Panic {
			bad("panic", "%s panics", name)
			continue
		}
		pos := map[string]int{}
		cnt := map[string]int{}
		locks, lockAt := 0, map[string]int{}
		var occ, odc, tr, gone *Event
		var isClosed *Term
		for i, ev := range evs {
			mark := func(n string) {
				pos[n], lockAt[n] = i, locks
				cnt[n]++
			}
			switch {
			case ev.Kind == "go":
				mark("go")
				gone = ev
			case ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Add" && k.isGroup(ev.Args[0]):
				c.Expect(ev.Args[1] == tInt(1), "life", "goroutine counted", at, "%s goroutines are added", ev.Args[1])
				mark("add")
			case ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Wait" && k.isGroup(ev.Args[0]):
				mark("wait")
			case ev.Kind == "call" && ev.Static == k.term && ev.Args[0] == k.self:
				mark("terminate")
			case ev.Kind == "call" && ev.Addr != nil && k.ofConf(ev.Addr, "OnConnect"):
				mark("OnConnect")
				occ = ev
			case ev.Kind == "call" && ev.Addr != nil && k.ofConf(ev.Addr, "OnDisconnect"):
				mark("OnDisconnect")
				odc = ev
			case ev.Kind == "call" && strings.HasSuffix(ev.Name, "Mutex).Lock"):
				locks++
			case ev.Kind == "mapdelete" && ofNode(ev.Addr, k.byAddr):
				mark("by address")
				c.Expect(addr(ev.Args[0]), "life", "by address", at, "%s is taken out", ev.Args[0])
			case ev.Kind == "mapdelete" && ofNode(ev.Addr, k.byPK):
				mark("by identifier")
				c.Expect(isF(ev.Args[0], k.peer, k.self), "life", "by identifier", at, "%s is taken out", ev.Args[0])
			case ev.Kind == "mapdelete" || ev.Kind == "mapupdate":
				bad("tables", "%s", ev)
			case ev.Kind == "call" && ev.Static != nil && ev.Static.Signature.Recv() != nil:
				switch typeName(ev.Static.Signature.Recv().Type()) {
				case "nodeFeeds":
					mark("feeds")
					c.Expect(ev.Static.Name() == "delConn" && len(ev.Args) == 2 && ev.Args[1] == k.self, "life", "feeds", at, "%s", ev)
				case "TCP", "UDP":
					mark("transport")
					tr = ev
				case "Connection":
					switch ev.Static.Name() {
					case "IsTCP":
						// of the connection
					case "IsClosed":
						isClosed = ev.Res
					case "Close":
						mark("close")
						c.Expect(isF(ev.Args[0], "Connection", k.self), "life", "transport", at, "%s is closed", ev.Args[0])
					}
				}
			}
		}
		if !c.Expect(cnt["go"] == 1 && cnt["add"] == 1 && cnt["wait"] == 1 && pos["add"] < pos["go"] && pos["go"] < pos["wait"], "life", "waits", at, "the goroutine of receiving is not waited for: counted %d times, started %d times, waited for %d times", cnt["add"], cnt["go"], cnt["wait"]) {
			continue
		}
		// callback
		conf := func(f string) tri {
			out := unknown
			for t, v := range st.facts.b {
				if t.Op == "eq" && (t.Args[0] == tNil && k.ofConf(t.Args[1], f) || t.Args[1] == tNil && k.ofConf(t.Args[0], f)) {
					out = triOf(!v)
				}
			}
			return out
		}
		c.Expect(triOf(occ != nil) == conf("OnConnect"), "life", "OnConnect", at, "the callback is called %d times, it is set: %v", cnt["OnConnect"], conf("OnConnect"))
		c.Expect(triOf(odc != nil) == conf("OnDisconnect"), "life", "OnDisconnect", at, "the callback is called %d times, it is set: %v", cnt["OnDisconnect"], conf("OnDisconnect"))
		failed := no
		if occ != nil {
			c.Expect(cnt["OnConnect"] == 1 && occ.Args[0] == k.self && pos["OnConnect"] < pos["wait"], "life", "OnConnect", at, "the callback is called for %s, after the end", occ.Args[0])
			failed = triNot(st.IsNil(occ.Res))
			switch failed {
			case yes:
				c.Expect(cnt["terminate"] >= 1 && pos["terminate"] < pos["wait"] && pos["terminate"] > pos["OnConnect"], "life", "rejected", at, "a connection rejected by the callback does not end")
				seen["rejected"] = true
			case unknown:
				bad("rejected", "the error of the callback is not looked at")
			}
		}
		if failed == no {
			c.Expect(cnt["terminate"] == 0, "life", "goes on", at, "the connection is ended, and nothing failed")
		}
		// bookkeeping
		for _, n := range []string{"feeds", "by address", "by identifier", "transport"} {
			c.Expect(cnt[n] == 1 && pos[n] > pos["wait"], "life", "leaves "+n, at, "the connection leaves %q %d times, or before its end", n, cnt[n])
		}
		c.Expect(lockAt["by address"] == lockAt["by identifier"], "life", "one step", at, "the connection leaves the tables in more than one step")
		tcp := unknown
		for t, v := range st.facts.b {
			if t.Op == "call" && strings.Contains(t.Aux, "IsTCP") && isF(t.Args[0], "Connection", k.self) {
				tcp = triOf(v)
			}
		}
		if tr != nil {
			want := map[tri]string{yes: "TCP", no: "UDP"}[tcp]
			rt := typeName(tr.Static.Signature.Recv().Type())
			okArg := len(tr.Args) == 2 && addr(tr.Args[1]) && tr.Args[0].contains(k.n)
			c.Expect(rt == want && okArg && closesTransport(tr.Static), "life", "transport", at, "the connection (TCP: %v) leaves the transport by %s", tcp, tr)
		}
		closedTr := unknown
		if isClosed != nil {
			closedTr = st.Truth(isClosed)
		}
		c.Expect(cnt["close"] == 1 || closedTr == yes && cnt["close"] == 0, "life", "transport closed", at, "the transport of the connection is not closed")
		if odc == nil {
			continue
		}
		last := true
		for n, i := range pos {
			last = last && (n == "OnDisconnect" || i < pos["OnDisconnect"])
		}
		c.Expect(last && cnt["OnDisconnect"] == 1 && odc.Args[0] == k.self, "life", "OnDisconnect", at, "the last callback is called before the end of the connection")
		cell := cells[gone.Instr]
		if !c.Expect(cell != nil, "life", "reason", at, "the error of receiving is lost") {
			continue
		}
		isRcv := func(t *Term) bool {
			return t != nil && t.Op == "havoc" && strings.HasSuffix(t.Aux, "/"+itoa(cell.ID))
		}
		rcvd := unknown
		for t, v := range st.facts.b {
			if t.Op == "eq" && (t.Args[0] == tNil && isRcv(t.Args[1]) || t.Args[1] == tNil && isRcv(t.Args[0])) {
				rcvd = triOf(!v)
			}
		}
		r := odc.Args[1]
		switch {
		case isRcv(r):
			c.Expect(rcvd == yes || rcvd == unknown && failed == no, "life", "reason", at, "the reason may be nil, and the callback failed")
			seen["reason: receiving"] = true
		case occ != nil && r == occ.Res:
			c.Expect(rcvd == no && (failed == yes || failed == no), "life", "reason", at, "the reason is the error of the callback, and receiving failed")
			seen["reason: callback"] = true
		case st.IsNil(r) == yes:
			c.Expect(rcvd == no && failed == no, "life", "reason", at, "there is no reason, and there was an error")
			seen["no reason"] = true
		default:
			bad("reason", "the reason is %s", r)
		}
	}
	c.Done(w)
	for _, n := range []string{"rejected", "reason: receiving", "reason: callback", "no reason"} {
		if n == "no reason" && seen["reason: receiving"] {
			continue
		}
		c.Expect(seen[n], "life", "case "+n, c.P.pos(k.life.Pos()), "there is no way for the case %q", n)
	}
}

func itoa(n int) string { return strconv.Itoa(n) }

// closesTransport: closes a connection of the factory and removes it
func closesTransport(f *ssa.Function) bool {
	del := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
					del = true
				}
			}
		}
	}
	return del
}

func (k *hskCtx) ends() {
	c := k.c
	cl := c.P.Method("node", "Conn", "Close")
	if cl == nil {
		c.Anchor("node.Conn.Close")
		return
	}
	w := k.maker()
	for _, e := range w.Run(cl, []*Term{k.self}, nil, nil) {
		dbg("exit", fname(cl), e)
		at := c.P.pos(cl.Pos())
		term, wait := -1, -1
		for i, ev := range e.St.Events() {
			switch {
			case ev.Kind == "call" && ev.Static == k.term && ev.Args[0] == k.self:
				term = i
			case ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Wait" && k.isGroup(ev.Args[0]):
				wait = i
			}
		}
		c.Expect(!e.Panic && term >= 0 && wait > term, "close", "Close", at, "%s does not end the connection and wait for it", fname(cl))
	}
	c.Done(w)
	// the signal
	given := false
	w2 := k.walker()
	for _, e := range w2.Run(k.term, []*Term{k.self}, nil, nil) {
		dbg("exit", fname(k.term), e)
		at := c.P.pos(k.term.Pos())
		closes := 0
		for _, ev := range e.St.Events() {
			switch {
			case ev.Kind == "close" && ev.Addr == k.closq:
				closes++
			}
		}
		c.Expect(!e.Panic && closes <= 1, "close", "signal", at, "%s gives the signal %d times", fname(k.term), closes)
		if closes == 1 {
			given = true
		}
	}
	once := false
	for _, b := range k.term.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() != nil && fname(ci.Common().StaticCallee()) == "(*sync.Once).Do" {
				if fa, ok := ci.Common().Args[0].(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), k.conn) {
					once = true
				}
			}
		}
	}
	c.Expect(once, "close", "once", c.P.pos(k.term.Pos()), "%s may give the signal more than once", fname(k.term))
	c.Expect(given, "close", "signal", c.P.pos(k.term.Pos()), "%s never gives the signal to end", fname(k.term))
	c.Done(w2)
}

// transport: connections of a transport
func (k *hskCtx) transport(name string) {
	c := k.c
	T := c.P.Named("node", name)
	if T == nil {
		c.Anchor("node." + name)
		return
	}
	s := T.Underlying().(*types.Struct)
	tab := fieldBy(T, func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && types.Identical(deref(m.Elem()), k.conn)
	})
	var connect, accept, closes *ssa.Function
	adds := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		if f.Signature.Recv() == nil || f.Synthetic != "" || !types.Identical(deref(f.Signature.Recv().Type()), T) {
			continue
		}
		sg := f.Signature
		reach := c.P.Reach(f)
		switch {
		case reach[k.initConn] && sg.Results().Len() == 2 && sg.Params().Len() == 1:
			connect = f
		case reach[k.initConn] && sg.Results().Len() == 0 && sg.Params().Len() == 1 && types.Identical(sg.Params().At(0).Type(), k.initConn.Signature.Params().At(0).Type()):
			accept = f
		case closesTransport(f) && sg.Params().Len() == 1 && isStr(sg.Params().At(0).Type()):
			closes = f
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.MapUpdate); ok {
					adds[f] = true
				}
			}
		}
	}
	if connect == nil || accept == nil || closes == nil || tab == "" {
		c.Anchor("node." + name + ": Connect, accepting, closing, connections")
		return
	}
	self := mk("param", "transport", types.NewPointer(T))
	mkw := func() *Walker {
		w := k.maker()
		w.Opaque = func(g *ssa.Function) bool {
			if r := g.Signature.Recv(); r != nil && types.Identical(deref(r.Type()), T) {
				return false
			}
			return describes(g) && g.Name() != "Address" || g == k.initConn
		}
		return w
	}
	addrOf := func(t, fc *Term) bool {
		return t != nil && t.Op == "pure" && t.Aux == "addr" && t.Args[0].Op == "pure" && t.Args[0].Args[0] == fc
	}
	addrOfConn := func(t, cn *Term) bool {
		return t != nil && t.Op == "pure" && t.Aux == "addr" && t.Args[0].Op == "pure" && isF(t.Args[0].Args[0], "Connection", cn)
	}
	for _, f := range []*ssa.Function{connect, accept} {
		w := mkw()
		n := fname(f)
		ps := w.Params(f)
		ps[0] = self
		out := f == connect
		seen := map[string]bool{}
		st0 := newState()
		if !out {
			st0.assume(tEq(ps[1], tNil), false)
		}
		for _, e := range w.Run(f, ps, nil, st0) {
			dbg("exit", n, e)
			at := c.P.pos(f.Pos())
			if e.Instr != nil {
				at = c.at(e.Instr)
			}
			st := e.St
			bad := func(what, g string, a ...interface{}) { c.Bad("transport", n+": "+what, at, g, a...) }
			want := func(ok bool, what, g string, a ...interface{}) bool {
				return c.Expect(ok, "transport", n+": "+what, at, g, a...)
			}
			if e.Panic {
				bad("panic", "%s panics", n)
				continue
			}
			var dial, init, add *Event
			closed := map[*Term]bool{}
			isClosed := map[*Term]*Term{}
			for _, ev := range st.Events() {
				switch {
				case ev.Kind == "call" && ev.Static == k.initConn:
					want(init == nil, "once", "the connection is made twice")
					init = ev
				case ev.Kind == "call" && strings.HasSuffix(ev.Name, ").Connect") && ev.Static != accept && ev.Res != nil && len(ev.Res.Args) == 2:
					want(dial == nil, "once", "two connections are opened")
					dial = ev
				case ev.Kind == "mapupdate":
					want(add == nil && isF(ev.Addr, tab, self), "kept", "%s", ev)
					add = ev
				case ev.Kind == "mapdelete" || ev.Kind == "go" || ev.Kind == "close":
					bad("effects", "%s", ev)
				case ev.Kind == "call" && strings.HasSuffix(ev.Name, "factory.Connection).Close"):
					closed[ev.Args[0]] = true
				case ev.Kind == "call" && strings.HasSuffix(ev.Name, "factory.Connection).IsClosed"):
					isClosed[ev.Args[0]] = ev.Res
				}
			}
			// the connection of the transport
			had := unknown
			var hadC *Term
			for t, v := range st.facts.b {
				t.any(func(x *Term) bool {
					m, key := elemOf(x)
					if m == nil || !isF(m, tab, self) {
						return false
					}
					mine := out && key == ps[1] || !out && addrOf(key, ps[1])
					if !mine {
						bad("known", "it looks for the connection of %s", key)
						return false
					}
					if t.Op == "eq" && (t.Args[0] == tNil || t.Args[1] == tNil) {
						had, hadC = triOf(!v), x
					}
					return false
				})
				if t.Op == "present" && isF(t.Args[0].Args[0], tab, self) && !v {
					had = no
				}
			}
			fc := ps[1]
			if out {
				fc = nil
				if dial != nil {
					fc = dial.Res.Args[0]
				}
			}
			gone := func(x *Term) bool {
				return closed[x] || isClosed[x] != nil && st.Truth(isClosed[x]) == yes
			}
			if init == nil {
				switch {
				case out && dial == nil:
					ok := had == yes && e.Rets[0] == hadC && st.IsNil(e.Rets[1]) == yes
					want(ok, "known", "what is returned is %s, %s", e.Rets[0], e.Rets[1])
					seen["known"] = true
				case out:
					ok := st.IsNil(dial.Res.Args[1]) == no && e.Rets[1] == dial.Res.Args[1] && st.IsNil(e.Rets[0]) == yes
					want(ok, "not opened", "what is returned is %s, %s", e.Rets[0], e.Rets[1])
					seen["not opened"] = true
				default:
					want(had == yes, "known", "an incoming connection is refused, and there is none from its address")
					want(gone(fc), "refused", "a refused connection is not closed")
					seen["known"] = true
				}
				want(add == nil && (!out || len(closed) == 0), "effects", "connections are kept or closed")
				continue
			}
			want(had == no, "new", "a connection is made, and there is one")
			if out {
				want(dial != nil && dial.Args[len(dial.Args)-1] == ps[1] && st.IsNil(dial.Res.Args[1]) == yes, "opened", "a connection is made of one that is not opened")
			}
			inc := tTrue
			if out {
				inc = tFalse
			}
			if !want(init.Args[1] == fc && init.Args[2] == inc && init.Args[0].contains(self), "handshake", "a connection is made of %s, incoming: %s", init.Args[1], init.Args[2]) {
				continue
			}
			cn, err := init.Res.Args[0], init.Res.Args[1]
			switch st.IsNil(err) {
			case yes:
				// kept unless closed meanwhile
				if add == nil {
					over := false
					for _, ev := range st.Events() {
						over = over || ev.Kind == "recv" && ev.Select && isF(ev.Addr, k.closeField(), cn)
					}
					want(over, "kept", "the connection made is not kept")
					seen["over"] = true
				} else {
					ok := add.Val == cn && addrOfConn(add.Args[0], cn)
					want(ok, "kept", "%s", add)
					looked := false
					for _, ev := range st.Events() {
						if ev == add {
							break
						}
						looked = looked || ev.Kind == "select"
					}
					want(looked, "closed meanwhile", "a connection that ended is kept")
					seen["kept"] = true
				}
				other := unknown
				for _, t := range factTerms(st) {
					if t.Op == "eq" && (t.Args[0] == fc && isF(t.Args[1], "Connection", cn) || t.Args[1] == fc && isF(t.Args[0], "Connection", cn)) {
						other = triNot(st.Truth(t))
					}
				}
				switch {
				case gone(fc):
					want(other == yes || !closed[fc], "in use", "the connection in use is closed")
					seen["unused"] = seen["unused"] || other == yes
				default:
					want(other == no, "unused", "a connection of the factory is neither used nor closed")
				}
				if out {
					want(e.Rets[0] == cn && st.IsNil(e.Rets[1]) == yes, "made", "what is returned is %s, %s", e.Rets[0], e.Rets[1])
				}
			case no:
				want(add == nil, "failed", "a connection that failed is kept")
				want(gone(fc), "failed: closed", "a connection that failed is not closed")
				if out {
					want(e.Rets[1] == err, "failed", "the error is %s", e.Rets[1])
				}
				seen["failed"] = true
			default:
				bad("failed", "the outcome of the handshake is not looked at")
			}
			for x := range closed {
				want(x == fc, "closes", "%s is closed", x)
			}
		}
		c.Done(w)
		cases := []string{"known", "over", "kept", "failed", "unused"}
		if out {
			cases = append(cases, "not opened")
		}
		for _, x := range cases {
			c.Expect(seen[x], "transport", n+": case "+x, c.P.pos(f.Pos()), "there is no way for the case %q", x)
		}
	}
	// closing
	w := mkw()
	w.SamePkg = true
	n := fname(closes)
	ps := w.Params(closes)
	ps[0] = self
	removed := false
	for _, e := range w.Run(closes, ps, nil, nil) {
		dbg("exit", n, e)
		at := c.P.pos(closes.Pos())
		if e.Instr != nil {
			at = c.at(e.Instr)
		}
		st := e.St
		has := unknown
		for t, v := range st.facts.b {
			if t.Op == "present" && isF(t.Args[0].Args[0], tab, self) {
				has = triOf(v)
			}
		}
		del, shut := false, false
		for _, ev := range st.Events() {
			switch {
			case ev.Kind == "mapdelete":
				del = c.Expect(isF(ev.Addr, tab, self) && ev.Args[0] == ps[1], "transport", n+": removed", at, "%s", ev)
			case ev.Kind == "mapupdate":
				c.Bad("transport", n+": effects", at, "%s", ev)
			case ev.Kind == "call" && strings.HasSuffix(ev.Name, "factory.Connection).Close"):
				x := ev.Args[0]
				m, key := (*Term)(nil), (*Term)(nil)
				if isF(x, "Connection", nil) {
					m, key = elemOf(x.Args[0].Args[0])
				}
				c.Expect(m != nil && isF(m, tab, self) && key == ps[1], "transport", n+": closes", at, "%s", ev)
				shut = true
			case ev.Kind == "call" && strings.HasSuffix(ev.Name, "factory.Connection).IsClosed"):
				shut = shut || st.Truth(ev.Res) == yes
			}
		}
		if has == no {
			continue
		}
		removed = removed || del
		c.Expect(del && shut && !e.Panic, "transport", n+": ended", at, "a connection that ended is kept, or not closed")
	}
	c.Done(w)
	c.Expect(removed, "transport", n+": removes", c.P.pos(closes.Pos()), "%s removes nothing", n)
	_ = s
}

// closeField: the channel that tells of the end of a connection
func (k *hskCtx) closeField() string { return k.closq.Args[0].Aux }

// shutdown: everything ends with the node
func (k *hskCtx) shutdown() {
	c := k.c
	cl := c.P.Method("node", "Node", "Close")
	if cl == nil {
		c.Anchor("node.Node.Close")
		return
	}
	w := k.maker()
	closing := c.P.Method("node", "Conn", "Close")
	op := w.Opaque
	w.Opaque = func(g *ssa.Function) bool { return g == closing || op(g) }
	w.OnEvent = anyEvent
	ps := w.Params(cl)
	n := ps[0]
	name := fname(cl)
	isNode := func(t *Term, f string) bool { return isF(t, f, n) }
	field := func(pred func(types.Type) bool) string { return fieldBy(k.node, pred) }
	ss := field(func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && typeName(deref(m.Elem())) == "Swarm"
	})
	if ss == "" || closing == nil {
		c.Anchor("node.Node: swarms")
		return
	}
	// every lock of the node
	locked := func(evs []*Event) bool {
		held := 0
		for _, ev := range evs {
			if ev.Kind == "call" && len(ev.Args) == 1 && ev.Args[0].Op == "field" && ev.Args[0].Args[0] == n {
				switch {
				case strings.HasSuffix(ev.Name, "Mutex).Lock"):
					held++
				case strings.HasSuffix(ev.Name, "Mutex).Unlock"):
					held--
				}
			}
		}
		return held > 0
	}
	rounds := map[string]bool{}
	w.OnBack = func(g *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
		dbg("back", name, &Exit{St: st})
		evs := st.Events()
		at := c.P.pos(cl.Pos())
		from := 0
		var rg *Event
		for i, ev := range evs {
			switch ev.Kind {
			case "range":
				from, rg = i, ev
			case "rangeend":
				from, rg = i, nil
			}
		}
		var val *Term
		if rg != nil {
			val = rg.Args[1]
		}
		closed, kept, ended := false, false, false
		for i, ev := range evs {
			if i < from {
				continue
			}
			switch {
			case ev.Kind == "call" && ev.Static == closing:
				closed = val == nil && ev.Args[0].Op == "load" && ev.Args[0].Args[0].Op == "idx" || val == ev.Args[0]
				c.Expect(!locked(evs[:i]), "shutdown", "lock: connections", at, "it waits for a connection, and holds the lock of the node")
			case ev.Kind == "append":
				for _, a := range ev.Args {
					kept = kept || val != nil && a.any(func(x *Term) bool { return x == val })
				}
			case ev.Kind == "call" && ev.Static != nil && ev.Static.Signature.Recv() != nil && typeName(ev.Static.Signature.Recv().Type()) == "Swarm":
				ended = ev.Args[0] == val
				c.Expect(!locked(evs[:i]), "shutdown", "lock: swarms", at, "it waits for a swarm, and holds the lock of the node")
			}
		}
		switch {
		case rg == nil:
			c.Expect(closed, "shutdown", "each connection", at, "a connection is not closed")
			rounds["close"] = rounds["close"] || closed
		case isNode(rg.Addr, k.pend):
			c.Expect(closed || kept, "shutdown", "pending", at, "a pending connection is not closed")
			rounds["pend"] = true
			rounds["close"] = rounds["close"] || closed
		case isNode(rg.Addr, k.byAddr):
			c.Expect(closed || kept, "shutdown", "established", at, "a connection is not closed")
			rounds["conns"] = true
			rounds["close"] = rounds["close"] || closed
		case isNode(rg.Addr, ss):
			c.Expect(ended, "shutdown", "swarms", at, "a swarm is not ended")
			rounds["swarms"] = true
		}
	}
	ran := false
	for _, e := range w.Run(cl, ps, nil, nil) {
		dbg("exit", name, e)
		at := c.P.pos(cl.Pos())
		st := e.St
		if e.Panic {
			c.Bad("shutdown", "panic", at, "%s panics", name)
			continue
		}
		pos := map[string]int{}
		var con *Event
		evs := st.Events()
		for i, ev := range evs {
			switch {
			case ev.Kind == "rangeend" && isNode(ev.Addr, k.pend):
				pos["pend"] = i
			case ev.Kind == "rangeend" && isNode(ev.Addr, k.byAddr):
				pos["conns"] = i
			case ev.Kind == "rangeend" && isNode(ev.Addr, ss):
				pos["swarms"] = i
			case ev.Kind == "call" && ev.Static != nil && ev.Static.Signature.Recv() != nil && typeName(ev.Static.Signature.Recv().Type()) == "nodeFeeds":
				pos["feeds"] = i
				c.Expect(ev.Static.Name() == "close" && !locked(evs[:i]), "shutdown", "feeds", at, "%s", ev)
			case ev.Kind == "call" && strings.HasSuffix(ev.Name, "skyobject.Container).Close"):
				pos["container"] = i
				con = ev
			case ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Wait":
				pos["wait"] = i
				c.Expect(!locked(evs[:i]), "shutdown", "lock: goroutines", at, "it waits for goroutines, and holds the lock of the node")
			case ev.Kind == "call" && strings.HasSuffix(ev.Name, ".Close"):
				for _, f := range []string{"tcp", "udp", "rpc"} {
					if k.under(ev.Args[0], f, n) {
						pos[f] = i
					}
				}
			}
		}
		// done already
		if len(pos) == 0 {
			c.Expect(st.IsNil(e.Rets[0]) == yes, "shutdown", "once", at, "closing again gives %s", e.Rets[0])
			continue
		}
		ran = true
		for _, x := range []string{"pend", "conns", "swarms", "feeds", "container", "wait"} {
			c.Expect(pos[x] > 0, "shutdown", "all: "+x, at, "%s does not end %q", name, x)
		}
		for _, f := range []string{"tcp", "udp", "rpc"} {
			has := unknown
			for t, v := range st.facts.b {
				if t.Op == "eq" && (t.Args[0] == tNil && k.under(t.Args[1], f, n) || t.Args[1] == tNil && k.under(t.Args[0], f, n)) && has != no {
					has = triOf(!v)
				}
			}
			c.Expect(pos[f] > 0 || has == no, "shutdown", "transport "+f, at, "%s is not closed", f)
		}
		ok := con != nil && e.Rets[0] == con.Res
		c.Expect(ok, "shutdown", "error", at, "the error of the container is lost: %s", e.Rets[0])
		c.Expect(pos["feeds"] < pos["container"], "shutdown", "order", at, "the container is closed before the feeds that use it")
	}
	c.Done(w)
	for _, r := range []string{"pend", "conns", "swarms", "close"} {
		c.Expect(rounds[r], "shutdown", "rounds: "+r, c.P.pos(cl.Pos()), "%s never ends %q", name, r)
	}
	c.Expect(ran, "shutdown", "ran", c.P.pos(cl.Pos()), "%s does nothing", name)
}

// under: a value of a field of the node, or of what it has
func (k *hskCtx) under(t *Term, f string, n *Term) bool {
	return t != nil && t.any(func(x *Term) bool { return x.Op == "field" && x.Aux == f && x.Args[0] == n })
}
