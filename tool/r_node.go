package main

// The node: requests and replies, data from peers, subscriptions, handshake,
// life of connections.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("N02", "requests and replies",
		"Every exit of the sender of requests, every round of the receiving loop and every way through the handlers of messages is enumerated with the frames sent on it; numbers, order, replies and results are compared with the specification of the request-response protocol.", checkN02)
}

const atomicAdd = "sync/atomic.AddUint32"

// nodeCtx: what the rules about the node refer to
type nodeCtx struct {
	c     *Ctx
	conn  *types.Named
	node  *types.Named
	self  *Term // a connection
	seqF  *Term // address of its counter
	reqs  *Term // address of its table of requests
	closq *Term // value of its channel of closing
	n     *Term // value of its node
}

func newNodeCtx(c *Ctx) *nodeCtx {
	k := &nodeCtx{c: c, conn: c.P.Named("node", "Conn"), node: c.P.Named("node", "Node")}
	if k.conn == nil || k.node == nil {
		c.Anchor("node.Conn, node.Node")
		return nil
	}
	k.self = mk("param", "conn", types.NewPointer(k.conn))
	w := c.P.NewWalker()
	s := k.conn.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		fa := w.fieldAddr(k.self, k.conn, i)
		switch u := f.Type().Underlying().(type) {
		case *types.Basic:
			if u.Kind() == types.Uint32 {
				k.seqF = fa
			}
		case *types.Map:
			if ch, ok := u.Elem().Underlying().(*types.Chan); ok && typeName(ch.Elem()) == "Msg" {
				k.reqs = fa
			}
		case *types.Chan:
			if st, ok := u.Elem().Underlying().(*types.Struct); ok && st.NumFields() == 0 && k.closes(f.Name()) {
				k.closq = w.load(newState(), fa, f.Type())
			}
		case *types.Pointer:
			if types.Identical(deref(f.Type()), k.node) {
				k.n = w.load(newState(), fa, f.Type())
			}
		}
	}
	if k.seqF == nil || k.reqs == nil || k.closq == nil || k.n == nil {
		c.Anchor("node.Conn: counter, requests, channel of closing, node")
		return nil
	}
	return k
}

// closes: the channel field is closed inside a sync.Once (the signal to close
// the connection, not the one that it is ready)
func (k *nodeCtx) closes(field string) bool {
	for _, f := range k.c.P.Funcs {
		if f.Pkg == nil || k.c.P.rel(f.Pkg) != "node" || f.Parent() == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
					if u, ok := ci.Common().Args[0].(*ssa.UnOp); ok {
						if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldName(fa) == field && types.Identical(deref(fa.X.Type()), k.conn) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// describes: a method that only makes a string
func describes(f *ssa.Function) bool {
	r := f.Signature.Results()
	if r.Len() != 1 || !isStr(r.At(0).Type()) {
		return false
	}
	return true
}

// walker of the node: the API of the loop of feeds, the container and other
// packages are not followed
func (k *nodeCtx) walker() *Walker {
	w := k.c.P.NewWalker()
	w.SamePkg = true
	w.Model = msgModel(w)
	w.Opaque = k.opaque
	w.OnEvent = k.events
	w.MaxStates = 3000
	w.AnyRound, w.Loops = true, 1
	return w
}

func (k *nodeCtx) opaque(g *ssa.Function) bool {
	if describes(g) {
		return true
	}
	if r := g.Signature.Recv(); r != nil {
		switch typeName(r.Type()) {
		case "nodeFeeds", "Swarm", "TCP", "UDP":
			return true
		}
	}
	return false
}

func (k *nodeCtx) events(st *State, ev *Event) bool {
	switch ev.Kind {
	case "send", "recv", "select", "close", "go", "mapupdate", "mapdelete", "range":
		return true
	case "call":
		if strings.HasPrefix(ev.Name, "iface:"+modPath+"/node/log.Logger") || strings.HasPrefix(ev.Name, "fmt.") || strings.HasPrefix(ev.Name, "builtin:") {
			return false
		}
		if ev.Static != nil && describes(ev.Static) {
			return false
		}
		return true
	case "store":
		return rootTerm(ev.Addr).Op != "alloc"
	}
	return false
}

// frames: what is sent on a path
func (k *nodeCtx) frames(w *Walker, st *State) (out []frame0) {
	for _, ev := range st.Events() {
		if ev.Kind == "send" && isBytesT(ev.Val) {
			fr, ok := frameOf(w, st, ev.Val)
			if ok {
				fr.ev = ev
				out = append(out, fr)
			} else {
				k.c.Bad("undecided", "frame at "+k.c.at(ev.Instr), k.c.at(ev.Instr), "a send of bytes that is not a frame: %s", ev.Val)
			}
		}
	}
	return
}

func isBytesT(t *Term) bool {
	if t == nil || t.T == nil {
		return false
	}
	return isBytes(t.T)
}

// closed: the path saw the signal of closing
func (k *nodeCtx) closed(st *State) bool {
	for _, ev := range st.Events() {
		if ev.Kind == "recv" && ev.Addr == k.closq {
			return true
		}
	}
	return false
}

// fresh: a number taken from the counter by this path
func (k *nodeCtx) fresh(st *State, t *Term) bool {
	for _, ev := range st.Events() {
		if ev.Kind == "call" && ev.Name == atomicAdd && ev.Res == t && ev.Args[0] == k.seqF && ev.Args[1] == tInt(1) {
			return true
		}
	}
	return false
}

func (k *nodeCtx) index(st *State, f func(ev *Event) bool) int {
	for i, ev := range st.Events() {
		if f(ev) {
			return i
		}
	}
	return -1
}

// the sender of requests: takes a message, gives a message and an error
func (k *nodeCtx) requester() *ssa.Function {
	for _, f := range k.c.P.Funcs {
		if f.Pkg == nil || k.c.P.rel(f.Pkg) != "node" || f.Signature.Recv() == nil || typeName(f.Signature.Recv().Type()) != "Conn" || f.Synthetic != "" {
			continue
		}
		s := f.Signature
		if s.Params().Len() == 1 && s.Results().Len() == 2 && typeName(s.Params().At(0).Type()) == "Msg" && typeName(s.Results().At(0).Type()) == "Msg" {
			return f
		}
	}
	k.c.Anchor("the method of a connection that sends a request and waits for the reply")
	return nil
}

// the handler of messages: the function telling message types apart
func (k *nodeCtx) handler() *ssa.Function {
	for _, f := range k.c.P.Funcs {
		if f.Pkg == nil || k.c.P.rel(f.Pkg) != "node" {
			continue
		}
		n := map[string]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ta, ok := in.(*ssa.TypeAssert); ok && typeName(ta.X.Type()) == "Msg" {
					n[typeName(ta.AssertedType)] = true
				}
			}
		}
		if len(n) >= 6 {
			return f
		}
	}
	k.c.Anchor("the handler of messages")
	return nil
}

// the receiving loop: decodes messages and calls the handler
func (k *nodeCtx) receiver(h *ssa.Function) *ssa.Function {
	dec := k.c.P.Func("node/msg", "Decode")
	var best *ssa.Function
	for _, f := range k.c.P.Funcs {
		if f.Pkg == nil || k.c.P.rel(f.Pkg) != "node" || f.Synthetic != "" || f == h {
			continue
		}
		r := k.c.P.Reach(f)
		if !r[h] || !r[dec] {
			continue
		}
		loop := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if sel, ok := in.(*ssa.Select); ok && sel.Blocking {
					loop = loop || len(k.c.P.NewWalker().fi(f).encl[b]) > 0
				}
			}
		}
		if loop && (best == nil || len(k.c.P.Reach(f)) < len(k.c.P.Reach(best))) {
			best = f
		}
	}
	if best == nil {
		k.c.Anchor("the loop receiving messages")
	}
	return best
}

func isConfigTimeout(k *nodeCtx, st *State, d *Term) string {
	// load of config.TCP.ResponseTimeout or config.UDP.ResponseTimeout of the node
	if d == nil || d.Op != "load" {
		return ""
	}
	a := d.Args[0]
	if a.Op != "field" || a.Aux != "ResponseTimeout" {
		return ""
	}
	for x := a.Args[0]; x != nil; {
		if x.Op == "field" && (x.Aux == "TCP" || x.Aux == "UDP") && typeName(x.T) != "TCP" && typeName(x.T) != "UDP" {
			return x.Aux
		}
		if len(x.Args) == 0 {
			break
		}
		x = x.Args[0]
	}
	return ""
}

func checkN02(c *Ctx) {
	c.Rule("request", "a request is sent once, under a number of its own from the counter of the connection, entered in the table of requests before it is sent and taken out on every way back", 4)
	c.Rule("outcome", "the reply returned is what arrived for this request; a timeout, closing and a failed send are reported by their errors", 4)
	c.Rule("timeout", "waiting is limited by the response timeout configured for the transport of the connection, unless that is zero", 2)
	c.Rule("dispatch", "a message whose rseq is that of a waiting request goes to that request and to nothing else, without blocking; any other is handled with its own seq; data that is no message ends the connection by an error", 5)
	c.Rule("reply", "each request of a peer is answered by exactly one reply, with the seq of the request and a number of its own, unless the connection is closed; other messages get no reply", 6)
	k := newNodeCtx(c)
	if k == nil {
		return
	}
	k.requestRule(k.requester())
	h := k.handler()
	if h == nil {
		return
	}
	if r := k.receiver(h); r != nil {
		k.dispatchRule(r, h)
	}
	k.replyRule(h)
}

func (k *nodeCtx) requestRule(f *ssa.Function) {
	c := k.c
	if f == nil {
		return
	}
	name := fname(f)
	w := k.walker()
	w.Split = true
	m := mk("param", "m", f.Params[1].Type())
	outcomes := map[string]bool{}
	for _, x := range w.Run(f, []*Term{k.self, m}, nil, nil) {
		at := c.at(x.Instr)
		if x.Panic {
			c.Bad("request", "panic", at, "%s panics", name)
			continue
		}
		st := x.St
		frs := k.frames(w, st)
		add := k.index(st, func(ev *Event) bool { return ev.Kind == "mapupdate" && k.isReqs(ev.Addr) })
		evs := st.Events()
		if len(frs) > 1 {
			c.Bad("request", "once", at, "%s sends %d frames", name, len(frs))
		}
		reply, er := x.Rets[0], x.Rets[1]
		if add >= 0 {
			key, ch := evs[add].Args[0], evs[add].Val
			c.Expect(k.fresh(st, key), "request", "number", c.at(evs[add].Instr), "%s enters the request under %s, which is not a number of its own", name, key)
			last := -1
			for i, ev := range evs {
				if ev.Kind == "mapdelete" && k.isReqs(ev.Addr) && ev.Args[0] == key {
					last = i
				}
			}
			wait := k.index(st, func(ev *Event) bool { return ev.Kind == "recv" && ev.Addr == ch })
			c.Expect(last > add && last > wait, "request", "taken out", at, "%s returns and leaves the request in the table", name)
			c.Expect(ch.Op == "makechan" && ch.Args[0].Op == "int" && ch.Args[0].C >= 1, "request", "channel", c.at(evs[add].Instr), "%s waits for the reply on a channel without room: the reply is dropped if nobody waits yet", name)
			if len(frs) == 1 {
				fr := frs[0]
				i := k.index(st, func(ev *Event) bool { return ev == fr.ev })
				c.Expect(i > add, "request", "order", c.at(fr.ev.Instr), "%s sends the request before it is in the table", name)
				c.Expect(fr.seq == key && fr.rseq == tInt(0) && fr.msg == m, "request", "frame", c.at(fr.ev.Instr), "%s sends %s with seq %s and rseq %s", name, fr.msg, fr.seq, fr.rseq)
			}
			// outcome
			got := (*Event)(nil)
			var lastRecv *Event
			for _, ev := range evs {
				if ev.Kind == "recv" {
					lastRecv = ev
					if ev.Addr == ch {
						got = ev
					}
				}
			}
			switch {
			case got != nil:
				c.Expect(len(frs) == 1 && st.IsNil(er) == yes && reply.Op == "recv" && reply.Args[0] == ch, "outcome", "reply", at, "%s returns (%s, %s) for a reply", name, reply, er)
				outcomes["reply"] = true
			case lastRecv != nil && lastRecv.Addr == k.closq:
				c.Expect(er == nodeErr("ErrClosed") && reply == tNil, "outcome", "closed", at, "%s returns (%s, %s) when the connection is closed", name, reply, er)
				outcomes["closed"] = true
			case lastRecv != nil:
				c.Expect(er == nodeErr("ErrTimeout") && reply == tNil && isTimerChan(lastRecv.Addr), "outcome", "timeout", at, "%s returns (%s, %s) after waiting on %s", name, reply, er, lastRecv.Addr)
				outcomes["timeout"] = true
			default:
				c.Expect(st.IsNil(er) == no && reply == tNil, "outcome", "none", at, "%s returns (%s, %s) without having waited", name, reply, er)
			}
		} else {
			c.Bad("request", "entered", at, "%s returns without having entered the request in the table", name)
		}
		k.timeoutOf(w, st, evs, name, at)
	}
	for _, o := range []string{"reply", "closed", "timeout"} {
		c.Expect(outcomes[o], "outcome", "case "+o, c.P.pos(f.Pos()), "%s has no way out for %q", name, o)
	}
	c.Done(w)
}

func isTimerChan(t *Term) bool {
	return t != nil && t.T != nil && strings.HasSuffix(tstr(t.T), "chan time.Time")
}

// blocks: a select that waits
func blocks(in ssa.Instruction) bool {
	sel, ok := in.(*ssa.Select)
	return !ok || sel.Blocking
}

// timeoutOf: the timer of a wait is made of the configured timeout of the transport
func (k *nodeCtx) timeoutOf(w *Walker, st *State, evs []*Event, name, at string) {
	c := k.c
	var tcp *Term
	timer := false
	for _, ev := range evs {
		switch {
		case ev.Kind == "call" && strings.HasSuffix(ev.Name, "factory.Connection).IsTCP"):
			tcp = ev.Res
		case ev.Kind == "call" && (ev.Name == "time.NewTimer" || ev.Name == "time.After"):
			which := isConfigTimeout(k, st, ev.Args[0])
			ok := tcp != nil && (which == "TCP" && st.Truth(tcp) == yes || which == "UDP" && st.Truth(tcp) == no)
			c.Expect(ok, "timeout", name+": value", c.at(ev.Instr), "%s waits for %s (TCP: %v)", name, ev.Args[0], tcp)
			c.Expect(st.Truth(tLt(tInt(0), ev.Args[0], false)) == yes, "timeout", name+": zero", c.at(ev.Instr), "%s sets a timer although the timeout may be zero", name)
			timer = true
		case ev.Kind == "recv" && ev.Select && ev.Addr != k.closq && !isTimerChan(ev.Addr) && !timer && w.Split && blocks(ev.Instr):
			// waits without a limit
			unlimited := false
			for _, t := range factTerms(st) {
				t.any(func(x *Term) bool {
					if which := isConfigTimeout(k, st, x); which != "" && tcp != nil && (which == "TCP") == (st.Truth(tcp) == yes) && st.Truth(tcp) != unknown {
						unlimited = unlimited || st.Truth(tLt(tInt(0), x, false)) == no
					}
					return false
				})
			}
			c.Expect(unlimited, "timeout", name+": none", c.at(ev.Instr), "%s waits without a limit although there is a timeout", name)
		}
	}
}

func (k *nodeCtx) isReqs(m *Term) bool {
	return m != nil && m.Op == "load" && m.Args[0] == k.reqs
}

func nodeErr(n string) *Term { return mk("sentinel", modPath+"/node."+n, nil) }

func (k *nodeCtx) dispatchRule(f, h *ssa.Function) {
	c := k.c
	name := fname(f)
	dec := c.P.Func("node/msg", "Decode")
	w := k.walker()
	op := w.Opaque
	w.Opaque = func(g *ssa.Function) bool { return g == h || op(g) }
	seen := map[string]bool{}
	judge := func(st *State, back bool, er *Term, at string) {
		evs := st.Events()
		var raw *Term
		var frameSrc *Event
		var decE, hand *Event
		var sends []*Event
		var closing bool
		for _, ev := range evs {
			switch {
			case ev.Kind == "recv" && ev.Addr == k.closq:
				closing = true
			case ev.Kind == "recv" && ev.Select:
				frameSrc = ev
			case ev.Kind == "call" && ev.Static == dec:
				decE = ev
			case ev.Kind == "call" && ev.Static == h:
				hand = ev
			case ev.Kind == "send":
				sends = append(sends, ev)
			}
		}
		if closing {
			c.Expect(!back && st.IsNil(er) == yes && hand == nil && len(sends) == 0, "dispatch", "closing", at, "%s does not end without an error when the connection is closed", name)
			seen["closing"] = true
			return
		}
		if decE == nil {
			c.Expect(!back && st.IsNil(er) == no && hand == nil && len(sends) == 0, "dispatch", "no frame", at, "%s goes on after something that is no frame", name)
			seen["broken"] = true
			return
		}
		a := decE.Args[0]
		if a.Op != "slice" {
			c.Bad("dispatch", "data", at, "%s decodes %s", name, a)
			return
		}
		raw = a.Args[0]
		c.Expect(raw.Op == "recv" || frameSrc != nil, "dispatch", "source", at, "%s decodes %s, which was not received", name, raw)
		m := decE.Res.Args[0]
		derr := decE.Res.Args[1]
		if st.IsNil(derr) != yes {
			c.Expect(!back && st.IsNil(er) == no && hand == nil && len(sends) == 0, "dispatch", "undecodable", at, "%s goes on after data that cannot be decoded", name)
			seen["undecodable"] = true
			return
		}
		isNum := func(t *Term, off int64) bool {
			return t != nil && t.Op == "endian" && strings.HasPrefix(t.Aux, "le4/") && sameBytes(t, raw, off)
		}
		// the lookup in the table of requests
		var present tri
		var ch *Term
		for t, v := range st.facts.b {
			if t.Op == "present" && k.isReqs(t.Args[0].Args[0]) && isNum(t.Args[0].Args[1], 4) {
				present = no
				if v {
					present = yes
				}
			}
		}
		for _, ev := range evs {
			if ev.Kind == "send" {
				ch = ev.Addr
			}
		}
		switch present {
		case yes:
			c.Expect(hand == nil, "dispatch", "reply handled", at, "%s handles a message that is the reply to a request", name)
			c.Expect(back && len(sends) <= 1, "dispatch", "reply", at, "%s does not go on after a reply", name)
			if len(sends) == 1 {
				ok := sends[0].Select && sends[0].Val == m && ch.Op == "load" && ch.Args[0].Op == "mapelem" && k.isReqs(ch.Args[0].Args[0]) && isNum(ch.Args[0].Args[1], 4)
				c.Expect(ok, "dispatch", "reply to", c.at(sends[0].Instr), "%s gives %s to %s", name, sends[0].Val, ch)
				sel, _ := sends[0].Instr.(*ssa.Select)
				c.Expect(sel != nil && !sel.Blocking, "dispatch", "blocking", c.at(sends[0].Instr), "%s waits until the reply is taken", name)
				seen["reply"] = true
			}
		case no:
			c.Expect(len(sends) == 0, "dispatch", "no request", at, "%s gives a message nobody waits for to a request", name)
			if c.Expect(hand != nil, "dispatch", "unhandled", at, "%s drops a message that is no reply", name) {
				var s, mm *Term
				for _, a := range hand.Args {
					if a.T != nil && typeName(a.T) == "Msg" {
						mm = a
					} else if a.T != nil && isNumT(a.T) {
						s = a
					}
				}
				c.Expect(mm == m && isNum(s, 0), "dispatch", "handled", c.at(hand.Instr), "%s handles %s with seq %s", name, mm, s)
				herr := hand.Res
				if st.IsNil(herr) == yes {
					c.Expect(back, "dispatch", "goes on", at, "%s ends after a message was handled", name)
					seen["handled"] = true
				} else {
					c.Expect(!back && st.IsNil(er) == no, "dispatch", "handler failed", at, "%s goes on after the handler failed", name)
					seen["failed"] = true
				}
			}
		default:
			c.Bad("dispatch", "lookup", at, "%s does not look for a request waiting for the message (rseq, the second number of the frame)", name)
		}
	}
	w.OnBack = func(g *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
		if g == f {
			judge(st, true, nil, c.P.pos(f.Pos()))
		}
	}
	for _, x := range w.Run(f, append([]*Term{k.self}, w.Params(f)[1:]...), nil, nil) {
		if x.Panic {
			c.Bad("dispatch", "panic", c.at(x.Instr), "%s panics", name)
			continue
		}
		judge(x.St, false, x.Rets[len(x.Rets)-1], c.at(x.Instr))
	}
	for _, s := range []string{"closing", "broken", "undecodable", "reply", "handled", "failed"} {
		c.Expect(seen[s], "dispatch", "case "+s, c.P.pos(f.Pos()), "%s has no way for the case %q", name, s)
	}
	c.Done(w)
}

func isNumT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// sameBytes: a number read from raw at an offset
func sameBytes(t, raw *Term, off int64) bool {
	if t.Args[0] == raw {
		return t.Args[1] == tInt(off)
	}
	a := t.Args[0]
	if a.Op == "slice" && a.Args[0] == raw {
		return tAdd(a.Args[1], t.Args[1]) == tInt(off)
	}
	return false
}

// requests of the protocol: answered by a reply
var requestTypes = map[string]bool{"Sub": true, "RqList": true, "RqObject": true, "RqPreview": true, "RqPeers": true}

func (k *nodeCtx) replyRule(h *ssa.Function) {
	c := k.c
	seq := mk("param", "seq", types.Typ[types.Uint32])
	var args []*Term
	for i, p := range h.Params {
		switch {
		case i == 0:
			args = append(args, k.self)
		case isNumT(p.Type()):
			args = append(args, seq)
		default:
			args = append(args, mk("param", "m", p.Type()))
		}
	}
	w := k.walker()
	seen := map[string]bool{}
	async := map[*ssa.Function]string{}
	check := func(st *State, typ, at string, failed bool) {
		n := 0
		for _, fr := range k.frames(w, st) {
			if fr.rseq == tInt(0) {
				continue
			}
			n++
			c.Expect(fr.rseq == seq, "reply", typ+": to", c.at(fr.ev.Instr), "the reply to %s has the rseq %s", typ, fr.rseq)
			c.Expect(k.fresh(st, fr.seq), "reply", typ+": number", c.at(fr.ev.Instr), "the reply to %s has the seq %s, which is not a number of its own", typ, fr.seq)
		}
		if !requestTypes[typ] {
			c.Expect(n == 0, "reply", typ, at, "%d replies to a message %s, which is no request", n, typ)
			return
		}
		if k.closed(st) || failed {
			c.Expect(n <= 1, "reply", typ, at, "%d replies to one %s", n, typ)
			return
		}
		c.Expect(n == 1, "reply", typ, at, "%d replies to one %s", n, typ)
	}
	for _, x := range w.Run(h, args, nil, nil) {
		if x.Panic {
			continue
		}
		typ := ""
		for t, v := range x.St.facts.b {
			if t.Op == "typeis" && v {
				typ = t.Aux[strings.LastIndex(t.Aux, ".")+1:]
			}
		}
		seen[typ] = true
		spawned := false
		for _, ev := range x.St.Events() {
			if ev.Kind != "go" || ev.Static == nil {
				continue
			}
			for _, a := range ev.Args {
				if a == seq {
					spawned = true
					async[ev.Static] = typ
				}
			}
		}
		if spawned {
			c.Site("reply", typ+": in the background")
			continue
		}
		failed := len(x.Rets) > 0 && x.St.IsNil(x.Rets[len(x.Rets)-1]) == no
		check(x.St, typ, c.at(x.Instr), failed)
	}
	c.Done(w)
	var as []*ssa.Function
	for g := range async {
		as = append(as, g)
	}
	sort.Slice(as, func(i, j int) bool { return fname(as[i]) < fname(as[j]) })
	for _, g := range as {
		var args []*Term
		for _, p := range g.Params {
			switch {
			case types.Identical(deref(p.Type()), k.conn):
				args = append(args, k.self)
			case isNumT(p.Type()):
				args = append(args, seq)
			default:
				args = append(args, mk("param", p.Name(), p.Type()))
			}
		}
		w := k.walker()
		w.Split = true
		for _, x := range w.Run(g, args, nil, nil) {
			if !x.Panic {
				check(x.St, async[g], c.at(x.Instr), false)
				k.timeoutOf(w, x.St, x.St.Events(), fname(g), c.at(x.Instr))
			}
		}
		c.Done(w)
	}
	for t := range requestTypes {
		c.Expect(seen[t], "reply", t+": handled", c.P.pos(h.Pos()), "%s messages are not handled", t)
	}
}
