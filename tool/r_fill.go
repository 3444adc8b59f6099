package main

// Filling: one Root of a head at a time, the newest waiting one next.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("N05", "A head fills one Root after another from the peers that have it",
		"Every round of the loop of a head is enumerated from an arbitrary state of it, per kind of event; requests, callbacks, fillers and what is remembered are compared with the specification. Likewise every path of a request, of running a filler and of the table of known Root objects.", checkN05)
}

type headCtx struct {
	*nodeCtx
	head, fill, known *types.Named
	self              *Term
	rq                *ssa.Function
	w                 *Walker
	seen              map[string]bool
	runners           map[*ssa.Function]bool
	requests          map[*ssa.Function]bool
	broads            map[*ssa.Function]bool
	f, h              *Term // the variable of the loop and its value when a round begins
}

// headRound: a round of the loop of a head
type headRound struct {
	*round
	x    *headCtx
	f, h *Term // the variable of the loop and its value when the round began
	cs   []*Event
	gos  []*Event
}

func (r *headRound) pre(path ...string) *Term  { return r.at0(true, path) }
func (r *headRound) post(path ...string) *Term { return r.at0(false, path) }
func (r *headRound) at0(before bool, path []string) *Term {
	t := types.Type(r.x.fill)
	v, a := r.h, r.f
	for n, p := range path {
		i, ft := fieldIndex(t, p)
		if i < 0 {
			return tNil
		}
		v, a = project(v, p, i, ft), r.x.w.fieldAddr(a, t, i)
		t = ft
		if n < len(path)-1 {
			if _, ok := t.Underlying().(*types.Struct); !ok {
				return tNil
			}
		}
	}
	if before {
		return v
	}
	return r.x.w.load(r.st, a, t)
}

func (r *headRound) bad(rule, what, f string, a ...interface{}) {
	r.x.c.Bad(rule, r.role+": "+what, r.round.at, f, a...)
}

func (r *headRound) expect(ok bool, rule, what, f string, a ...interface{}) bool {
	return r.x.c.Expect(ok, rule, r.role+": "+what, r.round.at, f, a...)
}

// listOp: calls of a method of a list
func (r *headRound) listOp(l *Term, names ...string) (out []*Event) {
	for _, ev := range r.cs {
		for _, n := range names {
			if ev.Name == "(*container/list.List)."+n && ev.Args[0] == l {
				out = append(out, ev)
			}
		}
	}
	return
}

func (r *headRound) pushed(l, v *Term) int {
	n := 0
	for _, ev := range r.listOp(l, "PushBack", "PushFront") {
		if unwrapIface(ev.Args[1]) == v {
			n++
		}
	}
	return n
}

func (r *headRound) pushes(l *Term) int { return len(r.listOp(l, "PushBack", "PushFront")) }

// empty: is a list known to be empty, by the last look
func (r *headRound) empty(l *Term) tri {
	ls := r.listOp(l, "Len")
	if len(ls) == 0 {
		return unknown
	}
	n := ls[len(ls)-1].Res
	if r.st.Eq(n, tInt(0)) || r.st.Truth(tLt(tInt(0), n, false)) == no {
		return yes
	}
	if r.st.Ne(n, tInt(0)) || r.st.Truth(tLt(tInt(0), n, false)) == yes {
		return no
	}
	return unknown
}

func (r *headRound) call(suf string) *Event {
	for _, ev := range r.cs {
		if hasSuffixCall(ev, suf) {
			return ev
		}
	}
	return nil
}

// knownCall: a call of a method of the table of known Root objects
func (r *headRound) knownCall(ok func(f *ssa.Function) bool) *Event {
	for _, ev := range r.cs {
		if ev.Static != nil && ev.Static.Signature.Recv() != nil && types.Identical(ev.Static.Signature.Recv().Type(), r.x.known) && ok(ev.Static) {
			return ev
		}
	}
	return nil
}

func (r *headRound) callbacks(name string) (out []*Event) {
	for _, ev := range r.cs {
		if callback(ev, name) {
			out = append(out, ev)
		}
	}
	return
}

// hasCallback: is the callback configured
func (r *headRound) hasCallback(name string) tri {
	for t, v := range r.st.facts.b {
		if t.Op == "eq" && (t.Args[0] == tNil && isF(t.Args[1], name, nil) || t.Args[1] == tNil && isF(t.Args[0], name, nil)) {
			return triOf(!v)
		}
	}
	return unknown
}

func (x *headCtx) addsKnown(f *ssa.Function) bool {
	return f.Signature.Params().Len() == 2 && f.Signature.Results().Len() == 1
}
func (x *headCtx) removesKnown(f *ssa.Function) bool {
	return f.Signature.Params().Len() == 2 && f.Signature.Results().Len() == 0
}
func (x *headCtx) movesKnown(f *ssa.Function) bool {
	return f.Signature.Params().Len() == 1 && f.Signature.Results().Len() == 0
}
func (x *headCtx) buildsList(f *ssa.Function) bool {
	return f.Signature.Params().Len() == 1 && f.Signature.Results().Len() == 1
}

// reaches: a function from which target is reached
func (x *headCtx) reaches(f *ssa.Function, target func(g *ssa.Function) bool) bool {
	for g := range x.c.P.Reach(f) {
		if target(g) {
			return true
		}
	}
	return false
}

// calls some method of another package
func callsExtern(f *ssa.Function, typ, name string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && g.Name() == name && g.Signature.Recv() != nil && typeName(g.Signature.Recv().Type()) == typ {
					return true
				}
			}
		}
	}
	return false
}

func checkN05(c *Ctx) {
	c.Rule("request", "an object wanted by the filler is requested once, from a connection known to have the Root and not busy, as soon as there is one; without any the filling fails", 4)
	c.Rule("reply", "a request that ended frees its connection or gives its object back; late ones of another filler are ignored", 6)
	c.Rule("root", "a received Root is filled at once, or waits if it is newer than the one being filled and the one waiting; one of the same seq adds a connection", 7)
	c.Rule("callback", "received, filled and broken Root objects are reported, each once, and a rejected one is not filled", 5)
	c.Rule("filler", "a filler is made with its channel of requests, lists, time and goroutine, and the Root is sent on", 6)
	c.Rule("result", "the end of a filling is reported, ends its filler, and starts the one waiting", 5)
	c.Rule("end", "closing, timeouts and the limit of heads end the filler", 4)
	c.Rule("run", "the filler runs once and its result is given to the head unless that is closed", 2)
	c.Rule("ask", "a request ends in a success, a failure with its reason, or with the head", 3)
	c.Rule("known", "the table of known Root objects gives exactly the connections a Root was received from", 4)
	c.Rule("info", "questions are answered from the state of the head", 2)
	k := newNodeCtx(c)
	if k == nil {
		return
	}
	x := &headCtx{nodeCtx: k, head: c.P.Named("node", "nodeHead"), fill: c.P.Named("node", "fillHead"), known: c.P.Named("node", "knownRoots"), rq: k.requester(), seen: map[string]bool{},
		runners: map[*ssa.Function]bool{}, requests: map[*ssa.Function]bool{}, broads: map[*ssa.Function]bool{}}
	if x.head == nil || x.fill == nil || x.known == nil || x.rq == nil {
		c.Anchor("node: nodeHead, fillHead, knownRoots")
		return
	}
	for _, f := range []string{"r", "f", "rq", "ff", "ft", "tc", "tp", "p", "cs", "successq", "failureq", "rqo", "fc", "requesting"} {
		if i, _ := fieldIndex(x.fill, f); i < 0 {
			c.Anchor("node.fillHead." + f)
			return
		}
	}
	loop := c.P.goroutineOf(x.head)
	if loop == nil {
		c.Anchor("node: the loop of a head")
		return
	}
	w := c.P.NewWalker()
	x.w = w
	w.SamePkg = true
	w.AnyRound, w.Loops, w.Split = true, 1, true
	w.MaxStates = 8000
	w.Follow = func(g *ssa.Function, head *ssa.BasicBlock) bool { // loops inside a round, other than over a map
		return (g != loop || len(w.fi(loop).encl[head]) > 1) && !rangesMap(head)
	}
	w.OnEvent = func(st *State, ev *Event) bool {
		return k.events(st, ev) || ev.Kind == "store" || ev.Kind == "copy" || ev.Kind == "rangeend"
	}
	w.Opaque = func(g *ssa.Function) bool {
		if r := g.Signature.Recv(); r != nil && types.Identical(r.Type(), x.known) {
			return true
		}
		return k.opaque(g)
	}
	x.self = mk("param", "n", types.NewPointer(x.head))
	role := func(ev *Event) string {
		t := ev.Addr
		n := fieldOfLoad(t)
		if n == "" && t.Op == "fld" {
			n = strings.TrimPrefix(t.Aux, ".")
		}
		switch n {
		case "rq":
			return "wanted"
		case "successq":
			return "success"
		case "failureq":
			return "failure"
		case "ff":
			return "result"
		case "rrq":
			return "received"
		case "delcq":
			return "connection"
		case "tc":
			return "timeout"
		case "inforq":
			return "info"
		case "errq":
			return "error"
		case "closeq":
			return "close"
		}
		return "?"
	}
	exits := x.rounds(w, loop, x.self, role, func(r *round) { x.judge(r) })
	for _, e := range exits {
		ok := false
		for _, ev := range e.St.Events() {
			if ev.Kind == "recv" {
				rl := role(ev)
				ok = rl == "error" || rl == "close"
				break
			}
		}
		c.Expect(ok, "end", "ends", c.at(e.Instr), "the loop of a head ends without having been closed")
	}
	for _, s := range []string{"request made", "request none", "request busy", "request failed", "reply stale success", "reply stale failure", "reply success", "reply ErrInvalidResponse", "reply ErrClosed", "reply ErrTimeout", "reply other",
		"root old", "root same", "root same known", "root next", "root newer", "root older than waiting", "root filled", "callback rejected", "callback none", "result filled", "result broken", "result next", "result idle", "end timeout", "end closed", "end error", "filler timed", "filler not timed", "info answered"} {
		c.Expect(x.seen[s], strings.Fields(s)[0], "case "+s, c.P.pos(loop.Pos()), "the loop of a head has no way for the case %q", s)
	}
	c.Done(w)
	x.runRules()
	x.askRules()
	x.knownRules()
}

func (x *headCtx) judge(r0 *round) {
	c := x.c
	if r0.role == "" {
		if r0.back {
			c.Bad("request", "round", r0.at, "the loop of a head has a round not started by an event")
		}
		return
	}
	r := &headRound{round: r0, x: x}
	for a, v := range r.st.mem {
		if a.Op == "alloc" && a.T != nil && types.Identical(deref(a.T), x.fill) && v.Op == "havoc" {
			r.f, r.h = a, v
			x.f, x.h = a, v
		}
	}
	if r.f == nil && !r.back { // the state is gone
		r.f, r.h = x.f, x.h
	}
	if r.f == nil {
		c.Bad("request", "state", r.at, "the state of the loop of a head cannot be told")
		return
	}
	for _, ev := range r.rest {
		switch ev.Kind {
		case "call":
			r.cs = append(r.cs, ev)
		case "go":
			r.gos = append(r.gos, ev)
		}
	}
	if r.inner {
		if r.role == "info" {
			r.infoRound()
		}
		return // loops inside a round: dropping of connections
	}
	st := r.st
	for t, v := range st.facts.b { // no list has a nil connection in it
		if v && t.Op == "eq" && t.contains(tNil) && (t.Args[0].Op == "asserted" || t.Args[1].Op == "asserted") && strings.Contains(t.String(), "list.List).Remove") {
			return
		}
	}
	isReq := func(ev *Event) bool {
		if ev.Static == nil || !x.c.P.Reach(ev.Static)[x.rq] {
			return false
		}
		for _, a := range ev.Args {
			if typeName(a.T) == "SHA256" {
				return true
			}
		}
		return false
	}
	// what may happen only in some rounds
	nReq, nFill := 0, 0
	for _, ev := range r.gos {
		if isReq(ev) {
			nReq++
		}
	}
	for _, ev := range r.cs {
		if hasSuffixCall(ev, "Container).Fill") {
			nFill++
		}
	}
	same := func(names ...string) bool {
		for _, n := range names {
			if r.post(n) != r.pre(n) && !st.Eq(r.post(n), r.pre(n)) {
				return false
			}
		}
		return true
	}
	fails := func() (out []*Event) {
		for _, ev := range r.cs {
			if hasSuffixCall(ev, "Filler).Fail") {
				out = append(out, ev)
			}
		}
		return
	}
	val := func(name string) *Term { // a part of what was received
		if _, ok := r.val.T.Underlying().(*types.Struct); !ok {
			return nil
		}
		i, ft := fieldIndex(r.val.T, name)
		if i < 0 {
			return nil
		}
		return project(r.val, name, i, ft)
	}
	noneOf := func(what string) {
		r.expect(nReq == 0 && len(fails()) == 0, "request", what, "%s requests an object or fails", r.role)
	}
	quiet := func(rule, what string) { // nothing changes
		ok := same("f", "rq", "ft", "tc", "rqo", "fc", "requesting") && r.post("r", "r") == r.pre("r", "r") && nFill == 0 && r.pushes(r.pre("rqo")) == 0 && r.pushes(r.pre("fc")) == 0
		r.expect(ok, rule, what, "the filling changes by %s", r.role)
		noneOf(what)
	}
	// tryRequest: the request that has to follow
	try := func(rule string, adjusted *Term) {
		rqo, fc := r.post("rqo"), r.post("fc")
		fl := fails()
		popped := len(r.listOp(rqo, "Remove"))
		if nReq > 0 {
			r.expect(nReq == 1 && popped == 1 && len(fl) == 0, "request", "once", "%d requests are made for %d objects taken", nReq, popped)
			for _, ev := range r.gos {
				if !isReq(ev) {
					continue
				}
				x.requests[ev.Static] = true
				var okC, okK, okF, okS bool
				for _, a := range ev.Args {
					switch typeName(a.T) {
					case "Conn":
						for _, rm := range r.listOp(fc, "Remove") {
							okC = okC || a.contains(rm.Res) && rm.Args[1].Op != "nil"
						}
						r.expect(present(st, func(m *Term) bool { return m == r.post("cs") }, a) == yes, "request", "connection known", "an object is requested from a connection that may not be there any more")
					case "SHA256":
						for _, rm := range r.listOp(rqo, "Remove") {
							okK = okK || a.contains(rm.Res)
						}
					case "Filler":
						okF = a == r.post("f")
					default:
						if isNumT(a.T) {
							okS = a.Op == "load" && isF(a, "Seq", nil) && a.Args[0].Args[0] == r.post("r", "r")
						}
					}
				}
				r.expect(okC, "request", "connection", "an object is requested from a connection that is not a free one")
				r.expect(okK, "request", "object", "an object is requested that is not a wanted one")
				r.expect(okF && okS, "request", "whose", "an object is requested for another filler or Root: %s", ev.Args)
			}
			r.expect(r.post("requesting") == tAdd(adjusted, tInt(1)), "request", "counted", "after a request the number of requests is %s", r.post("requesting"))
			x.seen["request made"] = true
			return
		}
		r.expect(popped == 0, "request", "lost", "a wanted object is taken from the list and not requested")
		r.expect(r.post("requesting") == adjusted, rule, "counted", "the number of requests becomes %s", r.post("requesting"))
		if r.empty(rqo) == yes {
			r.expect(len(fl) == 0, "request", "nothing", "the filling fails although nothing has to be requested")
			x.seen["request none"] = true
			return
		}
		if !r.expect(r.empty(fc) == yes && r.empty(rqo) == no, "request", "made", "an object is not requested although there may be a connection") {
			return
		}
		noReq := tEq(adjusted, tInt(0))
		switch st.Truth(noReq) {
		case yes:
			ok := len(fl) == 1 && fl[0].Args[0] == r.post("f") && fl[0].Args[1] == nodeErr("ErrNoConnectionsToFillFrom") || len(fl) == 0 && st.IsNil(r.post("f")) == yes
			r.expect(ok, "request", "no connections", "the filling does not fail although there is no connection to fill from")
			if len(fl) > 0 {
				x.seen["request failed"] = true
			}
		case no:
			r.expect(len(fl) == 0, "request", "busy", "the filling fails although a request is running")
			x.seen["request busy"] = true
		default:
			r.bad("request", "running", "whether the filling fails does not depend on running requests")
		}
	}
	// created: a filler of a received Root
	created := func(cr *Term, root *Term) {
		fl := r.call("Container).Fill")
		if !r.expect(nFill == 1 && fl != nil, "filler", "made", "no filler is made") {
			return
		}
		unconv := func(t *Term) *Term {
			for t.Op == "conv" || t.Op == "changetype" {
				t = t.Args[0]
			}
			return t
		}
		r.expect(fl.Args[1] == root && r.post("f") == fl.Res, "filler", "of", "the filler is of %s", fl.Args[1])
		r.expect(unconv(fl.Args[2]) == r.post("rq") && fl.Args[2].any(func(t *Term) bool { return t.Op == "makechan" }), "filler", "channel", "the filler wants objects through %s, which is not received from", fl.Args[2])
		r.expect(r.post("r", "r") == root, "filler", "filling", "the filling Root is %s", r.post("r", "r"))
		isNew := func(t *Term) bool {
			return t.Op == "call" && strings.HasPrefix(t.Aux, "list.New") || strings.Contains(t.String(), "list.New")
		}
		r.expect(isNew(r.post("rqo")) && r.pushes(r.post("rqo")) == 0, "filler", "objects", "the list of wanted objects does not begin empty: %s", r.post("rqo"))
		bl := r.knownCall(x.buildsList)
		if r.expect(bl != nil && r.post("fc") == bl.Res, "filler", "connections", "the connections to fill from are %s", r.post("fc")) {
			r.expect(bl.Args[0] == r.post("cs") && isRootField(bl.Args[1], root, "Seq"), "filler", "connections of", "the connections to fill from are the ones that know %s", bl.Args[1])
		}
		var run, bro bool
		for _, ev := range r.gos {
			if ev.Static == nil {
				continue
			}
			if x.reaches(ev.Static, func(g *ssa.Function) bool { return callsExtern(g, "Filler", "Run") }) {
				x.runners[ev.Static] = true
				for _, a := range ev.Args {
					run = run || a == fl.Res
				}
			} else {
				for _, a := range ev.Args {
					if a == cr || a.T != nil && typeName(a.T) == "connRoot" && r.rootOf(a) == root {
						bro = true
						x.broads[ev.Static] = true
					}
				}
			}
		}
		r.expect(run, "filler", "run", "the filler is not run")
		r.expect(bro, "filler", "broadcast", "the Root is not sent on to the other connections")
		tp := r.post("tp")
		okT := false
		for _, ev := range r.cs {
			okT = okT || ev.Name == "time.Now" && ev.Res == tp
		}
		r.expect(okT, "filler", "time", "the begin of the filling is %s", tp)
		var mft *Term
		for _, t := range factTerms(st) {
			t.any(func(y *Term) bool {
				if isF(y, "MaxFillingTime", nil) {
					mft = y
				}
				return false
			})
		}
		nt := r.call("time.NewTimer")
		if nt == nil {
			nt = r.call("time.After")
		}
		if nt != nil {
			mft = nt.Args[0]
		}
		if mft == nil || !isF(mft, "MaxFillingTime", nil) {
			r.bad("filler", "timeout", "the limit of the time of filling is not regarded")
			return
		}
		if st.Truth(tLt(tInt(0), mft, false)) == yes {
			okC := nt != nil && (nt.Name == "time.After" && r.post("tc") == nt.Res || isF(r.post("tc"), "C", nt.Res) && r.post("ft") == nt.Res)
			r.expect(okC, "filler", "limit", "the time of filling is not limited")
			x.seen["filler timed"] = true
		} else {
			r.expect(nt == nil && st.Truth(tLt(tInt(0), mft, false)) == no, "filler", "no limit", "the time of filling is limited although no limit is configured")
			x.seen["filler not timed"] = true
		}
	}
	// ended: the filler of before is closed
	ended := func(rule string) {
		f0 := r.pre("f")
		n := 0
		pos := -1
		for i, ev := range r.rest {
			if hasSuffixCall(ev, "Filler).Close") && ev.Args[0] == f0 {
				n++
				pos = i
			}
		}
		if st.IsNil(f0) == yes {
			return
		}
		r.expect(n >= 1, rule, "filler closed", "the filler is not closed")
		if !r.back {
			// the state is gone
		} else if nFill == 0 {
			r.expect(st.IsNil(r.post("f")) == yes && st.IsNil(r.post("r", "r")) == yes && st.IsNil(r.post("rq")) == yes && r.post("requesting") == tInt(0), rule, "forgotten", "the filler that ended is not forgotten: filler %s, Root %s, channel %s, requests %s", r.post("f"), r.post("r", "r"), r.post("rq"), r.post("requesting"))
			r.expect(st.IsNil(r.post("tc")) == yes, rule, "timer", "the time limit of a filling that ended stays")
		} else {
			r.expect(r.post("requesting") == tInt(0), rule, "requests", "the next filling begins with %s requests", r.post("requesting"))
			for i, ev := range r.rest {
				if hasSuffixCall(ev, "Container).Fill") {
					r.expect(pos < i, rule, "order", "the next filling begins before the one before is closed")
				}
			}
			if r.call("time.NewTimer") == nil {
				r.expect(st.IsNil(r.post("tc")) == yes, rule, "timer", "the time limit of a filling that ended stays for the next one")
			}
		}
		stop := false
		for _, ev := range r.cs {
			stop = stop || ev.Name == "(*time.Timer).Stop" && ev.Args[0] == r.pre("ft")
		}
		r.expect(stop || st.IsNil(r.pre("ft")) == yes, rule, "stopped", "the timer of a filling that ended is not stopped")
	}
	adds := 0
	for _, ev := range r.cs {
		if ev.Name == "(*sync.WaitGroup).Add" && ev.Args[1].Op == "int" {
			adds += int(ev.Args[1].C)
		}
	}
	r.expect(!r.back || adds == len(r.gos)-r.closers(), "filler", "waited for", "%d goroutines are started, %d are waited for", len(r.gos), adds)
	for _, ev := range r.gos {
		if ev.Static != nil && !isReq(ev) && nFill == 0 && !r.closes(ev) {
			r.bad("filler", "goroutine", "%s starts %s", r.role, fname(ev.Static))
		}
	}
	if r.role != "received" {
		r.expect(len(r.callbacks("OnRootReceived")) == 0, "callback", "received", "%s reports a received Root", r.role)
	}
	if r.role != "result" && r.role != "error" {
		r.expect(len(r.callbacks("OnRootFilled"))+len(r.callbacks("OnFillingBreaks")) == 0, "callback", "end", "%s reports the end of a filling", r.role)
	}
	if r.role != "connection" && r.role != "failure" {
		for _, ev := range r.rest {
			r.expect(ev.Kind != "mapdelete" && ev.Kind != "mapupdate" || r.role == "info", "known", "changes", "%s changes the table of known Root objects by itself", r.role)
		}
	}
	switch r.role {
	case "wanted":
		r.expect(r.pushed(r.pre("rqo"), r.val) == 1 && r.pushes(r.pre("rqo")) == 1 && r.pushes(r.pre("fc")) == 0 && same("f", "rqo", "fc", "rq", "tc"), "request", "remembered", "a wanted object is not put on the list of objects")
		try("request", r.pre("requesting"))
	case "success", "failure":
		var cn, fl *Term
		var key *Term
		if s, ok := r.val.T.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				v := project(r.val, s.Field(i).Name(), i, s.Field(i).Type())
				switch typeName(s.Field(i).Type()) {
				case "Conn":
					cn = v
				case "Filler":
					fl = v
				case "SHA256":
					key = v
				}
			}
		}
		if cn == nil || fl == nil {
			r.bad("reply", "whose", "a reply does not say whose it is")
			return
		}
		stale := st.Truth(tEq(fl, r.pre("f"))).not()
		if stale == unknown {
			r.bad("reply", "stale", "the %s of a request of another filler is not told apart", r.role)
			return
		}
		if r.role == "failure" {
			x.failureRules(r, cn, val)
		}
		if stale == yes {
			quiet("reply", "late")
			x.seen["reply stale "+r.role] = true
			return
		}
		less := tAdd(r.pre("requesting"), tInt(-1))
		if r.role == "success" {
			r.expect(r.pushed(r.pre("fc"), cn) == 1 && r.pushes(r.pre("fc")) == 1 && r.pushes(r.pre("rqo")) == 0, "reply", "freed", "the connection of a request that succeeded is not free again")
			x.seen["reply success"] = true
		} else {
			r.expect(r.pushed(r.pre("rqo"), key) == 1 && r.pushes(r.pre("rqo")) == 1 && r.pushes(r.pre("fc")) == 0, "reply", "again", "the object of a request that failed is not wanted again, or its connection is free")
		}
		try("reply", less)
	case "received":
		x.receivedRules(r, val, quiet, try, created, same)
	case "result", "error":
		err := r.val
		pend := r.pre("p", "r")
		if r.role == "error" {
			r.expect(!r.back, "end", "goes on", "the head goes on after it was closed by an error")
			r.expect(nFill == 0, "end", "next", "the head starts a filling although it is being closed")
			if st.IsNil(r.pre("f")) == yes {
				r.expect(len(r.callbacks("OnFillingBreaks")) == 0, "callback", "nothing broke", "a broken filling is reported although there is none")
				x.seen["end error"] = true
				return
			}
			x.seen["end error"] = true
		} else if r.round.back {
			// the next one
			switch st.IsNil(pend) {
			case yes:
				r.expect(nFill == 0, "result", "idle", "a filling starts although no Root waits")
				x.seen["result idle"] = true
			case no:
				created(r.pre("p"), pend)
				r.expect(st.IsNil(r.post("p", "r")) == yes, "result", "next", "the waiting Root still waits although its filling has begun")
				x.seen["result next"] = true
			default:
				// by the whole pair of connection and Root
				if nFill > 0 {
					created(r.pre("p"), pend)
					r.expect(st.IsNil(r.post("p", "r")) == yes, "result", "next", "the waiting Root still waits although its filling has begun")
					r.expect(r.waits(), "result", "next unless", "a filling may start although no Root waits")
					x.seen["result next"] = true
				} else {
					r.expect(r.idle(), "result", "idle unless", "no filling starts although a Root may wait")
					x.seen["result idle"] = true
				}
			}
		} else {
			r.bad("result", "ends", "the head ends with a filling")
		}
		noneOf("requests")
		// reported
		ff, bb := r.callbacks("OnRootFilled"), r.callbacks("OnFillingBreaks")
		root := r.pre("r", "r")
		if st.IsNil(err) == yes {
			r.expect(len(bb) == 0 && (len(ff) == 1 || len(ff) == 0 && r.hasCallback("OnRootFilled") == no), "callback", "filled", "a filled Root is reported %d times, and as broken %d times", len(ff), len(bb))
			for _, ev := range ff {
				r.expect(ev.Args[1] == root, "callback", "filled: which", "%s is reported as filled", ev.Args[1])
			}
			mv := r.knownCall(x.movesKnown)
			if r.expect(mv != nil, "result", "forward", "old Root objects are never forgotten") {
				a := tAdd(mv.Args[1], tInt(-1))
				r.expect(isRootField(a, root, "Seq") || isRootField(mv.Args[1], root, "Seq"), "result", "forward: to", "the Root objects before %s are forgotten", mv.Args[1])
			}
			avg := r.call("statutil.Duration).Add")
			r.expect(avg != nil && r.since(avg.Args[1]), "result", "average", "the average does not get the time of the filling")
			x.seen["result filled"] = true
		} else {
			r.expect(st.IsNil(err) == no || r.role == "error", "result", "success", "the head does not regard whether the filling succeeded")
			r.expect(len(ff) == 0 && (len(bb) == 1 || len(bb) == 0 && r.hasCallback("OnFillingBreaks") == no), "callback", "broken", "a broken filling is reported %d times, and as filled %d times", len(bb), len(ff))
			for _, ev := range bb {
				r.expect(ev.Args[1] == root && ev.Args[2] == err, "callback", "broken: which", "%s is reported as broken by %s", ev.Args[1], ev.Args[2])
			}
			r.expect(r.call("statutil.Duration).Add") == nil && r.knownCall(x.movesKnown) == nil, "result", "broken: counted", "a broken filling counts as a filled one")
			if r.role == "result" {
				x.seen["result broken"] = true
			}
		}
		ended("result")
	case "connection":
		n := 0
		for _, ev := range r.rest {
			if ev.Kind == "mapdelete" {
				n++
				r.expect(ev.Addr == r.pre("cs") && ev.Args[0] == r.val, "known", "removed", "%s is removed from %s", ev.Args[0], ev.Addr)
			}
			r.expect(ev.Kind != "mapupdate", "known", "added", "a connection is added")
		}
		r.expect(n == 1, "known", "connection", "a connection that was removed is still known")
		r.expect(r.post("r", "r") == r.pre("r", "r") && r.post("p", "r") == r.pre("p", "r"), "known", "Root objects", "removing a connection loses a Root")
		quiet("known", "filling")
	case "timeout":
		fl := fails()
		if st.IsNil(r.pre("f")) == yes {
			r.expect(len(fl) == 0, "end", "timeout: none", "a timeout without a filling")
		} else {
			r.expect(len(fl) == 1 && fl[0].Args[0] == r.pre("f") && fl[0].Args[1] == nodeErr("ErrTimeout"), "end", "timeout", "the filling does not fail when its time is over")
			x.seen["end timeout"] = true
		}
		r.expect(r.back && same("f", "rq", "ft", "rqo", "fc", "requesting") && r.post("r", "r") == r.pre("r", "r") && nReq+nFill == 0, "end", "timeout: state", "a timeout changes the filling")
	case "info":
		noneOf("info")
		r.expect(r.post("r", "r") == r.pre("r", "r") && r.post("p", "r") == r.pre("p", "r") && same("f", "rq", "rqo", "fc", "requesting"), "info", "state", "a question changes the filling")
		r.infoAnswer()
	case "close":
		r.expect(!r.back && nFill+nReq == 0, "end", "close", "the head goes on after it was closed")
		if st.IsNil(r.pre("f")) != yes {
			ended("end")
		}
		x.seen["end closed"] = true
	default:
		r.bad("request", "event", "the loop of a head has a round started by %s", r.ev.Addr)
	}
}

// closes: a goroutine that closes a connection
func (r *headRound) closes(ev *Event) bool {
	return ev.Static != nil && ev.Static.Name() == "Close" && types.Identical(deref(ev.Static.Signature.Recv().Type()), r.x.conn)
}

func (r *headRound) closers() (n int) {
	for _, ev := range r.gos {
		if r.closes(ev) {
			n++
		}
	}
	return
}

// rootOf: the Root of a pair of connection and Root
func (r *headRound) rootOf(v *Term) *Term {
	return part(v, v.T, func(t types.Type) bool { return typeName(t) == "Root" })
}

// waits: there is a Root waiting; idle: there is none (told by the pair, which
// is blank, or by its Root)
func (r *headRound) waits() bool { return r.pairBlank() == no }
func (r *headRound) idle() bool  { return r.pairBlank() == yes }
func (r *headRound) pairBlank() tri {
	p := r.pre("p")
	for t, v := range r.st.facts.b {
		if t.Op == "eq" && (t.Args[0] == p || t.Args[1] == p) {
			o := t.Args[0]
			if o == p {
				o = t.Args[1]
			}
			if strings.HasPrefix(o.Op, "zero") {
				return triOf(v)
			}
		}
	}
	return unknown
}

// since: the time since the filling began
func (r *headRound) since(d *Term) bool {
	tp := r.pre("tp")
	for _, ev := range r.cs {
		if ev.Res != d {
			continue
		}
		switch ev.Name {
		case "time.Since":
			return ev.Args[0] == tp
		case "(time.Time).Sub":
			return ev.Args[1] == tp && strings.Contains(ev.Args[0].String(), "time.Now")
		}
	}
	return d.contains(tp) && strings.Contains(d.String(), "time.Now")
}

func (x *headCtx) failureRules(r *headRound, cn *Term, val func(string) *Term) {
	st := r.st
	err := part(r.val, r.val.T, func(t types.Type) bool { return t.String() == "error" })
	if err == nil {
		r.bad("reply", "reason", "a failed request has no reason")
		return
	}
	is := func(n string) tri { return st.Truth(tEq(err, nodeErr(n))) }
	deleted, removed, closed := 0, 0, 0
	for _, ev := range r.rest {
		switch {
		case ev.Kind == "mapdelete":
			r.expect(ev.Addr == r.pre("cs") && ev.Args[0] == cn, "reply", "failed: removes", "%s is removed from %s", ev.Args[0], ev.Addr)
			deleted++
		case ev.Kind == "mapupdate":
			r.bad("reply", "failed: adds", "a failed request adds something")
		case ev.Kind == "call" && r.knownCall(x.removesKnown) == ev:
			seq := val("seq")
			r.expect(ev.Args[1] == cn && ev.Args[2] == seq, "reply", "failed: forgets", "%s of %s is forgotten", ev.Args[2], ev.Args[1])
			removed++
		case (ev.Kind == "go" || ev.Kind == "call") && r.closes(ev):
			r.expect(ev.Kind == "go", "reply", "failed: waits", "the head waits for a connection to be closed")
			r.expect(ev.Args[0] == cn, "reply", "failed: closes", "%s is closed", ev.Args[0])
			closed++
		}
	}
	switch {
	case is("ErrInvalidResponse") == yes:
		r.expect(deleted == 1 && closed == 1, "reply", "invalid", "a connection that replied something invalid is not closed and forgotten")
		x.seen["reply ErrInvalidResponse"] = true
	case is("ErrClosed") == yes:
		r.expect(deleted == 1 && closed == 0, "reply", "closed", "a closed connection is not forgotten")
		x.seen["reply ErrClosed"] = true
	case is("ErrTimeout") == yes:
		r.expect(deleted == 0 && closed == 0 && removed == 1, "reply", "timeout", "a connection that did not reply in time is not forgotten for this Root (removed: %d, forgotten: %d, closed: %d)", deleted, removed, closed)
		x.seen["reply ErrTimeout"] = true
	default:
		known := is("ErrInvalidResponse") == no && is("ErrClosed") == no && is("ErrTimeout") == no
		r.expect(known && closed == 0, "reply", "other", "the reason of a failed request is not regarded, or any failure closes the connection")
		x.seen["reply other"] = true
	}
}

func (x *headCtx) receivedRules(r *headRound, val func(string) *Term, quiet func(rule, what string), try func(rule string, adjusted *Term), created func(cr, root *Term), same func(names ...string) bool) {
	st := r.st
	cn := part(r.val, r.val.T, isNamedT("Conn"))
	rt := part(r.val, r.val.T, isNamedT("Root"))
	cbs := r.callbacks("OnRootReceived")
	for _, ev := range cbs {
		r.expect(len(cbs) == 1 && ev.Args[0] == cn && ev.Args[1] == rt, "callback", "received", "%s from %s is reported, %d times", ev.Args[1], ev.Args[0], len(cbs))
	}
	// accepted: the callback did not reject the Root
	accepted := func() tri {
		if len(cbs) == 0 {
			if r.hasCallback("OnRootReceived") == no {
				r.x.seen["callback none"] = true
				return yes
			}
			return unknown
		}
		return st.IsNil(cbs[0].Res)
	}
	add := r.knownCall(x.addsKnown)
	if add != nil {
		r.expect(add.Args[0] == r.pre("cs") && add.Args[1] == cn && isRootField(add.Args[2], rt, "Seq"), "root", "known", "%s of %s becomes known", add.Args[2], add.Args[1])
	}
	filling := r.pre("r", "r")
	cmp := func(b *Term) (lt, eq tri) { // seq of the Root to the seq of another
		var s, t *Term
		for _, y := range factTerms(st) {
			y.any(func(z *Term) bool {
				if isRootField(z, rt, "Seq") {
					s = z
				}
				if isRootField(z, b, "Seq") {
					t = z
				}
				return false
			})
		}
		if s == nil || t == nil {
			return unknown, unknown
		}
		lt, eq = st.Truth(tLt(s, t, false)), st.Truth(tEq(s, t))
		if st.Truth(tLt(t, s, false)) == yes {
			lt, eq = no, no
		}
		return
	}
	cmpGt := func(b *Term) tri { // is the Root newer than another
		var s, t *Term
		for _, y := range factTerms(st) {
			y.any(func(z *Term) bool {
				if isRootField(z, rt, "Seq") {
					s = z
				}
				if isRootField(z, b, "Seq") {
					t = z
				}
				return false
			})
		}
		if s == nil || t == nil {
			return unknown
		}
		return st.Truth(tLt(t, s, false))
	}
	switch st.IsNil(filling) {
	case yes:
		r.expect(add != nil, "root", "first: known", "a Root received does not become known")
		switch accepted() {
		case yes:
			created(r.val, rt)
			r.expect(same("p"), "root", "first: waiting", "a Root received first waits")
			x.seen["root filled"] = true
		case no:
			quiet("callback", "rejected")
			r.expect(same("p"), "callback", "rejected: waits", "a rejected Root waits")
			x.seen["callback rejected"] = true
		default:
			r.bad("callback", "asked", "a Root is taken without having been reported")
		}
		return
	case unknown:
		r.bad("root", "filling", "a received Root is taken without regard to the one being filled")
		return
	}
	lt, eq := cmp(filling)
	switch {
	case lt == yes:
		quiet("root", "old")
		r.expect(same("p") && len(cbs) == 0, "root", "old: waits", "a Root older than the one being filled waits or is reported")
		x.seen["root old"] = true
	case eq == yes:
		if !r.expect(add != nil && len(cbs) == 0 && same("p"), "root", "same: known", "a Root received from another connection does not become known there, or is reported again") {
			return
		}
		switch st.Truth(add.Res) {
		case no:
			quiet("root", "same: again")
			x.seen["root same known"] = true
		case yes:
			r.expect(r.pushed(r.pre("fc"), cn) == 1 && r.pushes(r.pre("fc")) == 1 && r.pushes(r.pre("rqo")) == 0, "root", "same: fill", "another connection that has the Root is not used")
			try("root", r.pre("requesting"))
			x.seen["root same"] = true
		default:
			r.bad("root", "same: twice", "a connection may be used twice")
		}
	case lt == no && eq == no:
		r.expect(add != nil, "root", "newer: known", "a Root received does not become known")
		quiet("root", "newer: state")
		pend := r.pre("p", "r")
		take := unknown
		switch st.IsNil(pend) {
		case yes:
			take = yes
		case no:
			l, e := cmp(pend)
			if l == yes || e == yes {
				take = no
			} else if l == no && e == no {
				take = yes
			} else if m := cmpGt(pend); m == no { // not newer
				take = no
			} else if m == yes {
				take = yes
			} else if l == no { // not older
				take = no // the same seq again: either will do
				if !same("p") {
					take = yes
				}
			}
		}
		switch take {
		case no:
			r.expect(same("p") && len(cbs) == 0, "root", "newer: not newest", "a Root older than the waiting one is taken")
			x.seen["root older than waiting"] = true
		case yes:
			switch accepted() {
			case yes:
				r.expect(r.post("p", "r") == rt, "root", "newer: waits", "the newest Root does not wait: %s does", r.post("p", "r"))
				if st.IsNil(pend) == yes {
					x.seen["root next"] = true
				} else {
					x.seen["root newer"] = true
				}
			case no:
				r.expect(same("p"), "callback", "rejected: waits", "a rejected Root waits")
			default:
				r.bad("callback", "asked", "a Root is taken without having been reported")
			}
		default:
			r.bad("root", "newer: waiting", "a Root is taken without regard to the waiting one")
		}
	default:
		r.bad("root", "order", "a Root is taken without regard to the seq of the one being filled")
	}
}

// infoRound: a round of copying the table of known Root objects
func (r *headRound) infoRound() {
	in := r.loop
	if in == nil || in.Addr != r.pre("cs") {
		return
	}
	ok := false
	for _, ev := range r.rest {
		if ev.Kind == "mapupdate" && ev.Addr != r.pre("cs") && ev.Args[0] == in.Args[0] {
			for _, e := range r.rest {
				ok = ok || e.Kind == "copy" && e.Args[0] == ev.Val && e.Args[1] == in.Args[1]
			}
			ok = ok || ev.Val.Op == "append" && ev.Val.contains(in.Args[1])
		}
	}
	r.expect(ok, "info", "copied", "the answer shares the table of known Root objects, or leaves some out")
}

func (r *headRound) infoAnswer() {
	var snd *Event
	n := 0
	for _, ev := range r.rest {
		if ev.Kind == "send" {
			snd = ev
			n++
		}
	}
	if n == 0 {
		for _, ev := range r.rest {
			if ev.Kind == "recv" {
				return // closed
			}
		}
		r.bad("info", "answered", "a question is not answered")
		return
	}
	r.expect(n == 1, "info", "once", "a question is answered %d times", n)
	it := deref(snd.Val.T)
	get := func(name string) *Term {
		i, ft := fieldIndex(it, name)
		if i < 0 {
			return tNil
		}
		a := r.x.w.fieldAddr(snd.Val, it, i)
		for n := len(r.rest) - 1; n >= 0; n-- {
			if ev := r.rest[n]; ev.Kind == "store" && ev.Addr == a {
				return ev.Val
			}
		}
		return r.x.w.load(r.st, a, ft)
	}
	for _, q := range [][2]string{{"filling", "r"}, {"pending", "p"}} {
		root := r.pre(q[1], "r")
		has, is := r.st.Truth(get(q[0]+"Root")), r.st.IsNil(root)
		r.expect(has != unknown && has == is.not(), "info", q[0], "the answer says that there is a %s Root: %v", q[0], has)
		if is == no {
			r.expect(isRootField(get(q[0]+"RootSeq"), root, "Seq"), "info", q[0]+" seq", "the answer says that the %s Root is %s", q[0], get(q[0]+"RootSeq"))
		}
	}
	done := false
	for _, ev := range r.ended {
		done = done || ev.Addr == r.pre("cs")
	}
	r.expect(done, "info", "known", "the answer does not have all known Root objects")
	r.x.seen["info answered"] = true
}

// runRules: running a filler, sending a Root on
func (x *headCtx) runRules() {
	c := x.c
	for f := range x.runners {
		w := x.k2()
		ps := w.Params(f)
		var fl *Term
		for _, p := range ps {
			if typeName(p.T) == "Filler" {
				fl = p
			}
		}
		for _, e := range w.Run(f, ps, nil, nil) {
			at := c.at(e.Instr)
			if e.Panic {
				continue
			}
			var run, snd, cl *Event
			runs := 0
			done := false
			for _, ev := range e.St.Events() {
				switch {
				case hasSuffixCall(ev, "Filler).Run"):
					run = ev
					runs++
				case hasSuffixCall(ev, "Filler).Close"):
					cl = ev
				case ev.Kind == "send":
					snd = ev
				case ev.Kind == "recv":
					done = done || fieldOfLoad(ev.Addr) == "closeq"
				case ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Done":
				}
			}
			c.Expect(runs == 1 && run.Args[0] == fl, "run", "once", at, "the filler is run %d times", runs)
			if run == nil {
				continue
			}
			if snd != nil {
				c.Expect(fieldOfLoad(snd.Addr) == "ff" && snd.Val == run.Res, "run", "result", c.at(snd.Instr), "%s is given to %s as the result of the filling", snd.Val, snd.Addr)
				x.seen["run result"] = true
			} else {
				c.Expect(done && cl != nil && cl.Args[0] == fl, "run", "closed", at, "the result of a filling gets lost")
				x.seen["run closed"] = true
			}
			x.doneRule("run", e)
		}
		c.Done(w)
	}
	c.Expect(x.seen["run result"] && x.seen["run closed"], "run", "cases", c.P.pos(x.head.Obj().Pos()), "running a filler has no way to give its result, or to end with the head")
	for f := range x.broads {
		w := x.k2()
		ps := w.Params(f)
		for _, e := range w.Run(f, ps, nil, nil) {
			if e.Panic {
				continue
			}
			snd, cls := 0, false
			for _, ev := range e.St.Events() {
				if ev.Kind == "send" {
					ok := fieldOfLoad(ev.Addr) == "brorq" && typeName(ev.Val.T) == "connRoot"
					for _, p := range ps {
						ok = ok && (typeName(p.T) != "connRoot" || p == ev.Val)
					}
					c.Expect(ok, "filler", "broadcast: what", c.at(ev.Instr), "%s is sent to %s to be sent on", ev.Val, ev.Addr)
					snd++
				}
				cls = cls || ev.Kind == "recv" && fieldOfLoad(ev.Addr) == "closeq"
			}
			c.Expect(snd == 1 || cls && snd == 0, "filler", "broadcast: sent", c.at(e.Instr), "the Root is given %d times to be sent on", snd)
			x.doneRule("filler", e)
		}
		c.Done(w)
	}
}

// k2: a walker of the goroutines of a head
func (x *headCtx) k2() *Walker {
	w := x.c.P.NewWalker()
	w.SamePkg = true
	w.Split = true
	w.AnyRound, w.Loops = true, 1
	w.OnEvent = func(st *State, ev *Event) bool { return x.events(st, ev) || ev.Kind == "store" }
	op := x.opaque
	w.Opaque = func(g *ssa.Function) bool { return g == x.rq || op(g) }
	return w
}

// doneRule: a goroutine that is waited for says that it ended, once
func (x *headCtx) doneRule(rule string, e *Exit) {
	n := 0
	for _, ev := range e.St.Events() {
		if ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Done" {
			n++
		}
	}
	x.c.Expect(n == 1, rule, "done", x.c.at(e.Instr), "a goroutine says %d times that it ended", n)
}

// askRules: the goroutine of a request
func (x *headCtx) askRules() {
	c := x.c
	for f := range x.requests {
		w := x.k2()
		ps := w.Params(f)
		var cn, fl, key *Term
		for _, p := range ps {
			switch typeName(p.T) {
			case "Conn":
				cn = p
			case "Filler":
				fl = p
			case "SHA256":
				key = p
			}
		}
		if cn == nil || fl == nil || key == nil {
			c.Bad("ask", "parameters", c.P.pos(f.Pos()), "%s does not say which object it requests from whom", fname(f))
			continue
		}
		for _, e := range w.Run(f, ps, nil, nil) {
			st, at := e.St, c.at(e.Instr)
			if e.Panic {
				continue
			}
			var ask, set, snd *Event
			asks, closed, fatal := 0, false, false
			for _, ev := range st.Events() {
				switch {
				case ev.Kind == "call" && ev.Static == x.rq:
					ask = ev
					asks++
				case hasSuffixCall(ev, ".SetWanted"):
					set = ev
				case ev.Kind == "send":
					c.Expect(snd == nil, "ask", "once", c.at(ev.Instr), "a request ends twice")
					snd = ev
				case ev.Kind == "recv":
					closed = closed || fieldOfLoad(ev.Addr) == "closeq"
				case ev.Kind == "call" && strings.HasSuffix(ev.Name, "Fatal"):
					fatal = true
				}
			}
			if !c.Expect(asks == 1 && ask.Args[0] == cn, "ask", "asks", at, "an object is requested %d times or from another connection", asks) {
				continue
			}
			x.asks(w, st, ask, "RqObject", "Key", key, "ask", fname(f))
			x.doneRule("ask", e)
			stored := set != nil && st.IsNil(tupleErr(set.Res)) == yes
			if snd == nil {
				c.Expect(closed || fatal && set != nil && !stored, "ask", "ends", at, "a request ends without the head being told")
				continue
			}
			vs := map[string]*Term{}
			if s, ok := snd.Val.T.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					n := typeName(s.Field(i).Type())
					if isNumT(s.Field(i).Type()) {
						n = "seq"
					}
					vs[n] = project(snd.Val, s.Field(i).Name(), i, s.Field(i).Type())
				}
			}
			c.Expect(vs["Conn"] == cn && vs["Filler"] == fl, "ask", "whose", c.at(snd.Instr), "a request ends as the one of %s for %s", vs["Conn"], vs["Filler"])
			rep, rerr := ask.Res.Args[0], ask.Res.Args[1]
			_ = rep
			switch fieldOfLoad(snd.Addr) {
			case "successq":
				c.Expect(st.IsNil(rerr) == yes && stored, "ask", "success", c.at(snd.Instr), "a request succeeds although the object is not in the cache")
				x.seen["ask success"] = true
			case "failureq":
				c.Expect(set == nil || !stored, "ask", "failure", c.at(snd.Instr), "a request fails although the object is in the cache")
				ev := vs["error"]
				for n, v := range vs {
					if v != nil && v.T != nil && v.T.String() == "error" {
						ev = vs[n]
					}
				}
				c.Expect(vs["SHA256"] == key, "ask", "failure: object", c.at(snd.Instr), "the request of %s fails instead", vs["SHA256"])
				for _, p := range ps {
					if isNumT(p.T) {
						c.Expect(vs["seq"] == p, "ask", "failure: seq", c.at(snd.Instr), "the failed request was for the Root %s", vs["seq"])
					}
				}
				if st.IsNil(rerr) == no {
					c.Expect(ev == rerr, "ask", "failure: reason", c.at(snd.Instr), "a request fails by %s", ev)
					x.seen["ask failed"] = true
				} else {
					c.Expect(st.IsNil(rerr) == yes && ev == nodeErr("ErrInvalidResponse"), "ask", "failure: invalid", c.at(snd.Instr), "an invalid reply fails by %s", ev)
					x.seen["ask invalid"] = true
				}
			default:
				c.Bad("ask", "told", c.at(snd.Instr), "the end of a request is sent to %s", snd.Addr)
			}
		}
		c.Done(w)
	}
	for _, s := range []string{"ask success", "ask failed", "ask invalid"} {
		c.Expect(x.seen[s], "ask", "case "+s, c.P.pos(x.head.Obj().Pos()), "a request has no way for the case %q", s)
	}
}

// tupleErr: the error of a result
func tupleErr(t *Term) *Term {
	if t != nil && t.Op == "tuple" {
		return t.Args[len(t.Args)-1]
	}
	return t
}

// knownRules: the table of known Root objects
func (x *headCtx) knownRules() {
	c := x.c
	var ms []*ssa.Function
	for _, f := range c.P.Funcs {
		if f.Synthetic == "" && f.Signature.Recv() != nil && types.Identical(f.Signature.Recv().Type(), x.known) {
			ms = append(ms, f)
		}
	}
	found := map[string]bool{}
	for _, f := range ms {
		w := x.k2()
		w.OnEvent = anyEvent
		ps := w.Params(f)
		tab := ps[0]
		name := f.Name()
		// elems: the elements of the table compared with seq on the path
		known := func(m, key *Term) bool { return m == tab && key != nil }
		_ = known
		switch {
		case x.addsKnown(f):
			found["add"] = true
			cn, seq := ps[1], ps[2]
			old := func(t *Term) bool { m, kk := elemOf(t); return m == tab && kk == cn }
			x.elemLoop(w, f, seq, old, func(e *Exit, el *Term, rel string, ups []*Event) {
				at := c.at(e.Instr)
				ret := e.St.Truth(e.Rets[0])
				if ret == no {
					c.Expect(len(ups) == 0 && rel == "eq", "known", name+": no", at, "%s says that the Root was known without having found it", name)
					x.seen["known again"] = true
					return
				}
				if !c.Expect(ret == yes && len(ups) == 1 && rel != "eq", "known", name+": added", at, "%s adds %d entries", name, len(ups)) {
					return
				}
				c.Expect(ups[0].Addr == tab && ups[0].Args[0] == cn, "known", name+": whose", c.at(ups[0].Instr), "%s changes the entry of %s", name, ups[0].Args[0])
				es, ok := w.SliceElems(e.St, ups[0].Val)
				if !ok {
					c.Bad("known", name+": value", c.at(ups[0].Instr), "%s enters %s", name, ups[0].Val)
					return
				}
				n := 0
				whole := presentIs(e.St, tab, cn) == no
				var cut *Term
				for _, p := range es {
					switch {
					case !p.spread && p.t == seq:
						n++
					case p.spread && old(p.t):
						whole = true
					case p.spread && p.t.Op == "slice" && old(p.t.Args[0]):
						if p.t.Args[1] == tInt(0) {
							cut = p.t.Args[2]
						} else if cut != nil && p.t.Args[1] == cut && p.t.Args[2] == tNone {
							whole = true
						}
					}
				}
				c.Expect(n == 1 && whole, "known", name+": kept", c.at(ups[0].Instr), "%s enters %s", name, ups[0].Val)
				x.seen["known added"] = true
			}, name)
		case x.removesKnown(f):
			found["remove"] = true
			cn, seq := ps[1], ps[2]
			old := func(t *Term) bool { m, kk := elemOf(t); return m == tab && kk == cn }
			x.elemLoop(w, f, seq, old, func(e *Exit, el *Term, rel string, ups []*Event) {
				at := c.at(e.Instr)
				if len(ups) == 0 {
					c.Expect(rel != "eq", "known", name+": kept", at, "%s leaves a Root it found", name)
					return
				}
				c.Expect(len(ups) == 1 && rel == "eq" && ups[0].Addr == tab && ups[0].Args[0] == cn, "known", name+": removed", at, "%s removes something else", name)
				es, ok := w.SliceElems(e.St, ups[0].Val)
				good := ok && len(es) == 2 && es[0].spread && es[1].spread && es[0].t.Op == "slice" && es[1].t.Op == "slice" && old(es[0].t.Args[0]) && old(es[1].t.Args[0])
				if good {
					i := es[0].t.Args[2]
					good = es[0].t.Args[1] == tInt(0) && es[1].t.Args[1] == tAdd(i, tInt(1)) && es[1].t.Args[2] == tNone && el != nil && el.Op == "load" && el.Args[0].Op == "idx" && el.Args[0].Args[1] == i
				}
				c.Expect(good, "known", name+": value", c.at(ups[0].Instr), "%s leaves %s", name, ups[0].Val)
				x.seen["known removed"] = true
			}, name)
		case x.movesKnown(f):
			found["move"] = true
			x.moveRules(w, f, ps, name)
		case x.buildsList(f):
			found["list"] = true
			seq := ps[1]
			judge := func(st *State, head *ssa.BasicBlock, at string) {
				var cur *Event
				for _, ev := range st.Events() {
					if ev.Kind == "range" {
						cur = ev
					}
				}
				if cur == nil {
					return
				}
				push := 0
				for _, ev := range st.Events() {
					if ev.Kind == "call" && (ev.Name == "(*container/list.List).PushBack" || ev.Name == "(*container/list.List).PushFront") && unwrapIface(ev.Args[1]) == cur.Args[0] {
						push++
					}
				}
				eq := unknown
				for _, t := range factTerms(st) {
					t.any(func(y *Term) bool {
						if y.Op == "load" && y.Args[0].Op == "idx" && y.Args[0].Args[0] == cur.Args[1] {
							if v := st.Truth(tEq(y, seq)); v != unknown && eq != yes {
								eq = v
							}
						}
						return false
					})
				}
				if cur.Instr.Block() != head {
					c.Expect(eq == no && push == 0, "known", name+": looks", at, "%s looks on after having found the Root, or does not look", name)
					return
				}
				c.Expect(push == 1 && eq == yes || push == 0 && eq != yes, "known", name+": found", at, "%s takes a connection %d times that has the Root: %v", name, push, eq)
				if push == 1 {
					x.seen["known built"] = true
				}
			}
			w.OnBack = func(g *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
				judge(st, head, c.P.pos(g.Pos()))
			}
			for _, e := range w.Run(f, ps, nil, nil) {
				done := false
				for _, ev := range e.St.Events() {
					done = done || ev.Kind == "rangeend" && ev.Addr == tab
				}
				c.Expect(done && !e.Panic, "known", name+": all", c.at(e.Instr), "%s does not go through all connections", name)
				var nw *Term
				for _, ev := range e.St.Events() {
					if ev.Kind == "call" && ev.Name == "container/list.New" {
						nw = ev.Res
					}
				}
				c.Expect(nw != nil && e.Rets[0] == nw, "known", name+": result", c.at(e.Instr), "%s gives %s", name, e.Rets[0])
			}
			c.Expect(x.seen["known built"], "known", name+": cases", c.P.pos(f.Pos()), "%s never takes a connection", name)
		}
		c.Done(w)
	}
	for _, s := range []string{"add", "remove", "move", "list"} {
		c.Expect(found[s], "known", "method "+s, c.P.pos(x.known.Obj().Pos()), "the table of known Root objects has no method to %s", s)
	}
	for _, s := range []string{"known again", "known added", "known removed"} {
		c.Expect(x.seen[s], "known", "case "+s, c.P.pos(x.known.Obj().Pos()), "there is no way for the case %q", s)
	}
}

func presentIs(st *State, m, key *Term) tri {
	return present(st, func(t *Term) bool { return t == m }, key)
}

// elemLoop: a function looking for seq among the elements of a slice; each
// element passed by must not be seq
func (x *headCtx) elemLoop(w *Walker, f *ssa.Function, seq *Term, old func(*Term) bool, judge func(e *Exit, el *Term, rel string, ups []*Event), name string) {
	c := x.c
	rel := func(st *State) (el *Term, out string) {
		for _, t := range factTerms(st) {
			t.any(func(y *Term) bool {
				if y.Op == "load" && y.Args[0].Op == "idx" && old(y.Args[0].Args[0]) {
					switch {
					case st.Truth(tEq(y, seq)) == yes:
						el, out = y, "eq"
					case out == "":
						switch {
						case st.Truth(tLt(seq, y, false)) == yes:
							el, out = y, "gt"
						case st.Ne(y, seq):
							el, out = y, "ne"
						}
					}
				}
				return false
			})
		}
		return
	}
	w.OnBack = func(g *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
		_, r := rel(st)
		n := 0
		for _, ev := range st.Events() {
			if ev.Kind == "mapupdate" {
				n++
			}
		}
		c.Expect((r == "ne" || r == "gt") && n == 0, "known", name+": passes", c.P.pos(g.Pos()), "%s passes an element that may be the one looked for", name)
	}
	for _, e := range w.Run(f, w.Params(f), nil, nil) {
		if e.Panic {
			c.Bad("known", name+": panic", c.at(e.Instr), "%s panics", name)
			continue
		}
		var ups []*Event
		for _, ev := range e.St.Events() {
			if ev.Kind == "mapupdate" || ev.Kind == "mapdelete" {
				ups = append(ups, ev)
			}
		}
		el, r := rel(e.St)
		judge(e, el, r, ups)
	}
}

// rangesMap: the head of a loop over a map
func rangesMap(head *ssa.BasicBlock) bool {
	for _, in := range head.Instrs {
		if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
			return true
		}
	}
	return false
}

// moveRules: every entry keeps exactly the seqs not less than seq, which are
// passed one by one
func (x *headCtx) moveRules(w *Walker, f *ssa.Function, ps []*Term, name string) {
	c := x.c
	tab, seq := ps[0], ps[1]
	w.Follow = func(g *ssa.Function, head *ssa.BasicBlock) bool { return !rangesMap(head) }
	// at: the position of an element, and the slice it is of
	var at func(t *Term) (*Term, *Term)
	at = func(t *Term) (*Term, *Term) {
		if t.Op == "slice" && t.Args[2] == tNone {
			s, i := at(t.Args[0])
			return s, tAdd(i, t.Args[1])
		}
		return t, tInt(0)
	}
	w.OnBack = func(g *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
		where := c.P.pos(g.Pos())
		var cur, up *Event
		n := 0
		for _, ev := range st.Events() {
			switch ev.Kind {
			case "range":
				cur = ev
			case "mapupdate":
				up = ev
				n++
			}
		}
		if cur == nil || cur.Instr.Block() != head {
			return
		}
		if !c.Expect(n == 1 && up.Addr == tab && up.Args[0] == cur.Args[0], "known", name+": each", where, "%s does not shorten every entry", name) {
			return
		}
		lt := map[*Term]tri{} // by position: is it less than seq
		for _, t := range factTerms(st) {
			t.any(func(y *Term) bool {
				if y.Op == "load" && y.Args[0].Op == "idx" {
					if s, i := at(y.Args[0].Args[0]); s == cur.Args[1] {
						lt[tAdd(i, y.Args[0].Args[1])] = st.Truth(tLt(y, seq, false))
					}
				}
				return false
			})
		}
		s, i := at(up.Val)
		ok := s == cur.Args[1] && i.Op == "int"
		for k := int64(0); ok && k < i.C; k++ {
			ok = lt[tInt(k)] == yes
			x.seen["known passed"] = true
		}
		past := false
		ln := mk("len", "", types.Typ[types.Int], cur.Args[1])
		if ok && lt[i] != no {
			past = st.Truth(tLt(i, ln, false)) == no || st.Eq(ln, i)
			for _, t := range factTerms(st) { // the length of what is left
				t.any(func(y *Term) bool {
					if y.Op == "len" {
						if s, k := at(y.Args[0]); s == cur.Args[1] && k == i {
							past = past || st.Eq(y, tInt(0)) || st.Truth(tLt(tInt(0), y, false)) == no
						}
					}
					return false
				})
			}
		}
		c.Expect(ok && (past || lt[i] == no), "known", name+": kept", where, "%s keeps %s", name, up.Val)
		x.seen["known moved"] = true
	}
	for _, e := range w.Run(f, ps, nil, nil) {
		done := false
		for _, ev := range e.St.Events() {
			done = done || ev.Kind == "rangeend" && ev.Addr == tab
		}
		c.Expect(done && !e.Panic, "known", name+": all", c.at(e.Instr), "%s does not go through all connections", name)
	}
	c.Expect(x.seen["known moved"] && x.seen["known passed"], "known", name+": cases", c.P.pos(f.Pos()), "%s keeps nothing or all", name)
}
