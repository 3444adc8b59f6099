package main

// Data from peers is verified before it is used.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("N03", "data from peers is verified",
		"Every place where an object or a Root received from a peer enters the system is enumerated over the call graph; on every path to it the branch facts have to contain the verification (hash of the object, signature, feed and encoding of the Root), and every exit of the verifying functions is compared with the specification.", checkN03)
}

const sumSHA = "github.com/skycoin/skycoin/src/cipher.SumSHA256"
const verifySig = "github.com/skycoin/skycoin/src/cipher.VerifyPubKeySignedHash"

// hashOf: the path computed the hash of a value and found it equal to key
func hashIs(st *State, val, key *Term) bool {
	if val == nil || key == nil {
		return false
	}
	for _, ev := range st.Events() {
		if ev.Kind == "call" && ev.Name == sumSHA && ev.Args[0] == val && (ev.Res == key || st.Eq(ev.Res, key)) {
			return true
		}
	}
	return false
}

func anyEvent(st *State, ev *Event) bool { return true }

// roots: the functions a call is reached from, up to the ones started as
// goroutines, exported, or called in no static way
func (p *Prog) callRoots(in *ssa.Function) (out []*ssa.Function) {
	seen := map[*ssa.Function]bool{}
	res := map[*ssa.Function]bool{}
	var up func(f *ssa.Function)
	up = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		if f.Parent() != nil {
			up(f.Parent())
			return
		}
		static, top := []*ssa.Function{}, f.Object() != nil && f.Object().Exported() && f.Signature.Recv() == nil
		if f.Object() != nil && f.Object().Exported() && f.Signature.Recv() != nil && exportedName(typeName(f.Signature.Recv().Type())) {
			top = true
		}
		for _, g := range p.Funcs {
			if g.Synthetic != "" {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok || ci.Common().StaticCallee() != f {
						continue
					}
					if _, isGo := in.(*ssa.Go); isGo {
						top = true
					} else {
						static = append(static, g)
					}
				}
			}
		}
		if top || len(static) == 0 {
			res[f] = true
			return
		}
		for _, g := range static {
			up(g)
		}
	}
	up(in)
	for f := range res {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return fname(out[i]) < fname(out[j]) })
	return
}

func exportedName(s string) bool { return s != "" && s[0] >= 'A' && s[0] <= 'Z' }

// callers: functions of the packages holding a call of one of the functions
func (p *Prog) holders(rels []string, target func(f *ssa.Function, cm *ssa.CallCommon) bool) (out []*ssa.Function) {
	for _, f := range p.Funcs {
		q := f
		for q.Parent() != nil {
			q = q.Parent()
		}
		if q.Pkg == nil || f.Synthetic != "" {
			continue
		}
		in := false
		for _, r := range rels {
			in = in || p.rel(q.Pkg) == r
		}
		if !in {
			continue
		}
		has := false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok && target(ci.Common().StaticCallee(), ci.Common()) {
					has = true
				}
			}
		}
		if has {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fname(out[i]) < fname(out[j]) })
	return
}

func checkN03(c *Ctx) {
	c.Rule("root", "a received Root is accepted only if the signature of its bytes is of the feed it is of, with hash and signature set from what was verified and an encoding that gives the same hash", 6)
	c.Rule("fields", "what a Root says about itself and is not signed (hash, signature, full) is not taken from the encoding", 3)
	c.Rule("object", "an object of a peer is used only if its hash is the one requested", 2)
	c.Rule("wanted", "a received object enters the cache only under the hash of its bytes, which is the one requested", 1)
	c.Rule("push", "a pushed Root is handed on only if the node has no newer one, it is verified, is the one announced and is not held already", 2)
	c.Rule("preview", "a Root for preview is verified and of the feed asked for; subscribing follows only the consent of the user", 3)
	c.Rule("missing", "objects are requested from the peer of a preview only if the database does not have them, and kept under the hash requested", 3)
	k := newNodeCtx(c)
	if k == nil {
		return
	}
	k.rootRule()
	k.fieldsRule()
	k.getterRule()
	k.wantedRule()
	k.pushRule()
	k.previewRule()
	k.missingRule()
}

// the methods of the index accepting Root objects
func (k *nodeCtx) acceptors() (recv, prev *ssa.Function) {
	recv = k.c.P.Method("skyobject", "Index", "ReceivedRoot")
	prev = k.c.P.Method("skyobject", "Index", "PreviewRoot")
	if recv == nil || prev == nil {
		k.c.Anchor("skyobject: ReceivedRoot, PreviewRoot of the Index")
	}
	return
}

func (k *nodeCtx) rootRule() {
	c := k.c
	recv, prev := k.acceptors()
	rootT := c.P.Named("skyobject/registry", "Root")
	if recv == nil || prev == nil || rootT == nil {
		return
	}
	// the lookup of a Root: gives a record and an error for a feed, a head and a seq
	isFind := func(g *ssa.Function) bool {
		if g.Pkg == nil || c.P.rel(g.Pkg) != "skyobject" || g.Signature.Recv() == nil {
			return false
		}
		s := g.Signature
		return s.Results().Len() == 2 && s.Params().Len() == 3 && typeName(s.Results().At(0).Type()) == "Root" && tstr(deref(s.Results().At(0).Type())) == modPath+"/data.Root"
	}
	for _, f := range []*ssa.Function{recv, prev} {
		name := fname(f)
		w := c.P.NewWalker()
		w.Opaque, w.Split = isFind, true
		w.OnEvent = anyEvent
		ps := w.Params(f)
		var pk, sig, val *Term
		for _, p := range ps[1:] {
			switch typeName(p.T) {
			case "PubKey":
				pk = p
			case "Sig":
				sig = p
			default:
				val = p
			}
		}
		if pk == nil || sig == nil || val == nil {
			c.Anchor(name + ": feed, signature and value")
			continue
		}
		accepted := false
		for _, x := range w.Run(f, ps, nil, nil) {
			at := c.at(x.Instr)
			if x.Panic {
				c.Bad("root", name+": panic", at, "%s panics", name)
				continue
			}
			st := x.St
			var hash, dec, enc *Term
			var verified, canonical bool
			var find *Event
			for _, ev := range st.Events() {
				if ev.Kind != "call" {
					continue
				}
				switch {
				case ev.Name == sumSHA && ev.Args[0] == val:
					hash = ev.Res
				case ev.Name == verifySig:
					if hash != nil && ev.Args[0] == pk && ev.Args[1] == sig && ev.Args[2] == hash && st.IsNil(ev.Res) == yes {
						verified = true
					}
				case strings.HasSuffix(ev.Name, "encoder.DeserializeRaw") && ev.Args[0] == val && len(ev.Res.Args) == 2 && st.IsNil(ev.Res.Args[1]) == yes:
					dec = strip(unwrapIface(ev.Args[1]))
				case strings.HasSuffix(ev.Name, "encoder.Serialize") && dec != nil && strip(unwrapIface(ev.Args[0])) == dec:
					enc = ev.Res
				case ev.Static != nil && isFind(ev.Static):
					find = ev
				}
			}
			for _, ev := range st.Events() {
				if ev.Kind != "call" || enc == nil {
					continue
				}
				if ev.Name == sumSHA && ev.Args[0] == enc && st.Eq(ev.Res, hash) {
					canonical = true
				}
				if ev.Name == "bytes.Equal" && st.Truth(ev.Res) == yes && (ev.Args[0] == enc && ev.Args[1] == val || ev.Args[1] == enc && ev.Args[0] == val) {
					canonical = true
				}
			}
			r, er := x.Rets[0], x.Rets[1]
			if st.IsNil(er) == no {
				c.Site("root", name+": refused")
				continue
			}
			if find != nil && st.IsNil(er) == unknown && st.Eq(er, find.Res.Args[1]) && st.IsNil(find.Res.Args[1]) == unknown {
				// the error of the lookup is handed on
				c.Bad("root", name+": undecided", at, "%s hands on an error that may be none", name)
			}
			accepted = true
			c.Expect(verified, "root", name+": signature", at, "%s accepts a Root whose signature was not verified with the key of the feed over the hash of the received bytes", name)
			if !c.Expect(dec != nil && r == dec, "root", name+": decoded", at, "%s gives %s, which is not the Root decoded from the received bytes", name, r) {
				continue
			}
			fld := func(n string) *Term {
				i, ft := fieldIndex(rootT, n)
				if i < 0 {
					return nil
				}
				return w.load(st, w.fieldAddr(r, rootT, i), ft)
			}
			c.Expect(st.Eq(fld("Pub"), pk), "root", name+": feed", at, "%s accepts a Root of another feed than the one the signature was verified for", name)
			c.Expect(fld("Hash") == hash, "root", name+": hash", at, "%s gives a Root with the hash %s", name, fld("Hash"))
			c.Expect(fld("Sig") == sig, "root", name+": sig", at, "%s gives a Root with the signature %s", name, fld("Sig"))
			c.Expect(canonical, "root", name+": encoding", at, "%s accepts a Root that gives other bytes, and so another hash, when it is encoded again", name)
			full := false
			for _, ev := range st.Events() {
				if ev.Kind == "store" && ev.Addr.Op == "field" && ev.Addr.Aux == "IsFull" && ev.Addr.Args[0] == r {
					full = st.Truth(ev.Val) != no
				}
			}
			has := find != nil && st.IsNil(find.Res.Args[1]) == yes
			if find != nil {
				a := find.Args
				ok := st.Eq(a[1], fld("Pub")) && st.Eq(a[2], fld("Nonce")) && st.Eq(a[3], fld("Seq"))
				c.Expect(ok, "root", name+": lookup", c.at(find.Instr), "%s looks for another Root than the received one", name)
			}
			c.Expect(full == has, "root", name+": full", at, "%s: marked as full %v, found %v", name, full, has)
			if f == recv {
				c.Expect(find != nil, "root", name+": looked up", at, "%s does not look the Root up", name)
				if find != nil && !has {
					e := find.Res.Args[1]
					ok := st.Eq(e, dataErr("ErrNoSuchHead")) || st.Eq(e, dataErr("ErrNotFound"))
					c.Expect(ok, "root", name+": failure", at, "%s accepts a Root although looking it up failed (only a missing head or Root may be ignored)", name)
				}
			}
		}
		c.Expect(accepted, "root", name+": accepts", c.P.pos(f.Pos()), "%s accepts no Root", name)
		c.Done(w)
	}
}

func dataErr(n string) *Term { return mk("sentinel", modPath+"/data."+n, nil) }

func (k *nodeCtx) fieldsRule() {
	c := k.c
	n := c.P.Named("skyobject/registry", "Root")
	if n == nil {
		c.Anchor("registry.Root")
		return
	}
	s := n.Underlying().(*types.Struct)
	for _, f := range []string{"Hash", "Sig", "IsFull"} {
		i, _ := fieldIndex(n, f)
		if i < 0 {
			c.Anchor("registry.Root." + f)
			continue
		}
		ok := false
		for _, p := range strings.Fields(s.Tag(i)) {
			ok = ok || p == `enc:"-"`
		}
		c.Expect(ok, "fields", f, c.P.pos(s.Field(i).Pos()), "the field %s of a Root is part of its encoding", f)
	}
}

// requestWalker: requests are a step of their own (decided by N02)
func (k *nodeCtx) requestWalker() (*Walker, *ssa.Function) {
	rq := k.requester()
	if rq == nil {
		return nil, nil
	}
	w := k.walker()
	op := w.Opaque
	w.Opaque = func(g *ssa.Function) bool { return g == rq || op(g) || sendsFrames(k, g) }
	w.OnEvent = func(st *State, ev *Event) bool {
		return k.events(st, ev) || ev.Kind == "store" && ev.Addr.Op == "field"
	}
	return w, rq
}

// sendsFrames: a method of a connection that sends and gives at most an error
func sendsFrames(k *nodeCtx, g *ssa.Function) bool {
	if g.Signature.Recv() == nil || !types.Identical(deref(g.Signature.Recv().Type()), k.conn) {
		return false
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if sendsBytes(in) {
				return true
			}
		}
	}
	return false
}

// reply: the message replied to a request on the path, as the given type, and
// the request
func (k *nodeCtx) replied(st *State, rq *ssa.Function) (ev *Event) {
	for _, e := range st.Events() {
		if e.Kind == "call" && e.Static == rq {
			ev = e
		}
	}
	return
}

// msgField: a field of the message type asserted from a reply
func isFieldOf(t *Term, typ, field string, of *Term) bool {
	if t == nil || t.Op != "load" && t.Op != "fieldval" {
		if t == nil {
			return false
		}
	}
	a := t
	if a.Op == "load" {
		a = a.Args[0]
	}
	if a.Op != "field" || a.Aux != field {
		return false
	}
	b := strip(a.Args[0])
	for b.Op == "assert" || b.Op == "unwrap" || b.Op == "typeassert" {
		b = strip(b.Args[0])
	}
	return b == of || b.contains(of)
}

func (k *nodeCtx) getterRule() {
	c := k.c
	iface := c.P.iface("skyobject", "Getter")
	if iface == nil {
		c.Anchor("skyobject.Getter")
		return
	}
	found := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mi, ok := in.(*ssa.MakeInterface)
				if !ok || typeName(mi.Type()) != "Getter" {
					continue
				}
				n, ok := deref(mi.X.Type()).(*types.Named)
				if !ok {
					continue
				}
				if g := c.P.methodOf(n, "Get"); g != nil {
					found[g] = true
				}
			}
		}
	}
	if len(found) == 0 {
		c.Anchor("implementations of skyobject.Getter")
	}
	for g := range found {
		name := fname(g)
		w, rq := k.requestWalker()
		if w == nil {
			return
		}
		ps := w.Params(g)
		key := ps[1]
		gives := false
		for _, x := range w.Run(g, ps, nil, nil) {
			at := c.at(x.Instr)
			if x.Panic {
				c.Bad("object", name+": panic", at, "%s panics", name)
				continue
			}
			st := x.St
			val, er := x.Rets[0], x.Rets[1]
			ev := k.replied(st, rq)
			if st.IsNil(er) == no {
				c.Site("object", name+": refused")
				continue
			}
			if st.IsNil(er) == unknown && ev != nil && er == ev.Res.Args[1] {
				c.Bad("object", name+": undecided", at, "%s may give no value and no error", name)
				continue
			}
			gives = true
			c.Expect(ev != nil && ev.Res != nil && isFieldOf(val, "Object", "Value", ev.Res.Args[0]), "object", name+": value", at, "%s gives %s, which is not the value of the reply", name, val)
			c.Expect(hashIs(st, val, key), "object", name+": hash", at, "%s gives a value of a peer without having compared its hash with the key", name)
			if ev != nil {
				k.asks(w, st, ev, "RqObject", "Key", key, "object", name)
			}
		}
		c.Expect(gives, "object", name+": gives", c.P.pos(g.Pos()), "%s gives no value", name)
		c.Done(w)
	}
}

// asks: the message of a request is of a type, with a field of a value
func (k *nodeCtx) asks(w *Walker, st *State, ev *Event, typ, field string, want *Term, rule, name string) {
	c := k.c
	m := strip(unwrapIface(ev.Args[1]))
	n := c.P.Named("node/msg", typ)
	if n == nil {
		c.Anchor("msg." + typ)
		return
	}
	if !c.Expect(m.T != nil && typeName(m.T) == typ, rule, name+": request", c.at(ev.Instr), "%s sends %s instead of %s", name, m, typ) {
		return
	}
	i, ft := fieldIndex(n, field)
	if i < 0 {
		c.Anchor("msg." + typ + "." + field)
		return
	}
	got := (*Term)(nil)
	for _, e := range st.Events() {
		if e == ev {
			break
		}
		if e.Kind == "store" && e.Addr.Op == "field" && e.Addr.Aux == field && e.Addr.Args[0] == m {
			got = e.Val
		}
	}
	if got == nil {
		got = w.load(st, w.fieldAddr(m, n, i), ft)
	}
	c.Expect(got == want || st.Eq(got, want), rule, name+": requested", c.at(ev.Instr), "%s asks for %s", name, got)
}

func (k *nodeCtx) wantedRule() {
	c := k.c
	set := c.P.Method("skyobject", "Cache", "SetWanted")
	if set == nil {
		c.Anchor("skyobject.Cache.SetWanted")
		return
	}
	isSet := func(ev *Event) bool {
		return ev.Kind == "call" && (ev.Static == set || strings.HasSuffix(ev.Name, ".SetWanted"))
	}
	hs := c.P.holders([]string{"node"}, func(f *ssa.Function, cm *ssa.CallCommon) bool {
		return f == set || f != nil && f.Synthetic != "" && f.Name() == "SetWanted" || cm.IsInvoke() && cm.Method.Name() == "SetWanted"
	})
	if len(hs) == 0 {
		c.Anchor("node: calls of SetWanted")
	}
	done := map[*ssa.Function]bool{}
	for _, h := range hs {
		for _, root := range c.P.callRoots(h) {
			if done[root] {
				continue
			}
			done[root] = true
			w, rq := k.requestWalker()
			if w == nil {
				return
			}
			name := fname(root)
			sets := false
			for _, x := range w.Run(root, w.Params(root), nil, nil) {
				st := x.St
				n := 0
				for i, ev := range st.Events() {
					if !isSet(ev) {
						continue
					}
					sets = true
					n++
					key, val := ev.Args[1], ev.Args[2]
					at := c.at(ev.Instr)
					c.Expect(hashIs(st, val, key), "wanted", name+": hash", at, "%s puts an object of a peer into the cache without having compared the hash of its bytes with its key", name)
					rp := (*Event)(nil)
					for _, e := range st.Events()[:i] {
						if e.Kind == "call" && e.Static == rq {
							rp = e
						}
					}
					if rp != nil {
						k.asks(w, st, rp, "RqObject", "Key", key, "wanted", name)
						c.Expect(st.IsNil(rp.Res.Args[1]) == yes && isFieldOf(val, "Object", "Value", rp.Res.Args[0]), "wanted", name+": value", at, "%s puts %s, not the value of the reply, into the cache", name, val)
					} else {
						c.Bad("wanted", name+": reply", at, "%s puts %s into the cache without having requested it", name, val)
					}
				}
				c.Expect(n <= 1, "wanted", name+": once", c.at(x.Instr), "%s puts an object into the cache %d times", name, n)
			}
			c.Expect(sets, "wanted", name+": puts", c.P.pos(root.Pos()), "%s puts no object into the cache on any path", name)
			c.Done(w)
		}
	}
}

// pushRule: what happens with a pushed Root
func (k *nodeCtx) pushRule() {
	c := k.c
	h := k.handler()
	recv, _ := k.acceptors()
	if h == nil || recv == nil {
		return
	}
	rootN := c.P.Named("skyobject/registry", "Root")
	w := k.walker()
	op := w.Opaque
	w.Opaque = func(g *ssa.Function) bool { return op(g) || sendsFrames(k, g) }
	w.Split = true
	ps := w.Params(h)
	isPush := func(ev *Event) bool {
		if ev.Kind != "call" || ev.Static == nil || ev.Static.Signature.Recv() == nil || typeName(ev.Static.Signature.Recv().Type()) != "nodeFeeds" {
			return false
		}
		for _, a := range ev.Args {
			if a.T != nil && types.Identical(deref(a.T), rootN) {
				return true
			}
		}
		return false
	}
	isRecv := func(ev *Event) bool {
		return ev.Kind == "call" && (ev.Static == recv || strings.HasSuffix(ev.Name, ".ReceivedRoot"))
	}
	isLast := func(ev *Event) bool { return ev.Kind == "call" && strings.HasSuffix(ev.Name, ".LastRootSeq") }
	pushes, skips := 0, 0
	for _, x := range w.Run(h, ps, nil, nil) {
		if x.Panic {
			continue
		}
		st, at := x.St, c.at(x.Instr)
		var rec, last, push *Event
		isRoot := false
		for t, v := range st.facts.b {
			if t.Op == "typeis" && v && strings.HasSuffix(t.Aux, ".Root") {
				isRoot = true
			}
		}
		for _, ev := range st.Events() {
			switch {
			case isRecv(ev):
				rec = ev
			case isLast(ev):
				last = ev
			case isPush(ev):
				c.Expect(push == nil, "push", "once", c.at(ev.Instr), "a pushed Root is handed on twice")
				push = ev
			}
		}
		if !isRoot {
			c.Expect(push == nil, "push", "other", at, "a message that is no Root is handed on as a Root")
			continue
		}
		m := (*Term)(nil)
		for _, p := range ps {
			if p.T != nil && typeName(p.T) == "Msg" {
				m = p
			}
		}
		fl := func(t *Term, f string) bool { return isFieldOf(t, "Root", f, m) }
		fieldv := func(f string) *Term { // the term of a field, as used on the path
			var out *Term
			for _, ev := range st.Events() {
				for _, a := range ev.Args {
					if fl(a, f) {
						out = a
					}
				}
			}
			return out
		}
		if rec != nil {
			a := rec.Args
			c.Expect(fl(a[1], "Feed") && fl(a[2], "Sig") && fl(a[3], "Value"), "push", "verified", c.at(rec.Instr), "the Root of the message is not what is verified: %s, %s, %s", a[1], a[2], a[3])
		}
		stale := false
		if last != nil {
			e := last.Res.Args[1]
			if st.Eq(e, dataErr("ErrNoSuchFeed")) {
				stale = true
			}
			if st.facts != nil {
				for t, v := range st.facts.b {
					_ = t
					_ = v
				}
			}
			if seq := rootSeqOf(w, st, m, fl); seq != nil && st.Truth(tLt(last.Res.Args[0], seq, false)) == no && st.Ne(e, dataErr("ErrNotFound")) && st.Ne(e, dataErr("ErrNoSuchHead")) {
				stale = true
			}
		}
		if push == nil {
			skips++
			if rec == nil {
				c.Expect(stale, "push", "dropped", at, "a pushed Root is dropped unverified although it is newer than the last one of a feed the node has")
				continue
			}
			// dropped after verification: an error, another Root, or held already
			e := rec.Res.Args[1]
			r := rec.Res.Args[0]
			if st.IsNil(e) == no {
				continue
			}
			same := rootSame(w, st, r, rootN, fl)
			full := rootFull(w, st, r, rootN)
			c.Expect(same == no || full == yes, "push", "refused", at, "a verified Root the node does not have is dropped")
			continue
		}
		pushes++
		pat := c.at(push.Instr)
		var r, cn *Term
		for _, a := range push.Args[1:] {
			if a.T != nil && types.Identical(deref(a.T), rootN) {
				r = a
			} else if a.T != nil && types.Identical(deref(a.T), k.conn) {
				cn = a
			}
		}
		if !c.Expect(rec != nil && rec.Res.Args[0] == r && st.IsNil(rec.Res.Args[1]) == yes, "push", "unverified", pat, "a Root is handed on that was not verified") {
			continue
		}
		c.Expect(cn == ps[0], "push", "connection", pat, "the Root is handed on as received from %s", cn)
		c.Expect(rootSame(w, st, r, rootN, fl) == yes, "push", "announced", pat, "a Root is handed on that may differ from the announced head and seq, which the check for newer ones was about")
		c.Expect(rootFull(w, st, r, rootN) == no, "push", "held", pat, "a Root is handed on that the node may have already")
		c.Expect(last != nil && !stale, "push", "stale", pat, "a Root is handed on without having compared it with the last one")
		if last != nil {
			a := last.Args
			c.Expect(fl(a[1], "Feed") && fl(a[2], "Nonce"), "push", "last", c.at(last.Instr), "the Root is compared with the last one of another feed or head")
			e := last.Res.Args[1]
			newer := st.Eq(e, dataErr("ErrNotFound")) || st.Eq(e, dataErr("ErrNoSuchHead"))
			if seq := rootSeqOf(w, st, m, fl); seq != nil && st.Truth(tLt(last.Res.Args[0], seq, false)) == yes {
				newer = true
			}
			c.Expect(newer, "push", "older", pat, "a Root is handed on that may be older than the last one")
		}
		_ = fieldv
	}
	c.Expect(pushes > 0, "push", "handed on", c.P.pos(h.Pos()), "no pushed Root is handed on")
	c.Expect(skips > 0, "push", "skipped", c.P.pos(h.Pos()), "no pushed Root is dropped")
	c.Done(w)
}

// rootSeqOf: the term of the seq of a message, from the facts of the path
func rootSeqOf(w *Walker, st *State, m *Term, fl func(*Term, string) bool) (seq *Term) {
	find := func(t *Term) {
		t.any(func(x *Term) bool {
			if seq == nil && x.Op == "load" && fl(x, "Seq") {
				seq = x
			}
			return false
		})
	}
	for t := range st.facts.b {
		find(t)
	}
	for t := range st.facts.iv {
		find(t)
	}
	return
}

func rootSame(w *Walker, st *State, r *Term, n *types.Named, fl func(*Term, string) bool) tri {
	out := yes
	for _, f := range []string{"Nonce", "Seq"} {
		i, ft := fieldIndex(n, f)
		if i < 0 {
			return unknown
		}
		v := w.load(st, w.fieldAddr(r, n, i), ft)
		res := unknown
		// a comparison with the field of the message is among the facts
		for _, t := range factTerms(st) {
			t.any(func(x *Term) bool {
				if x.Op == "load" && fl(x, f) && x != v {
					if e := st.Truth(tEq(x, v)); e != unknown {
						res = e
					}
				}
				return false
			})
		}
		switch res {
		case no:
			return no
		case unknown:
			out = unknown
		}
	}
	return out
}

func factTerms(st *State) (out []*Term) {
	for t := range st.facts.b {
		out = append(out, t)
	}
	for t := range st.facts.iv {
		out = append(out, t)
	}
	for _, ev := range st.Events() {
		out = append(out, ev.Args...)
	}
	return
}

func rootFull(w *Walker, st *State, r *Term, n *types.Named) tri {
	i, ft := fieldIndex(n, "IsFull")
	if i < 0 {
		return unknown
	}
	return st.Truth(w.load(st, w.fieldAddr(r, n, i), ft))
}

func (k *nodeCtx) previewRule() {
	c := k.c
	f := c.P.Method("node", "Conn", "Preview")
	_, prev := k.acceptors()
	if f == nil || prev == nil {
		c.Anchor("node.Conn.Preview")
		return
	}
	name := fname(f)
	w, rq := k.requestWalker()
	if w == nil {
		return
	}
	sub := c.P.Method("node", "Conn", "Subscribe")
	op := w.Opaque
	w.Opaque = func(g *ssa.Function) bool { return g == sub || op(g) }
	ps := w.Params(f)
	feed, fn := ps[1], ps[2]
	seen := map[string]bool{}
	for _, x := range w.Run(f, ps, nil, nil) {
		st, at := x.St, c.at(x.Instr)
		if x.Panic {
			c.Bad("preview", "panic", at, "%s panics", name)
			continue
		}
		er := x.Rets[0]
		var rp, ver, pack, call, subs *Event
		for _, ev := range st.Events() {
			if ev.Kind != "call" {
				continue
			}
			switch {
			case ev.Static == rq:
				rp = ev
			case ev.Static == prev || strings.HasSuffix(ev.Name, ".PreviewRoot"):
				ver = ev
			case strings.HasSuffix(ev.Name, "Container).Preview"):
				pack = ev
			case ev.Name == "dyn" && ev.Addr == fn:
				c.Expect(call == nil, "preview", "once", c.at(ev.Instr), "%s calls the function of the user twice", name)
				call = ev
			case ev.Static == sub:
				subs = ev
			}
		}
		if rp == nil {
			c.Bad("preview", "request", at, "%s returns without having asked the peer", name)
			continue
		}
		k.asks(w, st, rp, "RqPreview", "Feed", feed, "preview", name)
		if call == nil {
			c.Expect(st.IsNil(er) == no && subs == nil, "preview", "no error", at, "%s ends without an error and without having called the function of the user", name)
			seen["failed"] = true
			continue
		}
		cat := c.at(call.Instr)
		if c.Expect(ver != nil && st.IsNil(ver.Res.Args[1]) == yes && st.IsNil(rp.Res.Args[1]) == yes, "preview", "verified", cat, "%s shows a Root that was not verified", name) {
			a := ver.Args
			m := rp.Res.Args[0]
			c.Expect(isFieldOf(a[2], "Root", "Sig", m) && isFieldOf(a[3], "Root", "Value", m), "preview", "verified value", c.at(ver.Instr), "%s verifies %s with the signature %s instead of the reply", name, a[3], a[2])
			c.Expect(st.Eq(a[1], feed), "preview", "feed", cat, "%s shows a Root of a feed that may be another than the one asked for", name)
			c.Expect(call.Args[1] == ver.Res.Args[0], "preview", "shown", cat, "%s shows %s", name, call.Args[1])
		}
		if c.Expect(pack != nil && st.IsNil(pack.Res.Args[1]) == yes, "preview", "pack", cat, "%s shows the Root without objects", name) {
			c.Expect(unwrapIface(call.Args[0]) == pack.Res.Args[0] && pack.Args[1] == call.Args[1], "preview", "pack of", cat, "%s shows the Root with the pack %s", name, call.Args[0])
		}
		switch st.Truth(call.Res) {
		case yes:
			if c.Expect(subs != nil, "preview", "subscribes", at, "%s does not subscribe although the user agreed", name) {
				c.Expect(subs.Args[0] == ps[0] && subs.Args[1] == feed && er == subs.Res, "preview", "subscribes to", c.at(subs.Instr), "%s subscribes to %s and gives %s", name, subs.Args[1], er)
			}
			seen["yes"] = true
		case no:
			c.Expect(subs == nil && st.IsNil(er) == yes, "preview", "declined", at, "%s subscribes or fails although the user declined", name)
			seen["no"] = true
		default:
			c.Bad("preview", "consent", at, "%s does not regard the answer of the user", name)
		}
	}
	for _, s := range []string{"failed", "yes", "no"} {
		c.Expect(seen[s], "preview", "case "+s, c.P.pos(f.Pos()), "%s has no way for the case %q", name, s)
	}
	c.Done(w)
}

// missingRule: the pack of a preview
func (k *nodeCtx) missingRule() {
	c := k.c
	get := c.P.Method("skyobject", "Preview", "Get")
	mkp := c.P.Method("skyobject", "Container", "Preview")
	if get == nil || mkp == nil {
		c.Anchor("skyobject: Preview.Get, Container.Preview")
		return
	}
	opaque := func(g *ssa.Function) bool {
		r := g.Signature.Recv()
		return r != nil && (typeName(r.Type()) == "Cache" || typeName(r.Type()) == "Pack") || r == nil && strings.HasPrefix(g.Name(), "Decode")
	}
	isGetter := func(ev *Event) bool {
		return ev.Kind == "call" && strings.HasPrefix(ev.Name, "iface:") && strings.HasSuffix(ev.Name, "Getter.Get")
	}
	isLocal := func(ev *Event) bool {
		return ev.Kind == "call" && ev.Static != nil && (strings.HasSuffix(ev.Name, "Pack).Get") || strings.HasSuffix(ev.Name, "Cache).Get") || strings.HasSuffix(ev.Name, "Cache).Registry") ||
			strings.HasSuffix(ev.Name, "Container).Registry") || strings.HasSuffix(ev.Name, "Container).Get"))
	}
	errRes := func(ev *Event) *Term { return ev.Res.Args[len(ev.Res.Args)-1] }
	{
		w := c.P.NewWalker()
		w.Opaque, w.Split = opaque, true
		w.OnEvent = anyEvent
		ps := w.Params(get)
		key := ps[1]
		name := fname(get)
		asked := false
		for _, x := range w.Run(get, ps, nil, nil) {
			st, at := x.St, c.at(x.Instr)
			if x.Panic {
				continue
			}
			var loc, rem, upd *Event
			for _, ev := range st.Events() {
				switch {
				case isLocal(ev):
					loc = ev
				case isGetter(ev):
					c.Expect(rem == nil, "missing", "once", c.at(ev.Instr), "%s asks the peer twice", name)
					rem = ev
					asked = true
					c.Expect(ev.Args[1] == key, "missing", "asked", c.at(ev.Instr), "%s asks for %s", name, ev.Args[1])
					c.Expect(loc != nil && loc.Args[1] == key && st.Eq(errRes(loc), dataErr("ErrNotFound")), "missing", "only missing", c.at(ev.Instr), "%s asks the peer although the database may have the object", name)
				case ev.Kind == "mapupdate":
					upd = ev
					c.Expect(rem != nil && ev.Args[0] == key && ev.Val == rem.Res.Args[0] && st.IsNil(errRes(rem)) == yes, "missing", "kept", c.at(ev.Instr), "%s keeps %s under %s", name, ev.Val, ev.Args[0])
				}
			}
			val, er := x.Rets[0], x.Rets[1]
			switch {
			case rem != nil:
				ok := er == errRes(rem) || st.IsNil(er) == yes && st.IsNil(errRes(rem)) == yes || st.IsNil(er) == no && st.IsNil(errRes(rem)) == no
				c.Expect(ok && (st.IsNil(er) != yes || val == rem.Res.Args[0]), "missing", "remote", at, "%s gives (%s, %s) for what the peer gave", name, val, er)
			case loc != nil:
				if st.IsNil(er) == unknown && er == errRes(loc) && st.Ne(er, dataErr("ErrNotFound")) {
					c.Expect(val == loc.Res.Args[0], "missing", "local", at, "%s gives %s", name, val)
				} else if st.IsNil(er) == yes {
					c.Expect(val == loc.Res.Args[0] && st.IsNil(errRes(loc)) == yes, "missing", "local", at, "%s gives %s", name, val)
				} else {
					c.Expect(er == errRes(loc) && st.IsNil(er) == no && st.Ne(er, dataErr("ErrNotFound")), "missing", "not asked", at, "%s fails without having asked the peer for a missing object", name)
				}
			default:
				c.Expect(st.IsNil(er) == yes && isMapOf(val, key), "missing", "held", at, "%s gives (%s, %s) without having looked", name, val, er)
			}
			_ = upd
		}
		c.Expect(asked, "missing", "asks", c.P.pos(get.Pos()), "%s never asks the peer", name)
		c.Done(w)
	}
	{
		w := c.P.NewWalker()
		w.Opaque, w.Split = opaque, true
		w.OnEvent = anyEvent
		ps := w.Params(mkp)
		name := fname(mkp)
		asked := false
		for _, x := range w.Run(mkp, ps, nil, nil) {
			st, at := x.St, c.at(x.Instr)
			if x.Panic {
				continue
			}
			var loc, rem *Event
			var dec *Term
			for _, ev := range st.Events() {
				switch {
				case isLocal(ev):
					loc = ev
				case isGetter(ev):
					rem = ev
					asked = true
					c.Expect(loc != nil && st.Eq(errRes(loc), dataErr("ErrNotFound")), "missing", "registry: only missing", c.at(ev.Instr), "%s asks the peer although the database may have the registry", name)
					c.Expect(loc != nil && strip(ev.Args[1]) == strip(loc.Args[1]), "missing", "registry: asked", c.at(ev.Instr), "%s asks for %s", name, ev.Args[1])
				case ev.Kind == "call" && strings.HasSuffix(ev.Name, ".DecodeRegistry"):
					dec = ev.Res
					c.Expect(rem != nil && ev.Args[0] == rem.Res.Args[0] && st.IsNil(errRes(rem)) == yes, "missing", "registry: decoded", c.at(ev.Instr), "%s decodes %s as the registry", name, ev.Args[0])
				}
			}
			er := x.Rets[1]
			if st.IsNil(er) != yes {
				c.Expect(st.IsNil(er) == no, "missing", "registry: undecided", at, "%s gives an error that may be none", name)
				continue
			}
			ok := loc != nil && st.IsNil(errRes(loc)) == yes || dec != nil && st.IsNil(dec.Args[1]) == yes
			c.Expect(ok, "missing", "registry: held", at, "%s ends without a registry and without an error", name)
		}
		c.Expect(asked, "missing", "registry: asks", c.P.pos(mkp.Pos()), "%s never asks the peer", name)
		c.Done(w)
	}
}

// isMapOf: a value looked up under the key
func isMapOf(t, key *Term) bool {
	for t != nil && (t.Op == "load" || t.Op == "lookup") {
		if t.Op == "lookup" {
			return true
		}
		t = t.Args[0]
	}
	return t != nil && t.Op == "mapelem" && t.Args[1] == key
}
