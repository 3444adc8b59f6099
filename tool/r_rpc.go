package main

// RPC: what is served, and what the client of it calls.

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("N07", "Each RPC method does what the method of the node does",
		"The registration, every method of the client and every method served are run on arbitrary arguments and outcomes; names, types, arguments and results of both sides are compared, and each method served with the operation of the node it stands for.", checkN07)
}

type rpcCtx struct {
	c     *Ctx
	svc   map[string]*types.Named // name registered -> type
	impl  map[*types.Named]bool
	back  map[*types.Named]string // field with the node
	fNode string                  // node of the server
}

func checkN07(c *Ctx) {
	c.Rule("served", "The methods are registered for the node before connections are accepted; failing to listen is an error.", 5)
	c.Rule("calls", "Each method of the client calls the method of the same name that is served, with its arguments and a reply of the types of it, and returns the reply and the error.", 20)
	c.Rule("does", "Each method served does the operation of the node with the arguments given, replies with its result and returns its error; without a transport or a connection it fails, it does not panic.", 20)
	c.Rule("encodable", "Arguments and replies can be encoded: no type without exported fields, no interface that is set.", 15)
	c.Rule("lists", "Connections are listed completely, one string for each.", 2)
	k := &rpcCtx{c: c, svc: map[string]*types.Named{}, impl: map[*types.Named]bool{}, back: map[*types.Named]string{}}
	if !k.served() {
		return
	}
	k.client()
	k.methods()
}

func (k *rpcCtx) walker() *Walker {
	w := k.c.P.NewWalker()
	w.SamePkg, w.Split, w.AnyRound, w.Loops, w.MaxStates = true, true, true, 1, 3000
	w.OnEvent = anyEvent
	return w
}

// served: registration
func (k *rpcCtx) served() bool {
	c := k.c
	srv := c.P.Named("node", "rpcServer")
	var f *ssa.Function
	if srv != nil {
		var cand []*ssa.Function
		for _, g := range c.P.Funcs {
			if r := g.Signature.Recv(); r != nil && typeName(deref(r.Type())) == srv.Obj().Name() && reachesName(g, "net.Listen") && registers(g) {
				cand = append(cand, g)
			}
		}
		for _, g := range cand {
			top := true
			for _, h := range cand {
				top = top && (h == g || !callsDirectly(h, g))
			}
			if top {
				f = g
			}
		}
	}
	if f == nil || srv == nil {
		c.Anchor("the method that registers RPC methods and listens")
		return false
	}
	k.fNode = fieldBy(srv, func(t types.Type) bool { return typeName(deref(t)) == "Node" })
	w := k.walker()
	ps := w.Params(f)
	name, at := fname(f), c.P.pos(f.Pos())
	ok, bad := false, false
	w.OnEvent = func(st *State, ev *Event) bool {
		if ev.Kind != "call" || !strings.HasSuffix(ev.Name, "rpc.Server).RegisterName") && !strings.HasSuffix(ev.Name, "rpc.Server).Register") {
			return true
		}
		v := unwrapIface(argEnd(ev, 1))
		n, _ := types.Unalias(deref0(v.T)).(*types.Named)
		if n == nil {
			return true
		}
		k.back[n] = fieldBy(n, func(t types.Type) bool { return typeName(deref0(t)) == "Node" })
		if i, ft := fieldIndex(n, k.back[n]); c.Expect(i >= 0, "served", "node", at, "%s has no node", n.Obj().Name()) {
			nd := canon(w.load(st, w.fieldAddr(v, n, i), ft))
			c.Expect(isF(nd, k.fNode, ps[0]), "served", "node: "+n.Obj().Name(), at, "%s is served for %s", n.Obj().Name(), nd)
		}
		return true
	}
	for _, e := range w.Run(f, ps, nil, nil) {
		dbg("exit", name, e)
		if e.Panic {
			c.Bad("served", "panic", at, "%s panics", name)
			continue
		}
		var listen, accept *Event
		regs := map[string]*types.Named{}
		for _, ev := range e.St.Events() {
			switch {
			case ev.Kind == "call" && (strings.HasSuffix(ev.Name, "rpc.Server).RegisterName") || strings.HasSuffix(ev.Name, "rpc.Server).Register")):
				v := unwrapIface(argEnd(ev, 1))
				n, _ := types.Unalias(deref(v.T)).(*types.Named)
				if !c.Expect(n != nil, "served", "type", at, "an unknown type is registered: %s", v) {
					continue
				}
				nm := ""
				if s := argEnd(ev, 2); strings.HasSuffix(ev.Name, "RegisterName") {
					if !c.Expect(s.Op == "str", "served", "name", at, "a name that is not constant: %s", s) {
						continue
					}
					nm = s.Aux
				} else {
					nm = n.Obj().Name()
				}
				c.Expect(regs[nm] == nil, "served", "twice", at, "%s is registered twice", nm)
				c.Expect(accept == nil, "served", "order", at, "%s is registered after connections are accepted", nm)
				c.Expect(n.Obj().Exported(), "served", "exported", at, "%s is not exported, net/rpc refuses it", n.Obj().Name())
				regs[nm] = n
				// the node of it
			case ev.Kind == "call" && ev.Name == "net.Listen":
				listen = ev
			case ev.Kind == "go" || ev.Kind == "call" && strings.HasSuffix(ev.Name, "rpc.Server).Accept"):
				accept = ev
			}
		}
		if !c.Expect(listen != nil, "served", "listen", at, "%s does not listen", name) {
			continue
		}
		lerr := lastRes(listen)
		switch e.St.IsNil(lerr) {
		case yes:
			ok = true
			c.Expect(accept != nil && e.St.IsNil(e.Rets[0]) == yes, "served", "accepts", at, "%s does not accept connections, error %s", name, e.Rets[0])
			if len(k.svc) == 0 {
				k.svc = regs
			}
			c.Expect(len(regs) == len(k.svc), "served", "same", at, "methods are registered sometimes")
		case no:
			bad = true
			c.Expect(accept == nil && e.Rets[0] == lerr, "served", "fails", at, "%s returns %s if it can't listen", name, e.Rets[0])
		default:
			c.Bad("served", "fails", at, "an error of listening is not looked at")
		}
	}
	c.Done(w)
	c.Expect(ok && bad, "served", "cases", at, "listening does not either fail or succeed")
	for _, n := range k.svc {
		k.impl[n] = true
	}
	return len(k.svc) > 0
}

func registers(f *ssa.Function) bool {
	return reachesName(f, "(*net/rpc.Server).RegisterName") || reachesName(f, "(*net/rpc.Server).Register")
}

// reachesName: does a function, or one of its package it runs, call another
func reachesName(f *ssa.Function, name string) bool {
	return reaches(f, func(h *ssa.Function) bool {
		for _, b := range h.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && g.String() == name {
						return true
					}
				}
			}
		}
		return false
	})
}

// suitable: the method served under a name
func (k *rpcCtx) suitable(n *types.Named, m string) *ssa.Function {
	f := k.c.P.Method("node", n.Obj().Name(), m)
	if f == nil || !f.Object().Exported() || len(f.Params) != 3 || f.Signature.Results().Len() != 1 {
		return nil
	}
	return f
}

// client: every method of the client that calls
func (k *rpcCtx) client() {
	c := k.c
	rc := c.P.Named("node", "RPCClient")
	if rc == nil {
		c.Anchor("node.RPCClient")
		return
	}
	used := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		r := f.Signature.Recv()
		if c.P.rel(f.Pkg) != "node" || r == nil || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || !strings.HasPrefix(typeName(deref(r.Type())), rc.Obj().Name()) {
			continue
		}
		if !reachesName(f, "(*net/rpc.Client).Call") && !reachesName(f, "(*net/rpc.Client).Go") {
			continue
		}
		k.clientMethod(f, strings.TrimPrefix(typeName(deref(r.Type())), rc.Obj().Name()), used)
	}
	// all that is served can be called
	for nm, n := range k.svc {
		for i := 0; i < n.NumMethods(); i++ {
			if g := k.suitable(n, n.Method(i).Name()); g != nil {
				c.Expect(used[g], "calls", "not called: "+nm+"."+g.Name(), c.P.pos(g.Pos()), "no method of the client calls %s.%s", nm, g.Name())
			}
		}
	}
}

func (k *rpcCtx) clientMethod(f *ssa.Function, part string, used map[*ssa.Function]bool) {
	c := k.c
	name, at := fname(f), c.P.pos(f.Pos())
	w := k.walker()
	ps := w.Params(f)
	key := part + "." + f.Name()
	okE, badE := false, false
	for _, e := range w.Run(f, ps, nil, nil) {
		dbg("exit", name, e)
		st := e.St
		if !c.Expect(!e.Panic, "calls", key+" panics", at, "%s panics", name) {
			continue
		}
		cs := calls0(st, "rpc.Client).Call")
		if !c.Expect(len(cs) == 1, "calls", key, at, "%s calls %d times", name, len(cs)) {
			continue
		}
		ev := cs[0]
		nm := argEnd(ev, 3)
		p := strings.SplitN(nm.Aux, ".", 2)
		if !c.Expect(nm.Op == "str" && len(p) == 2 && k.svc[p[0]] != nil, "calls", key, at, "%s calls %s, that is not served", name, nm) {
			continue
		}
		n := k.svc[p[0]]
		g := k.suitable(n, p[1])
		if !c.Expect(g != nil, "calls", key, at, "%s calls %s, that is not served", name, nm) {
			continue
		}
		used[g] = true
		kind := strings.TrimSuffix(n.Obj().Name(), "RPC")
		c.Expect(p[1] == f.Name() && (kind == part || kind == "" && part == "Node"), "calls", key, at, "%s calls %s of %s", name, p[1], n.Obj().Name())
		// types
		a, r := argEnd(ev, 2), argEnd(ev, 1)
		av, rv := unwrapIface(a), unwrapIface(r)
		c.Expect(av.T != nil && types.Identical(types.Unalias(deref0(av.T)), deref0(g.Params[1].Type())), "calls", key+" argument", at, "%s sends %s, %s is expected", name, av.T, g.Params[1].Type())
		c.Expect(rv.T != nil && types.Identical(rv.T, g.Params[2].Type()), "calls", key+" reply", at, "%s wants %s, %s is sent", name, rv.T, g.Params[2].Type())
		// arguments
		k.args(w, st, f, ps, av, key, at)
		// results
		err := e.Rets[len(e.Rets)-1]
		callErr := ev.Res
		res := f.Signature.Results().Len()
		switch {
		case err == callErr:
			okE, badE = true, true
		case st.IsNil(callErr) == no:
			badE = true
			c.Bad("calls", key+" error", at, "%s returns %s if the call fails", name, err)
		case st.IsNil(callErr) == yes:
			okE = true
			c.Expect(st.IsNil(err) == yes, "calls", key+" error", at, "%s returns %s if the call succeeds", name, err)
		default:
			c.Bad("calls", key+" error", at, "%s returns %s whatever the call returns", name, err)
		}
		if st.IsNil(callErr) == no || res != 2 {
			continue
		}
		// the reply
		out := e.Rets[0]
		c.Expect(out == rv || out.Op == "havoc" && strings.HasSuffix(out.Aux, "/"+strconv.Itoa(rv.ID)), "calls", key+" result", at, "%s returns %s, not the reply", name, out)
	}
	c.Done(w)
	c.Expect(okE && badE, "calls", key+" cases", at, "%s does not return the error", name)
}

func deref0(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return types.Unalias(p.Elem())
	}
	return types.Unalias(t)
}

// args: what is sent holds the arguments, in order
func (k *rpcCtx) args(w *Walker, st *State, f *ssa.Function, ps []*Term, av *Term, key, at string) {
	c := k.c
	given := ps[1:]
	if isPtr(av.T) {
		av = w.load(st, av, deref(av.T))
	}
	s, isStruct := av.T.Underlying().(*types.Struct)
	switch {
	case len(given) == 0:
		return
	case len(given) == 1 && !(isStruct && av != given[0]):
		c.Expect(av == given[0], "calls", key+" argument", at, "%s sends %s", fname(f), av)
		return
	case !isStruct:
		c.Bad("calls", key+" argument", at, "%s sends %s", fname(f), av)
		return
	}
	n := map[string]int{}
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		v := project(av, s.Field(i).Name(), i, t)
		// the parameter of this type, in order
		j := 0
		var want *Term
		for _, p := range given {
			if types.Identical(p.T, t) {
				if j == n[tstr(t)] {
					want = p
				}
				j++
			}
		}
		n[tstr(t)]++
		c.Expect(want != nil && v == want, "calls", key+" "+s.Field(i).Name(), at, "%s sends %s as %s", fname(f), v, s.Field(i).Name())
	}
}

// gobBad: a type that can't be encoded, in a type
func gobBad(t types.Type, path string, seen map[types.Type]bool) string {
	t = types.Unalias(t)
	if seen[t] {
		return ""
	}
	seen[t] = true
	for _, m := range []string{"GobEncode", "MarshalBinary", "MarshalText"} {
		for _, x := range []types.Type{t, types.NewPointer(t)} {
			if o, _, _ := types.LookupFieldOrMethod(x, true, nil, m); o != nil {
				if _, ok := o.(*types.Func); ok && m != "MarshalText" {
					return ""
				}
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return gobBad(u.Elem(), path, seen)
	case *types.Slice:
		return gobBad(u.Elem(), path+"[]", seen)
	case *types.Array:
		return gobBad(u.Elem(), path+"[]", seen)
	case *types.Map:
		if s := gobBad(u.Key(), path+" key", seen); s != "" {
			return s
		}
		return gobBad(u.Elem(), path+"[]", seen)
	case *types.Chan, *types.Signature:
		return path + " (" + tstr(t) + ")"
	case *types.Struct:
		sent := 0
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			ft := f.Type()
			for p, ok := ft.Underlying().(*types.Pointer); ok; p, ok = ft.Underlying().(*types.Pointer) {
				ft = p.Elem()
			}
			switch ft.Underlying().(type) {
			case *types.Chan, *types.Signature:
				continue
			}
			if !f.Exported() {
				continue
			}
			sent++
			if s := gobBad(f.Type(), path+"."+f.Name(), seen); s != "" {
				return s
			}
		}
		if sent == 0 && u.NumFields() > 0 {
			return path + " (" + tstr(t) + " without exported fields)"
		}
	}
	return ""
}

// unsent: fields that must be nil to be sent: interfaces and
// what has an encoding of nothing
func (k *rpcCtx) unsent(w *Walker, st *State, a *Term, t types.Type, path string, depth int) (out []string) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || depth > 4 {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Exported() {
			continue
		}
		fa := w.fieldAddr(a, t, i)
		switch u := f.Type().Underlying().(type) {
		case *types.Interface:
			if v := w.load(st, fa, f.Type()); st.IsNil(v) != yes {
				out = append(out, path+f.Name())
			}
		case *types.Struct:
			out = append(out, k.unsent(w, st, fa, f.Type(), path+f.Name()+".", depth+1)...)
		case *types.Pointer:
			v := w.load(st, fa, f.Type())
			if st.IsNil(v) == yes {
				continue
			}
			if es, ok := u.Elem().Underlying().(*types.Struct); ok {
				exp := 0
				for j := 0; j < es.NumFields(); j++ {
					if es.Field(j).Exported() {
						exp++
					}
				}
				if exp == 0 && es.NumFields() > 0 {
					out = append(out, path+f.Name())
					continue
				}
				out = append(out, k.unsent(w, st, v, u.Elem(), path+f.Name()+".", depth+1)...)
			}
		}
	}
	return
}

// A step of an operation
type rpcStep struct {
	typ  string   // receiver
	name string   // method, or a description of one that is not exported
	args []string // "" is the argument, a name is a field of it, "nil" is nil, "@name" is a call with the argument
}

type rpcOp struct {
	steps []rpcStep
	reply string // "", "value", "pointee", "list"
	quiet bool   // nothing to be done is not an error
}

func transport(t string) rpcStep { return rpcStep{"Node", "*" + t, nil} }

func conn(t, arg string) rpcStep { return rpcStep{t, "*Conn", []string{arg}} }

func rpcOps() map[string]rpcOp {
	ops := map[string]rpcOp{
		"RPC.Share":             {steps: []rpcStep{{"Node", "Share", []string{""}}}},
		"RPC.DontShare":         {steps: []rpcStep{{"Node", "DontShare", []string{""}}}},
		"RPC.Feeds":             {steps: []rpcStep{{"Node", "Feeds", nil}}, reply: "value"},
		"RPC.IsSharing":         {steps: []rpcStep{{"Node", "IsSharing", []string{""}}}, reply: "value"},
		"RPC.Stat":              {steps: []rpcStep{{"Node", "Stat", nil}}, reply: "pointee"},
		"RPC.ConnectionsOfFeed": {steps: []rpcStep{{"Node", "ConnectionsOfFeed", []string{""}}}, reply: "list"},
		"RootRPC.Show":          {steps: []rpcStep{{"Container", "Root", []string{"Feed", "Nonce", "Seq"}}}, reply: "pointee"},
		"RootRPC.Tree":          {steps: []rpcStep{{"Container", "Root", []string{"Feed", "Nonce", "Seq"}}, {"Container", "Pack", []string{"<0", "nil"}}, {"Root", "Tree", []string{"<1"}}}, reply: "value"},
		"RootRPC.Last":          {steps: []rpcStep{{"Container", "LastRoot", []string{"", "@ActiveHead"}}}, reply: "pointee"},
	}
	for _, t := range []string{"TCP", "UDP"} {
		ops[t+"RPC.Connect"] = rpcOp{steps: []rpcStep{transport(t), {t, "Connect", []string{""}}}}
		ops[t+"RPC.Disconnect"] = rpcOp{steps: []rpcStep{transport(t), conn(t, ""), {"Conn", "Close", nil}}, quiet: true}
		ops[t+"RPC.Subscribe"] = rpcOp{steps: []rpcStep{transport(t), conn(t, "Address"), {"Conn", "Subscribe", []string{"Feed"}}}}
		ops[t+"RPC.Unsubscribe"] = rpcOp{steps: []rpcStep{transport(t), conn(t, "Address"), {"Conn", "Unsubscribe", []string{"Feed"}}}}
		ops[t+"RPC.RemoteFeeds"] = rpcOp{steps: []rpcStep{transport(t), conn(t, ""), {"Conn", "RemoteFeeds", nil}}, reply: "value"}
		ops[t+"RPC.Address"] = rpcOp{steps: []rpcStep{transport(t), {t, "Address", nil}}, reply: "value"}
	}
	return ops
}

// methods: every method served
func (k *rpcCtx) methods() {
	c := k.c
	ops := rpcOps()
	done := map[string]bool{}
	for nm, n := range k.svc {
		for i := 0; i < n.NumMethods(); i++ {
			f := k.suitable(n, n.Method(i).Name())
			if f == nil {
				c.Expect(!n.Method(i).Exported(), "served", "suitable", c.P.pos(n.Method(i).Pos()), "%s.%s is not suitable to be served", nm, n.Method(i).Name())
				continue
			}
			at := c.P.pos(f.Pos())
			for j, p := range []types.Type{f.Params[1].Type(), f.Params[2].Type()} {
				b := gobBad(p, "", map[types.Type]bool{})
				c.Expect(b == "", "encodable", f.Name()+[]string{" argument", " reply"}[j], at, "%s.%s can't be sent: %s", nm, f.Name(), b)
			}
			id := n.Obj().Name() + "." + f.Name()
			done[id] = true
			switch op, ok := ops[id]; {
			case ok:
				k.method(f, n, op)
			case id == "RPC.Config":
				k.config(f, n)
			case id == "RPC.Connections":
				k.connections(f, n)
			}
		}
	}
	for id := range ops {
		c.Expect(done[id], "does", "not served: "+id, "", "%s is not served", id)
	}
}

// node: opaque are methods of the node and of its parts
func (k *rpcCtx) opaque(g *ssa.Function) bool {
	r := g.Signature.Recv()
	if r == nil || k.c.P.rel(g.Pkg) == "" {
		return false
	}
	switch typeName(deref(r.Type())) {
	case "Node", "TCP", "UDP", "Conn", "Container", "Index", "Root", "nodeFeeds":
		return true
	}
	return false
}

// stepOf: is a call a step
func (k *rpcCtx) stepOf(ev *Event, s rpcStep) bool {
	if ev.Kind != "call" || ev.Static == nil || ev.Static.Signature.Recv() == nil {
		return false
	}
	g := ev.Static
	rt := typeName(deref(g.Signature.Recv().Type()))
	if rt != s.typ && !(s.typ == "Container" && rt == "Index") {
		return false
	}
	if strings.HasPrefix(s.name, "*") {
		rs := g.Signature.Results()
		return rs.Len() == 1 && isPtr(rs.At(0).Type()) && typeName(deref(rs.At(0).Type())) == s.name[1:] && g.Signature.Params().Len() == len(s.args)
	}
	return g.Name() == s.name
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

func (k *rpcCtx) method(f *ssa.Function, n *types.Named, op rpcOp) {
	c := k.c
	id := n.Obj().Name() + "." + f.Name()
	name, at := fname(f), c.P.pos(f.Pos())
	w := k.walker()
	w.Opaque = k.opaque
	ps := w.Params(f)
	node := func(t *Term) bool { return isF(canon(t), k.back[n], ps[0]) }
	arg := func(a string) *Term {
		if a == "" {
			return canon(ps[1])
		}
		return fl(ps[1], a)
	}
	if op.reply == "list" {
		k.lists(w, id, at)
	}
	fulfilled := false
	for _, e := range w.Run(f, ps, nil, nil) {
		dbg("exit", name, e)
		st := e.St
		if !c.Expect(!e.Panic && len(e.Rets) == 1, "does", id+" panics", at, "%s panics", name) {
			continue
		}
		err := e.Rets[0]
		var evs []*Event
		for _, ev := range st.Events() {
			if ev.Kind == "call" && ev.Static != nil && k.opaque(ev.Static) {
				evs = append(evs, ev)
			}
		}
		var at0 []*Event // of the steps
		pos := 0
		stop := ""
		var stopErr *Term
		for si, s := range op.steps {
			var ev *Event
			for ; pos < len(evs) && ev == nil; pos++ {
				if k.stepOf(evs[pos], s) {
					ev = evs[pos]
				}
			}
			if ev == nil {
				stop = s.typ + "." + s.name
				break
			}
			// the receiver
			rcv := ev.Args[0]
			switch s.typ {
			case "Node":
				c.Expect(node(rcv), "does", id+" receiver", at, "%s calls %s of %s", name, s.name, rcv)
			case "Container":
				ok := rcv.any(func(x *Term) bool { return node(x) })
				c.Expect(ok, "does", id+" receiver", at, "%s calls %s of %s", name, s.name, rcv)
			default:
				prev := tNone
				for j := si - 1; j >= 0; j-- {
					if typeName(deref0(resOf(at0[j], 0).T)) == s.typ {
						prev = resOf(at0[j], 0)
						break
					}
				}
				c.Expect(rcv == prev, "does", id+" receiver", at, "%s calls %s of %s", name, s.name, rcv)
				if created(at0) != rcv && resOf(at0[si-1], 0) == rcv && at0[si-1].Res.Op != "tuple" {
					c.Expect(st.IsNil(rcv) == no, "does", id+" nil", at, "%s calls %s of what may be nil", name, s.name)
				}
			}
			// arguments
			given := ev.Args[1:]
			if c.Expect(len(given) == len(s.args), "does", id+" arguments", at, "%s: %d arguments", name, len(given)) {
				for j, a := range s.args {
					g := given[j]
					ok := false
					switch {
					case a == "nil":
						ok = st.IsNil(g) == yes
					case a == "<0" || a == "<1":
						ok = unwrapIface(g) == resOf(at0[int(a[1]-'0')], 0)
					case strings.HasPrefix(a, "@"):
						ok = k.callWith(st, g, a[1:], arg(""))
					default:
						ok = canon(g) == arg(a)
					}
					c.Expect(ok, "does", id+" arguments", at, "%s calls %s with %s", name, s.name, g)
				}
			}
			at0 = append(at0, ev)
			// it may end here
			if er := rpcErr(ev); er != nil && si+1 < len(op.steps) {
				switch st.IsNil(er) {
				case no:
					stop, stopErr = s.name+" fails", er
				case unknown:
					c.Bad("does", id+" error", at, "%s: an error of %s is not looked at", name, s.name)
				}
			} else if er == nil && si+1 < len(op.steps) && st.IsNil(ev.Res) == yes {
				stop = "no " + s.name
			}
			if stop != "" {
				break
			}
		}
		for ; pos < len(evs); pos++ {
			if op.reply != "list" && stop == "" && evs[pos].Static.Name() != "String" {
				c.Bad("does", id+" more", at, "%s does more: %s", name, evs[pos].Name)
			}
		}
		wrote := false
		for _, ev := range st.Events() {
			wrote = wrote || ev.Kind == "store" && ev.Addr == ps[2]
		}
		if stop != "" {
			switch {
			case stopErr != nil:
				c.Expect(err == stopErr, "does", id+" error", at, "%s returns %s if %s", name, err, stop)
			case strings.HasPrefix(stop, "no "):
				c.Expect(op.quiet || st.IsNil(err) == no, "does", id+" missing", at, "%s returns %s (%s)", name, err, stop)
			default:
				// not done although nothing is missing
				c.Bad("does", id+" undone", at, "%s returns %s and does not call %s", name, err, stop)
			}
			continue
		}
		fulfilled = true
		last := at0[len(at0)-1]
		if er := rpcErr(last); er != nil {
			switch {
			case err == er:
			case st.IsNil(er) == yes:
				c.Expect(st.IsNil(err) == yes, "does", id+" error", at, "%s returns %s", name, err)
			default:
				c.Bad("does", id+" error", at, "%s returns %s, not the error of %s", name, err, last.Name)
			}
			if st.IsNil(er) == no {
				continue
			}
		} else {
			c.Expect(st.IsNil(err) == yes, "does", id+" error", at, "%s returns %s", name, err)
		}
		v := w.load(st, ps[2], deref(ps[2].T))
		r := resOf(last, 0)
		switch op.reply {
		case "value":
			c.Expect(v == r, "does", id+" reply", at, "%s replies with %s", name, v)
		case "pointee":
			c.Expect(canon(v) == canon(w.load(st, r, deref(r.T))), "does", id+" reply", at, "%s replies with %s", name, v)
		case "":
			c.Expect(!wrote, "does", id+" reply", at, "%s replies", name)
		case "list":
			k.listed(w, st, v, r, id, at)
		}
		if b := k.unsent(w, st, ps[2], deref(ps[2].T), "", 0); len(b) > 0 {
			c.Bad("encodable", id, at, "%s may reply with what can't be sent: %s", name, strings.Join(b, ", "))
		}
	}
	c.Done(w)
	c.Expect(fulfilled, "does", id+" done", at, "%s never does what it has to", name)
}

// created: the transport made by an exported method is never nil
func created(evs []*Event) *Term {
	if len(evs) == 1 && evs[0].Static.Object().Exported() {
		return resOf(evs[0], 0)
	}
	return nil
}

// rpcErr: the error a call returns
func rpcErr(ev *Event) *Term {
	rs := ev.Static.Signature.Results()
	if rs.Len() == 0 || types.TypeString(rs.At(rs.Len()-1).Type(), nil) != "error" {
		return nil
	}
	return lastRes(ev)
}

// callWith: a value is the result of a call with an argument
func (k *rpcCtx) callWith(st *State, v *Term, m string, a *Term) bool {
	for _, ev := range st.Events() {
		if ev.Kind == "call" && ev.Res == v && ev.Static != nil && ev.Static.Name() == m && canon(argEnd(ev, 1)) == a {
			return true
		}
	}
	return false
}

// config: the configuration, without what can't be sent
func (k *rpcCtx) config(f *ssa.Function, n *types.Named) {
	c := k.c
	name, at := fname(f), c.P.pos(f.Pos())
	w := k.walker()
	w.Opaque = k.opaque
	ps := w.Params(f)
	for _, e := range w.Run(f, ps, nil, nil) {
		dbg("exit", name, e)
		if !c.Expect(!e.Panic && e.St.IsNil(e.Rets[0]) == yes, "does", "RPC.Config", at, "%s fails", name) {
			continue
		}
		st := e.St
		if b := k.unsent(w, st, ps[2], deref(ps[2].T), "", 0); len(b) > 0 {
			c.Bad("encodable", "RPC.Config", at, "%s replies with what can't be sent: %s", name, strings.Join(b, ", "))
		}
		// all other fields are those of the node
		t := deref(ps[2].T)
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			fd := s.Field(i)
			_, ptr := fd.Type().Underlying().(*types.Pointer)
			_, str := fd.Type().Underlying().(*types.Struct)
			if !fd.Exported() || ptr || str {
				continue
			}
			v := canon(w.load(st, w.fieldAddr(ps[2], t, i), fd.Type()))
			ok := v.Op == "load" && isF(v, fd.Name(), nil) && v.any(func(x *Term) bool { return isF(x, k.back[n], ps[0]) })
			c.Expect(ok, "does", "RPC.Config "+fd.Name(), at, "%s replies with %s as %s", name, v, fd.Name())
		}
		for _, ev := range st.Events() {
			if ev.Kind == "store" && ev.Addr.any(func(x *Term) bool { return isF(x, k.back[n], ps[0]) }) && rootTerm(ev.Addr) != ps[2] {
				c.Bad("does", "RPC.Config changes", at, "%s changes the configuration of the node: %s", name, ev.Addr)
			}
		}
	}
	c.Done(w)
}

// connections: both, pending ones and established
func (k *rpcCtx) connections(f *ssa.Function, n *types.Named) {
	c := k.c
	name, at := fname(f), c.P.pos(f.Pos())
	w := k.walker()
	w.Opaque = func(g *ssa.Function) bool { return k.opaque(g) && g.Name() == "String" }
	ps := w.Params(f)
	k.lists(w, "RPC.Connections", at)
	for _, e := range w.Run(f, ps, nil, nil) {
		dbg("exit", name, e)
		if !c.Expect(!e.Panic && e.St.IsNil(e.Rets[0]) == yes, "does", "RPC.Connections", at, "%s fails", name) {
			continue
		}
		ranged := map[string]bool{}
		for _, ev := range e.St.Events() {
			if ev.Kind == "rangeend" {
				ranged[canon(ev.Addr).String()] = true
			}
		}
		c.Expect(len(ranged) == 2, "lists", "RPC.Connections both", at, "%s lists %v", name, ranged)
		v := w.load(e.St, ps[2], deref(ps[2].T))
		c.Expect(v.Op == "phi" || v.Op == "havoc", "lists", "RPC.Connections reply", at, "%s replies with %s", name, v)
	}
	c.Done(w)
}

// lists: every round of a loop lists one connection
func (k *rpcCtx) lists(w *Walker, id, at string) {
	c := k.c
	w.OnBack = func(f *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
		var str, app []*Event
		for _, ev := range st.Events() {
			switch {
			case ev.Kind == "call" && ev.Static != nil && ev.Static.Name() == "String" && typeName(deref(ev.Static.Signature.Recv().Type())) == "Conn":
				str = append(str, ev)
			case ev.Kind == "append":
				app = append(app, ev)
			}
		}
		c.Expect(len(str) == 1 && len(app) == 1 && app[0].Res.any(func(x *Term) bool { return x == str[0].Res }), "lists", id, at, "a connection is not listed once: %d strings, %d appended", len(str), len(app))
	}
}

// listed: nothing if there is nothing
func (k *rpcCtx) listed(w *Walker, st *State, v, r *Term, id, at string) {
	if n := w.lenOf(st, r, r.T); st.Truth(tEq(n, tInt(0))) == yes {
		return // nothing to list
	}
	k.c.Expect(v.Op == "phi" || v.Op == "havoc", "lists", id+" reply", at, "the reply is %s", v)
}
