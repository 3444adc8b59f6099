package main

// The command line client.

import (
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("A02", "Each command of the client does what it is named after",
		"The table of commands, the completion, the choice of a command and each of the commands are run with arbitrary arguments and every outcome of what is called; each exit is compared with a table of operations.", checkA02)
}

// what commands do: the part of the RPC client, the method and the arguments:
// k - public key, a - address, n - number
var cliOps = map[string][3]string{
	"share feed":          {"Node", "Share", "k"},
	"don't share feed":    {"Node", "DontShare", "k"},
	"list feeds":          {"Node", "Feeds", ""},
	"is shareing":         {"Node", "IsSharing", "k"},
	"tcp connect":         {"TCP", "Connect", "a"},
	"tcp disconnect":      {"TCP", "Disconnect", "a"},
	"tcp subsribe":        {"TCP", "Subscribe", "ak"},
	"tcp unsubscribe":     {"TCP", "Unsubscribe", "ak"},
	"tcp address":         {"TCP", "Address", ""},
	"udp connect":         {"UDP", "Connect", "a"},
	"udp disconnect":      {"UDP", "Disconnect", "a"},
	"udp subsribe":        {"UDP", "Subscribe", "ak"},
	"udp unsubscribe":     {"UDP", "Unsubscribe", "ak"},
	"udp address":         {"UDP", "Address", ""},
	"connections":         {"Node", "Connections", ""},
	"connections of feed": {"Node", "ConnectionsOfFeed", "k"},
	"root info":           {"Root", "Show", "knn"},
	"root tree":           {"Root", "Tree", "knn"},
	"last root":           {"Root", "Last", "k"},
	"stat":                {"Node", "Stat", ""},
}

func checkA02(c *Ctx) {
	c.Rule("table", "Every command documented is in the table of commands, and only these are completed.", len(cliOps))
	c.Rule("calls", "A command calls the method it is named after, once, exactly if it has as many arguments as it takes and each of them is valid, with these in their order.", len(cliOps))
	c.Rule("errors", "A command returns the error of the call, an error without one, and nothing otherwise.", len(cliOps))
	c.Rule("chosen", "The command chosen is that with the name the input begins with; what follows are its arguments, and its error is returned; only quit and exit end the client.", 5)
	k := &cliCtx{c: c, cl: c.P.Named("cmd/cxocli", "client")}
	mp := c.P.Method("cmd/cxocli", "client", "mapping")
	ex := c.P.Method("cmd/cxocli", "client", "executeCommand")
	pl := c.P.Func("cmd/cxocli", "prefixLength")
	if k.cl == nil || mp == nil || ex == nil || pl == nil {
		c.Anchor("cmd/cxocli.client, mapping, executeCommand, prefixLength")
		return
	}
	fns := k.mapping(mp)
	k.completed(mp, fns)
	var names []string
	for n := range cliOps {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f := fns[n]
		if !c.Expect(f != nil, "table", n, c.P.pos(mp.Pos()), "there is no command %q", n) {
			continue
		}
		k.command(n, f)
	}
	k.execute(ex, mp, pl)
	k.prefix(pl)
}

type cliCtx struct {
	c  *Ctx
	cl interface{}
}

func (k *cliCtx) walker() *Walker {
	w := k.c.P.NewWalker()
	w.SamePkg, w.Split, w.AnyRound, w.Loops, w.MaxStates = true, true, true, 1, 3000
	w.OnEvent = anyEvent
	return w
}

// mapping: the functions of the commands
func (k *cliCtx) mapping(f *ssa.Function) map[string]*ssa.Function {
	c := k.c
	name, at := fname(f), c.P.pos(f.Pos())
	w := k.walker()
	out := map[string]*ssa.Function{}
	for _, e := range w.Run(f, nil, nil, nil) {
		dbg("exit", name, e)
		if !c.Expect(!e.Panic && len(e.Rets) == 1, "table", "made", at, "%s panics", name) {
			continue
		}
		for a, v := range e.St.mem {
			if a.Op != "mapelem" || a.Args[0] != e.Rets[0] || a.Args[1].Op != "str" {
				continue
			}
			if g := bound(v); c.Expect(g != nil, "table", a.Args[1].Aux, at, "%s is done by %s", a.Args[1], v) {
				out[a.Args[1].Aux] = g
			}
		}
	}
	c.Done(w)
	return out
}

// bound: the method of a method value, or a function
func bound(v *Term) *ssa.Function {
	v = unconv(v)
	f := v.Fn
	if f == nil {
		return nil
	}
	if m := strings.TrimSuffix(f.Name(), "$bound"); m != f.Name() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.Call); ok && x.Call.StaticCallee() != nil {
					return x.Call.StaticCallee()
				}
			}
		}
	}
	return f
}

// completed: the commands offered for completion
func (k *cliCtx) completed(mp *ssa.Function, fns map[string]*ssa.Function) {
	c := k.c
	pkg := mp.Pkg
	f := pkg.Func("init")
	g, _ := pkg.Members["commands"].(*ssa.Global)
	if f == nil || g == nil {
		c.Anchor("cmd/cxocli.commands")
		return
	}
	w := k.walker()
	got := map[string]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok || s.Addr != ssa.Value(g) {
				continue
			}
			sl, ok := s.Val.(*ssa.Slice)
			if !ok {
				c.Bad("table", "completed", c.at(in), "commands completed are not a list")
				continue
			}
			for _, r := range *sl.X.Referrers() {
				x, ok := r.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				for _, r := range *x.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
						if v, ok := st.Val.(*ssa.Const); ok {
							if t := constTerm(v); t.Op == "str" {
								n := strings.TrimSpace(t.Aux)
								got[n] = true
								c.Expect(fns[n] != nil, "table", "completed "+n, c.at(st), "%q is completed, and there is no such command", n)
							}
						}
					}
				}
			}
		}
	}
	for n := range fns {
		c.Expect(got[n], "table", "completed "+n, c.P.pos(mp.Pos()), "the command %q is never completed", n)
	}
	c.Done(w)
}

// words: the n-th of the arguments
func argWord(t, in *Term, n int) bool {
	t = canon(t)
	return t.Op == "load" && t.Args[0].Op == "idx" && t.Args[0].Args[0] == in && t.Args[0].Args[1] == tInt(int64(n))
}

func (k *cliCtx) command(key string, f *ssa.Function) {
	c := k.c
	op := cliOps[key]
	at := c.P.pos(f.Pos())
	w := k.walker()
	ps := w.Params(f)
	in := ps[len(ps)-1]
	called := false
	for _, e := range w.Run(f, ps, nil, nil) {
		dbg("exit", fname(f), e)
		st := e.St
		if !c.Expect(!e.Panic && len(e.Rets) == 1, "errors", key+" panics", at, "%q panics", key) {
			continue
		}
		var call *Event
		n := 0
		parse := []*Event{}
		for _, ev := range st.Events() {
			if ev.Kind != "call" {
				continue
			}
			if ev.Static != nil && ev.Static.Signature.Recv() != nil {
				if p, ok := strings.CutPrefix(typeName(deref(ev.Static.Signature.Recv().Type())), "RPCClient"); ok && p != "" {
					n++
					if c.Expect(p == op[0] && ev.Static.Name() == op[1], "calls", key, at, "%q calls %s of %s", key, ev.Static.Name(), p) {
						call = ev
					}
				}
			}
			switch {
			case strings.HasSuffix(ev.Name, "encoding/hex.DecodeString"), strings.HasSuffix(ev.Name, "cipher.NewPubKey"), strings.HasPrefix(ev.Name, "strconv.Parse"), strings.HasSuffix(ev.Name, "cipher.PubKeyFromHex"):
				parse = append(parse, ev)
			}
		}
		size := st.Truth(tEq(w.lenOf(st, in, in.T), tInt(int64(len(op[2])))))
		r := e.Rets[0]
		if call == nil {
			bad := size == no
			for _, p := range parse {
				bad = bad || st.IsNil(lastRes(p)) == no
				if strings.HasSuffix(p.Name, "DecodeString") { // not as long as a key
					b := resOf(p, 0)
					bad = bad || st.Truth(tEq(w.lenOf(st, b, b.T), tInt(33))) == no
				}
			}
			c.Expect(n == 0 && bad, "calls", key+" refused", at, "%q does nothing although the arguments may be right", key)
			c.Expect(st.IsNil(r) == no, "errors", key+" refused", at, "%q refuses without an error", key)
			continue
		}
		called = true
		c.Expect(n == 1, "calls", key+" once", at, "%q makes %d calls", key, n)
		c.Expect(size == yes, "calls", key+" count", at, "%q is done with another number of arguments", key)
		if c.Expect(len(call.Args) == len(op[2])+1, "calls", key+" arguments", at, "%q sends %d arguments", key, len(call.Args)-1) {
			for i, kind := range op[2] {
				a := call.Args[i+1]
				ok := false
				switch kind {
				case 'a':
					ok = argWord(a, in, i)
				case 'k':
					ok = k.key(st, parse, a, in, i)
				case 'n':
					for _, p := range parse {
						ok = ok || p.Name == "strconv.ParseUint" && a == resOf(p, 0) && argWord(p.Args[0], in, i) && (p.Args[1] == tInt(10) || p.Args[1] == tInt(0)) && p.Args[2] == tInt(64) && st.IsNil(lastRes(p)) == yes
					}
				}
				c.Expect(ok, "calls", key+" argument "+strconv.Itoa(i), at, "%q sends %s, which is not the valid argument %d", key, a, i)
			}
		}
		err := lastRes(call)
		c.Expect(r == err || st.IsNil(err) == yes && st.IsNil(r) == yes, "errors", key, at, "%q returns %s", key, r)
	}
	c.Expect(called, "calls", key+" never", at, "%q never does anything", key)
	c.Done(w)
}

// key: is a the public key of the i-th argument
func (k *cliCtx) key(st *State, parse []*Event, a, in *Term, i int) bool {
	for _, p := range parse {
		if a != resOf(p, 0) || st.IsNil(lastRes(p)) != yes {
			continue
		}
		if strings.HasSuffix(p.Name, "PubKeyFromHex") && argWord(p.Args[0], in, i) {
			return true
		}
		for _, q := range parse {
			if strings.HasSuffix(p.Name, "NewPubKey") && strings.HasSuffix(q.Name, "DecodeString") && p.Args[0] == resOf(q, 0) && argWord(q.Args[0], in, i) && st.IsNil(lastRes(q)) == yes {
				return true
			}
		}
	}
	return false
}

func (k *cliCtx) execute(f, mp, pl *ssa.Function) {
	c := k.c
	name, at := fname(f), c.P.pos(f.Pos())
	w := k.walker()
	w.Opaque = func(g *ssa.Function) bool { return g == mp || g == pl }
	w.Entry = map[*Term][]*Term{}
	ps := w.Params(f)
	in := ps[len(ps)-1]
	rounds, took := 0, 0
	var best *Term
	w.OnBack = func(g *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
		dbg("back", name, &Exit{St: st})
		var size *Event
		for _, ev := range st.Events() {
			if ev.Kind == "call" && ev.Static == pl {
				size = ev
			}
		}
		if g != f || size == nil {
			return
		}
		rounds++
		c.Expect(size.Args[0] == in && st.IsNil(size.Args[1]) != yes, "chosen", "compared", at, "%s compares %s and %s", name, size.Args[0], size.Args[1])
		for _, ph := range headPhis(head) {
			q := env[ph]
			if q == nil || tstr(ph.Type()) != "string" {
				continue
			}
			b := backOf(w, head, ph, env)
			longer := st.Truth(tLt(w.lenOf(st, q, q.T), size.Res, false))
			best = q
			for _, v := range w.Entry[q] {
				c.Expect(v == tStr(""), "chosen", "first", at, "%s starts with the name %s", name, v)
			}
			switch longer {
			case yes:
				took++
				c.Expect(isPrefixOf(b, in, size.Res), "chosen", "taken", at, "%s takes %s, which is not the part of the input known", name, b)
			case no:
				c.Expect(b == q, "chosen", "kept", at, "%s takes a shorter name %s", name, b)
			default:
				c.Bad("chosen", "longest", at, "%s does not take the longest name", name)
			}
		}
	}
	for _, e := range w.Run(f, ps, nil, nil) {
		dbg("exit", name, e)
		st := e.St
		if !c.Expect(!e.Panic && len(e.Rets) == 2, "chosen", "panics", at, "%s panics", name) {
			continue
		}
		var dyn *Event
		for _, ev := range st.Events() {
			if ev.Kind == "call" && ev.Name == "dyn" {
				dyn = ev
			}
		}
		quit, err := e.Rets[0], e.Rets[1]
		if dyn == nil {
			c.Expect(st.Truth(quit) == no && st.IsNil(err) == no, "chosen", "unknown", at, "%s returns %s, %s for an unknown command", name, quit, err)
			continue
		}
		c.Expect(err == dyn.Res, "chosen", "error", at, "%s returns %s", name, err)
		// the name the command was looked up by
		var key *Term
		if a := canon(dyn.Addr); a.Op == "load" && a.Args[0].Op == "mapelem" {
			key = a.Args[0].Args[1]
			own := func(m *Term) bool {
				for _, ev := range st.Events() {
					if ev.Kind == "call" && ev.Static == mp && ev.Res == m && ev.Args[0] == ps[0] {
						return true
					}
				}
				return false
			}
			c.Expect(own(a.Args[0].Args[0]), "chosen", "table", at, "%s looks the command up in %s", name, a.Args[0].Args[0])
			c.Expect(present(st, own, key) == yes, "chosen", "present", at, "%s does not check that there is such a command", name)
		}
		if !c.Expect(key != nil, "chosen", "looked up", at, "%s does not look the command up", name) {
			continue
		}
		for _, q := range []string{"quit", "exit"} {
			s2 := st.clone()
			if s2.assume(tEq(key, tStr(q)), true) {
				c.Expect(s2.Truth(quit) == yes, "chosen", q, at, "%s goes on after %q", name, q)
			}
		}
		s2 := st.clone()
		if s2.assume(tEq(key, tStr("quit")), false) && s2.assume(tEq(key, tStr("exit")), false) {
			c.Expect(s2.Truth(quit) == no, "chosen", "ends", at, "%s ends after another command than quit and exit", name)
		}
		c.Expect(key.any(func(x *Term) bool { return x == best }), "chosen", "name", at, "%s looks %s up", name, key)
		args := argEnd(dyn, 1)
		trimmed := false
		for _, ev := range st.Events() {
			trimmed = trimmed || ev.Name == "strings.TrimPrefix" && ev.Args[0] == in && ev.Args[1] == key && args.any(func(x *Term) bool { return x == ev.Res })
		}
		words := false
		for _, ev := range st.Events() {
			words = words || ev.Name == "strings.Fields" && ev.Res == args
		}
		c.Expect(trimmed && words, "chosen", "arguments", at, "%s gives %s to the command", name, args)
	}
	c.Expect(rounds > 0 && took > 0 && best != nil, "chosen", "rounds", at, "%s does not look at the commands", name)
	c.Done(w)
}

// isPrefixOf: is t the first n bytes of s
func isPrefixOf(t, s, n *Term) bool {
	return t.Op == "slice" && t.Args[0] == s && t.Args[1] == tInt(0) && t.Args[2] == n
}

// prefix: how much of two strings is the same
func (k *cliCtx) prefix(f *ssa.Function) {
	c := k.c
	name, at := fname(f), c.P.pos(f.Pos())
	w := k.walker()
	w.Entry = map[*Term][]*Term{}
	ps := w.Params(f)
	same := func(st *State, q *Term) tri {
		var a, b *Term
		for _, t := range factTerms(st) {
			t.any(func(x *Term) bool {
				if x.Op == "elem" && x.Args[1] == q && x.Args[0] == ps[0] {
					a = x
				}
				if x.Op == "elem" && x.Args[1] == q && x.Args[0] == ps[1] {
					b = x
				}
				return false
			})
		}
		if a == nil || b == nil {
			return unknown
		}
		return st.Truth(tEq(a, b))
	}
	rounds := 0
	w.OnBack = func(g *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
		dbg("back", name, &Exit{St: st})
		for _, ph := range headPhis(head) {
			q := env[ph]
			if q == nil || !isNum(ph.Type()) {
				continue
			}
			b := backOf(w, head, ph, env)
			if b == q { // the same in every round
				continue
			}
			rounds++
			ok := len(w.Entry[q]) > 0
			for _, v := range w.Entry[q] {
				ok = ok && v == tInt(0)
			}
			c.Expect(ok && timeless(tSub(b, q)) == tInt(1), "chosen", "compares", at, "%s does not compare one byte after another", name)
			c.Expect(same(st, q) == yes, "chosen", "same", at, "%s goes on although the strings differ", name)
			less := func(p *Term) bool { return st.Truth(tLt(q, w.lenOf(st, p, p.T), false)) == yes }
			for i, p := range ps {
				o := ps[1-i]
				shorter := st.Truth(tLt(w.lenOf(st, p, p.T), w.lenOf(st, o, o.T), false)) == no
				c.Expect(less(p) || less(o) && shorter, "chosen", "within", at, "%s compares bytes after the end of %s", name, p)
			}
		}
	}
	for _, e := range w.Run(f, ps, nil, nil) {
		dbg("exit", name, e)
		if !c.Expect(!e.Panic && len(e.Rets) == 1, "chosen", "panics compare", at, "%s panics", name) {
			continue
		}
		r := e.Rets[0]
		over := same(e.St, r) == no
		for _, p := range ps {
			over = over || e.St.Truth(tLt(r, w.lenOf(e.St, p, p.T), false)) == no
		}
		c.Expect(over && len(w.Entry[r]) > 0, "chosen", "as much as is the same", at, "%s returns %s although more is the same", name, r)
	}
	c.Expect(rounds > 0, "chosen", "rounds compare", at, "%s compares nothing", name)
	c.Done(w)
}
