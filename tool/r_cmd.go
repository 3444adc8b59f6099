package main

// The daemon: its command line and the node it runs.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("A01", "The daemon runs the node its command line describes",
		"Registration of the flags, the default configuration, its validation and the main function are run on an arbitrary configuration with every outcome of what is called; registrations, fields, calls and exits are compared with a table.", checkA01)
}

func checkA01(c *Ctx) {
	node := map[string]string{
		"max-connections": "MaxConnections", "max-filling-time": "MaxFillingTime", "max-heads": "MaxHeads", "rpc": "RPC",
		"tcp": "TCP.Listen", "tcp-response-timeout": "TCP.ResponseTimeout", "tcp-pings": "TCP.Pings",
		"udp": "UDP.Listen", "udp-response-timeout": "UDP.ResponseTimeout", "udp-pings": "UDP.Pings",
		"public": "Public",
	}
	flagRule(c, "skyobject", "Config", map[string]string{"mem-db": "InMemoryDB", "data-dir": "DataDir", "db-path": "DBPath"})
	flagRule(c, "node", "Config", node)
	c.floors["flags"] = len(node) + 3
	c.Rule("parts", "The flags of the logger and, if there is one, of the container are registered too, once; the configuration is valid exactly if that of the container is.", 4)
	c.Rule("defaults", "The default configuration of a node has the default of each option, a container's default configuration and nothing else.", 20)
	c.Rule("daemon", "The daemon registers the flags of a default configuration that accepts every subscription, parses them, makes the node of this configuration, ends with a message if that fails, waits, and closes the node.", 6)
	c.Rule("accepts", "A subscription is accepted after its feed is shared; a failure of that ends the daemon.", 2)
	a := &daemon{c: c, conf: c.P.Named("node", "Config")}
	if a.conf == nil {
		c.Anchor("node.Config")
		return
	}
	a.parts()
	a.defaults()
	a.main()
}

type daemon struct {
	c    *Ctx
	conf *types.Named
}

// method: is an event a call of a method
func methodOf(ev *Event, typ, m string) bool {
	return named(ev, m) && typeName(deref(ev.Static.Signature.Recv().Type())) == typ
}

// ofPkg: of which package, relative to the module
func (a *daemon) ofPkg(f *ssa.Function, pkg string) bool {
	return f.Pkg != nil && f.Pkg.Pkg.Path() == modPath+"/"+pkg
}

func (a *daemon) walker() *Walker {
	w := a.c.P.NewWalker()
	w.SamePkg, w.Split, w.AnyRound, w.Loops, w.MaxStates = true, true, true, 1, 2000
	w.OnEvent = anyEvent
	return w
}

func (a *daemon) parts() {
	c := a.c
	for _, m := range []string{"FromFlags", "Validate"} {
		f := c.P.Method("node", "Config", m)
		if f == nil {
			c.Anchor("node.Config." + m)
			continue
		}
		name, at := fname(f), c.P.pos(f.Pos())
		w := a.walker()
		ps := w.Params(f)
		ci, ct := fieldIndex(a.conf, "Config")
		li, _ := fieldIndex(a.conf, "Logger")
		for _, e := range w.Run(f, ps, nil, nil) {
			dbg("exit", name, e)
			if !c.Expect(!e.Panic, "parts", m+" panics", at, "%s panics", name) {
				continue
			}
			cont := w.load(e.St, w.fieldAddr(ps[0], a.conf, ci), ct)
			nl, nc := 0, 0
			var err *Term
			for _, ev := range e.St.Events() {
				if !named(ev, m) || len(ev.Args) == 0 {
					continue
				}
				switch {
				case a.ofPkg(ev.Static, "node/log"):
					if c.Expect(ev.Args[0] == w.fieldAddr(ps[0], a.conf, li), "parts", m+" logger", at, "%s uses the logger configuration %s", name, ev.Args[0]) {
						nl++
					}
				case a.ofPkg(ev.Static, "skyobject"):
					if c.Expect(ev.Args[0] == cont, "parts", m+" container", at, "%s uses the container configuration %s", name, ev.Args[0]) {
						nc++
						err = ev.Res
					}
				}
			}
			null := e.St.IsNil(cont)
			c.Expect(null == yes && nc == 0 || null == no && nc == 1, "parts", m+" of container", at, "%s: %d calls for the container; it has no configuration: %v", name, nc, null)
			if m == "FromFlags" {
				c.Expect(nl == 1, "parts", m+" of logger", at, "%s registers the flags of the logger %d times", name, nl)
				continue
			}
			r := e.Rets[0]
			c.Expect(err == nil && e.St.IsNil(r) == yes || err != nil && (r == err || e.St.IsNil(err) == yes && e.St.IsNil(r) == yes), "parts", m+" error", at, "%s returns %s", name, r)
		}
		c.Done(w)
	}
	// a list of addresses
	f := c.P.Method("node", "Addresses", "Set")
	if f == nil {
		c.Anchor("node.Addresses.Set")
		return
	}
	w := a.walker()
	ps := w.Params(f)
	at := c.P.pos(f.Pos())
	for _, e := range w.Run(f, ps, nil, nil) {
		dbg("exit", fname(f), e)
		if !c.Expect(!e.Panic && e.St.IsNil(e.Rets[0]) == yes, "parts", "Set", at, "%s fails", fname(f)) {
			continue
		}
		v := w.load(e.St, ps[0], deref(ps[0].T))
		old := w.load(newState(), ps[0], deref(ps[0].T))
		c.Expect(v != old && v.any(func(x *Term) bool { return x == ps[1] }) && v.any(func(x *Term) bool { return timeless(x) == timeless(old) }), "parts", "Set adds", at, "%s keeps %s", fname(f), v)
	}
	c.Done(w)
}

func (a *daemon) constant(n string) *Term {
	for _, sp := range a.c.P.SSA.AllPackages() {
		if sp.Pkg.Path() == modPath+"/node" {
			if x, ok := sp.Members[n].(*ssa.NamedConst); ok {
				return constTerm(x.Value)
			}
		}
	}
	a.c.Anchor("node." + n)
	return tNone
}

func (a *daemon) defaults() {
	c := a.c
	f := c.P.Func("node", "NewConfig")
	if f == nil {
		c.Anchor("node.NewConfig")
		return
	}
	name, at := fname(f), c.P.pos(f.Pos())
	w := a.walker()
	def := map[string]string{
		"Logger.Prefix": "Prefix", "MaxConnections": "MaxConnections", "MaxPendingConnections": "MaxPendingConnections",
		"MaxFillingTime": "MaxFillingTime", "MaxHeads": "MaxHeads", "TCP.Listen": "ListenTCP", "TCP.Pings": "Pings",
		"TCP.ResponseTimeout": "ResponseTimeout", "UDP.Listen": "ListenUDP", "UDP.ResponseTimeout": "ResponseTimeout",
		"RPC": "RPCAddress", "Public": "Public",
	}
	// not decided: what the debug pins and the interval of pings through UDP should be
	free := map[string]bool{"Logger.Pins": true, "UDP.Pings": true}
	for _, e := range w.Run(f, nil, nil, nil) {
		dbg("exit", name, e)
		if !c.Expect(!e.Panic && e.Rets[0].Op == "alloc", "defaults", "made", at, "%s makes %v", name, e.Rets) {
			continue
		}
		var each func(addr *Term, t types.Type, path string)
		each = func(addr *Term, t types.Type, path string) {
			s, ok := t.Underlying().(*types.Struct)
			if !ok {
				if free[path] {
					return
				}
				v := w.load(e.St, addr, t)
				want := zeroTerm(t)
				switch {
				case def[path] != "":
					want = a.constant(def[path])
				case path == "Config":
					made := false
					for _, ev := range e.St.Events() {
						made = made || ev.Kind == "call" && ev.Static != nil && ev.Static.Name() == "NewConfig" && a.ofPkg(ev.Static, "skyobject") && ev.Res == v
					}
					c.Expect(made, "defaults", path, at, "the configuration of the container is %s", v)
					return
				}
				c.Expect(v == want, "defaults", path, at, "%s is %s, the default is %s", path, v, want)
				return
			}
			for i := 0; i < s.NumFields(); i++ {
				p := s.Field(i).Name()
				if path != "" {
					p = path + "." + p
				}
				each(w.fieldAddr(addr, t, i), s.Field(i).Type(), p)
			}
		}
		each(e.Rets[0], a.conf, "")
	}
	c.Done(w)
}

func (a *daemon) main() {
	c := a.c
	f := c.P.Func("cmd/cxod", "main")
	if f == nil {
		c.Anchor("cmd/cxod.main")
		return
	}
	name, at := fname(f), c.P.pos(f.Pos())
	w := a.walker()
	var accept *Term
	w.OnEvent = func(st *State, ev *Event) bool {
		// log.Fatal and os.Exit do not return
		return true
	}
	normal, failed := false, false
	for _, e := range w.Run(f, nil, nil, nil) {
		dbg("exit", name, e)
		st := e.St
		pos := map[string]int{}
		cnt := map[string]int{}
		var conf, made, sub *Term
		var newNode *Event
		closed := false
		for i, ev := range st.Events() {
			k := ""
			switch {
			case ev.Kind == "call" && ev.Static != nil && ev.Static.Name() == "NewConfig" && a.ofPkg(ev.Static, "node"):
				k, made = "config", ev.Res
			case methodOf(ev, "Config", "FromFlags"):
				k, conf = "flags", ev.Args[0]
				if made != nil {
					i, t := fieldIndex(a.conf, "OnSubscribeRemote")
					sub = w.load(st, w.fieldAddr(made, a.conf, i), t)
				}
			case ev.Name == "flag.Parse" || ev.Name == "(*flag.FlagSet).Parse":
				k = "parse"
			case ev.Kind == "call" && ev.Static != nil && ev.Static.Name() == "NewNode" && a.ofPkg(ev.Static, "node"):
				k, newNode = "node", ev
			case ev.Kind == "recv" || ev.Kind == "select":
				k = "wait"
			case methodOf(ev, "Node", "Close"):
				k = "close"
				closed = newNode != nil && ev.Args[0] == resOf(newNode, 0)
			case strings.HasPrefix(ev.Name, "log.Fatal"), ev.Name == "os.Exit", strings.HasPrefix(ev.Name, "(*log.Logger).Fatal"):
				k = "fatal"
			}
			if k != "" {
				pos[k] = i
				cnt[k]++
			}
			if k == "fatal" {
				break
			}
		}
		c.Expect(cnt["config"] == 1 && cnt["flags"] == 1 && cnt["parse"] == 1 && cnt["node"] == 1 && conf == made, "daemon", "configuration", at, "%s does not make one configuration with flags and one node: %v", name, cnt)
		if newNode == nil || made == nil {
			continue
		}
		for sub != nil && (sub.Op == "conv" || sub.Op == "iface") {
			sub = sub.Args[0]
		}
		accept = sub
		c.Expect(sub != nil && sub.Fn != nil, "daemon", "accepts", at, "%s accepts no subscriptions", name)
		c.Expect(pos["flags"] < pos["parse"] && pos["parse"] < pos["node"], "daemon", "order", at, "%s does not register flags, parse them, and make the node in this order", name)
		c.Expect(argEnd(newNode, 1) == made, "daemon", "node", at, "%s makes a node of %s", name, argEnd(newNode, 1))
		switch st.IsNil(lastRes(newNode)) {
		case no:
			failed = true
			c.Expect(cnt["fatal"] > 0 && cnt["close"] == 0, "daemon", "fails", at, "%s goes on without a node", name)
		case yes:
			normal = true
			c.Expect(cnt["fatal"] == 0 && !e.Panic && cnt["wait"] > 0 && pos["wait"] > pos["node"], "daemon", "waits", at, "%s does not wait for an interrupt: %v", name, cnt)
			c.Expect(cnt["close"] == 1 && closed && pos["close"] > pos["wait"], "daemon", "closes", at, "%s does not close the node at the end", name)
		default:
			c.Bad("daemon", "error", at, "%s does not look at the error of the node", name)
		}
	}
	c.Expect(normal && failed, "daemon", "both", at, "%s runs: %v, fails: %v", name, normal, failed)
	c.Done(w)
	if accept != nil {
		a.accepts(accept)
	}
}

func (a *daemon) accepts(fn *Term) {
	c := a.c
	for fn.Op == "conv" || fn.Op == "iface" {
		fn = fn.Args[0]
	}
	f := fn.Fn
	if !c.Expect(f != nil && f.Blocks != nil, "accepts", "function", c.P.pos(0), "subscriptions are accepted by %s", fn) {
		return
	}
	name, at := fname(f), c.P.pos(f.Pos())
	w := a.walker()
	ps := w.Params(f)
	for _, e := range w.Run(f, ps, nil, nil) {
		dbg("exit", name, e)
		st := e.St
		var share *Event
		n, fatal := 0, false
		for _, ev := range st.Events() {
			if methodOf(ev, "Node", "Share") {
				share = ev
				n++
			}
			fatal = fatal || strings.HasPrefix(ev.Name, "log.Fatal") || ev.Name == "os.Exit"
		}
		if !c.Expect(n == 1 && argEnd(share, 1) == ps[1], "accepts", "shares", at, "%s does not share the feed", name) {
			continue
		}
		failed := st.IsNil(share.Res)
		c.Expect(failed == yes && !fatal && !e.Panic && st.IsNil(e.Rets[0]) == yes || failed == no && (fatal || e.Panic || e.Rets[0] == share.Res), "accepts", "error", at, "%s goes on although the feed is not shared (%v), or refuses", name, failed)
	}
	c.Done(w)
}
