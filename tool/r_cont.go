package main

// A container: what it opens, checks, walks and closes; its configuration.

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("I02", "A container opens what it is configured with and closes all of it",
		"Making of a container is run on an arbitrary configuration with every outcome of the databases; checks of sizes, the walk, Close and the configuration are run the same way; every exit is compared with the specification.", checkI02)
}

func contWalker(c *Ctx) *Walker {
	w := c.P.NewWalker()
	w.SamePkg, w.Split, w.AnyRound, w.Loops, w.MaxStates = true, true, true, 1, 3000
	w.OnEvent = anyEvent
	return w
}

func checkI02(c *Ctx) {
	c.Rule("opens", "A container uses the database of its configuration, one in memory, or two files at different paths made of DBPath, else of DataDir, which is created.", 5)
	c.Rule("fails", "Making a container fails exactly if a part fails, with its error, and what was opened is closed.", 6)
	c.Rule("made", "A container is made of its parts in order: database, sizes if asked, cache, index.", 4)
	c.Rule("sizes", "An object is reported exactly if it is larger than the limit, by its key.", 2)
	c.Rule("walk", "Walk visits the Root, its Registry and then everything below, and stops without an error only if asked to.", 4)
	c.Rule("hash", "RootByHash returns the Root decoded from the object of this hash, with its signature of the index.", 3)
	c.Rule("close", "Close closes index, cache and database, each even if another fails, and returns the first error.", 3)
	c.Rule("config", "A configuration is accepted exactly if every value is within its limits; the default one has the default values.", 12)
	k := &contCtx{c: c, cont: c.P.Named("skyobject", "Container"), conf: c.P.Named("skyobject", "Config")}
	if k.cont == nil || k.conf == nil {
		c.Anchor("skyobject.Container, skyobject.Config")
		return
	}
	k.fConf = fieldBy(k.cont, func(t types.Type) bool { return typeName(t) == "Config" })
	k.fDB = fieldBy(k.cont, func(t types.Type) bool { return typeName(t) == "DB" })
	if k.fConf == "" || k.fDB == "" {
		c.Anchor("skyobject.Container: configuration, database")
		return
	}
	k.made()
	k.walks()
	k.byHash()
	k.closes()
	k.config()
	k.defaults()
}

type contCtx struct {
	c          *Ctx
	cont, conf *types.Named
	fConf, fDB string
}

func (k *contCtx) made() {
	c := k.c
	f := c.P.Func("skyobject", "NewContainer")
	if f == nil {
		c.Anchor("skyobject.NewContainer")
		return
	}
	def := c.P.Func("skyobject", "NewConfig")
	// parts of the container, by what they belong to
	of := func(g *ssa.Function, typ string) bool {
		r := g.Signature.Recv()
		return r != nil && typeName(r.Type()) == typ
	}
	w := contWalker(c)
	w.Opaque = func(g *ssa.Function) bool {
		r := g.Signature.Recv()
		return g == def || of(g, "Cache") || of(g, "Index") || of(g, "DB") || r != nil && strings.HasSuffix(typeName(r.Type()), "Stat")
	}
	type iter struct {
		ev *Event
		st *State
	}
	iters := map[ssa.Instruction]iter{}
	w.OnEvent = func(st *State, ev *Event) bool {
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, "data.CXDS.Iterate") {
			iters[ev.Instr] = iter{ev, st.clone()}
		}
		return true
	}
	ps := w.Params(f)
	name := fname(f)
	seen := map[string]bool{}
	for _, e := range w.Run(f, ps, nil, nil) {
		dbg("exit", name, e)
		at := c.P.pos(f.Pos())
		st, evs := e.St, e.St.Events()
		if e.Panic {
			c.Bad("fails", "panic", at, "%s panics", name)
			continue
		}
		err := e.Rets[1]
		// the configuration
		conf := ps[0]
		given := triNot(st.IsNil(ps[0]))
		var mkdir, cx, idx, iter0, cache, load, newDB, memCX, memIdx *Event
		pos := map[*Event]int{}
		closed := map[string]int{}
		var conE, dbE *Event
		var cont *Term
		for i, ev := range evs {
			pos[ev] = i
			switch {
			case ev.Kind == "store" && ev.Addr.Op == "field" && rootTerm(ev.Addr).Op == "alloc" && types.Identical(deref(rootTerm(ev.Addr).T), k.cont):
				cont = rootTerm(ev.Addr)
				switch {
				case ev.Addr.Aux == k.fConf:
					conE = ev
				case ev.Addr.Aux == k.fDB:
					dbE = ev
				case ev.Addr.Args[0].Op == "field" && typeName(deref(ev.Addr.Args[0].T)) == "Cache":
					cache = ev
				}
			case ev.Kind != "call":
			case ev.Static == def && def != nil:
				conf = ev.Res
			case ev.Name == "os.MkdirAll" || ev.Name == "os.Mkdir":
				mkdir = ev
			case strings.HasSuffix(ev.Name, "cxds.NewDriveCXDS"):
				cx = ev
			case strings.HasSuffix(ev.Name, "idxdb.NewDriveIdxDB"):
				idx = ev
			case strings.HasSuffix(ev.Name, "cxds.NewMemoryCXDS"):
				memCX = ev
			case strings.HasPrefix(ev.Name, modPath+"/data/idxdb.NewMem"):
				memIdx = ev
			case strings.HasSuffix(ev.Name, "/data.NewDB"):
				newDB = ev
			case strings.HasSuffix(ev.Name, "data.CXDS.Iterate"):
				iter0 = ev
			case ev.Static != nil && of(ev.Static, "Cache") && !strings.HasSuffix(ev.Name, ").Close"):
				cache = ev
			case ev.Static != nil && of(ev.Static, "Index") && ev.Static.Signature.Results().Len() == 1:
				load = ev
			case strings.HasSuffix(ev.Name, "data.DB).Close"):
				closed["db"]++
			case strings.HasSuffix(ev.Name, "data.CXDS.Close"):
				closed["cx"]++
				c.Expect(cx != nil && ev.Args[0] == cx.Res.Args[0], "fails", "closes", at, "%s", ev)
			case strings.HasSuffix(ev.Name, "data.IdxDB.Close"):
				closed["idx"]++
			case strings.HasSuffix(ev.Name, "Stat).Close"):
				closed["stat"]++
			}
		}
		if given == no {
			c.Expect(conf != ps[0], "made", "default", at, "there is no configuration")
			seen["default"] = true
		} else {
			c.Expect(conf == ps[0], "made", "default", at, "a configuration is not used")
		}
		same := func(a, b *Term) bool { return a == b || timeless(a) == timeless(b) }
		cfg := func(t *Term, f string) bool { return isF(t, f, conf) }
		fact := func(f string) tri {
			out := unknown
			for t, v := range st.facts.b {
				if cfg(t, f) {
					out = triOf(v)
				}
				if t.Op == "eq" && (cfg(t.Args[0], f) || cfg(t.Args[1], f)) {
					out = triOf(!v) // of nil or ""
				}
			}
			for _, t := range factTerms(st) {
				t.any(func(x *Term) bool {
					if x.Op == "len" && cfg(x.Args[0], f) {
						if v := st.Truth(tEq(x, tInt(0))); v != unknown {
							out = triNot(v)
						}
					}
					return false
				})
			}
			return out
		}
		fail := func(ev *Event) tri {
			if ev == nil {
				return no
			}
			r := ev.Res
			if r.Op == "tuple" {
				r = r.Args[len(r.Args)-1]
			}
			return triNot(st.IsNil(r))
		}
		res := func(ev *Event) *Term {
			if ev.Res.Op == "tuple" {
				return ev.Res.Args[len(ev.Res.Args)-1]
			}
			return ev.Res
		}
		// why
		var why *Event
		undecided := false
		for _, ev := range []*Event{mkdir, cx, idx, iter0, load} {
			switch fail(ev) {
			case yes:
				if why == nil {
					why = ev
				}
			case unknown:
				// an error returned as it is
				if ev != nil && err == res(ev) {
					why = ev
				} else {
					undecided = true
				}
			}
		}
		if undecided {
			c.Bad("fails", "looked at", at, "an error is not looked at")
			continue
		}
		if why == nil {
			if !c.Expect(st.IsNil(err) == yes, "fails", "fine", at, "it fails (%s), and nothing did", err) {
				continue
			}
		} else if !c.Expect(err == res(why), "fails", "error of "+why.Name, at, "the error is %s", err) {
			continue
		}
		// data directory
		switch fact("DataDir") {
		case yes:
			c.Expect(mkdir != nil && cfg(mkdir.Args[0], "DataDir"), "opens", "data directory", at, "the data directory is not created")
		case no:
			c.Expect(mkdir == nil, "opens", "data directory", at, "%s is created", mkdir)
		default:
			c.Bad("opens", "data directory", at, "the data directory is not looked at")
		}
		if why != nil && why == mkdir {
			c.Expect(closed["db"]+closed["cx"] == 0 && dbE == nil, "fails", "nothing opened", at, "it closes what was not opened")
			seen["fails: directory"] = true
			continue
		}
		switch {
		case fact("DB") == yes:
			c.Expect(cx == nil && idx == nil && newDB == nil && memCX == nil, "opens", "given", at, "another database is opened")
			c.Expect(dbE != nil && cfg(dbE.Val, "DB"), "opens", "given", at, "the database given is not used")
			seen["given"] = true
		case fact("DB") == no && fact("InMemoryDB") == yes:
			ok := newDB != nil && memCX != nil && memIdx != nil && cx == nil && idx == nil && newDB.Args[0].contains(memCX.Res) && newDB.Args[1].contains(memIdx.Res) && dbE != nil && dbE.Val == newDB.Res
			c.Expect(ok, "opens", "memory", at, "the database in memory is not used")
			seen["memory"] = true
		case fact("DB") == no && fact("InMemoryDB") == no:
			if !c.Expect(cx != nil, "opens", "files", at, "the files are not opened") {
				continue
			}
			src := "DataDir"
			switch fact("DBPath") {
			case yes:
				src = "DBPath"
			case unknown:
				c.Bad("opens", "path", at, "DBPath is not looked at")
			}
			from := func(t *Term) bool { return t.any(func(x *Term) bool { return cfg(x, src) }) }
			c.Expect(from(cx.Args[0]), "opens", "path", at, "the file of objects is %s", cx.Args[0])
			if why == cx {
				c.Expect(idx == nil && closed["db"]+closed["cx"] == 0, "fails", "nothing opened", at, "it goes on")
				seen["fails: objects"] = true
				continue
			}
			if !c.Expect(idx != nil, "opens", "files", at, "the index is not opened") {
				continue
			}
			c.Expect(from(idx.Args[0]) && !same(idx.Args[0], cx.Args[0]), "opens", "path", at, "the file of the index is %s, the one of objects is %s", idx.Args[0], cx.Args[0])
			if why == idx {
				c.Expect(closed["cx"] == 1, "fails", "objects closed", at, "the file of objects is not closed")
				seen["fails: index"] = true
				continue
			}
			ok := newDB != nil && newDB.Args[0] == cx.Res.Args[0] && newDB.Args[1] == idx.Res.Args[0] && dbE != nil && dbE.Val == newDB.Res
			c.Expect(ok, "opens", "files", at, "the files are not used")
			seen["files"] = true
		default:
			c.Bad("opens", "which", at, "what is configured is not looked at")
			continue
		}
		c.Expect(conE != nil && conE.Val == conf, "made", "configuration", at, "the configuration is not kept")
		// sizes
		if iter0 == nil {
			c.Expect(fact("CheckSizes") == no, "made", "sizes", at, "sizes are not checked")
		} else {
			c.Expect(fact("CheckSizes") == yes, "made", "sizes", at, "sizes are checked, and nobody asked for that")
			c.Expect(cache == nil || pos[cache] > pos[iter0], "made", "order", at, "sizes are checked after the cache is made")
		}
		if why == nil {
			c.Expect(cache != nil && load != nil && pos[cache] < pos[load] && e.Rets[0] == cont, "made", "parts", at, "the cache or the index is not made, or in the wrong order")
			c.Expect(len(closed) == 0, "made", "open", at, "something is closed")
			k.cacheOf(w, st, cont, conf, at)
			seen["made"] = true
			continue
		}
		c.Expect(closed["db"] == 1, "fails", "closed", at, "the database is not closed (%s fails)", why.Name)
		seen["fails: "+map[bool]string{true: "sizes", false: "loading"}[why == iter0]] = true
		if why == load {
			// goroutines of statistic
			stats := 0
			for t, v := range st.facts.b {
				if t.Op == "eq" && v && (t.Args[0] == tNil && strings.HasSuffix(tstr(t.Args[1].T), "Stat") || t.Args[1] == tNil && strings.HasSuffix(tstr(t.Args[0].T), "Stat")) {
					stats++
				}
			}
			c.Expect(closed["stat"]+stats >= 2, "fails", "statistic", at, "goroutines of the statistic are left: %d of 2 are ended", closed["stat"]+stats)
		}
	}
	c.Done(w)
	for _, n := range []string{"default", "given", "memory", "files", "made", "fails: directory", "fails: objects", "fails: index", "fails: sizes", "fails: loading"} {
		c.Expect(seen[n], "made", "case "+n, c.P.pos(f.Pos()), "there is no way for the case %q", n)
	}
	// sizes
	for in, it := range iters {
		at := c.at(in)
		cl := it.ev.Args[len(it.ev.Args)-1]
		if !c.Expect(cl.Op == "closure", "sizes", "function", at, "objects are iterated by %s", cl) {
			continue
		}
		w := contWalker(c)
		ps := w.Params(cl.Fn)
		big := map[tri]bool{}
		for _, e := range w.Run(cl.Fn, ps, cl.Args, it.st.clone()) {
			dbg("each", name, e)
			st := e.St
			if e.Panic || len(e.Rets) != 1 {
				c.Bad("sizes", "panic", at, "it panics")
				continue
			}
			over := unknown
			n := w.lenOf(st, ps[2], ps[2].T)
			for _, t := range factTerms(st) {
				t.any(func(x *Term) bool {
					if isF(x, "MaxObjectSize", nil) {
						if v := st.Truth(tLt(x, n, false)); v != unknown {
							over = v
						}
					}
					return false
				})
			}
			if over == unknown {
				c.Bad("sizes", "limit", at, "the size is not compared with the limit")
				continue
			}
			big[over] = true
			c.Expect(triNot(st.IsNil(e.Rets[0])) == over, "sizes", "reported", at, "an object larger than the limit: %v, error: %s", over, e.Rets[0])
			if over == yes {
				c.Expect(dataErr("ErrStopIteration") != e.Rets[0], "sizes", "reported", at, "a large object only stops the check")
				key := false
				e.Rets[0].any(func(x *Term) bool {
					if x.Op == "alloc" {
						for a, v := range st.mem {
							key = key || rootTerm(a) == x && v == ps[0]
						}
					}
					key = key || x == ps[0]
					return false
				})
				c.Expect(key, "sizes", "key", at, "the key of a large object is not reported: %s", e.Rets[0])
			}
		}
		c.Done(w)
		c.Expect(big[yes] && big[no], "sizes", "cases", at, "objects are not told apart")
	}
}

// cacheOf: a new cache is empty, and is switched off by a zero maximum
func (k *contCtx) cacheOf(w *Walker, st *State, cont, conf *Term, at string) {
	c := k.c
	fc := fieldBy(k.cont, func(t types.Type) bool { return typeName(t) == "Cache" })
	i, ct := fieldIndex(k.cont, fc)
	if i < 0 {
		c.Anchor("skyobject.Container: cache")
		return
	}
	cache := w.fieldAddr(cont, k.cont, i)
	n, _ := ct.(*types.Named)
	s := n.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		v := w.load(st, w.fieldAddr(cache, n, i), t)
		_, isMap := t.Underlying().(*types.Map)
		switch {
		case isMap:
			c.Expect(v.Op == "makemap", "made", "cache: "+s.Field(i).Name(), at, "a map of the cache is %s", v)
		case typeName(t) == "Container":
			c.Expect(v == cont, "made", "cache: container", at, "the container of the cache is %s", v)
		case s.Field(i).Name() == "amount" || s.Field(i).Name() == "volume":
			c.Expect(v == tInt(0), "made", "cache: "+s.Field(i).Name(), at, "a new cache holds %s", v)
		case s.Field(i).Name() == "enable":
			zero := func(n string) (out tri, f *Term) {
				out = unknown
				(&Term{Args: append(factTerms(st), v)}).any(func(x *Term) bool {
					if isF(x, n, conf) {
						y := tEq(x, tInt(0))
						if t := st.Truth(y); t != unknown {
							out = t
						}
						if v.contains(y) {
							f = y
						}
					}
					return false
				})
				return
			}
			ta, a := zero("CacheMaxAmount")
			tb, b := zero("CacheMaxVolume")
			tv := st.Truth(v)
			ok := false
			switch {
			case ta == yes || tb == yes:
				ok = tv == no
			case ta == no && tb == no:
				ok = tv == yes
			case ta == no && b != nil:
				ok = v == tNot(b)
			case tb == no && a != nil:
				ok = v == tNot(a)
			}
			c.Expect(ok, "made", "cache: enable", at, "the cache is enabled: %s", v)
		}
	}
}

// walkers of the Root by a function
func (k *contCtx) walks() {
	c := k.c
	f := c.P.Method("skyobject", "Container", "Walk")
	if f == nil {
		c.Anchor("skyobject.Container.Walk")
		return
	}
	w := contWalker(c)
	w.Opaque = func(g *ssa.Function) bool {
		r := g.Signature.Recv()
		return r != nil && (typeName(r.Type()) == "Cache" || typeName(r.Type()) == "Root")
	}
	ps := w.Params(f)
	self, r, fn := ps[0], ps[1], ps[2]
	seen := map[string]bool{}
	below := map[*Term]*State{} // states of walks below, by result
	w.OnEvent = func(st *State, ev *Event) bool {
		if ev.Kind == "call" && ev.Static != nil && ev.Static.Name() == "Walk" {
			below[ev.Res] = st.clone()
		}
		return true
	}
	for _, e := range w.Run(f, ps, nil, nil) {
		dbg("exit", fname(f), e)
		at := c.P.pos(f.Pos())
		st := e.St
		if e.Panic {
			c.Bad("walk", "panic", at, "%s panics", fname(f))
			continue
		}
		err := e.Rets[0]
		var steps []*Event
		for _, ev := range st.Events() {
			if ev.Kind != "call" {
				continue
			}
			switch {
			case ev.Addr == fn && fn != nil, ev.Static != nil && ev.Static.Signature.Recv() != nil && (typeName(ev.Static.Signature.Recv().Type()) == "Cache" && ev.Static.Name() == "Registry" || typeName(ev.Static.Signature.Recv().Type()) == "Root" && ev.Static.Name() == "Walk"):
				steps = append(steps, ev)
			}
		}
		res := func(ev *Event) *Term {
			if ev.Res.Op == "tuple" {
				return ev.Res.Args[len(ev.Res.Args)-1]
			}
			return ev.Res
		}
		// in order: registry, root, hash of the registry, everything
		ok := len(steps) > 0 && len(steps) <= 4
		for i, ev := range steps {
			switch i {
			case 0:
				ok = ok && ev.Static != nil && ev.Static.Name() == "Registry" && isF(ev.Args[1], "Reg", r)
			case 1:
				ok = ok && ev.Addr == fn && isF(unconv(ev.Args[0]), "Hash", r)
			case 2:
				ok = ok && ev.Addr == fn && isF(unconv(ev.Args[0]), "Reg", r)
			case 3:
				ok = ok && ev.Static != nil && ev.Static.Name() == "Walk" && ev.Args[0] == r && ev.Args[2] == fn
				if ok {
					k.packOf(w, below[ev.Res], ev.Args[1], self, steps[0].Res.Args[0], at)
				}
			}
			if i < len(steps)-1 {
				ok = ok && st.IsNil(res(ev)) == yes
			}
		}
		if !c.Expect(ok, "walk", "order", at, "the Root, its Registry and everything below are not visited in order") {
			continue
		}
		last := res(steps[len(steps)-1])
		stop := unknown
		for t, v := range st.facts.b {
			if t.Op == "eq" && (t.Args[0] == last && isSentinel(t.Args[1], "ErrStopIteration") || t.Args[1] == last && isSentinel(t.Args[0], "ErrStopIteration")) {
				stop = triOf(v)
			}
		}
		switch {
		case len(steps) == 4 && err == last && stop == no, len(steps) < 4 && err == last && st.IsNil(last) == no && (stop == no || len(steps) == 1):
			seen["ends"] = true
		case st.IsNil(err) == yes && (stop == yes && len(steps) > 1):
			seen["stopped"] = true
		case st.IsNil(err) == yes && len(steps) == 4 && st.IsNil(last) == yes:
			seen["ends"] = true
		default:
			c.Bad("walk", "outcome", at, "after %d steps the result is %s, that of the last step is %s", len(steps), err, last)
		}
	}
	c.Done(w)
	for _, n := range []string{"ends", "stopped"} {
		c.Expect(seen[n], "walk", "case "+n, c.P.pos(f.Pos()), "there is no way for the case %q", n)
	}
}

// packOf: a pack of a container with a registry
func (k *contCtx) packOf(w *Walker, st *State, p, self, reg *Term, at string) {
	x := p
	for x.Op == "iface" {
		x = x.Args[0]
	}
	n, _ := deref(x.T).(*types.Named)
	if x.Op != "alloc" || n == nil {
		k.c.Bad("walk", "pack", at, "the pack is %s", p)
		return
	}
	s := n.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		v := w.load(st, w.fieldAddr(x, n, i), s.Field(i).Type())
		switch typeName(s.Field(i).Type()) {
		case "Container":
			k.c.Expect(v == self, "walk", "pack: container", at, "the container of the pack is %s", v)
		case "Registry":
			k.c.Expect(v == reg, "walk", "pack: registry", at, "the registry of the pack is %s", v)
		case "Degree":
			k.c.Expect(isF(v, "Degree", nil) && v.contains(self), "walk", "pack: degree", at, "the degree of the pack is %s", v)
		}
	}
}

func (k *contCtx) byHash() {
	c := k.c
	f := c.P.Method("skyobject", "Container", "RootByHash")
	if f == nil {
		c.Anchor("skyobject.Container.RootByHash")
		return
	}
	w := contWalker(c)
	dec := c.P.Func("skyobject/registry", "DecodeRoot")
	w.Opaque = func(g *ssa.Function) bool {
		r := g.Signature.Recv()
		return g == dec || r != nil && (typeName(r.Type()) == "Cache" || typeName(r.Type()) == "Index")
	}
	ps := w.Params(f)
	seen := map[string]bool{}
	for _, e := range w.Run(f, ps, nil, nil) {
		dbg("exit", fname(f), e)
		at := c.P.pos(f.Pos())
		st := e.St
		bad := func(what, g string, a ...interface{}) { c.Bad("hash", what, at, g, a...) }
		if e.Panic {
			bad("panic", "%s panics", fname(f))
			continue
		}
		var get, dc, dr *Event
		for _, ev := range st.Events() {
			switch {
			case ev.Kind == "call" && strings.HasSuffix(ev.Name, "Cache).Get"):
				get = ev
			case ev.Kind == "call" && ev.Static == dec && dec != nil:
				dc = ev
			case ev.Kind == "call" && ev.Static != nil && ev.Static.Signature.Recv() != nil && typeName(ev.Static.Signature.Recv().Type()) == "Index":
				dr = ev
			}
		}
		err := e.Rets[1]
		last := func(ev *Event) *Term { return ev.Res.Args[len(ev.Res.Args)-1] }
		if !c.Expect(get != nil && get.Args[1] == ps[1] && isZeroInt(get.Args[2]), "hash", "object", at, "what is got is %s", get) {
			continue
		}
		switch {
		case st.IsNil(last(get)) == no:
			c.Expect(err == last(get), "hash", "missing", at, "the error is %s", err)
			seen["missing"] = true
			continue
		case dc == nil || dc.Args[0] != get.Res.Args[0]:
			bad("decoded", "what is decoded is %s", dc)
			continue
		case st.IsNil(last(dc)) == no:
			c.Expect(err == last(dc), "hash", "not a Root", at, "the error is %s", err)
			seen["not a Root"] = true
			continue
		}
		r := dc.Res.Args[0]
		if dr == nil {
			bad("signature", "the signature is not looked for")
			continue
		}
		is := func(t *Term, f string) bool { return isF(t, f, r) }
		c.Expect(len(dr.Args) == 4 && is(dr.Args[1], "Pub") && is(dr.Args[2], "Nonce") && is(dr.Args[3], "Seq"), "hash", "signature", at, "what is looked for is %s", dr)
		if st.IsNil(last(dr)) == no {
			c.Expect(err == last(dr), "hash", "not in the index", at, "the error is %s", err)
			seen["not in the index"] = true
			continue
		}
		rt := deref(r.T)
		val := func(f string) *Term {
			i, t := fieldIndex(rt, f)
			if i < 0 {
				return tNone
			}
			return w.load(st, w.fieldAddr(r, rt, i), t)
		}
		ok := st.IsNil(err) == yes && e.Rets[0] == r && val("Hash") == ps[1] && isF(val("Sig"), "Sig", dr.Res.Args[0]) && val("IsFull") == tTrue
		c.Expect(ok, "hash", "Root", at, "what is returned is %s (hash %s, signature %s, full %s), %s", e.Rets[0], val("Hash"), val("Sig"), val("IsFull"), err)
		seen["found"] = true
	}
	c.Done(w)
	for _, n := range []string{"missing", "not a Root", "not in the index", "found"} {
		c.Expect(seen[n], "hash", "case "+n, c.P.pos(f.Pos()), "there is no way for the case %q", n)
	}
}

func isZeroInt(t *Term) bool { return t == tInt(0) }

func (k *contCtx) closes() {
	c := k.c
	f := c.P.Method("skyobject", "Container", "Close")
	g := c.P.Method("data", "DB", "Close")
	if f == nil || g == nil {
		c.Anchor("skyobject.Container.Close, data.DB.Close")
		return
	}
	run := func(f *ssa.Function, parts []string, which func(ev *Event) string) {
		w := contWalker(c)
		w.Opaque = func(g *ssa.Function) bool { return g != f && g.Name() == "Close" }
		for _, e := range w.Run(f, w.Params(f), nil, nil) {
			dbg("exit", fname(f), e)
			at := c.P.pos(f.Pos())
			if e.Panic {
				c.Bad("close", fname(f)+": panic", at, "%s panics", fname(f))
				continue
			}
			got := map[string]*Event{}
			var order []string
			for _, ev := range e.St.Events() {
				if ev.Kind == "call" {
					if n := which(ev); n != "" {
						c.Expect(got[n] == nil, "close", fname(f)+": once", at, "%s is closed twice", n)
						got[n] = ev
						order = append(order, n)
					}
				}
			}
			all := true
			for _, n := range parts {
				all = c.Expect(got[n] != nil, "close", fname(f)+": "+n, at, "%s is not closed", n) && all
			}
			if !all {
				continue
			}
			// the first error; one which is never returned does not count
			err := e.Rets[0]
			var first *Term
			decided := true
			for _, n := range order {
				r := got[n].Res
				if n == "index" || first != nil {
					continue
				}
				switch e.St.IsNil(r) {
				case no:
					first = r
				case unknown:
					if err == r {
						first = r
					} else {
						decided = false
					}
				}
			}
			c.Expect(decided && (err == first || first == nil && e.St.IsNil(err) == yes), "close", fname(f)+": error", at, "what is returned is %s, and it is not the first error", err)
			if n := "database"; got[n] != nil && len(order) > 1 {
				c.Expect(order[len(order)-1] == n, "close", fname(f)+": order", at, "the database is closed before those who use it")
			}
		}
		c.Done(w)
	}
	run(f, []string{"index", "cache", "database"}, func(ev *Event) string {
		switch {
		case strings.HasSuffix(ev.Name, "Index).Close"):
			return "index"
		case strings.HasSuffix(ev.Name, "Cache).Close"):
			return "cache"
		case strings.HasSuffix(ev.Name, "data.DB).Close"):
			return "database"
		}
		return ""
	})
	run(g, []string{"objects", "roots"}, func(ev *Event) string {
		switch {
		case strings.HasSuffix(ev.Name, "data.CXDS.Close"):
			return "objects"
		case strings.HasSuffix(ev.Name, "data.IdxDB.Close"):
			return "roots"
		}
		return ""
	})
}

// config: limits of values
func (k *contCtx) config() {
	c := k.c
	f := c.P.Method("skyobject", "Config", "Validate")
	if f == nil {
		c.Anchor("skyobject.Config.Validate")
		return
	}
	w := contWalker(c)
	w.Opaque = func(g *ssa.Function) bool {
		r := g.Signature.Recv()
		return r != nil && typeName(r.Type()) == "Degree"
	}
	ps := w.Params(f)
	val := func(n string) *Term {
		i, t := fieldIndex(k.conf, n)
		if i < 0 {
			c.Anchor("skyobject.Config." + n)
			return tNone
		}
		return w.load(newState(), w.fieldAddr(ps[0], k.conf, i), t)
	}
	lru, lfu := k.constant("LRU"), k.constant("LFU")
	// what is accepted: value -> holds
	type lim struct {
		name string
		ok   func(st *State) tri
	}
	ge := func(n string, v int64) lim {
		x := val(n)
		return lim{n, func(st *State) tri { return triNot(st.Truth(tLt(x, tInt(v), false))) }}
	}
	cc := val("CacheCleaning")
	lims := []lim{ge("RollAvgSamples", 1), ge("CacheMaxAmount", 0), ge("CacheMaxVolume", 0), ge("MaxObjectSize", 1024),
		{"CachePolicy", func(st *State) tri {
			p := val("CachePolicy")
			a, b := st.Truth(tEq(p, lru)), st.Truth(tEq(p, lfu))
			if a == yes || b == yes {
				return yes
			}
			if a == no && b == no {
				return no
			}
			return unknown
		}},
		{"CacheCleaning", func(st *State) tri {
			return tAnd(triNot(st.Truth(tLt(cc, tFloat(0.5), true))), triNot(st.Truth(tLt(tFloat(0.9), cc, true))))
		}},
		{"CacheMaxItemSize", func(st *State) tri {
			x := val("CacheMaxItemSize")
			out := unknown
			for _, t := range factTerms(st) {
				t.any(func(y *Term) bool {
					if y.Op == "conv" && y.contains(cc) && y.contains(val("CacheMaxVolume")) {
						if v := st.Truth(tLt(y, x, false)); v != unknown {
							out = triNot(v)
						}
					}
					return false
				})
			}
			return out
		}},
		{"Degree", func(st *State) tri {
			for _, ev := range st.Events() {
				if ev.Kind == "call" && strings.HasSuffix(ev.Name, "Degree).Validate") && ev.Args[0] == val("Degree") {
					return st.IsNil(ev.Res)
				}
			}
			return unknown
		}},
	}
	seen := map[string]bool{}
	for _, e := range w.Run(f, ps, nil, nil) {
		dbg("exit", fname(f), e)
		at := c.P.pos(f.Pos())
		st := e.St
		if e.Panic {
			c.Bad("config", "panic", at, "%s panics", fname(f))
			continue
		}
		switch st.IsNil(e.Rets[0]) {
		case yes:
			for _, l := range lims {
				c.Expect(l.ok(st) == yes, "config", l.name, at, "%s is not limited", l.name)
			}
			seen["fine"] = true
		case no:
			wrong := ""
			for _, l := range lims {
				if l.ok(st) == no {
					wrong = l.name
				}
			}
			c.Expect(wrong != "", "config", "rejected", at, "it fails (%s), and nothing is wrong", e.Rets[0])
			seen[wrong] = true
		default:
			c.Bad("config", "outcome", at, "the result is %s", e.Rets[0])
		}
	}
	c.Done(w)
	c.Expect(seen["fine"], "config", "fine", c.P.pos(f.Pos()), "nothing is accepted")
	for _, l := range lims {
		c.Expect(seen[l.name], "config", l.name+": rejected", c.P.pos(f.Pos()), "a wrong %s is never rejected", l.name)
	}
}

// constant of the package, as the engine has it
func (k *contCtx) constant(n string) *Term {
	for _, sp := range k.c.P.SSA.AllPackages() {
		if sp.Pkg.Path() == modPath+"/skyobject" {
			if x, ok := sp.Members[n].(*ssa.NamedConst); ok {
				return constTerm(x.Value)
			}
		}
	}
	k.c.Anchor("skyobject." + n)
	return tNone
}

func tFloat(x float64) *Term {
	return constTerm(ssa.NewConst(constant.MakeFloat64(x), types.Typ[types.Float64]))
}

// defaults: the configuration made
func (k *contCtx) defaults() {
	c := k.c
	f := c.P.Func("skyobject", "NewConfig")
	if f == nil {
		c.Anchor("skyobject.NewConfig")
		return
	}
	dir := c.P.Func("skyobject", "DataDir")
	w := contWalker(c)
	w.Opaque = func(g *ssa.Function) bool { return g == dir }
	for _, e := range w.Run(f, w.Params(f), nil, nil) {
		dbg("exit", fname(f), e)
		at := c.P.pos(f.Pos())
		if e.Panic {
			continue
		}
		r := e.Rets[0]
		if !c.Expect(r.Op == "alloc", "config", "made", at, "%s is made", r) {
			continue
		}
		s := k.conf.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			n := s.Field(i).Name()
			v := w.load(e.St, w.fieldAddr(r, k.conf, i), s.Field(i).Type())
			var want *Term
			switch n {
			case "Degree", "RollAvgSamples", "CacheMaxAmount", "CacheMaxVolume", "CacheRegistries", "CacheCleaning", "CacheMaxItemSize", "MaxObjectSize", "MaxFillingParallel":
				want = k.constant(n)
			case "CachePolicy":
				want = k.constant("LRU")
			case "DataDir":
				ok := v.Op == "call" || v.any(func(x *Term) bool { return x.Op == "call" })
				for _, ev := range e.St.Events() {
					ok = ok || ev.Kind == "call" && ev.Static == dir && ev.Res == v
				}
				c.Expect(ok, "config", "default of DataDir", at, "the directory is %s", v)
				continue
			default:
				want = zeroTerm(s.Field(i).Type())
			}
			c.Expect(v == want, "config", "default of "+n, at, "%s is %s, the default is %s", n, v, want)
		}
	}
	c.Done(w)
}
