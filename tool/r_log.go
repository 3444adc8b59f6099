package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("L01", "debug gating",
		"Path-sensitive data flow over every debug method of the logger and over its constructor: on each path a message is written exactly when (pin AND configured pins) is non-zero, and the constructor stores the configured pins when debugging is on and none when it is off.", checkL01)
	register("L02", "message content",
		"Path-sensitive data flow over the logging methods: the text handed to the writer is brought to a normal form (literals, values, argument lists, in order) and compared with the required parts; the call depth is compared with the depth of the analysed call chain.", checkL02)
	register("L03", "logger configuration",
		"Data flow over the default configuration, the constructor and the flag registration: every option reaches the writer, and each flag is bound to the option it names with the option's present value as default.", checkL03)
}

// logger type: the concrete type NewLogger returns
func loggerMethods(c *Ctx) (*types.Named, bool) {
	f := c.P.Func("node/log", "NewLogger")
	if f == nil {
		c.Anchor("node/log.NewLogger")
		return nil, false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if mi, ok := in.(*ssa.MakeInterface); ok {
				if n, ok := deref(mi.X.Type()).(*types.Named); ok && n.Obj().Pkg().Path() == modPath+"/node/log" {
					return n, true
				}
			}
		}
	}
	c.Anchor("the logger implementation made by node/log.NewLogger")
	return nil, false
}

func isLogWrite(name string) bool {
	if !strings.HasPrefix(name, "(*log.Logger).") {
		return false
	}
	switch strings.TrimPrefix(name, "(*log.Logger).") {
	case "Output", "Print", "Printf", "Println":
		return true
	}
	return false
}

func logWalker(c *Ctx) *Walker {
	w := c.P.NewWalker()
	w.KeepTrunc = true
	w.OnEvent = func(st *State, ev *Event) bool {
		return ev.Kind == "call" && (isLogWrite(ev.Name) || isNoReturn(ev.Name)) || ev.Kind == "store" && rootTerm(ev.Addr).Op != "alloc" ||
			ev.Kind == "call" && strings.HasPrefix(ev.Name, "(*log.Logger)") || ev.Kind == "go" || ev.Kind == "panic"
	}
	return w
}

func checkL01(c *Ctx) {
	c.Rule("gate", "a debug method writes exactly one message if the pin has a bit in common with the logger's pins and writes nothing otherwise", 3)
	c.Rule("pins", "the constructor keeps the configured pins when debugging is on and clears them when it is off; the accessor returns them", 3)
	n, ok := loggerMethods(c)
	if !ok {
		return
	}
	st := n.Underlying().(*types.Struct)
	pinT := c.P.Named("node/log", "Pin")
	pf := -1
	for i := 0; i < st.NumFields(); i++ {
		if pinT != nil && types.Identical(st.Field(i).Type(), pinT) {
			pf = i
		}
	}
	if pf < 0 {
		c.Anchor("the pins of the logger")
		return
	}
	for _, m := range []string{"Debug", "Debugln", "Debugf"} {
		f := c.P.methodOf(n, m)
		if f == nil {
			c.Anchor("Logger." + m)
			continue
		}
		w := logWalker(c)
		args := w.Params(f)
		var pin *Term
		for i, p := range f.Params {
			if types.Identical(p.Type(), pinT) {
				pin = args[i]
			}
		}
		s0 := newState()
		pins := w.load(s0, w.fieldAddr(args[0], n, pf), pinT)
		wrote, silent := 0, 0
		for _, x := range w.Run(f, args, nil, s0) {
			var writes []*Event
			for _, e := range x.St.Events() {
				if e.Kind == "call" && isLogWrite(e.Name) {
					writes = append(writes, e)
				}
				if e.Kind == "go" || e.Kind == "panic" {
					c.Bad("gate", m, c.at(e.Instr), "%s does not log synchronously: %s", m, e)
				}
			}
			if x.Panic {
				c.Bad("gate", m, c.at(x.Instr), "a debug method can panic or exit")
				continue
			}
			a, b := pin, pins
			if b.ID < a.ID {
				a, b = b, a
			}
			masked := x.St.Truth(tEq(mk("bin", "&", pinT, a, b), tInt(0)))
			switch {
			case masked == yes:
				silent++
				if len(writes) != 0 {
					c.Bad("gate", m, c.at(writes[0].Instr), "%s writes a message on a path where no bit of the pin is enabled", m)
				}
			case masked == no:
				wrote++
				if len(writes) != 1 {
					c.Bad("gate", m, c.at(x.Instr), "%s writes %d messages on a path where the pin is enabled", m, len(writes))
				}
			default:
				c.Bad("gate", m, c.at(x.Instr), "%s ends on a path (%d messages written) where it is not decided by pin&pins whether the message is enabled; path: %s", m, len(writes), x.St.facts)
			}
		}
		if c.Expect(wrote > 0, "gate", m, c.P.pos(f.Pos()), "%s never writes an enabled message", m) {
			c.Expect(silent > 0, "gate", m, c.P.pos(f.Pos()), "%s never suppresses a message", m)
		}
		c.Done(w)
	}
	// constructor
	f := c.P.Func("node/log", "NewLogger")
	w := logWalker(c)
	args := w.Params(f)
	cfg := args[0]
	ct := c.P.Named("node/log", "Config")
	for _, x := range w.Run(f, args, nil, nil) {
		if x.Panic {
			c.Bad("pins", "NewLogger", c.at(x.Instr), "NewLogger can panic")
			continue
		}
		l := x.Rets[0]
		for l.Op == "iface" {
			l = l.Args[0]
		}
		got := w.load(x.St, w.fieldAddr(l, n, pf), pinT)
		di, dt := fieldIndex(ct, "Debug")
		pi, pt := fieldIndex(ct, "Pins")
		if di < 0 || pi < 0 {
			c.Anchor("Config.Debug / Config.Pins")
			return
		}
		dbg := project(cfg, "Debug", di, dt)
		want := project(cfg, "Pins", pi, pt)
		switch x.St.Truth(dbg) {
		case yes:
			c.Expect(x.St.Eq(got, want), "pins", "NewLogger with debug on", c.at(x.Instr), "with debugging on the logger gets pins %s instead of the configured ones", got)
		case no:
			c.Expect(x.St.Eq(got, tInt(0)), "pins", "NewLogger with debug off", c.at(x.Instr), "with debugging off the logger gets pins %s instead of none", got)
		default:
			c.Bad("pins", "NewLogger", c.at(x.Instr), "NewLogger does not look at the Debug option on a path; pins are %s", got)
		}
	}
	c.Done(w)
	if f := c.P.methodOf(n, "Pins"); f == nil {
		c.Anchor("Logger.Pins")
	} else {
		w := logWalker(c)
		args := w.Params(f)
		pins := w.load(newState(), w.fieldAddr(args[0], n, pf), pinT)
		for _, x := range w.Run(f, args, nil, nil) {
			c.Expect(!x.Panic && len(x.Rets) == 1 && x.Rets[0] == pins, "pins", "Pins", c.at(x.Instr), "Pins returns something else than the logger's pins")
		}
		c.Done(w)
	}
	// nobody else writes the pins
	c.Rule("pins-writers", "the pins of a logger are written only where it is constructed", 1)
	key := fieldKeyOf(n, pf)
	for _, g := range c.P.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && addrKey(s.Addr) == key {
					_, fresh := rootOf(s.Addr).(*ssa.Alloc)
					c.Expect(fresh, "pins-writers", fname(g), c.at(in), "%s changes the pins of an existing logger", fname(g))
				}
			}
		}
	}
}

func checkL02(c *Ctx) {
	c.Rule("text", "the text written by a method carries its level mark, then (error methods) the error, then all the caller's arguments, unmodified and in order", 6)
	c.Rule("depth", "the call depth given to the writer names the caller of the logging method", 6)
	c.Rule("passthrough", "the print, panic and fatal methods write through the underlying logger without changes", 9)
	c.Assume("log.Logger of the standard library writes what it is given, with its prefix and flags")
	n, ok := loggerMethods(c)
	if !ok {
		return
	}
	for _, m := range []string{"Debug", "Debugln", "Debugf", "Error", "Errorln", "Errorf"} {
		f := c.P.methodOf(n, m)
		if f == nil {
			c.Anchor("Logger." + m)
			continue
		}
		w := logWalker(c)
		ps := w.Params(f)
		var errT, fmtT, argsT *Term
		for i, p := range f.Params {
			switch {
			case i == 0:
			case p.Type().String() == "error":
				errT = ps[i]
			case isStr(p.Type()):
				fmtT = ps[i]
			default:
				if _, ok := p.Type().Underlying().(*types.Slice); ok {
					argsT = ps[i]
				}
			}
		}
		nw := 0
		for _, x := range w.Run(f, ps, nil, nil) {
			c.Expect(!x.Panic, "text", m, c.at(x.Instr), "%s can panic or exit the process", m)
			k := 0
			for _, e := range x.St.Events() {
				if e.Kind == "store" {
					if argsT != nil && (rootTerm(e.Addr) == argsT || rootTerm(e.Addr).Op != "makeslice" && rootTerm(e.Addr).Op != "alloc" && e.Addr.contains(argsT)) {
						c.Bad("text", m, c.at(e.Instr), "%s modifies the argument list of its caller", m)
					}
					continue
				}
				if e.Kind != "call" || !isLogWrite(e.Name) {
					continue
				}
				nw++
				k++
				if e.Name != "(*log.Logger).Output" {
					c.Bad("depth", m, c.at(e.Instr), "%s writes by %s, which attributes the message to the log package", m, e.Name)
					continue
				}
				want := tInt(int64(2 + e.Depth))
				c.Expect(e.Args[1] == want, "depth", m, c.at(e.Instr), "%s gives call depth %s; the caller of the method is at depth %s", m, e.Args[1], want)
				got := mergeLits(textPieces(e.Args[2]))
				msg := textMatches(m, got, errT, fmtT, argsT)
				c.Expect(msg == "", "text", m, c.at(e.Instr), "%s: %s; the text is %s", m, msg, piecesString(got))
			}
			if strings.HasPrefix(m, "Error") && !x.Panic {
				c.Expect(k == 1, "text", m, c.at(x.Instr), "%s writes %d messages on a path (%s)", m, k, x.St.facts)
			}
		}
		c.Expect(nw > 0, "text", m, c.P.pos(f.Pos()), "%s never writes a message", m)
		c.Done(w)
	}
	// promoted methods
	ms := types.NewMethodSet(types.NewPointer(n))
	for _, m := range []string{"Print", "Println", "Printf", "Panic", "Panicln", "Panicf", "Fatal", "Fatalln", "Fatalf", "SetPrefix", "SetFlags", "SetOutput"} {
		s := ms.Lookup(nil, m)
		if s == nil {
			c.Anchor("Logger." + m)
			continue
		}
		fo := s.Obj().(*types.Func)
		if fo.Pkg() != nil && fo.Pkg().Path() == "log" {
			c.Site("passthrough", m)
			continue
		}
		f := c.P.SSA.FuncValue(fo)
		if f == nil || len(f.Blocks) == 0 {
			c.Anchor("Logger." + m)
			continue
		}
		w := logWalker(c)
		ps := w.Params(f)
		for _, x := range w.Run(f, ps, nil, nil) {
			good := 0
			for _, e := range x.St.Events() {
				if e.Kind == "call" && e.Name == "(*log.Logger)."+m && len(e.Args) == len(ps) {
					same := true
					for i := 1; i < len(ps); i++ {
						same = same && e.Args[i] == ps[i]
					}
					if same {
						good++
						continue
					}
				}
				if e.Kind == "call" && e.Name == "(*log.Logger).Output" && e.Args[1] == tInt(int64(2+e.Depth)) {
					if t := e.Args[2]; t.Op == "pure" && t.Aux == "fmt.S"+strings.ToLower(m[:1])+m[1:]+"#0" {
						good++
					}
				}
			}
			c.Expect(good == 1, "passthrough", m, c.at(x.Instr), "%s does not hand its arguments to the underlying logger on a path", m)
		}
		c.Done(w)
	}
}

// textMatches: "" or what is missing
func textMatches(m string, got []piece, errT, fmtT, argsT *Term) string {
	mark := "[DBG]"
	if errT != nil {
		mark = "[ERR]"
	}
	i := 0
	if len(got) == 0 || got[0].kind != "lit" || !strings.HasPrefix(got[0].s, mark+" ") {
		return fmt.Sprintf("the text does not begin with the mark %q", mark)
	}
	rest := strings.TrimPrefix(got[0].s, mark)
	i = 1
	if errT != nil {
		if strings.TrimSpace(rest) != "err=" {
			return "the error is not introduced by err="
		}
		if i >= len(got) || got[i].kind != "val" || got[i].t != errT {
			return "the error is missing"
		}
		if got[i].s != "s" && got[i].s != "v" && got[i].s != "" {
			return "the error is not printed as text"
		}
		i++
		if i >= len(got) || got[i].kind != "lit" || strings.TrimSpace(got[i].s) != "" {
			return "the error is not separated from the arguments"
		}
		i++
	} else if strings.TrimSpace(rest) != "" {
		return "unexpected text after the mark"
	}
	if i >= len(got) {
		return "the caller's arguments are missing"
	}
	p := got[i]
	i++
	want := "spread"
	if strings.HasSuffix(m, "ln") {
		want = "spreadln"
	}
	if fmtT != nil {
		if p.kind != "fmt" || p.t != fmtT || p.args != argsT {
			return "the caller's format is not applied to the caller's arguments"
		}
	} else if p.kind != want || p.t != argsT {
		return "the caller's arguments are not all printed"
	}
	for ; i < len(got); i++ {
		if got[i].kind != "lit" || strings.TrimSpace(got[i].s) != "" {
			return "unexpected text after the arguments"
		}
	}
	return ""
}

func checkL03(c *Ctx) {
	c.Rule("construct", "the constructor builds the writer from the configured output (standard error by default), the configured prefix and the short-file and time flags", 3)
	c.Rule("defaults", "the default configuration has no prefix, no debugging, all pins and no output", 4)
	flagRule(c, "node/log", "Config", map[string]string{"log-prefix": "Prefix", "debug": "Debug", "debug-pins": "Pins"})
	f := c.P.Func("node/log", "NewLogger")
	ct := c.P.Named("node/log", "Config")
	n, ok := loggerMethods(c)
	if !ok || f == nil || ct == nil {
		c.Anchor("node/log.NewLogger")
		return
	}
	w := logWalker(c)
	args := w.Params(f)
	fv := func(name string) *Term {
		i, t := fieldIndex(ct, name)
		if i < 0 {
			c.Anchor("Config." + name)
			return tNone
		}
		return project(args[0], name, i, t)
	}
	for _, x := range w.Run(f, args, nil, nil) {
		if x.Panic {
			c.Bad("construct", "NewLogger", c.at(x.Instr), "NewLogger can panic")
			continue
		}
		l := unwrapIface(x.Rets[0])
		st := n.Underlying().(*types.Struct)
		var lg *Term
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Type().String() == "*log.Logger" {
				lg = w.load(x.St, w.fieldAddr(l, n, i), st.Field(i).Type())
			}
		}
		var mkev *Event
		for _, e := range x.St.Events() {
			_ = e
		}
		_ = mkev
		if lg == nil || lg.Op != "call" || !strings.HasPrefix(lg.Aux, "log.New#0") {
			c.Bad("construct", "NewLogger", c.at(x.Instr), "the logger does not write through a log.New logger but %s", lg)
			continue
		}
		out, prefix, flags := lg.Args[0], lg.Args[1], lg.Args[2]
		co := fv("Output")
		switch x.St.IsNil(co) {
		case yes:
			u := unwrapIface(out)
			c.Expect(u.Op == "load" && u.Args[0].Aux == "os.Stderr", "construct", "output default", c.at(x.Instr), "without a configured output the logger writes to %s, not to standard error", out)
		case no:
			c.Expect(out == co, "construct", "output configured", c.at(x.Instr), "the logger writes to %s instead of the configured output", out)
		default:
			c.Expect(out == co, "construct", "output", c.at(x.Instr), "the configured output is not looked at; the logger writes to %s", out)
		}
		c.Expect(prefix == fv("Prefix"), "construct", "prefix", c.at(x.Instr), "the logger's prefix is %s, not the configured one", prefix)
		c.Expect(flags == tInt(18), "construct", "flags", c.at(x.Instr), "the logger's flags are %s, not short file and time", flags)
	}
	c.Done(w)
	d := c.P.Func("node/log", "NewConfig")
	if d == nil {
		c.Anchor("node/log.NewConfig")
		return
	}
	w = logWalker(c)
	for _, x := range w.Run(d, nil, nil, nil) {
		v := x.Rets[0]
		g := func(name string) *Term {
			i, t := fieldIndex(ct, name)
			if i < 0 {
				return tNone
			}
			return project(v, name, i, t)
		}
		c.Expect(g("Prefix") == tStr(""), "defaults", "Prefix", c.at(x.Instr), "default prefix is %s", g("Prefix"))
		c.Expect(g("Debug") == tFalse, "defaults", "Debug", c.at(x.Instr), "default debug is %s", g("Debug"))
		p := g("Pins")
		c.Expect(p.Op == "big" && p.Aux == "18446744073709551615", "defaults", "Pins", c.at(x.Instr), "default pins are %s, not all", p)
		c.Expect(g("Output") == tNil, "defaults", "Output", c.at(x.Instr), "default output is %s", g("Output"))
	}
	c.Done(w)
}

// flagRule checks the flag registration of a configuration
func flagRule(c *Ctx, pkg, typ string, want map[string]string) {
	c.Rule("flags", "each command-line flag is bound to the option it names and its default is the present value of that very option", len(want))
	f := c.P.Method(pkg, typ, "FromFlags")
	if f == nil {
		c.Anchor(pkg + "." + typ + ".FromFlags")
		return
	}
	w := c.P.NewWalker()
	w.Opaque = func(g *ssa.Function) bool { return g.Pkg != f.Pkg }
	seen := map[string]string{}
	dst := map[*Term]string{}
	w.OnEvent = func(st *State, ev *Event) bool {
		if ev.Kind == "call" && strings.HasPrefix(ev.Name, "(*flag.FlagSet).") && ev.Args[0].Op == "load" && ev.Args[0].Args[0].Aux == "flag.CommandLine" {
			e := *ev // the same, on the flag set of the process
			e.Name, e.Args = "flag."+strings.TrimPrefix(ev.Name, "(*flag.FlagSet)."), ev.Args[1:]
			ev.Name, ev.Args = e.Name, e.Args
		}
		if ev.Kind != "call" || !strings.HasPrefix(ev.Name, "flag.") {
			return false
		}
		var ptr, name, def *Term
		switch {
		case ev.Name == "flag.Var":
			ptr, name = unwrapIface(ev.Args[0]), ev.Args[1]
		case strings.HasSuffix(ev.Name, "Var") && len(ev.Args) == 4:
			ptr, name, def = ev.Args[0], ev.Args[1], ev.Args[2]
		default:
			return false
		}
		if name.Op != "str" {
			c.Bad("flags", "?"+ev.Name, c.at(ev.Instr), "flag name %s is not constant", name)
			return false
		}
		path := ""
		for x := ptr; x.Op == "field"; x = x.Args[0] {
			if path == "" {
				path = x.Aux
			} else {
				path = x.Aux + "." + path
			}
		}
		if rootTerm(ptr).Op != "param" {
			c.Bad("flags", name.Aux, c.at(ev.Instr), "flag -%s is not bound to an option of the configuration but to %s", name.Aux, ptr)
			return false
		}
		seen[name.Aux] = path
		if o, dup := dst[ptr]; dup && o != name.Aux {
			c.Bad("flags", name.Aux, c.at(ev.Instr), "flags -%s and -%s share an option", o, name.Aux)
		}
		dst[ptr] = name.Aux
		c.Site("flags", name.Aux)
		if def != nil && ptr.T != nil {
			cur := w.load(st, ptr, deref(ptr.T))
			d := def
			c.Expect(st.Eq(d, cur) || d == cur, "flags", name.Aux, c.at(ev.Instr), "the default of -%s is %s, not the present value of the option %s", name.Aux, d, path)
		}
		ev.Tag = name.Aux
		return true
	}
	for _, x := range w.Run(f, nil, nil, nil) {
		reg := map[string]int{}
		for _, e := range x.St.Events() {
			reg[e.Tag]++
		}
		for n := range want {
			c.Expect(reg[n] == 1, "flags", n, c.at(x.Instr), "flag -%s is registered %d times on a path", n, reg[n])
		}
	}
	c.Done(w)
	for n, fld := range want {
		got, ok := seen[n]
		c.Expect(ok && got == fld, "flags", n, c.P.pos(f.Pos()), "flag -%s sets option %q instead of %q", n, got, fld)
	}
}
