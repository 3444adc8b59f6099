package main

// Values of references: Ref and Dynamic, and packs they are kept in.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R04", "A reference holds, returns, replaces and clears exactly its object",
		"Every path of the methods of references and of packs is run for an arbitrary reference, object and outcome of the pack; results, writes and what is left in the reference are compared with the specification.", checkR04)
}

func checkR04(c *Ctx) {
	c.Rule("value", "Value of a blank reference is ErrReferenceRepresentsNil (of an invalid Dynamic ErrInvalidDynamicReference); otherwise the object of its hash is decoded to the argument, and an error of either is returned.", 6)
	c.Rule("set", "SetValue of nil or of a nil pointer clears the reference; otherwise the encoded object is added to the pack and its hash is kept; if that fails the reference is not changed.", 8)
	c.Rule("blank", "A reference is blank exactly if nothing is set, invalid exactly if it has an object without a schema; Clear makes it blank.", 7)
	c.Rule("pack", "A pack returns what it was set to: its registry, a valid degree, flags added and cleared; Add keeps an object under the hash of it, not one that is too large.", 12)
	k := &refCtx{c: c}
	for _, n := range []string{"Ref", "Dynamic"} {
		if k.typ = c.P.Named("skyobject/registry", n); k.typ == nil {
			c.Anchor("registry." + n)
			continue
		}
		k.blank("IsBlank")
		if n == "Dynamic" {
			k.blank("IsValid")
		}
		k.clear()
		k.value()
		k.set()
	}
	k.blankRefs()
	k.packs()
}

type refCtx struct {
	c   *Ctx
	typ *types.Named
}

func (k *refCtx) walker() *Walker {
	w := k.c.P.NewWalker()
	w.SamePkg, w.Split, w.AnyRound, w.Loops, w.MaxStates = true, true, true, 1, 3000
	w.OnEvent = anyEvent
	return w
}

// fieldZero: is a field of the reference known to be empty
func (k *refCtx) zeros(w *Walker, st *State, p *Term) (hash, schema, all tri) {
	schema = yes // there is none
	s := k.typ.Underlying().(*types.Struct)
	of := func(a *Term, t types.Type) tri {
		v := canon(w.load(newState(), a, t))
		return equal(st, v, func(x *Term) bool { return x.Op == "zero" })
	}
	all = of(p, k.typ)
	for i := 0; i < s.NumFields(); i++ {
		z := of(w.fieldAddr(p, k.typ, i), s.Field(i).Type())
		if all == yes {
			z = yes
		}
		if typeName(s.Field(i).Type()) == "SHA256" {
			hash = z
		} else {
			schema = z
		}
	}
	if all == no {
		if hash == yes {
			schema = no
		} else if schema == yes {
			hash = no
		}
	} else if all == unknown {
		all = tAnd(hash, schema)
	}
	return
}

// blank: IsBlank and IsValid
func (k *refCtx) blank(m string) {
	c := k.c
	f := c.P.Method("skyobject/registry", k.typ.Obj().Name(), m)
	if f == nil {
		c.Anchor(k.typ.Obj().Name() + "." + m)
		return
	}
	name, at := fname(f), c.P.pos(f.Pos())
	w := k.walker()
	ps := w.Params(f)
	for _, e := range w.Run(f, ps, nil, nil) {
		dbg("exit", name, e)
		if !c.Expect(!e.Panic && len(e.Rets) == 1, "blank", m+" panics", at, "%s panics", name) {
			continue
		}
		// both outcomes of what is returned
		for _, out := range []bool{true, false} {
			st := e.St.clone()
			if !st.assume(e.Rets[0], out) {
				continue
			}
			h, s, want := k.zeros(w, st, ps[0])
			if m == "IsValid" {
				want = triNot(tAnd(triNot(h), s))
				if s == no || h == yes {
					want = yes
				}
			}
			c.Expect(want == triOf(out), "blank", m, at, "%s returns %v; object is empty: %v, schema: %v", name, out, h, s)
		}
		k.untouched(w, e, ps[0], "blank", m, at, name)
	}
	c.Done(w)
}

// untouched: nothing of the reference is written
func (k *refCtx) untouched(w *Walker, e *Exit, p *Term, rule, key, at, name string) {
	for _, ev := range e.St.Events() {
		if ev.Kind == "store" && rootTerm(ev.Addr) == p {
			k.c.Bad(rule, key+" writes", at, "%s writes %s", name, ev.Addr)
		}
	}
}

// empties: is each of the fields empty at the end
func (k *refCtx) emptied(w *Walker, st *State, p *Term) bool {
	s := k.typ.Underlying().(*types.Struct)
	if v := w.load(st, p, k.typ); v.Op == "zero" {
		return true
	}
	for i := 0; i < s.NumFields(); i++ {
		v := w.load(st, w.fieldAddr(p, k.typ, i), s.Field(i).Type())
		if v.Op != "zero" && st.Truth(tEq(v, zeroTerm(s.Field(i).Type()))) != yes {
			return false
		}
	}
	return true
}

func (k *refCtx) clear() {
	c := k.c
	f := c.P.Method("skyobject/registry", k.typ.Obj().Name(), "Clear")
	if f == nil {
		c.Anchor(k.typ.Obj().Name() + ".Clear")
		return
	}
	name, at := fname(f), c.P.pos(f.Pos())
	w := k.walker()
	ps := w.Params(f)
	for _, e := range w.Run(f, ps, nil, nil) {
		dbg("exit", name, e)
		c.Expect(!e.Panic && k.emptied(w, e.St, ps[0]), "blank", "Clear", at, "%s leaves something in the reference", name)
	}
	c.Done(w)
}

// hashOf: the hash of the reference as it was at the start
func (k *refCtx) hashOf(w *Walker, p *Term) *Term {
	s := k.typ.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if typeName(s.Field(i).Type()) == "SHA256" {
			return canon(w.load(newState(), w.fieldAddr(p, k.typ, i), s.Field(i).Type()))
		}
	}
	return tNone
}

// packCalls: calls of a pack, of the encoder, and all others that could change something
func packCalls(st *State) (gets, adds, encs, decs, sets []*Event) {
	for _, ev := range st.Events() {
		if ev.Kind != "call" {
			continue
		}
		switch {
		case strings.HasSuffix(ev.Name, "registry.Pack.Get"):
			gets = append(gets, ev)
		case strings.HasSuffix(ev.Name, "registry.Pack.Add"):
			adds = append(adds, ev)
		case strings.HasSuffix(ev.Name, "registry.Pack.Set"):
			sets = append(sets, ev)
		case strings.HasSuffix(ev.Name, "encoder.Serialize"):
			encs = append(encs, ev)
		case strings.HasSuffix(ev.Name, "encoder.DeserializeRaw"):
			decs = append(decs, ev)
		}
	}
	return
}

// arg: the n-th argument counted from the end
func argEnd(ev *Event, n int) *Term {
	if len(ev.Args) < n {
		return tNone
	}
	return ev.Args[len(ev.Args)-n]
}

// resOf: a result of a call
func resOf(ev *Event, i int) *Term {
	if ev.Res != nil && ev.Res.Op == "tuple" && i < len(ev.Res.Args) {
		return ev.Res.Args[i]
	}
	if i == 0 && ev.Res != nil {
		return ev.Res
	}
	return tNone
}

func (k *refCtx) value() {
	c := k.c
	typ := k.typ.Obj().Name()
	f := c.P.Method("skyobject/registry", typ, "Value")
	if f == nil || len(f.Params) != 3 {
		c.Anchor(typ + ".Value")
		return
	}
	name, at := fname(f), c.P.pos(f.Pos())
	w := k.walker()
	ps := w.Params(f)
	seen := map[string]bool{}
	for _, e := range w.Run(f, ps, nil, nil) {
		dbg("exit", name, e)
		st := e.St
		if !c.Expect(!e.Panic && len(e.Rets) == 1, "value", typ+" panics", at, "%s panics", name) {
			continue
		}
		k.untouched(w, e, ps[0], "value", typ, at, name)
		err := e.Rets[0]
		h, s, _ := k.zeros(w, st, ps[0])
		gets, adds, encs, decs, sets := packCalls(st)
		c.Expect(len(adds)+len(sets)+len(encs) == 0, "value", typ+" saves", at, "%s saves something", name)
		switch {
		case isSentinel(err, "ErrInvalidDynamicReference"):
			c.Expect(typ == "Dynamic" && h == no && s == yes, "value", typ+" invalid", at, "%s returns %s; object is empty: %v, schema: %v", name, err, h, s)
			seen["invalid"] = true
			continue
		case isSentinel(err, "ErrReferenceRepresentsNil"):
			c.Expect(h == yes, "value", typ+" blank", at, "%s returns %s; object is empty: %v", name, err, h)
			seen["blank"] = true
			continue
		}
		c.Expect(!(h == yes && s == yes), "value", typ+" blank", at, "%s does not return ErrReferenceRepresentsNil for a blank reference", name)
		if typ == "Dynamic" {
			c.Expect(s == no || h == yes, "value", typ+" invalid", at, "%s is not known to be valid", name)
		} else {
			c.Expect(h == no, "value", typ+" blank", at, "%s is not known not to be blank", name)
		}
		if !c.Expect(len(gets) == 1 && gets[0].Args[0] == ps[1] && canon(argEnd(gets[0], 1)) == k.hashOf(w, ps[0]), "value", typ+" get", at, "%s does not get the object of its hash from the pack: %v", name, gets) {
			continue
		}
		val, gerr := resOf(gets[0], 0), lastRes(gets[0])
		if st.IsNil(gerr) == no {
			c.Expect(err == gerr && len(decs) == 0, "value", typ+" get fails", at, "%s returns %s if getting fails", name, err)
			seen["get fails"] = true
			continue
		}
		c.Expect(st.IsNil(gerr) == yes, "value", typ+" get fails", at, "an error of getting is not looked at")
		if c.Expect(len(decs) == 1 && argEnd(decs[0], 2) == val && argEnd(decs[0], 1) == ps[2], "value", typ+" decode", at, "%s does not decode what it got to the argument: %v", name, decs) {
			d := lastRes(decs[0])
			c.Expect(err == d || st.Eq(err, d), "value", typ+" decode fails", at, "%s returns %s, decoding %s", name, err, d)
			seen["decoded"] = true
		}
	}
	c.Done(w)
	for _, n := range []string{"blank", "get fails", "decoded"} {
		c.Expect(seen[n], "value", typ+" case "+n, at, "%s has no way for the case %q", name, n)
	}
	c.Expect(typ != "Dynamic" || seen["invalid"], "value", typ+" case invalid", at, "%s does not refuse an invalid reference", name)
}

func (k *refCtx) set() {
	c := k.c
	typ := k.typ.Obj().Name()
	f := c.P.Method("skyobject/registry", typ, "SetValue")
	if f == nil || len(f.Params) != 3 {
		c.Anchor(typ + ".SetValue")
		return
	}
	name, at := fname(f), c.P.pos(f.Pos())
	w := k.walker()
	ps := w.Params(f)
	seen := map[string]bool{}
	for _, e := range w.Run(f, ps, nil, nil) {
		dbg("exit", name, e)
		st := e.St
		if !c.Expect(!e.Panic && len(e.Rets) == 1, "set", typ+" panics", at, "%s panics", name) {
			continue
		}
		err := e.Rets[0]
		gets, adds, encs, decs, sets := packCalls(st)
		c.Expect(len(gets)+len(decs)+len(sets) == 0, "set", typ+" other", at, "%s gets or sets something", name)
		// nil, or a nil pointer
		null := k.isNil(st, ps[2])
		c.Expect(null != unknown, "set", typ+" nil", at, "%s: it is not known whether the object is nil", name)
		if null == yes {
			c.Expect(len(adds) == 0 && st.IsNil(err) == yes && k.emptied(w, st, ps[0]), "set", typ+" nil", at, "%s does not clear the reference for nil", name)
			seen["nil"] = true
			continue
		}
		if !c.Expect(len(adds) == 1 && len(encs) == 1 && adds[0].Args[0] == ps[1] && argEnd(encs[0], 1) == ps[2] && argEnd(adds[0], 1) == encs[0].Res, "set", typ+" add", at, "%s does not add the encoded object to the pack: %v", name, adds) {
			continue
		}
		aerr := lastRes(adds[0])
		if st.IsNil(aerr) == no {
			c.Expect(err == aerr, "set", typ+" fails", at, "%s returns %s if adding fails", name, err)
			k.untouched(w, e, ps[0], "set", typ+" fails", at, name)
			seen["fails"] = true
			continue
		}
		c.Expect(st.IsNil(aerr) == yes && st.IsNil(err) == yes, "set", typ+" fails", at, "%s returns %s", name, err)
		seen["set"] = true
		s := k.typ.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			a := w.fieldAddr(ps[0], k.typ, i)
			v := w.load(st, a, s.Field(i).Type())
			if typeName(s.Field(i).Type()) == "SHA256" {
				c.Expect(v == resOf(adds[0], 0), "set", typ+" hash", at, "%s keeps %s as the hash", name, v)
			} else {
				c.Expect(canon(v) == canon(w.load(newState(), a, s.Field(i).Type())), "set", typ+" "+s.Field(i).Name(), at, "%s changes %s to %s", name, s.Field(i).Name(), v)
			}
		}
	}
	c.Done(w)
	for _, n := range []string{"nil", "fails", "set"} {
		c.Expect(seen[n], "set", typ+" case "+n, at, "%s has no way for the case %q", name, n)
	}
}

// isNil: is an object known to be nil or a nil pointer
func (k *refCtx) isNil(st *State, obj *Term) tri {
	if st.IsNil(obj) == yes {
		return yes
	}
	ptr, null := unknown, unknown
	for _, f := range factsOf(st) {
		f.t.any(func(x *Term) bool {
			if isCallOf(x, "(reflect.Value).IsNil") {
				if v := truthLoose(st, x); v != unknown {
					null = v
				}
			}
			if isCallOf(x, "(reflect.Value).Kind") || isCallOf(x, "reflect.Type.Kind") {
				if v := truthLoose(st, tEq(x, tInt(22))); v != unknown {
					ptr = v
				}
			}
			return false
		})
	}
	switch {
	case ptr == no || null == no:
		return no
	case ptr == yes && null == yes:
		return yes
	}
	return unknown
}

// blankRefs: references to schemas and registries
func (k *refCtx) blankRefs() {
	c := k.c
	for _, n := range []string{"SchemaRef", "RegistryRef"} {
		f := c.P.Method("skyobject/registry", n, "IsBlank")
		if f == nil {
			c.Anchor(n + ".IsBlank")
			continue
		}
		w := k.walker()
		ps := w.Params(f)
		at := c.P.pos(f.Pos())
		for _, e := range w.Run(f, ps, nil, nil) {
			for _, out := range []bool{true, false} {
				st := e.St.clone()
				if e.Panic || !st.assume(e.Rets[0], out) {
					continue
				}
				z := equal(st, canon(ps[0]), func(x *Term) bool { return x.Op == "zero" })
				c.Expect(z == triOf(out), "blank", n, at, "IsBlank of a %s returns %v; it is empty: %v", n, out, z)
			}
		}
		c.Done(w)
	}
}

// packs: settings of a pack
func (k *refCtx) packs() {
	c := k.c
	for _, t := range []string{"Pack"} {
		n := c.P.Named("skyobject", t)
		if n == nil {
			c.Anchor("skyobject." + t)
			return
		}
		k.pack(n)
	}
	// degrees
	f := c.P.Method("skyobject/registry", "Degree", "Validate")
	max := k.constOf("MaxDegree")
	if f == nil || max < 0 {
		c.Anchor("Degree.Validate, MaxDegree")
		return
	}
	w := k.walker()
	ps := w.Params(f)
	at := c.P.pos(f.Pos())
	for _, e := range w.Run(f, ps, nil, nil) {
		if e.Panic {
			c.Bad("pack", "degree", at, "Validate panics")
			continue
		}
		in := tAnd(triNot(e.St.Truth(tLt(ps[0], tInt(2), false))), triNot(e.St.Truth(tLt(tInt(max), ps[0], false))))
		c.Expect(in != unknown && in == e.St.IsNil(e.Rets[0]), "pack", "degree", at, "Validate returns %s; the degree is from 2 to %d: %v", e.Rets[0], max, in)
		c.Expect(in != no || isSentinel(e.Rets[0], "ErrInvalidDegree"), "pack", "degree", at, "Validate returns %s for an invalid degree", e.Rets[0])
	}
	c.Done(w)
}

func (k *refCtx) constOf(name string) int64 {
	if p := k.c.P.Pkgs["skyobject/registry"]; p != nil {
		if m, ok := p.Members[name].(*ssa.NamedConst); ok {
			return constTerm(m.Value).C
		}
	}
	return -1
}

func (k *refCtx) pack(n *types.Named) {
	c := k.c
	field := func(w *Walker, st *State, p *Term, typ string) *Term {
		fn := fieldBy(n, func(t types.Type) bool { return typeName(t) == typ })
		i, ft := fieldIndex(n, fn)
		if i < 0 {
			return tNone
		}
		return w.load(st, w.fieldAddr(p, n, i), ft)
	}
	run := func(m string, f func(w *Walker, ps []*Term, e *Exit, at string)) {
		g := c.P.Method("skyobject", n.Obj().Name(), m)
		if g == nil {
			c.Anchor(n.Obj().Name() + "." + m)
			return
		}
		w := k.walker()
		w.Opaque = func(g *ssa.Function) bool {
			r := g.Signature.Recv()
			return g.Name() == "Validate" || r != nil && (typeName(r.Type()) == "Cache" || typeName(r.Type()) == "Container")
		}
		ps := w.Params(g)
		for _, e := range w.Run(g, ps, nil, nil) {
			dbg("exit", fname(g), e)
			if c.Expect(!e.Panic, "pack", m, c.P.pos(g.Pos()), "%s panics", fname(g)) {
				f(w, ps, e, c.P.pos(g.Pos()))
			}
		}
		c.Done(w)
	}
	// what else than a field is written
	only := func(e *Exit, p *Term, typ, m, at string) {
		for _, ev := range e.St.Events() {
			if ev.Kind == "store" && rootTerm(ev.Addr) == p && typeName(deref(ev.Addr.T)) != typ {
				c.Bad("pack", m, at, "%s writes %s", m, ev.Addr)
			}
		}
	}
	for m, typ := range map[string]string{"Registry": "Registry", "Degree": "Degree", "Flags": "Flags"} {
		m, typ := m, typ
		run(m, func(w *Walker, ps []*Term, e *Exit, at string) {
			c.Expect(canon(e.Rets[0]) == canon(field(w, newState(), ps[0], typ)), "pack", m, at, "%s returns %s", m, e.Rets[0])
			only(e, ps[0], "", m, at)
		})
	}
	run("SetDegree", func(w *Walker, ps []*Term, e *Exit, at string) {
		var val *Event
		for _, ev := range e.St.Events() {
			if ev.Kind == "call" && ev.Static != nil && ev.Static.Name() == "Validate" && ev.Args[0] == ps[1] {
				val = ev
			}
		}
		if !c.Expect(val != nil, "pack", "SetDegree", at, "the degree is not validated") {
			return
		}
		d := field(w, e.St, ps[0], "Degree")
		switch e.St.IsNil(val.Res) {
		case yes:
			c.Expect(e.St.IsNil(e.Rets[0]) == yes && d == ps[1], "pack", "SetDegree", at, "a valid degree is kept as %s, error %s", d, e.Rets[0])
		case no:
			c.Expect(e.Rets[0] == val.Res && canon(d) == canon(field(w, newState(), ps[0], "Degree")), "pack", "SetDegree", at, "an invalid degree: %s, error %s", d, e.Rets[0])
		default:
			c.Bad("pack", "SetDegree", at, "it is not looked at whether the degree is valid")
		}
		only(e, ps[0], "Degree", "SetDegree", at)
	})
	for m, op := range map[string]string{"AddFlags": "|", "ClearFlags": "&^"} {
		m, op := m, op
		run(m, func(w *Walker, ps []*Term, e *Exit, at string) {
			v := field(w, e.St, ps[0], "Flags")
			old := canon(field(w, newState(), ps[0], "Flags"))
			c.Expect(bitsOf(v, old, ps[1]) == op, "pack", m, at, "flags are made %s", v)
			only(e, ps[0], "Flags", m, at)
		})
	}
	run("Get", func(w *Walker, ps []*Term, e *Exit, at string) {
		gs := calls0(e.St, "Cache).Get")
		if c.Expect(len(gs) == 1 && argEnd(gs[0], 2) == ps[1], "pack", "Get", at, "the object of the key is not asked for: %v", gs) {
			c.Expect(e.Rets[0] == resOf(gs[0], 0) && e.Rets[1] == lastRes(gs[0]) && argEnd(gs[0], 1) == tInt(0), "pack", "Get", at, "Get returns %s, %s of %s", e.Rets[0], e.Rets[1], gs[0])
		}
	})
	for _, m := range []string{"Set", "Add"} {
		m := m
		run(m, func(w *Walker, ps []*Term, e *Exit, at string) {
			gs := calls0(e.St, "Cache).Set")
			val, key := ps[len(ps)-1], ps[1]
			err := e.Rets[len(e.Rets)-1]
			if m == "Add" {
				sums := calls0(e.St, "cipher.SumSHA256")
				if !c.Expect(len(sums) == 1 && sums[0].Args[0] == val, "pack", m, at, "the hash of the object is not calculated") {
					return
				}
				key = sums[0].Res
				c.Expect(e.Rets[0] == key, "pack", m, at, "Add returns %s as the hash", e.Rets[0])
			}
			over := unknown
			l := w.lenOf(e.St, val, val.T)
			for _, t := range factTerms(e.St) {
				t.any(func(x *Term) bool {
					if isF(x, "MaxObjectSize", nil) {
						if v := e.St.Truth(tLt(x, l, false)); v != unknown {
							over = v
						}
					}
					return false
				})
			}
			switch over {
			case yes:
				c.Expect(len(gs) == 0 && e.St.IsNil(err) == no, "pack", m+" large", at, "an object that is too large is saved, error %s", err)
			case no:
				if c.Expect(len(gs) == 1 && argEnd(gs[0], 3) == key && argEnd(gs[0], 2) == val && argEnd(gs[0], 1) == tInt(1), "pack", m, at, "the object is not saved with one owner: %v", gs) {
					c.Expect(err == lastRes(gs[0]), "pack", m, at, "%s returns %s", m, err)
				}
			default:
				c.Bad("pack", m+" large", at, "the size of an object is not compared with the limit")
			}
		})
	}
}

func calls0(st *State, suffix string) (out []*Event) {
	for _, ev := range st.Events() {
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, suffix) {
			out = append(out, ev)
		}
	}
	return
}

// bitsOf: how a value is made of two others
func bitsOf(v, a, b *Term) string {
	v = canon(v)
	if len(v.Args) != 2 {
		return ""
	}
	p, q := v.Args[0], v.Args[1]
	isNot := func(t *Term) bool { return len(t.Args) == 1 && t.Args[0] == b && strings.Contains(t.Op+t.Aux, "^") }
	switch op := v.Aux; {
	case op == "|" && (p == a && q == b || p == b && q == a):
		return "|"
	case op == "&^" && p == a && q == b:
		return "&^"
	case op == "&" && (p == a && isNot(q) || q == a && isNot(p)):
		return "&^"
	}
	return v.Op + " " + v.Aux
}
