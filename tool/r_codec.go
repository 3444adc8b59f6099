package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R03", "An encoded schema and an encoded Registry decode into what they were",
		"Encoding of every schema type and of fields, decoding, accessors, references of schemas and the making of a Registry are run on arbitrary receivers and data; what is encoded in a field is compared with what the decoder reads of it; other schemas are replaced by their contract; rounds are judged from an arbitrary state.", checkR03)
}

type codec struct {
	*schemaCtx
	enc, encF    *types.Named // encodedSchema, encodedField
	field        *types.Named
	fName, fTag  string // of a field
	fSch         string
	decode, decF *ssa.Function
}

func checkR03(c *Ctx) {
	c.Rule("accessors", "Methods of schemas and fields tell the parts they are named after.", 40)
	c.Rule("encoding", "A schema is encoded with all its parts: kind and name, type of reference, length, fields in order, elements; what is registered below is encoded by kind and name.", 15)
	c.Rule("decoding", "An encoded schema is decoded into the same parts; what can't be decoded is an error, and nothing else is.", 12)
	c.Rule("references", "The reference of a schema is the hash of its own encoding.", 5)
	c.Rule("entities", "A Registry is encoded as names and encoded schemas of all it has, in order of names.", 6)
	c.Rule("decode registry", "A Registry is decoded with every schema by its name and finished, or with an error.", 4)
	c.Rule("finish", "All schemas get the registered elements, are checked for recursion, can be found by reference; the reference of the Registry is the hash of its encoding.", 5)
	c.Rule("fill", "A registered element, field or target of a reference becomes the schema registered with its name; what is missing is an error.", 9)
	c.Rule("recursion", "A schema that contains itself by value is an error, and nothing else is.", 6)
	c.Rule("lookup", "A schema is found by its name or reference, or an error is returned.", 2)
	c.Assume("encoder.Serialize and encoder.DeserializeRaw of one type invert each other; sort.Sort sorts by Less.")
	x := newSchemaCtx(c)
	if x == nil {
		return
	}
	k := &codec{schemaCtx: x}
	if !k.find() {
		return
	}
	k.fieldAccessors()
	for _, s := range x.ts {
		k.accessors(s)
		k.encode(s)
		k.reference(s)
	}
	k.encodeField()
	k.decodeSchema()
	k.decodeField()
	k.registry()
}

func (k *codec) find() bool {
	c := k.c
	named := func(n string) *types.Named {
		if o := k.reg.Scope().Lookup(n); o != nil {
			nt, _ := types.Unalias(o.Type()).(*types.Named)
			return nt
		}
		return nil
	}
	sig := func(res string) *ssa.Function {
		for _, f := range c.P.Funcs {
			s := f.Signature
			if f.Pkg != nil && f.Pkg.Pkg == k.reg && f.Parent() == nil && s.Recv() == nil && s.Params().Len() == 1 && isBytes(s.Params().At(0).Type()) && s.Results().Len() == 2 && typeName(s.Results().At(0).Type()) == res && isErrorT(s.Results().At(1).Type()) {
				return f
			}
		}
		return nil
	}
	k.decode, k.decF = sig("Schema"), sig("Field")
	if k.decode == nil || k.decF == nil {
		c.Anchor("registry: decoders of schemas and fields")
		return false
	}
	dec := func(f *ssa.Function) *types.Named {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok {
					if p, ok := mi.X.Type().(*types.Pointer); ok {
						if n, ok := types.Unalias(p.Elem()).(*types.Named); ok {
							if st, ok := n.Underlying().(*types.Struct); ok && !types.Implements(p, k.iface) && st.NumFields() > 0 && n.NumMethods() == 0 {
								return n
							}
						}
					}
				}
			}
		}
		return nil
	}
	k.enc, k.encF = dec(k.decode), dec(k.decF)
	if k.enc == nil {
		k.enc = named("encodedSchema")
	}
	if k.encF == nil {
		k.encF = named("encodedField")
	}
	if k.enc == nil || k.encF == nil {
		c.Anchor("registry: encoded schemas and fields")
		return false
	}
	for _, f := range []string{"ReferenceType", "Kind", "Name", "Len", "Fields", "Elem"} {
		if i, _ := fieldIndex(k.enc, f); i < 0 {
			c.Anchor("registry." + k.enc.Obj().Name() + "." + f)
			return false
		}
	}
	for _, f := range []string{"Name", "Tag", "Schema"} {
		if i, _ := fieldIndex(k.encF, f); i < 0 {
			c.Anchor("registry." + k.encF.Obj().Name() + "." + f)
			return false
		}
	}
	fi, _ := k.reg.Scope().Lookup("Field").Type().Underlying().(*types.Interface)
	for _, n := range k.reg.Scope().Names() {
		if nt := named(n); nt != nil && fi != nil && !types.IsInterface(nt) && types.Implements(types.NewPointer(nt), fi) {
			k.field = nt
		}
	}
	if k.field == nil {
		c.Anchor("registry: a type that implements Field")
		return false
	}
	for _, s := range k.ts {
		if s.fKind == "" || s.fName == "" {
			c.Anchor("registry." + s.n.Obj().Name() + ": kind and name")
			return false
		}
	}
	return true
}

func (k *codec) methodOf(n *types.Named, name string) *ssa.Function {
	ms := types.NewMethodSet(types.NewPointer(n))
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return k.c.P.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

// runOn: paths of a method of a type
func (k *codec) runOn(w *Walker, n *types.Named, name string, each func(e *Exit, obj *Term, at string)) {
	f := k.methodOf(n, name)
	if f == nil {
		k.c.Anchor("registry." + n.Obj().Name() + "." + name)
		return
	}
	ps := w.Params(f)
	ps[0] = mk(ps[0].Op, ps[0].Aux, types.NewPointer(n), ps[0].Args...)
	st := newState()
	st.assume(tEq(ps[0], tNil), false)
	for _, e := range w.Run(f, ps, nil, st) {
		at := k.c.P.pos(f.Pos())
		if e.Instr != nil {
			at = k.c.at(e.Instr)
		}
		dbg("exit", n.Obj().Name()+"."+name, e)
		if e.Panic {
			continue
		}
		each(e, ps[0], at)
	}
	k.c.Done(w)
}

func (k *codec) same(st *State, a, b *Term) bool {
	return a != nil && b != nil && (a == b || timeless(a) == timeless(b) || st.Eq(a, b))
}

func (k *codec) accessors(s *schemaType) {
	n := s.n.Obj().Name()
	for _, m := range []string{"Kind", "Name", "RawName", "IsReference", "ReferenceType", "Elem", "Len", "Fields", "IsRegistered"} {
		w := k.walker()
		con := n + "." + m
		k.runOn(w, s.n, m, func(e *Exit, obj *Term, at string) {
			st, r := e.St, e.Rets[0]
			fld := func(f string) *Term { return k.fieldOf(w, st, obj, f) }
			name, kind := fld(s.fName), fld(s.fKind)
			ok := false
			switch m {
			case "Kind":
				ok = k.same(st, r, kind)
			case "RawName":
				ok = k.same(st, r, name)
			case "Name":
				ok = k.same(st, unconv(r), name)
			case "IsReference":
				ok = st.Truth(r) == yes == (s.role == "reference") && st.Truth(r) != unknown
			case "ReferenceType":
				if s.role == "reference" {
					ok = k.same(st, r, fld(s.fTyp))
				} else {
					ok = blank(r) || st.Truth(tEq(r, tInt(k.refTypes()[0].v))) == yes
				}
			case "Elem":
				if s.fElem != "" {
					ok = k.same(st, r, fld(s.fElem))
				} else {
					ok = st.IsNil(r) == yes
				}
			case "Len":
				if s.role == "array" {
					ok = k.same(st, r, fld(s.fLen))
				} else {
					ok = st.Truth(tEq(r, tInt(0))) == yes
				}
			case "Fields":
				if s.role == "struct" {
					ok = k.same(st, r, fld(s.fFl))
				} else {
					ok = st.IsNil(r) == yes
				}
			case "IsRegistered":
				reg := tAnd(st.Truth(tEq(kind, tInt(int64(reflect.Struct)))), triNot(st.Truth(tLe0(w.lenOf(st, name, name.T)))))
				if s.role == "reference" {
					reg = no
				}
				tr := st.Truth(r)
				ok = tr != unknown && tr == reg
				if tr == unknown && st.Truth(tEq(kind, tInt(int64(reflect.Struct)))) == yes {
					// the answer is whether the name is empty
					y, z := st.clone(), st.clone()
					y.assume(r, true)
					z.assume(r, false)
					l := w.lenOf(st, name, name.T)
					ok = y.Truth(tLe0(l)) == no && z.Truth(tLe0(l)) == yes
				}
			}
			k.c.Expect(ok, "accessors", con, at, "%s gives %s", con, r)
		})
	}
}

func tAnd(a, b tri) tri {
	switch {
	case a == no || b == no:
		return no
	case a == yes && b == yes:
		return yes
	}
	return unknown
}

func (k *codec) fieldAccessors() {
	n := k.field.Obj().Name()
	get := func(m string) (out string) {
		w := k.walker()
		k.runOn(w, k.field, m, func(e *Exit, obj *Term, at string) {
			st := k.field.Underlying().(*types.Struct)
			found := ""
			for i := 0; i < st.NumFields(); i++ {
				if k.same(e.St, unconv(e.Rets[0]), k.fieldOf(w, e.St, obj, st.Field(i).Name())) {
					found = st.Field(i).Name()
				}
			}
			k.c.Expect(found != "" && (out == "" || out == found), "accessors", n+"."+m, at, "%s.%s gives %s", n, m, e.Rets[0])
			out = found
		})
		return
	}
	k.fName, k.fTag, k.fSch = get("RawName"), get("RawTag"), get("Schema")
	k.c.Expect(k.fName != k.fTag, "accessors", n+".RawTag", k.c.P.pos(k.field.Obj().Pos()), "the tag of a field is its name")
	k.c.Expect(get("Name") == k.fName, "accessors", n+".Name", k.c.P.pos(k.field.Obj().Pos()), "Name of a field is not its RawName")
	k.c.Expect(get("Tag") == k.fTag, "accessors", n+".Tag", k.c.P.pos(k.field.Obj().Pos()), "Tag of a field is not its RawTag")
	w := k.walker()
	k.runOn(w, k.field, "Kind", func(e *Exit, obj *Term, at string) {
		k.c.Expect(pureFn(e.Rets[0], "Kind") && k.same(e.St, e.Rets[0].Args[0], k.fieldOf(w, e.St, obj, k.fSch)), "accessors", n+".Kind", at, "Kind of a field is %s, not the one of its schema", e.Rets[0])
	})
}

// serialized: what is serialized
func serialized(t *Term) *Term {
	if t == nil || t.Op != "pure" || !strings.HasSuffix(t.Aux, "encoder.Serialize#0") {
		return nil
	}
	return t.Args[0]
}

func (k *codec) part(v *Term, n *types.Named, f string) *Term {
	i, ft := fieldIndex(n, f)
	return project(v, f, i, ft)
}

// placeholder: encoded kind and name of a schema
func (k *codec) placeholder(st *State, t, el *Term) bool {
	o := serialized(t)
	if o == nil || o.Op != "iface" || o.Obj != types.Type(k.enc) {
		return false
	}
	v := o.Args[0]
	kind, name := wide(k.part(v, k.enc, "Kind")), k.part(v, k.enc, "Name")
	return pureFn(kind, "Kind") && k.same(st, kind.Args[0], el) && pureFn(name, "RawName") && k.same(st, name.Args[0], el) &&
		blank(k.part(v, k.enc, "ReferenceType")) && blank(k.part(v, k.enc, "Len")) && blank(k.part(v, k.enc, "Fields")) && blank(k.part(v, k.enc, "Elem"))
}

// listLoop is a loop gathering something of every element of a list
type listLoop struct {
	t, n *Term
	res  *Term // where it is gathered: symbol of the loop, address or new slice
}

// gather judges a round: one element got is that of the list
func (k *codec) gather(w *Walker, rr *reachRun, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term, n *Term, val, idx *Term) *listLoop {
	rr.st = st
	t := rr.progress(head, env, n, idx)
	if t == nil {
		return nil
	}
	var app, sto *Event
	cnt := 0
	for _, ev := range st.Events() {
		if ev.Kind == "append" && len(ev.Args) == 2 && ev.Args[1].contains(val) {
			app, cnt = ev, cnt+1
		}
		if ev.Kind == "store" && ev.Addr.Op == "idx" && ev.Val == val && ev.Addr.Args[0].Op == "makeslice" && ev.Addr.Args[0].Args[0] == n && ev.Addr.Args[1] == t {
			sto, cnt = ev, cnt+1
		}
	}
	if cnt != 1 {
		return nil
	}
	if sto != nil {
		return &listLoop{t, n, sto.Addr.Args[0]}
	}
	l := app.Args[0]
	for _, ph := range headPhis(head) {
		if env[ph] != l || rr.backVal(head, ph, env) != app.Res {
			continue
		}
		for _, e := range w.Entry[l] {
			if !k.empty(st, e) {
				return nil
			}
		}
		return &listLoop{t, n, l}
	}
	for _, ev := range st.Events() {
		if ev.Kind == "store" && ev.Val == app.Res && l.Op == "havoc" && strings.HasSuffix(l.Aux, "/"+strconv.Itoa(ev.Addr.ID)) {
			return &listLoop{t, n, ev.Addr}
		}
	}
	return nil
}

func (k *codec) empty(st *State, t *Term) bool {
	return st.IsNil(t) == yes || blank(t) || t.Op == "makeslice" && st.Truth(tEq(t.Args[0], tInt(0))) == yes
}

// gathered: the list is complete
func (k *codec) gathered(st *State, loops []*listLoop, v, n *Term) bool {
	if k.empty(st, v) {
		return truthLoose(st, tLe0(n)) == yes
	}
	for _, l := range loops {
		if truthLoose(st, tLt(l.t, l.n, false)) != no || timeless(l.n) != timeless(n) {
			continue
		}
		if l.res == v {
			return true
		}
		if v.Op == "havoc" && strings.HasSuffix(v.Aux, "/"+strconv.Itoa(l.res.ID)) {
			ok := true
			for _, ev := range st.Events() {
				if ev.Kind == "store" && ev.Addr == l.res {
					ok = ok && k.empty(st, ev.Val)
				}
			}
			if ok {
				return true
			}
		}
	}
	return false
}

// lastElem: the element of a list a term is of
func elemIdx(t, list *Term) *Term {
	if i := idxOf(t); i != nil && (i.Args[0] == list || timeless(i.Args[0]) == timeless(list)) {
		return i.Args[1]
	}
	return nil
}

func (k *codec) encode(s *schemaType) {
	con := s.n.Obj().Name() + ".Encode"
	w := k.walker()
	w.KeepTrunc = true
	rr := &reachRun{reachCtx: &reachCtx{c: k.c}, w: w}
	var loops []*listLoop
	var list, n *Term
	w.OnBack = func(g *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
		at := k.c.P.pos(g.Pos())
		if s.role != "struct" {
			return
		}
		var enc *Event
		for _, ev := range st.Events() {
			if ev.Kind == "call" && pureFn(ev.Res, "Encode") {
				enc = ev
			}
		}
		if !k.c.Expect(enc != nil, "encoding", con, at, "a field is not encoded") {
			return
		}
		f := k.methodOf(s.n, "Encode")
		list = k.fieldOf(w, st, mk("param", f.Params[0].Name(), types.NewPointer(s.n)), s.fFl)
		n = w.lenOf(st, list, list.T)
		i := elemIdx(enc.Args[0], list)
		l := (*listLoop)(nil)
		if i != nil {
			l = k.gather(w, rr, head, st, env, n, enc.Res, i)
		}
		if k.c.Expect(l != nil, "encoding", con, at, "a field is not encoded in its place") {
			loops = append(loops, l)
		}
	}
	k.runOn(w, s.n, "Encode", func(e *Exit, obj *Term, at string) {
		st := e.St
		o := serialized(e.Rets[0])
		if !k.c.Expect(o != nil && o.Op == "iface" && o.Obj == types.Type(k.enc), "encoding", con, at, "what is encoded is %s", e.Rets[0]) {
			return
		}
		v := o.Args[0]
		part := func(f string) *Term { return wide(k.part(v, k.enc, f)) }
		fld := func(f string) *Term { return k.fieldOf(w, st, obj, f) }
		expect := func(ok bool, what string) {
			k.c.Expect(ok, "encoding", con+": "+what, at, "%s: %s is encoded as %s", con, what, part(what))
		}
		expect(k.same(st, part("Kind"), fld(s.fKind)), "Kind")
		if s.role == "reference" {
			expect(k.same(st, part("ReferenceType"), fld(s.fTyp)), "ReferenceType")
			dyn := int64(0)
			for _, t := range k.refTypes() {
				if t.typ == "Dynamic" {
					dyn = t.v
				}
			}
			if st.Truth(tEq(fld(s.fTyp), tInt(dyn))) != yes {
				expect(k.placeholder(st, part("Elem"), fld(s.fElem)), "Elem")
			}
			return
		}
		expect(blank(part("ReferenceType")), "ReferenceType")
		expect(k.same(st, part("Name"), fld(s.fName)), "Name")
		switch s.role {
		case "array":
			expect(k.same(st, part("Len"), fld(s.fLen)), "Len")
			fallthrough
		case "slice":
			el := fld(s.fElem)
			reg := unknown
			for _, ev := range st.Events() {
				if ev.Kind == "call" && pureFn(ev.Res, "IsRegistered") && k.same(st, ev.Args[0], el) {
					reg = st.Truth(ev.Res)
				}
			}
			ok := false
			switch reg {
			case yes:
				ok = k.placeholder(st, part("Elem"), el)
			case no:
				ok = pureFn(part("Elem"), "Encode") && k.same(st, part("Elem").Args[0], el)
			}
			expect(ok, "Elem")
		case "struct":
			list = fld(s.fFl)
			expect(k.gathered(st, loops, part("Fields"), w.lenOf(st, list, list.T)), "Fields")
		}
	})
}

func (k *codec) encodeField() {
	con := k.field.Obj().Name() + ".Encode"
	w := k.walker()
	k.runOn(w, k.field, "Encode", func(e *Exit, obj *Term, at string) {
		o := serialized(e.Rets[0])
		if !k.c.Expect(o != nil && o.Op == "iface" && o.Obj == types.Type(k.encF), "encoding", con, at, "what is encoded is %s", e.Rets[0]) {
			return
		}
		part := func(f string) *Term { return k.part(o.Args[0], k.encF, f) }
		fld := func(f string) *Term { return k.fieldOf(w, e.St, obj, f) }
		k.c.Expect(k.same(e.St, part("Name"), fld(k.fName)), "encoding", con+": Name", at, "the name is encoded as %s", part("Name"))
		k.c.Expect(k.same(e.St, part("Tag"), fld(k.fTag)), "encoding", con+": Tag", at, "the tag is encoded as %s", part("Tag"))
		sch := part("Schema")
		k.c.Expect(pureFn(sch, "Encode") && k.same(e.St, sch.Args[0], fld(k.fSch)), "encoding", con+": Schema", at, "the schema is encoded as %s", sch)
	})
}

// reference: the reference is the hash of the encoding
func (k *codec) reference(s *schemaType) {
	con := s.n.Obj().Name() + ".Reference"
	w := k.walker()
	own := k.methodOf(s.n, "Encode")
	m := w.Model
	w.Model = func(st *State, ev *Event, args []*Term) (*Term, bool) {
		if f := ev.Static; f != nil && f.Name() == "Encode" && f.Signature.Recv() != nil && types.Implements(f.Signature.Recv().Type(), k.iface) {
			tag := "other"
			if unwrap(f) == unwrap(own) && unwrap(own) == own && args[0].Op == "param" {
				tag = "own"
			}
			return resTerm(ev.Sig, func(i int, t types.Type) *Term { return mk("pure", "encode:"+tag, t, args...) }), true
		}
		return m(st, ev, args)
	}
	k.runOn(w, s.n, "Reference", func(e *Exit, obj *Term, at string) {
		st := newState()
		r := unconv(e.Rets[0])
		if r.Op == "load" || r.Op == "fld" {
			// what was there before
			st.assume(tEq(obj, tNil), false)
			ref := k.fieldOf(w, st, obj, s.fRef)
			k.c.Expect(s.fRef != "" && timeless(r) == timeless(ref) && e.St.Truth(tEq(r, zeroTerm(r.T))) == no, "references", con, at, "the reference is %s, which may not be set", r)
			return
		}
		ok := strings.Contains(r.Aux, "cipher.SumSHA256") && len(r.Args) == 1 && r.Args[0].Op == "pure" && r.Args[0].Aux == "encode:own"
		k.c.Expect(ok, "references", con, at, "the reference is %s, not the hash of the own encoding", r)
		// what is kept is what was returned
		if s.fRef != "" {
			for _, ev := range e.St.Events() {
				if ev.Kind == "store" {
					k.c.Expect(unconv(ev.Val) == r, "references", con+": kept", at, "%s is kept", ev.Val)
				}
			}
		}
	})
}

// decoder: a walker for decoding
func (k *codec) decoder() *Walker {
	w := k.walker()
	w.KeepTrunc = true
	m := w.Model
	w.Model = func(st *State, ev *Event, args []*Term) (*Term, bool) {
		pure := func(name string) (*Term, bool) {
			return resTerm(ev.Sig, func(i int, t types.Type) *Term {
				return mk("pure", fmt.Sprintf("%s#%d", name, i), t, ev.Args...)
			}), true
		}
		if strings.HasSuffix(ev.Name, "encoder.DeserializeRaw") {
			to := unwrapIface(ev.Args[1])
			t := deref(to.T)
			if s, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					w.store(st, w.fieldAddr(to, t, i), mk("decoded", s.Field(i).Name(), s.Field(i).Type(), ev.Args[0]), "dec")
				}
			} else {
				w.store(st, to, mk("decoded", "", t, ev.Args[0]), "dec")
			}
			ev.Tag = "deserialize"
			return resTerm(ev.Sig, func(i int, t types.Type) *Term {
				return mk("pure", fmt.Sprintf("DeserializeRaw#%d", i), t, ev.Args[0])
			}), true
		}
		if ev.Static == k.decode {
			ev.Tag = "schema"
			return pure("decodeSchema")
		}
		if ev.Static == k.decF {
			ev.Tag = "field"
			return pure("decodeField")
		}
		return m(st, ev, args)
	}
	return w
}

// wide: a number without conversions that keep 32 bits
func wide(t *Term) *Term {
	for {
		t = unconv(t)
		if t == nil || t.Op != "trunc" || sizeOf(t.T) < 4 {
			return t
		}
		t = t.Args[0]
	}
}

func decodedPart(t *Term, f string, data *Term) bool {
	t = wide(t)
	return t != nil && t.Op == "decoded" && t.Aux == f && t.Args[0] == data
}

// stepFailed: an error that is the one of a step
func stepFailed(st *State, err *Term) bool {
	for _, ev := range st.Events() {
		if ev.Kind == "call" && (ev.Tag == "deserialize" || ev.Tag == "schema" || ev.Tag == "field" || ev.Tag == "finish") && ev.Res != nil {
			r := ev.Res
			if r.Op == "tuple" {
				r = lastRes(ev)
			}
			if r == err && st.IsNil(r) == no {
				return true
			}
		}
	}
	return false
}

// steps: all steps of decoding passed succeeded
func (k *codec) stepsFine(st *State, con, at string) bool {
	for _, ev := range st.Events() {
		if ev.Kind == "call" && (ev.Tag == "deserialize" || ev.Tag == "schema" || ev.Tag == "field") {
			if !k.c.Expect(st.IsNil(lastRes(ev)) == yes, "decoding", con, k.c.at(ev.Instr), "it goes on after a failure") {
				return false
			}
		}
	}
	return true
}

func (k *codec) decodeSchema() {
	f := k.decode
	con := fname(f)
	w := k.decoder()
	rr := &reachRun{reachCtx: &reachCtx{c: k.c}, w: w}
	ps := w.Params(f)
	b := ps[0]
	var loops []*listLoop
	fieldsN := func(st *State) *Term {
		_, ft := fieldIndex(k.enc, "Fields")
		l := mk("decoded", "Fields", ft, b)
		return w.lenOf(st, l, ft)
	}
	w.OnBack = func(g *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
		at := k.c.P.pos(g.Pos())
		var dec *Event
		for _, ev := range st.Events() {
			if ev.Kind == "call" && ev.Tag == "field" {
				dec = ev
			}
		}
		if !k.c.Expect(dec != nil, "decoding", con+": fields", at, "a field is not decoded") || !k.stepsFine(st, con+": fields", at) {
			return
		}
		i := idxOf(dec.Args[0])
		var l *listLoop
		if i != nil && decodedPart(i.Args[0], "Fields", b) {
			l = k.gather(w, rr, head, st, env, fieldsN(st), dec.Res.Args[0], i.Args[1])
		}
		if k.c.Expect(l != nil, "decoding", con+": fields", at, "a field is not decoded into its place") {
			loops = append(loops, l)
		}
	}
	kinds := map[string]bool{}
	_, rt := fieldIndex(k.enc, "ReferenceType")
	_, kt := fieldIndex(k.enc, "Kind")
	for _, e := range w.Run(f, ps, nil, nil) {
		at := k.c.P.pos(f.Pos())
		if e.Instr != nil {
			at = k.c.at(e.Instr)
		}
		dbg("exit", con, e)
		st := e.St
		if e.Panic {
			k.c.Bad("decoding", con, at, "%s panics", con)
			continue
		}
		typ, kind := mk("decoded", "ReferenceType", rt, b), mk("decoded", "Kind", kt, b)
		isTyp := func(v int64) tri { return st.Truth(tEq(typ, tInt(v))) }
		var one *refTypeConst
		poss := 0
		for _, t := range k.refTypes() {
			t := t
			if isTyp(t.v) != no {
				poss++
				one = &t
			}
		}
		err := e.Rets[1]
		if st.IsNil(err) != yes {
			ok := stepFailed(st, err)
			unk := true
			for _, t := range k.refTypes()[:4] {
				unk = unk && isTyp(t.v) == no
			}
			k.c.Expect(ok || unk && st.IsNil(err) == no, "decoding", con+": failure", at, "it fails, and nothing is wrong")
			continue
		}
		if !k.stepsFine(st, con, at) {
			continue
		}
		o := e.Rets[0]
		if !k.c.Expect(o.Op == "iface", "decoding", con, at, "the schema is %s", o) {
			continue
		}
		obj := o.Args[0]
		var s *schemaType
		for _, x := range k.ts {
			if types.Identical(deref(obj.T), x.n) {
				s = x
			}
		}
		if !k.c.Expect(s != nil, "decoding", con, at, "the schema is %s", o) {
			continue
		}
		part := func(f string) *Term { return k.fieldOf(w, st, obj, f) }
		expect := func(ok bool, what string, t *Term) {
			k.c.Expect(ok, "decoding", con+": "+what, at, "%s of a decoded %s is %s", what, s.n.Obj().Name(), t)
		}
		elem := func() bool {
			t := part(s.fElem)
			return t.Op == "pure" && t.Aux == "decodeSchema#0" && decodedPart(t.Args[0], "Elem", b)
		}
		kinds[s.role] = true
		expect(decodedPart(part(s.fKind), "Kind", b), "kind", part(s.fKind))
		if s.role == "reference" {
			expect(decodedPart(part(s.fTyp), "ReferenceType", b), "type", part(s.fTyp))
			bad := isTyp(k.refTypes()[0].v) != no || isTyp(k.refTypes()[4].v) != no
			expect(!bad, "type", typ)
			dyn := poss == 1 && one.typ == "Dynamic"
			expect(dyn || elem(), "elem", part(s.fElem))
			continue
		}
		expect(isTyp(k.refTypes()[0].v) == yes, "not a reference", typ)
		expect(decodedPart(part(s.fName), "Name", b), "name", part(s.fName))
		role := map[reflect.Kind]string{reflect.Array: "array", reflect.Slice: "slice", reflect.Struct: "struct"}
		for kk, r := range role {
			t := st.Truth(tEq(kind, tInt(int64(kk))))
			expect(t == no && r != s.role || r == s.role && t == yes, "kind", kind)
		}
		switch s.role {
		case "array":
			expect(decodedPart(part(s.fLen), "Len", b), "len", part(s.fLen))
			expect(elem(), "elem", part(s.fElem))
		case "slice":
			expect(elem(), "elem", part(s.fElem))
		case "struct":
			expect(k.gathered(st, loops, part(s.fFl), fieldsN(st)), "fields", part(s.fFl))
		}
	}
	for _, r := range []string{"base", "reference", "slice", "array", "struct"} {
		k.c.Expect(kinds[r], "decoding", con+": "+r, k.c.P.pos(f.Pos()), "no schema of kind %s is decoded", r)
	}
	k.c.Done(w)
}

func (k *codec) decodeField() {
	f := k.decF
	con := fname(f)
	w := k.decoder()
	ps := w.Params(f)
	for _, e := range w.Run(f, ps, nil, nil) {
		at := k.c.P.pos(f.Pos())
		if e.Instr != nil {
			at = k.c.at(e.Instr)
		}
		dbg("exit", con, e)
		st := e.St
		if e.Panic {
			k.c.Bad("decoding", con, at, "%s panics", con)
			continue
		}
		if st.IsNil(e.Rets[1]) != yes {
			k.c.Expect(stepFailed(st, e.Rets[1]), "decoding", con+": failure", at, "it fails, and nothing is wrong")
			continue
		}
		if !k.stepsFine(st, con, at) {
			continue
		}
		o := e.Rets[0]
		if !k.c.Expect(o.Op == "iface" && types.Identical(deref(o.Args[0].T), k.field), "decoding", con, at, "the field is %s", o) {
			continue
		}
		part := func(f string) *Term { return k.fieldOf(w, st, o.Args[0], f) }
		k.c.Expect(decodedPart(part(k.fName), "Name", ps[0]), "decoding", con+": name", at, "the name of the field is %s", part(k.fName))
		k.c.Expect(decodedPart(part(k.fTag), "Tag", ps[0]), "decoding", con+": tag", at, "the tag of the field is %s", part(k.fTag))
		t := part(k.fSch)
		k.c.Expect(t.Op == "pure" && t.Aux == "decodeSchema#0" && decodedPart(t.Args[0], "Schema", ps[0]), "decoding", con+": schema", at, "the schema of the field is %s", t)
	}
	k.c.Done(w)
}

// regCtx: the Registry
type regCtx struct {
	*codec
	n                    *types.Named
	fReg, fSrf, fRef     string
	finish, fill, rec    *ssa.Function
	encode, decodeReg    *ssa.Function
	elem                 *types.Named // an encoded entity
	eName, eSchema       string
	byName, byRef, byExp *ssa.Function
}

func (k *codec) registry() {
	c := k.c
	g := &regCtx{codec: k}
	if o := k.reg.Scope().Lookup("Registry"); o != nil {
		g.n, _ = types.Unalias(o.Type()).(*types.Named)
	}
	if g.n == nil {
		c.Anchor("registry.Registry")
		return
	}
	g.fReg = fieldBy(g.n, func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && typeName(m.Elem()) == "Schema" && isStr(m.Key())
	})
	g.fSrf = fieldBy(g.n, func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && typeName(m.Elem()) == "Schema" && typeName(m.Key()) == "SchemaRef"
	})
	g.fRef = fieldBy(g.n, func(t types.Type) bool { return typeName(t) == "RegistryRef" })
	for _, f := range c.P.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg != k.reg || f.Parent() != nil {
			continue
		}
		s := f.Signature
		rcv := s.Recv() != nil && typeName(deref(s.Recv().Type())) == "Registry"
		np, nr := s.Params().Len(), s.Results().Len()
		p := func(i int) string { return typeName(s.Params().At(i).Type()) }
		r := func(i int) string { return typeName(s.Results().At(i).Type()) }
		switch {
		case rcv && f.Name() == "Encode":
			g.encode = f
		case rcv && np == 1 && nr == 2 && r(0) == "Schema" && p(0) == "SchemaRef":
			g.byRef = f
		case rcv && np == 1 && nr == 2 && r(0) == "Schema" && f.Name() == "SchemaByName":
			g.byExp = f
		case rcv && np >= 1 && nr == 1 && p(0) == "Schema" && isErrorT(s.Results().At(0).Type()):
			g.fill = f
		case s.Recv() == nil && np >= 1 && nr == 1 && p(0) == "Schema" && isErrorT(s.Results().At(0).Type()):
			g.rec = f
		case s.Recv() == nil && np == 1 && nr == 2 && isBytes(s.Params().At(0).Type()) && typeName(deref(s.Results().At(0).Type())) == "Registry":
			g.decodeReg = f
		}
	}
	// what fills all
	var above []*ssa.Function
	for _, f := range c.P.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg != k.reg || f == g.fill || f.Signature.Recv() == nil || typeName(deref(f.Signature.Recv().Type())) != "Registry" || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 {
			continue
		}
		if isErrorT(f.Signature.Results().At(0).Type()) && calls(f, g.fill) {
			above = append(above, f)
		}
	}
	for _, f := range above {
		top := true
		for _, h := range above {
			top = top && (h == f || !calls(h, f))
		}
		if top {
			g.finish = f
		}
	}
	for n, ok := range map[string]bool{"schemas by name": g.fReg != "", "schemas by reference": g.fSrf != "", "reference": g.fRef != "", "Encode": g.encode != nil, "SchemaByReference": g.byRef != nil, "SchemaByName": g.byExp != nil, "filling": g.fill != nil, "recursion": g.rec != nil, "decoding": g.decodeReg != nil, "finishing": g.finish != nil} {
		if !ok {
			c.Anchor("registry.Registry: " + n)
			return
		}
	}
	g.entities()
	g.decodeRegistry()
	g.finishing()
	g.filling()
	g.recursion()
	g.lookups()
}

// calls: f calls g, itself or by functions of its package
func calls(f, g *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(h *ssa.Function) bool
	walk = func(h *ssa.Function) bool {
		if seen[h] || h.Pkg != f.Pkg {
			return false
		}
		seen[h] = true
		for _, x := range staticEdges(h) {
			if x == g || walk(x) {
				return true
			}
		}
		return false
	}
	return walk(f)
}

func (g *regCtx) run(f *ssa.Function, w *Walker, each func(e *Exit, ps []*Term, at string), rule string) {
	ps := w.Params(f)
	st := newState()
	if f.Signature.Recv() != nil {
		st.assume(tEq(ps[0], tNil), false)
	}
	for _, e := range w.Run(f, ps, nil, st) {
		at := g.c.P.pos(f.Pos())
		if e.Instr != nil {
			at = g.c.at(e.Instr)
		}
		dbg("exit", fname(f), e)
		if e.Panic {
			g.c.Bad(rule, fname(f), at, "%s panics", fname(f))
			continue
		}
		each(e, ps, at)
	}
	g.c.Done(w)
}

func (g *regCtx) isReg(t *Term, f string) bool {
	t = unconv(t)
	return isF(t, f, nil) || t != nil && t.Op == "fld" && t.Aux == f
}

// entryOf: the entry of an encoded entity in terms appended
func (g *regCtx) entryOf(t *Term) *Term {
	var out *Term
	t.any(func(x *Term) bool {
		if x.Op == "struct" && x.T != nil {
			if s, ok := x.T.Underlying().(*types.Struct); ok && s.NumFields() == 2 && len(x.Args) == 2 {
				out = x
				return true
			}
		}
		return false
	})
	return out
}

// entities: the encoding of a Registry
func (g *regCtx) entities() {
	w := g.walker()
	con := fname(g.encode)
	rr := &reachRun{reachCtx: &reachCtx{c: g.c}, w: w}
	var accs []*Term
	heads := map[*ssa.BasicBlock]bool{}
	w.OnBack = func(f *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
		at := g.c.P.pos(f.Pos())
		var cur, app *Event
		n := 0
		for _, ev := range st.Events() {
			switch {
			case ev.Kind == "range" && ev.Instr.Block() == head:
				cur, app, n = ev, nil, 0
			case ev.Kind == "append":
				app, n = ev, n+1
			}
		}
		if !g.c.Expect(cur != nil && g.isReg(cur.Addr, g.fReg) && n == 1, "entities", con+": round", at, "not every schema becomes one entity") {
			return
		}
		e := g.entryOf(app.Args[1])
		ok := false
		if e != nil {
			s := e.T.Underlying().(*types.Struct)
			name, sch := -1, -1
			for i := 0; i < 2; i++ {
				if isBytes(s.Field(i).Type()) {
					sch = i
				} else {
					name = i
				}
			}
			if name >= 0 && sch >= 0 {
				v := e.Args[sch]
				ok = e.Args[name] == cur.Args[0] && pureFn(v, "Encode") && v.Args[0] == cur.Args[1]
				g.elem, _ = types.Unalias(e.T).(*types.Named)
				g.eName, g.eSchema = s.Field(name).Name(), s.Field(sch).Name()
			}
		}
		g.c.Expect(ok, "entities", con+": entity", at, "an entity is not the name and the encoded schema")
		kept := false
		for _, ph := range headPhis(head) {
			if q := env[ph]; q != nil && q == app.Args[0] && rr.backVal(head, ph, env) == app.Res {
				kept = true
				for _, en := range w.Entry[q] {
					kept = kept && g.empty(st, en)
				}
				accs = append(accs, q)
			}
		}
		// a list in memory
		for _, ev := range st.Events() {
			if a := app.Args[0]; ev.Kind == "store" && ev.Val == app.Res && a.Op == "havoc" && strings.HasSuffix(a.Aux, "/"+strconv.Itoa(ev.Addr.ID)) {
				kept = true
				accs = append(accs, ev.Addr)
			}
		}
		if g.c.Expect(kept, "entities", con+": kept", at, "an entity is lost") {
			heads[head] = true
		}
	}
	g.run(g.encode, w, func(e *Exit, ps []*Term, at string) {
		st := e.St
		o := serialized(e.Rets[0])
		if !g.c.Expect(o != nil && o.Op == "iface", "entities", con, at, "what is encoded is %s", e.Rets[0]) {
			return
		}
		list := o.Args[0]
		for list.Op == "conv" || list.Op == "changetype" {
			list = list.Args[0]
		}
		all, sorted := false, false
		for _, ev := range st.Events() {
			switch {
			case ev.Kind == "rangeend" && g.isReg(ev.Addr, g.fReg):
				all = heads[ev.Instr.Block()]
				sorted = false
			case ev.Kind == "call" && (strings.HasPrefix(ev.Name, "sort.") || strings.HasPrefix(ev.Name, "slices.")) && len(ev.Args) > 0:
				if unconv(unwrapIface(ev.Args[0])) == unconv(list) {
					sorted = g.order(ev)
				}
			}
		}
		reg := w.load(st, w.fieldAddr(ps[0], g.n, fieldNo(g.n, g.fReg)), g.n.Underlying().(*types.Struct).Field(fieldNo(g.n, g.fReg)).Type())
		if truthLoose(st, tLe0(w.lenOf(st, reg, reg.T))) == yes {
			// nothing to encode
			g.c.Site("entities", con+": empty")
			return
		}
		ok := false
		for _, a := range accs {
			ok = ok || a == list
			if list.Op == "havoc" && strings.HasSuffix(list.Aux, "/"+strconv.Itoa(a.ID)) {
				ok = true
				for _, ev := range st.Events() {
					if ev.Kind == "store" && ev.Addr == a {
						ok = ok && g.empty(st, ev.Val)
					}
				}
			}
		}
		g.c.Expect(all && ok, "entities", con+": all", at, "it does not encode all schemas")
		g.c.Expect(sorted, "entities", con+": order", at, "entities are not in order of names")
	}, "entities")
}

// order: sorted by name
func (g *regCtx) order(ev *Event) bool {
	less := func(f *ssa.Function, args []*Term, free []*Term, list, i, j *Term) bool {
		w := g.c.P.NewWalker()
		w.SamePkg = true
		ok, n := true, 0
		for _, e := range w.Run(f, args, free, nil) {
			n++
			t := e.Rets[0]
			if e.Panic || t.Op != "slt" {
				ok = false
				continue
			}
			name := func(t, at *Term) bool {
				x := idxOf(t)
				return x != nil && x.Args[1] == at && (list == nil || x.Args[0] == list) && (isF(t, g.eName, nil) || t.Op == "fld" && t.Aux == g.eName)
			}
			ok = ok && name(t.Args[0], i) && name(t.Args[1], j)
		}
		g.c.Done(w)
		return ok && n > 0
	}
	switch ev.Name {
	case "sort.Sort", "sort.Stable":
		o := ev.Args[0]
		dt, _ := o.Obj.(types.Type)
		if o.Op != "iface" || dt == nil {
			return false
		}
		ms := types.NewMethodSet(dt)
		m := func(n string) *ssa.Function {
			if s := ms.Lookup(g.reg, n); s != nil {
				return unwrap(g.c.P.SSA.MethodValue(s))
			}
			return nil
		}
		l, sw, le := m("Less"), m("Swap"), m("Len")
		if l == nil || sw == nil || le == nil {
			return false
		}
		w := g.c.P.NewWalker()
		ps := w.Params(l)
		if len(ps) != 3 || !less(l, ps, nil, ps[0], ps[1], ps[2]) {
			return false
		}
		// Len is the length
		ps = w.Params(le)
		for _, e := range w.Run(le, ps, nil, nil) {
			if e.Panic || e.Rets[0] != w.lenOf(e.St, ps[0], ps[0].T) {
				return false
			}
		}
		// Swap swaps
		w.OnEvent = func(st *State, ev *Event) bool { return ev.Kind == "store" }
		ps = w.Params(sw)
		for _, e := range w.Run(sw, ps, nil, nil) {
			if e.Panic {
				return false
			}
			st0 := newState()
			s, ok := ps[0].T.Underlying().(*types.Slice)
			if !ok {
				return false
			}
			at := func(st *State, i *Term) *Term { return w.load(st, idxTerm(ps[0], i, s.Elem()), s.Elem()) }
			n := 0
			for _, ev := range e.St.Events() {
				if ev.Addr == idxTerm(ps[0], ps[1], s.Elem()) && timeless(ev.Val) == timeless(at(st0, ps[2])) || ev.Addr == idxTerm(ps[0], ps[2], s.Elem()) && timeless(ev.Val) == timeless(at(st0, ps[1])) {
					n++
				}
			}
			if n != 2 {
				return false
			}
		}
		g.c.Done(w)
		return true
	case "sort.Slice", "sort.SliceStable":
		if len(ev.Args) != 2 {
			return false
		}
		cl := ev.Args[1]
		f := closureFn(g.c.P, cl)
		if f == nil {
			return false
		}
		w := g.c.P.NewWalker()
		ps := w.Params(f)
		if len(ps) != 2 {
			return false
		}
		return less(f, ps, cl.Args, nil, ps[0], ps[1])
	}
	return false
}

// ofEntity: a field of an element of the list decoded
func (g *regCtx) ofEntity(t *Term, f string) *Term {
	t = unconv(t)
	i := idxOf(t)
	if t.Op == "fld" && t.Aux == f {
		i = idxOf(t.Args[0])
	} else if !isF(t, f, nil) {
		return nil
	}
	return i
}

func (g *regCtx) decodeRegistry() {
	f := g.decodeReg
	con := fname(f)
	w := g.decoder()
	m := w.Model
	w.Model = func(st *State, ev *Event, args []*Term) (*Term, bool) {
		if ev.Static == g.finish {
			ev.Tag = "finish"
			return mk("pure", "finish", ev.Sig.Results().At(0).Type(), ev.Args...), true
		}
		return m(st, ev, args)
	}
	rr := &reachRun{reachCtx: &reachCtx{c: g.c}, w: w}
	type loop struct{ t, n, m *Term }
	var loops []loop
	isList := func(t *Term) bool { return t.Op == "decoded" && t.Aux == "" }
	w.OnBack = func(fn *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
		at := g.c.P.pos(fn.Pos())
		var dec, up *Event
		nd, nu := 0, 0
		for _, ev := range st.Events() {
			switch {
			case ev.Kind == "call" && ev.Tag == "schema":
				dec, nd = ev, nd+1
			case ev.Kind == "mapupdate":
				up, nu = ev, nu+1
			}
		}
		if !g.c.Expect(nd == 1 && nu == 1, "decode registry", con+": round", at, "not every entity becomes one schema") {
			return
		}
		g.stepsFine(st, con, at)
		i := g.ofEntity(dec.Args[0], g.eSchema)
		j := g.ofEntity(up.Args[0], g.eName)
		ok := i != nil && j == i && isList(i.Args[0]) && up.Val == dec.Res.Args[0]
		if !g.c.Expect(ok, "decode registry", con+": entity", at, "a schema is not kept by its name") {
			return
		}
		rr.st = st
		n := w.lenOf(st, i.Args[0], i.Args[0].T)
		t := rr.progress(head, env, n, i.Args[1])
		if g.c.Expect(t != nil, "decode registry", con+": index", at, "entities are not gone through one by one, from the first") {
			loops = append(loops, loop{t, n, up.Addr})
		}
	}
	g.run(f, w, func(e *Exit, ps []*Term, at string) {
		st := e.St
		if st.IsNil(e.Rets[1]) != yes {
			g.c.Expect(stepFailed(st, e.Rets[1]), "decode registry", con+": failure", at, "it fails, and nothing is wrong")
			return
		}
		g.stepsFine(st, con, at)
		o := e.Rets[0]
		fin := 0
		var list *Term
		for _, ev := range st.Events() {
			switch {
			case ev.Tag == "finish":
				g.c.Expect(ev.Args[0] == o && st.IsNil(ev.Res) == yes, "decode registry", con+": finish", at, "it returns a Registry that is not finished")
				fin++
			case ev.Tag == "deserialize":
				g.c.Expect(ev.Args[0] == ps[0], "decode registry", con+": data", at, "something else is decoded")
				list = mk("decoded", "", deref(unwrapIface(ev.Args[1]).T), ev.Args[0])
			}
		}
		g.c.Expect(fin == 1, "decode registry", con+": finish", at, "it returns a Registry that is not finished")
		ok := list != nil && truthLoose(st, tLe0(w.lenOf(st, list, list.T))) == yes
		for _, l := range loops {
			i, ft := fieldIndex(g.n, g.fReg)
			reg := w.load(st, w.fieldAddr(o, g.n, i), ft)
			ok = ok || truthLoose(st, tLt(l.t, l.n, false)) == no && timeless(reg) == timeless(l.m)
		}
		g.c.Expect(ok, "decode registry", con+": all", at, "not all entities are decoded")
	}, "decode registry")
}

func (g *regCtx) finishing() {
	f := g.finish
	con := fname(f)
	w := g.walker()
	m := w.Model
	w.Model = func(st *State, ev *Event, args []*Term) (*Term, bool) {
		switch ev.Static {
		case g.fill, g.rec:
			ev.Tag = map[bool]string{true: "fill", false: "rec"}[ev.Static == g.fill]
			return mk("pure", ev.Tag, ev.Sig.Results().At(0).Type(), ev.Args...), true
		case g.encode:
			return mk("pure", "Registry.Encode", ev.Sig.Results().At(0).Type(), ev.Args...), true
		}
		return m(st, ev, args)
	}
	heads := map[*ssa.BasicBlock]string{}
	w.OnBack = func(fn *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
		at := g.c.P.pos(fn.Pos())
		var cur *Event
		did := map[string]bool{}
		for _, ev := range st.Events() {
			switch {
			case ev.Kind == "range" && ev.Instr.Block() == head:
				cur, did = ev, map[string]bool{}
			case ev.Tag == "fill" && cur != nil:
				did["fill"] = ev.Args[1] == cur.Args[1] && st.IsNil(ev.Res) == yes
			case ev.Tag == "rec" && cur != nil:
				did["rec"] = ev.Args[0] == cur.Args[1] && st.IsNil(ev.Res) == yes
			case ev.Kind == "mapupdate" && cur != nil && g.isReg(ev.Addr, g.fSrf):
				did["srf"] = pureFn(ev.Args[0], "Reference") && ev.Args[0].Args[0] == cur.Args[1] && ev.Val == cur.Args[1]
			}
		}
		if !g.c.Expect(cur != nil && g.isReg(cur.Addr, g.fReg), "finish", con, at, "a loop that is not over all schemas") {
			return
		}
		done := ""
		for d, ok := range did {
			g.c.Expect(ok, "finish", con+": "+d, at, "a schema is passed by, or a failure ignored")
			if ok {
				done += d + " "
			}
		}
		if old, ok := heads[head]; ok {
			// what is done in all rounds
			all := ""
			for _, d := range strings.Fields(old) {
				if did[d] {
					all += d + " "
				}
			}
			done = all
		}
		heads[head] = done
	}
	g.run(f, w, func(e *Exit, ps []*Term, at string) {
		st := e.St
		err := e.Rets[0]
		if st.IsNil(err) != yes {
			ok := false
			for _, ev := range st.Events() {
				ok = ok || (ev.Tag == "fill" || ev.Tag == "rec") && ev.Res == err && st.IsNil(err) == no
			}
			g.c.Expect(ok, "finish", con+": failure", at, "it fails, and nothing is wrong")
			return
		}
		done := map[string]int{}
		set := -1
		evs := st.Events()
		for i, ev := range evs {
			switch {
			case ev.Kind == "rangeend":
				for _, d := range strings.Fields(heads[ev.Instr.Block()]) {
					done[d] = i + 1
				}
			case ev.Kind == "store" && ev.Addr.Op == "field" && ev.Addr.Aux == g.fRef && ev.Addr.Args[0] == ps[0]:
				v := unconv(ev.Val)
				if strings.Contains(v.Aux, "cipher.SumSHA256") && len(v.Args) == 1 && v.Args[0].Op == "pure" && v.Args[0].Aux == "Registry.Encode" && v.Args[0].Args[0] == ps[0] {
					set = i
				} else {
					set = -1
				}
			}
		}
		g.c.Expect(done["fill"] > 0, "finish", con+": fill all", at, "not all schemas are filled")
		g.c.Expect(done["rec"] > 0 && done["rec"] > done["fill"], "finish", con+": recursion", at, "not all schemas are checked for recursion, after all are filled")
		g.c.Expect(done["srf"] > 0, "finish", con+": references", at, "not all schemas can be found by reference")
		g.c.Expect(set >= 0 && set >= done["fill"], "finish", con+": reference", at, "the reference of the Registry is not the hash of its encoding")
	}, "finish")
}

// asserted: what a field is of, if it is one of a schema or field of a known type
func asserted(a *Term, names ...string) *Term {
	if a == nil {
		return nil
	}
	if a.Op == "load" {
		a = a.Args[0]
	}
	if a.Op != "field" {
		return nil
	}
	ok := false
	for _, n := range names {
		ok = ok || a.Aux == n
	}
	for a.Op == "field" {
		a = a.Args[0]
	}
	if !ok || a.Op != "asserted" {
		return nil
	}
	return a.Args[0]
}

type fillRun struct {
	*regCtx
	con, at string
	s       *Term
	fElems  []string
	rr      *reachRun
	loops   []*listLoop
	w       *Walker
}

func (r *fillRun) bad(what, f string, a ...interface{}) {
	r.c.Expect(false, "fill", r.con+": "+what, r.at, f, a...)
}

// elemOfS: the element of the schema
func (r *fillRun) elemOfS(t *Term) bool {
	return pureFn(t, "Elem") && t.Args[0] == r.s || asserted(t, r.fElems...) == r.s && isF(t, t.Args[0].Aux, nil)
}

func (r *fillRun) fieldsList(t *Term) bool {
	fl := ""
	for _, s := range r.ts {
		if s.fFl != "" {
			fl = s.fFl
		}
	}
	return pureFn(t, "Fields") && t.Args[0] == r.s || asserted(t, fl) == r.s
}

// fieldOfS: the field whose schema it is
func (r *fillRun) fieldOfS(t *Term) *Term {
	var f *Term
	if pureFn(t, "Schema") {
		f = t.Args[0]
	} else if f = asserted(t, r.fSch); f == nil {
		return nil
	}
	if i := idxOf(f); i != nil && r.fieldsList(i.Args[0]) {
		return i
	}
	return nil
}

// element: an element is replaced, if registered, and filled; is tells elements
func (r *fillRun) element(st *State, always bool, is func(*Term) bool, owner func(*Term) bool) bool {
	var fill *Event
	n := 0
	reg := unknown
	for _, ev := range st.Events() {
		if ev.Kind != "call" {
			continue
		}
		if ev.Tag == "fill" {
			fill, n = ev, n+1
		}
		if pureFn(ev.Res, "IsRegistered") && is(ev.Args[0]) {
			reg = st.Truth(ev.Res)
		}
	}
	if always {
		reg = yes
	}
	if n != 1 {
		r.bad("element", "an element is not filled once")
		return false
	}
	if reg == unknown {
		r.bad("element", "it is not asked whether an element is registered")
		return false
	}
	v := fill.Args[1]
	if reg == no {
		ok := is(v)
		r.c.Expect(ok, "fill", r.con+": not registered", r.at, "%s is filled, not the element", v)
		return ok
	}
	m, key := elemOf(v)
	if m == nil || !r.isReg(m, r.fReg) || !pureFn(unconv(key), "Name") || !is(unconv(key).Args[0]) {
		r.bad("registered", "%s is filled, not the schema registered by the name of the element", v)
		return false
	}
	if present(st, func(m *Term) bool { return r.isReg(m, r.fReg) }, key) != yes {
		r.bad("missing", "a missing schema is not an error")
		return false
	}
	kept := false
	for _, ev := range st.Events() {
		kept = kept || ev.Kind == "store" && ev.Val == v && owner(ev.Addr)
	}
	r.c.Expect(kept, "fill", r.con+": registered", r.at, "the schema registered does not become the element")
	return kept
}

func (g *regCtx) filling() {
	f := g.fill
	con := fname(f)
	w := g.walker()
	m := w.Model
	w.Model = func(st *State, ev *Event, args []*Term) (*Term, bool) {
		if ev.Static == f {
			ev.Tag = "fill"
			return mk("pure", "fill", ev.Sig.Results().At(0).Type(), ev.Args...), true
		}
		return m(st, ev, args)
	}
	ps := w.Params(f)
	r := &fillRun{regCtx: g, con: con, s: ps[1], w: w}
	r.rr = &reachRun{reachCtx: &reachCtx{c: g.c}, w: w}
	for _, s := range g.ts {
		if s.fElem != "" {
			r.fElems = append(r.fElems, s.fElem)
		}
	}
	owner := func(a *Term) bool { return asserted(a, r.fElems...) == r.s }
	w.OnBack = func(fn *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
		r.at = g.c.P.pos(fn.Pos())
		var idx *Term
		is := func(t *Term) bool {
			i := r.fieldOfS(t)
			if i != nil && (idx == nil || i == idx || timeless(i) == timeless(idx)) {
				idx = i
				return true
			}
			return false
		}
		own := func(a *Term) bool {
			f := asserted(a, r.fSch)
			if f == nil || idx == nil {
				return false
			}
			i := idxOf(f)
			return i != nil && timeless(i) == timeless(idx)
		}
		if !r.element(st, false, is, own) {
			return
		}
		for _, ev := range st.Events() {
			if ev.Tag == "fill" && !g.c.Expect(st.IsNil(ev.Res) == yes, "fill", con+": failure", r.at, "it goes on after a failure") {
				return
			}
		}
		r.rr.st = st
		n := w.lenOf(st, idx.Args[0], idx.Args[0].T)
		t := r.rr.progress(head, env, n, idx.Args[1])
		if g.c.Expect(t != nil, "fill", con+": fields", r.at, "fields are not gone through one by one, from the first") {
			r.loops = append(r.loops, &listLoop{t: t, n: n})
		}
	}
	g.run(f, w, func(e *Exit, ps []*Term, at string) {
		st, err := e.St, e.Rets[0]
		r.at = at
		filled := unknown
		for _, p := range ps[2:] {
			p := p
			if v := present(st, func(m *Term) bool { return m == p }, r.s); v != unknown {
				filled = v
			}
		}
		var fills []*Event
		marked := false
		for _, ev := range st.Events() {
			if ev.Tag == "fill" {
				g.c.Expect(marked || filled == yes, "fill", con+": marked", at, "a schema is not noted before what is below it")
				fills = append(fills, ev)
				for i, p := range ps {
					if i != 1 {
						g.c.Expect(ev.Args[i] == p, "fill", con+": same", at, "what is below is filled in another way")
					}
				}
			}
			if ev.Kind == "mapupdate" && ev.Args[0] == r.s {
				marked = true
			}
		}
		if filled == yes {
			g.c.Expect(st.IsNil(err) == yes && len(fills) == 0, "fill", con+": already", at, "a schema is filled twice")
			return
		}
		is := func(v string, f string) tri {
			for _, ev := range st.Events() {
				if ev.Kind == "call" && pureFn(ev.Res, f) && ev.Args[0] == r.s {
					if v == "" {
						return st.Truth(ev.Res)
					}
					n, _ := strconv.ParseInt(v, 10, 64)
					return st.Truth(tEq(ev.Res, tInt(n)))
				}
			}
			return unknown
		}
		ref := is("", "IsReference")
		rts := g.refTypes()
		typ := func(i int) tri { return is(strconv.FormatInt(rts[i].v, 10), "ReferenceType") }
		kind := func(k reflect.Kind) tri { return is(strconv.Itoa(int(k)), "Kind") }
		if st.IsNil(err) == no {
			ok := false
			for _, ev := range fills {
				ok = ok || ev.Res == err
			}
			// a name that is missing
			for t := range st.facts.b {
				if t.Op == "present" && g.isReg(t.Args[0].Args[0], g.fReg) && st.Truth(t) == no {
					k := unconv(t.Args[0].Args[1])
					ok = ok || pureFn(k, "Name") && (r.elemOfS(k.Args[0]) || r.fieldOfS(k.Args[0]) != nil)
				}
			}
			ok = ok || ref == yes && typ(1) == no && typ(2) == no && typ(3) == no
			g.c.Expect(ok, "fill", con+": failure", at, "it fails, and nothing is wrong")
			return
		}
		// what is returned is the failure of the last step
		for i, ev := range fills {
			g.c.Expect(st.IsNil(ev.Res) == yes || i == len(fills)-1 && err == ev.Res, "fill", con+": failure", at, "a failure is not returned")
		}
		switch {
		case ref == yes && (typ(1) == yes || typ(2) == yes):
			r.element(st, true, r.elemOfS, owner)
		case ref == yes && typ(3) == yes:
			g.c.Expect(len(fills) == 0, "fill", con+": dynamic", at, "a Dynamic has no element")
		case ref == yes:
			if typ(1) == no && typ(2) != no && typ(3) == no || typ(1) != no && typ(2) != no && typ(3) == no {
				r.element(st, true, r.elemOfS, owner)
				return
			}
			r.bad("reference", "a reference of unknown type is no error")
		case ref == no && (kind(reflect.Array) == yes || kind(reflect.Slice) == yes):
			r.element(st, false, r.elemOfS, owner)
		case ref == no && kind(reflect.Struct) == yes:
			ok := false
			for _, l := range r.loops {
				ok = ok || truthLoose(st, tLt(l.t, l.n, false)) == no
			}
			for _, ev := range st.Events() {
				if ev.Kind == "call" && pureFn(ev.Res, "Fields") && ev.Args[0] == r.s {
					ok = ok || truthLoose(st, tLe0(w.lenOf(st, ev.Res, ev.Res.T))) == yes
				}
			}
			g.c.Expect(ok, "fill", con+": struct", at, "not all fields are filled")
		case ref == no && kind(reflect.Array) == no && kind(reflect.Slice) == no && kind(reflect.Struct) == no:
			g.c.Expect(len(fills) == 0, "fill", con+": basic", at, "a basic schema has no element")
		default:
			r.bad("kind", "a schema of a kind that is not known is not filled")
		}
	}, "fill")
}

func (g *regCtx) recursion() {
	f := g.rec
	con := fname(f)
	w := g.walker()
	m := w.Model
	w.Model = func(st *State, ev *Event, args []*Term) (*Term, bool) {
		if ev.Static == f {
			ev.Tag = "rec"
			return mk("pure", "rec", ev.Sig.Results().At(0).Type(), ev.Args...), true
		}
		return m(st, ev, args)
	}
	ps := w.Params(f)
	s, walking := ps[0], ps[1]
	rr := &reachRun{reachCtx: &reachCtx{c: g.c}, w: w}
	var loops []*listLoop
	fieldIdx := func(t *Term) *Term {
		if !pureFn(t, "Schema") {
			return nil
		}
		i := idxOf(t.Args[0])
		if i != nil && pureFn(i.Args[0], "Fields") && i.Args[0].Args[0] == s {
			return i
		}
		return nil
	}
	w.OnBack = func(fn *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
		at := g.c.P.pos(fn.Pos())
		var idx *Term
		n := 0
		for _, ev := range st.Events() {
			if ev.Tag == "rec" {
				if i := fieldIdx(ev.Args[0]); i != nil {
					idx, n = i, n+1
				}
				g.c.Expect(st.IsNil(ev.Res) == yes, "recursion", con+": failure", at, "it goes on after a failure")
			}
		}
		if !g.c.Expect(n == 1, "recursion", con+": field", at, "a field is not checked once") {
			return
		}
		rr.st = st
		l := w.lenOf(st, idx.Args[0], idx.Args[0].T)
		t := rr.progress(head, env, l, idx.Args[1])
		if g.c.Expect(t != nil, "recursion", con+": fields", at, "fields are not gone through one by one, from the first") {
			loops = append(loops, &listLoop{t: t, n: l})
		}
	}
	g.run(f, w, func(e *Exit, _ []*Term, at string) {
		st, err := e.St, e.Rets[0]
		var recs []*Event
		var marks []*Event
		ref, el, flds := unknown, (*Term)(nil), (*Term)(nil)
		for _, ev := range st.Events() {
			switch {
			case ev.Tag == "rec":
				g.c.Expect(len(marks) == 1 && marks[0].Val == tTrue && ev.Args[1] == walking, "recursion", con+": marked", at, "a schema is not noted as being walked when what is below it is")
				recs = append(recs, ev)
			case ev.Kind == "mapupdate" && ev.Addr == walking && ev.Args[0] == s:
				marks = append(marks, ev)
			case ev.Kind == "call" && pureFn(ev.Res, "IsReference") && ev.Args[0] == s:
				ref = st.Truth(ev.Res)
			case ev.Kind == "call" && pureFn(ev.Res, "Elem") && ev.Args[0] == s:
				el = ev.Res
			case ev.Kind == "call" && pureFn(ev.Res, "Fields") && ev.Args[0] == s:
				flds = ev.Res
			}
		}
		if ref == yes {
			g.c.Expect(st.IsNil(err) == yes && len(recs) == 0, "recursion", con+": reference", at, "a reference does not end the recursion")
			return
		}
		g.c.Expect(ref == no, "recursion", con+": reference", at, "a reference does not end the recursion")
		known := present(st, func(m *Term) bool { return m == walking }, s)
		if known == yes {
			// found before: an error exactly if it is on the path
			on := unknown
			for t, v := range st.facts.b {
				if m, k := elemOf(t); m == walking && k == s {
					on = triOf(v)
				}
			}
			n := st.IsNil(err)
			g.c.Expect(len(recs) == 0 && (on == yes && n == no || on == no && n == yes), "recursion", con+": found again", at, "a schema in itself is no error, or one found twice is")
			return
		}
		if st.IsNil(err) != yes {
			ok := false
			for _, ev := range recs {
				ok = ok || ev.Res == err && st.IsNil(err) == no
			}
			g.c.Expect(ok, "recursion", con+": failure", at, "it fails, and nothing is wrong")
			return
		}
		g.c.Expect(known == no && len(marks) == 2 && marks[0].Val == tTrue && marks[1].Val == tFalse, "recursion", con+": marks", at, "a schema checked is noted as being walked")
		elOK := el != nil && st.IsNil(el) == yes
		for _, ev := range recs {
			elOK = elOK || el != nil && ev.Args[0] == el
			g.c.Expect(st.IsNil(ev.Res) == yes, "recursion", con+": failure", at, "a failure is not returned")
		}
		g.c.Expect(elOK, "recursion", con+": element", at, "the element is not checked")
		ok := flds != nil && truthLoose(st, tLe0(w.lenOf(st, flds, flds.T))) == yes
		for _, l := range loops {
			ok = ok || truthLoose(st, tLt(l.t, l.n, false)) == no
		}
		g.c.Expect(ok, "recursion", con+": all fields", at, "not all fields are checked")
	}, "recursion")
}

func (g *regCtx) lookups() {
	for _, x := range []struct {
		f   *ssa.Function
		tab string
	}{{g.byExp, g.fReg}, {g.byRef, g.fSrf}} {
		x := x
		w := g.walker()
		con := fname(x.f)
		g.run(x.f, w, func(e *Exit, ps []*Term, at string) {
			st := e.St
			p := present(st, func(m *Term) bool { return g.isReg(m, x.tab) }, ps[1])
			m, key := elemOf(e.Rets[0])
			ok := p == yes && st.IsNil(e.Rets[1]) == yes && m != nil && g.isReg(m, x.tab) && key == ps[1] || p == no && st.IsNil(e.Rets[1]) == no
			g.c.Expect(ok, "lookup", con, at, "what is found is %s, error %s", e.Rets[0], e.Rets[1])
		}, "lookup")
	}
}

// blank: the zero value
func blank(t *Term) bool {
	t = unconv(t)
	return t == tNil || t.Op == "int" && t.C == 0 || t.Op == "zero" || t.Op == "str" && t.Aux == ""
}
