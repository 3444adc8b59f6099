package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R01", "Schemas size encoded data exactly, within its bounds, and tell references",
		"Every method Size and HasReferences of every type implementing Schema is run on a receiver and data that may be anything; other schemas are replaced by their contract; invariants of loops are inferred (bounds of what is summed up) and rounds judged from an arbitrary state.", checkR01)
}

// a schemaType is a type implementing Schema
type schemaType struct {
	n                *types.Named
	role             string // base reference slice array struct
	fElem, fLen, fFl string
	fTyp, fKind      string
	fName, fRef      string
}

type schemaCtx struct {
	c     *Ctx
	reg   *types.Package
	iface *types.Interface
	ts    []*schemaType
}

func newSchemaCtx(c *Ctx) *schemaCtx {
	x := &schemaCtx{c: c, reg: c.P.Types["skyobject/registry"]}
	if x.reg == nil || x.reg.Scope().Lookup("Schema") == nil {
		c.Anchor("registry.Schema")
		return nil
	}
	x.iface, _ = x.reg.Scope().Lookup("Schema").Type().Underlying().(*types.Interface)
	if x.iface == nil {
		c.Anchor("registry.Schema is an interface")
		return nil
	}
	roles := map[string]int{}
	names := x.reg.Scope().Names()
	sort.Strings(names)
	for _, n := range names {
		tn, ok := x.reg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		nt, ok := types.Unalias(tn.Type()).(*types.Named)
		if !ok || types.IsInterface(nt) || !types.Implements(types.NewPointer(nt), x.iface) {
			continue
		}
		st, ok := nt.Underlying().(*types.Struct)
		if !ok {
			c.Anchor("registry." + n + " is a struct")
			return nil
		}
		s := &schemaType{n: nt, role: "base"}
		x.roles(s, st)
		switch {
		case s.fTyp != "":
			s.role = "reference"
		case s.fFl != "":
			s.role = "struct"
		case s.fElem != "" && s.fLen != "":
			s.role = "array"
		case s.fElem != "":
			s.role = "slice"
		}
		roles[s.role]++
		x.ts = append(x.ts, s)
	}
	for _, r := range []string{"base", "reference", "slice", "array", "struct"} {
		if roles[r] == 0 {
			c.Anchor("registry: a schema of kind " + r)
			return nil
		}
	}
	return x
}

func (x *schemaCtx) roles(s *schemaType, st *types.Struct) {
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch {
		case typeName(f.Type()) == "ReferenceType":
			s.fTyp = f.Name()
		case typeName(f.Type()) == "Schema":
			s.fElem = f.Name()
		case isNum(f.Type()) && typeName(f.Type()) == "Kind":
			s.fKind = f.Name()
		case isNum(f.Type()):
			s.fLen = f.Name()
		case isBytes(f.Type()):
			s.fName = f.Name()
		case typeName(f.Type()) == "SchemaRef":
			s.fRef = f.Name()
		default:
			if sl, ok := f.Type().Underlying().(*types.Slice); ok && typeName(sl.Elem()) == "Field" {
				s.fFl = f.Name()
			}
			if f.Embedded() {
				if e, ok := f.Type().Underlying().(*types.Struct); ok {
					x.roles(s, e)
				}
			}
		}
	}
}

// fieldOf: the field of a role of a schema, through what is embedded
func (x *schemaCtx) fieldOf(w *Walker, st *State, obj *Term, name string) *Term {
	var rec func(a *Term, n types.Type) *Term
	rec = func(a *Term, n types.Type) *Term {
		s, ok := n.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return w.load(st, w.fieldAddr(a, n, i), s.Field(i).Type())
			}
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Embedded() {
				if v := rec(w.fieldAddr(a, n, i), s.Field(i).Type()); v != nil {
					return v
				}
			}
		}
		return nil
	}
	return rec(obj, deref(obj.T))
}

func (x *schemaCtx) method(s *schemaType, name string) *ssa.Function {
	ms := types.NewMethodSet(types.NewPointer(s.n))
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return x.c.P.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

// isLength: a function reading the length prefix of encoded data
func isLength(f *ssa.Function) bool {
	s := f.Signature
	if s.Recv() != nil || s.Params().Len() != 1 || !isBytes(s.Params().At(0).Type()) || s.Results().Len() != 2 || !isNum(s.Results().At(0).Type()) || !isErrorT(s.Results().At(1).Type()) {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if g := ci.Common().StaticCallee(); g != nil && g.Name() == "DeserializeRaw" {
				return true
			}
		}
	}
	return false
}

// schemaModel: other schemas and their fields are what they say
func schemaModel(reg *types.Package, st *State, ev *Event) (*Term, bool) {
	pure := func(name string, args ...*Term) *Term {
		return resTerm(ev.Sig, func(k int, t types.Type) *Term {
			if k > 0 {
				return mk("pure", fmt.Sprintf("%s#%d", name, k), t, args...)
			}
			return mk("pure", name, t, args...)
		})
	}
	if ev.Static == nil {
		i := strings.LastIndex(ev.Name, ".")
		if i < 0 || !strings.HasPrefix(ev.Name, "iface:") {
			return nil, false
		}
		if r := ev.Name[:i]; strings.HasSuffix(r, ".Schema") || strings.HasSuffix(r, ".Field") {
			return pure("Schema."+ev.Name[i+1:], ev.Args...), true
		}
		return nil, false
	}
	f := ev.Static
	if f.Pkg != nil && f.Pkg.Pkg == reg && isLength(f) {
		ev.Tag = "length"
		return pure("length", ev.Args...), true
	}
	return nil, false
}

func (x *schemaCtx) walker() *Walker {
	w := x.c.P.NewWalker()
	w.SamePkg = true
	w.Split = true
	w.AnyRound = true
	w.Loops = 1
	w.MaxStates = 3000
	w.OnEvent = anyEvent
	w.Entry = map[*Term][]*Term{}
	w.Model = func(st *State, ev *Event, args []*Term) (*Term, bool) { return schemaModel(x.reg, st, ev) }
	return w
}

func pureFn(t *Term, name string) bool { return t != nil && t.Op == "pure" && t.Aux == "Schema."+name }

// kindSizes: the sizes of values of a kind
var kindSizes = map[reflect.Kind]int64{
	reflect.Bool: 1, reflect.Int8: 1, reflect.Uint8: 1,
	reflect.Int16: 2, reflect.Uint16: 2,
	reflect.Int32: 4, reflect.Uint32: 4, reflect.Float32: 4,
	reflect.Int64: 8, reflect.Uint64: 8, reflect.Float64: 8,
}

// contracts: what the functions called say about their results
func contracts(w *Walker, st *State) {
	for _, ev := range st.Events() {
		if ev.Kind != "call" || ev.Res == nil || ev.Res.Op != "tuple" || st.IsNil(lastRes(ev)) != yes {
			continue
		}
		n := ev.Res.Args[0]
		switch {
		case pureFn(n, "Size"):
			st.assume(tLe0(tScale(n, -1)), true)
			st.assume(tLe0(tSub(n, w.lenOf(st, ev.Args[1], ev.Args[1].T))), true)
		case ev.Tag == "length":
			st.assume(tLe0(tScale(n, -1)), true)
			st.assume(tLe0(tSub(tInt(4), w.lenOf(st, ev.Args[0], ev.Args[0].T))), true)
		}
	}
}

type sizeLoop struct {
	t, n *Term // progress, and how far it goes
	q, d *Term // what is summed up; the offset of the round is q+d
	what string
}

type sizeRun struct {
	*schemaCtx
	s     *schemaType
	w     *Walker
	name  string
	rr    *reachRun
	obj   *Term
	data  *Term
	n     *Term // number of elements, where it is not encoded
	el    *Term
	list  *Term
	inv   map[string]bool // invariants of loops
	loops []sizeLoop
	has   []*Term
	at    string
}

func (r *sizeRun) expect(ok bool, rule, what, f string, a ...interface{}) bool {
	return r.c.Expect(ok, rule, r.name+": "+what, r.at, f, a...)
}

func checkR01(c *Ctx) {
	c.Rule("bounds", "Size succeeds only with a size from nothing to all of the data, for any data.", 5)
	c.Rule("slices", "No Size takes a part of the data that is not there.", 2)
	c.Rule("exact", "The size is that of the kind (bool and 8 bit 1, 16 bit 2, 32 bit 4, 64 bit 8; a string its length and 4); of a reference by its type; of an array and a struct the sum of its elements, each sized behind the one before it; of a slice the same and 4 more; what has no size, or is not in the data, is an error, and nothing else.", 20)
	c.Rule("references", "HasReferences tells: a value of a basic kind has none, a reference is one, an array and a slice have those of the elements, and a struct has some if a field has.", 5)
	c.Rule("prefix", "A length prefix is the 32 bit number the data begins with, or an error.", 1)
	c.Rule("reference sizes", "Sizes of references are lengths of encoded references.", 3)
	c.Assume("Schema.Size of elements keeps to the same contract; DeserializeRaw of a 32 bit number succeeds only if there are 4 bytes.")
	x := newSchemaCtx(c)
	if x == nil {
		return
	}
	x.prefix()
	sizes := x.referenceSizes()
	for _, s := range x.ts {
		x.size(s, sizes)
		x.hasRefs(s)
	}
}

// prefix: functions reading a length
func (x *schemaCtx) prefix() {
	for _, f := range x.c.P.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg != x.reg || !isLength(f) {
			continue
		}
		w := x.c.P.NewWalker()
		w.SamePkg, w.Split = true, true
		w.OnEvent = anyEvent
		w.KeepTrunc = true
		w.Model = func(st *State, ev *Event, args []*Term) (*Term, bool) {
			if !strings.HasSuffix(ev.Name, ".DeserializeRaw") {
				return nil, false
			}
			to := unwrapIface(ev.Args[1])
			for to.Op == "conv" || to.Op == "changetype" {
				to = to.Args[0]
			}
			if bt, ok := deref(to.T).Underlying().(*types.Basic); ok && bt.Kind() == types.Uint32 {
				w.store(st, to, mk("decoded", "", deref(to.T), ev.Args[0]), "decoded")
			}
			return resTerm(ev.Sig, func(k int, t types.Type) *Term { return mk("pure", fmt.Sprintf("DeserializeRaw#%d", k), t, ev.Args[0]) }), true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cv, ok := in.(*ssa.Convert); ok && isNum(cv.Type()) {
					t := cv.Type().Underlying().(*types.Basic).Kind()
					x.c.Expect(t == types.Int || t == types.Int64 || t == types.Uint64 || t == types.Uint || t == types.Uint32, "prefix", fname(f), x.c.at(in), "the length is made a %s", cv.Type())
				}
			}
		}
		ps := w.Params(f)
		for _, e := range w.Run(f, ps, nil, nil) {
			at := x.c.at(e.Instr)
			con := fname(f)
			if e.Panic {
				x.c.Bad("prefix", con, at, "%s panics", con)
				continue
			}
			var d *Event
			n := 0
			for _, ev := range e.St.Events() {
				if ev.Kind == "call" && strings.HasSuffix(ev.Name, ".DeserializeRaw") {
					d, n = ev, n+1
				}
			}
			if !x.c.Expect(n == 1 && d.Args[0] == ps[0], "prefix", con, at, "the length is not decoded once, from the beginning of the data") {
				continue
			}
			if e.St.IsNil(e.Rets[1]) == no {
				x.c.Expect(e.St.IsNil(lastRes(d)) != yes, "prefix", con, at, "a length decoded is an error")
				continue
			}
			x.c.Expect(e.Rets[1] == lastRes(d) || e.St.IsNil(lastRes(d)) == yes, "prefix", con, at, "a failure to decode is not returned")
			v := unconv(e.Rets[0])
			x.c.Expect(v.Op == "decoded" && v.Args[0] == ps[0], "prefix", con, at, "the length is %s, not the 32 bit number decoded", e.Rets[0])
		}
		x.c.Done(w)
	}
}

// referenceSizes: the variables that have the sizes of references
func (x *schemaCtx) referenceSizes() map[string]*Term {
	out := map[string]*Term{}
	pk := x.c.P.Pkgs["skyobject/registry"]
	var inits []*ssa.Function
	for _, m := range pk.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(f.Name(), "init#") {
			inits = append(inits, f)
		}
	}
	if f := pk.Func("init"); f != nil {
		inits = append(inits, f)
	}
	sort.Slice(inits, func(i, j int) bool { return inits[i].Name() < inits[j].Name() })
	for _, f := range inits {
		w := x.c.P.NewWalker()
		w.Unroll, w.Loops = true, 8
		w.SamePkg = true
		// the initialization of other packages does not matter
		w.Opaque = func(g *ssa.Function) bool { return strings.HasPrefix(g.Name(), "init") }
		w.OnEvent = func(st *State, ev *Event) bool { return ev.Kind == "store" && ev.Addr.Op == "global" }
		for _, e := range w.Run(f, nil, nil, nil) {
			for _, ev := range e.St.Events() {
				t := ev.Val
				if ev.Kind != "store" || t == nil || !isNum(deref(ev.Addr.T)) {
					continue
				}
				if t.Op != "len" || t.Args[0].Op != "pure" || !strings.HasSuffix(t.Args[0].Aux, "encoder.Serialize#0") {
					continue
				}
				o := t.Args[0].Args[0]
				if o.Op != "iface" {
					continue
				}
				dt, _ := o.Obj.(types.Type)
				if dt == nil || o.Args[0] != zeroTerm(dt) {
					continue
				}
				if n := typeName(deref(dt)); n == "Ref" || n == "Refs" || n == "Dynamic" {
					x.c.Expect(out[n] == nil || out[n] == ev.Addr, "reference sizes", n, x.c.at(ev.Instr), "two variables have the size of %s", n)
					out[n] = ev.Addr
				}
			}
		}
	}
	for _, n := range []string{"Ref", "Refs", "Dynamic"} {
		ok := out[n] != nil
		for m, a := range out {
			ok = ok && (m == n || a != out[n])
		}
		if ok {
			for _, g := range pk.Members {
				if g, isG := g.(*ssa.Global); isG && out[n].Op == "global" && g.String() == out[n].Aux {
					ok = x.c.P.storedOnlyInInit(g)
				}
			}
		}
		x.c.Expect(ok, "reference sizes", n, "skyobject/registry", "no variable has the length of an encoded %s", n)
	}
	return out
}

func (x *schemaCtx) size(s *schemaType, sizes map[string]*Term) {
	f := x.method(s, "Size")
	if f == nil {
		x.c.Anchor("registry." + s.n.Obj().Name() + ".Size")
		return
	}
	// invariants: which of the candidates hold is found by leaving out those
	// that do not, until the rest holds
	inv := map[string]bool{}
	for try := 0; ; try++ {
		d := x.c.Fork()
		y := *x
		y.c = d
		next := y.sizeWith(s, f, sizes, inv)
		same := true
		for k, ok := range next {
			if old, was := inv[k]; !was || old != ok {
				same = false
			}
		}
		if same || try > 8 {
			x.c.Join(d)
			return
		}
		inv = next
	}
}

// sizeWith runs Size with invariants of loops; it returns those that hold
func (x *schemaCtx) sizeWith(s *schemaType, f *ssa.Function, sizes map[string]*Term, inv map[string]bool) map[string]bool {
	c := x.c
	w := x.walker()
	next := map[string]bool{}
	for k, v := range inv {
		next[k] = v
	}
	r := &sizeRun{schemaCtx: x, s: s, w: w, name: s.n.Obj().Name() + ".Size", inv: inv}
	ps := w.Params(f)
	st := newState()
	st.assume(tEq(ps[0], tNil), false)
	r.obj, r.data = ps[0], ps[1]
	r.obj = mk(r.obj.Op, r.obj.Aux, types.NewPointer(s.n), r.obj.Args...)
	ps[0] = r.obj
	r.rr = &reachRun{reachCtx: &reachCtx{c: c}, w: w}
	if s.fElem != "" {
		r.el = x.fieldOf(w, st, r.obj, s.fElem)
	}
	if s.role == "array" {
		r.n = x.fieldOf(w, st, r.obj, s.fLen)
		st.assume(tLe0(tScale(r.n, -1)), true)
	}
	if s.role == "struct" {
		r.list = x.fieldOf(w, st, r.obj, s.fFl)
		r.n = w.lenOf(st, r.list, r.list.T)
	}
	for _, g := range sizes {
		st.assume(tLe0(tScale(w.load(st, g, types.Typ[types.Int]), -1)), true)
	}
	kind := x.fieldOf(w, st, r.obj, s.fKind)
	dlen := w.lenOf(st, r.data, r.data.T)
	cand := map[string]func(q *Term) *Term{
		"not below zero":  func(q *Term) *Term { return tLe0(tScale(q, -1)) },
		"within the data": func(q *Term) *Term { return tLe0(tSub(q, dlen)) },
	}
	key := func(ph ssa.Value, n string) string { return fmt.Sprintf("%s.%s: %s", ph.Parent(), ph.Name(), n) }
	w.Head = func(st, ns *State, ph *ssa.Phi, init, sym *Term) {
		if !isNum(ph.Type()) || isFloatT(ph.Type()) {
			return
		}
		contracts(w, st)
		for n, f := range cand {
			k := key(ph, n)
			if was, ok := inv[k]; ok && !was {
				continue
			}
			if _, ok := next[k]; !ok {
				next[k] = true
			}
			if init == nil || st.Truth(f(init)) != yes {
				next[k] = false
			}
			ns.assume(f(sym), true)
		}
	}
	inData := func(st *State, ev *Event) {
		if len(ev.Args) < 4 || rootTerm(ev.Args[0]) != r.data && ev.Args[0] != r.data {
			return
		}
		contracts(w, st)
		lo, hi, l := ev.Args[1], ev.Args[2], ev.Args[3]
		c.Expect(st.Truth(tLe0(tScale(lo, -1))) == yes && st.Truth(tLe0(tSub(lo, hi))) == yes && st.Truth(tLe0(tSub(hi, l))) == yes, "slices", r.name, c.at(ev.Instr), "a part of the data from %s to %s of %s may not be there", lo, hi, l)
	}
	w.Want["index"] = true
	w.OnEvent = func(st *State, ev *Event) bool {
		if ev.Kind == "slice" {
			inData(st, ev)
			return false
		}
		if ev.Kind == "index" && len(ev.Args) == 3 && ev.Args[0] == r.data {
			c.Bad("slices", r.name, c.at(ev.Instr), "a byte of the data is read on its own")
		}
		return ev.Kind != "index"
	}
	w.OnBack = func(g *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
		contracts(w, st)
		r.rr.st = st
		r.at = c.P.pos(g.Pos())
		for _, ph := range headPhis(head) {
			if !isNum(ph.Type()) || isFloatT(ph.Type()) {
				continue
			}
			for n, f := range cand {
				if b := r.rr.backVal(head, ph, env); b == nil || st.Truth(f(b)) != yes {
					next[key(ph, n)] = false
				}
			}
		}
		r.round(head, st, env)
	}
	for _, e := range w.Run(f, ps, nil, st) {
		r.at = c.P.pos(f.Pos())
		if e.Instr != nil {
			r.at = c.at(e.Instr)
		}
		dbg("exit", r.name, e)
		if e.Panic {
			c.Bad("bounds", r.name, r.at, "%s panics", r.name)
			continue
		}
		contracts(w, e.St)
		r.exit(e, kind, dlen, sizes)
	}
	c.Done(w)
	return next
}

func (r *sizeRun) exit(e *Exit, kind, dlen *Term, sizes map[string]*Term) {
	st := e.St
	n, err := e.Rets[0], e.Rets[1]
	nilErr := st.IsNil(err)
	if nilErr == unknown {
		// the failure of an element, returned as it is
		ok := false
		for _, ev := range st.Events() {
			if ev.Kind == "call" && ev.Res != nil && ev.Res.Op == "tuple" && lastRes(ev) == err {
				ok = pureFn(ev.Res.Args[0], "Size") && ev.Args[1] == r.data && n == ev.Res.Args[0]
			}
		}
		r.expect(ok, "exact", "failure", "whether the size is known is not decided")
		return
	}
	if nilErr == no {
		r.justified(e, kind, dlen, sizes)
		return
	}
	r.expect(st.Truth(tLe0(tScale(n, -1))) == yes, "bounds", "from nothing", "the size %s may be less than nothing", n)
	r.expect(st.Truth(tLe0(tSub(n, dlen))) == yes, "bounds", "to all", "the size %s may be more than there is", n)
	same := func(t *Term) bool { return n == t || timeless(n) == timeless(t) || st.Eq(n, t) }
	switch r.s.role {
	case "base":
		for k := reflect.Invalid; k <= reflect.UnsafePointer; k++ {
			if st.Truth(tEq(kind, tInt(int64(k)))) == no {
				continue
			}
			switch want, ok := kindSizes[k]; {
			case k == reflect.String:
				l := r.length(st)
				r.expect(l != nil && same(tAdd(l, tInt(4))), "exact", "string", "the size of a string is %s", n)
			default:
				r.expect(ok && same(tInt(want)), "exact", k.String(), "the size of %s is %s", k, n)
			}
		}
	case "reference":
		typ := r.fieldOf(r.w, st, r.obj, r.s.fTyp)
		for _, k := range r.refTypes() {
			if st.Truth(tEq(typ, tInt(k.v))) == no {
				continue
			}
			ok := false
			if g := sizes[k.typ]; g != nil {
				ok = same(r.w.load(st, g, types.Typ[types.Int]))
			}
			r.expect(ok, "exact", "reference "+k.name, "the size of a reference of type %s is %s", k.name, n)
		}
	default:
		r.sum(e, n)
	}
}

type refTypeConst struct {
	name, typ string
	v         int64
}

func (x *schemaCtx) refTypes() []refTypeConst {
	out := []refTypeConst{{"ReferenceTypeNone", "", 0}, {"ReferenceTypeSingle", "Ref", 0}, {"ReferenceTypeSlice", "Refs", 0}, {"ReferenceTypeDynamic", "Dynamic", 0}}
	for i := range out {
		if k, ok := x.reg.Scope().Lookup(out[i].name).(*types.Const); ok {
			fmt.Sscan(k.Val().String(), &out[i].v)
		} else {
			x.c.Anchor("registry." + out[i].name)
		}
	}
	return append(out, refTypeConst{"unknown", "", 1 << 20})
}

// length: the length the data begins with
func (r *sizeRun) length(st *State) *Term {
	for _, ev := range st.Events() {
		if ev.Kind == "call" && ev.Tag == "length" && ev.Args[0] == r.data && st.IsNil(lastRes(ev)) == yes {
			return ev.Res.Args[0]
		}
	}
	return nil
}

// justified: a failure for a reason
func (r *sizeRun) justified(e *Exit, kind, dlen *Term, sizes map[string]*Term) {
	st := e.St
	failed := false
	for _, ev := range st.Events() {
		if ev.Kind == "call" && ev.Res != nil && ev.Res.Op == "tuple" && (ev.Tag == "length" || pureFn(ev.Res.Args[0], "Size")) && st.IsNil(lastRes(ev)) == no {
			failed = true
		}
	}
	if failed {
		r.expect(true, "exact", "step fails", "")
		return
	}
	over := func(n *Term) bool { return st.Truth(tLe0(tSub(n, dlen))) == no }
	ok := false
	switch r.s.role {
	case "base":
		ok = true
		for k := reflect.Invalid; k <= reflect.UnsafePointer; k++ {
			if st.Truth(tEq(kind, tInt(int64(k)))) == no {
				continue
			}
			want, has := kindSizes[k]
			if k == reflect.String {
				l := r.length(st)
				ok = ok && l != nil && over(tAdd(l, tInt(4)))
			} else if has {
				ok = ok && over(tInt(want))
			}
		}
	case "reference":
		typ := r.fieldOf(r.w, st, r.obj, r.s.fTyp)
		ok = true
		for _, k := range r.refTypes() {
			if g := sizes[k.typ]; g != nil && st.Truth(tEq(typ, tInt(k.v))) != no {
				ok = ok && over(r.w.load(st, g, types.Typ[types.Int]))
			}
		}
	default:
		// of a sum only: what was summed up, or is by a fixed size, is more
		for _, l := range r.loops {
			ok = ok || over(tAdd(l.q, l.d))
		}
		for _, k := range []int64{1, 2, 4, 8} {
			n, start := r.count(st)
			if n != nil {
				ok = ok || over(tAdd(tScale(n, k), tInt(start))) && r.elemSize(st) == k
			}
		}
	}
	r.expect(ok, "exact", "failure", "it fails, and nothing is wrong")
}

// count: the number of elements, and where the first one begins
func (r *sizeRun) count(st *State) (*Term, int64) {
	if r.s.role == "slice" {
		return r.length(st), 4
	}
	return r.n, 0
}

// elemSize: the size of an element, if it is of a kind with a size
func (r *sizeRun) elemSize(st *State) int64 {
	var size int64
	k := mk("pure", "Schema.Kind", r.kindType(), r.el)
	any := false
	for kk := reflect.Invalid; kk <= reflect.UnsafePointer; kk++ {
		if st.Truth(tEq(k, tInt(int64(kk)))) == no {
			continue
		}
		s, ok := kindSizes[kk]
		if !ok || any && s != size {
			return 0
		}
		any, size = true, s
	}
	return size
}

func (r *sizeRun) kindType() types.Type {
	for i := 0; i < r.iface.NumMethods(); i++ {
		if m := r.iface.Method(i); m.Name() == "Kind" {
			return m.Type().(*types.Signature).Results().At(0).Type()
		}
	}
	return nil
}

// sum: the size is the sum of the sizes of the elements
func (r *sizeRun) sum(e *Exit, n *Term) {
	st := e.St
	cnt, start := r.count(st)
	if !r.expect(cnt != nil, "exact", "elements", "the size is not that of as many elements as there are") {
		return
	}
	same := func(a, b *Term) bool { return a == b || timeless(a) == timeless(b) || st.Eq(a, b) }
	if r.el != nil {
		if k := r.elemSize(st); k > 0 && same(n, tAdd(tScale(cnt, k), tInt(start))) {
			r.c.Site("exact", fmt.Sprintf("%s: elements of %d bytes", r.name, k))
			return
		}
	}
	r.rr.st = st
	if st.Truth(tLe0(cnt)) == yes && same(n, tInt(start)) {
		r.c.Site("exact", r.name+": no elements")
		return
	}
	ok := false
	for _, l := range r.loops {
		if same(l.n, cnt) && same(n, tAdd(l.q, l.d)) && truthLoose(st, tLt(l.t, l.n, false)) == no {
			ok = true
		}
	}
	r.expect(ok, "exact", "sum", "the size %s is not the sum of the sizes of all elements", n)
}

// round: one element is sized
func (r *sizeRun) round(head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
	rule := "exact"
	var sz *Event
	k := 0
	for _, ev := range st.Events() {
		if ev.Kind == "call" && ev.Res != nil && ev.Res.Op == "tuple" && pureFn(ev.Res.Args[0], "Size") {
			sz, k = ev, k+1
		}
	}
	if k == 0 && r.s.role == "base" {
		return
	}
	if !r.expect(k == 1, rule, "element", "an element is not sized once") {
		return
	}
	el, p := sz.Args[0], sz.Args[1]
	off := tInt(0)
	switch {
	case p == r.data:
	case p.Op == "slice" && p.Args[0] == r.data && p.Args[2] == tNone:
		off = p.Args[1]
	default:
		r.expect(false, rule, "element", "an element is sized in something else than the rest of the data")
		return
	}
	if !r.expect(st.IsNil(lastRes(sz)) == yes, rule, "element fails", "it goes on with an element whose size is not known") {
		return
	}
	cnt, start := r.count(st)
	if !r.expect(cnt != nil, rule, "elements", "the number of elements is not known") {
		return
	}
	var idx *Term
	if r.s.role == "struct" {
		if pureFn(el, "Schema") {
			if i := idxOf(el.Args[0]); i != nil && timeless(i.Args[0]) == timeless(r.list) {
				idx = i.Args[1]
			}
		}
		if !r.expect(idx != nil, rule, "element", "a field is sized by another schema than its own") {
			return
		}
	} else if !r.expect(timeless(el) == timeless(r.el), rule, "element", "an element is sized by another schema") {
		return
	}
	t := r.rr.progress(head, env, cnt, idx)
	if !r.expect(t != nil, rule, "index", "the elements are not counted one by one, from the first") {
		return
	}
	m := sz.Res.Args[0]
	found := false
	for _, ph := range headPhis(head) {
		q := env[ph]
		if q == nil || !isNum(ph.Type()) {
			continue
		}
		b := r.rr.backVal(head, ph, env)
		if b == nil || timeless(tSub(b, q)) != timeless(m) {
			continue
		}
		es := r.w.Entry[q]
		if len(es) == 0 {
			continue
		}
		// the sum is what the elements begin with, or begins with nothing
		d := tSub(tInt(start), es[0])
		if d.Op != "int" {
			continue
		}
		ok := timeless(tSub(off, q)) == timeless(d)
		for _, e := range es {
			ok = ok && e == es[0]
		}
		if ok {
			found = true
			r.loops = append(r.loops, sizeLoop{t: t, n: cnt, q: q, d: d})
		}
	}
	r.expect(found, rule, "next", "an element is not looked for behind the one before it, or the sum is another one")
}

// hasRefs: HasReferences of a type
func (x *schemaCtx) hasRefs(s *schemaType) {
	c := x.c
	f := x.method(s, "HasReferences")
	if f == nil {
		c.Anchor("registry." + s.n.Obj().Name() + ".HasReferences")
		return
	}
	w := x.walker()
	ps := w.Params(f)
	ps[0] = mk(ps[0].Op, ps[0].Aux, types.NewPointer(s.n), ps[0].Args...)
	st := newState()
	st.assume(tEq(ps[0], tNil), false)
	name := s.n.Obj().Name() + ".HasReferences"
	rr := &reachRun{reachCtx: &reachCtx{c: c}, w: w}
	type foldLoop struct{ t, n, acc *Term }
	var loops []foldLoop
	var list, n *Term
	if s.role == "struct" {
		list = x.fieldOf(w, st, ps[0], s.fFl)
		n = w.lenOf(st, list, list.T)
	}
	// the answers of fields
	answers := func(st *State) (out []*Term, idx []*Term) {
		for _, ev := range st.Events() {
			if ev.Kind == "call" && pureFn(ev.Res, "HasReferences") {
				a := ev.Args[0]
				if !pureFn(a, "Schema") {
					continue
				}
				if i := idxOf(a.Args[0]); i != nil && timeless(i.Args[0]) == timeless(list) {
					out, idx = append(out, ev.Res), append(idx, i.Args[1])
				}
			}
		}
		return
	}
	w.OnBack = func(g *ssa.Function, head *ssa.BasicBlock, st *State, env map[ssa.Value]*Term) {
		at := c.P.pos(g.Pos())
		if s.role != "struct" {
			return
		}
		rr.st = st
		as, idx := answers(st)
		var accs, accb []*Term
		for _, ph := range headPhis(head) {
			if isBool(ph.Type()) {
				accs, accb = append(accs, env[ph]), append(accb, rr.backVal(head, ph, env))
			}
		}
		if len(as) == 0 {
			// a field passed by: something has references already
			ok := false
			for i, q := range accs {
				ok = ok || st.Truth(q) == yes && accb[i] != nil && st.Truth(accb[i]) == yes
			}
			c.Expect(ok, "references", name, at, "a field is passed by")
			for i, q := range accs {
				_ = i
				loops = append(loops, foldLoop{nil, nil, q})
			}
			return
		}
		if !c.Expect(len(as) == 1, "references", name, at, "a field is asked more than once") {
			return
		}
		t := rr.progress(head, env, n, idx[0])
		if !c.Expect(t != nil, "references", name, at, "the fields are not counted one by one, from the first") {
			return
		}
		if len(accs) == 0 {
			// left at once if one has
			c.Expect(st.Truth(as[0]) == no, "references", name, at, "it goes on although a field has references, and forgets it")
			loops = append(loops, foldLoop{t, n, nil})
			return
		}
		for i, q := range accs {
			b := accb[i]
			okEntry := len(w.Entry[q]) > 0
			for _, v := range w.Entry[q] {
				okEntry = okEntry && v == tFalse
			}
			tq, th := st.Truth(q), st.Truth(as[0])
			ok := b != nil && okEntry
			if ok {
				tb := st.Truth(b)
				switch {
				case tq == yes || th == yes:
					ok = tb == yes
				case tq == no && th == no:
					ok = tb == no
				case tq == no:
					ok = b == as[0]
				case th == no:
					ok = b == q
				default:
					ok = false
				}
			}
			if c.Expect(ok, "references", name, at, "what is found in a field is lost") {
				loops = append(loops, foldLoop{t, n, q})
			}
		}
	}
	for _, e := range w.Run(f, ps, nil, st) {
		at := c.P.pos(f.Pos())
		if e.Instr != nil {
			at = c.at(e.Instr)
		}
		dbg("exit", name, e)
		if e.Panic {
			c.Bad("references", name, at, "%s panics", name)
			continue
		}
		r := e.Rets[0]
		switch s.role {
		case "base":
			c.Expect(e.St.Truth(r) == no, "references", name, at, "a value of a basic kind has references")
		case "reference":
			c.Expect(e.St.Truth(r) == yes, "references", name, at, "a reference is none")
		case "slice", "array":
			el := x.fieldOf(w, e.St, ps[0], s.fElem)
			want := mk("pure", "Schema.HasReferences", types.Typ[types.Bool], el)
			ok := timeless(r) == timeless(want)
			if tw := truthLoose(e.St, want); tw != unknown {
				ok = ok || e.St.Truth(r) == tw
			}
			c.Expect(ok, "references", name, at, "the answer is not that of the elements")
		case "struct":
			done := truthLoose(e.St, tLe0(n)) == yes
			for _, l := range loops {
				done = done || l.t != nil && truthLoose(e.St, tLt(l.t, l.n, false)) == no
			}
			as, _ := answers(e.St)
			acc := false
			for _, l := range loops {
				acc = acc || l.acc != nil && (l.acc == r || e.St.Truth(l.acc) == e.St.Truth(r) && e.St.Truth(r) != unknown)
			}
			ok := false
			switch e.St.Truth(r) {
			case yes:
				ok = acc
				for _, a := range as {
					ok = ok || e.St.Truth(a) == yes
				}
			case no:
				anyAcc := false
				for _, l := range loops {
					anyAcc = anyAcc || l.acc != nil
				}
				ok = done && (acc || !anyAcc) || truthLoose(e.St, tLe0(n)) == yes
			default:
				ok = done && acc
			}
			c.Expect(ok, "references", name, at, "the answer is not whether a field has references")
		}
	}
	c.Done(w)
}
