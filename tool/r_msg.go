package main

// Messages of the node: coding and framing.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("N01", "coding and framing of messages",
		"The type byte, the encoding and the entry in the table of decoded types of every message type are computed from the source and paired; every exit of the decoder is enumerated and compared with the specification; what the sender puts in front of a message is paired with where the receivers read it.", checkN01)
}

const encSerialize = "github.com/skycoin/skycoin/src/cipher/encoder.Serialize"
const encToValue = "github.com/skycoin/skycoin/src/cipher/encoder.DeserializeRawToValue"

// messages: the types of package msg implementing its interface
func messages(c *Ctx) []*types.Named {
	it := c.P.iface("node/msg", "Msg")
	if it == nil {
		c.Anchor("node/msg.Msg")
		return nil
	}
	ms := c.P.implementers("node/msg", it)
	sort.Slice(ms, func(i, j int) bool { return ms[i].Obj().Name() < ms[j].Obj().Name() })
	return ms
}

// tableOf: the entries of a package-level array or slice, set by the initialiser
func (p *Prog) tableOf(g string) map[int64]ssa.Value {
	out := map[int64]ssa.Value{}
	for _, pk := range p.SSA.AllPackages() {
		if !p.isRepoPkg(pk) || pk.Func("init") == nil {
			continue
		}
		// the composite literal, made in place or in a local first
		base := map[ssa.Value]bool{}
		each := func(do func(st *ssa.Store)) {
			for _, b := range pk.Func("init").Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						do(st)
					}
				}
			}
		}
		each(func(st *ssa.Store) {
			gl, ok := st.Addr.(*ssa.Global)
			if !ok || gl.String() != g {
				return
			}
			switch v := st.Val.(type) {
			case *ssa.UnOp:
				base[v.X] = true
			case *ssa.Slice:
				base[v.X] = true
			}
		})
		each(func(st *ssa.Store) {
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok {
				return
			}
			k, ok := ia.Index.(*ssa.Const)
			if !ok {
				return
			}
			gl, _ := ia.X.(*ssa.Global)
			if gl != nil && gl.String() == g || base[ia.X] {
				out[constTerm(k).C] = st.Val
			}
		})
	}
	return out
}

// reflectedType: T of reflect.TypeOf(T{})
func reflectedType(v ssa.Value) types.Type {
	if ci, ok := v.(*ssa.Call); ok && ci.Common().StaticCallee() != nil && ci.Common().StaticCallee().String() == "reflect.TypeOf" {
		if mi, ok := ci.Common().Args[0].(*ssa.MakeInterface); ok {
			return mi.X.Type()
		}
	}
	return nil
}

func checkN01(c *Ctx) {
	c.Rule("type", "every message type has a type byte of its own", 16)
	c.Rule("encode", "the encoding of a message is its type byte followed by all its fields", 16)
	c.Rule("decode", "the decoder makes, for each type byte, the message that has it, from all bytes after it; empty data, unknown type bytes, undecodable and trailing bytes are refused by an error", 20)
	c.Rule("name", "every type byte is printed as the name of its message", 16)
	c.Rule("frame", "seq and rseq are put in front of a message and read back from the same places in the same byte order; a frame too short to hold a message is refused", 5)
	ms := messages(c)
	byName := map[*types.Named]int64{}
	used := map[int64]string{}
	for _, n := range ms {
		name := n.Obj().Name()
		self := mk("param", "msg."+name, types.NewPointer(n))
		tf, ef := c.P.methodOf(n, "Type"), c.P.methodOf(n, "Encode")
		if tf == nil || ef == nil {
			c.Anchor(name + ".Type, Encode")
			continue
		}
		w := c.P.NewWalker()
		typ := int64(-1)
		for _, x := range w.Run(tf, []*Term{self}, nil, nil) {
			ok := !x.Panic && x.Rets[0].Op == "int" && (typ < 0 || typ == x.Rets[0].C)
			c.Expect(ok, "type", name, c.at(x.Instr), "%s has no fixed type byte", name)
			if ok {
				typ = x.Rets[0].C
			}
		}
		c.Done(w)
		if typ < 0 {
			continue
		}
		c.Expect(typ > 0 && typ < 256 && used[typ] == "", "type", name, c.P.pos(tf.Pos()), "%s has the type byte %d, which is that of %s", name, typ, used[typ])
		used[typ] = name
		byName[n] = typ
		// encoding
		allFields(c, name, n, map[types.Type]bool{})
		w = c.P.NewWalker()
		for _, x := range w.Run(ef, []*Term{self}, nil, nil) {
			at := c.at(x.Instr)
			if x.Panic {
				c.Bad("encode", name, at, "encoding %s panics", name)
				continue
			}
			es, ok := w.SliceElems(x.St, x.Rets[0])
			if !ok || len(es) == 0 || es[0].spread || es[0].t != tInt(typ) {
				c.Bad("encode", name, at, "the encoding of %s does not start with its type byte: %s", name, x.Rets[0])
				continue
			}
			c.Expect(encodesAll(w, x.St, es[1:], self, n), "encode", name, at, "the encoding of %s is not all of its fields: %s", name, x.Rets[0])
		}
		c.Done(w)
	}
	// decoding
	f := c.P.Func("node/msg", "Decode")
	if f == nil {
		c.Anchor("node/msg.Decode")
		return
	}
	w := c.P.NewWalker()
	w.Split = true
	p := mk("param", "p", f.Params[0].Type())
	w.OnEvent = func(st *State, ev *Event) bool { return ev.Kind == "call" }
	var table map[int64]ssa.Value
	first := w.load(newState(), idxTerm(p, tInt(0), elemType(p.T)), elemType(p.T))
	ln := w.lenOf(newState(), p, p.T)
	sent := func(n string) *Term { return mk("sentinel", modPath+"/node/msg."+n, nil) }
	seen := map[string]bool{}
	type rng struct{ lo, hi tri }
	var max int64
	for _, n := range byName {
		if n > max {
			max = n
		}
	}
	for _, x := range w.Run(f, []*Term{p}, nil, nil) {
		at := c.at(x.Instr)
		if x.Panic {
			c.Bad("decode", "panic", at, "Decode panics")
			continue
		}
		m, er := x.Rets[0], x.Rets[1]
		var dec, nw *Event
		for _, ev := range x.St.Events() {
			switch {
			case strings.HasPrefix(ev.Name, "github.com/skycoin/skycoin/src/cipher/encoder.Deserialize"):
				dec = ev
			case ev.Name == "reflect.New":
				nw = ev
			}
		}
		if x.St.Truth(tEq(ln, tInt(0))) == yes {
			c.Expect(er == sent("ErrEmptyMessage") && m == tNil, "decode", "empty", at, "Decode returns (%s, %s) for no data", m, er)
			seen["empty"] = true
			continue
		}
		c.Expect(x.St.Truth(tEq(ln, tInt(0))) == no, "decode", "length", at, "Decode goes on with data that may be empty")
		lo := x.St.Truth(tLt(first, tInt(1), false))
		hi := x.St.Truth(tLt(tInt(max), first, false))
		if dec == nil {
			c.Expect(lo == yes || hi == yes, "decode", "unknown type", at, "Decode refuses a message of a known type")
			c.Expect(x.St.IsNil(er) == no && m == tNil && er.Op == "iface" && typeName(er.Obj.(types.Type)) == "InvalidTypeError", "decode", "unknown type", at, "Decode returns (%s, %s) for an unknown type", m, er)
			seen["unknown"] = true
			continue
		}
		c.Expect(lo == no && hi == no, "decode", "type range", at, "Decode goes on with a type byte it has no message for")
		okNew := nw != nil && nw.Args[0].Op == "load" && nw.Args[0].Args[0].Op == "idx" && nw.Args[0].Args[0].Args[1] == first && nw.Args[0].Args[0].Args[0].Op == "global"
		if !c.Expect(okNew, "decode", "table", at, "the message decoded is not taken from a table under the type byte") {
			continue
		}
		table = c.P.tableOf(nw.Args[0].Args[0].Args[0].Aux)
		ok := dec.Name == encToValue && dec.Args[0] == mk("slice", "", nil, p, tInt(1), tNone) && dec.Args[1] == nw.Res
		c.Expect(ok, "decode", "data", c.at(dec.Instr), "Decode decodes %s", dec)
		derr := errOf(dec.Res)
		used := dec.Res.Args[0]
		if x.St.IsNil(derr) != yes {
			c.Expect(er == derr && m == tNil || x.St.IsNil(er) == no && m == tNil, "decode", "undecodable", at, "Decode returns (%s, %s) when decoding fails", m, er)
			seen["undecodable"] = true
			continue
		}
		if x.St.IsNil(er) == yes {
			c.Expect(x.St.Eq(tAdd(used, tInt(1)), ln), "decode", "trailing", at, "Decode accepts a message with trailing bytes")
			val := m
			for val.Op == "asserted" {
				val = val.Args[0]
			}
			c.Expect(val.Op == "pure" && strings.HasPrefix(val.Aux, "(reflect.Value).Interface") && val.Args[0] == nw.Res, "decode", "result", at, "Decode returns %s", m)
			seen["ok"] = true
		} else {
			c.Expect(x.St.Truth(tEq(tAdd(used, tInt(1)), ln)) == no && er == sent("ErrIncomplieDecoding") && m == tNil, "decode", "trailing", at, "Decode returns (%s, %s) for a message with trailing bytes", m, er)
			seen["trailing"] = true
		}
	}
	c.Done(w)
	for _, k := range []string{"empty", "unknown", "undecodable", "trailing", "ok"} {
		c.Expect(seen[k], "decode", "case "+k, c.P.pos(f.Pos()), "Decode has no way out for the case %q", k)
	}
	for _, n := range ms {
		t := reflectedType(table[byName[n]])
		c.Expect(t != nil && types.Identical(t, n), "decode", "table: "+n.Obj().Name(), c.P.pos(f.Pos()), "the type byte %d of %s is decoded as %v", byName[n], n.Obj().Name(), t)
	}
	for k := range table {
		c.Expect(used[k] != "", "decode", fmt.Sprintf("table: %d", k), c.P.pos(f.Pos()), "the type byte %d is decoded but no message has it", k)
	}
	// names
	if sf := c.P.Method("node/msg", "Type", "String"); sf == nil {
		c.Anchor("node/msg.Type.String")
	} else {
		w := c.P.NewWalker()
		t := mk("param", "typ", sf.Params[0].Type())
		for _, x := range w.Run(sf, []*Term{t}, nil, nil) {
			at := c.at(x.Instr)
			r := x.Rets[0]
			in := x.St.Truth(tLt(t, tInt(1), false)) == no && x.St.Truth(tLt(tInt(max), t, false)) == no
			if r.Op == "load" && r.Args[0].Op == "idx" && r.Args[0].Args[0].Op == "global" {
				tab := c.P.tableOf(r.Args[0].Args[0].Aux)
				c.Expect(r.Args[0].Args[1] == t && in, "name", "index", at, "the name of a type byte out of range is looked up")
				for n, k := range byName {
					v, _ := tab[k].(*ssa.Const)
					c.Expect(v != nil && constTerm(v).Aux == n.Obj().Name(), "name", n.Obj().Name(), at, "the type byte %d of %s is printed as %v", k, n.Obj().Name(), tab[k])
				}
			} else {
				c.Expect(!in, "name", "fallback", at, "a known type byte is printed as %s", r)
			}
		}
		c.Done(w)
	}
	frameRule(c)
	c.Sub(checkN02, map[string]string{"dispatch": "frame"})
}

// allFields: the encoder skips no field of a type or what it is made of
func allFields(c *Ctx, name string, t types.Type, seen map[types.Type]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			c.Expect(f.Exported() && !strings.Contains(u.Tag(i), `enc:"-"`), "encode", name+"."+f.Name(), c.P.pos(f.Pos()), "the field %s of %s is not encoded", f.Name(), name)
			allFields(c, name+"."+f.Name(), f.Type(), seen)
		}
	case *types.Slice:
		allFields(c, name, u.Elem(), seen)
	case *types.Array:
		allFields(c, name, u.Elem(), seen)
	case *types.Pointer:
		allFields(c, name, u.Elem(), seen)
	case *types.Map:
		allFields(c, name, u.Key(), seen)
		allFields(c, name, u.Elem(), seen)
	}
}

// encodesAll: the parts are the whole message
func encodesAll(w *Walker, st *State, es []elemPart, self *Term, n *types.Named) bool {
	s := n.Underlying().(*types.Struct)
	if len(es) == 1 && es[0].spread {
		t := es[0].t
		if t.Op == "pure" && strings.HasPrefix(t.Aux, encSerialize) && len(t.Args) == 1 {
			a := t.Args[0]
			if a.Op == "iface" {
				a = a.Args[0]
			}
			return a == self || a == w.load(newState(), self, n)
		}
	}
	i := 0
	for j := 0; j < s.NumFields(); j++ {
		f := s.Field(j)
		at, isArr := f.Type().Underlying().(*types.Array)
		if !isArr || sizeOf(at.Elem()) != 1 { // a field of fixed size only
			return false
		}
		if i >= len(es) {
			return false
		}
		fa := w.fieldAddr(self, n, j)
		t := es[i].t
		if !es[i].spread || t.Op != "slice" && t.Op != "bytesof" {
			return false
		}
		if t.Op == "slice" && (t.Args[0] != fa || t.Args[1] != tInt(0) || t.Args[2] != tNone) {
			return false
		}
		if t.Op == "bytesof" && t.Args[0] != w.load(newState(), fa, f.Type()) {
			return false
		}
		i++
	}
	return i == len(es)
}

// A frame is what goes over a connection
type frame0 struct {
	ev        *Event
	seq, rseq *Term
	msg       *Term // the message
	typ       string
	fields    map[string]*Term
}

// msgModel: encoding a message gives a value that remembers its fields
func msgModel(w *Walker) func(st *State, ev *Event, args []*Term) (*Term, bool) {
	return func(st *State, ev *Event, args []*Term) (*Term, bool) {
		if !strings.HasSuffix(ev.Name, ".Encode") || ev.Sig == nil || ev.Sig.Results().Len() != 1 {
			return nil, false
		}
		switch {
		case strings.HasPrefix(ev.Name, "iface:"+modPath+"/node/msg.Msg."):
			return mk("encoded", "?", ev.Sig.Results().At(0).Type(), ev.Args[0]), true
		case strings.HasPrefix(ev.Name, "(*"+modPath+"/node/msg."):
			n := strings.TrimSuffix(strings.TrimPrefix(ev.Name, "(*"+modPath+"/node/msg."), ").Encode")
			a := ev.Args[0]
			var fs []*Term
			if a.T != nil {
				if s, ok := deref(a.T).Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						fs = append(fs, w.load(st, w.fieldAddr(a, deref(a.T), i), s.Field(i).Type()))
					}
				}
			}
			return mk("encoded", n, ev.Sig.Results().At(0).Type(), append([]*Term{a}, fs...)...), true
		}
		return nil, false
	}
}

// frameOf: the frame in a slice of bytes
func frameOf(w *Walker, st *State, t *Term) (fr frame0, ok bool) {
	es, ok := w.SliceElems(st, t)
	if !ok || len(es) != 9 || !es[8].spread || es[8].t.Op != "encoded" {
		return fr, false
	}
	num := func(lo int) *Term {
		if es[lo].spread {
			return nil
		}
		if es[lo].t.Op != "byte" {
			return nil
		}
		v := es[lo].t.Args[0]
		for i := 0; i < 4; i++ {
			b := es[lo+i].t
			if es[lo+i].spread || b.Op != "byte" || b.Args[0] != v || b.Aux != fmt.Sprintf("le4.%d", i) {
				return nil
			}
		}
		return v
	}
	fr.seq, fr.rseq = num(0), num(4)
	m := es[8].t
	fr.msg, fr.typ = m.Args[0], m.Aux
	fr.fields = map[string]*Term{}
	if m.Aux != "?" {
		if s, ok := deref(m.Args[0].T).Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				fr.fields[s.Field(i).Name()] = m.Args[1+i]
			}
		}
	}
	return fr, fr.seq != nil && fr.rseq != nil
}

func frameRule(c *Ctx) {
	ct := c.P.Named("node", "Conn")
	if ct == nil {
		c.Anchor("node.Conn")
		return
	}
	// sending: every send of bytes of a connection is a frame
	n := 0
	for _, f := range c.P.Funcs {
		if f.Pkg == nil || c.P.rel(f.Pkg) != "node" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if !sendsBytes(in) {
					continue
				}
				n++
				w := c.P.NewWalker()
				w.SamePkg = true
				w.Model = msgModel(w)
				w.OnEvent = func(st *State, ev *Event) bool {
					if ev.Kind == "send" && isBytes(ev.Val.T) {
						fr, ok := frameOf(w, st, ev.Val)
						if c.Expect(ok, "frame", fname(f)+": frame", c.at(ev.Instr), "%s sends %s, which is not seq, rseq and the message", fname(f), ev.Val) {
							var nums []*Term
							for _, p := range f.Params {
								if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint32 {
									nums = append(nums, mk("param", p.Name(), p.Type()))
								}
							}
							if len(nums) == 2 {
								c.Expect(fr.seq == nums[0] && fr.rseq == nums[1], "frame", fname(f)+": order", c.at(ev.Instr), "%s sends the frame with seq %s and rseq %s", fname(f), fr.seq, fr.rseq)
							}
						}
					}
					return false
				}
				w.Run(f, w.Params(f), nil, nil)
				c.Done(w)
			}
		}
	}
	c.Expect(n > 0, "frame", "sending", c.P.pos(ct.Obj().Pos()), "nothing is ever sent")
	// receiving: every decoding of a message
	dec := c.P.Func("node/msg", "Decode")
	for _, f := range c.P.Funcs {
		if f.Pkg == nil || c.P.rel(f.Pkg) != "node" || !callsFn(f, dec) {
			continue
		}
		name := fname(f)
		w := c.P.NewWalker()
		w.SamePkg = true
		w.Want["index"] = true
		w.Loops = 1
		w.Opaque = func(g *ssa.Function) bool { return g.Signature.Recv() != nil && !callsFn(g, dec) }
		some := false
		w.OnEvent = func(st *State, ev *Event) bool {
			if ev.Kind != "call" || ev.Static != dec {
				return false
			}
			some = true
			a := ev.Args[0]
			ok := a.Op == "slice" && a.Args[1] == tInt(8) && a.Args[2] == tNone
			c.Expect(ok, "frame", name+": message", c.at(ev.Instr), "%s decodes %s", name, a)
			if ok {
				raw := a.Args[0]
				ln := w.lenOf(newState(), raw, raw.T)
				c.Expect(st.Truth(tLt(ln, tInt(9), false)) == no, "frame", name+": length", c.at(ev.Instr), "%s decodes a frame that may be too short", name)
			}
			return false
		}
		for _, x := range w.Run(f, w.Params(f), nil, nil) {
			// numbers returned with the message
			var nums []*Term
			for _, r := range x.Rets {
				if b, ok := r.T.(*types.Basic); ok && b.Kind() == types.Uint32 {
					nums = append(nums, r)
				}
			}
			if x.Panic || len(nums) != 2 || x.St.IsNil(x.Rets[len(x.Rets)-1]) == no {
				continue
			}
			raw := w.Params(f)[len(f.Params)-1]
			for i, n := range nums {
				ok := n.Op == "endian" && strings.HasPrefix(n.Aux, "le4/") && sameBytes(n, raw, int64(4*i))
				c.Expect(ok, "frame", name+": numbers", c.at(x.Instr), "%s returns the number %s of the frame", name, n)
			}
		}
		c.Expect(some, "frame", name+": decoding", c.P.pos(f.Pos()), "%s never decodes a message", name)
		c.Done(w)
	}
}

func sendsBytes(in ssa.Instruction) bool {
	isCh := func(v ssa.Value) bool {
		ch, ok := v.Type().Underlying().(*types.Chan)
		return ok && isBytes(ch.Elem())
	}
	switch in := in.(type) {
	case *ssa.Send:
		return isCh(in.Chan)
	case *ssa.Select:
		for _, s := range in.States {
			if s.Dir == types.SendOnly && isCh(s.Chan) {
				return true
			}
		}
	}
	return false
}

func callsFn(f, g *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && g != nil && ci.Common().StaticCallee() == g {
				return true
			}
		}
	}
	return false
}
