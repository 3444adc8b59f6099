package main

// The index database (data.IdxDB): iteration, records of Root objects, feeds
// and heads.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("X01", "iteration over the index",
		"Exact enumeration of the paths of every iteration of the index (feeds, heads, Root objects up and down) over up to two records: each step of the cursor, the argument of each callback and the result are compared with the outcome of the callbacks; the computation of the key to go on with is decided by exact unrolling or by the byte order of the number it is made of.", checkX01)
}

// the implementation of an interface of the data package in data/idxdb
func (c *Ctx) idxImpl(iface string) *types.Named {
	it := c.P.iface("data", iface)
	if it == nil {
		c.Anchor("data." + iface)
		return nil
	}
	for _, n := range c.P.implementers("data/idxdb", it) {
		if s, ok := n.Underlying().(*types.Struct); ok && s.NumFields() > 0 && s.Field(0).Embedded() {
			continue // wrapper
		}
		return n
	}
	c.Anchor("the implementation of data." + iface)
	return nil
}

func (c *Ctx) idxMethod(iface, meth string) (*ssa.Function, *types.Named) {
	n := c.idxImpl(iface)
	if n == nil {
		return nil, nil
	}
	f := c.P.methodOf(n, meth)
	if f == nil {
		c.Anchor(n.Obj().Name() + "." + meth)
	}
	return f, n
}

func checkX01(c *Ctx) {
	c.Rule("order", "every record is visited once, in the order of the iteration, each after the one before, and only while there are records; the key after the last possible key is not looked for", 4)
	c.Rule("arguments", "the callback gets the feed, the nonce or the Root object of the record visited", 4)
	c.Rule("result", "ErrStopIteration ends the iteration without an error, any other error of the callback ends it and is returned", 4)
	c.Rule("delete", "iterating changes no record", 0)
	for _, s := range []struct {
		iface, meth string
		desc, seek  bool
	}{{"Feeds", "Iterate", false, true}, {"Heads", "Iterate", false, true}, {"Roots", "Ascend", false, true}, {"Roots", "Descend", true, false}} {
		f, n := c.idxMethod(s.iface, s.meth)
		if f == nil {
			continue
		}
		name := n.Obj().Name() + "." + s.meth
		args := []*Term{mk("param", "records", f.Params[0].Type()), mk("param", "callback", f.Params[1].Type())}
		iface := s.iface
		iterRule(c, "order", "arguments", "result", "delete", iterSpec{fn: f, args: args, name: name, desc: s.desc, seek: s.seek,
			extra:  func(ev *Event) bool { return decodeCall(ev) },
			opaque: func(f *ssa.Function) bool { return f.String() == decodeName },
			checkRec: func(w *Walker, st *State, k, v *Term, a []*Term, before []*Event) string {
				if len(a) != 1 {
					return "the callback is not called with one argument"
				}
				x := a[0]
				switch iface {
				case "Feeds":
					if w.keyOf(st, x) != k {
						return fmt.Sprintf("the feed given to the callback is %s, not that of the record", x)
					}
				case "Heads":
					if x.Op != "endian" || !strings.HasPrefix(x.Aux, "be8") || w.keyOf(st, x.Args[0]) != k || x.Args[1] != tInt(0) {
						return fmt.Sprintf("the nonce given to the callback is %s, not that of the record in big-endian order", x)
					}
				default:
					var last *Event
					for _, e := range before {
						if decodeCall(e) && e.Args[0] == x {
							last = e
						}
					}
					if last == nil || last.Args[1] != v {
						return "the Root object given to the callback is not decoded from the record visited"
					}
					if e := last.Res; st.IsNil(errOf(e)) != yes {
						return "the Root object given to the callback may have failed to decode"
					}
				}
				return ""
			}})
	}
}

const decodeName = "(*" + modPath + "/data.Root).Decode"

// decodeCall: decoding of a data.Root
func decodeCall(ev *Event) bool {
	return ev.Kind == "call" && ev.Name == decodeName
}

func errOf(t *Term) *Term {
	if t.Op == "tuple" {
		return t.Args[len(t.Args)-1]
	}
	return t
}

// keyOf: the record key a copy was made of
func (w *Walker) keyOf(st *State, x *Term) *Term {
	x = w.bytesContent(st, x)
	for x.Op == "copied" || x.Op == "bytesof" || x.Op == "conv" {
		x = x.Args[0]
	}
	return x
}

func init() {
	register("X02", "records of Root objects in the index",
		"Every exit of Set, Get, Del, Has and Len of the bucket of Root objects is enumerated with the encoding and decoding of a record modelled field by field; the key and each field of the record written and of the object returned are compared with the specification for a record that is there and one that is not.", checkX02)
	register("X03", "feeds and heads in the index",
		"Every exit of the methods of the buckets of feeds and heads and of the transaction is enumerated; the bucket operated on, the key, the operation, the error and the result are compared with the specification.", checkX03)
}

// isNow: the current time in nanoseconds
func isNow(t *Term) bool {
	return t != nil && (t.Op == "call" || t.Op == "pure") && strings.Contains(t.Aux, "time.Time).UnixNano") && strings.Contains(t.Args[0].Aux, "time.Now")
}

// beKey: the big-endian bytes of a number
func beKey(t, v *Term) bool {
	if t == nil || t.Op != "snap" || len(t.Args) != 8 || strings.Trim(t.Aux, "e") != "" {
		return false
	}
	for i, b := range t.Args {
		if b.Op != "byte" || b.Aux != fmt.Sprintf("be8.%d", i) || b.Args[0] != v {
			return false
		}
	}
	return true
}

// modelRecord: encoding and decoding of data.Root, field by field
func modelRecord(w *Walker, rt types.Type) {
	s := rt.Underlying().(*types.Struct)
	w.Model = func(st *State, ev *Event, args []*Term) (*Term, bool) {
		if ev.Kind != "call" || len(args) == 0 {
			return nil, false
		}
		switch ev.Name {
		case decodeName:
			e := mk("decodeerr", "", types.Universe.Lookup("error").Type(), args[0], args[1])
			for i := 0; i < s.NumFields(); i++ {
				w.store(st, w.fieldAddr(args[0], rt, i), mk("decoded", s.Field(i).Name(), s.Field(i).Type(), args[1]), "dec")
			}
			return e, true
		case "(*" + modPath + "/data.Root).Encode":
			fs := make([]*Term, s.NumFields())
			for i := range fs {
				fs[i] = w.load(st, w.fieldAddr(args[0], rt, i), s.Field(i).Type())
			}
			return mk("encoded", "", types.NewSlice(types.Typ[types.Uint8]), fs...), true
		case "(*" + modPath + "/data.Root).Validate":
			return mk("invalid", "", types.Universe.Lookup("error").Type(), args[0]), true
		}
		return nil, false
	}
}

// bucket operations of a path
func bucketOps(x *Exit) (ops []*Event) {
	for _, ev := range x.St.Events() {
		if ev.Kind == "call" && strings.HasPrefix(ev.Name, boltBucket) {
			ops = append(ops, ev)
		}
	}
	return
}

func (c *Ctx) idxWalk(rule string, f *ssa.Function, args []*Term, model bool, each func(w *Walker, x *Exit, at string)) {
	w := c.P.NewWalker()
	if model {
		rt := c.P.Named("data", "Root")
		if rt == nil {
			c.Anchor("data.Root")
			return
		}
		modelRecord(w, rt)
	}
	w.OnEvent = func(st *State, ev *Event) bool {
		switch ev.Kind {
		case "begin", "end":
			return true
		case "call":
			if ev.Name == "dyn" && len(ev.Args) > 0 { // what the argument is at the call
				if v := unwrapIface(ev.Args[0]); v.Op == "alloc" {
					if n, ok := deref(v.T).(*types.Named); ok {
						ev.Val = theBucket(w, st, v, n)
					}
				}
			}
			return strings.HasPrefix(ev.Name, boltBucket) || strings.HasPrefix(ev.Name, boltCursor) || ev.Name == "dyn" || strings.HasPrefix(ev.Name, "(*github.com/boltdb/bolt.Tx)") ||
				strings.HasPrefix(ev.Name, "(*"+modPath+"/data.Root)")
		case "panic":
			return true
		}
		return false
	}
	n := 0
	for _, x := range w.Run(f, args, nil, nil) {
		n++
		each(w, x, c.at(x.Instr))
	}
	c.Expect(n > 0, rule, fname(f)+": exits", c.P.pos(f.Pos()), "%s never returns", fname(f))
	c.Done(w)
}

// theBucket: the only bucket field of a bucket wrapper
func theBucket(w *Walker, st *State, self *Term, n *types.Named) *Term {
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if tstr(s.Field(i).Type()) == "*github.com/boltdb/bolt.Bucket" {
			return w.load(st, w.fieldAddr(self, n, i), s.Field(i).Type())
		}
	}
	return nil
}

func checkX02(c *Ctx) {
	c.Rule("key", "a record is read, written and removed under the big-endian bytes of its seq, in the bucket of the head", 5)
	c.Rule("validate", "a Root object that is not valid is refused by Set and nothing is written", 1)
	c.Rule("create", "a new record keeps the fields given, with creation and access time now, in the record and in the object given", 1)
	c.Rule("touch", "storing a Root object again or reading it leaves all fields of the record as they are and sets the access time to now; the caller sees the times of before", 2)
	c.Rule("missing", "a missing record is reported as data.ErrNotFound by Get and is not created; removing it is no error", 2)
	c.Rule("result", "failures of the database are reported", 3)
	c.Rule("codec", "a record holds all fields", 3)
	rt := c.P.Named("data", "Root")
	if rt == nil {
		c.Anchor("data.Root")
		return
	}
	rs := rt.Underlying().(*types.Struct)
	fi := func(name string) int { i, _ := fieldIndex(rt, name); return i }
	iC, iA, iS := fi("Create"), fi("Access"), fi("Seq")
	if iC < 0 || iA < 0 || iS < 0 {
		c.Anchor("data.Root: Create, Access, Seq")
		return
	}
	errNF := mk("sentinel", modPath+"/data.ErrNotFound", nil)
	n := c.idxImpl("Roots")
	if n == nil {
		return
	}
	self := mk("param", "records", types.NewPointer(n))
	// common checks of the operations of a path; returns the record read
	ops := func(w *Walker, x *Exit, at, name string, seq *Term) (get, put, del []*Event) {
		bk := theBucket(w, newState(), self, n)
		for _, ev := range bucketOps(x) {
			m := strings.TrimPrefix(ev.Name, boltBucket)
			switch m {
			case "Get":
				get = append(get, ev)
			case "Put":
				put = append(put, ev)
			case "Delete":
				del = append(del, ev)
			default:
				if m != "Cursor" {
					c.Bad("key", name, c.at(ev.Instr), "%s uses %s on the bucket of Root objects", name, m)
				}
				continue
			}
			c.Expect(ev.Args[0] == bk && beKey(ev.Args[1], seq), "key", name+": "+m, c.at(ev.Instr), "%s: %s of the key %s instead of the big-endian seq of the Root object", name, m, ev.Args[1])
		}
		return
	}
	// is the record there: from the facts of the exit about what Get returned
	there := func(w *Walker, st *State, g *Term) tri {
		if st.IsNil(g) == yes {
			return no
		}
		return st.Truth(tEq(w.lenOf(st, g, g.T), tInt(0))).not()
	}
	field := func(w *Walker, st *State, r *Term, i int) *Term {
		return w.load(st, w.fieldAddr(r, rt, i), rs.Field(i).Type())
	}
	// Set
	if f := c.P.methodOf(n, "Set"); f == nil {
		c.Anchor(n.Obj().Name() + ".Set")
	} else {
		r := mk("param", "root", types.NewPointer(rt))
		name := n.Obj().Name() + ".Set"
		c.idxWalk("create", f, []*Term{self, r}, true, func(w *Walker, x *Exit, at string) {
			st0 := newState()
			seq := field(w, st0, r, iS)
			get, put, del := ops(w, x, at, name, seq)
			inv := mk("invalid", "", types.Universe.Lookup("error").Type(), r)
			validated := x.St.IsNil(inv)
			if x.Panic {
				c.Expect(len(put)+len(del) == 0, "result", name+": panic", at, "%s writes before it panics", name)
				return
			}
			ret := x.Rets[0]
			if len(put) > 0 {
				early := false
				for _, ev := range x.St.Events() {
					if strings.HasSuffix(ev.Name, ").Validate") && ev.Args[0] == r {
						early = true
					}
					if ev == put[0] {
						break
					}
				}
				c.Expect(validated == yes && early, "validate", name, at, "%s stores a Root object that may be invalid", name)
			}
			if validated == no {
				c.Expect(ret == inv, "validate", name+": error", at, "%s returns %s for an invalid Root object", name, ret)
				return
			}
			c.Expect(len(del) == 0 && len(put) == 1 && len(get) == 1, "create", name+": one record", at, "%s reads %d, writes %d and removes %d records", name, len(get), len(put), len(del))
			if len(put) != 1 || len(get) != 1 {
				return
			}
			c.Expect(ret == put[0].Res || x.St.IsNil(put[0].Res) == yes && x.St.IsNil(ret) == yes, "result", name, at, "%s returns %s instead of the outcome of the write", name, ret)
			rec := put[0].Args[2]
			if rec.Op != "encoded" {
				c.Bad("codec", name, at, "%s writes %s, not an encoded Root object", name, rec)
				return
			}
			v := get[0].Res
			switch there(w, x.St, v) {
			case no:
				for i := 0; i < rs.NumFields(); i++ {
					fn, got, now := rs.Field(i).Name(), rec.Args[i], field(w, x.St, r, i)
					if i == iC || i == iA {
						c.Expect(isNow(got) && now == got && rec.Args[iC] == rec.Args[iA], "create", name+": "+fn, at, "%s: %s of a new record is %s and of the object %s, not the current time", name, fn, got, now)
					} else {
						was := field(w, st0, r, i)
						c.Expect(got == was && now == was, "create", name+": "+fn, at, "%s: %s of a new record is %s instead of %s", name, fn, got, was)
					}
				}
			case yes:
				for i := 0; i < rs.NumFields(); i++ {
					fn, got := rs.Field(i).Name(), rec.Args[i]
					dec := mk("decoded", fn, rs.Field(i).Type(), v)
					if i == iA {
						c.Expect(isNow(got), "touch", name+": "+fn, at, "%s: the access time of a record stored again is %s, not the current time", name, got)
					} else {
						c.Expect(got == dec, "touch", name+": "+fn, at, "%s: %s of a record stored again becomes %s", name, fn, got)
					}
					if i == iA || i == iC {
						c.Expect(field(w, x.St, r, i) == dec, "touch", name+": "+fn+" of the object", at, "%s: %s of the object given becomes %s, not the one of the record", name, fn, field(w, x.St, r, i))
					}
				}
			default:
				c.Bad("create", name, at, "%s writes a record without regard to whether there is one", name)
			}
		})
	}
	// Get
	if f := c.P.methodOf(n, "Get"); f == nil {
		c.Anchor(n.Obj().Name() + ".Get")
	} else {
		seq := mk("param", "seq", f.Params[1].Type())
		name := n.Obj().Name() + ".Get"
		c.idxWalk("touch", f, []*Term{self, seq}, true, func(w *Walker, x *Exit, at string) {
			get, put, del := ops(w, x, at, name, seq)
			if x.Panic {
				c.Expect(len(put)+len(del) == 0, "result", name+": panic", at, "%s writes before it panics", name)
				return
			}
			ret, er := x.Rets[0], x.Rets[1]
			if !c.Expect(len(get) == 1 && len(del) == 0, "key", name+": one record", at, "%s reads %d and removes %d records", name, len(get), len(del)) {
				return
			}
			v := get[0].Res
			switch there(w, x.St, v) {
			case no:
				c.Expect(er == errNF && len(put) == 0 && x.St.IsNil(ret) == yes, "missing", name, at, "%s: a missing record gives (%s, %s) and %d writes", name, ret, er, len(put))
			case yes:
				if !c.Expect(len(put) == 1 && put[0].Args[2].Op == "encoded", "touch", name, at, "%s does not write the record back", name) {
					return
				}
				for i := 0; i < rs.NumFields(); i++ {
					fn, got := rs.Field(i).Name(), put[0].Args[2].Args[i]
					dec := mk("decoded", fn, rs.Field(i).Type(), v)
					if i == iA {
						c.Expect(isNow(got), "touch", name+": "+fn, at, "%s: the access time of a record read becomes %s, not the current time", name, got)
					} else {
						c.Expect(got == dec, "touch", name+": "+fn, at, "%s: %s of a record read becomes %s", name, fn, got)
					}
					if x.St.IsNil(er) == yes {
						o := field(w, x.St, ret, i)
						c.Expect(o == dec, "touch", name+": "+fn+" returned", at, "%s returns %s as %s, not the one of the record", name, o, fn)
					}
				}
				c.Expect(er == put[0].Res || x.St.IsNil(put[0].Res) == yes && x.St.IsNil(er) == yes, "result", name, at, "%s returns %s instead of the outcome of the write", name, er)
			default:
				c.Bad("missing", name, at, "%s does not tell a missing record", name)
			}
		})
	}
	// Del
	if f := c.P.methodOf(n, "Del"); f == nil {
		c.Anchor(n.Obj().Name() + ".Del")
	} else {
		seq := mk("param", "seq", f.Params[1].Type())
		name := n.Obj().Name() + ".Del"
		c.idxWalk("missing", f, []*Term{self, seq}, true, func(w *Walker, x *Exit, at string) {
			_, put, del := ops(w, x, at, name, seq)
			if !c.Expect(!x.Panic && len(put) == 0 && len(del) == 1, "key", name+": one record", at, "%s removes %d records and writes %d", name, len(del), len(put)) {
				return
			}
			c.Expect(x.Rets[0] == del[0].Res || x.St.IsNil(x.Rets[0]) == yes && x.St.IsNil(del[0].Res) == yes, "result", name, at, "%s returns %s instead of the outcome of the removal", name, x.Rets[0])
			c.Site("missing", name)
		})
	}
	// Has
	if f := c.P.methodOf(n, "Has"); f == nil {
		c.Anchor(n.Obj().Name() + ".Has")
	} else {
		seq := mk("param", "seq", f.Params[1].Type())
		name := n.Obj().Name() + ".Has"
		c.idxWalk("key", f, []*Term{self, seq}, true, func(w *Walker, x *Exit, at string) {
			get, put, del := ops(w, x, at, name, seq)
			if !c.Expect(!x.Panic && len(put)+len(del) == 0 && len(get) == 1, "key", name+": one record", at, "%s reads %d records and changes %d", name, len(get), len(put)+len(del)) {
				return
			}
			want := tNot(tEq(w.lenOf(newState(), get[0].Res, get[0].Res.T), tInt(0)))
			got := x.Rets[0]
			ok := boolIs(x.St, got, want) || boolIs(x.St, got, tNot(tEq(get[0].Res, tNil)))
			c.Expect(ok, "missing", name, at, "%s returns %s, not whether there is a record", name, got)
		})
	}
	lenRule(c, "missing", n, self)
	// the codec
	for i := 0; i < rs.NumFields(); i++ {
		c.Expect(!strings.Contains(rs.Tag(i), `enc:"-"`) && rs.Field(i).Exported(), "codec", "data.Root."+rs.Field(i).Name(), c.P.pos(rs.Field(i).Pos()), "%s is left out of the record", rs.Field(i).Name())
	}
	codecRule(c, "codec", "data", "Root")
}

// boolIs: the two boolean terms are the same on the path
func boolIs(st *State, got, want *Term) bool {
	if got == want {
		return true
	}
	switch st.Truth(want) {
	case yes:
		return st.Truth(got) == yes
	case no:
		return st.Truth(got) == no
	}
	// lengths are never negative
	norm := func(t *Term) *Term {
		neg := false
		for t.Op == "not" {
			t, neg = t.Args[0], !neg
		}
		if t.Op == "le0" {
			if l, k := lin(t.Args[0]); k == 0 && len(l) == 1 && l[0].k == 1 && (l[0].t.Op == "len" || isUnsigned(l[0].t.T)) {
				t = tEq(l[0].t, tInt(0))
			} else if k == 1 && len(l) == 1 && l[0].k == -1 && (l[0].t.Op == "len" || isUnsigned(l[0].t.T)) {
				t, neg = tEq(l[0].t, tInt(0)), !neg
			}
		}
		if neg {
			return tNot(t)
		}
		return t
	}
	return norm(got) == norm(want)
}

// lenRule: Len counts the records of the bucket
func lenRule(c *Ctx, rule string, n *types.Named, self *Term) {
	f := c.P.methodOf(n, "Len")
	name := n.Obj().Name() + ".Len"
	if f == nil {
		c.Anchor(name)
		return
	}
	w := c.P.NewWalker()
	w.Cut, w.CutAll, w.Loops = true, true, 4
	w.OnEvent = func(st *State, ev *Event) bool {
		return ev.Kind == "call" && (strings.HasPrefix(ev.Name, boltCursor) || strings.HasPrefix(ev.Name, boltBucket))
	}
	ok := 0
	for _, x := range w.Run(f, []*Term{self}, nil, nil) {
		bk := theBucket(w, newState(), self, n)
		cnt, moves, end := int64(0), 0, false
		for _, ev := range x.St.Events() {
			m := ev.Name[strings.LastIndex(ev.Name, ".")+1:]
			switch m {
			case "Cursor":
				c.Expect(ev.Args[0] == bk, rule, name+": bucket", c.at(ev.Instr), "%s counts another bucket", name)
			case "First", "Last", "Next", "Prev":
				if moves > 0 && (m == "First" || m == "Last") || moves == 0 && (m == "Next" || m == "Prev") {
					c.Bad(rule, name, c.at(ev.Instr), "%s does not visit every record once (%s)", name, m)
				}
				moves++
				if k := ev.Res.Args[0]; x.St.IsNil(k) == no {
					cnt++
				} else {
					end = true
				}
			default:
				c.Bad(rule, name, c.at(ev.Instr), "%s uses %s", name, ev.Name)
			}
		}
		ok++
		c.Expect(!x.Panic && end && x.Rets[0] == tInt(cnt), rule, name, c.at(x.Instr), "%s returns %v for %d records", name, x.Rets, cnt)
	}
	c.Expect(ok > 2, rule, name+": loop", c.P.pos(f.Pos()), "%s was not followed through the records", name)
	c.Done(w)
}

// codecRule: Encode and Decode hand the whole object to the encoder
func codecRule(c *Ctx, rule, rel, typ string) {
	if f := c.P.Method(rel, typ, "Encode"); f == nil {
		c.Anchor(rel + "." + typ + ".Encode")
	} else {
		w := c.P.NewWalker()
		r := mk("param", "object", f.Params[0].Type())
		for _, x := range w.Run(f, []*Term{r}, nil, nil) {
			if x.Panic {
				continue
			}
			t := x.Rets[0]
			ok := (t.Op == "call" || t.Op == "pure") && strings.Contains(t.Aux, "encoder.Serialize#") && len(t.Args) == 1
			if ok {
				a := unwrapIface(t.Args[0])
				ok = a == r || a.Op == "load" && a.Args[0] == r
			}
			c.Expect(ok, rule, typ+".Encode", c.at(x.Instr), "%s.Encode returns %s, not the encoding of the object", typ, t)
		}
		c.Done(w)
	}
	if f := c.P.Method(rel, typ, "Decode"); f == nil {
		c.Anchor(rel + "." + typ + ".Decode")
	} else {
		w := c.P.NewWalker()
		r, p := mk("param", "object", f.Params[0].Type()), mk("param", "data", f.Params[1].Type())
		w.OnEvent = func(st *State, ev *Event) bool {
			return ev.Kind == "call" && strings.Contains(ev.Name, "encoder.Deserialize")
		}
		for _, x := range w.Run(f, []*Term{r, p}, nil, nil) {
			if x.Panic {
				continue
			}
			evs := x.St.Events()
			ok := len(evs) == 1 && evs[0].Args[0] == p && unwrapIface(evs[0].Args[1]) == r
			c.Expect(ok, rule, typ+".Decode", c.at(x.Instr), "%s.Decode does not decode its argument into the object", typ)
			if ok {
				e := errOf(evs[0].Res)
				ret := x.Rets[len(x.Rets)-1]
				c.Expect(ret == e || x.St.IsNil(e) == yes && x.St.IsNil(ret) == yes, rule, typ+".Decode: error", c.at(x.Instr), "%s.Decode returns %s instead of the error of the decoder", typ, ret)
			}
		}
		c.Done(w)
	}
}

func checkX03(c *Ctx) {
	c.Rule("operation", "each operation works on the bucket it belongs to under the key of its feed or head, and does what its name says", 8)
	c.Rule("missing", "a missing feed or head is reported by its own error by Del, Heads and Roots, and nothing is done", 4)
	c.Rule("result", "the outcome of the database operation is returned; the result works on the bucket found or made", 8)
	c.Rule("tx", "a transaction runs the function given on the feeds, inside one writing transaction of the database, and its error is the error of the transaction", 2)
	sent := func(n string) *Term { return mk("sentinel", modPath+"/data."+n, nil) }
	for _, k := range []struct {
		iface, sub, err string
	}{{"Feeds", "Heads", "ErrNoSuchFeed"}, {"Heads", "Roots", "ErrNoSuchHead"}} {
		n := c.idxImpl(k.iface)
		if n == nil {
			continue
		}
		subn := c.idxImpl(k.sub)
		self := mk("param", "records", types.NewPointer(n))
		for _, m := range []string{"Add", "Del", "Has", k.sub} {
			f := c.P.methodOf(n, m)
			name := n.Obj().Name() + "." + m
			if f == nil {
				c.Anchor(name)
				continue
			}
			kp := mk("param", "key", f.Params[1].Type())
			isKey := func(t *Term) bool {
				if k.iface == "Heads" {
					return beKey(t, kp)
				}
				return t == mk("bytesof", "", nil, kp)
			}
			c.idxWalk("operation", f, []*Term{self, kp}, false, func(w *Walker, x *Exit, at string) {
				bk := theBucket(w, newState(), self, n)
				var look, change *Event
				for _, ev := range bucketOps(x) {
					op := strings.TrimPrefix(ev.Name, boltBucket)
					c.Expect(ev.Args[0] == bk && len(ev.Args) == 2 && isKey(ev.Args[1]), "operation", name+": "+op, c.at(ev.Instr), "%s: %s under the key %s", name, op, ev.Args)
					switch op {
					case "Bucket":
						look = ev
					case "CreateBucketIfNotExists", "CreateBucket":
						c.Expect(m == "Add" && op == "CreateBucketIfNotExists" && change == nil, "operation", name, c.at(ev.Instr), "%s uses %s", name, op)
						change = ev
					case "DeleteBucket":
						c.Expect(m == "Del" && change == nil, "operation", name, c.at(ev.Instr), "%s uses %s", name, op)
						change = ev
					default:
						c.Bad("operation", name, c.at(ev.Instr), "%s uses %s", name, op)
					}
				}
				if x.Panic {
					c.Bad("result", name+": panic", at, "%s panics", name)
					return
				}
				er := x.Rets[len(x.Rets)-1]
				outcome := func() {
					e := errOf(change.Res)
					c.Expect(er == e || x.St.IsNil(e) == yes && x.St.IsNil(er) == yes, "result", name, at, "%s returns %s instead of the outcome of the operation", name, er)
				}
				wraps := func(r, b *Term) {
					ok := false
					if v := unwrapIface(r); subn != nil && v.T != nil {
						ok = theBucket(w, x.St, v, subn) == b && types.Identical(deref(v.T), subn)
					}
					c.Expect(ok, "result", name+": bucket", at, "%s returns %s, which does not work on the bucket of the key", name, r)
				}
				there := unknown
				if look != nil {
					there = x.St.IsNil(look.Res).not()
				}
				switch m {
				case "Add":
					if !c.Expect(change != nil, "operation", name, at, "%s adds nothing", name) {
						return
					}
					outcome()
					if len(x.Rets) == 2 && x.St.IsNil(er) == yes {
						wraps(x.Rets[0], change.Res.Args[0])
					}
				case "Del":
					switch {
					case there == no:
						c.Expect(er == sent(k.err) && change == nil, "missing", name, at, "%s returns %s for a missing key, not %s", name, er, k.err)
					case change == nil || there == unknown:
						c.Bad("operation", name, at, "%s does not remove the bucket exactly when it is there", name)
					default:
						outcome()
					}
				case "Has":
					if c.Expect(look != nil && change == nil, "operation", name, at, "%s does not look for the bucket", name) {
						c.Expect(boolIs(x.St, x.Rets[0], tNot(tEq(look.Res, tNil))) && x.St.IsNil(er) == yes, "result", name, at, "%s returns %v, not whether the bucket is there", name, x.Rets)
					}
				default:
					switch there {
					case no:
						c.Expect(er == sent(k.err) && x.St.IsNil(x.Rets[0]) == yes, "missing", name, at, "%s returns %v for a missing key, not %s", name, x.Rets, k.err)
					case yes:
						c.Expect(x.St.IsNil(er) == yes, "result", name, at, "%s returns the error %s for a key that is there", name, er)
						wraps(x.Rets[0], look.Res)
					default:
						c.Bad("operation", name, at, "%s does not look for the bucket", name)
					}
				}
			})
		}
		lenRule(c, "operation", n, self)
	}
	// transactions
	n := c.idxImpl("IdxDB")
	if n == nil {
		return
	}
	f := c.P.methodOf(n, "Tx")
	name := n.Obj().Name() + ".Tx"
	if f == nil {
		c.Anchor(name)
		return
	}
	fn := c.idxImpl("Feeds")
	if fn == nil {
		return
	}
	self, cb := mk("param", "db", types.NewPointer(n)), mk("param", "function", f.Params[1].Type())
	var feedsName *Term
	c.idxWalk("tx", f, []*Term{self, cb}, false, func(w *Walker, x *Exit, at string) {
		if x.Panic {
			return
		}
		var call, end *Event
		in, calls := false, 0
		for _, ev := range x.St.Events() {
			switch {
			case ev.Kind == "begin":
				c.Expect(ev.Name == "Update" && !in, "tx", name+": transaction", c.at(ev.Instr), "%s starts %s", name, ev.Name)
				in = true
			case ev.Kind == "end":
				in, end = false, ev
			case ev.Name == "dyn" && ev.Addr == cb:
				calls++
				call = ev
				c.Expect(in, "tx", name+": inside", c.at(ev.Instr), "%s calls the function outside of the transaction", name)
				v := unwrapIface(ev.Args[0])
				ok := v.T != nil && types.Identical(deref(v.T), fn)
				if ok {
					b := ev.Val
					ok = b != nil && b.Op == "call" && strings.Contains(b.Aux, "bolt.Tx).Bucket#") && b.Args[0].Op == "tx"
					if ok {
						feedsName = b.Args[1]
					}
				}
				c.Expect(ok, "tx", name+": feeds", c.at(ev.Instr), "%s gives %s to the function, not the feeds of the transaction", name, ev.Args[0])
			}
		}
		if end == nil {
			c.Bad("tx", name, at, "%s returns without a transaction", name)
			return
		}
		ret := x.Rets[0]
		switch end.Tag {
		case "commit":
			c.Expect(calls == 1 && x.St.IsNil(call.Res) == yes && x.St.IsNil(ret) == yes, "tx", name+": commit", at, "%s commits and returns %s although the function may have failed", name, ret)
		case "rollback":
			c.Expect(calls == 1 && ret == call.Res, "tx", name+": rollback", at, "%s returns %s instead of the error of the function", name, ret)
		default:
			c.Expect(ret.Op == "dberr" && calls <= 1, "tx", name+": failure", at, "%s returns %s when the transaction fails", name, ret)
		}
	})
	_ = feedsName
}
