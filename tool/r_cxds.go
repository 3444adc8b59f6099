package main

// The object store (data.CXDS): reference counts, values, statistics,
// iteration, opening and closing. Both implementations are decided by one
// specification over their exits; what differs is only how a read, a write and
// a deletion of an object look like in the code.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func init() {
	register("D01", "reference counts and values of objects",
		"Every exit of Get, Set, Inc and Del of every implementation of data.CXDS is enumerated by the path-sensitive abstract interpreter, separately for an absent, an unused (count zero) and a used object and for a positive, zero and negative change (above and below zero): the count stored and returned, the value stored and returned (as an own copy), the error, and what is written or deleted are compared with the specification.", func(c *Ctx) { cxdsRules(c, "rc") })
	register("D02", "statistics of the object store",
		"The same enumeration, comparing the change of each of the four statistics with the change of the contents made on the path, for successful and for failed or rolled back transactions; the roles of the counters are found from what Amount and Volume return.", func(c *Ctx) {
			cxdsRules(c, "stat")
			c.Sub(checkD03, map[string]string{"stat": "stat-iteration"})
		})
}

// implementations of an interface in a package
func (p *Prog) implementers(rel string, iface *types.Interface) []*types.Named {
	var out []*types.Named
	pk := p.Types[rel]
	if pk == nil {
		return nil
	}
	sc := pk.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if ok && (types.Implements(nt, iface) || types.Implements(types.NewPointer(nt), iface)) {
			out = append(out, nt)
		}
	}
	return out
}

func (p *Prog) iface(rel, name string) *types.Interface {
	n := p.Named(rel, name)
	if n == nil {
		return nil
	}
	i, _ := n.Underlying().(*types.Interface)
	return i
}

const boltBucket = "(*github.com/boltdb/bolt.Bucket)."

// a write to the store seen on a path
type objWrite struct {
	del     bool
	key     *Term
	rc, val *Term // after; val is the content
	whole   *Term
	ev      *Event
	res     *Term
	inTx    string
}

// one case of the specification
type rcCase struct {
	name string
	obj  string // absent, dead, used
	inc  string // zero, up, down, under (to zero or below), none
}

type cxdsImpl struct {
	c      *Ctx
	n      *types.Named
	self   *Term
	stats  [4]*Term // all, used amount; all, used volume
	bucket map[*Term]bool
}

// the canonical object of the store under the key
type objView struct {
	got   *Term // bolt: the raw slice
	mem   *Term // memory: the structure
	rc    *Term
	val   *Term
	vlen  *Term
	known bool
}

// split a structure holding a count and bytes
func rcValOf(w *Walker, t types.Type, v *Term) (rc, val *Term) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if b, ok := ft.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			rc = project(v, s.Field(i).Name(), i, ft)
		}
		if isBytes(ft) {
			val = project(v, s.Field(i).Name(), i, ft)
		}
	}
	return
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isHashT(t types.Type) bool {
	return t != nil && strings.HasSuffix(t.String(), "cipher.SHA256")
}

// content of a byte slice: the slice whose bytes it has, itself when it is
// not a copy of anything
func (w *Walker) copyOf(st *State, t *Term) *Term {
	for i := 0; i < 4; i++ {
		switch {
		case t.Op == "pure" && strings.HasPrefix(t.Aux, "bytes.Clone"):
			t = t.Args[0]
			continue
		case t.Op == "snap" && len(t.Args) == 1 && t.Aux == "s":
			t = t.Args[0]
			continue
		case t.Op == "append" && t.Args[0] == tNil:
			t = t.Args[1]
			continue
		case t.Op == "makeslice" || t.Op == "append":
			if es, ok := w.SliceElems(st, t); ok && len(es) == 1 && es[0].spread && es[0].t != t {
				t = es[0].t
				continue
			}
			if t.Op == "append" {
				if es, ok := w.SliceElems(st, t); ok {
					var l []*Term
					for _, e := range es {
						if e.spread {
							l = append(l, e.t)
						}
					}
					if len(l) == 1 && len(l) == len(es) {
						t = l[0]
						continue
					}
				}
			}
		}
		break
	}
	return t
}

func (m *cxdsImpl) walker() *Walker {
	w := m.c.P.NewWalker()
	w.Want["lookup"] = true
	return w
}

// events of the store; inject assumes the case when the object is read
func (m *cxdsImpl) watch(w *Walker, key *Term, cs rcCase, view *objView, assumeInc func(st *State, rc *Term) bool) {
	w.OnEvent = func(st *State, ev *Event) bool {
		switch ev.Kind {
		case "begin", "end":
			return true
		case "mapupdate", "mapdelete":
			return true
		case "lookup":
			mt, ok := ev.Addr.T.Underlying().(*types.Map)
			if !ok || !isHashT(mt.Key()) || ev.Args[0] != key || st.auto["written"] != "" {
				return false
			}
			ts := tstr(ev.Addr.T)
			pa := mapAddr("mappres", ev.Addr, key, ev.Addr.T)
			pres := mk("present", st.epoch[termKey(pa)], types.Typ[types.Bool], pa)
			a := mapAddr("mapelem", ev.Addr, key, ev.Addr.T)
			v := w.loadMapElem(st, a, mt.Elem())
			_ = ts
			if cs.obj == "absent" {
				st.assume(pres, false)
				return false
			}
			st.assume(pres, true)
			rc, val := rcValOf(w, mt.Elem(), v)
			if rc == nil || val == nil {
				w.undecided("%s: the stored structure %s has no count or no value", m.n.Obj().Name(), tstr(mt.Elem()))
				return false
			}
			view.mem, view.rc, view.val, view.known = v, rc, val, true
			view.vlen = w.lenOf(st, val, val.T)
			assumeInc(st, rc)
			return false
		case "call":
			if !strings.HasPrefix(ev.Name, boltBucket) {
				return false
			}
			switch strings.TrimPrefix(ev.Name, boltBucket) {
			case "Get":
				m.bucket[ev.Args[0].bucketName()] = true
				if ev.Args[1] != mk("bytesof", "", nil, key) {
					return true
				}
				if st.auto["written"] == "" {
					got := mk("stored", "object", ev.Res.T)
					ev.Res = got
					ln := w.lenOf(st, got, got.T)
					if cs.obj == "absent" {
						st.assume(tEq(ln, tInt(0)), true)
						st.assume(tEq(got, tNil), true)
						return true
					}
					st.assume(tLe0(tSub(tInt(5), ln)), true) // four bytes of the count and a value
					st.assume(tEq(got, tNil), false)
					view.got = got
					view.rc = mk("endian", "be4/", types.Typ[types.Uint32], got, tInt(0))
					view.val = mk("slice", "", nil, got, tInt(4), tNone)
					view.vlen = tSub(ln, tInt(4))
					view.known = true
					assumeInc(st, view.rc)
				}
				return true
			case "Put", "Delete":
				m.bucket[ev.Args[0].bucketName()] = true
				st.auto["written"] = "1"
				return true
			case "Cursor":
				return true
			}
		}
		return false
	}
}

// bucketName: the name a bucket was opened by
func (t *Term) bucketName() *Term {
	if t.Op == "call" && strings.Contains(t.Aux, "bolt.Tx).Bucket") || t.Op == "call" && strings.Contains(t.Aux, "bolt.Tx).CreateBucket") {
		return t.Args[1]
	}
	if t.Op == "ext" {
		return t.Args[0].bucketName()
	}
	return t
}

// writes of a path, in order, with the state of the transaction around them
func (m *cxdsImpl) writes(w *Walker, x *Exit) (ws []objWrite, txs []string) {
	tx := ""
	for _, ev := range x.St.Events() {
		switch ev.Kind {
		case "begin":
			tx = ev.Name
		case "end":
			for i := range ws {
				if ws[i].inTx == "Update" || ws[i].inTx == "View" || ws[i].inTx == "Batch" {
					ws[i].inTx += "/" + ev.Tag
				}
			}
			txs = append(txs, ev.Name+"/"+ev.Tag)
			tx = ""
		case "mapupdate", "mapdelete":
			mt, ok := ev.Addr.T.Underlying().(*types.Map)
			if !ok || !isHashT(mt.Key()) {
				continue
			}
			o := objWrite{del: ev.Kind == "mapdelete", key: ev.Args[0], ev: ev, inTx: "memory"}
			if !o.del {
				o.rc, o.val = rcValOf(w, mt.Elem(), ev.Val)
				o.whole = ev.Val
			}
			ws = append(ws, o)
		case "call":
			switch strings.TrimPrefix(ev.Name, boltBucket) {
			case "Put":
				o := objWrite{key: ev.Args[1], ev: ev, res: ev.Res, inTx: tx, whole: ev.Args[2]}
				if o.key.Op == "bytesof" {
					o.key = o.key.Args[0]
				}
				o.rc, o.val = splitRecord(ev.Args[2])
				ws = append(ws, o)
			case "Delete":
				o := objWrite{del: true, key: ev.Args[1], ev: ev, res: ev.Res, inTx: tx}
				if o.key.Op == "bytesof" {
					o.key = o.key.Args[0]
				}
				ws = append(ws, o)
			}
		}
	}
	return
}

// splitRecord: big-endian count followed by the value
func splitRecord(t *Term) (rc, val *Term) {
	if t.Op != "snap" || len(t.Args) != 5 || t.Aux != "eeees" {
		return nil, nil
	}
	for i := 0; i < 4; i++ {
		b := t.Args[i]
		if b.Op != "byte" || b.Aux != fmt.Sprintf("be4.%d", i) || rc != nil && b.Args[0] != rc {
			return nil, nil
		}
		rc = b.Args[0]
	}
	return rc, t.Args[4]
}

var rcCases = []rcCase{
	{"absent, no change", "absent", "zero"}, {"absent, increase", "absent", "up"}, {"absent, decrease", "absent", "down"},
	{"unused, no change", "dead", "zero"}, {"unused, increase", "dead", "up"}, {"unused, decrease", "dead", "under"},
	{"used, no change", "used", "zero"}, {"used, increase", "used", "up"}, {"used, decrease", "used", "down"}, {"used, decrease to nothing", "used", "under"},
}

func cxdsRules(c *Ctx, part string) {
	rule := func(name, text string, floor int, p string) {
		if p == part {
			c.Rule(name, text, floor)
		}
	}
	rule("count", "Get and Inc change the count by the given amount, down to zero at most; Set counts from zero; the new count is stored and returned", 20, "rc")
	rule("value", "the value stored is the value given, the value returned is the value stored, as a copy of its own", 8, "rc")
	rule("missing", "an object that is not there is reported as data.ErrNotFound by Get and Inc, is created by Set only, and its deletion is no error", 8, "rc")
	rule("refuse", "Set refuses a change that is not positive by a panic and an empty value by an error, writing nothing", 4, "rc")
	rule("readonly", "nothing is written when the count does not change", 8, "rc")
	rule("delete", "Del removes the object, whatever its count", 4, "rc")
	rule("failure", "a failing transaction or write is reported to the caller", 8, "rc")
	rule("stat", "each statistic changes by exactly what the content changed by", 40, "stat")
	rule("stat-failed", "a failed or rolled back transaction leaves the statistics alone", 8, "stat")
	rule("stat-read", "Amount and Volume report the statistics kept", 4, "stat")
	expect := func(p string, ok bool, rule, construct, pos, f string, a ...interface{}) {
		if p == part {
			c.Expect(ok, rule, construct, pos, f, a...)
		}
	}
	it := c.P.iface("data", "CXDS")
	if it == nil {
		c.Anchor("data.CXDS")
		return
	}
	impls := c.P.implementers("data/cxds", it)
	if len(impls) < 2 {
		c.Anchor("the implementations of data.CXDS in data/cxds")
		return
	}
	errNF := mk("sentinel", modPath+"/data.ErrNotFound", nil)
	for _, n := range impls {
		m := &cxdsImpl{c: c, n: n, bucket: map[*Term]bool{}}
		tn := n.Obj().Name()
		m.self = mk("param", "store", types.NewPointer(n))
		if !m.roles(part == "stat") {
			continue
		}
		for _, meth := range []string{"Get", "Set", "Inc", "Del"} {
			f := c.P.methodOf(n, meth)
			if f == nil {
				c.Anchor(tn + "." + meth)
				continue
			}
			for _, cs := range rcCases {
				if meth == "Del" && cs.inc != "zero" {
					continue
				}
				name := tn + "." + meth + ", " + cs.name
				w := m.walker()
				view := &objView{}
				args := []*Term{m.self}
				var key, val, inc *Term
				for _, p := range f.Params[1:] {
					t := mk("param", p.Name(), p.Type())
					args = append(args, t)
					switch {
					case isHashT(p.Type()):
						key = t
					case isBytes(p.Type()):
						val = t
					default:
						inc = t
					}
				}
				st := newState()
				if inc != nil {
					switch cs.inc {
					case "zero":
						st.assume(tEq(inc, tInt(0)), true)
					case "up":
						st.assume(tLe0(tSub(tInt(1), inc)), true)
					default:
						st.assume(tLe0(tAdd(inc, tInt(1))), true)
					}
				}
				if key == nil {
					c.Anchor(name + ": the key")
					continue
				}
				var vlen *Term
				if val != nil {
					vlen = w.lenOf(st, val, val.T)
				}
				m.watch(w, key, cs, view, func(st *State, rc *Term) bool {
					if cs.obj == "dead" {
						st.assume(tEq(rc, tInt(0)), true)
					} else {
						st.assume(tLe0(tSub(tInt(1), rc)), true)
					}
					if inc != nil {
						switch cs.inc {
						case "down":
							st.assume(tLe0(tSub(tInt(1), tAdd(rc, inc))), true)
						case "under":
							st.assume(tLe0(tAdd(rc, inc)), true)
						}
					}
					return true
				})
				var zero [4]*Term
				for i, a := range m.stats {
					zero[i] = w.load(st, a, deref(a.T))
				}
				exits := w.Run(f, args, nil, st)
				success := 0
				for _, x := range exits {
					pos := c.at(x.Instr)
					ws, txs := m.writes(w, x)
					failed := false
					for _, t := range txs {
						failed = failed || !strings.HasSuffix(t, "/commit")
					}
					var d [4]*Term
					for i, a := range m.stats {
						d[i] = tSub(w.load(x.St, a, deref(a.T)), zero[i])
					}
					allZero := d[0] == tInt(0) && d[1] == tInt(0) && d[2] == tInt(0) && d[3] == tInt(0)
					if x.Panic {
						refused := meth == "Set" && cs.inc != "up"
						expect("rc", refused, "refuse", name, pos, "%s panics", name)
						expect("rc", len(ws) == 0, "refuse", name, pos, "%s writes before it panics", name)
						continue
					}
					if meth == "Set" && cs.inc != "up" {
						expect("rc", false, "refuse", name, pos, "%s accepts a change of the count that is not positive", name)
						continue
					}
					rets := x.Rets
					err := rets[len(rets)-1]
					ok := x.St.IsNil(err) == yes
					if !ok && x.St.IsNil(err) == unknown {
						expect("rc", false, "failure", name, pos, "%s: it is not decided whether the exit reports an error (%s)", name, err)
						continue
					}
					if meth == "Set" && x.St.Truth(tEq(vlen, tInt(0))) == yes {
						expect("rc", err.Op == "sentinel" && strings.HasSuffix(err.Aux, "ErrEmptyValue") && len(ws) == 0, "refuse", tn+".Set of nothing", pos, "%s.Set of an empty value returns %s and writes %d objects", tn, err, len(ws))
						expect("stat", allZero, "stat", tn+".Set of nothing", pos, "%s.Set of an empty value changes the statistics", tn)
						continue
					}
					if meth == "Set" && ok {
						expect("rc", x.St.Truth(tEq(vlen, tInt(0))) == no, "refuse", tn+".Set of nothing", pos, "%s.Set accepts an empty value", tn)
					}
					if !ok {
						notFound := err == errNF || err.Op == "sentinel" && err.Aux == errNF.Aux
						if notFound {
							expect("rc", cs.obj == "absent" && (meth == "Get" || meth == "Inc"), "missing", name, pos, "%s reports ErrNotFound", name)
							expect("rc", len(ws) == 0, "missing", name, pos, "%s writes although nothing is found", name)
							expect("stat", allZero, "stat", name, pos, "%s changes the statistics although nothing is found", name)
							success++
							continue
						}
						fromDB := err.Op == "dberr" || err.any(func(t *Term) bool { return t.Op == "call" && strings.Contains(t.Aux, "bolt.") })
						expect("rc", fromDB, "failure", name, pos, "%s returns the error %s that no failure of the database caused", name, err)
						expect("stat", allZero, "stat-failed", name, pos, "%s changes the statistics although it fails (%s): amounts %s, %s, volumes %s, %s", name, strings.Join(txs, " "), d[0], d[1], d[2], d[3])
						continue
					}
					success++
					for _, o := range ws {
						if o.res != nil {
							expect("rc", x.St.IsNil(o.res) == yes, "failure", name, pos, "%s succeeds although a write to the database may have failed (%s)", name, c.at(o.ev.Instr))
							expect("rc", strings.HasPrefix(o.inTx, "Update/") || strings.HasPrefix(o.inTx, "Batch/"), "failure", name, c.at(o.ev.Instr), "%s writes in a read-only transaction", name)
						}
						expect("rc", o.key == key, "value", name, c.at(o.ev.Instr), "%s writes under the key %s", name, o.key)
					}
					expect("rc", !failed, "failure", name, pos, "%s reports success although the transaction failed (%s)", name, strings.Join(txs, " "))
					// what is expected
					absent := cs.obj == "absent"
					if absent && (meth == "Get" || meth == "Inc") {
						expect("rc", false, "missing", name, pos, "%s does not report ErrNotFound", name)
						continue
					}
					if meth == "Del" {
						if absent {
							expect("rc", true, "missing", name, pos, "")
						} else {
							n := 0
							for _, o := range ws {
								if o.del {
									n++
								}
							}
							expect("rc", n == 1 && len(ws) == 1, "delete", name, pos, "%s deletes %d objects and writes %d", name, n, len(ws)-n)
						}
					}
					var nrc *Term
					rc0, val0, v0len := view.rc, view.val, view.vlen
					if absent {
						rc0, val0, v0len = tInt(0), val, vlen
					} else if !view.known {
						expect("rc", false, "missing", name, pos, "%s does not look the object up", name)
						continue
					}
					if meth != "Del" {
						switch cs.inc {
						case "zero":
							nrc = rc0
						case "under":
							nrc = tInt(0)
						default:
							nrc = tAdd(rc0, inc)
						}
						// returned count
						rrc := rets[len(rets)-2]
						expect("rc", x.St.Eq(rrc, nrc), "count", name+": returned", pos, "%s returns the count %s instead of %s", name, rrc, nrc)
						same := cs.inc == "zero" || cs.obj == "dead" && cs.inc == "under"
						if cs.inc == "zero" {
							expect("rc", len(ws) == 0, "readonly", name, pos, "%s writes %d objects", name, len(ws))
						} else if !(same && len(ws) == 0) {
							if len(ws) != 1 || ws[0].del {
								expect("rc", false, "count", name+": stored", pos, "%s makes %d writes to the store", name, len(ws))
							} else {
								o := ws[0]
								if o.rc == nil || o.val == nil {
									expect("rc", false, "count", name+": stored", c.at(o.ev.Instr), "%s stores %s, which is not a count followed by a value", name, o.whole)
								} else {
									expect("rc", x.St.Eq(o.rc, nrc), "count", name+": stored", c.at(o.ev.Instr), "%s stores the count %s instead of %s", name, o.rc, nrc)
									sv := w.copyOf(x.St, o.val)
									vok := sv == val0 || meth == "Set" && sv == val
									expect("rc", vok, "value", name+": stored", c.at(o.ev.Instr), "%s stores the value %s instead of %s", name, sv, val0)
									if val != nil && o.inTx == "memory" && sv == val {
										expect("rc", o.val != val, "value", name+": own copy", c.at(o.ev.Instr), "%s keeps the slice of the caller instead of a copy", name)
									}
								}
							}
						}
						if meth == "Get" {
							rv := rets[0]
							cv := w.copyOf(x.St, rv)
							expect("rc", cv == val0, "value", name+": returned", pos, "%s returns the value %s instead of %s", name, cv, val0)
							expect("rc", rv != val0 && rv.Op != "slice", "value", name+": returned copy", pos, "%s returns the stored slice itself, not a copy: it is shared with other callers or dies with the transaction", name)
						}
					}
					// statistics
					var want [4]*Term
					z := tInt(0)
					want = [4]*Term{z, z, z, z}
					switch {
					case meth == "Del" && !absent:
						want[0], want[2] = tInt(-1), tScale(v0len, -1)
						if cs.obj == "used" {
							want[1], want[3] = tInt(-1), tScale(v0len, -1)
						}
					case meth == "Del":
					case absent:
						want = [4]*Term{tInt(1), tInt(1), v0len, v0len}
					case cs.obj == "dead" && cs.inc == "up":
						want[1], want[3] = tInt(1), v0len
					case cs.obj == "used" && cs.inc == "under":
						want[1], want[3] = tInt(-1), tScale(v0len, -1)
					}
					for i, nm := range statNames {
						alt := want[i]
						if meth == "Set" && !absent && i >= 2 && want[i] != z {
							alt = vlen // the same object has the same size
						}
						expect("stat", x.St.Eq(d[i], want[i]) || x.St.Eq(d[i], alt), "stat", name+": "+nm, pos, "%s changes the %s by %s instead of %s", name, nm, d[i], want[i])
					}
				}
				if !(meth == "Set" && cs.inc != "up") {
					expect("rc", success > 0, "missing", name+": exits", c.P.pos(f.Pos()), "%s has no exit that succeeds", name)
				}
				c.Done(w)
			}
		}
		if len(m.bucket) > 1 {
			var bs []string
			for b := range m.bucket {
				bs = append(bs, b.String())
			}
			sort.Strings(bs)
			expect("rc", false, "value", tn+": bucket", c.P.pos(n.Obj().Pos()), "%s keeps objects in several buckets: %s", tn, strings.Join(bs, ", "))
		}
	}
}

var statNames = [4]string{"amount of all", "amount of used", "volume of all", "volume of used"}

// roles finds the counters from what Amount and Volume return
func (m *cxdsImpl) roles(report bool) bool {
	c := m.c
	ok := true
	seen := map[*Term]bool{}
	for k, meth := range []string{"Amount", "Volume"} {
		f := c.P.methodOf(m.n, meth)
		if f == nil {
			c.Anchor(m.n.Obj().Name() + "." + meth)
			return false
		}
		w := c.P.NewWalker()
		xs := w.Run(f, []*Term{m.self}, nil, nil)
		c.Done(w)
		for _, x := range xs {
			for i := 0; i < 2 && !x.Panic; i++ {
				r := x.Rets[i]
				good := r.Op == "load" && r.Args[0].Op == "field" && rootTerm(r.Args[0]) == m.self
				if good && m.stats[2*k+i] != nil && m.stats[2*k+i] != r.Args[0] {
					good = false
				}
				if good {
					m.stats[2*k+i] = r.Args[0]
				}
				ok = ok && good
				if report {
					c.Expect(good, "stat-read", m.n.Obj().Name()+"."+statNames[2*k+i], c.at(x.Instr), "%s does not return a counter kept with the store but %s", meth, r)
				}
			}
		}
	}
	for i, a := range m.stats {
		if a == nil {
			return false
		}
		if seen[a] {
			ok = false
			if report {
				c.Bad("stat-read", m.n.Obj().Name()+"."+statNames[i], c.P.pos(m.n.Obj().Pos()), "two statistics are read from the same counter %s", a)
			}
		}
		seen[a] = true
	}
	if !ok && !report {
		c.Bad("undecided", m.n.Obj().Name()+" counters", c.P.pos(m.n.Obj().Pos()), "the counters behind Amount and Volume are not found")
	}
	return ok
}

func isObjMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isHashT(m.Key())
}

func strip(t *Term) *Term {
	for t.Op == "copied" || t.Op == "bytesof" {
		t = t.Args[0]
	}
	return t
}

func checkD03(c *Ctx) {
	c.Rule("order", "every object is visited once, each after the one before, and only while there are objects", 4)
	c.Rule("arguments", "the callback gets the key, the count and the value of the object visited", 4)
	c.Rule("result", "ErrStopIteration ends the iteration without an error, any other error of the callback ends it and is returned", 4)
	c.Rule("delete", "an object is deleted exactly when the callback asks for it without an error", 2)
	c.Rule("stat", "deleting in an iteration takes the deleted objects, and nothing else, out of the statistics; nothing if the transaction fails", 2)
	it := c.P.iface("data", "CXDS")
	if it == nil {
		c.Anchor("data.CXDS")
		return
	}
	for _, n := range c.P.implementers("data/cxds", it) {
		m := &cxdsImpl{c: c, n: n, bucket: map[*Term]bool{}}
		m.self = mk("param", "store", types.NewPointer(n))
		if !m.roles(false) {
			continue
		}
		tn := n.Obj().Name()
		for _, meth := range []string{"Iterate", "IterateDel"} {
			f := c.P.methodOf(n, meth)
			if f == nil {
				c.Anchor(tn + "." + meth)
				continue
			}
			name := tn + "." + meth
			args := []*Term{m.self, mk("param", "callback", f.Params[1].Type())}
			rcval := func(w *Walker, v *Term) (rc, val, ln *Term) {
				if v == nil || v.T == nil {
					return
				}
				if _, ok := v.T.Underlying().(*types.Struct); ok {
					rc, val = rcValOf(w, v.T, v)
					if val != nil {
						ln = w.lenOf(newState(), val, val.T)
					}
					return
				}
				return mk("endian", "be4/", types.Typ[types.Uint32], v, tInt(0)), mk("slice", "", nil, v, tInt(4), tNone), tSub(w.lenOf(newState(), v, v.T), tInt(4))
			}
			spec := iterSpec{fn: f, args: args, name: name, del: meth == "IterateDel", seek: meth == "IterateDel", isMap: isObjMap,
				checkRec: func(w *Walker, st *State, k, v *Term, a []*Term, _ []*Event) string {
					rc, val, _ := rcval(w, v)
					switch {
					case len(a) != 3:
						return "the callback is not called with a key, a count and a value"
					case strip(a[0]) != k:
						return fmt.Sprintf("the key given to the callback is %s, not that of the object", a[0])
					case a[1] != rc:
						return fmt.Sprintf("the count given to the callback is %s, not that of the object", a[1])
					case a[2] != val && w.copyOf(st, a[2]) != val:
						return fmt.Sprintf("the value given to the callback is %s, not that of the object", a[2])
					}
					return ""
				},
				onExit: func(w *Walker, x *Exit, deleted []iterRec, failed bool) {
					st0 := newState()
					var want [4]*Term
					for i := range want {
						want[i] = tInt(0)
					}
					if !failed {
						for _, r := range deleted {
							rc, _, ln := rcval(w, r.v)
							if rc == nil {
								continue
							}
							want[0] = tSub(want[0], tInt(1))
							want[2] = tSub(want[2], ln)
							switch x.St.Truth(tEq(rc, tInt(0))) {
							case no:
								want[1] = tSub(want[1], tInt(1))
								want[3] = tSub(want[3], ln)
							case unknown:
								c.Bad("stat", name+": used", c.at(x.Instr), "%s deletes an object without regard to whether it was in use", name)
							}
						}
					}
					for i, a := range m.stats {
						d := tSub(w.load(x.St, a, deref(a.T)), w.load(st0, a, deref(a.T)))
						c.Expect(x.St.Eq(d, want[i]), "stat", name+": "+statNames[i], c.at(x.Instr), "%s changes the %s by %s instead of %s", name, statNames[i], d, want[i])
					}
				}}
			iterRule(c, "order", "arguments", "result", "delete", spec)
		}
	}
}

func init() {
	register("D03", "iteration over objects",
		"Exact enumeration of the paths of Iterate and IterateDel over up to two records (the loop body is the same for every record): each step of the iteration, the arguments of each callback, the deletions and the result are compared with the outcome of the callbacks on the path; the function that computes the key to go on with is proved to give the lexicographic successor by exact unrolling.", checkD03)
}
