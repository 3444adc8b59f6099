package main

// Opening and closing of the databases: version of the file, cleaning up
// after a failure, statistics kept over closing, validation of records.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("D04", "opening and closing of the databases",
		"Every exit of the constructors of both on-disk databases is enumerated with the state of the file (missing, without meta information, without or with another version, current) as branch facts: the error, what is written and what is cleaned up are compared with the specification; the keys under which the statistics are saved and loaded are paired over the two functions; closing is enumerated likewise.", checkD04)
	register("D05", "validation of index records and the pair of databases",
		"Every exit of the validation of an index record is enumerated and compared with the conditions a record has to meet, as decided by the branch facts on the path; the exits of the pair of databases (NewDB, Close) are enumerated likewise.", checkD05)
}

const boltTx = "(*github.com/boltdb/bolt.Tx)."
const boltDB = "(*github.com/boltdb/bolt.DB)."

// stringBytes: the constant behind a global variable holding bytes
func (p *Prog) globalBytes(t *Term) string {
	if t == nil || t.Op != "load" && t.Op != "global" {
		return ""
	}
	if t.Op == "load" {
		t = t.Args[0]
	}
	for _, pk := range p.SSA.AllPackages() {
		for _, m := range pk.Members {
			g, ok := m.(*ssa.Global)
			if !ok || g.String() != t.Aux {
				continue
			}
			for _, b := range pk.Func("init").Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && st.Addr == g {
						if cv, ok := st.Val.(*ssa.Convert); ok {
							if k, ok := cv.X.(*ssa.Const); ok {
								return constTerm(k).Aux
							}
						}
					}
				}
			}
		}
	}
	return ""
}

// byteConst: a key as a constant string
func (p *Prog) byteConst(t *Term) string {
	if t == nil {
		return ""
	}
	if t.Op == "conv" && len(t.Args) == 1 && t.Args[0].Op == "str" {
		return t.Args[0].Aux
	}
	if s := p.globalBytes(t); s != "" {
		return s
	}
	return t.String()
}

func checkD04(c *Ctx) {
	c.Rule("version", "a file of another or unknown version is refused by its own error and left alone; a new file gets the current version", 8)
	c.Rule("cleanup", "a failed opening gives no database and closes the file; only a file made by this call is removed", 4)
	c.Rule("statistics", "the statistics are loaded from where they were saved, each into the counter it was saved from, without loss", 8)
	c.Rule("closing", "closing saves the statistics, closes the file whatever happens and reports failures", 2)
	for _, k := range []struct{ rel, fn, iface string }{{"data/cxds", "NewDriveCXDS", "CXDS"}, {"data/idxdb", "NewDriveIdxDB", "IdxDB"}} {
		f := c.P.Func(k.rel, k.fn)
		if f == nil {
			c.Anchor(k.rel + "." + k.fn)
			continue
		}
		vers := int64(-1)
		if v := c.P.Types[k.rel].Scope().Lookup("Version"); v != nil {
			if cn, ok := v.(*types.Const); ok {
				fmt.Sscan(cn.Val().ExactString(), &vers)
			}
		}
		if vers < 0 {
			c.Anchor(k.rel + ".Version")
			continue
		}
		openRule(c, f, k.rel, k.fn, vers)
	}
	statPersistence(c)
}

func openRule(c *Ctx, f *ssa.Function, rel, name string, vers int64) {
	w := c.P.NewWalker()
	w.MaxStates = 2000
	file := mk("param", "file", f.Params[0].Type())
	w.Opaque = func(g *ssa.Function) bool { // statistics are decided apart
		return g != f && g.Parent() != f && usesCounters(c.P, g)
	}
	interesting := func(n string) bool {
		return strings.HasPrefix(n, "github.com/boltdb/bolt.") || strings.HasPrefix(n, boltTx) || strings.HasPrefix(n, boltBucket) || strings.HasPrefix(n, boltDB) ||
			n == "os.Remove" || n == "os.RemoveAll" || n == "os.Stat" || n == "os.IsNotExist"
	}
	w.OnEvent = func(st *State, ev *Event) bool {
		return ev.Kind == "begin" || ev.Kind == "end" || ev.Kind == "call" && (interesting(ev.Name) || ev.Static != nil && c.P.isRepo(ev.Static))
	}
	sent := func(n string) *Term { return mk("sentinel", modPath+"/"+rel+"."+n, nil) }
	seen := map[string]bool{}
	hasStats := false // the database keeps statistics
	for g := range c.P.Reach(f) {
		hasStats = hasStats || usesCounters(c.P, g)
	}
	for _, x := range w.Run(f, []*Term{file}, nil, nil) {
		at := c.at(x.Instr)
		if x.Panic {
			c.Bad("cleanup", name+": panic", at, "%s panics", name)
			continue
		}
		ret, er := x.Rets[0], x.Rets[1]
		var open, meta, version, end *Event
		var created *Term
		closed, removed, put, saves, loads := false, false, 0, 0, 0
		var putVers *Event
		inTx := false
		var txErrs []*Term
		for _, ev := range x.St.Events() {
			switch {
			case ev.Kind == "begin":
				inTx = ev.Name == "Update"
			case ev.Kind == "end":
				inTx = false
				end = ev
			case ev.Name == "os.IsNotExist":
				if a := ev.Args[0]; a.Op == "call" && strings.Contains(a.Aux, "os.Stat#1") && a.Args[0] == file {
					created = ev.Res
				}
			case ev.Name == "github.com/boltdb/bolt.Open":
				open = ev
				c.Expect(ev.Args[0] == file, "version", name+": file", c.at(ev.Instr), "%s opens another file", name)
				if created == nil {
					c.Bad("version", name+": new file", c.at(ev.Instr), "%s does not look whether the file is there before it opens it", name)
				}
			case ev.Name == boltTx+"Bucket" && meta == nil:
				meta = ev
			case ev.Name == boltBucket+"Get" && version == nil:
				version = ev
			case ev.Name == boltBucket+"Put":
				put++
				if putVers == nil {
					putVers = ev
				}
				c.Expect(inTx, "version", name+": transaction", c.at(ev.Instr), "%s writes outside of a writing transaction", name)
				txErrs = append(txErrs, ev.Res)
			case strings.HasPrefix(ev.Name, boltTx+"CreateBucket"):
				txErrs = append(txErrs, errOf(ev.Res))
			case ev.Name == boltDB+"Close":
				closed = true
			case ev.Name == "os.Remove" || ev.Name == "os.RemoveAll":
				removed = true
				c.Expect(ev.Args[0] == file && created != nil && x.St.Truth(created) == yes, "cleanup", name+": removal", c.at(ev.Instr), "%s removes a file it has not made", name)
			case ev.Static != nil && usesCounters(c.P, ev.Static):
				if callsIn(ev.Static, boltBucket+"Put") {
					saves++
				} else {
					loads++
				}
				txErrs = append(txErrs, errOf(ev.Res))
			}
		}
		if open == nil {
			c.Bad("version", name+": open", at, "%s returns without opening the file", name)
			continue
		}
		opened := x.St.IsNil(errOf(open.Res)) == yes
		if !opened {
			c.Expect(x.St.IsNil(er) == no && x.St.IsNil(ret) == yes, "cleanup", name+": open", at, "%s returns (%s, %s) when the file cannot be opened", name, ret, er)
			seen["noopen"] = true
			continue
		}
		failed := x.St.IsNil(er) != yes
		if failed {
			c.Expect(closed && x.St.IsNil(ret) == yes, "cleanup", name+": failure", at, "%s returns (%s, %s) and leaves the file open", name, ret, er)
			seen["failed"] = true
		} else {
			c.Expect(!closed && !removed && x.St.IsNil(ret) == no, "cleanup", name+": success", at, "%s succeeds with a closed file", name)
			for _, e := range txErrs {
				c.Expect(x.St.IsNil(e) == yes, "cleanup", name+": errors", at, "%s succeeds although %s may have failed", name, e)
			}
			c.Expect(end != nil && end.Tag == "commit", "cleanup", name+": transaction", at, "%s succeeds although the transaction did not commit", name)
		}
		if end == nil || end.Tag == "nostart" || meta == nil {
			c.Expect(failed, "version", name+": check", at, "%s succeeds without looking at the version of the file", name)
			continue
		}
		if x.St.IsNil(meta.Res) == yes { // no meta information
			isNew := unknown
			if created != nil {
				isNew = x.St.Truth(created)
			}
			switch isNew {
			case yes:
				if !failed {
					ok := putVers != nil && isVersion(putVers.Args[2], vers) && c.P.byteConst(putVers.Args[1]) == "version"
					c.Expect(ok, "version", name+": new file", at, "%s does not write the version into a new file", name)
					c.Expect(loads == 0 && (saves == 1 || !hasStats), "statistics", name+": new file", at, "%s saves the statistics of a new file %d times and loads them %d times", name, saves, loads)
					seen["new"] = true
				}
			case no:
				c.Expect(er == sent("ErrMissingMetaInfo") && put == 0, "version", name+": no meta information", at, "%s returns %s for a file without meta information", name, er)
				seen["nometa"] = true
			default:
				c.Bad("version", name+": no meta information", at, "%s does not tell a new file from one without meta information", name)
			}
			continue
		}
		if version == nil || c.P.byteConst(version.Args[1]) != "version" || version.Args[0] != meta.Res {
			c.Bad("version", name+": check", at, "%s does not read the version of an existing file", name)
			continue
		}
		ln := w.lenOf(newState(), version.Res, version.Res.T)
		if x.St.Truth(tEq(ln, tInt(0))) == yes || x.St.IsNil(version.Res) == yes {
			c.Expect(er == sent("ErrMissingVersion") && put == 0, "version", name+": missing version", at, "%s returns %s for a file without version", name, er)
			seen["noversion"] = true
			continue
		}
		v := mk("endian", "be4/", types.Typ[types.Uint32], version.Res, tInt(0))
		switch {
		case x.St.Eq(v, tInt(vers)):
			c.Expect(!(er.Op == "sentinel"), "version", name+": current version", at, "%s returns %s for a file of the current version", name, er)
			c.Expect(put == 0 || putVers.Args[1] != version.Args[1], "version", name+": kept", at, "%s changes the version of a file", name)
			c.Expect(x.St.Truth(tEq(ln, tInt(0))) == no, "version", name+": length", at, "%s reads a version that may not be there", name)
			if !failed {
				c.Expect(saves == 0 && (loads == 1 || !hasStats), "statistics", name+": existing file", at, "%s saves the statistics of an existing file %d times and loads them %d times", name, saves, loads)
				seen["current"] = true
			}
		case x.St.Truth(tLt(v, tInt(vers), false)) == yes:
			c.Expect(er == sent("ErrOldVersion") && put == 0, "version", name+": old version", at, "%s returns %s for a file of an old version", name, er)
			seen["old"] = true
		case x.St.Truth(tLt(tInt(vers), v, false)) == yes:
			c.Expect(er == sent("ErrNewVersion") && put == 0, "version", name+": new version", at, "%s returns %s for a file of a newer version", name, er)
			seen["newer"] = true
		default:
			c.Expect(failed, "version", name+": check", at, "%s succeeds without having compared the version of the file", name)
		}
	}
	for _, k := range []string{"noopen", "failed", "new", "nometa", "noversion", "current", "old", "newer"} {
		c.Expect(seen[k], "version", name+": case "+k, c.P.pos(f.Pos()), "%s has no way out for the case %q", name, k)
	}
	c.Done(w)
}

// isVersion: four big-endian bytes of a number
func isVersion(t *Term, v int64) bool {
	if t == nil || t.Op != "snap" || len(t.Args) != 4 {
		return false
	}
	for i, b := range t.Args {
		if b.Op != "byte" || b.Aux != fmt.Sprintf("be4.%d", i) || b.Args[0] != tInt(v) {
			return false
		}
	}
	return true
}

// usesCounters: a method of the store on disk that saves or loads its statistics
func usesCounters(p *Prog, g *ssa.Function) bool {
	if g.Signature.Recv() == nil || len(g.Blocks) == 0 {
		return false
	}
	st, ok := deref(g.Signature.Recv().Type()).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	ints := 0
	for i := 0; i < st.NumFields(); i++ {
		if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
			ints++
		}
	}
	if ints < 4 {
		return false
	}
	return callsIn(g, boltBucket+"Get") || callsIn(g, boltBucket+"Put")
}

// callsIn: a function, or a closure it makes, calls the named function
func callsIn(g *ssa.Function, name string) bool {
	found := false
	var rec func(h *ssa.Function)
	rec = func(h *ssa.Function) {
		for _, b := range h.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case ssa.CallInstruction:
					if s := in.Common().StaticCallee(); s != nil && s.String() == name {
						found = true
					}
				case *ssa.MakeClosure:
					rec(in.Fn.(*ssa.Function))
				}
			}
		}
	}
	rec(g)
	return found
}

// statPersistence pairs what the on-disk store saves on closing with what it
// loads on opening
func statPersistence(c *Ctx) {
	it := c.P.iface("data", "CXDS")
	if it == nil {
		c.Anchor("data.CXDS")
		return
	}
	for _, n := range c.P.implementers("data/cxds", it) {
		m := &cxdsImpl{c: c, n: n, bucket: map[*Term]bool{}}
		m.self = mk("param", "store", types.NewPointer(n))
		disk := false
		s := n.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			disk = disk || tstr(s.Field(i).Type()) == "*github.com/boltdb/bolt.DB"
		}
		if !disk || !m.roles(false) {
			continue
		}
		cl := c.P.methodOf(n, "Close")
		if cl == nil {
			c.Anchor(n.Obj().Name() + ".Close")
			continue
		}
		name := n.Obj().Name() + ".Close"
		saved := map[*Term]string{} // counter -> key
		w := c.P.NewWalker()
		w.MaxStates = 2000
		w.KeepTrunc = true
		w.OnEvent = func(st *State, ev *Event) bool {
			return ev.Kind == "begin" || ev.Kind == "end" || ev.Kind == "call" && (strings.HasPrefix(ev.Name, boltBucket) || strings.HasPrefix(ev.Name, boltDB))
		}
		roles := map[*Term]int{}
		for i, a := range m.stats {
			roles[w.load(newState(), a, deref(a.T))] = i
		}
		for _, x := range w.Run(cl, []*Term{m.self}, nil, nil) {
			at := c.at(x.Instr)
			if x.Panic {
				c.Bad("closing", name+": panic", at, "%s panics", name)
				continue
			}
			closed := (*Event)(nil)
			var end *Event
			done := map[int]bool{}
			for _, ev := range x.St.Events() {
				switch {
				case ev.Kind == "end":
					end = ev
				case ev.Name == boltDB+"Close":
					closed = ev
				case ev.Name == boltBucket+"Put":
					i, ok := -1, false
					if t := ev.Args[2]; t.Op == "snap" && len(t.Args) == 8 && beKey(t, t.Args[0].Args[0]) {
						i, ok = roles[t.Args[0].Args[0]]
						if ok {
							saved[m.stats[i]] = c.P.byteConst(ev.Args[1])
							done[i] = true
						}
					}
					c.Expect(ok, "statistics", name+": "+c.P.byteConst(ev.Args[1]), c.at(ev.Instr), "%s saves %s under %s: not a counter in full", name, ev.Args[2], c.P.byteConst(ev.Args[1]))
				}
			}
			c.Expect(closed != nil, "closing", name, at, "%s does not close the file", name)
			if end == nil {
				c.Bad("closing", name+": statistics", at, "%s does not save the statistics", name)
				continue
			}
			if end.Tag == "commit" {
				c.Expect(len(done) == 4, "closing", name+": all statistics", at, "%s saves %d of 4 statistics", name, len(done))
			}
			if closed != nil {
				er := x.Rets[0]
				okSave := end.Tag == "commit"
				okClose := x.St.IsNil(closed.Res)
				switch {
				case okSave:
					c.Expect(er == closed.Res || okClose == yes && x.St.IsNil(er) == yes, "closing", name+": result", at, "%s returns %s instead of the outcome of closing", name, er)
				default: // a database that is closed already may be closed again
					again := false
					for t, v := range x.St.facts.b {
						if v && t.Op == "eq" && (t.Args[0].Aux == "github.com/boltdb/bolt.ErrDatabaseNotOpen" || t.Args[1].Aux == "github.com/boltdb/bolt.ErrDatabaseNotOpen") {
							again = true
						}
					}
					c.Expect(again || x.St.IsNil(er) == no, "closing", name+": failure", at, "%s returns %s although the statistics were not saved", name, er)
				}
			}
		}
		c.Done(w)
		keys := map[string]bool{}
		for i, a := range m.stats {
			k := saved[a]
			c.Expect(k != "" && !keys[k], "statistics", n.Obj().Name()+": "+statNames[i]+" saved", c.P.pos(cl.Pos()), "the %s has no place of its own among the saved statistics (%q)", statNames[i], k)
			keys[k] = true
		}
		// loading: the method called by the constructor that reads the keys
		var loads []*ssa.Function
		for _, g := range c.P.Funcs {
			if g.Signature.Recv() != nil && types.Identical(deref(g.Signature.Recv().Type()), n) && usesCounters(c.P, g) && storesTo(g, m.stats) {
				has := false
				for h := range c.P.Reach(g) {
					for _, b := range h.Blocks {
						for _, in := range b.Instrs {
							if ci, ok := in.(ssa.CallInstruction); ok {
								if s := ci.Common().StaticCallee(); s != nil && s.String() == boltBucket+"Put" {
									has = true
								}
							}
						}
					}
				}
				if !has {
					loads = append(loads, g)
				}
			}
		}
		sort.Slice(loads, func(i, j int) bool { return fname(loads[i]) < fname(loads[j]) })
		ctor := c.P.Func("data/cxds", "NewDriveCXDS")
		okLoad := false
		for _, g := range loads {
			if ctor == nil || !c.P.Reach(ctor)[g] || len(g.Params) != 1 {
				continue
			}
			okLoad = true
			lname := fname(g)
			w := c.P.NewWalker()
			w.MaxStates = 4000
			w.OnEvent = func(st *State, ev *Event) bool {
				return ev.Kind == "begin" || ev.Kind == "end" || ev.Kind == "call" && strings.HasPrefix(ev.Name, boltBucket)
			}
			succ := 0
			for _, x := range w.Run(g, []*Term{m.self}, nil, nil) {
				if x.Panic || len(x.Rets) == 0 || x.St.IsNil(x.Rets[len(x.Rets)-1]) != yes {
					continue
				}
				succ++
				at := c.at(x.Instr)
				got := map[string]*Term{}
				for _, ev := range x.St.Events() {
					if ev.Name == boltBucket+"Get" {
						got[c.P.byteConst(ev.Args[1])] = ev.Res
					}
				}
				for i, a := range m.stats {
					v := w.load(x.St, a, deref(a.T))
					src := got[saved[a]]
					ok := src != nil && v.Op == "endian" && v.Args[0] == src && v.Args[1] == tInt(0)
					if ok {
						ln := w.lenOf(newState(), src, src.T)
						switch {
						case strings.HasPrefix(v.Aux, "be8/"):
							ok = x.St.Truth(tLt(ln, tInt(8), false)) == no
						case strings.HasPrefix(v.Aux, "be4/"):
							ok = x.St.Eq(ln, tInt(4))
						default:
							ok = false
						}
					}
					c.Expect(ok, "statistics", lname+": "+statNames[i], at, "%s loads %s as the %s, which is saved under %s", lname, v, statNames[i], saved[a])
				}
			}
			c.Expect(succ > 0, "statistics", lname, c.P.pos(g.Pos()), "%s never succeeds", lname)
			c.Done(w)
		}
		c.Expect(okLoad, "statistics", n.Obj().Name()+": loading", c.P.pos(cl.Pos()), "opening does not load the statistics")
	}
}

// storesTo: a method, or a closure of it, stores to one of the counters
func storesTo(g *ssa.Function, stats [4]*Term) bool {
	want := map[string]bool{}
	for _, a := range stats {
		want[a.Aux] = true
	}
	found := false
	var rec func(h *ssa.Function)
	rec = func(h *ssa.Function) {
		for _, b := range h.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok && want[fieldName(fa)] {
						found = true
					}
				case *ssa.MakeClosure:
					rec(in.Fn.(*ssa.Function))
				}
			}
		}
	}
	rec(g)
	return found
}

func fieldName(fa *ssa.FieldAddr) string {
	if s, ok := deref(fa.X.Type()).Underlying().(*types.Struct); ok {
		return s.Field(fa.Field).Name()
	}
	return ""
}

func checkD05(c *Ctx) {
	c.Rule("validate", "a record is valid exactly when it has a hash, a signature and a time, and a hash of the previous Root object exactly when its seq is not zero", 10)
	c.Rule("pair", "the pair of databases is made of both databases given, refuses a missing one by a panic, and closing it closes both and reports a failure of either", 6)
	rt := c.P.Named("data", "Root")
	f := c.P.Method("data", "Root", "Validate")
	if rt == nil || f == nil {
		c.Anchor("data.Root.Validate")
		return
	}
	s := rt.Underlying().(*types.Struct)
	r := mk("param", "root", types.NewPointer(rt))
	w := c.P.NewWalker()
	w.Split = true
	fld := func(n string) *Term {
		i, t := fieldIndex(rt, n)
		if i < 0 {
			c.Anchor("data.Root." + n)
			return tNone
		}
		_ = s
		return w.load(newState(), w.fieldAddr(r, rt, i), t)
	}
	empty := func(n string) *Term {
		t := fld(n)
		return tEq(t, zeroTerm(t.T))
	}
	seq0 := empty("Seq")
	must := map[string]*Term{"Hash": empty("Hash"), "Sig": empty("Sig"), "Time": empty("Time")}
	noPrev := empty("Prev")
	reasons := map[string]bool{}
	for _, x := range w.Run(f, []*Term{r}, nil, nil) {
		at := c.at(x.Instr)
		if x.Panic {
			c.Bad("validate", "panic", at, "Validate panics")
			continue
		}
		switch x.St.IsNil(x.Rets[0]) {
		case yes:
			for k, e := range must {
				c.Expect(x.St.Truth(e) == no, "validate", "accepts "+k, at, "Validate accepts a record whose %s may be empty", k)
			}
			ok := x.St.Truth(seq0) == yes && x.St.Truth(noPrev) == yes || x.St.Truth(seq0) == no && x.St.Truth(noPrev) == no
			c.Expect(ok, "validate", "accepts Prev", at, "Validate accepts a record whose Prev does not fit its seq")
			reasons["ok "+x.St.facts.atom(seq0)] = true
		case no:
			why := false
			for k, e := range must {
				if x.St.Truth(e) == yes {
					why = true
					reasons[k] = true
				}
			}
			if x.St.Truth(seq0) == yes && x.St.Truth(noPrev) == no || x.St.Truth(seq0) == no && x.St.Truth(noPrev) == yes {
				why = true
				reasons["Prev"] = true
			}
			c.Expect(why, "validate", "refuses at "+fmt.Sprint(len(reasons)), at, "Validate refuses a record that may be valid")
		default:
			c.Bad("validate", "undecided", at, "Validate returns %s", x.Rets[0])
		}
	}
	for _, k := range []string{"Hash", "Sig", "Time", "Prev"} {
		c.Expect(reasons[k], "validate", "refuses "+k, c.P.pos(f.Pos()), "Validate does not refuse a record for its %s", k)
	}
	c.Done(w)
	// the pair
	db := c.P.Named("data", "DB")
	nf, cf := c.P.Func("data", "NewDB"), c.P.Method("data", "DB", "Close")
	if db == nil || nf == nil || cf == nil {
		c.Anchor("data.DB, NewDB, Close")
		return
	}
	ds := db.Underlying().(*types.Struct)
	byType := map[string]int{}
	for i := 0; i < ds.NumFields(); i++ {
		byType[typeName(ds.Field(i).Type())] = i
	}
	for _, k := range []string{"CXDS", "IdxDB"} {
		if _, ok := byType[k]; !ok {
			c.Anchor("data.DB: field of type " + k)
			return
		}
	}
	w = c.P.NewWalker()
	w.Split = true
	a := []*Term{mk("param", "cxds", nf.Params[0].Type()), mk("param", "idxdb", nf.Params[1].Type())}
	for _, x := range w.Run(nf, a, nil, nil) {
		at := c.at(x.Instr)
		some := false
		for i, p := range a {
			if x.St.IsNil(p) == yes {
				some = true
			}
			if !x.Panic {
				c.Expect(x.St.IsNil(p) == no, "pair", "NewDB refuses "+fmt.Sprint(i), at, "NewDB accepts a missing database")
				v := w.load(x.St, w.fieldAddr(x.Rets[0], db, byType[typeName(p.T)]), p.T)
				c.Expect(v == p, "pair", "NewDB keeps "+typeName(p.T), at, "NewDB does not keep the %s given", typeName(p.T))
			}
		}
		if x.Panic {
			c.Expect(some, "pair", "NewDB panics", at, "NewDB panics although both databases are given")
		}
	}
	c.Done(w)
	for _, k := range []string{"CXDS", "IdxDB"} {
		g := c.P.Method("data", "DB", k)
		if g == nil {
			c.Anchor("data.DB." + k)
			continue
		}
		w := c.P.NewWalker()
		self := mk("param", "db", types.NewPointer(db))
		for _, x := range w.Run(g, []*Term{self}, nil, nil) {
			c.Expect(!x.Panic && x.Rets[0] == w.load(newState(), w.fieldAddr(self, db, byType[k]), ds.Field(byType[k]).Type()), "pair", "DB."+k, c.at(x.Instr), "DB.%s returns another database", k)
		}
		c.Done(w)
	}
	w = c.P.NewWalker()
	w.Split = true
	self := mk("param", "db", types.NewPointer(db))
	w.OnEvent = func(st *State, ev *Event) bool { return ev.Kind == "call" }
	for _, x := range w.Run(cf, []*Term{self}, nil, nil) {
		at := c.at(x.Instr)
		if x.Panic {
			continue
		}
		res := map[string][]*Term{}
		for _, ev := range x.St.Events() {
			for _, k := range []string{"CXDS", "IdxDB"} {
				if strings.HasSuffix(ev.Name, "data."+k+".Close") && ev.Args[0] == w.load(newState(), w.fieldAddr(self, db, byType[k]), ds.Field(byType[k]).Type()) {
					res[k] = append(res[k], ev.Res)
				}
			}
		}
		for _, k := range []string{"CXDS", "IdxDB"} {
			if !c.Expect(len(res[k]) == 1, "pair", "Close closes "+k, at, "Close of the pair closes the %s %d times", k, len(res[k])) {
				return
			}
			if x.St.IsNil(x.Rets[0]) != no {
				ok := x.Rets[0] == res[k][0] || x.St.IsNil(res[k][0]) == yes
				c.Expect(ok, "pair", "Close reports "+k, at, "Close of the pair does not report a failure of the %s", k)
			}
		}
	}
	c.Done(w)
}

// atom: what is known about a term, for counting cases
func (f *Facts) atom(t *Term) string { return fmt.Sprint(f.Truth(t)) }
