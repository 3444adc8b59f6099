package main

// Iterations with a callback: every record once, in order, with its own key
// and value; the outcome of the callback decides whether the iteration goes
// on, what is deleted and what is returned.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const boltCursor = "(*github.com/boltdb/bolt.Cursor)."

// successor decides whether a function replaces a byte string by the next one
// in lexicographic order (all ones become all zeroes): exact unrolling over a
// string of symbolic bytes.
func (p *Prog) successor(f *ssa.Function) bool {
	if p.succMemo == nil {
		p.succMemo = map[*ssa.Function]bool{}
	}
	if v, ok := p.succMemo[f]; ok {
		return v
	}
	p.succMemo[f] = false
	ok := p.isRepo(f) && len(f.Params) == 1 && isBytes(f.Params[0].Type()) && len(f.Blocks) > 1
	if ok {
		ok = p.successorN(f, 3) && p.successorN(f, 8)
	}
	p.succMemo[f] = ok
	return ok
}

func (p *Prog) successorN(f *ssa.Function, n int) bool {
	w := p.NewWalker()
	w.Unroll, w.Loops, w.Narrow = true, n+2, true
	u8 := types.Typ[types.Uint8]
	arr := mk("alloc", fmt.Sprintf("succ%d", n), types.NewPointer(types.NewArray(u8, int64(n))))
	st := newState()
	in := make([]*Term, n)
	for i := range in {
		in[i] = mk("param", fmt.Sprintf("byte%d", i), u8)
		st.mem[idxTerm(arr, tInt(int64(i)), u8)] = in[i]
	}
	xs := w.Run(f, []*Term{mk("slice", "", types.NewSlice(u8), arr, tInt(0), tNone)}, nil, st)
	if len(w.Undecided) > 0 || len(xs) == 0 {
		return false
	}
	for _, x := range xs {
		if x.Panic {
			return false
		}
		j := n - 1
		for j >= 0 && x.St.Eq(in[j], tInt(255)) {
			j--
		}
		for i := range in {
			e := w.load(x.St, idxTerm(arr, tInt(int64(i)), u8), u8)
			switch {
			case i > j:
				if !x.St.Eq(e, tInt(0)) {
					return false
				}
			case i == j:
				if !x.St.Ne(in[j], tInt(255)) || e != tAdd(in[j], tInt(1)) {
					return false
				}
			default:
				if e != in[i] {
					return false
				}
			}
		}
	}
	return true
}

type iterSpec struct {
	fn       *ssa.Function
	args     []*Term
	name     string
	desc     bool // descending order
	seek     bool // the callback may change the records
	del      bool // the callback asks for deletions
	extra    func(ev *Event) bool
	checkRec func(w *Walker, st *State, k, v *Term, args []*Term, before []*Event) string
	onExit   func(w *Walker, x *Exit, deleted []iterRec, failed bool)
	isMap    func(t types.Type) bool
	opaque   func(f *ssa.Function) bool
}

type iterRec struct {
	k, v *Term
	cb   *Event
}

// content of a byte slice held in a local array or made slice
func (w *Walker) bytesContent(st *State, t *Term) *Term {
	if c := w.Content(st, t); c != t {
		return c.Args[0]
	}
	b := t
	if b.Op == "slice" && b.Args[1] == tInt(0) && b.Args[2] == tNone {
		b = b.Args[0]
	}
	if b.Op == "makeslice" {
		if c := st.mem[mk("contents", "", nil, b)]; c != nil {
			return c
		}
	}
	return t
}

func (w *Walker) modelSuccessor() {
	w.Model = func(st *State, ev *Event, args []*Term) (*Term, bool) {
		f := ev.Static
		if f == nil || len(args) != 1 || !w.P.isRepo(f) || !w.P.successor(f) {
			return nil, false
		}
		c := w.bytesContent(st, args[0])
		s := mk("succ", "", c.T, c)
		b := args[0]
		if b.Op == "slice" {
			b = b.Args[0]
		}
		w.havocAt(st, b, "succ")
		if b.Op == "alloc" {
			st.mem[b] = s
		} else {
			st.mem[mk("contents", "", nil, b)] = s
		}
		r := tNone
		if f.Signature.Results().Len() > 0 {
			return nil, false
		}
		return r, true
	}
}

// isSuccessorOf: the byte string t is the next one after the key k
func (w *Walker) isSuccessorOf(st *State, t, k *Term) bool {
	c := w.bytesContent(st, t)
	if c.Op == "bytesof" {
		c = c.Args[0]
	}
	if c.Op == "succ" {
		x := c.Args[0]
		for x.Op == "copied" || x.Op == "bytesof" {
			x = x.Args[0]
		}
		return x == k
	}
	if t.Op == "snap" {
		if t.Aux == "se" && t.Args[0] == k && t.Args[1] == tInt(0) {
			return true
		}
		var v *Term
		for i, b := range t.Args {
			if t.Aux[i] != 'e' || b.Op != "byte" || b.Aux != fmt.Sprintf("be%d.%d", len(t.Args), i) || v != nil && v != b.Args[0] {
				return false
			}
			v = b.Args[0]
		}
		if v == nil {
			return false
		}
		p := tSub(v, tInt(1))
		return p.Op == "endian" && strings.HasPrefix(p.Aux, fmt.Sprintf("be%d/", len(t.Args))) && p.Args[0] == k && p.Args[1] == tInt(0)
	}
	return false
}

func iterRule(c *Ctx, rOrder, rArgs, rResult, rDelete string, s iterSpec) {
	w := c.P.NewWalker()
	w.Cut, w.Loops = true, 3
	w.modelSuccessor()
	w.Opaque = s.opaque
	errStop := mk("sentinel", modPath+"/data.ErrStopIteration", nil)
	cbi := -1
	for i, p := range s.fn.Params {
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			cbi = i
		}
	}
	if cbi < 0 {
		c.Anchor(s.name + ": the callback")
		return
	}
	cb := s.args[cbi]
	pos := c.P.pos(s.fn.Pos())
	w.OnEvent = func(st *State, ev *Event) bool {
		switch ev.Kind {
		case "begin", "end":
			return true
		case "range", "rangeend":
			return s.isMap != nil && ev.Addr.T != nil && s.isMap(ev.Addr.T)
		case "mapdelete", "mapupdate":
			return s.isMap != nil && s.isMap(ev.Addr.T)
		case "call":
			if ev.Name == "dyn" && ev.Addr == cb {
				return true
			}
			if s.extra != nil && s.extra(ev) {
				return true
			}
			if strings.HasPrefix(ev.Name, boltCursor) {
				if m := strings.TrimPrefix(ev.Name, boltCursor); m == "Seek" && len(ev.Args) == 2 {
					ev.Tag = "other"
					prev := lastRec(st)
					if prev != nil {
						if ev.Args[1] == prev.k {
							ev.Tag = "same"
						} else if w.isSuccessorOf(st, ev.Args[1], prev.k) {
							ev.Tag = "succ"
							if !appended(ev.Args[1]) && w.wrapped(st, prev.k) != no {
								ev.Tag = "wrap"
							}
						}
					}
				}
				return true
			}
			if strings.HasPrefix(ev.Name, boltBucket) && (strings.HasSuffix(ev.Name, ".Delete") || strings.HasSuffix(ev.Name, ".Put")) {
				return true
			}
		}
		return false
	}
	w.Fork = func(st *State, ev *Event) (out [][]*Term) {
		if ev.Name != "dyn" || ev.Addr != cb {
			return nil
		}
		rs := []*Term{ev.Res}
		if ev.Res.Op == "tuple" {
			rs = ev.Res.Args
		}
		out = [][]*Term{nil}
		for _, r := range rs {
			alts := [][]*Term{{tEq(r, tNil)}, {tEq(r, errStop)}, {tNot(tEq(r, tNil)), tNot(tEq(r, errStop))}}
			if r.T != nil && isBool(r.T) {
				alts = [][]*Term{{r}, {tNot(r)}}
			}
			var next [][]*Term
			for _, o := range out {
				for _, a := range alts {
					next = append(next, append(append([]*Term{}, o...), a...))
				}
			}
			out = next
		}
		return
	}
	st0 := newState()
	st0.facts.wrap = true
	n, rounds := 0, 0
	for _, x := range w.Run(s.fn, s.args, nil, st0) {
		if x.Panic {
			continue
		}
		n++
		at := c.at(x.Instr)
		var cur *iterRec // record the iteration is at
		var last *Event  // last callback
		var lastErr, lastDel *Term
		var deleted []iterRec
		var delErr *Term
		rewound := false
		called := false // the current record was given to the callback
		gone := false   // and was deleted
		started, atEnd := false, false
		failed := false
		good := true
		bad := func(rule, f string, a ...interface{}) {
			good = false
			c.Bad(rule, s.name, at, f, a...)
		}
		stop := func(what *Event) {
			if last != nil && x.St.IsNil(lastErr) != yes && lastErr != nil {
				bad(rResult, "%s goes on (%s) although the callback may have failed", s.name, c.at(what.Instr))
			}
		}
		leave := func(ev *Event) {
			if cur == nil {
				return
			}
			if !called && x.St.IsNil(cur.k) != yes && cur.cb == nil {
				bad(rOrder, "%s leaves a record out (%s)", s.name, c.at(ev.Instr))
			}
			if called && s.del && !gone && (lastDel == nil || x.St.Truth(lastDel) != no) {
				bad(rDelete, "%s does not delete a record although the callback may have asked for it", s.name)
			}
		}
		evs := x.St.Events()
		for ei, ev := range evs {
			switch {
			case s.extra != nil && s.extra(ev):
			case ev.Kind == "begin":
			case ev.Kind == "end":
				if ev.Tag != "commit" {
					failed = true
				}
			case ev.Kind == "range":
				stop(ev)
				leave(ev)
				cur, called, gone, started = &iterRec{k: ev.Args[0], v: ev.Args[1]}, false, false, true
			case ev.Kind == "rangeend":
				stop(ev)
				leave(ev)
				started, atEnd = true, true
			case ev.Kind == "call" && ev.Name == "dyn":
				stop(ev)
				rounds++
				if cur == nil || called || atEnd {
					bad(rOrder, "%s calls the callback without a new record (%s)", s.name, c.at(ev.Instr))
					continue
				}
				called, rewound = true, false
				last = ev
				lastErr, lastDel = nil, nil
				rs := []*Term{ev.Res}
				if ev.Res.Op == "tuple" {
					rs = ev.Res.Args
				}
				for _, r := range rs {
					if r.T != nil && isBool(r.T) {
						lastDel = r
					} else {
						lastErr = r
					}
				}
				cur.cb = ev
			case strings.HasPrefix(ev.Name, boltCursor):
				m := strings.TrimPrefix(ev.Name, boltCursor)
				if m == "Delete" {
					stop(ev)
					if !called || gone || lastDel == nil || x.St.Truth(lastDel) != yes {
						bad(rDelete, "%s deletes a record nobody asked to delete (%s)", s.name, c.at(ev.Instr))
					}
					gone = true
					deleted = append(deleted, *cur)
					delErr = ev.Res
					continue
				}
				if delErr != nil && x.St.IsNil(delErr) != yes {
					bad(rResult, "%s goes on although a deletion may have failed", s.name)
				}
				stop(ev)
				if m == "Seek" && s.desc && ev.Tag == "same" {
					rewound = true
					continue // rewind
				}
				leave(ev)
				var k, v *Term
				if ev.Res.Op == "tuple" {
					k, v = ev.Res.Args[0], ev.Res.Args[1]
				}
				if ev.Tag == "wrap" {
					bad(rOrder, "%s does not see that no key follows the last possible one: it starts again (%s)", s.name, c.at(ev.Instr))
					ev.Tag = "succ"
				}
				okMove := false
				switch m {
				case "First":
					okMove = !started && !s.desc
				case "Last":
					okMove = !started && s.desc
				case "Next":
					okMove = started && !s.desc && !s.seek
				case "Prev":
					okMove = started && s.desc && rewound
				case "Seek":
					okMove = started && !s.desc && ev.Tag == "succ"
				}
				if !okMove {
					bad(rOrder, "%s moves with %s%s: not to the record that follows (%s)", s.name, m, map[bool]string{true: " while the callback may change the records"}[m == "Next" && s.seek], c.at(ev.Instr))
				}
				started = true
				cur, called, gone = &iterRec{k: k, v: v}, false, false
			case ev.Kind == "mapdelete" || ev.Kind == "call" && strings.HasSuffix(ev.Name, ".Delete"):
				stop(ev)
				i := 0
				if ev.Kind == "call" {
					i = 1
				}
				kk := ev.Args[i]
				if kk.Op == "bytesof" {
					kk = kk.Args[0]
				}
				if kk.Op == "copied" {
					kk = kk.Args[0]
				}
				if !called || gone || cur == nil || kk != cur.k || lastDel == nil || x.St.Truth(lastDel) != yes {
					bad(rDelete, "%s deletes a record nobody asked to delete (%s)", s.name, c.at(ev.Instr))
					continue
				}
				gone = true
				deleted = append(deleted, *cur)
				if ev.Kind == "call" {
					delErr = ev.Res
				}
			case ev.Kind == "mapupdate" || strings.HasSuffix(ev.Name, ".Put"):
				bad(rDelete, "%s writes while it iterates (%s)", s.name, c.at(ev.Instr))
			}
			// the arguments, where the record is known
			if ev.Kind == "call" && ev.Name == "dyn" && cur != nil && s.checkRec != nil {
				if m := s.checkRec(w, x.St, cur.k, cur.v, ev.Args, evs[:ei]); m != "" {
					bad(rArgs, "%s: %s (%s)", s.name, m, c.at(ev.Instr))
				} else {
					c.Site(rArgs, s.name)
				}
			}
		}
		// the result
		ret := x.Rets[len(x.Rets)-1]
		dbFail := failed && ret.Op == "dberr"
		switch {
		case dbFail:
		case last != nil && x.St.IsNil(lastErr) != yes:
			switch x.St.Truth(tEq(lastErr, errStop)) {
			case yes:
				if x.St.IsNil(ret) != yes {
					bad(rResult, "%s returns %s when the callback stops the iteration", s.name, ret)
				}
			case no:
				if ret != lastErr {
					bad(rResult, "%s returns %s instead of the error of the callback", s.name, ret)
				}
			default:
				bad(rResult, "%s does not tell the end of an iteration (ErrStopIteration) from an error", s.name)
			}
			if gone {
				bad(rDelete, "%s deletes a record although the callback failed", s.name)
			}
		case delErr != nil && x.St.IsNil(delErr) != yes:
			if ret != delErr {
				bad(rResult, "%s does not report a failed deletion", s.name)
			}
		default:
			if s.del && called && !gone && (lastDel == nil || x.St.Truth(lastDel) != no) {
				bad(rDelete, "%s does not delete a record although the callback may have asked for it", s.name)
			}
			if cur != nil && !atEnd && !called && x.St.IsNil(cur.k) != yes {
				bad(rOrder, "%s ends before all records are visited", s.name)
			}
			if cur != nil && !atEnd && called && w.wrapped(x.St, cur.k) != yes {
				bad(rOrder, "%s ends after a record without looking for the next one", s.name)
			}
			if !started && !failed {
				bad(rOrder, "%s visits no record", s.name)
			}
			if x.St.IsNil(ret) != yes && !failed {
				bad(rResult, "%s returns %s at the end of the records", s.name, ret)
			}
		}
		if good {
			c.Site(rOrder, s.name)
			c.Site(rResult, s.name)
			if s.del {
				c.Site(rDelete, s.name)
			}
		}
		if s.onExit != nil {
			s.onExit(w, x, deleted, failed)
		}
	}
	c.Expect(n > 0 && rounds > 0, rOrder, s.name+": callback", pos, "%s never calls its callback", s.name)
	c.Done(w)
}

// wrapped: whether a key follows k: yes when it is known that none does, no
// when it is known that one does
func (w *Walker) wrapped(st *State, k *Term) tri {
	isSucc := func(t *Term) bool {
		for t.Op == "copied" || t.Op == "bytesof" || t.Op == "conv" {
			t = t.Args[0]
		}
		if t.Op != "succ" {
			return false
		}
		x := t.Args[0]
		for x.Op == "copied" || x.Op == "bytesof" {
			x = x.Args[0]
		}
		return x == k
	}
	num := func(t *Term) bool { // the key as a number
		if t.Op != "endian" || !strings.HasPrefix(t.Aux, "be8") || t.Args[1] != tInt(0) {
			return false
		}
		x := t.Args[0]
		for x.Op == "copied" || x.Op == "bytesof" {
			x = x.Args[0]
		}
		return x == k
	}
	for t, v := range st.facts.b {
		hit := false
		switch t.Op {
		case "eq":
			hit = isSucc(t.Args[0]) && t.Args[1].Op == "zero" || isSucc(t.Args[1]) && t.Args[0].Op == "zero"
		case "eq0": // the successor is zero, the number plus one is zero, the number is the largest one
			d := t.Args[0]
			hit = d.Op == "endian" && isSucc(d.Args[0])
			if d.Op == "aff" && len(d.Lin) == 1 {
				hit = hit || d.Lin[0].k == 1 && d.C == 1 && num(d.Lin[0].t)
			}
			if d.Op == "aff" && len(d.Lin) == 2 && d.C == 0 && d.Lin[0].k == -d.Lin[1].k {
				a, b := d.Lin[0].t, d.Lin[1].t
				if b.Op != "big" {
					a, b = b, a
				}
				hit = hit || num(a) && b.Op == "big" && b.Aux == "18446744073709551615"
			}
		case "le0":
			// largest-number comparisons as bounds
		}
		if hit {
			return triOf(v)
		}
	}
	return unknown
}

// lastRec: the record the iteration was at before the current event
func lastRec(st *State) *iterRec {
	for t := st.trace; t != nil; t = t.prev {
		ev := t.ev
		if ev.Kind == "range" {
			return &iterRec{k: ev.Args[0], v: ev.Args[1]}
		}
		if strings.HasPrefix(ev.Name, boltCursor) && ev.Res != nil && ev.Res.Op == "tuple" && ev.Tag != "same" {
			return &iterRec{k: ev.Res.Args[0], v: ev.Res.Args[1]}
		}
	}
	return nil
}

// appended: the key followed by a zero byte, which never wraps around
func appended(t *Term) bool { return t.Op == "snap" && t.Aux == "se" }
