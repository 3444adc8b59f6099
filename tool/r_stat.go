package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("S01", "rolling average",
		"Abstract interpretation of the sample accumulation from an arbitrary state satisfying the invariant (all numeric cells the accumulation writes are made symbolic): on each path the new sum, window slot, window position, sample count, stored average and returned average are compared, as linear forms, with those of the mean of the last min(added, window) samples. The roles of the cells are found from the data flow, not from names.", checkS01)
	register("S02", "volume and amount formatting",
		"Exact unrolling of the scaling loop (its trip count is bounded by the 32-bit type) with the numeric facts of each exit: the printed value, the unit and the final text are compared with the required ones for each number of divisions.", checkS02)
}

func mutexOf(c *Ctx, addr *Term) bool {
	return addr.Op == "field" && strings.Contains(addr.T.String(), "sync.")
}

func checkS01(c *Ctx) {
	c.Rule("window", "adding a sample replaces the oldest sample of a full window: sum, window slot and position change together", 2)
	c.Rule("count", "the number of samples grows by one until the window is full and stays there", 2)
	c.Rule("mean", "the average returned and the average stored are the sum of the window divided by the number of samples", 2)
	c.Rule("getter", "the value read is the stored average", 2)
	c.Rule("positive", "a window without samples is refused by a panic", 2)
	c.Rule("lock", "the accumulated state is read and written only while the lock of the statistic is held, and the lock is released", 4)
	c.Rule("since", "adding a start time adds the time passed since then", 1)
	for _, typ := range []string{"Duration", "Float"} {
		ctor := c.P.Func("skyobject/statutil", "New"+typ)
		n := c.P.Named("skyobject/statutil", typ)
		if ctor == nil || n == nil {
			c.Anchor("skyobject/statutil.New" + typ)
			continue
		}
		add, val := c.P.methodOf(n, "Add"), c.P.methodOf(n, "Value")
		if add == nil || val == nil {
			c.Anchor("skyobject/statutil." + typ + ".Add/Value")
			continue
		}
		w := c.P.NewWalker()
		ps := w.Params(ctor)
		N := ps[0]
		var init *Exit
		for _, x := range w.Run(ctor, ps, nil, nil) {
			small := x.St.Truth(tLe0(N)) // n <= 0
			if x.Panic {
				c.Expect(small == yes, "positive", "New"+typ, c.at(x.Instr), "New%s panics on a path where the window is not known to be empty (%s)", typ, x.St.facts)
				continue
			}
			c.Expect(small == no, "positive", "New"+typ, c.at(x.Instr), "New%s accepts a window of zero or less samples", typ)
			if init != nil {
				c.Bad("window", typ, c.at(x.Instr), "New%s has several results; undecided", typ)
			}
			init = x
		}
		c.Done(w)
		if init == nil {
			c.Bad("window", typ, c.P.pos(ctor.Pos()), "New%s never returns", typ)
			continue
		}
		rollingAverage(c, typ, n, init, N, add, val)
	}
	f := c.P.Method("skyobject/statutil", "Duration", "AddStartTime")
	if f == nil {
		c.Anchor("statutil.Duration.AddStartTime")
		return
	}
	w := c.P.NewWalker()
	addf := c.P.Method("skyobject/statutil", "Duration", "Add")
	w.Opaque = func(g *ssa.Function) bool { return g == addf }
	w.OnEvent = func(st *State, ev *Event) bool { return ev.Kind == "call" }
	ps := w.Params(f)
	for _, x := range w.Run(f, ps, nil, nil) {
		good, adds := 0, 0
		var res *Term
		for _, e := range x.St.Events() {
			if e.Static == addf {
				adds++
				a := e.Args[1]
				s := a.String()
				if a.Op == "pure" && strings.HasPrefix(a.Aux, "(time.Time).Sub") && a.Args[0].Op == "call" && strings.HasPrefix(a.Args[0].Aux, "time.Now") && a.Args[1] == ps[1] ||
					a.Op == "call" && strings.HasPrefix(a.Aux, "time.Since") && a.Args[0] == ps[1] {
					good++
				} else {
					c.Bad("since", "AddStartTime", c.at(e.Instr), "AddStartTime adds %s instead of the time passed", s)
				}
				res = e.Res
			}
		}
		c.Expect(adds == 1 && good == 1, "since", "AddStartTime", c.at(x.Instr), "AddStartTime adds %d samples", adds)
		c.Expect(len(x.Rets) == 1 && x.Rets[0] == res, "since", "AddStartTime result", c.at(x.Instr), "AddStartTime does not return the new average")
	}
	c.Done(w)
}

// peelConv: without a conversion to a type
func peelConv(t *Term, to string) *Term {
	if t.Op == "conv" && t.Aux == to {
		t = t.Args[0]
	}
	return t
}

func rollingAverage(c *Ctx, typ string, n *types.Named, init *Exit, N *Term, add, val *ssa.Function) {
	obj := init.Rets[0]
	pos := c.P.pos(add.Pos())
	base := init.St.clone()
	base.facts = base.facts.clone()
	// find the cells Add writes
	written := map[*Term]types.Type{}
	preexisting := reachable(base, obj)
	w := c.P.NewWalker()
	w.OnEvent = func(st *State, ev *Event) bool {
		if ev.Kind == "store" && (ev.Addr.Op != "idx") {
			if preexisting[rootTerm(ev.Addr)] {
				written[ev.Addr] = deref(ev.Addr.T)
			}
		}
		return false
	}
	w.Run(add, append([]*Term{obj}, w.Params(add)[1:]...), nil, base)
	if len(w.Undecided) > 0 {
		c.Done(w)
	}
	// symbolic numeric state
	st := base.clone()
	cell0 := map[*Term]*Term{}
	var slices []*Term
	for a, t := range written {
		if isNum(t) {
			s := mk("cell", a.String(), t)
			st.mem[a] = s
			cell0[a] = s
		}
	}
	for _, v := range base.mem {
		if v.Op == "makeslice" {
			slices = append(slices, v)
		}
	}
	if len(slices) != 1 {
		c.Bad("window", typ, pos, "the window of %s is not one slice made by the constructor (%d found); undecided", typ, len(slices))
		return
	}
	B := slices[0]
	if B.Args[0] != N {
		c.Bad("window", typ, pos, "the window of %s holds %s samples, not the requested number", typ, B.Args[0])
		return
	}
	st.mem[mk("contents", "", nil, B)] = mk("havoc", "bins", nil)
	for a := range st.mem {
		if a.Op == "idx" && a.Args[0] == B {
			delete(st.mem, a)
		}
	}
	st.epoch["E:float64"] = "any"
	// cells of the window position and the count are ints: 0 <= c, 0 <= i < n
	type role struct{ idx, cnt, sum, last *Term }
	var ro role
	x := w.Params(add)[1]
	w2 := c.P.NewWalker()
	w2.OnEvent = func(s *State, ev *Event) bool {
		switch ev.Kind {
		case "store":
			return ev.Addr.Op == "idx"
		case "call":
			return strings.HasPrefix(ev.Name, "(*sync.")
		}
		return false
	}
	// first pass: roles
	args := []*Term{obj, x}
	exits := w2.Run(add, args, nil, st)
	for _, ex := range exits {
		for _, e := range ex.St.Events() {
			if e.Kind == "store" && e.Addr.Args[0] == B {
				for a, s := range cell0 {
					if e.Addr.Args[1] == s {
						ro.idx = a
					}
				}
			}
		}
	}
	isInt := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	if ro.idx == nil {
		c.Bad("window", typ, pos, "no integer cell of %s is the position of the sample stored; undecided", typ)
		return
	}
	st.assume(tLe0(tScale(cell0[ro.idx], -1)), true)             // i >= 0
	st.assume(tLe0(tAdd(tSub(cell0[ro.idx], N), tInt(1))), true) // i < n
	for a, s := range cell0 {
		if a != ro.idx && isInt(written[a]) && !strings.HasPrefix(written[a].String(), "time.") {
			ro.cnt = a
			st.assume(tLe0(tScale(s, -1)), true) // c >= 0
			st.assume(tLe0(tSub(s, N)), true)    // c <= n
		}
	}
	if ro.cnt == nil {
		c.Bad("count", typ, pos, "no integer cell of %s counts the samples; undecided", typ)
		return
	}
	w3 := c.P.NewWalker()
	w3.OnEvent = w2.OnEvent
	exits = w3.Run(add, args, nil, st)
	c.Done(w3)
	i0, c0 := cell0[ro.idx], cell0[ro.cnt]
	fx := func(t *Term) bool { return peelConv(t, "float64") == x }
	for k, ex := range exits {
		ps := fmt.Sprintf("%s path %d", typ, k)
		if ex.Panic {
			c.Bad("window", ps, c.at(ex.Instr), "adding a sample can panic")
			continue
		}
		var stores []*Event
		for _, e := range ex.St.Events() {
			if e.Kind == "store" && rootTerm(e.Addr) == B {
				stores = append(stores, e)
			}
		}
		if len(stores) != 1 {
			c.Bad("window", typ, c.at(ex.Instr), "adding a sample stores %d samples into the window", len(stores))
			continue
		}
		e := stores[0]
		c.Expect(e.Addr.Args[1] == i0, "window", typ, c.at(e.Instr), "the sample is stored at %s, not at the window position", e.Addr.Args[1])
		c.Expect(fx(e.Val), "window", typ, c.at(e.Instr), "the stored sample is %s, not the sample added", e.Val)
		// position
		i1 := ex.St.mem[ro.idx]
		okPos := i1.Op == "bin" && i1.Aux == "%" && i1.Args[0] == tAdd(i0, tInt(1)) && ex.St.Eq(i1.Args[1], N)
		last := ex.St.Truth(tEq(tAdd(i0, tInt(1)), N))
		if !okPos && last == yes {
			okPos = i1 == tInt(0)
		}
		if !okPos && last == no {
			okPos = i1 == tAdd(i0, tInt(1))
		}
		c.Expect(okPos, "window", typ, c.at(ex.Instr), "the window position becomes %s (path: %s)", i1, ex.St.facts)
		// count
		c1 := ex.St.mem[ro.cnt]
		full := ex.St.Truth(tEq(c0, N))
		if full == unknown && ex.St.Truth(tLe0(tAdd(tSub(c0, N), tInt(1)))) == yes {
			full = no
		}
		if full == unknown && ex.St.Truth(tLe0(tSub(N, c0))) == yes {
			full = yes
		}
		switch full {
		case yes:
			c.Expect(c1 == c0 || c1 == N, "count", typ, c.at(ex.Instr), "with a full window the number of samples becomes %s", c1)
		case no:
			c.Expect(c1 == tAdd(c0, tInt(1)), "count", typ, c.at(ex.Instr), "with a window that is not full the number of samples becomes %s", c1)
		default:
			c.Bad("count", typ, c.at(ex.Instr), "the number of samples becomes %s without regard to whether the window is full", c1)
		}
		// sum
		old := mk("load", "any", types.Typ[types.Float64], idxTerm(B, i0, types.Typ[types.Float64]))
		var sum1 *Term
		for a, s := range cell0 {
			v := ex.St.mem[a]
			if v == nil || !isFloatT(written[a]) {
				continue
			}
			d := tSub(v, s)
			l, k0 := lin(d)
			if k0 == 0 && len(l) == 2 {
				var px, po bool
				for _, q := range l {
					if q.k == 1 && fx(q.t) {
						px = true
					}
					if q.k == -1 && q.t == old {
						po = true
					}
				}
				if px && po {
					sum1 = v
					ro.sum = a
				}
			}
		}
		if sum1 == nil {
			c.Bad("window", typ, c.at(ex.Instr), "no cell grows by the sample added minus the sample dropped: the sum of the window is lost")
			continue
		}
		c.Site("window", typ)
		// mean
		mean := func(t *Term) bool {
			if !isFloatT(x.T) {
				t = peelConv(t, "int64")
			}
			return t.Op == "bin" && t.Aux == "/" && t.Args[0] == sum1 && peelConv(t.Args[1], "float64") == c1
		}
		r := ex.Rets[0]
		c.Expect(mean(r), "mean", typ, c.at(ex.Instr), "the returned average is %s, not the sum %s divided by the number of samples %s", r, sum1, c1)
		ro.last = nil
		for a := range cell0 {
			if ex.St.mem[a] == r {
				ro.last = a
			}
		}
		c.Expect(ro.last != nil, "mean", typ, c.at(ex.Instr), "the new average is not stored")
	}
	if ro.last != nil {
		// getter
		wg := c.P.NewWalker()
		for _, ex := range wg.Run(val, []*Term{obj}, nil, st) {
			c.Expect(!ex.Panic && len(ex.Rets) == 1 && ex.Rets[0] == cell0[ro.last], "getter", typ, c.at(ex.Instr), "Value returns %s, not the stored average", ex.Rets)
		}
		c.Done(wg)
	}
	// the lock
	for _, f := range []*ssa.Function{add, val} {
		wl := c.P.NewWalker()
		wl.Want["load"] = true
		wl.OnEvent = func(s *State, ev *Event) bool {
			switch {
			case ev.Kind == "call" && strings.HasPrefix(ev.Name, "(*sync."):
				m := ev.Name[strings.LastIndex(ev.Name, ".")+1:]
				k := "L" + ev.Args[0].String()
				switch m {
				case "Lock", "RLock":
					if s.auto[k] != "" {
						c.Bad("lock", typ+"."+f.Name(), c.at(ev.Instr), "the lock is taken twice")
					}
					s.auto[k] = m
				case "Unlock", "RUnlock":
					if s.auto[k] == "" {
						c.Bad("lock", typ+"."+f.Name(), c.at(ev.Instr), "the lock is released without being held")
					}
					delete(s.auto, k)
				}
			case ev.Kind == "store" || ev.Kind == "load":
				_, isCell := cell0[ev.Addr]
				if isCell || ev.Addr.Op == "idx" && ev.Addr.Args[0] == B {
					held := ""
					for _, v := range s.auto {
						held = v
					}
					c.Expect(held == "Lock" || held == "RLock" && ev.Kind == "load", "lock", typ+"."+f.Name(), c.at(ev.Instr), "the statistic is accessed (%s %s) without its lock", ev.Kind, ev.Addr)
				}
			}
			return false
		}
		a := []*Term{obj}
		if f == add {
			a = args
		}
		for _, ex := range wl.Run(f, a, nil, st) {
			c.Expect(len(ex.St.auto) == 0, "lock", typ+"."+f.Name(), c.at(ex.Instr), "the lock is still held at the end")
		}
		c.Done(wl)
	}
}

// reachable: all terms reachable from t through memory
func reachable(st *State, ts ...*Term) map[*Term]bool {
	byRoot := map[*Term][]*Term{}
	for a := range st.mem {
		byRoot[rootTerm(a)] = append(byRoot[rootTerm(a)], a)
	}
	out := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || out[t] {
			return
		}
		out[t] = true
		for _, a := range t.Args {
			rec(a)
		}
		for _, a := range byRoot[t] {
			rec(a)
			rec(st.mem[a])
		}
	}
	for _, t := range ts {
		rec(t)
	}
	return out
}

// globalArray: constant contents of a package-level array or slice
func (p *Prog) globalArray(g *ssa.Global) map[int64]*Term {
	out := map[int64]*Term{}
	init := g.Pkg.Func("init")
	if init == nil {
		return out
	}
	cells := func(base ssa.Value) {
		rs := base.Referrers()
		if rs == nil {
			return
		}
		for _, r := range *rs {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			i, ok := ia.Index.(*ssa.Const)
			if !ok {
				continue
			}
			for _, q := range *ia.Referrers() {
				if st, ok := q.(*ssa.Store); ok {
					if v, ok := st.Val.(*ssa.Const); ok {
						out[i.Int64()] = constTerm(v)
					}
				}
			}
		}
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if ia, ok := s.Addr.(*ssa.IndexAddr); ok && ia.X == g {
				if i, ok := ia.Index.(*ssa.Const); ok {
					if v, ok := s.Val.(*ssa.Const); ok {
						out[i.Int64()] = constTerm(v)
					}
				}
			}
			if s.Addr == g {
				switch v := s.Val.(type) {
				case *ssa.Slice:
					cells(v.X)
				case *ssa.UnOp:
					cells(v.X)
				}
			}
		}
	}
	return out
}

func checkS02(c *Ctx) {
	c.Rule("scale", "the value is divided by the base as often as it is not below the base, and the unit names that number of divisions", 8)
	c.Rule("text", "the text is the scaled value with at most two decimals, without trailing zeroes and dot, followed by the unit", 8)
	for _, q := range []struct {
		typ    string
		base   int64
		suffix string
	}{{"Volume", 1024, "B"}, {"Amount", 1000, ""}} {
		f := c.P.Method("skyobject/statutil", q.typ, "String")
		n := c.P.Named("skyobject/statutil", q.typ)
		if f == nil || n == nil {
			c.Anchor("statutil." + q.typ + ".String")
			continue
		}
		if b, ok := n.Underlying().(*types.Basic); !ok || b.Kind() != types.Uint32 {
			c.Bad("scale", q.typ, c.P.pos(n.Obj().Pos()), "%s is not a 32-bit unsigned number any more: the bound of the scaling loop is lost", q.typ)
			continue
		}
		w := c.P.NewWalker()
		w.Unroll, w.Loops = true, 8
		w.KeepTrunc, w.KeepSign = true, true
		ps := w.Params(f)
		v := ps[0]
		v32 := v
		seen := map[int]bool{}
		exits := w.Run(f, ps, nil, nil)
		w.Undecided = filterOut(w.Undecided, "runs more than")
		c.Done(w)
		for _, x := range exits {
			if x.Panic {
				c.Bad("text", q.typ, c.at(x.Instr), "String can panic")
				continue
			}
			// a value that is not below the base after three divisions does
			// not exist
			over := false
			for t, v := range x.St.facts.b {
				if !v && t.Op == "lt0f" {
					y, k := tAdd(t.Args[0], tInt(q.base)), 0
					for y.Op == "bin" && y.Aux == "/" && y.Args[1] == tInt(q.base) {
						k, y = k+1, y.Args[0]
					}
					over = over || k >= 3 && peelConv(y, "float64") == v32
				}
			}
			// a number printed with decimals always has a dot
			for t, v := range x.St.facts.b {
				if !v && t.Op == "pure" && t.Aux == "strings.Contains#0" && t.Args[1] == tStr(".") && t.Args[0].Op == "pure" && t.Args[0].Aux == "fmt.Sprintf#0" && t.Args[0].Args[0] == tStr("%.2f") {
					over = true
				}
			}
			if over {
				continue
			}
			ps := mergeLits(textPiecesDeep(x.Rets[0]))
			if len(ps) == 0 {
				c.Bad("text", q.typ, c.at(x.Instr), "the text is empty")
				continue
			}
			// value
			t := ps[0].t
			var fv *Term
			if ps[0].kind == "other" {
				fv = trimmedNumber(t)
			}
			if fv == nil {
				c.Bad("text", q.typ, c.at(x.Instr), "the number is not printed with two decimals and stripped of trailing zeroes, then of the dot: %s", piecesString(ps))
				continue
			}
			// number of divisions
			k := 0
			y := fv
			var chain []*Term
			chain = append(chain, y)
			for y.Op == "bin" && y.Aux == "/" && y.Args[1] == tInt(q.base) {
				k++
				y = y.Args[0]
				chain = append(chain, y)
			}
			if peelConv(y, "float64") != v {
				c.Bad("scale", q.typ, c.at(x.Instr), "the printed number %s is not the value divided by %d some times", fv, q.base)
				continue
			}
			con := fmt.Sprintf("%s after %d divisions", q.typ, k)
			if k > 3 {
				continue // above the range of the type
			}
			seen[k] = true
			// conditions
			c.Expect(x.St.Truth(tLt0f(tSub(chain[0], tInt(q.base)))) == yes, "scale", con, c.at(x.Instr), "the number is printed without being known to be below %d (path: %s)", q.base, x.St.facts)
			for _, z := range chain[1:] {
				c.Expect(x.St.Truth(tLt0f(tSub(z, tInt(q.base)))) == no, "scale", con, c.at(x.Instr), "a number below %d is divided (path: %s)", q.base, x.St.facts)
			}
			// unit
			unit := ""
			okU := true
			for _, p := range ps[1:] {
				switch p.kind {
				case "lit":
					unit += p.s
				case "other":
					u := unitOf(c, p.t)
					if u == nil {
						okU = false
					} else {
						unit += *u
					}
				default:
					okU = false
				}
			}
			want := []string{"", "k", "M", "G"}[k] + q.suffix
			c.Expect(okU && unit == want, "text", con, c.at(x.Instr), "the unit is %q (%s), it must be %q", unit, piecesString(ps[1:]), want)
		}
		for k := 0; k <= 3; k++ {
			con := fmt.Sprintf("%s after %d divisions", q.typ, k)
			c.Expect(seen[k], "scale", con, c.P.pos(f.Pos()), "no path prints the value after %d divisions", k)
		}
	}
}

func filterOut(xs []string, sub string) []string {
	var out []string
	for _, x := range xs {
		if !strings.Contains(x, sub) {
			out = append(out, x)
		}
	}
	return out
}

// like textPieces but keeps a formatted, trimmed number as one piece
func textPiecesDeep(t *Term) []piece {
	if t.Op == "concat" {
		var out []piece
		for _, a := range t.Args {
			out = append(out, textPiecesDeep(a)...)
		}
		return out
	}
	if t.Op == "str" {
		return []piece{{kind: "lit", s: t.Aux}}
	}
	if t.Op == "pure" && t.Aux == "strings.Join#0" && t.Args[0].Op == "snap" && !strings.Contains(t.Args[0].Aux, "s") && t.Args[1] == tStr("") {
		var out []piece
		for _, a := range t.Args[0].Args {
			out = append(out, textPiecesDeep(a)...)
		}
		return out
	}
	if t.Op == "pure" && t.Aux == "fmt.Sprintf#0" {
		ps := textPieces(t)
		ok := true
		for _, p := range ps {
			if p.kind == "fmt" {
				ok = false
			}
		}
		if ok {
			return ps
		}
	}
	return []piece{{kind: "other", t: t}}
}

// trimmedNumber: TrimRight(TrimRight(Sprintf("%.2f", x), "0"), ".") gives x
func trimmedNumber(t *Term) *Term {
	for _, cut := range []string{".", "0"} {
		ok := t.Op == "pure" && (t.Aux == "strings.TrimRight#0" || cut == "." && t.Aux == "strings.TrimSuffix#0") && t.Args[1] == tStr(cut)
		if !ok {
			return nil
		}
		t = t.Args[0]
	}
	if t.Op == "pure" && t.Aux == "fmt.Sprintf#0" && t.Args[0] == tStr("%.2f") && t.Args[1].Op == "snap" && t.Args[1].Aux == "e" {
		return unwrapIface(t.Args[1].Args[0])
	}
	// "%.*f"
	if t.Op == "pure" && t.Aux == "fmt.Sprintf#0" && t.Args[0] == tStr("%.*f") && t.Args[1].Op == "snap" && t.Args[1].Aux == "ee" && unwrapIface(t.Args[1].Args[0]) == tInt(2) {
		return unwrapIface(t.Args[1].Args[1])
	}
	if t.Op == "conv" && t.Args[0].Op == "pure" && t.Args[0].Aux == "strconv.AppendFloat#0" && t.Args[0].Args[0] == tNil && t.Args[0].Args[2] == tInt('f') && t.Args[0].Args[3] == tInt(2) {
		return t.Args[0].Args[1]
	}
	if t.Op == "pure" && t.Aux == "strconv.FormatFloat#0" && t.Args[1] == tInt('f') && t.Args[2] == tInt(2) {
		return t.Args[0]
	}
	return nil
}

func unitOf(c *Ctx, t *Term) *string {
	if t.Op == "elem" && t.Args[0].Op == "load" {
		t = mk("load", "", t.T, mk("idx", "", nil, t.Args[0].Args[0], t.Args[1]))
	}
	if t.Op == "load" && t.Args[0].Op == "idx" {
		a := t.Args[0]
		b := a.Args[0]
		if b.Op == "load" {
			b = b.Args[0]
		}
		if b.Op == "global" && a.Args[1].Op == "int" {
			for _, rel := range repoPkgs {
				for _, m := range c.P.Pkgs[rel].Members {
					if g, ok := m.(*ssa.Global); ok && g.String() == b.Aux && c.P.storedOnlyInInit(g) {
						if v := c.P.globalArray(g)[a.Args[1].C]; v != nil && v.Op == "str" {
							s := v.Aux
							return &s
						}
						s := "" // an empty element is not stored
						if len(c.P.globalArray(g)) > 0 {
							return &s
						}
					}
				}
			}
		}
	}
	return nil
}
