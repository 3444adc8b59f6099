package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var tNone = mk("none", "", nil)

// pure functions: the result depends on the arguments only
func isPureExternal(name string) bool {
	for _, p := range purePrefixes {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

var purePrefixes = []string{
	"fmt.Sprint", "strings.", "(encoding/binary.bigEndian).Uint", "(encoding/binary.littleEndian).Uint",
	"github.com/skycoin/skycoin/src/cipher.SumSHA256", "github.com/skycoin/skycoin/src/cipher/encoder.Serialize",
	"(github.com/skycoin/skycoin/src/cipher.SHA256).", "(github.com/skycoin/skycoin/src/cipher.PubKey).",
	"(github.com/skycoin/skycoin/src/cipher.SecKey).",
	"github.com/skycoin/skycoin/src/cipher.VerifySignature", "github.com/skycoin/skycoin/src/cipher.PubKeyFromSecKey",
	"(time.Time).", "(time.Duration).", "math.", "bytes.", "path.", "path/filepath.", "strconv.", "unicode.",
	"(reflect.Value).", "reflect.", "(*reflect.rtype).", "errors.Is",
}

// the function never returns to its caller
func isNoReturn(name string) bool {
	switch name {
	case "os.Exit", "runtime.Goexit", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln",
		"(*log.Logger).Panic", "(*log.Logger).Panicf", "(*log.Logger).Panicln", "log.Fatal", "log.Fatalf", "log.Fatalln",
		"log.Panic", "log.Panicf", "log.Panicln":
		return true
	}
	if strings.HasPrefix(name, "iface:"+modPath+"/node/log.Logger.") {
		m := name[strings.LastIndex(name, ".")+1:]
		return strings.HasPrefix(m, "Fatal") || strings.HasPrefix(m, "Panic")
	}
	return false
}

// external functions calling a closure argument synchronously
func callsThrough(name string) bool {
	switch name {
	case "(*github.com/boltdb/bolt.DB).Update", "(*github.com/boltdb/bolt.DB).View", "(*github.com/boltdb/bolt.DB).Batch", "(*sync.Once).Do":
		return true
	}
	return false
}

// external functions writing into a slice or pointer argument
func externalWrites(name string) []int {
	switch {
	case strings.HasPrefix(name, "(encoding/binary.bigEndian).PutUint"), strings.HasPrefix(name, "(encoding/binary.littleEndian).PutUint"):
		return []int{1}
	case name == "io.ReadFull", name == "io.ReadAtLeast":
		return []int{1}
	case name == "crypto/rand.Read", name == "math/rand.Read":
		return []int{0}
	case strings.HasPrefix(name, "github.com/skycoin/skycoin/src/cipher/encoder.Deserialize"):
		return []int{1, 2}
	case strings.HasPrefix(name, "encoding/json.Unmarshal"), strings.HasPrefix(name, "(*encoding/json.Decoder).Decode"):
		return []int{1}
	}
	return nil
}

// readsOnly: external functions that do not write to what an interface given holds
func readsOnly(name string) bool {
	for _, p := range []string{"fmt.Print", "fmt.Sprint", "fmt.Fprint", "fmt.Append", "fmt.Errorf", "reflect.TypeOf", "reflect.ValueOf", "errors.Is",
		"github.com/skycoin/skycoin/src/cipher/encoder.Serialize", "github.com/skycoin/skycoin/src/cipher/encoder.Size", "(*log.Logger).", "log.",
		"(*net/rpc.Server).Register"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func extName(f *ssa.Function) string {
	return f.String()
}

func (w *Walker) block(fr *frame, inf *fnInfo, it *item, push func(*item), addExit func(*Exit)) {
	type cont struct {
		st     *State
		env    map[ssa.Value]*Term
		defers []*deferred
	}
	// run instructions from index i
	var run func(c cont, i int)
	run = func(c cont, i int) {
		st, env := c.st, c.env
		own := it
		for ; i < len(it.b.Instrs); i++ {
			if w.over {
				return
			}
			in := it.b.Instrs[i]
			V := func(v ssa.Value) *Term { return w.val(fr, env, v) }
			S := func() string { return w.site(fr, inf, own, in) }
			emit := func(ev *Event) {
				ev.Instr, ev.Fn, ev.Depth = in, fr.fn, fr.depth
				ev.Stack = fr.stack()
				w.event(st, ev)
			}
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.Alloc:
				t := mk("alloc", S(), in.Type())
				if t.Obj == nil {
					t.Obj = "A:" + t.Aux
				}
				// a new object: forget stale cells of a previous visit
				w.havocAt(st, t, "x")
				delete(st.mem, t)
				env[in] = t
			case *ssa.FieldAddr:
				x := V(in.X)
				if w.Want["deref"] {
					emit(&Event{Kind: "deref", Addr: x})
				}
				env[in] = w.fieldAddr(x, deref(in.X.Type()), in.Field)
			case *ssa.Field:
				s := in.X.Type().Underlying().(*types.Struct)
				env[in] = project(V(in.X), s.Field(in.Field).Name(), in.Field, s.Field(in.Field).Type())
			case *ssa.IndexAddr:
				x, ix := V(in.X), V(in.Index)
				if w.Want["index"] {
					emit(&Event{Kind: "index", Args: []*Term{x, ix, w.lenOf(st, x, in.X.Type())}})
				}
				env[in] = idxTerm(x, ix, elemType(in.X.Type()))
			case *ssa.Index:
				x, ix := V(in.X), V(in.Index)
				if w.Want["index"] {
					emit(&Event{Kind: "index", Args: []*Term{x, ix, w.lenOf(st, x, in.X.Type())}})
				}
				if x.Op == "str" && ix.Op == "int" && ix.C >= 0 && ix.C < int64(len(x.Aux)) {
					env[in] = tInt(int64(x.Aux[ix.C]))
					break
				}
				env[in] = mk("elem", "", in.Type(), x, ix)
			case *ssa.UnOp:
				x := V(in.X)
				switch in.Op {
				case token.MUL:
					if g, ok := in.X.(*ssa.Global); ok && w.isSentinel(g) {
						env[in] = mk("sentinel", g.String(), in.Type())
						break
					}
					if w.Want["deref"] && x.Op != "field" && x.Op != "idx" {
						emit(&Event{Kind: "deref", Addr: x})
					}
					env[in] = w.load(st, x, in.Type())
					if w.Want["load"] {
						emit(&Event{Kind: "load", Addr: x, Key: termKey(x), Val: env[in]})
					}
				case token.NOT:
					env[in] = tNot(x)
				case token.SUB:
					env[in] = tScale(x, -1)
				case token.ARROW:
					var et types.Type
					if ch, ok := in.X.Type().Underlying().(*types.Chan); ok {
						et = ch.Elem()
					}
					v := mk("recv", S(), et, x)
					if in.CommaOk {
						env[in] = mk("tuple", "", nil, v, mk("recvok", S(), types.Typ[types.Bool], x))
					} else {
						env[in] = v
					}
					emit(&Event{Kind: "recv", Addr: x, Res: env[in], Val: v})
					w.synced(st, S())
				default:
					env[in] = mk("un", in.Op.String(), in.Type(), x)
				}
			case *ssa.BinOp:
				r := w.binop(st, in, V(in.X), V(in.Y))
				if w.Narrow && isUint8(in.Type()) && (in.Op == token.ADD || in.Op == token.SUB) && r.Op != "int" {
					// eight bits: the sum, or the sum less 256
					for d := int64(-1); d <= 1; d++ {
						s2 := st.clone()
						v := tAdd(r, tInt(-256*d))
						if !s2.assume(tLe0(tAdd(v, tInt(-255))), true) || !s2.assume(tLe0(tScale(v, -1)), true) {
							continue
						}
						e2 := make(map[ssa.Value]*Term, len(env)+1)
						for k, x := range env {
							e2[k] = x
						}
						for k := range s2.facts.iv {
							if b := s2.facts.bounds(k); b.lo == b.hi {
								v = substLin(v, k, b.lo)
							}
						}
						e2[in] = v
						run(cont{s2, e2, c.defers}, i+1)
					}
					return
				}
				env[in] = r
			case *ssa.ChangeType:
				env[in] = V(in.X)
			case *ssa.ChangeInterface:
				env[in] = V(in.X)
			case *ssa.Convert:
				env[in] = w.convert(in, V(in.X))
			case *ssa.MultiConvert:
				env[in] = mk("conv", tstr(in.Type()), in.Type(), V(in.X))
			case *ssa.SliceToArrayPointer:
				env[in] = mk("arrptr", "", in.Type(), V(in.X))
			case *ssa.MakeInterface:
				x := V(in.X)
				t := mk("iface", tstr(in.X.Type()), in.Type(), x)
				t.Obj = in.X.Type()
				env[in] = t
			case *ssa.MakeClosure:
				f := in.Fn.(*ssa.Function)
				args := make([]*Term, len(in.Bindings))
				for j, b := range in.Bindings {
					args[j] = V(b)
				}
				t := mk("closure", f.String(), in.Type(), args...)
				t.Fn = f
				env[in] = t
			case *ssa.MakeMap:
				env[in] = mk("makemap", S(), in.Type())
			case *ssa.MakeChan:
				env[in] = mk("makechan", S(), in.Type(), V(in.Size))
			case *ssa.MakeSlice:
				t := mk("makeslice", S(), in.Type(), V(in.Len), V(in.Cap))
				et := elemType(in.Type())
				if t.Obj == nil {
					t.Obj = st.epoch["E:"+tstr(et)]
				}
				env[in] = t
				if w.Want["alloc"] {
					emit(&Event{Kind: "makeslice", Args: []*Term{V(in.Len), V(in.Cap)}, Res: t})
				}
			case *ssa.Slice:
				env[in] = w.slice(st, in, V, emit)
			case *ssa.Extract:
				tu := V(in.Tuple)
				if tu.Op == "tuple" && in.Index < len(tu.Args) {
					env[in] = tu.Args[in.Index]
				} else {
					env[in] = mk("ext", fmt.Sprint(in.Index), in.Type(), tu)
				}
			case *ssa.TypeAssert:
				x := V(in.X)
				var val, ok *Term
				if x.Op == "iface" {
					dt, _ := x.Obj.(types.Type)
					if dt != nil {
						if types.IsInterface(in.AssertedType) {
							ok = tBool(types.AssertableTo(in.AssertedType.Underlying().(*types.Interface), dt))
							val = x
						} else {
							ok = tBool(types.Identical(dt, in.AssertedType))
							val = x.Args[0]
						}
						if ok == tFalse {
							val = zeroTerm(in.AssertedType)
						}
					}
				}
				if val == nil {
					ok = mk("typeis", tstr(in.AssertedType), types.Typ[types.Bool], x)
					val = mk("asserted", tstr(in.AssertedType), in.AssertedType, x)
				}
				if in.CommaOk {
					env[in] = mk("tuple", "", nil, val, ok)
				} else {
					emit(&Event{Kind: "assert", Addr: x, Val: val, Args: []*Term{ok}})
					if st.assume(ok, true) {
						env[in] = val
					} else {
						return
					}
				}
			case *ssa.Lookup:
				if w.Want["lookup"] {
					emit(&Event{Kind: "lookup", Addr: V(in.X), Args: []*Term{V(in.Index)}})
				}
				w.lookup(st, env, in, V)
			case *ssa.Range:
				env[in] = mk("range", S(), nil, V(in.X))
				if env[in].Obj == nil {
					env[in].Obj = in.X.Type()
				}
			case *ssa.Next:
				rg := V(in.Iter)
				// the end of the iteration
				e2 := cloneEnv(env)
				s2 := st.clone()
				tt := in.Type().(*types.Tuple)
				e2[in] = mk("tuple", "", nil, tFalse, zeroOr(tt.At(1).Type()), zeroOr(tt.At(2).Type()))
				{
					ev := &Event{Kind: "rangeend", Addr: rg.Args[0], Instr: in, Fn: fr.fn, Depth: fr.depth, Stack: fr.stack()}
					w.event(s2, ev)
				}
				run(cont{s2, e2, c.defers}, i+1)
				k := mk("rangekey", S(), tt.At(1).Type(), rg)
				var v *Term
				if in.IsString {
					v = mk("rangeval", S(), types.Typ[types.Rune], rg)
				} else {
					mt := rg.Obj.(types.Type)
					m := rg.Args[0]
					k.T = mt.Underlying().(*types.Map).Key()
					a := mapAddr("mapelem", m, k, mt)
					v = w.loadMapElem(st, a, elemType(mt))
					st.mem[mapAddr("mappres", m, k, mt)] = tTrue
				}
				env[in] = mk("tuple", "", nil, tTrue, k, v)
				emit(&Event{Kind: "range", Addr: rg.Args[0], Args: []*Term{k, v}})
			case *ssa.Store:
				a, v := V(in.Addr), V(in.Val)
				ev := &Event{Kind: "store", Addr: a, Val: v, Key: termKey(a)}
				if w.Want["deref"] && a.Op != "field" && a.Op != "idx" {
					emit(&Event{Kind: "deref", Addr: a})
				}
				emit(ev)
				w.store(st, a, v, S())
			case *ssa.MapUpdate:
				m, k, v := V(in.Map), V(in.Key), V(in.Value)
				emit(&Event{Kind: "mapupdate", Addr: m, Args: []*Term{k}, Val: v, Key: "M:" + tstr(in.Map.Type())})
				w.mapStore(st, m, k, v, tTrue, in.Map.Type(), S())
			case *ssa.Send:
				emit(&Event{Kind: "send", Addr: V(in.Chan), Val: V(in.X)})
			case *ssa.Go:
				ev := w.callEvent(st, fr, env, in.Common())
				ev.Kind = "go"
				emit(ev)
				w.spawned(st, ev)
			case *ssa.Defer:
				d := &deferred{in: in}
				cm := in.Common()
				for _, a := range cm.Args {
					d.args = append(d.args, V(a))
				}
				if cm.IsInvoke() || cm.StaticCallee() == nil || len(cm.Args) == 0 || true {
					if _, ok := cm.Value.(*ssa.Builtin); !ok {
						d.fnv = V(cm.Value)
					}
				}
				c.defers = append(append([]*deferred{}, c.defers...), d)
				if w.Want["defer"] {
					ev := w.callEvent(st, fr, env, cm)
					ev.Kind = "defer"
					emit(ev)
				}
			case *ssa.RunDefers:
				ds := c.defers
				var chain func(st *State, env map[ssa.Value]*Term, j int)
				chain = func(st *State, env map[ssa.Value]*Term, j int) {
					if j < 0 {
						run(cont{st, env, nil}, i+1)
						return
					}
					d := ds[j]
					w.call(fr, inf, own, d.in, d.in.Common(), d.fnv, d.args, st, env, true, func(st2 *State, res *Term) {
						chain(st2, cloneEnv(env), j-1)
					}, addExit)
				}
				chain(st, env, len(ds)-1)
				return
			case *ssa.Call:
				cm := in.Common()
				var fnv *Term
				if _, ok := cm.Value.(*ssa.Builtin); !ok {
					fnv = V(cm.Value)
				}
				args := make([]*Term, len(cm.Args))
				for j, a := range cm.Args {
					args[j] = V(a)
				}
				n := 0
				w.call(fr, inf, own, in, cm, fnv, args, st, env, false, func(st2 *State, res *Term) {
					n++
					e2 := cloneEnv(env)
					e2[in] = res
					run(cont{st2, e2, c.defers}, i+1)
				}, addExit)
				return
			case *ssa.Select:
				for k := -1; k < len(in.States); k++ {
					if k < 0 && in.Blocking {
						continue
					}
					if k >= 0 && st.IsNil(V(in.States[k].Chan)) == yes {
						continue // never ready
					}
					s2, e2 := st.clone(), cloneEnv(env)
					w.synced(s2, S())
					var got *Term
					vals := []*Term{tInt(int64(k)), mk("recvok", S(), types.Typ[types.Bool])}
					for j, ss := range in.States {
						if ss.Dir == types.RecvOnly {
							et := ss.Chan.Type().Underlying().(*types.Chan).Elem()
							if j == k {
								got = mk("recv", S()+fmt.Sprintf("s%d", j), et, V(ss.Chan))
								vals = append(vals, got)
							} else {
								vals = append(vals, zeroOr(et))
							}
						}
					}
					e2[in] = mk("tuple", "", nil, vals...)
					ev := &Event{Select: true, Kind: "select", Args: []*Term{tInt(int64(k))}}
					if k >= 0 {
						ss := in.States[k]
						ev.Addr = V(ss.Chan)
						if ss.Dir == types.RecvOnly {
							ev.Kind = "recv"
							ev.Val = got
						} else {
							ev.Kind = "send"
							ev.Val = V(ss.Send)
						}
						ev.Args = nil
					}
					ev.Instr, ev.Fn, ev.Depth, ev.Stack = in, fr.fn, fr.depth, fr.stack()
					w.event(s2, ev)
					run(cont{s2, e2, c.defers}, i+1)
				}
				return
			case *ssa.If:
				cond := V(in.Cond)
				for j, out := range []bool{true, false} {
					s2 := st.clone()
					if !s2.assume(cond, out) {
						continue
					}
					own.defers = c.defers
					w.jump(fr, inf, own, it.b.Succs[j], s2, env, push)
				}
				return
			case *ssa.Jump:
				own.defers = c.defers
				w.jump(fr, inf, own, it.b.Succs[0], st, env, push)
				return
			case *ssa.Return:
				x := &Exit{St: st, Instr: in, Fn: fr.fn}
				for _, r := range in.Results {
					x.Rets = append(x.Rets, V(r))
				}
				addExit(x)
				return
			case *ssa.Panic:
				emit(&Event{Kind: "panic", Val: V(in.X)})
				addExit(&Exit{St: st, Panic: true, Instr: in, Fn: fr.fn})
				return
			default:
				if v, ok := in.(ssa.Value); ok {
					env[v] = mk("opaque", S(), v.Type())
				}
			}
		}
	}
	run(cont{it.st, it.env, it.defers}, 0)
}

func zeroOr(t types.Type) *Term {
	if t == nil {
		return tNil
	}
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return tNil
	}
	return zeroTerm(t)
}

func cloneEnv(e map[ssa.Value]*Term) map[ssa.Value]*Term {
	n := make(map[ssa.Value]*Term, len(e)+1)
	for k, v := range e {
		n[k] = v
	}
	return n
}

func (w *Walker) event(st *State, ev *Event) {
	switch ev.Kind {
	case "send", "mapupdate", "append", "go":
		st.escape(ev.Args...)
		st.escape(ev.Addr, ev.Val)
	}
	if w.OnEvent != nil && w.OnEvent(st, ev) {
		st.push(ev)
	}
}

func (w *Walker) binop(st *State, in *ssa.BinOp, a, b *Term) *Term {
	fl := isFloatT(in.X.Type())
	switch in.Op {
	case token.ADD:
		if isStr(in.Type()) {
			return tConcat(a, b)
		}
		if isNum(in.Type()) {
			return tAdd(a, b)
		}
	case token.SUB:
		if isNum(in.Type()) {
			return tSub(a, b)
		}
	case token.MUL:
		if a.Op == "int" {
			return tScale(b, a.C)
		}
		if b.Op == "int" {
			return tScale(a, b.C)
		}
		if fl && b.Op == "float" {
			// multiplying by the exact reciprocal of a power of two
			if _, den, ok := strings.Cut(b.Aux, "/"); ok && strings.HasPrefix(b.Aux, "1/") {
				if d, err := strconv.ParseInt(den, 10, 64); err == nil && d > 0 && d&(d-1) == 0 {
					return mk("bin", "/", in.Type(), a, tInt(d))
				}
			}
		}
	case token.EQL:
		return w.eq(st, a, b)
	case token.NEQ:
		return tNot(w.eq(st, a, b))
	case token.LSS:
		return tLt(a, b, fl)
	case token.GTR:
		return tLt(b, a, fl)
	case token.LEQ:
		return tNot(tLt(b, a, fl))
	case token.GEQ:
		return tNot(tLt(a, b, fl))
	case token.QUO:
		if b.Op == "int" && b.C == 1 {
			return a
		}
	case token.SHL:
		if b.Op == "int" && b.C >= 0 && b.C < 40 {
			return tScale(a, 1<<uint(b.C))
		}
	}
	switch in.Op {
	case token.MUL, token.AND, token.OR, token.XOR:
		if b.ID < a.ID {
			a, b = b, a
		}
	}
	return mk("bin", in.Op.String(), in.Type(), a, b)
}

func (w *Walker) eq(st *State, a, b *Term) *Term {
	// comparing an interface with a concrete sentinel
	return tEq(a, b)
}

func sizeOf(t types.Type) int64 { return types.SizesFor("gc", "amd64").Sizeof(t) }

func (w *Walker) convert(in *ssa.Convert, x *Term) *Term {
	from, to := in.X.Type().Underlying(), in.Type().Underlying()
	fb, ok1 := from.(*types.Basic)
	tb, ok2 := to.(*types.Basic)
	if ok1 && ok2 {
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			signs := fb.Info()&types.IsUnsigned != 0 && tb.Info()&types.IsUnsigned == 0 && sizeOf(to) == sizeOf(from) ||
				fb.Info()&types.IsUnsigned == 0 && tb.Info()&types.IsUnsigned != 0
			if w.KeepTrunc && x.Op != "int" && (sizeOf(to) < sizeOf(from) || w.KeepSign && signs) {
				return mk("trunc", tb.Name(), in.Type(), x)
			}
			return x
		}
		if x.Op == "int" && (tb.Info()&(types.IsFloat|types.IsInteger) != 0) {
			return x
		}
		if fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0 && sizeOf(to) >= sizeOf(from) {
			return x
		}
	}
	if ok1 && ok2 && x.Op == "int" && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0 && x.C >= 0 && x.C < utf8.RuneSelf {
		return tStr(string(rune(x.C)))
	}
	return mk("conv", tstr(to), in.Type(), x)
}

func (w *Walker) slice(st *State, in *ssa.Slice, V func(ssa.Value) *Term, emit func(*Event)) *Term {
	x := V(in.X)
	lo, hi := tInt(0), tNone
	if in.Low != nil {
		lo = V(in.Low)
	}
	if in.High != nil {
		hi = V(in.High)
	}
	if w.Want["index"] && (in.Low != nil || in.High != nil) {
		l := w.lenOf(st, x, in.X.Type())
		h := hi
		if h == tNone {
			h = l
		}
		ev := &Event{Kind: "slice", Args: []*Term{x, lo, h, l}}
		if hi == tNone {
			ev.Name = "open"
		}
		emit(ev)
	}
	_, isPtr := in.X.Type().Underlying().(*types.Pointer)
	if !isPtr && lo == tInt(0) && hi == tNone {
		return x
	}
	if x.Op == "str" && lo.Op == "int" && lo.C >= 0 && lo.C <= int64(len(x.Aux)) {
		if hi == tNone {
			return tStr(x.Aux[lo.C:])
		}
		if hi.Op == "int" && hi.C >= lo.C && hi.C <= int64(len(x.Aux)) {
			return tStr(x.Aux[lo.C:hi.C])
		}
	}
	if x.Op == "slice" {
		nlo := tAdd(x.Args[1], lo)
		nhi := x.Args[2]
		if hi != tNone {
			nhi = tAdd(x.Args[1], hi)
		}
		return mk("slice", "", in.Type(), x.Args[0], nlo, nhi)
	}
	if isPtr && hi.Op == "int" { // the whole array
		if a, ok := deref(in.X.Type()).Underlying().(*types.Array); ok && a.Len() == hi.C {
			hi = tNone
		}
	}
	return mk("slice", "", in.Type(), x, lo, hi)
}

func (w *Walker) lenOf(st *State, x *Term, t types.Type) *Term {
	switch x.Op {
	case "str":
		return tInt(int64(len(x.Aux)))
	case "nil":
		return tInt(0)
	case "makeslice":
		return x.Args[0]
	case "slice":
		var hi *Term
		if x.Args[2] != tNone {
			hi = x.Args[2]
		} else {
			hi = w.lenOf(st, x.Args[0], x.Args[0].T)
		}
		return tSub(hi, x.Args[1])
	case "append":
		return tAdd(w.lenOf(st, x.Args[0], x.Args[0].T), w.lenOf(st, x.Args[1], x.Args[1].T))
	case "snap":
		n := tInt(0)
		for i, a := range x.Args {
			if x.Aux[i] == 's' {
				n = tAdd(n, w.lenOf(st, a, a.T))
			} else {
				n = tAdd(n, tInt(1))
			}
		}
		return n
	case "conv":
		if t != nil && x.Args[0].T != nil && (isStr(x.Args[0].T)) {
			return w.lenOf(st, x.Args[0], x.Args[0].T)
		}
	}
	if t == nil {
		t = x.T
	}
	if t != nil {
		u := t.Underlying()
		if p, ok := u.(*types.Pointer); ok {
			u = p.Elem().Underlying()
		}
		if a, ok := u.(*types.Array); ok {
			return tInt(a.Len())
		}
		if _, ok := u.(*types.Map); ok {
			return mk("len", st.epoch["M:"+tstr(t)], types.Typ[types.Int], x)
		}
		if _, ok := u.(*types.Chan); ok {
			return mk("opaquelen", "", types.Typ[types.Int], x)
		}
	}
	return mk("len", "", types.Typ[types.Int], x)
}

func (w *Walker) loadMapElem(st *State, a *Term, et types.Type) *Term {
	if v := st.mem[a]; v != nil {
		return v
	}
	return mk("load", st.epoch[termKey(a)], et, a)
}

func (w *Walker) lookup(st *State, env map[ssa.Value]*Term, in *ssa.Lookup, V func(ssa.Value) *Term) {
	m, k := V(in.X), V(in.Index)
	mt, isMap := in.X.Type().Underlying().(*types.Map)
	if !isMap {
		env[in] = mk("elem", "", in.Type(), m, k)
		return
	}
	a := mapAddr("mapelem", m, k, in.X.Type())
	pa := mapAddr("mappres", m, k, in.X.Type())
	var pres *Term
	if v := st.mem[pa]; v != nil {
		pres = v
	} else if m == tNil {
		pres = tFalse
	} else if m.Op == "makemap" && st.epoch[termKey(pa)] == "" && w.mapClean(st, m) {
		pres = tFalse
	} else {
		pres = mk("present", st.epoch[termKey(pa)], types.Typ[types.Bool], pa)
	}
	var v *Term
	if st.Truth(pres) == no {
		v = zeroTerm(mt.Elem())
	} else {
		v = w.loadMapElem(st, a, mt.Elem())
	}
	if in.CommaOk {
		env[in] = mk("tuple", "", nil, v, pres)
	} else {
		env[in] = v
	}
}

func (w *Walker) mapClean(st *State, m *Term) bool {
	for x := range st.mem {
		if (x.Op == "mapelem" || x.Op == "mappres") && x.Args[0] == m {
			return false
		}
	}
	return true
}

func (w *Walker) mapStore(st *State, m, k, v, pres *Term, mt types.Type, tag string) {
	key := "M:" + tstr(mt)
	for x := range st.mem {
		if x.Op != "mapelem" && x.Op != "mappres" || termKey(x) != key {
			continue
		}
		if x.Args[0] != m && (noAlias(x.Args[0], m) || x.Args[0].Op == "makemap" && m.Op == "makemap") {
			continue
		}
		if x.Args[0] == m && st.Truth(tEq(x.Args[1], k)) == no {
			continue
		}
		if x.Args[0] == m && x.Args[1] == k {
			continue
		}
		delete(st.mem, x)
	}
	st.epoch[key] = "m" + tag
	st.mem[mapAddr("mapelem", m, k, mt)] = v
	st.mem[mapAddr("mappres", m, k, mt)] = pres
}

// callee names
func (w *Walker) calleeName(cm *ssa.CallCommon, fnv *Term) (string, *ssa.Function, []*Term) {
	if cm.IsInvoke() {
		return "iface:" + tstr(cm.Value.Type()) + "." + cm.Method.Name(), nil, nil
	}
	if f := cm.StaticCallee(); f != nil {
		var free []*Term
		if fnv != nil && fnv.Op == "closure" {
			free = fnv.Args
		}
		return f.String(), f, free
	}
	if b, ok := cm.Value.(*ssa.Builtin); ok {
		return "builtin:" + b.Name(), nil, nil
	}
	if fnv != nil {
		if fnv.Op == "closure" {
			return fnv.Fn.String(), fnv.Fn, fnv.Args
		}
		if fnv.Op == "func" {
			return fnv.Fn.String(), fnv.Fn, nil
		}
	}
	return "dyn", nil, nil
}

func (w *Walker) callEvent(st *State, fr *frame, env map[ssa.Value]*Term, cm *ssa.CallCommon) *Event {
	var fnv *Term
	if _, ok := cm.Value.(*ssa.Builtin); !ok {
		fnv = w.val(fr, env, cm.Value)
	}
	name, f, _ := w.calleeName(cm, fnv)
	ev := &Event{Kind: "call", Name: name, Static: f, Sig: cm.Signature()}
	if cm.IsInvoke() || name == "dyn" {
		ev.Args = append(ev.Args, fnv)
	}
	for _, a := range cm.Args {
		ev.Args = append(ev.Args, w.snapArg(st, w.val(fr, env, a)))
	}
	ev.Val = nil
	if fnv != nil && fnv.Op == "closure" {
		ev.Addr = fnv
	}
	return ev
}

func (w *Walker) snapArg(st *State, t *Term) *Term {
	if t.Op == "slice" && t.Args[0].Op == "alloc" || t.Op == "append" || t.Op == "makeslice" {
		c := w.Content(st, t)
		if c != t {
			return c
		}
		if es, ok := w.SliceElems(st, t); ok && !(len(es) == 1 && es[0].t == t) {
			return snapOf(es, t.T)
		}
	}
	return t
}

func snapOf(es []elemPart, ty types.Type) *Term {
	flags := make([]byte, len(es))
	args := make([]*Term, len(es))
	for i, e := range es {
		flags[i] = 'e'
		if e.spread {
			flags[i] = 's'
		}
		args[i] = e.t
	}
	return mk("snap", string(flags), ty, args...)
}

func resTerm(sig *types.Signature, t func(i int, ty types.Type) *Term) *Term {
	r := sig.Results()
	switch r.Len() {
	case 0:
		return tNone
	case 1:
		return t(0, r.At(0).Type())
	}
	args := make([]*Term, r.Len())
	for i := range args {
		args[i] = t(i, r.At(i).Type())
	}
	return mk("tuple", "", nil, args...)
}

// relevant: may the function (transitively) execute an instruction of interest
func (w *Walker) relevant(f *ssa.Function) bool {
	switch w.relMemo[f] {
	case 1:
		return true
	case 2:
		return false
	}
	res := false
	seen := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function) bool
	rec = func(g *ssa.Function) bool {
		if seen[g] || len(g.Blocks) == 0 || g != f && w.Opaque != nil && w.Opaque(g) {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if w.Relevant(g, in) {
					return true
				}
			}
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Go:
				case ssa.CallInstruction:
					if h := in.Common().StaticCallee(); h != nil && w.P.isRepo(h) && rec(h) {
						return true
					}
				case *ssa.MakeClosure:
					if rec(in.Fn.(*ssa.Function)) {
						return true
					}
				}
			}
		}
		return false
	}
	res = rec(f)
	if res {
		w.relMemo[f] = 1
	} else {
		w.relMemo[f] = 2
	}
	return res
}

func (w *Walker) small(f *ssa.Function) bool {
	n := 0
	for _, b := range f.Blocks {
		n += len(b.Instrs)
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
	}
	return len(f.Blocks) <= 8 && n <= 60
}

func (w *Walker) inlineOK(fr *frame, f *ssa.Function) bool {
	if f == nil || len(f.Blocks) == 0 || w.NoInline {
		return false
	}
	if !w.P.isRepo(f) && f.Synthetic == "" {
		return false
	}
	if f.Synthetic != "" && !strings.Contains(f.Synthetic, "wrapper") && !strings.Contains(f.Synthetic, "bound") && !strings.Contains(f.Synthetic, "thunk") {
		return false
	}
	if w.Opaque != nil && w.Opaque(f) {
		return false
	}
	if w.SamePkg && f.Pkg != nil {
		r := fr
		for r.parent != nil {
			r = r.parent
		}
		if unwrap(r.fn).Pkg != f.Pkg {
			return false
		}
	}
	if fr.depth >= w.MaxDepth {
		return false
	}
	for g := fr; g != nil; g = g.parent {
		if g.fn == f {
			return false
		}
	}
	if w.Relevant != nil && !w.relevant(f) && !w.small(f) {
		return false
	}
	return true
}

func (w *Walker) call(fr *frame, inf *fnInfo, it *item, in ssa.Instruction, cm *ssa.CallCommon, fnv *Term, args []*Term,
	st *State, env map[ssa.Value]*Term, deferredCall bool, k func(*State, *Term), addExit func(*Exit)) {

	site := w.site(fr, inf, it, in)
	if deferredCall {
		site += "d"
	}
	w.NCalls++
	if b, ok := cm.Value.(*ssa.Builtin); ok {
		w.builtin(fr, inf, it, in, cm, b.Name(), args, st, site, deferredCall, k)
		return
	}
	name, f, free := w.calleeName(cm, fnv)
	evArgs := args
	if cm.IsInvoke() {
		evArgs = append([]*Term{fnv}, args...)
		// resolve by the known dynamic type
		if fnv.Op == "iface" {
			if dt, _ := fnv.Obj.(types.Type); dt != nil {
				ms := types.NewMethodSet(dt)
				if s := ms.Lookup(cm.Method.Pkg(), cm.Method.Name()); s != nil {
					if g := w.P.SSA.MethodValue(s); g != nil {
						f = g
						name = unwrap(g).String()
						evArgs = append([]*Term{fnv.Args[0]}, args...)
					}
				}
			}
		}
		if f == nil && w.Resolve != nil {
			if g := w.Resolve(cm, fnv); g != nil {
				f = g
				name = g.String()
			}
		}
	}
	sn := make([]*Term, len(evArgs))
	for i, a := range evArgs {
		sn[i] = w.snapArg(st, a)
	}
	ev := &Event{Kind: "call", Name: name, Static: f, Args: sn, Defer: deferredCall, Sig: cm.Signature(),
		Instr: in, Fn: fr.fn, Depth: fr.depth, Stack: fr.stack()}
	if name == "dyn" {
		ev.Addr = fnv
	}

	if w.Model != nil {
		if res, ok := w.Model(st, ev, args); ok {
			st.escape(args...)
			ev.Res = res
			w.event(st, ev)
			k(st, res)
			return
		}
	}

	if res, ok := w.textBuf(st, ev, args); ok {
		k(st, res)
		return
	}

	// inlined
	if f != nil && w.inlineOK(fr, f) {
		w.NInlined++
		if w.Want["enter"] {
			e2 := *ev
			e2.Kind = "enter"
			w.event(st, &e2)
		}
		var roots []*Term
		for _, t := range env {
			roots = append(roots, t)
		}
		for _, d := range it.defers {
			roots = append(roots, d.args...)
			if d.fnv != nil {
				roots = append(roots, d.fnv)
			}
		}
		for _, x := range w.exec(f, evArgs, free, st, fr, in, roots) {
			if x.Panic {
				addExit(x)
				continue
			}
			var res *Term = tNone
			if len(x.Rets) == 1 {
				res = x.Rets[0]
			} else if len(x.Rets) > 1 {
				res = mk("tuple", "", nil, x.Rets...)
			}
			k(x.St, res)
		}
		return
	}

	// calls running a closure: transactions
	kind := ""
	if callsThrough(name) {
		kind = "tx"
	} else if w.Through != nil {
		kind = w.Through(name)
	}
	if kind != "" && len(args) > 0 {
		cl := args[len(args)-1]
		for cl.Op == "changetype" || cl.Op == "conv" {
			cl = cl.Args[0]
		}
		if kind == "each" && (cl.Op == "closure" || cl.Op == "func") && cl.Fn != nil && w.inlineOK(fr, cl.Fn) {
			w.each(fr, it, in, ev, cl, st, env, site, k, addExit)
			return
		}
		if (cl.Op == "closure" || cl.Op == "func") && cl.Fn != nil && w.inlineOK(fr, cl.Fn) {
			w.through(fr, inf, it, in, name, ev, cl, st, env, site, k, addExit)
			return
		}
	}

	if isNoReturn(name) {
		ev.Res = tNone
		w.event(st, ev)
		addExit(&Exit{St: st, Panic: true, Instr: in, Fn: fr.fn})
		return
	}

	// byte order conversions
	if n := endian(name); n != 0 && len(args) >= 2 {
		w.endianCall(st, ev, name, n, args, k)
		return
	}

	// opaque
	pure := isPureExternal(name)
	ev.Res = resTerm(cm.Signature(), func(i int, ty types.Type) *Term {
		if pure {
			if name == "strings.TrimSpace" && sn[0].Op == "str" {
				return tStr(strings.TrimSpace(sn[0].Aux))
			}
			return mk("pure", fmt.Sprintf("%s#%d", name, i), ty, sn...)
		}
		switch name {
		case "errors.New", "fmt.Errorf":
			return mk("newerr", site, ty, sn...)
		}
		return mk("call", fmt.Sprintf("%s#%d@%s", name, i, site), ty, sn...)
	})
	if ev.Res.Op == "pure" && strings.HasPrefix(name, "encoding/binary") {
		ev.Res.T = cm.Signature().Results().At(0).Type()
	}
	w.event(st, ev)
	if !pure {
		st.escape(evArgs...)
		st.escape(fnv)
		w.effects(st, cm, name, f, fnv, evArgs, site)
	}
	if w.Fork != nil {
		if alts := w.Fork(st, ev); len(alts) > 0 {
			for i, alt := range alts {
				s2 := st.clone()
				ok := true
				for _, a := range alt {
					ok = ok && s2.assume(a, true)
				}
				if ok {
					s2.auto["fork"] += fmt.Sprintf(",%d@%s", i, site)
					k(s2, ev.Res)
				}
			}
			return
		}
	}
	k(st, ev.Res)
}

// effects of a call that is not analysed in place
func (w *Walker) effects(st *State, cm *ssa.CallCommon, name string, f *ssa.Function, fnv *Term, args []*Term, site string) {
	keys := map[string]bool{}
	var fns []*ssa.Function
	if f != nil {
		if w.P.isRepo(f) {
			fns = append(fns, f)
		}
	} else {
		fns = w.P.calleesOf(cm)
	}
	for _, g := range fns {
		for kx := range w.P.Mods(g) {
			keys[kx] = true
		}
	}
	w.havocKeys(st, keys, "c"+site)
	switch name {
	case "(*sync.WaitGroup).Wait", "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		w.synced(st, "c"+site)
	}
	wr := externalWrites(name)
	for i, a := range args {
		if a.Op == "iface" && a.Args[0].Op == "alloc" && f != nil && len(fns) == 0 && !readsOnly(name) {
			w.havocAt(st, a.Args[0], "c"+site)
		}
		switch {
		case a.Op == "closure":
			cs := closureStores(a.Fn, map[*ssa.Function]bool{})
			for j, b := range a.Args {
				if cs[j] {
					w.havocAt(st, b, "c"+site+fmt.Sprint(j))
				}
			}
			if len(fns) == 0 {
				w.havocKeys(st, w.P.Mods(a.Fn), "c"+site)
			}
		case a.Op == "alloc" && len(fns) > 0:
			if pk := "P:" + tstr(deref(a.T)); keys[pk] || structTouched(deref(a.T), keys) {
				w.havocAt(st, a, "c"+site)
			}
		case len(fns) > 0 && (a.Op == "field" || a.Op == "idx"):
			if a.T != nil && keys["P:"+tstr(deref(a.T))] {
				w.store(st, a, mk("havoc", "c"+site+fmt.Sprint(i), deref(a.T)), "c"+site)
			}
		case len(fns) == 0 && f == nil && a.Op == "alloc": // unknown function
			w.havocAt(st, a, "c"+site)
		}
		for _, x := range wr {
			if x == i {
				b := a
				if b.Op == "iface" {
					b = b.Args[0]
				}
				w.havocAt(st, b, "c"+site)
				if b.Op != "alloc" && b.T != nil {
					if et := elemType(b.T); et != nil {
						w.havocKeys(st, map[string]bool{"E:" + tstr(et): true}, "c"+site)
					}
				}
			}
		}
	}
}

func structTouched(t types.Type, keys map[string]bool) bool {
	m := map[string]bool{}
	structFieldKeys(t, m)
	for k := range m {
		if keys[k] {
			return true
		}
	}
	return false
}

// through models db.Update(f), db.View(f) and once.Do(f)
func (w *Walker) through(fr *frame, inf *fnInfo, it *item, in ssa.Instruction, name string, ev *Event, cl *Term, st *State,
	env map[ssa.Value]*Term, site string, k func(*State, *Term), addExit func(*Exit)) {
	var roots []*Term
	for _, t := range env {
		roots = append(roots, t)
	}
	for _, d := range it.defers {
		roots = append(roots, d.args...)
	}
	kind := name[strings.LastIndex(name, ".")+1:]
	once := w.Through != nil && w.Through(name) == "run"
	if kind == "Tx" { // of the index
		kind = "Update"
	}
	beg := *ev
	beg.Kind, beg.Name = "begin", kind
	beg.Args = ev.Args[:1]
	w.event(st, &beg)
	var args []*Term
	for _, p := range cl.Fn.Params {
		args = append(args, mk("tx", kind+site, p.Type()))
	}
	if kind == "Do" {
		s2 := st.clone()
		k(s2, tNone) // already done
	} else if once {
		// always done
	} else {
		// the transaction cannot be started
		s2 := st.clone()
		e := mk("dberr", site+"b", types.Universe.Lookup("error").Type())
		s2.assume(tEq(e, tNil), false)
		end := beg
		end.Kind, end.Name, end.Tag = "end", kind, "nostart"
		w.event(s2, &end)
		k(s2, e)
	}
	for _, x := range w.exec(cl.Fn, args, cl.Args, st, fr, in, roots) {
		if x.Panic {
			addExit(x)
			continue
		}
		if kind == "Do" || once {
			k(x.St, tNone)
			continue
		}
		r := x.Rets[len(x.Rets)-1]
		// error: roll back
		s2 := x.St.clone()
		if s2.assume(tEq(r, tNil), false) {
			end := beg
			end.Kind, end.Name, end.Tag = "end", kind, "rollback"
			w.event(s2, &end)
			k(s2, r)
		}
		s3 := x.St.clone()
		if s3.assume(tEq(r, tNil), true) {
			if kind != "View" {
				s4 := s3.clone()
				e := mk("dberr", site+"c", types.Universe.Lookup("error").Type())
				s4.assume(tEq(e, tNil), false)
				end := beg
				end.Kind, end.Name, end.Tag = "end", kind, "commitfail"
				w.event(s4, &end)
				k(s4, e)
			}
			end := beg
			end.Kind, end.Name, end.Tag = "end", kind, "commit"
			w.event(s3, &end)
			k(s3, tNil)
		}
	}
}

// each models an iteration with a callback: the first round from the state of
// the call, further rounds from an arbitrary state of what rounds change
func (w *Walker) each(fr *frame, it *item, in ssa.Instruction, ev *Event, cl *Term, st *State,
	env map[ssa.Value]*Term, site string, k func(*State, *Term), addExit func(*Exit)) {
	var roots []*Term
	for _, t := range env {
		roots = append(roots, t)
	}
	for _, d := range it.defers {
		roots = append(roots, d.args...)
	}
	errT := types.Universe.Lookup("error").Type()
	stop := mk("sentinel", modPath+"/data.ErrStopIteration", nil)
	beg := *ev
	beg.Kind = "each"
	beg.Addr = ev.Args[0]
	w.event(st, &beg)
	end := func(st *State, tag string, res *Term) {
		e := beg
		e.Kind, e.Tag, e.Res = "eachend", tag, res
		w.event(st, &e)
		k(st, res)
	}
	// the database fails
	s := st.clone()
	fail := mk("dberr", site+"e", errT)
	s.assume(tEq(fail, tNil), false)
	s.assume(tEq(fail, stop), false)
	end(s, "fail", fail)
	end(st.clone(), "none", tNil)
	cs := closureStores(cl.Fn, map[*ssa.Function]bool{})
	havoc := func(s *State, tag string) {
		w.havocKeys(s, w.P.Mods(cl.Fn), "e"+tag+site)
		for j, b := range cl.Args {
			if cs[j] {
				w.havocAt(s, b, "e"+tag+site+fmt.Sprint(j))
			}
		}
	}
	goesOn := false
	for round, tag := range []string{"first", "more"} {
		pre := st.clone()
		if round == 1 {
			if !goesOn {
				return
			}
			havoc(pre, tag)
			end(pre.clone(), "all", tNil)
		}
		var args []*Term
		for i, p := range cl.Fn.Params {
			args = append(args, mk("record", fmt.Sprintf("%s%d%s", tag, i, site), p.Type()))
		}
		call := beg
		call.Kind, call.Tag, call.Args = "eachcall", tag, append([]*Term{ev.Args[0]}, args...)
		w.event(pre, &call)
		for _, a := range args {
			if _, ok := a.T.Underlying().(*types.Pointer); ok {
				pre.assume(tEq(a, tNil), false)
			}
		}
		for _, x := range w.exec(cl.Fn, args, cl.Args, pre.clone(), fr, in, roots) {
			if x.Panic {
				addExit(x)
				continue
			}
			r := x.Rets[len(x.Rets)-1]
			if s := x.St.clone(); s.assume(tEq(r, tNil), true) {
				goesOn = true
				if w.OnEach != nil {
					w.OnEach(&call, args, pre, &Exit{St: s, Rets: x.Rets, Instr: x.Instr, Fn: x.Fn})
				}
			}
			if s := x.St.clone(); s.assume(tEq(r, stop), true) {
				end(s, "stop", tNil)
			}
			if s := x.St.clone(); s.assume(tEq(r, tNil), false) && s.assume(tEq(r, stop), false) {
				end(s, "err", r)
			}
		}
	}
}

func (w *Walker) builtin(fr *frame, inf *fnInfo, it *item, in ssa.Instruction, cm *ssa.CallCommon, name string, args []*Term,
	st *State, site string, deferredCall bool, k func(*State, *Term)) {
	emit := func(ev *Event) {
		ev.Instr, ev.Fn, ev.Depth, ev.Stack, ev.Defer = in, fr.fn, fr.depth, fr.stack(), deferredCall
		w.event(st, ev)
	}
	switch name {
	case "len":
		k(st, w.lenOf(st, args[0], cm.Args[0].Type()))
	case "cap":
		if args[0].Op == "makeslice" {
			k(st, args[0].Args[1])
			return
		}
		k(st, mk("cap", "", types.Typ[types.Int], args[0]))
	case "append":
		b := w.snapArg(st, args[1])
		t := mk("append", "", cm.Args[0].Type(), w.snapArg(st, args[0]), b)
		if args[0] == tNil && b.Op == "snap" {
			t = b
		}
		emit(&Event{Kind: "append", Args: []*Term{args[0], b}, Res: t})
		k(st, t)
	case "min", "max":
		if len(args) != 2 || !isNum(cm.Args[0].Type()) || isFloatT(cm.Args[0].Type()) {
			k(st, mk("pure", name, cm.Args[0].Type(), args...))
			break
		}
		a, b := args[0], args[1]
		if name == "max" {
			a, b = b, a
		}
		le := tLe0(tSub(a, b)) // the first is not above
		if s2 := st.clone(); s2.assume(le, true) {
			k(s2, args[0])
		}
		if st.assume(le, false) {
			k(st, args[1])
		}
	case "copy":
		dst, src := args[0], w.Content(st, args[1])
		emit(&Event{Kind: "copy", Args: []*Term{dst, src}})
		d := dst
		if d.Op == "slice" && d.Args[0].Op == "alloc" {
			a := d.Args[0]
			full := d.Args[1] == tInt(0) && d.Args[2] == tNone
			w.havocAt(st, a, "copy"+site)
			if full {
				st.mem[a] = mk("copied", "", deref(a.T), src)
			}
		} else if rootTerm(d).Op == "makeslice" {
			// a slice of our own: forget what is overwritten
			r, lo := rootTerm(d), tInt(0)
			if d.Op == "slice" {
				lo = d.Args[1]
			}
			for a := range st.mem {
				switch {
				case a.Op == "idx" && a.Args[0] == r && (lo.Op != "int" || a.Args[1].Op != "int" || a.Args[1].C >= lo.C):
					delete(st.mem, a)
				case a.Op == "contents" && a.Args[0] == d:
					delete(st.mem, a)
				}
			}
			st.mem[mk("contents", "", nil, dst)] = mk("copied", "", nil, src)
		} else if et := elemType(cm.Args[0].Type()); et != nil {
			w.havocKeys(st, map[string]bool{"E:" + tstr(et): true}, "copy"+site)
			st.mem[mk("contents", "", nil, dst)] = mk("copied", "", nil, src)
		}
		k(st, mk("call", "copy#0@"+site, types.Typ[types.Int]))
	case "delete":
		mt := cm.Args[0].Type()
		emit(&Event{Kind: "mapdelete", Addr: args[0], Args: []*Term{args[1]}, Key: "M:" + tstr(mt)})
		w.mapStore(st, args[0], args[1], zeroTerm(elemType(mt)), tFalse, mt, site)
		k(st, tNone)
	case "close":
		emit(&Event{Kind: "close", Addr: args[0]})
		k(st, tNone)
	case "panic":
		emit(&Event{Kind: "panic", Val: args[0]})
	case "recover":
		k(st, mk("call", "recover@"+site, cm.Signature().Results().At(0).Type()))
	default:
		r := tNone
		if cm.Signature().Results().Len() == 1 {
			r = mk("call", "builtin."+name+"#0@"+site, cm.Signature().Results().At(0).Type(), args...)
		}
		k(st, r)
	}
}

// endian: size in bytes of a byte order conversion; negative: write
func endian(name string) int {
	if !strings.HasPrefix(name, "(encoding/binary.bigEndian).") && !strings.HasPrefix(name, "(encoding/binary.littleEndian).") {
		return 0
	}
	switch name[strings.LastIndex(name, ".")+1:] {
	case "Uint16":
		return 2
	case "Uint32":
		return 4
	case "Uint64":
		return 8
	case "PutUint16":
		return -2
	case "PutUint32":
		return -4
	case "PutUint64":
		return -8
	}
	return 0
}

// endianCall: bytes written are terms byte(v,k); a read of such bytes in
// order gives v back, any other read is a term of the slice and the offset
func (w *Walker) endianCall(st *State, ev *Event, name string, n int, args []*Term, k func(*State, *Term)) {
	order := "be"
	if strings.Contains(name, "little") {
		order = "le"
	}
	u8 := types.Typ[types.Uint8]
	s := args[1]
	if n < 0 {
		ev.Res = tNone
		w.event(st, ev)
		for i := 0; i < -n; i++ {
			w.store(st, idxTerm(s, tInt(int64(i)), u8), mk("byte", fmt.Sprintf("%s%d.%d", order, -n, i), u8, args[2]), "put")
		}
		k(st, tNone)
		return
	}
	rt := ev.Sig.Results().At(0).Type()
	var v *Term
	for i := 0; i < n; i++ {
		b := w.known(st, idxTerm(s, tInt(int64(i)), u8))
		if b == nil {
			if es, ok := w.SliceElems(st, s); ok && i < len(es) {
				all := true
				for _, e := range es[:i+1] {
					all = all && !e.spread
				}
				if all {
					b = es[i].t
				}
			}
		}
		if b == nil || b.Op != "byte" || b.Aux != fmt.Sprintf("%s%d.%d", order, n, i) || v != nil && b.Args[0] != v {
			v = nil
			break
		}
		v = b.Args[0]
	}
	if v == nil {
		base, off := s, tInt(0)
		if s.Op == "slice" {
			base, off = s.Args[0], s.Args[1]
		}
		if c := w.bytesContent(st, s); c != s && off == tInt(0) {
			for c.Op == "copied" || c.Op == "bytesof" {
				c = c.Args[0]
			}
			base = c
		}
		ep := ""
		if base.Op == "alloc" || base.Op == "makeslice" {
			ep = st.epoch["E:uint8"]
		}
		v = mk("endian", fmt.Sprintf("%s%d/%s", order, n, ep), rt, base, off)
	}
	ev.Res = v
	w.event(st, ev)
	k(st, v)
}

func isUint8(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// substLin replaces an atom by a number
func substLin(v, atom *Term, c int64) *Term {
	l, k := lin(v)
	var out []linT
	for _, x := range l {
		if x.t == atom {
			k += x.k * c
		} else {
			out = append(out, x)
		}
	}
	return mkLin(out, k, v.T)
}
