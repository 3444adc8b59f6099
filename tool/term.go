package main

// Terms: hash-consed value numbers of the abstract interpreter. Two program
// values with the same term are equal on the analysed path (Herbrand
// equivalence); integer and floating sums are kept in linear normal form.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type linT struct {
	t *Term
	k int64
}

type Term struct {
	ID   int
	Op   string
	Aux  string
	Args []*Term
	T    types.Type
	Fn   *ssa.Function // func, closure
	Lin  []linT        // aff
	C    int64         // aff, int
	Obj  interface{}   // whatever made the term (for reports)
}

var (
	termTab = map[string]*Term{}
	termSeq int
)

func mk(op, aux string, t types.Type, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(aux)
	for _, a := range args {
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(a.ID))
	}
	if op == "param" && t != nil { // parameters of different functions may share a name
		b.WriteString("|" + t.String())
	}
	k := b.String()
	if x := termTab[k]; x != nil {
		return x
	}
	termSeq++
	x := &Term{ID: termSeq, Op: op, Aux: aux, Args: args, T: t}
	termTab[k] = x
	return x
}

var (
	tNil   = mk("nil", "", nil)
	tTrue  = mk("bool", "true", types.Typ[types.Bool])
	tFalse = mk("bool", "false", types.Typ[types.Bool])
)

func tInt(v int64) *Term {
	x := mk("int", strconv.FormatInt(v, 10), types.Typ[types.Int])
	x.C = v
	return x
}

func tStr(s string) *Term { return mk("str", s, types.Typ[types.String]) }

func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroTerm(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return tBool(constant.BoolVal(c.Value))
	case constant.String:
		return tStr(constant.StringVal(c.Value))
	case constant.Int:
		if v, ok := constant.Int64Val(c.Value); ok {
			return tInt(v)
		}
		return mk("big", c.Value.ExactString(), c.Type())
	case constant.Float:
		if f, ok := constant.Float64Val(c.Value); ok && f == float64(int64(f)) {
			return tInt(int64(f))
		}
		return mk("float", c.Value.ExactString(), c.Type())
	}
	return mk("const", c.Value.ExactString(), c.Type())
}

func zeroTerm(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return tStr("")
		case u.Info()&(types.IsInteger|types.IsFloat) != 0:
			return tInt(0)
		}
		return tNil
	case *types.Struct, *types.Array:
		return mk("zero", types.TypeString(t, nil), t)
	}
	return tNil
}

// linear part and constant of a numeric term
func lin(t *Term) ([]linT, int64) {
	switch t.Op {
	case "int":
		return nil, t.C
	case "aff":
		return t.Lin, t.C
	}
	return []linT{{t, 1}}, 0
}

func mkLin(ls []linT, c int64, ty types.Type) *Term {
	m := map[*Term]int64{}
	for _, l := range ls {
		m[l.t] += l.k
	}
	var out []linT
	for t, k := range m {
		if k != 0 {
			out = append(out, linT{t, k})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].t.ID < out[j].t.ID })
	if len(out) == 0 {
		return tInt(c)
	}
	if len(out) == 1 && out[0].k == 1 && c == 0 {
		return out[0].t
	}
	var aux strings.Builder
	args := make([]*Term, len(out))
	for i, l := range out {
		fmt.Fprintf(&aux, "%d,", l.k)
		args[i] = l.t
	}
	fmt.Fprintf(&aux, ";%d", c)
	x := mk("aff", aux.String(), ty, args...)
	x.Lin, x.C = out, c
	return x
}

func tAdd(a, b *Term) *Term {
	la, ca := lin(a)
	lb, cb := lin(b)
	return mkLin(append(append([]linT{}, la...), lb...), ca+cb, a.T)
}

func tScale(a *Term, k int64) *Term {
	la, ca := lin(a)
	out := make([]linT, len(la))
	for i, l := range la {
		out[i] = linT{l.t, l.k * k}
	}
	return mkLin(out, ca*k, a.T)
}

func tSub(a, b *Term) *Term { return tAdd(a, tScale(b, -1)) }

func isNum(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsFloat) != 0
}

func isFloatT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func tNot(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.Op == "not":
		return a.Args[0]
	}
	return mk("not", "", types.Typ[types.Bool], a)
}

// the numeric comparison d <= 0 (ints) with d in normal form
func tLe0(d *Term) *Term {
	if d.Op == "int" {
		return tBool(d.C <= 0)
	}
	return mk("le0", "", types.Typ[types.Bool], d)
}

// float d < 0
func tLt0f(d *Term) *Term {
	if d.Op == "int" {
		return tBool(d.C < 0)
	}
	return mk("lt0f", "", types.Typ[types.Bool], d)
}

func normSign(d *Term) *Term {
	l, c := lin(d)
	if len(l) > 0 && l[0].k < 0 || len(l) == 0 && c < 0 {
		return tScale(d, -1)
	}
	return d
}

func isRigid(t *Term) bool {
	switch t.Op {
	case "nil", "bool", "int", "str", "big", "float", "const", "zero", "sentinel", "alloc", "func", "closure", "makemap", "makechan", "makeslice", "global":
		return true
	}
	return false
}

// two rigid terms with different values
func rigidDistinct(a, b *Term) bool {
	if a == b || !isRigid(a) || !isRigid(b) {
		return false
	}
	return true
}

func nonNil(t *Term) bool {
	switch t.Op {
	case "sentinel", "alloc", "func", "closure", "makemap", "makechan", "makeslice", "global", "iface", "field", "idx", "newerr", "bool", "int", "str", "struct":
		return true
	case "slice":
		return nonNil(t.Args[0])
	case "append":
		return false
	}
	return false
}

func tEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	num := isNum(a.T) || isNum(b.T) || a.Op == "aff" || b.Op == "aff" || a.Op == "int" || b.Op == "int"
	if num {
		d := normSign(tSub(a, b))
		if d.Op == "int" {
			return tBool(d.C == 0)
		}
		return mk("eq0", "", types.Typ[types.Bool], d)
	}
	if a.Op == "bool" {
		a, b = b, a
	}
	if b == tTrue {
		return a
	}
	if b == tFalse {
		return tNot(a)
	}
	if a.Op == "iface" && b.Op == "iface" {
		return tEq(a.Args[0], b.Args[0])
	}
	if rigidDistinct(a, b) {
		return tFalse
	}
	if a == tNil && nonNil(b) || b == tNil && nonNil(a) {
		return tFalse
	}
	if b.ID < a.ID {
		a, b = b, a
	}
	return mk("eq", "", types.Typ[types.Bool], a, b)
}

func tLt(a, b *Term, fl bool) *Term {
	if fl {
		return tLt0f(tSub(a, b))
	}
	if isStrTerm(a) || isStrTerm(b) {
		return mk("slt", "", types.Typ[types.Bool], a, b)
	}
	return tLe0(tAdd(tSub(a, b), tInt(1)))
}

func isStrTerm(a *Term) bool { return a.Op == "str" || a.T != nil && isStr(a.T) }

func tConcat(a, b *Term) *Term {
	var parts []*Term
	for _, x := range []*Term{a, b} {
		if x.Op == "concat" {
			parts = append(parts, x.Args...)
		} else {
			parts = append(parts, x)
		}
	}
	var out []*Term
	for _, x := range parts {
		if x.Op == "str" && x.Aux == "" {
			continue
		}
		if n := len(out); n > 0 && out[n-1].Op == "str" && x.Op == "str" {
			out[n-1] = tStr(out[n-1].Aux + x.Aux)
			continue
		}
		out = append(out, x)
	}
	switch len(out) {
	case 0:
		return tStr("")
	case 1:
		return out[0]
	}
	return mk("concat", "", types.Typ[types.String], out...)
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<none>"
	}
	if d > 6 {
		return "…"
	}
	switch t.Op {
	case "nil":
		return "nil"
	case "bool", "int", "big", "float", "const":
		return t.Aux
	case "str":
		return strconv.Quote(t.Aux)
	case "param", "sentinel", "global", "func", "free":
		return t.Aux
	case "aff":
		var b strings.Builder
		b.WriteByte('(')
		for i, l := range t.Lin {
			if l.k < 0 {
				b.WriteString("-")
			} else if i > 0 {
				b.WriteString("+")
			}
			if l.k != 1 && l.k != -1 {
				k := l.k
				if k < 0 {
					k = -k
				}
				fmt.Fprintf(&b, "%d*", k)
			}
			b.WriteString(l.t.str(d + 1))
		}
		if t.C != 0 {
			fmt.Fprintf(&b, "%+d", t.C)
		}
		b.WriteByte(')')
		return b.String()
	case "field":
		return t.Args[0].str(d+1) + "." + t.Aux
	case "fld":
		return t.Args[0].str(d+1) + "." + t.Aux
	case "load":
		return "*" + t.Args[0].str(d+1)
	case "not":
		return "!" + t.Args[0].str(d+1)
	case "eq0":
		return t.Args[0].str(d+1) + "==0"
	case "le0":
		return t.Args[0].str(d+1) + "<=0"
	case "lt0f":
		return t.Args[0].str(d+1) + "<0"
	case "eq":
		return t.Args[0].str(d+1) + "==" + t.Args[1].str(d+1)
	}
	var b strings.Builder
	b.WriteString(t.Op)
	if t.Aux != "" {
		a := t.Aux
		if i := strings.LastIndex(a, "/"); i >= 0 {
			a = a[i+1:]
		}
		b.WriteString(":" + a)
	}
	if len(t.Args) > 0 {
		b.WriteByte('(')
		for i, a := range t.Args {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(a.str(d + 1))
		}
		b.WriteByte(')')
	}
	return b.String()
}

// contains tells whether x occurs in t
func (t *Term) contains(x *Term) bool {
	return t.any(func(y *Term) bool { return y == x })
}

func (t *Term) any(f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(y *Term) bool {
		if seen[y] {
			return false
		}
		seen[y] = true
		if f(y) {
			return true
		}
		for _, a := range y.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func opTok(op token.Token) string { return op.String() }
