package main

import (
	"go/types"
	"strings"
	"unicode/utf8"
)

// isTextBuf: a pointer to what collects text
func isTextBuf(t types.Type) bool {
	if !isPtrT(t) {
		return false
	}
	n, ok := types.Unalias(deref(t)).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	s := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return s == "strings.Builder" || s == "bytes.Buffer"
}

// textBuf: calls of a local strings.Builder or bytes.Buffer; the text is what
// was written, in order
func (w *Walker) textBuf(st *State, ev *Event, args []*Term) (*Term, bool) {
	if len(args) == 0 {
		return nil, false
	}
	name := ev.Name
	var buf, txt *Term
	pure := func(n string, as ...*Term) *Term {
		return mk("pure", n+"#0", types.Typ[types.String], as...)
	}
	switch name {
	case "fmt.Fprint", "fmt.Fprintln", "fmt.Fprintf":
		buf = unwrapIface(args[0])
		txt = pure("fmt.S"+strings.TrimPrefix(name, "fmt.F"), ev.Args[1:]...)
	case "io.WriteString":
		buf, txt = unwrapIface(args[0]), args[1]
	default:
		i := strings.LastIndex(name, ".")
		if name[:max(i, 0)] != "(*strings.Builder)" && name[:max(i, 0)] != "(*bytes.Buffer)" {
			return nil, false
		}
		buf = args[0]
		switch name[i+1:] {
		case "WriteString":
			txt = args[1]
		case "WriteByte", "WriteRune":
			if args[1].Op != "int" || args[1].C < 0 || args[1].C >= utf8.RuneSelf {
				return nil, false
			}
			txt = tStr(string(rune(args[1].C)))
		case "String", "Reset", "Grow":
		default:
			return nil, false
		}
	}
	if buf.T == nil || !isTextBuf(buf.T) || buf.Op != "alloc" {
		return nil, false
	}
	cell := mk("field", "cxoText", types.NewPointer(types.Typ[types.String]), buf)
	if cell.Obj == nil {
		cell.Obj = buf.Obj
	}
	cur := st.mem[cell]
	if cur == nil {
		if p := w.known(st, buf); p == nil || p.Op != "zero" && !(p.Op == "struct" && len(p.Args) == 0) {
			return nil, false
		}
		cur = tStr("")
	}
	if strings.HasSuffix(name, ".String") {
		return cur, true
	}
	switch {
	case txt != nil:
		cur = tConcat(cur, txt)
	case strings.HasSuffix(name, ".Reset"):
		cur = tStr("")
	}
	st.mem[cell] = cur
	return resTerm(ev.Sig, func(k int, t types.Type) *Term {
		if isErrorT(t) {
			return tNil
		}
		return mk("pure", "written", t, txt)
	}), true
}
