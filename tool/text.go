package main

// Normal form of formatted text: which literals, values and argument lists a
// string is made of, in order.

import (
	"go/types"
	"strings"
)

type piece struct {
	kind string // lit, val, spread, spreadln, fmt (format applied), other
	s    string
	t    *Term
	args *Term
}

func unwrapIface(t *Term) *Term {
	for t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

func isStringTerm(t *Term) bool {
	if t.Op == "str" || t.Op == "concat" {
		return true
	}
	return t.T != nil && !types.IsInterface(t.T) && isStr(t.T)
}

func textPieces(t *Term) []piece {
	switch t.Op {
	case "str":
		return []piece{{kind: "lit", s: t.Aux}}
	case "concat":
		var out []piece
		for _, a := range t.Args {
			out = append(out, textPieces(a)...)
		}
		return out
	case "pure":
		n := strings.TrimSuffix(t.Aux, "#0")
		switch n {
		case "fmt.Sprint", "fmt.Sprintln":
			ln := n == "fmt.Sprintln"
			var out []piece
			add := func(e *Term, spread bool, last bool) {
				if spread {
					k := "spread"
					if ln {
						k = "spreadln"
					}
					out = append(out, piece{kind: k, t: e})
					return
				}
				x := unwrapIface(e)
				if isStringTerm(x) {
					out = append(out, textPieces(x)...)
				} else {
					out = append(out, piece{kind: "val", t: x})
				}
				if ln {
					if last {
						out = append(out, piece{kind: "lit", s: "\n"})
					} else {
						out = append(out, piece{kind: "lit", s: " "})
					}
				}
			}
			a := t.Args[0]
			if a.Op == "snap" {
				for i, e := range a.Args {
					add(e, a.Aux[i] == 's', i == len(a.Args)-1)
				}
			} else {
				add(a, true, true)
			}
			return out
		case "fmt.Sprintf":
			f := t.Args[0]
			var a *Term
			if len(t.Args) > 1 {
				a = t.Args[1]
			}
			if f.Op == "str" && (a == nil || a == tNil || a.Op == "snap" && !strings.Contains(a.Aux, "s")) {
				if ps, ok := formatPieces(f.Aux, a); ok {
					return ps
				}
			}
			if f.Op == "concat" {
				// leading literals without verbs
				var out []piece
				rest := f.Args
				for len(rest) > 1 && rest[0].Op == "str" && !strings.Contains(rest[0].Aux, "%") {
					out = append(out, piece{kind: "lit", s: rest[0].Aux})
					rest = rest[1:]
				}
				var g *Term
				for _, r := range rest {
					if g == nil {
						g = r
					} else {
						g = tConcat(g, r)
					}
				}
				return append(out, piece{kind: "fmt", t: g, args: a})
			}
			return []piece{{kind: "fmt", t: f, args: a}}
		}
	}
	return []piece{{kind: "other", t: t}}
}

func formatPieces(f string, a *Term) ([]piece, bool) {
	var out []piece
	n := 0
	lit := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		i++
		if i >= len(f) {
			return nil, false
		}
		if f[i] == '%' {
			lit += "%"
			continue
		}
		switch f[i] {
		case 's', 'v', 'd', 'q', 'x', 't':
		default:
			return nil, false
		}
		if a == nil || a == tNil || n >= len(a.Args) {
			return nil, false
		}
		if lit != "" {
			out = append(out, piece{kind: "lit", s: lit})
			lit = ""
		}
		x := unwrapIface(a.Args[n])
		n++
		if (f[i] == 's' || f[i] == 'v') && isStringTerm(x) {
			out = append(out, textPieces(x)...)
			continue
		}
		out = append(out, piece{kind: "val", s: string(f[i]), t: x})
	}
	if lit != "" {
		out = append(out, piece{kind: "lit", s: lit})
	}
	if a != nil && a.Op == "snap" && n != len(a.Args) {
		return nil, false
	}
	return out, true
}

func mergeLits(ps []piece) []piece {
	var out []piece
	for _, p := range ps {
		if p.kind == "lit" && len(out) > 0 && out[len(out)-1].kind == "lit" {
			out[len(out)-1].s += p.s
			continue
		}
		if p.kind == "lit" && p.s == "" {
			continue
		}
		out = append(out, p)
	}
	return out
}

func piecesString(ps []piece) string {
	var out []string
	for _, p := range ps {
		switch p.kind {
		case "lit":
			out = append(out, "text "+tStr(p.s).String())
		case "fmt":
			a := "nothing"
			if p.args != nil {
				a = p.args.String()
			}
			out = append(out, "format "+p.t.String()+" applied to "+a)
		default:
			out = append(out, p.kind+" "+p.t.String())
		}
	}
	return strings.Join(out, " + ")
}
