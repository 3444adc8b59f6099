package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ast/astutil"
)

// rangeInts rewrites `for i := range n`, n an integer, to the loop with a
// counter it stands for, whose test comes first. The SSA form of the former has
// its test at the end of the round
func rangeInts(files []*ast.File, info *types.Info) (changed bool) {
	for _, f := range files {
		astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
			rs, ok := c.Node().(*ast.RangeStmt)
			if !ok || rs.Key != nil && rs.Tok != token.DEFINE {
				return true
			}
			tv, ok := info.Types[rs.X]
			if !ok || tv.Type == nil {
				return true
			}
			bt, ok := types.Unalias(tv.Type).(*types.Basic)
			if !ok || bt.Info()&types.IsInteger == 0 {
				return true
			}
			id := func(n string) *ast.Ident { return &ast.Ident{NamePos: rs.Range, Name: n} }
			var zero ast.Expr = &ast.BasicLit{ValuePos: rs.Range, Kind: token.INT, Value: "0"}
			var lim ast.Expr = rs.X
			if bt.Kind() != types.Int && bt.Info()&types.IsUntyped == 0 {
				zero = &ast.CallExpr{Fun: id(bt.Name()), Lparen: rs.Range, Args: []ast.Expr{zero}, Rparen: rs.Range}
			}
			name := "cxoRangeI"
			body := rs.Body
			if k, ok := rs.Key.(*ast.Ident); ok && k.Name != "_" {
				if pinned(body, info, info.Defs[k]) {
					body = &ast.BlockStmt{Lbrace: body.Lbrace, Rbrace: body.Rbrace, List: append([]ast.Stmt{
						&ast.AssignStmt{Lhs: []ast.Expr{k}, TokPos: rs.Range, Tok: token.DEFINE, Rhs: []ast.Expr{id(name)}},
					}, body.List...)}
				} else {
					name = k.Name
				}
			}
			c.Replace(&ast.ForStmt{
				For:  rs.For,
				Init: &ast.AssignStmt{Lhs: []ast.Expr{id(name), id("cxoRangeN")}, TokPos: rs.Range, Tok: token.DEFINE, Rhs: []ast.Expr{zero, lim}},
				Cond: &ast.BinaryExpr{X: id(name), OpPos: rs.Range, Op: token.LSS, Y: id("cxoRangeN")},
				Post: &ast.IncDecStmt{X: id(name), TokPos: rs.Range, Tok: token.INC},
				Body: body,
			})
			changed = true
			return true
		})
	}
	return
}

// appendLoops rewrites a loop that does nothing but append the elements of a
// list to another one to the append of the list
func appendLoops(files []*ast.File, info *types.Info) (changed bool) {
	for _, f := range files {
		astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
			var body *ast.BlockStmt
			var list ast.Expr
			var key, val types.Object
			switch l := c.Node().(type) {
			case *ast.RangeStmt:
				if l.Tok != token.DEFINE {
					return true
				}
				body, list = l.Body, l.X
				if id, ok := l.Key.(*ast.Ident); ok {
					key = info.Defs[id]
				}
				if id, ok := l.Value.(*ast.Ident); ok {
					val = info.Defs[id]
				}
			case *ast.ForStmt:
				// for i := 0; i < len(list); i++
				as, ok := l.Init.(*ast.AssignStmt)
				if !ok || as.Tok != token.DEFINE || len(as.Lhs) != 1 || len(as.Rhs) != 1 {
					return true
				}
				if z, ok := as.Rhs[0].(*ast.BasicLit); !ok || z.Value != "0" {
					return true
				}
				id, ok := as.Lhs[0].(*ast.Ident)
				if !ok {
					return true
				}
				key = info.Defs[id]
				inc, ok := l.Post.(*ast.IncDecStmt)
				if !ok || inc.Tok != token.INC || info.Uses[ident(inc.X)] != key {
					return true
				}
				cmp, ok := l.Cond.(*ast.BinaryExpr)
				if !ok || cmp.Op != token.LSS || info.Uses[ident(cmp.X)] != key {
					return true
				}
				ln, ok := cmp.Y.(*ast.CallExpr)
				if !ok || len(ln.Args) != 1 || !builtin(info, ln.Fun, "len") {
					return true
				}
				body, list = l.Body, ln.Args[0]
			default:
				return true
			}
			lt, ok := info.Types[list]
			if !ok || info.Uses[ident(list)] == nil || len(body.List) != 1 {
				return true
			}
			sl, ok := lt.Type.Underlying().(*types.Slice)
			as, isAs := body.List[0].(*ast.AssignStmt)
			if !ok || !isAs || as.Tok != token.ASSIGN || len(as.Lhs) != 1 || len(as.Rhs) != 1 {
				return true
			}
			call, ok := as.Rhs[0].(*ast.CallExpr)
			if !ok || !builtin(info, call.Fun, "append") || len(call.Args) != 2 || call.Ellipsis.IsValid() {
				return true
			}
			dst := info.Uses[ident(as.Lhs[0])]
			if dst == nil || dst != info.Uses[ident(call.Args[0])] || dst == info.Uses[ident(list)] {
				return true
			}
			dt, ok := dst.Type().Underlying().(*types.Slice)
			if !ok || !types.Identical(dt.Elem(), sl.Elem()) {
				return true
			}
			is := val != nil && info.Uses[ident(call.Args[1])] == val
			if ix, ok := call.Args[1].(*ast.IndexExpr); ok && key != nil {
				is = info.Uses[ident(ix.X)] == info.Uses[ident(list)] && info.Uses[ident(ix.Index)] == key
			}
			if !is {
				return true
			}
			c.Replace(&ast.AssignStmt{Lhs: as.Lhs, TokPos: as.TokPos, Tok: as.Tok, Rhs: []ast.Expr{
				&ast.CallExpr{Fun: call.Fun, Lparen: call.Lparen, Args: []ast.Expr{call.Args[0], list}, Ellipsis: call.Rparen, Rparen: call.Rparen},
			}})
			changed = true
			return true
		})
	}
	return
}

// trimLoops rewrites a loop that does nothing but cut one character off the end
// of a string as long as it is there to the TrimRight it stands for
func trimLoops(files []*ast.File, info *types.Info) (changed bool) {
	for _, f := range files {
		pkg := ""
		for _, im := range f.Imports {
			if im.Path.Value == `"strings"` {
				pkg = "strings"
				if im.Name != nil {
					pkg = im.Name.Name
				}
			}
		}
		if pkg == "" || pkg == "." || pkg == "_" {
			continue
		}
		is := func(e ast.Expr, name string) bool {
			s, ok := e.(*ast.SelectorExpr)
			if !ok {
				return false
			}
			fn, ok := info.Uses[s.Sel].(*types.Func)
			return ok && fn.FullName() == "strings."+name
		}
		astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
			var test ast.Expr
			var body *ast.BlockStmt
			to, at := "", token.NoPos
			switch l := c.Node().(type) {
			case *ast.ForStmt:
				if l.Init != nil || l.Post != nil {
					return true
				}
				test, body, to, at = l.Cond, l.Body, "TrimRight", l.For
			case *ast.IfStmt:
				if l.Init != nil || l.Else != nil {
					return true
				}
				test, body, to, at = l.Cond, l.Body, "TrimSuffix", l.If
			}
			if body == nil || len(body.List) != 1 {
				return true
			}
			as, ok := body.List[0].(*ast.AssignStmt)
			if !ok || as.Tok != token.ASSIGN || len(as.Lhs) != 1 || len(as.Rhs) != 1 {
				return true
			}
			v := info.Uses[ident(as.Lhs[0])]
			if v == nil || !isStr(v.Type()) {
				return true
			}
			same := func(e ast.Expr) bool { return info.Uses[ident(e)] == v }
			// the last character of the string
			last := func(e ast.Expr) bool {
				b, ok := ast.Unparen(e).(*ast.BinaryExpr)
				if !ok || b.Op != token.SUB {
					return false
				}
				k, ok := b.Y.(*ast.BasicLit)
				ln, isCall := b.X.(*ast.CallExpr)
				return ok && k.Value == "1" && isCall && len(ln.Args) == 1 && builtin(info, ln.Fun, "len") && same(ln.Args[0])
			}
			char := ""
			switch cond := test.(type) {
			case *ast.CallExpr:
				if is(cond.Fun, "HasSuffix") && same(cond.Args[0]) {
					if tv := info.Types[cond.Args[1]]; tv.Value != nil {
						char = constant.StringVal(tv.Value)
					}
				}
			case *ast.BinaryExpr:
				if cond.Op != token.LAND {
					return true
				}
				ne, ok1 := ast.Unparen(cond.X).(*ast.BinaryExpr)
				eq, ok2 := ast.Unparen(cond.Y).(*ast.BinaryExpr)
				if !ok1 || !ok2 || eq.Op != token.EQL || ne.Op != token.GTR && ne.Op != token.NEQ {
					return true
				}
				ln, ok1 := ne.X.(*ast.CallExpr)
				z, ok2 := ne.Y.(*ast.BasicLit)
				ix, ok3 := eq.X.(*ast.IndexExpr)
				if !ok1 || !ok2 || !ok3 || z.Value != "0" || len(ln.Args) != 1 || !builtin(info, ln.Fun, "len") || !same(ln.Args[0]) || !same(ix.X) || !last(ix.Index) {
					return true
				}
				if tv := info.Types[eq.Y]; tv.Value != nil {
					if n, exact := constant.Int64Val(constant.ToInt(tv.Value)); exact && n > 0 && n < 128 {
						char = string(rune(n))
					}
				}
			}
			if len(char) != 1 {
				return true
			}
			cut := false
			switch e := as.Rhs[0].(type) {
			case *ast.CallExpr:
				if is(e.Fun, "TrimSuffix") && same(e.Args[0]) {
					tv := info.Types[e.Args[1]]
					cut = tv.Value != nil && constant.StringVal(tv.Value) == char
				}
			case *ast.SliceExpr:
				cut = same(e.X) && e.Low == nil && !e.Slice3 && e.High != nil && last(e.High)
			}
			if !cut {
				return true
			}
			c.Replace(&ast.AssignStmt{Lhs: as.Lhs, TokPos: at, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.CallExpr{
				Fun:    &ast.SelectorExpr{X: &ast.Ident{NamePos: at, Name: pkg}, Sel: &ast.Ident{NamePos: at, Name: to}},
				Lparen: at, Rparen: at, Args: []ast.Expr{as.Lhs[0], &ast.BasicLit{ValuePos: at, Kind: token.STRING, Value: strconv.Quote(char)}},
			}}})
			changed = true
			return true
		})
	}
	return
}

func ident(e ast.Expr) *ast.Ident {
	id, _ := ast.Unparen(e).(*ast.Ident)
	return id
}

func builtin(info *types.Info, e ast.Expr, name string) bool {
	b, ok := info.Uses[ident(e)].(*types.Builtin)
	return ok && b.Name() == name
}

// pinned: a variable is changed in a body, or captured by a closure
func pinned(body *ast.BlockStmt, info *types.Info, o types.Object) (res bool) {
	is := func(e ast.Expr) bool {
		id, ok := ast.Unparen(e).(*ast.Ident)
		return ok && info.Uses[id] == o
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				res = res || is(l)
			}
		case *ast.IncDecStmt:
			res = res || is(n.X)
		case *ast.UnaryExpr:
			res = res || n.Op == token.AND && is(n.X)
		case *ast.RangeStmt:
			res = res || n.Key != nil && is(n.Key) || n.Value != nil && is(n.Value)
		case *ast.FuncLit:
			ast.Inspect(n, func(m ast.Node) bool {
				if id, ok := m.(*ast.Ident); ok && info.Uses[id] == o {
					res = true
				}
				return true
			})
		}
		return true
	})
	return
}
