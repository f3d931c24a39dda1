package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// typeInfo type-checks a package leniently: packages outside the repository
// are unknown, which leaves holes but tells channels and builtins apart.
type checker struct {
	fset *token.FileSet
	pkgs map[string]*pkgInfo // by import path
	done map[string]*types.Package
	info *types.Info
}

func newChecker(fset *token.FileSet, pkgs map[string]*pkgInfo) *checker {
	c := &checker{fset: fset, pkgs: map[string]*pkgInfo{}, done: map[string]*types.Package{}}
	c.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
	for _, p := range pkgs {
		if p.name != "main" || c.pkgs[p.path] == nil {
			c.pkgs[p.path] = p
		}
	}
	return c
}

func (c *checker) Import(path string) (*types.Package, error) {
	if p, ok := c.done[path]; ok {
		if p == nil {
			return nil, fmt.Errorf("unknown")
		}
		return p, nil
	}
	c.done[path] = nil
	pi := c.pkgs[path]
	if pi == nil {
		return nil, fmt.Errorf("unknown")
	}
	p := c.check(pi)
	c.done[path] = p
	return p, nil
}

func (c *checker) check(pi *pkgInfo) (p *types.Package) {
	if pi.types != nil {
		return pi.types
	}
	var fs []*ast.File
	for _, f := range pi.files {
		fs = append(fs, f.f)
	}
	conf := types.Config{Importer: c, Error: func(error) {}, DisableUnusedImportCheck: true}
	defer func() {
		if recover() != nil {
			p = nil
		}
		pi.types = p
	}()
	p, _ = conf.Check(pi.path, c.fset, fs, c.info)
	return p
}

func (c *checker) isChan(e ast.Expr) bool {
	tv, ok := c.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Chan)
	return ok
}

func (c *checker) isMap(e ast.Expr) bool {
	tv, ok := c.info.Types[e]
	if !ok || tv.Type == nil || !tv.IsValue() {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Map)
	return ok
}

// plain reports whether e can be evaluated once more without effect.
func plain(e ast.Expr) bool {
	switch v := ast.Unparen(e).(type) {
	case *ast.Ident:
		return v.Name != "_"
	case *ast.SelectorExpr:
		return plain(v.X)
	case *ast.StarExpr:
		return plain(v.X)
	}
	return false
}

// mapAccess marks the accesses of maps: a use is checked against a write that
// another thread has open, and a write statement is followed by one.
// Ends of writes lie outside, uses inside whatever concurrency inserts.
func mapAccess(c *checker, fset *token.FileSet, fi *fileInfo, uses bool) {
	off := func(pos token.Pos) int { return fset.Position(pos).Offset }
	written := map[*ast.IndexExpr]bool{}
	target := func(e ast.Expr) ast.Expr {
		if x, ok := ast.Unparen(e).(*ast.IndexExpr); ok && c.isMap(x.X) {
			written[x] = true
			return x.X
		}
		return nil
	}
	use := func(m ast.Expr) {
		if !uses || !plain(m) {
			return
		}
		fi.eds = append(fi.eds, edit{off: off(m.Pos()), text: "verifsim.MapR("}, edit{off: off(m.End()), text: ")", suffix: true})
	}
	writes := func(s ast.Stmt) {
		var ms []ast.Expr
		switch v := s.(type) {
		case *ast.AssignStmt:
			for _, l := range v.Lhs {
				if m := target(l); m != nil {
					ms = append(ms, m)
				}
			}
		case *ast.IncDecStmt:
			if m := target(v.X); m != nil {
				ms = append(ms, m)
			}
		case *ast.ExprStmt:
			if call, ok := v.X.(*ast.CallExpr); ok && c.builtin(call.Fun) == "delete" && len(call.Args) == 2 && c.isMap(call.Args[0]) {
				ms = append(ms, call.Args[0])
			}
		}
		for _, m := range ms {
			if !uses && plain(m) {
				text := string(fi.src[off(m.Pos()):off(m.End())])
				fi.eds = append(fi.eds, edit{off: off(s.End()), text: ";verifsim.MapW(" + text + ")", suffix: true})
			}
		}
	}
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			writes(s)
		}
	}
	ast.Inspect(fi.f, func(x ast.Node) bool {
		switch v := x.(type) {
		case *ast.BlockStmt:
			list(v.List)
		case *ast.CaseClause:
			list(v.Body)
		case *ast.CommClause:
			list(v.Body)
		case *ast.AssignStmt:
			for _, l := range v.Lhs {
				target(l)
			}
		case *ast.IncDecStmt:
			target(v.X)
		case *ast.UnaryExpr:
			if v.Op == token.AND {
				target(v.X)
			}
		case *ast.IndexExpr:
			if !written[v] && c.isMap(v.X) {
				use(v.X)
			}
		case *ast.RangeStmt:
			if c.isMap(v.X) {
				use(v.X)
			}
		}
		return true
	})
}

func (c *checker) builtin(e ast.Expr) string {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok {
		return ""
	}
	if _, ok := c.info.Uses[id].(*types.Builtin); ok {
		return id.Name
	}
	return ""
}

// concurrency rewrites goroutine and channel operations of one file into calls
// of the simulator.
func concurrency(c *checker, fset *token.FileSet, fi *fileInfo, p *pkgInfo) {
	off := func(pos token.Pos) int { return fset.Position(pos).Offset }
	ins := func(pos token.Pos, text string) { fi.eds = append(fi.eds, edit{off: off(pos), text: text}) }
	suffix := func(pos token.Pos, text string) {
		fi.eds = append(fi.eds, edit{off: off(pos), text: text, suffix: true})
	}
	repl := func(lo, hi token.Pos, text string) {
		fi.eds = append(fi.eds, edit{off: off(lo), del: off(hi) - off(lo), text: text})
	}
	two := map[*ast.UnaryExpr]bool{}
	isRecv := func(e ast.Expr) *ast.UnaryExpr {
		u, ok := ast.Unparen(e).(*ast.UnaryExpr)
		if ok && u.Op == token.ARROW {
			return u
		}
		return nil
	}
	var selects []*ast.SelectStmt
	goschedKeep := false
	ast.Inspect(fi.f, func(x ast.Node) bool {
		switch v := x.(type) {
		case *ast.GoStmt:
			p.gos++
			fl, lit := v.Call.Fun.(*ast.FuncLit)
			switch {
			case lit && len(v.Call.Args) == 0:
				repl(v.Go, v.Go+2, "verifsim.Spawn(")
				repl(fl.End(), v.Call.End(), ")")
			case c.builtin(v.Call.Fun) != "":
				repl(v.Go, v.Go+2, "verifsim.Spawn(func() {")
				suffix(v.Call.End(), "})")
			case v.Call.Ellipsis.IsValid():
				repl(v.Go, v.Go+2, "verifsim.GoCallSlice(")
				repl(v.Call.Lparen, v.Call.Lparen+1, ",")
				repl(v.Call.Ellipsis, v.Call.Ellipsis+3, "")
			default:
				repl(v.Go, v.Go+2, "verifsim.GoCall(")
				repl(v.Call.Lparen, v.Call.Lparen+1, ",")
			}
		case *ast.SelectStmt:
			selects = append(selects, v)
		case *ast.SendStmt:
			ins(v.Chan.Pos(), "verifsim.SendTo(")
			repl(v.Arrow, v.Arrow+2, ")(")
			suffix(v.End(), ")")
		case *ast.AssignStmt:
			if len(v.Lhs) == 2 && len(v.Rhs) == 1 {
				if u := isRecv(v.Rhs[0]); u != nil {
					two[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(v.Names) == 2 && len(v.Values) == 1 {
				if u := isRecv(v.Values[0]); u != nil {
					two[u] = true
				}
			}
		case *ast.UnaryExpr:
			if v.Op == token.ARROW {
				f := "verifsim.Recv("
				if two[v] {
					f = "verifsim.Recv2("
				}
				repl(v.OpPos, v.OpPos+2, f)
				suffix(v.End(), ")")
			}
		case *ast.CallExpr:
			switch b := c.builtin(v.Fun); {
			case b == "close" && len(v.Args) == 1:
				repl(v.Fun.Pos(), v.Fun.End(), "verifsim.Close")
			case b == "len" && len(v.Args) == 1 && c.isChan(v.Args[0]):
				repl(v.Fun.Pos(), v.Fun.End(), "verifsim.Len")
			}
			if s, ok := v.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Gosched" {
				if id, ok := s.X.(*ast.Ident); ok && id.Name == "runtime" {
					repl(v.Fun.Pos(), v.Fun.End(), "verifsim.Sched")
					goschedKeep = true
				}
			}
		case *ast.RangeStmt:
			if !c.isChan(v.X) {
				return true
			}
			name := func(e ast.Expr) string { return string(fi.src[off(e.Pos()):off(e.End())]) }
			k := "_"
			if v.Key != nil {
				k = name(v.Key)
			}
			if v.Tok == token.DEFINE && k != "_" {
				repl(v.For+3, v.X.Pos(), " verifC, "+k+" := verifsim.RangeInit(")
			} else {
				repl(v.For+3, v.X.Pos(), " verifC, _ := verifsim.RangeInit(")
			}
			suffix(v.X.End(), "); ; ")
			ins(v.Body.Lbrace+1, "var verifOk bool; "+k+", verifOk = verifsim.Recv2(verifC); if !verifOk { break };")
		}
		return true
	})
	if goschedKeep {
		fi.tail.WriteString("\nvar _ = runtime.Gosched\n")
	}
	// pull removes the edits inside [lo,hi] and returns the edited text
	pull := func(lo, hi token.Pos) string {
		a, b := off(lo), off(hi)
		var in, rest []edit
		for _, e := range fi.eds {
			if e.off >= a && e.off < b || e.off == b && e.suffix {
				in = append(in, edit{off: e.off - a, del: e.del, text: e.text, suffix: e.suffix})
			} else {
				rest = append(rest, e)
			}
		}
		fi.eds = rest
		return string(applyEdits(fi.src[a:b], in))
	}
	// innermost first: a later select starts later, or lies inside
	for i := len(selects) - 1; i >= 0; i-- {
		s := selects[i]
		var cases []string
		def := false
		for _, cl := range s.Body.List {
			cc := cl.(*ast.CommClause)
			n := len(cases)
			head := ""
			switch m := cc.Comm.(type) {
			case nil:
				def = true
				continue
			case *ast.SendStmt:
				ch, val := "", ""
				// the edits of the send statement itself are dropped
				dropSend(fi, off, m)
				val = pull(m.Value.Pos(), m.Value.End())
				ch = pull(m.Chan.Pos(), m.Chan.End())
				cases = append(cases, "verifsim.SendCase("+ch+")("+val+")")
			case *ast.ExprStmt, *ast.AssignStmt:
				var u *ast.UnaryExpr
				var as *ast.AssignStmt
				if e, ok := m.(*ast.ExprStmt); ok {
					u = isRecv(e.X)
				} else {
					as = m.(*ast.AssignStmt)
					u = isRecv(as.Rhs[0])
				}
				dropRecv(fi, off, u)
				ch := pull(u.X.Pos(), u.X.End())
				cases = append(cases, "verifsim.RecvCase("+ch+")")
				if as != nil {
					var l []string
					for _, e := range as.Lhs {
						l = append(l, pull(e.Pos(), e.End()))
					}
					f := "verifsim.Val("
					if len(l) == 2 {
						f = "verifsim.Val2("
					}
					head = strings.Join(l, ", ") + " " + as.Tok.String() + " " + f + "verifSel, " + ch + ");"
				}
			}
			pull(cc.Comm.Pos(), cc.Comm.End())
			repl(cc.Case, cc.Colon+1, fmt.Sprintf("case %d: %s", n, head))
		}
		h := "switch verifSel := verifsim.Select(" + fmt.Sprint(def)
		for _, c := range cases {
			h += ", " + c
		}
		h += "); verifSel.Index "
		repl(s.Select, s.Select+6, h)
		if !def {
			ins(s.Body.Rbrace, ";default: panic(\"verifsim: select\");")
		}
	}
}

func dropAt(fi *fileInfo, match func(e edit) bool) {
	for i, e := range fi.eds {
		if match(e) {
			fi.eds = append(fi.eds[:i:i], fi.eds[i+1:]...)
			return
		}
	}
}

func dropSend(fi *fileInfo, off func(token.Pos) int, m *ast.SendStmt) {
	dropAt(fi, func(e edit) bool { return e.off == off(m.Chan.Pos()) && e.text == "verifsim.SendTo(" })
	dropAt(fi, func(e edit) bool { return e.off == off(m.Arrow) && e.text == ")(" })
	dropAt(fi, func(e edit) bool { return e.off == off(m.End()) && e.suffix && e.text == ")" })
}

func dropRecv(fi *fileInfo, off func(token.Pos) int, u *ast.UnaryExpr) {
	dropAt(fi, func(e edit) bool { return e.off == off(u.OpPos) && strings.HasPrefix(e.text, "verifsim.Recv") })
	dropAt(fi, func(e edit) bool { return e.off == off(u.End()) && e.suffix && e.text == ")" })
}
