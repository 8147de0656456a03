// Command refactor rewrites a copy of the repository without changing what it
// does: one kind of rewriting, at many places at once. It is used to check
// that the analyzer judges what the code does and not how it is written.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"hash/fnv"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

type edit struct {
	file       string
	start, end int
	text       string
}

// a site is a rewriting at one place: edits that are made together.
type site struct {
	fn    string
	edits []edit
	lo    int
	hi    int
	file  string
}

type tool struct {
	fset  *token.FileSet
	src   map[string][]byte
	info  *types.Info
	pkg   *types.Package
	file  *ast.File
	fname string
	fn    string
	fd    *ast.FuncDecl
	n     int
	extra map[string][]string // declarations to add to a file
	sites []site
}

func (t *tool) off(p token.Pos) int { return t.fset.Position(p).Offset }

func (t *tool) text(n ast.Node) string {
	return string(t.src[t.fname][t.off(n.Pos()):t.off(n.End())])
}

func (t *tool) between(a, b token.Pos) string {
	return string(t.src[t.fname][t.off(a):t.off(b)])
}

func (t *tool) fresh(s string) string {
	t.n++
	return fmt.Sprintf("%s%dx", s, t.n)
}

func (t *tool) replace(n ast.Node, text string) {
	t.replaceRange(n.Pos(), n.End(), text)
}

func (t *tool) replaceRange(a, b token.Pos, text string) {
	e := edit{t.fname, t.off(a), t.off(b), text}
	t.sites = append(t.sites, site{fn: t.fn, edits: []edit{e}, lo: e.start, hi: e.end, file: t.fname})
}

// body: the text between the braces of a block.
func (t *tool) body(b *ast.BlockStmt) string {
	return t.between(b.Lbrace+1, b.Rbrace)
}

func blockLists(root ast.Node, f func(list []ast.Stmt, end token.Pos, parent ast.Node)) {
	ast.Inspect(root, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			f(x.List, x.Rbrace, x)
		case *ast.CaseClause:
			f(x.Body, x.End(), x)
		case *ast.CommClause:
			f(x.Body, x.End(), x)
		}
		return true
	})
}

func terminating(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return x.Tok == token.CONTINUE || x.Tok == token.BREAK && x.Label == nil || x.Tok == token.BREAK
	}
	return false
}

func endsInJump(list []ast.Stmt) bool {
	return len(list) > 0 && terminating(list[len(list)-1])
}

func endsInReturn(list []ast.Stmt) bool {
	if len(list) == 0 {
		return false
	}
	_, ok := list[len(list)-1].(*ast.ReturnStmt)
	return ok
}

func (t *tool) hasLabels(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		if _, ok := n.(*ast.LabeledStmt); ok {
			found = true
		}
		return true
	})
	return found
}

// pure: evaluating e has no effect and cannot fail differently if done earlier.
func (t *tool) constant(e ast.Expr) bool {
	tv, ok := t.info.Types[e]
	return ok && (tv.Value != nil || tv.IsNil() || tv.IsType() || tv.IsBuiltin())
}

func (t *tool) isFuncLit(e ast.Expr) bool {
	_, ok := e.(*ast.FuncLit)
	return ok
}

func hasCall(e ast.Node) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr:
			found = true
		case *ast.FuncLit:
			return false
		}
		return true
	})
	return found
}

var kinds = map[string]func(t *tool, fd *ast.FuncDecl){
	"ifelse": func(t *tool, fd *ast.FuncDecl) {
		ast.Inspect(fd, func(n ast.Node) bool {
			x, ok := n.(*ast.IfStmt)
			if !ok {
				return true
			}
			els, ok := x.Else.(*ast.BlockStmt)
			if !ok {
				return true
			}
			init := ""
			if x.Init != nil {
				init = t.text(x.Init) + "; "
			}
			t.replace(x, "if "+init+"!("+t.text(x.Cond)+") {"+t.body(els)+"} else {"+t.body(x.Body)+"}")
			return true
		})
	},
	"early": func(t *tool, fd *ast.FuncDecl) {
		blockLists(fd, func(list []ast.Stmt, end token.Pos, parent ast.Node) {
			for i, s := range list {
				x, ok := s.(*ast.IfStmt)
				if !ok || x.Init != nil || x.Else != nil || !endsInJump(x.Body.List) || i+1 >= len(list) {
					continue
				}
				rest := &ast.BlockStmt{List: list[i+1:]}
				if t.hasLabels(rest) {
					continue
				}
				last := list[len(list)-1].End()
				t.replaceRange(x.Pos(), last, "if !("+t.text(x.Cond)+") {\n"+t.between(list[i+1].Pos(), last)+"\n} else {"+t.body(x.Body)+"}")
			}
		})
	},
	"flatten": func(t *tool, fd *ast.FuncDecl) {
		blockLists(fd, func(list []ast.Stmt, end token.Pos, parent ast.Node) {
			for _, s := range list {
				x, ok := s.(*ast.IfStmt)
				if !ok || x.Init != nil || !endsInJump(x.Body.List) {
					continue
				}
				if els, ok := x.Else.(*ast.BlockStmt); ok {
					t.replace(x, "if "+t.text(x.Cond)+" {"+t.body(x.Body)+"}\n{"+t.body(els)+"}")
				}
			}
		})
	},
	"condvar": func(t *tool, fd *ast.FuncDecl) {
		blockLists(fd, func(list []ast.Stmt, end token.Pos, parent ast.Node) {
			for _, s := range list {
				x, ok := s.(*ast.IfStmt)
				if !ok {
					continue
				}
				v := t.fresh("cond")
				if x.Init != nil {
					t.replaceRange(x.Pos(), x.End(), "{\n"+t.text(x.Init)+"\n"+v+" := "+t.text(x.Cond)+"\nif "+v+" "+t.between(x.Body.Pos(), x.End())+"\n}")
				} else {
					t.replaceRange(x.Pos(), x.Body.Pos(), v+" := "+t.text(x.Cond)+"\nif "+v+" ")
				}
			}
		})
	},
	"hoist": func(t *tool, fd *ast.FuncDecl) {
		blockLists(fd, func(list []ast.Stmt, end token.Pos, parent ast.Node) {
			for _, s := range list {
				if x, ok := s.(*ast.IfStmt); ok && x.Init != nil {
					t.replaceRange(x.Pos(), x.Body.Pos(), "{\n"+t.text(x.Init)+"\nif "+t.text(x.Cond)+" ")
					sn := &t.sites[len(t.sites)-1]
					sn.edits = append(sn.edits, edit{t.fname, t.off(x.End()), t.off(x.End()), "\n}"})
					sn.hi = t.off(x.End())
				}
			}
		})
	},
	"args": func(t *tool, fd *ast.FuncDecl) {
		blockLists(fd, func(list []ast.Stmt, end token.Pos, parent ast.Node) {
			for _, s := range list {
				var call *ast.CallExpr
				switch x := s.(type) {
				case *ast.ExprStmt:
					call, _ = x.X.(*ast.CallExpr)
				case *ast.AssignStmt:
					if len(x.Rhs) == 1 {
						call, _ = x.Rhs[0].(*ast.CallExpr)
					}
				case *ast.ReturnStmt:
					if len(x.Results) == 1 {
						call, _ = x.Results[0].(*ast.CallExpr)
					}
				}
				if call == nil || len(call.Args) == 0 || hasCall(call.Fun) {
					continue
				}
				if tv := t.info.Types[call.Fun]; tv.IsBuiltin() || tv.IsType() {
					continue
				}
				var names, vals []string
				var es []edit
				ok := true
				for _, a := range call.Args {
					if t.constant(a) || t.isFuncLit(a) {
						continue
					}
					if _, isT := t.info.Types[a].Type.(*types.Tuple); isT {
						ok = false
						break
					}
					v := t.fresh("arg")
					names = append(names, v)
					vals = append(vals, t.text(a))
					es = append(es, edit{t.fname, t.off(a.Pos()), t.off(a.End()), v})
				}
				if !ok || len(names) == 0 {
					continue
				}
				es = append(es, edit{t.fname, t.off(s.Pos()), t.off(s.Pos()), strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "\n"})
				t.sites = append(t.sites, site{fn: t.fn, edits: es, lo: t.off(s.Pos()), hi: t.off(s.End()), file: t.fname})
			}
		})
	},
	"indexloop": func(t *tool, fd *ast.FuncDecl) {
		ast.Inspect(fd, func(n ast.Node) bool {
			x, ok := n.(*ast.RangeStmt)
			if !ok || x.Tok != token.DEFINE || x.Key == nil {
				return true
			}
			if _, ok := t.info.Types[x.X].Type.Underlying().(*types.Slice); !ok {
				return true
			}
			i := t.text(x.Key)
			if i == "_" {
				i = t.fresh("i")
			}
			s := t.fresh("list")
			v := ""
			if x.Value != nil && t.text(x.Value) != "_" {
				v = "\n" + t.text(x.Value) + " := " + s + "[" + i + "]"
			}
			t.replaceRange(x.Pos(), x.Body.Lbrace+1, "for "+i+", "+s+" := 0, "+t.text(x.X)+"; "+i+" < len("+s+"); "+i+"++ {"+v)
			return true
		})
	},
	"switchif": func(t *tool, fd *ast.FuncDecl) {
		ast.Inspect(fd, func(n ast.Node) bool {
			x, ok := n.(*ast.SwitchStmt)
			if !ok {
				return true
			}
			if breaks(x.Body) {
				return true
			}
			tag := ""
			pre := ""
			if x.Init != nil {
				pre = t.text(x.Init) + "\n"
			}
			if x.Tag != nil {
				tag = t.fresh("tag")
				pre += tag + " := " + t.text(x.Tag) + "\n"
			}
			out := ""
			def := ""
			hasDef := false
			for _, c := range x.Body.List {
				cc := c.(*ast.CaseClause)
				b := t.between(cc.Colon+1, cc.End())
				if cc.List == nil {
					def, hasDef = b, true
					continue
				}
				var cs []string
				for _, e := range cc.List {
					if tag != "" {
						cs = append(cs, tag+" == ("+t.text(e)+")")
					} else {
						cs = append(cs, "("+t.text(e)+")")
					}
				}
				if out != "" {
					out += " else "
				}
				out += "if " + strings.Join(cs, " || ") + " {" + b + "\n}"
			}
			if out == "" {
				return true
			}
			if hasDef {
				out += " else {" + def + "\n}"
			}
			t.replace(x, "{\n"+pre+out+"\n}")
			return true
		})
	},
	"andif": func(t *tool, fd *ast.FuncDecl) {
		ast.Inspect(fd, func(n ast.Node) bool {
			x, ok := n.(*ast.IfStmt)
			if !ok || x.Else != nil || x.Init != nil {
				return true
			}
			b, ok := x.Cond.(*ast.BinaryExpr)
			if ok && b.Op == token.LAND {
				t.replaceRange(x.Pos(), x.Body.Pos(), "if "+t.text(b.X)+" {\nif "+t.text(b.Y)+" ")
				sn := &t.sites[len(t.sites)-1]
				sn.edits = append(sn.edits, edit{t.fname, t.off(x.End()), t.off(x.End()), "\n}"})
				sn.hi = t.off(x.End())
			}
			return true
		})
	},
	"orif": func(t *tool, fd *ast.FuncDecl) {
		blockLists(fd, func(list []ast.Stmt, end token.Pos, parent ast.Node) {
			for _, s := range list {
				x, ok := s.(*ast.IfStmt)
				if !ok || x.Else != nil || x.Init != nil || !endsInJump(x.Body.List) {
					continue
				}
				b, ok := x.Cond.(*ast.BinaryExpr)
				if ok && b.Op == token.LOR {
					t.replace(x, "if "+t.text(b.X)+" {"+t.body(x.Body)+"}\nif "+t.text(b.Y)+" {"+t.body(x.Body)+"}")
				}
			}
		})
	},
	"retvar": func(t *tool, fd *ast.FuncDecl) {
		blockLists(fd, func(list []ast.Stmt, end token.Pos, parent ast.Node) {
			for _, s := range list {
				x, ok := s.(*ast.ReturnStmt)
				if !ok || len(x.Results) == 0 {
					continue
				}
				if len(x.Results) == 1 && hasCall(x.Results[0]) {
					e := x.Results[0]
					if tup, ok := t.info.Types[e].Type.(*types.Tuple); ok {
						var vs []string
						for i := 0; i < tup.Len(); i++ {
							vs = append(vs, t.fresh("ret"))
						}
						l := strings.Join(vs, ", ")
						t.replace(x, l+" := "+t.text(e)+"\nreturn "+l)
					} else if b, ok := t.info.Types[e].Type.(*types.Basic); !ok || b.Info()&types.IsUntyped == 0 {
						v := t.fresh("ret")
						t.replace(x, v+" := "+t.text(e)+"\nreturn "+v)
					}
				}
			}
		})
	},
	"litfields": func(t *tool, fd *ast.FuncDecl) {
		blockLists(fd, func(list []ast.Stmt, end token.Pos, parent ast.Node) {
			for _, s := range list {
				var call *ast.CallExpr
				switch x := s.(type) {
				case *ast.ExprStmt:
					call, _ = x.X.(*ast.CallExpr)
				case *ast.AssignStmt:
					if len(x.Rhs) == 1 {
						call, _ = x.Rhs[0].(*ast.CallExpr)
					}
				case *ast.ReturnStmt:
					if len(x.Results) == 1 {
						call, _ = x.Results[0].(*ast.CallExpr)
					}
				}
				if call == nil || hasCall(call.Fun) {
					continue
				}
				for i, a := range call.Args {
					u, ok := a.(*ast.UnaryExpr)
					if !ok || u.Op != token.AND {
						continue
					}
					cl, ok := u.X.(*ast.CompositeLit)
					if !ok || cl.Type == nil || len(cl.Elts) == 0 {
						continue
					}
					pure := true
					for _, b := range call.Args[:i] {
						if hasCall(b) {
							pure = false
						}
					}
					v := t.fresh("lit")
					pre := v + " := &" + t.text(cl.Type) + "{}\n"
					for _, e := range cl.Elts {
						kv, ok := e.(*ast.KeyValueExpr)
						if !ok {
							pure = false
							break
						}
						pre += v + "." + t.text(kv.Key) + " = " + t.text(kv.Value) + "\n"
					}
					if !pure {
						continue
					}
					es := []edit{{t.fname, t.off(s.Pos()), t.off(s.Pos()), pre}, {t.fname, t.off(a.Pos()), t.off(a.End()), v}}
					t.sites = append(t.sites, site{fn: t.fn, edits: es, lo: t.off(s.Pos()), hi: t.off(s.End()), file: t.fname})
					break
				}
			}
		})
	},
	"rename": func(t *tool, fd *ast.FuncDecl) {
		var es []edit
		ast.Inspect(fd, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.TypeSwitchStmt:
				return true
			case *ast.Ident:
				obj := t.info.Defs[x]
				if obj == nil {
					obj = t.info.Uses[x]
				}
				v, ok := obj.(*types.Var)
				if ok && !v.IsField() && x.Name != "_" && v.Pkg() != nil && v.Parent() != v.Pkg().Scope() && fd.Pos() <= v.Pos() && v.Pos() < fd.End() {
					es = append(es, edit{t.fname, t.off(x.Pos()), t.off(x.End()), x.Name + "Q"})
				}
			}
			return true
		})
		// the variables of type switches have no object of their own
		ast.Inspect(fd, func(n ast.Node) bool {
			if x, ok := n.(*ast.TypeSwitchStmt); ok {
				if as, ok := x.Assign.(*ast.AssignStmt); ok {
					id := as.Lhs[0].(*ast.Ident)
					es = append(es, edit{t.fname, t.off(id.Pos()), t.off(id.End()), id.Name + "Q"})
				}
			}
			return true
		})
		if len(es) > 0 {
			t.sites = append(t.sites, site{fn: t.fn, edits: es, lo: t.off(fd.Pos()), hi: t.off(fd.End()), file: t.fname})
		}
	},
	"emptylen": func(t *tool, fd *ast.FuncDecl) {
		ast.Inspect(fd, func(n ast.Node) bool {
			x, ok := n.(*ast.BinaryExpr)
			if !ok || x.Op != token.EQL && x.Op != token.NEQ {
				return true
			}
			if tv := t.info.Types[x.Y]; tv.Value != nil && tv.Value.ExactString() == `""` {
				t.replace(x, "len("+t.text(x.X)+") "+x.Op.String()+" 0")
			}
			return true
		})
	},
	"nots": func(t *tool, fd *ast.FuncDecl) {
		ast.Inspect(fd, func(n ast.Node) bool {
			x, ok := n.(*ast.BinaryExpr)
			if !ok {
				return true
			}
			neg := map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}
			if op, ok := neg[x.Op]; ok {
				t.replace(x, "!("+t.text(x.X)+" "+op.String()+" "+t.text(x.Y)+")")
			}
			return true
		})
	},
	"swapop": func(t *tool, fd *ast.FuncDecl) {
		ast.Inspect(fd, func(n ast.Node) bool {
			x, ok := n.(*ast.BinaryExpr)
			if !ok {
				return true
			}
			sw := map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GEQ: token.LEQ, token.GTR: token.LSS, token.LEQ: token.GEQ}
			if op, ok := sw[x.Op]; ok && !(hasCall(x.X) && hasCall(x.Y)) {
				t.replace(x, t.text(x.Y)+" "+op.String()+" "+t.text(x.X))
			}
			return true
		})
	},
	"demorgan": func(t *tool, fd *ast.FuncDecl) {
		ast.Inspect(fd, func(n ast.Node) bool {
			x, ok := n.(*ast.BinaryExpr)
			if !ok {
				return true
			}
			if x.Op == token.LAND {
				t.replace(x, "!(!("+t.text(x.X)+") || !("+t.text(x.Y)+"))")
			} else if x.Op == token.LOR {
				t.replace(x, "!(!("+t.text(x.X)+") && !("+t.text(x.Y)+"))")
			}
			return true
		})
	},
	"wrap": func(t *tool, fd *ast.FuncDecl) {
		if fd.Name.Name == "main" || fd.Name.Name == "init" || fd.Type.TypeParams != nil || fd.Body == nil {
			return
		}
		if fd.Recv != nil && len(fd.Recv.List[0].Names) == 0 {
			return
		}
		if fd.Recv != nil {
			ty := fd.Recv.List[0].Type
			if s, ok := ty.(*ast.StarExpr); ok {
				ty = s.X
			}
			if _, ok := ty.(*ast.IndexExpr); ok {
				return
			}
		}
		var names []string
		for _, f := range fd.Type.Params.List {
			if len(f.Names) == 0 {
				return
			}
			for _, id := range f.Names {
				if id.Name == "_" {
					return
				}
				nm := id.Name
				if _, ok := f.Type.(*ast.Ellipsis); ok {
					nm += "..."
				}
				names = append(names, nm)
			}
		}
		inner := fd.Name.Name + "Inner"
		recv, call := "", inner
		if fd.Recv != nil {
			recv = t.text(fd.Recv) + " "
			call = fd.Recv.List[0].Names[0].Name + "." + inner
		}
		call += "(" + strings.Join(names, ", ") + ")"
		if fd.Type.Results != nil {
			call = "return " + call
		}
		head := t.between(fd.Type.Params.Pos(), fd.Body.Lbrace)
		t.replaceRange(fd.Pos(), fd.Body.Lbrace, "func "+recv+fd.Name.Name+head+"{\n"+call+"\n}\n\nfunc "+recv+inner+head)
	},
	"helper":   func(t *tool, fd *ast.FuncDecl) { t.extract(fd, false) },
	"tailcall": func(t *tool, fd *ast.FuncDecl) { t.extract(fd, true) },
	"closure": func(t *tool, fd *ast.FuncDecl) {
		blocks(fd, func(list []ast.Stmt, inLoop bool) {
			if len(list) == 0 || jumps(list, true) {
				return
			}
			v := t.fresh("do")
			t.replaceRange(list[0].Pos(), list[len(list)-1].End(), v+" := func() {\n"+t.between(list[0].Pos(), list[len(list)-1].End())+"\n}\n"+v+"()")
		})
	},
	"vardecl": func(t *tool, fd *ast.FuncDecl) {
		blockLists(fd, func(list []ast.Stmt, end token.Pos, parent ast.Node) {
			for _, s := range list {
				x, ok := s.(*ast.AssignStmt)
				if !ok || x.Tok != token.DEFINE {
					continue
				}
				all := true
				for _, l := range x.Lhs {
					if id, ok := l.(*ast.Ident); !ok || t.info.Defs[id] == nil && id.Name != "_" {
						all = false
					}
				}
				if all {
					t.replaceRange(x.Pos(), x.End(), "var "+t.between(x.Pos(), x.TokPos)+"="+t.between(x.TokPos+2, x.End()))
				}
			}
		})
	},
	"forcond": func(t *tool, fd *ast.FuncDecl) {
		ast.Inspect(fd, func(n ast.Node) bool {
			x, ok := n.(*ast.ForStmt)
			if ok && x.Cond != nil && x.Post == nil && x.Init == nil {
				t.replaceRange(x.Pos(), x.Body.Lbrace+1, "for {\nif !("+t.text(x.Cond)+") {\nbreak\n}\n")
			}
			return true
		})
	},
	"noop": func(t *tool, fd *ast.FuncDecl) {
		blockLists(fd, func(list []ast.Stmt, end token.Pos, parent ast.Node) {
			if len(list) > 0 {
				if b, ok := parent.(*ast.BlockStmt); ok && len(b.List) > 0 {
					switch b.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return
					}
				}
				p := list[0].Pos()
				t.replaceRange(p, p, "_ = 0\n")
			}
		})
	},
}

// blocks: the bodies of ifs, cases and loops.
func blocks(root ast.Node, f func(list []ast.Stmt, inLoop bool)) {
	ast.Inspect(root, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.IfStmt:
			f(x.Body.List, false)
			if b, ok := x.Else.(*ast.BlockStmt); ok {
				f(b.List, false)
			}
		case *ast.CaseClause:
			f(x.Body, false)
		case *ast.ForStmt:
			f(x.Body.List, true)
		case *ast.RangeStmt:
			f(x.Body.List, true)
		}
		return true
	})
}

// breaks: an unlabelled break or a fallthrough leaves the switch.
func breaks(b *ast.BlockStmt) bool {
	found := false
	var walk func(n ast.Node, depth int)
	walk = func(n ast.Node, depth int) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == n || m == nil {
				return true
			}
			switch x := m.(type) {
			case *ast.BranchStmt:
				if x.Tok == token.FALLTHROUGH || x.Tok == token.BREAK && x.Label == nil {
					found = true
				}
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt, *ast.FuncLit:
				// a fallthrough belongs to the inner switch, too
				return false
			}
			return true
		})
	}
	walk(b, 0)
	return found
}

// jumps: the statements may leave the list other than by its end.
func jumps(list []ast.Stmt, returns bool) bool {
	found := false
	var walk func(n ast.Node, loop, sw bool)
	walk = func(n ast.Node, loop, sw bool) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == nil || m == n && !isStmtLeaf(m) {
				return true
			}
			switch x := m.(type) {
			case *ast.ReturnStmt:
				if returns {
					found = true
				}
			case *ast.DeferStmt, *ast.LabeledStmt:
				found = true
			case *ast.BranchStmt:
				if x.Label != nil || x.Tok == token.GOTO || x.Tok == token.CONTINUE && !loop || x.Tok == token.BREAK && !loop && !sw {
					found = true
				}
			case *ast.ForStmt:
				walk(x.Body, true, true)
				return false
			case *ast.RangeStmt:
				walk(x.Body, true, true)
				return false
			case *ast.SwitchStmt:
				walk(x.Body, loop, true)
				return false
			case *ast.TypeSwitchStmt:
				walk(x.Body, loop, true)
				return false
			case *ast.SelectStmt:
				walk(x.Body, loop, true)
				return false
			case *ast.FuncLit:
				return false
			}
			return true
		})
	}
	for _, s := range list {
		walk(&ast.BlockStmt{List: []ast.Stmt{s}}, false, false)
	}
	return found
}

func isStmtLeaf(n ast.Node) bool { return false }

// extract moves the bodies of ifs, cases and loops to functions of their own:
// those that never return from the function, or (tail) that always do.
func (t *tool) extract(fd *ast.FuncDecl, tail bool) {
	if fd.Type.TypeParams != nil {
		return
	}
	var lits []*ast.FuncLit
	ast.Inspect(fd, func(n ast.Node) bool {
		if l, ok := n.(*ast.FuncLit); ok {
			lits = append(lits, l)
		}
		return true
	})
	blocks(fd, func(list []ast.Stmt, inLoop bool) {
		if len(list) == 0 || jumps(list, !tail) {
			return
		}
		first, last := list[0].Pos(), list[len(list)-1].End()
		results := fd.Type.Results
		for _, l := range lits {
			if l.Pos() <= first && last <= l.End() {
				results = l.Type.Results
			}
		}
		if tail && (!endsInReturn(list) || results == nil) {
			return
		}
		if tail && results.List[0].Names != nil {
			return
		}
		if fd.Recv != nil {
			ty := fd.Recv.List[0].Type
			if s, ok := ty.(*ast.StarExpr); ok {
				ty = s.X
			}
			if _, ok := ty.(*ast.IndexExpr); ok {
				return
			}
		}
		seen := map[*types.Var]bool{}
		var vars []*types.Var
		bad := false
		root := &ast.BlockStmt{List: list}
		outer := func(e ast.Expr) *types.Var {
			for {
				switch x := e.(type) {
				case *ast.ParenExpr:
					e = x.X
					continue
				case *ast.Ident:
					v, ok := t.info.Uses[x].(*types.Var)
					if ok && !v.IsField() && v.Pkg() != nil && v.Parent() != v.Pkg().Scope() && (v.Pos() < first || v.Pos() >= last) {
						return v
					}
				}
				return nil
			}
		}
		valueRoot := func(e ast.Expr) *types.Var {
			for {
				switch x := e.(type) {
				case *ast.SelectorExpr:
					if _, ok := t.info.Types[x.X].Type.Underlying().(*types.Pointer); ok {
						return nil
					}
					e = x.X
					continue
				case *ast.IndexExpr:
					if _, ok := t.info.Types[x.X].Type.Underlying().(*types.Array); !ok {
						return nil
					}
					e = x.X
					continue
				}
				return outer(e)
			}
		}
		ast.Inspect(root, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.Ident:
				if v := outer(x); v != nil && !seen[v] {
					seen[v] = true
					vars = append(vars, v)
				}
				if tn, ok := t.info.Uses[x].(*types.TypeName); ok && tn.Pkg() == t.pkg && tn.Parent() != t.pkg.Scope() {
					bad = true
				}
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					if valueRoot(l) != nil {
						bad = true
					}
				}
			case *ast.IncDecStmt:
				if valueRoot(x.X) != nil {
					bad = true
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND && valueRoot(x.X) != nil {
					bad = true
				}
			case *ast.RangeStmt:
				if x.Tok == token.ASSIGN {
					bad = true
				}
			case *ast.CallExpr:
				// methods with pointer receivers
				if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
					if s := t.info.Selections[sel]; s != nil && s.Kind() == types.MethodVal {
						sig := s.Obj().Type().(*types.Signature)
						if _, ptr := sig.Recv().Type().Underlying().(*types.Pointer); ptr {
							if _, isp := t.info.Types[sel.X].Type.Underlying().(*types.Pointer); !isp && valueRoot(sel.X) != nil {
								bad = true
							}
						}
					}
				}
			}
			return true
		})
		if bad {
			return
		}
		// variables captured by the function that change later are passed by
		// value, which is only right if no closure here keeps them
		for _, s := range list {
			ast.Inspect(s, func(n ast.Node) bool {
				switch n.(type) {
				case *ast.FuncLit, *ast.GoStmt:
					bad = true
				}
				return true
			})
		}
		if bad {
			return
		}
		imports := map[string]string{}
		for _, im := range t.file.Imports {
			path := strings.Trim(im.Path.Value, `"`)
			if im.Name != nil {
				imports[path] = im.Name.Name
			} else {
				imports[path] = ""
			}
		}
		qual := func(p *types.Package) string {
			if p == t.pkg {
				return ""
			}
			n, ok := imports[p.Path()]
			if !ok {
				bad = true
			}
			if n != "" {
				return n
			}
			return p.Name()
		}
		var ps, as []string
		recv, callee := "", ""
		base := t.fname[strings.LastIndex(t.fname, "/")+1:]
		name := t.fresh(strings.ToLower(fd.Name.Name[:1]) + fd.Name.Name[1:] + "Part" + strings.TrimSuffix(strings.ReplaceAll(base, "_", ""), ".go"))
		for _, v := range vars {
			if fd.Recv != nil && len(fd.Recv.List[0].Names) > 0 && t.info.Defs[fd.Recv.List[0].Names[0]] == v {
				recv = t.text(fd.Recv) + " "
				callee = v.Name() + "."
				continue
			}
			ps = append(ps, v.Name()+" "+types.TypeString(v.Type(), qual))
			as = append(as, v.Name())
			if nm, ok := v.Type().(*types.Named); ok && nm.Obj().Pkg() == t.pkg && nm.Obj().Parent() != t.pkg.Scope() {
				bad = true
			}
		}
		if bad {
			return
		}
		sig := "(" + strings.Join(ps, ", ") + ")"
		call := callee + name + "(" + strings.Join(as, ", ") + ")"
		if tail {
			sig += " " + t.text(results)
			call = "return " + call
		}
		decl := "\nfunc " + recv + name + sig + " {\n" + t.between(first, last) + "\n}\n"
		end := t.off(fd.End())
		t.sites = append(t.sites, site{fn: t.fn, edits: []edit{{t.fname, t.off(first), t.off(last), call}, {t.fname, end, end, decl}}, lo: t.off(first), hi: t.off(last), file: t.fname})
	})
}

func main() {
	kind := flag.String("t", "", "kind of rewriting")
	dir := flag.String("repo", "", "copy of the repository, which is rewritten")
	seed := flag.Int("seed", 0, "which of overlapping places to choose")
	only := flag.String("only", "", "functions to rewrite (regular expression)")
	not := flag.String("not", "", "functions not to rewrite (regular expression)")
	part := flag.String("part", "", "I/N: only that part of the places")
	list := flag.Bool("list", false, "list the places")
	flag.Parse()
	if *kind == "" {
		var ks []string
		for k := range kinds {
			ks = append(ks, k)
		}
		ks = append(ks, "names", "types", "fields")
		sort.Strings(ks)
		fmt.Println(strings.Join(ks, "\n"))
		return
	}
	pkgs, err := packages.Load(&packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo, Dir: *dir}, "./...")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	switch *kind {
	case "names":
		renameDecls(pkgs, *dir, *seed, 12, "func method var const")
		return
	case "types":
		renameDecls(pkgs, *dir, *seed, 12, "type")
		return
	case "fields":
		renameDecls(pkgs, *dir, *seed, 12, "field")
		return
	}
	src := map[string][]byte{}
	var sites []site
	for _, pkg := range pkgs {
		if strings.Contains(pkg.PkgPath, "/contrib") {
			continue
		}
		for i, f := range pkg.Syntax {
			fn := pkg.CompiledGoFiles[i]
			if !strings.HasPrefix(fn, *dir) {
				continue
			}
			b, err := os.ReadFile(fn)
			if err != nil {
				panic(err)
			}
			src[fn] = b
			t := &tool{fset: pkg.Fset, src: src, info: pkg.TypesInfo, pkg: pkg.Types, file: f, fname: fn}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				t.fn = pkg.Name + "." + fd.Name.Name
				t.fd = fd
				if *only != "" && !regexp.MustCompile(*only).MatchString(t.fn) {
					continue
				}
				if *not != "" && regexp.MustCompile(*not).MatchString(t.fn) {
					continue
				}
				kinds[*kind](t, fd)
			}
			sites = append(sites, t.sites...)
		}
	}
	// choose among overlapping places
	rank := func(s site) uint32 {
		h := fnv.New32a()
		fmt.Fprintf(h, "%d %s %d %d", *seed, s.file, s.lo, s.hi)
		return h.Sum32()
	}
	sort.SliceStable(sites, func(i, j int) bool { return rank(sites[i]) < rank(sites[j]) })
	var chosen []site
	for _, s := range sites {
		ok := true
		for _, c := range chosen {
			if c.file == s.file && s.lo < c.hi && c.lo < s.hi || c.file == s.file && c.lo == s.lo && c.hi == s.hi {
				ok = false
				break
			}
		}
		if ok {
			chosen = append(chosen, s)
		}
	}
	sort.SliceStable(chosen, func(i, j int) bool {
		if chosen[i].file != chosen[j].file {
			return chosen[i].file < chosen[j].file
		}
		return chosen[i].lo < chosen[j].lo
	})
	if *part != "" {
		var i, n int
		fmt.Sscanf(*part, "%d/%d", &i, &n)
		lo, hi := len(chosen)*i/n, len(chosen)*(i+1)/n
		chosen = chosen[lo:hi]
	}
	byFile := map[string][]edit{}
	for _, s := range chosen {
		if *list {
			fmt.Printf("%s:%d %s\n", s.file, s.lo, s.fn)
		}
		byFile[s.file] = append(byFile[s.file], s.edits...)
	}
	fmt.Printf("%d places\n", len(chosen))
	for fn, es := range byFile {
		sort.SliceStable(es, func(i, j int) bool {
			if es[i].start != es[j].start {
				return es[i].start < es[j].start
			}
			return es[i].end < es[j].end
		})
		var out bytes.Buffer
		pos := 0
		b := src[fn]
		for _, e := range es {
			out.Write(b[pos:e.start])
			out.WriteString(e.text)
			pos = e.end
		}
		out.Write(b[pos:])
		res, err := format.Source(out.Bytes())
		if err != nil {
			fmt.Fprintf(os.Stderr, "%s: %v\n", fn, err)
			res = out.Bytes()
		}
		if err := os.WriteFile(fn, res, 0644); err != nil {
			panic(err)
		}
	}
}
