package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Extraction of SQL statements from calls into database/sql: constant
// propagation over string and slice expressions, one alternative per
// combination of branches that contribute a fragment.

type sqlEnv struct {
	sel   map[*ssa.BasicBlock]int
	conds map[string]bool
}

func (e sqlEnv) with(b *ssa.BasicBlock, i int, conds map[string]bool) (sqlEnv, bool) {
	n := sqlEnv{map[*ssa.BasicBlock]int{}, map[string]bool{}}
	for k, v := range e.sel {
		n.sel[k] = v
	}
	for k, v := range e.conds {
		n.conds[k] = v
	}
	n.sel[b] = i
	for k, v := range conds {
		if o, ok := n.conds[k]; ok && o != v {
			return n, false
		}
		n.conds[k] = v
	}
	return n, true
}

type sqlVal struct {
	kind byte // 's' string, 'i' int, 'l' list, 0 unknown
	s    string
	n    int64
	el   []located
}

type sqlAlt struct {
	env sqlEnv
	val sqlVal
}

type sqlEval struct {
	p      *Program
	embeds map[*ssa.Global]string
}

const maxAlts = 3000

func (e *sqlEval) eval(v ssa.Value, c *Ctx, env sqlEnv, d int) []sqlAlt {
	unk := []sqlAlt{{env, sqlVal{}}}
	if d > 40 {
		return unk
	}
	p := e.p
	v, c = p.res(v, c)
	one := func(x sqlVal) []sqlAlt { return []sqlAlt{{env, x}} }
	if s, ok := constString(v); ok {
		return one(sqlVal{kind: 's', s: s})
	}
	if n, ok := constInt(v); ok {
		return one(sqlVal{kind: 'i', n: n})
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return one(sqlVal{kind: 'l'})
		}
	case *ssa.BinOp:
		if x.Op != token.ADD {
			return unk
		}
		var out []sqlAlt
		for _, a := range e.eval(x.X, c, env, d+1) {
			for _, b := range e.eval(x.Y, c, a.env, d+1) {
				switch {
				case a.val.kind == 's' && b.val.kind == 's':
					out = append(out, sqlAlt{b.env, sqlVal{kind: 's', s: a.val.s + b.val.s}})
				case a.val.kind == 'i' && b.val.kind == 'i':
					out = append(out, sqlAlt{b.env, sqlVal{kind: 'i', n: a.val.n + b.val.n}})
				default:
					out = append(out, sqlAlt{b.env, sqlVal{}})
				}
				if len(out) > maxAlts {
					return unk
				}
			}
		}
		return out
	case *ssa.Phi:
		blk := x.Block()
		if i, ok := env.sel[blk]; ok {
			return e.eval(x.Edges[i], c, env, d+1)
		}
		for _, pr := range blk.Preds {
			if blk.Dominates(pr) {
				return unk
			}
		}
		var out []sqlAlt
		for i, pr := range blk.Preds {
			n, ok := env.with(blk, i, e.edgeConds(pr, blk))
			if !ok {
				continue
			}
			out = append(out, e.eval(x.Edges[i], c, n, d+1)...)
			if len(out) > maxAlts {
				return unk
			}
		}
		return out
	case *ssa.Slice:
		if x.Low != nil || x.High != nil {
			return unk
		}
		al, ok := x.X.(*ssa.Alloc)
		if !ok {
			return unk
		}
		n, ok := arrayLen(al.Type())
		if !ok {
			return unk
		}
		el := make([]located, n)
		for _, r := range *al.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			k, ok := constInt(ia.Index)
			if !ok || k < 0 || k >= n {
				return unk
			}
			for _, rr := range *ia.Referrers() {
				if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
					el[k] = located{st.Val, c, st}
				}
			}
		}
		for _, l := range el {
			if l.v == nil {
				return unk
			}
		}
		return one(sqlVal{kind: 'l', el: el})
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			var out []sqlAlt
			for _, a := range e.eval(ia.X, c, env, d+1) {
				if a.val.kind != 'l' || len(a.val.el) == 0 {
					return unk
				}
				k, isk := constInt(ia.Index)
				for i, el := range a.val.el {
					if !isk || int64(i) == k {
						out = append(out, e.eval(el.v, el.ctx, a.env, d+1)...)
					}
				}
			}
			return out
		}
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			if s, ok := e.embeds[g]; ok {
				return one(sqlVal{kind: 's', s: s})
			}
			if vs := p.globalStores(g); len(vs) == 1 && vs[0] != nil {

				if s, ok := constString(vs[0]); ok {
					return one(sqlVal{kind: 's', s: s})
				}
			}
		}
	case *ssa.Call:
		args := x.Common().Args
		name := p.calleeName(x)
		switch name {
		case "builtin.len":
			var out []sqlAlt
			for _, a := range e.eval(args[0], c, env, d+1) {
				switch a.val.kind {
				case 'l':
					out = append(out, sqlAlt{a.env, sqlVal{kind: 'i', n: int64(len(a.val.el))}})
				case 's':
					out = append(out, sqlAlt{a.env, sqlVal{kind: 'i', n: int64(len(a.val.s))}})
				default:
					out = append(out, sqlAlt{a.env, sqlVal{}})
				}
			}
			return out
		case "builtin.append":
			var out []sqlAlt
			for _, a := range e.eval(args[0], c, env, d+1) {
				if len(args) < 2 {
					out = append(out, a)
					continue
				}
				for _, b := range e.eval(args[1], c, a.env, d+1) {
					if a.val.kind != 'l' || b.val.kind != 'l' {
						out = append(out, sqlAlt{b.env, sqlVal{}})
						continue
					}
					el := append(append([]located(nil), a.val.el...), b.val.el...)
					out = append(out, sqlAlt{b.env, sqlVal{kind: 'l', el: el}})
				}
				if len(out) > maxAlts {
					return unk
				}
			}
			return out
		case "fmt.Sprintf", "strings.Join":
			return e.fold(x, name, args, c, env, d)
		case "strings.ReplaceAll", "strings.TrimSpace", "strconv.Itoa":
			return e.fold(x, name, args, c, env, d)
		}
		callees := p.callees[x]
		if len(callees) != 1 || c.depth() > 6 {
			return unk
		}
		for y := c; y != nil; y = y.up {
			if y.call == ssa.CallInstruction(x) {
				return unk
			}
		}
		var out []sqlAlt
		for _, b := range callees[0].Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
				out = append(out, e.eval(r.Results[0], mkCtx(Ctx{up: c, call: x}), env, d+1)...)
			}
		}
		if len(out) > 0 {
			return out
		}
	}
	return unk
}

// fold applies a known string function to evaluated arguments.
func (e *sqlEval) fold(x *ssa.Call, name string, args []ssa.Value, c *Ctx, env sqlEnv, d int) []sqlAlt {
	type st struct {
		env  sqlEnv
		vals []sqlVal
	}
	states := []st{{env, nil}}
	for _, a := range args {
		var next []st
		for _, s := range states {
			for _, r := range e.eval(a, c, s.env, d+1) {
				next = append(next, st{r.env, append(append([]sqlVal(nil), s.vals...), r.val)})
			}
		}
		states = next
	}
	elems := func(s st, l sqlVal) ([]sqlVal, bool) {
		var out []sqlVal
		for _, el := range l.el {
			rs := e.eval(el.v, el.ctx, s.env, d+1)
			if len(rs) != 1 || rs[0].val.kind == 0 {
				return nil, false
			}
			out = append(out, rs[0].val)
		}
		return out, true
	}
	var out []sqlAlt
	for _, s := range states {
		res := sqlVal{}
		known := true
		for _, v := range s.vals {
			if v.kind == 0 {
				known = false
			}
		}
		if known {
			switch name {
			case "strings.ReplaceAll":
				res = sqlVal{kind: 's', s: strings.ReplaceAll(s.vals[0].s, s.vals[1].s, s.vals[2].s)}
			case "strings.TrimSpace":
				res = sqlVal{kind: 's', s: strings.TrimSpace(s.vals[0].s)}
			case "strconv.Itoa":
				res = sqlVal{kind: 's', s: strconv.FormatInt(s.vals[0].n, 10)}
			case "strings.Join":
				if el, ok := elems(s, s.vals[0]); ok {
					var parts []string
					for _, v := range el {
						parts = append(parts, v.s)
					}
					res = sqlVal{kind: 's', s: strings.Join(parts, s.vals[1].s)}
				}
			case "fmt.Sprintf":
				if el, ok := elems(s, s.vals[1]); ok {
					var a []interface{}
					for _, v := range el {
						switch v.kind {
						case 's':
							a = append(a, v.s)
						case 'i':
							a = append(a, v.n)
						default:
							a = append(a, "?")
						}
					}
					res = sqlVal{kind: 's', s: fmt.Sprintf(s.vals[0].s, a...)}
				}
			}
		}
		out = append(out, sqlAlt{s.env, res})
	}
	return out
}

// edgeConds lists the branch outcomes implied by entering blk from pr.
func (e *sqlEval) edgeConds(pr, blk *ssa.BasicBlock) map[string]bool {
	out := map[string]bool{}
	to := blk
	for i := 0; i < 20; i++ {
		if iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If); ok && pr.Succs[0] != pr.Succs[1] {
			k, neg := e.condKey(iff.Cond)
			if k != "" {
				out[k] = (to == pr.Succs[0]) != neg
			}
		}
		if len(pr.Preds) != 1 {
			break
		}
		to, pr = pr, pr.Preds[0]
	}
	return out
}

func (e *sqlEval) condKey(v ssa.Value) (string, bool) {
	neg := false
	for {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
			v, neg = u.X, !neg
			continue
		}
		break
	}
	if b, ok := v.(*ssa.BinOp); ok {
		switch b.Op {
		case token.NEQ:
			return e.pureKey(b.X, 0) + "==" + e.pureKey(b.Y, 0), !neg
		case token.EQL, token.LSS, token.GTR, token.LEQ, token.GEQ:
			return e.pureKey(b.X, 0) + b.Op.String() + e.pureKey(b.Y, 0), neg
		}
	}
	return e.pureKey(v, 0), neg
}

func (e *sqlEval) pureKey(v ssa.Value, d int) string {
	p := e.p
	if d > 6 {
		return p.ap(v, nil)
	}
	if call, ok := v.(*ssa.Call); ok {
		n := p.calleeName(call)
		switch n {
		case "time.Time.IsZero", "builtin.len":
			return n + "(" + e.pureKey(call.Common().Args[0], d+1) + ")"
		}
	}
	return p.ap(v, nil)
}

// globalStores lists the values stored into a package variable; a store outside
// package initialisation counts as nil.
func (p *Program) globalStores(g *ssa.Global) []ssa.Value {
	if p.globals == nil {
		p.globals = map[*ssa.Global][]ssa.Value{}
		for _, pk := range p.ByPkg {
			if f := pk.Func("init"); f != nil {
				for _, b := range f.Blocks {
					for _, ins := range b.Instrs {
						if st, ok := ins.(*ssa.Store); ok {
							if g, ok := st.Addr.(*ssa.Global); ok {
								p.globals[g] = append(p.globals[g], st.Val)
							}
						}
					}
				}
			}
		}
		p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
			if st, ok := ins.(*ssa.Store); ok && fn.Name() != "init" {
				if g, ok := st.Addr.(*ssa.Global); ok {
					p.globals[g] = append(p.globals[g], nil)
				}
			}
		})
	}
	return p.globals[g]
}

// embeddedText reads the files named by go:embed directives of string
// variables.
func (p *Program) embeddedText() map[*ssa.Global]string {
	out := map[*ssa.Global]string{}
	for _, pk := range p.Pkgs {
		for _, f := range pk.Syntax {
			dir := filepath.Dir(p.Fset.Position(f.Pos()).Filename)
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, sp := range gd.Specs {
					vs := sp.(*ast.ValueSpec)
					for _, doc := range []*ast.CommentGroup{gd.Doc, vs.Doc} {
						if doc == nil {
							continue
						}
						for _, cm := range doc.List {
							if !strings.HasPrefix(cm.Text, "//go:embed ") {
								continue
							}
							b, err := os.ReadFile(filepath.Join(dir, strings.TrimSpace(strings.TrimPrefix(cm.Text, "//go:embed "))))
							if err != nil || len(vs.Names) != 1 {
								continue
							}
							sp := p.SSA.Package(pk.Types)
							if g, ok := sp.Members[vs.Names[0].Name].(*ssa.Global); ok {
								out[g] = string(b)
							}
						}
					}
				}
			}
		}
	}
	return out
}

// A sqlUse is one execution of one text with its arguments, attributed to the
// database method it happens in.
type sqlUse struct {
	backend string // receiver type of the method
	method  string
	root    *ssa.Function
	call    ssa.CallInstruction // executing call
	prep    ssa.CallInstruction // the preparing call, if any
	ctx     *Ctx
	text    string
	known   bool
	args    []located
	argsOK  bool
	env     sqlEnv
}

// sqlMethod recognises a method of database/sql (or an interface with the same
// method) and returns the positions of the query and of the argument slice (-1
// when absent).
func (p *Program) sqlMethod(ci ssa.CallInstruction) (query, args int, prepare, ok bool) {
	c := ci.Common()
	var name, recv string
	if c.IsInvoke() {
		name = c.Method.Name()
		recv = p.typeName(c.Value.Type())
	} else if f := c.StaticCallee(); f != nil && f.Signature.Recv() != nil {
		name = p.fname(f)
		recv = p.typeName(f.Signature.Recv().Type())
	} else {
		return
	}
	base := strings.TrimSuffix(name, "Context")
	if base != "Exec" && base != "Query" && base != "QueryRow" && base != "Prepare" {
		return
	}
	res := c.Signature().Results()
	sqlRes := false
	for i := 0; i < res.Len(); i++ {
		if strings.HasPrefix(p.typeName(res.At(i).Type()), "database/sql.") {
			sqlRes = true
		}
	}
	if !sqlRes || !strings.HasPrefix(recv, "database/sql.") && !c.IsInvoke() {
		return
	}
	i := 1
	if strings.HasSuffix(name, "Context") {
		i++
	}
	if recv == "database/sql.Stmt" {
		return -1, i, false, true
	}
	if base == "Prepare" {
		return i, -1, true, true
	}
	return i, i + 1, false, true
}

// sqlUses finds every execution of SQL.
func (p *Program) sqlUses() []*sqlUse {
	e := &sqlEval{p: p, embeds: p.embeddedText()}
	methods := map[string]bool{}
	if it := p.databaseInterface(); it != nil {
		for i := 0; i < it.NumMethods(); i++ {
			methods[it.Method(i).Name()] = true
		}
	}
	isRoot := func(f *ssa.Function) bool {
		return f.Parent() == nil && f.Signature.Recv() != nil && methods[p.fname(f)]
	}
	var out []*sqlUse
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		ci, ok := ins.(ssa.CallInstruction)
		if !ok {
			return
		}
		qi, ai, prepare, ok := p.sqlMethod(ci)
		if !ok || prepare {
			return
		}
		// contexts up to the database method
		var ctxs []*Ctx
		var roots []*ssa.Function
		var rec func(f *ssa.Function, links []ssa.CallInstruction, d int) bool
		rec = func(f *ssa.Function, links []ssa.CallInstruction, d int) bool {
			outer := f
			for outer.Parent() != nil {
				outer = outer.Parent()
			}
			if isRoot(outer) {
				var c *Ctx
				for i := len(links) - 1; i >= 0; i-- {
					c = mkCtx(Ctx{up: c, call: links[i]})
				}
				ctxs = append(ctxs, c)
				roots = append(roots, outer)
				return true
			}
			if d > 4 || p.pkgOf(outer) != "database" {
				return false
			}
			found := false
			for _, k := range p.callers[f] {
				if rec(k.Parent(), append(append([]ssa.CallInstruction(nil), links...), k), d+1) {
					found = true
				}
			}
			return found
		}
		if !rec(fn, nil, 0) {
			outer := fn
			for outer.Parent() != nil {
				outer = outer.Parent()
			}
			ctxs, roots = []*Ctx{nil}, []*ssa.Function{outer}
		}
		all := callArgs(ci)
		for i, c := range ctxs {
			u := sqlUse{call: ci, ctx: c, root: roots[i], method: p.fname(roots[i])}
			if r := roots[i].Signature.Recv(); r != nil {
				u.backend = recvName(r.Type())
			} else {
				u.backend = roots[i].Name()
			}
			var query ssa.Value
			qc := c
			if qi >= 0 {
				query = all[qi]
			} else {
				// prepared: the statement's text
				sv, sc := p.res(all[0], c)
				if pc, ok := p.isPrepare(sv); ok {
					q, _, _, _ := p.sqlMethod(pc)
					query, qc = callArgs(pc)[q], sc
					u.prep = pc
				}
			}
			if query == nil {
				n := u
				out = append(out, &n)
				continue
			}
			for _, a := range e.eval(query, qc, sqlEnv{}, 0) {
				var argAlts []sqlAlt
				if ai < len(all) {
					argAlts = e.eval(all[ai], c, a.env, 0)
				} else {
					argAlts = []sqlAlt{{a.env, sqlVal{kind: 'l'}}}
				}
				for _, b := range argAlts {
					n := u
					n.env = b.env
					if a.val.kind == 's' {
						n.text, n.known = a.val.s, true
					}
					if b.val.kind == 'l' {
						n.args, n.argsOK = b.val.el, true
					}
					out = append(out, &n)
				}
			}
		}
	})
	return out
}

func (p *Program) isPrepare(v ssa.Value) (ssa.CallInstruction, bool) {
	ex, ok := v.(*ssa.Extract)
	if !ok {
		return nil, false
	}
	call, ok := ex.Tuple.(*ssa.Call)
	if !ok {
		return nil, false
	}
	_, _, prep, ok := p.sqlMethod(call)
	return call, ok && prep
}

// bound maps placeholders to argument values; ok is false when the arguments
// are not fully known.
func (p *Program) bound(u *sqlUse) (map[string]located, bool) {
	m := map[string]located{}
	if !u.argsOK {
		return m, false
	}
	for i, a := range u.args {
		v, c := p.res(a.v, a.ctx)
		if call, ok := v.(*ssa.Call); ok && p.calleeName(call) == "database/sql.Named" {
			n, isk := constString(call.Common().Args[0])
			if !isk {
				return m, false
			}
			m[":"+n] = located{call.Common().Args[1], c, a.site}
			continue
		}
		m["$"+strconv.Itoa(i+1)] = located{v, c, a.site}
		m["?"+strconv.Itoa(i+1)] = located{v, c, a.site}
	}
	return m, true
}

// recordPath: v reads a field (possibly nested) of a struct type of the
// database package or an IRC message; returns "Type.Field.Sub".
func (p *Program) recordPath(v ssa.Value) (string, bool) {
	var addr ssa.Value
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return "", false
		}
		addr = x.X
	case *ssa.Field:
		addr = x
	default:
		return "", false
	}
	return p.addrPath(addr)
}

func (p *Program) addrPath(addr ssa.Value) (string, bool) {
	var fields []string
	for {
		var t types.Type
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			fields = append([]string{fieldVar(x.X.Type(), x.Field).Name()}, fields...)
			t = x.X.Type()
			addr = x.X
		case *ssa.Field:
			fields = append([]string{fieldVar(x.X.Type(), x.Field).Name()}, fields...)
			t = x.X.Type()
			addr = x.X
		default:
			return "", false
		}
		n := p.typeName(t)
		if strings.HasPrefix(n, "database.") && n != "database.SASL" && n != "database.sqliteTime" || n == "gopkg.in/irc.v4.Message" {
			if _, ok := addr.(*ssa.FieldAddr); ok && n == "database.SASL" {
				continue
			}
			return n[strings.LastIndex(n, ".")+1:] + "." + strings.Join(fields, "."), true
		}
	}
}

// sourcesOf names what an argument is computed from.
func (p *Program) sourcesOf(l located, root *ssa.Function) map[string]bool {
	out := map[string]bool{}
	for _, o := range p.origins(l.v, l.ctx, sliceOpts{Data: true,
		Stop: func(v ssa.Value, c *Ctx) bool { _, ok := p.recordPath(v); return ok },
		Through: func(name string, call ssa.CallInstruction) []ssa.Value {
			if name == "time.Now" {
				return nil
			}
			if name == "strings.Builder.String" {
				return p.builderWrites(callArgs(call)[0])
			}
			if len(p.callees[call]) > 0 {
				return nil
			}
			return callArgs(call)
		}}) {
		if s, ok := p.recordPath(o.V); ok {
			out[s] = true
			continue
		}
		switch x := o.V.(type) {
		case *ssa.Parameter:
			if x.Parent() == root {
				if n := p.typeName(x.Type()); strings.HasPrefix(n, "gopkg.in/irc.v4.") {
					out["Message"] = true
				} else if strings.HasPrefix(n, "[]") {
					out["elements"] = true
				} else {
					out[fmt.Sprintf("param:%d", paramIndex(x))] = true
				}
			} else {
				out["other"] = true
			}
		case *ssa.Const:
		case *ssa.Call:
			if p.calleeName(x) == "time.Now" {
				out["now"] = true
			} else {
				out["other"] = true
			}
		case *ssa.Global, *ssa.Alloc, *ssa.MakeSlice:
		default:
			out["other"] = true
		}
	}
	return out
}

// builderWrites lists what is written into a local strings.Builder.
func (p *Program) builderWrites(recv ssa.Value) []ssa.Value {
	al, ok := recv.(*ssa.Alloc)
	if !ok {
		return nil
	}
	out := []ssa.Value{}
	for _, r := range *al.Referrers() {
		if ci, ok := r.(ssa.CallInstruction); ok {
			for _, a := range callArgs(ci) {
				if a != recv {
					out = append(out, a)
				}
			}
		}
		if mi, ok := r.(*ssa.MakeInterface); ok {
			for _, rr := range *mi.Referrers() {
				if ci, ok := rr.(ssa.CallInstruction); ok {
					for _, a := range callArgs(ci) {
						if a != ssa.Value(mi) {
							out = append(out, a)
						}
					}
				}
			}
		}
	}
	return out
}
