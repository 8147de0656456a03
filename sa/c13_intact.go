package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// checkMatch: text given to a full-text search is quoted, for the search has
// a syntax of its own.
func (p *Program) checkMatch(r *Report, u *sqlUse, key string, st *sqlStmt, bound map[string]located) {
	conds, _ := conjuncts(st.where)
	for _, cd := range conds {
		for _, t := range cd.rhs {
			if t.kind == '(' {
				p.checkMatch(r, u, key, parseStmt(t.sub), bound)
			}
		}
		if cd.op != "MATCH" {
			continue
		}
		for _, ph := range placeholders(cd.rhs) {
			l, ok := bound[ph]
			if !ok {
				continue
			}
			bad := ""
			for _, o := range p.origins(l.v, l.ctx, sliceOpts{Up: true, Stop: func(v ssa.Value, c *Ctx) bool {
				call, ok := v.(*ssa.Call)
				return ok && quotes(call.Call.StaticCallee(), 2)
			}}) {
				if _, ok := constString(o.V); ok {
					continue
				}
				call, ok := o.V.(*ssa.Call)
				if !ok || !quotes(call.Call.StaticCallee(), 2) {
					bad = p.valAt(o.V)
				}
			}
			r.Check(bad == "", "placeholders", key+" MATCH", "%s: text from the client is given to the full-text search unquoted: it is taken for operators of the search %s", p.at(u.call), bad)
		}
	}
}

// quotes: g writes double quotes.
func quotes(g *ssa.Function, d int) bool {
	if g == nil || g.Blocks == nil || d < 0 {
		return false
	}
	for _, b := range g.Blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				if *op == nil {
					continue
				}
				if k, ok := constInt(*op); ok && k == '"' {
					return true
				}
				if s, ok := constString(*op); ok && strings.Contains(s, `"`) {
					return true
				}
			}
			if c, ok := ins.(ssa.CallInstruction); ok && quotes(c.Common().StaticCallee(), d-1) && c.Common().StaticCallee().Pkg == g.Pkg {
				return true
			}
		}
	}
	return false
}

// checkIntact: what is stored and read back is the value itself: whole columns
// are decoded, a message's text is its text, and storing a record leaves the
// caller's record alone (but for its identifier).
func (p *Program) checkIntact(r *Report) {
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		if p.pkgOf(fn) != "database" {
			return
		}
		switch x := ins.(type) {
		case *ssa.Call:
			n := p.calleeName(x)
			if n != "strings.Split" && n != "strings.SplitN" {
				return
			}
			args := callArgs(x)
			for _, l := range p.lift(args[0], x) {
				for _, lf := range p.leaves(l, nil) {
					_, cut := lf.v.(*ssa.Slice)
					r.Check(!cut, "codec", "whole value in "+p.fnID(fn), "%s: only a part of the stored value is decoded", p.at(x))
				}
			}
		case *ssa.IndexAddr:
			k, ok := constInt(x.Index)
			if !ok {
				return
			}
			if _, _, ok := p.loadOf(x.X, nil, "gopkg.in/irc.v4.Message", "Params"); !ok {
				return
			}
			r.Check(k == 1, "same-field", "text in "+p.fnID(fn), "%s: a message is stored with parameter %d for its text", p.at(x), k)
		case *ssa.Store:
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			fv := fieldVar(fa.X.Type(), fa.Field)
			if fv == nil || fv.Name() == "ID" {
				return
			}
			// the record the field belongs to
			base := fa.X
			in := []string{fv.Name()}
			for {
				f, ok := base.(*ssa.FieldAddr)
				if !ok {
					break
				}
				if v := fieldVar(f.X.Type(), f.Field); v != nil {
					in = append([]string{v.Name()}, in...)
				}
				base = f.X
			}
			isRecord := func(v ssa.Value) bool {
				pm, ok := v.(*ssa.Parameter)
				if !ok || !strings.HasPrefix(p.typeName(pm.Type()), "database.") || !strings.HasPrefix(pm.Parent().Name(), "Store") || pm.Parent().Signature.Recv() == nil {
					return false
				}
				n := p.typeName(pm.Type())
				return n != "database.SqliteDB" && n != "database.PostgresDB"
			}
			given := false
			for _, o := range p.origins(base, nil, sliceOpts{Up: true, Stop: func(v ssa.Value, c *Ctx) bool { return isRecord(v) }}) {
				given = given || isRecord(o.V)
			}
			if !given {
				return
			}
			name := strings.Join(in, ".")
			// Credentials of one mechanism are forgotten for another's.
			ok = false
			if strings.HasPrefix(name, "SASL.External.") {
				cut := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
					a, b, op, ok := cmpFact(cond, pol)
					if !ok {
						return false
					}
					for i := 0; i < 2; i++ {
						if s, k := constString(b); k && (op == token.EQL && s != "EXTERNAL" || op == token.NEQ && s == "EXTERNAL") {
							w, _ := p.res(a, c)
							if u, ok := w.(*ssa.UnOp); ok && u.Op == token.MUL {
								if f, ok := u.X.(*ssa.FieldAddr); ok {
									if v := fieldVar(f.X.Type(), f.Field); v != nil && v.Name() == "Mechanism" {
										return true
									}
								}
							}
						}
						a, b = b, a
					}
					return false
				}}
				ok = !p.searchEntry(x, cut)
			}
			r.Check(ok, "same-field", name+" in "+p.fnID(fn), "%s: storing a record changes its field %s", p.at(x), name)
		}
	})
}
