package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Builders for cuts.

// nilErrOf: the error of a call to one of names being nil; check (optional)
// further constrains the call.
func (p *Program) nilErrOf(check func(call *ssa.Call, c *Ctx) bool, names ...string) *Cut {
	return &Cut{Nil: func(v ssa.Value, isNil bool, c *Ctx) bool {
		if !isNil {
			return false
		}
		call := p.errOf(v)
		if call == nil {
			return false
		}
		n := p.calleeName(call)
		for _, w := range names {
			if n == w {
				return check == nil || check(call, c)
			}
		}
		return false
	}}
}

// fieldTrue: a read of the named bool field yields want.
func (p *Program) fieldTrue(typ, field string, want bool, base func(b ssa.Value, c *Ctx) bool) *Cut {
	return &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
		b, bc, ok := p.loadOf(cond, c, typ, field)
		return ok && pol == want && (base == nil || base(b, bc))
	}}
}

// cmp matches a comparison fact: cond with polarity pol states "a op b".
func cmpFact(cond ssa.Value, pol bool) (a, b ssa.Value, op token.Token, ok bool) {
	x, isb := cond.(*ssa.BinOp)
	if !isb {
		return nil, nil, 0, false
	}
	op = x.Op
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
	default:
		return nil, nil, 0, false
	}
	if !pol {
		op = map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ,
			token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}[op]
	}
	return x.X, x.Y, op, true
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// eqFact: cond/pol states a op b or b op a for EQL/NEQ; f gets both orders.
func eqFact(cond ssa.Value, pol bool, want token.Token, f func(a, b ssa.Value) bool) bool {
	a, b, op, ok := cmpFact(cond, pol)
	if !ok || op != want {
		return false
	}
	return f(a, b) || f(b, a)
}

// strNonEmpty: cond/pol states that the string x satisfying is() is non-empty.
func (p *Program) strNonEmpty(is func(v ssa.Value, c *Ctx) bool) *Cut {
	return &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
		if eqFact(cond, pol, token.NEQ, func(a, b ssa.Value) bool {
			s, ok := constString(b)
			return ok && s == "" && is(a, c)
		}) {
			return true
		}
		// equal to a non-empty constant
		if eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
			s, ok := constString(b)
			return ok && s != "" && is(a, c)
		}) {
			return true
		}
		return p.lenFact(cond, pol, c, is) >= 1
	}}
}

// lenFact returns the least length of x that cond/pol implies, or -1.
func (p *Program) lenFact(cond ssa.Value, pol bool, c *Ctx, is func(v ssa.Value, c *Ctx) bool) int64 {
	a, b, op, ok := cmpFact(cond, pol)
	if !ok {
		return -1
	}
	for i := 0; i < 2; i++ {
		if call, isc := a.(*ssa.Call); isc {
			if bi, isb := call.Common().Value.(*ssa.Builtin); isb && bi.Name() == "len" && is(call.Common().Args[0], c) {
				if k, isk := constInt(b); isk {
					switch op {
					case token.GTR:
						return k + 1
					case token.GEQ, token.EQL:
						return k
					case token.NEQ:
						if k == 0 {
							return 1
						}
					}
				}
			}
		}
		a, b, op = b, a, flip(op)
	}
	return -1
}

func anyOf(cuts ...*Cut) *Cut {
	return &Cut{
		Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
			for _, k := range cuts {
				if k.Atom != nil && k.Atom(cond, pol, c) {
					return true
				}
			}
			return false
		},
		Instr: func(ins ssa.Instruction, c *Ctx) bool {
			for _, k := range cuts {
				if k.Instr != nil && k.Instr(ins, c) {
					return true
				}
			}
			return false
		},
		Nil: func(v ssa.Value, isNil bool, c *Ctx) bool {
			for _, k := range cuts {
				if k.Nil != nil && k.Nil(v, isNil, c) {
					return true
				}
			}
			return false
		},
	}
}

// fixed makes a context-independent cut builder.
func fixed(c *Cut) func(*Ctx) *Cut { return func(*Ctx) *Cut { return c } }

// nilReturns lists the returns of fn that may yield a nil error without the
// cut having been passed.
func (p *Program) nilReturns(fn *ssa.Function, cut *Cut) []*ssa.Return {
	var out []*ssa.Return
	can := func(r ssa.Value) tri { return triNil(p, r, true) }
	for _, b := range fn.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		bad := false
		for _, v := range r.Results {
			if !isErrorType(v.Type()) || can(v) == no {
				continue
			}
			if !p.blockEndReach(b, nil, p.excluding(cut, v, false, nil), 0) {
				continue
			}
			// a spilled named result: stores reaching the return
			if p.resultEst(v, can, true, true, nil, cut, 0) {
				continue
			}
			bad = true
		}
		if bad {
			out = append(out, r)
		}
	}
	return out
}

// implementers returns the repository methods implementing iface.method.
func (p *Program) implementers(pkg, iface, method string) []*ssa.Function {
	sp := p.ByPkg[pkg]
	if sp == nil {
		return nil
	}
	tn, ok := sp.Pkg.Scope().Lookup(iface).(*types.TypeName)
	if !ok {
		return nil
	}
	it, ok := tn.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == method {
			return p.implementations(tn.Type(), it.Method(i))
		}
	}
	return nil
}

// guardRule runs Unguarded for one site and records the outcome.
func (p *Program) guardRule(r *Report, rule, key string, site ssa.Instruction, mk func(*Ctx) *Cut, o GuardOpts, what string) bool {
	bad := p.Unguarded(site, mk, o)
	if len(bad) == 0 {
		r.Ok(rule, key)
		return true
	}
	r.Bad(rule, key, "%s: %s; unguarded path: %s", p.at(site), what, p.chainString(bad[0]))
	return false
}
