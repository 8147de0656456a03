package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// lostError follows the error produced by call through its function and
// returns a place where it may be non-nil and yet the function goes on to
// report success (or, with noCont, where it is overwritten unseen). accept
// names values the error may be compared with to be dealt with locally
// (sql.ErrNoRows). ok is true when the error can never be lost.
//
// The state is the set of SSA values and local cells known to hold the error.
func (p *Program) lostError(call *ssa.Call, accept func(cond ssa.Value, pol bool, holds func(ssa.Value) bool) bool) (at ssa.Instruction, ok bool) {
	return p.lostErrorCut(call, accept, nil)
}

// lostErrorCut is lostError where an instruction satisfying done deals with
// the error (a reply to the client, say).
func (p *Program) lostErrorCut(call *ssa.Call, accept func(cond ssa.Value, pol bool, holds func(ssa.Value) bool) bool, done func(ins ssa.Instruction) bool) (at ssa.Instruction, ok bool) {
	idx := errResult(call)
	if idx < 0 {
		return nil, true
	}
	fn := call.Parent()
	var e ssa.Value
	if call.Common().Signature().Results().Len() == 1 {
		e = call
	} else {
		for _, r := range *call.Referrers() {
			if ex, is := r.(*ssa.Extract); is && ex.Index == idx {
				e = ex
			}
		}
	}
	hasErr := -1
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if isErrorType(res.At(i).Type()) {
			hasErr = i
		}
	}
	if hasErr < 0 && done == nil {
		return nil, true
	}
	if e == nil || len(*e.Referrers()) == 0 {
		return call, false
	}
	type state struct {
		b    *ssa.BasicBlock
		held map[ssa.Value]bool
	}
	key := func(s state) string {
		k := ""
		for _, b := range s.b.Parent().Blocks {
			if b == s.b {
				break
			}
			k += "."
		}
		var names []string
		for v := range s.held {
			names = append(names, v.Name())
		}
		sortStrings(names)
		for _, n := range names {
			k += "|" + n
		}
		return k
	}
	seen := map[string]bool{}
	var bad ssa.Instruction
	var walk func(s state, i int)
	walk = func(s state, i int) {
		if bad != nil {
			return
		}
		held := map[ssa.Value]bool{}
		for k := range s.held {
			held[k] = true
		}
		holds := func(v ssa.Value) bool {
			for d := 0; d < 6; d++ {
				if held[v] {
					return true
				}
				switch x := v.(type) {
				case *ssa.ChangeInterface:
					v = x.X
				case *ssa.MakeInterface:
					v = x.X
				default:
					return false
				}
			}
			return false
		}
		for ; i < len(s.b.Instrs); i++ {
			ins := s.b.Instrs[i]
			if done != nil && done(ins) {
				return
			}
			switch x := ins.(type) {
			case *ssa.Store:
				if al := p.cell(x.Addr); al != nil {
					if holds(x.Val) {
						held[al] = true
					} else if held[al] {
						delete(held, al)
					}
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if al := p.cell(x.X); al != nil && held[al] {
						held[x] = true
					}
				}
			case *ssa.Call:
				// wrapping: any error computed from the held one counts as it
				if isErrorType(x.Type()) {
					for _, o := range p.origins(x, nil, sliceOpts{Data: true, Through: func(n string, c ssa.CallInstruction) []ssa.Value { return callArgs(c) }, Stop: func(v ssa.Value, c *Ctx) bool { return holds(v) }}) {
						if holds(o.V) {
							held[x] = true
						}
					}
				}
			case *ssa.Return:
				if hasErr < 0 {
					bad = x
					return
				}
				v := x.Results[hasErr]
				if holds(v) || triNil(p, v, true) == no {
					return
				}
				if c := p.callOf(v); c != nil && c != call && !isNilConst(v) {
					// the result of a later operation: it may succeed
					bad = x
					return
				}
				bad = x
				return
			case *ssa.Panic:
				return
			}
		}
		iff, isIf := s.b.Instrs[len(s.b.Instrs)-1].(*ssa.If)
		for si, succ := range s.b.Succs {
			if isIf {
				pol := si == 0
				if p.errBranchDead(iff.Cond, pol, holds) {
					continue
				}
				if accept != nil && accept(iff.Cond, pol, holds) {
					continue
				}
			}
			nh := map[ssa.Value]bool{}
			for k := range held {
				nh[k] = true
			}
			pi := -1
			for j, pr := range succ.Preds {
				if pr == s.b {
					pi = j
				}
			}
			for _, ins := range succ.Instrs {
				ph, is := ins.(*ssa.Phi)
				if !is {
					break
				}
				if pi >= 0 && holds(ph.Edges[pi]) {
					nh[ph] = true
				} else {
					delete(nh, ph)
				}
			}
			n := state{succ, nh}
			k := key(n)
			if seen[k] {
				continue
			}
			seen[k] = true
			// leaving through the block of the call again starts a new error
			walk(n, 0)
		}
	}
	walk(state{call.Block(), map[ssa.Value]bool{e: true}}, indexOf(call)+1)
	return bad, bad == nil
}

// errBranchDead: the branch cannot be taken while the held error is non-nil.
func (p *Program) errBranchDead(cond ssa.Value, pol bool, holds func(ssa.Value) bool) bool {
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		return p.errBranchDead(u.X, !pol, holds)
	}
	b, ok := cond.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		return false
	}
	eq := pol == (b.Op == token.EQL)
	if isNilConst(b.Y) && holds(b.X) || isNilConst(b.X) && holds(b.Y) {
		return eq
	}
	return false
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}
