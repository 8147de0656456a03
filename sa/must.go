package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An effect is something a path can do at an instruction.
type effect func(ins ssa.Instruction, c *Ctx) bool

// eff extends a direct effect to what contains it: a deferred call that always
// has it, an iteration that has it for every element, and a call of an
// iterator or runner with a function that always has it.
type effs struct {
	p      *Program
	direct effect
	skip   func(cond ssa.Value, pol bool, c *Ctx) bool // accepted conditions for not doing it
	loops  map[*ssa.BasicBlock]int
	all    bool // a loop that ends early with an error does not count
	may    map[*ssa.Function]bool
	depth  int
	memo   map[alwaysKey]bool
}

func (p *Program) effects(direct effect, skip func(cond ssa.Value, pol bool, c *Ctx) bool) *effs {
	return p.effectsMay(direct, direct, skip)
}

// effectsMay: may is a weaker form of direct that does not depend on the
// context, used to find the functions that can have the effect at all.
func (p *Program) effectsMay(direct, may effect, skip func(cond ssa.Value, pol bool, c *Ctx) bool) *effs {
	e := &effs{p: p, direct: direct, skip: skip, loops: map[*ssa.BasicBlock]int{}, may: map[*ssa.Function]bool{}, memo: map[alwaysKey]bool{}}
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !e.may[f] {
			e.may[f] = true
			work = append(work, f)
		}
	}
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		if may(ins, nil) {
			add(fn)
		}
	})
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if f.Parent() != nil { // a closure: where it is made
			add(f.Parent())
			continue
		}
		for _, ci := range p.callers[f] {
			if ci.Common().StaticCallee() != nil || ci.Common().IsInvoke() {
				add(ci.Parent())
			}
		}
	}
	return e
}

func (e *effs) cut() *Cut {
	return &Cut{Instr: e.instr, Enter: func(g *ssa.Function) bool { return e.may[g] }, Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
		return e.skip != nil && e.skip(cond, pol, c)
	}}
}

func (e *effs) instr(ins ssa.Instruction, c *Ctx) bool {
	if e.direct(ins, c) {
		return true
	}
	switch x := ins.(type) {
	case *ssa.If:
		return e.loop(x.Block(), c)
	case *ssa.Jump:
		// a range over a map or string, or any loop entered unconditionally
		return false
	case ssa.CallInstruction:
		if _, ok := ins.(*ssa.Go); ok {
			return false
		}
		for _, a := range x.Common().Args {
			if _, ok := a.Type().Underlying().(*types.Signature); !ok {
				continue
			}
			v, vc := e.p.res(a, c)
			if mc, ok := v.(*ssa.MakeClosure); ok {
				f := mc.Fn.(*ssa.Function)
				if e.always(f, mkCtx(Ctx{mc: mc, up: vc})) {
					return true
				}
				if t := e.p.thunkTarget(f); t != nil && e.always(t, nil) {
					return true
				}
				continue
			}
			fs := e.p.resolveValue(v, 0)
			all := len(fs) > 0
			for _, f := range fs {
				all = all && e.always(f, nil)
			}
			if all {
				return true
			}
		}
		if _, ok := ins.(*ssa.Defer); ok {
			for _, f := range e.p.callees[x] {
				var nc *Ctx
				if mc, ok := x.Common().Value.(*ssa.MakeClosure); ok {
					nc = mkCtx(Ctx{mc: mc, up: c})
				} else {
					nc = mkCtx(Ctx{call: x, up: c})
				}
				if e.always(f, nc) {
					return true
				}
			}
		}
	}
	return false
}

// always: every way through f has the effect.
func (e *effs) always(f *ssa.Function, c *Ctx) bool {
	if f.Blocks == nil || e.depth > 4 || !e.may[f] {
		return false
	}
	k := alwaysKey{f, c}
	if v, ok := e.memo[k]; ok {
		return v
	}
	e.depth++
	defer func() { e.depth-- }()
	ok := e.always1(f, c)
	e.memo[k] = ok
	return ok
}

type alwaysKey struct {
	f *ssa.Function
	c *Ctx
}

func (e *effs) always1(f *ssa.Function, c *Ctx) bool {
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if _, reach := e.p.reachInstr(r, c, e.cut()); reach {
				return false
			}
		}
	}
	return true
}

// loop: b is the header of a loop each iteration of which has the effect, and
// which only ends at the header (or by leaving the function with an error).
func (e *effs) loop(h *ssa.BasicBlock, c *Ctx) bool {
	if v, ok := e.loops[h]; ok {
		return v == 1
	}
	e.loops[h] = 0
	body := e.p.loopBody(h)
	if len(body) == 0 {
		return false
	}
	// leaves elsewhere?
	for b := range body {
		if b == h {
			continue
		}
		for _, s := range b.Succs {
			if !body[s] && (e.all || !errorOnly(s)) {
				return false
			}
		}
	}
	var inside *ssa.BasicBlock
	for _, s := range h.Succs {
		if body[s] {
			inside = s
		}
	}
	if inside == nil {
		return false
	}
	if inside != h {
		if _, reach := e.p.search(inside, 0, h, 0, c, e.cut(), 0); reach {
			return false
		}
	}
	e.loops[h] = 1
	return true
}

// errorOnly: the block leads straight to a return of a non-nil error or a panic.
func errorOnly(b *ssa.BasicBlock) bool {
	for i := 0; i < 5; i++ {
		switch x := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Panic:
			return true
		case *ssa.Return:
			if n := len(x.Results); n > 0 && isErrorType(x.Results[n-1].Type()) {
				k, isConst := x.Results[n-1].(*ssa.Const)
				return !(isConst && k.IsNil())
			}
			return false
		case *ssa.Jump:
			b = b.Succs[0]
		default:
			return false
		}
	}
	return false
}

// loopBody: the natural loop of header h.
func (p *Program) loopBody(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{}
	var add func(b *ssa.BasicBlock)
	add = func(b *ssa.BasicBlock) {
		if body[b] {
			return
		}
		body[b] = true
		if b == h {
			return
		}
		for _, q := range b.Preds {
			add(q)
		}
	}
	for _, q := range h.Preds {
		if h.Dominates(q) {
			body[h] = true
			add(q)
		}
	}
	return body
}

// avoided: a place among ends that is reachable from after start without the effect.
func (p *Program) avoided(start ssa.Instruction, ends []ssa.Instruction, e *effs, also func(cond ssa.Value, pol bool) bool) ssa.Instruction {
	cut := e.cut()
	if also != nil {
		old := cut.Atom
		cut.Atom = func(cond ssa.Value, pol bool, c *Ctx) bool { return also(cond, pol) || old(cond, pol, c) }
	}
	stop := map[ssa.Instruction]bool{}
	for _, end := range ends {
		stop[end] = true
	}
	instr := cut.Instr
	cut.Instr = func(i ssa.Instruction, c *Ctx) bool { return stop[i] || instr(i, c) }
	for _, end := range ends {
		if p.searchAfter(start, end.Block(), indexOf(end), cut) {
			return end
		}
	}
	return nil
}

// returnsOf lists the return instructions of a function.
func returnsOf(fn *ssa.Function) (out []ssa.Instruction) {
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && b != fn.Recover {
			out = append(out, r)
		}
	}
	return
}

// An eventCase is where the user's loop begins to handle a type of event.
type eventCase struct {
	fn   *ssa.Function
	ta   *ssa.TypeAssert
	ok   ssa.Value
	ends []ssa.Instruction
}

// eventCases: the places where events of each type are handled, by type name.
func (p *Program) eventCases() map[string][]eventCase {
	out := map[string][]eventCase{}
	fromEvents := func(v ssa.Value) bool {
		for _, o := range p.origins(v, nil, sliceOpts{Up: true}) {
			x := o.V
			if ex, ok := x.(*ssa.Extract); ok {
				x = ex.Tuple
			}
			switch y := x.(type) {
			case *ssa.UnOp:
				if y.Op == token.ARROW && p.isUserEvents(y.X) {
					return true
				}
			case *ssa.Select:
				for _, st := range y.States {
					if st.Dir == types.RecvOnly && p.isUserEvents(st.Chan) {
						return true
					}
				}
			}
		}
		return false
	}
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		ta, ok := ins.(*ssa.TypeAssert)
		if !ok || p.pkgOf(fn) != "soju" || !types.IsInterface(ta.X.Type()) || types.IsInterface(ta.AssertedType) {
			return
		}
		if !fromEvents(ta.X) {
			return
		}
		ec := eventCase{fn: fn, ta: ta}
		if ta.CommaOk {
			for _, r := range *ta.Referrers() {
				if ex, ok := r.(*ssa.Extract); ok && ex.Index == 1 {
					ec.ok = ex
				}
			}
		}
		ec.ends = returnsOf(fn)
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.UnOp:
					if x.Op == token.ARROW && p.isUserEvents(x.X) {
						ec.ends = append(ec.ends, i)
					}
				case *ssa.Select:
					for _, st := range x.States {
						if st.Dir == types.RecvOnly && p.isUserEvents(st.Chan) {
							ec.ends = append(ec.ends, i)
						}
					}
				}
			}
		}
		n := p.typeName(ta.AssertedType)
		out[n] = append(out[n], ec)
	})
	return out
}

// missed: an end of the handling of the event reachable without the effect.
func (p *Program) missed(ec eventCase, e *effs) ssa.Instruction {
	return p.avoided(ec.ta, ec.ends, e, func(cond ssa.Value, pol bool) bool {
		return ec.ok != nil && cond == ec.ok && !pol
	})
}

// calls: the effect of calling one of the named functions, with accepted arguments.
func (p *Program) calls(ok func(ci ssa.CallInstruction, c *Ctx) bool, names ...string) effect {
	return func(ins ssa.Instruction, c *Ctx) bool {
		ci, is := ins.(ssa.CallInstruction)
		if !is {
			return false
		}
		if _, isGo := ins.(*ssa.Go); isGo {
			return false
		}
		n := p.calleeName(ci)
		if n == "" {
			v, _ := p.res(ci.Common().Value, c)
			n = p.fnName(v)
		}
		for _, want := range names {
			if n == want {
				return ok == nil || ok(ci, c)
			}
		}
		return false
	}
}

// storesField: the effect of storing an accepted value to a field.
func (p *Program) storesField(typ, field string, ok func(st *ssa.Store, fa *ssa.FieldAddr, c *Ctx) bool) effect {
	return func(ins ssa.Instruction, c *Ctx) bool {
		st, is := ins.(*ssa.Store)
		if !is {
			return false
		}
		fa, is := st.Addr.(*ssa.FieldAddr)
		if !is || !p.isField(fa.X.Type(), fa.Field, typ, field) {
			return false
		}
		return ok == nil || ok(st, fa, c)
	}
}

// domFacts: the branch conditions that hold wherever ins runs, by the access
// paths compared.
func (p *Program) domFacts(ins ssa.Instruction) map[string]bool {
	out := map[string]bool{}
	b := ins.Block()
	for d := b.Idom(); d != nil; d = d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for i, s := range d.Succs {
			if s.Dominates(b) && len(s.Preds) == 1 {
				if k, pol := p.condKey(iff.Cond, i == 0); k != "" {
					out[k] = pol
				}
			}
		}
	}
	return out
}

// condKey names a comparison of access paths, with its polarity.
func (p *Program) condKey(cond ssa.Value, pol bool) (string, bool) {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return p.condKey(x.X, !pol)
		}
		if x.Op == token.MUL {
			return p.ap(x, nil), pol
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return "", false
		}
		if x.Op == token.NEQ {
			pol = !pol
		}
		a, b := p.ap(x.X, nil), p.ap(x.Y, nil)
		if strings.HasPrefix(a, "?") || strings.HasPrefix(b, "?") {
			return "", false
		}
		if b < a {
			a, b = b, a
		}
		return a + "==" + b, pol
	}
	return "", false
}

// contradicts: the branch cannot be taken on a path through a place where the
// facts hold.
func (p *Program) contradicts(facts map[string]bool, cond ssa.Value, pol bool) bool {
	k, kp := p.condKey(cond, pol)
	want, ok := facts[k]
	return ok && k != "" && want != kp
}

// leftEarly: where a loop around ins can end before its last element, or an
// iteration can pass without ins.
func (p *Program) leftEarly(ins ssa.Instruction) *ssa.BasicBlock {
	for _, h := range ins.Parent().Blocks {
		body := p.loopBody(h)
		if !body[ins.Block()] || h == ins.Block() {
			continue
		}
		for b := range body {
			if b == h {
				continue
			}
			for _, s := range b.Succs {
				if _, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Panic); !body[s] && !ok {
					return b
				}
			}
		}
	}
	return nil
}

// onwards visits the instructions that can follow ins within the same round
// of the loops around it (blocks that dominate it start another round).
func onwards(ins ssa.Instruction, visit func(ssa.Instruction)) {
	for _, i := range ins.Block().Instrs[indexOf(ins)+1:] {
		visit(i)
	}
	seen := map[*ssa.BasicBlock]bool{ins.Block(): true}
	work := append([]*ssa.BasicBlock(nil), ins.Block().Succs...)
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] || b.Dominates(ins.Block()) {
			continue
		}
		seen[b] = true
		for _, i := range b.Instrs {
			visit(i)
		}
		work = append(work, b.Succs...)
	}
}

// outermost: the instruction of a named function during which ins runs, if ins
// is in a function literal passed to a call.
func (p *Program) outermost(ins ssa.Instruction) ssa.Instruction {
	for ins.Parent().Parent() != nil {
		fn := ins.Parent()
		var at ssa.Instruction
		for _, b := range fn.Parent().Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, a := range append(callArgs(ci), ci.Common().Value) {
					if mc, ok := a.(*ssa.MakeClosure); ok && mc.Fn == fn {
						at = i
					} else if a == ssa.Value(fn) {
						at = i
					}
				}
			}
		}
		if at == nil {
			return ins
		}
		ins = at
	}
	return ins
}
