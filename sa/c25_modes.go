package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// checkModes: how a mode string is applied to a channel: what each kind of mode
// does and whether it takes an argument.
func (p *Program) checkModes(r *Report) {
	r.Rule("mode-string", "a mode of each kind is set, unset and takes an argument as its kind says", 7)
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		lk, ok := ins.(*ssa.Lookup)
		if !ok || !lk.CommaOk || fn.Parent() != nil {
			return
		}
		if _, _, is := p.loadOf(lk.X, nil, upConn, "availableChannelModes"); !is {
			return
		}
		var args *ssa.Parameter
		for _, q := range fn.Params {
			if sl, ok := q.Type().Underlying().(*types.Slice); ok && isString(sl.Elem()) {
				args = q
			}
		}
		if args == nil {
			return
		}
		p.checkModeString(r, fn, lk)
	})
}

func (p *Program) checkModeString(r *Report, fn *ssa.Function, lk *ssa.Lookup) {
	var head *ssa.BasicBlock
	for _, b := range fn.Blocks {
		if body := p.loopBody(b); body[lk.Block()] && (head == nil || body[head]) {
			head = b
		}
	}
	if head == nil {
		r.Bad("mode-string", p.fnID(fn), "%s: the modes of a mode string are not gone through", p.fnID(fn))
		return
	}
	body := p.loopBody(head)
	var start *ssa.BasicBlock
	for _, s := range head.Succs {
		if body[s] {
			start = s
		}
	}
	isMode := func(v ssa.Value) bool { // the character
		switch x := v.(type) {
		case *ssa.Lookup, *ssa.Index:
			return true
		case *ssa.Extract:
			_, ok := x.Tuple.(*ssa.Next)
			return ok
		case *ssa.Convert:
			return true
		}
		return false
	}
	byteCmp := func(cond ssa.Value, pol bool) (v ssa.Value, k int64, eq, ok bool) {
		a, b, op, is := cmpFact(cond, pol)
		if !is || op != token.EQL && op != token.NEQ {
			return
		}
		if _, isk := constInt(a); isk {
			a, b = b, a
		}
		k, ok = constInt(b)
		return a, k, op == token.EQL, ok
	}
	// one mode character of a kind, after a sign
	scenario := func(kind int64, sign byte, member bool) assumption {
		return func(cond ssa.Value, pol bool, c *Ctx) bool {
			if ex, ok := cond.(*ssa.Extract); ok && ex.Tuple == ssa.Value(lk) && ex.Index == 1 {
				return !pol
			}
			if v, k, eq, ok := byteCmp(cond, pol); ok {
				w := mustRes(p, v)
				if ex, ok := w.(*ssa.Extract); ok && ex.Tuple == ssa.Value(lk) && ex.Index == 0 {
					return eq != (k == kind)
				}
				if k == '+' || k == '-' {
					if isMode(w) {
						return eq
					}
					return eq != (byte(k) == sign)
				}
			}
			// the sign as a flag
			if ph, ok := cond.(*ssa.Phi); ok {
				if t, is := signFlag(ph); is {
					return pol != (t == (sign == '+'))
				}
			}
			a, b, op, ok := cmpFact(cond, pol)
			if ok && (op == token.EQL || op == token.NEQ) {
				for _, x := range []ssa.Value{a, b} {
					if p.fieldNamed(x, "Mode") {
						return (op == token.EQL) != member
					}
				}
			}
			// a map that is not there, arguments that are missing
			return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
				_, _, is := p.loadOf(a, c, upChan, "modes")
				return isNilConst(b) && is
			})
		}
	}
	modes := func(v ssa.Value, c *Ctx) bool { _, _, is := p.loadOf(v, c, upChan, "modes"); return is }
	takes := func(i ssa.Instruction, c *Ctx) bool {
		if sl, ok := i.(*ssa.Slice); ok && sl.Low != nil {
			k, isk := constInt(sl.Low)
			st, is := sl.X.Type().Underlying().(*types.Slice)
			return isk && k == 1 && is && isString(st.Elem())
		}
		b, ok := i.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return false
		}
		if k, isk := constInt(b.Y); !isk || k != 1 {
			return false
		}
		return p.argIndex(b.X)
	}
	sets := func(i ssa.Instruction, c *Ctx) bool {
		mu, ok := i.(*ssa.MapUpdate)
		return ok && modes(mu.Map, c)
	}
	unsets := func(i ssa.Instruction, c *Ctx) bool {
		call, ok := i.(*ssa.Call)
		if !ok {
			return false
		}
		bi, ok := call.Call.Value.(*ssa.Builtin)
		return ok && bi.Name() == "delete" && modes(call.Call.Args[0], c)
	}
	member := func(m string) effect {
		return func(i ssa.Instruction, c *Ctx) bool {
			call, ok := i.(*ssa.Call)
			return ok && strings.HasSuffix(p.calleeName(call), "MembershipSet."+m)
		}
	}
	names := []string{"a list", "a setting with an argument", "a setting with an argument when set", "a flag"}
	for kind := int64(0); kind < 4; kind++ {
		for _, sign := range []byte{'+', '-'} {
			sc := scenario(kind, sign, false)
			want := map[string]bool{"takes its argument": kind < 2 || kind == 2 && sign == '+', "is set": kind > 0 && sign == '+', "is unset": kind > 0 && sign == '-'}
			for what, e := range map[string]effect{"takes its argument": takes, "is set": sets, "is unset": unsets} {
				missed := p.iteration(start, head, e, sc) == nil
				some := p.reachesEffect(start, head, e, sc)
				key := names[kind] + " " + string(sign) + " " + what
				if want[what] {
					r.Check(!missed, "mode-string", key, "%s: a mode that is %s, given with %c, can be gone past although it %s", p.fnID(fn), names[kind], sign, what)
				} else {
					r.Check(some == nil, "mode-string", key, "%s: a mode that is %s, given with %c, %s", p.at(some), names[kind], sign, what)
				}
			}
		}
	}
	for _, sign := range []byte{'+', '-'} {
		sc := scenario(-1, sign, true)
		on, off := "Add", "Remove"
		if sign == '-' {
			on, off = off, on
		}
		r.Check(p.reachesEffect(start, head, member(on), sc) != nil, "mode-string", "status "+string(sign), "%s: a member's status given with %c is not applied", p.fnID(fn), sign)
		at := p.reachesEffect(start, head, member(off), sc)
		r.Check(at == nil, "mode-string", "status not "+string(sign), "%s: a member's status given with %c is applied the other way round", p.at(at), sign)
		// from the place where the mode is known to be a status
		at = nil
		for _, b := range fn.Blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || !body[b] {
				continue
			}
			a, c, op, ok := cmpFact(iff.Cond, true)
			if !ok || op != token.EQL && op != token.NEQ || !p.fieldNamed(a, "Mode") && !p.fieldNamed(c, "Mode") {
				continue
			}
			s := b.Succs[0]
			if op == token.NEQ {
				s = b.Succs[1]
			}
			if p.iteration(s, head, takes, sc) == nil {
				at = iff
			}
		}
		r.Check(at == nil, "mode-string", "status argument "+string(sign), "%s: a member's status given with %c can be gone past without its argument", p.at(at), sign)
	}
}

// signFlag: a boolean that is true after a plus sign (or after a minus sign).
func signFlag(ph *ssa.Phi) (plus, ok bool) { return false, false }

// argIndex: a counter that is used as an index of a list of strings.
func (p *Program) argIndex(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.IndexAddr:
				if pt, ok := x.Type().Underlying().(*types.Pointer); ok && isString(pt.Elem()) && x.Index == v {
					return true
				}
			case *ssa.Phi:
				if rec(x) {
					return true
				}
			case *ssa.BinOp:
				if x.Op == token.ADD && rec(x) {
					return true
				}
			}
		}
		if ph, ok := v.(*ssa.Phi); ok {
			for _, e := range ph.Edges {
				if _, isk := e.(*ssa.Const); !isk && rec(e) {
					return true
				}
			}
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL { // a captured counter
			if al := p.cell(u.X); al != nil {
				for _, ref := range *al.Referrers() {
					if ld, ok := ref.(*ssa.UnOp); ok && ld != u && rec(ld) {
						return true
					}
				}
			}
		}
		return false
	}
	return rec(v)
}

// fieldNamed: a load of a field of that name of a membership.
func (p *Program) fieldNamed(v ssa.Value, name string) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok || x.Op != token.MUL {
			return false
		}
		f := fieldVar(fa.X.Type(), fa.Field)
		return f != nil && f.Name() == name && p.typeName(fa.X.Type()) == "xirc.Membership"
	case *ssa.Field:
		f := fieldVar(x.X.Type(), x.Field)
		return f != nil && f.Name() == name && p.typeName(x.X.Type()) == "xirc.Membership"
	}
	return false
}

// iteration: the effect an iteration cannot avoid, one of them; nil if it can.
// Only the branches of this iteration are decided by the assumption.
func (p *Program) iteration(start, head *ssa.BasicBlock, e effect, assume assumption) (hit ssa.Instruction) {
	ended := false
	p.iterate(start, head, e, assume, func(i ssa.Instruction) bool { hit = i; return false }, func() { ended = true })
	if ended {
		return nil
	}
	return hit
}

// reachesEffect: an instruction with the effect that an iteration can reach.
func (p *Program) reachesEffect(start, head *ssa.BasicBlock, e effect, assume assumption) (hit ssa.Instruction) {
	p.iterate(start, head, e, assume, func(i ssa.Instruction) bool { hit = i; return true }, func() {})
	return hit
}

func (p *Program) iterate(start, head *ssa.BasicBlock, e effect, assume assumption, found func(ssa.Instruction) bool, end func()) {
	ef := p.effects(e, nil)
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if b == head {
			end()
			return
		}
		if seen[b] {
			return
		}
		seen[b] = true
		for _, i := range b.Instrs {
			hit := e(i, nil)
			if call, ok := i.(*ssa.Call); ok && !hit {
				for _, g := range p.callees[call] {
					hit = hit || ef.may[g] && p.inSoju(g)
				}
			}
			if hit && !found(i) {
				return
			}
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		for k, s := range b.Succs {
			if ok && b.Succs[0] != b.Succs[1] && decided(iff.Cond, k == 0, assume) {
				continue
			}
			visit(s)
		}
	}
	visit(start)
}

// decided: the assumption excludes the branch.
func decided(cond ssa.Value, pol bool, assume assumption) bool {
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		return decided(u.X, !pol, assume)
	}
	return assume(cond, pol, nil)
}
