package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{
		ID: "C05",
		Explanation: "Panic containment over the goroutine structure: every place that reads, parses or dispatches IRC messages or user events is traced up the call graph to the go statements it runs under; " +
			"on each such chain a deferred function that directly calls recover (and does not panic again) must have been registered before. " +
			"Goroutines outside any such protection contain no explicit panic and close no channel that may be closed twice.",
		Assumptions: []string{"net/http recovers panics of its handlers", "run-time panics inside unprotected helper goroutines (writers, timers, web push) are addressed by C06 and C07 only as far as index and nil errors go"},
		Run:         runC05,
	})
}

// recovering reports whether ins registers a deferred function that stops
// panics.
func (p *Program) recovering(ins ssa.Instruction) bool {
	d, ok := ins.(*ssa.Defer)
	if !ok {
		return false
	}
	fs := p.callees[d]
	if len(fs) == 0 {
		return false
	}
	for _, f := range fs {
		if !p.recovers(f) {
			return false
		}
	}
	return true
}

// recovers: f calls recover itself on every path from its entry, and never
// panics again.
func (p *Program) recovers(f *ssa.Function) bool {
	isRec := func(ins ssa.Instruction) bool {
		c, ok := ins.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := c.Common().Value.(*ssa.Builtin)
		return ok && b.Name() == "recover"
	}
	for _, b := range f.Blocks {
		last := b.Instrs[len(b.Instrs)-1]
		switch last.(type) {
		case *ssa.Panic:
			return false
		case *ssa.Return:
			// reachable without a direct call to recover?
			if p.plainReach(f.Blocks[0], 0, last, isRec) {
				return false
			}
		}
	}
	return true
}

// plainReach: is ins reachable from (b, i) without passing an instruction
// satisfying stop?
func (p *Program) plainReach(b *ssa.BasicBlock, i int, ins ssa.Instruction, stop func(ssa.Instruction) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) bool
	walk = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			if b.Instrs[i] == ins {
				return true
			}
			if stop(b.Instrs[i]) {
				return false
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	return walk(b, i)
}

// goChains returns the chains from a go statement down to site on which no
// recovering function was deferred.
func (p *Program) goChains(site ssa.Instruction) [][]ssa.Instruction {
	var out [][]ssa.Instruction
	seen := map[ssa.Instruction]bool{}
	var rec func(ins ssa.Instruction, chain []ssa.Instruction)
	rec = func(ins ssa.Instruction, chain []ssa.Instruction) {
		if seen[ins] || len(out) >= 3 {
			return
		}
		seen[ins] = true
		fn := ins.Parent()
		chain = append(chain[:len(chain):len(chain)], ins)
		if !p.plainReach(fn.Blocks[0], 0, ins, p.recovering) {
			return
		}
		for _, ci := range p.callers[fn] {
			if _, isGo := ci.(*ssa.Go); isGo {
				out = append(out, append(chain[:len(chain):len(chain)], ci))
				continue
			}
			rec(ci, chain)
		}
	}
	rec(site, nil)
	return out
}

func runC05(p *Program, r *Report) {
	r.Rule("contained", "every goroutine that reads, parses or dispatches IRC messages recovers from panics", 4)
	r.Rule("no-explicit-panic", "goroutines without panic recovery contain no explicit panic", 3)
	r.Rule("close-once", "a channel that others may close too is closed behind an atomic or single-owner check", 3)

	seenGo := map[string]bool{}
	report := func(site ssa.Instruction, what string) {
		key := p.fnID(site.Parent()) + ": " + what
		chains := p.goChains(site)
		if len(chains) == 0 {
			r.Ok("contained", key)
			return
		}
		for _, ch := range chains {
			top := ch[len(ch)-1]
			r.Bad("contained", key, "%s: %s in a goroutine that does not recover from panics, started at %s; a panic here ends the whole process", p.chainString(ch), what, p.at(top))
			seenGo[p.at(top)] = true
		}
	}
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		if p.pkgOf(fn) != "soju" {
			return
		}
		switch x := ins.(type) {
		case ssa.CallInstruction:
			name := p.calleeName(x)
			if strings.HasSuffix(name, ".ParseMessage") && strings.Contains(name, "irc") ||
				strings.HasSuffix(name, ".ReadMessage") && len(p.callees[x]) == 0 ||
				name == "soju.ircConn.ReadMessage" {
				report(ins, "reading a message from a peer")
			}
			// handlers of peer messages
			for _, f := range p.callees[x] {
				if isMessageHandler(p, f) {
					report(ins, "handling a message of a peer")
					break
				}
			}
		case *ssa.UnOp:
			if x.Op == token.ARROW && p.isEventChan(x.X.Type()) {
				report(ins, "dispatching user events")
			}
		case *ssa.Select:
			for _, st := range x.States {
				if st.Dir == types.RecvOnly && p.isEventChan(st.Chan.Type()) {
					report(ins, "dispatching user events")
				}
			}
		}
	})

	// explicit panics
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		g, ok := ins.(*ssa.Go)
		if !ok || strings.HasPrefix(p.pkgOf(fn), "cmd/") || strings.HasPrefix(p.pkgOf(fn), "contrib/") {
			return
		}
		key := p.fnID(fn) + ": go"
		var hit ssa.Instruction
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function)
		walk = func(f *ssa.Function) {
			if seen[f] || hit != nil {
				return
			}
			seen[f] = true
			for _, b := range f.Blocks {
				for _, x := range b.Instrs {
					if !p.plainReach(f.Blocks[0], 0, x, p.recovering) {
						continue
					}
					if _, ok := x.(*ssa.Panic); ok && x.Pos().IsValid() {
						hit = x
						return
					}
					if ci, ok := x.(ssa.CallInstruction); ok {
						if _, isGo := x.(*ssa.Go); isGo {
							continue
						}
						for _, h := range p.callees[ci] {
							walk(h)
						}
					}
				}
			}
		}
		for _, f := range p.callees[g] {
			walk(f)
		}
		if hit != nil {
			r.Bad("no-explicit-panic", key, "%s: panic reachable in the goroutine started at %s, which does not recover", p.at(hit), p.at(g))
		} else {
			r.Ok("no-explicit-panic", key)
		}
	})

	// channels
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if name != "builtin.close" || strings.HasPrefix(p.pkgOf(fn), "cmd/") || strings.HasPrefix(p.pkgOf(fn), "contrib/") {
			return
		}
		ch := callArgs(ci)[0]
		key := p.fnID(fn) + ": close"
		var field *types.Var
		v, _ := p.res(ch, nil)
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				field = fieldVar(fa.X.Type(), fa.Field)
			}
		}
		if field == nil {
			r.Ok("close-once", key)
			return
		}
		owner := p.typeName(v.(*ssa.UnOp).X.(*ssa.FieldAddr).X.Type())
		// Swap or CompareAndSwap on an atomic, sync.Once.Do, or a check that
		// the channel is still open in code confined to one goroutine.
		cut := &Cut{
			Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
				call, ok := cond.(*ssa.Call)
				if !ok {
					return false
				}
				switch p.calleeName(call) {
				case "sync/atomic.Bool.Swap":
					b, isb := constBool(callArgs(call)[1])
					return isb && b && !pol
				case "sync/atomic.Bool.CompareAndSwap":
					a, oka := constBool(callArgs(call)[1])
					b, okb := constBool(callArgs(call)[2])
					return oka && okb && !a && b && pol
				}
				return false
			},
		}
		once := func() bool {
			for f := fn; f != nil; f = f.Parent() {
				for _, u := range p.taken[f] {
					for _, rr := range referrersOf(u) {
						if c, ok := rr.(ssa.CallInstruction); ok && p.calleeName(c) == "sync.Once.Do" {
							return true
						}
					}
				}
			}
			return false
		}
		if len(p.Unguarded(ci, fixed(cut), GuardOpts{MaxDepth: 2})) == 0 || once() {
			r.Ok("close-once", key)
			return
		}
		// single owner: the field is closed at one place only
		n := 0
		p.eachCall(func(_ *ssa.Function, o ssa.CallInstruction, nm string) {
			if nm == "builtin.close" {
				w, _ := p.res(callArgs(o)[0], nil)
				if u, ok := w.(*ssa.UnOp); ok && u.Op == token.MUL {
					if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) == field {
						n++
					}
				}
			}
		})
		switch owner {
		case "soju.conn":
			// closed from any goroutine
			r.Bad("close-once", key, "%s: this channel is closed by whichever goroutine closes the connection first, but nothing makes the first caller win: two closers panic, and the panic ends the process", p.at(ci))
		case "soju.network":
			// network.stopped: user goroutine only, behind an is-open check
			open := p.chanOpenCut(field)
			r.Check(len(p.Unguarded(ci, fixed(open), GuardOpts{MaxDepth: 3})) == 0, "close-once", key, "%s: the channel may already be closed: closing it twice panics", p.at(ci))
		default:
			r.Check(n == 1, "close-once", key, "%s: channel %s is closed at %d places without an atomic check", p.at(ci), field.Name(), n)
		}
	})
}

// chanOpenCut: a non-blocking receive on the field chose the default branch.
func (p *Program) chanOpenCut(field *types.Var) *Cut {
	return &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
		a, b, op, ok := cmpFact(cond, pol)
		if !ok {
			return false
		}
		ex, ok := a.(*ssa.Extract)
		if !ok || ex.Index != 0 {
			return false
		}
		sel, ok := ex.Tuple.(*ssa.Select)
		if !ok || sel.Blocking || len(sel.States) != 1 {
			return false
		}
		v, _ := p.res(sel.States[0].Chan, c)
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || fieldVar(fa.X.Type(), fa.Field) != field {
			return false
		}
		k, isk := constInt(b)
		return isk && k == 0 && op == token.NEQ
	}}
}

func referrersOf(ins ssa.Instruction) []ssa.Instruction {
	if ci, ok := ins.(ssa.CallInstruction); ok {
		return []ssa.Instruction{ci}
	}
	if v, ok := ins.(ssa.Value); ok && v.Referrers() != nil {
		return *v.Referrers()
	}
	return nil
}

// isMessageHandler: a method of a connection taking a message from the peer.
func isMessageHandler(p *Program, f *ssa.Function) bool {
	recv := f.Signature.Recv()
	if recv == nil {
		return false
	}
	switch p.typeName(recv.Type()) {
	case "soju.downstreamConn", "soju.upstreamConn":
	default:
		return false
	}
	if !strings.HasPrefix(strings.ToLower(p.fname(f)), "handle") {
		return false
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if p.typeName(f.Signature.Params().At(i).Type()) == "gopkg.in/irc.v4.Message" {
			return true
		}
	}
	return false
}

func (p *Program) isEventChan(t types.Type) bool {
	ch, ok := t.Underlying().(*types.Chan)
	return ok && p.typeName(ch.Elem()) == "soju.event"
}
