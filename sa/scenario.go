package main

import (
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const ircMessage = "gopkg.in/irc.v4.Message"

// isHandler: a method of a connection that takes a message and may fail.
func (p *Program) isHandler(f *ssa.Function, recv string) *ssa.Parameter {
	if recvName2(f) != recv || f.Parent() != nil || !hasErrResult(f) || len(f.Params) < 2 {
		return nil
	}
	for _, q := range f.Params[1:] {
		if p.typeName(q.Type()) == ircMessage && isPtr(q.Type()) {
			return q
		}
	}
	return nil
}

// handlerRoots: the functions that are first given the messages of a kind of
// connection ("upstreamConn", "downstreamConn").
func (p *Program) handlerRoots(recv string) (out []*ssa.Function) {
	set := map[*ssa.Function]bool{}
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		f := ci.Common().StaticCallee()
		if f == nil || p.isHandler(f, recv) == nil {
			return
		}
		top := fn
		for top.Parent() != nil {
			top = top.Parent()
		}
		if p.isHandler(top, recv) != nil {
			return
		}
		// the argument is a message that was read
		set[f] = true
	})
	for f := range set {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return p.fnID(out[i]) < p.fnID(out[j]) })
	return
}

// commandIs: assumes that the command of a message is val: the branches that
// contradict it are not taken.
func (p *Program) commandIs(val string, isMsg func(v ssa.Value, c *Ctx) bool) func(cond ssa.Value, pol bool, c *Ctx) bool {
	return func(cond ssa.Value, pol bool, c *Ctx) bool {
		a, b, op, ok := cmpFact(cond, pol)
		if !ok || op != token.EQL && op != token.NEQ {
			return false
		}
		k, isk := constString(b)
		if !isk {
			a, b = b, a
			if k, isk = constString(b); !isk {
				return false
			}
		}
		if !p.isCommand(a, c, isMsg, 0) {
			return false
		}
		return (op == token.EQL) != (k == val)
	}
}

// isCommand: v is the command of the message (or its upper case form).
func (p *Program) isCommand(v ssa.Value, c *Ctx, isMsg func(v ssa.Value, c *Ctx) bool, d int) bool {
	v, c = p.res(v, c)
	if call, ok := v.(*ssa.Call); ok && d < 3 && strings.HasPrefix(p.calleeName(call), "strings.To") {
		return p.isCommand(callArgs(call)[0], c, isMsg, d+1)
	}
	b, bc, ok := p.loadOf(v, c, ircMessage, "Command")
	if !ok {
		return false
	}
	w, wc := p.res(b, bc)
	for i := 0; i < 3; i++ {
		call, ok := w.(*ssa.Call)
		if !ok || p.calleeName(call) != ircMessage+".Copy" {
			break
		}
		w, wc = p.res(callArgs(call)[0], wc)
	}
	return isMsg(w, wc)
}

// dependsOnCommand: the condition is computed from the command in a way that is
// not understood (a table, a helper).
func (p *Program) dependsOnCommand(cond ssa.Value, c *Ctx) bool {
	if _, _, op, ok := cmpFact(cond, true); ok && (op == token.EQL || op == token.NEQ) {
		b := cond.(*ssa.BinOp)
		_, k1 := constString(b.X)
		_, k2 := constString(b.Y)
		if k1 || k2 {
			return false
		}
	}
	var walk func(v ssa.Value, d int) bool
	walk = func(v ssa.Value, d int) bool {
		if _, _, ok := p.loadOf(v, c, ircMessage, "Command"); ok {
			return true
		}
		ins, ok := v.(ssa.Instruction)
		if !ok || d > 6 {
			return false
		}
		for _, op := range ins.Operands(nil) {
			if *op != nil && walk(*op, d+1) {
				return true
			}
		}
		return false
	}
	return walk(cond, 0)
}

// assuming adds assumptions to a cut.
func (cut *Cut) assuming(assume ...func(cond ssa.Value, pol bool, c *Ctx) bool) *Cut {
	n := *cut
	n.memo = nil
	old := n.Atom
	n.Atom = func(cond ssa.Value, pol bool, c *Ctx) bool {
		for _, a := range assume {
			if a(cond, pol, c) {
				return true
			}
		}
		return old != nil && old(cond, pol, c)
	}
	return &n
}

// rootMsg: the message a handler was given.
func rootMsg(par *ssa.Parameter) func(v ssa.Value, c *Ctx) bool {
	return func(v ssa.Value, c *Ctx) bool { return v == ssa.Value(par) }
}
