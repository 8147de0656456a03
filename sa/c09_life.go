package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{ID: "C09", Explanation: "Obligations that must be met on every path are checked by searching the control-flow graphs (across calls, iterators and deferred functions) for a path that avoids them: from the start of a connection to its end notification, and from each lifecycle event to the end of its handling.",
		Assumptions: []string{"a loop over a collection reaches every element if it only ends at its header", "iteration helpers (forEachUpstream, forEachDownstream, forEachNetwork, ForEach) visit the elements C03 describes"},
		Run:         runC09})
}

func runC09(p *Program, r *Report) {
	r.Rule("announced", "after the start of a session or registered upstream connection is announced, its end is announced too, whatever happens in between", 2)
	r.Rule("closed", "a connection that was opened is closed when its handler ends", 2)
	r.Rule("handled", "every kind of event sent to a user is handled by its loop", 5)
	r.Rule("session-end", "the end of a session removes it, stores its delivery receipts, cancels its pending commands and refreshes away and monitor state", 3)
	r.Rule("session-start", "a session that is accepted is added to the user's sessions", 1)
	r.Rule("upstream-start", "a registered upstream connection becomes its network's connection", 2)
	r.Rule("upstream-end", "the end of an upstream connection clears it, aborts its pending commands, stops its timers and tells clients", 3)
	r.Rule("receipts", "the delivery receipts that are stored for a client are all of its own", 4)
	r.Rule("stop", "stopping a user closes its sessions, stops its networks and stores delivery receipts", 2)
	r.Rule("network-removed", "a network that is removed is stopped, its sessions are closed, and it leaves the user's list", 2)
	r.Rule("network-added", "a network that is added joins the user's list and is started", 2)
	r.Rule("user-end", "the end of a user's loop is always signalled", 1)
	r.Rule("ident", "an ident entry is removed when its connection ends", 1)

	cases := p.eventCases()

	// announced
	for _, ev := range []struct{ start, end string }{
		{"soju.eventDownstreamConnected", "soju.eventDownstreamDisconnected"},
		{"soju.eventUpstreamConnected", "soju.eventUpstreamDisconnected"},
	} {
		p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
			for _, s := range sentValues(ins) {
				if p.typeName(s.val.Type()) == ev.start && p.isUserEvents(s.ch) {
					p.checkAnnounced(r, ins, s, ev.start, ev.end, 0)
				}
			}
		})
	}

	// closed
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if name != "soju.newUpstreamConn" && name != "soju.connectToUpstream" && name != "soju.newDownstreamConn" {
			return
		}
		call, ok := ci.(*ssa.Call)
		if !ok {
			return
		}
		p.checkClosed(r, call, 0)
	})

	// handled
	sentTypes := map[string]ssa.Instruction{}
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		for _, s := range sentValues(ins) {
			if !isEventChan(s.ch) || p.pkgOf(fn) != "soju" {
				continue
			}
			if types.IsInterface(s.val.Type()) {
				for _, o := range p.origins(s.val, nil, sliceOpts{Up: true}) {
					if mi, ok := o.V.(*ssa.MakeInterface); ok {
						sentTypes[p.typeName(mi.X.Type())] = ins
					}
				}
				continue
			}
			sentTypes[p.typeName(s.val.Type())] = ins
		}
	})
	var names []string
	for n := range sentTypes {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		r.Check(len(cases[n]) > 0, "handled", n, "%s: events of type %s are sent to users but not handled by their loop", p.at(sentTypes[n]), n)
	}

	must := func(rule, key, ev string, e *effs, what string) {
		if len(cases[ev]) == 0 {
			r.Bad(rule, key, "events of type %s are not handled", ev)
			return
		}
		for _, ec := range cases[ev] {
			at := p.missed(ec, e)
			r.Check(at == nil, rule, key, "%s: the handling of %s can end without %s", p.at(ec.ta), strings.TrimPrefix(ev, "soju."), what)
		}
	}

	p.receiptsKept(r)
	// every command of the session is looked for
	if f := p.Func("soju.upstreamConn.cancelPendingCommandsByDownstreamID"); f != nil {
		n := 0
		nested(f, func(g *ssa.Function, ins ssa.Instruction) {
			b, ok := ins.(*ssa.BinOp)
			if !ok || b.Op != token.EQL && b.Op != token.NEQ {
				return
			}
			_, _, x := p.loadOf(b.X, nil, "soju.pendingUpstreamCommand", "downstreamID")
			_, _, y := p.loadOf(b.Y, nil, "soju.pendingUpstreamCommand", "downstreamID")
			if !x && !y {
				return
			}
			n++
			early := p.leftEarly(b)
			r.Check(early == nil, "session-end", "pending commands: each", "%s: cancelling the pending commands of a session can stop before the last one", p.at(b))
		})
	}

	const dd = "soju.eventDownstreamDisconnected"
	must("session-end", "receipts", dd, p.effects(p.calls(nil, "soju.network.storeClientDeliveryReceipts"), p.notPersistent), "storing the client's delivery receipts")
	must("session-end", "pending commands", dd, p.effects(p.calls(func(ci ssa.CallInstruction, c *Ctx) bool {
		a := callArgs(ci)
		return len(a) < 2 || p.reads(a[1], c, "soju.downstreamConn", "id")
	}, "soju.upstreamConn.cancelPendingCommandsByDownstreamID"), p.noUpstream), "cancelling the pending commands of the session")
	must("session-end", "away", dd, p.effects(p.calls(nil, "soju.upstreamConn.updateAway"), p.noUpstream), "refreshing the away status")
	must("session-end", "monitor", dd, p.effects(p.calls(nil, "soju.upstreamConn.updateMonitor"), p.noUpstream), "refreshing the list of monitored nicknames")
	p.checkListRemoval(r, "session-end", "sessions", cases[dd], "soju.user", "downstreamConns", "soju.user", "numDownstreamConns")

	const dcn = "soju.eventDownstreamConnected"
	refuse := p.calls(nil, "soju.conn.Shutdown", "soju.downstreamConn.Shutdown", "soju.conn.Close", "soju.downstreamConn.Close")
	must("session-start", "sessions", dcn, p.effects(orEffect(refuse, p.growsList("soju.user", "downstreamConns")), nil), "either closing the session or adding it to the user's sessions")
	must("session-start", "away", dcn, p.effects(orEffect(refuse, p.calls(nil, "soju.upstreamConn.updateAway")), p.noUpstream), "refreshing the away status")
	must("session-start", "count", dcn, p.effects(orEffect(refuse, p.counterAdd("soju.user", "numDownstreamConns", 1)), nil), "counting the session")

	const ucn = "soju.eventUpstreamConnected"
	must("upstream-start", "conn", ucn, p.effects(p.storesField("soju.network", "conn", func(st *ssa.Store, fa *ssa.FieldAddr, c *Ctx) bool { return !isNilConst(st.Val) }), nil), "recording the network's connection")
	must("upstream-start", "away", ucn, p.effects(p.calls(nil, "soju.upstreamConn.updateAway"), p.noUpstream), "sending the away status")
	must("upstream-start", "monitor", ucn, p.effects(p.calls(nil, "soju.upstreamConn.updateMonitor"), p.noUpstream), "sending the list of monitored nicknames")
	must("upstream-start", "error cleared", ucn, p.effects(p.storesField("soju.network", "lastError", func(st *ssa.Store, fa *ssa.FieldAddr, c *Ctx) bool { return isNilConst(st.Val) }), nil), "clearing the network's error")
	for _, u := range []string{"updateSupportedCaps", "updateNick", "updateCasemapping"} {
		must("upstream-start", u, ucn, p.effects(p.calls(nil, "soju.downstreamConn."+u), nil), "refreshing clients ("+u+")")
	}
	must("upstream-start", "state", ucn, p.effects(p.calls(nil, "soju.user.notifyBouncerNetworkState"), nil), "notifying the network's state")

	const ud = "soju.eventUpstreamDisconnected"
	clear := p.storesField("soju.network", "conn", func(st *ssa.Store, fa *ssa.FieldAddr, c *Ctx) bool { return isNilConst(st.Val) })
	must("upstream-end", "conn", ud, p.effects(clear, p.otherConn), "clearing the network's connection")
	must("upstream-end", "pending commands", ud, p.effects(p.calls(nil, "soju.upstreamConn.abortPendingCommands"), nil), "aborting its pending commands")
	must("upstream-end", "regain timer", ud, p.effects(p.calls(nil, "soju.upstreamConn.stopRegainNickTimer"), nil), "stopping the timer regaining the nickname")
	must("upstream-end", "detach timers", ud, p.effects(p.calls(func(ci ssa.CallInstruction, c *Ctx) bool {
		a := callArgs(ci)
		if len(a) < 2 {
			return true
		}
		k, ok := constInt(a[1])
		return ok && k == 0
	}, "soju.upstreamChannel.updateAutoDetach"), nil), "stopping the timers detaching its channels")
	must("upstream-end", "caps", ud, p.effects(p.calls(nil, "soju.downstreamConn.updateSupportedCaps"), nil), "refreshing the capabilities of clients")
	must("upstream-end", "state", ud, p.effects(p.calls(nil, "soju.user.notifyBouncerNetworkState"), p.notListed), "notifying the network's state")

	const es = "soju.eventStop"
	must("stop", "sessions", es, p.effects(p.calls(nil, "soju.conn.Close", "soju.downstreamConn.Close", "soju.conn.Shutdown", "soju.downstreamConn.Shutdown"), nil), "closing the user's sessions")
	must("stop", "networks", es, p.effects(p.calls(nil, "soju.network.stop"), nil), "stopping the user's networks")
	must("stop", "receipts", es, p.effects(p.calls(nil, "soju.network.storeClientDeliveryReceipts"), p.notPersistent), "storing delivery receipts")
	for _, ec := range cases[es] {
		// the loop is left: no event is received after the stop
		var recvs []ssa.Instruction
		for _, e := range ec.ends {
			if _, ok := e.(*ssa.Return); !ok {
				recvs = append(recvs, e)
			}
		}
		at := p.avoided(ec.ta, recvs, p.effects(func(ssa.Instruction, *Ctx) bool { return false }, nil), func(cond ssa.Value, pol bool) bool { return ec.ok != nil && cond == ec.ok && !pol })
		r.Check(at == nil, "stop", "ends", "%s: the loop goes on after it was told to stop", p.at(ec.ta))
	}

	// networks leaving and joining the list
	p.checkNetworkList(r)

	// the end of the loop
	for _, fn := range p.Funcs {
		if !p.isEventLoop(fn) || p.pkgOf(fn) != "soju" {
			continue
		}
		// close(u.done) by a deferred function, before anything that may panic or return
		e := p.effects(func(ins ssa.Instruction, c *Ctx) bool {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok || p.calleeName(ci) != "builtin.close" {
				return false
			}
			return p.reads(ci.Common().Args[0], c, "soju.user", "done")
		}, nil)
		bad := p.avoided2(fn, e)
		r.Check(bad == nil, "user-end", p.fnID(fn)+":done", "%s: the loop can end (at %s) without signalling it", p.pos(fn.Pos()), p.at(bad))
	}

	// ident entries
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if name != "identd.Identd.Store" {
			return
		}
		key := p.fnID(fn)
		args := callArgs(ci)
		e := p.effects(func(ins ssa.Instruction, c *Ctx) bool {
			d, ok := ins.(ssa.CallInstruction)
			if !ok || p.calleeName(d) != "identd.Identd.Delete" {
				return false
			}
			da := callArgs(d)
			for i := 1; i < len(da) && i < 3; i++ {
				if !p.sameExpr(da[i], c, args[i], nil, 0) {
					return false
				}
			}
			return true
		}, nil)
		at := p.notDeferred(ci, e)
		r.Check(at == nil, "ident", key, "%s: an ident entry is stored, but the handler can end (%s) without removing the same entry", p.at(ci), p.at(at))
	})
}

// isEventChan: a channel of events.
func isEventChan(v ssa.Value) bool {
	ch, ok := v.Type().Underlying().(*types.Chan)
	if !ok {
		return false
	}
	n, ok := types.Unalias(ch.Elem()).(*types.Named)
	return ok && n.Obj().Name() == "event"
}

func orEffect(es ...effect) effect {
	return func(ins ssa.Instruction, c *Ctx) bool {
		for _, e := range es {
			if e(ins, c) {
				return true
			}
		}
		return false
	}
}

// reads: v is (possibly through locals) a load of the field.
func (p *Program) reads(v ssa.Value, c *Ctx, typ, field string) bool {
	n := 0
	for _, o := range p.origins(v, c, sliceOpts{}) {
		if _, _, ok := p.loadOf(o.V, o.Ctx, typ, field); !ok {
			return false
		}
		n++
	}
	return n > 0
}

// sameExpr: two values are computed alike: the same value, or the same call of
// a library or accessor function on the same operands.
func (p *Program) sameExpr(a ssa.Value, ac *Ctx, b ssa.Value, bc *Ctx, d int) bool {
	a, ac = p.res(a, ac)
	b, bc = p.res(b, bc)
	if a == b || p.ap(a, ac) == p.ap(b, bc) && !strings.HasPrefix(p.ap(a, ac), "?") {
		return true
	}
	if d > 6 {
		return false
	}
	x, ok1 := a.(*ssa.Call)
	y, ok2 := b.(*ssa.Call)
	if !ok1 || !ok2 || p.calleeName(x) != p.calleeName(y) || p.calleeName(x) == "" {
		return false
	}
	xa, ya := callArgs(x), callArgs(y)
	if x.Common().IsInvoke() != y.Common().IsInvoke() || len(xa) != len(ya) {
		return false
	}
	for i := range xa {
		if !p.sameExpr(xa[i], ac, ya[i], bc, d+1) {
			return false
		}
	}
	return true
}

// receiptsKept: the receipts that are stored for a client are all those of that
// client, each with its target.
func (p *Program) receiptsKept(r *Report) {
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if !strings.HasSuffix(name, ".StoreClientDeliveryReceipts") || p.pkgOf(fn) != "soju" {
			return
		}
		args := callArgs(ci)
		if len(args) < 3 {
			return
		}
		client := args[len(args)-2]
		key := p.fnID(fn)
		n := 0
		nested(topFn(fn), func(g *ssa.Function, ins ssa.Instruction) {
			l, ok := ins.(*ssa.Call)
			if !ok || p.calleeName(l) != "soju.deliveredStore.LoadID" {
				return
			}
			n++
			la := callArgs(l)
			r.Check(p.sameExpr(la[2], nil, client, nil, 0) || p.ap(la[2], nil) == p.ap(client, nil), "receipts", key+":client", "%s: the delivery receipts of another client are stored", p.at(l))
			cut := &Cut{Instr: func(i ssa.Instruction, c *Ctx) bool {
				a, ok := i.(*ssa.Call)
				if !ok {
					return false
				}
				b, ok := a.Call.Value.(*ssa.Builtin)
				return ok && b.Name() == "append" && strings.Contains(a.Type().String(), "DeliveryReceipt")
			}, Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
				return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
					k, isk := constString(b)
					return isk && k == "" && mustResC(p, a, c) == ssa.Value(l)
				})
			}}
			var ends []ssa.Instruction
			if h := p.headerOf(l.Block()); h != nil {
				ends = append(ends, h.Instrs[0])
			} else {
				ends = returnsOf(g)
			}
			for _, e := range ends {
				r.Check(!p.searchAfter(l, e.Block(), indexOf(e), cut), "receipts", key+":all", "%s: a delivery receipt of the client can be left out when they are stored", p.at(l))
			}
			nested(topFn(fn), func(_ *ssa.Function, i2 ssa.Instruction) {
				st, ok := i2.(*ssa.Store)
				if !ok {
					return
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || p.typeName(fa.X.Type()) != "database.DeliveryReceipt" {
					return
				}
				switch fieldVar(fa.X.Type(), fa.Field).Name() {
				case "Target":
					r.Check(p.sameExpr(st.Val, nil, la[1], nil, 0), "receipts", key+":target", "%s: a delivery receipt is stored for another target", p.at(st))
				case "InternalMsgID":
					r.Check(mustRes(p, st.Val) == ssa.Value(l), "receipts", key+":id", "%s: a delivery receipt is stored with something else than the client's position", p.at(st))
				}
			})
		})
		r.Check(n > 0, "receipts", key, "%s: what is stored as delivery receipts is not what the client has received", p.at(ci))
	})
}

// nested visits the instructions of a function and its closures.
func nested(fn *ssa.Function, visit func(g *ssa.Function, ins ssa.Instruction)) {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			visit(fn, ins)
		}
	}
	for _, g := range fn.AnonFuncs {
		nested(g, visit)
	}
}

// headerOf: the header of the innermost loop around a block.
func (p *Program) headerOf(b *ssa.BasicBlock) *ssa.BasicBlock {
	var best *ssa.BasicBlock
	for _, h := range b.Parent().Blocks {
		if in := p.loopBody(h); len(in) > 0 && in[b] && (best == nil || p.loopBody(best)[h]) {
			best = h
		}
	}
	return best
}

// notPersistent: accepted reason not to store receipts.
func (p *Program) notPersistent(cond ssa.Value, pol bool, c *Ctx) bool {
	call, ok := cond.(*ssa.Call)
	return ok && !pol && p.calleeName(call) == "soju.user.hasPersistentMsgStore"
}

// noUpstream: the network has no upstream connection.
func (p *Program) noUpstream(cond ssa.Value, pol bool, c *Ctx) bool {
	return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
		_, _, ok := p.loadOf(a, c, "soju.network", "conn")
		return ok && isNilConst(b)
	})
}

// otherConn: the network already has another connection.
func (p *Program) otherConn(cond ssa.Value, pol bool, c *Ctx) bool {
	return eqFact(cond, pol, token.NEQ, func(a, b ssa.Value) bool {
		_, _, ok := p.loadOf(a, c, "soju.network", "conn")
		return ok && !isNilConst(b)
	})
}

// notListed: a loop over the user's networks did not find the network.
func (p *Program) notListed(cond ssa.Value, pol bool, c *Ctx) bool {
	if pol {
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			return p.notListed(u.X, false, c)
		}
	}
	if ph, ok := cond.(*ssa.Phi); ok && !pol {
		for _, e := range ph.Edges {
			if _, isConst := e.(*ssa.Const); !isConst {
				return false
			}
		}
		return true
	}
	if call, ok := cond.(*ssa.Call); ok && !pol {
		for _, g := range p.callees[call] {
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					if fa, ok := i.(*ssa.FieldAddr); ok && p.isField(fa.X.Type(), fa.Field, "soju.user", "networks") {
						return true
					}
				}
			}
		}
		return strings.HasPrefix(p.calleeName(call), "slices.")
	}
	if x, ok := cond.(*ssa.BinOp); ok && !pol && x.Op == token.LSS && p.searchOver(x, c, "soju.user", "networks") {
		return true
	}
	// u.getNetworkByID(id) == nil and the like
	return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
		call, ok := a.(*ssa.Call)
		return ok && isNilConst(b) && strings.HasPrefix(p.calleeName(call), "soju.user.getNetwork")
	})
}

// searchOver: x is the test of a loop over a list kept in a field, which the
// loop can leave early.
func (p *Program) searchOver(x *ssa.BinOp, c *Ctx, typ, field string) bool {
	n, ok := x.Y.(*ssa.Call)
	if !ok || len(n.Call.Args) != 1 {
		return false
	}
	if bi, ok := n.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" || !p.reads(n.Call.Args[0], c, typ, field) {
		return false
	}
	h := x.Block()
	body := p.loopBody(h)
	for b := range body {
		for _, s := range b.Succs {
			if b != h && !body[s] {
				return true
			}
		}
	}
	return false
}

// checkAnnounced: after the send of a start event, the end event of the same
// connection is sent before the handler can end.
func (p *Program) checkAnnounced(r *Report, ins ssa.Instruction, s sent, start, end string, d int) {
	key := fmt.Sprintf("%s in %s", strings.TrimPrefix(start, "soju."), p.fnID(ins.Parent()))
	conn := p.eventConn(s.val)
	e := p.effects(func(i ssa.Instruction, c *Ctx) bool {
		for _, t := range sentValues(i) {
			if _, isSelect := i.(*ssa.Select); isSelect {
				continue
			}
			if p.typeName(t.val.Type()) != end || !p.eventsOf(t.ch, c) {
				continue
			}
			ec := p.eventConn(t.val)
			if conn == nil || ec == nil {
				return true
			}
			return p.sameExpr(ec, c, conn, nil, 0)
		}
		return false
	}, nil)
	at := p.notDeferred(ins, e)
	if at == nil {
		r.Ok("announced", key)
		return
	}
	// a helper that only announces: its callers must announce the end
	if _, ret := at.(*ssa.Return); ret && d < 2 && len(p.callers[ins.Parent()]) > 0 && p.quietTail(ins) {
		for _, ci := range p.callers[ins.Parent()] {
			p.checkAnnouncedCall(r, ci, start, end, key)
		}
		return
	}
	r.Bad("announced", key, "%s: after %s the handler can end or fail (%s) before the announcement of the end is arranged", p.at(ins), strings.TrimPrefix(start, "soju."), p.at(at))
}

func (p *Program) checkAnnouncedCall(r *Report, ci ssa.CallInstruction, start, end, key string) {
	e := p.effects(func(i ssa.Instruction, c *Ctx) bool {
		for _, t := range sentValues(i) {
			if _, isSelect := i.(*ssa.Select); !isSelect && p.typeName(t.val.Type()) == end {
				return true
			}
		}
		return false
	}, nil)
	at := p.notDeferred(ci, e)
	r.Check(at == nil, "announced", key, "%s: after %s the handler can end or fail (%s) before the announcement of the end is arranged", p.at(ci), strings.TrimPrefix(start, "soju."), p.at(at))
}

func (p *Program) eventsOf(v ssa.Value, c *Ctx) bool {
	_, _, ok := p.loadOf(v, c, "soju.user", "events")
	return ok
}

// quietTail: nothing but returning follows the instruction.
func (p *Program) quietTail(ins ssa.Instruction) bool {
	b := ins.Block()
	for i := indexOf(ins) + 1; i < len(b.Instrs); i++ {
		switch b.Instrs[i].(type) {
		case *ssa.Return, *ssa.RunDefers, *ssa.Jump:
		default:
			return false
		}
	}
	return true
}

// eventConn: the connection an event struct literal carries.
func (p *Program) eventConn(v ssa.Value) ssa.Value {
	v, _ = p.res(v, nil)
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return nil
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	for _, ref := range *al.Referrers() {
		fa, ok := ref.(*ssa.FieldAddr)
		if !ok || fa.Field != 0 {
			continue
		}
		for _, rr := range *fa.Referrers() {
			if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
				return st.Val
			}
		}
	}
	return nil
}

// notDeferred: from after ins, a place where the function may end before it
// has arranged for the effect by a deferred call (or performed it): a return,
// or a call that may panic. Calls that cannot run soju code are not considered.
func (p *Program) notDeferred(ins ssa.Instruction, e *effs) ssa.Instruction {
	fn := ins.Parent()
	deferOnly := &Cut{Local: true, Instr: func(i ssa.Instruction, c *Ctx) bool {
		_, isDefer := i.(*ssa.Defer)
		return isDefer && e.instr(i, c)
	}}
	either := e.cut()
	either.Local = false
	// already deferred before: every path to ins passes the defer
	if _, reach := p.reachInstr(ins, nil, deferOnly); !reach {
		return nil
	}
	for _, b := range fn.Blocks {
		if b == fn.Recover {
			continue
		}
		for i, x := range b.Instrs {
			switch y := x.(type) {
			case *ssa.Return:
				if p.searchAfter(ins, b, i, either) {
					return x
				}
			case *ssa.Panic:
				if p.searchAfter(ins, b, i, either) {
					return x
				}
			case *ssa.Call:
				if !p.runsRepoCode(y) || e.instr(x, nil) {
					continue
				}
				if p.searchAfter(ins, b, i, deferOnly) {
					return x
				}
			}
		}
	}
	return nil
}

// runsRepoCode: the call runs code of the repository.
func (p *Program) runsRepoCode(c *ssa.Call) bool {
	for _, g := range p.callees[c] {
		if g.Blocks != nil && p.inRepo(fnPkg(g)) && !simpleFn(g) {
			return true
		}
	}
	return false
}

// simpleFn: an accessor: straight-line code without indexing or assertions.
func simpleFn(g *ssa.Function) bool {
	n := 0
	for _, b := range g.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.IndexAddr, *ssa.Index, *ssa.Slice, *ssa.Panic:
				return false
			case *ssa.TypeAssert:
				if !x.CommaOk {
					return false
				}
			}
			n++
		}
	}
	return n < 30
}

// avoided2: from the entry of fn, a return or repository call not preceded by
// a deferred effect.
func (p *Program) avoided2(fn *ssa.Function, e *effs) ssa.Instruction {
	cut := &Cut{Local: true, Instr: func(i ssa.Instruction, c *Ctx) bool {
		_, isDefer := i.(*ssa.Defer)
		return isDefer && e.instr(i, c)
	}}
	for _, b := range fn.Blocks {
		if b == fn.Recover {
			continue
		}
		for _, x := range b.Instrs {
			switch y := x.(type) {
			case *ssa.Return, *ssa.Panic:
			case *ssa.Call:
				if !p.runsRepoCode(y) && !y.Common().IsInvoke() {
					continue
				}
			default:
				continue
			}
			if _, reach := p.reachInstr(x, nil, cut); reach {
				return x
			}
		}
	}
	return nil
}

// checkClosed: a connection made by call is closed when its maker ends, or is
// handed to the caller, who must close it.
func (p *Program) checkClosed(r *Report, call *ssa.Call, d int) {
	fn := call.Parent()
	key := fmt.Sprintf("connection of %s in %s", p.calleeName(call), p.fnID(fn))
	var v ssa.Value = call
	if call.Common().Signature().Results().Len() > 1 {
		v = nil
		for _, ref := range *call.Referrers() {
			if ex, ok := ref.(*ssa.Extract); ok && ex.Index == 0 {
				v = ex
			}
		}
	}
	if v == nil {
		r.Bad("closed", key, "%s: the connection is not kept", p.at(call))
		return
	}
	// returned?
	for _, ret := range returnsOf(fn) {
		for _, res := range ret.(*ssa.Return).Results {
			for _, o := range p.origins(res, nil, sliceOpts{Stop: func(x ssa.Value, c *Ctx) bool { return x == v || x == ssa.Value(call) }}) {
				if o.V == v || o.V == ssa.Value(call) {
					r.Ok("closed", key+": handed to the caller")
					return
				}
			}
		}
	}
	failed := func(cond ssa.Value, pol bool, c *Ctx) bool {
		return eqFact(cond, pol, token.NEQ, func(a, b ssa.Value) bool {
			return isNilConst(b) && p.errOf(p.lastStored(a)) == call
		}) || eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
			x, _ := p.res(a, nil)
			return isNilConst(b) && x == v
		})
	}
	e := p.effects(p.calls(func(ci ssa.CallInstruction, c *Ctx) bool {
		a := callArgs(ci)
		return len(a) > 0 && p.isConnOf(a[0], c, v)
	}, "soju.conn.Close", "soju.conn.Shutdown", "soju.upstreamConn.Close", "soju.upstreamConn.Shutdown", "soju.downstreamConn.Close", "soju.downstreamConn.Shutdown"), failed)
	at := p.notDeferredSkip(call, e, failed)
	r.Check(at == nil, "closed", key, "%s: the connection opened here is not closed if the handler ends at %s", p.at(call), p.at(at))
}

// isConnOf: v is the connection w or the embedded conn of it.
func (p *Program) isConnOf(v ssa.Value, c *Ctx, w ssa.Value) bool {
	for i := 0; i < 4; i++ {
		v, c = p.res(v, c)
		if v == w {
			return true
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				v = fa.X
				continue
			}
			if al := p.cell(x.X); al != nil {
				for _, st := range p.allCellStores(al) {
					if st.Val == w {
						return true
					}
				}
			}
			return false
		case *ssa.FieldAddr:
			v = x.X
		default:
			return false
		}
	}
	return false
}

// notDeferredSkip is notDeferred with accepted conditions for not doing it.
func (p *Program) notDeferredSkip(ins ssa.Instruction, e *effs, skip func(cond ssa.Value, pol bool, c *Ctx) bool) ssa.Instruction {
	deferOnly := &Cut{Local: true, Atom: skip, Instr: func(i ssa.Instruction, c *Ctx) bool {
		_, isDefer := i.(*ssa.Defer)
		return isDefer && e.instr(i, c)
	}}
	either := e.cut()
	fn := ins.Parent()
	for _, b := range fn.Blocks {
		if b == fn.Recover {
			continue
		}
		for i, x := range b.Instrs {
			switch y := x.(type) {
			case *ssa.Return, *ssa.Panic:
				if p.searchAfter(ins, b, i, either) {
					return x
				}
			case *ssa.Call:
				if !p.runsRepoCode(y) || e.instr(x, nil) {
					continue
				}
				if p.searchAfter(ins, b, i, deferOnly) {
					return x
				}
			}
		}
	}
	return nil
}

// growsList: appending to a list field.
func (p *Program) growsList(typ, field string) effect {
	return p.storesField(typ, field, func(st *ssa.Store, fa *ssa.FieldAddr, c *Ctx) bool {
		call, ok := st.Val.(*ssa.Call)
		if !ok || p.calleeName(call) != "builtin.append" {
			return false
		}
		a := call.Call.Args
		if len(a) != 2 {
			return false
		}
		// the variadic part is a fresh array of the new elements
		sl, ok := a[1].(*ssa.Slice)
		if !ok {
			return false
		}
		_, fresh := sl.X.(*ssa.Alloc)
		_, _, whole := p.loadOf(a[0], c, typ, field)
		return fresh && whole
	})
}

// counterAdd: adding n to an atomic counter field.
func (p *Program) counterAdd(typ, field string, n int64) effect {
	return func(ins ssa.Instruction, c *Ctx) bool {
		ci, ok := ins.(ssa.CallInstruction)
		if !ok || !strings.HasPrefix(p.calleeName(ci), "sync/atomic.") {
			return false
		}
		a := callArgs(ci)
		if len(a) != 2 {
			return false
		}
		fa, ok := a[0].(*ssa.FieldAddr)
		if !ok || !p.isField(fa.X.Type(), fa.Field, typ, field) {
			return false
		}
		k, ok := constInt(a[1])
		return ok && k == n
	}
}

// removesElem: a store that takes out one element of a list field: the index
// removed is the one that was compared with the element.
func (p *Program) removesElem(st *ssa.Store, typ, field string) (ok bool, why string) {
	call, is := st.Val.(*ssa.Call)
	if !is {
		return true, "" // built otherwise; not judged
	}
	switch p.calleeName(call) {
	case "builtin.append":
		a := call.Call.Args
		lo, ok1 := a[0].(*ssa.Slice)
		hi, ok2 := a[1].(*ssa.Slice)
		if !ok1 || !ok2 {
			return false, "it is not a removal"
		}
		if lo.Low != nil || lo.High == nil || hi.Low == nil || hi.High != nil {
			return false, "it drops more than the element"
		}
		add, is := hi.Low.(*ssa.BinOp)
		if !is || add.Op != token.ADD {
			return false, "it does not drop exactly one element"
		}
		k, isK := constInt(add.Y)
		if !isK || k != 1 || !sameIndex(add.X, lo.High) {
			return false, "it does not drop exactly one element"
		}
		return true, ""
	}
	return true, ""
}

func sameIndex(a, b ssa.Value) bool { return a == b }

// checkListRemoval: while handling the event, the list field is updated by
// taking out one element, and counted.
func (p *Program) checkListRemoval(r *Report, rule, key string, cases []eventCase, typ, field, ctyp, counter string) {
	for _, ec := range cases {
		var found *ssa.Store
		why := "the list is never updated"
		p.eachReach(ec.fn, ec.ta, func(ins ssa.Instruction) {
			st, ok := ins.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !p.isField(fa.X.Type(), fa.Field, typ, field) {
				return
			}
			if okR, w := p.removesElem(st, typ, field); okR {
				found = st
			} else if w != "it is not a removal" {
				why = w
			}
		}, ec)
		r.Check(found != nil, rule, key, "%s: the handling of %s does not remove the session from %s.%s: %s", p.at(ec.ta), p.typeName(ec.ta.AssertedType), typ, field, why)
		if found == nil {
			continue
		}
		// the removal happens when the element is the one of the event, and is counted
		cut := &Cut{Local: true, Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
			return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool { return isPtr(a.Type()) && !isNilConst(b) && !isNilConst(a) })
		}}
		_, free := p.reachInstr(found, nil, cut)
		isIdx := false
		if call, ok := found.Val.(*ssa.Call); ok && p.calleeName(call) == "builtin.append" {
			isIdx = true
		}
		r.Check(!free || !isIdx, rule, key+" compared", "%s: an element is taken out of %s.%s without comparing it with the session that ended", p.at(found), typ, field)
		e := p.effects(p.counterAdd(ctyp, counter, -1), nil)
		counted := false
		fn := found.Parent()
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if e.instr(i, nil) && (b == found.Block() || p.searchAfter(found, b, indexOf(i), &Cut{Local: true})) {
					counted = true
				}
			}
		}
		r.Check(counted || !isIdx, rule, key+" counted", "%s: the session is removed but %s.%s is not decremented", p.at(found), ctyp, counter)
	}
}

// eachReach visits the instructions that may run while the event is handled
// (functions called included, two levels).
func (p *Program) eachReach(fn *ssa.Function, from ssa.Instruction, f func(ssa.Instruction), ec eventCase) {
	seen := map[*ssa.Function]bool{}
	var whole func(g *ssa.Function, d int)
	visit := func(i ssa.Instruction, d int) {
		f(i)
		if ci, ok := i.(ssa.CallInstruction); ok && d < 3 {
			for _, g := range p.callees[ci] {
				whole(g, d+1)
			}
			for _, a := range ci.Common().Args {
				if mc, ok := a.(*ssa.MakeClosure); ok {
					whole(mc.Fn.(*ssa.Function), d+1)
				}
			}
		}
	}
	whole = func(g *ssa.Function, d int) {
		if seen[g] || g.Blocks == nil || !p.inRepo(fnPkg(g)) {
			return
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				visit(i, d)
			}
		}
	}
	stop := map[ssa.Instruction]bool{}
	for _, e := range ec.ends {
		stop[e] = true
	}
	cut := &Cut{Local: true, Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
		return ec.ok != nil && cond == ec.ok && !pol
	}, Instr: func(i ssa.Instruction, c *Ctx) bool { return stop[i] }}
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if b != from.Block() && !p.searchAfter(from, b, 0, cut) {
			continue
		}
		for _, i := range b.Instrs {
			if stop[i] {
				break
			}
			visit(i, 0)
		}
	}
}

// checkNetworkList: stores to the list of networks.
func (p *Program) checkNetworkList(r *Report) {
	grow := p.growsList("soju.user", "networks")
	n := 0
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		st, ok := ins.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || !p.isField(fa.X.Type(), fa.Field, "soju.user", "networks") || fresh(fa.X) {
			return
		}
		key := p.fnID(fn)
		if grow(ins, nil) {
			// started: go network.run() on the same network follows, or preceded
			e := p.effects(func(i ssa.Instruction, c *Ctx) bool {
				g, ok := i.(*ssa.Go)
				if !ok {
					return false
				}
				for _, f := range p.callees[g] {
					if p.reachesCall(f, "soju.network.run", 0) {
						return true
					}
				}
				return false
			}, nil)
			at := p.avoided(ins, append(returnsOf(fn), p.loopBacks(ins)...), e, func(cond ssa.Value, pol bool) bool {
				return eqFact(cond, pol, token.NEQ, func(a, b ssa.Value) bool { return isNilConst(b) && isErrorType(a.Type()) })
			})
			before := false
			if _, reach := p.reachInstr(ins, nil, e.cut()); !reach {
				before = true
			}
			r.Check(at == nil || before, "network-added", key, "%s: a network joins the user's list but is not started", p.at(ins))
			return
		}
		n++
		okR, why := p.removesElem(st, "soju.user", "networks")
		r.Check(okR, "network-removed", key+":list", "%s: the update of the user's list of networks is not the removal of one network: %s", p.at(ins), why)
		// before the removal: stopped, sessions closed
		for _, ob := range []struct {
			key, what string
			e         *effs
		}{
			{"stopped", "stopping it", p.effects(p.calls(nil, "soju.network.stop"), nil)},
			{"sessions", "closing the sessions bound to it", p.effects(p.calls(nil, "soju.conn.Close", "soju.downstreamConn.Close", "soju.conn.Shutdown", "soju.downstreamConn.Shutdown"), p.notBound)},
		} {
			chains := p.Unguarded(ins, fixed(ob.e.cut()), GuardOpts{MaxDepth: 3})
			msg := ""
			if len(chains) > 0 {
				msg = p.chainString(chains[0])
				// or afterwards
				if at := p.avoided(ins, returnsOf(fn), ob.e, nil); at == nil {
					chains = nil
				}
			}
			r.Check(len(chains) == 0, "network-removed", key+":"+ob.key, "%s: a network leaves the user's list without %s (%s)", p.at(ins), ob.what, msg)
		}
	})
	// stop really stops: closes the channel
	if f := p.Func("soju.network.stop"); f != nil {
		e := p.effects(func(ins ssa.Instruction, c *Ctx) bool {
			ci, ok := ins.(ssa.CallInstruction)
			return ok && p.calleeName(ci) == "builtin.close" && p.reads(ci.Common().Args[0], c, "soju.network", "stopped")
		}, func(cond ssa.Value, pol bool, c *Ctx) bool {
			call, ok := cond.(*ssa.Call)
			if ok {
				return pol && p.calleeName(call) == "soju.network.isStopped"
			}
			// a receive on the channel succeeded: already closed
			return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
				ex, ok := a.(*ssa.Extract)
				if !ok || ex.Index != 0 {
					return false
				}
				sel, ok := ex.Tuple.(*ssa.Select)
				k, isk := constInt(b)
				return ok && isk && k >= 0 && k < int64(len(sel.States)) && sel.States[k].Dir == types.RecvOnly && p.reads(sel.States[k].Chan, c, "soju.network", "stopped")
			})
		})
		r.Check(e.always(f, nil), "network-removed", "soju.network.stop", "%s: network.stop does not always signal the network's goroutine", p.pos(f.Pos()))
	}
}

// loopBacks: the headers of loops around ins, as ends.
func (p *Program) loopBacks(ins ssa.Instruction) (out []ssa.Instruction) {
	for _, b := range ins.Parent().Blocks {
		if body := p.loopBody(b); body[ins.Block()] && len(b.Instrs) > 0 {
			out = append(out, b.Instrs[len(b.Instrs)-1])
		}
	}
	return
}

// notBound: the session is not bound to the network.
func (p *Program) notBound(cond ssa.Value, pol bool, c *Ctx) bool {
	return eqFact(cond, pol, token.NEQ, func(a, b ssa.Value) bool {
		_, _, ok := p.loadOf(a, c, "soju.downstreamConn", "network")
		return ok && !isNilConst(b)
	}) || eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
		_, _, ok := p.loadOf(a, c, "soju.downstreamConn", "network")
		return ok && isNilConst(b)
	})
}

// reachesCall: f is or calls (a few levels) the named function.
func (p *Program) reachesCall(f *ssa.Function, name string, d int) bool {
	if p.fnID(f) == name {
		return true
	}
	if d > 3 || f.Blocks == nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok {
				for _, g := range p.callees[ci] {
					if p.inRepo(fnPkg(g)) && p.reachesCall(g, name, d+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

// lastStored: the value a load of a local variable yields, when it was stored
// just before in the same block.
func (p *Program) lastStored(v ssa.Value) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return v
	}
	al := p.cell(u.X)
	if al == nil {
		return v
	}
	b := u.Block()
	for i := indexOf(u) - 1; i >= 0; i-- {
		switch x := b.Instrs[i].(type) {
		case *ssa.Store:
			if p.cell(x.Addr) == al {
				return x.Val
			}
		}
	}
	return v
}
