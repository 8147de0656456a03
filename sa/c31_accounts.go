package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{ID: "C31", Explanation: "Guard analysis of every place that accepts a session, dials a server or enables an account, and must-effect analysis of what follows a change of an account.",
		Assumptions: []string{"a loop over a collection reaches every element if it only ends at its header", "closing a connection ends its session (C09)"},
		Run:         runC31})
}

// enabledLoad: v reads whether an account (or network) is enabled.
func (p *Program) enabledLoad(v ssa.Value, c *Ctx, typ string) bool {
	_, _, ok := p.loadOf(v, c, typ, "Enabled")
	return ok
}

func runC31(p *Program, r *Report) {
	r.Rule("refused", "sessions of a disabled account are refused", 1)
	r.Rule("dial", "servers are only connected to for an enabled account and an enabled network", 1)
	r.Rule("disconnect", "disabling an account closes its sessions and restarts its networks", 2)
	r.Rule("password", "a new password set by an administrator closes all sessions", 1)
	r.Rule("enable", "an account is only enabled by authenticating if that is configured", 0)
	r.Rule("inactive", "only accounts without sessions that were inactive for the configured time are disabled", 2)
	r.Rule("activity", "the start and end of a session is recorded as activity, unless an administrator acts as the user", 3)

	const userT, netT = "database.User", "database.Network"
	on := func(typ string) *Cut {
		return &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
			return pol && p.enabledLoad(mustResC(p, cond, c), c, typ) || pol && p.enabledLoad(cond, c, typ)
		}}
	}

	// refused
	grow := p.growsList("soju.user", "downstreamConns")
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		if grow(ins, nil) {
			p.guardRule(r, "refused", p.fnID(fn), ins, fixed(on(userT)), GuardOpts{MaxDepth: 3}, "a session is accepted although the account may be disabled")
		}
	})
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		switch name {
		case "soju.downstreamConn.welcome":
			p.guardRule(r, "refused", p.fnID(fn)+":welcome", ci, fixed(on(userT)), GuardOpts{MaxDepth: 3}, "a session is welcomed although the account may be disabled")
		case "soju.connectToUpstream":
			for _, typ := range []string{userT, netT} {
				p.guardRule(r, "dial", p.fnID(fn)+":"+typ, ci, fixed(on(typ)), GuardOpts{MaxDepth: 4}, "a server is connected to although the "+strings.ToLower(strings.TrimPrefix(typ, "database."))+" may be disabled")
			}
		}
	})

	// disconnect
	closes := p.calls(nil, "soju.conn.Close", "soju.downstreamConn.Close", "soju.conn.Shutdown", "soju.downstreamConn.Shutdown")
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		st, ok := ins.(*ssa.Store)
		if !ok || p.pkgOf(fn) != "soju" {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || fresh(fa.X) {
			return
		}
		key := p.fnID(fn)
		whole := p.isField(fa.X.Type(), fa.Field, "soju.user", "User")
		if !whole {
			return
		}
		e := p.effects(closes, func(cond ssa.Value, pol bool, c *Ctx) bool { return pol && p.enabledLoad(cond, c, userT) })
		at := p.avoided(ins, returnsOf(fn), e, nil)
		r.Check(at == nil, "disconnect", key+":sessions", "%s: after an account was disabled the function can end (%s) without closing its sessions", p.at(ins), p.at(at))

		// networks: each is updated (stopped and started again)
		same := func(cond ssa.Value, pol bool, c *Ctx) bool {
			return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
				return p.enabledLoad(mustResC(p, a, c), c, userT) && p.enabledLoad(mustResC(p, b, c), c, userT)
			}) || p.sameEnabled(cond, pol, c)
		}
		// (they may be listed first)
		lists := false
		appends := func(i ssa.Instruction, c *Ctx) bool {
			call, ok := i.(*ssa.Call)
			return ok && p.calleeName(call) == "builtin.append" && (strings.Contains(call.Type().String(), "database.Network") || strings.Contains(call.Type().String(), "soju.network"))
		}
		p.within(fn, func(g *ssa.Function, i ssa.Instruction) {
			if g == fn && appends(i, nil) {
				lists = true
			}
		})
		restarts := p.calls(nil, "soju.user.updateNetwork", "soju.network.stop")
		collect := p.effects(restarts, same)
		if lists {
			collect = p.effects(appends, same)
		}
		at = p.avoided(ins, returnsOf(fn), collect, nil)
		r.Check(at == nil, "disconnect", key+":networks", "%s: enabling or disabling an account does not affect every one of its networks", p.at(ins))
		update := p.effects(restarts, same)
		update.all = true
		at = p.avoided(ins, returnsOf(fn), update, nil)
		r.Check(at == nil, "disconnect", key+":update", "%s: after an account was enabled or disabled the function can end (%s) without restarting its networks", p.at(ins), p.at(at))
	})

	// the number of sessions follows the list of sessions
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		a := callArgs(ci)
		if !strings.HasSuffix(name, ".Add") || len(a) < 2 {
			return
		}
		fa, ok := a[0].(*ssa.FieldAddr)
		if !ok || !p.isField(fa.X.Type(), fa.Field, "soju.user", "numDownstreamConns") {
			return
		}
		// every path to it, or on from it, changes the list
		change := func(i ssa.Instruction, c *Ctx) bool {
			st, ok := i.(*ssa.Store)
			if !ok {
				return false
			}
			f2, ok := st.Addr.(*ssa.FieldAddr)
			return ok && p.isField(f2.X.Type(), f2.Field, "soju.user", "downstreamConns")
		}
		seen := false
		for _, i := range ci.Block().Instrs {
			if change(i, nil) {
				seen = true
			}
		}
		if !seen {
			_, open := p.reachInstr(ci, nil, &Cut{Instr: change})
			seen = !open
		}
		if !seen {
			seen = p.avoided(ci, returnsOf(fn), p.effects(change, nil), nil) == nil
		}
		r.Check(seen, "inactive", "number of sessions in "+p.fnID(fn), "%s: the number of a user's sessions changes without the list of sessions", p.at(ci))
	})

	cases := p.eventCases()
	// password
	for _, ec := range cases["soju.eventUserUpdate"] {
		e := p.effects(closes, func(cond ssa.Value, pol bool, c *Ctx) bool {
			return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
				return isNilConst(b) && p.readsField(a, c, "soju.eventUserUpdate", "password")
			})
		})
		at := p.missed(ec, e)
		r.Check(at == nil, "password", p.fnID(ec.fn), "%s: a new password is set without closing the sessions opened with the old one", p.at(ec.ta))
	}

	// enable
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		st, ok := ins.(*ssa.Store)
		if !ok || p.pkgOf(fn) != "soju" {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || !p.isField(fa.X.Type(), fa.Field, userT, "Enabled") {
			return
		}
		if b, isk := constBool(mustRes(p, st.Val)); !isk || !b {
			return
		}
		p.guardRule(r, "enable", p.fnID(fn), ins, fixed(&Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
			return pol && p.readsField(cond, c, "soju.Config", "EnableUsersOnAuth")
		}}), GuardOpts{MaxDepth: 3}, "a disabled account is enabled without anyone having asked for it")
	})

	p.checkInactive(r)

	// activity
	bump := p.effects(func(i ssa.Instruction, c *Ctx) bool { return p.bumpsActivity(i) }, func(cond ssa.Value, pol bool, c *Ctx) bool {
		if pol {
			_, _, ok := p.loadOf(cond, c, "soju.downstreamConn", "impersonating")
			return ok
		}
		return false
	})
	for _, ev := range []string{"soju.eventDownstreamConnected", "soju.eventDownstreamDisconnected"} {
		for _, ec := range cases[ev] {
			e := bump
			if ev == "soju.eventDownstreamConnected" {
				e = p.effects(orEffect(func(i ssa.Instruction, c *Ctx) bool { return p.bumpsActivity(i) }, p.calls(nil, "soju.conn.Shutdown", "soju.downstreamConn.Shutdown", "soju.conn.Close", "soju.downstreamConn.Close")), bump.skip)
			}
			at := p.missed(ec, e)
			r.Check(at == nil, "activity", strings.TrimPrefix(ev, "soju."), "%s: a session starts or ends without being recorded as activity of the user", p.at(ec.ta))
		}
	}
	n := 0
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		if !p.bumpsActivity(ins) {
			return
		}
		n++
		p.guardRule(r, "activity", fmt.Sprintf("impersonation#%d", n), ins, fixed(&Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
			_, _, ok := p.loadOf(cond, c, "soju.downstreamConn", "impersonating")
			return ok && !pol
		}}), GuardOpts{MaxDepth: 3}, "an administrator acting as the user counts as activity of the user")
	})
}

// sameEnabled: a condition built from the comparison of both records.
func (p *Program) sameEnabled(cond ssa.Value, pol bool, c *Ctx) bool {
	w, wc := p.res(cond, c)
	if u, ok := w.(*ssa.UnOp); ok && u.Op == token.NOT {
		return p.sameEnabled(u.X, !pol, wc)
	}
	b, ok := w.(*ssa.BinOp)
	if !ok || b.Op != token.NEQ && b.Op != token.EQL {
		return false
	}
	x, xc := p.res(b.X, wc)
	y, yc := p.res(b.Y, wc)
	return p.enabledLoad(x, xc, "database.User") && p.enabledLoad(y, yc, "database.User") && pol == (b.Op == token.EQL)
}

// readsField: v is (a copy of) the field of some value of the type, also when
// the value is not behind a pointer.
func (p *Program) readsField(v ssa.Value, c *Ctx, typ, field string) bool {
	w, wc := p.res(v, c)
	if _, _, ok := p.loadOf(w, wc, typ, field); ok {
		return true
	}
	if f, ok := w.(*ssa.Field); ok {
		return p.isField(f.X.Type(), f.Field, typ, field)
	}
	return false
}

// bumpsActivity: ins changes the time of the last activity: a store of the
// current time to the record, seen from the place where the update is asked
// for.
func (p *Program) bumpsActivity(ins ssa.Instruction) bool {
	ci, ok := ins.(*ssa.Call)
	if !ok || p.pkgOf(ins.Parent()) != "soju" {
		return false
	}
	for _, a := range ci.Call.Args {
		if _, ok := a.Type().Underlying().(*types.Signature); !ok {
			continue
		}
		fs := p.resolveValue(a, 0)
		if len(fs) != 1 || fs[0].Blocks == nil {
			continue
		}
		g := fs[0]
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !p.isField(fa.X.Type(), fa.Field, "database.User", "DownstreamInteractedAt") {
					continue
				}
				call, ok := mustRes(p, st.Val).(*ssa.Call)
				if !ok {
					return false
				}
				if n := p.calleeName(call); n != "time.Now" && !strings.HasPrefix(n, "time.Time.") {
					return false
				}
				if _, open := p.reachInstr(st, nil, &Cut{}); !open {
					return false
				}
				// every successful update has it
				for _, ri := range returnsOf(g) {
					if ret, ok := ri.(*ssa.Return); ok && p.retErrNonNil(ret) {
						continue
					}
					if p.searchEntry(ri, &Cut{Instr: func(x ssa.Instruction, c *Ctx) bool { return x == ssa.Instruction(st) }}) {
						return false
					}
				}
				return true
			}
		}
	}
	return false
}

// searchEntry: ins is reachable from the entry of its function without a cut.
func (p *Program) searchEntry(ins ssa.Instruction, cut *Cut) bool {
	_, ok := p.search(ins.Parent().Blocks[0], 0, ins.Block(), indexOf(ins), nil, cut, 0)
	return ok
}

// checkInactive: accounts are disabled in the background only if inactive.
func (p *Program) checkInactive(r *Report) {
	const ev = "soju.eventUserUpdate"
	// sends of updates that disable, by a function that asks for inactive users
	lists := map[*ssa.Function]*ssa.Call{}
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		call, ok := ci.(*ssa.Call)
		if !ok || !strings.HasSuffix(name, ".ListInactiveUsernames") || p.pkgOf(fn) != "soju" {
			return
		}
		lists[topFn(fn)] = call
		key := p.fnID(fn)
		// now minus the configured delay
		args := callArgs(call)
		limit := args[len(args)-1]
		okLimit := false
		var delay ssa.Value
		if add, is := mustRes(p, limit).(*ssa.Call); is && p.calleeName(add) == "time.Time.Add" {
			aa := callArgs(add)
			now, isNow := mustRes(p, aa[0]).(*ssa.Call)
			neg, isNeg := mustRes(p, aa[1]).(*ssa.UnOp)
			if isNow && p.calleeName(now) == "time.Now" && isNeg && neg.Op == token.SUB {
				delay = neg.X
				okLimit = p.configDelay(neg.X, call, 0)
			}
		}
		r.Check(okLimit, "inactive", key+":limit", "%s: accounts are taken as inactive by another limit than now minus the configured delay", p.at(ci))
		if delay != nil {
			p.guardRule(r, "inactive", key+":configured", call, fixed(&Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
				a, b, op, ok := cmpFact(cond, pol)
				if !ok {
					return false
				}
				if k, isk := constInt(a); isk && k == 0 {
					a, b, op = b, a, flip(op)
				}
				k, isk := constInt(b)
				return isk && k == 0 && (op == token.NEQ || op == token.GTR) && p.configDelay(mustResC(p, a, c), call, 0)
			}}), GuardOpts{MaxDepth: 2}, "accounts are disabled although that is not configured")
		}
	})
	noSessions := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
		a, b, op, ok := cmpFact(cond, pol)
		if !ok {
			return false
		}
		load := func(v ssa.Value) bool {
			call, ok := mustResC(p, v, c).(*ssa.Call)
			if !ok || !strings.HasSuffix(p.calleeName(call), ".Load") {
				return false
			}
			fa, ok := mustResC(p, callArgs(call)[0], c).(*ssa.FieldAddr)
			return ok && p.isField(fa.X.Type(), fa.Field, "soju.user", "numDownstreamConns")
		}
		if !load(a) {
			a, b, op = b, a, flip(op)
		}
		k, isk := constInt(b)
		if !load(a) || !isk {
			return false
		}
		return k == 0 && (op == token.LEQ || op == token.EQL) || k == 1 && op == token.LSS
	}}
	n := 0
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		for _, s := range sentValues(ins) {
			if p.typeName(s.val.Type()) != ev {
				continue
			}
			// not on behalf of a command
			if p.fromCommand(fn, 0) {
				continue
			}
			n++
			key := fmt.Sprintf("%s#%d", p.fnID(fn), n)
			// the user was put in the list, or found, without sessions
			var bad ssa.Instruction
			m := 0
			for _, o := range p.userSources(s.ch, ins, 0) {
				m++
				if _, open := p.reachInstr(o, nil, noSessions); open {
					bad = o
				}
			}
			if m == 0 {
				if _, open := p.reachInstr(ins, nil, noSessions); open {
					bad = ins
				}
			}
			at := ""
			if bad != nil {
				at = p.at(bad)
			}
			r.Check(bad == nil, "inactive", key+":sessions", "%s: an account with open sessions is disabled as inactive", at)
		}
	})
}

// configDelay: v is the configured delay.
func (p *Program) configDelay(v ssa.Value, at ssa.Instruction, d int) bool {
	n := 0
	for _, o := range p.origins(v, nil, sliceOpts{Up: true}) {
		if _, _, ok := p.loadOf(o.V, o.Ctx, "soju.Config", "DisableInactiveUsersDelay"); !ok {
			return false
		}
		n++
	}
	return n > 0
}

// fromCommand: fn is part of a service command.
func (p *Program) fromCommand(fn *ssa.Function, d int) bool {
	fn = topFn(fn)
	for _, q := range fn.Params {
		if strings.HasSuffix(p.typeName(q.Type()), "soju.serviceContext") {
			return true
		}
	}
	if d > 3 {
		return false
	}
	for _, ci := range p.callers[fn] {
		if p.fromCommand(ci.Parent(), d+1) {
			return true
		}
	}
	return false
}

// userSources: the appends that put the user whose event channel is ch in the
// list it is taken from.
func (p *Program) userSources(ch ssa.Value, at ssa.Instruction, d int) (out []ssa.Instruction) {
	base, _, ok := p.loadOf(ch, nil, "soju.user", "events")
	if !ok {
		return nil
	}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		v = mustRes(p, v)
		if v == nil || seen[v] || d > 15 {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e, d+1)
			}
		case *ssa.UnOp:
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				walk(ia.X, d+1)
			} else if al := p.cell(x.X); al != nil {
				for _, st := range p.allCellStores(al) {
					walk(st.Val, d+1)
				}
			}
		case *ssa.Extract:
			walk(x.Tuple, d+1)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				out = append(out, x)
				walk(x.Call.Args[0], d+1)
				return
			}
			for _, g := range p.callees[x] {
				for _, ri := range returnsOf(g) {
					if ret, ok := ri.(*ssa.Return); ok {
						for _, res := range ret.Results {
							walk(res, d+1)
						}
					}
				}
			}
		case *ssa.Parameter:
			for _, u := range p.lift(x, at) {
				if u.v != ssa.Value(x) {
					walk(u.v, d+1)
				}
			}
		}
	}
	walk(base, 0)
	return
}
