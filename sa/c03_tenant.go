package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{
		ID: "C03",
		Explanation: "Ownership analysis by backward slicing: every user, network, channel and subscription ID handed to the database is read from a record the acting user owns (never a number parsed from client input); " +
			"a session's network and a user's network list only ever receive that user's own networks; state of users found in the server-wide table is not touched beyond its identity and event queue; " +
			"network-scoped fan-out to sessions is filtered by the session's network, and client-driven fan-out to networks by the session's own network.",
		Run: runC03,
	})
}

func runC03(p *Program, r *Report) {
	r.Rule("db-ids", "IDs passed to the database come from records of the acting user, not from client input", 20)
	r.Rule("foreign-user", "a user reached through the server-wide table is only identified, counted or sent events", 3)
	r.Rule("fan-out", "messages of a network are delivered only to sessions bound to that network; session commands reach only the session's own network", 2)
	r.Rule("session-network", "a session's network is one of its user's networks", 2)
	r.Rule("user-networks", "networks added to a user belong to that user", 2)
	r.Rule("client-net-id", "a network number parsed from client input is only used to search the acting user's networks", 2)

	r.Rule("right-record", "what is loaded for a network is looked up by that network's own ID, and every ID passed to the database is of the kind asked for", 20)

	g := p.adminGuard()
	iface := p.databaseInterface()
	if iface == nil {
		panic("database.Database not found")
	}

	isServerUsers := func(v ssa.Value, c *Ctx) bool {
		_, _, ok := p.loadOf(v, c, "soju.Server", "users")
		return ok
	}
	// foreign: the user value comes out of the server-wide table.
	foreign := func(v ssa.Value, c *Ctx) bool {
		for _, o := range p.origins(v, c, sliceOpts{Data: true, Stop: func(v ssa.Value, c *Ctx) bool { return isServerUsers(v, c) || isFieldLoad(v) }}) {
			if isServerUsers(o.V, o.Ctx) {
				return true
			}
			// parameter of a callback given to forEachUser
			if par, ok := o.V.(*ssa.Parameter); ok && par.Parent().Parent() != nil {
				for _, ci := range p.callers[par.Parent()] {
					args := callArgs(ci)
					if i := paramIndex(par); i < len(args) {
						for _, oo := range p.origins(args[i], nil, sliceOpts{Data: true, Stop: isServerUsers}) {
							if isServerUsers(oo.V, oo.Ctx) {
								return true
							}
						}
					}
				}
			}
		}
		return false
	}

	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if !ci.Common().IsInvoke() || !p.isDatabaseIface(ci.Common().Value.Type()) {
			return
		}
		if pk := p.pkgOf(fn); pk != "soju" && pk != "msgstore" {
			return
		}
		sig := ci.Common().Signature()
		for i := 0; i < sig.Params().Len(); i++ {
			if b, ok := sig.Params().At(i).Type().(*types.Basic); !ok || b.Kind() != types.Int64 {
				continue
			}
			arg := ci.Common().Args[i]
			key := fmt.Sprintf("%s: %s(%s)", p.fnID(fn), ci.Common().Method.Name(), sig.Params().At(i).Name())
			bad := ""
			for _, o := range p.origins(arg, nil, sliceOpts{Up: true, Data: true}) {
				if k, ok := constInt(o.V); ok && k == 0 {
					continue
				}
				ok := false
				for _, t := range []string{"database.User", "database.Network", "database.Channel", "database.WebPushSubscription"} {
					if base, bc, is := p.loadOf(o.V, o.Ctx, t, "ID"); is {
						ok = true
						if want := idKind(ci.Common().Method.Name(), sig.Params().At(i).Name()); want != "" {
							r.Check(want == t, "right-record", key, "%s: %s is given the ID of a %s instead of a %s", p.at(ci), ci.Common().Method.Name(), t, want)
						}
						if t == "database.User" && foreign(stripFieldAddr(base), bc) {
							if ub := p.Unguarded(ci, g.cut(ci, func(c *Ctx) string { return p.userNameOf(base, c) }, nil), GuardOpts{}); len(ub) > 0 {
								bad = "the ID of a user taken from the server-wide table"
							}
						}
					}
				}
				if !ok {
					bad = p.describe(o.V)
				}
			}
			if bad != "" {
				// or it was compared with the ID of a record the user owns
				same := func(sink *Ctx) *Cut {
					want := p.ap(arg, sink)
					return &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
						return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
							base, bc, is := p.loadOf(a, c, "database.Network", "ID")
							if !is || p.ap(b, c) != want {
								return false
							}
							for _, o := range p.origins(stripFieldAddr(base), bc, sliceOpts{Data: true, Stop: func(v ssa.Value, c *Ctx) bool { return isFieldLoad(v) }}) {
								if _, _, own := p.loadOf(o.V, o.Ctx, "soju.user", "networks"); !own {
									return false
								}
							}
							return true
						})
					}}
				}
				if len(p.Unguarded(ci, same, GuardOpts{})) == 0 {
					bad = ""
				}
			}
			r.Check(bad == "", "db-ids", key, "%s: %s is called with an ID that is not read from a record of the acting user: %s", p.at(ci), ci.Common().Method.Name(), bad)
		}
	})

	// foreign users
	allowed := map[string]bool{"events": true, "done": true, "numDownstreamConns": true, "User": true, "srv": true, "logger": true}
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		fa, ok := ins.(*ssa.FieldAddr)
		if !ok || p.typeName(fa.X.Type()) != "soju.user" {
			return
		}
		f := fieldVar(fa.X.Type(), fa.Field).Name()
		if fn.Signature.Recv() != nil && p.typeName(fn.Signature.Recv().Type()) == "soju.user" {
			if v, _ := p.res(fa.X, nil); v == ssa.Value(fn.Params[0]) {
				return
			}
		}
		if !foreign(fa.X, nil) {
			return
		}
		key := p.fnID(fn) + ": ." + f
		r.Check(allowed[f], "foreign-user", key, "%s: field %s of a user found in the server-wide table is accessed outside that user's own event loop", p.at(ins), f)
	})

	// neither are they reached through the methods of that user
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if _, isGo := ci.(*ssa.Go); isGo || !strings.HasPrefix(name, "soju.user.") || len(callArgs(ci)) == 0 {
			return
		}
		recv := callArgs(ci)[0]
		if p.typeName(recv.Type()) != "soju.user" || !foreign(recv, nil) {
			return
		}
		for _, t := range p.resolve(ci) {
			for f := range p.ownFields(t, map[*ssa.Function]bool{}) {
				r.Check(allowed[f], "foreign-user", p.fnID(fn)+": "+name+": ."+f, "%s: %s accesses field %s of a user found in the server-wide table outside that user's own event loop", p.at(ci), name, f)
			}
		}
	})
	p.loadedFor(r)
	p.ownNetwork(r)

	// fan-out
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		ld, ok := ins.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL {
			return
		}
		ia, ok := ld.X.(*ssa.IndexAddr)
		if !ok {
			return
		}
		base, bc, ok := p.loadOf(ia.X, nil, "soju.user", "downstreamConns")
		if !ok {
			return
		}
		base, _ = p.res(base, bc)
		// only when the list is reached from a network or an upstream
		// connection: user.downstreamConns of net.user or uc.user
		owner, oc, viaNet := p.loadOf(base, bc, "soju.network", "user")
		if !viaNet {
			owner, oc, viaNet = p.loadOf(base, bc, "soju.upstreamConn", "user")
		}
		if !viaNet {
			owner, oc, viaNet = p.loadOf(base, bc, "soju.downstreamConn", "user")
		}
		if !viaNet {
			return
		}
		_ = oc
		me := p.ap(owner, nil)
		bouncer := p.typeName(owner.Type()) == "soju.downstreamConn"
		key := p.fnID(fn)
		cut := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
			return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
				if bb, bbc, is := p.loadOf(a, c, "soju.downstreamConn", "network"); is {
					if w, _ := p.res(bb, bbc); w != ssa.Value(ld) {
						return false
					}
					t := p.ap(b, c)
					return t == me || t == me+".network" || bouncer && t == "K:nil"
				}
				if bb, bbc, is := p.loadOf(a, c, "soju.downstreamConn", "id"); is {
					w, _ := p.res(bb, bbc)
					return w == ssa.Value(ld)
				}
				return false
			})
		}}
		for _, use := range *ld.Referrers() {
			switch use.(type) {
			case ssa.CallInstruction, *ssa.Return, *ssa.Store, *ssa.MakeClosure, *ssa.Phi, *ssa.Send:
			default:
				continue
			}
			_, reach := p.reachInstr(use, nil, cut)
			r.Check(!reach, "fan-out", key, "%s: a session of the user is used for a network's traffic without checking that it is bound to that network", p.at(use))
		}
	})
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		// downstreamConn methods that act on upstream connections of the user
		ci, ok := ins.(ssa.CallInstruction)
		if !ok || p.calleeName(ci) != "soju.user.forEachUpstream" && p.calleeName(ci) != "soju.user.forEachNetwork" {
			return
		}
		recv := callArgs(ci)[0]
		owner, _, viaDC := p.loadOf(recv, nil, "soju.downstreamConn", "user")
		if !viaDC {
			return
		}
		me := p.ap(owner, nil)
		isNet := func(v ssa.Value, c *Ctx) bool { return p.ap(v, c) == me+".network" }
		_, nilNet := p.reachInstr(ci, nil, &Cut{Nil: func(v ssa.Value, isNil bool, c *Ctx) bool { return !isNil && isNet(v, c) }})
		for _, cb := range p.resolveValue(callArgs(ci)[1], 0) {
			par := cb.Params[0]
			cut := &Cut{Nil: func(v ssa.Value, isNil bool, c *Ctx) bool { return !nilNet && isNil && isNet(v, c) }, Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
				return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
					bb, bbc, is := p.loadOf(a, c, "soju.upstreamConn", "network")
					if !is {
						return false
					}
					if w, _ := p.res(bb, bbc); w != ssa.Value(par) {
						return false
					}
					return p.ap(b, c) == me+".network"
				})
			}}
			for _, b := range cb.Blocks {
				for _, x := range b.Instrs {
					call, ok := x.(ssa.CallInstruction)
					if !ok {
						continue
					}
					for _, a := range callArgs(call) {
						if w, _ := p.res(a, nil); w == ssa.Value(par) {
							_, reach := p.reachInstr(call, mkCtx(Ctx{mc: closureOf(p, cb)}), cut)
							r.Check(!reach, "fan-out", p.fnID(fn)+":upstreams", "%s: an upstream connection other than the session's network is acted on", p.at(call))
						}
					}
				}
			}
		}
	})

	// session network
	for _, st := range p.storesTo("soju.downstreamConn", "network") {
		if isNilConst(st.Val) {
			continue
		}
		dc := p.ap(st.Addr.(*ssa.FieldAddr).X, nil)
		key := p.fnID(st.Parent())
		for _, o := range p.origins(st.Val, nil, sliceOpts{Data: true, Stop: func(v ssa.Value, c *Ctx) bool {
			call, ok := v.(*ssa.Call)
			if !ok {
				if ex, ok2 := v.(*ssa.Extract); ok2 {
					call, _ = ex.Tuple.(*ssa.Call)
				}
			}
			if call == nil || call.Common().IsInvoke() {
				return false
			}
			f := call.Common().StaticCallee()
			return f != nil && f.Signature.Recv() != nil && p.typeName(f.Signature.Recv().Type()) == "soju.user" || p.calleeName(call) == "soju.newNetwork"
		}}) {
			if isNilConst(o.V) {
				continue
			}
			call := p.callOf(o.V)
			ok := false
			if call != nil {
				recv := p.ap(callArgs(call)[0], o.Ctx)
				dcUser := dc + ".user"
				ok = recv == dcUser
				if !ok {
					// dc is an element of recv.downstreamConns
					x := st.Addr.(*ssa.FieldAddr).X
					for _, oo := range p.origins(x, nil, sliceOpts{Data: true, Stop: func(v ssa.Value, c *Ctx) bool {
						_, _, is := p.loadOf(v, c, "soju.user", "downstreamConns")
						return is
					}}) {
						if b, bc, is := p.loadOf(oo.V, oo.Ctx, "soju.user", "downstreamConns"); is && p.ap(b, bc) == recv {
							ok = true
						}
					}
				}
			}
			r.Check(ok, "session-network", key, "%s: a session is bound to a network that does not come from its own user (%s)", p.at(st), p.describe(o.V))
			// one that replaces another: only for sessions of that other one
			if call != nil && p.calleeName(call) == "soju.newNetwork" {
				x := st.Addr.(*ssa.FieldAddr).X
				p.guardRule(r, "session-network", key+":replaced", st, fixed(&Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
					return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
						base, bc, is := p.loadOf(a, c, "soju.downstreamConn", "network")
						return is && !isNilConst(b) && p.sameExpr(base, bc, x, nil, 0)
					})
				}}), GuardOpts{}, "a session is bound to a network that replaces another although it may not be bound to that one")
			}
		}
	}

	// networks of a user
	for _, st := range p.storesTo("soju.user", "networks") {
		u := p.ap(st.Addr.(*ssa.FieldAddr).X, nil)
		key := p.fnID(st.Parent())
		for _, o := range p.origins(st.Val, nil, sliceOpts{Up: true, Data: true, Stop: func(v ssa.Value, c *Ctx) bool {
			if _, _, is := p.loadOf(v, c, "soju.user", "networks"); is {
				return true
			}
			call, ok := v.(*ssa.Call)
			return ok && p.calleeName(call) == "soju.newNetwork"
		}}) {
			if _, _, is := p.loadOf(o.V, o.Ctx, "soju.user", "networks"); is || isNilConst(o.V) {
				continue
			}
			if _, ok := o.V.(*ssa.Const); ok {
				continue
			}
			call, ok := o.V.(*ssa.Call)
			good := ok && p.calleeName(call) == "soju.newNetwork"
			if good {
				own := p.ap(call.Common().Args[0], o.Ctx)
				good = own == u || p.isReceiverOf(call.Parent(), call.Common().Args[0]) || strings.HasPrefix(own, "P:soju.user.")
			}
			r.Check(good, "user-networks", key, "%s: a network of unrecognised ownership is added to a user (%s)", p.at(st), p.describe(o.V))
		}
	}

	// parsed network IDs
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if name != "soju.user.getNetworkByID" {
			return
		}
		recv := callArgs(ci)[0]
		v, c := p.res(recv, nil)
		own := false
		for _, t := range []string{"soju.downstreamConn", "soju.serviceContext", "soju.upstreamConn", "soju.network"} {
			if _, _, is := p.loadOf(v, c, t, "user"); is {
				own = true
			}
		}
		if par, ok := v.(*ssa.Parameter); ok && p.typeName(par.Type()) == "soju.user" && !foreign(par, nil) {
			own = true
		}
		r.Check(own, "client-net-id", p.fnID(fn), "%s: a network is looked up in a user other than the acting one", p.at(ci))
	})
}

// idKind: the record whose ID a parameter of the database interface is.
func idKind(method, param string) string {
	switch strings.ToLower(param) {
	case "userid":
		return "database.User"
	case "networkid":
		return "database.Network"
	}
	switch method {
	case "DeleteUser":
		return "database.User"
	case "DeleteNetwork":
		return "database.Network"
	case "DeleteChannel":
		return "database.Channel"
	}
	return ""
}

// ownFields: the fields of its receiver that a method of user accesses, also
// through other methods.
func (p *Program) ownFields(fn *ssa.Function, seen map[*ssa.Function]bool) map[string]bool {
	out := map[string]bool{}
	if seen[fn] || len(fn.Params) == 0 {
		return out
	}
	seen[fn] = true
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if fa, ok := ins.(*ssa.FieldAddr); ok && p.typeName(fa.X.Type()) == "soju.user" {
					if v, _ := p.res(fa.X, nil); v == ssa.Value(fn.Params[0]) {
						out[fieldVar(fa.X.Type(), fa.Field).Name()] = true
					}
				}
				if ci, ok := ins.(ssa.CallInstruction); ok {
					args := callArgs(ci)
					if len(args) == 0 || p.typeName(args[0].Type()) != "soju.user" {
						continue
					}
					if v, _ := p.res(args[0], nil); v != ssa.Value(fn.Params[0]) {
						continue
					}
					for _, t := range p.resolve(ci) {
						for k := range p.ownFields(t, seen) {
							out[k] = true
						}
					}
				}
			}
		}
		for _, an := range f.AnonFuncs {
			visit(an)
		}
	}
	visit(fn)
	return out
}

// loadedFor: the channels a network starts with and the delivery receipts put
// into it were looked up by its own ID.
func (p *Program) loadedFor(r *Report) {
	stop := func(names ...string) sliceOpts {
		return sliceOpts{Data: true, Stop: func(v ssa.Value, c *Ctx) bool {
			call := p.callOf(v)
			if call == nil || !call.Call.IsInvoke() {
				return false
			}
			for _, n := range names {
				if call.Call.Method.Name() == n {
					return true
				}
			}
			return false
		}}
	}
	// the network number asked for: the path of the record
	recordOf := func(call *ssa.Call, c *Ctx) (ssa.Value, *Ctx) {
		for _, a := range call.Call.Args {
			if base, bc, ok := p.loadOf(a, c, "database.Network", "ID"); ok {
				return stripFieldAddr(base), bc
			}
		}
		return nil, nil
	}
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		switch name {
		case "soju.newNetwork":
			args := callArgs(ci)
			if len(args) != 3 {
				return
			}
			for _, o := range p.origins(args[2], nil, stop("ListChannels")) {
				call := p.callOf(o.V)
				if call == nil || !call.Call.IsInvoke() || call.Call.Method.Name() != "ListChannels" {
					continue
				}
				rec, rc := recordOf(call, o.Ctx)
				ok := rec != nil && p.sameNetRecord(rec, rc, args[1], nil)
				r.Check(ok, "right-record", p.fnID(fn)+": channels", "%s: a network starts with channels that were not looked up by its own ID", p.at(ci))
			}
		case "soju.deliveredStore.StoreID":
			args := callArgs(ci)
			net, nc, ok := p.loadOf(args[0], nil, "soju.network", "delivered")
			if !ok {
				if fa, is := args[0].(*ssa.FieldAddr); is {
					net, nc, ok = fa.X, nil, true
				}
			}
			if !ok {
				return
			}
			for _, a := range args[1:] {
				ac := (*Ctx)(nil)
				a, ac = p.res(a, ac)
				// the receipt that a is a field of
				if u, is := a.(*ssa.UnOp); is && u.Op == token.MUL && p.typeName(stripFieldAddr(u.X).Type()) == "database.DeliveryReceipt" {
					a = stripFieldAddr(u.X)
				} else if f, is := a.(*ssa.Field); is {
					a = f.X
				}
				if al, is := a.(*ssa.Alloc); is {
					if st := p.soleStore(al); st != nil {
						a = st.Val
					}
				}
				for _, o := range p.origins(a, ac, stop("ListDeliveryReceipts")) {
					call := p.callOf(o.V)
					if call == nil || !call.Call.IsInvoke() || call.Call.Method.Name() != "ListDeliveryReceipts" {
						continue
					}
					rec, rc := recordOf(call, o.Ctx)
					good := rec != nil && p.sameNetRecord(rec, rc, net, nc)
					if rec != nil && !good {
						// the record the network was made of
						nv, nvc := p.res(net, nc)
						if mk := p.callOf(nv); mk != nil && p.calleeName(mk) == "soju.newNetwork" {
							good = p.sameNetRecord(rec, rc, callArgs(mk)[1], nvc)
						}
					}
					r.Check(good, "right-record", p.fnID(fn)+": receipts", "%s: delivery receipts are put into a network although they were not looked up by its own ID", p.at(ci))
				}
			}
		}
	})
}

// sameNetRecord: both are the same record, or copies of it.
func (p *Program) sameNetRecord(a ssa.Value, ac *Ctx, b ssa.Value, bc *Ctx) bool {
	b = stripFieldAddr(b)
	if p.sameExpr(a, ac, b, bc, 0) || p.ap(a, ac) == p.ap(b, bc) {
		return true
	}
	root := func(v ssa.Value, c *Ctx) string {
		for i := 0; i < 4; i++ {
			v, c = p.res(v, c)
			al, ok := v.(*ssa.Alloc)
			if !ok {
				break
			}
			st := p.soleStore(al)
			if st == nil {
				break
			}
			w, wc := p.res(st.Val, c)
			if u, ok := w.(*ssa.UnOp); ok && u.Op == token.MUL {
				v, c = u.X, wc
				continue
			}
			v, c = w, wc
		}
		return p.ap(v, c) + fmt.Sprintf("|%p", v)
	}
	return root(a, ac) == root(b, bc)
}

// soleStore: the only assignment of the whole variable.
func (p *Program) soleStore(al *ssa.Alloc) *ssa.Store {
	var out *ssa.Store
	for _, ref := range *al.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			if out != nil {
				return nil
			}
			out = st
		}
	}
	return out
}

// ownNetwork: what the methods of a session return or hand to a function as
// the network, or its connection, is that of the session.
func (p *Program) ownNetwork(r *Report) {
	isTo := func(t types.Type) bool {
		n := p.typeName(t)
		return n == "soju.network" || n == "soju.upstreamConn"
	}
	for _, fn := range p.Funcs {
		if fn.Parent() != nil || fn.Signature.Recv() == nil || p.typeName(fn.Signature.Recv().Type()) != "soju.downstreamConn" {
			continue
		}
		own := func(v ssa.Value, c *Ctx) string {
			for _, o := range p.origins(v, c, sliceOpts{Stop: func(v ssa.Value, c *Ctx) bool {
				return isFieldLoad(v)
			}}) {
				if isNilConst(o.V) {
					continue
				}
				path := p.ap(o.V, o.Ctx)
				if path == "P:soju.downstreamConn.network" || path == "P:soju.downstreamConn.network.conn" {
					continue
				}
				if _, _, ok := p.loadOf(o.V, o.Ctx, "soju.downstreamConn", "network"); ok {
					continue
				}
				if nb, nc, ok := p.loadOf(o.V, o.Ctx, "soju.network", "conn"); ok {
					if _, _, ok := p.loadOf(nb, nc, "soju.downstreamConn", "network"); ok {
						continue
					}
				}
				return p.describe(o.V)
			}
			return ""
		}
		res := fn.Signature.Results()
		for _, b := range fn.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			for i := 0; i < res.Len(); i++ {
				if isTo(res.At(i).Type()) {
					bad := own(ret.Results[i], nil)
					r.Check(bad == "", "fan-out", p.fnID(fn)+":result", "%s: a session gets a network or connection that is not its own (%s)", p.at(ret), bad)
				}
			}
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok || ci.Common().IsInvoke() {
					continue
				}
				par, ok := ci.Common().Value.(*ssa.Parameter)
				if !ok || par.Parent() != fn {
					continue
				}
				for _, a := range ci.Common().Args {
					if isTo(a.Type()) {
						bad := own(a, nil)
						r.Check(bad == "", "fan-out", p.fnID(fn)+":callback", "%s: a session acts on a network or connection that is not its own (%s)", p.at(ci), bad)
					}
				}
			}
		}
	}
}

func isFieldLoad(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	_, ok = u.X.(*ssa.FieldAddr)
	return ok
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

func (p *Program) callOf(v ssa.Value) *ssa.Call {
	switch x := v.(type) {
	case *ssa.Call:
		return x
	case *ssa.Extract:
		c, _ := x.Tuple.(*ssa.Call)
		return c
	}
	return nil
}

func closureOf(p *Program, f *ssa.Function) *ssa.MakeClosure {
	if m := p.closures[f]; len(m) == 1 {
		return m[0]
	}
	return nil
}

func (p *Program) isReceiverOf(f *ssa.Function, v ssa.Value) bool {
	w, _ := p.res(v, nil)
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Signature.Recv() != nil && len(f.Params) > 0 && w == ssa.Value(f.Params[0])
}

// userNameOf: base is a user obtained by getUser(name): the name's path.
func (p *Program) userNameOf(base ssa.Value, c *Ctx) string {
	for _, o := range p.origins(stripFieldAddr(base), c, sliceOpts{Stop: func(v ssa.Value, c *Ctx) bool {
		_, is := p.isCallTo(v, 0, "soju.Server.getUser")
		return is
	}}) {
		if g, is := p.isCallTo(o.V, 0, "soju.Server.getUser"); is {
			return p.ap(callArgs(g)[1], o.Ctx)
		}
	}
	return ""
}

func (p *Program) databaseInterface() *types.Interface {
	sp := p.ByPkg["database"]
	if sp == nil {
		return nil
	}
	tn, ok := sp.Pkg.Scope().Lookup("Database").(*types.TypeName)
	if !ok {
		return nil
	}
	it, _ := tn.Type().Underlying().(*types.Interface)
	return it
}

func (p *Program) isDatabaseIface(t types.Type) bool {
	n := p.typeName(t)
	return n == "database.Database" || n == "database.MetricsCollectorDatabase"
}
