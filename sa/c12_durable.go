package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{ID: "C12", Explanation: "Every operation that changes the database is enumerated together with its callers; an error-flow analysis follows each error to the reply, and path searches relate every change of an in-memory record, channel or list to the success of the matching database operation (before it for records and lists, after it for channels).",
		Assumptions: []string{"a database operation that returns no error has stored its argument (C13, C14)", "which record an operation concerns is decided by type and by the local copy it is given"},
		Run:         runC12})
}

// dbMutation: the name of the changing database operation called, if any.
func (p *Program) dbMutation(ci ssa.CallInstruction) string {
	c := ci.Common()
	if !c.IsInvoke() || p.typeName(c.Value.Type()) != "database.Database" {
		return ""
	}
	n := c.Method.Name()
	if strings.HasPrefix(n, "Store") || strings.HasPrefix(n, "Delete") {
		return n
	}
	return ""
}

func (p *Program) inSoju(fn *ssa.Function) bool { return p.pkgOf(fn) == "soju" }

func hasErrResult(fn *ssa.Function) bool {
	res := fn.Signature.Results()
	return res.Len() > 0 && isErrorType(res.At(res.Len()-1).Type())
}

func runC12(p *Program, r *Report) {
	r.Rule("reported", "the failure of a change is never reported as a success: it is returned to the requester, or logged where there is none", 10)
	r.Rule("record-after-store", "the record of a user or network in use only changes after the changed record was stored", 2)
	r.Rule("record-follows", "a changed record that was stored becomes the record in use", 2)
	r.Rule("channel-saved", "a change of a channel in use is stored before the request is done", 3)
	r.Rule("channel-listed", "a channel leaves a network only after it was deleted, and one that joins it is stored", 2)
	r.Rule("network-listed", "a network joins or leaves a user, and a user the server, only after it was stored or deleted", 3)
	r.Rule("stop-after-store", "a network is only stopped or disconnected for a change that was stored", 0)
	r.Rule("channels-kept", "the channels of a network survive its update", 0)
	r.Rule("receipts-kept", "delivery receipts survive the update of a network", 1)

	// functions whose failure is the failure of a database operation
	carriers := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok || carriers[fn] || !p.inSoju(fn) || !hasErrResult(fn) || isMessageHandlerFn(fn) {
				return
			}
			hit := p.dbMutation(ci) != ""
			if f := ci.Common().StaticCallee(); f != nil && carriers[f] {
				hit = true
			}
			if hit {
				carriers[fn] = true
				changed = true
			}
		})
	}

	count := map[string]int{}
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		call, ok := ins.(*ssa.Call)
		if !ok || !p.inSoju(fn) {
			return
		}
		op := p.dbMutation(call)
		if op == "" {
			f := call.Call.StaticCallee()
			if f == nil || !carriers[f] || errResult(call) < 0 {
				return
			}
			op = p.fnID(f)
		}
		base := fmt.Sprintf("%s in %s", op, p.fnID(fn))
		count[base]++
		key := fmt.Sprintf("%s#%d", base, count[base])
		logs := func(i ssa.Instruction) bool { return p.logsError(i, call) }
		strict := hasErrResult(fn)
		if strict && (op == "StoreChannel" || op == "soju.network.deleteChannel") && isMessageHandlerFn(fn) {
			strict = false // joining and leaving go on upstream whether or not they can be remembered
		}
		if strict {
			logs = nil
		}
		if !strict && !hasErrResult(fn) || logs != nil {
			at, ok := p.lostErrorCut(call, nil, logs)
			r.Check(ok, "reported", key, "%s: the error of %s is neither returned nor logged (%s)", p.at(call), op, p.at(at))
			return
		}
		at, ok := p.lostErrorCut(call, nil, p.failReply)
		r.Check(ok, "reported", key, "%s: when %s fails, %s can still report success (%s)", p.at(call), op, p.fnID(fn), p.at(at))
	})
	// changes whose result is not looked at at all
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		switch x := ins.(type) {
		case *ssa.Go:
			if op := p.dbMutation(x); op != "" {
				r.Bad("reported", op+" in the background", "%s: %s runs in the background and its result is lost", p.at(ins), op)
			}
		case *ssa.Defer:
			if op := p.dbMutation(x); op != "" {
				r.Bad("reported", op+" deferred", "%s: %s is deferred and its result is lost", p.at(ins), op)
			}
		}
	})

	// the eventUserUpdate reply carries the result of the update
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		for _, s := range sentValues(ins) {
			if _, _, ok := p.loadOf(s.ch, nil, "soju.eventUserUpdate", "done"); !ok {
				continue
			}
			good := false
			bad := false
			for _, o := range p.origins(s.val, nil, sliceOpts{Stop: func(v ssa.Value, c *Ctx) bool { _, is := v.(*ssa.Call); return is }}) {
				if c, ok := o.V.(*ssa.Call); ok && c.Call.StaticCallee() != nil && carriers[c.Call.StaticCallee()] {
					good = true
				} else if !isNilConst(o.V) {
					continue
				} else {
					bad = true
				}
			}
			r.Check(good && !bad, "reported", "reply to eventUserUpdate", "%s: the reply to an update of a user is not the result of the update", p.at(ins))
		}
	})

	p.checkRecords(r)
	p.checkChannels(r)
	p.checkMembership(r)

	// receipts
	found := false
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if name != "soju.newNetwork" || p.fname(fn) == "run" {
			return
		}
		call, ok := ci.(*ssa.Call)
		if !ok || !p.replacesNetwork(call) {
			return
		}
		found = true
		lists := p.effects(func(ins ssa.Instruction, c *Ctx) bool {
			switch x := ins.(type) {
			case *ssa.Call:
				return p.calleeName(x) == "builtin.append" && strings.HasSuffix(x.Type().String(), "database.Channel")
			case *ssa.Store:
				ia, ok := x.Addr.(*ssa.IndexAddr)
				return ok && strings.HasSuffix(ia.X.Type().String(), "database.Channel")
			}
			return false
		}, nil)
		_, none := p.search(fn.Blocks[0], 0, call.Block(), indexOf(call), nil, lists.cut(), 0)
		r.Check(!none, "channels-kept", p.fnID(fn), "%s: the network that replaces another starts without all of its channels", p.at(call))
		carry := func(ins ssa.Instruction, c *Ctx) bool {
			switch x := ins.(type) {
			case *ssa.Store: // new.delivered = old.delivered
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok || !p.isField(fa.X.Type(), fa.Field, "soju.network", "delivered") {
					return false
				}
				v, _ := p.res(fa.X, c)
				return p.sameNetwork(v, call) && p.reads(x.Val, c, "soju.network", "delivered")
			case *ssa.Call:
				if !strings.HasSuffix(p.calleeName(x), "deliveredStore.StoreID") {
					return false
				}
				recv := callArgs(x)[0]
				if b, bc, ok := p.loadOf(recv, c, "soju.network", "delivered"); ok {
					v, _ := p.res(b, bc)
					return p.sameNetwork(v, call)
				}
			}
			return false
		}
		// skipping an entry that has no receipt is fine
		e := p.effectsMay(carry, func(ins ssa.Instruction, c *Ctx) bool {
			if ci, ok := ins.(ssa.CallInstruction); ok {
				return strings.HasSuffix(p.calleeName(ci), "deliveredStore.StoreID")
			}
			st, ok := ins.(*ssa.Store)
			if !ok {
				return false
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			return ok && p.isField(fa.X.Type(), fa.Field, "soju.network", "delivered")
		}, func(cond ssa.Value, pol bool, c *Ctx) bool {
			return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
				s, ok := constString(b)
				w, _ := p.res(a, c)
				id, isCall := w.(*ssa.Call)
				return ok && s == "" && isCall && strings.HasSuffix(p.calleeName(id), "deliveredStore.LoadID")
			})
		})
		at := p.avoided(call, returnsOf(fn), e, nil)
		r.Check(at == nil, "receipts-kept", p.fnID(fn), "%s: the network that replaces another starts without its delivery receipts (%s)", p.at(call), p.at(at))
	})
	if !found {
		r.Ok("receipts-kept", "networks are not replaced")
	}
}

// isMessageHandlerFn: handles messages of connections.
func isMessageHandlerFn(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		n := recvName2(f)
		if n == "downstreamConn" || n == "upstreamConn" {
			return true
		}
	}
	return false
}

// logsError: ins is a call given the error of call (among its arguments).
func (p *Program) logsError(ins ssa.Instruction, call *ssa.Call) bool {
	if s, ok := ins.(*ssa.Send); ok { // a reply
		return p.errOf(p.lastStored(s.X)) == call
	}
	ci, ok := ins.(ssa.CallInstruction)
	if !ok || ins == ssa.Instruction(call) {
		return false
	}
	n := p.calleeName(ci)
	if !strings.HasSuffix(n, "Printf") && !strings.HasSuffix(n, "Debugf") && !strings.HasSuffix(n, "sendServiceNOTICE") && !strings.HasSuffix(n, "print") {
		return false
	}
	for _, a := range callArgs(ci) {
		for _, o := range p.origins(a, nil, sliceOpts{Data: true, Stop: func(v ssa.Value, c *Ctx) bool { return p.errOf(v) == call },
			Through: func(n string, c ssa.CallInstruction) []ssa.Value { return callArgs(c) }}) {
			if p.errOf(o.V) == call {
				return true
			}
		}
	}
	return false
}

// failReply: the end of an authentication with an error.
func (p *Program) failReply(ins ssa.Instruction) bool {
	ci, ok := ins.(*ssa.Call)
	if !ok || p.calleeName(ci) != "soju.downstreamConn.endSASL" {
		return false
	}
	a := callArgs(ci)
	return !isNilConst(a[len(a)-1])
}

// storedNil: a change of the kind succeeded.
func (p *Program) storedNil(ops ...string) *Cut {
	var names []string
	for _, o := range ops {
		names = append(names, "database.Database."+o)
	}
	return p.nilErrOf(nil, names...)
}

// checkRecords: records of users and networks in use.
func (p *Program) checkRecords(r *Report) {
	n := map[string]int{}
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		st, ok := ins.(*ssa.Store)
		if !ok || !p.inSoju(fn) || !p.recordStore(st) {
			return
		}
		op := "StoreNetwork"
		if p.recordKind(st) == "User" {
			op = "StoreUser"
		}
		n[p.fnID(fn)]++
		key := fmt.Sprintf("%s#%d", p.fnID(fn), n[p.fnID(fn)])
		chains := p.Unguarded(ins, fixed(p.storedNil("StoreNetwork", "StoreUser")), GuardOpts{MaxDepth: 3})
		msg := ""
		if len(chains) > 0 {
			msg = p.chainString(chains[0])
		}
		r.Check(len(chains) == 0, "record-after-store", key, "%s: the record in use changes although %s has not (yet) succeeded: %s", p.at(ins), op, msg)
	})

	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		call, ok := ins.(*ssa.Call)
		if !ok || !p.inSoju(fn) {
			return
		}
		op := p.dbMutation(call)
		if op != "StoreNetwork" && op != "StoreUser" {
			return
		}
		key := fmt.Sprintf("%s in %s", op, p.fnID(fn))
		rec := call.Call.Args[len(call.Call.Args)-1]
		rv, _ := p.res(rec, nil)
		if fa, ok := rv.(*ssa.FieldAddr); ok {
			// the record of a network or user itself: only of one not in use yet
			base, _ := p.res(fa.X, nil)
			isNew := fresh(base)
			if c, ok := base.(*ssa.Call); ok && (p.calleeName(c) == "soju.newNetwork" || p.calleeName(c) == "soju.newUser") {
				isNew = true
			}
			r.Check(isNew, "record-follows", key+":in use", "%s: the record in use is changed and then stored, so that it stays changed if that fails", p.at(call))
			return
		}
		fields := map[string]bool{}
		if al, ok := rv.(*ssa.Alloc); ok {
			// a local copy: the fields changed in it
			for _, f := range p.changedFields(al) {
				fields[f] = true
			}
		}
		if par, ok := rv.(*ssa.Parameter); ok { // a helper: what its callers changed
			for _, o := range p.origins(par, nil, sliceOpts{Up: true, Stop: func(v ssa.Value, c *Ctx) bool { _, is := v.(*ssa.Alloc); return is }}) {
				if al, ok := o.V.(*ssa.Alloc); ok {
					for _, f := range p.changedFields(al) {
						fields[f] = true
					}
				}
			}
		}
		copyOf := func(v ssa.Value, c *Ctx) bool {
			for i := 0; i < 4; i++ {
				if v == rv {
					return true
				}
				if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && p.cell(u.X) == rv {
					return true
				}
				w, wc := p.res(v, c)
				if w == rv {
					return true
				}
				if u, ok := w.(*ssa.UnOp); ok && w == v {
					w = u.X
				} else if w == v {
					return false
				}
				v, c = w, wc
			}
			return false
		}
		got := map[string]bool{}
		e := p.effectsMay(func(i ssa.Instruction, c *Ctx) bool {
			switch x := i.(type) {
			case *ssa.Store:
				if !p.recordStore(x) {
					return false
				}
				fa := x.Addr.(*ssa.FieldAddr)
				if p.isField(fa.X.Type(), fa.Field, "soju.user", "User") || p.isField(fa.X.Type(), fa.Field, "soju.network", "Network") {
					return copyOf(x.Val, c)
				}
				name := fieldVar(fa.X.Type(), fa.Field).Name()
				got[name] = true
				for f := range fields {
					if !got[f] {
						return false
					}
				}
				return len(fields) > 0
			case *ssa.Call:
				n := p.calleeName(x)
				if n == "soju.newNetwork" || n == "soju.newUser" || n == "soju.Server.addUserLocked" {
					for _, a := range callArgs(x) {
						if copyOf(a, c) {
							return true
						}
					}
				}
			}
			return false
		}, func(i ssa.Instruction, c *Ctx) bool {
			switch x := i.(type) {
			case *ssa.Store:
				return p.recordStore(x)
			case *ssa.Call:
				n := p.calleeName(x)
				return n == "soju.newNetwork" || n == "soju.newUser" || n == "soju.Server.addUserLocked"
			}
			return false
		}, nil)
		facts := p.domFacts(call)
		failed := func(cond ssa.Value, pol bool) bool {
			return p.errIsNonNil(cond, pol, call, fn) || p.contradicts(facts, cond, pol)
		}
		at := p.avoided(call, returnsOf(fn), e, failed)
		r.Check(at == nil, "record-follows", key, "%s: a changed record is stored but %s can end without using it (%s)", p.at(call), p.fnID(fn), p.at(at))
	})
}

// errIsNonNil: cond says that the error of call (possibly merged with others)
// is not nil.
func (p *Program) errIsNonNil(cond ssa.Value, pol bool, call *ssa.Call, fn *ssa.Function) bool {
	return eqFact(cond, pol, token.NEQ, func(a, b ssa.Value) bool {
		if !isNilConst(b) {
			return false
		}
		for _, o := range p.origins(p.lastStored(a), nil, sliceOpts{Stop: func(v ssa.Value, c *Ctx) bool { return p.errOf(v) != nil }}) {
			if p.errOf(o.V) == call {
				return true
			}
		}
		return false
	})
}

// recordKind: "User" or "Network".
func (p *Program) recordKind(st *ssa.Store) string {
	a := st.Addr
	for {
		fa, ok := a.(*ssa.FieldAddr)
		if !ok {
			return ""
		}
		if p.isField(fa.X.Type(), fa.Field, "soju.user", "User") {
			return "User"
		}
		if p.isField(fa.X.Type(), fa.Field, "soju.network", "Network") {
			return "Network"
		}
		a = fa.X
	}
}

// changedFields: top-level fields of a local record that are stored to.
func (p *Program) changedFields(al *ssa.Alloc) []string {
	set := map[string]bool{}
	for _, ref := range *al.Referrers() {
		fa, ok := ref.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		if storedThrough(fa, 0) {
			set[fieldVar(fa.X.Type(), fa.Field).Name()] = true
		}
	}
	var out []string
	for f := range set {
		out = append(out, f)
	}
	sort.Strings(out)
	return out
}

func storedThrough(v ssa.Value, d int) bool {
	if d > 4 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == v {
				return true
			}
		case *ssa.FieldAddr:
			if storedThrough(x, d+1) {
				return true
			}
		}
	}
	return false
}

// liftMust: after ins, the effect happens before the function is done; or the
// function is a helper and it happens after each of its calls.
func (p *Program) liftMust(ins ssa.Instruction, e *effs, skip func(cond ssa.Value, pol bool) bool, d int) ssa.Instruction {
	fn := ins.Parent()
	ends := append(returnsOf(fn), p.loopBacks(ins)...)
	// an iteration of the user's event loop is the end of handling an event
	at := p.avoided(ins, ends, e, skip)
	if at == nil {
		return nil
	}
	if d >= 3 || fn.Parent() != nil || len(p.callers[fn]) == 0 {
		return at
	}
	if _, isRet := at.(*ssa.Return); !isRet {
		return at
	}
	for _, ci := range p.callers[fn] {
		call, ok := ci.(*ssa.Call)
		if !ok {
			return ci
		}
		if at := p.liftMust(call, e, skip, d+1); at != nil {
			return at
		}
	}
	return nil
}

// checkChannels: channels in use.
func (p *Program) checkChannels(r *Report) {
	isChan := func(t types.Type) bool { return p.typeName(t) == "database.Channel" }
	saved := p.effects(func(ins ssa.Instruction, c *Ctx) bool {
		ci, ok := ins.(ssa.CallInstruction)
		return ok && p.dbMutation(ci) == "StoreChannel"
	}, nil)
	n := map[string]int{}
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		if !p.inSoju(fn) {
			return
		}
		switch x := ins.(type) {
		case *ssa.Store:
			// a field of a channel in use, or the whole of it
			var base ssa.Value
			what := ""
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok && isChan(fa.X.Type()) && isPtr(fa.X.Type()) {
				base, what = fa.X, fieldVar(fa.X.Type(), fa.Field).Name()
			} else if isPtr(x.Addr.Type()) && isChan(x.Addr.Type()) {
				base, what = x.Addr, "record"
			} else {
				return
			}
			if !p.channelInUse(base, 0) {
				return
			}
			key := fmt.Sprintf("%s of a channel in %s", what, p.fnID(fn))
			n[key]++
			if n[key] > 1 {
				key = fmt.Sprintf("%s#%d", key, n[key])
			}
			// stored before?
			if _, reach := p.reachInstr(ins, nil, p.storedNil("StoreChannel")); !reach {
				r.Ok("channel-saved", key)
				return
			}
			at := p.liftMust(ins, saved, nil, 0)
			r.Check(at == nil, "channel-saved", key, "%s: the channel in use changes, but the request can be done (%s) without storing it", p.at(ins), p.at(at))
		case *ssa.Call:
			name := p.calleeName(x)
			if !strings.HasSuffix(name, "CaseMappingMap.Set") && !strings.HasSuffix(name, "CaseMappingMap.Del") {
				return
			}
			args := callArgs(x)
			fa, ok := args[0].(*ssa.FieldAddr)
			if !ok || !p.isField(fa.X.Type(), fa.Field, "soju.network", "channels") {
				return
			}
			key := p.fnID(fn)
			if strings.HasSuffix(name, "Del") {
				chains := p.Unguarded(ins, fixed(p.storedNil("DeleteChannel")), GuardOpts{MaxDepth: 3})
				r.Check(len(chains) == 0, "channel-listed", key+":leaves", "%s: a channel leaves its network before its deletion succeeded", p.at(ins))
				return
			}
			if _, reach := p.reachInstr(ins, nil, p.storedNil("StoreChannel")); !reach {
				r.Ok("channel-listed", key+":joins")
				return
			}
			at := p.liftMust(ins, saved, nil, 0)
			r.Check(at == nil, "channel-listed", key+":joins", "%s: a channel joins its network, but the request can be done (%s) without storing it", p.at(ins), p.at(at))
		}
	})
	// a channel that was deleted leaves its network
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		call, ok := ins.(*ssa.Call)
		if !ok || p.dbMutation(call) != "DeleteChannel" || !p.inSoju(fn) {
			return
		}
		e := p.effects(func(i ssa.Instruction, c *Ctx) bool {
			x, ok := i.(*ssa.Call)
			if !ok || !strings.HasSuffix(p.calleeName(x), "CaseMappingMap.Del") {
				return false
			}
			fa, ok := callArgs(x)[0].(*ssa.FieldAddr)
			return ok && p.isField(fa.X.Type(), fa.Field, "soju.network", "channels")
		}, nil)
		at := p.liftMust(call, e, func(cond ssa.Value, pol bool) bool { return p.errIsNonNil(cond, pol, call, fn) }, 0)
		r.Check(at == nil, "channel-listed", p.fnID(fn)+":deleted", "%s: a channel is deleted but can stay in its network (%s)", p.at(call), p.at(at))
	})
}

// channelInUse: the channel may be one of a network (not a local record).
func (p *Program) channelInUse(v ssa.Value, d int) bool {
	for _, o := range p.origins(v, nil, sliceOpts{Up: true, Stop: func(v ssa.Value, c *Ctx) bool { _, is := v.(*ssa.Alloc); return is }}) {
		switch x := o.V.(type) {
		case *ssa.Alloc:
			continue
		case *ssa.Const:
			continue
		case *ssa.Call:
			if strings.HasSuffix(p.calleeName(x), "CaseMappingMap.Get") {
				return true
			}
		case *ssa.IndexAddr:
			continue // an element of a local list of records
		default:
			return true
		}
	}
	return false
}

// checkMembership: lists of networks and users.
func (p *Program) checkMembership(r *Report) {
	loaded := func(ops ...string) *Cut { return p.storedNil(ops...) }
	n := map[string]int{}
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		if !p.inSoju(fn) {
			return
		}
		switch x := ins.(type) {
		case *ssa.Store:
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if !ok || !p.isField(fa.X.Type(), fa.Field, "soju.user", "networks") || fresh(fa.X) {
				return
			}
			n[p.fnID(fn)]++
			key := fmt.Sprintf("networks in %s#%d", p.fnID(fn), n[p.fnID(fn)])
			cut := loaded("StoreNetwork", "DeleteNetwork", "ListNetworks")
			if p.growsList("soju.user", "networks")(ins, nil) {
				cut = loaded("StoreNetwork", "ListNetworks")
			}
			chains := p.Unguarded(ins, fixed(cut), GuardOpts{MaxDepth: 4})
			msg := ""
			if len(chains) > 0 {
				msg = p.chainString(chains[0])
			}
			r.Check(len(chains) == 0, "network-listed", key, "%s: the user's list of networks changes before the database does: %s", p.at(ins), msg)
		case *ssa.MapUpdate:
			if _, _, ok := p.loadOf(x.Map, nil, "soju.Server", "users"); !ok {
				return
			}
			chains := p.Unguarded(ins, fixed(loaded("StoreUser", "ListUsers")), GuardOpts{MaxDepth: 4})
			msg := ""
			if len(chains) > 0 {
				msg = p.chainString(chains[0])
			}
			r.Check(len(chains) == 0, "network-listed", "users in "+p.fnID(fn), "%s: a user joins the server before it was stored: %s", p.at(ins), msg)
		case *ssa.Call:
			op := p.dbMutation(x)
			if op != "DeleteNetwork" && op != "DeleteUser" {
				return
			}
			if op == "DeleteUser" {
				// the user is stopped first: it would go on using its record
				chains := p.Unguarded(ins, fixed(p.nilErrOf(nil, "soju.user.stop")), GuardOpts{MaxDepth: 3})
				r.Check(len(chains) == 0, "network-listed", "DeleteUser in "+p.fnID(fn), "%s: a user is deleted without having been stopped", p.at(ins))
				return
			}
			shrink := p.effects(p.storesField("soju.user", "networks", nil), nil)
			shrink.direct = func(i ssa.Instruction, c *Ctx) bool {
				return p.storesField("soju.user", "networks", nil)(i, c) && !p.growsList("soju.user", "networks")(i, c)
			}
			// removeNetwork panics when it finds nothing to remove
			at := p.liftMust(x, shrink, func(cond ssa.Value, pol bool) bool { return p.errIsNonNil(cond, pol, x, fn) }, 0)
			r.Check(at == nil, "network-listed", "DeleteNetwork in "+p.fnID(fn), "%s: a network is deleted but can stay in use (%s)", p.at(ins), p.at(at))
		}
	})

	// a change that fails to be stored leaves the network running
	stops := func(i ssa.Instruction) bool {
		ci, ok := i.(ssa.CallInstruction)
		if !ok {
			return false
		}
		switch n := p.calleeName(ci); n {
		case "soju.network.stop", "soju.user.handleUpstreamDisconnected", "soju.user.removeNetwork":
			return true
		case "builtin.close":
			_, _, ok := p.loadOf(callArgs(ci)[0], nil, "soju.network", "stopped")
			return ok
		}
		return false
	}
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		if !p.inSoju(fn) || !stops(ins) {
			return
		}
		at := ""
		onwards(ins, func(i ssa.Instruction) {
			if call, ok := i.(*ssa.Call); ok {
				if op := p.dbMutation(call); op == "StoreNetwork" || op == "DeleteNetwork" {
					at = p.at(i)
				}
			}
		})
		r.Check(at == "", "stop-after-store", p.fnID(fn), "%s: a network is stopped before its change is stored (%s): it stays down if that fails", p.at(ins), at)
	})
}

// replacesNetwork: the network made by call takes the place of one in use: the
// function also removes a network.
func (p *Program) replacesNetwork(call *ssa.Call) bool {
	fn := call.Parent()
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			ci, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			if f := ci.Call.StaticCallee(); f != nil && p.inRepo(fnPkg(f)) && p.shrinksNetworks(f, 0) {
				return true
			}
		}
	}
	return false
}

func (p *Program) shrinksNetworks(f *ssa.Function, d int) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if p.storesField("soju.user", "networks", nil)(i, nil) && !p.growsList("soju.user", "networks")(i, nil) {
				return true
			}
		}
	}
	return false
}

func (p *Program) sameNetwork(v ssa.Value, call *ssa.Call) bool {
	w, _ := p.res(call, nil)
	return v == ssa.Value(call) || v == w
}
