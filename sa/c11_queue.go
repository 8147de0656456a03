package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{ID: "C11", Explanation: "The queue of client commands waiting for an upstream reply is a small protocol: the operations on it (append, drop the oldest, take out one, reset) are recognised by what they do to the map of lists; path searches under the assumption of each command and each reply show that the oldest is the one sent, that dropping it sends the next, that every final reply drops it and that an abort answers each.",
		Assumptions: []string{"the upstream server answers commands of one kind in order and ends each with a final reply", "that reads of the map between two updates see the same list (C08)"},
		Run:         runC11})
}

const pendT, pendF = "soju.upstreamConn", "pendingCmds"

// queueKey: v is the list of waiting commands for a key.
func (p *Program) queueKey(v ssa.Value, c *Ctx, d int) (key ssa.Value, kc *Ctx, ok bool) {
	v, c = p.res(v, c)
	if d > 6 {
		return nil, nil, false
	}
	switch x := v.(type) {
	case *ssa.Lookup:
		if _, _, is := p.loadOf(x.X, c, pendT, pendF); is {
			return x.Index, c, true
		}
	case *ssa.Extract:
		if nx, is := x.Tuple.(*ssa.Next); is {
			if rg, is := nx.Iter.(*ssa.Range); is {
				if _, _, is := p.loadOf(rg.X, c, pendT, pendF); is {
					return nil, nil, true
				}
			}
		}
		if lk, is := x.Tuple.(*ssa.Lookup); is && x.Index == 0 {
			if _, _, is := p.loadOf(lk.X, c, pendT, pendF); is {
				return lk.Index, c, true
			}
		}
	case *ssa.Slice:
		return p.queueKey(x.X, c, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e == v {
				continue
			}
			if k, kc, is := p.queueKey(e, c, d+1); is {
				return k, kc, true
			}
		}
	case *ssa.Call:
		n := p.calleeName(x)
		if n == "builtin.append" || strings.HasPrefix(n, "slices.") {
			return p.queueKey(callArgs(x)[0], c, d+1)
		}
	}
	return nil, nil, false
}

func (p *Program) isQueue(v ssa.Value, c *Ctx) bool {
	_, _, ok := p.queueKey(v, c, 0)
	return ok
}

// queueOp: what a map update does to the list of waiting commands.
func (p *Program) queueOp(x *ssa.MapUpdate, c *Ctx) string {
	if _, _, ok := p.loadOf(x.Map, c, pendT, pendF); !ok {
		return ""
	}
	v, vc := p.res(x.Value, c)
	switch y := v.(type) {
	case *ssa.Slice:
		if !p.isQueue(y.X, vc) {
			return "other"
		}
		if y.Low != nil {
			k, ok := constInt(y.Low)
			if ok && k == 1 && y.High == nil {
				return "drop"
			}
			if !(ok && k == 0) {
				return "other"
			}
		}
		if y.High != nil {
			if b, ok := y.High.(*ssa.BinOp); ok && b.Op == token.SUB {
				if k, ok := constInt(b.Y); ok && k == 1 {
					return "trim"
				}
			}
		}
		return "other"
	case *ssa.Call:
		n := p.calleeName(y)
		args := callArgs(y)
		switch {
		case strings.HasPrefix(n, "slices.Delete"):
			i, ok1 := constInt(args[1])
			if ok1 && i == 0 {
				return "drop"
			}
			return "splice"
		case n == "builtin.append" && len(args) == 2:
			sl, ok := args[1].(*ssa.Slice)
			if !ok {
				return "other"
			}
			if _, ok := sl.X.(*ssa.Alloc); ok && p.isQueue(args[0], vc) {
				return "grow"
			}
			if a, ok := args[0].(*ssa.Slice); ok && p.isQueue(a.X, vc) && p.isQueue(sl.X, vc) {
				if k, ok := constInt(sl.Low); ok && k == 1 {
					return "drop"
				}
				return "splice"
			}
		}
	}
	return "other"
}

// headElem: v points to (or is a copy of) the oldest element of a list.
func (p *Program) headElem(v ssa.Value, c *Ctx) bool {
	v, c = p.res(v, c)
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		v, c = p.res(u.X, c)
	}
	switch x := v.(type) {
	case *ssa.IndexAddr:
		k, ok := constInt(x.Index)
		return ok && k == 0 && p.isQueue(x.X, c)
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
				return p.headElem(st.Val, c)
			}
		}
	}
	return false
}

// emptyQueue: cond says that a list of waiting commands is empty.
func (p *Program) emptyQueue(cond ssa.Value, pol bool, c *Ctx) bool {
	a, b, op, ok := cmpFact(cond, pol)
	if !ok {
		return false
	}
	if _, isk := constInt(a); isk {
		a, b = b, a
		op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
	}
	k, isk := constInt(b)
	if !isk || !p.queueLen(a, c) {
		return false
	}
	return op == token.EQL && k == 0 || op == token.LEQ && k == 0 || op == token.LSS && k == 1
}

func (p *Program) queueLen(v ssa.Value, c *Ctx) bool {
	v, c = p.res(v, c)
	call, ok := v.(*ssa.Call)
	return ok && p.calleeName(call) == "builtin.len" && p.isQueue(callArgs(call)[0], c)
}

// sendsHead: the oldest waiting command is sent upstream.
func (p *Program) sendsHead(ins ssa.Instruction, c *Ctx) bool {
	ci, ok := ins.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if _, isGo := ins.(*ssa.Go); isGo {
		return false
	}
	n := p.calleeName(ci)
	if !strings.HasPrefix(n, "soju.upstreamConn.SendMessage") && n != "soju.conn.SendMessage" {
		return false
	}
	for _, a := range callArgs(ci) {
		if b, bc, ok := p.loadOf(a, c, "soju.pendingUpstreamCommand", "msg"); ok && p.headElem(b, bc) {
			return true
		}
	}
	return false
}

// dropsHead: an update that removes the oldest command of the list for key.
func (p *Program) dropsHead(key string, isMsg func(ssa.Value, *Ctx) bool, val string) effect {
	return func(ins ssa.Instruction, c *Ctx) bool {
		x, ok := ins.(*ssa.MapUpdate)
		if !ok {
			return false
		}
		if op := p.queueOp(x, c); op != "drop" && op != "trim" {
			return false
		}
		if key == "" {
			return true
		}
		k, kc := p.res(x.Key, c)
		if s, ok := constString(k); ok {
			return s == key
		}
		return isMsg != nil && val == key && p.isCommand(k, kc, isMsg, 0)
	}
}

func runC11(p *Program, r *Report) {
	r.Rule("accepted", "only commands that the queue supports are queued, and an abort supports them all", 6)
	r.Rule("aborted", "aborting ends every queued command towards its client, with the reply that ends it", 6)
	r.Rule("head-sent", "a command that finds its queue empty is sent at once; the one sent is the oldest, under the id of its client, and the time is recorded", 2)
	r.Rule("next-sent", "whenever the oldest command of a queue is dropped, the next one is sent", 1)
	r.Rule("kept-in-order", "a queue only loses its oldest command, or one that was not sent yet", 1)
	r.Rule("ended", "every final reply of the upstream server drops the oldest command of its queue", 6)
	r.Rule("requester", "replies to a queued command only reach the client that asked", 4)
	r.Rule("no-bypass", "queued kinds of commands are never sent past the queue", 5)
	r.Rule("sasl-ended", "an authentication exchange that is over is reset, for the client and for the upstream connection", 3)

	// the kinds of commands that are queued
	kinds := p.queuedKinds(r)
	ups := p.handlerRoots("upstreamConn")

	// operations on the queue
	pendMsg := func(v ssa.Value, c *Ctx) bool {
		_, _, ok := p.loadOf(v, c, "soju.pendingUpstreamCommand", "msg")
		return ok
	}
	sends := p.effectsMay(p.sendsHead, p.sendsHead, p.emptyQueue)
	n := map[string]int{}
	num := func(k string) string {
		n[k]++
		if n[k] > 1 {
			return fmt.Sprintf("%s#%d", k, n[k])
		}
		return k
	}
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		if !p.inSoju(fn) {
			return
		}
		switch x := ins.(type) {
		case *ssa.MapUpdate:
			op := p.queueOp(x, nil)
			key := num(op + " in " + p.fnID(fn))
			switch op {
			case "grow":
				notFirst := p.notFirst(x)
				at := p.liftMust(ins, p.effectsMay(p.sendsHead, p.sendsHead, func(cond ssa.Value, pol bool, c *Ctx) bool {
					return notFirst(cond, pol, c) || p.emptyQueue(cond, pol, c) // it is not empty now
				}), nil, 0)
				r.Check(at == nil, "head-sent", key, "%s: a command is queued first in its queue but may not be sent (%s)", p.at(ins), p.at(at))
				var el *ssa.Alloc
				if call, ok := mustRes(p, x.Value).(*ssa.Call); ok {
					if sl, ok := callArgs(call)[1].(*ssa.Slice); ok {
						el, _ = sl.X.(*ssa.Alloc)
					}
				}
				p.queuedElem(r, key, x, el)
			case "trim", "drop":
				if op == "trim" {
					// the others moved up before
					moved := p.effects(func(i ssa.Instruction, c *Ctx) bool { return p.movesUp(i, c) }, nil)
					chains := p.Unguarded(ins, fixed(moved.cut()), GuardOpts{MaxDepth: 1})
					r.Check(len(chains) == 0, "kept-in-order", key, "%s: the newest waiting command is dropped instead of the oldest", p.at(ins))
				} else {
					r.Ok("kept-in-order", key)
				}
				at := p.liftMust(ins, sends, nil, 0)
				r.Check(at == nil, "next-sent", key, "%s: the oldest waiting command is dropped but the next one may never be sent (%s)", p.at(ins), p.at(at))
			case "splice":
				ok := p.indexPositive(x)
				r.Check(ok, "kept-in-order", key, "%s: a command can be taken out of its queue although it was sent already: its replies would go to the next one", p.at(ins))
			}
		case *ssa.Call:
			if p.movesUp(ins, nil) {
				trim := p.effects(func(i ssa.Instruction, c *Ctx) bool {
					mu, ok := i.(*ssa.MapUpdate)
					return ok && p.queueOp(mu, c) == "trim"
				}, nil)
				at := p.liftMust(ins, trim, nil, 0)
				r.Check(at == nil, "kept-in-order", num("copy in "+p.fnID(fn)), "%s: waiting commands move up but the queue keeps its length (%s)", p.at(ins), p.at(at))
			}
			if p.sendsHead(ins, nil) {
				key := num("send in " + p.fnID(fn))
				if strings.HasSuffix(p.calleeName(x), "SendMessageLabeled") {
					args := callArgs(x)
					b, bc, ok := p.loadOf(args[2], nil, "soju.pendingUpstreamCommand", "downstreamID")
					r.Check(ok && p.headElem(b, bc), "head-sent", key+":id", "%s: a queued command is not sent under the id of the client that asked", p.at(ins))
				} else {
					r.Bad("head-sent", key+":id", "%s: a queued command is sent without the id of the client that asked", p.at(ins))
				}
				stamp := p.effects(func(i ssa.Instruction, c *Ctx) bool {
					st, ok := i.(*ssa.Store)
					if !ok {
						return false
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok || !p.isField(fa.X.Type(), fa.Field, "soju.pendingUpstreamCommand", "sentAt") {
						return false
					}
					b, bc := p.res(fa.X, c)
					ia, ok := b.(*ssa.IndexAddr)
					return ok && p.isQueue(ia.X, bc)
				}, nil)
				at := p.liftMust(ins, stamp, nil, 0)
				before := p.Unguarded(ins, fixed(stamp.cut()), GuardOpts{MaxDepth: 1})
				r.Check(at == nil || len(before) == 0, "head-sent", key+":time", "%s: the time a queued command was sent is not recorded in the queue: it could never be given up", p.at(ins))
			}
		case *ssa.IndexAddr:
			if !p.isQueue(x.X, nil) {
				return
			}
			if k, ok := constInt(x.Index); ok {
				r.Check(k == 0, "head-sent", num("index in "+p.fnID(fn)), "%s: a waiting command other than the oldest is taken for the current one", p.at(ins))
			} else if b, ok := x.Index.(*ssa.BinOp); ok && b.Op == token.SUB && p.queueLen(b.X, nil) {
				r.Bad("head-sent", num("index in "+p.fnID(fn)), "%s: the newest waiting command is taken for the current one", p.at(ins))
			}
		}
	})

	// aborts
	var aborts []*ssa.Call
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		call, ok := ci.(*ssa.Call)
		if !ok || !p.inSoju(fn) || name != "soju.upstreamConn.downstreamByID" {
			return
		}
		b, bc, ok := p.loadOf(callArgs(ci)[1], nil, "soju.pendingUpstreamCommand", "downstreamID")
		if !ok || p.headElem(b, bc) {
			return
		}
		aborts = append(aborts, call)
	})
	if len(aborts) == 0 {
		r.Bad("aborted", "no abort", "no function answers the commands that are waiting when a connection ends")
	}
	ends := map[string][]string{"LIST": {"323"}, "WHO": {"315"}, "WHOIS": {"318"}, "AUTHENTICATE": {"906", "904"}, "REGISTER": {"FAIL"}, "VERIFY": {"FAIL"}}
	for _, call := range aborts {
		fn := call.Parent()
		isDC := func(v ssa.Value, c *Ctx) bool { w, _ := p.res(v, c); return w == ssa.Value(call) }
		gone := func(cond ssa.Value, pol bool, c *Ctx) bool {
			return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool { return isDC(a, c) && isNilConst(b) })
		}
		for _, k := range kinds {
			assume := p.commandIs(k, pendMsg)
			unknown := func(cond ssa.Value, pol bool, c *Ctx) bool { return p.dependsOnCommand(cond, c) }
			// a panic
			cut := (&Cut{}).assuming(assume, gone, unknown)
			bad := ""
			for _, b := range fn.Blocks {
				if pn, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); ok && p.searchAfter(call, b, len(b.Instrs)-1, cut) {
					bad = p.at(pn)
				}
			}
			r.Check(bad == "", "accepted", k+" in "+p.fnID(fn), "%s: %s can be queued but aborting it panics", bad, k)
			answer := func(ins ssa.Instruction, c *Ctx) bool {
				ci, ok := ins.(*ssa.Call)
				if !ok {
					return false
				}
				name := p.calleeName(ci)
				args := callArgs(ci)
				if k == "AUTHENTICATE" {
					if name != "soju.downstreamConn.endSASL" || !isDC(args[0], c) {
						return false
					}
				} else if name != "soju.downstreamConn.SendMessage" || !isDC(args[0], c) {
					return false
				}
				cmds := p.literalCommands(args[len(args)-1], c)
				for _, cmd := range cmds {
					found := false
					for _, w := range ends[k] {
						found = found || cmd == w
					}
					if !found && ends[k] != nil {
						return false
					}
				}
				return len(cmds) > 0
			}
			e := p.effectsMay(answer, p.calls(nil, "soju.downstreamConn.endSASL", "soju.downstreamConn.SendMessage"), nil)
			at := p.avoidedWith(call, append(returnsOf(fn), p.loopBacks(call)...), e.cut().assuming(assume, gone))
			r.Check(at == nil, "aborted", k+" in "+p.fnID(fn), "%s: an aborted %s is not ended towards its client (%s)", p.at(call), k, p.at(at))
		}
		if b := p.leftEarly(call); b != nil {
			r.Bad("aborted", "each in "+p.fnID(fn), "%s: aborting can stop before the last of the waiting commands", p.at(b.Instrs[len(b.Instrs)-1]))
		} else {
			r.Ok("aborted", "each in "+p.fnID(fn))
		}
		// and the queues are empty afterwards
		reset := p.effects(func(i ssa.Instruction, c *Ctx) bool {
			switch x := i.(type) {
			case *ssa.Store:
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok || !p.isField(fa.X.Type(), fa.Field, pendT, pendF) {
					return false
				}
				_, mk := x.Val.(*ssa.MakeMap)
				return mk
			case *ssa.Call:
				if p.calleeName(x) == "builtin.clear" {
					_, _, ok := p.loadOf(callArgs(x)[0], c, pendT, pendF)
					return ok
				}
			}
			return false
		}, nil)
		r.Check(reset.always(fn, nil), "aborted", "reset in "+p.fnID(fn), "%s: aborted commands stay queued", p.pos(fn.Pos()))
	}

	// final replies
	final := map[string][]string{"LIST": {"323"}, "WHO": {"315"}, "WHOIS": {"318"}, "AUTHENTICATE": {"902", "903", "904", "905", "906"}, "REGISTER": {"REGISTER"}, "VERIFY": {"VERIFY"}}
	for _, root := range ups {
		par := p.isHandler(root, "upstreamConn")
		isMsg := rootMsg(par)
		for _, k := range kinds {
			for _, rep := range final[k] {
				e := p.effectsMay(p.dropsHead(k, isMsg, rep), p.dropsHead("", nil, ""), p.emptyQueue)
				rets := p.nilReturns(root, e.cut().assuming(p.commandIs(rep, isMsg)))
				at := ssa.Instruction(nil)
				if len(rets) > 0 {
					at = rets[0]
				}
				r.Check(at == nil, "ended", fmt.Sprintf("%s by %s", k, rep), "the reply %s ends %s, but it can stay queued (%s): the queue stalls", rep, k, p.at(at))
			}
		}
		// errors naming the command
		for _, rep := range []string{"421", "461", "400", "263", "FAIL"} {
			named := func(ins ssa.Instruction, c *Ctx) bool {
				x, ok := ins.(*ssa.MapUpdate)
				if !ok {
					return false
				}
				if op := p.queueOp(x, c); op != "drop" && op != "trim" {
					return false
				}
				k, _ := p.res(x.Key, c)
				_, isConst := constString(k)
				return !isConst
			}
			e := p.effectsMay(named, p.dropsHead("", nil, ""), p.emptyQueue)
			rets := p.nilReturns(root, e.cut().assuming(p.commandIs(rep, isMsg)))
			at := ssa.Instruction(nil)
			if len(rets) > 0 {
				at = rets[0]
			}
			r.Check(at == nil, "ended", "errors by "+rep, "the error %s ends the command it names, but that can stay queued (%s)", rep, p.at(at))
		}
		// who receives them
		for _, rep := range []string{"321", "322", "323", "352", "354", "315", "311", "312", "313", "317", "318", "319", "330"} {
			hit := p.broadcasts(root, p.commandIs(rep, isMsg))
			r.Check(hit == "", "requester", rep, "%s: the reply %s to one client's query can reach its other clients", hit, rep)
		}
		// SASL state of the connection
		for _, rep := range final["AUTHENTICATE"] {
			e := p.effects(p.storesField("soju.upstreamConn", "saslClient", func(st *ssa.Store, fa *ssa.FieldAddr, c *Ctx) bool { return isNilConst(st.Val) }), nil)
			rets := p.nilReturns(root, e.cut().assuming(p.commandIs(rep, isMsg)))
			at := ssa.Instruction(nil)
			if len(rets) > 0 {
				at = rets[0]
			}
			r.Check(at == nil, "sasl-ended", "upstream by "+rep, "the reply %s ends the authentication with the upstream server, but the exchange can stay open (%s)", rep, p.at(at))
		}
		for _, rep := range append([]string{"421", "461", "263"}, final["AUTHENTICATE"]...) {
			p.saslReset(r, root, rep, p.commandIs(rep, isMsg))
		}
	}
	if len(ups) == 0 {
		r.Bad("ended", "no handler", "no function handles the messages of upstream servers")
	}

	// past the queue
	for _, root := range p.handlerRoots("downstreamConn") {
		par := p.isHandler(root, "downstreamConn")
		for _, k := range kinds {
			hit := p.sendsRaw(root, p.commandIs(k, rootMsg(par)), par)
			r.Check(hit == "", "no-bypass", k, "%s: a %s of a client is sent upstream past the queue", hit, k)
		}
	}
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if !strings.HasPrefix(name, "soju.upstreamConn.SendMessage") || !p.inSoju(fn) {
			return
		}
		args := callArgs(ci)
		for _, cmd := range p.literalCommands(args[len(args)-1], nil) {
			for _, k := range kinds {
				if cmd == k && k != "AUTHENTICATE" {
					r.Bad("no-bypass", k+" in "+p.fnID(fn), "%s: a %s is sent upstream past the queue", p.at(ci), k)
				}
			}
		}
	})

	// exchanges that are over
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		call, ok := ci.(*ssa.Call)
		if !ok || name != "soju.downstreamConn.handleAuthenticate" {
			return
		}
		over := func(ins ssa.Instruction, c *Ctx) bool {
			if p.storesField("soju.downstreamConn", "sasl", func(st *ssa.Store, fa *ssa.FieldAddr, c *Ctx) bool { return isNilConst(st.Val) })(ins, c) {
				return true
			}
			if x, ok := ins.(*ssa.MapUpdate); ok && p.queueOp(x, c) == "grow" {
				return true
			}
			return false
		}
		notOver := func(cond ssa.Value, pol bool, c *Ctx) bool {
			return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool { // credentials == nil
				ex, ok := mustRes2(p, a, c).(*ssa.Extract)
				return ok && ex.Tuple == ssa.Value(call) && ex.Index == 0 && isNilConst(b)
			}) || eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool { // dc.sasl == nil
				_, _, ok := p.loadOf(a, c, "soju.downstreamConn", "sasl")
				return ok && isNilConst(b)
			}) || p.errIsNonNil(cond, pol, call, fn)
		}
		e := p.effectsMay(over, over, notOver)
		at := p.avoidedWith(call, returnsOf(fn), e.cut())
		r.Check(at == nil, "sasl-ended", "client in "+p.fnID(fn), "%s: a completed authentication exchange of a client can stay open (%s): its next AUTHENTICATE would be taken for more of it", p.at(call), p.at(at))
	})
}

func mustRes2(p *Program, v ssa.Value, c *Ctx) ssa.Value { w, _ := p.res(v, c); return w }

// avoidedWith: a place among ends reachable from after start without passing cut.
func (p *Program) avoidedWith(start ssa.Instruction, ends []ssa.Instruction, cut *Cut) ssa.Instruction {
	stop := map[ssa.Instruction]bool{}
	for _, end := range ends {
		stop[end] = true
	}
	n := *cut
	instr := n.Instr
	n.Instr = func(i ssa.Instruction, c *Ctx) bool { return stop[i] || instr != nil && instr(i, c) }
	for _, end := range ends {
		if p.searchAfter(start, end.Block(), indexOf(end), &n) {
			return end
		}
	}
	return nil
}

// movesUp: copy(q, q[1:]) on a list of waiting commands.
func (p *Program) movesUp(ins ssa.Instruction, c *Ctx) bool {
	x, ok := ins.(*ssa.Call)
	if !ok || p.calleeName(x) != "builtin.copy" {
		return false
	}
	a := callArgs(x)
	sl, ok := a[1].(*ssa.Slice)
	if !ok || !p.isQueue(a[0], c) || !p.isQueue(sl.X, c) {
		return false
	}
	if d, ok := a[0].(*ssa.Slice); ok && d.Low != nil {
		return false
	}
	k, ok := constInt(sl.Low)
	return ok && k == 1
}

// notFirst: the command was not the first of its queue, relative to the update
// that queued it.
func (p *Program) notFirst(up *ssa.MapUpdate) func(cond ssa.Value, pol bool, c *Ctx) bool {
	return func(cond ssa.Value, pol bool, c *Ctx) bool {
		a, b, op, ok := cmpFact(cond, pol)
		if !ok {
			return false
		}
		if _, isk := constInt(a); isk {
			a, b = b, a
			op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
		}
		k, isk := constInt(b)
		if !isk {
			return false
		}
		v, vc := p.res(a, c)
		call, ok := v.(*ssa.Call)
		if !ok || p.calleeName(call) != "builtin.len" {
			return false
		}
		arg, ac := p.res(callArgs(call)[0], vc)
		if !p.isQueue(arg, ac) {
			return false
		}
		after := int64(0) // how long the list is when the command is the first
		if ci, ok := arg.(*ssa.Call); ok && p.calleeName(ci) == "builtin.append" {
			after = 1
		} else if lk, ok := arg.(ssa.Instruction); ok {
			if lk.Parent() != up.Parent() || !before(lk, up) {
				after = 1
			}
		}
		return op == token.NEQ && k == after || op == token.GTR && k == after || op == token.GEQ && k == after+1
	}
}

// before: a comes before b on every path to b.
func before(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return indexOf(a) < indexOf(b)
	}
	return a.Block().Dominates(b.Block())
}

// queuedElem: the queued element holds the message and the id of its client.
func (p *Program) queuedElem(r *Report, key string, up *ssa.MapUpdate, el *ssa.Alloc) {
	if el == nil {
		return
	}
	fields := map[string]ssa.Value{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.FieldAddr:
				for _, rr := range *x.Referrers() {
					if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
						fields[fieldVar(x.X.Type(), x.Field).Name()] = st.Val
					}
				}
			case *ssa.IndexAddr:
				walk(x)
			case *ssa.Store:
				if u, ok := x.Val.(*ssa.UnOp); ok && x.Addr == v {
					if al := p.cell(u.X); al != nil {
						walk(al)
					}
				}
			}
		}
	}
	walk(el)
	if len(fields) == 0 {
		return
	}
	_, _, ok := p.loadOf(fields["downstreamID"], nil, "soju.downstreamConn", "id")
	if fields["downstreamID"] == nil {
		ok = false
	}
	r.Check(ok, "head-sent", key+":element", "%s: a command is queued without the id of the client that asked", p.at(up))
	// under its own kind
	base, _, isCmd := p.loadOf(up.Key, nil, ircMessage, "Command")
	if isCmd {
		w, _ := p.res(base, nil)
		m, _ := p.res(fields["msg"], nil)
		r.Check(w == m, "head-sent", key+":kind", "%s: a command is queued under the name of another", p.at(up))
	}
}

// indexPositive: the element taken out is not the oldest: i >= 1 holds.
func (p *Program) indexPositive(x *ssa.MapUpdate) bool {
	call, ok := mustRes(p, x.Value).(*ssa.Call)
	if !ok {
		return true
	}
	var idx ssa.Value
	args := callArgs(call)
	if strings.HasPrefix(p.calleeName(call), "slices.") {
		idx = args[1]
	} else if sl, ok := args[0].(*ssa.Slice); ok {
		idx = sl.High
	}
	if idx == nil {
		return false
	}
	if k, ok := constInt(idx); ok {
		return k >= 1
	}
	pos := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
		a, b, op, ok := cmpFact(cond, pol)
		if !ok {
			return false
		}
		if _, isk := constInt(a); isk {
			a, b = b, a
			op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
		}
		k, isk := constInt(b)
		if !isk || a != idx {
			return false
		}
		return op == token.GEQ && k >= 1 || op == token.GTR && k >= 0 || op == token.NEQ && k == 0 || op == token.EQL && k >= 1
	}}
	if _, reach := p.reachInstr(x, nil, pos); !reach {
		return true
	}
	// an index that starts at 1 and only grows
	if b, ok := idx.(*ssa.BinOp); ok && b.Op == token.ADD { // a range over q[1:]
		if k, ok := constInt(b.Y); ok && k >= 1 && nonNegative(b.X) {
			return true
		}
	}
	if ph, ok := idx.(*ssa.Phi); ok {
		good := true
		for _, e := range ph.Edges {
			if k, ok := constInt(e); ok {
				good = good && k >= 1
			} else if b, ok := e.(*ssa.BinOp); !(ok && b.Op == token.ADD && b.X == ssa.Value(ph)) {
				good = false
			}
		}
		return good
	}
	return false
}

// nonNegative: a range index.
func nonNegative(v ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.ADD {
		return false
	}
	ph, ok := b.X.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, e := range ph.Edges {
		if k, ok := constInt(e); ok && k < -1 {
			return false
		} else if !ok && e != v {
			return false
		}
	}
	return true
}

// queuedKinds: the commands that can be queued, checked against what the queue
// accepts.
func (p *Program) queuedKinds(r *Report) []string {
	kinds := map[string]bool{}
	// where messages enter the queue
	var entry *ssa.Function
	var msgPar *ssa.Parameter
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		x, ok := ins.(*ssa.MapUpdate)
		if !ok || !p.inSoju(fn) || p.queueOp(x, nil) != "grow" {
			return
		}
		entry = fn
		for _, q := range fn.Params {
			if p.typeName(q.Type()) == ircMessage {
				msgPar = q
			}
		}
	})
	if entry == nil || msgPar == nil {
		r.Bad("accepted", "no queue", "no function queues commands of clients")
		return nil
	}
	pi := -1
	for i, q := range entry.Params {
		if q == msgPar {
			pi = i
		}
	}
	names := p.comparedCommands()
	roots := p.handlerRoots("downstreamConn")
	for i, ci := range p.callers[entry] {
		if pi >= len(callArgs(ci)) {
			continue
		}
		arg := callArgs(ci)[pi]
		if lits := p.literalCommands(arg, nil); len(lits) > 0 {
			for _, l := range lits {
				kinds[l] = true
			}
			continue
		}
		// the message of the client: which commands lead here?
		any := false
		for _, root := range roots {
			par := p.isHandler(root, "downstreamConn")
			for _, nm := range append(names, "\x00any other command") {
				if p.reachesUnder(root, ci, p.commandIs(nm, rootMsg(par))) {
					kinds[nm] = true
					any = true
				}
			}
		}
		r.Check(any, "accepted", fmt.Sprintf("call in %s#%d", p.fnID(ci.Parent()), i), "%s: a command is queued that no client command leads to", p.at(ci))
	}
	var out []string
	for k := range kinds {
		out = append(out, k)
	}
	sort.Strings(out)
	for _, k := range out {
		unknown := func(cond ssa.Value, pol bool, c *Ctx) bool { return p.dependsOnCommand(cond, c) }
		cut := (&Cut{}).assuming(p.commandIs(k, rootMsg(msgPar)), unknown)
		bad := ""
		for _, b := range entry.Blocks {
			if pn, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); ok {
				if _, reach := p.reachInstr(pn, nil, cut); reach {
					bad = p.at(pn)
				}
			}
		}
		r.Check(bad == "", "accepted", k, "%s: queueing %q panics", bad, k)
	}
	return out
}

// comparedCommands: every constant some command is compared with.
func (p *Program) comparedCommands() []string {
	set := map[string]bool{}
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		b, ok := ins.(*ssa.BinOp)
		if !ok || !p.inSoju(fn) {
			return
		}
		for _, pair := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			k, isk := constString(pair[1])
			if !isk {
				continue
			}
			if _, _, is := p.loadOf(pair[0], nil, ircMessage, "Command"); is {
				set[k] = true
			}
		}
	})
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// literalCommands: the commands of a message built here.
func (p *Program) literalCommands(v ssa.Value, c *Ctx) (out []string) {
	for _, o := range p.origins(v, c, sliceOpts{Stop: func(v ssa.Value, c *Ctx) bool { _, is := v.(*ssa.Alloc); return is }}) {
		al, ok := o.V.(*ssa.Alloc)
		if !ok || p.typeName(al.Type()) != ircMessage {
			return nil
		}
		for _, ref := range *al.Referrers() {
			fa, ok := ref.(*ssa.FieldAddr)
			if !ok || fieldVar(fa.X.Type(), fa.Field).Name() != "Command" {
				continue
			}
			for _, rr := range *fa.Referrers() {
				if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
					for _, k := range p.origins(st.Val, o.Ctx, sliceOpts{}) {
						s, ok := constString(k.V)
						if !ok {
							return nil
						}
						out = append(out, s)
					}
				}
			}
		}
	}
	return
}

// under walks the calls reachable in root (and the handlers it passes its
// message to) under an assumption.
func (p *Program) under(root *ssa.Function, assume func(cond ssa.Value, pol bool, c *Ctx) bool, visit func(ci ssa.CallInstruction, c *Ctx) bool) {
	var walk func(fn *ssa.Function, c *Ctx, d int)
	walk = func(fn *ssa.Function, c *Ctx, d int) {
		reach := p.reachableBlocks(fn, c, (&Cut{}).assuming(assume))
		for _, b := range fn.Blocks {
			if !reach[b] {
				continue
			}
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if !visit(ci, c) || d > 6 {
					continue
				}
				for _, g := range p.callees[ci] {
					if g.Blocks == nil || !p.inSoju(g) {
						continue
					}
					if g.Parent() != nil { // a closure called here
						continue
					}
					walk(g, mkCtx(Ctx{call: ci, up: c}), d+1)
				}
				for _, a := range ci.Common().Args {
					mc, ok := a.(*ssa.MakeClosure)
					if !ok {
						continue
					}
					if g, ok := mc.Fn.(*ssa.Function); ok {
						walk(g, mkCtx(Ctx{mc: mc, up: c}), d+1)
					}
				}
			}
		}
	}
	walk(root, nil, 0)
}

// reachableBlocks: the blocks of fn that can run under a cut of branches.
func (p *Program) reachableBlocks(fn *ssa.Function, c *Ctx, cut *Cut) map[*ssa.BasicBlock]bool {
	seen := map[*ssa.BasicBlock]bool{fn.Blocks[0]: true}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		for _, s := range b.Succs {
			if seen[s] {
				continue
			}
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b.Succs[0] != b.Succs[1] {
				if p.edgeCut(b, s, c, cut, 0) {
					_ = iff
					continue
				}
			}
			seen[s] = true
			work = append(work, s)
		}
	}
	return seen
}

func (p *Program) reachesUnder(root *ssa.Function, want ssa.CallInstruction, assume func(cond ssa.Value, pol bool, c *Ctx) bool) bool {
	found := false
	p.under(root, assume, func(ci ssa.CallInstruction, c *Ctx) bool {
		if ci == want {
			found = true
		}
		if found {
			return false
		}
		// only into the handlers
		for _, a := range callArgs(ci) {
			if p.typeName(a.Type()) == ircMessage {
				return true
			}
		}
		return false
	})
	return found
}

// broadcasts: under the assumption, a message may go to every client.
func (p *Program) broadcasts(root *ssa.Function, assume func(cond ssa.Value, pol bool, c *Ctx) bool) string {
	hit := ""
	p.under(root, assume, func(ci ssa.CallInstruction, c *Ctx) bool {
		if hit != "" {
			return false
		}
		for _, g := range p.callees[ci] {
			if p.inSoju(g) && p.rangesClients(g) {
				hit = p.at(ci)
				return false
			}
		}
		return true
	})
	return hit
}

// rangesClients: goes over the sessions of a user, not looking for one by id.
func (p *Program) rangesClients(g *ssa.Function) bool {
	for _, q := range g.Params {
		if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint64 {
			return false
		}
	}
	for _, b := range g.Blocks {
		for _, i := range b.Instrs {
			if fa, ok := i.(*ssa.FieldAddr); ok && p.isField(fa.X.Type(), fa.Field, "soju.user", "downstreamConns") {
				return true
			}
		}
	}
	return false
}

// sendsRaw: the message itself is sent upstream.
func (p *Program) sendsRaw(root *ssa.Function, assume func(cond ssa.Value, pol bool, c *Ctx) bool, par *ssa.Parameter) string {
	hit := ""
	p.under(root, assume, func(ci ssa.CallInstruction, c *Ctx) bool {
		if hit != "" {
			return false
		}
		if strings.HasPrefix(p.calleeName(ci), "soju.upstreamConn.SendMessage") {
			args := callArgs(ci)
			m, _ := p.res(args[len(args)-1], c)
			if m == ssa.Value(par) {
				hit = p.at(ci)
			}
			return false
		}
		for _, a := range callArgs(ci) {
			if m, _ := p.res(a, c); m == ssa.Value(par) {
				return true
			}
		}
		return false
	})
	return hit
}

// saslReset: when the reply drops a waiting AUTHENTICATE, the exchange of the
// client and that of the connection are over.
func (p *Program) saslReset(r *Report, root *ssa.Function, rep string, assume func(cond ssa.Value, pol bool, c *Ctx) bool) {
	p.under(root, assume, func(ci ssa.CallInstruction, c *Ctx) bool {
		call, ok := ci.(*ssa.Call)
		if !ok {
			return false
		}
		g := call.Call.StaticCallee()
		if g == nil || !p.inSoju(g) {
			return false
		}
		par := p.dropParam(g)
		if par < 0 {
			return p.isHandler(g, "upstreamConn") != nil
		}
		key, kc := p.res(callArgs(call)[par], c)
		var cell *ssa.Alloc
		if s, ok := constString(key); ok {
			if s != "AUTHENTICATE" {
				return false
			}
		} else if u, ok := key.(*ssa.UnOp); ok {
			cell = p.cell(u.X)
		}
		_ = kc
		isAuth := func(cond ssa.Value, pol bool, c *Ctx) bool {
			if cell == nil {
				return false
			}
			a, b, op, ok := cmpFact(cond, pol)
			if !ok || op != token.EQL && op != token.NEQ {
				return false
			}
			if _, isk := constString(a); isk {
				a, b = b, a
			}
			k, isk := constString(b)
			u, isLoad := a.(*ssa.UnOp)
			if !isk || !isLoad || p.cell(u.X) != cell {
				return false
			}
			return (op == token.EQL) != (k == "AUTHENTICATE")
		}
		noClient := func(cond ssa.Value, pol bool, c *Ctx) bool {
			return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
				if !isNilConst(b) {
					return false
				}
				if _, _, ok := p.loadOf(a, c, "soju.downstreamConn", "sasl"); ok {
					return true
				}
				return p.typeName(a.Type()) == "soju.downstreamConn"
			})
		}
		fn := call.Parent()
		client := p.effects(p.storesField("soju.downstreamConn", "sasl", func(st *ssa.Store, fa *ssa.FieldAddr, c *Ctx) bool { return isNilConst(st.Val) }), noClient)
		at := p.avoidedWith(call, returnsOf(fn), client.cut().assuming(assume, isAuth))
		r.Check(at == nil, "sasl-ended", "client by "+rep, "%s: the reply %s ends an authentication, but the exchange with the client can stay open (%s)", p.at(call), rep, p.at(at))
		if cell != nil {
			e := p.effects(p.storesField("soju.upstreamConn", "saslClient", func(st *ssa.Store, fa *ssa.FieldAddr, c *Ctx) bool { return isNilConst(st.Val) }), nil)
			at := p.avoidedWith(call, returnsOf(fn), e.cut().assuming(assume, isAuth))
			r.Check(at == nil, "sasl-ended", "upstream by "+rep, "%s: the reply %s ends the authentication with the upstream server, but the exchange can stay open (%s)", p.at(call), rep, p.at(at))
		}
		return false
	})
}

// dropParam: the parameter of g naming the queue whose oldest command it drops.
func (p *Program) dropParam(g *ssa.Function) int {
	for _, b := range g.Blocks {
		for _, i := range b.Instrs {
			mu, ok := i.(*ssa.MapUpdate)
			if !ok || !p.dropsHead("", nil, "")(mu, nil) {
				continue
			}
			for j, q := range g.Params {
				if mu.Key == ssa.Value(q) {
					return j
				}
			}
		}
	}
	return -1
}
