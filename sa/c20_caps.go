package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{ID: "C20", Explanation: "Path searches to every place that hands a message to a connection, under the assumption of each command or tag and of each capability being off; guard analysis of every change of the capabilities, and must-effect analysis of their refresh.",
		Assumptions: []string{"irc.Message.Copy copies the message including its tags", "a client that did not enable a capability does not expect what it covers"},
		Run:         runC20})
}

// gatedCommands: commands a client only understands with a capability.
var gatedCommands = map[string]string{
	"TAGMSG": "message-tags", "SETNAME": "setname", "CHGHOST": "chghost", "AWAY": "away-notify",
	"ACCOUNT": "account-notify", "MARKREAD": "draft/read-marker", "READ": "soju.im/read",
}

// gatedTags: tags a client also gets without message-tags.
var gatedTags = map[string]string{"other": "message-tags", "time": "server-time", "account": "account-tag", "batch": "batch", "msgid": "message-tags"}

func anyMsg(v ssa.Value, c *Ctx) bool { return true }

// mapConst: the constant a package-level table has for a key.
func (p *Program) mapConst(m ssa.Value, key string) (val string, in, ok bool) {
	u, isU := mustRes(p, m).(*ssa.UnOp)
	if !isU {
		return "", false, false
	}
	g, isG := u.X.(*ssa.Global)
	if !isG {
		return "", false, false
	}
	vals := p.globalStores(g)
	if len(vals) != 1 || vals[0] == nil {
		return "", false, false
	}
	for _, ref := range *vals[0].Referrers() {
		mu, isMU := ref.(*ssa.MapUpdate)
		if !isMU {
			continue
		}
		k, isk := constString(mu.Key)
		if !isk {
			return "", false, false
		}
		if k == key {
			v, isv := constString(mu.Value)
			return v, true, isv
		}
	}
	return "", false, true
}

// capScenario assumes that the command (and, if it is not empty, the tag) is
// the given one and that the connection has the capabilities off.
func (p *Program) capScenario(conn, cmd string, isKey func(v ssa.Value) bool, tag string, off ...string) func(cond ssa.Value, pol bool, c *Ctx) bool {
	isOff := func(name string) bool {
		for _, o := range off {
			if o == name {
				return true
			}
		}
		return false
	}
	byCmd := p.commandIs(cmd, anyMsg)
	return func(cond ssa.Value, pol bool, c *Ctx) bool {
		if cmd != "" && byCmd(cond, pol, c) {
			return true
		}
		if tag != "" {
			if a, b, op, ok := cmpFact(cond, pol); ok && (op == token.EQL || op == token.NEQ) {
				k, isk := constString(b)
				if !isk {
					a, b = b, a
					k, isk = constString(b)
				}
				if isk && isKey(mustResC(p, a, c)) && (op == token.EQL) != (k == tag) {
					return true
				}
			}
		}
		subject := func(v ssa.Value, wc *Ctx) (string, bool) {
			switch {
			case cmd != "" && p.isCommand(v, wc, anyMsg, 0):
				return cmd, true
			case tag != "" && isKey(mustResC(p, v, wc)):
				return tag, true
			}
			return "", false
		}
		w, wc := p.res(cond, c)
		// a table of capabilities
		if ex, ok := w.(*ssa.Extract); ok && ex.Index == 1 {
			if lk, ok := ex.Tuple.(*ssa.Lookup); ok {
				if s, ok := subject(lk.Index, wc); ok {
					if _, in, known := p.mapConst(lk.X, s); known && in != pol {
						return true
					}
				}
			}
		}
		call, ok := w.(*ssa.Call)
		if !ok || !pol || !strings.HasSuffix(p.calleeName(call), "CapRegistry.IsEnabled") {
			return false
		}
		args := callArgs(call)
		recv, rc := p.res(args[0], wc)
		if fa, ok := recv.(*ssa.FieldAddr); ok {
			if !p.isField(fa.X.Type(), fa.Field, conn, "caps") {
				return false
			}
		} else if _, _, is := p.loadOf(recv, rc, conn, "caps"); !is {
			return false
		}
		nv, nc := p.res(args[1], wc)
		if name, isk := constString(nv); isk {
			return isOff(name)
		}
		if ph, ok := nv.(*ssa.Phi); ok && cmd != "" {
			// chosen by the command
			return p.phiEst(ph, nc, (&Cut{Local: true}).assuming(byCmd), 0, func(e ssa.Value) tri {
				if name, isk := constString(e); isk && isOff(name) {
					return no
				}
				return maybe
			}, func(ssa.Value) bool { return false })
		}
		if ex, ok := nv.(*ssa.Extract); ok && ex.Index == 0 {
			nv = ex.Tuple
		}
		if lk, ok := nv.(*ssa.Lookup); ok {
			if s, ok := subject(lk.Index, nc); ok {
				if name, in, known := p.mapConst(lk.X, s); known && in {
					return isOff(name)
				}
			}
		}
		return false
	}
}

// sendSites: the calls that hand a message to the connection of a client or
// upstream server.
func (p *Program) sendSites(conn string) (out []*ssa.Call) {
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		call, ok := ci.(*ssa.Call)
		if !ok || name != "soju.conn.SendMessage" {
			return
		}
		recv := mustRes(p, callArgs(ci)[0])
		if fa, ok := recv.(*ssa.FieldAddr); ok && p.isField(fa.X.Type(), fa.Field, conn, "conn") {
			out = append(out, call)
		} else if _, _, is := p.loadOf(recv, nil, conn, "conn"); is {
			out = append(out, call)
		}
	})
	return
}

// literalCommand of a message built in place.
func (p *Program) literalCommand(v ssa.Value) (string, bool) {
	al, ok := mustRes(p, v).(*ssa.Alloc)
	if !ok {
		return "", false
	}
	for _, ref := range *al.Referrers() {
		if fa, ok := ref.(*ssa.FieldAddr); ok && p.isField(fa.X.Type(), fa.Field, ircMessage, "Command") {
			for _, rr := range *fa.Referrers() {
				if st, ok := rr.(*ssa.Store); ok {
					return constString(st.Val)
				}
			}
		}
	}
	return "", false
}

func (p *Program) literalField(al ssa.Value, field string) ssa.Value {
	if al.Referrers() == nil {
		return nil
	}
	for _, ref := range *al.Referrers() {
		if fa, ok := ref.(*ssa.FieldAddr); ok && p.isField(fa.X.Type(), fa.Field, ircMessage, field) {
			for _, rr := range *fa.Referrers() {
				if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
					return st.Val
				}
			}
		}
	}
	return nil
}

func runC20(p *Program, r *Report) {
	const dcT, ucT = "soju.downstreamConn", "soju.upstreamConn"
	r.Rule("commands", "a message a client did not ask for with a capability is not sent to it", 7)
	r.Rule("tags", "a client only gets the message tags it has negotiated", 4)
	r.Rule("join", "the extra parameters of JOIN are only sent to clients that asked for them", 1)
	r.Rule("shared", "trimming a message for one client does not change what others get", 2)
	r.Rule("request", "only offered capabilities are enabled, all that were requested or none", 2)
	r.Rule("offered", "a capability that depends on the upstream servers is only offered while all of them have it", 2)
	r.Rule("refresh", "clients learn when the capabilities of an upstream server change", 2)
	r.Rule("notify", "notifications are only sent to clients that asked for them", 3)
	r.Rule("upstream-tags", "tags are only sent to servers that take them", 1)
	r.Rule("upstream-enable", "a capability of a server is only relied on after it acknowledged it", 1)
	r.Rule("upstream-request", "only capabilities a server offers are requested", 2)
	r.Rule("upstream-list", "a list of capabilities in several lines is read to its end before registration goes on", 1)

	// what is sent to clients
	for i, call := range p.sendSites(dcT) {
		key := p.fnID(call.Parent())
		if i > 0 {
			key += "#" + itoa(i)
		}
		msg := callArgs(call)[2]
		if k, ok := p.literalCommand(msg); ok && gatedCommands[k] == "" && k != "BATCH" && k != "JOIN" && p.literalField(mustRes(p, msg), "Tags") == nil {
			r.Ok("commands", key+":"+k)
			continue
		}
		for cmd, cp := range gatedCommands {
			cut := (&Cut{}).assuming(p.capScenario(dcT, cmd, nil, "", cp))
			_, open := p.reachInstr(call, nil, cut)
			r.Check(!open, "commands", key+":"+cmd, "%s: %s is sent to clients that have not enabled %s", p.at(call), cmd, cp)
		}
		// JOIN
		trim := &Cut{Instr: func(ins ssa.Instruction, c *Ctx) bool {
			st, ok := ins.(*ssa.Store)
			if !ok {
				return false
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !p.isField(fa.X.Type(), fa.Field, ircMessage, "Params") {
				return false
			}
			if sl, ok := mustResC(p, st.Val, c).(*ssa.Slice); ok {
				if sl.High != nil {
					if k, isk := constInt(sl.High); isk && k == 1 {
						return true
					}
				}
				els, ok := p.elems(sl, c)
				return ok && len(els) == 1
			}
			return false
		}}
		_, open := p.reachInstr(call, nil, trim.assuming(p.capScenario(dcT, "JOIN", nil, "", "extended-join")))
		r.Check(!open, "join", key, "%s: JOIN is sent with the account and real name to clients that have not enabled extended-join", p.at(call))
		p.checkTags(r, call, key, dcT)
		p.checkShared(r, call, key)
	}
	if len(p.sendSites(dcT)) == 0 {
		r.Bad("commands", "none", "no place sends messages to clients")
	}
	p.checkCapRequests(r, dcT)
	p.checkOffered(r)
	p.checkCapNotify(r, dcT)
	p.checkUpstreamCaps(r, ucT)
}

// checkTags: without the capability a tag is removed.
func (p *Program) checkTags(r *Report, send *ssa.Call, key, conn string) {
	// loops over the tags of a message
	type loop struct {
		next *ssa.Next
		rng  *ssa.Range
	}
	var loops []loop
	p.within(topFn(send.Parent()), func(g *ssa.Function, ins ssa.Instruction) {
		if nx, ok := ins.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok && strings.HasSuffix(p.typeName(rg.X.Type()), "irc.v4.Tags") {
				loops = append(loops, loop{nx, rg})
			}
		}
	})
	var tags []string
	for t := range gatedTags {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	// the other tags it treats in some way of their own
	more := map[string]bool{}
	for _, l := range loops {
		for _, b := range l.next.Parent().Blocks {
			for _, ins := range b.Instrs {
				bo, ok := ins.(*ssa.BinOp)
				if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
					continue
				}
				for _, xy := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
					ex, ok := mustRes(p, xy[0]).(*ssa.Extract)
					if k, isk := constString(xy[1]); isk && ok && ex.Tuple == ssa.Value(l.next) && ex.Index == 1 && gatedTags[k] == "" {
						more[k] = true
					}
				}
			}
		}
	}
	for k := range more {
		tags = append(tags, k)
	}
	sort.Strings(tags)
	for _, tag := range tags {
		cp, listed := gatedTags[tag]
		off := []string{"message-tags", cp}
		if !listed {
			// never without message-tags
			cp = "anything else"
		}
		// places that remove the tag for sure
		removes := func(l loop) bool {
			isKey := func(v ssa.Value) bool {
				ex, ok := v.(*ssa.Extract)
				return ok && ex.Tuple == ssa.Value(l.next) && ex.Index == 1
			}
			cut := &Cut{Instr: func(ins ssa.Instruction, c *Ctx) bool {
				call, ok := ins.(*ssa.Call)
				if !ok {
					return false
				}
				b, ok := call.Call.Value.(*ssa.Builtin)
				return ok && b.Name() == "delete" && strings.HasSuffix(p.typeName(call.Call.Args[0].Type()), "irc.v4.Tags") && isKey(mustResC(p, call.Call.Args[1], c))
			}}
			// a map built from the supported tags only
			kept := false
			fn := l.next.Parent()
			cc := (&Cut{}).assuming(p.capScenario(conn, "", isKey, tag, off...))
			built := false
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if mu, ok := ins.(*ssa.MapUpdate); ok && isKey(mustRes(p, mu.Key)) {
						built = true
						if p.searchAfter(l.next, mu.Block(), indexOf(mu), cc) {
							kept = true
						}
					}
				}
			}
			if built {
				return !kept
			}
			// the iteration does not come around without the removal
			it := l.next.Block()
			var body *ssa.BasicBlock
			if iff, ok := it.Instrs[len(it.Instrs)-1].(*ssa.If); ok {
				_ = iff
				body = it.Succs[0]
			}
			if body == nil {
				return false
			}
			// no tag is left out
			in := p.loopBody(it)
			for b := range in {
				for _, s := range b.Succs {
					if b != it && !in[s] {
						return false
					}
				}
			}
			_, open := p.search(body, 0, it, 0, nil, cut.assuming(p.capScenario(conn, "", isKey, tag, off...)), 0)
			return !open
		}
		gone := &Cut{Instr: func(ins ssa.Instruction, c *Ctx) bool {
			if rg, ok := ins.(*ssa.Range); ok {
				for _, l := range loops {
					if l.rng == rg && removes(l) {
						return true
					}
				}
			}
			if st, ok := ins.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && p.isField(fa.X.Type(), fa.Field, ircMessage, "Tags") && isNilConst(mustResC(p, st.Val, c)) {
					return true
				}
			}
			if call, ok := ins.(*ssa.Call); ok {
				if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" && len(call.Call.Args) == 2 {
					if k, isk := constString(mustResC(p, call.Call.Args[1], c)); isk && k == tag {
						return strings.HasSuffix(p.typeName(call.Call.Args[0].Type()), "irc.v4.Tags")
					}
				}
			}
			return false
		}, Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
			// the message does not have the tag
			return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
				k, isk := constString(b)
				if !isk || k != "" {
					return false
				}
				lk, ok := mustResC(p, a, c).(*ssa.Lookup)
				return ok && constIs(lk.Index, tag)
			})
		}}
		_, open := p.reachInstr(send, nil, gone.assuming(p.capScenario(conn, "", func(ssa.Value) bool { return false }, "", off...)))
		r.Check(!open, "tags", key+":"+tag, "%s: the tag %q is sent to clients that have enabled neither message-tags nor %s", p.at(send), tag, cp)
		if tag == "batch" {
			_, open := p.reachInstr(send, nil, gone.assuming(p.capScenario(conn, "", func(ssa.Value) bool { return false }, "", "batch")))
			r.Check(!open, "tags", key+":batch-only", "%s: the tag \"batch\" is sent to clients that have not enabled batch, although they never hear of the batch", p.at(send))
		}
	}
}

// checkShared: what trims a message works on a copy.
func (p *Program) checkShared(r *Report, send *ssa.Call, key string) {
	n := 0
	own := func(v ssa.Value, site ssa.Instruction, deep bool) bool {
		for _, u := range p.lift(v, site) {
			for _, lf := range p.leaves(u, nil) {
				switch x := lf.v.(type) {
				case *ssa.Alloc:
					if deep {
						// a shallow copy shares its tags
						for _, ref := range *x.Referrers() {
							if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
								return false
							}
						}
					}
				case *ssa.Call:
					if p.calleeName(x) != ircMessage+".Copy" {
						return false
					}
				default:
					return false
				}
			}
		}
		return true
	}
	seen := map[*ssa.Function]bool{}
	p.within(topFn(send.Parent()), func(g *ssa.Function, ins ssa.Instruction) {
		if p.pkgOf(g) != "soju" {
			return
		}
		// only functions that get the message
		has := false
		for _, q := range topFn(g).Params {
			if p.typeName(q.Type()) == ircMessage {
				has = true
			}
		}
		if !has {
			return
		}
		seen[g] = true
		var base ssa.Value
		deep := false
		switch x := ins.(type) {
		case *ssa.Store:
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if !ok || p.typeName(fa.X.Type()) != ircMessage {
				return
			}
			base = fa.X
		case *ssa.MapUpdate:
			b, _, ok := p.loadOf(x.Map, nil, ircMessage, "Tags")
			if !ok {
				return
			}
			base, deep = b, true
		case *ssa.Call:
			bi, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "delete" {
				return
			}
			b, _, ok := p.loadOf(x.Call.Args[0], nil, ircMessage, "Tags")
			if !ok {
				return
			}
			base, deep = b, true
		default:
			return
		}
		n++
		r.Check(own(base, ins, deep), "shared", fmt.Sprintf("%s#%d", p.fnID(g), n), "%s: the message is changed in place, although it is also sent to other clients", p.at(ins))
	})
}

// checkCapRequests: CAP REQ of clients.
func (p *Program) checkCapRequests(r *Report, conn string) {
	isCaps := func(v ssa.Value, c *Ctx) bool {
		w, wc := p.res(v, c)
		if fa, ok := w.(*ssa.FieldAddr); ok {
			return p.isField(fa.X.Type(), fa.Field, conn, "caps")
		}
		_, _, is := p.loadOf(w, wc, conn, "caps")
		return is
	}
	offered := func(name ssa.Value, nc *Ctx) *Cut {
		ap := p.ap(name, nc)
		nv := mustResC(p, name, nc)
		return &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
			w, wc := p.res(cond, c)
			same := func(v ssa.Value, vc *Ctx) bool {
				x := mustResC(p, v, vc)
				if ph, ok := x.(*ssa.Phi); ok && ph == nv {
					return true
				}
				return x == nv || ap != "" && p.ap(v, vc) == ap
			}
			if ex, ok := w.(*ssa.Extract); ok && ex.Index == 1 && pol {
				if lk, ok := ex.Tuple.(*ssa.Lookup); ok {
					_, _, is := p.loadOf(lk.X, wc, "xirc.CapRegistry", "Available")
					return is && same(lk.Index, wc)
				}
			}
			call, ok := w.(*ssa.Call)
			if !ok || !pol || !strings.HasSuffix(p.calleeName(call), "CapRegistry.IsAvailable") {
				return false
			}
			return isCaps(callArgs(call)[0], wc) && same(callArgs(call)[1], wc)
		}}
	}
	var sets []*ssa.Call
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		call, ok := ci.(*ssa.Call)
		if !ok || !strings.HasSuffix(name, "CapRegistry.SetEnabled") {
			return
		}
		args := callArgs(ci)
		if !isCaps(args[0], nil) {
			return
		}
		if b, isk := constBool(mustRes(p, args[2])); isk && !b {
			return
		}
		key := p.fnID(fn)
		if k, isk := constString(mustRes(p, args[1])); isk {
			r.Check(k == "cap-notify", "request", key+":"+k, "%s: %s is enabled without the client asking for it", p.at(ci), k)
			p.guardRule(r, "request", key+":version", ci, fixed(&Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
				a, b, op, ok := cmpFact(cond, pol)
				if !ok {
					return false
				}
				k, isk := constInt(b)
				if !isk {
					return false
				}
				_, _, is := p.loadOf(a, c, conn, "capVersion")
				return is && (op == token.GEQ && k >= 302 || op == token.GTR && k >= 301 || op == token.EQL && k >= 302)
			}}), GuardOpts{MaxDepth: 2}, k+" is enabled although the client neither asked for it nor for version 302 of capability negotiation")
			return
		}
		sets = append(sets, call)
		nv := mustRes(p, args[1])
		if ex, ok := nv.(*ssa.Extract); ok && ex.Index == 1 {
			if nx, ok := ex.Tuple.(*ssa.Next); ok {
				if rg, ok := nx.Iter.(*ssa.Range); ok {
					n := 0
					for _, lf := range p.leaves(located{rg.X, nil, rg}, nil) {
						if isNilConst(lf.v) {
							continue
						}
						if _, ok := lf.v.(*ssa.MakeMap); !ok {
							n = 0
							break
						}
						for _, ref := range *lf.v.Referrers() {
							mu, ok := ref.(*ssa.MapUpdate)
							if !ok {
								continue
							}
							n++
							k := key + ":" + itoa(n)
							if b, isk := constBool(mu.Value); isk && !b {
								continue
							}
							_, open := p.reachInstr(mu, nil, offered(mu.Key, nil))
							r.Check(!open, "request", k, "%s: a capability that is not offered is enabled", p.at(mu))
						}
					}
					if n > 0 {
						return
					}
				}
			}
		}
		p.guardRule(r, "request", key, call, func(c *Ctx) *Cut { return offered(args[1], nil) }, GuardOpts{MaxDepth: 2}, "a capability that is not offered is enabled")
	})
	// nothing is enabled before the whole request is known to be fine
	for _, st := range sets {
		bad := p.exploreConst(nil, st.Block(), indexOf(st)+1, nil, func(i ssa.Instruction, env map[ssa.Value]ssa.Value) bool {
			call, ok := i.(*ssa.Call)
			if !ok || !strings.HasSuffix(p.calleeName(call), "CapRegistry.IsAvailable") || !isCaps(callArgs(call)[0], nil) {
				return false
			}
			_, isk := constString(mustRes(p, callArgs(call)[1]))
			return !isk
		})
		r.Check(bad == nil, "request", p.fnID(st.Parent())+":partial", "%s: a capability is enabled before the rest of the request is known to be acceptable", p.at(st))
	}
	// all or none: after a capability that is not offered nothing is enabled,
	// and the reply is not ACK
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		iff, ok := ins.(*ssa.If)
		if !ok {
			return
		}
		w := mustRes(p, iff.Cond)
		pol := true
		if u, ok := w.(*ssa.UnOp); ok && u.Op == token.NOT {
			w, pol = mustRes(p, u.X), false
		}
		call, ok := w.(*ssa.Call)
		if !ok || !strings.HasSuffix(p.calleeName(call), "CapRegistry.IsAvailable") || !isCaps(callArgs(call)[0], nil) {
			return
		}
		if _, isk := constString(mustRes(p, callArgs(call)[1])); isk {
			return
		}
		// the branch on which it is not offered
		to := iff.Block().Succs[1]
		if !pol {
			to = iff.Block().Succs[0]
		}
		key := p.fnID(fn) + ":none"
		hasSets := false
		for _, st := range sets {
			if st.Parent() == fn {
				hasSets = true
			}
		}
		acks := func(i ssa.Instruction) bool {
			if st, ok := i.(*ssa.Store); ok && constIs(st.Val, "ACK") {
				return true
			}
			return false
		}
		var hitIn func(d int) func(i ssa.Instruction, env map[ssa.Value]ssa.Value) bool
		hitIn = func(d int) func(i ssa.Instruction, env map[ssa.Value]ssa.Value) bool {
			return func(i ssa.Instruction, env map[ssa.Value]ssa.Value) bool {
				for _, st := range sets {
					if i == ssa.Instruction(st) {
						return true
					}
				}
				if acks(i) {
					return true
				}
				if st, ok := i.(*ssa.Store); ok {
					if v, ok := env[st.Val]; ok && constIs(v, "ACK") {
						return true
					}
				}
				// a helper that looks at the request: go on in its callers
				ret, ok := i.(*ssa.Return)
				if !ok || d >= 2 {
					return false
				}
				for _, ci := range p.callers[ret.Parent()] {
					call, ok := ci.(*ssa.Call)
					if !ok || p.isHandler(ret.Parent(), "downstreamConn") != nil {
						continue
					}
					seed := map[ssa.Value]ssa.Value{}
					for k, v := range ret.Results {
						if w, ok := env[v]; ok {
							v = w
						}
						if _, ok := v.(*ssa.Const); !ok {
							continue
						}
						if len(ret.Results) == 1 {
							seed[call] = v
						} else {
							for _, ref := range *call.Referrers() {
								if ex, ok := ref.(*ssa.Extract); ok && ex.Index == k {
									seed[ex] = v
								}
							}
						}
					}
					if p.exploreConst(nil, call.Block(), indexOf(call)+1, seed, hitIn(d+1)) != nil {
						return true
					}
				}
				return false
			}
		}
		bad := p.exploreConst(iff.Block(), to, 0, nil, hitIn(0))
		if !hasSets && bad == nil {
			return
		}
		at := ""
		if bad != nil {
			at = p.at(bad)
		}
		r.Check(bad == nil, "request", key, "%s: a request with a capability that is not offered is acknowledged or partly applied", at)
	})
}

// exploreConst looks for an instruction reachable over the edge from→to,
// following the constants that the branches taken give to variables.
func (p *Program) exploreConst(from, to *ssa.BasicBlock, start int, init map[ssa.Value]ssa.Value, hit func(i ssa.Instruction, env map[ssa.Value]ssa.Value) bool) ssa.Instruction {
	seen := map[string]bool{}
	var found ssa.Instruction
	var walk func(from, b *ssa.BasicBlock, env map[ssa.Value]ssa.Value, d int)
	walk = func(from, b *ssa.BasicBlock, env map[ssa.Value]ssa.Value, d int) {
		if found != nil || d > 400 {
			return
		}
		n := map[ssa.Value]ssa.Value{}
		for k, v := range env {
			n[k] = v
		}
		pi := -1
		for i, q := range b.Preds {
			if q == from {
				pi = i
			}
		}
		for _, ins := range b.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			delete(n, ph)
			if pi < 0 {
				continue
			}
			v := ph.Edges[pi]
			if w, ok := env[v]; ok {
				v = w
			}
			if _, ok := v.(*ssa.Const); ok {
				n[ph] = v
			}
		}
		var ks []string
		for k, v := range n {
			ks = append(ks, k.Name()+"="+v.String())
		}
		sort.Strings(ks)
		key := itoa(b.Index) + ":" + strings.Join(ks, ",")
		if seen[key] {
			return
		}
		seen[key] = true
		first := 0
		if d == 0 {
			first = start
		}
		for _, ins := range b.Instrs[first:] {
			if hit(ins, n) {
				found = ins
				return
			}
		}
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			v, pol := iff.Cond, true
			for {
				u, ok := v.(*ssa.UnOp)
				if !ok || u.Op != token.NOT {
					break
				}
				v, pol = u.X, !pol
			}
			if w, ok := n[v]; ok {
				if k, isk := constBool(w); isk {
					if k == pol {
						walk(b, b.Succs[0], n, d+1)
					} else {
						walk(b, b.Succs[1], n, d+1)
					}
					return
				}
			}
		}
		for _, s := range b.Succs {
			walk(b, s, n, d+1)
		}
	}
	walk(from, to, init, 0)
	return found
}

// checkOffered: capabilities that need all upstream servers.
func (p *Program) checkOffered(r *Report) {
	const dcT, ucT = "soju.downstreamConn", "soju.upstreamConn"
	upEnabled := func(name func(v ssa.Value, c *Ctx) bool) func(cond ssa.Value, pol bool, c *Ctx) bool {
		return func(cond ssa.Value, pol bool, c *Ctx) bool {
			w, wc := p.res(cond, c)
			call, ok := w.(*ssa.Call)
			if !ok || !pol {
				return false
			}
			n := p.calleeName(call)
			args := callArgs(call)
			if strings.HasSuffix(n, "upstreamConn.supportsSASL") {
				return name(ssa.Value(nil), nil)
			}
			if !strings.HasSuffix(n, "CapRegistry.IsEnabled") {
				return false
			}
			recv, rc := p.res(args[0], wc)
			if fa, ok := recv.(*ssa.FieldAddr); ok {
				if !p.isField(fa.X.Type(), fa.Field, ucT, "caps") {
					return false
				}
			} else if _, _, is := p.loadOf(recv, rc, ucT, "caps"); !is {
				return false
			}
			return name(args[1], wc)
		}
	}
	// calls that make a capability available to a client, in the function
	// that looks at the upstream servers
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if !strings.HasSuffix(name, "downstreamConn.setSupportedCap") {
			return
		}
		args := callArgs(ci)
		nv := mustRes(p, args[2])
		key := p.fnID(fn)
		if k, isk := constString(nv); isk {
			switch k {
			case "sasl":
				p.guardRule(r, "offered", key+":sasl", ci, fixed(&Cut{Atom: upEnabled(func(v ssa.Value, c *Ctx) bool { return v == nil })}), GuardOpts{MaxDepth: 2}, "sasl is offered although the upstream server does not support it")
			case "draft/account-registration":
				p.guardRule(r, "offered", key+":register", ci, fixed(&Cut{Atom: upEnabled(func(v ssa.Value, c *Ctx) bool { return v != nil && constIs(mustResC(p, v, c), k) })}), GuardOpts{MaxDepth: 2}, k+" is offered although the upstream server has not acknowledged it")
			}
			return
		}
		ex, ok := nv.(*ssa.Extract)
		if !ok {
			r.Bad("offered", key, "%s: which capability is offered is not known", p.at(ci))
			return
		}
		nx, ok := ex.Tuple.(*ssa.Next)
		if !ok {
			r.Bad("offered", key, "%s: which capability is offered is not known", p.at(ci))
			return
		}
		rg := nx.Iter.(*ssa.Range)
		m := mustRes(p, rg.X)
		// offered only if marked
		cut := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
			w := mustResC(p, cond, c)
			if e, ok := w.(*ssa.Extract); ok && pol && e.Tuple == ssa.Value(nx) && e.Index == 2 {
				return true
			}
			if lk, ok := w.(*ssa.Lookup); ok && pol {
				return mustResC(p, lk.X, c) == m
			}
			return false
		}}
		_, open := p.reachInstr(ci, nil, cut)
		r.Check(!open, "offered", key+":marked", "%s: a capability is offered although an upstream server does not have it", p.at(ci))
		// marks: every upstream server clears those it does not have
		n := 0
		clear := func(g *ssa.Function) {
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					mu, ok := i.(*ssa.MapUpdate)
					if !ok || mustRes(p, mu.Map) != m {
						continue
					}
					if g == topFn(g) && p.before2(mu, g) {
						continue
					}
					n++
					bad := false
					upCall := upEnabled(func(v ssa.Value, c *Ctx) bool { return v != nil && mustResC(p, v, c) == mustRes(p, mu.Key) })
					for _, lf := range p.leaves(located{mu.Value, nil, mu}, func(v ssa.Value, c *Ctx) bool { return upCall(v, true, c) }) {
						if k, isk := constBool(lf.v); isk && !k {
							continue
						}
						if upCall(lf.v, true, lf.ctx) {
							continue
						}
						bad = true
					}
					r.Check(!bad, "offered", fmt.Sprintf("%s:clear#%d", p.fnID(g), n), "%s: a capability stays offered although an upstream server does not have it", p.at(mu))
					// and nothing is skipped
					kv := mustRes(p, mu.Key)
					if kex, ok := kv.(*ssa.Extract); ok {
						if knx, ok := kex.Tuple.(*ssa.Next); ok {
							it := knx.Block()
							skip := &Cut{Instr: func(i ssa.Instruction, c *Ctx) bool { return i == ssa.Instruction(mu) }, Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
								if upEnabled(func(v ssa.Value, vc *Ctx) bool { return v != nil && mustResC(p, v, vc) == kv })(cond, pol, c) {
									return true
								}
								e, ok := mustResC(p, cond, c).(*ssa.Extract)
								return ok && !pol && e.Tuple == ssa.Value(knx) && e.Index == 2
							}}
							_, open := p.search(it.Succs[0], 0, it, 0, nil, skip, 0)
							r.Check(!open, "offered", fmt.Sprintf("%s:all#%d", p.fnID(g), n), "%s: a capability an upstream server does not have is not withdrawn", p.at(mu))
						}
					}
				}
			}
		}
		var visit func(g *ssa.Function)
		visit = func(g *ssa.Function) {
			clear(g)
			for _, a := range g.AnonFuncs {
				visit(a)
			}
		}
		visit(topFn(fn))
		r.Check(n > 0, "offered", key+":clears", "%s: what the upstream servers support does not matter for what is offered", p.at(ci))
	})
	// refresh
	refresh := p.effects(p.calls(nil, "soju.downstreamConn.updateSupportedCaps"), func(cond ssa.Value, pol bool, c *Ctx) bool {
		_, _, is := p.loadOf(cond, c, ucT, "registered")
		return is && !pol
	})
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		call, ok := ci.(*ssa.Call)
		if !ok || !strings.HasSuffix(name, "CapRegistry.SetEnabled") && !strings.HasSuffix(name, "CapRegistry.Del") {
			return
		}
		recv := mustRes(p, callArgs(ci)[0])
		fa, ok := recv.(*ssa.FieldAddr)
		if !ok || !p.isField(fa.X.Type(), fa.Field, ucT, "caps") {
			return
		}
		miss := p.afterwards(call, refresh, 0)
		at := ""
		if miss != nil {
			at = p.at(miss)
		}
		r.Check(miss == nil, "refresh", p.fnID(fn)+":"+name[strings.LastIndex(name, ".")+1:], "%s: the capabilities of the upstream server change at %s without clients being told", at, p.at(ci))
	})
}

// before2: mu initialises its map: it runs before any closure is called.
func (p *Program) before2(mu *ssa.MapUpdate, fn *ssa.Function) bool {
	// in a loop over a package-level table, or storing a constant true
	k, isk := constBool(mu.Value)
	return isk && k
}

// afterwards: after ins the effect happens before the function ends without an
// error; or after each call of the function.
func (p *Program) afterwards(ins ssa.Instruction, e *effs, d int) ssa.Instruction {
	fn := ins.Parent()
	var ends []ssa.Instruction
	for _, ri := range returnsOf(fn) {
		ret, ok := ri.(*ssa.Return)
		if ok && p.retErrNonNil(ret) {
			continue
		}
		ends = append(ends, ri)
	}
	cut := e.cut()
	// an error ends the handling
	at := p.avoidedWith(ins, ends, cut.assuming(func(cond ssa.Value, pol bool, c *Ctx) bool {
		return eqFact(cond, pol, token.NEQ, func(a, b ssa.Value) bool { return isNilConst(b) && isErrorType(a.Type()) })
	}))
	if at == nil {
		return nil
	}
	if d >= 2 || fn.Parent() != nil || len(p.callers[fn]) == 0 || p.isHandler(fn, "upstreamConn") != nil {
		return at
	}
	for _, ci := range p.callers[fn] {
		call, ok := ci.(*ssa.Call)
		if !ok {
			return ci
		}
		if at := p.afterwards(call, e, d+1); at != nil {
			return at
		}
	}
	return nil
}

// checkCapNotify: messages that are only for clients that asked.
func (p *Program) checkCapNotify(r *Report, conn string) {
	on := func(name string) *Cut {
		return &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool { return p.capOn(cond, pol, c, conn, name) }}
	}
	n := 0
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		st, ok := ins.(*ssa.Store)
		if !ok || p.pkgOf(fn) != "soju" {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || !p.isField(fa.X.Type(), fa.Field, ircMessage, "Command") {
			return
		}
		cmd, isk := constString(st.Val)
		if !isk {
			return
		}
		key := fmt.Sprintf("%s:%s", p.fnID(fn), cmd)
		switch cmd {
		case "BATCH":
			n++
			p.guardRule(r, "notify", key+"#"+itoa(n), st, fixed(on("batch")), GuardOpts{MaxDepth: 3}, "a batch is announced to a client that has not enabled batch")
		case "CAP":
			pv := p.literalField(fa.X, "Params")
			if pv == nil {
				return
			}
			els, ok := p.elems(pv, nil)
			if !ok || len(els) < 2 {
				return
			}
			sub, _ := constString(mustRes(p, els[1].v))
			if sub == "NEW" || sub == "DEL" {
				p.guardRule(r, "notify", key+":"+sub, st, fixed(on("cap-notify")), GuardOpts{MaxDepth: 3}, "a change of the capabilities is announced to a client that has not enabled cap-notify")
			}
		case "BOUNCER":
			top := topFn(fn)
			if p.isHandler(top, "downstreamConn") != nil {
				return
			}
			n++
			p.guardRule(r, "notify", key+"#"+itoa(n), st, fixed(on("soju.im/bouncer-networks-notify")), GuardOpts{MaxDepth: 3}, "the state of a network is announced to a client that has not enabled bouncer-networks-notify")
		}
	})
}

func (p *Program) checkUpstreamCaps(r *Report, conn string) {
	for i, call := range p.sendSites(conn) {
		key := p.fnID(call.Parent())
		if i > 0 {
			key += "#" + itoa(i)
		}
		msg := callArgs(call)[2]
		if _, ok := p.literalCommand(msg); ok && p.literalField(mustRes(p, msg), "Tags") == nil {
			r.Ok("upstream-tags", key)
			continue
		}
		strip := &Cut{Instr: func(ins ssa.Instruction, c *Ctx) bool {
			st, ok := ins.(*ssa.Store)
			if !ok {
				return false
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			return ok && p.isField(fa.X.Type(), fa.Field, ircMessage, "Tags") && isNilConst(mustResC(p, st.Val, c))
		}}
		_, open := p.reachInstr(call, nil, strip.assuming(p.capScenario(conn, "", nil, "", "message-tags")))
		r.Check(!open, "upstream-tags", key, "%s: tags are sent to a server that has not acknowledged message-tags", p.at(call))
		p.checkShared(r, call, "up:"+key)
	}
	isCaps := func(v ssa.Value) bool {
		fa, ok := mustRes(p, v).(*ssa.FieldAddr)
		return ok && p.isField(fa.X.Type(), fa.Field, conn, "caps")
	}
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if !strings.HasSuffix(name, "CapRegistry.SetEnabled") || !isCaps(callArgs(ci)[0]) {
			return
		}
		for _, u := range p.lift(callArgs(ci)[2], ci) {
			for i, lf := range p.leaves(u, nil) {
				lf := lf
				key := fmt.Sprintf("%s#%d", p.fnID(u.site.Parent()), i)
				if k, isk := constBool(lf.v); isk && !k {
					r.Ok("upstream-enable", key)
					continue
				}
				isAck := func(cond ssa.Value, pol bool, c *Ctx) bool {
					return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool { return constIs(mustResC(p, b, c), "ACK") })
				}
				if b, ok := lf.v.(*ssa.BinOp); ok && isAck(b, true, lf.ctx) {
					r.Ok("upstream-enable", key)
					continue
				}
				r.Check(!p.leafOpen(&lf, u.site, &Cut{Atom: isAck}), "upstream-enable", key, "%s: a capability is taken as enabled although the server has not acknowledged it", p.at(ci))
			}
		}
	})
	// requested
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		st, ok := ins.(*ssa.Store)
		if !ok || p.pkgOf(fn) != "soju" {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || !p.isField(fa.X.Type(), fa.Field, ircMessage, "Command") || !constIs(st.Val, "CAP") {
			return
		}
		pv := p.literalField(fa.X, "Params")
		if pv == nil {
			return
		}
		els, ok := p.elems(pv, nil)
		if !ok || len(els) < 1 {
			return
		}
		switch sub, _ := constString(mustRes(p, els[0].v)); sub {
		case "REQ":
			p.checkRequested(r, fn, els[1])
		case "END":
			p.checkCapEnd(r, fn, st)
		}
	})
}

// checkRequested: the names in a request are offered.
func (p *Program) checkRequested(r *Report, fn *ssa.Function, l located) {
	const conn = "soju.upstreamConn"
	n := 0
	avail := func(name ssa.Value) *Cut {
		return &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
			w, wc := p.res(cond, c)
			call, ok := w.(*ssa.Call)
			if !ok || !pol || !strings.HasSuffix(p.calleeName(call), "CapRegistry.IsAvailable") && !strings.HasSuffix(p.calleeName(call), "CapRegistry.IsEnabled") {
				return false
			}
			a := mustResC(p, callArgs(call)[1], wc)
			if k, isk := constString(name); isk {
				return constIs(a, strings.TrimPrefix(k, "-"))
			}
			return a == name
		}}
	}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, d int)
	check := func(v ssa.Value, at ssa.Instruction) {
		n++
		v = mustRes(p, v)
		key := fmt.Sprintf("%s#%d", p.fnID(fn), n)
		if k, isk := constString(v); isk {
			key = p.fnID(fn) + ":" + k
		}
		_, open := p.reachInstr(at, nil, avail(v))
		r.Check(!open, "upstream-request", key, "%s: a capability is requested that the server does not offer (it would refuse the whole request)", p.at(at))
	}
	walk = func(v ssa.Value, d int) {
		v = mustRes(p, v)
		if seen[v] || d > 20 {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e, d+1)
			}
		case *ssa.Call:
			args := x.Call.Args
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				walk(args[0], d+1)
				if els, ok := p.elems(args[1], nil); ok {
					for _, el := range els {
						check(el.v, x)
					}
				} else {
					walk(args[1], d+1)
				}
				return
			}
			switch n := p.calleeName(x); {
			case n == "strings.Join":
				walk(callArgs(x)[0], d+1)
			default:
				for _, g := range p.callees[x] {
					for _, ri := range returnsOf(g) {
						if ret, ok := ri.(*ssa.Return); ok && len(ret.Results) > 0 {
							walk(ret.Results[0], d+1)
						}
					}
				}
			}
		case *ssa.UnOp:
			if al := p.cell(x.X); al != nil {
				for _, st := range p.allCellStores(al) {
					walk(st.Val, d+1)
				}
			}
		case *ssa.Slice:
			if els, ok := p.elems(x, nil); ok {
				for _, el := range els {
					check(el.v, el.site)
				}
			}
		case *ssa.Parameter:
			for _, u := range p.lift(x, l.site) {
				if u.v != v {
					walk(u.v, d+1)
				}
			}
		case *ssa.Const:
			if s, isk := constString(x); isk {
				for _, nm := range strings.Fields(s) {
					_ = nm
					check(x, l.site)
				}
			}
		}
	}
	walk(l.v, 0)
}

// checkCapEnd: negotiation only ends after the last line of the list.
func (p *Program) checkCapEnd(r *Report, fn *ssa.Function, st ssa.Instruction) {
	const conn = "soju.upstreamConn"
	roots := p.handlerRoots("upstreamConn")
	// the marker: the parameter before the last, or after the subcommand
	marker := func(v ssa.Value, c *Ctx) bool {
		w, wc := p.res(v, c)
		u, ok := w.(*ssa.UnOp)
		if !ok {
			return false
		}
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok {
			return false
		}
		base, bc := p.res(ia.X, wc)
		off, end := int64(0), false
		if sl, ok := base.(*ssa.Slice); ok && sl.High == nil {
			k, isk := int64(0), true
			if sl.Low != nil {
				k, isk = constInt(sl.Low)
			}
			if !isk {
				return false
			}
			off = k
			if _, _, is := p.loadOf(sl.X, bc, ircMessage, "Params"); !is {
				return false
			}
		} else if _, _, is := p.loadOf(base, bc, ircMessage, "Params"); !is {
			return false
		}
		idx := mustResC(p, ia.Index, wc)
		if b, ok := idx.(*ssa.BinOp); ok && b.Op == token.SUB {
			k, isk := constInt(b.Y)
			lc, ok := b.X.(*ssa.Call)
			if !isk || k != 2 || !ok {
				return false
			}
			bi, ok := lc.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "len" {
				return false
			}
			lb, lbc := p.res(lc.Call.Args[0], wc)
			end = lb == base || p.ap(lb, lbc) != "" && p.ap(lb, lbc) == p.ap(base, bc)
			return end
		}
		k, isk := constInt(idx)
		return isk && k+off == 2
	}
	last := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
		if eqFact(cond, pol, token.NEQ, func(a, b ssa.Value) bool { return constIs(mustResC(p, b, c), "*") && marker(a, c) }) {
			return true
		}
		// too short for a marker
		return p.shortList(cond, pol, c)
	}}
	for _, root := range roots {
		par := p.isHandler(root, "upstreamConn")
		if par == nil {
			continue
		}
		isLS := func(cond ssa.Value, pol bool, c *Ctx) bool {
			a, b, op, ok := cmpFact(cond, pol)
			if !ok || op != token.EQL && op != token.NEQ {
				return false
			}
			k, isk := constString(b)
			if !isk {
				return false
			}
			if _, is := mustResC(p, a, c).(*ssa.Call); !is {
				return false
			}
			call := mustResC(p, a, c).(*ssa.Call)
			if p.calleeName(call) != "strings.ToUpper" {
				return false
			}
			return (op == token.EQL) != (k == "LS")
		}
		if st.Parent() != root {
			continue
		}
		_, open := p.reachInstr(st, nil, last.assuming(p.commandIs("CAP", rootMsg(par)), isLS))
		r.Check(!open, "upstream-list", p.fnID(fn), "%s: registration goes on after a line of the list that is not the last", p.at(st))
	}
}

// shortList: the parameters are too few for a continuation marker.
func (p *Program) shortList(cond ssa.Value, pol bool, c *Ctx) bool {
	a, b, op, ok := cmpFact(cond, pol)
	if !ok {
		return false
	}
	isLen := func(v ssa.Value) (int64, bool) {
		call, ok := mustResC(p, v, c).(*ssa.Call)
		if !ok {
			return 0, false
		}
		bi, ok := call.Call.Value.(*ssa.Builtin)
		if !ok || bi.Name() != "len" {
			return 0, false
		}
		base, bc := p.res(call.Call.Args[0], c)
		if sl, ok := base.(*ssa.Slice); ok && sl.Low != nil {
			if _, _, is := p.loadOf(sl.X, bc, ircMessage, "Params"); is {
				k, isk := constInt(sl.Low)
				return k, isk
			}
			return 0, false
		}
		_, _, is := p.loadOf(base, bc, ircMessage, "Params")
		return 0, is
	}
	off, is := isLen(a)
	if !is {
		a, b, op = b, a, flip(op)
		if off, is = isLen(a); !is {
			return false
		}
	}
	k, isk := constInt(mustResC(p, b, c))
	if !isk {
		return false
	}
	// params = ["nick", "LS", "*", caps]: at least 4 with a marker
	switch op {
	case token.LSS:
		return k+off <= 4
	case token.LEQ:
		return k+off <= 3
	case token.EQL:
		return k+off <= 3
	}
	return false
}
