package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{ID: "C15", Explanation: "Path searches under the assumption of each kind of message show that it is appended to the history before it is fanned out, except for the listed reasons; guard analysis decides where nothing may be stored (NickServ, server masks) or forwarded (detached channels, echoes); the ids handed to the delivery are traced to the append.",
		Assumptions: []string{"the message store keeps what it is given (msgstore, C13)", "reasons not to store: no store, a server message, a TAGMSG without a storable tag, an error of the store (which is logged)"},
		Run:         runC15})
}

func (p *Program) isStoreCall(ins ssa.Instruction, method string) *ssa.Call {
	call, ok := ins.(*ssa.Call)
	if !ok || !call.Call.IsInvoke() || call.Call.Method.Name() != method {
		return nil
	}
	t := p.typeName(call.Call.Value.Type())
	if t == "msgstore.Store" || t == "msgstore.ChatHistoryStore" || t == "msgstore.SearchStore" {
		return call
	}
	return nil
}

// ofStore: v (or the tuple it is extracted from) is the result of a call of the store.
func (p *Program) ofStore(v ssa.Value, method string) bool {
	if ex, ok := v.(*ssa.Extract); ok {
		v = ex.Tuple
	}
	call, ok := v.(*ssa.Call)
	return ok && p.isStoreCall(call, method) != nil
}

func (p *Program) storeStop(method string) func(v ssa.Value, c *Ctx) bool {
	return func(v ssa.Value, c *Ctx) bool { return p.ofStore(v, method) }
}

// notStored: the accepted reasons for not storing a message.
func (p *Program) notStored(cond ssa.Value, pol bool, c *Ctx) bool {
	if eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
		if s, ok := constString(b); ok {
			if s == "" { // no target
				return true
			}
			return s == "nickserv" && p.isCasemapped(a, c)
		}
		if !isNilConst(b) {
			return false
		}
		_, _, ok := p.loadOf(a, c, "soju.user", "msgStore")
		return ok
	}) {
		return true
	}
	if eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool { // only some are stored
		s, ok := constString(b)
		_, _, is := p.loadOf(a, c, ircMessage, "Command")
		return ok && is && s == "TAGMSG"
	}) {
		return true
	}
	if eqFact(cond, pol, token.NEQ, func(a, b ssa.Value) bool { // an error of the store
		if !isNilConst(b) {
			return false
		}
		call := p.errOf(p.lastStored(a))
		return call != nil && p.isStoreCall(call, "LastMsgID") != nil
	}) {
		return true
	}
	call, ok := cond.(*ssa.Call)
	if !ok || !pol {
		return false
	}
	n := p.calleeName(call)
	args := callArgs(call)
	if n == "strings.HasPrefix" {
		s, ok := constString(args[1])
		return ok && s == "$"
	}
	if strings.HasSuffix(n, "equalCasemap") || n == "strings.EqualFold" {
		for _, a := range args {
			if s, ok := constString(a); ok && s == p.serviceNick() {
				return true
			}
		}
	}
	return false
}

func (p *Program) serviceNick() string {
	if sp := p.ByPkg[""]; sp != nil {
		if k, ok := sp.Members["serviceNick"].(*ssa.NamedConst); ok {
			s, _ := constString(k.Value)
			return s
		}
	}
	return "BouncerServ"
}

// isCasemapped: v was folded by a network's case mapping (or lower-cased).
func (p *Program) isCasemapped(v ssa.Value, c *Ctx) bool {
	w, _ := p.res(v, c)
	call, ok := w.(*ssa.Call)
	if !ok {
		return false
	}
	if call.Call.StaticCallee() == nil && !call.Call.IsInvoke() {
		_, _, ok := p.loadOf(call.Call.Value, c, "soju.network", "casemap")
		if ok {
			return true
		}
		return true // a function value of type string -> string
	}
	n := p.calleeName(call)
	return strings.Contains(strings.ToLower(n), "casemap") || n == "strings.ToLower"
}

func runC15(p *Program, r *Report) {
	r.Rule("stored", "every conversation message is appended to the history of its buffer", 6)
	r.Rule("stored-first", "a message goes to clients only after it was stored, with the id it was stored under", 2)
	r.Rule("never-stored", "conversations with NickServ and messages to server masks are never stored", 2)
	r.Rule("first-message", "the first message of a new buffer is preceded by recording where offline clients stand", 1)
	r.Rule("own-messages", "a message sent by a client is stored and shown to the other clients, once", 1)
	r.Rule("detached", "messages of detached channels are not forwarded to clients", 2)
	r.Rule("echo", "a client does not get its own message back unless it asked for echoes", 1)
	r.Rule("detach-mark", "detaching remembers where the history stands and attaching replays from there", 2)
	r.Rule("backlog", "a client is only marked as up to date after its backlog was sent", 1)
	r.Rule("buffer", "a direct message is stored in the buffer of whoever sent it", 1)
	r.Rule("receipt", "what a client has seen is only moved forward by what it acknowledged", 1)
	r.Rule("renamed", "the history of a network that is renamed moves with it", 0)
	r.Rule("credentials", "only credentials sent to NickServ for that purpose are remembered", 1)

	appends := func(ins ssa.Instruction, c *Ctx) bool { return p.isStoreCall(ins, "Append") != nil }
	store := p.effects(appends, p.notStored)
	at0 := func(rets []*ssa.Return) ssa.Instruction {
		if len(rets) > 0 {
			return rets[0]
		}
		return nil
	}
	for _, root := range p.handlerRoots("upstreamConn") {
		par := p.isHandler(root, "upstreamConn")
		for _, cmd := range []string{"PRIVMSG", "NOTICE", "JOIN", "PART", "KICK", "TOPIC"} {
			assume := p.commandIs(cmd, rootMsg(par))
			at := at0(p.nilReturns(root, store.cut().assuming(assume)))
			r.Check(at == nil, "stored", cmd, "%s messages of upstream servers can be handled (%s) without being stored", cmd, p.at(at))
		}
		for _, cmd := range []string{"QUIT", "NICK"} {
			// in every channel the user is seen in
			s := p.stateRun(root, cmd)
			e := p.effectsMay(func(ins ssa.Instruction, c *Ctx) bool {
				call := p.isStoreCall(ins, "Append")
				return call != nil && p.namesChannel(callArgs(call)[2], c, false)
			}, appends, func(cond ssa.Value, pol bool, c *Ctx) bool {
				return s.assume(cond, pol, c) || s.unknown(cond, pol, c) || p.notStored(cond, pol, c)
			})
			at := at0(p.nilReturns(root, e.cut()))
			r.Check(at == nil, "stored", cmd+" in each channel", "%s messages of upstream servers can be handled (%s) without being stored in each channel of the user", cmd, p.at(at))
		}
		for _, cmd := range []string{"QUIT", "NICK", "MODE"} {
			bad := ""
			p.under(root, p.commandIs(cmd, rootMsg(par)), func(ci ssa.CallInstruction, c *Ctx) bool {
				if call := p.isStoreCall(ci, "Append"); call != nil && !p.namesChannel(callArgs(call)[2], c, true) {
					bad = p.at(ci)
				}
				return true
			})
			r.Check(bad == "", "buffer", cmd, "%s: a %s message is stored in another buffer than that of its channel", bad, cmd)
		}
		for _, cmd := range []string{"TAGMSG", "QUIT", "NICK", "MODE"} {
			found := false
			p.under(root, p.commandIs(cmd, rootMsg(par)), func(ci ssa.CallInstruction, c *Ctx) bool {
				if call, ok := ci.(*ssa.Call); ok && p.isStoreCall(call, "Append") != nil {
					found = true
				}
				return !found
			})
			r.Check(found, "stored", cmd, "%s messages of upstream servers are never stored", cmd)
		}
	}

	p.checkRenamed(r)

	// buffers of direct messages
	for _, root := range p.handlerRoots("upstreamConn") {
		par := p.isHandler(root, "upstreamConn")
		for _, cmd := range []string{"PRIVMSG", "NOTICE"} {
			sender, target := false, false
			p.under(root, p.commandIs(cmd, rootMsg(par)), func(ci ssa.CallInstruction, c *Ctx) bool {
				call, ok := ci.(*ssa.Call)
				if !ok || p.isStoreCall(call, "Append") == nil {
					return true
				}
				for _, o := range p.origins(callArgs(call)[2], c, sliceOpts{Up: true, Data: true, Through: func(n string, ci ssa.CallInstruction) []ssa.Value {
					if ci.Common().StaticCallee() == nil || strings.HasPrefix(n, "strings.") || strings.Contains(strings.ToLower(n), "casemap") {
						return callArgs(ci)
					}
					return nil
				}}) {
					if _, _, ok := p.loadOf(o.V, o.Ctx, "gopkg.in/irc.v4.Prefix", "Name"); ok {
						sender = true
					} else if _, isk := o.V.(*ssa.Const); !isk {
						target = true
					}
				}
				return true
			})
			r.Check(sender && target, "buffer", cmd, "direct %s messages are not stored in the buffer of their sender", cmd)
		}
	}

	// the append itself
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		call := p.isStoreCall(ins, "Append")
		if call == nil || !p.inSoju(fn) {
			return
		}
		ent := callArgs(call)[2]
		key := p.fnID(fn)
		same := func(v ssa.Value, c *Ctx, sink *Ctx) bool {
			a, ac := p.res(v, c)
			b, bc := p.res(ent, sink)
			if a == b || p.sameExpr(a, ac, b, bc, 0) {
				return true
			}
			// before folding
			for _, pair := range [][2]ssa.Value{{a, b}, {b, a}} {
				if ci, ok := pair[0].(*ssa.Call); ok && len(callArgs(ci)) > 0 {
					args := callArgs(ci)
					x, _ := p.res(args[len(args)-1], ac)
					y, _ := p.res(pair[1], bc)
					if x == y {
						return true
					}
				}
			}
			return false
		}
		mk := func(kind string) func(*Ctx) *Cut {
			return func(sink *Ctx) *Cut {
				return &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
					if kind == "nickserv" {
						return eqFact(cond, pol, token.NEQ, func(a, b ssa.Value) bool {
							s, ok := constString(b)
							return ok && strings.EqualFold(s, "nickserv") && same(a, c, sink)
						}) || p.negCall(cond, pol, "equalCasemap", func(args []ssa.Value) bool {
							for i, a := range args {
								if s, ok := constString(a); ok && strings.EqualFold(s, "nickserv") {
									for j, b := range args {
										if j != i && same(b, c, sink) {
											return true
										}
									}
								}
							}
							return false
						})
					}
					return p.negCall(cond, pol, "strings.HasPrefix", func(args []ssa.Value) bool {
						s, ok := constString(args[1])
						return ok && s == "$" && same(args[0], c, sink)
					})
				}}
			}
		}
		for _, kind := range []string{"nickserv", "mask"} {
			what := map[string]string{"nickserv": "a conversation with NickServ (which may hold passwords)", "mask": "a message to a server mask"}[kind]
			bad := p.Unguarded(ins, mk(kind), GuardOpts{MaxDepth: 3})
			msg := ""
			if len(bad) > 0 {
				msg = p.chainString(bad[0])
			}
			r.Check(len(bad) == 0, "never-stored", kind+" in "+key, "%s: %s can be stored: %s", p.at(ins), what, msg)
		}
		// first message of a buffer
		pre := p.effectsMay(func(i ssa.Instruction, c *Ctx) bool {
			ci, ok := i.(*ssa.Call)
			if !ok || !strings.HasSuffix(p.calleeName(ci), "deliveredStore.StoreID") {
				return false
			}
			args := callArgs(ci)
			for _, o := range p.origins(args[len(args)-1], c, sliceOpts{Stop: p.storeStop("LastMsgID"), Up: true}) {
				if !p.ofStore(o.V, "LastMsgID") {
					return false
				}
			}
			return true
		}, func(i ssa.Instruction, c *Ctx) bool {
			ci, ok := i.(*ssa.Call)
			return ok && strings.HasSuffix(p.calleeName(ci), "deliveredStore.StoreID")
		}, func(cond ssa.Value, pol bool, c *Ctx) bool {
			ci, ok := cond.(*ssa.Call)
			if !ok || !pol {
				return false
			}
			n := p.calleeName(ci)
			return strings.HasSuffix(n, "deliveredStore.Empty") || strings.HasSuffix(n, "deliveredStore.HasTarget")
		}).cut()
		bad := p.Unguarded(ins, fixed(pre), GuardOpts{MaxDepth: 2})
		r.Check(len(bad) == 0, "first-message", key, "%s: the first message of a new buffer is stored before the position of offline clients was recorded: they would miss it", p.at(ins))
	})

	// deliveries
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if name != "soju.downstreamConn.sendMessageWithID" && name != "soju.downstreamConn.advanceMessageWithID" {
			return
		}
		args := callArgs(ci)
		id := args[3]
		key := fmt.Sprintf("%s in %s", strings.TrimPrefix(name, "soju.downstreamConn."), p.fnID(fn))
		good, bad := false, ""
		for _, o := range p.origins(id, nil, sliceOpts{Stop: p.storeStop("Append"), Up: true}) {
			v := o.V
			if p.ofStore(v, "Append") {
				good = true
				continue
			}
			if s, ok := constString(v); ok && s == "" {
				continue
			}
			bad = p.valAt(v)
		}
		r.Check(good && bad == "", "stored-first", key+":id", "%s: a message is delivered under an id that is not the one it was stored under %s", p.at(ci), bad)
		un := p.Unguarded(ci, fixed(store.cut()), GuardOpts{MaxDepth: 3})
		msg := ""
		if len(un) > 0 {
			msg = p.chainString(un[0])
		}
		r.Check(len(un) == 0, "stored-first", key, "%s: a message goes to clients before it was stored: %s", p.at(ci), msg)
		if !strings.Contains(name, "advance") {
			det := &Cut{Atom: p.attached}
			un := p.Unguarded(ci, fixed(det), GuardOpts{MaxDepth: 3})
			msg := ""
			if len(un) > 0 {
				msg = p.chainString(un[0])
			}
			r.Check(len(un) == 0, "detached", key, "%s: a message of a detached channel can be forwarded: %s", p.at(ci), msg)
			echo := &Cut{Atom: p.notEcho}
			un = p.Unguarded(ci, fixed(echo), GuardOpts{MaxDepth: 3})
			msg = ""
			if len(un) > 0 {
				msg = p.chainString(un[0])
			}
			r.Check(len(un) == 0, "echo", key, "%s: a client that did not ask for echoes can get its own message back: %s", p.at(ci), msg)
		}
	})
	// replays and direct forwards of channel messages
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if name != "soju.downstreamConn.SendMessage" || !p.inSoju(fn) {
			return
		}
		// a message of LoadLatestID
		hist := false
		args := callArgs(ci)
		for _, o := range p.origins(args[2], nil, sliceOpts{Data: true, Up: true, Stop: p.storeStop("LoadLatestID")}) {
			if p.ofStore(o.V, "LoadLatestID") {
				hist = true
			}
		}
		if !hist {
			return
		}
		un := p.Unguarded(ci, fixed(&Cut{Atom: p.attached}), GuardOpts{MaxDepth: 2})
		r.Check(len(un) == 0, "detached", "replay in "+p.fnID(fn), "%s: the backlog of a detached channel can be replayed as if it was attached", p.at(ci))
	})
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		// relays of single messages
		if name != "soju.downstreamConn.relayDetachedMessage" {
			return
		}
		wants := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
			call, ok := cond.(*ssa.Call)
			return ok && pol && strings.HasSuffix(p.calleeName(call), "detachedMessageNeedsRelay")
		}}
		un := p.Unguarded(ci, fixed(wants), GuardOpts{MaxDepth: 3})
		r.Check(len(un) == 0, "detached", "relay in "+p.fnID(fn), "%s: messages of a detached channel are relayed although the channel's settings do not ask for it", p.at(ci))
	})

	// messages sent by clients
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if !strings.HasPrefix(name, "soju.upstreamConn.SendMessage") || recvName2(topFn(fn)) != "downstreamConn" {
			return
		}
		args := callArgs(ci)
		if !p.fromConversation(args[len(args)-1]) {
			return
		}
		e := p.effects(appends, func(cond ssa.Value, pol bool, c *Ctx) bool {
			return p.notStored(cond, pol, c) || p.capOn(cond, pol, c, "soju.upstreamConn", "echo-message")
		})
		facts := func(cond ssa.Value, pol bool) bool {
			return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool { // the other kinds need no storing
				s, ok := constString(b)
				_, _, is := p.loadOf(a, nil, ircMessage, "Command")
				return ok && is && s == "TAGMSG"
			})
		}
		at := p.avoided(ci, append(returnsOf(fn), p.loopBacks(ci)...), e, facts)
		r.Check(at == nil, "own-messages", p.fnID(fn), "%s: a message sent by a client is not stored although the upstream server does not echo it (%s)", p.at(ci), p.at(at))
		// and not twice
		var dup ssa.Instruction
		p.eachInstr(func(f *ssa.Function, i ssa.Instruction) {
			if f != fn || dup != nil {
				return
			}
			call, ok := i.(*ssa.Call)
			if !ok || call.Call.StaticCallee() == nil || !p.reachesAppend(call.Call.StaticCallee()) || !p.inSoju(call.Call.StaticCallee()) {
				return
			}
			cut := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
				return p.capOff(cond, pol, c, "soju.upstreamConn", "echo-message")
			}}
			if p.searchAfter(ci, call.Block(), indexOf(call), cut) && strings.HasSuffix(p.calleeName(call), "produce") {
				dup = call
			}
		})
		r.Check(dup == nil, "own-messages", p.fnID(fn)+":once", "%s: a message is stored although the upstream server echoes it: it would appear twice", p.at(dup))
	})

	// detach and attach
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		st, ok := ins.(*ssa.Store)
		if !ok || !p.inSoju(fn) {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || !p.isField(fa.X.Type(), fa.Field, "database.Channel", "Detached") || !p.channelInUse(fa.X, 0) {
			return
		}
		b, isConst := constBool(st.Val)
		if !isConst {
			return
		}
		if b {
			e := p.effects(p.storesField("database.Channel", "DetachedInternalMsgID", func(s2 *ssa.Store, f2 *ssa.FieldAddr, c *Ctx) bool {
				for _, o := range p.origins(s2.Val, c, sliceOpts{Stop: p.storeStop("LastMsgID")}) {
					if !p.ofStore(o.V, "LastMsgID") {
						return false
					}
				}
				return true
			}), func(cond ssa.Value, pol bool, c *Ctx) bool {
				return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
					_, _, ok := p.loadOf(a, c, "soju.user", "msgStore")
					return ok && isNilConst(b)
				})
			})
			at := p.avoided(ins, returnsOf(fn), e, nil)
			if at != nil {
				if _, reach := p.reachInstr(ins, nil, e.cut()); !reach {
					at = nil // before
				}
			}
			r.Check(at == nil, "detach-mark", p.fnID(fn), "%s: a channel is detached without remembering where its history stands (%s)", p.at(ins), p.at(at))
			return
		}
		// attaching: the replay starts at the mark as it was
		e := p.effectsMay(func(i ssa.Instruction, c *Ctx) bool {
			ci, ok := i.(*ssa.Call)
			if !ok || p.calleeName(ci) != "soju.downstreamConn.sendTargetBacklog" {
				return false
			}
			args := callArgs(ci)
			for _, o := range p.origins(args[len(args)-1], c, sliceOpts{}) {
				_, _, is := p.loadOf(o.V, o.Ctx, "database.Channel", "DetachedInternalMsgID")
				if !is {
					return false
				}
				ld, isIns := o.V.(ssa.Instruction)
				if !isIns {
					return false
				}
				for _, b := range fn.Blocks {
					for _, x := range b.Instrs {
						if p.storesField("database.Channel", "DetachedInternalMsgID", nil)(x, nil) && (ld.Parent() != fn || !before(ld, x)) {
							return false
						}
					}
				}
			}
			return true
		}, p.calls(nil, "soju.downstreamConn.sendTargetBacklog"), func(cond ssa.Value, pol bool, c *Ctx) bool {
			return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
				s, ok := constString(b)
				return ok && s == ""
			})
		})
		at := p.avoided(ins, returnsOf(fn), e, nil)
		r.Check(at == nil, "detach-mark", p.fnID(fn), "%s: a channel is attached without replaying what was said since it was detached (%s)", p.at(ins), p.at(at))
	})

	// fast-forwarding
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if !strings.HasSuffix(name, "deliveredStore.StoreID") {
			return
		}
		args := callArgs(ci)
		last := false
		for _, o := range p.origins(args[3], nil, sliceOpts{Stop: p.storeStop("LastMsgID")}) {
			if p.ofStore(o.V, "LastMsgID") {
				last = true
			}
		}
		if recvName2(topFn(fn)) != "downstreamConn" {
			return
		}
		if !last {
			pong := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
				return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
					s, ok := constString(b)
					_, _, is := p.loadOf(a, c, ircMessage, "Command")
					return ok && is && s == "PONG"
				})
			}}
			un := p.Unguarded(ci, fixed(pong), GuardOpts{MaxDepth: 5})
			msg := ""
			if len(un) > 0 {
				msg = p.chainString(un[0])
			}
			r.Check(len(un) == 0, "receipt", p.fnID(fn), "%s: a message counts as received although the client did not acknowledge it: %s", p.at(ci), msg)
			return
		}
		e := p.effects(p.calls(nil, "soju.downstreamConn.sendTargetBacklog"), nil)
		un := p.Unguarded(ci, fixed(e.cut()), GuardOpts{MaxDepth: 2})
		r.Check(len(un) == 0, "backlog", p.fnID(fn), "%s: a client is marked as up to date although its backlog was not sent", p.at(ci))
	})

	// the acknowledgement is asked for after the message
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if name != "soju.downstreamConn.sendPing" || len(callArgs(ci)) < 3 {
			return
		}
		sends := p.calls(nil, "soju.downstreamConn.SendMessage")
		p.eachInstr(func(f *ssa.Function, i ssa.Instruction) {
			if f == fn && sends(i, nil) {
				r.Check(before(i, ci), "receipt", p.fnID(fn)+":order", "%s: the acknowledgement of a message is asked for before the message is sent", p.at(ci))
			}
		})
	})

	// credentials
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if name != "soju.network.autoSaveSASLPlain" {
			return
		}
		key := p.fnID(fn)
		pass := callArgs(ci)[3]
		cut := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
			// a reply of the upstream server, or recognised credentials
			if _, ok := cond.(*ssa.Extract); ok && pol {
				return true
			}
			return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
				s, ok := constString(b)
				if !ok {
					return false
				}
				_, _, is := p.loadOf(a, c, ircMessage, "Command")
				return is && (s == "903" || s == "REGISTER" && recvName2(topFn(fn)) == "upstreamConn")
			})
		}}
		un := p.Unguarded(ci, fixed(cut), GuardOpts{MaxDepth: 2})
		r.Check(len(un) == 0, "credentials", key, "%s: credentials are remembered although nothing shows they are right", p.at(ci))
		_ = pass
	})
	if f := p.Func("soju.network.autoSaveSASLPlain"); f != nil {
		guard := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
			return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
				s, ok := constString(b)
				_, _, is := p.loadOf(a, c, "database.SASL", "Mechanism")
				return ok && is && (s == "" || s == "PLAIN")
			})
		}}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if call, ok := i.(*ssa.Call); ok && p.dbMutation(call) == "StoreNetwork" {
					_, reach := p.reachInstr(i, nil, guard)
					r.Check(!reach, "credentials", "other mechanisms", "%s: a password seen in passing can replace other credentials of the network", p.at(i))
				}
			}
		}
	}
	if f := p.Func("soju.parseNickServCredentials"); f != nil {
		// SET is only about the password
		set := func(cond ssa.Value, pol bool, c *Ctx) bool {
			a, b, op, ok := cmpFact(cond, pol)
			if !ok || op != token.EQL && op != token.NEQ {
				return false
			}
			if _, isk := constString(a); isk {
				a, b = b, a
			}
			k, isk := constString(b)
			if !isk || strings.ToUpper(k) != k || k == "" {
				return false
			}
			if w, _ := p.res(a, c); w != nil {
				if call, ok := w.(*ssa.Call); !ok || p.calleeName(call) != "strings.ToUpper" {
					return false
				}
			}
			return (op == token.EQL) != (k == "SET")
		}
		pw := func(cond ssa.Value, pol bool, c *Ctx) bool {
			if call, ok := cond.(*ssa.Call); ok && pol && p.calleeName(call) == "strings.EqualFold" {
				for _, a := range callArgs(call) {
					if s, ok := constString(a); ok && strings.EqualFold(s, "PASSWORD") {
						return true
					}
				}
			}
			return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
				s, ok := constString(b)
				return ok && strings.EqualFold(s, "PASSWORD")
			})
		}
		bad := ""
		for _, ret := range returnsOf(f) {
			rt := ret.(*ssa.Return)
			v := rt.Results[len(rt.Results)-1]
			if k, ok := constBool(v); ok && !k {
				continue
			}
			if _, reach := p.reachInstr(ret, nil, (&Cut{}).assuming(set, pw)); reach {
				bad = p.at(ret)
			}
		}
		r.Check(bad == "", "credentials", "NickServ SET", "%s: any setting sent to NickServ is taken for a password", bad)
	}
}

func topFn(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

func (p *Program) reachesAppend(f *ssa.Function) bool {
	if v, ok := p.appendMemo[f]; ok {
		return v
	}
	if p.appendMemo == nil {
		p.appendMemo = map[*ssa.Function]bool{}
	}
	p.appendMemo[f] = false
	res := false
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if p.isStoreCall(i, "Append") != nil {
				res = true
			}
			if ci, ok := i.(*ssa.Call); ok {
				if g := ci.Call.StaticCallee(); g != nil && p.inSoju(g) && p.reachesAppend(g) {
					res = true
				}
			}
		}
	}
	p.appendMemo[f] = res
	return res
}

func (p *Program) valAt(v ssa.Value) string {
	if i, ok := v.(ssa.Instruction); ok {
		return "(" + p.at(i) + ")"
	}
	return "(" + v.String() + ")"
}

// negCall: a call of the function (by suffix) is known to have returned false.
func (p *Program) negCall(cond ssa.Value, pol bool, suffix string, ok func(args []ssa.Value) bool) bool {
	if pol {
		return false
	}
	call, is := cond.(*ssa.Call)
	return is && strings.HasSuffix(p.calleeName(call), suffix) && ok(callArgs(call))
}

// attached: the channel is not detached, or there is none.
func (p *Program) attached(cond ssa.Value, pol bool, c *Ctx) bool {
	if _, _, ok := p.loadOf(cond, c, "database.Channel", "Detached"); ok {
		return !pol
	}
	return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
		w, _ := p.res(a, c)
		return isNilConst(b) && p.typeName(w.Type()) == "database.Channel"
	})
}

// notEcho: the message is not the client's own, or the client wants echoes.
func (p *Program) notEcho(cond ssa.Value, pol bool, c *Ctx) bool {
	if p.capOn(cond, pol, c, "soju.downstreamConn", "echo-message") {
		return true
	}
	if call, ok := cond.(*ssa.Call); ok && !pol && strings.HasSuffix(p.calleeName(call), "isOurNick") {
		return true
	}
	return eqFact(cond, pol, token.NEQ, func(a, b ssa.Value) bool {
		_, _, ok := p.loadOf(a, c, "soju.downstreamConn", "id")
		return ok
	}) || eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
		_, _, ok := p.loadOf(a, c, ircMessage, "Prefix")
		return ok && isNilConst(b)
	})
}

// capOn: cond says that a capability is enabled on a connection.
func (p *Program) capOn(cond ssa.Value, pol bool, c *Ctx, conn, name string) bool {
	return pol && p.isCapTest(cond, c, conn, name)
}

func (p *Program) capOff(cond ssa.Value, pol bool, c *Ctx, conn, name string) bool {
	return !pol && p.isCapTest(cond, c, conn, name)
}

func (p *Program) isCapTest(cond ssa.Value, c *Ctx, conn, name string) bool {
	w, wc := p.res(cond, c)
	call, ok := w.(*ssa.Call)
	if !ok || !strings.HasSuffix(p.calleeName(call), "CapRegistry.IsEnabled") {
		return false
	}
	args := callArgs(call)
	k, isk := constString(args[1])
	if !isk || k != name && name != "" {
		return false
	}
	recv, rc := p.res(args[0], wc)
	if fa, ok := recv.(*ssa.FieldAddr); ok {
		return p.isField(fa.X.Type(), fa.Field, conn, "caps")
	}
	_, _, is := p.loadOf(recv, rc, conn, "caps")
	return is
}

// fromConversation: a PRIVMSG, NOTICE or TAGMSG of a client, rebuilt: its
// command is that of the client's message and its parameters are new.
func (p *Program) fromConversation(v ssa.Value) bool {
	al, ok := mustRes(p, v).(*ssa.Alloc)
	if !ok || p.typeName(al.Type()) != ircMessage {
		return false
	}
	for _, ref := range *al.Referrers() {
		fa, ok := ref.(*ssa.FieldAddr)
		if !ok || fieldVar(fa.X.Type(), fa.Field).Name() != "Command" {
			continue
		}
		for _, rr := range *fa.Referrers() {
			st, ok := rr.(*ssa.Store)
			if !ok {
				continue
			}
			if _, _, is := p.loadOf(st.Val, nil, ircMessage, "Command"); is {
				// under PRIVMSG?
				return p.reachedUnder(al, "PRIVMSG")
			}
			if s, ok := constString(st.Val); ok && s == "PRIVMSG" {
				return true
			}
		}
	}
	return false
}

// reachedUnder: the instruction can run while handling the command.
func (p *Program) reachedUnder(ins ssa.Instruction, cmd string) bool {
	fn := ins.Parent()
	for _, q := range fn.Params {
		if p.typeName(q.Type()) == ircMessage {
			return p.reachableBlocks(fn, nil, (&Cut{}).assuming(p.commandIs(cmd, rootMsg(q))))[ins.Block()]
		}
	}
	return true
}

// namesChannel: a buffer is named after a channel: the name in the record of a
// channel, or the target of the message.
func (p *Program) namesChannel(v ssa.Value, c *Ctx, param bool) bool {
	any := false
	for _, o := range p.origins(v, c, sliceOpts{Up: true, Data: true, Through: func(n string, ci ssa.CallInstruction) []ssa.Value {
		if ci.Common().StaticCallee() == nil || strings.Contains(strings.ToLower(n), "casemap") {
			return callArgs(ci)
		}
		return nil
	}}) {
		if _, _, ok := p.loadOf(o.V, o.Ctx, "gopkg.in/irc.v4.Prefix", "Name"); ok {
			return false
		}
		if _, isk := o.V.(*ssa.Const); isk {
			continue
		}
		_, _, ok := p.loadOf(o.V, o.Ctx, "soju.upstreamChannel", "Name")
		if !ok {
			_, _, ok = p.loadOf(o.V, o.Ctx, "database.Channel", "Name")
		}
		if par, isPar := o.V.(*ssa.Parameter); !ok && isPar && par.Parent().Parent() != nil {
			ok = true // the key of an iteration over channels
		}
		if ok {
			any = true
		} else if !param {
			return false
		} else {
			any = true
		}
	}
	return any
}

// checkRenamed: where a network is replaced by an updated one, the store is told
// about a new name before the new one is started.
func (p *Program) checkRenamed(r *Report) {
	one := func(fn *ssa.Function, name string) (out *ssa.Call) {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if call, ok := i.(*ssa.Call); ok && p.calleeName(call) == name {
					out = call
				}
			}
		}
		return out
	}
	for _, fn := range p.Funcs {
		if !p.inSoju(fn) {
			continue
		}
		rm, add := one(fn, "soju.user.removeNetwork"), one(fn, "soju.user.addNetwork")
		if rm == nil || add == nil {
			continue
		}
		old, added := mustResC(p, callArgs(rm)[1], nil), mustResC(p, callArgs(add)[1], nil)
		of := func(v ssa.Value, c *Ctx, net ssa.Value) bool {
			w, _ := p.res(v, c)
			fa, ok := w.(*ssa.FieldAddr)
			return ok && mustResC(p, fa.X, c) == net
		}
		renames := func(i ssa.Instruction, c *Ctx) bool {
			ci, ok := i.(*ssa.Call)
			if !ok || !strings.HasSuffix(p.calleeName(ci), ".RenameNetwork") {
				return false
			}
			a := callArgs(ci)
			return of(a[len(a)-2], c, old) && of(a[len(a)-1], c, added)
		}
		e := p.effects(renames, func(cond ssa.Value, pol bool, c *Ctx) bool {
			w, wc := p.res(cond, c)
			if ex, ok := w.(*ssa.Extract); ok && ex.Index == 1 && !pol {
				if ta, ok := ex.Tuple.(*ssa.TypeAssert); ok {
					_, _, is := p.loadOf(ta.X, wc, "soju.user", "msgStore")
					return is
				}
			}
			return eqFact(w, pol, token.EQL, func(a, b ssa.Value) bool {
				if _, _, ok := p.loadOf(a, wc, "soju.user", "msgStore"); ok && isNilConst(b) {
					return true
				}
				return p.isGetName(a, wc) && p.isGetName(b, wc)
			})
		})
		_, reach := p.reachInstr(add, nil, e.cut())
		r.Check(!reach, "renamed", p.fnID(fn), "%s: an updated network is started although the history was not moved to its new name", p.at(add))
	}
}
