package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{ID: "C25", Explanation: "For every message of an upstream server that changes what the bouncer knows, the handler is searched for a way to accept it without the matching change, assuming the command and whose nickname is meant; names, members and channels are traced to the parameter of the message they come from.",
		Assumptions: []string{"a loop over a collection reaches every element if it only ends at its header", "CaseMappingMap.ForEach calls its function for every entry"},
		Run:         runC25})
}

const (
	ircPrefix = "gopkg.in/irc.v4.Prefix"
	upConn    = "soju.upstreamConn"
	upChan    = "soju.upstreamChannel"
	upUser    = "soju.upstreamUser"
)

// stateRun: the handling of one command of an upstream server.
type stateRun struct {
	p      *Program
	root   *ssa.Function
	msg    *ssa.Parameter
	cmd    string
	assume func(cond ssa.Value, pol bool, c *Ctx) bool
	memo   map[*ssa.Function]map[*ssa.BasicBlock]bool
}

func (p *Program) stateRun(root *ssa.Function, cmd string) *stateRun {
	par := p.isHandler(root, "upstreamConn")
	return &stateRun{p: p, root: root, msg: par, cmd: cmd, assume: p.commandIs(cmd, rootMsg(par)), memo: map[*ssa.Function]map[*ssa.BasicBlock]bool{}}
}

func (s *stateRun) reach(ins ssa.Instruction) bool {
	fn := ins.Parent()
	m, ok := s.memo[fn]
	if !ok {
		m = s.p.reachableBlocks(fn, nil, (&Cut{}).assuming(s.assume))
		s.memo[fn] = m
	}
	return m[ins.Block()]
}

// role: where a string comes from: "sender", "me" (our nickname), "pN" (the
// Nth parameter), "pN.." (the parameters from the Nth), "" for a constant, "?".
func (s *stateRun) role(v ssa.Value, c *Ctx) string { return keys(s.roles(v, c, map[ssa.Value]bool{})) }

func (s *stateRun) roles(v ssa.Value, c *Ctx, seen map[ssa.Value]bool) map[string]bool {
	p := s.p
	out := map[string]bool{}
	v, c = p.res(v, c)
	if seen[v] {
		return out
	}
	seen[v] = true
	add := func(w ssa.Value, wc *Ctx) {
		for k := range s.roles(w, wc, seen) {
			out[k] = true
		}
	}
	if base, bc, ok := p.loadOf(v, c, ircPrefix, "Name"); ok {
		if _, _, is := p.loadOf(base, bc, ircMessage, "Prefix"); is {
			out["sender"] = true
		} else {
			out["?"] = true
		}
		return out
	}
	if _, _, ok := p.loadOf(v, c, upConn, "nick"); ok {
		out["me"] = true
		return out
	}
	if base, bc, ok := p.loadOf(v, c, upChan, "Name"); ok {
		if k, _, _ := s.channel(base, bc); k != "" {
			out[k] = true
			return out
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
		return out
	case *ssa.Phi:
		for _, e := range x.Edges {
			add(e, c)
		}
		return out
	case *ssa.Slice:
		if _, _, is := p.loadOf(x.X, c, ircMessage, "Params"); is && x.Low != nil {
			if k, isk := constInt(x.Low); isk {
				out["p"+itoa(int(k))+".."] = true
				return out
			}
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok && s.through(call) {
			for _, a := range callArgs(call) {
				if isString(a.Type()) {
					add(a, c)
				}
			}
			return out
		}
	case *ssa.Call:
		if s.through(x) {
			for _, a := range callArgs(x) {
				if isString(a.Type()) {
					add(a, c)
				}
			}
			return out
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			break
		}
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			base, bc := p.res(ia.X, c)
			if _, _, is := p.loadOf(base, bc, ircMessage, "Params"); is {
				if k, isk := constInt(ia.Index); isk {
					out["p"+itoa(int(k))] = true
					return out
				}
			}
			if call, ok := base.(*ssa.Call); ok && s.through(call) {
				add(callArgs(call)[0], bc)
				return out
			}
		}
		if at, ok := p.addrOf(x.X, c); ok {
			n := 0
			for _, w := range s.writes(at) {
				if x.Parent() == w.ins.Parent() && !s.live(w.ins, x, s.writes(at)) {
					continue
				}
				n++
				if w.role != "" {
					out[w.role] = true
				} else {
					add(w.val, c)
				}
			}
			if n > 0 {
				return out
			}
		}
	}
	out["?"] = true
	return out
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// through: a function of its string arguments: splitting, trimming, folding.
func (s *stateRun) through(call *ssa.Call) bool {
	n := s.p.calleeName(call)
	if call.Call.StaticCallee() == nil {
		return strings.Contains(s.p.typeName(call.Call.Value.Type()), "CaseMapping")
	}
	for _, pre := range []string{"strings.Split", "strings.Fields", "strings.Trim", "strings.To"} {
		if strings.HasPrefix(n, pre) {
			return true
		}
	}
	f := call.Call.StaticCallee()
	return s.p.repoFn(f) && !strings.HasSuffix(n, ".Get")
}

// A write gives a variable the value of a parameter, or another.
type write struct {
	ins  ssa.Instruction
	role string
	val  ssa.Value
}

func (s *stateRun) writes(at addr) (out []write) {
	p := s.p
	for _, b := range at.al.Parent().Blocks {
		for _, ins := range b.Instrs {
			pc, ok := ins.(*ssa.Call)
			if !ok || !strings.HasSuffix(p.calleeName(pc), "parseMessageParams") || !s.reach(pc) {
				continue
			}
			el, ok := p.elems(callArgs(pc)[1], nil)
			if !ok {
				continue
			}
			for i, e := range el {
				if b, ok := p.addrOf(e.v, e.ctx); ok && b == at {
					out = append(out, write{pc, "p" + itoa(i), nil})
				}
			}
		}
	}
	for _, st := range p.allCellStores(at.al) {
		if b, ok := p.addrOf(st.Addr, nil); ok && b == at && s.reach(st) {
			out = append(out, write{st, "", st.Val})
		}
	}
	return
}

// live: what was written is read without another write in between.
func (s *stateRun) live(w, use ssa.Instruction, all []write) bool {
	cut := (&Cut{Instr: func(i ssa.Instruction, c *Ctx) bool {
		for _, o := range all {
			if o.ins == i && i != w {
				return true
			}
		}
		return false
	}}).assuming(s.assume)
	return s.p.searchAfter(w, use.Block(), indexOf(use), cut)
}

// channel: which channel an *upstreamChannel is: the role of the name it was
// looked up by, or "each" for the argument of an iteration.
func (s *stateRun) channel(v ssa.Value, c *Ctx) (string, ssa.Value, *Ctx) {
	p := s.p
	v, c = p.res(v, c)
	if ex, ok := v.(*ssa.Extract); ok && ex.Index == 0 {
		v = ex.Tuple
	}
	switch x := v.(type) {
	case *ssa.Call:
		args := callArgs(x)
		for i := len(args) - 1; i >= 0; i-- {
			if isString(args[i].Type()) {
				return s.role(args[i], c), v, c
			}
		}
	case *ssa.Parameter:
		if x.Parent().Parent() != nil {
			return "each", v, c
		}
	case *ssa.Phi:
		set := map[string]bool{}
		for _, e := range x.Edges {
			if isNilConst(e) {
				continue
			}
			k, _, _ := s.channel(e, c)
			set[k] = true
		}
		return keys(set), v, c
	}
	return "", v, c
}

// mapCall: a call of a method of a map held in a field: its key and value.
func (s *stateRun) mapCall(ins ssa.Instruction, typ, field, method string) (args []ssa.Value, base ssa.Value) {
	ci, ok := ins.(*ssa.Call)
	if !ok || !strings.HasSuffix(s.p.calleeName(ci), "CaseMappingMap."+method) {
		return nil, nil
	}
	a := callArgs(ci)
	r, _ := s.p.res(a[0], nil)
	fa, ok := r.(*ssa.FieldAddr)
	if !ok || !s.p.isField(fa.X.Type(), fa.Field, typ, field) {
		return nil, nil
	}
	return a[1:], fa.X
}

// isMe: cond compares a nickname with ours: its role.
func (s *stateRun) isMe(cond ssa.Value, c *Ctx) (role string, pos bool) {
	p := s.p
	w, wc := p.res(cond, c)
	pos = true
	if u, ok := w.(*ssa.UnOp); ok && u.Op == token.NOT {
		role, pos = s.isMe(u.X, wc)
		return role, !pos
	}
	var args []ssa.Value
	switch x := w.(type) {
	case *ssa.Call:
		n := p.calleeName(x)
		for _, a := range callArgs(x) {
			if isString(a.Type()) {
				args = append(args, a)
			}
		}
		if strings.HasSuffix(n, "isOurNick") && len(args) == 1 {
			return s.role(args[0], wc), true
		}
		if !strings.HasSuffix(n, "equalCasemap") && n != "strings.EqualFold" {
			return "", true
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ || !isString(x.X.Type()) {
			return "", true
		}
		args, pos = []ssa.Value{x.X, x.Y}, x.Op == token.EQL
	}
	if len(args) != 2 {
		return "", true
	}
	a, b := s.role(args[0], wc), s.role(args[1], wc)
	if a == "me" {
		return b, pos
	}
	if b == "me" {
		return a, pos
	}
	return "", true
}

// who assumes that the nickname in a role is (or is not) ours.
func (s *stateRun) who(role string, me bool) func(cond ssa.Value, pol bool, c *Ctx) bool {
	return func(cond ssa.Value, pol bool, c *Ctx) bool {
		r, pos := s.isMe(cond, c)
		return r == role && (pos == pol) != me
	}
}

// unknown: there is no such channel, member or user.
func (s *stateRun) unknown(cond ssa.Value, pol bool, c *Ctx) bool {
	p := s.p
	if p.negCall(cond, pol, "CaseMappingMap.Has", func(args []ssa.Value) bool {
		v, _ := p.res(args[0], c)
		fa, ok := v.(*ssa.FieldAddr)
		return ok && strings.HasPrefix(p.typeName(fa.X.Type()), "soju.upstream")
	}) {
		return true
	}
	return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
		if !isNilConst(b) {
			return false
		}
		w, _ := p.res(a, c)
		call, ok := w.(*ssa.Call)
		if !ok {
			return p.typeName(w.Type()) == upChan
		}
		return strings.HasSuffix(p.calleeName(call), "CaseMappingMap.Get") && p.typeName(w.Type()) != "database.Channel"
	})
}

func (s *stateRun) detached(cond ssa.Value, pol bool, c *Ctx) bool {
	_, _, ok := s.p.loadOf(cond, c, "database.Channel", "Detached")
	return ok && pol
}

func (s *stateRun) otherNetwork(cond ssa.Value, pol bool, c *Ctx) bool {
	return eqFact(cond, pol, token.NEQ, func(a, b ssa.Value) bool {
		_, _, ok := s.p.loadOf(a, c, "soju.downstreamConn", "network")
		return ok
	})
}

type assumption = func(cond ssa.Value, pol bool, c *Ctx) bool

// must: every way to accept the message has the effect.
func (s *stateRun) must(r *Report, rule, what string, direct effect, assume ...assumption) {
	all := append([]assumption{s.assume, s.unknown, s.otherNetwork}, assume...)
	e := s.p.effectsMay(direct, func(i ssa.Instruction, c *Ctx) bool { return weakly(s, direct, i) }, func(cond ssa.Value, pol bool, c *Ctx) bool {
		for _, a := range all {
			if a(cond, pol, c) {
				return true
			}
		}
		return false
	})
	at := ""
	if rets := s.p.nilReturns(s.root, e.cut()); len(rets) > 0 {
		at = p1(s.p, rets)
	}
	r.Check(at == "", rule, s.cmd+" "+what, "%s of an upstream server can be handled (%s) without the change it stands for: %s", s.cmd, at, what)
}

func p1(p *Program, rets []*ssa.Return) string { return p.at(rets[0]) }

// weakly: the effect without its context: any call, any store to a field.
func weakly(s *stateRun, direct effect, i ssa.Instruction) bool {
	if direct(i, nil) {
		return true
	}
	switch x := i.(type) {
	case *ssa.Store:
		fa, ok := x.Addr.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		t := s.p.typeName(fa.X.Type())
		return t == upConn || t == upChan || t == upUser
	case *ssa.Call:
		n := s.p.calleeName(x)
		return strings.Contains(n, "CaseMappingMap.") || n == "soju.downstreamConn.SendMessage" || strings.HasSuffix(n, "Apply") || strings.HasSuffix(n, "applyChannelModes")
	}
	return false
}

func runC25(p *Program, r *Report) {
	r.Rule("channel", "joining a channel records it; leaving it or being kicked forgets it, and nothing else does", 4)
	r.Rule("member", "members come and go with JOIN, PART, KICK, QUIT, NICK and the list of names", 6)
	r.Rule("topic", "the topic of a channel is what the server last said", 3)
	r.Rule("modes", "mode changes are applied to the channel or to us", 3)
	r.Rule("self", "our own nickname, real name and host are what the server last said, and clients are told", 3)
	r.Rule("told", "changes of other users are passed on to clients", 4)
	r.Rule("cache", "what is known about a user follows the server", 4)
	r.Rule("timer", "a channel that is left or detached has no pending detachment", 2)
	r.Rule("isupport", "a withdrawn feature is forgotten", 1)
	r.Rule("shown", "clients are shown the whole state of a channel", 2)

	for _, root := range p.handlerRoots("upstreamConn") {
		p.checkState(r, root)
	}
	p.checkIsupport(r)
	p.checkKinds(r)
	p.checkModes(r)
	p.checkShown(r)
	p.checkCache(r)
	p.checkTimers(r)
	p.checkForgotten(r)
}

// checkForgotten: whether a user is still visible is only asked after the
// user, or the channel, is gone: before, the answer is always yes.
func (p *Program) checkForgotten(r *Report) {
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if name != "soju.upstreamConn.shouldCacheUserInfo" {
			return
		}
		at := ""
		dels := func(i ssa.Instruction) {
			call, ok := i.(*ssa.Call)
			if !ok || !strings.HasSuffix(p.calleeName(call), "CaseMappingMap.Del") {
				return
			}
			v, _ := p.res(callArgs(call)[0], nil)
			if fa, ok := v.(*ssa.FieldAddr); ok && (p.isField(fa.X.Type(), fa.Field, upChan, "Members") || p.isField(fa.X.Type(), fa.Field, upConn, "channels") || p.isField(fa.X.Type(), fa.Field, upConn, "monitored")) {
				at = p.at(i)
			}
		}
		onwards(ci, dels)
		if out := p.outermost(ci); out != ssa.Instruction(ci) {
			onwards(out, dels)
		}
		r.Check(at == "", "cache", "decided in "+p.fnID(topFn(fn)), "%s: whether the user is still visible is decided before the user or channel is removed (%s): users who left are never forgotten", p.at(ci), at)
	})
}

func (p *Program) checkState(r *Report, root *ssa.Function) {
	run := func(cmd string) *stateRun { return p.stateRun(root, cmd) }
	// channels
	onMap := func(s *stateRun, typ, field, method, key, ch string) effect {
		return func(ins ssa.Instruction, c *Ctx) bool {
			args, base := s.mapCall(ins, typ, field, method)
			if args == nil || !matches(s.role(args[0], c), key) {
				return false
			}
			if typ == upChan {
				k, _, _ := s.channel(base, c)
				return matches(k, ch)
			}
			return true
		}
	}
	type del struct {
		cmd, who, ch string
	}
	s := run("JOIN")
	s.must(r, "channel", "a channel we joined is recorded", onMap(s, upConn, "channels", "Set", "p0", ""), s.who("sender", true))
	s.must(r, "member", "a user who joined is a member", onMap(s, upChan, "Members", "Set", "sender", "p0"), s.who("sender", false))
	for _, d := range []del{{"PART", "sender", "p0"}, {"KICK", "p1", "p0"}} {
		s := run(d.cmd)
		s.must(r, "channel", "a channel we left is forgotten", onMap(s, upConn, "channels", "Del", d.ch, ""), s.who(d.who, true))
		s.must(r, "member", "a user who left is no longer a member", onMap(s, upChan, "Members", "Del", d.who, d.ch), s.who(d.who, false))
		s.must(r, "cache", "a user who left is forgotten unless still visible", onMap(s, upConn, "users", "Del", d.who, ""), s.who(d.who, false), s.visible)
	}
	s = run("QUIT")
	s.must(r, "member", "a user who quit is no longer a member of any channel", onMap(s, upChan, "Members", "Del", "sender", "each"))
	s.must(r, "cache", "a user who quit is forgotten", onMap(s, upConn, "users", "Del", "sender", ""))
	s.must(r, "told", "passed on to clients", s.forwarded, s.who("sender", false))
	s = run("NICK")
	s.must(r, "member", "a renamed user is no longer a member under the old nickname", onMap(s, upChan, "Members", "Del", "sender", "each"))
	s.must(r, "member", "a renamed user is a member under the new nickname with the same status", func(ins ssa.Instruction, c *Ctx) bool {
		args, base := s.mapCall(ins, upChan, "Members", "Set")
		if args == nil || !matches(s.role(args[0], c), "p0") {
			return false
		}
		if k, _, _ := s.channel(base, c); !matches(k, "each") {
			return false
		}
		v, vc := p.res(args[1], c)
		call, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		ga, _ := s.mapCall(call, upChan, "Members", "Get")
		return ga != nil && matches(s.role(ga[0], vc), "sender")
	})
	s.must(r, "cache", "a user's nickname is updated", s.caches("sender", map[string]string{"Nickname": "p0"}))
	s.must(r, "told", "passed on to clients", s.forwarded, s.who("sender", false))
	s.must(r, "self", "our nickname is updated", s.sets("nick", "p0"), s.who("sender", true))
	s.must(r, "self", "clients are told of our nickname", s.each("updateNick"), s.who("sender", true))
	s = run("SETNAME")
	s.must(r, "cache", "a user's real name is updated", s.caches("sender", map[string]string{"Realname": "p0"}))
	s.must(r, "told", "passed on to clients", s.forwarded, s.who("sender", false))
	s.must(r, "self", "our real name is updated", s.sets("realname", "p0"), s.who("sender", true))
	s.must(r, "self", "clients are told of our real name", s.each("updateRealname"), s.who("sender", true))
	s = run("CHGHOST")
	s.must(r, "cache", "a user's name and host are updated", s.caches("sender", map[string]string{"Username": "p0", "Hostname": "p1"}))
	s.must(r, "told", "passed on to clients", s.forwarded, s.who("sender", false))
	s.must(r, "self", "our user name is updated", s.sets("username", "p0"), s.who("sender", true))
	s.must(r, "self", "our host is updated", s.sets("hostname", "p1"), s.who("sender", true))
	s.must(r, "self", "clients are told of our host", s.each("updateHost"), s.who("sender", true))
	s = run("ACCOUNT")
	s.must(r, "cache", "a user's account is updated", s.caches("sender", map[string]string{"Account": "p0"}))
	s.must(r, "told", "passed on to clients", s.forwarded)
	s = run("AWAY")
	s.must(r, "told", "passed on to clients", s.forwarded)
	s.must(r, "cache", "a user's flags are updated", s.caches("sender", map[string]string{"Flags": ""}), func(cond ssa.Value, pol bool, c *Ctx) bool {
		return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
			k, ok := constString(b)
			_, _, is := p.loadOf(a, c, upUser, "Flags")
			return ok && k == "" && is
		})
	})
	// topics
	topic := func(s *stateRun, ch, val string) effect {
		return p.storesField(upChan, "Topic", func(st *ssa.Store, fa *ssa.FieldAddr, c *Ctx) bool {
			if k, _, _ := s.channel(fa.X, c); !matches(k, ch) {
				return false
			}
			return s.role(st.Val, c) == val
		})
	}
	s = run("332")
	s.must(r, "topic", "the topic is the one given", topic(s, "p1", "p2"))
	s = run("331")
	s.must(r, "topic", "there is no topic", topic(s, "p1", ""))
	s = run("TOPIC")
	params := func(v ssa.Value, c *Ctx) bool { _, _, ok := p.loadOf(v, c, ircMessage, "Params"); return ok }
	s.must(r, "topic", "the topic is the one given", topic(s, "p0", "p1"), func(cond ssa.Value, pol bool, c *Ctx) bool {
		return p.lenFact(cond, !pol, c, params) == 2
	})
	s.must(r, "topic", "the topic is removed", topic(s, "p0", ""), func(cond ssa.Value, pol bool, c *Ctx) bool {
		return p.lenFact(cond, pol, c, params) >= 2
	})
	// modes
	apply := func(s *stateRun, ch, modes, args string) effect {
		return func(ins ssa.Instruction, c *Ctx) bool {
			call, ok := ins.(*ssa.Call)
			if !ok || !strings.HasSuffix(p.calleeName(call), "applyChannelModes") {
				return false
			}
			a := callArgs(call)
			k, _, _ := s.channel(a[0], c)
			return matches(k, ch) && s.role(a[1], c) == modes && s.role(a[2], c) == args
		}
	}
	user := func(s *stateRun, modes string) effect {
		return func(ins ssa.Instruction, c *Ctx) bool {
			call, ok := ins.(*ssa.Call)
			if !ok || !strings.HasSuffix(p.calleeName(call), "userModes.Apply") {
				return false
			}
			return s.role(callArgs(call)[1], c) == modes
		}
	}
	s = run("MODE")
	chanIs := func(want bool) assumption {
		return func(cond ssa.Value, pol bool, c *Ctx) bool {
			w, wc := p.res(cond, c)
			call, ok := w.(*ssa.Call)
			if !ok || !strings.HasSuffix(p.calleeName(call), "isChannel") {
				return false
			}
			args := callArgs(call)
			return s.role(args[len(args)-1], wc) == "p0" && pol != want
		}
	}
	s.must(r, "modes", "the modes of a channel are changed", apply(s, "p0", "p1", "p2.."), chanIs(true))
	s.must(r, "modes", "our modes are changed", user(s, "p1"), chanIs(false))
	s.must(r, "told", "a channel's mode change is passed on to clients", s.forwarded, chanIs(true), s.detached)
	s = run("324")
	s.must(r, "modes", "the modes of a channel are those given", apply(s, "p1", "p2", "p3.."))
	anew := func(typ string) effect {
		return p.storesField(typ, "modes", func(st *ssa.Store, fa *ssa.FieldAddr, c *Ctx) bool {
			_, _, old := p.loadOf(st.Val, c, typ, "modes")
			return !old
		})
	}
	s.must(r, "modes", "the modes of a channel are only those given", anew(upChan))
	s = run("221")
	s.must(r, "modes", "our modes are those given", user(s, "p1"))
	s.must(r, "modes", "our modes are only those given", anew(upConn))
	// names
	s = run("353")
	s.must(r, "member", "everyone listed is a member with the listed status", func(ins ssa.Instruction, c *Ctx) bool {
		args, base := s.mapCall(ins, upChan, "Members", "Set")
		if args == nil {
			return false
		}
		k, _, _ := s.channel(base, c)
		if !matches(k, "p2") || !matches(s.role(args[0], c), "p3") {
			return false
		}
		return s.ownStatus(ins, args, c)
	})
	s = run("366")
	s.must(r, "shown", "the names are complete", p.storesField(upChan, "complete", func(st *ssa.Store, fa *ssa.FieldAddr, c *Ctx) bool {
		k, ok := constBool(st.Val)
		return ok && k
	}))
	s.must(r, "shown", "clients are shown the channel", s.each("forwardChannel"), s.detached)

	// nothing else removes channels and members
	for _, d := range []del{{"JOIN", "sender", "p0"}, {"PART", "sender", "p0"}, {"KICK", "p1", "p0"}, {"QUIT", "sender", "each"}, {"NICK", "sender", "each"}, {"353", "", ""}, {"MODE", "", ""}, {"TOPIC", "", ""}} {
		s := run(d.cmd)
		others := func(cond ssa.Value, pol bool, c *Ctx) bool {
			return s.assume(cond, pol, c) || d.who != "" && s.who(d.who, false)(cond, pol, c)
		}
		bad := ""
		p.under(root, others, func(ci ssa.CallInstruction, c *Ctx) bool {
			for _, m := range []string{"Set", "Del"} {
				if args, _ := s.mapCall(ci, upConn, "channels", m); args != nil {
					bad = fmt.Sprintf("%s: our channels change although someone else is meant", p.at(ci))
				}
			}
			return true
		})
		p.under(root, s.assume, func(ci ssa.CallInstruction, c *Ctx) bool {
			if args, base := s.mapCall(ci, upChan, "Members", "Del"); args != nil {
				k, _, _ := s.channel(base, c)
				if d.cmd == "JOIN" || !matches(s.role(args[0], c), d.who) || !matches(k, d.ch) {
					bad = fmt.Sprintf("%s: the wrong member is removed", p.at(ci))
				}
			}
			if args, _ := s.mapCall(ci, upConn, "users", "Del"); args != nil {
				if k := s.role(args[0], c); k != "?" && !matches(k, d.who) {
					bad = fmt.Sprintf("%s: the wrong user is forgotten", p.at(ci))
				}
			}
			return true
		})
		r.Check(bad == "", "channel", d.cmd+" only", "%s", bad)
	}
	// a member whose nickname only changes in case stays
	s = run("NICK")
	p.under(root, s.assume, func(ci ssa.CallInstruction, c *Ctx) bool {
		if args, _ := s.mapCall(ci, upChan, "Members", "Set"); args != nil {
			at := ""
			for _, b := range ci.Parent().Blocks {
				for _, i := range b.Instrs {
					if del, _ := s.mapCall(i, upChan, "Members", "Del"); del != nil && p.searchAfter(ci, b, indexOf(i), &Cut{}) && !p.loops(ci) {
						at = p.at(i)
					}
				}
			}
			r.Check(at == "", "member", "NICK order", "%s: a member whose nickname only changes in case is removed", at)
		}
		return true
	})
	// our own names only change with messages about us
	for _, d := range []struct{ cmd, fields string }{{"NICK", "nick"}, {"SETNAME", "realname"}, {"CHGHOST", "username hostname"}} {
		s := run(d.cmd)
		p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
			st, ok := ins.(*ssa.Store)
			if !ok || topFn(fn) != root || !s.reach(ins) {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			f := fieldVar(fa.X.Type(), fa.Field)
			if p.typeName(fa.X.Type()) != upConn || f == nil || !strings.Contains(" "+d.fields+" ", " "+f.Name()+" ") {
				return
			}
			cut := (&Cut{}).assuming(s.assume, s.who("sender", false))
			_, reach := p.reachInstr(ins, nil, cut)
			for g := fn; reach && g.Parent() != nil; g = g.Parent() {
				made := false
				for _, b := range g.Parent().Blocks {
					for _, i := range b.Instrs {
						if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == g {
							_, m := p.reachInstr(mc, nil, cut)
							made = made || m
						}
					}
				}
				reach = made
			}
			r.Check(!reach, "self", d.cmd+" "+f.Name()+" only ours", "%s: someone else's %s changes ours", p.at(ins), d.cmd)
		})
	}
}

// matches: a role is the wanted one (or one of the wanted).
func matches(role, want string) bool { return role == want && role != "" }

// visible: the user is still of interest.
func (s *stateRun) visible(cond ssa.Value, pol bool, c *Ctx) bool {
	w, _ := s.p.res(cond, c)
	call, ok := w.(*ssa.Call)
	return ok && pol && strings.HasSuffix(s.p.calleeName(call), "shouldCacheUserInfo")
}

// forwarded: the message is sent to a client.
func (s *stateRun) forwarded(ins ssa.Instruction, c *Ctx) bool {
	call, ok := ins.(*ssa.Call)
	if !ok || s.p.calleeName(call) != "soju.downstreamConn.SendMessage" {
		return false
	}
	m, mc := s.p.res(callArgs(call)[2], c)
	if cp, ok := m.(*ssa.Call); ok && strings.HasSuffix(s.p.calleeName(cp), "Message.Copy") {
		m, _ = s.p.res(callArgs(cp)[0], mc)
	}
	return m == ssa.Value(s.msg)
}

// each: a function is called for a client.
func (s *stateRun) each(name string) effect {
	return func(ins ssa.Instruction, c *Ctx) bool {
		call, ok := ins.(*ssa.Call)
		return ok && strings.HasSuffix(s.p.calleeName(call), name)
	}
}

func (s *stateRun) sets(field, role string) effect {
	return s.p.storesField(upConn, field, func(st *ssa.Store, fa *ssa.FieldAddr, c *Ctx) bool {
		return s.role(st.Val, c) == role
	})
}

// caches: the fields of a user are updated.
func (s *stateRun) caches(who string, fields map[string]string) effect {
	return func(ins ssa.Instruction, c *Ctx) bool {
		call, ok := ins.(*ssa.Call)
		if !ok {
			return false
		}
		f := call.Call.StaticCallee()
		if f == nil || !s.p.repoFn(f) {
			return false
		}
		user, whom := false, false
		for _, a := range callArgs(call) {
			if isString(a.Type()) && s.role(a, c) == who {
				whom = true
			}
			v, vc := s.p.res(a, c)
			if al, ok := v.(*ssa.Alloc); ok && s.p.typeName(al.Type()) == upUser {
				lit := s.p.literal(al)
				user = true
				for f, role := range fields {
					if len(lit[f]) != 1 || role != "" && s.role(lit[f][0].Val, vc) != role {
						user = false
					}
				}
			}
		}
		return user && whom
	}
}

// ownStatus: the status given to a member is the one parsed with its name, and
// not shared with another member.
func (s *stateRun) ownStatus(ins ssa.Instruction, args []ssa.Value, c *Ctx) bool {
	p := s.p
	tuple := func(v ssa.Value) ssa.Value {
		w, _ := p.res(v, c)
		if ex, ok := w.(*ssa.Extract); ok {
			return ex.Tuple
		}
		return w
	}
	v, _ := p.res(args[1], c)
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return true
	}
	from := false
	for _, st := range p.allCellStores(al) {
		if tuple(st.Val) == tuple(args[0]) {
			from = true
		}
	}
	if !from {
		return false
	}
	for _, b := range ins.Parent().Blocks {
		body := p.loopBody(b)
		if body[ins.Block()] && al.Parent() == ins.Parent() && !body[al.Block()] {
			return false
		}
	}
	return true
}

func (p *Program) repoFn(f *ssa.Function) bool {
	f = topFn(f)
	if f.Origin() != nil {
		f = f.Origin()
	}
	return f.Pkg != nil && p.inRepo(f.Pkg.Pkg)
}

// checkIsupport: the names of withdrawn features have no minus sign, and their
// defaults are restored.
func (p *Program) checkIsupport(r *Report) {
	minus := func(want bool) assumption {
		return func(cond ssa.Value, pol bool, c *Ctx) bool {
			w, _ := p.res(cond, c)
			if ex, ok := w.(*ssa.Extract); ok && ex.Index == 1 {
				w = ex.Tuple
			}
			if call, ok := w.(*ssa.Call); ok {
				n := p.calleeName(call)
				if n == "strings.HasPrefix" || n == "strings.CutPrefix" {
					k, isk := constString(callArgs(call)[1])
					return isk && k == "-" && pol != want
				}
			}
			a, b, op, ok := cmpFact(cond, pol)
			if !ok || op != token.EQL && op != token.NEQ {
				return false
			}
			for i := 0; i < 2; i++ {
				if k, isk := constInt(b); isk && k == '-' {
					switch a.(type) {
					case *ssa.Lookup, *ssa.Index:
						return (op == token.EQL) != want
					}
				}
				a, b = b, a
			}
			return false
		}
	}
	cut := (&Cut{}).assuming(minus(true))
	strip := func(v ssa.Value) ssa.Value {
		for {
			w := mustRes(p, v)
			call, ok := w.(*ssa.Call)
			if !ok || !strings.HasPrefix(p.calleeName(call), "strings.To") {
				return w
			}
			v = callArgs(call)[0]
		}
	}
	var fns []*ssa.Function
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		call, ok := ins.(*ssa.Call)
		if !ok {
			return
		}
		bi, ok := call.Call.Value.(*ssa.Builtin)
		if !ok || bi.Name() != "delete" {
			return
		}
		if _, _, is := p.loadOf(call.Call.Args[0], nil, upConn, "isupport"); !is {
			return
		}
		fns = append(fns, fn)
		bad := ""
		for _, lf := range p.leaves(located{strip(call.Call.Args[1]), nil, ins}, nil) {
			if !p.leafOpen(&lf, ins, cut) {
				continue
			}
			if !p.withoutFirst(lf.v) {
				bad = p.valAt(lf.v)
			}
		}
		r.Check(bad == "", "isupport", "withdrawn in "+p.fnID(fn), "%s: the name of a withdrawn feature still has its minus sign (%s): it is never forgotten", p.at(ins), bad)
	})
	for _, d := range []struct{ word, field string }{{"CHANTYPES", "availableChannelTypes"}, {"CHANMODES", "availableChannelModes"}, {"PREFIX", "availableMemberships"}} {
		words := []string{"CASEMAPPING", "CHANMODES", "CHANTYPES", "STATUSMSG", "PREFIX"}
		for _, fn := range fns {
			cut := (&Cut{}).assuming(minus(true), oneOf(words, d.word))
			def, bad := false, ""
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					st, ok := ins.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok || !p.isField(fa.X.Type(), fa.Field, upConn, d.field) {
						continue
					}
					if _, reach := p.reachInstr(ins, nil, cut); !reach {
						continue
					}
					for _, lf := range p.leaves(located{st.Val, nil, st}, nil) {
						if !p.leafOpen(&lf, st, cut) {
							continue
						}
						u, ok := lf.v.(*ssa.UnOp)
						if ok && u.Op == token.MUL {
							if _, ok := u.X.(*ssa.Global); ok {
								def = true
								continue
							}
						}
						if k, ok := constString(lf.v); ok && k != "" {
							def = true
							continue
						}
						bad = p.at(ins)
					}
				}
			}
			r.Check(def && bad == "", "isupport", d.word+" withdrawn in "+p.fnID(fn), "the default of %s is not restored when the server withdraws it %s", d.word, bad)
		}
	}
}

// withoutFirst: a string without its first character.
func (p *Program) withoutFirst(v ssa.Value) bool {
	w := mustRes(p, v)
	if sl, ok := w.(*ssa.Slice); ok && sl.Low != nil {
		k, isk := constInt(sl.Low)
		return isk && k == 1
	}
	if ex, ok := w.(*ssa.Extract); ok && ex.Index == 0 {
		w = ex.Tuple
	}
	call, ok := w.(*ssa.Call)
	if !ok {
		return false
	}
	n := p.calleeName(call)
	return strings.HasPrefix(n, "strings.Trim") || n == "strings.CutPrefix"
}

// checkShown: what is sent to clients about a channel.
func (p *Program) checkShown(r *Report) {
	s := &stateRun{p: p, assume: func(ssa.Value, bool, *Ctx) bool { return false }}
	incomplete := func(cond ssa.Value, pol bool, c *Ctx) bool {
		if _, _, ok := p.loadOf(cond, c, upChan, "complete"); ok {
			return !pol
		}
		return s.detached(cond, pol, c) || s.unknown(cond, pol, c) || s.otherNetwork(cond, pol, c)
	}
	shows := p.effects(func(ins ssa.Instruction, c *Ctx) bool {
		call, ok := ins.(*ssa.Call)
		return ok && strings.HasSuffix(p.calleeName(call), "forwardChannel")
	}, incomplete)
	seen := map[*ssa.Function]bool{}
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if strings.HasSuffix(name, "GenerateNamesReply") {
			p.checkNames(r, fn, ci)
		}
		if !strings.HasSuffix(name, "forwardChannel") || seen[fn] {
			return
		}
		seen[fn] = true
		if fn.Parent() == nil {
			return
		}
		r.Check(shows.always(fn, nil), "shown", "channel in "+p.fnID(fn), "%s: a channel that is joined and attached is not always shown", p.at(ci))
	})
	for _, fn := range p.funcsNamed("forwardChannel") {
		names := p.effects(func(ins ssa.Instruction, c *Ctx) bool {
			call, ok := ins.(*ssa.Call)
			return ok && strings.HasSuffix(p.calleeName(call), "GenerateNamesReply")
		}, func(cond ssa.Value, pol bool, c *Ctx) bool {
			return p.capOn(cond, pol, c, "soju.downstreamConn", "soju.im/no-implicit-names") || p.capOn(cond, pol, c, "soju.downstreamConn", "draft/no-implicit-names")
		})
		r.Check(names.always(fn, nil), "shown", "names in "+p.fnID(fn), "%s: the names of a channel are not always sent", p.fnID(fn))
		topic := p.effects(func(ins ssa.Instruction, c *Ctx) bool {
			call, ok := ins.(*ssa.Call)
			if !ok || p.calleeName(call) != "soju.downstreamConn.SendMessage" {
				return false
			}
			m, mc := p.res(callArgs(call)[2], c)
			cmd, _ := p.literalCommand(m)
			ps := p.literalField(m, "Params")
			if cmd != "332" || ps == nil {
				return false
			}
			el, ok := p.elems(ps, mc)
			if !ok || len(el) != 3 {
				return false
			}
			_, _, n := p.loadOf(el[1].v, mc, upChan, "Name")
			_, _, t := p.loadOf(el[2].v, mc, upChan, "Topic")
			return n && t
		}, func(cond ssa.Value, pol bool, c *Ctx) bool {
			return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
				k, ok := constString(b)
				_, _, is := p.loadOf(a, c, upChan, "Topic")
				return ok && k == "" && is
			})
		})
		r.Check(topic.always(fn, nil), "shown", "topic in "+p.fnID(fn), "%s: the topic of a channel is not always sent", p.fnID(fn))
	}
}

// checkNames: the list of names sent has all members.
func (p *Program) checkNames(r *Report, fn *ssa.Function, ci ssa.CallInstruction) {
	n := 0
	ok := true
	p.eachCall(func(g *ssa.Function, it ssa.CallInstruction, name string) {
		if g != fn || !strings.HasSuffix(name, "CaseMappingMap.ForEach") {
			return
		}
		r0, _ := p.res(callArgs(it)[0], nil)
		fa, is := r0.(*ssa.FieldAddr)
		if !is || !p.isField(fa.X.Type(), fa.Field, upChan, "Members") {
			return
		}
		for _, f := range p.resolveValue(callArgs(it)[1], 0) {
			n++
			e := p.effects(func(ins ssa.Instruction, c *Ctx) bool {
				call, ok := ins.(*ssa.Call)
				if !ok {
					return false
				}
				bi, ok := call.Call.Value.(*ssa.Builtin)
				return ok && bi.Name() == "append" && call.Parent() == f
			}, nil)
			ok = ok && e.always(f, nil)
		}
	})
	r.Check(n > 0 && ok, "shown", "members in "+p.fnID(fn), "%s: the list of names sent to clients does not have every member of the channel", p.at(ci))
}

// checkCache: the record of a user is updated field by field and kept under
// the user's nickname.
func (p *Program) checkCache(r *Report) {
	for _, fn := range p.Funcs {
		if recvName2(fn) != "upstreamUser" || len(fn.Params) != 2 || p.typeName(fn.Params[1].Type()) != upUser || fn.Signature.Results().Len() > 0 {
			continue
		}
		st := fn.Params[1].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i).Name()
			e := p.effectsMay(func(ins ssa.Instruction, c *Ctx) bool {
				s, ok := ins.(*ssa.Store)
				if !ok {
					return false
				}
				a, ac := p.res(s.Addr, c)
				fa, ok := a.(*ssa.FieldAddr)
				if !ok || !p.isField(fa.X.Type(), fa.Field, upUser, f) {
					return false
				}
				v, vc := p.res(s.Val, c)
				b, _, ok := p.loadOf(v, vc, upUser, f)
				t, _ := p.res(fa.X, ac)
				return ok && b == ssa.Value(fn.Params[1]) && t == ssa.Value(fn.Params[0])
			}, func(ins ssa.Instruction, c *Ctx) bool {
				s, ok := ins.(*ssa.Store)
				return ok && isString(s.Val.Type())
			}, func(cond ssa.Value, pol bool, c *Ctx) bool {
				return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
					k, ok := constString(b)
					a, ac := p.res(a, c)
					base, _, is := p.loadOf(a, ac, upUser, f)
					return ok && k == "" && is && base == ssa.Value(fn.Params[1])
				})
			})
			r.Check(e.always(fn, nil), "cache", f+" in "+p.fnID(fn), "%s: a new value of %s of a user is not always taken over", p.fnID(fn), f)
		}
	}
	s := &stateRun{p: p}
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		args, _ := s.mapCall(ins, upConn, "users", "Set")
		if args == nil {
			return
		}
		v, _ := p.res(args[1], nil)
		call, ok := v.(*ssa.Call)
		if !ok {
			return
		}
		get, _ := s.mapCall(call, upConn, "users", "Get")
		if get == nil {
			return
		}
		e := p.effects(func(i ssa.Instruction, c *Ctx) bool {
			del, _ := s.mapCall(i, upConn, "users", "Del")
			return del != nil && p.sameExpr(mustRes(p, del[0]), nil, mustRes(p, get[0]), nil, 0)
		}, nil)
		_, before := p.reachInstr(ins, nil, e.cut())
		after := p.avoided(ins, returnsOf(fn), e, nil)
		r.Check(!before || after == nil, "cache", "renamed in "+p.fnID(fn), "%s: a renamed user is also kept under the old nickname", p.at(ins))
	})
}

// checkTimers: the pending detachment of a channel ends with it.
func (p *Program) checkTimers(r *Report) {
	s := &stateRun{p: p}
	stopped := p.effects(func(ins ssa.Instruction, c *Ctx) bool {
		call, ok := ins.(*ssa.Call)
		if !ok {
			return false
		}
		n := p.calleeName(call)
		if n == "time.Timer.Stop" {
			_, _, is := p.loadOf(callArgs(call)[0], c, upChan, "detachTimer")
			return is
		}
		if !strings.HasSuffix(n, "updateAutoDetach") {
			return false
		}
		k, isk := constInt(callArgs(call)[1])
		return isk && k == 0
	}, func(cond ssa.Value, pol bool, c *Ctx) bool {
		return s.unknown(cond, pol, c) || eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
			if !isNilConst(b) {
				return false
			}
			_, _, t := p.loadOf(a, c, upChan, "detachTimer")
			_, _, n := p.loadOf(a, c, "soju.network", "conn")
			return t || n
		})
	})
	check := func(ins ssa.Instruction, what string) {
		fn := ins.Parent()
		_, before := p.reachInstr(ins, nil, stopped.cut())
		after := p.afterwards(ins, stopped, 0)
		r.Check(!before || after == nil, "timer", what+" in "+p.fnID(fn), "%s: the pending detachment of a channel survives when %s", p.at(ins), what)
	}
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		if args, _ := s.mapCall(ins, upConn, "channels", "Del"); args != nil {
			check(ins, "it is left")
		}
		st, ok := ins.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		if p.isField(fa.X.Type(), fa.Field, "database.Channel", "Detached") && recvName2(topFn(fn)) == "network" {
			if k, isk := constBool(st.Val); isk && k {
				check(ins, "it is detached")
			}
		}
		if p.isField(fa.X.Type(), fa.Field, upChan, "detachTimer") && !isNilConst(st.Val) {
			_, before := p.reachInstr(ins, nil, stopped.cut())
			r.Check(!before, "timer", "replaced in "+p.fnID(fn), "%s: a pending detachment is replaced without being stopped", p.at(ins))
		}
	})
}

// loops: the instruction is in a loop.
func (p *Program) loops(ins ssa.Instruction) bool {
	for _, b := range ins.Parent().Blocks {
		if p.loopBody(b)[ins.Block()] {
			return true
		}
	}
	return false
}

// checkKinds: how the lists of modes and statuses that the server announces
// are read.
func (p *Program) checkKinds(r *Report) {
	// one argument list per kind, in order
	kind := func(name string) (int64, bool) {
		k, ok := p.ByPkg[""].Pkg.Scope().Lookup(name).(*types.Const)
		if !ok {
			return 0, false
		}
		return constant.Int64Val(k.Val())
	}
	var want []int64
	for _, n := range []string{"modeTypeA", "modeTypeB", "modeTypeC", "modeTypeD"} {
		if k, ok := kind(n); ok {
			want = append(want, k)
		}
	}
	// behind: v lies, or is taken, behind a position found in a string
	var found func(v ssa.Value, d int) bool
	found = func(v ssa.Value, d int) bool {
		if d > 6 {
			return false
		}
		switch x := mustRes(p, v).(type) {
		case *ssa.BinOp:
			return found(x.X, d+1) || found(x.Y, d+1)
		case *ssa.Convert:
			return found(x.X, d+1)
		case *ssa.Call:
			n := p.calleeName(x)
			return strings.HasPrefix(n, "strings.Index") || strings.HasPrefix(n, "strings.LastIndex")
		}
		return false
	}
	var behind func(v ssa.Value, d int) bool
	behind = func(v ssa.Value, d int) bool {
		if d > 6 {
			return false
		}
		switch x := mustRes(p, v).(type) {
		case *ssa.Slice:
			return x.Low != nil && found(x.Low, 0) || behind(x.X, d+1)
		case *ssa.Lookup:
			return found(x.Index, 0) || behind(x.X, d+1)
		case *ssa.Index:
			return found(x.Index, 0) || behind(x.X, d+1)
		case *ssa.Convert:
			return behind(x.X, d+1)
		case *ssa.Extract:
			if call, ok := x.Tuple.(*ssa.Call); ok && p.calleeName(call) == "strings.Cut" {
				return x.Index == 1
			}
		}
		return false
	}
	text := func(v ssa.Value) bool {
		switch mustRes(p, v).(type) {
		case *ssa.Lookup, *ssa.Index:
			return true
		}
		return false
	}
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		if !p.inSoju(fn) {
			return
		}
		switch x := ins.(type) {
		case *ssa.Alloc:
			at, ok := types.Unalias(x.Type().(*types.Pointer).Elem()).Underlying().(*types.Array)
			if !ok || at.Len() != 4 || len(want) != 4 || p.typeName(at.Elem()) != "soju.channelModeType" {
				return
			}
			order := true
			for _, ref := range *x.Referrers() {
				ia, ok := ref.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				i, isk := constInt(ia.Index)
				for _, rr := range *ia.Referrers() {
					if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(ia) && isk {
						if k, ok := constInt(st.Val); ok && k != want[i] {
							order = false
						}
					}
				}
			}
			r.Check(order, "modes", "kinds in "+p.fnID(fn), "%s: the kinds of modes are not taken in the order in which servers announce them", p.at(x))
		case *ssa.Store:
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if !ok || p.typeName(fa.X.Type()) != "xirc.Membership" || !text(x.Val) {
				return
			}
			switch fieldVar(fa.X.Type(), fa.Field).Name() {
			case "Mode":
				r.Check(!behind(x.Val, 0), "member", "mode letters in "+p.fnID(fn), "%s: the letter of a membership mode is taken from the prefixes", p.at(x))
			case "Prefix":
				r.Check(behind(x.Val, 0), "member", "prefixes in "+p.fnID(fn), "%s: the prefix of a membership is taken from the mode letters", p.at(x))
			}
		case *ssa.Call:
			if p.calleeName(x) != "builtin.append" || !strings.HasSuffix(x.Type().String(), "xirc.MembershipSet") {
				return
			}
			res := fn.Signature.Results()
			if res.Len() != 2 || !isString(res.At(1).Type()) {
				return
			}
			r.Check(p.loops(x), "member", "every prefix in "+p.fnID(fn), "%s: only one of the prefixes of a member is read", p.at(x))
		}
	})
}
