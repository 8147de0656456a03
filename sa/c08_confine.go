package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{ID: "C08", Explanation: "Every goroutine of the program is enumerated from go statements, timer and other asynchronous callbacks, and entry points; functions reachable from each without crossing into another goroutine are computed. Accesses to state owned by a user's goroutine must only be reachable from the loop that receives that user's events.",
		Assumptions: []string{"state is identified by type and field; different instances are told apart only when the object is newly created in the accessing function",
			"callbacks passed to sort, strings, slices and iteration helpers run synchronously; other callbacks passed to library code run on another goroutine",
			"service commands run from the administration socket have no user object and reach user state only through C03's rule on foreign users"},
		Run: runC08})
}

// ownedFields: state that belongs to the goroutine of a user.
var ownedFields = map[string][]string{
	"soju.user":    {"networks", "downstreamConns"},
	"soju.network": {"conn", "channels", "delivered", "pushTargets", "lastError", "casemap"},
}

// syncCallback: library functions that call a function argument before they return.
func syncCallback(name string) bool {
	for _, pre := range []string{"sort.", "strings.", "slices.", "maps.", "bytes.", "sync.Once", "path/filepath.Walk", "io/fs.Walk", "flag."} {
		if strings.HasPrefix(name, pre) {
			return true
		}
	}
	return false
}

type gRoot struct {
	fn   *ssa.Function
	site ssa.Instruction // nil for an entry point
	name string
}

// goroutineRoots: the functions goroutines start in.
func (p *Program) goroutineRoots() []gRoot {
	var out []gRoot
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function, site ssa.Instruction, name string) {
		if f == nil || f.Blocks == nil || seen[f] {
			return
		}
		seen[f] = true
		out = append(out, gRoot{f, site, name})
	}
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		if g, ok := ins.(*ssa.Go); ok {
			for _, c := range p.callees[g] {
				add(c, ins, "goroutine started at "+p.at(ins))
			}
			return
		}
		ci, ok := ins.(ssa.CallInstruction)
		if !ok {
			return
		}
		if len(p.callees[ci]) > 0 || syncCallback(p.calleeName(ci)) {
			return
		}
		for _, a := range ci.Common().Args {
			if _, ok := a.Type().Underlying().(*types.Signature); !ok {
				continue
			}
			switch a.(type) {
			case *ssa.MakeClosure, *ssa.Function:
			default:
				continue
			}
			for _, c := range p.resolveValue(a, 0) {
				add(c, ins, "callback registered at "+p.at(ins))
			}
		}
	})
	for _, fn := range p.Funcs {
		if fn.Parent() != nil {
			continue
		}
		if fn.Name() == "main" && fn.Pkg != nil && fn.Pkg.Pkg.Name() == "main" {
			add(fn, nil, p.fnID(fn))
		}
		if fn.Signature.Recv() != nil && p.pkgOf(fn) == "soju" && fn.Object() != nil && fn.Object().Exported() && recvName(fn.Signature.Recv().Type()) == "Server" {
			add(fn, nil, "Server."+p.fname(fn))
		}
	}
	return out
}

// isEventLoop: the function receives the events of a user.
func (p *Program) isEventLoop(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			var ch ssa.Value
			switch x := ins.(type) {
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					ch = x.X
				}
			case *ssa.Select:
				for _, st := range x.States {
					if st.Dir == types.RecvOnly && p.isUserEvents(st.Chan) {
						return true
					}
				}
			}
			if ch != nil && p.isUserEvents(ch) {
				return true
			}
		}
	}
	return false
}

func (p *Program) isUserEvents(v ssa.Value) bool {
	_, _, ok := p.loadOf(v, nil, "soju.user", "events")
	return ok
}

// sameGoroutine: the functions a function may run before it returns, without
// what it starts elsewhere. cross reports whether to follow a call.
func (p *Program) sameGoroutine(fn *ssa.Function, cross func(ci ssa.CallInstruction) bool) (out []*ssa.Function, via map[*ssa.Function]ssa.Instruction) {
	via = map[*ssa.Function]ssa.Instruction{}
	add := func(f *ssa.Function, at ssa.Instruction) {
		if f != nil && via[f] == nil {
			via[f] = at
			out = append(out, f)
		}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Go:
				continue
			case ssa.CallInstruction:
				if cross != nil && !cross(x) {
					continue
				}
				c := x.Common()
				if exactCall(x) {
					for _, f := range p.callees[x] {
						add(f, ins)
					}
				} else if len(p.callees[x]) == 1 { // a local function variable
					add(p.callees[x][0], ins)
				}
				if len(p.callees[x]) == 0 && !syncCallback(p.calleeName(x)) {
					continue // callbacks given to libraries are their own goroutines
				}
				for _, a := range c.Args {
					if f, ok := a.(*ssa.Function); ok {
						if t := p.thunkTarget(f); t != nil {
							f = t
						}
						if f.Blocks != nil && p.inRepo(fnPkg(f)) {
							add(f, ins)
						}
					}
				}
			case *ssa.MakeClosure:
				if p.elsewhere(x) {
					continue
				}
				for _, f := range p.resolveValue(x, 0) {
					add(f, ins)
				}
			}
		}
	}
	return out, via
}

func (p *Program) readsPending(f *ssa.Function, d int) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if fa, ok := ins.(*ssa.FieldAddr); ok && p.isField(fa.X.Type(), fa.Field, "soju.upstreamConn", "pendingCmds") {
				return true
			}
			if c, ok := ins.(*ssa.Call); ok && d < 2 && exactCall(c) {
				for _, g := range p.callees[c] {
					if p.readsPending(g, d+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

// exactCall: the callee is named at the call (a function, closure or interface method).
func exactCall(ci ssa.CallInstruction) bool {
	c := ci.Common()
	if c.IsInvoke() {
		return true
	}
	switch c.Value.(type) {
	case *ssa.Function, *ssa.MakeClosure:
		return true
	}
	return false
}

// afterRegistration: the call is only made for a client session that is
// registered, and such sessions belong to the user's goroutine (the
// registering rule).
func (p *Program) afterRegistration(ci ssa.CallInstruction) bool {
	if r, ok := afterReg[ci]; ok {
		return r
	}
	r := p.afterRegistration1(ci)
	afterReg[ci] = r
	return r
}

var afterReg = map[ssa.CallInstruction]bool{}

func (p *Program) afterRegistration1(ci ssa.CallInstruction) bool {
	repo := false
	for _, c := range p.callees[ci] {
		repo = repo || c.Blocks != nil
	}
	if !repo {
		return false
	}
	// a command is only pending on an upstream connection that has been handed over
	pending := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
		return eqFact(cond, pol, token.NEQ, func(a, b ssa.Value) bool {
			if !isNilConst(b) {
				return false
			}
			v, _ := p.res(a, c)
			if ex, ok := v.(*ssa.Extract); ok {
				v = ex.Tuple
			}
			call, ok := v.(*ssa.Call)
			if !ok {
				return false
			}
			for _, f := range p.callees[call] {
				if p.readsPending(f, 0) {
					return true
				}
			}
			return false
		})
	}}
	cut := anyOf(p.fieldTrue("soju.downstreamConn", "registered", true, nil), pending)
	if _, reach := p.reachInstr(ci, nil, cut); reach {
		return false
	}
	return true
}

// elsewhere: every use of the closure hands it to another goroutine.
func (p *Program) elsewhere(mc *ssa.MakeClosure) bool {
	n := 0
	for _, r := range *mc.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.Go:
			n++
			continue
		case ssa.CallInstruction:
			if x.Common().Value != ssa.Value(mc) && len(p.callees[x]) == 0 && !syncCallback(p.calleeName(x)) {
				n++
				continue
			}
		}
		return false
	}
	return n > 0
}

// fresh: the object is created in this function (or, for a value handed down
// by every caller, not decided: false).
func fresh(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return fresh(x.X)
	case *ssa.IndexAddr:
		return fresh(x.X)
	}
	return false
}

// ownedAccess lists the accesses of fn to the given state.
func (p *Program) ownedAccess(fn *ssa.Function, owned map[string][]string) (out []*ssa.FieldAddr) {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			fa, ok := ins.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			for t, fs := range owned {
				for _, f := range fs {
					if p.isField(fa.X.Type(), fa.Field, t, f) && !fresh(fa.X) {
						out = append(out, fa)
					}
				}
			}
		}
	}
	return out
}

func (p *Program) noUserContext(ci ssa.CallInstruction) bool {
	for _, a := range ci.Common().Args {
		if p.typeName(a.Type()) != "soju.serviceContext" {
			continue
		}
		v, _ := p.res(a, nil)
		al, ok := v.(*ssa.Alloc)
		if !ok {
			return false
		}
		for _, r := range *al.Referrers() {
			if fa, ok := r.(*ssa.FieldAddr); ok && p.isField(fa.X.Type(), fa.Field, "soju.serviceContext", "user") {
				for _, u := range *fa.Referrers() {
					if st, ok := u.(*ssa.Store); ok && !isNilConst(st.Val) {
						return false
					}
				}
			}
		}
		return true
	}
	return false
}

func runC08(p *Program, r *Report) {
	r.Rule("confined", "a goroutine other than a user's own reaches no access to that user's networks, sessions, channels, delivery state or upstream connection", 8)
	r.Rule("handed-over", "after a connection has been handed to the user's goroutine, the goroutine that read it touches none of the state that handling messages changes", 2)
	r.Rule("registering", "a goroutine that handles messages of a client before registration handles none once the client is registered", 1)
	r.Rule("background", "a goroutine or timer started while handling events accesses no connection, network or user field that handling events changes", 2)
	r.Rule("records", "user and network records held in memory are only changed on the user's goroutine", 4)
	r.Rule("one-loop", "events of a user are received in one place", 1)

	loops := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		if p.isEventLoop(fn) {
			loops[fn] = true
		}
	}
	r.Check(len(loops) == 1, "one-loop", "user.events", "the events of a user are received in %d functions", len(loops))

	// what runs on a user's goroutine, and the fields it changes there
	loopReach := map[*ssa.Function]bool{}
	for l := range loops {
		q := []*ssa.Function{l}
		for len(q) > 0 {
			f := q[0]
			q = q[1:]
			if loopReach[f] {
				continue
			}
			loopReach[f] = true
			n, _ := p.sameGoroutine(f, nil)
			q = append(q, n...)
		}
	}
	mutable := map[*types.Var]ssa.Instruction{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fresh(fa.X) {
					continue
				}
				switch p.typeName(fa.X.Type()) {
				case "soju.upstreamConn", "soju.downstreamConn", "soju.upstreamChannel", "soju.network", "soju.user":
					if loopReach[fn] {
						mutable[fieldVar(fa.X.Type(), fa.Field)] = ins
					}
				}
			}
		}
	}
	owned := map[string][]string{}
	for t, fs := range ownedFields {
		owned[t] = append(owned[t], fs...)
	}
	for fv := range mutable {
		for _, t := range []string{"soju.user", "soju.network"} {
			if !fv.Embedded() && p.fieldOwner(fv, t) {
				owned[t] = append(owned[t], fv.Name())
			}
		}
	}
	type step struct {
		fn   *ssa.Function
		via  ssa.Instruction
		prev *step
	}
	chain := func(s *step) string {
		var parts []string
		for ; s != nil; s = s.prev {
			if s.via != nil {
				parts = append([]string{p.at(s.via)}, parts...)
			}
		}
		return strings.Join(parts, " -> ")
	}
	edge := func(s *step) string {
		fn := s.fn
		var l []ssa.Instruction
		for x := s; x != nil; x = x.prev {
			if x.via != nil {
				l = append([]ssa.Instruction{x.via}, l...)
			}
		}
		return p.entryEdge(fn, l)
	}
	for _, root := range p.goroutineRoots() {
		seen := map[*ssa.Function]bool{root.fn: true}
		queue := []*step{{fn: root.fn}}
		bad := map[string]*step{}
		what := map[string]ssa.Instruction{}
		wr := map[string]ssa.Instruction{}
		for len(queue) > 0 {
			s := queue[0]
			queue = queue[1:]
			if loops[s.fn] {
				continue
			}
			for _, fa := range p.ownedAccess(s.fn, owned) {
				k := edge(s)
				if bad[k] == nil {
					bad[k], what[k] = s, fa
				}
			}
			for _, b := range s.fn.Blocks {
				for _, ins := range b.Instrs {
					st, ok := ins.(*ssa.Store)
					if !ok || !p.recordStore(st) {
						continue
					}
					k := edge(s)
					if wr[k] == nil {
						wr[k] = st
						bad["w:"+k] = s
					}
				}
			}
			next, via := p.sameGoroutine(s.fn, func(ci ssa.CallInstruction) bool {
				return !p.noUserContext(ci) && !p.afterRegistration(ci)
			})
			for _, f := range next {
				if !seen[f] {
					seen[f] = true
					queue = append(queue, &step{f, via[f], s})
				}
			}
		}
		id := p.fnID(root.fn)
		n := 0
		for _, k := range sortedKeys(what) {
			fa := what[k].(*ssa.FieldAddr)
			n++
			key := id + " " + k
			if k == beforeReg {
				key = k
			}
			r.Bad("confined", key, "%s reaches %s (field %s) through %s", root.name, p.at(fa), fieldVar(fa.X.Type(), fa.Field).Name(), chain(bad[k]))
		}
		if n == 0 {
			r.Ok("confined", id)
		}
		for _, k := range sortedKeys(wr) {
			n++
			r.Bad("records", id+" "+k, "%s changes a user or network record at %s, through %s", root.name, p.at(wr[k]), chain(bad["w:"+k]))
		}
		if len(wr) == 0 {
			r.Ok("records", id)
		}
	}

	// handling before registration
	reg := p.fieldTrue("soju.downstreamConn", "registered", false, nil)
	var early func(ci ssa.CallInstruction, depth int, seen map[ssa.Instruction]bool)
	early = func(ci ssa.CallInstruction, depth int, seen map[ssa.Instruction]bool) {
		fn := ci.Parent()
		if seen[ci] || depth > 6 || loopReach[fn] {
			return
		}
		seen[ci] = true
		b, i := ci.Block(), indexOf(ci)
		if p.searchAfter(ci, b, i, &Cut{}) {
			bad := p.searchAfter(ci, b, i, reg)
			r.Check(!bad, "registering", p.fnID(fn), "%s: messages of a client that is already registered may be handled outside its user's goroutine", p.at(ci))
			return
		}
		for _, c := range p.callers[fn] {
			if c2, ok := c.(ssa.CallInstruction); ok {
				early(c2, depth+1, seen)
			}
		}
	}
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		ci, ok := ins.(ssa.CallInstruction)
		if !ok || isMessageHandler(p, fn) {
			return
		}
		for _, c := range p.callees[ci] {
			if isMessageHandler(p, c) && recvName2(c) == "downstreamConn" {
				early(ci, 0, map[ssa.Instruction]bool{})
			}
		}
	})

	// hand-over
	for _, root := range p.goroutineRoots() {
		if root.site == nil || !loopReach[root.site.Parent()] {
			continue
		}
		seen := map[*ssa.Function]bool{}
		var what *ssa.FieldAddr
		var path string
		var rec func(f *ssa.Function, pth string)
		rec = func(f *ssa.Function, pth string) {
			if seen[f] || loops[f] {
				return
			}
			seen[f] = true
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if fa, ok := ins.(*ssa.FieldAddr); ok && what == nil && !fresh(fa.X) && mutable[fieldVar(fa.X.Type(), fa.Field)] != nil && !identityOnly(fa) {
						what, path = fa, pth
					}
				}
			}
			next, _ := p.sameGoroutine(f, nil)
			for _, n := range next {
				rec(n, pth+" -> "+p.fnID(n))
			}
		}
		if p.startsUpstream(root.fn, 0) {
			continue // connects before it hands over: see confined and handed-over
		}
		rec(root.fn, p.fnID(root.fn))
		if what != nil {
			r.Bad("background", p.fnID(root.fn), "%s: %s accesses field %s, which the user's goroutine changes (e.g. at %s), through %s", p.at(what), root.name, fieldVar(what.X.Type(), what.Field).Name(), p.at(mutable[fieldVar(what.X.Type(), what.Field)]), path)
		} else {
			r.Ok("background", p.fnID(root.fn))
		}
	}
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		snd, ok := ins.(*ssa.Send)
		if !ok || !p.isEventChan(snd.Chan.Type()) {
			return
		}
		mi, ok := snd.X.(*ssa.MakeInterface)
		if !ok {
			return
		}
		en := p.typeName(mi.X.Type())
		if en != "soju.eventUpstreamConnected" && en != "soju.eventDownstreamConnected" {
			return
		}
		var what ssa.Instruction
		var chn string
		seen := map[*ssa.Function]bool{}
		var visit func(f *ssa.Function, only func(ssa.Instruction) bool, path string)
		visit = func(f *ssa.Function, only func(ssa.Instruction) bool, path string) {
			if loops[f] {
				return
			}
			for _, b := range f.Blocks {
				for _, i2 := range b.Instrs {
					if only != nil && !only(i2) {
						continue
					}
					if fa, ok := i2.(*ssa.FieldAddr); ok && !fresh(fa.X) && what == nil {
						if fv := fieldVar(fa.X.Type(), fa.Field); mutable[fv] != nil {
							what, chn = fa, path
						}
					}
					if ci, ok := i2.(ssa.CallInstruction); ok {
						if _, g := i2.(*ssa.Go); g {
							continue
						}
						if !exactCall(ci) {
							continue
						}
						for _, c := range p.callees[ci] {
							if !seen[c] && len(p.callees[ci]) == 1 {
								seen[c] = true
								visit(c, nil, path+" -> "+p.fnID(c))
							}
						}
					}
				}
			}
		}
		after := p.afterInstr(snd)
		visit(fn, func(i ssa.Instruction) bool { return after[i] }, p.fnID(fn))
		// deferred calls registered before the send run after it
		for _, b := range fn.Blocks {
			for _, i2 := range b.Instrs {
				if d, ok := i2.(*ssa.Defer); ok && !after[i2] && exactCall(d) {
					for _, c := range p.callees[d] {
						if !seen[c] {
							seen[c] = true
							visit(c, nil, p.fnID(fn)+" -> deferred "+p.fnID(c))
						}
					}
				}
			}
		}
		key := p.fnID(fn) + " " + strings.TrimPrefix(en, "soju.")
		if what != nil {
			fa := what.(*ssa.FieldAddr)
			r.Bad("handed-over", key, "%s: after the connection is handed over, %s still accesses field %s, which message handling changes (e.g. at %s)", p.at(what), chn, fieldVar(fa.X.Type(), fa.Field).Name(), p.at(mutable[fieldVar(fa.X.Type(), fa.Field)]))
		} else {
			r.Ok("handed-over", key)
		}
	})
}

// recordStore: a store into the database record of a live user or network.
func (p *Program) recordStore(st *ssa.Store) bool {
	a := st.Addr
	for {
		fa, ok := a.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		if fresh(fa.X) {
			return false
		}
		if p.isField(fa.X.Type(), fa.Field, "soju.user", "User") || p.isField(fa.X.Type(), fa.Field, "soju.network", "Network") {
			return true
		}
		a = fa.X
	}
}

// entryEdge names a chain by where it leaves the connection goroutine's own
// code: the last call made by a function that is not message handling.
func (p *Program) entryEdge(fn *ssa.Function, via []ssa.Instruction) string {
	for _, v := range via {
		ci, ok := v.(ssa.CallInstruction)
		if !ok {
			continue
		}
		for _, c := range p.callees[ci] {
			if isMessageHandler(p, c) && recvName2(c) == "upstreamConn" {
				cut := p.fieldTrue("soju.upstreamConn", "registered", false, nil)
				if len(p.Unguarded(v, fixed(cut), GuardOpts{})) == 0 {
					return beforeReg
				}
				return p.fnID(v.Parent()) + " -> " + p.fnID(c)
			}
		}
	}
	return "in " + p.fnID(fn)
}

const beforeReg = "upstream messages handled before registration"

// startsUpstream: the goroutine establishes upstream connections and hands them over.
func (p *Program) startsUpstream(f *ssa.Function, d int) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if mi, ok := ins.(*ssa.MakeInterface); ok && p.typeName(mi.X.Type()) == "soju.eventUpstreamConnected" {
				return true
			}
			if c, ok := ins.(*ssa.Call); ok && d < 3 && exactCall(c) {
				for _, g := range p.callees[c] {
					if p.startsUpstream(g, d+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

// identityOnly: only the unchanging identifier of an embedded record is read.
func identityOnly(fa *ssa.FieldAddr) bool {
	for _, r := range *fa.Referrers() {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		f2, ok := r.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		switch fieldVar(f2.X.Type(), f2.Field).Name() {
		case "ID", "Username":
		default:
			return false
		}
	}
	return true
}

func (p *Program) fieldOwner(fv *types.Var, typ string) bool {
	for _, pkg := range p.Pkgs {
		for _, n := range pkg.Types.Scope().Names() {
			tn, ok := pkg.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok || p.typeName(tn.Type()) != typ {
				continue
			}
			if st, ok := tn.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i) == fv {
						return true
					}
				}
			}
		}
	}
	return false
}

func recvName2(f *ssa.Function) string {
	if f.Signature.Recv() == nil {
		return ""
	}
	return recvName(f.Signature.Recv().Type())
}

// afterInstr: the instructions of the same function that may run after ins.
func (p *Program) afterInstr(ins ssa.Instruction) map[ssa.Instruction]bool {
	out := map[ssa.Instruction]bool{}
	b := ins.Block()
	i := indexOf(ins)
	for _, x := range b.Instrs[i+1:] {
		out[x] = true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock)
	rec = func(x *ssa.BasicBlock) {
		for _, s := range x.Succs {
			if seen[s] {
				continue
			}
			seen[s] = true
			for _, y := range s.Instrs {
				out[y] = true
			}
			rec(s)
		}
	}
	rec(b)
	return out
}

var _ = fmt.Sprint
var _ = sort.Strings
