package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{ID: "C10", Explanation: "A lock-state analysis follows every lock through all call chains (state per lock: free, read, write; deferred releases included) and checks accesses to guarded tables, re-locking, balance and waiting operations; every waiting operation reachable from a user's event loop must have an escape.",
		Assumptions: []string{"a lock is identified by the type and field holding it", "library calls other than the listed waiting ones return promptly (database calls included)"},
		Run:         runC10})
}

// guardedFields: shared tables and the lock that protects them.
var guardedFields = []struct{ typ, field, lock string }{
	{"soju.Server", "users", "soju.Server.lock"},
	{"soju.Server", "listeners", "soju.Server.lock"},
	{"soju.Server", "shutdown", "soju.Server.lock"},
	{"identd.Identd", "entries", "identd.Identd.lock"},
}

type lstate uint8 // set of possible states

const (
	lFree lstate = 1 << iota
	lRead
	lWrite
)

func (s lstate) String() string {
	var out []string
	if s&lFree != 0 {
		out = append(out, "free")
	}
	if s&lRead != 0 {
		out = append(out, "read-locked")
	}
	if s&lWrite != 0 {
		out = append(out, "locked")
	}
	return strings.Join(out, " or ")
}

// lockOp: the lock and operation of a call to a sync mutex.
func (p *Program) lockOp(c *ssa.CallCommon) (lock, op string) {
	f := c.StaticCallee()
	if f == nil || f.Pkg == nil && f.Object() == nil || len(c.Args) == 0 {
		return "", ""
	}
	o := f.Object()
	if o == nil || o.Pkg() == nil || o.Pkg().Path() != "sync" {
		return "", ""
	}
	switch p.fname(f) {
	case "Lock", "Unlock", "RLock", "RUnlock":
	default:
		return "", ""
	}
	v := c.Args[0]
	if fa, ok := v.(*ssa.FieldAddr); ok {
		return p.typeName(fa.X.Type()) + "." + fieldVar(fa.X.Type(), fa.Field).Name(), f.Name()
	}
	if g, ok := v.(*ssa.Global); ok {
		return p.pkgOf2(g.Pkg.Pkg) + "." + g.Name(), f.Name()
	}
	return "local " + v.Name() + " of " + v.Parent().String(), f.Name()
}

func (p *Program) pkgOf2(pkg *types.Package) string { return pkg.Name() }

type lockIssue struct {
	rule string
	at   ssa.Instruction
	msg  string
}

type lockAnalysis struct {
	p        *Program
	lock     string
	touches  map[*ssa.Function]bool
	entry    map[*ssa.Function]lstate
	summary  map[*ssa.Function]map[lstate]lstate
	busy     map[*ssa.Function]map[lstate]bool
	issues   map[ssa.Instruction]lockIssue
	held     func(ins ssa.Instruction, st lstate)
	work     []*ssa.Function
	dirty    map[*ssa.Function]bool
	changed  bool
	reported map[*ssa.Function]bool
}

func (a *lockAnalysis) bad(rule string, at ssa.Instruction, f string, args ...interface{}) {
	if _, ok := a.issues[at]; !ok {
		a.issues[at] = lockIssue{rule, at, fmt.Sprintf(f, args...)}
	}
}

func (a *lockAnalysis) apply(st lstate, op string, at ssa.Instruction, report bool) lstate {
	switch op {
	case "Lock":
		if report && st&(lRead|lWrite) != 0 {
			a.bad("relock", at, "takes %s, which may already be held here (%v): it would wait for itself", a.lock, st)
		}
		return lWrite
	case "RLock":
		if report && st&(lRead|lWrite) != 0 {
			a.bad("relock", at, "takes %s for reading, which may already be held here (%v)", a.lock, st)
		}
		return lRead
	case "Unlock":
		if report && st&(lFree|lRead) != 0 {
			a.bad("released", at, "releases %s, which may not be locked here (%v)", a.lock, st)
		}
		return lFree
	case "RUnlock":
		if report && st&(lFree|lWrite) != 0 {
			a.bad("released", at, "releases the read lock of %s, which may not be held here (%v)", a.lock, st)
		}
		return lFree
	}
	return st
}

// callEffect: the state after a call (deferred or not) made in state st.
func (a *lockAnalysis) callEffect(ci ssa.CallInstruction, st lstate, report bool) lstate {
	lock, op := a.p.lockOp(ci.Common())
	if op != "" {
		if lock == a.lock {
			return a.apply(st, op, ci, report)
		}
		return st
	}
	var fs []*ssa.Function
	fs = append(fs, a.p.dynCallees(ci)...)
	if len(fs) == 0 && syncCallback(a.p.calleeName(ci)) {
		for _, arg := range ci.Common().Args {
			if _, ok := arg.Type().Underlying().(*types.Signature); ok {
				fs = append(fs, a.p.resolveValue(arg, 0)...)
			}
		}
		for _, f := range fs {
			a.summarise(f, st)
		}
		return st
	}
	if len(fs) == 0 {
		return st
	}
	var out lstate
	for _, f := range fs {
		out |= a.summarise(f, st)
	}
	if out == 0 {
		return st
	}
	return out
}

// summarise analyses f entered in each state of st.
func (a *lockAnalysis) summarise(f *ssa.Function, st lstate) lstate {
	if f.Blocks == nil {
		return st
	}
	var out lstate
	for _, s := range []lstate{lFree, lRead, lWrite} {
		if st&s == 0 {
			continue
		}
		if r, ok := a.summary[f][s]; ok {
			out |= r
			continue
		}
		if a.busy[f][s] {
			out |= s
			continue
		}
		if a.busy[f] == nil {
			a.busy[f] = map[lstate]bool{}
			a.summary[f] = map[lstate]lstate{}
		}
		a.busy[f][s] = true
		r := a.run(f, s)
		a.busy[f][s] = false
		a.summary[f][s] = r
		out |= r
	}
	return out
}

type lpoint struct {
	st  lstate
	def string // deferred calls so far, innermost last (indexes of Defer instructions)
}

// run analyses f entered in state s and reports on its instructions.
func (a *lockAnalysis) run(f *ssa.Function, s lstate) lstate {
	if !a.touches[f] && s == lFree {
		return s // nothing to see
	}
	defers := map[string]*ssa.Defer{}
	type item struct {
		b  *ssa.BasicBlock
		pt lpoint
	}
	seen := map[item]bool{}
	queue := []item{{f.Blocks[0], lpoint{s, ""}}}
	var exit lstate
	var exits []ssa.Instruction
	exitAt := map[ssa.Instruction]lstate{}
	steps := 0
	for len(queue) > 0 && steps < 20000 {
		it := queue[0]
		queue = queue[1:]
		if seen[it] {
			continue
		}
		seen[it] = true
		steps++
		pt := it.pt
		for i, ins := range it.b.Instrs {
			if a.held != nil {
				a.held(ins, pt.st)
			}
			switch x := ins.(type) {
			case *ssa.Defer:
				k := fmt.Sprintf("%d.%d", it.b.Index, i)
				if a.relevant(x) && !strings.Contains(pt.def+" ", k+" ") {
					defers[k] = x
					pt.def += " " + k
				}
			case *ssa.Go:
			case *ssa.Call:
				pt.st = a.callEffect(x, pt.st, true)
			case *ssa.RunDefers:
				ks := strings.Fields(pt.def)
				for j := len(ks) - 1; j >= 0; j-- {
					pt.st = a.callEffect(defers[ks[j]], pt.st, true)
				}
				pt.def = ""
			case *ssa.Return:
				exit |= pt.st
				if exitAt[ins] == 0 {
					exits = append(exits, ins)
				}
				exitAt[ins] |= pt.st
			case *ssa.Panic:
				st := pt.st
				ks := strings.Fields(pt.def)
				for j := len(ks) - 1; j >= 0; j-- {
					st = a.callEffect(defers[ks[j]], st, false)
				}
				if st&(lRead|lWrite) != 0 && s == lFree {
					a.bad("released", ins, "panics while holding %s", a.lock)
				}
			}
		}
		for _, n := range it.b.Succs {
			queue = append(queue, item{n, pt})
		}
	}
	// a function that sometimes returns holding the lock and sometimes not
	if exit&lFree != 0 && exit&(lRead|lWrite) != 0 {
		for _, e := range exits {
			if s == lFree && exitAt[e]&(lRead|lWrite) != 0 {
				a.bad("released", e, "%s returns here still holding %s", a.p.fnID(f), a.lock)
			}
			if s != lFree && exitAt[e]&lFree != 0 {
				a.bad("released", e, "%s returns here having released %s, which its caller holds", a.p.fnID(f), a.lock)
			}
		}
	}
	return exit
}

// relevant: the deferred call can affect the lock.
func (a *lockAnalysis) relevant(d *ssa.Defer) bool {
	if l, op := a.p.lockOp(d.Common()); op != "" {
		return l == a.lock
	}
	for _, f := range a.p.callees[d] {
		if a.touches[f] {
			return true
		}
	}
	return false
}

// waits: the instruction may wait for another goroutine or for a peer.
func (p *Program) waits(ins ssa.Instruction) string {
	switch x := ins.(type) {
	case *ssa.Send:
		return "sends on a channel"
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return "receives from a channel"
		}
	case *ssa.Select:
		if x.Blocking {
			return "waits in a select"
		}
	case *ssa.Call:
		n := p.calleeName(x)
		switch n {
		case "sync.WaitGroup.Wait", "time.Sleep", "sync.Cond.Wait", "net/http.Client.Do", "golang.org/x/time/rate.Limiter.Wait":
			return "calls " + n
		}
		c := x.Common()
		if c.IsInvoke() {
			switch p.typeName(c.Value.Type()) + "." + c.Method.Name() {
			case "soju.ircConn.ReadMessage", "soju.ircConn.WriteMessage", "net.Conn.Read", "net.Conn.Write", "net.Listener.Accept":
				return "waits for a peer in " + c.Method.Name()
			}
		}
	}
	return ""
}

func runC10(p *Program, r *Report) {
	r.Rule("guarded", "shared tables are only accessed while holding their lock, exclusively for changes", 8)
	r.Rule("relock", "a lock is never taken while it may already be held", 4)
	r.Rule("released", "a lock is released on every path, and only when held", 4)
	r.Rule("no-wait", "nothing waits for a channel, a goroutine or a peer while holding a lock", 1)
	r.Rule("loop-waits", "a user's event loop only waits where a cancelled context, a closed connection or a stopped user ends the wait", 3)
	r.Rule("reply", "a reply sent unconditionally to a requester goes to a channel with room for it", 1)
	r.Rule("server-waits", "a task that serves all users waits for a user's event queue only as long as that user's loop runs", 1)
	r.Rule("deadline", "writes to a peer have a deadline", 1)

	// the locks of the program
	locks := map[string][]ssa.Instruction{}
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		if ci, ok := ins.(ssa.CallInstruction); ok {
			if l, op := p.lockOp(ci.Common()); op != "" {
				locks[l] = append(locks[l], ins)
			}
		}
	})
	for _, g := range guardedFields {
		if locks[g.lock] == nil {
			locks[g.lock] = []ssa.Instruction{}
		}
	}
	roots := p.goroutineRoots()
	isRoot := map[*ssa.Function]bool{}
	for _, rt := range roots {
		isRoot[rt.fn] = true
	}
	for _, l := range sortedKeys(locks) {
		a := &lockAnalysis{p: p, lock: l, touches: map[*ssa.Function]bool{}, summary: map[*ssa.Function]map[lstate]lstate{}, busy: map[*ssa.Function]map[lstate]bool{}, issues: map[ssa.Instruction]lockIssue{}}
		var gf []string
		for _, g := range guardedFields {
			if g.lock == l {
				gf = append(gf, g.typ+"."+g.field)
			}
		}
		// functions that reach an operation on the lock or a guarded access
		var direct []*ssa.Function
		p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
			if ci, ok := ins.(ssa.CallInstruction); ok {
				if l2, op := p.lockOp(ci.Common()); op != "" && l2 == l {
					direct = append(direct, fn)
				}
			}
			if w, _ := p.guardedUse(ins, gf); w {
				direct = append(direct, fn)
			}
		})
		for len(direct) > 0 {
			f := direct[0]
			direct = direct[1:]
			if a.touches[f] {
				continue
			}
			a.touches[f] = true
			for _, c := range p.callers[f] {
				direct = append(direct, c.Parent())
			}
			if f.Parent() != nil {
				direct = append(direct, f.Parent())
			}
		}
		accessed := map[ssa.Instruction]lstate{}
		waited := map[ssa.Instruction]bool{}
		a.held = func(ins ssa.Instruction, st lstate) {
			if use, _ := p.guardedUse(ins, gf); use {
				accessed[ins] |= st
			}
			if st&(lRead|lWrite) != 0 {
				if w := p.waits(ins); w != "" {
					waited[ins] = true
				}
			}
		}
		// entry points: goroutines, and functions nobody in the repository calls
		for _, fn := range p.Funcs {
			if isRoot[fn] || len(p.callers[fn]) == 0 && fn.Parent() == nil {
				out := a.summarise(fn, lFree)
				if out&(lRead|lWrite) != 0 {
					r.Bad("released", l+" "+p.fnID(fn), "%s may return still holding %s", p.fnID(fn), l)
				}
			}
		}
		for _, fn := range p.Funcs { // anything not reached so far
			if a.touches[fn] && a.summary[fn] == nil {
				a.summarise(fn, lFree)
			}
		}
		var bad []ssa.Instruction
		for ins := range a.issues {
			bad = append(bad, ins)
		}
		sort.Slice(bad, func(i, j int) bool { return bad[i].Pos() < bad[j].Pos() })
		for _, ins := range bad {
			is := a.issues[ins]
			r.Bad(is.rule, l+" "+p.fnID(ins.Parent()), "%s %s", p.at(ins), is.msg)
		}
		for _, ins := range locks[l] {
			if _, b := a.issues[ins]; !b {
				r.Ok("relock", l+" "+p.at(ins))
				r.Ok("released", l+" "+p.at(ins))
			}
		}
		n := 0
		p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
			if waited[ins] {
				n++
				r.Bad("no-wait", l+" "+p.fnID(fn), "%s %s while %s may be held", p.at(ins), p.waits(ins), l)
			}
			use, wr := p.guardedUse(ins, gf)
			if !use {
				return
			}
			st := accessed[ins]
			key := p.fnID(fn) + ": " + gf[0]
			switch {
			case st&lFree != 0:
				r.Bad("guarded", key, "%s accesses a table protected by %s without holding it on some call chain", p.at(ins), l)
			case wr && st&lRead != 0:
				r.Bad("guarded", key, "%s changes a table protected by %s while it is only locked for reading", p.at(ins), l)
			default:
				r.Ok("guarded", key+" "+p.at(ins))
			}
		})
		if n == 0 {
			r.Ok("no-wait", l)
		}
	}
	p.loopWaits(r)
	p.serverWaits(r)

	// deadlines
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		c, ok := ins.(*ssa.Call)
		if !ok || !c.Call.IsInvoke() || c.Call.Method.Name() != "WriteMessage" || p.typeName(c.Call.Value.Type()) != "soju.ircConn" {
			return
		}
		recv := p.ap(c.Call.Value, nil)
		cut := &Cut{Instr: func(i ssa.Instruction, cx *Ctx) bool {
			d, ok := i.(*ssa.Call)
			if !ok || !d.Call.IsInvoke() || d.Call.Method.Name() != "SetWriteDeadline" && d.Call.Method.Name() != "SetDeadline" {
				return false
			}
			if isZeroTime(p, d.Call.Args[0]) {
				return false
			}
			return cx != nil || p.ap(d.Call.Value, cx) == recv
		}}
		_, reach := p.reachInstr(c, nil, cut)
		if reach && len(p.Unguarded(c, fixed(cut), GuardOpts{})) == 0 {
			reach = false
		}
		if !reach { // also between two writes
			reach = p.searchAfter(c, c.Block(), indexOf(c), cut)
		}
		// nor removed again
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				d, ok := i.(*ssa.Call)
				if ok && d.Call.IsInvoke() && (d.Call.Method.Name() == "SetWriteDeadline" || d.Call.Method.Name() == "SetDeadline") && p.ap(d.Call.Value, nil) == recv && isZeroTime(p, d.Call.Args[0]) && p.searchAfter(d, c.Block(), indexOf(c), cut) {
					reach = true
				}
			}
		}
		r.Check(!reach, "deadline", p.fnID(fn), "%s writes to a peer without setting a deadline first: a peer that stops reading stalls it", p.at(c))
	})
}

func isZeroTime(p *Program, v ssa.Value) bool {
	v, _ = p.res(v, nil)
	_, isConst := v.(*ssa.Const)
	return isConst
}

// guardedUse: the instruction reads (or writes) one of the tables.
func (p *Program) guardedUse(ins ssa.Instruction, gf []string) (use, write bool) {
	tbl := func(v ssa.Value) bool {
		for _, g := range gf {
			i := strings.LastIndex(g, ".")
			if b, _, ok := p.loadOf(v, nil, g[:i], g[i+1:]); ok && !fresh(b) {
				return true
			}
		}
		return false
	}
	addr := func(v ssa.Value) bool {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok || fresh(fa.X) {
			return false
		}
		for _, g := range gf {
			i := strings.LastIndex(g, ".")
			if p.isField(fa.X.Type(), fa.Field, g[:i], g[i+1:]) {
				return true
			}
		}
		return false
	}
	switch x := ins.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL && addr(x.X) {
			return true, false
		}
	case *ssa.Store:
		if addr(x.Addr) {
			return true, true
		}
	case *ssa.Lookup:
		return tbl(x.X), false
	case *ssa.MapUpdate:
		return tbl(x.Map), true
	case *ssa.Range:
		return tbl(x.X), false
	case *ssa.Next:
		if rg, ok := x.Iter.(*ssa.Range); ok {
			return tbl(rg.X), false
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && len(x.Call.Args) > 0 {
			switch b.Name() {
			case "len":
				return tbl(x.Call.Args[0]), false
			case "delete", "clear":
				return tbl(x.Call.Args[0]), true
			}
		}
	}
	return false, false
}

// serverWaits checks what the server-wide tasks send to users: their event
// loop may have ended with the queue full.
func (p *Program) serverWaits(r *Report) {
	seen := map[*ssa.Function]bool{}
	var queue []*ssa.Function
	for _, fn := range p.Funcs {
		if fn.Signature.Recv() == nil || p.typeName(fn.Signature.Recv().Type()) != "soju.Server" || fn.Parent() != nil {
			continue
		}
		switch fn.Name() {
		case "Shutdown", "disableInactiveUsersLoop", "disableInactiveUsers":
			queue = append(queue, fn)
		}
	}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		if seen[f] || p.isEventLoop(f) {
			continue
		}
		seen[f] = true
		next, _ := p.sameGoroutine(f, nil)
		queue = append(queue, next...)
		queue = append(queue, f.AnonFuncs...)
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Send:
					if p.isUserEvents(x.Chan) {
						r.Bad("server-waits", p.fnID(f), "%s: a server-wide task waits for the queue of a user whose event loop may have ended", p.at(ins))
					}
				case *ssa.Select:
					sends, ends := false, !x.Blocking
					for _, st := range x.States {
						if st.Dir == types.SendOnly && p.isUserEvents(st.Chan) {
							sends = true
						}
						if st.Dir == types.RecvOnly {
							if _, _, ok := p.loadOf(st.Chan, nil, "soju.user", "done"); ok {
								ends = true
							} else if p.doneOf(st.Chan) != nil || p.escapeField(st.Chan) {
								ends = true
							}
						}
					}
					if sends {
						r.Check(ends, "server-waits", p.fnID(f), "%s: a server-wide task waits for the queue of a user whose event loop may have ended", p.at(ins))
					}
				}
			}
		}
	}
}

// loopWaits checks the waiting operations of the users' event loops.
func (p *Program) loopWaits(r *Report) {
	loop := map[*ssa.Function]bool{}
	loops := map[*ssa.Function]bool{}
	var queue []*ssa.Function
	for _, fn := range p.Funcs {
		if p.isEventLoop(fn) {
			queue = append(queue, fn)
			loops[fn] = true
		}
	}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		if loop[f] {
			continue
		}
		loop[f] = true
		next, _ := p.sameGoroutine(f, nil)
		queue = append(queue, next...)
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				// commands and callbacks kept in fields
				if c, ok := ins.(*ssa.Call); ok && !exactCall(c) && fieldFn(c.Call.Value) {
					queue = append(queue, p.dynCallees(c)...)
				}
			}
		}
	}
	for _, fn := range p.Funcs {
		if !loop[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				w := p.waits(ins)
				if w == "" {
					continue
				}
				key := p.fnID(fn)
				switch x := ins.(type) {
				case *ssa.UnOp:
					if p.isUserEvents(x.X) && loops[fn] {
						continue
					}
					r.Bad("loop-waits", key, "%s: the user's event loop receives from a channel with nothing to end the wait", p.at(ins))
				case *ssa.Send:
					if ok, why := p.roomFor(x.Chan); ok {
						r.Ok("reply", key)
					} else {
						r.Bad("reply", key, "%s: the user's event loop sends to a channel with nothing to end the wait (%s)", p.at(ins), why)
					}
				case *ssa.Select:
					bad := "no case ends the wait"
					ok := false
					for _, st := range x.States {
						if st.Dir == types.RecvOnly && p.isUserEvents(st.Chan) && loops[fn] {
							ok = true
						}
						if st.Dir != types.RecvOnly {
							continue
						}
						if p.escapeField(st.Chan) {
							ok = true
						} else if c := p.doneOf(st.Chan); c != nil {
							if at := p.neverDone(c, fn, loop, 0); at != nil {
								bad = "the context never ends, see " + p.at(at)
							} else {
								ok = true
							}
						}
					}
					r.Check(ok, "loop-waits", key, "%s: the user's event loop waits in a select: %s", p.at(ins), bad)
				default:
					if strings.Contains(w, "net/http") || strings.Contains(w, "rate.Limiter") {
						continue // ended by their context
					}
					r.Bad("loop-waits", key, "%s: the user's event loop %s", p.at(ins), w)
				}
			}
		}
	}
}

// escapeField: a channel field that is closed when a user, network,
// connection or the server ends.
func (p *Program) escapeField(v ssa.Value) bool {
	for _, f := range []string{"soju.network.stopped", "soju.conn.closedCh", "soju.Server.stopCh"} {
		i := strings.LastIndex(f, ".")
		if _, _, ok := p.loadOf(v, nil, f[:i], f[i+1:]); ok {
			return true
		}
	}
	return false
}

// doneOf: the context whose Done channel v is.
func (p *Program) doneOf(v ssa.Value) ssa.Value {
	v, _ = p.res(v, nil)
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if c.Call.IsInvoke() && c.Call.Method.Name() == "Done" {
		return c.Call.Value
	}
	if f := c.Call.StaticCallee(); f != nil && f.Name() == "Done" && len(c.Call.Args) == 1 {
		return c.Call.Args[0]
	}
	return nil
}

// neverDone: the context may be one that never ends; the place it comes from.
func (p *Program) neverDone(v ssa.Value, fn *ssa.Function, loop map[*ssa.Function]bool, d int) ssa.Instruction {
	if d > 5 {
		return nil
	}
	v, _ = p.res(v, nil)
	switch x := v.(type) {
	case *ssa.Call:
		switch p.calleeName(x) {
		case "context.TODO", "context.Background", "context.WithoutCancel":
			return x
		case "context.WithValue":
			return p.neverDone(x.Call.Args[0], fn, loop, d+1)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if at := p.neverDone(e, fn, loop, d+1); at != nil {
				return at
			}
		}
	case *ssa.Parameter:
		i := paramIndex(x)
		for _, c := range p.callers[x.Parent()] {
			if _, g := c.(*ssa.Go); g || !loop[c.Parent()] {
				continue
			}
			args := callArgs(c)
			if i < len(args) && exactCall(c) {
				if at := p.neverDone(args[i], c.Parent(), loop, d+1); at != nil {
					return at
				}
			}
		}
	case *ssa.UnOp:
		// the context of a service command
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && p.typeName(fa.X.Type()) == "soju.serviceContext" {
			for _, st := range p.stores[fieldVar(fa.X.Type(), fa.Field)] {
				if loop[st.Parent()] && loop[fn] {
					if at := p.neverDone(st.Val, st.Parent(), loop, d+1); at != nil {
						return at
					}
				}
			}
		}
	case *ssa.MakeInterface:
		return p.neverDone(x.X, fn, loop, d+1)
	}
	return nil
}

// dynCallees: what a call may run; calls of function parameters are resolved
// from the arguments of the callers, calls of function fields from what is
// stored in the field.
func (p *Program) dynCallees(ci ssa.CallInstruction) []*ssa.Function {
	if exactCall(ci) {
		return p.callees[ci]
	}
	c := ci.Common()
	if fs, ok := p.fnValue(c.Value, 0); ok {
		return fs
	}
	if len(p.callees[ci]) > 8 {
		return nil
	}
	return p.callees[ci]
}

func fieldFn(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	_, ok = u.X.(*ssa.FieldAddr)
	return ok
}

func (p *Program) fnValue(v ssa.Value, d int) ([]*ssa.Function, bool) {
	if d > 4 {
		return nil, false
	}
	v, _ = p.res(v, nil)
	switch x := v.(type) {
	case *ssa.Function, *ssa.MakeClosure:
		return p.resolveValue(x, 0), true
	case *ssa.Const:
		return nil, true
	case *ssa.Phi:
		var out []*ssa.Function
		for _, e := range x.Edges {
			fs, ok := p.fnValue(e, d+1)
			if !ok {
				return nil, false
			}
			out = append(out, fs...)
		}
		return out, true
	case *ssa.Parameter:
		i := paramIndex(x)
		var out []*ssa.Function
		cs := p.callers[x.Parent()]
		for _, c := range cs {
			args := callArgs(c)
			if i >= len(args) {
				return nil, false
			}
			fs, ok := p.fnValue(args[i], d+1)
			if !ok {
				return nil, false
			}
			out = append(out, fs...)
		}
		return out, len(cs) > 0
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok || x.Op != token.MUL {
			return nil, false
		}
		var out []*ssa.Function
		for _, st := range p.stores[fieldVar(fa.X.Type(), fa.Field)] {
			fs, ok := p.fnValue(st.Val, d+1)
			if !ok {
				return nil, false
			}
			out = append(out, fs...)
		}
		return out, len(out) > 0
	}
	return nil, false
}

// sends: how many operations send to the channels of this field.
func (p *Program) sends(v ssa.Value) int {
	fieldOf := func(v ssa.Value) *types.Var {
		v, _ = p.res(v, nil)
		switch x := v.(type) {
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return fieldVar(fa.X.Type(), fa.Field)
			}
		case *ssa.Field:
			return fieldVar(x.X.Type(), x.Field)
		}
		return nil
	}
	fv := fieldOf(v)
	if fv == nil {
		return 1
	}
	n := 0
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		switch x := ins.(type) {
		case *ssa.Send:
			if fieldOf(x.Chan) == fv {
				n++
			}
		case *ssa.Select:
			for _, st := range x.States {
				if st.Dir == types.SendOnly && fieldOf(st.Chan) == fv {
					n++
				}
			}
		}
	})
	return n
}

// roomFor: every channel v may be was made with room for a message.
func (p *Program) roomFor(v ssa.Value) (bool, string) {
	if p.isUserEvents(v) {
		return false, "an event queue may be full, and may be its own"
	}
	if p.sends(v) > 1 {
		return false, "other messages sent to it may fill it"
	}
	n := 0
	for _, o := range p.origins(v, nil, sliceOpts{Up: true, Fields: true}) {
		mc, ok := o.V.(*ssa.MakeChan)
		if !ok {
			return false, "its origin is not known"
		}
		if k, ok := constInt(mc.Size); !ok || k < 1 {
			return false, "it has no buffer, see " + p.at(mc)
		}
		n++
	}
	return n > 0, "its origin is not known"
}
