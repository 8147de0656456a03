package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{
		ID: "C02",
		Explanation: "Privileged effects (creating, deleting, inspecting or modifying other users, running commands as another user, broadcasting, server-wide status and debug, changing the admin/enabled/limit fields, " +
			"saving a network that dials a local socket) are enumerated as SSA sinks; every call chain from client input to a sink must pass an administrator check, where the service command table is extracted from the program and combined with the dispatcher's check. " +
			"Every construction of a service context takes its admin bit from the acting user's record or sits behind an already privileged entry.",
		Assumptions: []string{"only the unix+admin listener serves the admin protocol (decided separately, C24)"},
		Run:         runC02,
	})
}

type cmdEntry struct {
	handler *ssa.Function
	admin   bool
	global  bool
	at      ssa.Instruction
}

// serviceTable extracts the service commands from the composite literals that
// build the table.
func (p *Program) serviceTable() []cmdEntry {
	var out []cmdEntry
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		al, ok := ins.(*ssa.Alloc)
		if !ok || p.typeName(al.Type()) != "soju.serviceCommand" {
			return
		}
		e := cmdEntry{at: ins}
		for _, ref := range *al.Referrers() {
			fa, ok := ref.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			for _, rr := range *fa.Referrers() {
				st, ok := rr.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(fa) {
					continue
				}
				switch fieldVar(fa.X.Type(), fa.Field).Name() {
				case "handle":
					if fs := p.resolveValue(st.Val, 0); len(fs) == 1 {
						e.handler = fs[0]
					}
				case "admin":
					b, ok := constBool(st.Val)
					e.admin = ok && b
				case "global":
					b, ok := constBool(st.Val)
					e.global = ok && b
				}
			}
		}
		if e.handler != nil {
			out = append(out, e)
		}
	})
	return out
}

// ctxFuncs lists the functions on a call string, innermost first.
func ctxFuncs(site ssa.Instruction, c *Ctx) []*ssa.Function {
	out := []*ssa.Function{site.Parent()}
	for ; c != nil; c = c.up {
		if c.call != nil {
			out = append(out, c.call.Parent())
		} else if c.mc != nil {
			out = append(out, c.mc.Parent())
		} else if c.use != nil {
			out = append(out, c.use.Parent())
		}
	}
	return out
}

func runC02(p *Program, r *Report) {
	r.Rule("privileged-effect", "every client-driven path to a privileged effect passes an administrator check (or, for deleting or updating oneself, an identity check)", 12)
	r.Rule("service-context", "a service context's admin bit is the acting user's own, or constant only behind a privileged entry", 3)
	r.Rule("local-socket", "a network with a local socket address is saved only for administrators", 2)

	g := p.adminGuard()
	runEvent := g.runEvent

	type sink struct {
		ins  ssa.Instruction
		what string
		self func(*Ctx) string // access path of the user name the effect applies to, when doing it to oneself is allowed
		ptr  ssa.Value         // the pointer whose nil-ness makes the effect impossible
	}
	var sinks []sink
	record := func(ins ssa.Instruction, what string) { sinks = append(sinks, sink{ins: ins, what: what}) }
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		for _, sv := range sentValues(ins) {
			switch p.typeName(sv.val.Type()) {
			case "soju.eventUserRun":
				record(ins, "runs a command as another user")
			case "soju.eventUserUpdate":
				record(ins, "modifies another user")
			case "soju.eventBroadcast":
				record(ins, "broadcasts to all users")
			}
		}
		if st, ok := ins.(*ssa.Store); ok {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
				for _, f := range []string{"Admin", "Enabled", "MaxNetworks"} {
					if p.isField(fa.X.Type(), fa.Field, "database.User", f) {
						if _, isConst := st.Val.(*ssa.Const); isConst && p.pkgOf(fn) == "database" {
							continue // defaults of a new record
						}
						s := sink{ins: ins, what: "changes the " + f + " field of a user"}
						if u, ok := st.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
							s.ptr = u.X
						}
						sinks = append(sinks, s)
					}
				}
			}
		}
		ci, ok := ins.(ssa.CallInstruction)
		if !ok {
			return
		}
		switch p.calleeName(ci) {
		case "soju.Server.createUser":
			record(ins, "creates a user")
		case "database.Database.DeleteUser":
			s := sink{ins: ins, what: "deletes a user"}
			id := callArgs(ci)[2]
			s.self = func(c *Ctx) string {
				if b, bc, ok := p.loadOf(id, c, "database.User", "ID"); ok {
					return p.userNameOf(b, bc)
				}
				return ""
			}
			sinks = append(sinks, s)
		case "soju.user.stop":
			u := callArgs(ci)[0]
			sinks = append(sinks, sink{ins: ins, what: "stops a user", self: func(c *Ctx) string { return p.userNameOf(u, c) }})
		case "database.Database.ListUsers", "database.Database.ListInactiveUsernames":
			record(ins, "lists all users")
		case "soju.Server.Stats":
			record(ins, "reads server-wide statistics")
		case "sync/atomic.Bool.Swap", "sync/atomic.Bool.Store", "sync/atomic.Bool.CompareAndSwap":
			if fa, ok := callArgs(ci)[0].(*ssa.FieldAddr); ok && p.isField(fa.X.Type(), fa.Field, "soju.DebugLogger", "debug") {
				record(ins, "switches debug logging")
			}
		case "soju.Server.forEachUser":
			record(ins, "acts on every user")
		}
	})

	for _, s := range sinks {
		key := p.fnID(s.ins.Parent()) + ": " + s.what
		mk := g.cut(s.ins, s.self, s.ptr)
		bad := p.Unguarded(s.ins, mk, GuardOpts{})
		hit := ""
		for _, ch := range bad {
			if p.clientDriven(ch) {
				hit = p.chainString(ch)
				break
			}
		}
		r.Check(hit == "", "privileged-effect", key, "%s: %s without an administrator check on the path %s", p.at(s.ins), s.what, hit)
	}

	// service contexts
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		al, ok := ins.(*ssa.Alloc)
		if !ok || p.typeName(al.Type()) != "soju.serviceContext" || !isPtr(al.Type()) {
			return
		}
		fields := map[string]ssa.Value{}
		stores := map[string]*ssa.Store{}
		for _, ref := range *al.Referrers() {
			if fa, ok := ref.(*ssa.FieldAddr); ok {
				for _, rr := range *fa.Referrers() {
					if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
						n := fieldVar(fa.X.Type(), fa.Field).Name()
						fields[n] = st.Val
						stores[n] = st
					}
				}
			}
		}
		key := p.fnID(fn)
		v, ok := fields["admin"]
		if !ok {
			r.Ok("service-context", key)
			return
		}
		if b, isc := constBool(v); isc {
			if !b {
				r.Ok("service-context", key)
				return
			}
			// constant true: only behind the admin protocol or an already
			// privileged event
			bad := p.Unguarded(stores["admin"], fixed(&Cut{Atom: runEvent}), GuardOpts{Stop: func(f *ssa.Function) bool {
				return p.fnID(f) == "soju.Server.HandleAdmin"
			}})
			hit := ""
			for _, ch := range bad {
				hit = p.chainString(ch)
			}
			r.Check(hit == "", "service-context", key, "%s: a service context with administrator rights is created on the path %s", p.at(ins), hit)
			return
		}
		okAll := true
		for _, o := range p.origins(v, nil, sliceOpts{}) {
			base, bc, is := p.loadOf(o.V, o.Ctx, "database.User", "Admin")
			if !is {
				okAll = false
				continue
			}
			// the same user as the context acts for
			if u, has := fields["user"]; has {
				if strings.TrimSuffix(p.ap(base, bc), ".User") != p.ap(u, nil) {
					okAll = false
				}
			}
		}
		r.Check(okAll, "service-context", key, "%s: the admin bit of a service context is not the acting user's", p.at(ins))
	})

	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		st, ok := ins.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || !p.isField(fa.X.Type(), fa.Field, "soju.serviceContext", "admin") {
			return
		}
		if _, made := fa.X.(*ssa.Alloc); made {
			return
		}
		bad := ""
		for _, o := range p.origins(st.Val, nil, sliceOpts{}) {
			if b, isc := constBool(o.V); isc && !b {
				continue
			}
			if _, _, is := p.loadOf(o.V, o.Ctx, "soju.serviceContext", "admin"); is {
				continue
			}
			bad = p.valAt(o.V)
		}
		r.Check(bad == "", "service-context", p.fnID(fn)+" changed", "%s: a command's context is given other rights than its user has %s", p.at(st), bad)
	})

	// local sockets
	unixScheme := func(s string) bool { return strings.Contains(s, "unix") }
	schemeOrAdmin := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
		if g.userAdmin(cond, pol, c) {
			return true
		}
		a, b, op, ok := cmpFact(cond, pol)
		if !ok {
			return false
		}
		if _, isk := constString(a); isk {
			a, b = b, a
		}
		k, isk := constString(b)
		if !isk {
			return false
		}
		if _, _, is := p.loadOf(a, c, "net/url.URL", "Scheme"); !is {
			return false
		}
		return op == token.EQL && !unixScheme(k)
	}}
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if name != "database.Database.StoreNetwork" || p.pkgOf(fn) != "soju" {
			return
		}
		key := p.fnID(fn)
		hit, any := p.savedUnchecked(ci, callArgs(ci)[3], schemeOrAdmin, 0)
		if !any {
			return
		}
		r.Check(hit == "", "local-socket", key, "%s: a network is saved without its address scheme being checked against the user's rights: %s", p.at(ci), hit)
	})
}

// savedUnchecked: a call chain on which a record that may hold a new address
// reaches site (which saves it) without passing the cut; any is false if the
// record can only be a copy that keeps the address of a network in use.
func (p *Program) savedUnchecked(site ssa.CallInstruction, rec ssa.Value, cut *Cut, d int) (hit string, any bool) {
	var param *ssa.Parameter
	for _, o := range p.origins(stripFieldAddr(mustRes(p, rec)), nil, sliceOpts{Stop: func(v ssa.Value, c *Ctx) bool {
		call, is := v.(*ssa.Call)
		return is && p.calleeName(call) == "soju.newNetwork"
	}}) {
		switch x := o.V.(type) {
		case *ssa.Call:
			if p.calleeName(x) == "soju.newNetwork" {
				any = true
			}
		case *ssa.Parameter:
			if p.typeName(x.Type()) == "database.Network" {
				any = true
				param = x
			}
		case *ssa.Alloc:
			// a modified copy: fresh if its address may be written
			if p.writesField(x, "Addr") {
				any = true
			}
		}
	}
	if !any {
		return "", false
	}
	bad := p.Unguarded(site, fixed(cut), GuardOpts{MaxDepth: 1})
	if len(bad) == 0 {
		return "", true
	}
	hit = p.chainString(bad[0])
	fn := site.Parent()
	if param == nil || param.Parent() != fn || d >= 3 || len(p.callers[fn]) == 0 {
		return hit, true
	}
	any = false
	for _, ci := range p.callers[fn] {
		for i, q := range fn.Params {
			if q != param {
				continue
			}
			args := callArgs(ci)
			if i >= len(args) {
				return hit, true
			}
			h, is := p.savedUnchecked(ci, args[i], cut, d+1)
			any = any || is
			if h != "" {
				return h + " -> " + p.at(site), true
			}
		}
	}
	return "", any
}

func mustRes(p *Program, v ssa.Value) ssa.Value { w, _ := p.res(v, nil); return w }

// stripFieldAddr goes from &x.Embedded to x.
func stripFieldAddr(v ssa.Value) ssa.Value {
	for {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			return v
		}
		v = fa.X
	}
}

func (p *Program) writesField(al *ssa.Alloc, field string) bool {
	for _, ref := range *al.Referrers() {
		if fa, ok := ref.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field).Name() == field {
			for _, rr := range *fa.Referrers() {
				if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
					return true
				}
			}
		}
	}
	return false
}

// isTypeTest: cond is the ok of a type test for one of the named types.
func (p *Program) isTypeTest(cond ssa.Value, names ...string) bool {
	ex, ok := cond.(*ssa.Extract)
	if !ok || ex.Index != 1 {
		return false
	}
	ta, ok := ex.Tuple.(*ssa.TypeAssert)
	if !ok {
		return false
	}
	n := p.typeName(ta.AssertedType)
	for _, w := range names {
		if n == w {
			return true
		}
	}
	return false
}

// clientDriven: the call chain passes through a function handling a client
// message or a service command.
func (p *Program) clientDriven(chain []ssa.Instruction) bool {
	for _, ins := range chain {
		for _, par := range ins.Parent().Params {
			switch p.typeName(par.Type()) {
			case "soju.serviceContext", "gopkg.in/irc.v4.Message":
				return true
			}
		}
	}
	return false
}

var _ = fmt.Sprint
var _ = sort.Strings
var _ types.Type

type adminGuard struct {
	p                   *Program
	handlers, adminOnly map[*ssa.Function]bool
}

func (p *Program) adminGuard() *adminGuard {
	g := &adminGuard{p, map[*ssa.Function]bool{}, map[*ssa.Function]bool{}}
	for _, e := range p.serviceTable() {
		if !g.handlers[e.handler] {
			g.handlers[e.handler] = true
			g.adminOnly[e.handler] = true
		}
		if !e.admin {
			g.adminOnly[e.handler] = false
		}
	}
	return g
}

func (g *adminGuard) ctxAdmin(cond ssa.Value, pol bool, c *Ctx) bool {
	_, _, ok := g.p.loadOf(cond, c, "soju.serviceContext", "admin")
	return ok && pol
}

func (g *adminGuard) cmdNotAdmin(cond ssa.Value, pol bool, c *Ctx) bool {
	_, _, ok := g.p.loadOf(cond, c, "soju.serviceCommand", "admin")
	return ok && !pol
}

func (g *adminGuard) userAdmin(cond ssa.Value, pol bool, c *Ctx) bool {
	_, _, ok := g.p.loadOf(cond, c, "database.User", "Admin")
	return ok && pol
}

func (g *adminGuard) isSelf(cond ssa.Value, pol bool, c *Ctx, name string) bool {
	return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
		base, bc, ok := g.p.loadOf(a, c, "database.User", "Username")
		if !ok || g.p.ap(b, c) != name {
			return false
		}
		// of the acting user
		base, bc = g.p.res(stripFieldAddr(base), bc)
		for _, t := range []string{"soju.serviceContext", "soju.downstreamConn"} {
			if _, _, own := g.p.loadOf(base, bc, t, "user"); own {
				return true
			}
		}
		return false
	})
}

// runEvent: inside the handling of an event that only administrators can post.
func (g *adminGuard) runEvent(cond ssa.Value, pol bool, c *Ctx) bool {
	return pol && g.p.isTypeTest(cond, "soju.eventUserRun", "soju.eventUserUpdate")
}

// cut accepts an administrator check before site. self is the access path of
// the name of the user affected, if doing it to oneself is fine; ptr the
// pointer without which the effect cannot happen.
func (g *adminGuard) cut(site ssa.Instruction, self func(*Ctx) string, ptr ssa.Value) func(c *Ctx) *Cut {
	return func(c *Ctx) *Cut {
		name, ptrPath := "", ""
		if self != nil {
			name = self(c)
		}
		if ptr != nil {
			ptrPath = g.p.ap(ptr, c)
		}
		gated := false
		for _, f := range ctxFuncs(site, c) {
			if g.handlers[f] {
				gated = g.adminOnly[f]
				break
			}
		}
		return &Cut{
			Atom: func(cond ssa.Value, pol bool, cc *Ctx) bool {
				return g.ctxAdmin(cond, pol, cc) || g.userAdmin(cond, pol, cc) || g.runEvent(cond, pol, cc) ||
					gated && g.cmdNotAdmin(cond, pol, cc) ||
					name != "" && g.isSelf(cond, pol, cc, name)
			},
			Nil: func(v ssa.Value, isNil bool, cc *Ctx) bool {
				return ptrPath != "" && isNil && g.p.ap(v, cc) == ptrPath
			},
		}
	}
}
