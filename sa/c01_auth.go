package main

import (
	"fmt"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{
		ID: "C01",
		Explanation: "Interprocedural must-pass analysis over SSA: every assignment of the authenticated user name is reachable only after an authenticator " +
			"returned a nil error, the assigned name is the one that was authenticated (or an authorization identity whose bearer was found to be an administrator), every authenticator " +
			"implementation returns a nil error only behind its verification primitive, and connections are registered and handed to a user only behind that name.",
		Assumptions: []string{"bcrypt, the HTTP client, the JSON decoder and PAM behave as documented", "configured authenticators are the implementations in the repository"},
		Run:         runC01,
	})
}

const (
	authPlain  = "auth.PlainAuthenticator.AuthPlain"
	authBearer = "auth.OAuthBearerAuthenticator.AuthOAuthBearer"
	dcReg      = "soju.downstreamRegistration"
	dcType     = "soju.downstreamConn"
)

// authOK is passed when an authenticator accepted; user constrains the name.
func (p *Program) authOK(user func(v ssa.Value, c *Ctx) bool) *Cut {
	return p.nilErrOf(func(call *ssa.Call, c *Ctx) bool {
		if p.calleeName(call) != authPlain {
			return user == nil
		}
		if user == nil {
			return true
		}
		args := callArgs(call)
		return len(args) == 5 && user(args[3], c)
	}, authPlain, authBearer)
}

func runC01(p *Program, r *Report) {
	r.Rule("auth-before-name", "the authenticated name of a connection is set only after an authenticator returned a nil error", 2)
	r.Rule("name-authenticated", "the name that is set is the one the authenticator verified, or an authorization identity guarded by the bearer's admin flag", 2)
	r.Rule("registered-needs-name", "a connection becomes registered only with a non-empty authenticated name", 1)
	r.Rule("handover-registered", "a connection is handed to a user's event loop only once registered, and to the user it authenticated as", 1)
	r.Rule("registered-dispatch", "commands for registered clients are handled only on registered connections", 1)
	r.Rule("bind-authenticated", "a connection chooses a network by ID only after it authenticated", 1)
	r.Rule("authenticator", "an authenticator returns a nil error only after its verification succeeded", 3)

	for _, st := range p.storesTo(dcReg, "authUsername") {
		if s, ok := constString(st.Val); ok && s == "" {
			continue
		}
		key := p.fnID(st.Parent())
		for _, l := range p.lift(st.Val, st) {
			k := key + "<-" + p.fnID(l.site.Parent())
			p.guardRule(r, "auth-before-name", k, l.site, fixed(p.authOK(nil)), GuardOpts{}, "user name assigned without a successful authentication")
			stop := func(v ssa.Value, c *Ctx) bool {
				_, ok := p.isCallTo(v, 0, "soju.unmarshalUsername")
				return ok || p.isAuthArg(v, c)
			}
			for _, lf := range p.leaves(l, stop) {
				p.checkAuthLeaf(r, k, l, lf)
			}
		}
	}

	nameSet := anyOf(
		p.strNonEmpty(func(v ssa.Value, c *Ctx) bool { _, _, ok := p.loadOf(v, c, dcReg, "authUsername"); return ok }),
		&Cut{Instr: func(ins ssa.Instruction, c *Ctx) bool {
			st, ok := ins.(*ssa.Store)
			if !ok {
				return false
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			return ok && p.isField(fa.X.Type(), fa.Field, dcReg, "authUsername")
		}})
	for _, st := range p.storesTo(dcReg, "networkID") {
		if k, ok := constInt(st.Val); ok && k == 0 {
			continue
		}
		p.guardRule(r, "bind-authenticated", p.fnID(st.Parent()), st, fixed(nameSet), GuardOpts{}, "a network is chosen by ID on a connection that has not authenticated")
	}
	for _, st := range p.storesTo(dcType, "registered") {
		if b, ok := constBool(st.Val); ok && !b {
			continue
		}
		p.guardRule(r, "registered-needs-name", p.fnID(st.Parent()), st, fixed(nameSet), GuardOpts{}, "connection marked registered without an authenticated user name")
	}

	isRegistered := anyOf(p.fieldTrue(dcType, "registered", true, nil), &Cut{Instr: func(ins ssa.Instruction, c *Ctx) bool {
		st, ok := ins.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || !p.isField(fa.X.Type(), fa.Field, dcType, "registered") {
			return false
		}
		b, ok := constBool(st.Val)
		return ok && b
	}})
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		for _, sv := range sentValues(ins) {
			if p.typeName(sv.val.Type()) != "soju.eventDownstreamConnected" {
				continue
			}
			key := p.fnID(fn)
			p.guardRule(r, "handover-registered", key, ins, fixed(isRegistered), GuardOpts{}, "connection handed to a user before it is registered")
			// the receiving user
			base, bc, ok := p.loadOf(sv.ch, nil, "soju.user", "events")
			if !ok {
				r.Bad("handover-registered", key+":user", "%s: cannot identify the user a connection is handed to", p.at(ins))
				continue
			}
			p.checkUserLookup(r, key, ins, base, bc)
		}
	})

	regHandlers := p.registeredHandlers()
	for _, f := range regHandlers {
		for _, ci := range p.callers[f] {
			p.guardRule(r, "registered-dispatch", p.fnID(ci.Parent())+"->"+p.fnID(f), ci, fixed(isRegistered), GuardOpts{}, "registered-only command handler reachable on an unregistered connection")
		}
	}

	for _, f := range p.implementers("auth", "PlainAuthenticator", "AuthPlain") {
		p.checkAuthenticator(r, f)
	}
	for _, f := range p.implementers("auth", "OAuthBearerAuthenticator", "AuthOAuthBearer") {
		p.checkAuthenticator(r, f)
	}
}

type sent struct{ ch, val ssa.Value }

// sentValues lists the channel sends an instruction may perform.
func sentValues(ins ssa.Instruction) []sent {
	unwrap := func(v ssa.Value) ssa.Value {
		if m, ok := v.(*ssa.MakeInterface); ok {
			return m.X
		}
		return v
	}
	switch x := ins.(type) {
	case *ssa.Send:
		return []sent{{x.Chan, unwrap(x.X)}}
	case *ssa.Select:
		var out []sent
		for _, s := range x.States {
			if s.Send != nil {
				out = append(out, sent{s.Chan, unwrap(s.Send)})
			}
		}
		return out
	}
	return nil
}

// registeredHandlers: the functions handling commands of registered clients,
// recognised as the method named so, or failing that every downstream method
// taking a message that is not reachable before registration.
func (p *Program) registeredHandlers() []*ssa.Function {
	if f := p.Func("soju.downstreamConn.handleMessageRegistered"); f != nil {
		return []*ssa.Function{f}
	}
	return nil
}

func (p *Program) checkUserLookup(r *Report, key string, ins ssa.Instruction, base ssa.Value, bc *Ctx) {
	isUsers := func(v ssa.Value, c *Ctx) bool {
		_, _, ok := p.loadOf(v, c, "soju.Server", "users")
		return ok
	}
	authName := func(v ssa.Value, c *Ctx) bool {
		for _, o := range p.origins(v, c, sliceOpts{}) {
			if _, _, ok := p.loadOf(o.V, o.Ctx, dcReg, "authUsername"); !ok {
				return false
			}
		}
		return true
	}
	n := 0
	for _, o := range p.origins(base, bc, sliceOpts{Up: true, Stop: func(v ssa.Value, c *Ctx) bool {
		switch x := v.(type) {
		case *ssa.Lookup:
			return true
		case *ssa.Alloc:
			return true
		case *ssa.Call:
			return p.calleeName(x) == "soju.newUser"
		}
		return false
	}}) {
		n++
		k := fmt.Sprintf("%s:user", key)
		switch x := o.V.(type) {
		case *ssa.Const:
			continue
		case *ssa.Lookup:
			if isUsers(x.X, o.Ctx) {
				r.Check(authName(x.Index, o.Ctx), "handover-registered", k, "%s: the user a connection is handed to is not looked up by the name it authenticated as (%s)", p.at(ins), p.at(x))
				continue
			}
		case *ssa.Call:
			if p.calleeName(x) == "soju.newUser" {
				rec := x.Common().Args[len(x.Common().Args)-1]
				ok := true
				for _, ro := range p.origins(rec, o.Ctx, sliceOpts{Stop: func(v ssa.Value, c *Ctx) bool {
					call, is := v.(*ssa.Call)
					return is && p.calleeName(call) == "database.NewUser"
				}}) {
					call, is := ro.V.(*ssa.Call)
					if !is || p.calleeName(call) != "database.NewUser" || !authName(call.Common().Args[0], ro.Ctx) {
						ok = false
					}
				}
				r.Check(ok, "handover-registered", k, "%s: the user created for a connection is not named after the name it authenticated as (%s)", p.at(ins), p.at(x))
				continue
			}
		}
		r.Bad("handover-registered", k, "%s: a connection may be handed to a user of unrecognised origin: %v", p.at(ins), o.V)
	}
	if n == 0 {
		r.Bad("handover-registered", key+":user", "%s: no origin found for the user", p.at(ins))
	}
}

// checkAuthLeaf decides one value the authenticated name may take.
func (p *Program) checkAuthLeaf(r *Report, key string, l located, lf leaf) {
	const rule = "name-authenticated"
	v, c := lf.v, lf.ctx
	if s, ok := constString(v); ok && s == "" {
		return // the empty name is rejected later (registered-needs-name)
	}
	// the result of the bearer authenticator
	if _, ok := p.isCallTo(v, 0, authBearer); ok {
		r.Ok(rule, key+":bearer")
		return
	}
	reach := func(cut *Cut) bool {
		if !p.leafReaches(&lf, cut) {
			return false
		}
		if lf.from == nil { // no choice: the use itself
			return len(p.Unguarded(l.site, fixed(cut), GuardOpts{})) > 0
		}
		return true
	}
	// accepted for exactly this name
	me := p.ap(v, c)
	same := p.authOK(func(u ssa.Value, uc *Ctx) bool { return p.ap(u, uc) == me })
	if !reach(same) {
		r.Ok(rule, key+":plain")
		return
	}
	// administrator naming somebody else: the admin flag belongs to the user
	// whose password was accepted
	admin := p.fieldTrue("database.User", "Admin", true, func(b ssa.Value, bc *Ctx) bool { return p.authenticatedRecord(b, bc) })
	if !reach(admin) {
		r.Ok(rule, key+":impersonation")
		return
	}
	r.Bad(rule, key+":"+leafName(p, v), "%s: the connection is given the user name %s, which no authenticator verified on some path (neither the name passed to the authenticator nor guarded by the authenticated user's admin flag)", p.at(l.site), leafName(p, v))
}

func leafName(p *Program, v ssa.Value) string {
	if b, ok := v.(ssa.Instruction); ok {
		return fmt.Sprintf("%s", p.describe(v)) + "@" + p.fnID(b.Parent())
	}
	return p.describe(v)
}

// describe renders a value in source terms.
func (p *Program) describe(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Const:
		return x.String()
	case *ssa.Call:
		return p.calleeName(x) + "()"
	case *ssa.Extract:
		return p.describe(x.Tuple) + fmt.Sprintf("#%d", x.Index)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return p.describe(x.X)
		}
		return x.Op.String() + p.describe(x.X)
	case *ssa.FieldAddr:
		return p.describe(x.X) + "." + fieldVar(x.X.Type(), x.Field).Name()
	case *ssa.Field:
		return p.describe(x.X) + "." + fieldVar(x.X.Type(), x.Field).Name()
	case *ssa.Parameter, *ssa.FreeVar:
		return x.Name()
	case *ssa.Alloc:
		return x.Comment
	case *ssa.MakeInterface:
		return p.describe(x.X)
	case *ssa.ChangeType:
		return p.describe(x.X)
	case *ssa.Convert:
		return p.describe(x.X)
	case *ssa.Phi:
		return x.Comment
	case *ssa.IndexAddr:
		return p.describe(x.X) + "[" + p.describe(x.Index) + "]"
	case *ssa.Lookup:
		return p.describe(x.X) + "[" + p.describe(x.Index) + "]"
	}
	return v.Name()
}

// authenticatedRecord: b is the record of the user name that was passed to a
// successful plain authentication.
func (p *Program) authenticatedRecord(b ssa.Value, bc *Ctx) bool {
	b, bc = p.res(b, bc)
	call, ok := p.isCallTo(b, 0, "database.Database.GetUser")
	if !ok {
		return false
	}
	name := p.ap(callArgs(call)[2], bc)
	found := false
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, n string) {
		if n != authPlain {
			return
		}
		// compare in the same function, or anywhere by access path
		if ci.Parent() == call.Parent() && p.ap(callArgs(ci)[3], bc) == name || p.ap(callArgs(ci)[3], nil) == name {
			cut := p.authOK(func(u ssa.Value, uc *Ctx) bool { return p.ap(u, uc) == name || p.ap(u, nil) == name })
			if len(p.Unguarded(call, fixed(cut), GuardOpts{})) == 0 {
				found = true
			}
		}
	})
	return found
}

func (p *Program) checkAuthenticator(r *Report, f *ssa.Function) {
	const rule = "authenticator"
	id := p.fnID(f)
	check := func(name string, cut *Cut, what string) {
		bad := p.nilReturns(f, cut)
		if len(bad) == 0 {
			r.Ok(rule, id+":"+name)
			return
		}
		r.Bad(rule, id+":"+name, "%s: authenticator may accept without %s", p.at(bad[0]), what)
	}
	params := f.Params
	uses := func(names ...string) bool {
		found := false
		p.reachableCalls(f, func(ci ssa.CallInstruction, n string) {
			for _, w := range names {
				if n == w {
					found = true
				}
			}
		})
		return found
	}
	fromParam := func(i int) func(v ssa.Value, c *Ctx) bool {
		return func(v ssa.Value, c *Ctx) bool {
			for _, o := range p.origins(v, c, sliceOpts{Data: true}) {
				if o.V == ssa.Value(params[i]) {
					return true
				}
			}
			return false
		}
	}
	n := len(params)
	kinds := 0
	if uses("golang.org/x/crypto/bcrypt.CompareHashAndPassword") {
		kinds++
		check("password", p.nilErrOf(func(call *ssa.Call, c *Ctx) bool {
			hash, pw := call.Common().Args[0], call.Common().Args[1]
			if !fromParam(n-1)(pw, c) {
				return false
			}
			ok := false
			for _, o := range p.origins(hash, c, sliceOpts{Data: true}) {
				if b, bc, is := p.loadOf(o.V, o.Ctx, "database.User", "Password"); is {
					b, bc = p.res(b, bc)
					if g, isg := p.isCallTo(b, 0, "database.Database.GetUser"); isg && fromParam(n-2)(callArgs(g)[2], bc) {
						ok = true
						continue
					}
				}
				return false
			}
			return ok
		}, "golang.org/x/crypto/bcrypt.CompareHashAndPassword"), "the password matching the stored hash of the claimed user")
	}
	if uses("net/http.Client.Do") {
		kinds++
		check("status", &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
			return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
				k, ok := constInt(b)
				if !ok || k != 200 {
					return false
				}
				_, _, is := p.loadOf(a, c, "net/http.Response", "StatusCode")
				return is
			})
		}}, "an HTTP 200 answer")
		if p.fname(f) == "AuthPlain" {
			ok := false
			p.reachableCalls(f, func(ci ssa.CallInstruction, name string) {
				if name == "net/http.Request.SetBasicAuth" {
					a := callArgs(ci)
					if fromParam(n-2)(a[1], nil) && fromParam(n-1)(a[2], nil) {
						ok = true
					}
				}
			})
			r.Check(ok, rule, id+":credentials", "%s: the HTTP authenticator does not submit the presented user name and password", id)
		}
	}
	if uses("encoding/json.Decoder.Decode") {
		kinds++
		check("active", p.fieldTrue("auth.oauth2Introspection", "Active", true, nil), "the token being reported active")
		check("username", p.strNonEmpty(func(v ssa.Value, c *Ctx) bool {
			_, _, ok := p.loadOf(v, c, "auth.oauth2Introspection", "Username")
			return ok
		}), "the server naming the token's user")
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 2 && !p.retErrNonNil(ret) {
				for _, o := range p.origins(ret.Results[0], nil, sliceOpts{}) {
					_, _, is := p.loadOf(o.V, o.Ctx, "auth.oauth2Introspection", "Username")
					_, isConst := constString(o.V)
					r.Check(is || isConst, rule, id+":result", "%s: the authenticated name is not the one the OAuth server returned", p.at(ret))
				}
			}
		}
	}
	if uses(authBearer) {
		kinds++
		check("bearer", p.nilErrOf(nil, authBearer), "the token being accepted")
		check("bearer-name", &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
			return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
				a, ac := p.res(a, c)
				_ = ac
				if _, ok := p.isCallTo(a, 0, authBearer); !ok {
					return false
				}
				b, _ = p.res(b, c)
				return b == ssa.Value(params[n-2])
			})
		}}, "the token's user being the claimed user")
	}
	if uses("github.com/msteinert/pam/v2.Transaction.Authenticate") {
		kinds++
		check("pam-auth", p.nilErrOf(nil, "github.com/msteinert/pam/v2.Transaction.Authenticate"), "PAM authentication")
		check("pam-acct", p.nilErrOf(nil, "github.com/msteinert/pam/v2.Transaction.AcctMgmt"), "the PAM account check")
	}
	if kinds == 0 {
		r.Bad(rule, id+":unknown", "%s: authenticator with no recognised verification primitive", id)
	}
}

// reachableCalls visits the calls in f and in the repository functions it
// (statically) calls.
func (p *Program) reachableCalls(f *ssa.Function, visit func(ci ssa.CallInstruction, name string)) {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					rec(mc.Fn.(*ssa.Function))
				}
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				visit(ci, p.calleeName(ci))
				if !ci.Common().IsInvoke() {
					for _, g := range p.callees[ci] {
						rec(g)
					}
				}
			}
		}
	}
	rec(f)
}

// isAuthArg: v is handed to the plain authenticator as the user name.
func (p *Program) isAuthArg(v ssa.Value, c *Ctx) bool {
	found := false
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, n string) {
		if n == authPlain {
			w, _ := p.res(callArgs(ci)[3], nil)
			if w == v {
				found = true
			}
		}
	})
	return found
}
