package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{ID: "C32", Explanation: "Guard analysis of every place that pushes to, stores or deletes a Web Push subscription, and must-effect analysis of what has to be pushed; endpoints, keys and records are matched by access path.",
		Assumptions: []string{"a host name that resolved to public addresses when it was checked resolves to public addresses when it is pushed to", "push services do not redirect to local addresses", "a loop over a collection reaches every element if it only ends at its header"},
		Run:         runC32})
}

const (
	pushPkg  = "github.com/SherClockHolmes/webpush-go"
	pushSub  = "database.WebPushSubscription"
	listSubs = "ListWebPushSubscriptions"
)

// part finds what is stored at a path of fields of a struct that is built at v
// (an address or the value).
func (p *Program) part(v ssa.Value, c *Ctx, path ...string) (ssa.Value, *Ctx) {
	for i := 0; i < 6; i++ {
		v, c = p.res(v, c)
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				v = x.X
				continue
			}
		case *ssa.Call:
			fs := p.callees[x]
			if len(fs) == 1 && fs[0].Blocks != nil {
				if rets := returnsOf(fs[0]); len(rets) == 1 {
					if ret := rets[0].(*ssa.Return); len(ret.Results) > 0 {
						v, c = ret.Results[0], mkCtx(Ctx{call: x, up: c})
						continue
					}
				}
			}
		}
		break
	}
	if v.Referrers() == nil {
		return nil, nil
	}
	var found ssa.Value
	n := 0
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.FieldAddr:
			fv := fieldVar(x.X.Type(), x.Field)
			if x.X != v || fv == nil || fv.Name() != path[0] {
				continue
			}
			if len(path) > 1 {
				if w, _ := p.part(x, c, path[1:]...); w != nil {
					found, n = w, n+1
				}
				continue
			}
			for _, rr := range *x.Referrers() {
				if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
					found, n = st.Val, n+1
				}
			}
		case *ssa.Store:
			if x.Addr != v {
				continue
			}
			// the whole struct: built elsewhere
			if w, _ := p.part(x.Val, c, path...); w != nil && x.Val != v {
				found, n = w, n+1
			} else if n == 0 && x.Val != v {
				found = nil
				n++
			}
		}
	}
	if n != 1 || found == nil {
		return nil, nil
	}
	return found, c
}

// denotes: the ways a value can be referred to.
func (p *Program) denotes(v ssa.Value, c *Ctx) map[string]bool {
	out := map[string]bool{}
	var rec func(v ssa.Value, c *Ctx, d int)
	rec = func(v ssa.Value, c *Ctx, d int) {
		if v == nil || d > 6 {
			return
		}
		v, c = p.res(v, c)
		switch x := v.(type) {
		case *ssa.Convert:
			rec(x.X, c, d+1)
			return
		case *ssa.ChangeType:
			rec(x.X, c, d+1)
			return
		}
		out[p.ap(v, c)] = true
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			var path []string
			a := u.X
			for {
				fa, ok := a.(*ssa.FieldAddr)
				if !ok {
					break
				}
				fv := fieldVar(fa.X.Type(), fa.Field)
				path = append([]string{fv.Name()}, path...)
				a = fa.X
			}
			if len(path) > 0 {
				b, bc := p.res(a, c)
				if al, ok := b.(*ssa.Alloc); ok {
					if w, wc := p.part(al, bc, path...); w != nil {
						rec(w, wc, d+1)
					}
				}
			}
		}
	}
	rec(v, c, 0)
	return out
}

func meet(a, b map[string]bool) bool {
	for k := range a {
		if b[k] {
			return true
		}
	}
	return false
}

// listed: v is (part of) an element of the stored subscriptions.
func (p *Program) listed(v ssa.Value, c *Ctx) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value, c *Ctx, d int) bool
	rec = func(v ssa.Value, c *Ctx, d int) bool {
		if v == nil || d > 30 {
			return false
		}
		v, c = p.res(v, c)
		if seen[v] || isNilConst(v) {
			return true
		}
		seen[v] = true
		into := func(call *ssa.Call, idx int) bool {
			n := 0
			for _, g := range p.callees[call] {
				if !p.repoFn(g) {
					return false
				}
				for _, ri := range returnsOf(g) {
					ret := ri.(*ssa.Return)
					if idx >= len(ret.Results) || !rec(ret.Results[idx], mkCtx(Ctx{call: call, up: c}), d+1) {
						return false
					}
					n++
				}
			}
			return n > 0
		}
		switch x := v.(type) {
		case *ssa.Field:
			return rec(x.X, c, d+1)
		case *ssa.FieldAddr:
			return rec(x.X, c, d+1)
		case *ssa.UnOp:
			return x.Op == token.MUL && rec(x.X, c, d+1)
		case *ssa.IndexAddr:
			return rec(x.X, c, d+1)
		case *ssa.Slice:
			return rec(x.X, c, d+1)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !rec(e, c, d+1) {
					return false
				}
			}
			return true
		case *ssa.Alloc:
			sts := p.allCellStores(x)
			for _, st := range sts {
				if !rec(st.Val, c, d+1) {
					return false
				}
			}
			if len(sts) == 0 || p.typeName(x.Type()) == pushSub && x.Referrers() != nil && builtUp(x) {
				return false
			}
			return true
		case *ssa.Call:
			if p.calleeName(x) == "builtin.append" {
				return rec(x.Call.Args[0], c, d+1) && rec(x.Call.Args[1], c, d+1)
			}
			return into(x, 0)
		case *ssa.Extract:
			call, ok := x.Tuple.(*ssa.Call)
			if !ok {
				return false
			}
			if strings.HasSuffix(p.calleeName(call), "."+listSubs) {
				return x.Index == 0
			}
			return into(call, x.Index)
		}
		return false
	}
	return rec(v, c, 0)
}

// builtUp: fields of the variable are set.
func builtUp(al *ssa.Alloc) bool {
	for _, ref := range *al.Referrers() {
		if fa, ok := ref.(*ssa.FieldAddr); ok {
			for _, rr := range *fa.Referrers() {
				if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
					return true
				}
			}
		}
	}
	return false
}

// intOf: a constant, or a variable that is only set once to one.
func (p *Program) intOf(v ssa.Value, c *Ctx) (int64, bool) {
	w, _ := p.res(v, c)
	if k, ok := constInt(w); ok {
		return k, true
	}
	if u, ok := w.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok {
			return p.globalInt(g)
		}
	}
	return 0, false
}

func (p *Program) isPush(ci ssa.CallInstruction) bool {
	return strings.HasPrefix(p.calleeName(ci), pushPkg+".SendNotification")
}

func subArg(p *Program, ci ssa.CallInstruction) ssa.Value {
	for _, a := range callArgs(ci) {
		if p.typeName(a.Type()) == pushPkg+".Subscription" {
			return a
		}
	}
	return nil
}

// checkedURL: v is the URL (or a part of it) of the endpoint.
func (p *Program) checkedURL(v ssa.Value, c *Ctx, endpoint map[string]bool) bool {
	v, c = p.res(v, c)
	call, ok := p.isCallTo(v, 0, "net/url.Parse", "net/url.ParseRequestURI")
	return ok && meet(p.denotes(call.Common().Args[0], c), endpoint)
}

func (p *Program) hostOf(v ssa.Value, c *Ctx, endpoint map[string]bool) bool {
	v, c = p.res(v, c)
	if base, bc, ok := p.loadOf(v, c, "net/url.URL", "Host"); ok {
		return p.checkedURL(base, bc, endpoint)
	}
	if call, ok := v.(*ssa.Call); ok && p.calleeName(call) == "net/url.URL.Hostname" {
		return p.checkedURL(callArgs(call)[0], c, endpoint)
	}
	return false
}

// resolved: v is an element of the addresses the endpoint's host resolves to.
func (p *Program) resolved(v ssa.Value, c *Ctx, endpoint map[string]bool) bool {
	for i := 0; i < 6; i++ {
		v, c = p.res(v, c)
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
			v = x.X
		case *ssa.FieldAddr: // net.IPAddr.IP
			v = x.X
		case *ssa.Field:
			v = x.X
		case *ssa.IndexAddr:
			if k, isk := constInt(x.Index); isk && k >= 0 {
				return false
			}
			v = x.X
			w, wc := p.res(v, c)
			e, ok := w.(*ssa.Extract)
			if !ok {
				return false
			}
			call, ok := e.Tuple.(*ssa.Call)
			if !ok || !strings.HasPrefix(p.calleeName(call), "net.") || !strings.Contains(p.calleeName(call), "Lookup") {
				return false
			}
			for _, a := range callArgs(call) {
				if p.hostOf(a, wc, endpoint) {
					return true
				}
			}
			return false
		case *ssa.Alloc: // a copy of the element
			sts := p.allCellStores(x)
			if len(sts) != 1 {
				return false
			}
			v = sts[0].Val
		case *ssa.Call:
			switch p.calleeName(x) {
			case "net.IP.To4", "net.IP.To16", "net/netip.Addr.Unmap":
				v = callArgs(x)[0]
			default:
				return false
			}
		default:
			return false
		}
	}
	return false
}

// notClass: cond tells that an address of the endpoint is not of the class.
func (p *Program) notClass(cond ssa.Value, pol bool, c *Ctx, class string, endpoint map[string]bool) bool {
	w, wc := p.res(cond, c)
	call, ok := w.(*ssa.Call)
	if !ok {
		return false
	}
	n := p.calleeName(call)
	if !strings.HasPrefix(n, "net.IP.") && !strings.HasPrefix(n, "net/netip.Addr.") {
		return false
	}
	m := n[strings.LastIndex(n, ".")+1:]
	if m != class && !(m == "IsGlobalUnicast" && class != "IsPrivate") {
		return false
	}
	return pol == (m != class) && p.resolved(callArgs(call)[0], wc, endpoint)
}

func runC32(p *Program, r *Report) {
	r.Rule("https", "clients only make the server push to HTTPS endpoints", 1)
	r.Rule("address", "clients cannot make the server push to local addresses", 5)
	r.Rule("tested", "a subscription is stored only after a message could be pushed to it", 1)
	r.Rule("bounded", "the number of subscriptions is bounded", 1)
	r.Rule("vapid", "messages are pushed with the server's own key pair, to subscriptions made for it", 3)
	r.Rule("config", "the key pair is generated once and stored before it is used", 2)
	r.Rule("status", "a push counts as done only if the push service accepted it, and as expired only if it says so", 3)
	r.Rule("everyone", "a message is pushed to each subscription, with its own endpoint and keys", 1)
	r.Rule("delete", "a subscription is only deleted if it expired, if it is old and fails, or if its client asks for it", 4)
	r.Rule("expired", "an expired subscription is deleted", 1)
	r.Rule("answer", "a client is told of a (un)registration only after it was done", 2)
	r.Rule("wanted", "only what the user should be notified of is pushed", 4)
	r.Rule("pushed", "direct messages, highlights, invitations and read markers are pushed", 4)

	// functions that push, by the error they return
	pushers := map[*ssa.Function]bool{}
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if p.isPush(ci) {
			pushers[fn] = true
		}
	})
	isSend := func(ci ssa.CallInstruction) bool {
		if p.isPush(ci) {
			return true
		}
		for _, g := range p.callees[ci] {
			if pushers[g] && subArg(p, ci) != nil {
				return true
			}
		}
		return false
	}

	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if !p.isPush(ci) {
			return
		}
		key := p.fnID(fn)
		sub := subArg(p, ci)
		endpoint := func(sink *Ctx) map[string]bool {
			v, c := p.part(sub, sink, "Endpoint")
			if v == nil {
				return map[string]bool{}
			}
			if p.listed(v, c) {
				return nil
			}
			return p.denotes(v, c)
		}
		p.guardRule(r, "https", key, ci, func(sink *Ctx) *Cut {
			ep := endpoint(sink)
			if ep == nil {
				return nil
			}
			return &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
				return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
					if k, isk := constString(mustResC(p, b, c)); !isk || k != "https" {
						return false
					}
					base, bc, ok := p.loadOf(a, c, "net/url.URL", "Scheme")
					return ok && p.checkedURL(base, bc, ep)
				})
			}}
		}, GuardOpts{MaxDepth: 6}, "a message is pushed to an endpoint a client gave that may not be an HTTPS URL")
		for _, class := range []string{"IsLoopback", "IsPrivate", "IsMulticast", "IsUnspecified", "IsLinkLocalUnicast"} {
			class := class
			p.guardRule(r, "address", key+":"+class, ci, func(sink *Ctx) *Cut {
				ep := endpoint(sink)
				if ep == nil {
					return nil
				}
				never := func(ssa.Instruction, *Ctx) bool { return false }
				may := func(i ssa.Instruction, c *Ctx) bool {
					call, ok := i.(*ssa.Call)
					return ok && (strings.HasPrefix(p.calleeName(call), "net.IP.Is") || strings.HasPrefix(p.calleeName(call), "net/netip.Addr.Is"))
				}
				return p.effectsMay(never, may, func(cond ssa.Value, pol bool, c *Ctx) bool {
					return p.notClass(cond, pol, c, class, ep)
				}).cut()
			}, GuardOpts{MaxDepth: 6}, "a message is pushed to an endpoint a client gave without checking that none of its addresses "+class)
		}

		// vapid
		pub := func(v ssa.Value, c *Ctx, which string) bool {
			return v != nil && strings.HasSuffix(p.ap(v, c), ".webPush.VAPIDKeys."+which)
		}
		var opts ssa.Value
		for _, a := range callArgs(ci) {
			if p.typeName(a.Type()) == pushPkg+".Options" {
				opts = a
			}
		}
		for _, which := range []string{"Public", "Private"} {
			v, c := p.part(opts, nil, "VAPID"+which+"Key")
			r.Check(pub(v, c, which), "vapid", key+":"+which, "%s: a message is not pushed with the server's %s key", p.at(ci), strings.ToLower(which))
		}
		p.guardRule(r, "vapid", key+":same", ci, func(sink *Ctx) *Cut {
			return &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
				return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
					if !meetsSuffix(p.denotes(a, c), ".webPush.VAPIDKeys.Public") {
						return false
					}
					if par, ok := mustResC(p, b, c).(*ssa.Parameter); ok && par.Parent() == fn {
						// the callers pass the key of the subscription
						for _, cc := range p.callers[fn] {
							if !p.ownVAPID(cc, callArgs(cc)[paramIndex(par)]) {
								return false
							}
						}
						return true
					}
					return strings.HasSuffix(p.ap(b, c), ".Keys.VAPID")
				})
			}}
		}, GuardOpts{MaxDepth: 3}, "a message is pushed to a subscription that was made for another key pair")

		// status
		p.checkPushStatus(r, fn)
	})

	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if p.pkgOf(fn) != "soju" {
			return
		}
		key := p.fnID(fn)
		switch {
		case strings.HasSuffix(name, ".StoreWebPushSubscription"):
			args := callArgs(ci)
			rec := args[len(args)-1]
			p.guardRule(r, "tested", key, ci, func(sink *Ctx) *Cut {
				return &Cut{Nil: func(v ssa.Value, isNil bool, c *Ctx) bool {
					call := p.errOf(v)
					return isNil && call != nil && isSend(call) && p.sameSub(call, c, rec, sink)
				}}
			}, GuardOpts{MaxDepth: 4}, "a subscription is stored although pushing to its endpoint with its keys was not tried, or failed")
			p.guardRule(r, "bounded", key, ci, fixed(&Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
				return p.upper(cond, pol, c)
			}}), GuardOpts{MaxDepth: 4}, "a subscription is stored without checking how many there are")
		case strings.HasSuffix(name, ".DeleteWebPushSubscription"):
			args := callArgs(ci)
			p.checkPushDelete(r, fn, ci, args[len(args)-1], isSend)
		}
	})
	p.checkPushEach(r, isSend)
	p.checkPushConfig(r)
	p.checkPushAnswers(r)
	p.checkPushWanted(r)
}

func meetsSuffix(m map[string]bool, suf string) bool {
	for k := range m {
		if strings.HasSuffix(k, suf) {
			return true
		}
	}
	return false
}

// ownVAPID: v is the key the subscription passed to the same call was made for.
func (p *Program) ownVAPID(ci ssa.CallInstruction, v ssa.Value) bool {
	ep, c := p.part(subArg(p, ci), nil, "Endpoint")
	if ep == nil {
		return false
	}
	a := p.ap(ep, c)
	return strings.HasSuffix(a, ".Endpoint") && p.ap(v, nil) == strings.TrimSuffix(a, ".Endpoint")+".Keys.VAPID"
}

// sameSub: the subscription pushed to has the endpoint and keys of the record.
func (p *Program) sameSub(send *ssa.Call, sc *Ctx, rec ssa.Value, rc *Ctx) bool {
	sub := subArg(p, send)
	base := p.ap(rec, rc)
	for _, f := range [][]string{{"Endpoint"}, {"Keys", "Auth"}, {"Keys", "P256dh"}} {
		v, vc := p.part(sub, sc, f...)
		if v == nil {
			return false
		}
		names := p.denotes(v, vc)
		field := strings.ReplaceAll(strings.Join(f, "."), "P256dh", "P256DH")
		if names[base+"."+field] {
			continue
		}
		w, wc := p.part(rec, rc, strings.Split(field, ".")...)
		if w == nil || !meet(names, p.denotes(w, wc)) {
			return false
		}
	}
	return true
}

// upper: cond bounds the number of stored subscriptions from above.
func (p *Program) upper(cond ssa.Value, pol bool, c *Ctx) bool {
	a, b, op, ok := cmpFact(cond, pol)
	if !ok {
		return false
	}
	if _, isk := p.intOf(a, c); isk {
		a, b, op = b, a, flip(op)
	}
	k, isk := p.intOf(b, c)
	if !isk || op != token.LSS && op != token.LEQ || k > 1000 {
		return false
	}
	w, wc := p.res(a, c)
	call, ok := w.(*ssa.Call)
	return ok && p.calleeName(call) == "builtin.len" && p.listed(call.Common().Args[0], wc)
}

// checkPushStatus: what the function that pushes says about the outcome.
func (p *Program) checkPushStatus(r *Report, fn *ssa.Function) {
	code := func(v ssa.Value, c *Ctx) bool {
		_, _, ok := p.loadOf(v, c, "net/http.Response", "StatusCode")
		return ok
	}
	side := func(low bool) *Cut {
		return &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
			a, b, op, ok := cmpFact(cond, pol)
			if !ok {
				return false
			}
			if _, isk := p.intOf(a, c); isk {
				a, b, op = b, a, flip(op)
			}
			k, isk := p.intOf(b, c)
			if !isk {
				return false
			}
			w, wc := p.res(a, c)
			if q, ok := w.(*ssa.BinOp); ok && q.Op == token.QUO {
				d, isd := constInt(q.Y)
				return isd && d == 100 && k == 2 && op == token.EQL && code(q.X, wc)
			}
			if !code(w, wc) {
				return false
			}
			switch {
			case op == token.EQL:
				return k >= 200 && k < 300
			case low:
				return op == token.GEQ && k >= 200 || op == token.GTR && k >= 199
			}
			return op == token.LSS && k <= 300 || op == token.LEQ && k <= 299
		}}
	}
	for _, low := range []bool{true, false} {
		bad := p.nilReturns(fn, side(low))
		at := ""
		if len(bad) > 0 {
			at = p.at(bad[0])
		}
		r.Check(len(bad) == 0, "status", p.fnID(fn)+map[bool]string{true: ":from 200", false: ":to 299"}[low], "%s: a push counts as done (%s) although the push service may have refused it", p.fnID(fn), at)
	}
	// expired
	n := 0
	for _, ri := range returnsOf(fn) {
		ret := ri.(*ssa.Return)
		for _, v := range ret.Results {
			if !isErrorType(v.Type()) {
				continue
			}
			for _, lf := range p.leaves(located{v: v, site: ret}, nil) {
				lf := lf
				if !p.isExpired(lf.v) {
					continue
				}
				n++
				said := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
					return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
						k, isk := p.intOf(b, c)
						return isk && (k == 404 || k == 410) && code(a, c)
					})
				}}
				ok := !p.leafReaches(&lf, said)
				_, reach := p.reachInstr(ret, nil, said)
				r.Check(ok || !reach, "status", p.fnID(fn)+":expired", "%s: a subscription is reported as expired although the push service did not say so", p.at(ret))
			}
		}
	}
	r.Check(n > 0, "status", p.fnID(fn)+":reported", "%s: that a subscription expired is not told apart from other failures", p.fnID(fn))
}

func (p *Program) isExpired(v ssa.Value) bool {
	w := mustRes(p, v)
	u, ok := w.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	return ok && isErrorType(u.Type()) && strings.Contains(g.Name(), "xpired")
}

// sentErr: v is the outcome of a push, to the record with the base path.
func (p *Program) sentErr(v ssa.Value, c *Ctx, base string, isSend func(ssa.CallInstruction) bool) bool {
	w, wc := p.res(v, c)
	call := p.errOf(w)
	if call == nil || !isSend(call) {
		return false
	}
	ep, ec := p.part(subArg(p, call), wc, "Endpoint")
	return ep != nil && p.ap(ep, ec) == base+".Endpoint"
}

func (p *Program) checkPushDelete(r *Report, fn *ssa.Function, ci ssa.CallInstruction, id ssa.Value, isSend func(ssa.CallInstruction) bool) {
	key := p.fnID(fn)
	mk := func(old bool) func(*Ctx) *Cut {
		return func(sink *Ctx) *Cut {
			path := p.ap(id, sink)
			base := strings.TrimSuffix(path, ".ID")
			if base == path {
				return &Cut{}
			}
			found := func(v ssa.Value, c *Ctx) bool { return p.listedEndpoint(v, c) }
			return &Cut{
				Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
					if eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
						return p.isExpired(mustResC(p, b, c)) && p.sentErr(a, c, base, isSend)
					}) {
						return true
					}
					// the client named the endpoint
					if eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool { return found(a, c) && !found(b, c) && isString(b.Type()) }) {
						return true
					}
					if !old {
						return false
					}
					a, b, op, ok := cmpFact(cond, pol)
					if !ok {
						return false
					}
					if _, isk := p.intOf(a, c); isk {
						a, b, op = b, a, flip(op)
					}
					k, isk := p.intOf(b, c)
					if !isk || op != token.GTR && op != token.GEQ || k < int64(24*3600*1e9) {
						return false
					}
					w, wc := p.res(a, c)
					since, ok := w.(*ssa.Call)
					return ok && (p.calleeName(since) == "time.Since" && p.ap(since.Common().Args[0], wc) == base+".UpdatedAt" ||
						p.calleeName(since) == "time.Time.Sub" && p.ap(callArgs(since)[1], wc) == base+".UpdatedAt")
				},
				Nil: func(v ssa.Value, isNil bool, c *Ctx) bool {
					return !old && !isNil && p.sentErr(v, c, base, isSend)
				},
			}
		}
	}
	p.guardRule(r, "delete", key+":failed", ci, mk(false), GuardOpts{MaxDepth: 3}, "a subscription is deleted although pushing to it did not fail and its client did not ask for it")
	p.guardRule(r, "delete", key+":old", ci, mk(true), GuardOpts{MaxDepth: 3}, "a subscription is deleted although it did not expire, is not old and its client did not ask for it")
}

// listedEndpoint: v is the endpoint of a stored subscription.
func (p *Program) listedEndpoint(v ssa.Value, c *Ctx) bool {
	_, _, ok := p.loadOf(v, c, pushSub, "Endpoint")
	return ok
}

// checkPushEach: where the stored subscriptions are pushed to.
func (p *Program) checkPushEach(r *Report, isSend func(ssa.CallInstruction) bool) {
	seen := map[*ssa.Function]bool{}
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if !isSend(ci) || p.isPush(ci) {
			return
		}
		ctx := p.listedIn(fn, subArg(p, ci))
		if ctx == nil {
			return
		}
		ep, epc := p.part(subArg(p, ci), nil, "Endpoint")
		own := func(call ssa.CallInstruction, c *Ctx) bool {
			sub := subArg(p, call)
			v, vc := p.part(sub, c, "Endpoint")
			if v == nil || !p.listed(v, vc) {
				return false
			}
			base := strings.TrimSuffix(p.ap(v, vc), ".Endpoint")
			for _, f := range [][3]string{{"Keys", "Auth", "Auth"}, {"Keys", "P256dh", "P256DH"}} {
				w, wc := p.part(sub, c, f[0], f[1])
				if w == nil || p.ap(w, wc) != base+".Keys."+f[2] {
					return false
				}
			}
			return true
		}
		key := p.fnID(fn)
		p.within(topFn(fn), func(_ *ssa.Function, i ssa.Instruction) {
			ls, ok := i.(*ssa.Call)
			if !ok || !strings.HasSuffix(p.calleeName(ls), ".ListWebPushSubscriptions") {
				return
			}
			la := callArgs(ls)
			for _, o := range p.origins(la[len(la)-1], nil, sliceOpts{}) {
				base, bc, is := p.loadOf(o.V, o.Ctx, "database.Network", "ID")
				mine := is
				if is && topFn(fn).Signature.Recv() != nil && p.typeName(topFn(fn).Signature.Recv().Type()) == "soju.network" {
					v, _ := p.res(stripFieldAddr(base), bc)
					mine = v == ssa.Value(topFn(fn).Params[0])
				}
				r.Check(mine, "everyone", key+":network", "%s: a message of a network is not pushed to the subscriptions of that network", p.at(ls))
			}
		})
		r.Check(own(ci, *ctx), "everyone", key+":keys", "%s: a message is pushed to a subscription with the keys of another", p.at(ci))
		if call, ok := ci.(*ssa.Call); ok {
			deletes := func(i ssa.Instruction, c *Ctx) bool {
				d, ok := i.(*ssa.Call)
				return ok && strings.HasSuffix(p.calleeName(d), ".DeleteWebPushSubscription")
			}
			del := p.effectsMay(func(i ssa.Instruction, c *Ctx) bool {
				if !deletes(i, c) {
					return false
				}
				args := callArgs(i.(*ssa.Call))
				return p.ap(args[len(args)-1], c) == strings.TrimSuffix(p.ap(ep, epc), ".Endpoint")+".ID"
			}, deletes, nil)
			cut := del.cut()
			cut.Atom = func(cond ssa.Value, pol bool, c *Ctx) bool {
				if eqFact(cond, pol, token.NEQ, func(a, b ssa.Value) bool {
					w, _ := p.res(a, c)
					return p.isExpired(mustResC(p, b, c)) && p.errOf(w) == call
				}) {
					return true
				}
				return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
					w, _ := p.res(a, c)
					return isNilConst(b) && p.errOf(w) == call
				})
			}
			at := ""
			ends := returnsOf(fn)
			if h := p.loopHeader(call); h != nil {
				ends = append(ends, h.Instrs[0])
			}
			for _, end := range ends {
				if p.searchAfter(call, end.Block(), indexOf(end), cut) {
					at = p.at(end)
				}
			}
			r.Check(at == "", "expired", key, "%s: a subscription that expired is not deleted", p.at(ci))
		}

		// where they are listed
		p.eachCall(func(g *ssa.Function, lc ssa.CallInstruction, name string) {
			if !strings.HasSuffix(name, "."+listSubs) || p.pkgOf(g) == "database" || seen[g] {
				return
			}
			list, ok := lc.(*ssa.Call)
			if !ok || !p.reachesSend(g, fn) {
				return
			}
			seen[g] = true
			direct := func(i ssa.Instruction, c *Ctx) bool {
				call, ok := i.(*ssa.Call)
				return ok && isSend(call) && own(call, c)
			}
			e := p.effectsMay(direct, func(i ssa.Instruction, c *Ctx) bool {
				call, ok := i.(*ssa.Call)
				return ok && isSend(call)
			}, func(cond ssa.Value, pol bool, c *Ctx) bool {
				return eqFact(cond, pol, token.NEQ, func(a, b ssa.Value) bool {
					return isNilConst(b) && p.errOf(mustResC(p, a, c)) == list
				})
			})
			at := p.avoided(list, returnsOf(g), e, nil)
			r.Check(at == nil, "everyone", p.fnID(g), "%s: the function can end (%s) without the message having been pushed to each subscription", p.at(lc), p.at(at))
		})
	})
}

// listedIn: how fn is entered with a stored subscription, if it is.
func (p *Program) listedIn(fn *ssa.Function, sub ssa.Value) **Ctx {
	ctxs := []*Ctx{nil}
	for _, ci := range p.callers[fn] {
		ctxs = append(ctxs, mkCtx(Ctx{call: ci}))
	}
	for _, c := range ctxs {
		if ep, ec := p.part(sub, c, "Endpoint"); ep != nil && p.listed(ep, ec) {
			c := c
			return &c
		}
	}
	return nil
}

// reachesSend: g is, or calls, fn.
func (p *Program) reachesSend(g, fn *ssa.Function) bool {
	if g == fn || fn.Parent() == g {
		return true
	}
	ok := false
	p.within(g, func(_ *ssa.Function, i ssa.Instruction) {
		if ci, is := i.(ssa.CallInstruction); is {
			for _, f := range p.callees[ci] {
				ok = ok || f == fn
			}
		}
	})
	return ok
}

func (p *Program) loopHeader(ins ssa.Instruction) *ssa.BasicBlock {
	for b := ins.Block(); b != nil; b = b.Idom() {
		if body := p.loopBody(b); body[ins.Block()] {
			return b
		}
	}
	return nil
}

func (p *Program) checkPushConfig(r *Report) {
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if name != pushPkg+".GenerateVAPIDKeys" {
			return
		}
		p.guardRule(r, "config", p.fnID(fn)+":generate", ci, fixed(&Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
			a, b, op, ok := cmpFact(cond, pol)
			if !ok {
				return false
			}
			if _, isk := p.intOf(a, c); isk {
				a, b, op = b, a, flip(op)
			}
			k, isk := p.intOf(b, c)
			if !isk || !(op == token.EQL && k == 0 || op == token.NEQ && k == 1 || op == token.LSS && k == 1 || op == token.LEQ && k == 0) {
				return false
			}
			call, ok := mustResC(p, a, c).(*ssa.Call)
			if !ok || p.calleeName(call) != "builtin.len" {
				return false
			}
			e, ok := mustResC(p, call.Common().Args[0], c).(*ssa.Extract)
			if !ok {
				return false
			}
			l, ok := e.Tuple.(*ssa.Call)
			return ok && strings.HasSuffix(p.calleeName(l), ".ListWebPushConfigs")
		}}), GuardOpts{MaxDepth: 3}, "a key pair is generated although there may be one, for which all subscriptions were made")
	})
	for _, st := range p.storesTo("soju.Server", "webPush") {
		fn := st.Parent()
		for _, lf := range p.leaves(located{v: st.Val, site: st}, nil) {
			lf := lf
			w, wc := p.res(lf.v, lf.ctx)
			if ia, ok := w.(*ssa.IndexAddr); ok {
				e, ok := mustResC(p, ia.X, wc).(*ssa.Extract)
				if ok {
					if l, ok := e.Tuple.(*ssa.Call); ok && strings.HasSuffix(p.calleeName(l), ".ListWebPushConfigs") {
						r.Ok("config", p.fnID(fn)+":listed")
						continue
					}
				}
			}
			val := p.ap(w, wc)
			ok := !p.leafReaches(&lf, p.nilErrOf(func(call *ssa.Call, c *Ctx) bool {
				args := callArgs(call)
				return p.ap(args[len(args)-1], c) == val
			}, "database.Database.StoreWebPushConfig"))
			if !ok {
				_, reach := p.reachInstr(st, nil, p.nilErrOf(func(call *ssa.Call, c *Ctx) bool {
					args := callArgs(call)
					return p.ap(args[len(args)-1], c) == val
				}, "database.Database.StoreWebPushConfig"))
				ok = !reach
			}
			r.Check(ok, "config", p.fnID(fn)+":stored", "%s: a key pair is used that was not stored: subscriptions made for it are lost with a restart", p.at(st))
		}
	}
}

func (p *Program) checkPushAnswers(r *Report) {
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if name != "soju.downstreamConn.SendMessage" {
			return
		}
		var msg ssa.Value
		for _, a := range callArgs(ci) {
			if p.typeName(a.Type()) == ircMessage {
				msg = a
			}
		}
		msg = mustRes(p, msg)
		cmd, _ := constString(mustResNil(p, p.literalField(msg, "Command")))
		if cmd != "WEBPUSH" {
			return
		}
		sub := p.firstParam(msg)
		if sub == nil {
			r.Bad("answer", p.fnID(fn), "%s: cannot tell what the answer stands for", p.at(ci))
			return
		}
		mk := func(sink *Ctx) *Cut {
			k, isk := constString(mustResC(p, sub, sink))
			store := p.nilErrOf(nil, "database.Database.StoreWebPushSubscription")
			same := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
				return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
					return strings.HasSuffix(p.ap(a, c), ".Keys") && strings.HasSuffix(p.ap(b, c), ".Keys")
				})
			}}
			del := p.nilErrOf(nil, "database.Database.DeleteWebPushSubscription")
			none := &Cut{Nil: func(v ssa.Value, isNil bool, c *Ctx) bool {
				return isNil && p.typeName(v.Type()) == pushSub
			}}
			if isk && k == "REGISTER" {
				return anyOf(store, same)
			}
			if isk && k == "UNREGISTER" {
				return anyOf(del, none)
			}
			return anyOf(store, same, del, none)
		}
		p.guardRule(r, "answer", p.fnID(fn), ci, mk, GuardOpts{MaxDepth: 3}, "a client is told that its subscription was (un)registered although it may not have been")
	})
}

func mustResNil(p *Program, v ssa.Value) ssa.Value {
	if v == nil {
		return ssa.NewConst(constant.MakeString(""), types.Typ[types.String])
	}
	return mustRes(p, v)
}

// firstParam: the first parameter of a message built at msg.
func (p *Program) firstParam(msg ssa.Value) ssa.Value {
	ps := p.literalField(msg, "Params")
	if ps == nil {
		return nil
	}
	sl, ok := mustRes(p, ps).(*ssa.Slice)
	if !ok || sl.X.Referrers() == nil {
		return nil
	}
	for _, ref := range *sl.X.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		if k, isk := constInt(ia.Index); !isk || k != 0 {
			continue
		}
		for _, rr := range *ia.Referrers() {
			if st, ok := rr.(*ssa.Store); ok {
				return st.Val
			}
		}
	}
	return nil
}

// checkPushWanted: what messages of a server are pushed.
func (p *Program) checkPushWanted(r *Report) {
	for _, root := range p.handlerRoots("upstreamConn") {
		for _, cmd := range []string{"PRIVMSG", "NOTICE", "INVITE"} {
			p.checkPushCmd(r, root, cmd)
		}
	}
	p.checkPushRead(r)
}

// broadcasters: the innermost functions that push a message to the stored
// subscriptions, and function literals that call one.
func (p *Program) broadcasters() map[*ssa.Function]bool {
	if p.bcast != nil {
		return p.bcast
	}
	var up func(set map[*ssa.Function]bool, f *ssa.Function)
	up = func(set map[*ssa.Function]bool, f *ssa.Function) {
		if f == nil || set[f] || p.isHandler(f, "downstreamConn") != nil || p.isHandler(f, "upstreamConn") != nil {
			return
		}
		set[f] = true
		up(set, f.Parent())
		for _, ci := range p.callers[f] {
			if ci.Common().StaticCallee() == f {
				up(set, ci.Parent())
			}
		}
	}
	sends, lists := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if p.isPush(ci) {
			up(sends, fn)
		}
		if strings.HasSuffix(name, "."+listSubs) && p.pkgOf(fn) != "database" {
			up(lists, fn)
		}
	})
	inner := map[*ssa.Function]bool{}
	for f := range sends {
		inner[f] = lists[f]
	}
	both := map[*ssa.Function]bool{}
	for f, is := range inner {
		both[f] = is
	}
	out := map[*ssa.Function]bool{}
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if f := ci.Common().StaticCallee(); f != nil && f != fn && both[f] {
			inner[fn] = false
		}
	})
	for f := range both {
		if f.Parent() != nil && both[f] {
			inner[f.Parent()] = false
		}
	}
	for f, is := range inner {
		if is {
			out[f] = true
		}
	}
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if f := ci.Common().StaticCallee(); f != nil && inner[f] && fn.Parent() != nil {
			out[fn] = true
		}
	})
	p.bcast = out
	return out
}

// pushOf: ins pushes a message to the stored subscriptions; which.
func (p *Program) pushOf(ins ssa.Instruction, bs map[*ssa.Function]bool) (msg ssa.Value, ok bool) {
	ci, is := ins.(ssa.CallInstruction)
	if !is {
		return nil, false
	}
	for _, f := range p.callees[ci] {
		if !bs[f] {
			continue
		}
		for _, a := range callArgs(ci) {
			if p.typeName(a.Type()) == ircMessage {
				return a, true
			}
		}
		if mc, is := ci.Common().Value.(*ssa.MakeClosure); is {
			// a function literal that pushes: what it captures
			for _, b := range mc.Bindings {
				if strings.Contains(p.typeName(b.Type()), ircMessage) || strings.HasSuffix(b.Type().String(), "irc.v4.Message") {
					return b, true
				}
			}
		}
		return nil, true
	}
	return nil, false
}

func (p *Program) checkPushCmd(r *Report, root *ssa.Function, cmd string) {
	s := p.stateRun(root, cmd)
	bs := p.broadcasters()
	me := func(role string, want bool) assumption {
		return func(cond ssa.Value, pol bool, c *Ctx) bool {
			got, pos := s.isMe(cond, c)
			return got != "" && strings.Contains(","+got+",", role) && (pos == pol) == want
		}
	}
	highlight := func(want bool) assumption {
		return func(cond ssa.Value, pol bool, c *Ctx) bool {
			call, ok := mustResC(p, cond, c).(*ssa.Call)
			return ok && strings.HasSuffix(p.calleeName(call), "isHighlight") && pol == want
		}
	}
	relayNone := func(want bool) assumption {
		return func(cond ssa.Value, pol bool, c *Ctx) bool {
			op := token.NEQ
			if want {
				op = token.EQL
			}
			return eqFact(cond, pol, op, func(a, b ssa.Value) bool {
				_, _, ok := p.loadOf(a, c, "database.Channel", "RelayDetached")
				k, isk := p.intOf(b, c)
				return ok && isk && k == p.constOf("database", "FilterNone")
			})
		}
	}
	noChannel := func(none bool) assumption {
		return func(cond ssa.Value, pol bool, c *Ctx) bool {
			op := token.NEQ
			if none {
				op = token.EQL
			}
			return eqFact(cond, pol, op, func(a, b ssa.Value) bool {
				return isNilConst(b) && p.typeName(mustResC(p, a, c).Type()) == "database.Channel"
			})
		}
	}

	// only
	n := 0
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		if bs[fn] || !s.reach(ins) {
			return
		}
		msg, ok := p.pushOf(ins, bs)
		if !ok || recvName2(top(fn)) != "upstreamConn" {
			return
		}
		_ = msg
		key := cmd + ":" + p.fnID(fn)
		guard := func(what, text string, atoms ...assumption) {
			bad := p.Unguarded(ins, func(sink *Ctx) *Cut {
				return (&Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
					for _, a := range atoms {
						if a(cond, pol, c) {
							return true
						}
					}
					return false
				}}).assuming(s.assume)
			}, GuardOpts{MaxDepth: 3, Stop: nil})
			r.Check(len(bad) == 0, "wanted", key+":"+what, "%s: %s", p.at(ins), text)
		}
		n++
		if cmd == "INVITE" {
			guard("invited", "an invitation of someone else is pushed", me("p0", true))
			return
		}
		guard("others", "the user's own messages are pushed to them", me("sender", false))
		guard("addressed", "a message that is neither to the user nor a highlight is pushed", me("p0", true), highlight(true))
		guard("muted", "a message in a detached channel that relays none is pushed", relayNone(false), noChannel(true), me("sender", true), func(cond ssa.Value, pol bool, c *Ctx) bool {
			_, _, ok := p.loadOf(cond, c, "database.Channel", "Detached")
			return ok && !pol
		})
	})

	// all of it
	push := func(i ssa.Instruction, c *Ctx) bool {
		if bs[i.Parent()] {
			return false
		}
		msg, ok := p.pushOf(i, bs)
		return ok && msg != nil && p.isRootMsg(s, msg, c)
	}
	server := func(cond ssa.Value, pol bool, c *Ctx) bool {
		if _, _, ok := p.loadOf(cond, c, upConn, "registered"); ok {
			return !pol
		}
		switch x := mustResC(p, cond, c).(type) {
		case *ssa.Call:
			n := p.calleeName(x)
			if !pol || s.mentionsMe(x, c) {
				return false
			}
			return strings.HasSuffix(n, "equalCasemap") || n == "strings.HasPrefix" && isConstStr(callArgs(x)[1], "$")
		case *ssa.BinOp:
			return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool { return isConstStr(b, "*") })
		}
		return false
	}
	context := func(cond ssa.Value, pol bool, c *Ctx) bool { // a tag names a channel
		e, ok := mustResC(p, cond, c).(*ssa.Extract)
		if !ok || !pol {
			return false
		}
		l, ok := e.Tuple.(*ssa.Lookup)
		if !ok {
			return false
		}
		k, isk := constString(l.Index)
		return isk && k == "+draft/channel-context"
	}
	saved := func(cond ssa.Value, pol bool, c *Ctx) bool { return noChannel(false)(cond, pol, c) }
	if cmd == "INVITE" {
		s.must(r, "pushed", "invitation", push, me("p0", false), saved)
		return
	}
	s.must(r, "pushed", "direct message", push, me("p0", false), me("sender", true), server, context, relayNone(true))
	s.must(r, "pushed", "highlight", push, me("p0", true), me("sender", true), server, highlight(false), noChannel(true), relayNone(true))
}

func isConstStr(v ssa.Value, k string) bool {
	s, ok := constString(v)
	return ok && s == k
}

func (s *stateRun) mentionsMe(call *ssa.Call, c *Ctx) bool {
	for _, a := range callArgs(call) {
		if isString(a.Type()) && s.role(a, c) == "me" {
			return true
		}
	}
	return false
}

// isRootMsg: the message that is handled.
func (p *Program) isRootMsg(s *stateRun, v ssa.Value, c *Ctx) bool {
	return p.rootMsg0(v, c, 0)
}

func (p *Program) rootMsg0(v ssa.Value, c *Ctx, d int) bool {
	if d > 4 {
		return false
	}
	for _, o := range p.origins(v, c, sliceOpts{}) {
		w := o.V
		if u, ok := w.(*ssa.UnOp); ok && u.Op == token.MUL {
			w = u.X
		}
		if call, ok := w.(*ssa.Call); ok && strings.HasSuffix(p.calleeName(call), "Message.Copy") {
			w, _ = p.res(callArgs(call)[0], o.Ctx)
		}
		if al, ok := w.(*ssa.Alloc); ok {
			sts := p.allCellStores(al)
			for _, st := range sts {
				if !p.rootMsg0(st.Val, o.Ctx, d+1) {
					return false
				}
			}
			if len(sts) > 0 {
				continue
			}
		}
		par, ok := w.(*ssa.Parameter)
		if !ok || p.typeName(par.Type()) != ircMessage {
			return false
		}
	}
	return true
}

func top(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

// checkPushRead: what was pushed can be dismissed.
func (p *Program) checkPushRead(r *Report) {
	bs := p.broadcasters()
	targets := func(ins ssa.Instruction, method string, c *Ctx) (*ssa.Call, bool) {
		call, ok := ins.(*ssa.Call)
		if !ok || !strings.HasSuffix(p.calleeName(call), "CaseMappingMap."+method) {
			return nil, false
		}
		fa, ok := mustResC(p, callArgs(call)[0], c).(*ssa.FieldAddr)
		return call, ok && p.isField(fa.X.Type(), fa.Field, "soju.network", "pushTargets")
	}
	push := func(i ssa.Instruction, c *Ctx) bool {
		_, ok := p.pushOf(i, bs)
		return ok && !bs[i.Parent()]
	}
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		call, ok := ci.(*ssa.Call)
		if !ok || recvName2(top(fn)) != "downstreamConn" {
			return
		}
		if strings.HasSuffix(name, ".StoreReadReceipt") {
			e := p.effects(push, func(cond ssa.Value, pol bool, c *Ctx) bool {
				if eqFact(cond, pol, token.NEQ, func(a, b ssa.Value) bool {
					return isNilConst(b) && p.errOf(mustResC(p, a, c)) == call
				}) || notAfter(call, cond, pol) || p.setAfter(call, cond, pol) {
					return true
				}
				h, ok := mustResC(p, cond, c).(*ssa.Call)
				if !ok || pol {
					return false
				}
				_, ok = targets(h, "Has", c)
				return ok
			})
			at := p.avoided(call, returnsOf(fn), e, nil)
			r.Check(at == nil, "pushed", "read marker:"+p.fnID(fn), "%s: a read marker of a conversation that was pushed about is not pushed (%s)", p.at(ci), p.at(at))
		}
		if del, ok := targets(call, "Del", nil); ok {
			p.guardRule(r, "pushed", "pending:"+p.fnID(fn), del, fixed(&Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
				b, ok := mustResC(p, cond, c).(*ssa.Call)
				if !ok {
					return false
				}
				fromTargets := func(v ssa.Value) bool {
					g, ok := mustResC(p, v, c).(*ssa.Call)
					if !ok {
						return false
					}
					_, ok = targets(g, "Get", c)
					return ok
				}
				args := callArgs(b)
				switch p.calleeName(b) {
				case "time.Time.Before":
					return !pol && fromTargets(args[1]) || pol && fromTargets(args[0])
				case "time.Time.After":
					return !pol && fromTargets(args[0]) || pol && fromTargets(args[1])
				}
				return false
			}, Instr: func(i ssa.Instruction, c *Ctx) bool { // or there is no conversation any more
				d, ok := i.(*ssa.Call)
				return ok && (strings.HasSuffix(p.calleeName(d), ".deleteChannel") || strings.HasSuffix(p.calleeName(d), ".DeleteChannel"))
			}}), GuardOpts{MaxDepth: 3}, "a conversation is taken as read although its last notification is newer than the read marker")
		}
	})
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		msg, ok := p.pushOf(ins, bs)
		if !ok || bs[fn] || recvName2(top(fn)) != "upstreamConn" || msg == nil {
			return
		}
		// invitations are not in a conversation
		s := p.stateRun(top(fn), "PRIVMSG")
		if s.msg == nil || !s.reach(ins) {
			return
		}
		e := p.effects(func(i ssa.Instruction, c *Ctx) bool { _, ok := targets(i, "Set", c); return ok }, func(cond ssa.Value, pol bool, c *Ctx) bool {
			return eqFact(cond, pol, token.NEQ, func(a, b ssa.Value) bool {
				call := p.errOf(mustResC(p, a, c))
				return isNilConst(b) && call != nil && p.calleeName(call) == "time.Parse"
			})
		})
		at := p.avoided(ins, returnsOf(fn), e, nil)
		r.Check(at == nil, "pushed", "noted:"+p.fnID(fn), "%s: what was pushed is not noted, so that it is not dismissed when it is read", p.at(ins))
	})
}

// constOf: the value of an integer constant of a package of the repository.
func (p *Program) constOf(pkg, name string) int64 {
	sp := p.ByPkg[pkg]
	if sp == nil {
		return -1
	}
	k, ok := sp.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return -1
	}
	n, _ := constant.Int64Val(k.Val())
	return n
}

// notAfter: cond is a flag that is set when call was passed.
func notAfter(call *ssa.Call, cond ssa.Value, pol bool) bool {
	ph, ok := cond.(*ssa.Phi)
	if !ok {
		return false
	}
	reach := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, call.Block().Succs...)
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		if reach[b] || b == ph.Block() {
			continue
		}
		reach[b] = true
		work = append(work, b.Succs...)
	}
	for i, e := range ph.Edges {
		if !reach[ph.Block().Preds[i]] {
			continue
		}
		if inner, ok := e.(*ssa.Phi); ok && notAfter(call, inner, pol) {
			continue
		}
		if k, isk := constBool(e); !isk || k == pol {
			return false
		}
	}
	return true
}

// setAfter: cond is a variable that has another value whenever call succeeded.
func (p *Program) setAfter(call *ssa.Call, cond ssa.Value, pol bool) bool {
	u, ok := cond.(*ssa.UnOp)
	if !ok || u.Op != token.MUL || u.Parent() != call.Parent() {
		return false
	}
	al := p.cell(u.X)
	if al == nil {
		return false
	}
	failed := func(cond ssa.Value, pol bool, c *Ctx) bool {
		return eqFact(cond, pol, token.NEQ, func(a, b ssa.Value) bool {
			return isNilConst(b) && p.errOf(mustResC(p, a, c)) == call
		})
	}
	for _, st := range p.allCellStores(al) {
		if k, isk := constBool(st.Val); isk && k != pol {
			continue
		}
		if st.Parent() != call.Parent() || p.searchAfter(call, st.Block(), indexOf(st), &Cut{Atom: failed}) {
			return false
		}
	}
	return !p.searchAfter(call, u.Block(), indexOf(u), &Cut{Atom: failed, Instr: func(i ssa.Instruction, c *Ctx) bool {
		st, ok := i.(*ssa.Store)
		return ok && p.cell(st.Addr) == al
	}})
}
