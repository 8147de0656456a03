package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{ID: "C21", Explanation: "Every use of crypto/tls configurations is enumerated; guard analysis decides where verification may be replaced, every way the replacement can accept is traced to a comparison of the pinned fingerprint with the server's own certificate, and the connection handed on is sliced back to the TLS client for every scheme that is not explicitly plain text.",
		Assumptions: []string{"crypto/tls verifies the chain and name of a server unless InsecureSkipVerify is set"},
		Run:         runC21})
}

func (p *Program) tlsFieldStores(field string) (out []*ssa.Store) {
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		st, ok := ins.(*ssa.Store)
		if !ok {
			return
		}
		if fa, ok := st.Addr.(*ssa.FieldAddr); ok && p.isField(fa.X.Type(), fa.Field, "crypto/tls.Config", field) {
			out = append(out, st)
		}
	})
	return
}

func runC21(p *Program, r *Report) {
	r.Rule("verified", "certificates of servers are verified, unless the network has a pinned fingerprint", 1)
	r.Rule("pinned", "with a pinned fingerprint only the server's own certificate matching it is accepted", 1)
	r.Rule("named", "the certificate is verified for the host of the network's address", 1)
	r.Rule("encrypted", "a network is only connected to in plain text if its address says so", 1)
	r.Rule("default", "an address without a scheme means TLS", 1)
	r.Rule("client-cert", "the network's own client certificate is only presented to that network, for EXTERNAL", 1)
	r.Rule("user-address", "with per-user source addresses, TCP connections use the user's", 1)

	pinSet := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
		return p.strNonEmpty(func(v ssa.Value, c *Ctx) bool {
			_, _, ok := p.loadOf(v, c, "database.Network", "CertFP")
			return ok
		}).Atom(cond, pol, c)
	}}
	for _, st := range p.tlsFieldStores("InsecureSkipVerify") {
		fn := st.Parent()
		key := p.fnID(fn)
		ok := true
		if b, isk := constBool(st.Val); isk && !b {
			r.Ok("verified", key)
			continue
		}
		// a computed value: true only if pinned
		for _, lf := range p.leaves(located{st.Val, nil, st}, nil) {
			lf := lf
			if b, isk := constBool(lf.v); isk && !b {
				continue
			}
			if p.est(lf.v, true, lf.ctx, pinSet, 0) {
				continue
			}
			if p.leafOpen(&lf, st, pinSet) && len(p.Unguarded(st, fixed(pinSet), GuardOpts{MaxDepth: 3})) > 0 {
				ok = false
			}
		}
		r.Check(ok, "verified", key, "%s: the certificate of the server is not verified although no fingerprint is pinned", p.at(st))
		base := st.Addr.(*ssa.FieldAddr).X
		set := func(i ssa.Instruction, c *Ctx) bool {
			s2, ok := i.(*ssa.Store)
			if !ok {
				return false
			}
			fa, ok := s2.Addr.(*ssa.FieldAddr)
			if !ok || p.typeName(fa.X.Type()) != "crypto/tls.Config" || isNilConst(s2.Val) {
				return false
			}
			n := fieldVar(fa.X.Type(), fa.Field).Name()
			return n == "VerifyPeerCertificate" || n == "VerifyConnection"
		}
		_ = base
		e := p.effects(set, nil)
		at := p.avoided(st, returnsOf(fn), e, nil)
		if at != nil && !p.reach(st, e.cut()) {
			at = nil
		}
		r.Check(at == nil, "pinned", key+":set", "%s: the certificate of the server is not verified at all (%s)", p.at(st), p.at(at))
	}
	// a resumed session comes without certificates: VerifyPeerCertificate is
	// not called for it
	for _, st := range p.tlsFieldStores("ClientSessionCache") {
		if isNilConst(mustRes(p, st.Val)) {
			continue
		}
		conn := false
		for _, o := range p.tlsFieldStores("VerifyConnection") {
			if o.Parent() == st.Parent() && p.ap(o.Addr.(*ssa.FieldAddr).X, nil) == p.ap(st.Addr.(*ssa.FieldAddr).X, nil) {
				conn = true
			}
		}
		r.Check(conn, "pinned", p.fnID(st.Parent())+":resumed", "%s: a session with a server can be resumed without its certificate being looked at", p.at(st))
	}
	for _, f := range []string{"VerifyPeerCertificate", "VerifyConnection"} {
		for _, st := range p.tlsFieldStores(f) {
			for _, g := range p.resolveValue(st.Val, 0) {
				bad := p.nilReturns(g, p.pinMatches())
				at := ""
				if len(bad) > 0 {
					at = p.at(bad[0])
				}
				r.Check(len(bad) == 0, "pinned", p.fnID(g), "%s: a server can be accepted whose own certificate does not have the pinned fingerprint", at)
			}
		}
	}

	// connections
	plain := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
		return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
			s, ok := constString(b)
			_, _, is := p.loadOf(a, c, "net/url.URL", "Scheme")
			return ok && is && (s == "irc+insecure" || s == "irc+unix" || s == "unix")
		})
	}}
	isTLS := func(v ssa.Value, c *Ctx) bool {
		call, ok := v.(*ssa.Call)
		return ok && p.calleeName(call) == "crypto/tls.Client"
	}
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		// the connection of an upstream: the argument of what is stored into it
		st, ok := ins.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || p.typeName(fa.X.Type()) != "soju.upstreamConn" || fieldVar(fa.X.Type(), fa.Field).Name() != "conn" {
			return
		}
		n := 0
		for _, ic := range p.argsOfKind(st.Val, "soju.ircConn") {
			for _, nc := range p.argsOfKind(ic.v, "net.Conn") {
				for _, u := range p.lift(nc.v, nc.site) {
					for i, lf := range p.leaves(u, isTLS) {
						lf := lf
						n++
						v := lf.v
						if mi, ok := v.(*ssa.MakeInterface); ok {
							v, _ = p.res(mi.X, lf.ctx)
						}
						key := p.fnID(u.site.Parent()) + "#" + itoa(i)
						if isTLS(v, lf.ctx) {
							r.Ok("encrypted", key)
							p.tlsClient(r, v.(*ssa.Call))
							continue
						}
						if isNilConst(v) {
							continue
						}
						r.Check(!p.leafOpen(&lf, u.site, plain), "encrypted", key, "%s: a network whose address does not ask for plain text can be connected to without TLS %s", p.at(u.site), p.valAt(v))
					}
				}
			}
		}
		if n == 0 {
			r.Bad("encrypted", p.fnID(fn), "%s: the connection to the server was not recognised", p.at(ins))
		}
	})

	// the default scheme
	for _, f := range p.funcsNamed("database.Network.URL") {
		p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
			if fn != f || name != "net/url.Parse" {
				return
			}
			for i, lf := range p.leaves(located{callArgs(ci)[0], nil, ci}, nil) {
				key := p.fnID(f) + "#" + itoa(i)
				if _, _, ok := p.loadOf(lf.v, lf.ctx, "database.Network", "Addr"); ok {
					// only with a scheme
					has := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
						call, ok := cond.(*ssa.Call)
						if !ok {
							w, _ := p.res(cond, c)
							if ex, isx := w.(*ssa.Extract); isx {
								call, ok = ex.Tuple.(*ssa.Call)
							}
						}
						if !ok || !pol {
							return false
						}
						n := p.calleeName(call)
						if n != "strings.Contains" && n != "strings.Cut" {
							return false
						}
						s, isk := constString(callArgs(call)[1])
						return isk && s == "://"
					}}
					lf := lf
					r.Check(!p.leafOpen(&lf, ci, has), "default", key, "%s: an address without a scheme is not taken for a TLS server", p.at(ci))
					continue
				}
				b, ok := lf.v.(*ssa.BinOp)
				if ok && b.Op == token.ADD {
					s, isk := constString(b.X)
					r.Check(isk && s == "ircs://", "default", key, "%s: an address without a scheme is not taken for a TLS server (%q)", p.at(ci), s)
					continue
				}
				r.Bad("default", key, "%s: the address of a network is not understood", p.at(ci))
			}
		})
	}
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		st, ok := ins.(*ssa.Store)
		if !ok || !p.inSoju(fn) {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if ok && p.isField(fa.X.Type(), fa.Field, "net/url.URL", "Scheme") {
			s, isk := constString(st.Val)
			if p.pkgOf(fn) == "database" || p.pkgOf(fn) == "soju" {
				r.Check(isk && (s == "ircs" || s == "https" || s == "http"), "default", p.fnID(fn)+":scheme", "%s: the scheme of an address is changed", p.at(ins))
			}
		}
	})

	// client certificates
	for _, st := range p.tlsFieldStores("Certificates") {
		fn := st.Parent()
		if p.pkgOf(fn) != "soju" {
			continue
		}
		ext := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
			return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
				s, ok := constString(b)
				_, _, is := p.loadOf(a, c, "database.SASL", "Mechanism")
				return ok && is && s == "EXTERNAL"
			})
		}}
		p.guardRule(r, "client-cert", p.fnID(fn), st, fixed(ext), GuardOpts{MaxDepth: 3}, "a client certificate is presented although the network does not use it")
	}

	// source addresses
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if p.pkgOf(fn) != "soju" || name != "net.Dialer.DialContext" && name != "net.Dial" && name != "net.DialTimeout" && name != "net.Dialer.Dial" {
			return
		}
		args := callArgs(ci)
		for _, a := range args {
			if s, ok := constString(a); ok && strings.HasPrefix(s, "unix") {
				return
			}
		}
		cut := p.effects(func(i ssa.Instruction, c *Ctx) bool {
			st, ok := i.(*ssa.Store)
			if !ok || isNilConst(st.Val) {
				return false
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			return ok && p.isField(fa.X.Type(), fa.Field, "net.Dialer", "LocalAddr")
		}, func(cond ssa.Value, pol bool, c *Ctx) bool {
			a, b, op, ok := cmpFact(cond, pol)
			if !ok {
				return false
			}
			k, isk := constInt(b)
			call, isc := a.(*ssa.Call)
			if !isk || !isc {
				return false
			}
			if bi, ok := call.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
				return false
			}
			if !(op == token.EQL && k == 0 || op == token.LEQ && k == 0 || op == token.LSS && k == 1) {
				return false
			}
			_, _, is := p.loadOf(call.Call.Args[0], c, "soju.Config", "UpstreamUserIPs")
			return is
		}).cut()
		p.guardRule(r, "user-address", p.fnID(fn), ci, fixed(cut), GuardOpts{MaxDepth: 2}, "a connection is made without the source address configured for the user")
	})
	for _, f := range p.funcsNamed("soju.user.localTCPAddr") {
		in := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
			call, ok := cond.(*ssa.Call)
			return ok && pol && p.calleeName(call) == "net.IPNet.Contains"
		}}
		for _, ret := range returnsOf(f) {
			rt := ret.(*ssa.Return)
			bad := false
			for _, lf := range p.leaves(located{rt.Results[0], nil, rt}, nil) {
				lf := lf
				if isNilConst(lf.v) {
					continue
				}
				if p.leafOpen(&lf, rt, in) {
					bad = true
				}
			}
			r.Check(!bad, "user-address", p.fnID(f), "%s: a source address outside of the configured range can be used", p.at(rt))
		}
	}
}

// argsOfKind: v is the result of a call (or chain of calls) given a value of
// the type.
func (p *Program) argsOfKind(v ssa.Value, typ string) (out []located) {
	var rec func(v ssa.Value, c *Ctx, site ssa.Instruction, d int)
	rec = func(v ssa.Value, c *Ctx, site ssa.Instruction, d int) {
		if d > 6 {
			return
		}
		w, wc := p.res(v, c)
		switch x := w.(type) {
		case *ssa.MakeInterface:
			rec(x.X, wc, x, d+1)
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e, wc, x, d+1)
			}
		case *ssa.Extract:
			rec(x.Tuple, wc, x, d+1)
		case *ssa.Call:
			found := false
			for _, a := range callArgs(x) {
				if p.typeName(a.Type()) == typ {
					out = append(out, located{a, wc, x})
					found = true
				}
			}
			if found {
				return
			}
			for _, a := range callArgs(x) {
				if types.IsInterface(a.Type()) {
					rec(a, wc, x, d+1)
				}
			}
			for _, g := range p.callees[x] {
				for _, ret := range returnsOf(g) {
					rt := ret.(*ssa.Return)
					if len(rt.Results) > 0 {
						rec(rt.Results[0], mkCtx(Ctx{up: wc, call: x}), rt, d+1)
					}
				}
			}
		}
	}
	rec(v, nil, nil, 0)
	return
}

// tlsClient: the configuration of a client names the host.
func (p *Program) tlsClient(r *Report, call *ssa.Call) {
	cfg := callArgs(call)[1]
	key := p.fnID(call.Parent())
	n := 0
	for _, o := range p.origins(cfg, nil, sliceOpts{Up: true, Through: func(n string, ci ssa.CallInstruction) []ssa.Value {
		if n == "crypto/tls.Config.Clone" {
			return callArgs(ci)
		}
		return nil
	}}) {
		al, ok := o.V.(*ssa.Alloc)
		if !ok {
			r.Bad("named", key, "%s: the TLS configuration of a connection is not known", p.at(call))
			return
		}
		good := false
		for _, ref := range *al.Referrers() {
			fa, ok := ref.(*ssa.FieldAddr)
			if !ok || fieldVar(fa.X.Type(), fa.Field).Name() != "ServerName" {
				continue
			}
			for _, rr := range *fa.Referrers() {
				st, ok := rr.(*ssa.Store)
				if !ok {
					continue
				}
				host, other := false, false
				for _, oo := range p.origins(st.Val, o.Ctx, sliceOpts{Data: true, Up: true, Through: func(n string, ci ssa.CallInstruction) []ssa.Value {
					if n == "net.SplitHostPort" || strings.HasPrefix(n, "net/url.URL.") || strings.HasPrefix(n, "strings.") {
						return callArgs(ci)
					}
					return nil
				}, Stop: func(v ssa.Value, c *Ctx) bool {
					_, _, is := p.loadOf(v, c, "net/url.URL", "Host")
					return is || p.typeName(v.Type()) == "net/url.URL"
				}}) {
					if _, isk := oo.V.(*ssa.Const); isk {
						continue
					}
					_, _, is := p.loadOf(oo.V, oo.Ctx, "net/url.URL", "Host")
					if is || p.typeName(oo.V.Type()) == "net/url.URL" {
						host = true
					} else {
						other = true
					}
				}
				good = host && !other
			}
		}
		n++
		r.Check(good, "named", key, "%s: the certificate is not verified for the host of the network's address", p.at(call))
	}
	if n == 0 {
		r.Bad("named", key, "%s: the TLS configuration of a connection is not known", p.at(call))
	}
}

// pinMatches: the fingerprint of the server's own certificate is the pinned one.
func (p *Program) pinMatches() *Cut {
	sides := func(a, b ssa.Value, c *Ctx) bool {
		cert, pin := false, false
		for i, v := range []ssa.Value{a, b} {
			for _, o := range p.origins(v, c, sliceOpts{Data: true, Up: true, Through: func(n string, ci ssa.CallInstruction) []ssa.Value {
				if strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "crypto/sha") || strings.HasPrefix(n, "encoding/hex.") || strings.HasPrefix(n, "bytes.") || strings.HasPrefix(n, "fmt.Sprint") {
					return callArgs(ci)
				}
				return nil
			}, Stop: func(v ssa.Value, c *Ctx) bool {
				_, ok := p.ownCert(v, c)
				return ok
			}}) {
				if own, ok := p.ownCert(o.V, o.Ctx); ok {
					if !own {
						return false
					}
					cert = cert || i == 0
					continue
				}
				if _, _, ok := p.loadOf(o.V, o.Ctx, "database.Network", "CertFP"); ok {
					pin = pin || i == 1
				}
			}
		}
		return cert && pin
	}
	return &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
		if eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
			if call, ok := a.(*ssa.Call); ok && strings.HasSuffix(p.calleeName(call), "subtle.ConstantTimeCompare") {
				k, isk := constInt(b)
				x := callArgs(call)
				return isk && k == 1 && (sides(x[0], x[1], c) || sides(x[1], x[0], c))
			}
			return sides(a, b, c)
		}) {
			return true
		}
		call, ok := cond.(*ssa.Call)
		if !ok || !pol {
			return false
		}
		switch p.calleeName(call) {
		case "bytes.Equal", "strings.EqualFold":
			x := callArgs(call)
			return sides(x[0], x[1], c) || sides(x[1], x[0], c)
		}
		return false
	}}
}

// ownCert: v is one of the certificates the server sent; own: the first.
func (p *Program) ownCert(v ssa.Value, c *Ctx) (own, ok bool) {
	ld, is := v.(*ssa.UnOp)
	if !is || ld.Op != token.MUL {
		return
	}
	ia, is := ld.X.(*ssa.IndexAddr)
	if !is {
		return
	}
	t := ia.X.Type().String()
	if t != "[][]byte" && t != "[]*crypto/x509.Certificate" {
		return
	}
	k, isk := constInt(ia.Index)
	return isk && k == 0, true
}
