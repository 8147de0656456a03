package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{ID: "C24", Explanation: "Value slicing from every client address to the places it comes from, with guard analysis of those under the peer's control, and guard analysis of every listening socket under the scheme and host of its URI.",
		Assumptions: []string{"the proxyproto, websocket, net/http and crypto/tls packages do what they document", "log.Fatal ends the process"},
		Run:         runC24})
}

// acceptsProxy: the address of the peer itself is one of the accepted proxies.
func (p *Program) acceptsProxy(peer func(v ssa.Value, c *Ctx) bool) *Cut {
	return &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
		w, wc := p.res(cond, c)
		call, ok := w.(*ssa.Call)
		if !ok || !pol || !strings.HasSuffix(p.calleeName(call), "IPSet.Contains") {
			return false
		}
		args := callArgs(call)
		set := false
		for _, o := range p.origins(args[0], wc, sliceOpts{}) {
			if _, _, ok := p.loadOf(o.V, o.Ctx, "soju.Config", "AcceptProxyIPs"); !ok {
				return false
			}
			set = true
		}
		if !set {
			return false
		}
		ok = false
		for _, o := range p.origins(args[1], wc, sliceOpts{Data: true, Up: true, Through: func(n string, ci ssa.CallInstruction) []ssa.Value {
			if strings.HasPrefix(n, "net.") || strings.HasPrefix(n, "net/netip.") || strings.HasPrefix(n, "strings.") {
				return callArgs(ci)
			}
			return nil
		}}) {
			if _, isk := o.V.(*ssa.Const); isk {
				continue
			}
			if !peer(o.V, o.Ctx) {
				return false
			}
			ok = true
		}
		return ok
	}}
}

func runC24(p *Program, r *Report) {
	r.Rule("forwarded", "forwarded client addresses are only believed from configured proxies", 1)
	r.Rule("proxy-protocol", "PROXY headers are only believed from configured proxies", 1)
	r.Rule("proxy-set", "the accepted proxies are those configured", 1)
	r.Rule("origin", "browsers may only connect from the server's own or the configured origins", 1)
	r.Rule("exposure", "plain-text listeners for clients are local or marked insecure; metrics and profiling are only served locally", 4)
	r.Rule("admin-socket", "the administration interface is only served on a Unix socket private to its owner", 1)

	requestAddr := func(v ssa.Value, c *Ctx) bool {
		_, _, ok := p.loadOf(v, c, "net/http.Request", "RemoteAddr")
		return ok
	}
	// addresses of WebSocket clients
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		st, ok := ins.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || !p.isField(fa.X.Type(), fa.Field, "soju.websocketIRCConn", "remoteAddr") {
			return
		}
		cut := p.acceptsProxy(requestAddr)
		for _, u := range p.lift(st.Val, st) {
			for i, lf := range p.leaves(u, requestAddr) {
				lf := lf
				key := p.fnID(u.site.Parent()) + "#" + itoa(i)
				if requestAddr(lf.v, lf.ctx) {
					r.Ok("forwarded", key)
					continue
				}
				r.Check(!p.leafOpen(&lf, u.site, cut), "forwarded", key, "%s: the address of a client is taken from what the client sent %s, although it is not a configured proxy", p.at(u.site), p.valAt(lf.v))
			}
		}
	})
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if strings.HasSuffix(name, "websocket.Accept") {
			// origins
			opts := callArgs(ci)[2]
			al, ok := mustRes(p, opts).(*ssa.Alloc)
			bad := ""
			if ok {
				for _, ref := range *al.Referrers() {
					fa, ok := ref.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					for _, rr := range *fa.Referrers() {
						st, ok := rr.(*ssa.Store)
						if !ok {
							continue
						}
						switch fieldVar(fa.X.Type(), fa.Field).Name() {
						case "InsecureSkipVerify":
							if b, isk := constBool(st.Val); !isk || b {
								bad = "the origin of the request is not verified"
							}
						case "OriginPatterns":
							for _, o := range p.origins(st.Val, nil, sliceOpts{Data: true}) {
								if _, _, ok := p.loadOf(o.V, o.Ctx, "soju.Config", "HTTPOrigins"); !ok && !isNilConst(o.V) {
									bad = "origins that are not configured are accepted"
								}
							}
						}
					}
				}
			} else if !isNilConst(opts) {
				bad = "the options are not known"
			}
			r.Check(bad == "", "origin", p.fnID(fn), "%s: %s", p.at(ci), bad)
		}
	})

	// PROXY protocol
	n := 0
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		if al, ok := ins.(*ssa.Alloc); ok && strings.HasSuffix(p.typeName(al.Type()), "proxyproto.Listener") {
			n++
			var pol ssa.Value
			for _, ref := range *al.Referrers() {
				if fa, ok := ref.(*ssa.FieldAddr); ok {
					f := fieldVar(fa.X.Type(), fa.Field).Name()
					if f == "Policy" || f == "ConnPolicy" {
						for _, rr := range *fa.Referrers() {
							if st, ok := rr.(*ssa.Store); ok {
								pol = st.Val
							}
						}
					}
				}
			}
			r.Check(pol != nil, "proxy-protocol", p.fnID(fn), "%s: PROXY headers of anybody are believed", p.at(ins))
			if pol == nil {
				return
			}
			for _, f := range p.resolveValue(pol, 0) {
				p.proxyPolicy(r, f)
			}
		}
		if ci, ok := ins.(ssa.CallInstruction); ok {
			if nm := p.calleeName(ci); strings.Contains(nm, "proxyproto.NewConn") || strings.HasSuffix(nm, "proxyproto.Read") {
				r.Bad("proxy-protocol", p.fnID(fn)+":"+nm, "%s: a PROXY header is read outside of the listener that decides whom to believe", p.at(ins))
			}
		}
	})

	// the set of proxies
	for _, f := range p.funcsNamed("IPSet.Contains") {
		inNet := func(cond ssa.Value, pol bool, c *Ctx) bool {
			call, ok := cond.(*ssa.Call)
			return ok && pol && p.calleeName(call) == "net.IPNet.Contains"
		}
		for i, ret := range returnsOf(f) {
			rt := ret.(*ssa.Return)
			bad := false
			for _, lf := range p.leaves(located{rt.Results[0], nil, rt}, nil) {
				lf := lf
				if b, isk := constBool(lf.v); isk && !b {
					continue
				}
				if call, ok := lf.v.(*ssa.Call); ok && (p.calleeName(call) == "net.IPNet.Contains" || strings.HasPrefix(p.calleeName(call), "slices.ContainsFunc")) {
					continue
				}
				cut := &Cut{Atom: inNet}
				if p.leafOpen(&lf, rt, cut) {
					bad = true
				}
			}
			r.Check(!bad, "proxy-set", p.fnID(f)+"#"+itoa(i), "%s: an address can count as configured although it is in none of the networks", p.at(rt))
		}
	}
	for _, st := range p.storesTo("config.Server", "AcceptProxyIPs") {
		p.proxySet(r, st)
	}
	for _, st := range p.storesTo("soju.Config", "AcceptProxyIPs") {
		bad := ""
		for _, o := range p.origins(st.Val, nil, sliceOpts{Data: true}) {
			if _, _, ok := p.loadOf(o.V, o.Ctx, "config.Server", "AcceptProxyIPs"); !ok && !isNilConst(o.V) {
				bad = p.valAt(o.V)
			}
		}
		r.Check(bad == "", "proxy-set", p.fnID(st.Parent()), "%s: proxies that were not configured are accepted %s", p.at(st), bad)
	}

	p.runListeners(r)
}

func itoa(i int) string { return strconv.Itoa(i) }

func (p *Program) reach(ins ssa.Instruction, cut *Cut) bool {
	_, ok := p.reachInstr(ins, nil, cut)
	return ok
}

// leafOpen: the value can get to the use without passing the cut.
func (p *Program) leafOpen(lf *leaf, use ssa.Instruction, cut *Cut) bool {
	if !p.leafReaches(lf, cut) || !p.reach(use, cut) {
		return false
	}
	if lf.site != nil && lf.from == nil && lf.ctx == nil && lf.site != use && !p.reach(lf.site, cut) {
		return false
	}
	return true
}

// funcsNamed: the repository's functions whose id ends in the name.
func (p *Program) funcsNamed(suffix string) (out []*ssa.Function) {
	for _, fn := range p.Funcs {
		if strings.HasSuffix(p.fnID(fn), suffix) {
			out = append(out, fn)
		}
	}
	return
}

// proxyPolicy: a policy only believes configured peers.
func (p *Program) proxyPolicy(r *Report, f *ssa.Function) {
	peer := func(v ssa.Value, c *Ctx) bool {
		for i := 0; i < 4; i++ {
			switch x := v.(type) {
			case *ssa.Parameter:
				t := x.Type().String()
				return t == "net.Addr" || strings.HasSuffix(t, "ConnPolicyOptions")
			case *ssa.UnOp:
				v = x.X
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.Field:
				v = x.X
			case *ssa.Extract:
				v = x.Tuple
			case *ssa.TypeAssert:
				v = x.X
			default:
				return false
			}
			v, c = p.res(v, c)
		}
		return false
	}
	cut := p.acceptsProxy(func(v ssa.Value, c *Ctx) bool {
		for i := 0; i < 8; i++ {
			if peer(v, c) {
				return true
			}
			switch x := v.(type) {
			case *ssa.UnOp:
				v, c = p.res(x.X, c)
			case *ssa.FieldAddr:
				v, c = p.res(x.X, c)
			case *ssa.Extract:
				v, c = p.res(x.Tuple, c)
			case *ssa.TypeAssert:
				v, c = p.res(x.X, c)
			default:
				return false
			}
		}
		return false
	})
	ignore := p.proxyConst(f, "IGNORE")
	for i, ret := range returnsOf(f) {
		rt := ret.(*ssa.Return)
		bad := ""
		for _, lf := range p.leaves(located{rt.Results[0], nil, rt}, nil) {
			lf := lf
			if k, ok := lf.v.(*ssa.Const); ok && (ignore != "" && k.Value != nil && k.Value.ExactString() == ignore || k.Value != nil && k.Value.ExactString() == p.proxyConst(f, "REJECT")) {
				continue
			}
			if p.leafOpen(&lf, rt, cut) {
				bad = p.valAt(lf.v)
			}
		}
		r.Check(bad == "", "proxy-protocol", p.fnID(f)+"#"+itoa(i), "%s: PROXY headers of a peer that is not a configured proxy are believed", p.at(rt))
	}
}

func (p *Program) proxyConst(f *ssa.Function, name string) string {
	named, ok := f.Signature.Results().At(0).Type().(*types.Named)
	if !ok || named.Obj().Pkg() == nil {
		return ""
	}
	k, ok := named.Obj().Pkg().Scope().Lookup(name).(*types.Const)
	if !ok {
		return ""
	}
	return k.Val().ExactString()
}

// proxySet: what is added to the accepted proxies comes from the configuration.
func (p *Program) proxySet(r *Report, st *ssa.Store) {
	bad := ""
	for _, o := range p.origins(st.Val, nil, sliceOpts{Data: true, Up: true, Through: func(n string, ci ssa.CallInstruction) []ssa.Value {
		if n == "net.ParseCIDR" {
			return callArgs(ci)
		}
		return nil
	}}) {
		if isNilConst(o.V) {
			continue
		}
		if _, ok := o.V.(*ssa.Const); ok {
			bad = p.valAt(o.V)
			continue
		}
		if ld, ok := o.V.(*ssa.UnOp); ok {
			switch a := ld.X.(type) {
			case *ssa.Global:
				continue // loopbackIPs, guarded below
			case *ssa.FieldAddr:
				n := fieldVar(a.X.Type(), a.Field).Name()
				if n == "AcceptProxyIP" || n == "AcceptProxyIPs" {
					continue
				}
			}
		}
		if f, ok := o.V.(*ssa.Field); ok {
			if fieldVar(f.X.Type(), f.Field).Name() == "AcceptProxyIP" {
				continue
			}
		}
		if al, ok := o.V.(*ssa.Alloc); ok && len(*al.Referrers()) == 0 {
			continue
		}
		if _, ok := o.V.(*ssa.MakeSlice); ok {
			continue
		}
		bad = p.valAt(o.V)
	}
	r.Check(bad == "", "proxy-set", p.fnID(st.Parent())+"@"+itoa(indexOf(st)), "%s: proxies that were not configured are accepted %s", p.at(st), bad)
	// the constant networks only when asked for
	glob := false
	for _, o := range p.origins(st.Val, nil, sliceOpts{Data: true, Stop: func(v ssa.Value, c *Ctx) bool {
		ld, ok := v.(*ssa.UnOp)
		if !ok {
			return false
		}
		_, _, is := p.loadOf(v, c, "config.Server", "AcceptProxyIPs")
		_, g := ld.X.(*ssa.Global)
		return is || g
	}}) {
		if ld, ok := o.V.(*ssa.UnOp); ok {
			if _, ok := ld.X.(*ssa.Global); ok {
				glob = true
			}
		}
	}
	if glob {
		cut := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
			return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
				s, ok := constString(b)
				return ok && s == "localhost"
			})
		}}
		r.Check(!p.reach(st, cut), "proxy-set", p.fnID(st.Parent())+":local", "%s: local peers are accepted as proxies although that was not configured", p.at(st))
	}
}

// runListeners: the command that opens the listeners.
func (p *Program) runListeners(r *Report) {
	sp := p.ByPkg["cmd/soju"]
	if sp == nil {
		return
	}
	local := func(cond ssa.Value, pol bool, c *Ctx) bool {
		return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
			s, ok := constString(b)
			if !ok || s != "localhost" && s != "127.0.0.1" && s != "::1" {
				return false
			}
			w, _ := p.res(a, c)
			if ex, ok := w.(*ssa.Extract); ok {
				w, _ = p.res(ex.Tuple, c)
			}
			call, ok := w.(*ssa.Call)
			if !ok {
				return false
			}
			n := p.calleeName(call)
			return n == "net/url.URL.Hostname" || n == "net.SplitHostPort"
		})
	}
	scheme := func(cond ssa.Value, pol bool, c *Ctx, is func(s string) bool) bool {
		return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
			s, ok := constString(b)
			_, _, ld := p.loadOf(a, c, "net/url.URL", "Scheme")
			return ok && ld && is(s)
		})
	}
	insecure := func(cond ssa.Value, pol bool, c *Ctx) bool {
		return scheme(cond, pol, c, func(s string) bool { return strings.HasSuffix(s, "+insecure") })
	}
	mine := func(fn *ssa.Function) bool { return p.pkgOf(fn) == "cmd/soju" }
	// listenerKind: where a listener comes from
	kind := func(v ssa.Value, c *Ctx) (tcp, tlsOK, unix bool) {
		tlsOK = true
		for _, o := range p.origins(v, c, sliceOpts{Data: true, Up: true, Through: func(n string, ci ssa.CallInstruction) []ssa.Value {
			if strings.HasSuffix(n, "NewRetryListener") || strings.HasSuffix(n, "proxyProtoListener") {
				return callArgs(ci)[:1]
			}
			return nil
		}, Stop: func(v ssa.Value, c *Ctx) bool {
			call, ok := v.(*ssa.Call)
			return ok && p.calleeName(call) == "crypto/tls.NewListener"
		}}) {
			w := o.V
			if ex, ok := w.(*ssa.Extract); ok {
				w = ex.Tuple
			}
			call, ok := w.(*ssa.Call)
			if !ok {
				continue
			}
			switch n := p.calleeName(call); n {
			case "crypto/tls.NewListener", "crypto/tls.Listen":
				tcp = true
			case "net.Listen", "net.ListenConfig.Listen":
				args := callArgs(call)
				nw, isk := constString(args[len(args)-2])
				if isk && strings.HasPrefix(nw, "unix") {
					unix = true
				} else {
					tcp, tlsOK = true, false
				}
			}
		}
		return
	}
	either := func(atoms ...func(ssa.Value, bool, *Ctx) bool) *Cut {
		return &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
			for _, a := range atoms {
				if a(cond, pol, c) {
					return true
				}
			}
			return false
		}}
	}
	depth := GuardOpts{MaxDepth: 5}
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if !mine(fn) {
			return
		}
		args := callArgs(ci)
		key := p.fnID(fn) + "@" + p.schemeOf(ci)
		switch {
		case name == "soju.Server.Serve":
			handlers := func(sink *Ctx) (admin, regular bool) {
				h, _ := p.res(args[2], sink)
				fs := p.resolveValue(h, 0)
				for _, h := range fs {
					switch {
					case p.reachesFn(h, "HandleAdmin"):
						admin = true
					case p.reachesFn(h, "Handle"):
						regular = true
					default:
						admin, regular = true, true
					}
				}
				if len(fs) == 0 {
					admin, regular = true, true
				}
				return
			}
			p.guardRule(r, "exposure", key, ci, func(sink *Ctx) *Cut {
				_, regular := handlers(sink)
				tcp, secure, _ := kind(args[1], sink)
				if !regular || !tcp || secure {
					return nil
				}
				return either(local, insecure)
			}, depth, "IRC is served in plain text on a public address")
			if admin, _ := handlers(nil); !admin {
				return
			}
			onlyAdmin := func(mk func(sink *Ctx) *Cut) func(*Ctx) *Cut {
				return func(sink *Ctx) *Cut {
					if admin, _ := handlers(sink); !admin {
						return nil
					}
					return mk(sink)
				}
			}
			p.guardRule(r, "admin-socket", key+":unix", ci, onlyAdmin(func(sink *Ctx) *Cut {
				if tcp, _, _ := kind(args[1], sink); !tcp {
					return nil
				}
				return &Cut{}
			}), depth, "the administration interface is served on a network socket")
			p.guardRule(r, "admin-socket", key+":mode", ci, onlyAdmin(func(sink *Ctx) *Cut {
				cut := p.nilErrOf(func(call *ssa.Call, c *Ctx) bool {
					m, ok := constInt(mustResC(p, callArgs(call)[1], c))
					return ok && m&0o077 == 0
				}, "os.Chmod")
				cut.Instr = func(i ssa.Instruction, c *Ctx) bool {
					call, ok := i.(*ssa.Call)
					if !ok || !strings.HasSuffix(p.calleeName(call), "syscall.Umask") {
						return false
					}
					m, isk := constInt(callArgs(call)[0])
					return isk && m&0o077 == 0o077
				}
				return cut
			}), depth, "the administration socket is served without making sure that only its owner can use it")
			p.guardRule(r, "admin-socket", key+":scheme", ci, onlyAdmin(func(sink *Ctx) *Cut {
				return either(func(cond ssa.Value, pol bool, c *Ctx) bool {
					return scheme(cond, pol, c, func(s string) bool { return strings.HasSuffix(s, "+admin") })
				})
			}), depth, "the administration interface is served on a listener that was not configured for it")
		case strings.HasPrefix(name, "net/http.") && (strings.HasSuffix(name, ".Serve") || strings.HasSuffix(name, ".ListenAndServe") ||
			strings.HasSuffix(name, ".ServeTLS") || strings.HasSuffix(name, ".ListenAndServeTLS")):
			method := strings.HasPrefix(name, "net/http.Server.")
			p.guardRule(r, "exposure", key, ci, func(sink *Ctx) *Cut {
				client := false
				if method {
					h, hc := p.fieldOfLocal(args[0], sink, "Handler")
					client = p.clientHandler(h, hc)
				} else {
					for _, a := range args {
						if p.typeName(a.Type()) == "net/http.Handler" {
							client = p.clientHandler(a, sink)
						}
					}
				}
				secure := strings.HasSuffix(name, "TLS")
				if strings.HasSuffix(name, ".Serve") {
					l := args[0]
					if method {
						l = args[1]
					}
					tcp, s, _ := kind(l, sink)
					if !tcp {
						return nil
					}
					secure = s
				}
				if !client {
					return either(local)
				}
				if secure {
					return nil
				}
				return either(local, insecure)
			}, depth, "plain-text HTTP, metrics or profiles are served on a public address")
		}
	})
}

// schemeOf: the scheme a call belongs to, for naming it.
func (p *Program) schemeOf(ci ssa.CallInstruction) string {
	fn := ci.Parent()
	var ins ssa.Instruction = ci
	for fn.Parent() != nil && len(p.closures[fn]) > 0 {
		ins = p.closures[fn][0]
		fn = ins.Parent()
	}
	name := ""
	for b := ins.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			break
		}
		ifi, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d.Succs[0] != b {
			continue
		}
		eqFact(ifi.Cond, true, token.EQL, func(a, bb ssa.Value) bool {
			if s, ok := constString(bb); ok && name == "" && s != "localhost" {
				if _, _, is := p.loadOf(a, nil, "net/url.URL", "Scheme"); is {
					name = s
				}
			}
			return false
		})
	}
	return name
}

// reachesFn: h is (or wraps) the method of Server.
func (p *Program) reachesFn(h *ssa.Function, name string) bool {
	if p.fname(h) == name || strings.HasPrefix(h.Name(), name+"$bound") {
		return true
	}
	for _, b := range h.Blocks {
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok && p.calleeName(ci) == "soju.Server."+name {
				return true
			}
		}
	}
	return false
}

// fieldOfLocal: the value stored into a field of a struct made locally.
func (p *Program) fieldOfLocal(v ssa.Value, c *Ctx, field string) (ssa.Value, *Ctx) {
	for i := 0; i < 6; i++ {
		v, c = p.res(v, c)
		var al *ssa.Alloc
		switch x := v.(type) {
		case *ssa.Alloc:
			al = x
		case *ssa.FreeVar:
			b := p.binding(x)
			if b == nil {
				return nil, nil
			}
			v, c = b, p.parentCtx(x.Parent(), c)
			continue
		case *ssa.UnOp:
			cell := p.cell(x.X)
			if cell == nil {
				return nil, nil
			}
			cc := p.cellCtx(x.X, c)
			sts := p.allCellStores(cell)
			if len(sts) != 1 {
				return nil, nil
			}
			v, c = sts[0].Val, p.storeCtx(cell, cc, sts[0])
			continue
		}
		if al == nil {
			return nil, nil
		}
		var next ssa.Value
		for _, ref := range *al.Referrers() {
			switch y := ref.(type) {
			case *ssa.FieldAddr:
				if fieldVar(y.X.Type(), y.Field).Name() != field {
					continue
				}
				for _, rr := range *y.Referrers() {
					if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(y) {
						return st.Val, c
					}
				}
			case *ssa.Store: // a copy
				if y.Addr == ssa.Value(al) {
					if ld, ok := y.Val.(*ssa.UnOp); ok {
						next = ld.X
					}
				}
			}
		}
		if next == nil {
			return nil, nil
		}
		v = next
	}
	return nil, nil
}

func mustResC(p *Program, v ssa.Value, c *Ctx) ssa.Value {
	w, _ := p.res(v, c)
	return w
}

// clientHandler: the handler is for clients: the server itself or a mux of its own.
func (p *Program) clientHandler(h ssa.Value, c *Ctx) bool {
	if h == nil {
		return false
	}
	good := false
	var visit func(v ssa.Value, c *Ctx, d int) bool
	visit = func(v ssa.Value, c *Ctx, d int) bool {
		for _, o := range p.origins(v, c, sliceOpts{Data: true, Up: true, Stop: func(v ssa.Value, c *Ctx) bool {
			return p.typeName(v.Type()) == "soju.Server"
		}}) {
			t := p.typeName(o.V.Type())
			if t == "soju.Server" {
				good = true
				continue
			}
			switch x := o.V.(type) {
			case *ssa.MakeInterface:
				if d < 3 && visit(x.X, o.Ctx, d+1) {
					continue
				}
			case *ssa.Call:
				n := p.calleeName(x)
				if n == "net/http.NewServeMux" || n == "soju.NewServer" {
					good = true
					continue
				}
			}
			return false
		}
		return true
	}
	return visit(h, c, 0) && good
}
