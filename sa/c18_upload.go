package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{ID: "C18", Explanation: "Guard analysis of every use of the upload backend under the authentication, origin and size of its request, and of every response under the headers it carries; error-path analysis of what a backend leaves behind.",
		Assumptions: []string{"net/http, mime and os do what they document", "browsers honour Content-Security-Policy and Content-Disposition", "a path.Match of a configured origin is what the administrator meant"},
		Run:         runC18})
}

// uploaderCall: ins calls the method of the upload backend.
func (p *Program) uploaderCall(ins ssa.Instruction, method string) *ssa.Call {
	call, ok := ins.(*ssa.Call)
	if !ok {
		return nil
	}
	if strings.HasSuffix(p.calleeName(call), "fileupload.Uploader."+method) {
		return call
	}
	return nil
}

// header: ins sets the named header of a response; val is the value.
func (p *Program) headerSet(ins ssa.Instruction, name string) (ssa.Value, bool) {
	call, ok := ins.(*ssa.Call)
	if !ok {
		return nil, false
	}
	n := p.calleeName(call)
	if n != "net/http.Header.Set" && n != "net/http.Header.Add" {
		return nil, false
	}
	args := callArgs(call)
	return args[2], constIs(mustRes(p, args[1]), name)
}

func constIs(v ssa.Value, s string) bool {
	k, ok := constString(v)
	return ok && strings.EqualFold(k, s)
}

// requestHeader: v is the named header of a request.
func (p *Program) requestHeader(v ssa.Value, c *Ctx, name string) bool {
	w, wc := p.res(v, c)
	call, ok := w.(*ssa.Call)
	if !ok || p.calleeName(call) != "net/http.Header.Get" {
		return false
	}
	args := callArgs(call)
	return constIs(mustResC(p, args[1], wc), name)
}

func runC18(p *Program, r *Report) {
	r.Rule("owner", "files are only stored for the user whose credentials came with the request", 1)
	r.Rule("origin", "requests from foreign Web pages are refused", 2)
	r.Rule("limit", "the size of an upload is bounded while it is received", 1)
	r.Rule("created", "success is only reported for a file that was stored completely", 3)
	r.Rule("cleanup", "a failed upload leaves no file behind", 1)
	r.Rule("sandbox", "every response forbids scripts", 1)
	r.Rule("inline", "only harmless types are shown by browsers, anything else is downloaded", 2)

	// origin
	originOK := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
		if eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
			return constIs(mustResC(p, b, c), "") && p.requestHeader(a, c, "Origin")
		}) {
			return true
		}
		host := func(v ssa.Value) bool {
			ok := false
			for _, o := range p.origins(v, c, sliceOpts{Up: true}) {
				if _, _, is := p.loadOf(o.V, o.Ctx, "net/url.URL", "Host"); !is {
					return false
				}
				ok = true
			}
			return ok
		}
		own := func(v ssa.Value) bool {
			_, _, is := p.loadOf(v, c, "net/http.Request", "Host")
			return is
		}
		w, wc := p.res(cond, c)
		if ex, ok := w.(*ssa.Extract); ok && ex.Index == 0 {
			w = ex.Tuple
		}
		if eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool { return host(a) && own(b) }) {
			return true
		}
		call, ok := w.(*ssa.Call)
		if !ok || !pol {
			return false
		}
		args := callArgs(call)
		switch p.calleeName(call) {
		case "strings.EqualFold":
			return host(args[0]) && own(args[1]) || host(args[1]) && own(args[0])
		case "path.Match":
			for _, o := range p.origins(args[0], wc, sliceOpts{Data: true, Up: true}) {
				if _, _, is := p.loadOf(o.V, o.Ctx, "fileupload.Handler", "HTTPOrigins"); !is {
					return false
				}
			}
			c = wc
			return host(args[1])
		}
		return false
	}}
	// authentication
	basicUser := func(v ssa.Value) bool {
		ex, ok := v.(*ssa.Extract)
		if !ok || ex.Index != 0 {
			return false
		}
		call, ok := ex.Tuple.(*ssa.Call)
		return ok && p.calleeName(call) == "net/http.Request.BasicAuth"
	}
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		for _, m := range []string{"store", "load"} {
			call := p.uploaderCall(ins, m)
			if call == nil {
				continue
			}
			p.guardRule(r, "origin", p.fnID(fn)+":"+m, call, fixed(originOK), GuardOpts{MaxDepth: 4}, "a Web page of another site can make this request")
			if m != "store" {
				continue
			}
			args := callArgs(call)
			reader, user := args[2], args[3]
			// size
			good := false
			bad := ""
			for _, o := range p.origins(reader, nil, sliceOpts{Up: true}) {
				v := o.V
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mustResC(p, mi.X, o.Ctx)
				}
				rc, ok := v.(*ssa.Call)
				if !ok {
					bad = "the body of the request is passed on as it is"
					break
				}
				if p.calleeName(rc) == "io.LimitReader" {
					bad = "a body that is too long is cut off silently and stored as if it were complete"
					break
				}
				li := map[string]int{"net/http.MaxBytesReader": 2}[p.calleeName(rc)]
				if li == 0 {
					bad = "the body of the request is passed on as it is"
					break
				}
				k, isk := constInt(mustResC(p, callArgs(rc)[li], o.Ctx))
				if !isk || k <= 0 || k > 50<<20 {
					bad = "the size of the body is not bounded by a constant of at most 50 MiB"
					break
				}
				good = true
			}
			r.Check(good && bad == "", "limit", p.fnID(fn), "%s: %s", p.at(call), bad)
			// owner
			for _, u := range p.lift(user, call) {
				site := ssa.Instruction(call)
				if u.site != nil {
					site = u.site
				}
				for i, lf := range p.leaves(u, nil) {
					lf := lf
					key := p.fnID(site.Parent()) + "#" + itoa(i)
					if constIs(lf.v, "") {
						continue // the variable's zero value: never used, see below
					}
					var cut *Cut
					switch {
					case basicUser(lf.v):
						cut = p.nilErrOf(func(ac *ssa.Call, c *Ctx) bool {
							a := callArgs(ac)
							return mustResC(p, a[3], c) == lf.v || anyLeaf(p, located{a[3], c, ac}, lf.v)
						}, "auth.PlainAuthenticator.AuthPlain")
					default:
						if ex, ok := lf.v.(*ssa.Extract); ok && ex.Index == 0 {
							if ac, ok := ex.Tuple.(*ssa.Call); ok && strings.HasSuffix(p.calleeName(ac), "OAuthBearerAuthenticator.AuthOAuthBearer") {
								cut = p.nilErrOf(func(o *ssa.Call, c *Ctx) bool { return o == ac }, "auth.OAuthBearerAuthenticator.AuthOAuthBearer")
							}
						}
					}
					if cut == nil {
						r.Bad("owner", key, "%s: the file is stored for a user that is not the one who authenticated %s", p.at(call), p.valAt(lf.v))
						continue
					}
					r.Check(!p.leafOpen(&lf, site, cut), "owner", key, "%s: the file is stored although authentication as this user %s has not succeeded", p.at(call), p.valAt(lf.v))
				}
			}
			anyAuth := anyOf(p.nilErrOf(nil, "auth.PlainAuthenticator.AuthPlain"), p.nilErrOf(nil, "auth.OAuthBearerAuthenticator.AuthOAuthBearer"))
			p.guardRule(r, "owner", p.fnID(fn)+":auth", call, fixed(anyAuth), GuardOpts{MaxDepth: 4}, "a file is stored without authentication")
		}
		// success
		if call, ok := ins.(*ssa.Call); ok && p.pkgOf(fn) == "fileupload" && strings.HasSuffix(p.calleeName(call), "http.ResponseWriter.WriteHeader") {
			args := callArgs(call)
			if k, isk := constInt(mustRes(p, args[len(args)-1])); isk && (k == 201 || k == 200) {
				cut := p.nilErrOf(nil, "fileupload.Uploader.store", "fileupload.Uploader.load")
				p.guardRule(r, "created", p.fnID(fn)+":status", call, fixed(cut), GuardOpts{MaxDepth: 4}, "success is reported although the backend has failed")
			}
		}
	})

	// backends
	for _, f := range p.implementers("fileupload", "Uploader", "store") {
		var creates []*ssa.Call
		p.within(f, func(g *ssa.Function, ins ssa.Instruction) {
			if call, ok := ins.(*ssa.Call); ok && p.calleeName(call) == "os.OpenFile" || ok && p.calleeName(call) == "os.CreateTemp" {
				creates = append(creates, call)
			}
		})
		if len(creates) == 0 {
			// a remote backend
			var resp []*ssa.Call
			p.within(f, func(g *ssa.Function, ins ssa.Instruction) {
				if call, ok := ins.(*ssa.Call); ok && strings.HasSuffix(p.calleeName(call), "http.Client.Do") {
					resp = append(resp, call)
				}
			})
			for range resp {
				cut := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
					return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
						k, isk := constInt(mustResC(p, b, c))
						_, _, is := p.loadOf(a, c, "net/http.Response", "StatusCode")
						return isk && k == 201 && is
					})
				}}
				for _, ret := range p.nilReturns(f, cut) {
					r.Bad("created", p.fnID(f)+":remote", "%s: success is reported although the remote server has not created the file", p.at(ret))
				}
				r.Ok("created", p.fnID(f)+":remote-checked")
			}
			continue
		}
		for _, ret := range p.nilReturns(f, p.nilErrOf(nil, "io.Copy", "os.File.ReadFrom", "io.CopyN", "io.CopyBuffer")) {
			r.Bad("created", p.fnID(f)+":copy", "%s: success is reported although the content was not written", p.at(ret))
		}
		r.Ok("created", p.fnID(f)+":copied")
		for _, ret := range p.nilReturns(f, p.nilErrOf(nil, "os.File.Close", "os.File.Sync")) {
			r.Bad("created", p.fnID(f)+":close", "%s: success is reported although closing the file may have failed", p.at(ret))
		}
		r.Ok("created", p.fnID(f)+":closed")
		// cleanup
		remove := p.effects(func(ins ssa.Instruction, c *Ctx) bool {
			ci, ok := ins.(ssa.CallInstruction)
			return ok && p.calleeName(ci) == "os.Remove"
		}, func(cond ssa.Value, pol bool, c *Ctx) bool {
			isOpen := func(v ssa.Value) bool {
				for _, lf := range p.leaves(located{v, c, nil}, nil) {
					if call := p.errOf(lf.v); call == nil || p.calleeName(call) != "os.OpenFile" {
						return false
					}
				}
				return true
			}
			// no file: opening it failed
			if eqFact(cond, pol, token.NEQ, func(a, b ssa.Value) bool {
				return isNilConst(b) && isErrorType(a.Type()) && isOpen(a)
			}) {
				return true
			}
			if w, wc := p.res(cond, c); pol {
				if call, ok := w.(*ssa.Call); ok && p.calleeName(call) == "os.IsExist" {
					_ = wc
					return true
				}
			}
			// no file
			if eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
				return isNilConst(b) && p.typeName(a.Type()) == "os.File"
			}) {
				return true
			}
			// success
			return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
				return isNilConst(b) && isErrorType(a.Type()) && !isOpen(a) && p.finalError(a, c)
			})
		})
		for _, cr := range creates {
			fl := int64(0x40)
			if p.calleeName(cr) == "os.OpenFile" {
				fl, _ = constInt(mustRes(p, callArgs(cr)[1]))
			}
			if fl&0x40 == 0 {
				continue
			}
			g := cr.Parent()
			for g.Parent() != nil {
				g = g.Parent()
			}
			miss := p.liftMust(cr, remove, nil, 0)
			at := ""
			if miss != nil {
				at = p.at(miss)
			}
			r.Check(miss == nil, "cleanup", p.fnID(f), "%s: the file created at %s is left behind when the upload fails", at, p.at(cr))
		}
	}
	for _, f := range p.implementers("fileupload", "Uploader", "load") {
		opens := false
		p.within(f, func(g *ssa.Function, ins ssa.Instruction) {
			if call, ok := ins.(*ssa.Call); ok && (p.calleeName(call) == "os.Open" || p.calleeName(call) == "os.OpenFile") {
				opens = true
			}
		})
		if !opens {
			continue
		}
		notDir := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
			w, _ := p.res(cond, c)
			call, ok := w.(*ssa.Call)
			if !ok {
				return false
			}
			n := p.calleeName(call)
			return !pol && strings.HasSuffix(n, ".IsDir") || pol && strings.HasSuffix(n, ".IsRegular")
		}}
		for _, ret := range p.nilReturns(f, notDir) {
			r.Bad("inline", p.fnID(f)+":dir", "%s: a directory is served as a file", p.at(ret))
		}
		r.Ok("inline", p.fnID(f)+":dir-checked")
	}

	// responses
	sandbox := &Cut{Instr: func(ins ssa.Instruction, c *Ctx) bool {
		v, ok := p.headerSet(ins, "Content-Security-Policy")
		if !ok {
			return false
		}
		s, isk := constString(mustResC(p, v, c))
		return isk && strings.Contains(s, "sandbox") && !strings.Contains(s, "allow-") && strings.Contains(s, "script-src 'none'") && strings.Contains(s, "default-src 'none'")
	}}
	var types_ []ssa.Value
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		call, ok := ins.(*ssa.Call)
		if !ok || p.pkgOf(fn) != "fileupload" || p.calleeName(call) != "net/http.ServeContent" {
			return
		}
		p.guardRule(r, "sandbox", p.fnID(fn), call, fixed(sandbox), GuardOpts{MaxDepth: 4}, "the content is served without the policy that forbids scripts")
		disp := &Cut{Instr: func(ins ssa.Instruction, c *Ctx) bool { _, ok := p.headerSet(ins, "Content-Disposition"); return ok }}
		p.guardRule(r, "inline", p.fnID(fn)+":set", call, fixed(disp), GuardOpts{MaxDepth: 4}, "the content is served without saying whether to show or download it")
	})
	// the content type the response declares
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		if p.pkgOf(fn) != "fileupload" {
			return
		}
		if v, ok := p.headerSet(ins, "Content-Type"); ok {
			types_ = append(types_, mustRes(p, v))
		}
	})
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		if p.pkgOf(fn) != "fileupload" {
			return
		}
		v, ok := p.headerSet(ins, "Content-Disposition")
		if !ok {
			return
		}
		// only of responses
		hc := ins.(*ssa.Call)
		if h, ok := mustRes(p, callArgs(hc)[0]).(*ssa.Call); !ok || !strings.HasSuffix(p.calleeName(h), "http.ResponseWriter.Header") {
			return
		}
		for _, u := range p.lift(v, ins) {
			for i, lf := range p.leaves(u, nil) {
				lf := lf
				key := p.fnID(fn) + "#" + itoa(i)
				mode := lf.v
				mctx := lf.ctx
				msite := u.site
				if fc, ok := mode.(*ssa.Call); ok && p.calleeName(fc) == "mime.FormatMediaType" {
					mode, msite = callArgs(fc)[0], fc
				}
				for j, ml := range p.leaves(located{mode, mctx, msite}, nil) {
					ml := ml
					key := key + "." + itoa(j)
					s, isk := constString(ml.v)
					switch {
					case isk && (s == "attachment" || strings.HasPrefix(s, "attachment;")):
						r.Ok("inline", key)
					case isk:
						r.Check(!p.leafOpen(&ml, msite, p.inlineListed(types_)), "inline", key, "%s: browsers are told to show content whose type is not in the list of harmless ones", p.at(ins))
					default:
						r.Bad("inline", key, "%s: the disposition is not known %s", p.at(ins), p.valAt(ml.v))
					}
				}
			}
		}
	})
	// the list itself
	harmful := map[string]bool{"text/html": true, "application/xhtml+xml": true, "image/svg+xml": true, "text/xml": true, "application/xml": true, "application/javascript": true, "text/javascript": true, "application/ecmascript": true, "application/mathml+xml": true, "text/xsl": true, "application/xslt+xml": true, "application/rss+xml": true, "application/atom+xml": true, "application/x-shockwave-flash": true, "multipart/x-mixed-replace": true, "": true, "application/rdf+xml": true, "text/vtt": false}
	for g := range p.inlineLists() {
		listed := 0
		for _, v := range p.globalStores(g) {
			if v == nil {
				r.Bad("inline", g.Name()+":changed", "the list %s is changed while running", g.Name())
				continue
			}
			for _, ref := range *v.Referrers() {
				mu, ok := ref.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				k, isk := constString(mu.Key)
				if b, isb := constBool(mu.Value); isb && !b {
					continue
				}
				listed++
				if !isk || harmful[strings.ToLower(k)] || strings.HasSuffix(k, "+xml") || strings.Contains(k, "script") {
					r.Bad("inline", g.Name()+":"+k, "%s: browsers may be told to show content of type %q, which can contain scripts", p.pos(mu.Pos()), k)
				}
			}
		}
		r.Ok("inline", g.Name()+":"+itoa(listed))
	}
}

func anyLeaf(p *Program, l located, v ssa.Value) bool {
	for _, lf := range p.leaves(l, nil) {
		if lf.v == v {
			return true
		}
	}
	return false
}

// within visits the instructions of f, its closures and the functions of its
// package it calls.
func (p *Program) within(f *ssa.Function, visit func(g *ssa.Function, ins ssa.Instruction)) {
	seen := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function, d int)
	rec = func(g *ssa.Function, d int) {
		if seen[g] || d > 5 || p.pkgOf(g) != p.pkgOf(f) {
			return
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				visit(g, ins)
				if ci, ok := ins.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					for _, h := range p.callees[ci] {
						rec(h, d+1)
					}
				}
			}
		}
		for _, a := range g.AnonFuncs {
			rec(a, d+1)
		}
	}
	rec(f, 0)
}

// finalError: v is the error a function returns, or one of writing the file.
func (p *Program) finalError(v ssa.Value, c *Ctx) bool {
	w, wc := p.res(v, c)
	if call := p.errOf(w); call != nil {
		switch n := p.calleeName(call); {
		case n == "io.Copy", strings.HasPrefix(n, "os.File."):
			return true
		}
		if len(p.callees[call]) > 0 {
			return true
		}
	}
	_ = wc
	if u, ok := w.(*ssa.UnOp); ok && u.Op == token.MUL {
		if al := p.cell(u.X); al != nil {
			// a named result
			for _, b := range al.Parent().Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, rv := range ret.Results {
						if ru, ok := rv.(*ssa.UnOp); ok && ru.X == ssa.Value(al) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// inlineLists: the package-level sets of types.
func (p *Program) inlineLists() map[*ssa.Global]bool {
	out := map[*ssa.Global]bool{}
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		lk, ok := ins.(*ssa.Lookup)
		if !ok || p.pkgOf(fn) != "fileupload" {
			return
		}
		if g := p.boolMapGlobal(lk); g != nil {
			out[g] = true
		}
	})
	return out
}

func (p *Program) boolMapGlobal(lk *ssa.Lookup) *ssa.Global {
	m, ok := lk.X.Type().Underlying().(*types.Map)
	if !ok {
		return nil
	}
	if b, ok := m.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
		if st, ok := m.Elem().Underlying().(*types.Struct); !ok || st.NumFields() > 0 {
			return nil
		}
	}
	u, ok := mustRes(p, lk.X).(*ssa.UnOp)
	if !ok {
		return nil
	}
	g, _ := u.X.(*ssa.Global)
	return g
}

// inlineListed: the media type of the declared content type is in the list.
func (p *Program) inlineListed(declared []ssa.Value) *Cut {
	return &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
		w, wc := p.res(cond, c)
		if !pol {
			return false
		}
		if ex, ok := w.(*ssa.Extract); ok && ex.Index == 1 {
			w = ex.Tuple
		}
		lk, ok := w.(*ssa.Lookup)
		if !ok || p.boolMapGlobal(lk) == nil {
			return false
		}
		key, kc := p.res(lk.Index, wc)
		ex, ok := key.(*ssa.Extract)
		if !ok || ex.Index != 0 {
			return false
		}
		pc, ok := ex.Tuple.(*ssa.Call)
		if !ok || p.calleeName(pc) != "mime.ParseMediaType" {
			return false
		}
		ct, cc := p.res(callArgs(pc)[0], kc)
		for _, d := range declared {
			if d == ct {
				return true
			}
			if a := p.ap(ct, cc); a != "" && a == p.ap(d, nil) {
				return true
			}
		}
		return false
	}}
}
