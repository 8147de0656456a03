package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{ID: "C16", Explanation: "Backward data-flow (through assignments, fields, parameters, results and library calls that return text) from everything that is logged, turned into an error, shown to a client or written to the history, to the places secrets come from; plus guard and origin analysis of the stored password and of what is sent to servers.",
		Assumptions: []string{"the texts of errors of libraries do not contain the secrets they were given", "raw protocol lines in the debug log are wanted", "a library call returns text only of what it was passed"},
		Run:         runC16})
}

// secretFields: fields that hold secrets, by the type that declares them; the
// field names of nested anonymous structs are joined.
var secretFields = map[string]string{
	"database.User.Password":                               "a password hash",
	"database.Network.Pass":                                "a server password",
	"database.SASL.Plain.Password":                         "a SASL password",
	"database.SASL.External.PrivKeyBlob":                   "a private key",
	"database.WebPushConfig.VAPIDKeys.Private":             "the Web Push private key",
	"database.WebPushSubscription.Keys.Auth":               "a Web Push secret",
	"soju.saslPlain.Password":                              "a client's password",
	"soju.downstreamRegistration.pass":                     "a client's password",
	"soju.eventUserUpdate.password":                        "a password hash",
	"github.com/emersion/go-sasl.OAuthBearerOptions.Token": "a client's token",
}

// fieldPath: the named type and the path of fields v (an address or a value)
// selects.
func (p *Program) fieldPath(v ssa.Value) string {
	var path []string
	for i := 0; i < 5; i++ {
		var x ssa.Value
		var f int
		switch y := v.(type) {
		case *ssa.FieldAddr:
			x, f = y.X, y.Field
		case *ssa.Field:
			x, f = y.X, y.Field
		default:
			return ""
		}
		fv := fieldVar(x.Type(), f)
		if fv == nil {
			return ""
		}
		path = append([]string{fv.Name()}, path...)
		t := types.Unalias(x.Type())
		if pt, ok := t.(*types.Pointer); ok {
			t = types.Unalias(pt.Elem())
		}
		if n, ok := t.(*types.Named); ok {
			s := p.objName(n.Obj()) + "." + strings.Join(path, ".")
			if _, ok := secretFields[s]; ok {
				return s
			}
			return s
		}
		v = x
	}
	return ""
}

type argOf struct {
	fn *ssa.Function
	k  int64
}

type secrets struct {
	args   map[argOf]string // arguments of commands
	p      *Program
	fields map[*types.Var]string // fields flags are stored to
	cells  map[*ssa.Alloc]string // variables flags are stored to
	params map[ssa.Value]string  // parameters
	types  map[types.Type]string // types that contain secrets
	auth   map[ssa.Instruction]bool
}

func (p *Program) findSecrets() *secrets {
	s := &secrets{p: p, args: map[argOf]string{}, fields: map[*types.Var]string{}, cells: map[*ssa.Alloc]string{}, params: map[ssa.Value]string{}, types: map[types.Type]string{}, auth: map[ssa.Instruction]bool{}}
	secretFlag := func(name string) bool {
		return name == "pass" || strings.HasSuffix(name, "password")
	}
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		args := callArgs(ci)
		switch {
		case strings.HasSuffix(name, "flag.FlagSet.String") || strings.HasSuffix(name, "flag.String"):
			for _, a := range args {
				if k, isk := constString(a); isk && secretFlag(k) {
					if v, ok := ci.(*ssa.Call); ok {
						s.params[v] = "a password given to a command"
					}
					break
				}
			}
		case strings.HasSuffix(name, "flag.FlagSet.Var") && len(args) >= 3 || strings.HasSuffix(name, "flag.FlagSet.StringVar") && len(args) >= 3:
			if k, isk := constString(args[2]); isk && secretFlag(k) {
				s.target(args[1], 0)
			}
		case strings.HasSuffix(name, "sasl.NewPlainServer"):
			for _, f := range p.passed(args[0]) {
				if len(f.Params) > 0 {
					s.params[f.Params[len(f.Params)-1]] = "a client's password"
				}
			}
		}
		if strings.HasSuffix(name, ".AuthPlain") || strings.HasSuffix(name, ".AuthOAuthBearer") {
			s.auth[ci] = true
		}
	})
	for path := range secretFields {
		field := path[strings.LastIndex(path, ".")+1:]
		p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
			st, ok := ins.(*ssa.Store)
			if !ok || p.pkgOf(fn) == "database" {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fieldVar(fa.X.Type(), fa.Field) == nil || fieldVar(fa.X.Type(), fa.Field).Name() != field || p.fieldPath(fa) != path {
				return
			}
			if call, ok := mustRes(p, st.Val).(*ssa.Call); ok && strings.HasSuffix(p.calleeName(call), "flag.FlagSet.Arg") {
				s.params[call] = secretFields[path]
				if k, isk := constInt(callArgs(call)[1]); isk {
					s.args[argOf{fn, k}] = secretFields[path]
				}
			}
		})
	}
	for i, iface := range []string{"PlainAuthenticator", "OAuthBearerAuthenticator"} {
		m := []string{"AuthPlain", "AuthOAuthBearer"}[i]
		for _, f := range p.implementers("auth", iface, m) {
			if f.Blocks != nil {
				s.params[f.Params[len(f.Params)-1]] = "a client's password or token"
			}
		}
	}
	for _, id := range []string{"database.User.SetPassword", "database.User.CheckPassword"} {
		if f := p.Func(id); f != nil {
			s.params[f.Params[len(f.Params)-1]] = "a user's password"
		}
	}
	return s
}

// passed: the functions a value is, or is converted from.
func (p *Program) passed(v ssa.Value) []*ssa.Function {
	v, _ = p.res(v, nil)
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.MakeInterface:
			v = x.X
			continue
		}
		break
	}
	if mc, ok := v.(*ssa.MakeClosure); ok {
		return []*ssa.Function{mc.Fn.(*ssa.Function)}
	}
	return p.resolveValue(v, 0)
}

// target marks the variable a flag is stored to.
func (s *secrets) target(v ssa.Value, d int) {
	if d > 6 {
		return
	}
	v, _ = s.p.res(v, nil)
	switch x := v.(type) {
	case *ssa.MakeInterface:
		s.target(x.X, d+1)
	case *ssa.ChangeType:
		s.target(x.X, d+1)
	case *ssa.FieldAddr:
		if fv := fieldVar(x.X.Type(), x.Field); fv != nil {
			s.fields[fv] = "a password given to a command"
		}
	case *ssa.Alloc:
		// a flag.Value built here, or the variable itself
		n := 0
		for _, ref := range *x.Referrers() {
			if fa, ok := ref.(*ssa.FieldAddr); ok {
				for _, rr := range *fa.Referrers() {
					if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
						s.target(st.Val, d+1)
						n++
					}
				}
			}
		}
		if n == 0 {
			s.cells[x] = "a password given to a command"
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			s.target(x.X, d+1)
		}
	case *ssa.Field:
		s.target(x.X, d+1)
	}
}

// secret: what secret v is.
func (s *secrets) secret(v ssa.Value) string {
	p := s.p
	if what, ok := s.params[v]; ok {
		return what
	}
	if call, ok := v.(*ssa.Call); ok && len(s.args) > 0 && strings.HasSuffix(p.calleeName(call), "flag.FlagSet.Arg") {
		if k, isk := constInt(callArgs(call)[1]); isk {
			if what, ok := s.args[argOf{call.Parent(), k}]; ok {
				return what
			}
		}
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if what, ok := s.params[u.X]; ok {
			return what
		}
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			if what, ok := s.fields[fieldVar(fa.X.Type(), fa.Field)]; ok {
				return what
			}
		}
		a := u.X
		if w, ok := a.(*ssa.UnOp); ok && w.Op == token.MUL {
			a = w.X // a pointer to the text
		}
		if al := p.cell(a); al != nil {
			if what, ok := s.cells[al]; ok {
				return what
			}
		}
		v = u.X
	}
	if what, ok := secretFields[p.fieldPath(v)]; ok {
		return what
	}
	if al, ok := v.(*ssa.Alloc); ok {
		if what, ok := s.cells[al]; ok {
			return what
		}
	}
	return ""
}

// formatted: what secret the values given to a call that formats them contain.
func (s *secrets) formatted(ci ssa.CallInstruction) string {
	what := ""
	seen := map[ssa.Value]bool{}
	var look func(v ssa.Value)
	look = func(v ssa.Value) {
		if v == nil || seen[v] || what != "" {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.MakeInterface:
			if what = s.holds(x.X.Type()); what != "" {
				return
			}
			w, _ := s.p.res(x.X, nil)
			if u, ok := w.(*ssa.UnOp); ok && u.Op == token.MUL {
				w = u.X
			}
			if path := s.p.fieldPath(w); path != "" {
				for k, sw := range secretFields {
					if strings.HasPrefix(k, path+".") {
						what = sw
					}
				}
			}
		case *ssa.Slice:
			look(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				look(e)
			}
		case *ssa.MakeSlice:
			s.p.filled(x, look)
		case *ssa.Alloc:
			for _, ref := range *x.Referrers() {
				if ia, ok := ref.(*ssa.IndexAddr); ok {
					for _, rr := range *ia.Referrers() {
						if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
							look(st.Val)
						}
					}
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				for _, a := range x.Call.Args {
					look(a)
				}
			}
		}
	}
	for _, a := range callArgs(ci) {
		look(a)
	}
	return what
}

// holds: a value of the type contains a secret that is printed with it.
func (s *secrets) holds(t types.Type) string {
	return s.holds0(t, 0)
}

func (s *secrets) holds0(t types.Type, d int) string {
	t = types.Unalias(t)
	if d > 4 {
		return ""
	}
	if what, ok := s.types[t]; ok {
		return what
	}
	s.types[t] = ""
	what := ""
	for _, m := range []string{"String", "Error", "GoString", "Format"} {
		if o, _, _ := types.LookupFieldOrMethod(t, false, nil, m); o != nil {
			if _, ok := o.(*types.Func); ok {
				return ""
			}
		}
	}
	name := ""
	if n, ok := t.(*types.Named); ok {
		name = s.p.objName(n.Obj()) + "."
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for k, w := range secretFields {
				if name != "" && strings.HasPrefix(k, name+f.Name()) {
					what = w
				}
			}
			if what == "" && d > 0 {
				if _, ok := f.Type().Underlying().(*types.Pointer); ok {
					continue // printed as an address
				}
			}
			if what == "" {
				what = s.holds0(f.Type(), d+1)
			}
			if what != "" {
				break
			}
		}
	case *types.Pointer:
		if d == 0 {
			what = s.holds0(u.Elem(), d+1)
		}
	case *types.Slice:
		what = s.holds0(u.Elem(), d+1)
	case *types.Map:
		what = s.holds0(u.Elem(), d+1)
	}
	s.types[t] = what
	return what
}

func textual(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		return true
	case *types.Interface, *types.Pointer, *types.Map, *types.Struct:
		return true
	}
	return false
}

// reaches: the secret that v may be computed from.
func (s *secrets) reaches(v ssa.Value, c *Ctx, also func(v ssa.Value) string) string {
	p := s.p
	what := ""
	p.origins(v, c, sliceOpts{Data: true, Fields: true, Up: true,
		Stop: func(v ssa.Value, c *Ctx) bool {
			if what != "" {
				return true
			}
			if w := s.secret(v); w != "" {
				what = w
				return true
			}
			if also != nil {
				if w := also(v); w != "" {
					what = w
					return true
				}
			}
			if call, ok := v.(*ssa.Call); ok && strings.HasPrefix(p.calleeName(call), "fmt.") {
				if w := s.formatted(call); w != "" {
					what = w
					return true
				}
			}
			if isErrorType(v.Type()) {
				switch x := v.(type) {
				case *ssa.Extract, *ssa.Call:
					call := p.errOf(x)
					if call == nil {
						return true
					}
					for _, f := range p.callees[call] {
						if p.repoFn(f) {
							return false
						}
					}
					return true // the error of a library
				}
			}
			// the length of something, a comparison, a number
			switch b := v.Type().Underlying().(type) {
			case *types.Basic:
				return b.Info()&types.IsString == 0 && b.Kind() != types.Byte && b.Kind() != types.Int32
			}
			return false
		},
		Through: func(name string, call ssa.CallInstruction) []ssa.Value {
			switch {
			case strings.Contains(name, "bcrypt.") || strings.HasPrefix(name, "crypto/"):
				return nil
			}
			for _, f := range p.callees[call] {
				if p.repoFn(f) {
					return nil
				}
			}
			if v, ok := call.(*ssa.Call); !ok || !carriesText(v.Type()) {
				return nil
			}
			var out []ssa.Value
			for _, a := range callArgs(call) {
				if carriesText(a.Type()) && !isErrorType(a.Type()) && !isContext(a.Type()) || p.typeName(a.Type()) == "strings.Builder" || p.typeName(a.Type()) == "net/url.URL" {
					out = append(out, a)
				}
			}
			return out
		}})
	return what
}

// carriesText: text, or a list of anything.
func carriesText(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice, *types.Interface:
		return true
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if carriesText(u.At(i).Type()) && !isErrorType(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func isContext(t types.Type) bool { return t.String() == "context.Context" }

func runC16(p *Program, r *Report) {
	r.Rule("raw", "every line that is sent or received, passwords included, is logged only for debugging", 2)
	r.Rule("hashed", "only hashes of passwords are stored, made at no less than the default cost", 3)
	r.Rule("log", "secrets are not logged", 100)
	r.Rule("error", "secrets are not part of errors, which are logged and shown to users", 100)
	r.Rule("shown", "secrets are not sent to clients, nor to servers other than to authenticate there", 100)
	r.Rule("own-server", "the credentials of a network are only given to its own servers", 2)
	r.Rule("history", "messages from and to NickServ, which may contain passwords, are not stored", 1)
	r.Rule("reason", "why authentication failed is only told in words made for the user", 2)

	s := p.findSecrets()
	r.Check(len(s.cells)+len(s.fields) > 0 && len(s.params) > 4, "error", "sources", "the places passwords come from were not recognised: %d flags, %d parameters", len(s.cells)+len(s.fields), len(s.params))
	p.checkHashed(r)

	count := map[string]int{}
	words := s.commandWords()
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		pkg := p.pkgOf(fn)
		if pkg == "contrib" || strings.HasPrefix(pkg, "contrib/") {
			return
		}
		rule := ""
		args := callArgs(ci)
		switch {
		case isLogger(name):
			rule = "log"
		case name == "fmt.Errorf" || name == "errors.New":
			rule = "error"
		case strings.HasPrefix(name, "fmt.Print") || strings.HasPrefix(name, "fmt.Fprint") || strings.HasSuffix(name, ".WithLabelValues"):
			rule = "log"
		case p.isServicePrint(ci):
			rule = "shown"
		}
		if rule == "" {
			return
		}
		count[p.fnID(fn)+rule]++
		key := fmt.Sprintf("%s#%d", p.fnID(fn), count[p.fnID(fn)+rule])
		what := s.formatted(ci)
		for _, a := range args {
			if textual(a.Type()) && !isContext(a.Type()) && what == "" {
				what = s.reaches(a, nil, nil)
				if what == "" && isLogger(name) && p.callsOrIs(fn, "soju.handleServiceCommand") {
					what = words(a)
				}
			}
		}
		if isLogger(name) && p.logsLine(fn, ci) {
			r.Check(strings.HasSuffix(name, "Debugf"), "raw", key, "%s: every line of a connection is logged, passwords included", p.at(ci))
		}
		r.Check(what == "", rule, key, "%s: %s may be written to the %s", p.at(ci), what, map[string]string{"log": "log", "error": "text of an error", "shown": "user"}[rule])
	})

	// messages
	reason := func(v ssa.Value) string {
		if call := p.errOf(v); call != nil && s.auth[call] {
			return "the internal reason of a failed authentication"
		}
		return ""
	}
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		if p.pkgOf(fn) != "soju" && p.pkgOf(fn) != "xirc" {
			return
		}
		switch x := ins.(type) {
		case *ssa.MakeInterface:
			if sl, ok := x.X.Type().Underlying().(*types.Slice); ok && isString(sl.Elem()) {
				what := words(x.X)
				r.Check(what == "", "raw", p.fnID(fn)+" formatted", "%s: %s is made part of a text", p.at(x), what)
			}
		case *ssa.Alloc:
			if p.typeName(x.Type()) != ircMessage {
				return
			}
			ps := p.literalField(x, "Params")
			if ps == nil {
				return
			}
			count[p.fnID(fn)+"msg"]++
			key := fmt.Sprintf("%s message #%d", p.fnID(fn), count[p.fnID(fn)+"msg"])
			what := s.reaches(ps, nil, nil)
			cmd, _ := constString(mustResNil(p, p.literalField(x, "Command")))
			if what != "" && cmd == "AUTHENTICATE" {
				r.Ok("own-server", key)
				return
			}
			if what != "" && cmd == "PASS" {
				r.Check(p.sentToOwn(x), "own-server", key, "%s: %s is sent to another server than that of its network", p.at(x), what)
				return
			}
			r.Check(what == "", "shown", key, "%s: %s may be sent in a message (%s)", p.at(x), what, cmd)
			if why := s.reaches(ps, nil, reason); what == "" && why != "" {
				r.Bad("reason", key, "%s: %s is shown to a client", p.at(x), why)
			}
		case *ssa.MapUpdate:
			if !strings.HasSuffix(x.Map.Type().String(), "irc.v4.Tags") {
				return
			}
			count[p.fnID(fn)+"tag"]++
			what := s.reaches(x.Value, nil, nil)
			r.Check(what == "", "shown", fmt.Sprintf("%s tag #%d", p.fnID(fn), count[p.fnID(fn)+"tag"]), "%s: %s may be sent in a message", p.at(x), what)
		}
	})
	for ins := range s.auth {
		if p.pkgOf(ins.Parent()) == "soju" {
			r.Ok("reason", p.fnID(ins.Parent())+":"+p.calleeName(ins.(ssa.CallInstruction)))
		}
	}

	// own-server: credentials of the SASL client
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if p.pkgOf(fn) != "soju" || !strings.HasSuffix(name, "sasl.NewPlainClient") && !strings.HasSuffix(name, "sasl.NewExternalClient") {
			return
		}
		call, ok := ci.(*ssa.Call)
		if !ok || len(callArgs(ci)) < 3 {
			return
		}
		pass := callArgs(ci)[2]
		// whose client is it?
		owner := ""
		for _, ref := range *call.Referrers() {
			if st, ok := ref.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && p.typeName(fa.X.Type()) == upConn {
					owner = p.ap(fa.X, nil)
				}
			}
		}
		path := p.ap(pass, nil)
		stored := strings.Contains(path, ".SASL.Plain.Password")
		ok = owner != "" && (!stored || strings.HasPrefix(path, owner+".network."))
		r.Check(ok, "own-server", p.fnID(fn)+":sasl", "%s: a connection authenticates with the credentials of another network (%s)", p.at(ci), path)
	})

	// history
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if !strings.HasPrefix(name, "msgstore.") || !strings.HasSuffix(name, ".Append") || p.pkgOf(fn) != "soju" {
			return
		}
		args := callArgs(ci)
		var entity ssa.Value
		for _, a := range args {
			if isString(a.Type()) {
				entity = a
			}
		}
		p.guardRule(r, "history", p.fnID(fn), ci, func(sink *Ctx) *Cut {
			return &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
				if call, ok := mustResC(p, cond, c).(*ssa.Call); ok && !pol && (p.calleeName(call) == "strings.EqualFold" || strings.HasSuffix(p.calleeName(call), "equalCasemap")) {
					for _, a := range callArgs(call) {
						if k, isk := constString(a); isk && strings.EqualFold(k, "nickserv") {
							return true
						}
					}
				}
				return eqFact(cond, pol, token.NEQ, func(a, b ssa.Value) bool {
					k, isk := constString(mustResC(p, b, c))
					return isk && k == "nickserv" && p.folded(a, c) && (p.ap(a, c) == p.ap(entity, sink) || p.foldOf(a, c, entity, sink))
				})
			}}
		}, GuardOpts{MaxDepth: 3}, "a message from or to NickServ may be written to the history")
	})
}

// commandWords recognises the arguments of service commands, which may be
// passwords: what the words of a command are cut from, and all but the first
// words.
func (s *secrets) commandWords() func(v ssa.Value) string {
	p := s.p
	texts := map[ssa.Value]bool{}
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if name != "soju.handleServiceCommand" {
			return
		}
		for _, a := range callArgs(ci) {
			for _, o := range p.origins(a, nil, sliceOpts{Data: true, Stop: func(v ssa.Value, c *Ctx) bool {
				call, ok := v.(*ssa.Extract)
				return ok && call != nil
			}}) {
				ex, ok := o.V.(*ssa.Extract)
				if !ok {
					continue
				}
				if call, ok := ex.Tuple.(*ssa.Call); ok && len(call.Call.Args) == 1 && isString(call.Call.Args[0].Type()) {
					texts[ex] = true
					w, _ := p.res(call.Call.Args[0], nil)
					texts[w] = true
				}
			}
		}
	})
	if f := p.Func("soju.handleServiceCommand"); f != nil {
		for _, prm := range f.Params {
			if _, ok := prm.Type().Underlying().(*types.Slice); ok {
				texts[prm] = true
			}
		}
	}
	// the arguments of each command
	for _, fn := range p.Funcs {
		ps := fn.Signature.Params()
		if p.inSoju(fn) && ps.Len() == 2 && len(fn.Params) == 2 && strings.HasSuffix(ps.At(0).Type().String(), "soju.serviceContext") {
			if sl, ok := ps.At(1).Type().Underlying().(*types.Slice); ok && isString(sl.Elem()) {
				texts[fn.Params[1]] = true
			}
		}
	}
	return func(v ssa.Value) string {
		what := ""
		p.origins(v, nil, sliceOpts{Data: true, Stop: func(v ssa.Value, c *Ctx) bool {
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				if ia, ok := u.X.(*ssa.IndexAddr); ok {
					if k, isk := constInt(ia.Index); isk && k == 0 {
						return true
					}
				}
			}
			if texts[v] {
				what = "a command, which may contain a password,"
			}
			b, isBasic := v.Type().Underlying().(*types.Basic)
			return what != "" || isErrorType(v.Type()) || isBasic && b.Info()&types.IsString == 0
		}, Through: func(name string, call ssa.CallInstruction) []ssa.Value {
			if v, ok := call.(*ssa.Call); !ok || !carriesText(v.Type()) {
				return nil
			}
			return callArgs(call)
		}})
		return what
	}
}

// callsOrIs: fn is, or calls, the function with the name.
func (p *Program) callsOrIs(fn *ssa.Function, id string) bool {
	if p.fnID(fn) == id {
		return true
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(ssa.CallInstruction); ok && p.calleeName(ci) == id {
				return true
			}
		}
	}
	return false
}

// logsLine: the call formats a message that was just read from, or is written
// to, a connection.
func (p *Program) logsLine(fn *ssa.Function, ci ssa.CallInstruction) bool {
	var transport []ssa.Value
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			call, ok := ins.(*ssa.Call)
			if !ok || !call.Call.IsInvoke() {
				continue
			}
			switch call.Call.Method.Name() {
			case "ReadMessage":
				transport = append(transport, call)
			case "WriteMessage":
				for _, a := range call.Call.Args {
					w, _ := p.res(a, nil)
					transport = append(transport, w)
				}
			}
		}
	}
	if len(transport) == 0 {
		return false
	}
	found := false
	for _, a := range callArgs(ci) {
		p.origins(a, nil, sliceOpts{Data: true, Stop: func(v ssa.Value, c *Ctx) bool {
			for _, t := range transport {
				if v == t {
					found = true
				}
				if ex, ok := v.(*ssa.Extract); ok && ex.Tuple == t {
					found = true
				}
			}
			return found || isErrorType(v.Type())
		}, Through: func(name string, call ssa.CallInstruction) []ssa.Value { return callArgs(call) }})
	}
	return found
}

// folded: v is in lower case.
func (p *Program) folded(v ssa.Value, c *Ctx) bool {
	call, ok := mustResC(p, v, c).(*ssa.Call)
	if !ok {
		return false
	}
	n := p.calleeName(call)
	return n == "strings.ToLower" || strings.Contains(p.typeName(call.Call.Value.Type()), "CaseMapping") || strings.HasPrefix(n, "xirc.CaseMapping")
}

// foldOf: v is the lower case form of w (or of what w is that of).
func (p *Program) foldOf(v ssa.Value, c *Ctx, w ssa.Value, wc *Ctx) bool {
	arg := func(v ssa.Value, c *Ctx) string {
		v, c = p.res(v, c)
		if call, ok := v.(*ssa.Call); ok && p.folded(v, c) {
			as := callArgs(call)
			return p.ap(as[len(as)-1], c)
		}
		return p.ap(v, c)
	}
	return arg(v, c) == arg(w, wc)
}

func isLogger(name string) bool {
	for _, suf := range []string{"ogger.Printf", "ogger.Debugf", "ogger.Print", "ogger.Println", "ogger.Fatalf"} {
		if strings.HasSuffix(name, suf) {
			return true
		}
	}
	return strings.HasPrefix(name, "log.Print") || strings.HasPrefix(name, "log.Fatal") || strings.HasPrefix(name, "log.Panic")
}

// isServicePrint: the call shows a text to the user of a service command.
func (p *Program) isServicePrint(ci ssa.CallInstruction) bool {
	v, c := p.res(ci.Common().Value, nil)
	_, _, ok := p.loadOf(v, c, "soju.serviceContext", "print")
	if ok {
		return true
	}
	f, isF := v.(*ssa.Field)
	return isF && p.isField(f.X.Type(), f.Field, "soju.serviceContext", "print")
}

// sentToOwn: the message built at msg carries credentials of the network of
// the server connection it is sent to.
func (p *Program) sentToOwn(msg *ssa.Alloc) bool {
	secret := p.firstParam(msg)
	if secret == nil || msg.Referrers() == nil {
		return false
	}
	path := p.ap(secret, nil)
	n := 0
	for _, ref := range *msg.Referrers() {
		ci, ok := ref.(ssa.CallInstruction)
		if !ok {
			continue
		}
		if !strings.HasPrefix(p.calleeName(ci), "soju.upstreamConn.SendMessage") {
			return false
		}
		n++
		own := p.ap(callArgs(ci)[0], nil) + ".network."
		if strings.Contains(path, ".Pass") && !strings.HasPrefix(path, own) {
			return false
		}
	}
	return n > 0
}

// checkHashed: what is stored as the password of a user.
func (p *Program) checkHashed(r *Report) {
	var check func(v ssa.Value, c *Ctx, d int) bool
	check = func(v ssa.Value, c *Ctx, d int) bool {
		os := p.origins(v, c, sliceOpts{Up: true, Stop: func(v ssa.Value, c *Ctx) bool {
			return false
		}})
		if len(os) == 0 || d > 6 {
			return false
		}
		for _, o := range os {
			w, wc := o.V, o.Ctx
			if k, isk := constString(w); isk && k == "" || isNilConst(w) {
				continue
			}
			if cv, ok := w.(*ssa.Convert); ok {
				if !check(cv.X, wc, d+1) {
					return false
				}
				continue
			}
			if call, ok := p.isCallTo(w, 0, "golang.org/x/crypto/bcrypt.GenerateFromPassword"); ok && call != nil {
				continue
			}
			a := w
			if u, ok := w.(*ssa.UnOp); ok && u.Op == token.MUL {
				a = u.X
				// a pointer to a hash
				if inner, ok := a.(*ssa.UnOp); ok && inner.Op == token.MUL {
					a = inner.X
				}
			}
			switch p.fieldPath(a) {
			case "database.User.Password", "soju.eventUserUpdate.password":
				continue
			}
			if strings.HasPrefix(p.fieldPath(a), "database/sql.NullString.") && p.pkgOf(w.Parent()) == "database" {
				continue
			}
			if al := p.cell(a); al != nil {
				ok := true
				for _, st := range p.allCellStores(al) {
					if !check(st.Val, nil, d+1) {
						ok = false
					}
				}
				if ok && len(p.allCellStores(al)) > 0 {
					continue
				}
			}
			if o.V != v && d < 6 && w != v {
				if _, isLoad := w.(*ssa.UnOp); isLoad && check(w, wc, d+3) {
					continue
				}
			}
			return false
		}
		return true
	}
	for _, f := range [][2]string{{"database.User", "Password"}, {"soju.eventUserUpdate", "password"}} {
		for _, st := range p.storesTo(f[0], f[1]) {
			r.Check(check(st.Val, nil, 0), "hashed", p.fnID(st.Parent())+":"+f[1], "%s: what is stored as a password may not be a hash", p.at(st))
		}
	}
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if name != "golang.org/x/crypto/bcrypt.GenerateFromPassword" {
			return
		}
		k, isk := p.intOf(callArgs(ci)[1], nil)
		r.Check(isk && k >= 10, "hashed", p.fnID(fn)+":cost", "%s: passwords are hashed at a low cost", p.at(ci))
	})
}
