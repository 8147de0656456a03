package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{
		ID: "C28", Level: "static-proof", Run: checkNames,
		Explanation: "Every comparison of names is of folded names, every table per channel or user is keyed by folded names, the folding functions fold exactly the letters of their mapping, and a new mapping reaches every table.",
	})
}

const cmMap = "xirc.CaseMappingMap"

func checkNames(p *Program, r *Report) {
	r.Rule("table", "a table of names finds, adds and removes entries under the folded name, and keeps all of them when the case mapping changes", 5)
	r.Rule("folding", "the case mappings fold exactly the letters they are defined to", 3)
	r.Rule("announce", "every table of a network takes over the case mapping that its server announces", 6)
	r.Rule("session", "a session uses the case mapping of its network", 2)
	r.Rule("history-key", "buffers of the history are named by the folded name", 3)
	r.Rule("map-key", "a map that is keyed by folded names is only used with folded names", 1)
	r.Rule("compare", "names sent by a server or a client are not compared letter by letter", 5)

	p.checkNameTable(r)
	p.checkFolding(r)
	p.checkAnnounce(r)
	p.checkSessionFold(r)
	p.checkNameKeys(r)
	p.checkNameCompare(r)
}

// foldCall: v is a name folded by a case mapping.
func (p *Program) foldCall(v ssa.Value, c *Ctx) (*ssa.Call, *Ctx) {
	w, wc := p.res(v, c)
	call, ok := w.(*ssa.Call)
	if !ok || call.Call.IsInvoke() || len(call.Call.Args) != 1 {
		return nil, nil
	}
	sig := call.Call.Signature()
	if sig.Results().Len() != 1 || sig.Params().Len() != 1 || !isString(sig.Results().At(0).Type()) || !isString(sig.Params().At(0).Type()) {
		return nil, nil
	}
	if f := call.Call.StaticCallee(); f != nil {
		n := p.fnID(f)
		if strings.HasPrefix(n, "xirc.casemap") {
			return call, wc
		}
		return nil, nil
	}
	if p.typeName(call.Call.Value.Type()) == "xirc.CaseMapping" {
		return call, wc
	}
	for _, o := range p.origins(call.Call.Value, wc, sliceOpts{}) {
		if p.typeName(o.V.Type()) == "xirc.CaseMapping" {
			return call, wc
		}
	}
	return nil, nil
}

func (p *Program) checkNameTable(r *Report) {
	seen := map[string]bool{}
	for _, fn := range p.Funcs {
		id := p.fnID(fn)
		if !strings.HasPrefix(id, cmMap+".") || seen[id] || fn.Parent() != nil {
			continue
		}
		if o := fn.Origin(); o != nil && o.Blocks != nil {
			fn = o
		}
		if len(fn.Params) == 0 {
			continue
		}
		seen[id] = true
		recv := fn.Params[0]
		field := func(v ssa.Value, name string) bool {
			v, _ = p.res(v, nil)
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				v = u.X
			}
			switch x := v.(type) {
			case *ssa.FieldAddr:
				fv := fieldVar(x.X.Type(), x.Field)
				return fv != nil && fv.Name() == name && mustRes(p, x.X) == ssa.Value(recv)
			case *ssa.Field:
				fv := fieldVar(x.X.Type(), x.Field)
				return fv != nil && fv.Name() == name
			}
			return false
		}
		folded := func(k ssa.Value) ssa.Value {
			w, _ := p.res(k, nil)
			call, ok := w.(*ssa.Call)
			if !ok || call.Call.IsInvoke() || len(call.Call.Args) != 1 {
				return nil
			}
			if field(call.Call.Value, "casemap") {
				return call.Call.Args[0]
			}
			// the new mapping
			for _, q := range fn.Params[1:] {
				if mustRes(p, call.Call.Value) == ssa.Value(q) {
					return call.Call.Args[0]
				}
			}
			return nil
		}
		var entryKey func(v ssa.Value) bool // the key as it was given
		entryKey = func(v ssa.Value) bool {
			v, _ = p.res(v, nil)
			if len(fn.Params) > 1 && v == ssa.Value(fn.Params[1]) && isString(v.Type()) {
				return true
			}
			if u, ok := v.(*ssa.UnOp); ok {
				v = u.X
			}
			switch x := v.(type) {
			case *ssa.Field:
				fv := fieldVar(x.X.Type(), x.Field)
				return fv != nil && fv.Name() == "originalKey"
			case *ssa.FieldAddr:
				fv := fieldVar(x.X.Type(), x.Field)
				return fv != nil && fv.Name() == "originalKey"
			}
			return false
		}
		var updates []*ssa.MapUpdate
		check := func(ins ssa.Instruction, k ssa.Value, what string) {
			name := folded(k)
			r.Check(name != nil && entryKey(name), "table", fmt.Sprintf("%s:%s", id, what), "%s: an entry is looked for, added or removed under a name that is not folded by the table's case mapping", p.at(ins))
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Lookup:
					if _, isMap := x.X.Type().Underlying().(*types.Map); isMap {
						check(ins, x.Index, "lookup")
					}
				case *ssa.MapUpdate:
					updates = append(updates, x)
					check(ins, x.Key, "add")
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
						check(ins, x.Call.Args[1], "delete")
					}
				}
			}
		}
		isUpdate := p.effects(func(i ssa.Instruction, c *Ctx) bool { _, ok := i.(*ssa.MapUpdate); return ok }, nil)
		isUpdate.all = true
		if strings.HasSuffix(id, ".Set") || strings.HasSuffix(id, ".SetCaseMapping") {
			miss := len(updates) == 0
			for _, ret := range returnsOf(fn) {
				if _, open := p.reachInstr(ret, nil, isUpdate.cut()); open {
					miss = true
				}
			}
			r.Check(!miss, "table", id+":keeps", "%s: an entry is lost", p.funcPos(fn))
		}
		if strings.HasSuffix(id, ".SetCaseMapping") {
			for _, f := range []string{"casemap", "m"} {
				st := false
				for _, b := range fn.Blocks {
					for _, ins := range b.Instrs {
						s, ok := ins.(*ssa.Store)
						if !ok {
							continue
						}
						fa, ok := s.Addr.(*ssa.FieldAddr)
						if !ok || fieldVar(fa.X.Type(), fa.Field).Name() != f {
							continue
						}
						if f == "casemap" && mustRes(p, s.Val) == ssa.Value(fn.Params[1]) {
							st = true
						}
						if _, isNew := mustRes(p, s.Val).(*ssa.MakeMap); f == "m" && isNew {
							st = true
						}
					}
				}
				r.Check(st, "table", id+":"+f, "%s: the table does not take over the new case mapping", p.funcPos(fn))
			}
			// entries are added to the new map under the new mapping
			for _, u := range updates {
				w, _ := p.res(u.Key, nil)
				call, ok := w.(*ssa.Call)
				if !ok || !field(call.Call.Value, "casemap") {
					continue
				}
				// read after the change
				_, before := p.reachInstr(call, nil, &Cut{Instr: func(i ssa.Instruction, c *Ctx) bool {
					s, ok := i.(*ssa.Store)
					if !ok {
						return false
					}
					fa, ok := s.Addr.(*ssa.FieldAddr)
					return ok && fieldVar(fa.X.Type(), fa.Field).Name() == "casemap"
				}})
				r.Check(!before, "table", id+":order", "%s: entries are moved under the old case mapping", p.at(u))
			}
		}
		if strings.HasSuffix(id, ".Set") && len(fn.Params) > 2 {
			// what is stored is the value given
			for i, u := range updates {
				good := false
				for _, o := range p.origins(u.Value, nil, sliceOpts{Data: true}) {
					if o.V == ssa.Value(fn.Params[2]) {
						good = true
					}
				}
				if ld, ok := u.Value.(*ssa.UnOp); ok && !good {
					if a, ok := ld.X.(*ssa.Alloc); ok {
						for _, ref := range *a.Referrers() {
							if fa, ok := ref.(*ssa.FieldAddr); ok {
								for _, rr := range *fa.Referrers() {
									if s, ok := rr.(*ssa.Store); ok && mustRes(p, s.Val) == ssa.Value(fn.Params[2]) {
										good = true
									}
								}
							}
						}
					}
				}
				r.Check(good, "table", fmt.Sprintf("%s:value#%d", id, i), "%s: what is kept under a name is not what was given for it", p.at(u))
			}
		}
	}
}

func (p *Program) funcPos(fn *ssa.Function) string { return p.fnID(fn) }

// checkFolding compares the branches of the case mappings with their definition.
func (p *Program) checkFolding(r *Report) {
	want := map[string]map[byte]byte{"xirc.casemapASCII": {}, "xirc.casemapRFC1459": {'{': '[', '}': ']', '\\': '|', '~': '^'}, "xirc.casemapRFC1459Strict": {'{': '[', '}': ']', '\\': '|'}}
	for id, pairs := range want {
		fn := p.Func(id)
		if fn == nil {
			r.Ok("folding", id+": not there")
			continue
		}
		got := map[string]bool{}
		known := true
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				if _, ok := st.Addr.(*ssa.IndexAddr); !ok {
					continue
				}
				lo, hi := int64(0), int64(255)
				var rv ssa.Value
				for d := b; d != nil; d = d.Idom() {
					if len(d.Preds) != 1 {
						continue
					}
					q := d.Preds[0]
					iff, ok := q.Instrs[len(q.Instrs)-1].(*ssa.If)
					if !ok || q.Succs[0] == q.Succs[1] {
						continue
					}
					a, k, op, ok := cmpFact(iff.Cond, q.Succs[0] == d)
					if !ok {
						continue
					}
					n, ok := constInt(k)
					if !ok {
						continue
					}
					bt, isb := a.Type().Underlying().(*types.Basic)
					if !isb || bt.Kind() != types.Uint8 && bt.Kind() != types.Int32 {
						continue
					}
					rv = a
					switch op {
					case token.EQL:
						lo, hi = max(lo, n), min(hi, n)
					case token.GEQ:
						lo = max(lo, n)
					case token.GTR:
						lo = max(lo, n+1)
					case token.LEQ:
						hi = min(hi, n)
					case token.LSS:
						hi = min(hi, n-1)
					}
				}
				if k, ok := constInt(st.Val); ok && lo == hi {
					got[fmt.Sprintf("%c=%c", lo, k)] = true
					continue
				}
				if d, ok := offsetOf(st.Val, rv); ok {
					got[fmt.Sprintf("%d-%d%+d", lo, hi, d)] = true
					continue
				}
				known = false
			}
		}
		if !known || len(got) == 0 {
			r.Ok("folding", id+": written in another way")
			continue
		}
		n := 0
		bad := ""
		if got["65-90+32"] {
			n++
		} else if got["97-122-32"] {
			n++
		} else {
			bad = "letters are not folded"
		}
		for a, b := range pairs {
			if got[fmt.Sprintf("%c=%c", a, b)] || got[fmt.Sprintf("%c=%c", b, a)] {
				n++
			} else {
				bad = fmt.Sprintf("%c and %c are not the same", a, b)
			}
		}
		if bad == "" && n != len(got) {
			bad = "it folds more than it is defined to"
		}
		r.Check(bad == "", "folding", id, "%s: %s", id, bad)
	}
	// names of the mappings
	fn := p.Func("xirc.ParseCaseMapping")
	if fn == nil {
		return
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			u, ok := ins.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				continue
			}
			g, ok := u.X.(*ssa.Global)
			if !ok {
				continue
			}
			exp := map[string]string{"CaseMappingASCII": "ascii", "CaseMappingRFC1459": "rfc1459", "CaseMappingRFC1459Strict": "rfc1459-strict"}[g.Name()]
			if exp == "" {
				continue
			}
			_, open := p.reachInstr(u, nil, &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
				return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
					s, ok := constString(b)
					return ok && s == exp
				})
			}})
			if len(b.Preds) > 0 {
				r.Check(!open, "folding", "name "+exp, "%s: %s is used for another name than %q", p.at(u), g.Name(), exp)
			}
		}
	}
	for g, f := range map[string]string{"CaseMappingASCII": "xirc.casemapASCII", "CaseMappingRFC1459": "xirc.casemapRFC1459", "CaseMappingRFC1459Strict": "xirc.casemapRFC1459Strict"} {
		sp := p.ByPkg["xirc"]
		if sp == nil {
			continue
		}
		gl, ok := sp.Members[g].(*ssa.Global)
		if !ok {
			continue
		}
		p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
			st, ok := ins.(*ssa.Store)
			if !ok || st.Addr != ssa.Value(gl) {
				return
			}
			for _, o := range p.origins(st.Val, nil, sliceOpts{}) {
				if h, ok := o.V.(*ssa.Function); ok && strings.HasPrefix(p.fnID(h), "xirc.casemap") {
					r.Check(p.fnID(h) == f, "folding", "mapping "+g, "%s: %s is %s", p.at(ins), g, p.fnID(h))
				}
			}
		})
	}
}

// offsetOf: v is base plus a constant.
func offsetOf(v, base ssa.Value) (int64, bool) {
	if v == base {
		return 0, true
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op == token.ADD || x.Op == token.SUB {
			if k, ok := constInt(x.Y); ok {
				d, ok := offsetOf(x.X, base)
				if x.Op == token.SUB {
					k = -k
				}
				return d + k, ok
			}
			if k, ok := constInt(x.X); ok && x.Op == token.ADD {
				d, ok := offsetOf(x.Y, base)
				return d + k, ok
			}
		}
	case *ssa.Convert:
		return offsetOf(x.X, base)
	}
	return 0, false
}

// tables lists the fields that are tables of names, by struct.
func (p *Program) nameTables() map[string][]string {
	out := map[string][]string{}
	for _, pk := range p.Pkgs {
		if !p.inRepo(pk.Types) {
			continue
		}
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if nt, ok := st.Field(i).Type().(*types.Named); ok && p.objName(nt.Origin().Obj()) == cmMap {
					id := p.objName(tn)
					out[id] = append(out[id], st.Field(i).Name())
				}
			}
		}
	}
	return out
}

func (p *Program) checkAnnounce(r *Report) {
	fn := p.Func("soju.network.updateCasemapping")
	if fn == nil {
		r.Bad("announce", "soju.network.updateCasemapping", "there is no function that changes the case mapping of a network")
		return
	}
	newCM := ssa.Value(nil)
	if len(fn.Params) > 1 {
		newCM = fn.Params[1]
	}
	noConn := func(cond ssa.Value, pol bool, c *Ctx) bool {
		return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
			_, _, ok := p.loadOf(a, c, "soju.network", "conn")
			return ok && isNilConst(b)
		})
	}
	isNew := func(v ssa.Value, c *Ctx) bool {
		w, wc := p.res(v, c)
		if w == newCM {
			return true
		}
		_, _, ok := p.loadOf(w, wc, "soju.network", "casemap")
		return ok
	}
	must := func(key string, e *effs, what string) {
		miss := false
		for _, ret := range returnsOf(fn) {
			if _, open := p.reachInstr(ret, nil, e.cut()); open {
				miss = true
			}
		}
		r.Check(!miss, "announce", key, "%s: %s does not take over a new case mapping", p.fnID(fn), what)
	}
	for typ, fields := range p.nameTables() {
		if typ == "soju.downstreamConn" {
			continue
		}
		for _, f := range fields {
			may := func(i ssa.Instruction, c *Ctx) bool {
				ci, ok := i.(*ssa.Call)
				if !ok || !strings.HasSuffix(p.calleeName(ci), "CaseMappingMap.SetCaseMapping") {
					return false
				}
				a := callArgs(ci)
				fa, ok := a[0].(*ssa.FieldAddr)
				if !ok {
					return false
				}
				fv := fieldVar(fa.X.Type(), fa.Field)
				return fv != nil && fv.Name() == f && p.typeName(fa.X.Type()) == typ
			}
			set := func(i ssa.Instruction, c *Ctx) bool {
				return may(i, c) && isNew(callArgs(i.(*ssa.Call))[1], c)
			}
			must(typ+"."+f, p.effectsMay(set, may, noConn), "the table "+strings.TrimPrefix(typ, "soju.")+"."+f)
		}
	}
	must("casemap", p.effects(p.storesField("soju.network", "casemap", func(st *ssa.Store, fa *ssa.FieldAddr, c *Ctx) bool { return mustResC(p, st.Val, c) == newCM }), nil), "the network")
	must("sessions", p.effects(p.calls(nil, "soju.downstreamConn.updateCasemapping"), nil), "a session")

	// announced: what the server says is used, and the default otherwise
	n := 0
	p.eachCall(func(g *ssa.Function, ci ssa.CallInstruction, name string) {
		if name != "soju.network.updateCasemapping" || !p.inSoju(g) {
			return
		}
		n++
		for _, o := range p.origins(callArgs(ci)[1], nil, sliceOpts{Stop: func(v ssa.Value, c *Ctx) bool { return p.callOf(v) != nil }}) {
			ok := false
			switch x := o.V.(type) {
			case *ssa.Call:
				ok = p.calleeName(x) == "xirc.ParseCaseMapping"
			case *ssa.UnOp:
				gl, isg := x.X.(*ssa.Global)
				ok = isg && (gl.Name() == "CaseMappingRFC1459" || gl.Name() == "stdCaseMapping")
			case *ssa.Function:
				ok = p.fnID(x) == "xirc.casemapRFC1459"
			}
			r.Check(ok, "announce", fmt.Sprintf("announced#%d", n), "%s: the case mapping is neither the one the server announced nor the default one (%s)", p.at(ci), p.describe(o.V))
		}
	})
	if n == 0 {
		r.Bad("announce", "announced", "a case mapping that a server announces is ignored")
	}

	// tables that are created later
	p.eachCall(func(g *ssa.Function, ci ssa.CallInstruction, name string) {
		call, ok := ci.(*ssa.Call)
		if !ok || !p.inSoju(g) || !strings.HasPrefix(name, "xirc.NewCaseMappingMap") {
			return
		}
		if p.startsOut(call) {
			return // takes over the mapping of its network like the others
		}
		for _, o := range p.origins(callArgs(ci)[0], nil, sliceOpts{Up: true}) {
			_, _, ok := p.loadOf(o.V, o.Ctx, "soju.network", "casemap")
			if c, isc := o.V.(*ssa.Call); !ok && isc {
				ok = strings.Contains(strings.ToLower(p.calleeName(c)), "casemap") && p.calleeName(c) != "xirc.ParseCaseMapping"
			}
			if par, isp := o.V.(*ssa.Parameter); isp && p.typeName(par.Type()) == "xirc.CaseMapping" {
				ok = true
			}
			r.Check(ok, "announce", "created in "+p.fnID(topFn(g)), "%s: a table of names is created with a case mapping other than that of the network in use (%s)", p.at(ci), p.describe(o.V))
		}
	})
}

// startsOut: the table is a part of a network, an upstream connection or a
// session that is being created.
func (p *Program) startsOut(call *ssa.Call) bool {
	owner := func(t types.Type) bool {
		switch p.typeName(t) {
		case "soju.network", "soju.upstreamConn", "soju.downstreamConn":
			return true
		}
		return false
	}
	var fresh func(v ssa.Value, d int) bool
	fresh = func(v ssa.Value, d int) bool {
		if d > 6 || v.Referrers() == nil {
			return false
		}
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.Store:
				if x.Val != v {
					continue
				}
				switch a := x.Addr.(type) {
				case *ssa.FieldAddr:
					b := a.X
					for {
						if fa, ok := b.(*ssa.FieldAddr); ok {
							b = fa.X
							continue
						}
						break
					}
					if al, ok := mustResC(p, b, nil).(*ssa.Alloc); ok && owner(al.Type()) {
						return true
					}
					if al, ok := b.(*ssa.Alloc); ok && !owner(al.Type()) && fresh(al, d+1) {
						return true
					}
				case *ssa.Alloc:
					if fresh(a, d+1) {
						return true
					}
				}
			case *ssa.UnOp:
				if x.Op == token.MUL && fresh(x, d+1) {
					return true
				}
			case *ssa.Return:
				// every caller makes it part of something new
				all := len(p.callers[call.Parent()]) > 0
				for _, site := range p.callers[call.Parent()] {
					c, ok := site.(*ssa.Call)
					all = all && ok && fresh(c, d+1)
				}
				if all {
					return true
				}
			}
		}
		return false
	}
	return fresh(call, 0)
}

func (p *Program) checkSessionFold(r *Report) {
	fn := p.Func("soju.downstreamConn.updateCasemapping")
	if fn == nil {
		r.Bad("session", "soju.downstreamConn.updateCasemapping", "sessions do not take over a case mapping")
		return
	}
	must := func(key string, e *effs, what string) {
		miss := false
		for _, ret := range returnsOf(fn) {
			if _, open := p.reachInstr(ret, nil, e.cut()); open {
				miss = true
			}
		}
		r.Check(!miss, "session", key, "%s: a session does not take over the case mapping of its network (%s)", p.fnID(fn), what)
	}
	ofNet := func(v ssa.Value, c *Ctx) bool {
		for _, o := range p.origins(v, c, sliceOpts{Stop: func(v ssa.Value, c *Ctx) bool {
			_, _, ok := p.loadOf(v, c, "soju.network", "casemap")
			return ok
		}}) {
			if _, _, ok := p.loadOf(o.V, o.Ctx, "soju.network", "casemap"); ok {
				return true
			}
		}
		_, _, own := p.loadOf(v, c, "soju.downstreamConn", "casemap")
		return own
	}
	must("casemap", p.effects(p.storesField("soju.downstreamConn", "casemap", func(st *ssa.Store, fa *ssa.FieldAddr, c *Ctx) bool { return ofNet(st.Val, c) }), nil), "casemap")
	must("nickCM", p.effects(p.storesField("soju.downstreamConn", "nickCM", func(st *ssa.Store, fa *ssa.FieldAddr, c *Ctx) bool { return true }), nil), "its own nickname")
	for _, f := range p.nameTables()["soju.downstreamConn"] {
		must(f, p.effects(func(i ssa.Instruction, c *Ctx) bool {
			ci, ok := i.(*ssa.Call)
			if !ok || !strings.HasSuffix(p.calleeName(ci), "CaseMappingMap.SetCaseMapping") {
				return false
			}
			a := callArgs(ci)
			fa, ok := a[0].(*ssa.FieldAddr)
			return ok && p.isField(fa.X.Type(), fa.Field, "soju.downstreamConn", f) && ofNet(a[1], c)
		}, nil), f)
	}
	// nickCM is the folded nick
	for _, st := range p.storesTo("soju.downstreamConn", "nickCM") {
		if k, ok := constString(mustRes(p, st.Val)); ok && k == strings.ToLower(k) {
			continue
		}
		call, _ := p.foldCall(st.Val, nil)
		r.Check(call != nil && p.reads(call.Call.Args[0], nil, "soju.downstreamConn", "nick"), "session", "nickCM in "+p.fnID(st.Parent()), "%s: the folded nickname of a session is not its folded nickname", p.at(st))
	}
	// whenever the nick changes
	for _, st := range p.storesTo("soju.downstreamConn", "nick") {
		g := st.Parent()
		if p.fname(topFn(g)) == "newDownstreamConn" || p.beforeHandover(st) {
			continue
		}
		e := p.effects(p.storesField("soju.downstreamConn", "nickCM", func(*ssa.Store, *ssa.FieldAddr, *Ctx) bool { return true }), nil)
		at := p.avoided(st, returnsOf(g), e, nil)
		r.Check(at == nil, "session", "nick in "+p.fnID(g), "%s: the nickname of a session changes but not its folded form", p.at(st))
	}
	// a session joins its user with it
	for _, ec := range p.eventCases()["soju.eventDownstreamConnected"] {
		e := p.effects(orEffect(p.calls(nil, "soju.downstreamConn.updateCasemapping"), p.calls(nil, "soju.conn.Shutdown", "soju.downstreamConn.Shutdown", "soju.conn.Close", "soju.downstreamConn.Close")), nil)
		at := p.missed(ec, e)
		r.Check(at == nil, "session", "joins", "%s: a session joins its user without the case mapping of its network", p.at(ec.ta))
	}
}

// beforeHandover: the store is in a function that only runs while a client registers.
func (p *Program) beforeHandover(st *ssa.Store) bool {
	n := p.fname(topFn(st.Parent()))
	return n == "handleMessageUnregistered" || n == "register"
}

func (p *Program) checkNameKeys(r *Report) {
	ofNetwork := func(v ssa.Value, c *Ctx) bool {
		call, cc := p.foldCall(v, c)
		if call == nil {
			return false
		}
		for _, o := range p.origins(call.Call.Value, cc, sliceOpts{Stop: func(v ssa.Value, c *Ctx) bool {
			_, _, ok := p.loadOf(v, c, "soju.network", "casemap")
			return ok
		}}) {
			if _, _, ok := p.loadOf(o.V, o.Ctx, "soju.network", "casemap"); !ok {
				return false
			}
		}
		return true
	}
	folded := func(v ssa.Value) bool {
		if ofNetwork(v, nil) {
			return true
		}
		os := p.origins(v, nil, sliceOpts{Up: true, Stop: func(v ssa.Value, c *Ctx) bool { return p.callOf(v) != nil }})
		for _, o := range os {
			if s, ok := constString(o.V); ok && s == "" {
				continue
			}
			if !ofNetwork(o.V, o.Ctx) {
				return false
			}
		}
		return len(os) > 0
	}
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		if !p.inSoju(fn) {
			return
		}
		switch x := ins.(type) {
		case *ssa.Call:
			if x.Call.IsInvoke() && strings.HasPrefix(p.typeName(x.Call.Value.Type()), "msgstore.") {
				switch x.Call.Method.Name() {
				case "LastMsgID", "Append":
					r.Check(folded(x.Call.Args[1]), "history-key", x.Call.Method.Name()+" in "+p.fnID(fn), "%s: the history is asked for a buffer whose name is not folded by the network's case mapping", p.at(ins))
				}
			}
		case *ssa.Store:
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			if p.isField(fa.X.Type(), fa.Field, "msgstore.LoadMessageOptions", "Entity") || p.isField(fa.X.Type(), fa.Field, "msgstore.SearchMessageOptions", "In") {
				r.Check(folded(x.Val), "history-key", fieldVar(fa.X.Type(), fa.Field).Name()+" in "+p.fnID(fn), "%s: the history is asked for a buffer whose name is not folded by the network's case mapping", p.at(ins))
			}
		}
	})

	// maps
	type use struct {
		ins ssa.Instruction
		key ssa.Value
	}
	uses := map[ssa.Value][]use{}
	var order []ssa.Value
	add := func(m, k ssa.Value, ins ssa.Instruction) {
		mt, ok := m.Type().Underlying().(*types.Map)
		if !ok || !isString(mt.Key()) {
			return
		}
		w := mustRes(p, m)
		if _, ok := w.(*ssa.MakeMap); !ok {
			return
		}
		if uses[w] == nil {
			order = append(order, w)
		}
		uses[w] = append(uses[w], use{ins, k})
	}
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		if !p.inSoju(fn) {
			return
		}
		switch x := ins.(type) {
		case *ssa.Lookup:
			add(x.X, x.Index, ins)
		case *ssa.MapUpdate:
			add(x.Map, x.Key, ins)
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
				add(x.Call.Args[0], x.Call.Args[1], ins)
			}
		}
	})
	for _, m := range order {
		n := 0
		for _, u := range uses[m] {
			if c, _ := p.foldCall(u.key, nil); c != nil {
				n++
			}
		}
		if n == 0 {
			continue
		}
		for i, u := range uses[m] {
			c, _ := p.foldCall(u.key, nil)
			_, isConst := constString(u.key)
			r.Check(c != nil || isConst, "map-key", fmt.Sprintf("%s %s#%d", p.fnID(topFn(m.Parent())), m.Name(), i), "%s: a map that is otherwise keyed by folded names is used with a name as it was spelled", p.at(u.ins))
		}
	}
}

// a name as it is recorded, and one as it was sent.
func (p *Program) recordedName(v ssa.Value, c *Ctx) bool {
	for _, f := range [][2]string{{"soju.upstreamConn", "nick"}, {"soju.upstreamConn", "pendingRegainNick"}, {"soju.downstreamConn", "nick"}, {"database.Channel", "Name"}, {"soju.upstreamChannel", "Name"}} {
		if _, _, ok := p.loadOf(v, c, f[0], f[1]); ok {
			return true
		}
	}
	w, _ := p.res(v, c)
	call, ok := w.(*ssa.Call)
	return ok && p.calleeName(call) == "database.GetNick"
}

func (p *Program) sentName(v ssa.Value, c *Ctx) bool {
	w, wc := p.res(v, c)
	for _, t := range []string{"gopkg.in/irc.v4.Prefix", "irc.Prefix"} {
		if _, _, ok := p.loadOf(w, wc, t, "Name"); ok {
			return true
		}
	}
	u, ok := w.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	switch x := u.X.(type) {
	case *ssa.FieldAddr:
		fv := fieldVar(x.X.Type(), x.Field)
		return fv != nil && fv.Name() == "Name" && strings.HasSuffix(p.typeName(x.X.Type()), ".Prefix")
	case *ssa.IndexAddr: // an element of a message's parameters
		for _, o := range p.origins(x.X, wc, sliceOpts{Data: true}) {
			if l, ok := o.V.(*ssa.UnOp); ok {
				if fa, ok := l.X.(*ssa.FieldAddr); ok {
					if fv := fieldVar(fa.X.Type(), fa.Field); fv != nil && fv.Name() == "Params" {
						return true
					}
				}
			}
		}
	case *ssa.Alloc: // filled in by parseMessageParams
		for _, ref := range *x.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Val == ssa.Value(x) {
				if _, ok := st.Addr.(*ssa.IndexAddr); ok {
					return true
				}
			}
		}
	}
	return false
}

func (p *Program) checkNameCompare(r *Report) {
	kind := func(v ssa.Value) (rec, sent bool) {
		stop := func(v ssa.Value, c *Ctx) bool {
			return p.recordedName(v, c) || p.sentName(v, c) || p.callOf(v) != nil
		}
		for _, o := range p.origins(v, nil, sliceOpts{Up: true, Stop: stop}) {
			if p.recordedName(o.V, o.Ctx) {
				rec = true
			}
			if p.sentName(o.V, o.Ctx) {
				sent = true
			}
		}
		return
	}
	n := map[string]int{}
	report := func(ins ssa.Instruction, a, b ssa.Value) {
		fn := ins.Parent()
		ra, sa := kind(a)
		if !ra && !sa {
			return
		}
		rb, sb := kind(b)
		bad := ra && sb || sa && rb
		id := p.fnID(fn)
		n[id]++
		r.Check(!bad, "compare", fmt.Sprintf("%s#%d", id, n[id]), "%s: a name that was sent is compared letter by letter with one on record, whatever the case mapping", p.at(ins))
	}
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		if !p.inSoju(fn) {
			return
		}
		switch x := ins.(type) {
		case *ssa.BinOp:
			if (x.Op != token.EQL && x.Op != token.NEQ) || !isString(x.X.Type()) {
				return
			}
			if _, ok := x.Y.(*ssa.Const); ok {
				return
			}
			report(ins, x.X, x.Y)
		case *ssa.Call:
			if p.calleeName(x) == "strings.EqualFold" {
				report(ins, x.Call.Args[0], x.Call.Args[1])
			}
		}
	})
	// the ones that are compared folded
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		if x, ok := ins.(*ssa.BinOp); ok && p.inSoju(fn) && (x.Op == token.EQL || x.Op == token.NEQ) && isString(x.X.Type()) {
			a, _ := p.foldCall(x.X, nil)
			b, _ := p.foldCall(x.Y, nil)
			if a == nil && b == nil {
				return
			}
			ok := func(v ssa.Value, f *ssa.Call) bool {
				if f != nil {
					return true
				}
				if s, isC := constString(v); isC {
					return s == strings.ToLower(s)
				}
				_, _, cm := p.loadOf(v, nil, "soju.downstreamConn", "nickCM")
				return cm
			}
			id := p.fnID(fn)
			n[id]++
			r.Check(ok(x.X, a) && ok(x.Y, b), "compare", fmt.Sprintf("%s#%d", id, n[id]), "%s: a folded name is compared with one that is not folded", p.at(ins))
		}
	})
}
