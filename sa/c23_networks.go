package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{ID: "C23", Explanation: "For every place that stores a network, the facts that must hold of the record are searched for on all paths to it, through the functions that check it, per scheme of its address; the limit is followed through the callers that may lift it.",
		Assumptions: []string{"a loop over a collection reaches every element if it only ends at its header"},
		Run:         runC23})
}

const netRec = "database.Network"

func (p *Program) isURLField(v ssa.Value, c *Ctx, field string) bool {
	w, wc := p.res(v, c)
	_, _, ok := p.loadOf(w, wc, "net/url.URL", field)
	if !ok {
		_, _, ok = p.loadOf(w, wc, "url.URL", field)
	}
	return ok
}

// urlRecord: the record whose address the URL is.
func (p *Program) urlRecord(v ssa.Value, c *Ctx) (ssa.Value, *Ctx) {
	w, wc := p.res(v, c)
	b, bc, ok := ssa.Value(nil), (*Ctx)(nil), false
	for _, f := range []string{"User", "RawQuery", "Fragment", "Host", "Path", "Scheme"} {
		if b, bc, ok = p.loadOf(w, wc, "net/url.URL", f); ok {
			break
		}
		if b, bc, ok = p.loadOf(w, wc, "url.URL", f); ok {
			break
		}
	}
	if !ok {
		return nil, nil
	}
	b, bc = p.res(b, bc)
	if ex, ok := b.(*ssa.Extract); ok {
		if call, ok := ex.Tuple.(*ssa.Call); ok && strings.HasSuffix(p.calleeName(call), "Network.URL") {
			return p.res(callArgs(call)[0], bc)
		}
	}
	return nil, nil
}

// recordOf: the record given to the function that made the network whose
// record v is, or v itself.
func (p *Program) recordOf(v ssa.Value, c *Ctx) (ssa.Value, *Ctx) {
	w, wc := p.res(v, c)
	if fa, ok := w.(*ssa.FieldAddr); ok && p.isField(fa.X.Type(), fa.Field, "soju.network", "Network") {
		b, bc := p.res(fa.X, wc)
		if call, ok := b.(*ssa.Call); ok && len(p.callees[call]) > 0 {
			for _, a := range callArgs(call) {
				if p.typeName(a.Type()) == netRec {
					return p.res(a, bc)
				}
			}
		}
	}
	return w, wc
}

func (p *Program) sameRecord(a ssa.Value, ac *Ctx, b ssa.Value, bc *Ctx) bool {
	if a == nil || b == nil {
		return false
	}
	x, xc := p.recordOf(a, ac)
	y, yc := p.recordOf(b, bc)
	if x == y {
		return true
	}
	k := p.ap(x, xc)
	return !strings.HasPrefix(k, "?") && k == p.ap(y, yc)
}

func runC23(p *Program, r *Report) {
	r.Rule("checked", "a network is only stored after its address and name were checked", 2)
	r.Rule("limit", "an enabled network is only stored within the limit", 2)
	r.Rule("override", "only administrators may exceed the limit", 0)
	r.Rule("count", "the limit is that of the user, else the configured one, on the number of enabled networks", 3)

	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if !strings.HasSuffix(name, ".StoreNetwork") || p.pkgOf(fn) != "soju" {
			return
		}
		args := callArgs(ci)
		rec := args[len(args)-1]
		key := p.fnID(fn)
		if k := p.unchangedCopy(rec, "Addr", "Name", "Enabled"); k {
			r.Ok("checked", key+":unchanged")
			r.Ok("limit", key+":unchanged")
			return
		}
		type fact struct {
			key, what, scheme string
			atom              func(cond ssa.Value, pol bool, c, sink *Ctx) bool
		}
		empty := func(field string, want bool) func(cond ssa.Value, pol bool, c, sink *Ctx) bool {
			return func(cond ssa.Value, pol bool, c, sink *Ctx) bool {
				op := token.EQL
				if !want {
					op = token.NEQ
				}
				if eqFact(cond, pol, op, func(a, b ssa.Value) bool {
					k, isk := constString(b)
					if !(isk && k == "" || isNilConst(b)) || !p.isURLField(a, c, field) {
						return false
					}
					x, xc := p.urlRecord(a, c)
					return p.sameRecord(x, xc, rec, sink)
				}) {
					return true
				}
				a, b, cop, ok := cmpFact(cond, pol)
				if !ok {
					return false
				}
				// len(x) == 0, len(x) > 0
				call, ok := mustResC(p, a, c).(*ssa.Call)
				if !ok || p.calleeName(call) != "builtin.len" || !p.isURLField(call.Call.Args[0], c, field) {
					return false
				}
				k, isk := constInt(b)
				if !isk || k != 0 {
					return false
				}
				return cop == op || !want && cop == token.GTR || want && cop == token.LEQ
			}
		}
		getName := func(v ssa.Value, c, sink *Ctx) bool {
			w, wc := p.res(v, c)
			call, ok := w.(*ssa.Call)
			if !ok || !strings.HasSuffix(p.calleeName(call), "Network.GetName") {
				return false
			}
			return p.sameRecord(callArgs(call)[0], wc, rec, sink)
		}
		facts := []fact{
			{"user", "with credentials in its address", "", empty("User", true)},
			{"query", "with a query in its address", "", empty("RawQuery", true)},
			{"fragment", "with a fragment in its address", "", empty("Fragment", true)},
			{"name", "without a name", "", func(cond ssa.Value, pol bool, c, sink *Ctx) bool {
				return eqFact(cond, pol, token.NEQ, func(a, b ssa.Value) bool { return constIs(b, "") && getName(a, c, sink) })
			}},
			{"dash", "with a name that looks like a flag", "", func(cond ssa.Value, pol bool, c, sink *Ctx) bool {
				call, ok := mustResC(p, cond, c).(*ssa.Call)
				if ok && !pol && p.calleeName(call) == "strings.HasPrefix" {
					return constIs(callArgs(call)[1], "-") && getName(callArgs(call)[0], c, sink)
				}
				return eqFact(cond, pol, token.NEQ, func(a, b ssa.Value) bool {
					k, isk := constInt(b)
					return isk && k == '-'
				})
			}},
			{"scheme", "with an unknown scheme", "gopher", nil},
		}
		for _, s := range []string{"ircs", "irc+insecure"} {
			facts = append(facts, fact{s + ":host", "with an address without a host", s, empty("Host", false)},
				fact{s + ":path", "with a path in its address", s, empty("Path", true)})
		}
		for _, s := range []string{"unix", "irc+unix"} {
			facts = append(facts, fact{s + ":admin", "with a Unix address although the user is no administrator", s, func(cond ssa.Value, pol bool, c, sink *Ctx) bool {
				_, _, ok := p.loadOf(mustResC(p, cond, c), c, "database.User", "Admin")
				return ok && pol
			}},
				fact{s + ":host", "with a host in its Unix address", s, empty("Host", true)},
				fact{s + ":path", "with a Unix address without a path", s, empty("Path", false)})
		}
		for _, f := range facts {
			f := f
			p.guardRule(r, "checked", key+":"+f.key, ci, func(sink *Ctx) *Cut {
				if p.unchangedCopy2(rec, sink, "Addr", "Name") {
					return nil
				}
				cut := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool { return f.atom != nil && f.atom(cond, pol, c, sink) }}
				if f.scheme == "" {
					return cut
				}
				return cut.assuming(func(cond ssa.Value, pol bool, c *Ctx) bool {
					a, b, op, ok := cmpFact(cond, pol)
					if !ok || op != token.EQL && op != token.NEQ {
						return false
					}
					k, isk := constString(b)
					if !isk {
						a, b = b, a
						k, isk = constString(b)
					}
					return isk && p.isURLField(a, c, "Scheme") && (op == token.EQL) != (k == f.scheme)
				})
			}, GuardOpts{MaxDepth: 3}, "a network "+f.what+" is stored")
		}
		// unique names
		p.guardRule(r, "checked", key+":unique", ci, func(sink *Ctx) *Cut {
			if p.unchangedCopy2(rec, sink, "Addr", "Name") {
				return nil
			}
			differ := func(cond ssa.Value, pol bool, c *Ctx) bool {
				return eqFact(cond, pol, token.NEQ, func(a, b ssa.Value) bool {
					return getName(a, c, sink) && p.isGetName(b, c) || getName(b, c, sink) && p.isGetName(a, c)
				}) || p.negCall(cond, pol, "strings.EqualFold", func(args []ssa.Value) bool {
					return getName(args[0], c, sink) && p.isGetName(args[1], c) || getName(args[1], c, sink) && p.isGetName(args[0], c)
				}) || eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
					_, _, ok1 := p.loadOf(mustResC(p, a, c), c, netRec, "ID")
					_, _, ok2 := p.loadOf(mustResC(p, b, c), c, netRec, "ID")
					return ok1 && ok2
				})
			}
			e := p.effects(func(ssa.Instruction, *Ctx) bool { return false }, differ)
			return &Cut{
				Instr: func(i ssa.Instruction, c *Ctx) bool {
					iff, ok := i.(*ssa.If)
					if !ok || !p.rangesOver(iff.Block(), "soju.user", "networks") {
						return false
					}
					// memo by header is not safe across contexts
					e.loops = map[*ssa.BasicBlock]int{}
					return e.loop(iff.Block(), c)
				},
				Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
					if eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
						call, ok := mustResC(p, a, c).(*ssa.Call)
						if !ok || !isNilConst(b) || p.calleeName(call) != "soju.user.getNetwork" {
							return false
						}
						return getName(callArgs(call)[1], c, sink)
					}) {
						return true
					}
					return eqFact(cond, pol, token.EQL, func(a, b ssa.Value) bool {
						ba, _, ok1 := p.loadOf(mustResC(p, a, c), c, netRec, "ID")
						_, _, ok2 := p.loadOf(mustResC(p, b, c), c, netRec, "ID")
						return ok1 && ok2 && ba != nil && !p.inCycle(cond)
					})
				},
			}
		}, GuardOpts{MaxDepth: 3}, "a network with the name of another one is stored")

		// limit
		isRecEnabled := func(v ssa.Value, c, sink *Ctx) bool {
			w, wc := p.res(v, c)
			b, bc, ok := p.loadOf(w, wc, netRec, "Enabled")
			return ok && p.sameRecord(b, bc, rec, sink)
		}
		p.guardRule(r, "limit", key, ci, func(sink *Ctx) *Cut {
			if p.unchangedCopy2(rec, sink, "Enabled") {
				return nil
			}
			counted := p.nilErrOf(nil, "soju.user.canEnableNewNetwork")
			return anyOf(counted, &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
				w, wc := p.res(cond, c)
				if !pol && isRecEnabled(cond, c, sink) && !p.beforeChange(w) {
					return true
				}
				if pol && p.wasEnabled(w, wc) {
					return true
				}
				_, _, ok := p.loadOf(w, wc, "soju.networkFlagSet", "IgnoreLimit")
				return ok && pol
			}})
		}, GuardOpts{MaxDepth: 3}, "an enabled network is stored without regard to the limit")

		// and nothing changes between the checks and the store
		late := map[string]string{}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || p.typeName(fa.X.Type()) != netRec {
					continue
				}
				f := fieldVar(fa.X.Type(), fa.Field).Name()
				var cut *Cut
				switch f {
				case "Addr", "Name":
					want := map[string]string{"Addr": "query", "Name": "name"}[f]
					for _, ft := range facts {
						if ft := ft; ft.key == want {
							cut = &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool { return ft.atom(cond, pol, c, nil) }}
						}
					}
				case "Enabled":
					if k, ok := st.Val.(*ssa.Const); ok && constIsFalse(k) {
						continue
					}
					cut = anyOf(p.nilErrOf(nil, "soju.user.canEnableNewNetwork"), &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
						w, wc := p.res(cond, c)
						if par, ok := w.(*ssa.Parameter); ok && par.Parent() == fn {
							return !pol
						}
						return !pol && isRecEnabled(cond, c, nil) || pol && p.wasEnabled(w, wc)
					}})
				default:
					continue
				}
				if p.searchAfter(i, ci.Block(), indexOf(ci), cut) {
					late[f] = p.at(i)
				} else if late[f] == "" {
					late[f] = ""
				}
			}
		}
		for _, f := range []string{"Addr", "Name", "Enabled"} {
			if at, ok := late[f]; ok {
				r.Check(at == "", "checked", key+":unchanged "+f, "%s: %s of a network is changed after it was checked and before it is stored", at, f)
			}
		}
	})

	// override
	admin := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
		w, wc := p.res(cond, c)
		if _, _, ok := p.loadOf(w, wc, "soju.networkFlagSet", "IgnoreLimit"); ok {
			return !pol
		}
		_, _, ok := p.loadOf(w, wc, "soju.serviceContext", "admin")
		return ok && pol
	}}
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if name != "soju.user.createNetwork" && name != "soju.user.updateNetwork" {
			return
		}
		uses := false
		for _, a := range callArgs(ci) {
			for _, lf := range p.origins(a, nil, sliceOpts{Data: true}) {
				if _, _, ok := p.loadOf(lf.V, lf.Ctx, "soju.networkFlagSet", "IgnoreLimit"); ok {
					uses = true
				}
			}
		}
		if !uses {
			// conditions
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					if fa, ok := i.(*ssa.FieldAddr); ok && p.isField(fa.X.Type(), fa.Field, "soju.networkFlagSet", "IgnoreLimit") {
						uses = true
					}
				}
			}
		}
		if uses {
			_, open := p.reachInstr(ci, nil, admin)
			r.Check(!open, "override", p.fnID(fn), "%s: a user who is no administrator can exceed the limit", p.at(ci))
		}
	})
	p.checkCount(r)
}

func (p *Program) isGetName(v ssa.Value, c *Ctx) bool {
	call, ok := mustResC(p, v, c).(*ssa.Call)
	return ok && strings.HasSuffix(p.calleeName(call), "Network.GetName")
}

// inCycle: cond is evaluated in a loop.
func (p *Program) inCycle(v ssa.Value) bool {
	ins, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	return reachesBlock(ins.Block(), ins.Block())
}

func reachesBlock(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, from.Succs...)
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		if b == to {
			return true
		}
		if seen[b] {
			continue
		}
		seen[b] = true
		work = append(work, b.Succs...)
	}
	return false
}

// rangesOver: the block is the header of a loop over the elements of the field.
func (p *Program) rangesOver(h *ssa.BasicBlock, typ, field string) bool {
	body := p.loopBody(h)
	for b := range body {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.IndexAddr:
				if _, _, ok := p.loadOf(mustRes(p, x.X), nil, typ, field); ok {
					return true
				}
			case *ssa.Next:
				if rg, ok := x.Iter.(*ssa.Range); ok {
					if _, _, ok := p.loadOf(mustRes(p, rg.X), nil, typ, field); ok {
						return true
					}
				}
			}
		}
	}
	return false
}

// unchangedCopy: v is a copy of the record of a network in use, of which the
// fields are not changed.
func (p *Program) unchangedCopy(v ssa.Value, fields ...string) bool {
	al, ok := mustRes(p, v).(*ssa.Alloc)
	if !ok {
		return false
	}
	whole := 0
	for _, ref := range *al.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr != ssa.Value(al) {
				return false
			}
			if !p.networkCopy(x.Val, 0) {
				return false
			}
			whole++
		case *ssa.UnOp, *ssa.FieldAddr, *ssa.DebugRef:
		case *ssa.MakeClosure:
			return false
		case ssa.CallInstruction:
			n := p.calleeName(x)
			if !strings.HasSuffix(n, ".StoreNetwork") && n != "soju.user.updateNetwork" && !p.readsOnly(x, al, fields) {
				return false
			}
		default:
			return false
		}
	}
	if whole == 0 {
		return false
	}
	for _, f := range p.changedFields(al) {
		for _, g := range fields {
			if f == g {
				return false
			}
		}
	}
	return true
}

// readsOnly: the callee does not change the fields of the record.
func (p *Program) readsOnly(ci ssa.CallInstruction, al ssa.Value, fields []string) bool {
	gs := p.callees[ci]
	if len(gs) == 0 {
		return false
	}
	for _, g := range gs {
		for i, a := range callArgs(ci) {
			if a != al || i >= len(g.Params) {
				continue
			}
			for _, ref := range *g.Params[i].Referrers() {
				switch x := ref.(type) {
				case *ssa.FieldAddr:
					if storedThrough(x, 0) {
						for _, f := range fields {
							if fieldVar(x.X.Type(), x.Field).Name() == f {
								return false
							}
						}
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					if c, ok := ref.(ssa.CallInstruction); ok && (strings.HasSuffix(p.calleeName(c), ".StoreNetwork") || strings.HasPrefix(p.calleeName(c), "database.") && !strings.Contains(p.calleeName(c), ".Database.")) {
						continue
					}
					return false
				}
			}
		}
	}
	return true
}

// networkCopy: v is the record of a network in use.
func (p *Program) networkCopy(v ssa.Value, d int) bool {
	v = mustRes(p, v)
	if d > 8 {
		return false
	}
	if _, _, ok := p.loadOf(v, nil, "soju.network", "Network"); ok {
		return true
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !p.networkCopy(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			return p.networkCopies(ia.X, d+1, map[ssa.Value]bool{})
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			n := 0
			for _, ref := range *al.Referrers() {
				switch st := ref.(type) {
				case *ssa.Store:
					if st.Addr != ssa.Value(al) || !p.networkCopy(st.Val, d+1) {
						return false
					}
					n++
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return false
				}
			}
			return n > 0
		}
	}
	return false
}

// networkCopies: a list of such records.
func (p *Program) networkCopies(v ssa.Value, d int, seen map[ssa.Value]bool) bool {
	v = mustRes(p, v)
	if seen[v] {
		return true
	}
	seen[v] = true
	if d > 12 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !p.networkCopies(e, d+1, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "append" || !p.networkCopies(x.Call.Args[0], d+1, seen) {
			return false
		}
		els, ok := p.elems(x.Call.Args[1], nil)
		if !ok {
			return false
		}
		for _, el := range els {
			if !p.networkCopy(el.v, d+1) {
				return false
			}
		}
		return true
	case *ssa.MakeSlice:
		return true
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok && al.Comment == "makeslice" {
			return true
		}
	}
	return false
}

// unchangedCopy2: at the top of the chain, the record is a copy of one in use
// whose fields do not change.
func (p *Program) unchangedCopy2(rec ssa.Value, sink *Ctx, fields ...string) bool {
	w, _ := p.res(rec, sink)
	return p.unchangedCopy(w, fields...)
}

// wasEnabled: v tells whether the network in use is (was) enabled.
func (p *Program) wasEnabled(v ssa.Value, c *Ctx) bool {
	b, bc, ok := p.loadOf(v, c, netRec, "Enabled")
	if !ok {
		return false
	}
	w, _ := p.res(b, bc)
	if fa, ok := w.(*ssa.FieldAddr); ok && p.isField(fa.X.Type(), fa.Field, "soju.network", "Network") {
		return true
	}
	return p.beforeChange(v)
}

// beforeChange: v is read from a copy of a record in use before the copy is
// changed.
func (p *Program) beforeChange(v ssa.Value) bool {
	b, _, ok := p.loadOf(v, nil, netRec, "Enabled")
	if !ok {
		return false
	}
	al, ok := mustRes(p, b).(*ssa.Alloc)
	if !ok {
		return false
	}
	ins, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	whole := 0
	for _, ref := range *al.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr == ssa.Value(al) && p.networkCopy(x.Val, 0) {
				whole++
				continue
			}
			return false
		case *ssa.FieldAddr:
			if storedThrough(x, 0) && fieldVar(x.X.Type(), x.Field).Name() == "Enabled" && executesBefore(x, ins) {
				return false
			}
		case ssa.CallInstruction:
			if executesBefore(x, ins) {
				return false
			}
		case *ssa.MakeClosure:
			return false
		}
	}
	return whole > 0
}

// executesBefore: a can run before b.
func executesBefore(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() && indexOf(a) < indexOf(b) {
		return true
	}
	return reachesBlock(a.Block(), b.Block())
}

// checkCount: what the limit compares.
func (p *Program) checkCount(r *Report) {
	var fns []*ssa.Function
	for _, fn := range p.Funcs {
		if p.fnID(fn) == "soju.user.canEnableNewNetwork" {
			fns = append(fns, fn)
		}
	}
	if len(fns) == 0 {
		r.Bad("count", "none", "the limit on networks is not checked")
	}
	for _, fn := range fns {
		isMax := func(v ssa.Value, c *Ctx) bool {
			var from []string
			for _, lf := range p.leaves(located{v, c, nil}, nil) {
				switch {
				case p.is(p.loadOf(lf.v, lf.ctx, "database.User", "MaxNetworks")):
					from = append(from, "user")
				case p.is(p.loadOf(lf.v, lf.ctx, "soju.Config", "MaxUserNetworks")):
					from = append(from, "config")
				default:
					return false
				}
			}
			return len(from) > 0
		}
		counts := func(v ssa.Value) *ssa.Phi {
			w := mustRes(p, v)
			if call, ok := w.(*ssa.Call); ok {
				for _, g := range p.callees[call] {
					for _, ri := range returnsOf(g) {
						if ret, ok := ri.(*ssa.Return); ok && len(ret.Results) == 1 {
							w = mustRes(p, ret.Results[0])
						}
					}
				}
			}
			ph, ok := w.(*ssa.Phi)
			if !ok {
				return nil
			}
			return ph
		}
		within := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
			a, b, op, ok := cmpFact(cond, pol)
			if !ok {
				return false
			}
			// max < 0
			if k, isk := constInt(b); isk {
				return isMax(a, c) && (op == token.LSS && k == 0 || op == token.LEQ && k == -1 || op == token.EQL && k == -1)
			}
			if isMax(a, c) {
				a, b, op = b, a, flip(op)
			}
			return isMax(b, c) && op == token.LSS && counts(a) != nil
		}}
		bad := p.nilReturns(fn, within)
		at := ""
		if len(bad) > 0 {
			at = p.at(bad[0])
		}
		r.Check(len(bad) == 0, "count", p.fnID(fn)+":within", "%s: enabling a network is allowed without comparing the number of networks with the limit", at)
		// the user's own limit comes first
		okOwn := true
		nLoad := 0
		p.within(fn, func(g *ssa.Function, i ssa.Instruction) {
			v, ok := i.(ssa.Value)
			if !ok || !p.is(p.loadOf(v, nil, "soju.Config", "MaxUserNetworks")) {
				return
			}
			nLoad++
			_, open := p.reachInstr(i, nil, &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
				a, b, op, ok := cmpFact(cond, pol)
				if !ok || !p.is(p.loadOf(mustResC(p, a, c), c, "database.User", "MaxNetworks")) {
					return false
				}
				k, isk := constInt(b)
				return isk && (op == token.LSS && k == 0 || op == token.EQL && k == -1 || op == token.LEQ && k == -1)
			}})
			if open {
				okOwn = false
			}
		})
		r.Check(okOwn && nLoad > 0, "count", p.fnID(fn)+":own", "%s: the configured limit does not just apply to users without their own", p.pos(fn.Pos()))
		// every enabled network counts
		n := 0
		var blocks []*ssa.BasicBlock
		last := (*ssa.BasicBlock)(nil)
		p.within(fn, func(g *ssa.Function, i ssa.Instruction) {
			if i.Block() != last {
				last = i.Block()
				blocks = append(blocks, last)
			}
		})
		for _, b := range blocks {
			for _, i := range b.Instrs {
				ph, ok := i.(*ssa.Phi)
				if !ok || !p.rangesOver(b, "soju.user", "networks") {
					continue
				}
				isCounter := false
				var inc []ssa.Instruction
				start := false
				for _, e := range ph.Edges {
					if k, isk := constInt(e); isk && k == 0 {
						start = true
					}
				}
				if !start {
					continue
				}
				var walk func(v ssa.Value, d int)
				walk = func(v ssa.Value, d int) {
					if d > 6 {
						return
					}
					switch x := v.(type) {
					case *ssa.BinOp:
						if k, isk := constInt(x.Y); isk && k == 1 && x.Op == token.ADD {
							inc = append(inc, x)
							isCounter = true
						}
					case *ssa.Phi:
						if x != ph {
							for _, e := range x.Edges {
								walk(e, d+1)
							}
						}
					}
				}
				for _, e := range ph.Edges {
					walk(e, 0)
				}
				if !isCounter || p.isIndex(ph) {
					continue
				}
				n++
				body := p.loopBody(b)
				for _, s := range b.Succs {
					if !body[s] {
						continue
					}
					_, open := p.search(s, 0, b, 0, nil, &Cut{Instr: func(x ssa.Instruction, c *Ctx) bool {
						for _, y := range inc {
							if x == y {
								return true
							}
						}
						return false
					}, Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
						return !pol && p.is(p.loadOf(mustResC(p, cond, c), c, netRec, "Enabled"))
					}}, 0)
					r.Check(!open, "count", fmt.Sprintf("%s:all", p.fnID(fn)), "%s: an enabled network is not counted", p.pos(fn.Pos()))
				}
				for x := range body {
					for _, s := range x.Succs {
						if x != b && !body[s] && !errorOnly(s) {
							r.Bad("count", fmt.Sprintf("%s:stop", p.fnID(fn)), "%s: not every network is counted", p.pos(fn.Pos()))
						}
					}
				}
			}
		}
		if n == 0 {
			r.Bad("count", p.fnID(fn)+":counter", "%s: the enabled networks are not counted", p.pos(fn.Pos()))
		}
	}
}

func (p *Program) is(_ ssa.Value, _ *Ctx, ok bool) bool { return ok }

// isIndex: the phi is the index of a range loop.
func (p *Program) isIndex(ph *ssa.Phi) bool {
	for _, ref := range *ph.Referrers() {
		if b, ok := ref.(*ssa.BinOp); ok && b.Op == token.ADD {
			for _, rr := range *b.Referrers() {
				if _, ok := rr.(*ssa.IndexAddr); ok {
					return true
				}
			}
		}
		if _, ok := ref.(*ssa.IndexAddr); ok {
			return true
		}
	}
	return false
}

func constIsFalse(k *ssa.Const) bool {
	return k.Value != nil && k.Value.Kind() == constant.Bool && !constant.BoolVal(k.Value)
}
