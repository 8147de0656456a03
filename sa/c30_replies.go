package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{ID: "C30", Explanation: "Every store of a read marker, every history request and every reply to one is found in the program; the comparison of times that must precede it, the window it asks for (per subcommand) and the record it reports are searched for on all paths.",
		Assumptions: []string{"time.Time.Before, After and Compare compare instants", "the message store given the window returns what is inside (decided for the stores of this repository by the rules on them)"},
		Run:         runC30})
}

// timeFact: cond with truth value pol says that time a is op time b.
func (p *Program) timeFact(cond ssa.Value, pol bool) (a, b ssa.Value, op token.Token, ok bool) {
	if call, is := cond.(*ssa.Call); is {
		args := callArgs(call)
		switch p.calleeName(call) {
		case "time.Time.Before":
			if pol {
				return args[0], args[1], token.LSS, true
			}
			return args[0], args[1], token.GEQ, true
		case "time.Time.After":
			if pol {
				return args[0], args[1], token.GTR, true
			}
			return args[0], args[1], token.LEQ, true
		}
		return nil, nil, 0, false
	}
	x, y, op, is := cmpFact(cond, pol)
	if !is {
		return nil, nil, 0, false
	}
	for i := 0; i < 2; i++ {
		if call, isc := x.(*ssa.Call); isc {
			k, isk := constInt(y)
			args := callArgs(call)
			switch p.calleeName(call) {
			case "time.Time.Compare":
				if isk && k == 0 {
					return args[0], args[1], op, true
				}
				if isk && k == -1 && op == token.EQL {
					return args[0], args[1], token.LSS, true
				}
				if isk && k == 1 && op == token.EQL {
					return args[0], args[1], token.GTR, true
				}
			case "time.Time.Sub":
				if isk && k == 0 {
					return args[0], args[1], op, true
				}
			case "time.Time.UnixNano":
				if c2, ok := y.(*ssa.Call); ok && p.calleeName(c2) == p.calleeName(call) {
					return args[0], callArgs(c2)[0], op, true
				}
			}
		}
		x, y, op = y, x, flip(op)
	}
	return nil, nil, 0, false
}

// timeCut: a fact "a op b" for one of ops, in either order.
func (p *Program) timeCut(ok func(a, b located) bool, ops ...token.Token) *Cut {
	return &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
		a, b, op, is := p.timeFact(cond, pol)
		if !is {
			return false
		}
		for i := 0; i < 2; i++ {
			for _, w := range ops {
				if op == w && ok(located{a, c, nil}, located{b, c, nil}) {
					return true
				}
			}
			a, b, op = b, a, flip(op)
		}
		return false
	}}
}

const readReceipt = "database.ReadReceipt"

func zeroTime(p *Program, v ssa.Value) bool {
	if p.typeName(v.Type()) != "time.Time" {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			return len(p.allCellStores(al)) == 0
		}
	}
	return false
}

func (p *Program) isNow(v ssa.Value, c *Ctx) bool {
	n := 0
	for _, o := range p.origins(v, c, sliceOpts{Through: func(n string, ci ssa.CallInstruction) []ssa.Value {
		switch n {
		case "time.Time.UTC", "time.Time.Local", "time.Time.In", "time.Time.Truncate", "time.Time.Round":
			return callArgs(ci)[:1]
		}
		return nil
	}}) {
		call, ok := o.V.(*ssa.Call)
		if !ok || p.calleeName(call) != "time.Now" {
			return false
		}
		n++
	}
	return n > 0
}

func runC30(p *Program, r *Report) {
	r.Rule("forward", "a read marker is only replaced by a later one", 1)
	r.Rule("not-future", "a read marker is never in the future", 1)
	r.Rule("marker-key", "a read marker is read and stored under one network and one folded target", 1)
	r.Rule("told", "every client of the network is told of a marker that was stored", 1)
	r.Rule("told-stored", "clients are told the marker that is stored", 1)
	r.Rule("limit", "the number of messages asked of a store is bounded", 2)
	r.Rule("failure", "a request that fails is answered with an error", 2)
	r.Rule("hidden", "detached channels are not listed among the targets", 1)
	r.Rule("window", "each request asks the store for its window", 5)
	r.Rule("store-window", "each store returns messages of the window only", 4)

	same := func(a ssa.Value, ac *Ctx, b ssa.Value, bc *Ctx) bool { return p.sameExpr(a, ac, b, bc, 0) }
	isStamp := func(v ssa.Value, c *Ctx) bool {
		w, wc := p.res(v, c)
		_, _, ok := p.loadOf(w, wc, readReceipt, "Timestamp")
		return ok
	}

	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		st, ok := ins.(*ssa.Store)
		if !ok || !p.inSoju(fn) {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || !p.isField(fa.X.Type(), fa.Field, readReceipt, "Timestamp") {
			return
		}
		key := p.fnID(fn)
		bad := p.Unguarded(st, func(sink *Ctx) *Cut {
			return anyOf(p.timeCut(func(a, b located) bool {
				return isStamp(a.v, a.ctx) && same(b.v, b.ctx, st.Val, sink)
			}, token.LSS), &Cut{Nil: func(v ssa.Value, isNil bool, c *Ctx) bool {
				// there was none
				return isNil && p.receiptOf(v) != nil
			}, Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
				call, ok := cond.(*ssa.Call)
				return ok && pol && p.calleeName(call) == "time.Time.IsZero" && isStamp(callArgs(call)[0], c)
			}})
		}, GuardOpts{MaxDepth: 3})
		msg := ""
		if len(bad) > 0 {
			msg = p.chainString(bad[0])
		}
		r.Check(len(bad) == 0, "forward", key, "%s: a read marker can be moved back: %s", p.at(st), msg)
		for _, l := range p.lift(st.Val, st) {
			for _, lf := range p.leaves(l, func(v ssa.Value, c *Ctx) bool { return p.isNow(v, c) }) {
				lf := lf
				if p.isNow(lf.v, lf.ctx) || zeroTime(p, lf.v) {
					continue
				}
				cut := p.timeCut(func(a, b located) bool {
					w, _ := p.res(a.v, a.ctx)
					return (w == lf.v || same(a.v, a.ctx, lf.v, lf.ctx)) && p.isNow(b.v, b.ctx)
				}, token.LEQ, token.LSS)
				r.Check(!p.leafOpen(&lf, l.site, cut), "not-future", key, "%s: a read marker can be set to a time in the future %s", p.at(l.site), p.valAt(lf.v))
			}
		}
	})

	// the key
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if name != "database.Database.StoreReadReceipt" || !p.inSoju(fn) {
			return
		}
		call, ok := ci.(*ssa.Call)
		if !ok {
			return
		}
		args := callArgs(call)
		key := p.fnID(fn)
		p.markerKey(r, call, args, key)

		// told
		send := func(ins ssa.Instruction, c *Ctx) bool {
			cl, ok := ins.(*ssa.Call)
			if !ok || p.calleeName(cl) != "soju.downstreamConn.SendMessage" {
				return false
			}
			return p.isMarkRead(callArgs(cl)[2], c)
		}
		at := p.tells(call, func(start *ssa.Call) *effs {
			return p.effectsMay(send, func(ins ssa.Instruction, c *Ctx) bool {
				cl, ok := ins.(*ssa.Call)
				return ok && p.calleeName(cl) == "soju.downstreamConn.SendMessage"
			}, func(cond ssa.Value, pol bool, c *Ctx) bool { return p.impossibleAfter(cond, pol, c, start) })
		}, 0)
		r.Check(at == nil, "told", key, "%s: after a read marker was stored, the other clients are not told about it (%s)", p.at(call), p.at(at))
	})

	// what clients are told
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if name != "soju.downstreamConn.SendMessage" || !p.inSoju(fn) {
			return
		}
		m := callArgs(ci)[2]
		if !p.isMarkRead(m, nil) {
			return
		}
		al := mustRes(p, m)
		el, ok := p.elems(p.literalField(al, "Params"), nil)
		if !ok || len(el) != 2 {
			r.Bad("told-stored", p.fnID(fn), "%s: the read marker told to clients is not understood", p.at(ci))
			return
		}
		bad := ""
		for _, o := range p.origins(el[1].v, el[1].ctx, sliceOpts{Up: true, Data: true, Stop: isStamp, Through: func(n string, c ssa.CallInstruction) []ssa.Value {
			switch n {
			case "fmt.Sprintf", "time.Time.Format", "time.Time.UTC":
				return callArgs(c)
			}
			if f := c.Common().StaticCallee(); f != nil && strings.HasSuffix(p.fnID(f), "xirc.FormatServerTime") {
				return callArgs(c)
			}
			return nil
		}}) {
			if _, isk := o.V.(*ssa.Const); isk || isStamp(o.V, o.Ctx) {
				continue
			}
			if _, isg := o.V.(*ssa.Global); isg {
				continue
			}
			bad = p.valAt(o.V)
		}
		r.Check(bad == "", "told-stored", p.fnID(fn), "%s: clients are told a read marker that is not the stored one %s", p.at(ci), bad)
	})

	p.checkLimits(r)

	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		call, ok := ins.(*ssa.Call)
		if !ok || !p.inSoju(fn) || !hasErrResult(fn) {
			return
		}
		for _, m := range []string{"LoadBeforeTime", "LoadAfterTime", "ListTargets", "Search", "LoadLatestID"} {
			if p.isStoreCall(call, m) == nil {
				continue
			}
			at, ok := p.lostErrorCut(call, nil, nil)
			r.Check(ok, "failure", m+" in "+p.fnID(fn), "%s: when the store fails, the request is answered as if there was no message (%s)", p.at(call), p.at(at))
		}
	})

	// targets
	p.eachCall(func(fn *ssa.Function, ci ssa.CallInstruction, name string) {
		if name != "soju.downstreamConn.SendMessage" || !p.inSoju(fn) {
			return
		}
		al := mustRes(p, callArgs(ci)[2])
		el, ok := p.elems(p.literalField(al, "Params"), nil)
		if !ok || len(el) == 0 || !constIs(el[0].v, "TARGETS") {
			return
		}
		bad := p.Unguarded(ci, fixed(&Cut{Atom: p.attached}), GuardOpts{MaxDepth: 2})
		r.Check(len(bad) == 0, "hidden", p.fnID(fn), "%s: detached channels are listed among the targets", p.at(ci))
	})

	p.checkWindows(r)
	p.checkStoreWindows(r)
}

// receiptOf: v is the receipt a call of GetReadReceipt returned.
func (p *Program) receiptOf(v ssa.Value) *ssa.Call {
	ex, ok := v.(*ssa.Extract)
	if !ok || ex.Index != 0 {
		return nil
	}
	call, ok := ex.Tuple.(*ssa.Call)
	if !ok || !strings.HasSuffix(p.calleeName(call), ".GetReadReceipt") {
		return nil
	}
	return call
}

// isMarkRead: the message is a MARKREAD or READ with a marker.
func (p *Program) isMarkRead(m ssa.Value, c *Ctx) bool {
	al, ac := p.res(m, c)
	cmd := p.literalField(al, "Command")
	if cmd == nil {
		return false
	}
	hit := false
	for _, lf := range p.leaves(located{cmd, ac, nil}, nil) {
		s, ok := constString(lf.v)
		if !ok {
			return false
		}
		if s == "MARKREAD" || s == "READ" {
			hit = true
		} else {
			return false
		}
	}
	if !hit {
		return false
	}
	return p.literalField(al, "Params") != nil
}

func (p *Program) markerKey(r *Report, call *ssa.Call, args []ssa.Value, key string) {
	n, bad := 0, ""
	why := func(v ssa.Value, s string) {
		if bad == "" {
			bad = s + " " + p.valAt(v)
		}
	}
	for _, l := range p.lift(args[len(args)-1], call) {
		var got *ssa.Call
		var fresh []*ssa.Alloc
		for _, lf := range p.leaves(l, func(v ssa.Value, c *Ctx) bool { return p.receiptOf(v) != nil }) {
			if g := p.receiptOf(lf.v); g != nil {
				got = g
				n++
				ga := callArgs(g)
				if !p.isCasemapped(ga[len(ga)-1], lf.ctx) {
					why(g, "the target is not folded")
				}
				nid := args[len(args)-2]
				if l.site != call { // lifted
					continue
				}
				if !p.sameExpr(nid, nil, ga[len(ga)-2], lf.ctx, 0) {
					why(g, "it was read from another network")
				}
			} else if al, ok := lf.v.(*ssa.Alloc); ok {
				fresh = append(fresh, al)
			} else if !isNilConst(lf.v) {
				why(lf.v, "it is neither the stored one nor a new one")
			}
		}
		for _, al := range fresh {
			sts := p.literal(al)["Target"]
			if len(sts) == 0 {
				why(al, "it has no target")
				continue
			}
			t := sts[0].Val
			n++
			if got != nil {
				ga := callArgs(got)
				if !p.sameExpr(t, nil, ga[len(ga)-1], nil, 0) {
					why(t, "it was read under another target")
				}
			} else if !p.isCasemapped(t, nil) {
				why(t, "the target is not folded")
			}
		}
	}
	r.Check(n > 0 && bad == "", "marker-key", key, "%s: the read marker that is stored: %s", p.at(call), bad)
}

// impossibleAfter: cond cannot have truth value pol once start was executed,
// because start is always followed by setting the flag cond reads.
func (p *Program) impossibleAfter(cond ssa.Value, pol bool, c *Ctx, start *ssa.Call) bool {
	w, _ := p.res(cond, c)
	if u, ok := w.(*ssa.UnOp); ok && u.Op == token.NOT {
		return p.impossibleAfter(u.X, !pol, c, start)
	}
	u, ok := w.(*ssa.UnOp)
	if ph, isPhi := w.(*ssa.Phi); isPhi && ph.Parent() == start.Parent() {
		// the edges that can be taken after start all carry !pol
		n := 0
		for i, e := range ph.Edges {
			pr := ph.Block().Preds[i]
			k, isk := constBool(e)
			if isk && k != pol {
				n++
				continue
			}
			if p.searchAfter(start, pr, len(pr.Instrs), p.errNil(start)) {
				return false
			}
		}
		return n > 0
	}
	if !ok || u.Op != token.MUL {
		return false
	}
	al := p.cell(u.X)
	if al == nil || al.Parent() != start.Parent() {
		return false
	}
	set := func(want bool) *Cut {
		return &Cut{Instr: func(i ssa.Instruction, _ *Ctx) bool {
			st, ok := i.(*ssa.Store)
			if !ok || p.cell(st.Addr) != al {
				return false
			}
			k, isk := constBool(st.Val)
			return isk && k == want
		}}
	}
	// nothing sets it to pol (or to something unknown) afterwards
	for _, st := range p.allCellStores(al) {
		k, isk := constBool(st.Val)
		if isk && k != pol {
			continue
		}
		if st.Parent() != start.Parent() || p.searchAfter(start, st.Block(), indexOf(st), p.errNil(start)) {
			return false
		}
	}
	// and every way to where it can be read sets it
	cut := anyOf(set(!pol), p.errNil(start))
	for _, ref := range *al.Referrers() {
		var use ssa.Instruction
		switch x := ref.(type) {
		case *ssa.MakeClosure:
			for _, rr := range *x.Referrers() {
				if p.searchAfter(start, rr.Block(), indexOf(rr), cut) {
					return false
				}
			}
			continue
		case *ssa.UnOp:
			use = x
		default:
			continue
		}
		if use == ssa.Instruction(u) && p.searchAfter(start, use.Block(), indexOf(use), cut) {
			return false
		}
	}
	return true
}

// errNil cuts the paths on which the call failed.
func (p *Program) errNil(call *ssa.Call) *Cut {
	return &Cut{Nil: func(v ssa.Value, isNil bool, c *Ctx) bool { return !isNil && p.errOf(v) == call }}
}

// tells: a way to end after the call, successful, without the effect; the
// effect may be that of a caller.
func (p *Program) tells(call *ssa.Call, mk func(start *ssa.Call) *effs, d int) ssa.Instruction {
	fn := call.Parent()
	e := mk(call)
	cut := anyOf(e.cut(), p.errNil(call))
	cut.Enter = e.cut().Enter
	var at ssa.Instruction
	for _, ret := range returnsOf(fn) {
		if rt, ok := ret.(*ssa.Return); ok && p.retErrNonNil(rt) {
			continue
		}
		if p.searchAfter(call, ret.Block(), indexOf(ret), cut) {
			at = ret
		}
	}
	if at == nil || d > 2 {
		return at
	}
	if fn.Parent() != nil || p.isHandler(fn, "downstreamConn") != nil && d > 0 {
		return at
	}
	callers := p.callers[fn]
	if len(callers) == 0 {
		return at
	}
	for _, ci := range callers {
		cl, ok := ci.(*ssa.Call)
		if !ok || !p.inSoju(cl.Parent()) {
			return at
		}
		if p.isHandler(fn, "downstreamConn") != nil {
			return at
		}
		if x := p.tells(cl, mk, d+1); x != nil {
			return x
		}
	}
	return nil
}

var limitTypes = []string{"msgstore.LoadMessageOptions", "msgstore.SearchMessageOptions"}

func (p *Program) checkLimits(r *Report) {
	bounded := func(v ssa.Value, c *Ctx, low bool) bool {
		if k, ok := p.fixedInt(v); ok {
			return !low || k >= 0
		}
		if call, ok := v.(*ssa.Call); ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && (b.Name() == "min" && !low || b.Name() == "max" && low) {
				for _, a := range call.Call.Args {
					if k, ok := p.fixedInt(a); ok && k >= 0 {
						return true
					}
				}
			}
		}
		return false
	}
	check := func(v ssa.Value, site ssa.Instruction, uses []ssa.Instruction, isField func(v ssa.Value) bool, stores func(i ssa.Instruction) bool, key string) {
		for _, low := range []bool{false, true} {
			low := low
			for _, l := range p.lift(v, site) {
				for _, lf := range p.leaves(l, nil) {
					lf := lf
					if bounded(lf.v, lf.ctx, low) {
						continue
					}
					// part of a bounded request
					if _, _, ok := p.loadOf(lf.v, lf.ctx, limitTypes[0], "Limit"); ok && !isField(lf.v) {
						continue
					}
					cut := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
						a, b, op, ok := cmpFact(cond, pol)
						if !ok {
							return false
						}
						for i := 0; i < 2; i++ {
							k, isk := p.fixedInt(b)
							w, _ := p.res(a, c)
							if isk && (w == lf.v || isField(w) || w == v) {
								if !low && (op == token.LEQ || op == token.LSS || op == token.EQL) {
									return true
								}
								if low && (op == token.GEQ && k >= 0 || op == token.GTR && k >= -1 || op == token.EQL && k >= 0) {
									return true
								}
							}
							a, b, op = b, a, flip(op)
						}
						return false
					}, Instr: func(i ssa.Instruction, c *Ctx) bool { return stores(i) && i != site }}
					open := p.leafOpen(&lf, l.site, cut)
					if open && l.site == site && len(uses) > 0 {
						after := false
						for _, u := range uses {
							if u.Parent() == site.Parent() && p.searchAfter(site, u.Block(), indexOf(u), cut) {
								after = true
							}
						}
						open = after
					}
					r.Check(!open, "limit", key, "%s: the number of messages requested is not bounded %s", p.at(l.site), p.valAt(lf.v))
				}
			}
		}
	}
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		if !p.inSoju(fn) {
			return
		}
		if call := p.isStoreCall(ins, "ListTargets"); call != nil {
			a := callArgs(call)
			check(a[5], call, nil, func(ssa.Value) bool { return false }, func(ssa.Instruction) bool { return false }, "ListTargets in "+p.fnID(fn))
			return
		}
		st, ok := ins.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		typ := ""
		for _, t := range limitTypes {
			if p.isField(fa.X.Type(), fa.Field, t, "Limit") {
				typ = t
			}
		}
		if typ == "" {
			return
		}
		var uses []ssa.Instruction
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, m := range []string{"Search", "LoadBeforeTime", "LoadAfterTime", "LoadLatestID"} {
					if c := p.isStoreCall(i, m); c != nil {
						uses = append(uses, i)
					}
				}
			}
		}
		base := fa.X
		check(st.Val, st, uses, func(v ssa.Value) bool {
			b, _, ok := p.loadOf(v, nil, typ, "Limit")
			return ok && b == base
		}, func(i ssa.Instruction) bool {
			s2, ok := i.(*ssa.Store)
			if !ok {
				return false
			}
			f2, ok := s2.Addr.(*ssa.FieldAddr)
			if !ok || f2.X != base || f2.Field != fa.Field {
				return false
			}
			_, isk := p.fixedInt(s2.Val)
			return isk
		}, strings.TrimPrefix(typ, "msgstore.")+" in "+p.fnID(fn))
	})
}

// fixedInt: a constant, or a package variable that is only set when the
// program starts.
func (p *Program) fixedInt(v ssa.Value) (int64, bool) {
	if k, ok := constInt(v); ok {
		return k, true
	}
	if cv, ok := v.(*ssa.Convert); ok {
		return p.fixedInt(cv.X)
	}
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return 0, false
	}
	g, ok := u.X.(*ssa.Global)
	if !ok {
		return 0, false
	}
	if p.fixedInts == nil {
		p.fixedInts = map[*ssa.Global][]int64{}
		see := func(fn *ssa.Function, ins ssa.Instruction) {
			st, ok := ins.(*ssa.Store)
			if !ok {
				return
			}
			g, ok := st.Addr.(*ssa.Global)
			if !ok {
				return
			}
			k, isk := constInt(st.Val)
			if !isk || !strings.HasPrefix(fn.Name(), "init") {
				p.fixedInts[g] = append(p.fixedInts[g], -1, -1)
				return
			}
			p.fixedInts[g] = append(p.fixedInts[g], k)
		}
		p.eachInstr(see)
	}
	ks := p.fixedInts[g]
	if len(ks) == 0 {
		return 0, false
	}
	for _, k := range ks {
		if k != ks[0] || k < 0 {
			return 0, false
		}
	}
	return ks[0], true
}
