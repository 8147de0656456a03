package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// oneOf: the string compared with words of the list is val.
func oneOf(words []string, val string) func(cond ssa.Value, pol bool, c *Ctx) bool {
	return func(cond ssa.Value, pol bool, c *Ctx) bool {
		a, b, op, ok := cmpFact(cond, pol)
		if !ok || op != token.EQL && op != token.NEQ {
			return false
		}
		s, isk := constString(b)
		if !isk {
			if s, isk = constString(a); !isk {
				return false
			}
		}
		for _, w := range words {
			if s == w {
				return (s == val) != (op == token.EQL)
			}
		}
		return false
	}
}

type windows struct {
	p      *Program
	assume func(cond ssa.Value, pol bool, c *Ctx) bool
	memo   map[*ssa.Function]map[*ssa.BasicBlock]bool
}

func (w *windows) reach(ins ssa.Instruction) bool {
	fn := ins.Parent()
	m, ok := w.memo[fn]
	if !ok {
		m = w.p.reachableBlocks(fn, nil, (&Cut{}).assuming(w.assume))
		w.memo[fn] = m
	}
	return m[ins.Block()]
}

// addr: what a pointer points to: a variable or a constant element of one.
type addr struct {
	al *ssa.Alloc
	i  int64
}

func (p *Program) addrOf(v ssa.Value, c *Ctx) (addr, bool) {
	v, c = p.res(v, c)
	switch x := v.(type) {
	case *ssa.Alloc:
		return addr{x, -1}, true
	case *ssa.IndexAddr:
		b, _ := p.res(x.X, c)
		al, ok := b.(*ssa.Alloc)
		k, isk := constInt(x.Index)
		if ok && isk {
			return addr{al, k}, true
		}
	}
	return addr{}, false
}

// bounds: what a time given to the store may be: now, zero, a parameter of the
// request (p1, p2, ...), or something else (?).
func (w *windows) bounds(v ssa.Value, c *Ctx, site ssa.Instruction, out map[string]bool, d int) {
	p := w.p
	if d > 6 {
		out["?"] = true
		return
	}
	for _, l := range p.lift(v, site) {
		lc := l.ctx
		if l.site == site {
			lc = c
		} else if !w.reach(l.site) {
			continue
		}
		for _, lf := range p.leaves(located{l.v, lc, l.site}, func(v ssa.Value, c *Ctx) bool { return p.isNow(v, c) || zeroTime(p, v) || w.param(v, c) != "" }) {
			lf := lf
			if lf.from != nil && lf.ret == nil && !w.reach(lf.from.Instrs[0]) {
				continue
			}
			if p.isNow(lf.v, lf.ctx) {
				out["now"] = true
				continue
			}
			if zeroTime(p, lf.v) {
				out["zero"] = true
				continue
			}
			if s := w.param(lf.v, lf.ctx); s != "" {
				out[s] = true
				continue
			}
			if u, ok := lf.v.(*ssa.UnOp); ok && u.Op == token.MUL {
				if a, ok := p.addrOf(u.X, lf.ctx); ok && a.i >= 0 {
					w.element(a, lf.ctx, out, d+1)
					continue
				}
			}
			out["?"] = true
		}
	}
}

// element: what an element of an array may be.
func (w *windows) element(a addr, c *Ctx, out map[string]bool, d int) {
	p := w.p
	n := 0
	for _, ref := range *a.al.Referrers() {
		switch x := ref.(type) {
		case *ssa.IndexAddr:
			if k, ok := constInt(x.Index); ok && k != a.i {
				continue
			}
			for _, rr := range *x.Referrers() {
				if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
					n++
					if w.reach(st) {
						w.bounds(st.Val, c, st, out, d+1)
					}
				}
			}
		case *ssa.Store:
			if x.Addr != ssa.Value(a.al) {
				continue
			}
			n++
			if _, isk := x.Val.(*ssa.Const); isk {
				continue // the initial value
			}
			for _, l := range p.lift(x.Val, x) {
				u, ok := l.v.(*ssa.UnOp)
				if !ok {
					out["?"] = true
					continue
				}
				if al, ok := u.X.(*ssa.Alloc); ok {
					w.element(addr{al, a.i}, nil, out, d+1)
				} else {
					out["?"] = true
				}
			}
		}
	}
	if n == 0 {
		out["zero"] = true
	}
}

// param: the time parsed from a parameter of the request: "p" and its index.
func (w *windows) param(v ssa.Value, c *Ctx) string {
	p := w.p
	v, c = p.res(v, c)
	if ex, ok := v.(*ssa.Extract); ok {
		v = ex.Tuple
	}
	call, ok := v.(*ssa.Call)
	if !ok {
		return ""
	}
	for _, a := range callArgs(call) {
		if a.Type().String() != "string" {
			continue
		}
		s, sc := p.res(a, c)
		if _, isk := s.(*ssa.Const); isk {
			continue
		}
		u, ok := s.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			continue
		}
		if ia, ok := u.X.(*ssa.IndexAddr); ok {
			if _, _, is := p.loadOf(ia.X, sc, ircMessage, "Params"); is {
				if k, isk := constInt(ia.Index); isk {
					return "p" + itoa(int(k))
				}
			}
		}
		at, ok := p.addrOf(u.X, sc)
		if !ok {
			continue
		}
		res := ""
		p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
			pc, ok := ins.(*ssa.Call)
			if !ok || fn != at.al.Parent() || !strings.HasSuffix(p.calleeName(pc), "parseMessageParams") || !w.reach(pc) {
				return
			}
			el, ok := p.elems(callArgs(pc)[1], nil)
			if !ok {
				return
			}
			for i, e := range el {
				if b, ok := p.addrOf(e.v, e.ctx); ok && b == at {
					res = "p" + itoa(i)
				}
			}
		})
		if res != "" {
			return res
		}
	}
	return ""
}

func keys(m map[string]bool) string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, " or ")
}

var historyWords = []string{"BEFORE", "LATEST", "AFTER", "BETWEEN", "TARGETS", "AROUND"}

// what a bound must be, and what it may be besides.
type window struct{ must, may string }

func (win window) ok(m map[string]bool) bool {
	for k := range m {
		if k != win.must && k != win.may && k != "?" {
			return false
		}
	}
	return m[win.must] || m["?"]
}

func (p *Program) checkWindows(r *Report) {
	type want struct {
		method string
		a, b   window
	}
	table := map[string][]want{
		"BEFORE":  {{"LoadBeforeTime", window{"p2", "zero"}, window{"zero", ""}}},
		"LATEST":  {{"LoadBeforeTime", window{"now", ""}, window{"p2", "zero"}}},
		"AFTER":   {{"LoadAfterTime", window{"p2", "zero"}, window{"now", ""}}},
		"BETWEEN": {{"LoadAfterTime", window{"p2", "zero"}, window{"p3", "zero"}}, {"LoadBeforeTime", window{"p2", "zero"}, window{"p3", "zero"}}},
		"TARGETS": {{"ListTargets", window{"p1", "zero"}, window{"p2", "zero"}}},
	}
	meaning := map[string]string{"BEFORE": "messages before the first bound", "LATEST": "messages between the first bound and now", "AFTER": "messages between the first bound and now, oldest first", "BETWEEN": "messages between its bounds", "TARGETS": "targets between its bounds"}
	any := false
	var subs []string
	for sub := range table {
		subs = append(subs, sub)
	}
	sort.Strings(subs)
	for _, sub := range subs {
		w := &windows{p, oneOf(historyWords, sub), map[*ssa.Function]map[*ssa.BasicBlock]bool{}}
		n := map[string]int{}
		p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
			if !p.inSoju(fn) {
				return
			}
			for _, m := range []string{"LoadBeforeTime", "LoadAfterTime", "ListTargets"} {
				call := p.isStoreCall(ins, m)
				if call == nil {
					continue
				}
				any = true
				if !w.reach(ins) || len(p.Unguarded(ins, fixed((&Cut{}).assuming(w.assume)), GuardOpts{MaxDepth: 4})) == 0 {
					continue
				}
				key := sub + ":" + m
				args := callArgs(call)
				a, b := args[2], args[3]
				if m == "ListTargets" {
					a, b = args[3], args[4]
				}
				ma, mb := map[string]bool{}, map[string]bool{}
				w.bounds(a, nil, call, ma, 0)
				w.bounds(b, nil, call, mb, 0)
				good := false
				for _, x := range table[sub] {
					if x.method == m && x.a.ok(ma) && x.b.ok(mb) {
						good = true
					}
				}
				n[m]++
				r.Check(good, "window", key, "%s: CHATHISTORY %s asks for %s but calls %s(%s, %s) (p1, p2...: parameters of the request)", p.at(call), sub, meaning[sub], m, keys(ma), keys(mb))
				if sub == "BETWEEN" && m != "ListTargets" {
					ops := []token.Token{token.LSS}
					if m == "LoadBeforeTime" {
						ops = []token.Token{token.GEQ, token.GTR}
					}
					is := func(l located, s string) bool {
						o := map[string]bool{}
						w.bounds(l.v, l.ctx, call, o, 0)
						return o[s]
					}
					cut := p.timeCut(func(x, y located) bool { return is(x, "p2") && is(y, "p3") }, ops...).assuming(w.assume)
					bad := p.Unguarded(call, fixed(cut), GuardOpts{MaxDepth: 3})
					r.Check(len(bad) == 0 || ma["?"] || mb["?"], "window", key+" order", "%s: CHATHISTORY BETWEEN can call %s whatever the order of its bounds", p.at(call), m)
				}
			}
		})
		for _, x := range table[sub] {
			r.Check(n[x.method] > 0, "window", sub+" answered by "+x.method, "CHATHISTORY %s is never answered with %s (%s)", sub, x.method, meaning[sub])
		}
	}
	if !any {
		r.Bad("window", "requests", "no history request reaches the store")
	}

	// what the request is about
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		st, ok := ins.(*ssa.Store)
		if !ok || !p.inSoju(fn) {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		t := p.typeName(fa.X.Type())
		f := fieldVar(fa.X.Type(), fa.Field)
		if f == nil || t != limitTypes[0] && t != limitTypes[1] {
			return
		}
		switch {
		case t == limitTypes[0] && f.Name() == "Events":
			for _, l := range p.lift(st.Val, st) {
				for _, lf := range p.leaves(l, func(v ssa.Value, c *Ctx) bool {
					return p.isCapTest(v, c, "soju.downstreamConn", "draft/event-playback")
				}) {
					lf := lf
					if k, isk := constBool(lf.v); isk && !k {
						continue
					}
					if p.isCapTest(lf.v, lf.ctx, "soju.downstreamConn", "draft/event-playback") {
						r.Ok("window", "events")
						continue
					}
					cut := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
						return p.capOn(cond, pol, c, "soju.downstreamConn", "draft/event-playback")
					}}
					r.Check(!p.leafOpen(&lf, l.site, cut), "window", "events", "%s: events are requested for a client that did not ask for them %s", p.at(st), p.valAt(lf.v))
				}
			}
		case t == limitTypes[1]:
			p.searchField(r, st, f.Name())
		}
	})
}

var searchAttrs = map[string]string{"Start": "after", "End": "before", "From": "from", "In": "in", "Text": "text", "Limit": "limit"}

// searchField: a store of a field of a search request.
func (p *Program) searchField(r *Report, st *ssa.Store, field string) {
	attr := searchAttrs[field]
	if _, isk := st.Val.(*ssa.Const); isk || attr == "" || zeroTime(p, st.Val) {
		return
	}
	var words []string
	for _, a := range searchAttrs {
		words = append(words, a)
	}
	sort.Strings(words)
	var under []string
	for _, a := range words {
		bad := p.Unguarded(st, fixed((&Cut{}).assuming(oneOf(words, a))), GuardOpts{MaxDepth: 2})
		if len(bad) > 0 {
			under = append(under, a)
		}
	}
	key := "SEARCH " + field
	if len(under) < len(words) {
		r.Check(len(under) == 1 && under[0] == attr, "window", key, "%s: %s of a search is taken from attribute %s, not %s", p.at(st), field, strings.Join(under, ", "), attr)
	} else {
		// looked up by name
		bad := ""
		for _, o := range p.origins(st.Val, nil, sliceOpts{Data: true, Up: true, Stop: func(v ssa.Value, c *Ctx) bool { _, is := v.(*ssa.Lookup); return is },
			Through: func(n string, c ssa.CallInstruction) []ssa.Value { return callArgs(c) }}) {
			if lk, ok := o.V.(*ssa.Lookup); ok {
				if s, isk := constString(lk.Index); isk && s != attr {
					bad = s
				}
			}
		}
		r.Check(bad == "", "window", key, "%s: %s of a search is taken from attribute %s, not %s", p.at(st), field, bad, attr)
	}
	if field == "In" {
		r.Check(p.isCasemapped(st.Val, nil), "window", key+" folded", "%s: the target of a search is not folded", p.at(st))
	}
}

const msgOpts = "database.MessageOptions"

// literal: the fields of a struct built in place.
func (p *Program) literal(al ssa.Value) map[string][]*ssa.Store {
	out := map[string][]*ssa.Store{}
	if al.Referrers() == nil {
		return out
	}
	for _, ref := range *al.Referrers() {
		fa, ok := ref.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		f := fieldVar(fa.X.Type(), fa.Field)
		for _, rr := range *fa.Referrers() {
			if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(fa) && f != nil {
				out[f.Name()] = append(out[f.Name()], st)
			}
		}
	}
	return out
}

func (p *Program) checkStoreWindows(r *Report) {
	// stores backed by the database
	for _, m := range []string{"LoadBeforeTime", "LoadAfterTime", "LoadLatestID", "Search", "ListTargets"} {
		iface := "ChatHistoryStore"
		if m == "Search" {
			iface = "SearchStore"
		}
		for _, f := range p.implementers("msgstore", iface, m) {
			p.dbWindow(r, f, m)
		}
	}
	p.fileWindow(r)
	p.fileCounts(r)
	for _, m := range []string{"ListMessages", "ListMessageLastPerTarget"} {
		for _, f := range p.implementers("database", "Database", m) {
			p.sqlWindow(r, f, m)
		}
	}
}

func (p *Program) dbWindow(r *Report, f *ssa.Function, m string) {
	par := func(i int) func(v ssa.Value, c *Ctx) bool {
		return func(v ssa.Value, c *Ctx) bool {
			w, _ := p.res(v, c)
			q, ok := w.(*ssa.Parameter)
			return ok && q.Parent() == f && paramIndex(q) == i
		}
	}
	opt := func(typ, field string) func(v ssa.Value, c *Ctx) bool {
		return func(v ssa.Value, c *Ctx) bool {
			_, _, ok := p.loadOf(v, c, typ, field)
			return ok
		}
	}
	tru := func(v ssa.Value, c *Ctx) bool {
		w, _ := p.res(v, c)
		k, ok := constBool(w)
		return ok && k
	}
	fls := func(v ssa.Value, c *Ctx) bool {
		w, _ := p.res(v, c)
		k, ok := constBool(w)
		return ok && !k
	}
	zero := func(v ssa.Value, c *Ctx) bool {
		w, _ := p.res(v, c)
		return zeroTime(p, w)
	}
	type wants map[string]func(v ssa.Value, c *Ctx) bool
	load, search := limitTypes[0], limitTypes[1]
	var alts []wants
	var assume []func(cond ssa.Value, pol bool, c *Ctx) bool
	always := func(ssa.Value, bool, *Ctx) bool { return false }
	switch m {
	case "LoadBeforeTime":
		alts = []wants{{"AfterTime": par(3), "BeforeTime": par(2), "TakeLast": tru, "Limit": opt(load, "Limit"), "Events": opt(load, "Events")}}
	case "LoadAfterTime":
		alts = []wants{{"AfterTime": par(2), "BeforeTime": par(3), "TakeLast": fls, "Limit": opt(load, "Limit"), "Events": opt(load, "Events")}}
	case "LoadLatestID":
		alts = []wants{{"AfterTime": zero, "BeforeTime": zero, "TakeLast": tru, "Limit": opt(load, "Limit")}}
	case "Search":
		alts = []wants{{"AfterTime": opt(search, "Start"), "BeforeTime": opt(search, "End"), "TakeLast": tru, "Limit": opt(search, "Limit"), "Sender": opt(search, "From"), "Text": opt(search, "Text")}}
	case "ListTargets":
		less := func(want bool) func(cond ssa.Value, pol bool, c *Ctx) bool {
			return func(cond ssa.Value, pol bool, c *Ctx) bool {
				a, b, op, ok := p.timeFact(cond, pol)
				if !ok {
					return false
				}
				if par(4)(a, c) && par(3)(b, c) {
					a, b, op = b, a, flip(op)
				}
				if !par(3)(a, c) || !par(4)(b, c) {
					return false
				}
				if want {
					return op == token.GEQ || op == token.GTR
				}
				return op == token.LSS
			}
		}
		assume = append(assume, less(true), less(false))
		alts = []wants{
			{"AfterTime": par(3), "BeforeTime": par(4), "TakeLast": fls, "Limit": par(5), "Events": par(6)},
			{"AfterTime": par(4), "BeforeTime": par(3), "TakeLast": tru, "Limit": par(5), "Events": par(6)},
		}
	}
	if len(assume) == 0 {
		assume = append(assume, always)
	}
	for i, as := range assume {
		want := alts[i]
		key := p.fnID(f)
		if len(alts) > 1 {
			key += []string{" forwards", " backwards"}[i]
		}
		p.under(f, as, func(ci ssa.CallInstruction, c *Ctx) bool {
			n := p.calleeName(ci)
			if n != "database.Database.ListMessages" && n != "database.Database.ListMessageLastPerTarget" {
				return true
			}
			args := callArgs(ci)
			site := ci.(ssa.Instruction)
			for _, lf := range p.leaves(located{args[len(args)-1], c, site}, nil) {
				al, ok := lf.v.(*ssa.Alloc)
				if !ok {
					continue
				}
				if !p.reachableBlocks(al.Parent(), lf.ctx, (&Cut{}).assuming(as))[al.Block()] {
					continue
				}
				lit := p.literal(al)
				var fields []string
				for fl := range want {
					fields = append(fields, fl)
				}
				sort.Strings(fields)
				for _, fl := range fields {
					ok, at := false, ssa.Instruction(site)
					over := func(but ssa.Instruction) *Cut {
						return (&Cut{Local: true, Instr: func(i ssa.Instruction, _ *Ctx) bool {
							for _, st := range lit[fl] {
								if i == ssa.Instruction(st) && i != but {
									return true
								}
							}
							return false
						}}).assuming(as)
					}
					live := func(from ssa.Instruction) bool {
						return site.Parent() != from.Parent() || p.searchAfter(from, site.Block(), indexOf(site), over(from))
					}
					if live(al) && (site.Parent() == al.Parent() || len(lit[fl]) == 0) {
						// left at zero
						ok = (fl == "TakeLast") && want[fl](ssa.NewConst(constant.MakeBool(false), types.Typ[types.Bool]), nil) || (fl == "AfterTime" || fl == "BeforeTime") && m == "LoadLatestID"
					}
					for _, st := range lit[fl] {
						if !p.reachableBlocks(st.Parent(), lf.ctx, (&Cut{}).assuming(as))[st.Block()] || !live(st) {
							continue
						}
						at = st
						ok = false
						bad := false
						for _, l2 := range p.leaves(located{st.Val, lf.ctx, st}, func(v ssa.Value, c *Ctx) bool { return want[fl](v, c) }) {
							if l2.from != nil && !p.reachableBlocks(l2.from.Parent(), lf.ctx, (&Cut{}).assuming(as))[l2.from] {
								continue
							}
							if want[fl](l2.v, l2.ctx) {
								ok = true
							} else {
								bad = true
							}
						}
						ok = ok && !bad
						if !ok {
							break
						}
					}
					r.Check(ok, "store-window", key+" "+fl, "%s: %s asks the database for messages with the wrong %s", p.at(at), p.fnID(f), fl)
				}
			}
			// the buffer
			if m != "ListTargets" {
				ent := opt(load, "Entity")
				if m == "Search" {
					ent = opt(search, "In")
				}
				r.Check(ent(args[len(args)-2], c), "store-window", key+" target", "%s: %s asks the database for another target than the requested one", p.at(site), p.fnID(f))
			}
			return true
		})
	}
}

// fileWindow: messages parsed from a file become part of a reply only between
// the bounds, and if the selector takes them.
func (p *Program) fileWindow(r *Report) {
	parsed := func(v ssa.Value, i int) *ssa.Call {
		ex, ok := v.(*ssa.Extract)
		if !ok || ex.Index != i {
			return nil
		}
		call, ok := ex.Tuple.(*ssa.Call)
		if !ok || !strings.HasSuffix(p.calleeName(call), "fsMessageStore.parseMessage") {
			return nil
		}
		return call
	}
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		st, ok := ins.(*ssa.Store)
		if !ok || p.pkgOf(fn) != "msgstore" {
			return
		}
		if _, ok := st.Addr.(*ssa.IndexAddr); !ok {
			return
		}
		w, _ := p.res(st.Val, nil)
		call := parsed(w, 0)
		if call == nil {
			return
		}
		key := p.fnID(fn)
		isT := func(l located) bool {
			w, _ := p.res(l.v, l.ctx)
			return parsed(w, 1) == call
		}
		lower := map[ssa.Value]*Ctx{}
		low := p.timeCut(func(a, b located) bool {
			if isT(a) {
				lower[b.v] = b.ctx
			}
			return isT(a)
		}, token.GTR)
		high := p.timeCut(func(a, b located) bool { return isT(a) }, token.LSS)
		r.Check(len(p.Unguarded(st, fixed(low), GuardOpts{MaxDepth: 1})) == 0, "store-window", key+" lower", "%s: a message can be part of the reply without being after the lower bound", p.at(st))
		r.Check(len(p.Unguarded(st, fixed(high), GuardOpts{MaxDepth: 1})) == 0, "store-window", key+" upper", "%s: a message can be part of the reply without being before the upper bound", p.at(st))
		for v, c := range lower {
			bad := ""
			for _, o := range p.origins(v, c, sliceOpts{Up: true, Through: func(n string, ci ssa.CallInstruction) []ssa.Value {
				if n == "time.Time.In" || n == "time.Time.UTC" || n == "time.Time.Local" {
					return callArgs(ci)[:1]
				}
				return nil
			}}) {
				if cl, ok := o.V.(*ssa.Call); ok && (p.calleeName(cl) == "time.Date" || strings.HasSuffix(p.calleeName(cl), "truncateDay")) {
					bad = p.valAt(o.V)
				}
			}
			r.Check(bad == "", "store-window", key+" midnight", "%s: the start of a day is an exclusive bound: messages at that very time are left out %s", p.at(st), bad)
		}
		sel := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
			if cl, ok := cond.(*ssa.Call); ok && pol && !cl.Call.IsInvoke() && cl.Call.StaticCallee() == nil {
				return p.typeOfSelector(cl.Call.Value)
			}
			return false
		}, Nil: func(v ssa.Value, isNil bool, c *Ctx) bool { return isNil && p.typeOfSelector(v) }}
		r.Check(len(p.Unguarded(st, fixed(sel), GuardOpts{MaxDepth: 1})) == 0, "store-window", key+" selector", "%s: a message can be part of the reply although the search does not select it", p.at(st))
	})
}

func (p *Program) typeOfSelector(v ssa.Value) bool {
	return strings.HasSuffix(v.Type().String(), "irc.v4.Message) bool")
}

var cmpRe = regexp.MustCompile(`\b(time|latest|id|sender)\s*(<=|>=|<>|!=|<|>|=)\s*(:\w+|\$%d)`)

// sqlWindow: the conditions a query of messages is built from.
func (p *Program) sqlWindow(r *Report, f *ssa.Function, m string) {
	key := p.fnID(f)
	var query ssa.Instruction
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if ci, ok := i.(*ssa.Call); ok && strings.HasSuffix(p.calleeName(ci), ".QueryContext") {
				query = i
			}
		}
	}
	if query == nil {
		return
	}
	consts := func(i ssa.Instruction) (out []string) {
		if _, ok := i.(*ssa.Phi); ok {
			return nil // one of them: see below
		}
		for _, op := range i.Operands(nil) {
			if *op == nil {
				continue
			}
			if s, ok := constString(*op); ok {
				out = append(out, s)
			}
		}
		return out
	}
	// the value a named parameter stands for
	named := func(name string) ssa.Value {
		var v ssa.Value
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(*ssa.Call); ok && p.calleeName(ci) == "database/sql.Named" && constIs(callArgs(ci)[0], name) {
					v = callArgs(ci)[1]
				}
			}
		}
		return v
	}
	readsOpt := func(v ssa.Value) string {
		got := map[string]bool{}
		for _, o := range p.origins(v, nil, sliceOpts{Data: true, Through: func(n string, c ssa.CallInstruction) []ssa.Value { return callArgs(c) }, Stop: func(v ssa.Value, c *Ctx) bool {
			_, _, ok := p.loadOf(v, c, msgOpts, "")
			return ok
		}}) {
			for _, fl := range []string{"AfterID", "AfterTime", "BeforeTime", "Limit", "Sender", "Text"} {
				if _, _, ok := p.loadOf(o.V, o.Ctx, msgOpts, fl); ok {
					got[fl] = true
				}
			}
		}
		return keys(got)
	}
	// the value appended to the positional parameters before the fragment
	positional := func(at ssa.Instruction) ssa.Value {
		for i := indexOf(at) - 1; i >= 0; i-- {
			ci, ok := at.Block().Instrs[i].(*ssa.Call)
			if !ok {
				continue
			}
			if b, ok := ci.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				el, ok := p.elems(ci.Call.Args[1], nil)
				if ok && len(el) == 1 {
					return el[0].v
				}
				return nil
			}
		}
		return nil
	}
	expected := map[string]string{"time >": "AfterTime", "latest >": "AfterTime", "time <": "BeforeTime", "latest <": "BeforeTime", "id >": "AfterID", "sender =": "Sender"}
	has := map[string]map[ssa.Instruction]bool{}
	note := func(what string, i ssa.Instruction) {
		if has[what] == nil {
			has[what] = map[ssa.Instruction]bool{}
		}
		has[what][i] = true
	}
	p.within(f, func(g *ssa.Function, i ssa.Instruction) {
		for _, s := range consts(i) {
			for _, mm := range cmpRe.FindAllStringSubmatch(s, -1) {
				want := expected[mm[1]+" "+mm[2]]
				if want == "" {
					if mm[1] == "time" || mm[1] == "latest" {
						r.Bad("store-window", key+" "+mm[1]+mm[2], "%s: the bounds of a request are exclusive, but the query compares with %s", p.at(i), mm[2])
					}
					continue
				}
				var v ssa.Value
				if mm[3][0] == ':' {
					v = named(mm[3][1:])
				} else {
					v = positional(i)
				}
				if v != nil {
					got := readsOpt(v)
					r.Check(got == want || got == "", "store-window", key+" "+mm[1]+mm[2]+" value", "%s: the query compares %s %s with %s, not %s", p.at(i), mm[1], mm[2], got, want)
				}
				note(want, i)
			}
			up := strings.ToUpper(s)
			if strings.Contains(up, "TEXT IS NOT NULL") {
				note("Events", i)
			}
			if strings.Contains(s, "MATCH :text") || strings.Contains(s, "tsquery(") {
				note("Text", i)
			}
			if regexp.MustCompile(`LIMIT (:\w+|\$%d)`).MatchString(s) {
				note("Limit", i)
			}
			if regexp.MustCompile(`(?i)ORDER BY (\w+\.)?(time|latest) DESC\s*(LIMIT (:\w+|\$%d)\s*)?$`).MatchString(s) {
				note("desc", i)
			}
			if regexp.MustCompile(`(?i)ORDER BY (\w+\.)?(time|latest)( ASC)?\s*(LIMIT (:\w+|\$%d)\s*)?$`).MatchString(s) {
				note("asc", i)
			}
		}
	})
	unset := func(field string) func(cond ssa.Value, pol bool, c *Ctx) bool {
		return func(cond ssa.Value, pol bool, c *Ctx) bool {
			w, wc := p.res(cond, c)
			if call, ok := w.(*ssa.Call); ok && p.calleeName(call) == "time.Time.IsZero" {
				_, _, is := p.loadOf(callArgs(call)[0], wc, msgOpts, field)
				return is && pol
			}
			if _, _, is := p.loadOf(w, wc, msgOpts, field); is { // a flag
				if field == "Events" {
					return pol
				}
				return !pol
			}
			a, b, op, ok := cmpFact(w, pol)
			if !ok {
				return false
			}
			for i := 0; i < 2; i++ {
				if _, _, is := p.loadOf(a, wc, msgOpts, field); is {
					if k, isk := constInt(b); isk && k == 0 && (op == token.LEQ || op == token.EQL) {
						return true
					}
					if s, isk := constString(b); isk && s == "" && op == token.EQL {
						return true
					}
				}
				if p.lenFact0(w, pol, wc, field) {
					return true
				}
				a, b, op = b, a, flip(op)
			}
			return false
		}
	}
	whats := []string{"AfterTime", "BeforeTime", "Events", "Limit"}
	if m == "ListMessages" {
		whats = append(whats, "AfterID", "Sender", "Text")
	}
	for _, what := range whats {
		what := what
		cut := &Cut{Instr: func(i ssa.Instruction, c *Ctx) bool { return has[what][i] }, Atom: unset(what)}
		_, reach := p.reachInstr(query, nil, cut)
		r.Check(!reach, "store-window", key+" "+what, "%s: the query can be run without a condition on %s although it was requested", p.at(query), what)
	}
	// order
	flag := func(want bool) func(cond ssa.Value, pol bool, c *Ctx) bool {
		return func(cond ssa.Value, pol bool, c *Ctx) bool {
			_, _, is := p.loadOf(cond, c, msgOpts, "TakeLast")
			return is && pol != want
		}
	}
	for _, o := range []struct {
		what string
		last bool
	}{{"desc", true}, {"asc", false}} {
		o := o
		// a fragment chosen among constants
		blocks := p.reachableBlocks(f, nil, (&Cut{}).assuming(flag(o.last)))
		for b := range blocks {
			for _, i := range b.Instrs {
				phi, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				all, any := true, false
				for k, e := range phi.Edges {
					if !blocks[b.Preds[k]] || p.edgeCut(b.Preds[k], b, nil, (&Cut{}).assuming(flag(o.last)), 0) {
						continue
					}
					s, ok := constString(e)
					any = true
					if !ok || !p.ordersBy(f, s, o.last) {
						all = false
					}
				}
				if any && all {
					note(o.what, phi)
				}
			}
		}
		cut := (&Cut{Instr: func(i ssa.Instruction, c *Ctx) bool { return has[o.what][i] }}).assuming(flag(o.last))
		_, reach := p.reachInstr(query, nil, cut)
		r.Check(!reach, "store-window", key+" "+o.what, "%s: the query can be run without the order that takes the right end of the window", p.at(query))
	}
	{
		rev := &Cut{Instr: func(i ssa.Instruction, c *Ctx) bool {
			if ci, ok := i.(*ssa.Call); ok && strings.HasPrefix(p.calleeName(ci), "slices.Reverse") {
				return true
			}
			iff, ok := i.(*ssa.If)
			if !ok {
				return false
			}
			for b := range p.loopBody(iff.Block()) {
				n := 0
				for _, j := range b.Instrs {
					if st, ok := j.(*ssa.Store); ok {
						if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
							if _, ok := ia.X.Type().Underlying().(*types.Slice); ok {
								n++
							}
						}
					}
				}
				if n >= 2 {
					return true
				}
			}
			return false
		}}
		for _, last := range []bool{true, false} {
			as := flag(last)
			bad := ""
			for _, ret := range returnsOf(f) {
				if rt, ok := ret.(*ssa.Return); ok && p.retErrNonNil(rt) {
					continue
				}
				if last {
					if p.searchAfter(query, ret.Block(), indexOf(ret), anyOf(rev, p.failed()).assuming(as)) {
						bad = p.at(ret)
					}
				} else {
					// the list must not be reversed
					p.within(f, func(g *ssa.Function, i ssa.Instruction) {
						if g == f && rev.Instr(i, nil) && p.searchAfter(query, i.Block(), indexOf(i), (&Cut{}).assuming(as)) {
							bad = p.at(i)
						}
					})
				}
			}
			r.Check(bad == "", "store-window", key+" oldest first "+map[bool]string{true: "backwards", false: "forwards"}[last], "%s: messages are not returned oldest first", bad)
		}
	}
}

// failed: an operation failed.
func (p *Program) failed() *Cut {
	return &Cut{Nil: func(v ssa.Value, isNil bool, c *Ctx) bool { return !isNil && isErrorType(v.Type()) }}
}

func (p *Program) lenFact0(cond ssa.Value, pol bool, c *Ctx, field string) bool {
	return p.lenFact(cond, !pol, c, func(v ssa.Value, c *Ctx) bool {
		_, _, ok := p.loadOf(v, c, msgOpts, field)
		return ok
	}) == 1
}

var (
	orderFragment = regexp.MustCompile(`(?i)^\s*(ORDER BY (\w+\.)?(time|latest))?\s*(ASC|DESC)?\s*$`)
	orderOpen     = regexp.MustCompile(`(?i)ORDER BY (\w+\.)?(time|latest) (%[sv])?\s*(LIMIT (:\w+|\$%d)\s*)?$`)
)

// ordersBy: s is, or completes another constant of f to, an ORDER BY in the
// given direction.
func (p *Program) ordersBy(f *ssa.Function, s string, desc bool) bool {
	m := orderFragment.FindStringSubmatch(s)
	if m == nil || (m[1] == "" && m[4] == "") {
		return false
	}
	if strings.EqualFold(m[4], "DESC") != desc {
		return false
	}
	if m[1] != "" {
		return true
	}
	open := false
	p.within(f, func(g *ssa.Function, i ssa.Instruction) {
		for _, op := range i.Operands(nil) {
			if *op == nil {
				continue
			}
			if t, ok := constString(*op); ok && orderOpen.MatchString(t) {
				open = true
			}
		}
	})
	return open
}

// fileCounts: what the message store on files counts while it reads: a message
// is added while fewer than the limit were, what was read counts against the
// limit, and an ID names its network and target.
func (p *Program) fileCounts(r *Report) {
	isLimit := func(v ssa.Value, c *Ctx) bool {
		for _, t := range limitTypes {
			if _, _, ok := p.loadOf(v, c, t, "Limit"); ok {
				return true
			}
		}
		return false
	}
	msgs := func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return ok && strings.HasSuffix(sl.Elem().String(), "irc.v4.Message")
	}
	room := &Cut{Enter: func(g *ssa.Function) bool { return p.pkgOf(g) == "msgstore" }, Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
		a, b, op, ok := cmpFact(cond, pol)
		if !ok {
			return false
		}
		for i := 0; i < 2; i++ {
			if (op == token.LSS || op == token.NEQ) && isLimit(b, c) && !isLimit(a, c) {
				return true
			}
			if _, ph := a.(*ssa.Phi); !ph {
				// Not a countdown.
			} else if k, ok := constInt(b); ok && (op == token.GTR && k >= 0 || op == token.GEQ && k >= 1 || op == token.NEQ && k == 0) {
				return true
			}
			a, b, op = b, a, flip(op)
		}
		return false
	}}
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		if p.pkgOf(fn) != "msgstore" {
			return
		}
		switch x := ins.(type) {
		case *ssa.BinOp:
			ph, ok := x.X.(*ssa.Phi)
			ln, ok2 := x.Y.(*ssa.Call)
			if x.Op != token.SUB || !ok || !ok2 || p.calleeName(ln) != "builtin.len" || !msgs(ln.Call.Args[0].Type()) {
				return
			}
			w, _ := p.res(ln.Call.Args[0], nil)
			ex, ok := w.(*ssa.Extract)
			if !ok {
				return
			}
			call, ok := ex.Tuple.(*ssa.Call)
			if !ok || !ph.Block().Dominates(call.Block()) {
				return
			}
			skip := p.searchAfter(call, ph.Block(), 0, &Cut{Instr: func(i ssa.Instruction, c *Ctx) bool { return i == ssa.Instruction(x) }, Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
				a, b, op, ok := cmpFact(cond, pol)
				if !ok {
					return false
				}
				for i := 0; i < 2; i++ {
					k, isk := constInt(b)
					if cl, ok := a.(*ssa.Call); ok && isk && p.calleeName(cl) == "builtin.len" && (op == token.EQL && k == 0 || op == token.LEQ && k == 0 || op == token.LSS && k == 1) {
						if w, _ := p.res(cl.Call.Args[0], nil); w == ssa.Value(ex) {
							return true
						}
					}
					a, b, op = b, a, flip(op)
				}
				return false
			}})
			r.Check(!skip, "store-window", p.fnID(fn)+" counted", "%s: messages that were read need not count against the limit", p.at(call))
		case *ssa.Store:
			ia, ok := x.Addr.(*ssa.IndexAddr)
			if !ok {
				return
			}
			if al, ok := ia.X.(*ssa.Alloc); !ok || al.Comment != "varargs" {
				return
			}
			w, _ := p.res(x.Val, nil)
			ex, ok := w.(*ssa.Extract)
			if !ok || ex.Index != 0 {
				return
			}
			if c, ok := ex.Tuple.(*ssa.Call); !ok || !strings.HasSuffix(p.calleeName(c), "fsMessageStore.parseMessage") {
				return
			}
			r.Check(!p.searchEntry(x, room), "store-window", p.fnID(fn)+" limit", "%s: a message can be added to the reply although it already has as many as asked for", p.at(x))
		case *ssa.Call:
			g := x.Call.StaticCallee()
			if g == nil || p.pkgOf(g) != "msgstore" || g.Signature.Results().Len() != 5 || g.Signature.Results().At(2).Type().String() != "time.Time" || g.Signature.Params().Len() != 1 {
				return
			}
			for i, what := range []string{"network", "target"} {
				i := i
				match := &Cut{Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
					a, b, op, ok := cmpFact(cond, pol)
					if !ok || op != token.EQL {
						return false
					}
					for j := 0; j < 2; j++ {
						w, _ := p.res(a, c)
						// A local variable set in one place, perhaps under a condition.
						if ph, ok := w.(*ssa.Phi); ok {
							for _, e := range ph.Edges {
								if _, k := e.(*ssa.Const); !k {
									w, _ = p.res(e, c)
								}
							}
						}
						if ex, ok := w.(*ssa.Extract); ok && ex.Tuple == ssa.Value(x) && ex.Index == i {
							if _, k := b.(*ssa.Const); !k {
								return true
							}
						}
						a, b = b, a
					}
					return false
				}}
				ret := p.successWithout(x, match)
				r.Check(ret == nil, "store-window", p.fnID(fn)+" "+what, "%s: a message ID of another %s is taken for one of the messages asked for", p.at(x), what)
			}
		}
	})
}
