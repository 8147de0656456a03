package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{
		ID: "C06",
		Explanation: "Range analysis: for every index and slice expression on a slice or string in the server's packages, a difference-bound prover shows 0 <= index < length (or 0 <= low <= high <= length) " +
			"from the definitions of the values and from the branch conditions on every path to the expression, following parameters to all call sites.",
		Assumptions: []string{"a length check on a field stays valid until the use (single-threaded handler code does not shrink it in between)", "integer arithmetic does not overflow"},
		Run:         runC06,
	})
}

func runC06(p *Program, r *Report) {
	r.Rule("fixed-offset", "every access at a fixed position (a constant, an offset from the end, or a position returned by a string search) of message parameters or of text split out of them is within bounds on every path", 60)
	r.Rule("loop-offset", "no access at a computed position is bounded only by a check that also admits the position just past the end", 10)
	r.Rule("named-source", "a nickname that must not be empty is never taken from a peer without a check", 3)
	b := &prover{p: p}
	count := map[string]int{}
	name := func(fn *ssa.Function, base ssa.Value) string {
		k := fmt.Sprintf("%s: %s", p.fnID(fn), p.exprName(base))
		count[k]++
		if count[k] > 1 {
			return fmt.Sprintf("%s (%d)", k, count[k])
		}
		return k
	}
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		switch p.pkgOf(fn) {
		case "soju", "xirc", "identd", "msgstore/znclog":
		default:
			return
		}
		if fn.Synthetic != "" && fn.Name() == "init" {
			return
		}
		type ob struct {
			pos  ssa.Value // the position, for its class
			mk   func(c *Ctx) (lin, lin, int64)
			what string
		}
		var base ssa.Value
		var obs []ob
		lenX := func(c *Ctx) lin {
			if n, ok := arrayLen(base.Type()); ok {
				return lin{k: n}
			}
			return b.lenOf(base, c)
		}
		verb := "indexing"
		index := func(i ssa.Value) {
			obs = []ob{
				{i, func(c *Ctx) (lin, lin, int64) { return lin{}, b.of(i, c), 0 }, "the index may be negative"},
				{i, func(c *Ctx) (lin, lin, int64) { return b.of(i, c), lenX(c), -1 }, "the index may be past the end"},
			}
		}
		switch x := ins.(type) {
		case *ssa.IndexAddr:
			base = x.X
			index(x.Index)
		case *ssa.Index:
			base = x.X
			index(x.Index)
		case *ssa.Lookup:
			if _, isMap := x.X.Type().Underlying().(*types.Map); isMap {
				return
			}
			base = x.X
			index(x.Index)
		case *ssa.Slice:
			verb = "slicing"
			base = x.X
			if x.Low != nil {
				obs = append(obs, ob{x.Low, func(c *Ctx) (lin, lin, int64) { return lin{}, b.of(x.Low, c), 0 }, "the lower bound may be negative"})
				if x.High != nil {
					obs = append(obs, ob{x.Low, func(c *Ctx) (lin, lin, int64) { return b.of(x.Low, c), b.of(x.High, c), 0 }, "the lower bound may exceed the upper bound"})
				} else {
					obs = append(obs, ob{x.Low, func(c *Ctx) (lin, lin, int64) { return b.of(x.Low, c), lenX(c), 0 }, "the lower bound may exceed the length"})
				}
			}
			if x.High != nil {
				if x.Low == nil {
					obs = append(obs, ob{x.High, func(c *Ctx) (lin, lin, int64) { return lin{}, b.of(x.High, c), 0 }, "the upper bound may be negative"})
				}
				obs = append(obs, ob{x.High, func(c *Ctx) (lin, lin, int64) { return b.of(x.High, c), lenX(c), 0 }, "the upper bound may exceed the length"})
			}
			if len(obs) == 0 {
				return
			}
		default:
			return
		}
		if n, ok := arrayLen(base.Type()); ok && len(obs) == 2 {
			if k, isk := constInt(obs[0].pos); isk && k >= 0 && k < n {
				return // checked by the compiler
			}
		}
		if !p.peerText(base) || p.commandHelper(fn, base) {
			return
		}
		key := name(fn, base)
		for _, o := range obs {
			if b.fixedPos(o.pos, base) || b.holds(b.of(o.pos, nil), lin{k: 1000}, 0, ins.Block(), indexOf(ins), nil, 0, map[string]bool{}) {
				r.Check(b.prove(ins, o.mk), "fixed-offset", key, "%s: %s %s: %s", p.at(ins), verb, p.exprName(base), o.what)
				continue
			}
			if b.sortIndex(o.pos, base) || b.prove(ins, o.mk) {
				r.Ok("loop-offset", key)
				continue
			}
			// undecided, unless the code itself states the weaker bound
			weaker := b.prove(ins, func(c *Ctx) (lin, lin, int64) {
				x, y, n := o.mk(c)
				if x.atom == "" || y.atom == "" {
					return lin{}, lin{k: -1}, 0
				}
				return x, y, n + 1
			})
			if !weaker && strings.Contains(o.what, "past the end") && isString(base.Type()) {
				r.Check(p.lenChecked(ins, base), "loop-offset", key+" length", "%s: %s %s: %s (the length is not checked on the way)", p.at(ins), verb, p.exprName(base), o.what)
			}
			r.Check(!weaker, "loop-offset", key, "%s: %s %s: %s (the checks on the way admit exactly one position too many)", p.at(ins), verb, p.exprName(base), o.what)
		}
	})
	runC06names(p, r)
}

// fixedPos: the position is a constant, counted from the end of base, or comes
// from a string search.
func (b *prover) fixedPos(pos, base ssa.Value) bool {
	l := b.of(pos, nil)
	switch {
	case l.atom == "":
		return true
	case l.len:
		return l.atom == b.lenOf(base, nil).atom
	}
	if strings.HasPrefix(l.atom, "end:") {
		return true
	}
	call, ok := l.v.(*ssa.Call)
	if !ok {
		return false
	}
	n := b.p.calleeName(call)
	return strings.HasPrefix(n, "strings.Index") || strings.HasPrefix(n, "strings.LastIndex")
}

// peerText: base is message parameters, a string, or a list of words held in a
// local variable or parameter (not in long-lived state).
func (p *Program) peerText(base ssa.Value) bool {
	t := base.Type().Underlying()
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem().Underlying()
	}
	switch x := t.(type) {
	case *types.Basic:
		if x.Info()&types.IsString == 0 {
			return false
		}
	case *types.Slice:
		e, ok := x.Elem().Underlying().(*types.Basic)
		if !ok || e.Kind() != types.String && e.Kind() != types.Byte {
			return false
		}
	default:
		return false
	}
	v, _ := p.res(base, nil)
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.Slice:
			v, _ = p.res(x.X, nil)
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
			v = x.X
		case *ssa.IndexAddr:
			v, _ = p.res(x.X, nil)
		case *ssa.FieldAddr:
			// only the parts of a message
			switch p.typeName(x.X.Type()) {
			case "gopkg.in/irc.v4.Message", "gopkg.in/irc.v4.Prefix":
				v, _ = p.res(x.X, nil)
				if ex, ok := v.(*ssa.Extract); ok {
					_, fromCall := ex.Tuple.(*ssa.Call)
					return fromCall && p.calleeName(ex.Tuple.(*ssa.Call)) != "soju.upstreamConn.currentPendingCommand" && p.calleeName(ex.Tuple.(*ssa.Call)) != "soju.upstreamConn.dequeueCommand"
				}
			default:
				return false
			}
		case *ssa.Parameter, *ssa.Alloc, *ssa.Phi, *ssa.FreeVar, *ssa.Extract, *ssa.Field, *ssa.BinOp, *ssa.MakeSlice, *ssa.Const:
			return true
		case *ssa.Call:
			// text split out of configuration or of state is not peer text
			if strings.HasPrefix(p.calleeName(x), "strings.") && len(x.Common().Args) > 0 {
				v, _ = p.res(x.Common().Args[0], nil)
				continue
			}
			return true
		default:
			return false
		}
	}
	return false
}

// commandHelper: fn works on messages handlers have accepted before (it tests
// the command of a message it was given, and is not itself a handler); how
// many parameters each command has is then its callers' business.
func (p *Program) commandHelper(fn *ssa.Function, base ssa.Value) bool {
	if isMessageHandler(p, fn) || p.pkgOf(fn) == "xirc" {
		return false
	}
	v, _ := p.res(base, nil)
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || p.typeName(fa.X.Type()) != "gopkg.in/irc.v4.Message" {
		return false
	}
	var given func(v ssa.Value) bool
	seen := map[ssa.Value]bool{}
	given = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		for _, o := range p.origins(v, nil, sliceOpts{Through: func(name string, call ssa.CallInstruction) []ssa.Value {
			if name == "gopkg.in/irc.v4.Message.Copy" {
				return callArgs(call)[:1]
			}
			return nil
		}}) {
			if rootParam(o.V) != nil {
				continue
			}
			// a copy of the struct
			al, ok := o.V.(*ssa.Alloc)
			if !ok {
				return false // not a message it was given
			}
			n := 0
			for _, ref := range *al.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
					ld, ok := st.Val.(*ssa.UnOp)
					if !ok || ld.Op != token.MUL || !given(ld.X) {
						return false
					}
					n++
				}
			}
			if n == 0 {
				return false
			}
		}
		return true
	}
	if !given(fa.X) {
		return false
	}
	for _, bl := range fn.Blocks {
		for _, ins := range bl.Instrs {
			bo, ok := ins.(*ssa.BinOp)
			if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
				continue
			}
			for _, o := range []ssa.Value{bo.X, bo.Y} {
				if call, ok := o.(*ssa.Call); ok && strings.HasPrefix(p.calleeName(call), "strings.To") {
					o = call.Common().Args[0]
				}
				if _, _, ok := p.loadOf(o, nil, "gopkg.in/irc.v4.Message", "Command"); ok {
					return true
				}
			}
		}
	}
	return false
}

// runC06names: functions that panic when given an empty name are never handed
// one, and the session's own nickname is never set to an unchecked value.
func runC06names(p *Program, r *Report) {
	isName := func(v ssa.Value, c *Ctx) (msg string, ok bool) {
		b, bc, is := p.loadOf(v, c, "gopkg.in/irc.v4.Prefix", "Name")
		if !is {
			if b, bc, is = p.loadOf(v, c, "gopkg.in/irc.v4.Message", "Name"); is {
				return p.ap(b, bc), true
			}
			return "", false
		}
		m, mc, is := p.loadOf(b, bc, "gopkg.in/irc.v4.Message", "Prefix")
		if !is {
			return "", false
		}
		return p.ap(m, mc), true
	}
	// nonEmpty: v cannot be empty at site
	var nonEmpty func(v ssa.Value, site ssa.Instruction) bool
	nonEmpty = func(v ssa.Value, site ssa.Instruction) bool {
		w, _ := p.res(v, nil)
		if s, ok := constString(w); ok {
			return s != ""
		}
		if _, _, ok := p.loadOf(w, nil, "soju.upstreamConn", "nick"); ok {
			return true // every store is checked below
		}
		if ph, ok := w.(*ssa.Phi); ok {
			for i, e := range ph.Edges {
				pred := ph.Block().Preds[i]
				if e != w && !nonEmpty(e, pred.Instrs[len(pred.Instrs)-1]) {
					return false
				}
			}
			return true
		}
		if bo, ok := w.(*ssa.BinOp); ok && bo.Op == token.ADD {
			return nonEmpty(bo.X, site) || nonEmpty(bo.Y, site)
		}
		if call, ok := w.(*ssa.Call); ok && p.calleeName(call) == "database.GetNick" {
			return true
		}
		if ld, ok := w.(*ssa.UnOp); ok && ld.Op == token.MUL {
			if al, ok := ld.X.(*ssa.Alloc); ok && p.middleParam(al) {
				return true
			}
		}
		path := p.ap(w, nil)
		return len(p.Unguarded(site, func(sink *Ctx) *Cut {
			want := p.ap(v, sink)
			msg, fromMsg := isName(v, sink)
			cut := p.strNonEmpty(func(x ssa.Value, c *Ctx) bool { a := p.ap(x, c); return a == want || a == path })
			// equal to a nickname that is in use
			base := cut.Atom
			cut.Atom = func(cond ssa.Value, pol bool, c *Ctx) bool {
				if base(cond, pol, c) {
					return true
				}
				if call, ok := cond.(*ssa.Call); ok && pol {
					for _, a := range callArgs(call) {
						if x := p.ap(a, c); x == want || x == path {
							switch p.calleeName(call) {
							case "soju.upstreamConn.isOurNick", "soju.upstreamConn.shouldCacheUserInfo":
								return true
							}
						}
					}
				}
				return false
			}
			cut.Nil = func(x ssa.Value, isNil bool, c *Ctx) bool {
				// found in a table under that name
				call, ok := x.(*ssa.Call)
				if !ok || isNil || !strings.HasSuffix(p.calleeName(call), ".Get") {
					return false
				}
				for _, a := range callArgs(call) {
					if y := p.ap(a, c); y == want || y == path {
						return true
					}
				}
				return false
			}
			if fromMsg {
				// the source was replaced by the server's
				cut.Instr = func(ins ssa.Instruction, c *Ctx) bool {
					st, ok := ins.(*ssa.Store)
					if !ok {
						return false
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok || !p.isField(fa.X.Type(), fa.Field, "gopkg.in/irc.v4.Message", "Prefix") || p.ap(fa.X, c) != msg {
						return false
					}
					_, _, ok = p.loadOf(st.Val, c, "soju.upstreamConn", "serverPrefix")
					return ok
				}
			}
			return cut
		}, GuardOpts{MaxDepth: 3})) == 0
	}
	// parameters whose emptiness panics
	for _, fn := range p.Funcs {
		if p.pkgOf(fn) != "soju" {
			continue
		}
		for _, b := range fn.Blocks {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); !ok || len(b.Preds) != 1 {
				continue
			}
			iff, ok := b.Preds[0].Instrs[len(b.Preds[0].Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			x, y, op, ok := cmpFact(iff.Cond, b == b.Preds[0].Succs[0])
			if !ok || op != token.EQL {
				continue
			}
			if call, isc := x.(*ssa.Call); isc && p.calleeName(call) == "builtin.len" {
				if k, isk := constInt(y); !isk || k != 0 {
					continue
				}
				x = call.Common().Args[0]
			} else if s, isk := constString(y); !isk || s != "" {
				continue
			}
			par, ok := x.(*ssa.Parameter)
			if !ok {
				continue
			}
			i := paramIndex(par)
			for _, ci := range p.callers[fn] {
				key := p.fnID(ci.Parent()) + ": " + fn.Name()
				r.Check(nonEmpty(callArgs(ci)[i], ci), "named-source", key, "%s: %s panics when given an empty %s, which nothing rules out here", p.at(ci), fn.Name(), par.Name())
			}
		}
	}
	// the nickname of the session on the network
	for _, st := range p.storesTo("soju.upstreamConn", "nick") {
		key := p.fnID(st.Parent()) + ": nick"
		r.Check(nonEmpty(st.Val, st), "named-source", key, "%s: the nickname in use is set to a value that may be empty", p.at(st))
	}
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		fa, ok := ins.(*ssa.FieldAddr)
		if !ok || !p.isField(fa.X.Type(), fa.Field, "soju.upstreamConn", "nick") {
			return
		}
		for _, rr := range *fa.Referrers() {
			if st, ok := rr.(*ssa.Store); ok && st.Val == ssa.Value(fa) {
				r.Bad("named-source", p.fnID(fn)+": &nick", "%s: the nickname in use is filled in from a message without a check that it is not empty", p.at(ins))
			}
		}
	})
	for _, st := range p.storesTo("soju.upstreamConn", "serverPrefix") {
		key := p.fnID(st.Parent()) + ": serverPrefix"
		v, _ := p.res(st.Val, nil)
		if al, ok := v.(*ssa.Alloc); ok {
			good := false
			for _, s2 := range p.storesTo("gopkg.in/irc.v4.Prefix", "Name") {
				if s2.Addr.(*ssa.FieldAddr).X == ssa.Value(al) {
					good = nonEmpty(s2.Val, s2)
				}
			}
			r.Check(good, "named-source", key, "%s: the server's name is set to an empty value", p.at(st))
			continue
		}
		m, mc, ok := p.loadOf(v, nil, "gopkg.in/irc.v4.Message", "Prefix")
		if !ok {
			continue
		}
		_ = mc
		msg := p.ap(m, nil)
		bad := p.Unguarded(st, func(sink *Ctx) *Cut {
			cut := p.strNonEmpty(func(x ssa.Value, c *Ctx) bool { a, ok := isName(x, c); return ok && a == p.ap(m, sink) })
			cut.Instr = func(ins ssa.Instruction, c *Ctx) bool {
				st, ok := ins.(*ssa.Store)
				if !ok {
					return false
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				return ok && p.isField(fa.X.Type(), fa.Field, "gopkg.in/irc.v4.Message", "Prefix") && (p.ap(fa.X, c) == msg || p.ap(fa.X, c) == p.ap(m, sink))
			}
			return cut
		}, GuardOpts{MaxDepth: 3})
		r.Check(len(bad) == 0, "named-source", key, "%s: the server's name is taken from a message that may have none", p.at(st))
	}
}

// exprName renders a value readably.
func (p *Program) exprName(v ssa.Value) string {
	w, c := p.res(v, nil)
	s := p.ap(w, c)
	if i := strings.LastIndexAny(s, "#."); i >= 0 && strings.HasPrefix(s, "P:") {
		if par := rootParam(w); par != nil {
			rest := ""
			if j := strings.Index(s, "#"); j >= 0 {
				rest = s[j+1:]
				if k := strings.IndexByte(rest, '.'); k >= 0 {
					rest = rest[k:]
				} else {
					rest = ""
				}
			}
			return par.Name() + rest
		}
	}
	switch x := w.(type) {
	case *ssa.Call:
		return p.calleeName(x) + "(..)"
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			return p.calleeName(cl) + "(..)"
		}
	case *ssa.Phi:
		if x.Comment != "" {
			return x.Comment
		}
	}
	return fmt.Sprintf("%T of type %s", w, w.Type())
}

func rootParam(v ssa.Value) *ssa.Parameter {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.Parameter:
			return x
		case *ssa.UnOp:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Field:
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

// lenChecked: every way to ins compares something with the length of base (or
// goes over its elements).
func (p *Program) lenChecked(ins ssa.Instruction, base ssa.Value) bool {
	want, _ := p.res(base, nil)
	about := func(v ssa.Value, c *Ctx) bool {
		hit := false
		p.origins(v, c, sliceOpts{Data: true, Stop: func(v ssa.Value, c *Ctx) bool {
			if call, ok := v.(*ssa.Call); ok && p.calleeName(call) == "builtin.len" {
				w, _ := p.res(call.Call.Args[0], c)
				if w == want || p.ap(w, c) == p.ap(want, nil) {
					hit = true
				}
				return true
			}
			return hit
		}})
		return hit
	}
	cut := &Cut{Local: true, Atom: func(cond ssa.Value, pol bool, c *Ctx) bool {
		a, b, op, ok := cmpFact(cond, pol)
		if !ok || op == token.NEQ {
			return false
		}
		// The length itself, not a part of the sum it is in.
		return about(a, c) || about(b, c)
	}}
	return len(p.Unguarded(ins, fixed(cut), GuardOpts{MaxDepth: 2})) == 0
}
