package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// A located value: v, evaluated in context ctx, where it is used by site (an
// instruction of the function the value lives in).
type located struct {
	v    ssa.Value
	ctx  *Ctx
	site ssa.Instruction
}

// lift resolves v, used at site, to the call sites that supply it when it is a
// parameter (transitively), so that each result is a value computed in the
// function that decides it.
func (p *Program) lift(v ssa.Value, site ssa.Instruction) []located {
	var out []located
	var rec func(v ssa.Value, site ssa.Instruction, links []chainLink, depth int)
	rec = func(v ssa.Value, site ssa.Instruction, links []chainLink, depth int) {
		rv, _ := p.res(v, nil)
		par, ok := rv.(*ssa.Parameter)
		if !ok || depth > 8 {
			out = append(out, located{rv, nil, site})
			return
		}
		callers := p.callers[par.Parent()]
		if len(callers) == 0 {
			out = append(out, located{rv, nil, site})
			return
		}
		idx := paramIndex(par)
		for _, ci := range callers {
			args := callArgs(ci)
			i := idx
			if mc, ok := ci.Common().Value.(*ssa.MakeClosure); ok && p.thunkTarget(mc.Fn.(*ssa.Function)) != nil {
				if i == 0 {
					rec(mc.Bindings[0], ci, nil, depth+1)
					continue
				}
				i--
			} else if !ci.Common().IsInvoke() && len(args) == len(par.Parent().Params)-1 {
				// a method value called dynamically
				i--
			}
			if i < 0 || i >= len(args) {
				out = append(out, located{rv, nil, site})
				continue
			}
			rec(args[i], ci, nil, depth+1)
		}
	}
	rec(v, site, nil, 0)
	return out
}

// A leaf is one value a located value may take, with the reason it is taken:
// the phi edges chosen on the way, or the return of a callee.
type leaf struct {
	v    ssa.Value
	ctx  *Ctx
	from *ssa.BasicBlock // block in which the choice was made (predecessor of the phi, or block of the return)
	env  map[*ssa.Phi]ssa.Value
	into *ssa.BasicBlock // phi block
	ret  *ssa.Return     // set when the leaf is a callee's result
	site ssa.Instruction // the user in the function holding into/ret's call
	up   *leaf           // outer choice
}

// leaves expands phis, local cells and results of repository calls.
func (p *Program) leaves(l located, stop func(v ssa.Value, c *Ctx) bool) []leaf {
	var out []leaf
	type key struct {
		v ssa.Value
		k string
	}
	seen := map[key]bool{}
	var rec func(v ssa.Value, c *Ctx, site ssa.Instruction, up *leaf, d int)
	rec = func(v ssa.Value, c *Ctx, site ssa.Instruction, up *leaf, d int) {
		v, c = p.res(v, c)
		k := key{v, p.ctxKey(c)}
		if d > 12 || stop != nil && stop(v, c) {
			if up != nil {
				n := *up
				n.v, n.ctx = v, c
				n.up = up
				out = append(out, n)
				return
			}
			out = append(out, leaf{v: v, ctx: c, site: site, up: up})
			return
		}
		switch x := v.(type) {
		case *ssa.Phi:
			if seen[k] {
				return
			}
			seen[k] = true
			for i, e := range x.Edges {
				if e == ssa.Value(x) {
					continue
				}
				env := map[*ssa.Phi]ssa.Value{}
				for _, ins := range x.Block().Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					env[ph] = ph.Edges[i]
				}
				nl := &leaf{v: e, ctx: c, from: x.Block().Preds[i], env: env, into: x.Block(), site: site, up: up}
				rec(e, c, x.Block().Preds[i].Instrs[len(x.Block().Preds[i].Instrs)-1], nl, d+1)
			}
			return
		case *ssa.Call, *ssa.Extract:
			var call *ssa.Call
			idx := 0
			if cl, ok := x.(*ssa.Call); ok {
				call = cl
			} else {
				ex := x.(*ssa.Extract)
				cl, ok := ex.Tuple.(*ssa.Call)
				if !ok {
					break
				}
				call, idx = cl, ex.Index
			}
			callees := p.callees[call]
			if len(callees) == 0 || c.depth() > maxCallDepth || call.Common().IsInvoke() {
				break
			}
			if seen[k] {
				return
			}
			seen[k] = true
			for _, g := range callees {
				for _, b := range g.Blocks {
					r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
					if !ok || idx >= len(r.Results) {
						continue
					}
					nc := mkCtx(Ctx{up: c, call: call})
					nl := &leaf{v: r.Results[idx], ctx: nc, from: b, ret: r, site: call, up: up}
					rec(r.Results[idx], nc, r, nl, d+1)
				}
			}
			return
		case *ssa.UnOp:
			if x.Op == token.MUL {
				cell := x.X
				cc := c
				if fv, ok := cell.(*ssa.FreeVar); ok {
					if b := p.binding(fv); b != nil {
						cell, cc = b, p.parentCtx(fv.Parent(), c)
					}
				}
				if al, ok := cell.(*ssa.Alloc); ok {
					sts := p.allCellStores(al)
					if len(sts) > 0 {
						if seen[k] {
							return
						}
						seen[k] = true
						for _, st := range sts {
							sc := p.storeCtx(al, cc, st)
							rec(st.Val, sc, st, up, d+1)
						}
						return
					}
				}
			}
		}
		if up != nil {
			n := *up
			n.v, n.ctx = v, c
			n.up = up
			out = append(out, n)
			return
		}
		out = append(out, leaf{v: v, ctx: c, site: site})
	}
	rec(l.v, l.ctx, l.site, nil, 0)
	return out
}

// leafReaches reports whether the choice that selects the leaf can be followed
// by its use without passing a cut: the selecting block is reachable from its
// function's entry, and the use is reachable from it under the chosen edges.
func (p *Program) leafReaches(lf *leaf, cut *Cut) bool {
	for l := lf; l != nil; l = l.up {
		if l.from == nil {
			continue
		}
		if !p.blockEndReach(l.from, ctxOf(l), cut, 0) {
			return false
		}
		if l.into != nil {
			if p.edgeCut(l.from, l.into, ctxOf(l), cut, 0) {
				return false
			}
			if l.site != nil && l.site.Parent() == l.into.Parent() {
				ti := indexOf(l.site)
				cc := cut.with(l.env)
				if _, ok := p.search(l.into, 0, l.site.Block(), ti, ctxOf(l), cc, 0); !ok {
					return false
				}
			}
		}
		if l.ret != nil {
			if p.retErrNonNil(l.ret) {
				return false
			}
			for _, e := range l.ret.Results {
				if isErrorType(e.Type()) {
					can := func(r ssa.Value) tri { return triNil(p, r, true) }
					if p.resultEst(e, can, true, true, ctxOf(l), cut, 0) {
						return false
					}
				}
			}
		}
	}
	return true
}

// ctxOf gives the context the choice itself is made in.
func ctxOf(l *leaf) *Ctx {
	if l.ret != nil {
		c := l.ctx
		for c != nil {
			if c.call == l.site {
				return c
			}
			c = c.up
		}
		return l.ctx
	}
	return l.ctx
}

func indexOf(ins ssa.Instruction) int {
	for i, x := range ins.Block().Instrs {
		if x == ins {
			return i
		}
	}
	return len(ins.Block().Instrs)
}

// retErrNonNil: the return certainly reports an error.
func (p *Program) retErrNonNil(r *ssa.Return) bool {
	for _, v := range r.Results {
		if isErrorType(v.Type()) && triNil(p, v, true) == no {
			return true
		}
	}
	return false
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

// An Origin is a root of a backward slice.
type Origin struct {
	V   ssa.Value
	Ctx *Ctx
}

type sliceOpts struct {
	// Through: follow this call's arguments (external call) and continue.
	Through func(name string, call ssa.CallInstruction) []ssa.Value
	// Stop: treat v as a root.
	Stop func(v ssa.Value, c *Ctx) bool
	// Fields: follow loads of repository struct fields to every store of the field.
	Fields bool
	// Up: follow parameters to all callers when the context is unknown.
	Up bool
	// Data: follow arithmetic, concatenation, slicing and element access.
	Data bool
}

// origins returns the roots v may be computed from.
// filled calls each with what is stored into the elements of a new slice.
func (p *Program) filled(ms *ssa.MakeSlice, each func(ssa.Value)) bool {
	n := 0
	for _, r := range *ms.Referrers() {
		switch y := r.(type) {
		case *ssa.IndexAddr:
			for _, rr := range *y.Referrers() {
				if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(y) {
					each(st.Val)
					n++
				}
			}
		case *ssa.Call:
			if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && y.Call.Args[0] == ssa.Value(ms) {
				each(y.Call.Args[1])
				n++
			}
		}
	}
	return n > 0
}

func (p *Program) origins(v ssa.Value, c *Ctx, o sliceOpts) []Origin {
	var out []Origin
	type key struct {
		v ssa.Value
		k string
	}
	seen := map[key]bool{}
	var rec func(v ssa.Value, c *Ctx, d int)
	rec = func(v ssa.Value, c *Ctx, d int) {
		if v == nil {
			return
		}
		v, c = p.res(v, c)
		k := key{v, p.ctxKey(c)}
		if seen[k] {
			return
		}
		seen[k] = true
		if d > 60 || o.Stop != nil && o.Stop(v, c) {
			out = append(out, Origin{v, c})
			return
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e, c, d+1)
			}
			return
		case *ssa.Parameter:
			if o.Up && c == nil {
				callers := p.callers[x.Parent()]
				if len(callers) > 0 {
					idx := paramIndex(x)
					for _, ci := range callers {
						args := callArgs(ci)
						i := idx
						if mc, ok := ci.Common().Value.(*ssa.MakeClosure); ok && p.thunkTarget(mc.Fn.(*ssa.Function)) != nil {
							if i == 0 {
								rec(mc.Bindings[0], nil, d+1)
								continue
							}
							i--
						} else if !ci.Common().IsInvoke() && len(args) == len(x.Parent().Params)-1 {
							i--
						}
						if i >= 0 && i < len(args) {
							rec(args[i], nil, d+1)
						}
					}
					return
				}
			}
		case *ssa.BinOp:
			if o.Data {
				rec(x.X, c, d+1)
				rec(x.Y, c, d+1)
				return
			}
		case *ssa.Slice:
			if o.Data {
				rec(x.X, c, d+1)
				return
			}
		case *ssa.Index:
			if o.Data {
				rec(x.X, c, d+1)
				return
			}
		case *ssa.Lookup:
			if o.Data {
				rec(x.X, c, d+1)
				return
			}
		case *ssa.Next:
			if o.Data {
				rec(x.Iter, c, d+1)
				return
			}
		case *ssa.Range:
			if o.Data {
				rec(x.X, c, d+1)
				return
			}
		case *ssa.Field:
			if o.Data {
				rec(x.X, c, d+1)
				return
			}
		case *ssa.MakeSlice:
			if o.Data && p.filled(x, func(e ssa.Value) { rec(e, c, d+1) }) {
				return
			}
		case *ssa.Alloc:
			if o.Data {
				// an array/struct built here: everything stored into it
				n := 0
				for _, r := range *x.Referrers() {
					switch y := r.(type) {
					case *ssa.Store:
						if y.Addr == ssa.Value(x) {
							rec(y.Val, c, d+1)
							n++
						}
					case *ssa.IndexAddr:
						for _, rr := range *y.Referrers() {
							if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(y) {
								rec(st.Val, c, d+1)
								n++
							}
						}
					case *ssa.FieldAddr:
						for _, rr := range *y.Referrers() {
							if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(y) {
								rec(st.Val, c, d+1)
								n++
							}
						}
					}
				}
				if n > 0 {
					return
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if al := p.cell(x.X); al != nil {
					sts := p.allCellStores(al)
					if len(sts) > 0 {
						for _, st := range sts {
							sc := c
							if st.Parent() != x.Parent() {
								sc = p.storeCtx(al, p.cellCtx(x.X, c), st)
							}
							rec(st.Val, sc, d+1)
						}
						return
					}
				}
				if ia, ok := x.X.(*ssa.IndexAddr); ok && o.Data {
					rec(ia.X, c, d+1)
					return
				}
				if al, ok := x.X.(*ssa.Alloc); ok && o.Data && len(*al.Referrers()) > 1 {
					rec(al, c, d+1)
					return
				}
				if fa, ok := x.X.(*ssa.FieldAddr); ok && o.Fields {
					fv := fieldVar(fa.X.Type(), fa.Field)
					if fv != nil && p.inRepo(fv.Pkg()) && len(p.stores[fv]) > 0 {
						for _, st := range p.stores[fv] {
							rec(st.Val, nil, d+1)
						}
						return
					}
				}
			} else if x.Op != token.ARROW && o.Data {
				rec(x.X, c, d+1)
				return
			}
		case *ssa.Extract:
			switch t := x.Tuple.(type) {
			case *ssa.Call:
				if p.intoCallee(t, x.Index, c, func(rv ssa.Value, nc *Ctx) { rec(rv, nc, d+1) }) {
					return
				}
				if o.Through != nil {
					if args := o.Through(p.calleeName(t), t); args != nil {
						for _, a := range args {
							rec(a, c, d+1)
						}
						return
					}
				}
			case *ssa.Lookup:
				if o.Data && x.Index == 0 {
					rec(t.X, c, d+1)
					return
				}
			case *ssa.Next:
				if o.Data {
					rec(t.Iter, c, d+1)
					return
				}
			}
		case *ssa.Call:
			if b, ok := x.Common().Value.(*ssa.Builtin); ok && o.Data {
				switch b.Name() {
				case "append", "min", "max", "copy":
					for _, a := range x.Common().Args {
						rec(a, c, d+1)
					}
					return
				}
			}
			if o.Through != nil {
				if args := o.Through(p.calleeName(x), x); args != nil {
					for _, a := range args {
						rec(a, c, d+1)
					}
					return
				}
			}
			if p.intoCallee(x, 0, c, func(rv ssa.Value, nc *Ctx) { rec(rv, nc, d+1) }) {
				return
			}
		}
		out = append(out, Origin{v, c})
	}
	rec(v, c, 0)
	return out
}

func (p *Program) intoCallee(call *ssa.Call, idx int, c *Ctx, f func(rv ssa.Value, nc *Ctx)) bool {
	callees := p.callees[call]
	if len(callees) == 0 || c.depth() > maxCallDepth+4 {
		return false
	}
	for _, g := range callees {
		for x := c; x != nil; x = x.up {
			if x.call == ssa.CallInstruction(call) {
				return false
			}
		}
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
				f(r.Results[idx], mkCtx(Ctx{up: c, call: call}))
			}
		}
	}
	return true
}

// storesTo returns the stores into a named field, composite literals included.
func (p *Program) storesTo(typ, field string) []*ssa.Store {
	var out []*ssa.Store
	for fv, sts := range p.stores {
		if fv.Name() != field {
			continue
		}
		for _, st := range sts {
			fa := st.Addr.(*ssa.FieldAddr)
			if p.typeName(fa.X.Type()) == typ {
				out = append(out, st)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// isCallTo: v is (component idx of) the result of a call to one of the named
// functions.
func (p *Program) isCallTo(v ssa.Value, idx int, names ...string) (*ssa.Call, bool) {
	var call *ssa.Call
	switch x := v.(type) {
	case *ssa.Call:
		if idx > 0 {
			return nil, false
		}
		call = x
	case *ssa.Extract:
		c, ok := x.Tuple.(*ssa.Call)
		if !ok || idx >= 0 && x.Index != idx {
			return nil, false
		}
		call = c
	default:
		return nil, false
	}
	n := p.calleeName(call)
	for _, w := range names {
		if n == w {
			return call, true
		}
	}
	return nil, false
}

func errResult(call *ssa.Call) int {
	res := call.Common().Signature().Results()
	for i := 0; i < res.Len(); i++ {
		if isErrorType(res.At(i).Type()) {
			return i
		}
	}
	return -1
}

// errOf: v is the error result of a call; returns it.
func (p *Program) errOf(v ssa.Value) *ssa.Call {
	switch x := v.(type) {
	case *ssa.Call:
		if isErrorType(x.Type()) {
			return x
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok && isErrorType(x.Type()) {
			return c
		}
	}
	return nil
}

// cellCtx is the context of the function owning the cell v (an alloc, or a
// free variable bound to one), seen from context c.
func (p *Program) cellCtx(v ssa.Value, c *Ctx) *Ctx {
	for i := 0; i < 10; i++ {
		fv, ok := v.(*ssa.FreeVar)
		if !ok {
			return c
		}
		b := p.binding(fv)
		if b == nil {
			return nil
		}
		v, c = b, p.parentCtx(fv.Parent(), c)
	}
	return nil
}

// storeCtx is a context for a store to a cell of a function running in
// context c: the same, or for a store by a closure made there, the closure's.
func (p *Program) storeCtx(al *ssa.Alloc, c *Ctx, st ssa.Instruction) *Ctx {
	var chain []*ssa.Function
	f := st.Parent()
	for f != nil && f != al.Parent() {
		chain = append(chain, f)
		f = f.Parent()
	}
	if f == nil {
		return nil
	}
	for i := len(chain) - 1; i >= 0; i-- {
		mc := closureOf(p, chain[i])
		if mc == nil {
			return nil
		}
		c = mkCtx(Ctx{mc: mc, up: c})
	}
	return c
}
