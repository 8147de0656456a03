package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ctx is a call string: the current function was entered through call, which
// lies in a function whose own context is up. A nil Ctx knows nothing about
// the caller.
type Ctx struct {
	up   *Ctx
	call ssa.CallInstruction // nil when fn is a closure reached through its creation site
	mc   *ssa.MakeClosure
	use  ssa.Instruction // creation site of a closure that captures nothing
}

func (c *Ctx) depth() int {
	n := 0
	for ; c != nil; c = c.up {
		n++
	}
	return n
}

var ctxs = map[Ctx]*Ctx{}
var ctxKeys = map[*Ctx]string{}

// mkCtx returns the one Ctx equal to c, so that contexts compare by address.
func mkCtx(c Ctx) *Ctx {
	if x := ctxs[c]; x != nil {
		return x
	}
	x := &c
	ctxs[c] = x
	return x
}

// args of a call with the receiver first for invoke mode.
func callArgs(ci ssa.CallInstruction) []ssa.Value {
	c := ci.Common()
	if c.IsInvoke() {
		return append([]ssa.Value{c.Value}, c.Args...)
	}
	return c.Args
}

// res strips conversions and resolves parameters, captured variables and
// single-assignment locals to the value they stand for.
func (p *Program) res(v ssa.Value, c *Ctx) (ssa.Value, *Ctx) {
	for i := 0; i < 50; i++ {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.TypeAssert:
			if x.CommaOk {
				return v, c
			}
			v = x.X
		case *ssa.Extract:
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
				v = ta.X
				continue
			}
			return v, c
		case *ssa.Parameter:
			if c == nil || c.call == nil {
				return v, c
			}
			idx := paramIndex(x)
			args := callArgs(c.call)
			// a bound method or closure call passes no receiver among args
			if mc, ok := c.call.Common().Value.(*ssa.MakeClosure); ok && p.thunkTarget(mc.Fn.(*ssa.Function)) != nil {
				if idx == 0 {
					v, c = mc.Bindings[0], c.up
					continue
				}
				idx--
			}
			if idx < 0 || idx >= len(args) {
				return v, c
			}
			v, c = args[idx], c.up
		case *ssa.FreeVar:
			b := p.binding(x)
			if b == nil {
				return v, c
			}
			v = b
			c = p.parentCtx(x.Parent(), c)
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v, c
			}
			al := p.cell(x.X)
			if al == nil {
				return v, c
			}
			cc := p.cellCtx(x.X, c)
			st := p.allCellStores(al)
			if len(st) != 1 {
				return v, c
			}
			if st[0].Parent() != al.Parent() || p.exposed(al) {
				return v, c
			}
			v, c = st[0].Val, cc
		case *ssa.Phi:
			// all edges equal
			var same ssa.Value
			for _, e := range x.Edges {
				if e == v {
					continue
				}
				if same == nil {
					same = e
				} else if same != e {
					return v, c
				}
			}
			if same == nil {
				return v, c
			}
			v = same
		default:
			return v, c
		}
	}
	return v, c
}

// allCellStores returns the stores into a local variable, captured or not.
func (p *Program) allCellStores(al *ssa.Alloc) []*ssa.Store {
	if s, ok := p.cellStor[al]; ok {
		return s
	}
	s := p.findCellStores(al)
	if p.cellStor == nil {
		p.cellStor = map[*ssa.Alloc][]*ssa.Store{}
	}
	p.cellStor[al] = s
	return s
}

func (p *Program) findCellStores(al *ssa.Alloc) []*ssa.Store {
	out := append([]*ssa.Store(nil), p.allocStor[al]...)
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		for _, a := range fn.AnonFuncs {
			for _, fv := range a.FreeVars {
				if p.cell(fv) == al {
					out = append(out, p.allocStor[fv]...)
				}
			}
			visit(a)
		}
	}
	if al.Heap {
		visit(al.Parent())
	}
	return out
}

// exposed: the address of a variable is given to a function, which may write it.
func (p *Program) exposed(al *ssa.Alloc) bool {
	if v, ok := p.exposedMemo[al]; ok {
		return v
	}
	if p.exposedMemo == nil {
		p.exposedMemo = map[*ssa.Alloc]bool{}
	}
	var refs func(v ssa.Value) bool
	refs = func(v ssa.Value) bool {
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.MakeInterface:
				return true
			case *ssa.Store:
				if x.Val == v {
					return true
				}
			case ssa.CallInstruction:
				for _, a := range x.Common().Args {
					if a == v {
						if f := x.Common().StaticCallee(); f == nil || isString(v.Type().Underlying().(*types.Pointer).Elem()) || !p.repoFn(f) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	r := refs(al)
	if !r && al.Heap {
		var visit func(fn *ssa.Function)
		visit = func(fn *ssa.Function) {
			for _, a := range fn.AnonFuncs {
				for _, fv := range a.FreeVars {
					if p.cell(fv) == al && refs(fv) {
						r = true
					}
				}
				visit(a)
			}
		}
		visit(al.Parent())
	}
	p.exposedMemo[al] = r
	return r
}

// cell follows a captured variable to its allocation.
func (p *Program) cell(v ssa.Value) *ssa.Alloc {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FreeVar:
			b := p.binding(x)
			if b == nil {
				return nil
			}
			v = b
		default:
			return nil
		}
	}
	return nil
}

// parentCtx returns the context of the function enclosing closure fn, when the
// call string passes through it.
func (p *Program) parentCtx(fn *ssa.Function, c *Ctx) *Ctx {
	if c == nil {
		return nil
	}
	if c.mc != nil || c.use != nil {
		return c.up
	}
	if c.call != nil && c.call.Parent() == fn.Parent() {
		return c.up
	}
	// the closure was called from elsewhere; look for the parent in the chain
	for x := c; x != nil; x = x.up {
		if x.call != nil && x.call.Parent() == fn.Parent() {
			return x.up
		}
	}
	return nil
}

func paramIndex(x *ssa.Parameter) int {
	for i, q := range x.Parent().Params {
		if q == x {
			return i
		}
	}
	return -1
}

// ap renders a value as an access path. Two equal paths denote the same object
// provided nothing reassigns the fields in between.
func (p *Program) ap(v ssa.Value, c *Ctx) string {
	return p.apn(v, c, 0)
}

func (p *Program) apn(v ssa.Value, c *Ctx, d int) string {
	if d > 20 {
		return "..."
	}
	v, c = p.res(v, c)
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return "K:nil"
		}
		return "K:" + x.Value.ExactString()
	case *ssa.Global:
		return "G:" + x.Name()
	case *ssa.Parameter:
		return fmt.Sprintf("P:%s#%d", p.fnID(x.Parent()), paramIndex(x))
	case *ssa.FreeVar:
		return fmt.Sprintf("F:%s:%s", p.fnID(x.Parent()), x.Name())
	case *ssa.FieldAddr:
		fv := fieldVar(x.X.Type(), x.Field)
		return p.apn(x.X, c, d+1) + "." + fv.Name()
	case *ssa.Field:
		fv := fieldVar(x.X.Type(), x.Field)
		return p.apn(x.X, c, d+1) + "." + fv.Name()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return p.apn(x.X, c, d+1)
		}
		return x.Op.String() + p.apn(x.X, c, d+1)
	case *ssa.Alloc:
		return fmt.Sprintf("A:%s:%d", p.fnID(x.Parent()), x.Pos())
	case *ssa.IndexAddr:
		return p.apn(x.X, c, d+1) + "[" + p.apn(x.Index, c, d+1) + "]"
	case *ssa.Index:
		return p.apn(x.X, c, d+1) + "[" + p.apn(x.Index, c, d+1) + "]"
	case *ssa.Extract:
		return p.apn(x.Tuple, c, d+1) + fmt.Sprintf("#%d", x.Index)
	case *ssa.Function:
		return "FN:" + p.fnID(x)
	case *ssa.Lookup:
		if !x.CommaOk {
			return p.apn(x.X, c, d+1) + "[" + p.apn(x.Index, c, d+1) + "]"
		}
	case *ssa.Call:
		if p.calleeName(x) == "gopkg.in/irc.v4.Message.Copy" {
			return p.apn(x.Common().Args[0], c, d+1)
		}
	}
	return fmt.Sprintf("V:%s:%s:%d@%s", p.fnID(v.Parent()), v.Name(), v.Pos(), p.ctxKey(c))
}

func (p *Program) ctxKey(c *Ctx) string {
	if c == nil {
		return ""
	}
	if s, ok := ctxKeys[c]; ok {
		return s
	}
	s := "/c"
	if c.call != nil {
		s = fmt.Sprintf("/%d", c.call.Pos())
	}
	s += p.ctxKey(c.up)
	ctxKeys[c] = s
	return s
}

// loadOf reports whether v (resolved) is a read of the named field of the
// named type ("pkgrel.Type"), and returns the base object.
func (p *Program) loadOf(v ssa.Value, c *Ctx, typ, field string) (base ssa.Value, bc *Ctx, ok bool) {
	v, c = p.res(v, c)
	if u, isu := v.(*ssa.UnOp); isu && u.Op == token.MUL {
		v = u.X
		if fa, isf := v.(*ssa.FieldAddr); isf {
			if p.isField(fa.X.Type(), fa.Field, typ, field) {
				return fa.X, c, true
			}
		}
		return nil, nil, false
	}
	if f, isf := v.(*ssa.Field); isf {
		if p.isField(f.X.Type(), f.Field, typ, field) {
			return f.X, c, true
		}
	}
	return nil, nil, false
}

func (p *Program) isField(t types.Type, i int, typ, field string) bool {
	fv := fieldVar(t, i)
	return fv != nil && fv.Name() == field && p.typeName(t) == typ
}

// typeName is "pkgrel.Name" for a (pointer to a) named type; the root package
// is "soju".
func (p *Program) typeName(t types.Type) string {
	t = types.Unalias(t)
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if _, named := t.(*types.Named); !named {
			t = types.Unalias(pt.Elem())
		}
	}
	n, ok := t.(*types.Named)
	if !ok {
		return t.String()
	}
	return p.objName(n.Obj())
}

func (p *Program) objName(o types.Object) string {
	if o.Pkg() == nil {
		return o.Name()
	}
	path := o.Pkg().Path()
	if p.inRepo(o.Pkg()) {
		path = strings.TrimPrefix(strings.TrimPrefix(path, p.Mod), "/")
		if path == "" {
			path = "soju"
		}
	}
	return path + "." + o.Name()
}

// calleeName names the target of a call: "pkg.Func", "pkg.Type.Method" for
// static calls, "pkg.Iface.Method" for interface calls, "" for dynamic ones.
func (p *Program) calleeName(ci ssa.CallInstruction) string {
	c := ci.Common()
	if c.IsInvoke() {
		return p.typeName(c.Value.Type()) + "." + c.Method.Name()
	}
	return p.fnName(c.Value)
}

func (p *Program) fnName(v ssa.Value) string {
	switch f := v.(type) {
	case *ssa.Builtin:
		return "builtin." + f.Name()
	case *ssa.MakeClosure:
		return p.fnName(f.Fn)
	case *ssa.Function:
		for p.outer[f] != nil {
			f = p.outer[f]
		}
		if f.Parent() != nil {
			return p.fnID(f)
		}
		name := f.Name()
		if o := f.Origin(); o != nil {
			name = o.Name()
		}
		if f.Synthetic != "" {
			if obj, ok := f.Object().(*types.Func); ok {
				name = obj.Name()
				if r := obj.Type().(*types.Signature).Recv(); r != nil {
					return p.pkgOf(f) + "." + recvName(r.Type()) + "." + name
				}
			}
		}
		if r := f.Signature.Recv(); r != nil {
			name = recvName(r.Type()) + "." + name
		}
		return p.pkgOf(f) + "." + name
	}
	return ""
}

func (p *Program) pkgOf(f *ssa.Function) string {
	pkg := fnPkg(f)
	if pkg == nil {
		return ""
	}
	if p.inRepo(pkg) {
		rel := strings.TrimPrefix(strings.TrimPrefix(pkg.Path(), p.Mod), "/")
		if rel == "" {
			rel = "soju"
		}
		return rel
	}
	return pkg.Path()
}

// A Cut is what a rule accepts as discharging its obligation on a path: a
// branch fact or an instruction.
type Cut struct {
	Atom  func(cond ssa.Value, pol bool, c *Ctx) bool
	Instr func(ins ssa.Instruction, c *Ctx) bool
	// Nil: knowing that v is nil (isNil) or non-nil discharges.
	Nil func(v ssa.Value, isNil bool, c *Ctx) bool

	// Local: do not look for cuts inside called functions (only in conditions).
	Local bool

	// Enter, if set, reports whether a called function may contain a cut.
	Enter func(g *ssa.Function) bool

	env map[*ssa.Phi]ssa.Value // chosen edges

	facts []resFact // what is known about results of calls

	from ssa.Instruction // paths start after this instruction, not at the function's entry

	memo map[estKey]estVal
}

type estKey struct {
	cond ssa.Value
	pol  bool
	c    *Ctx
}

type estVal struct {
	ok bool
	d  int // depth a negative answer was found at
}

func (cut *Cut) with(env map[*ssa.Phi]ssa.Value) *Cut {
	n := *cut
	n.memo = nil
	n.env = env
	return &n
}

func (cut *Cut) sub(v ssa.Value) ssa.Value {
	for i := 0; i < 4; i++ {
		ph, ok := v.(*ssa.Phi)
		if !ok {
			return v
		}
		e, ok := cut.env[ph]
		if !ok {
			return v
		}
		v = e
	}
	return v
}

// infeasible reports whether cond cannot have truth value pol, given the phi
// edges chosen in the cut's environment.
func (p *Program) infeasible(cond ssa.Value, pol bool, cut *Cut) bool {
	cond = cut.sub(cond)
	if triBool(cond, pol) == no {
		return true
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return p.infeasible(x.X, !pol, cut)
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return false
		}
		eq := pol == (x.Op == token.EQL)
		a, b := cut.sub(x.X), cut.sub(x.Y)
		if k, ok := a.(*ssa.Const); ok && k.Value == nil {
			a, b = b, a
		}
		if k, ok := b.(*ssa.Const); ok {
			if k.Value == nil {
				if _, basic := k.Type().Underlying().(*types.Basic); !basic || k.Type() == types.Typ[types.UntypedNil] {
					return triNil(p, a, eq) == no
				}
			} else if ka, ok := a.(*ssa.Const); ok && ka.Value != nil && ka.Value.Kind() == k.Value.Kind() {
				return constant.Compare(ka.Value, token.EQL, k.Value) != eq
			}
		}
	}
	return false
}

const maxCallDepth = 6

// establishes reports whether cond having truth value pol implies the fact.
func (p *Program) establishes(cond ssa.Value, pol bool, c *Ctx, cut *Cut) bool {
	return p.est(cond, pol, c, cut, 0)
}

func (p *Program) est(cond ssa.Value, pol bool, c *Ctx, cut *Cut, d int) bool {
	if d > 12 {
		return false
	}
	cond = cut.sub(cond)
	rv, rc := p.res(cond, c)
	if rv != cond || rc != c {
		return p.est(rv, pol, rc, cut, d+1)
	}
	k := estKey{cond, pol, c}
	if m, ok := cut.memo[k]; ok && (m.ok || d >= m.d) {
		return m.ok
	}
	if cut.memo == nil {
		cut.memo = map[estKey]estVal{}
	}
	cut.memo[k] = estVal{false, d}
	ok := p.est1(cond, pol, c, cut, d)
	cut.memo[k] = estVal{ok, d}
	return ok
}

func (p *Program) est1(cond ssa.Value, pol bool, c *Ctx, cut *Cut, d int) bool {
	if cut.Atom != nil && cut.Atom(cond, pol, c) {
		return true
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return p.est(x.X, !pol, c, cut, d+1)
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return false
		}
		eq := pol == (x.Op == token.EQL)
		for _, o := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			k, ok := o[1].(*ssa.Const)
			if !ok {
				continue
			}
			if k.Value == nil { // nil
				return p.resultEst(o[0], func(r ssa.Value) tri { return triNil(p, r, eq) }, eq, true, c, cut, d+1)
			}
			if k.Value.Kind() == constant.Bool {
				return p.est(o[0], constant.BoolVal(k.Value) == eq, c, cut, d+1)
			}
			if ph, ok := cut.sub(o[0]).(*ssa.Phi); ok {
				return p.phiEst(ph, c, cut, d, func(e ssa.Value) tri {
					ke, ok := e.(*ssa.Const)
					if !ok || ke.Value == nil || ke.Value.Kind() != k.Value.Kind() {
						return maybe
					}
					if constant.Compare(ke.Value, token.EQL, k.Value) == eq {
						return yes
					}
					return no
				}, func(ssa.Value) bool { return false })
			}
		}
	case *ssa.Phi:
		return p.phiEst(x, c, cut, d, func(e ssa.Value) tri { return triBool(e, pol) },
			func(e ssa.Value) bool { return p.est(e, pol, c, cut, d+1) })
	case *ssa.Call, *ssa.Extract:
		return p.resultEst(cond, func(r ssa.Value) tri { return triBool(r, pol) }, pol, false, c, cut, d+1)
	}
	return false
}

type tri int

const (
	no tri = iota
	maybe
	yes
)

func triBool(v ssa.Value, pol bool) tri {
	if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
		if constant.BoolVal(k.Value) == pol {
			return yes
		}
		return no
	}
	return maybe
}

// triNil: can v be nil (want=true) or non-nil (want=false)?
func triNil(p *Program, v ssa.Value, want bool) tri {
	isNil := maybe
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			isNil = yes
		} else {
			isNil = no
		}
	case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeClosure, *ssa.Function, *ssa.FieldAddr, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice:
		isNil = no
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && isErrorType(x.Type()) && g.Object() != nil {
			isNil = no // a package-level error value
		}
	case *ssa.Call:
		switch p.calleeName(x) {
		case "fmt.Errorf", "errors.New":
			isNil = no
		case "soju.newChatHistoryError", "soju.newInvalidUsernameOrPasswordError":
			isNil = no
		default:
			if f := x.Common().StaticCallee(); f != nil && isErrorType(x.Type()) && f.Blocks != nil && alwaysNonNil(p, f, 0) {
				isNil = no
			}
		}
	}
	if isNil == maybe {
		return maybe
	}
	if (isNil == yes) == want {
		return yes
	}
	return no
}

func alwaysNonNil(p *Program, f *ssa.Function, d int) bool {
	if d > 3 {
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if r, ok := ins.(*ssa.Return); ok {
				n++
				if len(r.Results) != 1 || triNil(p, r.Results[0], true) != no {
					return false
				}
			}
		}
	}
	return n > 0
}

var errorType = types.Universe.Lookup("error").Type()

func isErrorType(t types.Type) bool { return types.Identical(t, errorType) }

func (p *Program) phiEst(x *ssa.Phi, c *Ctx, cut *Cut, d int, can func(ssa.Value) tri, rec func(ssa.Value) bool) bool {
	if d > 8 {
		return false
	}
	for i, e := range x.Edges {
		if e == ssa.Value(x) {
			continue
		}
		if can(e) == no {
			continue
		}
		if rec(e) {
			continue
		}
		// the edge from pred i itself must be cut
		pred := x.Block().Preds[i]
		if p.edgeCut(pred, x.Block(), c, cut, d) {
			continue
		}
		if cut.from != nil && c == nil && cut.from.Parent() == x.Parent() {
			f := cut.from
			_, ok := p.search(f.Block(), indexOf(f)+1, pred, len(pred.Instrs), c, cut, d+1)
			if !ok && x.Block().Dominates(f.Block()) {
				// the choice was made before the start: what was done then does not count
				before := *cut
				before.Instr, before.from, before.memo = nil, nil, nil
				ok = p.blockEndReach(pred, c, &before, d+1)
			}
			if !ok {
				continue
			}
		} else if !p.blockEndReach(pred, c, cut, d+1) {
			continue
		}
		return false
	}
	return true
}

// searchAfter: is instruction ti of block target reachable from after ins?
func (p *Program) searchAfter(ins ssa.Instruction, target *ssa.BasicBlock, ti int, cut *Cut) bool {
	n := *cut
	n.memo = nil
	n.from = ins
	_, ok := p.search(ins.Block(), indexOf(ins)+1, target, ti, nil, &n, 0)
	return ok
}

// resultEst: v is the result of a call; does its result satisfying the
// predicate imply the fact?
func (p *Program) resultEst(v ssa.Value, can func(ssa.Value) tri, pol, isNil bool, c *Ctx, cut *Cut, d int) bool {
	if d > 10 {
		return false
	}
	v, c = p.res(cut.sub(v), c)
	if isNil && cut.Nil != nil && cut.Nil(v, pol, c) {
		return true
	}
	idx := 0
	var call *ssa.Call
	switch x := v.(type) {
	case *ssa.Call:
		call = x
	case *ssa.Extract:
		cl, ok := x.Tuple.(*ssa.Call)
		if !ok {
			return false
		}
		call, idx = cl, x.Index
	case *ssa.Phi:
		return p.phiEst(x, c, cut, d, can, func(e ssa.Value) bool {
			if isNil {
				return p.resultEst(e, can, pol, isNil, c, cut, d+1)
			}
			return p.est(e, pol, c, cut, d+1)
		})
	default:
		return false
	}
	if c.depth() > maxCallDepth {
		return false
	}
	callees := p.callees[call]
	if len(callees) == 0 {
		return false
	}
	for _, g := range callees {
		if cut.Enter != nil && !smallFn(g) && !cut.Enter(g) {
			return false
		}
		nc := mkCtx(Ctx{up: c, call: call})
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				r, ok := ins.(*ssa.Return)
				if !ok || idx >= len(r.Results) {
					continue
				}
				rv := r.Results[idx]
				if can(rv) == no || cut.excluded(call, r) {
					continue
				}
				rcut := cut
				if isNil {
					rcut = p.excluding(cut, rv, !pol, nc)
				}
				if !p.blockEndReach(b, nc, rcut, d+1) {
					continue
				}
				if isNil {
					if p.nilResultEst(rv, can, pol, nc, cut, d+1) {
						continue
					}
				} else if p.est(rv, pol, nc, cut, d+1) {
					continue
				}
				return false
			}
		}
	}
	return true
}

// excluding adds to cut the fact that v is (or is not) nil: used where paths
// with that fact are of no interest.
func (p *Program) excluding(cut *Cut, v ssa.Value, isNil bool, c *Ctx) *Cut {
	v, vc := p.res(v, c)
	if _, ok := v.(*ssa.Const); ok {
		return cut
	}
	k := p.ctxKey(vc)
	n := *cut
	n.memo = nil
	old := cut.Nil
	n.Nil = func(w ssa.Value, wn bool, wc *Ctx) bool {
		if w == v && wn == isNil && p.ctxKey(wc) == k {
			return true
		}
		return old != nil && old(w, wn, wc)
	}
	return &n
}

func (p *Program) nilResultEst(rv ssa.Value, can func(ssa.Value) tri, pol bool, c *Ctx, cut *Cut, d int) bool {
	return p.resultEst(rv, can, pol, true, c, cut, d)
}

// edgeCut reports whether taking the edge from->to establishes the fact.
func (p *Program) edgeCut(from, to *ssa.BasicBlock, c *Ctx, cut *Cut, d int) bool {
	if len(from.Instrs) == 0 {
		return false
	}
	iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || from.Succs[0] == from.Succs[1] {
		return false
	}
	if p.infeasible(iff.Cond, to == from.Succs[0], cut) {
		return true
	}
	if c != nil { // a parameter that is constant in this context
		v, pol := iff.Cond, to == from.Succs[0]
		for {
			u, ok := v.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			v, pol = u.X, !pol
		}
		if w, _ := p.res(v, c); w != nil {
			if k, isk := constBool(w); isk && k != pol {
				return true
			}
		}
	}
	if p.est(iff.Cond, to == from.Succs[0], c, cut, d+1) {
		return true
	}
	// together with what is known about other results of the same call
	f, ok := resultFact(iff.Cond, to == from.Succs[0])
	if !ok {
		return false
	}
	facts := knownResults(from, f.call)
	if len(facts) == 0 {
		return false
	}
	n := *cut
	n.memo = nil
	n.facts = append(append([]resFact{}, cut.facts...), facts...)
	return p.est(iff.Cond, to == from.Succs[0], c, &n, d+1)
}

// A resFact is what a branch says about a result of a call: a boolean, or
// whether it is nil.
type resFact struct {
	call  *ssa.Call
	idx   int
	isNil bool
	pol   bool
}

func resultFact(cond ssa.Value, pol bool) (f resFact, ok bool) {
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, pol = u.X, !pol
	}
	v := cond
	if b, ok := cond.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
		switch {
		case isNilConst(b.Y):
			v = b.X
		case isNilConst(b.X):
			v = b.Y
		default:
			return f, false
		}
		f.isNil = true
		if b.Op == token.NEQ {
			pol = !pol
		}
	}
	ex, ok := v.(*ssa.Extract)
	if !ok {
		return f, false
	}
	call, ok := ex.Tuple.(*ssa.Call)
	if !ok {
		return f, false
	}
	f.call, f.idx, f.pol = call, ex.Index, pol
	return f, true
}

// knownResults: what holds of the results of call wherever b is reached.
func knownResults(b *ssa.BasicBlock, call *ssa.Call) (out []resFact) {
	for d := b; d != nil && d.Idom() != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		pr := d.Preds[0]
		iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
		if !ok || pr.Succs[0] == pr.Succs[1] {
			continue
		}
		if f, ok := resultFact(iff.Cond, pr.Succs[0] == d); ok && f.call == call {
			out = append(out, f)
		}
	}
	return out
}

// excluded: the return contradicts what is known of the call's results.
func (cut *Cut) excluded(call *ssa.Call, r *ssa.Return) bool {
	for _, f := range cut.facts {
		if f.call != call || f.idx >= len(r.Results) {
			continue
		}
		v := r.Results[f.idx]
		if f.isNil {
			if isNilConst(v) && !f.pol {
				return true
			}
			continue
		}
		if k, ok := constBool(v); ok && k != f.pol {
			return true
		}
	}
	return false
}

// ends: the call does not return.
func (p *Program) ends(call *ssa.Call) bool {
	f := call.Call.StaticCallee()
	if f == nil || f.Pkg == nil {
		return false
	}
	switch f.Pkg.Pkg.Path() {
	case "log":
		return strings.HasPrefix(f.Name(), "Fatal") || strings.HasPrefix(f.Name(), "Panic")
	case "os":
		return f.Name() == "Exit"
	case "runtime":
		return f.Name() == "Goexit"
	}
	return false
}

// instrCut reports whether executing ins discharges the obligation.
func (p *Program) instrCut(ins ssa.Instruction, c *Ctx, cut *Cut, d int) bool {
	if cut.Instr != nil && cut.Instr(ins, c) {
		return true
	}
	call, ok := ins.(*ssa.Call)
	if ok && p.ends(call) {
		return true
	}
	if !ok || cut.Local || c.depth() > maxCallDepth || d > 8 {
		return false
	}
	callees := p.callees[call]
	if len(callees) == 0 || call.Common().StaticCallee() == nil && !call.Common().IsInvoke() {
		if _, isClosure := call.Common().Value.(*ssa.MakeClosure); !isClosure {
			return false
		}
	}
	for _, g := range callees {
		if cut.Enter != nil && !cut.Enter(g) {
			return false
		}
		for x := c; x != nil; x = x.up { // recursion
			if x.call != nil && x.call.Parent() == g {
				return false
			}
		}
		nc := mkCtx(Ctx{up: c, call: call})
		any := false
		for _, b := range g.Blocks {
			if len(b.Instrs) == 0 {
				continue
			}
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				any = true
				if p.blockEndReach(b, nc, cut, d+1) {
					return false
				}
			}
		}
		_ = any
	}
	return len(callees) > 0
}

// blockReach: is the start of block b reachable from the entry of its function
// on some path that no cut discharges?
func (p *Program) blockReach(b *ssa.BasicBlock, c *Ctx, cut *Cut, d int) bool {
	_, ok := p.pathTo(b, 0, c, cut, d)
	return ok
}

func (p *Program) blockEndReach(b *ssa.BasicBlock, c *Ctx, cut *Cut, d int) bool {
	_, ok := p.pathTo(b, len(b.Instrs), c, cut, d)
	return ok
}

// reachInstr: is ins reachable from its function's entry avoiding cuts?
func (p *Program) reachInstr(ins ssa.Instruction, c *Ctx, cut *Cut) ([]*ssa.BasicBlock, bool) {
	b := ins.Block()
	for i, x := range b.Instrs {
		if x == ins {
			return p.pathTo(b, i, c, cut, 0)
		}
	}
	return nil, false
}

func (p *Program) pathTo(target *ssa.BasicBlock, idx int, c *Ctx, cut *Cut, d int) ([]*ssa.BasicBlock, bool) {
	fn := target.Parent()
	return p.search(fn.Blocks[0], 0, target, idx, c, cut, d)
}

// strEq: cond compares an access path with a constant string.
func (p *Program) strEq(cond ssa.Value, pol bool) (path, k string, eq, ok bool) {
	for {
		u, isu := cond.(*ssa.UnOp)
		if !isu || u.Op != token.NOT {
			break
		}
		cond, pol = u.X, !pol
	}
	b, isb := cond.(*ssa.BinOp)
	if !isb || b.Op != token.EQL && b.Op != token.NEQ {
		return
	}
	x, y := b.X, b.Y
	s, isk := constString(y)
	if !isk {
		x, y = y, x
		if s, isk = constString(y); !isk {
			return
		}
	}
	if _, isk := constString(x); isk {
		return
	}
	return p.ap(x, nil), s, pol == (b.Op == token.EQL), true
}

// tracked lists the access paths fn compares with constant strings at several
// places; paths through fn on which such comparisons contradict each other are
// not followed.
func (p *Program) tracked(fn *ssa.Function) map[string]bool {
	if t, ok := p.trackMemo[fn]; ok {
		return t
	}
	vals := map[string]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if path, _, _, ok := p.strEq(iff.Cond, true); ok {
			if vals[path] == nil {
				vals[path] = map[ssa.Value]bool{}
			}
			vals[path][iff.Cond] = true
		}
	}
	t := map[string]bool{}
	for k, v := range vals {
		if len(v) > 1 {
			t[k] = true
		}
	}
	if p.trackMemo == nil {
		p.trackMemo = map[*ssa.Function]map[string]bool{}
	}
	p.trackMemo[fn] = t
	return t
}

// strEnv is what a path has established about one access path compared with
// constant strings (the latest one is kept).
type strEnv struct{ path, k string }

// step updates env along an edge; ok is false when the edge contradicts it.
func (p *Program) step(from, to *ssa.BasicBlock, env strEnv, track map[string]bool) (strEnv, bool) {
	if len(track) == 0 {
		return env, true
	}
	iff, isIf := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !isIf || from.Succs[0] == from.Succs[1] {
		return env, true
	}
	path, k, eq, ok := p.strEq(iff.Cond, to == from.Succs[0])
	if !ok || !track[path] {
		return env, true
	}
	if env.path == path {
		if eq != (env.k == k) {
			return env, false
		}
		return env, true
	}
	if eq {
		return strEnv{path, k}, true
	}
	return env, true
}

// search looks for a cut-free path from (start, si) to just before
// (target, ti).
func (p *Program) search(start *ssa.BasicBlock, si int, target *ssa.BasicBlock, ti int, c *Ctx, cut *Cut, d int) ([]*ssa.BasicBlock, bool) {
	type node struct {
		b    *ssa.BasicBlock
		env  strEnv
		prev *node
	}
	type state struct {
		b   *ssa.BasicBlock
		env strEnv
	}
	track := p.tracked(start.Parent())
	seen := map[state]bool{}
	passMemo := map[*ssa.BasicBlock]bool{}
	edgeMemo := map[[2]*ssa.BasicBlock]bool{}
	var queue []*node
	finish := func(n *node) []*ssa.BasicBlock {
		var out []*ssa.BasicBlock
		for ; n != nil; n = n.prev {
			out = append([]*ssa.BasicBlock{n.b}, out...)
		}
		return out
	}
	if start == target && si <= ti {
		ok := true
		for i := si; i < ti && i < len(start.Instrs); i++ {
			if p.instrCut(start.Instrs[i], c, cut, d) {
				ok = false
				break
			}
		}
		if ok {
			return []*ssa.BasicBlock{start}, true
		}
	}
	pass := func(b *ssa.BasicBlock, from int) bool {
		for i := from; i < len(b.Instrs); i++ {
			if p.instrCut(b.Instrs[i], c, cut, d) {
				return false
			}
		}
		return true
	}
	if !pass(start, si) {
		return nil, false
	}
	queue = append(queue, &node{b: start})
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		for _, s := range n.b.Succs {
			env, feasible := p.step(n.b, s, n.env, track)
			if !feasible {
				continue
			}
			e := [2]*ssa.BasicBlock{n.b, s}
			isCut, ok := edgeMemo[e]
			if !ok {
				isCut = p.edgeCut(n.b, s, c, cut, d)
				edgeMemo[e] = isCut
			}
			if isCut {
				continue
			}
			if s == target {
				ok := true
				for i := 0; i < ti && i < len(s.Instrs); i++ {
					if p.instrCut(s.Instrs[i], c, cut, d) {
						ok = false
						break
					}
				}
				if ok {
					return finish(&node{b: s, prev: n}), true
				}
			}
			st := state{s, env}
			if seen[st] {
				continue
			}
			seen[st] = true
			ok2, have := passMemo[s]
			if !have {
				ok2 = pass(s, 0)
				passMemo[s] = ok2
			}
			if ok2 {
				queue = append(queue, &node{b: s, env: env, prev: n})
			}
		}
	}
	return nil, false
}

// A Site is an instruction together with the call string it was reached by.
type chainLink struct {
	call ssa.CallInstruction
	mc   *ssa.MakeClosure
	use  ssa.Instruction
}

func (l chainLink) instr() ssa.Instruction {
	if l.call != nil {
		return l.call
	}
	if l.use != nil {
		return l.use
	}
	return l.mc
}

func buildCtx(links []chainLink, from int) *Ctx {
	if from >= len(links) {
		return nil
	}
	return mkCtx(Ctx{up: buildCtx(links, from+1), call: links[from].call, mc: links[from].mc, use: links[from].use})
}

type GuardOpts struct {
	// Stop, if set, ends the upward walk at this function without a report:
	// everything entering it is outside the rule's scope.
	Stop func(fn *ssa.Function) bool
	// MaxDepth of the upward walk; reaching it reports the chain.
	MaxDepth int
}

// Unguarded walks from site up through the call graph and returns the call
// chains on which no cut discharges the obligation. mk builds the cut for the
// sink's context; it is rebuilt for every chain, so that the sink's operands
// can be compared with values in callers.
func (p *Program) Unguarded(site ssa.Instruction, mk func(sink *Ctx) *Cut, o GuardOpts) [][]ssa.Instruction {
	if o.MaxDepth == 0 {
		o.MaxDepth = 12
	}
	var out [][]ssa.Instruction
	var rec func(links []chainLink, onPath map[*ssa.Function]bool)
	done := map[string]bool{}
	rec = func(links []chainLink, onPath map[*ssa.Function]bool) {
		if len(out) >= 5 {
			return
		}
		cut := mk(buildCtx(links, 0))
		if cut == nil {
			return
		}
		var chain []ssa.Instruction
		cur := ssa.Instruction(site)
		for i := 0; i <= len(links); i++ {
			chain = append(chain, cur)
			if _, ok := p.reachInstr(cur, buildCtx(links, i), cut); !ok {
				return // guarded at this level
			}
			if i < len(links) {
				cur = links[i].instr()
			}
		}
		fn := cur.Parent()
		if o.Stop != nil && o.Stop(fn) {
			return
		}
		var next []chainLink
		if fn.Parent() != nil {
			for _, mc := range p.closures[fn] {
				next = append(next, chainLink{mc: mc})
			}
			if len(p.closures[fn]) == 0 { // closure without captures
				for _, u := range p.taken[fn] {
					next = append(next, chainLink{use: u})
				}
				if len(next) == 0 { // called where it is written
					for _, ci := range p.callers[fn] {
						next = append(next, chainLink{call: ci})
					}
				}
			}
		} else {
			for _, ci := range p.callers[fn] {
				next = append(next, chainLink{call: ci})
			}
		}
		if len(next) == 0 || len(links) >= o.MaxDepth {
			out = append(out, chain)
			return
		}
		for _, l := range next {
			g := l.instr().Parent()
			if onPath[g] {
				continue
			}
			onPath[g] = true
			key := fmt.Sprint(len(links)) + p.ctxKey(buildCtx(append(append([]chainLink{}, links...), l), 0))
			if !done[key] {
				done[key] = true
				rec(append(append([]chainLink{}, links...), l), onPath)
			}
			delete(onPath, g)
		}
	}
	rec(nil, map[*ssa.Function]bool{site.Parent(): true})
	return out
}

func (p *Program) chainString(chain []ssa.Instruction) string {
	var s []string
	for i := len(chain) - 1; i >= 0; i-- {
		s = append(s, p.at(chain[i]))
	}
	return strings.Join(s, " -> ")
}

// eachInstr visits every instruction of every repository function.
func (p *Program) eachInstr(f func(fn *ssa.Function, ins ssa.Instruction)) {
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				f(fn, ins)
			}
		}
	}
}

// eachCall visits every call (including go and defer).
func (p *Program) eachCall(f func(fn *ssa.Function, ci ssa.CallInstruction, name string)) {
	p.eachInstr(func(fn *ssa.Function, ins ssa.Instruction) {
		if ci, ok := ins.(ssa.CallInstruction); ok {
			f(fn, ci, p.calleeName(ci))
		}
	})
}

// constString returns the compile-time string value of v.
func constString(v ssa.Value) (string, bool) {
	for {
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value != nil && x.Value.Kind() == constant.String {
				return constant.StringVal(x.Value), true
			}
			return "", false
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		default:
			return "", false
		}
	}
}

func constInt(v ssa.Value) (int64, bool) {
	if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
		return k.Int64(), true
	}
	return 0, false
}

func constBool(v ssa.Value) (bool, bool) {
	if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
		return constant.BoolVal(k.Value), true
	}
	return false, false
}

func smallFn(g *ssa.Function) bool {
	n := 0
	for _, b := range g.Blocks {
		n += len(b.Instrs)
	}
	return n <= 40
}
