package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// normalize brings ways to write the same comparison to one: constants are on
// the right, and a string is compared with "" rather than its length with 0.
func (p *Program) normalize(fns map[*ssa.Function]bool) {
	for fn := range fns {
		if pkg := fnPkg(fn); pkg == nil || !p.inRepo(pkg) {
			continue
		}
		ssa.Simplify(fn)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if x, ok := ins.(*ssa.BinOp); ok {
					normalizeCmp(x)
				}
			}
		}
	}
}

var mirrored = map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}

func normalizeCmp(x *ssa.BinOp) {
	m, ok := mirrored[x.Op]
	if !ok {
		return
	}
	if _, isC := x.X.(*ssa.Const); isC {
		if _, both := x.Y.(*ssa.Const); !both {
			x.X, x.Y, x.Op = x.Y, x.X, m
		}
	}
	c, ok := x.Y.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return
	}
	call, ok := x.X.(*ssa.Call)
	if !ok || len(call.Call.Args) != 1 || !isString(call.Call.Args[0].Type()) {
		return
	}
	if bi, ok := call.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
		return
	}
	k, _ := constant.Int64Val(c.Value)
	op := token.ILLEGAL
	switch {
	case k == 0 && (x.Op == token.EQL || x.Op == token.LEQ) || k == 1 && x.Op == token.LSS:
		op = token.EQL
	case k == 0 && (x.Op == token.NEQ || x.Op == token.GTR) || k == 1 && x.Op == token.GEQ:
		op = token.NEQ
	}
	if op == token.ILLEGAL {
		return
	}
	s := call.Call.Args[0]
	x.X, x.Y, x.Op = s, ssa.NewConst(constant.MakeString(""), s.Type()), op
	if refs := s.Referrers(); refs != nil {
		*refs = append(*refs, x)
	}
	if refs := call.Referrers(); refs != nil {
		for i, r := range *refs {
			if r == ssa.Instruction(x) {
				*refs = append((*refs)[:i:i], (*refs)[i+1:]...)
				break
			}
		}
	}
}

// collapse treats a function that only hands its parameters on to another,
// which is called from nowhere else, as that other one.
func (p *Program) collapse(fns map[*ssa.Function]bool) {
	uses := map[*ssa.Function]int{}
	for fn := range fns {
		if fn.Synthetic != "" && !strings.HasSuffix(fn.Name(), "$bound") && !strings.HasSuffix(fn.Name(), "$thunk") {
			continue // a promoted method
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						uses[f]++
					}
				}
			}
		}
	}
	for fn := range fns {
		if pkg := fnPkg(fn); pkg == nil || !p.inRepo(pkg) || fn.Synthetic != "" || fn.Parent() != nil {
			continue
		}
		if g := forwards(fn); g != nil && g != fn && uses[g] == 1 && fns[g] && p.inRepo(fnPkg(g)) {
			p.outer[g] = fn
			p.inner[fn] = g
		}
	}
	if len(p.inner) == 0 {
		return
	}
	for fn := range fns {
		if p.inner[fn] != nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						for p.inner[f] != nil {
							f = p.inner[f]
						}
						*op = f
					}
				}
			}
		}
	}
}

// forwards: the function that fn only hands its parameters on to.
func forwards(fn *ssa.Function) *ssa.Function {
	if len(fn.Blocks) != 1 || len(fn.FreeVars) != 0 {
		return nil
	}
	var call *ssa.Call
	for _, ins := range fn.Blocks[0].Instrs {
		switch x := ins.(type) {
		case *ssa.Call:
			if call != nil {
				return nil
			}
			call = x
		case *ssa.Extract:
			if x.Tuple != ssa.Value(call) {
				return nil
			}
		case *ssa.Return:
			if call == nil {
				return nil
			}
			for i, r := range x.Results {
				ex, ok := r.(*ssa.Extract)
				if len(x.Results) == 1 && r == ssa.Value(call) || ok && ex.Index == i {
					continue
				}
				return nil
			}
		default:
			return nil
		}
	}
	if call == nil {
		return nil
	}
	g, ok := call.Call.Value.(*ssa.Function)
	if !ok || g.Blocks == nil || g.Parent() != nil || g.Synthetic != "" || len(call.Call.Args) != len(fn.Params) || len(g.Params) != len(fn.Params) {
		return nil
	}
	for i, a := range call.Call.Args {
		if a != ssa.Value(fn.Params[i]) {
			return nil
		}
	}
	if !types.Identical(g.Signature.Results(), fn.Signature.Results()) || (g.Signature.Recv() == nil) != (fn.Signature.Recv() == nil) {
		return nil
	}
	return g
}

// fname: the name of fn, or of the function that just forwards to it.
func (p *Program) fname(fn *ssa.Function) string {
	for p.outer[fn] != nil {
		fn = p.outer[fn]
	}
	return fn.Name()
}

// inlineHelpers replaces the calls of functions that the repository did not
// have when the rules were written, and of function literals that are called
// where they are made, by their bodies: what a function does must not depend
// on how it is cut into helpers.
func (p *Program) inlineHelpers(all map[*ssa.Function]bool) {
	if baselineDecls == "" {
		return
	}
	known := map[string]bool{}
	for _, line := range strings.Split(baselineDecls, "\n") {
		if f := strings.Split(line, "\t"); len(f) > 1 && (f[0] == "func" || f[0] == "method") {
			known[f[1]] = true
		}
	}
	cand := map[*ssa.Function]bool{}
	uses := map[*ssa.Function]int{}
	var fns []*ssa.Function
	for fn := range all {
		if pkg := fnPkg(fn); pkg == nil || !p.inRepo(pkg) || fn.Blocks == nil {
			continue
		}
		if fn.Synthetic != "" && fn.Name() != "init" && fn.Parent() == nil {
			continue
		}
		fns = append(fns, fn)
		if fn.Parent() == nil && fn.Synthetic == "" && !known[p.fnID(fn)] && fn.Name() != "main" && !strings.HasPrefix(fn.Name(), "init") && ssa.Inlinable(fn) {
			cand[fn] = true
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	count := func() {
		uses = map[*ssa.Function]int{}
		for _, fn := range fns {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					for _, op := range ins.Operands(nil) {
						if f, ok := (*op).(*ssa.Function); ok {
							uses[f]++
						}
					}
				}
			}
		}
	}
	count()
	literal := func(call *ssa.Call) (*ssa.Function, []ssa.Value) {
		only := func(refs []ssa.Instruction, v ssa.Value) bool {
			for _, r := range refs {
				c, ok := r.(*ssa.Call)
				if !ok || c.Call.Value != v {
					return false
				}
				for _, a := range c.Call.Args {
					if a == v {
						return false
					}
				}
			}
			return len(refs) == 1 || len(refs) > 1 && len(refs) < 4
		}
		switch v := call.Call.Value.(type) {
		case *ssa.MakeClosure:
			f := v.Fn.(*ssa.Function)
			if f.Synthetic == "" && only(*v.Referrers(), v) && ssa.Inlinable(f) {
				return f, v.Bindings
			}
		case *ssa.Function:
			if v.Parent() == call.Parent() && v.Synthetic == "" && only(*v.Referrers(), v) && ssa.Inlinable(v) {
				return v, nil
			}
		}
		return nil, nil
	}
	state := map[*ssa.Function]int{}
	var process func(fn *ssa.Function)
	process = func(fn *ssa.Function) {
		if state[fn] != 0 {
			return
		}
		state[fn] = 1
		skip := map[*ssa.Call]bool{}
		n := 0
		for again := true; again && n < 400; {
			again = false
		scan:
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					call, ok := ins.(*ssa.Call)
					if !ok || skip[call] || call.Call.IsInvoke() {
						continue
					}
					f, bindings := literal(call)
					lit := f != nil
					if !lit {
						f = call.Call.StaticCallee()
						if f == nil || !cand[f] {
							continue
						}
					}
					process(f)
					if state[f] != 2 || len(f.AnonFuncs) > 0 && (uses[f] != 1 || lit && len(*call.Call.Value.Referrers()) != 1) {
						skip[call] = true
						continue
					}
					anons := f.AnonFuncs
					if !ssa.Inline(fn, call, f, bindings) {
						skip[call] = true
						continue
					}
					if len(anons) > 0 {
						ssa.Adopt(fn, f)
					}
					if lit {
						p.gone[f] = true
					}
					n++
					again = true
					break scan
				}
			}
		}
		if n > 0 {
			ssa.FinishInlining(fn)
			for _, a := range append([]*ssa.Function(nil), fn.AnonFuncs...) {
				if p.gone[a] {
					ssa.Forget(fn, a)
				}
			}
		}
		state[fn] = 2
	}
	for _, fn := range fns {
		process(fn)
	}
	count()
	for f := range cand {
		if uses[f] == 0 {
			p.gone[f] = true
		}
	}
}
