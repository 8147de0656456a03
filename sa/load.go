package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// A Program is one build-tag variant of the repository under analysis, type
// checked and lowered to SSA. Dependencies are type checked from source with
// their function bodies removed, so nothing is compiled and nothing is run.
type Program struct {
	outer map[*ssa.Function]*ssa.Function // the only caller, which just forwards to it
	inner map[*ssa.Function]*ssa.Function
	gone  map[*ssa.Function]bool // inlined in their callers
	Tags  string
	Root  string // repository root
	Mod   string // module path
	Fset  *token.FileSet
	Pkgs  []*packages.Package // repository packages
	SSA   *ssa.Program
	ByPkg map[string]*ssa.Package // path relative to the module ("" is the root package)
	Funcs []*ssa.Function         // every repository function with a body, anonymous ones included
	byID  map[string]*ssa.Function

	callers     map[*ssa.Function][]ssa.CallInstruction // resolved call sites of a repository function
	callees     map[ssa.CallInstruction][]*ssa.Function
	taken       map[*ssa.Function][]ssa.Instruction // places where a function is used as a value
	closures    map[*ssa.Function][]*ssa.MakeClosure
	stores      map[*types.Var][]*ssa.Store // stores through a field address
	allocStor   map[ssa.Value][]*ssa.Store
	trackMemo   map[*ssa.Function]map[string]bool
	appendMemo  map[*ssa.Function]bool
	fixedInts   map[*ssa.Global][]int64
	globals     map[*ssa.Global][]ssa.Value
	bcast       map[*ssa.Function]bool
	exposedMemo map[*ssa.Alloc]bool
	cellStor    map[*ssa.Alloc][]*ssa.Store
}

// loadPackages parses and type-checks the repository, with the given contents
// for some of its files.
func loadPackages(root, tags string, overlay map[string][]byte) ([]*packages.Package, string, error) {
	prefix := root + string(filepath.Separator)
	env := append(os.Environ(), "CGO_ENABLED=0", "GOPROXY=off", "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOWORK=off")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedTypesSizes | packages.NeedModule,
		Dir:        root,
		BuildFlags: []string{"-tags=" + tags},
		Env:        env,
		Overlay:    overlay,
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			f, err := parser.ParseFile(fset, filename, src, parser.SkipObjectResolution|parser.ParseComments)
			if f != nil && !strings.HasPrefix(filename, prefix) {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						fd.Body = nil
					}
				}
			}
			return f, err
		},
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, "", fmt.Errorf("loading packages: %v", err)
	}
	if len(pkgs) == 0 {
		return nil, "", fmt.Errorf("no packages found")
	}
	mod := ""
	for _, pk := range pkgs {
		if pk.Module != nil {
			mod = pk.Module.Path
		}
		for _, e := range pk.Errors {
			return nil, "", fmt.Errorf("type checking %v: %v", pk.PkgPath, e)
		}
		if pk.Types == nil {
			return nil, "", fmt.Errorf("no type information for %v", pk.PkgPath)
		}
	}
	if mod == "" {
		return nil, "", fmt.Errorf("module path unknown")
	}
	return pkgs, mod, nil
}

func loadProgram(root, tags string) (*Program, error) {
	root, err := filepath.Abs(root)
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	pkgs, mod, err := loadPackages(root, tags, nil)
	if err != nil {
		return nil, err
	}
	for i := 0; i < 3; i++ {
		names := renamed(pkgs, mod, tags)
		if len(names) == 0 {
			break
		}
		for file, src := range oldNames(pkgs, names, overlay) {
			overlay[file] = src
		}
		again, mod2, err := loadPackages(root, tags, overlay)
		if err != nil {
			break // a name means something else now
		}
		pkgs, mod = again, mod2
	}
	p := &Program{
		Tags: tags, Root: root, Mod: mod, Fset: pkgs[0].Fset, Pkgs: pkgs,
		ByPkg: map[string]*ssa.Package{}, byID: map[string]*ssa.Function{},
		callers:   map[*ssa.Function][]ssa.CallInstruction{},
		callees:   map[ssa.CallInstruction][]*ssa.Function{},
		taken:     map[*ssa.Function][]ssa.Instruction{},
		closures:  map[*ssa.Function][]*ssa.MakeClosure{},
		stores:    map[*types.Var][]*ssa.Store{},
		allocStor: map[ssa.Value][]*ssa.Store{},
	}

	prog := ssa.NewProgram(p.Fset, ssa.BuilderMode(0))
	p.SSA = prog
	repo := map[string]bool{}
	for _, pk := range pkgs {
		repo[pk.PkgPath] = true
	}
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		if pk.Types == nil {
			return
		}
		if repo[pk.PkgPath] {
			sp := prog.CreatePackage(pk.Types, pk.Syntax, pk.TypesInfo, true)
			rel := strings.TrimPrefix(strings.TrimPrefix(pk.PkgPath, p.Mod), "/")
			p.ByPkg[rel] = sp
		} else {
			prog.CreatePackage(pk.Types, nil, nil, true)
		}
	})
	for _, pk := range pkgs {
		prog.Package(pk.Types).Build()
	}
	p.index()
	p.unspill()
	p.forward()
	return p, nil
}

func (p *Program) inRepo(pkg *types.Package) bool {
	return pkg != nil && (pkg.Path() == p.Mod || strings.HasPrefix(pkg.Path(), p.Mod+"/"))
}

func (p *Program) index() {
	all := ssautil.AllFunctions(p.SSA)
	p.gone = map[*ssa.Function]bool{}
	p.inlineHelpers(all)
	p.normalize(all)
	p.outer, p.inner = map[*ssa.Function]*ssa.Function{}, map[*ssa.Function]*ssa.Function{}
	p.collapse(all)
	seen := map[*ssa.Function]bool{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if seen[fn] || fn.Blocks == nil || p.gone[fn] {
			return
		}
		seen[fn] = true
		p.Funcs = append(p.Funcs, fn)
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	for fn := range all {
		pkg := fnPkg(fn)
		if pkg == nil || !p.inRepo(pkg) {
			continue
		}
		if fn.Synthetic != "" && fn.Origin() == nil && fn.Name() != "init" {
			continue // wrappers, thunks: resolved through
		}
		if p.inner[fn] != nil {
			continue
		}
		add(fn)
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	for _, fn := range p.Funcs {
		id := p.fnID(fn)
		if _, dup := p.byID[id]; !dup {
			p.byID[id] = fn
		}
	}
	// function values
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						if fv := fieldVar(fa.X.Type(), fa.Field); fv != nil {
							p.stores[fv] = append(p.stores[fv], st)
						}
					} else {
						p.allocStor[st.Addr] = append(p.allocStor[st.Addr], st)
					}
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					f := mc.Fn.(*ssa.Function)
					p.closures[f] = append(p.closures[f], mc)
					if t := p.thunkTarget(f); t != nil {
						p.taken[t] = append(p.taken[t], ins)
					}
				}
				var callee ssa.Value
				if ci, ok := ins.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					callee = ci.Common().Value
				}
				for _, op := range ins.Operands(nil) {
					if *op == nil {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok {
						if *op == callee {
							// the callee position; but an argument equal to
							// the callee is still a use
							callee = nil
							continue
						}
						if _, ok := ins.(*ssa.MakeClosure); ok {
							p.taken[f] = append(p.taken[f], ins)
							continue
						}
						t := p.thunkTarget(f)
						if t == nil {
							t = f
						}
						p.taken[t] = append(p.taken[t], ins)
					}
				}
			}
		}
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cs := p.resolve(ci)
				p.callees[ci] = cs
				for _, c := range cs {
					p.callers[c] = append(p.callers[c], ci)
				}
			}
		}
	}
}

// thunkTarget returns the declared repository method behind a synthetic bound
// method closure or wrapper.
func (p *Program) thunkTarget(f *ssa.Function) *ssa.Function {
	if f.Synthetic == "" || f.Blocks == nil && f.Object() == nil {
		return nil
	}
	obj, ok := f.Object().(*types.Func)
	if !ok {
		return nil
	}
	t := p.SSA.FuncValue(obj)
	if t == nil || t == f {
		return nil
	}
	for p.inner[t] != nil {
		t = p.inner[t]
	}
	return t
}

func fnPkg(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	return nil
}

// resolve returns the repository functions a call may invoke.
func (p *Program) resolve(ci ssa.CallInstruction) []*ssa.Function {
	c := ci.Common()
	if c.IsInvoke() {
		return p.implementations(c.Value.Type(), c.Method)
	}
	return p.resolveValue(c.Value, 0)
}

func (p *Program) resolveValue(v ssa.Value, depth int) []*ssa.Function {
	if depth > 8 {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Function:
		if t := p.thunkTarget(v); t != nil && v.Synthetic != "" {
			return p.keep(t)
		}
		return p.keep(v)
	case *ssa.MakeClosure:
		return p.resolveValue(v.Fn, depth+1)
	case *ssa.ChangeType:
		return p.resolveValue(v.X, depth+1)
	case *ssa.Phi:
		var out []*ssa.Function
		for _, e := range v.Edges {
			out = append(out, p.resolveValue(e, depth+1)...)
		}
		return dedup(out)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if al, ok := v.X.(*ssa.Alloc); ok {
				var out []*ssa.Function
				for _, st := range p.allocStor[al] {
					out = append(out, p.resolveValue(st.Val, depth+1)...)
				}
				return dedup(out)
			}
			if fv, ok := v.X.(*ssa.FreeVar); ok {
				if b := p.binding(fv); b != nil {
					var out []*ssa.Function
					for _, st := range p.allocStor[b] {
						out = append(out, p.resolveValue(st.Val, depth+1)...)
					}
					return dedup(out)
				}
			}
		}
	case *ssa.FreeVar:
		if b := p.binding(v); b != nil {
			return p.resolveValue(b, depth+1)
		}
	}
	// Unknown function value: every repository function used as a value with
	// an identical signature.
	sig, ok := v.Type().Underlying().(*types.Signature)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for f := range p.taken {
		if f.Blocks == nil {
			continue
		}
		fs := f.Signature
		if fs.Recv() != nil {
			fs = types.NewSignatureType(nil, nil, nil, fs.Params(), fs.Results(), fs.Variadic())
		}
		if types.Identical(fs, sig) || types.Identical(types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic()), fs) {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

func (p *Program) keep(f *ssa.Function) []*ssa.Function {
	for p.inner[f] != nil {
		f = p.inner[f]
	}
	if f.Blocks == nil || !p.inRepo(fnPkg(f)) {
		return nil
	}
	return []*ssa.Function{f}
}

func dedup(in []*ssa.Function) []*ssa.Function {
	m := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, f := range in {
		if !m[f] {
			m[f] = true
			out = append(out, f)
		}
	}
	return out
}

func (p *Program) implementations(iface types.Type, m *types.Func) []*ssa.Function {
	it, ok := iface.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, pk := range p.Pkgs {
		sc := pk.Types.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t := tn.Type()
			if types.IsInterface(t) {
				continue
			}
			if n, ok := t.(*types.Named); ok && n.TypeParams().Len() > 0 {
				continue
			}
			for _, tt := range []types.Type{t, types.NewPointer(t)} {
				if !types.Implements(tt, it) {
					continue
				}
				obj, _, _ := types.LookupFieldOrMethod(tt, true, m.Pkg(), m.Name())
				fo, ok := obj.(*types.Func)
				if !ok {
					continue
				}
				if f := p.SSA.FuncValue(fo); f != nil {
					out = append(out, p.keep(f)...)
				}
				break
			}
		}
	}
	return dedup(out)
}

// binding returns the value a free variable of a closure captures, when the
// closure is created at a single place.
func (p *Program) binding(fv *ssa.FreeVar) ssa.Value {
	mcs := p.closures[fv.Parent()]
	if len(mcs) != 1 {
		return nil
	}
	for i, f := range fv.Parent().FreeVars {
		if f == fv {
			return mcs[0].Bindings[i]
		}
	}
	return nil
}

func fieldVar(t types.Type, i int) *types.Var {
	t = t.Underlying()
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem().Underlying()
	}
	st, ok := t.(*types.Struct)
	if !ok || i >= st.NumFields() {
		return nil
	}
	return st.Field(i).Origin()
}

// fnID is a stable name: package-relative, with the receiver type; closures
// are named after their parent.
func (p *Program) fnID(fn *ssa.Function) string {
	for p.outer[fn] != nil {
		fn = p.outer[fn]
	}
	if fn.Parent() != nil {
		return p.fnID(fn.Parent()) + "$" + strings.TrimPrefix(fn.Name(), fn.Parent().Name()+"$")
	}
	pkg := fnPkg(fn)
	rel := ""
	if pkg != nil {
		rel = strings.TrimPrefix(strings.TrimPrefix(pkg.Path(), p.Mod), "/")
	}
	if rel == "" {
		rel = "soju"
	}
	name := fn.Name()
	if fn.Origin() != nil {
		name = fn.Origin().Name()
	}
	if r := fn.Signature.Recv(); r != nil {
		name = recvName(r.Type()) + "." + name
	}
	return rel + "." + name
}

func recvName(t types.Type) string {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// Func returns the repository function with the given id, or nil.
func (p *Program) Func(id string) *ssa.Function { return p.byID[id] }

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Root, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

func (p *Program) at(ins ssa.Instruction) string {
	if ins == nil {
		return "?"
	}
	pos := ins.Pos()
	if !pos.IsValid() {
		if v, ok := ins.(ssa.Value); ok {
			pos = v.Pos()
		}
	}
	if !pos.IsValid() {
		for _, i := range ins.Block().Instrs {
			if i.Pos().IsValid() {
				pos = i.Pos()
			}
		}
	}
	return fmt.Sprintf("%s in %s", p.pos(pos), p.fnID(ins.Parent()))
}

// unspill replaces the reload of a result cell before a return, which the
// builder inserts in functions that defer, by the value just stored.
func (p *Program) unspill() {
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			for i, v := range r.Results {
				u, ok := v.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					continue
				}
				al, ok := u.X.(*ssa.Alloc)
				if !ok || u.Block() != b {
					continue
				}
				foreign := false
				for _, st := range p.allCellStores(al) {
					if st.Parent() != fn {
						foreign = true
					}
				}
				if foreign {
					continue
				}
				for j := len(b.Instrs) - 1; j >= 0; j-- {
					if st, ok := b.Instrs[j].(*ssa.Store); ok && st.Addr == ssa.Value(al) {
						r.Results[i] = st.Val
						if rs := st.Val.Referrers(); rs != nil {
							*rs = append(*rs, r)
						}
						break
					}
				}
			}
		}
	}
}

// forward replaces loads of local cells that are not written elsewhere by the
// stored value, where a single store reaches them.
func (p *Program) forward() {
	for _, fn := range p.Funcs {
		cells := map[*ssa.Alloc]bool{}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				al, ok := ins.(*ssa.Alloc)
				if !ok || al.Referrers() == nil {
					continue
				}
				simple := true
				n := 0
				for _, ref := range *al.Referrers() {
					switch x := ref.(type) {
					case *ssa.Store:
						if x.Addr != ssa.Value(al) || x.Val == ssa.Value(al) {
							simple = false
						}
						n++
					case *ssa.UnOp:
					case *ssa.MakeClosure, *ssa.DebugRef:
					default:
						simple = false
					}
				}
				if !simple || n < 2 {
					continue
				}
				for _, st := range p.allCellStores(al) {
					if st.Parent() != fn {
						simple = false
					}
				}
				if simple {
					cells[al] = true
				}
			}
		}
		for al := range cells {
			p.forwardCell(fn, al)
		}
	}
}

func (p *Program) forwardCell(fn *ssa.Function, al *ssa.Alloc) {
	// what reaches the start of each block: nil = nothing known yet, many = several
	many := &ssa.Store{}
	zero := &ssa.Store{}
	in := make([]*ssa.Store, len(fn.Blocks))
	out := func(b *ssa.BasicBlock, cur *ssa.Store) *ssa.Store {
		for _, ins := range b.Instrs {
			if st, ok := ins.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
				cur = st
			}
			if ins == ssa.Instruction(al) {
				cur = zero
			}
		}
		return cur
	}
	in[0] = zero
	if fn.Recover != nil {
		in[fn.Recover.Index] = many
	}
	for changed := true; changed; {
		changed = false
		for _, b := range fn.Blocks {
			if in[b.Index] == nil {
				continue
			}
			o := out(b, in[b.Index])
			for _, s := range b.Succs {
				n := in[s.Index]
				switch {
				case n == nil:
					n = o
				case n != o:
					n = many
				}
				if n != in[s.Index] {
					in[s.Index] = n
					changed = true
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		cur := in[b.Index]
		for _, ins := range b.Instrs {
			if ins == ssa.Instruction(al) {
				cur = zero
			}
			switch x := ins.(type) {
			case *ssa.Store:
				if x.Addr == ssa.Value(al) {
					cur = x
				}
			case *ssa.UnOp:
				if x.Op != token.MUL || x.X != ssa.Value(al) || cur == nil || cur == many || cur == zero || x.Referrers() == nil {
					continue
				}
				for _, ref := range *x.Referrers() {
					for _, op := range ref.Operands(nil) {
						if *op == ssa.Value(x) {
							*op = cur.Val
							if rs := cur.Val.Referrers(); rs != nil {
								*rs = append(*rs, ref)
							}
						}
					}
				}
				*x.Referrers() = nil
			}
		}
	}
}
