package main

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// The rules name functions, types, fields and variables of the repository. A
// change that just gives one of these another name must not matter: the
// declarations that the repository had when the rules were written are listed
// in baseline_decls.txt, and one that is missing is recognised by its type
// among those that are new. The program is then analysed with the old name.

//go:embed baseline_decls.txt
var baselineDecls string

type decl struct {
	kind, id, desc string
	obj            types.Object
	order          string
}

// decls lists the declarations of the packages of the repository.
func decls(pkgs []*packages.Package, mod string) map[string]*decl {
	out := map[string]*decl{}
	if len(pkgs) == 0 {
		return out
	}
	fset := pkgs[0].Fset
	relOf := func(pkg *types.Package) string {
		if pkg == nil {
			return ""
		}
		path := pkg.Path()
		if path == mod {
			return "soju"
		}
		return strings.TrimPrefix(path, mod+"/")
	}
	ts := func(t types.Type) string { return strings.ReplaceAll(types.TypeString(t, relOf), "\n", " ") }
	// the types of parameters, without their names
	sig := func(s *types.Signature) string {
		var l []string
		for i := 0; i < s.Params().Len(); i++ {
			l = append(l, ts(s.Params().At(i).Type()))
		}
		d := "(" + strings.Join(l, ",") + ")"
		l = nil
		for i := 0; i < s.Results().Len(); i++ {
			l = append(l, ts(s.Results().At(i).Type()))
		}
		if s.Variadic() {
			d += "..."
		}
		return d + "(" + strings.Join(l, ",") + ")"
	}
	add := func(kind, id, desc string, o types.Object) {
		pos := fset.Position(o.Pos())
		out[kind+" "+id] = &decl{kind, id, desc, o, fmt.Sprintf("%s:%09d", pos.Filename, pos.Offset)}
	}
	for _, pk := range pkgs {
		rel := relOf(pk.Types)
		sc := pk.Types.Scope()
		for _, name := range sc.Names() {
			id := rel + "." + name
			switch o := sc.Lookup(name).(type) {
			case *types.Func:
				if name != "main" && name != "init" {
					add("func", id, rel+" "+sig(o.Type().(*types.Signature)), o)
				}
			case *types.Var:
				add("var", id, rel+" "+ts(o.Type()), o)
			case *types.Const:
				add("const", id, rel+" "+ts(o.Type())+"="+o.Val().ExactString(), o)
			case *types.TypeName:
				n, ok := o.Type().(*types.Named)
				if !ok || o.IsAlias() {
					continue
				}
				var parts []string
				if st, ok := n.Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						f := st.Field(i)
						parts = append(parts, f.Name())
						if !f.Embedded() {
							add("field", id+"."+f.Name(), ts(f.Type()), f)
						}
					}
				} else if _, isI := n.Underlying().(*types.Interface); !isI {
					parts = append(parts, ts(n.Underlying()))
				}
				if it, ok := n.Underlying().(*types.Interface); ok {
					for i := 0; i < it.NumExplicitMethods(); i++ {
						m := it.ExplicitMethod(i)
						parts = append(parts, m.Name())
						add("method", id+"."+m.Name(), sig(m.Type().(*types.Signature)), m)
					}
				}
				for i := 0; i < n.NumMethods(); i++ {
					m := n.Method(i)
					parts = append(parts, m.Name())
					add("method", id+"."+m.Name(), sig(m.Type().(*types.Signature)), m)
				}
				add("type", id, rel+" "+strings.Join(parts, " "), o)
			}
		}
	}
	return out
}

// renamed finds the objects that have another name than in the baseline.
func renamed(pkgs []*packages.Package, mod string, tags string) map[types.Object]string {
	if baselineDecls == "" {
		return nil
	}
	base := map[string]*decl{}
	for i, line := range strings.Split(strings.TrimSpace(baselineDecls), "\n") {
		p := strings.SplitN(line, "\t", 4)
		if len(p) != 4 || !strings.Contains(","+p[3]+",", ","+variantName(tags)+",") {
			continue
		}
		base[p[0]+" "+p[1]] = &decl{kind: p[0], id: p[1], desc: p[2], order: fmt.Sprintf("%09d", i)}
	}
	now := decls(pkgs, mod)
	owner := func(id string) string { return id[:strings.LastIndex(id, ".")] }
	last := func(id string) string { return id[strings.LastIndex(id, ".")+1:] }
	missing, fresh := map[string][]*decl{}, map[string][]*decl{}
	group := func(d *decl) string {
		switch d.kind {
		case "type":
			return "type " + strings.Fields(d.desc)[0]
		case "field", "method":
			return d.kind + " " + owner(d.id) + " " + d.desc
		}
		return d.kind + " " + d.desc
	}
	for k, d := range base {
		if now[k] == nil {
			missing[group(d)] = append(missing[group(d)], d)
		}
	}
	for k, d := range now {
		if base[k] == nil {
			fresh[group(d)] = append(fresh[group(d)], d)
		}
	}
	out := map[types.Object]string{}
	types1 := false
	for g, ms := range missing {
		fs := fresh[g]
		sort.Slice(ms, func(i, j int) bool { return ms[i].order < ms[j].order })
		sort.Slice(fs, func(i, j int) bool { return fs[i].order < fs[j].order })
		if strings.HasPrefix(g, "type ") {
			for _, m := range ms {
				best, score := (*decl)(nil), 0.6
				for _, f := range fs {
					if s := alike(m.desc, f.desc); s > score {
						best, score = f, s
					}
				}
				if best != nil && out[best.obj] == "" {
					out[best.obj] = last(m.id)
					types1 = true
				}
			}
			continue
		}
		if len(ms) == len(fs) {
			for i, m := range ms {
				out[fs[i].obj] = last(m.id)
			}
		}
	}
	if types1 {
		// the rest is found once the types have their names
		for o := range out {
			if _, ok := o.(*types.TypeName); !ok {
				delete(out, o)
			}
		}
	}
	return out
}

func variantName(tags string) string {
	if tags == "" {
		return "default"
	}
	return tags
}

// alike: how much of what a has b has too.
func alike(a, b string) float64 {
	in := map[string]bool{}
	for _, w := range strings.Fields(b) {
		in[w] = true
	}
	n, all := 0, strings.Fields(a)
	for _, w := range all {
		if in[w] {
			n++
		}
	}
	return 2 * float64(n) / float64(len(all)+len(strings.Fields(b)))
}

// oldNames returns the sources of the files in which objects have new names,
// with the old ones.
func oldNames(pkgs []*packages.Package, names map[types.Object]string, overlay map[string][]byte) map[string][]byte {
	type at struct {
		off, n int
		text   string
	}
	edits := map[string][]at{}
	rename := func(o types.Object) string {
		if v, ok := o.(*types.Var); ok && v.IsField() {
			v = v.Origin()
			o = v
			if v.Embedded() {
				t := v.Type()
				if pt, ok := t.(*types.Pointer); ok {
					t = pt.Elem()
				}
				if n, ok := t.(*types.Named); ok {
					return names[n.Obj()]
				}
			}
		}
		if f, ok := o.(*types.Func); ok {
			o = f.Origin()
		}
		return names[o]
	}
	for _, pk := range pkgs {
		for _, f := range pk.Syntax {
			ast.Inspect(f, func(n ast.Node) bool {
				id, ok := n.(*ast.Ident)
				if !ok {
					return true
				}
				o := pk.TypesInfo.Uses[id]
				if o == nil {
					o = pk.TypesInfo.Defs[id]
				}
				if o == nil {
					return true
				}
				if name := rename(o); name != "" && name != id.Name {
					pos := pk.Fset.Position(id.Pos())
					edits[pos.Filename] = append(edits[pos.Filename], at{pos.Offset, len(id.Name), name})
				}
				return true
			})
		}
	}
	out := map[string][]byte{}
	for file, es := range edits {
		src, ok := overlay[file]
		if !ok {
			var err error
			if src, err = os.ReadFile(file); err != nil {
				return nil
			}
		}
		sort.Slice(es, func(i, j int) bool { return es[i].off > es[j].off })
		prev := -1
		for _, e := range es {
			if e.off == prev {
				continue
			}
			prev = e.off
			src = append(src[:e.off:e.off], append([]byte(e.text), src[e.off+e.n:]...)...)
		}
		out[file] = src
	}
	return out
}

// writeDecls prints the declarations, with the build tags they exist with.
func writeDecls(root string) error {
	all := map[string]*decl{}
	in := map[string][]string{}
	for _, tags := range []string{"", "moderncsqlite", "nosqlite"} {
		pkgs, mod, err := loadPackages(root, tags, nil)
		if err != nil {
			return err
		}
		for k, d := range decls(pkgs, mod) {
			if all[k] == nil {
				all[k] = d
			}
			in[k] = append(in[k], variantName(tags))
		}
	}
	var l []*decl
	for _, d := range all {
		l = append(l, d)
	}
	sort.Slice(l, func(i, j int) bool {
		a, b := l[i], l[j]
		if a.order != b.order {
			return a.order < b.order
		}
		return a.kind+a.id < b.kind+b.id
	})
	for _, d := range l {
		fmt.Printf("%s\t%s\t%s\t%s\n", d.kind, d.id, d.desc, strings.Join(in[d.kind+" "+d.id], ","))
	}
	return nil
}
