package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"hash/fnv"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// renameDecls gives some unexported functions, methods, fields, types and
// variables of packages new names. Names that tests use are left alone.
func renameDecls(pkgs []*packages.Package, dir string, seed, percent int, what string) {
	inTests := map[string]bool{}
	ident := regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_]*`)
	filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(path, "_test.go") {
			b, _ := os.ReadFile(path)
			for _, m := range ident.FindAllString(string(b), -1) {
				inTests[m] = true
			}
		}
		return nil
	})
	used := map[string]int{} // identifiers
	imeth := map[string]bool{}
	for _, pkg := range pkgs {
		for id, o := range pkg.TypesInfo.Defs {
			used[id.Name]++
			if f, ok := o.(*types.Func); ok {
				if r := f.Type().(*types.Signature).Recv(); r != nil && types.IsInterface(r.Type()) {
					imeth[f.Name()] = true
				}
			}
		}
	}
	names := map[types.Object]string{}
	for _, pkg := range pkgs {
		for id, o := range pkg.TypesInfo.Defs {
			if o == nil || ast.IsExported(id.Name) || inTests[id.Name] || id.Name == "_" || id.Name == "main" || id.Name == "init" {
				continue
			}
			kind := ""
			switch x := o.(type) {
			case *types.Func:
				if x.Type().(*types.Signature).Recv() != nil {
					if imeth[id.Name] {
						continue
					}
					kind = "method"
				} else {
					kind = "func"
				}
			case *types.Var:
				if x.IsField() {
					if x.Embedded() {
						continue
					}
					kind = "field"
				} else if x.Parent() == pkg.Types.Scope() {
					kind = "var"
				}
			case *types.Const:
				if x.Parent() == pkg.Types.Scope() {
					kind = "const"
				}
			case *types.TypeName:
				if x.Parent() == pkg.Types.Scope() {
					kind = "type"
				}
			}
			if kind == "" || !strings.Contains(what, kind) {
				continue
			}
			h := fnv.New32a()
			fmt.Fprintf(h, "%d %s %s", seed, id.Name, kind)
			if int(h.Sum32()>>8%100) < percent {
				names[o] = id.Name + "QQ"
			}
		}
	}
	byFile := map[string][]edit{}
	done := map[token.Pos]bool{}
	for _, pkg := range pkgs {
		for i, f := range pkg.Syntax {
			fn := pkg.CompiledGoFiles[i]
			ast.Inspect(f, func(n ast.Node) bool {
				id, ok := n.(*ast.Ident)
				if !ok || done[id.Pos()] {
					return true
				}
				o := pkg.TypesInfo.Uses[id]
				if o == nil {
					o = pkg.TypesInfo.Defs[id]
				}
				switch x := o.(type) {
				case *types.Var:
					o = x.Origin()
					if x.IsField() && x.Embedded() {
						t := x.Type()
						if pt, ok := t.(*types.Pointer); ok {
							t = pt.Elem()
						}
						if nt, ok := t.(*types.Named); ok {
							o = nt.Obj()
						}
					}
				case *types.Func:
					o = x.Origin()
				}
				if name := names[o]; name != "" {
					done[id.Pos()] = true
					off := pkg.Fset.Position(id.Pos()).Offset
					byFile[fn] = append(byFile[fn], edit{fn, off, off + len(id.Name), name})
				}
				return true
			})
		}
	}
	fmt.Printf("%d places\n", len(names))
	for fn, es := range byFile {
		sort.Slice(es, func(i, j int) bool { return es[i].start > es[j].start })
		b, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		for _, e := range es {
			b = append(b[:e.start:e.start], append([]byte(e.text), b[e.end:]...)...)
		}
		if err := os.WriteFile(fn, b, 0644); err != nil {
			panic(err)
		}
	}
}
