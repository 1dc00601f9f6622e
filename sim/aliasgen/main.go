// aliasgen completes a simulator package with aliases for everything of the
// standard package it replaces that needs no simulation.
//
// usage: aliasgen stdpkg dir skip,skip,...
package main

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	std, dir := os.Args[1], os.Args[2]
	skip := map[string]bool{}
	for _, s := range strings.Split(os.Args[3], ",") {
		skip[s] = true
	}
	fset := token.NewFileSet()
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	pkgName := ""
	for _, f := range fs {
		if strings.HasSuffix(f, "zz_alias.go") {
			continue
		}
		a, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			panic(err)
		}
		pkgName = a.Name.Name
		for _, d := range a.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Recv == nil {
					skip[x.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range x.Specs {
					switch y := s.(type) {
					case *ast.TypeSpec:
						skip[y.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range y.Names {
							skip[n.Name] = true
						}
					}
				}
			}
		}
	}
	imp := importer.ForCompiler(fset, "source", nil)
	p, err := imp.Import(std)
	if err != nil {
		panic(err)
	}
	var b strings.Builder
	fmt.Fprintf(&b, "// Code generated by aliasgen. DO NOT EDIT.\npackage %s\n\nimport std %q\n\n", pkgName, std)
	names := p.Scope().Names()
	sort.Strings(names)
	used := false
	for _, n := range names {
		o := p.Scope().Lookup(n)
		if !o.Exported() || skip[n] {
			continue
		}
		switch x := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = std.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = std.%s\n", n, n)
		case *types.TypeName:
			if nt, ok := x.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = std.%s\n", n, n)
		case *types.Func:
			if x.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = std.%s\n", n, n)
		}
		used = true
	}
	_ = used
	if false {
		fmt.Fprintf(&b, "var _ std.Locker\n")
	}
	out, err := format.Source([]byte(b.String()))
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(dir, "zz_alias.go"), out, 0o644); err != nil {
		panic(err)
	}
}
