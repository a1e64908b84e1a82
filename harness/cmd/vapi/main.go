// vapi lists the exported declarations of the Go package in a directory, one per line, sorted,
// as the type checker sees them: names, signatures and method sets, no positions or comments.
package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
)

func main() {
	dir := os.Args[1]
	bp, err := build.ImportDir(dir, 0)
	if err != nil {
		fmt.Println("error:", err)
		os.Exit(1)
	}
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range bp.GoFiles {
		a, err := parser.ParseFile(fset, filepath.Join(dir, f), nil, 0)
		if err != nil {
			fmt.Println("error:", err)
			os.Exit(1)
		}
		files = append(files, a)
	}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil), Error: func(error) {}}
	pkg, _ := conf.Check("p", fset, files, nil)
	qual := func(p *types.Package) string {
		if p == pkg {
			return ""
		}
		return p.Name()
	}
	var out []string
	for _, n := range pkg.Scope().Names() {
		o := pkg.Scope().Lookup(n)
		if !o.Exported() {
			continue
		}
		switch o := o.(type) {
		case *types.Func:
			out = append(out, "func "+n+types.TypeString(anon(o.Type()), qual)[4:])
		case *types.TypeName:
			out = append(out, "type "+n)
			if t, ok := o.Type().(*types.Named); ok {
				for i := 0; i < t.NumMethods(); i++ {
					if m := t.Method(i); m.Exported() {
						out = append(out, "method "+n+"."+m.Name()+types.TypeString(anon(m.Type()), qual)[4:])
					}
				}
			}
		default:
			out = append(out, fmt.Sprintf("%s %s", n, types.TypeString(o.Type(), qual)))
		}
	}
	sort.Strings(out)
	for _, l := range out {
		fmt.Println(l)
	}
}

// anon drops parameter names, also of nested function types.
func anon(t types.Type) types.Type {
	sig, ok := t.(*types.Signature)
	if !ok {
		return t
	}
	tuple := func(p *types.Tuple) *types.Tuple {
		var l []*types.Var
		for i := 0; i < p.Len(); i++ {
			l = append(l, types.NewVar(token.NoPos, nil, "", anon(p.At(i).Type())))
		}
		return types.NewTuple(l...)
	}
	return types.NewSignatureType(nil, nil, nil, tuple(sig.Params()), tuple(sig.Results()), sig.Variadic())
}
