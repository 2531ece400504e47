// genshim writes re-export files for the simulator's stand-ins of standard
// packages: everything the stand-in does not define itself is forwarded.
// Usage: genshim DIR (the simrt module directory).
package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var shims = [][3]string{ // std path, package name, dir
	{"sync", "sync", "sync"},
	{"sync/atomic", "atomic", "atomic"},
	{"time", "time", "time"},
	{"context", "context", "context"},
	{"math/rand", "rand", "mrand"},
	{"math/rand/v2", "rand", "mrandv2"},
	{"crypto/rand", "rand", "crand"},
	{"os", "os", "os"},
	{"runtime", "runtime", "runtime"},
	{"runtime/debug", "debug", "debug"},
	{"syscall", "syscall", "syscall"},
}

func main() {
	root := os.Args[1]
	imp := importer.ForCompiler(token.NewFileSet(), "source", nil)
	for _, s := range shims {
		dir := filepath.Join(root, s[2])
		own := map[string]bool{}
		files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		fset := token.NewFileSet()
		for _, f := range files {
			if strings.Contains(f, "reexport_gen") {
				continue
			}
			af, err := parser.ParseFile(fset, f, nil, 0)
			if err != nil {
				panic(err)
			}
			for _, d := range af.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						own[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, sp := range d.Specs {
						switch sp := sp.(type) {
						case *ast.TypeSpec:
							own[sp.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range sp.Names {
								own[n.Name] = true
							}
						}
					}
				}
			}
		}
		pkg, err := imp.Import(s[0])
		if err != nil {
			panic(err)
		}
		var b strings.Builder
		fmt.Fprintf(&b, "// Code generated by genshim. DO NOT EDIT.\n\npackage %s\n\nimport std %q\n\n", s[1], s[0])
		names := pkg.Scope().Names()
		sort.Strings(names)
		for _, n := range names {
			o := pkg.Scope().Lookup(n)
			if !o.Exported() || own[n] || n == "ForkLock" {
				continue
			}
			switch o := o.(type) {
			case *types.Const:
				fmt.Fprintf(&b, "const %s = std.%s\n", n, n)
			case *types.Var:
				fmt.Fprintf(&b, "var %s = std.%s\n", n, n)
			case *types.Func:
				if o.Type().(*types.Signature).TypeParams().Len() > 0 {
					fmt.Fprintf(os.Stderr, "skip generic func %s.%s\n", s[0], n)
					continue
				}
				fmt.Fprintf(&b, "var %s = std.%s\n", n, n)
			case *types.TypeName:
				if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					fmt.Fprintf(os.Stderr, "skip generic type %s.%s\n", s[0], n)
					continue
				}
				fmt.Fprintf(&b, "type %s = std.%s\n", n, n)
			}
		}
		if strings.Count(b.String(), "std.") == 0 {
			continue
		}
		src, err := format.Source([]byte(b.String()))
		if err != nil {
			panic(err)
		}
		name := "reexport_gen.go"
		if s[0] == "syscall" {
			// run once with GOARCH=386 too
			name = "reexport_gen_" + build.Default.GOARCH + ".go"
		}
		if err := os.WriteFile(filepath.Join(dir, name), src, 0o644); err != nil {
			panic(err)
		}
	}
}
