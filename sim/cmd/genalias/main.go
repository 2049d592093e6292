// genalias writes alias packages: every exported identifier of a package,
// forwarded, except those a hand-written stand-in in the same directory defines.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	// genalias importpath dir
	path, dir := os.Args[1], os.Args[2]
	fset := token.NewFileSet()
	out, err := exec.Command("go", "list", "-export", "-f", "{{.Export}}", path).Output()
	if err != nil {
		panic(err)
	}
	exp := strings.TrimSpace(string(out))
	imp := importer.ForCompiler(fset, "gc", func(p string) (io.ReadCloser, error) {
		if p == path {
			return os.Open(exp)
		}
		o, err := exec.Command("go", "list", "-export", "-f", "{{.Export}}", p).Output()
		if err != nil {
			return nil, err
		}
		return os.Open(strings.TrimSpace(string(o)))
	})
	pkg, err := imp.Import(path)
	if err != nil {
		panic(err)
	}
	have := map[string]bool{}
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		if e.Name() == "alias_gen.go" || !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, e.Name()), nil, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					have[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, sp := range d.Specs {
					switch sp := sp.(type) {
					case *ast.TypeSpec:
						have[sp.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range sp.Names {
							have[n.Name] = true
						}
					}
				}
			}
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "// Code generated by genalias from %s. DO NOT EDIT.\n\npackage %s\n\nimport real %q\n\n", path, pkg.Name(), path)
	names := pkg.Scope().Names()
	sort.Strings(names)
	n := 0
	for _, name := range names {
		o := pkg.Scope().Lookup(name)
		if !o.Exported() || have[name] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = real.%s\n", name, name)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = real.%s\n", name, name)
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = real.%s\n", name, name)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = real.%s\n", name, name)
		}
		n++
	}
	if n == 0 {
		os.Remove(filepath.Join(dir, "alias_gen.go"))
		return
	}
	src, err := format.Source(b.Bytes())
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(dir, "alias_gen.go"), src, 0o644); err != nil {
		panic(err)
	}
}
