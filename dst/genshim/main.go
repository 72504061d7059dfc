// genshim writes the re-exports of a shim package: everything the real package exports and the
// hand-written part of the shim does not define itself (and that is not listed as forbidden).
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type pkgSpec struct {
	path, dir, name string
	forbid          string
}

var specs = []pkgSpec{
	{"os", "os", "os", "Root OpenRoot OpenInRoot StartProcess FindProcess Process ProcAttr NewFile Pipe CopyFS"},
	{"time", "time", "time", ""},
	{"sync", "sync", "sync", ""},
	{"os/exec", "exec", "exec", ""},
	{"path/filepath", "filepath", "filepath", ""},
	{"io/ioutil", "ioutil", "ioutil", ""},
	{"math/rand", "rand", "rand", ""},
	{"math/rand/v2", "randv2", "rand", ""},
	{"crypto/rand", "crand", "rand", ""},
	{"net/http", "nethttp", "http", "ListenAndServe ListenAndServeTLS Serve ServeTLS"},
	{"context", "context", "context", ""},
	{"log", "log", "log", ""},
	{"maps", "maps", "maps", ""},
	{"runtime", "runtime", "runtime", ""},
}

func main() {
	base := os.Args[1]
	imp := importer.ForCompiler(token.NewFileSet(), "source", nil)
	for _, s := range specs {
		dir := filepath.Join(base, s.dir)
		have := map[string]bool{}
		fset := token.NewFileSet()
		ents, _ := os.ReadDir(dir)
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") || e.Name() == "zz_gen.go" {
				continue
			}
			f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, 0)
			if err != nil {
				panic(err)
			}
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						have[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, sp := range d.Specs {
						switch sp := sp.(type) {
						case *ast.TypeSpec:
							have[sp.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range sp.Names {
								have[n.Name] = true
							}
						}
					}
				}
			}
		}
		for _, n := range strings.Fields(s.forbid) {
			have[n] = true
		}
		p, err := imp.Import(s.path)
		if err != nil {
			panic(err)
		}
		names := p.Scope().Names()
		sort.Strings(names)
		var b bytes.Buffer
		var out []string
		for _, n := range names {
			o := p.Scope().Lookup(n)
			if !o.Exported() || have[n] {
				continue
			}
			switch o := o.(type) {
			case *types.Const:
				out = append(out, fmt.Sprintf("const %s = real.%s", n, n))
			case *types.Var:
				out = append(out, fmt.Sprintf("var %s = real.%s", n, n))
			case *types.TypeName:
				if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				out = append(out, fmt.Sprintf("type %s = real.%s", n, n))
			case *types.Func:
				if o.Type().(*types.Signature).TypeParams().Len() > 0 {
					continue
				}
				out = append(out, fmt.Sprintf("var %s = real.%s", n, n))
			}
		}
		fmt.Fprintf(&b, "// Code generated by genshim; DO NOT EDIT.\n\npackage %s\n\n", s.name)
		if len(out) > 0 {
			fmt.Fprintf(&b, "import real %q\n\n", s.path)
		}
		for _, l := range out {
			b.WriteString(l + "\n")
		}
		src, err := format.Source(b.Bytes())
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(filepath.Join(dir, "zz_gen.go"), src, 0644); err != nil {
			panic(err)
		}
	}
}
