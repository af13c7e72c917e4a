// Command genshim writes the re-exporting half of every shim package: each
// exported name of the real package that the shim does not define itself.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	root := "shim"
	filepath.Walk(root, func(dir string, fi os.FileInfo, err error) error {
		if err != nil || !fi.IsDir() {
			return err
		}
		matches, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		if len(matches) == 0 {
			return nil
		}
		ip, _ := filepath.Rel(root, dir)
		gen(dir, filepath.ToSlash(ip))
		return nil
	})
}

func gen(dir, ip string) {
	fset := token.NewFileSet()
	own := map[string]bool{}
	pk, err := parser.ParseDir(fset, dir, func(fi os.FileInfo) bool { return fi.Name() != "zz_reexport.go" }, 0)
	if err != nil {
		panic(err)
	}
	for _, p := range pk {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						own[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							own[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								own[n.Name] = true
							}
						}
					}
				}
			}
		}
	}
	imp := importer.ForCompiler(fset, "gc", func(q string) (io.ReadCloser, error) {
		cmd := exec.Command("go", "list", "-export", "-f", "{{.Export}}", q)
		cmd.Stderr = os.Stderr
		o, err := cmd.Output()
		if err != nil {
			return nil, err
		}
		return os.Open(strings.TrimSpace(string(o)))
	})
	p, err := imp.Import(ip)
	if err != nil {
		panic(err)
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "// Code generated by genshim; DO NOT EDIT.\n\npackage %s\n\nimport real %q\n\n", p.Name(), ip)
	names := p.Scope().Names()
	sort.Strings(names)
	n := 0
	for _, name := range names {
		o := p.Scope().Lookup(name)
		if !o.Exported() || own[name] {
			continue
		}
		n++
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = real.%s\n", name, name)
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				n--
				continue
			}
			fmt.Fprintf(&b, "type %s = real.%s\n", name, name)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = real.%s\n", name, name)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				n--
				continue
			}
			fmt.Fprintf(&b, "var %s = real.%s\n", name, name)
		}
	}
	out := filepath.Join(dir, "zz_reexport.go")
	if n == 0 {
		os.Remove(out)
		return
	}
	src, err := format.Source(b.Bytes())
	if err != nil {
		panic(err)
	}
	os.WriteFile(out, src, 0644)
}
