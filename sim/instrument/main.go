// Command instrument rewrites the Go files of packages of the repository for
// deterministic simulation and writes a `go build -overlay` file. The
// repository itself is never changed.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	ImportMap  map[string]string
	Error      *struct{ Err string }
}

var shims = map[string]string{}

const rt = "verif.sim/simrt"

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "output directory")
	sim := flag.String("sim", "", "module directory in which go list runs")
	pk := flag.String("pkgs", ".,tevm,keccak,ec,cmd/eth", "packages to instrument, relative to the repository")
	sh := flag.String("shims", "sync,time,os,io/ioutil,path/filepath,os/exec,net,math/rand,crypto/rand,crypto/ecdsa,golang.org/x/crypto/ssh/terminal,golang.org/x/crypto/scrypt,golang.org/x/crypto/pbkdf2", "packages replaced by shims")
	mode := flag.String("mode", "full", "full: preemption points between all statements; calls: only around statements with calls; light: none")
	shMain := flag.String("mainshims", "fmt,log", "packages additionally replaced in main packages")
	flag.Parse()
	for _, s := range strings.Split(*sh, ",") {
		shims[s] = "verif.sim/shim/" + s
	}
	mainShims := map[string]string{}
	for k, v := range shims {
		mainShims[k] = v
	}
	for _, s := range strings.Split(*shMain, ",") {
		mainShims[s] = "verif.sim/shim/" + s
	}
	const mod = "github.com/philhofer/seth"
	var targets []string
	for _, p := range strings.Split(*pk, ",") {
		targets = append(targets, path.Join(mod, p))
	}
	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Name,Dir,Export,GoFiles,CgoFiles,ImportMap,Error"}, targets...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *sim
	cmd.Stderr = os.Stderr
	buf, err := cmd.Output()
	if err != nil {
		fatal("go list: %s", err)
	}
	pkgs := map[string]*listPkg{}
	dec := json.NewDecoder(bytes.NewReader(buf))
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %s", err)
		}
		pkgs[p.ImportPath] = p
	}
	overlay := map[string]string{}
	for _, t := range targets {
		p := pkgs[t]
		if p == nil {
			fatal("package %s not found", t)
		}
		isMain := p.Name == "main"
		sm := shims
		if isMain {
			sm = mainShims
		}
		fset := token.NewFileSet()
		var files []*ast.File
		var srcs [][]byte
		for _, f := range p.GoFiles {
			src, err := os.ReadFile(filepath.Join(p.Dir, f))
			if err != nil {
				fatal("%s", err)
			}
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), src, parser.ParseComments)
			if err != nil {
				fatal("%s", err)
			}
			files = append(files, af)
			srcs = append(srcs, src)
		}
		imp := importer.ForCompiler(fset, "gc", func(ip string) (io.ReadCloser, error) {
			if m, ok := p.ImportMap[ip]; ok {
				ip = m
			}
			q := pkgs[ip]
			if q == nil || q.Export == "" {
				return nil, fmt.Errorf("no export data for %s", ip)
			}
			return os.Open(q.Export)
		})
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, GoVersion: "go1.21"}
		tp, err := conf.Check(t, fset, files, info)
		if err != nil {
			fatal("type check %s: %s", t, err)
		}
		for i, af := range files {
			name := p.GoFiles[i]
			dst := filepath.Join(p.Dir, name)
			if isMain {
				dst = filepath.Join(*repo, "zz_sim_"+path.Base(t), name)
			}
			gen := strings.HasSuffix(name, "_gen.go") || bytes.Contains(srcs[i], []byte("//go:noescape")) ||
				bytes.Contains(srcs[i], []byte("//go:linkname")) || bytes.Contains(srcs[i], []byte("//go:embed"))
			big := strings.HasPrefix(name, "gensecp") || name == "secp256k1.go" && strings.HasSuffix(t, "/ec")
			if (gen || big) && !isMain {
				continue
			}
			r := &rewriter{fset: fset, info: info, pkg: tp, shims: sm, file: af, fn: t, mode: *mode}
			r.rewrite(!gen)
			if isMain {
				af.Name.Name = "sim" + path.Base(t)
				for _, d := range af.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
						fd.Name.Name = "Main"
					}
				}
			}
			var b bytes.Buffer
			b.WriteString(constraints(srcs[i], af))
			af.Comments = nil
			af.Doc = nil
			clean(af)
			if err := format.Node(&b, token.NewFileSet(), af); err != nil {
				fatal("%s: %s", dst, err)
			}
			of := filepath.Join(*out, strings.ReplaceAll(strings.TrimPrefix(dst, "/"), "/", "__"))
			if err := os.WriteFile(of, b.Bytes(), 0644); err != nil {
				fatal("%s", err)
			}
			overlay[dst] = of
		}
	}
	ob, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), ob, 0644); err != nil {
		fatal("%s", err)
	}
}

func constraints(src []byte, f *ast.File) string {
	var ex constraint.Expr
	var plus constraint.Expr
	for _, l := range strings.Split(string(src), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "package ") {
			break
		}
		if constraint.IsGoBuild(l) {
			ex, _ = constraint.Parse(l)
		} else if constraint.IsPlusBuild(l) {
			e, err := constraint.Parse(l)
			if err == nil {
				if plus == nil {
					plus = e
				} else {
					plus = &constraint.AndExpr{X: plus, Y: e}
				}
			}
		}
	}
	if ex == nil {
		ex = plus
	}
	if ex == nil {
		return "//go:build go1.21\n\n"
	}
	return "//go:build (" + ex.String() + ") && go1.21\n\n"
}

// clean drops doc comments and positions that would confuse the printer.
func clean(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			n.Doc = nil
		case *ast.GenDecl:
			n.Doc = nil
		case *ast.Field:
			n.Doc = nil
			n.Comment = nil
		case *ast.ValueSpec:
			n.Doc = nil
			n.Comment = nil
		case *ast.TypeSpec:
			n.Doc = nil
			n.Comment = nil
		case *ast.ImportSpec:
			n.Doc = nil
			n.Comment = nil
		}
		return true
	})
}

type rewriter struct {
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	shims map[string]string
	file  *ast.File
	fn    string
	cur   string
	mode  string
	n     int
	used  bool
}

func (r *rewriter) rt(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("simrt__"), Sel: ast.NewIdent(name)}
}

func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.rt(name), Args: args}
}

func (r *rewriter) tmp() *ast.Ident {
	r.n++
	return ast.NewIdent("sim__" + strconv.Itoa(r.n))
}

func (r *rewriter) yield() ast.Stmt { return &ast.ExprStmt{X: r.call("Yield")} }

func (r *rewriter) rewrite(instr bool) {
	for _, is := range r.file.Imports {
		ip, _ := strconv.Unquote(is.Path.Value)
		if s, ok := r.shims[ip]; ok {
			if is.Name == nil {
				base := path.Base(ip)
				is.Name = ast.NewIdent(base)
			}
			is.Path.Value = strconv.Quote(s)
			is.EndPos = 0
		}
	}
	if !instr {
		return
	}
	for _, d := range r.file.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				r.cur = d.Name.Name
				if d.Recv != nil && len(d.Recv.List) > 0 {
					r.cur = recvName(d.Recv.List[0].Type) + "." + r.cur
				}
				r.block(d.Body)
			}
		case *ast.GenDecl:
			r.cur = "init"
			for _, sp := range d.Specs {
				if vs, ok := sp.(*ast.ValueSpec); ok {
					if len(vs.Names) == 2 && len(vs.Values) == 1 {
						if c := r.recv2(vs.Values[0]); c != nil {
							vs.Values[0] = c
							continue
						}
					}
					for i := range vs.Values {
						vs.Values[i] = r.expr(vs.Values[i])
					}
				}
			}
		}
	}
	if r.used {
		spec := &ast.ImportSpec{Name: ast.NewIdent("simrt__"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(rt)}}
		r.file.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, r.file.Decls...)
	}
}

func recvName(e ast.Expr) string {
	switch e := e.(type) {
	case *ast.StarExpr:
		return recvName(e.X)
	case *ast.Ident:
		return e.Name
	}
	return "?"
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.list(b.List)
}

func (r *rewriter) list(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		if _, ok := s.(*ast.EmptyStmt); ok {
			out = append(out, s)
			continue
		}
		y := r.mode == "full"
		if r.mode == "calls" {
			ast.Inspect(s, func(n ast.Node) bool {
				if _, ok := n.(*ast.CallExpr); ok {
					y = true
				}
				return !y
			})
		}
		n := r.stmt(s)
		if y {
			out = append(out, r.yield())
		}
		out = append(out, n)
	}
	return out
}

func (r *rewriter) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	return r.stmt(s)
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	return nil
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.LabeledStmt:
		n := r.stmt(s.Stmt)
		if b, ok := n.(*ast.BlockStmt); ok && s.Stmt != ast.Stmt(b) {
			// a hoisting block made by us: move the label inside
			if _, orig := s.Stmt.(*ast.BlockStmt); !orig {
				last := len(b.List) - 1
				s.Stmt = b.List[last]
				b.List[last] = s
				return b
			}
		}
		s.Stmt = n
		return s
	case *ast.BlockStmt:
		r.block(s)
		return s
	case *ast.IfStmt:
		s.Init = r.simple(s.Init)
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		if s.Else != nil {
			s.Else = r.stmt(s.Else)
		}
		return s
	case *ast.ForStmt:
		s.Init = r.simple(s.Init)
		if s.Cond != nil {
			s.Cond = r.expr(s.Cond)
		}
		s.Post = r.simple(s.Post)
		r.block(s.Body)
		if len(s.Body.List) == 0 {
			s.Body.List = []ast.Stmt{r.yield()}
		}
		return s
	case *ast.RangeStmt:
		return r.rangeStmt(s)
	case *ast.SwitchStmt:
		s.Init = r.simple(s.Init)
		if s.Tag != nil {
			s.Tag = r.expr(s.Tag)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = r.expr(cc.List[i])
			}
			cc.Body = r.list(cc.Body)
		}
		return s
	case *ast.TypeSwitchStmt:
		s.Init = r.simple(s.Init)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = r.list(cc.Body)
		}
		return s
	case *ast.SelectStmt:
		return r.selectStmt(s)
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		s.Call = r.callArgs(s.Call)
		return s
	case *ast.SendStmt:
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("Send", r.expr(s.Chan)), Args: []ast.Expr{r.expr(s.Value)}}}
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
		return s
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if c := r.recv2(s.Rhs[0]); c != nil {
				s.Rhs[0] = c
				return s
			}
		}
		for i := range s.Rhs {
			s.Rhs[i] = r.expr(s.Rhs[i])
		}
		for i := range s.Lhs {
			s.Lhs[i] = r.expr(s.Lhs[i])
		}
		if s.Tok != token.ASSIGN && s.Tok != token.DEFINE && r.shared(s.Lhs[0]) {
			op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
				token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR,
				token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}[s.Tok]
			if op != 0 {
				return &ast.AssignStmt{Lhs: s.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: r.call("Val0", s.Lhs[0]), Op: op, Y: &ast.ParenExpr{X: s.Rhs[0]}}}}
			}
		}
		return s
	case *ast.IncDecStmt:
		s.X = r.expr(s.X)
		if r.shared(s.X) {
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			return &ast.AssignStmt{Lhs: []ast.Expr{s.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: r.call("Val0", s.X), Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}}
		}
		return s
	case *ast.ReturnStmt:
		for i := range s.Results {
			s.Results[i] = r.expr(s.Results[i])
		}
		return s
	case *ast.DeclStmt:
		if gd, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range gd.Specs {
				if vs, ok := sp.(*ast.ValueSpec); ok {
					if len(vs.Names) == 2 && len(vs.Values) == 1 {
						if c := r.recv2(vs.Values[0]); c != nil {
							vs.Values[0] = c
							continue
						}
					}
					for i := range vs.Values {
						vs.Values[i] = r.expr(vs.Values[i])
					}
				}
			}
		}
		return s
	}
	return s
}

// shared reports whether a read-modify-write of e may race: fields, elements,
// dereferences and package variables, if evaluating e twice is harmless.
func (r *rewriter) shared(e ast.Expr) bool {
	pure := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			pure = false
		}
		return pure
	})
	if !pure || r.mode != "full" || strings.HasSuffix(r.fn, "/ec") || strings.HasSuffix(r.fn, "/keccak") {
		return false
	}
	switch e := e.(type) {
	case *ast.SelectorExpr, *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		return true
	case *ast.ParenExpr:
		return r.shared(e.X)
	case *ast.Ident:
		o := r.info.Uses[e]
		return o != nil && o.Parent() == r.pkg.Scope()
	}
	return false
}

func (r *rewriter) recv2(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return r.call("Recv2", r.expr(u.X))
	}
	return nil
}

func (r *rewriter) isBuiltin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, b := r.info.Uses[id].(*types.Builtin)
	return b
}

func (r *rewriter) callArgs(c *ast.CallExpr) *ast.CallExpr {
	if r.isBuiltin(c.Fun, "close") {
		return r.call("Close", r.expr(c.Args[0]))
	}
	c.Fun = r.expr(c.Fun)
	for i := range c.Args {
		c.Args[i] = r.expr(c.Args[i])
	}
	return c
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return r.call("Recv", r.expr(e.X))
		}
		e.X = r.expr(e.X)
	case *ast.BinaryExpr:
		e.X = r.expr(e.X)
		e.Y = r.expr(e.Y)
	case *ast.CallExpr:
		return r.callArgs(e)
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
	case *ast.SelectorExpr:
		e.X = r.expr(e.X)
	case *ast.IndexExpr:
		e.X = r.expr(e.X)
		e.Index = r.expr(e.Index)
	case *ast.SliceExpr:
		e.X = r.expr(e.X)
		if e.Low != nil {
			e.Low = r.expr(e.Low)
		}
		if e.High != nil {
			e.High = r.expr(e.High)
		}
		if e.Max != nil {
			e.Max = r.expr(e.Max)
		}
	case *ast.StarExpr:
		e.X = r.expr(e.X)
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
	case *ast.CompositeLit:
		for i := range e.Elts {
			e.Elts[i] = r.expr(e.Elts[i])
		}
	case *ast.KeyValueExpr:
		e.Value = r.expr(e.Value)
	case *ast.FuncLit:
		r.block(e.Body)
	}
	return e
}

func define(lhs ast.Expr, rhs ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.DEFINE, Rhs: []ast.Expr{rhs}}
}

func (r *rewriter) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	t := r.typeOf(s.X)
	s.X = r.expr(s.X)
	r.block(s.Body)
	if len(s.Body.List) == 0 {
		s.Body.List = []ast.Stmt{r.yield()}
	}
	if t == nil {
		return s
	}
	blank := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		return e == nil || ok && id.Name == "_"
	}
	switch t.Underlying().(type) {
	case *types.Map:
		m := r.tmp()
		blk := []ast.Stmt{define(m, s.X)}
		key, val := s.Key, s.Value
		if s.Tok == token.DEFINE && !(blank(key) && blank(val)) {
			var k, v ast.Expr = ast.NewIdent("_"), ast.NewIdent("_")
			if !blank(key) {
				k = key
			}
			if !blank(val) {
				v = val
			}
			blk = append(blk, &ast.AssignStmt{Lhs: []ast.Expr{k, v}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("MapZero", m)}})
		}
		kk := r.tmp()
		ok := r.tmp()
		var pre []ast.Stmt
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: m, Index: kk}}})
		pre = append(pre, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		if !blank(key) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{key}, Tok: token.ASSIGN, Rhs: []ast.Expr{kk}})
		}
		if !blank(val) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{val}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.IndexExpr{X: m, Index: kk}}})
		}
		body := &ast.BlockStmt{List: append(pre, s.Body.List...)}
		blk = append(blk, &ast.RangeStmt{Key: ast.NewIdent("_"), Value: kk, Tok: token.DEFINE, X: r.call("MapKeys", m), Body: body})
		return &ast.BlockStmt{List: blk}
	case *types.Chan:
		c := r.tmp()
		blk := []ast.Stmt{define(c, s.X)}
		v, ok := r.tmp(), r.tmp()
		pre := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("Recv2", c)}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
		}
		if !blank(s.Key) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: s.Tok, Rhs: []ast.Expr{v}})
		} else {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
		}
		blk = append(blk, &ast.ForStmt{Body: &ast.BlockStmt{List: append(pre, s.Body.List...)}})
		return &ast.BlockStmt{List: blk}
	}
	return s
}

func (r *rewriter) selectStmt(s *ast.SelectStmt) ast.Stmt {
	if len(s.Body.List) == 0 {
		return &ast.ExprStmt{X: r.call("Block")}
	}
	var blk []ast.Stmt
	idx, val, okv := r.tmp(), r.tmp(), r.tmp()
	def := "false"
	var cases []ast.Expr
	var clauses []ast.Stmt
	n := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		use := &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{val, okv}}
		body := []ast.Stmt{use}
		if cc.Comm == nil {
			def = "true"
			clauses = append(clauses, &ast.CaseClause{Body: append(body, r.list(cc.Body)...)})
			continue
		}
		label := &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}
		n++
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			ch := r.tmp()
			blk = append(blk, define(ch, r.expr(cm.Chan)))
			v := r.expr(cm.Value)
			cases = append(cases, &ast.CallExpr{Fun: r.call("SendCase", ch), Args: []ast.Expr{v}})
		default:
			var rx ast.Expr
			var lhs []ast.Expr
			tok := token.DEFINE
			switch cm := cm.(type) {
			case *ast.ExprStmt:
				rx = cm.X
			case *ast.AssignStmt:
				rx = cm.Rhs[0]
				lhs = cm.Lhs
				tok = cm.Tok
			}
			for {
				p, ok := rx.(*ast.ParenExpr)
				if !ok {
					break
				}
				rx = p.X
			}
			u := rx.(*ast.UnaryExpr)
			ch := r.tmp()
			blk = append(blk, define(ch, r.expr(u.X)))
			cases = append(cases, r.call("RecvCase", ch))
			if len(lhs) > 0 {
				rhs := []ast.Expr{r.call("Val", ch, val)}
				if len(lhs) == 2 {
					rhs = append(rhs, okv)
				}
				body = append(body, &ast.AssignStmt{Lhs: lhs, Tok: tok, Rhs: rhs})
			}
		}
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{label}, Body: append(body, r.list(cc.Body)...)})
	}
	args := append([]ast.Expr{ast.NewIdent(def)}, cases...)
	sw := &ast.SwitchStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{idx, val, okv}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("Select", args...)}},
		Tag:  idx,
		Body: &ast.BlockStmt{List: clauses},
	}
	// a select whose clauses all end in a terminating statement is itself
	// terminating; a switch is only if it has a default
	if def == "false" {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}}}})
	}
	return &ast.BlockStmt{List: append(blk, sw)}
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	name := &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(r.cur)}
	if fl, ok := s.Call.Fun.(*ast.FuncLit); ok && len(s.Call.Args) == 0 {
		if fl.Type.Results == nil || len(fl.Type.Results.List) == 0 {
			name.Value = strconv.Quote(r.cur + ".func")
			return &ast.ExprStmt{X: r.call("Go", name, r.expr(fl))}
		}
	}
	switch f := s.Call.Fun.(type) {
	case *ast.Ident:
		name.Value = strconv.Quote(f.Name)
	case *ast.SelectorExpr:
		name.Value = strconv.Quote(f.Sel.Name)
	}
	var blk []ast.Stmt
	hoist := func(e ast.Expr) ast.Expr {
		tv, ok := r.info.Types[e]
		e2 := r.expr(e)
		if ok && (tv.Value != nil || tv.IsNil() || tv.IsBuiltin() || tv.IsType()) {
			return e2
		}
		if b, isb := tv.Type.(*types.Basic); isb && b.Info()&types.IsUntyped != 0 {
			return e2
		}
		t := r.tmp()
		blk = append(blk, define(t, e2))
		return t
	}
	call := &ast.CallExpr{Fun: s.Call.Fun, Ellipsis: s.Call.Ellipsis}
	if r.isBuiltin(s.Call.Fun, "close") {
		call = r.call("Close", hoist(s.Call.Args[0]))
	} else {
		if tv, ok := r.info.Types[s.Call.Fun]; ok && (tv.IsBuiltin() || tv.IsType()) {
			call.Fun = s.Call.Fun
		} else {
			call.Fun = hoist(s.Call.Fun)
		}
		for _, a := range s.Call.Args {
			call.Args = append(call.Args, hoist(a))
		}
	}
	fl := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}}
	blk = append(blk, &ast.ExprStmt{X: r.call("Go", name, fl)})
	return &ast.BlockStmt{List: blk}
}
