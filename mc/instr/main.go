// Command instr writes an instrumented copy of Go packages: time, sync,
// sync/atomic, math/rand, goroutines, channels and map iteration are routed to
// the controlled runtime (verif/vrt), and a scheduling point is put before
// every statement that may touch shared memory. Nothing else changes: the code
// that runs under the model checker is the code in the tree.
//
// usage: instr OUTDIR SRCMODDIR PKG...
// PKG is a package directory relative to SRCMODDIR or IMPORTPATH=DIR, a
// dependency of the module that goes to OUTDIR/DIR.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var swap = map[string]string{
	"time":         "verif/vrt/vtime",
	"sync":         "verif/vrt/vsync",
	"sync/atomic":  "verif/vrt/vatomic",
	"math/rand":    "verif/vrt/vrand",
	"math/rand/v2": "verif/vrt/vrand",
}

var defName = map[string]string{
	"time": "time", "sync": "sync", "sync/atomic": "atomic", "math/rand": "rand", "math/rand/v2": "rand",
}

// points: put scheduling points between statements (not for libraries that run
// at the granularity of their locks, timers and goroutines).
var points = os.Getenv("VRT_NOPOINTS") == ""

type pkgInfo struct {
	Dir        string
	ImportPath string
	Export     string
	GoFiles    []string
	ImportMap  map[string]string
	Error      *struct{ Err string }
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(1)
}

func main() {
	if len(os.Args) < 4 {
		die("usage: instr OUTDIR MODDIR PKG...")
	}
	out, mod := os.Args[1], os.Args[2]
	pkgs := os.Args[3:]
	var list []string
	for _, p := range pkgs {
		path, _, _ := strings.Cut(p, "=")
		list = append(list, path)
	}
	args := append([]string{"list", "-export", "-deps", "-json=Dir,ImportPath,Export,GoFiles,ImportMap,Error"}, list...)
	cmd := exec.Command("go", args...)
	cmd.Dir = mod
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		die("go list in %s: %v", mod, err)
	}
	byPath := map[string]*pkgInfo{}
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		p := new(pkgInfo)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("%v", err)
		}
		byPath[p.ImportPath] = p
	}
	modAbs, _ := filepath.Abs(mod)
	for _, want := range pkgs {
		path, sub, named := strings.Cut(want, "=")
		dir := filepath.Join(modAbs, want)
		if named {
			want = sub
		}
		var p *pkgInfo
		for _, q := range byPath {
			if q.Dir == dir || named && q.ImportPath == path {
				p = q
			}
		}
		if p == nil {
			die("package %s not found", want)
		}
		instrument(p, byPath, filepath.Join(out, want))
	}
}

func instrument(p *pkgInfo, byPath map[string]*pkgInfo, outDir string) {
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range p.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		q := byPath[path]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(q.Export)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp, Error: func(error) {}}
	conf.Check(p.ImportPath, fset, files, info)
	if err := os.MkdirAll(outDir, 0o755); err != nil {
		die("%v", err)
	}
	for i, af := range files {
		r := &rw{info: info}
		r.file(af)
		var buf bytes.Buffer
		if err := printer.Fprint(&buf, token.NewFileSet(), strip(af)); err != nil {
			die("%v", err)
		}
		if err := os.WriteFile(filepath.Join(outDir, p.GoFiles[i]), buf.Bytes(), 0o644); err != nil {
			die("%v", err)
		}
	}
}

// strip drops positions that would confuse the printer: with a fresh FileSet
// and no comments the printer lays the file out from the tree alone.
func strip(f *ast.File) *ast.File {
	f.Comments = nil
	return f
}

const rt = "vrt__"

type rw struct {
	info *types.Info
	n    int
}

func (r *rw) fresh(p string) *ast.Ident {
	r.n++
	return ast.NewIdent("v__" + p + strconv.Itoa(r.n))
}

func sel(x, s string) ast.Expr { return &ast.SelectorExpr{X: ast.NewIdent(x), Sel: ast.NewIdent(s)} }
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: f, Args: a}
}
func vcall(s string, a ...ast.Expr) *ast.CallExpr { return call(sel(rt, s), a...) }
func id(s string) *ast.Ident                      { return ast.NewIdent(s) }

func (r *rw) file(f *ast.File) {
	usesFmt := ""
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		if path == "fmt" {
			usesFmt = "fmt"
			if im.Name != nil {
				usesFmt = im.Name.Name
			}
		}
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				r.block(d.Body)
			}
		case *ast.GenDecl:
			if d.Tok == token.VAR {
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					for i := range vs.Values {
						vs.Values[i] = r.expr(vs.Values[i])
					}
				}
			}
		}
	}
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		if to, ok := swap[path]; ok {
			if im.Name == nil {
				im.Name = id(defName[path])
			}
			im.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(to)}
		}
	}
	// add the runtime import
	spec := &ast.ImportSpec{Name: id(rt), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif/vrt"`}}
	f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{sel(rt, "Point")}}}})
	if usesFmt != "" && usesFmt != "." && usesFmt != "_" {
		f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{sel(usesFmt, "Sprint")}}}})
	}
	// go:build lines and comments are dropped with the comments; positions too
	ast.Inspect(f, func(n ast.Node) bool { return true })
}

func (r *rw) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.stmts(b.List)
}

func (r *rw) stmts(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		if points && touches(s) {
			out = append(out, &ast.ExprStmt{X: vcall("Point")})
		}
		out = append(out, r.stmt(s))
	}
	return out
}

// touches reports whether executing s itself (not its nested blocks) may touch
// shared memory or call something.
func touches(s ast.Stmt) bool {
	found := false
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		if found {
			return false
		}
		switch n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr, *ast.CallExpr, *ast.RangeStmt, *ast.SendStmt, *ast.GoStmt, *ast.SelectStmt:
			found = true
			return false
		}
		return true
	}
	switch s := s.(type) {
	case *ast.LabeledStmt:
		return touches(s.Stmt)
	case *ast.DeclStmt, *ast.EmptyStmt, *ast.BranchStmt, *ast.BlockStmt:
		if d, ok := s.(*ast.DeclStmt); ok {
			ast.Inspect(d, visit)
			return found
		}
		return false
	}
	ast.Inspect(s, visit)
	return found
}

func (r *rw) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.BlockStmt:
		r.block(s)
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(vcall("Send", r.expr(s.Chan)), r.expr(s.Value))}
	case *ast.IncDecStmt:
		s.X = r.expr(s.X)
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				s.Rhs[0] = vcall("Recv2", r.expr(u.X))
				for i := range s.Lhs {
					s.Lhs[i] = r.expr(s.Lhs[i])
				}
				return s
			}
		}
		for i := range s.Lhs {
			s.Lhs[i] = r.expr(s.Lhs[i])
		}
		for i := range s.Rhs {
			s.Rhs[i] = r.expr(s.Rhs[i])
		}
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		s.Call = r.expr(s.Call).(*ast.CallExpr)
	case *ast.ReturnStmt:
		for i := range s.Results {
			s.Results[i] = r.expr(s.Results[i])
		}
	case *ast.IfStmt:
		if s.Init != nil {
			s.Init = r.stmt(s.Init)
		}
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		if s.Else != nil {
			s.Else = r.stmt(s.Else)
		}
	case *ast.CaseClause:
		for i := range s.List {
			s.List[i] = r.expr(s.List[i])
		}
		s.Body = r.stmts(s.Body)
	case *ast.SwitchStmt:
		if s.Init != nil {
			s.Init = r.stmt(s.Init)
		}
		if s.Tag != nil {
			s.Tag = r.expr(s.Tag)
		}
		for i := range s.Body.List {
			s.Body.List[i] = r.stmt(s.Body.List[i])
		}
	case *ast.TypeSwitchStmt:
		if s.Init != nil {
			s.Init = r.stmt(s.Init)
		}
		s.Assign = r.stmt(s.Assign)
		for i := range s.Body.List {
			s.Body.List[i] = r.stmt(s.Body.List[i])
		}
	case *ast.SelectStmt:
		return r.selectStmt(s)
	case *ast.ForStmt:
		if s.Init != nil {
			s.Init = r.stmt(s.Init)
		}
		if s.Cond != nil {
			s.Cond = r.expr(s.Cond)
		}
		if s.Post != nil {
			s.Post = r.stmt(s.Post)
		}
		r.block(s.Body)
	case *ast.RangeStmt:
		return r.rangeStmt(s, nil)
	case *ast.LabeledStmt:
		if rs, ok := s.Stmt.(*ast.RangeStmt); ok {
			return r.rangeStmt(rs, s.Label)
		}
		s.Stmt = r.stmt(s.Stmt)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Names) == 2 && len(vs.Values) == 1 {
					if u, ok := unparen(vs.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
						vs.Values[0] = vcall("Recv2", r.expr(u.X))
						continue
					}
				}
				for i := range vs.Values {
					vs.Values[i] = r.expr(vs.Values[i])
				}
			}
		}
	}
	return s
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rw) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 {
		return &ast.ExprStmt{X: vcall("Go", r.expr(fl))}
	}
	var pre []ast.Stmt
	fun := c.Fun
	tv := r.info.Types[c.Fun]
	if !tv.IsBuiltin() && !tv.IsType() {
		v := r.fresh("f")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(c.Fun)}})
		fun = id(v.Name)
	}
	args := make([]ast.Expr, len(c.Args))
	for i, a := range c.Args {
		at := r.info.Types[a]
		if at.Value != nil || at.IsNil() || at.IsType() {
			args[i] = a
			continue
		}
		v := r.fresh("a")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(a)}})
		args[i] = id(v.Name)
	}
	nc := &ast.CallExpr{Fun: fun, Args: args}
	if c.Ellipsis.IsValid() {
		nc.Ellipsis = 1
	}
	fl := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}}
	return &ast.BlockStmt{List: append(pre, &ast.ExprStmt{X: vcall("Go", fl)})}
}

func (r *rw) selectStmt(s *ast.SelectStmt) ast.Stmt {
	hasDefault := false
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
		}
		cc.Body = r.stmts(cc.Body)
	}
	if hasDefault {
		return s
	}
	lab := r.fresh("sel")
	s.Body.List = append(s.Body.List, &ast.CommClause{Body: []ast.Stmt{
		&ast.ExprStmt{X: vcall("Poll")},
		&ast.BranchStmt{Tok: token.GOTO, Label: id(lab.Name)},
	}})
	return &ast.LabeledStmt{Label: lab, Stmt: s}
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func (r *rw) rangeStmt(s *ast.RangeStmt, label *ast.Ident) ast.Stmt {
	wrap := func(st ast.Stmt) ast.Stmt {
		if label != nil {
			return &ast.LabeledStmt{Label: label, Stmt: st}
		}
		return st
	}
	t := r.info.Types[s.X].Type
	if t != nil {
		switch u := t.Underlying().(type) {
		case *types.Chan:
			_ = u
			x := r.expr(s.X)
			ch := r.fresh("c")
			ok := r.fresh("ok")
			var key ast.Expr = id("_")
			tok := token.DEFINE
			if !blank(s.Key) {
				key = s.Key
			}
			r.block(s.Body)
			var recv []ast.Stmt
			if s.Tok == token.ASSIGN && !blank(s.Key) {
				tmp := r.fresh("v")
				recv = append(recv,
					&ast.AssignStmt{Lhs: []ast.Expr{tmp, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{vcall("Recv2", id(ch.Name))}},
					&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
					&ast.AssignStmt{Lhs: []ast.Expr{key}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(tmp.Name)}})
			} else {
				recv = append(recv,
					&ast.AssignStmt{Lhs: []ast.Expr{key, ok}, Tok: tok, Rhs: []ast.Expr{vcall("Recv2", id(ch.Name))}},
					&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
			}
			loop := &ast.ForStmt{Body: &ast.BlockStmt{List: append(recv, s.Body.List...)}}
			return &ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{x}},
				wrap(loop),
			}}
		case *types.Map:
			x := r.expr(s.X)
			m := r.fresh("m")
			k := r.fresh("k")
			ok := r.fresh("ok")
			r.block(s.Body)
			var pre, in []ast.Stmt
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{m}, Tok: token.DEFINE, Rhs: []ast.Expr{x}})
			kb, vb := blank(s.Key), blank(s.Value)
			if s.Tok == token.DEFINE {
				switch {
				case !kb && !vb:
					pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{s.Key, s.Value}, Tok: token.DEFINE, Rhs: []ast.Expr{vcall("ZeroKV", id(m.Name))}})
				case !kb:
					pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: token.DEFINE, Rhs: []ast.Expr{vcall("ZeroK", id(m.Name))}})
				case !vb:
					pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{s.Value}, Tok: token.DEFINE, Rhs: []ast.Expr{vcall("ZeroV", id(m.Name))}})
				}
			}
			// presence check (entries removed during the iteration are not visited)
			val := r.fresh("v")
			in = append(in,
				&ast.AssignStmt{Lhs: []ast.Expr{val, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: id(m.Name), Index: id(k.Name)}}},
				&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
				&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(val.Name)}})
			cp := func(e ast.Expr) ast.Expr {
				if i, ok := e.(*ast.Ident); ok {
					return id(i.Name)
				}
				return r.expr(e)
			}
			if !kb {
				in = append(in, &ast.AssignStmt{Lhs: []ast.Expr{cp(s.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(k.Name)}})
			}
			if !vb {
				in = append(in, &ast.AssignStmt{Lhs: []ast.Expr{cp(s.Value)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(val.Name)}})
			}
			loop := &ast.RangeStmt{Key: id("_"), Value: k, Tok: token.DEFINE, X: vcall("MapKeys", id(m.Name)),
				Body: &ast.BlockStmt{List: append(in, s.Body.List...)}}
			return &ast.BlockStmt{List: append(pre, wrap(loop))}
		}
	}
	s.X = r.expr(s.X)
	r.block(s.Body)
	return wrap(s)
}

var sinks = map[string]bool{"Print": true, "Println": true, "Printf": true}

func (r *rw) isPkg(x ast.Expr, path string) bool {
	i, ok := x.(*ast.Ident)
	if !ok {
		return false
	}
	pn, ok := r.info.Uses[i].(*types.PkgName)
	return ok && pn.Imported().Path() == path
}

func (r *rw) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.FuncLit:
		r.block(e.Body)
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
	case *ast.SelectorExpr:
		e.X = r.expr(e.X)
	case *ast.IndexExpr:
		e.X = r.expr(e.X)
		e.Index = r.expr(e.Index)
	case *ast.SliceExpr:
		e.X = r.expr(e.X)
		if e.Low != nil {
			e.Low = r.expr(e.Low)
		}
		if e.High != nil {
			e.High = r.expr(e.High)
		}
		if e.Max != nil {
			e.Max = r.expr(e.Max)
		}
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
	case *ast.StarExpr:
		e.X = r.expr(e.X)
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return vcall("Recv", r.expr(e.X))
		}
		e.X = r.expr(e.X)
	case *ast.BinaryExpr:
		e.X = r.expr(e.X)
		e.Y = r.expr(e.Y)
	case *ast.KeyValueExpr:
		e.Key = r.expr(e.Key)
		e.Value = r.expr(e.Value)
	case *ast.CompositeLit:
		_, isStruct := types.Type(nil), false
		if t := r.info.Types[e].Type; t != nil {
			_, isStruct = t.Underlying().(*types.Struct)
		}
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok && isStruct {
				kv.Value = r.expr(kv.Value)
				continue
			}
			e.Elts[i] = r.expr(el)
		}
	case *ast.CallExpr:
		if s, ok := e.Fun.(*ast.SelectorExpr); ok && sinks[s.Sel.Name] && (r.isPkg(s.X, "fmt") || r.isPkg(s.X, "log")) && r.isPkg(s.X, "fmt") {
			r.exprs(e.Args)
			return &ast.CallExpr{Fun: sel(rt, "Sink"), Args: e.Args, Ellipsis: e.Ellipsis}
		}
		if i, ok := e.Fun.(*ast.Ident); ok && i.Name == "make" && len(e.Args) == 1 {
			if tv := r.info.Types[e]; tv.Type != nil {
				if _, ok := tv.Type.Underlying().(*types.Chan); ok {
					e.Args = append(e.Args, &ast.BasicLit{Kind: token.INT, Value: "1"})
					return e
				}
			}
		}
		e.Fun = r.expr(e.Fun)
		for i := range e.Args {
			if tv := r.info.Types[e.Args[i]]; tv.IsType() {
				continue
			}
			e.Args[i] = r.expr(e.Args[i])
		}
	}
	return e
}

var _ = sort.Strings
var _ = strings.Join
