// Command rewrite turns the current source of a Go package into a simulated one: goroutines, channels, selects,
// locks, clocks, contexts, randomness and map order go through verif/simrt and verif/shim; every statement becomes a
// scheduling point. It is type-aware and knows nothing about the package it rewrites.
//
//	rewrite -repo DIR -out DIR [-race]
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var shims = map[string]struct{ path, name string }{
	"sync":         {"verif/shim/sync", "sync"},
	"sync/atomic":  {"verif/shim/atomic", "atomic"},
	"time":         {"verif/shim/time", "time"},
	"context":      {"verif/shim/context", "context"},
	"math/rand":    {"verif/shim/rand", "rand"},
	"math/rand/v2": {"verif/shim/randv2", "rand"},
	"crypto/rand":  {"verif/shim/crand", "rand"},
	"maps":         {"verif/shim/maps", "maps"},
	"runtime":      {"verif/shim/runtime", "runtime"},
}

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string

	TestGoFiles []string
	Export      string
	Standard    bool
	Module      *struct{ Path string }
}

var (
	fset   = token.NewFileSet()
	sites  []string
	fields []string
	fidx   = map[string]int{}
	race   bool
	tests  bool
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "rewrite: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "module directory")
	out := flag.String("out", "", "output directory (module verif root)")
	shimDir := flag.String("shim", "", "shim directory")
	flag.BoolVar(&race, "race", false, "instrument shared accesses")
	flag.BoolVar(&tests, "tests", false, "also rewrite the package's own tests, each to run inside simulations (conformance of this rewriter)")
	flag.Parse()

	args := []string{"list", "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,TestGoFiles,Export,Standard,Module"}
	if tests {
		c := exec.Command("go", "list", "-f", `{{join .TestImports "\n"}}`, ".")
		c.Dir = *repo
		o, err := c.Output()
		if err != nil {
			die("go list: %v", err)
		}
		args = append(args, strings.Fields(string(o))...)
	}
	cmd := exec.Command("go", append(args, ".")...)
	cmd.Dir = *repo
	var eb bytes.Buffer
	cmd.Stderr = &eb
	o, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, eb.String())
	}
	var pkgs []*listPkg
	dec := json.NewDecoder(bytes.NewReader(o))
	exports := map[string]string{}
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("%v", err)
		}
		exports[p.ImportPath] = p.Export
		if !p.Standard {
			pkgs = append(pkgs, p)
		}
	}
	if len(pkgs) == 0 {
		die("no packages")
	}
	shimNames := map[string]map[string]bool{}
	for std, s := range shims {
		shimNames[std] = exportedNames(filepath.Join(*shimDir, strings.TrimPrefix(s.path, "verif/shim/")))
	}
	root := pkgs[len(pkgs)-1]
	gen := map[string]string{}
	for _, p := range pkgs {
		if p == root {
			gen[p.ImportPath] = "verif/gen/snapws"
		} else if p.Module != nil && root.Module != nil && p.Module.Path == root.Module.Path {
			gen[p.ImportPath] = "verif/gen/snapws" + strings.TrimPrefix(p.ImportPath, root.Module.Path)
		} else {
			gen[p.ImportPath] = "verif/gen/dep/" + p.ImportPath
		}
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	for _, p := range pkgs {
		r := &rw{gen: gen, shimNames: shimNames}
		r.pkg(p, imp, filepath.Join(*out, strings.TrimPrefix(gen[p.ImportPath], "verif/")))
	}
	var b bytes.Buffer
	b.WriteString("// Code generated by rewrite; DO NOT EDIT.\npackage sites\n\nimport (\n\t\"fmt\"\n\t\"verif/simrt\"\n)\n\n")
	fmt.Fprintf(&b, "var Sites = %#v\n\nvar Fields = %#v\n\n", sites, fields)
	b.WriteString("func init() {\n\tsimrt.SiteName = func(i int32) string {\n\t\tif i > 0 && int(i) <= len(Sites) {\n\t\t\treturn Sites[i-1]\n\t\t}\n\t\treturn fmt.Sprint(\"harness#\", i)\n\t}\n")
	b.WriteString("\tsimrt.FieldName = func(i int32) string {\n\t\tif int(i) < len(Fields) {\n\t\t\treturn Fields[i]\n\t\t}\n\t\treturn \"?\"\n\t}\n")
	fmt.Fprintf(&b, "\tsimrt.RaceOn = %v\n}\n", race)
	if tests {
		write(filepath.Join(*out, "gen/snapws/verif_sites_test.go"), []byte("package "+root.Name+"\n\nimport _ \"verif/gen/sites\"\n"))
	}
	write(filepath.Join(*out, "gen/sites/sites.go"), b.Bytes())
}

func write(p string, b []byte) {
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(p, b, 0o644); err != nil {
		die("%v", err)
	}
}

func exportedNames(dir string) map[string]bool {
	m := map[string]bool{}
	ps, err := parser.ParseDir(token.NewFileSet(), dir, nil, 0)
	if err != nil {
		die("%v", err)
	}
	for _, p := range ps {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						m[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							m[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								m[n.Name] = true
							}
						}
					}
				}
			}
		}
	}
	return m
}

type rw struct {
	gen       map[string]string
	shimNames map[string]map[string]bool
	info      *types.Info
	tpkg      *types.Package
	captured  map[*types.Var]bool
	n         int
	realUse   map[string]string // std path -> alias, for the current file
	used      map[*types.PkgName]int
}

func (r *rw) tmp(p string) *ast.Ident {
	r.n++
	return ast.NewIdent("_v" + p + strconv.Itoa(r.n))
}

func (r *rw) pkg(p *listPkg, imp types.Importer, out string) {
	var files []*ast.File
	if tests {
		p.GoFiles = append(p.GoFiles, p.TestGoFiles...)
	}
	for _, f := range p.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
	}
	r.info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{},
	}
	conf := types.Config{Importer: imp, GoVersion: "go1.24"}
	tp, err := conf.Check(p.ImportPath, fset, files, r.info)
	if err != nil {
		die("type check: %v", err)
	}
	r.tpkg = tp
	r.findCaptured(files)
	for i, f := range files {
		name := filepath.Base(p.GoFiles[i])
		r.realUse = map[string]string{}
		r.used = map[*types.PkgName]int{}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Body != nil {
					d.Body = r.block(d.Body)
				}
				r.fieldList(d.Recv)
				r.typ(d.Type)
				if strings.HasSuffix(name, "_test.go") && d.Recv == nil && strings.HasPrefix(d.Name.Name, "Test") && len(d.Type.Params.List) == 1 {
					d.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call(sel("simrt", "Conform"),
						&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: d.Body})}}}
				}
			case *ast.GenDecl:
				r.genDecl(d)
			}
		}
		// reset function of this file: variables declared in it, in source order with their (rewritten) initialisers
		var stmts []ast.Stmt
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				var lhs []ast.Expr
				all := true
				for _, n := range vs.Names {
					lhs = append(lhs, ast.NewIdent(n.Name))
					if n.Name != "_" {
						all = false
					}
				}
				if all {
					continue
				}
				if len(vs.Values) > 0 {
					stmts = append(stmts, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: vs.Values})
				} else {
					for _, l := range lhs {
						if l.(*ast.Ident).Name != "_" {
							stmts = append(stmts, &ast.ExprStmt{X: call(sel("simrt", "Zero"), &ast.UnaryExpr{Op: token.AND, X: l})})
						}
					}
				}
			}
		}
		resetName := "verifReset_" + strings.Map(func(c rune) rune {
			if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
				return c
			}
			return '_'
		}, name)
		f.Decls = append(f.Decls,
			&ast.FuncDecl{Name: ast.NewIdent(resetName), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: stmts}},
			&ast.FuncDecl{Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{
				&ast.ExprStmt{X: call(sel("simrt", "OnReset"), ast.NewIdent(resetName))}}}},
		)
		r.imports(f)
		f.Comments = nil
		var b bytes.Buffer
		b.WriteString("// Code generated by rewrite; DO NOT EDIT.\n")
		if err := format.Node(&b, token.NewFileSet(), f); err != nil {
			die("print %s: %v", name, err)
		}
		write(filepath.Join(out, name), b.Bytes())
	}
}

func (r *rw) imports(f *ast.File) {
	var specs []ast.Spec
	specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent("simrt"), Path: lit("verif/simrt")})
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			var pn *types.PkgName
			if is.Name != nil {
				pn, _ = r.info.Defs[is.Name].(*types.PkgName)
			} else {
				pn, _ = r.info.Implicits[is].(*types.PkgName)
			}
			name := ""
			if is.Name != nil {
				name = is.Name.Name
			} else if pn != nil {
				name = pn.Name()
			}
			if name != "_" && name != "." && pn != nil && r.used[pn] == 0 {
				continue // every use was redirected
			}
			np := path
			if s, ok := shims[path]; ok {
				np = s.path
			} else if g, ok := r.gen[path]; ok {
				np = g
			}
			specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent(name), Path: lit(np)})
		}
	}
	var rp []string
	for p := range r.realUse {
		rp = append(rp, p)
	}
	sort.Strings(rp)
	for _, p := range rp {
		specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent(r.realUse[p]), Path: lit(p)})
	}
	var nd []ast.Decl
	nd = append(nd, &ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Specs: specs})
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		nd = append(nd, d)
	}
	f.Decls = nd
}

func lit(s string) *ast.BasicLit { return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)} }
func num(n int) *ast.BasicLit    { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)} }
func sel(p, n string) ast.Expr   { return &ast.SelectorExpr{X: ast.NewIdent(p), Sel: ast.NewIdent(n)} }
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: f, Args: a}
}

func (r *rw) site(pos token.Pos) int {
	p := fset.Position(pos)
	sites = append(sites, filepath.Base(p.Filename)+":"+strconv.Itoa(p.Line))
	return len(sites)
}

func (r *rw) field(name string) int {
	i, ok := fidx[name]
	if !ok {
		i = len(fields)
		fidx[name] = i
		fields = append(fields, name)
	}
	return i
}

func (r *rw) y(pos token.Pos) ast.Stmt {
	return &ast.ExprStmt{X: call(sel("simrt", "Y"), num(r.site(pos)))}
}

// ---- captured and package-level variables (race mode) ----

func (r *rw) findCaptured(files []*ast.File) {
	r.captured = map[*types.Var]bool{}
	if !race {
		return
	}
	var walk func(n ast.Node, fn ast.Node)
	walk = func(n ast.Node, fn ast.Node) {
		ast.Inspect(n, func(x ast.Node) bool {
			if x == nil || x == n {
				return true
			}
			if fl, ok := x.(*ast.FuncLit); ok {
				walk(fl, fl)
				return false
			}
			id, ok := x.(*ast.Ident)
			if !ok {
				return true
			}
			v, ok := r.info.Uses[id].(*types.Var)
			if !ok || v.IsField() || v.Pkg() != r.tpkg {
				return true
			}
			if v.Parent() == r.tpkg.Scope() {
				return true
			}
			if fl, ok := fn.(*ast.FuncLit); ok && (v.Pos() < fl.Pos() || v.Pos() > fl.End()) {
				r.captured[v] = true
			}
			return true
		})
	}
	for _, f := range files {
		for _, d := range f.Decls {
			walk(d, nil)
		}
	}
	// only variables that are assigned after their declaration matter
	assigned := map[*types.Var]bool{}
	for _, f := range files {
		ast.Inspect(f, func(x ast.Node) bool {
			mark := func(e ast.Expr) {
				if id, ok := e.(*ast.Ident); ok {
					if v, ok := r.info.Uses[id].(*types.Var); ok {
						assigned[v] = true
					}
				}
			}
			switch s := x.(type) {
			case *ast.AssignStmt:
				for _, l := range s.Lhs {
					mark(l)
				}
			case *ast.IncDecStmt:
				mark(s.X)
			}
			return true
		})
	}
	for v := range r.captured {
		if !assigned[v] {
			delete(r.captured, v)
		}
	}
	for v := range assigned {
		if v.Parent() == r.tpkg.Scope() {
			r.captured[v] = true
		}
	}
}

func (r *rw) tracked(id *ast.Ident) (*types.Var, bool) {
	v, ok := r.info.Uses[id].(*types.Var)
	if !ok {
		return nil, false
	}
	return v, r.captured[v]
}

// ---- types ----

// typ rewrites package qualifiers inside type expressions.
func (r *rw) typ(e ast.Node) {
	if e == nil {
		return
	}
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.SelectorExpr:
			r.qualified(n)
		}
		return true
	})
}

// qualified handles pkg.Name; reports whether it was one.
func (r *rw) qualified(s *ast.SelectorExpr) bool {
	id, ok := s.X.(*ast.Ident)
	if !ok {
		return false
	}
	pn, ok := r.info.Uses[id].(*types.PkgName)
	if !ok {
		return false
	}
	path := pn.Imported().Path()
	if names, ok := r.shimNames[path]; ok && !names[s.Sel.Name] {
		a := "real_" + strings.ReplaceAll(strings.ReplaceAll(path, "/", "_"), ".", "_")
		r.realUse[path] = a
		id.Name = a
		return true
	}
	r.used[pn]++
	return true
}

func (r *rw) fieldList(fl *ast.FieldList) {
	if fl != nil {
		r.typ(fl)
	}
}

func (r *rw) genDecl(d *ast.GenDecl) {
	for _, s := range d.Specs {
		switch s := s.(type) {
		case *ast.TypeSpec:
			if s.TypeParams != nil {
				r.typ(s.TypeParams)
			}
			r.typ(s.Type)
		case *ast.ValueSpec:
			if s.Type != nil {
				r.typ(s.Type)
			}
			r.valueSpec(s)
		}
	}
}

func (r *rw) valueSpec(s *ast.ValueSpec) {
	if len(s.Names) == 2 && len(s.Values) == 1 {
		if u, ok := unparen(s.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			s.Values[0] = call(sel("simrt", "Recv2"), r.expr(u.X))
			return
		}
	}
	for i := range s.Values {
		s.Values[i] = r.expr(s.Values[i])
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// ---- statements ----

func (r *rw) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	b.List = r.list(b.List)
	return b
}

func (r *rw) loopBody(b *ast.BlockStmt) *ast.BlockStmt {
	pos := b.Pos()
	r.block(b)
	if len(b.List) == 0 {
		b.List = []ast.Stmt{r.y(pos)}
	}
	return b
}

func (r *rw) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		switch d := s.(type) {
		case *ast.EmptyStmt:
			continue
		case *ast.DeclStmt:
			if g, ok := d.Decl.(*ast.GenDecl); ok && g.Tok != token.VAR {
				r.genDecl(g)
				out = append(out, s)
				continue
			}
		}
		pos := s.Pos()
		if ls, ok := s.(*ast.LabeledStmt); ok && !isLoopish(ls.Stmt) {
			// goto target: the yield must not be skipped by jumps, keep it after the label
			ls.Stmt = &ast.BlockStmt{List: r.list([]ast.Stmt{ls.Stmt})}
			out = append(out, ls)
			continue
		}
		out = append(out, r.y(pos))
		out = append(out, r.stmt(s)...)
	}
	return out
}

func isLoopish(s ast.Stmt) bool {
	switch s.(type) {
	case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
		return true
	}
	return false
}

// stmt rewrites one statement; the result may be several (first the statement, then bookkeeping).
func (r *rw) stmt(s ast.Stmt) []ast.Stmt {
	switch s := s.(type) {
	case *ast.LabeledStmt:
		if ss, ok := s.Stmt.(*ast.SelectStmt); ok {
			return []ast.Stmt{r.selectStmt(ss, s.Label)}
		}
		in := r.stmt(s.Stmt)
		if len(in) != 1 {
			die("labelled statement expands")
		}
		s.Stmt = in[0]
		return []ast.Stmt{s}
	case *ast.SelectStmt:
		return []ast.Stmt{r.selectStmt(s, nil)}
	case *ast.GoStmt:
		return []ast.Stmt{r.goStmt(s)}
	case *ast.AssignStmt:
		w := r.assign(s)
		return append([]ast.Stmt{s}, w...)
	case *ast.IncDecStmt:
		w := r.writes(s.X, true)
		s.X = r.lhs(s.X)
		return append([]ast.Stmt{s}, w...)
	default:
		return []ast.Stmt{r.simple(s)}
	}
}

// simple rewrites statements that stay a single statement.
func (r *rw) simple(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.AssignStmt:
		r.assign(s)
		return s
	case *ast.IncDecStmt:
		s.X = r.lhs(s.X)
		return s
	case *ast.BlockStmt:
		return r.block(s)
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
		return s
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(call(sel("simrt", "Send"), r.expr(s.Chan)), r.expr(s.Value))}
	case *ast.DeferStmt:
		s.Call = r.expr(s.Call).(*ast.CallExpr)
		return s
	case *ast.ReturnStmt:
		for i := range s.Results {
			s.Results[i] = r.expr(s.Results[i])
		}
		return s
	case *ast.IfStmt:
		if s.Init != nil {
			s.Init = r.simple(s.Init)
		}
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		if s.Else != nil {
			s.Else = r.simple(s.Else)
		}
		return s
	case *ast.ForStmt:
		if s.Init != nil {
			s.Init = r.simple(s.Init)
		}
		if s.Cond != nil {
			s.Cond = r.expr(s.Cond)
		}
		if s.Post != nil {
			s.Post = r.simple(s.Post)
		}
		r.loopBody(s.Body)
		return s
	case *ast.RangeStmt:
		return r.rangeStmt(s)
	case *ast.SwitchStmt:
		if s.Init != nil {
			s.Init = r.simple(s.Init)
		}
		if s.Tag != nil {
			s.Tag = r.expr(s.Tag)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = r.expr(cc.List[i])
			}
			cc.Body = r.list(cc.Body)
		}
		return s
	case *ast.TypeSwitchStmt:
		if s.Init != nil {
			s.Init = r.simple(s.Init)
		}
		switch a := s.Assign.(type) {
		case *ast.ExprStmt:
			ta := unparen(a.X).(*ast.TypeAssertExpr)
			ta.X = r.expr(ta.X)
		case *ast.AssignStmt:
			ta := unparen(a.Rhs[0]).(*ast.TypeAssertExpr)
			ta.X = r.expr(ta.X)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for _, e := range cc.List {
				r.typ(e)
			}
			cc.Body = r.list(cc.Body)
		}
		return s
	case *ast.DeclStmt:
		r.genDecl(s.Decl.(*ast.GenDecl))
		return s
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.SelectStmt:
		return r.selectStmt(s, nil)
	case *ast.LabeledStmt:
		return r.stmt(s)[0]
	case *ast.BranchStmt, *ast.EmptyStmt:
		return s
	}
	die("%s: unknown statement %T", fset.Position(s.Pos()), s)
	return nil
}

func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.CompositeLit:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func (r *rw) assign(s *ast.AssignStmt) []ast.Stmt {
	var w []ast.Stmt
	if s.Tok != token.DEFINE {
		for _, l := range s.Lhs {
			w = append(w, r.writes(l, true)...)
		}
	}
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			s.Rhs[0] = call(sel("simrt", "Recv2"), r.expr(u.X))
			for i := range s.Lhs {
				if s.Tok != token.DEFINE {
					s.Lhs[i] = r.lhs(s.Lhs[i])
				}
			}
			return w
		}
	}
	for i := range s.Rhs {
		s.Rhs[i] = r.expr(s.Rhs[i])
	}
	if s.Tok != token.DEFINE {
		for i := range s.Lhs {
			s.Lhs[i] = r.lhs(s.Lhs[i])
		}
	}
	return w
}

// writes builds the race-mode bookkeeping for a store to e (call before e is rewritten).
func (r *rw) writes(e ast.Expr, _ bool) []ast.Stmt {
	if !race {
		return nil
	}
	e = unparen(e)
	if !pure(e) {
		return nil
	}
	switch x := e.(type) {
	case *ast.SelectorExpr:
		if s := r.info.Selections[x]; s != nil && s.Kind() == types.FieldVal && r.addressable(x) {
			return []ast.Stmt{&ast.ExprStmt{X: call(sel("simrt", "Wr"), &ast.UnaryExpr{Op: token.AND, X: r.copyExpr(x)}, num(r.site(x.Pos())), num(r.field(r.fieldName(x))))}}
		}
	case *ast.Ident:
		if v, ok := r.tracked(x); ok {
			return []ast.Stmt{&ast.ExprStmt{X: call(sel("simrt", "Wr"), &ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(x.Name)}, num(r.site(x.Pos())), num(r.field("var "+v.Name())))}}
		}
	case *ast.IndexExpr:
		if _, ok := r.under(x.X).(*types.Slice); ok {
			return []ast.Stmt{&ast.ExprStmt{X: call(sel("simrt", "Wr"), &ast.UnaryExpr{Op: token.AND, X: r.copyExpr(x)}, num(r.site(x.Pos())), num(r.field("element of "+r.exprName(x.X))))}}
		}
	case *ast.StarExpr:
		return []ast.Stmt{&ast.ExprStmt{X: call(sel("simrt", "Wr"), r.copyExpr(x.X), num(r.site(x.Pos())), num(r.field("*"+r.exprName(x.X))))}}
	}
	return nil
}

// copyExpr clones a side-effect free expression (no instrumentation inside).
func (r *rw) copyExpr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.Ident:
		return ast.NewIdent(x.Name)
	case *ast.SelectorExpr:
		return &ast.SelectorExpr{X: r.copyExpr(x.X), Sel: ast.NewIdent(x.Sel.Name)}
	case *ast.IndexExpr:
		return &ast.IndexExpr{X: r.copyExpr(x.X), Index: r.copyExpr(x.Index)}
	case *ast.StarExpr:
		return &ast.StarExpr{X: r.copyExpr(x.X)}
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: r.copyExpr(x.X)}
	case *ast.BasicLit:
		return &ast.BasicLit{Kind: x.Kind, Value: x.Value}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: r.copyExpr(x.X), Op: x.Op, Y: r.copyExpr(x.Y)}
	case *ast.UnaryExpr:
		return &ast.UnaryExpr{Op: x.Op, X: r.copyExpr(x.X)}
	case *ast.SliceExpr:
		c := &ast.SliceExpr{X: r.copyExpr(x.X), Slice3: x.Slice3}
		if x.Low != nil {
			c.Low = r.copyExpr(x.Low)
		}
		if x.High != nil {
			c.High = r.copyExpr(x.High)
		}
		if x.Max != nil {
			c.Max = r.copyExpr(x.Max)
		}
		return c
	}
	die("copyExpr %T", e)
	return nil
}

func (r *rw) fieldName(x *ast.SelectorExpr) string {
	s := r.info.Selections[x]
	t := s.Recv()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n := "?"
	if nt, ok := t.(*types.Named); ok {
		n = nt.Obj().Name()
	}
	// name the declaring struct for promoted fields
	if len(s.Index()) > 1 {
		cur := t
		for _, i := range s.Index()[:len(s.Index())-1] {
			st, ok := cur.Underlying().(*types.Struct)
			if !ok {
				break
			}
			cur = st.Field(i).Type()
			if p, ok := cur.Underlying().(*types.Pointer); ok {
				cur = p.Elem()
			}
		}
		if nt, ok := cur.(*types.Named); ok {
			n = nt.Obj().Name()
		}
	}
	return n + "." + x.Sel.Name
}

func (r *rw) exprName(e ast.Expr) string {
	switch x := unparen(e).(type) {
	case *ast.SelectorExpr:
		if s := r.info.Selections[x]; s != nil && s.Kind() == types.FieldVal {
			return r.fieldName(x)
		}
		return x.Sel.Name
	case *ast.Ident:
		return x.Name
	}
	return "expression"
}

func (r *rw) under(e ast.Expr) types.Type {
	t := r.info.TypeOf(e)
	if t == nil {
		return types.Typ[types.Invalid]
	}
	if tp, ok := t.(*types.TypeParam); ok {
		return tp
	}
	return t.Underlying()
}

func (r *rw) isMap(e ast.Expr) bool {
	_, ok := r.under(e).(*types.Map)
	return ok
}

func (r *rw) addressable(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.Ident:
		_, ok := r.info.Uses[x].(*types.Var)
		return ok
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		s := r.info.Selections[x]
		if s == nil {
			_, ok := r.info.Uses[x.Sel].(*types.Var)
			return ok
		}
		if s.Kind() != types.FieldVal {
			return false
		}
		if _, ok := r.under(x.X).(*types.Pointer); ok {
			return true
		}
		if s.Indirect() {
			return true
		}
		return r.addressable(x.X)
	case *ast.IndexExpr:
		switch r.under(x.X).(type) {
		case *types.Slice:
			return true
		case *types.Array:
			return r.addressable(x.X)
		case *types.Pointer:
			return true
		}
		return false
	}
	return false
}

// lhs rewrites an assignment target.
func (r *rw) lhs(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = r.lhs(x.X)
		return x
	case *ast.Ident:
		return x
	case *ast.SelectorExpr:
		if r.qualified(x) {
			return x
		}
		x.X = r.base(x.X, true)
		return x
	case *ast.IndexExpr:
		if r.isMap(x.X) {
			name := "map " + r.exprName(x.X)
			var key ast.Expr
			if pure(x.X) {
				cp := r.copyExpr(x.X)
				key = call(call(sel("simrt", "KM"), cp), r.expr(x.Index))
			} else {
				key = r.expr(x.Index)
			}
			pos := x.Pos()
			m := r.expr(x.X)
			if race {
				m = call(sel("simrt", "MWr"), m, num(r.site(pos)), num(r.field(name)))
			}
			x.X, x.Index = m, key
			return x
		}
		if _, ok := r.under(x.X).(*types.Array); ok {
			x.X = r.base(x.X, true)
		} else {
			x.X = r.expr(x.X)
		}
		x.Index = r.expr(x.Index)
		return x
	case *ast.StarExpr:
		x.X = r.expr(x.X)
		return x
	}
	return r.expr(e)
}

// base rewrites an expression whose address, not value, is used when it is a struct or array value.
func (r *rw) base(e ast.Expr, _ bool) ast.Expr {
	t := r.under(e)
	_, isStruct := t.(*types.Struct)
	_, isArr := t.(*types.Array)
	if isStruct || isArr {
		switch x := e.(type) {
		case *ast.ParenExpr:
			x.X = r.base(x.X, true)
			return x
		case *ast.Ident:
			return x
		case *ast.SelectorExpr:
			if r.qualified(x) {
				return x
			}
			x.X = r.base(x.X, true)
			return x
		}
	}
	return r.expr(e)
}

func (r *rw) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	switch t := r.under(s.X).(type) {
	case *types.Chan:
		c, ok := r.tmp("c"), r.tmp("ok")
		var rcv ast.Stmt
		var pre []ast.Stmt
		rc := call(sel("simrt", "Recv2"), ast.NewIdent(c.Name))
		ch := r.expr(s.X)
		if s.Key == nil {
			rcv = &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ok}, Tok: token.DEFINE, Rhs: []ast.Expr{rc}}
		} else if s.Tok == token.DEFINE {
			rcv = &ast.AssignStmt{Lhs: []ast.Expr{s.Key, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{rc}}
		} else {
			pre = append(pre, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ok}, Type: ast.NewIdent("bool")}}}})
			rcv = &ast.AssignStmt{Lhs: []ast.Expr{r.lhs(s.Key), ast.NewIdent(ok.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{rc}}
		}
		pre = append(pre, rcv, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
		r.loopBody(s.Body)
		return &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{c}, Tok: token.DEFINE, Rhs: []ast.Expr{ch}},
			Body: &ast.BlockStmt{List: append(pre, s.Body.List...)},
		}
	case *types.Map:
		_ = t
		name := "map " + r.exprName(s.X)
		pos := s.X.Pos()
		m := r.expr(s.X)
		if race {
			m = call(sel("simrt", "MRd"), m, num(r.site(pos)), num(r.field(name)))
		}
		s.X = call(sel("simrt", "MapRange"), m)
	default:
		if _, ok := t.(*types.Array); ok {
			s.X = r.base(s.X, true)
		} else {
			s.X = r.expr(s.X)
		}
	}
	if s.Tok == token.ASSIGN {
		if s.Key != nil {
			s.Key = r.lhs(s.Key)
		}
		if s.Value != nil {
			s.Value = r.lhs(s.Value)
		}
	}
	r.loopBody(s.Body)
	return s
}

func (r *rw) goStmt(s *ast.GoStmt) ast.Stmt {
	site := num(r.site(s.Pos()))
	c := s.Call
	mk := func(body ast.Stmt) ast.Stmt {
		return &ast.ExprStmt{X: call(sel("simrt", "Go"), site, &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{body}}})}
	}
	fun := unparen(c.Fun)
	if fl, ok := fun.(*ast.FuncLit); ok && len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		return &ast.ExprStmt{X: call(sel("simrt", "Go"), site, r.expr(fl))}
	}
	if id, ok := fun.(*ast.Ident); ok {
		if _, ok := r.info.Uses[id].(*types.Builtin); ok {
			return mk(&ast.ExprStmt{X: r.expr(c)})
		}
	}
	var pre []ast.Stmt
	hoistable := func(e ast.Expr) bool {
		tv := r.info.Types[e]
		return tv.Value == nil && !tv.IsNil() && !tv.IsType()
	}
	multi := false
	if len(c.Args) == 1 {
		if _, ok := r.info.TypeOf(c.Args[0]).(*types.Tuple); ok {
			multi = true
		}
	}
	// type conversions and generic functions are called in place
	generic := false
	base := fun
	if ix, ok := base.(*ast.IndexExpr); ok {
		base = ix.X
		_ = base
	} else {
		var id *ast.Ident
		switch b := base.(type) {
		case *ast.Ident:
			id = b
		case *ast.SelectorExpr:
			id = b.Sel
		}
		if id != nil {
			if _, ok := r.info.Instances[id]; ok {
				generic = true
			}
		}
	}
	var args []ast.Expr
	for _, a := range c.Args {
		h := hoistable(a) && !multi
		na := r.expr(a)
		if h {
			v := r.tmp("a")
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{na}})
			na = ast.NewIdent(v.Name)
		}
		args = append(args, na)
	}
	nf := r.expr(c.Fun)
	if !generic {
		v := r.tmp("f")
		pre = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{nf}}}, pre...)
		nf = ast.NewIdent(v.Name)
	}
	nc := &ast.CallExpr{Fun: nf, Args: args, Ellipsis: c.Ellipsis}
	pre = append(pre, mk(&ast.ExprStmt{X: nc}))
	return &ast.BlockStmt{List: pre}
}

func (r *rw) selectStmt(s *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	var pre []ast.Stmt
	var cases []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	has := false
	var defBody []ast.Stmt
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			has = true
			defBody = r.list(cc.Body)
			continue
		}
		v := r.tmp("c")
		var head []ast.Stmt
		var ch ast.Expr
		switch x := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{call(call(sel("simrt", "CaseSend"), r.expr(x.Chan)), r.expr(x.Value))}})
		case *ast.ExprStmt:
			ch = unparen(x.X).(*ast.UnaryExpr).X
		case *ast.AssignStmt:
			ch = unparen(x.Rhs[0]).(*ast.UnaryExpr).X
			w := []ast.Stmt{}
			if x.Tok != token.DEFINE {
				for _, l := range x.Lhs {
					w = append(w, r.writes(l, true)...)
				}
				for i := range x.Lhs {
					x.Lhs[i] = r.lhs(x.Lhs[i])
				}
			}
			rhs := []ast.Expr{sel(v.Name, "V")}
			if len(x.Lhs) == 2 {
				rhs = append(rhs, sel(v.Name, "OK"))
			}
			head = append(head, &ast.AssignStmt{Lhs: x.Lhs, Tok: x.Tok, Rhs: rhs})
			head = append(head, w...)
		}
		if ch != nil {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{call(sel("simrt", "CaseRecv"), r.expr(ch))}})
		}
		body := append(head, r.list(cc.Body)...)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{num(len(cases))}, Body: body})
		cases = append(cases, ast.NewIdent(v.Name))
	}
	if !has {
		defBody = []ast.Stmt{&ast.ExprStmt{X: call(ast.NewIdent("panic"), lit("unreachable"))}}
	}
	sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: defBody})
	hb := "false"
	if has {
		hb = "true"
	}
	sw.Tag = call(sel("simrt", "Select"), append([]ast.Expr{ast.NewIdent(hb)}, cases...)...)
	var last ast.Stmt = sw
	if label != nil {
		last = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return &ast.BlockStmt{List: append(pre, last)}
}

// ---- expressions ----

func (r *rw) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func (r *rw) rd(addr ast.Expr, pos token.Pos, name string) ast.Expr {
	return &ast.ParenExpr{X: &ast.StarExpr{X: call(sel("simrt", "Rd"), &ast.UnaryExpr{Op: token.AND, X: addr}, num(r.site(pos)), num(r.field(name)))}}
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if tv, ok := r.info.Types[e]; ok && tv.IsType() {
		r.typ(e)
		return e
	}
	switch x := e.(type) {
	case *ast.Ident:
		if race {
			if v, ok := r.tracked(x); ok {
				return r.rd(ast.NewIdent(x.Name), x.Pos(), "var "+v.Name())
			}
		}
		return x
	case *ast.BasicLit:
		return x
	case *ast.FuncLit:
		r.typ(x.Type)
		r.block(x.Body)
		return x
	case *ast.CompositeLit:
		if x.Type != nil {
			r.typ(x.Type)
		}
		_, isStruct := r.under(x).(*types.Struct)
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					kv.Key = r.expr(kv.Key)
				}
				kv.Value = r.expr(kv.Value)
			} else {
				x.Elts[i] = r.expr(el)
			}
		}
		return x
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.SelectorExpr:
		if r.qualified(x) {
			return x
		}
		s := r.info.Selections[x]
		if s == nil {
			return x
		}
		pos := x.Pos()
		if s.Kind() == types.FieldVal {
			ok := race && r.addressable(x) && !hasLockType(r.info.TypeOf(x))
			name := ""
			if ok {
				name = r.fieldName(x)
			}
			x.X = r.base(x.X, true)
			if ok {
				return r.rd(x, pos, name)
			}
			return x
		}
		if s.Kind() == types.MethodVal {
			sig := s.Obj().(*types.Func).Type().(*types.Signature)
			_, ptrRecv := sig.Recv().Type().Underlying().(*types.Pointer)
			if ptrRecv {
				x.X = r.base(x.X, true)
			} else {
				x.X = r.expr(x.X)
			}
			return x
		}
		r.typ(x.X)
		return x
	case *ast.IndexExpr:
		if tv, ok := r.info.Types[x.Index]; ok && tv.IsType() { // instantiation
			r.typ(x.Index)
			x.X = r.expr(x.X)
			return x
		}
		pos := x.Pos()
		if r.isMap(x.X) {
			name := "map " + r.exprName(x.X)
			x.X = r.expr(x.X)
			if race {
				x.X = call(sel("simrt", "MRd"), x.X, num(r.site(pos)), num(r.field(name)))
			}
			x.Index = r.expr(x.Index)
			return x
		}
		if _, ok := r.under(x.X).(*types.Slice); ok && race {
			name := "element of " + r.exprName(x.X)
			x.X, x.Index = r.expr(x.X), r.expr(x.Index)
			return r.rd(x, pos, name)
		}
		if _, ok := r.under(x.X).(*types.Array); ok {
			x.X = r.base(x.X, true)
		} else {
			x.X = r.expr(x.X)
		}
		x.Index = r.expr(x.Index)
		return x
	case *ast.IndexListExpr:
		for _, i := range x.Indices {
			r.typ(i)
		}
		x.X = r.expr(x.X)
		return x
	case *ast.SliceExpr:
		if _, ok := r.under(x.X).(*types.Array); ok {
			x.X = r.base(x.X, true)
		} else {
			x.X = r.expr(x.X)
		}
		x.Low, x.High, x.Max = r.expr(x.Low), r.expr(x.High), r.expr(x.Max)
		return x
	case *ast.TypeAssertExpr:
		if x.Type != nil {
			r.typ(x.Type)
		}
		x.X = r.expr(x.X)
		return x
	case *ast.StarExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.UnaryExpr:
		switch x.Op {
		case token.ARROW:
			return call(sel("simrt", "Recv"), r.expr(x.X))
		case token.AND:
			x.X = r.addrOf(x.X)
			return x
		}
		x.X = r.expr(x.X)
		return x
	case *ast.BinaryExpr:
		x.X, x.Y = r.expr(x.X), r.expr(x.Y)
		return x
	case *ast.KeyValueExpr:
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
		return x
	case *ast.CallExpr:
		return r.callExpr(x)
	case *ast.Ellipsis:
		x.Elt = r.expr(x.Elt)
		return x
	case *ast.ArrayType, *ast.StructType, *ast.FuncType, *ast.InterfaceType, *ast.MapType, *ast.ChanType:
		r.typ(x)
		return x
	}
	die("%s: unknown expression %T", fset.Position(e.Pos()), e)
	return nil
}

func (r *rw) addrOf(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = r.addrOf(x.X)
		return x
	case *ast.Ident:
		return x
	case *ast.SelectorExpr:
		if r.qualified(x) {
			return x
		}
		x.X = r.base(x.X, true)
		return x
	case *ast.IndexExpr:
		if _, ok := r.under(x.X).(*types.Array); ok {
			x.X = r.base(x.X, true)
		} else {
			x.X = r.expr(x.X)
		}
		x.Index = r.expr(x.Index)
		return x
	}
	return r.expr(e)
}

// hasLockType: values of synchronisation types are never read as plain memory.
func hasLockType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	return p == "sync" || p == "sync/atomic"
}

func (r *rw) callExpr(x *ast.CallExpr) ast.Expr {
	if tv, ok := r.info.Types[x.Fun]; ok && tv.IsType() { // conversion
		r.typ(x.Fun)
		r.exprs(x.Args)
		return x
	}
	if id, ok := unparen(x.Fun).(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			switch b.Name() {
			case "close":
				return call(sel("simrt", "Close"), r.expr(x.Args[0]))
			case "recover":
				return call(sel("simrt", "Recover"), x)
			case "new", "make":
				r.typ(x.Args[0])
				for i := 1; i < len(x.Args); i++ {
					x.Args[i] = r.expr(x.Args[i])
				}
				return x
			case "len", "cap":
				if tv := r.info.Types[x]; tv.Value != nil {
					return x
				}
				if race && r.isMap(x.Args[0]) {
					name := "map " + r.exprName(x.Args[0])
					x.Args[0] = call(sel("simrt", "MRd"), r.expr(x.Args[0]), num(r.site(x.Pos())), num(r.field(name)))
					return x
				}
			case "delete", "clear":
				if race && r.isMap(x.Args[0]) {
					name := "map " + r.exprName(x.Args[0])
					pos := x.Pos()
					r.exprs(x.Args)
					x.Args[0] = call(sel("simrt", "MWr"), x.Args[0], num(r.site(pos)), num(r.field(name)))
					return x
				}
			}
			r.exprs(x.Args)
			return x
		}
	}
	mapsCall := false
	if se, ok := unparen(x.Fun).(*ast.SelectorExpr); ok && race {
		if id, ok := se.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "maps" {
				mapsCall = true
			}
		}
	}
	x.Fun = r.expr(x.Fun)
	for i, a := range x.Args {
		m := mapsCall && r.isMap(a)
		name := ""
		if m {
			name = "map " + r.exprName(a)
		}
		pos := a.Pos()
		na := r.expr(a)
		if m {
			na = call(sel("simrt", "MRd"), na, num(r.site(pos)), num(r.field(name)))
		}
		x.Args[i] = na
	}
	return x
}
