// Command instr rewrites the non-test Go files of a package so that every
// synchronisation, channel, goroutine, time and network operation goes through
// the controlled scheduler (package verifmc/vs).  It works on whatever the
// package's source currently is; nothing is matched by name or line of the code
// under test, only by the standard-library objects it uses.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

const vsName = "zzvs"
const vsPath = "verifmc/vs"

// standard-library objects replaced by shims of the same meaning
var table = map[string]map[string]string{
	"sync": {
		"Mutex": "Mutex", "RWMutex": "RWMutex", "WaitGroup": "WaitGroup", "Once": "Once",
		"Cond": "Cond", "NewCond": "NewCond", "Pool": "Pool", "Map": "Map",
	},
	"time": {
		"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep", "After": "After",
		"NewTimer": "NewTimer", "Timer": "Timer", "AfterFunc": "AfterFunc",
		"NewTicker": "NewTicker", "Ticker": "Ticker", "Tick": "Tick",
	},
	"net": {
		"Listen": "Listen", "ListenPacket": "ListenPacket", "Dial": "Dial", "DialTimeout": "DialTimeout",
	},
	"crypto/tls": {"Listen": "TLSListen"},
	"os":         {"Exit": "OSExit"},
	"os/signal":  {"Notify": "SignalNotify", "Stop": "SignalStop", "NotifyContext": "SignalNotifyContext"},
	"context":    {"WithTimeout": "CtxWithTimeout", "WithDeadline": "CtxWithDeadline"},
	"runtime":    {"Gosched": "Yield"},
}

type rw struct {
	fset *token.FileSet
	info *types.Info
	n    int
	used bool
}

func main() {
	repo := flag.String("repo", "/repo", "package directory")
	out := flag.String("out", "", "output directory")
	modfile := flag.String("modfile", "", "modfile for go list")
	moddir := flag.String("moddir", "", "directory to run go list in")
	pkg := flag.String("pkg", "github.com/fwhezfwhez/tcpx", "import path")
	flag.Parse()

	bp, err := build.Default.ImportDir(*repo, 0)
	if err != nil {
		fatal(err)
	}
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	tags := map[string]string{}
	for _, f := range bp.GoFiles {
		p := filepath.Join(*repo, f)
		src, err := os.ReadFile(p)
		if err != nil {
			fatal(err)
		}
		af, err := parser.ParseFile(fset, p, src, parser.SkipObjectResolution)
		if err != nil {
			fatal(err)
		}
		for _, l := range strings.Split(string(src), "\n") {
			if strings.HasPrefix(l, "//go:build ") {
				tags[p] = strings.TrimPrefix(l, "//go:build ")
			}
			if strings.HasPrefix(l, "package ") {
				break
			}
		}
		files = append(files, af)
		names = append(names, p)
	}

	cmd := exec.Command("go", "list", "-mod=mod", "-modfile="+*modfile, "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}", *pkg)
	cmd.Dir = *moddir
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	if err != nil {
		fatal(fmt.Errorf("go list: %v", err))
	}
	exports := map[string]string{}
	for _, l := range strings.Split(string(o), "\n") {
		f := strings.Split(l, "\t")
		if len(f) == 2 && f[1] != "" {
			exports[f[0]] = f[1]
		}
	}
	lookup := func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Uses:  map[*ast.Ident]types.Object{},
		Defs:  map[*ast.Ident]types.Object{},
	}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup), Error: func(error) {}}
	if _, err := conf.Check(*pkg, fset, files, info); err != nil {
		fmt.Fprintln(os.Stderr, "instr: type check:", err)
	}

	// The shims need type parameters; the file-level language version is raised
	// to go1.18 unless the module is already there.  It must stay below go1.22,
	// where loop variables change meaning.
	upgrade := true
	if gm, err := os.ReadFile(filepath.Join(*repo, "go.mod")); err == nil {
		for _, l := range strings.Split(string(gm), "\n") {
			var maj, min int
			if n, _ := fmt.Sscanf(strings.TrimSpace(l), "go %d.%d", &maj, &min); n == 2 && (maj > 1 || min >= 18) {
				upgrade = false
			}
		}
	}
	overlay := map[string]string{}
	for i, af := range files {
		r := &rw{fset: fset, info: info}
		r.file(af)
		var buf bytes.Buffer
		tag := "go1.18"
		if t := tags[names[i]]; t != "" {
			tag = "(" + t + ") && go1.18"
		}
		if upgrade || tags[names[i]] != "" {
			fmt.Fprintf(&buf, "//go:build %s\n\n", tag)
		}
		if err := format.Node(&buf, fset, af); err != nil {
			fatal(err)
		}
		dst := filepath.Join(*out, filepath.Base(names[i]))
		if err := os.WriteFile(dst, buf.Bytes(), 0o644); err != nil {
			fatal(err)
		}
		overlay[names[i]] = dst
	}
	b, _ := json.Marshal(map[string]any{"Replace": overlay})
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		fatal(err)
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(3)
}

func (r *rw) vs(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent(vsName), Sel: ast.NewIdent(name)}
}

func (r *rw) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.vs(name), Args: args}
}

func (r *rw) tmp(p string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("zz%s%d", p, r.n))
}

func (r *rw) pkgOf(id *ast.Ident) string {
	if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
		return pn.Imported().Path()
	}
	return ""
}

func (r *rw) file(f *ast.File) {
	for _, d := range f.Decls {
		r.decl(d)
	}
	// imports still needed?
	usedPkgs := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
					usedPkgs[pn.Imported().Path()+"|"+pn.Name()] = true
				}
			}
		}
		return true
	})
	for di := 0; di < len(f.Decls); di++ {
		gd, ok := f.Decls[di].(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			continue
		}
		var keep []ast.Spec
		for _, s := range gd.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			if is.Name != nil && (is.Name.Name == "_" || is.Name.Name == ".") {
				keep = append(keep, s)
				continue
			}
			if _, inTab := table[path]; inTab {
				used := false
				for k := range usedPkgs {
					if strings.HasPrefix(k, path+"|") {
						used = true
					}
				}
				if !used {
					continue
				}
			}
			keep = append(keep, s)
		}
		gd.Specs = keep
		if len(keep) == 0 {
			f.Decls = append(f.Decls[:di], f.Decls[di+1:]...)
			di--
		}
	}
	if r.used {
		imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{
			Name: ast.NewIdent(vsName), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(vsPath)}}}}
		f.Decls = append([]ast.Decl{imp}, f.Decls...)
	}
	f.Imports = nil
}

func (r *rw) decl(d ast.Decl) {
	switch d := d.(type) {
	case *ast.GenDecl:
		if d.Tok == token.IMPORT {
			return
		}
		for _, s := range d.Specs {
			r.spec(s)
		}
	case *ast.FuncDecl:
		r.fieldList(d.Recv)
		r.funcType(d.Type)
		if d.Body != nil {
			r.block(d.Body)
		}
	}
}

func (r *rw) spec(s ast.Spec) {
	switch s := s.(type) {
	case *ast.ValueSpec:
		if s.Type != nil {
			s.Type = r.expr(s.Type)
		}
		if len(s.Names) == 2 && len(s.Values) == 1 {
			if u, ok := unparen(s.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				s.Values[0] = r.call("Recv2", r.expr(u.X))
				return
			}
		}
		r.exprs(s.Values)
	case *ast.TypeSpec:
		s.Type = r.expr(s.Type)
	}
}

func (r *rw) fieldList(fl *ast.FieldList) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		f.Type = r.expr(f.Type)
	}
}

func (r *rw) funcType(t *ast.FuncType) {
	r.fieldList(t.Params)
	r.fieldList(t.Results)
}

func (r *rw) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rw) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

// expr rewrites an expression (or type expression).
func (r *rw) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if p := r.pkgOf(id); p != "" {
				if m, ok := table[p][e.Sel.Name]; ok {
					return r.vs(m)
				}
				return e
			}
		}
		e.X = r.expr(e.X)
		return e
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return r.call("Recv", r.expr(e.X))
		}
		e.X = r.expr(e.X)
		return e
	case *ast.CallExpr:
		if id, ok := unparen(e.Fun).(*ast.Ident); ok {
			if b, ok := r.info.Uses[id].(*types.Builtin); ok && b.Name() == "close" && len(e.Args) == 1 {
				return r.call("Close", r.expr(e.Args[0]))
			}
		}
		e.Fun = r.expr(e.Fun)
		r.exprs(e.Args)
		return e
	case *ast.FuncLit:
		r.funcType(e.Type)
		r.block(e.Body)
		return e
	case *ast.CompositeLit:
		if e.Type != nil {
			e.Type = r.expr(e.Type)
		}
		for i, x := range e.Elts {
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				if _, isID := kv.Key.(*ast.Ident); !isID {
					kv.Key = r.expr(kv.Key)
				}
				kv.Value = r.expr(kv.Value)
				continue
			}
			e.Elts[i] = r.expr(x)
		}
		return e
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
		return e
	case *ast.StarExpr:
		e.X = r.expr(e.X)
		return e
	case *ast.BinaryExpr:
		e.X = r.expr(e.X)
		e.Y = r.expr(e.Y)
		return e
	case *ast.IndexExpr:
		e.X = r.expr(e.X)
		e.Index = r.expr(e.Index)
		return e
	case *ast.IndexListExpr:
		e.X = r.expr(e.X)
		r.exprs(e.Indices)
		return e
	case *ast.SliceExpr:
		e.X = r.expr(e.X)
		if e.Low != nil {
			e.Low = r.expr(e.Low)
		}
		if e.High != nil {
			e.High = r.expr(e.High)
		}
		if e.Max != nil {
			e.Max = r.expr(e.Max)
		}
		return e
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
		if e.Type != nil {
			e.Type = r.expr(e.Type)
		}
		return e
	case *ast.KeyValueExpr:
		e.Key = r.expr(e.Key)
		e.Value = r.expr(e.Value)
		return e
	case *ast.ArrayType:
		if e.Len != nil {
			e.Len = r.expr(e.Len)
		}
		e.Elt = r.expr(e.Elt)
		return e
	case *ast.MapType:
		e.Key = r.expr(e.Key)
		e.Value = r.expr(e.Value)
		return e
	case *ast.ChanType:
		e.Value = r.expr(e.Value)
		return e
	case *ast.StructType:
		r.fieldList(e.Fields)
		return e
	case *ast.InterfaceType:
		r.fieldList(e.Methods)
		return e
	case *ast.FuncType:
		r.funcType(e)
		return e
	case *ast.Ellipsis:
		if e.Elt != nil {
			e.Elt = r.expr(e.Elt)
		}
		return e
	}
	return e
}

func (r *rw) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.stmts(b.List)
}

func (r *rw) loopBody(b *ast.BlockStmt) {
	r.block(b)
	b.List = append([]ast.Stmt{&ast.ExprStmt{X: r.call("L")}}, b.List...)
}

// touchesAtomic reports whether the statement itself (not nested blocks or
// function literals) uses sync/atomic.
func (r *rw) touchesAtomic(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return false
		case *ast.SelectorExpr:
			if id, ok := n.X.(*ast.Ident); ok && r.pkgOf(id) == "sync/atomic" {
				found = true
			}
			if o := r.info.Uses[n.Sel]; o != nil && o.Pkg() != nil && o.Pkg().Path() == "sync/atomic" {
				found = true
			}
		}
		return true
	})
	return found
}

func (r *rw) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		if _, ok := s.(*ast.EmptyStmt); ok {
			out = append(out, s)
			continue
		}
		name := "P"
		if r.touchesAtomic(s) {
			name = "PA"
		}
		pre := r.keyNotes(s)
		out = append(out, &ast.ExprStmt{X: r.call(name)})
		ns := r.stmt(s)
		for _, k := range pre {
			out = append(out, &ast.ExprStmt{X: r.call("KeyNote", k)})
		}
		out = append(out, ns)
	}
	return out
}

// keyNotes finds m[k] = v with a pointer-like k that is a plain identifier.
func (r *rw) keyNotes(s ast.Stmt) []ast.Expr {
	as, ok := s.(*ast.AssignStmt)
	if !ok {
		return nil
	}
	var out []ast.Expr
	for _, l := range as.Lhs {
		ix, ok := unparen(l).(*ast.IndexExpr)
		if !ok {
			continue
		}
		t := r.typeOf(ix.X)
		if t == nil {
			continue
		}
		m, ok := t.Underlying().(*types.Map)
		if !ok {
			continue
		}
		switch m.Key().Underlying().(type) {
		case *types.Pointer, *types.Chan, *types.Interface:
			if id, ok := ix.Index.(*ast.Ident); ok {
				out = append(out, ast.NewIdent(id.Name))
			}
		}
	}
	return out
}

func (r *rw) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
		return s
	case *ast.SendStmt:
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("Send", r.expr(s.Chan)), Args: []ast.Expr{r.expr(s.Value)}}}
	case *ast.IncDecStmt:
		s.X = r.expr(s.X)
		return s
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				r.exprs(s.Lhs)
				s.Rhs[0] = r.call("Recv2", r.expr(u.X))
				return s
			}
		}
		r.exprs(s.Lhs)
		r.exprs(s.Rhs)
		return s
	case *ast.DeclStmt:
		r.decl(s.Decl)
		return s
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		s.Call = r.deferCall(s.Call)
		return s
	case *ast.ReturnStmt:
		r.exprs(s.Results)
		return s
	case *ast.BlockStmt:
		r.block(s)
		return s
	case *ast.IfStmt:
		if s.Init != nil {
			s.Init = r.stmt(s.Init)
		}
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		if s.Else != nil {
			s.Else = r.stmt(s.Else)
		}
		return s
	case *ast.SwitchStmt:
		if s.Init != nil {
			s.Init = r.stmt(s.Init)
		}
		if s.Tag != nil {
			s.Tag = r.expr(s.Tag)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			r.exprs(cc.List)
			cc.Body = r.stmtsKeepFallthrough(cc.Body)
		}
		return s
	case *ast.TypeSwitchStmt:
		if s.Init != nil {
			s.Init = r.stmt(s.Init)
		}
		s.Assign = r.stmt(s.Assign)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			r.exprs(cc.List)
			cc.Body = r.stmts(cc.Body)
		}
		return s
	case *ast.LabeledStmt:
		s.Stmt = r.stmt(s.Stmt)
		return s
	case *ast.ForStmt:
		if s.Init != nil {
			s.Init = r.stmt(s.Init)
		}
		if s.Cond != nil {
			s.Cond = r.expr(s.Cond)
		}
		if s.Post != nil {
			s.Post = r.stmt(s.Post)
		}
		r.loopBody(s.Body)
		return s
	case *ast.RangeStmt:
		return r.rangeStmt(s)
	case *ast.SelectStmt:
		return r.selectStmt(s)
	}
	return s
}

func (r *rw) stmtsKeepFallthrough(l []ast.Stmt) []ast.Stmt {
	return r.stmts(l)
}

func (r *rw) deferCall(c *ast.CallExpr) *ast.CallExpr {
	e := r.expr(c)
	return e.(*ast.CallExpr)
}

func (r *rw) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	isConst := func(a ast.Expr) bool {
		tv, ok := r.info.Types[a]
		if !ok {
			return false
		}
		if tv.Value != nil || tv.IsNil() {
			return true
		}
		if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			return true
		}
		return false
	}
	builtin := false
	if id, ok := unparen(c.Fun).(*ast.Ident); ok {
		if _, ok := r.info.Uses[id].(*types.Builtin); ok {
			builtin = true
		}
	}
	multi := false
	if len(c.Args) == 1 {
		if t, ok := r.typeOf(c.Args[0]).(*types.Tuple); ok && t.Len() > 1 {
			multi = true
		}
	}
	if builtin || multi {
		call := r.expr(c)
		return &ast.ExprStmt{X: r.call("Go", &ast.FuncLit{
			Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}},
		})}
	}
	var lhs, rhs []ast.Expr
	args := make([]ast.Expr, len(c.Args))
	consts := make([]bool, len(c.Args))
	for i, a := range c.Args {
		consts[i] = isConst(a)
	}
	f := r.tmp("f")
	lhs = append(lhs, f)
	rhs = append(rhs, r.expr(c.Fun))
	for i, a := range c.Args {
		if consts[i] {
			args[i] = r.expr(a)
			continue
		}
		v := r.tmp("a")
		lhs = append(lhs, v)
		rhs = append(rhs, r.expr(a))
		args[i] = ast.NewIdent(v.Name)
	}
	call := &ast.CallExpr{Fun: ast.NewIdent(f.Name), Args: args}
	if c.Ellipsis.IsValid() {
		call.Ellipsis = 1
	}
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs},
		&ast.ExprStmt{X: r.call("Go", &ast.FuncLit{
			Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}},
		})},
	}}
}

func (r *rw) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	t := r.typeOf(s.X)
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	if t != nil {
		switch t.Underlying().(type) {
		case *types.Chan:
			c := r.tmp("c")
			ok := r.tmp("ok")
			x := r.expr(s.X)
			r.loopBody(s.Body)
			var pre []ast.Stmt
			recv := r.call("Recv2", ast.NewIdent(c.Name))
			brk := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)},
				Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
			if blank(s.Key) {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ok}, Tok: token.DEFINE, Rhs: []ast.Expr{recv}}, brk)
			} else {
				v := r.tmp("v")
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{recv}}, brk,
					&ast.AssignStmt{Lhs: []ast.Expr{r.lhs(s.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v.Name)}})
			}
			s.Body.List = append(pre, s.Body.List...)
			init := &ast.AssignStmt{Lhs: []ast.Expr{c}, Tok: token.DEFINE, Rhs: []ast.Expr{x}}
			if !blank(s.Key) && s.Tok == token.DEFINE {
				init.Lhs = append(init.Lhs, s.Key)
				init.Rhs = append(init.Rhs, r.call("ZeroC", x))
			}
			return &ast.ForStmt{Init: init, Body: s.Body}
		case *types.Map:
			// One evaluation order, fixed key order, and - as the module's language
			// version demands - one variable per loop, not per iteration.
			m, ks, i, ok := r.tmp("m"), r.tmp("ks"), r.tmp("i"), r.tmp("ok")
			x := r.expr(s.X)
			r.loopBody(s.Body)
			id := func(v *ast.Ident) *ast.Ident { return ast.NewIdent(v.Name) }
			lhs := []ast.Expr{m, ks, i}
			rhs := []ast.Expr{x, r.call("Keys", x), &ast.BasicLit{Kind: token.INT, Value: "0"}}
			var pre []ast.Stmt
			key := &ast.IndexExpr{X: id(ks), Index: id(i)}
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ok}, Tok: token.DEFINE,
				Rhs: []ast.Expr{&ast.IndexExpr{X: id(m), Index: key}}},
				&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)},
					Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
			add := func(e ast.Expr, zero string, val ast.Expr) {
				if blank(e) {
					return
				}
				if s.Tok == token.DEFINE {
					lhs = append(lhs, e)
					rhs = append(rhs, r.call(zero, x))
					pre = append(pre, useStmt(e))
				}
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{r.lhs(e)}, Tok: token.ASSIGN, Rhs: []ast.Expr{val}})
			}
			add(s.Key, "ZeroK", key)
			add(s.Value, "ZeroV", &ast.IndexExpr{X: id(m), Index: key})
			s.Body.List = append(pre, s.Body.List...)
			return &ast.ForStmt{
				Init: &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs},
				Cond: &ast.BinaryExpr{X: id(i), Op: token.LSS,
					Y: &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{id(ks)}}},
				Post: &ast.IncDecStmt{X: id(i), Tok: token.INC},
				Body: s.Body,
			}
		}
	}
	if s.Key != nil && s.Tok == token.ASSIGN {
		s.Key = r.expr(s.Key)
	}
	if s.Value != nil && s.Tok == token.ASSIGN {
		s.Value = r.expr(s.Value)
	}
	s.X = r.expr(s.X)
	r.loopBody(s.Body)
	return s
}

func useStmt(e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(e.(*ast.Ident).Name)}}
}

func (r *rw) lhs(e ast.Expr) ast.Expr {
	if _, ok := e.(*ast.Ident); ok {
		return e
	}
	return r.expr(e)
}

func (r *rw) selectStmt(s *ast.SelectStmt) ast.Stmt {
	if len(s.Body.List) == 0 {
		return &ast.ForStmt{Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: r.call("BlockForever")}}}}
	}
	var lhs, rhs, args []ast.Expr
	var cases []ast.Stmt
	hasDef := "false"
	idx := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		var pre []ast.Stmt
		if cc.Comm == nil {
			hasDef = "true"
			cases = append(cases, &ast.CaseClause{
				List: []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}},
				Body: r.stmts(cc.Body),
			})
			continue
		}
		v := r.tmp("c")
		val := &ast.SelectorExpr{X: ast.NewIdent(v.Name), Sel: ast.NewIdent("Val")}
		okx := &ast.SelectorExpr{X: ast.NewIdent(v.Name), Sel: ast.NewIdent("Ok")}
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, &ast.CallExpr{Fun: r.call("SendCase", r.expr(cm.Chan)), Args: []ast.Expr{r.expr(cm.Value)}})
		case *ast.ExprStmt:
			u := unparen(cm.X).(*ast.UnaryExpr)
			rhs = append(rhs, r.call("RecvCase", r.expr(u.X)))
		case *ast.AssignStmt:
			u := unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			rhs = append(rhs, r.call("RecvCase", r.expr(u.X)))
			as := &ast.AssignStmt{Tok: cm.Tok}
			for i, l := range cm.Lhs {
				as.Lhs = append(as.Lhs, r.lhs(l))
				if i == 0 {
					as.Rhs = append(as.Rhs, val)
				} else {
					as.Rhs = append(as.Rhs, okx)
				}
			}
			allBlank := true
			for _, l := range as.Lhs {
				if id, ok := l.(*ast.Ident); !ok || id.Name != "_" {
					allBlank = false
				}
			}
			if allBlank {
				as.Tok = token.ASSIGN
			}
			pre = append(pre, as)
		}
		lhs = append(lhs, v)
		args = append(args, ast.NewIdent(v.Name))
		cases = append(cases, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}},
			Body: append(pre, r.stmts(cc.Body)...),
		})
		idx++
	}
	cases = append(cases, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{
		Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"zzvs: unreachable"`}}}}}})
	sw := &ast.SwitchStmt{
		Tag:  r.call("Select", append([]ast.Expr{ast.NewIdent(hasDef)}, args...)...),
		Body: &ast.BlockStmt{List: cases},
	}
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	return sw
}
