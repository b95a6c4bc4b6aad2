// rewrite OUTDIR: writes copies of the files of those packages of /repo that use
// goroutines or channels, with these, sync, sync/atomic and NumCPU replaced
// by calls into verif/mc/sched, and adds them to OUTDIR/overlay.json as
// OUTDIR/overlay-sched.json.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const module = "github.com/sjwhitworth/golearn"

var repo = "/repo"

func main() {
	out := os.Args[1]
	rep := struct{ Replace map[string]string }{map[string]string{}}
	b, err := os.ReadFile(filepath.Join(out, "overlay.json"))
	check(err)
	check(json.Unmarshal(b, &rep))
	im := &loader{fset: token.NewFileSet(), pkgs: map[string]*types.Package{}, infos: map[string]*unit{}}
	im.std = importer.ForCompiler(im.fset, "source", nil)
	var dirs []string
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.IsDir() {
			if strings.HasPrefix(fi.Name(), ".") && p != repo {
				return filepath.SkipDir
			}
			dirs = append(dirs, p)
		}
		return nil
	})
	for _, d := range dirs {
		kind := wanted(d)
		if kind == 0 {
			continue
		}
		rel, _ := filepath.Rel(repo, d)
		path := module
		if rel != "." {
			path += "/" + filepath.ToSlash(rel)
		}
		im.Import(path)
		u := im.infos[path]
		if u == nil || u.pkg.Name() == "main" {
			continue
		}
		for i, f := range u.files {
			name := u.names[i]
			src, err := os.ReadFile(name)
			check(err)
			r := &rewriter{fset: im.fset, info: u.info, file: f, lazy: kind == 1}
			if !r.run() {
				continue
			}
			var buf bytes.Buffer
			cons := "go1.21"
			for _, l := range strings.Split(string(src), "\n") {
				if strings.HasPrefix(l, "//go:build ") {
					cons += " && (" + strings.TrimPrefix(l, "//go:build ") + ")"
				}
				if strings.HasPrefix(l, "package ") {
					break
				}
			}
			fmt.Fprintf(&buf, "//go:build %s\n\n", cons)
			check(printer.Fprint(&buf, im.fset, f))
			buf.WriteString(r.tail)
			dst := filepath.Join(out, "sched_"+strings.ReplaceAll(strings.TrimPrefix(name, "/"), "/", "_"))
			check(os.WriteFile(dst, buf.Bytes(), 0644))
			rep.Replace[name] = dst
			fmt.Fprintln(os.Stderr, "rewrote", name, r.counts())
		}
	}
	b, _ = json.Marshal(rep)
	check(os.WriteFile(filepath.Join(out, "overlay-sched.json"), b, 0644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// wanted tells whether a file of the directory starts goroutines, uses channels
// (2) or only locks and the like (1).
func wanted(dir string) int {
	res := 0
	ms, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, m := range ms {
		if strings.HasSuffix(m, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), m, nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GoStmt, *ast.ChanType, *ast.SendStmt, *ast.SelectStmt:
				res = 2
			case *ast.UnaryExpr:
				if x.Op == token.ARROW {
					res = 2
				}
			case *ast.ImportSpec:
				switch x.Path.Value {
				case `"sync"`, `"sync/atomic"`, `"runtime"`:
					if res == 0 {
						res = 1
					}
				}
			}
			return true
		})
	}
	return res
}

type unit struct {
	pkg   *types.Package
	info  *types.Info
	files []*ast.File
	names []string
}

type loader struct {
	fset  *token.FileSet
	pkgs  map[string]*types.Package
	infos map[string]*unit
	std   types.Importer
}

// Import type-checks packages of the repository from source; of the standard
// library only what matters for channels and synchronisation; everything else
// stays unknown (errors are ignored).
func (l *loader) Import(path string) (*types.Package, error) {
	if p := l.pkgs[path]; p != nil {
		return p, nil
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	switch path {
	case "sync", "sync/atomic", "time", "context":
		p, err := l.std.Import(path)
		if err == nil {
			l.pkgs[path] = p
		}
		return p, err
	}
	if path != module && !strings.HasPrefix(path, module+"/") {
		p := types.NewPackage(path, filepath.Base(path))
		p.MarkComplete()
		l.pkgs[path] = p
		return p, nil
	}
	dir := filepath.Join(repo, strings.TrimPrefix(path, module))
	bp, err := build.Default.ImportDir(dir, 0)
	if err != nil && (bp == nil || len(bp.GoFiles) == 0) {
		return nil, err
	}
	u := &unit{info: &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}}
	for _, n := range bp.GoFiles { // cgo files are left alone
		name := filepath.Join(dir, n)
		f, err := parser.ParseFile(l.fset, name, nil, 0)
		if err != nil {
			return nil, err
		}
		u.files = append(u.files, f)
		u.names = append(u.names, name)
	}
	cfg := types.Config{Importer: l, Error: func(error) {}, FakeImportC: true}
	u.pkg, _ = cfg.Check(path, l.fset, u.files, u.info)
	l.pkgs[path] = u.pkg
	l.infos[path] = u
	return u.pkg, nil
}

type rewriter struct {
	fset *token.FileSet
	info *types.Info
	file *ast.File
	n    int
	did  map[string]int
	lazy bool              // locks only
	keep map[string]string // import name -> a use that keeps it
	tail string
}

func (r *rewriter) counts() string {
	var k []string
	for s, n := range r.did {
		k = append(k, fmt.Sprintf("%s=%d", s, n))
	}
	sort.Strings(k)
	return strings.Join(k, " ")
}

const alias = "verifsched__"

func sel(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent(alias), Sel: ast.NewIdent(name)}
}

func call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: sel(name), Args: args}
}

func (r *rewriter) tmp() *ast.Ident {
	r.n++
	return ast.NewIdent("verif__" + strconv.Itoa(r.n))
}

func define(name ast.Expr, v ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{name}, Tok: token.DEFINE, Rhs: []ast.Expr{v}}
}

var replaced = map[string]map[string]string{
	"sync":    {"Mutex": "Mutex", "RWMutex": "RWMutex", "WaitGroup": "WaitGroup", "Once": "Once", "Cond": "Cond", "NewCond": "NewCond"},
	"runtime": {"NumCPU": "NumCPU", "GOMAXPROCS": "GOMAXPROCS", "Gosched": "Gosched", "NumGoroutine": "NumGoroutine"},
	"time":    {"Sleep": "Sleep"},
}

func (r *rewriter) run() bool {
	r.did, r.keep = map[string]int{}, map[string]string{}
	for _, d := range r.file.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			if x.Recv != nil {
				r.fields(x.Recv)
			}
			r.expr(x.Type)
			if x.Body != nil {
				r.block(x.Body)
			}
		case *ast.GenDecl:
			if x.Tok != token.IMPORT {
				r.gen(x)
			}
		}
	}
	if len(r.did) == 0 {
		return false
	}
	imp := &ast.ImportSpec{Name: ast.NewIdent(alias), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif/mc/sched"`}}
	r.file.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{imp}}}, r.file.Decls...)
	r.tail = "\nvar _ = " + alias + ".Point\n"
	var ks []string
	for _, k := range r.keep {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r.tail += "\nvar _ " + k + "\n"
	}
	return true
}

// pkgOf resolves the package name of a selector.
func (r *rewriter) pkgOf(x ast.Expr) string {
	id, ok := x.(*ast.Ident)
	if !ok {
		return ""
	}
	if o, ok := r.info.Uses[id].(*types.PkgName); ok {
		return o.Imported().Path()
	}
	return ""
}

func (r *rewriter) isChan(x ast.Expr) bool {
	t := r.info.Types[x].Type
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (r *rewriter) gen(x *ast.GenDecl) {
	for _, s := range x.Specs {
		switch y := s.(type) {
		case *ast.TypeSpec:
			y.Type = r.expr(y.Type)
		case *ast.ValueSpec:
			if y.Type != nil {
				y.Type = r.expr(y.Type)
			}
			if len(y.Names) == 2 && len(y.Values) == 1 {
				if u, ok := recv(y.Values[0]); ok {
					r.did["recv"]++
					y.Values[0] = call("Recv2", r.expr(u.X))
					continue
				}
			}
			r.exprs(y.Values)
		}
	}
}

func recv(x ast.Expr) (*ast.UnaryExpr, bool) {
	for {
		p, ok := x.(*ast.ParenExpr)
		if !ok {
			break
		}
		x = p.X
	}
	u, ok := x.(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

func (r *rewriter) fields(f *ast.FieldList) {
	if f == nil {
		return
	}
	for _, x := range f.List {
		t := r.expr(x.Type)
		x.Type = t
	}
}

func (r *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			r.did["recv"]++
			return call("Recv", r.expr(x.X))
		}
		x.X = r.expr(x.X)
	case *ast.SelectorExpr:
		p := r.pkgOf(x.X)
		if m := replaced[p]; m != nil {
			if to, ok := m[x.Sel.Name]; ok {
				r.did[p]++
				use := map[string]string{"sync": ".Locker", "runtime": ".Error", "time": ".Time"}[p]
				r.keep[p] = x.X.(*ast.Ident).Name + use
				if r.lazy && strings.HasSuffix(to, "Mutex") {
					to = "L" + to
				}
				return sel(to)
			}
		}
		if p == "sync/atomic" {
			if _, isFunc := r.info.Uses[x.Sel].(*types.Func); isFunc {
				r.did["atomic"]++
				return call("P", x)
			}
			return x
		}
		if s := r.info.Selections[x]; s != nil && s.Kind() == types.MethodVal && s.Obj().Pkg() != nil && s.Obj().Pkg().Path() == "sync/atomic" {
			r.did["atomic"]++
			x.X = r.expr(x.X)
			return call("P", x)
		}
		if p == "" {
			x.X = r.expr(x.X)
		}
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && len(x.Args) == 1 {
			if _, b := r.info.Uses[id].(*types.Builtin); b {
				r.did["close"]++
				return call("Close", r.expr(x.Args[0]))
			}
		}
		if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "len" && len(x.Args) == 1 && r.isChan(x.Args[0]) {
			if _, b := r.info.Uses[id].(*types.Builtin); b {
				r.did["len"]++
				return call("Len", r.expr(x.Args[0]))
			}
		}
		x.Fun = r.expr(x.Fun)
		r.exprs(x.Args)
	case *ast.FuncLit:
		r.expr(x.Type)
		r.block(x.Body)
	case *ast.CompositeLit:
		if x.Type != nil {
			x.Type = r.expr(x.Type)
		}
		r.exprs(x.Elts)
	case *ast.KeyValueExpr:
		x.Value = r.expr(x.Value)
		if _, id := x.Key.(*ast.Ident); !id {
			x.Key = r.expr(x.Key)
		}
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
	case *ast.StarExpr:
		x.X = r.expr(x.X)
	case *ast.BinaryExpr:
		x.X, x.Y = r.expr(x.X), r.expr(x.Y)
	case *ast.IndexExpr:
		x.X, x.Index = r.expr(x.X), r.expr(x.Index)
	case *ast.IndexListExpr:
		x.X = r.expr(x.X)
		r.exprs(x.Indices)
	case *ast.SliceExpr:
		x.X = r.expr(x.X)
		if x.Low != nil {
			x.Low = r.expr(x.Low)
		}
		if x.High != nil {
			x.High = r.expr(x.High)
		}
		if x.Max != nil {
			x.Max = r.expr(x.Max)
		}
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
		if x.Type != nil {
			x.Type = r.expr(x.Type)
		}
	case *ast.Ellipsis:
		if x.Elt != nil {
			x.Elt = r.expr(x.Elt)
		}
	case *ast.ArrayType:
		x.Elt = r.expr(x.Elt)
	case *ast.ChanType:
		x.Value = r.expr(x.Value)
	case *ast.MapType:
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
	case *ast.StructType:
		for _, f := range x.Fields.List {
			if len(f.Names) == 0 { // an embedded type keeps its name: Mutex is called Mutex in both packages
				f.Type = r.expr(f.Type)
				continue
			}
			f.Type = r.expr(f.Type)
		}
	case *ast.InterfaceType:
		r.fields(x.Methods)
	case *ast.FuncType:
		r.fields(x.Params)
		r.fields(x.Results)
	}
	return e
}

func (r *rewriter) block(b *ast.BlockStmt) { b.List = r.stmts(b.List) }

func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	for i := range l {
		l[i] = r.stmt(l[i])
	}
	return l
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.SendStmt:
		r.did["send"]++
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: call("Sender", r.expr(x.Chan)), Args: []ast.Expr{r.expr(x.Value)}}}
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u, ok := recv(x.Rhs[0]); ok {
				r.did["recv"]++
				r.exprs(x.Lhs)
				x.Rhs[0] = call("Recv2", r.expr(u.X))
				return x
			}
		}
		r.exprs(x.Lhs)
		r.exprs(x.Rhs)
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			r.gen(g)
		}
	case *ast.DeferStmt:
		x.Call = r.expr(x.Call).(*ast.CallExpr)
	case *ast.ReturnStmt:
		r.exprs(x.Results)
	case *ast.IncDecStmt:
		x.X = r.expr(x.X)
	case *ast.BlockStmt:
		r.block(x)
	case *ast.IfStmt:
		x.Init = r.opt(x.Init)
		x.Cond = r.expr(x.Cond)
		r.block(x.Body)
		x.Else = r.opt(x.Else)
	case *ast.ForStmt:
		x.Init = r.opt(x.Init)
		if x.Cond != nil {
			x.Cond = r.expr(x.Cond)
		}
		x.Post = r.opt(x.Post)
		r.block(x.Body)
	case *ast.RangeStmt:
		if r.isChan(x.X) {
			return r.rangeChan(x)
		}
		x.X = r.expr(x.X)
		r.block(x.Body)
	case *ast.SwitchStmt:
		x.Init = r.opt(x.Init)
		if x.Tag != nil {
			x.Tag = r.expr(x.Tag)
		}
		r.block(x.Body)
	case *ast.TypeSwitchStmt:
		x.Init = r.opt(x.Init)
		x.Assign = r.stmt(x.Assign)
		r.block(x.Body)
	case *ast.CaseClause:
		r.exprs(x.List)
		x.Body = r.stmts(x.Body)
	case *ast.LabeledStmt:
		x.Stmt = r.stmt(x.Stmt)
	case *ast.SelectStmt:
		return r.selectStmt(x)
	}
	return s
}

func (r *rewriter) opt(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	return r.stmt(s)
}

// inline tells whether an argument may be evaluated later.
func (r *rewriter) inline(x ast.Expr) bool {
	tv, ok := r.info.Types[x]
	if ok && (tv.Value != nil || tv.IsNil() || tv.IsType()) {
		return true
	}
	switch y := x.(type) {
	case *ast.BasicLit, *ast.FuncLit:
		return true
	case *ast.Ident:
		return y.Name == "nil" || y.Name == "true" || y.Name == "false"
	}
	return false
}

func (r *rewriter) goStmt(x *ast.GoStmt) ast.Stmt {
	r.did["go"]++
	c := x.Call
	b := &ast.BlockStmt{}
	builtin := false
	if id, ok := c.Fun.(*ast.Ident); ok {
		_, builtin = r.info.Uses[id].(*types.Builtin)
	}
	var nc ast.Expr
	if builtin {
		nc = r.expr(c)
	} else {
		fun := r.expr(c.Fun)
		if _, lit := fun.(*ast.FuncLit); !lit && !r.info.Types[c.Fun].IsType() {
			v := r.tmp()
			b.List = append(b.List, define(v, fun))
			fun = v
		}
		args := make([]ast.Expr, len(c.Args))
		multi := false
		if len(c.Args) == 1 {
			_, multi = r.info.Types[c.Args[0]].Type.(*types.Tuple)
		}
		for i, a := range c.Args {
			if multi || r.inline(a) {
				args[i] = r.expr(a)
				continue
			}
			v := r.tmp()
			b.List = append(b.List, define(v, r.expr(a)))
			args[i] = v
		}
		k := &ast.CallExpr{Fun: fun, Args: args}
		if c.Ellipsis != token.NoPos {
			k.Ellipsis = 1
		}
		nc = k
	}
	b.List = append(b.List, &ast.ExprStmt{X: call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}})})
	return b
}

func (r *rewriter) rangeChan(x *ast.RangeStmt) ast.Stmt {
	r.did["range"]++
	ch, ok := r.tmp(), r.tmp()
	key := x.Key
	if key == nil {
		key = ast.NewIdent("_")
	}
	var get []ast.Stmt
	if x.Tok == token.ASSIGN {
		get = []ast.Stmt{
			&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ok}, Type: ast.NewIdent("bool")}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{r.expr(key), ok}, Tok: token.ASSIGN, Rhs: []ast.Expr{call("Recv2", ch)}},
		}
	} else {
		get = []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{key, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call("Recv2", ch)}}}
	}
	get = append(get, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
	init := define(ch, r.expr(x.X))
	r.block(x.Body)
	return &ast.ForStmt{Init: init, Body: &ast.BlockStmt{List: append(get, x.Body)}}
}

// selectStmt turns a select into one choice and then the chosen real
// operation; the original stays for when no exploration is active.
func (r *rewriter) selectStmt(x *ast.SelectStmt) ast.Stmt {
	r.did["select"]++
	pre := &ast.BlockStmt{}
	orig := &ast.SelectStmt{Body: &ast.BlockStmt{}}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDef := "false"
	args := []ast.Expr{nil}
	n := 0
	picked := r.tmp()
	for _, s := range x.Body.List {
		cc := s.(*ast.CommClause)
		body := r.stmts(cc.Body)
		if cc.Comm == nil {
			hasDef = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: body})
			orig.Body.List = append(orig.Body.List, &ast.CommClause{Body: body})
			continue
		}
		ch := r.tmp()
		var op, oc ast.Stmt // the modelled and the original operation
		field := func(n string) ast.Expr { return &ast.SelectorExpr{X: ch, Sel: ast.NewIdent(n)} }
		arrow := func() ast.Expr { return &ast.UnaryExpr{Op: token.ARROW, X: ch} }
		if y, ok := cc.Comm.(*ast.SendStmt); ok {
			pre.List = append(pre.List, define(ch, &ast.CallExpr{Fun: call("SelSend", r.expr(y.Chan)), Args: []ast.Expr{r.expr(y.Value)}}))
			args = append(args, call("SendCase", field("Ch")))
			op = &ast.ExprStmt{X: &ast.CallExpr{Fun: field("Send"), Args: []ast.Expr{picked}}}
			oc = &ast.SendStmt{Chan: field("Ch"), Value: field("V")}
		} else {
			var src ast.Expr
			if y, ok := cc.Comm.(*ast.ExprStmt); ok {
				src = y.X
				op = &ast.ExprStmt{X: call("SelRecv", picked, ch)}
				oc = &ast.ExprStmt{X: arrow()}
			} else {
				y := cc.Comm.(*ast.AssignStmt)
				src = y.Rhs[0]
				name := "SelRecv"
				if len(y.Lhs) == 2 {
					name = "SelRecv2"
				}
				r.exprs(y.Lhs)
				op = &ast.AssignStmt{Lhs: y.Lhs, Tok: y.Tok, Rhs: []ast.Expr{call(name, picked, ch)}}
				oc = &ast.AssignStmt{Lhs: y.Lhs, Tok: y.Tok, Rhs: []ast.Expr{arrow()}}
			}
			u, _ := recv(src)
			pre.List = append(pre.List, define(ch, r.expr(u.X)))
			args = append(args, call("RecvCase", ch))
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}, Body: append([]ast.Stmt{op}, body...)})
		orig.Body.List = append(orig.Body.List, &ast.CommClause{Comm: oc, Body: body})
		n++
	}
	args[0] = ast.NewIdent(hasDef)
	sw.Init = define(picked, call("Select", args...))
	sw.Tag = &ast.SelectorExpr{X: picked, Sel: ast.NewIdent("I")}
	pre.List = append(pre.List, &ast.IfStmt{Cond: call("Active"), Body: &ast.BlockStmt{List: []ast.Stmt{sw}}, Else: &ast.BlockStmt{List: []ast.Stmt{orig}}})
	return pre
}
