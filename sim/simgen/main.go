// simgen rewrites Go packages so that every source of nondeterminism goes to
// the simulator: goroutines, channels, select, locks, clocks, randomness,
// sockets, files.  The rewriting is done on the source text (line numbers are
// preserved) guided by full type information.
//
// usage: simgen -cfg cfg.json
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Config lists module trees to rewrite.
type Config struct {
	ListDir  string   // directory in which "go list" runs
	Env      []string // extra environment for go list
	Patterns []string // packages to load
	Rewrite  []Rule   // which packages are rewritten and where they go
	Out      string
}

type Rule struct {
	Prefix  string // import path prefix
	Dir     string // output directory under Out for that prefix
	Preempt bool
}

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct{ GoVersion string }
	Error      *struct{ Err string }
}

var stdMap = map[string]string{
	"sync":          "simrt/simsync",
	"time":          "simrt/simtime",
	"math/rand":     "simrt/simrand",
	"math/rand/v2":  "simrt/simrand2",
	"runtime":       "simrt/simruntime",
	"net":           "simrt/simnet",
	"os":            "simrt/simos",
	"io/ioutil":     "simrt/simioutil",
	"os/signal":     "simrt/simsignal",
	"context":       "simrt/simcontext",
	"crypto/rand":   "simrt/simcrand",
	"path/filepath": "simrt/simfilepath",
}

func main() {
	cfgp := flag.String("cfg", "", "config file")
	flag.Parse()
	b, err := os.ReadFile(*cfgp)
	ck(err)
	var cfg Config
	ck(json.Unmarshal(b, &cfg))
	args := append([]string{"list", "-e", "-export", "-deps", "-json=ImportPath,Name,Dir,Export,GoFiles,Standard,Module,Error"}, cfg.Patterns...)
	cmd := exec.Command("go", args...)
	cmd.Dir = cfg.ListDir
	cmd.Env = append(os.Environ(), cfg.Env...)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		fmt.Fprintln(os.Stderr, stderr.String())
		ck(err)
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	exports := map[string]string{}
	var pkgs []*listPkg
	bad := false
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else {
			ck(err)
		}
		exports[p.ImportPath] = p.Export
		if r := rule(&cfg, p.ImportPath); r != nil && p.Name != "main" && len(p.GoFiles) > 0 {
			if p.Error != nil {
				fmt.Fprintln(os.Stderr, p.ImportPath, p.Error.Err)
				bad = true
			}
			pkgs = append(pkgs, p)
		}
	}
	if bad {
		fmt.Fprintln(os.Stderr, stderr.String())
		os.Exit(2)
	}
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	for _, p := range pkgs {
		wg.Add(1)
		go func(p *listPkg) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			rewritePkg(&cfg, p, exports)
		}(p)
	}
	wg.Wait()
}

func rule(c *Config, path string) *Rule {
	var best *Rule
	for i := range c.Rewrite {
		r := &c.Rewrite[i]
		if path == r.Prefix || strings.HasPrefix(path, r.Prefix+"/") {
			if best == nil || len(r.Prefix) > len(best.Prefix) {
				best = r
			}
		}
	}
	return best
}

func ck(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "simgen:", err)
		os.Exit(2)
	}
}

func rewritePkg(cfg *Config, p *listPkg, exports map[string]string) {
	fset := token.NewFileSet()
	var files []*ast.File
	var srcs [][]byte
	for _, f := range p.GoFiles {
		b, err := os.ReadFile(filepath.Join(p.Dir, f))
		ck(err)
		a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), b, parser.SkipObjectResolution)
		ck(err)
		files = append(files, a)
		srcs = append(srcs, b)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(e)
	})
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Scopes: map[ast.Node]*types.Scope{},
	}
	conf := types.Config{Importer: imp, Error: func(err error) { fmt.Fprintln(os.Stderr, "simgen typecheck:", err) }}
	if p.Module != nil && p.Module.GoVersion != "" {
		conf.GoVersion = "go" + p.Module.GoVersion
	}
	tpkg, err := conf.Check(p.ImportPath, fset, files, info)
	ck(err)
	r := rule(cfg, p.ImportPath)
	dir := filepath.Join(cfg.Out, r.Dir, strings.TrimPrefix(p.ImportPath, r.Prefix))
	ck(os.MkdirAll(dir, 0o755))
	for i, f := range files {
		w := &rw{fset: fset, src: srcs[i], info: info, pkg: tpkg, file: fset.File(f.Pos()), preempt: r.Preempt, switchBody: map[*ast.BlockStmt]bool{}, printed: map[ast.Node]bool{}}
		out := w.fileText(f)
		ck(os.WriteFile(filepath.Join(dir, p.GoFiles[i]), out, 0o644))
	}
}

type rw struct {
	fset    *token.FileSet
	src     []byte
	info    *types.Info
	pkg     *types.Package
	file    *token.File
	preempt bool
	n       int

	switchBody map[*ast.BlockStmt]bool
	printed    map[ast.Node]bool
	funcs      []ast.Node // enclosing function nodes
}

const S = "simrt__."

func (w *rw) off(p token.Pos) int { return w.file.Offset(p) }

func (w *rw) tmp(s string) string { w.n++; return fmt.Sprintf("%s__%d", s, w.n) }

func (w *rw) fileText(f *ast.File) []byte {
	var b strings.Builder
	nameEnd := w.off(f.Name.End())
	b.Write(w.src[:nameEnd])
	b.WriteString("; import simrt__ \"simrt\"")
	pos := nameEnd
	type edit struct {
		from, to int
		text     string
	}
	var eds []edit
	for _, is := range f.Imports {
		path, _ := strconv.Unquote(is.Path.Value)
		np, ok := stdMap[path]
		if !ok {
			continue
		}
		name := ""
		if is.Name != nil {
			name = is.Name.Name
		} else {
			name = path[strings.LastIndexByte(path, '/')+1:]
			if name == "v2" {
				name = "rand"
			}
		}
		eds = append(eds, edit{w.off(is.Pos()), w.off(is.End()), name + " " + strconv.Quote(np)})
	}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		eds = append(eds, edit{w.off(d.Pos()), w.off(d.End()), w.text(d)})
	}
	sort.Slice(eds, func(i, j int) bool { return eds[i].from < eds[j].from })
	for _, e := range eds {
		b.Write(w.src[pos:e.from])
		b.WriteString(e.text)
		pos = e.to
	}
	b.Write(w.src[pos:])
	b.WriteString("\n\nvar _ = " + S + "Y\n")
	return []byte(b.String())
}

// text renders a node with all rewrites applied inside it.
func (w *rw) text(n ast.Node) string {
	if n == nil {
		return ""
	}
	if w.printed[n] {
		delete(w.printed, n)
		return S + "Printed(" + w.text(n) + ")"
	}
	if s, ok := w.special(n); ok {
		return s
	}
	return w.generic(n)
}

// markPrinted finds the pointers, functions and channels handed to package fmt:
// as text, their addresses must not differ between runs of the same seed.
func (w *rw) markPrinted(x *ast.CallExpr) {
	sel, ok := x.Fun.(*ast.SelectorExpr)
	if !ok || x.Ellipsis.IsValid() {
		return
	}
	id, ok := sel.X.(*ast.Ident)
	if !ok {
		return
	}
	pn, ok := w.info.Uses[id].(*types.PkgName)
	if !ok || pn.Imported().Path() != "fmt" || strings.Contains(sel.Sel.Name, "can") {
		return
	}
	for _, a := range x.Args {
		if l, ok := a.(*ast.BasicLit); ok && strings.Contains(l.Value, "%T") {
			return
		}
	}
	for i, a := range x.Args {
		if i == 0 && (strings.HasPrefix(sel.Sel.Name, "F") || strings.HasPrefix(sel.Sel.Name, "Append")) {
			continue
		}
		t := w.typeOf(a)
		switch types.Unalias(t).Underlying().(type) {
		case *types.Pointer, *types.Signature, *types.Chan:
		default:
			continue
		}
		if obj, _, _ := types.LookupFieldOrMethod(t, true, w.pkg, "Error"); obj != nil {
			continue
		}
		w.printed[a] = true
	}
}

func (w *rw) generic(n ast.Node) string {
	var b strings.Builder
	pos := w.off(n.Pos())
	end := w.off(n.End())
	isFn := false
	switch n.(type) {
	case *ast.FuncDecl, *ast.FuncLit:
		isFn = true
		w.funcs = append(w.funcs, n)
	}
	for _, c := range children(n) {
		from, to := w.off(c.Pos()), w.off(c.End())
		if from < pos { // nodes sharing positions
			continue
		}
		b.Write(w.src[pos:from])
		b.WriteString(w.text(c))
		pos = to
	}
	if isFn {
		w.funcs = w.funcs[:len(w.funcs)-1]
	}
	if pos < end {
		b.Write(w.src[pos:end])
	}
	return b.String()
}

// children lists direct child nodes in source order.
func children(n ast.Node) []ast.Node {
	var out []ast.Node
	first := true
	ast.Inspect(n, func(x ast.Node) bool {
		if x == nil {
			return false
		}
		if first {
			first = false
			return true
		}
		switch y := x.(type) {
		case *ast.CommentGroup, *ast.Comment:
			return false
		case *ast.FuncType:
			// a FuncDecl's type overlaps its name: descend instead
			if _, ok := n.(*ast.FuncDecl); ok {
				_ = y
				return false // signatures contain nothing to rewrite
			}
		}
		out = append(out, x)
		return false
	})
	sort.SliceStable(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

func (w *rw) y() string {
	if !w.preempt {
		return ""
	}
	return S + "Y();"
}

func (w *rw) special(n ast.Node) (string, bool) {
	switch x := n.(type) {
	case *ast.BlockStmt:
		return "{" + w.stmts(x.List, w.off(x.Lbrace)+1, w.off(x.Rbrace), w.switchBody[x]) + "}", true
	case *ast.SwitchStmt:
		w.switchBody[x.Body] = true
	case *ast.TypeSwitchStmt:
		w.switchBody[x.Body] = true
	case *ast.CaseClause:
		var b strings.Builder
		pos := w.off(x.Pos())
		for _, e := range x.List {
			b.Write(w.src[pos:w.off(e.Pos())])
			b.WriteString(w.text(e))
			pos = w.off(e.End())
		}
		b.Write(w.src[pos : w.off(x.Colon)+1])
		b.WriteString(w.stmts(x.Body, w.off(x.Colon)+1, w.off(x.End()), false))
		return b.String(), true
	case *ast.LabeledStmt:
		if sel, ok := x.Stmt.(*ast.SelectStmt); ok {
			return w.selectStmt(sel, x.Label.Name+":"), true
		}
	case *ast.SelectStmt:
		return w.selectStmt(x, ""), true
	case *ast.GoStmt:
		return w.goStmt(x), true
	case *ast.SendStmt:
		return S + "Sender(" + w.text(x.Chan) + ")(" + w.text(x.Value) + ")", true
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return S + "Recv(" + w.text(x.X) + ")", true
		}
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				return w.text(x.Lhs[0]) + "," + w.text(x.Lhs[1]) + " " + x.Tok.String() + " " + S + "Recv2(" + w.text(u.X) + ")", true
			}
		}
		// map writes
		if x.Tok != token.DEFINE {
			any := false
			for _, l := range x.Lhs {
				if w.isMapIndex(l) {
					any = true
				}
			}
			if any {
				var b strings.Builder
				pos := w.off(x.Pos())
				for _, l := range x.Lhs {
					b.Write(w.src[pos:w.off(l.Pos())])
					if ix, ok := unparen(l).(*ast.IndexExpr); ok && w.isMapIndex(l) {
						b.WriteString(S + "MapW(" + w.text(ix.X) + ")[" + w.text(ix.Index) + "]")
					} else {
						b.WriteString(w.text(l))
					}
					pos = w.off(l.End())
				}
				for _, r := range x.Rhs {
					b.Write(w.src[pos:w.off(r.Pos())])
					b.WriteString(w.text(r))
					pos = w.off(r.End())
				}
				return b.String(), true
			}
		}
	case *ast.IncDecStmt:
		if ix, ok := unparen(x.X).(*ast.IndexExpr); ok && w.isMapIndex(x.X) {
			return S + "MapW(" + w.text(ix.X) + ")[" + w.text(ix.Index) + "]" + x.Tok.String(), true
		}
	case *ast.ValueSpec:
		if len(x.Names) == 2 && len(x.Values) == 1 {
			if u, ok := unparen(x.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				return string(w.src[w.off(x.Pos()):w.off(x.Values[0].Pos())]) + S + "Recv2(" + w.text(u.X) + ")", true
			}
		}
	case *ast.IndexExpr:
		if w.isMapIndex(x) {
			return S + "MapR(" + w.text(x.X) + ")[" + w.text(x.Index) + "]", true
		}
	case *ast.CallExpr:
		w.markPrinted(x)
		if id, ok := unparen(x.Fun).(*ast.Ident); ok && len(x.Args) > 0 {
			if bi, ok := w.info.Uses[id].(*types.Builtin); ok {
				switch bi.Name() {
				case "close":
					return S + "Close(" + w.text(x.Args[0]) + ")", true
				case "len":
					if isChan(w.typeOf(x.Args[0])) {
						return S + "Len(" + w.text(x.Args[0]) + ")", true
					}
				case "delete":
					if len(x.Args) == 2 && w.sharedExpr(x.Args[0]) {
						return "delete(" + S + "MapW(" + w.text(x.Args[0]) + ")," + w.text(x.Args[1]) + ")", true
					}
				}
			}
		}
	case *ast.RangeStmt:
		return w.rangeStmt(x)
	case *ast.BinaryExpr:
		if w.preempt && (x.Op == token.LAND || x.Op == token.LOR) {
			if t, ok := w.typeOf(x).(*types.Basic); ok && (t.Kind() == types.Bool || t.Kind() == types.UntypedBool) {
				if tv := w.info.Types[x]; tv.Value == nil {
					mid := string(w.src[w.off(x.X.End()):w.off(x.Y.Pos())])
					// keep the gap text (newlines) around the operator
					gap := strings.TrimSpace(mid)
					nl := strings.Repeat("\n", strings.Count(mid, "\n"))
					_ = gap
					if x.Op == token.LAND {
						return w.text(x.X) + " && " + nl + S + "YB() && " + w.text(x.Y), true
					}
					return w.text(x.X) + " || " + nl + "!" + S + "YB() || " + w.text(x.Y), true
				}
			}
		}
	}
	return "", false
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (w *rw) typeOf(e ast.Expr) types.Type {
	if tv, ok := w.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := w.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := w.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return types.Typ[types.Invalid]
}

func coreType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if tp, ok := t.(*types.TypeParam); ok {
		if it, ok := tp.Constraint().Underlying().(*types.Interface); ok && it.NumEmbeddeds() == 1 {
			if u, ok := it.EmbeddedType(0).(*types.Union); ok && u.Len() == 1 {
				return u.Term(0).Type().Underlying()
			}
		}
		return t
	}
	return t.Underlying()
}

func isChan(t types.Type) bool { _, ok := coreType(t).(*types.Chan); return ok }
func isMap(t types.Type) bool  { _, ok := coreType(t).(*types.Map); return ok }

// sharedExpr reports whether an expression may denote state visible to other
// goroutines (anything but a plain local of the innermost function).
func (w *rw) sharedExpr(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.Ident:
		o := w.info.Uses[x]
		if o == nil {
			o = w.info.Defs[x]
		}
		v, ok := o.(*types.Var)
		if !ok {
			return false
		}
		if v.Parent() == nil || v.Parent() == w.pkg.Scope() || v.Parent() == types.Universe {
			return true
		}
		if len(w.funcs) == 0 {
			return true
		}
		f := w.funcs[len(w.funcs)-1]
		return v.Pos() < f.Pos() || v.Pos() > f.End()
	case *ast.SelectorExpr:
		return true
	case *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		t := w.typeOf(x.X)
		if _, ok := coreType(t).(*types.Array); ok {
			return w.sharedExpr(x.X)
		}
		return true
	}
	return false
}

func (w *rw) isMapIndex(e ast.Expr) bool {
	ix, ok := unparen(e).(*ast.IndexExpr)
	if !ok {
		return false
	}
	if tv, ok := w.info.Types[ix.X]; !ok || !tv.IsValue() {
		return false
	}
	return isMap(w.typeOf(ix.X)) && w.sharedExpr(ix.X)
}

func (w *rw) stmts(list []ast.Stmt, from, to int, noY bool) string {
	var b strings.Builder
	pos := from
	for _, s := range list {
		sf, st := w.off(s.Pos()), w.off(s.End())
		b.Write(w.src[pos:sf])
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			b.WriteString(w.text(s))
			pos = st
			continue
		}
		if _, empty := s.(*ast.EmptyStmt); empty {
			b.Write(w.src[sf:st])
			pos = st
			continue
		}
		b.WriteString(w.y())
		b.WriteString(w.stmt(s))
		pos = st
	}
	if len(list) == 0 && !noY {
		b.WriteString(w.y())
	}
	b.Write(w.src[pos:to])
	return b.String()
}

// stmt renders a statement in a statement list (where it may become a block).
func (w *rw) stmt(s ast.Stmt) string {
	if w.preempt {
		switch x := s.(type) {
		case *ast.IncDecStmt:
			if w.sharedExpr(x.X) && !w.anyMapIndex(x.X) {
				p, t := w.tmp("p"), w.tmp("t")
				op := "+"
				if x.Tok == token.DEC {
					op = "-"
				}
				return fmt.Sprintf("{%s:=&(%s);%s:=*%s;%sY();*%s=%s%s1}", p, w.text(x.X), t, p, S, p, t, op)
			}
		case *ast.AssignStmt:
			if len(x.Lhs) != 1 || len(x.Rhs) != 1 || !w.sharedExpr(x.Lhs[0]) || w.anyMapIndex(x.Lhs[0]) {
				break
			}
			if id, ok := x.Lhs[0].(*ast.Ident); ok && id.Name == "_" {
				break
			}
			if x.Tok == token.ASSIGN {
				lt, rt := w.typeOf(x.Lhs[0]), w.info.Types[x.Rhs[0]]
				if rt.Type == nil || rt.Value != nil || rt.IsNil() || !types.Identical(lt, rt.Type) {
					break
				}
				if _, ok := unparen(x.Rhs[0]).(*ast.FuncLit); ok {
					break
				}
				if !w.splittable(rt.Type, x.Rhs[0]) {
					break
				}
				r := w.tmp("r")
				return fmt.Sprintf("{%s:=%s;%sY();%s=%s}", r, w.text(x.Rhs[0]), S, w.text(x.Lhs[0]), r)
			}
			if x.Tok != token.DEFINE {
				p, t := w.tmp("p"), w.tmp("t")
				op := strings.TrimSuffix(x.Tok.String(), "=")
				return fmt.Sprintf("{%s:=&(%s);%s:=*%s;%sY();*%s=%s %s (%s)}", p, w.text(x.Lhs[0]), t, p, S, p, t, op, w.text(x.Rhs[0]))
			}
		}
	}
	return w.text(s)
}

// splittable: r := rhs gives the same type as the context does.
func (w *rw) splittable(t types.Type, rhs ast.Expr) bool {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 && t != types.Typ[types.Bool] {
		return false
	}
	ok := true
	ast.Inspect(rhs, func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.FuncLit, *ast.CallExpr:
			return false
		case *ast.BinaryExpr:
			if y.Op == token.SHL || y.Op == token.SHR {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// anyMapIndex: the operand is (inside) a map element, hence not addressable.
func (w *rw) anyMapIndex(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.IndexExpr:
		if isMap(w.typeOf(x.X)) {
			return true
		}
		if _, ok := coreType(w.typeOf(x.X)).(*types.Array); ok {
			return w.anyMapIndex(x.X)
		}
	case *ast.SelectorExpr:
		if tv, ok := w.info.Types[x.X]; ok && tv.IsValue() {
			if _, ok := tv.Type.Underlying().(*types.Struct); ok {
				return w.anyMapIndex(x.X)
			}
		}
	}
	return false
}

func (w *rw) goStmt(x *ast.GoStmt) string {
	call := x.Call
	if fl, ok := unparen(call.Fun).(*ast.FuncLit); ok && len(call.Args) == 0 {
		return S + "Go(" + w.text(fl) + ")"
	}
	var lhs, rhs, args []string
	// function value: hoist unless it is a plain function name
	fun := ""
	switch f := unparen(call.Fun).(type) {
	case *ast.Ident:
		if _, ok := w.info.Uses[f].(*types.Func); ok {
			fun = f.Name
		} else if _, ok := w.info.Uses[f].(*types.Builtin); ok {
			fun = f.Name
		}
	case *ast.SelectorExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			if _, ok := w.info.Uses[id].(*types.PkgName); ok {
				fun = w.text(f)
			}
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		fun = w.text(call.Fun)
	}
	if fun == "" {
		fun = w.tmp("f")
		lhs = append(lhs, fun)
		rhs = append(rhs, w.text(call.Fun))
	}
	for _, a := range call.Args {
		tv := w.info.Types[a]
		if tv.Value != nil || tv.IsNil() || isUntyped(tv.Type) {
			args = append(args, w.text(a))
			continue
		}
		if _, ok := tv.Type.(*types.Tuple); ok { // f(g()) with several results
			args = append(args, w.text(a))
			continue
		}
		if fl, ok := unparen(a).(*ast.FuncLit); ok {
			args = append(args, w.text(fl))
			continue
		}
		t := w.tmp("a")
		lhs = append(lhs, t)
		rhs = append(rhs, w.text(a))
		args = append(args, t)
	}
	ell := ""
	if call.Ellipsis.IsValid() {
		ell = "..."
	}
	if id, ok := unparen(call.Fun).(*ast.Ident); ok && id.Name == "close" {
		fun = S + "Close"
	}
	inner := S + "Go(func(){" + fun + "(" + strings.Join(args, ",") + ell + ")})"
	if len(lhs) == 0 {
		return inner
	}
	return "{" + strings.Join(lhs, ",") + ":=" + strings.Join(rhs, ",") + ";" + inner + "}"
}

func isUntyped(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Info()&types.IsUntyped != 0
}

func (w *rw) selectStmt(x *ast.SelectStmt, label string) string {
	if len(x.Body.List) == 0 {
		return "for{" + S + "BlockForever()}"
	}
	var pre, body strings.Builder
	var names []string
	hasDefault := false
	for _, c := range x.Body.List {
		if c.(*ast.CommClause).Comm == nil {
			hasDefault = true
		}
	}
	idx := 0
	nComm := len(x.Body.List)
	if hasDefault {
		nComm--
	}
	prevEnd := w.off(x.Body.Lbrace) + 1
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		body.WriteString(strings.Repeat("\n", bytes.Count(w.src[prevEnd:w.off(cc.Pos())], []byte("\n"))))
		inner := w.stmts(cc.Body, w.off(cc.Colon)+1, w.off(cc.End()), false)
		prevEnd = w.off(cc.End())
		if cc.Comm == nil {
			body.WriteString("default:" + inner)
			continue
		}
		name := w.tmp("c")
		names = append(names, name)
		head := ""
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			pre.WriteString(fmt.Sprintf("%s:=%sSendCase(%s)(%s);", name, S, w.text(s.Chan), w.text(s.Value)))
		case *ast.ExprStmt:
			u := unparen(s.X).(*ast.UnaryExpr)
			pre.WriteString(fmt.Sprintf("%s:=%sRecvCase(%s);", name, S, w.text(u.X)))
		case *ast.AssignStmt:
			u := unparen(s.Rhs[0]).(*ast.UnaryExpr)
			pre.WriteString(fmt.Sprintf("%s:=%sRecvCase(%s);", name, S, w.text(u.X)))
			var l []string
			for _, e := range s.Lhs {
				l = append(l, w.text(e))
			}
			v := ".Val()"
			if len(s.Lhs) == 2 {
				v = ".Val2()"
			}
			head = strings.Join(l, ",") + s.Tok.String() + name + v + ";"
		}
		if idx == nComm-1 && !hasDefault {
			body.WriteString("default:" + head + inner)
		} else {
			body.WriteString(fmt.Sprintf("case %d:%s%s", idx, head, inner))
		}
		idx++
	}
	body.WriteString(strings.Repeat("\n", bytes.Count(w.src[prevEnd:w.off(x.Body.Rbrace)], []byte("\n"))))
	cs := ""
	if len(names) > 0 {
		cs = "," + strings.Join(names, ",")
	}
	return fmt.Sprintf("{%s%s switch %sSelect(%v%s){%s}}", pre.String(), label, S, hasDefault, cs, body.String())
}

func (w *rw) rangeStmt(x *ast.RangeStmt) (string, bool) {
	t := w.typeOf(x.X)
	m, c := isMap(t), isChan(t)
	if !m && !c {
		return "", false
	}
	name := func(e ast.Expr) string {
		if e == nil {
			return ""
		}
		if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
			return ""
		}
		return w.text(e)
	}
	k, v := name(x.Key), name(x.Value)
	pre := ""
	kk, vv := k, v
	if x.Tok == token.ASSIGN || kk == "" {
		kk = w.tmp("k")
		if k != "" {
			pre += k + "=" + kk + ";"
		}
	}
	if x.Tok == token.ASSIGN || vv == "" {
		vv = w.tmp("v")
		if v != "" {
			pre += v + "=" + vv + ";"
		}
	}
	it := w.tmp("it")
	body := w.text(x.Body)
	if pre != "" {
		body = "{" + pre + body[1:]
	}
	if m {
		return fmt.Sprintf("for %s,%s,%s:=%sMapStart(%s);%s.Next(&%s,&%s);%s", it, kk, vv, S, w.text(x.X), it, kk, vv, body), true
	}
	return fmt.Sprintf("for %s,%s:=%sChanStart(%s);%s.Next(&%s);%s", it, kk, S, w.text(x.X), it, kk, body), true
}
