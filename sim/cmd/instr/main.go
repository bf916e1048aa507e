// Command instr rewrites the non-test sources of every package of the module in a directory for the simulator and
// writes an overlay file for the go command.
//
//	instr REPO OUTDIR
//
// It inserts yield points before statements, splits read-modify-write statements on shared variables, announces go
// statements, and redirects the sources of nondeterminism: locks, the file system, map iteration order. The rewrite is
// purely additive and does not depend on how the code is written; line numbers are preserved.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const (
	simPath = "verif.local/sim/vsim"
	zz      = "zz_vsim"
)

var redirect = map[string]string{
	"sync":          "verif.local/sim/vsync",
	"os":            "verif.local/sim/vos",
	"io/ioutil":     "verif.local/sim/vos/vioutil",
	"path/filepath": "verif.local/sim/vos/vfilepath",
}

type pkgInfo struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	Standard   bool
	Module     *struct {
		Path      string
		Main      bool
		GoVersion string
	}
	Error *struct{ Err string }
}

type edit struct {
	start, end int
	text       string
	order      int
}

type site struct {
	Pkg, Pos string
}

// level of instrumentation: 3 everything; 2 no splitting of statements and no control of map order; 1 only go statements
// and redirections. The driver falls back to a lower level if the rewritten sources do not compile.
var level = 3

var (
	fset  = token.NewFileSet()
	sites = []site{{"vsync", "lock"}}
	uniq  int
)

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", args...)
	os.Exit(2)
}

type file struct {
	ast                    *ast.File
	src                    []byte
	name                   string
	pkg                    string
	info                   *types.Info
	edits                  []edit
	useReflect, useRuntime string
	keepMapIter            bool
}

func (f *file) off(p token.Pos) int { return fset.Position(p).Offset }

func (f *file) replace(start, end token.Pos, text string) {
	f.edits = append(f.edits, edit{f.off(start), f.off(end), text, len(f.edits)})
}
func (f *file) insert(p token.Pos, text string) { f.replace(p, p, text) }
func (f *file) text(n ast.Node) string          { return string(f.src[f.off(n.Pos()):f.off(n.End())]) }

func (f *file) y(p token.Pos) string {
	sites = append(sites, site{f.pkg, fmt.Sprintf("%s:%d", f.name, fset.Position(p).Line)})
	return fmt.Sprintf("%s.Y(%d); ", zz, len(sites)-1)
}

// list handles a statement list; fn is the innermost function literal or declaration body
func (f *file) list(stmts []ast.Stmt, fn ast.Node) {
	for _, s := range stmts {
		if _, isEmpty := s.(*ast.EmptyStmt); isEmpty {
			continue
		}
		if level > 1 {
			f.insert(s.Pos(), f.y(s.Pos()))
		}
		switch st := s.(type) {
		case *ast.GoStmt:
			f.insert(st.Pos(), zz+".BeforeGo(); ")
			f.insert(st.End(), "; "+zz+".AfterGo()")
			if fl, isLit := st.Call.Fun.(*ast.FuncLit); isLit {
				f.insert(fl.Body.Lbrace+1, " defer "+zz+".Done(); ")
			}
		case *ast.AssignStmt:
			if level > 2 {
				f.split(st, fn)
			}
		case *ast.IncDecStmt:
			if level > 2 && f.shared(st.X, fn) {
				uniq++
				op := "+"
				if st.Tok == token.DEC {
					op = "-"
				}
				x := f.text(st.X)
				f.replace(st.Pos(), st.End(), fmt.Sprintf("{ zzv%d := %s %s 1; %s%s = zzv%d }", uniq, x, op, f.y(st.Pos()), x, uniq))
			}
		}
	}
}

// pure tells whether an expression can be evaluated twice
func pure(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return pure(x.X)
	case *ast.ParenExpr:
		return pure(x.X)
	case *ast.StarExpr:
		return pure(x.X)
	case *ast.IndexExpr:
		return pure(x.X) && pure(x.Index)
	}
	return false
}

// shared tells whether a pure expression denotes a variable that another thread could possibly see
func (f *file) shared(e ast.Expr, fn ast.Node) bool {
	if !pure(e) {
		return false
	}
	switch x := e.(type) {
	case *ast.Ident:
		if x.Name == "_" {
			return false
		}
		obj := f.info.Uses[x]
		v, isVar := obj.(*types.Var)
		if !isVar {
			return false
		}
		// captured from an enclosing function, or package level
		return fn != nil && (v.Pos() < fn.Pos() || v.Pos() > fn.End())
	case *ast.ParenExpr:
		return f.shared(x.X, fn)
	case *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr:
		return true
	}
	return false
}

func (f *file) split(st *ast.AssignStmt, fn ast.Node) {
	if len(st.Lhs) != 1 || len(st.Rhs) != 1 || st.Tok == token.DEFINE || !f.shared(st.Lhs[0], fn) {
		return
	}
	rhs := st.Rhs[0]
	x := f.text(st.Lhs[0])
	if st.Tok == token.ASSIGN {
		tv := f.info.Types[rhs]
		if tv.Value != nil || tv.IsNil() || tv.Type == nil {
			return
		}
		if b, isBasic := tv.Type.(*types.Basic); isBasic && b.Info()&types.IsUntyped != 0 {
			return
		}
		switch r := rhs.(type) {
		case *ast.CallExpr, *ast.SliceExpr, *ast.CompositeLit:
		case *ast.IndexExpr:
			if _, isFn := tv.Type.Underlying().(*types.Signature); isFn {
				return
			}
		case *ast.BinaryExpr:
			switch r.Op {
			case token.ADD, token.SUB, token.MUL, token.QUO, token.REM, token.AND, token.OR, token.XOR:
			default:
				return
			}
			if lt := f.info.Types[r.X]; lt.Value != nil {
				return
			}
		default:
			return
		}
		if c, isCall := rhs.(*ast.CallExpr); isCall {
			if tup, isTup := tv.Type.(*types.Tuple); isTup && tup.Len() != 1 {
				return
			}
			// shift-like untyped contexts do not arise for calls; recover() and friends are typed
			_ = c
		}
		uniq++
		f.replace(st.Pos(), rhs.Pos(), fmt.Sprintf("{ zzv%d := ", uniq))
		f.insert(st.End(), fmt.Sprintf("; %s%s = zzv%d }", f.y(st.Pos()), x, uniq))
		return
	}
	op := strings.TrimSuffix(st.Tok.String(), "=")
	uniq++
	f.replace(st.Pos(), rhs.Pos(), fmt.Sprintf("{ zzv%d := %s %s (", uniq, x, op))
	f.insert(st.End(), fmt.Sprintf("); %s%s = zzv%d }", f.y(st.Pos()), x, uniq))
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	if tp, isTP := t.(*types.TypeParam); isTP {
		iface, _ := tp.Constraint().Underlying().(*types.Interface)
		if iface == nil || iface.NumEmbeddeds() == 0 {
			return false
		}
		for i := 0; i < iface.NumEmbeddeds(); i++ {
			switch e := iface.EmbeddedType(i).(type) {
			case *types.Union:
				for j := 0; j < e.Len(); j++ {
					if _, m := e.Term(j).Type().Underlying().(*types.Map); !m {
						return false
					}
				}
			default:
				if _, m := e.Underlying().(*types.Map); !m {
					return false
				}
			}
		}
		return true
	}
	_, m := t.Underlying().(*types.Map)
	return m
}

func (f *file) rangeMap(r *ast.RangeStmt) {
	if level < 3 || !isMap(f.info.TypeOf(r.X)) {
		return
	}
	uniq++
	it := fmt.Sprintf("zzi%d", uniq)
	f.replace(r.For+3, r.X.Pos(), fmt.Sprintf(" %s := %s.MapIter(", it, zz))
	f.insert(r.X.End(), fmt.Sprintf("); %s.Next(); ", it))
	var l, v []string
	name := func(e ast.Expr) string {
		if e == nil {
			return "_"
		}
		return f.text(e)
	}
	if k := name(r.Key); k != "_" {
		l, v = append(l, k), append(v, it+".K()")
	}
	if k := name(r.Value); k != "_" {
		l, v = append(l, k), append(v, it+".V()")
	}
	if len(l) > 0 {
		f.insert(r.Body.Lbrace+1, fmt.Sprintf(" %s %s %s; ", strings.Join(l, ", "), r.Tok, strings.Join(v, ", ")))
	}
}

func isNamed(t types.Type, pkg, name string) bool {
	if p, isPtr := t.(*types.Pointer); isPtr {
		t = p.Elem()
	}
	n, isNamed := t.(*types.Named)
	return isNamed && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

func (f *file) pkgSel(s *ast.SelectorExpr, pkg string) bool {
	id, isId := s.X.(*ast.Ident)
	if !isId {
		return false
	}
	pn, isPkg := f.info.Uses[id].(*types.PkgName)
	return isPkg && pn.Imported().Path() == pkg
}

// global tells whether a channel is kept in a package-level variable: it has then been made before the run, and
// blocking on it natively would stop the simulator
func (f *file) global(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		v, isVar := f.info.Uses[x].(*types.Var)
		return isVar && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
	case *ast.ParenExpr:
		return f.global(x.X)
	case *ast.SelectorExpr:
		return f.global(x.X)
	case *ast.StarExpr:
		return f.global(x.X)
	case *ast.IndexExpr:
		return f.global(x.X)
	}
	return false
}

func (f *file) walk() {
	var fns []ast.Node
	top := func() ast.Node {
		if len(fns) == 0 {
			return nil
		}
		return fns[len(fns)-1]
	}
	var stack []ast.Node
	skipLoop := map[*ast.BlockStmt]bool{}
	comm, two := map[ast.Expr]bool{}, map[ast.Expr]bool{}
	ast.Inspect(f.ast, func(n ast.Node) bool {
		if n == nil {
			last := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			switch last.(type) {
			case *ast.FuncDecl, *ast.FuncLit:
				fns = fns[:len(fns)-1]
			}
			return true
		}
		stack = append(stack, n)
		switch x := n.(type) {
		case *ast.FuncDecl, *ast.FuncLit:
			fns = append(fns, n)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				skipLoop[x.Body] = true
			}
		case *ast.RangeStmt:
			f.rangeMap(x)
			if len(x.Body.List) == 0 {
				skipLoop[x.Body] = true
			}
		case *ast.BlockStmt:
			if skipLoop[x] && level > 1 {
				f.insert(x.Lbrace+1, f.y(x.Lbrace))
			}
			clauses := false
			for _, s := range x.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					clauses = true
				}
			}
			if !clauses {
				f.list(x.List, top())
			}
		case *ast.CaseClause:
			f.list(x.Body, top())
		case *ast.CommClause:
			switch c := x.Comm.(type) {
			case *ast.ExprStmt:
				comm[ast.Unparen(c.X)] = true
			case *ast.AssignStmt:
				comm[ast.Unparen(c.Rhs[0])] = true
			case *ast.SendStmt:
				comm[c.Chan] = true
			}
			if x.Comm != nil {
				f.insert(x.Colon+1, zz+".ChanWake(); ")
			}
			f.list(x.Body, top())
		case *ast.SendStmt:
			if f.global(x.Chan) && !comm[x.Chan] {
				f.insert(x.Pos(), zz+".Send(")
				f.replace(x.Arrow, x.Arrow+2, ")(")
				f.insert(x.End(), ")")
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && f.global(x.X) && !comm[x] {
				fn := ".Recv("
				if two[x] {
					fn = ".Recv2("
				}
				f.replace(x.OpPos, x.OpPos+2, zz+fn)
				f.insert(x.End(), ")")
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				two[ast.Unparen(x.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				two[ast.Unparen(x.Values[0])] = true
			}
		case *ast.CallExpr:
			if id, isId := x.Fun.(*ast.Ident); isId && id.Name == "close" && len(x.Args) == 1 {
				if _, isBuiltin := f.info.Uses[id].(*types.Builtin); isBuiltin && f.global(x.Args[0]) {
					f.replace(id.Pos(), id.End(), zz+".Close")
				}
			}
			if s, isSel := x.Fun.(*ast.SelectorExpr); isSel && len(x.Args) == 0 {
				if s.Sel.Name == "MapRange" || s.Sel.Name == "MapKeys" {
					if s.Sel.Name == "MapRange" && f.keepMapIter || level < 3 {
						break
					}
					if sel := f.info.Selections[s]; sel != nil && isNamed(sel.Recv(), "reflect", "Value") {
						f.insert(s.X.Pos(), zz+"."+s.Sel.Name+"(")
						f.replace(s.X.End(), x.End(), ")")
					}
				}
			}
		case *ast.SelectorExpr:
			if x.Sel.Name == "MapIter" && !f.keepMapIter && f.pkgSel(x, "reflect") {
				f.useReflect = f.text(x.X)
				f.replace(x.Pos(), x.End(), zz+".RMapIter")
			}
			if x.Sel.Name == "Gosched" && f.pkgSel(x, "runtime") {
				f.useRuntime = f.text(x.X)
				f.replace(x.Pos(), x.End(), zz+".Gosched")
			}
		}
		return true
	})
	f.insert(f.ast.Name.End(), fmt.Sprintf("; import %s %q", zz, simPath))
	for _, imp := range f.ast.Imports {
		p := strings.Trim(imp.Path.Value, `"`)
		if to, found := redirect[p]; found {
			name := filepath.Base(p) + " "
			if imp.Name != nil {
				name = ""
			}
			f.replace(imp.Path.Pos(), imp.Path.End(), fmt.Sprintf("%s%q", name, to))
		}
	}
}

func (f *file) render() []byte {
	sort.SliceStable(f.edits, func(i, j int) bool {
		a, b := f.edits[i], f.edits[j]
		if a.start != b.start {
			return a.start < b.start
		}
		// insertions at a position come before a replacement that starts there
		ai, bi := a.start == a.end, b.start == b.end
		if ai != bi {
			return ai
		}
		return a.order < b.order
	})
	var out bytes.Buffer
	pos := 0
	for _, e := range f.edits {
		if e.start < pos {
			fatal("overlapping edits in %s at offset %d (%q)", f.name, e.start, e.text)
		}
		out.Write(f.src[pos:e.start])
		out.WriteString(e.text)
		// keep the line structure
		for i := 0; i < bytes.Count(f.src[e.start:e.end], []byte("\n"))-strings.Count(e.text, "\n"); i++ {
			out.WriteByte('\n')
		}
		pos = e.end
	}
	out.Write(f.src[pos:])
	fmt.Fprintf(&out, "\nvar _ = %s.Y\n", zz)
	if f.useReflect != "" {
		fmt.Fprintf(&out, "var _ %s.Kind\n", f.useReflect)
	}
	if f.useRuntime != "" {
		fmt.Fprintf(&out, "var _ %s.Error\n", f.useRuntime)
	}
	return out.Bytes()
}

func main() {
	if len(os.Args) != 3 {
		fatal("usage: instr REPO OUTDIR")
	}
	repo, out := os.Args[1], os.Args[2]
	if l := os.Getenv("SIM_LEVEL"); l != "" {
		level = int(l[0] - '0')
	}
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,CgoFiles,Standard,Module,Error", "./...")
	cmd.Dir = repo
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	data, err := cmd.Output()
	if err != nil {
		fatal("go list: %v\n%s", err, stderr.String())
	}
	var (
		dec     = json.NewDecoder(bytes.NewReader(data))
		exports = map[string]string{}
		pkgs    []*pkgInfo
	)
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		if p.Error != nil {
			fatal("%s: %s", p.ImportPath, p.Error.Err)
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if !p.Standard && p.Module != nil && p.Module.Main {
			pkgs = append(pkgs, &p)
		}
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, found := exports[path]
		if !found {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	overlay := map[string]string{}
	for i, p := range pkgs {
		var (
			files []*ast.File
			fs    []*file
			info  = &types.Info{
				Types:      map[ast.Expr]types.TypeAndValue{},
				Uses:       map[*ast.Ident]types.Object{},
				Defs:       map[*ast.Ident]types.Object{},
				Selections: map[*ast.SelectorExpr]*types.Selection{},
			}
			keep bool
		)
		for _, name := range p.GoFiles {
			path := filepath.Join(p.Dir, name)
			src, err := os.ReadFile(path)
			if err != nil {
				fatal("%v", err)
			}
			af, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				fatal("%v", err)
			}
			files = append(files, af)
			rel, _ := filepath.Rel(repo, path)
			fs = append(fs, &file{ast: af, src: src, name: rel, pkg: p.ImportPath, info: info})
			if bytes.Contains(src, []byte(".SetIterKey(")) || bytes.Contains(src, []byte(".SetIterValue(")) {
				keep = true
			}
		}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		if p.Module.GoVersion != "" {
			conf.GoVersion = "go" + p.Module.GoVersion
		}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			fatal("type check %s: %v", p.ImportPath, err)
		}
		for j, f := range fs {
			f.keepMapIter = keep || level < 3
			f.walk()
			dst := filepath.Join(out, fmt.Sprintf("p%d_%d_%s", i, j, filepath.Base(f.name)))
			if err := os.WriteFile(dst, f.render(), 0o644); err != nil {
				fatal("%v", err)
			}
			overlay[filepath.Join(repo, f.name)] = dst
		}
	}
	ov, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), ov, 0o644); err != nil {
		fatal("%v", err)
	}
	st, _ := json.Marshal(sites)
	if err := os.WriteFile(filepath.Join(out, "sites.json"), st, 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("instrumented %d packages, %d files, %d sites\n", len(pkgs), len(overlay), len(sites))
}
