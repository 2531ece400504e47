// instr writes an instrumented copy of a Go module: every statement becomes a
// scheduling point of the simulator, and every source of nondeterminism
// (goroutines, channels, select, locks, atomics, clocks, timers, contexts,
// randomness, map order, operating-system calls) goes to the simulator.
//
// Usage: instr -src /repo -out DIR [-tags TAGS] [-level 0|1|2]
//
// Edits are made in the text, one line stays one line, so positions in the
// copy are positions in the original.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
)

const rt = "zsimrt"

var shims = map[string]string{
	"sync":          "simrt/sync",
	"sync/atomic":   "simrt/atomic",
	"time":          "simrt/time",
	"context":       "simrt/context",
	"math/rand":     "simrt/mrand",
	"math/rand/v2":  "simrt/mrandv2",
	"crypto/rand":   "simrt/crand",
	"os":            "simrt/os",
	"io/ioutil":     "simrt/ioutil",
	"maps":          "simrt/maps",
	"runtime":       "simrt/runtime",
	"runtime/debug": "simrt/debug",
	"syscall":       "simrt/syscall",
}

var baseName = map[string]string{"math/rand/v2": "rand"}

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	Imports    []string
	Standard   bool
	Module     *struct{ Path, Dir string }
	Error      *struct{ Err string }
}

func die(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", args...)
	os.Exit(2)
}

func main() {
	src := flag.String("src", "/repo", "module to instrument")
	out := flag.String("out", "", "output directory")
	tags := flag.String("tags", "", "build tags")
	level := flag.Int("level", 2, "2: full, 1: no read-modify-write splitting, 0: no statement yields")
	simdir := flag.String("simrt", "", "directory of the simrt module")
	flag.Parse()

	args := []string{"list", "-e", "-export", "-deps", "-json=ImportPath,Name,Dir,Export,GoFiles,Imports,Standard,Module,Error"}
	if *tags != "" {
		args = append(args, "-tags", *tags)
	}
	args = append(args, "./...")
	cmd := exec.Command("go", args...)
	cmd.Dir = *src
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		die("go list failed (the source does not build?): %v", err)
	}
	var pkgs []*listPkg
	exports := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(data))
	modPath := ""
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if p.Standard {
			continue
		}
		if p.Module != nil && samePath(p.Module.Dir, *src) {
			modPath = p.Module.Path
			pkgs = append(pkgs, p)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	var order []string
	for _, p := range pkgs { // dependency order
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, modPath), "/")
		if p.Name == "main" || strings.HasPrefix(rel, "examples") || strings.HasPrefix(rel, "internal/test") {
			continue
		}
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		if doPackage(fset, imp, p, filepath.Join(*out, rel), *level) {
			order = append(order, p.ImportPath)
		}
	}
	mod, err := os.ReadFile(filepath.Join(*src, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	// the simulator's generics need language version 1.21; up to there the
	// meaning of the module's code does not change
	mod = regexp.MustCompile(`(?m)^go 1\.([0-9]|1[0-9]|20)(\.\d+)?\s*$`).ReplaceAll(mod, []byte("go 1.21"))
	extra := fmt.Sprintf("\nrequire simrt v0.0.0\n\nreplace simrt => %s\n", *simdir)
	if err := os.WriteFile(filepath.Join(*out, "go.mod"), append(mod, extra...), 0o644); err != nil {
		die("%v", err)
	}
	if sum, err := os.ReadFile(filepath.Join(*src, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(*out, "go.sum"), sum, 0o644)
	}
	js, _ := json.Marshal(map[string]interface{}{"module": modPath, "packages": order})
	if err := os.WriteFile(filepath.Join(*out, "instr.json"), js, 0o644); err != nil {
		die("%v", err)
	}
	fmt.Printf("instrumented %d packages of %s\n", len(order), modPath)
}

// arch is the architecture the source is built for.
func arch() string {
	if a := os.Getenv("GOARCH"); a != "" {
		return a
	}
	return runtime.GOARCH
}

func samePath(a, b string) bool {
	x, err1 := filepath.EvalSymlinks(a)
	y, err2 := filepath.EvalSymlinks(b)
	return err1 == nil && err2 == nil && x == y
}

type rw struct {
	fset  *token.FileSet
	src   []byte
	file  *token.File
	info  *types.Info
	pkg   *types.Package
	level int
	inLst map[ast.Stmt]bool
	loop  map[*ast.BlockStmt]bool
	post  map[ast.Stmt]bool
	comm  map[ast.Stmt]bool
	skip  map[ast.Node]bool // nodes being rendered: do not hook again
	n     int
	tail  strings.Builder
	inits []string
	used  bool
}

func doPackage(fset *token.FileSet, imp types.Importer, p *listPkg, outDir string, level int) bool {
	var files []*ast.File
	var srcs [][]byte
	for _, f := range p.GoFiles {
		path := filepath.Join(p.Dir, f)
		b, err := os.ReadFile(path)
		if err != nil {
			die("%v", err)
		}
		af, err := parser.ParseFile(fset, path, b, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
		srcs = append(srcs, b)
	}
	if len(files) == 0 {
		return false
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Defs:  map[*ast.Ident]types.Object{},
		Uses:  map[*ast.Ident]types.Object{},
	}
	conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", arch()), Error: func(err error) { die("type check: %v", err) }}
	tpkg, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("type check %s: %v", p.ImportPath, err)
	}
	if err := os.MkdirAll(outDir, 0o755); err != nil {
		die("%v", err)
	}
	// which file declares which package-level variable
	rws := make([]*rw, len(files))
	var initFuncs []string
	varFile := map[types.Object]int{}
	inited := map[types.Object]bool{}
	for i, af := range files {
		rws[i] = &rw{
			fset: fset, src: srcs[i], file: fset.File(af.Pos()), info: info, pkg: tpkg, level: level,
			inLst: map[ast.Stmt]bool{}, loop: map[*ast.BlockStmt]bool{}, post: map[ast.Stmt]bool{},
			comm: map[ast.Stmt]bool{}, skip: map[ast.Node]bool{},
		}
		rws[i].n = i * 100000
		rws[i].prepass(af)
		for _, d := range af.Decls {
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
				for _, sp := range gd.Specs {
					for _, n := range sp.(*ast.ValueSpec).Names {
						if o := info.Defs[n]; o != nil {
							varFile[o] = i
						}
					}
				}
			}
		}
	}
	var calls []string
	for ii, in := range info.InitOrder {
		fi := -1
		var lhs []string
		for _, v := range in.Lhs {
			inited[v] = true
			if f, ok := varFile[v]; ok {
				fi = f
			}
			lhs = append(lhs, v.Name())
		}
		if fi < 0 {
			for i := range files {
				if files[i].Pos() <= in.Rhs.Pos() && in.Rhs.Pos() <= files[i].End() {
					fi = i
				}
			}
		}
		if fi < 0 || immutable(in.Rhs, info) {
			continue
		}
		all := true
		for _, n := range lhs {
			if n != "_" {
				all = false
			}
		}
		if all {
			continue
		}
		r := rws[fi]
		name := fmt.Sprintf("zsimVar%d", ii)
		fmt.Fprintf(&r.tail, "\nfunc %s() { %s = %s }\n", name, strings.Join(lhs, ", "), r.oneLine(r.text(in.Rhs)))
		calls = append(calls, name+"()")
	}
	var zero []string
	objs := make([]types.Object, 0)
	for o := range varFile {
		if !inited[o] && o.Name() != "_" {
			objs = append(objs, o)
		}
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].Pos() < objs[j].Pos() })
	for _, o := range objs {
		zero = append(zero, fmt.Sprintf("%s.Zero(&%s)", rt, o.Name()))
	}
	for i, af := range files {
		r := rws[i]
		body := r.render(af)
		initFuncs = append(initFuncs, r.inits...)
		if err := os.WriteFile(filepath.Join(outDir, filepath.Base(p.GoFiles[i])), []byte(body+r.tail.String()), 0o644); err != nil {
			die("%v", err)
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport %s \"simrt\"\n\n", p.Name, rt)
	fmt.Fprintf(&b, "// ZsimReset brings the package back to its state at process start.\nfunc ZsimReset() {\n\t%s.Y()\n", rt)
	for _, z := range zero {
		fmt.Fprintf(&b, "\t%s\n", z)
	}
	for _, c := range calls {
		fmt.Fprintf(&b, "\t%s\n", c)
	}
	for _, c := range initFuncs {
		fmt.Fprintf(&b, "\t%s()\n", c)
	}
	b.WriteString("}\n")
	if err := os.WriteFile(filepath.Join(outDir, "zsim_reset.go"), []byte(b.String()), 0o644); err != nil {
		die("%v", err)
	}
	return true
}

// immutable tells initialisers that need not be run again for each simulated
// process: templates and compiled expressions.
func immutable(e ast.Expr, info *types.Info) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				if pn, ok := info.Uses[id].(*types.PkgName); ok {
					switch pn.Imported().Path() {
					case "text/template", "html/template", "regexp":
						found = true
					}
				}
			}
		}
		return !found
	})
	return found
}

func (r *rw) prepass(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			for _, s := range n.List {
				r.inLst[s] = true
			}
		case *ast.CaseClause:
			for _, s := range n.Body {
				r.inLst[s] = true
			}
		case *ast.CommClause:
			for _, s := range n.Body {
				r.inLst[s] = true
			}
			if n.Comm != nil {
				r.comm[n.Comm] = true
			}
		case *ast.SwitchStmt:
			for _, s := range n.Body.List {
				r.skip[s] = true
			}
		case *ast.TypeSwitchStmt:
			for _, s := range n.Body.List {
				r.skip[s] = true
			}
		case *ast.SelectStmt:
			for _, s := range n.Body.List {
				r.skip[s] = true
			}
		case *ast.ForStmt:
			r.loop[n.Body] = true
			if n.Post != nil {
				r.post[n.Post] = true
			}
		case *ast.RangeStmt:
			r.loop[n.Body] = true
		}
		return true
	})
}

func (r *rw) off(p token.Pos) int { return r.file.Offset(p) }

func (r *rw) raw(n ast.Node) string { return string(r.src[r.off(n.Pos()):r.off(n.End())]) }

// text renders n with every rewrite below it applied; n itself is not hooked.
func (r *rw) text(n ast.Node) string { return r.span(n.Pos(), n.End(), n) }

// full renders n with n itself hooked too.
func (r *rw) full(n ast.Node) string {
	if s, ok := r.hook(n); ok {
		return s
	}
	return r.text(n)
}

type edit struct {
	a, b int
	s    string
}

func (r *rw) span(from, to token.Pos, n ast.Node) string {
	var edits []edit
	first := true
	ast.Inspect(n, func(c ast.Node) bool {
		if c == nil {
			return false
		}
		if first {
			first = false
			return true
		}
		if _, ok := c.(*ast.CommentGroup); ok {
			return false
		}
		if s, ok := r.hook(c); ok {
			edits = append(edits, edit{r.off(c.Pos()), r.off(c.End()), s})
			return false
		}
		return true
	})
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].a < edits[j].a })
	var b strings.Builder
	pos := r.off(from)
	for _, e := range edits {
		if e.a < pos {
			die("internal: overlapping edits at %v", r.fset.Position(n.Pos()))
		}
		b.Write(r.src[pos:e.a])
		b.WriteString(e.s)
		pos = e.b
	}
	b.Write(r.src[pos:r.off(to)])
	return b.String()
}

func (r *rw) oneLine(s string) string { return s }

func (r *rw) render(f *ast.File) string {
	body := r.span(f.FileStart, f.FileEnd, f)
	// add the simulator import on the line of the package clause
	end := r.off(f.Name.End())
	start := r.off(f.Package)
	_ = start
	prefix := string(r.src[:end])
	if !strings.HasPrefix(body, prefix) {
		die("internal: package clause was edited")
	}
	return prefix + fmt.Sprintf("; import %s \"simrt\"", rt) + body[end:] + fmt.Sprintf("\nvar _ = %s.Y\n", rt)
}

func (r *rw) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func (r *rw) builtin(e ast.Expr) string {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := r.info.Uses[id].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

// hook returns the replacement of node n, if it has one.
func (r *rw) hook(n ast.Node) (string, bool) {
	switch n := n.(type) {
	case *ast.ImportSpec:
		path := strings.Trim(n.Path.Value, "`\"")
		to, ok := shims[path]
		if !ok {
			return "", false
		}
		name := filepath.Base(path)
		if b, ok := baseName[path]; ok {
			name = b
		}
		if n.Name != nil {
			name = n.Name.Name
		}
		return fmt.Sprintf("%s %q", name, to), true
	case *ast.FuncDecl:
		if n.Recv == nil && n.Name.Name == "init" {
			r.n++
			name := fmt.Sprintf("zsimInit%d", r.n)
			r.inits = append(r.inits, name)
			fmt.Fprintf(&r.tail, "\nfunc init() { %s() }\n", name)
			return r.span(n.Pos(), n.Name.Pos(), &ast.BadExpr{From: n.Pos(), To: n.Pos()}) + name +
				r.span(n.Name.End(), n.End(), &ast.FuncDecl{Name: ast.NewIdent("_"), Type: &ast.FuncType{Params: n.Type.Params, Results: n.Type.Results}, Body: n.Body}), true
		}
		return "", false
	case *ast.BlockStmt:
		if r.level >= 1 && r.loop[n] && len(n.List) == 0 {
			return "{ " + rt + ".Y() }", true
		}
		return "", false
	case *ast.ReturnStmt, *ast.BranchStmt, *ast.DeclStmt, *ast.DeferStmt, *ast.EmptyStmt:
		return r.stmt(n.(ast.Stmt))
	case ast.Stmt:
		return r.stmt(n)
	case ast.Expr:
		return r.expr(n)
	}
	return "", false
}

func (r *rw) stmt(s ast.Stmt) (string, bool) {
	if r.skip[s] {
		return "", false
	}
	switch s.(type) {
	case *ast.BlockStmt:
		if !r.inLst[s] {
			return "", false
		}
	case *ast.EmptyStmt:
		return "", false
	}
	pre, post := "", ""
	if r.inLst[s] && r.level >= 1 {
		pre = rt + ".Y(); "
	}
	core, ok := r.stmtCore(s)
	if !ok {
		if pre == "" {
			return "", false
		}
		core = r.text(s)
	}
	return pre + core + post, true
}

// stmtCore rewrites statement s itself.
func (r *rw) stmtCore(s ast.Stmt) (string, bool) {
	switch s := s.(type) {
	case *ast.LabeledStmt:
		pre, core, ok := r.labelable(s.Stmt)
		if ok {
			return "{ " + pre + s.Label.Name + ": " + core + " }", true
		}
		return s.Label.Name + ": " + r.fullNoYield(s.Stmt), true
	case *ast.GoStmt:
		return r.goStmt(s), true
	case *ast.SendStmt:
		if r.comm[s] {
			return "", false
		}
		return rt + ".Send(" + r.full(s.Chan) + ")(" + r.full(s.Value) + ")", true
	case *ast.RangeStmt, *ast.SelectStmt:
		pre, core, ok := r.labelable(s)
		if !ok {
			return "", false
		}
		if pre == "" {
			return core, true
		}
		return "{ " + pre + core + " }", true
	case *ast.AssignStmt:
		if r.comm[s] || r.level < 2 {
			return r.recv2(s)
		}
		if t, ok := r.recv2(s); ok {
			return t, true
		}
		return r.assign(s)
	case *ast.IncDecStmt:
		if r.level < 2 || r.post[s] || !r.pure(s.X) || !r.shared(s.X) {
			return "", false
		}
		op := "+"
		if s.Tok == token.DEC {
			op = "-"
		}
		return fmt.Sprintf("%s = %s.Y1(%s %s 1)", r.raw(s.X), rt, r.raw(s.X), op), true
	case *ast.DeclStmt:
		return "", false
	}
	return "", false
}

func (r *rw) fullNoYield(s ast.Stmt) string {
	if c, ok := r.stmtCore(s); ok {
		return c
	}
	return r.text(s)
}

// recv2 rewrites v, ok := <-ch.
func (r *rw) recv2(s *ast.AssignStmt) (string, bool) {
	if r.comm[s] || len(s.Lhs) != 2 || len(s.Rhs) != 1 {
		return "", false
	}
	u, ok := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr)
	if !ok || u.Op != token.ARROW {
		return "", false
	}
	return r.full(s.Lhs[0]) + ", " + r.full(s.Lhs[1]) + " " + s.Tok.String() + " " + rt + ".Recv2(" + r.full(u.X) + ")", true
}

// pure tells expressions that can be evaluated twice without effect.
func (r *rw) pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			// conversions and len/cap are fine
			if tv, found := r.info.Types[n.Fun]; found && tv.IsType() {
				return true
			}
			if b := r.builtin(n.Fun); b == "len" || b == "cap" {
				return true
			}
			ok = false
		case *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// shared tells places that more than one goroutine might see.
func (r *rw) shared(e ast.Expr) bool {
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		o := r.info.Uses[e]
		return e.Name != "_" && o != nil
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		return true
	}
	return false
}

func (r *rw) assign(s *ast.AssignStmt) (string, bool) {
	if r.post[s] || len(s.Lhs) != 1 || len(s.Rhs) != 1 {
		return "", false
	}
	l, rh := s.Lhs[0], s.Rhs[0]
	switch s.Tok {
	case token.ASSIGN:
		// x.f = expression reading shared state: separate reads from the write
		if !r.shared(l) {
			return "", false
		}
		if _, isId := ast.Unparen(l).(*ast.Ident); isId {
			if !r.mentions(rh) {
				return "", false
			}
		}
		tv, ok := r.info.Types[rh]
		lt := r.typeOf(l)
		if !ok || tv.Value != nil || tv.IsNil() || lt == nil || !types.Identical(tv.Type, lt) || !r.mentions(rh) {
			return "", false
		}
		if _, isTuple := tv.Type.(*types.Tuple); isTuple {
			return "", false
		}
		if r.hasRecover(rh) {
			return "", false
		}
		return r.full(l) + " = " + rt + ".Y1(" + r.full(rh) + ")", true
	case token.DEFINE:
		return "", false
	default: // op=
		if !r.pure(l) || !r.shared(l) {
			return "", false
		}
		op := strings.TrimSuffix(s.Tok.String(), "=")
		if tv, ok := r.info.Types[rh]; ok && tv.Value != nil && tv.Value.Kind() == constant.Unknown {
			return "", false
		}
		return fmt.Sprintf("%s = %s.Y1(%s %s (%s))", r.raw(l), rt, r.raw(l), op, r.full(rh)), true
	}
}

func (r *rw) hasRecover(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok && r.builtin(c.Fun) == "recover" {
			found = true
		}
		return !found
	})
	return found
}

// mentions tells whether e reads through a selector, index, pointer or call.
func (r *rw) mentions(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
			found = true
		case *ast.CallExpr:
			if tv, ok := r.info.Types[n.Fun]; ok && tv.IsType() {
				return true
			}
			found = true
		}
		return !found
	})
	return found
}

func (r *rw) goStmt(s *ast.GoStmt) string {
	c := s.Call
	if fl, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 {
		if fl.Type.Results == nil || len(fl.Type.Results.List) == 0 {
			return rt + ".Go(" + r.full(c.Fun) + ")"
		}
	}
	r.n++
	id := r.n
	var pre, args []string
	fun := ""
	if b := r.builtin(c.Fun); b != "" {
		fun = r.raw(c.Fun)
		if b == "close" {
			fun = rt + ".Close"
		}
	} else {
		fun = fmt.Sprintf("zsimf%d", id)
		pre = append(pre, fmt.Sprintf("%s := %s", fun, r.full(c.Fun)))
	}
	for i, a := range c.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args = append(args, r.full(a))
			continue
		}
		nm := fmt.Sprintf("zsima%d_%d", id, i)
		pre = append(pre, fmt.Sprintf("%s := %s", nm, r.full(a)))
		args = append(args, nm)
	}
	dots := ""
	if c.Ellipsis.IsValid() {
		dots = "..."
	}
	return fmt.Sprintf("{ %s; %s.Go(func() { %s(%s%s) }) }", strings.Join(pre, "; "), rt, fun, strings.Join(args, ", "), dots)
}

// body renders a block's contents between its braces, without them.
func (r *rw) inner(b *ast.BlockStmt) string {
	t := r.text(b)
	t = strings.TrimSpace(t)
	t = strings.TrimPrefix(t, "{")
	t = strings.TrimSuffix(t, "}")
	if r.level >= 1 && len(b.List) == 0 {
		t = " " + rt + ".Y(); " + t
	}
	return t
}

// labelable rewrites statements a label may be attached to and that need
// declarations in front of them.
func (r *rw) labelable(s ast.Stmt) (pre, core string, ok bool) {
	switch s := s.(type) {
	case *ast.RangeStmt:
		t := r.typeOf(s.X)
		if t == nil {
			return "", "", false
		}
		u := t.Underlying()
		if tp, isTP := t.(*types.TypeParam); isTP {
			u = coreOf(tp)
		}
		switch u.(type) {
		case *types.Map:
			return r.rangeMap(s)
		case *types.Chan:
			return r.rangeChan(s)
		}
		return "", "", false
	case *ast.SelectStmt:
		return r.selectStmt(s)
	}
	return "", "", false
}

func coreOf(tp *types.TypeParam) types.Type {
	if i, ok := tp.Constraint().Underlying().(*types.Interface); ok && i.NumEmbeddeds() == 1 {
		if un, ok := i.EmbeddedType(0).(*types.Union); ok && un.Len() == 1 {
			return un.Term(0).Type().Underlying()
		}
	}
	return tp.Underlying()
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

// lead keeps the newlines between two positions so that lines stay aligned.
func (r *rw) newlines(a, b token.Pos) string {
	n := bytes.Count(r.src[r.off(a):r.off(b)], []byte("\n"))
	return strings.Repeat("\n", n)
}

func (r *rw) rangeMap(s *ast.RangeStmt) (string, string, bool) {
	r.n++
	it := fmt.Sprintf("zsimit%d", r.n)
	m := fmt.Sprintf("zsimm%d", r.n)
	pre := fmt.Sprintf("%s := %s; ", m, r.full(s.X))
	set := ""
	k, v := !blank(s.Key), !blank(s.Value)
	if s.Tok == token.DEFINE {
		switch {
		case k && v:
			pre += fmt.Sprintf("%s, %s := %s.ZeroKV(%s); ", r.raw(s.Key), r.raw(s.Value), rt, m)
		case k:
			pre += fmt.Sprintf("%s := %s.ZeroK(%s); ", r.raw(s.Key), rt, m)
		case v:
			pre += fmt.Sprintf("%s := %s.ZeroV(%s); ", r.raw(s.Value), rt, m)
		}
	}
	if k {
		set += fmt.Sprintf("%s = %s.K; ", r.full(s.Key), it)
	}
	if v {
		set += fmt.Sprintf("%s = %s.V; ", r.full(s.Value), it)
	}
	core := fmt.Sprintf("for %s := %s.Iter(%s); %s.Next(); {%s %s%s}", it, rt, m, it, r.newlines(s.Pos(), s.Body.Lbrace), set, r.inner(s.Body))
	return pre, core, true
}

func (r *rw) rangeChan(s *ast.RangeStmt) (string, string, bool) {
	r.n++
	ch := fmt.Sprintf("zsimc%d", r.n)
	ok := fmt.Sprintf("zsimok%d", r.n)
	tmp := fmt.Sprintf("zsimv%d", r.n)
	pre := fmt.Sprintf("%s := %s; ", ch, r.full(s.X))
	set := ""
	if !blank(s.Key) {
		if s.Tok == token.DEFINE {
			pre += fmt.Sprintf("%s := %s.ZeroC(%s); ", r.raw(s.Key), rt, ch)
		}
		set = fmt.Sprintf("%s = %s; ", r.full(s.Key), tmp)
	} else {
		set = "_ = " + tmp + "; "
	}
	core := fmt.Sprintf("for %s, %s := %s.Recv2(%s); %s; %s, %s = %s.Recv2(%s) {%s %s%s}", tmp, ok, rt, ch, ok, tmp, ok, rt, ch,
		r.newlines(s.Pos(), s.Body.Lbrace), set, r.inner(s.Body))
	return pre, core, true
}

func (r *rw) selectStmt(s *ast.SelectStmt) (string, string, bool) {
	if len(s.Body.List) == 0 {
		return "", rt + ".Forever()", true
	}
	r.n++
	id := r.n
	var pre strings.Builder
	var cases []string
	var body strings.Builder
	hasDefault := false
	idx := 0
	// keep line numbers: pad between clauses
	last := s.Pos()
	pad := func(p token.Pos) {
		body.WriteString(r.newlines(last, p))
		last = p
	}
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		pad(cc.Pos())
		if cc.Comm == nil {
			hasDefault = true
			body.WriteString("default: ")
		} else {
			nm := fmt.Sprintf("zsims%d_%d", id, idx)
			bind := ""
			switch cm := cc.Comm.(type) {
			case *ast.SendStmt:
				fmt.Fprintf(&pre, "%s := %s.SendCase(%s)(%s); ", nm, rt, r.full(cm.Chan), r.full(cm.Value))
			case *ast.ExprStmt:
				u := ast.Unparen(cm.X).(*ast.UnaryExpr)
				fmt.Fprintf(&pre, "%s := %s.RecvCase(%s); ", nm, rt, r.full(u.X))
			case *ast.AssignStmt:
				u := ast.Unparen(cm.Rhs[0]).(*ast.UnaryExpr)
				fmt.Fprintf(&pre, "%s := %s.RecvCase(%s); ", nm, rt, r.full(u.X))
				if len(cm.Lhs) == 1 {
					bind = fmt.Sprintf("%s %s %s.V; ", r.full(cm.Lhs[0]), cm.Tok, nm)
				} else {
					bind = fmt.Sprintf("%s, %s %s %s.V, %s.OK; ", r.full(cm.Lhs[0]), r.full(cm.Lhs[1]), cm.Tok, nm, nm)
				}
			}
			cases = append(cases, nm)
			fmt.Fprintf(&body, "case %d: %s", idx, bind)
			idx++
		}
		for _, st := range cc.Body {
			pad(st.Pos())
			body.WriteString(r.full(st))
			body.WriteString("; ")
			last = st.End()
		}
	}
	pad(s.Body.Rbrace)
	if !hasDefault {
		body.WriteString("default: panic(\"unreachable\"); ")
	}
	list := ""
	if len(cases) > 0 {
		list = ", " + strings.Join(cases, ", ")
	}
	// the prelude must not contain newlines that would shift the body
	core := fmt.Sprintf("switch %s.Select(%v%s) { %s }", rt, hasDefault, list, body.String())
	return strings.ReplaceAll(pre.String(), "\n", " "), core, true
}

func (r *rw) expr(e ast.Expr) (string, bool) {
	switch e := e.(type) {
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return rt + ".Recv(" + r.full(e.X) + ")", true
		}
		if e.Op == token.AND {
			if cl, ok := ast.Unparen(e.X).(*ast.CompositeLit); ok {
				return rt + ".Alloc(&" + r.full(cl) + ")", true
			}
		}
	case *ast.CallExpr:
		switch r.builtin(e.Fun) {
		case "close":
			return rt + ".Close(" + r.full(e.Args[0]) + ")", true
		case "new":
			return rt + ".Alloc(" + r.text(e) + ")", true
		}
	}
	return "", false
}
