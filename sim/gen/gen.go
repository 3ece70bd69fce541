// Package gen turns the repository's current source into the simulated
// program: the same code with a yield point before every statement and with
// goroutines, channels, map iteration and the impure standard packages routed
// through the simulator runtime (rt/). It edits source text in place, judges
// nothing, and knows no implementation detail of the repository beyond the
// names of the types to tap.
package gen

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type Config struct {
	Repo    string              // repository root
	RT      string              // /verif/rt
	Out     string              // scratch module directory (must exist, empty)
	Tags    []string            // build tags
	Env     []string            // environment for the go command
	GoCmd   string              // go binary
	Taps    map[string][]string // package path (relative) -> receiver type names
	Package string              // name given to package main
	Fine    bool                // yield before every statement of leaf packages too
}

const zsim = "uniswap-simulator/zsim/"

// Standard packages whose behaviour depends on the outside world, and the
// simulator package that takes their place.
var subst = map[string]string{
	"os":            zsim + "os",
	"io/ioutil":     zsim + "ioutil",
	"sync":          zsim + "sync",
	"time":          zsim + "time",
	"flag":          zsim + "flag",
	"fmt":           zsim + "fmt",
	"log":           zsim + "log",
	"math/rand":     zsim + "rand",
	"runtime":       zsim + "runtime",
	"context":       zsim + "context",
	"runtime/debug": zsim + "debug",
	"sync/atomic":   zsim + "atomic",
}

var forbidden = map[string]bool{
	"os/exec": true, "net": true, "net/http": true, "syscall": true, "unsafe": true, "C": true,
	"os/signal": true, "plugin": true, "crypto/rand": true, "embed": true, "math/rand/v2": true,
	"testing": true, "iter": true, "log/slog": true,
}

type edit struct {
	off, end int // replace [off,end)
	seq      int
	text     string
}

type fileState struct {
	name  string
	src   []byte
	ast   *ast.File
	edits []edit
	tail  bytes.Buffer
}

func (f *fileState) add(off, end int, text string) {
	f.edits = append(f.edits, edit{off, end, len(f.edits), text})
}

func (f *fileState) apply() ([]byte, error) {
	es := f.edits
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].off != es[j].off {
			return es[i].off < es[j].off
		}
		return es[i].seq < es[j].seq
	})
	var out bytes.Buffer
	pos := 0
	for _, e := range es {
		if e.off < pos {
			return nil, fmt.Errorf("%s: overlapping edits at offset %d", f.name, e.off)
		}
		out.Write(f.src[pos:e.off])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(f.src[pos:])
	out.Write(f.tail.Bytes())
	return out.Bytes(), nil
}

type pkgState struct {
	path  string // import path
	dir   string
	rel   string
	name  string
	files []*fileState
	types *types.Package
	info  *types.Info
	deps  []string
}

type Result struct {
	Packages []string
	Modules  map[string]string
	MainPkg  string
	Lines    int
}

func modulePath(repo string) (string, error) {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return "", err
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "module ") {
			return strings.Trim(strings.TrimSpace(l[7:]), `"`), nil
		}
	}
	return "", fmt.Errorf("no module line in go.mod")
}

func Generate(c Config) (*Result, error) {
	mod, err := modulePath(c.Repo)
	if err != nil {
		return nil, err
	}
	ctx := build.Default
	ctx.BuildTags = append([]string(nil), c.Tags...)
	ctx.CgoEnabled = false
	fset := token.NewFileSet()
	pkgs := map[string]*pkgState{}
	std := map[string]bool{}
	res := &Result{}
	err = filepath.Walk(c.Repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			n := fi.Name()
			if p != c.Repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		ok, err := ctx.MatchFile(filepath.Dir(p), fi.Name())
		if err != nil {
			return err
		}
		if !ok {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, p, src, parser.SkipObjectResolution|parser.ParseComments)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(c.Repo, filepath.Dir(p))
		path := mod
		if rel != "." {
			path = mod + "/" + filepath.ToSlash(rel)
		}
		ps := pkgs[path]
		if ps == nil {
			ps = &pkgState{path: path, dir: filepath.Dir(p), rel: rel, name: f.Name.Name}
			pkgs[path] = ps
		}
		if ps.name != f.Name.Name {
			return fmt.Errorf("%s: two packages in one directory", p)
		}
		ps.files = append(ps.files, &fileState{name: p, src: src, ast: f})
		res.Lines += bytes.Count(src, []byte("\n"))
		for _, im := range f.Imports {
			ip, _ := strconv.Unquote(im.Path.Value)
			if ip == mod || strings.HasPrefix(ip, mod+"/") {
				ps.deps = append(ps.deps, ip)
			} else {
				if forbidden[ip] {
					return fmt.Errorf("%s imports %s, which the simulator does not model", p, ip)
				}
				std[ip] = true
			}
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	// dependency order
	var order []*pkgState
	state := map[string]int{}
	var visit func(path string) error
	visit = func(path string) error {
		if state[path] == 2 {
			return nil
		}
		if state[path] == 1 {
			return fmt.Errorf("import cycle at %s", path)
		}
		state[path] = 1
		ps := pkgs[path]
		if ps == nil {
			return fmt.Errorf("package %s not found", path)
		}
		sort.Strings(ps.deps)
		for _, d := range ps.deps {
			if err := visit(d); err != nil {
				return err
			}
		}
		state[path] = 2
		order = append(order, ps)
		return nil
	}
	var paths []string
	for p := range pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		if err := visit(p); err != nil {
			return nil, err
		}
	}
	// export data of the standard packages
	exports := map[string]string{}
	var names []string
	for s := range std {
		names = append(names, s)
	}
	sort.Strings(names)
	if len(names) > 0 {
		cmd := exec.Command(c.GoCmd, append([]string{"list", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}"}, names...)...)
		cmd.Dir = c.Out
		cmd.Env = c.Env
		var eb bytes.Buffer
		cmd.Stderr = &eb
		out, err := cmd.Output()
		if err != nil {
			return nil, fmt.Errorf("go list: %v\n%s", err, eb.String())
		}
		for _, l := range strings.Split(string(out), "\n") {
			if i := strings.IndexByte(l, '\t'); i > 0 {
				exports[l[:i]] = l[i+1:]
			}
		}
	}
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	imp := importerFunc(func(path string) (*types.Package, error) {
		if ps := pkgs[path]; ps != nil {
			return ps.types, nil
		}
		return gc.Import(path)
	})
	for _, ps := range order {
		var fs []*ast.File
		for _, f := range ps.files {
			fs = append(fs, f.ast)
		}
		ps.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, GoVersion: "go1.21"}
		ps.types, err = conf.Check(ps.path, fset, fs, ps.info)
		if err != nil {
			return nil, fmt.Errorf("type check: %v", err)
		}
	}
	var resets []string
	for _, ps := range order {
		if err := rewrite(c, fset, ps); err != nil {
			return nil, err
		}
		name := ps.name
		rel := ps.rel
		if ps.name == "main" {
			name = c.Package
			if ps.path == mod {
				rel = "app_main"
				res.MainPkg = mod + "/app_main"
			}
		}
		_ = name
		dir := filepath.Join(c.Out, rel)
		if err := os.MkdirAll(dir, 0o755); err != nil {
			return nil, err
		}
		for _, f := range ps.files {
			b, err := f.apply()
			if err != nil {
				return nil, err
			}
			if err := os.WriteFile(filepath.Join(dir, filepath.Base(f.name)), b, 0o644); err != nil {
				return nil, err
			}
		}
		ip := ps.path
		if ps.name == "main" && ps.path == mod {
			ip = res.MainPkg
		}
		res.Packages = append(res.Packages, ip)
		resets = append(resets, ip)
	}
	// one package that resets all of them, in dependency order
	var b bytes.Buffer
	b.WriteString("package verifall\n\nimport (\n")
	for i, ip := range resets {
		fmt.Fprintf(&b, "\tp%d %q\n", i, ip)
	}
	b.WriteString(")\n\n// Reset brings every package variable of the program under test back to its initial value.\nfunc Reset() {\n")
	for i := range resets {
		fmt.Fprintf(&b, "\tp%d.VerifReset()\n", i)
	}
	b.WriteString("}\n")
	dir := filepath.Join(c.Out, "zsim", "verifall")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, "all.go"), b.Bytes(), 0o644); err != nil {
		return nil, err
	}
	if err := copyTree(c.RT, filepath.Join(c.Out, "zsim")); err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(c.Out, "go.mod"), []byte("module "+mod+"\n\ngo 1.21\n"), 0o644); err != nil {
		return nil, err
	}
	return res, nil
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

func copyTree(from, to string) error {
	return filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		dst := filepath.Join(to, rel)
		if fi.IsDir() {
			return os.MkdirAll(dst, 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(dst, b, 0o644)
	})
}

type rewriter struct {
	c      Config
	fset   *token.FileSet
	ps     *pkgState
	f      *fileState
	err    error
	n      int
	two    map[ast.Expr]bool // receive expressions in a two-value context
	comm   map[ast.Node]bool // statements that are select communications
	coarse bool              // yield only at block starts
}

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }

func (r *rewriter) text(n ast.Node) string {
	return string(r.f.src[r.off(n.Pos()):r.off(n.End())])
}

func (r *rewriter) fail(n ast.Node, format string, a ...any) {
	if r.err == nil {
		r.err = fmt.Errorf("%s: %s", r.fset.Position(n.Pos()), fmt.Sprintf(format, a...))
	}
}

func (r *rewriter) fresh(p string) string {
	r.n++
	return fmt.Sprintf("_vs%s%d", p, r.n)
}

func rewrite(c Config, fset *token.FileSet, ps *pkgState) error {
	nInit := 0
	nReset := 0
	var resetCalls []string
	fileOf := map[*ast.File]*fileState{}
	for _, f := range ps.files {
		fileOf[f.ast] = f
	}
	find := func(pos token.Pos) *fileState {
		for a, f := range fileOf {
			if a.FileStart <= pos && pos <= a.FileEnd {
				return f
			}
		}
		return nil
	}
	tapped := map[string]bool{}
	for _, t := range c.Taps[filepath.ToSlash(ps.rel)] {
		tapped[t] = true
	}
	for _, f := range ps.files {
		r := &rewriter{c: c, fset: fset, ps: ps, f: f, two: map[ast.Expr]bool{}, comm: map[ast.Node]bool{}, coarse: len(ps.deps) == 0 && !c.Fine}
		// package clause and imports
		nameEnd := r.off(f.ast.Name.End())
		name := f.ast.Name.Name
		if name == "main" {
			name = c.Package
		}
		f.add(r.off(f.ast.Name.Pos()), nameEnd, name+`; import simrt "`+zsim+`simrt"`)
		for _, im := range f.ast.Imports {
			ip, _ := strconv.Unquote(im.Path.Value)
			if s, ok := subst[ip]; ok {
				if im.Name != nil && im.Name.Name == "." {
					r.fail(im, "dot import of %s", ip)
				}
				f.add(r.off(im.Path.Pos()), r.off(im.Path.End()), strconv.Quote(s))
			}
		}
		fmt.Fprintf(&f.tail, "\n\nvar _ = simrt.Y\n")
		for _, d := range f.ast.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
					// function literals in initialisers are instrumented too
					for _, sp := range gd.Specs {
						vs := sp.(*ast.ValueSpec)
						if len(vs.Names) == 1 && len(vs.Values) == 1 && vs.Type == nil && vs.Names[0].Name != "_" {
							if call, ok := vs.Values[0].(*ast.CallExpr); ok {
								r.f.add(r.off(call.Pos()), r.off(call.Pos()), fmt.Sprintf("simrt.Init1(%q, simrt.Steps(), ", ps.path+"."+vs.Names[0].Name))
								r.walk(call)
								r.f.add(r.off(call.End()), r.off(call.End()), ")")
								continue
							}
						}
						r.walk(vs)
					}
				}
				continue
			}
			if fd.Recv == nil && fd.Name.Name == "init" {
				nInit++
				nm := fmt.Sprintf("verifInit%d", nInit)
				f.add(r.off(fd.Name.Pos()), r.off(fd.Name.End()), nm)
				fmt.Fprintf(&f.tail, "func init() { %s() }\n", nm)
			}
			if fd.Recv == nil && fd.Name.Name == "main" && ps.name == "main" {
				f.add(r.off(fd.Name.Pos()), r.off(fd.Name.End()), "Main")
			}
			if fd.Body == nil {
				r.fail(fd, "function without body")
				continue
			}
			if fd.Recv != nil && ast.IsExported(fd.Name.Name) && len(fd.Recv.List) == 1 {
				if st, ok := fd.Recv.List[0].Type.(*ast.StarExpr); ok {
					if id, ok := st.X.(*ast.Ident); ok && tapped[id.Name] {
						r.tap(fd, id.Name)
					}
				}
			}
			r.walk(fd.Body)
		}
		if r.err != nil {
			return r.err
		}
	}
	// variable resets
	seen := map[types.Object]bool{}
	for _, in := range ps.info.InitOrder {
		f := find(in.Rhs.Pos())
		if f == nil {
			return fmt.Errorf("initialiser without file")
		}
		var lhs []string
		for _, v := range in.Lhs {
			seen[v] = true
			lhs = append(lhs, v.Name())
		}
		if len(lhs) == 1 && lhs[0] == "_" {
			continue
		}
		nReset++
		fn := fmt.Sprintf("verifReset%d", nReset)
		src := string(f.src[fset.Position(in.Rhs.Pos()).Offset:fset.Position(in.Rhs.End()).Offset])
		fmt.Fprintf(&f.tail, "func %s() { simrt.ResetVar(%q, func() { %s = %s }) }\n", fn, ps.path+"."+strings.Join(lhs, ","), strings.Join(lhs, ", "), src)
		resetCalls = append(resetCalls, fn+"()")
	}
	// variables without initialiser go back to zero, before the others
	var zeros []string
	sc := ps.types.Scope()
	for _, n := range sc.Names() {
		if v, ok := sc.Lookup(n).(*types.Var); ok && !seen[v] && n != "_" {
			zeros = append(zeros, fmt.Sprintf("simrt.Zero(&%s)", n))
		}
	}
	f := ps.files[0]
	fmt.Fprintf(&f.tail, "\n// VerifReset re-runs the package's variable initialisation and init functions.\nfunc VerifReset() {\n")
	for _, z := range zeros {
		fmt.Fprintf(&f.tail, "\t%s\n", z)
	}
	for _, s := range resetCalls {
		fmt.Fprintf(&f.tail, "\t%s\n", s)
	}
	for i := 1; i <= nInit; i++ {
		fmt.Fprintf(&f.tail, "\tverifInit%d()\n", i)
	}
	fmt.Fprintf(&f.tail, "}\n")
	if ps.name == "main" {
		fmt.Fprintf(&f.tail, "\n// VerifMain is the program's entry point.\nfunc VerifMain() { Main() }\n")
	}
	return nil
}

// tap renames an exported method and puts a recording wrapper in its place.
func (r *rewriter) tap(fd *ast.FuncDecl, recv string) {
	f := r.f
	name := fd.Name.Name
	impl := name + "__impl"
	f.add(r.off(fd.Name.Pos()), r.off(fd.Name.End()), impl)
	var params, args, recorded, results, rnames []string
	i := 0
	for _, p := range fd.Type.Params.List {
		n := len(p.Names)
		if n == 0 {
			n = 1
		}
		for k := 0; k < n; k++ {
			v := fmt.Sprintf("a%d", i)
			params = append(params, v+" "+r.text(p.Type))
			if _, ok := p.Type.(*ast.Ellipsis); ok {
				args = append(args, v+"...")
			} else {
				args = append(args, v)
			}
			recorded = append(recorded, v)
			i++
		}
	}
	i = 0
	if fd.Type.Results != nil {
		for _, p := range fd.Type.Results.List {
			n := len(p.Names)
			if n == 0 {
				n = 1
			}
			for k := 0; k < n; k++ {
				results = append(results, fmt.Sprintf("r%d %s", i, r.text(p.Type)))
				rnames = append(rnames, fmt.Sprintf("r%d", i))
				i++
			}
		}
	}
	call := fmt.Sprintf("recv.%s(%s)", impl, strings.Join(args, ", "))
	fmt.Fprintf(&f.tail, "func (recv *%s) %s(%s) (%s) {\n", recv, name, strings.Join(params, ", "), strings.Join(results, ", "))
	ret := ""
	if len(rnames) > 0 {
		ret = "return "
	}
	if len(rnames) > 0 {
		fmt.Fprintf(&f.tail, "\tif !simrt.TapOn() { return %s }\n", call)
	} else {
		fmt.Fprintf(&f.tail, "\tif !simrt.TapOn() { %s; return }\n", call)
	}
	fmt.Fprintf(&f.tail, "\tt := simrt.TapEnter(%q, recv, []any{%s})\n", recv+"."+name, strings.Join(recorded, ", "))
	if len(rnames) > 0 {
		fmt.Fprintf(&f.tail, "\tdefer func() { t.Exit([]any{%s}) }()\n", strings.Join(rnames, ", "))
		fmt.Fprintf(&f.tail, "\t%s = %s\n\tt.OK()\n", strings.Join(rnames, ", "), call)
		fmt.Fprintf(&f.tail, "\t%s%s\n}\n", ret, strings.Join(rnames, ", "))
	} else {
		fmt.Fprintf(&f.tail, "\tdefer func() { t.Exit(nil) }()\n\t%s\n\tt.OK()\n}\n", call)
	}
}

func (r *rewriter) typ(e ast.Expr) types.Type {
	tv, ok := r.ps.info.Types[e]
	if !ok {
		if id, ok := e.(*ast.Ident); ok {
			if o := r.ps.info.Uses[id]; o != nil {
				return o.Type()
			}
		}
		return nil
	}
	return tv.Type
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (r *rewriter) stmts(list []ast.Stmt) {
	for i, s := range list {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		if r.coarse && i > 0 {
			break
		}
		r.f.add(r.off(s.Pos()), r.off(s.Pos()), "simrt.Y(); ")
	}
}

// walk instruments everything under n.
func (r *rewriter) walk(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		if r.err != nil || n == nil {
			return false
		}
		switch x := n.(type) {
		case *ast.FuncLit:
			// body handled as a block below; make sure empty bodies yield too
		case *ast.BlockStmt:
			r.stmts(x.List)
			if len(x.List) == 0 {
				r.f.add(r.off(x.Lbrace)+1, r.off(x.Lbrace)+1, " simrt.Y(); ")
			}
		case *ast.CaseClause:
			r.stmts(x.Body)
		case *ast.CommClause:
			r.stmts(x.Body)
		case *ast.SwitchStmt, *ast.TypeSwitchStmt:
			// the switch body is a block of clauses: do not treat the clauses
			// as statements
			var body *ast.BlockStmt
			if s, ok := n.(*ast.SwitchStmt); ok {
				if s.Init != nil {
					r.walk(s.Init)
				}
				if s.Tag != nil {
					r.walk(s.Tag)
				}
				body = s.Body
			} else {
				s := n.(*ast.TypeSwitchStmt)
				if s.Init != nil {
					r.walk(s.Init)
				}
				r.walk(s.Assign)
				body = s.Body
			}
			for _, c := range body.List {
				r.walk(c)
			}
			return false
		case *ast.SelectStmt:
			r.sel(x)
			return false
		case *ast.GoStmt:
			r.goStmt(x)
			return false
		case *ast.RangeStmt:
			t := r.typ(x.X)
			if isMap(t) {
				r.mapRange(x)
				return false
			}
			if isChan(t) {
				r.chanRange(x)
				return false
			}
		case *ast.SendStmt:
			r.f.add(r.off(x.Pos()), r.off(x.Pos()), "simrt.Send(")
			r.f.add(r.off(x.Arrow), r.off(x.Arrow)+2, ",")
			r.walk(x.Chan)
			r.walk(x.Value)
			r.f.add(r.off(x.End()), r.off(x.End()), ")")
			return false
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := ast.Unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					r.two[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u, ok := ast.Unparen(x.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					r.two[u] = true
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				fn := "simrt.Recv("
				if r.two[x] {
					fn = "simrt.Recv2("
				}
				r.f.add(r.off(x.OpPos), r.off(x.OpPos)+2, fn)
				r.walk(x.X)
				r.f.add(r.off(x.End()), r.off(x.End()), ")")
				return false
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok {
				if b, ok := r.ps.info.Uses[id].(*types.Builtin); ok && len(x.Args) >= 1 {
					switch {
					case b.Name() == "close":
						r.f.add(r.off(id.Pos()), r.off(id.End()), "simrt.Close")
					case b.Name() == "len" && isChan(r.typ(x.Args[0])):
						r.f.add(r.off(id.Pos()), r.off(id.End()), "simrt.ChanLen")
					}
				}
			}
		}
		return true
	})
}

// goStmt: go F(A, B) => { f := F; a := A; b := B; simrt.Go(func() { f(a, b) }) }
func (r *rewriter) goStmt(x *ast.GoStmt) {
	call := x.Call
	if tv, ok := r.ps.info.Types[call.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
		r.fail(x, "go statement with builtin or conversion")
		return
	}
	fn := r.fresh("f")
	r.f.add(r.off(x.Go), r.off(x.Go)+2, "{ "+fn+" :=")
	r.walk(call.Fun)
	var names []string
	at := r.off(call.Lparen)
	end := at + 1
	for i, a := range call.Args {
		nm := r.fresh("a")
		tv := r.ps.info.Types[a]
		b, isBasic := tv.Type.(*types.Basic)
		inline := tv.IsNil() || tv.Value != nil || (isBasic && b.Info()&types.IsUntyped != 0)
		if inline {
			names = append(names, "("+r.text(a)+")")
			// nil cannot be assigned to blank; drop the text altogether
			next := r.off(a.End())
			r.f.add(at, next, " ;")
			at, end = next, next
		} else {
			names = append(names, nm)
			r.f.add(at, end, "; "+nm+" := ")
			r.walk(a)
			at, end = r.off(a.End()), r.off(a.End())
		}
		if i+1 < len(call.Args) {
			// the comma lies between this argument and the next
			end = r.off(call.Args[i+1].Pos())
		}
	}
	dots := ""
	if call.Ellipsis.IsValid() {
		dots = "..."
	}
	r.f.add(at, r.off(call.Rparen)+1, fmt.Sprintf("; simrt.Go(func() { %s(%s%s) }) }", fn, strings.Join(names, ", "), dots))
}

func (r *rewriter) mapRange(x *ast.RangeStmt) {
	it := r.fresh("it")
	r.f.add(r.off(x.For), r.off(x.X.Pos()), "for "+it+" := simrt.MapIter(")
	r.walk(x.X)
	var pre string
	blank := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		return e == nil || ok && id.Name == "_"
	}
	var l, v []string
	if x.Key != nil && !blank(x.Key) {
		l, v = append(l, r.text(x.Key)), append(v, it+".Key()")
	}
	if x.Value != nil && !blank(x.Value) {
		l, v = append(l, r.text(x.Value)), append(v, it+".Val()")
	}
	if len(l) > 0 {
		op := " = "
		if x.Tok == token.DEFINE {
			op = " := "
		}
		pre = strings.Join(l, ", ") + op + strings.Join(v, ", ") + "; "
	}
	r.f.add(r.off(x.X.End()), r.off(x.Body.Lbrace)+1, "); "+it+".Next(); { "+pre)
	r.bodyAfterBrace(x.Body)
}

func (r *rewriter) chanRange(x *ast.RangeStmt) {
	ok := r.fresh("ok")
	v := "_"
	op := " := "
	if x.Key != nil {
		v = r.text(x.Key)
		if x.Tok == token.ASSIGN {
			op = " = "
		}
	}
	ch := r.fresh("ch")
	decl := ""
	if op == " = " {
		decl = "var " + ok + " bool; "
	}
	r.f.add(r.off(x.For), r.off(x.X.Pos()), "for "+ch+" := (")
	r.walk(x.X)
	r.f.add(r.off(x.X.End()), r.off(x.Body.Lbrace)+1, fmt.Sprintf("); ; { simrt.Y(); %s%s, %s%ssimrt.Recv2(%s); if !%s { break }; ", decl, v, ok, op, ch, ok))
	r.bodyAfterBrace(x.Body)
}

func (r *rewriter) bodyAfterBrace(b *ast.BlockStmt) {
	r.stmts(b.List)
	for _, s := range b.List {
		r.walk(s)
	}
}

func (r *rewriter) sel(x *ast.SelectStmt) {
	sv := r.fresh("s")
	var cases []string
	def := "false"
	idx := 0
	type comm struct {
		c   *ast.CommClause
		hdr string
		pre string
	}
	var cs []comm
	for _, s := range x.Body.List {
		c := s.(*ast.CommClause)
		if c.Comm == nil {
			def = "true"
			cs = append(cs, comm{c, "default:", ""})
			continue
		}
		hdr := fmt.Sprintf("case %d:", idx)
		idx++
		switch s := c.Comm.(type) {
		case *ast.SendStmt:
			cases = append(cases, fmt.Sprintf("simrt.SendCase(%s, %s)", r.text(s.Chan), r.text(s.Value)))
			cs = append(cs, comm{c, hdr, ""})
		case *ast.ExprStmt:
			u := ast.Unparen(s.X).(*ast.UnaryExpr)
			cases = append(cases, fmt.Sprintf("simrt.RecvCase(%s)", r.text(u.X)))
			cs = append(cs, comm{c, hdr, ""})
		case *ast.AssignStmt:
			u := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr)
			cases = append(cases, fmt.Sprintf("simrt.RecvCase(%s)", r.text(u.X)))
			pre := r.text(s.Lhs[0])
			if len(s.Lhs) == 2 {
				pre += ", " + r.text(s.Lhs[1]) + " " + s.Tok.String() + " simrt.Got2(" + r.text(u.X) + ", " + sv + "); "
			} else {
				pre += " " + s.Tok.String() + " simrt.Got(" + r.text(u.X) + ", " + sv + "); "
			}
			cs = append(cs, comm{c, hdr, pre})
		default:
			r.fail(c, "unsupported select case")
			return
		}
	}
	r.f.add(r.off(x.Select), r.off(x.Body.Lbrace)+1, fmt.Sprintf("switch %s := simrt.Select(%s, []simrt.Case{%s}); %s.I {", sv, def, strings.Join(cases, ", "), sv))
	for _, c := range cs {
		r.f.add(r.off(c.c.Case), r.off(c.c.Colon)+1, c.hdr+" "+c.pre)
		r.stmts(c.c.Body)
		for _, s := range c.c.Body {
			r.walk(s)
		}
	}
}
