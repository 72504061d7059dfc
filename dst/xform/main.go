// xform copies the program under test into the simulation module and inserts the seams: imports of
// packages with effects are redirected to the shims, and goroutines, channel operations, map
// iteration and package state go through the simulation runtime. The program text is otherwise
// left as it is.
//
// usage: xform -repo DIR -out DIR -pkg NAME
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type goPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Standard   bool
	ImportMap  map[string]string
	Module     *struct{ Path string }
}

var shims = map[string]string{
	"os": "os", "time": "time", "sync": "sync", "os/exec": "exec", "path/filepath": "filepath",
	"io/ioutil": "ioutil", "sync/atomic": "atomic", "math/rand": "rand", "math/rand/v2": "randv2", "crypto/rand": "crand",
	"net/http": "nethttp", "context": "context", "log": "log", "maps": "maps", "runtime": "runtime",
}

// Modules that are transformed together with the repository (without statement ticks).
var depMods = map[string]bool{
	"github.com/hauke96/sigolo/v2": true,
	"github.com/go-shiori/go-epub": true,
	"github.com/gofrs/uuid/v5":     true,
}

var (
	repo    = flag.String("repo", "/repo/src", "module directory of the program")
	out     = flag.String("out", "", "root of the simulation module")
	pkgName = flag.String("pkg", "appa", "comma separated names of the copies")
	modfile = flag.String("modfile", "", "go.mod to use instead of the one in -repo")
)

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "xform: "+format+"\n", a...)
	os.Exit(3)
}

func main() {
	flag.Parse()
	args := []string{"list", "-deps", "-export", "-json=ImportPath,Dir,Name,GoFiles,CgoFiles,Export,Standard,ImportMap,Module", "-trimpath"}
	if *modfile != "" {
		args = append(args, "-modfile", *modfile)
	}
	args = append(args, ".")
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	var outb, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &outb, &errb
	if err := cmd.Run(); err != nil {
		die("go list: %v\n%s", err, errb.String())
	}
	dec := json.NewDecoder(&outb)
	var pkgs []*goPkg
	byPath := map[string]*goPkg{}
	for {
		p := &goPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		pkgs = append(pkgs, p)
		byPath[p.ImportPath] = p
	}
	if len(pkgs) == 0 {
		die("no packages")
	}
	root := pkgs[len(pkgs)-1]
	if root.Name != "main" || root.Module == nil {
		die("unexpected root package %s", root.ImportPath)
	}
	mod := root.Module.Path

	var targets []*goPkg
	for _, p := range pkgs {
		if p.Standard || p.Module == nil {
			continue
		}
		if p.Module.Path == mod || depMods[p.Module.Path] {
			if len(p.CgoFiles) > 0 {
				die("cgo in %s", p.ImportPath)
			}
			targets = append(targets, p)
		}
	}
	isTarget := map[string]bool{}
	for _, p := range targets {
		isTarget[p.ImportPath] = true
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(p string) (io.ReadCloser, error) {
		q := byPath[p]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %s", p)
		}
		return os.Open(q.Export)
	})

	for _, copyName := range strings.Split(*pkgName, ",") {
		newPath := func(ip string) string {
			if ip == mod {
				return "sim/" + copyName
			}
			if strings.HasPrefix(ip, mod+"/") {
				return "sim/" + copyName + "/" + strings.TrimPrefix(ip, mod+"/")
			}
			return "sim/" + copyName + "/dep/" + strings.ReplaceAll(ip, "internal", "internl")
		}
		for _, p := range targets {
			transform(p, fset, imp, byPath, isTarget, newPath, p.Module.Path == mod)
		}
		// The reset of all package state, in initialisation order of the packages.
		var b bytes.Buffer
		b.WriteString("package reset\n\nimport (\n")
		for i, p := range targets {
			fmt.Fprintf(&b, "\tp%d %q\n", i, newPath(p.ImportPath))
		}
		b.WriteString(")\n\n// All brings every package into the state of a fresh process.\nfunc All() {\n")
		for i := range targets {
			fmt.Fprintf(&b, "\tp%d.SimReset()\n", i)
		}
		b.WriteString("}\n")
		write(filepath.Join(*out, copyName, "reset", "reset.go"), b.Bytes())
	}
}

func write(file string, data []byte) {
	if err := os.MkdirAll(filepath.Dir(file), 0755); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(file, data, 0644); err != nil {
		die("%v", err)
	}
}

// ---------------------------------------------------------------- edits

type edit struct {
	pos, end int
	text     string
	order    int
	kind     int
}

// At the same place the end of a wrapped expression comes first, then what precedes a statement,
// then the begin of wrapped expressions (outermost first), then a replacement.
const (
	kEnd = iota
	kInsert
	kBegin
	kReplace
)

type xf struct {
	pkg    *goPkg
	fset   *token.FileSet
	info   *types.Info
	src    []byte
	file   *token.File
	edits  []edit
	ticks  bool
	seq    int
	seldep map[ast.Node]bool
	// index expressions that are assigned to
	written  map[ast.Expr]bool
	captured map[types.Object]bool // local variables used by a nested function literal
}

func (x *xf) off(p token.Pos) int { return x.file.Offset(p) }
func (x *xf) add(pos, end token.Pos, text string) {
	x.seq++
	kind := kReplace
	if pos == end {
		kind = kInsert
	}
	x.edits = append(x.edits, edit{x.off(pos), x.off(end), text, x.seq, kind})
}

// wrap encloses an expression.
func (x *xf) wrap(e ast.Expr, fn string) {
	x.seq++
	x.edits = append(x.edits, edit{x.off(e.Pos()), x.off(e.Pos()), fn + "(", x.seq, kBegin}, edit{x.off(e.End()), x.off(e.End()), ")", x.seq, kEnd})
}
func (x *xf) insert(pos token.Pos, text string) { x.add(pos, pos, text) }

// render returns the source between two offsets with all edits inside applied.
func (x *xf) render(from, to int) string {
	var es []edit
	for _, e := range x.edits {
		if e.pos >= from && e.end <= to && !(e.pos == to && e.pos == e.end && to != from) {
			es = append(es, e)
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].pos != es[j].pos {
			return es[i].pos < es[j].pos
		}
		if es[i].kind != es[j].kind {
			return es[i].kind < es[j].kind
		}
		switch es[i].kind {
		case kBegin:
			return es[i].order > es[j].order
		case kReplace:
			return es[i].end > es[j].end
		}
		return es[i].order < es[j].order
	})
	// What begins together with a replaced range but was added before belongs to its inside.
	replaced := map[int]int{}
	for _, e := range es {
		if e.kind == kReplace && e.order > replaced[e.pos] {
			replaced[e.pos] = e.order
		}
	}
	var b strings.Builder
	cur := from
	for _, e := range es {
		if e.pos < cur {
			continue // inside an already replaced range
		}
		if e.kind == kBegin && e.order < replaced[e.pos] {
			continue
		}
		b.Write(x.src[cur:e.pos])
		b.WriteString(e.text)
		cur = e.end
	}
	b.Write(x.src[cur:to])
	return b.String()
}
func (x *xf) text(n ast.Node) string { return x.render(x.off(n.Pos()), x.off(n.End())) }

// ---------------------------------------------------------------- transformation of a package

func transform(p *goPkg, fset *token.FileSet, imp types.Importer, byPath map[string]*goPkg, isTarget map[string]bool, newPath func(string) string, ticks bool) {
	var files []*ast.File
	var srcs [][]byte
	var names []string
	for _, f := range p.GoFiles {
		full := filepath.Join(p.Dir, f)
		src, err := os.ReadFile(full)
		if err != nil {
			die("%v", err)
		}
		af, err := parser.ParseFile(fset, full, src, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
		srcs = append(srcs, src)
		names = append(names, f)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{},
	}
	conf := types.Config{Importer: mapImporter{imp, p.ImportMap}, Error: func(err error) {}}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("type check of %s: %v", p.ImportPath, err)
	}

	// Package level variables in initialisation order.
	fileOf := func(pos token.Pos) int {
		for i, f := range files {
			if f.FileStart <= pos && pos < f.FileEnd {
				return i
			}
		}
		die("no file for position")
		return 0
	}
	skip := func(v *types.Var) bool { return v.Type().String() == "*regexp.Regexp" }
	type initFn struct {
		file int
		lhs  []*types.Var
		rhs  ast.Expr
	}
	var inits []initFn
	inited := map[*types.Var]bool{}
	for _, in := range info.InitOrder {
		all := true
		named := false
		for _, v := range in.Lhs {
			inited[v] = true
			if v.Name() != "_" {
				named = true
				if !skip(v) {
					all = false
				}
			}
		}
		if all || !named {
			continue
		}
		inits = append(inits, initFn{fileOf(in.Rhs.Pos()), in.Lhs, in.Rhs})
	}
	var zero []string
	for _, n := range tp.Scope().Names() {
		if v, ok := tp.Scope().Lookup(n).(*types.Var); ok && !inited[v] && n != "_" {
			zero = append(zero, n)
		}
	}
	initFnCount := 0
	bodies := make([]strings.Builder, len(files))
	var order []string

	var outs []string
	for i, f := range files {
		x := &xf{pkg: p, fset: fset, info: info, src: srcs[i], file: fset.File(f.FileStart), ticks: ticks, seldep: map[ast.Node]bool{}, written: map[ast.Expr]bool{}}
		// imports
		for _, is := range f.Imports {
			ip, _ := strconv.Unquote(is.Path.Value)
			if ip == "C" {
				die("cgo in %s", names[i])
			}
			real := ip
			if m := p.ImportMap[ip]; m != "" {
				real = m
			}
			alias := ""
			if is.Name != nil {
				alias = is.Name.Name
			}
			switch {
			case shims[ip] != "":
				if alias == "" {
					alias = path.Base(ip)
					if ip == "math/rand/v2" {
						alias = "rand"
					}
				}
				repl(x, is, alias, "sim/shim/"+shims[ip])
			case isTarget[real]:
				if alias == "" {
					alias = byPath[real].Name
				}
				repl(x, is, alias, newPath(real))
			case ip == "os/signal" || ip == "syscall" || ip == "unsafe" || ip == "testing" || ip == "embed":
				if ip == "testing" {
					break
				}
				if ip == "embed" {
					die("%s: embed is not supported by the simulation", names[i])
				}
			}
		}
		// package clause, main
		if p.Name == "main" {
			x.add(f.Name.Pos(), f.Name.End(), "app")
		}
		// The runtime import must follow the package clause.
		x.insert(f.Name.End(), "; import simrt \"sim/rt\"")
		bodies[i].WriteString("var _ = simrt.Hash64\n")
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			if fd.Name.Name == "init" {
				nn := fmt.Sprintf("simInitFn_%d", initFnCount)
				initFnCount++
				x.add(fd.Name.Pos(), fd.Name.End(), nn)
				fmt.Fprintf(&bodies[i], "func init() { %s() }\n", nn)
				order = append(order, nn)
			}
			if p.Name == "main" && fd.Name.Name == "main" {
				x.add(fd.Name.Pos(), fd.Name.End(), "SimMain")
			}
		}
		x.findCaptured(f)
		x.walk(f)
		for k, in := range inits {
			if in.file == i {
				var lhs []string
				for _, v := range in.lhs {
					lhs = append(lhs, v.Name())
				}
				fmt.Fprintf(&bodies[i], "func simInit_%d() { %s = %s }\n", k, strings.Join(lhs, ", "), x.text(in.rhs))
			}
		}
		outs = append(outs, x.render(0, len(x.src)))
	}
	newDir := filepath.Join(*out, strings.TrimPrefix(newPath(p.ImportPath), "sim/"))
	for i := range files {
		write(filepath.Join(newDir, names[i]), []byte(outs[i]+"\n"+bodies[i].String()))
	}
	var b bytes.Buffer
	name := p.Name
	if name == "main" {
		name = "app"
	}
	fmt.Fprintf(&b, "package %s\n\nimport simrt \"sim/rt\"\n\nvar _ = simrt.Hash64\n\n// SimReset brings the package into its initial state.\nfunc SimReset() {\n", name)
	for _, z := range zero {
		fmt.Fprintf(&b, "\tsimrt.Zero(&%s)\n", z)
	}
	for k := range inits {
		fmt.Fprintf(&b, "\tsimInit_%d()\n", k)
	}
	for _, o := range order {
		fmt.Fprintf(&b, "\t%s()\n", o)
	}
	b.WriteString("}\n")
	write(filepath.Join(newDir, "zz_simreset.go"), b.Bytes())
}

type mapImporter struct {
	imp types.Importer
	m   map[string]string
}

func (m mapImporter) Import(p string) (*types.Package, error) {
	if p == "unsafe" {
		return types.Unsafe, nil
	}
	if q := m.m[p]; q != "" {
		p = q
	}
	return m.imp.Import(p)
}

func repl(x *xf, is *ast.ImportSpec, alias, p string) {
	x.add(is.Pos(), is.Path.End(), alias+" "+strconv.Quote(p))
}

// ---------------------------------------------------------------- statements

func (x *xf) typeOf(e ast.Expr) types.Type {
	if tv, ok := x.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := x.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := x.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

// under returns the underlying type (the core type for type parameters with a single one).
func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if tp, ok := t.(*types.TypeParam); ok {
		if iface, ok := tp.Constraint().Underlying().(*types.Interface); ok {
			var core types.Type
			for i := 0; i < iface.NumEmbeddeds(); i++ {
				if u, ok := iface.EmbeddedType(i).(*types.Union); ok && u.Len() == 1 {
					core = u.Term(0).Type().Underlying()
				} else if !ok {
					core = iface.EmbeddedType(i).Underlying()
				}
			}
			if core != nil {
				return core
			}
		}
	}
	return t.Underlying()
}

func (x *xf) where(n ast.Node) string { return x.fset.Position(n.Pos()).String() }

// walk visits the tree bottom-up (children first) so that texts of inner nodes are final.
func (x *xf) walk(n ast.Node) {
	if n == nil {
		return
	}
	// The two-valued receive is replaced as a whole.
	switch s := n.(type) {
	case *ast.IncDecStmt:
		x.written[unparen(s.X)] = true
	case *ast.RangeStmt:
		x.written[unparen(s.Key)] = true
		x.written[unparen(s.Value)] = true
	case *ast.AssignStmt:
		for _, l := range s.Lhs {
			x.written[unparen(l)] = true
		}
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				x.seldep[u] = true
			}
		}
	case *ast.ValueSpec:
		if len(s.Names) == 2 && len(s.Values) == 1 {
			if u, ok := unparen(s.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				x.seldep[u] = true
			}
		}
	}
	// children first
	var kids []ast.Node
	ast.Inspect(n, func(c ast.Node) bool {
		if c == nil || c == n {
			return c == n
		}
		kids = append(kids, c)
		return false
	})
	for _, k := range kids {
		x.walk(k)
	}
	switch s := n.(type) {
	case *ast.BlockStmt:
		x.block(s.List)
	case *ast.CaseClause:
		x.block(s.Body)
	case *ast.CommClause:
		x.block(s.Body)
	case *ast.ForStmt:
		if x.ticks && len(s.Body.List) == 0 {
			x.insert(s.Body.Lbrace+1, " simrt.T() ")
		}
	case *ast.RangeStmt:
		if x.ticks && len(s.Body.List) == 0 {
			x.insert(s.Body.Lbrace+1, " simrt.T() ")
		}
		switch u := under(x.typeOf(s.X)).(type) {
		case *types.Map:
			x.wrap(s.X, "simrt.MapSeq")
		case *types.Chan:
			_ = u
			x.wrap(s.X, "simrt.ChanSeq")
		}
	case *ast.GoStmt:
		x.goStmt(s)
	case *ast.SendStmt:
		if x.seldep[s] {
			return
		}
		x.add(s.Pos(), s.End(), "simrt.Send("+x.text(s.Chan)+", "+x.text(s.Value)+")")
	case *ast.AssignStmt:
		if x.seldep[s] {
			return
		}
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				x.add(u.Pos(), u.End(), "simrt.Recv2("+x.text(u.X)+")")
			}
		}
	case *ast.ValueSpec:
		if len(s.Names) == 2 && len(s.Values) == 1 {
			if u, ok := unparen(s.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				x.add(u.Pos(), u.End(), "simrt.Recv2("+x.text(u.X)+")")
			}
		}
	case *ast.UnaryExpr:
		if s.Op == token.ARROW && !x.seldep[s] {
			x.add(s.Pos(), s.End(), "simrt.Recv("+x.text(s.X)+")")
		}
	case *ast.CallExpr:
		if id, ok := unparen(s.Fun).(*ast.Ident); ok {
			if _, ok := x.info.Uses[id].(*types.Builtin); ok {
				switch id.Name {
				case "close":
					x.add(id.Pos(), id.End(), "simrt.Close")
				case "delete", "clear":
					if x.ticks && isMap(x.typeOf(s.Args[0])) {
						x.wrap(s.Args[0], "simrt.MapW")
					}
				}
			}
		}
	case *ast.IndexExpr:
		if x.ticks && isMap(x.typeOf(s.X)) {
			if x.written[s] {
				x.wrap(s.X, "simrt.MapW")
			} else {
				x.wrap(s.X, "simrt.MapR")
			}
		}
	case *ast.SelectStmt:
		x.selectStmt(s)
	}
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (x *xf) block(list []ast.Stmt) {
	if !x.ticks {
		return
	}
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt:
			continue
		case *ast.CaseClause, *ast.CommClause:
			continue
		}
		x.splitRMW(s)
		x.insert(s.Pos(), "simrt.T(); ")
	}
}

// findCaptured notes the local variables that a function literal shares with its surroundings.
func (x *xf) findCaptured(f *ast.File) {
	x.captured = map[types.Object]bool{}
	home := map[types.Object]ast.Node{}
	var stack []ast.Node
	cur := func() ast.Node {
		for i := len(stack) - 1; i >= 0; i-- {
			switch stack[i].(type) {
			case *ast.FuncLit, *ast.FuncDecl:
				return stack[i]
			}
		}
		return nil
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		stack = append(stack, n)
		if id, ok := n.(*ast.Ident); ok {
			if o := x.info.Defs[id]; o != nil {
				home[o] = cur()
			} else if o := x.info.Uses[id]; o != nil {
				if h, ok := home[o]; ok && h != nil && h != cur() {
					x.captured[o] = true
				}
			}
		}
		return true
	})
}

// pure reports whether evaluating an expression has no effect but reading variables.
func (x *xf) pure(e ast.Expr) bool {
	switch s := unparen(e).(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return x.pure(s.X)
	case *ast.StarExpr:
		return x.pure(s.X)
	case *ast.IndexExpr:
		return x.pure(s.X) && x.pure(s.Index)
	}
	return false
}

// shared reports whether another task may use what the expression denotes.
func (x *xf) shared(e ast.Expr) bool {
	switch s := unparen(e).(type) {
	case *ast.Ident:
		v, ok := x.info.Uses[s].(*types.Var)
		return ok && (x.captured[v] || v.Parent() == v.Pkg().Scope())
	case *ast.SelectorExpr, *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		return true
	}
	return false
}

// splitRMW separates reading and writing in a statement that updates a variable, so that another
// task can run in between, as it can on a real machine.
func (x *xf) splitRMW(st ast.Stmt) {
	v := fmt.Sprintf("simv%d", x.off(st.Pos()))
	raw := func(e ast.Expr) string { return string(x.src[x.off(e.Pos()):x.off(e.End())]) }
	switch s := st.(type) {
	case *ast.IncDecStmt:
		if x.pure(s.X) && x.shared(s.X) {
			x.add(s.Pos(), s.End(), fmt.Sprintf("{ %s := %s; simrt.T(); %s = %s %s 1 }", v, x.text(s.X), x.text(s.X), v, s.Tok.String()[:1]))
		}
	case *ast.AssignStmt:
		if len(s.Lhs) != 1 || len(s.Rhs) != 1 || s.Tok == token.DEFINE || !x.pure(s.Lhs[0]) || !x.shared(s.Lhs[0]) {
			return
		}
		l, r := s.Lhs[0], s.Rhs[0]
		if s.Tok != token.ASSIGN {
			if s.Tok == token.SHL_ASSIGN || s.Tok == token.SHR_ASSIGN || x.hasCall(r) {
				return
			}
			op := strings.TrimSuffix(s.Tok.String(), "=")
			x.add(s.Pos(), s.End(), fmt.Sprintf("{ %s := %s; simrt.T(); %s = %s %s (%s) }", v, x.text(l), x.text(l), v, op, x.text(r)))
			return
		}
		lt, rt := x.typeOf(l), x.typeOf(r)
		if lt == nil || rt == nil || !types.Identical(lt, rt) || x.info.Types[r].Value != nil || x.info.Types[r].IsNil() || x.hasCall(r) {
			return
		}
		reads := false
		want := raw(l)
		ast.Inspect(r, func(n ast.Node) bool {
			if _, ok := n.(*ast.FuncLit); ok {
				return false
			}
			if e, ok := n.(ast.Expr); ok && raw(e) == want {
				reads = true
			}
			return !reads
		})
		if reads {
			x.add(s.Pos(), s.End(), fmt.Sprintf("{ %s := %s; simrt.T(); %s = %s }", v, x.text(r), x.text(l), v))
		}
	}
}

// hasCall reports whether an expression calls anything but builtin functions and conversions.
func (x *xf) hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch c := n.(type) {
		case *ast.FuncLit:
			found = true
		case *ast.UnaryExpr:
			if c.Op == token.ARROW {
				found = true
			}
		case *ast.CallExpr:
			if tv := x.info.Types[c.Fun]; !tv.IsBuiltin() && !tv.IsType() {
				found = true
			}
		}
		return !found
	})
	return found
}

func (x *xf) goStmt(s *ast.GoStmt) {
	call := s.Call
	fun := unparen(call.Fun)
	n := len(call.Args)
	ft, _ := under(x.typeOf(call.Fun)).(*types.Signature)
	if ft == nil { // builtin or conversion
		x.add(s.Pos(), s.End(), "simrt.Go(func() { "+x.text(call)+" })")
		return
	}
	if n == 0 && ft.Results().Len() == 0 && !ft.Variadic() {
		x.add(s.Pos(), s.End(), "simrt.Go("+x.text(call.Fun)+")")
		return
	}
	if n >= 1 && n <= 4 && ft.Results().Len() == 0 && !ft.Variadic() && ft.Params().Len() == n && isLit(fun) {
		var as []string
		for _, a := range call.Args {
			as = append(as, x.text(a))
		}
		// A literal has explicit parameter types, so inference converts the arguments.
		x.add(s.Pos(), s.End(), fmt.Sprintf("simrt.Go%d(%s, %s)", n, x.text(call.Fun), strings.Join(as, ", ")))
		return
	}
	if call.Ellipsis.IsValid() {
		id := x.off(s.Pos())
		var names, vals, use []string
		for k, a := range append([]ast.Expr{call.Fun}, call.Args...) {
			if tv := x.info.Types[a]; tv.Value != nil || tv.IsNil() || k == 0 && !isLit(fun) && !tv.IsValue() {
				use = append(use, x.text(a))
				continue
			}
			v := fmt.Sprintf("simg%d_%d", id, k)
			names, vals, use = append(names, v), append(vals, x.text(a)), append(use, v)
		}
		x.add(s.Pos(), s.End(), fmt.Sprintf("{ %s := %s; simrt.Go(func() { %s(%s...) }) }", strings.Join(names, ", "), strings.Join(vals, ", "), use[0], strings.Join(use[1:], ", ")))
		return
	}
	as := []string{x.text(call.Fun)}
	for _, a := range call.Args {
		as = append(as, x.text(a))
	}
	x.add(s.Pos(), s.End(), "simrt.GoCall("+strings.Join(as, ", ")+")")
}

func isLit(e ast.Expr) bool { _, ok := e.(*ast.FuncLit); return ok }

// selectStmt turns a select into a switch over simrt.Select.
func (x *xf) selectStmt(s *ast.SelectStmt) {
	var vars, vals []string
	hasDef := false
	k := 0
	id := x.off(s.Pos())
	type cl struct {
		c    *ast.CommClause
		head string
	}
	var cls []cl
	for _, st := range s.Body.List {
		c := st.(*ast.CommClause)
		if c.Comm == nil {
			hasDef = true
			cls = append(cls, cl{c, "default:"})
			continue
		}
		v := fmt.Sprintf("simc%d_%d", id, k)
		var head string
		x.unedit(c.Comm)
		switch m := c.Comm.(type) {
		case *ast.SendStmt:
			vars = append(vars, v)
			vals = append(vals, "simrt.SendCase("+x.text(m.Chan)+", "+x.text(m.Value)+")")
			head = fmt.Sprintf("case %d:", k)
		case *ast.ExprStmt:
			u := unparen(m.X).(*ast.UnaryExpr)
			vars = append(vars, v)
			vals = append(vals, "simrt.RecvCase("+x.text(u.X)+")")
			head = fmt.Sprintf("case %d:", k)
		case *ast.AssignStmt:
			u := unparen(m.Rhs[0]).(*ast.UnaryExpr)
			vars = append(vars, v)
			vals = append(vals, "simrt.RecvCase("+x.text(u.X)+")")
			l := x.text(m.Lhs[0])
			r := v + ".Val"
			if len(m.Lhs) == 2 {
				l += ", " + x.text(m.Lhs[1])
				r += ", " + v + ".OK"
			}
			head = fmt.Sprintf("case %d: %s %s %s;", k, l, m.Tok.String(), r)
		}
		cls = append(cls, cl{c, head})
		k++
	}
	sw := "switch "
	if len(vars) > 0 {
		sw += strings.Join(vars, ", ") + " := " + strings.Join(vals, ", ") + "; "
	}
	sel := fmt.Sprintf("simrt.Select(%v", hasDef)
	for _, v := range vars {
		sel += ", " + v
	}
	sw += sel + ") {"
	x.add(s.Pos(), s.Body.Lbrace+1, sw)
	for _, c := range cls {
		x.add(c.c.Pos(), c.c.Colon+1, c.head)
	}
}

// unedit removes the edits that replace the communication itself; those of its operands stay.
func (x *xf) unedit(comm ast.Stmt) {
	from, to := x.off(comm.Pos()), x.off(comm.End())
	var inner []ast.Node
	switch m := comm.(type) {
	case *ast.SendStmt:
		inner = []ast.Node{m.Chan, m.Value}
	case *ast.ExprStmt:
		if u, ok := unparen(m.X).(*ast.UnaryExpr); ok {
			inner = []ast.Node{u.X}
		}
	case *ast.AssignStmt:
		if u, ok := unparen(m.Rhs[0]).(*ast.UnaryExpr); ok {
			inner = []ast.Node{u.X}
		}
		for _, l := range m.Lhs {
			inner = append(inner, l)
		}
	}
	var keep []edit
	for _, e := range x.edits {
		if e.pos >= from && e.end <= to {
			in := false
			for _, n := range inner {
				if e.pos >= x.off(n.Pos()) && e.end <= x.off(n.End()) {
					in = true
				}
			}
			if !in {
				continue
			}
		}
		keep = append(keep, e)
	}
	x.edits = keep
}
