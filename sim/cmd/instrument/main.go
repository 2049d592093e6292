// instrument rewrites the Go packages under test so that their goroutines,
// channels, locks, clocks, map walks, randomness and network go through the
// simulator, and writes the result as a build overlay. The sources on disk are
// not touched.
//
//	instrument -out DIR -main ./cmd/worker -pkgs prefix,prefix
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
)

const simX = "verif.local/sim/x/"

// importMap sends imports of the instrumented packages to stand-ins.
var importMap = map[string]string{
	"sync":                              simX + "sync",
	"sync/atomic":                       simX + "atomic",
	"time":                              simX + "time",
	"log":                               simX + "log",
	"os":                                simX + "os",
	"os/signal":                         simX + "signal",
	"os/exec":                           simX + "exec",
	"runtime":                           simX + "runtime",
	"math/rand":                         simX + "rand",
	"context":                           simX + "context",
	"golang.org/x/net/context":          simX + "context",
	"flag":                              simX + "flag",
	"net":                               simX + "net",
	"net/http":                          simX + "http",
	"google.golang.org/grpc":            simX + "grpc",
	"google.golang.org/grpc/reflection": simX + "reflection",
	"github.com/go-vgo/grpclb":          simX + "grpclb",
	"github.com/go-vgo/gt/conf":         simX + "conf",
	"github.com/go-vgo/zlog/zlog":       simX + "zlog",
	"github.com/shirou/gopsutil/mem":    simX + "mem",
}

// fileSeam sends the file operations of a database library to the simulated
// file system.
var fileSeam = map[string]string{
	"os":                    simX + "fos",
	"io/ioutil":             simX + "fioutil",
	"syscall":               simX + "fsys",
	"golang.org/x/sys/unix": simX + "funix",
}

// modImports overrides importMap in the packages of a module.
var modImports = map[string]map[string]string{
	"github.com/syndtr/goleveldb": fileSeam,
	"go.etcd.io/bbolt":            fileSeam,
	"github.com/dgraph-io/badger": fileSeam,
}

// importsOnly lists modules whose imports are rewritten and nothing else: their
// goroutines stay real (but see guard).
var importsOnly = map[string]bool{"github.com/dgraph-io/badger": true}

type pkgInfo struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	ImportMap  map[string]string
	Standard   bool
	Deps       []string
	Module     *struct{ Path, GoVersion, Dir string }
}

var (
	sites   []string
	sitesMu sync.Mutex
)

func main() {
	out := flag.String("out", "", "output directory")
	mainPkg := flag.String("main", "./cmd/worker", "package whose dependencies are instrumented")
	pkgs := flag.String("pkgs", "", "comma-separated import path prefixes to instrument")
	race := flag.Bool("lines", true, "keep line directives")
	mods := flag.String("mods", "", "comma-separated module paths to copy, instrumented, for use through replace directives")
	modfile := flag.String("modfile", "", "go.mod to list packages with")
	flag.Parse()
	prefixes := strings.Split(*pkgs, ",")
	if err := os.MkdirAll(*out, 0o755); err != nil {
		fatal(err)
	}
	args := []string{"list", "-deps", "-export", "-json=ImportPath,Dir,GoFiles,CgoFiles,Export,ImportMap,Standard,Module"}
	if *modfile != "" {
		args = append(args, "-modfile="+*modfile)
	}
	cmd := exec.Command("go", append(args, *mainPkg)...)
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		fatal(fmt.Errorf("go list: %v", err))
	}
	modDirs := map[string]string{}
	for _, m := range strings.Split(*mods, ",") {
		if m != "" {
			modDirs[m] = ""
		}
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	exports := map[string]string{}
	var targets []*pkgInfo
	for {
		p := new(pkgInfo)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal(err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil {
			if _, ok := modDirs[p.Module.Path]; ok {
				targets = append(targets, p)
				continue
			}
		}
		for _, pre := range prefixes {
			if p.ImportPath == pre || (strings.HasSuffix(pre, "/") && strings.HasPrefix(p.ImportPath, pre)) {
				targets = append(targets, p)
				break
			}
		}
	}
	sort.Slice(targets, func(i, j int) bool { return targets[i].ImportPath < targets[j].ImportPath })
	sites = []string{"?"}
	overlay := map[string]string{}
	for i, p := range targets {
		if p.Module != nil {
			if d, ok := modDirs[p.Module.Path]; ok {
				if d == "" {
					d = filepath.Join(*out, "mods", strings.ReplaceAll(p.Module.Path, "/", "_"))
					modDirs[p.Module.Path] = d
					copyModule(p.Module.Dir, d)
				}
				rel, _ := filepath.Rel(p.Module.Dir, p.Dir)
				if err := instrument(p, exports, filepath.Join(d, rel), nil, *race); err != nil {
					fatal(fmt.Errorf("%s: %v", p.ImportPath, err))
				}
				continue
			}
		}
		if err := instrument(p, exports, filepath.Join(*out, fmt.Sprintf("p%02d", i)), overlay, *race); err != nil {
			fatal(fmt.Errorf("%s: %v", p.ImportPath, err))
		}
	}
	// site table, laid over a placeholder of the simulator
	var sb bytes.Buffer
	sb.WriteString("package dst\n\nfunc init() {\n\tSites = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&sb, "\t\t%q,\n", s)
	}
	sb.WriteString("\t}\n}\n")
	wd, _ := os.Getwd()
	sf := filepath.Join(*out, "sites_gen.go")
	write(sf, sb.Bytes())
	overlay[filepath.Join(wd, "dst", "sites_gen.go")] = sf
	if len(modDirs) > 0 {
		gm, err := os.ReadFile("go.mod")
		if err != nil {
			fatal(err)
		}
		for _, m := range sortedKeys(modDirs) {
			if modDirs[m] != "" {
				abs, _ := filepath.Abs(modDirs[m])
				gm = append(gm, fmt.Sprintf("\nreplace %s => %s\n", m, abs)...)
			}
		}
		gm = bytes.ReplaceAll(gm, []byte("=> ./"), []byte("=> "+wd+"/"))
		write(filepath.Join(*out, "go.mod"), gm)
		gs, err := os.ReadFile("go.sum")
		if err != nil {
			fatal(err)
		}
		write(filepath.Join(*out, "go.sum"), gs)
	}
	ob, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	write(filepath.Join(*out, "overlay.json"), ob)
	fmt.Printf("instrumented %d packages, %d preemption points\n", len(targets), len(sites)-1)
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "instrument:", err)
	os.Exit(2)
}

// write keeps the old file when nothing changed.
func write(path string, b []byte) {
	if old, err := os.ReadFile(path); err == nil && bytes.Equal(old, b) {
		return
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		fatal(err)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fatal(err)
	}
}

// copyModule copies what a build of the module needs (instrumented files are
// written over the copies).
func copyModule(from, to string) {
	err := filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || strings.HasSuffix(p, "_test.go") || !fi.Mode().IsRegular() {
			return nil
		}
		rel, _ := filepath.Rel(from, p)
		dst := filepath.Join(to, rel)
		if st, err := os.Stat(dst); err == nil && strings.HasSuffix(p, ".go") && st.Size() > 0 {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		write(dst, b)
		return nil
	})
	if err != nil {
		fatal(err)
	}
	if _, err := os.Stat(filepath.Join(to, "go.mod")); err != nil {
		fatal(fmt.Errorf("%s has no go.mod", from))
	}
}

type rw struct {
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	n     int // temporaries
	used  bool
	quiet bool       // no steps
	fn    []ast.Node // enclosing functions, innermost last
	short func(token.Pos) string
}

func instrument(p *pkgInfo, exports map[string]string, dir string, overlay map[string]string, lines bool) error {
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	var files []*ast.File
	var names []string
	for _, f := range p.GoFiles {
		full := filepath.Join(p.Dir, f)
		af, err := parser.ParseFile(fset, full, nil, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, af)
		names = append(names, full)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits: map[ast.Node]types.Object{},
	}
	conf := types.Config{Importer: imp, FakeImportC: true, Error: func(error) {}}
	if p.Module != nil && p.Module.GoVersion != "" {
		conf.GoVersion = "go" + p.Module.GoVersion
	}
	pkg, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		return fmt.Errorf("type check: %v", err)
	}
	for i, f := range files {
		hasLinkname := false
		src, _ := os.ReadFile(names[i])
		if bytes.Contains(src, []byte("//go:linkname")) || bytes.Contains(src, []byte("import \"C\"")) || bytes.Contains(src, []byte("//go:embed")) {
			hasLinkname = true
		}
		if hasLinkname {
			continue
		}
		// The protobuf library calls generated code back while it fills caches
		// that outlive a run: a step there would make a run depend on earlier ones.
		r := &rw{fset: fset, info: info, pkg: pkg, quiet: strings.HasSuffix(names[i], ".pb.go")}
		r.short = func(pos token.Pos) string {
			ps := fset.Position(pos)
			return shortName(p, ps.Filename) + ":" + strconv.Itoa(ps.Line)
		}
		r.file(p, f)
		if overlay != nil {
			globals(f)
		}
		var buf bytes.Buffer
		buf.WriteString("//go:build go1.21\n\n")
		mode := printer.TabIndent | printer.UseSpaces
		if lines {
			mode |= printer.SourcePos
		}
		if err := (&printer.Config{Mode: mode, Tabwidth: 8}).Fprint(&buf, fset, f); err != nil {
			return err
		}
		b := buf.Bytes()
		of := filepath.Join(dir, filepath.Base(names[i]))
		write(of, b)
		if overlay != nil {
			overlay[names[i]] = of
		}
	}
	return nil
}

func shortName(p *pkgInfo, file string) string {
	base := filepath.Base(file)
	ip := p.ImportPath
	ip = strings.TrimPrefix(ip, "github.com/go-ego/riot")
	ip = strings.TrimPrefix(ip, "/")
	if strings.HasPrefix(p.ImportPath, "github.com/go-ego/riot") {
		if ip == "" {
			return base
		}
		return ip + "/" + base
	}
	return filepath.Base(p.ImportPath) + "/" + base
}

func (r *rw) file(p *pkgInfo, f *ast.File) {
	f.Comments = nil
	f.Doc = nil
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		if p.Module != nil {
			if to, ok := modImports[p.Module.Path][path]; ok {
				im.Path.Value = strconv.Quote(to)
				continue
			}
			if importsOnly[p.Module.Path] {
				continue
			}
		}
		if to, ok := importMap[path]; ok {
			im.Path.Value = strconv.Quote(to)
		}
	}
	if p.Module != nil && importsOnly[p.Module.Path] {
		guard(f)
		return
	}
	for _, d := range f.Decls {
		r.decl(d)
	}
	// import the simulator
	spec := &ast.ImportSpec{Name: ident("__dst"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif.local/sim/dst"`}}
	imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
	use := &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ident("_")}, Values: []ast.Expr{dsel("Y")}}}}
	f.Decls = append([]ast.Decl{imp}, f.Decls...)
	f.Decls = append(f.Decls, use)
}

// guard makes the goroutines a file starts end quietly when the simulated
// process they belong to is dead.
func guard(f *ast.File) {
	found := false
	ast.Inspect(f, func(n ast.Node) bool {
		if g, ok := n.(*ast.GoStmt); ok {
			if fl, ok := g.Call.Fun.(*ast.FuncLit); ok {
				d := &ast.DeferStmt{Call: call(call(&ast.SelectorExpr{X: ident("__fos"), Sel: ident("Guard")}))}
				fl.Body.List = append([]ast.Stmt{d}, fl.Body.List...)
				found = true
			}
		}
		return true
	})
	if found {
		spec := &ast.ImportSpec{Name: ident("__fos"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(simX + "fos")}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
}

// globals registers the file's package-level variables with the simulator.
func globals(f *ast.File) {
	var body []ast.Stmt
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, sp := range g.Specs {
			for _, n := range sp.(*ast.ValueSpec).Names {
				if n.Name != "_" {
					body = append(body, &ast.ExprStmt{X: call(dsel("Global"), &ast.UnaryExpr{Op: token.AND, X: ident(n.Name)})})
				}
			}
		}
	}
	if len(body) > 0 {
		f.Decls = append(f.Decls, &ast.FuncDecl{Name: ident("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})
	}
}

func ident(s string) *ast.Ident { return &ast.Ident{Name: s} }
func dsel(s string) ast.Expr    { return &ast.SelectorExpr{X: ident("__dst"), Sel: ident(s)} }
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: f, Args: a}
}
func strlit(s string) ast.Expr { return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)} }
func intlit(n int) ast.Expr    { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)} }
func define(lhs ast.Expr, rhs ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.DEFINE, Rhs: []ast.Expr{rhs}}
}

func (r *rw) tmp() string {
	r.n++
	return "__t" + strconv.Itoa(r.n)
}

func (r *rw) y(pos token.Pos) ast.Stmt {
	if r.quiet {
		return &ast.EmptyStmt{}
	}
	sites = append(sites, r.short(pos))
	return &ast.ExprStmt{X: call(dsel("Y"), intlit(len(sites)-1))}
}

func (r *rw) decl(d ast.Decl) {
	switch d := d.(type) {
	case *ast.FuncDecl:
		d.Doc = nil
		if d.Body != nil {
			r.fn = append(r.fn, d)
			r.block(d.Body)
			r.fn = r.fn[:len(r.fn)-1]
		}
	case *ast.GenDecl:
		d.Doc = nil
		for _, s := range d.Specs {
			switch s := s.(type) {
			case *ast.ValueSpec:
				s.Doc, s.Comment = nil, nil
				r.valueSpec(s)
			case *ast.TypeSpec:
				s.Doc, s.Comment = nil, nil
				r.fields(s.Type)
			}
		}
	}
}

// fields drops comments inside type declarations.
func (r *rw) fields(n ast.Node) {
	ast.Inspect(n, func(x ast.Node) bool {
		if f, ok := x.(*ast.Field); ok {
			f.Doc, f.Comment = nil, nil
		}
		return true
	})
}

func (r *rw) valueSpec(s *ast.ValueSpec) {
	if len(s.Names) == 2 && len(s.Values) == 1 {
		if u := recvExpr(s.Values[0]); u != nil {
			s.Values[0] = call(dsel("Recv2"), r.expr(u.X))
			return
		}
	}
	for i := range s.Values {
		s.Values[i] = r.expr(s.Values[i])
	}
}

func recvExpr(e ast.Expr) *ast.UnaryExpr {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (r *rw) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.list(b.List)
}

func (r *rw) list(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		pos := s.Pos()
		skip := false
		if ds, ok := s.(*ast.DeclStmt); ok {
			if gd, ok := ds.Decl.(*ast.GenDecl); ok && gd.Tok != token.VAR {
				skip = true
			}
		}
		if !skip {
			out = append(out, r.y(pos))
		}
		out = append(out, r.stmt(s, nil)...)
	}
	return out
}

// stmt rewrites one statement. label, when set, must end up on the statement
// that break and continue refer to.
func (r *rw) stmt(s ast.Stmt, label *ast.Ident) []ast.Stmt {
	one := func(x ast.Stmt) []ast.Stmt {
		if label != nil {
			x = &ast.LabeledStmt{Label: label, Stmt: x}
		}
		return []ast.Stmt{x}
	}
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.LabeledStmt:
		return r.stmt(s.Stmt, s.Label)
	case *ast.BlockStmt:
		r.block(s)
		return one(s)
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
		return one(s)
	case *ast.SendStmt:
		return one(&ast.ExprStmt{X: call(call(dsel("SendTo"), r.expr(s.Chan)), r.expr(s.Value))})
	case *ast.IncDecStmt:
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		if r.shared(s.X) {
			x := r.expr(s.X)
			t := r.tmp()
			sum := &ast.BinaryExpr{X: ident(t), Op: op, Y: intlit(1)}
			return one(&ast.BlockStmt{List: []ast.Stmt{
				define(ident(t), x), r.y(s.Pos()),
				&ast.AssignStmt{Lhs: []ast.Expr{x}, Tok: token.ASSIGN, Rhs: []ast.Expr{sum}}}})
		}
		s.X = r.expr(s.X)
		return one(s)
	case *ast.AssignStmt:
		return one(r.assign(s))
	case *ast.GoStmt:
		return one(r.goStmt(s))
	case *ast.DeferStmt:
		s.Call = r.expr(s.Call).(*ast.CallExpr)
		return one(s)
	case *ast.ReturnStmt:
		if len(s.Results) == 2 || true {
			for i := range s.Results {
				s.Results[i] = r.expr(s.Results[i])
			}
		}
		return one(s)
	case *ast.BranchStmt, *ast.EmptyStmt:
		return one(s)
	case *ast.IfStmt:
		s.Init = r.simple(s.Init)
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		if s.Else != nil {
			e := r.stmt(s.Else, nil)
			if len(e) == 1 {
				switch x := e[0].(type) {
				case *ast.BlockStmt, *ast.IfStmt:
					s.Else = x
				default:
					s.Else = &ast.BlockStmt{List: e}
				}
			} else {
				s.Else = &ast.BlockStmt{List: e}
			}
		}
		return one(s)
	case *ast.ForStmt:
		pos := s.Pos()
		s.Init = r.simple(s.Init)
		s.Cond = r.expr(s.Cond)
		s.Post = r.simple(s.Post)
		r.block(s.Body)
		if len(s.Body.List) == 0 {
			s.Body.List = []ast.Stmt{r.y(pos)}
		}
		return one(s)
	case *ast.RangeStmt:
		return r.rangeStmt(s, label)
	case *ast.SwitchStmt:
		s.Init = r.simple(s.Init)
		s.Tag = r.expr(s.Tag)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = r.expr(cc.List[i])
			}
			cc.Body = r.list(cc.Body)
		}
		return one(s)
	case *ast.TypeSwitchStmt:
		s.Init = r.simple(s.Init)
		s.Assign = r.simple(s.Assign)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = r.list(cc.Body)
		}
		return one(s)
	case *ast.SelectStmt:
		return r.selectStmt(s, label)
	case *ast.DeclStmt:
		if gd, ok := s.Decl.(*ast.GenDecl); ok {
			r.decl(gd)
		}
		return one(s)
	}
	panic(fmt.Sprintf("unhandled statement %T", s))
}

// simple rewrites the init or post statement of a compound statement, where a
// rewrite into a block is not possible.
func (r *rw) simple(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.AssignStmt:
		r.assignExprs(s)
		return s
	case *ast.IncDecStmt:
		s.X = r.expr(s.X)
		return s
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
		return s
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(call(dsel("SendTo"), r.expr(s.Chan)), r.expr(s.Value))}
	}
	panic(fmt.Sprintf("unhandled simple statement %T", s))
}

func (r *rw) assignExprs(s *ast.AssignStmt) {
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		if u := recvExpr(s.Rhs[0]); u != nil {
			s.Rhs[0] = call(dsel("Recv2"), r.expr(u.X))
			for i := range s.Lhs {
				s.Lhs[i] = r.expr(s.Lhs[i])
			}
			return
		}
	}
	for i := range s.Lhs {
		s.Lhs[i] = r.expr(s.Lhs[i])
	}
	for i := range s.Rhs {
		s.Rhs[i] = r.expr(r.knob(s.Rhs[i]))
	}
}

// knobs are constants the simulation may set: sizes whose shipped values make
// every engine allocate a hundred megabytes and which no run would ever reach.
var knobs = map[string]bool{"defaultDocCacheSize": true}

// knob replaces the use of such a constant as an int.
func (r *rw) knob(e ast.Expr) ast.Expr {
	id, ok := e.(*ast.Ident)
	if !ok || !knobs[id.Name] {
		return e
	}
	if c, ok := r.info.Uses[id].(*types.Const); !ok || c.Parent() != c.Pkg().Scope() {
		return e
	}
	if t, ok := r.info.Types[id]; !ok || t.Type != types.Typ[types.Int] {
		return e
	}
	return call(dsel("Knob"), strlit(id.Name), e)
}

var opOf = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
	token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND,
	token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

// assign splits a read-modify-write of shared memory into its load and its
// store, with a preemption point between them.
func (r *rw) assign(s *ast.AssignStmt) ast.Stmt {
	if len(s.Lhs) != 1 || len(s.Rhs) != 1 || s.Tok == token.DEFINE || !r.shared(s.Lhs[0]) {
		r.assignExprs(s)
		return s
	}
	if op, ok := opOf[s.Tok]; ok {
		if hasCall(s.Rhs[0]) {
			r.assignExprs(s)
			return s
		}
		lhs, rhs := r.expr(s.Lhs[0]), r.expr(s.Rhs[0])
		t := r.tmp()
		return &ast.BlockStmt{List: []ast.Stmt{
			define(ident(t), lhs), r.y(s.Pos()),
			&ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.ASSIGN,
				Rhs: []ast.Expr{&ast.BinaryExpr{X: ident(t), Op: op, Y: &ast.ParenExpr{X: rhs}}}}}}
	}
	if s.Tok != token.ASSIGN {
		r.assignExprs(s)
		return s
	}
	lt, rt := r.info.Types[s.Lhs[0]], r.info.Types[s.Rhs[0]]
	if lt.Type == nil || rt.Type == nil || rt.Value != nil || rt.IsNil() || !types.Identical(lt.Type, rt.Type) {
		r.assignExprs(s)
		return s
	}
	if b, ok := rt.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		r.assignExprs(s)
		return s
	}
	lhs, rhs := r.expr(s.Lhs[0]), r.expr(s.Rhs[0])
	t := r.tmp()
	return &ast.BlockStmt{List: []ast.Stmt{
		define(ident(t), rhs), r.y(s.Pos()),
		&ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.ASSIGN, Rhs: []ast.Expr{ident(t)}}}}
}

func hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			found = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

// shared tells whether e may denote memory another task can reach and can be
// evaluated twice without effect.
func (r *rw) shared(e ast.Expr) bool {
	if hasCall(e) {
		return false
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.shared(x.X)
	case *ast.Ident:
		if x.Name == "_" {
			return false
		}
		o := r.info.Uses[x]
		if o == nil {
			return false
		}
		if o.Parent() == r.pkg.Scope() {
			return true
		}
		// captured by a function literal
		if len(r.fn) > 0 {
			in := r.fn[len(r.fn)-1]
			if o.Pos() < in.Pos() || o.Pos() > in.End() {
				return true
			}
		}
		return false
	case *ast.SelectorExpr, *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		return true
	}
	return false
}

func (r *rw) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	name := strlit(r.short(s.Pos()))
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		return &ast.ExprStmt{X: call(dsel("Go"), name, r.expr(fl))}
	}
	var pre []ast.Stmt
	isBuiltin := false
	if id, ok := unparen(c.Fun).(*ast.Ident); ok {
		if _, ok := r.info.Uses[id].(*types.Builtin); ok {
			isBuiltin = true
		}
	}
	var args []ast.Expr
	for i, a := range c.Args {
		tv := r.info.Types[a]
		x := r.expr(a)
		c.Args[i] = x
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			args = append(args, x)
			continue
		}
		if tu, ok := tv.Type.(*types.Tuple); ok { // go f(g()): all results of g
			var ts []ast.Expr
			for k := 0; k < tu.Len(); k++ {
				ts = append(ts, ident(r.tmp()))
			}
			pre = append(pre, &ast.AssignStmt{Lhs: ts, Tok: token.DEFINE, Rhs: []ast.Expr{x}})
			args = append(args, ts...)
			continue
		}
		t := r.tmp()
		pre = append(pre, define(ident(t), x))
		args = append(args, ident(t))
	}
	var inner *ast.CallExpr
	if isBuiltin {
		cc := *c
		cc.Args = args
		if id := unparen(c.Fun).(*ast.Ident); id.Name == "close" {
			inner = call(dsel("Close"), args...)
		} else {
			inner = &cc
		}
	} else {
		ft := r.tmp()
		pre = append([]ast.Stmt{define(ident(ft), r.expr(c.Fun))}, pre...)
		inner = &ast.CallExpr{Fun: ident(ft), Args: args}
		if c.Ellipsis.IsValid() {
			inner.Ellipsis = c.Ellipsis
		}
	}
	body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}
	pre = append(pre, &ast.ExprStmt{X: call(dsel("Go"), name, body)})
	return &ast.BlockStmt{List: pre}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rw) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok && tv.Type != nil {
		return tv.Type.Underlying()
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type().Underlying()
		}
	}
	return types.Typ[types.Invalid]
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rw) rangeStmt(s *ast.RangeStmt, label *ast.Ident) []ast.Stmt {
	lab := func(x ast.Stmt) ast.Stmt {
		if label != nil {
			return &ast.LabeledStmt{Label: label, Stmt: x}
		}
		return x
	}
	pos := s.Pos()
	switch r.typeOf(s.X).(type) {
	case *types.Chan:
		t, ok := r.tmp(), r.tmp()
		pre := define(ident(t), r.expr(s.X))
		recv := func() ast.Expr { return call(dsel("Recv2"), ident(t)) }
		r.block(s.Body)
		var f *ast.ForStmt
		if !blank(s.Key) && s.Tok == token.DEFINE {
			f = &ast.ForStmt{
				Init: &ast.AssignStmt{Lhs: []ast.Expr{s.Key, ident(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{recv()}},
				Cond: ident(ok),
				Post: &ast.AssignStmt{Lhs: []ast.Expr{s.Key, ident(ok)}, Tok: token.ASSIGN, Rhs: []ast.Expr{recv()}},
				Body: s.Body}
		} else {
			v := r.tmp()
			var head []ast.Stmt
			lv := ident(v)
			if blank(s.Key) {
				lv = ident("_")
			}
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{lv, ident(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{recv()}},
				&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ident(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
			if !blank(s.Key) {
				head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{r.expr(s.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ident(v)}})
			}
			s.Body.List = append(head, s.Body.List...)
			f = &ast.ForStmt{Body: s.Body}
		}
		return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{pre, lab(f)}}}
	case *types.Map:
		t := r.tmp()
		pre := define(ident(t), call(dsel("MapRange"), r.expr(s.X)))
		okx := &ast.SelectorExpr{X: ident(t), Sel: ident("Ok")}
		r.block(s.Body)
		var lhs []ast.Expr
		var m string
		switch {
		case blank(s.Key) && blank(s.Value):
			lhs, m = []ast.Expr{ident("_")}, "NextK"
		case blank(s.Value):
			lhs, m = []ast.Expr{s.Key}, "NextK"
		case blank(s.Key):
			lhs, m = []ast.Expr{s.Value}, "NextV"
		default:
			lhs, m = []ast.Expr{s.Key, s.Value}, "Next"
		}
		nx := func() ast.Expr { return call(&ast.SelectorExpr{X: ident(t), Sel: ident(m)}) }
		var f *ast.ForStmt
		if s.Tok == token.DEFINE && !(blank(s.Key) && blank(s.Value)) {
			f = &ast.ForStmt{
				Init: &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{nx()}},
				Cond: okx,
				Post: &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{nx()}},
				Body: s.Body}
		} else if blank(s.Key) && blank(s.Value) {
			f = &ast.ForStmt{
				Init: &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{nx()}},
				Cond: okx,
				Post: &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{nx()}},
				Body: s.Body}
		} else {
			var tmps, dst []ast.Expr
			for _, l := range lhs {
				tmps = append(tmps, ident(r.tmp()))
				dst = append(dst, r.expr(l))
			}
			head := []ast.Stmt{
				&ast.AssignStmt{Lhs: tmps, Tok: token.DEFINE, Rhs: []ast.Expr{nx()}},
				&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: okx}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
				&ast.AssignStmt{Lhs: dst, Tok: token.ASSIGN, Rhs: tmps}}
			s.Body.List = append(head, s.Body.List...)
			f = &ast.ForStmt{Body: s.Body}
		}
		if len(s.Body.List) == 0 {
			s.Body.List = []ast.Stmt{r.y(pos)}
		}
		return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{pre, lab(f)}}}
	}
	if s.Tok == token.ASSIGN {
		s.Key, s.Value = r.exprOrNil(s.Key), r.exprOrNil(s.Value)
	}
	s.X = r.expr(s.X)
	r.block(s.Body)
	return []ast.Stmt{lab(s)}
}

func (r *rw) exprOrNil(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	return r.expr(e)
}

func (r *rw) selectStmt(s *ast.SelectStmt, label *ast.Ident) []ast.Stmt {
	if len(s.Body.List) == 0 {
		return []ast.Stmt{&ast.ExprStmt{X: call(dsel("BlockForever"))},
			&ast.ExprStmt{X: call(ident("panic"), strlit("unreachable"))}}
	}
	var pre []ast.Stmt
	var clauses []ast.Stmt
	var cases []ast.Expr
	hasDef := false
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: intlit(1)}}, Body: r.list(cc.Body)})
			continue
		}
		t := r.tmp()
		idx := len(cases)
		cases = append(cases, ident(t))
		var head []ast.Stmt
		v := func(m string) ast.Expr { return call(&ast.SelectorExpr{X: ident(t), Sel: ident(m)}) }
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, define(ident(t), call(call(dsel("SendCase"), r.expr(cm.Chan)), r.expr(cm.Value))))
		case *ast.ExprStmt:
			pre = append(pre, define(ident(t), call(dsel("RecvCase"), r.expr(recvExpr(cm.X).X))))
		case *ast.AssignStmt:
			pre = append(pre, define(ident(t), call(dsel("RecvCase"), r.expr(recvExpr(cm.Rhs[0]).X))))
			m := "V"
			if len(cm.Lhs) == 2 {
				m = "V2"
			}
			lhs := cm.Lhs
			if cm.Tok == token.ASSIGN {
				for i := range lhs {
					lhs[i] = r.expr(lhs[i])
				}
			}
			tok := cm.Tok
			if tok == token.DEFINE {
				all := true
				for _, l := range lhs {
					if !blank(l) {
						all = false
					}
				}
				if all {
					tok = token.ASSIGN
				}
			}
			head = append(head, &ast.AssignStmt{Lhs: lhs, Tok: tok, Rhs: []ast.Expr{v(m)}})
		default:
			panic(fmt.Sprintf("select comm %T", cm))
		}
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{intlit(idx)}, Body: append(head, r.list(cc.Body)...)})
	}
	clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(ident("panic"), strlit("unreachable"))}}})
	b := ident("false")
	if hasDef {
		b = ident("true")
	}
	var sw ast.Stmt = &ast.SwitchStmt{Tag: call(dsel("Select"), append([]ast.Expr{b}, cases...)...), Body: &ast.BlockStmt{List: clauses}}
	if label != nil {
		sw = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, sw)}}
}

// expr rewrites an expression.
func (r *rw) expr(e ast.Expr) ast.Expr {
	if e == nil || reflect.ValueOf(e).IsNil() {
		return nil
	}
	switch e := e.(type) {
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return call(dsel("Recv"), r.expr(e.X))
		}
		e.X = r.expr(e.X)
		return e
	case *ast.BinaryExpr:
		e.X, e.Y = r.expr(e.X), r.expr(e.Y)
		return e
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
		return e
	case *ast.CallExpr:
		if id, ok := unparen(e.Fun).(*ast.Ident); ok && len(e.Args) == 1 {
			if _, ok := r.info.Uses[id].(*types.Builtin); ok {
				switch id.Name {
				case "close":
					return call(dsel("Close"), r.expr(e.Args[0]))
				case "len":
					if ct, ok := r.typeOf(e.Args[0]).(*types.Chan); ok {
						f := "ChanLen"
						if ct.Dir() == types.SendOnly {
							f = "ChanLenS"
						}
						return call(dsel(f), r.expr(e.Args[0]))
					}
				}
			}
		}
		e.Fun = r.expr(e.Fun)
		for i := range e.Args {
			e.Args[i] = r.expr(e.Args[i])
		}
		return e
	case *ast.FuncLit:
		r.fn = append(r.fn, e)
		r.block(e.Body)
		r.fn = r.fn[:len(r.fn)-1]
		return e
	case *ast.CompositeLit:
		for i := range e.Elts {
			e.Elts[i] = r.expr(e.Elts[i])
		}
		return e
	case *ast.KeyValueExpr:
		if _, ok := e.Key.(*ast.Ident); !ok {
			e.Key = r.expr(e.Key)
		}
		e.Value = r.expr(e.Value)
		return e
	case *ast.SelectorExpr:
		e.X = r.expr(e.X)
		return e
	case *ast.IndexExpr:
		e.X, e.Index = r.expr(e.X), r.expr(e.Index)
		return e
	case *ast.SliceExpr:
		e.X = r.expr(e.X)
		if e.Low != nil {
			e.Low = r.expr(e.Low)
		}
		if e.High != nil {
			e.High = r.expr(e.High)
		}
		if e.Max != nil {
			e.Max = r.expr(e.Max)
		}
		return e
	case *ast.StarExpr:
		e.X = r.expr(e.X)
		return e
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
		return e
	}
	return e
}
