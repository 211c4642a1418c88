// simrewrite copies the recorder's source tree and selected third-party packages into a build directory and
// redirects goroutines, channels, locks, clocks, files, sockets, signals and randomness to package simrt.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"simrewrite/astutil"
)

type listPkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Imports    []string
	Standard   bool
	Export     string
	EmbedFiles []string
	Module     *struct{ Path, Dir, Version string }
}

var (
	repo  = flag.String("repo", "/repo", "")
	out   = flag.String("out", "", "")
	mod   = "github.com/bigbluebutton/bbb-webrtc-recorder"
	fset  = token.NewFileSet()
	exp   = map[string]string{}
	srcP  = map[string]*types.Package{}
	gcImp types.Importer
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simrewrite: "+f+"\n", a...)
	os.Exit(2)
}

func golist(args ...string) []*listPkg {
	cmd := exec.Command("go", append([]string{"list"}, args...)...)
	cmd.Dir = *repo
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, eb.String())
	}
	var r []*listPkg
	d := json.NewDecoder(bytes.NewReader(b))
	for {
		p := &listPkg{}
		if err := d.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		r = append(r, p)
	}
	return r
}

type imp struct{}

func (imp) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p := srcP[path]; p != nil {
		return p, nil
	}
	return gcImp.Import(path)
}

// third-party packages that are instrumented (package path -> statement points too?)
var third = []string{
	"github.com/gomodule/redigo/redis",
	"github.com/at-wat/ebml-go/mkvcore",
	"github.com/livekit/server-sdk-go/v2/pkg/jitter",
}

func main() {
	flag.Parse()
	all := golist("-deps", "-json=ImportPath,Dir,GoFiles,Imports,Standard,EmbedFiles,Module", "./internal/...", "./web/...", "./cmd/...")
	byPath := map[string]*listPkg{}
	var ext []string
	var repoPk []*listPkg
	for _, p := range all {
		byPath[p.ImportPath] = p
		if p.ImportPath == mod || strings.HasPrefix(p.ImportPath, mod+"/") {
			repoPk = append(repoPk, p)
		}
		if (len(p.EmbedFiles) > 0 || len(repoPk) == 0 || repoPk[len(repoPk)-1] != p) && p.ImportPath != "unsafe" {
			ext = append(ext, p.ImportPath)
		}
	}
	for _, p := range golist(append([]string{"-export", "-json=ImportPath,Export"}, ext...)...) {
		exp[p.ImportPath] = p.Export
	}
	gcImp = importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exp[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})

	src := filepath.Join(*out, "src")
	must(os.MkdirAll(src, 0755))
	for _, f := range []string{"go.mod", "go.sum"} {
		copyFile(filepath.Join(*repo, f), filepath.Join(src, f))
	}
	var order []string
	for _, p := range repoPk { // go list -deps is in dependency order
		rel, _ := filepath.Rel(*repo, p.Dir)
		dst := filepath.Join(src, rel)
		must(os.MkdirAll(dst, 0755))
		if len(p.EmbedFiles) > 0 {
			for _, f := range append(append([]string{}, p.GoFiles...), p.EmbedFiles...) {
				copyFile(filepath.Join(p.Dir, f), filepath.Join(dst, f))
			}
			continue
		}
		if strings.HasPrefix(p.ImportPath, mod+"/cmd") {
			continue
		}
		rewrite(p, dst, true)
		order = append(order, p.ImportPath)
	}

	// third-party modules
	mods := map[string]string{} // module path -> dir in build
	for _, t := range third {
		p := byPath[t]
		if p == nil {
			continue // no longer used
		}
		mods[p.Module.Path] = copyModule(p.Module.Path, p.Module.Dir)
	}
	for _, m := range []string{"github.com/pion/webrtc/v3", "github.com/sirupsen/logrus"} {
		if p := byPath[m]; p != nil {
			mods[m] = copyModule(m, p.Module.Dir)
			stub(p, mods[m])
		}
	}
	if p := byPath["github.com/livekit/server-sdk-go/v2"]; p != nil {
		mods[p.Module.Path] = copyModule(p.Module.Path, p.Module.Dir)
		stub(p, mods[p.Module.Path])
	}
	for _, t := range third {
		if p := byPath[t]; p != nil {
			rel, _ := filepath.Rel(p.Module.Dir, p.Dir)
			rewrite(p, filepath.Join(mods[p.Module.Path], rel), false)
		}
	}
	// go.mod
	gm, _ := os.ReadFile(filepath.Join(src, "go.mod"))
	var b bytes.Buffer
	b.Write(gm)
	b.WriteString("\nrequire simrt v0.0.0\nreplace simrt => ../rt\n")
	var mk []string
	for m := range mods {
		mk = append(mk, m)
	}
	sort.Strings(mk)
	for _, m := range mk {
		r, _ := filepath.Rel(src, mods[m])
		fmt.Fprintf(&b, "replace %s => %s\n", m, r)
		// the copied module refers to simrt
		f := filepath.Join(mods[m], "go.mod")
		g, err := os.ReadFile(f)
		if err != nil {
			g = []byte("module " + m + "\n\ngo 1.21\n")
		}
		g = append(bumpGo(g), []byte("\nrequire simrt v0.0.0\n")...)
		must(os.WriteFile(f, g, 0644))
	}
	must(os.WriteFile(filepath.Join(src, "go.mod"), b.Bytes(), 0644))

	// boot package
	b.Reset()
	b.WriteString("package boot\n\nimport (\n")
	for i, p := range order {
		fmt.Fprintf(&b, "\tp%d %q\n", i, p)
	}
	b.WriteString(")\n\n// Reset gives every package variable its initial value and runs the init functions, in dependency order,\n// except those of the application package, which are its main program.\nfunc Reset() {\n")
	app := -1
	for i, p := range order {
		fmt.Fprintf(&b, "\tp%d.SimReset()\n", i)
		if p == mod+"/internal/app" {
			app = i
		} else {
			fmt.Fprintf(&b, "\tp%d.SimInit()\n", i)
		}
	}
	if app < 0 {
		die("application package not found")
	}
	fmt.Fprintf(&b, "}\n\n// Main is the application's main program.\nfunc Main() { p%d.SimInit() }\n", app)
	must(os.MkdirAll(filepath.Join(src, "internal/zzsimboot"), 0755))
	must(os.WriteFile(filepath.Join(src, "internal/zzsimboot/boot.go"), b.Bytes(), 0644))
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func copyFile(a, b string) {
	must(os.MkdirAll(filepath.Dir(b), 0755))
	d, err := os.ReadFile(a)
	must(err)
	must(os.WriteFile(b, d, 0644))
}

func copyModule(m, dir string) string {
	dst := filepath.Join(*out, "mods", strings.NewReplacer("/", "_", ".", "_").Replace(m))
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		must(err)
		rel, _ := filepath.Rel(dir, p)
		if fi.IsDir() {
			if b := filepath.Base(p); rel != "." && (b == "examples" || b == "testdata" || strings.HasPrefix(b, ".")) {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, "_test.go") || !(strings.HasSuffix(p, ".go") || filepath.Base(p) == "go.mod" || filepath.Base(p) == "go.sum" || strings.HasSuffix(p, ".s")) {
			return nil
		}
		copyFile(p, filepath.Join(dst, rel))
		return nil
	})
	return dst
}

// ---- stubs: named functions are removed from the copied package; a stub file supplies them ----

func stub(p *listPkg, dir string) {
	name := strings.NewReplacer("/", "_", ".", "_").Replace(p.ImportPath)
	sd := filepath.Join(*out, "stubs", name)
	ents, err := os.ReadDir(sd)
	must(err)
	have := map[string]bool{}
	fs := token.NewFileSet()
	for _, e := range ents {
		f, err := parser.ParseFile(fs, filepath.Join(sd, e.Name()), nil, 0)
		must(err)
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				have[declKey(fd)] = true
			}
		}
		copyFile(filepath.Join(sd, e.Name()), filepath.Join(dir, "zz_sim_"+e.Name()))
	}
	for _, gf := range p.GoFiles {
		fn := filepath.Join(p.Dir, gf)
		f, err := parser.ParseFile(fs, fn, nil, parser.SkipObjectResolution)
		must(err)
		var keep []ast.Decl
		removed := false
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && have[declKey(fd)] && fd.Name.Name != "init" {
				removed = true
				continue
			}
			keep = append(keep, d)
		}
		if !removed {
			continue
		}
		f.Decls = keep
		cleanImports(f, nil)
		var b bytes.Buffer
		must(printer.Fprint(&b, fs, f))
		must(os.WriteFile(filepath.Join(dir, gf), b.Bytes(), 0644))
	}
}

func declKey(fd *ast.FuncDecl) string {
	k := fd.Name.Name
	if fd.Recv != nil && len(fd.Recv.List) == 1 {
		t := fd.Recv.List[0].Type
		if s, ok := t.(*ast.StarExpr); ok {
			t = s.X
		}
		if id, ok := t.(*ast.Ident); ok {
			k = id.Name + "." + k
		}
	}
	return k
}

// importName returns the name an import is referred to by; base guesses when the package name is unknown.
func importName(s *ast.ImportSpec, known map[string]string) string {
	if s.Name != nil {
		return s.Name.Name
	}
	path := strings.Trim(s.Path.Value, `"`)
	if n, ok := known[path]; ok {
		return n
	}
	parts := strings.Split(path, "/")
	n := parts[len(parts)-1]
	if len(n) >= 2 && n[0] == 'v' && n[1] >= '0' && n[1] <= '9' && len(parts) > 1 {
		n = parts[len(parts)-2]
	}
	n = strings.TrimPrefix(n, "go-")
	return n
}

func cleanImports(f *ast.File, known map[string]string) {
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				used[id.Name] = true
			}
		}
		return true
	})
	var decls []ast.Decl
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		var specs []ast.Spec
		for _, s := range gd.Specs {
			is := s.(*ast.ImportSpec)
			n := importName(is, known)
			if n == "_" || n == "." || used[n] {
				specs = append(specs, s)
			}
		}
		if len(specs) > 0 {
			gd.Specs = specs
			decls = append(decls, gd)
		}
	}
	f.Decls = decls
}

// ---- rewriting ----

var table = map[string]map[string]string{
	"time": id("Now Since Until Sleep After AfterFunc NewTimer NewTicker Tick Timer Ticker"),
	"sync": id("Mutex RWMutex WaitGroup Once Cond NewCond Map Pool Locker OnceFunc OnceValue OnceValues"),
	"context": merge(id("WithCancel WithCancelCause WithDeadline WithDeadlineCause WithTimeout WithTimeoutCause Cause"),
		map[string]string{"AfterFunc": "CtxAfterFunc"}),
	"os":            id("OpenFile Open Create Stat Lstat Mkdir MkdirAll Remove RemoveAll Rename Link Truncate Chmod ReadFile WriteFile CreateTemp ReadDir File Stdin Stdout Stderr Exit Getpid SameFile DirFS"),
	"io/ioutil":     id("ReadFile WriteFile"),
	"path/filepath": id("EvalSymlinks"),
	"os/signal":     {"Notify": "SignalNotify", "Stop": "SignalStop", "NotifyContext": "SignalNotifyContext", "Reset": "SignalReset", "Ignore": "SignalIgnore", "Ignored": "SignalIgnored"},
	"net":           id("Dial DialTimeout Dialer Listen"),
	"net/http":      {"Handle": "HTTPHandle", "HandleFunc": "HTTPHandleFunc", "ListenAndServe": "HTTPListenAndServe", "Server": "HTTPServer", "Serve": "HTTPServe", "Dir": "HTTPDir", "ServeFile": "HTTPServeFile"},
	"maps":          {"Keys": "MapsKeys", "Values": "MapsValues", "All": "MapsAll"},
	"math/rand":     randTab(),
	"math/rand/v2":  merge(randTab(), map[string]string{"IntN": "RandIntn", "Int64": "RandInt63", "Int32": "RandInt31", "Uint64": "RandUint64", "Int64N": "RandInt63n", "Int32N": "RandInt31n", "N": "RandN", "UintN": "RandUintN", "Uint32N": "RandUint32N", "Uint64N": "RandUint64N"}),
	"crypto/rand":   {"Read": "RandRead", "Reader": "RandReader"},
	"runtime":       id("Gosched NumGoroutine"),
	"fmt":           id("Print Printf Println"),
}

func id(s string) map[string]string {
	m := map[string]string{}
	for _, x := range strings.Fields(s) {
		m[x] = x
	}
	return m
}
func merge(a, b map[string]string) map[string]string {
	for k, v := range b {
		a[k] = v
	}
	return a
}
func randTab() map[string]string {
	m := map[string]string{}
	for _, x := range strings.Fields("Uint32 Uint64 Int63 Int31 Int Intn Int31n Int63n Float64 Float32 Perm Shuffle Seed Read") {
		m[x] = "Rand" + x
	}
	return m
}

const rt = "simrt_"

func sel(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent(rt), Sel: ast.NewIdent(name)}
}
func call(fn ast.Expr, args ...ast.Expr) *ast.CallExpr  { return &ast.CallExpr{Fun: fn, Args: args} }
func rcall(name string, args ...ast.Expr) *ast.CallExpr { return call(sel(name), args...) }

type rw struct {
	info  *types.Info
	pkg   *types.Package
	own   bool
	skip  map[ast.Node]bool
	kind  map[ast.Node]string
	n     int
	point map[ast.Stmt]bool
}

func (r *rw) tmp(p string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("_sim%s%d", p, r.n))
}

func (r *rw) typ(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	u := t.Underlying()
	if i, ok := u.(*types.Interface); ok {
		// type parameter with a core type
		if tp, ok := t.(*types.TypeParam); ok {
			_ = tp
			if i.NumEmbeddeds() == 1 {
				if un, ok := i.EmbeddedType(0).(*types.Union); ok && un.Len() == 1 {
					return un.Term(0).Type().Underlying()
				}
			}
		}
	}
	return u
}

func isChan(t types.Type) bool { _, ok := under(t).(*types.Chan); return ok }
func isMap(t types.Type) bool  { _, ok := under(t).(*types.Map); return ok }

func rewrite(p *listPkg, dst string, own bool) {
	var files []*ast.File
	for _, gf := range p.GoFiles {
		f, err := parser.ParseFile(fset, filepath.Join(p.Dir, gf), nil, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, f)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
		Instances: map[*ast.Ident]types.Instance{}, Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	var errs []error
	conf := types.Config{Importer: imp{}, Error: func(e error) { errs = append(errs, e) }}
	pkg, _ := conf.Check(p.ImportPath, fset, files, info)
	if len(errs) > 0 {
		die("%s: %v", p.ImportPath, errs[0])
	}
	if own {
		srcP[p.ImportPath] = pkg
	}
	known := map[string]string{}
	for _, ip := range pkg.Imports() {
		known[ip.Path()] = ip.Name()
	}
	r := &rw{info: info, pkg: pkg, own: own, skip: map[ast.Node]bool{}, kind: map[ast.Node]string{}}

	// package variables in initialisation order
	type vinit struct {
		file int
		fn   string
	}
	var vinits []vinit
	var zeros []string
	fileOf := func(pos token.Pos) int {
		for i, f := range files {
			if f.FileStart <= pos && pos < f.FileEnd {
				return i
			}
		}
		return -1
	}
	type pend struct {
		file int
		decl *ast.FuncDecl
		spec *ast.ValueSpec
		idx  int
	}
	// where the initialiser of a package variable is
	specOf := func(rhs ast.Expr) (*ast.ValueSpec, int) {
		for _, f := range files {
			for _, d := range f.Decls {
				if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
					for _, s := range gd.Specs {
						for i, v := range s.(*ast.ValueSpec).Values {
							if v == rhs {
								return s.(*ast.ValueSpec), i
							}
						}
					}
				}
			}
		}
		die("%s: initialiser not found", fset.Position(rhs.Pos()))
		return nil, 0
	}
	var add []pend
	ninit := 0
	var inits []string
	if own {
		initd := map[types.Object]bool{}
		for i, in := range info.InitOrder {
			var lhs []ast.Expr
			blank := true
			for _, v := range in.Lhs {
				initd[v] = true
				lhs = append(lhs, ast.NewIdent(v.Name()))
				if v.Name() != "_" {
					blank = false
				}
			}
			if blank {
				continue
			}
			fi := fileOf(in.Rhs.Pos())
			fn := fmt.Sprintf("simVar%d", i)
			sp, si := specOf(in.Rhs)
			add = append(add, pend{fi, &ast.FuncDecl{Name: ast.NewIdent(fn), Type: &ast.FuncType{Params: &ast.FieldList{}},
				Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{in.Rhs}}}}}, sp, si})
			vinits = append(vinits, vinit{fi, fn})
		}
		for _, n := range pkg.Scope().Names() {
			if v, ok := pkg.Scope().Lookup(n).(*types.Var); ok && !initd[v] && n != "_" {
				zeros = append(zeros, n)
			}
		}
	}
	for i, f := range files {
		if own {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
					n := fmt.Sprintf("simInit%d", ninit)
					ninit++
					fd.Name = ast.NewIdent(n)
					inits = append(inits, n)
				}
			}
		}
		r.file(f)
		// attach variable initialisers, as rewritten
		for _, a := range add {
			if a.file == i {
				a.decl.Body.List[0].(*ast.AssignStmt).Rhs[0] = a.spec.Values[a.idx]
				f.Decls = append(f.Decls, a.decl)
			}
		}
		cleanImports(f, known)
		imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent(rt), Path: &ast.BasicLit{Kind: token.STRING, Value: `"simrt"`}}}}
		f.Decls = append([]ast.Decl{imp}, f.Decls...)
		f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{sel("P")}}}})
		var b bytes.Buffer
		if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent | printer.SourcePos, Tabwidth: 8}).Fprint(&b, fset, f); err != nil {
			die("print: %v", err)
		}
		os.MkdirAll(dst, 0755)
		must(os.WriteFile(filepath.Join(dst, p.GoFiles[i]), b.Bytes(), 0644))
	}
	if own {
		var b bytes.Buffer
		fmt.Fprintf(&b, "package %s\n\nimport simrt_ \"simrt\"\n\nvar _ = simrt_.P\n\nfunc SimReset() {\n", pkg.Name())
		for _, z := range zeros {
			fmt.Fprintf(&b, "\tsimrt_.Zero(&%s)\n", z)
		}
		for _, v := range vinits {
			fmt.Fprintf(&b, "\t%s()\n", v.fn)
		}
		b.WriteString("}\n\nfunc SimInit() {\n")
		for _, n := range inits {
			fmt.Fprintf(&b, "\t%s()\n", n)
		}
		b.WriteString("}\n")
		must(os.WriteFile(filepath.Join(dst, "zz_sim.go"), b.Bytes(), 0644))
	}
}

func (r *rw) file(f *ast.File) {
	for di, d := range f.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
			continue
		}
		f.Decls[di] = astutil.Apply(d, r.pre, r.post).(ast.Decl)
	}
}

func (r *rw) pre(c *astutil.Cursor) bool {
	switch n := c.Node().(type) {
	case *ast.SelectStmt:
		for _, cl := range n.Body.List {
			switch s := cl.(*ast.CommClause).Comm.(type) {
			case *ast.SendStmt:
				r.skip[s] = true
			case *ast.ExprStmt:
				r.skip[unparen(s.X)] = true
			case *ast.AssignStmt:
				r.skip[unparen(s.Rhs[0])] = true
				r.skip[s] = true
			}
		}
	case *ast.UnaryExpr:
		if n.Op == token.ARROW && !r.skip[n] && r.kind[n] == "" {
			r.kind[n] = "recv"
		}
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 && !r.skip[n] {
			if u, ok := unparen(n.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				r.kind[u] = "recv2"
				r.skip[u] = false
			}
		}
		if r.own {
			for _, l := range n.Lhs {
				if ix, ok := unparen(l).(*ast.IndexExpr); ok && isMap(r.typ(ix.X)) {
					r.skip[ix] = true
					if pure(ix.X) {
						r.kind[n] = "mapw"
					}
				}
			}
		}
	case *ast.IncDecStmt:
		if ix, ok := unparen(n.X).(*ast.IndexExpr); ok && r.own && isMap(r.typ(ix.X)) {
			r.skip[ix] = true
			if pure(ix.X) {
				r.kind[n] = "mapw"
			}
		}
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			if u, ok := unparen(n.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				r.kind[u] = "recv2"
			}
		}
	case *ast.RangeStmt:
		t := r.typ(n.X)
		if isChan(t) {
			r.kind[n] = "chan"
		} else if isMap(t) {
			r.kind[n] = "map"
		}
	case *ast.IndexExpr:
		if r.own && !r.skip[n] && isMap(r.typ(n.X)) {
			r.kind[n] = "mapr"
		}
	case *ast.CallExpr:
		if id, ok := unparen(n.Fun).(*ast.Ident); ok {
			if b, ok := r.info.Uses[id].(*types.Builtin); ok && len(n.Args) >= 1 {
				switch {
				case b.Name() == "close":
					r.kind[n] = "close"
				case b.Name() == "len" && isChan(r.typ(n.Args[0])):
					r.kind[n] = "chanlen"
				case b.Name() == "delete" && r.own && pure(n.Args[0]):
					r.kind[n] = "delete"
				}
			}
		}
	case *ast.GoStmt:
		r.skip[n.Call] = true
		// builtin or conversion in a go statement: wrapped in a closure
		k := "general"
		fun := unparen(n.Call.Fun)
		if _, ok := fun.(*ast.FuncLit); ok && len(n.Call.Args) == 0 {
			k = "lit"
		}
		var idn *ast.Ident
		switch x := fun.(type) {
		case *ast.Ident:
			idn = x
		case *ast.SelectorExpr:
			idn = x.Sel
		}
		if idn != nil {
			switch o := r.info.Uses[idn].(type) {
			case *types.Builtin:
				k = "closure"
			case *types.Func:
				if o.Type().(*types.Signature).Recv() == nil {
					k = "pkgfunc"
				}
			}
		}
		if len(n.Call.Args) == 1 {
			if tv, ok := r.info.Types[n.Call.Args[0]]; ok {
				if _, ok := tv.Type.(*types.Tuple); ok {
					k = "closure"
				}
			}
		}
		var inl []string
		for _, a := range n.Call.Args {
			tv := r.info.Types[a]
			if tv.IsNil() || tv.Value != nil {
				inl = append(inl, "i")
			} else if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
				inl = append(inl, "i")
			} else if _, ok := unparen(a).(*ast.FuncLit); ok {
				inl = append(inl, "i")
			} else {
				inl = append(inl, "t")
			}
		}
		r.kind[n] = k + ":" + strings.Join(inl, "")
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				if t := table[pn.Imported().Path()]; t != nil {
					if to, ok := t[n.Sel.Name]; ok {
						r.kind[n] = "sel:" + to
					}
				}
			}
		}
	}
	return true
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// pure reports whether evaluating e twice is harmless.
func pure(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return pure(x.X)
	case *ast.ParenExpr:
		return pure(x.X)
	case *ast.StarExpr:
		return pure(x.X)
	}
	return false
}

func (r *rw) post(c *astutil.Cursor) bool {
	switch n := c.Node().(type) {
	case *ast.SelectorExpr:
		if k := r.kind[n]; strings.HasPrefix(k, "sel:") {
			id := n.X.(*ast.Ident)
			nid := &ast.Ident{Name: rt, NamePos: id.NamePos}
			c.Replace(&ast.SelectorExpr{X: nid, Sel: &ast.Ident{Name: k[4:], NamePos: n.Sel.NamePos}})
		}
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			switch r.kind[n] {
			case "recv":
				c.Replace(rcall("Recv", n.X))
			case "recv2":
				c.Replace(rcall("Recv2", n.X))
			}
		}
	case *ast.SendStmt:
		if !r.skip[n] {
			c.Replace(&ast.ExprStmt{X: call(&ast.SelectorExpr{X: rcall("ChS", n.Chan), Sel: ast.NewIdent("Send")}, n.Value)})
		}
	case *ast.CallExpr:
		switch r.kind[n] {
		case "close":
			c.Replace(rcall("Close", n.Args...))
		case "chanlen":
			c.Replace(rcall("ChanLen", n.Args...))
		}
	case *ast.IndexExpr:
		if r.kind[n] == "mapr" {
			n.X = rcall("MapR", n.X)
		}
	case *ast.RangeStmt:
		switch r.kind[n] {
		case "chan":
			c.Replace(r.rangeChan(n))
		case "map":
			c.Replace(r.rangeMap(n))
		}
	case *ast.SelectStmt:
		c.Replace(r.selectStmt(n))
	case *ast.GoStmt:
		c.Replace(r.goStmt(n))
	case *ast.BlockStmt:
		n.List = r.points(n.List)
	case *ast.CaseClause:
		n.Body = r.points(n.Body)
	}
	return true
}

func (r *rw) points(in []ast.Stmt) []ast.Stmt {
	if !r.own {
		return in
	}
	var o []ast.Stmt
	for _, s := range in {
		switch x := s.(type) {
		case *ast.EmptyStmt, *ast.DeclStmt:
			o = append(o, s)
			continue
		case *ast.CaseClause, *ast.CommClause:
			// the body of a switch or select
			o = append(o, s)
			continue
		case *ast.ExprStmt:
			if ce, ok := x.X.(*ast.CallExpr); ok && r.kind[ce] == "delete" {
				o = append(o, &ast.ExprStmt{X: rcall("MapW", cloneExpr(ce.Args[0]))})
			}
		case *ast.AssignStmt:
			if r.kind[x] == "mapw" {
				for _, l := range x.Lhs {
					if ix, ok := unparen(l).(*ast.IndexExpr); ok && r.skip[ix] && pure(ix.X) {
						o = append(o, &ast.ExprStmt{X: rcall("MapW", cloneExpr(ix.X))})
					}
				}
			}
		case *ast.IncDecStmt:
			if r.kind[x] == "mapw" {
				o = append(o, &ast.ExprStmt{X: rcall("MapW", cloneExpr(unparen(x.X).(*ast.IndexExpr).X))})
			}
		}
		o = append(o, &ast.ExprStmt{X: rcall("P")}, s)
	}
	return o
}

// cloneExpr copies a pure expression without positions.
func cloneExpr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.Ident:
		return ast.NewIdent(x.Name)
	case *ast.SelectorExpr:
		return &ast.SelectorExpr{X: cloneExpr(x.X), Sel: ast.NewIdent(x.Sel.Name)}
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: cloneExpr(x.X)}
	case *ast.StarExpr:
		return &ast.StarExpr{X: cloneExpr(x.X)}
	}
	return e
}

func (r *rw) goStmt(n *ast.GoStmt) ast.Stmt {
	k, inl, _ := strings.Cut(r.kind[n], ":")
	mk := func(body ast.Expr) ast.Expr {
		return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: body}}}}
	}
	switch k {
	case "lit":
		fl := unparen(n.Call.Fun).(*ast.FuncLit)
		if fl.Type.Results == nil || len(fl.Type.Results.List) == 0 {
			return &ast.ExprStmt{X: rcall("Go", fl)}
		}
		return &ast.ExprStmt{X: rcall("Go", mk(n.Call))}
	case "closure":
		return &ast.ExprStmt{X: rcall("Go", mk(n.Call))}
	}
	blk := &ast.BlockStmt{}
	if k == "general" {
		f := r.tmp("f")
		blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{f}, Tok: token.DEFINE, Rhs: []ast.Expr{n.Call.Fun}})
		n.Call.Fun = ast.NewIdent(f.Name)
	}
	for i, a := range n.Call.Args {
		if i < len(inl) && inl[i] == 't' {
			t := r.tmp("a")
			blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
			n.Call.Args[i] = ast.NewIdent(t.Name)
		}
	}
	blk.List = append(blk.List, &ast.ExprStmt{X: rcall("Go", mk(n.Call))})
	return blk
}

func (r *rw) rangeChan(n *ast.RangeStmt) ast.Stmt {
	ok := r.tmp("ok")
	v := r.tmp("v")
	body := &ast.BlockStmt{}
	body.List = append(body.List, &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{rcall("Recv2", ast.NewIdent("_simch"))}})
	body.List = append(body.List, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
	if n.Key != nil && !isBlank(n.Key) {
		body.List = append(body.List, &ast.AssignStmt{Lhs: []ast.Expr{n.Key}, Tok: n.Tok, Rhs: []ast.Expr{ast.NewIdent(v.Name)}})
	} else {
		body.List = append(body.List, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v.Name)}})
	}
	body.List = append(body.List, n.Body)
	return &ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_simch")}, Tok: token.DEFINE, Rhs: []ast.Expr{n.X}}, Body: body}
}

func isBlank(e ast.Expr) bool { i, ok := e.(*ast.Ident); return ok && i.Name == "_" }

func (r *rw) rangeMap(n *ast.RangeStmt) ast.Stmt {
	e := r.tmp("e")
	v := r.tmp("v")
	ok := r.tmp("ok")
	body := &ast.BlockStmt{}
	body.List = append(body.List, &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call(&ast.SelectorExpr{X: ast.NewIdent(e.Name), Sel: ast.NewIdent("Get")})}})
	body.List = append(body.List, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
	body.List = append(body.List, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v.Name)}})
	if n.Key != nil && !isBlank(n.Key) {
		body.List = append(body.List, &ast.AssignStmt{Lhs: []ast.Expr{n.Key}, Tok: n.Tok, Rhs: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(e.Name), Sel: ast.NewIdent("K")}}})
	}
	if n.Value != nil && !isBlank(n.Value) {
		body.List = append(body.List, &ast.AssignStmt{Lhs: []ast.Expr{n.Value}, Tok: n.Tok, Rhs: []ast.Expr{ast.NewIdent(v.Name)}})
	}
	body.List = append(body.List, n.Body)
	x := n.X
	if r.own {
		x = rcall("MapR", x)
	}
	return &ast.RangeStmt{Key: ast.NewIdent("_"), Value: e, Tok: token.DEFINE, X: rcall("MapEntries", x), Body: body}
}

func (r *rw) selectStmt(n *ast.SelectStmt) ast.Stmt {
	if len(n.Body.List) == 0 {
		// a terminating statement, like the select
		return &ast.ForStmt{Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: rcall("BlockForever")}}}}
	}
	var lhs, rhs, args []ast.Expr
	def := "false"
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	idx := 0
	for _, cl := range n.Body.List {
		cc := cl.(*ast.CommClause)
		body := r.points(cc.Body)
		if cc.Comm == nil {
			def = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: body})
			continue
		}
		t := r.tmp("c")
		lhs = append(lhs, t)
		var pre []ast.Stmt
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, call(&ast.SelectorExpr{X: rcall("SC", s.Chan), Sel: ast.NewIdent("With")}, s.Value))
		case *ast.ExprStmt:
			rhs = append(rhs, rcall("RC", unparen(s.X).(*ast.UnaryExpr).X))
		case *ast.AssignStmt:
			rhs = append(rhs, rcall("RC", unparen(s.Rhs[0]).(*ast.UnaryExpr).X))
			vals := []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(t.Name), Sel: ast.NewIdent("V")}}
			if len(s.Lhs) == 2 {
				vals = append(vals, &ast.SelectorExpr{X: ast.NewIdent(t.Name), Sel: ast.NewIdent("Ok")})
			}
			tok := s.Tok
			allBlank := true
			for _, l := range s.Lhs {
				if !isBlank(l) {
					allBlank = false
				}
			}
			if allBlank {
				tok = token.ASSIGN
			}
			pre = append(pre, &ast.AssignStmt{Lhs: s.Lhs, Tok: tok, Rhs: vals})
		}
		args = append(args, ast.NewIdent(t.Name))
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(idx)}}, Body: append(pre, body...)})
		idx++
	}
	if def == "false" {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"select"`})}}})
	}
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	sw.Tag = rcall("Select", append([]ast.Expr{ast.NewIdent(def)}, args...)...)
	return sw
}

// bumpGo raises an old language version of a copied module to one that has generics.
func bumpGo(g []byte) []byte {
	var out []string
	for _, l := range strings.Split(string(g), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "go" {
			var a, b int
			fmt.Sscanf(f[1], "%d.%d", &a, &b)
			if a == 1 && b < 21 {
				l = "go 1.21"
			}
		}
		out = append(out, l)
	}
	return []byte(strings.Join(out, "\n"))
}
