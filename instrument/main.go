// Command instrument rewrites the non-test Go files of the given packages of the code under test so that they run
// under the simulator: goroutines, channel operations, selects, map iteration order, statements (preemption points)
// and the packages os, path/filepath, io/ioutil, sync and time go through internal/verifsim. It writes an overlay
// for "go build -overlay"; the repository itself is not touched.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
)

var (
	repo    = flag.String("repo", "/repo", "repository")
	out     = flag.String("out", "", "output directory")
	rt      = flag.String("rt", "", "runtime sources (package verifsim)")
	harness = flag.String("harness", "", "harness sources (package main)")
)

const modSuffix = "/internal/verifsim"

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
	Module     *struct{ Path string }
	Error      *struct{ Err string }
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(3)
}

var shims = map[string]string{
	"os":            "sos",
	"path/filepath": "sfilepath",
	"io":            "sio",
	"io/ioutil":     "sioutil",
	"sync":          "ssync",
	"time":          "stime",
	"flag":          "sflag",
	"log":           "slog",
}

// a main package becomes an importable package at this place below internal/verifsim
const cmdPkg = "gencmd"

var (
	overlay = map[string]string{}
	sites   []string
)

func main() {
	flag.Parse()
	pkgs := flag.Args()
	if len(pkgs) == 0 {
		pkgs = []string{".", "./internal/generator", "./cmd/generate"}
	}
	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,Export,Standard,Module,Error"}, pkgs...)
	args = append(args, "os", "path/filepath", "io", "io/ioutil", "sync", "time", "flag", "log")
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	js, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, stderr.String())
	}
	infos := map[string]*pkgInfo{}
	dec := json.NewDecoder(bytes.NewReader(js))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		q := p
		infos[p.ImportPath] = &q
	}
	fset := token.NewFileSet()
	lookup := func(path string) (io.ReadCloser, error) {
		p := infos[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(p.Export)
	}
	imp := importer.ForCompiler(fset, "gc", lookup)

	var mod string
	var todo []*pkgInfo
	for _, p := range infos {
		if p.Standard || p.Module == nil {
			continue
		}
		rel, err := filepath.Rel(*repo, p.Dir)
		if err != nil || strings.HasPrefix(rel, "..") {
			continue // a dependency outside of the repository
		}
		mod = p.Module.Path
		todo = append(todo, p)
	}
	sort.Slice(todo, func(i, j int) bool { return todo[i].ImportPath < todo[j].ImportPath })
	if mod == "" {
		die("module not found")
	}
	for _, p := range todo {
		instrumentPkg(fset, imp, p, mod)
	}
	// runtime, shims, harness
	sim := filepath.Join(*repo, "internal/verifsim")
	addTree(*rt, sim)
	if *harness != "" {
		addTree(*harness, filepath.Join(sim, "harness"))
	}
	for real, dir := range shims {
		p, err := imp.Import(real)
		if err != nil {
			die("import %s: %v", real, err)
		}
		writeOverlay(filepath.Join(sim, dir, "zz_forward.go"), forward(p, real, filepath.Join(*rt, dir)))
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
	must(os.WriteFile(filepath.Join(*out, "sites.txt"), []byte(strings.Join(sites, "\n")+"\n"), 0o644))
	must(os.WriteFile(filepath.Join(*out, "module.txt"), []byte(mod), 0o644))
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func addTree(from, to string) {
	must(filepath.Walk(from, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if i.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(from, p)
		abs, _ := filepath.Abs(p)
		overlay[filepath.Join(to, rel)] = abs
		return nil
	}))
}

func writeOverlay(path string, data []byte) {
	rel, err := filepath.Rel(*repo, path)
	must(err)
	dst := filepath.Join(*out, "src", rel)
	must(os.MkdirAll(filepath.Dir(dst), 0o755))
	must(os.WriteFile(dst, data, 0o644))
	abs, _ := filepath.Abs(dst)
	overlay[path] = abs
}

// ---------------------------------------------------------------------------------------------------------------

type edit struct {
	pos, end int // replace [pos,end); pos==end: insertion
	text     func() string
	seq      int
	after    bool // insertion that belongs to what ends at pos (rendered before insertions that start here)
}

type filer struct {
	fset  *token.FileSet
	file  *ast.File
	tf    *token.File
	src   []byte
	info  *types.Info
	edits []edit
	n     int
	uses  bool // uses verifsim
	pkg   *types.Package
	name  string
}

var uniq int

func (f *filer) off(p token.Pos) int { return f.tf.Offset(p) }

func (f *filer) ins(p token.Pos, s string) {
	f.n++
	f.edits = append(f.edits, edit{f.off(p), f.off(p), func() string { return s }, f.n, false})
}

// insEnd inserts right after something that ends at p.
func (f *filer) insEnd(p token.Pos, s string) {
	f.n++
	f.edits = append(f.edits, edit{f.off(p), f.off(p), func() string { return s }, -f.n, true})
}

func (f *filer) repl(a, b token.Pos, s string) { f.replF(f.off(a), f.off(b), func() string { return s }) }

func (f *filer) replF(a, b int, s func() string) {
	f.n++
	f.edits = append(f.edits, edit{a, b, s, f.n, false})
}

// render applies the edits that lie inside [a,b).
func (f *filer) render(a, b int, skip *edit) string {
	var es []edit
	for i := range f.edits {
		e := &f.edits[i]
		if skip != nil && e.seq == skip.seq {
			continue
		}
		if e.pos < a || e.end > b {
			continue
		}
		if e.pos == e.end {
			if e.pos == a && e.after {
				continue
			}
			if e.pos == b && !e.after {
				continue
			}
		}
		es = append(es, *e)
	}
	sort.SliceStable(es, func(i, j int) bool {
		x, y := es[i], es[j]
		if x.pos != y.pos {
			return x.pos < y.pos
		}
		// insertions closing something come first (inner ones were registered later: negative seq sorts them first),
		// then opening insertions (outer first), then replacements (outer first)
		kx, ky := kind(x), kind(y)
		if kx != ky {
			return kx < ky
		}
		if kx == 2 && x.end != y.end {
			return x.end > y.end
		}
		return x.seq < y.seq
	})
	var sb strings.Builder
	cur := a
	for _, e := range es {
		if e.pos < cur {
			continue // inside a replaced range
		}
		sb.Write(f.src[cur:e.pos])
		sb.WriteString(e.text())
		cur = e.end
	}
	if cur < b {
		sb.Write(f.src[cur:b])
	}
	return sb.String()
}

func kind(e edit) int {
	switch {
	case e.pos == e.end && e.after:
		return 0
	case e.pos == e.end:
		return 1
	}
	return 2
}

func instrumentPkg(fset *token.FileSet, imp types.Importer, p *pkgInfo, mod string) {
	var files []*ast.File
	var fs []*filer
	for _, name := range p.GoFiles {
		path := filepath.Join(p.Dir, name)
		src, err := os.ReadFile(path)
		must(err)
		af, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
		fs = append(fs, &filer{fset: fset, file: af, tf: fset.File(af.Pos()), src: src, name: path})
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{},
		FileVersions: map[*ast.File]string{},
	}
	conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", runtime.GOARCH)}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("type check: %v", err)
	}
	var reset bytes.Buffer
	var inits []string
	for _, f := range fs {
		f.info, f.pkg = info, tp
		f.walkFile()
		for _, d := range f.file.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" && p.Name == "main" {
				f.repl(fd.Name.Pos(), fd.Name.End(), "VerifMain")
			}
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
				uniq++
				n := fmt.Sprintf("verifInitFn%d", uniq)
				f.repl(fd.Name.Pos(), fd.Name.End(), n)
				inits = append(inits, n)
			}
		}
	}
	// package variables: first the ones without initialiser, then the others in initialisation order
	byFile := map[*token.File]*filer{}
	for _, f := range fs {
		byFile[f.tf] = f
	}
	appended := map[*filer]*strings.Builder{}
	add := func(f *filer, s string) {
		if appended[f] == nil {
			appended[f] = &strings.Builder{}
		}
		appended[f].WriteString(s)
	}
	specOf := map[types.Object]*ast.ValueSpec{}
	for _, f := range fs {
		for _, d := range f.file.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			embed := func(c *ast.CommentGroup) bool {
				if c == nil {
					return false
				}
				for _, l := range c.List {
					if strings.HasPrefix(l.Text, "//go:embed") {
						return true
					}
				}
				return false
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				for _, n := range vs.Names {
					if o := info.Defs[n]; o != nil {
						specOf[o] = vs
					}
				}
				if len(vs.Values) != 0 || embed(gd.Doc) || embed(vs.Doc) {
					continue
				}
				for _, n := range vs.Names {
					if n.Name != "_" {
						fmt.Fprintf(&reset, "\tverifsim.Zero(&%s)\n", n.Name)
					}
				}
			}
		}
	}
	var late bytes.Buffer
	for _, in := range info.InitOrder {
		var names []string
		blank := true
		for _, v := range in.Lhs {
			names = append(names, v.Name())
			if v.Name() != "_" {
				blank = false
			}
		}
		if blank {
			continue
		}
		f := byFile[fset.File(in.Rhs.Pos())]
		a, b := f.off(in.Rhs.Pos()), f.off(in.Rhs.End())
		uniq++
		fn := fmt.Sprintf("verifInit%d", uniq)
		big := b-a > 3000
		if big && len(in.Lhs) == 1 {
			// avoid compiling a big literal twice
			ts, ok := f.typeText(in.Lhs[0].Type())
			if ok {
				txt := f.render(a, b, nil)
				f.edits = append(f.edits, edit{a, b, func() string { return fn + "()" }, -1 << 30, false})
				add(f, fmt.Sprintf("\nfunc %s() %s { return %s }\n", fn, ts, txt))
				fmt.Fprintf(&late, "\tif all {\n\t\t%s = %s()\n\t}\n", names[0], fn)
				continue
			}
		}
		add(f, fmt.Sprintf("\nfunc %s() { %s = %s }\n", fn, strings.Join(names, ", "), f.render(a, b, nil)))
		if big {
			fmt.Fprintf(&late, "\tif all {\n\t\t%s()\n\t}\n", fn)
		} else {
			fmt.Fprintf(&late, "\t%s()\n", fn)
		}
	}
	outDir, outName := p.Dir, p.Name
	if p.Name == "main" {
		outDir, outName = filepath.Join(*repo, "internal/verifsim", cmdPkg), cmdPkg
	}
	for _, f := range fs {
		s := f.render(0, len(f.src), nil)
		shift := 0
		if p.Name == "main" {
			at := f.off(f.file.Name.End())
			s = s[:at-len("main")] + cmdPkg + s[at:]
			shift = len(cmdPkg) - len("main")
		}
		if a := appended[f]; a != nil {
			s += "\n" + a.String()
		}
		// imports
		if f.uses || strings.Contains(s, "verifsim.") {
			at := f.off(f.file.Name.End()) + shift
			// the package clause precedes every edit, so its offset is unchanged
			s = s[:at] + "; import verifsim \"" + mod + modSuffix + "\"" + s[at:]
		}
		s = "//line " + f.name + ":1\n" + s
		// a //line directive must not precede build constraints; keep those first
		if strings.Contains(string(f.src[:f.off(f.file.Package)]), "//go:build") {
			s = strings.TrimPrefix(s, "//line "+f.name+":1\n")
		}
		writeOverlay(filepath.Join(outDir, filepath.Base(f.name)), []byte(s))
	}
	fmt.Fprintf(&late, "\tverifInits()\n")
	var g bytes.Buffer
	fmt.Fprintf(&g, "package %s\n\nimport verifsim %q\n\nvar _ = verifsim.Yield\n\n", outName, mod+modSuffix)
	fmt.Fprintf(&g, "// VerifReset puts the package variables back into their initial state.\nfunc VerifReset(all bool) {\n%s%s}\n\n", reset.String(), late.String())
	fmt.Fprintf(&g, "func verifInits() {\n")
	for _, n := range inits {
		fmt.Fprintf(&g, "\t%s()\n", n)
	}
	fmt.Fprintf(&g, "}\n\nfunc init() { verifInits() }\n")
	writeOverlay(filepath.Join(outDir, "zz_verif_reset.go"), g.Bytes())
}

// typeText writes a type with the import names of the file; ok is false when that is not possible.
func (f *filer) typeText(t types.Type) (string, bool) {
	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p == f.pkg {
			return ""
		}
		for _, im := range f.file.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			if path == p.Path() {
				if im.Name != nil {
					return im.Name.Name
				}
				return p.Name()
			}
		}
		ok = false
		return p.Name()
	})
	return s, ok
}

func (f *filer) y(p token.Pos) string {
	pos := f.fset.Position(p)
	id := len(sites) + 1
	if id >= 1<<15 {
		id = 1<<15 - 1
	} else {
		sites = append(sites, fmt.Sprintf("%d %s:%d", id, pos.Filename, pos.Line))
	}
	f.uses = true
	return fmt.Sprintf("verifsim.Y(%d); ", id)
}

// coreOf is the underlying type that all types of a constraint have in common,
// or the constraint itself if there is none.
func coreOf(c types.Type, depth int) types.Type {
	iface, ok := c.(*types.Interface)
	if !ok || depth > 8 {
		return c
	}
	for i := 0; i < iface.NumEmbeddeds(); i++ {
		switch e := iface.EmbeddedType(i).(type) {
		case *types.Union:
			if e.Len() > 0 {
				return under(e.Term(0).Type())
			}
		default:
			u := e.Underlying()
			if _, nested := u.(*types.Interface); !nested {
				return u
			}
			if r := coreOf(u, depth+1); r != u {
				return r
			}
		}
	}
	return c
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if tp, ok := t.(*types.TypeParam); ok { // a type parameter stands for its core type
		return coreOf(tp.Underlying(), 0)
	}
	return t.Underlying()
}

func (f *filer) typ(e ast.Expr) types.Type {
	if tv, ok := f.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := f.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func isChan(t types.Type) bool { _, ok := under(t).(*types.Chan); return ok }
func isMap(t types.Type) bool  { _, ok := under(t).(*types.Map); return ok }

func (f *filer) walkFile() {
	for _, im := range f.file.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		if sh, ok := shims[path]; ok {
			mod := f.pkg.Path()
			// module path: import path of the package minus its directory inside the repository
			rel, err := filepath.Rel(*repo, filepath.Dir(f.name))
			must(err)
			if rel != "." {
				mod = strings.TrimSuffix(mod, "/"+filepath.ToSlash(rel))
			}
			f.repl(im.Path.Pos(), im.Path.End(), strconv.Quote(mod+modSuffix+"/"+sh))
		}
	}
	two := map[ast.Expr]bool{} // receive expressions in two-value contexts
	comm := map[ast.Node]bool{}
	ast.Inspect(f.file, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				two[unparen(x.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				two[unparen(x.Values[0])] = true
			}
		case *ast.CommClause:
			switch c := x.Comm.(type) {
			case *ast.SendStmt:
				comm[c] = true
			case *ast.ExprStmt:
				comm[unparen(c.X)] = true
			case *ast.AssignStmt:
				comm[unparen(c.Rhs[0])] = true
			}
		}
		return true
	})
	ast.Inspect(f.file, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			f.stmts(x.List)
		case *ast.CaseClause:
			f.stmts(x.Body)
		case *ast.CommClause:
			f.stmts(x.Body)
		case *ast.ForStmt:
			f.ins(x.Body.Lbrace+1, " "+f.y(x.Body.Lbrace))
		case *ast.RangeStmt:
			f.rangeStmt(x)
		case *ast.GoStmt:
			f.goStmt(x)
		case *ast.SendStmt:
			if !comm[x] {
				f.uses = true
				f.ins(x.Chan.Pos(), "verifsim.SendTo(")
				f.repl(x.Chan.End(), x.Value.Pos(), ")(")
				f.insEnd(x.Value.End(), ")")
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !comm[x] {
				f.uses = true
				fn := "verifsim.Recv("
				if two[x] {
					fn = "verifsim.Recv2("
				}
				f.repl(x.OpPos, x.X.Pos(), fn)
				f.insEnd(x.X.End(), ")")
			}
		case *ast.CallExpr:
			if id, ok := unparen(x.Fun).(*ast.Ident); ok && len(x.Args) == 1 {
				if b, ok := f.info.Uses[id].(*types.Builtin); ok && isChan(f.typ(x.Args[0])) {
					switch b.Name() {
					case "close":
						f.uses = true
						f.repl(id.Pos(), id.End(), "verifsim.Close")
					case "len":
						f.uses = true
						f.repl(id.Pos(), id.End(), "verifsim.Len")
					}
				}
			}
		case *ast.SelectStmt:
			f.selectStmt(x)
		}
		return true
	})
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (f *filer) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch x := s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		case *ast.LabeledStmt:
			if _, ok := x.Stmt.(*ast.EmptyStmt); ok {
				continue
			}
		}
		f.ins(s.Pos(), f.y(s.Pos()))
	}
}

func name(e ast.Expr) string {
	if e == nil {
		return "_"
	}
	if id, ok := e.(*ast.Ident); ok {
		return id.Name
	}
	return ""
}

func (f *filer) text(e ast.Node) string { return f.render(f.off(e.Pos()), f.off(e.End()), nil) }

func (f *filer) rangeStmt(x *ast.RangeStmt) {
	t := f.typ(x.X)
	body := " " + f.y(x.Body.Lbrace)
	ch, mp := isChan(t), isMap(t)
	if !ch && !mp {
		f.ins(x.Body.Lbrace+1, body)
		return
	}
	f.uses = true
	uniq++
	u := uniq
	a, b := f.off(x.For), f.off(x.Body.Lbrace)
	pre := ""
	var vars []string
	exprs := []ast.Expr{x.Key, x.Value}
	if ch {
		exprs = exprs[:1]
	}
	define := x.Tok == token.DEFINE
	for i, e := range exprs {
		switch {
		case e == nil || name(e) == "_":
			vars = append(vars, "_")
		case define:
			vars = append(vars, name(e))
		default:
			v := fmt.Sprintf("_vx%d_%d", u, i)
			vars = append(vars, v)
			e := e
			pre += " " + string(f.src[f.off(e.Pos()):f.off(e.End())]) + " = " + v + ";"
		}
	}
	vs := strings.Join(vars, ", ")
	f.replF(a, b, func() string {
		xt := f.render(f.off(x.X.Pos()), f.off(x.X.End()), nil)
		if ch {
			return fmt.Sprintf("for _vc%d, %s, _vok%d := verifsim.RangeChan(%s); _vok%d; %s, _vok%d = verifsim.Recv2(_vc%d) ", u, vs, u, xt, u, vs, u, u)
		}
		return fmt.Sprintf("for _vm%d, %s, _vok%d := verifsim.RangeMap(%s); _vok%d; %s, _vok%d = _vm%d.Next() ", u, vs, u, xt, u, vs, u, u)
	})
	f.ins(x.Body.Lbrace+1, pre+body)
}

func (f *filer) goStmt(x *ast.GoStmt) {
	f.uses = true
	c := x.Call
	fun := unparen(c.Fun)
	if _, lit := fun.(*ast.FuncLit); lit && len(c.Args) == 0 {
		f.repl(x.Go, c.Fun.Pos(), "verifsim.Go(")
		f.repl(c.Lparen, c.Rparen+1, ")")
		return
	}
	if id, ok := fun.(*ast.Ident); ok {
		if _, ok := f.info.Uses[id].(*types.Builtin); ok {
			f.repl(x.Go, c.Pos(), "verifsim.Go(func() { ")
			f.insEnd(c.End(), " })")
			return
		}
	}
	uniq++
	u := uniq
	static := false
	switch y := fun.(type) {
	case *ast.Ident:
		_, static = f.info.Uses[y].(*types.Func)
	case *ast.SelectorExpr:
		if f.info.Selections[y] == nil {
			_, static = f.info.Uses[y.Sel].(*types.Func)
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		static = true
	}
	f.replF(f.off(x.Go), f.off(x.End()), func() string {
		var sb strings.Builder
		sb.WriteString("{ ")
		fn := string(f.src[f.off(c.Fun.Pos()):f.off(c.Fun.End())])
		if !static {
			fmt.Fprintf(&sb, "_vf%d := %s; ", u, f.text(c.Fun))
			fn = fmt.Sprintf("_vf%d", u)
		}
		var args []string
		for i, a := range c.Args {
			tv := f.info.Types[a]
			basic, _ := tv.Type.(*types.Basic)
			if tv.IsNil() || (tv.Value != nil && tv.Value.Kind() != constant.Unknown) || (basic != nil && basic.Info()&types.IsUntyped != 0) {
				args = append(args, string(f.src[f.off(a.Pos()):f.off(a.End())]))
				continue
			}
			fmt.Fprintf(&sb, "_va%d_%d := %s; ", u, i, f.text(a))
			args = append(args, fmt.Sprintf("_va%d_%d", u, i))
		}
		dots := ""
		if c.Ellipsis.IsValid() {
			dots = "..."
		}
		fmt.Fprintf(&sb, "verifsim.Go(func() { %s(%s%s) }) }", fn, strings.Join(args, ", "), dots)
		return sb.String()
	})
}

func (f *filer) selectStmt(x *ast.SelectStmt) {
	f.uses = true
	if len(x.Body.List) == 0 {
		f.repl(x.Select, x.End(), "verifsim.Block()")
		return
	}
	uniq++
	u := uniq
	hasDef := false
	type cs struct {
		cc   *ast.CommClause
		make func() string
	}
	var cases []cs
	for _, st := range x.Body.List {
		cc := st.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			continue
		}
		i := len(cases)
		v := fmt.Sprintf("_vs%d_%d", u, i)
		head := fmt.Sprintf("case %d:", i)
		var mk func() string
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			mk = func() string { return "verifsim.SelSend(" + f.text(c.Chan) + ")(" + f.text(c.Value) + ")" }
		case *ast.ExprStmt:
			r := unparen(c.X).(*ast.UnaryExpr)
			mk = func() string { return "verifsim.SelRecv(" + f.text(r.X) + ")" }
		case *ast.AssignStmt:
			r := unparen(c.Rhs[0]).(*ast.UnaryExpr)
			mk = func() string { return "verifsim.SelRecv(" + f.text(r.X) + ")" }
			get := v + ".V()"
			if len(c.Lhs) == 2 {
				get = v + ".Get()"
			}
			var l []string
			for _, e := range c.Lhs {
				l = append(l, string(f.src[f.off(e.Pos()):f.off(e.End())]))
			}
			head += " " + strings.Join(l, ", ") + " " + c.Tok.String() + " " + get + ";"
		}
		cases = append(cases, cs{cc, mk})
		f.repl(cc.Case, cc.Colon+1, head)
	}
	f.replF(f.off(x.Select), f.off(x.Body.Lbrace), func() string {
		var ns, es []string
		for i, c := range cases {
			ns = append(ns, fmt.Sprintf("_vs%d_%d", u, i))
			es = append(es, c.make())
		}
		if len(ns) == 0 {
			return fmt.Sprintf("switch verifsim.Select(%v) ", hasDef)
		}
		return fmt.Sprintf("switch %s := %s; verifsim.Select(%v, %s) ", strings.Join(ns, ", "), strings.Join(es, ", "), hasDef, strings.Join(ns, ", "))
	})
	if !hasDef {
		f.ins(x.Body.Rbrace, "default: panic(\"verifsim: unreachable\"); ")
	}
}

// ---------------------------------------------------------------------------------------------------------------

// forward generates a file that forwards every exported identifier of the real package that the shim does not define.
func forward(p *types.Package, path, dir string) []byte {
	have := map[string]bool{}
	fset := token.NewFileSet()
	pkgs, err := parser.ParseDir(fset, dir, nil, 0)
	must(err)
	name := ""
	for n, pk := range pkgs {
		name = n
		for _, f := range pk.Files {
			for _, d := range f.Decls {
				switch x := d.(type) {
				case *ast.FuncDecl:
					if x.Recv == nil {
						have[x.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range x.Specs {
						switch y := s.(type) {
						case *ast.TypeSpec:
							have[y.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range y.Names {
								have[n.Name] = true
							}
						}
					}
				}
			}
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport real %q\n\n", name, path)
	used := false
	sc := p.Scope()
	for _, n := range sc.Names() {
		o := sc.Lookup(n)
		if !o.Exported() || have[n] {
			continue
		}
		switch x := o.(type) {
		case *types.TypeName:
			if nt, ok := x.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = real.%s\n", n, n)
		case *types.Const:
			fmt.Fprintf(&b, "const %s = real.%s\n", n, n)
		case *types.Func:
			if x.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		}
		used = true
	}
	if !used {
		return []byte("package " + name + "\n")
	}
	return b.Bytes()
}
