package main

import (
	"bytes"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/nginxinc/nginx-go-crossplane/internal/generator"
	sim "github.com/nginxinc/nginx-go-crossplane/internal/verifsim"
)

// C16: the table generator over source trees on the simulated disk.

// gdef is one directive definition in a source file.
type gdef struct {
	name  string
	masks []string // Go names
	bad   bool     // a mask the generator does not know
}

// gfile is one file of the source tree.
type gfile struct {
	path string
	text string
	defs []gdef
	src  bool // .c or .cpp
}

var gMasks = [][2]string{
	{"NGX_HTTP_MAIN_CONF", "ngxHTTPMainConf"}, {"NGX_HTTP_SRV_CONF", "ngxHTTPSrvConf"}, {"NGX_HTTP_LOC_CONF", "ngxHTTPLocConf"},
	{"NGX_CONF_TAKE1", "ngxConfTake1"}, {"NGX_CONF_TAKE12", "ngxConfTake12"}, {"NGX_CONF_FLAG", "ngxConfFlag"}, {"NGX_CONF_NOARGS", "ngxConfNoArgs"},
	{"NGX_CONF_BLOCK", "ngxConfBlock"}, {"NGX_MAIN_CONF", "ngxMainConf"}, {"NGX_DIRECT_CONF", "ngxDirectConf"}, {"NGX_CONF_1MORE", "ngxConf1More"},
	{"NGX_STREAM_SRV_CONF", "ngxStreamSrvConf"}, {"NGX_HTTP_LIF_CONF", "ngxHTTPLifConf"}, {"NGX_ANY_CONF", "ngxAnyConf"}, {"NGX_EVENT_CONF", "ngxEventConf"},
	{"NGX_STREAM_UPS_CONF", "ngxStreamUpsConf"}, {"NGX_MAIL_SRV_CONF", "ngxMailSrvConf"}, {"NGX_HTTP_LMT_CONF", "ngxHTTPLmtConf"}, {"NGX_CONF_2MORE", "ngxConf2More"},
	{"NGX_CONF_TAKE7", "ngxConfTake7"}, {"NGX_HTTP_SIF_CONF", "ngxHTTPSifConf"}, {"NGX_CONF_TAKE1234", "ngxConfTake1234"}, {"NGX_CONF_ANY", "ngxConfAny"},
	{"NGX_MAIL_MAIN_CONF", "ngxMailMainConf"}, {"NGX_STREAM_MAIN_CONF", "ngxStreamMainConf"}, {"NGX_HTTP_UPS_CONF", "ngxHTTPUpsConf"}, {"NGX_CONF_TAKE2", "ngxConfTake2"},
	{"NGX_CONF_TAKE23", "ngxConfTake23"}, {"NGX_CONF_TAKE3", "ngxConfTake3"}, {"NGX_CONF_TAKE13", "ngxConfTake13"}, {"NGX_CONF_TAKE123", "ngxConfTake123"},
	{"NGX_CONF_TAKE4", "ngxConfTake4"}, {"NGX_CONF_TAKE5", "ngxConfTake5"}, {"NGX_CONF_TAKE6", "ngxConfTake6"},
}

var gNames = []string{"alpha", "beta_on", "gamma2", "delta_zone", "epsilon", "zeta_log_format", "eta"}

// genC writes C source text.
type genC struct {
	r    *R
	sb   strings.Builder
	nl   string
	defs []gdef
}

func (g *genC) w(s string) { g.sb.WriteString(strings.ReplaceAll(s, "\n", g.nl)) }

// comment writes a comment now and then. In a definition the text after it must stay on a line of its own.
func (g *genC) comment(one int) {
	if g.r.Src.Draw(one) != one-1 {
		return
	}
	d := g.r.Src
	switch d.Draw(7) {
	case 0:
		g.w("/* see http://nginx.org/en/docs */ ")
	case 1:
		g.w("// a note\n")
	case 2:
		g.w("/* { ngx_string(\"commented\"), NGX_CONF_FLAG, 0, 0 }, */ ")
	case 3:
		g.w("// { ngx_string(\"commented\"), NGX_CONF_FLAG, 0, 0 },\n")
	case 4:
		g.w("// a line with /* in it\n")
	case 5:
		g.w("/**\n * static ngx_command_t commented[] = { { ngx_string(\"commented\"), NGX_CONF_BLOCK, 0 }, };\n **/\n")
	case 6:
		g.w("/* // */ ")
	}
}

func (g *genC) space() {
	g.w([]string{"", " ", "\n    ", "\t"}[g.r.Src.DrawW(2, 4, 2, 1)])
	g.comment(12)
}

func (g *genC) define(bad bool) {
	d := g.r.Src
	g.w([]string{"static ngx_command_t ", "ngx_command_t  ", "static ngx_command_t\t"}[d.Draw(3)])
	g.w(fmt.Sprintf("ngx_mod%d_commands[]", d.Draw(20)))
	g.w([]string{" = {", "={", "  =  {\n"}[d.Draw(3)])
	n := d.Draw(5)
	if bad && n == 0 {
		n = 1
	}
	badAt := -1
	if bad {
		badAt = d.Draw(n)
	}
	for i := 0; i < n; i++ {
		g.w("\n")
		g.comment(6)
		g.w("    {")
		g.space()
		df := gdef{name: pick(g.r, gNames)}
		g.w("ngx_string(\"" + df.name + "\")")
		g.space()
		g.w(",")
		g.space()
		m := 1 + d.Draw(4)
		for k := 0; k < m; k++ {
			x := gMasks[d.Draw(len(gMasks))]
			if k > 0 {
				g.w("|")
				g.space()
			}
			if i == badAt && k == m-1 {
				g.w("NGX_FANCY_CONF")
				df.bad = true
			} else {
				g.w(x[0])
			}
			df.masks = append(df.masks, x[1])
			if d.Draw(4) == 3 {
				g.space()
			}
		}
		g.w(",")
		g.space()
		g.w([]string{"ngx_conf_set_flag_slot,\n      NGX_HTTP_LOC_CONF_OFFSET,\n      offsetof(conf_t, x),\n      NULL },\n", "handler, 0, 0, NULL },", "set_a ,\n 0,\n 0,\n &post }\n,"}[d.Draw(3)])
		g.comment(8)
		g.defs = append(g.defs, df)
	}
	g.w([]string{"\n      ngx_null_command\n};\n", "ngx_null_command};", "\n{ngx_null_string, 0, NULL, 0, 0, NULL }\n } ;\n"}[d.Draw(3)])
}

func (g *genC) file(bad bool) {
	d := g.r.Src
	n := d.Draw(4)
	if bad && n == 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		g.comment(3)
		switch d.Draw(4) {
		case 0:
			g.w("#include <ngx_config.h>\n#define NGX_X 1\n")
		case 1:
			g.w("static char *\nngx_set(ngx_conf_t *cf, ngx_command_t *cmd, void *conf)\n{\n    return cmd->set(cf, cmd, conf);\n}\n\n")
		}
		if d.Draw(4) != 3 || (bad && i == 0) {
			g.define(bad && i == 0)
		}
	}
	g.comment(4)
	if d.Draw(6) == 5 {
		g.w("/* the end")
		g.w(" */")
	}
}

// gtree is a source tree.
type gtree struct {
	root  string
	files []*gfile
	dirs  []string
	sub   string // what is passed to Generate when it is not the root of the tree (a single file)
}

func (r *R) genCText(bad bool) (string, []gdef) {
	g := &genC{r: r, nl: "\n"}
	if r.Src.Draw(5) == 4 {
		g.nl = "\r\n"
	}
	g.file(bad)
	return g.sb.String(), g.defs
}

func genTree(r *R) *gtree {
	t := &gtree{root: []string{"/src", "src/modules", "/src/nginx"}[r.Src.Draw(3)]}
	dirs := []string{"", "http", "http/modules", "event", "a", "a.c", "http.d", ".deps", "_old/.x", "testdata", "vendor"}
	names := []string{"ngx_a.c", "a.c", "b.cpp", "core.c", "zz.cpp", "mod.h", "notes.txt", "old.c.bak", "x.cc", "Makefile", "c", ".c", ".mod.c", "_x.c", "A.C"}
	n := r.Src.Draw(8)
	seen := []string{}
	for i := 0; i <= n; i++ {
		dir := dirs[r.Src.Draw(len(dirs))]
		nm := names[r.Src.DrawW(3, 3, 3, 3, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1)]
		p := filepath.Join(dir, nm)
		dup := false
		for _, s := range seen {
			dup = dup || s == p || strings.HasPrefix(s, p+"/") || strings.HasPrefix(p, s+"/")
		}
		if dup {
			continue
		}
		seen = append(seen, p)
		f := &gfile{path: r.FS.Abs(filepath.Join(t.root, p)), src: strings.HasSuffix(nm, ".c") || strings.HasSuffix(nm, ".cpp")}
		f.text, f.defs = r.genCText(r.Src.Draw(25) == 24)
		t.files = append(t.files, f)
	}
	if r.Src.Draw(4) == 3 {
		t.dirs = append(t.dirs, r.FS.Abs(filepath.Join(t.root, "empty")))
	}
	if r.Src.Draw(10) == 9 {
		t.sub = t.files[r.Src.Draw(len(t.files))].path
	}
	return t
}

func (t *gtree) target() string {
	if t.sub != "" {
		return t.sub
	}
	return t.root
}

// order sorts the files in walk order: names compared directory by directory.
func (t *gtree) order() []*gfile {
	fs := append([]*gfile(nil), t.files...)
	sort.Slice(fs, func(i, j int) bool {
		a, b := strings.Split(fs[i].path, "/"), strings.Split(fs[j].path, "/")
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
	return fs
}

// gtable is what the generator must extract.
type gtable struct {
	m       map[string][]string
	mustErr string
	mayErr  bool
}

func (t *gtree) expect(cfg *generator.GenerateConfig) gtable {
	out := gtable{m: map[string][]string{}}
	found := false
	for _, f := range t.order() {
		if !f.src || (t.sub != "" && f.path != t.sub) {
			continue
		}
		for _, d := range f.defs {
			found = true
			if d.bad {
				_, a := cfg.Filter[d.name]
				_, b := cfg.Override[d.name]
				if a || b {
					out.mayErr = true
				} else {
					out.mustErr = "unknown mask for " + d.name + " in " + f.path
				}
			}
			out.m[d.name] = append(out.m[d.name], strings.Join(d.masks, " | "))
		}
	}
	if !found {
		out.mustErr = "no directive in the tree"
	}
	for d := range cfg.Filter {
		delete(out.m, d)
	}
	for d, ms := range cfg.Override {
		if _, ok := out.m[d]; ok {
			out.m[d] = nil
			for _, m := range ms {
				out.m[d] = append(out.m[d], strings.Join(m, " | "))
			}
		}
	}
	return out
}

// readTable reads a generated support file.
func readTable(src []byte, cfg *generator.GenerateConfig) (map[string][]string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "support.go", src, parser.ParseComments)
	if err != nil {
		return nil, fmt.Errorf("not a Go file: %v", err)
	}
	var out map[string][]string
	fn := false
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Name.Name == cfg.MatchFuncName {
				uses := false
				ast.Inspect(d, func(n ast.Node) bool {
					if id, ok := n.(*ast.Ident); ok && id.Name == cfg.DirectiveMapName {
						uses = true
					}
					return true
				})
				if !uses {
					return nil, errors.New("the match function does not use the table")
				}
				fn = true
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				v, ok := s.(*ast.ValueSpec)
				if !ok || len(v.Names) != 1 || v.Names[0].Name != cfg.DirectiveMapName || len(v.Values) != 1 {
					continue
				}
				lit, ok := v.Values[0].(*ast.CompositeLit)
				if !ok {
					return nil, errors.New("the table is not a composite literal")
				}
				if out != nil {
					return nil, errors.New("two tables")
				}
				out = map[string][]string{}
				for _, e := range lit.Elts {
					kv, ok := e.(*ast.KeyValueExpr)
					if !ok {
						return nil, errors.New("entry without key")
					}
					k, ok := kv.Key.(*ast.BasicLit)
					if !ok {
						return nil, errors.New("key is not a literal")
					}
					name, err := strconv.Unquote(k.Value)
					if err != nil {
						return nil, err
					}
					if _, dup := out[name]; dup {
						return nil, fmt.Errorf("%s appears twice", name)
					}
					l, ok := kv.Value.(*ast.CompositeLit)
					if !ok {
						return nil, errors.New("value is not a list")
					}
					out[name] = []string{}
					for _, x := range l.Elts {
						t, err := flatten(x)
						if err != nil {
							return nil, err
						}
						out[name] = append(out[name], t)
					}
				}
			}
		}
	}
	if out == nil {
		return nil, errors.New("no table")
	}
	if !fn {
		return nil, errors.New("no match function")
	}
	if cfg.MatchFuncComment != "" && !bytes.Contains(src, []byte("// "+cfg.MatchFuncComment)) {
		return nil, errors.New("no comment")
	}
	return out, nil
}

func flatten(e ast.Expr) (string, error) {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name, nil
	case *ast.ParenExpr:
		return flatten(x.X)
	case *ast.BinaryExpr:
		if x.Op == token.OR {
			a, err := flatten(x.X)
			if err != nil {
				return "", err
			}
			b, err := flatten(x.Y)
			return a + " | " + b, err
		}
	}
	return "", errors.New("unexpected expression in the table")
}

func diffTables(want, got map[string][]string) string {
	var ks []string
	for k := range want {
		ks = append(ks, k)
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		w, a := want[k]
		g, b := got[k]
		switch {
		case !b:
			return fmt.Sprintf("directive %s is missing (expected %v)", k, w)
		case !a:
			return fmt.Sprintf("directive %s is not defined in the tree (got %v)", k, g)
		case strings.Join(w, ", ") != strings.Join(g, ", "):
			return fmt.Sprintf("directive %s: expected masks %v, got %v", k, w, g)
		}
	}
	return ""
}

// gsink is the writer given to Generate.
type gsink struct {
	r      *R
	buf    []byte
	failAt int // -1: healthy
	err    error
	fired  bool
	dirty  bool // written to after it failed
}

func (s *gsink) Write(p []byte) (int, error) {
	if sim.Killed() {
		return 0, io.ErrClosedPipe
	}
	sim.Point("write")
	if sim.Killed() {
		return 0, io.ErrClosedPipe
	}
	n := len(p)
	if s.failAt >= 0 && len(s.buf)+n > s.failAt {
		n = s.failAt - len(s.buf)
		if s.fired {
			n = 0
		}
	}
	for i := 0; i < n; i++ {
		s.buf = append(s.buf, p[i])
	}
	if n < len(p) {
		if !s.fired {
			s.r.S.Count("write-error")
		}
		s.fired = true
		return n, s.err
	}
	return n, nil
}

func genGenConfig(r *R) *generator.GenerateConfig {
	c := &generator.GenerateConfig{DirectiveMapName: "moduleDirectives", MatchFuncName: "MatchModule"}
	if r.Src.Draw(3) == 2 {
		c.DirectiveMapName, c.MatchFuncName = "otherTable", "OtherMatch"
	}
	if r.Src.Draw(3) == 2 {
		c.MatchFuncComment = c.MatchFuncName + " knows the module"
	}
	if r.Src.Draw(3) == 2 {
		c.Filter = generator.Filters{}
		for i := r.Src.Draw(3); i >= 0; i-- {
			c.Filter[pick(r, append([]string{"nosuch"}, gNames...))] = struct{}{}
		}
	}
	if r.Src.Draw(3) == 2 {
		c.Override = map[string][]generator.Mask{}
		for i := r.Src.Draw(3); i >= 0; i-- {
			ms := make([]generator.Mask, 0, 4)
			for k := r.Src.Draw(3); k >= 0; k-- {
				m := make(generator.Mask, 0, 4)
				for j := r.Src.Draw(2); j >= 0; j-- {
					m = append(m, gMasks[r.Src.Draw(len(gMasks))][1])
				}
				ms = append(ms, append(m, "sentinel")[:len(m)])
			}
			c.Override[pick(r, append([]string{"nosuch"}, gNames...))] = append(ms, generator.Mask{"sentinel"})[:len(ms)]
		}
	}
	return c
}

func showGenConfig(c *generator.GenerateConfig) string {
	var f []string
	for k := range c.Filter {
		f = append(f, k)
	}
	sort.Strings(f)
	var o []string
	for k, ms := range c.Override {
		s := k + ":"
		for _, m := range ms[:cap(ms)] {
			s += fmt.Sprint(m[:cap(m)])
		}
		o = append(o, s)
	}
	sort.Strings(o)
	return fmt.Sprintf("filter %v, override %v, names %s %s, comment %q", f, o, c.DirectiveMapName, c.MatchFuncName, c.MatchFuncComment)
}

func scenC16(r *R) {
	t := genTree(r)
	for _, f := range t.files {
		r.FS.Put(f.path, f.text)
		r.Bytes += len(f.text)
		r.Desc("--- %s\n%s", f.path, clip(f.text, 2000))
	}
	for _, d := range t.dirs {
		r.FS.PutDir(d)
	}
	cfgs := []*generator.GenerateConfig{genGenConfig(r)}
	if r.Src.Draw(3) == 2 {
		cfgs = append(cfgs, genGenConfig(r))
	}
	for i, c := range cfgs {
		r.Desc("config %d: %s", i, showGenConfig(c))
	}
	r.Desc("Generate(%q)", t.target())
	var badPath, badOp string
	var badErr error
	var badN int
	var badRead, readMode int
	r.FS.Hook = func(op, path string, h *sim.Handle) sim.Fault {
		if badOp != "" && (op == badOp || op == "stat" && badOp == "lstat") && path == badPath {
			r.S.Count(badOp + "-error")
			return sim.Fault{Err: badErr, N: badN}
		}
		return sim.Fault{}
	}
	r.FS.OnOpen = func(h *sim.Handle) {
		h.D.Mode = readMode
		if badOp == "read" && h.Path == badPath {
			h.D.FailAt, h.D.Err = badRead, badErr
		}
	}
	type outT struct {
		cfg int
		b   []byte
	}
	r.Exec(func() {
		var outs []outT // of the healthy generations since the tree last changed
		steps := 1 + r.Src.Draw(4)
		for step := 0; step < steps; step++ {
			if sim.Killed() {
				return
			}
			// the tree changes
			if step > 0 && r.Src.Draw(3) == 2 {
				f := t.files[r.Src.Draw(len(t.files))]
				f.text, f.defs = r.genCText(r.Src.Draw(25) == 24)
				r.FS.Put(f.path, f.text)
				r.Desc("step %d: %s becomes\n%s", step, f.path, clip(f.text, 2000))
				outs = nil
			}
			readMode = r.Src.Draw(6)
			// a fault in the tree
			badOp = ""
			mustErr := ""
			if r.Src.Draw(3) == 2 {
				badErr = []error{syscall.EIO, &testErr{"injected"}, syscall.EACCES, io.ErrUnexpectedEOF, syscall.ENOENT, syscall.ENAMETOOLONG, syscall.ELOOP, os.ErrClosed, syscall.EISDIR}[r.Src.Draw(9)]
				f := t.files[r.Src.Draw(len(t.files))]
				reach := t.sub == "" || t.sub == f.path
				switch r.Src.Draw(4) {
				case 0:
					badOp, badPath = "open", f.path
					if f.src && reach {
						mustErr = badPath + " cannot be opened"
					}
				case 1:
					badOp, badPath, badRead = "read", f.path, r.Src.Draw(len(f.text)+1)
					if f.src && reach {
						mustErr = badPath + " cannot be read"
					}
				case 2:
					badOp, badPath, badN = "readdir", filepath.Dir(f.path), r.Src.Draw(3)
					if t.sub == "" {
						mustErr = badPath + " cannot be listed"
					}
				case 3:
					badOp, badPath = "lstat", r.FS.Abs(t.target())
					mustErr = badPath + " cannot be examined"
				}
				r.Desc("step %d: %s of %s fails with %v (offset %d, entries %d)", step, badOp, badPath, badErr, badRead, badN)
			}
			// the calls
			n := []int{1, 1, 1, 2, 3}[r.Src.Draw(5)]
			type call struct {
				cfg  int
				sink *gsink
				err  error
				done bool
			}
			calls := make([]*call, n)
			for i := range calls {
				c := &call{cfg: r.Src.Draw(len(cfgs)), sink: &gsink{r: r, failAt: -1, err: &testErr{"disk full"}}}
				if r.Src.Draw(4) == 3 {
					c.sink.failAt = r.Src.Draw(1400)
					if r.Src.Draw(2) == 1 {
						c.sink.failAt = 600 + r.Src.Draw(120)
					}
				}
				r.Desc("step %d: caller %d generates with config %d into a writer failing at %d", step, i+1, c.cfg, c.sink.failAt)
				calls[i] = c
			}
			before := make([]string, len(cfgs))
			for i, c := range cfgs {
				before[i] = showGenConfig(c)
			}
			struck := r.fired(badOp + "-error")
			run := func(i int) {
				c := calls[i]
				c.err = generator.Generate(t.target(), c.sink, *cfgs[c.cfg])
				c.done = true
				if !sim.Killed() {
					r.S.Log("generate-returned", "", i, step)
				}
			}
			if n == 1 {
				run(0)
			} else {
				var gs []*sim.G
				for i := range calls {
					i := i
					gs = append(gs, sim.GoNamed(fmt.Sprint("caller ", i+1), 0, func() { run(i) }))
				}
				for _, g := range gs {
					sim.Join(g)
				}
			}
			if sim.Killed() {
				return
			}
			if step > 0 || n > 1 || badOp != "" || len(t.files) > 2 {
				r.Nontriv = true
			}
			for i, c := range cfgs {
				r.Evals++
				if a := showGenConfig(c); a != before[i] {
					r.Fail("config-modified", "Generate modified the caller's config: %s became %s", before[i], a)
					return
				}
			}
			if r.fired(badOp+"-error") == struck {
				mustErr = "" // the fault was never met
			}
			for i, c := range calls {
				r.Evals++
				who := fmt.Sprintf("step %d, caller %d: Generate(%q)", step, i+1, t.target())
				want := t.expect(cfgs[c.cfg])
				must := want.mustErr
				if mustErr != "" {
					must = mustErr
				}
				if c.sink.fired {
					must = fmt.Sprintf("the writer failed after %d bytes", c.sink.failAt)
				}
				if must != "" {
					if c.err == nil {
						r.Fail("silent", "%s reports success although %s", who, must)
						return
					}
					if len(c.sink.buf) > 0 {
						for _, o := range outs {
							if o.cfg == c.cfg && mustErr == "" && want.mustErr == "" && !bytes.HasPrefix(o.b, c.sink.buf) {
								r.Fail("not-a-prefix", "%s: what was written before the failure is not a prefix of the support file", who)
								return
							}
						}
					}
					continue
				}
				if c.err != nil {
					if !want.mayErr {
						r.Fail("error", "%s fails although nothing is wrong: %v", who, c.err)
						return
					}
					continue
				}
				got, err := readTable(c.sink.buf, cfgs[c.cfg])
				if err != nil {
					r.Fail("output", "%s: bad support file: %v\n%s", who, err, clip(string(c.sink.buf), 2000))
					return
				}
				if d := diffTables(want.m, got); d != "" {
					r.Fail("table", "%s: %s", who, d)
					return
				}
				for _, o := range outs {
					if o.cfg == c.cfg && !bytes.Equal(o.b, c.sink.buf) {
						r.Fail("unstable", "%s: the output differs from that of an earlier generation: %s", who, firstDiff(string(o.b), string(c.sink.buf)))
						return
					}
				}
				outs = append(outs, outT{c.cfg, c.sink.buf})
			}
		}
	})
}
