package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
	sim "github.com/nginxinc/nginx-go-crossplane/internal/verifsim"
)

// memReader is a source for the lexer-level scenarios: bytes handed out under the control of the simulator.
type memReader struct {
	r    *R
	name string
	data []byte
	d    sim.Delivery
}

func (m *memReader) Read(p []byte) (int, error) {
	if sim.Killed() {
		return 0, io.ErrClosedPipe
	}
	sim.Point("read")
	m.r.user()
	if sim.Killed() {
		return 0, io.ErrClosedPipe
	}
	return m.d.Read(m.r.S, m.name, m.data, p)
}

// genDelivery draws how a source hands out its bytes.
func genDelivery(r *R, long bool) sim.Delivery {
	d := sim.Delivery{FailAt: -1, EOFAt: -1}
	w := []int{2, 2, 3, 3, 3, 3}
	if long {
		w = []int{3, 0, 0, 2, 5, 2}
	}
	d.Mode = r.Src.DrawW(w...)
	d.WithData = r.Src.Draw(2) == 1
	d.Latency = []int{0, 0, 0, 1, 20, 1000}[r.Src.Draw(6)]
	return d
}

var caps = []int{crossplane.TokenChanCap, 0, 1, 2, 3, 7, 64}

// genCap draws and installs a token channel capacity.
func genCap(r *R) int {
	c := caps[r.Src.DrawW(6, 4, 4, 2, 2, 2, 1)]
	crossplane.SetTokenChanCap(c)
	return c
}

// tokDiff compares a real token with an expected one.
func tokDiff(r *R, want Tok, got crossplane.NgxToken, inj error) string {
	bad := func(what string) string {
		return fmt.Sprintf("%s: expected {%s line %d quoted %v error %q}, got {%s line %d quoted %v error %v}", what, clip(fmt.Sprintf("%q", want.Value), 300), want.Line, want.Quoted, want.Err, clip(fmt.Sprintf("%q", got.Value), 300), got.Line, got.IsQuoted, got.Error)
	}
	if want.Value != got.Value {
		return bad("value")
	}
	if want.Err == "" {
		if got.Error != nil {
			return bad("unexpected error")
		}
	} else if got.Error == nil {
		return bad("missing error")
	}
	if want.Line != got.Line {
		return bad("line")
	}
	if want.Quoted != got.IsQuoted {
		return bad("quoting")
	}
	switch want.Err {
	case "lex", "eof", "lua", "read":
		var pe *crossplane.ParseError
		if errors.As(got.Error, &pe) && pe.Line != nil && *pe.Line != want.ELine {
			return bad(fmt.Sprintf("line of the error (expected %d, got %d)", want.ELine, *pe.Line))
		}
		if want.Err == "read" && inj != nil && !errors.Is(got.Error, inj) {
			return bad("error does not wrap the error of the source")
		}
	case "ext":
		if !errors.Is(got.Error, errExt) {
			return bad("error of the external lexer")
		}
	case "extp":
		if got.Error != error(r.sharedErr) {
			return bad("error of the external lexer")
		}
	}
	return ""
}

// diffToks compares whole streams.
func diffToks(r *R, want []Tok, got []crossplane.NgxToken, inj error) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		if i >= len(got) {
			return fmt.Sprintf("token %d of %d is missing: %s", i, len(want), clip(fmt.Sprintf("%+v", want[i]), 300))
		}
		if i >= len(want) {
			return fmt.Sprintf("extra token %d after the expected %d: %s", i, len(want), clip(fmt.Sprintf("%+v", got[i]), 300))
		}
		if d := tokDiff(r, want[i], got[i], inj); d != "" {
			return fmt.Sprintf("token %d of %d: %s", i, len(want), d)
		}
	}
	return ""
}

// consumer describes how the tokens are received.
type consumer struct {
	style int // 0 as fast as possible, 1 random pauses, 2 bursts, 3 yields
	pause int
}

func genConsumer(r *R) consumer {
	return consumer{style: r.Src.DrawW(4, 2, 1, 2), pause: []int{1, 10, 500}[r.Src.Draw(3)]}
}

// drain receives every token until the channel is closed.
func (c consumer) drain(r *R, ch chan crossplane.NgxToken) []crossplane.NgxToken {
	var out []crossplane.NgxToken
	for {
		switch c.style {
		case 1:
			if r.Src.Env(8, nil) == 7 {
				r.S.Count("consumer-pause")
				sim.Sleep(msec(1 + r.Src.Env(c.pause, nil)))
			}
		case 2:
			if len(out)%50 == 49 {
				r.S.Count("consumer-pause")
				sim.Sleep(msec(c.pause * 10))
			}
		case 3:
			sim.Point("consumer")
		}
		t, ok := sim.Recv2(ch)
		if !ok {
			return out
		}
		out = append(out, t)
	}
}

func (c consumer) String() string {
	return []string{"eager", "pausing", "in bursts", "yielding"}[c.style]
}

// ---------------------------------------------------------------------------------------------------------------
// Worlds: file trees with include graphs and faults.

type wcfg struct {
	files     int // at most that many files beside the main one
	budget    int // statements per file
	invalid   int
	comments  int
	unknown   int
	fancy     int // percentage of runs with fancy layout
	cycles    int // percentage of runs in which includes may form cycles
	exts      bool
	extOnly   bool
	luaOnly   bool // the only external lexer is the one for Lua
	incRate   int
	missing   bool
	globBad   bool // malformed patterns
	wild      int  // percentage of files with wild or mutated text
	depth     int
	noGlob    bool
	dirs      bool
	noInclude bool
	nest      int // percentage of runs whose main file is a deep nest of blocks with includes and siblings
}

// wgen is a generated world.
type wgen struct {
	*world
	main     string
	names    []string // as named in include statements, relative to the main file's directory
	paths    []string // as Parse will see them; paths[0] is the main file
	patterns []string // glob patterns used
	exts     *extSet
	cyc      bool
	links    []string // paths that are symbolic links, with where they lead to
	linkTo   []string
}

var namePool = []string{"a.d/z.conf", "a.conf", "b.conf", "conf.d/a.conf", "conf.d/b.conf", "conf.d/c.conf", "sites/x", "sites/é.conf", "conf.d/sub/d.conf", "mime.types", "e.conf", "conf.d/B.conf", "Z.conf", "sites/a.conf", "sites/with space.conf"}
var ctxPool = []string{"http", "server", "location", "main", "stream", "upstream", "events", "other", "sserver"}

func genWorld(r *R, c wcfg) *wgen {
	w := &wgen{world: &world{cwd: r.FS.Cwd, files: map[string]string{}, dirs: map[string]bool{}, fault: map[string]*fileFault{}, globs: map[string]error{}}}
	w.list = r.FS.GlobMatch
	if c.exts {
		w.exts = genExts(r)
		if c.extOnly && len(w.exts.specs) == 0 && !w.exts.lua {
			w.exts.lua = true
		}
	} else {
		w.exts = &extSet{lua: c.luaOnly}
	}
	w.main = []string{"/etc/nginx/nginx.conf", "nginx.conf", "conf/nginx.conf", "/n.conf"}[r.Src.DrawW(5, 3, 2, 1)]
	if !c.noGlob && r.Src.Draw(20) == 19 { // a directory whose name is a pattern
		w.main = pick(r, []string{"/etc/ng[ix]nx/nginx.conf", "/srv/a*b/nginx.conf", "conf?/nginx.conf"})
	}
	dir := filepath.Dir(w.main)
	absMain := filepath.IsAbs(w.main)
	n := r.Src.Draw(c.files + 1)
	if n == 0 && c.files > 0 && r.Src.Draw(4) != 0 {
		n = 1 + r.Src.Draw(c.files)
	}
	w.cyc = r.Src.Chance(c.cycles, 100)
	off := 0
	if n > 0 {
		off = r.Src.Draw(len(namePool))
	}
	ctx := []string{"main"}
	w.names = []string{filepath.Base(w.main)}
	w.paths = []string{w.main}
	for i := 0; i < n; i++ {
		nm := namePool[(off+i)%len(namePool)]
		w.names = append(w.names, nm)
		w.paths = append(w.paths, filepath.Join(dir, nm))
		ctx = append(ctx, ctxPool[r.Src.DrawW(5, 4, 4, 2, 2, 2, 1, 1, 1)])
	}
	if c.dirs {
		w.dirs[w.abs(filepath.Join(dir, "conf.d"))] = true
		w.dirs[w.abs(filepath.Join(dir, "emptydir"))] = true
	}
	fancy := r.Src.Chance(c.fancy, 100)
	gpool := []string{"conf.d/*.conf", "*.conf", "conf.d/[ab].conf", "sites/*", "?.conf", "nomatch/*", "conf.d/*", "*/*.conf", "mime.type[s]", "*.types", "*/[a-z].conf"}
	for i := 0; i <= n; i++ {
		i := i
		g := &gen{r: r, budget: c.budget, comments: c.comments, invalid: c.invalid, unknown: c.unknown, fancy: fancy, maxDepth: c.depth, incRate: c.incRate}
		if g.maxDepth == 0 {
			g.maxDepth = 5
		}
		if len(w.exts.specs) > 0 || w.exts.lua {
			g.exts, g.extRate = w.exts, 5
			if c.extOnly {
				g.extRate = 3
			}
		}
		g.include = func(cx string) string {
			nm := ""
			switch k := r.Src.DrawW(10, 4, 2, 1); {
			case k == 1 && !c.noGlob: // glob
				p := gpool[r.Src.Draw(len(gpool))]
				for t, nm := range w.names {
					if ok, _ := filepath.Match(p, nm); ok && t <= i && !w.cyc {
						p = "nomatch/*.conf"
					}
				}
				if c.globBad && r.Src.Draw(12) == 11 {
					p = "conf.d/[a"
				}
				full := filepath.Join(dir, p)
				if r.Src.Draw(4) == 3 {
					if !absMain && r.Src.Draw(2) == 1 { // the same file by two names
						full = w.abs(full)
					}
					if filepath.IsAbs(full) {
						p = full
					}
				}
				w.patterns = append(w.patterns, full)
				return p
			case k == 2 && c.missing:
				nm = []string{"missing.conf", "conf.d/none.conf", "nodir/x.conf"}[r.Src.Draw(3)]
			case k == 3 && c.dirs:
				nm = []string{"emptydir", "conf.d"}[r.Src.Draw(2)]
			default:
				// prefer a file made for this context
				var cand []int
				for t := 1; t <= n; t++ {
					if (t > i || w.cyc) && ctx[t] == cx {
						cand = append(cand, t)
					}
				}
				if len(cand) == 0 || r.Src.Draw(6) == 5 {
					cand = nil
					for t := 0; t <= n; t++ {
						if (t > i || (w.cyc && r.Src.Draw(2) == 1)) && (cx != "main" || t > 0 || w.cyc) {
							cand = append(cand, t)
						}
					}
				}
				if len(cand) == 0 {
					return ""
				}
				nm = w.names[cand[r.Src.Draw(len(cand))]]
			}
			if r.Src.Draw(4) == 3 && (absMain || r.Src.Draw(2) == 1) {
				return w.abs(filepath.Join(dir, nm))
			}
			if r.Src.Draw(12) == 11 {
				return "./" + nm
			}
			return nm
		}
		if c.noInclude {
			g.include = nil
		}
		if c.wild > 0 && r.Src.Chance(c.wild, 100) {
			if r.Src.Draw(2) == 0 {
				extra := []string{"include a.conf;", "include *.conf;\n", "http {", "server {", "listen 80;", "ignored_d x;", "types {", "}\n", "if ($a) {", "location / {"}
				if w.exts.lua {
					extra = append(extra, "content_by_lua_block {")
				}
				for _, s := range w.exts.specs {
					extra = append(extra, s.name+" ")
				}
				g.w(wild(r, r.Src.Draw(60), extra))
			} else {
				g.block(ctx[i], 0)
				t := mutate(r, g.sb.String(), 1+r.Src.Draw(4))
				g.sb.Reset()
				g.w(t)
			}
		} else {
			if i == 0 && r.Src.Chance(c.nest, 100) {
				budget := 30
				g.nestFile(0, &budget)
			} else if i == 0 {
				g.mainFile()
			} else {
				g.block(ctx[i], 0)
			}
		}
		w.files[w.abs(w.paths[i])] = g.sb.String()
		r.Bytes += g.sb.Len()
	}
	// files nobody includes: must never be touched
	if r.Src.Draw(3) == 1 {
		w.files[w.abs(filepath.Join(dir, "unrelated.txt"))] = "never { read this"
	}
	// symbolic links: names are what counts, not what they lead to
	switch r.Src.DrawW(8, 2, 1) {
	case 1:
		for i, p := range w.paths {
			if r.Src.Draw(2) == 1 {
				w.links = append(w.links, w.abs(p))
				w.linkTo = append(w.linkTo, fmt.Sprintf("/store/dir%d/x.conf", i))
			}
		}
	case 2:
		if d := w.abs(dir); d != "/" && d != w.cwd {
			w.links, w.linkTo = []string{d}, []string{"/store/all"}
		}
	}
	return w
}

// nestFile writes blocks in blocks, with includes at every level and siblings after them.
func (g *gen) nestFile(depth int, budget *int) {
	for k := 1 + g.d(4); k > 0 && *budget > 0; k-- {
		*budget--
		switch g.r.Src.DrawW(4, 3, 1) {
		case 0:
			if depth > 7 {
				continue
			}
			g.w(pick(g.r, []string{"http", "server", "location /", "if ($a)", "foo", "bar x", "stream", "upstream u", "limit_except GET", "mail", "events", "split_clients a $b"}))
			g.open(0)
			g.nestFile(depth+1, budget)
			g.shut()
		case 1:
			if a := g.include(pick(g.r, ctxPool)); a != "" {
				g.w("include " + a)
				g.end()
			}
		case 2:
			g.w(pick(g.r, []string{"listen 80", "x y", "gzip on", "worker_processes 2", "return 404"}))
			g.end()
		}
	}
}

// mainFile writes a main configuration that has the usual blocks, so that includes in all contexts are likely.
func (g *gen) mainFile() {
	g.block("main", 0)
	b := g.budget
	if g.r.Src.Draw(8) != 7 {
		g.w("http")
		g.open(0)
		g.budget = b/2 + 3
		g.block("http", 1)
		if g.r.Src.Draw(3) != 2 {
			g.w("server")
			g.open(1)
			g.budget = b/3 + 3
			g.block("server", 2)
			g.shut()
		}
		g.budget = 2
		g.block("http", 1)
		g.shut()
	}
	g.budget = 2
	g.block("main", 1)
}

// install puts the world into the simulated file system and arms its faults.
func (w *wgen) install(r *R) {
	fsys := r.FS
	var ks []string
	for p := range w.dirs {
		ks = append(ks, p)
	}
	sort.Strings(ks)
	for i, l := range w.links {
		fsys.PutLink(l, w.linkTo[i])
		r.Desc("%s is a symbolic link to %s", l, w.linkTo[i])
	}
	for _, p := range ks {
		fsys.PutDir(p)
	}
	ks = ks[:0]
	for p := range w.files {
		ks = append(ks, p)
	}
	sort.Strings(ks)
	for _, p := range ks {
		fsys.Put(p, w.files[p])
	}
	// every directory can be opened, too
	w.dirs["/"] = true
	for _, p := range ks {
		for d := filepath.Dir(p); d != "/"; d = filepath.Dir(d) {
			w.dirs[d] = true
		}
	}
	all, _ := fsys.Snapshot()
	for _, p := range all {
		if strings.HasSuffix(p, "/") && p != "/" {
			w.dirs[p[:len(p)-1]] = true
		}
	}
	// no map here: map accesses are visible to the race detector even from uninstrumented code
	type attempt struct {
		tag  int
		path string
		n    int
	}
	var attempts []*attempt
	next := func(tag int, path string) int {
		for _, a := range attempts {
			if a.tag == tag && a.path == path {
				a.n++
				return a.n - 1
			}
		}
		attempts = append(attempts, &attempt{tag, path, 1})
		return 0
	}
	fsys.Hook = func(op, path string, h *sim.Handle) sim.Fault {
		switch op {
		case "open":
			if err := w.fault[path].opens(next(sim.CurTag(), path)); err != nil {
				r.S.Count("open-error")
				return sim.Fault{Err: err}
			}
		case "glob":
			if err := w.globs[path]; err != nil {
				r.S.Count("glob-error")
				return sim.Fault{Err: err}
			}
		case "close":
			if f := w.fault[path]; f != nil && f.closeErr != nil && h != nil && !h.IsWrite() {
				r.S.Count("close-error")
				return sim.Fault{Err: f.closeErr}
			}
		}
		return sim.Fault{}
	}
	fsys.OnOpen = func(h *sim.Handle) {
		f := w.fault[h.Path]
		if f == nil {
			return
		}
		h.D.Mode, h.D.Latency, h.D.WithData = f.mode, f.latency, f.withData
		if f.failAt >= 0 {
			h.D.FailAt, h.D.Err = f.failAt, f.readErr
		}
		h.D.EOFAt = f.eofAt
		if f.eofAt >= 0 && f.eofAt < len(w.files[h.Path]) {
			r.S.Count("truncated")
		}
	}
	fsys.ShuffleGlob = true
	for _, k := range ks {
		r.Desc("--- file %s (%d bytes)\n%s", k, len(w.files[k]), clip(w.files[k], 3000))
		if f := w.fault[k]; f != nil {
			r.Desc("    (read mode %d, latency up to %d ms, last bytes with EOF/error: %v, open fails: all=%v attempts=%b, read error at %d, truncated at %d)", f.mode, f.latency, f.withData, f.openAll, f.openAt, f.failAt, f.eofAt)
		}
	}
}

// deliver draws a delivery for every file.
func (w *wgen) deliver(r *R) {
	for _, p := range w.paths {
		if r.Src.Draw(3) == 0 {
			continue
		}
		f := w.ff(p)
		d := genDelivery(r, len(w.files[w.abs(p)]) > 3000)
		f.mode, f.latency, f.withData = d.Mode, d.Latency, d.WithData
	}
}

func (w *wgen) ff(p string) *fileFault {
	a := w.abs(p)
	f := w.fault[a]
	if f == nil {
		f = &fileFault{failAt: -1, eofAt: -1}
		w.fault[a] = f
	}
	return f
}

// readFault makes the source of path p fail (or end) at a drawn offset.
func (w *wgen) readFault(r *R, p string) {
	f := w.ff(p)
	at := cutAt(r, w.files[w.abs(p)])
	f.withData = r.Src.Draw(2) == 1
	if r.Src.Draw(3) == 2 {
		f.eofAt = at
		return
	}
	f.failAt = at
	f.readErr = readError(r, "read error in "+p)
}

// readError is what a source fails with.
func readError(r *R, s string) error {
	switch r.Src.Draw(14) {
	case 1:
		return syscall.EIO
	case 2:
		return io.ErrUnexpectedEOF
	case 3:
		return &testErr{"wrapped: " + io.EOF.Error() + " in " + s}
	case 4:
		return &fs.PathError{Op: "read", Path: s, Err: syscall.ESTALE}
	case 5:
		return os.ErrClosed
	case 6:
		return context.Canceled
	case 7:
		return os.ErrDeadlineExceeded
	case 8:
		return io.ErrClosedPipe
	case 9:
		return fmt.Errorf("%s: %w", s, io.EOF)
	case 10:
		return io.ErrNoProgress
	case 11:
		return bufio.ErrTooLong
	case 12:
		return &fs.PathError{Op: "read", Path: s, Err: os.ErrNotExist}
	case 13:
		return fmt.Errorf("%s: %w", s, &testErr{"inner"})
	}
	return &testErr{s}
}

// cutAt draws an offset at which a source fails or ends: any, or one at which something is pending.
func cutAt(r *R, text string) int {
	at := r.Src.Draw(len(text) + 1)
	if r.Src.Draw(3) != 2 {
		return at
	}
	marks := []string{"_by_lua_block", "set_by_lua_block", "\"", "'", "{", "\\", "$", "#", "\r", "}", ";", "include", " "}
	m := marks[r.Src.Draw(len(marks))]
	for k := 0; k < 2; k++ {
		from := at
		if k == 1 {
			from = 0
		}
		if i := strings.Index(text[from:], m); i >= 0 {
			at = from + i + len(m)
			for e := r.Src.Draw(4); e > 0 && at < len(text); e-- {
				at++
			}
			return at
		}
	}
	return at
}

// openFault makes opening path p fail.
func (w *wgen) openFault(r *R, p string) {
	f := w.ff(p)
	switch r.Src.DrawW(3, 3, 2) {
	case 0:
		f.openAll = true
	case 1:
		f.openAt = 1 << uint(r.Src.Draw(3))
	case 2:
		f.openAt = uint64(r.Src.Draw(16))
	}
	switch r.Src.Draw(8) {
	case 0:
		f.openErr = &testErr{"cannot open " + p}
	case 1:
		f.openErr = syscall.EMFILE
	case 2:
		f.openErr = &fs.PathError{Op: "open", Path: p, Err: syscall.ENOENT}
	case 3:
		f.openErr = &fs.PathError{Op: "open", Path: p, Err: syscall.EACCES}
	case 4:
		f.openErr = fmt.Errorf("store: %w", fs.ErrNotExist)
	case 5:
		f.openErr = context.Canceled
	case 6:
		f.openErr = io.EOF
	case 7:
		f.openErr = os.ErrClosed
	}
}

// genOpts draws parse options.
func genOpts(r *R, ex *extSet) popts {
	o := popts{exts: ex}
	b := func(num, den int) bool { return r.Src.Chance(num, den) }
	o.comments = b(1, 2)
	o.errUnknown = b(1, 4)
	o.skipCtx = b(1, 6)
	o.skipArgs = b(1, 6)
	o.callback = b(1, 2)
	o.noOpen = b(1, 3)
	o.noGlob = b(1, 3)
	if b(1, 4) {
		for k := r.Src.DrawW(4, 2, 1, 1); k >= 0; k-- {
			o.ignore = append(o.ignore, pick(r, []string{"ignored_d", "gzip", "server", "include", "http", "location", "foo", "listen", "types", "#"}))
		}
	}
	if b(1, 4) {
		o.sources = []int{r.Src.Draw(len(sourcePool))}
		if b(1, 2) {
			o.sources = append(o.sources, r.Src.Draw(len(sourcePool)))
		}
	}
	return o
}

// pcall is one call of Parse.
type pcall struct {
	r     *R
	main  string
	o     popts
	opts  *crossplane.ParseOptions
	seen  []error // errors the callback got
	opens []string
	pl    *crossplane.Payload
	err   error
	done  bool
	openN int
	last  []string // events
	onCb  func(n int)
}

// newCall prepares a call with fresh options.
func newCall(r *R, main string, o popts) *pcall {
	c := &pcall{r: r, main: main, o: o}
	c.opts = c.options()
	return c
}

func (c *pcall) options() *crossplane.ParseOptions {
	o := c.o
	p := &crossplane.ParseOptions{
		IgnoreDirectives: o.ignore, StopParsingOnError: o.stop, CombineConfigs: o.combine, SingleFile: o.single, ParseComments: o.comments,
		ErrorOnUnknownDirectives: o.errUnknown, SkipDirectiveContextCheck: o.skipCtx, SkipDirectiveArgsCheck: o.skipArgs,
	}
	for _, i := range o.sources {
		p.DirectiveSources = append(p.DirectiveSources, sourcePool[i].fn)
	}
	if o.exts != nil {
		p.LexOptions = o.exts.lexOptions(c.r)
	}
	if o.callback {
		p.ErrorCallback = func(err error) interface{} {
			c.seen = append(c.seen, err)
			c.last = append(c.last, "callback")
			if c.onCb != nil {
				c.onCb(len(c.seen))
			}
			return len(c.seen)
		}
	}
	if !o.noOpen {
		p.Open = func(path string) (io.ReadCloser, error) {
			c.last = append(c.last, "open "+c.r.FS.Abs(path))
			c.r.user()
			h, err := c.r.FS.Open(path)
			if err != nil {
				return nil, err
			}
			return h, nil
		}
	}
	if !o.noGlob {
		p.Glob = func(path string) ([]string, error) {
			c.last = append(c.last, "glob "+path)
			c.r.user()
			if c.r.shareGlob {
				return c.r.FS.GlobShared(path)
			}
			return c.r.FS.Glob(path)
		}
	}
	return p
}

func (c *pcall) run() {
	c.pl, c.err = crossplane.Parse(c.main, c.opts)
	c.done = true
	if sim.Active() && !sim.Killed() {
		e := 0
		if c.err != nil {
			e = 1
		}
		c.r.S.Log("parse-returned", c.main, e, 0)
	}
}

// check compares the result of the call with the model.
func (c *pcall) check(class string, want *mPayload, werr *mErr) bool {
	c.r.Evals++
	d := firstDiff(dumpModel(want, werr, c.o.callback), dumpReal(c.pl, c.err))
	if d != "" {
		c.r.Fail(class, "Parse(%q) with %s: %s", c.main, c.o, d)
		return false
	}
	return true
}

func (r *R) describeCall(main string, o popts, cap int) {
	r.Desc("Parse(%q, {%s}), token channel capacity %d", main, o, cap)
}
