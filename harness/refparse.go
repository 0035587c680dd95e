package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"unicode"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
)

// The reference model of Parse: single-threaded, on slices, with no files, channels or goroutines.

// popts are the options of a call in a form that both the model and the real call are made from.
type popts struct {
	ignore     []string
	stop       bool
	combine    bool
	single     bool
	comments   bool
	errUnknown bool
	skipCtx    bool
	skipArgs   bool
	sources    []int // indexes into sourcePool
	exts       *extSet
	callback   bool
	noOpen     bool // leave Options.Open nil
	noGlob     bool // leave Options.Glob nil
}

func (o popts) String() string {
	var p []string
	add := func(b bool, s string) {
		if b {
			p = append(p, s)
		}
	}
	add(o.stop, "StopParsingOnError")
	add(o.combine, "CombineConfigs")
	add(o.single, "SingleFile")
	add(o.comments, "ParseComments")
	add(o.errUnknown, "ErrorOnUnknownDirectives")
	add(o.skipCtx, "SkipDirectiveContextCheck")
	add(o.skipArgs, "SkipDirectiveArgsCheck")
	add(o.callback, "ErrorCallback")
	add(o.noOpen, "Open=nil")
	add(o.noGlob, "Glob=nil")
	if len(o.ignore) > 0 {
		p = append(p, fmt.Sprintf("IgnoreDirectives=%q", o.ignore))
	}
	for _, i := range o.sources {
		p = append(p, "source:"+sourcePool[i].name)
	}
	if o.exts != nil && (o.exts.lua || len(o.exts.specs) > 0) {
		p = append(p, "lexers: "+o.exts.String())
	}
	return strings.Join(p, " ")
}

type source struct {
	name string
	fn   crossplane.MatchFunc
}

func custom(d string) ([]uint, bool) {
	switch d {
	case "foo", "my_directive":
		m, ok := crossplane.MatchOssLatest("root")
		return append([]uint(nil), m...), ok
	case "bar":
		m, ok := crossplane.MatchOssLatest("listen")
		return append([]uint(nil), m...), ok
	}
	return nil, false
}

var sourcePool = []source{
	{"OssLatest", crossplane.MatchOssLatest}, {"custom", custom}, {"Oss124", crossplane.MatchOss124},
	{"LuaLatest", crossplane.MatchLuaLatest}, {"NjsLatest", crossplane.MatchNjsLatest}, {"NginxPlusR30", crossplane.MatchNginxPlusR30},
	{"HeadersMore", crossplane.MatchHeadersMoreLatest}, {"shared table", shared},
}

// shared is a match function whose answers are windows into one array, as those of a table made from a flat list are.
func shared(d string) ([]uint, bool) {
	i, ok := sharedAt[d]
	return sharedMasks[i[0]:i[1]], ok
}

var sharedAt, sharedMasks = func() (map[string][2]int, []uint) {
	at, all := map[string][2]int{}, []uint{}
	for _, d := range []string{"listen", "server", "root", "include", "server_name", "proxy_pass", "location", "http", "worker_processes", "if", "set", "events", "user"} {
		m, ok := crossplane.MatchOss124(d)
		if !ok {
			continue
		}
		at[d] = [2]int{len(all), len(all) + len(m)}
		all = append(all, m...)
	}
	return at, append(all, make([]uint, 8)...)
}()

// mErr is the model's error: where it is and which injected error (if any) it must wrap.
type mErr struct {
	what string
	file string // "" when the error carries no file
	line int    // -1 when the error carries no line
	inj  error
	blk  string // the block it is in, "" if that is not settled
	stmt string // the name of the statement in error, "" if there is none
}

func (e *mErr) Error() string {
	if e.line >= 0 {
		return fmt.Sprintf("%s in %s:%d", e.what, e.file, e.line)
	}
	return e.what
}
func (e *mErr) Unwrap() error { return e.inj }

// world is everything Parse can see, with faults; the model asks it questions, the simulator is set up to agree.
type world struct {
	cwd   string
	files map[string]string // absolute path -> content
	dirs  map[string]bool
	fault map[string]*fileFault
	globs map[string]error // pattern -> error
	list  func(pattern string) ([]string, error)
}

// fileFault is what happens to one file.
type fileFault struct {
	openAll  bool
	openAt   uint64 // bit n: attempt n fails
	openErr  error
	failAt   int // -1 none
	readErr  error
	eofAt    int // -1 none
	withData bool
	mode     int
	latency  int
	closeErr error
}

func (w *world) abs(p string) string {
	if !filepath.IsAbs(p) {
		p = filepath.Join(w.cwd, p)
	}
	return filepath.Clean(p)
}

func (f *fileFault) opens(attempt int) error {
	if f == nil {
		return nil
	}
	if f.openAll || (attempt < 64 && f.openAt>>uint(attempt)&1 == 1) {
		return f.openErr
	}
	return nil
}

type mcall struct {
	w        *world
	o        popts
	payload  *mPayload
	dir      string
	queue    []mFile
	included map[string]int
	order    []string
	edges    map[string][]string
	attempts map[string]int
	masks    []crossplane.MatchFunc
	exts     map[string]extFn
	toks     []Tok
	pos      int
	paths    map[string]bool // absolute paths the call may touch
	globbed  []string
	calls    int
	events   []string // opens and globs in order, for the order checks
	tokens   map[string][]Tok
	maxTok   int
	single   map[string]int
}

type mFile struct {
	path string
	ctx  []string
}

type mPayload struct {
	status string
	errs   []mEntry
	cfgs   []*mConfig
}

type mEntry struct {
	file string
	err  *mErr
	cb   int
}

type mConfig struct {
	file   string
	status string
	errs   []*mErr
	parsed []*mDir
}

type mDir struct {
	name     string
	line     int
	args     []string
	file     string
	includes []int
	isBlock  bool
	block    []*mDir
	comment  *string
	mapParam bool
}

func last(ctx []string) string {
	if len(ctx) == 0 {
		return "main"
	}
	return ctx[len(ctx)-1]
}

// refParse computes what Parse(main, o) must return.
func refParse(w *world, main string, o popts) (*mcall, *mPayload, *mErr) {
	m := &mcall{w: w, o: o, dir: filepath.Dir(main), included: map[string]int{}, edges: map[string][]string{}, attempts: map[string]int{}, paths: map[string]bool{}, tokens: map[string][]Tok{}}
	for _, i := range o.sources {
		m.masks = append(m.masks, sourcePool[i].fn)
	}
	if len(m.masks) == 0 {
		m.masks = []crossplane.MatchFunc{crossplane.DefaultDirectivesMatchFunc}
	}
	if o.exts != nil {
		m.exts = o.exts.models()
	}
	m.payload = &mPayload{status: "ok"}
	m.reach(main, nil)
	for len(m.queue) > 0 {
		f := m.queue[0]
		m.queue = m.queue[1:]
		if err := m.open(f.path); err != nil {
			return m, nil, &mErr{what: "open", line: -1, inj: err}
		}
		toks := m.lex(f.path)
		m.toks, m.pos = toks, 0
		cfg := &mConfig{file: f.path, status: "ok"}
		parsed, err := m.parse(cfg, f.ctx, false)
		if err != nil {
			if o.stop {
				return m, nil, err
			}
			m.fail(cfg, err)
		} else {
			cfg.parsed = parsed
		}
		m.payload.cfgs = append(m.payload.cfgs, cfg)
	}
	if m.cyclic(main) {
		return m, nil, &mErr{what: "cycle", line: -1}
	}
	if o.combine {
		cfg, err := expand(m.payload.cfgs)
		if err != nil {
			return m, nil, err
		}
		if cfg != nil {
			m.payload = &mPayload{status: m.payload.status, errs: m.payload.errs, cfgs: []*mConfig{cfg}}
		}
	}
	return m, m.payload, nil
}

func (m *mcall) reach(p string, ctx []string) {
	if _, ok := m.included[p]; !ok {
		m.included[p] = len(m.included)
		m.order = append(m.order, p)
		m.queue = append(m.queue, mFile{p, append([]string(nil), ctx...)})
	}
}

func (m *mcall) open(p string) error {
	a := m.w.abs(p)
	m.paths[a] = true
	m.events = append(m.events, "open "+a)
	n := m.attempts[a]
	m.attempts[a]++
	if err := m.w.fault[a].opens(n); err != nil {
		return err
	}
	if _, ok := m.w.files[a]; !ok && !m.w.dirs[a] {
		return fs.ErrNotExist
	}
	return nil
}

// lex returns the expected tokens of a file, faults of its source included.
func (m *mcall) lex(p string) []Tok {
	a := m.w.abs(p)
	if t, ok := m.tokens[a]; ok {
		return t
	}
	data, readErr := m.w.files[a], false
	if m.w.dirs[a] {
		data, readErr = "", true
	}
	if f := m.w.fault[a]; f != nil {
		if f.eofAt >= 0 && f.eofAt < len(data) {
			data = data[:f.eofAt]
		}
		if f.failAt >= 0 && f.failAt <= len(data) {
			data, readErr = data[:f.failAt], true
		}
	}
	t := refLex(data, m.exts, readErr)
	m.tokens[a] = t
	if len(t) > m.maxTok {
		m.maxTok = len(t)
	}
	return t
}

// inject returns the error a token with an error must wrap.
func (m *mcall) inject(kind, file string) error {
	switch kind {
	case "ext":
		return errExt
	case "read":
		a := m.w.abs(file)
		if f := m.w.fault[a]; f != nil && f.failAt >= 0 {
			return f.readErr
		}
		if m.w.dirs[a] {
			return syscall.EISDIR
		}
	}
	return nil
}

func (m *mcall) fail(c *mConfig, e *mErr) {
	m.calls++
	c.status = "failed"
	c.errs = append(c.errs, e)
	m.payload.status = "failed"
	m.payload.errs = append(m.payload.errs, mEntry{c.file, e, m.calls})
}

func (m *mcall) tokErr(t Tok, c *mConfig) *mErr {
	line := t.ELine
	if t.Err == "ext" {
		line = t.Line
	}
	return &mErr{what: "token error (" + t.Err + ")", file: c.file, line: line, inj: m.inject(t.Err, c.file)}
}

func (m *mcall) next() (Tok, bool) {
	if m.pos >= len(m.toks) {
		return Tok{}, false
	}
	m.pos++
	return m.toks[m.pos-1], true
}

// skip consumes the rest of a block.
func (m *mcall) skip(c *mConfig) *mErr {
	for depth := 1; depth > 0; {
		t, ok := m.next()
		if !ok {
			return nil
		}
		if t.Err != "" {
			return m.tokErr(t, c)
		}
		if !t.Quoted && t.Value == "{" {
			depth++
		}
		if !t.Quoted && t.Value == "}" {
			depth--
		}
	}
	return nil
}

func (m *mcall) parse(c *mConfig, ctx []string, _ bool) ([]*mDir, *mErr) {
	var out []*mDir
	blk := "main"
	if len(ctx) > 0 {
		blk = last(ctx)
	}
	at := func(e *mErr) *mErr {
		e.blk = blk
		return e
	}
	file := ""
	if m.o.combine {
		file = c.file
	}
	for {
		t, ok := m.next()
		if !ok {
			return out, nil
		}
		if t.Err != "" {
			return nil, at(m.tokErr(t, c))
		}
		if t.Value == "}" && !t.Quoted {
			return out, nil
		}
		if !t.Quoted && (t.Value == "{" || t.Value == ";") {
			return nil, at(&mErr{what: "unexpected " + t.Value, file: c.file, line: t.Line})
		}
		d := &mDir{name: t.Value, line: t.Line, file: file}
		if strings.HasPrefix(t.Value, "#") && !t.Quoted {
			if m.o.comments {
				txt := t.Value[1:]
				d.name, d.comment = "#", &txt
				out = append(out, d)
			}
			continue
		}
		var comments []string
		term := ""
		for term == "" {
			t, ok := m.next()
			if !ok || t.Err == "eof" {
				return nil, at(&mErr{what: "premature end of file", file: c.file, line: d.line})
			}
			switch {
			case !t.Quoted && (t.Value == "{" || t.Value == "}" || t.Value == ";"):
				term = t.Value
			case t.Err != "":
				return nil, at(m.tokErr(t, c))
			case t.Quoted || !strings.HasPrefix(t.Value, "#"):
				d.args = append(d.args, t.Value)
			case m.o.comments:
				comments = append(comments, t.Value[1:])
			}
		}

		bad := ""
		inMap := len(ctx) > 0 && isMap(last(ctx))
		switch {
		case inMap:
			bad = badParam(last(ctx), d, term)
		case contains(m.o.ignore, d.name):
			if term == "{" {
				if err := m.skip(c); err != nil {
					return nil, err
				}
			}
			if term == "}" {
				return out, nil
			}
			continue
		default:
			bad = m.validate(d, term, ctx)
			if bad == "" && term == "}" {
				bad = "not terminated"
			}
			if bad == "" && !m.o.single && d.name == "include" && len(d.args) == 0 {
				bad = "include without arguments"
			}
		}
		if bad != "" {
			err := at(&mErr{what: bad, file: c.file, line: d.line, stmt: d.name})
			if m.o.stop {
				return nil, err
			}
			m.fail(c, err)
			if term == "}" {
				return out, nil
			}
			if term == "{" {
				if err := m.skip(c); err != nil {
					return nil, err
				}
			}
			continue
		}
		if inMap {
			d.mapParam = true
			out = append(out, d)
			continue
		}
		if d.name == "if" {
			d.args = stripParens(d.args)
		}
		if d.name == "include" && !m.o.single {
			if err := m.doInclude(c, d, ctx); err != nil {
				return nil, err
			}
		}
		if term == "{" {
			d.isBlock = true
			b, err := m.parse(c, inner(ctx, d.name), false)
			if err != nil {
				return nil, err
			}
			d.block = b
		}
		out = append(out, d)
		for _, txt := range comments {
			txt := txt
			out = append(out, &mDir{name: "#", line: d.line, file: file, comment: &txt})
		}
	}
}

func inner(ctx []string, name string) []string {
	if len(ctx) > 0 && ctx[0] == "http" && name == "location" {
		return []string{"http", "location"}
	}
	return append(append([]string(nil), ctx...), name)
}

func (m *mcall) doInclude(c *mConfig, d *mDir, ctx []string) *mErr {
	p := d.args[0]
	if !filepath.IsAbs(p) {
		p = filepath.Join(m.dir, p)
	}
	var names []string
	if strings.ContainsAny(p, "*?[") {
		m.globbed = append(m.globbed, p)
		m.events = append(m.events, "glob "+p)
		if err := m.w.globs[p]; err != nil {
			return &mErr{what: "glob", file: "", line: -1, inj: err}
		}
		l, err := m.w.list(p)
		if err != nil {
			return &mErr{what: "glob", file: "", line: -1, inj: err}
		}
		names = append(names, l...)
		sort.Strings(names)
	} else {
		if err := m.open(p); err != nil {
			e := &mErr{what: "include", file: c.file, line: d.line, stmt: d.name, blk: "main"}
			if len(ctx) > 0 {
				e.blk = last(ctx)
			}
			if m.o.stop {
				return e
			}
			m.fail(c, e)
			return nil
		}
		names = []string{p}
	}
	for _, n := range names {
		m.reach(n, ctx)
		d.includes = append(d.includes, m.included[n])
		m.edges[c.file] = append(m.edges[c.file], n)
	}
	return nil
}

func (m *mcall) cyclic(main string) bool {
	state := map[string]int{}
	var visit func(f string) bool
	visit = func(f string) bool {
		state[f] = 1
		for _, t := range m.edges[f] {
			if state[t] == 1 || (state[t] == 0 && visit(t)) {
				return true
			}
		}
		state[f] = 2
		return false
	}
	return visit(main)
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func stripParens(a []string) []string {
	if len(a) == 0 {
		return a
	}
	e := len(a) - 1
	if !strings.HasPrefix(a[0], "(") || !strings.HasSuffix(a[e], ")") {
		return a
	}
	out := append([]string(nil), a...)
	out[0] = strings.TrimLeftFunc(out[0][1:], unicode.IsSpace)
	out[e] = strings.TrimRightFunc(strings.TrimSuffix(out[e], ")"), unicode.IsSpace)
	if out[e] == "" {
		out = out[:e]
	}
	if len(out) > 0 && out[0] == "" {
		out = out[1:]
	}
	return out
}

// ---------------------------------------------------------------------------------------------------------------
// Statement validation, from the masks of the exported match functions.

const (
	mBlock = 0x100
	mExpr  = 0x200
	mFlag  = 0x400
	mAny   = 0x800
	m1More = 0x1000
	m2More = 0x2000
)

var ctxMask = map[string]uint{
	"": 0x40000, "events": 0x80000, "mail": 0x100000, "mail>server": 0x200000, "stream": 0x400000, "stream>server": 0x800000,
	"stream>upstream": 0x1000000, "http": 0x2000000, "http>server": 0x4000000, "http>location": 0x8000000, "http>upstream": 0x10000000,
	"http>server>if": 0x20000000, "http>location>if": 0x40000000, "http>location>limit_except": 0x80000000, "mgmt": 0x20000,
	"http>oidc_provider": 0x100000000,
}

func onOff(s string) bool { return strings.EqualFold(s, "on") || strings.EqualFold(s, "off") }

func argsFit(mask uint, args []string) bool {
	n := len(args)
	return n <= 7 && mask>>uint(n)&1 == 1 || mask&mFlag != 0 && n == 1 && onOff(args[0]) || mask&mAny != 0 ||
		mask&m1More != 0 && n >= 1 || mask&m2More != 0 && n >= 2
}

func exprOK(a []string) bool {
	if len(a) == 0 || !strings.HasPrefix(a[0], "(") || !strings.HasSuffix(a[len(a)-1], ")") {
		return false
	}
	switch len(a) {
	case 1:
		return len(a[0]) > 2
	case 2:
		return len(a[0]) > 1 || len(a[1]) > 1
	}
	return true
}

func (m *mcall) validate(d *mDir, term string, ctx []string) string {
	var masks []uint
	known := false
	for _, f := range m.masks {
		if l, ok := f(d.name); ok {
			known = true
			masks = append(masks, l...)
		}
	}
	if !known {
		if m.o.errUnknown {
			return "unknown directive"
		}
		return ""
	}
	cm, ok := ctxMask[strings.Join(ctx, ">")]
	if !ok {
		return ""
	}
	if !m.o.skipCtx {
		var l []uint
		for _, k := range masks {
			if k&cm != 0 {
				l = append(l, k)
			}
		}
		if len(l) == 0 {
			return "not allowed here"
		}
		masks = l
	}
	if m.o.skipArgs {
		return ""
	}
	for _, k := range masks {
		if k&mExpr != 0 && !exprOK(d.args) {
			continue
		}
		if (k&mBlock != 0) != (term == "{") || (k&mBlock == 0) != (term == ";") {
			continue
		}
		if argsFit(k, d.args) {
			return ""
		}
	}
	return "invalid statement"
}

func isMap(n string) bool {
	switch n {
	case "charset_map", "geo", "map", "match", "types", "split_clients", "geoip2", "otel_exporter":
		return true
	}
	return false
}

func badParam(ctx string, d *mDir, term string) string {
	if term != ";" {
		return "unexpected " + term
	}
	n := len(d.args)
	switch {
	case ctx == "geo" && (d.name == "ranges" || d.name == "proxy_recursive"), ctx == "map" && (d.name == "volatile" || d.name == "hostnames"):
		if n == 0 {
			return ""
		}
	case ctx == "match", ctx == "types", ctx == "geoip2" && d.name != "auto_reload":
		if n >= 1 {
			return ""
		}
	default:
		if n == 1 {
			return ""
		}
	}
	return "invalid number of parameters"
}

// ---------------------------------------------------------------------------------------------------------------
// Combining

func expand(cfgs []*mConfig) (*mConfig, *mErr) {
	if len(cfgs) == 0 {
		return nil, nil
	}
	out := &mConfig{file: cfgs[0].file, status: "ok"}
	for _, c := range cfgs {
		out.errs = append(out.errs, c.errs...)
		if c.status == "failed" {
			out.status = "failed"
		}
	}
	var exp func(from string, b []*mDir, path []int) ([]*mDir, *mErr)
	exp = func(from string, b []*mDir, path []int) ([]*mDir, *mErr) {
		var res []*mDir
		for _, d := range b {
			c := *d
			if c.isBlock {
				nb, err := exp(from, d.block, path)
				if err != nil {
					return nil, err
				}
				c.block = nb
			}
			if !(c.name == "include" && c.includes != nil) {
				res = append(res, &c)
				continue
			}
			for _, i := range c.includes {
				if i < 0 || i >= len(cfgs) {
					return nil, &mErr{what: "bad include index", file: from, line: c.line}
				}
				for _, p := range path {
					if p == i {
						return nil, &mErr{what: "include cycle", file: from, line: c.line}
					}
				}
				nb, err := exp(cfgs[i].file, cfgs[i].parsed, append(append([]int(nil), path...), i))
				if err != nil {
					return nil, err
				}
				res = append(res, nb...)
			}
		}
		return res, nil
	}
	p, err := exp(out.file, cfgs[0].parsed, []int{0})
	if err != nil {
		return nil, err
	}
	out.parsed = p
	return out, nil
}

// ---------------------------------------------------------------------------------------------------------------
// Canonical dumps, compared line by line.

type dumper struct {
	sb     strings.Builder
	noLine bool
}

func (d *dumper) p(f string, a ...interface{}) { fmt.Fprintf(&d.sb, f+"\n", a...) }

func ints(l []int) string {
	if l == nil {
		return "-"
	}
	return fmt.Sprint(l)
}

func (d *dumper) mdirs(l []*mDir, ind string) {
	for _, x := range l {
		c := "-"
		if x.comment != nil {
			c = fmt.Sprintf("%q", *x.comment)
		}
		d.p("%s%q line=%d args=%q file=%q includes=%s block=%v comment=%s map=%v", ind, x.name, x.line, x.args, x.file, ints(x.includes), x.isBlock, c, x.mapParam)
		d.mdirs(x.block, ind+"  ")
	}
}

func (d *dumper) dirs(l crossplane.Directives, ind string) {
	for _, x := range l {
		if x == nil {
			d.p("%s<nil directive>", ind)
			continue
		}
		c := "-"
		if x.Comment != nil {
			c = fmt.Sprintf("%q", *x.Comment)
		}
		d.p("%s%q line=%d args=%q file=%q includes=%s block=%v comment=%s map=%v", ind, x.Directive, x.Line, x.Args, x.File, ints(x.Includes), x.Block != nil, c, x.IsMapBlockParameter)
		d.dirs(x.Block, ind+"  ")
	}
}

// knownInj are the injected errors that an error is checked for wrapping.
func injName(err error) string {
	var t *testErr
	if errors.As(err, &t) {
		return t.s
	}
	for _, e := range []error{syscall.EISDIR, syscall.EIO, syscall.EMFILE, syscall.EACCES, syscall.ESTALE, io.ErrUnexpectedEOF, context.Canceled, os.ErrDeadlineExceeded, os.ErrClosed, io.EOF, io.ErrClosedPipe, io.ErrNoProgress, bufio.ErrTooLong} {
		if errors.Is(err, e) {
			return e.Error()
		}
	}
	if errors.Is(err, fs.ErrNotExist) {
		return "not exist"
	}
	return "-"
}

func lineStr(l *int) string {
	if l == nil {
		return "none"
	}
	return fmt.Sprint(*l)
}

// errStr describes a real error by what the properties promise about it.
func errStr(err error) string {
	if err == nil {
		return "no error"
	}
	var pe *crossplane.ParseError
	if p, ok := err.(*crossplane.ParseError); ok {
		pe = p
	}
	if pe == nil {
		return fmt.Sprintf("file=none line=none wraps=%s", injName(err))
	}
	f := "none"
	if pe.File != nil {
		f = *pe.File
	}
	return fmt.Sprintf("file=%s line=%s wraps=%s", f, lineStr(pe.Line), injName(err))
}

func merrStr(e *mErr) string {
	if e == nil {
		return "no error"
	}
	if e.line < 0 {
		return fmt.Sprintf("file=none line=none wraps=%s", injName(e.Unwrap()))
	}
	return fmt.Sprintf("file=%s line=%d wraps=%s", e.file, e.line, injName(e.Unwrap()))
}

func mline(e *mErr) string {
	if e.line < 0 {
		return "none"
	}
	return fmt.Sprint(e.line)
}

func dumpModel(p *mPayload, err *mErr, cb bool) string {
	d := &dumper{}
	d.p("returned: %s", merrStr(err))
	if p == nil || err != nil {
		d.p("no payload")
		return d.sb.String()
	}
	d.p("payload %s, %d errors, %d configs", p.status, len(p.errs), len(p.cfgs))
	for _, e := range p.errs {
		c := "-"
		if cb {
			c = fmt.Sprint(e.cb)
		}
		d.p("payload error %s:%s callback=%s %s", e.file, mline(e.err), c, merrStr(e.err))
	}
	for i, c := range p.cfgs {
		d.p("config %d %s %s", i, c.file, c.status)
		for _, e := range c.errs {
			d.p("  error line %s %s", mline(e), merrStr(e))
		}
		d.mdirs(c.parsed, "  ")
	}
	return d.sb.String()
}

func dumpReal(p *crossplane.Payload, err error) string {
	d := &dumper{}
	d.p("returned: %s", errStr(err))
	if p == nil {
		d.p("no payload")
		return d.sb.String()
	}
	d.p("payload %s, %d errors, %d configs", p.Status, len(p.Errors), len(p.Config))
	for _, e := range p.Errors {
		c := "-"
		if e.Callback != nil {
			c = fmt.Sprint(e.Callback)
		}
		d.p("payload error %s:%s callback=%s %s", e.File, lineStr(e.Line), c, errStr(e.Error))
	}
	for i, c := range p.Config {
		d.p("config %d %s %s", i, c.File, c.Status)
		for _, e := range c.Errors {
			d.p("  error line %s %s", lineStr(e.Line), errStr(e.Error))
		}
		d.dirs(c.Parsed, "  ")
	}
	return d.sb.String()
}

// firstDiff describes the first line in which two dumps differ.
func firstDiff(want, got string) string {
	if want == got {
		return ""
	}
	a, b := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "<end>", "<end>"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("line %d of the result\n  expected: %s\n  actual:   %s", i+1, clip(x, 600), clip(y, 600))
		}
	}
	return "?"
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
