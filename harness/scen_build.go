package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"unicode"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
	sim "github.com/nginxinc/nginx-go-crossplane/internal/verifsim"
)

// ---------------------------------------------------------------------------------------------------------------
// Payloads

var argPool = []string{"a", "b c", "", "$x", "${y}z", "it's", "say \"hi\"", "a;b", "{", "é世", "a\\nb", "\\", "long long", "on", "80", "/path/to", "~*", "\n", "#x", "x#y"}

func genDirs(r *R, depth int, budget *int, nconf int) crossplane.Directives {
	var out crossplane.Directives
	n := r.Src.Draw(5)
	for i := 0; i < n && *budget > 0; i++ {
		*budget--
		d := &crossplane.Directive{Directive: pick(r, []string{"a", "server", "listen", "location", "if", "map", "x y", "content_by_lua_block", "set_by_lua_block", "é"}), Line: r.Src.Draw(12), Args: []string{}}
		k := r.Src.Draw(4)
		for j := 0; j < k; j++ {
			d.Args = append(d.Args, pick(r, argPool))
		}
		switch r.Src.DrawW(5, 2, 3) {
		case 1:
			c := pick(r, []string{" comment", "", "x { y", "é"})
			d = &crossplane.Directive{Directive: "#", Line: d.Line, Args: []string{}, Comment: &c}
		case 2:
			if depth < 5 {
				d.Block = genDirs(r, depth+1, budget, nconf)
				if d.Block == nil {
					d.Block = crossplane.Directives{}
				}
			}
		}
		out = append(out, d)
	}
	return out
}

// genPayload makes a payload with distinct file names unless dup.
func genPayload(r *R, maxConf int, dup bool, abs bool) *crossplane.Payload {
	pl := &crossplane.Payload{Status: "ok", Errors: []crossplane.PayloadError{}, Config: []crossplane.Config{}}
	names := []string{"nginx.conf", "conf.d/a.conf", "conf.d/b.conf", "x/y/z/deep.conf", "sites/é", "./dot.conf", "up/../norm.conf", "b.conf", "a b.conf"}
	if abs {
		names = append(names, "/abs/etc/n.conf", "/abs/m.conf", "/w/in-cwd.conf")
	}
	n := 1 + r.Src.Draw(maxConf)
	off := r.Src.Draw(len(names))
	for i := 0; i < n; i++ {
		nm := names[(off+i)%len(names)]
		if dup && i > 0 && r.Src.Draw(4) == 3 {
			nm = pl.Config[r.Src.Draw(i)].File
		}
		b := 3 + r.Src.Draw(15)
		c := crossplane.Config{File: nm, Status: "ok", Errors: []crossplane.ConfigError{}, Parsed: genDirs(r, 0, &b, n)}
		if c.Parsed == nil && r.Src.Draw(2) == 0 {
			c.Parsed = crossplane.Directives{}
		}
		if len(c.Parsed) > 0 && r.Src.Draw(6) == 5 { // a long file
			k := []int{50, 400}[r.Src.Draw(2)]
			for j := 0; j < k; j++ {
				c.Parsed = append(c.Parsed, c.Parsed[j%len(c.Parsed)])
			}
		}
		if len(c.Parsed) > 0 && r.Src.Draw(8) == 7 { // the text ends in white space
			s := " trailing \t "
			c.Parsed = append(c.Parsed, &crossplane.Directive{Directive: "#", Line: 1000, Args: []string{}, Comment: &s})
		}
		pl.Config = append(pl.Config, c)
	}
	spareAll(r, pl)
	return pl
}

func genBuildOpts(r *R) *crossplane.BuildOptions {
	o := &crossplane.BuildOptions{Indent: []int{4, 0, 1, 2, 8, 30, 101}[r.Src.Draw(7)], Tabs: r.Src.Draw(3) == 2, Header: r.Src.Draw(3) == 2}
	switch r.Src.DrawW(4, 2, 1) {
	case 1:
		o.Builders = append(o.Builders, (&crossplane.Lua{}).RegisterBuilder())
	case 2:
		o.Builders = append(o.Builders, (&crossplane.Lua{}).RegisterBuilder(), crossplane.BuildWithBuilder(tagBuilder{r, "T"}, "server", "listen"))
	}
	return o
}

func showBuildOpts(o *crossplane.BuildOptions) string {
	return fmt.Sprintf("{Indent:%d Tabs:%v Header:%v %d builders}", o.Indent, o.Tabs, o.Header, len(o.Builders))
}

// tagBuilder is an external builder.
type tagBuilder struct {
	r   *R
	tag string
}

func (t tagBuilder) Build(d *crossplane.Directive) string {
	if sim.Active() && !sim.Killed() {
		sim.Point("builder")
	}
	t.r.user()
	return fmt.Sprintf("%s<%s %s>;", t.tag, d.Directive, strings.Join(d.Args, ","))
}

// textOf is the fault-free text of a config: what Build writes to a writer that accepts everything.
func textOf(c crossplane.Config, o *crossplane.BuildOptions) string {
	var b bytes.Buffer
	cp := *o
	cp.Builders = append([]crossplane.RegisterBuilder(nil), o.Builders...)
	if err := crossplane.Build(&b, c, &cp); err != nil {
		panic("Build into a buffer failed: " + err.Error())
	}
	return b.String()
}

func fileText(t string) string {
	return strings.TrimRightFunc(t, unicode.IsSpace) + "\n"
}

// bworld is the workload of the BuildFiles scenarios.
type bworld struct {
	pl    *crossplane.Payload
	o     *crossplane.BuildOptions
	dir   string
	paths []string // absolute target paths, in payload order
	text  []string
	old   map[string]string
	had   map[string]bool
}

func genBWorld(r *R, dup bool) *bworld {
	w := &bworld{old: map[string]string{}, had: map[string]bool{}}
	w.pl = genPayload(r, 5, dup, true)
	w.o = genBuildOpts(r)
	w.dir = []string{"", "out", "/srv/out", "out/nested/dir", "."}[r.Src.Draw(5)]
	base := w.dir
	if base == "" {
		base = r.FS.Cwd
	}
	for _, c := range w.pl.Config {
		p := c.File
		if !filepath.IsAbs(p) {
			p = filepath.Join(base, p)
		}
		p = r.FS.Abs(p)
		w.paths = append(w.paths, p)
		w.text = append(w.text, fileText(textOf(c, w.o)))
		if r.Src.Draw(2) == 1 && !w.had[p] {
			w.had[p] = true
			w.old[p] = pick(r, []string{"old content\n", "", strings.Repeat("old old old\n", 500)})
			r.FS.Put(p, w.old[p])
		}
		r.Bytes += len(w.text[len(w.text)-1])
	}
	r.FS.Put("/w/bystander.txt", "untouched")
	r.FS.Put(filepath.Join(filepath.Dir(w.paths[0]), "zz-other.conf"), "other")
	r.Desc("BuildFiles(%d configs, dir %q, %s)", len(w.pl.Config), w.dir, showBuildOpts(w.o))
	for i, c := range w.pl.Config {
		r.Desc("  config %d %q -> %s, %d bytes, existed before: %v", i, c.File, w.paths[i], len(w.text[i]), w.had[w.paths[i]])
	}
	return w
}

type fault struct {
	op    string
	nth   int
	err   error
	n     int
	crash int // 1 before, 2 after
	fired bool
}

// armOps makes the nth operation of a kind fail.
func armOps(r *R, tag int, fs []*fault) {
	count := map[string]int{}
	r.FS.Hook = func(op, path string, h *sim.Handle) sim.Fault {
		if sim.CurTag() != tag {
			return sim.Fault{}
		}
		n := count[op]
		count[op]++
		any := count["*"]
		count["*"]++
		for _, f := range fs {
			if (f.op == op && f.nth == n) || (f.op == "*" && f.nth == any) {
				f.fired = true
				if f.crash > 0 {
					return sim.Fault{N: f.n, Crash: f.crash == 1, CrashAfter: f.crash == 2}
				}
				r.S.Count(op + "-error")
				return sim.Fault{Err: f.err, N: f.n}
			}
		}
		return sim.Fault{}
	}
}

var diskErrs = []error{syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EMFILE, errRead, fmt.Errorf("wrapped %w", syscall.EROFS)}

func diskErr(r *R) error {
	return []error{&testErr{"disk says no"}, syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EMFILE, syscall.EDQUOT, io.ErrShortWrite, os.ErrClosed, syscall.EFBIG}[r.Src.Draw(9)]
}

// C13: BuildFiles reports success only if everything is written.
func scenC13(r *R) {
	w := genBWorld(r, true)
	var fs []*fault
	k := r.Src.DrawW(3, 5, 1)
	for i := 0; i < k; i++ {
		f := &fault{op: []string{"write", "close", "create", "mkdir", "getwd"}[r.Src.DrawW(4, 3, 3, 2, 1)], nth: r.Src.Draw(len(w.paths) + 1), err: diskErr(r)}
		if f.op == "getwd" {
			f.nth = 0
		}
		if f.op == "write" {
			f.n = r.Src.Draw(1 + len(w.text[f.nth%len(w.text)]))
		}
		fs = append(fs, f)
		r.Desc("fault: %s number %d fails with %v (after %d bytes)", f.op, f.nth, f.err, f.n)
	}
	obstacle := ""
	switch r.Src.DrawW(8, 1, 1) {
	case 1: // a file where a directory is needed
		if d := filepath.Dir(w.paths[len(w.paths)-1]); d != "/w" && d != "/" && filepath.Dir(w.paths[0]) != d {
			if _, ok := r.FS.Get(d); !ok {
				if ps, _ := r.FS.Snapshot(); !contains(ps, d+"/") {
					r.FS.Put(d, "I am a file")
					obstacle = d
				}
			}
		}
	case 2: // a directory where a file goes
		if !w.had[w.paths[len(w.paths)-1]] {
			p := w.paths[len(w.paths)-1]
			ps, _ := r.FS.Snapshot()
			if !contains(ps, p+"/") && !contains(ps, p) {
				r.FS.PutDir(p)
				obstacle = p
			}
		}
	}
	if obstacle != "" {
		r.Desc("obstacle at %s", obstacle)
	}
	before, bdata := r.FS.Snapshot()
	armOps(r, 1, fs)
	plDump, mem := dumpReal(w.pl, nil), memOf(w.pl)
	var err error
	done := false
	r.Exec(func() {
		sim.Join(sim.GoNamed("BuildFiles", 1, func() {
			err = crossplane.BuildFiles(*w.pl, w.dir, w.o)
			done = true
		}))
	})
	if r.S.Outcome != sim.OutOK {
		return
	}
	r.Evals++
	r.Nontriv = len(w.paths) > 1 || k > 0
	if !done {
		r.Unsound = "BuildFiles did not return"
		return
	}
	var first *fault
	for _, f := range fs {
		if f.fired && (first == nil) {
			first = f
		}
	}
	if first != nil && err == nil {
		r.Fail("success-after-fault", "%s number %d failed with %v, but BuildFiles returned nil", first.op, first.nth, first.err)
		return
	}
	if first != nil {
		ok := false
		for _, f := range fs {
			if f.fired && errors.Is(err, f.err) {
				ok = true
			}
		}
		if !ok {
			r.Fail("other-error", "%s number %d failed with %v, but BuildFiles returned %v", first.op, first.nth, first.err, err)
			return
		}
	}
	if first == nil && obstacle == "" && err != nil {
		r.Fail("spurious-error", "nothing failed, but BuildFiles returned %v", err)
		return
	}
	if obstacle != "" && err == nil {
		r.Fail("success-after-fault", "%s is in the way, but BuildFiles returned nil", obstacle)
		return
	}
	if err == nil {
		checkWritten(r, w)
	}
	var strays map[string]bool
	if err != nil {
		strays = w.strays(r, before)
	}
	checkBystanders(r, w, before, bdata, strays)
	checkWriteHandles(r)
	if d := dumpReal(w.pl, nil); d != plDump || !mem.same(w.pl) {
		r.Fail("payload-modified", "BuildFiles modified the payload: %s", firstDiff(plDump, d))
	}
}

func checkWriteHandles(r *R) {
	for _, h := range r.FS.Handles {
		if h.Closes != 1 {
			r.Fail("handle", "%s was closed %d times", h.Path, h.Closes)
		}
	}
	if len(r.FS.Misuse) > 0 {
		r.Fail("handle", "%s", strings.Join(r.FS.Misuse, "; "))
	}
}

func checkWritten(r *R, w *bworld) {
	for i, p := range w.paths {
		// a later config of the same name wins
		lastOne := true
		for j := i + 1; j < len(w.paths); j++ {
			if w.paths[j] == p {
				lastOne = false
			}
		}
		if !lastOne {
			continue
		}
		r.Evals++
		got, ok := r.FS.Get(p)
		if !ok {
			r.Fail("missing-file", "BuildFiles returned nil, but %s does not exist", p)
			return
		}
		if got != w.text[i] {
			r.Fail("content", "BuildFiles returned nil, but %s holds\n%s\ninstead of\n%s", p, show(got, 500), show(w.text[i], 500))
			return
		}
	}
}

// strays are the files that have appeared next to the targets: an interrupted call may leave temporary files.
func (w *bworld) strays(r *R, before []string) map[string]bool {
	m := map[string]bool{}
	after, _ := r.FS.Snapshot()
	for _, p := range after {
		if contains(before, p) || contains(w.paths, p) || strings.HasSuffix(p, "/") {
			continue
		}
		for _, t := range w.paths {
			if filepath.Dir(t) == filepath.Dir(p) {
				m[p] = true
			}
		}
	}
	return m
}

// checkBystanders: nothing but the targets, created parent directories and the given strays has changed.
func checkBystanders(r *R, w *bworld, paths, data []string, strays map[string]bool) {
	was := map[string]int{}
	for i, p := range paths {
		was[p] = i + 1
	}
	isTarget := func(p string) bool { return contains(w.paths, p) }
	after, adata := r.FS.Snapshot()
	now := map[string]bool{}
	for i, p := range after {
		now[p] = true
		if isTarget(p) {
			continue
		}
		j := was[p]
		if j == 0 {
			ok := strays[p]
			if strings.HasSuffix(p, "/") {
				for _, t := range w.paths {
					if strings.HasPrefix(t, p) {
						ok = true
					}
				}
			}
			if !ok {
				r.Fail("foreign-file", "%s has appeared", p)
			}
			continue
		}
		if data[j-1] != adata[i] {
			r.Fail("foreign-file", "%s has changed", p)
		}
	}
	for _, p := range paths {
		if !now[p] && !isTarget(p) {
			r.Fail("foreign-file", "%s has disappeared", p)
		}
	}
}

// C14: an interrupted BuildFiles.
func scenC14(r *R) {
	w := genBWorld(r, false)
	f := &fault{}
	total := 4*len(w.paths) + 1
	f.op, f.nth = "*", r.Src.Draw(total)
	if r.Src.Draw(2) == 1 {
		f.op = []string{"write", "create", "close"}[r.Src.Draw(3)]
		f.nth = r.Src.Draw(len(w.paths))
	}
	f.n = r.Src.Draw(1 + len(w.text[r.Src.Draw(len(w.text))]))
	kind := r.Src.Draw(3)
	if kind == 2 {
		f.err = diskErr(r)
		r.Desc("interruption: operation %s number %d fails with %v after %d bytes", f.op, f.nth, f.err, f.n)
	} else {
		f.crash = 1 + kind
		r.Desc("interruption: the process dies %s operation %s number %d (a write gets %d bytes through)", []string{"in", "after"}[kind], f.op, f.nth, f.n)
	}
	armOps(r, 1, []*fault{f})
	before, bdata := r.FS.Snapshot()
	var err error
	returned := false
	var strays map[string]bool
	second := errors.New("not called")
	r.Exec(func() {
		sim.Join(sim.GoNamed("BuildFiles", 1, func() {
			err = crossplane.BuildFiles(*w.pl, w.dir, w.o)
			returned = true
		}))
		if !checkInterrupted(r, w, returned && err == nil) {
			return
		}
		if !returned || err != nil {
			strays = w.strays(r, before)
		}
		checkBystanders(r, w, before, bdata, strays)
		// the rerun happens in a new process
		r.S.Log("rerun", "", 0, 0)
		sim.Join(sim.GoNamed("BuildFiles again", 2, func() {
			second = crossplane.BuildFiles(*w.pl, w.dir, w.o)
		}))
	})
	if r.S.Outcome != sim.OutOK {
		return
	}
	r.Nontriv = f.fired
	r.Evals++
	if r.Viol != nil {
		return
	}
	if second != nil {
		r.Fail("rerun-fails", "calling BuildFiles again without faults returned %v", second)
		return
	}
	checkWritten(r, w)
	checkBystanders(r, w, before, bdata, strays)
}

func checkInterrupted(r *R, w *bworld, complete bool) bool {
	r.Evals++
	// the configs before the one in progress are complete, those after it untouched
	state := func(i int) (isNew, isOld, partial bool, got string) {
		got, ok := r.FS.Get(w.paths[i])
		isNew = ok && got == w.text[i]
		isOld = ok == w.had[w.paths[i]] && got == w.old[w.paths[i]]
		partial = ok && strings.HasPrefix(w.text[i], got)
		return
	}
	for cur := 0; cur <= len(w.paths); cur++ {
		ok := true
		for i := range w.paths {
			n, o, p, _ := state(i)
			switch {
			case i < cur:
				ok = ok && n
			case i == cur:
				ok = ok && (n || o || p)
			default:
				ok = ok && o
			}
		}
		if complete && cur < len(w.paths) {
			continue
		}
		if ok {
			return true
		}
	}
	var sb strings.Builder
	for i, p := range w.paths {
		n, o, pa, got := state(i)
		fmt.Fprintf(&sb, "\n  %s: new content %v, old content %v, prefix of the new content %v: %s", p, n, o, pa, show(got, 120))
	}
	r.Fail("damage", "after the interruption more than the file in progress is affected (returned successfully: %v):%s", complete, sb.String())
	return false
}

// ---------------------------------------------------------------------------------------------------------------
// C15

// sink is a writer under the control of the simulator.
type sink struct {
	r      *R
	name   string
	got    bytes.Buffer
	calls  int
	failAt int // total bytes accepted before failing; -1 never
	err    error
	slow   int
	closes int
	cerr   error
	failed bool
	late   bool // the write that reaches failAt fails, although it accepts every byte
	log    *[]string
}

func (s *sink) Write(p []byte) (int, error) {
	if sim.Killed() {
		return 0, io.ErrClosedPipe
	}
	sim.Point("sink-write")
	s.r.user()
	s.calls++
	if s.slow > 0 {
		if v := s.r.Src.Env(s.slow+1, nil); v > 0 {
			sim.Sleep(msec(v))
		}
	}
	if s.closes > 0 {
		s.r.Fail("write-after-close", "%s is written to after it was closed", s.name)
	}
	if s.failed {
		s.r.Fail("write-after-error", "%s is written to after a write to it had failed", s.name)
	}
	if s.failAt >= 0 && (s.got.Len()+len(p) > s.failAt || s.late && s.got.Len()+len(p) == s.failAt && len(p) > 0) {
		n := s.failAt - s.got.Len()
		s.got.Write(p[:n])
		s.failed = true
		s.r.S.Count("sink-write-error")
		s.r.S.Log("sink-write", s.name, n, 1)
		return n, s.err
	}
	s.r.S.Log("sink-write", s.name, len(p), 0)
	s.got.Write(p)
	return len(p), nil
}

func (s *sink) Close() error {
	s.closes++
	s.r.S.Log("sink-close", s.name, s.closes, 0)
	if s.cerr != nil {
		s.r.S.Count("sink-close-error")
	}
	return s.cerr
}

type creator struct {
	r     *R
	sinks []*sink
	plan  []*sink
	fail  map[int]error
	calls []string
}

func (c *creator) Create(p string) (io.WriteCloser, error) {
	i := len(c.calls)
	c.calls = append(c.calls, p)
	sim.Point("create-target")
	c.r.user()
	c.r.S.Log("create-target", p, i, 0)
	if err := c.fail[i]; err != nil {
		c.r.S.Count("create-error")
		return nil, err
	}
	if i >= len(c.plan) {
		return &sink{r: c.r, name: p, failAt: -1}, nil
	}
	s := c.plan[i]
	s.name = p
	c.sinks = append(c.sinks, s)
	return s, nil
}
func (c *creator) Reset() {}

func scenC15(r *R) {
	pl := genPayload(r, 5, true, true)
	o := genBuildOpts(r)
	var texts []string
	for _, c := range pl.Config {
		texts = append(texts, textOf(c, o))
		r.Bytes += len(texts[len(texts)-1])
	}
	genSink := func(i int) *sink {
		s := &sink{r: r, failAt: -1, slow: []int{0, 0, 5}[r.Src.Draw(3)]}
		if r.Src.Draw(4) == 3 {
			s.failAt = r.Src.Draw(len(texts[i]) + 1)
			switch {
			case s.failAt < len(texts[i]):
				s.err = &testErr{fmt.Sprint("write error of target ", i)}
				s.late = s.failAt > 0 && r.Src.Draw(8) == 7
			case s.failAt > 0:
				s.err = &testErr{fmt.Sprint("late write error of target ", i)}
				s.late = true
			default:
				s.failAt = -1
			}
		}
		if r.Src.Draw(5) == 4 {
			s.cerr = &testErr{fmt.Sprint("close error of target ", i)}
		}
		return s
	}
	r.Desc("%d configs, options %s", len(pl.Config), showBuildOpts(o))
	r.Nontriv = true
	dump, mem := dumpReal(pl, nil), memOf(pl)
	if r.Src.Draw(2) == 0 {
		i := r.Src.Draw(len(pl.Config))
		s := genSink(i)
		r.Desc("Build of config %d (%d bytes) into a writer failing after %d bytes with %v", i, len(texts[i]), s.failAt, s.err)
		var err error
		r.Exec(func() { err = crossplane.Build(s, pl.Config[i], o) })
		if r.S.Outcome != sim.OutOK {
			return
		}
		r.Evals++
		judgeSink(r, "Build", s, texts[i], err)
		if s.closes > 0 {
			r.Fail("closed", "Build closed its writer")
		}
	} else {
		cr := &creator{r: r, fail: map[int]error{}}
		for i := range pl.Config {
			s := genSink(i)
			cr.plan = append(cr.plan, s)
			if r.Src.Draw(8) == 7 {
				cr.fail[i] = &testErr{fmt.Sprint("create error of target ", i)}
			}
			r.Desc("target %d: create error %v, write error %v after %d bytes, close error %v", i, cr.fail[i], s.err, s.failAt, s.cerr)
		}
		var err error
		r.Exec(func() { err = crossplane.BuildInto(pl, cr, o) })
		if r.S.Outcome != sim.OutOK {
			return
		}
		r.Evals++
		// expected history
		var want error
		created := 0
		for i := range pl.Config {
			created++
			if e := cr.fail[i]; e != nil {
				want = e
				break
			}
			if cr.plan[i].failAt >= 0 {
				want = cr.plan[i].err
				break
			}
			if cr.plan[i].cerr != nil {
				want = cr.plan[i].cerr
				break
			}
		}
		if len(cr.calls) != created {
			r.Fail("targets", "BuildInto asked for %d targets (%v) instead of %d: the first error is %v", len(cr.calls), cr.calls, created, want)
			return
		}
		for i, c := range cr.calls {
			if c != pl.Config[i].File {
				r.Fail("targets", "target %d is %q, expected %q", i, c, pl.Config[i].File)
				return
			}
		}
		if want == nil && err != nil || want != nil && !errors.Is(err, want) {
			r.Fail("error", "the first error is %v, BuildInto returned %v", want, err)
			return
		}
		k := 0
		for i := 0; i < created; i++ {
			if cr.fail[i] != nil {
				continue
			}
			s := cr.sinks[k]
			k++
			if s.closes != 1 {
				r.Fail("not-closed", "target %d (%s) was closed %d times", i, s.name, s.closes)
			}
			var e error
			if s.failed {
				e = s.err
			}
			judgeSink(r, "BuildInto", s, texts[i], e)
		}
	}
	if d := dumpReal(pl, nil); d != dump || !mem.same(pl) {
		r.Fail("payload-modified", "the payload was modified: %s", firstDiff(dump, d))
	}
}

func judgeSink(r *R, what string, s *sink, text string, err error) {
	got := s.got.String()
	if !strings.HasPrefix(text, got) {
		r.Fail("not-a-prefix", "%s wrote %s, which is not a prefix of %s", what, show(got, 300), show(text, 300))
		return
	}
	if s.failed {
		if err == nil || !errors.Is(err, s.err) {
			r.Fail("lost-error", "the writer failed with %v after %d bytes, %s returned %v", s.err, len(got), what, err)
		}
		return
	}
	if err != nil {
		r.Fail("spurious-error", "the writer accepted everything, %s returned %v", what, err)
	} else if got != text {
		r.Fail("incomplete", "%s returned nil, but wrote only %d of %d bytes", what, len(got), len(text))
	}
}

// ---------------------------------------------------------------------------------------------------------------
// C11

func toModel(pl *crossplane.Payload) []*mConfig {
	var dirs func(l crossplane.Directives) []*mDir
	dirs = func(l crossplane.Directives) []*mDir {
		var out []*mDir
		for _, d := range l {
			out = append(out, &mDir{name: d.Directive, line: d.Line, args: d.Args, file: d.File, includes: d.Includes, isBlock: d.Block != nil, block: dirs(d.Block), comment: d.Comment, mapParam: d.IsMapBlockParameter})
		}
		return out
	}
	var out []*mConfig
	for _, c := range pl.Config {
		m := &mConfig{file: c.File, status: c.Status, parsed: dirs(c.Parsed)}
		for _, e := range c.Errors {
			l := -1
			if e.Line != nil {
				l = *e.Line
			}
			m.errs = append(m.errs, &mErr{what: "given", line: l, file: "f", inj: e.Error})
		}
		out = append(out, m)
	}
	return out
}

// expansion counts the directives an expansion would produce, up to a limit.
func expansion(pl *crossplane.Payload, limit int) int {
	n := 0
	var walk func(l crossplane.Directives, path []int)
	walk = func(l crossplane.Directives, path []int) {
		for _, d := range l {
			if n > limit {
				return
			}
			n++
			walk(d.Block, path)
			if d.Directive == "include" {
				for _, i := range d.Includes {
					if i < 0 || i >= len(pl.Config) || containsInt(path, i) {
						return
					}
					walk(pl.Config[i].Parsed, append(append([]int(nil), path...), i))
				}
			}
		}
	}
	if len(pl.Config) > 0 {
		walk(pl.Config[0].Parsed, []int{0})
	}
	return n
}

func containsInt(l []int, x int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// plMem lists the memory a payload consists of, with the unused capacity of its slices.
type plMem []interface{}

func memOf(pl *crossplane.Payload) plMem {
	var m plMem
	var dirs func(l crossplane.Directives)
	dirs = func(l crossplane.Directives) {
		m = append(m, len(l), cap(l))
		for _, d := range l[:cap(l)] {
			m = append(m, d)
		}
		for _, d := range l {
			if d == nil {
				continue
			}
			m = append(m, len(d.Args), d.Comment, d.Block == nil, d.Includes == nil)
			for _, a := range d.Args[:cap(d.Args)] {
				m = append(m, a)
			}
			for _, a := range d.Includes[:cap(d.Includes)] {
				m = append(m, a)
			}
			dirs(d.Block)
		}
	}
	m = append(m, len(pl.Config), len(pl.Errors))
	for _, e := range pl.Errors[:cap(pl.Errors)] {
		m = append(m, e.Error, e.Line, e.File)
	}
	for i, c := range pl.Config[:cap(pl.Config)] {
		m = append(m, c.File, c.Status, len(c.Errors))
		for _, e := range c.Errors[:cap(c.Errors)] {
			m = append(m, e.Error, e.Line)
		}
		if i < len(pl.Config) {
			dirs(c.Parsed)
		}
	}
	return m
}

func (m plMem) same(pl *crossplane.Payload) bool {
	n := memOf(pl)
	if len(m) != len(n) {
		return false
	}
	for i := range m {
		if m[i] != n[i] {
			return false
		}
	}
	return true
}

// spareAll gives slices of a payload spare capacity with something in it, as slices of larger arrays have.
func spareAll(r *R, pl *crossplane.Payload) {
	if r.Src.Draw(2) == 0 {
		return
	}
	some := func() bool { return r.Src.Draw(3) == 2 }
	other := &crossplane.Directive{Directive: "sentinel", Args: []string{}}
	var dirs func(l crossplane.Directives) crossplane.Directives
	dirs = func(l crossplane.Directives) crossplane.Directives {
		for _, d := range l {
			d.Block = dirs(d.Block)
			if d.Args != nil && some() {
				d.Args = spareCap(d.Args)
			}
			if d.Includes != nil && some() {
				d.Includes = append(append([]int{}, d.Includes...), 1<<30, 1<<30)[:len(d.Includes)]
			}
		}
		if l == nil || !some() {
			return l
		}
		return append(append(crossplane.Directives{}, l...), other, other)[:len(l)]
	}
	for i := range pl.Config {
		c := &pl.Config[i]
		c.Parsed = dirs(c.Parsed)
		if some() {
			c.Errors = append(append([]crossplane.ConfigError{}, c.Errors...), crossplane.ConfigError{}, crossplane.ConfigError{})[:len(c.Errors)]
		}
	}
	if some() {
		pl.Errors = append(append([]crossplane.PayloadError{}, pl.Errors...), crossplane.PayloadError{}, crossplane.PayloadError{})[:len(pl.Errors)]
	}
	if some() {
		pl.Config = append(append([]crossplane.Config{}, pl.Config...), crossplane.Config{File: "sentinel"})[:len(pl.Config)]
	}
}

// genIncludePayload makes a payload with includes: mode 0 only to later configs, 1 anything.
func genIncludePayload(r *R) *crossplane.Payload {
	pl := &crossplane.Payload{Status: pick(r, []string{"ok", "", "failed"})}
	nc := r.Src.DrawW(1, 2, 4, 4, 3, 2, 1)
	mode := r.Src.DrawW(4, 1, 1)
	for ci := 0; ci < nc; ci++ {
		ci := ci
		c := crossplane.Config{File: fmt.Sprintf("f%d.conf", ci), Status: "ok"}
		for k := r.Src.DrawW(4, 1, 1); k > 0; k-- {
			c.Status = "failed"
			ln := r.Src.Draw(9)
			e := &testErr{fmt.Sprintf("error %d of config %d", k, ci)}
			c.Errors = append(c.Errors, crossplane.ConfigError{Line: &ln, Error: e})
			pl.Errors = append(pl.Errors, crossplane.PayloadError{File: c.File, Line: &ln, Error: e})
		}
		if r.Src.Draw(8) == 7 { // made by hand
			c.Status = pick(r, []string{"", "ok", "failed"})
		}
		budget := 10
		var dirs func(depth int) crossplane.Directives
		dirs = func(depth int) crossplane.Directives {
			out := crossplane.Directives{}
			for n := r.Src.Draw(5); n > 0 && budget > 0; n-- {
				budget--
				d := &crossplane.Directive{Directive: pick(r, []string{"a", "b", "server", "include"}), Line: r.Src.Draw(20), Args: []string{pick(r, []string{"x", "y", "z"})}, File: c.File}
				if k := r.Src.DrawW(4, 1, 1); k > 0 { // a payload need not say where its directives are from
					d.File = []string{"", "other.conf"}[k-1]
				}
				switch {
				case r.Src.Draw(10) == 9:
					t := "c"
					d.Directive, d.Comment = "#", &t
				case d.Directive == "include" || r.Src.Draw(4) == 3:
					d.Directive = "include"
					if r.Src.Draw(8) != 7 {
						d.Includes = []int{}
						for k := r.Src.DrawW(1, 5, 2, 1); k > 0; k-- {
							t := 0
							switch mode {
							case 0:
								if ci+1 >= nc {
									continue
								}
								t = ci + 1 + r.Src.Draw(nc-ci-1)
							case 1:
								t = r.Src.Draw(nc)
							case 2:
								t = r.Src.Draw(nc+3) - 1
								if t == nc+1 {
									t = 1 << 40
								}
							}
							d.Includes = append(d.Includes, t)
						}
					}
				}
				if depth < 4 && r.Src.Draw(4) == 3 && d.Comment == nil {
					d.Block = dirs(depth + 1)
				}
				out = append(out, d)
			}
			return out
		}
		c.Parsed = dirs(0)
		pl.Config = append(pl.Config, c)
	}
	spareAll(r, pl)
	return pl
}

func scenC11(r *R) {
	if r.Src.Draw(3) == 2 {
		// through Parse
		w := genWorld(r, wcfg{files: 6, budget: 6, comments: 12, unknown: 12, invalid: []int{0, 12}[r.Src.Draw(2)], fancy: 30, incRate: 3, depth: 4, cycles: 10})
		o := genOpts(r, w.exts)
		o.combine = true
		o.stop = r.Src.Draw(5) == 4
		parseVsModel(r, w, o, "combined-parse", func(mc *mcall) bool { return len(mc.order) > 1 })
		if r.S.Outcome == sim.OutOK {
			checkLeak(r, "Parse with CombineConfigs")
		}
		return
	}
	pl := genIncludePayload(r)
	if expansion(pl, 4000) > 4000 {
		return
	}
	// results are compared as dumps of the same kind
	want := &mPayload{status: pl.Status}
	if want.status == "" {
		want.status = "ok"
	}
	var wantErr *mErr
	if len(pl.Config) > 0 {
		c, e := expand(toModel(pl))
		wantErr = e
		if e == nil {
			want.cfgs = []*mConfig{c}
		}
	}
	before, mem := dumpReal(pl, nil), memOf(pl)
	r.Desc("payload:\n%s", clip(before, 4000))
	var got *crossplane.Payload
	var err error
	returned := false
	r.Exec(func() {
		got, err = pl.Combined()
		returned = true
	})
	if r.S.Outcome != sim.OutOK {
		return
	}
	r.Evals++
	r.Nontriv = len(pl.Config) > 1
	if !returned {
		r.Fail("no-return", "Combined did not return")
		return
	}
	if d := firstDiff(before, dumpReal(pl, nil)); d != "" {
		r.Fail("payload-modified", "Combined modified its payload: %s", d)
		return
	}
	if !mem.same(pl) {
		r.Fail("payload-modified", "Combined wrote to the memory of its payload")
		return
	}
	checkLeak(r, "Combined")
	if wantErr != nil {
		if err == nil {
			r.Fail("no-error", "the includes are invalid (%s in %s:%d), but Combined returned no error", wantErr.what, wantErr.file, wantErr.line)
			return
		}
		if got != nil {
			r.Fail("payload-with-error", "Combined returned a payload and the error %v", err)
		}
		return
	}
	if err != nil {
		r.Fail("spurious-error", "Combined returned %v", err)
		return
	}
	if got == nil {
		r.Fail("no-payload", "Combined returned nothing")
		return
	}
	if len(pl.Config) == 0 {
		if len(got.Config) != 0 {
			r.Fail("result", "combining no configs gave %d", len(got.Config))
		}
		return
	}
	if got.Status != want.status {
		r.Fail("status", "status %q, expected %q", got.Status, want.status)
	}
	if len(got.Errors) != len(pl.Errors) {
		r.Fail("errors", "%d payload errors, expected %d", len(got.Errors), len(pl.Errors))
		return
	}
	for i := range pl.Errors {
		if got.Errors[i].Error != pl.Errors[i].Error || got.Errors[i].File != pl.Errors[i].File {
			r.Fail("errors", "payload error %d is %v, expected %v", i, got.Errors[i], pl.Errors[i])
			return
		}
	}
	if len(got.Config) != 1 {
		r.Fail("result", "%d configs", len(got.Config))
		return
	}
	g, m := got.Config[0], want.cfgs[0]
	if g.File != m.file || g.Status != m.status || len(g.Errors) != len(m.errs) {
		r.Fail("config", "config %s %s with %d errors, expected %s %s with %d", g.File, g.Status, len(g.Errors), m.file, m.status, len(m.errs))
		return
	}
	for i := range m.errs {
		if g.Errors[i].Error != m.errs[i].inj {
			r.Fail("config", "error %d is %v, expected %v", i, g.Errors[i].Error, m.errs[i].inj)
			return
		}
	}
	a, b := &dumper{}, &dumper{}
	a.mdirs(m.parsed, "")
	b.dirs(g.Parsed, "")
	if d := firstDiff(a.sb.String(), b.sb.String()); d != "" {
		r.Fail("directives", "the combined directives differ: %s", d)
	}
}
