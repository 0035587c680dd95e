package main

import (
	"errors"
	"fmt"
	"path/filepath"
	"reflect"
	"strings"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
	sim "github.com/nginxinc/nginx-go-crossplane/internal/verifsim"
)

// copyPayload makes a deep copy.
func copyPayload(p *crossplane.Payload) *crossplane.Payload {
	if p == nil {
		return nil
	}
	var dirs func(l crossplane.Directives) crossplane.Directives
	dirs = func(l crossplane.Directives) crossplane.Directives {
		if l == nil {
			return nil
		}
		out := crossplane.Directives{}
		for _, d := range l {
			c := *d
			c.Args = append([]string(nil), d.Args...)
			if d.Args != nil && c.Args == nil {
				c.Args = []string{}
			}
			c.Includes = append([]int(nil), d.Includes...)
			if d.Includes != nil && c.Includes == nil {
				c.Includes = []int{}
			}
			c.Block = dirs(d.Block)
			if d.Comment != nil {
				t := *d.Comment
				c.Comment = &t
			}
			out = append(out, &c)
		}
		return out
	}
	q := *p
	q.Errors = append([]crossplane.PayloadError(nil), p.Errors...)
	q.Config = nil
	for _, c := range p.Config {
		c.Errors = append([]crossplane.ConfigError(nil), c.Errors...)
		c.Parsed = dirs(c.Parsed)
		q.Config = append(q.Config, c)
	}
	return &q
}

// fullDump is dumpReal plus the error messages.
func fullDump(p *crossplane.Payload, err error) string {
	s := dumpReal(p, err)
	if err != nil {
		s += "error text: " + err.Error() + "\n"
	}
	if p != nil {
		for _, e := range p.Errors {
			if e.Error != nil {
				s += "error text: " + e.Error.Error() + "\n"
			}
		}
	}
	return s
}

// exportedFields describes the exported fields of a struct: what the caller can see of it.
func exportedFields(x interface{}) string {
	var sb strings.Builder
	var walk func(v reflect.Value, name string)
	walk = func(v reflect.Value, name string) {
		switch v.Kind() {
		case reflect.Func:
			fmt.Fprintf(&sb, "%s=func(nil:%v %x)\n", name, v.IsNil(), v.Pointer())
		case reflect.Slice:
			fmt.Fprintf(&sb, "%s: %d elements, nil %v\n", name, v.Len(), v.IsNil())
			for i := 0; i < v.Len() && i < 50; i++ {
				walk(v.Index(i), fmt.Sprintf("%s[%d]", name, i))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				f := v.Type().Field(i)
				if f.PkgPath == "" {
					walk(v.Field(i), name+"."+f.Name)
				}
			}
		case reflect.String:
			fmt.Fprintf(&sb, "%s=%q\n", name, v.String())
		case reflect.Int:
			fmt.Fprintf(&sb, "%s=%d\n", name, v.Int())
		case reflect.Bool:
			fmt.Fprintf(&sb, "%s=%v\n", name, v.Bool())
		default:
			fmt.Fprintf(&sb, "%s: %s\n", name, v.Kind())
		}
	}
	walk(reflect.ValueOf(x).Elem(), reflect.TypeOf(x).Elem().Name())
	return sb.String()
}

// hidden returns the slices of options with spare capacity holding a sentinel, so that an append to them by the
// code under test is seen.
func spareCap(l []string) []string {
	if l == nil {
		return nil
	}
	n := make([]string, len(l), len(l)+2)
	copy(n, l)
	n = append(n, "sentinel")[:len(l)]
	return n
}

func spareIntact(l []string) bool {
	if cap(l) <= len(l) {
		return true
	}
	return l[:len(l)+1][len(l)] == "sentinel"
}

// job1 is one call in a concurrent or sequential history.
type job1 struct {
	what    string
	run     func()        // the call itself
	judge   func()        // compares the result with what the call gives alone; runs after everything, pristine state
	dump    func() string // the result as it looks now (nil: nothing to watch)
	first   string
	judged  bool
	payload func() *crossplane.Payload
}

// callEnv holds what the calls share.
type callEnv struct {
	r    *R
	w    *wgen
	o    popts
	opts *crossplane.ParseOptions
	pl   *crossplane.Payload
	pl0  *crossplane.Payload
	bo   *crossplane.BuildOptions
	text string
	cap  int
	tag  int
	cbs  *[256]int // callback calls per tag
}

func (e *callEnv) pristine() {
	crossplane.VerifReset(false)
	crossplane.SetTokenChanCap(e.cap)
}

// parse is a Parse call of file main with the shared options.
func (e *callEnv) parse(main string, opts *crossplane.ParseOptions, o popts) *job1 {
	e.tag++
	tag := e.tag
	_, want, werr := refParse(e.w.world, main, o)
	c := &pcall{r: e.r, main: main, o: o, opts: opts}
	return &job1{
		what: fmt.Sprintf("Parse(%q, {%s})", main, o),
		run: func() {
			sim.SetTag(tag)
			c.run()
		},
		judge: func() {
			if !c.done {
				e.r.Fail("no-return", "Parse(%q) did not return", main)
				return
			}
			c.check("parse", want, werr)
			if e.cbs != nil && e.opts.ErrorCallback != nil && c.pl != nil && !o.combine && e.cbs[tag] != len(c.pl.Errors) {
				e.r.Fail("callback", "Parse(%q) recorded %d errors, its callback was called %d times", main, len(c.pl.Errors), e.cbs[tag])
			}
		},
		dump:    func() string { return fullDump(c.pl, c.err) },
		payload: func() *crossplane.Payload { return c.pl },
	}
}

func (e *callEnv) lex(opts *crossplane.ParseOptions, ex *extSet) *job1 {
	r := e.r
	e.tag++
	tag := e.tag
	text := e.text
	if r.Src.Draw(2) == 1 {
		text = genLexText(r, ex, false)
	}
	want := refLex(text, ex.models(), false)
	d := genDelivery(r, len(text) > 3000)
	m := &memReader{r: r, name: fmt.Sprint("source ", tag), data: []byte(text), d: d}
	cons := genConsumer(r)
	var got []crossplane.NgxToken
	return &job1{
		what: fmt.Sprintf("LexWithOptions(%s)", show(text, 200)),
		run: func() {
			sim.SetTag(tag)
			got = cons.drain(r, crossplane.LexWithOptions(m, opts.LexOptions))
		},
		judge: func() {
			r.Evals++
			if diff := diffToks(r, want, got, nil); diff != "" {
				r.Fail("tokens", "LexWithOptions of %s: %s", show(text, 300), diff)
			}
		},
		dump: func() string { return fmt.Sprintf("%+v", got) },
	}
}

// freshBO is a copy of the visible part of build options.
func freshBO(o *crossplane.BuildOptions) *crossplane.BuildOptions {
	return &crossplane.BuildOptions{Indent: o.Indent, Tabs: o.Tabs, Header: o.Header, Builders: append([]crossplane.RegisterBuilder(nil), o.Builders...)}
}

func (e *callEnv) build(pl *crossplane.Payload, bo *crossplane.BuildOptions) *job1 {
	r := e.r
	e.tag++
	tag := e.tag
	i := r.Src.Draw(len(pl.Config))
	ref := copyPayload(pl)
	o := freshBO(bo)
	s := &sink{r: r, name: "sink", failAt: -1, slow: []int{0, 3}[r.Src.Draw(2)]}
	if r.Src.Draw(5) == 4 {
		s.failAt, s.err = r.Src.Draw(40), &testErr{"sink full"}
	}
	var err error
	return &job1{
		what: fmt.Sprintf("Build(config %d, %s) into a writer failing at %d", i, showBuildOpts(bo), s.failAt),
		run: func() {
			sim.SetTag(tag)
			err = crossplane.Build(s, pl.Config[i], bo)
		},
		judge: func() {
			r.Evals++
			judgeSink(r, "Build", s, textOf(ref.Config[i], o), err)
		},
		dump: func() string { return s.got.String() },
	}
}

func (e *callEnv) buildInto(pl *crossplane.Payload, bo *crossplane.BuildOptions) *job1 {
	r := e.r
	e.tag++
	tag := e.tag
	ref := copyPayload(pl)
	o := freshBO(bo)
	cr := &creator{r: r, fail: map[int]error{}}
	for range pl.Config {
		cr.plan = append(cr.plan, &sink{r: r, failAt: -1, slow: []int{0, 3}[r.Src.Draw(2)]})
	}
	bad := -1
	if r.Src.Draw(5) == 4 {
		bad = r.Src.Draw(len(pl.Config))
		cr.fail[bad] = &testErr{"no target"}
	}
	var err error
	return &job1{
		what: fmt.Sprintf("BuildInto(%d configs, %s), creating target %d fails", len(pl.Config), showBuildOpts(bo), bad),
		run: func() {
			sim.SetTag(tag)
			err = crossplane.BuildInto(pl, cr, bo)
		},
		judge: func() {
			r.Evals++
			n := len(ref.Config)
			if bad >= 0 {
				n = bad
				if !errors.Is(err, cr.fail[bad]) {
					r.Fail("error", "BuildInto returned %v instead of %v", err, cr.fail[bad])
				}
			} else if err != nil {
				r.Fail("spurious-error", "BuildInto returned %v", err)
			}
			if len(cr.sinks) != n {
				r.Fail("targets", "BuildInto made %d targets instead of %d", len(cr.sinks), n)
				return
			}
			for i := 0; i < n; i++ {
				judgeSink(r, "BuildInto", cr.sinks[i], textOf(ref.Config[i], o), nil)
				if cr.sinks[i].closes != 1 {
					r.Fail("not-closed", "target %d was closed %d times", i, cr.sinks[i].closes)
				}
			}
		},
	}
}

// strs is a StringsCreator with what its files must be.
type strs struct {
	sc crossplane.StringsCreator
}

// buildStrings renders a payload into strings.
func (e *callEnv) buildStrings(pl *crossplane.Payload, bo *crossplane.BuildOptions, s *strs) *job1 {
	r := e.r
	e.tag++
	tag := e.tag
	ref := copyPayload(pl)
	o := freshBO(bo)
	reset := r.Src.Draw(2) == 1
	var err error
	var mine []*crossplane.FileString // the caller keeps these
	show := func() string {
		out := ""
		for _, f := range mine {
			out += fmt.Sprintf("%q: %q\n", f.Name, f.String())
		}
		return out
	}
	return &job1{
		what: fmt.Sprintf("BuildInto(%d configs, a StringsCreator, %s), reset before: %v", len(pl.Config), showBuildOpts(bo), reset),
		run: func() {
			sim.SetTag(tag)
			if reset {
				s.sc.Reset()
			}
			at := len(s.sc.Files)
			if reset && at != 0 {
				r.Fail("reset", "after Reset a StringsCreator has %d files", at)
			}
			err = crossplane.BuildInto(pl, &s.sc, bo)
			if at <= len(s.sc.Files) {
				mine = s.sc.Files[at:]
			}
		},
		judge: func() {
			r.Evals++
			want := ""
			for _, c := range ref.Config {
				want += fmt.Sprintf("%q: %q\n", c.File, textOf(c, o)+"\n")
			}
			if err != nil {
				r.Fail("spurious-error", "BuildInto a StringsCreator returned %v", err)
			}
			if got := show(); got != want {
				r.Fail("strings", "BuildInto a StringsCreator gave %s instead of %s", clip(got, 500), clip(want, 500))
			}
		},
		dump: show,
	}
}

// outDir is where BuildFiles writes while other calls may be evaluating patterns: it
// exists from the start and lies deeper than any pattern of a workload reaches, so that
// what other calls see does not depend on when the files appear.
const outDir = "/out/d/e/f"

func (e *callEnv) buildFiles(pl *crossplane.Payload, bo *crossplane.BuildOptions) *job1 {
	r := e.r
	e.tag++
	tag := e.tag
	ref := copyPayload(pl)
	o := freshBO(bo)
	dir := fmt.Sprintf("%s/%d", outDir, tag)
	var err error
	return &job1{
		what: fmt.Sprintf("BuildFiles(%d configs, %s, %s)", len(pl.Config), dir, showBuildOpts(bo)),
		run: func() {
			sim.SetTag(tag)
			err = crossplane.BuildFiles(*pl, dir, bo)
		},
		judge: func() {
			r.Evals++
			if err != nil {
				r.Fail("spurious-error", "BuildFiles returned %v", err)
				return
			}
			wants := map[string]string{}
			for _, c := range ref.Config {
				wants[r.FS.Abs(filepath.Join(dir, c.File))] = fileText(textOf(c, o))
			}
			for _, c := range ref.Config {
				p := r.FS.Abs(filepath.Join(dir, c.File))
				got, ok := r.FS.Get(p)
				if !ok || got != wants[p] {
					r.Fail("files", "BuildFiles: %s exists %v and holds %s instead of %s", p, ok, show(got, 300), show(wants[p], 300))
					return
				}
			}
		},
		dump: func() string {
			s := ""
			for _, c := range ref.Config {
				t, _ := r.FS.Get(r.FS.Abs(filepath.Join(dir, c.File)))
				s += t + "\n---\n"
			}
			return s
		},
	}
}

func (e *callEnv) combined(pl *crossplane.Payload) *job1 {
	r := e.r
	e.tag++
	tag := e.tag
	ref := copyPayload(pl)
	var got *crossplane.Payload
	var err error
	return &job1{
		what: fmt.Sprintf("Combined of %d configs", len(pl.Config)),
		run: func() {
			sim.SetTag(tag)
			got, err = pl.Combined()
		},
		judge: func() {
			r.Evals++
			want, werr := ref.Combined()
			if d := firstDiff(fullDump(want, werr), fullDump(got, err)); d != "" {
				r.Fail("combined", "Combined: %s", d)
			}
		},
		dump: func() string { return fullDump(got, err) },
	}
}

// buildable makes a payload all build calls and Combined can take.
func buildable(r *R) *crossplane.Payload {
	for i := 0; i < 3; i++ {
		if r.Src.Draw(2) == 0 {
			break
		}
		pl := genIncludePayload(r)
		if len(pl.Config) > 0 && expansion(pl, 400) <= 400 {
			return pl
		}
	}
	return genPayload(r, 4, r.Src.Draw(3) == 2, false)
}

// C05: concurrent calls.
func scenC05(r *R) {
	e := &callEnv{r: r, cbs: &[256]int{}}
	e.w = genWorld(r, wcfg{files: 3, budget: 6, comments: 12, unknown: 10, invalid: []int{0, 10}[r.Src.Draw(2)], fancy: 40, exts: r.Src.Draw(3) != 2, incRate: 3, depth: 4, missing: true, cycles: 10})
	e.w.deliver(r)
	if r.Src.Draw(4) == 3 {
		e.w.readFault(r, e.w.paths[r.Src.Draw(len(e.w.paths))])
	}
	if r.Src.Draw(4) == 3 {
		e.w.openFault(r, e.w.paths[r.Src.Draw(len(e.w.paths))])
	}
	e.o = genOpts(r, e.w.exts)
	e.o.callback = false
	e.o.combine = r.Src.Draw(6) == 5
	e.o.stop = r.Src.Draw(6) == 5
	e.o.ignore = spareCap(e.o.ignore)
	r.shareGlob = r.Src.Draw(2) == 1
	tmpl := &pcall{r: r, o: e.o}
	e.opts = tmpl.options()
	if r.Src.Draw(2) == 1 {
		e.opts.ErrorCallback = func(err error) interface{} {
			e.cbs[sim.CurTag()]++
			r.user()
			return nil
		}
	}
	for i, f := range e.opts.DirectiveSources {
		f := f
		e.opts.DirectiveSources[i] = func(name string) ([]uint, bool) {
			r.user()
			return f(name)
		}
	}
	e.text = genLexText(r, e.w.exts, false)
	e.pl = buildable(r)
	e.bo = genBuildOpts(r)
	e.w.dirs[outDir] = true
	e.w.install(r)
	e.cap = genCap(r)
	r.Desc("shared parse options {%s}, shared build options %s, token channel capacity %d", e.o, showBuildOpts(e.bo), e.cap)
	r.MaxSteps = 60000000
	kinds := [8]int{4, 2, 3, 2, 2, 2, 2, 2}
	// swarm: some runs concentrate on a few kinds of calls
	if r.Src.Draw(2) == 1 {
		keep := r.Src.Draw(8)
		for i := range kinds {
			if i != keep && r.Src.Draw(3) != 2 {
				kinds[i] = 0
			}
		}
		kinds[keep] = 4
	}
	n := 2 + r.Src.Draw(3)
	var callers [][]*job1
	make1 := func(st *strs) *job1 {
		switch r.Src.DrawW(kinds[:]...) {
		case 0:
			return e.parse(e.w.main, e.opts, e.o)
		case 1:
			return e.parse(e.w.paths[r.Src.Draw(len(e.w.paths))], e.opts, e.o)
		case 2:
			return e.lex(e.opts, e.w.exts)
		case 3:
			return e.build(e.pl, e.bo)
		case 4:
			return e.buildInto(e.pl, e.bo)
		case 5:
			return e.buildFiles(e.pl, e.bo)
		case 6:
			return e.combined(e.pl)
		}
		return e.buildStrings(e.pl, e.bo, st)
	}
	// calls made from within other calls: by callbacks, readers and writers of the user
	type nested struct {
		at      int
		j       *job1
		started bool
	}
	inner := map[int]*nested{}
	for i := 0; i < n; i++ {
		var js []*job1
		st := &strs{}
		for k := 1 + r.Src.Draw(3); k > 0; k-- {
			j := make1(st)
			r.Desc("caller %d: %s", i+1, j.what)
			js = append(js, j)
			for d := 0; d < 2 && r.Src.Draw(4) == 3; d++ {
				tag := e.tag
				nd := &nested{at: r.Src.Draw(8), j: make1(&strs{})}
				inner[tag] = nd
				r.Desc("caller %d: at user code number %d in it: %s", i+1, nd.at+1, nd.j.what)
			}
		}
		callers = append(callers, js)
	}
	r.onUser = func() {
		tag := sim.CurTag()
		nd := inner[tag]
		if nd == nil || nd.started {
			return
		}
		if nd.at--; nd.at >= 0 {
			return
		}
		nd.started = true
		r.S.Count("call-from-callback")
		r.S.Log("nested-call", nd.j.what, tag, 0)
		nd.j.run()
		r.S.Log("nested-returned", "", tag, 0)
		sim.SetTag(tag)
	}
	optsBefore, boBefore, plBefore, mem := exportedFields(e.opts), exportedFields(e.bo), dumpReal(e.pl, nil), memOf(e.pl)
	r.Exec(func() {
		var gs []*sim.G
		for i, js := range callers {
			js := js
			gs = append(gs, sim.GoNamed(fmt.Sprint("caller ", i+1), 0, func() {
				for _, j := range js {
					sim.Point("call")
					j.run()
				}
			}))
		}
		for _, g := range gs {
			sim.Join(g)
		}
		if sim.Killed() {
			return
		}
		r.S.Log("all-returned", "", 0, 0)
		r.Evals += 3
		if d := firstDiff(optsBefore, exportedFields(e.opts)); d != "" || !spareIntact(e.opts.IgnoreDirectives) {
			r.Fail("options-modified", "the shared parse options were modified: %s", d)
		}
		if d := firstDiff(boBefore, exportedFields(e.bo)); d != "" {
			r.Fail("options-modified", "the shared build options were modified: %s", d)
		}
		if d := firstDiff(plBefore, dumpReal(e.pl, nil)); d != "" || !mem.same(e.pl) {
			r.Fail("payload-modified", "the shared payload was modified: %s", d)
		}
		if !r.FS.GlobsIntact() {
			r.Fail("options-modified", "the names that Glob returned, and returns to every call, were modified")
		}
		if *r.sharedErr.Line != 7 || r.sharedErr.File != nil || r.sharedErr.What != "shared" || r.sharedErr.Statement != "" || r.sharedErr.BlockCtx != "" {
			r.Fail("error-modified", "the error of an external lexer was modified: %+v", *r.sharedErr)
		}
		for _, js := range callers {
			for _, j := range js {
				e.pristine()
				j.judge()
			}
		}
		for tag := 0; tag <= e.tag; tag++ {
			if nd := inner[tag]; nd != nil && nd.started {
				e.pristine()
				nd.j.judge()
			}
		}
	})
	r.Nontriv = r.S.Switch > 4
}

// apply sets the exported fields of parse options that a caller reuses.
func apply(dst, src *crossplane.ParseOptions) {
	dst.IgnoreDirectives, dst.StopParsingOnError, dst.CombineConfigs, dst.SingleFile = src.IgnoreDirectives, src.StopParsingOnError, src.CombineConfigs, src.SingleFile
	dst.ParseComments, dst.ErrorOnUnknownDirectives = src.ParseComments, src.ErrorOnUnknownDirectives
	dst.SkipDirectiveContextCheck, dst.SkipDirectiveArgsCheck = src.SkipDirectiveContextCheck, src.SkipDirectiveArgsCheck
	dst.DirectiveSources = src.DirectiveSources
	dst.LexOptions.Lexers = src.LexOptions.Lexers
	dst.ErrorCallback = src.ErrorCallback
	dst.Open, dst.Glob = src.Open, src.Glob
}

type slot struct {
	o    popts
	opts *crossplane.ParseOptions
}

// C06: sequences of calls.
func scenC06(r *R) {
	e := &callEnv{r: r}
	e.w = genWorld(r, wcfg{files: 3, budget: 6, comments: 12, unknown: 10, invalid: []int{0, 8}[r.Src.Draw(2)], fancy: 40, exts: r.Src.Draw(4) != 3, incRate: 3, depth: 4, missing: true, cycles: 10})
	if r.Src.Draw(2) == 1 {
		e.w.deliver(r)
	}
	e.text = genLexText(r, e.w.exts, false)
	e.pl = buildable(r)
	e.bo = genBuildOpts(r)
	e.w.dirs[outDir] = true
	e.w.install(r)
	e.cap = genCap(r)
	var slots []*slot
	newOpts := func() popts {
		ex := e.w.exts
		if r.Src.Draw(4) == 3 {
			ex = &extSet{}
			if r.Src.Draw(2) == 1 {
				ex = genExts(r)
			}
		}
		o := genOpts(r, ex)
		o.callback = false
		o.stop = r.Src.Draw(5) == 4
		o.combine = r.Src.Draw(6) == 5
		o.single = r.Src.Draw(10) == 9
		return o
	}
	for i := 0; i < 1+r.Src.Draw(2); i++ {
		s := &slot{o: newOpts()}
		s.opts = (&pcall{r: r, o: s.o}).options()
		slots = append(slots, s)
	}
	r.shareGlob = r.Src.Draw(2) == 1
	n := 3 + r.Src.Draw(6)
	r.Nontriv = true
	r.MaxSteps = 60000000
	var all []*job1
	var payloads []*crossplane.Payload
	payloads = append(payloads, e.pl)
	st := &strs{}
	r.Exec(func() {
		for step := 0; step < n; step++ {
			if sim.Killed() {
				return
			}
			s := slots[r.Src.Draw(len(slots))]
			if r.Src.Draw(3) == 2 {
				s.o = newOpts()
				apply(s.opts, (&pcall{r: r, o: s.o}).options())
				r.Desc("step %d: the options become {%s}", step, s.o)
			}
			if r.Src.Draw(5) == 4 { // the files change
				p := e.w.abs(e.w.paths[r.Src.Draw(len(e.w.paths))])
				switch _, there := e.w.files[p]; {
				case there && r.Src.Draw(3) == 2:
					delete(e.w.files, p)
					r.FS.Del(p)
					r.Desc("step %d: %s is removed", step, p)
				case r.Src.Draw(3) == 2: // a new file that a pattern may match
					p = filepath.Join(filepath.Dir(p), pick(r, []string{"new.conf", "a.conf", "b.conf", "z"}))
					fallthrough
				default:
					e.w.files[p] = mutate(r, e.w.files[p], 1+r.Src.Draw(2))
					r.FS.Put(p, e.w.files[p])
					r.Desc("step %d: %s becomes %s", step, p, show(e.w.files[p], 500))
				}
			}
			if r.Src.Draw(4) == 3 { // the faults change
				e.w.fault = map[string]*fileFault{}
				switch r.Src.Draw(3) {
				case 1:
					e.w.readFault(r, e.w.paths[r.Src.Draw(len(e.w.paths))])
				case 2:
					e.w.openFault(r, e.w.paths[r.Src.Draw(len(e.w.paths))])
				}
				r.Desc("step %d: other faults", step)
			}
			if r.Src.Draw(5) == 4 {
				e.bo.Indent = r.Src.Draw(9)
				e.bo.Tabs = r.Src.Draw(2) == 1
				if r.Src.Draw(2) == 1 {
					e.bo.Builders = genBuildOpts(r).Builders
				}
				r.Desc("step %d: the build options become %s", step, showBuildOpts(e.bo))
			}
			pl := payloads[r.Src.Draw(len(payloads))]
			var j *job1
			isParse := false
			switch r.Src.DrawW(6, 2, 2, 1, 2, 2, 2) {
			case 0:
				main := e.w.main
				if r.Src.Draw(4) == 3 {
					main = e.w.paths[r.Src.Draw(len(e.w.paths))]
				}
				j = e.parse(main, s.opts, s.o)
				isParse = true
			case 1:
				j = e.lex(s.opts, s.o.exts)
			case 2:
				j = e.build(pl, e.bo)
			case 3:
				j = e.buildInto(pl, e.bo)
			case 4:
				abs := false
				for _, c := range pl.Config {
					abs = abs || filepath.IsAbs(c.File)
					for _, c2 := range pl.Config { // a directory that was included
						abs = abs || strings.HasPrefix(c2.File, c.File+"/")
					}
				}
				if abs { // would overwrite the sources
					continue
				}
				j = e.buildFiles(pl, e.bo)
			case 5:
				if expansion(pl, 400) > 400 {
					continue
				}
				j = e.combined(pl)
			case 6:
				j = e.buildStrings(pl, e.bo, st)
			}
			r.Desc("step %d: %s", step, j.what)
			b, mem := dumpReal(pl, nil), memOf(pl)
			ob, bb := exportedFields(s.opts), exportedFields(e.bo)
			sim.Point("call")
			j.run()
			if sim.Killed() {
				return
			}
			r.S.Log("call-returned", "", step, 0)
			r.Evals++
			if d := firstDiff(b, dumpReal(pl, nil)); d != "" || !mem.same(pl) {
				r.Fail("payload-modified", "%s modified a payload: %s", j.what, d)
				return
			}
			if d := firstDiff(ob, exportedFields(s.opts)); d != "" {
				r.Fail("options-modified", "%s modified its options: %s", j.what, d)
				return
			}
			if !r.FS.GlobsIntact() {
				r.Fail("options-modified", "%s modified the names that Glob returned, and returns to every call", j.what)
				return
			}
			if d := firstDiff(bb, exportedFields(e.bo)); d != "" {
				r.Fail("options-modified", "%s modified the build options: %s", j.what, d)
				return
			}
			if j.dump != nil {
				j.first = j.dump()
			}
			all = append(all, j)
			// what a user does with a result must not matter to later calls
			if isParse && r.Src.Draw(3) == 2 {
				if pl := j.payload(); pl != nil && len(pl.Config) > 0 {
					switch r.Src.Draw(3) {
					case 0, 1:
						payloads = append(payloads, pl)
					case 2:
						j.judge()
						scribble(pl)
						j.dump = nil
						j.judged = true
						r.Desc("step %d: the caller overwrites the result", step)
					}
				}
			}
		}
		for _, j := range all {
			r.Evals++
			if j.dump != nil {
				if d := firstDiff(j.first, j.dump()); d != "" {
					r.Fail("earlier-result", "the result of %s has changed afterwards: %s", j.what, d)
					return
				}
			}
		}
		for _, j := range all {
			if sim.Killed() {
				return
			}
			if !j.judged {
				e.pristine()
				j.judge()
			}
		}
	})
}

// scribble overwrites everything in a payload.
func scribble(pl *crossplane.Payload) {
	var walk func(l crossplane.Directives)
	walk = func(l crossplane.Directives) {
		for i, d := range l {
			walk(d.Block)
			for k := range d.Args {
				d.Args[k] = "scribbled"
			}
			for k := range d.Includes {
				d.Includes[k] = 1 << 20
			}
			if d.Comment != nil {
				*d.Comment = "scribbled"
			}
			*d = crossplane.Directive{Directive: "scribbled", Line: -1, Args: d.Args}
			l[i] = d
		}
		_ = append(l, &crossplane.Directive{Directive: "appended"})
	}
	for i := range pl.Config {
		walk(pl.Config[i].Parsed)
		for k := range pl.Config[i].Errors {
			pl.Config[i].Errors[k] = crossplane.ConfigError{}
		}
		pl.Config[i].File = "scribbled"
	}
	for k := range pl.Errors {
		if pe, ok := pl.Errors[k].Error.(*crossplane.ParseError); ok && pe.What != "shared" { // not the lexer's own error
			pe.What = "scribbled"
			if pl.Errors[k].Line != nil {
				*pl.Errors[k].Line = -5
			}
		}
		pl.Errors[k] = crossplane.PayloadError{}
	}
}
