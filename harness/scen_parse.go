package main

import (
	"errors"
	"fmt"
	"strings"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
	sim "github.com/nginxinc/nginx-go-crossplane/internal/verifsim"
)

func scenC02(r *R) {
	if r.Src.Draw(2) == 0 {
		scenC02Lex(r)
		return
	}
	// Parse level
	w := genWorld(r, wcfg{files: 4, budget: 8, comments: 10, unknown: 10, invalid: []int{0, 20}[r.Src.Draw(2)], fancy: 60, exts: true, incRate: 4, depth: 4})
	w.deliver(r)
	n := 1 + r.Src.Draw(2)
	var faulty []string
	for i := 0; i < n; i++ {
		p := w.paths[r.Src.Draw(len(w.paths))]
		w.readFault(r, p)
		faulty = append(faulty, p)
	}
	o := genOpts(r, w.exts)
	o.stop = r.Src.Draw(3) == 2
	w.install(r)
	cap := genCap(r)
	r.describeCall(w.main, o, cap)
	mc, want, werr := refParse(w.world, w.main, o)
	c := newCall(r, w.main, o)
	r.Exec(c.run)
	if r.S.Outcome != sim.OutOK {
		return
	}
	r.Nontriv = r.S.Fired("read-error")+r.S.Fired("truncated") > 0
	// independent of the reference parser: a file whose source failed, or ended inside a statement or block, is failed
	for _, p := range faulty {
		f := w.fault[w.abs(p)]
		if _, reached := mc.tokens[w.abs(p)]; !reached {
			continue
		}
		broken := f.failAt >= 0 && (f.eofAt < 0 || f.failAt <= f.eofAt)
		if !broken {
			broken = cutInside(mc.tokens[w.abs(p)])
		}
		if !broken {
			continue
		}
		r.Evals++
		if c.err != nil {
			continue // reported
		}
		if o.stop {
			r.Fail("clean-parse", "%s fails or ends inside a statement, but Parse with StopParsingOnError returned no error", p)
			return
		}
		if o.combine {
			continue
		}
		for _, cf := range c.pl.Config {
			if cf.File == p && (cf.Status != "failed" || len(cf.Errors) == 0) {
				r.Fail("clean-parse", "%s fails (read error at %d) or ends inside a statement (cut at %d), but its status is %q with %d errors", p, f.failAt, f.eofAt, cf.Status, len(cf.Errors))
				return
			}
		}
		if c.pl.Status != "failed" {
			r.Fail("clean-parse", "%s fails or ends inside a statement, but the payload's status is %q", p, c.pl.Status)
			return
		}
	}
	c.check("failing-source", want, werr)
}

// cutInside tells whether a token stream ends inside a statement or block.
func cutInside(toks []Tok) bool {
	depth := 0
	open := false
	for _, t := range toks {
		if t.Err != "" {
			return true
		}
		switch {
		case t.Quoted:
			open = true
		case t.Value == "{":
			depth++
			open = false
		case t.Value == "}":
			depth--
			open = false
		case t.Value == ";":
			open = false
		case strings.HasPrefix(t.Value, "#"):
		default:
			open = true
		}
	}
	return depth > 0 || open
}

// anyWorld is the workload of the properties that must hold for every input, option set and fault.
func anyWorld(r *R) (*wgen, popts) {
	c := wcfg{files: 7, budget: 8, comments: 9, unknown: 8, invalid: []int{0, 12, 4}[r.Src.Draw(3)], fancy: 60, exts: true, incRate: 3, depth: 4, missing: true, globBad: true, dirs: true, cycles: 30}
	c.wild = []int{0, 30, 90}[r.Src.Draw(3)]
	w := genWorld(r, c)
	w.deliver(r)
	for k := r.Src.Draw(4); k > 0; k-- {
		p := w.paths[r.Src.Draw(len(w.paths))]
		switch r.Src.Draw(4) {
		case 0:
			w.readFault(r, p)
		case 1:
			w.openFault(r, p)
		case 2:
			if len(w.patterns) > 0 {
				w.globs[w.patterns[r.Src.Draw(len(w.patterns))]] = &testErr{"glob fails"}
			}
		case 3:
			w.ff(p).closeErr = &testErr{"close fails"}
		}
	}
	o := genOpts(r, w.exts)
	o.stop = r.Src.Draw(3) == 2
	o.combine = r.Src.Draw(4) == 3
	o.single = r.Src.Draw(8) == 7
	return w, o
}

// C03: Parse finishes and leaves nothing running.
func scenC03(r *R) {
	w, o := anyWorld(r)
	if r.Src.Draw(6) == 5 {
		deepMain(r, w)
	}
	w.install(r)
	// stalls that end after a while
	stall := r.Src.Draw(3) == 2
	if stall {
		on := r.FS.OnOpen
		r.FS.OnOpen = func(h *sim.Handle) {
			on(h)
			if r.Src.Env(2, nil) == 1 {
				n := len(w.files[h.Path])
				h.D.StallAt = []int{r.Src.Env(n+1, nil)}
			}
		}
		r.S.OnQuiesce = func() bool {
			ok := false
			for _, h := range r.FS.Handles {
				if h.D.Stalled() {
					h.D.Release()
					ok = true
				}
			}
			return ok
		}
	}
	cap := genCap(r)
	r.describeCall(w.main, o, cap)
	c := newCall(r, w.main, o)
	r.Exec(func() {
		c.run()
		r.FS.Sealed, r.FS.SealedTag = true, sim.CurTag()
	})
	r.Nontriv = len(r.FS.Handles) > 0
	r.Evals++
	if r.S.Outcome != sim.OutOK {
		return
	}
	if !c.done {
		r.Fail("no-return", "Parse did not return")
	}
	if c.pl == nil && c.err == nil {
		r.Fail("no-result", "Parse returned neither a payload nor an error")
	}
	if len(r.FS.AfterSeal) > 0 {
		r.Fail("activity-after-return", "after Parse had returned: %s", strings.Join(r.FS.AfterSeal, ", "))
	}
	checkLeak(r, "Parse")
}

func checkLeak(r *R, what string) {
	if l := r.S.Leaked(); len(l) > 0 {
		var s []string
		for _, g := range l {
			s = append(s, fmt.Sprintf("%s (blocked: %s)", g.Name, g.Reason))
		}
		r.Fail("leak", "after %s had returned %d goroutine(s) it started never end: %s", what, len(l), strings.Join(s, ", "))
	}
}

// deepMain replaces the main file by deeply nested blocks.
func deepMain(r *R, w *wgen) {
	n := []int{30, 200, 1000, 10010, 200000}[r.Src.DrawW(10, 8, 4, 1, 1)]
	unit := pick(r, []string{"a{", "http {", "server {\n", "location / {", "if (x) {", "types {", "foo x {\n"})
	if n > 5000 {
		unit = "a{"
	}
	t := strings.Repeat(unit, n)
	t += pick(r, []string{"", "x y;", "include a.conf;", "bad"})
	t += strings.Repeat("}", r.Src.Draw(n+2))
	w.files[w.abs(w.main)] = t
	r.Bytes += len(t)
	if n > 5000 {
		r.MaxSteps = 60000000
	}
}

// C04: handles.
func scenC04(r *R) {
	var w *wgen
	var o popts
	if r.Src.Draw(3) == 2 {
		w, o = manyIncludes(r)
	} else {
		w, o = anyWorld(r)
	}
	w.install(r)
	cap := genCap(r)
	r.describeCall(w.main, o, cap)
	c := newCall(r, w.main, o)
	openAtReturn := 0
	var left []string
	r.Exec(func() {
		c.run()
		for _, h := range r.FS.Handles {
			if h.Closes == 0 {
				openAtReturn++
				left = append(left, h.Path)
			}
		}
	})
	r.Nontriv = len(r.FS.Handles) > 1
	if r.S.Outcome != sim.OutOK {
		return
	}
	r.Evals += len(r.FS.Handles)
	if openAtReturn > 0 {
		r.Fail("open-handle", "when Parse returned %d of %d handles were not closed: %s", openAtReturn, len(r.FS.Handles), strings.Join(left, ", "))
	}
	if len(r.FS.Misuse) > 0 {
		r.Fail("misuse", "%s", strings.Join(r.FS.Misuse, "; "))
	}
	for _, h := range r.FS.Handles {
		if h.Closes > 1 {
			r.Fail("closed-twice", "%s was closed %d times", h.Path, h.Closes)
		}
	}
	if r.FS.MaxOpen > 5 {
		r.Fail("many-open", "%d handles were open at the same time (%d files opened)", r.FS.MaxOpen, len(r.FS.Handles))
	}
}

func manyIncludes(r *R) (*wgen, popts) {
	n := 6 + r.Src.Draw(30)
	w := &wgen{world: &world{cwd: "/w", files: map[string]string{}, dirs: map[string]bool{}, fault: map[string]*fileFault{}, globs: map[string]error{}}}
	w.list = r.FS.GlobMatch
	w.main = "m.conf"
	w.paths = []string{"m.conf"}
	w.exts = &extSet{}
	var sb strings.Builder
	style := r.Src.Draw(4)
	for i := 0; i < n; i++ {
		p := fmt.Sprintf("inc/f%02d.conf", i)
		w.paths = append(w.paths, p)
		t := fmt.Sprintf("x%d y;\n", i)
		switch style {
		case 0:
			sb.WriteString("include " + p + ";\n")
		case 1: // a chain
			if i+1 < n {
				t += fmt.Sprintf("include inc/f%02d.conf;\n", i+1)
			}
		case 2: // the same files again and again
			sb.WriteString("include " + p + ";\n")
			for k := 0; k < i; k += 5 {
				sb.WriteString(fmt.Sprintf("include inc/f%02d.conf;\n", k))
			}
		}
		w.files["/w/"+p] = t
	}
	if style == 1 {
		sb.WriteString("include inc/f00.conf;\n")
	}
	if style == 3 {
		sb.WriteString("include inc/*.conf;\n")
		w.patterns = append(w.patterns, "inc/*.conf")
	}
	if r.Src.Draw(3) == 2 {
		sb.WriteString("gzip maybe;\n}")
	}
	w.files["/w/m.conf"] = sb.String()
	for k := r.Src.Draw(4); k > 0; k-- {
		p := w.paths[r.Src.Draw(len(w.paths))]
		switch r.Src.Draw(3) {
		case 0:
			w.readFault(r, p)
		case 1:
			w.openFault(r, p)
		case 2:
			w.ff(p).closeErr = &testErr{"close fails"}
		}
	}
	o := genOpts(r, w.exts)
	o.stop = r.Src.Draw(3) == 2
	o.combine = r.Src.Draw(4) == 3
	return w, o
}

// C07: include graphs.
func scenC07(r *R) {
	c := wcfg{files: 7, budget: 7, comments: 12, unknown: 12, invalid: []int{0, 0, 14}[r.Src.Draw(3)], fancy: 40, exts: r.Src.Draw(5) == 4, incRate: 3, depth: 4, cycles: 15, nest: 15}
	c.wild = []int{0, 0, 10}[r.Src.Draw(3)]
	w := genWorld(r, c)
	w.deliver(r)
	o := genOpts(r, w.exts)
	o.single = r.Src.Draw(16) == 15
	o.stop = r.Src.Draw(6) == 5
	parseVsModel(r, w, o, "includes", func(mc *mcall) bool { return len(mc.order) > 1 })
}

func parseVsModel(r *R, w *wgen, o popts, class string, nontriv func(mc *mcall) bool) (*mcall, *pcall, *mPayload) {
	w.install(r)
	cap := genCap(r)
	r.describeCall(w.main, o, cap)
	mc, want, werr := refParse(w.world, w.main, o)
	r.Nontriv = nontriv(mc)
	c := newCall(r, w.main, o)
	r.Exec(c.run)
	if r.S.Outcome != sim.OutOK {
		return mc, c, nil
	}
	c.check(class, want, werr)
	if werr != nil {
		return mc, c, nil
	}
	return mc, c, want
}

// C08: failing include lookups.
func scenC08(r *R) {
	w := genWorld(r, wcfg{files: 6, budget: 7, comments: 14, unknown: 12, invalid: []int{0, 16}[r.Src.Draw(2)], fancy: 40, incRate: 3, depth: 4, missing: true, globBad: true, dirs: true, cycles: 5})
	if r.Src.Draw(2) == 1 {
		w.deliver(r)
	}
	for k := 1 + r.Src.Draw(3); k > 0; k-- {
		switch r.Src.DrawW(3, 1) {
		case 0:
			w.openFault(r, w.paths[r.Src.Draw(len(w.paths))])
		case 1:
			if len(w.patterns) > 0 {
				w.globs[w.patterns[r.Src.Draw(len(w.patterns))]] = &testErr{"glob fails"}
			}
		}
	}
	o := genOpts(r, w.exts)
	o.stop = r.Src.Draw(6) == 5
	mc, c, _ := parseVsModel(r, w, o, "include-faults", func(mc *mcall) bool { return true })
	r.Nontriv = r.S.Fired("open-error")+r.S.Fired("glob-error") > 0
	if r.S.Outcome != sim.OutOK || r.Viol != nil {
		return
	}
	_ = mc
	// an error of the file's own turn comes back as such
	if c.err != nil && !o.stop {
		r.Evals++
		if c.pl != nil {
			r.Fail("payload-with-error", "Parse returned both a payload and the error %v", c.err)
		}
	}
}

// C09: error accounting.
func scenC09(r *R) {
	c := wcfg{files: 4, budget: 10, comments: 10, unknown: 8, invalid: []int{3, 5, 9}[r.Src.Draw(3)], fancy: 50, exts: r.Src.Draw(3) == 2, incRate: 5, depth: 4, missing: true, globBad: true, dirs: true, cycles: 5}
	c.wild = []int{0, 30, 80}[r.Src.Draw(3)]
	w := genWorld(r, c)
	if r.Src.Draw(2) == 1 {
		w.deliver(r)
	}
	for k := r.Src.Draw(3); k > 0; k-- {
		p := w.paths[r.Src.Draw(len(w.paths))]
		if r.Src.Draw(2) == 0 {
			w.readFault(r, p)
		} else {
			w.openFault(r, p)
		}
	}
	o := genOpts(r, w.exts)
	o.callback = r.Src.Draw(8) != 7
	if r.Src.Draw(3) == 2 {
		o.ignore = append(o.ignore, pick(r, []string{"ignored_d", "gzip", "server"}))
	}
	o.combine = r.Src.Draw(8) == 7
	_, cl, want := parseVsModel(r, w, o, "errors", func(mc *mcall) bool { return mc.calls > 0 })
	if r.S.Outcome != sim.OutOK || r.Viol != nil || cl.pl == nil || want == nil {
		return
	}
	checkAccounting(r, cl)
	for i, e := range want.errs {
		pe, ok := cl.pl.Errors[i].Error.(*crossplane.ParseError)
		if !ok {
			continue
		}
		switch {
		case e.err.blk != "" && pe.BlockCtx != e.err.blk:
			r.Fail("context", "error %d (%v) is said to be in block %q, it is in %q", i, pe, pe.BlockCtx, e.err.blk)
		case pe.What == "":
			r.Fail("context", "error %d (%v) does not say what is wrong", i, pe)
		case e.err.stmt != "" && !strings.HasPrefix(pe.Statement, e.err.stmt):
			r.Fail("context", "error %d (%v) is said to be in statement %q, it is in a statement %q", i, pe, pe.Statement, e.err.stmt)
		case e.err.what == "premature end of file" && !errors.Is(pe, crossplane.ErrPrematureLexEnd):
			r.Fail("context", "error %d (%v) is the end of the file in a statement, but is not ErrPrematureLexEnd", i, pe)
		}
	}
}

// checkAccounting is independent of the model.
func checkAccounting(r *R, c *pcall) {
	r.Evals++
	pl := c.pl
	if c.o.callback {
		if len(c.seen) != len(pl.Errors) {
			r.Fail("callback", "%d errors are recorded, the callback was called %d times", len(pl.Errors), len(c.seen))
			return
		}
		for i, e := range pl.Errors {
			if e.Error != c.seen[i] {
				r.Fail("callback", "recorded error %d (%v) is not the one the callback got (%v)", i, e.Error, c.seen[i])
				return
			}
			if e.Callback != i+1 {
				r.Fail("callback", "the result of the callback for error %d is %v", i, e.Callback)
				return
			}
		}
	}
	if (pl.Status == "failed") != (len(pl.Errors) > 0) {
		r.Fail("status", "payload status %q with %d errors", pl.Status, len(pl.Errors))
	}
	if c.o.combine {
		return
	}
	for _, cf := range pl.Config {
		var own []crossplane.PayloadError
		for _, e := range pl.Errors {
			if e.File == cf.File {
				own = append(own, e)
			}
		}
		if (cf.Status == "failed") != (len(cf.Errors) > 0) {
			r.Fail("status", "config %s has status %q with %d errors", cf.File, cf.Status, len(cf.Errors))
		}
		if len(own) != len(cf.Errors) {
			r.Fail("accounting", "config %s has %d errors, the payload has %d for it", cf.File, len(cf.Errors), len(own))
			return
		}
		for i := range own {
			if own[i].Error != cf.Errors[i].Error || lineStr(own[i].Line) != lineStr(cf.Errors[i].Line) {
				r.Fail("accounting", "error %d of config %s differs between the config and the payload: %v / %v", i, cf.File, cf.Errors[i].Error, own[i].Error)
				return
			}
			if pe, ok := own[i].Error.(*crossplane.ParseError); ok && pe.File != nil && *pe.File != cf.File {
				r.Fail("accounting", "error %d of config %s names file %s", i, cf.File, *pe.File)
			}
		}
	}
}

func opsOf(r *R, tag int) []string {
	var out []string
	for _, o := range r.FS.Ops {
		if o.Tag == tag && (o.Op == "open" || o.Op == "glob") {
			out = append(out, o.Op+" "+o.Path)
		}
	}
	return out
}

// C10: stop mode against tolerant mode.
func scenC10(r *R) {
	c := wcfg{files: 5, budget: 9, comments: 12, unknown: 8, invalid: []int{8, 20, 50, 0}[r.Src.Draw(4)], fancy: 50, exts: r.Src.Draw(4) == 3, incRate: 4, depth: 4, missing: r.Src.Draw(2) == 1, globBad: true, dirs: true, cycles: 5}
	c.wild = []int{0, 0, 40}[r.Src.Draw(3)]
	w := genWorld(r, c)
	if r.Src.Draw(2) == 1 {
		w.deliver(r)
	}
	for k := r.Src.Draw(3); k > 0; k-- {
		p := w.paths[r.Src.Draw(len(w.paths))]
		switch r.Src.Draw(3) {
		case 0:
			w.readFault(r, p)
		case 1:
			w.openFault(r, p)
		case 2:
			if len(w.patterns) > 0 {
				w.globs[w.patterns[r.Src.Draw(len(w.patterns))]] = &testErr{"glob fails"}
			}
		}
	}
	o := genOpts(r, w.exts)
	o.combine = r.Src.Draw(6) == 5
	w.install(r)
	cap := genCap(r)
	r.describeCall(w.main, o, cap)
	r.Desc("the same call is made with StopParsingOnError")
	o.callback = true
	tol := newCall(r, w.main, o)
	os := o
	os.stop = true
	mc, _, _ := refParse(w.world, w.main, os)
	stop := newCall(r, w.main, os)
	firstOps := -1
	tol.onCb = func(n int) {
		if n == 1 {
			firstOps = len(opsOf(r, 1))
		}
	}
	r.Exec(func() {
		order := r.Src.Env(2, nil) == 1
		run := func(tag int, c *pcall) { sim.Join(sim.GoNamed(fmt.Sprint("call ", tag), tag, c.run)) }
		if order {
			run(2, stop)
			run(1, tol)
		} else {
			run(1, tol)
			run(2, stop)
		}
	})
	if r.S.Outcome != sim.OutOK {
		return
	}
	r.Evals++
	r.Nontriv = len(tol.seen) > 0
	var want error
	switch {
	case len(tol.seen) > 0:
		want = tol.seen[0]
	default:
		want = tol.err
	}
	if len(stop.seen) > 0 {
		r.Fail("callback", "ErrorCallback was called with StopParsingOnError: %v", stop.seen[0])
		return
	}
	allowed := map[string]bool{}
	for _, e := range mc.events {
		allowed[e] = true
	}
	for _, e := range opsOf(r, 2) {
		if !allowed[e] {
			r.Fail("more-work", "stop mode asked for a source that no statement before the failing one names: %s", e)
			return
		}
	}
	if want == nil {
		d := firstDiff(stripCb(dumpReal(tol.pl, tol.err)), dumpReal(stop.pl, stop.err))
		if d != "" {
			r.Fail("payload-differs", "no error is recorded, but stop mode differs from tolerant mode: %s", d)
			return
		}
		want1, got1 := strings.Join(opsOf(r, 1), "\n"), strings.Join(opsOf(r, 2), "\n")
		if d := firstDiff(want1, got1); d != "" {
			r.Fail("sources-differ", "sources asked for differ between the modes: %s", d)
		}
		return
	}
	if stop.err == nil {
		r.Fail("no-error", "tolerant mode reports %v first, stop mode returns no error", want)
		return
	}
	if stop.pl != nil {
		r.Fail("payload", "stop mode returned a payload together with the error %v", stop.err)
		return
	}
	if stop.err.Error() != want.Error() || errStr(stop.err) != errStr(want) {
		r.Fail("other-error", "tolerant mode reports %v first, stop mode returns %v", want, stop.err)
		return
	}
	if a, ok := want.(*crossplane.ParseError); ok {
		var b *crossplane.ParseError
		if !errors.As(stop.err, &b) || b.Statement != a.Statement || b.BlockCtx != a.BlockCtx {
			r.Fail("other-error", "the error of stop mode differs in statement or block: %+v / %+v", want, stop.err)
			return
		}
	}
	wantOps := opsOf(r, 1)
	if firstOps >= 0 {
		wantOps = wantOps[:firstOps]
	}
	if d := firstDiff(strings.Join(wantOps, "\n"), strings.Join(opsOf(r, 2), "\n")); d != "" {
		r.Fail("more-work", "sources asked for up to the first error differ: %s", d)
	}
}

func stripCb(s string) string { return s }

// C18: only the sources it is told to, and only reading.
func scenC18(r *R) {
	w, o := anyWorld(r)
	o.single = r.Src.Draw(4) == 3
	w.install(r)
	cap := genCap(r)
	r.describeCall(w.main, o, cap)
	before, data := r.FS.Snapshot()
	mc, _, _ := refParse(w.world, w.main, o)
	c := newCall(r, w.main, o)
	r.Exec(c.run)
	if r.S.Outcome != sim.OutOK {
		return
	}
	r.Nontriv = len(r.FS.Ops) > 2
	viaOpen, viaGlob := 0, 0
	for _, e := range c.last {
		if strings.HasPrefix(e, "open ") {
			viaOpen++
		}
		if strings.HasPrefix(e, "glob ") {
			viaGlob++
		}
	}
	opens, globs := 0, 0
	for _, op := range r.FS.Ops {
		r.Evals++
		switch op.Op {
		case "open":
			opens++
			if !mc.paths[op.Path] {
				r.Fail("foreign-path", "Parse opened %s, which is neither the main file nor included", op.Path)
			}
		case "glob":
			globs++
			if !contains(mc.globbed, op.Path) {
				r.Fail("foreign-glob", "Parse looked up the pattern %s, which no include names", op.Path)
			}
		case "close":
		default:
			r.Fail("foreign-op", "Parse performed %q on %s", op.Op, op.Path)
		}
	}
	if !o.noOpen && opens != viaOpen {
		r.Fail("bypass", "Open is supplied, but Parse opened %d files itself", opens-viaOpen)
	}
	if !o.noGlob && globs != viaGlob {
		r.Fail("bypass", "Glob is supplied, but Parse looked up %d patterns itself", globs-viaGlob)
	}
	if o.single && opens > 1 {
		r.Fail("single-file", "with SingleFile %d files were opened", opens)
	}
	if o.single && globs > 0 {
		r.Fail("single-file", "with SingleFile a pattern was looked up")
	}
	after, data2 := r.FS.Snapshot()
	if strings.Join(before, "\n") != strings.Join(after, "\n") || strings.Join(data, "\x00") != strings.Join(data2, "\x00") {
		r.Fail("modified", "the file system was modified")
	}
}
