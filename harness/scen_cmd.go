package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/nginxinc/nginx-go-crossplane/internal/generator"
	sim "github.com/nginxinc/nginx-go-crossplane/internal/verifsim"
	"github.com/nginxinc/nginx-go-crossplane/internal/verifsim/gencmd"
	sflag "github.com/nginxinc/nginx-go-crossplane/internal/verifsim/sflag"
	slog "github.com/nginxinc/nginx-go-crossplane/internal/verifsim/slog"
	sos "github.com/nginxinc/nginx-go-crossplane/internal/verifsim/sos"
)

// settings is one source of settings of the generator command: the config file or the command line.
type settings struct {
	mapName, fnName, comment string
	filter                   []string
	override                 map[string][]generator.Mask
	hasFilter, hasOverride   bool
}

func genSettings(r *R, half bool) settings {
	s := settings{}
	c := genGenConfig(r)
	w := func() bool { return !half || r.Src.Draw(2) == 0 }
	if w() {
		s.mapName = c.DirectiveMapName
	}
	if w() {
		s.fnName = c.MatchFuncName
	}
	if w() {
		s.comment = c.MatchFuncComment
	}
	if half && s.mapName != "" {
		s.mapName += "Too"
	}
	if half && s.fnName != "" {
		s.fnName += "Too"
	}
	if c.Filter != nil && w() {
		s.hasFilter = true
		for k := range c.Filter {
			s.filter = append(s.filter, k)
		}
		sort.Strings(s.filter)
	}
	if c.Override != nil && w() {
		s.hasOverride, s.override = true, map[string][]generator.Mask{}
		for k, ms := range c.Override {
			if len(ms) > 0 {
				s.override[k] = ms
			}
		}
	}
	return s
}

// in writes the settings as a config file.
func (s *settings) in(r *R) string {
	var fs []string
	str := func(k, v string) {
		if v != "" {
			b, _ := json.Marshal(v)
			fs = append(fs, fmt.Sprintf("%q: %s", k, b))
		} else if r.Src.Draw(4) == 3 {
			fs = append(fs, fmt.Sprintf("%q: \"\"", k))
		}
	}
	str("directiveMapName", s.mapName)
	str("matchFuncName", s.fnName)
	str("matchFuncComment", s.comment)
	if s.hasFilter {
		b, _ := json.Marshal(append([]string{}, s.filter...))
		fs = append(fs, `"filter": `+string(b))
	} else if r.Src.Draw(6) == 5 {
		fs = append(fs, `"filter": `+[]string{"null", "[]"}[r.Src.Draw(2)])
	}
	if s.hasOverride {
		b, _ := json.Marshal(s.override)
		fs = append(fs, `"override":`+string(b))
	} else if r.Src.Draw(6) == 5 {
		fs = append(fs, `"override": `+[]string{"null", "{}"}[r.Src.Draw(2)])
	}
	for i := len(fs) - 1; i > 0; i-- {
		j := r.Src.Draw(i + 1)
		fs[i], fs[j] = fs[j], fs[i]
	}
	sep := []string{",\n    ", ",", " ,\r\n"}[r.Src.Draw(3)]
	return "{" + []string{"\n    ", ""}[r.Src.Draw(2)] + strings.Join(fs, sep) + []string{"\n}", "}"}[r.Src.Draw(2)]
}

// flags writes the settings as arguments, each entry is what belongs together.
func (s *settings) flags(r *R) [][]string {
	var out [][]string
	add := func(k, v string) {
		dash := []string{"-", "--"}[r.Src.DrawW(3, 1)]
		if r.Src.Draw(2) == 0 {
			out = append(out, []string{dash + k, v})
		} else {
			out = append(out, []string{dash + k + "=" + v})
		}
	}
	if s.mapName != "" {
		add("directive-map-name", s.mapName)
	}
	if s.fnName != "" {
		add("match-func-name", s.fnName)
	}
	if s.comment != "" {
		add("match-func-comment", s.comment)
	}
	for _, f := range s.filter {
		add("filter", f)
	}
	var ks []string
	for k := range s.override {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	sp := func() string { return []string{"", " "}[r.Src.DrawW(4, 1)] }
	for _, k := range ks {
		var ms []string
		for _, m := range s.override[k] {
			ms = append(ms, sp()+strings.Join(m, sp()+"|"+sp())+sp())
		}
		add("override", sp()+k+sp()+":"+strings.Join(ms, ","))
	}
	return out
}

// command is one run of the generator command.
type command struct {
	args   []string
	must   string // why it must fail
	mustIf string // why it must fail if the fault in the files is met
	may    bool   // it may fail
	want   generator.GenerateConfig
	out    *gsink
	err    *gsink
	code   int
	done   bool
	config string
}

const cfgPath = "/etc/gen/config.json"

// C21: the generator command.
func scenC21(r *R) {
	t := genTree(r)
	for _, f := range t.files {
		r.FS.Put(f.path, f.text)
		r.Bytes += len(f.text)
		r.Desc("--- %s\n%s", f.path, clip(f.text, 2000))
	}
	for _, d := range t.dirs {
		r.FS.PutDir(d)
	}
	r.FS.PutDir("/etc/gen")
	var badPath, badOp string
	var badErr error
	var badN, badRead, readMode int
	r.FS.Hook = func(op, path string, h *sim.Handle) sim.Fault {
		if badOp != "" && (op == badOp || op == "stat" && badOp == "lstat") && path == badPath {
			r.S.Count(badOp + "-error")
			return sim.Fault{Err: badErr, N: badN}
		}
		return sim.Fault{}
	}
	r.FS.OnOpen = func(h *sim.Handle) {
		h.D.Mode = readMode
		if badOp == "read" && h.Path == badPath {
			h.D.FailAt, h.D.Err = badRead, badErr
		}
	}
	oldArgs, oldOut, oldErr := sos.Args, sos.Stdout, sos.Stderr
	defer func() { sos.Args, sos.Stdout, sos.Stderr, sos.ExitHook = oldArgs, oldOut, oldErr, nil }()
	runs := 1 + r.Src.DrawW(3, 2, 1)
	r.Exec(func() {
		for i := 0; i < runs; i++ {
			if sim.Killed() {
				return
			}
			if i > 0 && r.Src.Draw(3) == 2 {
				f := t.files[r.Src.Draw(len(t.files))]
				f.text, f.defs = r.genCText(r.Src.Draw(25) == 24)
				r.FS.Put(f.path, f.text)
				r.Desc("run %d: %s becomes\n%s", i, f.path, clip(f.text, 2000))
			}
			c := &command{code: -1, out: &gsink{r: r, failAt: -1}, err: &gsink{r: r, failAt: -1}}
			badOp = ""
			readMode = r.Src.Draw(6)
			c.prepare(r, t)
			// faults
			fail := func() error {
				return []error{syscall.EIO, &testErr{"injected"}, syscall.EACCES, io.ErrUnexpectedEOF, syscall.ENOENT, syscall.ENAMETOOLONG, syscall.ELOOP, os.ErrClosed, syscall.EISDIR}[r.Src.Draw(9)]
			}
			if r.Src.Draw(3) == 2 {
				badErr = fail()
				f := t.files[r.Src.Draw(len(t.files))]
				reach := f.src && (t.sub == "" || t.sub == f.path)
				why := ""
				switch r.Src.Draw(6) {
				case 0:
					if badOp, badPath = "open", f.path; reach {
						why = badPath + " cannot be opened"
					}
				case 1:
					if badOp, badPath, badRead = "read", f.path, r.Src.Draw(len(f.text)+1); reach {
						why = badPath + " cannot be read"
					}
				case 2:
					if badOp, badPath, badN = "readdir", filepath.Dir(f.path), r.Src.Draw(3); t.sub == "" {
						why = badPath + " cannot be listed"
					}
				case 3:
					badOp, badPath = "lstat", r.FS.Abs(t.target())
					why = badPath + " cannot be examined"
				case 4:
					if badOp, badPath = "open", cfgPath; c.config != "" {
						why = "the config file cannot be opened"
					}
				case 5:
					badOp, badPath, badRead = "read", cfgPath, r.Src.Draw(len(c.config)+1)
					if end := strings.LastIndexByte(c.config, '}'); badRead <= end {
						why = "the config file cannot be read"
					} else if c.config != "" {
						c.may = true
					}
				}
				c.mustIf = why
				r.Desc("run %d: %s of %s fails with %v (offset %d, entries %d)", i, badOp, badPath, badErr, badRead, badN)
			}
			streamErr := []error{syscall.ENOSPC, syscall.EIO, syscall.EPIPE, &testErr{"disk full"}}[r.Src.Draw(4)]
			c.out.err, c.err.err = streamErr, streamErr
			if r.Src.Draw(4) == 3 {
				c.out.failAt = r.Src.Draw(1400)
				if r.Src.Draw(2) == 1 {
					c.out.failAt = 600 + r.Src.Draw(120)
				}
				r.Desc("run %d: stdout fails with %v after %d bytes", i, streamErr, c.out.failAt)
			}
			if r.Src.Draw(8) == 7 {
				c.err.failAt = r.Src.Draw(10)
				r.Desc("run %d: stderr fails with %v after %d bytes", i, streamErr, c.err.failAt)
			}
			r.Desc("run %d: generate %q", i, c.args)
			paths, data := r.FS.Snapshot()
			struck := r.fired(badOp + "-error")
			c.run(r, 20+i)
			if c.mustIf != "" && r.fired(badOp+"-error") != struck {
				c.must = c.mustIf
			}
			if sim.Killed() {
				return
			}
			r.S.Log("command-exit", "", c.code, i)
			badOp = ""
			paths2, data2 := r.FS.Snapshot()
			if i > 0 || c.config != "" || badPath != "" || len(t.files) > 2 {
				r.Nontriv = true
			}
			r.Evals++
			if !c.judge(r, t, i) {
				return
			}
			if d := firstDiff(strings.Join(paths, "\n")+"\n"+strings.Join(data, "\n"), strings.Join(paths2, "\n")+"\n"+strings.Join(data2, "\n")); d != "" {
				r.Fail("modifies", "run %d: the command changed the file system: %s", i, d)
				return
			}
		}
	})
}

// prepare draws the settings and the arguments.
func (c *command) prepare(r *R, t *gtree) {
	bad := r.Src.DrawW(6, 1, 1, 1, 1, 1)
	useCfg := r.Src.Draw(2) == 1
	fromFile := settings{}
	r.FS.Del(cfgPath)
	if useCfg {
		fromFile = genSettings(r, false)
		c.config = fromFile.in(r)
		if r.Src.Draw(3) == 2 {
			c.config += []string{"\n", " \n\n"}[r.Src.Draw(2)]
		}
	}
	fromArgs := genSettings(r, useCfg)
	switch bad {
	case 1: // a setting is missing
		if r.Src.Draw(2) == 0 {
			fromFile.mapName, fromArgs.mapName = "", ""
		} else {
			fromFile.fnName, fromArgs.fnName = "", ""
		}
		if useCfg {
			c.config = fromFile.in(r)
		}
	}
	args := fromArgs.flags(r)
	c.want = generator.GenerateConfig{DirectiveMapName: fromFile.mapName, MatchFuncName: fromFile.fnName, MatchFuncComment: fromFile.comment, Override: fromFile.override}
	filter := fromFile.filter
	if fromArgs.mapName != "" {
		c.want.DirectiveMapName = fromArgs.mapName
	}
	if fromArgs.fnName != "" {
		c.want.MatchFuncName = fromArgs.fnName
	}
	if fromArgs.comment != "" {
		c.want.MatchFuncComment = fromArgs.comment
	}
	if len(fromArgs.filter) > 0 {
		filter = fromArgs.filter
	}
	if len(fromArgs.override) > 0 {
		c.want.Override = fromArgs.override
	}
	c.want.Filter = generator.Filters{}
	for _, f := range filter {
		c.want.Filter[f] = struct{}{}
	}
	if c.want.DirectiveMapName == "" || c.want.MatchFuncName == "" {
		c.must = "a required name is missing"
	}
	src := [][]string{{"-src-path", t.target()}, {"-src-path=" + t.target()}, {"--src-path", t.target()}}[r.Src.Draw(3)]
	if useCfg {
		switch {
		case bad == 2:
			k := r.Src.Draw(7)
			c.must = "the config file is broken"
			switch k {
			case 0:
				c.config = c.config[:r.Src.Draw(strings.LastIndexByte(c.config, '}')+1)]
			case 1:
				c.config = `{"directiveMapName": "a", "matchFuncName": "B", "filter": {"alpha": true}}`
			case 2:
				c.config = `{"directiveMapName": "a", "override": {"alpha": "ngxConfFlag"}, "matchFuncName": "B"}`
			case 3:
				c.config = `{"matchFuncName": 5, "directiveMapName": "a"}`
			case 4:
				c.config = `{"matchFuncName": "M", "directiveMapName": "a"`
			case 5:
				c.config = "directiveMapName: a\nmatchFuncName: B\n"
			case 6: // nothing of it has been written yet
				c.config = []string{"", "\n"}[r.Src.Draw(2)]
			}
		case bad == 3 && r.Src.Draw(2) == 0:
			c.must = "the config file is missing"
		}
		args = append(args, []string{"-config-path=" + cfgPath})
		if c.must != "the config file is missing" {
			r.FS.Put(cfgPath, c.config)
			r.Desc("--- %s\n%s", cfgPath, c.config)
		}
	}
	badArg := false
	switch bad {
	case 4: // a bad argument
		c.must, badArg = "the arguments are invalid", true
		args = append(args, [][]string{{"-frobnicate"}, {"-override=alpha"}, {"-override", "alpha:"}, {"-override=:ngxConfFlag"}, {"-override=alpha:ngxConfFlag||ngxConfTake1"}, {"-override="}, {"-override=alpha:ngxConfFlag,,ngxConfTake1"}, {"-override=alpha:ngxConfFlag|"}}[r.Src.Draw(8)])
	case 5:
		c.must = "the source path is bad"
		switch r.Src.Draw(3) {
		case 0:
			src = nil
		case 1:
			src = []string{"-src-path=/nosuch/dir"}
		case 2:
			src = []string{"-src-path="}
		}
	}
	if src != nil {
		args = append(args, src)
	}
	for i := len(args) - 1; i > 0; i-- {
		j := r.Src.Draw(i + 1)
		args[i], args[j] = args[j], args[i]
	}
	if bad == 4 && r.Src.Draw(6) == 5 {
		args = append(args, []string{"-filter"}) // without its value
	}
	_ = badArg
	for _, a := range args {
		c.args = append(c.args, a...)
	}
}

// run is the life of the process.
func (c *command) run(r *R, tag int) {
	exit := func(code int) {
		if c.code < 0 {
			c.code = code
		}
		sim.CrashTag(tag)
	}
	stream := func(name string, s *gsink) *sos.File {
		return sos.Stream(name, func(p []byte) (int, error) {
			n, err := s.Write(p)
			if err == syscall.EPIPE && !sim.Killed() {
				exit(128 + int(syscall.SIGPIPE))
			}
			return n, err
		})
	}
	sos.Args = append([]string{"generate"}, c.args...)
	sos.Stdout, sos.Stderr = stream("/dev/stdout", c.out), stream("/dev/stderr", c.err)
	sos.ExitHook = func(code int) bool {
		exit(code)
		return true
	}
	sim.Join(sim.GoNamed("command", tag, func() {
		sflag.Reset()
		slog.Reset()
		generator.VerifReset(false)
		gencmd.VerifReset(true)
		gencmd.VerifMain()
		if !sim.Killed() {
			exit(0)
		}
	}))
	sos.ExitHook = nil
	c.done = true
}

func (c *command) judge(r *R, t *gtree, i int) bool {
	who := fmt.Sprintf("run %d: generate %q", i, c.args)
	want := t.expect(&c.want)
	must := c.must
	if must == "" {
		must = want.mustErr
	}
	if c.out.fired {
		must = fmt.Sprintf("stdout failed after %d bytes", c.out.failAt)
	}
	if c.code < 0 {
		r.Fail("no-exit", "%s: the process ended without an exit status", who)
		return false
	}
	if c.code != 0 {
		if must == "" && !c.may && !want.mayErr {
			r.Fail("error", "%s exits with %d although nothing is wrong: %s", who, c.code, clip(string(c.err.buf), 500))
			return false
		}
		if len(c.err.buf) == 0 && !c.err.fired && !c.out.fired {
			r.Fail("no-message", "%s exits with %d and no message", who, c.code)
			return false
		}
		if !c.out.fired {
			if got, err := readTable(c.out.buf, &c.want); err == nil {
				r.Fail("table-despite-failure", "%s exits with %d but prints a table of %d directives", who, c.code, len(got))
				return false
			}
		}
		return true
	}
	if must != "" {
		r.Fail("silent", "%s exits with 0 although %s", who, must)
		return false
	}
	got, err := readTable(c.out.buf, &c.want)
	if err != nil {
		r.Fail("output", "%s: bad support file: %v\n%s", who, err, clip(string(c.out.buf), 2000))
		return false
	}
	if d := diffTables(want.m, got); d != "" {
		r.Fail("table", "%s: %s", who, d)
		return false
	}
	return true
}
