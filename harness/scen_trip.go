package main

import (
	"fmt"
	"path/filepath"
	"regexp"
	"strings"
	"unicode"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
	sim "github.com/nginxinc/nginx-go-crossplane/internal/verifsim"
)

// tripDump describes what must survive the way over the disk: everything but line numbers and where the files are.
func tripDump(pl *crossplane.Payload, err error, name func(string) string, skip int) string {
	d := &dumper{}
	d.p("returned: %v", err)
	if pl == nil {
		return d.sb.String()
	}
	d.p("payload %s, %d errors, %d configs", pl.Status, len(pl.Errors), len(pl.Config))
	for _, e := range pl.Errors {
		d.p("error %v", e.Error)
	}
	var dirs func(l crossplane.Directives, ind string)
	dirs = func(l crossplane.Directives, ind string) {
		for _, x := range l {
			c := "-"
			if x.Comment != nil {
				c = fmt.Sprintf("%q", *x.Comment)
			}
			d.p("%s%q args=%q includes=%s block=%v comment=%s map=%v", ind, x.Directive, x.Args, ints(x.Includes), x.Block != nil, c, x.IsMapBlockParameter)
			dirs(x.Block, ind+"  ")
		}
	}
	for i, c := range pl.Config {
		d.p("config %d %s %s", i, name(c.File), c.Status)
		l := c.Parsed
		if skip <= len(l) {
			l = l[skip:]
		}
		dirs(l, "  ")
	}
	return d.sb.String()
}

// normal applies what the builder documents to lose: comments that share their line with others are joined, and the
// white space at the end of a file goes.
func normal(pl *crossplane.Payload) *crossplane.Payload {
	if pl == nil {
		return nil
	}
	p := copyPayload(pl)
	var dirs func(l crossplane.Directives, last int) crossplane.Directives
	dirs = func(l crossplane.Directives, last int) crossplane.Directives {
		if l == nil {
			return nil
		}
		out := crossplane.Directives{}
		inline := false
		for _, d := range l {
			if d.IsComment() && d.Line == last {
				if inline {
					c := *out[len(out)-1].Comment + " #" + *d.Comment
					out[len(out)-1].Comment = &c
					continue
				}
			} else {
				last = d.Line
			}
			inline = d.IsComment()
			d.Block = dirs(d.Block, d.Line)
			out = append(out, d)
		}
		return out
	}
	for i := range p.Config {
		c := &p.Config[i]
		c.Parsed = dirs(c.Parsed, 0)
		if n := len(c.Parsed); n > 0 && c.Parsed[n-1].IsComment() {
			t := strings.TrimRightFunc(*c.Parsed[n-1].Comment, unicode.IsSpace)
			if t != *c.Parsed[n-1].Comment && (len(t)-len(strings.TrimRight(t, "\\")))%2 == 1 {
				t = t[:len(t)-1] // it escaped the white space, and a backslash before the end of a line does not count
			}
			c.Parsed[n-1].Comment = &t
		}
	}
	return p
}

// tripUnits make up the values of payloads made by hand.
var tripUnits = []string{"a", "b", "on", " ", ";", "{", "}", "\"", "'", "#", "$", "${", "\n", "\t", "é", "\u00a0", "\u3000", "\u200b", "\ufeff", "世", "(", ")", "=", "~", "*", "/", ".", "\\\\", "\\n", "\\.", "\\;", "\\ ", "\\$", "\\{", "\\\"", "\\'", "$a", "${b}", "\x00", "\x7f", "include", "if", "log_by_lua_block"}

// tripValue makes a value that can be written down: every backslash escapes something, and not both quotes are escaped.
func tripValue(r *R) string {
	if r.Src.Draw(3) == 0 {
		return pick(r, []string{"a", "80", "/path", "$x", "on", "init_by_lua_block"})
	}
	var sb strings.Builder
	q := pick(r, []string{"\\\"", "\\'"})
	for k := r.Src.Draw(7); k > 0; k-- {
		u := pick(r, tripUnits)
		if u == q {
			u = "q"
		}
		sb.WriteString(u)
	}
	return sb.String()
}

func tripDirs(r *R, depth int, budget *int, lua bool) crossplane.Directives {
	out := crossplane.Directives{}
	for n := r.Src.Draw(5); n > 0 && *budget > 0; n-- {
		*budget--
		d := &crossplane.Directive{Line: r.Src.Draw(12), Args: []string{}}
		switch r.Src.DrawW(8, 2, 3, 2) {
		case 0:
			d.Directive = pick(r, []string{"a", "server", "listen", "x y", "é", "", "}", "#x", "\"", "a'b", "a#b", "${x}", "a;", "log_by_lua_block x", "set_by_lua_blocks", "x\ny"})
		case 1:
			d.Directive = "if"
		case 2:
			d.Directive = "#"
			c := strings.ReplaceAll(tripValue(r), "\n", " ")
			d.Comment = &c
			out = append(out, d)
			continue
		case 3:
			if !lua {
				d.Directive = "plain"
				break
			}
			d.Directive = pick(r, luaNames)
			if d.Directive == "set_by_lua_block" {
				d.Args = append(d.Args, pick(r, []string{"$x", "$res"}))
			}
			d.Args = append(d.Args, pick(r, []string{" return 1 ", "", "\n  local t = { a = 1 }\n", " s = \"x\" ", " a = 'y' ; b = 2 ", " é "}))
			out = append(out, d)
			continue
		}
		for k := r.Src.Draw(4); k > 0; k-- {
			d.Args = append(d.Args, tripValue(r))
		}
		if n := len(d.Args); n > 0 && d.Directive == "if" && strings.HasSuffix(d.Args[n-1], "\\ ") {
			d.Args[n-1] += "z" // the parser drops an escaped space before the closing parenthesis
		}
		if depth < 5 && r.Src.Draw(3) == 2 {
			d.Block = tripDirs(r, depth+1, budget, lua)
		}
		out = append(out, d)
	}
	return out
}

// noSpelling tells whether some value holds both kinds of quote in escaped form: within quotes of either kind, one of
// them would lose its backslash.
func noSpelling(l crossplane.Directives) bool {
	esc := func(s string) bool {
		var have [256]bool
		for i := 0; i+1 < len(s); i++ {
			if s[i] == '\\' {
				i++
				have[s[i]] = true
			}
		}
		return have['"'] && have['\'']
	}
	for _, d := range l {
		if esc(d.Directive) || noSpelling(d.Block) {
			return true
		}
		for _, a := range d.Args {
			if esc(a) {
				return true
			}
		}
	}
	return false
}

// trip is a payload on its way over the disk.
type trip struct {
	r     *R
	w     *wgen
	o     popts
	bo    *crossplane.BuildOptions
	dir   string // as given to BuildFiles
	base  string
	main2 string // the main file as written
	hand  *crossplane.Payload
	merge bool // what is written is the combined form of what was parsed
	cap   int
}

// tripBuilders are the builders in use, in some order: the one for Lua, and one of the user's own. n is the number of
// them if that has been settled.
func tripBuilders(r *R, lua bool, n int) (b []crossplane.RegisterBuilder) {
	k := 0
	if lua {
		k = 1
		b = append(b, (&crossplane.Lua{}).RegisterBuilder())
	}
	if n < 0 && r.Src.Draw(3) == 2 || n > k {
		e := crossplane.BuildWithBuilder(&echoBuilder{r, lua}, "location", "set", "return", "upstream")
		if r.Src.Draw(2) == 1 {
			b = append([]crossplane.RegisterBuilder{e}, b...)
		} else {
			b = append(b, e)
		}
	}
	return b
}

// parsed is the payload to be written, made from what was parsed; nil if there is none.
func (t *trip) parsed(pl *crossplane.Payload) *crossplane.Payload {
	if pl == nil || pl.Status != "ok" || !t.merge {
		return pl
	}
	if expansion(pl, 400) > 400 {
		return nil
	}
	pl, err := pl.Combined()
	if err != nil {
		return nil
	}
	t.r.S.Log("combined", "", len(pl.Config), 0)
	return pl
}

// echoBuilder is a user's builder; what it writes is what is written without it.
type echoBuilder struct {
	r   *R
	lua bool
}

func (e *echoBuilder) Build(d *crossplane.Directive) string {
	if sim.Active() && !sim.Killed() {
		sim.Point("builder")
	}
	o := &crossplane.BuildOptions{Indent: 2}
	if e.lua {
		o.Builders = append(o.Builders, (&crossplane.Lua{}).RegisterBuilder())
	}
	var b strings.Builder
	_ = crossplane.Build(&b, crossplane.Config{Parsed: crossplane.Directives{d}}, o)
	return b.String()
}

func genTrip(r *R) *trip {
	w := genWorld(r, wcfg{files: 4, budget: 8, comments: 8, unknown: 12, fancy: 70, incRate: 4, depth: 4, cycles: 5, luaOnly: r.Src.Draw(2) == 1})
	w.deliver(r)
	o := popts{comments: true, exts: w.exts}
	o.skipCtx = r.Src.Draw(4) != 3
	o.skipArgs = r.Src.Draw(2) == 1
	bo := genBuildOpts(r)
	bo.Builders = nil
	bo.Builders = tripBuilders(r, w.exts.lua, -1)
	t := &trip{r: r, w: w, bo: bo, dir: []string{"", "/srv/out", "../out"}[r.Src.Draw(3)], main2: w.main}
	t.base = r.FS.Abs(t.dir)
	// (a file that is included in several places is valid in the first of them)
	t.merge = o.skipCtx && r.Src.Draw(4) == 3
	if r.Src.Draw(2) == 1 {
		o.skipCtx, o.skipArgs = true, true
		hand := &crossplane.Payload{Status: "ok"}
		t.hand = hand
		t.main2 = pick(r, []string{"made.conf", "x/made.conf", "/abs/made.conf"})
		b := 3 + r.Src.Draw(12)
		hand.Config = append(hand.Config, crossplane.Config{File: t.main2, Status: "ok", Parsed: tripDirs(r, 0, &b, w.exts.lua)})
		if r.Src.Draw(6) == 5 {
			// deeper than the margins kept in stock
			for k := 1 + r.Src.Draw(40); k > 0; k-- {
				l := &hand.Config[0].Parsed
				*l = crossplane.Directives{{Directive: "deep", Line: r.Src.Draw(4), Args: []string{}, Block: *l}}
			}
		}
		r.Desc("payload made by hand:\n%s", clip(dumpReal(hand, nil), 3000))
		r.FS.PutDir(t.base)
	} else {
		w.install(r)
	}
	t.o = o
	t.cap = genCap(r)
	r.MaxSteps = 400000000
	if !filepath.IsAbs(t.main2) {
		t.main2 = filepath.Join(t.dir, t.main2)
	}
	return t
}

func (t *trip) abs(s string) string {
	if filepath.IsAbs(s) {
		return s
	}
	return filepath.Join(t.base, s)
}

// interruptions are what ends up to two attempts to write.
func (t *trip) interruptions(what string) []*fault {
	r := t.r
	var fs []*fault
	for k := r.Src.DrawW(3, 2, 1); k > 0; k-- {
		f := &fault{op: []string{"write", "create", "close", "mkdir"}[r.Src.DrawW(3, 2, 2, 1)], nth: r.Src.Draw(3), n: r.Src.Draw(200)}
		if r.Src.Draw(2) == 1 {
			f.crash = 1 + r.Src.Draw(2)
			r.Desc("%s: the process dies at %s number %d (a write gets %d bytes through)", what, f.op, f.nth, f.n)
		} else {
			f.err = diskErr(r)
			r.Desc("%s: %s number %d fails with %v after %d bytes", what, f.op, f.nth, f.err, f.n)
		}
		fs = append(fs, f)
	}
	return fs
}

// write calls BuildFiles until it succeeds; each fault ends one attempt.
func (t *trip) write(pl *crossplane.Payload, fs []*fault) (built bool, berr error) {
	r := t.r
	before, _ := r.FS.Snapshot()
	tries := 0
	for ; tries <= len(fs); tries++ {
		tag := 10 + tries
		armOps(r, tag, nil)
		if tries < len(fs) {
			armOps(r, tag, fs[tries:tries+1])
		}
		built = false
		sim.Join(sim.GoNamed("BuildFiles", tag, func() {
			berr = crossplane.BuildFiles(*pl, t.dir, t.bo)
			built = true
		}))
		if built && berr == nil {
			break
		}
	}
	r.FS.Hook, r.FS.OnOpen = nil, nil
	if !built || berr != nil || tries == 0 {
		return
	}
	// temporary files that an interrupted attempt left behind are tidied away
	after, _ := r.FS.Snapshot()
	for _, p := range after {
		mine := contains(before, p) || strings.HasSuffix(p, "/")
		for _, c := range pl.Config {
			if q, err := r.FS.EvalSymlinks(t.abs(c.File)); err == nil {
				mine = mine || r.FS.Abs(q) == p
			}
		}
		if !mine {
			r.FS.Del(p)
		}
	}
	return
}

// unspeakable tells whether a payload holds a value that the syntax cannot express.
func unspeakable(pl *crossplane.Payload) bool {
	for _, c := range pl.Config {
		if noSpelling(c.Parsed) {
			return true
		}
	}
	return false
}

// C19: what was written reads back as what was built.
func scenC19(r *R) {
	t := genTrip(r)
	o, bo := t.o, t.bo
	r.describeCall(t.w.main, o, t.cap)
	r.Desc("then BuildFiles into %q with %s, and the result is parsed again", t.dir, showBuildOpts(bo))
	c1 := newCall(r, t.w.main, o)
	c2 := newCall(r, t.main2, o)
	fs := t.interruptions("writing")
	pl := t.hand
	var berr error
	built := false
	r.Exec(func() {
		if t.hand == nil {
			c1.run()
			if sim.Killed() || c1.err != nil {
				return
			}
			if pl = t.parsed(c1.pl); sim.Killed() || pl == nil || pl.Status != "ok" {
				return
			}
		}
		if built, berr = t.write(pl, fs); !built || berr != nil {
			return
		}
		// the result is read in another way
		m := r.Src.Draw(6)
		r.FS.OnOpen = func(h *sim.Handle) { h.D.Mode = m }
		r.S.Log("read-back", "", 0, 0)
		c2.run()
	})
	if r.S.Outcome != sim.OutOK || pl == nil || c1.done && pl.Status != "ok" || unspeakable(pl) {
		return
	}
	r.Nontriv = true
	r.Evals++
	if !built || berr != nil {
		r.Fail("cannot-write", "after %d attempts with faults BuildFiles still does not succeed: returned %v, error %v", len(fs), built, berr)
		return
	}
	skip := 0
	if bo.Header {
		skip = 3
	}
	if d := firstDiff(tripDump(normal(pl), nil, t.abs, 0), tripDump(c2.pl, c2.err, r.FS.Abs, skip)); d != "" {
		r.Fail("read-back", "%s%s", d, t.show(pl))
	}
}

func (t *trip) show(pl *crossplane.Payload) string {
	var sb strings.Builder
	for _, c := range pl.Config {
		x, ok := t.r.FS.Get(t.r.FS.Abs(t.abs(c.File)))
		fmt.Fprintf(&sb, "\n--- %s (exists: %v)\n%s", t.abs(c.File), ok, clip(x, 800))
	}
	return sb.String()
}

// erodes tells whether a file ends in a comment with a backslash before its last white space, which is not written.
func erodes(pl *crossplane.Payload) bool {
	for _, c := range pl.Config {
		if n := len(c.Parsed); n > 0 && c.Parsed[n-1].IsComment() {
			if x := *c.Parsed[n-1].Comment; strings.HasSuffix(strings.TrimRightFunc(x, unicode.IsSpace), "\\") {
				return true
			}
		}
	}
	return false
}

// beforeComment is the white space in front of comments.
var beforeComment = regexp.MustCompile(`\s+#`)

// sameButComments compares texts without regard to whether a comment follows on the same line or on a new one.
func sameButComments(a, b string) bool {
	return beforeComment.ReplaceAllString(a, "#") == beforeComment.ReplaceAllString(b, "#")
}

// C22: rewriting files that were rewritten before changes nothing.
func scenC22(r *R) {
	t := genTrip(r)
	t.bo.Header = false
	o := t.o
	r.describeCall(t.w.main, o, t.cap)
	r.Desc("then BuildFiles into %q with %s; the result is parsed and written in place again", t.dir, showBuildOpts(t.bo))
	rounds := 1 + r.Src.DrawW(2, 3, 1)
	var fs [][]*fault
	for i := 0; i <= rounds; i++ {
		fs = append(fs, t.interruptions(fmt.Sprintf("writing, round %d", i)))
	}
	c1 := newCall(r, t.w.main, o)
	var calls []*pcall
	for i := 0; i < rounds; i++ {
		calls = append(calls, newCall(r, t.main2, o))
	}
	pl := t.hand
	r.Exec(func() {
		if t.hand == nil {
			c1.run()
			if sim.Killed() || c1.err != nil {
				return
			}
			if pl = t.parsed(c1.pl); sim.Killed() || pl == nil {
				return
			}
		}
		if pl.Status != "ok" || unspeakable(pl) || erodes(pl) {
			return
		}
		built, berr := t.write(pl, fs[0])
		for i, c := range calls {
			if sim.Killed() {
				return
			}
			r.Evals++
			if !built || berr != nil {
				r.Fail("cannot-write", "round %d: after %d attempts with faults BuildFiles still does not succeed: returned %v, error %v", i, len(fs[i]), built, berr)
				return
			}
			paths, data := r.FS.Snapshot()
			// the next process reads the files, in whatever pieces they arrive, and writes them again
			m := r.Src.Draw(6)
			r.FS.OnOpen = func(h *sim.Handle) { h.D.Mode = m }
			r.S.Log("next-round", "", i, 0)
			t.bo.Builders = tripBuilders(r, o.exts.lua, len(t.bo.Builders)) // it has extensions of its own
			c.run()
			if sim.Killed() {
				return
			}
			if c.err != nil || c.pl == nil || c.pl.Status != "ok" {
				r.Fail("unreadable", "round %d: what was written cannot be read: %s%s", i+1, clip(dumpReal(c.pl, c.err), 600), t.show(pl))
				return
			}
			for k := range c.pl.Config { // written where it was found
				c.pl.Config[k].File = r.FS.Abs(c.pl.Config[k].File)
			}
			r.Nontriv = true
			if built, berr = t.write(c.pl, fs[i+1]); !built || berr != nil {
				continue
			}
			paths2, data2 := r.FS.Snapshot()
			for k, p := range paths {
				if k >= len(paths2) || paths2[k] != p {
					r.Fail("files", "round %d: %s was there before the files were written again, and is not afterwards or something else is", i+1, p)
					return
				}
				if i == 0 && sameButComments(data[k], data2[k]) {
					continue // a comment behind what ends on another line than it began moves to a line of its own
				}
				if data[k] != data2[k] {
					r.Fail("churn", "round %d: writing it again changes %s: %s\n--- before\n%s\n--- after\n%s", i+1, p, firstDiff(data[k], data2[k]), clip(data[k], 1500), clip(data2[k], 1500))
					return
				}
			}
			if len(paths2) != len(paths) {
				r.Fail("files", "round %d: writing the files again makes %d files out of %d", i+1, len(paths2), len(paths))
				return
			}
		}
	})
}
