package main

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"unicode/utf8"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
	sim "github.com/nginxinc/nginx-go-crossplane/internal/verifsim"
)

func startLex(r *R, rd io.Reader, ex *extSet) chan crossplane.NgxToken {
	if !ex.lua && len(ex.specs) == 0 {
		return crossplane.Lex(rd)
	}
	return crossplane.LexWithOptions(rd, ex.lexOptions(r))
}

func readErrs(r *R) error {
	if r.Src.Draw(3) == 1 {
		return fmt.Errorf("wrapped: %w", errRead)
	}
	return readError(r, "source")
}

// C01: the token stream equals that of a batch reference lexer for every delivery, schedule and capacity.
func scenC01(r *R) {
	ex := genExts(r)
	text := genLexText(r, ex, true)
	d := genDelivery(r, len(text) > 3000)
	cap := genCap(r)
	cons := genConsumer(r)
	lexScenario(r, ex, text, d, cap, cons, nil)
}

func lexScenario(r *R, ex *extSet, text string, d sim.Delivery, cap int, cons consumer, stop error) {
	r.Bytes = len(text)
	failAt := d.FailAt
	seen := text
	if failAt >= 0 {
		seen = text[:failAt]
	}
	want := refLex(seen, ex.models(), failAt >= 0)
	r.Nontriv = len(want) > 1
	r.Desc("source (%d bytes): %s", len(text), show(text, 4000))
	r.Desc("delivery mode %d, latency up to %d ms, last bytes together with EOF/error: %v, read error at offset %d", d.Mode, d.Latency, d.WithData, d.FailAt)
	r.Desc("external lexers: %s; channel capacity %d; consumer %s", ex, cap, cons)
	m := &memReader{r: r, name: "source", data: []byte(text), d: d}
	var got []crossplane.NgxToken
	r.Exec(func() {
		ch := startLex(r, m, ex)
		got = cons.drain(r, ch)
		if _, ok := sim.Recv2(ch); ok {
			r.Fail("after-close", "a token was received after the channel was closed")
		}
	})
	if r.S.Outcome != sim.OutOK {
		return
	}
	r.Evals += len(want) + 1
	if diff := diffToks(r, want, got, stop); diff != "" {
		r.Fail("tokens", "%s\nsource: %s", diff, show(text, 600))
	}
	if len(r.FS.Misuse) > 0 {
		r.Fail("overlapping-reads", "%s", strings.Join(r.FS.Misuse, "; "))
	}
	if l := r.S.Leaked(); len(l) > 0 {
		r.Fail("leak", "the lexer left %d goroutine(s) behind", len(l))
	}
}

// C02 at the level of the lexer: a source that fails part-way.
func scenC02Lex(r *R) {
	ex := genExts(r)
	text := genLexText(r, ex, r.Src.Draw(3) == 2)
	d := genDelivery(r, len(text) > 3000)
	d.FailAt = cutAt(r, text)
	d.Err = readErrs(r)
	r.S.Count("planned-read-error")
	cap := genCap(r)
	cons := genConsumer(r)
	// the last token must be the error of the source, unless the stream ended with an error before
	lexScenario(r, ex, text, d, cap, cons, d.Err)
	for _, s := range ex.specs {
		if extKinds[s.kind].name == "to-the-end" {
			return // this one turns the end of its input into a token
		}
	}
	if r.Viol == nil && r.S.Outcome == sim.OutOK {
		r.Evals++
		full := refLex(text, ex.models(), false)
		part := refLex(text[:d.FailAt], ex.models(), true)
		for i, t := range part {
			if t.Err != "" {
				break
			}
			if i >= len(full) || (full[i].Value != t.Value && utf8.ValidString(text) && utf8.ValidString(text[:d.FailAt])) {
				// the model itself would contradict the property
				r.Unsound = fmt.Sprintf("reference lexer: token %d of the failing source is not a prefix of the intact stream: %+v in %q (cut at %d: %q)", i, t, clip(fmt.Sprint(full), 300), d.FailAt, clip(text[:d.FailAt], 300))
			}
		}
	}
}

// C12: external lexers.
func scenC12(r *R) {
	if r.Src.Draw(3) == 2 {
		scenC12Parse(r)
		return
	}
	ex := &extSet{}
	switch r.Src.Draw(3) {
	case 0:
		ex.lua = true
	case 1:
		genSpecs(r, ex)
	case 2:
		ex.lua = true
		genSpecs(r, ex)
	}
	text := ""
	if r.Src.Draw(3) != 2 {
		g := &gen{r: r, budget: 4 + r.Src.Draw(16), comments: 8, fancy: true, exts: ex, extRate: 2, unknown: 10, maxDepth: 4, invalid: 6}
		g.block("main", 0)
		text = g.sb.String()
		if r.Src.Draw(4) == 3 {
			text = mutate(r, text, 1+r.Src.Draw(3))
		}
	} else {
		text = genLexText(r, ex, true)
	}
	d := genDelivery(r, len(text) > 3000)
	var inj error
	if r.Src.Draw(4) == 3 {
		d.FailAt = cutAt(r, text)
		d.Err = readErrs(r)
		inj = d.Err
	}
	cap := genCap(r)
	lexScenario(r, ex, text, d, cap, genConsumer(r), inj)
}

// luaUnits are balanced pieces of Lua text: whatever is built from them ends at the brace that follows.
var luaUnits = []string{" ", "\n", "ngx.say(1)", "{ }", "{ a = { 1, 2 } }", "\"}\"", "'{'", "\"it's }\"", "'say \"{\" '", "-- note\n", "\r\n", "é世界", "local x = 1;", "#t", "\\n", "$var", "if a then b() end", "\t", "{\n}", "''", "\u2028",
	"-- don't }\n", "\"a \\\" } b\"", "'\\\\'", "[[ } ' ]]", "[==[ ]] } ]=] \" ]==]", "--[[ don't {\n } ]]", "--[=[ ]] } ]=]", "--[ = [[ '\n", "--[==\n", "a[b[1]]", "t['}']", "x - - y", "5-3 ", "[[]]", "--\n", "---'\n", "a[ [[}]] ]", "'\\'}'", "[=[]]=]==]=]"}

// scenC12Parse checks with Parse that Lua text reaches the payload byte for byte and that errors of external lexers
// reach the result. The expectation is built together with the text and does not use the model of the Lua lexer.
func scenC12Parse(r *R) {
	type exp struct {
		name string
		args []string
		line int
	}
	var sb strings.Builder
	var want []exp
	line := 1
	put := func(s string) {
		sb.WriteString(s)
		line += strings.Count(s, "\n")
	}
	n := 1 + r.Src.Draw(6)
	reported := 0 // statements whose external lexer reports an error
	inHTTP := r.Src.Draw(2) == 1
	if inHTTP {
		put("http {\n")
	}
	for i := 0; i < n; i++ {
		switch k := r.Src.DrawW(6, 2, 1); {
		case k == 0:
			name := pick(r, luaNames)
			e := exp{name: name, line: line}
			put(name)
			put(pick(r, []string{" ", "\n", "  ", "\t\n"}))
			if name == "set_by_lua_block" {
				a := pick(r, []string{"$x", "$res", "$é", "$x{", "{}"})
				put(a + pick(r, []string{" ", "\n", " \n "}))
				e.args = append(e.args, a)
			}
			body := ""
			for j := r.Src.Draw(6); j > 0; j-- {
				body += luaUnits[r.Src.Draw(len(luaUnits))]
			}
			if r.Src.Draw(20) == 19 {
				body += strings.Repeat(pick(r, []string{"x", "é", "世", "\n"}), 4090+r.Src.Draw(12))
			}
			put("{" + body + "}")
			e.args = append(e.args, body)
			want = append(want, e)
			put(pick(r, []string{"\n", " ", "", "\n\n"}))
		case k == 1:
			e := exp{name: "plain", args: []string{"a" + fmt.Sprint(i)}, line: line}
			put("plain a" + fmt.Sprint(i) + ";" + pick(r, []string{"\n", " "}))
			want = append(want, e)
		default:
			if i == n-1 {
				name := "content_by_lua_block"
				put(name + pick(r, []string{" oops {};", " ;", " \n x"}))
				reported++
			}
		}
	}
	if inHTTP {
		put("\n}\n")
	}
	text := sb.String()
	r.Bytes = len(text)
	stop := r.Src.Draw(4) == 3
	f := &fileFault{failAt: -1, eofAt: -1}
	d := genDelivery(r, len(text) > 3000)
	f.mode, f.latency, f.withData = d.Mode, d.Latency, d.WithData
	w := &wgen{world: &world{cwd: "/w", files: map[string]string{"/w/n.conf": text}, dirs: map[string]bool{}, fault: map[string]*fileFault{"/w/n.conf": f}}}
	w.install(r)
	cap := genCap(r)
	o := popts{exts: &extSet{lua: true}, stop: stop, sources: []int{0, 3, 1}, skipCtx: true}
	c := newCall(r, "n.conf", o)
	r.describeCall("n.conf", o, cap)
	r.Nontriv = len(want) > 0
	r.Exec(c.run)
	if r.S.Outcome != sim.OutOK {
		return
	}
	r.Evals += len(want) + 1
	if reported > 0 {
		if stop {
			if c.err == nil {
				r.Fail("lost-error", "the Lua lexer reported an error, Parse returned none")
			}
			return
		}
		if c.err != nil {
			return
		}
		if c.pl.Status != "failed" || len(c.pl.Errors) == 0 {
			r.Fail("lost-error", "the Lua lexer reported an error, the payload has status %q and %d errors", c.pl.Status, len(c.pl.Errors))
		}
		return
	}
	if c.err != nil || c.pl == nil || len(c.pl.Config) != 1 || len(c.pl.Errors) > 0 {
		r.Fail("result", "expected a clean parse, got error %v, payload %s", c.err, dumpReal(c.pl, c.err))
		return
	}
	got := c.pl.Config[0].Parsed
	if inHTTP {
		if len(got) != 1 || got[0].Directive != "http" {
			r.Fail("result", "the http block is missing: %s", dumpReal(c.pl, nil))
			return
		}
		got = got[0].Block
	}
	for i, e := range want {
		if i >= len(got) {
			r.Fail("lost-statement", "statement %d (%s) is missing", i, e.name)
			return
		}
		g := got[i]
		if g.Directive != e.name || fmt.Sprintf("%q", g.Args) != fmt.Sprintf("%q", e.args) {
			r.Fail("lua-text", "statement %d: expected %s %q, got %s %q", i, e.name, clip(fmt.Sprint(e.args), 300), g.Directive, clip(fmt.Sprint(g.Args), 300))
			return
		}
		if g.Line != e.line {
			r.Fail("line", "statement %d (%s): expected line %d, got %d", i, e.name, e.line, g.Line)
			return
		}
	}
	if len(got) != len(want) {
		r.Fail("extra-statement", "expected %d statements, got %d", len(want), len(got))
	}
}

// ---------------------------------------------------------------------------------------------------------------

// runesIn counts the characters a lexer can know from the first n bytes.
func runesIn(s string, n int) int {
	k := 0
	for i := 0; i < n; {
		if !utf8.FullRuneInString(s[i:n]) {
			break
		}
		_, sz := utf8.DecodeRuneInString(s[i:n])
		i += sz
		k++
	}
	return k
}

// upTo counts the tokens complete after the first chars characters.
func upTo(toks []Tok, chars int) int {
	n := 0
	for _, t := range toks {
		if t.End > chars {
			break
		}
		n++
	}
	return n
}

// C17: tokens are not withheld while the source stalls, and read-ahead is bounded while the consumer stalls.
func scenC17(r *R) {
	ex := &extSet{}
	switch r.Src.DrawW(3, 1, 1) {
	case 1:
		ex.lua = true
	case 2:
		genSpecs(r, ex)
		for i := range ex.specs {
			ex.specs[i].style, ex.specs[i].slow = 0, 0
		}
	}
	back := r.Src.Draw(2) == 1
	text := genLexText(r, ex, true)
	if back && len(text) < 9000 {
		u := pick(r, []string{"a b c;\n", "x { y z; }\n", "é 世界 \"q r\" ;\r\n", "# comment line\nk v;\n"})
		text += strings.Repeat(u, 200+r.Src.Draw(1200))
	}
	d := genDelivery(r, len(text) > 3000)
	d.WithData = false
	cap := genCap(r)
	full := refLex(text, ex.models(), false)
	r.Bytes = len(text)
	r.Desc("source (%d bytes): %s", len(text), show(text, 3000))
	r.Desc("external lexers: %s; channel capacity %d; delivery mode %d", ex, cap, d.Mode)
	m := &memReader{r: r, name: "source", data: []byte(text), d: d}
	var got []crossplane.NgxToken
	checks := 0
	var gate sim.WaitQ
	stalled := false
	var stops []int
	if back {
		// the consumer stalls after having received some tokens
		k := 1 + r.Src.Draw(3)
		at := 0
		for i := 0; i < k; i++ {
			at += r.Src.Draw(1 + len(full)/(k+1))
			stops = append(stops, at)
		}
		r.Desc("the consumer stalls after %v tokens", stops)
	} else {
		k := 1 + r.Src.Draw(4)
		at := 0
		for i := 0; i < k; i++ {
			at += r.Src.Draw(1 + len(text)*2/(k+1))
			if at > len(text) {
				break
			}
			m.d.StallAt = append(m.d.StallAt, at)
		}
		r.Desc("the source stalls at offsets %v", m.d.StallAt)
	}
	maxRead := 0
	lastPos := 0
	holds := cap
	mr := &observed{m, func() {
		if n := m.d.Pos() - lastPos; n > maxRead {
			maxRead = n
		}
		lastPos = m.d.Pos()
	}}
	r.S.OnQuiesce = func() bool {
		if m.d.Stalled() && !back {
			checks++
			r.Evals++
			chars := runesIn(text, m.d.Pos())
			want := upTo(full, chars)
			if len(got) < want {
				r.Fail("withheld", "the source stalls after %d bytes; %d tokens are complete, but only %d could be received: token %d is withheld: %+v", m.d.Pos(), want, len(got), len(got), full[len(got)])
			}
			m.d.Release()
			return true
		}
		if stalled {
			checks++
			r.Evals++
			pos := m.d.Pos() - 2*maxRead - 16
			if pos > 0 {
				ahead := upTo(full, runesIn(text, pos)) - len(got)
				if ahead > holds+64 {
					r.Fail("read-ahead", "the consumer stalls after %d tokens, the channel holds up to %d, but the lexer has read %d bytes (at most %d per read): it is %d tokens ahead", len(got), holds, m.d.Pos(), maxRead, ahead)
				}
			}
			stalled = false
			r.S.Count("consumer-stall")
			gate.WakeAll()
			return true
		}
		return false
	}
	r.Exec(func() {
		ch := startLex(r, mr, ex)
		if n := sim.Cap(ch); n > holds {
			holds = n
		}
		for {
			for len(stops) > 0 && stops[0] == len(got) {
				stops = stops[1:]
				stalled = true
				for stalled {
					gate.Wait("stalled consumer")
					if sim.Killed() {
						return
					}
				}
			}
			t, ok := sim.Recv2(ch)
			if !ok {
				return
			}
			got = append(got, t)
		}
	})
	r.Nontriv = checks > 0 && len(full) > 1
	if r.S.Outcome != sim.OutOK || r.Viol != nil {
		return
	}
	if diff := diffToks(r, full, got, nil); diff != "" {
		r.Fail("tokens", "after the stall: %s", diff)
	}
}

// observed calls after every read.
type observed struct {
	io.Reader
	after func()
}

func (o *observed) Read(p []byte) (int, error) {
	n, err := o.Reader.Read(p)
	o.after()
	return n, err
}

var _ = errors.Is
