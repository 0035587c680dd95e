package main

import (
	"fmt"
	"strings"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
	sim "github.com/nginxinc/nginx-go-crossplane/internal/verifsim"
)

// The reference lexer: a batch, single-threaded executable model of the token grammar. It sees the whole input at
// once and knows nothing about readers, buffers, channels or goroutines.

// Tok is an expected token. Err is "" or the kind of error it carries: lex (from the lexer itself), ext (from an
// external lexer), read (from the source).
type Tok struct {
	Value  string
	Line   int
	Quoted bool
	Err    string
	ELine  int // line of the error, when it carries its own
	// End is the offset (in characters) after the last character needed to know this token is complete.
	End int
}

// scanner is what an external lexer works with: the real SubScanner or the model's.
type scanner interface {
	Scan() bool
	Text() string
	Line() int
}

type refScanner struct {
	rs   []string
	pos  int
	line int
	cur  string
	over bool // the end of the input has been met
}

// at is the number of characters needed so far; the end of the input counts as one more.
func (s *refScanner) at() int {
	if s.over {
		return s.pos + 1
	}
	return s.pos
}

func (s *refScanner) Scan() bool {
	if s.pos >= len(s.rs) {
		s.cur = ""
		s.over = true
		return false
	}
	s.cur = s.rs[s.pos]
	s.pos++
	if s.cur == "\n" {
		s.line++
	}
	return true
}
func (s *refScanner) Text() string { return s.cur }
func (s *refScanner) Line() int    { return s.line }

// extTok is a token produced by an external lexer.
type extTok struct {
	v    string
	line int
	q    bool
	err  string
	el   int
}

// extFn is the body of an external lexer.
type extFn func(sc scanner, matched string, emit func(extTok))

func runesOf(s string) []string {
	out := make([]string, 0, len(s))
	for _, r := range s {
		out = append(out, string(r))
	}
	return out
}

// maxNesting is the deepest nesting of blocks that is accepted.
const maxNesting = 10000

func blank(s string) bool { return len(strings.TrimSpace(s)) == 0 }

// refLex computes the expected token stream of data. With readErr the source fails after data instead of ending.
func refLex(data string, exts map[string]extFn, readErr bool) []Tok {
	sc := &refScanner{rs: runesOf(data), line: 1}
	var out []Tok
	var word strings.Builder
	wordLine := 1
	emit := func(v string, line int, q bool, err string) {
		t := Tok{Value: v, Line: line, Quoted: q, Err: err, End: sc.at()}
		if err != "" {
			t.ELine = sc.line
		}
		out = append(out, t)
	}
	const (
		space = iota
		inword
		comment
		variable
		quoted
	)
	st := space
	fresh := false
	special := false // previous token was a special character
	esc := false
	depth := 0
	quote := ""
	atStart := true // a directive may start here
	take := func(q bool, line int) {
		emit(word.String(), line, q, "")
		word.Reset()
		st = space
	}
	again := false
	la := ""
	for {
		if !again {
			if !sc.Scan() {
				break
			}
			la = sc.Text()
		}
		again = false
		if la == "\r" {
			continue // carriage returns are not significant anywhere
		}
		if la == "\\" && !esc {
			esc = true
			continue
		}
		if esc {
			esc = false
			la = "\\" + la
		}
		ends := blank(la) || la == "{" || la == "}" || la == ";"
		if st == quoted {
			ends = la == quote
		}
		if word.Len() > 0 && atStart && ends && st != comment && exts != nil {
			if f, ok := exts[word.String()]; ok {
				was, matched := st, word.String()
				take(st == quoted, wordLine)
				f(sc, matched, func(t extTok) {
					out = append(out, Tok{Value: t.v, Line: t.line, Quoted: t.q, Err: t.err, ELine: t.el, End: sc.at()})
				})
				if sc.over && readErr {
					break
				}
				if was == quoted && la == quote {
					continue
				}
			}
		}
		switch st {
		case space:
			if !blank(la) {
				st, fresh, again = inword, true, true
				wordLine = sc.line
			}
		case inword:
			if fresh {
				fresh = false
				if la == "#" {
					word.WriteString(la)
					st = comment
					wordLine = sc.line
					continue
				}
			}
			switch {
			case blank(la):
				take(false, wordLine)
				atStart = false
			case la == "{" && word.Len() > 0 && strings.HasSuffix(word.String(), "$"):
				atStart = false
				word.WriteString(la)
				st = variable
				special = false
			case la == `"` || la == "'":
				if word.Len() > 0 {
					word.WriteString(la)
				} else {
					quote = la
					st = quoted
					wordLine = sc.line
				}
				special = false
			case la == "{" || la == "}" || la == ";":
				if word.Len() > 0 {
					take(false, wordLine)
				}
				if special && la != "}" {
					emit("", wordLine, false, "lex")
					return out
				}
				special = true
				if la == "{" {
					depth++
					if depth > maxNesting {
						emit("", wordLine, false, "lex")
						return out
					}
				}
				if la == "}" {
					depth--
					if depth < 0 {
						emit("", wordLine, false, "lex")
						return out
					}
				}
				emit(la, wordLine, false, "")
				st = space
				atStart = true
			default:
				special = false
				word.WriteString(la)
			}
		case comment:
			if strings.HasSuffix(la, "\n") {
				take(false, wordLine)
				continue
			}
			word.WriteString(la)
		case variable:
			word.WriteString(la)
			if strings.HasSuffix(word.String(), "}") || blank(la) {
				st = inword
			}
		case quoted:
			if la == quote {
				take(true, wordLine)
				atStart = false
				continue
			}
			if la == "\\"+quote {
				la = quote
			}
			word.WriteString(la)
		}
	}
	if readErr {
		emit("", sc.line, false, "read")
		return out
	}
	if word.Len() > 0 {
		take(st == quoted, wordLine)
	}
	if depth > 0 {
		emit("", wordLine, false, "eof")
	}
	return out
}

// ---------------------------------------------------------------------------------------------------------------
// External lexers

var luaNames = []string{"init_by_lua_block", "init_worker_by_lua_block", "exit_worker_by_lua_block", "set_by_lua_block",
	"content_by_lua_block", "server_rewrite_by_lua_block", "rewrite_by_lua_block", "access_by_lua_block",
	"header_filter_by_lua_block", "body_filter_by_lua_block", "log_by_lua_block", "balancer_by_lua_block",
	"ssl_client_hello_by_lua_block", "ssl_certificate_by_lua_block", "ssl_session_fetch_by_lua_block", "ssl_session_store_by_lua_block"}

// luaModel is the reference for the Lua lexer.
func luaModel(sc scanner, matched string, emit func(extTok)) {
	if matched == "set_by_lua_block" {
		arg := ""
		for {
			if !sc.Scan() {
				return
			}
			c := sc.Text()
			if blank(c) {
				if arg != "" {
					emit(extTok{v: arg, line: sc.Line()})
					break
				}
				for blank(c) {
					if !sc.Scan() {
						return
					}
					c = sc.Text()
				}
			}
			arg += c
		}
	}
	for {
		if !sc.Scan() {
			return
		}
		c := sc.Text()
		if blank(c) {
			continue
		}
		if c != "{" {
			emit(extTok{err: "lua", el: sc.Line()})
			return
		}
		break
	}
	depth := 1
	var text luaState
	var b strings.Builder
	for sc.Scan() {
		c := sc.Text()
		if text.code(c) {
			switch c {
			case "{":
				depth++
			case "}":
				depth--
				if depth == 0 {
					emit(extTok{v: b.String(), line: sc.Line(), q: true})
					emit(extTok{v: ";", line: sc.Line()})
					return
				}
			}
		}
		b.WriteString(c)
	}
}

// luaState is what the text read so far leaves a Lua lexer in.
type luaState struct {
	in      string // "": code, "-": after a dash, "--", "[": after a bracket and level times "=", "line" or "long", "]", "str", "esc"
	comment bool   // the bracket is that of a comment
	quote   string
	level   int
	closing int
}

// code tells whether the next character is code, and not part of a string or comment.
func (l *luaState) code(c string) bool {
	switch l.in {
	case "str":
		if c == "\\" {
			l.in = "esc"
		} else if c == l.quote {
			l.in = ""
		}
		return false
	case "esc":
		l.in = "str"
		return false
	case "long":
		if c == "]" {
			l.in, l.closing = "]", 0
		}
		return false
	case "]":
		switch {
		case c == "=":
			l.closing++
		case c == "]" && l.closing == l.level:
			l.in = ""
		case c == "]":
			l.closing = 0
		default:
			l.in = "long"
		}
		return false
	case "[":
		switch {
		case c == "=":
			l.level++
			return !l.comment
		case c == "[":
			l.in = "long"
			return false
		case l.comment:
			l.in = "line"
		default:
			l.in = ""
		}
	case "--":
		l.in = "line"
		if c == "[" {
			l.in, l.comment, l.level = "[", true, 0
			return false
		}
	case "-":
		l.in = ""
		if c == "-" {
			l.in = "--"
			return false
		}
	}
	if l.in == "line" {
		if c == "\n" {
			l.in = ""
		}
		return false
	}
	switch c {
	case "-":
		l.in = "-"
	case "[":
		l.in, l.comment, l.level = "[", false, 0
	case `"`, "'":
		l.in, l.quote = "str", c
	}
	return true
}

// extKinds are the bodies of the harness's own external lexers.
var extKinds = []struct {
	name string
	fn   extFn
}{
	{"until-semicolon", func(sc scanner, m string, emit func(extTok)) {
		var b strings.Builder
		line := sc.Line()
		for sc.Scan() {
			if sc.Text() == ";" {
				emit(extTok{v: b.String(), line: line, q: true})
				emit(extTok{v: ";", line: sc.Line()})
				return
			}
			b.WriteString(sc.Text())
		}
	}},
	{"words-of-line", func(sc scanner, m string, emit func(extTok)) {
		var b strings.Builder
		for sc.Scan() {
			c := sc.Text()
			if blank(c) {
				if b.Len() > 0 {
					emit(extTok{v: b.String(), line: sc.Line()})
					b.Reset()
				}
				if c == "\n" {
					emit(extTok{v: ";", line: sc.Line()})
					return
				}
				continue
			}
			if strings.ContainsAny(c, "{};#'\"\\$") {
				c = "_"
			}
			b.WriteString(c)
		}
	}},
	{"nothing", func(sc scanner, m string, emit func(extTok)) {}},
	{"braces", func(sc scanner, m string, emit func(extTok)) {
		var b strings.Builder
		d := 0
		for sc.Scan() {
			c := sc.Text()
			switch c {
			case "{":
				d++
			case "}":
				d--
				if d <= 0 {
					b.WriteString(c)
					emit(extTok{v: b.String(), line: sc.Line(), q: true})
					emit(extTok{v: ";", line: sc.Line()})
					return
				}
			}
			b.WriteString(c)
		}
		emit(extTok{err: "extp", el: 7})
	}},
	{"fixed-count", func(sc scanner, m string, emit func(extTok)) {
		for i := 0; i < 5; i++ {
			if !sc.Scan() {
				return
			}
			emit(extTok{v: "c" + fmt.Sprint(int(sc.Text()[0])), line: sc.Line(), q: true})
		}
	}},
	{"error-then-more", func(sc scanner, m string, emit func(extTok)) {
		if sc.Scan() {
			emit(extTok{v: "before", line: sc.Line()})
		}
		emit(extTok{err: "ext"})
		if sc.Scan() {
			emit(extTok{v: "after", line: sc.Line()})
		}
	}},
	{"to-the-end", func(sc scanner, m string, emit func(extTok)) {
		n := 0
		for sc.Scan() {
			n++
		}
		emit(extTok{v: fmt.Sprint(n), line: sc.Line(), q: true})
		emit(extTok{v: ";", line: sc.Line()})
	}},
	{"many-tokens", func(sc scanner, m string, emit func(extTok)) {
		for i := 0; i < 40; i++ {
			emit(extTok{v: fmt.Sprint("t", i), line: sc.Line(), q: i%3 == 0})
		}
		emit(extTok{v: ";", line: sc.Line()})
	}},
}

// extSpec is one registered external lexer of a run.
type extSpec struct {
	name  string // directive it is registered for
	kind  int
	style int // how its tokens are delivered
	slow  int // sleeps of up to that many ms between tokens
}

const numStyles = 5

// testErr is an error the harness injects.
type testErr struct{ s string }

func (e *testErr) Error() string { return e.s }

var (
	errExt  = &testErr{"external lexer says no"}
	errRead = &testErr{"input/output error"}
)

type extLexer struct {
	r    *R
	spec extSpec
	busy int // sub-scanner handed out and not yet given back
}

// Lex implements crossplane.Lexer.
func (l *extLexer) Lex(s *crossplane.SubScanner, matched string) <-chan crossplane.NgxToken {
	if matched != l.spec.name {
		l.r.Fail("ext-wrong-token", "external lexer registered for %q was called for %q", l.spec.name, matched)
	}
	body := extKinds[l.spec.kind].fn
	conv := func(t extTok) crossplane.NgxToken {
		n := crossplane.NgxToken{Value: t.v, Line: t.line, IsQuoted: t.q}
		switch t.err {
		case "":
		case "extp":
			n.Error = l.r.sharedErr
		default:
			n.Error = errExt
		}
		return n
	}
	nap := func() {
		if l.spec.slow > 0 {
			if v := l.r.Src.Env(l.spec.slow+1, nil); v > 0 {
				l.r.S.Count("ext-lexer-slow")
				sim.Sleep(msec(v))
			}
		}
	}
	switch l.spec.style {
	case 1: // everything lexed before Lex returns
		var toks []crossplane.NgxToken
		body(s, matched, func(t extTok) { toks = append(toks, conv(t)) })
		ch := make(chan crossplane.NgxToken, len(toks))
		for _, t := range toks {
			sim.SendTo(ch)(t)
		}
		sim.Close(ch)
		return ch
	case 2: // buffered channel
		ch := make(chan crossplane.NgxToken, 3)
		sim.Go(func() {
			defer sim.Close(ch)
			body(s, matched, func(t extTok) { nap(); sim.SendTo(ch)(conv(t)) })
		})
		return ch
	case 3: // one goroutine lexes, another one emits
		mid := make(chan crossplane.NgxToken)
		ch := make(chan crossplane.NgxToken)
		sim.Go(func() {
			defer sim.Close(mid)
			body(s, matched, func(t extTok) { sim.SendTo(mid)(conv(t)) })
		})
		sim.Go(func() {
			defer sim.Close(ch)
			for {
				t, ok := sim.Recv2(mid)
				if !ok {
					return
				}
				nap()
				sim.SendTo(ch)(t)
			}
		})
		return ch
	case 4: // lexes everything first, then emits
		ch := make(chan crossplane.NgxToken)
		sim.Go(func() {
			defer sim.Close(ch)
			var toks []crossplane.NgxToken
			body(s, matched, func(t extTok) { toks = append(toks, conv(t)) })
			for _, t := range toks {
				nap()
				sim.SendTo(ch)(t)
			}
		})
		return ch
	}
	ch := make(chan crossplane.NgxToken)
	sim.Go(func() {
		defer sim.Close(ch)
		body(s, matched, func(t extTok) { nap(); sim.SendTo(ch)(conv(t)) })
	})
	return ch
}

// extSet is the set of external lexers of a run.
type extSet struct {
	lua   bool
	specs []extSpec
}

func (e *extSet) models() map[string]extFn {
	m := map[string]extFn{}
	if e.lua {
		for _, n := range luaNames {
			m[n] = luaModel
		}
	}
	for _, s := range e.specs {
		m[s.name] = extKinds[s.kind].fn
	}
	if len(m) == 0 {
		return nil
	}
	return m
}

func (e *extSet) lexOptions(r *R) crossplane.LexOptions {
	var o crossplane.LexOptions
	if e.lua {
		l := &crossplane.Lua{}
		o.Lexers = append(o.Lexers, l.RegisterLexer())
	}
	for _, s := range e.specs {
		o.Lexers = append(o.Lexers, crossplane.LexWithLexer(&extLexer{r: r, spec: s}, s.name))
	}
	return o
}

func (e *extSet) String() string {
	var p []string
	if e.lua {
		p = append(p, "Lua")
	}
	for _, s := range e.specs {
		p = append(p, fmt.Sprintf("%s(%s, delivery style %d)", s.name, extKinds[s.kind].name, s.style))
	}
	return strings.Join(p, ", ")
}
