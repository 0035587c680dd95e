package main

import (
	"fmt"
	"strings"
	"time"
)

func msec(n int) time.Duration { return time.Duration(n) * time.Millisecond }

// gen generates configuration text. Every decision is a workload draw, 0 being the simplest answer.
type gen struct {
	r        *R
	sb       strings.Builder
	budget   int // statements left
	invalid  int // one in that many statements is invalid (0: none)
	comments int // one in that many statements is a comment (0: none)
	fancy    bool
	include  func(ctx string) string // argument for an include statement, "" for none
	incRate  int
	exts     *extSet
	extRate  int
	unknown  int // one in that many statements is an unknown directive
	maxDepth int
}

func (g *gen) d(n int) int { return g.r.Src.Draw(n) }
func (g *gen) one(n int) bool {
	if n <= 0 {
		return false
	}
	return g.r.Src.Chance(1, n)
}
func (g *gen) w(s string) { g.sb.WriteString(s) }

func pick(r *R, l []string) string { return l[r.Src.Draw(len(l))] }

var spaces = []string{" ", "  ", "\t", "\n", "\r\n", "\r\n  ", " \n\n ", "\u00a0", "\u2003", " \r", "\v", "\f", "\u0085"}

func (g *gen) sp() {
	if !g.fancy {
		g.w(" ")
		return
	}
	i := g.r.Src.DrawW(60, 8, 6, 8, 6, 4, 4, 1, 1, 1, 1, 1, 1)
	g.w(spaces[i])
}

// osp is optional space.
func (g *gen) osp() {
	if g.fancy && g.r.Src.Chance(1, 5) {
		g.sp()
	}
}

func (g *gen) nl() {
	if !g.fancy {
		g.w("\n")
		return
	}
	g.w([]string{"\n", " ", "", "\r\n", "\n\n", "\n    ", "\r\n\t", ";\n"}[g.r.Src.DrawW(50, 8, 6, 10, 5, 8, 4, 0)])
}

var wordPool = []string{"a", "on", "off", "80", "/", "x.y", "/var/log/n.log", "$host", "${host}", "a${b}c", "$a$b", "1.2.3.4:80",
	"a=b", "~*", "^/(.*)$", "\\.php$", "a#b", "*", "=", "-1", "max=10", "a'b", "é", "世界", "\U0001f600x", "(", ")", "(x)", "a\\;b", "a\\{b", "q\\\"r", "$", "$$", "100%", "@name", "\ufffd", "text/html", "[::]:443", "a,b", "!x", "http://b:8080/p?q=1&r=2", "log_by_lua_block", "log_by_lua_blocks"}

var quotedPool = []string{"", " ", "x", "a b", "a;b", "{ }", "}", "#no", "line\nbreak", "it\\'s", "say \\\"hi\\\"", "\\\\", "\\n\\t", "$v ${w}", "é 世", "a\r\nb", "include x;", "'", "\"", "{", ";", "tab\there", "log_by_lua_block", "log_by_lua_block x", "a\nb", "set_by_lua_block{"}

func (g *gen) word() string {
	if !g.fancy {
		return pick(g.r, wordPool[:12])
	}
	switch g.r.Src.DrawW(70, 20, 2, 1) {
	case 1:
		q := []string{`"`, "'"}[g.d(2)]
		t := pick(g.r, quotedPool)
		// only escaped occurrences of the quote itself may appear inside
		if t == q {
			t = "\\" + q
		}
		if q == "'" {
			t = strings.ReplaceAll(t, `\"`, `"`)
		} else {
			t = strings.ReplaceAll(t, `\'`, `'`)
		}
		return q + t + q
	case 2:
		return strings.Repeat(pick(g.r, []string{"w", "é", "\\x", "世"}), []int{30, 200, 2047, 4096, 4200}[g.d(5)])
	case 3:
		n := 1 + g.d(8)
		s := ""
		for i := 0; i < n; i++ {
			s += pick(g.r, []string{"a", "$", "_", "é", "#", "\\", "\"", "'", "*", "(", "0", "~"})
		}
		if strings.HasPrefix(s, "#") || strings.HasPrefix(s, "\"") || strings.HasPrefix(s, "'") || strings.HasSuffix(s, "\\") || strings.HasSuffix(s, "$") {
			s = "z" + s + "z"
		}
		return s
	}
	return pick(g.r, wordPool)
}

func (g *gen) comment() {
	t := ""
	n := g.d(4)
	for i := 0; i < n; i++ {
		t += pick(g.r, []string{" c", "# x", "{", "}", ";", " include a.conf;", "é", "\"", "'", "\\", "\t", "世界", "*/", " it's"})
	}
	e := "\n"
	if g.fancy && g.d(4) == 3 {
		e = "\r\n"
	}
	g.w("#" + t + e)
}

// tmpl is a directive that is valid in a context. args: "W" any word, "O" on|off, "N" number, otherwise literal.
type tmpl struct {
	name  string
	args  string
	block string // context of its block, "" if it has none
}

var vocab = map[string][]tmpl{
	"main": {
		{"user", "nobody", ""}, {"worker_processes", "N", ""}, {"daemon", "O", ""}, {"error_log", "logs/e.log debug", ""}, {"pid", "run.pid", ""},
		{"env", "W", ""}, {"load_module", "W", ""}, {"worker_rlimit_nofile", "N", ""}, {"master_process", "O", ""},
		{"events", "", "events"}, {"http", "", "http"}, {"stream", "", "stream"}, {"mail", "", "mail"}, {"mgmt", "", "other"},
	},
	"events": {{"worker_connections", "N", ""}, {"multi_accept", "O", ""}, {"use", "epoll", ""}, {"accept_mutex", "O", ""}, {"debug_connection", "W", ""}},
	"http": {
		{"server", "", "server"}, {"upstream", "backend", "upstream"}, {"sendfile", "O", ""}, {"gzip", "O", ""}, {"default_type", "W", ""},
		{"log_format", "main W W", ""}, {"keepalive_timeout", "N N", ""}, {"proxy_set_header", "W W", ""}, {"root", "W", ""}, {"access_log", "W", ""},
		{"map", "$a $b", "map"}, {"geo", "$g", "geo"}, {"types", "", "types"}, {"charset_map", "a b", "charset_map"}, {"split_clients", "W $v", "split_clients"},
		{"limit_req_zone", "W zone=a:1m rate=1r/s", ""}, {"error_page", "404 W", ""}, {"client_max_body_size", "N", ""}, {"server_tokens", "O", ""}, {"match", "m", "match"},
		{"js_import", "W", ""}, {"add_header", "W W", ""},
	},
	"server": {
		{"listen", "80", ""}, {"server_name", "W W", ""}, {"location", "W", "location"}, {"location", "~ W", "location"}, {"location", "= W", "location"},
		{"if", "( W )", "sif"}, {"if", "(W)", "sif"}, {"if", "($a = W)", "sif"}, {"return", "N W", ""}, {"root", "W", ""}, {"error_page", "500 502 W", ""},
		{"ssl_certificate", "W", ""}, {"rewrite", "W W last", ""}, {"set", "$x W", ""}, {"access_log", "off", ""}, {"gzip", "O", ""}, {"try_files", "W W", ""}, {"index", "W W W", ""},
	},
	"location": {
		{"proxy_pass", "W", ""}, {"root", "W", ""}, {"index", "W W", ""}, {"alias", "W", ""}, {"try_files", "W =404", ""}, {"deny", "all", ""}, {"allow", "W", ""},
		{"if", "($a)", "lif"}, {"if", "( $b ~ W )", "lif"}, {"limit_except", "GET POST", "limit_except"}, {"location", "W", "location"}, {"return", "N", ""},
		{"proxy_set_header", "W W", ""}, {"set", "$y W", ""}, {"internal", "", ""}, {"types", "", "types"}, {"expires", "N", ""}, {"js_content", "W", ""}, {"fastcgi_param", "W W", ""},
	},
	"sif":          {{"return", "N", ""}, {"set", "$z W", ""}, {"rewrite", "W W", ""}, {"break", "", ""}},
	"lif":          {{"return", "N", ""}, {"set", "$z W", ""}, {"proxy_pass", "W", ""}, {"root", "W", ""}, {"break", "", ""}},
	"limit_except": {{"deny", "all", ""}, {"allow", "W", ""}, {"auth_basic", "W", ""}},
	"upstream":     {{"server", "W", ""}, {"server", "W weight=N", ""}, {"keepalive", "N", ""}, {"ip_hash", "", ""}, {"least_conn", "", ""}, {"zone", "z 64k", ""}},
	"stream":       {{"server", "", "sserver"}, {"upstream", "b", "upstream"}, {"map", "$a $b", "map"}, {"proxy_timeout", "N", ""}, {"log_format", "W W", ""}},
	"sserver":      {{"listen", "N", ""}, {"proxy_pass", "W", ""}, {"ssl_preread", "O", ""}, {"proxy_timeout", "N", ""}},
	"mail":         {{"server", "", "mserver"}, {"auth_http", "W", ""}, {"proxy_pass_error_message", "O", ""}},
	"mserver":      {{"listen", "N", ""}, {"protocol", "imap", ""}, {"starttls", "O", ""}},
	"other":        {{"foo", "W", ""}, {"bar", "W W", "other"}, {"baz", "", ""}, {"if", "(W)", "other"}, {"location", "W", "other"}, {"geoip2", "W", "geoip2"}, {"otel_exporter", "", "otel_exporter"}},
}

var mapCtx = map[string]bool{"map": true, "geo": true, "types": true, "charset_map": true, "split_clients": true, "match": true, "geoip2": true, "otel_exporter": true}

var invalids = []tmpl{
	{"worker_connections", "N N", ""}, {"gzip", "maybe", ""}, {"listen", "", ""}, {"server", "x", ""}, {"location", "", "location"}, {"http", "", ""}, {"http", "x", "http"},
	{"user", "", ""}, {"sendfile", "W W", ""}, {"if", "$a", "sif"}, {"if", "()", "sif"}, {"if", "( )", "sif"}, {"events", "", "events"}, {"proxy_pass", "W", ""}, {"daemon", "O", ""}, {"return", "", ""},
	{"upstream", "", "upstream"}, {"nosuchdirective", "W", ""}, {"nosuchblock", "W", "other"}, {"map", "W", "map"}, {"include", "", ""}, {"server_name", "W", "server"}, {"root", "W", ""}, {"keepalive", "N", ""},
}

func (g *gen) args(spec string) {
	if spec == "" {
		return
	}
	for _, a := range strings.Fields(spec) {
		g.sp()
		g.arg(a)
		if g.comments > 0 && g.fancy && g.one(g.comments*8) {
			g.sp()
			g.comment()
		}
	}
}

func (g *gen) arg(a string) {
	switch a {
	case "W":
		g.w(g.word())
	case "O":
		g.w([]string{"on", "off", "ON", "Off"}[g.r.Src.DrawW(5, 5, 1, 1)])
	case "N":
		g.w([]string{"1", "80", "404", "1024", "65535"}[g.d(5)])
	default:
		if i := strings.Index(a, "W"); i >= 0 {
			w := g.word()
			if strings.ContainsAny(w, "\"' \n") || strings.HasPrefix(w, "#") {
				w = "w"
			}
			a = strings.Replace(a, "W", w, 1)
		}
		if i := strings.Index(a, "N"); i > 0 {
			a = strings.Replace(a, "N", "5", 1)
		}
		g.w(a)
	}
}

// block writes the statements of a block (or of a whole file) in context ctx.
func (g *gen) block(ctx string, depth int) {
	n := 0
	switch g.r.Src.DrawW(2, 5, 3, 1) {
	case 1:
		n = 1 + g.d(3)
	case 2:
		n = 2 + g.d(6)
	case 3:
		n = 5 + g.d(15)
	}
	if depth == 0 {
		n += 2
	}
	for i := 0; i < n && g.budget > 0; i++ {
		g.stmt(ctx, depth)
	}
}

func (g *gen) open(depth int) {
	g.osp()
	if !g.fancy {
		g.w(" ")
	}
	g.w("{")
	g.nl()
}

func (g *gen) shut() {
	g.osp()
	g.w("}")
	g.nl()
}

func (g *gen) end() {
	g.osp()
	g.w(";")
	g.nl()
}

func (g *gen) stmt(ctx string, depth int) {
	g.budget--
	if g.one(g.comments) {
		g.comment()
		return
	}
	if mapCtx[ctx] {
		g.mapStmt(ctx)
		return
	}
	if g.include != nil && g.one(g.incRate) {
		if a := g.include(ctx); a != "" {
			g.w("include")
			g.sp()
			if g.fancy && g.d(4) == 3 || strings.Contains(a, " ") {
				a = `"` + a + `"`
			}
			g.w(a)
			g.end()
			return
		}
	}
	if g.exts != nil && g.one(g.extRate) {
		g.ext(ctx)
		return
	}
	if g.one(g.unknown) {
		g.w(pick(g.r, []string{"foo", "my_directive", "x", "éclair", "server-x", "$v", "${v}", "${a_name}x", "\"quoted dir\"", "''"}))
		k := g.d(3)
		for i := 0; i < k; i++ {
			g.args("W")
		}
		if depth < g.maxDepth && g.d(3) == 2 {
			g.open(depth)
			g.block("other", depth+1)
			g.shut()
			return
		}
		g.end()
		return
	}
	if g.one(g.invalid) {
		g.bad(ctx, depth)
		return
	}
	v := vocab[ctx]
	if v == nil {
		v = vocab["other"]
	}
	t := v[g.d(len(v))]
	if t.block != "" && depth >= g.maxDepth {
		t = v[0]
		if t.block != "" {
			t = tmpl{"error_log", "W", ""}
		}
	}
	g.emit(t, depth)
}

func (g *gen) emit(t tmpl, depth int) {
	g.w(t.name)
	g.args(t.args)
	if t.block != "" {
		g.open(depth)
		g.block(t.block, depth+1)
		g.shut()
		return
	}
	g.end()
}

func (g *gen) mapStmt(ctx string) {
	k := 1
	switch {
	case ctx == "types" || ctx == "match":
		k = 1 + g.d(3)
	case g.d(8) == 7:
		g.w([]string{"hostnames", "volatile", "ranges", "proxy_recursive", "auto_reload", "default"}[g.d(6)])
		switch {
		case ctx == "geoip2" && g.d(4) > 0, g.one(g.invalid):
			g.args([]string{"W", "O", "W W"}[g.d(3)])
		}
		g.end()
		return
	}
	if g.one(g.invalid) {
		switch g.d(5) {
		case 0:
			k = 0
		case 1:
			k = 3
		case 2:
			g.w("k {")
			g.nl()
			g.w("a b;")
			g.nl()
			g.w("}")
			g.nl()
			return
		case 3: // unterminated: ends the block
			g.w("last one ")
			return
		case 4:
			g.w(pick(g.r, []string{"include x;", "include nosuch.conf;", "listen 80;"}))
			g.nl()
			return
		}
	}
	w := g.word()
	if w == "" || strings.HasPrefix(w, "#") {
		w = "k"
	}
	g.w(w)
	for i := 0; i < k; i++ {
		g.args("W")
	}
	g.end()
}

func (g *gen) bad(ctx string, depth int) {
	switch g.r.Src.DrawW(12, 2, 2, 1, 2) {
	case 4: // an include that cannot be valid
		a := "x.conf"
		if g.include != nil {
			if i := g.include(ctx); i != "" && !strings.Contains(i, " ") {
				a = i
			}
		}
		g.w("include " + a)
		switch g.d(3) {
		case 0:
			g.args("W")
			g.end()
		case 1:
			g.open(depth)
			g.w("x y;")
			g.shut()
		case 2: // unterminated
			g.w(" ")
			if depth == 0 {
				g.w("a.conf;")
			}
		}
		return
	case 1: // unterminated last statement of the block
		g.w(pick(g.r, []string{"gzip on ", "listen 80 ", "foo bar ", "root ", "include x ", "ignored_d a "}))
		if depth == 0 {
			g.w(";")
		}
		return
	case 2: // a simple directive with a block
		g.w(pick(g.r, []string{"gzip on", "listen 80", "user nobody", "include x.conf", "worker_processes 1", "return 200"}))
		if depth < g.maxDepth {
			g.open(depth)
			g.block(ctx, depth+1)
			g.shut()
			return
		}
		g.end()
		return
	case 3: // a block directive without a block
		g.w(pick(g.r, []string{"http", "server", "location /x", "events", "if (x)", "upstream u", "map $a $b"}))
		g.end()
		return
	}
	t := invalids[g.d(len(invalids))]
	if t.block != "" && depth >= g.maxDepth {
		t.block = ""
	}
	g.emit(t, depth)
}

var luaBodies = []string{
	"", " ngx.say('hi') ", "\n  local t = { a = 1, b = { 2 } }\n  return t\n", " -- it costs 5 dollars }", " local s = \"}\" ; local q = '{' ", "\r\n  x = 1\r\n", " a = 'é世' -- 世\n", "local f = function() return {} end;", "#", " if x then y() end ", "\n\n\n", " s = [[ long ]] ", " a = 'it\"s' ",
	" -- don't\n", " --[[ } don't ]] x()", " s = \"a \\\" } b\" ", " [==[ ]] ' } ]==] ", " a[b[1]] - - c ", "--[=", "[=[ ' ]] ", "'\\", " t = a[ '}' ] -- it's {\n",
}

// ext writes a statement that an external lexer takes over.
func (g *gen) ext(ctx string) {
	e := g.exts
	n := len(e.specs)
	if e.lua {
		n += 2
	}
	if n == 0 {
		g.w("gzip on;\n")
		return
	}
	i := g.d(n)
	if i < len(e.specs) {
		s := e.specs[i]
		g.w(s.name)
		g.w(pick(g.r, []string{" ", "  ", "\n", "\t", "{", ";", " {"}))
		body := pick(g.r, []string{"", "a b c", "a { b } c", "x\ny z", "é 世 \r\n w", "\"q", "'", "{{}}", "# c", "12345678", "a;b"})
		g.w(body)
		switch extKinds[s.kind].name {
		case "braces":
			if !strings.Contains(body, "{") {
				g.w("{ in }")
			}
		case "words-of-line":
			g.w("\n")
		case "nothing":
			g.w(" ;")
		case "fixed-count":
			g.w("12345 ;")
		case "error-then-more":
			g.w("12 ;")
		}
		g.w(";")
		g.nl()
		return
	}
	name := pick(g.r, luaNames)
	if i == len(e.specs) {
		name = []string{"content_by_lua_block", "set_by_lua_block"}[g.r.Src.DrawW(3, 1)]
	}
	if g.d(8) == 7 {
		g.w(`"` + name + `"`)
	} else {
		g.w(name)
	}
	g.w(pick(g.r, []string{" ", "  ", "\n", "\t ", "\r\n", " \n\n "}))
	if name == "set_by_lua_block" {
		g.w(pick(g.r, []string{"$res ", "$a\n", "$é \t", "$x{ ", "{a} "}))
	}
	if g.invalid > 0 && g.d(g.invalid*2) == 1 {
		g.w(pick(g.r, []string{"oops;", "x { y }", ";", "\"str\" {}"}))
		g.nl()
		return
	}
	g.w("{")
	k := 1 + g.d(3)
	for j := 0; j < k; j++ {
		g.w(pick(g.r, luaBodies[:3]))
		b := pick(g.r, luaBodies)
		if strings.HasSuffix(b, "}") { // would close the block early: keep it balanced
			b = "{" + b
		}
		g.w(b)
	}
	g.w("}")
	if g.d(4) == 1 {
		g.w(";x")
	}
	g.nl()
}

// ---------------------------------------------------------------------------------------------------------------

var wildUnits = []string{"a", "bc", "_", " ", "\n", ";", "{", "}", "\"", "'", "\\", "#", "$", "${", "\r\n", "\r", "\t", "é", "世", "\U0001f600", "\xff", "\xe4\xb8", "\x00", "\u00a0", "\u2028", "(", ")", "~", "*", "include ", "if (", "map $a $b {", "location / {", "\\\"", "\\'", "\\\\", "${x}", "\u0085", "a;", "x y;", "\ufeff", "server {"}

// wild writes n random units.
func wild(r *R, n int, extra []string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		k := r.Src.DrawW(10, 6, 3)
		switch {
		case k == 2 && len(extra) > 0:
			b.WriteString(extra[r.Src.Draw(len(extra))])
		case k == 1:
			b.WriteString([]string{"a", " ", "\n", ";", "x y;\n"}[r.Src.Draw(5)])
		default:
			b.WriteString(wildUnits[r.Src.Draw(len(wildUnits))])
		}
	}
	return b.String()
}

// mutate applies small random edits.
func mutate(r *R, s string, n int) string {
	for i := 0; i < n && len(s) > 0; i++ {
		p := r.Src.Draw(len(s))
		switch r.Src.Draw(5) {
		case 0:
			s = s[:p] + s[p+1:]
		case 1:
			s = s[:p] + wildUnits[r.Src.Draw(len(wildUnits))] + s[p:]
		case 2:
			q := p + r.Src.Draw(20)
			if q > len(s) {
				q = len(s)
			}
			s = s[:q] + s[p:]
		case 3:
			s = s[:p]
		case 4:
			q := p + r.Src.Draw(40)
			if q > len(s) {
				q = len(s)
			}
			s = s[:p] + s[q:]
		}
	}
	return s
}

// genLexText generates input for the lexer-level properties.
func genLexText(r *R, ex *extSet, long bool) string {
	names := []string{}
	if ex.lua {
		names = append(names, "content_by_lua_block {", "set_by_lua_block $a {", "log_by_lua_block ", "}")
	}
	for _, s := range ex.specs {
		names = append(names, s.name, s.name+" ", s.name+"{")
	}
	conf := func(budget int) string {
		g := &gen{r: r, budget: budget, comments: 9, fancy: true, exts: ex, extRate: 6, unknown: 8, maxDepth: 5, invalid: 12}
		if len(names) == 0 {
			g.exts = nil
		}
		g.block("main", 0)
		return g.sb.String()
	}
	w := []int{8, 5, 4, 0}
	if long {
		w[3] = 3
	}
	switch r.Src.DrawW(w...) {
	case 1:
		return wild(r, r.Src.Draw(60), names)
	case 2:
		return mutate(r, conf(12), 1+r.Src.Draw(4))
	case 3:
		// longer than the read buffer and the token channel
		unit := pick(r, []string{"a b c;\n", "x { y z; }\n", "é 世界 \"q r\" ;\r\n", "# comment line\n", "include_x a;", "k v w x y z;\n"})
		n := []int{300, 700, 1100, 2500}[r.Src.DrawW(4, 3, 2, 1)]
		s := strings.Repeat(unit, n)
		off := r.Src.Draw(len(s))
		ins := conf(6)
		for off > 0 && off < len(s) && s[off]&0xc0 == 0x80 {
			off--
		}
		return strings.Repeat("y", r.Src.Draw(5)) + " z;" + s[:off] + ins + s[off:]
	}
	return conf(6 + r.Src.Draw(40))
}

func genExts(r *R) *extSet {
	e := &extSet{}
	switch r.Src.DrawW(5, 4, 3, 2) {
	case 1:
		e.lua = true
	case 2:
		genSpecs(r, e)
	case 3:
		e.lua = true
		genSpecs(r, e)
	}
	return e
}

func genSpecs(r *R, e *extSet) {
	names := []string{"ext_a", "raw", "js_block", "listen", "é_block"}
	n := 1 + r.Src.Draw(3)
	o := r.Src.Draw(len(names))
	for i := 0; i < n; i++ {
		e.specs = append(e.specs, extSpec{
			name: names[(o+i)%len(names)], kind: r.Src.Draw(len(extKinds)), style: r.Src.Draw(numStyles), slow: []int{0, 0, 3, 50}[r.Src.Draw(4)]})
	}
}

func show(s string, max int) string {
	if len(s) > max {
		return fmt.Sprintf("%q… (%d bytes)", s[:max], len(s))
	}
	return fmt.Sprintf("%q", s)
}
