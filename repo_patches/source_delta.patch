From bc67a97598b54abb3a45c01bf1198f621236c91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:46 +0000
Subject: [PATCH 01/32] fix: report read errors instead of treating them as end
 of file

The lexer stopped at the first failing read as if the input had ended there, so
Parse returned status "ok" for a partially read file. Emit an error token that
wraps the read error, and drop the token that was being collected.
---
 lex.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lex.go b/lex.go
index 4b69cbe..70307dc 100644
--- a/lex.go
+++ b/lex.go
@@ -327,6 +327,14 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 		}
 	}
 
+	if err := scanner.Err(); err != nil {
+		// the input could not be read to its end, so the token being collected may be incomplete
+		token.Reset()
+		emit(tokenLine, false, &ParseError{File: &lexerFile, What: err.Error(), Line: &tokenLine, originalErr: err})
+		close(tokenCh)
+		return
+	}
+
 	if token.Len() > 0 {
 		emit(tokenStartLine, lexState == inQuote, nil)
 	}
-- 
2.43.0


From e047f57c1b6269d9be2b27efab060ed1fdc7c9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:52 +0000
Subject: [PATCH 02/32] fix: let the lexer finish before closing its file

When parsing ended early the lexer goroutine stayed blocked on the token channel
for ever, or went on reading a file that was being closed. Drain the tokens and
close each file as soon as it is parsed instead of keeping all of them open
until Parse returns.
---
 parse.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 58302d3..fc1c16c 100644
--- a/parse.go
+++ b/parse.go
@@ -167,8 +167,6 @@ func Parse(filename string, options *ParseOptions) (*Payload, error) {
 			return nil, err
 		}
 
-		defer file.Close()
-
 		tokens := LexWithOptions(file, options.LexOptions)
 		config := Config{
 			File:   incl.path,
@@ -177,6 +175,12 @@ func Parse(filename string, options *ParseOptions) (*Payload, error) {
 			Parsed: Directives{},
 		}
 		parsed, err := p.parse(&config, tokens, incl.ctx, false)
+
+		// the lexer reads the file until it has delivered its last token
+		for range tokens { //nolint:revive
+		}
+		file.Close()
+
 		if err != nil {
 			if options.StopParsingOnError {
 				return nil, err
-- 
2.43.0


From 797471039739e917a7177100113086322585ed66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:57 +0000
Subject: [PATCH 03/32] fix: close the handle of the include existence check at
 once

The handle was kept open until the surrounding block had been parsed, so nested
or repeated includes held one open file each.
---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index fc1c16c..67b9e79 100644
--- a/parse.go
+++ b/parse.go
@@ -403,7 +403,7 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 						return nil, perr
 					}
 				} else {
-					defer f.Close()
+					f.Close()
 					fnames = []string{pattern}
 				}
 			}
-- 
2.43.0


From bda79df263f15da88339f8edf2d7f1d8e4a8fe42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 04/32] fix: do not write to the options passed to Parse

Setting the default Glob in the caller's options is a data race when options are
shared by concurrent calls.
---
 parse.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 67b9e79..bdf3445 100644
--- a/parse.go
+++ b/parse.go
@@ -123,7 +123,10 @@ func Parse(filename string, options *ParseOptions) (*Payload, error) {
 		Config: []Config{},
 	}
 	if options.Glob == nil {
-		options.Glob = filepath.Glob
+		// the options belong to the caller and may be in use by other calls
+		opts := *options
+		opts.Glob = filepath.Glob
+		options = &opts
 	}
 
 	handleError := func(config *Config, err error) {
-- 
2.43.0


From 0f0938122ed65c01596d2c1ff6c4709c7ab441a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 05/32] fix: do not write to the options passed to Build and
 BuildFiles

Build stored the default indent and the registered builders in the caller's
options: a data race when options are shared by concurrent calls, and builders
from an earlier call stayed in effect after the caller had changed them.
---
 build.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/build.go b/build.go
index 0544817..72259ca 100644
--- a/build.go
+++ b/build.go
@@ -85,10 +85,6 @@ func BuildFiles(payload Payload, dir string, options *BuildOptions) error {
 		dir = cwd
 	}
 
-	for _, o := range options.Builders {
-		o.applyBuildOptions(options)
-	}
-
 	for _, config := range payload.Config {
 		path := config.File
 		if !filepath.IsAbs(path) {
@@ -126,6 +122,14 @@ func BuildFiles(payload Payload, dir string, options *BuildOptions) error {
 
 // Build creates an NGINX config from a crossplane.Config.
 func Build(w io.Writer, config Config, options *BuildOptions) error {
+	// the options belong to the caller and may be in use by other calls
+	opts := *options
+	opts.extBuilders = nil
+	for _, o := range opts.Builders {
+		o.applyBuildOptions(&opts)
+	}
+	options = &opts
+
 	if options.Indent == 0 {
 		options.Indent = 4
 	}
@@ -137,12 +141,6 @@ func Build(w io.Writer, config Config, options *BuildOptions) error {
 		}
 	}
 
-	if options.extBuilders == nil { // might be set if using BuildFiles
-		for _, o := range options.Builders {
-			o.applyBuildOptions(options)
-		}
-	}
-
 	body := strings.Builder{}
 	buildBlock(&body, nil, config.Parsed, 0, 0, options)
 
-- 
2.43.0


From 366adaf0e4db2fbae66b619f46e5b6ca59b015ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:12 +0000
Subject: [PATCH 06/32] fix: make combining configs terminate on bad include
 indexes

After an error inside an included config the generator went on and blocked for
ever on its channel, a negative index crashed the process from a goroutine, and
a payload whose includes lead back into themselves was expanded without end.
---
 util.go | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/util.go b/util.go
index b7af673..7bfcb3f 100644
--- a/util.go
+++ b/util.go
@@ -27,6 +27,15 @@ func contains(xs []string, x string) bool {
 	return false
 }
 
+func containsInt(xs []int, x int) bool {
+	for _, n := range xs {
+		if n == x {
+			return true
+		}
+	}
+	return false
+}
+
 func isSpace(s string) bool {
 	return len(strings.TrimSpace(s)) == 0
 }
@@ -115,7 +124,7 @@ func combineConfigs(old *Payload) (*Payload, error) {
 		}
 	}
 
-	for incl := range performIncludes(old, combined.File, old.Config[0].Parsed) {
+	for incl := range performIncludes(old, combined.File, old.Config[0].Parsed, []int{0}) {
 		if incl.err != nil {
 			return nil, incl.err
 		}
@@ -129,7 +138,9 @@ func combineConfigs(old *Payload) (*Payload, error) {
 	}, nil
 }
 
-func performIncludes(old *Payload, fromfile string, block Directives) chan included {
+// performIncludes emits the directives of block with all includes expanded. An error is always the last item emitted.
+// The path holds the indexes of the configs that are being expanded.
+func performIncludes(old *Payload, fromfile string, block Directives, path []int) chan included {
 	c := make(chan included)
 	go func() {
 		defer close(c)
@@ -137,7 +148,7 @@ func performIncludes(old *Payload, fromfile string, block Directives) chan inclu
 			dir := *d
 			if dir.IsBlock() {
 				nblock := Directives{}
-				for incl := range performIncludes(old, fromfile, dir.Block) {
+				for incl := range performIncludes(old, fromfile, dir.Block, path) {
 					if incl.err != nil {
 						c <- incl
 						return
@@ -151,10 +162,16 @@ func performIncludes(old *Payload, fromfile string, block Directives) chan inclu
 				continue
 			}
 			for _, idx := range dir.Includes {
-				if idx >= len(old.Config) {
+				var what string
+				if idx < 0 || idx >= len(old.Config) {
+					what = fmt.Sprintf("include config with index: %d", idx)
+				} else if containsInt(path, idx) {
+					what = fmt.Sprintf("include cycle through config with index: %d", idx)
+				}
+				if what != "" {
 					c <- included{
 						err: &ParseError{
-							What:      fmt.Sprintf("include config with index: %d", idx),
+							What:      what,
 							File:      &fromfile,
 							Line:      &dir.Line,
 							Statement: dir.String(),
@@ -162,8 +179,12 @@ func performIncludes(old *Payload, fromfile string, block Directives) chan inclu
 					}
 					return
 				}
-				for incl := range performIncludes(old, old.Config[idx].File, old.Config[idx].Parsed) {
+				inner := append(path[:len(path):len(path)], idx)
+				for incl := range performIncludes(old, old.Config[idx].File, old.Config[idx].Parsed, inner) {
 					c <- incl
+					if incl.err != nil {
+						return
+					}
 				}
 			}
 		}
-- 
2.43.0


From f18528963c7590ce72fedac9b951db5438a2f387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:58 +0000
Subject: [PATCH 07/32] fix: report lexer errors that occur among the arguments
 of a directive

Error tokens were only looked at where a directive may start; anywhere else they
were taken for an empty argument and the error was lost or replaced by an
unrelated one.
---
 lex.go   |  7 ++++++-
 parse.go | 34 +++++++++++++++++++++-------------
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/lex.go b/lex.go
index 70307dc..221c54b 100644
--- a/lex.go
+++ b/lex.go
@@ -339,7 +339,12 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 		emit(tokenStartLine, lexState == inQuote, nil)
 	}
 	if depth > 0 {
-		emit(tokenStartLine, false, &ParseError{File: &lexerFile, What: `unexpected end of file, expecting "}"`, Line: &tokenLine})
+		emit(tokenStartLine, false, &ParseError{
+			File:        &lexerFile,
+			What:        `unexpected end of file, expecting "}"`,
+			Line:        &tokenLine,
+			originalErr: ErrPrematureLexEnd,
+		})
 	}
 
 	close(tokenCh)
diff --git a/parse.go b/parse.go
index bdf3445..3306766 100644
--- a/parse.go
+++ b/parse.go
@@ -223,19 +223,7 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 	// parse recursively by pulling from a flat stream of tokens
 	for t := range tokens {
 		if t.Error != nil {
-			var perr *ParseError
-			if errors.As(t.Error, &perr) {
-				perr.File = &parsing.File
-				perr.BlockCtx = ctx.getLastBlock()
-				return nil, perr
-			}
-			return nil, &ParseError{
-				What:        t.Error.Error(),
-				File:        &parsing.File,
-				Line:        &t.Line,
-				originalErr: t.Error,
-				BlockCtx:    ctx.getLastBlock(),
-			}
+			return nil, tokenError(parsing, t, ctx)
 		}
 
 		var commentsInArgs []string
@@ -290,6 +278,9 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 			}
 		}
 		for t.IsQuoted || (t.Value != "{" && t.Value != ";" && t.Value != "}") {
+			if t.Error != nil && !errors.Is(t.Error, ErrPrematureLexEnd) {
+				return nil, tokenError(parsing, t, ctx)
+			}
 			if !strings.HasPrefix(t.Value, "#") || t.IsQuoted {
 				stmt.Args = append(stmt.Args, t.Value)
 			} else if p.options.ParseComments {
@@ -455,6 +446,23 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 	return parsed, nil
 }
 
+// tokenError makes the error to report for a token that carries one.
+func tokenError(parsing *Config, t NgxToken, ctx blockCtx) error {
+	var perr *ParseError
+	if errors.As(t.Error, &perr) {
+		perr.File = &parsing.File
+		perr.BlockCtx = ctx.getLastBlock()
+		return perr
+	}
+	return &ParseError{
+		What:        t.Error.Error(),
+		File:        &parsing.File,
+		Line:        &t.Line,
+		originalErr: t.Error,
+		BlockCtx:    ctx.getLastBlock(),
+	}
+}
+
 // isAcyclic performs a topological sort to check if there are cycles created by configs' includes.
 // First, it adds any files who are not being referenced by another file to a queue (in degree of 0).
 // For every file in the queue, it will remove the reference it has towards its neighbors.
-- 
2.43.0


From 931d3b1739ed60b188f3c69f60fc22ab06b9b51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:04 +0000
Subject: [PATCH 08/32] fix: report lexer errors inside blocks that are skipped

Errors met while skipping an ignored or invalid block were dropped, so a file
that ends or cannot be read inside such a block was reported as fine.
---
 parse.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/parse.go b/parse.go
index 3306766..c5c633c 100644
--- a/parse.go
+++ b/parse.go
@@ -237,7 +237,9 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 		if consume {
 			// if we find a block inside this context, consume it too
 			if t.Value == "{" && !t.IsQuoted {
-				_, _ = p.parse(parsing, tokens, nil, true)
+				if _, err := p.parse(parsing, tokens, nil, true); err != nil {
+					return nil, err
+				}
 			}
 			continue
 		}
@@ -308,7 +310,9 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 					p.handleError(parsing, mapErr)
 					// consume invalid block
 					if t.Value == "{" && !t.IsQuoted {
-						_, _ = p.parse(parsing, tokens, nil, true)
+						if _, err := p.parse(parsing, tokens, nil, true); err != nil {
+							return nil, err
+						}
 					}
 					continue
 				}
@@ -322,7 +326,9 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 		if contains(p.options.IgnoreDirectives, stmt.Directive) {
 			// if this directive was a block consume it too
 			if t.Value == "{" && !t.IsQuoted {
-				_, _ = p.parse(parsing, tokens, nil, true)
+				if _, err := p.parse(parsing, tokens, nil, true); err != nil {
+					return nil, err
+				}
 			}
 			continue
 		}
@@ -335,7 +341,9 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 			// if it was a block but shouldn"t have been then consume
 			if strings.HasSuffix(perr.What, ` is not terminated by ";"`) {
 				if t.Value != "}" && !t.IsQuoted {
-					_, _ = p.parse(parsing, tokens, nil, true)
+					if _, err := p.parse(parsing, tokens, nil, true); err != nil {
+						return nil, err
+					}
 				} else {
 					break
 				}
-- 
2.43.0


From cff3ab6af04869af72c98692a55b515b48e2ea56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 09/32] fix: close the target when writing to it failed

BuildFiles and BuildInto leaked the open file or writer when a write failed.
---
 build.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/build.go b/build.go
index 72259ca..dd63073 100644
--- a/build.go
+++ b/build.go
@@ -110,6 +110,7 @@ func BuildFiles(payload Payload, dir string, options *BuildOptions) error {
 
 		output := append(bytes.TrimRightFunc(buf.Bytes(), unicode.IsSpace), '\n')
 		if _, err := f.Write(output); err != nil {
+			f.Close()
 			return err
 		}
 		if err := f.Close(); err != nil {
@@ -333,6 +334,7 @@ func BuildInto(payload *Payload, into Creator, options *BuildOptions) error {
 			return err
 		}
 		if err := Build(wc, config, options); err != nil {
+			wc.Close()
 			return err
 		}
 
-- 
2.43.0


From 04de30221953e61361e37f567c3a1e6f4163c038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:17 +0000
Subject: [PATCH 10/32] fix: do not share the block context between sibling
 blocks

Appending in place overwrote the context saved with a queued include when a
later sibling block was entered, so the included file was analyzed in the
context of that sibling.
---
 analyze.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/analyze.go b/analyze.go
index 9f28476..4487f49 100644
--- a/analyze.go
+++ b/analyze.go
@@ -136,7 +136,8 @@ func enterBlockCtx(stmt *Directive, ctx blockCtx) blockCtx {
 		return blockCtx{"http", "location"}
 	}
 	// no other block contexts can be nested like location so just append it
-	return append(ctx, stmt.Directive)
+	// (never in place: the context is also kept by queued includes)
+	return append(ctx[:len(ctx):len(ctx)], stmt.Directive)
 }
 
 //nolint:gocyclo,funlen,gocognit
-- 
2.43.0


From 3de686a17fd5839f1bc0a826940291d85f2de816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:36 +0000
Subject: [PATCH 11/32] fix: end a map-like block at its closing brace after an
 unterminated parameter

The brace was swallowed together with the invalid parameter, so everything after
the block was taken for further map parameters and reported or left out.
---
 parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse.go b/parse.go
index c5c633c..2002344 100644
--- a/parse.go
+++ b/parse.go
@@ -308,6 +308,9 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 					return nil, mapErr
 				} else if mapErr != nil {
 					p.handleError(parsing, mapErr)
+					if t.Value == "}" {
+						break // this ended the body of the map
+					}
 					// consume invalid block
 					if t.Value == "{" && !t.IsQuoted {
 						if _, err := p.parse(parsing, tokens, nil, true); err != nil {
-- 
2.43.0


From 1e2378f3ee22ba396881143f84c7e24425258f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:43 +0000
Subject: [PATCH 12/32] fix: skip the whole block of an invalid statement

Only the block of a statement that should have ended with ";" was skipped. The
block of any other invalid statement (not allowed here, unknown, wrong number of
arguments) was parsed as part of the surrounding block, and its closing brace
ended that block, so that valid statements after it were misplaced, reported as
invalid or silently left out.
---
 parse.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/parse.go b/parse.go
index 2002344..f628b84 100644
--- a/parse.go
+++ b/parse.go
@@ -341,14 +341,14 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 
 		if perr, ok := err.(*ParseError); ok && !p.options.StopParsingOnError {
 			p.handleError(parsing, perr)
-			// if it was a block but shouldn"t have been then consume
-			if strings.HasSuffix(perr.What, ` is not terminated by ";"`) {
-				if t.Value != "}" && !t.IsQuoted {
-					if _, err := p.parse(parsing, tokens, nil, true); err != nil {
-						return nil, err
-					}
-				} else {
-					break
+			// if the invalid statement ended the surrounding block then so do we
+			if t.Value == "}" {
+				break
+			}
+			// if it has a block then consume it
+			if t.Value == "{" {
+				if _, err := p.parse(parsing, tokens, nil, true); err != nil {
+					return nil, err
 				}
 			}
 			// keep on parsin'
-- 
2.43.0


From c097d2d726441e2443c4948c6e4aa71d14f72505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:02 +0000
Subject: [PATCH 13/32] fix: do not let an unterminated statement swallow the
 end of its block

When a statement that is not analyzed (unknown or ignored directive, unknown
context, checks switched off) lacked its ";" before a "}", the brace was taken as
its terminator and everything that followed ended up inside the wrong block,
with status "ok".
---
 parse.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/parse.go b/parse.go
index f628b84..d0fe721 100644
--- a/parse.go
+++ b/parse.go
@@ -333,11 +333,24 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 					return nil, err
 				}
 			}
+			if t.Value == "}" {
+				break // this ended the surrounding block
+			}
 			continue
 		}
 
 		// raise errors if this statement is invalid
 		err = analyze(parsing.File, stmt, t.Value, ctx, p.options)
+		if err == nil && t.Value == "}" {
+			// not even a statement that cannot be analyzed may be ended by the end of the surrounding block
+			err = &ParseError{
+				What:      fmt.Sprintf(`directive "%s" is not terminated by ";"`, stmt.Directive),
+				File:      &parsing.File,
+				Line:      &stmt.Line,
+				Statement: stmt.String(),
+				BlockCtx:  ctx.getLastBlock(),
+			}
+		}
 
 		if perr, ok := err.(*ParseError); ok && !p.options.StopParsingOnError {
 			p.handleError(parsing, perr)
-- 
2.43.0


From 9d057c255475771d7448ad97f56ec41103719669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 14/32] fix: do not crash on an empty condition

"if ()" in a place where arguments are not checked (unknown context, or checks
switched off) made Parse panic with a slice index out of range.
---
 util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 7bfcb3f..01e1f00 100644
--- a/util.go
+++ b/util.go
@@ -86,7 +86,7 @@ func prepareIfArgs(d *Directive) *Directive {
 		if len(d.Args[0]) == 0 {
 			b++
 		}
-		if len(d.Args[e]) == 0 {
+		if len(d.Args[e]) == 0 && e >= b {
 			e--
 		}
 		d.Args = d.Args[b : e+1]
-- 
2.43.0


From 550957f5543efe6b28a16ff521c460723b9e0958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:53 +0000
Subject: [PATCH 15/32] fix: treat an include without arguments like any other
 invalid statement

Where arguments are not checked, "include;" made Parse drop the whole file
instead of recording the error and going on with the next statement.
---
 parse.go | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/parse.go b/parse.go
index d0fe721..4da0d56 100644
--- a/parse.go
+++ b/parse.go
@@ -351,6 +351,19 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 				BlockCtx:  ctx.getLastBlock(),
 			}
 		}
+		if err == nil && !p.options.SingleFile && stmt.Directive == "include" && len(stmt.Args) == 0 {
+			err = &ParseError{
+				What: fmt.Sprintf(`invalid number of arguments in "%s" directive in %s:%d`,
+					stmt.Directive,
+					parsing.File,
+					stmt.Line,
+				),
+				File:      &parsing.File,
+				Line:      &stmt.Line,
+				Statement: stmt.String(),
+				BlockCtx:  ctx.getLastBlock(),
+			}
+		}
 
 		if perr, ok := err.(*ParseError); ok && !p.options.StopParsingOnError {
 			p.handleError(parsing, perr)
@@ -377,20 +390,6 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 
 		// add "includes" to the payload if this is an include statement
 		if !p.options.SingleFile && stmt.Directive == "include" {
-			if len(stmt.Args) == 0 {
-				return nil, &ParseError{
-					What: fmt.Sprintf(`invalid number of arguments in "%s" directive in %s:%d`,
-						stmt.Directive,
-						parsing.File,
-						stmt.Line,
-					),
-					File:      &parsing.File,
-					Line:      &stmt.Line,
-					Statement: stmt.String(),
-					BlockCtx:  ctx.getLastBlock(),
-				}
-			}
-
 			pattern := stmt.Args[0]
 			if !filepath.IsAbs(pattern) {
 				pattern = filepath.Join(p.configDir, pattern)
-- 
2.43.0


From 50483d55d30fbe15152b93a94e07c1958b18b7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:55 +0000
Subject: [PATCH 16/32] fix: copy the block context of queued includes only

Copying it for every block made the memory needed for nested blocks grow with
the square of the nesting depth.
---
 analyze.go | 3 +--
 parse.go   | 3 ++-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/analyze.go b/analyze.go
index 4487f49..9f28476 100644
--- a/analyze.go
+++ b/analyze.go
@@ -136,8 +136,7 @@ func enterBlockCtx(stmt *Directive, ctx blockCtx) blockCtx {
 		return blockCtx{"http", "location"}
 	}
 	// no other block contexts can be nested like location so just append it
-	// (never in place: the context is also kept by queued includes)
-	return append(ctx[:len(ctx):len(ctx)], stmt.Directive)
+	return append(ctx, stmt.Directive)
 }
 
 //nolint:gocyclo,funlen,gocognit
diff --git a/parse.go b/parse.go
index 4da0d56..986c751 100644
--- a/parse.go
+++ b/parse.go
@@ -430,7 +430,8 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 				// TODO: handle files included from multiple contexts
 				if _, ok := p.included[fname]; !ok {
 					p.included[fname] = len(p.included)
-					p.includes = append(p.includes, fileCtx{fname, ctx})
+					// the context is copied because entering a sibling block overwrites it
+					p.includes = append(p.includes, fileCtx{fname, append(blockCtx{}, ctx...)})
 				}
 				stmt.Includes = append(stmt.Includes, p.included[fname])
 				// add edge between the current file and it's included file and
-- 
2.43.0


From 2484c529abbfcfe174ec474050731639ecb82098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:01 +0000
Subject: [PATCH 17/32] fix: report blocks that are nested too deeply

A few megabytes of nested blocks made Parse exhaust the stack, which ends the
process.
---
 lex.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lex.go b/lex.go
index 221c54b..4229f02 100644
--- a/lex.go
+++ b/lex.go
@@ -33,6 +33,10 @@ const (
 
 const TokenChanCap = 2048
 
+// maxDepth is the deepest nesting of blocks that is accepted. Everything that works on nested blocks is recursive, so
+// the stack could not hold arbitrarily deep ones.
+const maxDepth = 10000
+
 //nolint:gochecknoglobals
 var lexerFile = "lexer" // pseudo file name for use by parse errors
 
@@ -279,6 +283,11 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 
 				if la == "{" {
 					depth++
+					if depth > maxDepth {
+						emit(tokenStartLine, false, &ParseError{File: &lexerFile, What: "too many nested blocks", Line: &tokenLine})
+						close(tokenCh)
+						return
+					}
 				}
 				if la == "}" {
 					depth--
-- 
2.43.0


From 1a86df64cfc481301197d8ea5acfaab79606c16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:27 +0000
Subject: [PATCH 18/32] fix: do not write to the errors of external lexers

An external lexer that reports the same error value more than once got errors
of other files and of concurrent calls rewritten.
---
 parse.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parse.go b/parse.go
index 986c751..43b7ef1 100644
--- a/parse.go
+++ b/parse.go
@@ -474,9 +474,10 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 func tokenError(parsing *Config, t NgxToken, ctx blockCtx) error {
 	var perr *ParseError
 	if errors.As(t.Error, &perr) {
-		perr.File = &parsing.File
-		perr.BlockCtx = ctx.getLastBlock()
-		return perr
+		located := *perr // the error belongs to the lexer, which may use it again
+		located.File = &parsing.File
+		located.BlockCtx = ctx.getLastBlock()
+		return &located
 	}
 	return &ParseError{
 		What:        t.Error.Error(),
-- 
2.43.0


From f09cec2af2f417c169f482ecd7c822d88f77d854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:11 +0000
Subject: [PATCH 19/32] fix: generator: remove comments in one pass

The "//" of a URL in a multi line comment removed the end of that comment, and
with it all directives up to the end of the next one.
---
 internal/generator/generator_util.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/internal/generator/generator_util.go b/internal/generator/generator_util.go
index 615265b..d205925 100644
--- a/internal/generator/generator_util.go
+++ b/internal/generator/generator_util.go
@@ -46,9 +46,8 @@ var (
 	// this regex extracts {directive_name} and {bitmask1|bitmask2|...}.
 	singleDirectiveExtracter = regexp.MustCompile(`ngx_string\("(.*?)"\).*?,(.*?),`)
 
-	singleLineCommentExtracter = regexp.MustCompile(`//.*`)
-
-	multiLineCommentExtracter = regexp.MustCompile(`/\*[\s\S]*?\*/`)
+	// Single line comments and multi line comments, whichever starts first: the one may contain the start of the other.
+	commentExtracter = regexp.MustCompile(`//.*|/\*[\s\S]*?\*/`)
 )
 
 // Template of support file. A support file contains a map from
@@ -109,8 +108,7 @@ func masksFromFile(path string) (directive2Masks map[string][]Mask, err error) {
 	strContent := string(byteContent)
 
 	// Remove comments
-	strContent = singleLineCommentExtracter.ReplaceAllString(strContent, "")
-	strContent = multiLineCommentExtracter.ReplaceAllString(strContent, "")
+	strContent = commentExtracter.ReplaceAllString(strContent, "")
 	strContent = strings.ReplaceAll(strContent, "\r\n", "")
 	strContent = strings.ReplaceAll(strContent, "\n", "")
 
-- 
2.43.0


From 2febe3a110e9a5badbfd22a7e4592078abc93ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:01 +0000
Subject: [PATCH 20/32] fix: lua: leave reporting read errors to the lexer

SubScanner.Err is set as soon as the underlying reader fails, which can be
before the characters read up to then have been scanned. The Lua lexer then
emitted an error token that does not wrap the read error, once for every
remaining character, in front of tokens that were read intact. tokenize
reports the error (wrapped, once, after the last intact token) anyway.
---
 lua.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/lua.go b/lua.go
index dd4a45b..7cf18b4 100644
--- a/lua.go
+++ b/lua.go
@@ -114,10 +114,6 @@ func (l *Lua) Lex(s *SubScanner, matchedToken string) <-chan NgxToken {
 			}
 
 			next := s.Text()
-			if err := s.Err(); err != nil {
-				lineno := s.Line()
-				tokenCh <- NgxToken{Error: &ParseError{File: &lexerFile, What: err.Error(), Line: &lineno}}
-			}
 
 			switch {
 			case next == "{" && !inQuotes:
-- 
2.43.0


From ce0902cc779ad6da47581f06ac0e573c76e64422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:53 +0000
Subject: [PATCH 21/32] fix: emit nothing but the error after a read error in
 an external lexer

The character that ended the directive name was still turned into a token
(such as a ";" completing the statement) in front of the error, although the
external lexer had not got to the end of its input.
---
 lex.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lex.go b/lex.go
index 4229f02..3a05ef0 100644
--- a/lex.go
+++ b/lex.go
@@ -111,12 +111,14 @@ func Lex(reader io.Reader) chan NgxToken {
 type SubScanner struct {
 	scanner   *bufio.Scanner
 	tokenLine int
+	ended     bool
 }
 
 // Scan advances the scanner to the next token which will be available though the Text method. It returns false
 // when the scan stops by reaching the end of input.
 func (e *SubScanner) Scan() bool {
 	if !e.scanner.Scan() {
+		e.ended = true
 		return false
 	}
 	if t := e.scanner.Text(); isEOL(t) {
@@ -202,6 +204,11 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 					}
 					tokenLine = externalScanner.tokenLine
 
+					// the input failed while the external lexer was reading it: nothing may follow but that error
+					if externalScanner.ended && scanner.Err() != nil {
+						break
+					}
+
 					// if we detected a start quote and current char after external lexer processing is end quote we skip it
 					if lastLexState == inQuote && la == quote {
 						continue
-- 
2.43.0


From 8b282e9d46e1563aa8454694b927335d06a380e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:38 +0000
Subject: [PATCH 22/32] fix: report a terminator where a directive should start

The lexer reports a repeated "{" or ";", but not one at the start of a
file, after a comment or after the tokens of an external lexer. The parser
took it for the name of a directive, so that the "}" matching a "{" ended
the parse of the whole file and the rest of it was dropped without an error.
---
 parse.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parse.go b/parse.go
index 43b7ef1..366ac64 100644
--- a/parse.go
+++ b/parse.go
@@ -244,6 +244,16 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 			continue
 		}
 
+		// a directive cannot be nothing but its terminator
+		if (t.Value == "{" || t.Value == ";") && !t.IsQuoted {
+			return nil, &ParseError{
+				What:     fmt.Sprintf(`unexpected "%s"`, t.Value),
+				File:     &parsing.File,
+				Line:     &t.Line,
+				BlockCtx: ctx.getLastBlock(),
+			}
+		}
+
 		var fileName string
 		if p.options.CombineConfigs {
 			fileName = parsing.File
-- 
2.43.0


From ba9467c8787cc4c63d367cd8eb38721921972d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:25 +0000
Subject: [PATCH 23/32] fix: quote arguments in the way the lexer reads them

Arguments were quoted as Go strings: a line feed, a tab, a no-break space or
another unprintable character was written as an escape sequence that nothing
undoes, and an escaped quote could end the argument.
---
 build.go |  2 +-
 util.go  | 39 +++++++++++++++++++++++++++++++--------
 2 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/build.go b/build.go
index dd63073..d28cf0f 100644
--- a/build.go
+++ b/build.go
@@ -237,7 +237,7 @@ func Enquote(arg string) string {
 	if !needsQuote(arg) {
 		return arg
 	}
-	return strings.ReplaceAll(repr(arg), `\\`, `\`)
+	return repr(arg)
 }
 
 //nolint:gocyclo
diff --git a/util.go b/util.go
index 01e1f00..3f415c1 100644
--- a/util.go
+++ b/util.go
@@ -44,17 +44,40 @@ func isEOL(s string) bool {
 	return strings.HasSuffix(s, "\n")
 }
 
+// repr puts s in quotes. The lexer undoes nothing inside of quotes but the escaping of the quote itself.
 func repr(s string) string {
-	q := fmt.Sprintf("%q", s)
-	for _, char := range s {
-		if char == '"' {
-			q = strings.ReplaceAll(q, `\"`, `"`)
-			q = strings.ReplaceAll(q, `'`, `\'`)
-			q = `'` + q[1:len(q)-1] + `'`
-			return q
+	quote := byte('"')
+	if strings.ContainsRune(s, '"') && !hasEscaped(s, '\'') {
+		quote = '\''
+	}
+
+	sb := strings.Builder{}
+	sb.WriteByte(quote)
+	for i := 0; i < len(s); i++ {
+		switch {
+		case s[i] == '\\' && i+1 < len(s):
+			sb.WriteByte(s[i])
+			i++
+		case s[i] == quote:
+			sb.WriteByte('\\')
+		}
+		sb.WriteByte(s[i])
+	}
+	sb.WriteByte(quote)
+	return sb.String()
+}
+
+// hasEscaped tells whether s has char with a backslash in front that escapes it.
+func hasEscaped(s string, char byte) bool {
+	for i := 0; i+1 < len(s); i++ {
+		if s[i] == '\\' {
+			i++
+			if s[i] == char {
+				return true
+			}
 		}
 	}
-	return q
+	return false
 }
 
 func validFlag(s string) bool {
-- 
2.43.0


From e194472853b90201eaea4d791573519c9faaf8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:43 +0000
Subject: [PATCH 24/32] fix: quote arguments that start like a comment

An argument starting with "#" was written as it is, which makes the rest of
its line, often with the end of the statement, a comment.
---
 build.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/build.go b/build.go
index d28cf0f..985f8e0 100644
--- a/build.go
+++ b/build.go
@@ -258,8 +258,8 @@ func needsQuote(s string) bool {
 	// get first rune
 	char, off := utf8.DecodeRuneInString(chars)
 
-	// arguments can't start with variable expansion syntax
-	if unicode.IsSpace(char) || strings.ContainsRune("{};\"'", char) || strings.HasPrefix(chars, "${") {
+	// arguments can't start with variable expansion or comment syntax
+	if unicode.IsSpace(char) || strings.ContainsRune("{};#\"'", char) || strings.HasPrefix(chars, "${") {
 		return true
 	}
 
-- 
2.43.0


From 36d43ffd0b5d21c594ccf8c090e7b3e4df57bfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:56 +0000
Subject: [PATCH 25/32] fix: see a backslash at the start of an argument when
 deciding about quotes

In an argument starting with an escaped backslash the second one was taken for
the escape of what follows, so that white space, a brace or a semicolon was
written without quotes.
---
 build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build.go b/build.go
index 985f8e0..ddd5be0 100644
--- a/build.go
+++ b/build.go
@@ -266,7 +266,7 @@ func needsQuote(s string) bool {
 	chars = chars[off:]
 
 	expanding := false
-	var prev rune
+	prev := char
 	for _, c := range chars {
 		char = c
 
-- 
2.43.0


From 032c5eea403bb88e9e52d4888a8e4a755e7092a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:03 +0000
Subject: [PATCH 26/32] fix: separate quoted arguments of a condition from its
 parentheses

A quote next to the parenthesis is part of the word, so that the condition was
read back with the quotes in its arguments, or not at all.
---
 build.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/build.go b/build.go
index ddd5be0..d229791 100644
--- a/build.go
+++ b/build.go
@@ -189,11 +189,15 @@ func buildBlock(sb io.StringWriter, parent *Directive, block Directives, depth i
 			if directive == "if" {
 				_, _ = sb.WriteString(" (")
 				for i, arg := range stmt.Args {
-					if i > 0 {
+					// a quote only starts a quoted argument at the start of a word, and ends it
+					if i > 0 || needsQuote(arg) {
 						_, _ = sb.WriteString(" ")
 					}
 					_, _ = sb.WriteString(Enquote(arg))
 				}
+				if l := len(stmt.Args); l > 0 && needsQuote(stmt.Args[l-1]) {
+					_, _ = sb.WriteString(" ")
+				}
 				_, _ = sb.WriteString(")")
 			} else {
 				for _, arg := range stmt.Args {
-- 
2.43.0


From 19ab9b84091c588c73f55608912079cabbae13c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:35 +0000
Subject: [PATCH 27/32] fix: keep empty blocks and include lists in the JSON
 form of a directive

---
 types.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/types.go b/types.go
index 5d6dc64..2ec03ff 100644
--- a/types.go
+++ b/types.go
@@ -8,6 +8,7 @@
 package crossplane
 
 import (
+	"encoding/json"
 	"fmt"
 	"strings"
 )
@@ -51,6 +52,28 @@ type Directive struct {
 
 type Directives []*Directive
 
+// MarshalJSON makes this a json.Marshaler. It keeps an empty block and an empty list of includes, because their presence
+// is what makes the directive a block or an include.
+func (d Directive) MarshalJSON() ([]byte, error) {
+	type plain Directive // without this method
+	out := struct {
+		plain
+		Includes *[]int      `json:"includes,omitempty"`
+		Block    *Directives `json:"block,omitempty"`
+	}{plain: plain(d)}
+
+	if (d.Includes == nil) == (len(d.Includes) == 0) && (d.Block == nil) == (len(d.Block) == 0) {
+		return json.Marshal(out.plain)
+	}
+	if d.Includes != nil {
+		out.Includes = &d.Includes
+	}
+	if d.Block != nil {
+		out.Block = &d.Block
+	}
+	return json.Marshal(out)
+}
+
 // IsBlock returns true if this is a block directive.
 func (d Directive) IsBlock() bool {
 	return d.Block != nil
-- 
2.43.0


From edfae3bf0a1dd675e0befba6b4f8fe52d20609ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:21 +0000
Subject: [PATCH 28/32] fix: do not sort the names returned by the caller's
 Glob in place

A Glob that keeps its answers hands the same slice to every call; sorting it
in place is a data race between concurrent calls to Parse.
---
 parse.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse.go b/parse.go
index 366ac64..e50575f 100644
--- a/parse.go
+++ b/parse.go
@@ -412,6 +412,8 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 				if err != nil {
 					return nil, err
 				}
+				// the names belong to whoever supplied Glob and may be in use by other calls
+				fnames = append([]string(nil), fnames...)
 				sort.Strings(fnames)
 			} else {
 				// if the file pattern was explicit, nginx will check
-- 
2.43.0


From 1d4db2bd1e87363bc04944e4a0bc24d5284a12fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:03 +0000
Subject: [PATCH 29/32] fix: braces and quotes in Lua comments and long
 strings, and escaped quotes, are text

The apostrophe of a comment such as "-- don't" was taken for the start of a
string, so the Lua block did not end at its closing brace but swallowed the
rest of the file; a brace in a comment or long string ended the block early,
as did one after an escaped quote.
---
 lua.go | 50 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/lua.go b/lua.go
index 7cf18b4..7313505 100644
--- a/lua.go
+++ b/lua.go
@@ -60,8 +60,7 @@ func (l *Lua) Lex(s *SubScanner, matchedToken string) <-chan NgxToken {
 	go func() {
 		defer close(tokenCh)
 		var tok strings.Builder
-		var inQuotes bool
-		var quoteType string
+		var inert luaInert
 
 		// special handling for'set_by_lua_block' directive
 		// ignore potential hardcoded credentials linter warning for "set_by_lua_block"
@@ -107,7 +106,7 @@ func (l *Lua) Lex(s *SubScanner, matchedToken string) <-chan NgxToken {
 			}
 		}
 
-		// Grab everything in Lua block as a single token and watch for curly brace '{' in strings
+		// Grab everything in Lua block as a single token and watch for curly brace '{' in strings and comments
 		for {
 			if !s.Scan() {
 				return
@@ -116,13 +115,13 @@ func (l *Lua) Lex(s *SubScanner, matchedToken string) <-chan NgxToken {
 			next := s.Text()
 
 			switch {
-			case next == "{" && !inQuotes:
+			case next == "{" && inert.end == "":
 				tokenDepth++
 				if tokenDepth > 1 { // not the first open brace
 					tok.WriteString(next)
 				}
 
-			case next == "}" && !inQuotes:
+			case next == "}" && inert.end == "":
 				tokenDepth--
 				if tokenDepth < 0 {
 					lineno := s.Line()
@@ -141,15 +140,6 @@ func (l *Lua) Lex(s *SubScanner, matchedToken string) <-chan NgxToken {
 					return
 				}
 
-			case next == `"` || next == "'":
-				if !inQuotes {
-					inQuotes = true
-					quoteType = next
-				} else if inQuotes && next == quoteType {
-					inQuotes = false
-				}
-				tok.WriteString(next)
-
 			default:
 				// Expected first token is “{” to open a Lua block. If the first non-whitespace character is not “{”,
 				// we are not starting Lua tokenization. This is crucial for cases like ‘server_name content_by_lua_block;’.
@@ -164,6 +154,7 @@ func (l *Lua) Lex(s *SubScanner, matchedToken string) <-chan NgxToken {
 					return
 				}
 				tok.WriteString(next)
+				inert.update(tok.String())
 			}
 		}
 	}()
@@ -171,6 +162,37 @@ func (l *Lua) Lex(s *SubScanner, matchedToken string) <-chan NgxToken {
 	return tokenCh
 }
 
+// luaInert keeps track of the strings and comments of a Lua text, in which braces and quotes have no meaning.
+type luaInert struct {
+	end   string // what ends the current string or comment, empty outside of them
+	start int    // where the text of the current comment starts
+	esc   bool   // the next character of the current string is escaped
+}
+
+// update takes the text up to and including its next character.
+func (l *luaInert) update(text string) {
+	inQuotes := l.end == `"` || l.end == "'"
+	prefix, char := text[:len(text)-1], text[len(text)-1:]
+
+	switch {
+	case l.esc:
+		l.esc = false
+	case inQuotes && char == "\\":
+		l.esc = true
+	case l.end != "" && strings.HasSuffix(text, l.end):
+		l.end = ""
+	case l.end == "" && (char == `"` || char == "'"):
+		l.end = char
+	case l.end == "" && strings.HasSuffix(text, "--"):
+		l.end, l.start = "\n", len(text)
+	case (l.end == "" || l.end == "\n") && char == "[":
+		// a long bracket, such as "[[" or "[==[", which makes a comment a long one if the comment starts with it
+		if open := strings.TrimRight(prefix, "="); strings.HasSuffix(open, "[") && (l.end == "" || len(open) == l.start+1) {
+			l.end = "]" + prefix[len(open):] + "]"
+		}
+	}
+}
+
 // RegisterBuilder registers a builder for generating Lua NGINX configuration.
 func (l *Lua) RegisterBuilder() RegisterBuilder { //nolint:ireturn
 	return BuildWithBuilder(l, l.directiveNames()...)
-- 
2.43.0


From 64a158ba2b63b83b5723304ae3a05ef245e95932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:18:49 +0000
Subject: [PATCH 30/32] fix: an argument after a quoted one was taken for a
 directive with an external lexer

The end of a quoted token did not clear nextTokenIsDirective, so in
foo "a" content_by_lua_block {...} or after a quoted value that holds a
line feed the argument was handed to the external lexer.
---
 lex.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lex.go b/lex.go
index 3a05ef0..eb9b73f 100644
--- a/lex.go
+++ b/lex.go
@@ -334,6 +334,7 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 		case inQuote:
 			if la == quote {
 				emit(tokenStartLine, true, nil)
+				nextTokenIsDirective = false
 				continue
 			}
 			if la == "\\"+quote {
-- 
2.43.0


From 272e5d9eda39a0a63d068d0aa34bdfb8d7a0036b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:18:56 +0000
Subject: [PATCH 31/32] fix: directive names that start with the name of an
 external lexer's directive

The external lexer took over as soon as its name had been read, also
when the name went on ("content_by_lua_blocks", "content_by_lua_block x"
in quotes), and the rest of the name was lexed as something else.
---
 lex.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lex.go b/lex.go
index eb9b73f..cbf4a44 100644
--- a/lex.go
+++ b/lex.go
@@ -191,7 +191,12 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 
 		if token.Len() > 0 {
 			tokenStr := token.String()
-			if nextTokenIsDirective {
+			// the name ends here, it is not just the first part of a longer one
+			nameEnds := isSpace(la) || la == "{" || la == "}" || la == ";"
+			if lexState == inQuote {
+				nameEnds = la == quote
+			}
+			if nextTokenIsDirective && nameEnds {
 				if ext, ok := options.extLexers[tokenStr]; ok {
 					// saving lex state before emitting tokenStr to know if we encountered start quote
 					lastLexState := lexState
-- 
2.43.0


From 02858924d8207f9d4b7967b3a8f705635d8dafd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:20:42 +0000
Subject: [PATCH 32/32] fix: arguments on a line of their own were taken for
 directives with an external lexer

Every line feed set nextTokenIsDirective, also in the middle of a
statement. It is now set where a statement starts (after ";", "{", "}"
and at the start of the input) only.
---
 lex.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lex.go b/lex.go
index cbf4a44..bc53058 100644
--- a/lex.go
+++ b/lex.go
@@ -169,7 +169,6 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 			la = scanner.Text()
 			if isEOL(la) {
 				tokenLine++
-				nextTokenIsDirective = true
 			}
 		} else {
 			readNext = true
@@ -196,7 +195,7 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 			if lexState == inQuote {
 				nameEnds = la == quote
 			}
-			if nextTokenIsDirective && nameEnds {
+			if nextTokenIsDirective && nameEnds && lexState != inComment {
 				if ext, ok := options.extLexers[tokenStr]; ok {
 					// saving lex state before emitting tokenStr to know if we encountered start quote
 					lastLexState := lexState
@@ -236,7 +235,6 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 				newToken = false
 				if la == "#" {
 					token.WriteString(la)
-					nextTokenIsDirective = false
 					lexState = inComment
 					tokenStartLine = tokenLine
 					continue
-- 
2.43.0

