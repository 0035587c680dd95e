package main

var realLex = []string{"lexer, token channel and scanner goroutines (lex.go, lua.go, bufio.Scanner)"}
var realParse = []string{"lexer, token channel and scanner goroutines (lex.go, lua.go, bufio.Scanner)", "parser, include handling, analysis and its tables, error accounting (parse.go, analyze*.go, errors.go, types.go)"}
var realBuild = []string{"builder and BuildFiles/BuildInto (build.go, lua.go)"}
var stubFS = []string{"file system: in-memory model behind os and filepath", "Open/Glob callbacks: simulated sources with scheduled latency, short reads, stalls and errors", "external lexers other than Lua: harness goroutines with a reference model"}

var props = []Prop{
	{ID: "C01", Fn: scenC01, Quick: 68000,
		Rule: "Random configuration text (grammar-based, token soup, mutated, multi-byte, CRLF, buffer-boundary long) lexed under a drawn read-size pattern, latency, channel capacity, consumer and schedule, compared with a batch reference lexer. Non-trivial: more than one token.",
		Real: realLex, Stub: []string{"source reader and token consumer", "external lexers other than Lua"}},
	{ID: "C02", Fn: scenC02, Quick: 120000,
		Rule: "Lexer runs with a read error at a drawn offset, and Parse runs over include trees in which one or two sources fail or are cut off at a drawn offset. Non-trivial: the fault really fired (lexer runs: more than one token).",
		Real: realParse, Stub: stubFS},
	{ID: "C03", Fn: scenC03, Quick: 25200,
		Rule: "Parse over random include trees with wild or mutated text, every option, open/read/glob/close faults, stalls that end, deep nesting. Non-trivial: a source was opened.",
		Real: realParse, Stub: stubFS},
	{ID: "C04", Fn: scenC04, Quick: 120000,
		Rule: "As C03 without stalls plus trees with up to 36 includes; every handle of the run is followed. Non-trivial: more than one handle.",
		Real: realParse, Stub: stubFS},
	{ID: "C05", Fn: scenC05, Quick: 20000, Race: 7000,
		Rule: "Two to four callers run one to three calls each (Parse, LexWithOptions, Build, BuildInto, BuildFiles, Combined) on shared options, payload, files and external lexers; every result is compared with the reference parser/lexer or with the same call alone in a pristine state, and the race build judges synchronisation. Non-trivial: more than four context switches.",
		Real: append(realParse, realBuild...), Stub: stubFS},
	{ID: "C06", Fn: scenC06, Quick: 45000,
		Rule: "Sequences of three to eight calls with reused and changed options, files and faults and overwritten earlier results; every result is compared with the reference model or the same call in a pristine state, and earlier results are dumped again at the end. Non-trivial: every run.",
		Real: append(realParse, realBuild...), Stub: stubFS},
	{ID: "C07", Fn: scenC07, Quick: 160000,
		Rule: "Parse over random include graphs (chains, diamonds, globs, cycles, several contexts) under random delivery, schedule and glob order, compared with a reference parser. Non-trivial: more than one file was parsed.",
		Real: realParse, Stub: stubFS},
	{ID: "C08", Fn: scenC08, Quick: 160000,
		Rule: "Parse over include trees with missing files and open errors on drawn attempts or glob errors, compared with a reference parser. Non-trivial: an open or glob fault fired.",
		Real: realParse, Stub: stubFS},
	{ID: "C09", Fn: scenC09, Quick: 160000,
		Rule: "Parse over trees with invalid statements, broken text and faults, compared with a reference parser and with accounting rules over the callback history. Non-trivial: at least one error is recorded.",
		Real: realParse, Stub: stubFS},
	{ID: "C10", Fn: scenC10, Quick: 120000,
		Rule: "The same world parsed in tolerant and in stop mode within one run; the histories of opens, globs and callbacks are compared. Non-trivial: tolerant mode records an error.",
		Real: realParse, Stub: stubFS},
	{ID: "C11", Fn: scenC11, Quick: 120000,
		Rule: "Combined on random include payloads (also invalid indexes and cycles) and Parse with CombineConfigs on random include trees, compared with a reference expansion. Non-trivial: more than one config.",
		Real: append(realParse, "Payload.Combined and its goroutine"), Stub: stubFS},
	{ID: "C12", Fn: scenC12, Quick: 120000, Race: 4000,
		Rule: "Text with Lua blocks and external directives, external lexers of five delivery styles (also on goroutines of their own), read faults, capacities, schedules. Non-trivial: more than one token.",
		Real: append(realParse, "Lua lexer (lua.go)"), Stub: stubFS},
	{ID: "C13", Fn: scenC13, Quick: 100000,
		Rule: "BuildFiles of random payloads on the simulated disk with failing mkdir/create/write/close/getwd and obstacles. Non-trivial: several configs or a fault.",
		Real: realBuild, Stub: []string{"file system: in-memory model behind os and filepath"}},
	{ID: "C14", Fn: scenC14, Quick: 120000,
		Rule: "BuildFiles interrupted at a drawn operation by a crash before/after/inside it or an error, then run again in a new process on the surviving disk. Non-trivial: the interruption fired.",
		Real: realBuild, Stub: []string{"file system: in-memory model behind os and filepath"}},
	{ID: "C15", Fn: scenC15, Quick: 120000,
		Rule: "Build and BuildInto against sinks and creators that fail at drawn bytes, closes or creations. Non-trivial: every run.",
		Real: realBuild, Stub: []string{"writers and Creator"}},
	{ID: "C16", Fn: scenC16, Quick: 50000, Race: 4000, UsesGen: true,
		Rule: "Sequences of one to four generations (some by several callers at once, sharing configs) over random C/C++ source trees that change in between, with failing lstat/listing/open/read and failing writers and random map order; the table is read back from the Go source and compared with the definitions the tree was made of. Non-trivial: more than one generation, a fault or more than two files.",
		Real: []string{"generator (internal/generator), html/template, regexp"}, Stub: []string{"file system: in-memory model behind os and filepath (WalkDir reimplemented on it)", "output writer"}},
	{ID: "C17", Fn: scenC17, Quick: 40800,
		Rule: "Lexer with a source that stalls at drawn offsets or a consumer that stops receiving; what is receivable at quiescence is compared with the reference lexer. Non-trivial: see samples.",
		Real: realLex, Stub: []string{"source reader and token consumer", "external lexers other than Lua"}},
	{ID: "C18", Fn: scenC18, Quick: 120000,
		Rule: "As C04; every file-system operation and callback of the run is checked against the set the reference parser says is reachable. Non-trivial: more than two operations.",
		Real: realParse, Stub: stubFS},
	{ID: "C19", Fn: scenC19, Quick: 100000,
		Rule: "A payload from parsing a random include tree or made by hand (arbitrary values within the syntax) is written by BuildFiles, after up to two attempts that a disk error or crash ends, often over its own sources, and parsed again under another delivery; both payloads are compared. Non-trivial: something was built.",
		Real: append(realParse, realBuild...), Stub: stubFS},
	{ID: "C22", Fn: scenC22, Quick: 80000,
		Rule: "As C19; the files that were written are then parsed and written in place again, once or twice, by processes that disk errors and crashes interrupt; after the first round no byte of any file may change. Non-trivial: something was written again.",
		Real: append(realParse, realBuild...), Stub: stubFS},
	{ID: "C20", Fn: scenC20, Quick: 80000,
		Rule: "A payload from parsing a random include tree or made by hand is stored as JSON on the simulated disk by one process, after up to two attempts that a disk error or crash ends, and loaded by another through short and failing reads; both payloads, what they build and what they combine to are compared. Non-trivial: the payload has configs.",
		Real: append(realParse, "payload types and their JSON form (types.go, errors.go)", "Build, Combined"), Stub: stubFS},
	{ID: "C21", Fn: scenC21, Quick: 80000, UsesGen: true,
		Rule: "One to three runs of the generator command (cmd/generate, its main function) as simulated processes: drawn command line and JSON config, also invalid or incomplete ones, over random source trees that change in between, with failing config, tree, stdout and stderr; exit status, output and messages are judged. Non-trivial: several runs, a config file, a fault or more than two files.",
		Real: []string{"generator command (cmd/generate), generator (internal/generator), flag parsing and log formatting of the standard library"}, Stub: []string{"file system: in-memory model behind os and filepath (WalkDir reimplemented on it)", "process: command line, standard streams, exit"}},
}
