package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"
	"unicode/utf8"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
	"github.com/nginxinc/nginx-go-crossplane/internal/generator"
	sim "github.com/nginxinc/nginx-go-crossplane/internal/verifsim"
)

const (
	chunkSize  = 40
	runTimeout = 60 * time.Second // real time; only a run the step bound cannot end gets there
	maxRSS     = 3 << 30

	exitViolation = 1
	exitError     = 3
	exitWatchdog  = 4
	exitMemory    = 5
)

var (
	fProp     = flag.String("prop", "", "property")
	fTier     = flag.String("tier", "quick", "quick or thorough")
	fSeed     = flag.Int64("seed", 1, "seed")
	fEvidence = flag.String("evidence", "", "evidence file to write")
	fReplays  = flag.String("replays", ".", "directory for replay files")
	fRaceBin  = flag.String("race", "", "the race-detector build of this program")
	fSites    = flag.String("sites", "", "site table written by the instrumenter")
	fReplay   = flag.String("replay", "", "replay this file")
	fServe    = flag.Bool("serve", false, "internal: execute runs read from stdin")
	fRuns     = flag.Int("runs", 0, "override the number of runs")
	fFor      = flag.Duration("for", 0, "override: run until this much time has passed")
	fWorkers  = flag.Int("workers", 8, "worker processes")
	fShow     = flag.Int("show", -1, "execute one run of the search and print it")
	fHashes   = flag.Bool("hashes", false, "print a digest of all run hashes")
	fMut      = flag.Bool("nominimise", false, "do not minimise")
)

func propByID(id string) *Prop {
	for i := range props {
		if props[i].ID == id {
			return &props[i]
		}
	}
	return nil
}

func main() {
	flag.Parse()
	if *fReplay != "" {
		os.Exit(replayMain())
	}
	p := propByID(*fProp)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *fProp)
		os.Exit(exitError)
	}
	if *fServe {
		serve(p)
		return
	}
	if *fShow >= 0 {
		pristine(p)
		res := RunOnce(p, sim.NewSearch(runSeed(p, *fSeed, *fShow)), policyFor(runSeed(p, *fSeed, *fShow)), true, *fTier == "thorough")
		fmt.Printf("outcome %s violation %+v unsound %q nontrivial %v steps %d time %d faults %v\n%s\n", res.Outcome, res.Viol, res.Unsound, res.Nontriv, res.Steps, res.SimTime, res.Faults, res.Desc)
		printHistory(os.Stdout, res, 4000)
		return
	}
	os.Exit(search(p))
}

func runSeed(p *Prop, seed int64, i int) uint64 {
	h := uint64(1469598103934665603)
	for _, c := range p.ID {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return sim.Mix(sim.Mix(uint64(seed), h), uint64(i))
}

// pristine puts the code under test into the state of a fresh process.
func pristine(p *Prop) {
	crossplane.VerifReset(true)
	if p.UsesGen {
		generator.VerifReset(true)
	}
}

// ---------------------------------------------------------------------------------------------------------------
// Worker

// job is a request to a worker process.
type job struct {
	Kind    string       `json:"kind"` // "chunk" or "run"
	From    int          `json:"from"`
	To      int          `json:"to"`
	Seed    int64        `json:"seed"`
	Prelude []int        `json:"prelude,omitempty"` // runs to execute before (chunk history)
	Choices *sim.Choices `json:"choices,omitempty"`
	Verbose bool         `json:"verbose,omitempty"`
}

// reply is a line a worker answers with.
type reply struct {
	Kind    string       `json:"kind"` // "start", "viol", "unsound", "done", "run"
	Index   int          `json:"index"`
	Viol    *Violation   `json:"viol,omitempty"`
	Unsound string       `json:"unsound,omitempty"`
	Choices *sim.Choices `json:"choices,omitempty"`
	Hash    uint64       `json:"hash,omitempty"`
	Desc    string       `json:"desc,omitempty"`
	Events  []sim.Event  `json:"events,omitempty"`
	EventsN int          `json:"eventsN,omitempty"`
	Outcome string       `json:"outcome,omitempty"`
	Stats   *stats       `json:"stats,omitempty"`
	Stderr  string       `json:"-"`
	Died    string       `json:"-"`
}

type stats struct {
	Runs, Evals, Nontriv         int
	Steps, SimTime               int64
	Switches, Preempts, SelfTest int
	Faults                       map[string]int
	Outcomes                     map[string]int
	Hashes, IHashes              []uint64
	Sites                        []int
	Samples                      []string
	Digest                       uint64
	Questions                    int
}

func (a *stats) add(b *stats) {
	a.Runs += b.Runs
	a.Evals += b.Evals
	a.Nontriv += b.Nontriv
	a.Steps += b.Steps
	a.SimTime += b.SimTime
	a.Switches += b.Switches
	a.Preempts += b.Preempts
	a.SelfTest += b.SelfTest
	a.Digest += b.Digest
	a.Questions += b.Questions
	for k, v := range b.Faults {
		a.Faults[k] += v
	}
	for k, v := range b.Outcomes {
		a.Outcomes[k] += v
	}
}

func newStats() *stats { return &stats{Faults: map[string]int{}, Outcomes: map[string]int{}} }

func serve(p *Prop) {
	debug.SetMaxStack(96 << 20)
	debug.SetGCPercent(200)
	runtime.GOMAXPROCS(2)
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	enc := json.NewEncoder(out)
	say := func(r *reply) {
		if err := enc.Encode(r); err != nil {
			os.Exit(exitError)
		}
		out.Flush()
	}
	var started int64
	go func() {
		page := int64(os.Getpagesize())
		for {
			time.Sleep(200 * time.Millisecond)
			if t := atomic.LoadInt64(&started); t != 0 && time.Since(time.Unix(0, t)) > runTimeout {
				fmt.Fprintln(os.Stderr, "watchdog: a run does not end")
				buf := make([]byte, 64<<10)
				os.Stderr.Write(buf[:runtime.Stack(buf, true)])
				os.Exit(exitWatchdog)
			}
			if b, err := os.ReadFile("/proc/self/statm"); err == nil {
				f := strings.Fields(string(b))
				if len(f) > 1 {
					if n, _ := strconv.ParseInt(f[1], 10, 64); n*page > maxRSS && !sim.RaceEnabled {
						fmt.Fprintln(os.Stderr, "memory: a run needs more than 3 GB")
						os.Exit(exitMemory)
					}
				}
			}
		}
	}()
	one := func(src *sim.Source, pol sim.Policy, verbose bool) *Result {
		atomic.StoreInt64(&started, time.Now().UnixNano())
		res := RunOnce(p, src, pol, verbose, *fTier == "thorough")
		atomic.StoreInt64(&started, 0)
		return res
	}
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<28)
	for in.Scan() {
		var j job
		if err := json.Unmarshal(in.Bytes(), &j); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(exitError)
		}
		pristine(p)
		switch j.Kind {
		case "run":
			for _, i := range j.Prelude {
				s := runSeed(p, j.Seed, i)
				one(sim.NewSearch(s), policyFor(s), false)
			}
			var src *sim.Source
			var pol sim.Policy
			if j.Choices != nil {
				src = sim.NewReplay(j.Choices)
			} else {
				s := runSeed(p, j.Seed, j.From)
				src, pol = sim.NewSearch(s), policyFor(s)
			}
			res := one(src, pol, j.Verbose)
			rep := &reply{Kind: "run", Index: j.From, Viol: res.Viol, Unsound: res.Unsound, Choices: res.Rec, Hash: res.Hash, Outcome: res.Outcome, EventsN: res.HistoryN}
			if j.Verbose {
				rep.Desc, rep.Events = res.Desc, res.History
			}
			say(rep)
		case "chunk":
			st := newStats()
			sim.Visited = [1 << 15]uint8{}
			for i := j.From; i < j.To; i++ {
				fmt.Fprintf(out, "{\"kind\":\"start\",\"index\":%d}\n", i)
				out.Flush()
				s := runSeed(p, j.Seed, i)
				wantSample := i%997 == 3
				res := one(sim.NewSearch(s), policyFor(s), wantSample)
				st.Runs++
				st.Evals += res.Evals
				st.Steps += res.Steps
				st.SimTime += res.SimTime
				st.Switches += res.Switches
				st.Preempts += res.Preempts
				st.Digest += sim.Mix(res.Hash, uint64(i))
				st.Outcomes[res.Outcome]++
				for k, v := range res.Faults {
					st.Faults[k] += v
				}
				if res.Nontriv {
					st.Nontriv++
					st.Hashes = append(st.Hashes, res.Hash)
					st.IHashes = append(st.IHashes, res.IHash)
					if wantSample {
						st.Samples = append(st.Samples, fmt.Sprintf("run %d (seed %d): %s", i, s, clip(res.Desc, 1500)))
					}
				}
				if res.Viol != nil {
					say(&reply{Kind: "viol", Index: i, Viol: res.Viol, Choices: res.Rec, Hash: res.Hash})
					break
				}
				if res.Unsound != "" {
					say(&reply{Kind: "unsound", Index: i, Unsound: res.Unsound})
					break
				}
				if i%50 == 7 && !sim.RaceEnabled {
					st.SelfTest++
					again := one(sim.NewReplay(res.Rec), sim.Policy{}, false)
					if again.Hash != res.Hash || again.Viol != nil {
						say(&reply{Kind: "unsound", Index: i, Unsound: fmt.Sprintf("the replay of run %d differs (hash %x / %x, %d / %d events)", i, res.Hash, again.Hash, res.HistoryN, again.HistoryN)})
						break
					}
				}
			}
			for i, v := range sim.Visited {
				if v != 0 {
					st.Sites = append(st.Sites, i)
				}
			}
			say(&reply{Kind: "done", Index: j.From, Stats: st})
		}
	}
}

// ---------------------------------------------------------------------------------------------------------------
// Worker processes as seen by the parent

type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *tailBuf
	last   int
}

type tailBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.b.Len() < 1<<20 {
		t.b.Write(p)
	}
	return len(p), nil
}

func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.b.String()
}

func startProc(p *Prop, race bool, tier string) (*proc, error) {
	bin, err := os.Executable()
	if err != nil {
		return nil, err
	}
	if race {
		bin = *fRaceBin
	}
	c := exec.Command(bin, "-serve", "-prop", p.ID, "-tier", tier)
	c.Env = append(os.Environ(), "GORACE=halt_on_error=0 history_size=4", "GOTRACEBACK=single")
	pr := &proc{cmd: c, stderr: &tailBuf{}, last: -1}
	c.Stderr = pr.stderr
	if pr.in, err = c.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	pr.out = bufio.NewReaderSize(o, 1<<16)
	return pr, c.Start()
}

func (pr *proc) send(j *job) error {
	b, err := json.Marshal(j)
	if err != nil {
		return err
	}
	_, err = pr.in.Write(append(b, '\n'))
	return err
}

// next reads one reply; a dead process gives a reply with Died set.
func (pr *proc) next() *reply {
	for {
		line, err := pr.out.ReadBytes('\n')
		if err != nil {
			werr := pr.cmd.Wait()
			d := "exited"
			if werr != nil {
				d = werr.Error()
			}
			return &reply{Kind: "died", Index: pr.last, Died: d, Stderr: pr.stderr.String()}
		}
		var r reply
		if err := json.Unmarshal(line, &r); err != nil {
			continue
		}
		if r.Kind == "start" {
			pr.last = r.Index
			continue
		}
		return &r
	}
}

func (pr *proc) stop() {
	pr.in.Close()
	pr.cmd.Process.Kill()
	pr.cmd.Wait()
}

// deathClass turns the way a process died into a violation, or nil if it says nothing about the code.
func deathClass(r *reply) *Violation {
	i := strings.Index(r.Stderr, "goroutine stack exceeds")
	j := strings.Index(r.Stderr, "fatal error: ")
	switch {
	case strings.Contains(r.Stderr, "watchdog: a run does not end"):
		return nil
	case strings.Contains(r.Stderr, "memory: a run needs more"):
		return &Violation{"process-death", "the process needs more than 3 GB of memory"}
	case i >= 0:
		return &Violation{"process-death", "the process dies of a stack overflow\n" + clip(trimStack(r.Stderr), 1200)}
	case j >= 0 && !strings.Contains(r.Stderr[j:], "all goroutines are asleep"):
		k := strings.IndexByte(r.Stderr[j:], '\n')
		if k < 0 {
			k = len(r.Stderr) - j
		}
		return &Violation{"process-death", "the process dies: " + r.Stderr[j:j+k]}
	case strings.Contains(r.Died, "signal: killed"):
		return &Violation{"process-death", "the process was killed (out of memory)"}
	}
	return nil
}

// exec1 executes one run in a fresh process.
func exec1(p *Prop, race bool, tier string, j *job) *reply {
	pr, err := startProc(p, race, tier)
	if err != nil {
		return &reply{Kind: "died", Died: err.Error()}
	}
	defer pr.stop()
	j.Kind = "run"
	if err := pr.send(j); err != nil {
		return &reply{Kind: "died", Died: err.Error()}
	}
	r := pr.next()
	if r.Kind == "died" {
		r.Viol = deathClass(r)
	} else if r.Viol != nil && race {
		r.Stderr = pr.stderr.String()
	}
	return r
}

// ---------------------------------------------------------------------------------------------------------------
// Search

type found struct {
	race    bool
	index   int
	chunk   int
	viol    *Violation
	choices *sim.Choices
	stderr  string
}

func search(p *Prop) int {
	t0 := time.Now()
	thor := *fTier == "thorough"
	total := newStats()
	hashes, ihashes := map[uint64]bool{}, map[uint64]bool{}
	sites := map[int]bool{}
	var samples []string
	var mu sync.Mutex
	var finds []found
	var problems []string
	raceRuns := 0

	phase := func(race bool, runs int, deadline time.Time, base int) {
		next := base
		stop := false
		var wg sync.WaitGroup
		workers := *fWorkers
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var pr *proc
				defer func() {
					if pr != nil {
						pr.stop()
					}
				}()
				for {
					mu.Lock()
					if stop || next >= base+runs || time.Now().After(deadline) {
						mu.Unlock()
						return
					}
					from := next
					to := from + chunkSize
					if race {
						to = from + chunkSize/4
					}
					if to > base+runs {
						to = base + runs
					}
					next = to
					mu.Unlock()
					if pr == nil {
						var err error
						if pr, err = startProc(p, race, *fTier); err != nil {
							mu.Lock()
							problems = append(problems, "cannot start a worker: "+err.Error())
							stop = true
							mu.Unlock()
							return
						}
					}
					if err := pr.send(&job{Kind: "chunk", From: from, To: to, Seed: *fSeed}); err != nil {
						mu.Lock()
						problems = append(problems, "cannot talk to a worker: "+err.Error()+"\n"+clip(pr.stderr.String(), 3000))
						stop = true
						mu.Unlock()
						return
					}
					for done := false; !done; {
						r := pr.next()
						mu.Lock()
						switch r.Kind {
						case "viol":
							fd := found{race: race, index: r.Index, chunk: from, viol: r.Viol, choices: r.Choices}
							if race {
								fd.stderr = pr.stderr.String()
							}
							finds = append(finds, fd)
							stop = true
						case "unsound":
							problems = append(problems, fmt.Sprintf("run %d: %s", r.Index, r.Unsound))
							if len(problems) > 20 {
								stop = true
							}
						case "died":
							v := deathClass(r)
							if v == nil {
								problems = append(problems, fmt.Sprintf("worker died in run %d: %s\n%s", r.Index, r.Died, clip(r.Stderr, 6000)))
							} else {
								finds = append(finds, found{race: race, index: r.Index, chunk: from, viol: v})
							}
							stop = true
							pr = nil
							done = true
						case "done":
							total.add(r.Stats)
							if race {
								raceRuns += r.Stats.Runs
							}
							for _, h := range r.Stats.Hashes {
								hashes[h] = true
							}
							for _, h := range r.Stats.IHashes {
								ihashes[h] = true
							}
							for _, s := range r.Stats.Sites {
								sites[s] = true
							}
							if len(samples) < 4 {
								samples = append(samples, r.Stats.Samples...)
							}
							done = true
						}
						mu.Unlock()
					}
				}
			}()
		}
		wg.Wait()
	}

	runs, raceN := p.Quick, p.Race
	limit := 400 * time.Second
	if thor {
		limit = time.Duration(600) * time.Second
		runs, raceN = 1<<30, 1<<30
	}
	if *fRuns > 0 {
		runs = *fRuns
		raceN = 0
		if p.Race > 0 && *fRaceBin != "" {
			raceN = runs / 4
		}
	}
	if *fFor > 0 {
		limit = *fFor
		runs, raceN = 1<<30, 1<<30
	}
	if p.Race == 0 || *fRaceBin == "" {
		raceN = 0
	}
	main := limit
	if raceN > 0 && (thor || *fFor > 0) {
		main = limit * 2 / 3
	}
	phase(false, runs, t0.Add(main), 0)
	if raceN > 0 && len(finds) == 0 {
		phase(true, raceN, t0.Add(limit), 1<<31)
	}

	searchWall := time.Since(t0)
	if *fHashes {
		fmt.Printf("digest %x runs %d\n", total.Digest, total.Runs)
	}
	code := 0
	var violMsg string
	violations := 0
	if len(finds) > 0 {
		sort.Slice(finds, func(i, j int) bool { return finds[i].index < finds[j].index })
		ok := false
		for _, f := range finds {
			path, msg, err := confirm(p, f)
			if err != nil {
				problems = append(problems, err.Error())
				continue
			}
			ok = true
			violations = 1
			violMsg = msg
			fmt.Printf("%s\n", printable(msg))
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			break
		}
		if ok {
			code = exitViolation
			problems = nil
		}
	}
	if len(problems) > 0 {
		for _, s := range problems {
			fmt.Fprintln(os.Stderr, "harness problem:", printable(s))
		}
		code = exitError
	}
	if total.Runs == 0 && code == 0 {
		fmt.Fprintln(os.Stderr, "harness problem: nothing was executed")
		code = exitError
	}
	if *fEvidence != "" {
		if err := writeEvidence(p, total, hashes, ihashes, sites, samples, raceRuns, searchWall, time.Since(t0), violations, violMsg); err != nil {
			fmt.Fprintln(os.Stderr, "cannot write the evidence file:", err)
			return exitError
		}
	}
	if code == 0 {
		fmt.Printf("%s: held in %d simulated runs (%d in the race-detector build), %d evaluations, %d distinct non-trivial histories, %.0f simulated s, %.1f s\n", p.ID, total.Runs, raceRuns, total.Evals, len(hashes), float64(total.SimTime)/1e9, time.Since(t0).Seconds())
	}
	return code
}

// replayFile is what a violation is stored as.
type replayFile struct {
	Property  string       `json:"property"`
	Class     string       `json:"class"`
	Message   string       `json:"message"`
	Tier      string       `json:"tier"`
	Race      bool         `json:"race_build"`
	Seed      int64        `json:"seed"`
	Run       int          `json:"run"`
	RunSeed   uint64       `json:"run_seed"`
	Prelude   []int        `json:"prelude,omitempty"`
	Minimised bool         `json:"minimised"`
	Replays   int          `json:"minimiser_replays"`
	Original  [3]int       `json:"original_choices"`
	Choices   *sim.Choices `json:"choices"`
	NoChoices bool         `json:"search_run,omitempty"` // the process dies before it can report its choices: re-execute the run from its seed
	Hash      string       `json:"history_hash"`
	Workload  []string     `json:"workload"`
	History   []string     `json:"history"`
	Stderr    []string     `json:"stderr,omitempty"`
}

func eventLines(ev []sim.Event, n, max int) []string {
	var out []string
	for i, e := range ev {
		if i >= max {
			break
		}
		out = append(out, fmt.Sprintf("#%d t=%.3fms g%d %s %s %d %d", e.Seq, float64(e.T)/1e6, e.G, e.Kind, e.Arg, e.N, e.M))
	}
	if n > len(out) {
		out = append(out, fmt.Sprintf("... %d more events", n-len(out)))
	}
	return out
}

func printHistory(w io.Writer, r *Result, max int) {
	for _, l := range eventLines(r.History, r.HistoryN, max) {
		fmt.Fprintln(w, l)
	}
}

// confirm reproduces a violation in a fresh process, minimises it and writes the replay file.
func confirm(p *Prop, f found) (string, string, error) {
	mk := func(c *sim.Choices, prelude []int, verbose bool) *job {
		return &job{From: f.index, Seed: *fSeed, Choices: c, Prelude: prelude, Verbose: verbose}
	}
	same := func(r *reply) bool { return r.Viol != nil && r.Viol.Class == f.viol.Class }
	var prelude []int
	r := exec1(p, f.race, *fTier, mk(f.choices, nil, false))
	for i := 0; i < 4 && f.race && !same(r); i++ { // the race detector's own memory is bounded
		r = exec1(p, f.race, *fTier, mk(f.choices, nil, false))
	}
	if !same(r) {
		for i := f.chunk; i < f.index; i++ {
			prelude = append(prelude, i)
		}
		r = exec1(p, f.race, *fTier, mk(f.choices, prelude, false))
		if !same(r) {
			return "", "", fmt.Errorf("run %d reported %q (%s), which does not come back in a fresh process (%+v %s)\n%s", f.index, f.viol.Class, clip(f.viol.Msg, 500), r.Viol, r.Died, clip(f.stderr, 4000))
		}
	}
	rf := &replayFile{Property: p.ID, Class: f.viol.Class, Tier: *fTier, Race: f.race, Seed: *fSeed, Run: f.index, RunSeed: runSeed(p, *fSeed, f.index), Prelude: prelude}
	cur := f.choices
	if cur == nil {
		cur = r.Choices
	}
	if cur == nil {
		rf.NoChoices = true
	} else {
		rf.Original = [3]int{len(cur.Work), len(cur.Env), len(cur.Sched)}
		if !*fMut {
			var n int
			cur, n = minimise(p, f, cur, prelude)
			rf.Minimised, rf.Replays = true, n
		}
	}
	rf.Choices = cur
	// twice: the replay must be exact
	a := exec1(p, f.race, *fTier, mk(cur, prelude, true))
	b := exec1(p, f.race, *fTier, mk(cur, prelude, true))
	if !same(a) || !same(b) || a.Hash != b.Hash {
		return "", "", fmt.Errorf("the replay of run %d is not exact: %+v hash %x, %+v hash %x", f.index, a.Viol, a.Hash, b.Viol, b.Hash)
	}
	rf.Message = a.Viol.Msg
	if i := strings.Index(a.Stderr, "WARNING: DATA RACE"); i >= 0 && f.viol.Class == "data-race" {
		rf.Message += "\n" + clip(a.Stderr[i:], 2500)
	}
	rf.Hash = fmt.Sprintf("%016x", a.Hash)
	rf.Workload = strings.Split(strings.TrimRight(a.Desc, "\n"), "\n")
	rf.History = eventLines(a.Events, a.EventsN, 1500)
	if a.Stderr != "" {
		rf.Stderr = strings.Split(clip(a.Stderr, 8000), "\n")
	}
	os.MkdirAll(*fReplays, 0o755)
	path := filepath.Join(*fReplays, fmt.Sprintf("%s-%s-%d-%d.json", p.ID, *fTier, *fSeed, f.index))
	bts, err := json.MarshalIndent(rf, "", " ")
	if err != nil {
		return "", "", err
	}
	if err := os.WriteFile(path, append(bts, '\n'), 0o644); err != nil {
		return "", "", err
	}
	return path, fmt.Sprintf("%s [%s] run %d, seed %d, race build %v: %s\n--- minimised workload\n%s", p.ID, f.viol.Class, f.index, *fSeed, f.race, clip(rf.Message, 3000), clip(a.Desc, 3000)), nil
}

// minimise shrinks the choices while the same class of violation persists.
func minimise(p *Prop, f found, c *sim.Choices, prelude []int) (*sim.Choices, int) {
	budget := 25 * time.Second
	if f.race {
		budget = 40 * time.Second
	}
	deadline := time.Now().Add(budget)
	n := 0
	fresh := f.race || f.viol.Class == "process-death" || len(prelude) > 0
	var pr *proc
	defer func() {
		if pr != nil {
			pr.stop()
		}
	}()
	try := func(x *sim.Choices) *sim.Choices {
		if time.Now().After(deadline) || n > 3000 {
			return nil
		}
		n++
		j := &job{Kind: "run", From: f.index, Seed: *fSeed, Choices: x, Prelude: prelude}
		var r *reply
		if fresh {
			r = exec1(p, f.race, *fTier, j)
		} else {
			if pr == nil {
				var err error
				if pr, err = startProc(p, false, *fTier); err != nil {
					return nil
				}
			}
			if pr.send(j) != nil {
				pr = nil
				return nil
			}
			r = pr.next()
			if r.Kind == "died" {
				pr = nil
				return nil
			}
		}
		if r.Viol != nil && r.Viol.Class == f.viol.Class && r.Unsound == "" {
			if r.Choices != nil {
				return r.Choices
			}
			return x
		}
		return nil
	}
	size := func(x *sim.Choices) (int, int) {
		s := 0
		for _, v := range x.Work {
			s += v
		}
		return len(x.Work)*4 + (len(x.Env)+len(x.Sched))*3, s
	}
	cur := c
	accept := func(x *sim.Choices) bool {
		got := try(x)
		if got == nil {
			return false
		}
		a, as := size(got)
		b, bs := size(cur)
		if a < b || a == b && as < bs {
			cur = got
			return true
		}
		return false
	}
	for round := 0; round < 8; round++ {
		b0, s0 := size(cur)
		// schedule and environment first
		if len(cur.Sched) > 0 {
			x := cur.Clone()
			x.Sched = nil
			accept(x)
		}
		if len(cur.Env) > 0 {
			x := cur.Clone()
			x.Env = nil
			accept(x)
		}
		shrinkDec := func(get func(c *sim.Choices) *[]sim.Decision) {
			for k := len(*get(cur)) / 2; k >= 1; k /= 2 {
				for at := 0; at < len(*get(cur)); {
					x := cur.Clone()
					d := get(x)
					end := at + k
					if end > len(*d) {
						end = len(*d)
					}
					*d = append((*d)[:at:at], (*d)[end:]...)
					if !accept(x) {
						at += k
					}
					if time.Now().After(deadline) {
						return
					}
				}
			}
		}
		shrinkDec(func(c *sim.Choices) *[]sim.Decision { return &c.Sched })
		shrinkDec(func(c *sim.Choices) *[]sim.Decision { return &c.Env })
		// workload: truncate, delete, zero, lower
		for k := len(cur.Work) / 2; k >= 1; k /= 2 {
			for len(cur.Work) > k {
				x := cur.Clone()
				x.Work = x.Work[:len(x.Work)-k]
				if !accept(x) {
					break
				}
			}
		}
		for k := 16; k >= 1; k /= 2 {
			for at := 0; at < len(cur.Work); {
				x := cur.Clone()
				end := at + k
				if end > len(x.Work) {
					end = len(x.Work)
				}
				x.Work = append(x.Work[:at:at], x.Work[end:]...)
				if !accept(x) {
					at += k
				}
				if time.Now().After(deadline) {
					return cur, n
				}
			}
		}
		for k := 16; k >= 1; k /= 2 {
			for at := 0; at < len(cur.Work); at += k {
				x := cur.Clone()
				any := false
				for i := at; i < at+k && i < len(x.Work); i++ {
					if x.Work[i] != 0 {
						any = true
					}
					x.Work[i] = 0
				}
				if any {
					accept(x)
				}
				if time.Now().After(deadline) {
					return cur, n
				}
			}
		}
		for at := 0; at < len(cur.Work); at++ {
			for at < len(cur.Work) && cur.Work[at] > 1 {
				x := cur.Clone()
				x.Work[at] /= 2
				if !accept(x) {
					x = cur.Clone()
					x.Work[at]--
					if !accept(x) {
						break
					}
				}
				if time.Now().After(deadline) {
					return cur, n
				}
			}
		}
		b1, s1 := size(cur)
		if b1 == b0 && s1 == s0 {
			break
		}
	}
	return cur, n
}

// replayMain re-executes a replay file and tells whether it reproduces exactly.
func replayMain() int {
	b, err := os.ReadFile(*fReplay)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	p := propByID(rf.Property)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", rf.Property)
		return exitError
	}
	if rf.Race && *fRaceBin == "" {
		fmt.Fprintln(os.Stderr, "this replay needs the race-detector build")
		return exitError
	}
	r := exec1(p, rf.Race, rf.Tier, &job{From: rf.Run, Seed: rf.Seed, Choices: rf.Choices, Prelude: rf.Prelude, Verbose: true})
	if r.Unsound != "" {
		fmt.Fprintln(os.Stderr, r.Unsound)
		return exitError
	}
	if r.Kind == "died" && r.Viol == nil {
		fmt.Fprintln(os.Stderr, "the replay process died:", r.Died, clip(r.Stderr, 3000))
		return exitError
	}
	fmt.Print(printable(r.Desc))
	for _, l := range eventLines(r.Events, r.EventsN, 1500) {
		fmt.Println(printable(l))
	}
	if r.Viol == nil {
		fmt.Printf("the violation recorded in %s does not occur (history hash %016x, recorded %s)\n", *fReplay, r.Hash, rf.Hash)
		return 0
	}
	exact := r.Viol.Class == rf.Class && fmt.Sprintf("%016x", r.Hash) == rf.Hash
	fmt.Printf("reproduced [%s] %s\nsame class and history as recorded: %v\n", r.Viol.Class, printable(r.Viol.Msg), exact)
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, *fReplay)
	return exitViolation
}

// printable makes text safe to print: what is not printable UTF-8 is escaped.
func printable(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); {
		c, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case c == utf8.RuneError && n == 1:
			fmt.Fprintf(&sb, "\\x%02x", s[i])
		case c != '\n' && c != '\t' && !unicode.IsPrint(c):
			fmt.Fprintf(&sb, "\\u{%x}", c)
		default:
			sb.WriteString(s[i : i+n])
		}
		i += n
	}
	return sb.String()
}
