package main

import (
	"fmt"
	"runtime/debug"
	"strings"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
	"github.com/nginxinc/nginx-go-crossplane/internal/generator"
	sim "github.com/nginxinc/nginx-go-crossplane/internal/verifsim"
)

// Prop is the scenario family that decides one property.
type Prop struct {
	ID      string
	Fn      func(r *R)
	Quick   int  // runs of the quick tier
	Race    int  // additional runs in the race-detector build (quick tier)
	Thor    int  // multiplier for the thorough tier
	UsesGen bool // resets the generator package too
	Rule    string
	Assume  []string
	Real    []string
	Stub    []string
}

// Violation is what a run found.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// R is one simulation run.
type R struct {
	P       *Prop
	S       *sim.Sched
	Src     *sim.Source
	FS      *sim.FS
	Viol    *Violation
	Unsound string
	Verbose bool
	Thor    bool
	desc    strings.Builder
	ran     bool

	Nontriv   bool
	MaxSteps  int64
	Evals     int // number of property evaluations (comparisons against the oracle)
	Bytes     int
	NoGeneric bool                   // the scenario judges crashes and hangs itself
	onUser    func()                 // called whenever code supplied by the caller runs: callbacks, readers, writers
	shareGlob bool                   // the Glob of the options hands out the same slice every time
	sharedErr *crossplane.ParseError // the error value every run of the "extp" lexer returns
}

// Fail records the first violation.
func (r *R) Fail(class, format string, a ...interface{}) {
	if r.Viol == nil {
		r.Viol = &Violation{class, fmt.Sprintf(format, a...)}
		if sim.Active() {
			r.S.Log("VIOLATION", class, 0, 0)
		}
	}
}

// fired tells how often a fault of a kind has struck so far.
func (r *R) fired(kind string) int {
	n := 0
	r.S.Counts(func(k string, v int) {
		if k == kind {
			n = v
		}
	})
	return n
}

// user marks a place where the library has called code of its user.
func (r *R) user() {
	if r.onUser != nil && !sim.Killed() {
		r.onUser()
	}
}

// Desc adds a line to the human-readable description of the workload.
func (r *R) Desc(format string, a ...interface{}) {
	if r.Verbose {
		fmt.Fprintf(&r.desc, format+"\n", a...)
	}
}

// Exec runs root under the simulator.
func (r *R) Exec(root func()) {
	if r.ran {
		panic("Exec called twice")
	}
	r.ran = true
	if r.MaxSteps == 0 {
		r.MaxSteps = 3000000 + int64(r.Bytes)*3000
	}
	r.S.Run(r.MaxSteps, root)
	if r.S.Unsound != "" {
		r.Unsound = r.S.Unsound
	}
	if r.NoGeneric {
		return
	}
	switch r.S.Outcome {
	case sim.OutOK:
	case sim.OutCrash:
		r.Fail("crash", "panic: %s\n%s", r.S.Detail, trimStack(r.S.Stack))
	case sim.OutDeadlock:
		r.Fail("deadlock", "the call never returns, everything is blocked: %s", r.S.Detail)
	case sim.OutSteps:
		r.Fail("no-progress", "the call does not finish: %s", r.S.Detail)
	}
}

func trimStack(s string) string {
	var out []string
	ls := strings.Split(s, "\n")
	for i := 0; i < len(ls); i++ {
		l := ls[i]
		if strings.Contains(l, "nginx-go-crossplane") && !strings.Contains(l, "verifsim") {
			if i := strings.Index(l, " +0x"); i > 0 {
				l = l[:i]
			}
			if i := strings.Index(l, "(0x"); i > 0 {
				l = l[:i]
			}
			if i := strings.Index(l, "({0x"); i > 0 {
				l = l[:i]
			}
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, "\n")
}

// Result is the outcome of one run.
type Result struct {
	Viol     *Violation
	Unsound  string
	Hash     uint64
	IHash    uint64
	Nontriv  bool
	Evals    int
	Steps    int64
	SimTime  int64
	Switches int
	Preempts int
	Faults   map[string]int
	Desc     string
	History  []sim.Event
	HistoryN int
	Rec      *sim.Choices
	Outcome  string
	G        int
}

func policyFor(seed uint64) sim.Policy {
	r := sim.NewRand(sim.Mix(seed, 77))
	p := sim.Policy{}
	switch r.Intn(10) {
	case 0:
		p.Kind = 0
	case 1, 2:
		p.Kind, p.OpProb = 1, 1+r.Intn(4)
	case 3, 4, 5:
		p.Kind, p.OpProb, p.Gap = 2, 1+r.Intn(8), []int{3, 10, 40, 200, 1000}[r.Intn(5)]
	case 6, 7, 8:
		p.Kind, p.Gap = 3, []int{20, 100, 500, 3000}[r.Intn(4)]
	case 9:
		p.Kind, p.Starved = 4, r.Intn(2)
	}
	return p
}

// RunOnce executes one run. seed only matters when src searches.
func RunOnce(p *Prop, src *sim.Source, pol sim.Policy, verbose, thor bool) *Result {
	crossplane.VerifReset(false)
	if p.UsesGen {
		generator.VerifReset(false)
	}
	s := sim.NewSched(src)
	s.Pol = pol
	seven := 7
	r := &R{sharedErr: &crossplane.ParseError{What: "shared", Line: &seven}, P: p, S: s, Src: src, FS: s.FS, Verbose: verbose, Thor: thor}
	races := sim.RaceErrors()
	func() {
		defer func() {
			if x := recover(); x != nil {
				r.Unsound = fmt.Sprintf("harness panic: %v\n%s", x, debug.Stack())
			}
		}()
		p.Fn(r)
	}()
	crossplane.SetTokenChanCap(crossplane.TokenChanCap)
	if n := sim.RaceErrors() - races; n > 0 && r.Viol == nil {
		r.Viol = &Violation{"data-race", fmt.Sprintf("%d data race(s) reported by the race detector", n)}
	}
	res := &Result{Viol: r.Viol, Unsound: r.Unsound, Hash: s.Hash, IHash: s.IHash, Nontriv: r.Nontriv, Evals: r.Evals,
		Steps: s.StepsDone, SimTime: s.Now(), Switches: s.Switch, Preempts: s.Preempts, Desc: r.desc.String(),
		History: s.Events, HistoryN: s.EvSeq(), Rec: src.Recorded(), Outcome: s.Outcome}
	res.Faults = map[string]int{}
	s.Counts(func(k string, n int) { res.Faults[k] += n })
	return res
}
