package verifsim

import (
	"runtime"
	"strings"
	"time"
	"unsafe"
)

// Goroutine states.
const (
	gRunnable = iota
	gRunning
	gBlocked
	gSleeping
	gDone
)

// G is one simulated goroutine: a real goroutine that runs only when the scheduler says so.
type G struct {
	ID      int
	Name    string
	Created string // where it was created
	Reason  string // what it is blocked on
	state   int
	wake    chan struct{}
	killed  bool
	until   int64 // wake-up time when sleeping
	seq     uint64
	prio    int
	isLib   bool // created by code under test
	Tag     int  // owner tag inherited from the creator (which caller it works for)
	joinQ   WaitQ
	joinSyn syncPt
}

// Event is one entry of the run's history.
type Event struct {
	Seq  int
	T    int64
	G    int
	Kind string
	Arg  string
	N, M int
}

// Outcome kinds of a run.
const (
	OutOK       = "ok"
	OutCrash    = "crash"
	OutDeadlock = "deadlock"
	OutSteps    = "no-progress"
	OutAbort    = "abort"
)

// Policy says how the scheduler uses its randomness when searching.
type Policy struct {
	Kind    int // 0 sequential, 1 random at operations, 2 random at operations + preemptions, 3 priorities, 4 starve
	OpProb  int // 1/OpProb: probability of switching at an operation
	Gap     int // mean number of statements between preemptions (kind 2 and 3)
	Starved int
}

// Sched is one simulation run.
type Sched struct {
	Src      *Source
	Pol      Policy
	gs       []*G
	live     []*G // those of gs that may still run, in order
	dead     int  // entries of live that have ended
	cur      *G
	now      int64
	seq      uint64
	ctl      chan struct{}
	Events   []Event
	MaxEv    int
	evN      int
	Hash     uint64
	IHash    uint64 // interleaving signature
	Switch   int    // number of context switches
	Preempts int

	Outcome     string
	Detail      string
	Stack       string
	leaked      []*G
	rootDone    bool
	RootDoneSeq int
	StepsDone   int64
	killing     bool
	endSync     int
	limitG      int

	chans   chanTable
	foreign []foreignW

	FS *FS

	// OnQuiesce is called when nothing can run; it returns true if it made progress possible.
	OnQuiesce func() bool
	// Stats
	firedK  []string
	firedV  []int
	Unsound string // a harness-level problem: reported as an error, never as a violation
	gapEnv  uint64
}

var (
	active  bool // a simulation is running and the calling goroutine is simulated
	sch     *Sched
	ySteps  int64
	yNext   int64
	yCap    int64
	yPre    int64
	Visited [1 << 15]uint8
)

// Current returns the running simulation or nil.
func Current() *Sched { return sch }

// Active tells whether a simulation runs.
func Active() bool { return active }

func (s *Sched) Now() int64 { return s.now }

// NewSched prepares a run.
func NewSched(src *Source) *Sched {
	s := &Sched{Src: src, ctl: make(chan struct{}, 1), MaxEv: 6000, Hash: 14695981039346656037, IHash: 14695981039346656037, limitG: 4000}
	s.chans.init()
	s.FS = newFS(s)
	return s
}

func fnv(h uint64, x uint64) uint64 {
	h ^= x
	h *= 1099511628211
	h ^= h >> 29
	return h
}

func fnvs(h uint64, x string) uint64 {
	for i := 0; i < len(x); i++ {
		h ^= uint64(x[i])
		h *= 1099511628211
	}
	return fnv(h, uint64(len(x)))
}

// Log appends an event to the history. It draws nothing and reads no clock.
//
//go:noinline
func (s *Sched) Log(kind, arg string, n, m int) {
	if s.killing {
		return
	}
	g := -1
	if s.cur != nil {
		g = s.cur.ID
	}
	s.evN++
	s.Hash = fnv(fnv(fnv(fnvs(fnvs(s.Hash, kind), arg), uint64(g)), uint64(n)), uint64(m))
	if len(s.Events) < s.MaxEv {
		s.Events = append(s.Events, Event{s.evN, s.now, g, kind, arg, n, m})
	}
}

// EvSeq is the number of events so far.
func (s *Sched) EvSeq() int { return s.evN }

// Count records that an event class (fault kind, rare condition) really happened.
//
//go:noinline
func (s *Sched) Count(k string) {
	for i, x := range s.firedK {
		if x == k {
			s.firedV[i]++
			return
		}
	}
	s.firedK = append(s.firedK, k)
	s.firedV = append(s.firedV, 1)
}

// Fired is the value of a counter.
func (s *Sched) Fired(k string) int {
	for i, x := range s.firedK {
		if x == k {
			return s.firedV[i]
		}
	}
	return 0
}

// Counts calls f for every counter.
func (s *Sched) Counts(f func(k string, n int)) {
	for i, k := range s.firedK {
		f(k, s.firedV[i])
	}
}

// Run executes root as the first simulated goroutine until nothing is left to run.
// maxSteps bounds the number of executed statements.
func (s *Sched) Run(maxSteps int64, root func()) {
	sch = s
	active = true
	ySteps = 0
	yCap = maxSteps
	s.setGap()
	g := s.newG("root", "harness", false)
	s.cur = g
	g.state = gRunning
	go s.body(g, func() {
		root()
		s.rootDone = true
		s.RootDoneSeq = s.evN
		s.Log("root-returned", "", 0, 0)
	})
	g.wake <- struct{}{}
	<-s.ctl
	// end of run: what is still alive is noted and unwound
	for _, g := range s.live {
		if g.isLib && g.state != gDone {
			s.leaked = append(s.leaked, g)
		}
	}
	s.killing = true
	for i := 0; i < len(s.gs); i++ {
		g := s.gs[i]
		if g.state == gDone {
			continue
		}
		g.killed = true
		s.cur = g
		g.wake <- struct{}{}
		<-s.ctl
	}
	s.StepsDone = ySteps
	s.cur = nil
	active = false
	sch = nil
	RaceAcquire(unsafe.Pointer(&s.endSync))
}

// RootDone tells whether the root function returned.
func (s *Sched) RootDone() bool { return s.rootDone }

func (s *Sched) newG(name, created string, lib bool) *G {
	g := &G{ID: len(s.gs), Name: name, Created: created, wake: make(chan struct{}, 1), state: gRunnable, isLib: lib}
	if s.cur != nil {
		g.Tag = s.cur.Tag
	}
	if s.Src.replay == nil {
		g.prio = 1000 + s.Src.sr.Intn(1000)
	}
	s.gs = append(s.gs, g)
	s.live = append(s.live, g)
	return g
}

// buried takes note of the end of a goroutine.
func (s *Sched) buried() {
	s.dead++
	if s.dead > 64 && s.dead > len(s.live)/2 {
		k := 0
		for _, g := range s.live {
			if g.state != gDone {
				s.live[k] = g
				k++
			}
		}
		s.live = s.live[:k]
		s.dead = 0
	}
}

func (s *Sched) body(g *G, f func()) {
	raceDisable()
	<-g.wake
	raceEnable()
	defer func() {
		if r := recover(); r != nil && !s.killing {
			buf := make([]byte, 16<<10)
			buf = buf[:runtime.Stack(buf, false)]
			s.crash(g, r, string(buf))
		}
		RaceRelease(unsafe.Pointer(&s.endSync))
		RaceRelease(unsafe.Pointer(&g.joinSyn))
		g.state = gDone
		s.buried()
		if s.killing {
			raceDisable()
			s.ctl <- struct{}{}
			raceEnable()
			return
		}
		if s.Outcome != "" { // crash or cap: the controller takes over
			raceDisable()
			s.ctl <- struct{}{}
			raceEnable()
			return
		}
		s.Log("exit", g.Name, g.ID, 0)
		g.joinQ.WakeAll()
		s.dispatch(g)
	}()
	if g.killed {
		return
	}
	f()
}

func (s *Sched) crash(g *G, r interface{}, stack string) {
	msg := ""
	switch x := r.(type) {
	case error:
		msg = x.Error()
	case string:
		msg = x
	default:
		msg = "panic"
	}
	if s.Outcome == "" {
		s.Outcome, s.Detail, s.Stack = OutCrash, msg, stack
		s.Log("panic", msg, g.ID, 0)
	}
}

// Abort ends the run with a harness problem.
func (s *Sched) Abort(detail string) {
	if s.killing {
		return
	}
	s.Unsound = detail
	s.Outcome = OutAbort
	s.Detail = detail
	s.cur.killed = true
	runtime.Goexit()
}

// Go starts a simulated goroutine running f (the rewritten go statement).
//
//go:noinline
func Go(f func()) {
	if !active {
		go f()
		return
	}
	goStart(f, caller(2), true)
}

// GoNamed starts a harness goroutine with an owner tag.
func GoNamed(name string, tag int, f func()) *G {
	s := sch
	n := len(s.gs)
	old := s.cur.Tag
	s.cur.Tag = tag
	me := s.cur
	goStart(f, name, false)
	me.Tag = old
	if n < len(s.gs) {
		return s.gs[n]
	}
	return nil
}

// Join waits for the end of g.
func Join(g *G) {
	if g == nil || sch == nil {
		return
	}
	for g.state != gDone {
		if Killed() {
			return
		}
		g.joinQ.Wait("join " + g.Name)
	}
	RaceAcquire(unsafe.Pointer(&g.joinSyn))
}

// CrashTag kills every goroutine with the given tag, including the running one if it carries it: a process crash.
func CrashTag(tag int) {
	s := sch
	s.Log("process-crash", "", tag, 0)
	for _, g := range s.live {
		if g.Tag == tag && g.state != gDone && g.Name != "root" {
			g.killed = true
			s.ready(g)
		}
	}
	if s.cur.killed {
		runtime.Goexit()
	}
}

// SetTag tags the current goroutine and everything it starts from now on.
func SetTag(t int) {
	if sch != nil && sch.cur != nil {
		sch.cur.Tag = t
	}
}

// CurTag returns the tag of the running goroutine.
func CurTag() int {
	if sch != nil && sch.cur != nil {
		return sch.cur.Tag
	}
	return 0
}

// CurID returns the id of the running goroutine.
func CurID() int {
	if sch != nil && sch.cur != nil {
		return sch.cur.ID
	}
	return -1
}

func goStart(f func(), created string, lib bool) {
	s := sch
	if s.cur.killed {
		return
	}
	if len(s.live)-s.dead >= s.limitG {
		s.stop(OutSteps, "more than 4000 goroutines exist at the same time (runaway)")
		return
	}
	g := s.newG(created, created, lib)
	s.Log("go", created, g.ID, 0)
	go s.body(g, f)
	s.point("go")
}

func caller(skip int) string {
	pc, _, _, ok := runtime.Caller(skip)
	if !ok {
		return "?"
	}
	f := runtime.FuncForPC(pc)
	if f == nil {
		return "?"
	}
	n := f.Name()
	if i := strings.LastIndexByte(n, '/'); i >= 0 {
		n = n[i+1:]
	}
	return n
}

// stop ends the run from the running goroutine.
func (s *Sched) stop(outcome, detail string) {
	if s.Outcome == "" {
		s.Outcome, s.Detail = outcome, detail
	}
	s.cur.killed = true
	runtime.Goexit()
}

// SetPolicy changes the scheduling policy of a searching run.
func (s *Sched) SetPolicy(p Policy) Policy {
	old := s.Pol
	s.Pol = p
	if s.Src.replay == nil {
		s.setGap()
	}
	return old
}

// setGap chooses when the next preemption point fires.
func (s *Sched) setGap() {
	yPre = 1 << 62
	if s.Src.replay == nil {
		if (s.Pol.Kind == 2 || s.Pol.Kind == 3) && s.Pol.Gap > 0 {
			yPre = ySteps + 1 + int64(s.Src.sr.Intn(2*s.Pol.Gap))
		}
	} else {
		// replay: preemptions are recorded as negative question numbers (statement counts)
		s.nextPreReplay()
	}
	yNext = yPre
	if yCap < yNext {
		yNext = yCap
	}
}

func (s *Sched) nextPreReplay() {
	src := s.Src
	for ; src.pNext < len(src.replay.Sched); src.pNext++ {
		d := src.replay.Sched[src.pNext]
		if d.I < 0 && int64(-d.I) > ySteps {
			yPre = int64(-d.I)
			return
		}
	}
}

// Y is the preemption point inserted before every statement of the code under test.
//
//go:noinline
func Y(id uint32) {
	if !active {
		return
	}
	Visited[id] = 1
	ySteps++
	if ySteps >= yNext {
		yslow()
	}
}

// Yield is an explicit preemption point.
func Yield() { Y(0) }

//go:noinline
func yslow() {
	s := sch
	if s.cur.killed {
		if ySteps > yCap+1000000 {
			runtime.Goexit()
		}
		return
	}
	if ySteps >= yCap {
		s.stop(OutSteps, "no completion within the step bound; running: "+s.cur.Name)
		return
	}
	if ySteps >= yPre {
		var alt []*G
		for _, g := range s.live {
			if g.state == gRunnable {
				alt = append(alt, g)
			}
		}
		at := ySteps
		v := 0
		if len(alt) > 0 {
			if s.Src.replay != nil {
				if n := s.Src.pNext; n < len(s.Src.replay.Sched) && s.Src.replay.Sched[n].I == -int(at) {
					v = s.Src.replay.Sched[n].V
				}
				if v > len(alt) {
					v = 1 + (v-1)%len(alt)
				}
				if v < 0 {
					v = 0
				}
			} else if s.Pol.Kind == 3 {
				// priority change point: the running goroutine drops below everybody
				s.cur.prio = s.Src.sr.Intn(1000) - 1000*(1+s.Preempts)
				v = 1 + s.best(alt)
			} else {
				v = 1 + s.Src.sr.Intn(len(alt))
			}
		}
		s.setGap()
		if v > 0 {
			s.Src.rec.Sched = append(s.Src.rec.Sched, Decision{-int(at), v})
			s.Preempts++
			s.Log("preempt", "", alt[v-1].ID, 0)
			me := s.cur
			me.state = gRunnable
			s.switchTo(me, alt[v-1])
		}
	}
}

func (s *Sched) best(gs []*G) int {
	b := 0
	for i, g := range gs {
		if g.prio > gs[b].prio {
			b = i
		}
	}
	return b
}

// point is a scheduling point at an operation: the scheduler may let somebody else run first.
func (s *Sched) point(kind string) {
	me := s.cur
	if me.killed {
		return
	}
	s.limits()
	n := 0
	for _, g := range s.live {
		if g.state == gRunnable {
			n++
		}
	}
	if n == 0 {
		return
	}
	i := s.Src.si
	s.Src.si++
	alt := make([]*G, 0, n)
	for _, g := range s.live {
		if g.state == gRunnable {
			alt = append(alt, g)
		}
	}
	v := 0
	if s.Src.replay != nil {
		v = s.Src.schedReplay(i)
		if v > n {
			v = 1 + (v-1)%n
		}
	} else {
		r := s.Src.sr
		switch s.Pol.Kind {
		case 0:
		case 1, 2:
			p := s.Pol.OpProb
			if p < 1 {
				p = 1
			}
			if r.Intn(p) == 0 {
				v = r.Intn(n + 1)
			}
		case 3:
			b := s.best(alt)
			if alt[b].prio > me.prio {
				v = 1 + b
			}
		case 4: // starve the goroutines with a given parity
			if me.ID%2 == s.Pol.Starved {
				for j, g := range alt {
					if g.ID%2 != s.Pol.Starved {
						v = 1 + j
						break
					}
				}
			}
		}
	}
	if v > 0 {
		s.Src.rec.Sched = append(s.Src.rec.Sched, Decision{i, v})
		me.state = gRunnable
		s.switchTo(me, alt[v-1])
	}
}

func (src *Source) schedReplay(i int) int {
	for src.sNext < len(src.replay.Sched) && (src.replay.Sched[src.sNext].I < i) {
		src.sNext++
	}
	if src.sNext < len(src.replay.Sched) && src.replay.Sched[src.sNext].I == i {
		v := src.replay.Sched[src.sNext].V
		src.sNext++
		if v < 0 {
			v = 0
		}
		return v
	}
	return 0
}

func (s *Sched) limits() {
	ySteps += 4
	if ySteps >= yCap {
		s.stop(OutSteps, "no completion within the step bound; running: "+s.cur.Name)
	}
}

// switchTo hands control from me (already not running) to g and parks me until it is chosen again.
func (s *Sched) switchTo(me, g *G) {
	if g == me {
		me.state = gRunning
		return
	}
	s.Switch++
	s.IHash = fnv(fnv(s.IHash, uint64(g.ID)), uint64(s.evN))
	g.state = gRunning
	s.cur = g
	raceDisable()
	g.wake <- struct{}{}
	<-me.wake
	raceEnable()
	if me.killed {
		runtime.Goexit()
	}
}

// block parks the running goroutine until somebody makes it runnable.
func (s *Sched) block(reason string) {
	me := s.cur
	me.state = gBlocked
	me.Reason = reason
	s.limitsNoStop()
	next := s.next()
	if next == me { // became runnable through the clock or the quiescence hook
		me.state = gRunning
		return
	}
	if next == nil {
		s.ended()
		raceDisable()
		s.ctl <- struct{}{}
		<-me.wake
		raceEnable()
		if me.killed {
			runtime.Goexit()
		}
		return
	}
	s.switchTo(me, next)
}

func (s *Sched) limitsNoStop() { ySteps += 4 }

// dispatch hands control on after g ended.
func (s *Sched) dispatch(g *G) {
	next := s.next()
	if next == nil {
		s.ended()
		raceDisable()
		s.ctl <- struct{}{}
		raceEnable()
		return
	}
	s.Switch++
	s.IHash = fnv(fnv(s.IHash, uint64(next.ID)), uint64(s.evN))
	next.state = gRunning
	s.cur = next
	raceDisable()
	next.wake <- struct{}{}
	raceEnable()
}

// ended is called when nothing can run any more.
func (s *Sched) ended() {
	if s.Outcome != "" {
		return
	}
	if s.rootDone {
		s.Outcome = OutOK
		return
	}
	s.Outcome = OutDeadlock
	s.Detail = s.BlockedList()
}

// BlockedList describes the goroutines that cannot run.
func (s *Sched) BlockedList() string {
	var b strings.Builder
	for _, g := range s.live {
		if g.state == gBlocked || g.state == gSleeping {
			b.WriteString("[" + g.Name + ": " + g.Reason + "]")
		}
	}
	return b.String()
}

// Leaked lists the goroutines of the code under test that were still blocked at the end of the run.
func (s *Sched) Leaked() []*G { return s.leaked }

// next picks the goroutine to run when the current one cannot continue.
func (s *Sched) next() *G {
	for {
		var alt []*G
		for _, g := range s.live {
			if g.state == gRunnable {
				alt = append(alt, g)
			}
		}
		if len(alt) > 0 {
			if len(alt) == 1 {
				return alt[0]
			}
			i := s.Src.si
			s.Src.si++
			v := 0
			if s.Src.replay != nil {
				v = s.Src.schedReplay(i) % len(alt)
			} else {
				switch s.Pol.Kind {
				case 0:
				case 1, 2:
					v = s.Src.sr.Intn(len(alt))
				case 3:
					v = s.best(alt)
				case 4:
					for j, g := range alt {
						if g.ID%2 != s.Pol.Starved {
							v = j
							break
						}
					}
				}
			}
			if v > 0 {
				s.Src.rec.Sched = append(s.Src.rec.Sched, Decision{i, v})
			}
			return alt[v]
		}
		// nothing runnable: advance the clock
		var first *G
		for _, g := range s.live {
			if g.state == gSleeping && (first == nil || g.until < first.until || (g.until == first.until && g.seq < first.seq)) {
				first = g
			}
		}
		if first != nil {
			if first.until > s.now {
				s.now = first.until
			}
			first.state = gRunnable
			continue
		}
		if s.pollForeign() {
			continue
		}
		if s.OnQuiesce != nil && s.OnQuiesce() {
			continue
		}
		return nil
	}
}

// ready makes g runnable.
func (s *Sched) ready(g *G) {
	if g.state == gBlocked || g.state == gSleeping {
		g.state = gRunnable
		g.Reason = ""
	}
}

// Sleep lets virtual time pass for the running goroutine.
//
//go:noinline
func Sleep(d time.Duration) {
	if !active {
		time.Sleep(d)
		return
	}
	s := sch
	me := s.cur
	if me.killed {
		return
	}
	if d <= 0 {
		s.point("sleep0")
		return
	}
	s.seq++
	me.seq = s.seq
	me.until = s.now + int64(d)
	me.state = gSleeping
	me.Reason = "sleep"
	next := s.next()
	if next == nil {
		me.state = gRunning
		return
	}
	if next == me {
		me.state = gRunning
		return
	}
	s.switchTo(me, next)
}

// WaitQ is a queue of parked goroutines for harness and shim primitives.
type WaitQ struct{ gs []*G }

// Wait parks the running goroutine on q.
func (q *WaitQ) Wait(reason string) {
	s := sch
	if s == nil || s.cur.killed {
		return
	}
	q.gs = append(q.gs, s.cur)
	s.block(reason)
}

// WakeAll makes all goroutines on q runnable.
func (q *WaitQ) WakeAll() {
	if sch == nil {
		return
	}
	for _, g := range q.gs {
		sch.ready(g)
	}
	q.gs = q.gs[:0]
}

// WakeOne makes the first goroutine on q runnable.
func (q *WaitQ) WakeOne() bool {
	if sch == nil || len(q.gs) == 0 {
		return false
	}
	g := q.gs[0]
	q.gs = append(q.gs[:0], q.gs[1:]...)
	sch.ready(g)
	return true
}

// Len is the number of parked goroutines.
func (q *WaitQ) Len() int { return len(q.gs) }

// Point is a scheduling point for harness code and shims.
func Point(kind string) {
	if active && sch != nil {
		sch.point(kind)
	}
}

// Killed tells whether the running goroutine is being unwound at the end of the run.
func Killed() bool { return sch != nil && (sch.killing || sch.cur == nil || sch.cur.killed) }

// Steps is the number of statements executed so far.
func Steps() int64 { return ySteps }
