// Package verifsim is the deterministic simulator the instrumented build of crossplane runs under.
//
// It is compiled without race instrumentation (see build.sh): its own state is handed from goroutine to
// goroutine by the scheduler and must stay invisible to the race detector.
package verifsim

// Rand is splitmix64.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{s: seed} }

func (r *Rand) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Mix derives an independent seed.
func Mix(a, b uint64) uint64 {
	r := Rand{s: a ^ (b+0x632be59bd9b4e019)*0x9e3779b97f4a7c15}
	r.Uint64()
	return r.Uint64()
}

// Decision is one non-default choice of a sparse stream: at the I-th question the answer was V.
type Decision struct {
	I int `json:"i"`
	V int `json:"v"`
}

// Choices is everything that decides a run besides the code: the replay file stores exactly this.
type Choices struct {
	Work  []int      `json:"work"`  // workload: dense; an exhausted stream answers 0
	Env   []Decision `json:"env"`   // environment: read sizes, latencies, faults, orders; sparse, default 0
	Sched []Decision `json:"sched"` // scheduling: sparse, default 0 = keep running / lowest id
}

// Clone copies c.
func (c *Choices) Clone() *Choices {
	return &Choices{
		Work:  append([]int(nil), c.Work...),
		Env:   append([]Decision(nil), c.Env...),
		Sched: append([]Decision(nil), c.Sched...),
	}
}

// Source answers the questions of a run, either from a PRNG (recording the answers) or from recorded choices.
type Source struct {
	replay *Choices // nil when searching
	rec    Choices
	wr     *Rand
	er     *Rand
	sr     *Rand

	wi, ei, si   int // question counters
	eNext, sNext int // next recorded decision in replay
	pNext        int // next recorded preemption in replay
}

func NewSearch(seed uint64) *Source {
	return &Source{wr: NewRand(Mix(seed, 1)), er: NewRand(Mix(seed, 2)), sr: NewRand(Mix(seed, 3))}
}

func NewReplay(c *Choices) *Source { return &Source{replay: c} }

// Recorded returns the choices made so far in canonical form.
func (s *Source) Recorded() *Choices {
	c := s.rec.Clone()
	n := len(c.Work)
	for n > 0 && c.Work[n-1] == 0 {
		n--
	}
	c.Work = c.Work[:n]
	return c
}

func (s *Source) Questions() (w, e, sc int) { return s.wi, s.ei, s.si }

// Draw answers a workload question with a number in [0,n).
func (s *Source) Draw(n int) int {
	if n <= 1 {
		return 0
	}
	v := 0
	if s.replay != nil {
		if s.wi < len(s.replay.Work) {
			v = s.replay.Work[s.wi]
			if v < 0 || v >= n {
				if v < 0 {
					v = 0
				} else {
					v %= n
				}
			}
		}
	} else {
		v = s.wr.Intn(n)
	}
	s.wi++
	s.rec.Work = append(s.rec.Work, v)
	return v
}

// DrawW answers a workload question from a weighted distribution over [0,len(weights)).
func (s *Source) DrawW(weights ...int) int {
	n := len(weights)
	v := 0
	if s.replay != nil {
		if s.wi < len(s.replay.Work) {
			v = s.replay.Work[s.wi]
			if v < 0 {
				v = 0
			}
			v %= n
		}
	} else {
		t := 0
		for _, w := range weights {
			t += w
		}
		x := s.wr.Intn(t)
		for i, w := range weights {
			if x < w {
				v = i
				break
			}
			x -= w
		}
	}
	s.wi++
	s.rec.Work = append(s.rec.Work, v)
	return v
}

// Chance is a workload coin with probability num/den of true (0 = false is the simple answer).
func (s *Source) Chance(num, den int) bool { return s.DrawW(den-num, num) == 1 }

// Env answers an environment question with a number in [0,n); f produces the answer when searching.
func (s *Source) Env(n int, f func(r *Rand) int) int {
	i := s.ei
	s.ei++
	v := 0
	if s.replay != nil {
		for s.eNext < len(s.replay.Env) && s.replay.Env[s.eNext].I < i {
			s.eNext++
		}
		if s.eNext < len(s.replay.Env) && s.replay.Env[s.eNext].I == i {
			v = s.replay.Env[s.eNext].V
			s.eNext++
			if v < 0 || n <= 0 {
				v = 0
			} else if v >= n {
				v %= n
			}
		}
	} else if n > 1 {
		if f != nil {
			v = f(s.er)
		} else {
			v = s.er.Intn(n)
		}
		if v < 0 || v >= n {
			v = 0
		}
	}
	if v != 0 {
		s.rec.Env = append(s.rec.Env, Decision{i, v})
	}
	return v
}
