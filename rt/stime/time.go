// Package time is the simulated time package of the instrumented build: the clock is the simulator's.
package time

import (
	real "time"

	sim "github.com/nginxinc/nginx-go-crossplane/internal/verifsim"
)

type (
	Duration = real.Duration
	Time     = real.Time
)

func Now() Time {
	if !sim.Active() {
		return real.Now()
	}
	return real.Unix(1700000000, 0).Add(real.Duration(sim.Current().Now()))
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration)      { sim.Sleep(d) }

// Timer is a simulated timer.
type Timer struct {
	C   <-chan Time
	c   chan Time
	f   func()
	gen *int
}

func start(d Duration, t *Timer) {
	gen := new(int)
	t.gen = gen
	if !sim.Active() {
		real.AfterFunc(d, func() {
			if *gen == 0 {
				*gen = 1
				if t.f != nil {
					t.f()
				} else {
					select {
					case t.c <- real.Now():
					default:
					}
				}
			}
		})
		return
	}
	sim.GoNamed("timer", sim.CurTag(), func() {
		sim.Sleep(d)
		if *gen != 0 {
			return
		}
		*gen = 1
		if t.f != nil {
			t.f()
			return
		}
		sim.Select(true, sim.SelSend[Time](t.c)(Now()))
	})
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	start(d, t)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	start(d, t)
	return t
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	was := *t.gen == 0
	*t.gen = 1
	return was
}

func (t *Timer) Reset(d Duration) bool {
	was := t.Stop()
	start(d, t)
	return was
}

// Ticker is a simulated ticker.
type Ticker struct {
	C    <-chan Time
	stop *bool
}

func NewTicker(d Duration) *Ticker {
	c := make(chan Time, 1)
	stop := new(bool)
	if sim.Active() {
		sim.GoNamed("ticker", sim.CurTag(), func() {
			for i := 0; i < 1000 && !*stop && !sim.Killed(); i++ {
				sim.Sleep(d)
				sim.Select(true, sim.SelSend[Time](c)(Now()))
			}
		})
	}
	return &Ticker{C: c, stop: stop}
}

func (t *Ticker) Stop()            { *t.stop = true }
func (t *Ticker) Reset(d Duration) {}
func Tick(d Duration) <-chan Time  { return NewTicker(d).C }
