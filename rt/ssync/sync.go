// Package sync is the simulated sync package of the instrumented build: same semantics, scheduling decided by the
// simulator, happens-before edges declared to the race detector.
package sync

import (
	real "sync"
	"unsafe"

	sim "github.com/nginxinc/nginx-go-crossplane/internal/verifsim"
)

type Locker = real.Locker

// Mutex is a simulated mutex.
type Mutex struct {
	locked bool
	q      sim.WaitQ
	x      int64
}

func (m *Mutex) Lock() {
	if !sim.Active() || sim.Killed() {
		m.locked = true
		return
	}
	sim.Point("lock")
	for m.locked {
		m.q.Wait("mutex")
		if sim.Killed() {
			return
		}
	}
	m.locked = true
	sim.RaceAcquire(unsafe.Pointer(&m.x))
}

func (m *Mutex) TryLock() bool {
	sim.Point("trylock")
	if m.locked {
		return false
	}
	m.locked = true
	sim.RaceAcquire(unsafe.Pointer(&m.x))
	return true
}

func (m *Mutex) Unlock() {
	if sim.Killed() && sim.Active() {
		m.locked = false
		m.q.WakeAll()
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	sim.RaceRelease(unsafe.Pointer(&m.x))
	m.locked = false
	m.q.WakeAll()
	sim.Point("unlock")
}

// RWMutex is a simulated reader/writer mutex.
type RWMutex struct {
	w    bool
	r    int
	q    sim.WaitQ
	x, y int64
}

func (m *RWMutex) Lock() {
	if !sim.Active() || sim.Killed() {
		m.w = true
		return
	}
	sim.Point("lock")
	for m.w || m.r > 0 {
		m.q.Wait("rwmutex")
		if sim.Killed() {
			return
		}
	}
	m.w = true
	sim.RaceAcquire(unsafe.Pointer(&m.x))
	sim.RaceAcquire(unsafe.Pointer(&m.y))
}

func (m *RWMutex) TryLock() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.Lock()
	return true
}

func (m *RWMutex) Unlock() {
	if !m.w && !sim.Killed() {
		panic("sync: Unlock of unlocked RWMutex")
	}
	sim.RaceRelease(unsafe.Pointer(&m.x))
	m.w = false
	m.q.WakeAll()
	sim.Point("unlock")
}

func (m *RWMutex) RLock() {
	if !sim.Active() || sim.Killed() {
		m.r++
		return
	}
	sim.Point("rlock")
	for m.w {
		m.q.Wait("rwmutex")
		if sim.Killed() {
			return
		}
	}
	m.r++
	sim.RaceAcquire(unsafe.Pointer(&m.x))
}

func (m *RWMutex) TryRLock() bool {
	if m.w {
		return false
	}
	m.RLock()
	return true
}

func (m *RWMutex) RUnlock() {
	if m.r <= 0 {
		if sim.Killed() {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	sim.RaceRelease(unsafe.Pointer(&m.y))
	m.r--
	m.q.WakeAll()
	sim.Point("runlock")
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is a simulated wait group.
type WaitGroup struct {
	n int
	q sim.WaitQ
	x int64
}

func (w *WaitGroup) Add(d int) {
	sim.RaceRelease(unsafe.Pointer(&w.x))
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.q.WakeAll()
	}
	sim.Point("wg")
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	sim.Point("wait")
	for w.n > 0 {
		if sim.Killed() {
			return
		}
		w.q.Wait("waitgroup")
	}
	sim.RaceAcquire(unsafe.Pointer(&w.x))
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sim.Go(func() {
		defer w.Done()
		f()
	})
}

// Once is a simulated once.
type Once struct {
	m    Mutex
	done bool
	x    int64
}

func (o *Once) Do(f func()) {
	sim.Point("once")
	if o.done {
		sim.RaceAcquire(unsafe.Pointer(&o.x))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			sim.RaceRelease(unsafe.Pointer(&o.x))
			o.done = true
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// Pool is a simulated pool: LIFO, dropping items when the simulator says so.
type Pool struct {
	New   func() any
	items []poolItem
}

type poolItem struct {
	v any
	x *int64
}

func (p *Pool) Get() any {
	sim.Point("pool-get")
	if v, ok := p.take(); ok {
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:noinline
func (p *Pool) take() (any, bool) {
	if n := len(p.items); n > 0 {
		it := p.items[n-1]
		p.items = p.items[:n-1]
		sim.RaceAcquire(unsafe.Pointer(it.x))
		return it.v, true
	}
	return nil, false
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	if sim.Active() && !sim.Killed() && sim.Current().Src.Env(8, nil) == 7 {
		return
	}
	it := poolItem{v, new(int64)}
	sim.RaceRelease(unsafe.Pointer(it.x))
	p.items = append(p.items, it)
	sim.Point("pool-put")
}

// Cond is a simulated condition variable.
type Cond struct {
	L Locker
	q sim.WaitQ
	x int64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.L.Unlock()
	c.q.Wait("cond")
	sim.RaceAcquire(unsafe.Pointer(&c.x))
	c.L.Lock()
}
func (c *Cond) Signal()    { sim.RaceRelease(unsafe.Pointer(&c.x)); c.q.WakeOne() }
func (c *Cond) Broadcast() { sim.RaceRelease(unsafe.Pointer(&c.x)); c.q.WakeAll() }

// Map is a simulated concurrent map (association list).
type Map struct {
	ks, vs []any
	x      int64
}

func (m *Map) find(k any) int {
	for i, x := range m.ks {
		if x == k {
			return i
		}
	}
	return -1
}

func (m *Map) sync() {
	sim.Point("sync.Map")
	sim.RaceAcquire(unsafe.Pointer(&m.x))
	sim.RaceRelease(unsafe.Pointer(&m.x))
}

func (m *Map) Load(k any) (any, bool) {
	m.sync()
	if i := m.find(k); i >= 0 {
		return m.vs[i], true
	}
	return nil, false
}

func (m *Map) Store(k, v any) { m.Swap(k, v) }

func (m *Map) Swap(k, v any) (any, bool) {
	m.sync()
	if i := m.find(k); i >= 0 {
		old := m.vs[i]
		m.vs[i] = v
		return old, true
	}
	m.ks, m.vs = append(m.ks, k), append(m.vs, v)
	return nil, false
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.sync()
	if i := m.find(k); i >= 0 {
		return m.vs[i], true
	}
	m.ks, m.vs = append(m.ks, k), append(m.vs, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.sync()
	i := m.find(k)
	if i < 0 {
		return nil, false
	}
	v := m.vs[i]
	m.ks = append(m.ks[:i], m.ks[i+1:]...)
	m.vs = append(m.vs[:i], m.vs[i+1:]...)
	return v, true
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.sync()
	if i := m.find(k); i >= 0 && m.vs[i] == old {
		m.vs[i] = new
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, old any) bool {
	m.sync()
	if i := m.find(k); i >= 0 && m.vs[i] == old {
		m.LoadAndDelete(k)
		return true
	}
	return false
}

func (m *Map) Range(f func(k, v any) bool) {
	m.sync()
	ks := append([]any(nil), m.ks...)
	sim.Permute(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	for _, k := range ks {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

func (m *Map) Clear() { m.sync(); m.ks, m.vs = nil, nil }
