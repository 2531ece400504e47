package simrt

import (
	"runtime"
	"unsafe"
)

// Mutex is a simulated mutex with barging, like sync.Mutex.
type Mutex struct {
	locked bool
	w      []*G
	tok    int32
}

//go:noinline
func (m *Mutex) Lock() {
	YS()
	for m.locked {
		if !active {
			panic("simrt: lock of a locked mutex outside a run")
		}
		m.w = append(m.w, cg)
		block("mutex", nil)
	}
	m.locked = true
	RaceAcquire(unsafe.Pointer(&m.tok))
}

//go:noinline
func (m *Mutex) TryLock() bool {
	YS()
	if m.locked {
		return false
	}
	m.locked = true
	RaceAcquire(unsafe.Pointer(&m.tok))
	return true
}

//go:noinline
func (m *Mutex) Unlock() {
	YS()
	if !m.locked {
		if active && !killing && !ending {
			Fail("fatal", "fatal error: sync: unlock of unlocked mutex")
		}
		return
	}
	RaceRelease(unsafe.Pointer(&m.tok))
	m.locked = false
	wakeAll(&m.w)
}

func wakeAll(w *[]*G) {
	for _, g := range *w {
		unblock(g)
	}
	*w = nil
}

// RWMutex is a simulated reader/writer lock: a waiting writer keeps new
// readers out, like sync.RWMutex.
type RWMutex struct {
	writer   bool
	wwaiting int
	readers  int
	w        []*G
	wtok     int32
	rtok     int32
}

//go:noinline
func (m *RWMutex) Lock() {
	YS()
	m.wwaiting++
	for m.writer || m.readers > 0 {
		if !active {
			panic("simrt: lock of a locked mutex outside a run")
		}
		m.w = append(m.w, cg)
		block("rwmutex (write)", nil)
	}
	m.wwaiting--
	m.writer = true
	RaceAcquire(unsafe.Pointer(&m.wtok))
	RaceAcquire(unsafe.Pointer(&m.rtok))
}

//go:noinline
func (m *RWMutex) TryLock() bool {
	YS()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	RaceAcquire(unsafe.Pointer(&m.wtok))
	RaceAcquire(unsafe.Pointer(&m.rtok))
	return true
}

//go:noinline
func (m *RWMutex) Unlock() {
	YS()
	if !m.writer {
		if active && !killing && !ending {
			Fail("fatal", "fatal error: sync: Unlock of unlocked RWMutex")
		}
		return
	}
	RaceRelease(unsafe.Pointer(&m.wtok))
	m.writer = false
	wakeAll(&m.w)
}

//go:noinline
func (m *RWMutex) RLock() {
	YS()
	for m.writer || m.wwaiting > 0 {
		if !active {
			panic("simrt: lock of a locked mutex outside a run")
		}
		m.w = append(m.w, cg)
		block("rwmutex (read)", nil)
	}
	m.readers++
	RaceAcquire(unsafe.Pointer(&m.wtok))
}

//go:noinline
func (m *RWMutex) TryRLock() bool {
	YS()
	if m.writer || m.wwaiting > 0 {
		return false
	}
	m.readers++
	RaceAcquire(unsafe.Pointer(&m.wtok))
	return true
}

//go:noinline
func (m *RWMutex) RUnlock() {
	YS()
	if m.readers <= 0 {
		if active && !killing && !ending {
			Fail("fatal", "fatal error: sync: RUnlock of unlocked RWMutex")
		}
		return
	}
	RaceReleaseMerge(unsafe.Pointer(&m.rtok))
	m.readers--
	wakeAll(&m.w)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns the read half of m as a Locker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// WaitGroup is a simulated sync.WaitGroup.
type WaitGroup struct {
	n   int
	w   []*G
	tok int32
}

//go:noinline
func (g *WaitGroup) Add(d int) {
	YS()
	if d < 0 {
		RaceReleaseMerge(unsafe.Pointer(&g.tok))
	}
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		wakeAll(&g.w)
	}
}

//go:noinline
func (g *WaitGroup) Done() { g.Add(-1) }

//go:noinline
func (g *WaitGroup) Wait() {
	YS()
	for g.n > 0 {
		g.w = append(g.w, cg)
		block("waitgroup", nil)
	}
	RaceAcquire(unsafe.Pointer(&g.tok))
}

// Go runs f in a new goroutine counted by g.
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	GoNamed("", func() {
		defer g.Done()
		f()
	})
}

// Cond is a simulated sync.Cond.
type Cond struct {
	L Locker
	w []*G
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:noinline
func (c *Cond) Wait() {
	g := cg
	c.w = append(c.w, g)
	woken := func() bool {
		for _, x := range c.w {
			if x == g {
				return false
			}
		}
		return true
	}
	c.L.Unlock()
	for !woken() {
		block("cond", nil)
	}
	c.L.Lock()
}

//go:noinline
func (c *Cond) Signal() {
	YS()
	if len(c.w) > 0 {
		g := c.w[0]
		c.w = Without(c.w, 0)
		unblock(g)
	}
}

//go:noinline
func (c *Cond) Broadcast() {
	YS()
	wakeAll(&c.w)
}

// Pool is a simulated sync.Pool: a free list that may also come up empty.
type Pool struct {
	New  func() any
	free []any
	tok  int32
}

//go:noinline
func (p *Pool) Get() any {
	YS()
	RaceAcquire(unsafe.Pointer(&p.tok))
	if n := len(p.free); n > 0 && (!active || EnvS.N(4) != 3) {
		v := p.free[n-1]
		p.free = p.free[: n-1 : n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:noinline
func (p *Pool) Put(v any) {
	YS()
	if v == nil {
		return
	}
	RaceReleaseMerge(unsafe.Pointer(&p.tok))
	p.free = append(p.free[:len(p.free):len(p.free)], v)
}

// Map is a simulated sync.Map, in insertion order.
type Map struct {
	e   []mapEnt
	tok int32
}

type mapEnt struct{ k, v any }

func (m *Map) find(k any) int {
	for i := range m.e {
		if m.e[i].k == k {
			return i
		}
	}
	return -1
}

func (m *Map) acq() { YS(); RaceAcquire(unsafe.Pointer(&m.tok)) }
func (m *Map) rel() { RaceReleaseMerge(unsafe.Pointer(&m.tok)) }

//go:noinline
func (m *Map) Load(k any) (any, bool) {
	m.acq()
	if i := m.find(k); i >= 0 {
		return m.e[i].v, true
	}
	return nil, false
}

//go:noinline
func (m *Map) Store(k, v any) { m.Swap(k, v) }

//go:noinline
func (m *Map) Swap(k, v any) (any, bool) {
	m.acq()
	defer m.rel()
	if i := m.find(k); i >= 0 {
		old := m.e[i].v
		m.e[i].v = v
		return old, true
	}
	m.e = append(m.e, mapEnt{k, v})
	return nil, false
}

//go:noinline
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.acq()
	defer m.rel()
	if i := m.find(k); i >= 0 {
		return m.e[i].v, true
	}
	m.e = append(m.e, mapEnt{k, v})
	return v, false
}

//go:noinline
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.acq()
	defer m.rel()
	if i := m.find(k); i >= 0 {
		old := m.e[i].v
		m.e = Without(m.e, i)
		return old, true
	}
	return nil, false
}

//go:noinline
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

//go:noinline
func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.acq()
	defer m.rel()
	if i := m.find(k); i >= 0 && m.e[i].v == old {
		m.e[i].v = new
		return true
	}
	return false
}

//go:noinline
func (m *Map) CompareAndDelete(k, old any) bool {
	m.acq()
	defer m.rel()
	if i := m.find(k); i >= 0 && m.e[i].v == old {
		m.e = Without(m.e, i)
		return true
	}
	return false
}

//go:noinline
func (m *Map) Range(f func(k, v any) bool) {
	m.acq()
	snap := Without(m.e, -1)
	for _, e := range snap {
		if v, ok := m.Load(e.k); ok && !f(e.k, v) {
			return
		}
	}
}

//go:noinline
func (m *Map) Clear() { m.acq(); m.e = nil; m.rel() }

var _ = runtime.Goexit
