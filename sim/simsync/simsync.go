// Package simsync stands in for package sync in instrumented code. Blocking is
// decided by the simulator; the happens-before edges reported to the race
// detector are those package sync documents. Outside a simulated run the types
// behave as in a single-threaded program.
package simsync

import (
	gosync "sync"
	"unsafe"

	"verif/sim/simrt"
)

type Locker = gosync.Locker

// ---- Mutex -----------------------------------------------------------------

type Mutex struct {
	locked bool
	owner  int32
}

//go:norace
func (m *Mutex) Lock() {
	simrt.Yield(1)
	for m.locked {
		if !simrt.Active() {
			panic("simsync: lock of a locked mutex outside the simulation")
		}
		simrt.Stats().LockWaits++
		simrt.Block(unsafe.Pointer(m), "mutex")
	}
	m.locked = true
	m.owner = int32(simrt.CurID())
	simrt.RaceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	simrt.Yield(1)
	if m.locked {
		return false
	}
	m.locked = true
	simrt.RaceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex") // fatal in package sync
	}
	simrt.RaceRelease(unsafe.Pointer(m))
	m.locked = false
	simrt.Wake(unsafe.Pointer(m))
	simrt.Yield(1)
}

// ---- RWMutex ---------------------------------------------------------------

type RWMutex struct {
	w       bool
	readers int32
	waitW   int32
	rmark   byte
}

//go:norace
func (m *RWMutex) Lock() {
	simrt.Yield(2)
	m.waitW++
	for m.w || m.readers > 0 {
		if !simrt.Active() {
			panic("simsync: lock of a locked rwmutex outside the simulation")
		}
		simrt.Stats().LockWaits++
		simrt.Block(unsafe.Pointer(m), "rwmutex")
	}
	m.waitW--
	m.w = true
	simrt.RaceAcquire(unsafe.Pointer(m))
	simrt.RaceAcquire(unsafe.Pointer(&m.rmark))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	simrt.Yield(2)
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	simrt.RaceAcquire(unsafe.Pointer(m))
	simrt.RaceAcquire(unsafe.Pointer(&m.rmark))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	simrt.RaceRelease(unsafe.Pointer(m))
	m.w = false
	simrt.Wake(unsafe.Pointer(m))
	simrt.Yield(2)
}

//go:norace
func (m *RWMutex) RLock() {
	simrt.Yield(2)
	for m.w || m.waitW > 0 {
		if !simrt.Active() {
			panic("simsync: rlock of a locked rwmutex outside the simulation")
		}
		simrt.Stats().LockWaits++
		simrt.Block(unsafe.Pointer(m), "rwmutex (read)")
	}
	m.readers++
	simrt.RaceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	simrt.Yield(2)
	if m.w || m.waitW > 0 {
		return false
	}
	m.readers++
	simrt.RaceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	simrt.RaceRelease(unsafe.Pointer(&m.rmark))
	m.readers--
	simrt.Wake(unsafe.Pointer(m))
	simrt.Yield(2)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// ---- Once ------------------------------------------------------------------

type Once struct {
	done bool
	m    Mutex
}

//go:norace
func (o *Once) Do(f func()) {
	simrt.Yield(3)
	if o.done {
		simrt.RaceAcquire(unsafe.Pointer(&o.done))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.finish()
		f()
	}
}

//go:norace
func (o *Once) finish() {
	simrt.RaceRelease(unsafe.Pointer(&o.done))
	o.done = true
}

func OnceFunc(f func()) func() {
	var o Once
	var valid bool
	var p any
	return func() {
		o.Do(func() {
			defer func() {
				p = recover()
				if !valid {
					panic(p)
				}
			}()
			f()
			f = nil
			valid = true
		})
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T { g(); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	g := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { g(); return r1, r2 }
}

// ---- Pool ------------------------------------------------------------------

const poolCap = 32

// Pool keeps items as long as the simulator lets it: a Get may miss although
// an item is there, may return the newest or the oldest item, and a Put may be
// dropped, all of which the real pool may do at any time.
type Pool struct {
	New   func() any
	n     int
	items [poolCap]any
}

type eface struct{ typ, data unsafe.Pointer }

//go:norace
func (p *Pool) Get() any {
	simrt.Yield(4)
	st := simrt.Stats()
	st.PoolGets++
	var x any
	if p.n > 0 {
		mode := 0
		if simrt.Active() {
			miss, _, old := simrt.PoolCfg()
			if miss > 1 { // pools always miss: the benign variant of a run
				st.PoolMiss++
				goto fresh
			}
			mode = simrt.Choose(simrt.KPool, 3, miss+old)
			if mode != 0 {
				if miss == 0 {
					mode = 2
				} else if old == 0 {
					mode = 1
				}
			}
		}
		switch {
		case mode == 1:
			st.PoolMiss++
		case mode == 2 && p.n > 1:
			x = p.items[0]
			for i := 1; i < p.n; i++ {
				p.items[i-1] = p.items[i]
			}
			p.n--
			p.items[p.n] = nil
		default:
			p.n--
			x = p.items[p.n]
			p.items[p.n] = nil
		}
	}
fresh:
	if x != nil {
		st.PoolHits++
		simrt.RaceAcquire((*eface)(unsafe.Pointer(&x)).data)
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(x any) {
	simrt.Yield(4)
	if x == nil {
		return
	}
	if simrt.Active() {
		_, drop, _ := simrt.PoolCfg()
		if simrt.Choose(simrt.KPool, 2, drop) != 0 {
			simrt.Stats().PoolDrops++
			return
		}
	}
	if p.n == poolCap {
		return
	}
	simrt.RaceRelease((*eface)(unsafe.Pointer(&x)).data)
	p.items[p.n] = x
	p.n++
}

// ---- WaitGroup -------------------------------------------------------------

type WaitGroup struct {
	n    int
	mark byte
}

//go:norace
func (w *WaitGroup) Add(d int) {
	simrt.Yield(5)
	if d < 0 {
		simrt.RaceRelease(unsafe.Pointer(&w.mark))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		simrt.Wake(unsafe.Pointer(w))
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	simrt.Yield(5)
	for w.n > 0 {
		simrt.Block(unsafe.Pointer(w), "waitgroup")
	}
	simrt.RaceAcquire(unsafe.Pointer(&w.mark))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

// ---- Cond ------------------------------------------------------------------

type Cond struct {
	L       Locker
	tickets int64
	served  int64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	t := c.tickets
	c.tickets++
	c.L.Unlock()
	for t >= c.served {
		simrt.Block(unsafe.Pointer(c), "cond")
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if c.served < c.tickets {
		c.served++
		simrt.Wake(unsafe.Pointer(c))
	}
}

//go:norace
func (c *Cond) Broadcast() {
	c.served = c.tickets
	simrt.Wake(unsafe.Pointer(c))
}

// ---- Map -------------------------------------------------------------------

// Map wraps the real one: its operations never block, and each is a step.
type Map struct{ m gosync.Map }

func (m *Map) Load(k any) (any, bool)           { simrt.Yield(6); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { simrt.Yield(6); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { simrt.Yield(6); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { simrt.Yield(6); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { simrt.Yield(6); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { simrt.Yield(6); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { simrt.Yield(6); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { simrt.Yield(6); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)      { simrt.Yield(6); m.m.Range(f) }
func (m *Map) Clear()                           { simrt.Yield(6); m.m.Clear() }
