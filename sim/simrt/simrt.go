// Package simrt is the core of the deterministic simulator: it owns the
// schedule of all simulated threads, the simulated clock, garbage-collection
// points, object-pool decisions, allocator contents and every other choice a
// run depends on. Exactly one simulated thread runs at any time; control
// changes hands only inside this package, at instrumented statements and at
// synchronisation operations.
//
// All choices come from one seed (random mode) or from an explicit sparse list
// of choices (replay mode), so a run is a pure function of (code, plan,
// choices). Nothing here draws from a clock or from the Go runtime's
// randomness.
//
// The package must stay invisible to the race detector: its functions are
// go:norace and hand-overs between threads happen with race synchronisation
// disabled, so that the only happens-before edges the detector sees are those
// of the code under test (added by simsync, sync/atomic and goroutine starts).
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"unsafe"
)

// ---- choices ---------------------------------------------------------------

// Kind names a stream of choices.
type Kind uint8

const (
	KPreempt Kind = iota // At = step, Val = thread to switch to
	KBlock               // At = counter, Val = thread chosen when the running one blocks or ends (+1)
	KGC                  // At = step: run a full garbage collection
	KPool                // At = counter: 1 = miss, 2 = oldest item, 3 = drop on put
	KFault               // At = counter: environment fault (file system, network, ...)
	KUser                // At = counter: harness decision
	nKinds
)

var KindNames = [nKinds]string{"preempt", "block", "gc", "pool", "fault", "user"}

// Choice is one non-default decision.
type Choice struct {
	K   Kind  `json:"k"`
	At  int64 `json:"at"`
	Val int64 `json:"v"`
}

// Config describes one run.
type Config struct {
	Seed     uint64
	Replay   bool     // take choices from Choices instead of the seed
	Choices  []Choice // replay mode
	MaxSteps int64

	// random-mode knobs
	PreemptMean int64   // mean steps between preemptions, 0 = never
	PCT         int     // >0: PCT with that many priority change points
	PCTLen      int64   // assumed length of the run for PCT and GC placement
	GCs         int     // number of forced collections placed within PCTLen steps
	PoolMissP   float64 // probability a pool Get misses
	PoolDropP   float64 // probability a pool Put drops
	PoolOldP    float64 // probability a pool Get takes the oldest item
	Trace       bool    // record the decisions for people
	Poison      uint64  // 0: leave allocator memory alone; else fill pattern seed
}

// Result of a run.
type Result struct {
	Steps      int64
	SimNS      int64
	Switches   int64
	SchedHash  uint64 // hash of the sequence of (thread, site) at switches
	Deadlock   string // non-empty: no thread could run
	Panic      string // of a thread which instrumented code has started
	Livelock   bool   // step bound exceeded
	Choices    []Choice
	Truncated  bool // more choices than the log holds
	Count      [nKinds]int64
	GCs        int64
	PoolGets   int64
	PoolHits   int64
	PoolMiss   int64
	PoolDrops  int64
	Mallocs    int64
	MallocByte int64
	LockWaits  int64
	Trace      []TraceEv `json:",omitempty"`
}

// TraceEv is one decision of a traced run, in order.
type TraceEv struct {
	K      string
	Step   int64
	Thread int    // the thread that was running
	Site   uint32 // the statement it had reached, for preemptions and collections
	V      int64
}

type rng struct{ s uint64 }

//go:norace
func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func (r *rng) intn(n int64) int64 {
	if n <= 1 {
		return 0
	}
	return int64(r.next() % uint64(n))
}

//go:norace
func (r *rng) float() float64 { return float64(r.next()>>11) / (1 << 53) }

// Mix combines seeds.
//
//go:norace
func Mix(a, b uint64) uint64 {
	r := rng{a ^ (b * 0xd6e8feb86659fd93)}
	r.next()
	return r.next()
}

// ---- threads ---------------------------------------------------------------

const (
	stReady = iota
	stBlocked
	stDone
)

const MaxThreads = 1024

type Thread struct {
	ID       int
	group    int // of the thread which the harness started
	wake     chan struct{}
	state    int
	key      unsafe.Pointer
	wakeTime int64 // simulated ns, for sleepers
	prio     int64
	fn       func()
	panicVal any
	panicStk string
	endMark  byte
	// number of steps this thread has consumed (for per-call accounting)
	noPreempt int
	dead      bool
	site      uint32
}

const maxLog = 1 << 16

var (
	cfg       Config
	active    bool
	cur       *Thread
	threads   [MaxThreads]*Thread
	nthreads  int
	countdown int64 // steps until the next slow path
	granted   int64 // value of countdown when it was last set
	steps     int64
	mainWake  = make(chan struct{}, 1)
	aborted   bool

	choiceLog []Choice
	truncated bool
	counters  [nKinds]int64
	streams   [nKinds]rng
	nextEv    [nKinds]int64 // next step of KPreempt / KGC
	gcSteps   []int64
	gcIdx     int
	pctSteps  []int64
	pctIdx    int
	pctLow    int64
	replayPos [nKinds]int
	replayBy  [nKinds][]Choice

	res      Result
	simTime  int64
	sleepers int
	siteNow  uint32
)

// PoisonZero asks for zeroed memory (the most benign allocator).
const PoisonZero = ^uint64(0)

const never = int64(1) << 60

// sleepSlack is how late timers may be, in simulated ns.
const sleepSlack = 100_000

// Active reports whether a simulated thread is running.
//
//go:norace
func Active() bool { return active }

// Steps returns the number of steps taken so far.
//
//go:norace
func Steps() int64 { return steps + (granted - countdown) }

// Switches returns the number of context switches so far.
//
//go:norace
func Switches() int64 { return res.Switches }

// CurID returns the id of the running thread, or -1.
//
//go:norace
func CurID() int {
	if cur == nil {
		return -1
	}
	return cur.ID
}

// Seed returns the seed of the current run.
//
//go:norace
func Seed() uint64 { return cfg.Seed }

// Begin prepares a run; threads are then added with Spawn and started by Run.
//
//go:norace
func Begin(c Config) {
	cfg = c
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 50_000_000
	}
	for i := range threads {
		threads[i] = nil
	}
	nthreads = 0
	for nposted > 0 {
		nposted--
		posted[nposted] = nil
	}
	steps = 0
	countdown = never
	granted = never
	aborted = false
	truncated = false
	if choiceLog == nil {
		choiceLog = make([]Choice, 0, maxLog)
	}
	choiceLog = choiceLog[:0]
	res = Result{}
	siteNow = 0
	simTime = 1_700_000_000_000_000_000
	sleepers = 0
	for k := Kind(0); k < nKinds; k++ {
		counters[k] = 0
		streams[k] = rng{Mix(c.Seed, uint64(k)+0x1000)}
		replayBy[k] = nil
		replayPos[k] = 0
		nextEv[k] = never
	}
	gcSteps, gcIdx, pctSteps, pctIdx = nil, 0, nil, 0
	pctLow = -1
	if c.Replay {
		for _, ch := range c.Choices {
			if ch.K < nKinds {
				replayBy[ch.K] = append(replayBy[ch.K], ch)
			}
		}
		for k := range replayBy {
			sortChoices(replayBy[k])
		}
		return
	}
	if c.GCs > 0 {
		l := c.PCTLen
		if l <= 0 {
			l = 20000
		}
		for i := 0; i < c.GCs; i++ {
			gcSteps = append(gcSteps, 1+streams[KGC].intn(l))
		}
		sortInts(gcSteps)
	}
	if c.PCT > 0 {
		l := c.PCTLen
		if l <= 0 {
			l = 20000
		}
		for i := 0; i < c.PCT; i++ {
			pctSteps = append(pctSteps, 1+streams[KPreempt].intn(l))
		}
		sortInts(pctSteps)
	}
}

//go:norace
func sortInts(a []int64) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

//go:norace
func sortChoices(a []Choice) {
	// insertion sort on mostly sorted input
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j].At < a[j-1].At; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

//go:norace
func logChoice(k Kind, at, v int64) {
	res.Count[k]++
	if cfg.Trace && len(res.Trace) < 4000 {
		e := TraceEv{K: KindNames[k], Step: at, Thread: CurID(), V: v}
		if k == KPreempt || k == KGC {
			e.Site = siteNow
		}
		res.Trace = append(res.Trace, e)
	}
	if len(choiceLog) == maxLog {
		truncated = true
		return
	}
	choiceLog = choiceLog[:len(choiceLog)+1]
	choiceLog[len(choiceLog)-1] = Choice{k, at, v}
}

// Spawn adds a thread. From the harness before Run, or from a running thread.
//
//go:norace
func Spawn(fn func()) *Thread {
	if nthreads == MaxThreads {
		panic("simrt: too many threads")
	}
	t := &Thread{ID: nthreads, group: nthreads, wake: make(chan struct{}, 1), fn: fn}
	if cfg.PCT > 0 {
		t.prio = 1 + streams[KPreempt].intn(1<<30)
	}
	threads[nthreads] = t
	nthreads++
	go t.main()
	return t
}

// Go is what `go f()` becomes in instrumented code.
func Go(fn func()) {
	if !active {
		go fn()
		return
	}
	g := cur.group
	Spawn(fn).group = g
	Yield(0)
}

// Group returns the group of the running thread: the id of the thread from
// which it descends by go statements.
//
//go:norace
func Group() int {
	if cur == nil {
		return -1
	}
	return cur.group
}

// KillGroup stops all threads of the group other than the running one. They
// never run again.
//
//go:norace
func KillGroup(g int) {
	for i := 0; i < nthreads; i++ {
		t := threads[i]
		if t.group != g || t == cur || t.state == stDone {
			continue
		}
		if t.wakeTime > 0 {
			t.wakeTime = 0
			sleepers--
		}
		t.key = nil
		t.state = stDone
		wakeKey(unsafe.Pointer(t))
	}
}

// OnPanic is called in a thread which panics, before it ends.
var OnPanic func(t *Thread)

//go:noinline
func growStack(n int) byte {
	var a [1024]byte
	a[n&1023] = byte(n)
	if n > 0 {
		return growStack(n-1) + a[(n*7)&1023]
	}
	return a[0]
}

//go:norace
func (t *Thread) main() {
	debug.SetPanicOnFault(true)
	raceDisable()
	<-t.wake
	raceEnable()
	defer t.finish() // also after ExitThread
	defer t.recoverPanic()
	t.fn()
}

// ExitThread ends the running thread. Its deferred functions still run, but
// as those of a dead thread.
func ExitThread() {
	cur.dead = true
	runtime.Goexit()
}

// Dead reports whether the running thread has been ended.
//
//go:norace
func Dead() bool { return active && cur != nil && cur.dead }

//go:norace
func (t *Thread) finish() {
	RaceRelease(unsafe.Pointer(&t.endMark))
	raceDisable()
	t.state = stDone
	wakeKey(unsafe.Pointer(t))
	next := pickBlocked()
	if next == nil {
		endRun()
		return
	}
	cur = next
	next.wake <- struct{}{}
}

//go:norace
func (t *Thread) recoverPanic() {
	if r := recover(); r != nil {
		t.panicVal = r
		t.panicStk = string(debug.Stack())
		if t.group != t.ID {
			if res.Panic == "" {
				res.Panic = fmt.Sprintf("%v\n%s", r, t.panicStk)
			}
		}
		if OnPanic != nil {
			OnPanic(t)
		}
	}
}

// Panicked returns the value a thread ended with by panicking.
//
//go:norace
func (t *Thread) Panicked() (any, string) { return t.panicVal, t.panicStk }

// Run starts the threads and returns when all have ended, or the run was
// aborted by a deadlock or by the step bound.
//
//go:norace
func Run() Result {
	active = true
	computeCountdown()
	first := pickBlocked()
	if first == nil {
		active = false
		return res
	}
	cur = first
	raceDisable()
	first.wake <- struct{}{}
	<-mainWake
	raceEnable()
	for i := 0; i < nthreads; i++ {
		if threads[i].state == stDone {
			RaceAcquire(unsafe.Pointer(&threads[i].endMark))
		}
	}
	steps += granted - countdown
	active = false
	cur = nil
	if !aborted {
		for i := 0; i < nthreads; i++ {
			if threads[i].state != stDone {
				res.Deadlock = fmt.Sprintf("thread %d stays blocked and no thread can run (%d threads)", i, nthreads)
				break
			}
		}
	}
	countdown, granted = never, never
	res.Steps = steps
	res.SimNS = simTime + steps*1000 - 1_700_000_000_000_000_000
	res.Choices = append([]Choice(nil), choiceLog...)
	res.Truncated = truncated
	return res
}

//go:norace
func endRun() {
	mainWake <- struct{}{}
}

// ---- stepping --------------------------------------------------------------

//go:norace
func computeCountdown() {
	n := cfg.MaxSteps - steps
	if cfg.Replay {
		for _, k := range [...]Kind{KPreempt, KGC} {
			l := replayBy[k]
			for replayPos[k] < len(l) && l[replayPos[k]].At <= steps {
				replayPos[k]++
			}
			nextEv[k] = never
			if replayPos[k] < len(l) {
				nextEv[k] = l[replayPos[k]].At
			}
		}
	} else {
		nextEv[KGC] = never
		for gcIdx < len(gcSteps) && gcSteps[gcIdx] <= steps {
			gcIdx++
		}
		if gcIdx < len(gcSteps) {
			nextEv[KGC] = gcSteps[gcIdx]
		}
		if cfg.PCT > 0 {
			nextEv[KPreempt] = never
			for pctIdx < len(pctSteps) && pctSteps[pctIdx] <= steps {
				pctIdx++
			}
			if pctIdx < len(pctSteps) {
				nextEv[KPreempt] = pctSteps[pctIdx]
			}
		} else if cfg.PreemptMean > 0 {
			if nextEv[KPreempt] <= steps || nextEv[KPreempt] == never {
				nextEv[KPreempt] = steps + 1 + streams[KPreempt].intn(2*cfg.PreemptMean)
			}
		}
	}
	for _, k := range [...]Kind{KPreempt, KGC} {
		if d := nextEv[k] - steps; d < n {
			n = d
		}
	}
	if n < 1 {
		n = 1
	}
	granted = n
	countdown = n
}

var reached [1 << 17]bool

// Reached lists the statements that have been executed since the last call.
func Reached() (l []uint32) {
	for i, r := range &reached {
		if r {
			l = append(l, uint32(i))
		}
	}
	reached = [1 << 17]bool{}
	return l
}

// Yield is called before every instrumented statement.
//
//go:norace
func Yield(site uint32) {
	reached[site&(1<<17-1)] = true
	countdown--
	if countdown > 0 {
		return
	}
	slow(site)
}

//go:norace
func slow(site uint32) {
	if !active || cur == nil {
		countdown = never
		granted = never
		return
	}
	siteNow = site
	cur.site = site
	steps += granted - countdown
	granted, countdown = 0, 0
	if steps >= cfg.MaxSteps {
		res.Livelock = true
		abort()
	}
	if nextEv[KGC] == steps {
		nextEv[KGC] = never
		logChoice(KGC, steps, 1)
		res.GCs++
		granted, countdown = never, never
		gcNow()
		granted, countdown = 0, 0
	}
	if nextEv[KPreempt] == steps {
		wakeSleepers()
	}
	doSwitch := false
	var target *Thread
	if nextEv[KPreempt] == steps {
		nextEv[KPreempt] = never
		doSwitch = true
		if cfg.Replay {
			l := replayBy[KPreempt]
			if replayPos[KPreempt] < len(l) && l[replayPos[KPreempt]].At == steps {
				id := l[replayPos[KPreempt]].Val
				if id >= 0 && id < int64(nthreads) && threads[id].state == stReady {
					target = threads[id]
				}
			}
		} else if cfg.PCT > 0 {
			cur.prio = pctLow
			pctLow--
			target = highest()
		} else {
			target = randomReady()
		}
		if cur.noPreempt > 0 {
			target = nil
		}
	}
	if doSwitch && target != nil && target != cur {
		logChoice(KPreempt, steps, int64(target.ID))
		switchTo(target)
	}
	computeCountdown()
}

//go:norace
func randomReady() *Thread {
	n := int64(0)
	for i := 0; i < nthreads; i++ {
		if threads[i].state == stReady {
			n++
		}
	}
	if n == 0 {
		return nil
	}
	k := streams[KPreempt].intn(n)
	for i := 0; i < nthreads; i++ {
		if threads[i].state == stReady {
			if k == 0 {
				return threads[i]
			}
			k--
		}
	}
	return nil
}

//go:norace
func highest() *Thread {
	var b *Thread
	for i := 0; i < nthreads; i++ {
		if t := threads[i]; t.state == stReady && (b == nil || t.prio > b.prio) {
			b = t
		}
	}
	return b
}

// wakeSleepers makes threads runnable whose time has come.
//
//go:norace
func wakeSleepers() {
	if sleepers == 0 {
		return
	}
	now := simTime + steps*1000
	for i := 0; i < nthreads; i++ {
		t := threads[i]
		if t.state == stBlocked && t.wakeTime > 0 && t.wakeTime <= now {
			t.wakeTime = 0
			t.state = stReady
			t.key = nil
			sleepers--
		}
	}
}

// pickBlocked chooses who runs when the current thread cannot.
//
//go:norace
func pickBlocked() *Thread {
	for {
		wakeSleepers()
		n := 0
		var first *Thread
		for i := 0; i < nthreads; i++ {
			if threads[i].state == stReady {
				if first == nil {
					first = threads[i]
				}
				n++
			}
		}
		if n == 0 {
			// advance the clock to the earliest sleeper
			var s *Thread
			for i := 0; i < nthreads; i++ {
				t := threads[i]
				if t.state == stBlocked && t.wakeTime > 0 && (s == nil || t.wakeTime < s.wakeTime) {
					s = t
				}
			}
			if s != nil {
				// a little further, so that timers close to each other overlap
				if now := simTime + steps*1000; s.wakeTime+sleepSlack > now {
					simTime += s.wakeTime + sleepSlack - now
				}
				continue
			}
			return nil
		}
		at := counters[KBlock]
		counters[KBlock]++
		t := first
		if cfg.Replay {
			l := replayBy[KBlock]
			for replayPos[KBlock] < len(l) && l[replayPos[KBlock]].At < at {
				replayPos[KBlock]++
			}
			if replayPos[KBlock] < len(l) && l[replayPos[KBlock]].At == at {
				id := l[replayPos[KBlock]].Val - 1
				if id >= 0 && id < int64(nthreads) && threads[id].state == stReady {
					t = threads[id]
				}
			}
		} else if cfg.PCT > 0 {
			t = highest()
		} else if n > 1 {
			k := streams[KBlock].intn(int64(n))
			for i := 0; i < nthreads; i++ {
				if threads[i].state == stReady {
					if k == 0 {
						t = threads[i]
						break
					}
					k--
				}
			}
		}
		if t != first {
			logChoice(KBlock, at, int64(t.ID)+1)
		}
		return t
	}
}

//go:norace
func hash(v uint64) {
	res.SchedHash = (res.SchedHash ^ v) * 0x100000001b3
	res.SchedHash ^= res.SchedHash >> 29
}

//go:norace
func switchTo(t *Thread) {
	me := cur
	res.Switches++
	hash(uint64(me.ID)<<40 | uint64(t.ID)<<32 | uint64(siteNow))
	hash(uint64(t.site))
	cur = t
	raceDisable()
	t.wake <- struct{}{}
	<-me.wake
	raceEnable()
}

// abort ends the run from the running thread, which never continues.
//
//go:norace
func abort() {
	aborted = true
	granted, countdown = 0, 0
	raceDisable()
	mainWake <- struct{}{}
	select {}
}

// Block parks the running thread until Wake is called with the same key.
//
//go:norace
func Block(key unsafe.Pointer, why string) {
	steps += granted - countdown
	granted, countdown = 0, 0
	me := cur
	me.state = stBlocked
	me.key = key
	me.site = 0
	next := pickBlocked()
	if next == nil {
		res.Deadlock = fmt.Sprintf("thread %d blocked on %s and no thread can run (%d threads)", me.ID, why, nthreads)
		abort()
	}
	if next != me {
		switchTo(next)
	}
	computeCountdown()
}

//go:norace
func wakeKey(key unsafe.Pointer) {
	for i := 0; i < nthreads; i++ {
		if t := threads[i]; t.state == stBlocked && t.key == key && t.wakeTime == 0 {
			t.state = stReady
			t.key = nil
		}
	}
}

// Wake makes every thread blocked on key runnable.
//
//go:norace
func Wake(key unsafe.Pointer) {
	if active {
		wakeKey(key)
	}
}

// Sleep parks the running thread for d simulated nanoseconds.
//
//go:norace
func Sleep(d int64) {
	if !active {
		return
	}
	if d <= 0 {
		Yield(0)
		return
	}
	cur.wakeTime = simTime + Steps()*1000 + d
	sleepers++
	Block(unsafe.Pointer(cur), "sleep")
}

// NowNS is the simulated clock.
//
//go:norace
func NowNS() int64 { return simTime + Steps()*1000 }

// Join blocks the running thread until t has ended.
//
//go:norace
func Join(t *Thread) {
	for t.state != stDone {
		Block(unsafe.Pointer(t), "join")
	}
	RaceAcquire(unsafe.Pointer(&t.endMark))
}

// NoPreempt disables switches on the running thread (for harness sections).
//
//go:norace
func NoPreempt(on bool) {
	if cur == nil {
		return
	}
	if on {
		cur.noPreempt++
	} else {
		cur.noPreempt--
	}
}

// Choose draws decision number counters[k] of stream k: 0 with probability 1-p,
// else uniform in 1..n-1. In replay mode it returns the recorded value, or 0.
//
//go:norace
func Choose(k Kind, n int, p float64) int {
	at := counters[k]
	counters[k]++
	v := int64(0)
	if cfg.Replay {
		l := replayBy[k]
		for replayPos[k] < len(l) && l[replayPos[k]].At < at {
			replayPos[k]++
		}
		if replayPos[k] < len(l) && l[replayPos[k]].At == at {
			v = l[replayPos[k]].Val
			if v >= int64(n) {
				v = 0
			}
		}
	} else if n > 1 && streams[k].float() < p {
		v = 1 + streams[k].intn(int64(n)-1)
	}
	if v != 0 {
		logChoice(k, at, v)
	}
	return int(v)
}

// ---- memory ----------------------------------------------------------------

//go:linkname realMallocgc runtime.mallocgc
func realMallocgc(size uintptr, typ unsafe.Pointer, needzero bool) unsafe.Pointer

// Mallocgc stands in for direct uses of the runtime allocator. Memory asked
// for without zeroing comes back full of arbitrary bytes, as recycled memory
// legitimately may.
//
//go:norace
func Mallocgc(size uintptr, typ unsafe.Pointer, needzero bool) unsafe.Pointer {
	p := realMallocgc(size, typ, needzero)
	res.Mallocs++
	res.MallocByte += int64(size)
	if !needzero && cfg.Poison != 0 && size < 1<<24 {
		b := unsafe.Slice((*byte)(p), size)
		if cfg.Poison == PoisonZero {
			clear(b)
		} else {
			pat := Mix(cfg.Poison, uint64(res.Mallocs))
			for i := range b {
				if i&7 == 0 {
					pat = pat*0x9e3779b97f4a7c15 + 0x632be59bd9b4e019
				}
				b[i] = byte(pat>>(8*(uint(i)&7))) | 1
			}
		}
	}
	return p
}

//go:norace
func gcNow() {
	runtime.GC()
}

// Stats gives access to the running result (pool counters of simsync).
//
//go:norace
func Stats() *Result { return &res }

// PoolCfg returns the pool fault probabilities of the run.
//
//go:norace
func PoolCfg() (miss, drop, old float64) { return cfg.PoolMissP, cfg.PoolDropP, cfg.PoolOldP }

// SleepD is what time.Sleep becomes in instrumented code.
//
//go:norace
func SleepD[T ~int64](d T) { Sleep(int64(d)) }
