// Package vsched is the controlled scheduler behind the import shims (vatomic, vsync, vrand).
//
// In mode Ctl exactly one registered goroutine ("thread") runs at a time; every shimmed
// operation first calls Point, where the scheduler decides from its PRNG who goes on. All
// decisions are a function of the configuration, so a run can be replayed exactly.
//
// The package is compiled without race instrumentation (-race=false) and hands control over
// inside RaceDisable sections, so that under -race the scheduler adds no happens-before
// edges: the race detector judges the package under test by its own synchronisation only.
package vsched

import (
	"fmt"
	"math/bits"
	mrand "math/rand/v2"
	"runtime"
	"runtime/debug"
	"time"
)

const (
	Off   = 0
	Delay = 1
	Ctl   = 2
)

// Mode is written only while no thread runs.
var Mode uint8

var active *Sched

// Kinds of points, mixed into the trace hash.
const (
	KLoad = iota + 1
	KStore
	KRMW
	KLock
	KUnlock
	KUser
)

// ---------------------------------------------------------------- PRNG

type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { r := Mk(seed); return &r }

func Mk(seed uint64) Rng {
	r := Rng{seed*0x9E3779B97F4A7C15 + 0x1234567}
	r.Next()
	r.Next()
	return r
}

// Next is splitmix64.
func (r *Rng) Next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *Rng) Intn(n int) int {
	hi, _ := bits.Mul64(r.Next(), uint64(n))
	return int(hi)
}

func (r *Rng) Chance(num, den int) bool { return r.Intn(den) < num }

func Mix(h, v uint64) uint64 {
	h ^= v
	h *= 0x9FB21C651E98DF25
	return h ^ h>>29
}

// ---------------------------------------------------------------- threads

const (
	stRun = iota
	stBlocked
	stDone
)

type Thread struct {
	ID      int
	wake    chan struct{}
	fin     chan struct{}
	st      uint8
	parked  bool
	lock    *LockState
	wlock   bool
	prio    int
	steps   int64 // own steps so far
	opStart int64 // own steps at the start of the current operation
	opDepth int
	ops     int // completed operations
	rnd     Rng

	PanicVal   any
	PanicStack string
	Exited     bool // left by runtime.Goexit
}

// LockState is the scheduler's view of a mutex.
type LockState struct {
	held    bool
	readers int
}

// Strategy kinds.
const (
	Uniform = iota
	Sticky
	PCT
	Park
	Freeze    // thread 0 waits; at FreezeAt all others are frozen and thread 0 runs to its end
	Adversary // between two steps of thread 0, the others complete AdvOps operations
)

type Config struct {
	Seed      uint64
	Strat     int
	Switch    int   // Sticky/Park/Freeze: switch with probability Switch/1000
	Changes   int   // PCT: number of priority change points
	Horizon   int   // PCT, Park: expected number of steps
	ParkMax   int   // Park: longest park, in steps
	ParkMin   int   // Park: shortest park
	First     bool  // Park: thread 0 begins and is parked
	FreezeAt  int64 // Freeze: global step
	AdvOps    int
	AdvMax    int   // Adversary: thread 0 gets a step after this many steps of the others anyway (0: never)
	Soft      int64 // from this step on the schedule is uniform (fair)
	Hard      int64 // from this step on the run is a livelock
	OpLimit   int64 // own steps of one operation, 0: unlimited
	Limit0    bool  // OpLimit applies to thread 0 only
	Clock     int64 // start of the logical clock
	LevelBias int   // 0: uniform source; 1..1000: chance of a "go up" draw; -1: never; 1000: always
}

const (
	OK = iota
	Deadlock
	Livelock
	OpTooLong
	ReaderBlocked
)

var OutcomeName = []string{"ok", "deadlock", "livelock", "operation exceeded its step bound", "reader blocked on a suspended goroutine"}

type Sched struct {
	cfg     Config
	threads []*Thread
	cur     *Thread
	clock   int64
	rng     Rng
	Hash    uint64
	Outcome int
	Who     int // thread of an OpTooLong/ReaderBlocked outcome
	done    chan struct{}
	ended   bool
	runLen  int
	lastRun *Thread
	// PCT
	chg []int64
	low int
	// Park
	victim    *Thread
	parkAt    int64
	parkUntil int64
	// Freeze
	frozen     bool
	Frozen     bool // the freeze took place while a thread was inside an operation
	FrozenIn   int  // number of threads frozen inside an operation
	Switches   int
	advTarget  int
	advWait    int
	Preempts   int
	LockBlocks int
}

// Run executes bodies as threads under cfg and returns when all are done or the run was
// given up (Outcome != OK; its goroutines are then left parked for good).
func Run(cfg Config, bodies []func(t *Thread)) *Sched {
	s := &Sched{cfg: cfg, clock: cfg.Clock, rng: Mk(cfg.Seed), done: make(chan struct{}, 1), Who: -1}
	if s.cfg.Soft == 0 {
		s.cfg.Soft = 1 << 60
	}
	if s.cfg.Hard == 0 {
		s.cfg.Hard = 1 << 61
	}
	s.cfg.Soft += cfg.Clock
	s.cfg.Hard += cfg.Clock
	n := len(bodies)
	for i := 0; i < n; i++ {
		t := &Thread{ID: i, wake: make(chan struct{}, 1), fin: make(chan struct{}), prio: 1000 + i}
		t.rnd = Mk(cfg.Seed ^ uint64(i+1)*0xABCDEF123457)
		s.threads = append(s.threads, t)
	}
	switch cfg.Strat {
	case PCT:
		for i := n - 1; i > 0; i-- {
			j := s.rng.Intn(i + 1)
			a, b := s.threads[i], s.threads[j]
			a.prio, b.prio = b.prio, a.prio
		}
		for i := 0; i < cfg.Changes; i++ {
			s.chg = append(s.chg, cfg.Clock+int64(s.rng.Intn(cfg.Horizon+1)))
		}
		s.low = 999
	case Park:
		s.newVictim()
	case Freeze:
		s.threads[0].parked = true
		s.cfg.FreezeAt += cfg.Clock
	case Adversary:
	}
	for i, t := range s.threads {
		go s.thread(t, bodies[i])
	}
	active = s
	Mode = Ctl
	first := s.threads[0]
	if !cfg.First {
		first = s.choose(nil)
	}
	s.cur = first
	raceDisable()
	first.wake <- struct{}{}
	<-s.done
	raceEnable()
	Mode = Off
	active = nil
	if s.Outcome == OK {
		for _, t := range s.threads {
			<-t.fin
		}
	}
	return s
}

func (s *Sched) thread(t *Thread, body func(*Thread)) {
	raceDisable()
	<-t.wake
	raceEnable()
	normal := false
	defer func() {
		if !normal {
			if r := recover(); r != nil {
				t.PanicVal = r
				t.PanicStack = string(debug.Stack())
			} else {
				t.Exited = true
			}
		}
		s.finish(t)
		close(t.fin)
	}()
	body(t)
	normal = true
}

func (s *Sched) finish(t *Thread) {
	t.st = stDone
	if s.ended {
		return
	}
	next := s.choose(t)
	if next == nil {
		for _, u := range s.threads {
			if u.st != stDone {
				s.Outcome = Deadlock
			}
		}
		s.end()
		return
	}
	s.cur = next
	raceDisable()
	next.wake <- struct{}{}
	raceEnable()
}

func (s *Sched) end() {
	s.ended = true
	raceDisable()
	s.done <- struct{}{}
	raceEnable()
}

// giveUp ends the run; the calling goroutine never returns.
func (s *Sched) giveUp(outcome int, t *Thread) {
	s.Outcome = outcome
	s.Who = t.ID
	s.end()
	select {}
}

func (s *Sched) Threads() []*Thread { return s.threads }
func (s *Sched) Steps() int64       { return s.clock - s.cfg.Clock }
func (s *Sched) Clock() int64       { return s.clock }

// switchTo hands control to next and waits for it to come back to t.
func (s *Sched) switchTo(t, next *Thread) {
	if next == t {
		return
	}
	s.Switches++
	s.cur = next
	raceDisable()
	next.wake <- struct{}{}
	<-t.wake
	raceEnable()
}

func (s *Sched) newVictim() {
	s.victim = nil
	live := 0
	for _, u := range s.threads {
		if u.st != stDone {
			live++
		}
	}
	if live < 2 {
		return
	}
	k := s.rng.Intn(live)
	if s.cfg.First && s.threads[0].st != stDone {
		s.victim = s.threads[0]
		s.parkAt = s.victim.steps + 1 + int64(s.rng.Intn(s.cfg.Horizon))
		return
	}
	for _, u := range s.threads {
		if u.st != stDone {
			if k == 0 {
				s.victim = u
				break
			}
			k--
		}
	}
	s.parkAt = s.victim.steps + 1 + int64(s.rng.Intn(1+s.rng.Intn(s.cfg.Horizon+1)))
}

// choose picks the next thread; nil if no thread can run. t is the current one (or nil).
func (s *Sched) choose(t *Thread) *Thread {
	var buf [16]*Thread
	for {
		c := buf[:0]
		parked := false
		tOK := false
		for _, u := range s.threads {
			if u.st == stRun {
				if u.parked {
					parked = true
				} else {
					c = append(c, u)
					if u == t {
						tOK = true
					}
				}
			}
		}
		if len(c) == 0 {
			if s.cfg.Strat == Freeze && s.frozen {
				if s.threads[0].st == stBlocked {
					s.Outcome = ReaderBlocked
					s.Who = 0
					return nil
				}
			}
			if !parked {
				return nil
			}
			for _, u := range s.threads {
				u.parked = false
			}
			if s.cfg.Strat == Freeze && !s.frozen {
				s.frozen = true // writers ended before the freeze point
			}
			if s.cfg.Strat == Park {
				s.newVictim()
			}
			continue
		}
		if len(c) == 1 {
			return c[0]
		}
		if s.clock > s.cfg.Soft {
			return c[s.rng.Intn(len(c))]
		}
		switch s.cfg.Strat {
		case Uniform:
			return c[s.rng.Intn(len(c))]
		case Sticky, Park, Freeze:
			if tOK && s.rng.Intn(1000) >= s.cfg.Switch {
				return t
			}
			return c[s.rng.Intn(len(c))]
		case PCT:
			for i, p := range s.chg {
				if p >= 0 && s.clock >= p {
					s.chg[i] = -1
					if tOK {
						s.low--
						t.prio = s.low
					}
				}
			}
			if t == s.lastRun {
				s.runLen++
			} else {
				s.runLen, s.lastRun = 0, t
			}
			if s.runLen > 400 && tOK { // probably spinning
				s.low--
				t.prio = s.low
				s.runLen = 0
			}
			best := c[0]
			for _, u := range c[1:] {
				if u.prio > best.prio {
					best = u
				}
			}
			return best
		case Adversary:
			// thread 0 gets one step, then the others complete AdvOps operations
			sum := 0
			for _, u := range s.threads[1:] {
				sum += u.ops
			}
			s.advWait++
			if s.threads[0].st == stRun && (sum >= s.advTarget || len(c) == 1 || s.cfg.AdvMax > 0 && s.advWait > s.cfg.AdvMax) {
				s.advTarget = sum + s.cfg.AdvOps
				s.advWait = 0
				return s.threads[0]
			}
			k := len(c)
			if tOK && t.ID != 0 && s.rng.Intn(1000) >= s.cfg.Switch {
				return t
			}
			for {
				u := c[s.rng.Intn(k)]
				if u.ID != 0 {
					return u
				}
			}
		}
		panic("vsched: strategy")
	}
}

//go:noinline
func Point(kind uint64) {
	if Mode == Delay {
		delayPoint()
		return
	}
	s := active
	if s == nil || s.ended {
		if s != nil {
			select {}
		}
		return
	}
	s.point(kind)
}

func (s *Sched) point(kind uint64) {
	t := s.cur
	t.steps++
	s.clock++
	if s.cfg.OpLimit > 0 && t.opDepth > 0 && t.steps-t.opStart > s.cfg.OpLimit && (t.ID == 0 || !s.cfg.Limit0) {
		s.giveUp(OpTooLong, t)
	}
	if s.clock > s.cfg.Hard {
		s.giveUp(Livelock, t)
	}
	switch s.cfg.Strat {
	case Park:
		if v := s.victim; v != nil {
			if v.parked {
				if s.clock >= s.parkUntil {
					v.parked = false
					s.newVictim()
				}
			} else if v.st == stDone {
				s.newVictim()
			} else if v == t && v.steps >= s.parkAt {
				v.parked = true
				m := 1 + s.rng.Intn(s.cfg.ParkMax)
				s.parkUntil = s.clock + int64(s.cfg.ParkMin+1+s.rng.Intn(m))
			}
		}
	case Freeze:
		if !s.frozen && s.clock >= s.cfg.FreezeAt {
			s.frozen = true
			for _, u := range s.threads[1:] {
				u.parked = true
				if u.st != stDone && u.opDepth > 0 {
					s.FrozenIn++
				}
			}
			s.threads[0].parked = false
		}
	}
	next := s.choose(t)
	if next == nil { // cannot happen while t runs, except for a lone parked thread
		next = t
	}
	s.Hash = Mix(s.Hash, uint64(next.ID)<<8|kind)
	if next != t {
		s.Preempts++
		s.switchTo(t, next)
	}
}

// Acquire is called before locking the real mutex, which is then free.
//
//go:noinline
func Acquire(l *LockState, write bool) {
	s := active
	if s == nil {
		return
	}
	s.point(KLock)
	t := s.cur
	for l.held || (write && l.readers > 0) {
		s.LockBlocks++
		t.st = stBlocked
		t.lock, t.wlock = l, write
		next := s.choose(t)
		if next == nil {
			o := Deadlock
			if s.Outcome == ReaderBlocked {
				o = ReaderBlocked
			}
			s.giveUp(o, t)
		}
		s.Hash = Mix(s.Hash, uint64(next.ID)<<8|0x77)
		s.switchTo(t, next)
	}
	if write {
		l.held = true
	} else {
		l.readers++
	}
}

// TryAcquire reports whether the lock was free, and takes it if so.
//
//go:noinline
func TryAcquire(l *LockState, write bool) bool {
	s := active
	if s == nil {
		return true
	}
	s.point(KLock)
	if l.held || (write && l.readers > 0) {
		return false
	}
	if write {
		l.held = true
	} else {
		l.readers++
	}
	return true
}

// PreRelease is called before unlocking the real mutex.
//
//go:noinline
func PreRelease(l *LockState, write bool) {
	s := active
	if s == nil {
		return
	}
	s.point(KUnlock)
	if write && !l.held || !write && l.readers == 0 {
		panic("vsched: unlock of an unlocked mutex")
	}
}

// Release is called after unlocking the real mutex.
//
//go:noinline
func Release(l *LockState, write bool) {
	s := active
	if s == nil {
		return
	}
	if write {
		l.held = false
	} else {
		l.readers--
	}
	for _, u := range s.threads {
		if u.st == stBlocked && u.lock == l {
			u.st = stRun
			u.lock = nil
		}
	}
}

// ---------------------------------------------------------------- client side

// Begin marks the start of an operation of the current thread and returns its call time.
//
//go:noinline
func Begin() int64 {
	s := active
	if s == nil { // free running
		return 0
	}
	t := s.cur
	if t.opDepth == 0 {
		t.opStart = t.steps
	}
	t.opDepth++
	s.clock++
	return s.clock
}

// End marks the end of an operation and returns its return time.
//
//go:noinline
func End() int64 {
	s := active
	if s == nil { // free running
		return 0
	}
	t := s.cur
	t.opDepth--
	t.ops++
	s.clock++
	return s.clock
}

// Now advances and returns the logical clock.
//
//go:noinline
func Now() int64 {
	s := active
	s.clock++
	return s.clock
}

// ResetOpSteps restarts the step bound of the current operation (used at callbacks).
//
//go:noinline
func ResetOpSteps() {
	s := active
	s.cur.opStart = s.cur.steps
}

// OwnSteps returns the number of steps the current thread has taken.
//
//go:noinline
func OwnSteps() int64 { return active.cur.steps }

// Current returns the ID of the running thread.
//
//go:noinline
func Current() int { return active.cur.ID }

// ---------------------------------------------------------------- random source of the package

// Draw returns a value below n for the package's random levels (n = 0: any uint32).
//
//go:noinline
func Draw(n uint32) (uint32, bool) {
	s := active
	if Mode != Ctl || s == nil {
		return 0, false
	}
	r := &s.cur.rnd
	b := s.cfg.LevelBias
	if n == 0 {
		x := uint32(r.Next())
		if b > 0 {
			for k := 0; k < 40 && r.Intn(1000) < b; k++ {
				x <<= 2
			}
		}
		return x, true
	}
	switch {
	case b == 0:
		return uint32(r.Intn(int(n))), true
	case b < 0:
		return n - 1, true
	case b >= 1000: // "always", but not for ever: the unbounded draw loop must end
		if r.Intn(24) == 0 {
			return n - 1, true
		}
		return 0, true
	}
	if r.Intn(1000) < b {
		return 0, true
	}
	if n == 1 {
		return 0, true
	}
	return 1 + uint32(r.Intn(int(n-1))), true
}

// ---------------------------------------------------------------- free-running delays

// DelayLevel scales the delays of mode Delay.
var DelayLevel uint32 = 16

func delayPoint() {
	x := mrand.Uint32()
	if x%DelayLevel != 0 {
		return
	}
	switch y := x >> 20; {
	case y < 64:
		time.Sleep(time.Duration(1+x>>28) * time.Microsecond)
	case y < 1024:
		runtime.Gosched()
	default:
		for i := uint32(0); i < y&255; i++ {
			spin++
		}
	}
}

var spin uint32

func (t *Thread) String() string { return fmt.Sprintf("g%d", t.ID) }
func (t *Thread) Steps() int64   { return t.steps }

// Progress returns the clock of the active run, for a watchdog.
func Progress() (int64, bool) {
	s := active
	if s == nil {
		return 0, false
	}
	return s.clock, true
}
