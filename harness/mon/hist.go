package mon

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"verif/variants"
	"verif/vsched"
)

// Violation classes. A check reports the classes its property speaks about.
const (
	LIN     = "LIN"     // Add/Remove/Contains history of a value is not linearizable
	CONS    = "CONS"    // accounting of successes against contents
	ORDER   = "ORDER"   // iteration order, duplicates, calls after stop
	RANGE   = "RANGE"   // Range visibility
	RFROM   = "RFROM"   // RangeFrom lower bound and visibility
	LEN     = "LEN"     // Len
	PROG    = "PROG"    // deadlock, livelock, lost lock
	APART   = "APART"   // an update waits for one that is none of its business
	WF      = "WF"      // a read waits for others or takes too many steps
	PANIC   = "PANIC"   // panic out of an operation
	CORRUPT = "CORRUPT" // a value nobody supplied
	SEQ     = "SEQ"     // differs from the sequential model
	RACE    = "RACE"
	OWN     = "OWN" // ownership/publication
	CMP     = "CMP"
	COST    = "COST"
	LEAK    = "LEAK"
	ISO     = "ISO"
	CB      = "CB"
	REP     = "REP" // wrong representative among equal values
)

// Violation is a refuted property with its witness.
type Violation struct {
	Class   string `json:"class"`
	Variant string `json:"variant"`
	Engine  string `json:"engine"`
	Index   int    `json:"index"`
	Msg     string `json:"msg"`
	Detail  string `json:"detail"`
}

// Step is one operation of a program.
type Step struct {
	Kind    int
	K, R    int
	Stop    int
	InnerAt int
	Inner   []Step
	Leave   int // at report LeaveAt the callback 1: panics, 2: exits the goroutine
	LeaveAt int

	Pairs, PairK int // before: so many times Add and Remove of a value nobody else updates, not recorded
}

// Prog is a concurrent program on one set.
type Prog struct {
	Past    int // the set has a long past: what it consists of (see live), how long it was
	PastN   int
	Prefill [][2]int
	Threads [][]Step
	Toggled []int // values that the audit toggles, nil: all
}

// Weights of the operation kinds.
type Weights [nKinds]int

func (w Weights) pick(r *vsched.Rng) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	n := r.Intn(sum)
	for k, x := range w {
		if n < x {
			return k
		}
		n -= x
	}
	return 0
}

// GenOpts shape the random programs.
type GenOpts struct {
	MinThreads, MaxThreads int
	MaxOps                 int
	W                      Weights
	Inner                  bool  // operations from inside callbacks
	Ranks                  []int // the values to use, nil: all
	StopCB                 bool
}

func genStep(r *vsched.Rng, b *variants.Binding, o *GenOpts, hot int, depth int) Step {
	st := Step{Kind: o.W.pick(r), Stop: -1, InnerAt: -1}
	if hot >= 0 && r.Chance(1, 2) {
		st.K = hot
	} else {
		st.K = r.Intn(b.K)
		if o.Ranks != nil {
			st.K = o.Ranks[r.Intn(len(o.Ranks))]
		}
	}
	st.R = r.Intn(b.Reps(st.K))
	if st.Kind == OpRange || st.Kind == OpRangeFrom {
		if o.StopCB && r.Chance(1, 4) {
			st.Stop = r.Intn(b.K)
		}
		if o.Inner && depth == 0 && r.Chance(1, 3) {
			st.InnerAt = r.Intn(b.K)
			for i, n := 0, 1+r.Intn(3); i < n; i++ {
				st.Inner = append(st.Inner, genStep(r, b, o, hot, depth+1))
			}
		}
	}
	return st
}

// GenProg draws a program.
func GenProg(r *vsched.Rng, b *variants.Binding, o *GenOpts) *Prog {
	p := &Prog{}
	genPast(r, p)
	fillRate := []int{0, 0, 30, 60, 100}[r.Intn(5)]
	if r.Chance(1, 12) { // a burst of first updates on a new set
		for i, n := 0, o.MinThreads+r.Intn(o.MaxThreads-o.MinThreads+1); i < n; i++ {
			var t []Step
			for j, m := 0, 1+r.Intn(3); j < m; j++ {
				st := Step{Kind: OpAdd, Stop: -1, InnerAt: -1, K: r.Intn(b.K)}
				if o.Ranks != nil {
					st.K = o.Ranks[r.Intn(len(o.Ranks))]
				}
				if j > 0 {
					st = genStep(r, b, o, -1, 0)
				}
				st.R = r.Intn(b.Reps(st.K))
				t = append(t, st)
			}
			p.Threads = append(p.Threads, t)
		}
		return p
	}
	perm := make([]int, b.K)
	for i := range perm {
		perm[i] = i
		j := r.Intn(i + 1)
		perm[i], perm[j] = perm[j], i
	}
	for _, k := range perm {
		if r.Intn(100) < fillRate {
			p.Prefill = append(p.Prefill, [2]int{k, r.Intn(b.Reps(k))})
		}
	}
	hot := -1
	if r.Chance(1, 2) {
		hot = r.Intn(b.K)
		if o.Ranks != nil {
			hot = o.Ranks[r.Intn(len(o.Ranks))]
		}
	}
	n := o.MinThreads + r.Intn(o.MaxThreads-o.MinThreads+1)
	w := *o
	for i := 0; i < n; i++ {
		// some threads specialise
		switch r.Intn(6) {
		case 0:
			w.W = o.W
			w.W[OpAdd] *= 6
		case 1:
			w.W = o.W
			w.W[OpRemove] *= 6
		case 2:
			w.W = o.W
			for k := OpContains; k < nKinds; k++ {
				w.W[k] *= 6
			}
		default:
			w.W = o.W
		}
		var t []Step
		for j, m := 0, 1+r.Intn(o.MaxOps); j < m; j++ {
			t = append(t, genStep(r, b, &w, hot, 0))
		}
		p.Threads = append(p.Threads, t)
	}
	return p
}

var pasts = []string{"", "one value added and removed", "random updates", "failing Adds", "failing Removes", "iterations left by a panic", "reads"}

// genPast gives few sets a past long enough for small counters to overflow.
func genPast(r *vsched.Rng, p *Prog) {
	switch {
	case r.Chance(1, 64):
		p.PastN = 130 + r.Intn(500)
	case r.Chance(1, 8000):
		p.PastN = 66000
	default:
		return
	}
	p.Past = 1 + r.Intn(len(pasts)-1)
}

// live gives the set its past, at the end of which it is empty.
func (p *Prog) live(b *variants.Binding, set variants.Set, seed uint64, begin, end func() int64) {
	r := vsched.NewRng(seed)
	do := func(f func()) {
		begin()
		f()
		end()
	}
	fill := func() {
		for k := 0; k < b.K; k++ {
			do(func() { set.Add(k, r.Intn(b.Reps(k))) })
		}
	}
	clear := func() {
		for k := 0; k < b.K; k++ {
			do(func() { set.Remove(k, 0) })
		}
	}
	hot := r.Intn(b.K)
	if p.Past == 1 && r.Chance(1, 2) {
		fill()
	} else if p.Past > 2 && p.Past != 4 {
		fill()
	}
	for j := 0; j < p.PastN; j++ {
		k := r.Intn(b.K)
		do(func() {
			switch p.Past {
			case 1:
				if j%2 == 0 {
					set.Remove(hot, 0)
				} else {
					set.Add(hot, 0)
				}
			case 2:
				if r.Chance(1, 2) {
					set.Add(k, r.Intn(b.Reps(k)))
				} else {
					set.Remove(k, 0)
				}
			case 3:
				set.Add(k, 0)
			case 4:
				set.Remove(k, 0)
			case 5:
				breakOff(set, k-r.Intn(2)*(k+1), 0)
			default:
				switch r.Intn(4) {
				case 0:
					set.Contains(k, 0)
				case 1:
					set.Len()
				case 2:
					set.Range(func(int, int) bool { return false })
				default:
					set.RangeFrom(k, 0, func(int, int) bool { return false })
				}
			}
		})
	}
	clear()
}

// GenSched draws a schedule configuration.
func GenSched(r *vsched.Rng, steps int) vsched.Config {
	c := vsched.Config{Seed: r.Next(), Soft: 30000, Hard: 600000}
	switch r.Intn(10) {
	case 0:
		c.Strat = vsched.Uniform
	case 1, 2:
		c.Strat = vsched.Sticky
		c.Switch = []int{10, 30, 100, 250}[r.Intn(4)]
	case 3, 4, 5:
		c.Strat = vsched.PCT
		c.Changes = 1 + r.Intn(8)
		c.Horizon = steps
	default:
		c.Strat = vsched.Park
		c.Switch = []int{0, 5, 20, 100, 300, 800}[r.Intn(6)]
		c.Horizon = []int{20, 60, 150, 400}[r.Intn(4)]
		c.ParkMax = []int{50, 300, 2000, 20000}[r.Intn(4)]
	}
	c.LevelBias = []int{0, 0, 250, 500, 500, 750, 900, 1000, -1}[r.Intn(9)]
	return c
}

// Runner executes programs on one set and records the history.
type Runner struct {
	B    *variants.Binding
	Set  variants.Set
	Recs [][]*Rec // per thread; last: audit

	native bool // free-running: time is a shared counter
	ids    bool // compare goroutine ids in callbacks (slow)
	clk    atomic.Int64
	wrong  string // what was wrong with steps that are not recorded
}

func (h *Runner) begin() int64 {
	if h.native {
		return h.clk.Add(1)
	}
	return vsched.Begin()
}

func (h *Runner) end() int64 {
	if h.native {
		return h.clk.Add(1)
	}
	return vsched.End()
}

func (h *Runner) now() int64 {
	if h.native {
		return h.clk.Add(1)
	}
	return vsched.Now()
}

func (h *Runner) current() int {
	if h.native {
		return 0
	}
	return vsched.Current()
}

// goid is the beginning of the goroutine's stack trace, with its number.
func goid() string {
	var b [32]byte
	s := string(b[:runtime.Stack(b[:], false)])
	if i := strings.IndexByte(s, '['); i > 0 {
		s = s[:i]
	}
	return s
}

func (h *Runner) exec(th int, st *Step, audit bool) {
	for j := 0; j < st.Pairs; j++ {
		a := h.Set.Add(st.PairK, 0)
		if b := h.Set.Remove(st.PairK, 0); !a || !b {
			h.wrong = fmt.Sprintf("Add(%s) = %v and Remove(%s) = %v after %d such pairs; nobody else updates the value, which was absent",
				h.B.Show(st.PairK, 0), a, h.B.Show(st.PairK, 0), b, j)
			break
		}
	}
	rec := &Rec{Th: th, Kind: st.Kind, K: st.K, R: st.R, Stop: st.Stop, Audit: audit}
	h.Recs[th] = append(h.Recs[th], rec)
	rec.Call = h.begin()
	if st.Leave > 0 {
		defer func() {
			if rec.Done {
				return
			}
			rec.Ret = h.end()
			rec.Done = true
			if p := recover(); p != nil {
				if _, ok := p.(planned); !ok {
					panic(p)
				}
			}
		}()
	}
	switch st.Kind {
	case OpAdd:
		rec.Res = h.Set.Add(st.K, st.R)
	case OpRemove:
		rec.Res = h.Set.Remove(st.K, st.R)
	case OpContains:
		rec.Res = h.Set.Contains(st.K, st.R)
	case OpLen:
		rec.N = h.Set.Len()
	default:
		me := h.current()
		id := ""
		if h.ids {
			id = goid()
		}
		from := rec.Call
		stopped := false
		i := 0
		cb := func(k, r int) bool {
			at := h.now()
			if h.current() != me || rec.Done || id != "" && id != goid() {
				rec.WrongG = true
			}
			if stopped {
				rec.AfterStop = true
			}
			if len(rec.Reports) > 4*h.B.K+16 {
				rec.AfterStop = true // runaway iteration
				return false
			}
			rec.Reports = append(rec.Reports, Report{k, r, from, at})
			if i == st.InnerAt {
				for j := range st.Inner {
					h.exec(th, &st.Inner[j], audit)
				}
			}
			if st.Leave > 0 && i == st.LeaveAt {
				stopped = true
				rec.Stop = i
				rec.Left = st.Leave
				if st.Leave == 1 {
					panic(planned{})
				}
				runtime.Goexit()
			}
			i++
			if i-1 == st.Stop {
				stopped = true
				return false
			}
			from = h.now()
			return true
		}
		if st.Kind == OpRange {
			h.Set.Range(cb)
		} else {
			h.Set.RangeFrom(st.K, st.R, cb)
		}
		rec.Swallowed = rec.Left > 0
	}
	rec.Ret = h.end()
	rec.Done = true
}

// Outcome of a run.
type Outcome struct {
	Viol      []Violation
	Steps     int64
	Hash      uint64
	Ops       int
	Overlaps  int
	Preempts  int
	FrozenIn  int
	LockWaits int
	Inconcl   bool
	Hist      string
}

func (h *Runner) all() []*Rec {
	var l []*Rec
	for _, t := range h.Recs {
		l = append(l, t...)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Call < l[j].Call })
	return l
}

// Dump writes the history out.
func (h *Runner) Dump() string {
	var sb strings.Builder
	for _, r := range h.all() {
		sb.WriteString(r.format(h.B))
		sb.WriteByte('\n')
	}
	return sb.String()
}

func describeAbort(s *vsched.Sched) string {
	m := vsched.OutcomeName[s.Outcome]
	if s.Who >= 0 {
		m += fmt.Sprintf(" (g%d)", s.Who)
	}
	return fmt.Sprintf("%s after %d steps", m, s.Steps())
}

// collect adds outcome data of a scheduler run; false if the run was given up.
func (h *Runner) collect(o *Outcome, s *vsched.Sched, phase string) bool {
	o.Steps += s.Steps()
	o.Hash = vsched.Mix(o.Hash, s.Hash)
	o.Preempts += s.Preempts
	o.FrozenIn += s.FrozenIn
	o.LockWaits += s.LockBlocks
	bad := false
	for _, t := range s.Threads() {
		if t.PanicVal != nil {
			o.Viol = append(o.Viol, Violation{Class: PANIC, Msg: fmt.Sprintf("%s: panic in g%d: %v", phase, t.ID, t.PanicVal), Detail: t.PanicStack})
			bad = true
		}
	}
	if bad {
		return false
	}
	if s.Outcome != vsched.OK {
		c := PROG
		if s.Outcome == vsched.ReaderBlocked || s.Outcome == vsched.OpTooLong {
			c = WF
		}
		if phase != "concurrent phase" {
			// an operation does not end although it is the only one: the set is stuck at rest
			c = PROG
			o.Viol = append(o.Viol, Violation{Class: CONS, Msg: phase + ", nothing else in flight: " + describeAbort(s)})
		}
		o.Viol = append(o.Viol, Violation{Class: c, Msg: phase + ": " + describeAbort(s)})
		return false
	}
	return true
}

// auditSteps is a sequential program that reads everything and toggles every value.
func auditSteps(b *variants.Binding, p *Prog) (read, toggle []Step) {
	which := p.Toggled
	if which == nil {
		for k := 0; k < b.K; k++ {
			which = append(which, k)
		}
	}
	for k := 0; k < b.K; k++ {
		read = append(read, Step{Kind: OpContains, K: k, Stop: -1, InnerAt: -1})
	}
	read = append(read, Step{Kind: OpRange, Stop: -1, InnerAt: -1}, Step{Kind: OpLen})
	for _, k := range which {
		read = append(read, Step{Kind: OpRangeFrom, K: k, R: b.Reps(k) - 1, Stop: -1, InnerAt: -1})
	}
	for j := len(which) - 1; j >= 0; j-- {
		k := which[j]
		for _, kind := range []int{OpRemove, OpContains, OpAdd, OpAdd, OpContains, OpRemove, OpRemove, OpContains, OpAdd} {
			toggle = append(toggle, Step{Kind: kind, K: k, Stop: -1, InnerAt: -1})
		}
	}
	toggle = append(toggle, Step{Kind: OpRange, Stop: -1, InnerAt: -1}, Step{Kind: OpLen})
	return
}

// newRunner makes a set and the recorder of its history.
func newRunner(b *variants.Binding, p *Prog, cfg *vsched.Config) *Runner {
	return &Runner{B: b, Set: b.New(), ids: cfg.Seed&15 == 0, Recs: make([][]*Rec, len(p.Threads)+2)}
}

// setup gives the set its past and first members; it returns the time and whether all went well.
func (h *Runner) setup(o *Outcome, p *Prog, single vsched.Config, seed uint64, clock int64) (int64, bool) {
	b, n := h.B, len(p.Threads)
	single.Clock = clock
	if p.Past > 0 {
		s := vsched.Run(single, []func(*vsched.Thread){func(*vsched.Thread) {
			p.live(b, h.Set, seed, vsched.Begin, vsched.End)
		}})
		clock = s.Clock() + 1
		if !h.collect(o, s, "sequential past ("+pasts[p.Past]+")") {
			return clock, false
		}
	}
	if len(p.Prefill) > 0 {
		single.Clock = clock
		s := vsched.Run(single, []func(*vsched.Thread){func(*vsched.Thread) {
			for _, kr := range p.Prefill {
				h.exec(n, &Step{Kind: OpAdd, K: kr[0], R: kr[1], Stop: -1, InnerAt: -1}, true)
			}
		}})
		clock = s.Clock() + 1
		if !h.collect(o, s, "sequential prefill") {
			o.Hist = h.Dump()
			return clock, false
		}
	}
	return clock, true
}

func (h *Runner) audit(o *Outcome, p *Prog, single vsched.Config, clock int64) {
	single.Seed ^= 99
	single.Clock = clock
	rd, tg := auditSteps(h.B, p)
	n := len(p.Threads)
	s := vsched.Run(single, []func(*vsched.Thread){func(*vsched.Thread) {
		for i := range rd {
			h.exec(n+1, &rd[i], true)
		}
		for i := range tg {
			h.exec(n+1, &tg[i], true)
		}
	}})
	h.collect(o, s, "sequential audit")
}

// RunProg runs prefill, program and audit and applies the oracles.
func RunProg(b *variants.Binding, p *Prog, cfg vsched.Config, audit bool) (*Runner, *Outcome) {
	h := newRunner(b, p, &cfg)
	n := len(p.Threads)
	o := &Outcome{}
	single := vsched.Config{Seed: cfg.Seed ^ 77, OpLimit: 200000, LevelBias: cfg.LevelBias}
	clock, ok := h.setup(o, p, single, cfg.Seed, 1)
	if !ok {
		return h, o
	}
	bodies := make([]func(*vsched.Thread), n)
	for i := range bodies {
		i := i
		bodies[i] = func(*vsched.Thread) {
			for j := range p.Threads[i] {
				h.exec(i, &p.Threads[i][j], false)
			}
		}
	}
	cfg.Clock = clock
	s := vsched.Run(cfg, bodies)
	ok = h.collect(o, s, "concurrent phase")
	if ok && audit {
		h.audit(o, p, single, s.Clock()+1)
	}
	h.oracles(o)
	if len(o.Viol) > 0 {
		o.Hist = h.Dump()
	}
	return h, o
}

// RunSeveral runs one program on each of several sets: goroutine i executes the steps of the
// i-th goroutine of each program, in random alternation. The histories are checked apart.
func RunSeveral(bs []*variants.Binding, ps []*Prog, cfg vsched.Config) []*Outcome {
	var hs []*Runner
	var os []*Outcome
	n := 0
	clock := int64(1)
	single := vsched.Config{Seed: cfg.Seed ^ 77, OpLimit: 200000, LevelBias: cfg.LevelBias}
	for i, b := range bs {
		h, o := newRunner(b, ps[i], &cfg), &Outcome{}
		hs, os = append(hs, h), append(os, o)
		if len(ps[i].Threads) > n {
			n = len(ps[i].Threads)
		}
	}
	for i, h := range hs {
		ok := false
		if clock, ok = h.setup(os[i], ps[i], single, cfg.Seed, clock); !ok {
			return os
		}
	}
	bodies := make([]func(*vsched.Thread), n)
	for i := range bodies {
		i := i
		r := vsched.NewRng(cfg.Seed ^ uint64(i+1)*0x9e3779b97f4a7c15)
		next := make([]int, len(hs))
		bodies[i] = func(*vsched.Thread) {
			for {
				var left []int
				for j, p := range ps {
					if i < len(p.Threads) && next[j] < len(p.Threads[i]) {
						left = append(left, j)
					}
				}
				if len(left) == 0 {
					return
				}
				j := left[r.Intn(len(left))]
				next[j]++
				hs[j].exec(i, &ps[j].Threads[i][next[j]-1], false)
			}
		}
	}
	cfg.Clock = clock
	s := vsched.Run(cfg, bodies)
	clock = s.Clock() + 1
	ok := hs[0].collect(os[0], s, "concurrent phase")
	for i, h := range hs {
		if ok {
			h.audit(os[i], ps[i], single, clock)
		}
		h.oracles(os[i])
		if len(os[i].Viol) > 0 {
			os[i].Hist = h.Dump()
		}
	}
	return os
}

// RunNative runs the program free-running; audit is always on.
func RunNative(b *variants.Binding, p *Prog) (*Runner, *Outcome) {
	h := &Runner{B: b, Set: b.New(), native: true, ids: len(p.Threads[0])&7 == 0}
	SetKind(b.Name)
	n := len(p.Threads)
	h.Recs = make([][]*Rec, n+2)
	o := &Outcome{}
	var mu sync.Mutex
	guard := func(th int, f func()) (ok bool) {
		defer func() {
			if !ok {
				v := Violation{Class: PANIC, Variant: b.Name, Msg: fmt.Sprintf("panic in g%d: %v", th, recover()), Detail: string(debug.Stack())}
				mu.Lock()
				o.Viol = append(o.Viol, v)
				mu.Unlock()
				Died(v)
			}
		}()
		f()
		return true
	}
	if p.Past > 0 {
		p.live(b, h.Set, uint64(len(p.Prefill)), h.begin, h.end)
	}
	for _, kr := range p.Prefill {
		h.exec(n, &Step{Kind: OpAdd, K: kr[0], R: kr[1], Stop: -1, InnerAt: -1}, true)
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range p.Threads {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			guard(i, func() {
				for j := range p.Threads[i] {
					h.exec(i, &p.Threads[i][j], false)
				}
			})
		}()
	}
	close(start)
	wg.Wait()
	if len(o.Viol) == 0 {
		rd, tg := auditSteps(b, p)
		SetPhase(AtRest)
		guard(n+1, func() {
			for i := range rd {
				h.exec(n+1, &rd[i], true)
			}
			for i := range tg {
				h.exec(n+1, &tg[i], true)
			}
		})
	}
	SetPhase("")
	h.oracles(o)
	for _, r := range h.all() {
		x := uint64(r.K)<<8 | uint64(r.Kind)<<4 | uint64(b2i(r.Res))
		o.Hash = vsched.Mix(o.Hash, x^uint64(r.Th)<<32)
	}
	if len(o.Viol) > 0 {
		o.Hist = h.Dump()
	}
	return h, o
}

// oracles checks the recorded history. Operations that did not return may have taken effect
// at any time since their call, or not at all.
func (h *Runner) oracles(o *Outcome) {
	b := h.B
	add := func(class, f string, a ...any) {
		if len(o.Viol) < 12 {
			o.Viol = append(o.Viol, Violation{Class: class, Msg: fmt.Sprintf(f, a...)})
		}
	}
	if h.wrong != "" {
		add(LIN, "%s", h.wrong)
	}
	recs := h.all()
	for _, r := range recs {
		if !r.Audit {
			o.Ops++
		}
	}
	// distinct overlapping pairs on one value
	for i, r := range recs {
		if r.Audit || r.Kind > OpContains {
			continue
		}
		for _, q := range recs[i+1:] {
			if q.Call > r.Ret {
				break
			}
			if q.Th != r.Th && (q.K == r.K || q.Kind > OpContains) {
				o.Overlaps++
			}
		}
	}
	// iteration protocol
	for _, r := range recs {
		if r.Kind != OpRange && r.Kind != OpRangeFrom {
			continue
		}
		if r.AfterStop {
			add(ORDER, "callback called again after it returned false (or iteration without end): %s", r.format(b))
		}
		if r.Swallowed {
			add(CB, "the call returned although its callback panicked or exited the goroutine: %s", r.format(b))
		}
		if r.WrongG {
			add(ORDER, "callback called outside its call: %s", r.format(b))
		}
		for i, p := range r.Reports {
			if p.K < 0 || p.R < 0 {
				add(CORRUPT, "iteration reported a value nobody added: %s", r.format(b))
				continue
			}
			if i > 0 && p.K <= r.Reports[i-1].K {
				add(ORDER, "values not strictly increasing: %s", r.format(b))
			}
			if r.Kind == OpRangeFrom && p.K < r.K {
				add(RFROM, "value before the start: %s", r.format(b))
			}
		}
	}
	const never = int64(1) << 61
	complete := true // all operations outside the audit returned
	for _, r := range recs {
		if !r.Done {
			r.Ret = never
			complete = complete && r.Audit
		}
	}
	// per-value histories
	base := make([][]lop, b.K)
	rng := make([][]lop, b.K)
	rfr := make([][]lop, b.K)
	for _, r := range recs {
		switch r.Kind {
		case OpAdd, OpRemove, OpContains:
			if r.Done {
				base[r.K] = append(base[r.K], lop{r.Call, r.Ret, uint8(r.Kind), r.Res, r, false})
			} else if r.Kind != OpContains {
				base[r.K] = append(base[r.K], lop{r.Call, never, uint8(r.Kind), true, r, true})
			}
		case OpRange, OpRangeFrom:
			dst := rng
			lo := 0
			if r.Kind == OpRangeFrom {
				dst, lo = rfr, r.K
			}
			stopped := r.Stop >= 0 && len(r.Reports) > r.Stop
			i := 0
			for k := lo; k < b.K; k++ {
				for i < len(r.Reports) && r.Reports[i].K < k {
					i++
				}
				if i < len(r.Reports) && r.Reports[i].K == k {
					dst[k] = append(dst[k], lop{r.Reports[i].From, r.Reports[i].At, OpContains, true, r, false})
				} else if i < len(r.Reports) {
					dst[k] = append(dst[k], lop{r.Call, r.Reports[i].At, OpContains, false, r, false})
				} else if !stopped && r.Done {
					dst[k] = append(dst[k], lop{r.Call, r.Ret, OpContains, false, r, false})
				}
			}
		}
	}
	report := func(class string, k int, ops []lop) {
		sort.Slice(ops, func(i, j int) bool { return ops[i].call < ops[j].call })
		var l []string
		for _, x := range ops {
			if x.src.Kind > OpContains {
				l = append(l, fmt.Sprintf("[%d,%d] g%d %s reads %v", x.call, x.ret, x.src.Th, kindName[x.src.Kind], x.res))
			} else {
				l = append(l, fmt.Sprintf("[%d,%d] g%d %s=%v", x.call, x.ret, x.src.Th, kindName[x.kind], x.res))
			}
			if len(l) > 80 {
				break
			}
		}
		add(class, "history of value %s has no linearization: %s", b.Show(k, 0), strings.Join(l, "; "))
	}
	for k := 0; k < b.K; k++ {
		ok, inc := linearizable(base[k], false)
		if inc {
			o.Inconcl = true
			continue
		}
		if !ok {
			report(LIN, k, base[k])
			// the reads cannot be judged on top of a broken base history by linearization;
			// fall back to what is certain
		}
		for i, extra := range [][]lop{rng[k], rfr[k]} {
			if len(extra) == 0 {
				continue
			}
			class := RANGE
			if i == 1 {
				class = RFROM
			}
			if ok {
				all := append(append([]lop{}, base[k]...), extra...)
				ok2, inc := linearizable(all, false)
				if inc {
					o.Inconcl = true
				} else if !ok2 {
					report(class, k, all)
				}
			} else {
				for _, x := range extra {
					if !possible(base[k], &x) {
						report(class, k, append(append([]lop{}, base[k]...), x))
						break
					}
				}
			}
		}
	}
	h.repOracle(recs, add)
	h.lenOracle(recs, add)
	if complete {
		h.conservation(recs, add)
		h.quiescent(recs, add)
	}
}

// repOracle: a reported representative was put there by a successful Add of exactly it, which
// was not undone by a Remove in between for sure.
func (h *Runner) repOracle(recs []*Rec, add func(class, f string, a ...any)) {
	multi := false
	for k := 0; k < h.B.K; k++ {
		multi = multi || h.B.Reps(k) > 1
	}
	if !multi {
		return
	}
	for _, r := range recs {
		for _, p := range r.Reports {
			if p.K < 0 || p.R < 0 || h.B.Reps(p.K) < 2 {
				continue
			}
			found := false
			for _, a := range recs {
				if a.Call > p.At {
					break
				}
				if a.Kind != OpAdd || a.Done && !a.Res || a.K != p.K || a.R != p.R {
					continue
				}
				gone := false
				for _, x := range recs {
					if x.Kind == OpRemove && x.Res && x.K == p.K && x.Call >= a.Ret && x.Ret <= p.From {
						gone = true
						break
					}
				}
				if !gone {
					found = true
					break
				}
			}
			if !found {
				add(REP, "%s was reported, but no successful Add of exactly that value can be the one in the set: %s", h.B.Show(p.K, p.R), r.format(h.B))
			}
		}
	}
}

// possible is a weak test of one read against updates taken at face value: a read of true is
// impossible if no successful Add started before its end, or if every one of them is followed
// by a successful Remove that started after that Add returned, returned before the read
// started, ... ; a read of false is impossible if the value was certainly a member throughout.
func possible(ops []lop, x *lop) bool {
	if x.res {
		for _, a := range ops {
			if a.kind == OpAdd && a.res && a.call <= x.ret {
				gone := false
				for _, r := range ops {
					if r.kind == OpRemove && r.res && r.call >= a.ret && r.ret <= x.call {
						gone = true
					}
				}
				if !gone {
					return true
				}
			}
		}
		return false
	}
	// surely present throughout: a successful Add returned before, and no successful Remove
	// that could have taken effect after that Add's start and before the read's end
	for _, a := range ops {
		if a.kind == OpAdd && a.res && a.ret <= x.call {
			removed := false
			for _, r := range ops {
				if r.kind == OpRemove && r.res && r.ret >= a.call && r.call <= x.ret {
					removed = true
				}
			}
			if !removed {
				return false
			}
		}
	}
	return true
}

// lenOracle: there is an instant during the call at which Len lies between the number of
// values counted for sure and the number possibly counted.
func (h *Runner) lenOracle(recs []*Rec, add func(class, f string, a ...any)) {
	type ev struct {
		t      int64
		lo, hi int
	}
	var evs []ev
	var firstAdd []int64
	seenAdd := map[int]int64{}
	for _, r := range recs {
		if r.Kind == OpAdd && (r.Res || !r.Done) {
			evs = append(evs, ev{r.Call, 0, 1}, ev{r.Ret, 1, 0})
			if t, ok := seenAdd[r.K]; !ok || r.Call < t {
				seenAdd[r.K] = r.Call
			}
		}
		if r.Kind == OpRemove && (r.Res || !r.Done) {
			evs = append(evs, ev{r.Call, -1, 0}, ev{r.Ret, 0, -1})
		}
	}
	for _, t := range seenAdd {
		firstAdd = append(firstAdd, t)
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].t < evs[j].t })
	for _, r := range recs {
		if r.Kind != OpLen || !r.Done {
			continue
		}
		distinct := 0
		for _, t := range firstAdd {
			if t < r.Ret {
				distinct++
			}
		}
		if r.N < 0 || r.N > distinct {
			add(LEN, "Len()=%d with %d distinct values added so far: %s", r.N, distinct, r.format(h.B))
			continue
		}
		lo, hi := 0, 0
		i := 0
		for i < len(evs) && evs[i].t < r.Call {
			lo += evs[i].lo
			hi += evs[i].hi
			i++
		}
		lo0, hi0 := lo, hi
		found := lo <= r.N && r.N <= hi
		for i < len(evs) && evs[i].t < r.Ret && !found {
			lo += evs[i].lo
			hi += evs[i].hi
			found = lo <= r.N && r.N <= hi
			i++
		}
		if !found {
			add(LEN, "Len()=%d fits no instant of the call (at its start the number of members was between %d and %d): %s", r.N, lo0, hi0, r.format(h.B))
		}
	}
}

// conservation: per value, successes of Add minus successes of Remove, against what the audit
// reads; and the toggling part of the audit behaves as a set.
func (h *Runner) conservation(recs []*Rec, add func(class, f string, a ...any)) {
	b := h.B
	net := make([]int, b.K)
	audit := len(h.Recs) - 1
	first := int64(-1)
	if len(h.Recs[audit]) > 0 {
		first = h.Recs[audit][0].Call
	}
	for _, r := range recs {
		if first >= 0 && r.Call >= first {
			break
		}
		if r.Kind == OpAdd && r.Res {
			net[r.K]++
		}
		if r.Kind == OpRemove && r.Res {
			net[r.K]--
		}
	}
	total := 0
	for k, n := range net {
		if n != 0 && n != 1 {
			add(CONS, "value %s: successful Adds minus successful Removes = %d", b.Show(k, 0), n)
		}
		total += n
	}
	if first < 0 {
		return
	}
	member := make([]bool, b.K)
	for k := range member {
		member[k] = net[k] > 0
	}
	ranged := -1
	for _, r := range h.Recs[audit] {
		if !r.Done {
			return
		}
		switch r.Kind {
		case OpContains:
			if r.Res != member[r.K] {
				add(CONS, "audit: Contains(%s)=%v, but membership by successes is %v", b.Show(r.K, r.R), r.Res, member[r.K])
			}
		case OpAdd:
			if r.Res == member[r.K] {
				add(CONS, "audit: Add(%s)=%v, but membership is %v", b.Show(r.K, r.R), r.Res, member[r.K])
			}
			member[r.K] = true
		case OpRemove:
			if r.Res != member[r.K] {
				add(CONS, "audit: Remove(%s)=%v, but membership is %v", b.Show(r.K, r.R), r.Res, member[r.K])
			}
			member[r.K] = false
		case OpLen:
			n := 0
			for _, m := range member {
				n += b2i(m)
			}
			if r.N != n {
				add(CONS, "audit: Len()=%d, members by successes: %d", r.N, n)
				if r.N != ranged {
					add(LEN, "at rest: Len()=%d, members by successes: %d, reported by Range: %d", r.N, n, ranged)
				}
			}
		case OpRange, OpRangeFrom:
			lo := 0
			if r.Kind == OpRangeFrom {
				lo = r.K
			} else {
				ranged = len(r.Reports)
			}
			got := make([]bool, b.K)
			for _, p := range r.Reports {
				if p.K >= 0 {
					got[p.K] = true
				}
			}
			for k := lo; k < b.K; k++ {
				if got[k] != member[k] {
					add(CONS, "audit: %s, but membership of %s by successes is %v", r.format(b), b.Show(k, 0), member[k])
					break
				}
			}
		}
	}
}

// quiescent: at rest (in the audit) the readers must agree with each other.
func (h *Runner) quiescent(recs []*Rec, add func(class, f string, a ...any)) {
	audit := h.Recs[len(h.Recs)-1]
	if len(audit) == 0 {
		return
	}
	b := h.B
	con := make([]bool, b.K)
	// an iteration or Len is wrong if it agrees neither with Contains nor with the successes
	net := make([]int, b.K)
	for _, r := range recs {
		if r.Audit || r.Call >= audit[0].Call || !r.Res {
			continue
		}
		if r.Kind == OpAdd {
			net[r.K]++
		} else if r.Kind == OpRemove {
			net[r.K]--
		}
	}
	count, members, contained := 0, 0, 0
	for _, n := range net {
		members += n
	}
	for _, r := range audit {
		if !r.Done {
			return
		}
		switch r.Kind {
		case OpContains:
			if r.Res && !con[r.K] {
				contained++
			}
			con[r.K] = r.Res
		case OpAdd, OpRemove:
			return
		case OpLen:
			if r.N != count && r.N != members && r.N != contained {
				add(LEN, "at rest: Len()=%d, Range reports %d values", r.N, count)
			}
		case OpRange, OpRangeFrom:
			class := RANGE
			lo := 0
			if r.Kind == OpRangeFrom {
				class, lo = RFROM, r.K
			} else {
				count = len(r.Reports)
			}
			got := make([]bool, b.K)
			for _, p := range r.Reports {
				if p.K >= 0 {
					got[p.K] = true
				}
			}
			for k := lo; k < b.K; k++ {
				if got[k] != con[k] && got[k] != (net[k] == 1) {
					add(class, "at rest: Contains(%s)=%v, but %s", b.Show(k, 0), con[k], r.format(b))
					break
				}
			}
		}
	}
}
