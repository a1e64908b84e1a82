package mon

import (
	"fmt"
	"sort"
	"strings"
	"sync/atomic"

	"verif/variants"
	"verif/vsched"
)

// Result of one case.
type Result struct {
	Viol       []Violation
	Hash       uint64
	Nontrivial bool
	Inconcl    bool
	Sample     string
	Variant    string
}

// Ctx accumulates what the cases of one worker observed.
type Ctx struct {
	Profile string
	Deep    bool
	Count   map[string]int64
	Trace   bool // keep histories of passing cases too
}

func (c *Ctx) add(k string, n int64) { c.Count[k] += n }
func (c *Ctx) max(k string, n int64) {
	if n > c.Count[k] {
		c.Count[k] = n
	}
}

// Engine runs case i; everything random comes from rng.
type Engine func(c *Ctx, i int, rng *vsched.Rng) *Result

// AtRest is the phase of a free-running case in which only one operation runs at a time.
const AtRest = "at rest, nothing else in flight"

var phase atomic.Value

var kind atomic.Value

// CurrentKind is the kind of set of the running free-running case.
func CurrentKind() string { s, _ := kind.Load().(string); return s }

// SetKind tells the watchdog the kind of set.
func SetKind(s string) { kind.Store(s) }

// SetPhase tells the watchdog what a free-running case is doing.
func SetPhase(s string) { phase.Store(s) }

// Phase is the current phase of a free-running case.
func Phase() string { s, _ := phase.Load().(string); return s }

// Died is called when a free-running goroutine panicked: others may wait for it forever. Set by vrun.
var Died = func(Violation) {}

// Engines by name.
var Engines = map[string]Engine{
	"hist":      HistCase,
	"nat":       NatCase,
	"seq":       SeqCase,
	"big":       BigCase,
	"freeze":    FreezeCase,
	"panic":     PanicCase,
	"less":      LessPanicCase,
	"iso":       IsoCase,
	"isofree":   IsoFreeCase,
	"apart":     ApartCase,
	"crowd":     CrowdCase,
	"isoshared": SharedIsoCase,
	"burst":     BurstCase,
}

var profiles = map[string]Weights{
	"arc":   {5, 5, 5, 0, 0, 0},
	"ar":    {5, 5, 0, 0, 0, 0},
	"cons":  {6, 6, 1, 1, 1, 0},
	"iter":  {4, 4, 0, 3, 3, 0},
	"range": {5, 5, 1, 4, 0, 0},
	"rfrom": {5, 5, 1, 0, 5, 0},
	"len":   {5, 5, 0, 1, 0, 5},
	"cb":    {4, 4, 1, 3, 3, 1},
	"all":   {5, 5, 3, 2, 2, 1},
}

func pickK(r *vsched.Rng) int {
	return []int{1, 1, 2, 2, 3, 3, 3, 4, 4, 5, 6, 8, 12, 20}[r.Intn(14)]
}

func (c *Ctx) outcome(b *variants.Binding, o *Outcome, res *Result) {
	c.add("operations", int64(o.Ops))
	c.add("scheduler steps", o.Steps)
	c.add("preemptions", int64(o.Preempts))
	c.add("overlapping operation pairs", int64(o.Overlaps))
	c.add("lock waits", int64(o.LockWaits))
	c.add("variant "+b.Name, 1)
	res.Variant = b.Name
	for _, v := range o.Viol {
		v.Variant = b.Name
		if v.Detail == "" {
			v.Detail = o.Hist
		} else {
			v.Detail += "\n" + o.Hist
		}
		res.Viol = append(res.Viol, v)
	}
	res.Hash = vsched.Mix(o.Hash, vsched.Mix(uint64(o.Ops), uint64(o.Overlaps)))
	for _, ch := range b.Name {
		res.Hash = vsched.Mix(res.Hash, uint64(ch))
	}
	res.Inconcl = o.Inconcl
}

func describe(b *variants.Binding, p *Prog, cfg *vsched.Config) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s, %d values, prefilled %d;", b.Name, b.K, len(p.Prefill))
	if p.Past > 0 {
		fmt.Fprintf(&sb, " past: %d x %s;", p.PastN, pasts[p.Past])
	}
	for i, t := range p.Threads {
		fmt.Fprintf(&sb, " g%d:", i)
		for _, st := range t {
			if st.Pairs > 0 {
				fmt.Fprintf(&sb, " %d x (Add, Remove)(%s)", st.Pairs, b.Show(st.PairK, 0))
			}
			fmt.Fprintf(&sb, " %s", kindName[st.Kind])
			if st.Kind <= OpContains || st.Kind == OpRangeFrom {
				fmt.Fprintf(&sb, "(%s)", b.Show(st.K, st.R))
			}
		}
		sb.WriteByte(';')
	}
	if cfg != nil {
		fmt.Fprintf(&sb, " strategy %s, tower bias %d", [...]string{"uniform", "sticky", "PCT", "park", "freeze", "adversary"}[cfg.Strat], cfg.LevelBias)
	}
	return sb.String()
}

// HistCase: a random program under a controlled random schedule, all history oracles.
func HistCase(c *Ctx, i int, rng *vsched.Rng) *Result {
	v := variants.Pick(i, rng)
	b := v.Bind(pickK(rng), rng.Next())
	o := GenOpts{MinThreads: 2, MaxThreads: 2 + rng.Intn(4), MaxOps: []int{2, 3, 4, 6, 9, 14}[rng.Intn(6)], W: profiles[c.Profile]}
	switch c.Profile {
	case "iter":
		o.StopCB = true
		o.Inner = rng.Chance(1, 4)
	case "cb":
		o.Inner = true
		o.StopCB = rng.Chance(1, 2)
	case "ar":
		o.MaxThreads += rng.Intn(4)
	}
	hammer := rng.Chance(1, 20) // the first goroutine is overtaken by others at every step
	if hammer {
		o.MaxThreads = 3
	}
	p := GenProg(rng, b, &o)
	if hammer {
		if t := p.Threads[0]; len(t) > 3 {
			p.Threads[0] = t[:3]
		}
		o.Inner = false
		for j := 1; j < len(p.Threads); j++ {
			for n := rng.Intn(60); len(p.Threads[j]) < n; {
				p.Threads[j] = append(p.Threads[j], genStep(rng, b, &o, -1, 0))
			}
		}
	}
	ops := 0
	for _, t := range p.Threads {
		ops += len(t)
	}
	cfg := GenSched(rng, ops*35+20)
	if hammer {
		cfg.Strat = vsched.Adversary
		cfg.AdvOps = []int{1, 1, 1, 2, 3}[rng.Intn(5)]
		cfg.AdvMax = 200 + rng.Intn(1000)
		cfg.Switch = []int{0, 20, 200, 1000}[rng.Intn(4)]
		c.add("operations overtaken at every step", int64(len(p.Threads[0])))
	}
	_, out := RunProg(b, p, cfg, true)
	res := &Result{}
	c.outcome(b, out, res)
	res.Nontrivial = out.Overlaps > 0 && out.Preempts > 0
	if i%97 == 0 || c.Trace {
		res.Sample = describe(b, p, &cfg)
	}
	return res
}

// SharedIsoCase: several sets, all used by the same goroutines; each one's history must be correct
// by itself.
func SharedIsoCase(c *Ctx, i int, rng *vsched.Rng) *Result {
	v := variants.Pick(i, rng)
	n := 2 + rng.Intn(2)
	same := rng.Chance(2, 3)
	o := GenOpts{MinThreads: 2, MaxThreads: 2 + rng.Intn(3), MaxOps: []int{3, 5, 9, 14}[rng.Intn(4)], W: profiles[c.Profile], StopCB: rng.Chance(1, 4), Inner: rng.Chance(1, 6)}
	var bs []*variants.Binding
	var ps []*Prog
	ops := 0
	for j := 0; j < n; j++ {
		w := v
		if j > 0 && !same {
			w = variants.Pick(rng.Intn(1000), rng)
		}
		b := w.Bind(pickK(rng), rng.Next())
		if j > 0 && same && rng.Chance(1, 2) {
			b = bs[0]
		}
		p := GenProg(rng, b, &o)
		if p.PastN > 1000 {
			p.Past = 0
		}
		bs, ps = append(bs, b), append(ps, p)
		for _, t := range p.Threads {
			ops += len(t)
		}
	}
	cfg := GenSched(rng, ops*35+20)
	cfg.Soft *= 2
	cfg.Hard *= 2
	res := &Result{}
	var hash uint64
	for j, out := range RunSeveral(bs, ps, cfg) {
		for x := range out.Viol {
			if w := &out.Viol[x]; w.Class != PANIC && w.Class != CORRUPT && w.Class != PROG {
				w.Msg = fmt.Sprintf("set %d of %d used by the same goroutines: %s: %s", j+1, n, w.Class, w.Msg)
				w.Class = ISO
			}
		}
		inc := res.Inconcl
		c.outcome(bs[j], out, res)
		res.Inconcl = res.Inconcl || inc
		hash = vsched.Mix(hash, res.Hash)
		res.Nontrivial = res.Nontrivial || out.Overlaps > 0
	}
	res.Hash = hash
	c.add("sets", int64(n))
	if i%97 == 0 || c.Trace {
		for j := range bs {
			res.Sample += fmt.Sprintf("set %d: ", j+1) + describe(bs[j], ps[j], nil) + " "
		}
	}
	return res
}

// CrowdCase: histories beyond the usual measure: a few contended values in a large set, many
// goroutines, or iterations nested deeply in callbacks.
func CrowdCase(c *Ctx, i int, rng *vsched.Rng) *Result {
	v := variants.Pick(i, rng)
	o := GenOpts{MinThreads: 2, MaxThreads: 2 + rng.Intn(4), MaxOps: 6, W: profiles[c.Profile], StopCB: true}
	k := pickK(rng)
	mode := []int{0, 0, 1, 2, 3}[rng.Intn(5)]
	if mode == 3 {
		return sweepCase(c, i, v, rng)
	}
	if mode == 1 && o.W[OpRange]+o.W[OpRangeFrom] == 0 {
		mode = 2 * rng.Intn(2)
	}
	switch mode {
	case 0:
		k = []int{60, 100, 150, 200, 300, 400, 600, 700, 1100, 2100}[rng.Intn(10)]
		c.add("large sets", 1)
	case 1:
		o.Inner = true
		c.add("deeply nested iterations", 1)
	case 2:
		o.MinThreads = 9 + rng.Intn(20)
		if rng.Chance(1, 3) {
			o.MinThreads = 30 + rng.Intn(110)
		}
		o.MaxThreads = o.MinThreads
		o.MaxOps = 1 + rng.Intn(3)
		k += 3
		c.add("many goroutines", 1)
		c.max("goroutines", int64(o.MinThreads))
	}
	b := v.Bind(k, rng.Next())
	if mode == 0 && b.K > 20 {
		at := rng.Intn(b.K)
		w := []int{1, 1, 1, 2, 8, b.K}[rng.Intn(6)]
		for j, n := 0, 1+rng.Intn(5); j < n; j++ {
			o.Ranks = append(o.Ranks, (at+j)%b.K)
			if w > 1 {
				at += rng.Intn(w)
			}
		}
		o.MaxOps = []int{6, 20, 80, 200}[rng.Intn(4)]
		if rng.Chance(3, 4) { // iterations are long here
			if o.W[OpAdd]+o.W[OpRemove] > 0 {
				o.W[OpRange], o.W[OpRangeFrom] = (o.W[OpRange]+3)/4, (o.W[OpRangeFrom]+3)/4
			}
		}
	}
	p := GenProg(rng, b, &o)
	if p.PastN > 1000 {
		p.Past = 0
	}
	if o.Ranks != nil {
		seen := map[int]bool{}
		for _, k := range o.Ranks {
			if !seen[k] {
				seen[k] = true
				p.Toggled = append(p.Toggled, k)
			}
		}
		for j := 0; j < 3; j++ {
			k := rng.Intn(b.K)
			if !seen[k] {
				seen[k] = true
				p.Toggled = append(p.Toggled, k)
			}
		}
		sort.Ints(p.Toggled)
		if len(p.Prefill) == 0 || rng.Chance(2, 3) { // large indeed
			p.Prefill = nil
			for k := 0; k < b.K; k++ {
				if rng.Intn(10) > 0 {
					p.Prefill = append(p.Prefill, [2]int{k, rng.Intn(b.Reps(k))})
				}
			}
			if rng.Chance(1, 2) {
				for j := len(p.Prefill) - 1; j > 0; j-- {
					q := rng.Intn(j + 1)
					p.Prefill[j], p.Prefill[q] = p.Prefill[q], p.Prefill[j]
				}
			}
		}
	}
	if mode == 1 {
		st := genStep(rng, b, &o, -1, 1)
		for d := 2 + rng.Intn([]int{4, 20, 140}[rng.Intn(3)]); d > 0; d-- {
			st = Step{Kind: OpRange + rng.Intn(2), K: rng.Intn(b.K), Stop: -1, Inner: []Step{st}}
			st.R = rng.Intn(b.Reps(st.K))
			if rng.Chance(1, 3) {
				st.Inner = append([]Step{genStep(rng, b, &o, -1, 1)}, st.Inner...)
			}
			if rng.Chance(1, 2) {
				st.Stop = rng.Intn(2)
			}
			if st.Kind == OpRangeFrom && rng.Chance(1, 2) {
				st.K, st.R = 0, 0
			}
		}
		p.Threads[0] = append(p.Threads[0], st)
	}
	ops, steps := 0, 20
	for _, t := range p.Threads {
		ops += len(t)
		for _, st := range t {
			steps += 50
			if st.Kind == OpRange || st.Kind == OpRangeFrom {
				steps += 2 * b.K
			}
		}
	}
	cfg := GenSched(rng, steps)
	if mode == 0 && rng.Chance(1, 2) {
		cfg.LevelBias = 0
	}
	if mode == 0 {
		cfg.Soft += int64(4 * steps)
		cfg.Hard += int64(60 * steps)
	} else {
		cfg.Soft += int64(ops * b.K * 20)
		cfg.Hard += int64(ops*b.K*20) * 20
	}
	if mode == 1 {
		cfg.Hard *= 5
	}
	_, out := RunProg(b, p, cfg, true)
	res := &Result{}
	c.outcome(b, out, res)
	res.Nontrivial = out.Overlaps > 0 && out.Preempts > 0
	if i%97 == 0 || c.Trace {
		res.Sample = describe(b, p, &cfg)
		if len(res.Sample) > 900 {
			res.Sample = res.Sample[:900] + " ..."
		}
	}
	return res
}

// sweepCase: a few operations of one goroutine, most of them reads, while others fill the set,
// empty it or move its members along, with very many updates during one call.
func sweepCase(c *Ctx, i int, v variants.Variant, rng *vsched.Rng) *Result {
	b := v.Bind([]int{30, 80, 150, 300, 500}[rng.Intn(5)], rng.Next())
	o := GenOpts{W: profiles[c.Profile], StopCB: true}
	reads := o.W
	reads[OpAdd], reads[OpRemove] = 0, 0
	if rng.Chance(3, 4) && reads != (Weights{}) {
		o.W = reads
	}
	p := &Prog{}
	fill := []int{0, 2, 10, 50, 95, 100}[rng.Intn(6)]
	for k := 0; k < b.K; k++ {
		if rng.Intn(100) < fill {
			p.Prefill = append(p.Prefill, [2]int{k, rng.Intn(b.Reps(k))})
		}
	}
	sweep := func() (t []Step) {
		kind := rng.Intn(4)
		if fill >= 50 && rng.Chance(1, 2) {
			kind = 1
		}
		at, dir, n := 0, 1, 1+rng.Intn(b.K)
		if rng.Chance(1, 3) {
			at = rng.Intn(b.K)
		}
		if rng.Chance(1, 4) {
			at, dir = b.K-1-at, -1
		}
		w := 1 + rng.Intn(4)
		random := rng.Chance(1, 5)
		for j := 0; j < n; j++ {
			k := ((at+dir*j)%b.K + b.K) % b.K
			if random {
				k = rng.Intn(b.K)
			}
			st := Step{Kind: OpAdd, K: k, R: rng.Intn(b.Reps(k)), Stop: -1, InnerAt: -1}
			switch kind {
			case 1:
				st.Kind = OpRemove
			case 2: // a window that moves
				if j >= w {
					q := ((at+dir*(j-w))%b.K + b.K) % b.K
					t = append(t, Step{Kind: OpRemove, K: q, R: rng.Intn(b.Reps(q)), Stop: -1, InnerAt: -1})
				}
			case 3:
				st.Kind = rng.Intn(2)
			}
			t = append(t, st)
		}
		return
	}
	var t []Step
	for j, m := 0, 1+rng.Intn(4); j < m; j++ {
		st := genStep(rng, b, &o, -1, 0)
		if st.Kind == OpRange || st.Kind == OpRangeFrom {
			if rng.Chance(1, 2) {
				st.Stop = -1
			}
			if rng.Chance(1, 2) {
				st.K, st.R = 0, 0
			}
			if rng.Chance(1, 3) || c.Profile == "cb" {
				st.InnerAt, st.Inner = rng.Intn(3), sweep()
			}
		}
		t = append(t, st)
	}
	p.Threads = append(p.Threads, t)
	for j := 1 + rng.Intn(3); j > 0; j-- {
		p.Threads = append(p.Threads, sweep())
	}
	seen := map[int]bool{}
	for j := 0; j < 6; j++ {
		if k := rng.Intn(b.K); !seen[k] {
			seen[k] = true
			p.Toggled = append(p.Toggled, k)
		}
	}
	sort.Ints(p.Toggled)
	ops := 0
	for _, t := range p.Threads {
		for _, st := range t {
			ops += 1 + len(st.Inner)
		}
	}
	steps := ops*50 + len(t)*3*b.K
	cfg := GenSched(rng, steps)
	if rng.Chance(1, 2) {
		cfg.Strat = vsched.Adversary
		cfg.AdvOps = []int{1, 1, 2, 5, 20}[rng.Intn(5)]
		cfg.AdvMax = 200 + rng.Intn(3000)
		cfg.Switch = []int{0, 20, 200, 1000}[rng.Intn(4)]
	}
	cfg.Soft += int64(4 * steps)
	cfg.Hard += int64(60 * steps)
	_, out := RunProg(b, p, cfg, true)
	res := &Result{}
	c.outcome(b, out, res)
	c.add("sets filled or emptied during a call", 1)
	res.Nontrivial = out.Overlaps > 0 && out.Preempts > 0
	if i%97 == 0 || c.Trace {
		res.Sample = describe(b, p, &cfg)
		if len(res.Sample) > 700 {
			res.Sample = res.Sample[:700] + " ..."
		}
	}
	return res
}

// BurstCase: one or two operations, suspended at a random step until another goroutine has made
// very many updates on a neighbouring value, about as many as a small counter can count.
func BurstCase(c *Ctx, i int, rng *vsched.Rng) *Result {
	v := variants.Pick(i, rng)
	b := v.Bind(3+rng.Intn(4), rng.Next())
	if b.K < 2 {
		return HistCase(c, i, rng)
	}
	o := GenOpts{W: profiles[c.Profile]}
	o.W[OpRange], o.W[OpRangeFrom], o.W[OpLen] = 0, 0, 0
	upd := GenOpts{W: Weights{1, 1}}
	q := rng.Intn(b.K)
	for k := 0; k < b.K; k++ {
		if k != q {
			o.Ranks = append(o.Ranks, k)
		}
	}
	upd.Ranks = o.Ranks
	p := &Prog{}
	adds := rng.Chance(1, 2) // the burst ends with new members, added from the largest to the smallest
	fill := 2
	if adds {
		fill = 1
	}
	for _, k := range o.Ranks {
		if rng.Chance(fill, 5) {
			p.Prefill = append(p.Prefill, [2]int{k, rng.Intn(b.Reps(k))})
		}
	}
	pairs := 128 << rng.Intn(2)
	if i%64 == 63 {
		pairs <<= 8
		c.add("bursts of 65536 updates", 1)
	}
	pairs += []int{0, 0, -1, -1, -2, 1}[rng.Intn(6)]
	hot := -1
	for j := 1 + rng.Intn(2); j > 0; j-- {
		hot = upd.Ranks[rng.Intn(len(upd.Ranks))]
		p.Threads = append(p.Threads, []Step{genStep(rng, b, &o, hot, 0)})
	}
	in := map[int]bool{}
	for _, f := range p.Prefill {
		in[f[0]] = true
	}
	if st := &p.Threads[0][0]; st.Kind != OpContains && rng.Intn(4) > 0 {
		st.Kind = OpAdd
		if in[st.K] {
			st.Kind = OpRemove
		}
	}
	var t []Step
	for j := []int{1, 2, 2, 2, 3, 5}[rng.Intn(6)]; j > 0; j-- {
		st := genStep(rng, b, &upd, -1, 0)
		if rng.Chance(9, 10) { // most of them have an effect
			st.Kind = OpAdd
			if in[st.K] {
				st.Kind = OpRemove
			}
			in[st.K] = !in[st.K]
		}
		t = append(t, st)
	}
	at := rng.Intn(len(t))
	if rng.Chance(2, 3) {
		at = 0
	}
	if adds {
		t, at, in = nil, 0, map[int]bool{}
		n := 1 + rng.Intn(3)
		for _, f := range p.Prefill {
			in[f[0]] = true
		}
		for k := b.K - 1; k >= 0 && len(t) < n; k-- {
			if k != q && !in[k] && rng.Intn(3) > 0 {
				t = append(t, Step{Kind: OpAdd, K: k, R: rng.Intn(b.Reps(k)), Stop: -1, InnerAt: -1})
			}
		}
		if len(t) == 0 {
			t = append(t, genStep(rng, b, &upd, -1, 0))
		}
		if rng.Chance(3, 4) { // altogether a power of two, all updates or the Adds counted
			pairs = 128
			if i%64 == 63 {
				pairs <<= 8
			}
			if len(t)%2 == 0 && rng.Chance(2, 3) {
				pairs -= len(t) / 2
			} else {
				pairs = 2*pairs - len(t)
			}
		}
	}
	t[at].Pairs, t[at].PairK = pairs, q
	p.Threads = append(p.Threads, t)
	cfg := vsched.Config{Seed: rng.Next(), Strat: vsched.Park, ParkMin: 150 * pairs, ParkMax: 1000, First: rng.Intn(6) > 0}
	cfg.Horizon = []int{15, 22, 30, 60}[rng.Intn(4)]
	cfg.LevelBias = []int{-1, -1, -1, 0, 250, 800}[rng.Intn(6)]
	cfg.Soft = int64(20000 + 150*pairs)
	cfg.Hard = 60 * cfg.Soft
	_, out := RunProg(b, p, cfg, true)
	res := &Result{}
	c.outcome(b, out, res)
	c.add("operations overtaken by bursts of updates", 1)
	c.add("operations", int64(2*pairs))
	res.Nontrivial = out.Preempts > 0
	if i%97 == 0 || c.Trace {
		res.Sample = describe(b, p, &cfg)
	}
	return res
}

// NatCase: a random program on real threads; the same oracles.
func NatCase(c *Ctx, i int, rng *vsched.Rng) *Result {
	v := variants.Pick(i, rng)
	b := v.Bind(pickK(rng), rng.Next())
	o := GenOpts{MinThreads: 2, MaxThreads: 2 + rng.Intn(6), MaxOps: []int{10, 30, 60, 120}[rng.Intn(4)], W: profiles[c.Profile]}
	switch c.Profile {
	case "iter":
		o.StopCB = true
	case "cb":
		o.Inner = true
		o.StopCB = rng.Chance(1, 2)
	}
	p := GenProg(rng, b, &o)
	_, out := RunNative(b, p)
	res := &Result{}
	c.outcome(b, out, res)
	res.Nontrivial = out.Overlaps > 0
	if i%97 == 0 {
		res.Sample = describe(b, p, nil)
		if len(res.Sample) > 600 {
			res.Sample = res.Sample[:600] + " ..."
		}
	}
	return res
}

// rampProg: one goroutine fills the set up and empties it again, every update succeeding; one
// value is never in the set.
func rampProg(rng *vsched.Rng, b *variants.Binding, limit int64) (*Prog, int) {
	absent := rng.Intn(b.K)
	var use []int
	for k := 0; k < b.K; k++ {
		if k != absent {
			use = append(use, k)
		}
	}
	for i := range use {
		j := rng.Intn(i + 1)
		use[i], use[j] = use[j], use[i]
	}
	rev := rng.Chance(1, 2) // removed in the order they came, or last first
	var t []Step
	for int64(len(t)) < limit*4 {
		for _, k := range use {
			t = append(t, Step{Kind: OpAdd, K: k, R: rng.Intn(b.Reps(k)), Stop: -1, InnerAt: -1})
		}
		for i, k := range use {
			if rev {
				k = use[len(use)-1-i]
			}
			t = append(t, Step{Kind: OpRemove, K: k, R: rng.Intn(b.Reps(k)), Stop: -1, InnerAt: -1})
		}
	}
	return &Prog{Threads: [][]Step{t}}, absent
}

// FreezeCase: wait-freedom of the readers. Thread 0 reads; the others update and are frozen
// for good at a random step (or overtake every step of thread 0).
func FreezeCase(c *Ctx, i int, rng *vsched.Rng) *Result {
	v := variants.Pick(i, rng)
	k := pickK(rng)
	adv := rng.Chance(1, 3)
	long := adv && rng.Chance(1, 12) // enough updates for the reader to exceed its bound
	ramp := long && rng.Chance(2, 3) // by a set that fills and empties over and over
	if ramp {
		k = 2 + rng.Intn(4)
	} else if long {
		k = 1 + rng.Intn(2)
	}
	b := v.Bind(k, rng.Next())
	ramp = ramp && b.K > 1
	o := GenOpts{MinThreads: 1, MaxThreads: 1 + rng.Intn(5), MaxOps: 8, W: profiles["ar"]}
	if adv {
		o.MaxOps = 60
	}
	if long {
		o.MaxThreads = 2
	}
	p := GenProg(rng, b, &o)
	limit := int64(4 * (16*(b.K+2) + 4*(b.K+2) + 8)) // own steps of one read
	absent := -1
	if ramp {
		p, absent = rampProg(rng, b, limit)
		c.add("reads overtaken for longer than their bound", 1)
	} else if long {
		for j := range p.Threads {
			for n := int(limit) / len(p.Threads) * 5 / 4; len(p.Threads[j]) < n; {
				p.Threads[j] = append(p.Threads[j], genStep(rng, b, &o, -1, 0))
			}
		}
		c.add("reads overtaken for longer than their bound", 1)
	}
	ro := GenOpts{W: Weights{0, 0, 4, 2, 2, 1}}
	var rd []Step
	for j, n := 0, 1+rng.Intn(4); j < n; j++ {
		rd = append(rd, genStep(rng, b, &ro, -1, 0))
	}
	if absent >= 0 && rng.Chance(2, 3) {
		rd[0].K = absent
		rd[0].R = rng.Intn(b.Reps(absent))
	}
	p.Threads = append([][]Step{rd}, p.Threads...)
	ops := 0
	for _, t := range p.Threads[1:] {
		ops += len(t)
	}
	cfg := vsched.Config{Seed: rng.Next(), Soft: 1 << 40, Hard: 3000000,
		Limit0: true, OpLimit: limit,
		LevelBias: []int{0, 250, 500, 750, 1000, -1}[rng.Intn(6)]}
	if adv {
		cfg.Strat = vsched.Adversary
		cfg.AdvOps = 1
		if !long || ramp {
			cfg.AdvOps += rng.Intn(3)
		}
		cfg.Switch = []int{0, 20, 200, 1000}[rng.Intn(4)]
	} else {
		cfg.Strat = vsched.Freeze
		cfg.Switch = []int{10, 50, 200, 500, 1000}[rng.Intn(5)]
		cfg.FreezeAt = int64(1 + rng.Intn(ops*35+10))
	}
	_, out := RunProg(b, p, cfg, true)
	res := &Result{}
	c.outcome(b, out, res)
	if adv {
		c.add("reads overtaken at every step", int64(len(rd)))
		res.Nontrivial = out.Overlaps > 0
	} else {
		c.add("updates suspended inside an operation", int64(out.FrozenIn))
		res.Nontrivial = out.FrozenIn > 0
	}
	if i%97 == 0 || c.Trace {
		res.Sample = describe(b, p, &cfg) + fmt.Sprintf(", frozen at step %d with %d goroutines inside updates", cfg.FreezeAt, out.FrozenIn)
	}
	return res
}
