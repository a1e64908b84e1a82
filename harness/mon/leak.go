//go:build go1.24

package mon

import (
	"fmt"
	"runtime"

	"verif/variants"
	"verif/vsched"
	"verif/vsync"
)

func init() {
	Engines["leak"] = LeakCase
	Engines["heap"] = HeapCase
}

func gc(n int) {
	for j := 0; j < n; j++ {
		vsync.DrainPools()
		runtime.GC()
	}
}

// LeakCase: random programs on sets whose every value is tracked by a weak pointer; at rest,
// exactly one value per member is alive, and nothing else.
func LeakCase(c *Ctx, i int, rng *vsched.Rng) *Result {
	vsync.TrackPools = true
	b, t := variants.Tracked(i, pickK(rng))
	o := GenOpts{MinThreads: 1, MaxThreads: 1 + rng.Intn(4), MaxOps: []int{3, 8, 20}[rng.Intn(3)], W: profiles["all"], Inner: rng.Chance(1, 3), StopCB: true}
	if rng.Chance(1, 2) {
		o.W = profiles["ar"]
	}
	p := GenProg(rng, b, &o)
	if p.PastN > 1000 {
		p.Past = 0
	}
	if rng.Chance(1, 4) {
		addLeaves(rng, b, &o, p, 1+rng.Intn(3))
	}
	cfg := GenSched(rng, 500)
	h, out := RunProg(b, p, cfg, rng.Chance(1, 3))
	res := &Result{}
	c.outcome(b, out, res)
	if len(res.Viol) > 0 {
		return res
	}
	set := h.Set
	h.Set = nil
	check := func(when string) {
		gc(1)
		alive, made := t.Alive(b.K)
		bad := func() bool {
			for k, n := range alive {
				want := 0
				// the lookup's own value is made after the count
				if set.Contains(k, 0) {
					want = 1
				}
				if n != want {
					return true
				}
			}
			return false
		}
		if bad() { // pools and the like are emptied only by further collections
			gc(4)
			alive, made = t.Alive(b.K)
		}
		c.add("values tracked", int64(made))
		for k, n := range alive {
			want := 0
			if set.Contains(k, 0) {
				want = 1
			}
			if n > want {
				res.Viol = append(res.Viol, Violation{Class: LEAK, Variant: b.Name,
					Msg:    fmt.Sprintf("%s, after garbage collection: %d values equal to %s are still reachable, the set has %d of them", when, n, b.Show(k, 0), want),
					Detail: h.Dump()})
			} else if n < want {
				res.Viol = append(res.Viol, Violation{Class: LEAK, Variant: b.Name,
					Msg: fmt.Sprintf("%s: member %s was reclaimed", when, b.Show(k, 0)), Detail: h.Dump()})
			}
		}
		c.add("collections audited", 1)
	}
	check("at rest")
	if len(res.Viol) == 0 && rng.Chance(1, 2) {
		_, vs := single(c, rng, cfg.LevelBias, 20000, b.Name, PROG, func() {
			vsched.Begin()
			defer vsched.End()
			for k := 0; k < b.K; k++ {
				set.Remove(k, 0)
			}
		})
		res.Viol = append(res.Viol, vs...)
		if len(vs) == 0 {
			check("after removing everything")
		}
	}
	runtime.KeepAlive(set)
	if len(res.Viol) == 0 { // nobody refers to the set any more
		dump := h.Dump
		set, h = nil, nil
		total := func() (n int) {
			alive, _ := t.Alive(b.K)
			for _, x := range alive {
				n += x
			}
			return
		}
		gc(1)
		n := total()
		if n > 0 {
			gc(4)
			n = total()
		}
		if n > 0 {
			res.Viol = append(res.Viol, Violation{Class: LEAK, Variant: b.Name,
				Msg: fmt.Sprintf("%d values of a set that nobody refers to are still reachable after garbage collection", n), Detail: dump()})
		}
		c.add("sets given up", 1)
	}
	res.Nontrivial = true
	if i%97 == 0 {
		res.Sample = describe(b, p, &cfg)
	}
	return res
}

type heap struct{ bytes, objects int64 }

func measureHeap() heap {
	gc(3)
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return heap{int64(m.HeapAlloc), int64(m.Mallocs - m.Frees)}
}

// HeapCase: memory after long histories with bounded membership, for every kind of set.
func HeapCase(c *Ctx, i int, rng *vsched.Rng) *Result {
	vsync.TrackPools = true
	// The case is a function of rng, but for what the runtime itself allocates and frees (it
	// keeps sudogs in batches of 64, for example): a leak comes again, that does not.
	for try := 1; ; try++ {
		r := *rng
		res := heapCase(c, i, &r)
		leak := false
		for _, v := range res.Viol {
			leak = leak || v.Class == LEAK
		}
		if !leak || try == 4 {
			return res
		}
		c.add("measurements repeated", 1)
	}
}

func heapCase(c *Ctx, i int, rng *vsched.Rng) *Result {
	v := variants.Pick(i, rng)
	switch rng.Intn(4) {
	case 0:
		return onceCase(c, i, v, rng)
	case 1:
		return emptiedCase(c, i, v, rng)
	}
	b := v.Bind([]int{1, 2, 5, 12, 40}[rng.Intn(5)], rng.Next())
	res := &Result{Variant: b.Name}
	bias := []int{0, 500, 750, 950, -1}[rng.Intn(5)]
	n := 1 + rng.Intn(4)
	ops := 6000 / n
	set := b.New()
	fill := 0
	reset := func() {
		_, vs := single(c, rng, bias, 1<<18, b.Name, PROG, func() {
			vsched.Begin()
			defer vsched.End()
			for k := 0; k < b.K; k++ {
				set.Remove(k, 0)
			}
			for k := 0; k < fill; k++ {
				set.Add(k, 0)
			}
		})
		res.Viol = append(res.Viol, vs...)
	}
	fill = rng.Intn(b.K + 1)
	run := func(what int, ops int) {
		var bodies []func(*vsched.Thread)
		for t := 0; t < n; t++ {
			r := vsched.NewRng(rng.Next())
			bodies = append(bodies, func(*vsched.Thread) {
				for j := 0; j < ops; j++ {
					k := r.Intn(b.K)
					switch what {
					case 0:
						if r.Chance(1, 2) {
							set.Add(k, 0)
						} else {
							set.Remove(k, 0)
						}
					case 1: // no effect
						switch r.Intn(7) {
						case 6:
							from := -1
							if r.Chance(1, 2) {
								from = k
							}
							breakOff(set, from, r.Intn(3))
						case 0:
							if k < fill {
								set.Add(k, 0)
							}
						case 1:
							if k >= fill {
								set.Remove(k, 0)
							}
						case 2:
							set.Contains(k, 0)
						case 3:
							set.Len()
						case 4:
							m := 0
							set.RangeFrom(k, 0, func(int, int) bool { m++; return m < 3 })
						case 5:
							m := 0
							set.Range(func(int, int) bool { m++; return m < 3 })
						}
					}
				}
			})
		}
		cfg := vsched.Config{Seed: rng.Next(), Strat: vsched.Sticky, Switch: []int{5, 50, 300}[rng.Intn(3)], LevelBias: bias, Hard: 6000000}
		s := vsched.Run(cfg, bodies)
		res.Hash = vsched.Mix(res.Hash, s.Hash)
		c.add("scheduler steps", s.Steps())
		c.add("operations", int64(n*ops))
		c.max("largest number of steps in a run", s.Steps())
		for _, t := range s.Threads() {
			if t.PanicVal != nil {
				res.Viol = append(res.Viol, Violation{Class: PANIC, Variant: b.Name, Msg: fmt.Sprintf("panic: %v", t.PanicVal), Detail: t.PanicStack})
			}
		}
		if s.Outcome != vsched.OK {
			res.Viol = append(res.Viol, Violation{Class: PROG, Variant: b.Name, Msg: describeAbort(s)})
		}
	}
	run(0, 200)
	run(1, 50)
	reset()
	if len(res.Viol) > 0 {
		return res
	}
	for what := 0; what < 2; what++ {
		before := measureHeap()
		run(what, ops)
		reset()
		if len(res.Viol) > 0 {
			return res
		}
		after := measureHeap()
		db, do := after.bytes-before.bytes, after.objects-before.objects
		c.max("worst growth of the heap, in objects", do)
		c.max("worst growth of the heap, in bytes", db)
		// a leak of one object in ten updates, or of more than 8 bytes per update, is far above this
		if do > 400 || db > 48<<10 {
			res.Viol = append(res.Viol, Violation{Class: LEAK, Variant: b.Name,
				Msg: fmt.Sprintf("after %d %s with %d members at the end as at the start, the heap holds %d more objects and %d more bytes",
					n*ops, []string{"updates", "operations without effect"}[what], fill, do, db)})
		}
	}
	runtime.KeepAlive(set)
	runtime.KeepAlive(b)
	res.Nontrivial = true
	c.add("variant "+b.Name, 1)
	if i%17 == 0 {
		res.Sample = fmt.Sprintf("%s, %d members of %d values, %d goroutines x %d operations, tower bias %d", b.Name, fill, b.K, n, ops, bias)
	}
	return res
}

// onceCase: every value is added and removed once, next to values that others add and remove at
// the same time, so that a node left behind is not met again and cannot be cleaned up later.
// At the end the sets are empty, and must not hold more than new ones.
func onceCase(c *Ctx, i int, v variants.Variant, rng *vsched.Rng) *Result {
	b := v.Bind([]int{200, 1000, 3000}[rng.Intn(3)], rng.Next())
	res := &Result{Variant: b.Name, Nontrivial: true}
	n := 2 + rng.Intn(4)
	bias := []int{0, 250, 500, 750}[rng.Intn(4)]
	rounds := 6000 / b.K
	if rounds > 8 {
		rounds = 8
	}
	var sets []variants.Set
	for j := 0; j < rounds; j++ {
		s := b.New()
		s.Add(0, 0) // what a set allocates once
		s.Remove(0, 0)
		sets = append(sets, s)
	}
	before := measureHeap()
	for _, set := range sets {
		set := set
		var bodies []func(*vsched.Thread)
		width := []int{1, 2, 5, 20}[rng.Intn(4)] // values a goroutine keeps at a time
		down := rng.Chance(1, 2)
		for t := 0; t < n; t++ {
			t := t
			r := vsched.NewRng(rng.Next())
			bodies = append(bodies, func(*vsched.Thread) {
				var live []int
				drop := func() {
					x := r.Intn(len(live))
					set.Remove(live[x], 0)
					live[x] = live[len(live)-1]
					live = live[:len(live)-1]
				}
				for k := t; k < b.K; k += n {
					if down {
						set.Add(b.K-1-k, 0)
						live = append(live, b.K-1-k)
					} else {
						set.Add(k, 0)
						live = append(live, k)
					}
					if len(live) > width {
						drop()
					}
				}
				for len(live) > 0 {
					drop()
				}
			})
		}
		cfg := vsched.Config{Seed: rng.Next(), LevelBias: bias, Hard: 6000000}
		switch rng.Intn(3) {
		case 0:
			cfg.Strat = vsched.Uniform
		case 1:
			cfg.Strat, cfg.Switch = vsched.Sticky, []int{20, 100, 300}[rng.Intn(3)]
		default:
			cfg.Strat, cfg.Switch, cfg.Horizon, cfg.ParkMax = vsched.Park, 200, 100, 400
		}
		s := vsched.Run(cfg, bodies)
		res.Hash = vsched.Mix(res.Hash, s.Hash)
		c.add("scheduler steps", s.Steps())
		c.add("preemptions", int64(s.Preempts))
		c.add("operations", int64(2*b.K))
		for _, t := range s.Threads() {
			if t.PanicVal != nil {
				res.Viol = append(res.Viol, Violation{Class: PANIC, Variant: b.Name, Msg: fmt.Sprintf("panic: %v", t.PanicVal), Detail: t.PanicStack})
			}
		}
		if s.Outcome != vsched.OK {
			res.Viol = append(res.Viol, Violation{Class: PROG, Variant: b.Name, Msg: describeAbort(s)})
		}
		if len(res.Viol) > 0 {
			return res
		}
	}
	after := measureHeap()
	db, do := after.bytes-before.bytes, after.objects-before.objects
	c.max("worst growth of the heap by emptied sets, in objects", do)
	c.max("worst growth of the heap by emptied sets, in bytes", db)
	c.add("values added and removed once", int64(rounds*b.K))
	left := 0
	for _, s := range sets {
		left += s.Len()
	}
	if left == 0 && (do > int64(60+4*rounds) || db > int64(12<<10+512*rounds)) {
		res.Viol = append(res.Viol, Violation{Class: LEAK, Variant: b.Name,
			Msg: fmt.Sprintf("%d sets are empty again after each of %d values was added and removed once by %d goroutines, but the heap holds %d more objects and %d more bytes", rounds, b.K, n, do, db)})
	}
	runtime.KeepAlive(sets)
	runtime.KeepAlive(b)
	c.add("variant "+b.Name, 1)
	if i%17 == 0 {
		res.Sample = fmt.Sprintf("%s, %d sets, %d values each added and removed once by %d goroutines, tower bias %d", b.Name, rounds, b.K, n, bias)
	}
	return res
}

// emptiedCase: many small sets; goroutines add values and remove them again, side by side. The
// emptied sets must not hold more than new ones. Sets whose run did not end stay out of it (they
// are held in both measurements).
func emptiedCase(c *Ctx, i int, v variants.Variant, rng *vsched.Rng) *Result {
	b := v.Bind([]int{4, 6, 9, 12}[rng.Intn(4)], rng.Next())
	res := &Result{Variant: b.Name, Nontrivial: true}
	bias := []int{0, 250, 500, 750, 900}[rng.Intn(5)]
	fresh := b.New
	// what a set may allocate once, such as room for tall towers
	sequential := func(s variants.Set) bool {
		cfg := vsched.Config{Seed: rng.Next(), LevelBias: bias, Hard: 60000}
		r := vsched.Run(cfg, []func(*vsched.Thread){func(*vsched.Thread) {
			for rep := 0; rep < 3; rep++ {
				for k := 0; k < b.K; k++ {
					s.Add(k, 0)
				}
				for k := 0; k < b.K; k++ {
					s.Remove(k, 0)
				}
			}
		}})
		c.add("scheduler steps", r.Steps())
		return r.Outcome == vsched.OK
	}
	const total = 1200
	sets := make([]variants.Set, 0, total)
	other := make([]variants.Set, total)
	bad := 0
	h0 := measureHeap()
	for j := 0; j < total && bad < 25; j++ {
		set := fresh()
		n := 2 + rng.Intn(3)
		var bodies []func(*vsched.Thread)
		for t := 0; t < n; t++ {
			t := t
			r := vsched.NewRng(rng.Next())
			bodies = append(bodies, func(*vsched.Thread) {
				var mine []int
				for k := t; k < b.K; k += n {
					mine = append(mine, k)
				}
				for rep := 0; rep < 2; rep++ {
					for x := len(mine) - 1; x > 0; x-- {
						y := r.Intn(x + 1)
						mine[x], mine[y] = mine[y], mine[x]
					}
					if rep == 0 {
						for _, k := range mine {
							set.Add(k, 0)
						}
					} else {
						for _, k := range mine {
							set.Remove(k, 0)
						}
					}
				}
			})
		}
		cfg := GenSched(rng, b.K*70)
		cfg.LevelBias, cfg.Soft, cfg.Hard = bias, 20000, 60000
		s := vsched.Run(cfg, bodies)
		res.Hash = vsched.Mix(res.Hash, s.Hash)
		c.add("scheduler steps", s.Steps())
		c.add("preemptions", int64(s.Preempts))
		c.add("operations", int64(2*b.K))
		ok := s.Outcome == vsched.OK
		for _, t := range s.Threads() {
			if t.PanicVal != nil {
				res.Viol = append(res.Viol, Violation{Class: PANIC, Variant: b.Name, Msg: fmt.Sprintf("panic: %v", t.PanicVal), Detail: t.PanicStack})
				ok = false
			}
		}
		if s.Outcome != vsched.OK {
			res.Viol = append(res.Viol, Violation{Class: PROG, Variant: b.Name, Msg: describeAbort(s)})
		}
		if !ok || set.Len() != 0 {
			bad++
			continue
		}
		sets = append(sets, set)
	}
	// nothing runs between the measurements, so they are exact
	failed := 0
	other = other[:len(sets)]
	for j := range other {
		other[j] = fresh()
		if failed < 25 && !sequential(other[j]) {
			other[j] = fresh()
			failed++
		}
	}
	count := len(sets)
	h1 := measureHeap()
	runtime.KeepAlive(sets)
	clear(sets)
	h2 := measureHeap()
	runtime.KeepAlive(other)
	clear(other)
	h3 := measureHeap()
	runtime.KeepAlive(sets)
	runtime.KeepAlive(other)
	runtime.KeepAlive(b)
	db, do := (h1.bytes-h2.bytes)-(h2.bytes-h3.bytes), (h1.objects-h2.objects)-(h2.objects-h3.objects)
	c.max("worst difference between emptied and new sets, in objects", do)
	c.max("worst difference between emptied and new sets, in bytes", db)
	c.add("sets emptied", int64(count))
	if bad == 0 {
		c.max("worst growth of the heap by sets given up, in objects", h3.objects-h0.objects)
		if x := h3.objects - h0.objects; x > int64(count) {
			res.Viol = append(res.Viol, Violation{Class: LEAK, Variant: b.Name,
				Msg: fmt.Sprintf("%d sets were made, used and given up; the heap holds %d more objects than before", 2*count, x)})
		}
	}
	if do > 12 || db > 2<<10 {
		res.Viol = append(res.Viol, Violation{Class: LEAK, Variant: b.Name,
			Msg: fmt.Sprintf("%d sets are empty again after %d values were added and removed in each, and hold %d objects (%d bytes) more than as many sets used sequentially", count, b.K, do, db)})
	}
	c.add("variant "+b.Name, 1)
	if i%17 == 0 {
		res.Sample = fmt.Sprintf("%s, %d sets, %d values each added and removed once, side by side, tower bias %d", b.Name, count, b.K, bias)
	}
	return res
}
