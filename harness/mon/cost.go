package mon

import (
	"fmt"
	"math"
	"strings"

	"verif/variants"
	"verif/vsched"
	"verif/vtick"
)

func init() {
	Engines["cost"] = CostCase
	Engines["churn"] = ChurnCase
}

// CostBound is the allowed mean number of steps of a search in a set of n members. The
// expected value for towers with probability 1/4 is about 4.5*log4(n)+6 steps. An update may search
// more than once.
func CostBound(n int) float64 { return 25 + 6*math.Log2(float64(n)+2) }

func costBound(what string, n int) float64 {
	if strings.HasPrefix(what, "Contains") || strings.HasPrefix(what, "positioning") {
		return CostBound(n)
	}
	return 2.5 * CostBound(n)
}

// CostGrowth is the allowed growth of the mean from n to 16*n members.
const CostGrowth = 30

// TickBound is the allowed mean number of functions entered and loop bodies begun (an atomic
// step accounts for about four on this code; only builds that count them are judged by it).
func TickBound(n int) float64 { return 400 + 8*CostBound(n) }

type meter struct {
	set   variants.Set
	calls *int64
	per   int // operations per call of op
	ticks float64
}

func (m *meter) measure(n int, op func(j int)) float64 {
	s0, v0 := vsched.OwnSteps(), vtick.N
	var c0 int64
	if m.calls != nil {
		c0 = *m.calls
	}
	for j := 0; j < n; j++ {
		vsched.Begin()
		op(j)
		vsched.End()
		if j&127 == 127 && (float64(vsched.OwnSteps()-s0) > 5*CostBound(1<<20)*float64((j+1)*(m.per+1)) ||
			float64(vtick.N-v0) > 5*TickBound(1<<20)*float64((j+1)*(m.per+1))) {
			n = j + 1 // far too slow, no need to go on
		}
	}
	m.ticks = float64(vtick.N-v0) / float64(n)
	d := vsched.OwnSteps() - s0
	if m.calls != nil { // whichever there are more of
		if e := *m.calls - c0; e > d {
			d = e
		}
	}
	return float64(d) / float64(n)
}

// CostCase measures mean step counts of searches in large sets built in different orders and
// after removals. Case i is one (variant, order).
func CostCase(c *Ctx, i int, rng *vsched.Rng) *Result {
	logn := 17
	if c.Deep {
		logn = 20
	}
	// towers must not depend on what else happens between the insertions
	dummies, failing, between := 0, 0, ""
	switch rng.Intn(6) {
	case 0:
		dummies = []int{1, 3, 15, 63}[rng.Intn(4)]
		between = fmt.Sprintf(" (and %d Adds and Removes of another value after each)", dummies)
	case 1:
		failing = []int{1, 3, 15, 63}[rng.Intn(4)]
		between = fmt.Sprintf(" (and %d failing Adds after each)", failing)
	}
	if x := dummies + failing; x > 15 {
		logn -= 5
	} else if x > 3 {
		logn -= 4
	}
	n := 1 << logn
	res := &Result{Nontrivial: true}
	var calls int64
	var b *variants.Binding
	m := &meter{}
	for {
		if i%18 == 17 {
			b = variants.CountedFunc(n, &calls)
			m.calls = &calls
			break
		}
		v := variants.Pick(i, rng)
		if v.MaxKeys > 0 && v.MaxKeys < 1000 || strings.HasSuffix(v.Name, "8]") || strings.HasSuffix(v.Name, "16]") || strings.HasSuffix(v.Name, "Byte]") {
			continue
		}
		b = v.Bind(n, rng.Next())
		break
	}
	m.set = b.New()
	order := []string{"ascending", "descending", "random", "inside out"}[rng.Intn(4)]
	perm := make([]int, n)
	for j := range perm {
		switch order {
		case "ascending":
			perm[j] = j
		case "descending":
			perm[j] = n - 1 - j
		case "random":
			perm[j] = j
			q := rng.Intn(j + 1)
			perm[j], perm[q] = perm[q], perm[j]
		default:
			if j%2 == 0 {
				perm[j] = n/2 + j/2
			} else {
				perm[j] = n/2 - 1 - j/2
			}
		}
	}
	fail := func(f string, a ...any) {
		res.Viol = append(res.Viol, Violation{Class: COST, Variant: b.Name, Msg: fmt.Sprintf("filled in %s order: ", order) + fmt.Sprintf(f, a...)})
	}
	var notes []string
	r := vsched.NewRng(rng.Next())
	type tooSlow struct{}
	_, vs := single(c, rng, 0, int64(1000*n), b.Name, PROG, func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(tooSlow); !ok {
					panic(p)
				}
			}
		}()
		check := func(what string, size int, got float64) {
			notes = append(notes, fmt.Sprintf("%s at %d members: %.1f", what, size, got))
			c.max("worst mean of steps, in percent of the bound", int64(100*got/costBound(what, size)))
			ticks := m.ticks / float64(1+m.per)
			c.max("worst mean of functions and loop bodies, in percent of the bound", int64(100*ticks/TickBound(size)))
			if ticks > TickBound(size) {
				fail("%s enters %.1f functions and loop bodies on average with %d members; a logarithmic search stays below %.0f", what, ticks, size, TickBound(size))
				panic(tooSlow{})
			}
			if bound := costBound(what, size); got > bound {
				fail("%s takes %.1f steps on average with %d members; a logarithmic search stays below %.0f", what, got, size, bound)
				if got > 2*bound {
					panic(tooSlow{})
				}
			}
		}
		leaves := r.Chance(1, 2)
		search := func(size int, lo int) (mean float64) {
			if leaves { // iterations left by a panic leave nothing behind
				breakOff(m.set, -1, r.Intn(size))
				breakOff(m.set, perm[lo+r.Intn(size)], 0)
			}
			const q = 3000
			mean = m.measure(q, func(int) { m.set.Contains(perm[lo+r.Intn(size)], 0) })
			check("Contains of a member", size, mean)
			check("positioning of RangeFrom", size, m.measure(q, func(int) {
				k := perm[lo+r.Intn(size)]
				m.set.RangeFrom(k, 0, func(int, int) bool { return false })
			}))
			check("failing Add", size, m.measure(q, func(int) { m.set.Add(perm[lo+r.Intn(size)], 0) }))
			return
		}
		var small, large float64
		lastSize := 0
		for _, e := range []int{6, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20} {
			size := 1 << e
			if size > n {
				break
			}
			m.per = 2*dummies + failing
			check("Add"+between, size, m.measure(size-lastSize, func(j int) {
				m.set.Add(perm[lastSize+j], 0)
				if lastSize+j < n-1 {
					for d := 0; d < dummies; d++ {
						m.set.Add(perm[n-1], 0) // not a member yet
						m.set.Remove(perm[n-1], 0)
					}
					for d := 0; d < failing; d++ {
						m.set.Add(perm[lastSize+j], 0)
					}
				}
			})/float64(1+m.per))
			m.per = 0
			lastSize = size
			mean := search(size, 0)
			if e == logn-4 {
				small = mean
			}
			large = mean
		}
		notes = append(notes, fmt.Sprintf("growth %.1f", large-small))
		c.max("growth of the mean from n/16 to n, in steps times 10", int64(10*(large-small)))
		if large-small > CostGrowth {
			fail("the mean number of steps of Contains grows from %.1f at %d members to %.1f at %d; logarithmic growth stays below +%d", small, n/16, large, n, CostGrowth)
		}
		// absent values: remove and look up
		q := n / 16
		check("Remove", n, m.measure(q, func(j int) { m.set.Remove(perm[j], 0) }))
		check("Contains of a non-member", n, m.measure(3000, func(int) { m.set.Contains(perm[r.Intn(q)], 0) }))
		check("failing Remove", n, m.measure(3000, func(int) { m.set.Remove(perm[r.Intn(q)], 0) }))
		check("re-Add", n, m.measure(q, func(j int) { m.set.Add(perm[j], 0) }))
		cnt := 0
		s0, v0 := vsched.OwnSteps(), vtick.N
		m.set.Range(func(int, int) bool { cnt++; return true })
		per := float64(vsched.OwnSteps()-s0) / float64(n)
		if cnt != n {
			fail("Range reports %d of %d members", cnt, n)
		}
		if x := float64(vtick.N-v0) / float64(n); x > 60 {
			fail("Range enters %.1f functions and loop bodies per member with %d members", x, n)
		}
		if per > 8 {
			fail("Range takes %.1f steps per member with %d members", per, n)
		}
		// shrink to 64 members: the cost must shrink as well
		keep := n - 64
		check("Remove", n, m.measure(keep, func(j int) { m.set.Remove(perm[j], 0) }))
		search(64, keep)
		check("Contains of a removed value", 64, m.measure(3000, func(int) { m.set.Contains(perm[r.Intn(keep)], 0) }))
		s0 = vsched.OwnSteps()
		m.set.Range(func(int, int) bool { return true })
		if d := vsched.OwnSteps() - s0; d > 64*8+300 {
			fail("Range takes %d steps with 64 members left of %d", d, n)
		}
		// grow again
		size := n / 16
		check("Add after removals", size, m.measure(size, func(j int) { m.set.Add(perm[j], 0) }))
		search(size, 0)
	})
	res.Viol = append(res.Viol, vs...)
	c.add("variant "+b.Name, 1)
	c.add("searches measured", 60000)
	res.Hash = vsched.Mix(rng.Next(), uint64(i))
	res.Variant = b.Name
	res.Sample = fmt.Sprintf("%s, %s order, mean steps: %s", b.Name, order, strings.Join(notes, ", "))
	if len(res.Viol) > 0 {
		for j := range res.Viol {
			res.Viol[j].Detail = strings.Join(notes, "\n")
		}
	}
	return res
}

// ChurnCase: concurrent insertions and removals under a controlled schedule, then the cost of
// the quiescent set.
func ChurnCase(c *Ctx, i int, rng *vsched.Rng) *Result {
	var b *variants.Binding
	for {
		v := variants.Pick(i, rng)
		if v.MaxKeys > 0 && v.MaxKeys < 256 {
			continue
		}
		b = v.Bind(256, rng.Next())
		break
	}
	set := b.New()
	res := &Result{Variant: b.Name}
	n := 2 + rng.Intn(4)
	rounds := 1500
	hot := rng.Chance(1, 2)
	leaves := rng.Chance(1, 3)
	var bodies []func(*vsched.Thread)
	for t := 0; t < n; t++ {
		r := vsched.NewRng(rng.Next())
		bodies = append(bodies, func(*vsched.Thread) {
			at := r.Intn(b.K)
			for j := 0; j < rounds; j++ {
				k := r.Intn(b.K)
				if hot {
					k = (at + r.Intn(4)) % b.K
					if r.Chance(1, 20) {
						at = r.Intn(b.K)
					}
				}
				if leaves && r.Chance(1, 50) {
					breakOff(set, k, r.Intn(3))
				}
				if r.Chance(1, 2) {
					set.Add(k, 0)
				} else {
					set.Remove(k, 0)
				}
			}
		})
	}
	cfg := vsched.Config{Seed: rng.Next(), Strat: vsched.Sticky, Switch: []int{10, 50, 200, 1000}[rng.Intn(4)], Hard: 60000000}
	s := vsched.Run(cfg, bodies)
	c.add("scheduler steps", s.Steps())
	c.add("preemptions", int64(s.Preempts))
	for _, t := range s.Threads() {
		if t.PanicVal != nil {
			res.Viol = append(res.Viol, Violation{Class: PANIC, Variant: b.Name, Msg: fmt.Sprintf("panic: %v", t.PanicVal), Detail: t.PanicStack})
		}
	}
	if s.Outcome != vsched.OK {
		res.Viol = append(res.Viol, Violation{Class: PROG, Variant: b.Name, Msg: describeAbort(s)})
	}
	if len(res.Viol) > 0 {
		return res
	}
	note := ""
	_, vs := single(c, rng, 0, 1<<22, b.Name, PROG, func() {
		m := &meter{set: set}
		members := 0
		s0 := vsched.OwnSteps()
		set.Range(func(int, int) bool { members++; return true })
		d := vsched.OwnSteps() - s0
		if d > int64(members*8+60) {
			res.Viol = append(res.Viol, Violation{Class: COST, Variant: b.Name, Msg: fmt.Sprintf("after concurrent churn: Range takes %d steps with %d members", d, members)})
		}
		mean := m.measure(3*b.K, func(j int) { set.Contains(j%b.K, 0) })
		note = fmt.Sprintf("%s: %d goroutines, %d updates; %d members, mean steps of Contains %.1f, of Range %d in all", b.Name, n, n*rounds, members, mean, d)
		c.max("worst mean of steps, in percent of the bound", int64(100*mean/CostBound(members)))
		for _, x := range []struct {
			what string
			op   func(int)
		}{
			{"failing Add or re-Add", func(j int) { set.Add(j%b.K, 0) }},
			{"positioning of RangeFrom", func(j int) { set.RangeFrom(j%b.K, 0, func(int, int) bool { return false }) }},
			{"Remove", func(j int) { set.Remove(j%b.K, 0) }},
		} {
			if y := m.measure(b.K, x.op); y > costBound(x.what, b.K) || m.ticks > TickBound(b.K) {
				res.Viol = append(res.Viol, Violation{Class: COST, Variant: b.Name, Msg: fmt.Sprintf("after concurrent churn: %s takes %.1f steps, %.1f functions and loop bodies on average with at most %d members, bounds %.0f and %.0f", x.what, y, m.ticks, b.K, costBound(x.what, b.K), TickBound(b.K))})
			}
		}
		s0 = vsched.OwnSteps()
		set.Range(func(int, int) bool { return true })
		if d := vsched.OwnSteps() - s0; d > 60 {
			res.Viol = append(res.Viol, Violation{Class: COST, Variant: b.Name, Msg: fmt.Sprintf("after concurrent churn and removing everything: Range takes %d steps", d)})
		}
		if mean > CostBound(members) {
			res.Viol = append(res.Viol, Violation{Class: COST, Variant: b.Name, Msg: fmt.Sprintf("after concurrent churn: Contains takes %.1f steps on average with %d members, bound %.0f", mean, members, CostBound(members))})
		}
	})
	res.Viol = append(res.Viol, vs...)
	res.Hash = s.Hash
	res.Nontrivial = s.Preempts > 0
	c.add("variant "+b.Name, 1)
	res.Sample = note
	return res
}
