// Package payload holds the workloads whose own memory accesses take part in the judgement:
// it is compiled with race instrumentation, unlike the scheduler and the history monitors.
package payload

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"

	"verif/mon"
	"verif/variants"
	"verif/vsched"
)

func init() {
	mon.Engines["free"] = FreeCase
	mon.Engines["own"] = func(c *mon.Ctx, i int, rng *vsched.Rng) *mon.Result { return ownCase(c, i, rng, true) }
	mon.Engines["ownfree"] = func(c *mon.Ctx, i int, rng *vsched.Rng) *mon.Result { return ownCase(c, i, rng, false) }
}

type tally struct {
	add, rem []int
	viol     []mon.Violation
	ops      int64
	reports  int64
}

// FreeCase: free-running goroutines without any recording, so that nothing but the package
// orders them; checked by what each goroutine can judge on its own and by the final tally.
// Ranks are split in three: churned, stable (members throughout) and absent (never added).
func FreeCase(c *mon.Ctx, i int, rng *vsched.Rng) *mon.Result {
	v := variants.Pick(i, rng)
	b := v.Bind([]int{1, 2, 3, 5, 8, 16, 64, 300}[rng.Intn(8)], rng.Next())
	set := b.New()
	mon.SetKind(b.Name)
	role := make([]int, b.K) // 0 churned, 1 stable, 2 absent
	nStable := 0
	for k := range role {
		if rng.Chance(1, 3) {
			role[k] = 1 + rng.Intn(2)
		}
		if role[k] == 1 {
			nStable++
		}
	}
	for k, r := range role {
		if r == 1 {
			set.Add(k, 0)
		}
	}
	n := 2 + rng.Intn(7)
	ops := []int{60, 200, 600, 1500}[rng.Intn(4)]
	if c.Deep {
		ops *= 4
	}
	w := [][]int{{4, 4, 2, 1, 1, 1}, {8, 8, 1, 0, 0, 0}, {3, 3, 1, 4, 4, 1}, {10, 10, 10, 1, 1, 1}}[rng.Intn(4)]
	sum := 0
	for _, x := range w {
		sum += x
	}
	gc := rng.Chance(1, 4)
	ts := make([]*tally, n)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for th := 0; th < n; th++ {
		t := &tally{add: make([]int, b.K), rem: make([]int, b.K)}
		ts[th] = t
		r := vsched.NewRng(rng.Next())
		th := th
		wg.Add(1)
		go func() {
			defer wg.Done()
			normal := false
			defer func() {
				if !normal {
					v := mon.Violation{Class: mon.PANIC, Variant: b.Name, Msg: fmt.Sprintf("panic: %v", recover()), Detail: string(debug.Stack())}
					t.viol = append(t.viol, v)
					mon.Died(v)
				}
			}()
			<-start
			for j := 0; j < ops && len(t.viol) == 0; j++ {
				if gc && th == 0 && j%50 == 0 {
					runtime.GC()
				}
				step(b, set, role, nStable, r, w, sum, t)
			}
			normal = true
		}()
	}
	close(start)
	wg.Wait()
	res := &mon.Result{Variant: b.Name, Nontrivial: true}
	total := make([]int, b.K)
	for _, t := range ts {
		res.Viol = append(res.Viol, t.viol...)
		c.Count["operations"] += t.ops
		c.Count["values reported by iterations"] += t.reports
		for k := range total {
			total[k] += t.add[k] - t.rem[k]
			c.Count["successful updates"] += int64(t.add[k] + t.rem[k])
			res.Hash = vsched.Mix(res.Hash, uint64(t.add[k])<<20^uint64(t.rem[k]))
		}
	}
	c.Count["variant "+b.Name]++
	if len(res.Viol) > 0 {
		return res
	}
	mon.SetPhase(mon.AtRest)
	defer mon.SetPhase("")
	fail := func(class, f string, a ...any) {
		if len(res.Viol) < 8 {
			res.Viol = append(res.Viol, mon.Violation{Class: class, Variant: b.Name, Msg: "at rest: " + fmt.Sprintf(f, a...)})
		}
	}
	got := make([]int, b.K)
	last := -1
	set.Range(func(k, r int) bool {
		if k < 0 || k >= b.K {
			fail(mon.CORRUPT, "Range reported a value nobody added")
			return false
		}
		if k <= last {
			fail(mon.ORDER, "Range: %s after %s", b.Show(k, 0), b.Show(last, 0))
			return false
		}
		last = k
		got[k]++
		return true
	})
	members := 0
	for k, role := range role {
		want := total[k]
		switch role {
		case 1:
			want = 1
		case 2:
			want = 0
		}
		if want != 0 && want != 1 {
			fail(mon.CONS, "%s: successful Adds minus successful Removes = %d", b.Show(k, 0), want)
			continue
		}
		members += want
		if (got[k] == 1) != (want == 1) {
			fail(mon.CONS, "%s: member by successes %v, reported by Range %d times", b.Show(k, 0), want == 1, got[k])
			if set.Contains(k, 0) != (got[k] == 1) {
				fail(mon.RANGE, "%s: Contains %v, Range %d", b.Show(k, 0), set.Contains(k, 0), got[k])
			}
		}
		if set.Contains(k, 0) != (want == 1) {
			fail(mon.CONS, "%s: member by successes %v, Contains %v", b.Show(k, 0), want == 1, set.Contains(k, 0))
		}
		first := false
		set.RangeFrom(k, 0, func(q, _ int) bool { first = q == k; return false })
		if first != (want == 1) {
			fail(mon.CONS, "%s: member by successes %v, RangeFrom starts with it %v", b.Show(k, 0), want == 1, first)
		}
	}
	if set.Len() != members {
		fail(mon.CONS, "Len()=%d, members by successes %d", set.Len(), members)
		fail(mon.LEN, "Len()=%d, members by successes %d", set.Len(), members)
	}
	for k := range role {
		m := set.Contains(k, 0)
		if set.Remove(k, 0) != m || set.Remove(k, 0) || !set.Add(k, 0) || set.Add(k, 0) || !set.Contains(k, 0) {
			fail(mon.CONS, "%s cannot be removed and added again", b.Show(k, 0))
		}
	}
	if i%97 == 0 {
		res.Sample = fmt.Sprintf("%s, %d values (%d stable), %d goroutines x %d operations, weights Add/Remove/Contains/Range/RangeFrom/Len %v", b.Name, b.K, nStable, n, ops, w)
	}
	return res
}

func step(b *variants.Binding, set variants.Set, role []int, nStable int, r *vsched.Rng, w []int, sum int, t *tally) {
	fail := func(class, f string, a ...any) {
		if len(t.viol) < 3 {
			t.viol = append(t.viol, mon.Violation{Class: class, Variant: b.Name, Msg: fmt.Sprintf(f, a...)})
		}
	}
	x := r.Intn(sum)
	kind := 0
	for x >= w[kind] {
		x -= w[kind]
		kind++
	}
	k := r.Intn(b.K)
	rep := r.Intn(b.Reps(k))
	t.ops++
	switch kind {
	case mon.OpAdd:
		if role[k] == 2 {
			return
		}
		if set.Add(k, rep) {
			t.add[k]++
			if role[k] == 1 {
				fail(mon.LIN, "Add(%s) succeeded though it was a member throughout", b.Show(k, rep))
			}
		}
	case mon.OpRemove:
		if role[k] == 1 {
			return
		}
		if set.Remove(k, rep) {
			t.rem[k]++
			if role[k] == 2 {
				fail(mon.LIN, "Remove(%s) succeeded though it was never added", b.Show(k, rep))
			}
		}
	case mon.OpContains:
		g := set.Contains(k, rep)
		if role[k] == 1 && !g || role[k] == 2 && g {
			fail(mon.LIN, "Contains(%s)=%v though its membership was %v throughout", b.Show(k, rep), g, !g)
		}
	case mon.OpLen:
		n := set.Len()
		absent := 0
		for _, x := range role {
			if x == 2 {
				absent++
			}
		}
		if n < nStable || n > b.K-absent {
			fail(mon.LEN, "Len()=%d with %d stable members and %d values ever added", n, nStable, b.K-absent)
		}
	default:
		lo := 0
		class := mon.RANGE
		stop := -1
		if r.Chance(1, 4) {
			stop = r.Intn(b.K)
		}
		last := -1
		cnt := 0
		seen := 0
		over := false
		cb := func(q, _ int) bool {
			if over {
				fail(mon.ORDER, "callback called after it returned false")
				return false
			}
			cnt++
			t.reports++
			if q < 0 || q >= b.K {
				fail(mon.CORRUPT, "iteration reported a value nobody added")
				over = true
				return false
			}
			if q <= last {
				fail(mon.ORDER, "iteration: %s after %s", b.Show(q, 0), b.Show(last, 0))
				over = true
				return false
			}
			if q < lo {
				fail(mon.RFROM, "RangeFrom(%s) reported %s", b.Show(lo, 0), b.Show(q, 0))
			}
			if role[q] == 2 {
				fail(class, "iteration reported %s, never added", b.Show(q, 0))
			}
			if role[q] == 1 {
				seen++
			}
			last = q
			over = cnt-1 == stop
			return !over
		}
		if kind == mon.OpRange {
			set.Range(cb)
		} else {
			lo, class = k, mon.RFROM
			set.RangeFrom(k, rep, cb)
		}
		want := 0
		for q := lo; q < b.K; q++ {
			if role[q] == 1 && (!over || q <= last) {
				want++
			}
		}
		if seen != want && len(t.viol) == 0 {
			fail(class, "iteration from rank %d reported %d of %d stable members (stopped %v)", lo, seen, want, over)
		}
	}
}
