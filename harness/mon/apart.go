package mon

import (
	"fmt"

	"verif/variants"
	"verif/vsched"
)

// ApartCase: updates wait only for updates of neighbouring values. Goroutines that update one
// region of the set are suspended for good at a random step; then either
//   - another one updates values that are several members away (all towers flat, so they have
//     no predecessor in common), or
//   - it makes calls without effect (Adds of members, Removes of non-members that nobody
//     touches), next to the suspended ones, with towers of any height,
//
// and must get through, with the right results.
//
// Towers are flat only if the package draws them from the generator that the harness controls.
// Otherwise two updates may share a tall predecessor by chance; then one unlucky run shows
// nothing, but twenty runs with different towers in a row do.
func ApartCase(c *Ctx, i int, rng *vsched.Rng) *Result {
	var b *variants.Binding
	for {
		v := variants.Pick(i, rng)
		if v.MaxKeys > 0 && v.MaxKeys < 12 {
			continue
		}
		b = v.Bind(12+rng.Intn(10), rng.Next())
		break
	}
	far := rng.Chance(1, 2)
	p := &Prog{}
	step := func(kind, k int) Step {
		return Step{Kind: kind, K: k, R: rng.Intn(b.Reps(k)), Stop: -1, InnerAt: -1}
	}
	fill := func(k int) { p.Prefill = append(p.Prefill, [2]int{k, rng.Intn(b.Reps(k))}) }
	var volatile []int // of the suspended goroutines
	var rd []Step
	bias := -1
	if far {
		// region, 5 ranks of which the third is never a member, region
		cut := 1 + rng.Intn(b.K-7)
		left, right := []int{}, []int{}
		for k := 0; k < b.K; k++ {
			switch {
			case k < cut:
				left = append(left, k)
			case k >= cut+5:
				right = append(right, k)
			case k != cut+2:
				fill(k)
			}
		}
		if rng.Chance(1, 2) {
			left, right = right, left
		}
		volatile = left
		in := map[int]bool{}
		for _, k := range right {
			if rng.Chance(1, 2) {
				fill(k)
				in[k] = true
			}
		}
		for j, n := 0, 1+rng.Intn(8); j < n; j++ {
			k := right[rng.Intn(len(right))]
			kind := OpAdd
			if rng.Chance(1, 2) {
				kind = OpRemove
			}
			if in[k] != (kind == OpRemove) && rng.Chance(2, 3) { // mostly with effect
				kind = OpAdd + OpRemove - kind
			}
			in[k] = kind == OpAdd
			rd = append(rd, step(kind, k))
		}
	} else {
		bias = []int{0, 250, 500, 750, 1000, -1}[rng.Intn(6)]
		var member, absent []int
		off := rng.Intn(3)
		for k := 0; k < b.K; k++ {
			switch (k + off) % 3 {
			case 0:
				fill(k)
				member = append(member, k)
			case 1:
				absent = append(absent, k)
			default:
				volatile = append(volatile, k)
			}
		}
		for j, n := 0, 1+rng.Intn(8); j < n; j++ {
			if rng.Chance(1, 2) {
				rd = append(rd, step(OpAdd, member[rng.Intn(len(member))]))
			} else {
				rd = append(rd, step(OpRemove, absent[rng.Intn(len(absent))]))
			}
		}
	}
	for _, k := range volatile {
		if rng.Chance(1, 2) {
			fill(k)
		}
	}
	for j := len(p.Prefill) - 1; j > 0; j-- {
		q := rng.Intn(j + 1)
		p.Prefill[j], p.Prefill[q] = p.Prefill[q], p.Prefill[j]
	}
	p.Threads = [][]Step{rd}
	ops := 0
	for t, n := 0, 1+rng.Intn(3); t < n; t++ {
		var s []Step
		for j, m := 0, 1+rng.Intn(6); j < m; j++ {
			kind := OpAdd
			if rng.Chance(1, 2) {
				kind = OpRemove
			}
			s = append(s, step(kind, volatile[rng.Intn(len(volatile))]))
		}
		ops += len(s)
		p.Threads = append(p.Threads, s)
	}
	cfg := vsched.Config{Seed: rng.Next(), Strat: vsched.Freeze, Switch: []int{10, 50, 200, 500}[rng.Intn(4)],
		FreezeAt: int64(1 + rng.Intn(ops*25+10)), Soft: 1 << 40, Hard: 2000000, Limit0: true, OpLimit: 3000, LevelBias: bias}
	res := &Result{}
	for try := 1; ; try++ {
		_, out := RunProg(b, p, cfg, true)
		*res = Result{}
		c.outcome(b, out, res)
		blocked := false
		for j := range res.Viol {
			if res.Viol[j].Class == WF {
				blocked = true
				v := &res.Viol[j]
				v.Class = APART
				if far {
					v.Msg = "an update of a value several members away waits for a suspended one: " + v.Msg
				} else {
					v.Msg = "an Add of a member or a Remove of a non-member waits for a suspended update of another value: " + v.Msg
				}
			}
		}
		if try == 1 {
			c.add("updates suspended inside an operation", int64(out.FrozenIn))
			c.add("operations past suspended ones", int64(len(rd)))
		}
		res.Nontrivial = out.FrozenIn > 0
		if !blocked || !far {
			break
		}
		if try == 20 {
			break
		}
		c.add("runs repeated", 1)
		cfg.Seed = rng.Next()
	}
	if i%97 == 0 || c.Trace {
		res.Sample = describe(b, p, &cfg) + fmt.Sprintf(", suspended at step %d", cfg.FreezeAt)
	}
	return res
}
