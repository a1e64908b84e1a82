package mon

import (
	"fmt"

	"verif/variants"
	"verif/vsched"
)

func init() {
	Engines["cmp"] = CmpCase
}

// CmpCase: NewFunc with a recording comparison function, under random concurrent programs
// (or long sequential ones): whom it is asked to compare, and which representative is kept.
func CmpCase(c *Ctx, i int, rng *vsched.Rng) *Result {
	k := []int{1, 2, 3, 4, 6, 10, 20}[rng.Intn(7)]
	seq := rng.Chance(1, 4)
	if seq && rng.Chance(1, 3) {
		k = 60
	}
	reps := 1 + rng.Intn(3)
	order := make([]int, k)
	for j := range order {
		order[j] = j
		q := rng.Intn(j + 1)
		order[j], order[q] = order[q], order[j]
	}
	stacks := map[int][]int{}
	added := make([]bool, k*reps+1)
	res := &Result{}
	var calls int64
	fail := func(f string, a ...any) {
		if len(res.Viol) < 4 {
			res.Viol = append(res.Viol, Violation{Class: CMP, Msg: fmt.Sprintf(f, a...)})
		}
	}
	show := func(id int) string {
		if id == 0 {
			return "a value the user never made"
		}
		return fmt.Sprintf("value #%d (rank %d)", id, (id-1)/reps)
	}
	enter := func(id int, add bool) {
		t := vsched.Current()
		stacks[t] = append(stacks[t], id)
		if add {
			added[id] = true
		}
	}
	leave := func() {
		t := vsched.Current()
		stacks[t] = stacks[t][:len(stacks[t])-1]
	}
	less := func(a, b int) {
		calls++
		if a < 0 || a >= len(added) || b < 0 || b >= len(added) || a == 0 || b == 0 {
			fail("less was called with %s and %s", show(a), show(b))
			return
		}
		st := stacks[vsched.Current()]
		if len(st) == 0 || st[len(st)-1] == 0 {
			fail("less was called with %s and %s outside any operation with an argument", show(a), show(b))
			return
		}
		own := st[len(st)-1]
		if !(a == own && added[b] || b == own && added[a]) {
			fail("during an operation on %s, less was called with %s and %s (added before: %v, %v)", show(own), show(a), show(b), added[a], added[b])
		}
	}
	b := variants.Recorder(k, reps, rng.Chance(2, 3), order, enter, leave, less)
	if seq {
		s := &seqRun{m: newModel(b), set: b.New(), cls: REP}
		r := *rng
		bias := []int{0, 250, 500, 750, 1000, -1}[rng.Intn(6)]
		_, vs := single(c, rng, bias, int64(400*b.K+20000), b.Name, PROG, func() {
			for j := 0; j < 30+3*k && len(s.viol) == 0; j++ {
				q := r.Intn(k)
				s.do(Weights{6, 3, 2, 1, 1, 1}.pick(&r), q, r.Intn(reps), -1)
			}
			s.audit(true)
		})
		res.Viol = append(append(res.Viol, s.viol...), vs...)
		res.Hash = s.hash
		c.add("operations", s.ops)
		res.Nontrivial = calls > 0
	} else {
		o := GenOpts{MinThreads: 2, MaxThreads: 2 + rng.Intn(3), MaxOps: []int{3, 6, 10}[rng.Intn(3)], W: profiles["all"], Inner: true, StopCB: true}
		p := GenProg(rng, b, &o)
		cfg := GenSched(rng, 400)
		_, out := RunProg(b, p, cfg, true)
		c.outcome(b, out, res)
		res.Nontrivial = calls > 0 && out.Preempts > 0
		if i%97 == 0 || c.Trace {
			res.Sample = describe(b, p, &cfg)
		}
	}
	res.Variant = b.Name
	c.add("comparisons recorded", calls)
	return res
}
