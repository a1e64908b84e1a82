package mon

import (
	"fmt"
	"runtime"

	"verif/variants"
	"verif/vsched"
)

type planned struct{}

// PanicCase: callbacks that panic or exit their goroutine while others use the set.
func PanicCase(c *Ctx, i int, rng *vsched.Rng) *Result {
	v := variants.Pick(i, rng)
	b := v.Bind(pickK(rng), rng.Next())
	o := GenOpts{MinThreads: 1, MaxThreads: 1 + rng.Intn(4), MaxOps: 6, W: profiles["cb"], Inner: true, StopCB: true}
	p := GenProg(rng, b, &o)
	addLeaves(rng, b, &o, p, 1+rng.Intn(2))
	if rng.Chance(1, 20) {
		p.Past, p.PastN = 5, 20+rng.Intn(300)
	}
	if len(p.Prefill) == 0 {
		for k := 0; k < b.K; k++ {
			p.Prefill = append(p.Prefill, [2]int{k, 0})
		}
	}
	ops := 0
	for _, t := range p.Threads {
		ops += len(t)
	}
	cfg := GenSched(rng, ops*35+20)
	h, out := RunProg(b, p, cfg, true)
	res := &Result{}
	c.outcome(b, out, res)
	for _, t := range h.Recs {
		for _, r := range t {
			if r.Left > 0 {
				res.Nontrivial = true
				c.add([]string{"", "callbacks left by panic", "callbacks left by Goexit"}[r.Left], 1)
			}
		}
	}
	if i%97 == 0 || c.Trace {
		res.Sample = describe(b, p, &cfg)
	}
	return res
}

// addLeaves puts n iterations into the program whose callbacks panic or exit the goroutine.
func addLeaves(rng *vsched.Rng, b *variants.Binding, o *GenOpts, p *Prog, n int) {
	for j := 0; j < n; j++ {
		th := rng.Intn(len(p.Threads))
		st := Step{Kind: OpRange + rng.Intn(2), K: rng.Intn(b.K), Stop: -1, InnerAt: -1, Leave: 1 + rng.Intn(2), LeaveAt: rng.Intn(b.K)}
		st.R = rng.Intn(b.Reps(st.K))
		if rng.Chance(1, 3) {
			st.InnerAt = st.LeaveAt
			st.Inner = []Step{genStep(rng, b, o, -1, 1)}
		}
		at := rng.Intn(len(p.Threads[th]) + 1)
		t := append([]Step{}, p.Threads[th][:at]...)
		t = append(t, st)
		p.Threads[th] = append(t, p.Threads[th][at:]...)
	}
}

// breakOff makes an iteration whose callback panics at report at, and recovers.
func breakOff(set variants.Set, from, at int) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(planned); !ok {
				panic(p)
			}
		}
	}()
	f := func(int, int) bool {
		if at == 0 {
			panic(planned{})
		}
		at--
		return true
	}
	if from < 0 {
		set.Range(f)
	} else {
		set.RangeFrom(from, 0, f)
	}
}

// LessPanicCase: the comparison function panics or exits the goroutine during an uncontended
// call; the set must be as before.
func LessPanicCase(c *Ctx, i int, rng *vsched.Rng) *Result {
	k := []int{1, 2, 3, 5, 9, 16, 30}[rng.Intn(7)]
	arm := -1
	mode := 0
	less := func(a, b int) bool {
		if arm == 0 {
			arm = -1
			if mode == 0 {
				panic(planned{})
			}
			runtime.Goexit()
		}
		if arm > 0 {
			arm--
		}
		return a < b
	}
	b := variants.FuncInt(k, less)
	s := &seqRun{m: newModel(b), set: b.New(), cls: CB}
	r := *rng
	bias := []int{0, 250, 500, 750, 1000, -1}[r.Intn(6)]
	res := &Result{Variant: b.Name}
	fired := 0
	rounds := 2 + r.Intn(6)
	for q := 0; q < rounds && len(res.Viol)+len(s.viol) == 0; q++ {
		// one thread per round, as Goexit ends it
		_, vs := single(c, &r, bias, int64(2000+400*k), b.Name, PROG, func() {
			for j, m := 0, r.Intn(2*k+3); j < m; j++ {
				s.do(Weights{5, 4, 2, 1, 1, 1}.pick(&r), r.Intn(k), 0, -1)
			}
			x := r.Intn(k)
			kind := []int{OpAdd, OpRemove, OpContains, OpRangeFrom}[r.Intn(4)]
			arm = r.Intn(1 + r.Intn(2*k+12))
			mode = r.Intn(2)
			was := s.m.rep[x]
			done := false
			armed := arm
			defer func() {
				if done {
					if arm < 0 {
						s.viol = append(s.viol, Violation{Class: CB, Variant: b.Name, Msg: fmt.Sprintf("%s(%d) returned although the comparison function panicked or exited the goroutine", kindName[kind], x)})
					}
					arm = -1
					return
				}
				if p := recover(); p != nil {
					if _, ok := p.(planned); !ok {
						panic(p)
					}
				}
				fired++
				s.note("%s(%d) left by less at comparison %d (mode %d)", kindName[kind], x, armed, mode)
			}()
			var got bool
			vsched.Begin()
			switch kind {
			case OpAdd:
				got = s.set.Add(x, 0)
			case OpRemove:
				got = s.set.Remove(x, 0)
			case OpContains:
				s.set.Contains(x, 0)
			default:
				s.set.RangeFrom(x, 0, func(int, int) bool { return true })
			}
			vsched.End()
			done = true
			if got && kind == OpAdd && was < 0 {
				s.m.rep[x] = 0
				s.m.n++
			}
			if got && kind == OpRemove && was >= 0 {
				s.m.rep[x] = -1
				s.m.n--
			}
		})
		res.Viol = append(res.Viol, vs...)
		if len(vs) == 0 {
			_, vs = single(c, &r, bias, int64(2000+400*k), b.Name, PROG, func() {
				s.audit(true)
				for x := 0; x < k; x++ {
					if s.m.rep[x] >= 0 {
						s.do(OpRemove, x, 0, -1)
						s.do(OpAdd, x, 0, -1)
					} else {
						s.do(OpAdd, x, 0, -1)
						s.do(OpRemove, x, 0, -1)
					}
				}
				s.audit(true)
			})
			res.Viol = append(res.Viol, vs...)
		}
	}
	res.Viol = append(res.Viol, s.viol...)
	for j := range res.Viol {
		if res.Viol[j].Class == PROG {
			res.Viol[j].Detail += fmt.Sprint(s.log)
		}
	}
	res.Hash = s.hash
	res.Nontrivial = fired > 0
	c.add("operations", s.ops)
	c.add("comparisons that panicked or exited", int64(fired))
	if i%97 == 0 || c.Trace {
		res.Sample = fmt.Sprintf("NewFunc[int], %d values, %d rounds, %d comparisons panicked or exited: %.300v", k, rounds, fired, s.log)
	}
	return res
}
