package payload

import (
	"fmt"
	"runtime/debug"
	"sync"

	"verif/mon"
	"verif/variants"
	"verif/vsched"
)

type slot struct {
	a, b int
	pad  [6]int
}

// ownCase: plain (unsynchronised) user memory handed over through the set only. Three kinds of
// ranks:
//   - published: one designated goroutine writes the slot and adds the rank, once; whoever then
//     sees the rank (Contains, Range, RangeFrom, successful Remove) reads the slot;
//   - contended: two goroutines each write their own slot and add the rank, once each; the one
//     whose Add fails reads the winner's slot;
//   - tokens: members at the start; whoever removes one owns its slot, changes it, and adds the
//     rank back, which must succeed.
//
// Under -race every missing happens-before edge is a reported race on a slot; otherwise wrong
// contents and lost updates are seen.
func ownCase(c *mon.Ctx, i int, rng *vsched.Rng, ctl bool) *mon.Result {
	v := variants.Pick(i, rng)
	b := v.Bind([]int{1, 2, 3, 4, 6, 9, 14}[rng.Intn(7)], rng.Next())
	n := 2 + rng.Intn(4)
	set := b.New()
	role := make([]int, b.K)
	d1, d2 := make([]int, b.K), make([]int, b.K)
	first := rng.Intn(3)
	for k := range role {
		role[k] = first
		if rng.Chance(1, 2) {
			role[k] = rng.Intn(3)
		}
		d1[k] = rng.Intn(n)
		d2[k] = (d1[k] + 1 + rng.Intn(n-1)) % n
	}
	slots := make([][2]slot, b.K)
	val := func(k, s int) int { return 1000 + 10*k + s }
	rounds := 3 + rng.Intn(10)
	if !ctl {
		rounds *= 20
	}
	type loc struct {
		viol      []mon.Violation
		taken     []int
		sightings int64
		handovers int64
	}
	ls := make([]*loc, n)
	bodies := make([]func(*vsched.Thread), n)
	for th := range bodies {
		th := th
		l := &loc{taken: make([]int, b.K)}
		ls[th] = l
		r := vsched.NewRng(rng.Next())
		bodies[th] = func(*vsched.Thread) {
			fail := func(f string, a ...any) {
				if len(l.viol) < 3 {
					l.viol = append(l.viol, mon.Violation{Class: mon.OWN, Variant: b.Name, Msg: fmt.Sprintf("g%d: ", th) + fmt.Sprintf(f, a...)})
				}
			}
			added := make([]bool, b.K)
			read := func(k, s int, how string) {
				l.sightings++
				if x := slots[k][s]; x.a != val(k, s) || x.b != -val(k, s) {
					fail("%s of %s: the slot written before its Add reads %d/%d, want %d/%d", how, b.Show(k, 0), x.a, x.b, val(k, s), -val(k, s))
				}
			}
			publish := func(k, s int) bool {
				added[k] = true
				slots[k][s].a = val(k, s)
				slots[k][s].b = -val(k, s)
				return set.Add(k, r.Intn(b.Reps(k)))
			}
			for j := 0; j < rounds; j++ {
				k := r.Intn(b.K)
				switch role[k] {
				case 0:
					if d1[k] == th && !added[k] {
						publish(k, 0)
						continue
					}
					switch r.Intn(5) {
					case 0:
						if set.Remove(k, 0) && d1[k] != th {
							read(k, 0, "Remove")
						}
					case 1:
						set.Range(func(q, _ int) bool {
							if q >= 0 && role[q] == 0 && d1[q] != th {
								read(q, 0, "Range")
							}
							return true
						})
					case 2:
						set.RangeFrom(k, 0, func(q, _ int) bool {
							if q >= 0 && role[q] == 0 && d1[q] != th {
								read(q, 0, "RangeFrom")
							}
							return true
						})
					default:
						if set.Contains(k, 0) && d1[k] != th {
							read(k, 0, "Contains")
						}
					}
				case 1:
					me := -1
					if d1[k] == th {
						me = 0
					} else if d2[k] == th {
						me = 1
					}
					if me >= 0 && !added[k] {
						if !publish(k, me) {
							read(k, 1-me, "failed Add")
						}
					} else {
						set.Contains(k, 0)
					}
				case 2:
					if set.Remove(k, r.Intn(b.Reps(k))) {
						l.taken[k]++
						l.handovers++
						x := slots[k][0]
						if ctl {
							vsched.Point(vsched.KUser)
						}
						slots[k][0].a = x.a + 1
						slots[k][0].b = x.b - 1
						if !set.Add(k, r.Intn(b.Reps(k))) {
							fail("owns %s after a successful Remove, but adding it back failed", b.Show(k, 0))
						}
					} else if r.Chance(1, 3) {
						set.Contains(k, 0)
					}
				}
			}
		}
	}
	fill := func(*vsched.Thread) {
		for k, x := range role {
			if x == 2 {
				set.Add(k, 0)
			}
		}
	}
	if ctl {
		vsched.Run(vsched.Config{Seed: rng.Next(), LevelBias: 500}, []func(*vsched.Thread){fill})
	} else {
		fill(nil)
	}
	res := &mon.Result{Variant: b.Name}
	if ctl {
		cfg := mon.GenSched(rng, rounds*n*30)
		s := vsched.Run(cfg, bodies)
		c.Count["scheduler steps"] += s.Steps()
		c.Count["preemptions"] += int64(s.Preempts)
		res.Hash = s.Hash
		for _, t := range s.Threads() {
			if t.PanicVal != nil {
				res.Viol = append(res.Viol, mon.Violation{Class: mon.PANIC, Variant: b.Name, Msg: fmt.Sprintf("panic: %v", t.PanicVal), Detail: t.PanicStack})
			}
		}
		if s.Outcome != vsched.OK {
			res.Viol = append(res.Viol, mon.Violation{Class: mon.PROG, Variant: b.Name, Msg: vsched.OutcomeName[s.Outcome]})
		}
		if len(res.Viol) > 0 {
			return res
		}
	} else {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for th := range bodies {
			th := th
			wg.Add(1)
			go func() {
				defer wg.Done()
				normal := false
				defer func() {
					if !normal {
						v := mon.Violation{Class: mon.PANIC, Variant: b.Name, Msg: fmt.Sprintf("panic: %v", recover()), Detail: string(debug.Stack())}
						ls[th].viol = append(ls[th].viol, v)
						mon.Died(v)
					}
				}()
				<-start
				bodies[th](nil)
				normal = true
			}()
		}
		close(start)
		wg.Wait()
	}
	taken := make([]int, b.K)
	for _, l := range ls {
		res.Viol = append(res.Viol, l.viol...)
		c.Count["published memory read after a sighting"] += l.sightings
		c.Count["ownership handovers"] += l.handovers
		res.Nontrivial = res.Nontrivial || l.sightings+l.handovers > 0
		for k, x := range l.taken {
			taken[k] += x
			res.Hash = vsched.Mix(res.Hash, uint64(x))
		}
	}
	for k, x := range role {
		if x == 2 && (slots[k][0].a != taken[k] || slots[k][0].b != -taken[k]) && len(res.Viol) == 0 {
			res.Viol = append(res.Viol, mon.Violation{Class: mon.OWN, Variant: b.Name,
				Msg: fmt.Sprintf("%s was taken %d times, its slot was changed %d/%d times: two owners at once", b.Show(k, 0), taken[k], slots[k][0].a, -slots[k][0].b)})
		}
	}
	c.Count["variant "+b.Name]++
	if i%97 == 0 {
		res.Sample = fmt.Sprintf("%s, %d goroutines, %d rounds, ranks by role (0 published, 1 contended, 2 token): %v", b.Name, n, rounds, role)
	}
	return res
}
