package mon

import (
	"fmt"
	"runtime/debug"
	"strings"
	"sync"

	"verif/variants"
	"verif/vsched"
)

// model is the sequential specification: the representative held for each rank, or -1.
type model struct {
	b   *variants.Binding
	rep []int
	n   int
}

func newModel(b *variants.Binding) *model {
	m := &model{b: b, rep: make([]int, b.K)}
	for i := range m.rep {
		m.rep[i] = -1
	}
	return m
}

// seqRun drives one set against its model; it must run inside a thread.
type seqRun struct {
	m    *model
	set  variants.Set
	viol []Violation
	log  []string
	hash uint64
	ops  int64
	cls  string
	op   int // what is being done
}

func (s *seqRun) fail(f string, a ...any) {
	if len(s.viol) < 4 {
		d := s.log
		if len(d) > 400 {
			d = append([]string{"..."}, d[len(d)-400:]...)
		}
		v := Violation{Class: s.cls, Variant: s.m.b.Name, Msg: fmt.Sprintf(f, a...), Detail: strings.Join(d, "\n")}
		first := len(s.viol) == 0
		s.viol = append(s.viol, v)
		if s.cls == SEQ && first { // also a matter of the operation's own property
			v.Class = map[int]string{OpAdd: LIN, OpRemove: LIN, OpContains: LIN, OpLen: LEN, OpRange: RANGE, OpRangeFrom: RFROM}[s.op]
			s.viol = append(s.viol, v)
		}
	}
}

func (s *seqRun) note(f string, a ...any) {
	if len(s.log) < 100000 {
		s.log = append(s.log, fmt.Sprintf(f, a...))
	}
}

func (s *seqRun) do(kind, k, r, stop int) {
	b := s.m.b
	m := s.m
	s.op = kind
	s.ops++
	s.hash = vsched.Mix(s.hash, uint64(kind)<<40|uint64(k)<<8|uint64(r))
	cheap := b.K > 64
	switch kind {
	case OpAdd, OpRemove, OpContains:
		vsched.Begin()
		var got bool
		switch kind {
		case OpAdd:
			got = s.set.Add(k, r)
		case OpRemove:
			got = s.set.Remove(k, r)
		default:
			got = s.set.Contains(k, r)
		}
		vsched.End()
		want := m.rep[k] >= 0
		if kind == OpAdd {
			want = !want
		}
		if !cheap || got != want {
			s.note("%s(%s) = %v", kindName[kind], b.Show(k, r), got)
		}
		if got != want {
			s.fail("%s(%s) = %v, want %v", kindName[kind], b.Show(k, r), got, want)
		}
		if kind == OpAdd && m.rep[k] < 0 {
			m.rep[k] = r
			m.n++
		}
		if kind == OpRemove && m.rep[k] >= 0 {
			m.rep[k] = -1
			m.n--
		}
	case OpLen:
		vsched.Begin()
		n := s.set.Len()
		vsched.End()
		if !cheap || n != m.n {
			s.note("Len() = %d", n)
		}
		if n != m.n {
			s.fail("Len() = %d, want %d", n, m.n)
		}
	default:
		lo := 0
		name := "Range"
		var got [][2]int
		stopped := false
		cb := func(k, r int) bool {
			if stopped || len(got) > b.K+4 {
				stopped = true
				got = append(got, [2]int{-9, -9})
				return false
			}
			got = append(got, [2]int{k, r})
			if len(got)-1 == stop {
				stopped = true
				return false
			}
			return true
		}
		vsched.Begin()
		if kind == OpRange {
			s.set.Range(cb)
		} else {
			lo = k
			name = "RangeFrom(" + b.Show(k, r) + ")"
			s.set.RangeFrom(k, r, cb)
		}
		vsched.End()
		i := 0
		bad := ""
		for q := lo; q < b.K && (stop < 0 || i <= stop); q++ {
			if m.rep[q] < 0 {
				continue
			}
			if i >= len(got) {
				bad = fmt.Sprintf("missing %s", b.Show(q, m.rep[q]))
				break
			}
			if got[i] != [2]int{q, m.rep[q]} {
				bad = fmt.Sprintf("report %d is %s, want %s", i, b.Show(got[i][0], got[i][1]), b.Show(q, m.rep[q]))
				break
			}
			i++
		}
		if bad == "" && i != len(got) {
			bad = fmt.Sprintf("%d reports, want %d", len(got), i)
			if i < len(got) {
				bad += ", first extra " + b.Show(got[i][0], got[i][1])
			}
		}
		if !cheap || bad != "" {
			s.note("%s (stop %d) -> %v", name, stop, got)
		}
		if bad != "" {
			s.fail("%s with %d members (callback stops at report %d): %s", name, m.n, stop, bad)
		}
	}
}

func (s *seqRun) audit(full bool) {
	s.do(OpLen, 0, 0, -1)
	s.do(OpRange, 0, 0, -1)
	b := s.m.b
	step := 1
	if !full && b.K > 40 {
		step = b.K / 40
	}
	for k := 0; k < b.K; k += step {
		s.do(OpContains, k, b.Reps(k)-1, -1)
		s.do(OpRangeFrom, k, 0, -1)
	}
	if b.K > 0 {
		s.do(OpRangeFrom, b.K-1, 0, -1)
	}
}

// single runs f as the only thread; every operation is bounded by limit own steps.
func single(c *Ctx, rng *vsched.Rng, bias int, limit int64, name string, cls string, f func()) (*vsched.Sched, []Violation) {
	s := vsched.Run(vsched.Config{Seed: rng.Next(), LevelBias: bias, OpLimit: limit}, []func(*vsched.Thread){func(*vsched.Thread) { f() }})
	c.add("scheduler steps", s.Steps())
	var vs []Violation
	t := s.Threads()[0]
	if t.PanicVal != nil {
		vs = append(vs, Violation{Class: PANIC, Variant: name, Msg: fmt.Sprintf("panic: %v", t.PanicVal), Detail: t.PanicStack})
	}
	if s.Outcome != vsched.OK {
		_ = cls
		vs = append(vs, Violation{Class: PROG, Variant: name, Msg: "sequential use: " + describeAbort(s)})
	}
	return s, vs
}

// SeqCase: a random sequential history of one set against the model.
func SeqCase(c *Ctx, i int, rng *vsched.Rng) *Result {
	v := variants.Pick(i, rng)
	n := []int{1, 2, 3, 4, 5, 6, 8, 12, 20, 40, 100, 300}[rng.Intn(12)]
	if c.Deep && rng.Chance(1, 40) || rng.Chance(1, 200) {
		n = 3000
	}
	b := v.Bind(n, rng.Next())
	bias := []int{0, 0, 250, 500, 750, 950, 1000, -1}[rng.Intn(8)]
	s := &seqRun{m: newModel(b), set: b.New(), cls: SEQ}
	r := *rng
	maxN := 0
	_, vs := single(c, rng, bias, int64(400*b.K+20000), b.Name, PROG, func() {
		if r.Chance(1, 3) {
			s.audit(true) // the empty set
		}
		phases := 1 + r.Intn(4)
		for p := 0; p < phases && len(s.viol) == 0; p++ {
			steps := 10 + 3*b.K
			switch r.Intn(6) {
			case 0: // ascending fill
				for k := 0; k < b.K; k++ {
					s.do(OpAdd, k, r.Intn(b.Reps(k)), -1)
				}
			case 1: // descending fill
				for k := b.K - 1; k >= 0; k-- {
					s.do(OpAdd, k, r.Intn(b.Reps(k)), -1)
				}
			case 2: // drain
				d := r.Intn(2)
				for k := 0; k < b.K; k++ {
					q := k
					if d == 1 {
						q = b.K - 1 - k
					}
					s.do(OpRemove, q, r.Intn(b.Reps(q)), -1)
				}
			default:
				w := Weights{4, 4, 3, 1, 1, 1}
				if b.K > 64 {
					w = Weights{200, 200, 100, 1, 1, 5}
				}
				switch r.Intn(4) {
				case 0:
					w[OpAdd] *= 4
				case 1:
					w[OpRemove] *= 4
				}
				for j := 0; j < steps && len(s.viol) == 0; j++ {
					k := r.Intn(b.K)
					stop := -1
					if r.Chance(1, 4) {
						stop = r.Intn(b.K)
					}
					s.do(w.pick(&r), k, r.Intn(b.Reps(k)), stop)
				}
			}
			if s.m.n > maxN {
				maxN = s.m.n
			}
			if len(s.viol) == 0 {
				s.audit(b.K <= 20)
			}
		}
	})
	c.add("operations", s.ops)
	c.max("largest set", int64(maxN))
	c.add("variant "+b.Name, 1)
	res := &Result{Variant: b.Name, Hash: s.hash, Nontrivial: s.ops > 5 && maxN > 0}
	for _, ch := range b.Name {
		res.Hash = vsched.Mix(res.Hash, uint64(ch))
	}
	for _, x := range vs {
		d := s.log
		if len(d) > 400 {
			d = d[len(d)-400:]
		}
		x.Detail += "\n" + strings.Join(d, "\n")
		s.viol = append(s.viol, x)
	}
	res.Viol = s.viol
	if i%97 == 0 || c.Trace {
		l := s.log
		if len(l) > 12 {
			l = l[:12]
		}
		res.Sample = fmt.Sprintf("%s, %d values, %d operations, largest set %d, tower bias %d: %s", b.Name, b.K, s.ops, maxN, bias, strings.Join(l, "; "))
		if len(res.Sample) > 600 {
			res.Sample = res.Sample[:600] + " ..."
		}
	}
	return res
}

// BigCase: a large set against the model: counters and towers beyond what small sets need.
func BigCase(c *Ctx, i int, rng *vsched.Rng) *Result {
	var b *variants.Binding
	for {
		v := variants.Pick(i, rng)
		if v.MaxKeys > 0 || strings.HasSuffix(v.Name, "8]") || strings.HasSuffix(v.Name, "16]") || strings.HasSuffix(v.Name, "Byte]") {
			continue
		}
		b = v.Bind([]int{70000, 70000, 140000}[rng.Intn(3)], rng.Next())
		break
	}
	s := &seqRun{m: newModel(b), set: b.New(), cls: SEQ}
	r := *rng
	bias := []int{0, 0, 500, 750}[rng.Intn(4)]
	_, vs := single(c, rng, bias, int64(400*b.K+20000), b.Name, PROG, func() {
		look := func() {
			s.do(OpLen, 0, 0, -1)
			for j := 0; j < 300; j++ {
				k := r.Intn(b.K)
				s.do(OpContains, k, 0, -1)
				s.do(OpRangeFrom, k, 0, r.Intn(20))
			}
			s.do(OpRange, 0, 0, -1)
		}
		off, step := r.Intn(b.K), []int{1, b.K - 1, 40503, 7}[r.Intn(4)]
		for gcd(step, b.K) != 1 {
			step++
		}
		at := off
		for j := 0; j < b.K && len(s.viol) == 0; j++ {
			s.do(OpAdd, at, 0, -1)
			if j&(j-1) == 0 || j&1023 == 1023 || j > 65500 && j < 65600 {
				s.do(OpLen, 0, 0, -1)
			}
			at = (at + step) % b.K
		}
		look()
		for j := 0; j < b.K/2 && len(s.viol) == 0; j++ {
			k := r.Intn(b.K)
			s.do([]int{OpAdd, OpRemove, OpRemove, OpContains}[r.Intn(4)], k, 0, -1)
		}
		look()
		for k := 0; k < b.K && len(s.viol) == 0; k++ {
			s.do(OpRemove, k, 0, -1)
			if k&1023 == 1023 {
				s.do(OpLen, 0, 0, -1)
			}
		}
		look()
	})
	res := &Result{Viol: append(s.viol, vs...), Hash: s.hash, Variant: b.Name, Nontrivial: true}
	c.add("variant "+b.Name, 1)
	c.add("operations", s.ops)
	c.max("largest set", int64(b.K))
	res.Sample = fmt.Sprintf("%s: %d values added and removed, %d operations", b.Name, b.K, s.ops)
	return res
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// IsoCase: several sets, each used by one thread only (or all alternately by one thread, also
// from inside each other's callbacks); each must behave as if it were alone.
func IsoCase(c *Ctx, i int, rng *vsched.Rng) *Result {
	n := 2 + rng.Intn(3)
	same := rng.Chance(1, 2)
	v := variants.Pick(i, rng)
	r := *rng
	rng.Next()
	var sets []*seqRun
	bs := v.Bind(1+r.Intn(8), r.Next())
	for j := 0; j < n; j++ {
		b := bs
		if !same {
			b = variants.Pick(r.Intn(1000), &r).Bind(1+r.Intn(8), r.Next())
		} else if r.Chance(1, 3) {
			b = v.Bind(1+r.Intn(8), r.Next())
		}
		s := &seqRun{m: newModel(b), cls: ISO}
		sets = append(sets, s)
	}
	early := r.Chance(1, 2)
	if early {
		for _, s := range sets {
			s.set = s.m.b.New()
		}
	}
	op := func(s *seqRun, r *vsched.Rng) {
		k := r.Intn(s.m.b.K)
		if r.Chance(1, 12) {
			breakOff(s.set, k-r.Intn(2), r.Intn(3))
			return
		}
		stop := -1
		if r.Chance(1, 4) {
			stop = r.Intn(s.m.b.K)
		}
		s.do(Weights{5, 4, 3, 1, 1, 1}.pick(r), k, r.Intn(s.m.b.Reps(k)), stop)
	}
	open := func(s *seqRun) {
		if s.set == nil {
			s.set = s.m.b.New()
			s.audit(true)
		}
	}
	steps := 5 + r.Intn(40)
	bias := []int{0, 250, 500, 750, 1000, -1}[r.Intn(6)]
	res := &Result{Variant: v.Name}
	if mode := r.Intn(3); mode == 0 { // alternately, with nesting
		_, vs := single(c, &r, bias, 20000, v.Name, PROG, func() {
			for j := 0; j < steps*n; j++ {
				s := sets[r.Intn(n)]
				open(s)
				op(s, &r)
				if r.Chance(1, 6) { // operate on another set inside a callback
					t := sets[r.Intn(n)]
					open(t)
					inner := r
					depth := 0
					s.set.Range(func(int, int) bool {
						if depth++; depth > 4 {
							return false
						}
						if t != s {
							op(t, &inner)
						}
						return true
					})
					r.Next()
				}
			}
			for _, s := range sets {
				open(s)
				s.audit(true)
			}
		})
		res.Viol = append(res.Viol, vs...)
		res.Nontrivial = true
	} else {
		cfg := GenSched(&r, steps*n*20)
		cfg.LevelBias = bias
		cfg.OpLimit = 20000
		if mode == 2 {
			cfg.Strat = vsched.Freeze
			cfg.Switch = []int{20, 200, 1000}[r.Intn(3)]
			cfg.FreezeAt = int64(1 + r.Intn(steps*n*20))
		}
		var bodies []func(*vsched.Thread)
		for j := range sets {
			s := sets[j]
			tr := vsched.NewRng(r.Next())
			bodies = append(bodies, func(*vsched.Thread) {
				open(s)
				for q := 0; q < steps; q++ {
					op(s, tr)
				}
				s.audit(true)
			})
		}
		sch := vsched.Run(cfg, bodies)
		c.add("scheduler steps", sch.Steps())
		c.add("preemptions", int64(sch.Preempts))
		c.add("updates suspended inside an operation", int64(sch.FrozenIn))
		res.Nontrivial = sch.Preempts > 0
		res.Hash = sch.Hash
		for _, t := range sch.Threads() {
			if t.PanicVal != nil {
				res.Viol = append(res.Viol, Violation{Class: PANIC, Variant: v.Name, Msg: fmt.Sprintf("panic: %v", t.PanicVal), Detail: t.PanicStack})
			}
		}
		if sch.Outcome != vsched.OK {
			res.Viol = append(res.Viol, Violation{Class: PROG, Variant: v.Name, Msg: "sets used by one goroutine each: " + describeAbort(sch)})
		}
	}
	var names []string
	for _, s := range sets {
		res.Hash = vsched.Mix(res.Hash, s.hash)
		c.add("operations", s.ops)
		res.Viol = append(res.Viol, s.viol...)
		names = append(names, s.m.b.Name)
	}
	c.add("sets", int64(n))
	if i%97 == 0 || c.Trace {
		res.Sample = fmt.Sprintf("%d sets (%s), %d operations each, tower bias %d", n, strings.Join(names, ", "), steps, bias)
	}
	return res
}

// IsoFreeCase: several goroutines on real threads, each making sets and using them alone; each
// set must behave as if it were alone.
func IsoFreeCase(c *Ctx, i int, rng *vsched.Rng) *Result {
	n := 2 + rng.Intn(6)
	v := variants.Pick(i, rng)
	same := rng.Chance(2, 3)
	rounds := 1 + rng.Intn(12)
	steps := 20 + rng.Intn(200)
	res := &Result{Variant: v.Name, Nontrivial: true}
	SetKind(v.Name)
	var mu sync.Mutex
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < n; g++ {
		b := v.Bind(1+rng.Intn(40), rng.Next())
		if !same {
			b = variants.Pick(rng.Intn(1000), rng).Bind(1+rng.Intn(40), rng.Next())
		}
		r := vsched.NewRng(rng.Next())
		var runs []*seqRun
		wg.Add(1)
		go func() {
			defer wg.Done()
			ok := false
			defer func() {
				mu.Lock()
				defer mu.Unlock()
				if !ok {
					v := Violation{Class: PANIC, Variant: b.Name, Msg: fmt.Sprintf("panic: %v", recover()), Detail: string(debug.Stack())}
					res.Viol = append(res.Viol, v)
				}
				for _, s := range runs {
					res.Viol = append(res.Viol, s.viol...)
					res.Hash = vsched.Mix(res.Hash, s.hash)
					c.add("operations", s.ops)
				}
				c.add("sets", int64(len(runs)))
			}()
			<-start
			for q := 0; q < rounds; q++ {
				runs = append(runs, &seqRun{m: newModel(b), set: b.New(), cls: ISO})
				s := runs[len(runs)-1]
				s.audit(true)
				for x := 0; x < steps; x++ {
					s = runs[r.Intn(len(runs))]
					k := r.Intn(b.K)
					s.do(Weights{6, 5, 3, 1, 1, 1}.pick(r), k, r.Intn(b.Reps(k)), -1)
				}
			}
			for _, s := range runs {
				s.audit(true)
			}
			ok = true
		}()
	}
	close(start)
	wg.Wait()
	if i%97 == 0 {
		res.Sample = fmt.Sprintf("%s: %d goroutines with %d sets each, %d operations per set", v.Name, n, rounds, steps)
	}
	return res
}
