// vrun runs cases of one engine and writes a JSON summary.
//
//	vrun -engine hist -profile arc -seed 1 -from 0 -step 1 -to 1000 -out FILE [-delay] [-case I]
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/mon"
	_ "verif/payload"
	"verif/variants"
	"verif/vsched"
)

type summary struct {
	Engine     string           `json:"engine"`
	Cases      int              `json:"cases"`
	Nontrivial int              `json:"nontrivial"`
	Inconcl    int              `json:"inconclusive"`
	Count      map[string]int64 `json:"count"`
	Samples    []string         `json:"samples"`
	Viol       []mon.Violation  `json:"violations"`
	ByClass    map[string]int   `json:"by_class"`
	Complete   bool             `json:"complete"`
	Stopped    bool             `json:"stopped"` // by the deadline
	Wall       float64          `json:"wall"`
}

func main() {
	engine := flag.String("engine", "hist", "")
	profile := flag.String("profile", "all", "")
	seed := flag.Uint64("seed", 1, "")
	from := flag.Int("from", 0, "")
	to := flag.Int("to", 100, "")
	step := flag.Int("step", 1, "")
	out := flag.String("out", "", "")
	stopAfter := flag.Int("stop", 6, "stop after this many violating cases")
	deadline := flag.Float64("deadline", 0, "start no case after this many seconds")
	foreign := flag.Int("foreign", 40, "stop after this many cases that violate only other classes, if they took long")
	classes := flag.String("classes", "", "classes of violations to look for, comma separated; empty: all")
	freeHang := flag.Float64("freehang", 60, "CPU seconds of one free-running case that make a hang")
	hang := flag.Float64("hang", 25, "CPU seconds without a scheduling point that make a hang")
	focus := flag.String("focus", "", "sources to favour, comma separated")
	delay := flag.Bool("delay", false, "")
	deep := flag.Bool("deep", false, "")
	trace := flag.Bool("trace", false, "")
	gogc := flag.Int("gogc", 0, "")
	flag.Parse()
	if *gogc != 0 {
		debug.SetGCPercent(*gogc)
	}

	if *focus != "" {
		variants.Favour(strings.Split(*focus, ","))
	}

	run, ok := mon.Engines[*engine]
	if !ok {
		fmt.Fprintln(os.Stderr, "vrun: no engine", *engine)
		os.Exit(3)
	}
	if *delay {
		vsched.Mode = vsched.Delay
	}
	var prog *os.File
	if *out != "" {
		var err error
		prog, err = os.Create(*out + ".case")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	ctx := &mon.Ctx{Profile: *profile, Deep: *deep, Count: map[string]int64{}, Trace: *trace}
	sum := &summary{Engine: *engine, Count: ctx.Count, ByClass: map[string]int{}, Samples: []string{}, Viol: []mon.Violation{}}
	begin := time.Now()
	hashes := map[uint64]struct{}{}
	var cur atomic.Int64
	cur.Store(int64(*from))
	save := func() {
		sum.Wall = time.Since(begin).Seconds()
		j, _ := json.Marshal(sum)
		if *out == "" {
			j, _ = json.MarshalIndent(sum, "", " ")
			os.Stdout.Write(append(j, '\n'))
			return
		}
		os.WriteFile(*out, j, 0o644)
		hb := make([]byte, 0, 8*len(hashes))
		for h := range hashes {
			hb = binary.LittleEndian.AppendUint64(hb, h)
		}
		os.WriteFile(*out+".hash", hb, 0o644)
	}
	var ending sync.Mutex
	// die ends the worker from outside of the main goroutine, which is waiting and does not touch the summary.
	die := func(vs ...mon.Violation) {
		ending.Lock()
		for _, v := range vs {
			v.Engine, v.Index = *engine, int(cur.Load())
			sum.Viol = append(sum.Viol, v)
			sum.ByClass[v.Class]++
		}
		save()
		os.Exit(0)
	}
	mon.Died = func(v mon.Violation) {
		if vsched.Mode != vsched.Ctl {
			die(v)
		}
	}
	go watch(&cur, *hang, *freeHang, func(msg string) {
		v := mon.Violation{Class: mon.PROG, Variant: mon.CurrentKind(), Msg: msg, Detail: stacks()}
		if mon.Phase() != mon.AtRest {
			die(v)
		}
		v.Msg = mon.AtRest + ": " + v.Msg
		w := v
		w.Class = mon.CONS
		die(w, v)
	})
	bad, other := 0, 0
	var wasted time.Duration
	end := time.Now().Add(time.Duration(*deadline * float64(time.Second)))
	want := map[string]bool{}
	for _, c := range strings.FieldsFunc(*classes, func(r rune) bool { return r == ',' }) {
		want[c] = true
	}
	var pbuf [32]byte
	for i := *from; i < *to; i += *step {
		if *deadline > 0 && time.Now().After(end) {
			sum.Stopped = true
			break
		}
		cur.Store(int64(i))
		if prog != nil {
			n := copy(pbuf[:], fmt.Sprintf("%-20d\n", i))
			prog.WriteAt(pbuf[:n], 0)
		}
		rng := vsched.NewRng(vsched.Mix(*seed*0x9E3779B97F4A7C15+uint64(i), nameHash(*engine+"/"+*profile)))
		t0 := time.Now()
		r := run(ctx, i, rng)
		sum.Cases++
		if r.Nontrivial {
			sum.Nontrivial++
			hashes[r.Hash] = struct{}{}
		}
		if r.Inconcl {
			sum.Inconcl++
		}
		if len(r.Sample) > 700 {
			r.Sample = r.Sample[:700] + " ..."
		}
		if r.Sample != "" && len(sum.Samples) < 40 {
			sum.Samples = append(sum.Samples, r.Sample)
		}
		if len(r.Viol) > 0 {
			mine := false
			for _, v := range r.Viol {
				v.Engine, v.Index = *engine, i
				if v.Variant == "" {
					v.Variant = r.Variant
				}
				sum.ByClass[v.Class]++
				rel := len(want) == 0 || want[v.Class]
				mine = mine || rel
				if len(v.Detail) > 20000 {
					v.Detail = v.Detail[:20000] + "..."
				}
				if len(sum.Viol) < 20 || rel && len(sum.Viol) < 200 {
					sum.Viol = append(sum.Viol, v)
				}
			}
			if mine {
				bad++
				save() // in case this worker has to be killed
			} else {
				other++
				wasted += time.Since(t0)
			}
			if bad >= *stopAfter || other >= *foreign && wasted > 45*time.Second || wasted > 90*time.Second {
				break
			}
		}
	}
	sum.Complete = true
	save()
}

func nameHash(s string) uint64 {
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func stacks() string {
	b := make([]byte, 1<<20)
	return string(b[:runtime.Stack(b, true)])
}

// watch reports a case that will never end. What counts is CPU time and goroutine states, not
// wall-clock time, so a loaded machine raises no alarm:
//   - a controlled run has not passed a scheduling point while the process burnt limit seconds
//     of CPU time;
//   - a free-running case of a few milliseconds has burnt freeLimit seconds of CPU time;
//   - in a free-running case every goroutine is blocked (twice, seconds apart).
func watch(cur *atomic.Int64, limit, freeLimit float64, report func(string)) {
	last, lastCase := int64(-1), int64(-1)
	base := cpu()
	since := time.Now()
	blocked := 0
	for {
		time.Sleep(500 * time.Millisecond)
		st, on := vsched.Progress()
		c := cur.Load()
		if c != lastCase || on && st != last {
			last, lastCase, base, since, blocked = st, c, cpu(), time.Now(), 0
			continue
		}
		used := cpu() - base
		if on {
			if used > limit {
				report(fmt.Sprintf("an operation spun for %.0f s of CPU time between two atomic operations", used))
			}
			continue
		}
		if used > freeLimit && time.Since(since) > 10*time.Second {
			report(fmt.Sprintf("operations do not end: a free-running case of a few milliseconds took %.0f s of CPU time", used))
		}
		if time.Since(since) > 4*time.Second && allBlocked() {
			if blocked++; blocked >= 4 {
				report("deadlock: every goroutine is blocked")
			}
		} else {
			blocked = 0
		}
	}
}

var running = regexp.MustCompile(`(?m)^goroutine \d+ [^\[\n]*\[(running|runnable|syscall|sleep|IO wait|GC|garbage|copystack|preempted|waiting|finalizer|force gc|trace|debug|timer|dumping|flushing|stopping|wait for|coroutine|leaked)`)

// allBlocked: apart from the calling goroutine, all are blocked on locks or channels.
func allBlocked() bool {
	return len(running.FindAllString(stacks(), 2)) == 1
}
