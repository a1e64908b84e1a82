package mon

import (
	"math/rand"
	"testing"
)

// brute tries all orders of the operations (and all subsets of the pending ones).
func brute(ops []lop, st bool, used uint) bool {
	left := false
	for i := range ops {
		if used>>uint(i)&1 == 0 && !ops[i].pending {
			left = true
		}
	}
	if !left {
		return true
	}
next:
	for i := range ops {
		if used>>uint(i)&1 != 0 {
			continue
		}
		for j := range ops { // nothing that must come before is left
			if j != i && used>>uint(j)&1 == 0 && ops[j].ret < ops[i].call {
				continue next
			}
		}
		if ops[i].need() != st {
			continue
		}
		s := st
		if ops[i].mutates() {
			s = !s
		}
		if brute(ops, s, used|1<<uint(i)) {
			return true
		}
	}
	return false
}

// The checker against brute force: random histories, half of them from a simulated set.
func TestLinearizable(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	count := [2]int{}
	for n := 0; n < 400000; n++ {
		m := 1 + r.Intn(7)
		var ops []lop
		st := false
		for i := 0; i < m; i++ {
			o := lop{kind: []uint8{OpAdd, OpRemove, OpContains}[r.Intn(3)], res: r.Intn(2) == 0}
			at := int64(10*i + 5)
			if n%4 != 0 {
				o.res = st
				if o.kind == OpAdd {
					o.res = !st
				}
				if o.mutates() {
					st = !st
				}
				w := int64(1 + r.Intn(60))
				o.call, o.ret = at-int64(r.Intn(int(w))), at+int64(r.Intn(int(w)))
				if r.Intn(12) == 0 {
					o.res = !o.res
				}
			} else {
				o.call = int64(r.Intn(50))
				o.ret = o.call + int64(r.Intn(30))
			}
			if o.mutates() && r.Intn(8) == 0 {
				o.pending, o.ret = true, 1<<61
			}
			ops = append(ops, o)
		}
		want := brute(ops, false, 0)
		got, inc := linearizable(append([]lop{}, ops...), false)
		if inc || got != want {
			t.Fatalf("history %d: got %v (inconclusive %v), want %v: %+v", n, got, inc, want, ops)
		}
		count[b2i(want)]++
	}
	t.Logf("%d linearizable, %d not", count[1], count[0])
}
