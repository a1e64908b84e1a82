// Package mon holds the monitors: program generators, recorders and oracles.
package mon

import (
	"fmt"
	"sort"
	"strings"

	"verif/variants"
)

// Operation kinds.
const (
	OpAdd = iota
	OpRemove
	OpContains
	OpRange
	OpRangeFrom
	OpLen
	nKinds
)

var kindName = [...]string{"Add", "Remove", "Contains", "Range", "RangeFrom", "Len"}

// Report is one value passed to a callback: a member at some instant in [From, At].
type Report struct {
	K, R     int
	From, At int64
}

// Rec is one recorded operation.
type Rec struct {
	Th        int
	Kind      int
	K, R      int
	Stop      int // Range*: the callback returns false on this report (0-based), -1: never
	Call, Ret int64
	Res       bool
	N         int
	Reports   []Report
	AfterStop bool // callback called again after it returned false
	WrongG    bool // callback called outside the calling thread, or after return
	Done      bool
	Audit     bool
	Left      int  // callback left by 1: panic, 2: Goexit
	Swallowed bool // and the call returned nevertheless
}

func (r *Rec) format(b *variants.Binding) string {
	s := fmt.Sprintf("[%d,%d] g%d %s", r.Call, r.Ret, r.Th, kindName[r.Kind])
	switch r.Kind {
	case OpAdd, OpRemove, OpContains:
		s += fmt.Sprintf("(%s)=%v", b.Show(r.K, r.R), r.Res)
	case OpLen:
		s += fmt.Sprintf("()=%d", r.N)
	default:
		if r.Kind == OpRangeFrom {
			s += "(" + b.Show(r.K, r.R) + ")"
		}
		var l []string
		for _, p := range r.Reports {
			l = append(l, fmt.Sprintf("%s@%d", b.Show(p.K, p.R), p.At))
		}
		s += " -> " + strings.Join(l, " ")
		if r.Left > 0 {
			s += [...]string{"", " (callback panics)", " (callback exits the goroutine)"}[r.Left]
		} else if r.Stop >= 0 {
			s += fmt.Sprintf(" (callback stops at report %d)", r.Stop)
		}
	}
	if !r.Done {
		s += " (did not return)"
	}
	return s
}

// lop is an operation on one value, for the linearizability check.
type lop struct {
	call, ret int64
	kind      uint8 // OpAdd, OpRemove, OpContains
	res       bool
	src       *Rec
	pending   bool // did not return: takes effect (successfully) at any time after call, or never
}

// legal gives the state a result requires and the state after it.
func (o *lop) need() bool { // required state before
	switch o.kind {
	case OpAdd:
		return !o.res
	default:
		return o.res
	}
}

func (o *lop) mutates() bool { return o.kind != OpContains && o.res }

// linearizable decides whether the operations on one value, starting in state init, are
// linearizable with respect to a one-bit set. It splits the
// history at instants at which no operation is open and searches each segment: reads that fit
// the current state are taken at once (they never constrain more), so the search branches
// only on successful updates. ok=false, inconclusive=true if a segment is too large.
func linearizable(ops []lop, init bool) (ok, inconclusive bool) {
	sort.Slice(ops, func(i, j int) bool { return ops[i].call < ops[j].call })
	states := [2]bool{}
	if init {
		states[1] = true
	} else {
		states[0] = true
	}
	for i := 0; i < len(ops); {
		j := i + 1
		end := ops[i].ret
		for j < len(ops) && ops[j].call <= end {
			if ops[j].ret > end {
				end = ops[j].ret
			}
			j++
		}
		var next [2]bool
		seg := ops[i:j]
		for st := 0; st < 2; st++ {
			if states[st] {
				r, inc := segment(seg, st == 1)
				if inc {
					return false, true
				}
				next[0] = next[0] || r[0]
				next[1] = next[1] || r[1]
			}
		}
		if !next[0] && !next[1] {
			return false, false
		}
		states = next
		i = j
	}
	return true, false
}

type segState struct {
	mask [4]uint64
	st   bool
}

func segment(ops []lop, st bool) (res [2]bool, inconclusive bool) {
	n := len(ops)
	must := n
	for i := range ops {
		if ops[i].pending {
			must--
		}
	}
	if n == 1 {
		o := &ops[0]
		if o.pending {
			res[b2i(st)] = true
			if o.need() == st {
				res[b2i(!st)] = true
			}
			return
		}
		if o.need() != st {
			return
		}
		if o.mutates() {
			st = !st
		}
		res[b2i(st)] = true
		return
	}
	if n > 256 {
		return res, true
	}
	seen := map[segState]struct{}{}
	var dfs func(mask [4]uint64, left int, st bool) bool
	budget := 2000000
	dfs = func(mask [4]uint64, left int, st bool) bool {
		for { // take fitting reads
			minRet := int64(1) << 62
			for i := range ops {
				if mask[i>>6]>>(uint(i)&63)&1 == 0 && ops[i].ret < minRet {
					minRet = ops[i].ret
				}
			}
			progress := false
			for i := range ops {
				if ops[i].call > minRet {
					break
				}
				if mask[i>>6]>>(uint(i)&63)&1 == 0 && !ops[i].mutates() && ops[i].need() == st {
					mask[i>>6] |= 1 << (uint(i) & 63)
					left--
					progress = true
				}
			}
			if left == 0 {
				res[b2i(st)] = true
				return res[0] && res[1]
			}
			if !progress {
				break
			}
		}
		k := segState{mask, st}
		if _, dup := seen[k]; dup {
			return false
		}
		if budget--; budget < 0 {
			return true
		}
		seen[k] = struct{}{}
		minRet := int64(1) << 62
		for i := range ops {
			if mask[i>>6]>>(uint(i)&63)&1 == 0 && ops[i].ret < minRet {
				minRet = ops[i].ret
			}
		}
		for i := range ops {
			if ops[i].call > minRet {
				break
			}
			if mask[i>>6]>>(uint(i)&63)&1 == 0 && ops[i].mutates() && ops[i].need() == st {
				m := mask
				m[i>>6] |= 1 << (uint(i) & 63)
				l := left - 1
				if ops[i].pending {
					l = left
				}
				if dfs(m, l, !st) {
					return true
				}
			}
		}
		return false
	}
	dfs([4]uint64{}, must, st)
	return res, budget < 0
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
