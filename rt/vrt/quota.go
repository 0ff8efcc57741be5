package vrt

import "unsafe"

// How many goroutines a call uses at once is judged on the partial order of
// an execution, that is for every schedule equivalent to it: threads work at
// the same time in some of them iff none of their working periods ends before
// another one begins.

// seg is a working period: after event start, up to its last element access,
// which comes before event end.
type seg struct {
	start, end int // end -1: nothing follows
	work       bool
}

func blocking(name string) bool {
	switch name {
	case "start", "resume", "recv", "send", "select", "lock", "rlock", "wait", "cond":
		return true
	}
	return false
}

// mark notes event i of t.
func (t *thread) mark(i int, name string) {
	if n := len(t.segs); n > 0 {
		if s := &t.segs[n-1]; s.end < 0 {
			s.end = i
		}
	}
	if blocking(name) {
		if n := len(t.segs); n > 0 && !t.segs[n-1].work {
			t.segs = t.segs[:n-1]
		}
		t.segs = append(t.segs, seg{start: i, end: -1})
	}
}

// worked notes an element access of t.
func (t *thread) worked() {
	if n := len(t.segs); n > 0 {
		t.segs[n-1].work, t.segs[n-1].end = true, -1
	}
}

func (t *thread) sawQuota(v uint64) {
	t.rdEv, t.rdVal, t.sinceRd = len(ex.events), v, 0
}

func (e *execution) before(i, j int) bool {
	return i >= 0 && (i == j || e.events[j].clk[e.events[i].tid] > int32(i))
}

// WatchReads logs reads of the goroutine quota variable.
func WatchReads[T any](p *T) { ex.watch = uintptr(unsafe.Pointer(p)) }

// Usage describes the goroutines of the current execution.
type Usage struct {
	Peak    int    // most goroutines (caller included) working at once
	Unjust  string // a goroutine started although the quota was used up
	PerRead int    // most goroutines started by one goroutine between reads of the quota
}

// Whole: all of the current execution is on record, from its start.
func Whole() bool { return !ex.fair }

// GoroutineUsage is to be called when the call under test has returned.
func GoroutineUsage() (u Usage) {
	e := ex
	var ts []*thread
	for _, t := range e.threads {
		if !t.isEnv {
			ts = append(ts, t)
			u.PerRead = max(u.PerRead, t.maxSince)
		}
	}
	if len(ts) > 12 {
		u.Peak = e.antichain(ts)
	}
	var sel []seg
	var rec func(i int)
	rec = func(i int) {
		if len(sel) > u.Peak {
			u.Peak = len(sel)
		}
		if i == len(ts) || len(sel)+len(ts)-i <= u.Peak {
			return
		}
	next:
		for _, s := range ts[i].segs {
			if !s.work {
				continue
			}
			for _, o := range sel {
				if e.before(o.end, s.start) || e.before(s.end, o.start) {
					continue next
				}
			}
			sel = append(sel, s)
			rec(i + 1)
			sel = sel[:len(sel)-1]
		}
		rec(i + 1)
	}
	if len(ts) <= 12 {
		rec(0)
	}
	for _, t := range ts {
		if t.dec == 0 {
			continue
		}
		r, busy := t.dec-1, 0
		for _, o := range ts {
			for _, s := range o.segs {
				if s.work && e.before(s.start, r) && (o.id == t.by && (s.end < 0 || s.end > r) || s.end >= 0 && s.end != r && e.before(r, s.end)) {
					busy++
					break
				}
			}
		}
		if uint64(busy) >= t.quota {
			u.Unjust = t.name
		}
	}
	return
}

// antichain: the largest number of working periods none of which ends before
// another begins, by Dilworth's theorem (periods less a maximum matching).
func (e *execution) antichain(ts []*thread) int {
	var all []seg
	for _, t := range ts {
		for _, s := range t.segs {
			if s.work {
				all = append(all, s)
			}
		}
	}
	adj := make([][]int16, len(all))
	for i, a := range all {
		if a.end < 0 {
			continue
		}
		for k, b := range all {
			if i != k && e.before(a.end, b.start) {
				adj[i] = append(adj[i], int16(k))
			}
		}
	}
	prev, seen, n := make([]int, len(all)), make([]int, len(all)), len(all)
	for i := range prev {
		prev[i] = -1
	}
	var try func(i, round int) bool
	try = func(i, round int) bool {
		for _, k := range adj[i] {
			if seen[k] != round {
				seen[k] = round
				if prev[k] < 0 || try(prev[k], round) {
					prev[k] = i
					return true
				}
			}
		}
		return false
	}
	for i := range all {
		if try(i, i+1) {
			n--
		}
	}
	return n
}
