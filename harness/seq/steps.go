//go:build go1.22

package main

import (
	"fmt"
	"math"
	"math/bits"
	"runtime"
	"runtime/debug"
	"strings"

	sorty "github.com/jfcg/sorty/v2"
	"github.com/jfcg/sorty/v2/vh/kit"
)

func has(m string, cats ...string) bool {
	for _, c := range cats {
		if strings.HasPrefix(m, c+":") {
			return true
		}
	}
	return false
}

// sorted: ascending permutation of the input, no panic.
func sorted(s kit.Subject, k *kit.Case) string {
	if m := kit.SortStep(s, k); m != "" && !has(m, "outside") {
		return m
	}
	return ""
}

// confined: only the order of the elements changes.
func confined(s kit.Subject, k *kit.Case) string {
	if m := kit.TrySort(s); m != "" {
		return "" // no result to judge: a matter of the other properties
	}
	m := s.Check()
	if has(m, "unsorted") {
		m = s.Content()
	}
	return m
}

// protocol: indices in range, no calls after return.
func protocol(s kit.Subject, k *kit.Case) string {
	if m := kit.TrySort(s); has(m, "protocol", "late") {
		return m
	}
	return ""
}

func issProtocol(s kit.Subject, k *kit.Case) string {
	if _, m := kit.TryIsSorted(s); has(m, "protocol", "readonly", "late") {
		return m
	}
	return s.Untouched()
}

// edgeTasks: nothing to sort or compare in collections of less than two elements
func edgeTasks(c *kit.Ctx) (ts []kit.Task) {
	return []kit.Task{{ID: "edge", Run: func(c *kit.Ctx) {
		for _, n := range []int{1, 0, -1, -2, -3, -1000, -1 << 31} {
			for _, mg := range []uint64{0, 1, 2, 3, 1 << 63} {
				k := kit.Case{Op: "edge", N: n, MaxGor: mg}
				c.Evals++
				c.Nontrivial++
				c.Begin(&k)
				if m := edge1(k); m != "" {
					c.Fail(k, m)
				}
			}
		}
	}}}
}

// farTasks: the first calls for lengths up to the largest
func farTasks(c *kit.Ctx) []kit.Task {
	return []kit.Task{{ID: "far", Run: func(c *kit.Ctx) {
		var lens [][4]int
		if kit.Tunable {
			lens = [][4]int{kit.Small, kit.Mid}
		} else {
			lens = [][4]int{{}}
		}
		for _, L := range lens {
			for _, n := range kit.FarLens() {
				for _, m := range kit.FarModes {
					for _, e := range []string{"sort", "issorted"} {
						k := kit.Case{Op: "far", Lens: L, N: n, MaxGor: 1, Shape: m, Extra: e}
						c.Evals++
						c.Nontrivial++
						c.Begin(&k)
						if m := kit.Far(&k, 3000); m != "" {
							c.Fail(k, m)
						}
					}
				}
			}
		}
	}}}
}

func edge1(k kit.Case) (msg string) {
	kit.Apply(&k)
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint("protocol: ", r)
		}
	}()
	lsw := func(i, j, r, s int) bool {
		panic(fmt.Sprintf("lesswap(%d,%d,%d,%d) called for a collection of length %d", i, j, r, s, k.N))
	}
	if r := sorty.IsSorted(k.N, lsw); r != 0 {
		return fmt.Sprintf("protocol: IsSorted(%d) returned %d", k.N, r)
	}
	sorty.Sort(k.N, lsw)
	return ""
}

// ---- C13

func search1(n, k int) (msg string) {
	calls := 0
	limit := bits.Len(uint(n)) + 1
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint(r)
		}
	}()
	got := sorty.Search(n, func(i int) bool {
		calls++
		if i < 0 || i >= n {
			panic(fmt.Sprintf("range: fn(%d) called for n=%d", i, n))
		}
		if calls > limit {
			panic(fmt.Sprintf("calls: more than %d calls for n=%d", limit, n))
		}
		return i >= k
	})
	if got != k {
		return fmt.Sprintf("answer: Search(%d) = %d, want %d", n, got, k)
	}
	return ""
}

func searchTasks(c *kit.Ctx) (ts []kit.Task) {
	top := 600
	if !c.Quick() {
		top = 4000
	}
	one := func(c *kit.Ctx, n, k int) {
		c.Evals++
		if k > 0 && k < n {
			c.Nontrivial++
		}
		kc := kit.Case{Op: "search", N: n, M: k}
		c.Begin(&kc)
		m := search1(n, k)
		if m != "" {
			c.Fail(kc, m)
		}
		if c.Evals&0xffff == 77 {
			c.Sample(kc, fmt.Sprintf("Search returned %d", k))
		}
	}
	for lo := 0; lo < top; lo += 25 {
		lo := lo
		ts = append(ts, kit.Task{ID: fmt.Sprintf("search%d", lo), Run: func(c *kit.Ctx) {
			for n := lo; n < lo+25; n++ {
				for k := 0; k <= n; k++ {
					one(c, n, k)
				}
			}
		}})
	}
	for e := 10; e < bits.UintSize; e++ {
		e := e
		ts = append(ts, kit.Task{ID: fmt.Sprintf("bigsearch%d", e), Run: func(c *kit.Ctx) {
			for d := -2; d <= 2; d++ {
				n := int(uint(1)<<uint(e)) + d
				if e == bits.UintSize-1 {
					n = math.MaxInt - 2 + d
				}
				set := map[int]bool{}
				for j := 0; j < bits.UintSize-1; j++ {
					for x := -2; x <= 2; x++ {
						p := int(uint(1)<<uint(j)) + x
						set[p], set[n-p], set[n/2+p], set[n/2-p], set[n/3+x], set[n/3*2+x] = true, true, true, true, true, true
					}
				}
				for k := range set {
					if k >= 0 && k <= n {
						one(c, n, k)
					}
				}
			}
		}})
	}
	// lookups in a collection this library sorted
	ts = append(ts, kit.Task{ID: "lookup", Run: func(c *kit.Ctx) {
		for n := 0; n <= 7; n++ {
			for x := 0; x < pow(4, n); x++ {
				a := make([]int, n)
				for i, v := 0, x; i < n; i, v = i+1, v/4 {
					a[i] = v%4*2 + 1
				}
				c.Evals++
				c.Nontrivial++
				kc := kit.Case{Op: "lookup", Keys: a, MaxGor: 1}
				c.Begin(&kc)
				if m := lookup1(a); m != "" {
					c.Fail(kc, m)
				}
			}
		}
	}})
	return
}

func pow(a, n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= a
	}
	return r
}

func lookup1(keys []int) string {
	a := append([]int{}, keys...)
	sorty.MaxGor = 1
	sorty.SortSlice(a)
	for v := 0; v <= 9; v++ {
		want := 0
		for _, x := range keys {
			if x < v {
				want++
			}
		}
		if got := sorty.Search(len(a), func(i int) bool { return a[i] >= v }); got != want {
			return fmt.Sprintf("answer: lower bound of %d in %v is %d, got %d", v, a, want, got)
		}
	}
	return ""
}

// ---- C15: memory

func allocTasks(c *kit.Ctx) (ts []kit.Task) {
	for _, subj := range []string{"I4", "I8", "U4", "U8", "F4", "F8", "S", "B", "LenS", "LenB", "LSW", "PTR"} {
		for _, mg := range []uint64{1, 3} {
			for i, n := range []int{40, 500, 20000, 120000, 40, 500, 100000, 50000, 50000} {
				i := i
				shape := []string{"lcg:3", "lcg:3", "lcg:3", "lcg:3", "asc", "desc", "asc", "desc", "pipe"}[i]
				k := kit.Case{Op: "alloc", Subj: subj, Shape: shape, N: n, M: n, MaxGor: mg, NaN: 1}
				if i > 5 && subj[0] == 'F' {
					k.VMap = 5
				}
				ts = append(ts, kit.Task{ID: fmt.Sprintf("alloc/%s/%d/%d/%d", subj, mg, n, i), Run: func(c *kit.Ctx) {
					c.Evals++
					c.Nontrivial++
					c.Begin(&k)
					if m := alloc1(k); m != "" {
						c.Fail(k, m)
					}
				}})
			}
		}
	}
	return
}

const allocLimit = 48 << 10

func alloc1(k kit.Case) string {
	s := kit.New(k.Subj)
	kit.Apply(&k)
	keys := kit.Shape(k.Shape, k.N, nil)
	s.Prepare(k.M, k.VMap)
	least := uint64(math.MaxUint64)
	for try := 0; try < 4; try++ {
		s.Set(keys)
		runtime.GC()
		old := debug.SetGCPercent(-1)
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		m := kit.TrySort(s)
		runtime.ReadMemStats(&b)
		debug.SetGCPercent(old)
		if m != "" {
			return ""
		}
		least = min(least, b.TotalAlloc-a.TotalAlloc)
	}
	if least > allocLimit {
		return fmt.Sprintf("alloc: sorting %d elements allocated %d bytes", k.N, least)
	}
	return ""
}

// ---- C20

func wide32Tasks(c *kit.Ctx) (ts []kit.Task) {
	for _, subj := range []string{"I4", "I8", "U4", "U8", "F4", "F8", "S", "B", "LenS", "LenB", "LSW", "PTR", "INT", "UINT", "UPTR"} {
		for _, n := range []int{46, 100, 200} {
			k := kit.Case{Op: "sort", Subj: subj, Lens: kit.Small, MaxGor: 3, NaN: 1}
			ts = append(ts, kit.Task{ID: fmt.Sprintf("con/%s/%d", subj, n), Run: func(c *kit.Ctx) {
				c.Family(k, n, kit.Shapes(n), sorted)
			}})
		}
	}
	ts = append(ts, sortTasks(c, reduced(ints, floats[:1], strs[:1], lens[:1], lsws[:1]), kit.IsSortedStep, "issorted")...)
	return append(append(ts, farTasks(c)...), searchTasks(c)...)
}

// ---- C19

func feasible() (l [][4]int) {
	for _, ins := range []int{10, 11, 14, 20} {
		for _, fc := range []int{9, 10, 13, 19} {
			if fc >= ins {
				continue
			}
			for _, rfc := range []int{2*ins + 1, 2*ins + 2, 3 * ins, 61} {
				for _, rec := range []int{rfc + 1, rfc + 2, rfc + 9, 2 * rfc} {
					l = append(l, [4]int{ins, fc, rec, rfc})
				}
			}
		}
	}
	return
}

func cfgTasks(c *kit.Ctx) (ts []kit.Task) {
	for _, p := range reduced(ints, floats, strs, lens, lsws[:1], ptrs) {
		for _, L := range feasible() {
			for _, vm := range p.vmaps {
				k := kit.Case{Op: "sort", Subj: p.subj, Lens: L, MaxGor: 1, NaN: nanLarge, VMap: vm}
				ts = append(ts, kit.Task{ID: fmt.Sprintf("cfg/%s/%v/%d", p.subj, L, vm), Run: func(c *kit.Ctx) {
					at := map[int]bool{}
					for _, t := range []int{L[0], L[1], 2 * L[0], L[2], L[3], 2 * L[2], 2 * L[3], 3 * L[2]} {
						for d := -1; d <= 3; d++ {
							at[t+d] = true
						}
					}
					for n := 2; n <= 3*L[2]+3; n++ {
						if at[n] || !c.Quick() {
							c.Family(k, n, kit.Shapes(n), sorted)
						}
					}
				}})
			}
		}
	}
	// limits beyond what small integers hold, where ranges are sorted by insertion
	for _, p := range reduced(ints, floats, strs, lens, lsws[:1], ptrs) {
		p := p
		for _, L := range [][4]int{{127, 126, 256, 255}, {255, 254, 512, 511}, {300, 280, 1000, 601}, {1000, 300, 2600, 2001}, {66000, 33000, 132002, 132001}} {
			L := L
			k := kit.Case{Op: "sort", Subj: p.subj, Lens: L, MaxGor: 1, NaN: nanLarge, VMap: p.vmaps[0]}
			ts = append(ts, kit.Task{ID: fmt.Sprintf("cfg/%s/%v", p.subj, L), Run: func(c *kit.Ctx) {
				ns := []int{L[0] - 1, L[0], L[0] + 1, L[1], L[1] + 2, 2 * L[0], 128, 129, 256, 257, 258, L[2] - 1, L[2], L[2] + 1, L[3] + 1, 2*L[2] + 2}
				shapes := []string{"asc", "desc", "const:1", "pipe", "lcg:1", "few:3:1", "zip"}
				if L[0] > 2000 {
					if ns = []int{65537}; p.subj != "I8" && p.subj != "U4" && p.subj != "F4" {
						return
					}
					shapes = shapes[1:2]
				}
				for _, n := range ns {
					c.Family(k, n, shapes, sorted)
				}
			}})
		}
	}
	// limits that no length can reach: never a goroutine, never a recursion
	const M = math.MaxInt
	huge := [][4]int{{10, 9, M, 22}, {10, 9, M, M - 1}, {10, 9, M / 2, 22}, {10, 9, M/2 + 1, 22}, {10, 9, M/2 - 1, M/2 - 2},
		{10, 9, M/2 + 1, M / 2}, {M / 4, 9, M, M - 1}, {M/2 - 1, M/2 - 2, M, M - 1}, {M/4 + 1, M / 4, M/2 + 9, M/2 + 8}}
	for e := 31; e < 62 && M>>e > 0; e++ {
		b := M>>(62-e) + 1
		huge = append(huge, [4]int{10, 9, b, 22}, [4]int{10, 9, b - 1, 22}, [4]int{10, 9, b + 1, b}, [4]int{10, 9, b, b - 1}, [4]int{10, 9, b - 1, b - 2})
	}
	for _, p := range reduced(ints, floats, strs, lens, lsws[:1], ptrs) {
		p := p
		ts = append(ts, kit.Task{ID: "huge/" + p.subj, Run: func(c *kit.Ctx) {
			for _, L := range huge {
				k := kit.Case{Op: "sort", Subj: p.subj, Lens: L, MaxGor: 1, NaN: nanLarge, VMap: p.vmaps[0]}
				if kit.New(p.subj).FC() && L[3] > 99 || !kit.New(p.subj).FC() {
					k.MaxGor = 3
				}
				for _, n := range []int{0, 1, 2, 3, 9, 10, 11, 16, 22, 23, 24, 31, 45, 46, 47, 100, 1000} {
					c.Family(k, n, []string{"asc", "desc", "const:1", "pipe", "lcg:1", "few:3:1", "zip"}, sorted)
				}
			}
		}})
	}
	return
}

func replay(c *kit.Ctx, k kit.Case) string {
	switch k.Op {
	case "sort":
		return kit.ReplayStep(k, sorted)
	case "issorted":
		return kit.ReplayStep(k, kit.IsSortedStep)
	case "confine":
		return kit.ReplayStep(k, confined)
	case "protocol":
		return kit.ReplayStep(k, protocol)
	case "issprotocol":
		return kit.ReplayStep(k, issProtocol)
	case "search":
		return search1(k.N, k.M)
	case "lookup":
		return lookup1(k.Keys)
	case "alloc":
		return alloc1(k)
	case "far":
		return kit.Far(&k, 3000)
	case "edge":
		return edge1(k)
	case "dispatch":
		return dispatch1(k.Extra)
	}
	panic("unknown op " + k.Op)
}
