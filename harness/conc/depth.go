//go:build go1.22

package main

import (
	"fmt"
	"math/bits"
	"slices"
	"sort"
	"strings"

	sorty "github.com/jfcg/sorty/v2"
	"github.com/jfcg/sorty/v2/vh/kit"
	"github.com/jfcg/sorty/v2/vrt"
)

// adversary decides the order of items lazily (McIlroy 1999): undecided items
// are gas, and every decided one is less than all of those.
type adversary struct {
	val   []int // -1 gas
	cand  int
	solid int
	room  int         // items that go below a decided one afterwards
	left  map[int]int // room left by decided item
	floor []int       // items known to be below an undecided one
	first int         // room of the first pivot
	seen  map[int]int // comparisons of undecided items with decided item
	rev   bool        // the other way round: decided ones are greater
}

func newAdv(n int, rev bool) *adversary {
	a := &adversary{rev: rev, val: make([]int, n), cand: -1, floor: make([]int, n), left: map[int]int{}, seen: map[int]int{}}
	for i := range a.val {
		a.val[i] = -1
		a.floor[i] = -1
	}
	return a
}

func (a *adversary) freeze(x int) {
	if a.val[x] < 0 {
		room := max(a.room, a.first)
		a.solid += room
		a.val[x] = 2 * a.solid
		a.solid++
		if room > 0 {
			a.left[x] = room
		}
	}
}

// fill puts undecided item x below p, while there is room. A sample is
// compared a few times only, a pivot many times.
func (a *adversary) fill(x, p int) bool {
	v := a.val[p] - 2*a.left[p]
	a.seen[p]++
	if a.left[p] == 0 || a.floor[x] >= v || a.seen[p] < 8 {
		return false
	}
	a.val[x] = v
	if a.left[p]--; a.left[p] < a.first/2 {
		a.first = 0
	}
	return true
}

func (a *adversary) less(x, y int) bool {
	if a.val[x] < 0 && a.val[y] < 0 {
		if x == a.cand {
			a.freeze(x)
		} else {
			a.freeze(y)
		}
	}
	if a.val[x] < 0 && !a.fill(x, y) {
		a.cand = x
		a.floor[x] = max(a.floor[x], a.val[y])
		return false
	}
	if a.val[y] < 0 && !a.fill(y, x) {
		a.cand = y
		a.floor[y] = max(a.floor[y], a.val[x])
		return true
	}
	return a.val[x] < a.val[y]
}

func (a *adversary) lt(x, y int) bool {
	if a.rev {
		return a.less(y, x)
	}
	return a.less(x, y)
}

// keys by item: ranks 0..n-1
func (a *adversary) keys() []int {
	n := len(a.val)
	ids := make([]int, n)
	for i := range ids {
		ids[i] = i
	}
	v := func(i int) int {
		if a.val[i] < 0 {
			return 1<<40 + i
		}
		return a.val[i]
	}
	sort.SliceStable(ids, func(i, k int) bool { return v(ids[i]) < v(ids[k]) })
	keys := make([]int, n)
	for r, id := range ids {
		keys[id] = r
		if a.rev {
			keys[id] = n - 1 - r
		}
	}
	return keys
}

// killLsw plays against the lesswap sort of the tree itself.
// With several goroutines it does so in the default schedule of that policy.
func killLsw(n, first, room int, rev bool, maxGor uint64, policy int) []int {
	a := newAdv(n, rev)
	a.first, a.room = first, room
	ar := make([]int, n)
	for i := range ar {
		ar[i] = i
	}
	calls := 0
	play := func() {
		sorty.MaxGor = maxGor
		sorty.Sort(n, func(i, k, r, s int) bool {
			if calls++; calls > 200*n+n*n {
				panic("enough")
			}
			if a.lt(ar[i], ar[k]) {
				if r != s {
					ar[r], ar[s] = ar[s], ar[r]
				}
				return true
			}
			return false
		})
	}
	if maxGor > 1 {
		vrt.ExploreDev(vrt.Options{MaxSteps: horizon(n)}, policy, 0, play)
	} else {
		func() {
			defer func() { recover() }()
			play()
		}()
	}
	return a.keys()
}

// strip makes sure that at least cnt items of s are decided, before the pivot is.
func (a *adversary) strip(s []int, cnt int, not ...int) {
	for _, x := range s {
		if a.val[x] >= 0 {
			cnt--
		}
	}
	for _, x := range s {
		if cnt <= 0 {
			return
		}
		if a.val[x] < 0 && !slices.Contains(not, x) {
			a.freeze(x)
			cnt--
		}
	}
}

// uneven is how many elements the adversary wants in the shorter part.
func uneven(mode string, n, ins, rec int) int {
	switch {
	case mode == "min" || n < 2*ins+8:
		return 0
	case mode == "rec" && n > 2*rec+8:
		return rec + 3
	}
	return ins + 3
}

func samples(n, ns int) (first, step int) {
	step = n / ns
	span := (ns - 1) * step
	tail := n - span
	if tail > ns-1 && tail>>1 > (step+1)>>1 {
		step++
		tail -= ns - 1
	}
	return tail >> 1, step
}

type pred = func(x int) bool

func onePart(s []int, hi, lo pred) int {
	l, h := 0, len(s)-1
	for l < h {
		if hi(s[h]) {
			if lo(s[l]) {
				l++
				h--
				continue
			}
			for h--; h > l && !lo(s[h]); h-- {
			}
			if h <= l {
				return l
			}
		} else {
			for l < h && !hi(s[l]) {
				l++
			}
			if h <= l {
				return l + 1
			}
		}
		s[l], s[h] = s[h], s[l]
		l++
		h--
	}
	if l == h && !hi(s[h]) {
		l++
	}
	return l
}

// twoPart grows the gap (l,h) until one side is used up.
func twoPart(s []int, l, h int, hi, lo pred) int {
	l--
	for l >= 0 && h < len(s) {
		if hi(s[h]) {
			if lo(s[l]) {
				l--
				h++
				continue
			}
			for h++; h < len(s) && !lo(s[h]); h++ {
			}
			if h >= len(s) {
				return l
			}
		} else {
			for l >= 0 && !hi(s[l]) {
				l--
			}
			if l < 0 {
				return h
			}
		}
		s[l], s[h] = s[h], s[l]
		l--
		h++
	}
	if l < 0 {
		return h
	}
	return l
}

// conPart has one goroutine for the middle half and one for the outer quarters.
func conPart(s []int, hi, lo pred) int {
	mid := len(s) / 2
	l, h := mid/2, mid+(len(s)-mid)/2
	k := l + onePart(s[l:h], hi, lo)
	r := twoPart(s, l, h, hi, lo)
	if r < mid {
		for ; r >= 0; r-- {
			if !lo(s[r]) {
				k--
				s[r], s[k] = s[k], s[r]
			}
		}
	} else {
		for ; r < len(s); r++ {
			if !hi(s[r]) {
				s[r], s[k] = s[k], s[r]
				k++
			}
		}
	}
	return k
}

// killTyped plays against a quicksort with equidistant samples, a pivot from
// the middle of them, and Hoare partitioning. even: mean of the middle two.
// It only makes inputs: against another algorithm these are merely less bad.
// top: the first partition is by two goroutines and in the middle. The uneven
// ones then are in its longer part, with rest in its shorter one.
func killTyped(n, ins, rec int, even, top, rest, rev bool, mode string) []int {
	a := newAdv(n, rev)
	ar := make([]int, n)
	for i := range ar {
		ar[i] = i
	}
	work := 0
	var run func(s []int)
	run = func(s []int) {
		for len(s) > ins && work < 100*n+n*n {
			ns, want := 4, uneven(mode, len(s), ins, rec)
			if top {
				ns, want = 8, len(s)/2-3
				if rest {
					want += 8
				}
			} else if len(s) > rec {
				ns = 6
			}
			if !even {
				ns--
			}
			first, step := samples(len(s), ns)
			sm := make([]int, ns)
			for i := range sm {
				sm[i] = s[first+i*step]
			}
			sort.SliceStable(sm, func(i, k int) bool {
				return a.val[sm[i]] >= 0 && (a.val[sm[k]] < 0 || a.val[sm[i]] < a.val[sm[k]])
			})
			p, q := sm[ns/2], sm[(ns-1)/2] // same if ns is odd
			for _, x := range sm[:(ns-1)/2] {
				a.freeze(x)
			}
			if a.val[p] < 0 {
				if a.val[q] >= 0 { // so the mean will be halfway up
					want *= 2
				}
				a.strip(s, want-1, append(sm[ns/2:], q)...)
			}
			a.freeze(q)
			a.freeze(p)
			pv := a.val[p]
			if even {
				// means are rounded down, values here are twice the key
				if pv = (pv + a.val[q]) / 2; pv&1 > 0 && rev {
					pv++
				}
				pv &^= 1
			}
			// low and high parts in place
			hi := func(x int) bool { return a.val[x] < 0 || a.val[x] >= pv }
			lo := func(x int) bool { return a.val[x] >= 0 && a.val[x] <= pv }
			if rev {
				hi, lo = lo, hi
			}
			l := 0
			if top {
				top = false
				l = conPart(s, hi, lo)
			} else {
				l = onePart(s, hi, lo)
			}
			if l > len(s) {
				l = len(s)
			}
			work += len(s)
			if l == 0 || l == len(s) {
				return
			}
			x, y := s[:l], s[l:]
			if len(x) > len(y) {
				x, y = y, x
			}
			run(x)
			s = y
		}
		for h := 1; h < len(s); h++ {
			for l := h; l > 0 && a.lt(s[l], s[l-1]); l-- {
				s[l], s[l-1] = s[l-1], s[l]
			}
		}
	}
	run(ar)
	return a.keys()
}

// killSwaps does so against one that sorts its samples in place, moves the
// outer ones to the ends and partitions by compare-and-swap steps.
func killSwaps(n, ins, rec int, rev bool, mode string) []int {
	a := newAdv(n, rev)
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	lsw := func(i, k, r, t int) bool {
		if a.lt(s[i], s[k]) {
			s[r], s[t] = s[t], s[r]
			return true
		}
		return false
	}
	part := func(l, pv, h int) int {
		for ; l < h; l, h = l+1, h-1 {
			if lsw(h, pv, h, h) {
				for !lsw(pv, l, h, l) {
					if l++; l >= h {
						return l + 1
					}
				}
			} else if lsw(pv, l, l, l) {
				for {
					if h--; l >= h {
						return l
					}
					if lsw(h, pv, h, l) {
						break
					}
				}
			}
		}
		if l == h && h != pv && lsw(h, pv, h, h) {
			l++
		}
		return l
	}
	work := 0
	var run func(lo, hi int)
	run = func(lo, hi int) {
		for hi-lo >= ins && work < 100*n+n*n {
			m := hi + 1 - lo
			ns := 3
			if m > rec {
				ns = 5
			}
			f, step := samples(m, ns)
			first := lo + f
			last := first + (ns-1)*step
			for h := first + step; h <= last; h += step {
				for l := h; lsw(l, l-step, l, l-step); {
					if l -= step; l <= first {
						break
					}
				}
			}
			lsw(first, lo, first, lo)
			lsw(hi, last, hi, last)
			pv := first + ns/2*step
			a.strip(s[lo:hi+1], uneven(mode, m, ins, rec)-1, s[pv], s[hi])
			a.freeze(s[pv])
			l := part(lo+1, pv, hi-1)
			work += m
			if l <= lo || l > hi {
				return
			}
			if l-lo < hi+1-l {
				run(lo, l-1)
				lo = l
			} else {
				run(l, hi)
				hi = l - 1
			}
		}
		for h := lo + 1; h <= hi; h++ {
			for l := h; lsw(l, l-1, l, l-1); {
				if l--; l <= lo {
					break
				}
			}
		}
	}
	run(0, n-1)
	return a.keys()
}

func depthKeys(k *kit.Case) []int {
	s := kit.New(k.Subj)
	ins, rec := k.Lens[0], k.Lens[2]
	if s.FC() {
		ins, rec = k.Lens[1], k.Lens[3]
	}
	if k.Lens[0] == 0 {
		ins, rec = 60, 600
		if s.FC() {
			ins, rec = 30, 300
		}
	}
	kit.Apply(k)
	var keys []int
	f := strings.Split(k.Extra, ":")
	rev := slices.Contains(f, "rev")
	f = slices.DeleteFunc(f, func(s string) bool { return s == "rev" })
	rest := f[len(f)-1] == "rest"
	top := k.MaxGor > 1 && (rest || f[len(f)-1] == "mid")
	mode := f[0]
	if f[len(f)-1] == "half" {
		mode = "half"
	}
	switch mode {
	case "half":
	case "":
		return kit.Shape(k.Shape, k.N, nil)
	case "self":
		room := 0
		switch f[1] {
		case "ins":
			room = ins + 3
		case "rec":
			room = rec + 3
		}
		policy, first := vrt.StayLow, 0
		if len(f) > 2 { // first pivot in the middle
			first = k.N/2 - 5
			if rest {
				first += 10
			}
			if rest || f[2] == "young" {
				policy = vrt.Youngest
			}
		}
		keys = killLsw(k.N, first, room, rev, k.MaxGor, policy)
	case "mid":
		keys = killTyped(k.N, ins, rec, false, top, rest, rev, f[1])
	case "mean":
		keys = killTyped(k.N, ins, rec, true, top, rest, rev, f[1])
	case "swaps":
		keys = killSwaps(k.N, ins, rec, rev, f[1])
	default:
		panic(k.Extra)
	}
	if f[len(f)-1] == "half" { // after equal low keys, which leave by the first partition
		low := k.N/2 - 3
		g := *k
		g.N -= low
		g.Extra = strings.TrimSuffix(k.Extra, ":half")
		keys = make([]int, low, k.N)
		for _, x := range depthKeys(&g) {
			keys = append(keys, low+x)
		}
	}
	kit.Apply(k)
	return keys
}

var kills = []string{"self:min", "self:ins", "self:rec", "self:min:rev", "self:ins:rev", "self:rec:rev",
	"mid:min", "mid:ins", "mid:rec", "mid:min:rev", "mid:ins:rev", "mid:rec:rev",
	"mean:min", "mean:ins", "mean:rec", "mean:min:rev", "mean:ins:rev", "mean:rec:rev",
	"swaps:min", "swaps:ins", "swaps:rec", "swaps:min:rev", "swaps:ins:rev", "swaps:rec:rev"}

func depthLimit(n int) int { return 2*bits.Len(uint(n)) + 16 }

func depthBody(k *kit.Case, s kit.Subject, deepest *int) func() {
	return func() {
		kit.Apply(k)
		s.Set(k.Keys)
		s.Sort()
		d := vrt.MaxDepth()
		*deepest = max(*deepest, d)
		if d > depthLimit(len(k.Keys)) {
			vrt.Fail("depth: calls were nested %d deep for %d elements", d, len(k.Keys))
		}
	}
}

func (g *gen) depths(names []string) {
	for _, name := range names {
		Ls := [][4]int{kit.Small, kit.Mid}
		ns := []int{24, 47, 100, 200, 400, 800, 1700, 4500}
		if !kit.Tunable {
			Ls, ns = [][4]int{{}}, []int{400, 1300, 3000, 6000}
		} else if !g.q {
			for n := 20; n < 300; n++ {
				ns = append(ns, n)
			}
		}
		// several goroutines, quota used up
		hs := []int{800, 1700, 4500}
		if !kit.Tunable {
			hs = []int{6000, 12000}
		}
		for _, n := range hs {
			for _, m := range []uint64{2, 3, 64} {
				n := n
				if m > 3 && n == 6000 { // too short to use it
					continue
				}
				k := kit.Case{Op: "depth", Subj: name, NaN: large, Lens: Ls[0], MaxGor: m, N: n, M: n}
				g.add(fmt.Sprintf("half%d", n), k, func(c *kit.Ctx, k kit.Case) {
					k.N, k.M = n, n
					s := kit.New(k.Subj)
					s.Prepare(n, 0)
					for _, e := range []string{"self:rec", "self:rec:mid", "self:rec:young", "mid:rec:mid", "mean:rec:mid", "swaps:rec:half",
						"self:rec:rev", "self:rec:rev:mid", "self:rec:rev:young", "mid:rec:rev:mid", "mean:rec:rev:mid", "swaps:rec:rev:half",
						"self:rec:rest", "self:rec:rev:rest", "mid:rec:rest", "mean:rec:rest", "mid:rec:rev:rest", "mean:rec:rev:rest"} {
						if e[:4] == "self" && name != "LSW" {
							continue
						}
						k.Extra = e
						k.Keys = depthKeys(&k)
						depthOne(c, k, s)
					}
				})
			}
		}
		done := map[int]bool{}
		for _, L := range Ls {
			for _, n := range ns {
				if done[n*100+L[0]] {
					continue
				}
				done[n*100+L[0]] = true
				for _, m := range []uint64{1, 3} {
					n := n
					k := kit.Case{Op: "depth", Subj: name, NaN: large, Lens: L, MaxGor: m, N: n, M: n}
					if m > 1 && n > 900 && kit.Tunable {
						continue
					}
					g.add(fmt.Sprintf("n%d", n), k, func(c *kit.Ctx, k kit.Case) {
						k.N, k.M = n, n
						s := kit.New(k.Subj)
						s.Prepare(n, 0)
						for _, e := range kills {
							if n > 1000 && kit.Tunable && (e[:4] == "self" || strings.Contains(e, ":min")) {
								continue
							}
							k.Extra = e
							k.Keys = depthKeys(&k)
							depthOne(c, k, s)
						}
						k.Extra = ""
						sh := kit.Shapes(n)
						if n > 200 || g.q && n > 100 {
							sh = few
							if name == "LSW" && n > 300 {
								sh = fewLsw
							}
						}
						for _, k.Shape = range sh {
							k.Keys = depthKeys(&k)
							depthOne(c, k, s)
							if c.Expired() {
								c.Incomplete = append(c.Incomplete, fmt.Sprintf("%s depth %d", name, n))
								return
							}
						}
					})
				}
			}
		}
	}
}

func depthOne(c *kit.Ctx, k kit.Case, s kit.Subject) {
	execs := 20
	if !c.Quick() {
		execs = 300
	}
	kk := k
	kk.Keys = nil
	c.Begin(&kk)
	c.Evals++
	deep := 0
	opt := vrt.Options{Stop: c.Expired, Ignore: ignore("C18"),
		MaxSteps: horizon(k.N), MaxElems: int64(200 * (k.N + 100) * (k.N + 100))}
	var r *vrt.Result
	if k.MaxGor > 1 && k.N > 700 {
		r = deviate(c, opt, depthBody(&k, s, &deep), 0, nil)
	} else {
		opt.MaxExec = execs
		r = vrt.Explore(opt, depthBody(&k, s, &deep))
		account(c, r)
	}
	if deep > 4 {
		c.Nontrivial++
	}
	b := bits.Len(uint(k.N))
	key := fmt.Sprintf("log2(n)<%d", b)
	c.Peaks[key] = max(c.Peaks[key], int64(deep))
	if f := r.Failure; f != nil {
		kk.Sched = f.Schedule
		c.Fail(kk, f.Msg)
	}
	if c.Evals&127 == 1 {
		c.Sample(kk, fmt.Sprintf("%d schedules, calls nested at most %d deep", r.Execs, deep))
	}
}
