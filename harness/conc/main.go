//go:build go1.22

// conc explores every schedule of concurrent sorts on the instrumented code.
package main

import (
	"fmt"
	"slices"
	"sort"
	"strconv"
	"strings"

	sorty "github.com/jfcg/sorty/v2"
	"github.com/jfcg/sorty/v2/vh/kit"
	"github.com/jfcg/sorty/v2/vrt"
)

var (
	ints   = []string{"I4", "I8", "U4", "U8"}
	floats = []string{"F4", "F8"}
	strs   = []string{"S", "B"}
	lens   = []string{"LenS", "LenB"}
	ptrs   = []string{"PTR", "UNSAFEPTR"}
	lsws   = []string{"LSW", "LSWcoarse"}
)

func join(l ...[]string) (o []string) {
	for _, x := range l {
		o = append(o, x...)
	}
	return
}

var typed = join(ints, floats, strs, lens, ptrs)

// minimal lengths that run concurrently, small tuning and default constants
func threshold(s kit.Subject, lens [4]int) int {
	rec := lens[2]
	if s.FC() {
		rec = lens[3]
	}
	if lens[0] == 0 {
		rec = 600
		if s.FC() {
			rec = 300
		}
	}
	return 2 * (rec + 1)
}

// what a property does not judge
func ignore(prop string) []string {
	switch prop {
	case "C01", "C02", "C03", "C04", "C05", "C06", "C07":
		return []string{"gor", "leak", "outside", "gcptr", "protocol"}
	case "C08":
		return []string{"gor", "outside", "gcptr", "protocol", "unsorted", "content", "race"}
	case "C09":
		return []string{"outside", "gcptr", "protocol", "unsorted", "content", "race", "late", "leak"}
	case "C10":
		return []string{"outside", "gcptr", "protocol"}
	case "C12":
		return []string{"outside", "gcptr"}
	case "C21":
		return []string{"gor", "leak", "outside", "gcptr", "protocol", "unsorted", "content", "race", "late"}
	case "C11":
		return []string{"gor", "outside", "gcptr", "protocol", "leak"}
	case "C15":
		return []string{"gor", "leak", "late", "race", "unsorted", "gcptr", "protocol", "deadlock", "panic", "term"}
	case "C16":
		return []string{"gor", "leak", "outside", "race", "unsorted", "content", "deadlock", "panic", "term"}
	case "C17":
		return []string{"gor", "leak", "outside"}
	case "C22":
		return []string{"gor", "leak", "late", "race", "unsorted", "gcptr", "protocol", "deadlock", "panic", "outside", "content", "depth"}
	case "C18":
		return []string{"gor", "leak", "late", "race", "unsorted", "gcptr", "protocol", "deadlock", "panic", "outside", "content", "term"}
	}
	return nil
}

// body of one execution
func body(c *kit.Ctx, k *kit.Case, s kit.Subject, known *string) func() {
	return func() {
		kit.Apply(k)
		s.Set(k.Keys)
		s.Register()
		if k.Op == "gor" || k.Op == "live" {
			vrt.WatchReads(&sorty.MaxGor)
		}
		top := k.MaxGor
		if k.Op == "live" {
			env := k.Env
			for _, v := range env {
				top = max(top, v)
			}
			vrt.GoEnv("user", func() {
				for _, v := range env {
					vrt.EnvStore(&sorty.MaxGor, v)
				}
			})
		}
		s.Sort()
		vrt.Returned()
		if k.Op == "gor" || k.Op == "live" {
			quota(k, s, top, known)
		}
		s.TouchAll()
		if m := s.Check(); m != "" {
			vrt.Fail("%s", m)
		}
	}
}

// quota judges how many goroutines and channels one call used.
func quota(k *kit.Case, s kit.Subject, top uint64, known *string) {
	sp, ch := vrt.Spawns(), vrt.ChansMade()
	if ch > 1 {
		vrt.Fail("gor: one call created %d channels", ch)
	}
	if top <= 1 && (sp > 0 || ch > 0) {
		vrt.Fail("gor: %d goroutines and %d channels created with MaxGor=%d", sp, ch, top)
	}
	if s.Len() < threshold(s, k.Lens) && (sp > 0 || ch > 0) {
		vrt.Fail("gor: %d goroutines and %d channels created for %d elements", sp, ch, s.Len())
	}
	if !vrt.Whole() {
		return
	}
	u := vrt.GoroutineUsage()
	if k.Op == "live" && u.PerRead > 2 {
		vrt.Fail("live: a goroutine started %d others without looking at MaxGor in between", u.PerRead)
	}
	if uint64(u.Peak) <= max(top, 1) {
		return
	}
	if top >= 3 && uint64(u.Peak) <= 2*top-2 && u.Unjust == "" {
		if *known == "" {
			*known = fmt.Sprintf("%d goroutines can work at once with MaxGor=%d: each was started when less than that were working", u.Peak, top)
		}
		vrt.Outcome(fmt.Sprintf("known overshoot: %d working with MaxGor=%d", u.Peak, top))
		return
	}
	vrt.Fail("gor: %d goroutines can work at once with MaxGor=%d %s", u.Peak, top, u.Unjust)
}

// independent calls: user goroutines (,) each make one call or several in a row (>)
func parBody(k *kit.Case, ss []kit.Subject) func() {
	return func() {
		kit.Apply(k)
		for i, s := range ss {
			s.Set(parKeys(k, i))
			s.Register()
		}
		done := vrt.MakeChan[[]kit.Subject](0)
		gs := strings.Split(k.Extra, ",")
		at := 0
		for i, g := range gs {
			part := ss[at : at+1+strings.Count(g, ">")]
			at += len(part)
			vrt.GoEnv("user"+strconv.Itoa(i), func() {
				for _, s := range part {
					s.Sort()
				}
				vrt.Send(done, part)
			})
		}
		for range gs {
			for i, s := range vrt.Recv(done) {
				s.TouchAll()
				if m := s.Check(); m != "" {
					vrt.Fail("%s (%s, call %d in its goroutine, of %s)", m, s.Name(), i, k.Extra)
				}
			}
		}
	}
}

// two goroutines ask for the order of one collection at once
func readBody(k *kit.Case, s kit.Subject) func() {
	return func() {
		kit.Apply(k)
		s.Set(k.Keys)
		s.Register()
		done := vrt.MakeChan[int](0)
		for i := 0; i < 2; i++ {
			vrt.GoEnv("reader", func() { vrt.Send(done, s.IsSorted()) })
		}
		for i := 0; i < 2; i++ {
			r := vrt.Recv(done)
			if ok := s.RefSorted(); ok != (r == 0) {
				vrt.Fail("answer: got %d for sorted=%v", r, ok)
			} else if !ok && !s.PairBad(r) {
				vrt.Fail("answer: got %d, but element %d is not less than element %d", r, r, r-1)
			}
		}
		if m := s.Untouched(); m != "" {
			vrt.Fail("%s", m)
		}
	}
}

// useBody records how much concurrency a call uses.
func useBody(k *kit.Case, s kit.Subject, u *used) func() {
	return func() {
		kit.Apply(k)
		s.Set(k.Keys)
		s.Register()
		vrt.WatchReads(&sorty.MaxGor)
		s.Sort()
		vrt.Returned()
		if vrt.Spawns() == 0 {
			vrt.Fail("use: no goroutine was created for %d elements with MaxGor=%d", s.Len(), k.MaxGor)
		}
		if !vrt.Whole() {
			return
		}
		g := vrt.GoroutineUsage()
		if g.Peak < 2 {
			vrt.Fail("use: the goroutines for %d elements with MaxGor=%d never work at the same time", s.Len(), k.MaxGor)
		}
		u.peak, u.spawns, u.alive = max(u.peak, g.Peak), max(u.spawns, vrt.Spawns()), slices.Max(vrt.Alive())
		u.late = slices.Max(vrt.Alive()[vrt.Spawns()/2:])
	}
}

type used struct {
	peak, spawns int
	alive, late  int // in the last execution; during the second half
}

func (u *used) String() string {
	return fmt.Sprintf("up to %d at once of %d started; taking turns: %d, later %d", u.peak, u.spawns, u.alive, u.late)
}

// judge: evenly splitting input, long enough for the quota and more.
func (u *used) judge(k *kit.Case, s kit.Subject) string {
	th := threshold(s, k.Lens)
	if k.Shape != "asc" || k.MaxGor > 64 || s.Len() < 4*int(k.MaxGor)*th {
		return ""
	}
	if u.peak < int(k.MaxGor) {
		return fmt.Sprintf("use: never more than %d goroutines work at once on %d elements in ascending order with MaxGor=%d", u.peak, s.Len(), k.MaxGor)
	}
	if m := min(u.alive, u.late); s.Len() >= 8*int(k.MaxGor)*th && m < int(k.MaxGor) {
		return fmt.Sprintf("use: never more than %d goroutines at once on %d elements in ascending order with MaxGor=%d when they take turns", m, s.Len(), k.MaxGor)
	}
	if s.Len() >= 8*int(k.MaxGor)*th && u.spawns < 2*int(k.MaxGor) {
		return fmt.Sprintf("use: only %d goroutines started for %d elements in ascending order with MaxGor=%d: places of finished ones are not used again", u.spawns, s.Len(), k.MaxGor)
	}
	return ""
}

func parKeys(k *kit.Case, i int) []int {
	sh := strings.Split(k.Shape, ",")
	return kit.Shape(sh[i%len(sh)], k.N+i, nil)
}

func explore(c *kit.Ctx, k kit.Case, ss []kit.Subject, execs int) {
	kk := k
	if len(kk.Keys) > 300 && kk.Shape != "" {
		kk.Keys = nil
	}
	c.Begin(&kk)
	c.Evals++
	known := ""
	opt := vrt.Options{MaxExec: execs, Stop: func() bool { c.Begin(&kk); return c.Expired() },
		Ignore: ignore(c.Prop), MaxElems: int64(3000 * (k.N + 20) * len(ss)), MaxSteps: horizon(k.N)}
	var b func()
	var u used
	switch k.Op {
	case "par":
		b = parBody(&k, ss)
	case "read":
		b = readBody(&k, ss[0])
	case "use":
		b = useBody(&k, ss[0], &u)
	default:
		b = body(c, &k, ss[0], &known)
	}
	var r *vrt.Result
	if k.Op == "use" {
		r = useAll(c, opt, b)
	} else if execs > 0 {
		r = vrt.Explore(opt, b) // complete, up to partial-order equivalence
		account(c, r)
	}
	if r == nil || k.Op != "use" && r.Failure == nil && !r.Complete {
		r = deviate(c, opt, b, -execs, r)
	}
	if r.Execs > 1 {
		c.Nontrivial++
	}
	if f := r.Failure; f != nil {
		kk.Sched = f.Schedule
		tr := f.Trace
		if len(tr) > 60 {
			tr = tr[len(tr)-60:]
		}
		c.Fail(kk, f.Msg+" | last steps: "+strings.Join(tr, " "))
	} else if !r.Complete {
		c.Incomplete = append(c.Incomplete, fmt.Sprintf("%s n=%d MaxGor=%d %s: %d schedules", k.Subj+k.Extra, k.N, k.MaxGor, k.Shape, r.Execs))
	}
	if k.Op == "use" && r.Failure == nil && r.Complete {
		if m := u.judge(&k, ss[0]); m != "" {
			c.Fail(kk, m)
		}
		if kk.Shape == "asc" && kk.MaxGor < 50 && kk.Subj == "I4" && kk.N > 4*threshold(ss[0], kk.Lens) {
			c.Outcomes[fmt.Sprintf("%s n=%d MaxGor=%d: %s", kk.Subj, kk.N, kk.MaxGor, &u)]++
		}
	}
	if known != "" && k.Op == "gor" {
		c.Known("gorfull-check-then-add", kk, known)
	}
	if r.Sample != nil && (c.Evals&1023 == 1 || r.MaxThreads > 3 && len(c.Samples) < 3) {
		tr := r.Sample
		if len(tr) > 30 {
			tr = tr[:30]
		}
		c.Sample(kk, fmt.Sprintf("%d schedules, %d goroutines; one schedule begins: %s", r.Execs, r.MaxThreads, strings.Join(tr, " ")))
	}
}

// useAll runs the default schedules, taking turns last.
func useAll(c *kit.Ctx, opt vrt.Options, b func()) *vrt.Result {
	r := deviate(c, opt, b, 0, nil)
	if r.Failure == nil && r.Complete {
		t := vrt.ExploreDev(opt, vrt.Turns, 0, b)
		account(c, t)
		t.Execs += r.Execs
		t.MaxThreads = max(t.MaxThreads, r.MaxThreads)
		r = t
	}
	return r
}

// deviate covers what a capped exploration could not: all schedules that
// leave a default schedule at up to bound decisions.
// With bound 0 only the default schedules are run.
func deviate(c *kit.Ctx, opt vrt.Options, b func(), bound int, first *vrt.Result) *vrt.Result {
	if first != nil {
		bound = 1
	}
	opt.MaxExec = 0
	var sum *vrt.Result
	for p := 0; p < vrt.Policies; p++ {
		n := bound
		if p > vrt.StayHigh && n > 1 {
			n--
		}
		r := vrt.ExploreDev(opt, p, n, b)
		account(c, r)
		c.Bounded++
		if sum == nil {
			sum = r
		} else {
			sum.Execs += r.Execs
			sum.MaxThreads = max(sum.MaxThreads, r.MaxThreads)
			sum.Complete = sum.Complete && r.Complete
			sum.Failure = r.Failure
		}
		if r.Failure != nil || !r.Complete {
			break
		}
	}
	if first != nil {
		sum.Execs += first.Execs
		sum.Sample = first.Sample
	}
	return sum
}

func account(c *kit.Ctx, r *vrt.Result) {
	c.States += int64(r.States)
	c.Trans += int64(r.Transitions)
	c.Traces += int64(r.Execs)
	c.Cut += int64(r.Cut)
	c.MaxThreads = max(c.MaxThreads, r.MaxThreads)
	for o, n := range r.Outcomes {
		if o != "" {
			c.Outcomes[o] += int64(n)
		}
	}
}

// gen makes inputs at one length and explores each.
func one(c *kit.Ctx, s kit.Subject, k kit.Case, execs int) {
	explore(c, k, []kit.Subject{s}, execs)
}

func shapeCases(c *kit.Ctx, k kit.Case, n int, shapes []string, execs int) {
	if strings.HasPrefix(k.Subj, "LS") && !kit.Tunable && len(shapes) == len(few) {
		shapes = fewLsw // lesswap sorts of few distinct keys are quadratic, with many small goroutines
	}
	s := kit.New(k.Subj)
	k.M, k.N = n, n
	kit.Apply(&k)
	s.Prepare(k.M, k.VMap)
	for _, sh := range shapes {
		if c.Expired() {
			c.Incomplete = append(c.Incomplete, fmt.Sprintf("%s shapes %d", k.Subj, n))
			return
		}
		k.Shape = sh
		k.Keys = kit.Shape(sh, n, k.Keys)
		one(c, s, k, execs)
	}
}

var few = []string{"asc", "desc", "const:1", "pipe", "lcg:1", "lcg:2", "few:3:1", "few:2:1", "mod:7", "bitrev", "zip", "saw:5"}

var longer = []string{"asc", "desc", "pipe", "lcg:1", "lcg:2", "bitrev"}

var fewLsw = []string{"asc", "desc", "const:1", "pipe", "lcg:1", "lcg:2", "bitrev", "zip"}

type gen struct {
	c    *kit.Ctx
	ts   []kit.Task
	op   string
	q    bool
	seen int
}

func (g *gen) add(id string, k kit.Case, f func(c *kit.Ctx, k kit.Case)) {
	k.Op = g.op
	g.ts = append(g.ts, kit.Task{ID: fmt.Sprintf("%s/%s/v%d/nan%d/%v/M%d/%s", g.op, k.Subj, k.VMap, k.NaN, k.Lens[0], k.MaxGor, id), Run: func(c *kit.Ctx) { f(c, k) }})
}

// lengths just around and above the concurrency threshold
func (g *gen) subject(name string, vmaps []int, nans []int, ms []uint64, full bool) {
	s := kit.New(name)
	all, allMs := full, ms
	for _, nan := range nans {
		for _, vm := range vmaps {
			if vm >= s.VMaps() || vm == 5 && nan == 0 {
				continue
			}
			full, ms = all, allMs
			if g.q && vm != vmaps[0] {
				full, ms = false, allMs[:2]
			}
			tunings := [][4]int{kit.Small, kit.Mid, kit.Wide}
			if !full || vm != vmaps[0] {
				tunings = tunings[:1]
			} else if g.q {
				tunings = tunings[:2]
			}
			if !kit.Tunable {
				tunings = [][4]int{{}}
			}
			for _, L := range tunings {
				th := threshold(s, L)
				for _, m := range ms {
					k := kit.Case{Subj: name, VMap: vm, NaN: nan, Lens: L, MaxGor: m}
					if !kit.Tunable {
						for _, n := range []int{th - 1, th, th + 1, th + 3, th + 130, 2*th + 1} {
							n := n
							g.add(fmt.Sprintf("n%d", n), k, func(c *kit.Ctx, k kit.Case) { shapeCases(c, k, n, few, 300) })
						}
						continue
					}
					var ns []int
					step := 1
					if !full {
						step = 4
					}
					for n := th - 2; n < th+16; n += step {
						ns = append(ns, n)
					}
					for n := th + 16; n < 2*th+12; n += 5 * step {
						ns = append(ns, n)
					}
					if full && vm == vmaps[0] && m >= 3 {
						ns = append(ns, 3*th, 3*th+1)
					}
					for _, n := range ns {
						n := n
						g.add(fmt.Sprintf("n%d", n), k, func(c *kit.Ctx, k kit.Case) {
							sh := kit.Shapes(n)
							if !full && n%3 != 0 || n >= 3*th {
								sh = few
							}
							if L != kit.Small && g.q {
								sh = few
							}
							x := 4000
							if !g.q {
								x = 400000
							}
							shapeCases(c, k, n, sh, x)
						})
					}
					if full && vm == vmaps[0] && L == kit.Small && m == ms[0] {
						n := th
						st := 3
						if !g.q {
							st = 1
						}
						g.add("quarters", k, func(c *kit.Ctx, k kit.Case) { quarters(c, k, n, st) })
						g.add("quarters1", k, func(c *kit.Ctx, k kit.Case) { quarters(c, k, n+1, st) })
						g.add("sparse", k, func(c *kit.Ctx, k kit.Case) { sparse(c, k, n+1, 2) })
					}
				}
			}
		}
	}
}

// binary inputs by the number of low keys in each quarter
func quarters(c *kit.Ctx, k kit.Case, n, st int) {
	s := kit.New(k.Subj)
	k.M, k.N = 2, n
	s.Prepare(k.M, k.VMap)
	var cnt [4]int
	for i := 0; i < n; i++ {
		cnt[i*4/n]++
	}
	var v [4]int
	var rec func(d int)
	rec = func(d int) {
		if d == 4 {
			for mode := 0; mode < 2; mode++ {
				if c.Expired() {
					return
				}
				k.Shape = fmt.Sprintf("quart:%d:%d:%d:%d:%d", v[0], v[1], v[2], v[3], mode)
				k.Keys = kit.Shape(k.Shape, n, k.Keys)
				one(c, s, k, 4000)
			}
			return
		}
		for x := 0; x <= cnt[d]; x++ {
			if x%st == 0 || x == cnt[d] {
				v[d] = x
				rec(d + 1)
			}
		}
	}
	rec(0)
	if c.Expired() {
		c.Incomplete = append(c.Incomplete, fmt.Sprintf("%s quarters %d", k.Subj, n))
	}
}

// ascending inputs with up to d positions moved to the ends
func sparse(c *kit.Ctx, k kit.Case, n, d int) {
	s := kit.New(k.Subj)
	k.M, k.N = n+1, n
	s.Prepare(k.M, k.VMap)
	k.Keys = make([]int, n)
	for i := range k.Keys {
		k.Keys[i] = i + 1
	}
	var rec func(from, left int)
	rec = func(from, left int) {
		if c.Expired() {
			return
		}
		one(c, s, k, 4000)
		if left == 0 {
			return
		}
		for i := from; i < n; i++ {
			old := k.Keys[i]
			for _, x := range []int{0, n + 1} {
				k.Keys[i] = x
				rec(i+1, left-1)
			}
			k.Keys[i] = old
		}
	}
	rec(0, d)
	if c.Expired() {
		c.Incomplete = append(c.Incomplete, fmt.Sprintf("%s sparse %d", k.Subj, n))
	}
}

var large, small, off = 1, -1, 0

func (g *gen) class(names []string, full bool) {
	if vrt.Wide {
		g.wide(names)
		return
	}
	for _, n := range names {
		s, L := kit.New(n), kit.Small
		if !kit.Tunable {
			L = [4]int{}
		}
		th := threshold(s, L)
		for _, m := range []uint64{128, 256, 4096, 1 << 32, 1<<32 + 1, 1 << 63, 1<<64 - 1} {
			k := kit.Case{Subj: n, NaN: large, Lens: L, MaxGor: m}
			g.add("huge", k, func(c *kit.Ctx, k kit.Case) { shapeCases(c, k, th+5, few[:6], 60) })
		}
		ms := []uint64{2, 3}
		if full {
			ms = []uint64{2, 3, 4}
		}
		if n[0] == 'F' {
			g.subject(n, []int{5, 0}, []int{large, small}, ms, full)
			g.subject(n, []int{0}, []int{off}, ms[:1], false)
			continue
		}
		vm := []int{0}
		if full {
			vm = []int{0, 1, 2, 3, 4}
		}
		g.subject(n, vm, []int{large}, ms, full)
	}
}

func (g *gen) quotas(names []string) {
	if vrt.Wide {
		g.wide(names)
		return
	}
	for _, name := range names {
		s := kit.New(name)
		L := kit.Small
		if !kit.Tunable {
			L = [4]int{}
		}
		th := threshold(s, L)
		nan := large
		base := kit.Case{Subj: name, NaN: nan, Lens: L}
		for _, m := range []uint64{0, 1} {
			k := base
			k.MaxGor = m
			ns := []int{0, 1, 2, 11, th - 1, th, th + 9, 2 * th, 3*th + 5}
			g.add("single", k, func(c *kit.Ctx, k kit.Case) {
				for _, n := range ns {
					shapeCases(c, k, n, few[:6], 100)
				}
			})
		}
		for _, m := range []uint64{2, 3, 4, 5} {
			k := base
			k.MaxGor = m
			g.add("short", k, func(c *kit.Ctx, k kit.Case) {
				st := 1
				if !kit.Tunable {
					st = 23
				}
				for n := th - 1; n >= 0; n -= st {
					shapeCases(c, k, n, few, 100)
				}
			})
			ns := []int{th, th + 1, th + 5, th + 20, 2*th - 4, 2 * th, 2*th + 8}
			if m > 2 {
				ns = append(ns, 2*th+12)
			}
			execs := 3000
			if !g.q {
				ns = append(ns, 2*th+20, 3*th, 3*th+7)
				execs = 100000
			}
			if !kit.Tunable {
				ns, execs = []int{th, th + 50}, 60
				if m > 3 {
					continue
				}
			}
			for _, n := range ns {
				n := n
				g.add(fmt.Sprintf("n%d", n), k, func(c *kit.Ctx, k kit.Case) { shapeCases(c, k, n, few, execs) })
			}
		}
	}
}

func (g *gen) live(names []string) {
	if vrt.Wide {
		g.wide(names)
		return
	}
	for _, name := range names {
		s := kit.New(name)
		L := kit.Small
		if !kit.Tunable {
			L = [4]int{}
		}
		th := threshold(s, L)
		for _, e := range [][]uint64{{1, 2}, {2, 1}, {3, 1}, {1, 3}, {2, 3}, {3, 2}, {2, 0}, {3, 1, 3}, {2, 4, 1}, {4, 2}, {1, 4, 2}, {2, 1 << 63}, {1 << 63, 1}, {0, 3}, {3, 0, 2, 1}} {
			e := e
			k := kit.Case{Subj: name, NaN: large, Lens: L, MaxGor: e[0], Env: e[1:]}
			ns := []int{th - 1, th, th + 9, 2 * th}
			execs := 3000
			if !g.q {
				ns = append(ns, 2*th+9, 3*th)
				execs = 100000
			}
			if !kit.Tunable {
				ns, execs = []int{th, th + 50}, 200
			}
			for _, n := range ns {
				n := n
				g.add(fmt.Sprintf("n%d/%v", n, e), k, func(c *kit.Ctx, k kit.Case) {
					shapeCases(c, k, n, []string{"asc", "desc", "lcg:1", "few:3:1"}, execs)
				})
			}
		}
	}
}

// long collections, with many goroutines: all schedules within few deviations
// of some default schedules
func (g *gen) wide(names []string) {
	for _, name := range names {
		th := threshold(kit.New(name), kit.Small)
		for _, m := range []uint64{2, 3, 6} {
			for i, n := range []int{5*th + 1, 9*th + 4, 14 * th, 31 * th, 70*th + 1, 150 * th} {
				n := n
				k := kit.Case{Subj: name, NaN: large, Lens: kit.Small, MaxGor: m}
				x := 0
				if i == 0 && m < 4 || i == 1 && m == 2 {
					x = -1
				}
				if !g.q && i < 5 {
					x = -1
					if i < 1 || i < 2 && m == 2 {
						x = -2
					}
				}
				shapes := longer
				if i > 3 {
					shapes = longer[2:5]
				}
				run := func(c *kit.Ctx, k kit.Case) { shapeCases(c, k, n, shapes, x) }
				if g.op != "live" {
					g.add(fmt.Sprintf("wide%d", n), k, run)
					continue
				}
				for _, e := range [][]uint64{{m, 1}, {1, m}, {m, 1, m + 1}} {
					k.MaxGor, k.Env = e[0], e[1:]
					g.add(fmt.Sprintf("wide%d/%v", n, e), k, run)
				}
			}
		}
	}
}

func (g *gen) readers(names []string) {
	for _, name := range names {
		nans := []int{large}
		if name[0] == 'F' {
			nans = []int{large, small, off}
		}
		for _, nan := range nans {
			k := kit.Case{Subj: name, NaN: nan, Lens: kit.Small, MaxGor: 3}
			if name[0] == 'F' && nan != off {
				k.VMap = 5
			}
			g.add("read", k, func(c *kit.Ctx, k kit.Case) {
				for n := 2; n < 120; n++ {
					shapeCases(c, k, n, kit.Shapes(n), 100)
				}
			})
		}
	}
}

// far: lengths up to the largest, default schedules until the lesswap function panics
func (g *gen) far() {
	lens := [][4]int{kit.Small, kit.Mid}
	if !kit.Tunable {
		lens = [][4]int{{}}
	}
	for _, L := range lens {
		for _, mode := range kit.FarModes {
			k := kit.Case{Subj: "LSW", NaN: large, Lens: L, MaxGor: 3, Shape: mode}
			g.add("far"+mode, k, func(c *kit.Ctx, k kit.Case) {
				for _, k.N = range kit.FarLens() {
					for _, k.MaxGor = range []uint64{2, 3} {
						c.Evals++
						c.Begin(&k)
						r := deviate(c, vrt.Options{Stop: c.Expired, Ignore: ignore("C16"), MaxSteps: 20000}, farBody(&k), 0, nil)
						if r.MaxThreads > 1 {
							c.Nontrivial++
						}
						if f := r.Failure; f != nil {
							kk := k
							kk.Sched = f.Schedule
							c.Fail(kk, f.Msg)
						}
					}
				}
			})
		}
	}
}

func farBody(k *kit.Case) func() {
	return func() { kit.Far(k, 3000) }
}

// uses: collections long enough must be sorted by several goroutines
func (g *gen) uses(names []string) {
	for _, name := range names {
		s := kit.New(name)
		L := kit.Small
		if !kit.Tunable {
			L = [4]int{}
		}
		th := threshold(s, L)
		for _, m := range []uint64{2, 3, 4, 8, 16, 300, 1 << 40} {
			m := m
			k := kit.Case{Subj: name, NaN: large, Lens: L, MaxGor: m}
			ns := []int{th, th + 1, th + 2, th + 7, 2*th - 1, 2 * th, 3 * th, 5*th + 1}
			if vrt.Wide {
				ns = []int{9 * th, 17*th + 3, 33 * th, 64*th + 1, 128 * th}
			}
			if !kit.Tunable {
				ns = []int{th, th + 1, th + 50, 2 * th, 9 * th}
			}
			g.add("use", k, func(c *kit.Ctx, k kit.Case) {
				for _, n := range ns {
					if m > 16 && n > 10*th {
						continue
					}
					shapes := few
					if n > 20*th {
						shapes = few[:2]
					}
					shapeCases(c, k, n, shapes, 100)
				}
			})
		}
	}
}

func (g *gen) parallel() {
	all := join(typed, lsws[:1])
	pairs := map[string]bool{}
	for i, a := range all {
		for _, b := range all[i:] {
			pairs[a+","+b] = true
		}
	}
	var l []string
	for p := range pairs {
		l = append(l, p)
	}
	sort.Strings(l)
	l = append(l, "I4,F8,LSW", "S,LenB,U8", "LSW,LSW,LSW", "F8,F8,F8", "B,B,B", "I8,I8,I8")
	// one after another, and both
	for i, a := range all {
		b, d := all[(i+3)%len(all)], all[(i+5)%len(all)]
		l = append(l, a+">"+a, a+">"+b+">"+a, a+">"+b+","+a, a+">"+a+","+b+">"+d)
	}
	// calls that panic before, calls made by the lesswap function
	for i, a := range all {
		b := all[(i+3)%len(all)]
		l = append(l, "ERRarg>"+a, a+">ERRlsw>"+b, "ERRlsw,"+a, "NEST+"+a, "NEST+"+a+","+b)
	}
	for _, p := range l {
		names := strings.Split(p, ",")
		hist := strings.Contains(p, ">")
		if hist && g.q && len(names) > 1 && len(p) > 12 && !vrt.Wide {
			continue
		}
		if len(names) > 2 && g.q && p != "I4,F8,LSW" {
			continue
		}
		for _, m := range []uint64{1, 2, 3} {
			k := kit.Case{Extra: p, NaN: large, Lens: kit.Small, MaxGor: m}
			ns := []int{30, 46, 55}
			if hist {
				ns = []int{46, 90}
			}
			if !kit.Tunable {
				k.Lens, ns = [4]int{}, []int{1205}
				if m != 2 || len(names) > 2 {
					continue
				}
			}
			if vrt.Wide {
				ns = []int{231, 1200}
				if m == 1 || len(names) == 2 && names[0] != names[1] && g.q {
					continue
				}
			}
			g.add(p, k, func(c *kit.Ctx, k kit.Case) {
				for _, n := range ns {
					for _, sh := range []string{"lcg:1,desc,lcg:2", "few:3:1,lcg:3,asc"} {
						if c.Expired() {
							c.Incomplete = append(c.Incomplete, p)
							return
						}
						k.N, k.Shape = n, sh
						parOne(c, k)
					}
				}
			})
		}
	}
}

func parSubjects(k *kit.Case) (ss []kit.Subject) {
	kit.Apply(k)
	for i, n := range strings.FieldsFunc(k.Extra, func(r rune) bool { return r == ',' || r == '>' }) {
		s := kit.New(n)
		s.Prepare(k.N+i, 0)
		ss = append(ss, s)
	}
	return
}

func parOne(c *kit.Ctx, k kit.Case) {
	ss := parSubjects(&k)
	execs := 3000
	if !c.Quick() {
		execs = 50000
	}
	if vrt.Wide {
		execs = 0
		if k.N < 1000 && (k.MaxGor == 2 && len(ss) == 2 || !c.Quick()) {
			execs = -1
		}
	}
	explore(c, k, ss, execs)
}

func tasks(c *kit.Ctx) []kit.Task {
	g := &gen{c: c, op: "conc", q: c.Quick()}
	switch c.Prop {
	case "C01":
		g.class(ints, true)
	case "C02":
		g.class(floats, true)
	case "C03":
		g.class(strs, true)
	case "C04":
		g.class(lens, true)
	case "C05":
		g.class(lsws, true)
	case "C06":
		g.class(typed, !g.q)
	case "C07":
		g.class(lsws, true)
		g.class([]string{"LSWdesc"}, false)
	case "C08":
		g.class(join(typed, lsws), false)
	case "C09":
		g.op = "gor"
		g.quotas(join(typed, lsws[:1]))
	case "C10":
		g.op = "live"
		g.live(join(typed, lsws[:1]))
	case "C11":
		g.op = "par"
		g.parallel()
	case "C15":
		g.class(join(typed, lsws), false)
	case "C16":
		g.class(lsws, true)
		g.op = "far"
		g.far()
	case "C17":
		g.class(ptrs, true)
		g.class(join(strs, lens), false)
	case "C12":
		g.op = "read"
		g.readers(join(typed, lsws[:1]))
	case "C21":
		g.op = "use"
		g.uses(join(typed, lsws[:1]))
	case "C22":
		g.op = "cost"
		g.costs(join(typed, lsws[:1]))
	case "C18":
		g.op = "depth"
		g.depths(join(typed, lsws[:1]))
	default:
		panic("no tasks for " + c.Prop)
	}
	return g.ts
}

func replay(c *kit.Ctx, k kit.Case) string {
	var known string
	opt := vrt.Options{Prefix: k.Sched, Ignore: ignore(c.Prop), MaxSteps: horizon(k.N), MaxElems: int64(3000 * (k.N + 20) * 3), MaxExec: 4000}
	var b func()
	if k.Op == "par" {
		ss := parSubjects(&k)
		opt.MaxElems = int64(3000 * (k.N + 20) * len(ss))
		b = parBody(&k, ss)
	} else {
		s := kit.New(k.Subj)
		s.Prepare(k.M, k.VMap)
		if k.Op == "depth" {
			k.Keys = depthKeys(&k)
			deep := 0
			opt.MaxElems = int64(200 * (k.N + 100) * (k.N + 100))
			b = depthBody(&k, s, &deep)
		} else {
			if k.Shape != "" && k.Op != "far" {
				k.Keys = kit.Shape(k.Shape, k.N, nil)
			}
			switch k.Op {
			case "cost":
				var most int64
				opt.MaxElems = costMax(&k, s)
				b = costBody(&k, s, &most)
			case "far":
				b = farBody(&k)
			case "read":
				b = readBody(&k, s)
			case "use":
				if k.Sched == nil { // about all schedules
					var u used
					useAll(c, opt, useBody(&k, s, &u))
					return u.judge(&k, s)
				}
				b = useBody(&k, s, &used{})
			default:
				b = body(c, &k, s, &known)
			}
		}
	}
	r := vrt.Explore(opt, b)
	if r.Failure != nil {
		return r.Failure.Msg
	}
	return ""
}

func main() { kit.Main(tasks, replay) }

// horizon is the number of scheduled operations of an execution after which it
// goes on under a fair schedule, and is given up after twenty times as many
func horizon(n int) int { return 60000 + 100*n }
