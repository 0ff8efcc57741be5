//go:build go1.22

package kit

import (
	"fmt"
	"runtime/debug"
	"strings"

	sorty "github.com/jfcg/sorty/v2"
)

// Small is the smallest legal tuning; others vary the relations.
var (
	Small = [4]int{10, 9, 22, 21}
	Mid   = [4]int{13, 10, 29, 27}
	Wide  = [4]int{16, 9, 60, 34}
)

func panicMsg(r any) string {
	m := fmt.Sprint(r)
	for _, c := range []string{"protocol:", "late:", "readonly:", "term:"} {
		if strings.HasPrefix(m, c) {
			return m
		}
	}
	var at []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if l = strings.TrimSpace(l); strings.Contains(l, ".go:") && !strings.Contains(l, "/vh/") && !strings.Contains(l, "/runtime/") {
			at = append(at, l)
		}
	}
	if len(at) > 4 {
		at = at[:4]
	}
	return "panic: " + m + " at " + strings.Join(at, " < ")
}

// TrySort sorts and recovers.
func TrySort(s Subject) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = panicMsg(r)
		}
	}()
	s.Sort()
	return
}

// TryIsSorted calls the predicate and recovers.
func TryIsSorted(s Subject) (i int, msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = panicMsg(r)
		}
	}()
	i = s.IsSorted()
	return
}

// Step runs one prepared and filled case.
type Step func(s Subject, k *Case) string

// SortStep: result is the sorted permutation and nothing else changed.
func SortStep(s Subject, k *Case) string {
	if m := TrySort(s); m != "" {
		return m
	}
	return s.Check()
}

// IsSortedStep: the answer is right and nothing changed.
func IsSortedStep(s Subject, k *Case) string {
	i, m := TryIsSorted(s)
	if m != "" {
		return m
	}
	if e := s.Untouched(); e != "" {
		return e
	}
	if ok := s.RefSorted(); ok != (i == 0) {
		return fmt.Sprintf("answer: got %d for sorted=%v", i, ok)
	} else if !ok && !s.PairBad(i) {
		return fmt.Sprintf("answer: got %d, but element %d is not less than element %d", i, i, i-1)
	}
	return ""
}

// Apply sets the globals of a case.
func Apply(k *Case) {
	if k.Lens[0] > 0 {
		SetLens(k.Lens[0], k.Lens[1], k.Lens[2], k.Lens[3])
	}
	sorty.MaxGor = k.MaxGor
	sorty.NaNoption = sorty.FloatOption(k.NaN)
}

// Eval runs one case given by keys already in k.Keys.
func (c *Ctx) Eval(s Subject, k *Case, st Step) {
	c.Evals++
	for i := 1; i < len(k.Keys); i++ {
		if k.Keys[i] < k.Keys[i-1] {
			c.Nontrivial++
			break
		}
	}
	c.cur = k
	c.tick.Store(c.Evals)
	if c.journal != nil {
		c.note(k)
	}
	s.Set(k.Keys)
	if m := st(s, k); m != "" {
		c.Fail(*k, m)
	} else if c.Evals&0xfffff == 1 {
		c.Sample(*k, s.Dump())
	}
}

// ReplayStep runs one stored case.
func ReplayStep(k Case, st Step) string {
	s := New(k.Subj)
	Apply(&k)
	if k.Shape != "" {
		k.Keys = Shape(k.Shape, k.N, nil)
	}
	s.Prepare(k.M, k.VMap)
	s.Set(k.Keys)
	return st(s, &k)
}

// All enumerates all a^n key arrays.
func (c *Ctx) All(k Case, a, n int, st Step) {
	s := New(k.Subj)
	Apply(&k)
	k.M, k.N = a-1, n
	s.Prepare(k.M, k.VMap)
	k.Keys = make([]int, n)
	for {
		c.Eval(s, &k, st)
		if c.Evals&0xffff == 0 && c.Expired() {
			c.Incomplete = append(c.Incomplete, fmt.Sprintf("%s %d^%d", k.Subj, a, n))
			return
		}
		i := n - 1
		for ; i >= 0; i-- {
			if k.Keys[i]++; k.Keys[i] < a {
				break
			}
			k.Keys[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// Perms enumerates all permutations of n.
func (c *Ctx) Perms(k Case, n int, st Step) {
	s := New(k.Subj)
	Apply(&k)
	k.M, k.N = n-1, n
	s.Prepare(k.M, k.VMap)
	k.Keys = make([]int, n)
	for i := range k.Keys {
		k.Keys[i] = i
	}
	var rec func(i int)
	rec = func(i int) {
		if i >= n-1 {
			c.Eval(s, &k, st)
			return
		}
		for j := i; j < n; j++ {
			k.Keys[i], k.Keys[j] = k.Keys[j], k.Keys[i]
			rec(i + 1)
			k.Keys[i], k.Keys[j] = k.Keys[j], k.Keys[i]
		}
	}
	rec(0)
}

// Sparse enumerates all arrays that differ from a base (constant or ascending)
// in at most d positions, where they hold the lowest or the highest key.
func (c *Ctx) Sparse(k Case, n, d int, asc bool, st Step) {
	s := New(k.Subj)
	Apply(&k)
	hi := 2
	k.N = n
	k.Keys = make([]int, n)
	for i := range k.Keys {
		k.Keys[i] = 1
		if asc {
			k.Keys[i] = i + 1
			hi = n + 1
		}
	}
	k.M = hi
	s.Prepare(k.M, k.VMap)
	var rec func(from, left int)
	rec = func(from, left int) {
		c.Eval(s, &k, st)
		if left == 0 {
			return
		}
		for i := from; i < n; i++ {
			old := k.Keys[i]
			k.Keys[i] = 0
			rec(i+1, left-1)
			k.Keys[i] = hi
			rec(i+1, left-1)
			k.Keys[i] = old
			if c.Expired() {
				c.Incomplete = append(c.Incomplete, fmt.Sprintf("%s sparse %d", k.Subj, n))
				return
			}
		}
	}
	rec(0, d)
}

// Windows enumerates ascending arrays with one window of w keys permuted.
func (c *Ctx) Windows(k Case, n, w, stride int, st Step) {
	s := New(k.Subj)
	Apply(&k)
	k.M, k.N = n-1, n
	s.Prepare(k.M, k.VMap)
	k.Keys = make([]int, n)
	for i := range k.Keys {
		k.Keys[i] = i
	}
	for at := 0; at+(w-1)*stride < n; at++ {
		var rec func(i int)
		rec = func(i int) {
			if i >= w-1 {
				c.Eval(s, &k, st)
				return
			}
			for j := i; j < w; j++ {
				x, y := at+i*stride, at+j*stride
				k.Keys[x], k.Keys[y] = k.Keys[y], k.Keys[x]
				rec(i + 1)
				k.Keys[x], k.Keys[y] = k.Keys[y], k.Keys[x]
			}
		}
		rec(0)
	}
}

// Family runs shapes at one length.
func (c *Ctx) Family(k Case, n int, shapes []string, st Step) {
	s := New(k.Subj)
	Apply(&k)
	k.M, k.N = n, n
	s.Prepare(k.M, k.VMap)
	var buf []int
	seen := map[uint64]bool{}
	for _, sh := range shapes {
		buf = Shape(sh, n, buf)
		h := uint64(n)
		for _, x := range buf {
			h = mix(h ^ uint64(x)*0x9e3779b97f4a7c15)
		}
		if seen[h] {
			continue // same input under another name
		}
		seen[h] = true
		k.Keys = buf
		k.Shape = sh
		k2 := k
		if n > 300 {
			k2.Keys = nil
		}
		c.evalShape(s, &k, &k2, st)
		if c.Expired() {
			c.Incomplete = append(c.Incomplete, fmt.Sprintf("%s shapes %d", k.Subj, n))
			return
		}
	}
}

func (c *Ctx) evalShape(s Subject, k, rec *Case, st Step) {
	c.Evals++
	for i := 1; i < len(k.Keys); i++ {
		if k.Keys[i] < k.Keys[i-1] {
			c.Nontrivial++
			break
		}
	}
	c.cur = rec
	c.tick.Store(c.Evals)
	if c.journal != nil {
		c.note(rec)
	}
	s.Set(k.Keys)
	if m := st(s, k); m != "" {
		c.Fail(*rec, m)
	} else if c.Evals&0xfff == 1 {
		c.Sample(*rec, s.Dump())
	}
}

// Quarters enumerates binary arrays by the number of low keys in each quarter.
func (c *Ctx) Quarters(k Case, n, step int, st Step) {
	s := New(k.Subj)
	Apply(&k)
	k.M, k.N = 1, n
	s.Prepare(k.M, k.VMap)
	var q [4][]int
	for i := 0; i < n; i++ {
		q[i*4/n] = append(q[i*4/n], i)
	}
	k.Keys = make([]int, n)
	for mode := 0; mode < 2; mode++ {
		var rec func(d int)
		rec = func(d int) {
			if d == 4 {
				c.Eval(s, &k, st)
				return
			}
			l := len(q[d])
			for cnt := 0; cnt <= l; cnt++ {
				if cnt%step != 0 && cnt != l {
					continue
				}
				for x, i := range q[d] {
					k.Keys[i] = 1
					if mode == 0 && x < cnt || mode == 1 && x >= l-cnt {
						k.Keys[i] = 0
					}
				}
				rec(d + 1)
			}
		}
		rec(0)
		if c.Expired() {
			c.Incomplete = append(c.Incomplete, fmt.Sprintf("%s quarters %d", k.Subj, n))
			return
		}
	}
}
