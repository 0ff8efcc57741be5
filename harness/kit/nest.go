//go:build go1.22

package kit

import (
	"fmt"
	"strings"

	sorty "github.com/jfcg/sorty/v2"
)

// nested is a lesswap collection whose lesswap function makes whole calls on
// another one: in its first call, and when item 7 is first moved.
type nested struct {
	*Lsw
	in   [2]Subject
	done [2]bool
}

func newNested(name string) Subject {
	f := strings.Split(name, "+")
	n := &nested{Lsw: New("LSW").(*Lsw)}
	n.name = name
	for i := range n.in {
		n.in[i] = New(f[1])
	}
	return n
}

func (n *nested) Prepare(m, vmap int) {
	n.Lsw.Prepare(m, vmap)
	for _, s := range n.in {
		s.Prepare(m, vmap)
	}
}

func (n *nested) Set(keys []int) {
	n.Lsw.Set(keys)
	n.done = [2]bool{}
	for _, s := range n.in {
		s.Set(keys)
	}
}

func (n *nested) Register() {
	n.Lsw.Register()
	for _, s := range n.in {
		s.Register()
	}
}

func (n *nested) TouchAll() {
	n.Lsw.TouchAll()
	for _, s := range n.in {
		s.TouchAll()
	}
}

func (n *nested) call(i int) {
	if !n.done[i] {
		n.done[i] = true
		n.in[i].Sort()
	}
}

func (n *nested) Sort() {
	n.Returned, n.ReadOnly = false, false
	first := true
	sorty.Sort(len(n.s), func(i, k, r, s int) bool {
		if first { // by the caller
			first = false
			n.call(0)
		}
		x := n.lsw(i, k, r, s)
		if x && r != s && (n.s[r].ID == 7 || n.s[s].ID == 7) {
			n.call(1)
		}
		return x
	})
	n.Returned = true
}

func (n *nested) Check() string {
	m := n.Lsw.Check()
	for i, s := range n.in {
		if n.done[i] && m == "" {
			if m = s.Check(); m != "" {
				m += " (call made by the lesswap function)"
			}
		}
	}
	return m
}

// faulty makes calls that panic, and handles that.
type faulty struct {
	typed[int32]
	what string
	msg  string
}

func newFaulty(name string) Subject {
	f := &faulty{what: name[3:]}
	f.typed = *New("I4").(*typed[int32])
	f.name = name
	return f
}

func (f *faulty) Check() string     { return f.msg }
func (f *faulty) Untouched() string { return f.msg }

func (f *faulty) try(what string, c func()) {
	ok := false
	defer func() {
		if r := recover(); r == nil && ok && f.msg == "" {
			f.msg = what + ": no panic"
		}
	}()
	c()
	ok = true
}

func (f *faulty) Sort() {
	f.msg = ""
	if f.what == "arg" {
		f.try("SortSlice", func() { sorty.SortSlice([]bool{true, false}) })
		f.try("SortLen", func() { sorty.SortLen([]int{2, 1}) })
		f.try("IsSortedSlice", func() { sorty.IsSortedSlice([]int8{2, 1}) })
		f.try("IsSortedLen", func() { sorty.IsSortedLen(7) })
		return
	}
	// too short for goroutines: a panic of the function given is the caller's
	for _, at := range []int{1, 2, 5, 17} {
		calls := 0
		tick := func() {
			if calls++; calls == at {
				panic(fmt.Sprint("user function, call ", at))
			}
		}
		ar := []int{9, 3, 7, 1, 8, 2, 6, 0, 5, 4, 19, 13, 17, 11, 18, 12, 16, 10, 15, 14}
		f.try("Sort", func() {
			sorty.Sort(len(ar), func(i, k, r, s int) bool {
				tick()
				if ar[i] < ar[k] {
					ar[r], ar[s] = ar[s], ar[r]
					return true
				}
				return false
			})
		})
		sum := 0
		for _, x := range ar {
			sum += 1 << x
		}
		if sum != 1<<20-1 {
			f.msg = "content: elements lost when the lesswap function panicked"
		}
		calls = 0
		f.try("IsSorted", func() {
			sorty.IsSorted(20, func(i, k, r, s int) bool {
				tick()
				return false
			})
		})
		calls = 0
		if at < 5 {
			f.try("Search", func() { sorty.Search(20, func(int) bool { tick(); return true }) })
		}
	}
}
