//go:build go1.22

// seq enumerates inputs of the public API natively, one goroutine per sort.
package main

import (
	"fmt"
	"slices"
	"strings"

	"github.com/jfcg/sorty/v2/vh/kit"
)

type plan struct {
	subj  string
	vmaps []int
	nans  []int // NaNoption values
	full  bool  // full enumeration, else a reduced one
}

const (
	nanSmall  = -1
	nanIgnore = 0
	nanLarge  = 1
)

func sortTasks(c *kit.Ctx, plans []plan, step kit.Step, op string) (ts []kit.Task) {
	q := c.Quick()
	for _, p := range plans {
		s := kit.New(p.subj)
		vms := p.vmaps
		if vms == nil {
			for v := 0; v < s.VMaps(); v++ {
				vms = append(vms, v)
			}
		}
		nans := p.nans
		if nans == nil {
			nans = []int{nanLarge}
		}
		for _, nan := range nans {
			for _, vm := range vms {
				if vm == 5 && p.nans != nil && nan == nanIgnore {
					continue // NaNs present and ignored: undefined by the documentation
				}
				first := vm == vms[0]
				base := kit.Case{Op: op, Subj: p.subj, VMap: vm, MaxGor: 1, NaN: nan}
				add := func(name string, lens [4]int, f func(c *kit.Ctx, k kit.Case)) {
					k := base
					if kit.Tunable {
						k.Lens = lens
					}
					ts = append(ts, kit.Task{ID: fmt.Sprintf("%s/%s/v%d/nan%d/%v/%s", op, p.subj, vm, nan, lens[0], name),
						Run: func(c *kit.Ctx) { f(c, k) }})
				}
				if kit.Tunable {
					small(add, p.full, first, q, vm == 5 && p.nans != nil, step)
				} else {
					deflt(add, p.full, first, q, step)
					if op == "issorted" && first {
						checks(add, step)
					}
				}
			}
		}
	}
	return
}

type adder func(name string, lens [4]int, f func(c *kit.Ctx, k kit.Case))

// tunable build: thresholds scaled down
func small(add adder, full, first, q, nan bool, step kit.Step) {
	all := func(lens [4]int, a, n int) {
		add(fmt.Sprintf("all%d^%d", a, n), lens, func(c *kit.Ctx, k kit.Case) { c.All(k, a, n, step) })
	}
	L := kit.Small
	for n := 0; n <= 6; n++ {
		for _, a := range []int{6} {
			if n <= 5 || full {
				all(L, a, n)
			}
		}
	}
	if full && first {
		all(L, 7, 7)
		all(L, 4, 10)
	}
	if nan {
		all(L, 7, 6)
		all(L, 5, 8)
		all(L, 4, 11)
	}
	n3, n2, np := 10, 14, 8
	if full {
		n3, n2, np = 11, 17, 8
		if first {
			n3, n2, np = 12, 19, 9
		}
		if !q {
			n3, n2, np = n3+1, n2+1, np+1
			if first {
				n2 = 23
			}
		}
	}
	for n := 7; n <= n3; n++ {
		all(L, 3, n)
	}
	for n := 10; n <= n2; n++ {
		all(L, 2, n)
	}
	for n := 7; n <= np; n++ {
		n := n
		add(fmt.Sprintf("perm%d", n), L, func(c *kit.Ctx, k kit.Case) { c.Perms(k, n, step) })
	}
	if first {
		for _, n := range []int{1000, 4099, 70001, 1<<20 + 1} {
			n := n
			l := []string{"asc", "desc", "pipe", "mod:7919", "lcg:1", "bitrev", "zip"}
			if n > 1<<20 {
				l = []string{"lcg:1"}
			}
			add(fmt.Sprintf("big%d", n), L, func(c *kit.Ctx, k kit.Case) { c.Family(k, n, l, step) })
		}
	}
	lens := [][4]int{kit.Small, kit.Mid, kit.Wide}
	for _, L := range lens {
		if !full && L != kit.Small {
			continue
		}
		for n := 2; n <= 260; n++ {
			n, L := n, L
			if !full && n > 60 && n%7 != 0 {
				continue
			}
			add(fmt.Sprintf("shapes%d", n), L, func(c *kit.Ctx, k kit.Case) { c.Family(k, n, kit.Shapes(n), step) })
		}
	}
	if full && first {
		for n := 13; n <= 50; n++ {
			n := n
			d := 2
			if n <= 28 {
				d = 3
			}
			if !q {
				d++
			}
			for b := 0; b < 2; b++ {
				b := b
				add(fmt.Sprintf("sparse%d.%d", n, b), L, func(c *kit.Ctx, k kit.Case) { c.Sparse(k, n, d, b == 1, step) })
			}
			if n >= 20 {
				for _, st := range []int{1, 3, 4} {
					st := st
					add(fmt.Sprintf("win%d.%d", n, st), L, func(c *kit.Ctx, k kit.Case) { c.Windows(k, n, 5, st, step) })
				}
			}
		}
		for _, n := range []int{23, 24, 29, 32, 37, 44, 48} {
			n := n
			add(fmt.Sprintf("quart%d", n), L, func(c *kit.Ctx, k kit.Case) { c.Quarters(k, n, 1, step) })
		}
	}
}

// default constants
func deflt(add adder, full, first, q bool, step kit.Step) {
	L := [4]int{}
	if first {
		for _, n := range []int{1<<25 + 9, 1<<24 + 5, 1<<22 + 3, 1<<20 + 1, 1<<18 + 3, 131073, 65536, 20011, 4097} {
			n := n
			l := []string{"asc", "desc", "const:1", "pipe", "mod:7919", "lcg:1", "bitrev", "zip", "few:3:1", "saw:100"}
			if n > 1<<25 && q {
				continue
			} else if n > 1<<23 {
				l = []string{"lcg:1"}
			} else if n > 1<<20 && q {
				l = []string{"lcg:1", "desc"}
			} else if n > 1<<17 && q {
				l = []string{"lcg:1", "asc", "pipe", "const:1"}
			}
			add(fmt.Sprintf("big%d", n), L, func(c *kit.Ctx, k kit.Case) {
				if n > 1<<20+1 && !slices.Contains(huge, k.Subj) || n > 1<<23 && (k.Subj == "S" || k.Subj == "LSW") {
					return
				}
				l := l
				if strings.HasPrefix(k.Subj, "LSW") && n >= 5000 { // Sort() is quadratic on few distinct keys
					l = slices.DeleteFunc(slices.Clone(l), func(s string) bool { return s == "const:1" && n > 140000 || s[:3] == "few" || s[:3] == "saw" })
				}
				c.Family(k, n, l, step)
			})
		}
	}
	all := func(a, n int) {
		add(fmt.Sprintf("all%d^%d", a, n), L, func(c *kit.Ctx, k kit.Case) { c.All(k, a, n, step) })
	}
	for n := 0; n <= 5; n++ {
		all(5, n)
	}
	all(3, 8)
	all(2, 11)
	top := 1330
	if !q {
		top = 2700
	}
	for lo := 2; lo <= top; lo += 16 {
		lo := lo
		add(fmt.Sprintf("shapes%d+", lo), L, func(c *kit.Ctx, k kit.Case) {
			for n := lo; n < lo+16; n++ {
				sh := kit.Shapes(n)
				if !full || n > 130 && (q || !first) {
					// every n, with a rotating part of the shapes
					var part []string
					for i, s := range sh {
						if i%6 == n%6 {
							part = append(part, s)
						}
					}
					sh = part
				}
				c.Family(k, n, sh, step)
			}
		})
	}
	if first {
		for _, n := range []int{61, 62, 121, 300, 301, 600, 601, 602, 1201, 1202} {
			n := n
			add(fmt.Sprintf("sparse%d", n), L, func(c *kit.Ctx, k kit.Case) { c.Sparse(k, n, 1, true, step) })
		}
	}
}

// subjects at lengths above 2^20+1
var huge = []string{"I4", "U8", "F4", "S", "LenB", "LSW"}

// long collections to be checked, with a descent at one place
func checks(add adder, step kit.Step) {
	add("one4100", [4]int{}, func(c *kit.Ctx, k kit.Case) { c.Sparse(k, 4100, 1, true, step) })
	for _, n := range []int{70001, 1000003} {
		n, block := n, 1024
		if n > 1<<17 {
			block = 1 << 16
		}
		add(fmt.Sprintf("descents%d", n), [4]int{}, func(c *kit.Ctx, k kit.Case) {
			at := []int{1, 2, 3, n - 3, n - 2, n - 1, n / 2, n / 3, n / 4, n/2 + 1, 3 * n / 4}
			for b := block; b+1 < n; b += block {
				at = append(at, b-1, b, b+1)
			}
			var l []string
			for _, i := range at {
				l = append(l, fmt.Sprint("descent:", i))
			}
			c.Family(k, n, l, step)
		})
	}
}

var ints = []plan{{"I4", nil, nil, true}, {"I8", nil, nil, true}, {"U4", nil, nil, true}, {"U8", nil, nil, true},
	{"INT", nil, nil, false}, {"UINT", nil, nil, false}, {"UPTR", nil, nil, false}}
var allNaN = []int{nanLarge, nanSmall, nanIgnore}
var floats = []plan{{"F4", []int{5, 0, 1, 2, 3, 4}, allNaN, true}, {"F8", []int{5, 0, 1, 2, 3, 4}, allNaN, true}}
var strs = []plan{{"S", nil, nil, true}, {"B", nil, nil, true}}
var lens = []plan{{"LenS", nil, nil, true}, {"LenB", nil, nil, true}, {"LenZ", nil, nil, false}, {"LenP", nil, nil, false}, {"LenBy", nil, nil, false}}
var lsws = []plan{{"LSW", nil, nil, true}, {"LSWdesc", nil, nil, false}, {"LSWcoarse", nil, nil, true}}
var ptrs = []plan{{"PTR", nil, nil, true}, {"UNSAFEPTR", nil, nil, false}}

func reduced(ps ...[]plan) (o []plan) {
	for _, l := range ps {
		for _, p := range l {
			p.full = false
			if p.nans != nil {
				p.vmaps = []int{5, 0}
			} else {
				p.vmaps = []int{0}
			}
			o = append(o, p)
		}
	}
	return
}

func join(ps ...[]plan) (o []plan) {
	for _, l := range ps {
		o = append(o, l...)
	}
	return
}

func tasks(c *kit.Ctx) []kit.Task {
	switch c.Prop {
	case "C01":
		return sortTasks(c, ints, sorted, "sort")
	case "C02":
		return sortTasks(c, floats, sorted, "sort")
	case "C03":
		return sortTasks(c, strs, sorted, "sort")
	case "C04":
		return sortTasks(c, lens, sorted, "sort")
	case "C05":
		return sortTasks(c, lsws, sorted, "sort")
	case "C12":
		all := reduced(ints, floats, strs, lens, lsws, ptrs)
		for i := range all {
			all[i].vmaps = nil
		}
		return sortTasks(c, all, kit.IsSortedStep, "issorted")
	case "C13":
		return searchTasks(c)
	case "C14":
		return dispatchTasks(c)
	case "C15":
		return append(sortTasks(c, reduced(ints, floats, strs, lens, lsws, ptrs), confined, "confine"), allocTasks(c)...)
	case "C16":
		return append(append(sortTasks(c, lsws, protocol, "protocol"), sortTasks(c, lsws[:1], issProtocol, "issprotocol")...), append(edgeTasks(c), farTasks(c)...)...)
	case "C17":
		return sortTasks(c, ptrs, sorted, "sort")
	case "C20":
		return append(sortTasks(c, reduced(ints, floats, strs, lens, lsws, ptrs), sorted, "sort"), wide32Tasks(c)...)
	case "C19":
		return cfgTasks(c)
	}
	panic("no tasks for " + c.Prop)
}

func main() { kit.Main(tasks, replay) }
