//go:build go1.22

package main

import (
	"fmt"
	"math/bits"
	"strings"

	"github.com/jfcg/sorty/v2/vh/kit"
	"github.com/jfcg/sorty/v2/vrt"
)

// arrangements that every sort has to handle in O(n log n) steps
func costShapes(n int, lsw bool) (l []string) {
	p := func(f string, a ...any) { l = append(l, fmt.Sprintf(f, a...)) }
	p("asc")
	p("desc")
	for i := 1; i <= 8; i++ {
		p("lcg:%d", i)
	}
	for i := 1; i < 8; i++ {
		p("rot:%d", n*i/8)
		p("hi:%d", n*i/8)
		p("lo:%d", n*i/8)
	}
	p("rot:1")
	p("rot:%d", n-1)
	p("hi:0")
	p("lo:0")
	p("hi:%d", n-1)
	p("lo:%d", n-1)
	p("swaps:%d:1", max(1, n/10))
	p("swaps:%d:2", max(1, n/100))
	p("pipe")
	p("rpipe")
	p("zip")
	p("bitrev")
	p("runs:2")
	p("runs:3")
	p("runs:8")
	p("drops:2")
	p("drops:8")
	if lsw {
		return
	}
	for _, k := range []int{2, 3, 10, 100} {
		if k < n {
			p("few:%d:1", k)
			p("saw:%d", k)
			p("rsaw:%d", k)
			p("blk:%d", k)
		}
	}
	p("const:1")
	p("log")
	p("one:%d:0", n/2)
	p("one:%d:2", n/2)
	return
}

// costLimit is how many element accesses sorting n elements may take. The sorts
// need between a third and a tenth of it for the arrangements above.
func costLimit(k *kit.Case, s kit.Subject) int64 {
	ins := k.Lens[0]
	if s.FC() {
		ins = k.Lens[1]
	}
	if ins == 0 {
		ins = 60
	}
	n := int64(k.N)
	return n * int64(8*bits.Len(uint(k.N))+2*ins)
}

// costMax is where a run stops, order check included.
func costMax(k *kit.Case, s kit.Subject) int64 { return costLimit(k, s) + 4*int64(k.N) + 100 }

func costBody(k *kit.Case, s kit.Subject, most *int64) func() {
	return func() {
		kit.Apply(k)
		s.Set(k.Keys)
		s.Sort()
		a := vrt.ElemAccesses()
		*most = max(*most, a)
		s.IsSorted()
		if b := vrt.ElemAccesses() - a; b > 4*int64(k.N) {
			vrt.Fail("cost: order check of %d elements made %d element accesses", k.N, b)
		}
	}
}

func (g *gen) costs(names []string) {
	type size struct {
		L  [4]int
		m  uint64
		ns []int
	}
	for _, name := range names {
		lsw := strings.HasPrefix(name, "LSW")
		var zs []size
		if vrt.Wide { // many goroutines
			zs = []size{{kit.Small, 3, []int{800, 1700}}, {kit.Small, 3, []int{3000}}, {kit.Small, 40, []int{800, 1700}}}
			if !g.q {
				zs = append(zs, size{kit.Small, 40, []int{3000}}, size{kit.Mid, 3, []int{9000}})
			}
		} else if !kit.Tunable {
			zs = []size{{m: 1, ns: []int{62, 100, 250, 400, 601, 1000, 1300, 3000, 10000}}, {m: 3, ns: []int{1202, 1300, 3000, 10000}}, {m: 1, ns: []int{40000}}}
			if !g.q {
				zs = append(zs, size{m: 4, ns: []int{40000}}, size{m: 1, ns: []int{150000}}, size{m: 3, ns: []int{150000}})
			}
		} else {
			step, top := 5, 260
			if !g.q {
				step, top = 1, 800
			}
			for _, m := range []uint64{1, 3} {
				for lo := 16; lo < top; lo += 60 {
					var ns []int
					for n := lo; n < lo+60; n += step {
						ns = append(ns, n)
					}
					zs = append(zs, size{kit.Small, m, ns})
				}
				zs = append(zs, size{kit.Mid, m, []int{50, 100, 200, 400, 600}})
				if m > 1 {
					continue
				}
				zs = append(zs, size{kit.Small, m, []int{800, 1700, 3000}}, size{kit.Small, m, []int{6000}}, size{kit.Small, m, []int{12000}}, size{kit.Mid, m, []int{4500}})
				if !g.q {
					zs = append(zs, size{kit.Small, m, []int{40000}})
				}
			}
		}
		vms := kit.New(name).VMaps()
		for _, z := range zs {
			z := z
			for vm := 0; vm < vms; vm++ {
				if vm > 0 && (z.ns[len(z.ns)-1] > 1300 || z.m > 1 && g.q || z.ns[0] == 62) || vm == 5 && name[0] == 'F' || vm == 3 && strings.HasPrefix(name, "Len") {
					continue
				}
				k := kit.Case{Op: "cost", Subj: name, NaN: large, Lens: z.L, MaxGor: z.m, VMap: vm}
				g.add(fmt.Sprintf("n%d", z.ns[0]), k, func(c *kit.Ctx, k kit.Case) {
					s := kit.New(k.Subj)
					for _, n := range z.ns {
						k.N, k.M = n, n
						s.Prepare(n, k.VMap)
						for _, k.Shape = range costShapes(n, lsw) {
							if c.Expired() {
								c.Incomplete = append(c.Incomplete, fmt.Sprintf("%s cost %d", name, n))
								return
							}
							k.Keys = kit.Shape(k.Shape, n, k.Keys)
							costOne(c, k, s)
						}
					}
				})
			}
		}
	}
}

func costOne(c *kit.Ctx, k kit.Case, s kit.Subject) {
	kk := k
	kk.Keys = nil
	c.Begin(&kk)
	c.Evals++
	var most int64
	opt := vrt.Options{Stop: c.Expired, Ignore: ignore(c.Prop), MaxSteps: horizon(k.N), MaxElems: costMax(&k, s)}
	var r *vrt.Result
	for p := 0; p < vrt.Policies; p++ { // default schedules
		if r = vrt.ExploreDev(opt, p, 0, costBody(&k, s, &most)); r.Failure != nil {
			break
		}
		account(c, r)
		if k.MaxGor < 2 || c.Quick() && p == 1 {
			break
		}
	}
	if most > int64(2*k.N) {
		c.Nontrivial++
	}
	if f := r.Failure; f != nil {
		kk.Sched = f.Schedule
		c.Fail(kk, fmt.Sprintf("%s [limit %d for %d elements, %s]", f.Msg, costLimit(&k, s), k.N, k.Shape))
	}
	key := fmt.Sprintf("accesses, percent of limit, n<%d", 1<<bits.Len(uint(k.N)))
	c.Peaks[key] = max(c.Peaks[key], 100*most/costLimit(&k, s))
	if c.Evals%509 == 1 {
		c.Sample(kk, fmt.Sprintf("%d element accesses", most))
	}
}
