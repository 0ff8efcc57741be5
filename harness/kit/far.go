//go:build go1.22

package kit

import (
	"fmt"
	"math"

	sorty "github.com/jfcg/sorty/v2"
	"github.com/jfcg/sorty/v2/vrt"
)

// FarLens are lengths that only collections without memory can have.
func FarLens() (l []int) {
	for e := 16; e < 64; e++ {
		for _, c := range []uint64{2, 3} {
			for d := -2; d <= 2; d++ {
				if n := c<<(e-1) + uint64(d); n <= math.MaxInt && c<<(e-1) != 0 {
					l = append(l, int(n))
				}
			}
		}
	}
	for d := 0; d < 9; d++ {
		l = append(l, math.MaxInt-d)
	}
	return
}

var FarModes = []string{"asc", "desc", "mix"}

var farCell = make([]byte, 1)

type enough struct{}

// Far makes the first calls of Sort or IsSorted on a collection of any length,
// whose elements are made when they are asked for. The lesswap function stops
// it by a panic.
func Far(k *Case, calls int) (msg string) {
	n := k.N
	at := map[int]int{}
	get := func(i int) int {
		if v, ok := at[i]; ok {
			return v
		}
		switch k.Shape {
		case "asc":
			return i
		case "desc":
			return -i
		}
		return int(mix(uint64(i)) >> 2)
	}
	iss := k.Extra == "issorted"
	lsw := func(i, j, r, s int) bool {
		if vrt.Active() {
			vrt.R(farCell, 0)
		}
		bad := ""
		if uint(i) >= uint(n) || uint(j) >= uint(n) || uint(r) >= uint(n) || uint(s) >= uint(n) {
			bad = fmt.Sprintf("protocol: lesswap(%d,%d,%d,%d) called for a collection of length %d", i, j, r, s, n)
		} else if iss && r != s {
			bad = fmt.Sprintf("readonly: IsSorted asked to swap %d and %d", r, s)
		}
		if bad != "" {
			if vrt.Active() {
				vrt.Fail("%s", bad)
			}
			panic(bad)
		}
		if calls--; calls < 0 {
			if vrt.Active() {
				vrt.Stop()
			}
			panic(enough{})
		}
		if get(i) >= get(j) {
			return false
		}
		if r != s {
			at[r], at[s] = get(s), get(r)
		}
		return true
	}
	Apply(k)
	if !vrt.Active() {
		defer func() {
			switch r := recover().(type) {
			case nil, enough:
			case string:
				msg = r
			default:
				msg = fmt.Sprint("panic: ", r)
			}
		}()
	}
	if iss {
		if r := sorty.IsSorted(n, lsw); uint(r) >= uint(n) {
			msg = fmt.Sprintf("answer: IsSorted returned %d for length %d", r, n)
		}
	} else {
		sorty.Sort(n, lsw)
	}
	return
}
