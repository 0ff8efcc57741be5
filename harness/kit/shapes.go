//go:build go1.22

package kit

import (
	"math/bits"
	"strconv"
	"strings"
)

// Shape writes a deterministic family member into keys (all keys in [0,len]).
// Specs: name or name:param[:param...].
func Shape(spec string, n int, keys []int) []int {
	f := strings.Split(spec, ":")
	arg := func(i, def int) int {
		if i < len(f) {
			v, _ := strconv.Atoi(f[i])
			return v
		}
		return def
	}
	p := arg(1, 0)
	keys = keys[:0]
	add := func(k int) { keys = append(keys, min(k, n)) }
	for i := 0; i < n; i++ {
		switch f[0] {
		case "asc":
			add(i)
		case "desc":
			add(n - 1 - i)
		case "descent": // between p-1 and p only
			switch i {
			case p - 1:
				add(p)
			case p:
				add(p - 1)
			default:
				add(i)
			}
		case "const":
			add(p)
		case "mod":
			add(int(uint64(i) * uint64(p) % uint64(n)))
		case "saw":
			add(i % p)
		case "rsaw":
			add((n - 1 - i) % p)
		case "blk": // blocks of p equal keys descending
			add((n - 1 - i) / p)
		case "pipe":
			add(min(i, n-1-i))
		case "rpipe":
			add(n - 1 - min(i, n-1-i))
		case "rot":
			add((i + p) % n)
		case "zip":
			if i&1 == 0 {
				add(i)
			} else {
				add(n - i)
			}
		case "hi": // ascending with the maximum at p
			if i == p {
				add(n)
			} else {
				add(i)
			}
		case "lo": // ascending with a minimum at p
			if i == p {
				add(0)
			} else {
				add(i + 1)
			}
		case "one": // constant except position p, low(0)/high(2)
			if i == p {
				add(arg(2, 0))
			} else {
				add(1)
			}
		case "log":
			add(bits.Len(uint(i)))
		case "bitrev":
			w := bits.Len(uint(n - 1))
			if n == 1 {
				w = 0
			}
			add(int(bits.Reverse64(uint64(i)) >> uint(64-w) % uint64(n)))
		case "lcg": // permutation-like scramble
			add(int(mix(uint64(i)*2+uint64(p)*0x9e3779b97f4a7c15+1) % uint64(n+1)))
		case "few": // scramble over p keys
			add(int(mix(uint64(i)*31+uint64(arg(2, 1))) % uint64(p)))
		case "quart": // p = base-100 counts of low keys in the four quarters
			q := i * 4 / n
			start := (q*n + 3) / 4
			c := arg(1+q, 0)
			if arg(5, 0) == 1 { // lows at the end of the quarter
				end := ((q+1)*n + 3) / 4
				if end-i <= c {
					add(0)
				} else {
					add(1)
				}
			} else if i-start < c {
				add(0)
			} else {
				add(1)
			}
		case "runs": // p ascending runs one after another
			add(i%((n+p-1)/p)*p + i/((n+p-1)/p))
		case "drops": // p descending runs
			add(max(0, n-1-i%((n+p-1)/p)*p-i/((n+p-1)/p)))
		case "swaps": // ascending but for p exchanged pairs, see below
			add(i)
		case "split": // first p positions high descending, others low descending
			if i < p {
				add(n - i)
			} else {
				add(n - i - 1)
			}
		default:
			panic("unknown shape " + spec)
		}
	}
	if f[0] == "swaps" {
		for i := 0; i < p && n > 1; i++ {
			x := mix(uint64(i)*7 + uint64(arg(2, 1))*1001)
			a, b := int(x>>33)%n, int(x&0xffffffff)%n
			keys[a], keys[b] = keys[b], keys[a]
		}
	}
	return keys
}

// Shapes is the standard list for length n.
func Shapes(n int) (l []string) {
	l = append(l, "asc", "desc", "const:0", "const:1", "pipe", "rpipe", "zip", "log", "bitrev")
	for _, p := range []int{3, 7, 11, 29} {
		l = append(l, "mod:"+strconv.Itoa(p))
	}
	for _, p := range []int{2, 3, 4, 5, 8} {
		l = append(l, "saw:"+strconv.Itoa(p), "rsaw:"+strconv.Itoa(p))
	}
	for _, p := range []int{2, 7} {
		l = append(l, "blk:"+strconv.Itoa(p))
	}
	for _, p := range []int{1, n / 4, n / 2, 3 * n / 4, n - 1} {
		if p > 0 && p < n {
			l = append(l, "rot:"+strconv.Itoa(p))
		}
	}
	for _, p := range []int{0, n / 2, n - 1} {
		q := strconv.Itoa(p)
		l = append(l, "hi:"+q, "lo:"+q, "one:"+q+":0", "one:"+q+":2")
	}
	for p := 1; p <= 4; p++ {
		l = append(l, "lcg:"+strconv.Itoa(p))
	}
	l = append(l, "few:2:1", "few:3:1", "few:5:2", "few:20:3")
	return
}
