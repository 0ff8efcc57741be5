//go:build go1.22

// Package kit holds the collections under test, their reference checks and the
// input families shared by the harnesses. It uses only sorty's public API.
package kit

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"syscall"
	"unsafe"

	sorty "github.com/jfcg/sorty/v2"
	"github.com/jfcg/sorty/v2/vrt"
)

// Subject is one collection inside guard zones. It is filled from small integer
// keys, mapped monotonically to values of the element type.
type Subject interface {
	Name() string
	FC() bool // governed by the MaxLen*FC parameters
	Len() int
	Prepare(m, vmap int) // value table for keys 0..m
	Set(keys []int)      // fill from keys (Prepare came before)
	Sort()               // call the API
	IsSorted() int       // call the API
	Check() string       // "" if result is the sorted permutation of the input
	Content() string     // "" if only the order of elements differs from after Set
	Untouched() string   // "" if content is exactly as after Set
	RefSorted() bool     // reference: is content in order
	PairBad(i int) bool  // reference: i>0 is a legal answer of IsSorted*
	Dump() string
	Register() // race detector and confinement monitor
	TouchAll() // the caller uses the result
	VMaps() int
}

const guard = 4

type typed[T any] struct {
	name  string
	fc    bool
	bylen bool
	vmaps int
	val   func(k, m, vmap, variant int) T
	less  func(a, b T) bool
	badp  func(pre, cur T) bool // legal answer pair, default less(cur,pre)
	id    func(a T) uint64      // bit identity
	gval  func() T
	tab   [2][]T
	m, vm int
	buf   []T
	all   []T // with guard zones
	s     []T
	sum   uint64
	org   []T
}

func mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

func (t *typed[T]) Name() string { return t.name }
func (t *typed[T]) FC() bool     { return t.fc }
func (t *typed[T]) Len() int     { return len(t.s) }
func (t *typed[T]) VMaps() int   { return t.vmaps }

func (t *typed[T]) Prepare(m, vmap int) {
	if t.tab[0] != nil && t.m == m && t.vm == vmap {
		return
	}
	t.m, t.vm = m, vmap
	for v := range t.tab {
		t.tab[v] = make([]T, m+1)
		for k := range t.tab[v] {
			t.tab[v][k] = t.val(k, m, vmap, v)
		}
	}
}

func (t *typed[T]) fill(n int) {
	w := n + 2*guard
	if len(t.buf) < w {
		t.buf = make([]T, w+w/2)
		t.org = make([]T, w+w/2)
	}
	t.all, t.org = t.buf[:w:w], t.org[:w]
	g := t.gval()
	for i := 0; i < guard; i++ {
		t.all[i], t.all[n+guard+i] = g, g
	}
	// the spare capacity behind the slice is part of the guard zone
	t.s = t.all[guard : guard+n]
}

func (t *typed[T]) Set(keys []int) {
	t.fill(len(keys))
	for i, k := range keys {
		t.s[i] = t.tab[i&1][k]
	}
	t.seal()
}

func (t *typed[T]) seal() {
	copy(t.org, t.all)
	t.sum = 0
	for _, x := range t.s {
		t.sum += mix(t.id(x) + 1)
	}
}

func (t *typed[T]) Sort() {
	if t.bylen {
		sorty.SortLen(t.s)
	} else {
		sorty.SortSlice(t.s)
	}
}

func (t *typed[T]) IsSorted() int {
	if t.bylen {
		return sorty.IsSortedLen(t.s)
	}
	return sorty.IsSortedSlice(t.s)
}

func (t *typed[T]) RefSorted() bool {
	for i := 1; i < len(t.s); i++ {
		if t.less(t.s[i], t.s[i-1]) {
			return false
		}
	}
	return true
}

func (t *typed[T]) PairBad(i int) bool {
	if i <= 0 || i >= len(t.s) {
		return false
	}
	if t.badp != nil && t.badp(t.s[i-1], t.s[i]) {
		return true
	}
	return t.less(t.s[i], t.s[i-1])
}

func (t *typed[T]) Check() string {
	for i := 1; i < len(t.s); i++ {
		if t.less(t.s[i], t.s[i-1]) {
			return fmt.Sprintf("unsorted: element %d of %d is less than its predecessor", i, len(t.s))
		}
	}
	return t.Content()
}

func (t *typed[T]) Content() string {
	sum := uint64(0)
	for _, x := range t.s {
		sum += mix(t.id(x) + 1)
	}
	if sum != t.sum {
		return fmt.Sprintf("content: the %d elements are not a permutation of the input", len(t.s))
	}
	return t.guards()
}

func (t *typed[T]) guards() string {
	n := len(t.s)
	for i := 0; i < guard; i++ {
		if t.id(t.all[i]) != t.id(t.org[i]) || t.id(t.all[n+guard+i]) != t.id(t.org[n+guard+i]) {
			return "outside: memory outside the slice was modified"
		}
	}
	return ""
}

func (t *typed[T]) Untouched() string {
	for i := range t.all {
		if t.id(t.all[i]) != t.id(t.org[i]) {
			return fmt.Sprintf("modified: element %d was modified", i-guard)
		}
	}
	return ""
}

func (t *typed[T]) Dump() string {
	s := t.s[:min(len(t.s), 64)]
	if t.bylen {
		l := make([]int, len(s))
		for i := range s {
			l[i] = reflect.ValueOf(s[i]).Len()
		}
		return clip(fmt.Sprintf("lengths %v", l))
	}
	return clip(fmt.Sprintf("%v", s))
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

func (t *typed[T]) Register() {
	vrt.Register(t.name, t.all, guard, guard+len(t.s))
}

func (t *typed[T]) TouchAll() {
	vrt.Harness(func() {
		for i := range t.all {
			vrt.RW(t.all, i)
		}
	})
}

type number interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~int | ~uint | ~uintptr
}

// Value maps of integers: 0 extremes outside, small values around the centre;
// 1 spread over the whole range; 2 ascending from the minimum; 3 up to the
// maximum; 4 geometric (mean of two neighbours is far from both).
func num[T number](name string, lo, hi T) *typed[T] {
	return &typed[T]{name: name, vmaps: 5,
		val: func(k, m, vmap, variant int) T {
			if m == 0 {
				return lo
			}
			mid := lo/2 + hi/2 + 1
			switch vmap {
			case 0:
				if k == 0 {
					return lo
				}
				if k == m {
					return hi
				}
				return mid + T(k) - T(m/2)
			case 1:
				step := (hi/T(2) - lo/T(2)) / T(m) // half range per step, doubled below
				return lo + T(k)*step + T(k)*step
			case 2:
				return lo + T(k)
			case 3:
				return hi - T(m-k)
			default:
				// k-th of m+1 values; exponents spread over the width
				w := int(unsafe.Sizeof(lo))*8 - 2
				if m < w {
					return lo + T(uint64(1)<<uint(k*w/m)) - 1
				}
				return mid + T(k)
			}
		},
		less: func(a, b T) bool { return a < b },
		id:   func(a T) uint64 { return uint64(a) },
		gval: func() T { return T(7) },
	}
}

type real interface{ ~float32 | ~float64 }

var inf = math.Inf(1)

// ordered float64 alphabet
func floatVal(k, m, vmap int, small bool) float64 {
	max, tiny := math.MaxFloat64, 5e-324
	if small {
		max, tiny = math.MaxFloat32, math.SmallestNonzeroFloat32
	}
	switch vmap {
	case 0:
		if k == 0 {
			return -inf
		}
		if k == m {
			return inf
		}
		return float64(k - m/2)
	case 1: // negative to positive finite
		if m == 0 {
			return 0
		}
		return -max + float64(k)*(max/float64(m)) + float64(k)*(max/float64(m))
	case 2: // denormals around zero
		return float64(k-m/2) * tiny
	case 3: // geometric
		if small {
			return math.Ldexp(1, k%120)*float64(1+k/120) - 1
		}
		return math.Ldexp(1, k%1000)*float64(1+k/1000) - 1
	default: // plain
		return float64(k) + .5
	}
}

func keyString(k, m, vmap int) string {
	switch vmap {
	case 0: // long common prefix, then the key
		if k == 0 {
			return ""
		}
		return "\x00common prefix of all\xff" + string([]byte{byte(k >> 16), byte(k >> 8), byte(k)})
	case 1: // prefixes of each other
		if m < 64 {
			return string(make([]byte, k))
		}
		return string([]byte{byte(k >> 16), byte(k >> 8), byte(k)})
	case 2: // bytes above 127, zero bytes and invalid UTF-8
		return string([]byte{byte(k >> 15 & 0xff), byte(k>>8&0x7f) << 1, byte(k), 0xff, 0})
	case 3: // the smaller the longer
		w := (m - k) % 23
		return string([]byte{byte(k >> 16), byte(k >> 8), byte(k)}) + "longer than the pivots"[:w]
	case 5: // the first difference is here and there, the bytes after it say the opposite
		return spread(k, m, []int{3, 7, 8, 9, 15, 16, 23, 24, 31, 32, 33, 40})
	case 6: // far back
		return spread(k, m, []int{63, 64, 255, 256, 257, 300, 301})
	default: // short fixed
		if m < 256 {
			return string([]byte{byte(255 - m + k)})
		}
		return string([]byte{byte(k >> 16), byte(k >> 8), byte(k)})
	}
}

// spread places the bits of k, highest first, at the given positions. The rest
// is filled such that it has the opposite order of what precedes, and lengths do
// not follow the order.
func spread(k, m int, at []int) string {
	nb := 1
	for m>>nb > 0 {
		nb++
	}
	var b []byte
	fill := byte('m')
	for i := 0; i < nb; i++ {
		p := i
		if i < len(at) {
			p = at[i]
		} else {
			p = at[len(at)-1] + i
		}
		for len(b) < p {
			b = append(b, fill)
		}
		bit := k >> (nb - 1 - i) & 1
		b = append(b, byte(100+bit))
		fill = byte(255 * (1 - bit))
	}
	for i := k * 7 % 11; i > 0; i-- {
		b = append(b, fill)
	}
	return string(b)
}

// memory that is only reserved: for lengths beyond 32 bits
var huge = func() []byte {
	for e := 38; e > 33 && math.MaxInt>>e > 0; e-- {
		b, err := syscall.Mmap(-1, 0, 1<<e, syscall.PROT_READ, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
		if err == nil {
			return b
		}
	}
	return nil
}()

// hugeLen ascends in k, with lower halves that descend where that is possible
func hugeLen(k, m int) int {
	j := k - m/2 - 1
	if j < 0 {
		return k
	}
	base := math.MaxInt32 - 1
	all := uint32(math.MaxUint32)
	step := min(int(all), (len(huge)-base)/(m-m/2+1))
	return base + j*step
}

func sid(p unsafe.Pointer, l, c int) uint64 {
	return mix(uint64(uintptr(p))) ^ uint64(l)<<32 ^ uint64(c)
}

// Rec is a lesswap record: Key is compared, ID identifies the element.
type Rec struct{ Key, ID int32 }

// Lsw is a collection sorted by a Lesswap function.
type Lsw struct {
	typed[Rec]
	Mode     string // "", "desc", "coarse"
	Calls    int64
	Limit    int64
	Swaps    int64
	Proto    string
	Returned bool
	ReadOnly bool
}

func (l *Lsw) rless(a, b Rec) bool {
	switch l.Mode {
	case "desc":
		return a.Key > b.Key
	case "coarse":
		return a.Key>>1 < b.Key>>1
	}
	return a.Key < b.Key
}

func (l *Lsw) bad(format string, a ...any) {
	m := fmt.Sprintf(format, a...)
	if l.Proto == "" {
		l.Proto = m
	}
	if vrt.Active() {
		vrt.Fail("%s", m)
	}
	panic(m)
}

func (l *Lsw) lsw(i, k, r, s int) bool {
	l.Calls++
	n := len(l.s)
	if uint(i) >= uint(n) || uint(k) >= uint(n) || uint(r) >= uint(n) || uint(s) >= uint(n) {
		l.bad("protocol: lesswap(%d,%d,%d,%d) called for a collection of length %d", i, k, r, s, n)
	}
	if l.Returned {
		l.bad("late: lesswap called after Sort returned")
	}
	if l.Limit > 0 && l.Calls > l.Limit {
		l.bad("term: more than %d lesswap calls for %d elements", l.Limit, n)
	}
	if vrt.Active() {
		if l.rless(vrt.R(l.s, i), vrt.R(l.s, k)) {
			if r != s {
				l.Swaps++
				if l.ReadOnly {
					l.bad("readonly: IsSorted asked to swap %d and %d", r, s)
				}
				x, y := vrt.R(l.s, r), vrt.R(l.s, s)
				*vrt.W(l.s, r), *vrt.W(l.s, s) = y, x
			}
			return true
		}
		return false
	}
	if l.rless(l.s[i], l.s[k]) {
		if r != s {
			if l.ReadOnly {
				l.bad("readonly: IsSorted asked to swap %d and %d", r, s)
			}
			l.Swaps++
			l.s[r], l.s[s] = l.s[s], l.s[r]
		}
		return true
	}
	return false
}

func (l *Lsw) Set(keys []int) {
	l.fill(len(keys))
	for i, k := range keys {
		if l.Mode == "desc" {
			k = l.m - k
		}
		l.s[i] = Rec{int32(k), int32(i)}
	}
	l.seal()
	l.Calls, l.Swaps, l.Proto, l.Returned = 0, 0, "", false
}

func (l *Lsw) Prepare(m, vmap int) { l.m = m }

func (l *Lsw) Sort() {
	l.Returned, l.ReadOnly = false, false
	sorty.Sort(len(l.s), l.lsw)
	l.Returned = true
}

func (l *Lsw) IsSorted() int {
	l.Returned, l.ReadOnly = false, true
	r := sorty.IsSorted(len(l.s), l.lsw)
	l.Returned = !vrt.Active() // several readers may be at work
	return r
}

type PT struct{ X, Y int64 }

var ptPool [1<<20 + 64]PT

func nan64(v int) float64 {
	return math.Float64frombits([...]uint64{0x7ff8000000000001, 0xfff0000000000123, 0x7ff000000000dead, 0xffffffffffffffff}[v&3])
}
func nan32(v int) float32 {
	return math.Float32frombits([...]uint32{0x7fc00001, 0xff800123, 0x7f80dead, 0xffffffff}[v&3])
}

func fless[T real](a, b T) bool {
	an, bn := a != a, b != b
	switch sorty.NaNoption {
	case sorty.NaNlarge:
		return a < b || !an && bn
	case sorty.NaNsmall:
		return a < b || an && !bn
	}
	return a < b
}

func fbad[T real](pre, cur T) bool { return pre != pre || cur != cur }

// New returns a subject by name.
func New(name string) Subject {
	switch name {
	case "I4":
		return num[int32](name, math.MinInt32, math.MaxInt32)
	case "I8":
		return num[int64](name, math.MinInt64, math.MaxInt64)
	case "U4":
		return num[uint32](name, 0, math.MaxUint32)
	case "U8":
		return num[uint64](name, 0, math.MaxUint64)
	case "INT":
		return num[int](name, math.MinInt, math.MaxInt)
	case "UINT":
		return num[uint](name, 0, math.MaxUint)
	case "UPTR":
		return num[uintptr](name, 0, ^uintptr(0))
	case "F4":
		// vmap 5: keys 0,1 are NaNs, then -Inf, ..., -0/+0, ..., +Inf
		return &typed[float32]{name: name, vmaps: 6, badp: fbad[float32],
			val: func(k, m, vmap, variant int) float32 {
				if vmap == 5 {
					if k < 2 {
						return nan32(2*k + variant)
					}
					return float32(nanAlpha(k, m, variant))
				}
				return float32(floatVal(k, m, vmap, true))
			},
			less: fless[float32], id: func(a float32) uint64 { return uint64(math.Float32bits(a)) },
			gval: func() float32 { return 7 }}
	case "F8":
		return &typed[float64]{name: name, vmaps: 6, badp: fbad[float64],
			val: func(k, m, vmap, variant int) float64 {
				if vmap == 5 {
					if k < 2 {
						return nan64(2*k + variant)
					}
					return nanAlpha(k, m, variant)
				}
				return floatVal(k, m, vmap, false)
			},
			less: fless[float64], id: func(a float64) uint64 { return math.Float64bits(a) },
			gval: func() float64 { return 7 }}
	case "S":
		return &typed[string]{name: name, fc: true, vmaps: 7,
			val:  func(k, m, vmap, v int) string { return string([]byte(keyString(k, m, vmap))) },
			less: func(a, b string) bool { return a < b }, id: sID, gval: func() string { return "guard" }}
	case "B":
		return &typed[[]byte]{name: name, fc: true, vmaps: 7,
			val: func(k, m, vmap, v int) []byte {
				b := []byte(keyString(k, m, vmap) + "spare")
				if k == 0 && v == 1 {
					if len(b) == 5 {
						return nil
					}
				}
				return b[: len(b)-5 : len(b)-5+2*v]
			},
			less: func(a, b []byte) bool { return string(a) < string(b) }, id: idBytes, gval: func() []byte { return gB }}
	case "LenS":
		vmaps := 3
		if huge != nil {
			vmaps = 4
		}
		return &typed[string]{name: name, bylen: true, vmaps: vmaps,
			val: func(k, m, vmap, v int) string {
				if vmap == 3 {
					return unsafe.String(&huge[v*3], hugeLen(k, m))
				}
				n := lenVal(k, m, vmap)
				if len(bigS) < n+4 {
					bigS = string(make([]byte, 2*n+4))
				}
				return bigS[v*3%max(1, n) : v*3%max(1, n)+n]
			},
			less: func(a, b string) bool { return len(a) < len(b) }, id: sID, gval: func() string { return "guard" }}
	case "LenB": // [][]int16
		return lenB[int16](name)
	case "LenZ": // [][]struct{}
		return lenB[struct{}](name)
	case "LenP": // [][]*PT
		return lenB[*PT](name)
	case "LenBy": // [][]byte
		return lenB[byte](name)
	case "PTR":
		return &typed[*PT]{name: name, vmaps: 1,
			val:  func(k, m, vmap, v int) *PT { return ptAt(k, m) },
			less: func(a, b *PT) bool { return uintptr(unsafe.Pointer(a)) < uintptr(unsafe.Pointer(b)) },
			id:   func(a *PT) uint64 { return uint64(uintptr(unsafe.Pointer(a))) }, gval: func() *PT { return &ptPool[40] }}
	case "UNSAFEPTR":
		return &typed[unsafe.Pointer]{name: name, vmaps: 1,
			val:  func(k, m, vmap, v int) unsafe.Pointer { return unsafe.Pointer(ptAt(k, m)) },
			less: func(a, b unsafe.Pointer) bool { return uintptr(a) < uintptr(b) },
			id:   func(a unsafe.Pointer) uint64 { return uint64(uintptr(a)) }, gval: func() unsafe.Pointer { return unsafe.Pointer(&ptPool[40]) }}
	case "LSW", "LSWdesc", "LSWcoarse":
		l := &Lsw{Mode: name[3:]}
		l.typed = typed[Rec]{name: name, fc: true, vmaps: 1,
			less: l.rless,
			id:   func(a Rec) uint64 { return uint64(uint32(a.Key))<<32 | uint64(uint32(a.ID)) },
			gval: func() Rec { return Rec{-1, -1} }}
		return l
	}
	if strings.HasPrefix(name, "NEST+") {
		return newNested(name)
	}
	if strings.HasPrefix(name, "ERR") {
		return newFaulty(name)
	}
	panic("unknown subject " + name)
}

func ptAt(k, m int) *PT {
	if k == 0 && m > 0 {
		return nil
	}
	return &ptPool[k]
}

// -Inf, -max, ..., -0/+0, ..., +Inf over keys 2..m
func nanAlpha(k, m, variant int) float64 {
	k, m = k-2, m-2
	if k <= 0 {
		return -inf
	}
	if k >= m {
		return inf
	}
	v := k - m/2
	if v == 0 && variant == 1 {
		return math.Copysign(0, -1)
	}
	return float64(v)
}

var bigS = string(make([]byte, 64))

func lenVal(k, m, vmap int) int {
	switch vmap {
	case 1:
		if m < 64 {
			return k * 37
		}
		return k + 1
	case 2: // length 0, huge length at the end
		if k == m && m > 0 {
			return 100000 + m
		}
		return k
	}
	return k
}

func sID(a string) uint64 { return sid(unsafe.Pointer(unsafe.StringData(a)), len(a), 0) }

var gB = []byte("guard")

func lenB[T any](name string) *typed[[]T] {
	var big []T
	vmaps := 3
	var el T
	if unsafe.Sizeof(el) == 0 {
		vmaps = 4
	}
	return &typed[[]T]{name: name, bylen: true, vmaps: vmaps,
		val: func(k, m, vmap, v int) []T {
			n := lenVal(k, m, vmap)
			if vmap == 3 && k > 0 { // lengths no memory has: beyond 32 bits where int is
				return make([]T, math.MaxInt/2-(math.MaxInt/4/m)*(m-k))
			}
			if len(big) < n+2 {
				big = make([]T, 2*n+2)
			}
			if n == 0 && v == 1 {
				return nil
			}
			return big[v : v+n : v+n+v]
		},
		less: func(a, b []T) bool { return len(a) < len(b) }, id: idB[T],
		gval: func() []T { return nil }}
}

// idBytes covers the bytes as well: sorting moves slices, not their contents.
func idBytes(b []byte) uint64 {
	h := idB(b)
	for _, x := range b[:cap(b)] {
		h = h*0x9e3779b97f4a7c15 + uint64(x)
	}
	return h
}

func idB[T any](b []T) uint64 { return sid(unsafe.Pointer(unsafe.SliceData(b)), len(b), cap(b)) }
