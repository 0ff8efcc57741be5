package vrt

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/metrics"
	"unsafe"
)

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

// last accesses of one memory word, for happens-before race detection
type cell struct {
	wt   int16 // writer thread, -1 none
	wa   bool  // last write was atomic
	wc   uint32
	n    int8
	r    [maxT]uint32 // plain reads
	name string
}

// a registered collection under test
type region struct {
	base, end uintptr
	esz       uintptr
	cells     []cell
	ptrs      uint64 // words of an element that hold pointers
	typ       reflect.Type
	lo, hi    uintptr
	name      string
	writes    int
}

var sink unsafe.Pointer
var never bool

var (
	gcTick  int
	gcLimit uint64 = 1 << 28
	gcProbe        = []metrics.Sample{{Name: "/gc/heap/live:bytes"}, {Name: "/memory/classes/heap/objects:bytes"}}
)

// gcNow collects garbage between executions when enough has piled up.
func gcNow() {
	if gcTick++; gcTick&15 != 0 {
		return
	}
	metrics.Read(gcProbe)
	if gcProbe[1].Value.Uint64() > gcProbe[0].Value.Uint64()+gcLimit {
		runtime.GC()
	}
}

// Register s as the collection under test in the current execution: only
// elements [lo,hi) may be accessed by the code under test.
func Register[T any](name string, s []T, lo, hi int) {
	if len(s) == 0 || ex == nil {
		return
	}
	esz := unsafe.Sizeof(s[0])
	if esz == 0 {
		return
	}
	b := uintptr(unsafe.Pointer(&s[0]))
	rg := region{base: b, end: b + esz*uintptr(len(s)), esz: esz, cells: make([]cell, len(s)), typ: reflect.TypeOf(s).Elem(),
		lo: b + esz*uintptr(lo), hi: b + esz*uintptr(hi), name: name}
	ptrWords(rg.typ, 0, &rg.ptrs)
	for i := range rg.cells {
		rg.cells[i].wt = -1
	}
	ex.regions = append(ex.regions, rg)
}

func (e *execution) cellOf(a uintptr) (*cell, *region) {
	for i := range e.regions {
		rg := &e.regions[i]
		if a >= rg.base && a < rg.end {
			return &rg.cells[(a-rg.base)/rg.esz], rg
		}
	}
	c := e.cells[a]
	if c == nil {
		c = &cell{wt: -1}
		e.cells[a] = c
	}
	return c, nil
}

func raceFail(what string, rg *region, a uintptr, other int) {
	name := fmt.Sprintf("shared variable")
	if rg != nil {
		name = fmt.Sprintf("%s[%d]", rg.name, (a-rg.base)/rg.esz)
	}
	cat := "race"
	if ex.returned {
		cat = "late"
	}
	Fail(cat+": %s by %s on %s is not ordered with an access by %s%s", what, cur.name, name, ex.threads[other].name, where())
}

func checkRead(a uintptr) {
	e, t := ex, cur
	c, rg := e.cellOf(a)
	if c.wt >= 0 && int(c.wt) != t.id && !c.wa && c.wc > t.vc[c.wt] && !e.tolerate[a] && !e.lost {
		raceFail("read", rg, a, int(c.wt))
	}
	c.r[t.slot] = t.vc[t.slot]
	if rg != nil && (a < rg.lo || a >= rg.hi) && !t.isEnv && !harness {
		Fail("outside: read outside the collection: %s[%d]%s", rg.name, int(a-rg.base)/int(rg.esz), where())
	}
}

func checkWrite(a uintptr, atomic bool) {
	e, t := ex, cur
	c, rg := e.cellOf(a)
	if !e.tolerate[a] && !e.lost {
		if c.wt >= 0 && int(c.wt) != t.id && !(c.wa && atomic) && c.wc > t.vc[c.wt] {
			raceFail("write", rg, a, int(c.wt))
		}
		if !atomic { // plain read against atomic write is tolerated
			for i, n := 0, len(e.threads); i < n; i++ {
				if i != t.id && c.r[i] > t.vc[i] {
					raceFail("write", rg, a, i)
				}
			}
		}
	}
	c.wt, c.wc, c.wa = int16(t.slot), t.vc[t.slot], atomic
	if rg != nil {
		rg.writes++
		if (a < rg.lo || a >= rg.hi) && !harness {
			Fail("outside: write outside the collection: %s[%d]%s", rg.name, int(a-rg.base)/int(rg.esz), where())
		}
	}
}

var harness bool

// Harness marks accesses in f as made by the harness itself.
func Harness(f func()) {
	harness = true
	defer func() { harness = false }()
	f()
}

func budget() {
	e := ex
	e.elems++
	cur.worked()
	if m := e.opt.MaxElems; m > 0 && e.elems > m && !e.abort {
		Fail("term: more than %d element accesses%s", m, where())
	}
}

func elemAccess(p unsafe.Pointer, write bool) {
	if never {
		sink = p // p must live in the heap, so that its address is unique
	}
	budget()
	if write {
		checkWrite(uintptr(p), false)
	} else {
		checkRead(uintptr(p))
	}
}

// ptrWords marks the words of t that hold pointers.
func ptrWords(t reflect.Type, at uintptr, m *uint64) {
	w := unsafe.Sizeof(at)
	switch t.Kind() {
	case reflect.Pointer, reflect.UnsafePointer, reflect.Map, reflect.Chan, reflect.Func, reflect.String, reflect.Slice:
		*m |= 1 << (at / w)
	case reflect.Interface:
		*m |= 3 << (at / w)
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			ptrWords(t.Elem(), at+uintptr(i)*t.Elem().Size(), m)
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			ptrWords(t.Field(i).Type, at+t.Field(i).Offset, m)
		}
	}
}

// ptrMove: a store to a slot of a registered collection must store pointers
// as pointers where the element type has them.
func ptrMove[T any](p *T) {
	a := uintptr(unsafe.Pointer(p))
	for i := range ex.regions {
		rg := &ex.regions[i]
		if rg.ptrs == 0 || a < rg.base || a >= rg.end {
			continue
		}
		t := reflect.TypeOf(p).Elem()
		if t == rg.typ || t.Size() == 0 {
			continue
		}
		var m uint64
		ptrWords(t, 0, &m)
		w := unsafe.Sizeof(a)
		for o := uintptr(0); o < t.Size(); o += w {
			at := (a + o - rg.base) % rg.esz / w
			if rg.ptrs>>at&1 == 1 && m>>(o/w)&1 == 0 {
				Fail("gcptr: pointer in %s[%d] written as %v: invisible to the garbage collector%s",
					rg.name, (a-rg.base)/rg.esz, t, where())
			}
		}
	}
}

// R reads element i of s.
func R[S ~[]E, E any, I integer](s S, i I) E {
	if cur != nil {
		p := &s[i]
		elemAccess(unsafe.Pointer(p), false)
		return *p
	}
	return s[i]
}

// W returns the address of element i of s for writing.
func W[S ~[]E, E any, I integer](s S, i I) *E {
	p := &s[i]
	if cur != nil {
		elemAccess(unsafe.Pointer(p), true)
		ptrMove(p)
	}
	return p
}

// RW is for s[i] op= x.
func RW[S ~[]E, E any, I integer](s S, i I) *E {
	p := &s[i]
	if cur != nil {
		elemAccess(unsafe.Pointer(p), false)
		elemAccess(unsafe.Pointer(p), true)
		ptrMove(p)
	}
	return p
}

// RdE reads an addressable array element or field without scheduling point.
func RdE[T any](p *T) T {
	if cur != nil {
		elemAccess(unsafe.Pointer(p), false)
	}
	return *p
}

// WrE returns p for writing, without scheduling point.
func WrE[T any](p *T) *T {
	if cur != nil {
		elemAccess(unsafe.Pointer(p), true)
		ptrMove(p)
	}
	return p
}

func varPoint(name string, p unsafe.Pointer, k opKind) {
	if never {
		sink = p
	}
	point(mkop(name, uintptr(p), k))
}

// Rd reads a shared variable.
func Rd[T any](p *T) T {
	if cur != nil && p != nil {
		varPoint("rd", unsafe.Pointer(p), kRead)
		if ex.watch == uintptr(unsafe.Pointer(p)) {
			v, _ := any(*p).(uint64)
			cur.sawQuota(v)
		}
		if unsafe.Sizeof(*p) > 0 {
			checkRead(uintptr(unsafe.Pointer(p)))
		}
	}
	return *p
}

// Wr returns p for writing a shared variable.
func Wr[T any](p *T) *T {
	if cur != nil && p != nil {
		varPoint("wr", unsafe.Pointer(p), kWrite)
		if unsafe.Sizeof(*p) > 0 {
			checkWrite(uintptr(unsafe.Pointer(p)), false)
		}
		ptrMove(p)
	}
	return p
}

// St stores v after it is computed.
func St[T any](p *T, v T) { *Wr(p) = v }

// Copy is the instrumented builtin copy.
func Copy[S ~[]E, D ~[]E, E any](dst D, src S) int {
	n := min(len(dst), len(src))
	if cur != nil {
		for i := 0; i < n; i++ {
			elemAccess(unsafe.Pointer(&src[i]), false)
		}
		for i := 0; i < n; i++ {
			elemAccess(unsafe.Pointer(&dst[i]), true)
			ptrMove(&dst[i])
		}
	}
	return copy(dst, src)
}

// Tolerate exempts a documented racy variable from race reports.
func Tolerate[T any](p *T) { ex.tolerate[uintptr(unsafe.Pointer(p))] = true }

// EnvStore is a store by the environment (a user goroutine) to a variable
// that may be changed live.
func EnvStore[T any](p *T, v T) {
	if cur != nil {
		point(mkop("env-wr", uintptr(unsafe.Pointer(p)), kWrite))
	}
	*p = v
}

// RegionWrites counts writes to the registered regions.
func RegionWrites() (n int) {
	for i := range ex.regions {
		n += ex.regions[i].writes
	}
	return
}

// RangeNext drives an instrumented range over a slice.
func RangeNext(i int, n *int, l int) bool {
	if *n < 0 {
		*n = l
	}
	return i < *n
}

// SleepHint replaces time.Sleep.
func SleepHint[T any](d T) { Gosched() }
