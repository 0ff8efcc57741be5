//go:build go1.22

package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"unsafe"

	sorty "github.com/jfcg/sorty/v2"
	"github.com/jfcg/sorty/v2/vh/kit"
)

// element and slice types of every kind, named and unnamed
type (
	nInt    int
	nI32    int32
	nI64    int64
	nUint   uint
	nU32    uint32
	nU64    uint64
	nUptr   uintptr
	nF32    float32
	nF64    float64
	nStr    string
	nByte   byte
	nBytes  []byte
	nNBytes []nByte
	nIP     *int
	nUP     unsafe.Pointer
	nInts   []int
	nStrs   []string
	nBss    [][]byte
	nNInts  []nInt
	nErr    struct{ error }
	alias   = []int64
	kind8   uint8
	nBool   bool
	node    struct {
		next *node
		v    [3]string
	}
)

type entry struct {
	name string
	run  func() string
}

func attempt(f func()) (p any, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			p, panicked = r, true
		}
	}()
	f()
	return
}

type api struct {
	name string
	sort func(any)
	iss  func(any) int
}

var slcAPI = api{"Slice", sorty.SortSlice, sorty.IsSortedSlice}
var lenAPI = api{"Len", sorty.SortLen, sorty.IsSortedLen}

// good: S is a documented type; asc lists values in strictly ascending order
func good[S ~[]E, E any](a api, name string, asc []E) entry {
	return entry{"ok/" + a.name + "/" + name, func() string {
		same := func(x, y []E) bool {
			for i := range x {
				if !bitsEq(&x[i], &y[i]) {
					return false
				}
			}
			return true
		}
		for _, n := range []int{0, 1, 2, 3, 4, 5} {
			if n > len(asc) {
				continue
			}
			for _, p := range perms(n) {
				s := make(S, n)
				for i, j := range p {
					s[i] = asc[j]
				}
				in := append(S(nil), s...)
				id := true
				for i, j := range p {
					id = id && i == j
				}
				var r int
				if v, bad := attempt(func() { r = a.iss(s) }); bad {
					return fmt.Sprintf("IsSorted%s(%T) panics: %v", a.name, s, v)
				}
				if id != (r == 0) {
					return fmt.Sprintf("IsSorted%s(%T of %v) = %d", a.name, s, p, r)
				}
				if r != 0 && (r < 0 || r >= n || p[r] > p[r-1]) {
					return fmt.Sprintf("IsSorted%s(%T of %v) = %d", a.name, s, p, r)
				}
				if !same(s, in) {
					return fmt.Sprintf("IsSorted%s(%T) modifies its argument", a.name, s)
				}
				if v, bad := attempt(func() { a.sort(s) }); bad {
					return fmt.Sprintf("Sort%s(%T) panics: %v", a.name, s, v)
				}
				if !same(s, asc[:n]) {
					return fmt.Sprintf("Sort%s(%T) does not sort order %v", a.name, s, p)
				}
			}
		}
		// a long one
		long := make(S, 200)
		for i := range long {
			long[i] = asc[(i*7+3)%len(asc)]
		}
		if v, bad := attempt(func() { a.sort(long) }); bad {
			return fmt.Sprintf("Sort%s(%T of 200) panics: %v", a.name, long, v)
		}
		for i, at := 1, 0; i < len(long); i++ {
			for at < len(asc) && !bitsEq(&long[i], &asc[at]) {
				at++
			}
			if at == len(asc) {
				return fmt.Sprintf("Sort%s(%T of 200) does not sort", a.name, long)
			}
		}
		if r := a.iss(long); r != 0 {
			return fmt.Sprintf("IsSorted%s(%T of 200) = %d after sorting", a.name, long, r)
		}
		var null S
		if v, bad := attempt(func() { a.sort(null); a.iss(null) }); bad {
			return fmt.Sprintf("nil %T panics: %v", null, v)
		}
		return ""
	}}
}

func bitsEq[E any](a, b *E) bool {
	n := unsafe.Sizeof(*a)
	x := unsafe.Slice((*byte)(unsafe.Pointer(a)), n)
	y := unsafe.Slice((*byte)(unsafe.Pointer(b)), n)
	return string(x) == string(y)
}

func perms(n int) (out [][]int) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(i int)
	rec = func(i int) {
		if i >= n {
			out = append(out, append([]int{}, p...))
			return
		}
		for j := i; j < n; j++ {
			p[i], p[j] = p[j], p[i]
			rec(i + 1)
			p[i], p[j] = p[j], p[i]
		}
	}
	rec(0)
	return
}

// bad: any other type panics and is left alone
func bad[T any](a api, name string, v T) entry {
	return entry{"bad/" + a.name + "/" + name, func() string {
		if _, p := attempt(func() { a.iss(v) }); !p {
			return fmt.Sprintf("IsSorted%s(%s) does not panic", a.name, name)
		}
		before := image(v)
		if _, p := attempt(func() { a.sort(v) }); !p {
			return fmt.Sprintf("Sort%s(%s) does not panic", a.name, name)
		}
		if image(v) != before {
			return fmt.Sprintf("Sort%s(%s) modifies its argument before it panics", a.name, name)
		}
		return ""
	}}
}

// bit image of the elements of a slice, or of the value itself
func image(v any) string {
	rv := reflect.ValueOf(v)
	if !rv.IsValid() || rv.Kind() != reflect.Slice {
		if rv.IsValid() && rv.Kind() == reflect.Pointer && !rv.IsNil() {
			return fmt.Sprint(rv.Elem().Interface())
		}
		return fmt.Sprint(v)
	}
	n := uintptr(rv.Len()) * rv.Type().Elem().Size()
	if n == 0 {
		return ""
	}
	return string(unsafe.Slice((*byte)(rv.UnsafePointer()), n))
}

var anInts [8]int
var someF = func() {}

func entries() (l []entry) {
	s, n := slcAPI, lenAPI
	add := func(e ...entry) { l = append(l, e...) }
	up := func(i int) unsafe.Pointer { return unsafe.Pointer(&anInts[i]) }
	add(
		good[[]int](s, "[]int", []int{math.MinInt, -1, 0, 1, math.MaxInt}),
		good[nInts](s, "nInts", []int{math.MinInt, -1, 0, 1, math.MaxInt}),
		good[[]nInt](s, "[]nInt", []nInt{-9, -1, 0, 1, 5}),
		good[nNInts](s, "nNInts", []nInt{-9, -1, 0, 1, 5}),
		good[[]int32](s, "[]int32", []int32{math.MinInt32, -1, 0, 1, math.MaxInt32}),
		good[[]nI32](s, "[]nI32", []nI32{math.MinInt32, -1, 0, 1, math.MaxInt32}),
		good[[]rune](s, "[]rune", []rune{'a', 'b', 'c', 'd', 'e'}),
		good[[]int64](s, "[]int64", []int64{math.MinInt64, -1, 0, 1 << 33, math.MaxInt64}),
		good[alias](s, "alias", []int64{math.MinInt64, -1, 0, 1 << 33, math.MaxInt64}),
		good[[]nI64](s, "[]nI64", []nI64{math.MinInt64, -1, 0, 1 << 33, math.MaxInt64}),
		good[[]uint](s, "[]uint", []uint{0, 1, 2, math.MaxUint - 1, math.MaxUint}),
		good[[]nUint](s, "[]nUint", []nUint{0, 1, 2, math.MaxUint - 1, math.MaxUint}),
		good[[]uint32](s, "[]uint32", []uint32{0, 1, 1 << 31, math.MaxUint32 - 1, math.MaxUint32}),
		good[[]nU32](s, "[]nU32", []nU32{0, 1, 1 << 31, math.MaxUint32 - 1, math.MaxUint32}),
		good[[]uint64](s, "[]uint64", []uint64{0, 1 << 32, 1 << 63, math.MaxUint64 - 1, math.MaxUint64}),
		good[[]nU64](s, "[]nU64", []nU64{0, 1 << 32, 1 << 63, math.MaxUint64 - 1, math.MaxUint64}),
		good[[]uintptr](s, "[]uintptr", []uintptr{0, 1, 2, ^uintptr(0) - 1, ^uintptr(0)}),
		good[[]nUptr](s, "[]nUptr", []nUptr{0, 1, 2, ^nUptr(0) - 1, ^nUptr(0)}),
		good[[]float32](s, "[]float32", []float32{float32(math.Inf(-1)), -1, 0, 1e-30, float32(math.Inf(1))}),
		good[[]nF32](s, "[]nF32", []nF32{-2, -1, 0, 1e-30, 3}),
		good[[]float64](s, "[]float64", []float64{math.Inf(-1), -1, 0, 1e-300, math.Inf(1)}),
		good[[]nF64](s, "[]nF64", []nF64{-2, -1, 0, 1e-300, 3}),
		good[[]string](s, "[]string", []string{"", "\x00", "a", "aa", "b"}),
		good[nStrs](s, "nStrs", []string{"", "\x00", "a", "aa", "b"}),
		good[[]nStr](s, "[]nStr", []nStr{"", "\x00", "a", "aa", "b"}),
		good[[][]byte](s, "[][]byte", [][]byte{nil, {0}, {1}, {1, 0}, {255}}),
		good[nBss](s, "nBss", [][]byte{nil, {0}, {1}, {1, 0}, {255}}),
		good[[]nBytes](s, "[]nBytes", []nBytes{nil, {0}, {1}, {1, 0}, {255}}),
		good[[][]nByte](s, "[][]nByte", [][]nByte{nil, {0}, {1}, {1, 0}, {255}}),
		good[[]nNBytes](s, "[]nNBytes", []nNBytes{nil, {0}, {1}, {1, 0}, {255}}),
		good[[]unsafe.Pointer](s, "[]unsafe.Pointer", []unsafe.Pointer{nil, up(0), up(1), up(2), up(3)}),
		good[[]nUP](s, "[]nUP", []nUP{nil, nUP(up(0)), nUP(up(1)), nUP(up(2)), nUP(up(3))}),
		good[[]*int](s, "[]*int", []*int{nil, &anInts[0], &anInts[1], &anInts[2], &anInts[3]}),
		good[[]nIP](s, "[]nIP", []nIP{nil, &anInts[0], &anInts[1], &anInts[2], &anInts[3]}),
		good[[]*node](s, "[]*node", nodes()),
		good[[]*[]int](s, "[]*[]int", slcPtrs()),
		good[[]*any](s, "[]*any", anyPtrs()),
		good[[]**int](s, "[]**int", ptrPtrs()),

		good[[]string](n, "[]string", []string{"", "z", "bb", "aaa", "\x00\x00\x00\x00"}),
		good[nStrs](n, "nStrs", []string{"", "z", "bb", "aaa", "\x00\x00\x00\x00"}),
		good[[]nStr](n, "[]nStr", []nStr{"", "z", "bb", "aaa", "\x00\x00\x00\x00"}),
		good[[][]byte](n, "[][]byte", [][]byte{nil, {9}, {8, 8}, {7, 7, 7}, {0, 0, 0, 0}}),
		good[[]nBytes](n, "[]nBytes", []nBytes{nil, {9}, {8, 8}, {7, 7, 7}, {0, 0, 0, 0}}),
		good[nBss](n, "nBss", [][]byte{nil, {9}, {8, 8}, {7, 7, 7}, {0, 0, 0, 0}}),
		lenOf[int8](n), lenOf[int16](n), lenOf[int](n), lenOf[int32](n), lenOf[int64](n), lenOf[uint](n), lenOf[uint16](n),
		lenOf[uint32](n), lenOf[uint64](n), lenOf[uintptr](n), lenOf[bool](n), lenOf[float32](n), lenOf[float64](n), lenOf[complex64](n),
		lenOf[complex128](n), lenOf[string](n), lenOf[struct{}](n), lenOf[[0]int](n), lenOf[[3]string](n), lenOf[any](n),
		lenOf[error](n), lenOf[func()](n), lenOf[map[int]int](n), lenOf[chan int](n), lenOf[*int](n), lenOf[unsafe.Pointer](n),
		lenOf[[]int](n), lenOf[[]string](n), lenOf[nNBytes](n), lenOf[node](n),
		good[[]nInts](n, "[]nInts", []nInts{nil, {4}, {3, 3}, {2, 2, 2}, {1, 1, 1, 1}}),

		bad(s, "[]int8", []int8{2, 1, 0}), bad(s, "[]int16", []int16{2, 1, 0}), bad(s, "[]uint8", []uint8{2, 1, 0}),
		bad(s, "[]uint16", []uint16{2, 1, 0}), bad(s, "[]bool", []bool{true, false}), bad(s, "[]complex64", []complex64{2, 1}),
		bad(s, "[]complex128", []complex128{2, 1}), bad(s, "[]struct", []struct{ a int }{{2}, {1}}), bad(s, "[]node", []node{{}, {}}),
		bad(s, "[]any", []any{2, 1}), bad(s, "[]error", []error{nErr{}, nil}), bad(s, "[]func", []func(){someF, nil}),
		bad(s, "[]map", []map[int]int{{1: 1}, nil}), bad(s, "[]chan", []chan int{make(chan int), nil}), bad(s, "[][2]int", [][2]int{{2}, {1}}),
		bad(s, "[][]int", [][]int{{2}, {1}}), bad(s, "[][]string", [][]string{{"b"}, {"a"}}), bad(s, "[][]int8", [][]int8{{2}, {1}}),
		bad(s, "[][]uint16", [][]uint16{{2}, {1}}), bad(s, "[][]bool", [][]bool{{true}, {false}}), bad(s, "[][][]byte", [][][]byte{{{2}}, {{1}}}),
		bad(s, "[][]float64", [][]float64{{2}, {1}}), bad(s, "[][]*int", [][]*int{{nil}, nil}), bad(s, "[][]int32", [][]int32{{2}, {1}}),
		bad(s, "[][]int64", [][]int64{{2}, {1}}), bad(s, "[][]uint32", [][]uint32{{2}, {1}}), bad(s, "[][]uint64", [][]uint64{{2}, {1}}),
		bad(s, "[][]uint", [][]uint{{2}, {1}}), bad(s, "[][]uintptr", [][]uintptr{{2}, {1}}), bad(s, "[][]float32", [][]float32{{2}, {1}}),
		bad(s, "[][]any", [][]any{{2}, {1}}), bad(s, "[][]struct", [][]struct{}{{}, nil}), bad(s, "[][]map", [][]map[int]int{{nil}, nil}),
		bad(s, "[3]int", [3]int{3, 2, 1}), bad(s, "*[]int", &[]int{3, 2, 1}), bad(s, "*[3]int", &[3]int{3, 2, 1}), bad(s, "int", 5),
		bad(s, "string", "ba"), bad(s, "map", map[int]int{2: 1}), bad[any](s, "nil", nil), bad(s, "float64", 2.5), bad(s, "func", someF),
		bad(s, "[]int16 nil", []int16(nil)), bad(s, "[][]int nil", [][]int(nil)), bad(s, "[]bool empty", []bool{}),

		bad(s, "chan int", make(chan int)), bad(s, "chan int 2", chanOf(2, 1)), bad(s, "chan string", make(<-chan string, 3)), bad(s, "uintptr", uintptr(3)),
		bad(s, "unsafe.Pointer", up(1)), bad(s, "*int", &anInts[1]), bad(s, "**[]int", new(*[]int)), bad(s, "struct", struct{ S []int }{[]int{2, 1}}),
		bad(s, "bool", true), bad(s, "[0]int", [0]int{}), bad(s, "[2]string", [2]string{"b", "a"}), bad(s, "map[int][]int", map[int][]int{1: {2, 1}}),
		bad(s, "complex128", 2i), bad(s, "error", fmt.Errorf("x")), bad(s, "func() []int", func() []int { return nil }), bad(s, "reflect.Value", reflect.ValueOf([]int{2, 1})),
		bad(s, "[]reflect.Kind8", []kind8{2, 1}), bad(s, "[]nBool", []nBool{true, false}), bad(s, "[][][]int", [][][]int{{{2}}, {{1}}}), bad(s, "[]*T nil ptr", (*[]int)(nil)),
		bad(n, "chan string", make(chan string)), bad(n, "chan []int", make(chan []int, 2)), bad(n, "map[int][]int", map[int][]int{1: {2, 1}}), bad(n, "[0]string", [0]string{}),
		bad(n, "struct", struct{ S []string }{[]string{"bb", "a"}}), bad(n, "[2][]int", [2][]int{{2, 1}, {1}}), bad(n, "error", fmt.Errorf("x")), bad(n, "float64", 2.5),
		bad(n, "[]int8", []int8{2, 1}), bad(n, "[]int16", []int16{2, 1}), bad(n, "[]uint16", []uint16{2, 1}), bad(n, "[]complex64", []complex64{2, 1}), bad(n, "[]error", []error{nErr{}, nil}),
		bad(n, "bool", true), bad(n, "func", someF), bad(n, "unsafe.Pointer", up(1)), bad(n, "*string", new(string)), bad(n, "*[]string nil", (*[]string)(nil)), bad(n, "[][2]string", [][2]string{{"bb", "b"}, {"a", "a"}}),
		bad(n, "[]*[2]string", []*[2]string{{"bb", "b"}, {"a", "a"}}), bad(n, "[]nBool", []nBool{true, false}), bad(n, "[]chan []int", []chan []int{nil, make(chan []int, 1)}),

		bad(n, "[]int", []int{2, 1}), bad(n, "[]float64", []float64{2, 1}), bad(n, "[]*int", []*int{&anInts[1], nil}),
		bad(n, "[]byte", []byte{2, 1}), bad(n, "[][2]int", [][2]int{{2}, {1}}), bad(n, "[]map", []map[int]int{{1: 1}, nil}),
		bad(n, "[]any", []any{"bb", "a"}), bad(n, "[]chan", []chan int{make(chan int, 2), nil}), bad(n, "[]*[]int", []*[]int{{2, 1}, {}}),
		bad(n, "[]*string", []*string{new(string), nil}), bad(n, "[]struct", []struct{ s string }{{"bb"}, {"a"}}), bad(n, "string", "ba"),
		bad(n, "[2]string", [2]string{"bb", "a"}), bad(n, "*[]string", &[]string{"bb", "a"}), bad[any](n, "nil", nil), bad(n, "int", 3),
		bad(n, "map", map[int]string{1: "bb"}), bad(n, "[]int nil", []int(nil)), bad(n, "[]func", []func(){someF, nil}),
		bad(n, "[]bool", []bool{true, false}), bad(n, "[]uintptr", []uintptr{2, 1}), bad(n, "[]unsafe.Pointer", []unsafe.Pointer{up(1), nil}),
		bad(n, "[]int32", []int32{2, 1}), bad(n, "[]int64", []int64{2, 1}), bad(n, "[]uint", []uint{2, 1}), bad(n, "[]uint32", []uint32{2, 1}),
		bad(n, "[]uint64", []uint64{2, 1}), bad(n, "[]float32", []float32{2, 1}), bad(n, "[]complex128", []complex128{2, 1}),
	)
	return
}

func chanOf(v ...int) chan int {
	c := make(chan int, len(v)+1)
	for _, x := range v {
		c <- x
	}
	return c
}

func lenOf[T any](a api) entry {
	var asc [][]T
	for i := 0; i < 5; i++ {
		asc = append(asc, make([]T, i, i+1))
	}
	return good[[][]T](a, fmt.Sprintf("%T", asc), asc)
}

var nodePool [5]node
var slcPool [5][]int
var anyPool [5]any
var ptrPool [5]*int

func ptrsTo[T any](p *[5]T) (o []*T) {
	for i := range p {
		o = append(o, &p[i])
	}
	return
}
func nodes() []*node    { return ptrsTo(&nodePool) }
func slcPtrs() []*[]int { return ptrsTo(&slcPool) }
func anyPtrs() []*any   { return ptrsTo(&anyPool) }
func ptrPtrs() []**int  { return ptrsTo(&ptrPool) }

func dispatchTasks(c *kit.Ctx) (ts []kit.Task) {
	for _, e := range entries() {
		e := e
		for _, mg := range []uint64{1, 3} {
			mg := mg
			ts = append(ts, kit.Task{ID: fmt.Sprintf("%s/%d", e.name, mg), Run: func(c *kit.Ctx) {
				sorty.MaxGor = mg
				c.Evals++
				c.Nontrivial++
				k := kit.Case{Op: "dispatch", Extra: e.name, MaxGor: mg}
				c.Begin(&k)
				if m := e.run(); m != "" {
					c.Fail(k, "dispatch: "+m)
				}
				c.Sample(k, "as documented")
			}})
		}
	}
	return
}

func dispatch1(name string) string {
	for _, e := range entries() {
		if e.name == name {
			if m := e.run(); m != "" {
				return "dispatch: " + m
			}
			return ""
		}
	}
	return "unknown entry " + strings.TrimSpace(name)
}
