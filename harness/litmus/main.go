//go:build go1.22

// litmus compares the explorer with itself on all small programs of a kind: the
// outcomes (values read, deadlocks, races) found with partial-order reduction
// must be those found by running every interleaving, and so must be those of
// deviation-bounded exploration with a bound as long as the program.
package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"

	atomic "github.com/jfcg/sorty/v2/vatomic"
	"github.com/jfcg/sorty/v2/vrt"
	sync "github.com/jfcg/sorty/v2/vsync"
)

type state struct {
	x, y int
	a    uint64
	ch   chan int
	cb   chan int
	mu   sync.Mutex
	wg   sync.WaitGroup
}

// operations of a program
var ops = []string{"Wx", "Rx", "Wy", "Ry", "A+", "AL", "S", "R", "B", "b", "L", "C", "go", "D", "G", "sel"}

func run(s *state, op string, me int, log *[]string) {
	see := func(v any) { *log = append(*log, fmt.Sprint(op, v)) }
	switch op {
	case "Wx":
		vrt.St(&s.x, me)
	case "Wy":
		vrt.St(&s.y, me)
	case "Rx":
		see(vrt.Rd(&s.x))
	case "Ry":
		see(vrt.Rd(&s.y))
	case "A+":
		see(atomic.AddUint64(&s.a, uint64(me)))
	case "AL":
		see(atomic.LoadUint64(&s.a))
	case "S":
		vrt.Send(s.ch, me)
	case "R":
		see(vrt.Recv(s.ch))
	case "B":
		vrt.Send(s.cb, me)
	case "b":
		see(vrt.Recv(s.cb))
	case "L":
		s.mu.Lock()
		see(vrt.Rd(&s.x))
		vrt.St(&s.x, me+10)
		s.mu.Unlock()
	case "C":
		s.mu.Lock()
		s.mu.Unlock()
	case "go":
		s.wg.Add(1)
		vrt.Go(func() {
			vrt.St(&s.y, 7)
			s.wg.Done()
		})
	case "D":
		s.wg.Wait()
	case "G":
		vrt.Gosched()
	case "sel":
		i, v, _ := vrt.Select(true, vrt.RecvCase(s.ch), vrt.SendCase(s.cb, me))
		see(fmt.Sprint(i, v))
	}
}

func body(prog [][]string, emit *func()) func() {
	return func() {
		s := &state{ch: vrt.MakeChan[int](0), cb: vrt.MakeChan[int](1)}
		vrt.Tolerate(&s.x)
		vrt.Tolerate(&s.y)
		logs := make([][]string, len(prog))
		end := ""
		work := func(i int) {
			for _, o := range prog[i] {
				run(s, o, i+1, &logs[i])
			}
			end += "."
		}
		for i := 1; i < len(prog); i++ {
			i := i
			vrt.Go(func() { work(i) })
		}
		*emit = func() { out[fmt.Sprint(logs, s.x, s.y, s.a, end)] = true }
		work(0)
	}
}

var out map[string]bool

func outcomes(prog [][]string, how int) (string, int) {
	out = map[string]bool{}
	emit := func() {}
	opt := vrt.Options{Ignore: []string{"race", "deadlock", "leak"}, MaxSteps: 400, After: func() { emit() }}
	n := 0
	note := func(r *vrt.Result) {
		n += r.Execs
		if r.Failure != nil {
			out["FAIL "+r.Failure.Msg] = true
		} else if !r.Complete {
			out["incomplete"] = true
		}
	}
	switch {
	case how == 0:
		opt.Naive, opt.NoSleep = true, true
		note(vrt.Explore(opt, body(prog, &emit)))
	case how == 1:
		note(vrt.Explore(opt, body(prog, &emit)))
	default:
		note(vrt.ExploreDev(opt, how-2, 99, body(prog, &emit)))
	}
	var l []string
	for o := range out {
		l = append(l, o)
	}
	sort.Strings(l)
	return strings.Join(l, "\n"), n
}

func main() {
	dev := flag.Bool("dev", false, "deviation-bounded exploration as well")
	shape := flag.String("shape", "2,2", "operations per goroutine")
	part := flag.String("ops", "", "operations to use")
	flag.Parse()
	use := ops
	if *part != "" {
		use = strings.Split(*part, " ")
	}
	var lens []int
	total := 0
	for _, f := range strings.Split(*shape, ",") {
		n := int(f[0] - '0')
		lens = append(lens, n)
		total += n
	}
	idx := make([]int, total)
	progs, naive, por := 0, 0, 0
	for {
		prog := make([][]string, len(lens))
		at := 0
		for i, n := range lens {
			for ; n > 0; n-- {
				prog[i] = append(prog[i], use[idx[at]])
				at++
			}
		}
		a, n := outcomes(prog, 0)
		b, m := outcomes(prog, 1)
		progs++
		naive += n
		por += m
		if a != b {
			fmt.Printf("DIFFERENT %v\n-- all interleavings (%d)\n%s\n-- reduced (%d)\n%s\n", prog, n, a, m, b)
			os.Exit(1)
		}
		if *dev {
			for p := 0; p < vrt.Policies; p++ {
				if d, k := outcomes(prog, 2+p); a != d {
					fmt.Printf("DIFFERENT %v\n-- all interleavings (%d)\n%s\n-- deviations from policy %d (%d)\n%s\n", prog, n, a, p, k, d)
					os.Exit(1)
				}
			}
		}
		i := total - 1
		for ; i >= 0; i-- {
			if idx[i]++; idx[i] < len(use) {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			break
		}
	}
	fmt.Printf("shape %s: %d programs, same outcomes; %d interleavings, %d after reduction\n", *shape, progs, naive, por)
}
