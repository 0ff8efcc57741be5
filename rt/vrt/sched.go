// Package vrt is the runtime of the model checker: a controlled scheduler with
// dynamic partial-order reduction (source sets over clock vectors, and sleep
// sets) for the instrumented copy of sorty, plus an independent
// happens-before data race detector. Instrumented code calls into this package
// at every spawn, channel operation, atomic, lock, and shared variable or
// slice element access. Exactly one thread runs at a time.
package vrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
)

type opKind uint8

const (
	kLocal opKind = iota
	kRead
	kWrite
)

var opNames = [...]string{"local", "read", "write"}

// one object touched by an operation
type touch struct {
	obj uintptr
	k   opKind
}

type op struct {
	name string
	t    [3]touch
	n    int
	more []touch // select on many channels
}

func (o *op) touches() []touch {
	if o.more != nil {
		return o.more
	}
	return o.t[:o.n]
}

func dependent(a, b *op) bool {
	for _, x := range a.touches() {
		for _, y := range b.touches() {
			if x.obj == y.obj && (x.k == kWrite || y.k == kWrite) {
				return true
			}
		}
	}
	return false
}

type tstate uint8

const (
	ready tstate = iota
	blocked
	finished
)

type thread struct {
	id      int
	slot    int // of the clocks: id, as long as that is tracked
	name    string
	state   tstate
	wake    chan struct{}
	pend    op
	dclk    [maxT]int32  // dependency clock (partial-order reduction)
	vc      [maxT]uint32 // synchronization clock (race detection)
	val     any          // received value
	ok      bool
	selIdx  int
	sel     *selToken
	yield   bool
	spawned bool // since it was chosen
	waits   string
	elems   int // element accesses
	depth   int
	maxDep  int
	isEnv   bool
	segs    []seg
	// reads of the watched quota variable
	rdEv     int // event of the last read+1
	rdVal    uint64
	sinceRd  int // goroutines started since
	maxSince int
	by       int // spawner and its last read when it started this thread
	dec      int
	quota    uint64
}

type event struct {
	tid  int
	node int // index in stack
	op   op
	clk  [maxT]int32
}

type objState struct {
	lastW int // event index+1
	reads []int
}

type node struct {
	choice    bool
	n, val    int // choice alternatives, current
	enabled   uint64
	sleep     uint64
	explored  uint64
	backtrack uint64
	chosen    int
	opname    string
	alts      []int16 // deviation-bounded exploration: threads that could run
}

// Failure describes one violating execution.
type Failure struct {
	Msg      string
	Schedule []int // thread (or choice value) at every decision
	Trace    []string
}

// Options of an exploration.
type Options struct {
	MaxExec   int   // cap on executions (0: default)
	MaxSteps  int   // horizon of one execution
	MaxElems  int64 // element access budget of one execution (0: none)
	Prefix    []int // replay this schedule only
	Stop      func() bool
	NoSleep   bool
	After     func() // called after every whole execution
	Naive     bool   // every interleaving of the operations: no reduction
	KeepTrace bool
	Ignore    []string // failure categories that do not end an execution

	// deviation-bounded exploration: default schedule and where to leave it
	dev    map[int]int // decision -> thread
	policy int
}

// the default schedules: what runs next at a decision without deviation
const (
	StayLow  = iota // the running thread while it can, then the oldest
	StayHigh        // the running thread while it can, then the youngest
	Youngest        // the youngest always
	Rotate          // another thread at every decision
	Policies
	// Turns is one more, not among those to deviate from: the running thread
	// goes on until it starts another one or cannot, then it is the next one's
	// turn. Nothing comes between a look at a counter and what depends on it.
	Turns = Policies
)

// Result of an exploration.
type Result struct {
	Execs, SleepBlocked int
	States, Transitions int
	Steps               int
	Complete            bool
	Cut                 int // executions cut at the horizon, then finished fairly
	Diverged            int
	Outcomes            map[string]int
	MaxThreads          int
	Sample              []string // trace of the last complete execution
	SampleSched         []int
	Failure             *Failure
}

type execution struct {
	opt      *Options
	threads  []*thread
	stack    *[]node
	pos      int // next stack index
	fresh    int // first stack index whose races are not known yet
	cand     []int
	events   []event
	objs     map[uintptr]*objState
	chans    map[uintptr]*mchan
	syncs    map[uintptr]*[maxT]uint32
	regions  []region
	cells    map[uintptr]*cell
	done     chan struct{}
	abort    bool
	redun    bool
	fair     bool
	lost     bool      // more threads than the clocks have room for
	live     []*thread // then: those not finished, by turns
	diverged string
	failure  *Failure
	steps    int
	elems    int64
	newNodes int
	newEv    int
	outcome  string
	rr       int

	spawns, chansMade int
	alive             int     // sorting goroutines besides the caller
	aliveAt           []int   // with it, after every start of one
	watch             uintptr // variable whose reads are logged (goroutine quota)
	returned          bool
	ignored           map[string]int
	tolerate          map[uintptr]bool
	schedTrace        []int
}

var (
	cur *thread    // running controlled thread
	ex  *execution // current execution
)

// Active reports whether a controlled execution is running.
func Active() bool { return cur != nil }

func mkop(name string, obj uintptr, k opKind) (o op) {
	o.name = name
	if k != kLocal {
		o.t[0] = touch{obj, k}
		o.n = 1
	}
	return
}

func (o op) and(obj uintptr, k opKind) op {
	o.t[o.n] = touch{obj, k}
	o.n++
	return o
}

// point declares t's next operation and returns when it is scheduled.
func point(o op) {
	t := cur
	t.pend = o
	e := ex
	n := e.pick(t)
	if n == t {
		return
	}
	if n == nil { // the run is over
		e.finish()
		e.park(t)
		return
	}
	e.handoff(n, t)
}

// give control to n, wait until t is scheduled again
func (e *execution) handoff(n, t *thread) {
	cur = n
	n.wake <- struct{}{}
	e.park(t)
}

func (e *execution) park(t *thread) {
	<-t.wake
	if e.abort {
		runtime.Goexit()
	}
}

// block suspends t (its operation is done but cannot complete yet).
func block(why string) {
	t := cur
	t.state = blocked
	t.waits = why
	t.pend = op{name: "resume"}
	e := ex
	n := e.pick(nil)
	if n == nil {
		e.finish()
		e.park(t)
		return
	}
	e.handoff(n, t)
}

func (e *execution) wakeup(t *thread) {
	t.state = ready
	t.waits = ""
	if cur != nil {
		joinD(&t.dclk, &cur.dclk)
	}
}

func joinD(a, b *[maxT]int32) {
	for i := range a {
		if b[i] > a[i] {
			a[i] = b[i]
		}
	}
}

func joinV(a, b *[maxT]uint32) {
	for i := range a {
		if b[i] > a[i] {
			a[i] = b[i]
		}
	}
}

func (e *execution) finish() {
	select {
	case e.done <- struct{}{}:
	default:
	}
}

// pick decides which thread runs next and records its operation as an event.
// self is the running thread if it is still ready. Returns nil when the
// execution must end.
func (e *execution) pick(self *thread) *thread {
	if e.lost {
		return e.turn()
	}
	var enabled uint64 // of the first 64 threads
	var alts []int16
	some := false
	for _, t := range e.threads {
		if t.state == ready {
			enabled |= 1 << t.id
			some = true
			if e.opt.dev != nil {
				alts = append(alts, int16(t.id))
			}
		}
	}
	if !some {
		return nil
	}
	e.steps++
	if e.steps > e.opt.MaxSteps {
		if !e.fair {
			e.fair = true
		}
		if e.steps > 20*e.opt.MaxSteps {
			e.fail("term: no termination: the execution goes on under a fair schedule after " +
				fmt.Sprint(e.steps) + " steps")
			return e.stopAll()
		}
	}
	var n *thread
	if e.fair {
		for k := 1; k <= len(e.threads); k++ {
			t := e.threads[(e.rr+k)%len(e.threads)]
			if t.state == ready {
				n = t
				break
			}
		}
		e.rr = n.id
		return n
	}

	st := *e.stack
	if e.pos < len(st) {
		nd := &st[e.pos]
		if nd.choice || nd.enabled != enabled {
			e.diverged = fmt.Sprintf("replay diverged at decision %d: enabled %b, recorded %b", e.pos, enabled, nd.enabled)
			return e.stopAll()
		}
		n = e.threads[nd.chosen]
		if nd.opname == "" {
			nd.opname = n.pend.name
		} else if nd.opname != n.pend.name {
			e.diverged = fmt.Sprintf("replay diverged at decision %d: op %s, recorded %s", e.pos, n.pend.name, nd.opname)
			return e.stopAll()
		}
	} else {
		nd := node{enabled: enabled, alts: alts}
		// sleep set from the parent decision
		if e.pos > 0 && len(e.events) > 0 && !e.opt.NoSleep {
			last := &e.events[len(e.events)-1]
			pn := &st[last.node]
			cand := (pn.sleep | pn.explored) &^ (1 << uint(last.tid)) & enabled
			for i := 0; cand != 0; i++ {
				if cand&(1<<uint(i)) != 0 {
					cand &^= 1 << uint(i)
					if !dependent(&e.threads[i].pend, &last.op) {
						nd.sleep |= 1 << uint(i)
					}
				}
			}
		}
		avail := enabled &^ nd.sleep
		if avail == 0 && enabled != 0 {
			e.redun = true
			return e.stopAll()
		}
		if pi := len(e.schedTrace); e.opt.Prefix != nil {
			if pi < len(e.opt.Prefix) {
				id := e.opt.Prefix[pi]
				if id < 0 || id >= len(e.threads) || e.threads[id].state != ready {
					e.diverged = fmt.Sprintf("replay: thread %d not enabled at decision %d", id, pi)
					return e.stopAll()
				}
				n = e.threads[id]
			}
		}
		if n == nil && e.opt.dev != nil {
			if id, ok := e.opt.dev[len(e.schedTrace)]; ok {
				if id >= len(e.threads) || e.threads[id].state != ready {
					e.diverged = fmt.Sprintf("deviation: thread %d not enabled at decision %d", id, len(e.schedTrace))
					return e.stopAll()
				}
				n = e.threads[id]
			} else {
				n = e.byPolicy(self)
			}
		}
		if n == nil {
			if self != nil && avail&(1<<uint(self.id)) != 0 && !self.yield {
				n = self
			} else {
				for _, t := range e.threads {
					if avail&(1<<uint(t.id)) != 0 && (n == nil || n.yield) {
						n = t
					}
				}
			}
			if n == nil {
				n = e.byPolicy(self)
			}
		}
		nd.chosen = n.id
		nd.opname = n.pend.name
		nd.backtrack = 1 << uint(n.id)
		if e.opt.Naive {
			nd.backtrack = enabled
		}
		*e.stack = append(st, nd)
		e.newNodes++
	}
	n.yield, n.spawned = false, false
	e.schedTrace = append(e.schedTrace, n.id)
	e.record(n)
	e.pos++
	return n
}

// turn picks the next thread of an execution with more threads than can be
// tracked: each in its turn.
func (e *execution) turn() *thread {
	if e.steps++; e.steps > 20*e.opt.MaxSteps {
		e.fail(fmt.Sprintf("term: no termination: the execution goes on under a fair schedule after %d steps and %d goroutines",
			e.steps, len(e.threads)))
		return e.stopAll()
	}
	for k := len(e.live); k > 0; k-- {
		t := e.live[0]
		e.live = e.live[1:]
		if t.state == finished {
			continue
		}
		e.live = append(e.live, t)
		if t.state == ready {
			return t
		}
	}
	return nil
}

func (e *execution) byPolicy(self *thread) (n *thread) {
	p := e.opt.policy
	if self != nil && !self.yield && (p == StayLow || p == StayHigh || p == Turns && !self.spawned) {
		return self
	}
	last := 0
	if k := len(e.events); k > 0 {
		last = e.events[k-1].tid
	}
	for k := range e.threads {
		t := e.threads[k]
		switch p {
		case StayHigh, Youngest:
			t = e.threads[len(e.threads)-1-k]
		case Rotate, Turns:
			t = e.threads[(last+1+k)%len(e.threads)]
		}
		if t.state == ready && (n == nil || n.yield && !t.yield) {
			n = t
		}
	}
	return
}

// ExploreDev runs every schedule that leaves the given default schedule at no
// more than bound decisions.
func ExploreDev(opt Options, policy, bound int, body func()) *Result {
	if opt.MaxExec == 0 {
		opt.MaxExec = 1 << 30
	}
	if opt.MaxSteps == 0 {
		opt.MaxSteps = 20000
	}
	opt.NoSleep, opt.policy = true, policy
	res := &Result{Outcomes: map[string]int{}, Complete: true}
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	var rec func(dev [][2]int) bool
	rec = func(dev [][2]int) bool {
		if res.Execs >= opt.MaxExec || opt.Stop != nil && opt.Stop() {
			res.Complete = false
			return false
		}
		gcNow()
		o, from := opt, 0
		o.dev = map[int]int{}
		for _, d := range dev {
			o.dev[d[0]] = d[1]
			from = d[0] + 1
		}
		var stack []node
		e := runOne(&o, &stack, body)
		res.Execs++
		res.States += e.newNodes - from
		res.Steps += e.steps
		res.Transitions += len(e.events)
		res.MaxThreads = max(res.MaxThreads, len(e.threads))
		if e.diverged != "" && e.failure == nil {
			res.Diverged++
			res.Outcomes["diverged: "+e.diverged]++
			res.Complete = false
			return false
		}
		if e.failure != nil {
			res.Failure = e.failure
			return false
		}
		if e.fair {
			res.Cut++
			res.Complete = false
		}
		if opt.After != nil {
			opt.After()
		}
		res.Outcomes[e.outcome]++
		if res.Sample == nil {
			res.Sample = e.trace()
		}
		if len(dev) >= bound {
			return true
		}
		for i := from; i < len(stack); i++ {
			nd := &stack[i]
			if nd.choice {
				continue
			}
			for _, t := range nd.alts {
				if int(t) != nd.chosen {
					if !rec(append(dev[:len(dev):len(dev)], [2]int{i, int(t)})) {
						return false
					}
				}
			}
		}
		return true
	}
	rec(nil)
	return res
}

func (e *execution) stopAll() *thread {
	e.abort = true
	return nil
}

// record n's pending operation as the next event, find reversible races with
// earlier events and extend the backtrack sets accordingly.
func (e *execution) record(n *thread) {
	i := len(e.events)
	e.events = append(e.events, event{tid: n.id, node: e.pos, op: n.pend})
	ev := &e.events[i]
	tch := ev.op.touches()
	if e.opt.dev == nil && e.pos >= e.fresh { // else: recorded already
		cand := e.cand[:0]
		for _, tc := range tch {
			os := e.objs[tc.obj]
			if os == nil {
				continue
			}
			if os.lastW > 0 {
				cand = append(cand, os.lastW-1)
			}
			if tc.k == kWrite {
				cand = append(cand, os.reads...)
			}
		}
		// latest first: an event before another candidate is no direct race
		sort.Sort(sort.Reverse(sort.IntSlice(cand)))
		seen := n.dclk
		for _, j := range cand {
			ej := &e.events[j]
			if seen[ej.tid] <= int32(j) {
				e.race(j, i, n)
				joinD(&seen, &ej.clk)
			}
		}
		e.cand = cand
	}
	for _, tc := range tch {
		os := e.objs[tc.obj]
		if os == nil {
			os = &objState{}
			e.objs[tc.obj] = os
		}
		if os.lastW > 0 {
			joinD(&n.dclk, &e.events[os.lastW-1].clk)
		}
		if tc.k == kWrite {
			for _, r := range os.reads {
				joinD(&n.dclk, &e.events[r].clk)
			}
		}
	}
	n.dclk[n.id] = int32(i + 1)
	ev.clk = n.dclk
	n.mark(i, ev.op.name)
	for _, tc := range tch {
		os := e.objs[tc.obj]
		if tc.k == kWrite {
			os.lastW = i + 1
			os.reads = os.reads[:0]
		} else {
			os.reads = append(os.reads, i)
		}
	}
}

// event j is in a race with event i about to be executed by p: make sure that
// some execution from j's decision starts with one of the threads that can
// begin v, the events after j that do not depend on it followed by i (the
// source sets of Abdulla, Aronis, Jonsson, Sagonas; sleeping threads do not
// count, which keeps the reduction sound together with sleep sets)
func (e *execution) race(j, i int, p *thread) {
	ej := &e.events[j]
	nd := &(*e.stack)[ej.node]
	jt := ej.tid
	var first [maxT]int32 // of every thread in v: index+1
	var tids []int
	var initials uint64
	init := func(k, tid int, clk *[maxT]int32) bool {
		if first[tid] > 0 {
			return false
		}
		first[tid] = int32(k + 1)
		for _, t := range tids {
			if clk[t] >= first[t] {
				tids = append(tids, tid)
				return false
			}
		}
		tids = append(tids, tid)
		initials |= 1 << uint(tid)
		return nd.backtrack&(1<<uint(tid)) != 0
	}
	for k := j + 1; k < i; k++ {
		ek := &e.events[k]
		if ek.clk[jt] <= int32(j) && init(k, ek.tid, &ek.clk) {
			return
		}
	}
	// i itself comes after what its operation depends on within v
	clk := p.dclk
	for _, tc := range e.events[i].op.touches() {
		os := e.objs[tc.obj]
		if os == nil {
			continue
		}
		join := func(k int) {
			if c := &e.events[k].clk; c[jt] <= int32(j) {
				joinD(&clk, c)
			}
		}
		if os.lastW > 0 {
			join(os.lastW - 1)
		}
		if tc.k == kWrite {
			for _, r := range os.reads {
				join(r)
			}
		}
	}
	if init(i, p.id, &clk) {
		return
	}
	if initials&nd.enabled == 0 {
		nd.backtrack |= nd.enabled // cannot be
		return
	}
	if initials &= nd.enabled; initials&(1<<uint(p.id)) != 0 {
		nd.backtrack |= 1 << uint(p.id)
		return
	}
	nd.backtrack |= initials & -initials
}

// Choose is a nondeterministic environment choice in [0,n).
func Choose(n int) int {
	e := ex
	if cur == nil || n <= 1 || e.fair {
		return 0
	}
	st := *e.stack
	if e.pos < len(st) {
		nd := &st[e.pos]
		if !nd.choice || nd.n != n {
			e.diverged = "replay diverged at a choice"
			e.stopAll()
			e.finish()
			e.park(cur)
			return 0
		}
		e.pos++
		e.schedTrace = append(e.schedTrace, nd.val)
		return nd.val
	}
	v := 0
	if pi := len(e.schedTrace); e.opt.Prefix != nil && pi < len(e.opt.Prefix) {
		v = e.opt.Prefix[pi]
		if v < 0 || v >= n {
			v = 0
		}
	}
	*e.stack = append(st, node{choice: true, n: n, val: v})
	e.newNodes++
	e.pos++
	e.schedTrace = append(e.schedTrace, v)
	return v
}

func (e *execution) ignores(msg string) bool {
	for _, c := range e.opt.Ignore {
		if strings.HasPrefix(msg, c+":") {
			e.ignored[c]++
			return true
		}
	}
	return false
}

func (e *execution) fail(msg string) {
	if e.failure == nil {
		e.failure = &Failure{Msg: msg}
	}
}

// Fail reports a violation in the current execution and ends it.
func Fail(format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	if cur == nil {
		panic(msg)
	}
	e := ex
	if e.ignores(msg) {
		return
	}
	e.fail(msg)
	e.stopAll()
	t := cur
	e.finish()
	e.park(t)
}

// Stop ends the current execution.
func Stop() {
	e, t := ex, cur
	e.stopAll()
	e.finish()
	e.park(t)
}

// Outcome labels the current execution.
func Outcome(s string) {
	if ex != nil {
		ex.outcome += s
	}
}

func newThread(name string) *thread {
	e := ex
	if len(e.threads) == maxT && !e.lost {
		// No clocks for more. The execution goes on by turns, as it might, for
		// what can be said of it without: that it ends, and how.
		e.lost, e.fair = true, true
		e.diverged = "more goroutines than the checker tracks"
		for _, t := range e.threads {
			if t.state != finished {
				e.live = append(e.live, t)
			}
		}
	}
	t := &thread{id: len(e.threads), slot: min(len(e.threads), maxT-1), name: name, wake: make(chan struct{}, 1)}
	if e.lost {
		e.live = append(e.live, t)
	}
	t.pend = op{name: "start"}
	e.threads = append(e.threads, t)
	return t
}

// GoEnv starts an environment thread (not counted as a sorting goroutine).
func GoEnv(name string, f func()) { spawn(name, f, true) }

// Go is the instrumented go statement.
func Go(f func()) {
	if cur == nil {
		go f()
		return
	}
	spawn("", f, false)
}

func spawn(name string, f func(), env bool) {
	e := ex
	p := cur
	t := newThread(name)
	t.isEnv = env
	if name == "" {
		t.name = fmt.Sprintf("g%d", t.id)
	}
	t.dclk = p.dclk
	t.vc = p.vc
	t.vc[t.slot] = 1
	p.vc[p.slot]++
	p.spawned = true
	if !env {
		e.spawns++
		e.alive++
		c := e.alive
		if e.threads[0].state == ready {
			c++
		}
		e.aliveAt = append(e.aliveAt, c)
		t.by, t.dec, t.quota = p.id, p.rdEv, p.rdVal
		p.sinceRd++
		p.maxSince = max(p.maxSince, p.sinceRd)
	}
	go threadMain(e, t, f)
}

func threadMain(e *execution, t *thread, f func()) {
	<-t.wake
	normal := false
	defer func() {
		if !normal {
			if r := recover(); r != nil {
				e.fail(fmt.Sprintf("panic: in %s: %v%s", t.name, r, where()))
				e.stopAll()
			}
		}
		if e.abort {
			t.state = finished
			cur = nil
			e.finish()
			return
		}
		t.state = finished
		if !t.isEnv {
			e.alive--
		}
		n := e.pick(nil)
		if n == nil {
			cur = nil
			e.finish()
			return
		}
		cur = n
		n.wake <- struct{}{}
	}()
	if !e.abort {
		f()
	}
	normal = true
}

func where() string {
	var pcs [24]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	var b strings.Builder
	for {
		f, more := fr.Next()
		if f.File != "" && !strings.Contains(f.File, "/runtime/") && !strings.Contains(f.File, "/vrt/") {
			fmt.Fprintf(&b, " <- %s:%d", f.Function, f.Line)
		}
		if !more {
			break
		}
	}
	return b.String()
}

// Gosched is a scheduling hint in the instrumented code.
func Gosched() {
	if cur == nil {
		runtime.Gosched()
		return
	}
	cur.yield = true
	point(op{name: "yield"})
}

// LeftThreads returns descriptions of other threads not finished.
func LeftThreads() (l []string) {
	for _, t := range ex.threads {
		if t != cur && t.state != finished && !t.isEnv {
			l = append(l, t.name+":"+t.waits)
		}
	}
	return
}

// Spawns and ChansMade of the current execution.
func Spawns() int { return ex.spawns }

// Alive is how many goroutines there were after each start of one. The caller
// of the sort, the first thread, counts unless it waits.
func Alive() []int { return ex.aliveAt }

func ChansMade() int { return ex.chansMade }

// MaxDepth is the deepest instrumented call nesting over all threads.
func MaxDepth() (m int) {
	for _, t := range ex.threads {
		if t.maxDep > m {
			m = t.maxDep
		}
	}
	return
}

// ElemAccesses is the number of element accesses so far.
func ElemAccesses() int64 { return ex.elems }

// Returned marks that the API call under test has returned: accesses that are
// not ordered before it are late.
func Returned()  { ex.returned = true }
func Reentered() { ex.returned = false }
func CurID() int { return cur.id }

// Enter and Leave track call nesting.
func Enter() {
	if t := cur; t != nil {
		t.depth++
		if t.depth > t.maxDep {
			t.maxDep = t.depth
			if t.depth == 5000 {
				Fail("depth: calls are nested %d deep", t.depth)
			}
		}
	}
}
func Leave() {
	if t := cur; t != nil {
		t.depth--
	}
}

func (e *execution) trace() []string {
	var out []string
	for i := range e.events {
		ev := &e.events[i]
		out = append(out, fmt.Sprintf("%s:%s", e.threads[ev.tid].name, ev.op.name))
	}
	return out
}

// run one execution following the stack
var saved []func() func()
var restore []func()

// Global registers a package variable of the code under test: its value is
// the same at the start of every execution.
func Global[T any](p *T) {
	saved = append(saved, func() func() {
		v := *p
		return func() { *p = v }
	})
}

func resetGlobals() {
	if restore == nil {
		for _, f := range saved {
			restore = append(restore, f())
		}
	}
	for _, f := range restore {
		f()
	}
}

func runOne(opt *Options, stack *[]node, body func()) *execution {
	resetGlobals()
	e := &execution{opt: opt, stack: stack,
		objs: map[uintptr]*objState{}, chans: map[uintptr]*mchan{},
		syncs: map[uintptr]*[maxT]uint32{}, cells: map[uintptr]*cell{},
		done: make(chan struct{}, 1), tolerate: map[uintptr]bool{}, ignored: map[string]int{}}
	e.fresh = max(0, len(*stack)-1)
	ex = e
	t := newThread("main")
	t.vc[0] = 1
	go threadMain(e, t, body)
	n := e.pick(nil)
	cur = n
	n.wake <- struct{}{}
	<-e.done
	if !e.abort && e.failure == nil {
		var left []string
		for _, t := range e.threads {
			if t.state != finished {
				left = append(left, t.name+" blocked in "+t.waits)
			}
		}
		if left != nil {
			msg := "deadlock: " + strings.Join(left, ", ")
			if e.threads[0].state == finished {
				msg = "leak: " + strings.Join(left, ", ")
			}
			if !e.ignores(msg) {
				e.fail(msg)
			}
		}
	}
	// end remaining threads
	e.abort = true
	cur = nil
	for _, t := range e.threads {
		for t.state != finished {
			// drain a stale signal
			select {
			case <-e.done:
			default:
			}
			t.wake <- struct{}{}
			<-e.done
		}
	}
	if e.failure != nil {
		e.failure.Schedule = append([]int{}, e.schedTrace...)
		e.failure.Trace = e.trace()
	}
	ex = nil
	return e
}

// Explore enumerates the interleavings of body (one per Mazurkiewicz trace).
func Explore(opt Options, body func()) *Result {
	if opt.MaxExec == 0 {
		opt.MaxExec = 1 << 30
	}
	if opt.MaxSteps == 0 {
		opt.MaxSteps = 20000
	}
	res := &Result{Outcomes: map[string]int{}}
	var stack []node
	// addresses identify variables: no memory may be reused within an execution
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	for {
		gcNow()
		e := runOne(&opt, &stack, body)
		res.States += e.newNodes
		res.Steps += e.steps
		res.Transitions += len(e.events)
		if len(e.threads) > res.MaxThreads {
			res.MaxThreads = len(e.threads)
		}
		if e.diverged != "" && e.failure == nil {
			res.Diverged++
			res.Outcomes["diverged: "+e.diverged]++
			return res
		}
		if e.failure != nil {
			res.Execs++
			res.Failure = e.failure
			return res
		}
		if e.redun {
			res.SleepBlocked++
		} else {
			res.Execs++
			if opt.After != nil {
				opt.After()
			}
			if e.fair {
				res.Cut++
			}
			res.Outcomes[e.outcome]++
			if res.Sample == nil || opt.KeepTrace {
				res.Sample = e.trace()
				res.SampleSched = append([]int{}, e.schedTrace...)
			}
		}
		if opt.Prefix != nil {
			return res
		}
		// backtrack
		found := false
		for len(stack) > 0 {
			nd := &stack[len(stack)-1]
			if nd.choice {
				if nd.val+1 < nd.n {
					nd.val++
					found = true
					break
				}
				stack = stack[:len(stack)-1]
				continue
			}
			nd.explored |= 1 << uint(nd.chosen)
			todo := nd.backtrack &^ nd.explored &^ nd.sleep & nd.enabled
			if todo != 0 {
				for i := 0; ; i++ {
					if todo&(1<<uint(i)) != 0 {
						nd.chosen = i
						break
					}
				}
				nd.opname = ""
				found = true
				break
			}
			stack = stack[:len(stack)-1]
		}
		if !found {
			res.Complete = res.Cut == 0
			return res
		}
		if res.Execs+res.SleepBlocked >= opt.MaxExec || opt.Stop != nil && opt.Stop() {
			return res
		}
	}
}
