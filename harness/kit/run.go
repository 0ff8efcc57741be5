//go:build go1.22

package kit

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Case is one concrete input (and, for schedules, one concrete history).
type Case struct {
	Op     string   `json:"op"`
	Subj   string   `json:"subject,omitempty"`
	Shape  string   `json:"shape,omitempty"`
	N      int      `json:"n,omitempty"`
	Keys   []int    `json:"keys,omitempty"`
	M      int      `json:"m,omitempty"`
	VMap   int      `json:"vmap,omitempty"`
	Lens   [4]int   `json:"lens,omitempty"`
	MaxGor uint64   `json:"maxgor"`
	NaN    int      `json:"nan,omitempty"`
	Extra  string   `json:"extra,omitempty"`
	Env    []uint64 `json:"env,omitempty"`
	Sched  []int    `json:"schedule,omitempty"`
}

// Ctx collects what one process explored for one property.
type Ctx struct {
	Prop, Tier string
	Evals      int64
	Nontrivial int64
	States     int64
	Trans      int64
	Traces     int64
	Cut        int64
	Bounded    int64 // deviation-bounded explorations
	MaxThreads int
	Samples    []any
	Outcomes   map[string]int64
	Incomplete []string
	Findings   map[string]any
	Peaks      map[string]int64 // largest values seen
	Viol       int
	deadline   time.Time
	cur        *Case
	journal    *os.File
	tick       atomic.Int64
	out        *json.Encoder
}

type Task struct {
	ID  string
	Run func(c *Ctx)
}

func (c *Ctx) Quick() bool { return c.Tier != "thorough" }

// Begin marks the case about to run (for the watchdog).
func (c *Ctx) Begin(k *Case) {
	c.cur = k
	c.tick.Add(1)
	if c.journal != nil {
		c.note(k)
	}
}

// note writes the case to the journal, to be found after a crash.
func (c *Ctx) note(k *Case) {
	b, err := json.Marshal(map[string]any{"case": k})
	if err == nil {
		c.journal.Truncate(0)
		c.journal.WriteAt(b, 0)
	}
}

// Expired: the exploration budget of this process is used up.
func (c *Ctx) Expired() bool { return time.Now().After(c.deadline) }

// Fail reports a violating case. The process goes on with other tasks.
func (c *Ctx) Fail(k Case, msg string) {
	k.Keys = append([]int(nil), k.Keys...)
	c.Viol++
	if c.Viol <= 3 {
		c.out.Encode(map[string]any{"t": "viol", "prop": c.Prop, "msg": msg, "case": k})
	}
	if c.Viol >= 3 {
		c.finish()
		os.Exit(0)
	}
}

// Known records an occurrence of a listed finding.
func (c *Ctx) Known(key string, k Case, msg string) {
	if _, ok := c.Findings[key]; !ok {
		k.Keys = append([]int(nil), k.Keys...)
		c.Findings[key] = map[string]any{"msg": msg, "case": k}
	}
}

// Sample keeps a few written-out cases.
func (c *Ctx) Sample(k Case, result string) {
	if len(c.Samples) < 4 {
		k.Keys = append([]int(nil), k.Keys...)
		if len(k.Keys) > 64 {
			k.Keys = k.Keys[:64]
		}
		c.Samples = append(c.Samples, map[string]any{"case": k, "result": clip(result)})
	}
}

func (c *Ctx) finish() {
	c.out.Encode(map[string]any{"t": "stats", "evals": c.Evals, "nontrivial": c.Nontrivial, "states": c.States,
		"trans": c.Trans, "traces": c.Traces, "cut": c.Cut, "bounded": c.Bounded, "samples": c.Samples, "outcomes": c.Outcomes,
		"incomplete": c.Incomplete, "findings": c.Findings, "peaks": c.Peaks, "viol": c.Viol, "max_threads": c.MaxThreads})
}

// take claims the next task for this process.
func take(file string) (n int) {
	f, err := os.OpenFile(file, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	if err := syscall.Flock(int(f.Fd()), syscall.LOCK_EX); err != nil {
		panic(err)
	}
	fmt.Fscan(f, &n)
	f.WriteAt([]byte(fmt.Sprintf("%-12d", n+1)), 0)
	return
}

// Main runs the shard of tasks, or replays one case.
func Main(tasks func(c *Ctx) []Task, replay func(c *Ctx, k Case) string) {
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	shard := flag.Int("shard", 0, "")
	of := flag.Int("of", 1, "")
	dl := flag.Float64("deadline", 1e9, "seconds")
	rep := flag.String("replay", "", "")
	only := flag.String("only", "", "")
	list := flag.Bool("list", false, "")
	claim := flag.String("claim", "", "file with the number of the next task to take")
	journal := flag.String("journal", "", "file for the case being run")
	mark := flag.String("mark", "", "file for the task being run")
	stall := flag.Int("stall", 45, "seconds without progress")
	flag.Parse()
	c := &Ctx{Prop: *prop, Tier: *tier, Outcomes: map[string]int64{}, Findings: map[string]any{}, Peaks: map[string]int64{}}
	c.out = json.NewEncoder(os.Stdout)
	if *journal != "" {
		c.journal, _ = os.Create(*journal)
	}
	debug.SetMaxStack(128 << 20)
	c.deadline = time.Now().Add(time.Duration(*dl * float64(time.Second)))

	go func() {
		last, at := int64(-1), time.Now()
		for {
			time.Sleep(time.Second)
			if n := c.tick.Load(); n != last {
				last, at = n, time.Now()
			} else if time.Since(at) > time.Duration(*stall)*time.Second && c.cur != nil {
				k := *c.cur
				b, _ := json.Marshal(map[string]any{"t": "viol", "prop": c.Prop, "msg": fmt.Sprintf("term: no answer after %d s", *stall), "case": k})
				os.Stdout.Write(append(b, '\n'))
				os.Exit(3)
			}
		}
	}()

	if *rep != "" {
		b, err := os.ReadFile(*rep)
		var doc struct{ Case Case }
		if err == nil {
			err = json.Unmarshal(b, &doc)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		c.Begin(&doc.Case)
		if msg := replay(c, doc.Case); msg != "" {
			c.out.Encode(map[string]any{"t": "viol", "prop": c.Prop, "msg": msg, "case": doc.Case})
		}
		return
	}
	ts := tasks(c)
	seen := map[string]bool{}
	next := -1
	if *claim != "" {
		next = take(*claim)
	}
	for i, t := range ts {
		if seen[t.ID] {
			panic("duplicate task " + t.ID)
		}
		seen[t.ID] = true
		if *list {
			fmt.Println(t.ID)
			continue
		}
		if next >= 0 {
			if i != next {
				continue
			}
			next = take(*claim)
		} else if i%*of != *shard {
			continue
		}
		if *only != "" && !(strings.HasSuffix(*only, "=") && t.ID+"=" == *only || strings.HasPrefix(t.ID, *only)) {
			continue
		}
		if c.Expired() {
			c.Incomplete = append(c.Incomplete, t.ID)
			continue
		}
		if *mark != "" {
			os.WriteFile(*mark, []byte(t.ID), 0o600)
		}
		t.Run(c)
	}
	if !*list {
		c.finish()
	}
}
