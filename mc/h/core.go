// Command h is the model-checking harness. It is compiled into the instrumented module (see mc/instr) and explores the
// real implementation: every operation sequence up to a depth (seq.go), every interleaving of small client programs
// (conc.go) and every input of bounded families (cases.go), against the reference models in this directory.
package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/henderiw/idxtable/verifmc/rt"
)

// Out is what one operation returned.
type Out struct {
	S     string // canonical rendering of the results; errors render as "err"
	Err   bool   // the operation reported an error
	V     any    // structured result for relational specifications
	Panic string // the operation panicked or can never return
}

// Op is one operation with fixed arguments.
type Op struct {
	Name string
	Tags string // properties the operation's specification belongs to
	// Do runs the operation on the system under test.
	Do func(sys any) Out
	// Take is set for listings and iterators: it performs the call and returns a function that reads out what was
	// handed over. Do is then Take()().
	Take func(sys any) func() string
	// Once: what Take returns can be called only once (an iterator).
	Once bool
	// Spec says whether o is an allowed answer in model state m, and which model state follows. A text starting with
	// "Cnn: " attributes the failure to that property instead of Tags.
	Spec func(m any, o Out) (any, string)
	// Reader marks operations that never change anything.
	Reader bool
	// Basic marks readers that show the contents directly: when one of them is wrong after an operation, that operation
	// left the object in a wrong state, and the state is not explored further.
	Basic bool
}

// Violation is one failed check.
type Violation struct {
	Property string   `json:"property"`
	Task     string   `json:"task"`
	Sub      string   `json:"sub"`
	Sig      string   `json:"sig"`
	Trace    []string `json:"trace"`
	Choices  []uint8  `json:"choices,omitempty"`
	Tier     string   `json:"tier"`
	Shard    int      `json:"shard"`
}

// Result is what a task reports.
type Result struct {
	States      int64
	Transitions int64
	Schedules   int64
	Traces      int64
	Programs    int64
	Cases       int64
	Pruned      int64
	Outcomes    int64
	Exhaustive  bool
	Notes       []string
	Samples     []string
	Violations  []Violation
}

// Ctx is the environment of a task.
type Ctx struct {
	Prop, Task, Tier string
	OnlySub          string // replay: restrict to this sub-exploration
	Shard, Shards    int
	R                Result
	Deadline         time.Time
	sub              string
	runs             int // histories started by bigRun
}

type stopTask struct{}

// Quick reports whether the quick tier runs.
func (c *Ctx) Quick() bool { return c.Tier != "thorough" }

// Pick returns q in the quick tier and t in the thorough one.
func Pick[T any](c *Ctx, q, t T) T {
	if c.Quick() {
		return q
	}
	return t
}

// Begin starts a sub-exploration; false when a replay excludes it.
func (c *Ctx) Begin(sub string) bool {
	if c.OnlySub != "" && c.OnlySub != sub {
		return false
	}
	c.sub = sub
	crumb(sub, nil)
	return true
}

// Mine distributes work items over the shards of a task.
func (c *Ctx) Mine(i int) bool { return c.Shards <= 1 || i%c.Shards == c.Shard }

// Expired reports whether the internal deadline has passed; the result is then not exhaustive.
func (c *Ctx) Expired() bool {
	if time.Now().After(c.Deadline) {
		if c.R.Exhaustive {
			c.R.Exhaustive = false
			c.Note("internal deadline reached in %s", c.sub)
		}
		return true
	}
	return false
}

// Note records a remark for the evidence file.
func (c *Ctx) Note(f string, a ...any) {
	if len(c.R.Notes) < 20 {
		c.R.Notes = append(c.R.Notes, fmt.Sprintf(f, a...))
	}
}

// Sample records an explored case for the evidence file.
func (c *Ctx) Sample(f string, a ...any) {
	if len(c.R.Samples) < 3 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.R.Samples = append(c.R.Samples, s)
	}
}

func hasTag(tags, prop string) bool {
	return strings.Contains(tags, prop)
}

// splitTag separates an explicit "Cnn[,Cmm]: " prefix of a failure text.
func splitTag(tags, text string) (string, string) {
	if i := strings.Index(text, ": "); i > 0 && len(text) > 3 && text[0] == 'C' && text[1] >= '0' && text[1] <= '9' {
		return text[:i], text[i+2:]
	}
	return tags, text
}

// Fail reports a violation when it belongs to the property being checked and stops the task; otherwise the caller prunes.
func (c *Ctx) Fail(tags, text string, trace []string, choices []uint8) {
	tags, text = splitTag(tags, text)
	if !hasTag(tags, c.Prop) {
		c.R.Pruned++
		return
	}
	c.R.Violations = append(c.R.Violations, Violation{Property: c.Prop, Task: c.Task, Sub: c.sub, Sig: text, Trace: append([]string{}, trace...), Choices: append([]uint8{}, choices...), Tier: c.Tier, Shard: c.Shard})
	panic(stopTask{})
}

// basic marks readers as basic.
func basic(ops ...*Op) []*Op {
	for _, o := range ops {
		o.Basic = true
	}
	return ops
}

// exec runs one operation and turns panics into results.
func exec(op *Op, sys any) (o Out) {
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case rt.AbortPanic:
				panic(e)
			case rt.DeadlockPanic:
				o = Out{S: "never returns (" + e.Error() + ")", Panic: "never returns (" + e.Error() + ")"}
			case stopTask:
				panic(e)
			default:
				msg := fmt.Sprint(e)
				if os.Getenv("VERIF_STACK") != "" {
					fmt.Fprintf(os.Stderr, "%s: %s\n%s\n", op.Name, msg, debug.Stack())
				}
				o = Out{S: "panic: " + msg, Panic: "panic: " + msg}
			}
		}
	}()
	if op.Take != nil {
		read := op.Take(sys)
		if op.Once {
			handOnce(op, sys)
		} else {
			handOut(read)
		}
		return Out{S: read()}
	}
	o = op.Do(sys)
	if rt.S == nil {
		rt.RunDeferred()
	}
	return o
}

// Watchdog: an operation that keeps the processor busy far beyond anything legitimate does not return. The measure is
// CPU time of this process, not wall-clock time, so that a loaded machine raises no alarm.
type crumbT struct {
	sub   string
	trace []string
	seq   int64
}

var curCrumb atomic.Pointer[crumbT]
var progress atomic.Int64

func crumb(sub string, trace []string) {
	curCrumb.Store(&crumbT{sub: sub, trace: trace})
	progress.Add(1)
}

func tick() { progress.Add(1) }

func cpu() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

const hangCPU = 40 * time.Second

func watchdog(c *Ctx, emit func(*Ctx)) {
	last, at := int64(-1), cpu()
	for {
		time.Sleep(500 * time.Millisecond)
		p := progress.Load()
		if p != last {
			last, at = p, cpu()
			continue
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if used := cpu() - at; used > hangCPU || ms.HeapAlloc > 6<<30 {
			cr := curCrumb.Load()
			tr := append([]string{}, cr.trace...)
			what := "an operation does not return"
			if used <= hangCPU {
				what = "an operation allocates without bound"
			}
			c.R.Violations = append(c.R.Violations, Violation{Property: c.Prop, Task: c.Task, Sub: cr.sub, Sig: what, Trace: tr, Tier: c.Tier, Shard: c.Shard})
			c.R.Exhaustive = false
			emit(c)
			os.Exit(0)
		}
	}
}
