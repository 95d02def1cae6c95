package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	osexec "os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/henderiw/idxtable/verifmc/rt"
)

// Task is one unit of exploration, run in its own process.
type Task struct {
	Name   string
	Race   bool // needs the race-detector build
	Shards int
	Run    func(c *Ctx)
}

// Prop collects the tasks that decide one property.
type Prop struct {
	ID          string
	Tasks       func(tier string) []Task
	Assumptions []string
}

var props = map[string]*Prop{}

func register(id string, tasks func(tier string) []Task, assumptions ...string) {
	props[id] = &Prop{ID: id, Tasks: tasks, Assumptions: assumptions}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: h check|task|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		parent(os.Args[2:])
	case "task":
		child(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	case "list":
		for _, t := range tasksOf(os.Args[2], os.Args[3]) {
			fmt.Println(t.Name, t.Race, t.Shards)
		}
	default:
		os.Exit(2)
	}
}

func tasksOf(prop, tier string) []Task {
	p := props[prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		os.Exit(2)
	}
	return p.Tasks(tier)
}

// ---- child ----

func child(args []string) {
	fs := flag.NewFlagSet("task", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	name := fs.String("name", "", "")
	tier := fs.String("tier", "quick", "")
	shard := fs.Int("shard", 0, "")
	sub := fs.String("sub", "", "")
	out := fs.String("out", "", "")
	secs := fs.Int("secs", 600, "")
	fs.Parse(args)
	// one logical processor runs the exploration; a second one keeps the watchdog and the collector going
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	debug.SetMaxStack(256 << 20)
	for _, t := range tasksOf(*prop, *tier) {
		if t.Name != *name {
			continue
		}
		c := &Ctx{Prop: *prop, Task: *name, Tier: *tier, OnlySub: *sub, Shard: *shard, Shards: t.Shards, Deadline: time.Now().Add(time.Duration(*secs) * time.Second)}
		c.R.Exhaustive = true
		emit := func(c *Ctx) {
			b, _ := json.Marshal(c.R)
			if err := os.WriteFile(*out, b, 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(4)
			}
		}
		crumb("", nil)
		saveGlobals()
		go watchdog(c, emit)
		if t.Race {
			if !rt.RaceEnabled {
				fmt.Fprintln(os.Stderr, "task needs the race build")
				os.Exit(4)
			}
			runtime.GOMAXPROCS(1)
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(stopTask); !ok {
						panic(e)
					}
				}
			}()
			t.Run(c)
		}()
		emit(c)
		return
	}
	fmt.Fprintln(os.Stderr, "unknown task", *name)
	os.Exit(4)
}

// ---- parent ----

type job struct {
	t     Task
	shard int
	res   *Result
	err   string
	crash bool
	wall  float64
	// killed: another task has found a violation meanwhile
	killed bool
	// viols are the violations that are not listed as known and have been confirmed
	viols []Violation
}

type runner struct {
	prop, tier, dir string
	plain, race     string
	secs            int
	mu              sync.Mutex
	n               int
	ctx             context.Context
}

// runTask runs one task (or one exploration of it) in a process of its own, for at most secs seconds.
func (r *runner) runTask(t Task, shard int, sub string, secs int) *job {
	j := &job{t: t, shard: shard}
	r.mu.Lock()
	r.n++
	out := filepath.Join(r.dir, fmt.Sprintf("res%d.json", r.n))
	r.mu.Unlock()
	bin := r.plain
	if t.Race {
		bin = r.race
	}
	cmd := osexec.CommandContext(r.ctx, bin, "task", "-prop", r.prop, "-name", t.Name, "-tier", r.tier, "-shard", strconv.Itoa(shard), "-sub", sub, "-out", out, "-secs", strconv.Itoa(secs))
	cmd.Env = append(os.Environ(), "GORACE=exitcode=0 history_size=2")
	var errb strings.Builder
	cmd.Stderr = &limited{b: &errb}
	st := time.Now()
	err := cmd.Run()
	j.wall = time.Since(st).Seconds()
	b, rerr := os.ReadFile(out)
	os.Remove(out)
	if r.ctx.Err() != nil && err != nil {
		j.killed = true
		return j
	}
	if err != nil || rerr != nil {
		j.err = fmt.Sprintf("%v %v\n%s", err, rerr, errb.String())
		j.crash = true
		return j
	}
	j.res = &Result{}
	if err := json.Unmarshal(b, j.res); err != nil {
		j.err = err.Error()
		j.crash = true
		return j
	}
	j.err = errb.String()
	return j
}

type limited struct{ b *strings.Builder }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 60000 {
		l.b.Write(p)
	}
	return len(p), nil
}

type knownFinding struct {
	Property string `json:"property"`
	Task     string `json:"task"`
	Sub      string `json:"sub"`
	Sig      string `json:"sig"`
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

func parent(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int("seed", 1, "")
	plain := fs.String("plain", "", "")
	race := fs.String("race", "", "")
	verif := fs.String("verif", "/verif", "")
	dir := fs.String("dir", "", "")
	secs := fs.Int("secs", 500, "")
	workers := fs.Int("workers", runtime.NumCPU(), "")
	only := fs.String("task", "", "run only this task")
	verbose := fs.Bool("v", false, "")
	fs.Parse(args)
	start := time.Now()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	r := &runner{prop: *prop, tier: *tier, dir: *dir, plain: *plain, race: *race, secs: *secs, ctx: ctx}
	tasks := tasksOf(*prop, *tier)
	var jobs []*job
	for _, t := range tasks {
		if *only != "" && t.Name != *only {
			continue
		}
		n := t.Shards
		if n < 1 {
			n = 1
		}
		for s := 0; s < n; s++ {
			jobs = append(jobs, &job{t: t, shard: s})
		}
	}
	var known []knownFinding
	if b, err := os.ReadFile(filepath.Join(*verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &known); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			os.Exit(2)
		}
	}
	matches := func(v Violation) *knownFinding {
		for i := range known {
			k := &known[i]
			if k.Fixed == "" && k.Property == v.Property && k.Task == v.Task && k.Sub == v.Sub && k.Sig == v.Sig {
				return k
			}
		}
		return nil
	}

	ch := make(chan *job)
	var wg sync.WaitGroup
	results := make([]*job, 0, len(jobs))
	var mu sync.Mutex
	var errs []string
	left := len(jobs)
	// budget is a fair share of the time that is left: tasks that are done early leave more to the others
	budget := func() int {
		mu.Lock()
		defer mu.Unlock()
		rest := float64(*secs) - time.Since(start).Seconds()
		n := rest * float64(*workers) / float64(left)
		left--
		return int(max(min(rest, n), 40))
	}
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				if ctx.Err() != nil {
					continue
				}
				res := r.runTask(j.t, j.shard, "", budget())
				r.judge(res, tasks, matches, &mu, &errs)
				if res.killed {
					continue
				}
				mu.Lock()
				results = append(results, res)
				mu.Unlock()
				if len(res.viols) > 0 {
					cancel()
				}
				if *verbose {
					fmt.Printf("task %s shard %d: %.1fs", res.t.Name, res.shard, res.wall)
					if res.res != nil {
						fmt.Printf(" states %d transitions %d schedules %d cases %d pruned %d exhaustive %v", res.res.States, res.res.Transitions, res.res.Schedules, res.res.Cases, res.res.Pruned, res.res.Exhaustive)
						for _, n := range res.res.Notes {
							fmt.Printf("\n    %s", n)
						}
					}
					if res.err != "" {
						fmt.Printf("\n%s", res.err)
					}
					fmt.Println()
				}
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()

	tot := Result{Exhaustive: ctx.Err() == nil && len(errs) == 0}
	var viols, listed []Violation
	raceText := map[string]string{}
	for _, j := range results {
		viols = append(viols, j.viols...)
		if j.crash {
			tot.Exhaustive = false
			continue
		}
		x := j.res
		tot.States += x.States
		tot.Transitions += x.Transitions
		tot.Schedules += x.Schedules
		tot.Traces += x.Traces
		tot.Programs += x.Programs
		tot.Cases += x.Cases
		tot.Pruned += x.Pruned
		tot.Outcomes += x.Outcomes
		tot.Exhaustive = tot.Exhaustive && x.Exhaustive
		tot.Notes = append(tot.Notes, x.Notes...)
		tot.Samples = append(tot.Samples, x.Samples...)
		for _, v := range x.Violations {
			listed = append(listed, v)
			if strings.Contains(v.Sig, "data race") {
				raceText[v.Task+v.Sub] = j.err
			}
		}
	}
	sort.Slice(viols, func(i, j int) bool { return len(viols[i].Trace) < len(viols[j].Trace) })

	exit := 0
	nviol := 0
	printed := map[string]bool{}
	for _, v := range listed {
		if k := matches(v); k != nil {
			line := fmt.Sprintf("KNOWN-FINDING: property=%s %s", v.Property, k.What)
			if !printed[line] {
				fmt.Println(line)
				printed[line] = true
			}
		}
	}
	if len(viols) > 0 {
		v := viols[0]
		nviol++
		rd := filepath.Join(*verif, "out")
		os.MkdirAll(rd, 0o755)
		fn := filepath.Join(rd, fmt.Sprintf("%s-%s-%d.json", v.Property, strings.Map(safe, v.Task), time.Now().UnixNano()))
		b, _ := json.MarshalIndent(v, "", " ")
		if err := os.WriteFile(fn, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		fmt.Printf("property %s, task %s, exploration %s: %s\n", v.Property, v.Task, v.Sub, v.Sig)
		for _, l := range v.Trace {
			fmt.Println("   ", l)
		}
		if t := raceText[v.Task+v.Sub]; t != "" {
			fmt.Println(t)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, fn)
		exit = 1
	}
	// evidence
	if len(tot.Samples) > 6 {
		tot.Samples = tot.Samples[:6]
	}
	if len(tot.Notes) > 60 {
		tot.Notes = tot.Notes[:60]
	}
	states := tot.States
	if states == 0 {
		states = tot.Outcomes + tot.Cases
	}
	cov := map[string]any{
		"states":                        states,
		"transitions":                   tot.Transitions + tot.Cases,
		"traces_validated_against_impl": tot.Traces + tot.Cases,
		"samples":                       tot.Samples,
		"exhaustive":                    tot.Exhaustive,
		"explanation":                   "the real code is explored: states are distinct (implementation memory x reference model) states, or distinct outcomes of client programs and bounded inputs; transitions are operations executed and checked, scheduling steps, or inputs; every trace is an execution of the implementation itself (there is no separate model whose traces would need replaying)",
		"bounds_completed":              tot.Notes,
		"tasks":                         len(results),
	}
	if tot.Schedules > 0 {
		cov["schedules"] = tot.Schedules
		cov["programs"] = tot.Programs
		cov["distinct_outcomes"] = tot.Outcomes
	}
	if tot.Cases > 0 {
		cov["inputs_enumerated"] = tot.Cases
	}
	if tot.Pruned > 0 {
		cov["transitions_not_followed"] = tot.Pruned
	}
	if len(tot.Samples) == 0 {
		cov["samples"] = []string{"none recorded"}
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": *seed, "level": "model_checking",
		"coverage": cov, "assumptions": append([]string{}, props[*prop].Assumptions...), "wall_s": time.Since(start).Seconds(), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	for _, e := range errs {
		fmt.Fprintln(os.Stderr, "note:", e)
	}
	fmt.Printf("%s %s: states=%d transitions=%d traces=%d schedules=%d cases=%d exhaustive=%v tasks=%d wall=%.1fs\n", *prop, *tier, tot.States, tot.Transitions, tot.Traces, tot.Schedules, tot.Cases, tot.Exhaustive, len(results), time.Since(start).Seconds())
	if exit == 0 && len(results) > 0 && len(errs) == len(results) {
		// nothing could be explored at all
		os.Exit(3)
	}
	os.Exit(exit)
}

func safe(r rune) rune {
	if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' {
		return r
	}
	return '_'
}

// crashed decides whether the crash of a task is the code's doing: it must repeat.
func (r *runner) crashed(j *job) (Violation, bool) {
	if !strings.Contains(j.err, "stack overflow") && !strings.Contains(j.err, "fatal error") {
		return Violation{}, false
	}
	for i := 0; i < 2; i++ {
		k := r.runTask(j.t, j.shard, "", r.secs)
		if !k.crash || (!strings.Contains(k.err, "stack overflow") && !strings.Contains(k.err, "fatal error")) {
			return Violation{}, false
		}
	}
	t := j.err
	if len(t) > 3000 {
		t = t[:3000]
	}
	return Violation{Property: r.prop, Task: j.t.Name, Sig: "process crash", Trace: strings.Split(t, "\n"), Tier: r.tier}, true
}

// judge confirms what a task has found.
func (r *runner) judge(j *job, tasks []Task, matches func(Violation) *knownFinding, mu *sync.Mutex, errs *[]string) {
	say := func(f string, a ...any) {
		if r.ctx.Err() == nil {
			mu.Lock()
			*errs = append(*errs, fmt.Sprintf(f, a...))
			mu.Unlock()
		}
	}
	switch {
	case j.killed:
	case j.crash:
		// a crash of the process under exploration (stack exhaustion, fatal runtime error): deterministic ones are
		// failures of the code under test
		if v, ok := r.crashed(j); ok {
			j.viols = append(j.viols, v)
		} else {
			say("task %s shard %d: %s", j.t.Name, j.shard, j.err)
		}
	default:
		for _, v := range j.res.Violations {
			if matches(v) != nil {
				continue
			}
			if r.confirm(v, tasks) {
				j.viols = append(j.viols, v)
				return
			}
			say("a violation could not be reproduced and is not reported: %+v", v)
		}
	}
}

// confirm re-runs the exploration that found v in fresh processes; the identical violation must come back every time.
func (r *runner) confirm(v Violation, tasks []Task) bool {
	for _, t := range tasks {
		if t.Name != v.Task {
			continue
		}
		shard := v.Shard
		ok := make([]bool, 5)
		var wg sync.WaitGroup
		for i := range ok {
			wg.Add(1)
			go func() {
				defer wg.Done()
				j := r.runTask(t, shard, v.Sub, r.secs)
				ok[i] = j.res != nil && same(j.res.Violations, v)
			}()
		}
		wg.Wait()
		for _, o := range ok {
			if !o {
				return false
			}
		}
		return true
	}
	return false
}

func same(vs []Violation, v Violation) bool {
	for _, w := range vs {
		if w.Sig == v.Sig && w.Sub == v.Sub && (len(w.Trace) == 0 || len(v.Trace) == 0 || w.Trace[0] == v.Trace[0]) {
			return true
		}
	}
	return false
}

// replay re-runs the exploration recorded in a replay file and prints what it finds.
func replay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	file := fs.String("file", "", "")
	plain := fs.String("plain", "", "")
	race := fs.String("race", "", "")
	dir := fs.String("dir", "", "")
	fs.Parse(args)
	b, err := os.ReadFile(*file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	r := &runner{prop: v.Property, tier: v.Tier, dir: *dir, plain: *plain, race: *race, secs: 600, ctx: context.Background()}
	for _, t := range tasksOf(v.Property, v.Tier) {
		if t.Name != v.Task {
			continue
		}
		for s := v.Shard; s <= v.Shard; s++ {
			j := r.runTask(t, s, v.Sub, r.secs)
			if j.crash {
				fmt.Println(j.err)
				os.Exit(1)
			}
			for _, w := range j.res.Violations {
				fmt.Printf("%s: %s\n", w.Sub, w.Sig)
				for _, l := range w.Trace {
					fmt.Println("   ", l)
				}
				fmt.Println(j.err)
				fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, *file)
				os.Exit(1)
			}
		}
	}
	fmt.Println("not reproduced")
}
