package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/henderiw/idxtable/verifmc/rt"
)

// Conc explores every interleaving of client programs over one shared object under the controlled scheduler. Each
// execution is checked for data races (happens-before, by the race detector, which cannot see the scheduler's hand-offs),
// panics and deadlocks, and its call/return history must be explainable by some sequential order of the same calls that
// respects real time: either one in which the implementation itself, run sequentially, gives the same answers, or one
// that the reference model allows.
type Conc struct {
	Name  string
	New   func() any
	Model any
	Init  []*Op
	Ops   []*Op
	Final []*Op // readers executed after all threads are joined
	Holds []*Op // listings taken before the threads start and read out after they have finished

	most int // schedules of the program that had most
	cut  int // programs with too many
}

type event struct {
	op        *Op
	inv, resp int
	out       Out
	done      bool
}

type hist struct {
	th [][]event
}

var theSched rt.Sched

func (q *Conc) progName(p [][]int) string {
	var ts []string
	for _, t := range p {
		var os []string
		for _, i := range t {
			os = append(os, q.Ops[i].Name)
		}
		ts = append(ts, strings.Join(os, "; "))
	}
	return strings.Join(ts, "  ||  ")
}

func (q *Conc) fresh() any {
	restoreGlobals()
	sys := q.New()
	for _, op := range q.Init {
		exec(op, sys)
	}
	return sys
}

func (q *Conc) final(sys any) []Out {
	var os []Out
	for _, op := range q.Final {
		os = append(os, exec(op, sys))
	}
	return os
}

func threadBody(ev []event, sys any) func() {
	return func() {
		for i := range ev {
			ev[i].inv = rt.OpBegin()
			ev[i].out = exec(ev[i].op, sys)
			ev[i].resp = rt.OpEnd()
			ev[i].done = true
		}
	}
}

// run executes one schedule.
func (q *Conc) run(p [][]int, prefix []uint8) (*hist, []Out, any) {
	return q.execute(p, func(s *rt.Sched) { s.Reset(prefix) })
}

func (q *Conc) execute(p [][]int, reset func(*rt.Sched)) (*hist, []Out, any) {
	sys := q.fresh()
	h := &hist{}
	s := &theSched
	reset(s)
	for _, t := range p {
		ev := make([]event, len(t))
		for i, k := range t {
			ev[i].op = q.Ops[k]
		}
		h.th = append(h.th, ev)
		s.Spawn(threadBody(ev, sys))
	}
	var held []func() string
	for _, hop := range q.Holds {
		held = append(held, hop.Take(sys))
	}
	s.Run()
	var fin []Out
	if !s.Deadlock && !s.Overrun && !s.BadReplay {
		fin = q.final(sys)
		for _, f := range held {
			f := f
			fin = append(fin, exec(&Op{Do: func(any) Out { return Out{S: f()} }}, nil))
		}
	}
	return h, fin, sys
}

// seqRun executes the program's operations one after another in the given merge order.
func (q *Conc) seqRun(p [][]int, order []int) (string, bool) {
	sys := q.fresh()
	var held []func() string
	for _, hop := range q.Holds {
		held = append(held, hop.Take(sys))
	}
	pos := make([]int, len(p))
	outs := make([][]string, len(p))
	bad := false
	for _, t := range order {
		o := exec(q.Ops[p[t][pos[t]]], sys)
		pos[t]++
		outs[t] = append(outs[t], o.S)
		if o.Panic != "" {
			bad = true
		}
	}
	var b strings.Builder
	for _, os := range outs {
		for _, o := range os {
			b.WriteString(o)
			b.WriteByte(0)
		}
		b.WriteByte(1)
	}
	for _, o := range q.final(sys) {
		b.WriteString(o.S)
		b.WriteByte(0)
	}
	for _, f := range held {
		f := f
		b.WriteString(exec(&Op{Do: func(any) Out { return Out{S: f()} }}, nil).S)
		b.WriteByte(0)
	}
	return b.String(), bad
}

func merges(p [][]int) [][]int {
	var res [][]int
	rem := make([]int, len(p))
	total := 0
	for i, t := range p {
		rem[i] = len(t)
		total += len(t)
	}
	cur := make([]int, 0, total)
	var rec func()
	rec = func() {
		if len(cur) == total {
			res = append(res, append([]int{}, cur...))
			return
		}
		for i := range rem {
			if rem[i] > 0 {
				rem[i]--
				cur = append(cur, i)
				rec()
				cur = cur[:len(cur)-1]
				rem[i]++
			}
		}
	}
	rec()
	return res
}

func histKey(h *hist, fin []Out) string {
	var b strings.Builder
	for _, t := range h.th {
		for _, e := range t {
			b.WriteString(e.out.S)
			b.WriteByte(0)
		}
		b.WriteByte(1)
	}
	for _, o := range fin {
		b.WriteString(o.S)
		b.WriteByte(0)
	}
	return b.String()
}

// consistent reports whether the merge order respects the real-time order of the history.
func consistent(h *hist, order []int) bool {
	pos := make([]int, len(h.th))
	maxInv := 0
	for _, t := range order {
		e := &h.th[t][pos[t]]
		pos[t]++
		// every operation placed earlier must not have been invoked after this one responded
		if maxInv > e.resp {
			return false
		}
		if e.inv > maxInv {
			maxInv = e.inv
		}
	}
	return true
}

// modelExplains searches for a sequential order allowed by the reference model.
func (q *Conc) modelExplains(h *hist, fin []Out, m any) bool {
	pos := make([]int, len(h.th))
	var rec func(m any) bool
	rec = func(m any) bool {
		minResp := int(^uint(0) >> 1)
		left := false
		for t := range h.th {
			if pos[t] < len(h.th[t]) {
				left = true
				if r := h.th[t][pos[t]].resp; r < minResp {
					minResp = r
				}
			}
		}
		if !left {
			for i, op := range q.Final {
				if _, bad := op.Spec(m, fin[i]); bad != "" {
					return false
				}
			}
			for i, op := range q.Holds {
				if _, bad := op.Spec(q.modelAtStart(), fin[len(q.Final)+i]); bad != "" {
					return false
				}
			}
			return true
		}
		for t := range h.th {
			if pos[t] == len(h.th[t]) {
				continue
			}
			e := &h.th[t][pos[t]]
			if e.inv > minResp {
				continue
			}
			m2, bad := e.op.Spec(m, e.out)
			if bad != "" {
				continue
			}
			pos[t]++
			if rec(m2) {
				return true
			}
			pos[t]--
		}
		return false
	}
	return rec(m)
}

func (q *Conc) modelAtStart() any {
	m := q.Model
	if len(q.Init) == 0 {
		return m
	}
	sys := q.New()
	for _, op := range q.Init {
		m, _ = op.Spec(m, exec(op, sys))
	}
	return m
}

func (q *Conc) describe(p [][]int, h *hist, fin []Out, s *rt.Sched) []string {
	var tr []string
	for _, op := range q.Init {
		tr = append(tr, "init: "+op.Name)
	}
	tr = append(tr, "program: "+q.progName(p))
	type ln struct {
		at int
		s  string
	}
	var ls []ln
	for t := range h.th {
		for _, e := range h.th[t] {
			if e.inv > 0 {
				ls = append(ls, ln{e.inv, fmt.Sprintf("t%d calls   %s", t, e.op.Name)})
			}
			if e.done {
				ls = append(ls, ln{e.resp, fmt.Sprintf("t%d returns %s = %s", t, e.op.Name, e.out.S)})
			}
		}
	}
	for i := range ls {
		for j := i + 1; j < len(ls); j++ {
			if ls[j].at < ls[i].at {
				ls[i], ls[j] = ls[j], ls[i]
			}
		}
	}
	for _, l := range ls {
		tr = append(tr, l.s)
	}
	for i, o := range fin {
		if i < len(q.Final) {
			tr = append(tr, "finally "+q.Final[i].Name+" = "+o.S)
		}
	}
	return tr
}

// Program explores all schedules of one program; if there are too many (see limit), all those with 0, 1, 2... preemptions for as
// long as these are not too many.
func (q *Conc) Program(c *Ctx, p [][]int, m0 any) {
	ms := merges(p)
	seq := map[string][][]int{}
	for i, o := range ms {
		if i == 1 && !mutableGlobals && globalsChanged() {
			// some call of this program is the first to change a package-level variable: from now on these are put back
			// before every execution
			q.Program(c, p, m0)
			return
		}
		k, bad := q.seqRun(p, o)
		if bad {
			c.Fail(c.Prop, "run one after another, an operation of the program panics or never returns", []string{"program: " + q.progName(p), fmt.Sprint("order of threads: ", o)}, nil)
		}
		seq[k] = append(seq[k], o)
	}
	c.R.Programs++
	outcomes := map[string]bool{}
	n, cut := q.schedules(c, p, m0, seq, outcomes, -1)
	if cut {
		c.R.Exhaustive = false
		bound := -1
		for b := 0; b < 64; b++ {
			var k int
			k, cut = q.schedules(c, p, m0, seq, outcomes, b)
			n += k
			if cut {
				break
			}
			bound = b
		}
		if q.cut++; q.cut < 3 {
			c.Note("%s: too many schedules for %s: all with up to %d preemptions, and some more", q.Name, q.progName(p), bound)
		}
	}
	c.R.Outcomes += int64(len(outcomes))
	q.most = max(q.most, n)
}

// schedules explores the schedules with up to bound preemptions (all if negative); it says how many there were and whether
// it stopped before the end.
func (q *Conc) schedules(c *Ctx, p [][]int, m0 any, seq map[string][][]int, outcomes map[string]bool, bound int) (int, bool) {
	var prefix []uint8
	n := 0
	for {
		races := rt.RaceErrors()
		h, fin, _ := q.run(p, prefix)
		tick()
		s := &theSched
		pts := s.Points()
		choices := make([]uint8, len(pts))
		for i := range pts {
			choices[i] = pts[i].Choice
		}
		c.R.Schedules++
		c.R.Transitions += int64(s.Steps())
		n++
		fail := func(what string) {
			c.Fail(c.Prop, what, q.describe(p, h, fin, s), choices)
		}
		switch {
		case s.BadReplay:
			fmt.Fprintf(os.Stderr, "replay of a schedule prefix diverged: %s\n", q.progName(p))
			os.Exit(5)
		case rt.RaceErrors() != races:
			fail("data race")
		case s.Deadlock:
			fail("deadlock")
		case s.Overrun:
			c.R.Exhaustive = false
			c.Note("%s: an execution was cut at the horizon", q.Name)
		default:
			for t := range h.th {
				for i := range h.th[t] {
					if e := &h.th[t][i]; e.out.Panic != "" {
						fail(fmt.Sprintf("%s: %s", e.op.Name, e.out.Panic))
					}
				}
			}
			k := histKey(h, fin)
			outcomes[k] = true
			ok := false
			for _, o := range seq[k] {
				if consistent(h, o) {
					ok = true
					break
				}
			}
			if !ok && !q.modelExplains(h, fin, m0) {
				// same schedule, same history: only then is it believed
				for r := 0; r < 3; r++ {
					h2, fin2, _ := q.run(p, choices)
					if histKey(h2, fin2) != k {
						fmt.Fprintf(os.Stderr, "the same schedule gave different answers: %s\n", q.progName(p))
						os.Exit(5)
					}
				}
				fail("the answers are not those of any sequential order of the calls")
			}
		}
		// next schedule in depth-first order
		i := len(pts) - 1
		for ; i >= 0; i-- {
			if int(pts[i].Choice)+1 >= int(pts[i].N) {
				continue
			}
			if bound >= 0 {
				cost := 0
				for j := 0; j < i; j++ {
					if pts[j].Preemptive && pts[j].Choice > 0 {
						cost++
					}
				}
				if pts[i].Preemptive {
					cost++
				}
				if cost > bound {
					continue
				}
			}
			break
		}
		if i < 0 {
			return n, false
		}
		prefix = append(choices[:i:i], choices[i]+1)
		if n >= q.limit(c) || n%512 == 0 && c.Expired() {
			return n, true
		}
	}
}

// limit is the number of schedules of one program beyond which the number of preemptions is bounded.
func (q *Conc) limit(c *Ctx) int { return Pick(c, 2000, 400000) }

// Run explores all given programs.
func (q *Conc) Run(c *Ctx, progs [][][]int) {
	if !c.Begin(q.Name) {
		return
	}
	rtInit()
	m0 := q.modelAtStart()
	before := c.R.Schedules
	multi := 0
	for i, p := range progs {
		if !c.Mine(i) {
			continue
		}
		if c.Expired() {
			return
		}
		crumbLazy(q.Name, []string{q.progName(p)})
		b := c.R.Outcomes
		q.Program(c, p, m0)
		if c.R.Outcomes-b > 1 {
			multi++
			if multi == 7 {
				c.Sample("%s: program %s: %d distinct outcomes", q.Name, q.progName(p), c.R.Outcomes-b)
			}
		}
	}
	if globalsChanged() {
		putGlobals()
	}
	c.R.Traces += c.R.Schedules - before
	c.Note("%s (shard %d/%d): %d programs, %d schedules (at most %d for one), %d programs with several outcomes", q.Name, c.Shard, c.Shards, len(progs), c.R.Schedules-before, q.most, multi)
}

func rtInit() { rt.S = nil; noSpoil = true }

// programs enumerates client programs: all multisets of thread bodies (threads are interchangeable), where each body is a
// sequence of the given length over the alphabet ids.
func programs(threads, length int, ids []int) [][][]int {
	var bodies [][]int
	var rec func(b []int)
	rec = func(b []int) {
		if len(b) == length {
			bodies = append(bodies, append([]int{}, b...))
			return
		}
		for _, i := range ids {
			rec(append(b, i))
		}
	}
	rec(nil)
	var res [][][]int
	var pick func(from int, cur [][]int)
	pick = func(from int, cur [][]int) {
		if len(cur) == threads {
			res = append(res, append([][]int{}, cur...))
			return
		}
		for i := from; i < len(bodies); i++ {
			pick(i, append(cur, bodies[i]))
		}
	}
	pick(0, nil)
	return res
}

// keepMutating drops programs in which no operation changes anything (they cannot conflict).
func (q *Conc) keepMutating(ps [][][]int) [][][]int {
	var res [][][]int
	for _, p := range ps {
		mut := false
		for _, t := range p {
			for _, i := range t {
				if !q.Ops[i].Reader {
					mut = true
				}
			}
		}
		if mut {
			res = append(res, p)
		}
	}
	return res
}
