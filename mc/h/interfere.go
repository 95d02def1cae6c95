package main

import (
	"fmt"
	"math/bits"
	"net/netip"
	"os"

	"github.com/henderiw/idxtable/pkg/iptable"
	"github.com/henderiw/idxtable/verifmc/rt"
)

// A call that does its work in several steps, or that gives up and tries again when the object has changed meanwhile, must
// stay right however often another client gets in between. The exhaustive exploration of small programs has only a few
// calls to get in with; here one call meets a client that makes many, in front of every step, or of every second, and so
// on: all periodic patterns up to a length.

// patterns are the primitive patterns (no repetition of a shorter one) of up to n bits with at least one 1.
func patterns(n int) [][2]int {
	var ps [][2]int
	for l := 1; l <= n; l++ {
	next:
		for b := 1; b < 1<<l; b++ {
			for d := 1; d < l; d++ {
				if l%d != 0 {
					continue
				}
				same := true
				for i := 0; i < l; i++ {
					if b>>i&1 != b>>(i%d)&1 {
						same = false
					}
				}
				if same {
					continue next
				}
			}
			ps = append(ps, [2]int{b, l})
		}
	}
	return ps
}

// Interfere runs each victim against each client under every pattern.
func (q *Conc) Interfere(c *Ctx, victims []*Op, clients [][]*Op, period int) {
	if !c.Begin(q.Name) {
		return
	}
	rtInit()
	m0 := q.modelAtStart()
	ps := patterns(period)
	before := c.R.Schedules
	n, between := 0, 0
	for _, v := range victims {
		for _, cl := range clients {
			n++
			if !c.Mine(n) {
				continue
			}
			if c.Expired() {
				return
			}
			q.Ops = append([]*Op{v}, cl...)
			p := [][]int{{0}, seqInts(len(cl) + 1)[1:]}
			order := append(make([]int, 1, len(cl)+1), make([]int, len(cl))...)
			for i := range cl {
				order[i+1] = 1
			}
			crumbLazy(q.Name, []string{q.progName(p)})
			if _, bad := q.seqRun(p, order); bad {
				c.Fail(c.Prop, "run one after another, an operation of the program panics or never returns", []string{"program: " + q.progName(p)}, nil)
			}
			if !mutableGlobals && globalsChanged() {
				putGlobals()
			}
			c.R.Programs++
			outcomes := map[string]bool{}
			for _, pt := range ps {
				between = max(between, q.pattern(c, p, m0, pt, outcomes))
			}
			c.R.Outcomes += int64(len(outcomes))
		}
	}
	if globalsChanged() {
		putGlobals()
	}
	c.R.Traces += c.R.Schedules - before
	c.Note("%s (shard %d/%d): %d calls, %d clients of %d calls, %d patterns; %d schedules, up to %d calls during the one", q.Name, c.Shard, c.Shards, len(victims), len(clients), len(clients[0]), len(ps), c.R.Schedules-before, between)
}

func (q *Conc) pattern(c *Ctx, p [][]int, m0 any, pt [2]int, outcomes map[string]bool) int {
	races := rt.RaceErrors()
	s := &theSched
	h, fin, _ := q.runPattern(p, pt)
	tick()
	c.R.Schedules++
	c.R.Transitions += int64(s.Steps())
	pts := s.Points()
	choices := make([]uint8, len(pts))
	for i := range pts {
		choices[i] = pts[i].Choice
	}
	fail := func(what string) { c.Fail(c.Prop, what, q.describe(p, h, fin, s), choices) }
	switch {
	case rt.RaceErrors() != races:
		fail("data race")
		return 0
	case s.Deadlock:
		fail("deadlock")
		return 0
	case s.Overrun:
		c.R.Exhaustive = false
		c.Note("%s: an execution was cut at the horizon", q.Name)
		return 0
	}
	for t := range h.th {
		for i := range h.th[t] {
			if e := &h.th[t][i]; e.out.Panic != "" {
				fail(fmt.Sprintf("%s: %s", e.op.Name, e.out.Panic))
				return 0
			}
		}
	}
	v := h.th[0][0]
	between := 0
	for _, e := range h.th[1] {
		if e.inv < v.resp && e.resp > v.inv {
			between++
		}
	}
	k := histKey(h, fin)
	outcomes[k] = true
	if q.modelExplains(h, fin, m0) {
		return between
	}
	// the implementation itself with the call at any place among the others
	for at := 0; at <= len(h.th[1]); at++ {
		var order []int
		for i := 0; i <= len(h.th[1]); i++ {
			if i == at {
				order = append(order, 0)
			}
			if i < len(h.th[1]) {
				order = append(order, 1)
			}
		}
		if !consistent(h, order) {
			continue
		}
		if sk, _ := q.seqRun(p, order); sk == k {
			return between
		}
	}
	for r := 0; r < 3; r++ {
		h2, fin2, _ := q.run(p, choices)
		if histKey(h2, fin2) != k {
			fmt.Fprintf(os.Stderr, "the same schedule gave different answers: %s\n", q.progName(p))
			os.Exit(5)
		}
	}
	fail(fmt.Sprintf("the answers are not those of any sequential order of the calls (%d calls during %s, pattern %0*b)", between, v.op.Name, pt[1], bits.Reverse64(uint64(pt[0]))>>(64-pt[1])))
	return between
}

func (q *Conc) runPattern(p [][]int, pt [2]int) (*hist, []Out, any) {
	return q.execute(p, func(s *rt.Sched) { s.Reset(nil); s.Interfere(uint64(pt[0]), pt[1]) })
}

// cycle repeats ops until there are n.
func cycle(n int, ops ...*Op) []*Op {
	var r []*Op
	for i := 0; i < n; i++ {
		r = append(r, ops[i%len(ops)])
	}
	return r
}

// each is f(0), f(1), ... f(n-1).
func each(n int, f func(i int) *Op) []*Op {
	var r []*Op
	for i := 0; i < n; i++ {
		r = append(r, f(i))
	}
	return r
}

func idxInterfere(c *Ctx) {
	n := Pick(c, 14, 40)
	per := Pick(c, 5, 8)
	N := uint64(n) + 8
	q := idxConc(c, "a call among many, table empty", N, nil)
	vs := q.Ops
	q.Interfere(c, vs, [][]*Op{
		each(n, func(i int) *Op { return idxClaim(uint64(i), "k") }),
		each(n, func(i int) *Op { return idxClaim(N-1-uint64(i), "k") }),
		cycle(n, idxClaimDynamic("k")),
		cycle(n, idxClaim(0, "k"), idxRelease(0)),
		cycle(n, idxClaim(2, "k"), idxUpdate(2, "l"), idxRelease(2)),
		cycle(n, idxClaimRange(0, 2, "k"), idxRelease(0), idxRelease(1)),
		cycle(n, idxGetAll(), idxIterate()),
	}, per)
	q = idxConc(c, "a call among many, table partial", N, []*Op{idxClaim(0, "p"), idxClaim(1, "q"), idxClaim(5, "r")})
	q.Interfere(c, vs, [][]*Op{
		cycle(n, idxUpdate(0, "k"), idxUpdate(1, "k"), idxUpdate(0, "l"), idxUpdate(1, "l")),
		cycle(n, idxRelease(1), idxClaim(1, "k")),
		cycle(n, idxRelease(5), idxClaim(5, "k")),
		cycle(n, idxClaim(0, "k"), idxFindFree()),
		cycle(n, idxClaimSize(2, "k"), idxRelease(0), idxRelease(2), idxRelease(3)),
	}, per)
}

func ipInterfere(c *Ctx, v6 bool) {
	n := Pick(c, 14, 40)
	per := Pick(c, 5, 8)
	pre, fam := "10.0.0.", "IP table"
	if v6 {
		pre, fam = "2001:db8::", "IPv6 table"
	}
	at := func(i int) string { return fmt.Sprintf("%s%d", pre, i) }
	if v6 {
		at = func(i int) string { return fmt.Sprintf("%s%x", pre, i) }
	}
	last := n + 6
	mk := func(name string, init []*Op) *Conc {
		q := ipConc(fam+" "+name, v6, init)
		f, t := netip.MustParseAddr(at(1)), netip.MustParseAddr(at(last))
		q.New, q.Model = func() any { return iptable.New(f, t) }, ipM{f, t, map[netip.Addr]string{}}
		return q
	}
	q := mk("a call among many, empty", nil)
	vs := q.Ops
	q.Interfere(c, vs, [][]*Op{
		each(n, func(i int) *Op { return ipClaim(at(i+1), "10.1.0.0/24 a=1") }),
		each(n, func(i int) *Op { return ipClaim(at(last-i), "10.1.0.0/24 a=1") }),
		cycle(n, ipClaim(at(1), "10.1.0.0/24 a=1"), ipRelease(at(1))),
		cycle(n, ipClaim(at(4), "10.1.0.0/24 a=1"), ipUpdate(at(4), "10.2.0.0/24 b=1"), ipRelease(at(4))),
		cycle(n, ipGetAll(), ipFindFree()),
	}, per)
	q = mk("a call among many, partial", []*Op{ipClaim(at(1), "10.1.0.0/24 a=9"), ipClaim(at(2), "10.1.0.0/24 b=9"), ipClaim(at(5), "10.1.0.0/24 a=1")})
	q.Interfere(c, vs, [][]*Op{
		cycle(n, ipUpdate(at(1), "10.2.0.0/24 a=1"), ipUpdate(at(2), "10.2.0.0/24 a=1"), ipUpdate(at(1), "10.2.0.0/24 b=1"), ipUpdate(at(2), "10.2.0.0/24 b=1")),
		cycle(n, ipRelease(at(2)), ipClaim(at(2), "10.1.0.0/24 a=1")),
		cycle(n, ipRelease(at(5)), ipClaim(at(5), "10.1.0.0/24 a=1")),
		cycle(n, ipRelease(at(1)), ipClaim(at(3), "10.1.0.0/24 a=1"), ipClaim(at(1), "10.1.0.0/24 a=1"), ipRelease(at(3))),
	}, per)
}

func tabInterfere(c *Ctx, w int) {
	n := Pick(c, 14, 40)
	per := Pick(c, 5, 8)
	last := uint64(5 + n + 6)
	mk := func(name string, init []*Op) *Conc {
		q := tabConc(w, fmt.Sprintf("table%d %s", w, name), init)
		q.New, q.Model = func() any { return newTab(w, 5, last) }, tabM{w, 5, last, map[uint64]string{}}
		return q
	}
	q := mk("a call among many, empty", nil)
	vs := q.Ops
	q.Interfere(c, vs, [][]*Op{
		each(n, func(i int) *Op { return tabClaim(5+uint64(i), "a=1") }),
		each(n, func(i int) *Op { return tabClaim(last-uint64(i), "a=1") }),
		cycle(n, tabClaimFree("a=1")),
		cycle(n, tabClaim(5, "a=1"), tabRelease(5)),
		cycle(n, tabClaim(8, "a=1"), tabUpdate(8, "b=1"), tabRelease(8)),
		cycle(n, tabGetAll(), tabFindFree()),
	}, per)
	q = mk("a call among many, partial", []*Op{tabClaim(5, "a=9"), tabClaim(6, "b=9"), tabClaim(9, "a=1")})
	q.Interfere(c, vs, [][]*Op{
		cycle(n, tabUpdate(5, "a=1"), tabUpdate(6, "a=1"), tabUpdate(5, "b=1"), tabUpdate(6, "b=1")),
		cycle(n, tabRelease(6), tabClaim(6, "a=1")),
		cycle(n, tabRelease(9), tabClaim(9, "a=1")),
		cycle(n, tabRelease(5), tabClaimFree("a=1")),
		cycle(n, tabRelease(5), tabClaim(7, "a=1"), tabClaim(5, "a=1"), tabRelease(7)),
	}, per)
}

func gtInterfere(c *Ctx, w int) {
	n := Pick(c, 14, 40)
	per := Pick(c, 5, 8)
	W := uint8(w)
	mk := func(name string, init []*Op) *Conc {
		q := gtConc(w, fmt.Sprintf("tree%d %s", w, name), init)
		q.New, q.Model = func() any { return mustGT(w, 6) }, gtM{w, 6, map[pfx]string{}}
		return q
	}
	id := func(i int) pfx { return pfx{uint64(i), W} }
	q := mk("a call among many, empty", nil)
	vs := q.Ops
	q.Interfere(c, vs, [][]*Op{
		each(n, func(i int) *Op { return gtClaim(w, id(i), "a=1", false) }),
		each(n, func(i int) *Op { return gtClaim(w, id(63-i), "a=1", false) }),
		cycle(n, gtClaimFree("a=1")),
		cycle(n, gtClaim(w, id(0), "a=1", false), gtRelease(w, id(0))),
		cycle(n, gtClaim(w, pfx{2, W - 1}, "a=1", false), gtClaim(w, pfx{2, W - 1}, "b=1", true), gtRelease(w, pfx{2, W - 1})),
		cycle(n, gtClaimRangePlain("1-3", "a=1"), gtReleaseByLabel(selectors[2])),
		cycle(n, gtGetAll(), gtCloneList()),
	}, per)
	q = mk("a call among many, partial", []*Op{gtClaim(w, id(0), "a=9", false), gtClaim(w, id(1), "b=9", false), gtClaim(w, pfx{4, W - 2}, "a=1", false)})
	q.Interfere(c, vs, [][]*Op{
		cycle(n, gtClaim(w, id(0), "a=1", true), gtClaim(w, id(1), "a=1", true), gtClaim(w, id(0), "b=1", true), gtClaim(w, id(1), "b=1", true)),
		cycle(n, gtRelease(w, id(1)), gtClaim(w, id(1), "a=1", false)),
		cycle(n, gtRelease(w, pfx{4, W - 2}), gtClaim(w, pfx{4, W - 2}, "a=1", false)),
		cycle(n, gtRelease(w, id(0)), gtClaimFree("a=1")),
		cycle(n, gtRelease(w, id(0)), gtClaim(w, id(2), "a=1", false), gtClaim(w, id(0), "a=1", false), gtRelease(w, id(2))),
	}, per)
}
