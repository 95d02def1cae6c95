package main

import (
	"fmt"
	"net/netip"

	"github.com/henderiw/idxtable/pkg/iptable"
)

// C26 without threads: what an object answers depends on the calls made on it, not on those made on other objects. Every
// object is explored alone first; then two of them are explored side by side, each answer compared with the one given alone.

// soloT is the complete behaviour of one object up to a number of calls: a state machine over its alphabet.
type soloT struct {
	q     *Seq
	nodes []soloNode
}

type soloNode struct {
	path []int32
	out  []string // what every operation answers
	next []int    // -1: not explored
}

// explore makes the machine. Package-level variables are put back before every history, so that nothing is inherited.
func explore(c *Ctx, q *Seq, depth int) *soloT {
	s := &soloT{q: q}
	seen := map[hkey]int{}
	node := func(path []int32, deep string) int {
		k := hash(deep, "")
		if i, ok := seen[k]; ok {
			return i
		}
		seen[k] = len(s.nodes)
		s.nodes = append(s.nodes, soloNode{path: path})
		return len(s.nodes) - 1
	}
	build := func(path []int32) any {
		putGlobals()
		sys := q.New()
		for _, op := range q.Init {
			exec(op, sys)
		}
		for _, i := range path {
			exec(q.Ops[i], sys)
		}
		return sys
	}
	node(nil, Snap(build(nil)))
	for i := 0; i < len(s.nodes); i++ {
		path := s.nodes[i].path
		out, next := make([]string, len(q.Ops)), make([]int, len(q.Ops))
		for j, op := range q.Ops {
			sys := build(path)
			o := exec(op, sys)
			tick()
			c.R.Transitions++
			out[j], next[j] = outText(o), -1
			if o.Panic == "" && len(path) < depth {
				next[j] = node(append(append(make([]int32, 0, len(path)+1), path...), int32(j)), Snap(sys))
			}
		}
		s.nodes[i].out, s.nodes[i].next = out, next
	}
	globalsChanged()
	return s
}

// beside is the product of two machines with the real objects.
func beside(name string, a, b *soloT, depth int) *Seq {
	q := &Seq{Name: name, Depth: depth, Model: [2]int{}, Key: func(m any) string { return fmt.Sprint(m) },
		New: func() any {
			x, y := a.q.New(), b.q.New()
			for _, op := range a.q.Init {
				exec(op, x)
			}
			for _, op := range b.q.Init {
				exec(op, y)
			}
			return &pairT{x, y}
		}}
	for side, s := range []*soloT{a, b} {
		for j, op := range s.q.Ops {
			side, s, j, op := side, s, j, op
			x := &Op{Name: []string{"first.", "second."}[side] + op.Name, Tags: "C26"}
			x.Do = func(y any) Out {
				p := y.(*pairT)
				return Out{S: outText(exec(op, []any{p.a, p.b}[side]))}
			}
			x.Spec = func(m any, o Out) (any, string) {
				n := m.([2]int)
				if want := s.nodes[n[side]].out[j]; o.S != want {
					return m, fmt.Sprintf("got %s, alone the same calls give %s", o.S, want)
				}
				if n[side] = s.nodes[n[side]].next[j]; n[side] < 0 {
					return m, "C00: not explored alone"
				}
				return n, ""
			}
			q.Ops = append(q.Ops, x)
		}
	}
	return q
}

// soloKind is one kind of object with the ways to begin.
type soloKind struct {
	name  string
	q     *Seq
	inits map[string][]*Op
}

func soloKinds() []soloKind {
	var ks []soloKind
	add := func(name string, q *Conc, inits map[string][]*Op) {
		inits["new"] = nil
		ks = append(ks, soloKind{name, &Seq{Name: name, New: q.New, Ops: q.Ops}, inits})
	}
	add("index table", idxConc(nil, "", 3, nil), map[string][]*Op{"full": {idxClaimRange(0, 3, "x")}, "one left": {idxClaimRange(1, 2, "x")}})
	for _, v6 := range []bool{false, true} {
		q := ipConc("", v6, nil)
		full := []*Op{q.Ops[0], q.Ops[8], q.Ops[13]}
		add(Pick2(v6, "IPv6 table", "IP table"), q, map[string][]*Op{"full": full, "one left": full[:2]})
	}
	for _, w := range widths {
		add(fmt.Sprintf("table%d", w), tabConc(w, "", nil), map[string][]*Op{"full": {tabClaim(5, "a=9"), tabClaim(6, "z=9"), tabClaim(7, "b=9")}, "one left": {tabClaim(5, "a=9"), tabClaim(7, "b=9")}})
		add(fmt.Sprintf("tree%d", w), gtConc(w, "", nil), map[string][]*Op{"full": {gtClaimRangePlain("0-3", "f=1")}, "one left": {gtClaimRangePlain("1-3", "f=1")}, "nested": {gtClaim(w, pfx{0, uint8(w) - 1}, "a=7", false), gtClaim(w, pfx{1, uint8(w)}, "z=9", false)}})
		k := genKind(w)
		add(k.name, &Conc{New: k.new, Ops: k.ops}, map[string][]*Op{"two siblings": k.init})
		v := valueKind(w)
		add(v.name, &Conc{New: v.new, Ops: v.ops}, map[string][]*Op{})
	}
	return ks
}

func besideTasks(quick bool) []Task {
	ks := soloKinds()
	var ts []Task
	for i := range ks {
		i := i
		ts = append(ts, Task{Name: "beside " + ks[i].name, Run: func(c *Ctx) {
			for _, in := range sortedKeys(ks[i].inits) {
				x := *ks[i].q
				x.Init = ks[i].inits[in]
				deep := Pick(c, 4, 5)
				if len(ks[i].q.Ops) > 18 {
					deep = Pick(c, 3, 4)
				}
				var a *soloT
				for j := i; j < len(ks); j++ {
					for _, in2 := range sortedKeys(ks[j].inits) {
						if j == i && in2 < in || c.Expired() {
							continue
						}
						d := Pick(c, 2, 3)
						if j == i {
							d = deep
						}
						name := fmt.Sprintf("%s (%s) beside %s (%s)", ks[i].name, in, ks[j].name, in2)
						if c.OnlySub != "" && c.OnlySub != name {
							continue
						}
						if a == nil {
							a = explore(c, &x, deep)
						}
						y := *ks[j].q
						y.Init = ks[j].inits[in2]
						q := beside(name, a, explore(c, &y, d), d)
						q.Run(c)
					}
				}
			}
		}})
	}
	ts = append(ts, Task{Name: "long beside", Shards: Pick2(quick, 4, 8), Run: besideLong})
	return ts
}

// script is a long history of one object.
type script struct {
	name string
	new  func() any
	ops  []*Op
}

func longScripts(c *Ctx, variant int) []script {
	var ss []script
	mix := func(ops, reads []*Op) []*Op {
		var out []*Op
		for i, op := range ops {
			out = append(out, op)
			if i%3 == 2 {
				out = append(out, reads[i/3%len(reads)])
			}
		}
		return append(out, reads...)
	}
	add := func(name string, mk func() any, reads []*Op, n int, claim, release func(k int) *Op, extra ...*Op) {
		pick := 0
		fillCycles(n, 2, claim, release, extra...)(func(ops []*Op, _ func(int) bool) bool {
			if pick%7 == variant%7 {
				ss = append(ss, script{fmt.Sprintf("%s, history %d", name, pick), mk, mix(ops, reads)})
				return false
			}
			pick++
			return true
		})
	}
	for _, n := range Pick(c, []int{9, 40, 300}, []int{9, 17, 40, 100, 300}) {
		N := uint64(n)
		add(fmt.Sprintf("index table of %d", n), newIdx(N), []*Op{idxGetAll(), idxFindFree(), idxSize(), idxIterateFree(), idxFindFreeSize(2)}, n, func(k int) *Op {
			if k%3 == 2 {
				return idxClaimDynamic("a")
			}
			return idxClaim(uint64(k), []string{"a", "b"}[k%2])
		}, func(k int) *Op { return idxRelease(uint64(k)) }, idxClaimSize(2, "c"), idxClaimRange(N/2, 3, "d"), idxClaimDynamic("e"))
		as := []netip.Addr{netip.MustParseAddr("10.0.0.250")}
		for len(as) < n {
			as = append(as, as[len(as)-1].Next())
		}
		add(fmt.Sprintf("IP table of %d", n), func() any { return iptable.New(as[0], as[n-1]) }, []*Op{ipGetAll(), ipFindFree(), ipSize(), ipGetByLabel(selectors[1])}, n,
			func(k int) *Op { return ipClaim(as[k].String(), fmt.Sprintf("10.%d.0.0/16 a=%d", k%3, k%2)) }, func(k int) *Op { return ipRelease(as[k].String()) })
		for _, w := range widths {
			start := uint64(100)
			add(fmt.Sprintf("table%d of %d", w, n), func() any { return newTab(w, start, start+N-1) }, []*Op{tabGetAll(), tabFindFree(), tabSize(), tabGetByLabel(selectors[1])}, n, func(k int) *Op {
				if k%3 == 2 {
					return tabClaimFree("f=1")
				}
				return tabClaim(start+uint64(k), fmt.Sprintf("a=%d", k%2))
			}, func(k int) *Op { return tabRelease(start + uint64(k)) }, tabClaimFree("g=1"), tabClaimFree("g=2"))
			nb := uint8(3)
			for 1<<(nb+1) < n {
				nb++
			}
			ps := inTree(w, nb)
			W := uint8(w)
			root := pfx{0, W - nb}
			add(fmt.Sprintf("tree%d of %d bits", w, nb), func() any { return mustGT(w, nb) }, []*Op{gtGetAll(), gtSize(), gtGetByLabel(selectors[1]), gtChildren(w, root), gtParents(w, pfx{0, W}), gtGet(w, root)}, min(len(ps), n), func(k int) *Op {
				if k%5 == 4 {
					return gtClaimFree("f=1")
				}
				return gtClaim(w, ps[(k*3)%len(ps)], fmt.Sprintf("a=%d", k%2), false)
			}, func(k int) *Op { return gtRelease(w, ps[(k*3)%len(ps)]) }, gtReleaseByLabel(selectors[1]), gtClaimFree("f=1"), gtClaimRangePlain("1-6", "r=1"))
			add(fmt.Sprintf("generic tree of %d bits with %d prefixes", w, n), func() any { return newGen(w) }, []*Op{genIterate(false), genIterate(true)}, min(len(ps), n),
				func(k int) *Op { return genAdd(w, ps[k], 10*k+1, mNil) }, func(k int) *Op { return genDel(w, ps[k], 10*k+1, mEq, k%2 == 0) })
		}
	}
	return ss
}

// besideLong: long histories of two objects, interleaved in several ways, and with the other object left as it is at any
// quarter of its history.
func besideLong(c *Ctx) {
	as, bs := longScripts(c, 2), longScripts(c, 5)
	alone := func(s script) []string {
		putGlobals()
		x := s.new()
		out := make([]string, len(s.ops))
		for i, op := range s.ops {
			out[i] = outText(exec(op, x))
			c.R.Transitions++
			tick()
		}
		return out
	}
	memo := map[string][]string{}
	want := func(s script) []string {
		if memo[s.name] == nil {
			memo[s.name] = alone(s)
		}
		return memo[s.name]
	}
	turns := map[string]func(i, na, nb int) bool{ // true: the first object moves
		"in turn":                       func(i, na, nb int) bool { return i%2 == 0 },
		"seven calls each":              func(i, na, nb int) bool { return i/7%2 == 0 },
		"one after the other":           func(i, na, nb int) bool { return i < na },
		"half of the first one ahead":   func(i, na, nb int) bool { return i < na/2 || i%2 == 0 },
		"in the middle of the first":    func(i, na, nb int) bool { return i < na/2 || i >= na/2+nb },
		"a quarter of each alternating": func(i, na, nb int) bool { return i/(na/4+1)%2 == 0 },
	}
	for x, a := range as {
		for y, b := range bs {
			// all pairs of the small ones; the larger ones with their like and their neighbour
			small := len(as) / 3
			if (x >= small || y >= small) && x != y && y != (x+1)%len(as) {
				continue
			}
			for _, turn := range sortedKeys(turns) {
				name := fmt.Sprintf("%s and %s, %s", a.name, b.name, turn)
				mine := c.Mine(c.runs)
				c.runs++
				if c.OnlySub == "" && !mine || !c.Begin(name) || c.Expired() {
					continue
				}
				wa, wb := want(a), want(b)
				putGlobals()
				sa, sb := a.new(), b.new()
				i, j := 0, 0
				var tr []string
				for k := 0; i < len(a.ops) || j < len(b.ops); k++ {
					first := turns[turn](k, len(a.ops), len(b.ops))
					if i == len(a.ops) {
						first = false
					}
					if j == len(b.ops) {
						first = true
					}
					var op *Op
					var sys any
					var w, who string
					if first {
						op, sys, w, who = a.ops[i], sa, wa[i], "first."
						i++
					} else {
						op, sys, w, who = b.ops[j], sb, wb[j], "second."
						j++
					}
					if len(tr) > 60 {
						tr = append(append(tr[:10:10], "..."), tr[len(tr)-30:]...)
					}
					tr = append(tr, who+op.Name)
					crumbLazy(name, tr)
					got := outText(exec(op, sys))
					c.R.Transitions++
					if got != w {
						c.Fail("C26", fmt.Sprintf("%s%s: got %s, alone the same calls give %s", who, op.Name, cut(got), cut(w)), tr, nil)
						break
					}
				}
				c.R.Traces++
				c.R.Cases++
			}
		}
	}
	c.Note("%d and %d long histories side by side, interleaved in %d ways", len(as), len(bs), len(turns))
}

func cut(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}
