package main

import (
	"fmt"
	"net/netip"

	"github.com/henderiw/idxtable/pkg/idxtable"
	"github.com/henderiw/idxtable/pkg/iptable"
)

// Large objects: block requests that must be refused as a whole, listings that stay as they were handed out, and failing
// operations that leave everything in place, at sizes where an implementation may work piecemeal.

// idxRefused asks for blocks over used ids at every kind of position.
func idxRefused(c *Ctx) {
	for _, n := range Pick(c, []int{70, 300, 1100, 4200, 70000}, []int{70, 300, 1100, 2100, 4200, 70000, 140000}) {
		var sizes []int
		for _, s := range []int{2, 10, 33, 65, 129, 257, 1000, 1025, 4100, 16500, 33000, 65000, 65537, 69990, 131100, n - 1, n} {
			if s <= n {
				sizes = append(sizes, s)
			}
		}
		for _, size := range sizes {
			for _, start := range []int{0, 1, (n - size) / 2, n - size} {
				if start+size > n || n > 5000 && start == 1 {
					continue
				}
				// a used id at the front, at the back, in the middle, and on either side of the places where work may be split
				var at []int
				seen := map[int]bool{}
				for _, k := range []int{0, 1, 31, 32, 63, 64, 65, 127, 128, 255, 256, 1023, 1024, 4095, 4096, 32767, 32768, 32769, 65535, 65536, size / 2, size - 2, size - 1} {
					if k >= 0 && k < size && !seen[k] {
						seen[k] = true
						at = append(at, k)
					}
				}
				bigRun(c, fmt.Sprintf("table of %d: blocks of %d from %d over a used id", n, size, start), func(b *big) {
					t := idxtable.NewTable[int](uint64(n))
					around := map[int]int{}
					for _, k := range []int{0, start - 1, start + size, n - 1} {
						if k >= 0 && k < n && (k < start || k >= start+size) && around[k] == 0 {
							around[k] = 7
							b.say("Claim(%d,7)", k)
							b.do("C01", "Claim", func() string { return wantErr(t.Claim(uint64(k), 7), false) })
						}
					}
					look := func(tags string, used int) {
						b.do(tags, "GetAll, Size", func() string {
							want := len(around)
							if used >= 0 {
								want++
							}
							if s := t.Size(); s != want {
								return fmt.Sprintf("%d ids are in use, want %d", s, want)
							}
							es := t.GetAll()
							if len(es) != want {
								return fmt.Sprintf("%d entries are listed, want %d", len(es), want)
							}
							for _, e := range es {
								if k := int(e.ID()); e.Data() != 9 && e.Data() != 7 || e.Data() == 9 && k != used || e.Data() == 7 && around[k] == 0 {
									return fmt.Sprintf("id %d shows %d", k, e.Data())
								}
							}
							return ""
						})
					}
					for _, k := range at {
						used := start + k
						b.say("Claim(%d,9)", used)
						b.do("C01", "Claim", func() string { return wantErr(t.Claim(uint64(used), 9), false) })
						b.say("ClaimRange(%d,%d,5)", start, size)
						b.do("C02", "ClaimRange over a used id", func() string { return wantErr(t.ClaimRange(uint64(start), uint64(size), 5), true) })
						look("C02 C23", used)
						b.say("FindFreeRange(%d,%d)", start, size)
						b.see("C02", "FindFreeRange over a used id", func() string { _, err := t.FindFreeRange(uint64(start), uint64(size)); return wantErr(err, true) })
						rest := uint64(n - len(around))
						b.say("ClaimSize(%d,5)", rest)
						b.do("C03", "ClaimSize(more than are free)", func() string { _, err := t.ClaimSize(rest, 5); return wantErr(err, true) })
						look("C03 C23", used)
						b.say("Release(%d)", used)
						b.do("C01", "Release", func() string { return wantErr(t.Release(uint64(used)), false) })
					}
					look("C01", -1)
					b.say("ClaimRange(%d,%d,5)", start, n-start+1)
					b.do("C02", "ClaimRange beyond the end", func() string { return wantErr(t.ClaimRange(uint64(start), uint64(n-start+1), 5), true) })
					look("C02 C23", -1)
					b.say("ClaimRange(%d,%d,5)", start, size)
					b.do("C02", "ClaimRange of a free block", func() string { return wantErr(t.ClaimRange(uint64(start), uint64(size), 5), false) })
					b.do("C02", "GetAll", func() string {
						es := t.GetAll()
						if len(es) != size+len(around) {
							return fmt.Sprintf("%d entries, want %d", len(es), size+len(around))
						}
						for _, e := range es {
							if k := int(e.ID()); (e.Data() == 5) != (k >= start && k < start+size) || e.Data() != 5 && around[k] == 0 {
								return fmt.Sprintf("id %d shows %d", k, e.Data())
							}
						}
						return ""
					})
				})
			}
		}
	}
}

// group is several operations as one.
func group(name string, ops []*Op) *Op {
	return &Op{Name: name, Do: func(s any) Out {
		for _, op := range ops {
			exec(op, s)
		}
		return Out{}
	}}
}

type groupT struct {
	name string
	ops  []*Op
}

// live takes the listings of q after each of the given numbers of filling operations, applies a group of changes and reads
// them out afterwards.
func (c *Ctx) live(q *Seq, fill []*Op, at []int, groups []groupT) {
	for _, k := range at {
		for _, g := range groups {
			if !c.Mine(c.runs) {
				c.runs++
				continue
			}
			c.runs++
			name := fmt.Sprintf("%s: listings taken after %d operations, before and after: %s", q.Name, k, g.name)
			if !c.Begin(name) || c.Expired() {
				continue
			}
			r := *q
			r.Init = fill[:k]
			st := &SeqState{spec: &r, model: r.Model}
			restoreGlobals()
			sys := r.New()
			var tr []string
			good := true
			step := func(op *Op) {
				if good {
					if len(tr) > 40 {
						tr = append(tr[:10], tr[len(tr)-20:]...)
					}
					tr = append(tr, op.Name)
					crumbLazy(name, tr)
					st.model, _, good = c.step(st, op, sys, st.model, func() []string { return tr })
				}
			}
			for _, op := range r.Init {
				step(op)
			}
			before := st.model
			for _, op := range g.ops {
				step(op)
			}
			if !good {
				continue
			}
			after := st.model
			st.model = before
			c.R.States++
			c.R.Traces++
			c.holds(&r, st, group(g.name, g.ops), after)
		}
	}
	c.Note("%s: listings at %d sizes held over %d groups of changes", q.Name, len(at), len(groups))
}

// changes are groups of changes of n items.
func changes(n int, update, release, claim func(k int) *Op) []groupT {
	every := func(name string, step, off int, fs ...func(k int) *Op) groupT {
		g := groupT{name: name}
		for _, f := range fs {
			for k := off; k < n; k += step {
				g.ops = append(g.ops, f(k))
			}
		}
		return g
	}
	gs := []groupT{
		every("every entry updated", 1, 0, update),
		every("every second entry released", 2, 1, release),
		every("everything released", 1, 0, release),
		every("every entry released and claimed again", 1, 0, release, claim),
		every("every third entry updated, every id claimed", 3, 0, update, claim),
	}
	for _, k := range []int{0, n / 2, n - 1} {
		gs = append(gs, groupT{fmt.Sprintf("entry %d updated", k), []*Op{update(k)}}, groupT{fmt.Sprintf("entry %d released", k), []*Op{release(k)}}, groupT{fmt.Sprintf("id %d claimed", k), []*Op{claim(k)}})
	}
	return gs
}

func (c *Ctx) liveSizes(n int) []int {
	if c.Quick() {
		return []int{n * 2 / 3, n}
	}
	return []int{n / 4, n / 2, n * 2 / 3, n - 1, n}
}

// idxIterateAt moves an iterator k entries on before anything else happens.
func idxIterateAt(k int, free bool) *Op {
	name := fmt.Sprintf("Iterate() and %d times Next()", k)
	if free {
		name = fmt.Sprintf("IterateFree() and %d times Next()", k)
	}
	return listing(name, "C04",
		func(s any) func() string {
			it := iterOf(s, false)
			if free {
				it = iterOf(s, true)
			}
			for i := 0; i < k; i++ {
				if !it.Next() {
					return func() string { return "ended" }
				}
			}
			return func() string {
				cur := fmt.Sprint(it.ID())
				if !free {
					cur += ":" + it.Value().Data()
				}
				return cur + " then " + drainIter(it, !free)
			}
		},
		func(x any) string {
			m := x.(idxM)
			ks, val := m.ids(), func(k uint64) string { return ":" + m.e[k] }
			if free {
				ks, val = m.lowestFree(maxU), func(uint64) string { return "" }
			}
			if len(ks) < k {
				return "ended"
			}
			s := consec(nil, ks[k-1:], val)[1:]
			first := fmt.Sprint(ks[k-1]) + val(ks[k-1])
			rest := s[len(first):]
			if rest[0] == ' ' {
				rest = rest[1:]
			}
			return first + " then [" + rest
		})
}

func idxLive(c *Ctx) {
	for _, n := range Pick(c, []int{100, 300, 1100, 4200}, []int{100, 300, 700, 1100, 2100, 4200}) {
		q := &Seq{Name: fmt.Sprintf("index table of %d", n), New: newIdx(uint64(n)), Model: idxM{uint64(n), map[uint64]string{}}, Key: idxKey,
			Holds: []*Op{idxGetAll(), idxIterate(), idxIterateFree(), idxIterateAt(1, false), idxIterateAt(n/3, false), idxIterateAt(n*2/3-1, false), idxIterateAt(1, true), idxIterateAt(n/4, true)}}
		var fill []*Op
		// in blocks, so that the models stay cheap
		step := max(1, n/50)
		for k := 0; k < n; k += step {
			fill = append(fill, idxClaimRange(uint64(k), uint64(min(step, n-k)), fmt.Sprintf("d%d", k)))
		}
		at := []int{len(fill) * 2 / 3, len(fill)}
		var gs []groupT
		cheap := max(1, n/300)
		for _, g := range changes(n/cheap, func(k int) *Op { return idxUpdate(uint64(k*cheap), "u") }, func(k int) *Op { return idxRelease(uint64(k * cheap)) }, func(k int) *Op { return idxClaim(uint64(k*cheap), "c") }) {
			gs = append(gs, g)
		}
		gs = append(gs, groupT{"the rest claimed", []*Op{idxClaimSize(uint64(n/4), "s")}}, groupT{"the lowest free id claimed", []*Op{idxClaimDynamic("s")}}, groupT{"a block claimed", []*Op{idxClaimRange(uint64(n-n/5), uint64(n/10), "s")}})
		c.live(q, fill, at, gs)
	}
}

func tabLive(c *Ctx, w int) {
	for _, n := range Pick(c, []int{300}, []int{300, 1100}) {
		lo := uint64(200)
		q := tabSeq(w, lo, lo+uint64(n)-1, []uint64{lo}, []string{"-"}, selectors[:3])
		q.Holds = []*Op{tabGetAll(), tabGetByLabel(selectors[1]), tabGetByLabel(selectors[0]), tabGetByLabel(selectors[2])}
		var fill []*Op
		for k := 0; k < n; k++ {
			fill = append(fill, tabClaim(lo+uint64(stride(n)(k)), fmt.Sprintf("a=%d", k%2)))
		}
		gs := changes(n, func(k int) *Op { return tabUpdate(lo+uint64(k), "a=5") }, func(k int) *Op { return tabRelease(lo + uint64(k)) }, func(k int) *Op { return tabClaim(lo+uint64(k), "c=1") })
		gs = append(gs, groupT{"a free id claimed", []*Op{tabClaimFree("f=1")}})
		c.live(q, fill, c.liveSizes(n), gs)
	}
}

func ipLive(c *Ctx) {
	n := Pick(c, 300, 700)
	for _, from := range []string{"10.0.0.200", "2001:db8::ff80"} {
		as := []netip.Addr{netip.MustParseAddr(from)}
		for len(as) < n {
			as = append(as, as[len(as)-1].Next())
		}
		q := &Seq{Name: fmt.Sprintf("IP table from %s", from), New: func() any { return iptable.New(as[0], as[n-1]) }, Model: ipM{as[0], as[n-1], map[netip.Addr]string{}}, Key: ipKey,
			Holds: []*Op{ipGetAll(), ipGetByLabel(selectors[0]), ipGetByLabel(selectors[1])}}
		var fill []*Op
		for k := 0; k < n; k++ {
			fill = append(fill, ipClaim(as[stride(n)(k)].String(), fmt.Sprintf("10.%d.0.0/16 a=%d", k%5, k%2)))
		}
		c.live(q, fill, c.liveSizes(n), changes(n, func(k int) *Op { return ipUpdate(as[k].String(), "10.9.0.0/16 u=1") }, func(k int) *Op { return ipRelease(as[k].String()) }, func(k int) *Op { return ipClaim(as[k].String(), "10.8.0.0/16 c=1") }))
	}
}

func gtLive(c *Ctx, w int) {
	W := uint8(w)
	nb := Pick(c, uint8(7), uint8(9))
	ps := inTree(w, nb)
	n := len(ps)
	q := gtCfg{w: w, n: nb, labs: []string{"a=1"}}.seq()
	q.Name = fmt.Sprintf("tree%d of %d bits", w, nb)
	q.Holds = []*Op{gtGetAll(), gtGetByLabel(selectors[0]), gtGetByLabel(selectors[1]), gtChildren(w, pfx{0, W - nb}), gtChildren(w, pfx{0, W - nb + 1}), gtParents(w, pfx{1<<nb - 1, W})}
	var fill []*Op
	for k := 0; k < n; k++ {
		fill = append(fill, gtClaim(w, ps[stride(n)(k)], fmt.Sprintf("a=%d", k%2), false))
	}
	gs := changes(n, func(k int) *Op { return gtClaim(w, ps[k], "u=1", true) }, func(k int) *Op { return gtRelease(w, ps[k]) }, func(k int) *Op { return gtClaim(w, ps[k], "c=1", false) })
	gs = append(gs, groupT{"half of them released by label", []*Op{gtReleaseByLabel(selectors[1])}}, groupT{"everything released by label", []*Op{gtReleaseByLabel(selectors[0])}}, groupT{"a range claimed", []*Op{gtClaimRange("3-100", "r=1")}})
	c.live(q, fill, c.liveSizes(n), gs)
}

// failLarge: every kind of failing operation on large objects filled in various patterns.
func failLarge(c *Ctx, w int) {
	type pattern struct {
		name string
		in   func(k, n int) bool
	}
	patterns := []pattern{
		{"full", func(k, n int) bool { return true }}, {"all but the first", func(k, n int) bool { return k > 0 }}, {"all but the last", func(k, n int) bool { return k < n-1 }},
		{"all but the middle", func(k, n int) bool { return k != n/2 }}, {"all but the middle and its neighbour", func(k, n int) bool { return k != n/2 && k != n/2+1 }}, {"only the first", func(k, n int) bool { return k == 0 }},
		{"only the last", func(k, n int) bool { return k == n-1 }}, {"only the middle", func(k, n int) bool { return k == n/2 }}, {"every second", func(k, n int) bool { return k%2 == 1 }},
		{"the lower half", func(k, n int) bool { return k < n/2 }}, {"the upper half", func(k, n int) bool { return k >= n/2 }}, {"every 64th", func(k, n int) bool { return k%64 == 63 }},
		{"all but every 100th", func(k, n int) bool { return k%100 != 0 }},
	}
	run := func(q *Seq, n int, fill func(in func(k int) bool) []*Op) {
		name := q.Name
		for _, p := range patterns {
			if n > 5000 && (p.name == "every second" || p.name == "every 64th" || p.name == "all but every 100th") {
				continue
			}
			q := relaxed(q)
			q.Name = name + ", " + p.name
			mine := c.Mine(c.runs)
			c.runs++
			if !mine || !c.Begin(q.Name) || c.Expired() {
				continue
			}
			q.Init = relaxed(&Seq{Ops: fill(func(k int) bool { return p.in(k, n) })}).Ops
			st := &SeqState{spec: q}
			sys := st.Build()
			st.deep = Snap(sys)
			c.R.States++
			c.R.Traces++
			failHook(q)(c, st)
		}
		c.Note("%s: %d failing or succeeding operations after %d patterns", name, len(q.Ops)+len(q.Reads), len(patterns))
	}
	if w == 0 {
		for _, n := range Pick(c, []int{300, 1100, 70000}, []int{300, 1100, 4200, 70000}) {
			N := uint64(n)
			q := &Seq{Name: fmt.Sprintf("index table of %d", n), New: newIdx(N), Model: idxM{N, nil}, Key: idxKey}
			for _, id := range []uint64{0, 1, N / 2, N - 1, N, maxU} {
				q.Ops = append(q.Ops, idxClaim(id, "x"), idxUpdate(id, "y"), idxRelease(id))
			}
			q.Ops = append(q.Ops, idxClaimDynamic("x"))
			sizes := []uint64{2, 65, 129, 257, N / 2, N - 1, N, N + 1}
			if n > 5000 {
				sizes = append(sizes[1:2], N/2+1, N)
			}
			for _, s := range sizes {
				q.Ops = append(q.Ops, idxClaimSize(s, "x"))
				q.Reads = append(q.Reads, idxFindFreeSize(s))
				starts := []uint64{0, 1, 40, N/2 - 60, N - s, N - s + 1}
				if n > 5000 {
					starts = []uint64{0, N - s}
				}
				for _, st := range starts {
					q.Ops = append(q.Ops, idxClaimRange(st, s, "x"))
					q.Reads = append(q.Reads, idxFindFreeRange(st, s))
				}
			}
			q.Reads = append(q.Reads, idxGetAll(), idxSize(), idxFindFree(), idxGet(0), idxGet(N/2), idxGet(N-1))
			run(q, n, func(in func(k int) bool) []*Op {
				var ops []*Op
				for k := 0; k < n; {
					if !in(k) {
						k++
						continue
					}
					j := k
					for j < n && in(j) {
						j++
					}
					ops = append(ops, idxClaimRange(uint64(k), uint64(j-k), "b"))
					k = j
				}
				return ops
			})
		}
		n := 300
		for _, from := range []string{"10.0.0.200", "2001:db8::ff80"} {
			as := []netip.Addr{netip.MustParseAddr(from)}
			for len(as) < n {
				as = append(as, as[len(as)-1].Next())
			}
			q := &Seq{Name: "IP table from " + from, New: func() any { return iptable.New(as[0], as[n-1]) }, Key: ipKey}
			for _, a := range []string{as[0].String(), as[1].String(), as[n/2].String(), as[n-1].String(), as[n-1].Next().String(), as[0].Prev().String(), "", "x", "1.2.3"} {
				q.Ops = append(q.Ops, ipClaim(a, "10.1.0.0/24 a=1"), ipUpdate(a, "10.2.0.0/24 a=2"), ipRelease(a))
				q.Reads = append(q.Reads, ipGet(a), ipHas(a))
			}
			q.Reads = append(q.Reads, ipGetAll(), ipGetByLabel(selectors[2]), ipFindFree(), ipSize())
			run(q, n, func(in func(k int) bool) []*Op {
				var ops []*Op
				for k := 0; k < n; k++ {
					if in(k) {
						ops = append(ops, ipClaim(as[k].String(), "10.1.0.0/24 b=1"))
					}
				}
				return ops
			})
		}
		return
	}
	n := 300
	lo := uint64(100)
	hi := lo + uint64(n) - 1
	q := tabSeq(w, lo, hi, []uint64{lo, lo + 1, lo + uint64(n)/2, hi, hi + 1, lo - 1, 0, lo + 256}, []string{"a=1"}, selectors[:3])
	q.Name = fmt.Sprintf("table%d of %d", w, n)
	run(q, n, func(in func(k int) bool) []*Op {
		var ops []*Op
		for k := 0; k < n; k++ {
			if in(k) {
				ops = append(ops, tabClaim(lo+uint64(k), "b=1"))
			}
		}
		return ops
	})
	W := uint8(w)
	nb := uint8(9)
	n = 1 << nb
	ids := []pfx{{0, W}, {1, W}, {255, W}, {256, W}, {511, W}, {0, W - 9}, {0, W - 8}, {256, W - 8}, {256, W - 1}, {64, W - 6}}
	q = gtCfg{w: w, n: nb, ps: ids, extra: []pfx{{512, W}, {0, W + 1}, {512, W - 1}, {0, 0}}, labs: []string{"a=1"}, ranges: append([]string{"0-511", "1-510", "0-512", "500-600", "511-512", "512-512", "300-200", "1-65535", "255-256"}, badRanges...), sels: selectors[:4], rel: true}.seq()
	q.Name = fmt.Sprintf("tree%d of %d bits", w, nb)
	run(q, n, func(in func(k int) bool) []*Op {
		var ops []*Op
		for k := 0; k < n; k++ {
			if in(k) {
				ops = append(ops, gtClaim(w, pfx{uint64(k), W}, "b=1", false))
			}
		}
		return ops
	})
}
