package main

import (
	"fmt"
	"math/bits"
	"net/netip"
	"strings"

	"github.com/henderiw/idxtable/pkg/idxtable"
	"github.com/henderiw/idxtable/pkg/iptable"
	"github.com/henderiw/idxtable/pkg/table"
	"github.com/henderiw/idxtable/pkg/tree"
)

// Histories of thousands of operations: the small universes of the other tasks are closed under every operation, but say
// nothing about sizes (of a table, a map, a node array, a value list, a key) at which an implementation may change its
// representation. Each family here is a fixed list of histories that takes an object through every size up to its bound,
// in several orders, with the contents compared at every power of two (and next to it).

// big runs one such history.
type big struct {
	c    *Ctx
	tags string
	log  []string
}

func (b *big) say(f string, a ...any) {
	if len(b.log) > 40 {
		b.log = append(b.log[:20], append([]string{"..."}, b.log[len(b.log)-10:]...)...)
	}
	b.log = append(b.log, fmt.Sprintf(f, a...))
	crumbLazy(b.c.sub, b.log)
}

// do runs f, a group of calls on the real object, and turns a panic into a failure; f returns what is wrong. A failure that
// concerns another property ends the history.
func (b *big) do(tags, what string, f func() string) {
	if !b.see(tags, what, f) {
		panic(abandon{})
	}
}

// see is do for calls that only look: the history goes on after a failure that concerns another property.
func (b *big) see(tags, what string, f func() string) bool {
	b.c.R.Transitions++
	progress.Add(1)
	if b.c.R.Transitions%4096 == 0 && b.c.Expired() {
		panic(abandon{})
	}
	o := exec(&Op{Name: what, Do: func(any) Out { return Out{S: f()} }}, nil)
	if o.Panic != "" {
		b.c.Fail(tags+" C23", what+": "+o.Panic, append(b.log, what), nil)
		return false
	}
	if o.S != "" {
		b.c.Fail(tags, what+": "+o.S, append(b.log, what), nil)
		return false
	}
	return true
}

type abandon struct{}

// bigRun runs one history; a failure that concerns another property abandons it.
func bigRun(c *Ctx, name string, f func(b *big)) {
	c.runs++
	if c.OnlySub == "" && !c.Mine(c.runs) || !c.Begin(name) || c.Expired() {
		return
	}
	restoreGlobals()
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abandon); !ok {
				panic(e)
			}
		}
	}()
	c.R.Traces++
	f(&big{c: c})
	c.Note("%s", name)
}

// mark is true for sizes at or next to a power of two (from 8), and for the last ones.
func mark(k, n int) bool {
	if k <= 2 || k >= n-2 {
		return true
	}
	for _, d := range []int{-1, 0, 1} {
		if x := k + d; x >= 8 && bits.OnesCount(uint(x)) == 1 {
			return true
		}
	}
	return false
}

// stride walks 0..n-1 in a fixed scrambled order.
func stride(n int) func(i int) int {
	g := 1
	for _, p := range []int{7919, 613, 97, 31, 11, 7, 3} {
		if p < n && gcd(p, n) == 1 {
			g = p
			break
		}
	}
	return func(i int) int { return (i*g + n/3) % n }
}

func bigOrders(n int) map[string]func(i int) int {
	return map[string]func(i int) int{"ascending": func(i int) int { return i }, "descending": func(i int) int { return n - 1 - i }, "scrambled": stride(n)}
}

var orderNames = []string{"ascending", "descending", "scrambled"}

// fill tracks which of n items are present and which is the lowest absent.
type fillT struct {
	in   []bool
	n    int
	low  int
	data []int
}

func newFill(n int) *fillT { return &fillT{in: make([]bool, n), data: make([]int, n)} }
func (f *fillT) add(i, d int) {
	if !f.in[i] {
		f.in[i] = true
		f.n++
	}
	f.data[i] = d
	for f.low < len(f.in) && f.in[f.low] {
		f.low++
	}
}
func (f *fillT) del(i int) {
	if f.in[i] {
		f.in[i] = false
		f.n--
		if i < f.low {
			f.low = i
		}
	}
}

// ---- index tables ----

func idxScale(c *Ctx) {
	for _, n := range Pick(c, []int{300, 1100, 4200}, []int{300, 1100, 2100, 4200}) {
		for _, up := range orderNames {
			for _, down := range orderNames {
				bigRun(c, fmt.Sprintf("table of %d: claimed %s, released %s", n, up, down), func(b *big) { idxFillDrain(b, n, bigOrders(n)[up], bigOrders(n)[down]) })
			}
		}
	}
	for _, n := range Pick(c, []int{70000}, []int{70000, 300000}) {
		bigRun(c, fmt.Sprintf("table of %d: blocks", n), func(b *big) {
			t := idxtable.NewTable[int](uint64(n))
			f := newFill(n)
			claim := func(at, k, d int) {
				b.say("ClaimRange(%d,%d,%d)", at, k, d)
				b.do("C02", "ClaimRange", func() string { return wantErr(t.ClaimRange(uint64(at), uint64(k), d), false) })
				for i := at; i < at+k; i++ {
					f.add(i, d)
				}
				idxCheck(b, t, f)
			}
			claim(0, 10, 1)
			claim(255, 3, 2)
			claim(65530, 12, 3)
			b.say("ClaimSize(300)")
			b.do("C03", "ClaimSize(300)", func() string {
				es, err := t.ClaimSize(300, 4)
				if err != nil || len(es) != 300 {
					return fmt.Sprintf("%d entries, err %v", len(es), err)
				}
				for _, e := range es {
					if e.ID() != uint64(f.low) || e.Data() != 4 {
						return fmt.Sprintf("got %d, want %d", e.ID(), f.low)
					}
					f.add(f.low, 4)
				}
				return ""
			})
			idxCheck(b, t, f)
			claim(400, 65000, 5)
			claim(n-10, 10, 6)
			b.do("C02", "ClaimRange over a used id", func() string { return wantErr(t.ClaimRange(65450, 200, 9), true) })
			b.say("Release(256) Release(65535) Release(%d)", n-1)
			for _, i := range []int{256, 65535, n - 1} {
				b.do("C01", "Release", func() string { return wantErr(t.Release(uint64(i)), false) })
				f.del(i)
			}
			idxCheck(b, t, f)
			b.say("ClaimSize(rest)")
			rest := uint64(n - f.n)
			b.do("C03 C23", "ClaimSize(more than are free)", func() string { _, err := t.ClaimSize(rest+1, 8); return wantErr(err, true) })
			idxCheck(b, t, f)
			b.do("C03", "ClaimSize(all that are free)", func() string { _, err := t.ClaimSize(rest, 8); return wantErr(err, false) })
			for i := range f.in {
				if !f.in[i] {
					f.add(i, 8)
				}
			}
			idxCheck(b, t, f)
		})
	}
}

func wantErr(err error, want bool) string {
	if (err != nil) != want {
		return fmt.Sprintf("err %v, want an error: %v", err, want)
	}
	return ""
}

func idxFillDrain(b *big, n int, up, down func(int) int) {
	t := idxtable.NewTable[int](uint64(n))
	f := newFill(n)
	for round := 0; round < 2; round++ {
		for i := 0; i < n; i++ {
			k := up(i)
			if i%4 == 3 && f.low < n {
				b.do("C03", "ClaimDynamic", func() string {
					e, err := t.ClaimDynamic(i)
					if err != nil || e.ID() != uint64(f.low) || e.Data() != i {
						return fmt.Sprintf("at size %d: %v, err %v, want %d", f.n, e, err, f.low)
					}
					return ""
				})
				f.add(f.low, i)
				continue
			}
			b.do("C01", "Claim", func() string {
				if bad := wantErr(t.Claim(uint64(k), i), f.in[k]); bad != "" {
					return fmt.Sprintf("Claim(%d) at size %d: %s", k, f.n, bad)
				}
				return ""
			})
			if !f.in[k] {
				f.add(k, i)
			}
			if mark(f.n, n) {
				b.say("(%d claims, round %d)", f.n, round)
				idxCheck(b, t, f)
			}
		}
		for f.low < n {
			b.do("C03", "ClaimDynamic", func() string {
				e, err := t.ClaimDynamic(-1)
				if err != nil || e.ID() != uint64(f.low) {
					return fmt.Sprintf("at size %d: %v, err %v, want %d", f.n, e, err, f.low)
				}
				return ""
			})
			f.add(f.low, -1)
		}
		b.say("(full, round %d)", round)
		idxCheck(b, t, f)
		b.do("C03", "ClaimDynamic on a full table", func() string { _, err := t.ClaimDynamic(1); return wantErr(err, true) })
		for i := 0; i < n; i++ {
			k := down(i)
			if i%2 == 0 {
				b.do("C01", "Update", func() string { return wantErr(t.Update(uint64(k), 1000+i), false) })
				f.data[k] = 1000 + i
				if mark(f.n, n) {
					idxCheck(b, t, f)
				}
			}
			b.do("C01", "Release", func() string { return wantErr(t.Release(uint64(k)), false) })
			f.del(k)
			if i%8 == 5 {
				// let go and take again
				b.do("C03", "ClaimDynamic", func() string {
					e, err := t.ClaimDynamic(i)
					if err != nil || e.ID() != uint64(f.low) {
						return fmt.Sprintf("at size %d: %v, err %v, want %d", f.n, e, err, f.low)
					}
					return wantErr(t.Release(e.ID()), false)
				})
			}
			if mark(f.n, n) {
				b.say("(%d claims left, round %d)", f.n, round)
				idxCheck(b, t, f)
			}
		}
	}
}

// idxCheck compares everything an index table shows.
func idxCheck(b *big, t idxtable.Table[int], f *fillT) {
	n := len(f.in)
	at := fmt.Sprintf("with %d of %d claimed: ", f.n, n)
	b.see("C04", "GetAll", func() string {
		es := t.GetAll()
		k := 0
		for i, in := range f.in {
			if !in {
				continue
			}
			if k >= len(es) || es[k] == nil || es[k].ID() != uint64(i) || es[k].Data() != f.data[i] {
				return at + fmt.Sprintf("entry %d is not %d", k, i)
			}
			k++
		}
		if k != len(es) {
			return at + fmt.Sprintf("%d entries", len(es))
		}
		it := t.Iterate()
		k, last := 0, -2
		for i, in := range f.in {
			if in {
				if !it.Next() || it.ID() != uint64(i) || it.Value().Data() != f.data[i] || it.IsConsecutive() != (last == i-1) {
					return at + fmt.Sprintf("Iterate is wrong at %d", i)
				}
				last = i
			}
		}
		if it.Next() {
			return at + "Iterate goes on"
		}
		return ""
	})
	b.see("C01", "Size, Get, Has, IsFree", func() string {
		if s := t.Size(); s != f.n {
			return at + fmt.Sprintf("Size %d", s)
		}
		for i, in := range f.in {
			e, err := t.Get(uint64(i))
			if (err == nil) != in || t.Has(uint64(i)) != in || t.IsFree(uint64(i)) == in || in && (e.ID() != uint64(i) || e.Data() != f.data[i]) {
				return at + fmt.Sprintf("id %d is shown wrongly", i)
			}
		}
		return ""
	})
	b.see("C03", "FindFree", func() string {
		id, err := t.FindFree()
		if bad := wantErr(err, f.n == n); bad != "" {
			return at + bad
		}
		if err == nil && id != uint64(f.low) {
			return at + fmt.Sprintf("%d, want %d", id, f.low)
		}
		return ""
	})
	b.see("C04", "IterateFree", func() string {
		it := t.IterateFree()
		for i, in := range f.in {
			if !in && (!it.Next() || it.ID() != uint64(i)) {
				return at + fmt.Sprintf("wrong at %d", i)
			}
		}
		if it.Next() {
			return at + "goes on"
		}
		return ""
	})
	for _, k := range []int{1, 2, (n - f.n) / 2, n - f.n, n - f.n + 1} {
		if k == 0 {
			continue
		}
		b.see("C03", "FindFreeSize", func() string {
			ids, err := t.FindFreeSize(uint64(k))
			if bad := wantErr(err, k > n-f.n); bad != "" {
				return at + fmt.Sprintf("%d ids: %s", k, bad)
			}
			if err != nil {
				return ""
			}
			if len(ids) != k {
				return at + fmt.Sprintf("%d ids, want %d", len(ids), k)
			}
			j := 0
			for i, in := range f.in {
				if !in && j < k {
					if ids[j] != uint64(i) {
						return at + fmt.Sprintf("id %d is %d, want %d", j, ids[j], i)
					}
					j++
				}
			}
			return ""
		})
	}
	// the free blocks: the first one, the longest one, and one id more on either side
	type blk struct{ at, n int }
	var first, long blk
	for i := 0; i < n; {
		if f.in[i] {
			i++
			continue
		}
		j := i
		for j < n && !f.in[j] {
			j++
		}
		if first.n == 0 {
			first = blk{i, j - i}
		}
		if j-i > long.n {
			long = blk{i, j - i}
		}
		i = j
	}
	for _, x := range []blk{first, long} {
		if x.n == 0 {
			continue
		}
		for _, y := range []blk{x, {x.at, x.n + 1}, {x.at - 1, x.n + 1}, {x.at + x.n/2, x.n - x.n/2}, {x.at, 1}} {
			if y.at < 0 {
				continue
			}
			ok := y.at >= x.at && y.at+y.n <= x.at+x.n
			b.see("C02", "FindFreeRange", func() string {
				ids, err := t.FindFreeRange(uint64(y.at), uint64(y.n))
				if bad := wantErr(err, !ok); bad != "" {
					return at + fmt.Sprintf("%d,%d: %s", y.at, y.n, bad)
				}
				if ok {
					if len(ids) != y.n {
						return at + fmt.Sprintf("%d,%d: %d ids", y.at, y.n, len(ids))
					}
					for i, id := range ids {
						if id != uint64(y.at+i) {
							return at + fmt.Sprintf("%d,%d: wrong id %d", y.at, y.n, id)
						}
					}
				}
				return ""
			})
		}
	}
}

// ---- range tables and IP tables ----

func lab(d int) string { return fmt.Sprintf("n=%d,p=%d", d, d%2) }

func tabScale(c *Ctx, w int) {
	n := Pick(c, 1100, 2100)
	for _, start := range []uint64{0, 200, 65535 - uint64(n) + 1, maxOf(w)/2 - 100, maxOf(w) - uint64(n) + 1} {
		if start+uint64(n)-1 > maxOf(w) || start+uint64(n)-1 < start {
			continue
		}
		for _, up := range orderNames {
			for _, down := range orderNames {
				bigRun(c, fmt.Sprintf("table%d %d-%d: claimed %s, released %s", w, start, start+uint64(n)-1, up, down), func(b *big) {
					t := newTab(w, start, start+uint64(n)-1)
					f := newFill(n)
					check := func() { tabCheck(b, w, t, start, f) }
					for i := 0; i < n; i++ {
						k := bigOrders(n)[up](i)
						if i%4 == 3 {
							b.do("C06", "ClaimFree", func() string {
								e, err := t.ClaimFree(giveLabels(lab(i)))
								if err != nil || e.ID().ID() != start+uint64(f.low) || canonMap(e.Labels()) != canon(lab(i)) {
									return fmt.Sprintf("at size %d: %v, err %v, want %d", f.n, e, err, start+uint64(f.low))
								}
								return ""
							})
							f.add(f.low, i)
						} else {
							b.do("C06", "Claim", func() string { return wantErr(t.Claim(start+uint64(k), giveLabels(lab(i))), f.in[k]) })
							if !f.in[k] {
								f.add(k, i)
							}
						}
						if mark(f.n, n) {
							b.say("(%d claims)", f.n)
							check()
						}
					}
					for i := 0; i < n; i++ {
						k := bigOrders(n)[down](i)
						b.do("C06", "Update", func() string { return wantErr(t.Update(start+uint64(k), giveLabels(lab(i+7))), !f.in[k]) })
						if f.in[k] {
							f.data[k] = i + 7
						}
						if mark(f.n, n) {
							check()
						}
						b.do("C06", "Release", func() string { return wantErr(t.Release(start+uint64(k)), false) })
						f.del(k)
						if mark(f.n, n) {
							b.say("(%d claims left)", f.n)
							check()
						}
					}
				})
			}
		}
	}
}

func tabCheck(b *big, w int, t table.Table, start uint64, f *fillT) {
	at := fmt.Sprintf("with %d of %d claimed: ", f.n, len(f.in))
	b.see("C06", "Size, Has, IsFree, FindFree", func() string {
		if s := t.Size(); s != f.n {
			return at + fmt.Sprintf("Size %d", s)
		}
		for i, in := range f.in {
			if t.Has(start+uint64(i)) != in || t.IsFree(start+uint64(i)) == in {
				return at + fmt.Sprintf("id %d is shown wrongly", start+uint64(i))
			}
		}
		id, err := t.FindFree()
		if (err != nil) != (f.n == len(f.in)) || err == nil && id != start+uint64(f.low) {
			return at + fmt.Sprintf("FindFree %d %v, want %d", id, err, start+uint64(f.low))
		}
		return ""
	})
	b.see("C07", "Get, GetAll, GetByLabel", func() string {
		var all, even []string
		for i, in := range f.in {
			e, err := t.Get(start + uint64(i))
			if (err == nil) != in {
				return at + fmt.Sprintf("Get(%d): %v", start+uint64(i), err)
			}
			if !in {
				continue
			}
			s := fmt.Sprintf("%s/%d%s", u(start+uint64(i)), w, canon(lab(f.data[i])))
			if renderTE(e) != s {
				return at + fmt.Sprintf("Get: got %s, want %s", renderTE(e), s)
			}
			all = append(all, s)
			if f.data[i]%2 == 0 {
				even = append(even, s)
			}
		}
		if bad := sameList(t.GetAll(), all); bad != "" {
			return at + "GetAll: " + bad
		}
		if bad := sameList(t.GetByLabel(mustSel("p=0")), even); bad != "" {
			return at + "GetByLabel(p=0): " + bad
		}
		return ""
	})
}

func sameList(es tree.Entries, want []string) string {
	for i := 0; i < len(es) || i < len(want); i++ {
		switch {
		case i >= len(want):
			return fmt.Sprintf("%d entries, want %d", len(es), len(want))
		case i >= len(es):
			return fmt.Sprintf("%d entries, want %d", len(es), len(want))
		case renderTE(es[i]) != want[i]:
			return fmt.Sprintf("entry %d is %s, want %s", i, renderTE(es[i]), want[i])
		}
	}
	return ""
}

func ipScale(c *Ctx) {
	n := Pick(c, 1100, 2100)
	for _, from := range []string{"10.0.0.0", "10.255.255.100", "2001:db8::ffff:ffff:ffff:ff80", "::ff00"} {
		for _, up := range orderNames {
			for _, down := range orderNames {
				bigRun(c, fmt.Sprintf("IP table of %d from %s: claimed %s, released %s", n, from, up, down), func(b *big) {
					as := []netip.Addr{netip.MustParseAddr(from)}
					for len(as) < n {
						as = append(as, as[len(as)-1].Next())
					}
					t := iptable.New(as[0], as[n-1])
					f := newFill(n)
					route := func(k, d int) string { return fmt.Sprintf("%s/%d %s", as[k], as[k].BitLen(), lab(d)) }
					check := func() {
						at := fmt.Sprintf("with %d of %d claimed: ", f.n, n)
						b.see("C09", "everything shown", func() string {
							if t.Size() != f.n {
								return at + "Size"
							}
							var all, even []string
							for i, in := range f.in {
								s := as[i].String()
								r, err := t.Get(s)
								if (err == nil) != in || t.Has(s) != in || t.IsFree(s) == in {
									return at + s + " is shown wrongly"
								}
								if in {
									want := renderRoute(giveRoute(route(i, f.data[i])))
									if renderRoute(r) != want {
										return at + "Get: got " + renderRoute(r) + ", want " + want
									}
									all = append(all, want)
									if f.data[i]%2 == 0 {
										even = append(even, want)
									}
								}
							}
							a, err := t.FindFree()
							if (err != nil) != (f.n == n) || err == nil && a != as[f.low] {
								return at + fmt.Sprintf("FindFree %v %v", a, err)
							}
							var got []string
							for _, r := range t.GetAll() {
								got = append(got, renderRoute(r))
							}
							if strings.Join(got, "\n") != strings.Join(all, "\n") {
								return at + "GetAll"
							}
							got = nil
							for _, r := range t.GetByLabel(mustSel("p=0")) {
								got = append(got, renderRoute(r))
							}
							if strings.Join(got, "\n") != strings.Join(even, "\n") {
								return at + "GetByLabel"
							}
							return ""
						})
					}
					for i := 0; i < n; i++ {
						k := bigOrders(n)[up](i)
						b.do("C09", "Claim", func() string { return wantErr(t.Claim(as[k].String(), giveRoute(route(k, i))), false) })
						f.add(k, i)
						b.do("C09", "Claim again", func() string { return wantErr(t.Claim(as[k].String(), giveRoute(route(k, 999))), true) })
						if mark(f.n, n) {
							b.say("(%d claims)", f.n)
							check()
						}
					}
					for i := 0; i < n; i++ {
						k := bigOrders(n)[down](i)
						b.do("C09", "Update", func() string { return wantErr(t.Update(as[k].String(), giveRoute(route(k, i+3))), false) })
						f.data[k] = i + 3
						if mark(f.n, n) {
							check()
						}
						b.do("C09", "Release", func() string { return wantErr(t.Release(as[k].String()), false) })
						f.del(k)
						if mark(f.n, n) {
							b.say("(%d claims left)", f.n)
							check()
						}
					}
				})
			}
		}
	}
}

// ---- generic trees ----

func genScale(c *Ctx, w int, prop string) {
	// more nodes than any 16-bit number counts, in a tree of 16 bits and in wider ones
	n := Pick(c, 1<<16, 1<<17)
	if w == 16 {
		n = 1 << 16
	}
	for _, up := range orderNames {
		bigRun(c, fmt.Sprintf("tree of %d bits with %d full-length ids, added %s", w, n, up), func(b *big) {
			t := newGen(w)
			f := newFill(n)
			eq := mEq.f
			id := func(k int) pfx { return pfx{uint64(k), uint8(w)} }
			for i := 0; i < n; i++ {
				k := bigOrders(n)[up](i)
				b.do("C11", "Add", func() string {
					if inc, cnt := t.Add(mkID(w, id(k)), k, eq); !inc || cnt != 1 {
						return fmt.Sprintf("at size %d: %v %d", i, inc, cnt)
					}
					return ""
				})
				f.add(k, k)
				if mark(f.n, n) {
					b.say("(%d added)", f.n)
					genCheck(b, t, f)
				}
			}
			var cl genT
			cf := newFill(n)
			if prop == "C16" {
				b.say("Clone()")
				b.do("C16", "Clone", func() string { cl = t.Clone(); return "" })
				*cf = fillT{in: append([]bool{}, f.in...), data: append([]int{}, f.data...), n: f.n, low: f.low}
			}
			for i := 0; i < n; i++ {
				k := bigOrders(n)["scrambled"](i)
				b.do("C11", "Delete", func() string {
					if d := t.Delete(mkID(w, id(k)), eq, k); d != 1 {
						return fmt.Sprintf("at size %d: %d deleted", f.n, d)
					}
					return ""
				})
				f.del(k)
				if i%16 == 7 {
					// take up freed storage again
					j := bigOrders(n)["scrambled"](i / 2)
					if !f.in[j] {
						b.do("C11", "Set", func() string {
							if inc, cnt := t.Set(mkID(w, id(j)), j); !inc || cnt != 1 {
								return fmt.Sprintf("at size %d: %v %d", f.n, inc, cnt)
							}
							return ""
						})
						f.add(j, j)
					}
				}
				if mark(n-i-1, n) {
					b.say("(%d deletions)", i+1)
					genCheck(b, t, f)
				}
				if cl != nil && mark(i, n) {
					b.tags = "C16"
					genCheck(b, cl, cf)
					b.tags = ""
				}
			}
		})
	}
	// every nesting depth: a chain of all lengths under several ids, with a growing number of values
	bigRun(c, fmt.Sprintf("tree of %d bits with many values at one prefix", w), func(b *big) {
		t := newGen(w)
		p, q, r := pfx{0, 0}, pfx{1 << (w - 1), 3}, pfx{maxOf(w), uint8(w)}
		vals := map[pfx][]int{}
		show := func() {
			b.see("C11", "Iterate", func() string {
				it := t.Iterate()
				for _, x := range []pfx{p, q, r} {
					if len(vals[x]) == 0 {
						continue
					}
					if !it.Next() {
						return fmt.Sprintf("%s is missing", x)
					}
					v := it.Vals()
					if len(v) != len(vals[x]) {
						return fmt.Sprintf("%s has %d values, want %d", x, len(v), len(vals[x]))
					}
					for i := range v {
						if v[i] != vals[x][i] {
							return fmt.Sprintf("value %d of %s is %d, want %d", i, x, v[i], vals[x][i])
						}
					}
				}
				if it.Next() {
					return "goes on"
				}
				return ""
			})
		}
		n := Pick(c, 1<<16+3, 1<<18)
		for i := 0; i < n; i++ {
			for _, x := range []pfx{p, q, r} {
				b.do("C11", "Add", func() string {
					if inc, cnt := t.Add(mkID(w, x), i, nil); !inc || cnt != i+1 {
						return fmt.Sprintf("value %d of %s: %v %d", i, x, inc, cnt)
					}
					return ""
				})
				vals[x] = append(vals[x], i)
			}
			if mark(i+1, n) {
				b.say("(%d values each)", i+1)
				show()
			}
		}
		for _, x := range []pfx{q, p, r} {
			b.say("Delete(%s) of every odd value", x)
			b.do("C11", "Delete", func() string {
				if d := t.Delete(mkID(w, x), func(v, _ int) bool { return v%2 == 1 }, 0); d != n/2 {
					return fmt.Sprintf("%d deleted, want %d", d, n/2)
				}
				return ""
			})
			var keep []int
			for i := 0; i < n; i += 2 {
				keep = append(keep, i)
			}
			vals[x] = keep
			show()
		}
		b.say("Set(%s)", q)
		b.do("C11", "Set", func() string {
			if inc, cnt := t.Set(mkID(w, q), 5); inc || cnt != 1 {
				return fmt.Sprintf("%v %d", inc, cnt)
			}
			return ""
		})
		vals[q] = []int{5}
		show()
	})
}

func genCheck(b *big, t genT, f *fillT) {
	tags := "C11"
	if b.tags != "" {
		tags = b.tags
	}
	b.do(tags, "Iterate", func() string {
		it := t.Iterate()
		for i, in := range f.in {
			if !in {
				continue
			}
			if !it.Next() {
				return fmt.Sprintf("with %d ids: %d is missing", f.n, i)
			}
			if v := it.Vals(); len(v) != 1 || v[0] != f.data[i] {
				return fmt.Sprintf("with %d ids: values of %d: %v", f.n, i, v)
			}
		}
		if it.Next() {
			return fmt.Sprintf("with %d ids: there is more", f.n)
		}
		return ""
	})
}

// ---- id trees ----

// gtScale fills a tree of nb bits with entries of every length, free claims and ranges and takes it down again.
func gtScale(c *Ctx, w int) {
	nb := uint8(Pick(c, 7, 9))
	ps := inTree(w, nb)
	n := len(ps)
	for _, up := range orderNames {
		for _, down := range orderNames {
			bigRun(c, fmt.Sprintf("tree%d of %d bits, every prefix: claimed %s, released %s", w, nb, up, down), func(b *big) {
				t := mustGT(w, nb)
				m := gtM{w, nb, map[pfx]string{}}
				check := func() { gtCheck(b, t, m, ps) }
				for i := 0; i < n; i++ {
					p := ps[bigOrders(n)[up](i)]
					b.do("C12", "ClaimID", func() string { return wantErr(t.ClaimID(mkID(w, p), giveLabels(lab(i))), false) })
					m.e[p] = canon(lab(i))
					if mark(len(m.e), n) {
						b.say("(%d entries)", len(m.e))
						check()
					}
				}
				for i := 0; i < n; i++ {
					p := ps[bigOrders(n)[down](i)]
					if i%3 == 0 {
						b.do("C12", "Update", func() string { return wantErr(t.Update(mkID(w, p), giveLabels(lab(i+5))), false) })
						m.e[p] = canon(lab(i + 5))
						if mark(len(m.e), n) {
							check()
						}
					}
					b.do("C12", "ReleaseID", func() string { return wantErr(t.ReleaseID(mkID(w, p)), false) })
					delete(m.e, p)
					if mark(len(m.e), n) {
						b.say("(%d entries left)", len(m.e))
						check()
					}
				}
			})
		}
	}
	// a selector takes out very many at once, others stay
	for _, nb := range Pick(c, []uint8{7, 11}, []uint8{7, 9, 11, 13}) {
		ps := inTree(w, nb)
		bigRun(c, fmt.Sprintf("tree%d of %d bits, every prefix claimed, half of them released by label, then the rest", w, nb), func(b *big) {
			t := mustGT(w, nb)
			m := gtM{w, nb, map[pfx]string{}}
			for i, p := range ps {
				l := fmt.Sprintf("k=%d", bits.OnesCount(uint(i))%2)
				b.do("C12", "ClaimID", func() string { return wantErr(t.ClaimID(mkID(w, p), giveLabels(l)), false) })
				m.e[p] = canon(l)
			}
			for _, l := range []string{"k=2", "k=1", "k=0"} {
				b.say("ReleaseByLabel(%s) with %d entries", l, len(m.e))
				b.do("C12", "ReleaseByLabel", func() string { return wantErr(t.ReleaseByLabel(mustSel(l)), false) })
				for p, x := range m.e {
					if x == canon(l) {
						delete(m.e, p)
					}
				}
				b.see("C12", "GetAll", func() string {
					all := t.GetAll()
					if len(all) != len(m.e) || t.Size() != len(m.e) {
						return fmt.Sprintf("%d entries listed, Size %d, want %d", len(all), t.Size(), len(m.e))
					}
					for _, e := range all {
						if x, ok := m.e[toPfx(e.ID())]; !ok || x != canonMap(e.Labels()) {
							return renderTE(e)
						}
					}
					return ""
				})
			}
		})
	}
	// free claims until the tree is full, with releases in between
	nb = uint8(Pick(c, 9, 10))
	n = 1 << nb
	for _, down := range orderNames {
		bigRun(c, fmt.Sprintf("tree%d of %d bits: filled by ClaimFree, released %s", w, nb, down), func(b *big) {
			t := mustGT(w, nb)
			m := gtM{w, nb, map[pfx]string{}}
			probe := []pfx{{0, uint8(w)}, {0, uint8(w) - nb}, {uint64(n) / 2, uint8(w) - nb + 1}, {uint64(n) - 1, uint8(w)}, {0, 0}}
			claimFree := func(i int) {
				b.do("C14", "ClaimFree", func() string {
					e, err := t.ClaimFree(giveLabels(lab(i)))
					_, free := m.uncovered()
					if bad := wantErr(err, !free); bad != "" {
						return fmt.Sprintf("with %d entries: %s", len(m.e), bad)
					}
					if err != nil {
						return ""
					}
					id := e.ID().ID()
					if int(e.ID().Length()) != w || id > m.max() || m.covered(id) || canonMap(e.Labels()) != canon(lab(i)) {
						return fmt.Sprintf("with %d entries: %s", len(m.e), renderTE(e))
					}
					m.e[pfx{id, uint8(w)}] = canon(lab(i))
					return ""
				})
			}
			for i := 0; i <= n; i++ {
				claimFree(i)
				if mark(len(m.e), n) {
					b.say("(%d free claims)", len(m.e))
					gtCheck(b, t, m, probe)
				}
			}
			for i := 0; i < n; i++ {
				p := pfx{uint64(bigOrders(n)[down](i)), uint8(w)}
				b.do("C12", "ReleaseID", func() string { return wantErr(t.ReleaseID(mkID(w, p)), false) })
				delete(m.e, p)
				if i%5 == 4 {
					claimFree(i)
				}
				if mark(len(m.e), n) {
					b.say("(%d entries left)", len(m.e))
					gtCheck(b, t, m, probe)
				}
			}
		})
	}
	// ranges of every size at one place, replacing each other
	bigRun(c, fmt.Sprintf("tree%d: ranges of growing size", w), func(b *big) {
		t := mustGT(w, uint8(w))
		for size := uint64(1); size <= 60000; size = size*3/2 + 1 {
			for _, from := range []uint64{0, 1, 65535 - size} {
				r := fmt.Sprintf("%d-%d", from, from+size-1)
				b.say("ClaimRange(%s)", r)
				b.do("C15", "ClaimRange", func() string {
					if err := t.ClaimRange(r, giveLabels(lab(int(size)))); err != nil {
						return err.Error()
					}
					var want []string
					for _, p := range minimal(w, from, from+size-1) {
						want = append(want, p.String()+canon(lab(int(size))))
					}
					all := t.GetAll()
					sum := uint64(0)
					next := from
					for _, e := range all {
						if e.ID().ID() != next || canonMap(e.Labels()) != canon(lab(int(size))) {
							return fmt.Sprintf("entry %s", renderTE(e))
						}
						k := pfx{e.ID().ID(), e.ID().Length()}.lastOf(w) - next + 1
						sum += k
						next += k
					}
					if sum != size {
						return fmt.Sprintf("the entries cover %d ids, want %d", sum, size)
					}
					return ""
				})
				b.say("ReleaseByLabel(n=%d)", size)
				b.do("C12", "ReleaseByLabel", func() string {
					if err := t.ReleaseByLabel(mustSel(fmt.Sprintf("n=%d", size))); err != nil {
						return err.Error()
					}
					if t.Size() != 0 || len(t.GetAll()) != 0 {
						return fmt.Sprintf("%d entries left", t.Size())
					}
					return ""
				})
			}
		}
	})
}

func gtCheck(b *big, t gt, m gtM, probe []pfx) {
	at := fmt.Sprintf("with %d entries: ", len(m.e))
	order := m.order()
	render := func(keep func(p pfx) bool) []string {
		var l []string
		for _, p := range order {
			if keep(p) {
				l = append(l, p.String()+m.e[p])
			}
		}
		return l
	}
	b.see("C12", "GetAll, Size, GetByLabel", func() string {
		if bad := sameList(t.GetAll(), render(func(pfx) bool { return true })); bad != "" {
			return at + "GetAll: " + bad
		}
		if s := t.Size(); s != len(m.e) {
			return at + fmt.Sprintf("Size %d", s)
		}
		if bad := sameList(t.GetByLabel(mustSel("p=0")), render(func(p pfx) bool { return strings.Contains(m.e[p], "p=0") })); bad != "" {
			return at + "GetByLabel: " + bad
		}
		return ""
	})
	for i, p := range probe {
		if len(probe) > 20 && i%7 != 0 && i != len(probe)-1 {
			continue
		}
		b.see("C12", "Get", func() string {
			e, err := t.Get(mkID(m.w, p))
			l, in := m.e[p]
			if (err == nil) != in || in && renderTE(e) != p.String()+l {
				return at + fmt.Sprintf("Get(%s): %v", p, err)
			}
			return ""
		})
		b.see("C13", "Children, Parents", func() string {
			if bad := sameList(t.Children(mkID(m.w, p)), render(func(x pfx) bool { return p != x && p.covers(m.w, x) })); bad != "" {
				return at + fmt.Sprintf("Children(%s): %s", p, bad)
			}
			if bad := sameList(t.Parents(mkID(m.w, p)), render(func(x pfx) bool { return p != x && x.covers(m.w, p) })); bad != "" {
				return at + fmt.Sprintf("Parents(%s): %s", p, bad)
			}
			return ""
		})
	}
}

// ---- id sets ----

// setScale: sets of many ranges, built and taken apart in several orders.
func setScale(c *Ctx, a *idAPI) {
	n := Pick(c, 1100, 1100)
	for _, base := range []uint64{0, 1000, maxOf(a.w) - 8*uint64(n) + 1} {
		if a.w == 16 && 8*n > 60000 {
			continue
		}
		for _, up := range orderNames {
			for _, gap := range []int{8, 4, 2, 1} {
				bigRun(c, fmt.Sprintf("%d-bit set of %d ranges every %d ids from %d, added %s", a.w, n, gap, base, up), func(b *big) {
					in := make([]bool, 8*n)
					s := a.builder()
					build := func(what string) {
						b.say("%s", what)
						b.do("C19", "IPSet", func() string {
							set, err := a.build(s)
							if err != nil {
								return err.Error()
							}
							rs := set.Ranges()
							k := 0
							for i := 0; i < len(in); {
								if !in[i] {
									i++
									continue
								}
								j := i
								for j < len(in) && in[j] {
									j++
								}
								if k >= len(rs) || rs[k].From().ID() != base+uint64(i) || rs[k].To().ID() != base+uint64(j-1) {
									return fmt.Sprintf("range %d is not %d-%d", k, base+uint64(i), base+uint64(j-1))
								}
								k++
								i = j
							}
							if k != len(rs) {
								return fmt.Sprintf("%d ranges, want %d", len(rs), k)
							}
							return ""
						})
					}
					for i := 0; i < n; i++ {
						k := bigOrders(n)[up](i) * gap
						l := 1 + i%3
						s.AddRange(a.rangeFrom(base+uint64(k), base+uint64(k+l-1)))
						for j := k; j < k+l; j++ {
							in[j] = true
						}
						if mark(i+1, n) {
							build(fmt.Sprintf("(%d ranges added)", i+1))
						}
					}
					for i := 0; i < n; i++ {
						k := stride(n)(i) * gap
						l := 1 + i%4
						s.RemoveRange(a.rangeFrom(base+uint64(k), base+uint64(k+l-1)))
						for j := k; j < k+l; j++ {
							in[j] = false
						}
						if i%7 == 3 {
							k := bigOrders(n)[up](i/2) * gap
							s.AddRange(a.rangeFrom(base+uint64(k), base+uint64(k)))
							in[k] = true
						}
						if mark(i+1, n) || i%64 == 0 {
							build(fmt.Sprintf("(%d ranges removed)", i+1))
						}
					}
				})
			}
		}
	}
}
