package main

import (
	"fmt"
	"net/netip"
	"sort"

	"github.com/henderiw/idxtable/pkg/iptable"
)

// Trees as deep as their width: every prefix of one id (a chain), the neighbours that hang off it (a comb), and both, put in
// and taken out in several orders.

func deepShapes(w int) map[string][]pfx {
	m := map[string][]pfx{}
	for name, pat := range map[string]uint64{"0": 0, "the largest id": maxOf(w), "0xAA...": 0xAAAA_AAAA_AAAA_AAAA & maxOf(w), "0xA5C3...": 0xA5C3_96F0_B4D2_87E1 >> (64 - w)} {
		var ch, comb []pfx
		for l := 0; l <= w; l++ {
			mask := uint64(0)
			if l > 0 {
				mask = maxOf(w) &^ (1<<(w-l) - 1)
			}
			ch = append(ch, pfx{pat & mask, uint8(l)})
			if l > 0 {
				comb = append(comb, pfx{pat&mask ^ 1<<(w-l), uint8(l)})
			}
		}
		both := append(append([]pfx{}, ch...), comb...)
		sort.Slice(both, func(i, j int) bool {
			if both[i].id != both[j].id {
				return both[i].id < both[j].id
			}
			return both[i].l < both[j].l
		})
		m["prefixes of "+name] = ch
		m["neighbours of "+name] = comb
		m["prefixes and neighbours of "+name] = both
	}
	return m
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// deepMark are the sizes at which everything is compared.
func deepMark(k, n int) bool { return k <= 2 || k >= n-2 || k%16 <= 2 }

func gtDeep(c *Ctx, w int) {
	shapes := deepShapes(w)
	for _, name := range sortedKeys(shapes) {
		ps := shapes[name]
		n := len(ps)
		for _, up := range orderNames {
			for _, down := range orderNames {
				if c.Quick() && up == "scrambled" && down != "scrambled" {
					continue
				}
				bigRun(c, fmt.Sprintf("tree%d, %s: claimed %s, released %s", w, name, up, down), func(b *big) {
					t := mustGT(w, uint8(w))
					m := gtM{w, uint8(w), map[pfx]string{}}
					claimFree := func() {
						b.do("C14", "ClaimFree", func() string {
							e, err := t.ClaimFree(giveLabels("f=1"))
							if _, free := m.uncovered(); (err == nil) != free {
								return fmt.Sprintf("with %d entries: err %v, an id is free: %v", len(m.e), err, free)
							}
							if err != nil {
								return ""
							}
							if int(e.ID().Length()) != w || m.covered(e.ID().ID()) {
								return fmt.Sprintf("with %d entries: %s", len(m.e), renderTE(e))
							}
							return wantErr(t.ReleaseID(e.ID()), false)
						})
					}
					for i := 0; i < n; i++ {
						p := ps[bigOrders(n)[up](i)]
						b.do("C12", "ClaimID", func() string { return wantErr(t.ClaimID(mkID(w, p), giveLabels(lab(i))), false) })
						m.e[p] = canon(lab(i))
						if deepMark(i+1, n) {
							b.say("(%d entries)", i+1)
							gtCheck(b, t, m, ps)
							claimFree()
						}
					}
					b.do("C16", "Clone", func() string {
						if x, y := renderTEs(t.Clone().GetAll()), renderTEs(t.GetAll()); x != y {
							return x + ", want " + y
						}
						return ""
					})
					for i := 0; i < n; i++ {
						p := ps[bigOrders(n)[down](i)]
						b.do("C12", "ReleaseID", func() string { return wantErr(t.ReleaseID(mkID(w, p)), false) })
						delete(m.e, p)
						if deepMark(n-i-1, n) {
							b.say("(%d entries left)", n-i-1)
							gtCheck(b, t, m, ps)
							claimFree()
						}
					}
				})
			}
		}
	}
}

func genDeep(c *Ctx, w int) {
	shapes := deepShapes(w)
	for _, name := range sortedKeys(shapes) {
		ps := append([]pfx{}, shapes[name]...)
		sort.Slice(ps, func(i, j int) bool {
			if ps[i].id != ps[j].id {
				return ps[i].id < ps[j].id
			}
			return ps[i].l < ps[j].l
		})
		n := len(ps)
		for _, up := range orderNames {
			for _, down := range orderNames {
				bigRun(c, fmt.Sprintf("tree of %d bits, %s: added %s, deleted %s", w, name, up, down), func(b *big) {
					t := newGen(w)
					f := newFill(n)
					eq := mEq.f
					for i := 0; i < n; i++ {
						k := bigOrders(n)[up](i)
						b.do("C11", "Add", func() string {
							if inc, cnt := t.Add(mkID(w, ps[k]), k, eq); !inc || cnt != 1 {
								return fmt.Sprintf("at size %d: %v %d", i, inc, cnt)
							}
							return ""
						})
						f.add(k, k)
						b.say("Add(%s)", ps[k])
						genCheck(b, t, f)
					}
					for i := 0; i < n; i++ {
						k := bigOrders(n)[down](i)
						b.say("Delete(%s)", ps[k])
						b.do("C11", "Delete", func() string {
							if d := t.Delete(mkID(w, ps[k]), eq, k); d != 1 {
								return fmt.Sprintf("at size %d: %d deleted", f.n, d)
							}
							return ""
						})
						f.del(k)
						genCheck(b, t, f)
					}
				})
			}
		}
	}
}

// ---- more entries than 16 bits count ----

const many = 1<<16 + 1500

func manyOrders(n int) map[string]func(i int) int {
	return map[string]func(i int) int{"ascending": func(i int) int { return i }, "descending": func(i int) int { return n - 1 - i }}
}

// atMany are the numbers of entries at which everything is compared.
func atMany(k, n int) bool { return k >= 1<<16-1 && k <= 1<<16+1 || k == n || k == 1<<15 || k == 1000 }

func tabMany(c *Ctx, w int, prop string) {
	n := many
	start, end := uint64(100), uint64(100+n+50)
	if w == 16 {
		start, end, n = 0, 65535, 65536
	}
	for _, up := range []string{"ascending", "descending"} {
		bigRun(c, fmt.Sprintf("table%d [%d,%d]: %d ids claimed %s", w, start, end, n, up), func(b *big) {
			t := newTab(w, start, end)
			f := newFill(int(end - start + 1))
			check := func() {
				b.say("(%d claimed)", f.n)
				b.see("C06", "FindFree, Size", func() string {
					id, err := t.FindFree()
					if free := f.low < len(f.in); (err == nil) != free || free && id != start+uint64(f.low) {
						return fmt.Sprintf("with %d claimed: FindFree %d, %v, want %d", f.n, id, err, start+uint64(f.low))
					}
					if t.Size() != f.n {
						return fmt.Sprintf("Size %d, want %d", t.Size(), f.n)
					}
					return ""
				})
				if prop == "C06" {
					b.see("C06", "Has, IsFree", func() string {
						for i := range f.in {
							if (i%997 == 0 || i > 65530) && (t.Has(start+uint64(i)) != f.in[i] || t.IsFree(start+uint64(i)) == f.in[i]) {
								return fmt.Sprintf("with %d claimed: id %d is reported otherwise", f.n, start+uint64(i))
							}
						}
						return ""
					})
					return
				}
				b.see("C07", "GetAll, GetByLabel, Get", func() string {
					all := t.GetAll()
					half := t.GetByLabel(mustSel("p=1"))
					if len(all) != f.n {
						return fmt.Sprintf("GetAll has %d entries, want %d", len(all), f.n)
					}
					k, h := 0, 0
					for i, in := range f.in {
						if !in {
							continue
						}
						id := start + uint64(i)
						if e := all[k]; e.ID().ID() != id || int(e.ID().Length()) != w || e.Labels()["n"] != fmt.Sprint(f.data[i]) {
							return fmt.Sprintf("entry %d of GetAll is %s, want id %d n=%d", k, renderTE(e), id, f.data[i])
						}
						k++
						if f.data[i]%2 == 1 {
							if h >= len(half) || half[h].ID().ID() != id {
								return fmt.Sprintf("entry %d of GetByLabel is not %d", h, id)
							}
							h++
						}
						if i%997 == 0 || i > 65530 {
							e, err := t.Get(id)
							if err != nil || e.ID().ID() != id || e.Labels()["n"] != fmt.Sprint(f.data[i]) {
								return fmt.Sprintf("Get(%d): %v", id, err)
							}
						}
					}
					if h != len(half) {
						return fmt.Sprintf("GetByLabel has %d entries, want %d", len(half), h)
					}
					return ""
				})
			}
			for i := 0; i < n; i++ {
				k := manyOrders(n)[up](i)
				b.do("C06 C24", "Claim", func() string { return wantErr(t.Claim(start+uint64(k), giveLabels(lab(i))), false) })
				f.add(k, i)
				if atMany(f.n, n) {
					check()
				}
			}
			free := func() {
				b.do("C06 C24", "ClaimFree", func() string {
					e, err := t.ClaimFree(giveLabels(lab(7)))
					if ok := f.low < len(f.in); (err == nil) != ok {
						return fmt.Sprintf("with %d claimed: %v", f.n, err)
					}
					if err != nil {
						return ""
					}
					if e.ID().ID() != start+uint64(f.low) {
						return fmt.Sprintf("with %d claimed: got %d, want %d", f.n, e.ID().ID(), start+uint64(f.low))
					}
					f.add(f.low, 7)
					return ""
				})
			}
			free()
			free()
			for _, k := range []int{n - 1, 65535, 65534, 3} {
				b.say("Release(%d)", start+uint64(k))
				b.do("C06", "Release", func() string { return wantErr(t.Release(start+uint64(k)), false) })
				f.del(k)
			}
			check()
			for i := 0; i < 6; i++ {
				free()
			}
			check()
		})
	}
}

func ipMany(c *Ctx) {
	for _, r := range [][2]string{{"10.0.0.0", "10.2.255.255"}, {"10.0.255.7", "10.3.0.0"}, {"2001:db8::fff0", "2001:db8::4:0"}, {"2001:db8::ffff:ffff:ffff:ff00", "2001:db8:0:1::2:0"}} {
		bigRun(c, fmt.Sprintf("IP table %s-%s: %d addresses claimed", r[0], r[1], many), func(b *big) {
			from, to := netip.MustParseAddr(r[0]), netip.MustParseAddr(r[1])
			t := iptable.New(from, to)
			var as []netip.Addr
			var route []string
			for i, a := 0, from; i <= many; i++ {
				as = append(as, a)
				route = append(route, fmt.Sprintf("10.%d.%d.0/24 n=%d", i>>8&255, i&255, i%3))
				a = a.Next()
			}
			for i := 0; i < many; i++ {
				b.do("C09 C24", "Claim", func() string { return wantErr(t.Claim(as[i].String(), giveRoute(route[i])), false) })
				if !atMany(i+1, many) {
					continue
				}
				b.say("(%d claimed)", i+1)
				b.see("C09", "FindFree, Size, Get, Has, GetAll", func() string {
					if a, err := t.FindFree(); err != nil || a != as[i+1] {
						return fmt.Sprintf("with %d claimed: FindFree %s, %v, want %s", i+1, a, err, as[i+1])
					}
					if t.Size() != i+1 || !t.Has(as[i].String()) || t.Has(as[i+1].String()) || t.IsFree(as[i].String()) || !t.IsFree(as[i+1].String()) {
						return fmt.Sprintf("with %d claimed: Size, Has or IsFree are wrong", i+1)
					}
					if x, err := t.Get(as[i].String()); err != nil || renderRoute(x) != canonRoute(route[i]) {
						return fmt.Sprintf("Get(%s): %v, %v", as[i], x, err)
					}
					all := t.GetAll()
					if len(all) != i+1 {
						return fmt.Sprintf("GetAll has %d, want %d", len(all), i+1)
					}
					for k := range all {
						if renderRoute(all[k]) != canonRoute(route[k]) {
							return fmt.Sprintf("entry %d of GetAll is %s, want %s", k, renderRoute(all[k]), canonRoute(route[k]))
						}
					}
					return ""
				})
			}
			b.do("C09", "Release, FindFree", func() string {
				for _, k := range []int{many - 1, 65536, 65535, 300} {
					if err := t.Release(as[k].String()); err != nil {
						return err.Error()
					}
					if a, err := t.FindFree(); err != nil || a != as[k] {
						return fmt.Sprintf("after Release(%s): FindFree %s, %v", as[k], a, err)
					}
				}
				return ""
			})
		})
	}
}

// gtMany: a tree of more than 65536 ids, all but a few of them claimed.
func gtMany(c *Ctx, w int) {
	nb := uint8(17)
	if w == 16 {
		nb = 16
	}
	n := 1 << nb
	for _, up := range []string{"ascending", "descending"} {
		bigRun(c, fmt.Sprintf("tree%d of %d bits: every id claimed %s", w, nb, up), func(b *big) {
			t := mustGT(w, nb)
			for i := 0; i < n; i++ {
				k := manyOrders(n)[up](i)
				if k == 1 || k == n-2 {
					continue
				}
				b.do("C12", "ClaimID", func() string { return wantErr(t.ClaimID(mkID(w, pfx{uint64(k), uint8(w)}), giveLabels(lab(k))), false) })
			}
			b.say("(all but 1 and %d)", n-2)
			b.do("C14", "ClaimFree", func() string {
				got := map[uint64]bool{}
				for i := 0; i < 3; i++ {
					e, err := t.ClaimFree(giveLabels("n=1"))
					if (err == nil) != (i < 2) {
						return fmt.Sprintf("ClaimFree number %d: err %v", i+1, err)
					}
					if err == nil {
						got[e.ID().ID()] = true
						if int(e.ID().Length()) != w {
							return renderTE(e)
						}
					}
				}
				if !got[1] || !got[uint64(n-2)] {
					return fmt.Sprintf("got %v, want 1 and %d", got, n-2)
				}
				return ""
			})
			b.see("C12", "GetAll, Size, Get", func() string {
				all := t.GetAll()
				if len(all) != n || t.Size() != n {
					return fmt.Sprintf("%d listed, Size %d, want %d", len(all), t.Size(), n)
				}
				for i, e := range all {
					if want := fmt.Sprint(i); e.ID().ID() != uint64(i) || e.Labels()["n"] != want && i != 1 && i != n-2 {
						return fmt.Sprintf("entry %d is %s", i, renderTE(e))
					}
				}
				for _, k := range []int{0, 1, 65535, n - 1} {
					if e, err := t.Get(mkID(w, pfx{uint64(k), uint8(w)})); err != nil || e.ID().ID() != uint64(k) {
						return fmt.Sprintf("Get(%d): %v", k, err)
					}
				}
				return ""
			})
			b.see("C13", "Children", func() string {
				if k := len(t.Children(mkID(w, pfx{0, uint8(w) - nb}))); k != n {
					return fmt.Sprintf("%d children, want %d", k, n)
				}
				return ""
			})
			b.do("C12", "ReleaseByLabel", func() string {
				if err := t.ReleaseByLabel(mustSel("p=1")); err != nil {
					return err.Error()
				}
				return ""
			})
		})
	}
}
