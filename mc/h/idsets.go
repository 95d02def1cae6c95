package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/henderiw/idxtable/pkg/tree"
)

// ---- C19: id set builders ----

// iv is an inclusive interval.
type iv struct{ a, b uint64 }

// ivs is a set of ids as sorted, disjoint, not adjacent intervals (the reference for id sets).
type ivs []iv

func (s ivs) add(x iv) ivs {
	var out ivs
	done := false
	for _, y := range s {
		switch {
		case y.b < x.a && x.a-y.b > 1: // entirely before, not touching
			out = append(out, y)
		case x.b < y.a && y.a-x.b > 1: // entirely after
			if !done {
				out = append(out, x)
				done = true
			}
			out = append(out, y)
		default:
			x = iv{min(x.a, y.a), max(x.b, y.b)}
		}
	}
	if !done {
		out = append(out, x)
	}
	return out
}

func (s ivs) remove(x iv) ivs {
	var out ivs
	for _, y := range s {
		if y.b < x.a || x.b < y.a {
			out = append(out, y)
			continue
		}
		if y.a < x.a {
			out = append(out, iv{y.a, x.a - 1})
		}
		if y.b > x.b {
			out = append(out, iv{x.b + 1, y.b})
		}
	}
	return out
}

func (s ivs) String() string {
	var b []string
	for _, x := range s {
		b = append(b, fmt.Sprintf("%s-%s", u(x.a), u(x.b)))
	}
	return "[" + strings.Join(b, " ") + "]"
}

// hasBlock reports whether an aligned block of prefix length l lies within the set.
func (s ivs) hasBlock(w int, l uint8) bool {
	h := hostMask(w, l)
	for _, x := range s {
		a := x.a
		if a&h != 0 {
			a |= h
			if a >= x.b {
				continue
			}
			a++
		}
		if a <= x.b && x.b-a >= h {
			return true
		}
	}
	return false
}

func (s ivs) contains(x iv) bool {
	for _, y := range s {
		if y.a <= x.a && x.b <= y.b {
			return true
		}
	}
	return false
}

// setStep is one builder operation.
type setStep struct {
	name string
	do   func(b idBuilder)
	// exactly one of these
	add, rem *iv
	set      ivs // AddSet
	addset   bool
	bad      bool // must be reported as an error and change nothing
}

func (st setStep) model(s ivs) ivs {
	switch {
	case st.bad:
	case st.add != nil:
		s = s.add(*st.add)
	case st.rem != nil:
		s = s.remove(*st.rem)
	case st.addset:
		for _, x := range st.set {
			s = s.add(x)
		}
	}
	return s
}

// ways in which the same range or id is handed to the builder
const provenances = 4

func (a *idAPI) mkRange(x iv, prov int) tree.Range {
	W := uint8(a.w)
	switch prov {
	case 1:
		r, err := a.parse(fmt.Sprintf("%d-%d", x.a, x.b))
		if err != nil {
			panic(err)
		}
		return r
	case 2: // bounds taken from the ids of other ranges
		return a.rangeFrom(0, 0).SetFrom(a.rangeFrom(x.a, x.a).IDs()[0]).SetTo(a.rangeFrom(x.b, x.b).IDs()[0])
	case 3: // bounds that are neighbours of other ids, or the ends of prefixes
		f, t := a.newID(x.a, W).Copy(), a.last(a.newID(x.b, W))
		if x.a > 0 {
			f = a.newID(x.a-1, W).Next()
		}
		if x.b < maxOf(a.w) {
			t = a.newID(x.b+1, W).Prev()
		}
		return a.rangeFrom(x.a, x.a).SetFrom(f).SetTo(t)
	}
	return a.rangeFrom(x.a, x.b)
}

func (a *idAPI) mkPrefix(p pfx, prov int) tree.ID {
	switch prov {
	case 1:
		return a.newID(p.id|hostMask(a.w, p.l)/2, p.l) // not canonical
	case 2:
		return a.rangeFrom(p.id, p.lastOf(a.w)).IDs()[0]
	case 3:
		return a.newID(p.id|hostMask(a.w, p.l), p.l).Masked()
	}
	return a.newID(p.id, p.l)
}

// checkSet compares a set with the reference.
func (a *idAPI) checkSet(s idSet, want ivs) string {
	for k := 0; k < 2; k++ {
		rs := s.Ranges()
		if len(rs) != len(want) {
			return fmt.Sprintf("ranges %v, want %s", rs, want)
		}
		W := uint8(a.w)
		for i, r := range rs {
			if toPfx(r.From()) != (pfx{want[i].a, W}) || toPfx(r.To()) != (pfx{want[i].b, W}) {
				return fmt.Sprintf("ranges %v, want %s", rs, want)
			}
		}
		var ps []pfx
		for _, x := range want {
			ps = append(ps, minimal(a.w, x.a, x.b)...)
		}
		ids := s.IDs()
		if bad := sameIDs(ids, ps); bad != "" {
			return "IDs: " + bad
		}
		// the lists belong to the caller
		for i := range rs {
			rs[i] = a.rangeFrom(1, 3)
		}
		for i := range ids {
			ids[i] = a.newID(5, W)
		}
	}
	return ""
}

// takeFree checks RemoveFreePrefix of every length.
func (a *idAPI) takeFree(s idSet, want ivs, ls []uint8, chain bool) string {
	for _, l := range ls {
		id, ns, ok := a.free(s, l)
		if ok != want.hasBlock(a.w, l) {
			return fmt.Sprintf("RemoveFreePrefix(%d): ok=%v, want %v (set %s)", l, ok, !ok, want)
		}
		if bad := a.checkSet(s, want); bad != "" {
			return fmt.Sprintf("after RemoveFreePrefix(%d) the original: %s", l, bad)
		}
		if !ok {
			continue
		}
		p := toPfx(id)
		x := iv{p.id, p.lastOf(a.w)}
		if p.l != l || p.id&hostMask(a.w, l) != 0 || !want.contains(x) {
			return fmt.Sprintf("RemoveFreePrefix(%d) gives %s, not an aligned block in %s", l, p, want)
		}
		rest := want.remove(x)
		if bad := a.checkSet(ns, rest); bad != "" {
			return fmt.Sprintf("RemoveFreePrefix(%d) gives %s and a set: %s", l, p, bad)
		}
		if chain {
			if bad := a.takeFree(ns, rest, []uint8{l}, true); bad != "" {
				return fmt.Sprintf("after RemoveFreePrefix(%d): %s", l, bad)
			}
		}
	}
	return ""
}

// setAlphabet builds the operations over all ranges between the given points and the given prefixes.
func (a *idAPI) setAlphabet(pts []uint64, ps []pfx, prov int, extras bool) []setStep {
	var st []setStep
	sort.Slice(pts, func(i, j int) bool { return pts[i] < pts[j] })
	for i, x := range pts {
		for _, y := range pts[i:] {
			r := a.mkRange(iv{x, y}, prov)
			v := iv{x, y}
			st = append(st, setStep{name: fmt.Sprintf("AddRange(%s-%s)", u(x), u(y)), do: func(b idBuilder) { b.AddRange(r) }, add: &v},
				setStep{name: fmt.Sprintf("RemoveRange(%s-%s)", u(x), u(y)), do: func(b idBuilder) { b.RemoveRange(r) }, rem: &v})
		}
	}
	for _, p := range ps {
		id := a.mkPrefix(p, prov)
		v := iv{p.id, p.lastOf(a.w)}
		st = append(st, setStep{name: fmt.Sprintf("AddId(%s)", p), do: func(b idBuilder) { b.AddId(id) }, add: &v},
			setStep{name: fmt.Sprintf("RemoveId(%s)", p), do: func(b idBuilder) { b.RemoveId(id) }, rem: &v})
	}
	if extras {
		for i := 0; i+1 < len(pts); i += 2 {
			r := a.rangeFrom(pts[i+1], pts[i])
			st = append(st, setStep{name: "AddRange(" + r.String() + ")", do: func(b idBuilder) { b.AddRange(r) }, bad: true},
				setStep{name: "RemoveRange(" + r.String() + ")", do: func(b idBuilder) { b.RemoveRange(r) }, bad: true})
		}
		for _, l := range []uint8{uint8(a.w) + 1, 255} {
			id := a.newID(pts[0], l)
			st = append(st, setStep{name: fmt.Sprintf("AddId(%s/%d)", u(pts[0]), l), do: func(b idBuilder) { b.AddId(id) }, bad: true},
				setStep{name: fmt.Sprintf("RemoveId(%s/%d)", u(pts[0]), l), do: func(b idBuilder) { b.RemoveId(id) }, bad: true})
		}
		// whole sets
		for _, want := range []ivs{{}, {{pts[0], pts[0]}}, {{pts[0], pts[1]}}, {{pts[0], pts[0]}, {pts[len(pts)-1], pts[len(pts)-1]}}, {{pts[1], pts[len(pts)-1]}}} {
			var norm ivs
			for _, x := range want {
				norm = norm.add(x)
			}
			b := a.builder()
			for _, x := range norm {
				b.AddRange(a.mkRange(x, prov))
			}
			s, err := a.build(b)
			if err != nil {
				panic(err)
			}
			st = append(st, setStep{name: "AddSet(" + norm.String() + ")", do: func(b idBuilder) { a.addSet(b, s) }, set: norm, addset: true})
		}
		st = append(st, setStep{name: "AddSet(nil)", do: func(b idBuilder) { a.addSet(b, nil) }, addset: true})
	}
	return st
}

// runSteps executes one sequence of builder operations; every says whether the set is also built after each step.
func (a *idAPI) runSteps(st []setStep, seq []int, every bool, ls []uint8) string {
	b := a.builder()
	var want ivs
	type snap struct {
		s    idSet
		want ivs
		at   int
	}
	var snaps []snap
	pending := false
	build := func(at int) string {
		s, err := a.build(b)
		if pending && err == nil {
			return "an invalid operation was not reported"
		}
		if err != nil && !pending {
			return "error without an invalid operation since the last build: " + err.Error()
		}
		pending = false
		if s == nil {
			return "no set"
		}
		if bad := a.checkSet(s, want); bad != "" {
			return bad
		}
		snaps = append(snaps, snap{s, want, at})
		return ""
	}
	for i, k := range seq {
		st[k].do(b)
		if st[k].bad {
			pending = true
		}
		want = st[k].model(want)
		if every && i+1 < len(seq) {
			if bad := build(i); bad != "" {
				return fmt.Sprintf("after step %d: %s", i+1, bad)
			}
		}
	}
	if bad := build(len(seq)); bad != "" {
		return bad
	}
	if ls != nil {
		if bad := a.takeFree(snaps[len(snaps)-1].s, want, ls, false); bad != "" {
			return bad
		}
	}
	if every {
		// putting the built sets back, continuing the builder, changes none of them
		for _, sn := range snaps {
			a.addSet(b, sn.s)
			for _, x := range sn.want {
				want = want.add(x)
			}
		}
		if bad := build(0); bad != "" {
			return "after adding the sets built before: " + bad
		}
		for _, sn := range snaps[:len(snaps)-1] {
			if bad := a.checkSet(sn.s, sn.want); bad != "" {
				return fmt.Sprintf("the set built after step %d is different in the end: %s", sn.at+1, bad)
			}
		}
	}
	return ""
}

func (a *idAPI) seqName(st []setStep, seq []int, every bool) string {
	var n []string
	for _, k := range seq {
		n = append(n, st[k].name)
	}
	s := fmt.Sprintf("%d bits: %s", a.w, strings.Join(n, ", "))
	if every {
		s += " (built after every step)"
	}
	return s
}

// allSeqs runs every sequence of exactly the given length.
func (a *idAPI) allSeqs(c *Ctx, st []setStep, depth int, ls []uint8) {
	seq := make([]int, depth)
	n := 0
	for {
		if seq[depth-1] == 0 {
			n++
		}
		if c.Mine(n) {
			for _, every := range []bool{false, true} {
				if every && depth == 1 {
					continue
				}
				c.Case("C19", func() string { return a.seqName(st, seq, every) }, func() string {
					if every {
						return a.runSteps(st, seq, true, nil)
					}
					return a.runSteps(st, seq, false, ls)
				})
			}
			if c.R.Cases&0xfff == 0 && c.Expired() {
				return
			}
		}
		i := depth - 1
		for i >= 0 {
			seq[i]++
			if seq[i] < len(st) {
				break
			}
			seq[i] = 0
			i--
		}
		if i < 0 {
			return
		}
	}
}

func setTasks(tier string) []Task {
	quick := tier != "thorough"
	var ts []Task
	for _, a := range idAPIs {
		a := a
		w := a.w
		W := uint8(w)
		m := maxOf(w)
		var every []uint8
		for l := 0; l <= w; l++ {
			every = append(every, uint8(l))
		}
		some := []uint8{0, 1, 2, W / 2, W - 3, W - 2, W - 1, W}
		win := func(lo uint64, k int) []uint64 {
			var p []uint64
			for i := 0; i < k; i++ {
				p = append(p, lo+uint64(i))
			}
			return p
		}
		places := map[string]uint64{"bottom": 0, "top": m - 7, "middle": m/2 - 3, "byte edge": 252}
		for _, pl := range []string{"bottom", "top", "middle", "byte edge"} {
			pl := pl
			lo := places[pl]
			ts = append(ts, Task{Name: fmt.Sprintf("seq%d %s", w, pl), Shards: Pick2(quick, 2, 8), Run: func(c *Ctx) {
				// all sequences of depth 2 over 8 ids (with prefixes), of depth 3 over 5 ids, of depth 4 over 3 ids
				if c.Begin(fmt.Sprintf("%d bits, %s: short sequences over 8 ids", w, pl)) {
					ps := []pfx{}
					for _, p := range append(block(w, pfx{lo &^ 7, W - 3}, 3), pfx{0, 0}, pfx{0, 1}, pfx{1 << (w - 1), 1}) {
						ps = append(ps, p)
					}
					for prov := 0; prov < provenances; prov++ {
						st := a.setAlphabet(win(lo, 8), ps, prov, prov == 0)
						a.allSeqs(c, st, 1, every)
						a.allSeqs(c, st, 2, some)
						if !c.Quick() && prov < 2 {
							a.allSeqs(c, st, 3, []uint8{W - 1, W})
						}
					}
				}
				if c.Begin(fmt.Sprintf("%d bits, %s: longer sequences over 5 ids", w, pl)) {
					pts := win(lo, 5)
					if pl == "top" {
						pts = win(m-4, 5)
					}
					for prov := 0; prov < Pick(c, 2, provenances); prov++ {
						st := a.setAlphabet(pts, []pfx{{pts[0] &^ 3, W - 2}, {0, 0}}, prov, true)
						a.allSeqs(c, st, 3, []uint8{W - 2, W - 1, W})
					}
				}
				if c.Begin(fmt.Sprintf("%d bits, %s: long sequences over 3 ids", w, pl)) {
					pts := win(lo, 3)
					if pl == "top" {
						pts = win(m-2, 3)
					}
					st := a.setAlphabet(pts, nil, 0, false)
					a.allSeqs(c, st, 4, []uint8{W - 1, W})
					if !c.Quick() {
						a.allSeqs(c, st, 5, []uint8{W})
						a.allSeqs(c, st, 6, nil)
						a.allSeqs(c, a.setAlphabet(win(lo, 4), nil, 0, false), 4, []uint8{W - 1, W})
					}
				}
			}})
		}
		ts = append(ts, Task{Name: fmt.Sprintf("wide%d", w), Shards: Pick2(quick, 2, 8), Run: func(c *Ctx) {
			if !c.Begin(fmt.Sprintf("%d bits: sequences over the whole width", w)) {
				return
			}
			h := uint64(1) << (w / 2)
			pts := []uint64{0, 1, h - 1, h, m / 2, m/2 + 1, m - h, m - 1, m}
			ps := []pfx{{0, 0}, {0, 1}, {1 << (w - 1), 1}, {h, W / 2}, {m, W}, {0, W}, {0, W / 2}}
			for prov := 0; prov < provenances; prov++ {
				st := a.setAlphabet(pts, ps, prov, true)
				a.allSeqs(c, st, 1, every)
				a.allSeqs(c, st, 2, some)
			}
			st := a.setAlphabet([]uint64{0, h - 1, h, m - 1, m}, ps[:3], 0, false)
			a.allSeqs(c, st, 3, []uint8{0, 1, W})
		}})
		ts = append(ts, Task{Name: fmt.Sprintf("scale%d", w), Shards: 2, Run: func(c *Ctx) { setScale(c, a) }})
		// every subset of a window as a set; every free prefix length until nothing is left
		ts = append(ts, Task{Name: fmt.Sprintf("subsets%d", w), Shards: Pick2(quick, 1, 8), Run: func(c *Ctx) {
			k := Pick(c, 8, 12)
			for _, lo := range []uint64{0, m - uint64(k) + 1, m/2 - uint64(k)/2 + 1, 250} {
				if !c.Begin(fmt.Sprintf("%d bits: every subset of %d ids from %s", w, k, u(lo))) {
					continue
				}
				for set := 0; set < 1<<k; set++ {
					if !c.Mine(set) {
						continue
					}
					if c.Expired() {
						return
					}
					for way := 0; way < 3; way++ {
						c.Case("C19", func() string {
							return fmt.Sprintf("%d bits: the subset %b of the ids from %s, built in way %d", w, set, u(lo), way)
						}, func() string {
							b := a.builder()
							var want ivs
							all := iv{lo, lo + uint64(k) - 1}
							if way > 0 {
								b.AddRange(a.rangeFrom(all.a, all.b))
								want = want.add(all)
							}
							for i := 0; i < k; i++ {
								j := i
								if way == 2 {
									j = (i*5 + 3) % k
									if k%5 == 0 {
										j = k - 1 - i
									}
								}
								x := iv{lo + uint64(j), lo + uint64(j)}
								if way == 0 && set>>j&1 == 1 {
									b.AddId(a.newID(x.a, W))
									want = want.add(x)
								}
								if way > 0 && set>>j&1 == 0 {
									b.RemoveId(a.newID(x.a, W))
									want = want.remove(x)
								}
							}
							s, err := a.build(b)
							if err != nil {
								return err.Error()
							}
							if bad := a.checkSet(s, want); bad != "" {
								return bad
							}
							return a.takeFree(s, want, []uint8{W - 4, W - 3, W - 2, W - 1, W}, true)
						})
					}
				}
			}
		}})
	}
	return ts
}

func init() { register("C19", setTasks) }
