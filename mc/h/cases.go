package main

import (
	"fmt"
	"math/bits"
	"strings"

	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/id16"
	"github.com/henderiw/idxtable/pkg/tree/id32"
	"github.com/henderiw/idxtable/pkg/tree/id64"
	"github.com/henderiw/idxtable/verifmc/rt"
	"k8s.io/apimachinery/pkg/labels"
)

// ---- engine E: every input of a bounded family ----

// guard runs f; a panic becomes a failure text.
func guard(f func() string) (bad string) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stopTask); ok {
				panic(e)
			}
			bad = fmt.Sprintf("panic: %v", e)
		}
	}()
	return f()
}

// Case checks one input.
func (c *Ctx) Case(tags string, name func() string, f func() string) {
	c.R.Cases++
	if c.R.Cases&0x3ff == 0 {
		crumb(c.sub, []string{name()})
	} else {
		tick()
	}
	if bad := guard(f); bad != "" {
		n := name()
		if len(c.R.Samples) < 3 {
			c.Sample("%s", n)
		}
		c.Fail(tags, n+": "+bad, []string{n}, nil)
	} else if c.R.Cases&0xffff == 77 {
		c.Sample("%s: as specified", name())
	}
}

// idAPI is one width of the id packages.
type idAPI struct {
	w         int
	newID     func(id uint64, l uint8) tree.ID
	rangeFrom func(a, b uint64) tree.Range
	parse     func(s string) (tree.Range, error)
	rangeOf   func(tree.ID) tree.Range
	last      func(tree.ID) tree.ID
	leftSet   func(uint64) bool
	builder   func() idBuilder
	addSet    func(b idBuilder, s idSet)
	build     func(b idBuilder) (idSet, error)
	free      func(s idSet, l uint8) (tree.ID, idSet, bool)
	merge     func(a uint64, al uint8, b uint64, bl uint8) (uint64, uint8)
}

type idBuilder interface {
	AddId(tree.ID)
	RemoveId(tree.ID)
	AddRange(tree.Range)
	RemoveRange(tree.Range)
}

type idSet interface {
	Ranges() []tree.Range
	IDs() []tree.ID
}

var idAPIs = []*idAPI{
	{
		w: 16, newID: func(id uint64, l uint8) tree.ID { return id16.NewID(uint16(id), l) },
		rangeFrom: func(a, b uint64) tree.Range { return id16.RangeFrom(uint16(a), uint16(b)) },
		parse:     id16.ParseRange, rangeOf: id16.RangeOfID, last: id16.LastID, leftSet: id16.IsLeftBitSet,
		builder: func() idBuilder { return &id16.IDSetBuilder{} },
		addSet:  func(b idBuilder, s idSet) { x, _ := s.(*id16.IDSet); b.(*id16.IDSetBuilder).AddSet(x) },
		build:   func(b idBuilder) (idSet, error) { return b.(*id16.IDSetBuilder).IPSet() },
		free: func(s idSet, l uint8) (tree.ID, idSet, bool) {
			a, b, ok := s.(*id16.IDSet).RemoveFreePrefix(l)
			return a, b, ok
		},
		merge: func(a uint64, al uint8, b uint64, bl uint8) (uint64, uint8) {
			x, l := tree.MergeID16(uint16(a), al, uint16(b), bl)
			return uint64(x), l
		},
	},
	{
		w: 32, newID: func(id uint64, l uint8) tree.ID { return id32.NewID(uint32(id), l) },
		rangeFrom: func(a, b uint64) tree.Range { return id32.RangeFrom(uint32(a), uint32(b)) },
		parse:     id32.ParseRange, rangeOf: id32.RangeOfID, last: id32.LastID, leftSet: id32.IsLeftBitSet,
		builder: func() idBuilder { return &id32.IDSetBuilder{} },
		addSet:  func(b idBuilder, s idSet) { x, _ := s.(*id32.IDSet); b.(*id32.IDSetBuilder).AddSet(x) },
		build:   func(b idBuilder) (idSet, error) { return b.(*id32.IDSetBuilder).IPSet() },
		free: func(s idSet, l uint8) (tree.ID, idSet, bool) {
			a, b, ok := s.(*id32.IDSet).RemoveFreePrefix(l)
			return a, b, ok
		},
		merge: func(a uint64, al uint8, b uint64, bl uint8) (uint64, uint8) {
			x, l := tree.MergeID32(uint32(a), al, uint32(b), bl)
			return uint64(x), l
		},
	},
	{
		w: 64, newID: id64.NewID, rangeFrom: id64.RangeFrom,
		parse: id64.ParseRange, rangeOf: id64.RangeOfID, last: id64.LastID, leftSet: id64.IsLeftBitSet,
		builder: func() idBuilder { return &id64.IDSetBuilder{} },
		addSet:  func(b idBuilder, s idSet) { x, _ := s.(*id64.IDSet); b.(*id64.IDSetBuilder).AddSet(x) },
		build:   func(b idBuilder) (idSet, error) { return b.(*id64.IDSetBuilder).IPSet() },
		free: func(s idSet, l uint8) (tree.ID, idSet, bool) {
			a, b, ok := s.(*id64.IDSet).RemoveFreePrefix(l)
			return a, b, ok
		},
		merge: tree.MergeID64,
	},
}

func apiOf(w int) *idAPI {
	for _, a := range idAPIs {
		if a.w == w {
			return a
		}
	}
	panic("width")
}

func toPfx(id tree.ID) pfx { return pfx{id.ID(), id.Length()} }

// hostMask has the bits beyond length l set.
func hostMask(w int, l uint8) uint64 {
	if l == 0 {
		return maxOf(w)
	}
	if int(l) >= w {
		return 0
	}
	return 1<<(uint8(w)-l) - 1
}

// boundary lists ids near 0, the maximum and every power of two, and (sums) every sum of two powers.
func boundary(w int, dist uint64, sums bool) []uint64 {
	seen := map[uint64]bool{}
	var xs []uint64
	put := func(x uint64) {
		x &= maxOf(w)
		if !seen[x] {
			seen[x] = true
			xs = append(xs, x)
		}
	}
	near := func(x uint64) {
		for d := uint64(0); d <= dist; d++ {
			put(x + d)
			put(x - d)
		}
	}
	near(0)
	for i := 0; i < w; i++ {
		near(1 << i)
		if sums {
			for j := 0; j < i; j++ {
				put(1<<i + 1<<j)
				put(maxOf(w) - (1<<i + 1<<j))
			}
		}
	}
	for _, p := range []uint64{0xAAAAAAAAAAAAAAAA, 0x5555555555555555, 0x0123456789ABCDEF, 0xFEDCBA9876543210, 0x00FF00FF00FF00FF, 0xFF00FF00FF00FF00} {
		put(p)
	}
	return xs
}

// ---- C18 ----

func sameIDs(got []tree.ID, want []pfx) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d prefixes, want %d: got %v, want %v", len(got), len(want), short(got), shortP(want))
	}
	for i, g := range got {
		if g == nil || g.ID() != want[i].id || g.Length() != want[i].l {
			return fmt.Sprintf("prefix %d is %v, want %s (got %v, want %v)", i, g, want[i], short(got), shortP(want))
		}
	}
	return ""
}

func short(xs []tree.ID) string {
	s := ""
	for i, x := range xs {
		if i == 12 {
			return s + "..."
		}
		if x == nil {
			s += "nil "
			continue
		}
		s += toPfx(x).String() + " "
	}
	return s
}

func shortP(xs []pfx) string {
	s := ""
	for i, x := range xs {
		if i == 12 {
			return s + "..."
		}
		s += x.String() + " "
	}
	return s
}

// decompose checks one range made in one of several ways.
func decompose(c *Ctx, a *idAPI, from, to uint64, full bool) {
	c.Case("C18", func() string { return fmt.Sprintf("%d bits: IDs of %s-%s", a.w, u(from), u(to)) }, func() string {
		want := minimal(a.w, from, to)
		r := a.rangeFrom(from, to)
		if bad := sameIDs(r.IDs(), want); bad != "" {
			return bad
		}
		if !full {
			return ""
		}
		// a second time, after the first list was overwritten
		l := r.IDs()
		for i := range l {
			l[i] = nil
		}
		if bad := sameIDs(r.IDs(), want); bad != "" {
			return "asked again: " + bad
		}
		p, err := a.parse(fmt.Sprintf("%d-%d", from, to))
		if err != nil {
			return "ParseRange: " + err.Error()
		}
		for i, o := range []tree.Range{p, a.rangeFrom(to, to).SetFrom(a.newID(from, uint8(a.w))), a.rangeFrom(from, from).SetTo(a.newID(to, uint8(a.w)))} {
			if bad := sameIDs(o.IDs(), want); bad != "" {
				return fmt.Sprintf("(made in way %d) %s", i, bad)
			}
		}
		if len(want) == 1 {
			if bad := sameIDs(a.rangeOf(a.newID(want[0].id, want[0].l)).IDs(), want); bad != "" {
				return "(range of its prefix) " + bad
			}
		}
		// appending
		x, y, z := a.newID(7, 3), a.newID(9, uint8(a.w)), a.newID(1, 1)
		for _, spare := range []int{0, 1, len(want), len(want) + 3, 2*a.w + 8} {
			dst := make([]tree.ID, 2, 2+spare)
			dst[0], dst[1] = x, y
			old := dst
			got := r.AppendIDs(dst)
			if len(got) < 2 || got[0] != x || got[1] != y || old[0] != x || old[1] != y || len(old) != 2 {
				return "AppendIDs changed what was in the list"
			}
			if bad := sameIDs(got[2:], want); bad != "" {
				return "AppendIDs: " + bad
			}
			got = append(got, z)
			if len(got) != len(want)+3 || got[0] != x {
				return "AppendIDs: wrong list"
			}
		}
		return ""
	})
}

func decTasks(tier string) []Task {
	quick := tier != "thorough"
	var ts []Task
	for _, a := range idAPIs {
		a := a
		w := a.w
		max := maxOf(w)
		ts = append(ts, Task{Name: fmt.Sprintf("windows%d", w), Shards: Pick2(quick, 1, 4), Run: func(c *Ctx) {
			if !c.Begin(fmt.Sprintf("%d bits: every range within windows", w)) {
				return
			}
			// a window of 2^k ids around every power of two, at both ends, and in the middle of nowhere
			bigWin := Pick(c, uint64(128), 512)
			smallWin := Pick(c, uint64(24), 64)
			type win struct{ lo, n uint64 }
			wins := []win{{0, bigWin}, {max - bigWin + 1, bigWin}, {max/2 - bigWin/2 + 1, bigWin}, {(0x9E3779B97F4A7C15 & (max / 2)) &^ 0xff, bigWin}}
			for k := 4; k < w; k++ {
				lo := uint64(0)
				if uint64(1)<<k > smallWin/2 {
					lo = 1<<k - smallWin/2
				}
				if lo > max-smallWin+1 {
					lo = max - smallWin + 1
				}
				wins = append(wins, win{lo, smallWin})
			}
			for i, x := range wins {
				if !c.Mine(i) {
					continue
				}
				for p := uint64(0); p < x.n; p++ {
					for q := p; q < x.n; q++ {
						decompose(c, a, x.lo+p, x.lo+q, q-p < 40)
					}
				}
			}
			c.Note("%d bits: every range inside %d windows of %d and %d ids", w, len(wins), bigWin, smallWin)
		}})
		ts = append(ts, Task{Name: fmt.Sprintf("patterns%d", w), Run: func(c *Ctx) {
			if !c.Begin(fmt.Sprintf("%d bits: every pair of boundary ids", w)) {
				return
			}
			xs := boundary(w, 1, false)
			if !c.Quick() {
				xs = boundary(w, 3, w < 64)
			}
			n := 0
			for _, x := range xs {
				if c.Expired() {
					return
				}
				for _, y := range xs {
					if x <= y {
						decompose(c, a, x, y, !c.Quick() || n%7 == 0)
						n++
					}
				}
			}
			c.Note("%d bits: every pair of %d boundary ids (%d ranges)", w, len(xs), n)
		}})
		ts = append(ts, Task{Name: fmt.Sprintf("shifted%d", w), Run: func(c *Ctx) {
			// k-bit ranges moved up by every shift, with the bits below and above filled in every way
			if !c.Begin(fmt.Sprintf("%d bits: short ranges at every bit position", w)) {
				return
			}
			k := Pick(c, 4, 6)
			for s := 0; s+k <= w; s++ {
				if c.Expired() {
					return
				}
				ones := uint64(1)<<s - 1
				for _, above := range []uint64{0, max, 0x5555555555555555} {
					hi := above &^ (1<<(s+k) - 1) & max
					if s+k >= 64 {
						hi = 0
					}
					for p := uint64(0); p < 1<<k; p++ {
						for q := p; q < 1<<k; q++ {
							for f := 0; f < 9; f++ {
								lo, l2 := []uint64{0, 1 & ones, ones}[f%3], []uint64{ones, ones &^ 1, 0}[f/3]
								x, y := hi|p<<s|lo, hi|q<<s|l2
								if x <= y {
									decompose(c, a, x, y, false)
								}
							}
						}
					}
				}
			}
			c.Note("%d bits: every %d-bit range at every bit position, 3 fillings above, 9 below", w, k)
		}})
		if w == 16 {
			ts = append(ts, Task{Name: "every16", Shards: Pick2(quick, 4, 8), Run: func(c *Ctx) {
				if !c.Begin("16 bits: every range") {
					return
				}
				// quick: every range whose first or last id is one of these; thorough: every range
				step := func(x uint64) bool { return true }
				if c.Quick() {
					b := map[uint64]bool{}
					for _, x := range boundary(16, 1, false) {
						b[x] = true
					}
					step = func(x uint64) bool { return b[x] }
				}
				n := 0
				for x := uint64(0); x <= max; x++ {
					if !c.Mine(int(x)) {
						continue
					}
					if c.Expired() {
						return
					}
					full := step(x)
					for y := x; y <= max; y++ {
						if full || step(y) {
							decompose(c, a, x, y, false)
							n++
						}
					}
				}
				c.Note("16 bits: %d ranges%s", n, Pick(c, " (first or last id next to a power of two, 0 or the maximum)", ": all of them"))
			}})
		}
	}
	return ts
}

// ---- C20 ----

func arithTasks(tier string) []Task {
	quick := tier != "thorough"
	var ts []Task
	for _, a := range idAPIs {
		a := a
		w := a.w
		W := uint8(w)
		max := maxOf(w)
		one := func(c *Ctx, x uint64, l uint8) {
			c.Case("C20", func() string { return fmt.Sprintf("%d bits: %s/%d", w, u(x), l) }, func() string {
				id := a.newID(x, l)
				if id.ID() != x || id.Length() != l {
					return fmt.Sprintf("NewID gives %s", toPfx(id))
				}
				want := func(what string, got tree.ID, ex uint64, el uint8) string {
					if got == nil || got.ID() != ex || got.Length() != el {
						return fmt.Sprintf("%s is %v, want %s/%d", what, got, u(ex), el)
					}
					return ""
				}
				var bads []string
				add := func(b string) {
					if b != "" {
						bads = append(bads, b)
					}
				}
				if x == max {
					add(want("Next", id.Next(), 0, 0))
				} else {
					add(want("Next", id.Next(), x+1, l))
				}
				if x == 0 {
					add(want("Prev", id.Prev(), 0, 0))
				} else {
					add(want("Prev", id.Prev(), x-1, l))
				}
				add(want("Copy", id.Copy(), x, l))
				add(want("Masked", id.Masked(), x&^hostMask(w, l), l))
				add(want("LastID", a.last(id), x|hostMask(w, l), W))
				r := a.rangeOf(id)
				add(want("RangeOfID from", r.From(), x&^hostMask(w, l), W))
				add(want("RangeOfID to", r.To(), x|hostMask(w, l), W))
				if id.IsLeftBitSet() != (x>>(w-1) == 1) || a.leftSet(x) != (x>>(w-1) == 1) {
					add("IsLeftBitSet is wrong")
				}
				if s := id.String(); s != fmt.Sprintf("%d/%d", x, l) {
					add("String is " + s)
				}
				if id.ID() != x || id.Length() != l {
					add("the id itself has changed")
				}
				return strings.Join(bads, "; ")
			})
		}
		mask := func(c *Ctx, x uint64, l uint8) {
			c.Case("C20", func() string { return fmt.Sprintf("%d bits: masks and shifts of %s/%d", w, u(x), l) }, func() string {
				id := a.newID(x, l)
				for k := 0; k < 256; k++ {
					if k > w+2 && k < 254 && k != 128 {
						continue
					}
					got, err := id.Mask(uint8(k))
					if (err != nil) != (k > w) {
						return fmt.Sprintf("Mask(%d): error %v", k, err)
					}
					if err == nil && (got == nil || got.ID() != x&^hostMask(w, uint8(k)) || got.Length() != uint8(k)) {
						return fmt.Sprintf("Mask(%d) is %v", k, got)
					}
				}
				for k := uint8(0); k <= l; k++ {
					sh := x << k & max
					if k >= 64 {
						sh = 0
					}
					got := id.ShiftLeft(k)
					if got.ID() != sh || got.Length() != l-k {
						return fmt.Sprintf("ShiftLeft(%d) is %v, want %s/%d", k, got, u(sh), l-k)
					}
					head, _ := id.Mask(k)
					if m, ml := a.merge(head.ID(), k, got.ID(), l-k); m != x&^hostMask(w, l) || ml != l {
						return fmt.Sprintf("merging the first %d bits and the rest gives %s/%d", k, u(m), ml)
					}
					if m, ml := a.merge(x, k, got.ID(), l-k); m != x&^hostMask(w, l) || ml != l {
						return fmt.Sprintf("merging the first %d bits (of the whole id) and the rest gives %s/%d", k, u(m), ml)
					}
				}
				if id.ID() != x || id.Length() != l {
					return "the id itself has changed"
				}
				return ""
			})
		}
		ts = append(ts, Task{Name: fmt.Sprintf("one%d", w), Shards: 2, Run: func(c *Ctx) {
			if !c.Begin(fmt.Sprintf("%d bits: single ids", w)) {
				return
			}
			var xs []uint64
			if w == 16 {
				for x := uint64(0); x <= max; x++ {
					xs = append(xs, x)
				}
			} else {
				xs = boundary(w, 3, true)
			}
			for i, x := range xs {
				if !c.Mine(i) {
					continue
				}
				if c.Expired() {
					return
				}
				for l := 0; l <= w; l++ {
					one(c, x, uint8(l))
				}
				one(c, x, W)
			}
			c.Note("%d bits: %d ids with every length", w, len(xs))
			ys := boundary(w, 1, false)
			if !quick {
				ys = boundary(w, 3, w < 64)
			}
			for i, x := range ys {
				if !c.Mine(i) {
					continue
				}
				if c.Expired() {
					return
				}
				for l := 0; l <= w; l++ {
					mask(c, x, uint8(l))
				}
			}
			c.Note("%d bits: masks, shifts and merges of %d ids with every length", w, len(ys))
		}})
		ts = append(ts, Task{Name: fmt.Sprintf("two%d", w), Shards: Pick2(quick, 3, 8), Run: func(c *Ctx) {
			if !c.Begin(fmt.Sprintf("%d bits: pairs of ids", w)) {
				return
			}
			type it struct {
				p  pfx
				id tree.ID
			}
			var xs []it
			put := func(x uint64, l int) { p := pfx{x, uint8(l)}; xs = append(xs, it{p, mkID(w, p)}) }
			bs := boundary(w, 1, false)
			for i, x := range bs {
				for l := 0; l <= w; l++ {
					if w == 64 && c.Quick() && (l+i)%4 != 0 && l > 3 && l < 62 && l != 32 {
						continue
					}
					put(x, l)
				}
			}
			lz := func(x, y uint64) uint8 { return uint8(bits.LeadingZeros64(x^y) - (64 - w)) }
			for i, x := range xs {
				if !c.Mine(i) {
					continue
				}
				if c.Expired() {
					return
				}
				for _, y := range xs {
					x, y := x, y
					c.R.Cases++
					l := min(x.p.l, y.p.l)
					ov := (x.p.id^y.p.id)&^hostMask(w, l) == 0
					cmp := 0
					switch {
					case x.p.l < y.p.l || (x.p.l == y.p.l && x.p.id < y.p.id):
						cmp = -1
					case x.p.l > y.p.l || x.p.id > y.p.id:
						cmp = 1
					}
					if bad := guard(func() string {
						if x.id.Overlaps(y.id) != ov {
							return fmt.Sprintf("Overlaps is %v, want %v", !ov, ov)
						}
						if g := x.id.Compare(y.id); g != cmp {
							return fmt.Sprintf("Compare is %d, want %d", g, cmp)
						}
						if x.id.Less(y.id) != (cmp < 0) {
							return fmt.Sprintf("Less is %v, want %v", cmp >= 0, cmp < 0)
						}
						if g := x.id.Matches(y.p.id); g != lz(x.p.id, y.p.id) {
							return fmt.Sprintf("Matches is %d, want %d", g, lz(x.p.id, y.p.id))
						}
						return ""
					}); bad != "" {
						n := fmt.Sprintf("%d bits: %s and %s", w, x.p, y.p)
						c.Fail("C20", n+": "+bad, []string{n}, nil)
					}
				}
				tick()
			}
			c.Note("%d bits: every pair of %d prefixes", w, len(xs))
		}})
	}
	return ts
}

// ---- C21 ----

// parseModel is what ParseRange must accept.
func parseModel(w int, s string) (a, b uint64, ok bool) {
	m := gtM{w: w, n: uint8(w)}
	x, y, found := strings.Cut(s, "-")
	if !found {
		return 0, 0, false
	}
	dec := func(t string) (v uint64, ok bool) {
		if t == "" {
			return 0, false
		}
		for _, ch := range []byte(t) {
			if ch < '0' || ch > '9' {
				return 0, false
			}
			d := uint64(ch - '0')
			hi, lo := bits.Mul64(v, 10)
			if hi != 0 || lo+d < lo {
				return 0, false
			}
			v = lo + d
		}
		return v, v <= m.max()
	}
	a, okA := dec(x)
	b, okB := dec(y)
	return a, b, okA && okB
}

func parseCase(c *Ctx, a *idAPI, s string) {
	c.Case("C21", func() string { return fmt.Sprintf("%d bits: ParseRange(%q)", a.w, s) }, func() string {
		x, y, ok := parseModel(a.w, s)
		r, err := a.parse(s)
		if (err == nil) != ok {
			return fmt.Sprintf("error %v, want accepted %v", err, ok)
		}
		if !ok {
			return ""
		}
		if toPfx(r.From()) != (pfx{x, uint8(a.w)}) || toPfx(r.To()) != (pfx{y, uint8(a.w)}) {
			return fmt.Sprintf("bounds %s and %s", toPfx(r.From()), toPfx(r.To()))
		}
		if r.IsValid() != (x <= y) {
			return fmt.Sprintf("IsValid is %v", r.IsValid())
		}
		text := r.String()
		if text != fmt.Sprintf("%d-%d", x, y) {
			return "prints as " + text
		}
		r2, err := a.parse(text)
		if err != nil || toPfx(r2.From()) != toPfx(r.From()) || toPfx(r2.To()) != toPfx(r.To()) {
			return "the printed text does not parse back"
		}
		return ""
	})
}

func rangeTasks(tier string) []Task {
	quick := tier != "thorough"
	var ts []Task
	for _, a := range idAPIs {
		a := a
		w := a.w
		W := uint8(w)
		max := maxOf(w)
		ts = append(ts, Task{Name: fmt.Sprintf("texts%d", w), Shards: Pick2(quick, 2, 4), Run: func(c *Ctx) {
			if c.Begin(fmt.Sprintf("%d bits: every short text", w)) {
				alpha := []string{"0", "1", "9", "-", "+", " ", "_", "x", ".", "\x00", "é"}
				depth := Pick(c, 5, 6)
				n := 0
				var rec func(s string, k int)
				rec = func(s string, k int) {
					n++
					if c.Mine(n / 1000) {
						parseCase(c, a, s)
					}
					if k == depth {
						return
					}
					for _, x := range alpha {
						rec(s+x, k+1)
					}
				}
				rec("", 0)
				c.Note("%d bits: every text of up to %d characters over %q", w, depth, alpha)
			}
			if c.Begin(fmt.Sprintf("%d bits: texts with boundary numbers", w)) {
				nums := []string{"0", "1", "00", "007", "000000000000000000000000012", "+1", "-1", " 5", "5 ", "1e3", "0x10", "0b1", "0o7", "1_000", "", "١", "5\n", "99999999999999999999999999",
					"18446744073709551615", "18446744073709551616", "18446744073709551617", "184467440737095516160", "36893488147419103232", "4294967295", "4294967296", "4294967297", "65535", "65536", "65537", "131072", "131071"}
				for k := 1; k < w; k++ {
					nums = append(nums, u10(1<<k), u10(1<<k-1))
				}
				nums = append(nums, u10(max), u10(max-1))
				for i, x := range nums {
					if !c.Mine(i) {
						continue
					}
					for _, y := range nums {
						parseCase(c, a, x+"-"+y)
						parseCase(c, a, x+"-"+y+"-")
						parseCase(c, a, "-"+x+"-"+y)
					}
					parseCase(c, a, x)
					for _, sep := range []string{"--", " - ", "–", ":", "..", "/", ","} {
						parseCase(c, a, x+sep+x)
					}
				}
			}
		}})
		ts = append(ts, Task{Name: fmt.Sprintf("relations%d", w), Run: func(c *Ctx) {
			if !c.Begin(fmt.Sprintf("%d bits: every pair of ranges", w)) {
				return
			}
			type rg struct {
				a, b uint64
				r    tree.Range
			}
			k := Pick(c, uint64(7), 9)
			sets := [][]uint64{}
			for _, lo := range []uint64{0, max - k + 1, max/2 - k/2, 253} {
				var ps []uint64
				for i := uint64(0); i < k; i++ {
					ps = append(ps, lo+i)
				}
				sets = append(sets, ps)
			}
			// far apart, and points that agree in their low halves
			h := uint64(1) << (w / 2)
			sets = append(sets, []uint64{0, 1, h - 1, h, h + 1, max / 2, max/2 + 1, max - 1, max}[:], []uint64{0, 256, 512, 65280 & max, 255, 511, max - 255, max}, []uint64{0, h, 2 * h, 3 * h, 1, h + 1, max - h, max &^ (h - 1), max})
			for _, ps := range sets {
				var rs []rg
				for _, x := range ps {
					for _, y := range ps {
						if x <= y {
							rs = append(rs, rg{x, y, a.rangeFrom(x, y)})
						} else {
							c.Case("C21", func() string { return fmt.Sprintf("%d bits: %s-%s", w, u(x), u(y)) }, func() string {
								if a.rangeFrom(x, y).IsValid() {
									return "a reversed range is valid"
								}
								return ""
							})
						}
					}
				}
				for _, x := range rs {
					if c.Expired() {
						return
					}
					for _, y := range rs {
						c.Case("C21", func() string { return fmt.Sprintf("%d bits: %s-%s and %s-%s", w, u(x.a), u(x.b), u(y.a), u(y.b)) }, func() string {
							if !x.r.IsValid() {
								return "invalid"
							}
							if x.r.IsZero() {
								return "the zero range"
							}
							meet := x.a <= y.b && y.a <= x.b
							for _, t := range []struct {
								n    string
								g, w bool
							}{
								{"EntirelyBefore", x.r.EntirelyBefore(y.r), x.b < y.a},
								{"CoveredBy", x.r.CoveredBy(y.r), y.a <= x.a && x.b <= y.b},
								{"InMiddleOf", x.r.InMiddleOf(y.r), y.a < x.a && x.b < y.b},
								{"OverlapsStartOf", x.r.OverlapsStartOf(y.r), meet && x.a <= y.a && x.b < y.b},
								{"OverlapsEndOf", x.r.OverlapsEndOf(y.r), meet && y.a < x.a && y.b <= x.b},
								{"Less", x.r.Less(y.r), x.a < y.a || (x.a == y.a && x.b > y.b)},
							} {
								if t.g != t.w {
									return fmt.Sprintf("%s is %v", t.n, t.g)
								}
							}
							// changing one bound
							f := x.r.SetFrom(mkID(w, pfx{y.a, W}))
							t := x.r.SetTo(mkID(w, pfx{y.b, W}))
							chk := func(what string, r tree.Range, p, q uint64) string {
								if toPfx(r.From()) != (pfx{p, W}) || toPfx(r.To()) != (pfx{q, W}) || r.IsValid() != (p <= q) || r.String() != fmt.Sprintf("%d-%d", p, q) {
									return fmt.Sprintf("%s gives %s", what, r)
								}
								return ""
							}
							for _, b := range []string{chk("SetFrom", f, y.a, x.b), chk("SetTo", t, x.a, y.b), chk("the original afterwards", x.r, x.a, x.b)} {
								if b != "" {
									return b
								}
							}
							return ""
						})
					}
				}
			}
			c.Note("%d bits: every pair of ranges over %d point sets", w, len(sets))
		}})
	}
	return ts
}

func u10(x uint64) string { return fmt.Sprintf("%d", x) }

// ---- C25 ----

// otherEntry is an entry that is not the package's own.
type otherEntry struct {
	id tree.ID
	l  labels.Set
}

func (o otherEntry) ID() tree.ID           { return o.id }
func (o otherEntry) Labels() labels.Set    { return o.l }
func (o otherEntry) String() string        { return "other" }
func (o otherEntry) Equal(tree.Entry) bool { return false }

func labelUniverse(thorough bool) []map[string]string {
	us := []map[string]string{
		nil, {}, {"a": "1"}, {"a": "2"}, {"b": "1"}, {"a": ""}, {"": ""}, {"": "a"}, {"": "1"}, {"a=1": ""}, {"a": "1,"}, {"a": "1,b=2"}, {"a": "1", "b": "2"}, {"a=1,b": "2"}, {"b": "2", "a": "1", "c": "3"},
		{"a": "1,b=2,c=3"}, {"a": "1", "b": "2,c=3"}, {"a": "1,b=2", "c": "3"}, {"a": "=1"}, {"a=": "1"}, {"a": "", "b": ""}, {"a": ",b="}, {"A": "1"}, {"a": "1 "}, {" a": "1"}, {"a1": ""}, {"ab": "1"}, {"a": "b1"}, {"aa": "1"}, {"a": "11"},
		{"a": "2", "b": "1"}, {"a": "b", "b": "a"}, {"b": "b", "a": "a"}, {"a": "1", "c": "2"}, {"a": "1", "b": ""}, {"a": "1", "": "2"}, {"": "", "a": "1"}, {"é": "1"}, {"e\u0301": "1"}, {"a": "\x00"}, {"a\x00": ""},
	}
	// large maps and long texts that differ in one place
	for _, n := range []int{4, 7, 8, 9, 16, 17, 33, 65, 130} {
		full := func() map[string]string {
			m := map[string]string{}
			for i := 0; i < n; i++ {
				m[fmt.Sprintf("k%d", i)] = fmt.Sprint(i)
			}
			return m
		}
		us = append(us, full())
		for _, i := range []int{0, n / 2, n - 1} {
			k := fmt.Sprintf("k%d", i)
			m := full()
			m[k] = "other"
			us = append(us, m)
			m = full()
			delete(m, k)
			us = append(us, m)
			m = full()
			delete(m, k)
			m[k+"x"] = fmt.Sprint(i)
			us = append(us, m)
		}
		m := full()
		m["k0"], m["k1"] = m["k1"], m["k0"]
		us = append(us, m)
	}
	for _, n := range []int{31, 63, 64, 253, 300, 5000} {
		x := strings.Repeat("x", n)
		us = append(us, map[string]string{"a": x}, map[string]string{"a": x + "y"}, map[string]string{"a": x[1:] + "y"}, map[string]string{"a": "y" + x[1:]}, map[string]string{x: "1"}, map[string]string{x[1:] + "y": "1"}, map[string]string{x + "y": "1"})
	}
	if thorough {
		// every map over these keys with these values
		ks, vs := []string{"", "a", "b", "a=1", ","}, []string{"", "1", "1,b=2", "="}
		var rec func(i int, m map[string]string)
		rec = func(i int, m map[string]string) {
			if i == len(ks) {
				cp := map[string]string{}
				for k, v := range m {
					cp[k] = v
				}
				us = append(us, cp)
				return
			}
			rec(i+1, m)
			for _, v := range vs {
				m[ks[i]] = v
				rec(i+1, m)
				delete(m, ks[i])
			}
		}
		rec(0, map[string]string{})
	}
	return us
}

func cloneMap(m map[string]string) labels.Set {
	if m == nil {
		return nil
	}
	n := labels.Set{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func sameMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func entryTasks(tier string) []Task {
	quick := tier != "thorough"
	var ts []Task
	for _, w := range widths {
		w := w
		W := uint8(w)
		ts = append(ts, Task{Name: fmt.Sprintf("labels%d", w), Shards: Pick2(quick, 1, 4), Run: func(c *Ctx) {
			if !c.Begin(fmt.Sprintf("%d bits: every pair of label sets", w)) {
				return
			}
			us := labelUniverse(!quick && w == 32)
			id := mkID(w, pfx{1 << (w - 2), 3})
			es := make([]tree.Entry, len(us))
			for i, m := range us {
				es[i] = tree.NewEntry(id, cloneMap(m))
			}
			for i := range us {
				if !c.Mine(i) {
					continue
				}
				if c.Expired() {
					return
				}
				for j := range us {
					c.Case("C25", func() string { return fmt.Sprintf("%d bits: entries with labels %q and %q", w, us[i], us[j]) }, func() string {
						want := sameMap(us[i], us[j])
						for o := 0; o < 4; o++ {
							rt.MapOrder = o
							got := es[i].Equal(es[j])
							rt.MapOrder = 0
							if got != want {
								return fmt.Sprintf("Equal is %v, want %v (map iteration order %d)", got, want, o)
							}
							if quick == false && w == 32 && o == 1 {
								break
							}
						}
						if got := es[i].Equal(otherEntry{id.Copy(), cloneMap(us[j])}); got != want {
							return fmt.Sprintf("Equal to an entry of another type is %v, want %v", got, want)
						}
						return ""
					})
				}
			}
			for i, m := range us {
				c.Case("C25", func() string { return fmt.Sprintf("%d bits: entry with labels %q", w, us[i]) }, func() string {
					give := cloneMap(m)
					e := tree.NewEntry(id, give)
					f := tree.NewEntry(id, give)
					spoil(give)
					if give != nil {
						give["a"] = "changed"
						delete(give, "b")
					}
					if !sameMap(e.Labels(), m) {
						return fmt.Sprintf("labels read back as %q", e.Labels())
					}
					if toPfx(e.ID()) != toPfx(id) {
						return fmt.Sprintf("id reads back as %s", toPfx(e.ID()))
					}
					if !e.Equal(f) || !e.Equal(e) || !e.Equal(es[i]) {
						return "not equal to an entry made alike"
					}
					return ""
				})
			}
			c.Note("%d bits: every pair of %d label sets", w, len(us))
		}})
		ts = append(ts, Task{Name: fmt.Sprintf("ids%d", w), Run: func(c *Ctx) {
			if !c.Begin(fmt.Sprintf("%d bits: every pair of ids and lengths", w)) {
				return
			}
			type it struct {
				p pfx
				l map[string]string
				e tree.Entry
			}
			var es []it
			for _, x := range []uint64{0, 1, 2, 10, 1 << (w - 1), maxOf(w), maxOf(w) - 1, 1 << (w / 2), 1<<(w/2) + 1, 21, 121} {
				for _, l := range []uint8{0, 1, 2, 11, W / 2, W - 1, W} {
					for _, m := range []map[string]string{nil, {}, {"a": "1"}, {"a": "1", "b": "2"}, {"a": "1,b=2"}} {
						p := pfx{x, l}
						es = append(es, it{p, m, tree.NewEntry(mkID(w, p), cloneMap(m))})
					}
				}
			}
			for _, x := range es {
				for _, y := range es {
					c.Case("C25", func() string {
						return fmt.Sprintf("%d bits: entries %s%q and %s%q", w, x.p, x.l, y.p, y.l)
					}, func() string {
						want := x.p == y.p && sameMap(x.l, y.l)
						if x.e.Equal(y.e) != want {
							return fmt.Sprintf("Equal is %v", !want)
						}
						return ""
					})
				}
			}
		}})
	}
	return ts
}

func init() {
	register("C18", decTasks)
	register("C20", arithTasks)
	register("C21", rangeTasks)
	register("C25", entryTasks)
}
