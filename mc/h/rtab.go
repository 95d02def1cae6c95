package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/henderiw/idxtable/pkg/table"
	"github.com/henderiw/idxtable/pkg/table/table16"
	"github.com/henderiw/idxtable/pkg/table/table32"
	"github.com/henderiw/idxtable/pkg/table/table64"
)

// ---- 16/32/64-bit range tables ----

func maxOf(w int) uint64 {
	if w == 64 {
		return maxU
	}
	return 1<<w - 1
}

func newTab(w int, start, end uint64) table.Table {
	switch w {
	case 16:
		return table16.New(uint16(start), uint16(end))
	case 32:
		return table32.New(uint32(start), uint32(end))
	}
	return table64.New(start, end)
}

type tabM struct {
	w          int
	start, end uint64
	e          map[uint64]string
}

func (m tabM) with(f func(e map[uint64]string)) tabM {
	e := make(map[uint64]string, len(m.e)+1)
	for k, v := range m.e {
		e[k] = v
	}
	f(e)
	return tabM{m.w, m.start, m.end, e}
}

func (m tabM) in(id uint64) bool { return id >= m.start && id <= m.end }

func (m tabM) ids() []uint64 {
	ks := make([]uint64, 0, len(m.e))
	for k := range m.e {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

func (m tabM) free() (uint64, bool) {
	for id := m.start; ; id++ {
		if _, ok := m.e[id]; !ok {
			return id, true
		}
		if id == m.end {
			return 0, false
		}
	}
}

func (m tabM) entry(id uint64) string { return fmt.Sprintf("%s/%d%s", u(id), m.w, m.e[id]) }

func (m tabM) list(f func(map[string]string) bool) string {
	var b []string
	for _, id := range m.ids() {
		if f(uncanon(m.e[id])) {
			b = append(b, m.entry(id))
		}
	}
	return "[" + strings.Join(b, " ") + "]"
}

func tabKey(x any) string {
	m := x.(tabM)
	var b strings.Builder
	for _, k := range m.ids() {
		fmt.Fprintf(&b, "%s%s ", u(k-m.start), m.e[k])
	}
	return b.String()
}

func tabClaim(id uint64, l string) *Op {
	return det(fmt.Sprintf("Claim(%s,%s)", u(id), l), "C06 C24", false,
		func(s any) string { x := giveLabels(l); r := es(s.(table.Table).Claim(id, x)); spoil(x); return r },
		func(x any) (any, string) {
			m := x.(tabM)
			if _, ok := m.e[id]; ok || !m.in(id) {
				return m, "err"
			}
			return m.with(func(e map[uint64]string) { e[id] = canon(l) }), "ok"
		})
}

func tabUpdate(id uint64, l string) *Op {
	return det(fmt.Sprintf("Update(%s,%s)", u(id), l), "C06 C24", false,
		func(s any) string { x := giveLabels(l); r := es(s.(table.Table).Update(id, x)); spoil(x); return r },
		func(x any) (any, string) {
			m := x.(tabM)
			if _, ok := m.e[id]; !ok {
				return m, "err"
			}
			return m.with(func(e map[uint64]string) { e[id] = canon(l) }), "ok"
		})
}

func tabRelease(id uint64) *Op {
	return det(fmt.Sprintf("Release(%s)", u(id)), "C06 C24", false,
		func(s any) string { return es(s.(table.Table).Release(id)) },
		func(x any) (any, string) {
			m := x.(tabM)
			if !m.in(id) {
				return m, "err"
			}
			return m.with(func(e map[uint64]string) { delete(e, id) }), "ok"
		})
}

// tabClaimFree: which id is handed out is C06, how the returned entry shows it is C07.
func tabClaimFree(l string) *Op {
	op := &Op{Name: fmt.Sprintf("ClaimFree(%s)", l), Tags: "C06 C07 C24"}
	op.Do = func(s any) Out {
		x := giveLabels(l)
		e, err := s.(table.Table).ClaimFree(x)
		spoil(x)
		if err != nil {
			return Out{S: "err", Err: true}
		}
		handOut(func() string { return renderTE(e) })
		return Out{S: renderTE(e)}
	}
	op.Spec = func(x any, o Out) (any, string) {
		m := x.(tabM)
		f, ok := m.free()
		if !ok {
			if !o.Err {
				return m, "C06: got " + o.S + ", want an error (nothing is free)"
			}
			return m, ""
		}
		if o.Err {
			return m, "C06: got err, want " + u(f)
		}
		m2 := m.with(func(e map[uint64]string) { e[f] = canon(l) })
		if want := m2.entry(f); o.S != want {
			if strings.HasPrefix(o.S, u(f)+"/") {
				return m, fmt.Sprintf("C07: got %s, want %s", o.S, want)
			}
			return m, fmt.Sprintf("C06 C07: got %s, want %s", o.S, want)
		}
		return m2, ""
	}
	return op
}

func tabPresent(id uint64) *Op {
	return det(fmt.Sprintf("Get(%s) found", u(id)), "C06 C07", true,
		func(s any) string { _, err := s.(table.Table).Get(id); return es(err) },
		func(x any) (any, string) {
			if _, ok := x.(tabM).e[id]; !ok {
				return x, "err"
			}
			return x, "ok"
		})
}

func tabGet(id uint64) *Op {
	return det(fmt.Sprintf("Get(%s)", u(id)), "C07", true,
		func(s any) string {
			e, err := s.(table.Table).Get(id)
			if err != nil {
				return "err"
			}
			handOut(func() string { return renderTE(e) })
			return renderTE(e)
		},
		func(x any) (any, string) {
			m := x.(tabM)
			if _, ok := m.e[id]; !ok {
				return x, "err"
			}
			return x, m.entry(id)
		})
}

func tabHas(id uint64) *Op {
	return det(fmt.Sprintf("Has(%s)", u(id)), "C06", true,
		func(s any) string { return fmt.Sprint(s.(table.Table).Has(id)) },
		func(x any) (any, string) { _, ok := x.(tabM).e[id]; return x, fmt.Sprint(ok) })
}

func tabIsFree(id uint64) *Op {
	return det(fmt.Sprintf("IsFree(%s)", u(id)), "C06", true,
		func(s any) string { return fmt.Sprint(s.(table.Table).IsFree(id)) },
		func(x any) (any, string) {
			m := x.(tabM)
			_, ok := m.e[id]
			return x, fmt.Sprint(!ok && m.in(id))
		})
}

func tabSize() *Op {
	return det("Size()", "C06 C07", true,
		func(s any) string { return fmt.Sprint(s.(table.Table).Size()) },
		func(x any) (any, string) { return x, fmt.Sprint(len(x.(tabM).e)) })
}

func tabFindFree() *Op {
	return det("FindFree()", "C06", true,
		func(s any) string {
			id, err := s.(table.Table).FindFree()
			if err != nil {
				return "err"
			}
			return u(id)
		},
		func(x any) (any, string) {
			f, ok := x.(tabM).free()
			if !ok {
				return x, "err"
			}
			return x, u(f)
		})
}

func tabGetAll() *Op {
	return listing("GetAll()", "C07",
		func(s any) func() string {
			xs := s.(table.Table).GetAll()
			handList(xs, junkTE)
			return func() string { return renderTEs(xs) }
		},
		func(x any) string { return x.(tabM).list(func(map[string]string) bool { return true }) })
}

func tabGetByLabel(sl selT) *Op {
	return listing("GetByLabel("+sl.name+")", "C07",
		func(s any) func() string {
			xs := s.(table.Table).GetByLabel(sl.sel)
			handList(xs, junkTE)
			return func() string { return renderTEs(xs) }
		},
		func(x any) string { return x.(tabM).list(sl.match) })
}

func tabSeq(w int, start, end uint64, args []uint64, labs []string, sels []selT) *Seq {
	q := &Seq{Name: fmt.Sprintf("table%d [%s,%s]", w, u(start), u(end)),
		New:   func() any { return newTab(w, start, end) },
		Model: tabM{w, start, end, map[uint64]string{}}, Key: tabKey}
	for _, id := range args {
		for i, l := range labs {
			if i == 0 || id-start <= end-start {
				q.Ops = append(q.Ops, tabClaim(id, l), tabUpdate(id, l))
			}
		}
		q.Ops = append(q.Ops, tabRelease(id))
		q.Reads = append(q.Reads, basic(tabPresent(id), tabHas(id), tabIsFree(id))...)
		q.Reads = append(q.Reads, tabGet(id))
	}
	for _, l := range labs {
		q.Ops = append(q.Ops, tabClaimFree(l))
	}
	q.Reads = append(q.Reads, basic(tabSize())...)
	q.Reads = append(q.Reads, tabFindFree(), tabGetAll())
	for _, sl := range sels {
		q.Reads = append(q.Reads, tabGetByLabel(sl))
	}
	q.Holds = []*Op{tabGetAll(), tabGetByLabel(selectors[2])}
	return q
}

// tabArgs: every id of a small range, its neighbours, and ids that coincide with one of the range in their low bits.
func tabArgs(w int, start, end uint64) []uint64 {
	seen := map[uint64]bool{}
	var r []uint64
	add := func(x uint64) {
		if !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
	}
	for id := start; ; id++ {
		add(id)
		if id == end {
			break
		}
	}
	add(start - 1)
	add(end + 1)
	add(0)
	add(maxU)
	add(end - start + 1)
	add(2*start + 0)
	for _, sh := range []int{8, 15, 16, 31, 32, 63} {
		add(start ^ 1<<sh)
		add(end ^ 1<<sh)
		add(1 << sh)
	}
	return r
}

type rng struct{ start, end uint64 }

func tabRanges(w int, quick bool) []rng {
	m := maxOf(w)
	h := m/2 + 1
	rs := []rng{{0, 0}, {0, 2}, {5, 5}, {7, 9}, {m - 2, m}, {m, m}, {h - 2, h}, {254, 256}}
	if !quick {
		rs = append(rs, rng{0, 3}, rng{m - 3, m}, rng{h, h + 2}, rng{1, 4}, rng{m - 1, m}, rng{h - 1, h - 1})
		if w > 16 {
			rs = append(rs, rng{1<<16 - 2, 1 << 16}, rng{1<<16 - 1, 1<<16 - 1})
		}
		if w > 32 {
			rs = append(rs, rng{1<<32 - 2, 1 << 32}, rng{1 << 32, 1<<32 + 2})
		}
	}
	return rs
}

var widths = []int{16, 32, 64}

func tabTasks(prop string) func(tier string) []Task {
	return func(tier string) []Task {
		quick := tier != "thorough"
		var ts []Task
		for _, w := range widths {
			w := w
			for _, r := range tabRanges(w, quick) {
				r := r
				ts = append(ts, Task{Name: fmt.Sprintf("tab%d-%s-%s", w, u(r.start), u(r.end)), Run: func(c *Ctx) {
					labs := []string{"-", "a=1"}
					if r.end-r.start < 2 || !c.Quick() {
						labs = []string{"-", "{}", "a=1", "a=2,b=2", "a="}
					}
					if r.end-r.start == 3 {
						labs = []string{"-", "a=1"}
					}
					q := tabSeq(w, r.start, r.end, tabArgs(w, r.start, r.end), labs, selectors)
					if prop == "C06" {
						q.Holds = nil
					}
					q.Run(c)
				}})
			}
			ts = append(ts, Task{Name: fmt.Sprintf("tab%d-wide", w), Run: func(c *Ctx) { tabWide(c, w, prop) }})
			ts = append(ts, Task{Name: fmt.Sprintf("tab%d-pair", w), Run: func(c *Ctx) {
				a := tabSeq(w, 0, 1, []uint64{0, 1, 2}, []string{"-", "a=1"}, selectors[1:2])
				b := tabSeq(w, 1, 2, []uint64{0, 1, 2}, []string{"-", "a=1"}, selectors[1:2])
				pairSeq(fmt.Sprintf("two table%d", w), a, b, Pick(c, 3, 0)).Run(c)
			}})
			ts = append(ts, Task{Name: fmt.Sprintf("tab%d-shapes", w), Run: func(c *Ctx) { tabShapes(c, w) }})
			ts = append(ts, Task{Name: fmt.Sprintf("tab%d-scale", w), Shards: 2, Run: func(c *Ctx) { tabScale(c, w) }})
			ts = append(ts, Task{Name: fmt.Sprintf("tab%d-many", w), Shards: 2, Run: func(c *Ctx) { tabMany(c, w, prop) }})
			ts = append(ts, stretchTask(fmt.Sprintf("tab%d", w), 2, false, func() stretchT { return tabStretch(w) }))
			if prop == "C07" {
				ts = append(ts, Task{Name: fmt.Sprintf("tab%d-live", w), Run: func(c *Ctx) { tabLive(c, w) }})
			}
		}
		return ts
	}
}

// tabWide: large ranges with operations at their edges and in the middle.
func tabWide(c *Ctx, w int, prop string) {
	m := maxOf(w)
	rs := []rng{{0, m}, {1, m}, {0, m - 1}, {100, 400}, {m - 300, m}}
	for _, r := range rs {
		mid := r.start + (r.end-r.start)/2
		args := []uint64{r.start, r.start + 1, mid, r.end - 1, r.end, r.start - 1, r.end + 1}
		q := tabSeq(w, r.start, r.end, args, []string{"-", "a=1"}, selectors[1:4])
		q.Name = fmt.Sprintf("wide table%d [%s,%s]", w, u(r.start), u(r.end))
		if prop == "C06" {
			q.Holds = nil
		}
		q.Depth = Pick(c, 2, 3)
		if w == 16 && r.end-r.start > 1000 {
			q.Depth = 2
		}
		q.Run(c)
	}
}

// tabShapes: every occupied subset of a range at many positions, claimed in ascending and descending order, then every
// free claim until the range is exhausted and beyond.
func tabShapes(c *Ctx, w int) {
	m := maxOf(w)
	n := Pick(c, uint64(6), uint64(9))
	for _, start := range []uint64{0, 3, m/2 - 1, m - n + 1} {
		end := start + n - 1
		q := tabSeq(w, start, end, tabArgs(w, start, end), []string{"a=1"}, selectors[1:3])
		q.Name = fmt.Sprintf("occupancies of table%d [%s,%s]", w, u(start), u(end))
		if !c.Begin(q.Name) {
			continue
		}
		for set := uint64(0); set < 1<<n; set++ {
			if c.Expired() {
				return
			}
			for dir := 0; dir < 2; dir++ {
				c.R.States++
				var ops []*Op
				for k := uint64(0); k < n; k++ {
					i := k
					if dir == 1 {
						i = n - 1 - k
					}
					if set>>i&1 == 1 {
						ops = append(ops, tabClaim(start+i, "a=1"))
					}
				}
				if !c.Script(q, ops) {
					continue
				}
				for k := uint64(0); k <= n; k++ {
					ops = append(ops, tabClaimFree("b=2"))
				}
				for i := uint64(0); i < n; i++ {
					if set>>i&1 == 1 {
						ops = append(ops, tabRelease(start+i), tabUpdate(start+i, "c=3"))
					}
				}
				ops = append(ops, tabClaimFree("b=2"))
				c.Script(q, ops)
			}
		}
		c.Note("%s: %d occupancies in two orders", q.Name, 1<<n)
	}
}

func tabConc(w int, name string, init []*Op) *Conc {
	return &Conc{Name: name, New: func() any { return newTab(w, 5, 7) }, Model: tabM{w, 5, 7, map[uint64]string{}}, Init: init,
		Ops: []*Op{
			tabClaimFree("a=1"), tabClaimFree("b=2"), tabClaim(5, "c=1"), tabRelease(5), tabUpdate(5, "a=1,d=1"), // 0-4
			tabGet(5), tabGetAll(), tabGetByLabel(selectors[2]), tabFindFree(), tabSize(), // 5-9
			tabClaim(7, "a=1"), tabRelease(7), tabHas(5), tabIsFree(7), tabClaim(6, "e=1"), tabRelease(6), tabClaim(9, "-"), // 10-16
		},
		Final: []*Op{tabGetAll(), tabFindFree(), tabSize()},
		Holds: []*Op{tabGetAll()},
	}
}

func init() {
	for _, p := range []string{"C06", "C07"} {
		register(p, tabTasks(p), "package sync is replaced by the controlled runtime; ids and labels are tried from the stated alphabets only")
	}
	register("C08", func(tier string) []Task {
		quick := tier != "thorough"
		inits := map[string][]*Op{
			"empty":    nil,
			"one-left": {tabClaim(5, "a=9"), tabClaim(7, "b=9")},
			"full":     {tabClaim(5, "a=9"), tabClaim(6, "z=9"), tabClaim(7, "b=9")},
		}
		var ts []Task
		for _, w := range widths {
			w := w
			ts = append(ts, Task{Name: fmt.Sprintf("among-many%d", w), Race: true, Shards: 2, Run: func(c *Ctx) { tabInterfere(c, w) }})
			for _, in := range []string{"empty", "one-left", "full"} {
				in := in
				nm := func(s string) string { return fmt.Sprintf("table%d %s, %s", w, in, s) }
				ts = append(ts, Task{Name: fmt.Sprintf("conc%d-2x1-3x1-%s", w, in), Race: true, Shards: 2, Run: func(c *Ctx) {
					q := tabConc(w, nm("2 and 3 threads, 1 call each"), inits[in])
					q.Run(c, q.keepMutating(append(programs(2, 1, seqInts(len(q.Ops))), programs(3, 1, seqInts(Pick(c, 12, len(q.Ops))))...)))
				}})
				ts = append(ts, Task{Name: fmt.Sprintf("conc%d-2x2-%s", w, in), Race: true, Shards: Pick2(quick, 4, 16), Run: func(c *Ctx) {
					q := tabConc(w, nm("2 threads, 2 calls each"), inits[in])
					q.Run(c, q.keepMutating(programs(2, 2, Pick(c, []int{0, 2, 3, 4, 6, 7, 8}, seqInts(len(q.Ops))))))
				}})
				if !quick {
					ts = append(ts, Task{Name: fmt.Sprintf("conc%d-3x2-%s", w, in), Race: true, Shards: 8, Run: func(c *Ctx) {
						q := tabConc(w, nm("3 threads, 2 calls each"), inits[in])
						q.Run(c, q.keepMutating(programs(3, 2, []int{0, 2, 3, 6})))
					}})
					ts = append(ts, Task{Name: fmt.Sprintf("conc%d-2x3-%s", w, in), Race: true, Shards: 8, Run: func(c *Ctx) {
						q := tabConc(w, nm("2 threads, 3 calls each"), inits[in])
						q.Run(c, q.keepMutating(programs(2, 3, []int{0, 2, 3, 4, 6})))
					}})
				}
			}
		}
		return ts
	}, concAssume...)
}

var concAssume = []string{"scheduling points are the lock, atomic and yield operations; accesses between them are covered by happens-before race detection on every execution",
	"weak-memory effects beyond data races are not modelled"}

// Pick2 is Pick without a context.
func Pick2[T any](quick bool, q, t T) T {
	if quick {
		return q
	}
	return t
}
