package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/gtree"
	"github.com/henderiw/idxtable/pkg/tree/tree16"
	"github.com/henderiw/idxtable/pkg/tree/tree32"
	"github.com/henderiw/idxtable/pkg/tree/tree64"
)

// ---- id trees ----

type gt = gtree.GTree

func newGT(w int, n uint8) (gt, error) {
	switch w {
	case 16:
		return tree16.New("t", n)
	case 32:
		return tree32.New("t", n)
	}
	return tree64.New("t", n)
}

func mustGT(w int, n uint8) gt {
	t, err := newGT(w, n)
	if err != nil {
		panic(err)
	}
	return t
}

type gtM struct {
	w int
	n uint8
	e map[pfx]string
}

func (m gtM) max() uint64 {
	if m.n == 64 {
		return maxU
	}
	return 1<<m.n - 1
}

func (m gtM) with(f func(e map[pfx]string)) gtM {
	e := make(map[pfx]string, len(m.e)+1)
	for k, v := range m.e {
		e[k] = v
	}
	f(e)
	return gtM{m.w, m.n, e}
}

func (m gtM) order() []pfx {
	ks := make([]pfx, 0, len(m.e))
	for k := range m.e {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return pfxLess(ks[i], ks[j]) })
	return ks
}

func (m gtM) list(f func(p pfx, labels string) bool) string {
	var b []string
	for _, k := range m.order() {
		if f(k, m.e[k]) {
			b = append(b, k.String()+m.e[k])
		}
	}
	return "[" + strings.Join(b, " ") + "]"
}

func (m gtM) valid(p pfx) bool { return p.id <= m.max() && int(p.l) <= m.w }

// uncovered returns the lowest id of the tree that no entry covers.
func (m gtM) uncovered() (uint64, bool) {
	next := uint64(0)
	for _, k := range m.order() { // ascending by first id
		if k.id > next {
			break
		}
		if l := k.lastOf(m.w); l >= next {
			if l >= m.max() {
				return 0, false
			}
			next = l + 1
		}
	}
	return next, true
}

func (m gtM) covered(id uint64) bool {
	for k := range m.e {
		if k.id <= id && id <= k.lastOf(m.w) {
			return true
		}
	}
	return false
}

func gtKey(x any) string {
	m := x.(gtM)
	return m.list(func(pfx, string) bool { return true })
}

// minimal decomposes [a,b] into the fewest canonical prefixes, in ascending order.
func minimal(w int, a, b uint64) []pfx {
	var ps []pfx
	for {
		l := uint8(w)
		for l > 0 {
			p := pfx{a, l - 1}
			mask := uint64(0)
			if l-1 > 0 {
				mask = maxOf(w) &^ (1<<(uint8(w)-(l-1)) - 1)
			}
			if a&^mask != 0 || p.lastOf(w) > b {
				break
			}
			l--
		}
		p := pfx{a, l}
		ps = append(ps, p)
		last := p.lastOf(w)
		if last >= b {
			return ps
		}
		a = last + 1
	}
}

func gtClaim(w int, p pfx, l string, update bool) *Op {
	n := "ClaimID"
	if update {
		n = "Update"
	}
	return det(fmt.Sprintf("%s(%s,%s)", n, p, l), "C12 C24", false,
		func(s any) string {
			x := giveLabels(l)
			var err error
			if update {
				err = s.(gt).Update(mkID(w, p), x)
			} else {
				err = s.(gt).ClaimID(mkID(w, p), x)
			}
			spoil(x)
			return es(err)
		},
		func(x any) (any, string) {
			m := x.(gtM)
			if !m.valid(p) {
				return m, "err"
			}
			return m.with(func(e map[pfx]string) { e[p] = canon(l) }), "ok"
		})
}

// releasing what is not there may or may not be reported as an error
func gtRelease(w int, p pfx) *Op {
	op := &Op{Name: fmt.Sprintf("ReleaseID(%s)", p), Tags: "C12 C24"}
	op.Do = func(s any) Out { r := es(s.(gt).ReleaseID(mkID(w, p))); return Out{S: r, Err: r == "err"} }
	op.Spec = func(x any, o Out) (any, string) {
		m := x.(gtM)
		if _, ok := m.e[p]; ok {
			if o.Err {
				return m, "got err, want ok"
			}
			return m.with(func(e map[pfx]string) { delete(e, p) }), ""
		}
		return m, ""
	}
	return op
}

func gtReleaseByLabel(sl selT) *Op {
	return det("ReleaseByLabel("+sl.name+")", "C12 C24", false,
		func(s any) string { return es(s.(gt).ReleaseByLabel(sl.sel)) },
		func(x any) (any, string) {
			m := x.(gtM)
			return m.with(func(e map[pfx]string) {
				for k, l := range m.e {
					if sl.match(uncanon(l)) {
						delete(e, k)
					}
				}
			}), "ok"
		})
}

// gtClaimFree: any uncovered full-length id may be handed out.
func gtClaimFree(l string) *Op {
	op := &Op{Name: fmt.Sprintf("ClaimFree(%s)", l), Tags: "C14 C24"}
	op.Do = func(s any) Out {
		x := giveLabels(l)
		e, err := s.(gt).ClaimFree(x)
		spoil(x)
		if err != nil {
			return Out{S: "err", Err: true}
		}
		o := Out{S: renderTE(e)}
		handOut(func() string { return renderTE(e) })
		if e != nil && e.ID() != nil {
			o.V = pfx{e.ID().ID(), e.ID().Length()}
		}
		return o
	}
	op.Spec = func(x any, o Out) (any, string) {
		m := x.(gtM)
		_, free := m.uncovered()
		if o.Err {
			if free {
				return m, "got err, want an id: not every id is covered"
			}
			return m, ""
		}
		if !free {
			return m, "got " + o.S + ", want an error: every id is covered"
		}
		p, ok := o.V.(pfx)
		if !ok || int(p.l) != m.w || p.id > m.max() || m.covered(p.id) {
			return m, "got " + o.S + ", want an uncovered id of the tree"
		}
		if want := p.String() + canon(l); o.S != want {
			return m, fmt.Sprintf("got %s, want %s", o.S, want)
		}
		return m.with(func(e map[pfx]string) { e[p] = canon(l) }), ""
	}
	return op
}

// gtFreeProbe claims a free id and releases it again.
func gtFreeProbe(w int) *Op {
	claim := gtClaimFree("f=1")
	op := &Op{Name: "ClaimFree(f=1) and ReleaseID", Tags: "C14", Reader: true}
	op.Do = func(s any) Out {
		o := claim.Do(s)
		if p, ok := o.V.(pfx); ok && !o.Err {
			o.S += ", release " + es(s.(gt).ReleaseID(mkID(w, p)))
		}
		return o
	}
	op.Spec = func(x any, o Out) (any, string) {
		if !o.Err {
			s, ok := strings.CutSuffix(o.S, ", release ok")
			if !ok {
				return x, "got " + o.S
			}
			o.S = s
		}
		_, bad := claim.Spec(x, o)
		return x, bad
	}
	return op
}

// decimal parses what ClaimRange accepts.
func (m gtM) parseRange(s string) (a, b uint64, ok bool) {
	x, y, found := strings.Cut(s, "-")
	if !found {
		return 0, 0, false
	}
	dec := func(t string) (uint64, bool) {
		for _, c := range []byte(t) {
			if c < '0' || c > '9' {
				return 0, false
			}
		}
		v, err := strconv.ParseUint(t, 10, 64)
		return v, err == nil && v <= m.max()
	}
	a, okA := dec(x)
	b, okB := dec(y)
	return a, b, okA && okB && a <= b
}

// gtClaimRange in sequential explorations: the entries found afterwards must cover the range exactly, whatever
// decomposition is chosen.
func gtClaimRange(r, l string) *Op {
	op := &Op{Name: fmt.Sprintf("ClaimRange(%q,%s)", r, l), Tags: "C15 C24"}
	op.Do = func(s any) Out {
		x := giveLabels(l)
		err := s.(gt).ClaimRange(r, x)
		spoil(x)
		now := map[pfx]string{}
		for _, e := range s.(gt).GetAll() {
			now[pfx{e.ID().ID(), e.ID().Length()}] = canonMap(e.Labels())
		}
		return Out{S: es(err), Err: err != nil, V: now}
	}
	op.Spec = func(x any, o Out) (any, string) {
		m := x.(gtM)
		now, _ := o.V.(map[pfx]string)
		a, b, ok := m.parseRange(r)
		if !ok {
			if !o.Err {
				return m, "got ok, want an error"
			}
			for k, v := range m.e {
				if now[k] != v {
					return m, "refused, but changed the tree"
				}
			}
			if len(now) != len(m.e) {
				return m, "refused, but changed the tree"
			}
			return m, ""
		}
		if o.Err {
			return m, "got err, want ok"
		}
		for k, v := range m.e {
			nv, there := now[k]
			if !there {
				return m, fmt.Sprintf("entry %s has disappeared", k)
			}
			if nv != v && (nv != canon(l) || k.id < a || k.lastOf(m.w) > b) {
				return m, fmt.Sprintf("entry %s has changed from %s to %s", k, v, nv)
			}
		}
		// candidates: entries with these labels inside the range; those that are new or changed must all be used
		must := map[pfx]bool{}
		at := map[uint64][]pfx{}
		for k, v := range now {
			old, had := m.e[k]
			if had && old == v && v != canon(l) {
				continue
			}
			if v != canon(l) {
				return m, fmt.Sprintf("new entry %s has labels %s", k, v)
			}
			inside := k.id >= a && k.lastOf(m.w) <= b
			if !had || old != v {
				if !inside {
					return m, fmt.Sprintf("new entry %s is not within the range", k)
				}
				must[k] = true
			}
			if inside {
				at[k.id] = append(at[k.id], k)
			}
		}
		var cover func(pos uint64, used int) bool
		cover = func(pos uint64, used int) bool {
			for _, k := range at[pos] {
				n := used
				if must[k] {
					n++
				}
				last := k.lastOf(m.w)
				if last == b {
					if n == len(must) {
						return true
					}
					continue
				}
				if cover(last+1, n) {
					return true
				}
			}
			return false
		}
		if !cover(a, 0) {
			return m, fmt.Sprintf("the stored entries do not cover the range exactly once: %s", gtKey(gtM{m.w, m.n, now}))
		}
		return gtM{m.w, m.n, now}, ""
	}
	return op
}

// gtClaimRangePlain is the same call without looking at the tree afterwards (for concurrent programs); the model stores
// the minimal decomposition.
func gtClaimRangePlain(r, l string) *Op {
	return det(fmt.Sprintf("ClaimRange(%q,%s)", r, l), "C15 C24", false,
		func(s any) string { x := giveLabels(l); e := es(s.(gt).ClaimRange(r, x)); spoil(x); return e },
		func(x any) (any, string) {
			m := x.(gtM)
			a, b, ok := m.parseRange(r)
			if !ok {
				return m, "err"
			}
			return m.with(func(e map[pfx]string) {
				for _, p := range minimal(m.w, a, b) {
					e[p] = canon(l)
				}
			}), "ok"
		})
}

func gtGet(w int, p pfx) *Op {
	return det(fmt.Sprintf("Get(%s)", p), "C12", true,
		func(s any) string {
			e, err := s.(gt).Get(mkID(w, p))
			if err != nil {
				return "err"
			}
			handOut(func() string { return renderTE(e) })
			return renderTE(e)
		},
		func(x any) (any, string) {
			l, ok := x.(gtM).e[p]
			if !ok {
				return x, "err"
			}
			return x, p.String() + l
		})
}

func gtGetAll() *Op {
	return listing("GetAll()", "C12",
		func(s any) func() string {
			xs := s.(gt).GetAll()
			handList(xs, junkTE)
			return func() string { return renderTEs(xs) }
		},
		func(x any) string { return gtKey(x) })
}

func gtIterate() *Op {
	return det("Iterate()", "C12", true,
		func(s any) string {
			it := s.(gt).Iterate()
			var xs tree.Entries
			for it.Next() {
				xs = append(xs, it.Entry())
				if len(xs) > 100000 {
					return "endless iteration"
				}
			}
			return renderTEs(xs)
		},
		func(x any) (any, string) { return x, gtKey(x) })
}

func gtSize() *Op {
	return det("Size()", "C12", true,
		func(s any) string { return fmt.Sprint(s.(gt).Size()) },
		func(x any) (any, string) { return x, fmt.Sprint(len(x.(gtM).e)) })
}

func gtGetByLabel(sl selT) *Op {
	return listing("GetByLabel("+sl.name+")", "C12",
		func(s any) func() string {
			xs := s.(gt).GetByLabel(sl.sel)
			handList(xs, junkTE)
			return func() string { return renderTEs(xs) }
		},
		func(x any) string { return x.(gtM).list(func(_ pfx, l string) bool { return sl.match(uncanon(l)) }) })
}

func gtChildren(w int, p pfx) *Op {
	return listing(fmt.Sprintf("Children(%s)", p), "C13",
		func(s any) func() string {
			xs := s.(gt).Children(mkID(w, p))
			handList(xs, junkTE)
			return func() string { return renderTEs(xs) }
		},
		func(x any) string {
			return x.(gtM).list(func(k pfx, _ string) bool { return k.l > p.l && p.covers(w, k) })
		})
}

func gtParents(w int, p pfx) *Op {
	return listing(fmt.Sprintf("Parents(%s)", p), "C13",
		func(s any) func() string {
			xs := s.(gt).Parents(mkID(w, p))
			handList(xs, junkTE)
			return func() string { return renderTEs(xs) }
		},
		func(x any) string {
			return x.(gtM).list(func(k pfx, _ string) bool { return k.l < p.l && k.covers(w, p) })
		})
}

func gtCloneList() *Op {
	return det("Clone().GetAll()", "C16", true,
		func(s any) string { return renderTEs(s.(gt).Clone().GetAll()) },
		func(x any) (any, string) { return x, gtKey(x) })
}

// gtCfg describes one exploration of an id tree.
type gtCfg struct {
	w      int
	n      uint8
	name   string
	ps     []pfx // claimed, updated, released and looked up
	extra  []pfx // only looked up, and claimed in vain
	labs   []string
	ranges []string
	sels   []selT
	depth  int
	model  bool
	rel    bool // release by label
	one    bool // everything is claimed with the first of the labels
	probe  bool // free ids are claimed and released at once (in trees with too many of them)
}

func (g gtCfg) seq() *Seq {
	w := g.w
	q := &Seq{Name: fmt.Sprintf("tree%d of %d bits, %s", w, g.n, g.name), Depth: g.depth, ByModel: g.model,
		New: func() any { return mustGT(w, g.n) }, Model: gtM{w, g.n, map[pfx]string{}}, Key: gtKey}
	for i, p := range g.ps {
		for j, l := range g.labs {
			q.Ops = append(q.Ops, gtClaim(w, p, l, (i+j)%2 == 1))
		}
		q.Ops = append(q.Ops, gtRelease(w, p))
		q.Reads = append(q.Reads, basic(gtGet(w, p))...)
		q.Reads = append(q.Reads, gtChildren(w, p), gtParents(w, p))
	}
	for i, p := range g.extra {
		q.Ops = append(q.Ops, gtClaim(w, p, g.labs[0], i%2 == 1), gtRelease(w, p))
		q.Reads = append(q.Reads, basic(gtGet(w, p))...)
		if int(p.l) <= w {
			q.Reads = append(q.Reads, gtChildren(w, p), gtParents(w, p))
		}
	}
	if g.probe {
		q.Reads = append(q.Reads, gtFreeProbe(w))
	} else {
		l := "f=1"
		if g.one {
			l = g.labs[0]
		}
		q.Ops = append(q.Ops, gtClaimFree(l))
	}
	for _, r := range g.ranges {
		l := "r=" + strings.ReplaceAll(r, "-", "to")
		if g.one {
			l = g.labs[0]
		}
		q.Ops = append(q.Ops, gtClaimRange(r, l))
	}
	if g.rel {
		for _, sl := range g.sels {
			q.Ops = append(q.Ops, gtReleaseByLabel(sl))
		}
	}
	q.Reads = append(q.Reads, basic(gtGetAll())...)
	q.Reads = append(q.Reads, gtIterate(), gtSize())
	for _, sl := range g.sels {
		q.Reads = append(q.Reads, gtGetByLabel(sl))
	}
	q.Holds = []*Op{gtGetAll(), gtChildren(w, pfx{0, uint8(w) - g.n})}
	return q
}

// inTree lists every prefix of an n-bit tree (or of its lowest k bits when n is large).
func inTree(w int, n uint8) []pfx { return block(w, pfx{0, uint8(w) - n}, n) }

// allRanges lists every range a-b over [lo,hi], forwards, reversed, and some that do not fit.
func allRanges(lo, hi uint64) []string {
	var rs []string
	for a := lo; ; a++ {
		for b := lo; ; b++ {
			rs = append(rs, fmt.Sprintf("%d-%d", a, b))
			if b == hi {
				break
			}
		}
		if a == hi {
			break
		}
	}
	return rs
}

var badRanges = []string{"", "-", "1", "1-", "-1", "a-b", "1-2-3", " 1-2", "1 - 2", "0x1-2", "1.0-2", "+1-2", "1--2", "0-18446744073709551616", "0-99999999999999999999999", "1_0-2_0", "1,2", "０-1"}

func gtTasks(prop string) func(tier string) []Task {
	return func(tier string) []Task {
		quick := tier != "thorough"
		var ts []Task
		for _, w := range widths {
			w := w
			W := uint8(w)
			add := func(g gtCfg, max int) {
				g.w = w
				ts = append(ts, Task{Name: fmt.Sprintf("gt%d-%d %s", w, g.n, g.name), Run: func(c *Ctx) {
					q := g.seq()
					q.Max = max
					if prop == "C14" || prop == "C15" {
						q.Holds = nil
					}
					q.Run(c)
				}})
			}
			short := []pfx{{0, 0}, {0, 1}, {0, W - 3}}
			beyond := func(n uint8) []pfx {
				m := uint64(1) << n
				ps := []pfx{{m, W}, {m << 1, W - 1}, {1 << (w - 1), 1}, {maxOf(w), W}, {m, W + 1}, {0, W + 1}, {0, 255}}
				return ps
			}
			out := func(n uint8) []string {
				m := uint64(1) << n
				return append([]string{fmt.Sprintf("0-%d", m), fmt.Sprintf("%d-%d", m, m), fmt.Sprintf("%d-%d", m-1, m), fmt.Sprintf("0-%d", maxOf(w)), fmt.Sprintf("%d-0", m)}, badRanges...)
			}
			// every history, states keyed by the tree's memory
			add(gtCfg{n: 0, name: "every history", ps: append(inTree(w, 0), short[0], pfx{0, W - 1}), extra: beyond(0), labs: []string{"a=1", "-", "a="}, ranges: append(allRanges(0, 0), out(0)...), sels: selectors, depth: Pick2(quick, 5, 7), rel: true}, 0)
			add(gtCfg{n: 1, name: "every history", ps: append(inTree(w, 1), short[0]), extra: beyond(1), labs: []string{"a=1", "a=2,b=2"}, ranges: append(allRanges(0, 1), out(1)...), sels: selectors, depth: Pick2(quick, 4, 5), rel: true}, 0)
			add(gtCfg{n: 2, name: "every history", ps: append(inTree(w, 2), short...), extra: beyond(2), labs: []string{"a=1", "b=2"}, ranges: append(allRanges(0, 3), out(2)...), sels: selectors, depth: Pick2(quick, 2, 3), rel: true}, 0)
			add(gtCfg{n: 2, name: "claims, releases and ranges", ps: inTree(w, 2), labs: []string{"a=1"}, ranges: []string{"0-3", "1-2", "1-3", "0-2", "2-3"}, sels: selectors[1:3], depth: Pick2(quick, 4, 5), rel: true}, 0)
			add(gtCfg{n: 3, name: "claims, releases and ranges", ps: inTree(w, 3), labs: []string{"a=1"}, ranges: []string{"0-7", "1-6", "3-4", "5-7", "7-7", "0-3", "6-1", "3-8"}, sels: selectors[1:2], depth: Pick2(quick, 3, 4), rel: true}, 0)
			add(gtCfg{n: 3, name: "every range", ps: append(inTree(w, 3)[:7], short[0]), labs: []string{"a=1"}, ranges: append(allRanges(0, 7), out(3)...), sels: selectors[1:2], depth: Pick2(quick, 2, 3)}, 0)
			add(gtCfg{n: 4, name: "every range", ps: inTree(w, 4)[:3], labs: []string{"a=1"}, ranges: append(allRanges(0, 15), out(4)...), sels: selectors[1:2], depth: Pick2(quick, 1, 2)}, 0)
			add(gtCfg{n: 2, name: "the same labels for everything", ps: append(inTree(w, 2), short[0], short[2]), labs: []string{"a=1"}, ranges: allRanges(0, 3), sels: selectors[1:3], depth: Pick2(quick, 4, 5), one: true, rel: true}, 0)
			add(gtCfg{n: 3, name: "the same labels for everything", ps: inTree(w, 3), labs: []string{"-"}, ranges: []string{"0-7", "1-6", "3-4", "5-7", "7-7", "0-3"}, sels: selectors[1:2], depth: Pick2(quick, 3, 4), one: true}, 0)
			// every set of claimed prefixes
			add(gtCfg{n: 2, name: "every set of prefixes", ps: append(inTree(w, 2), short[0], short[2]), labs: []string{"a=1"}, sels: selectors[1:3], model: true}, 0)
			add(gtCfg{n: 2, name: "every labelled set of prefixes", ps: inTree(w, 2), labs: []string{"a=", "a=2,b=2"}, sels: selectors[:5], rel: true, model: true}, 0)
			if !quick {
				add(gtCfg{n: 3, name: "every set of prefixes", ps: inTree(w, 3), labs: []string{"a=1"}, sels: selectors[1:2], model: true}, 0)
				add(gtCfg{n: 2, name: "every set of prefixes with three labels", ps: inTree(w, 2), labs: []string{"a=1", "a=2,b=2", "-"}, ranges: []string{"1-2"}, sels: selectors[:5], rel: true, model: true}, 0)
			}
			// a tree of the whole width
			m := maxOf(w)
			wideR := []string{fmt.Sprintf("0-%d", m), fmt.Sprintf("1-%d", m-1), fmt.Sprintf("%d-%d", m, m), fmt.Sprintf("%d-%d", m/2, m/2+1), "0-0", fmt.Sprintf("%d-%d", m, m-1), "0-255", "256-1000"}
			if w < 64 {
				wideR = append(wideR, fmt.Sprintf("0-%d", m+1), fmt.Sprintf("%d-%d", m+1, m+1))
			}
			add(gtCfg{n: W, name: "every history at both ends", ps: append(append(top(w, 1), low(w, 0, 1)...), low(w, maxU, 1)...), extra: []pfx{{0, W + 1}}, labs: []string{"a=1"}, ranges: append(wideR, badRanges...), sels: selectors[:3], depth: Pick2(quick, 2, 3), rel: true}, 0)
			add(gtCfg{n: W, name: "a chain of lengths", ps: chain(w, 0xA5C3_96F0_B4D2_87E1>>(64-w), []int{0, 1, 2, w / 2, w - 1, w}), labs: []string{"a=1"}, sels: selectors[1:2], depth: Pick2(quick, 3, 4)}, 0)
			add(gtCfg{n: W, name: "every set of a chain", ps: chain(w, 0x5A3C_690F_4B2D_781E>>(64-w), Pick2(quick, []int{0, 1, 3, w / 2, w}, []int{0, 1, 2, w / 2, w - 1, w})), labs: []string{"a=1"}, sels: selectors[1:2], model: true, probe: true}, 0)
			add(gtCfg{n: W - 1, name: "every history at both ends", ps: append(append([]pfx{{0, 0}, {0, 1}, {0, 2}, {1 << (w - 2), 2}}, low(w, 0, 1)...), low(w, m/2, 1)...), extra: []pfx{{1 << (w - 1), 1}, {1 << (w - 1), W}, {m, W}}, labs: []string{"a=1"},
				ranges: []string{fmt.Sprintf("0-%d", m/2), fmt.Sprintf("0-%d", m/2+1), fmt.Sprintf("%d-%d", m/2-2, m/2), fmt.Sprintf("%d-%d", m/2+1, m/2+1)}, sels: selectors[:3], depth: Pick2(quick, 2, 3), rel: true}, 0)
			ts = append(ts, Task{Name: fmt.Sprintf("gt%d exhaustion", w), Run: func(c *Ctx) { gtExhaust(c, w) }})
			ts = append(ts, Task{Name: fmt.Sprintf("gt%d larger trees", w), Run: func(c *Ctx) { gtLarge(c, w) }})
			ts = append(ts, Task{Name: fmt.Sprintf("gt%d new", w), Run: func(c *Ctx) { gtNew(c, w) }})
			ts = append(ts, Task{Name: fmt.Sprintf("gt%d scale", w), Shards: 4, Run: func(c *Ctx) { gtScale(c, w) }})
			ts = append(ts, Task{Name: fmt.Sprintf("gt%d deep", w), Shards: 2, Run: func(c *Ctx) { gtDeep(c, w) }})
			ts = append(ts, stretchTask(fmt.Sprintf("gt%d", w), 4, false, func() stretchT { return gtStretch(w) }))
			if prop != "C15" {
				ts = append(ts, Task{Name: fmt.Sprintf("gt%d many", w), Shards: 2, Run: func(c *Ctx) { gtMany(c, w) }})
			}
			if prop == "C12" || prop == "C13" {
				ts = append(ts, Task{Name: fmt.Sprintf("gt%d live", w), Run: func(c *Ctx) { gtLive(c, w) }})
			}
			ts = append(ts, Task{Name: fmt.Sprintf("gt%d pair", w), Run: func(c *Ctx) {
				g := gtCfg{w: w, n: 1, name: "pair", ps: inTree(w, 1), labs: []string{"a=1"}, ranges: []string{"0-1"}, sels: selectors[1:2], rel: true}
				pairSeq(fmt.Sprintf("two tree%d", w), g.seq(), g.seq(), Pick(c, 3, 4)).Run(c)
			}})
		}
		return ts
	}
}

// gtNew: every size a tree can be asked for.
func gtNew(c *Ctx, w int) {
	if !c.Begin(fmt.Sprintf("every size of tree%d", w)) {
		return
	}
	for n := 0; n < 256; n++ {
		c.R.Cases++
		t, err := newGT(w, uint8(n))
		if (err != nil) != (n > w) {
			c.Fail("C12", fmt.Sprintf("New(%d): error %v", n, err), []string{fmt.Sprintf("New(%d)", n)}, nil)
		}
		if err != nil || t == nil {
			continue
		}
		// the edges of its id space
		m := gtM{w, uint8(n), map[pfx]string{}}
		q := &Seq{Name: fmt.Sprintf("every size of tree%d", w), New: func() any { return mustGT(w, uint8(n)) }, Model: m, Key: gtKey}
		q.Reads = append(basic(gtGetAll()), gtIterate(), gtSize())
		ps := []pfx{{0, uint8(w)}, {m.max(), uint8(w)}, {m.max() + 1, uint8(w)}, {maxOf(w), uint8(w)}, {0, 0}, {0, uint8(w - n)}}
		for _, p := range ps {
			if p.id > maxOf(w) {
				continue
			}
			c.Script(q, []*Op{gtClaim(w, p, "a=1", false), gtClaimFree("f=1"), gtClaimFree("f=2"), gtRelease(w, p), gtClaimFree("f=3")})
		}
		c.Script(q, []*Op{gtClaimRange(fmt.Sprintf("0-%d", m.max()), "r=1"), gtClaimFree("f=1")})
		c.Script(q, []*Op{gtClaimRange(fmt.Sprintf("%d-%d", m.max(), m.max()), "r=1"), gtClaimFree("f=1"), gtClaimFree("f=2")})
		if m.max() > 0 {
			c.Script(q, []*Op{gtClaimRange(fmt.Sprintf("1-%d", m.max()), "r=1"), gtClaimFree("f=1"), gtClaimFree("f=2")})
			c.Script(q, []*Op{gtClaimRange(fmt.Sprintf("0-%d", m.max()-1), "r=1"), gtClaimFree("f=1"), gtClaimFree("f=2")})
		}
	}
	c.Note("tree%d: New(0..255), edges of every id space", w)
}

// gtExhaust: from every set of claimed prefixes, ClaimFree until nothing is left, then again after releases.
func gtExhaust(c *Ctx, w int) {
	for _, n := range []uint8{0, 1, 2, 3} {
		ps := inTree(w, n)
		if n == 3 && c.Quick() {
			ps = ps[3:] // without the largest ones
		}
		q := gtCfg{w: w, n: n, name: "exhaustion", ps: nil, labs: []string{"a=1"}, sels: selectors[1:3]}.seq()
		q.Name = fmt.Sprintf("exhaustion of tree%d of %d bits", w, n)
		if !c.Begin(q.Name) {
			continue
		}
		for set := 0; set < 1<<len(ps); set++ {
			if c.Expired() {
				return
			}
			var ops []*Op
			for i, p := range ps {
				if set>>i&1 == 1 {
					ops = append(ops, gtClaim(w, p, "a=1", false))
				}
			}
			for k := 0; k <= 1<<n; k++ {
				ops = append(ops, gtClaimFree(fmt.Sprintf("f=%d", k)))
			}
			rel := false
			for i := len(ps) - 1; i >= 0; i-- {
				if set>>i&1 == 1 {
					ops = append(ops, gtRelease(w, ps[i]), gtClaimFree("g=1"))
					rel = true
				}
			}
			if !rel {
				ops = append(ops, gtRelease(w, pfx{1<<n - 1, uint8(w)}), gtClaimFree("g=1"), gtClaimFree("g=2"))
			}
			c.R.States++
			c.Script(q, ops)
		}
		c.Note("%s: every subset of %d prefixes", q.Name, len(ps))
	}
}

// gtLarge: larger trees, built and taken down in several orders.
func gtLarge(c *Ctx, w int) {
	n := Pick(c, uint8(4), uint8(6))
	ps := inTree(w, n)
	ord := orders(len(ps))
	name := fmt.Sprintf("all prefixes of tree%d of %d bits", w, n)
	if c.Begin(name) {
		q := gtCfg{w: w, n: n, name: "large", labs: []string{"a=1"}, sels: selectors[1:3]}.seq()
		q.Name = name
		for _, p := range []pfx{ps[0], ps[1], ps[5], ps[len(ps)-1], ps[len(ps)/2]} {
			q.Reads = append(q.Reads, gtChildren(w, p), gtParents(w, p))
		}
		for _, up := range ord {
			for _, down := range ord {
				if c.Expired() {
					return
				}
				var ops []*Op
				for i, k := range up.f {
					ops = append(ops, gtClaim(w, ps[k], fmt.Sprintf("a=%d", k%3), false))
					if i%5 == 4 {
						ops = append(ops, gtGetAll())
					}
				}
				ops = append(ops, gtClaimFree("f=1"))
				for i, k := range down.f {
					ops = append(ops, gtRelease(w, ps[k]))
					if i%5 == 4 {
						ops = append(ops, gtGetAll())
					}
					if i%7 == 6 {
						ops = append(ops, gtClaimFree("f=1"))
					}
				}
				c.R.States += int64(len(ops))
				c.Script(q, ops)
			}
		}
		c.Note("%s: %d insertion and removal orders", name, len(ord)*len(ord))
	}
	name = fmt.Sprintf("free ids of tree%d", w)
	if c.Begin(name) {
		for _, n := range Pick(c, []uint8{5, 6}, []uint8{5, 6, 7, 8}) {
			q := gtCfg{w: w, n: n, name: "free ids", labs: []string{"a=1"}, sels: selectors[1:3]}.seq()
			q.Name = name
			for _, o := range orders(1 << n) {
				var ops []*Op
				for k := 0; k <= 1<<n; k++ {
					ops = append(ops, gtClaimFree(fmt.Sprintf("f=%d", k%3)))
				}
				for i, k := range o.f {
					ops = append(ops, gtRelease(w, pfx{uint64(k), uint8(w)}))
					if i%3 == 2 {
						ops = append(ops, gtClaimFree("g=1"), gtClaimFree("g=2"))
					}
				}
				c.R.States += int64(len(ops))
				c.Script(q, ops)
			}
		}
	}
}

// ---- clones ----

func cloneTasks(tier string) []Task {
	quick := tier != "thorough"
	var ts []Task
	for _, w := range widths {
		w := w
		W := uint8(w)
		ts = append(ts, Task{Name: fmt.Sprintf("gen%d prefixes", w), Run: func(c *Ctx) { genCloneSeq(w, "prefixes of length 0-2", top(w, 2), Pick(c, 4, 5)).Run(c) }})
		ts = append(ts, Task{Name: fmt.Sprintf("gen%d low prefixes", w), Run: func(c *Ctx) { genCloneSeq(w, "the lowest 2 bits", low(w, maxU/3, 2), Pick(c, 3, 4)).Run(c) }})
		ts = append(ts, Task{Name: fmt.Sprintf("gen%d values", w), Run: func(c *Ctx) {
			one := genSeq(w, "several values", nil, 0)
			one.Ops = multiOps(w, []pfx{{0, 0}, {1 << (w - 1), 2}}, 2)
			cloneSeq("clones of a "+one.Name, one, Pick(c, 3, 4), func(x any) any { return x.(genT).Clone() }).Run(c)
		}})
		for _, n := range []uint8{1, 2, W} {
			n := n
			ts = append(ts, Task{Name: fmt.Sprintf("gt%d-%d", w, n), Run: func(c *Ctx) {
				g := gtCfg{w: w, n: n, name: "clones", ps: append(inTree(w, min(n, 2)), pfx{0, 0}), labs: []string{"a=1"}, ranges: []string{"0-1"}, sels: selectors[1:3], rel: true, extra: []pfx{{0, W + 1}}}
				d := Pick(c, 3, 4)
				if n == 1 {
					d++
				}
				if n == W {
					g.ps = append(top(w, 1), low(w, maxU, 1)...)
					g.ranges = []string{"0-1", fmt.Sprintf("1-%d", maxOf(w))}
				}
				cloneSeq(fmt.Sprintf("clones of a tree%d of %d bits", w, n), g.seq(), d, func(x any) any { return x.(gt).Clone() }).Run(c)
			}})
		}
		ts = append(ts, Task{Name: fmt.Sprintf("gen%d scale", w), Shards: 2, Run: func(c *Ctx) { genScale(c, w, "C16") }})
		ts = append(ts, stretchTask(fmt.Sprintf("gen%d", w), 2, false, func() stretchT { return cloneStretch(genStretch(w), func(x any) any { return x.(genT).Clone() }) }))
		ts = append(ts, stretchTask(fmt.Sprintf("gt%d", w), 4, false, func() stretchT { return cloneStretch(gtStretch(w), func(x any) any { return x.(gt).Clone() }) }))
		ts = append(ts, Task{Name: fmt.Sprintf("gt%d grown clones", w), Run: func(c *Ctx) { grownClones(c, w) }})
		for k := 1; k <= Pick2(quick, 3, 5); k++ {
			k := k
			ts = append(ts, Task{Name: fmt.Sprintf("gt%d worn clones %d", w, k), Run: func(c *Ctx) { wornClones(c, w, k) }})
		}
	}
	ts = append(ts, typedTask("gen types"))
	return ts
}

// wornClones: every short history of a tree and its clone, taken when the tree had released k of its entries (so that it
// has storage to use again).
func wornClones(c *Ctx, w, k int) {
	W := uint8(w)
	g := gtCfg{w: w, n: 4, name: "x", labs: []string{"a=1"}, sels: selectors[1:2]}.seq()
	g.Ops = []*Op{gtClaimFree("f=1"), gtClaim(w, pfx{8, W}, "a=1", false), gtClaim(w, pfx{12, W - 2}, "b=1", false), gtRelease(w, pfx{6, W}), gtRelease(w, pfx{7, W}), gtRelease(w, pfx{4, W - 2})}
	q := cloneSeq(fmt.Sprintf("clones of tree%d after %d releases", w, k), g, Pick(c, 4, 5), func(x any) any { return x.(gt).Clone() })
	for i := uint64(0); i < 8; i++ {
		q.Init = append(q.Init, pairWrap(gtClaim(w, pfx{i, W}, "i=1", false), false))
	}
	q.Init = append(q.Init, pairWrap(gtClaim(w, pfx{4, W - 2}, "i=2", false), false))
	for i := 0; i < k; i++ {
		q.Init = append(q.Init, pairWrap(gtRelease(w, pfx{uint64(i), W}), false))
	}
	q.Init = append(q.Init, q.Ops[0])
	q.Run(c)
}

// grownClones: a clone taken at every moment of a long history, then both sides continue differently.
func grownClones(c *Ctx, w int) {
	name := fmt.Sprintf("clones of tree%d during a long history", w)
	if !c.Begin(name) {
		return
	}
	n := Pick(c, uint8(3), uint8(4))
	ps := inTree(w, n)
	g := gtCfg{w: w, n: n, name: "x", labs: []string{"a=1"}, sels: selectors[1:2]}.seq()
	q := cloneSeq(name, g, 0, func(x any) any { return x.(gt).Clone() })
	cl := q.Ops[0]
	for _, up := range orders(len(ps)) {
		for _, down := range orders(len(ps)) {
			for at := 0; at <= 2*len(ps); at++ {
				if c.Expired() {
					return
				}
				var ops []*Op
				for i := 0; i < 2*len(ps); i++ {
					if i == at {
						ops = append(ops, cl)
					}
					if i < len(ps) {
						ops = append(ops, pairWrap(gtClaim(w, ps[up.f[i]], "a=1", false), false))
						if i >= at {
							ops = append(ops, pairWrap(gtClaim(w, ps[down.f[i]], "b=1", false), true))
						}
					} else {
						ops = append(ops, pairWrap(gtRelease(w, ps[down.f[i-len(ps)]]), false))
						if i >= at {
							ops = append(ops, pairWrap(gtClaim(w, ps[up.f[i-len(ps)]], "c=1", false), true), pairWrap(gtRelease(w, ps[down.f[len(ps)-1-(i-len(ps))]]), true))
						}
					}
				}
				// inside this history every failure concerns the pair
				for i, op := range ops {
					x := *op
					x.Tags = "C16"
					ops[i] = &x
				}
				c.R.States += int64(len(ops))
				c.Script(q, ops)
			}
		}
	}
	c.Note("%s: clone taken at every step of 25 histories", name)
}

// ---- concurrency ----

func gtConc(w int, name string, init []*Op) *Conc {
	W := uint8(w)
	z, two, root := pfx{0, W}, pfx{2, W - 1}, pfx{0, W - 2}
	return &Conc{Name: name, New: func() any { return mustGT(w, 2) }, Model: gtM{w, 2, map[pfx]string{}}, Init: init,
		Ops: []*Op{
			gtClaimFree("a=1"), gtClaimFree("b=2"), gtClaimRangePlain("0-2", "r=1"), gtClaim(w, z, "a=3", false), gtRelease(w, z), gtClaim(w, z, "c=5", true), // 0-5
			gtReleaseByLabel(selectors[2]), gtGetAll(), gtGet(w, z), gtGetByLabel(selectors[2]), gtChildren(w, root), gtParents(w, z), gtSize(), gtCloneList(), // 6-13
			gtClaim(w, two, "a=4", false), gtRelease(w, two), gtClaimRangePlain("1-3", "a=6"), gtGet(w, two), gtClaimRangePlain("3-1", "q=1"), gtClaim(w, pfx{9, W}, "q=1", false), gtReleaseByLabel(selectors[0]), // 14-20
		},
		Final: []*Op{gtGetAll(), gtSize()},
		Holds: []*Op{gtGetAll()},
	}
}

func init() {
	for _, p := range []string{"C12", "C13", "C14", "C15"} {
		register(p, gtTasks(p), "prefixes are given in canonical form (bits beyond the length are 0) and in the tree's own width")
	}
	register("C16", cloneTasks, "values are not copied deeply (documented)")
	register("C17", func(tier string) []Task {
		quick := tier != "thorough"
		var ts []Task
		for _, w := range widths {
			w := w
			W := uint8(w)
			ts = append(ts, Task{Name: fmt.Sprintf("among-many%d", w), Race: true, Shards: 4, Run: func(c *Ctx) { gtInterfere(c, w) }})
			inits := map[string][]*Op{
				"empty":    nil,
				"one-left": {gtClaim(w, pfx{2, W - 1}, "a=9", false), gtClaim(w, pfx{1, W}, "z=9", false)},
				"full":     {gtClaim(w, pfx{2, W - 1}, "a=9", false), gtClaim(w, pfx{1, W}, "z=9", false), gtClaim(w, pfx{0, W}, "a=8", false)},
			}
			for _, in := range []string{"empty", "one-left", "full"} {
				in := in
				nm := func(s string) string { return fmt.Sprintf("tree%d %s, %s", w, in, s) }
				ts = append(ts, Task{Name: fmt.Sprintf("conc%d-2x1-3x1-%s", w, in), Race: true, Shards: 4, Run: func(c *Ctx) {
					q := gtConc(w, nm("2 and 3 threads, 1 call each"), inits[in])
					q.Run(c, q.keepMutating(append(programs(2, 1, seqInts(len(q.Ops))), programs(3, 1, seqInts(Pick(c, 14, len(q.Ops))))...)))
				}})
				ts = append(ts, Task{Name: fmt.Sprintf("conc%d-2x2-%s", w, in), Race: true, Shards: Pick2(quick, 6, 24), Run: func(c *Ctx) {
					q := gtConc(w, nm("2 threads, 2 calls each"), inits[in])
					q.Run(c, q.keepMutating(programs(2, 2, Pick(c, []int{0, 2, 4, 5, 6, 7, 9}, seqInts(len(q.Ops))))))
				}})
				if !quick {
					ts = append(ts, Task{Name: fmt.Sprintf("conc%d-3x2-%s", w, in), Race: true, Shards: 12, Run: func(c *Ctx) {
						q := gtConc(w, nm("3 threads, 2 calls each"), inits[in])
						q.Run(c, q.keepMutating(programs(3, 2, []int{0, 2, 4, 6, 7})))
					}})
					ts = append(ts, Task{Name: fmt.Sprintf("conc%d-2x3-%s", w, in), Race: true, Shards: 12, Run: func(c *Ctx) {
						q := gtConc(w, nm("2 threads, 3 calls each"), inits[in])
						q.Run(c, q.keepMutating(programs(2, 3, []int{0, 2, 3, 4, 6, 7})))
					}})
				}
			}
		}
		return ts
	}, concAssume...)
}
