package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/id16"
	"github.com/henderiw/idxtable/pkg/tree/id32"
	"github.com/henderiw/idxtable/pkg/tree/id64"
)

// ---- generic prefix tree ----

// pfx is a prefix: the first l bits of id (the other bits are 0).
type pfx struct {
	id uint64
	l  uint8
}

func (p pfx) String() string { return fmt.Sprintf("%s/%d", u(p.id), p.l) }

// lastOf is the last id of the prefix.
func (p pfx) lastOf(w int) uint64 {
	if p.l == 0 {
		return maxOf(w)
	}
	return p.id + (1<<(uint8(w)-p.l) - 1)
}

func (p pfx) covers(w int, q pfx) bool {
	return p.l <= q.l && p.id <= q.id && q.lastOf(w) <= p.lastOf(w)
}

func pfxLess(a, b pfx) bool { return a.id < b.id || (a.id == b.id && a.l < b.l) }

func mkID(w int, p pfx) tree.ID {
	switch w {
	case 16:
		return id16.NewID(uint16(p.id), p.l)
	case 32:
		return id32.NewID(uint32(p.id), p.l)
	}
	return id64.NewID(p.id, p.l)
}

func leftFn(w int) tree.IsLeftBitSetFn {
	return map[int]tree.IsLeftBitSetFn{16: id16.IsLeftBitSet, 32: id32.IsLeftBitSet, 64: id64.IsLeftBitSet}[w]
}

type genT = *tree.Tree[int]

// genI is what the operations need of a tree of ints; typedGen offers it for trees of other types.
type genI interface {
	Add(id tree.ID, val int, match tree.MatchesFunc[int]) (bool, int)
	Set(id tree.ID, val int) (bool, int)
	Delete(id tree.ID, match tree.MatchesFunc[int], val int) int
	DeleteWithBuffer(buf []int, id tree.ID, match tree.MatchesFunc[int], val int) int
}

type genIterI interface {
	Next() bool
	Vals() []int
	ValsWithBuffer(buf []int) []int
}

func genIterOf(s any) genIterI {
	if t, ok := s.(genT); ok {
		return t.Iterate()
	}
	return s.(interface{ iter() genIterI }).iter()
}

func newGen(w int) genT { return tree.NewTree[int]("t", leftFn(w), uint8(w)) }

type genM struct {
	w int
	e map[pfx][]int
}

func (m genM) with(f func(e map[pfx][]int)) genM {
	e := make(map[pfx][]int, len(m.e)+1)
	for k, v := range m.e {
		e[k] = v
	}
	f(e)
	return genM{m.w, e}
}

func (m genM) order() []pfx {
	ks := make([]pfx, 0, len(m.e))
	for k := range m.e {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return pfxLess(ks[i], ks[j]) })
	return ks
}

func genKey(x any) string {
	m := x.(genM)
	var b strings.Builder
	for _, k := range m.order() {
		fmt.Fprintf(&b, "%s=%v ", k, m.e[k])
	}
	return b.String()
}

// A matcher is called with a stored value and the value of the call.
type matchT struct {
	name string
	f    func(payload, val int) bool
}

var (
	mEq     = matchT{"eq", func(a, b int) bool { return a == b }}
	mAll    = matchT{"all", func(a, b int) bool { return true }}
	mNone   = matchT{"none", func(a, b int) bool { return false }}
	mLess   = matchT{"less", func(a, b int) bool { return a < b }} // depends on the order of its arguments
	mParity = matchT{"parity", func(a, b int) bool { return a%2 == b%2 }}
	mNil    = matchT{"nil", nil}
)

// The values stored at a prefix identify it: v is combined with a number of the prefix.
func genAdd(w int, p pfx, v int, mt matchT) *Op {
	return det(fmt.Sprintf("Add(%s,%d,%s)", p, v, mt.name), "C11 C24", false,
		func(s any) string {
			inc, n := s.(genI).Add(mkID(w, p), v, mt.f)
			return fmt.Sprintf("%v %d", inc, n)
		},
		func(x any) (any, string) {
			m := x.(genM)
			old := m.e[p]
			if mt.f != nil {
				for _, o := range old {
					if mt.f(o, v) {
						return m, fmt.Sprintf("false %d", len(old))
					}
				}
			}
			return m.with(func(e map[pfx][]int) { e[p] = append(append([]int{}, old...), v) }), fmt.Sprintf("true %d", len(old)+1)
		})
}

func genSet(w int, p pfx, v int) *Op {
	return det(fmt.Sprintf("Set(%s,%d)", p, v), "C11 C24", false,
		func(s any) string {
			inc, n := s.(genI).Set(mkID(w, p), v)
			return fmt.Sprintf("%v %d", inc, n)
		},
		func(x any) (any, string) {
			m := x.(genM)
			return m.with(func(e map[pfx][]int) { e[p] = []int{v} }), fmt.Sprintf("%v 1", len(m.e[p]) == 0)
		})
}

var genBuf = make([]int, 0, 2)

func genDel(w int, p pfx, v int, mt matchT, buf bool) *Op {
	n := "Delete"
	if buf {
		n = "DeleteWithBuffer"
	}
	return det(fmt.Sprintf("%s(%s,%s,%d)", n, p, mt.name, v), "C11 C24", false,
		func(s any) string {
			if buf {
				return fmt.Sprint(s.(genI).DeleteWithBuffer(genBuf, mkID(w, p), mt.f, v))
			}
			return fmt.Sprint(s.(genI).Delete(mkID(w, p), mt.f, v))
		},
		func(x any) (any, string) {
			m := x.(genM)
			var keep []int
			n := 0
			for _, o := range m.e[p] {
				if mt.f(o, v) {
					n++
				} else {
					keep = append(keep, o)
				}
			}
			if n == 0 {
				return m, "0"
			}
			return m.with(func(e map[pfx][]int) {
				if len(keep) == 0 {
					delete(e, p)
				} else {
					e[p] = keep
				}
			}), fmt.Sprint(n)
		})
}

func genIterate(buf bool) *Op {
	n := "Iterate()"
	if buf {
		n = "Iterate() with buffer"
	}
	return det(n, "C11", true,
		func(s any) string {
			it := genIterOf(s)
			var b []string
			for it.Next() {
				if buf {
					pre := []int{-1}
					b = append(b, fmt.Sprint(it.ValsWithBuffer(pre)[1:]))
				} else {
					b = append(b, fmt.Sprint(it.Vals()))
				}
				if len(b) > 5000 {
					return "endless iteration"
				}
			}
			return strings.Join(b, " ")
		},
		func(x any) (any, string) {
			m := x.(genM)
			var b []string
			for _, k := range m.order() {
				b = append(b, fmt.Sprint(m.e[k]))
			}
			return m, strings.Join(b, " ")
		})
}

// Universes of prefixes.

// block lists every prefix inside base (n bits further): lengths base.l .. base.l+n.
func block(w int, base pfx, n uint8) []pfx {
	var ps []pfx
	for d := uint8(0); d <= n; d++ {
		l := base.l + d
		for i := uint64(0); i < 1<<d; i++ {
			id := base.id
			if l > 0 {
				id |= i << (uint8(w) - l)
			}
			ps = append(ps, pfx{id, l})
		}
	}
	return ps
}

func top(w int, n uint8) []pfx { return block(w, pfx{0, 0}, n) }

// low lists every prefix of the last n bits, under a fixed leading pattern.
func low(w int, lead uint64, n uint8) []pfx {
	mask := maxOf(w) &^ (1<<n - 1)
	return block(w, pfx{lead & mask, uint8(w) - n}, n)
}

// chain mixes lengths from 0 to w along a path and its siblings.
func chain(w int, pat uint64, ls []int) []pfx {
	var ps []pfx
	seen := map[pfx]bool{}
	add := func(p pfx) {
		if !seen[p] {
			seen[p] = true
			ps = append(ps, p)
		}
	}
	for _, l := range ls {
		mask := uint64(0)
		if l > 0 {
			mask = maxOf(w) &^ (1<<(w-l) - 1)
		}
		id := pat & maxOf(w) & mask
		add(pfx{id, uint8(l)})
		if l > 0 {
			add(pfx{id ^ 1<<(w-l), uint8(l)})
		}
	}
	return ps
}

func genSeq(w int, name string, ps []pfx, depth int) *Seq {
	q := &Seq{Name: fmt.Sprintf("tree of %d bits, %s", w, name), Depth: depth, New: func() any { return newGen(w) }, Model: genM{w, map[pfx][]int{}}, Key: genKey}
	q.Reads = append(q.Reads, basic(genIterate(false))...)
	q.Reads = append(q.Reads, genIterate(true))
	for i, p := range ps {
		q.Ops = append(q.Ops, genSet(w, p, 10*i+1), genDel(w, p, 10*i+1, mEq, false))
	}
	return q
}

// multiOps are all kinds of operations on few prefixes with several values each.
func multiOps(w int, ps []pfx, nvals int) []*Op {
	var ops []*Op
	for i, p := range ps {
		for v := 1; v <= nvals; v++ {
			x := 10*i + v
			ops = append(ops, genAdd(w, p, x, mNil), genAdd(w, p, x, mEq), genSet(w, p, x), genDel(w, p, x, mEq, v%2 == 0))
		}
		ops = append(ops, genAdd(w, p, 10*i+3, mAll), genAdd(w, p, 10*i+2, mLess), genDel(w, p, 10*i+2, mLess, false), genDel(w, p, 10*i+1, mParity, false),
			genDel(w, p, 0, mAll, true), genDel(w, p, 10*i+1, mNone, false))
	}
	return ops
}

func genTasks(tier string) []Task {
	quick := tier != "thorough"
	var ts []Task
	for _, w := range widths {
		w := w
		pat := uint64(0xA5C3_96F0_B4D2_87E1) >> (64 - w)
		// every history up to a depth, states keyed by the tree's memory
		type uni struct {
			name string
			ps   []pfx
			d    int
		}
		us := []uni{
			{"all prefixes of length 0-2", top(w, 2), Pick2(quick, 6, 8)},
			{"all prefixes of length 0-3", top(w, 3), Pick2(quick, 4, 5)},
			{"the lowest 2 bits of 0", low(w, 0, 2), Pick2(quick, 6, 8)},
			{"the lowest 2 bits of the last id", low(w, maxU, 2), Pick2(quick, 6, 8)},
			{"the lowest 3 bits under a pattern", low(w, pat, 3), Pick2(quick, 4, 5)},
			{"a chain of lengths", chain(w, pat, []int{0, 1, 2, w / 2, w - 1, w}), Pick2(quick, 4, 5)},
			{"a chain of lengths along 0", chain(w, 0, []int{0, 1, w / 2, w/2 + 1, w}), Pick2(quick, 4, 5)},
			{"a chain of lengths along the last id", chain(w, maxU, []int{0, 3, w/2 - 1, w / 2, w}), Pick2(quick, 4, 5)},
		}
		for _, x := range us {
			x := x
			ts = append(ts, Task{Name: fmt.Sprintf("gen%d %s", w, x.name), Run: func(c *Ctx) { genSeq(w, x.name, x.ps, x.d).Run(c) }})
		}
		// several values per prefix
		for _, x := range []uni{
			{"one prefix, several values", []pfx{{1 << (w - 1), 1}}, Pick2(quick, 5, 6)},
			{"the root, several values", []pfx{{0, 0}}, Pick2(quick, 5, 6)},
			{"a full-length id, several values", []pfx{{pat, uint8(w)}}, Pick2(quick, 5, 6)},
			{"nested prefixes, several values", []pfx{{0, 0}, {0, uint8(w)}, {0, uint8(w / 2)}}, Pick2(quick, 3, 4)},
			{"siblings, several values", []pfx{{pat &^ 1, uint8(w)}, {pat | 1, uint8(w)}, {pat &^ 1, uint8(w - 1)}}, Pick2(quick, 3, 4)},
		} {
			x := x
			ts = append(ts, Task{Name: fmt.Sprintf("gen%d %s", w, x.name), Run: func(c *Ctx) {
				q := genSeq(w, x.name, nil, x.d)
				q.Ops = multiOps(w, x.ps, 3)
				q.Run(c)
			}})
		}
		// every set of prefixes of length 0-3 (or 0-2 at both ends), one history each, and every single change to it
		ts = append(ts, Task{Name: fmt.Sprintf("gen%d all sets", w), Run: func(c *Ctx) {
			q := genSeq(w, "every set of prefixes of length 0-3", Pick(c, top(w, 3)[:12], top(w, 3)), 0)
			q.ByModel = true
			q.Run(c)
		}})
		ts = append(ts, Task{Name: fmt.Sprintf("gen%d large", w), Run: func(c *Ctx) { genLarge(c, w) }})
		ts = append(ts, Task{Name: fmt.Sprintf("gen%d scale", w), Shards: 2, Run: func(c *Ctx) { genScale(c, w, "C11") }})
		ts = append(ts, Task{Name: fmt.Sprintf("gen%d deep", w), Shards: 2, Run: func(c *Ctx) { genDeep(c, w) }})
		ts = append(ts, stretchTask(fmt.Sprintf("gen%d", w), 1, false, func() stretchT { return genStretch(w) }))
		ts = append(ts, Task{Name: fmt.Sprintf("gen%d clones", w), Run: func(c *Ctx) {
			// the original lives on next to its clone
			genCloneSeq(w, "prefixes of length 0-2", top(w, 2), Pick(c, 4, 5)).Run(c)
		}})
	}
	ts = append(ts, typedTask("gen types"))
	return ts
}

// genLarge: trees large enough to outgrow their storage several times, built and taken down in different orders, checked
// after every step.
func genLarge(c *Ctx, w int) {
	n := uint8(Pick(c, 5, 6))
	for _, base := range []struct {
		name string
		ps   []pfx
	}{
		{"all prefixes of the leading bits", top(w, n)},
		{"the lowest bits", low(w, uint64(0x9999999999999999), n)},
	} {
		perms := orders(len(base.ps))
		name := fmt.Sprintf("tree of %d bits, %s", w, base.name)
		if !c.Begin(name) {
			continue
		}
		q := genSeq(w, base.name, nil, 0)
		for i, up := range perms {
			for j, down := range perms {
				if c.Expired() {
					return
				}
				if !c.Mine(i*len(perms) + j) {
					continue
				}
				var ops []*Op
				it := genIterate(false)
				for _, k := range up.f {
					ops = append(ops, genAdd(w, base.ps[k], 10*k+1, mEq), it)
					if k%3 == 0 {
						ops = append(ops, genAdd(w, base.ps[k], 10*k+2, mEq))
					}
				}
				for x, k := range down.f {
					ops = append(ops, genDel(w, base.ps[k], 10*k+1, mEq, false), it)
					if x%4 == 3 {
						// and back again, now from recycled storage
						ops = append(ops, genSet(w, base.ps[down.f[x/2]], 10*down.f[x/2]+3), it)
					}
				}
				c.R.States += int64(len(ops))
				c.Script(q, ops)
			}
		}
		c.Note("%s: %d prefixes in %d x %d insertion and removal orders", name, len(base.ps), len(perms), len(perms))
	}
}

type orderT struct {
	name string
	f    []int
}

// orders gives a family of permutations of 0..n-1.
func orders(n int) []orderT {
	mk := func(name string, f func(i int) int) orderT {
		o := orderT{name: name}
		for i := 0; i < n; i++ {
			o.f = append(o.f, f(i))
		}
		return o
	}
	g := 1
	for _, c := range []int{7, 11, 13, 17, 19, 23} {
		if gcd(c, n) == 1 {
			g = c
			break
		}
	}
	return []orderT{
		mk("ascending", func(i int) int { return i }),
		mk("descending", func(i int) int { return n - 1 - i }),
		mk("from both ends", func(i int) int {
			if i%2 == 0 {
				return i / 2
			}
			return n - 1 - i/2
		}),
		mk("strided", func(i int) int { return i * g % n }),
		mk("from the middle", func(i int) int {
			if i%2 == 0 {
				return (n/2 + i/2) % n
			}
			return ((n/2-1-i/2)%n + n) % n
		}),
	}
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// ---- clones ----

type genPairT struct{ a, b genT }

func genCloneSeq(w int, name string, ps []pfx, depth int) *Seq {
	one := genSeq(w, name, ps, depth)
	one.Ops = append(one.Ops, genAdd(w, ps[0], 7, mNil), genAdd(w, ps[len(ps)-1], 8, mEq))
	return cloneSeq("clones of a "+one.Name, one, depth, func(x any) any { return x.(genT).Clone() })
}

// cloneSeq explores an object next to a clone of it: either may be changed, and either may be cloned over the other.
func cloneSeq(name string, one *Seq, depth int, clone func(any) any) *Seq {
	q := &Seq{Name: name, Depth: depth, Max: one.Max,
		New: func() any {
			a := one.New()
			return &pairT{a, clone(a)}
		},
		Model: pairM{one.Model, one.Model},
		Key:   func(m any) string { p := m.(pairM); return one.Key(p.a) + "|" + one.Key(p.b) }}
	retag := func(op *Op) *Op {
		x := *op
		x.Tags = "C16"
		// which rule of the single object was broken does not matter here
		x.Spec = func(m any, o Out) (any, string) {
			m2, bad := op.Spec(m, o)
			_, bad = splitTag("", bad)
			return m2, bad
		}
		return &x
	}
	q.Ops = append(q.Ops,
		det("second = first.Clone()", "C16", false, func(s any) string { p := s.(*pairT); p.b = clone(p.a); return "ok" },
			func(m any) (any, string) { p := m.(pairM); return pairM{p.a, p.a}, "ok" }),
		det("first = second.Clone()", "C16", false, func(s any) string { p := s.(*pairT); p.a = clone(p.b); return "ok" },
			func(m any) (any, string) { p := m.(pairM); return pairM{p.b, p.b}, "ok" }))
	for _, second := range []bool{false, true} {
		for _, op := range one.Ops {
			q.Ops = append(q.Ops, pairWrap(retag(op), second))
		}
		for _, op := range one.Reads {
			q.Reads = append(q.Reads, pairWrap(retag(op), second))
		}
	}
	return q
}

func init() {
	register("C11", genTasks, "prefixes are given in canonical form (bits beyond the length are 0) and in the tree's own width")
}
