package main

import (
	"fmt"
	"net/netip"
	"strings"

	nipam "github.com/hansthienpondt/nipam/pkg/table"
	"github.com/henderiw/idxtable/pkg/idxtable"
	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/id64"
	"k8s.io/apimachinery/pkg/labels"
)

// What an operation hands out belongs to the caller (C27): it stays what it was whatever happens to the object
// afterwards, and the caller may overwrite and extend the lists it was given without the object, or anything handed out
// to somebody else, changing.

// handedT collects what operations hand out while it is switched on.
type handedT struct {
	read  []func() string // reads a result out again
	from  []string        // the operation it comes from
	wreck []func()        // what a caller may do to its own list
	name  string
}

var handed *handedT

// handOut is called by the operations with a result.
func handOut(read func() string) {
	if handed != nil {
		handed.read = append(handed.read, read)
		handed.from = append(handed.from, handed.name)
	}
}

// handList is called by the operations with a list they were given: it may be overwritten, also behind its end.
func handList[E any](xs []E, junk E) {
	if handed != nil {
		handed.wreck = append(handed.wreck, func() {
			ys := xs[:cap(xs)]
			for i := range ys {
				ys[i] = junk
			}
		})
	}
}

var (
	junkTE    tree.Entry             = otherEntry{id64.NewID(77, 64), labels.Set{"junk": "1"}}
	junkEntry idxtable.Entry[string] = idxtable.NewEntry[string](77, "junk")
	junkRoute                        = nipam.NewRoute(netip.MustParsePrefix("9.9.9.9/32"), labels.Set{"junk": "1"}, nil)
)

func handIDs(xs []uint64) {
	handOut(func() string { return ids(xs) })
	handList(xs, junkID)
}

const junkID = 0xdeadbeef

// once makes a listing that can be read only once.
func once(name, tags string, take func(sys any) func() string, want func(m any) string) *Op {
	op := listing(name, tags, take, want)
	op.Once = true
	return op
}

// handOnce hands out an iterator that nobody has used yet.
func handOnce(op *Op, sys any) {
	if handed == nil {
		return
	}
	want, it := op.Take(sys)(), op.Take(sys)
	used := false
	handOut(func() string {
		if handed == nil || used {
			return want
		}
		used = true
		return it()
	})
}

// collect runs f and gives what was handed out.
func collect(f func()) *handedT {
	h := &handedT{}
	handed = h
	defer func() { handed = nil }()
	f()
	return h
}

func (h *handedT) values() []string {
	var vs []string
	for _, f := range h.read {
		vs = append(vs, f())
	}
	return vs
}

// same compares what the results show with what they showed.
func (h *handedT) same(vs []string) string {
	handed = &handedT{} // iterators are read out now
	defer func() { handed = nil }()
	for i, f := range h.read {
		o := exec(&Op{Do: func(any) Out { return Out{S: f()} }}, nil)
		if o.S != vs[i] {
			return fmt.Sprintf("the result of %s was %s and is now %s", h.from[i], vs[i], o.S)
		}
	}
	return ""
}

func (h *handedT) wreckAll() {
	for _, f := range h.wreck {
		f()
	}
}

// run executes op, naming it for what it hands out.
func handRun(op *Op, sys any) Out {
	if handed != nil {
		handed.name = op.Name
	}
	return exec(op, sys)
}

// sound says whether every reader agrees with the model.
func (c *Ctx) sound(q *Seq, sys, m any) string {
	for _, op := range q.Reads {
		o := exec(op, sys)
		c.R.Transitions++
		progress.Add(1)
		if o.Panic != "" {
			return op.Name + ": " + o.Panic
		}
		if _, bad := op.Spec(m, o); bad != "" {
			_, bad = splitTag("", bad)
			return op.Name + ": " + bad
		}
	}
	return ""
}

// keepHook checks one state: everything that can be handed out is handed out twice, an operation changes the object, the
// first caller overwrites its lists; the second caller's results and the object must be what they were.
func keepHook(c *Ctx, st *SeqState) {
	q := st.spec
	readers := func(sys any) *handedT {
		return collect(func() {
			for _, r := range q.Reads {
				handRun(r, sys)
			}
		})
	}
	fail := func(what, bad string, tr ...string) {
		c.Fail("C27", what+": "+bad, st.Trace(tr...), nil)
	}
	const wrecked = "(the caller overwrites the lists it was given)"
	// the lists are overwritten, then the object is used
	sys := st.Build()
	if c.sound(q, sys, st.model) != "" {
		c.R.Pruned++
		return
	}
	a, b := readers(sys), readers(sys)
	bv := b.values()
	a.wreckAll()
	if bad := b.same(bv); bad != "" {
		fail("after a caller overwrote its own lists", bad, wrecked)
	}
	if bad := c.sound(q, sys, st.model); bad != "" {
		fail("after a caller overwrote the lists it was given", bad, wrecked)
	}
	// the same, one reader at a time: asked for three times in a row
	sys = st.Build()
	for _, r := range q.Reads {
		one := collect(func() { handRun(r, sys) })
		two := collect(func() { handRun(r, sys) })
		tv := two.values()
		one.wreckAll()
		tr := []string{r.Name, r.Name, wrecked}
		if bad := two.same(tv); bad != "" {
			fail("after another caller overwrote its own list", bad, tr...)
		}
		o := exec(r, sys)
		c.R.Transitions += 3
		if _, bad := r.Spec(st.model, o); o.Panic != "" || bad != "" {
			_, bad = splitTag("", bad)
			fail("after a caller overwrote the list it was given", r.Name+": "+bad+o.Panic, append(tr, r.Name)...)
		}
	}
	for _, op := range q.Ops {
		if c.Expired() {
			return
		}
		for order := 0; order < 2; order++ {
			sys := st.Build()
			a, b := readers(sys), readers(sys)
			av, bv := a.values(), b.values()
			var o Out
			do := func() *handedT { return collect(func() { o = handRun(op, sys) }) }
			var m *handedT
			if order == 0 {
				a.wreckAll()
				m = do()
			} else {
				m = do()
				if bad := a.same(av); bad != "" {
					fail("after "+op.Name, bad, "(everything is handed out)", op.Name)
				}
			}
			c.R.Transitions++
			c.R.Traces++
			m2, bad := op.Spec(st.model, o)
			if o.Panic != "" || bad != "" {
				// wrong already without any list overwritten: not the business of this property
				s2 := st.Build()
				o2 := exec(op, s2)
				if _, bad2 := op.Spec(st.model, o2); o2.Panic != "" || bad2 != "" {
					c.R.Pruned++
					break
				}
				_, bad = splitTag("", bad)
				fail("after a caller overwrote the lists it was given", op.Name+": "+bad+o.Panic, wrecked, op.Name)
			}
			mv := m.values()
			s2 := st.Build()
			exec(op, s2)
			if c.sound(q, s2, m2) != "" {
				c.R.Pruned++
				break
			}
			if order == 1 {
				a.wreckAll()
			}
			tr := []string{"(everything is handed out twice)", wrecked, op.Name}
			if order == 1 {
				tr = []string{"(everything is handed out twice)", op.Name, wrecked}
			}
			if bad := b.same(bv); bad != "" {
				fail("after "+op.Name+" and a caller overwriting its own lists", bad, tr...)
			}
			if bad := m.same(mv); bad != "" {
				fail("after a caller overwrote its own lists", bad, tr...)
			}
			m.wreckAll()
			if bad := b.same(bv); bad != "" {
				fail("after the caller of "+op.Name+" overwrote its list", bad, tr...)
			}
			if bad := c.sound(q, sys, m2); bad != "" {
				fail("after "+op.Name+" and callers overwriting their own lists", bad, tr...)
			}
		}
		// what the operation itself hands out outlives the next operation
		for _, op2 := range q.Ops {
			sys := st.Build()
			m := collect(func() { handRun(op, sys) })
			if len(m.read) == 0 {
				break
			}
			mv := m.values()
			n := collect(func() { handRun(op2, sys) })
			c.R.Transitions++
			if bad := m.same(mv); bad != "" {
				fail("after "+op2.Name, bad, op.Name, op2.Name)
			}
			nv := n.values()
			m.wreckAll()
			if bad := n.same(nv); bad != "" {
				fail("after the caller of "+op.Name+" overwrote its list", bad, op.Name, op2.Name, "(the first caller overwrites its list)")
			}
		}
	}
}

func keepTasks(tier string) []Task {
	quick := tier != "thorough"
	var ts []Task
	add := func(name string, mk func(c *Ctx) *Seq) {
		ts = append(ts, Task{Name: name, Run: func(c *Ctx) {
			q := mk(c)
			q.Name = strings.TrimSuffix(q.Name, ", ") + ", what is handed out"
			q.Holds = nil
			q.Hook = keepHook
			q.Run(c)
		}})
	}
	for n := uint64(1); n <= Pick2(quick, uint64(3), uint64(4)); n++ {
		n := n
		add(fmt.Sprintf("idx-%d", n), func(c *Ctx) *Seq {
			q := idxSpec(n, []string{"a", "b"}, false)
			q.Ops, q.Depth = nil, Pick(c, 4, 5)
			for id := uint64(0); id < n; id++ {
				q.Ops = append(q.Ops, idxClaim(id, "a"), idxUpdate(id, "b"), idxRelease(id), idxClaimRange(0, id+1, "c"), idxClaimSize(id+1, "d"))
			}
			q.Ops = append(q.Ops, idxClaimDynamic("e"), idxClaim(n, "a"), idxClaimRange(n-1, 2, "a"))
			return q
		})
	}
	for _, n := range Pick2(quick, []uint64{9, 17, 40, 129}, []uint64{9, 16, 17, 33, 40, 65, 129, 600}) {
		n := n
		add(fmt.Sprintf("idx-large-%d", n), func(c *Ctx) *Seq {
			q := &Seq{Name: fmt.Sprintf("index table of %d", n), New: newIdx(n), Model: idxM{n, map[uint64]string{}}, Key: idxKey, Depth: Pick(c, 1, 2)}
			q.Init = []*Op{idxClaimRange(2, n-5, "i"), idxRelease(n / 2)}
			q.Ops = []*Op{idxClaim(0, "a"), idxClaim(n/2, "b"), idxUpdate(3, "c"), idxRelease(2), idxRelease(n / 3), idxClaimRange(n-3, 3, "d"), idxClaimSize(3, "e"), idxClaimDynamic("f"), idxClaim(n, "g")}
			q.Reads = []*Op{idxGet(3), idxGet(n / 3), idxSize(), idxFindFree(), idxFindFreeRange(n-3, 2), idxFindFreeSize(4), idxGetAll(), idxIterate(), idxIterateFree()}
			return q
		})
	}
	for _, w := range widths {
		w := w
		W := uint8(w)
		add(fmt.Sprintf("tab%d", w), func(c *Ctx) *Seq {
			q := tabSeq(w, 5, 7, []uint64{4, 5, 6, 7, 8}, []string{"-", "a=1"}, selectors[:4])
			q.Depth = Pick(c, 3, 4)
			return q
		})
		for _, n := range Pick2(quick, []uint64{17, 40, 129}, []uint64{16, 17, 33, 40, 65, 129, 600}) {
			n := n
			add(fmt.Sprintf("tab%d-large-%d", w, n), func(c *Ctx) *Seq {
				q := tabSeq(w, 5, 5+n-1, nil, nil, nil)
				q.Name += "."
				q.Depth = Pick(c, 1, 2)
				for i := uint64(2); i < n-3; i++ {
					q.Init = append(q.Init, tabClaim(5+i, []string{"a=1", "b=2"}[i%2]))
				}
				q.Init = append(q.Init, tabRelease(5+n/2))
				q.Ops = []*Op{tabClaim(5, "a=3"), tabClaim(5+n/2, "a=4"), tabUpdate(8, "a=5"), tabUpdate(9, "b=5"), tabRelease(7), tabRelease(5 + n/3), tabClaimFree("f=1")}
				q.Reads = []*Op{tabGet(8), tabGet(9), tabSize(), tabFindFree(), tabGetAll(), tabGetByLabel(selectors[0]), tabGetByLabel(selectors[2]), tabGetByLabel(selectors[3])}
				return q
			})
		}
		add(fmt.Sprintf("gt%d", w), func(c *Ctx) *Seq {
			return gtCfg{w: w, n: 2, name: "", ps: append(inTree(w, 2), pfx{0, 0}), labs: []string{"a=1"}, ranges: []string{"0-3", "1-2"}, sels: selectors[:4], rel: true, depth: Pick(c, 2, 3)}.seq()
		})
		add(fmt.Sprintf("gt%d deeper", w), func(c *Ctx) *Seq {
			return gtCfg{w: w, n: 1, name: "", ps: append(inTree(w, 1), pfx{0, 0}), labs: []string{"a=1"}, ranges: []string{"0-1"}, sels: selectors[2:4], rel: true, depth: Pick(c, 3, 4)}.seq()
		})
		for _, n := range Pick2(quick, []uint64{17, 40, 129}, []uint64{16, 17, 33, 40, 65, 129, 600}) {
			n := n
			add(fmt.Sprintf("gt%d-large-%d", w, n), func(c *Ctx) *Seq {
				root, half := pfx{0, 0}, pfx{0, W - 3}
				q := gtCfg{w: w, n: 12, name: "with " + fmt.Sprint(n), depth: Pick(c, 1, 2)}.seq()
				q.Init = []*Op{gtClaim(w, root, "b=2", false), gtClaim(w, half, "b=2", false)}
				for i := uint64(0); i < n; i++ {
					q.Init = append(q.Init, gtClaim(w, pfx{i, W}, []string{"a=1", "b=2"}[i%2], false))
				}
				q.Ops = []*Op{gtClaim(w, pfx{3, W}, "a=3", true), gtClaim(w, pfx{n, W}, "a=4", false), gtClaim(w, root, "a=5", true), gtClaim(w, pfx{0, W - 2}, "a=6", false), gtRelease(w, pfx{n / 2, W}),
					gtRelease(w, half), gtRelease(w, root), gtReleaseByLabel(selectors[3]), gtClaimFree("f=1"), gtClaimRange("1-5", "r=1"), gtClaimRange(fmt.Sprintf("%d-%d", n, n+9), "r=2")}
				q.Reads = []*Op{gtGet(w, pfx{3, W}), gtGet(w, root), gtSize(), gtGetAll(), gtIterate(), gtGetByLabel(selectors[0]), gtGetByLabel(selectors[2]), gtGetByLabel(selectors[3]), gtChildren(w, root),
					gtChildren(w, half), gtParents(w, pfx{2, W}), gtParents(w, pfx{n, W})}
				return q
			})
		}
	}
	for _, r := range [][2]string{{"10.0.0.254", "10.0.1.0"}, {"2001:db8::ffff", "2001:db8::1:1"}} {
		r := r
		add("ip-"+r[0], func(c *Ctx) *Seq {
			q := ipSeq(r[0], r[1], Pick(c, 3, 0), false, false)
			var ops []*Op
			f := netip.MustParseAddr(r[0])
			for _, a := range []netip.Addr{f, f.Next(), f.Next().Next()} {
				ops = append(ops, ipClaim(a.String(), "10.9.0.0/24 a=1 x"), ipClaim(a.String(), "10.8.0.0/24 b=2"), ipUpdate(a.String(), "10.7.0.0/24 a=1,u=1"), ipRelease(a.String()))
			}
			q.Ops = append(ops, ipClaim("::", "10.9.0.0/24 a=1"))
			return q
		})
	}
	for _, n := range Pick2(quick, []uint64{17, 40}, []uint64{16, 17, 33, 40, 65, 129, 600}) {
		n := n
		add(fmt.Sprintf("ip-large-%d", n), func(c *Ctx) *Seq {
			var as []string
			a := netip.MustParseAddr("10.0.0.250")
			for i := uint64(0); i < n; i++ {
				as = append(as, a.String())
				a = a.Next()
			}
			q := ipSeq(as[0], as[n-1], Pick(c, 1, 2), false, true)
			for i := uint64(2); i < n-3; i++ {
				q.Init = append(q.Init, ipClaim(as[i], fmt.Sprintf("10.9.%d.0/24 %s", i%200, []string{"a=1", "b=2"}[i%2])))
			}
			q.Ops = []*Op{ipClaim(as[0], "10.8.0.0/24 a=1"), ipClaim(as[n-1], "10.8.0.0/24 a=1"), ipUpdate(as[3], "10.7.0.0/24 a=2"), ipUpdate(as[4], "10.7.0.0/24 b=7"), ipRelease(as[2]), ipRelease(as[n/2])}
			q.Reads = []*Op{ipGet(as[3]), ipSize(), ipFindFree(), ipGetAll(), ipGetByLabel(selectors[0]), ipGetByLabel(selectors[2]), ipGetByLabel(selectors[3])}
			return q
		})
	}
	for _, a := range idAPIs {
		a := a
		ts = append(ts, Task{Name: fmt.Sprintf("sets%d", a.w), Run: func(c *Ctx) { keepSets(c, a) }})
	}
	return ts
}

// keepSets: the lists of id sets and ranges, next to sets derived from the same builder and from each other.
func keepSets(c *Ctx, a *idAPI) {
	if !c.Begin(fmt.Sprintf("sets of %d bits, what is handed out", a.w)) {
		return
	}
	W := uint8(a.w)
	m := maxOf(a.w)
	view := func(s idSet) string { return fmt.Sprint(s.Ranges(), s.IDs()) }
	wreck := func(s idSet) {
		h := collect(func() {
			handList(s.Ranges(), a.rangeFrom(1, 3))
			handList(s.IDs(), a.newID(5, W))
		})
		h.wreckAll()
	}
	type held struct {
		s    idSet
		rs   []tree.Range
		ids  []tree.ID
		view string
		what string
	}
	hold := func(s idSet, what string) held { return held{s, s.Ranges(), s.IDs(), view(s), what} }
	for _, al := range [][]setStep{
		a.setAlphabet([]uint64{0, 2, 5, 9}, []pfx{{4, W - 2}, {8, W}}, 0, true),
		a.setAlphabet([]uint64{m - 9, m - 4, m - 1, m}, []pfx{{m - 3, W - 2}}, 0, false),
	} {
		n := len(al)
		depth := Pick(c, 2, 3)
		total := 1
		for i := 0; i < depth; i++ {
			total *= n
		}
		for x := 0; x < total; x++ {
			if c.Expired() {
				return
			}
			var seq []int
			for i, y := 0, x; i < depth; i++ {
				seq, y = append(seq, y%n), y/n
			}
			c.Case("C27", func() string { return a.seqName(al, seq, true) }, func() string {
				b := a.builder()
				var hs []held
				check := func(after string) string {
					for _, h := range hs {
						if got := view(h.s); got != h.view {
							return fmt.Sprintf("%s: %s was %s and is now %s", after, h.what, h.view, got)
						}
						if got := fmt.Sprint(h.rs, h.ids); got != h.view {
							return fmt.Sprintf("%s: the lists of %s were %s and are now %s", after, h.what, h.view, got)
						}
					}
					return ""
				}
				for i, k := range seq {
					al[k].do(b)
					if bad := check("after " + al[k].name); bad != "" {
						return bad
					}
					s, err := a.build(b)
					if err != nil || s == nil {
						return ""
					}
					hs = append(hs, hold(s, fmt.Sprintf("the set after step %d", i+1)))
					wreck(s)
					if bad := check("after a caller overwrote its lists of the set"); bad != "" {
						return bad
					}
					for _, l := range []uint8{W, W - 1, W - 2} {
						id, ns, ok := a.free(s, l)
						if !ok {
							continue
						}
						hs = append(hs, hold(ns, fmt.Sprintf("the set after step %d without %s", i+1, toPfx(id))))
						wreck(ns)
						wreck(s)
						if bad := check("after a caller overwrote its lists"); bad != "" {
							return bad
						}
					}
				}
				b2 := a.builder()
				for _, h := range hs {
					a.addSet(b2, h.s)
				}
				if s, err := a.build(b2); err == nil && s != nil {
					wreck(s)
				}
				b2.RemoveId(a.newID(0, W))
				if s, err := a.build(b2); err == nil && s != nil {
					wreck(s)
				}
				return check("after the sets were added to another one")
			})
		}
		// ranges
		for x := uint64(0); x < 20; x++ {
			for y := x; y < 20; y++ {
				for _, base := range []uint64{0, m - 19} {
					r := a.rangeFrom(base+x, base+y)
					c.Case("C27", func() string { return "IDs of " + r.String() }, func() string {
						one, two := r.IDs(), r.IDs()
						want := fmt.Sprint(two)
						dst := append(make([]tree.ID, 0, 40), a.newID(3, W), a.newID(4, W))
						three := r.AppendIDs(dst)
						collect(func() { handList(one, a.newID(5, W)) }).wreckAll()
						if got := fmt.Sprint(two); got != want {
							return "the list was " + want + " and is now " + got
						}
						if got := fmt.Sprint(three[2:]); got != want {
							return "AppendIDs gave " + got + ", IDs " + want
						}
						if toPfx(three[0]) != (pfx{3, W}) || toPfx(three[1]) != (pfx{4, W}) {
							return "AppendIDs changed what was there"
						}
						if got := fmt.Sprint(r.IDs()); got != want {
							return "IDs again: " + got + ", was " + want
						}
						return ""
					})
				}
			}
		}
	}
}

func init() {
	register("C27", keepTasks, "label maps and route data are shared with the caller by design and are not overwritten")
}
