package main

import (
	"fmt"
	"net/netip"
	"reflect"
	"strings"
	"unsafe"

	"github.com/henderiw/idxtable/verifmc/rt"
)

// Releasing gives the storage back (C28): doing the same things over and over, coming back to the same contents each time,
// does not make an object grow. Every closed walk (one that ends with the contents it began with) over the states of a small object is
// a cycle; the cycle is unrolled and the amount of memory reachable from the object and from the package-level
// variables must not keep growing.

// storage counts what is reachable: slice elements (by capacity), map entries, bytes of text.
type storage struct {
	n    int
	ptrs map[unsafe.Pointer]bool
	mem  map[unsafe.Pointer]int
}

func (s *storage) val(v reflect.Value) {
	switch v.Kind() {
	case reflect.String:
		s.n += v.Len()
	case reflect.Pointer:
		if p := v.UnsafePointer(); p != nil && !s.ptrs[p] {
			s.ptrs[p] = true
			s.n++
			s.val(v.Elem())
		}
	case reflect.Interface:
		if !v.IsNil() {
			s.val(v.Elem())
		}
	case reflect.Slice:
		if p := v.UnsafePointer(); v.Cap() > 0 {
			old, ok := s.mem[p]
			if v.Cap() > old {
				s.mem[p] = v.Cap()
				s.n += v.Cap() - old
			}
			if ok && old >= v.Cap() && flat(v.Type().Elem()) {
				return
			}
		}
		if !flat(v.Type().Elem()) {
			for i := 0; i < v.Len(); i++ {
				s.val(v.Index(i))
			}
		}
	case reflect.Array:
		if !flat(v.Type().Elem()) {
			for i := 0; i < v.Len(); i++ {
				s.val(v.Index(i))
			}
		}
	case reflect.Struct:
		if t := v.Type(); t.Name() == "Pool" && strings.HasSuffix(t.PkgPath(), "verifmc/rt") {
			return // the collector empties it
		}
		for i := 0; i < v.NumField(); i++ {
			s.val(v.Field(i))
		}
	case reflect.Map:
		if p := v.UnsafePointer(); p != nil && !s.ptrs[p] {
			s.ptrs[p] = true
			s.n += v.Len()
			t := v.Type()
			if flat(t.Key()) && flat(t.Elem()) {
				return
			}
			it := v.MapRange()
			for it.Next() {
				s.val(it.Key())
				s.val(it.Value())
			}
		}
	}
}

var flatTypes = map[reflect.Type]bool{}

// flat says whether values of the type lead nowhere.
func flat(t reflect.Type) bool {
	if f, ok := flatTypes[t]; ok {
		return f
	}
	f := false
	switch t.Kind() {
	case reflect.String, reflect.Pointer, reflect.Interface, reflect.Slice, reflect.Map:
	case reflect.Array:
		f = flat(t.Elem())
	case reflect.Struct:
		f = true
		for i := 0; i < t.NumField(); i++ {
			f = f && flat(t.Field(i).Type)
		}
	default:
		f = true
	}
	flatTypes[t] = f
	return f
}

func stored(sys any) int {
	s := &storage{ptrs: map[unsafe.Pointer]bool{}, mem: map[unsafe.Pointer]int{}}
	s.val(reflect.ValueOf(sys))
	for _, g := range rt.Globals {
		s.val(reflect.ValueOf(g.Ptr).Elem())
	}
	return s.n
}

// unroll repeats once (given the number of the round) and says whether the storage keeps growing: by at least one
// element every fourth round, also after thousands of rounds, so that clearing up from time to time is all right.
func (c *Ctx) unroll(sys any, once func(i int)) string {
	done := 0
	upTo := func(n int) int {
		for ; done < n; done++ {
			once(done)
			c.R.Transitions++
		}
		tick()
		return stored(sys)
	}
	a, b := upTo(40), upTo(80)
	if b <= a {
		if c2 := upTo(160); c2 <= b {
			return ""
		}
	}
	x, y, z := upTo(1024), upTo(2048), upTo(4096)
	if y-x >= 256 && z-y >= 512 {
		return fmt.Sprintf("the object keeps growing: %d elements are reachable after 1024 rounds, %d after 2048, %d after 4096", x, y, z)
	}
	return ""
}

// storeHook: every closed walk of at most max operations from this state.
func storeHook(max int) func(c *Ctx, st *SeqState) {
	return func(c *Ctx, st *SeqState) {
		q := st.spec
		base := observe(q.Reads, st.Build())
		var walk []int32
		all := len(q.Ops) + len(q.Reads)
		var rec func(depth int)
		rec = func(depth int) {
			if depth > 0 && !c.Expired() {
				sys := st.Build()
				for _, i := range walk {
					exec(q.op(i), sys)
				}
				c.R.Traces++
				now := observe(q.Reads, sys)
				c.R.Transitions += int64(len(walk) + len(now))
				if diffAt(base, now) < 0 {
					// unrolled as it is, and with everything read after every operation
					for k := 0; k < 2; k++ {
						if k == 1 && len(walk) == max {
							break
						}
						sys := st.Build()
						bad := c.unroll(sys, func(int) {
							for _, i := range walk {
								exec(q.op(i), sys)
								if k == 1 {
									observe(q.Reads, sys)
								}
							}
						})
						if bad != "" {
							tr := st.Trace("(from here on, over and over:)")
							for _, i := range walk {
								tr = append(tr, q.op(i).Name)
							}
							c.Fail("C28", bad, tr, nil)
						}
					}
				}
			}
			if depth == max || c.Expired() {
				return
			}
			n := all
			if depth > 0 && max > 1 {
				n = len(q.Ops)
			}
			for i := 0; i < n; i++ {
				walk = append(walk, int32(i))
				rec(depth + 1)
				walk = walk[:len(walk)-1]
			}
		}
		rec(0)
		if globalsChanged() {
			putGlobals()
		}
	}
}

func storeTasks(tier string) []Task {
	quick := tier != "thorough"
	var ts []Task
	add := func(name string, walk int, mk func(c *Ctx) *Seq) {
		ts = append(ts, Task{Name: name, Run: func(c *Ctx) {
			q := mk(c)
			q = relaxedModel(q)
			q.Hook = storeHook(walk)
			q.Run(c)
		}})
	}
	n2, n3 := Pick2(quick, 2, 3), Pick2(quick, 3, 4)
	for n := uint64(1); n <= 3; n++ {
		n := n
		add(fmt.Sprintf("idx-%d", n), Pick2(n == 1 || n == 2 && !quick, 3, 2), func(c *Ctx) *Seq {
			q := idxSpec(n, []string{"a"}, false)
			q.Ops = nil
			for id := uint64(0); id < n; id++ {
				q.Ops = append(q.Ops, idxClaim(id, "a"), idxUpdate(id, "b"), idxRelease(id), idxClaimRange(0, id+1, "c"), idxClaimSize(id+1, "d"))
			}
			q.Ops = append(q.Ops, idxClaimDynamic("e"), idxClaim(n, "a"), idxClaimRange(n-1, 2, "a"))
			if n == 3 && quick {
				q.Depth = 2
			}
			return q
		})
	}
	for _, w := range widths {
		w := w
		W := uint8(w)
		add(fmt.Sprintf("tab%d", w), n2, func(c *Ctx) *Seq {
			return tabSeq(w, 5, 6, []uint64{4, 5, 6}, []string{"-", "a=1"}, selectors[:4])
		})
		add(fmt.Sprintf("gt%d", w), 2, func(c *Ctx) *Seq {
			q := gtCfg{w: w, n: 2, ps: append(inTree(w, 2), pfx{0, 0}), labs: []string{"a=1"}, ranges: []string{"0-3", "1-2", "0-9"}[Pick(c, 1, 0):], sels: selectors[1:Pick(c, 2, 4)], rel: true, depth: Pick(c, 2, 3)}.seq()
			q.Name += "releases"
			return q
		})
		add(fmt.Sprintf("gt%d small", w), n3, func(c *Ctx) *Seq {
			q := gtCfg{w: w, n: 1, ps: inTree(w, 1), labs: []string{"a=1"}, ranges: []string{"0-1"}, sels: selectors[1:2], rel: true, depth: Pick(c, 2, 3)}.seq()
			q.Name += "releases, longer"
			return q
		})
		add(fmt.Sprintf("gen%d", w), n2, func(c *Ctx) *Seq {
			q := genSeq(w, "prefixes of length 0-2", top(w, 2), Pick(c, 4, 5))
			return q
		})
		add(fmt.Sprintf("gen%d low", w), n3, func(c *Ctx) *Seq {
			return genSeq(w, "the lowest bit of a pattern", []pfx{{0, W - 1}, {0, W}, {1, W}, {2, W}}, 4)
		})
		add(fmt.Sprintf("gen%d values", w), n2, func(c *Ctx) *Seq {
			q := genSeq(w, "several values", nil, Pick(c, 2, 3))
			q.Ops = multiOps(w, []pfx{{0, 0}, {0, W}, {1, W}}, 2)
			return q
		})
		add(fmt.Sprintf("gen%d clones", w), n2, func(c *Ctx) *Seq { return genCloneSeq(w, "two siblings", []pfx{{0, W}, {1, W}, {0, W - 1}}, 3) })
		ts = append(ts, Task{Name: fmt.Sprintf("sets%d", w), Run: func(c *Ctx) { storeSets(c, w) }})
		ts = append(ts, Task{Name: fmt.Sprintf("long%d", w), Run: func(c *Ctx) { storeLong(c, w) }})
	}
	for _, r := range [][2]string{{"10.0.0.255", "10.0.1.0"}, {"2001:db8::ffff", "2001:db8::1:0"}} {
		r := r
		add("ip-"+r[0], 2, func(c *Ctx) *Seq {
			q := ipSeq(r[0], r[1], 0, false, false)
			var ops []*Op
			f := netip.MustParseAddr(r[0])
			for _, a := range []netip.Addr{f, f.Next(), f.Prev()} {
				ops = append(ops, ipClaim(a.String(), "10.9.0.0/24 a=1 x"), ipUpdate(a.String(), "10.7.0.0/24 a=1,u=1"), ipRelease(a.String()))
			}
			q.Ops = ops
			return q
		})
	}
	return ts
}

// relaxedModel explores by model state only; what an operation answers is other properties' business.
func relaxedModel(q *Seq) *Seq {
	r := *q
	r.Holds, r.ByModel = nil, true
	return &r
}

// storeSets: any list of builder operations made again and again, with a set built after each round.
func storeSets(c *Ctx, w int) {
	a := apiOf(w)
	W := uint8(w)
	m := maxOf(w)
	if !c.Begin(fmt.Sprintf("id set builder of %d bits", w)) {
		return
	}
	for _, al := range [][]setStep{
		a.setAlphabet([]uint64{0, 2, 5, 9}, []pfx{{4, W - 2}, {8, W}}, 0, true),
		a.setAlphabet([]uint64{m - 9, m - 4, m}, []pfx{{m - 3, W - 2}}, 0, false),
	} {
		var seq []int
		var rec func(depth int)
		rec = func(depth int) {
			if depth > 0 {
				for _, free := range []bool{false, true} {
					if c.Expired() {
						return
					}
					restoreGlobals()
					b := a.builder()
					bad := c.unroll(b, func(int) {
						for _, k := range seq {
							al[k].do(b)
						}
						if s, err := a.build(b); err == nil && s != nil && free {
							a.free(s, W-1)
						}
					})
					c.R.Traces++
					if bad != "" {
						tr := []string{fmt.Sprintf("builder of %d bits", w), "(over and over:)"}
						for _, k := range seq {
							tr = append(tr, al[k].name)
						}
						c.Fail("C28", bad, append(tr, "build"), nil)
					}
				}
			}
			if depth == Pick(c, 2, 3) {
				return
			}
			for i := range al {
				seq = append(seq, i)
				rec(depth + 1)
				seq = seq[:len(seq)-1]
			}
		}
		rec(0)
	}
	c.Note("%d bits: every list of %d builder operations", w, Pick(c, 2, 3))
}

// storeLong: many different ids, one after another, a few or all at a time.
func storeLong(c *Ctx, w int) {
	W := uint8(w)
	m := maxOf(w)
	type obj struct {
		name string
		q    *Seq
		mk   func(id uint64) (claim, update, release *Op)
		ids  []func(i int) uint64
	}
	spread := []func(i int) uint64{
		func(i int) uint64 { return uint64(i) & m },
		func(i int) uint64 { return (m - uint64(i)*uint64(m/5000)) & m },
		func(i int) uint64 { return (uint64(i) * 0x9E3779B97F4A7C15) >> (64 - w) },
	}
	few := []func(i int) uint64{func(i int) uint64 { return uint64(i) % 64 }, func(i int) uint64 { return 63 - uint64(i*37)%64 }}
	several := func(ops ...*Op) *Op {
		var ns []string
		for _, o := range ops {
			ns = append(ns, o.Name)
		}
		return &Op{Name: strings.Join(ns, ", "), Do: func(sys any) Out {
			for _, o := range ops {
				o.Do(sys)
			}
			return Out{}
		}}
	}
	noop := &Op{Name: "-", Do: func(any) Out { return Out{} }}
	objs := []obj{
		{"generic tree", genSeq(w, "", nil, 0), func(id uint64) (*Op, *Op, *Op) {
			p := pfx{id, W}
			return genSet(w, p, 1), genAdd(w, p, 2, mNil), genDel(w, p, 1, mAll, false)
		}, spread},
		{"generic tree, prefixes", genSeq(w, "", nil, 0), func(id uint64) (*Op, *Op, *Op) {
			l := W - uint8(id%7)
			p := pfx{id &^ hostMask(w, l), l}
			return genSet(w, p, 1), genAdd(w, p, 2, mNil), genDel(w, p, 1, mAll, false)
		}, spread},
		{"id tree", gtCfg{w: w, n: W}.seqOf(), func(id uint64) (*Op, *Op, *Op) {
			p := pfx{id, W}
			return gtClaim(w, p, "a=1", false), several(gtClaim(w, p, "b=1", true), gtGet(w, p), gtChildren(w, p), gtParents(w, p)), gtRelease(w, p)
		}, spread},
		{"id tree, by label", gtCfg{w: w, n: W}.seqOf(), func(id uint64) (*Op, *Op, *Op) {
			p := pfx{id, W}
			return gtClaim(w, p, "a=1", false), gtClaim(w, p, fmt.Sprintf("a=1,b=%d", id), true), gtReleaseByLabel(selectors[1])
		}, spread},
		{"id tree, by range", gtCfg{w: w, n: W}.seqOf(), func(id uint64) (*Op, *Op, *Op) {
			id = min(id, m-3)
			l := fmt.Sprintf("b=%d", id)
			r := fmt.Sprintf("%d-%d", id, id+1+id%3)
			p := pfx{id, W}
			return gtClaimRangePlain(r, l), several(gtGet(w, p), gtClaimRangePlain(r+"x", l)), gtReleaseByLabel(selT{l, mustSel(l), func(m map[string]string) bool { return m["b"] == fmt.Sprint(id) }})
		}, spread},
		{"id set builder", &Seq{Name: fmt.Sprintf("id set builder of %d bits", w), New: func() any { return apiOf(w).builder() }}, func(id uint64) (*Op, *Op, *Op) {
			a := apiOf(w)
			step := func(name string, f func(b idBuilder)) *Op {
				return &Op{Name: name + " " + u(id), Do: func(sys any) Out {
					f(sys.(idBuilder))
					s, err := a.build(sys.(idBuilder))
					if err == nil && s != nil {
						s.Ranges()
						s.IDs()
					}
					return Out{}
				}}
			}
			r := iv{min(id, m-3), min(id, m-3) + id%4}
			return step("AddId, build", func(b idBuilder) { b.AddId(a.newID(id, W)) }),
				step("AddRange, RemoveRange, build", func(b idBuilder) {
					b.AddRange(a.mkRange(r, 1))
					b.RemoveRange(a.mkRange(r, 0))
					b.AddId(a.newID(id, W))
				}),
				step("RemoveId, build", func(b idBuilder) { b.RemoveId(a.newID(id, W)) })
		}, spread},
		{"range table", tabSeq(w, 100, 163, nil, nil, nil), func(id uint64) (*Op, *Op, *Op) {
			return tabClaim(100+id, fmt.Sprintf("a=%d", id)), several(tabUpdate(100+id, "b=1"), tabGet(100+id), tabGet(200+id), tabGetByLabel(selectors[1])), tabRelease(100 + id)
		}, few},
	}
	if w == 16 {
		objs = append(objs, obj{"index table", &Seq{Name: "index table of 64", New: newIdx(64)}, func(id uint64) (*Op, *Op, *Op) {
			return idxClaim(id, fmt.Sprint("a", id)), several(idxUpdate(id, "b"), idxGet(id), idxClaimRange(id, 2, "c"), idxFindFreeRange(id, 3)), idxRelease(id)
		}, few})
		f := netip.MustParseAddr("10.0.0.240")
		q := ipSeq("10.0.0.240", "10.0.1.47", 0, false, true)
		objs = append(objs, obj{"IP table", q, func(id uint64) (*Op, *Op, *Op) {
			a := f
			for i := uint64(0); i < id; i++ {
				a = a.Next()
			}
			return ipClaim(a.String(), fmt.Sprintf("10.9.%d.0/24 a=1", id)), ipUpdate(a.String(), "10.7.0.0/24 a=2"), ipRelease(a.String())
		}, few})
	}
	for _, o := range objs {
		for k, at := range o.ids {
			if !c.Begin(fmt.Sprintf("%d bits, %s, ids in order %d", w, o.name, k)) {
				continue
			}
			for _, hold := range []int{0, 1, 3, 17} {
				for _, upd := range []bool{false, true} {
					for _, back := range []bool{false, true} {
						if c.Expired() {
							return
						}
						restoreGlobals()
						sys := o.q.New()
						run := func(op *Op) { exec(op, sys) }
						// hold ids are claimed before the oldest (or, in every group of them, the newest) is released
						bad := c.unroll(sys, func(i int) {
							cl, up, _ := o.mk(at(i))
							if !upd {
								up = noop
							}
							run(cl)
							run(up)
							switch {
							case !back:
								if i >= hold {
									_, _, rel := o.mk(at(i - hold))
									run(rel)
								}
							case i%(hold+1) == hold:
								for j := 0; j <= hold; j++ {
									_, _, rel := o.mk(at(i - j))
									run(rel)
								}
							}
						})
						c.R.Traces++
						if bad != "" {
							cl, up, rel := o.mk(at(0))
							c.Fail("C28", bad, []string{o.q.Name, fmt.Sprintf("(for one id after another, %d at a time, the last first: %v)", hold+1, back), cl.Name, up.Name, rel.Name}, nil)
						}
					}
				}
			}
		}
	}
	c.Note("%d bits: %d kinds of objects", w, len(objs))
}

// seqOf is a tree without an alphabet.
func (g gtCfg) seqOf() *Seq {
	return &Seq{Name: fmt.Sprintf("tree%d of %d bits", g.w, g.n), New: func() any { return mustGT(g.w, g.n) }, Model: gtM{g.w, g.n, map[pfx]string{}}, Key: gtKey}
}

func init() {
	register("C28", storeTasks, "memory is counted as elements of slices, entries of maps and bytes of texts reachable from the object and from package-level variables; captures of functions and pools are not seen")
}
