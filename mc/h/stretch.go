package main

import (
	"fmt"
	"net/netip"
	"strings"
)

// Quiet stretches: everything is read, then N operations follow without a look at the object, then everything is read again, for
// every N up to a bound and next to 2^16 (2^17). Whatever counts operations in a number that wraps, or acts once in so many
// calls, gives itself away at one of these lengths.

// stretchT is an object, a way to bring it to some state, cycles of operations that come back to that state, and the
// operations at the end of the stretch.
type stretchT struct {
	q      *Seq
	init   []*Op
	cycles [][]*Op
	last   []*Op
}

// stretchLens are the numbers of operations in a stretch.
func stretchLens(c *Ctx) []int {
	var ns []int
	for n := 1; n <= Pick(c, 264, 1100); n++ {
		ns = append(ns, n)
	}
	return append(ns, Pick(c, []int{510, 511, 512, 513, 514, 515, 1024, 65536, 65537}, []int{2047, 2048, 2049, 4095, 4096, 4097, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538, 131071, 131072, 131073})...)
}

// runStretch runs all stretches of s. With same, an answer is only compared with the answer at a smaller N in the same
// model state (C24); otherwise answers and contents are compared with the model.
func runStretch(c *Ctx, s stretchT, same bool) {
	q := *s.q
	for ci, cyc := range s.cycles {
		for li, last := range s.last {
			if len(cyc) == 1 && c.Quick() && (ci+li)%3 != 0 {
				continue
			}
			c.runs++
			if c.OnlySub == "" && !c.Mine(c.runs) {
				continue
			}
			var names []string
			for _, op := range cyc {
				names = append(names, op.Name)
			}
			if !c.Begin(fmt.Sprintf("%s: stretches %d.%d of %s, then %s", q.Name, ci, li, strings.Join(names, ", "), last.Name)) {
				continue
			}
			c.stretches(&q, s.init, cyc, last, same)
			if c.Expired() {
				return
			}
		}
	}
	c.Note("%s: stretches of %d kinds", q.Name, len(s.cycles)*len(s.last))
}

func (c *Ctx) stretches(q *Seq, init, cyc []*Op, last *Op, same bool) {
	L := len(cyc)
	type seen struct {
		out string
		obs []string
		n   int
	}
	known := map[string]seen{}
	for _, n := range stretchLens(c) {
		if c.Expired() {
			return
		}
		restoreGlobals()
		sys := q.New()
		m := q.Model
		var tr []string
		trace := func(more ...string) []string {
			t := append([]string{}, tr...)
			t = append(t, "everything is read", fmt.Sprintf("%d operations, over and over:", n-1))
			for _, op := range cyc {
				t = append(t, op.Name)
			}
			return append(append(t, "then "+last.Name), more...)
		}
		// step is true if the answer was right
		bad := ""
		step := func(op *Op) (string, bool) {
			if same {
				o := exec(op, sys)
				c.R.Transitions++
				if o.Panic != "" {
					bad = op.Name + ": " + o.Panic
					return o.S, false
				}
				m2, x := op.Spec(m, o)
				if x != "" {
					bad = op.Name + ": " + x
					return o.S, false
				}
				m = m2
				return outText(o), true
			}
			m2, o, ok := c.step(nil, op, sys, m, func() []string { return trace() })
			m = m2
			return outText(o), ok
		}
		fine := true
		for _, op := range init {
			if _, fine = step(op); !fine {
				return
			}
			tr = append(tr, op.Name)
		}
		crumbLazy(q.Name, trace())
		if same {
			observe(q.Reads, sys)
		} else if !c.readAll(q, sys, m, "", trace) {
			return
		}
		// the answers and models of the first round; as long as the answers repeat, the models do
		outs, ms := make([]string, L), make([]any, L)
		start := q.Key(m)
		on := false
		for i := 0; i < n-1 && fine; i++ {
			k := i % L
			if k == 0 && i > 0 && !on {
				on = q.Key(m) == start
			}
			if on {
				o := exec(cyc[k], sys)
				c.R.Transitions++
				if t := outText(o); t == outs[k] {
					m = ms[k]
					continue
				} else if o.Panic != "" || k < L {
					// asked again of the model in the state before
					on = false
					if o.Panic == "" {
						if m2, x := cyc[k].Spec(m, o); x == "" {
							m = m2
							continue
						} else {
							bad = cyc[k].Name + ": " + x
						}
					} else {
						bad = cyc[k].Name + ": " + o.Panic
					}
					fine = false
					if !same {
						tags, text := splitTag(cyc[k].Tags, bad)
						c.Fail(tags, fmt.Sprintf("%s (the %dth operation)", text, i+1), trace(), nil)
						return
					}
					break
				}
			}
			var o string
			o, fine = step(cyc[k])
			if i < L {
				outs[k], ms[k] = o, m
			}
		}
		tick()
		c.R.Traces++
		if !same {
			if !fine {
				return
			}
			if _, ok := step(last); ok {
				c.readAll(q, sys, m, last.Tags, trace)
			}
			continue
		}
		var now seen
		key := ""
		if fine {
			key = q.Key(m)
			now.n = n
			now.out = outText(exec(last, sys))
			now.obs = observe(q.Reads, sys)
		}
		old, ok := known[key]
		switch {
		case !fine && n <= 2*L+2:
			return // wrong from the start: not a matter of history
		case !fine:
			c.Fail("C24", "after a longer stretch: "+bad, trace(), nil)
		case !ok:
			known[key] = now
		case old.out != now.out:
			c.Fail("C24", fmt.Sprintf("%s answers %s after %d operations, and %s after %d that lead to the same contents", last.Name, old.out, old.n-1, now.out, n-1), trace(), nil)
		default:
			if i := diffAt(old.obs, now.obs); i >= 0 {
				c.Fail("C24", fmt.Sprintf("%s answers %s after %d operations, and %s after %d that lead to the same contents", q.Reads[i].Name, old.obs[i], old.n, now.obs[i], n), trace(q.Reads[i].Name), nil)
			}
		}
	}
}

func idxStretch() stretchT {
	q := idxSpec(4, []string{"a"}, false)
	q.Name = "index table of 4"
	c := func(ops ...*Op) []*Op { return ops }
	return stretchT{q, c(idxClaim(0, "a"), idxClaim(2, "b")), [][]*Op{
		c(idxClaim(1, "x"), idxRelease(1)), c(idxUpdate(0, "x"), idxUpdate(0, "a")), c(idxRelease(0), idxClaim(0, "a")),
		c(idxClaimDynamic("x"), idxRelease(1)), c(idxClaimSize(2, "y"), idxRelease(1), idxRelease(3)), c(idxClaimRange(1, 1, "y"), idxRelease(1)),
		c(idxClaim(0, "x")), c(idxClaimRange(0, 2, "x")), c(idxClaimSize(3, "x")), c(idxUpdate(1, "x")), c(idxRelease(1)), c(idxClaim(4, "x")),
		c(idxGetAll()), c(idxFindFree()), c(idxIterate()), c(idxIterateFree()), c(idxGet(2)), c(idxFindFreeSize(2)),
	}, c(idxClaim(1, "z"), idxRelease(0), idxUpdate(2, "z"), idxClaimDynamic("z"), idxClaimRange(0, 2, "z"), idxClaimSize(2, "z"))}
}

func tabStretch(w int) stretchT {
	s := maxOf(w) - 3
	q := tabSeq(w, s, s+3, tabArgs(w, s, s+3), nil, selectors[:4])
	c := func(ops ...*Op) []*Op { return ops }
	return stretchT{q, c(tabClaim(s, "a=1"), tabClaim(s+2, "b=2")), [][]*Op{
		c(tabClaim(s+1, "x=1"), tabRelease(s+1)), c(tabUpdate(s, "x=1"), tabUpdate(s, "a=1")), c(tabRelease(s), tabClaim(s, "a=1")),
		c(tabClaimFree("a=1"), tabRelease(s+1)), c(tabClaim(s, "x=1")), c(tabClaim(5, "x=1")), c(tabUpdate(s+1, "x=1")), c(tabRelease(s + 1)),
		c(tabGetAll()), c(tabFindFree()), c(tabGet(s + 2)), c(tabGetByLabel(selectors[1])),
	}, c(tabClaim(s+1, "a=1"), tabRelease(s), tabUpdate(s+2, "a=1"), tabClaimFree("a=2"))}
}

func ipStretch(from string) stretchT {
	f := netip.MustParseAddr(from)
	as := []string{f.String(), f.Next().String(), f.Next().Next().String()}
	q := ipSeq(as[0], as[2], 0, false, false)
	c := func(ops ...*Op) []*Op { return ops }
	const r, x = "10.9.0.0/24 a=1", "10.8.0.0/16 a=2,b=2 x"
	return stretchT{q, c(ipClaim(as[0], r), ipClaim(as[2], x)), [][]*Op{
		c(ipClaim(as[1], x), ipRelease(as[1])), c(ipUpdate(as[0], x), ipUpdate(as[0], r)), c(ipRelease(as[0]), ipClaim(as[0], r)),
		c(ipClaim(as[0], x)), c(ipUpdate(as[1], x)), c(ipRelease(as[1])), c(ipGetAll()), c(ipGet(as[2])), c(ipFindFree()), c(ipClaim("x", r)),
	}, c(ipClaim(as[1], r), ipRelease(as[0]), ipUpdate(as[2], r))}
}

func gtStretch(w int) stretchT {
	W := uint8(w)
	ps := []pfx{{0, W}, {1, W}, {2, W - 1}, {0, W - 1}}
	q := gtCfg{w: w, n: 2, name: "", ps: ps, labs: nil, sels: selectors[:4]}.seq()
	c := func(ops ...*Op) []*Op { return ops }
	return stretchT{q, c(gtClaim(w, ps[0], "a=1", false), gtClaim(w, ps[2], "b=2", false)), [][]*Op{
		c(gtClaim(w, ps[1], "x=1", false), gtRelease(w, ps[1])), c(gtClaim(w, ps[0], "x=1", true), gtClaim(w, ps[0], "a=1", true)),
		c(gtRelease(w, ps[0]), gtClaim(w, ps[0], "a=1", false)), c(gtClaim(w, ps[3], "x=1", false), gtRelease(w, ps[3])),
		c(gtReleaseByLabel(selectors[1]), gtClaim(w, ps[0], "a=1", false)), c(gtClaimFree("x=1"), gtRelease(w, ps[1])),
		c(gtClaimRange("0-1", "a=1"), gtRelease(w, ps[3]), gtClaim(w, ps[0], "a=1", false)),
		c(gtClaimRange("3-9", "a=1")), c(gtRelease(w, ps[1])), c(gtClaim(w, pfx{9, W}, "a=1", false)), c(gtReleaseByLabel(selT{"c=5", mustSel("c=5"), func(m map[string]string) bool { return m["c"] == "5" }})),
		c(gtGetAll()), c(gtGet(w, ps[0])), c(gtGetByLabel(selectors[1])), c(gtChildren(w, ps[3])), c(gtParents(w, ps[0])), c(gtSize()),
	}, c(gtClaim(w, ps[1], "a=1", false), gtRelease(w, ps[0]), gtClaim(w, ps[2], "a=1", true), gtClaimFree("a=2"), gtClaimRange("1-1", "r=1"), gtReleaseByLabel(selectors[1]))}
}

func genStretch(w int) stretchT {
	W := uint8(w)
	ps := []pfx{{0, W}, {1, W}, {2, W - 1}, {0, W - 1}}
	q := genSeq(w, "", nil, 0)
	q.Name = fmt.Sprintf("tree of %d bits", w)
	c := func(ops ...*Op) []*Op { return ops }
	return stretchT{q, c(genAdd(w, ps[0], 1, mNil), genAdd(w, ps[0], 2, mNil), genSet(w, ps[2], 3)), [][]*Op{
		c(genSet(w, ps[1], 5), genDel(w, ps[1], 5, mEq, false)), c(genAdd(w, ps[3], 5, mNil), genDel(w, ps[3], 0, mAll, true)),
		c(genAdd(w, ps[0], 7, mNil), genDel(w, ps[0], 7, mEq, false)), c(genSet(w, ps[2], 4), genSet(w, ps[2], 3)),
		c(genDel(w, ps[2], 3, mEq, false), genAdd(w, ps[2], 3, mNil)), c(genDel(w, ps[1], 5, mEq, false)), c(genAdd(w, ps[0], 1, mEq)), c(genIterate(false)),
	}, c(genSet(w, ps[1], 9), genDel(w, ps[0], 1, mEq, false), genAdd(w, ps[2], 9, mNil), genSet(w, ps[0], 9))}
}

// cloneStretch: the stretch is on the original or on the clone, with the other one looked at before and after it.
func cloneStretch(one stretchT, clone func(any) any) stretchT {
	q := cloneSeq("clones of "+one.q.Name, one.q, 0, clone)
	first := func(ops []*Op, second bool) []*Op {
		var r []*Op
		for _, op := range ops {
			x := *op
			x.Tags = "C16"
			spec := op.Spec
			x.Spec = func(m any, o Out) (any, string) {
				m2, bad := spec(m, o)
				_, bad = splitTag("", bad)
				return m2, bad
			}
			r = append(r, pairWrap(&x, second))
		}
		return r
	}
	s := stretchT{q: q, init: append(first(one.init, false), q.Ops[0])}
	for i, cyc := range one.cycles {
		s.cycles = append(s.cycles, first(cyc, i%2 == 1))
	}
	for i := 0; i < 2; i++ {
		s.last = append(s.last, first(one.last[i:i+1], false)...)
		s.last = append(s.last, first(one.last[i:i+1], true)...)
	}
	return s
}

// stretchTask runs the stretches of one kind of object.
func stretchTask(name string, shards int, same bool, mk func() stretchT) Task {
	return Task{Name: name + " stretches", Shards: shards, Run: func(c *Ctx) { runStretch(c, mk(), same) }}
}
