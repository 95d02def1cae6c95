package main

import (
	"fmt"
	"net/netip"
	"strings"

	"github.com/henderiw/idxtable/pkg/iptable"
)

// Properties that compare executions of the implementation with each other. None of them depends on a reference model
// being right about what an operation answers.

// outText is what one operation answered, as far as it can be compared between executions.
func outText(o Out) string {
	if o.Panic != "" {
		if strings.HasPrefix(o.Panic, "panic: ") {
			return "panic"
		}
		return o.Panic
	}
	return o.S
}

// ---- C23: operations that report an error change nothing ----

// relaxed follows every operation that returns, whatever it answers.
func relaxed(q *Seq) *Seq {
	r := *q
	r.Model, r.Key, r.Holds = nil, func(any) string { return "" }, nil
	conv := func(ops []*Op) []*Op {
		out := make([]*Op, len(ops))
		for i, op := range ops {
			x := *op
			x.Tags, x.Basic = "C23", false
			x.Spec = func(m any, o Out) (any, string) { return m, "" }
			out[i] = &x
		}
		return out
	}
	r.Init, r.Ops, r.Reads = conv(q.Init), conv(q.Ops), conv(q.Reads)
	return &r
}

// observe is the vector of everything the readers say.
func observe(reads []*Op, sys any) []string {
	v := make([]string, len(reads))
	for i, op := range reads {
		v[i] = outText(exec(op, sys))
	}
	return v
}

func diffAt(a, b []string) int {
	for i := range a {
		if a[i] != b[i] {
			return i
		}
	}
	return -1
}

// failHook checks every operation that fails in a state.
func failHook(q *Seq) func(c *Ctx, st *SeqState) {
	all := append(append([]*Op{}, q.Ops...), q.Reads...)
	return func(c *Ctx, st *SeqState) {
		var before []string
		var next [][]string
		for _, op := range all {
			sys := st.Build()
			o := exec(op, sys)
			c.R.Transitions++
			tick()
			failed := o.Err || (op.Reader && o.S == "err")
			if o.Panic != "" {
				c.Fail("C23", op.Name+": "+o.Panic, st.Trace(op.Name), nil)
				continue
			}
			if !failed {
				continue
			}
			c.R.Cases++
			if Snap(sys) == st.deep {
				continue // nothing at all has changed
			}
			if before == nil {
				before = observe(q.Reads, st.Build())
				for _, op2 := range q.Ops {
					s := st.Build()
					first := outText(exec(op2, s))
					next = append(next, append([]string{first}, observe(q.Reads, s)...))
				}
			}
			after := observe(q.Reads, sys)
			if i := diffAt(before, after); i >= 0 {
				c.Fail("C23", fmt.Sprintf("%s failed, but %s gives %s instead of %s", op.Name, q.Reads[i].Name, after[i], before[i]), st.Trace(op.Name, q.Reads[i].Name), nil)
				continue
			}
			for j, op2 := range q.Ops {
				s := st.Build()
				exec(op, s)
				first := outText(exec(op2, s))
				got := append([]string{first}, observe(q.Reads, s)...)
				c.R.Transitions += 2
				tick()
				if i := diffAt(next[j], got); i >= 0 {
					what := op2.Name
					if i > 0 {
						what += " then " + q.Reads[i-1].Name
					}
					c.Fail("C23", fmt.Sprintf("%s failed, but %s gives %s instead of %s", op.Name, what, got[i], next[j][i]), st.Trace(op.Name, what), nil)
					break
				}
			}
		}
	}
}

func failSeq(q *Seq) *Seq {
	r := relaxed(q)
	r.Hook = failHook(r)
	return r
}

// ---- C24: behaviour depends on the current claims only ----

// The contents of an object are tracked from what its operations report: a claim that succeeded is there until it is
// released. tracked turns the specification of an operation into that bookkeeping; answers the bookkeeping cannot follow
// end the history.
func tracked(ops []*Op) []*Op {
	out := make([]*Op, len(ops))
	for i, op := range ops {
		op := op
		x := *op
		x.Tags = "-"
		x.Spec = func(m any, o Out) (any, string) {
			m2, bad := op.Spec(m, o)
			if bad == "" {
				return m2, ""
			}
			if o.Err {
				return m, ""
			}
			return m, "the contents cannot be followed"
		}
		out[i] = &x
	}
	return out
}

// histories compares every state with one that has the same contents and was made by claiming just those.
type histories struct {
	q     *Seq // Ops and Reads form the observation
	make  func(m any) []*Op
	refs  map[string]*histRef
	pairs int64
}

type histRef struct {
	v  []string
	tr []string
}

func (h *histories) vector(c *Ctx, build func() any) []string {
	v := make([]string, 0, 2*len(h.q.Ops)+len(h.q.Reads))
	v = append(v, observe(h.q.Reads, build())...)
	for _, op := range h.q.Ops {
		s := build()
		v = append(v, outText(exec(op, s)))
		v = append(v, outText(exec(h.q.Reads[0], s)))
		c.R.Transitions += 2
		tick()
	}
	return v
}

func (h *histories) nameOf(i int) string {
	if i < len(h.q.Reads) {
		return h.q.Reads[i].Name
	}
	i -= len(h.q.Reads)
	if i%2 == 0 {
		return h.q.Ops[i/2].Name
	}
	return h.q.Ops[i/2].Name + ", then " + h.q.Reads[0].Name
}

func (h *histories) compare(c *Ctx, m any, build func() any, trace func(...string) []string) {
	k := h.q.Key(m)
	ref := h.refs[k]
	if ref == nil {
		ref = &histRef{}
		ops := h.make(m)
		mk := func() any {
			restoreGlobals()
			s := h.q.New()
			for _, op := range ops {
				exec(op, s)
			}
			return s
		}
		good := true
		s := h.q.New()
		for _, op := range ops {
			if o := exec(op, s); o.Err || o.Panic != "" {
				good = false
			}
			ref.tr = append(ref.tr, op.Name)
		}
		if good {
			ref.v = h.vector(c, mk)
		} else {
			ref.v, ref.tr = h.vector(c, build), trace()
		}
		h.refs[k] = ref
	}
	v := h.vector(c, build)
	h.pairs++
	c.R.Cases++
	if i := diffAt(ref.v, v); i >= 0 {
		c.Fail("C24", fmt.Sprintf("with the same contents %s gives %s after one history and %s after another (%s)", h.nameOf(i), ref.v[i], v[i], strings.Join(ref.tr, ", ")), trace(h.nameOf(i)), nil)
	}
}

func newHistories(q *Seq, make func(m any) []*Op) *histories {
	h := &histories{q: q, make: make, refs: map[string]*histRef{}}
	return h
}

// histSeq explores every history up to a depth.
func histSeq(c *Ctx, q *Seq, mk func(m any) []*Op) {
	h := newHistories(q, mk)
	r := *q
	r.Ops, r.Reads, r.Holds, r.Init = tracked(q.Ops), nil, nil, nil
	r.Hook = func(c *Ctx, st *SeqState) { h.compare(c, st.model, st.Build, st.Trace) }
	r.Run(c)
	c.Note("%s: %d states over %d different contents compared", q.Name, h.pairs, len(h.refs))
}

// histScripts follows long histories and compares at every step listed by at.
func histScripts(c *Ctx, q *Seq, mk func(m any) []*Op, scripts func(yield func(ops []*Op, at func(i int) bool) bool)) {
	if !c.Begin(q.Name) {
		return
	}
	h := newHistories(q, mk)
	scripts(func(ops []*Op, at func(i int) bool) bool {
		if c.Expired() {
			return false
		}
		restoreGlobals()
		ops = tracked(ops)
		sys, m := q.New(), q.Model
		var tr []string
		for i, op := range ops {
			tr = append(tr, op.Name)
			var ok bool
			if m, _, ok = c.step(nil, op, sys, m, func() []string { return tr }); !ok {
				return true
			}
			if at(i) {
				h.compare(c, m, func() any {
					restoreGlobals()
					s := q.New()
					for _, p := range ops[:i+1] {
						exec(p, s)
					}
					return s
				}, func(a ...string) []string { return append(append([]string{}, tr...), a...) })
			}
		}
		c.R.Traces++
		return true
	})
	c.Note("%s: %d points in long histories over %d different contents compared", q.Name, h.pairs, len(h.refs))
}

// fillCycles yields histories that fill and empty an object several times in different orders. claim and release give the
// operation for the k-th of n items.
func fillCycles(n int, rounds int, claim, release func(k int) *Op, extra ...*Op) func(yield func([]*Op, func(int) bool) bool) {
	return func(yield func([]*Op, func(int) bool) bool) {
		ord := orders(n)
		for i, up := range ord {
			for j, down := range ord {
				var ops []*Op
				points := map[int]bool{}
				mark := func() { points[len(ops)-1] = true }
				for r := 0; r < rounds; r++ {
					up, down := up, down
					if r%2 == 1 {
						up, down = ord[(i+r)%len(ord)], ord[(j+2*r)%len(ord)]
					}
					for x, k := range up.f {
						ops = append(ops, claim(k))
						if x == n/2 || x == n-1 {
							mark()
						}
					}
					ops = append(ops, extra...)
					mark()
					for x, k := range down.f {
						ops = append(ops, release(k))
						if x == n/3 || x == n/2 || x >= n-2 {
							mark()
						}
					}
				}
				if !yield(ops, func(i int) bool { return points[i] }) {
					return
				}
			}
		}
	}
}

func idxMake(x any) []*Op {
	m := x.(idxM)
	var ops []*Op
	for _, id := range m.ids() {
		ops = append(ops, idxClaim(id, m.e[id]))
	}
	return ops
}

func tabMake(x any) []*Op {
	m := x.(tabM)
	var ops []*Op
	for _, id := range m.ids() {
		ops = append(ops, tabClaim(id, labelText(m.e[id])))
	}
	return ops
}

// labelText turns a canonical rendering back into the notation of operations.
func labelText(c string) string {
	if c == "{}" {
		return c
	}
	return c[1 : len(c)-1]
}

func ipMake(x any) []*Op {
	m := x.(ipM)
	var ops []*Op
	for _, a := range m.addrs() {
		r := m.e[a]
		i := strings.IndexByte(r, '{')
		ops = append(ops, ipClaim(a.String(), r[:i]+" "+labelText(r[i:])))
	}
	return ops
}

func gtMake(x any) []*Op {
	m := x.(gtM)
	var ops []*Op
	for _, p := range m.order() {
		ops = append(ops, gtClaim(m.w, p, labelText(m.e[p]), false))
	}
	return ops
}

func genMake(x any) []*Op {
	m := x.(genM)
	var ops []*Op
	for _, p := range m.order() {
		for _, v := range m.e[p] {
			ops = append(ops, genAdd(m.w, p, v, mNil))
		}
	}
	return ops
}

// listFirst moves the reader with the given name to the front: it is also asked after every operation.
func listFirst(q *Seq, name string) *Seq {
	r := *q
	r.Reads = nil
	for _, op := range q.Reads {
		if op.Name == name {
			r.Reads = append(r.Reads, op)
		}
	}
	if len(r.Reads) != 1 {
		panic("no reader " + name)
	}
	for _, op := range q.Reads {
		if op.Name != name {
			r.Reads = append(r.Reads, op)
		}
	}
	return &r
}

// relSeqs are the objects both properties are checked on.
type relSeq struct {
	name string
	q    func(c *Ctx) *Seq
	mk   func(m any) []*Op
	list string // the listing reader
}

func relSeqs(quick bool) []relSeq {
	var rs []relSeq
	add := func(name string, mk func(any) []*Op, list string, q func(c *Ctx) *Seq) {
		rs = append(rs, relSeq{name, q, mk, list})
	}
	for n := uint64(1); n <= Pick2(quick, uint64(6), uint64(8)); n++ {
		n := n
		add(fmt.Sprintf("idx-%d", n), idxMake, "GetAll()", func(c *Ctx) *Seq {
			data := []string{"a", "b"}
			if n >= 5 {
				data = data[:1]
			}
			return idxSpec(n, data, n <= 4)
		})
	}
	for _, w := range widths {
		w := w
		W := uint8(w)
		m := maxOf(w)
		for _, r := range []rng{{0, 0}, {0, 2}, {7, 9}, {m - 2, m}, {m/2 - 1, m/2 + 2}} {
			r := r
			add(fmt.Sprintf("tab%d-%s-%s", w, u(r.start), u(r.end)), tabMake, "GetAll()", func(c *Ctx) *Seq {
				return tabSeq(w, r.start, r.end, tabArgs(w, r.start, r.end), []string{"-", "a=1", "a=2,b=2"}[:Pick2(r.end-r.start < 2 || !quick, 3, 2)], selectors[:3])
			})
		}
		add(fmt.Sprintf("tab%d-whole", w), tabMake, "GetAll()", func(c *Ctx) *Seq {
			q := tabSeq(w, 0, m, []uint64{0, 1, m / 2, m - 1, m}, []string{"-", "a=1"}, selectors[1:3])
			q.Name = "whole " + q.Name
			q.Depth = 2
			return q
		})
		bad := []pfx{{0, W + 1}, {1, W + 1}, {0, 255}, {maxOf(w), W}, {1 << (w - 1), 1}, {5, W}}
		cfg := func(name string, g gtCfg) {
			g.w, g.name = w, name
			add(fmt.Sprintf("gt%d-%d %s", w, g.n, name), gtMake, "GetAll()", func(c *Ctx) *Seq { return g.seq() })
		}
		cfg("everything", gtCfg{n: 1, ps: append(inTree(w, 1), pfx{0, 0}), extra: bad, labs: []string{"a=1", "a=2,b=2"}, ranges: append([]string{"0-0", "0-1", "1-1", "1-0", "0-2", "2-2"}, badRanges...), sels: selectors[:4], depth: Pick2(quick, 4, 5), rel: true})
		cfg("claims, releases and ranges", gtCfg{n: 2, ps: inTree(w, 2), extra: bad[:1], labs: []string{"a=1"}, ranges: []string{"0-3", "1-2", "1-3", "3-1", "2-4"}, sels: selectors[1:3], depth: Pick2(quick, 4, 5), rel: true})
		cfg("nested", gtCfg{n: W, ps: chain(w, m/3, []int{0, 1, w / 2, w}), extra: bad[:3], labs: []string{"a=1"}, ranges: []string{fmt.Sprintf("1-%d", m-1), "0-255"}, sels: selectors[1:2], depth: Pick2(quick, 3, 4)})
	}
	for _, r := range [][2]string{{"10.0.0.1", "10.0.0.3"}, {"255.255.255.254", "255.255.255.255"}, {"::", "::1"}, {"2001:db8::ffff:ffff:ffff:ffff", "2001:db8:0:1::"}, {"0.0.0.0", "0.0.0.0"}} {
		r := r
		add("ip-"+r[0]+"-"+r[1], ipMake, "GetAll()", func(c *Ctx) *Seq { return ipSeq(r[0], r[1], 0, false, false) })
	}
	for _, r := range [][2]string{{"10.0.0.0", "10.255.255.255"}, {"2001:db8::", "2001:db8::ffff:ffff:ffff:ffff"}} {
		r := r
		add("ip-wide-"+r[0], ipMake, "GetAll()", func(c *Ctx) *Seq { return ipSeq(r[0], r[1], 2, false, true) })
	}
	return rs
}

func failTasks(tier string) []Task {
	quick := tier != "thorough"
	var ts []Task
	for _, r := range relSeqs(quick) {
		r := r
		ts = append(ts, Task{Name: r.name, Run: func(c *Ctx) { failSeq(r.q(c)).Run(c) }})
	}
	ts = append(ts, Task{Name: "idx-0", Run: func(c *Ctx) { q := failSeq(idxSpec(0, []string{"a"}, true)); q.Depth = 2; q.Run(c) }})
	ts = append(ts, Task{Name: "nearly full", Run: func(c *Ctx) { failFull(c) }})
	for _, w := range []int{0, 16, 32, 64} {
		w := w
		ts = append(ts, Task{Name: fmt.Sprintf("large%d", w), Shards: Pick2(w == 0, 4, 1), Run: func(c *Ctx) { failLarge(c, w) }})
	}
	return ts
}

// failFull: objects too large to explore completely, filled except for every choice of at most two holes; every failing
// operation is checked there.
func failFull(c *Ctx) {
	n := Pick(c, 7, 10)
	run := func(q *Seq, claim func(k int) *Op) {
		q = relaxed(q)
		if !c.Begin(q.Name) {
			return
		}
		hook := failHook(q)
		for a := 0; a <= n; a++ {
			for b := a; b <= n; b++ {
				if c.Expired() {
					return
				}
				r := *q
				for k := 0; k < n; k++ {
					if k != a && k != b {
						r.Init = append(r.Init, claim(k))
					}
				}
				st := &SeqState{spec: &r}
				sys := st.Build()
				st.deep = Snap(sys)
				c.R.States++
				hook(c, st)
			}
		}
		c.Note("%s: every choice of at most two holes", q.Name)
	}
	q := idxSpec(uint64(n), []string{"a"}, false)
	q.Name = fmt.Sprintf("nearly full index table of %d", n)
	run(q, func(k int) *Op { return idxClaim(uint64(k), "b") })
	for _, w := range widths {
		lo := uint64(100)
		q := tabSeq(w, lo, lo+uint64(n)-1, tabArgs(w, lo, lo+uint64(n)-1), []string{"a=1"}, selectors[:3])
		q.Name = fmt.Sprintf("nearly full table%d", w)
		run(q, func(k int) *Op { return tabClaim(lo+uint64(k), "b=1") })
		W := uint8(w)
		g := gtCfg{w: w, n: 3, ps: inTree(w, 3), labs: []string{"a=1"}, ranges: append([]string{"0-8", "7-8", "5-4", "8-9"}, badRanges...), sels: selectors[:2], extra: []pfx{{8, W}, {0, W + 1}}}
		q = g.seq()
		q.Name = fmt.Sprintf("nearly full tree%d", w)
		run(q, func(k int) *Op { return gtClaim(w, pfx{uint64(k), W}, "b=1", false) })
	}
	q = ipSeq("10.0.0.250", netip.MustParseAddr("10.0.0.250").String(), 0, false, false)
	f := netip.MustParseAddr("10.0.0.250")
	as := []netip.Addr{f}
	for len(as) < n {
		as = append(as, as[len(as)-1].Next())
	}
	q = ipSeq(f.String(), as[n-1].String(), 0, false, false)
	q.Name = "nearly full " + q.Name
	run(q, func(k int) *Op { return ipClaim(as[k].String(), "10.1.0.0/24 b=1") })
}

func histTasks(tier string) []Task {
	quick := tier != "thorough"
	var ts []Task
	for _, r := range relSeqs(quick) {
		r := r
		ts = append(ts, Task{Name: r.name, Run: func(c *Ctx) { histSeq(c, listFirst(r.q(c), r.list), r.mk) }})
	}
	for _, w := range widths {
		w := w
		type uni struct {
			name string
			ps   []pfx
			d    int
		}
		for _, x := range []uni{
			{"prefixes of length 0-2", top(w, 2), Pick2(quick, 4, 6)},
			{"the lowest 2 bits", low(w, maxU, 2), Pick2(quick, 4, 6)},
			{"a chain of lengths", chain(w, maxU/3, []int{0, 1, w / 2, w - 1, w}), Pick2(quick, 3, 4)},
		} {
			x := x
			ts = append(ts, Task{Name: fmt.Sprintf("gen%d %s", w, x.name), Run: func(c *Ctx) {
				histSeq(c, listFirst(genSeq(w, x.name, x.ps, x.d), "Iterate()"), genMake)
			}})
		}
		ts = append(ts, Task{Name: fmt.Sprintf("gen%d several values", w), Run: func(c *Ctx) {
			q := genSeq(w, "several values", nil, Pick(c, 3, 4))
			q.Ops = multiOps(w, []pfx{{0, 0}, {1 << (w - 1), 2}}, 2)
			histSeq(c, listFirst(q, "Iterate()"), genMake)
		}})
		ts = append(ts, Task{Name: fmt.Sprintf("long%d", w), Run: func(c *Ctx) { longHistories(c, w) }})
	}
	ts = append(ts, Task{Name: "long", Run: func(c *Ctx) { longHistories(c, 0) }})
	ts = append(ts, stretchTask("idx", 1, true, idxStretch))
	for _, w := range widths {
		ts = append(ts, stretchTask(fmt.Sprintf("tab%d", w), 1, true, func() stretchT { return tabStretch(w) }),
			stretchTask(fmt.Sprintf("gt%d", w), 2, true, func() stretchT { return gtStretch(w) }),
			stretchTask(fmt.Sprintf("gen%d", w), 1, true, func() stretchT { return genStretch(w) }))
	}
	for _, from := range []string{"10.0.0.255", "2001:db8::ffff"} {
		ts = append(ts, stretchTask("ip-"+from, 1, true, func() stretchT { return ipStretch(from) }))
	}
	return ts
}

// longHistories fills and empties larger objects several times.
func longHistories(c *Ctx, w int) {
	rounds := Pick(c, 2, 4)
	if w == 0 {
		for _, n := range Pick(c, []uint64{9}, []uint64{9, 16, 33}) {
			q := listFirst(idxSpec(n, []string{"a"}, false), "GetAll()")
			q.Name = fmt.Sprintf("long histories of an index table of %d", n)
			histScripts(c, q, idxMake, fillCycles(int(n), rounds, func(k int) *Op {
				if k%3 == 2 {
					return idxClaimDynamic("a")
				}
				return idxClaim(uint64(k), []string{"a", "b"}[k%2])
			}, func(k int) *Op { return idxRelease(uint64(k)) }, idxClaimSize(2, "c"), idxClaimRange(n/2, 3, "d"), idxClaimDynamic("e")))
		}
		for _, from := range []string{"10.0.0.250", "2001:db8::fffc"} {
			n := Pick(c, 7, 12)
			as := []netip.Addr{netip.MustParseAddr(from)}
			for len(as) < n {
				as = append(as, as[len(as)-1].Next())
			}
			f, t := as[0], as[n-1]
			q := listFirst(ipSeq(from, t.String(), 0, false, false), "GetAll()")
			q.Name = "long histories of " + q.Name
			q.New = func() any { return iptable.New(f, t) }
			histScripts(c, q, ipMake, fillCycles(n, rounds, func(k int) *Op {
				return ipClaim(as[k].String(), fmt.Sprintf("10.%d.0.0/16 a=%d", k%3, k%2))
			}, func(k int) *Op { return ipRelease(as[k].String()) }))
		}
		return
	}
	W := uint8(w)
	n := Pick(c, uint64(8), uint64(14))
	for _, start := range []uint64{0, 1000, maxOf(w) - n + 1} {
		q := listFirst(tabSeq(w, start, start+n-1, tabArgs(w, start, start+n-1), []string{"a=1"}, selectors[1:3]), "GetAll()")
		q.Name = "long histories of " + q.Name
		histScripts(c, q, tabMake, fillCycles(int(n), rounds, func(k int) *Op {
			if k%3 == 2 {
				return tabClaimFree("f=1")
			}
			return tabClaim(start+uint64(k), fmt.Sprintf("a=%d", k%2))
		}, func(k int) *Op { return tabRelease(start + uint64(k)) }, tabClaimFree("g=1"), tabClaimFree("g=2")))
	}
	{
		bits := Pick(c, uint8(3), uint8(4))
		ps := inTree(w, bits)
		q := listFirst(gtCfg{w: w, n: bits, ps: ps, labs: []string{"a=1"}, ranges: []string{"0-5", "1-6"}, sels: selectors[1:3], rel: true}.seq(), "GetAll()")
		q.Name = fmt.Sprintf("long histories of tree%d of %d bits", w, bits)
		histScripts(c, q, gtMake, fillCycles(len(ps), rounds, func(k int) *Op { return gtClaim(w, ps[k], fmt.Sprintf("a=%d", k%2), false) },
			func(k int) *Op { return gtRelease(w, ps[k]) }, gtReleaseByLabel(selectors[1]), gtClaimFree("f=1"), gtClaimRange("1-2", "r=1")))
		q = listFirst(gtCfg{w: w, n: W, ps: append([]pfx{{0, W}, {maxOf(w), W}}, ps[:5]...), labs: []string{"a=1"}, ranges: []string{"0-5"}, sels: selectors[1:3], rel: true}.seq(), "GetAll()")
		q.Name = fmt.Sprintf("long histories of the whole tree%d", w)
		many := append(chain(w, maxU/5, []int{0, 1, 2, 3, w / 2, w/2 + 1, w - 2, w - 1, w}), low(w, maxU/3, 2)...)
		histScripts(c, q, gtMake, fillCycles(len(many), rounds, func(k int) *Op { return gtClaim(w, many[k], fmt.Sprintf("a=%d", k%2), false) },
			func(k int) *Op { return gtRelease(w, many[k]) }, gtClaimFree("f=1"), gtClaimRange("100-1000", "r=1")))
	}
	{
		ps := append(top(w, 3), low(w, maxU/3, 3)...)
		q := listFirst(genSeq(w, "x", ps, 0), "Iterate()")
		q.Name = fmt.Sprintf("long histories of a tree of %d bits", w)
		histScripts(c, q, genMake, fillCycles(len(ps), rounds, func(k int) *Op { return genAdd(w, ps[k], 10*k+1, mNil) },
			func(k int) *Op { return genDel(w, ps[k], 10*k+1, mEq, k%2 == 0) }))
	}
}

// ---- C22: the three widths side by side ----

type sys3 struct{ s [3]any }

// relength rewrites every id/length so that it names the number of bits the prefix leaves open.
func relength(s string, w int) string {
	i := strings.IndexByte(s, '/')
	if i < 0 {
		return s
	}
	var b strings.Builder
	for {
		j := i + 1
		for j < len(s) && s[j] >= '0' && s[j] <= '9' {
			j++
		}
		b.WriteString(s[:i])
		var l int
		if _, err := fmt.Sscan(s[i+1:j], &l); err != nil {
			b.WriteString(s[i:j])
		} else {
			fmt.Fprintf(&b, "^%d", w-l)
		}
		s = s[j:]
		if i = strings.IndexByte(s, '/'); i < 0 {
			b.WriteString(s)
			return b.String()
		}
	}
}

// zip puts the same operation on the three widths together.
func zip(ops [3]*Op) *Op {
	name := relength(ops[0].Name, widths[0])
	for k := range ops {
		if n := relength(ops[k].Name, widths[k]); n != name {
			panic("alphabets differ: " + name + " and " + n)
		}
	}
	join := func(r [3]string) string {
		if r[0] == r[1] && r[1] == r[2] {
			return r[0]
		}
		return fmt.Sprintf("\x00on 16 bits %s, on 32 bits %s, on 64 bits %s", r[0], r[1], r[2])
	}
	x := &Op{Name: name, Tags: "C22", Reader: ops[0].Reader}
	x.Do = func(s any) Out {
		var r [3]string
		for k, op := range ops {
			r[k] = relength(outText(exec(op, s.(*sys3).s[k])), widths[k])
		}
		return Out{S: join(r)}
	}
	if ops[0].Take != nil {
		x.Take = func(s any) func() string {
			var f [3]func() string
			for k, op := range ops {
				f[k] = func() string { return "panic" }
				exec(&Op{Name: op.Name, Do: func(y any) Out { f[k] = op.Take(y); return Out{} }}, s.(*sys3).s[k])
			}
			return func() string {
				var r [3]string
				for k := range ops {
					o := exec(&Op{Name: ops[k].Name, Do: func(any) Out { return Out{S: f[k]()} }}, nil)
					r[k] = relength(outText(o), widths[k])
				}
				return join(r)
			}
		}
	}
	x.Spec = func(m any, o Out) (any, string) {
		if strings.HasPrefix(o.S, "\x00") {
			return m, o.S[1:]
		}
		return m, ""
	}
	return x
}

func zipSeq(name string, mk func(w int) *Seq) *Seq {
	var qs [3]*Seq
	for k, w := range widths {
		qs[k] = mk(w)
	}
	q := &Seq{Name: name, Depth: qs[0].Depth, Key: func(any) string { return "" },
		New: func() any {
			s := &sys3{}
			for k := range s.s {
				s.s[k] = qs[k].New()
			}
			return s
		}}
	pick := func(f func(q *Seq) []*Op) []*Op {
		var out []*Op
		for i := range f(qs[0]) {
			out = append(out, zip([3]*Op{f(qs[0])[i], f(qs[1])[i], f(qs[2])[i]}))
		}
		return out
	}
	q.Ops = pick(func(q *Seq) []*Op { return q.Ops })
	q.Reads = pick(func(q *Seq) []*Op { return q.Reads })
	q.Holds = pick(func(q *Seq) []*Op { return q.Holds })
	return q
}

// open gives the prefix that leaves k bits open.
func open(w int, id uint64, k int) pfx { return pfx{id, uint8(w - k)} }

func sharedTasks(tier string) []Task {
	quick := tier != "thorough"
	var ts []Task
	add := func(name string, mk func(w int) *Seq) {
		ts = append(ts, Task{Name: name, Run: func(c *Ctx) { zipSeq(name, mk).Run(c) }})
	}
	for _, r := range []rng{{0, 0}, {0, 2}, {5, 7}, {65533, 65535}, {65535, 65535}, {32767, 32769}, {254, 256}} {
		r := r
		add(fmt.Sprintf("tables [%d,%d]", r.start, r.end), func(w int) *Seq {
			var args []uint64
			for id := r.start; id <= r.end; id++ {
				args = append(args, id)
			}
			for _, x := range []uint64{r.start - 1, r.end + 1, 0, 1, r.end - r.start + 1, r.start ^ 256, 65535, 32768} {
				if (x < r.start || x > r.end) && x <= 65535 {
					args = append(args, x)
				}
			}
			return tabSeq(w, r.start, r.end, dedup(args), []string{"-", "a=1", "a=2,b=2"}[:Pick2(quick && r.end > r.start, 2, 3)], selectors)
		})
	}
	for _, r := range []rng{{0, 65535}, {1, 65535}, {0, 65534}, {100, 400}} {
		r := r
		add(fmt.Sprintf("wide tables [%d,%d]", r.start, r.end), func(w int) *Seq {
			mid := (r.start + r.end) / 2
			q := tabSeq(w, r.start, r.end, dedup([]uint64{r.start, r.start + 1, mid, r.end - 1, r.end, 0, 65535}), []string{"-", "a=1"}, selectors[1:4])
			q.Depth = 2
			return q
		})
	}
	ts = append(ts, Task{Name: "tables, long histories", Run: sharedLong})
	gtc := func(name string, g func(w int) gtCfg) {
		add("id trees, "+name, func(w int) *Seq {
			x := g(w)
			x.w, x.name = w, name
			return x.seq()
		})
	}
	for _, n := range []uint8{0, 1, 2} {
		n := n
		gtc(fmt.Sprintf("%d bits, everything", n), func(w int) gtCfg {
			W := uint8(w)
			m := uint64(1) << n
			out := append([]string{fmt.Sprintf("0-%d", m), fmt.Sprintf("%d-%d", m, m), fmt.Sprintf("%d-%d", m-1, m), "0-65535", "65535-65535", fmt.Sprintf("%d-0", m)}, badRanges...)
			return gtCfg{n: n, ps: append(inTree(w, n), open(w, 0, int(n)+1), open(w, 0, 16)), extra: []pfx{{m, W}, open(w, 65535, 0), open(w, 32768, 15), {0, W + 1}, {m, W + 1}},
				labs: []string{"a=1", "a=2,b=2"}, ranges: append(allRanges(0, m-1), out...), sels: selectors, depth: Pick2(quick, []int{3, 3, 2}, []int{5, 4, 3})[n], rel: true}
		})
	}
	gtc("2 bits, claims, releases and ranges", func(w int) gtCfg {
		return gtCfg{n: 2, ps: inTree(w, 2), labs: []string{"a=1"}, ranges: []string{"0-3", "1-2", "1-3", "0-2", "2-3"}, sels: selectors[1:3], depth: Pick2(quick, 3, 5), rel: true}
	})
	gtc("3 bits, every range", func(w int) gtCfg {
		return gtCfg{n: 3, ps: inTree(w, 3)[:7], labs: []string{"a=1"}, ranges: allRanges(0, 7), sels: selectors[1:2], depth: 2}
	})
	gtc("4 bits, every range", func(w int) gtCfg {
		return gtCfg{n: 4, ps: inTree(w, 4)[:3], labs: []string{"a=1"}, ranges: allRanges(0, 15), sels: selectors[1:2], depth: Pick2(quick, 1, 2)}
	})
	for _, n := range []uint8{15, 16} {
		n := n
		gtc(fmt.Sprintf("%d bits, both ends", n), func(w int) gtCfg {
			W := uint8(w)
			m := uint64(1)<<n - 1
			return gtCfg{n: n, ps: []pfx{open(w, 0, 16), open(w, 0, 15), open(w, 0, 1), {0, W}, {1, W}, open(w, m-1, 1), {m, W}, open(w, (m+1)/2, int(n)-1)},
				extra: []pfx{{0, W + 1}, {65535, W}}, labs: []string{"a=1"},
				ranges: []string{fmt.Sprintf("0-%d", m), fmt.Sprintf("1-%d", m-1), fmt.Sprintf("%d-%d", m, m), fmt.Sprintf("%d-%d", m/2, m/2+1), "0-0", fmt.Sprintf("%d-%d", m, m-1), "0-255", "256-1000"},
				sels:   selectors[:3], depth: Pick2(quick, 2, 3), rel: true}
		})
	}
	for _, n := range []int{2, 3} {
		n := n
		add(fmt.Sprintf("generic trees, prefixes leaving up to %d bits open", n), func(w int) *Seq {
			return genSeq(w, "x", append(block(w, open(w, 0xA5C0, n), uint8(n)), open(w, 0, 16)), Pick2(quick, []int{0, 0, 4, 3}, []int{0, 0, 6, 5})[n])
		})
	}
	add("generic trees, a chain of prefixes", func(w int) *Seq {
		var ps []pfx
		for _, k := range []int{16, 15, 14, 8, 7, 1, 0} {
			id := uint64(0x5A3C) &^ (1<<k - 1)
			ps = append(ps, open(w, id, k))
			if k < 16 {
				ps = append(ps, open(w, id^1<<k, k))
			}
		}
		return genSeq(w, "x", ps, Pick2(quick, 3, 4))
	})
	add("generic trees, several values", func(w int) *Seq {
		q := genSeq(w, "x", nil, Pick2(quick, 3, 4))
		q.Ops = multiOps(w, []pfx{open(w, 0, 16), open(w, 0, 0), open(w, 0x4000, 14)}, 2)
		return q
	})
	ts = append(ts, sharedSets(quick)...)
	return ts
}

func dedup(xs []uint64) []uint64 {
	seen := map[uint64]bool{}
	var out []uint64
	for _, x := range xs {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

// sharedLong: long histories on the three widths, compared after every step.
func sharedLong(c *Ctx) {
	run := func(name string, mk func(w int) *Seq, scripts func(w int) func(func([]*Op, func(int) bool) bool)) {
		if !c.Begin(name) {
			return
		}
		var all [3][][]*Op
		for k, w := range widths {
			scripts(w)(func(ops []*Op, _ func(int) bool) bool { all[k] = append(all[k], ops); return true })
		}
		q := zipSeq(name, mk)
		probe := q.Reads
		q.Reads = nil
		for i := range all[0] {
			if c.Expired() {
				return
			}
			var ops []*Op
			for j := range all[0][i] {
				ops = append(ops, zip([3]*Op{all[0][i][j], all[1][i][j], all[2][i][j]}))
				if j%4 == 3 {
					ops = append(ops, probe...)
				}
			}
			c.R.States += int64(len(all[0][i]))
			c.Script(q, append(ops, probe...))
		}
		c.Note("%s: %d histories", name, len(all[0]))
	}
	n := uint64(8)
	for _, start := range []uint64{0, 1000, 65536 - n} {
		run(fmt.Sprintf("long histories of tables from %d", start), func(w int) *Seq {
			return tabSeq(w, start, start+n-1, []uint64{start, start + 3, start + n - 1}, []string{"a=1"}, selectors[1:3])
		}, func(w int) func(func([]*Op, func(int) bool) bool) {
			return fillCycles(int(n), 2, func(k int) *Op {
				if k%3 == 2 {
					return tabClaimFree("f=1")
				}
				return tabClaim(start+uint64(k), fmt.Sprintf("a=%d", k%2))
			}, func(k int) *Op { return tabRelease(start + uint64(k)) }, tabClaimFree("g=1"), tabClaimFree("g=2"))
		})
	}
	bits := Pick(c, uint8(4), uint8(5))
	run("long histories of id trees", func(w int) *Seq {
		ps := inTree(w, bits)
		return gtCfg{w: w, n: bits, ps: []pfx{ps[0], ps[4], ps[len(ps)-1]}, labs: []string{"a=1"}, sels: selectors[1:3]}.seq()
	}, func(w int) func(func([]*Op, func(int) bool) bool) {
		ps := inTree(w, bits)
		return fillCycles(len(ps), 2, func(k int) *Op {
			if k%5 == 4 {
				return gtClaimFree("f=1")
			}
			return gtClaim(w, ps[k], fmt.Sprintf("a=%d", k%2), false)
		}, func(k int) *Op { return gtRelease(w, ps[k]) }, gtReleaseByLabel(selectors[1]), gtClaimFree("f=1"), gtClaimRange("1-6", "r=1"))
	})
	run("long histories of generic trees", func(w int) *Seq { return genSeq(w, "x", nil, 0) }, func(w int) func(func([]*Op, func(int) bool) bool) {
		ps := append(block(w, open(w, 0x5550, 4), 4), open(w, 0, 16), open(w, 0x8000, 15), open(w, 0x4000, 14))
		return fillCycles(len(ps), 2, func(k int) *Op { return genAdd(w, ps[k], 10*k+1, mNil) },
			func(k int) *Op { return genDel(w, ps[k], 10*k+1, mEq, k%2 == 0) })
	})
}

// sharedSets: builder sequences on the three widths.
func sharedSets(quick bool) []Task {
	describe := func(a *idAPI, s idSet) string {
		if s == nil {
			return "no set"
		}
		var b []string
		for _, r := range s.Ranges() {
			b = append(b, fmt.Sprintf("%d-%d", r.From().ID(), r.To().ID()))
		}
		b = append(b, ":")
		for _, id := range s.IDs() {
			b = append(b, fmt.Sprintf("%d^%d", id.ID(), a.w-int(id.Length())))
		}
		return strings.Join(b, " ")
	}
	run := func(a *idAPI, st []setStep, seq []int, every bool) (out []string) {
		defer func() {
			if e := recover(); e != nil {
				out = append(out, "panic")
			}
		}()
		b := a.builder()
		build := func() idSet {
			s, err := a.build(b)
			out = append(out, es(err), describe(a, s))
			return s
		}
		var s idSet
		for i, k := range seq {
			st[k].do(b)
			if every || i == len(seq)-1 {
				s = build()
			}
		}
		for _, k := range []int{0, 1, 2, 3, 4, 7, 8, 12, 15, 16} {
			id, ns, ok := a.free(s, uint8(a.w-k))
			if !ok {
				out = append(out, "none")
				continue
			}
			out = append(out, fmt.Sprintf("%d^%d", id.ID(), a.w-int(id.Length())), describe(a, ns))
		}
		return out
	}
	var ts []Task
	for _, x := range []struct {
		name string
		pts  []uint64
		prov int
		d    int
	}{
		{"bottom", []uint64{0, 1, 2, 3, 4, 5}, 0, 2}, {"bottom", []uint64{0, 1, 2, 3}, 3, 2}, {"top", []uint64{65530, 65531, 65532, 65533, 65534, 65535}, 0, 2},
		{"top", []uint64{65532, 65533, 65534, 65535}, 2, 2}, {"top", []uint64{65533, 65534, 65535}, 3, 3}, {"both ends", []uint64{0, 1, 32767, 32768, 65534, 65535}, 1, 2}, {"both ends", []uint64{0, 255, 256, 65535}, 0, 3},
		{"bottom", []uint64{0, 1, 2}, 0, 4}, {"middle", []uint64{32766, 32767, 32768, 32769}, 0, 3}, {"top", []uint64{65533, 65534, 65535}, 0, 4},
	} {
		x := x
		ts = append(ts, Task{Name: fmt.Sprintf("sets %s %v %d", x.name, x.pts, x.prov), Run: func(c *Ctx) {
			name := fmt.Sprintf("id sets, %s: numbers %v, source %d", x.name, x.pts, x.prov)
			if !c.Begin(name) {
				return
			}
			var st [3][]setStep
			for k, a := range idAPIs {
				var ps []pfx
				if x.d < 4 {
					ps = []pfx{open(a.w, x.pts[0]&^3, 2), open(a.w, 0, 16), open(a.w, x.pts[len(x.pts)-1]&^1, 1)}
				}
				st[k] = a.setAlphabet(append([]uint64{}, x.pts...), ps, x.prov, x.d < 4)
			}
			d := x.d
			if !quick && len(st[0]) < 40 {
				d++
			}
			c.allNumbers(len(st[0]), d, func(seq []int) {
				for _, every := range []bool{false, true} {
					if every && d == 1 {
						continue
					}
					c.Case("C22", func() string { return idAPIs[0].seqName(st[0], seq, every) + " and the same on 32 and 64 bits" }, func() string {
						r := run(idAPIs[0], st[0], seq, every)
						for k := 1; k < 3; k++ {
							v := run(idAPIs[k], st[k], seq, every)
							if len(v) != len(r) {
								return fmt.Sprintf("on 16 bits %q, on %d bits %q", r, idAPIs[k].w, v)
							}
							if i := diffAt(r, v); i >= 0 {
								return fmt.Sprintf("on 16 bits %q, on %d bits %q", r[i], idAPIs[k].w, v[i])
							}
						}
						return ""
					})
				}
			})
			c.Note("%s: every sequence of %d out of %d operations", name, d, len(st[0]))
		}})
	}
	return ts
}

// allNumbers enumerates every sequence of d numbers below n.
func (c *Ctx) allNumbers(n, d int, f func(seq []int)) {
	seq := make([]int, d)
	for {
		f(seq)
		if c.R.Cases&0xfff < 2 && c.Expired() {
			return
		}
		i := d - 1
		for i >= 0 {
			seq[i]++
			if seq[i] < n {
				break
			}
			seq[i] = 0
			i--
		}
		if i < 0 {
			return
		}
	}
}

func init() {
	register("C22", sharedTasks, "prefixes leave at most 16 bits open and are given in canonical form")
	register("C23", failTasks, "arguments are not nil; requests for more ids than memory holds are not made")
	register("C24", histTasks, "the current claims are those reported as successful and not released since")
}
