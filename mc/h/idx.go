package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/henderiw/idxtable/pkg/idxtable"
	"github.com/henderiw/idxtable/verifmc/rt"
)

const maxU = math.MaxUint64

// det makes an operation whose answer is determined by the model state.
func det(name, tags string, reader bool, do func(sys any) string, want func(m any) (any, string)) *Op {
	return &Op{Name: name, Tags: tags, Reader: reader,
		Do: func(sys any) Out { s := do(sys); return Out{S: s, Err: s == "err"} },
		Spec: func(m any, o Out) (any, string) {
			m2, w := want(m)
			if w != o.S {
				return m, fmt.Sprintf("got %s, want %s", o.S, w)
			}
			return m2, ""
		}}
}

// listing makes a reader that hands out something which is read afterwards.
func listing(name, tags string, take func(sys any) func() string, want func(m any) string) *Op {
	return &Op{Name: name, Tags: tags, Reader: true, Take: take,
		Spec: func(m any, o Out) (any, string) {
			if w := want(m); w != o.S {
				return m, fmt.Sprintf("got %s, want %s", o.S, w)
			}
			return m, ""
		}}
}

func es(err error) string {
	if err != nil {
		return "err"
	}
	return "ok"
}

// ---- index table ----

type idxM struct {
	n uint64
	e map[uint64]string
}

func (m idxM) with(f func(e map[uint64]string)) idxM {
	e := make(map[uint64]string, len(m.e)+1)
	for k, v := range m.e {
		e[k] = v
	}
	f(e)
	return idxM{m.n, e}
}

func (m idxM) ids() []uint64 {
	ks := make([]uint64, 0, len(m.e))
	for k := range m.e {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

func idxKey(x any) string {
	m := x.(idxM)
	var b strings.Builder
	for _, k := range m.ids() {
		fmt.Fprintf(&b, "%d=%s ", k, m.e[k])
	}
	return b.String()
}

// lowestFree returns up to k free ids in ascending order (all in closed form: never walks the whole table).
func (m idxM) lowestFree(k uint64) []uint64 {
	var fs []uint64
	for id := uint64(0); id < m.n && uint64(len(fs)) < k; id++ {
		if _, ok := m.e[id]; !ok {
			fs = append(fs, id)
		}
	}
	return fs
}

func (m idxM) blockFree(start, size uint64) bool {
	if size == 0 || start >= m.n || size > m.n-start {
		return false
	}
	for id := range m.e {
		if id >= start && id-start < size {
			return false
		}
	}
	return true
}

// idxT is what the operations need of an index table of strings; typedIdx offers it for tables of other types.
type idxT interface {
	Get(id uint64) (idxtable.Entry[string], error)
	Claim(id uint64, d string) error
	ClaimDynamic(d string) (idxtable.Entry[string], error)
	ClaimRange(start, size uint64, d string) error
	ClaimSize(size uint64, d string) (idxtable.Entries[string], error)
	Release(id uint64) error
	Update(id uint64, d string) error
	Size() int
	Has(id uint64) bool
	IsFree(id uint64) bool
	FindFree() (uint64, error)
	FindFreeRange(min, size uint64) ([]uint64, error)
	FindFreeSize(size uint64) ([]uint64, error)
	GetAll() idxtable.Entries[string]
}

type iterI interface {
	Next() bool
	ID() uint64
	Value() idxtable.Entry[string]
	IsConsecutive() bool
}

func iterOf(s any, free bool) iterI {
	if t, ok := s.(idxtable.Table[string]); ok {
		if free {
			return t.IterateFree()
		}
		return t.Iterate()
	}
	return s.(interface{ iter(free bool) iterI }).iter(free)
}

func u(x uint64) string {
	if x > 1<<63 {
		return fmt.Sprintf("2^64-%d", -x)
	}
	return fmt.Sprint(x)
}

func idxClaim(id uint64, d string) *Op {
	return det(fmt.Sprintf("Claim(%s,%s)", u(id), d), "C01 C24", false,
		func(s any) string { return es(s.(idxT).Claim(id, d)) },
		func(x any) (any, string) {
			m := x.(idxM)
			if _, ok := m.e[id]; ok || id >= m.n {
				return m, "err"
			}
			return m.with(func(e map[uint64]string) { e[id] = d }), "ok"
		})
}

func idxUpdate(id uint64, d string) *Op {
	return det(fmt.Sprintf("Update(%s,%s)", u(id), d), "C01 C24", false,
		func(s any) string { return es(s.(idxT).Update(id, d)) },
		func(x any) (any, string) {
			m := x.(idxM)
			if _, ok := m.e[id]; !ok || id >= m.n {
				return m, "err"
			}
			return m.with(func(e map[uint64]string) { e[id] = d }), "ok"
		})
}

func idxRelease(id uint64) *Op {
	return det(fmt.Sprintf("Release(%s)", u(id)), "C01 C24", false,
		func(s any) string { return es(s.(idxT).Release(id)) },
		func(x any) (any, string) {
			m := x.(idxM)
			if id >= m.n {
				return m, "err"
			}
			return m.with(func(e map[uint64]string) { delete(e, id) }), "ok"
		})
}

func idxGet(id uint64) *Op {
	return det(fmt.Sprintf("Get(%s)", u(id)), "C01", true,
		func(s any) string {
			e, err := s.(idxT).Get(id)
			if err != nil {
				return "err"
			}
			handOut(func() string { return renderEntry(e) })
			return renderEntry(e)
		},
		func(x any) (any, string) {
			m := x.(idxM)
			d, ok := m.e[id]
			if !ok || id >= m.n {
				return m, "err"
			}
			return m, fmt.Sprintf("%d:%s", id, d)
		})
}

func renderEntry(e idxtable.Entry[string]) string {
	if e == nil {
		return "<nil entry>"
	}
	return fmt.Sprintf("%d:%s", e.ID(), e.Data())
}

func idxHas(id uint64) *Op {
	return det(fmt.Sprintf("Has(%s)", u(id)), "C01", true,
		func(s any) string { return fmt.Sprint(s.(idxT).Has(id)) },
		func(x any) (any, string) { _, ok := x.(idxM).e[id]; return x, fmt.Sprint(ok) })
}

func idxIsFree(id uint64) *Op {
	return det(fmt.Sprintf("IsFree(%s)", u(id)), "C01", true,
		func(s any) string { return fmt.Sprint(s.(idxT).IsFree(id)) },
		func(x any) (any, string) { _, ok := x.(idxM).e[id]; return x, fmt.Sprint(!ok) })
}

func idxSize() *Op {
	return det("Size()", "C01", true,
		func(s any) string { return fmt.Sprint(s.(idxT).Size()) },
		func(x any) (any, string) { return x, fmt.Sprint(len(x.(idxM).e)) })
}

func idxClaimRange(start, size uint64, d string) *Op {
	return det(fmt.Sprintf("ClaimRange(%s,%s,%s)", u(start), u(size), d), "C02 C24", false,
		func(s any) string { return es(s.(idxT).ClaimRange(start, size, d)) },
		func(x any) (any, string) {
			m := x.(idxM)
			if !m.blockFree(start, size) {
				return m, "err"
			}
			return m.with(func(e map[uint64]string) {
				for i := uint64(0); i < size; i++ {
					e[start+i] = d
				}
			}), "ok"
		})
}

func ids(xs []uint64) string { return fmt.Sprint(xs) }

func idxFindFreeRange(start, size uint64) *Op {
	return det(fmt.Sprintf("FindFreeRange(%s,%s)", u(start), u(size)), "C02", true,
		func(s any) string {
			xs, err := s.(idxT).FindFreeRange(start, size)
			if err != nil {
				return "err"
			}
			handIDs(xs)
			return ids(xs)
		},
		func(x any) (any, string) {
			m := x.(idxM)
			if !m.blockFree(start, size) {
				return m, "err"
			}
			xs := []uint64{}
			for i := uint64(0); i < size; i++ {
				xs = append(xs, start+i)
			}
			return m, ids(xs)
		})
}

func idxFindFree() *Op {
	return det("FindFree()", "C03", true,
		func(s any) string {
			id, err := s.(idxT).FindFree()
			if err != nil {
				return "err"
			}
			return fmt.Sprint(id)
		},
		func(x any) (any, string) {
			f := x.(idxM).lowestFree(1)
			if len(f) == 0 {
				return x, "err"
			}
			return x, fmt.Sprint(f[0])
		})
}

func idxClaimDynamic(d string) *Op {
	return det(fmt.Sprintf("ClaimDynamic(%s)", d), "C03 C24", false,
		func(s any) string {
			e, err := s.(idxT).ClaimDynamic(d)
			if err != nil {
				return "err"
			}
			handOut(func() string { return renderEntry(e) })
			return renderEntry(e)
		},
		func(x any) (any, string) {
			m := x.(idxM)
			f := m.lowestFree(1)
			if len(f) == 0 {
				return m, "err"
			}
			return m.with(func(e map[uint64]string) { e[f[0]] = d }), fmt.Sprintf("%d:%s", f[0], d)
		})
}

// size 0 asks for nothing: whether that is an error is not specified, but nothing may be claimed and no id returned.
func idxFindFreeSize(k uint64) *Op {
	op := det(fmt.Sprintf("FindFreeSize(%s)", u(k)), "C03", true,
		func(s any) string {
			xs, err := s.(idxT).FindFreeSize(k)
			if err != nil {
				return "err"
			}
			handIDs(xs)
			return ids(xs)
		},
		func(x any) (any, string) {
			m := x.(idxM)
			if k > m.n-uint64(len(m.e)) {
				return m, "err"
			}
			return m, ids(m.lowestFree(k))
		})
	if k == 0 {
		op.Spec = func(m any, o Out) (any, string) {
			if o.S == "err" || o.S == "[]" {
				return m, ""
			}
			return m, "got " + o.S + ", want no ids"
		}
	}
	return op
}

func idxClaimSize(k uint64, d string) *Op {
	op := det(fmt.Sprintf("ClaimSize(%s,%s)", u(k), d), "C03 C24", false,
		func(s any) string {
			xs, err := s.(idxT).ClaimSize(k, d)
			if err != nil {
				return "err"
			}
			handOut(func() string { return renderEntries(xs) })
			handList(xs, junkEntry)
			return renderEntries(xs)
		},
		func(x any) (any, string) {
			m := x.(idxM)
			if k > m.n-uint64(len(m.e)) {
				return m, "err"
			}
			f := m.lowestFree(k)
			var b []string
			for _, id := range f {
				b = append(b, fmt.Sprintf("%d:%s", id, d))
			}
			return m.with(func(e map[uint64]string) {
				for _, id := range f {
					e[id] = d
				}
			}), "[" + strings.Join(b, " ") + "]"
		})
	if k == 0 {
		op.Spec = func(m any, o Out) (any, string) {
			if o.S == "err" || o.S == "[]" {
				return m, ""
			}
			return m, "got " + o.S + ", want no ids"
		}
	}
	return op
}

func renderEntries(xs []idxtable.Entry[string]) string {
	var b []string
	for _, e := range xs {
		b = append(b, renderEntry(e))
	}
	return "[" + strings.Join(b, " ") + "]"
}

func idxGetAll() *Op {
	return listing("GetAll()", "C04",
		func(s any) func() string {
			xs := s.(idxT).GetAll()
			handList(xs, junkEntry)
			return func() string { return renderEntries(xs) }
		},
		func(x any) string {
			m := x.(idxM)
			var b []string
			for _, id := range m.ids() {
				b = append(b, fmt.Sprintf("%d:%s", id, m.e[id]))
			}
			return "[" + strings.Join(b, " ") + "]"
		})
}

// drainIter reads an iterator to the end; values selects whether entries (claimed ids) are read.
func drainIter(it iterI, values bool) string {
	var b []string
	for it.Next() {
		s := fmt.Sprint(it.ID())
		if values {
			e := it.Value()
			if e == nil || e.ID() != it.ID() {
				s += ":<wrong entry " + renderEntry(e) + ">"
			} else {
				s += ":" + e.Data()
			}
		}
		if it.IsConsecutive() {
			s += "+"
		}
		b = append(b, s)
		if len(b) > 1<<17 {
			return "endless iteration"
		}
	}
	for i := 0; i < 3; i++ {
		if it.Next() {
			b = append(b, "revived")
		}
	}
	return "[" + strings.Join(b, " ") + "]"
}

func consec(b []string, ks []uint64, val func(uint64) string) string {
	for i, k := range ks {
		s := fmt.Sprint(k) + val(k)
		if i > 0 && ks[i-1]+1 == k {
			s += "+"
		}
		b = append(b, s)
	}
	return "[" + strings.Join(b, " ") + "]"
}

func idxIterate() *Op {
	return once("Iterate()", "C04",
		func(s any) func() string {
			it := iterOf(s, false)
			return func() string { rt.Yield(); return drainIter(it, true) }
		},
		func(x any) string {
			m := x.(idxM)
			return consec(nil, m.ids(), func(k uint64) string { return ":" + m.e[k] })
		})
}

// idxIterateStarted advances the iterator once before anything else happens.
func idxIterateStarted() *Op {
	return once("Iterate()+Next()", "C04",
		func(s any) func() string {
			it := iterOf(s, false)
			first := "none"
			if it.Next() {
				first = fmt.Sprint(it.ID())
			}
			return func() string {
				rt.Yield()
				if first == "none" {
					return "none"
				}
				return first + ":" + it.Value().Data() + " then " + drainIter(it, true)
			}
		},
		func(x any) string {
			m := x.(idxM)
			ks := m.ids()
			if len(ks) == 0 {
				return "none"
			}
			var b []string
			for i, k := range ks[1:] {
				s := fmt.Sprintf("%d:%s", k, m.e[k])
				if ks[i]+1 == k {
					s += "+"
				}
				b = append(b, s)
			}
			return fmt.Sprintf("%d:%s then [%s]", ks[0], m.e[ks[0]], strings.Join(b, " "))
		})
}

func idxIterateFree() *Op {
	return once("IterateFree()", "C04",
		func(s any) func() string {
			it := iterOf(s, true)
			return func() string { rt.Yield(); return drainIter(it, false) }
		},
		func(x any) string {
			m := x.(idxM)
			return consec(nil, m.lowestFree(maxU), func(uint64) string { return "" })
		})
}

func newIdx(n uint64) func() any {
	return func() any { return idxtable.NewTable[string](n) }
}

// idxArgs are the ids tried on a table of size n.
func idxArgs(n uint64) []uint64 {
	var a []uint64
	for i := uint64(0); i <= n+1; i++ {
		a = append(a, i)
	}
	return append(a, 1<<16, 1<<32, 1<<63, maxU-1, maxU)
}

func idxSpec(n uint64, data []string, blockExtremes bool) *Seq {
	q := &Seq{Name: fmt.Sprintf("index table of %d", n), New: newIdx(n), Model: idxM{n, map[uint64]string{}}, Key: idxKey}
	args := idxArgs(n)
	for _, id := range args {
		for _, d := range data {
			q.Ops = append(q.Ops, idxClaim(id, d), idxUpdate(id, d))
		}
		q.Ops = append(q.Ops, idxRelease(id))
		q.Reads = append(q.Reads, basic(idxGet(id), idxHas(id))...)
		if id < n {
			q.Reads = append(q.Reads, basic(idxIsFree(id))...)
		}
	}
	d0 := data[0]
	for _, d := range data {
		q.Ops = append(q.Ops, idxClaimDynamic(d))
	}
	for _, k := range args {
		q.Ops = append(q.Ops, idxClaimSize(k, d0))
		q.Reads = append(q.Reads, idxFindFreeSize(k))
	}
	for _, st := range args {
		for _, sz := range append(args, -st, -st+1, n-st, n-st+1) {
			if !blockExtremes && (st > n+1 || sz > n+1) {
				continue
			}
			q.Ops = append(q.Ops, idxClaimRange(st, sz, d0))
			q.Reads = append(q.Reads, idxFindFreeRange(st, sz))
		}
	}
	q.Reads = append(q.Reads, basic(idxSize())...)
	q.Reads = append(q.Reads, idxFindFree(), idxGetAll(), idxIterate(), idxIterateStarted(), idxIterateFree())
	return q
}

func idxTasks(prop string) func(tier string) []Task {
	return func(tier string) []Task {
		var ts []Task
		quick := tier != "thorough"
		max := uint64(7)
		if !quick {
			max = 9
		}
		for n := uint64(1); n <= max; n++ {
			n := n
			ts = append(ts, Task{Name: fmt.Sprintf("idx-bfs-%d", n), Run: func(c *Ctx) {
				data := []string{"a", "b"}
				if n >= Pick(c, uint64(7), uint64(8)) {
					data = []string{"a"}
				}
				q := idxSpec(n, data, true)
				if prop == "C04" || prop == "C23" {
					q.Holds = []*Op{idxGetAll(), idxIterate(), idxIterateStarted(), idxIterateFree()}
				}
				q.Run(c)
			}})
		}
		ts = append(ts, Task{Name: "idx-occupancies", Run: idxOccupancies})
		ts = append(ts, Task{Name: "idx-large", Run: idxLarge})
		ts = append(ts, Task{Name: "idx-huge", Run: idxHuge})
		ts = append(ts, Task{Name: "idx-two-tables", Run: idxPair})
		ts = append(ts, typedTask("idx-types"))
		ts = append(ts, Task{Name: "idx-scale", Shards: Pick2(quick, 4, 8), Run: idxScale})
		ts = append(ts, stretchTask("idx", 4, false, idxStretch))
		if prop == "C02" || prop == "C03" || prop == "C01" {
			ts = append(ts, Task{Name: "idx-refused", Shards: 2, Run: idxRefused})
		}
		if prop == "C04" {
			ts = append(ts, Task{Name: "idx-live", Shards: 2, Run: idxLive})
		}
		return ts
	}
}

// idxOccupancies: every subset of a larger table is claimed, then every block and free search is tried on it.
func idxOccupancies(c *Ctx) {
	ns := Pick(c, []uint64{7, 8, 9}, []uint64{7, 8, 9, 10, 11})
	for _, n := range ns {
		q := idxSpec(n, []string{"a"}, false)
		q.Name = fmt.Sprintf("all occupancies of %d", n)
		if !c.Begin(q.Name) {
			continue
		}
		for set := uint64(0); set < 1<<n; set++ {
			if c.Expired() {
				return
			}
			e := map[uint64]string{}
			var pre []*Op
			for i := uint64(0); i < n; i++ {
				if set>>i&1 == 1 {
					e[i] = "a"
					pre = append(pre, idxClaim(i, "a"))
				}
			}
			c.R.States++
			if !c.Script(q, pre) {
				continue
			}
			m := idxM{n, e}
			for st := uint64(0); st <= n; st++ {
				for sz := uint64(0); sz <= n+1-st; sz++ {
					c.occ(q, pre, m, idxClaimRange(st, sz, "b"))
				}
			}
			for k := uint64(0); k <= n+1; k++ {
				c.occ(q, pre, m, idxClaimSize(k, "b"))
			}
			c.occ(q, pre, m, idxClaimDynamic("b"))
		}
		c.Note("%s: %d occupancies, every block and free claim on each", q.Name, 1<<n)
	}
}

// occ runs one operation after a prefix that was already checked and compares the contents afterwards.
func (c *Ctx) occ(q *Seq, pre []*Op, m any, op *Op) {
	restoreGlobals()
	sys := q.New()
	for _, p := range pre {
		exec(p, sys)
	}
	tr := func(a ...string) []string {
		var s []string
		for _, p := range pre {
			s = append(s, p.Name)
		}
		return append(append(s, op.Name), a...)
	}
	m2, _, ok := c.step(nil, op, sys, m, func() []string { return tr() })
	if !ok {
		return
	}
	c.R.Traces++
	all := idxGetAll()
	o := exec(all, sys)
	if _, bad := all.Spec(m2, o); bad != "" {
		c.Fail(op.Tags+" C23", op.Name+" then GetAll(): "+bad, tr(all.Name), nil)
	}
}

// idxHuge: tables too large to list. Nothing that asks for as many ids is called, and everything that is has to do with
// the ids it is about.
func idxHuge(c *Ctx) {
	for _, n := range []uint64{1 << 24, 1<<32 + 5, 1 << 40, 1<<63 - 1, 1 << 63, 1<<63 + 1, maxU} {
		q := &Seq{Name: "index table of " + u(n), New: newIdx(n), Model: idxM{n, map[uint64]string{}}, Key: idxKey, Depth: Pick(c, 4, 5)}
		for _, p := range []uint64{0, 1, n / 2, n - 2, n - 1, n, n + 1} {
			q.Ops = append(q.Ops, idxClaim(p, "a"), idxUpdate(p, "b"), idxRelease(p))
			q.Reads = append(q.Reads, basic(idxGet(p), idxHas(p))...)
			if p < n {
				q.Reads = append(q.Reads, basic(idxIsFree(p))...)
			}
			for _, k := range []uint64{1, 2, 3} {
				q.Reads = append(q.Reads, idxFindFreeRange(p, k))
				if k != 2 {
					q.Ops = append(q.Ops, idxClaimRange(p, k, "c"))
				}
			}
			q.Reads = append(q.Reads, idxFindFreeRange(p, 0), idxFindFreeRange(p, -p), idxFindFreeRange(p, -p+1), idxFindFreeRange(p, n-p+1))
		}
		q.Ops = append(q.Ops, idxClaimDynamic("d"), idxClaimSize(1, "e"), idxClaimSize(3, "e"), idxClaimSize(n+1, "e"))
		q.Reads = append(q.Reads, idxFindFree(), idxFindFreeSize(1), idxFindFreeSize(2), idxFindFreeSize(5), idxFindFreeSize(n+1), idxGetAll(), idxIterate())
		q.Reads = append(q.Reads, basic(idxSize())...)
		q.Run(c)
	}
}

// idxLarge: boundary occupancies of large tables (one claimed interval [i,j], one hole, single ids).
func idxLarge(c *Ctx) {
	for _, n := range Pick(c, []uint64{63, 64, 65, 100, 257}, []uint64{63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 4097}) {
		name := fmt.Sprintf("boundary occupancies of %d", n)
		if !c.Begin(name) {
			continue
		}
		pts := []uint64{0, 1, 2, n/2 - 1, n / 2, n/2 + 1, n - 3, n - 2, n - 1}
		q := &Seq{Name: name, New: newIdx(n), Model: idxM{n, map[uint64]string{}}, Key: idxKey}
		for _, p := range append(pts, n, n+1, maxU) {
			q.Reads = append(q.Reads, basic(idxGet(p), idxHas(p))...)
			for _, r := range []uint64{1, 2, 3, n / 2, n - 1, n, n + 1} {
				q.Reads = append(q.Reads, idxFindFreeRange(p, r))
			}
		}
		for _, k := range []uint64{1, 2, n / 2, n - 2, n - 1, n, n + 1} {
			q.Reads = append(q.Reads, idxFindFreeSize(k))
		}
		q.Reads = append(q.Reads, basic(idxSize())...)
		q.Reads = append(q.Reads, idxFindFree(), idxGetAll(), idxIterate(), idxIterateFree())
		for i, a := range pts {
			for _, b := range pts[i:] {
				if c.Expired() {
					return
				}
				c.R.States += 2
				// one interval claimed
				ops := []*Op{idxClaimRange(a, b-a+1, "a")}
				c.Script(q, ops)
				c.Script(q, append(ops, idxClaimDynamic("b"), idxClaimSize(3, "c"), idxRelease(a), idxRelease(b), idxClaimDynamic("d"), idxUpdate(b, "e")))
				// everything claimed but one interval
				ops = []*Op{idxClaimSize(n, "a")}
				for x := a; x <= b; x++ {
					ops = append(ops, idxRelease(x))
				}
				c.Script(q, ops)
				c.Script(q, append(ops, idxClaimRange(a, b-a+1, "b"), idxClaimDynamic("c"), idxRelease(n-1), idxClaimDynamic("d")))
			}
		}
		c.Note("%s: all intervals and holes between %d boundary points", name, len(pts))
	}
	// tables whose size is near the limits of the id type: only operations that need not enumerate the table
	for _, n := range []uint64{1 << 16, 1 << 32, 1<<63 - 1, 1 << 63, 1<<63 + 1, maxU - 1, maxU} {
		name := "table of " + u(n)
		if !c.Begin(name) {
			continue
		}
		q := &Seq{Name: name, New: newIdx(n), Model: idxM{n, map[uint64]string{}}, Key: idxKey, Depth: 3}
		for _, id := range []uint64{0, 1, n - 2, n - 1, n, n + 1, maxU} {
			q.Ops = append(q.Ops, idxClaim(id, "a"), idxUpdate(id, "b"), idxRelease(id))
			q.Reads = append(q.Reads, basic(idxGet(id), idxHas(id))...)
		}
		q.Reads = append(q.Reads, idxSize(), idxGetAll(), idxIterate())
		q.Run(c)
	}
}

// idxPair: two tables in one process never influence each other.
func idxPair(c *Ctx) {
	mk := func(n uint64) *Seq {
		q := idxSpec(n, []string{"a"}, false)
		q.Holds = []*Op{idxGetAll(), idxIterate()}
		return q
	}
	pairSeq("two index tables", mk(2), mk(2), 0).Run(c)
}

// ---- concurrency ----

func idxConc(c *Ctx, name string, n uint64, init []*Op) *Conc {
	return &Conc{Name: name, New: newIdx(n), Model: idxM{n, map[uint64]string{}}, Init: init,
		Ops: []*Op{
			idxClaim(0, "a"), idxClaim(1, "b"), idxRelease(0), idxRelease(1), idxUpdate(0, "c"),
			idxClaimDynamic("d"), idxClaimRange(0, 2, "e"), idxClaimSize(2, "f"),
			idxGet(0), idxHas(1), idxIsFree(0), idxSize(), idxFindFree(), idxFindFreeRange(0, 2), idxFindFreeSize(2),
			idxGetAll(), idxIterate(), idxIterateFree(), idxIterateStarted(),
			idxClaim(2, "g"), idxUpdate(1, "h"), idxClaimRange(1, 1, "i"), idxClaimDynamic("j"), idxClaim(5, "x"), idxClaimRange(1, 5, "y"),
		},
		Final: []*Op{idxGetAll(), idxFindFree(), idxSize()},
		Holds: []*Op{idxGetAll(), idxIterate()},
	}
}

func seqInts(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

func init() {
	for _, p := range []string{"C01", "C02", "C03", "C04"} {
		register(p, idxTasks(p), "package sync is replaced by the controlled runtime; ids are tried from the stated alphabets only")
	}
	register("C05", func(tier string) []Task {
		quick := tier != "thorough"
		inits := map[string][]*Op{
			"empty":   nil,
			"partial": {idxClaim(1, "p")},
			"full":    {idxClaim(0, "p"), idxClaim(1, "q"), idxClaim(2, "r")},
		}
		ts := []Task{{Name: "among-many", Race: true, Shards: 4, Run: idxInterfere}}
		for _, in := range []string{"empty", "partial", "full"} {
			in := in
			n := uint64(3)
			ts = append(ts, Task{Name: "conc-2x1-3x1-" + in, Race: true, Shards: 4, Run: func(c *Ctx) {
				q := idxConc(c, "2 and 3 threads, 1 call each, table "+in, n, inits[in])
				q.Run(c, q.keepMutating(append(programs(2, 1, seqInts(len(q.Ops))), programs(3, 1, seqInts(len(q.Ops)))...)))
			}})
			k, sh := 11, 8
			if !quick {
				k, sh = 25, 32
			}
			ts = append(ts, Task{Name: "conc-2x2-" + in, Race: true, Shards: sh, Run: func(c *Ctx) {
				q := idxConc(c, "2 threads, 2 calls each, table "+in, n, inits[in])
				sel := seqInts(len(q.Ops))
				if k < len(sel) {
					sel = []int{0, 2, 4, 5, 6, 7, 8, 12, 13, 15, 16}
				}
				q.Run(c, q.keepMutating(programs(2, 2, sel)))
			}})
			if !quick {
				ts = append(ts, Task{Name: "conc-3x2-" + in, Race: true, Shards: 16, Run: func(c *Ctx) {
					q := idxConc(c, "3 threads, 2 calls each, table "+in, n, inits[in])
					q.Run(c, q.keepMutating(programs(3, 2, []int{0, 2, 5, 6, 12, 15})))
				}})
				ts = append(ts, Task{Name: "conc-2x3-" + in, Race: true, Shards: 16, Run: func(c *Ctx) {
					q := idxConc(c, "2 threads, 3 calls each, table "+in, n, inits[in])
					q.Run(c, q.keepMutating(programs(2, 3, []int{0, 2, 5, 6, 15, 16})))
				}})
			}
		}
		return ts
	}, "scheduling points are the lock, atomic and yield operations; accesses between them are covered by happens-before race detection on every execution",
		"weak-memory effects beyond data races are not modelled")
}
