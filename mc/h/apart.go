package main

import (
	"fmt"
	"strings"

	"github.com/henderiw/idxtable/pkg/tree"
)

// C26: objects that have nothing to do with each other need no coordination between their users, and values (ids, ranges, id
// sets, entries) may be read by several goroutines at once. Each side of a pair belongs to one thread; the locks of one object order
// nothing on the other, so the happens-before race detection of every schedule sees every access to memory the two share.

// kindT is one kind of object with what to do to it.
type kindT struct {
	name  string
	new   func() any
	model any
	init  []*Op
	ops   []*Op
	short []int // for the programs with two calls per thread
	final []*Op
}

func kindOf(q *Conc, name string, short ...int) kindT {
	return kindT{name: name, new: q.New, model: q.Model, init: q.Init, ops: q.Ops, short: short, final: q.Final}
}

// same: the operation gives the same text whenever it runs alone.
func same1(name string, f func(sys any) string) *Op {
	return &Op{Name: name, Tags: "C26", Reader: true,
		Do:   func(s any) Out { return Out{S: f(s)} },
		Spec: func(m any, o Out) (any, string) { return m, "differs from the call made alone" }}
}

func genKind(w int) kindT {
	ps := block(w, pfx{0, uint8(w) - 3}, 2)
	s := genSeq(w, "", ps, 0)
	var fin []*Op
	for _, r := range s.Reads {
		if r.Take == nil {
			fin = append(fin, r)
			break
		}
	}
	a, b := ps[0], ps[len(ps)-1]
	return kindT{name: fmt.Sprintf("generic tree%d", w), new: s.New, model: s.Model,
		// two siblings: deleting one merges the other into the node above, something no call before that has done
		init: []*Op{genAdd(w, ps[1], 3, mNil), genAdd(w, ps[2], 4, mNil)},
		ops: []*Op{genAdd(w, a, 1, mNil), genAdd(w, b, 1, mEq), genSet(w, ps[2], 2), genDel(w, ps[1], 3, mEq, false), genDel(w, a, 1, mEq, true),
			genIterate(false), genIterate(true)},
		short: []int{0, 1, 3, 5}, final: []*Op{genIterate(false)}}
}

// setKind makes, changes and takes apart id sets; the shared object is a set, with its ranges and ids.
type setVals struct {
	a      *idAPI
	set    idSet
	rs     []tree.Range
	ids    []tree.ID
	es     []tree.Entry
	broken string
}

func (a *idAPI) showSet(s idSet) string {
	var b strings.Builder
	for _, r := range s.Ranges() {
		b.WriteString(r.String() + " ")
	}
	b.WriteString("ids " + short(s.IDs()))
	return b.String()
}

func newVals(a *idAPI) *setVals {
	W := uint8(a.w)
	top := uint64(1) << (a.w - 1)
	v := &setVals{a: a}
	b := a.builder()
	b.AddRange(a.rangeFrom(3, 9))
	b.AddRange(a.rangeFrom(11, 20))
	b.AddId(a.newID(top, W-2))
	b.RemoveId(a.newID(top+1, W))
	s, err := a.build(b)
	if err != nil {
		v.broken = err.Error()
	}
	v.set = s
	v.rs = []tree.Range{a.rangeFrom(3, 9), a.rangeOf(a.newID(top, 1)), a.rangeFrom(0, maxOf(a.w)), a.rangeFrom(5, 4)}
	v.ids = []tree.ID{a.newID(6, W-1), a.newID(top, 1), a.newID(0, 0), a.newID(maxOf(a.w), W)}
	v.es = []tree.Entry{tree.NewEntry(v.ids[0], giveLabels("a=1,b=2")), tree.NewEntry(v.ids[0], giveLabels("b=2,a=1")), tree.NewEntry(v.ids[1], nil)}
	return v
}

// setOps works on values only (makes its own builders).
func valueOps(a *idAPI) []*Op {
	W := uint8(a.w)
	on := func(name string, f func(v *setVals) string) *Op {
		return same1(name, func(s any) string { return f(s.(*setVals)) })
	}
	return []*Op{
		on("build a set of the shared ranges and ids", func(v *setVals) string { // 0
			b := a.builder()
			for _, r := range v.rs[:3] {
				b.RemoveRange(r)
				b.AddRange(r)
			}
			b.RemoveRange(v.rs[0])
			b.AddId(v.ids[0])
			s, err := a.build(b)
			if err != nil {
				return "err"
			}
			return a.showSet(s)
		}),
		on("build a set on top of the shared set", func(v *setVals) string { // 1
			b := a.builder()
			a.addSet(b, v.set)
			b.RemoveId(v.ids[0])
			b.AddRange(v.rs[0])
			s, err := a.build(b)
			if err != nil {
				return "err"
			}
			return a.showSet(s)
		}),
		on("set.Ranges() and set.IDs()", func(v *setVals) string { return a.showSet(v.set) }), // 2
		on("set.RemoveFreePrefix", func(v *setVals) string { // 3
			id, s, ok := a.free(v.set, W-1)
			if !ok {
				return "none"
			}
			return id.String() + " leaves " + a.showSet(s)
		}),
		on("range.IDs(), AppendIDs, String", func(v *setVals) string { // 4
			t := ""
			for _, r := range v.rs[:3] {
				t += r.String() + " " + short(r.IDs()) + short(r.AppendIDs([]tree.ID{v.ids[0]}))
			}
			return t
		}),
		on("relations of ranges", func(v *setVals) string { // 5
			t := ""
			for _, r := range v.rs {
				for _, o := range v.rs {
					t += fmt.Sprint(r.Less(o), r.EntirelyBefore(o), r.CoveredBy(o), r.InMiddleOf(o), r.OverlapsStartOf(o), r.OverlapsEndOf(o))
				}
				t += fmt.Sprint(r.IsValid(), r.IsZero(), toPfx(r.From()), toPfx(r.To()), r.SetFrom(v.ids[0]), r.SetTo(v.ids[0]))
			}
			return t
		}),
		on("parse, print, mask and step ids", func(v *setVals) string { // 6
			r, err := a.parse("12-345")
			if err != nil {
				return "err"
			}
			t := r.String() + short(r.IDs())
			for _, id := range v.ids {
				m, err := id.Mask(W - 3)
				if err != nil {
					return "err"
				}
				t += fmt.Sprint(id, m, id.Masked(), id.Next(), id.Prev(), id.ShiftLeft(1), id.Copy(), id.IsLeftBitSet(), id.Matches(7), a.last(id), a.rangeOf(id), id.Overlaps(v.ids[0]), id.Compare(v.ids[1]), id.Less(v.ids[0]))
			}
			return t
		}),
		on("merge ids", func(v *setVals) string { // 7
			x, l := a.merge(6, W-1, 7, W)
			return fmt.Sprint(x, l)
		}),
		on("entries: Equal, String, Labels", func(v *setVals) string { // 8
			t := ""
			for _, e := range v.es {
				t += e.String() + canonMap(e.Labels()) + e.ID().String()
				for _, o := range v.es {
					t += fmt.Sprint(e.Equal(o))
				}
			}
			return t
		}),
	}
}

func valueKind(w int) kindT {
	a := apiOf(w)
	return kindT{name: fmt.Sprintf("values of %d bits", w), new: func() any { return newVals(a) }, model: 0, ops: valueOps(a), short: []int{0, 1, 3, 4}}
}

func treeKind(w int) kindT {
	W := uint8(w)
	k := kindOf(gtConc(w, "", nil), fmt.Sprintf("tree%d", w), 0, 2, 4, 6, 10)
	// releasing 0 leaves a node with one child, which is merged into it: something no call before that has done
	k.init = []*Op{gtClaim(w, pfx{0, W}, "y=8", false), gtClaim(w, pfx{1, W}, "z=9", false)}
	return k
}

// both is two objects; share makes the second from the first (nil: both new).
func both(a, b kindT, share func(x any) any) (*Conc, [][][]int) {
	q := &Conc{Name: a.name + " and " + b.name, Model: pairM{a.model, b.model}}
	q.New = func() any {
		x := a.new()
		for _, op := range a.init {
			exec(op, x)
		}
		if share != nil {
			return &pairT{x, share(x)}
		}
		y := b.new()
		for _, op := range b.init {
			exec(op, y)
		}
		return &pairT{x, y}
	}
	ma, mb := a.model, b.model
	x := a.new()
	for _, op := range a.init {
		ma, _ = op.Spec(ma, exec(op, x))
	}
	if share != nil {
		mb = ma
	} else {
		y := b.new()
		for _, op := range b.init {
			mb, _ = op.Spec(mb, exec(op, y))
		}
	}
	q.Model = pairM{ma, mb}
	for i, k := range []kindT{a, b} {
		for _, op := range k.ops {
			q.Ops = append(q.Ops, pairWrap(op, i == 1))
		}
		for _, op := range k.final {
			q.Final = append(q.Final, pairWrap(op, i == 1))
		}
	}
	var ps [][][]int
	for i := range a.ops {
		for j := range b.ops {
			ps = append(ps, [][]int{{i}, {len(a.ops) + j}})
		}
	}
	for _, i := range a.short {
		for _, i2 := range a.short {
			for _, j := range b.short {
				for _, j2 := range b.short {
					ps = append(ps, [][]int{{i, i2}, {len(a.ops) + j, len(a.ops) + j2}})
				}
			}
		}
	}
	return q, ps
}

func apartTasks(tier string) []Task {
	quick := tier != "thorough"
	idx := kindOf(idxConc(nil, "", 3, []*Op{idxClaim(1, "p")}), "index table", 0, 2, 5, 13, 17)
	ip := kindOf(ipConc("", false, []*Op{ipClaim("10.0.0.3", "10.1.0.0/24 a=9")}), "IP table", 0, 2, 5, 6)
	ip6 := kindOf(ipConc("", true, nil), "IPv6 table", 0, 2, 5, 6)
	tab := func(w int) kindT {
		return kindOf(tabConc(w, "", []*Op{tabClaim(5, "a=9")}), fmt.Sprintf("table%d", w), 0, 3, 4, 7)
	}
	type pr struct {
		a, b  kindT
		share func(any) any
		tag   string
	}
	prs := []pr{{idx, idx, nil, ""}, {ip, ip, nil, ""}, {ip, ip6, nil, ""}, {idx, tab(32), nil, ""}, {ip, tab(64), nil, ""}, {idx, ip, nil, ""}}
	for i, w := range widths {
		v := widths[(i+1)%3]
		prs = append(prs, pr{tab(w), tab(w), nil, ""}, pr{tab(w), tab(v), nil, ""},
			pr{treeKind(w), treeKind(w), nil, ""}, pr{treeKind(w), treeKind(v), nil, ""},
			pr{treeKind(w), treeKind(w), func(x any) any { return x.(gt).Clone() }, "a clone of it: "},
			pr{genKind(w), genKind(w), nil, ""}, pr{genKind(w), genKind(v), nil, ""},
			pr{genKind(w), genKind(w), func(x any) any { return x.(genT).Clone() }, "a clone of it: "},
			pr{valueKind(w), valueKind(w), func(x any) any { return x }, "themselves: "},
			pr{valueKind(w), valueKind(w), nil, ""}, pr{valueKind(w), valueKind(v), nil, ""},
			pr{valueKind(w), treeKind(w), nil, ""}, pr{genKind(w), treeKind(w), nil, ""}, pr{tab(w), treeKind(w), nil, ""})
	}
	// full objects: what only happens when nothing is free
	with := func(k kindT, name string, init ...*Op) kindT {
		k.name, k.init = name+" "+k.name, init
		return k
	}
	fi := with(idx, "full", idxClaimRange(0, 3, "x"))
	fp := with(ip, "full", ipClaim("10.0.0.1", "10.1.0.0/24 a=9"), ipClaim("10.0.0.2", "10.1.0.0/24 a=9"), ipClaim("10.0.0.3", "10.1.0.0/24 a=9"))
	prs = append(prs, pr{fi, fi, nil, ""}, pr{fp, fp, nil, ""})
	for _, w := range widths {
		ft := with(tab(w), "full", tabClaim(5, "a=9"), tabClaim(6, "z=9"), tabClaim(7, "b=9"))
		fg := with(treeKind(w), "full", gtClaimRangePlain("0-3", "f=1"))
		prs = append(prs, pr{ft, ft, nil, ""}, pr{fg, fg, nil, ""}, pr{fg, treeKind(w), nil, ""})
	}
	var ts []Task
	for i, p := range prs {
		p := p
		ts = append(ts, Task{Name: fmt.Sprintf("apart-%02d", i), Race: true, Shards: Pick2(quick, 1, 4), Run: func(c *Ctx) {
			b := p.b
			b.name = p.tag + b.name
			if !quick {
				a := p.a
				a.short, b.short = seqInts(min(len(a.ops), 9)), seqInts(min(len(b.ops), 9))
				q, ps := both(a, b, p.share)
				q.Run(c, ps)
				return
			}
			q, ps := both(p.a, b, p.share)
			q.Run(c, ps)
		}})
	}
	return append(ts, besideTasks(quick)...)
}

func init() { register("C26", apartTasks, concAssume...) }
