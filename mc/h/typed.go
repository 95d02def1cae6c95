package main

import (
	"fmt"
	"math"

	"github.com/henderiw/idxtable/pkg/idxtable"
	"github.com/henderiw/idxtable/pkg/tree"
)

// Index tables and prefix trees hold data of the caller's choice: nil, zero values, values without a size, values that
// cannot be compared (slices, maps) and values that are not equal to themselves (NaN) are data like any other.

// typeT is a data type with its values: two names, or one.
type typeT[T any] struct {
	name string
	vals []T
	show func(T) string // the name of the value
	key  []string
}

func (t typeT[T]) val(s string) T {
	for i, k := range t.key {
		if k == s {
			return t.vals[i]
		}
	}
	panic("no value " + s)
}

func (t typeT[T]) num(x T) int {
	s := t.show(x)
	for i, k := range t.key {
		if k == s {
			return i
		}
	}
	return -1
}

func plain[T any](name string, vals ...T) typeT[T] {
	return named(name, func(x T) string { return fmt.Sprint(x) }, vals...)
}

func named[T any](name string, show func(T) string, vals ...T) typeT[T] {
	t := typeT[T]{name: name, vals: vals, show: show}
	for _, v := range vals {
		t.key = append(t.key, show(v))
	}
	return t
}

type sized struct {
	A string
	B []int
	C map[string]int
}

// eachType calls f with every type tried.
func eachType(c *Ctx) []func() {
	one, uno := 1, 1
	ptr := func(p *int) string {
		switch p {
		case nil:
			return "nil"
		case &one:
			return "&one"
		case &uno:
			return "&uno"
		}
		return "another pointer"
	}
	nilable := func(s string, isNil bool) string {
		if isNil {
			return "nil"
		}
		return s
	}
	return []func(){
		typed(c, plain("any", any(nil), any(0), any([]int{1}))),
		typed(c, named("any", func(x any) string { return fmt.Sprintf("%T(%v)", x, x) }, any(1), any("1"), any(1.0))),
		typed(c, plain("any", any(math.NaN()), any(""), any(map[string]int{"a": 1}))),
		typed(c, plain("int", 0, -1)),
		typed(c, plain("bool", false, true)),
		typed(c, plain("struct{}", struct{}{})),
		typed(c, plain("float64", math.NaN(), 0, math.Copysign(0, -1))),
		typed(c, named("*int", ptr, nil, &one, &uno)),
		typed(c, named("[]byte", func(b []byte) string { return nilable(fmt.Sprintf("%q", b), b == nil) }, nil, []byte{}, []byte("a"))),
		typed(c, named("map", func(m map[string]int) string { return nilable(fmt.Sprint(m), m == nil) }, nil, map[string]int{})),
		typed(c, named("error", func(e error) string { return fmt.Sprint(e) }, nil, fmt.Errorf("e"))),
		typed(c, named("func", func(f func()) string { return nilable("f", f == nil) }, nil, func() {})),
		typed(c, plain("struct", sized{}, sized{"a", []int{1}, nil})),
		typed(c, named("string", func(s string) string { return fmt.Sprintf("%q", s) }, "", "\x00")),
	}
}

func typed[T any](c *Ctx, t typeT[T]) func() {
	if c.Prop == "C11" || c.Prop == "C16" {
		return func() { typedGen(c, t) }
	}
	return func() { typedIdxRun(c, t) }
}

func typedTask(name string) Task {
	return Task{Name: name, Run: func(c *Ctx) {
		for _, f := range eachType(c) {
			if c.Expired() {
				return
			}
			f()
		}
	}}
}

// ---- index tables ----

type typedIdx[T any] struct {
	t  idxtable.Table[T]
	of typeT[T]
}

type shownEntry[T any] struct {
	e  idxtable.Entry[T]
	of typeT[T]
}

func (e shownEntry[T]) ID() uint64   { return e.e.ID() }
func (e shownEntry[T]) Data() string { return e.of.show(e.e.Data()) }

func showEntry[T any](e idxtable.Entry[T], of typeT[T]) idxtable.Entry[string] {
	if e == nil {
		return nil
	}
	return shownEntry[T]{e, of}
}

func showEntries[T any](es idxtable.Entries[T], of typeT[T]) (r idxtable.Entries[string]) {
	for _, e := range es {
		r = append(r, showEntry(e, of))
	}
	return r
}

func (x *typedIdx[T]) Get(id uint64) (idxtable.Entry[string], error) {
	e, err := x.t.Get(id)
	return showEntry(e, x.of), err
}
func (x *typedIdx[T]) Claim(id uint64, d string) error { return x.t.Claim(id, x.of.val(d)) }
func (x *typedIdx[T]) ClaimDynamic(d string) (idxtable.Entry[string], error) {
	e, err := x.t.ClaimDynamic(x.of.val(d))
	return showEntry(e, x.of), err
}
func (x *typedIdx[T]) ClaimRange(start, size uint64, d string) error {
	return x.t.ClaimRange(start, size, x.of.val(d))
}
func (x *typedIdx[T]) ClaimSize(size uint64, d string) (idxtable.Entries[string], error) {
	es, err := x.t.ClaimSize(size, x.of.val(d))
	return showEntries(es, x.of), err
}
func (x *typedIdx[T]) Release(id uint64) error          { return x.t.Release(id) }
func (x *typedIdx[T]) Update(id uint64, d string) error { return x.t.Update(id, x.of.val(d)) }
func (x *typedIdx[T]) Size() int                        { return x.t.Size() }
func (x *typedIdx[T]) Has(id uint64) bool               { return x.t.Has(id) }
func (x *typedIdx[T]) IsFree(id uint64) bool            { return x.t.IsFree(id) }
func (x *typedIdx[T]) FindFree() (uint64, error)        { return x.t.FindFree() }
func (x *typedIdx[T]) FindFreeRange(min, size uint64) ([]uint64, error) {
	return x.t.FindFreeRange(min, size)
}
func (x *typedIdx[T]) FindFreeSize(size uint64) ([]uint64, error) { return x.t.FindFreeSize(size) }
func (x *typedIdx[T]) GetAll() idxtable.Entries[string]           { return showEntries(x.t.GetAll(), x.of) }

type shownIter[T any] struct {
	*idxtable.Iterator[T]
	of typeT[T]
}

func (i shownIter[T]) Value() idxtable.Entry[string] { return showEntry(i.Iterator.Value(), i.of) }

func (x *typedIdx[T]) iter(free bool) iterI {
	if free {
		return shownIter[T]{x.t.IterateFree(), x.of}
	}
	return shownIter[T]{x.t.Iterate(), x.of}
}

func typedIdxRun[T any](c *Ctx, t typeT[T]) {
	for _, n := range Pick(c, []uint64{1, 2, 3}, []uint64{1, 2, 3, 4}) {
		q := idxSpec(n, t.key, false)
		q.Name = fmt.Sprintf("index table of %d %s values (%v)", n, t.name, t.key)
		q.New = func() any { return &typedIdx[T]{idxtable.NewTable[T](n), t} }
		q.Run(c)
	}
}

// ---- prefix trees ----

type typedTree[T any] struct {
	t  *tree.Tree[T]
	of typeT[T]
}

func (x *typedTree[T]) match(f tree.MatchesFunc[int]) tree.MatchesFunc[T] {
	if f == nil {
		return nil
	}
	return func(a, b T) bool { return f(x.of.num(a), x.of.num(b)) }
}

func (x *typedTree[T]) Add(id tree.ID, v int, f tree.MatchesFunc[int]) (bool, int) {
	return x.t.Add(id, x.of.vals[v], x.match(f))
}
func (x *typedTree[T]) Set(id tree.ID, v int) (bool, int) { return x.t.Set(id, x.of.vals[v]) }
func (x *typedTree[T]) Delete(id tree.ID, f tree.MatchesFunc[int], v int) int {
	return x.t.Delete(id, x.match(f), x.of.vals[v])
}
func (x *typedTree[T]) DeleteWithBuffer(buf []int, id tree.ID, f tree.MatchesFunc[int], v int) int {
	return x.t.DeleteWithBuffer(make([]T, 0, cap(buf)), id, x.match(f), x.of.vals[v])
}

type shownTreeIter[T any] struct {
	i  *tree.TreeIterator[T]
	of typeT[T]
}

func (i shownTreeIter[T]) Next() bool { return i.i.Next() }
func (i shownTreeIter[T]) Vals() []int {
	var r []int
	for _, x := range i.i.Vals() {
		r = append(r, i.of.num(x))
	}
	return r
}
func (i shownTreeIter[T]) ValsWithBuffer(buf []int) []int {
	xs := make([]T, len(buf))
	for _, x := range i.i.ValsWithBuffer(xs)[len(xs):] {
		buf = append(buf, i.of.num(x))
	}
	return buf
}

func (x *typedTree[T]) iter() genIterI { return shownTreeIter[T]{x.t.Iterate(), x.of} }

func typedGen[T any](c *Ctx, t typeT[T]) {
	for _, w := range widths {
		ps := []pfx{{0, 0}, {0, uint8(w)}, {0, 1}, {1 << (w - 1), 1}}
		q := genSeq(w, "", nil, Pick(c, 3, 4))
		q.Name = fmt.Sprintf("tree of %d bits of %s values (%v)", w, t.name, t.key)
		q.New = func() any { return &typedTree[T]{tree.NewTree[T]("t", leftFn(w), uint8(w)), t} }
		for _, p := range ps {
			for v := range t.vals {
				q.Ops = append(q.Ops, genSet(w, p, v), genAdd(w, p, v, mNil), genAdd(w, p, v, mEq), genDel(w, p, v, mEq, v%2 == 0))
			}
			q.Ops = append(q.Ops, genDel(w, p, 0, mAll, false))
		}
		if c.Prop == "C16" {
			q.Ops = nil
			for _, p := range ps[1:] {
				for v := range t.vals {
					q.Ops = append(q.Ops, genSet(w, p, v))
				}
				q.Ops = append(q.Ops, genAdd(w, p, 0, mNil), genDel(w, p, 0, mAll, false))
			}
			q = cloneSeq("clones of a "+q.Name, q, Pick(c, 2, 3), func(x any) any {
				y := x.(*typedTree[T])
				return &typedTree[T]{y.t.Clone(), y.of}
			})
		}
		q.Run(c)
	}
}
