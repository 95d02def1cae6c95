package main

import (
	"fmt"
	"hash/maphash"

	"github.com/henderiw/idxtable/verifmc/rt"
)

// Seq is a breadth-first exploration of every operation sequence over an alphabet up to a depth. A state is the deep
// snapshot of the real object together with the reference-model state; transitions run the real operation.
type Seq struct {
	Name    string
	New     func() any
	Model   any
	Key     func(m any) string
	Init    []*Op // executed first (and checked)
	Ops     []*Op // mutators: transitions
	Reads   []*Op // readers: run in every new state, twice
	Holds   []*Op // listings taken before a transition and read out after it (Take is set)
	Depth   int   // 0: until closed
	Max     int   // cap on states (0: none); reaching it makes the run non-exhaustive
	ByModel bool  // deduplicate on the model state only (one representative history per model state)
	// Hook runs in every new state with a way to rebuild it (for relational checks over states).
	Hook func(c *Ctx, st *SeqState)
}

// SeqState is one explored state.
type SeqState struct {
	spec  *Seq
	path  []int32
	model any
	deep  string
}

// Build makes a fresh real object in this state.
func (st *SeqState) Build() any { return st.spec.build(st.path) }

// Trace names the operations that lead to this state.
func (st *SeqState) Trace(more ...string) []string {
	var tr []string
	for _, op := range st.spec.Init {
		tr = append(tr, op.Name)
	}
	for _, i := range st.path {
		tr = append(tr, st.spec.op(i).Name)
	}
	return append(tr, more...)
}

func (q *Seq) build(path []int32) any {
	restoreGlobals()
	sys := q.New()
	for _, op := range q.Init {
		exec(op, sys)
	}
	for _, i := range path {
		exec(q.op(i), sys)
	}
	return sys
}

// op is the operation of a path element: a mutator, or (from len(q.Ops) on) a reader.
func (q *Seq) op(i int32) *Op {
	if int(i) < len(q.Ops) {
		return q.Ops[i]
	}
	return q.Reads[int(i)-len(q.Ops)]
}

var hseed = maphash.MakeSeed()

type hkey [2]uint64

func hash(a, b string) hkey {
	return hkey{maphash.String(hseed, a), maphash.String(hseed, b+"\x00"+a)}
}

// step runs op on sys and checks it; ok=false means the transition is not followed (violation of another property).
func (c *Ctx) step(st *SeqState, op *Op, sys any, m any, trace func() []string) (any, Out, bool) {
	o := exec(op, sys)
	c.R.Transitions++
	progress.Add(1)
	if o.Panic != "" {
		c.Fail(op.Tags+" C23", fmt.Sprintf("%s: %s", op.Name, o.Panic), trace(), nil)
		return m, o, false
	}
	m2, bad := op.Spec(m, o)
	if bad != "" {
		tags, text := splitTag(op.Tags, bad)
		c.Fail(tags, op.Name+": "+text, trace(), nil)
		return m, o, false
	}
	return m2, o, true
}

// readAll runs every reader on sys against model m, the basic ones first, then all again in reverse order. lastTags are
// the properties of the operation that led here; they share the blame when a basic reader is wrong. The state is not
// explored further in that case; the other readers are asked all the same.
func (c *Ctx) readAll(q *Seq, sys any, m any, lastTags string, trace func(...string) []string) bool {
	good := c.readBasic(q, sys, m, lastTags, trace)
	for _, op := range q.Reads {
		if !op.Basic {
			c.readOne(op, sys, m, lastTags, trace)
		}
	}
	for j := len(q.Reads) - 1; j >= 0; j-- {
		if !c.readOne(q.Reads[j], sys, m, lastTags, trace) {
			good = false
		}
	}
	return good
}

// readBasic runs the basic readers only.
func (c *Ctx) readBasic(q *Seq, sys any, m any, lastTags string, trace func(...string) []string) bool {
	good := true
	for _, op := range q.Reads {
		if op.Basic && !c.readOne(op, sys, m, lastTags, trace) {
			good = false
		}
	}
	return good
}

// readOne runs one reader; false means that the state itself is wrong.
func (c *Ctx) readOne(op *Op, sys any, m any, lastTags string, trace func(...string) []string) bool {
	o := exec(op, sys)
	c.R.Transitions++
	progress.Add(1)
	tags, text := op.Tags, ""
	if o.Panic != "" {
		tags, text = tags+" C23", o.Panic
	} else {
		_, bad := op.Spec(m, o)
		tags, text = splitTag(tags, bad)
	}
	if text == "" {
		return true
	}
	if op.Basic {
		tags += " " + lastTags
	}
	c.Fail(tags, op.Name+": "+text, trace(op.Name), nil)
	return !op.Basic
}

// Run explores.
func (q *Seq) Run(c *Ctx) {
	if !c.Begin(q.Name) {
		return
	}
	defer func() {
		if globalsChanged() {
			c.Note("%s: package-level variables change at run time; they are part of the state", q.Name)
		}
	}()
	seen := map[hkey]bool{}
	variants := map[hkey]int{}
	// full: a state with the same contents as so many others that it is looked at, but not gone on from. On code that keeps
	// a count of what happened no exploration would ever close; such counts are the business of the stretches (stretch.go).
	most, whole := 16, true
	if q.Depth > 0 {
		most = 4000
	}
	if q.Model == nil { // relational checks: every state has the same, empty contents
		most *= 40
	}
	most = Pick(c, most, 20*most)
	full := func(m any) bool {
		if variants[hash("", q.Key(m))] <= most {
			return false
		}
		c.R.Exhaustive = false
		if whole {
			c.Note("%s: more than %d states with the same contents, not all of them are gone on from", q.Name, most)
		}
		whole = false
		return true
	}
	add := func(deep string, m any) bool {
		k := hash(deep, q.Key(m))
		if q.ByModel {
			k = hash("", q.Key(m))
		}
		if seen[k] {
			return false
		}
		seen[k] = true
		c.R.States++
		variants[hash("", q.Key(m))]++
		return true
	}
	root := &SeqState{spec: q, model: q.Model}
	restoreGlobals()
	sys := q.New()
	var itr []string
	for _, op := range q.Init {
		itr = append(itr, op.Name)
		m2, _, ok := c.step(root, op, sys, root.model, func() []string { return itr })
		if !ok {
			return
		}
		root.model = m2
	}
	if globalsChanged() {
		// restart with tracking switched on
		putGlobals()
		sys = q.build(nil)
	}
	root.deep = Snap(sys)
	add(root.deep, root.model)
	if !c.readAll(q, sys, root.model, "", root.Trace) {
		return
	}
	if q.Hook != nil {
		q.Hook(c, root)
	}
	// readerStates: when readers change the object (a cache, a counter), the states they leave are states too, and the
	// operations go on from there. At most two readers per history, and only so many such states: they come on top.
	left := Pick(c, 4000, 60000)
	readerStates := func(st *SeqState, sys any, tags string) (more []*SeqState) {
		if q.ByModel || Snap(sys) == st.deep {
			return nil
		}
		todo := []*SeqState{st}
		for len(todo) > 0 && !c.Expired() {
			from := todo[0]
			todo = todo[1:]
			n := 0
			for _, i := range from.path {
				if int(i) >= len(q.Ops) {
					n++
				}
			}
			if n >= 2 {
				continue
			}
			for i, op := range q.Reads {
				if left <= 0 {
					c.R.Exhaustive = false
					if left == 0 {
						c.Note("%s: readers change the object; the states only they lead to are not all explored", q.Name)
						left--
					}
					return more
				}
				s2 := from.Build()
				exec(op, s2)
				c.R.Transitions++
				deep := Snap(s2)
				if deep == from.deep || !add(deep, from.model) {
					continue
				}
				left--
				path := append(append(make([]int32, 0, len(from.path)+1), from.path...), int32(len(q.Ops)+i))
				ns := &SeqState{spec: q, path: path, model: from.model, deep: deep}
				if !c.readAll(q, s2, ns.model, tags+" "+op.Tags, ns.Trace) {
					continue
				}
				if q.Hook != nil {
					q.Hook(c, ns)
				}
				more = append(more, ns)
				todo = append(todo, ns)
			}
		}
		return more
	}
	frontier := append([]*SeqState{root}, readerStates(root, sys, "")...)
	depth := 0
	for len(frontier) > 0 && (q.Depth == 0 || depth < q.Depth) {
		depth++
		var next []*SeqState
		for _, st := range frontier {
			if c.Expired() {
				return
			}
			crumb(q.Name, st.Trace("(next operation)"))
			for i, op := range q.Ops {
				opTrace := func() []string { return st.Trace(op.Name) }
				sys := st.Build()
				iters := rt.MapIters
				m2, _, ok := c.step(st, op, sys, st.model, opTrace)
				if !ok {
					continue
				}
				c.R.Traces++
				if rt.MapIters != iters {
					// the operation iterated over a map: every other order must satisfy the specification too
					for o := 1; o < 4 && ok; o++ {
						s2 := st.Build()
						rt.MapOrder = o
						_, _, ok = c.step(st, op, s2, st.model, func() []string { return st.Trace(op.Name, fmt.Sprintf("(map iteration order %d)", o)) })
						if ok {
							ok = c.readAll(q, s2, m2, op.Tags, func(a ...string) []string {
								return st.Trace(append([]string{op.Name, fmt.Sprintf("(map iteration order %d)", o)}, a...)...)
							})
						}
						rt.MapOrder = 0
					}
					if !ok {
						continue
					}
				}
				if len(q.Holds) > 0 && !c.holds(q, st, op, m2) {
					continue
				}
				deep := ""
				if !q.ByModel {
					deep = Snap(sys)
				}
				if !add(deep, m2) {
					if q.ByModel {
						// the representative differs: the observations must still be the same
						c.readBasic(q, sys, m2, op.Tags, func(a ...string) []string { return st.Trace(append([]string{op.Name}, a...)...) })
					}
					continue
				}
				path := append(append(make([]int32, 0, len(st.path)+1), st.path...), int32(i))
				ns := &SeqState{spec: q, path: path, model: m2, deep: deep}
				if !c.readAll(q, sys, m2, op.Tags, ns.Trace) {
					continue
				}
				if q.Hook != nil {
					q.Hook(c, ns)
				}
				if c.R.States%997 == 5 {
					c.Sample("%s: %v -> model %s", q.Name, ns.Trace(), q.Key(m2))
				}
				if !full(m2) {
					next = append(append(next, ns), readerStates(ns, sys, op.Tags)...)
				}
				if q.Max > 0 && len(seen) >= q.Max {
					c.R.Exhaustive = false
					c.Note("%s: capped at %d states, complete to depth %d", q.Name, q.Max, depth-1)
					return
				}
			}
		}
		frontier = next
		if globalsChanged() {
			putGlobals()
		}
	}
	if len(frontier) == 0 {
		c.Note("%s: closed after depth %d, %d states", q.Name, depth-1, len(seen))
	} else {
		c.Note("%s: complete to depth %d, %d states", q.Name, depth, len(seen))
	}
	c.Sample("%s: alphabet of %d operations and %d readers, e.g. %s", q.Name, len(q.Ops), len(q.Reads), names(q.Ops, 12))
}

func names(ops []*Op, n int) string {
	s := ""
	for i, o := range ops {
		if i == n {
			return s + ", ..."
		}
		if i > 0 {
			s += ", "
		}
		s += o.Name
	}
	return s
}

// holds takes every listing, runs op, takes every listing again, and reads all of them out.
func (c *Ctx) holds(q *Seq, st *SeqState, op *Op, m2 any) bool {
	sys := st.Build()
	take := func() []func() string {
		var fs []func() string
		for _, h := range q.Holds {
			var f func() string
			o := exec(&Op{Name: h.Name, Do: func(s any) Out { f = h.Take(s); return Out{} }}, sys)
			if o.Panic != "" {
				p := o.Panic
				f = func() string { return p }
			}
			fs = append(fs, f)
		}
		return fs
	}
	read := func(fs []func() string, m any, when string) bool {
		for i, h := range q.Holds {
			o := exec(&Op{Name: h.Name, Do: func(any) Out { return Out{S: fs[i]()} }}, nil)
			c.R.Transitions++
			progress.Add(1)
			if _, bad := h.Spec(m, o); bad != "" {
				tags, text := splitTag(h.Tags, bad)
				c.Fail(tags, h.Name+" "+when+" "+op.Name+" and read out afterwards: "+text, st.Trace("(take "+h.Name+")", op.Name, "(read it out)"), nil)
				return false
			}
		}
		return true
	}
	before := take()
	exec(op, sys)
	after := take()
	return read(before, st.model, "taken before") && read(after, m2, "taken after")
}

// Script runs one fixed sequence of operations with full checking, then the readers.
func (c *Ctx) Script(q *Seq, ops []*Op) bool {
	restoreGlobals()
	sys := q.New()
	m := q.Model
	var tr []string
	last := ""
	for _, op := range ops {
		tr = append(tr, op.Name)
		crumbLazy(q.Name, tr)
		var ok bool
		m, _, ok = c.step(nil, op, sys, m, func() []string { return tr })
		if !ok {
			return false
		}
		last = op.Tags
	}
	c.R.Traces++
	return c.readAll(q, sys, m, last, func(a ...string) []string { return append(append([]string{}, tr...), a...) })
}

func crumbLazy(sub string, tr []string) {
	cr := curCrumb.Load()
	if cr != nil && cr.sub == sub {
		cr.trace = tr
	} else {
		crumb(sub, tr)
	}
	progress.Add(1)
}
