package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/henderiw/idxtable/pkg/tree"
	"k8s.io/apimachinery/pkg/labels"
)

// Label sets are written "a=1,b=2"; "-" is a nil map and "{}" an empty one (both mean: no labels). The model stores the
// canonical rendering.

func giveLabels(s string) labels.Set {
	switch s {
	case "-":
		return nil
	case "{}":
		return labels.Set{}
	}
	m := labels.Set{}
	for _, kv := range strings.Split(s, ",") {
		k, v, _ := strings.Cut(kv, "=")
		m[k] = v
	}
	return m
}

// noSpoil is set while client programs run concurrently.
var noSpoil bool

// spoil is what the caller does with the map after the call: the entry must not notice.
func spoil(m labels.Set) {
	if m == nil || noSpoil {
		return
	}
	for k := range m {
		delete(m, k)
	}
	m["spoiled"] = "yes"
}

func canonMap(m map[string]string) string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	b.WriteByte('{')
	for i, k := range ks {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(k + "=" + m[k])
	}
	b.WriteByte('}')
	return b.String()
}

func canon(s string) string { return canonMap(giveLabels(s)) }

// uncanon gives the model's label map back.
func uncanon(c string) map[string]string {
	c = c[1 : len(c)-1]
	if c == "" {
		return map[string]string{}
	}
	return giveLabels(c)
}

func renderTE(e tree.Entry) string {
	if e == nil {
		return "<nil entry>"
	}
	if e.ID() == nil {
		return "<entry without id>"
	}
	return fmt.Sprintf("%s/%d%s", u(e.ID().ID()), e.ID().Length(), canonMap(e.Labels()))
}

func renderTEs(es tree.Entries) string {
	b := make([]string, len(es))
	for i, e := range es {
		b[i] = renderTE(e)
	}
	return "[" + strings.Join(b, " ") + "]"
}

type selT struct {
	name  string
	sel   labels.Selector
	match func(m map[string]string) bool
}

func mustSel(s string) labels.Selector {
	x, err := labels.Parse(s)
	if err != nil {
		panic(err)
	}
	return x
}

var selectors = []selT{
	{"everything", labels.Everything(), func(map[string]string) bool { return true }},
	{"a=1", mustSel("a=1"), func(m map[string]string) bool { return m["a"] == "1" }},
	{"a", mustSel("a"), func(m map[string]string) bool { _, ok := m["a"]; return ok }},
	{"!a", mustSel("!a"), func(m map[string]string) bool { _, ok := m["a"]; return !ok }},
	{"a=1,b=2", mustSel("a=1,b=2"), func(m map[string]string) bool { return m["a"] == "1" && m["b"] == "2" }},
	{"b!=2", mustSel("b!=2"), func(m map[string]string) bool { return m["b"] != "2" }},
	{"nothing", labels.Nothing(), func(map[string]string) bool { return false }},
	{"a=", mustSel("a="), func(m map[string]string) bool { v, ok := m["a"]; return ok && v == "" }},
	{"a in (1,3)", mustSel("a in (1,3)"), func(m map[string]string) bool { return m["a"] == "1" || m["a"] == "3" }},
	{"a notin (1,3),!c", mustSel("a notin (1,3),!c"), func(m map[string]string) bool { _, ok := m["c"]; return m["a"] != "1" && m["a"] != "3" && !ok }},
	{"a>1", mustSel("a>1"), func(m map[string]string) bool { n, err := strconv.ParseInt(m["a"], 10, 64); return err == nil && n > 1 }},
	{"a=1,a in (1,2),b", mustSel("a=1,a in (1,2),b"), func(m map[string]string) bool { _, ok := m["b"]; return m["a"] == "1" && ok }},
}

// pairSeq explores two objects side by side: operations on one never show on the other.
type pairT struct{ a, b any }
type pairM struct{ a, b any }

func pairWrap(op *Op, second bool) *Op {
	w := *op
	pre := "first."
	if second {
		pre = "second."
	}
	w.Name = pre + op.Name
	get := func(s any) any {
		if second {
			return s.(*pairT).b
		}
		return s.(*pairT).a
	}
	if op.Do != nil {
		w.Do = func(s any) Out { return op.Do(get(s)) }
	}
	if op.Take != nil {
		w.Take = func(s any) func() string { return op.Take(get(s)) }
	}
	w.Spec = func(m any, o Out) (any, string) {
		p := m.(pairM)
		if second {
			x, bad := op.Spec(p.b, o)
			return pairM{p.a, x}, bad
		}
		x, bad := op.Spec(p.a, o)
		return pairM{x, p.b}, bad
	}
	return &w
}

func pairSeq(name string, a, b *Seq, depth int) *Seq {
	q := &Seq{Name: name, Depth: depth,
		New:   func() any { return &pairT{a.New(), b.New()} },
		Model: pairM{a.Model, b.Model},
		Key:   func(m any) string { p := m.(pairM); return a.Key(p.a) + "|" + b.Key(p.b) }}
	for i, base := range []*Seq{a, b} {
		for _, op := range base.Ops {
			q.Ops = append(q.Ops, pairWrap(op, i == 1))
		}
		for _, op := range base.Reads {
			q.Reads = append(q.Reads, pairWrap(op, i == 1))
		}
		for _, op := range base.Holds {
			q.Holds = append(q.Holds, pairWrap(op, i == 1))
		}
	}
	return q
}
