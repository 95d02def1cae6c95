package main

import (
	"fmt"
	"net/netip"
	"sort"
	"strings"

	nipam "github.com/hansthienpondt/nipam/pkg/table"
	"github.com/henderiw/idxtable/pkg/iptable"
)

// ---- IP tables ----

type ipM struct {
	from, to netip.Addr
	e        map[netip.Addr]string // address -> route as rendered
}

func (m ipM) with(f func(e map[netip.Addr]string)) ipM {
	e := make(map[netip.Addr]string, len(m.e)+1)
	for k, v := range m.e {
		e[k] = v
	}
	f(e)
	return ipM{m.from, m.to, e}
}

func (m ipM) addrs() []netip.Addr {
	ks := make([]netip.Addr, 0, len(m.e))
	for k := range m.e {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].Less(ks[j]) })
	return ks
}

// addr parses the text and says whether it is an address of the range.
func (m ipM) addr(text string) (netip.Addr, bool) {
	a, err := netip.ParseAddr(text)
	if err != nil || a.BitLen() != m.from.BitLen() || a.Less(m.from) || m.to.Less(a) {
		return a, false
	}
	return a, true
}

func (m ipM) free() (netip.Addr, bool) {
	for a := m.from; ; a = a.Next() {
		if _, ok := m.e[a]; !ok {
			return a, true
		}
		if a == m.to {
			return a, false
		}
	}
}

func ipKey(x any) string {
	m := x.(ipM)
	var b strings.Builder
	for _, k := range m.addrs() {
		fmt.Fprintf(&b, "%s=%s ", k, m.e[k])
	}
	return b.String()
}

// A route is written "prefix labels data", e.g. "10.9.0.0/24 a=1 x"; "zero" is the zero value.
func giveRoute(s string) nipam.Route {
	if s == "zero" {
		return nipam.Route{}
	}
	p, l, _ := strings.Cut(s, " ")
	l, d, ok := strings.Cut(l, " ")
	if ok {
		return nipam.NewRoute(netip.MustParsePrefix(p), giveLabels(l), map[string]any{"d": d})
	}
	return nipam.NewRoute(netip.MustParsePrefix(p), giveLabels(l), nil)
}

func renderRoute(r nipam.Route) string {
	s := ""
	if d := r.GetData(); len(d) > 0 {
		s = fmt.Sprint(d["d"])
		if len(d) > 1 {
			s = fmt.Sprint(d)
		}
	}
	return r.Prefix().String() + s + canonMap(r.Labels())
}

func canonRoute(s string) string {
	if s == "zero" {
		return "invalid Prefix{}"
	}
	p, l, _ := strings.Cut(s, " ")
	l, d, _ := strings.Cut(l, " ")
	return p + d + canon(l)
}

func renderRoutes(rs nipam.Routes) string {
	b := make([]string, len(rs))
	for i, r := range rs {
		b[i] = renderRoute(r)
	}
	return "[" + strings.Join(b, " ") + "]"
}

func ipClaim(a, r string) *Op {
	return det(fmt.Sprintf("Claim(%q,%s)", a, r), "C09 C24", false,
		func(s any) string { return es(s.(iptable.IPTable).Claim(a, giveRoute(r))) },
		func(x any) (any, string) {
			m := x.(ipM)
			ad, ok := m.addr(a)
			if _, used := m.e[ad]; used || !ok {
				return m, "err"
			}
			return m.with(func(e map[netip.Addr]string) { e[ad] = canonRoute(r) }), "ok"
		})
}

func ipUpdate(a, r string) *Op {
	return det(fmt.Sprintf("Update(%q,%s)", a, r), "C09 C24", false,
		func(s any) string { return es(s.(iptable.IPTable).Update(a, giveRoute(r))) },
		func(x any) (any, string) {
			m := x.(ipM)
			ad, ok := m.addr(a)
			if _, used := m.e[ad]; !used || !ok {
				return m, "err"
			}
			return m.with(func(e map[netip.Addr]string) { e[ad] = canonRoute(r) }), "ok"
		})
}

func ipRelease(a string) *Op {
	return det(fmt.Sprintf("Release(%q)", a), "C09 C24", false,
		func(s any) string { return es(s.(iptable.IPTable).Release(a)) },
		func(x any) (any, string) {
			m := x.(ipM)
			ad, ok := m.addr(a)
			if !ok {
				return m, "err"
			}
			return m.with(func(e map[netip.Addr]string) { delete(e, ad) }), "ok"
		})
}

func ipGet(a string) *Op {
	return det(fmt.Sprintf("Get(%q)", a), "C09", true,
		func(s any) string {
			r, err := s.(iptable.IPTable).Get(a)
			if err != nil {
				return "err"
			}
			handOut(func() string { return renderRoute(r) })
			return renderRoute(r)
		},
		func(x any) (any, string) {
			m := x.(ipM)
			ad, ok := m.addr(a)
			r, used := m.e[ad]
			if !ok || !used {
				return x, "err"
			}
			return x, r
		})
}

func ipHas(a string) *Op {
	return det(fmt.Sprintf("Has(%q)", a), "C09", true,
		func(s any) string { return fmt.Sprint(s.(iptable.IPTable).Has(a)) },
		func(x any) (any, string) {
			m := x.(ipM)
			ad, ok := m.addr(a)
			_, used := m.e[ad]
			return x, fmt.Sprint(ok && used)
		})
}

func ipIsFree(a string) *Op {
	return det(fmt.Sprintf("IsFree(%q)", a), "C09", true,
		func(s any) string { return fmt.Sprint(s.(iptable.IPTable).IsFree(a)) },
		func(x any) (any, string) {
			m := x.(ipM)
			ad, ok := m.addr(a)
			_, used := m.e[ad]
			return x, fmt.Sprint(ok && !used)
		})
}

func ipSize() *Op {
	return det("Size()", "C09", true,
		func(s any) string { return fmt.Sprint(s.(iptable.IPTable).Size()) },
		func(x any) (any, string) { return x, fmt.Sprint(len(x.(ipM).e)) })
}

func ipFindFree() *Op {
	return det("FindFree()", "C09", true,
		func(s any) string {
			a, err := s.(iptable.IPTable).FindFree()
			if err != nil {
				return "err"
			}
			return a.String()
		},
		func(x any) (any, string) {
			a, ok := x.(ipM).free()
			if !ok {
				return x, "err"
			}
			return x, a.String()
		})
}

func (m ipM) list(match func(map[string]string) bool) string {
	b := []string{}
	for _, a := range m.addrs() {
		r := m.e[a]
		if match(uncanon(r[strings.IndexByte(r, '{'):])) {
			b = append(b, r)
		}
	}
	return "[" + strings.Join(b, " ") + "]"
}

func ipGetAll() *Op {
	return listing("GetAll()", "C09",
		func(s any) func() string {
			rs := s.(iptable.IPTable).GetAll()
			handList(rs, junkRoute)
			return func() string { return renderRoutes(rs) }
		},
		func(x any) string { return x.(ipM).list(func(map[string]string) bool { return true }) })
}

func ipGetByLabel(sl selT) *Op {
	return listing("GetByLabel("+sl.name+")", "C09",
		func(s any) func() string {
			rs := s.(iptable.IPTable).GetByLabel(sl.sel)
			handList(rs, junkRoute)
			return func() string { return renderRoutes(rs) }
		},
		func(x any) string { return x.(ipM).list(sl.match) })
}

// ipForms gives the textual forms of an address.
func ipForms(a netip.Addr) []string {
	if a.Is4() {
		return []string{a.String()}
	}
	fs := []string{a.String()}
	for _, f := range []string{a.StringExpanded(), strings.ToUpper(a.StringExpanded()), strings.ToUpper(a.String())} {
		dup := false
		for _, g := range fs {
			dup = dup || f == g
		}
		if !dup {
			fs = append(fs, f)
		}
	}
	// dotted-quad ending
	b := a.As16()
	if fs2 := fmt.Sprintf("%x:%x:%x:%x:%x:%x:%d.%d.%d.%d", int(b[0])<<8|int(b[1]), int(b[2])<<8|int(b[3]), int(b[4])<<8|int(b[5]), int(b[6])<<8|int(b[7]), int(b[8])<<8|int(b[9]), int(b[10])<<8|int(b[11]), b[12], b[13], b[14], b[15]); true {
		fs = append(fs, fs2)
	}
	return fs
}

var badIPs = []string{"", "abc", "10.0.0", "10.0.0.256", "010.0.0.1", "10.0.0.1/32", " 10.0.0.1", "1", "::g", ":::", "2001:db8::1/64"}

func ipSeq(from, to string, depth int, forms bool, wide bool) *Seq {
	f, t := netip.MustParseAddr(from), netip.MustParseAddr(to)
	q := &Seq{Name: fmt.Sprintf("IP table %s-%s", from, to), Depth: depth,
		New:   func() any { return iptable.New(f, t) },
		Model: ipM{f, t, map[netip.Addr]string{}}, Key: ipKey}
	var in []netip.Addr
	if wide {
		in = append(in, f, f.Next(), mid(f, t), mid(f, t).Next(), t.Prev(), t)
	} else {
		for a := f; ; a = a.Next() {
			in = append(in, a)
			if a == t {
				break
			}
		}
	}
	n := 0
	for _, a := range in {
		fs := ipForms(a)
		for i, tx := range fs {
			q.Reads = append(q.Reads, basic(ipGet(tx), ipHas(tx), ipIsFree(tx))...)
			if i > 0 && !forms {
				continue
			}
			n++
			r := []string{"10.9.0.0/24 a=1", "10.8.0.0/16 a=2,b=2 x", "zero", "10.9.0.0/24 a= y", "2001:db8::/32 -", "10.9.0.0/24 b=2"}[n%6]
			up := []string{"10.7.0.0/24 a=1,u=1", "10.7.0.0/24 a=1,u=1 z"}[n%2]
			q.Ops = append(q.Ops, ipClaim(tx, r), ipUpdate(tx, up), ipRelease(tx))
			if i == 0 && r != "zero" {
				// the same route with other data
				f := strings.Fields(r)
				q.Ops = append(q.Ops, ipUpdate(tx, f[0]+" "+f[1]+" q"))
			}
		}
	}
	// addresses next to and far from the range, of the other family, and texts that are no addresses
	out := append([]string{}, badIPs...)
	for _, a := range []netip.Addr{f.Prev(), t.Next(), far(f, 0), far(f, 1), far(f, 8), far(f, 24), far(t, 63), far(t, 64), far(f, 65), far(f, 127)} {
		if a.IsValid() && !(a.Compare(f) >= 0 && a.Compare(t) <= 0) {
			out = append(out, a.String())
		}
	}
	if f.Is4() {
		out = append(out, "::", "::1", "::"+f.String(), "2001:db8::1")
	} else {
		out = append(out, "0.0.0.0", "10.0.0.1", "0.0.0.1", "255.255.255.255")
	}
	for _, a := range out {
		q.Ops = append(q.Ops, ipClaim(a, "10.9.0.0/24 a=1"), ipUpdate(a, "10.9.0.0/24 a=1"), ipRelease(a))
		q.Reads = append(q.Reads, basic(ipGet(a), ipHas(a), ipIsFree(a))...)
	}
	q.Reads = append(q.Reads, basic(ipSize())...)
	q.Reads = append(q.Reads, ipFindFree(), ipGetAll())
	for _, sl := range selectors {
		q.Reads = append(q.Reads, ipGetByLabel(sl))
	}
	q.Holds = []*Op{ipGetAll(), ipGetByLabel(selectors[2])}
	return q
}

// far flips one bit (counted from the lowest).
func far(a netip.Addr, bit int) netip.Addr {
	if a.Is4() {
		b := a.As4()
		if bit >= 32 {
			return netip.Addr{}
		}
		b[3-bit/8] ^= 1 << (bit % 8)
		return netip.AddrFrom4(b)
	}
	b := a.As16()
	b[15-bit/8] ^= 1 << (bit % 8)
	r := netip.AddrFrom16(b)
	if r.Is4In6() {
		return netip.Addr{}
	}
	return r
}

// mid is the address in the middle of the range.
func mid(f, t netip.Addr) netip.Addr {
	fb, tb := f.AsSlice(), t.AsSlice()
	n := len(fb)
	sum := make([]int, n)
	carry := 0
	for i := n - 1; i >= 0; i-- {
		s := int(fb[i]) + int(tb[i]) + carry
		sum[i], carry = s&255, s>>8
	}
	out := make([]byte, n)
	for i := 0; i < n; i++ {
		v := carry<<8 | sum[i]
		out[i] = byte(v >> 1)
		carry = v & 1
	}
	a, _ := netip.AddrFromSlice(out)
	return a
}

var ipSmall = [][2]string{
	{"10.0.0.1", "10.0.0.3"}, {"0.0.0.0", "0.0.0.1"}, {"255.255.255.254", "255.255.255.255"}, {"10.0.0.255", "10.0.1.1"},
	{"127.255.255.255", "128.0.0.1"}, {"192.168.1.7", "192.168.1.7"}, {"10.255.255.255", "11.0.0.0"},
	{"::", "::1"}, {"2001:db8::1", "2001:db8::2"}, {"2001:db8::ffff:ffff:ffff:ffff", "2001:db8:0:1::"},
	{"7fff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "8000::"}, {"ffff:ffff:ffff:ffff:ffff:ffff:ffff:fffe", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"},
	{"fe80::ffff", "fe80::1:0"}, {"2001:db8::7fff:ffff:ffff:ffff", "2001:db8::8000:0:0:0"}, {"fc00::7", "fc00::7"}, {"1:2:3:4:5:6:7:ff", "1:2:3:4:5:6:7:100"},
}

var ipWide = [][2]string{
	{"10.0.0.0", "10.255.255.255"}, {"0.0.0.0", "255.255.255.255"}, {"192.0.2.0", "192.0.3.255"}, {"2001:db8::", "2001:db8::ffff:ffff:ffff:ffff"},
	{"2001:db8::", "2001:db8::7fff:ffff:ffff:ffff"}, {"2001:db8::5", "2001:db8::8000:0:0:4"}, {"2001:db8::8000:0:0:0", "2001:db8:0:1:7fff:ffff:ffff:ffff"},
	{"::", "::ffff:fffe"}, {"::1", "::ffff:ffff:ffff"}, {"fe80::", "fe80::1:0:0:0"},
}

func ipTasks(tier string) []Task {
	quick := tier != "thorough"
	var ts []Task
	for _, r := range ipSmall {
		r := r
		ts = append(ts, Task{Name: "ip-" + r[0] + "-" + r[1], Run: func(c *Ctx) { ipSeq(r[0], r[1], 0, true, false).Run(c) }})
	}
	if !quick {
		for _, r := range [][2]string{{"10.0.0.1", "10.0.0.4"}, {"::", "::3"}, {"2001:db8::ffff:ffff:ffff:fffe", "2001:db8:0:1::1"}, {"255.255.255.252", "255.255.255.255"}, {"0.0.0.0", "0.0.0.3"}} {
			r := r
			ts = append(ts, Task{Name: "ip4-" + r[0] + "-" + r[1], Run: func(c *Ctx) { ipSeq(r[0], r[1], 0, false, false).Run(c) }})
		}
	}
	for _, r := range ipWide {
		r := r
		ts = append(ts, Task{Name: "ip-wide-" + r[0] + "-" + r[1], Run: func(c *Ctx) { ipSeq(r[0], r[1], Pick(c, 2, 3), false, true).Run(c) }})
	}
	ts = append(ts, Task{Name: "ip-pair", Run: func(c *Ctx) {
		pairSeq("two IP tables", ipSeq("10.0.0.1", "10.0.0.2", 0, false, false), ipSeq("10.0.0.2", "10.0.0.3", 0, false, false), 3).Run(c)
	}})
	ts = append(ts, Task{Name: "ip-shapes", Run: ipShapes})
	ts = append(ts, Task{Name: "ip-scale", Shards: 4, Run: ipScale})
	ts = append(ts, Task{Name: "ip-many", Shards: 4, Run: ipMany})
	ts = append(ts, Task{Name: "ip-live", Run: ipLive})
	for _, from := range []string{"10.0.0.255", "2001:db8::ffff"} {
		ts = append(ts, stretchTask("ip-"+from, 4, false, func() stretchT { return ipStretch(from) }))
	}
	ts = append(ts, ipHuge()...)
	return ts
}

// ipShapes: every occupied subset of a range at many positions.
func ipShapes(c *Ctx) {
	n := Pick(c, 6, 9)
	for _, from := range []string{"10.0.0.253", "0.0.0.0", "255.255.255.240", "2001:db8::fffd", "2001:db8::ffff:ffff:ffff:fffd", "::"} {
		f := netip.MustParseAddr(from)
		t := f
		as := []netip.Addr{f}
		for i := 1; i < n; i++ {
			t = t.Next()
			as = append(as, t)
		}
		q := ipSeq(from, t.String(), 0, false, false)
		q.Name = "occupancies of " + q.Name
		if !c.Begin(q.Name) {
			continue
		}
		for set := 0; set < 1<<n; set++ {
			if c.Expired() {
				return
			}
			c.R.States++
			var ops []*Op
			for k := 0; k < n; k++ {
				i := (k * 5) % n // not in address order
				if n%5 == 0 {
					i = k
				}
				if set>>i&1 == 1 {
					ops = append(ops, ipClaim(as[i].String(), fmt.Sprintf("10.%d.0.0/16 a=%d", i, i%3)))
				}
			}
			c.Script(q, ops)
		}
		c.Note("%s: %d occupancies", q.Name, 1<<n)
	}
}

// ipHuge: ranges of more than 2^64 addresses, one probe each.
func ipHuge() []Task {
	var ts []Task
	for i, p := range []struct{ from, to, claim, look string }{
		{"2001:db8::", "2001:db8:0:1:ffff:ffff:ffff:ffff", "2001:db8::5", "2001:db8:0:1::5"},
		{"2001:db8::", "2001:db8:0:1::", "2001:db8::1", "2001:db8::1"},
		{"::", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "::5", "0:0:0:1::5"},
	} {
		p := p
		ts = append(ts, Task{Name: fmt.Sprintf("ip-huge-%d", i), Run: func(c *Ctx) {
			f, t := netip.MustParseAddr(p.from), netip.MustParseAddr(p.to)
			q := &Seq{Name: fmt.Sprintf("IP table %s-%s", p.from, p.to), New: func() any { return iptable.New(f, t) }, Model: ipM{f, t, map[netip.Addr]string{}}, Key: ipKey}
			q.Reads = basic(ipHas(p.look), ipGet(p.look), ipIsFree(p.look), ipHas(p.claim), ipGet(p.claim))
			if c.Begin(q.Name) {
				c.R.States++
				c.Script(q, []*Op{ipClaim(p.claim, "10.9.0.0/24 a=1")})
			}
		}})
	}
	return ts
}

func ipConc(name string, v6 bool, init []*Op) *Conc {
	a := []string{"10.0.0.1", "10.0.0.2", "10.0.0.3"}
	if v6 {
		a = []string{"2001:db8::1", "2001:db8::2", "2001:db8::3"}
	}
	f, t := netip.MustParseAddr(a[0]), netip.MustParseAddr(a[2])
	return &Conc{Name: name, New: func() any { return iptable.New(f, t) }, Model: ipM{f, t, map[netip.Addr]string{}}, Init: init,
		Ops: []*Op{
			ipClaim(a[0], "10.9.0.0/24 a=1"), ipClaim(a[0], "10.8.0.0/24 b=1"), ipRelease(a[0]), ipUpdate(a[0], "10.7.0.0/24 a=2"), // 0-3
			ipGetAll(), ipGetByLabel(selectors[2]), ipFindFree(), ipGet(a[0]), // 4-7
			ipClaim(a[2], "10.6.0.0/24 a=1"), ipRelease(a[2]), ipHas(a[0]), ipIsFree(a[0]), ipSize(), // 8-12
			ipClaim(a[1], "10.5.0.0/24 c=1"), ipRelease(a[1]), ipUpdate(a[1], "10.4.0.0/24 a=7"), ipClaim("bad", "10.9.0.0/24 a=1"), // 13-16
		},
		Final: []*Op{ipGetAll(), ipFindFree(), ipSize()},
		Holds: []*Op{ipGetAll()},
	}
}

func init() {
	register("C09", ipTasks, "IPv4-mapped and zoned addresses are outside the specification")
	register("C10", func(tier string) []Task {
		quick := tier != "thorough"
		inits := map[string][]*Op{
			"empty": nil,
			"full":  {ipClaim("10.0.0.1", "10.1.0.0/24 a=9"), ipClaim("10.0.0.2", "10.1.0.0/24 b=9"), ipClaim("10.0.0.3", "10.1.0.0/24 c=9")},
			"mixed": {ipClaim("10.0.0.3", "10.1.0.0/24 a=9")},
		}
		ts := []Task{{Name: "among-many", Race: true, Shards: 4, Run: func(c *Ctx) { ipInterfere(c, false) }},
			{Name: "among-many-v6", Race: true, Shards: 4, Run: func(c *Ctx) { ipInterfere(c, true) }}}
		for _, in := range []string{"empty", "full", "mixed", "v6"} {
			in := in
			v6 := in == "v6"
			nm := func(s string) string { return fmt.Sprintf("IP table %s, %s", in, s) }
			ts = append(ts, Task{Name: "conc-2x1-3x1-" + in, Race: true, Shards: 2, Run: func(c *Ctx) {
				q := ipConc(nm("2 and 3 threads, 1 call each"), v6, inits[in])
				q.Run(c, q.keepMutating(append(programs(2, 1, seqInts(len(q.Ops))), programs(3, 1, seqInts(Pick(c, 13, len(q.Ops))))...)))
			}})
			if v6 && quick {
				continue
			}
			ts = append(ts, Task{Name: "conc-2x2-" + in, Race: true, Shards: Pick2(quick, 6, 16), Run: func(c *Ctx) {
				q := ipConc(nm("2 threads, 2 calls each"), v6, inits[in])
				q.Run(c, q.keepMutating(programs(2, 2, Pick(c, seqInts(9), seqInts(len(q.Ops))))))
			}})
			if !quick {
				ts = append(ts, Task{Name: "conc-3x2-" + in, Race: true, Shards: 8, Run: func(c *Ctx) {
					q := ipConc(nm("3 threads, 2 calls each"), v6, inits[in])
					q.Run(c, q.keepMutating(programs(3, 2, []int{0, 2, 3, 4})))
				}})
				ts = append(ts, Task{Name: "conc-2x3-" + in, Race: true, Shards: 8, Run: func(c *Ctx) {
					q := ipConc(nm("2 threads, 3 calls each"), v6, inits[in])
					q.Run(c, q.keepMutating(programs(2, 3, []int{0, 2, 3, 4, 5, 6})))
				}})
			}
		}
		return ts
	}, concAssume...)
}
