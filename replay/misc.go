package main

import (
	"fmt"
	"math"
	"math/bits"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/internal/pkg/iterator"
	"github.com/arr-ai/frozen/internal/pkg/masker"
	"github.com/arr-ai/frozen/pkg/rel"
)

type integer interface {
	~int | ~uint | ~int8 | ~uint8 | ~int16 | ~uint16 | ~int32 | ~uint32 | ~int64 | ~uint64 | ~uintptr
}

// intPool makes interesting integers of type I: neighbours of cell boundaries and
// of both ends of the range.
func intPool[I integer](c *Case) []I {
	var zero I
	bitsz := 0
	for x := ^zero; x != 0; x <<= 1 {
		bitsz++
	}
	anchors := []uint64{0, 64, 128, ^uint64(0), 1 << uint(bitsz-1), 1<<uint(bitsz-1) - 64, c.u64(), c.u64() & 1023, ^uint64(63), ^uint64(127)}
	var out []I
	if c.oneIn(6) { // a run of neighbours: full cells
		n := 64 + c.n(150)
		if c.oneIn(20) {
			n = 1000 + c.n(2000)
		}
		a := I(anchors[c.n(len(anchors))])
		seen := map[I]bool{}
		for k := 0; k < n && !seen[a]; k++ {
			seen[a] = true
			out = append(out, a)
			a++
		}
		c.logf("a run of %d from %d", len(out), out[0])
		return out
	}
	for k := 2 + c.n(c.size+6); k > 0; k-- {
		out = append(out, I(anchors[c.n(len(anchors))]+uint64(c.n(7))-3))
	}
	return out
}

type iset[I integer] struct {
	s frozen.IntSet[I]
	m map[I]bool
	n string
}

func ihas[I integer](s frozen.IntSet[I], u []I) map[I]bool {
	m := map[I]bool{}
	for _, i := range u {
		if s.Has(i) {
			m[i] = true
		}
	}
	return m
}
func meq[I comparable](a, b map[I]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

func intHistory[I integer](c *Case, u []I) []*iset[I] {
	var ps []*iset[I]
	add := func(s frozen.IntSet[I], m map[I]bool, f string, a ...any) *iset[I] {
		x := &iset[I]{s, m, fmt.Sprintf("s%d", len(ps))}
		c.logf("%s := %s", x.n, fmt.Sprintf(f, a...))
		ps = append(ps, x)
		return x
	}
	add(frozen.IntSet[I]{}, map[I]bool{}, "IntSet[%T]{}", u[0])
	for k := 1 + c.n(c.size+3); k > 0; k-- {
		x := ps[c.n(len(ps))]
		if c.oneIn(2) {
			x = ps[len(ps)-1]
		}
		i := u[c.n(len(u))]
		m := map[I]bool{}
		for e := range x.m {
			m[e] = true
		}
		switch c.n(8) {
		case 0:
			var es []I
			m = map[I]bool{}
			d := []int{50, 50, 97, 100}[c.n(4)]
			for _, e := range u {
				if c.n(100) < d {
					es = append(es, e)
					m[e] = true
				}
			}
			s := frozen.NewIntSet(es...)
			if c.b() && len(es) < 300 { // another history
				s = frozen.IntSet[I]{}
				for _, e := range es {
					s = s.With(e)
				}
			}
			if c.logging {
				add(s, m, "the IntSet of %v", es)
			} else {
				add(s, m, "")
			}
		case 1, 2, 3, 4:
			m[i] = true
			add(x.s.With(i), m, "%s.With(%d)", x.n, i)
		default:
			delete(m, i)
			add(x.s.Without(i), m, "%s.Without(%d)", x.n, i)
		}
	}
	return ps
}

func c13[I integer](c *Case) {
	u := intPool[I](c)
	ps := intHistory(c, u)
	for _, x := range ps {
		got := ihas(x.s, u)
		c.check(meq(got, x.m), "%s has %v, want %v", x.n, got, x.m)
		c.check(x.s.Count() == len(x.m), "%s.Count() = %d, want %d", x.n, x.s.Count(), len(x.m))
		c.check(x.s.IsEmpty() == (len(x.m) == 0), "%s.IsEmpty() = %v, has %v", x.n, x.s.IsEmpty(), x.m)
		seen := map[I]bool{}
		it := x.s.Range()
		for it.Next() {
			v := it.Value()
			c.check(x.m[v] && !seen[v], "%s.Range() yields %d (again: %v), has %v", x.n, v, seen[v], x.m)
			seen[v] = true
		}
		c.check(meq(seen, x.m), "%s.Range() yields %v, has %v", x.n, seen, x.m)
		es := x.s.Elements()
		seen = map[I]bool{}
		for _, e := range es {
			seen[e] = true
		}
		c.check(len(es) == len(x.m) && meq(seen, x.m), "%s.Elements() = %v, has %v", x.n, es, x.m)
		if len(x.m) > 0 {
			c.check(x.m[x.s.Any()], "%s.Any() = %d, has %v", x.n, x.s.Any(), x.m)
		} else {
			c.check(panics(func() { x.s.Any() }), "Any of an empty IntSet does not panic")
		}
	}
}

func c14[I integer](c *Case) {
	u := intPool[I](c)
	ps := intHistory(c, u)
	full := func(s frozen.IntSet[I]) map[I]bool {
		m := map[I]bool{}
		for i := s.Range(); i.Next(); {
			m[i.Value()] = true
		}
		return m
	}
	for k := 0; k < 6; k++ {
		x, y := ps[c.n(len(ps))], ps[c.n(len(ps))]
		un, in := map[I]bool{}, map[I]bool{}
		sub := true
		for e := range x.m {
			un[e] = true
			if y.m[e] {
				in[e] = true
			} else {
				sub = false
			}
		}
		for e := range y.m {
			un[e] = true
		}
		ck := func(op string, s frozen.IntSet[I], want map[I]bool) {
			got := full(s)
			c.check(meq(got, want) && meq(ihas(s, u), want), "%s is %v, want %v", op, got, want)
			c.check(s.Count() == len(want), "%s counts %d, want %d", op, s.Count(), len(want))
			c.check(s.IsEmpty() == (len(want) == 0), "%s IsEmpty %v", op, s.IsEmpty())
			var es []I
			for e := range want {
				es = append(es, e)
			}
			r := frozen.NewIntSet(es...)
			c.check(s.Equal(r) && r.Equal(s) && s.EqualSet(r) && s.Same(r), "%s does not Equal a set of the same elements %v", op, es)
		}
		ck(x.n+".Union("+y.n+")", x.s.Union(y.s), un)
		ck(x.n+".Intersection("+y.n+")", x.s.Intersection(y.s), in)
		c.check(x.s.IsSubsetOf(y.s) == sub, "%s.IsSubsetOf(%s) = %v: %v, %v", x.n, y.n, x.s.IsSubsetOf(y.s), x.m, y.m)
		eq := meq(x.m, y.m)
		c.check(x.s.Equal(y.s) == eq && x.s.EqualSet(y.s) == eq && x.s.Same(y.s) == eq, "%s.Equal(%s) = %v: %v, %v", x.n, y.n, x.s.Equal(y.s), x.m, y.m)
		c.check(!x.s.Same(1) && !x.s.Same(nil), "Same of a value of another type")
		a := c.u64()
		p := func(i I) bool { return (uint64(i)*2654435761+a)>>3&1 == 0 }
		if c.oneIn(4) {
			p = func(i I) bool { return i&I(63) == 0 }
		}
		w, mp := map[I]bool{}, map[I]bool{}
		d := I(c.n(200))
		for e := range x.m {
			if p(e) {
				w[e] = true
			}
			mp[e/2+d] = true
		}
		ck(x.n+".Where", x.s.Where(p), w)
		g := x.s.Map(func(i I) I { return i/2 + d })
		c.check(meq(full(g), mp) && g.Count() == len(mp) && g.IsEmpty() == (len(mp) == 0), "%s.Map(i/2+%d) is %v, want %v", x.n, d, full(g), mp)
		var mes []I
		for e := range mp {
			mes = append(mes, e)
		}
		r := frozen.NewIntSet(mes...)
		c.check(meq(ihas(g, mes), mp) && g.Equal(r) && r.Equal(g), "%s.Map does not Equal a set of the same elements", x.n)
	}
}

func init() {
	for _, f := range []struct {
		name string
		f    func(c *Case)
	}{{"int", c13[int]}, {"int8", c13[int8]}, {"uint8", c13[uint8]}, {"int16", c13[int16]}, {"int32", c13[int32]}, {"int64", c13[int64]}, {"uint64", c13[uint64]}, {"uint", c13[uint]}} {
		reg("C13", "intset-"+f.name, f.f)
	}
	for _, f := range []struct {
		name string
		f    func(c *Case)
	}{{"int", c14[int]}, {"int8", c14[int8]}, {"uint8", c14[uint8]}, {"int16", c14[int16]}, {"int64", c14[int64]}, {"uint64", c14[uint64]}} {
		reg("C14", "intset-"+f.name, f.f)
	}
	reg("C24", "bits", func(c *Case) {
		b := c.u64()
		switch c.n(5) {
		case 0:
			b &= c.u64() & c.u64()
		case 1:
			b = 1 << uint(c.n(64))
		case 2:
			b = 0
		case 3:
			b = ^uint64(0) << uint(c.n(64))
		}
		i := c.n(64)
		c.logf("b = %#x, i = %d", b, i)
		bit := uint64(1) << uint(i)
		f, g := frozen.BitIterator(b), iterator.BitIterator(b)
		c.check(uint64(f.With(i)) == b|bit && uint64(g.With(i)) == b|bit, "With(%d) of %#x = %#x, %#x", i, b, f.With(i), g.With(i))
		c.check(uint64(f.Without(i)) == b&^bit && uint64(g.Without(i)) == b&^bit, "Without(%d) of %#x = %#x, %#x", i, b, uint64(f.Without(i)), uint64(g.Without(i)))
		c.check(f.Has(i) == (b&bit != 0) && g.Has(i) == (b&bit != 0), "Has(%d) of %#x", i, b)
		c.check(f.Count() == bits.OnesCount64(b) && g.Count() == bits.OnesCount64(b), "Count of %#x", b)
		var a1, a2, a3 uint64
		last := -1
		n := 0
		for x := f; x != 0; x = x.Next() {
			c.check(x.Index() > last, "Index does not increase for %#x", b)
			last = x.Index()
			a1 |= 1 << uint(last)
			if n++; n > 64 {
				c.failf("enumeration of %#x does not end", b)
			}
		}
		last, n = -1, 0
		for x := g; x != 0; x = x.Next() {
			c.check(x.Index() > last, "Index does not increase for %#x", b)
			last = x.Index()
			a2 |= 1 << uint(last)
			if n++; n > 64 {
				c.failf("enumeration of %#x does not end", b)
			}
		}
		c.check(a1 == b && a2 == b, "enumeration of %#x gives %#x, %#x", b, a1, a2)
		mb := masker.Masker(b)
		n = 0
		for x := mb; x != 0; x = x.Next() {
			a3 |= 1 << uint(x.FirstIndex())
			c.check(x.First() == x&-x, "First of %#x", uint64(x))
			if n++; n > 64 {
				c.failf("enumeration of %#x does not end", b)
			}
		}
		c.check(a3 == uint64(mb), "masker enumeration of %#x gives %#x", b, a3)
		d := c.u64()
		if c.b() {
			d |= b
		}
		md := masker.Masker(d)
		c.check(mb.SubsetOf(md) == (uint64(mb)&^uint64(md) == 0), "SubsetOf(%#x, %#x)", b, d)
		if mb != 0 {
			c.check(mb.FirstIsIn(md) == (mb.First()&md != 0), "FirstIsIn(%#x, %#x)", b, d)
		}
	})
	reg("C25", "iota", func(c *Case) {
		lim := []int{0, math.MaxInt64, math.MinInt64, 100, -100}
		near := func() int { return lim[c.n(len(lim))] + c.n(41) - 20 }
		start, stop := near(), near()
		step := 0
		switch c.n(3) {
		case 0:
			step = c.n(9) - 4
		case 1:
			step = c.n(41) - 20
		default:
			step = near()
		}
		if step == 0 {
			step = 1
		}
		// expected: count of terms as unsigned distance
		var want []int
		tooMany := false
		if step > 0 && start < stop {
			dist, st := uint64(stop)-uint64(start), uint64(step)
			k := (dist-1)/st + 1
			if k > 300 {
				tooMany = true
			} else {
				for j := uint64(0); j < k; j++ {
					want = append(want, int(uint64(start)+j*st))
				}
			}
		} else if step < 0 && start > stop {
			dist, st := uint64(start)-uint64(stop), -uint64(step)
			k := (dist-1)/st + 1
			if k > 300 {
				tooMany = true
			} else {
				for j := uint64(0); j < k; j++ {
					want = append(want, int(uint64(start)-j*st))
				}
			}
		}
		c.logf("Iota3(%d, %d, %d)", start, stop, step)
		if !tooMany {
			s := frozen.Iota3(start, stop, step)
			c.check(s.Count() == len(want), "Iota3(%d, %d, %d) has %d elements, want %d", start, stop, step, s.Count(), len(want))
			for _, w := range want {
				c.check(s.Has(w), "Iota3(%d, %d, %d) lacks %d", start, stop, step, w)
			}
		}
		a, b := c.n(60)-30, c.n(60)-30
		t := frozen.Iota2(a, b)
		z := frozen.Iota(b)
		nt, nz := b-a, b
		if nt < 0 {
			nt = 0
		}
		if nz < 0 {
			nz = 0
		}
		c.check(t.Count() == nt && z.Count() == nz, "Iota2(%d, %d) counts %d, Iota(%d) counts %d", a, b, t.Count(), b, z.Count())
		for i := a; i < b; i++ {
			c.check(t.Has(i), "Iota2(%d, %d) lacks %d", a, b, i)
		}
		for i := 0; i < b; i++ {
			c.check(z.Has(i), "Iota(%d) lacks %d", b, i)
		}
		m := c.u64()
		if c.b() {
			m &= c.u64() & c.u64()
		}
		if c.oneIn(4) { // a run of ones
			m = ^uint64(0) << uint(c.n(64)) >> uint(c.n(64))
			if c.oneIn(4) {
				m = ^uint64(0)
			}
		}
		s := frozen.NewSetFromMask64(m)
		c.check(s.Count() == bits.OnesCount64(m), "NewSetFromMask64(%#x) has %d elements", m, s.Count())
		for i := 0; i < 64; i++ {
			c.check(s.Has(i) == (m>>uint(i)&1 != 0), "NewSetFromMask64(%#x).Has(%d) = %v", m, i, s.Has(i))
		}
		c.check(frozen.Iota3(5, 5, 0).IsEmpty(), "Iota3(5,5,0) is not empty")
		c.check(panics(func() { frozen.Iota3(5, 6, 0) }), "Iota3 with zero step does not panic")
	})
	regRel()
}

// ---------------------------------------------------------------- relations

type row map[string]int

func (r row) key() string {
	s := ""
	for _, k := range []string{"a", "b", "c", "d", "e", "f", "g"} {
		if v, ok := r[k]; ok {
			s += fmt.Sprintf("%s=%d,", k, v)
		}
	}
	return s
}

type model map[string]row

func relModel(c *Case, r rel.Relation) model {
	m := model{}
	n := 0
	for i := r.Range(); i.Next(); {
		w := row{}
		for j := i.Value().Range(); j.Next(); {
			v, ok := j.Value().(int)
			c.check(ok, "attribute %s is %T", j.Key(), j.Value())
			w[j.Key()] = v
		}
		m[w.key()] = w
		n++
	}
	c.check(n == len(m) && r.Count() == n, "relation lists %d tuples, %d distinct, Count %d", n, len(m), r.Count())
	return m
}
func (m model) eq(n model) bool {
	if len(m) != len(n) {
		return false
	}
	for k := range m {
		if _, ok := n[k]; !ok {
			return false
		}
	}
	return true
}
func (m model) String() string {
	s := "{"
	for k := range m {
		s += "(" + k + ") "
	}
	return s + "}"
}

func mkRel(c *Case, attrs []string, maxRows int) (rel.Relation, model) {
	vals := 3
	if maxRows > 9 {
		vals = 2 + c.n(9)
	}
	m := model{}
	var rows [][]any
	for k := c.n(maxRows + 1); k > 0; k-- {
		w := row{}
		var r []any
		for _, a := range attrs {
			v := c.n(vals)
			w[a] = v
			r = append(r, v)
		}
		m[w.key()] = w
		rows = append(rows, r)
	}
	r := rel.New(attrs, rows...)
	c.logf("rel.New(%v, %v)", attrs, rows)
	c.check(relModel(c, r).eq(m), "rel.New(%v, %v) is %v", attrs, rows, relModel(c, r))
	return r, m
}

func someAttrs(c *Case) []string {
	var out []string
	for _, a := range []string{"a", "b", "c", "d"} {
		if c.b() {
			out = append(out, a)
		}
	}
	return out
}

func restrict(w row, attrs []string) row {
	r := row{}
	for _, a := range attrs {
		if v, ok := w[a]; ok {
			r[a] = v
		}
	}
	return r
}

func regRel() {
	reg("C20", "join-project", func(c *Case) {
		rows := 1 + c.size/3
		if rows > 8 {
			rows = 8
		}
		if c.oneIn(15) {
			rows = 50
			if c.oneIn(4) {
				rows = 200
			}
		}
		sa, ta := someAttrs(c), someAttrs(c)
		s, sm := mkRel(c, sa, rows)
		t, tm := mkRel(c, ta, rows)
		pa := someAttrs(c)
		want := model{}
		for _, w := range sm {
			r := restrict(w, pa)
			want[r.key()] = r
		}
		g := relModel(c, rel.Project(s, pa...))
		c.check(g.eq(want), "Project(%v, %v) = %v, want %v", sm, pa, g, want)
		want = model{}
		for _, a := range sm {
			for _, b := range tm {
				ok := true
				u := row{}
				for k, v := range a {
					u[k] = v
				}
				for k, v := range b {
					if x, has := u[k]; has && x != v {
						ok = false
					}
					u[k] = v
				}
				if ok {
					want[u.key()] = u
				}
			}
		}
		g = relModel(c, rel.Join(s, t))
		c.check(g.eq(want), "Join(%v, %v) = %v, want %v", sm, tm, g, want)
		g = relModel(c, rel.Join(t, s))
		c.check(g.eq(want), "Join(%v, %v) = %v, want %v", tm, sm, g, want)
		// third operand
		v, vm := mkRel(c, someAttrs(c), 3)
		w3 := model{}
		for _, a := range want {
			for _, b := range vm {
				ok := true
				u := row{}
				for k, x := range a {
					u[k] = x
				}
				for k, x := range b {
					if y, has := u[k]; has && x != y {
						ok = false
					}
					u[k] = x
				}
				if ok {
					w3[u.key()] = u
				}
			}
		}
		g = relModel(c, rel.Join(s, t, v))
		c.check(g.eq(w3), "Join(%v, %v, %v) = %v, want %v", sm, tm, vm, g, w3)
		// disjoint attributes
		p, pm := mkRel(c, []string{"e"}, 3)
		q, qm := mkRel(c, []string{"f"}, 3)
		cp := model{}
		for _, a := range sm {
			for _, b := range pm {
				for _, d := range qm {
					u := row{}
					for k, v := range a {
						u[k] = v
					}
					u["e"], u["f"] = b["e"], d["f"]
					cp[u.key()] = u
				}
			}
		}
		g = relModel(c, rel.CartesianProduct(s, p, q))
		c.check(g.eq(cp), "CartesianProduct(%v, %v, %v) = %v, want %v", sm, pm, qm, g, cp)
		z, zm := mkRel(c, []string{"g"}, 2)
		cp4 := model{}
		for _, a := range cp {
			for _, b := range zm {
				u := row{"g": b["g"]}
				for k, v := range a {
					u[k] = v
				}
				cp4[u.key()] = u
			}
		}
		g = relModel(c, rel.CartesianProduct(s, p, q, z))
		c.check(g.eq(cp4), "CartesianProduct(%v, %v, %v, %v) = %v, want %v", sm, pm, qm, zm, g, cp4)
		g = relModel(c, rel.Join(z, q, s, p))
		c.check(g.eq(cp4), "Join(%v, %v, %v, %v) = %v, want %v", zm, qm, sm, pm, g, cp4)
	})
	reg("C21", "unnest", func(c *Case) {
		// tuples with a relation in attribute n, whose attributes may be among their own
		outer := [][]string{{"a", "b"}, {"a"}, {}}[c.n(3)]
		inner := [][]string{{"c"}, {"a", "b"}, {"b", "c"}, {"a"}, {"c", "d"}}[c.n(5)]
		want := model{}
		var rows [][]any
		for k := c.n(2 + c.size/4); k >= 0 && len(rows) < 6; k-- {
			var r []any
			w := row{}
			for _, a := range outer {
				v := c.n(3)
				w[a] = v
				r = append(r, v)
			}
			n, nm := mkRel(c, inner, []int{1, 2, 3, 3, 40}[c.n(5)])
			rows = append(rows, append(r, n))
			for _, x := range nm {
				u := row{}
				ok := true
				for a, v := range x {
					if o, has := w[a]; has && o != v {
						ok = false
					}
					u[a] = v
				}
				for a, v := range w {
					u[a] = v
				}
				if ok {
					want[u.key()] = u
				}
			}
		}
		s := rel.New(append(append([]string{}, outer...), "n"), rows...)
		c.logf("Unnest of n in tuples with %v, n has %v, rows %v", outer, inner, rows)
		g := relModel(c, rel.Unnest(s, "n"))
		c.check(g.eq(want), "Unnest(%v, n) = %v, want %v", s, g, want)
	})
	reg("C21", "nest-unnest", func(c *Case) {
		attrs := []string{"a", "b", "c", "d"}[:1+c.n(4)]
		rows := 1 + c.size/2
		if rows > 9 {
			rows = 9
		}
		if c.oneIn(10) {
			rows = 60
		}
		s, sm := mkRel(c, attrs, rows)
		var grp, rest []string
		for _, a := range attrs {
			if c.b() {
				grp = append(grp, a)
			} else {
				rest = append(rest, a)
			}
		}
		if len(grp) == 0 {
			grp, rest = attrs[:1], attrs[1:]
		}
		c.logf("Nest into n: %v", grp)
		nest := rel.Nest(s, frozen.NewMap(frozen.KV("n", frozen.NewSet(grp...))))
		want := map[string]model{}
		for _, w := range sm {
			k := restrict(w, rest).key()
			if want[k] == nil {
				want[k] = model{}
			}
			g := restrict(w, grp)
			want[k][g.key()] = g
		}
		c.check(nest.Count() == len(want), "Nest of %v by %v has %d tuples, want %d", sm, grp, nest.Count(), len(want))
		seen := map[string]bool{}
		for i := nest.Range(); i.Next(); {
			t := i.Value()
			w := row{}
			for j := t.Range(); j.Next(); {
				if j.Key() != "n" {
					w[j.Key()] = j.Value().(int)
				}
			}
			k := w.key()
			sub, ok := t.Get("n")
			c.check(ok && want[k] != nil && !seen[k], "Nest of %v by %v has tuple %s", sm, grp, k)
			seen[k] = true
			g := relModel(c, sub.(rel.Relation))
			c.check(g.eq(want[k]), "Nest of %v by %v: group %s is %v, want %v", sm, grp, k, g, want[k])
		}
		if len(sm) > 0 {
			back := rel.Unnest(nest, "n")
			g := relModel(c, back)
			c.check(g.eq(sm), "Unnest(Nest(%v by %v)) = %v", sm, grp, g)
			c.check(back.Equal(s), "Unnest(Nest(s)) does not Equal s = %v", sm)
		}
	})
}
