package main

import (
	"fmt"

	"github.com/arr-ai/frozen"
)

// two collections of many elements: one bucket of equal hashes, now and then a
// long one, or a tree of thousands of elements
func largeU(c *Case) (u Universe, in func(int) (bool, bool)) {
	n := 20 + c.n(20)
	same := true
	if c.oneIn(40) {
		n = 500 + c.n(700)
		if c.b() {
			n, same = 3000+c.n(12000), false
		}
	}
	u = make(Universe, n)
	mask := ^uint64(0) << uint(c.n(40)) // with it: runs of a few equal hashes
	for i := range u {
		u[i] = E{ID: i, H: 0x123456789abcdef}
		if !same {
			u[i].H = c.u64() & mask
		}
	}
	ps, pt := []int{30, 60, 95, 100}[c.n(4)], []int{5, 50, 95, 100}[c.n(4)]
	ms, mt := make([]bool, n), make([]bool, n)
	for i := range u {
		ms[i], mt[i] = c.n(100) < ps, c.n(100) < pt
	}
	kind := "with the same hash"
	if !same {
		kind = fmt.Sprintf("with random hashes under the mask %#x", mask)
	}
	c.logf("%d elements %s; element i is in the first collection with probability %d%%, in the second with %d%%", n, kind, ps, pt)
	return u, func(i int) (bool, bool) { return ms[i], mt[i] }
}

func init() {
	regb := func(prop string, f func(c *Case, u Universe, s, t Set, in func(int) (bool, bool))) {
		reg(prop, "large-bucket", func(c *Case) {
			u, in := largeU(c)
			var es, et []E
			for i, e := range u {
				a, b := in(i)
				if a {
					es = append(es, e)
				}
				if b {
					et = append(et, e)
				}
			}
			f(c, u, frozen.NewSet(es...), frozen.NewSet(et...), in)
		})
	}
	regb("C01", func(c *Case, u Universe, s, t Set, in func(int) (bool, bool)) {
		for i, e := range u {
			a, _ := in(i)
			c.check(s.Has(e) == a, "Has(%v) = %v", e, !a)
		}
		e := u[c.n(len(u))]
		c.check(s.With(e).Has(e) && !s.Without(e).Has(e), "With(%v) or Without(%v)", e, e)
	})
	regb("C02", func(c *Case, u Universe, s, t Set, in func(int) (bool, bool)) {
		un, is, df, sd := s.Union(t), s.Intersection(t), s.Difference(t), s.SymmetricDifference(t)
		for i, e := range u {
			a, b := in(i)
			c.check(un.Has(e) == (a || b), "Union has %v = %v", e, un.Has(e))
			c.check(is.Has(e) == (a && b), "Intersection has %v = %v", e, is.Has(e))
			c.check(df.Has(e) == (a && !b), "Difference has %v = %v", e, df.Has(e))
			c.check(sd.Has(e) == (a != b), "SymmetricDifference has %v = %v", e, sd.Has(e))
		}
	})
	regb("C04", func(c *Case, u Universe, s, t Set, in func(int) (bool, bool)) {
		var n [5]int
		for i := range u {
			a, b := in(i)
			for j, x := range []bool{a, b, a || b, a && b, a && !b} {
				if x {
					n[j]++
				}
			}
		}
		for j, x := range []Set{s, t, s.Union(t), s.Intersection(t), s.Difference(t)} {
			c.check(x.Count() == n[j], "Count of set %d is %d, want %d", j, x.Count(), n[j])
		}
	})
	regb("C06", func(c *Case, u Universe, s, t Set, in func(int) (bool, bool)) {
		eq, sub := true, true
		for i := range u {
			a, b := in(i)
			eq, sub = eq && a == b, sub && (!a || b)
		}
		c.check(s.Equal(t) == eq, "Equal = %v", !eq)
		c.check(s.IsSubsetOf(t) == sub, "IsSubsetOf = %v", !sub)
		e := u[c.n(len(u))]
		c.check(s.With(e).Without(e).Equal(s.Without(e)), "With and Without of %v", e)
	})
	regb("C05", func(c *Case, u Universe, s, t Set, in func(int) (bool, bool)) {
		seen := map[int]bool{}
		for i := s.Range(); i.Next(); {
			id := i.Value().ID
			a, _ := in(id)
			c.check(a && !seen[id], "Range yields e%d (again: %v)", id, seen[id])
			seen[id] = true
		}
		c.check(len(seen) == s.Count(), "Range yields %d elements of %d", len(seen), s.Count())
		n := len(seen)
		c.check(len(s.Elements()) == n, "Elements has %d of %d", len(s.Elements()), n)
		for _, k := range []int{c.n(n + 1), max(n-1, 0), n, n + 1 + c.n(5)} {
			x := s.AnyN(k)
			c.check(x.Count() == min(k, n) && x.IsSubsetOf(s), "AnyN(%d) of %d has %d", k, n, x.Count())
		}
	})
	alg := func(c *Case, u Universe, s, t Set, in func(int) (bool, bool)) {
		k := 2 + c.n(5)
		w := s.Where(func(e E) bool { return e.ID%k == 0 })
		un, is, df := s.Union(t), s.Intersection(t), s.Difference(t)
		for i, e := range u {
			a, b := in(i)
			c.check(w.Has(e) == (a && i%k == 0), "Where(id%%%d==0) has %v = %v", k, e, w.Has(e))
			c.check(un.Has(e) == (a || b), "Union has %v = %v", e, un.Has(e))
			c.check(is.Has(e) == (a && b), "Intersection has %v = %v", e, is.Has(e))
			c.check(df.Has(e) == (a && !b), "Difference has %v = %v", e, df.Has(e))
		}
	}
	regb("C15", alg)
	regb("C12", func(c *Case, u Universe, s, t Set, in func(int) (bool, bool)) {
		alg(c, u, s, t, in)
		k := 2 + c.n(len(u))
		m := frozen.SetMap(s, func(e E) E { return u[e.ID%k] })
		want := make([]int, k)
		for i := range u {
			if a, _ := in(i); a {
				want[i%k]++
			}
		}
		g := frozen.SetGroupBy(s, func(e E) E { return u[e.ID%k] })
		for i, n := range want {
			if i >= len(u) {
				break
			}
			c.check(m.Has(u[i]) == (n > 0), "SetMap(id%%%d) has %v = %v", k, u[i], n == 0)
			x, ok := g.Get(u[i])
			c.check(ok == (n > 0) && x.Count() == n, "SetGroupBy(id%%%d) has %d of key %v, want %d", k, x.Count(), u[i], n)
		}
	})
	regb("C10", func(c *Case, u Universe, s, t Set, in func(int) (bool, bool)) {
		var r Set
		for i := len(u) - 1; i >= 0; i-- {
			if a, _ := in(i); a {
				r = r.With(u[i])
			}
		}
		for i, e := range u {
			if a, _ := in(i); !a && c.oneIn(20) {
				r = r.With(e).Without(e)
			}
		}
		sd := uintptr(c.u64())
		c.check(r.Hash(sd) == s.Hash(sd), "Hash differs for the same elements built in another order")
		x := s.Union(t)
		c.check(x.Hash(sd) == t.Union(s).Hash(sd), "Hash of Union differs with the order of the operands")
	})
	regb("C11", func(c *Case, u Universe, s, t Set, in func(int) (bool, bool)) {
		p := int64(len(u))
		for ; p%7 == 0; p++ {
		}
		key := func(e E) int64 { return int64(e.ID) * 7 % p }
		less := func(a, b E) bool { return key(a) < key(b) }
		n := 0
		for i := range u {
			if a, _ := in(i); a {
				n++
			}
		}
		chk := func(op string, es []E, want int) {
			c.check(len(es) == want, "%s yields %d elements, want %d", op, len(es), want)
			for i, e := range es {
				a, _ := in(e.ID)
				c.check(a, "%s yields %v, which is no element", op, e)
				c.check(i == 0 || less(es[i-1], e), "%s yields %v after %v (less is id*7%%%d)", op, e, es[max(i-1, 0)], p)
			}
			if want < n && want > 0 {
				m := 0
				for i := range u {
					if a, _ := in(i); a && key(u[i]) <= key(es[want-1]) {
						m++
					}
				}
				c.check(m == want, "%s: %d elements are no greater than the last one, want %d", op, m, want)
			}
		}
		chk("OrderedElements", s.OrderedElements(less), n)
		k := min(c.n(n+2), n)
		chk(fmt.Sprintf("OrderedFirstN(%d)", k), s.OrderedFirstN(k, less), k)
		var es []E
		for i := s.OrderedRange(less); i.Next(); {
			es = append(es, i.Value())
		}
		chk("OrderedRange", es, n)
		c.check(s.FirstN(k, less).Count() == k, "FirstN(%d) has %d", k, s.FirstN(k, less).Count())
	})
	regb("C03", func(c *Case, u Universe, s, t Set, in func(int) (bool, bool)) {
		e := u[c.n(len(u))]
		s.With(e)
		s.Without(e)
		t.With(e)
		s.Union(t)
		s.Intersection(t)
		s.Difference(t)
		s.SymmetricDifference(t)
		s.Where(func(e E) bool { return e.ID%3 == 0 })
		var n, m int
		for i, e := range u {
			a, b := in(i)
			if a {
				n++
			}
			if b {
				m++
			}
			c.check(s.Has(e) == a && t.Has(e) == b, "an operand changed: Has(%v) = %v, %v", e, s.Has(e), t.Has(e))
		}
		c.check(s.Count() == n && t.Count() == m, "an operand's Count changed: %d, %d", s.Count(), t.Count())
	})
	reg("C09", "large-bucket", func(c *Case) {
		u, in := largeU(c)
		var b frozen.SetBuilder[E]
		var mb frozen.MapBuilder[E, V]
		mod := make([]bool, len(u))
		n := 0
		set := func(i int, x bool) {
			if x {
				b.Add(u[i])
				mb.Put(u[i], V{N: i})
			} else {
				b.Remove(u[i])
				mb.Remove(u[i])
			}
			if x != mod[i] {
				mod[i] = x
				if x {
					n++
				} else {
					n--
				}
			}
			if c.oneIn(50) {
				c.check(b.Count() == n && mb.Count() == n, "builder Counts %d, %d, want %d", b.Count(), mb.Count(), n)
				c.check(b.Has(u[i]) == x && mb.Has(u[i]) == x, "builder Has(%v) after Add/Remove", u[i])
			}
		}
		for i := range u {
			a, _ := in(i)
			if a {
				set(i, true)
			}
		}
		for i := range u {
			if _, d := in(i); d {
				set(i, false)
			}
		}
		for k := c.n(len(u)); k > 0; k-- {
			set(c.n(len(u)), c.b())
		}
		s, m := b.Finish(), mb.Finish()
		c.check(s.Count() == n && m.Count() == n, "Finish: Counts %d and %d, want %d", s.Count(), m.Count(), n)
		for i, e := range u {
			v, ok := m.Get(e)
			c.check(s.Has(e) == mod[i] && ok == mod[i] && (!ok || v.N == i), "Finish: %v in the set %v, in the map %v:%v, want %v", e, s.Has(e), ok, v, mod[i])
		}
	})
	mval := func(k int) V { return V{N: k % 5} }
	regm := func(prop string, f func(c *Case, u Universe, m, n Map, in func(int) (bool, bool))) {
		reg(prop, "large-bucket", func(c *Case) {
			u, in := largeU(c)
			var es, et []frozen.KeyValue[E, V]
			for i, e := range u {
				a, b := in(i)
				if a {
					es = append(es, frozen.KV(e, mval(i)))
				}
				if b {
					et = append(et, frozen.KV(e, mval(i/2)))
				}
			}
			f(c, u, frozen.NewMap(es...), frozen.NewMap(et...), in)
		})
	}
	get := func(c *Case, what string, m Map, e E, want V, has bool) {
		v, ok := m.Get(e)
		c.check(ok == has && (!ok || v.Equal(want)), "%s: Get(%v) = %v, %v, want %v, %v", what, e, v.N, ok, want.N, has)
	}
	regm("C07", func(c *Case, u Universe, m, n Map, in func(int) (bool, bool)) {
		j := c.n(len(u))
		w, o := m.With(u[j], V{N: 77}), m.Without(u[j])
		for i, e := range u {
			a, _ := in(i)
			get(c, "the map", m, e, mval(i), a)
			if i == j {
				get(c, "With", w, e, V{N: 77}, true)
				get(c, "Without", o, e, V{}, false)
			} else {
				get(c, "With", w, e, mval(i), a)
				get(c, "Without", o, e, mval(i), a)
			}
		}
	})
	merge := func(c *Case, u Universe, m, n Map, in func(int) (bool, bool)) {
		up := m.Update(n)
		me := m.Merge(n, func(k E, a, b V) V { return V{N: k.ID*1000 + a.N*10 + b.N} })
		for i, e := range u {
			a, b := in(i)
			x, y := mval(i), mval(i/2)
			if b {
				get(c, "Update", up, e, y, true)
			} else {
				get(c, "Update", up, e, x, a)
			}
			switch {
			case a && b:
				get(c, "Merge", me, e, V{N: i*1000 + x.N*10 + y.N}, true)
			case b:
				get(c, "Merge", me, e, y, true)
			default:
				get(c, "Merge", me, e, x, a)
			}
		}
	}
	regm("C08", merge)
	regm("C03", func(c *Case, u Universe, m, n Map, in func(int) (bool, bool)) {
		merge(c, u, m, n, in)
		e := u[c.n(len(u))]
		m.With(e, V{N: 78})
		n.With(e, V{N: 78})
		n.Without(e)
		m.Where(func(e E, v V) bool { return v.N > 2 })
		for i, e := range u {
			a, b := in(i)
			get(c, "the first operand afterwards", m, e, mval(i), a)
			get(c, "the second operand afterwards", n, e, mval(i/2), b)
		}
	})
	regm("C28", func(c *Case, u Universe, m, n Map, in func(int) (bool, bool)) {
		eq := true
		for i := range u {
			a, b := in(i)
			eq = eq && a == b && (!a || mval(i) == mval(i/2))
		}
		c.check(m.Equal(n) == eq && n.Equal(m) == eq, "Equal = %v, want %v", m.Equal(n), eq)
		j := c.n(len(u))
		a, _ := in(j)
		x := m.With(u[j], mval(j)).Without(u[j])
		c.check(x.Equal(m) == !a, "Equal with and without %v: %v", u[j], a)
		y := x.With(u[j], mval(j))
		z := x.With(u[j], V{N: mval(j).N + 1})
		c.check(y.Equal(m) == a && !z.Equal(m) && !m.Equal(z) && !y.Equal(z), "Equal after replacing the value of %v", u[j])
	})
	regm("C27", func(c *Case, u Universe, m, n Map, in func(int) (bool, bool)) {
		ks, wh := m.Keys(), m.Where(func(_ E, v V) bool { return v.N == 2 })
		mm := frozen.MapMap(m, func(k E, v V) int { return k.ID + v.N })
		var pk []E
		for i, e := range u {
			if _, b := in(i); b {
				pk = append(pk, e)
			}
		}
		pr := m.Project(pk...)
		gm := frozen.MapToGoMap(m)
		c.check(len(gm) == m.Count(), "MapToGoMap has %d entries of %d", len(gm), m.Count())
		bk := frozen.NewMapFromGoMap(gm)
		for i, e := range u {
			a, b := in(i)
			c.check(ks.Has(e) == a, "Keys has %v = %v", e, !a)
			get(c, "NewMapFromGoMap(MapToGoMap)", bk, e, mval(i), a)
			get(c, "Where(v==2)", wh, e, mval(i), a && mval(i).N == 2)
			get(c, "Project", pr, e, mval(i), a && b)
			x, ok := mm.Get(e)
			c.check(ok == a && (!a || x == i+mval(i).N), "MapMap: %v is %v, %v", e, x, ok)
		}
	})
}
