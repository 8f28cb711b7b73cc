package main

import (
	"fmt"

	"github.com/arr-ai/frozen"
)

type Set = frozen.Set[E]

// members observes a set by Has.
func members(u Universe, s Set) (b bs) {
	for _, e := range u {
		if s.Has(e) {
			b.set(e.ID)
		}
	}
	return
}

// listed observes a set by Range; dup is set if an element is yielded twice.
func listed(u Universe, s Set) (b bs, n int, dup bool) {
	for i := s.Range(); i.Next(); {
		v := i.Value()
		if b.has(v.ID) {
			dup = true
		}
		b.set(v.ID)
		if n++; n > 4*len(u)+8 {
			return b, n, true
		}
	}
	return
}

type pooled struct {
	s    Set
	mem  bs
	name string
	// fingerprint for persistence
	cnt int
	lst bs
	ln  int
}

type Pool struct {
	c  *Case
	u  Universe
	ps []*pooled
	// fp records fingerprints
	fp bool
}

func newPool(c *Case, u Universe) *Pool {
	p := &Pool{c: c, u: u}
	p.add(Set{}, "Set{}")
	return p
}

func (p *Pool) add(s Set, how string, a ...any) *pooled {
	x := &pooled{s: s, name: fmt.Sprintf("s%d", len(p.ps))}
	p.c.logf("%s := %s", x.name, fmt.Sprintf(how, a...))
	x.mem = members(p.u, s)
	if p.fp {
		x.cnt = s.Count()
		x.lst, x.ln, _ = listed(p.u, s)
	}
	p.ps = append(p.ps, x)
	return x
}

func (p *Pool) any() *pooled {
	if p.c.oneIn(3) {
		return p.ps[len(p.ps)-1]
	}
	return p.ps[p.c.n(len(p.ps))]
}

// like picks a set related to x when it can, so that operands overlap.
func (p *Pool) elem(x *pooled) E {
	if p.c.oneIn(3) {
		for k := 0; k < 4; k++ {
			if e := p.c.pick(p.u); x.mem.has(e.ID) {
				return e
			}
		}
	}
	return p.c.pick(p.u)
}

func (p *Pool) subset(density int) (es []E, b bs) {
	for _, e := range p.u {
		if p.c.n(100) < density {
			e.Tag = p.c.n(1000)
			es = append(es, e)
			b.set(e.ID)
		}
	}
	return
}

func pred(b bs) func(E) bool { return func(e E) bool { return b.has(e.ID) } }

// step adds one more set to the pool by a random operation.
func (p *Pool) step() *pooled {
	c := p.c
	x := p.any()
	switch c.n(14) {
	case 0, 1:
		es, b := p.subset([]int{10, 50, 90, 100}[c.n(4)])
		return p.add(frozen.NewSet(es...), "NewSet%v", b)
	case 2, 3, 4:
		e := p.elem(x)
		return p.add(x.s.With(e), "%s.With(%v)", x.name, e)
	case 5, 6:
		e := p.elem(x)
		return p.add(x.s.Without(e), "%s.Without(%v)", x.name, e)
	case 7:
		y := p.any()
		return p.add(x.s.Union(y.s), "%s.Union(%s)", x.name, y.name)
	case 8:
		y := p.any()
		return p.add(x.s.Intersection(y.s), "%s.Intersection(%s)", x.name, y.name)
	case 9:
		y := p.any()
		return p.add(x.s.Difference(y.s), "%s.Difference(%s)", x.name, y.name)
	case 10:
		y := p.any()
		return p.add(x.s.SymmetricDifference(y.s), "%s.SymmetricDifference(%s)", x.name, y.name)
	case 11:
		_, b := p.subset([]int{10, 50, 90}[c.n(3)])
		return p.add(x.s.Where(pred(b)), "%s.Where(in %v)", x.name, b)
	case 12:
		var sb frozen.SetBuilder[E]
		how := ""
		for k := c.n(2 * len(p.u)); k >= 0; k-- {
			e := c.pick(p.u)
			if c.oneIn(3) {
				sb.Remove(e)
				how += fmt.Sprintf(" -%v", e)
			} else {
				sb.Add(e)
				how += fmt.Sprintf(" +%v", e)
			}
		}
		return p.add(sb.Finish(), "SetBuilder%s", how)
	default:
		s := x.s
		how := x.name
		for k := c.n(len(p.u)); k > 0; k-- {
			e := p.elem(x)
			if c.b() {
				s = s.With(e)
				how += fmt.Sprintf(".With(%v)", e)
			} else {
				s = s.Without(e)
				how += fmt.Sprintf(".Without(%v)", e)
			}
		}
		return p.add(s, "%s", how)
	}
}

func (p *Pool) history() {
	for k := 1 + p.c.n(2+p.c.size/2); k > 0; k-- {
		p.step()
	}
}

func setup(c *Case) (*Pool, Universe) {
	u := universe(c, c.usize())
	p := newPool(c, u)
	p.history()
	return p, u
}

func init() {
	reg("C01", "point-updates", func(c *Case) {
		p, u := setup(c)
		var empty Set
		c.check(members(u, empty) == bs{}, "the empty set has elements")
		x := p.any()
		for k := 0; k < 1+c.n(6); k++ {
			e := p.elem(x)
			want := members(u, x.s)
			var y Set
			op := "With"
			if c.b() {
				y = x.s.With(e)
				want.set(e.ID)
			} else {
				op = "Without"
				y = x.s.Without(e)
				want.clr(e.ID)
			}
			old := x.name
			x = p.add(y, "%s.%s(%v)", old, op, e)
			c.check(x.mem == want, "%s.%s(%v) has %v, want %v", old, op, e, x.mem, want)
		}
	})
	reg("C01", "newset", func(c *Case) {
		u := universe(c, c.usize())
		p := newPool(c, u)
		es, b := p.subset(20 + c.n(81))
		for k := c.n(3); k > 0 && len(es) > 0; k-- {
			es = append(es, es[c.n(len(es))])
		}
		x := p.add(frozen.NewSet(es...), "NewSet(%v)", es)
		c.check(x.mem == b, "NewSet(%v) has %v", es, x.mem)
		for _, e := range u {
			y := x.s.Without(e)
			w := b
			w.clr(e.ID)
			c.check(members(u, y) == w, "Without(%v) has %v, want %v", e, members(u, y), w)
		}
	})
	reg("C02", "algebra", func(c *Case) {
		p, u := setup(c)
		for k := 0; k < 4; k++ {
			x, y := p.any(), p.any()
			mx, my := members(u, x.s), members(u, y.s)
			ck := func(op string, got Set, want bs) {
				g := members(u, got)
				c.check(g == want, "%s.%s(%s) has %v, want %v (operands %v, %v)", x.name, op, y.name, g, want, mx, my)
			}
			ck("Union", x.s.Union(y.s), mx.or(my))
			ck("Intersection", x.s.Intersection(y.s), mx.and(my))
			ck("Difference", x.s.Difference(y.s), mx.minus(my))
			ck("SymmetricDifference", x.s.SymmetricDifference(y.s), mx.minus(my).or(my.minus(mx)))
		}
	})
	reg("C02", "variadic", func(c *Case) {
		p, u := setup(c)
		var args []Set
		var un, in bs
		names := ""
		for k := 1 + c.n(5); k > 0; k-- {
			x := p.any()
			m := members(u, x.s)
			if len(args) == 0 {
				in = m
			}
			un, in = un.or(m), in.and(m)
			args = append(args, x.s)
			names += x.name + " "
		}
		c.logf("Union/Intersection of %s", names)
		g := members(u, frozen.Union(args...))
		c.check(g == un, "Union(%s) has %v, want %v", names, g, un)
		g = members(u, frozen.Intersection(args...))
		c.check(g == in, "Intersection(%s) has %v, want %v", names, g, in)
		c.check(frozen.Union[E]().IsEmpty(), "Union() of nothing is not empty")
	})
	persist := func(c *Case) {
		u := universe(c, c.usize())
		p := newPool(c, u)
		p.fp = true
		p.history()
		type rel struct {
			i, j int
			eq   bool
		}
		var rels []rel
		for k := 0; k < 4; k++ {
			r := rel{i: c.n(len(p.ps)), j: c.n(len(p.ps))}
			r.eq = p.ps[r.i].s.Equal(p.ps[r.j].s)
			rels = append(rels, r)
		}
		for k := 1 + c.n(6); k > 0; k-- {
			p.step()
		}
		// derive twice from a shared ancestor
		x := p.any()
		for k := 0; k < 3; k++ {
			e := c.pick(u)
			p.add(x.s.With(e), "%s.With(%v)", x.name, e)
		}
		for _, x := range p.ps {
			m := members(u, x.s)
			c.check(m == x.mem, "%s changed: had %v, now has %v", x.name, x.mem, m)
			c.check(x.s.Count() == x.cnt, "%s changed: Count was %d, now %d", x.name, x.cnt, x.s.Count())
			l, n, _ := listed(u, x.s)
			c.check(l == x.lst && n == x.ln, "%s changed: Range gave %v (%d), now %v (%d)", x.name, x.lst, x.ln, l, n)
		}
		for _, r := range rels {
			now := p.ps[r.i].s.Equal(p.ps[r.j].s)
			c.check(now == r.eq, "%s.Equal(%s) was %v, now %v", p.ps[r.i].name, p.ps[r.j].name, r.eq, now)
		}
	}
	reg("C03", "persistence", persist)
	reg("C04", "counts", func(c *Case) {
		p, u := setup(c)
		for _, x := range p.ps {
			m := members(u, x.s)
			c.check(x.s.Count() == m.count(), "%s.Count() = %d but it has %v", x.name, x.s.Count(), m)
			c.check(x.s.IsEmpty() == (m.count() == 0), "%s.IsEmpty() = %v but it has %v", x.name, x.s.IsEmpty(), m)
		}
	})
	reg("C05", "iteration", func(c *Case) {
		p, u := setup(c)
		for _, x := range p.ps {
			m := members(u, x.s)
			var seen bs
			n := 0
			i := x.s.Range()
			for i.Next() {
				v := i.Value()
				c.check(m.has(v.ID), "%s.Range() yields %v, which it does not have", x.name, v)
				c.check(!seen.has(v.ID), "%s.Range() yields %v twice", x.name, v)
				c.check(i.Value().ID == v.ID, "Value changes between calls")
				seen.set(v.ID)
				n++
			}
			c.check(seen == m, "%s.Range() yields %v, but the set has %v", x.name, seen, m)
			for k := 0; k < 3; k++ {
				c.check(!i.Next(), "exhausted iterator of %s continues", x.name)
			}
			el := x.s.Elements()
			var eb bs
			for _, v := range el {
				eb.set(v.ID)
			}
			c.check(eb == m && len(el) == m.count(), "%s.Elements() = %v, but the set has %v", x.name, el, m)
			if m.count() > 0 {
				a := x.s.Any()
				c.check(m.has(a.ID), "%s.Any() = %v is not in %v", x.name, a, m)
			} else {
				c.check(panics(func() { x.s.Any() }), "Any of an empty set does not panic")
			}
			k := c.n(m.count() + 3)
			a := x.s.AnyN(k)
			am := members(u, a)
			want := k
			if want > m.count() {
				want = m.count()
			}
			c.check(am.minus(m) == bs{} && am.count() == want, "%s.AnyN(%d) = %v of %v", x.name, k, am, m)
		}
	})
	reg("C06", "equality", func(c *Case) {
		p, u := setup(c)
		// rebuild some sets by another history
		for k := 0; k < 3; k++ {
			x := p.any()
			s := Set{}
			how := ""
			perm := c.n(len(u))
			for i := range u {
				e := u[(i*7+perm)%len(u)]
				if c.oneIn(2) && !x.mem.has(e.ID) {
					s = s.With(e)
					how += fmt.Sprintf(".With(%v)", e)
				}
			}
			for i := range u {
				if e := u[i]; x.mem.has(e.ID) {
					s = s.With(e)
					how += fmt.Sprintf(".With(%v)", e)
				}
			}
			for i := range u {
				if e := u[i]; !x.mem.has(e.ID) {
					s = s.Without(e)
					how += fmt.Sprintf(".Without(%v)", e)
				}
			}
			p.add(s, "Set{}%s", how)
		}
		for _, x := range p.ps {
			for _, y := range p.ps {
				if len(p.ps) > 10 && c.n(3) > 0 {
					continue
				}
				mx, my := members(u, x.s), members(u, y.s)
				c.check(x.s.Equal(y.s) == (mx == my), "%s.Equal(%s) = %v but they have %v and %v", x.name, y.name, x.s.Equal(y.s), mx, my)
				c.check(x.s.Same(y.s) == (mx == my), "%s.Same(%s) = %v but they have %v and %v", x.name, y.name, x.s.Same(y.s), mx, my)
				c.check(x.s.IsSubsetOf(y.s) == (mx.minus(my) == bs{}), "%s.IsSubsetOf(%s) = %v but they have %v and %v", x.name, y.name, x.s.IsSubsetOf(y.s), mx, my)
			}
			c.check(!x.s.Same(3) && !x.s.Same(nil) && !x.s.Same(frozen.NewSet(1)) && !x.s.Same(frozen.Set[int]{}), "Same of a value of another type")
		}
	})
	reg("C10", "set-hash", func(c *Case) {
		p, u := setup(c)
		sd := uintptr(c.u64())
		if c.oneIn(3) {
			sd = 0
		}
		for _, x := range p.ps {
			var sb frozen.SetBuilder[E]
			o := c.n(len(u))
			for i := range u {
				if e := u[(i+o)%len(u)]; x.mem.has(e.ID) {
					sb.Add(e)
				}
			}
			y := sb.Finish()
			if x.s.Equal(y) {
				c.check(x.s.Hash(sd) == y.Hash(sd), "%s and a rebuilt copy are Equal but hash to %x and %x (seed %x)", x.name, x.s.Hash(sd), y.Hash(sd), sd)
			}
			for _, z := range p.ps {
				if x.s.Equal(z.s) {
					c.check(x.s.Hash(sd) == z.s.Hash(sd), "%s and %s are Equal but hash differently (seed %x)", x.name, z.name, sd)
				}
			}
			ss := frozen.NewSet(x.s)
			if x.s.Equal(y) {
				c.check(ss.Has(y), "a set of sets does not find an Equal set %v", x.mem)
			}
		}
	})
	reg("C11", "ordered", func(c *Case) {
		p, u := setup(c)
		key := make([]int, len(u))
		for i := range key {
			switch c.n(2) {
			case 0:
				key[i] = c.n(4)
			default:
				key[i] = c.n(1000)
			}
		}
		less := func(a, b E) bool { return key[a.ID] < key[b.ID] }
		c.logf("less by key %v", key)
		for _, x := range p.ps {
			m := members(u, x.s)
			chk := func(op string, es []E, want int) {
				var b bs
				maxk := -1
				for i, e := range es {
					c.check(m.has(e.ID) && !b.has(e.ID), "%s.%s = %v: %v is not a new element of %v", x.name, op, es, e, m)
					b.set(e.ID)
					c.check(i == 0 || !less(e, es[i-1]), "%s.%s = %v is not in order (keys %v)", x.name, op, es, key)
					maxk = key[e.ID]
				}
				c.check(len(es) == want, "%s.%s yields %d elements, want %d", x.name, op, len(es), want)
				for _, e := range u {
					if m.has(e.ID) && !b.has(e.ID) && len(es) > 0 {
						c.check(key[e.ID] >= maxk, "%s.%s = %v omits the smaller %v (keys %v)", x.name, op, es, e, key)
					}
				}
			}
			cnt := m.count()
			chk("OrderedElements", x.s.OrderedElements(less), cnt)
			var es []E
			i := x.s.OrderedRange(less)
			for i.Next() {
				es = append(es, i.Value())
			}
			c.check(!i.Next(), "exhausted ordered iterator continues")
			chk("OrderedRange", es, cnt)
			n := c.n(cnt + 3)
			w := n
			if w > cnt {
				w = cnt
			}
			chk(fmt.Sprintf("OrderedFirstN(%d)", n), x.s.OrderedFirstN(n, less), w)
			f := x.s.FirstN(n, less)
			fm := members(u, f)
			c.check(fm.minus(m) == bs{} && fm.count() == w, "%s.FirstN(%d) = %v", x.name, n, fm)
			for _, a := range u {
				for _, b := range u {
					if fm.has(a.ID) && m.has(b.ID) && !fm.has(b.ID) {
						c.check(!less(b, a), "%s.FirstN(%d) has %v but not the smaller %v", x.name, n, a, b)
					}
				}
			}
			if cnt > 0 {
				f := x.s.First(less).(E)
				c.check(m.has(f.ID), "First is not an element")
				for _, e := range u {
					c.check(!m.has(e.ID) || !less(e, f), "First = %v but %v is less", f, e)
				}
			}
		}
	})
	reg("C12", "where", func(c *Case) {
		p, u := setup(c)
		for k := 0; k < 3; k++ {
			x := p.any()
			_, b := p.subset(c.n(101))
			m := members(u, x.s)
			y := x.s.Where(pred(b))
			g := members(u, y)
			c.check(g == m.and(b), "%s.Where(in %v) has %v, but %s has %v", x.name, b, g, x.name, m)
		}
	})
	reg("C12", "map-group", func(c *Case) {
		p, u := setup(c)
		x := p.any()
		m := members(u, x.s)
		f := make([]int, len(u))
		mod := 1 + c.n(len(u))
		for i := range f {
			f[i] = c.n(mod)
		}
		c.logf("f = %v on %s", f, x.name)
		img := frozen.SetMap(x.s, func(e E) E { return u[f[e.ID]] })
		var want bs
		for _, e := range u {
			if m.has(e.ID) {
				want.set(f[e.ID])
			}
		}
		c.check(members(u, img) == want, "SetMap has %v, want %v", members(u, img), want)
		ints := frozen.SetMap(x.s, func(e E) int { return f[e.ID] })
		for i := range u {
			c.check(ints.Has(i) == want.has(i), "SetMap to int: Has(%d) = %v", i, ints.Has(i))
		}
		g := frozen.SetGroupBy(x.s, func(e E) E { return u[f[e.ID]] })
		for _, k := range u {
			grp, ok := g.Get(k)
			var gw bs
			for _, e := range u {
				if m.has(e.ID) && f[e.ID] == k.ID {
					gw.set(e.ID)
				}
			}
			c.check(ok == (gw != bs{}), "SetGroupBy: key %v present: %v, want %v", k, ok, gw)
			c.check(members(u, grp) == gw, "SetGroupBy: group of %v is %v, want %v", k, members(u, grp), gw)
		}
		a := x.s.AsSetAny()
		b := frozen.SetAs[any](x.s)
		d := frozen.SetAs[E](a)
		for _, e := range u {
			c.check(a.Has(e) == m.has(e.ID) && b.Has(e) == m.has(e.ID) && d.Has(e) == m.has(e.ID), "AsSetAny/SetAs: %v: %v %v %v want %v", e, a.Has(e), b.Has(e), d.Has(e), m.has(e.ID))
		}
		c.check(a.Count() == m.count() && b.Count() == m.count() && d.Count() == m.count(), "AsSetAny/SetAs counts")
	})
	reg("C15", "bulk", func(c *Case) {
		if c.size < 20 && c.b() {
			c.size = 60
		}
		p, u := setup(c)
		for k := 0; k < 2; k++ {
			x, y := p.any(), p.any()
			mx, my := members(u, x.s), members(u, y.s)
			ck := func(op string, got Set, want bs) {
				g := members(u, got)
				c.check(g == want && got.Count() == want.count(), "%s.%s(%s) has %v (Count %d), want %v", x.name, op, y.name, g, got.Count(), want)
			}
			ck("Union", x.s.Union(y.s), mx.or(my))
			ck("Intersection", x.s.Intersection(y.s), mx.and(my))
			ck("Difference", x.s.Difference(y.s), mx.minus(my))
			_, b := p.subset(c.n(101))
			ck("Where", x.s.Where(pred(b)), mx.and(b))
			c.check(x.s.Equal(y.s) == (mx == my), "Equal of %v and %v is %v", mx, my, x.s.Equal(y.s))
			c.check(x.s.IsSubsetOf(y.s) == (mx.minus(my) == bs{}), "IsSubsetOf of %v and %v", mx, my)
		}
	})
	reduce := func(c *Case) {
		n := c.n(c.usize() + 1)
		hs := hashes(c, n)
		var s frozen.Set[R]
		var sum R
		for _, h := range hs {
			r := R{W: c.u64(), N: 1, H: h}
			s = s.With(r)
			sum = addR(sum, r)
		}
		if c.oneIn(2) && n > 0 { // another history
			s = s.Union(s.Where(func(r R) bool { return r.W&3 != 0 }))
		}
		c.logf("set of %d weighted elements, hashes %x", n, hs)
		bad := false
		got, ok := s.Reduce(func(es ...R) R {
			if len(es) == 0 {
				bad = true
			}
			var t R
			for _, e := range es {
				t = addR(t, e)
			}
			return t
		})
		c.check(!bad, "reduce was called with no elements")
		c.check(ok == (n > 0), "Reduce ok = %v for %d elements", ok, n)
		c.check(n == 0 || (got.W == sum.W && got.N == sum.N), "Reduce combined %d elements with sum %x, want %d with %x", got.N, got.W, sum.N, sum.W)
		got, ok = s.Reduce2(addR)
		c.check(ok == (n > 0), "Reduce2 ok = %v for %d elements", ok, n)
		c.check(n == 0 || (got.W == sum.W && got.N == sum.N), "Reduce2 combined %d elements with sum %x, want %d with %x", got.N, got.W, sum.N, sum.W)
		// the set itself is unchanged
		c.check(s.Count() == n, "the set changed")
	}
	reg("C17,C15", "reduce", reduce)
	reg("C18", "powerset-large", func(c *Case) {
		n := c.n(7)
		if c.size >= 60 {
			n = 8 + c.n(10)
		}
		s := frozen.Iota(n)
		ps := frozen.Powerset(s)
		c.logf("Powerset of the integers below %d", n)
		c.check(ps.Count() == 1<<uint(n), "Powerset of %d elements counts %d", n, ps.Count())
		for k := 0; k < 300; k++ {
			t := frozen.NewSetFromMask64(c.u64() & (1<<uint(n) - 1))
			c.check(ps.Has(t), "Powerset lacks %v", t)
		}
	})
	reg("C18", "powerset", func(c *Case) {
		n := c.n(7)
		if c.size >= 60 {
			n = 9
		}
		u := universe(c, n)
		s := frozen.NewSet([]E(u)...)
		ps := frozen.Powerset(s)
		c.logf("Powerset of all %d elements", n)
		c.check(ps.Count() == 1<<uint(n), "Powerset of %d elements counts %d", n, ps.Count())
		for k := 0; k < 1<<uint(n); k++ {
			var t Set
			for i := 0; i < n; i++ {
				if k>>uint(i)&1 != 0 {
					t = t.With(u[i])
				}
			}
			c.check(ps.Has(t), "Powerset lacks %v", t)
		}
		for i := ps.Range(); i.Next(); {
			c.check(i.Value().IsSubsetOf(s), "Powerset has %v, which is no subset", i.Value())
		}
	})
	reg("C16", "set-safety", func(c *Case) {
		p, u := setup(c)
		for k := 0; k < 3; k++ {
			x, y := p.any(), p.any()
			e := p.elem(x)
			_ = x.s.String()
			_ = fmt.Sprintf("%v %+v %s %d %q", x.s, x.s, x.s, y.s, e)
			x.s.Hash(uintptr(c.u64()))
			x.s.Equal(y.s)
			x.s.IsSubsetOf(y.s)
			x.s.Union(y.s)
			x.s.Intersection(y.s)
			x.s.Difference(y.s)
			x.s.SymmetricDifference(y.s)
			x.s.Elements()
			x.s.AnyN(c.n(5))
			less := func(a, b E) bool { return a.ID < b.ID }
			x.s.OrderedElements(less)
			x.s.OrderedFirstN(c.n(5), less)
			x.s.FirstN(c.n(5), less)
			x.s.Reduce2(func(a, b E) E { return a })
			x.s.AsSetAny()
			frozen.SetMap(x.s, func(E) int { return 1 })
			frozen.SetGroupBy(x.s, func(e E) int { return e.ID % 3 })
			frozen.Union(x.s, y.s)
			frozen.Intersection(x.s, y.s)
			if x.s.Count() <= 5 {
				frozen.Powerset(x.s)
			}
			_, _ = x.s.MarshalJSON()
			var sb frozen.SetBuilder[E]
			for j := 0; j < 6; j++ {
				e := c.pick(u)
				switch c.n(5) {
				case 0:
					sb.Remove(e)
				case 1:
					sb.Has(e)
					sb.Count()
				case 2:
					_ = sb.Finish()
				case 3:
					_ = sb.String()
					_ = fmt.Sprint(sb)
				default:
					sb.Add(e)
				}
			}
		}
		c.check(panics(func() { Set{}.Any() }), "Any of an empty set does not panic")
		c.check(panics(func() { frozen.Intersection[E]() }), "Intersection of no sets does not panic")
		c.checks += 40
	})
}

// R is a weighted element for reductions.
type R struct{ W, N, H uint64 }

func (r R) Equal(s R) bool          { return r.W == s.W && r.N == s.N }
func (r R) Hash(seed uintptr) uintptr { return uintptr(r.H) ^ seed }
func addR(a, b R) R                 { return R{W: a.W + b.W, N: a.N + b.N, H: a.H} }
