package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/internal/pkg/value"
	"github.com/arr-ai/hash"
)

// V is a map value; equality is by N, tag tells equal values apart.
type V struct{ N, Tag int }

func (v V) Equal(w V) bool              { return v.N == w.N }
func (v V) Hash(seed uintptr) uintptr   { return hash.Int(v.N, seed) }
func (v V) Same(a any) bool             { w, is := a.(V); return is && v.N == w.N }

type Map = frozen.Map[E, V]
type view map[int]int

func mview(u Universe, m Map) view {
	r := view{}
	for _, e := range u {
		if v, ok := m.Get(e); ok {
			r[e.ID] = v.N
		}
	}
	return r
}

func (a view) eq(b view) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}
func (a view) clone() view {
	r := view{}
	for k, v := range a {
		r[k] = v
	}
	return r
}

type mpooled struct {
	m    Map
	v    view
	name string
	cnt  int
}
type MPool struct {
	c  *Case
	u  Universe
	ps []*mpooled
}

func (p *MPool) add(m Map, how string, a ...any) *mpooled {
	x := &mpooled{m: m, name: fmt.Sprintf("m%d", len(p.ps))}
	p.c.logf("%s := %s", x.name, fmt.Sprintf(how, a...))
	x.v = mview(p.u, m)
	x.cnt = m.Count()
	p.ps = append(p.ps, x)
	return x
}
func (p *MPool) any() *mpooled {
	if p.c.oneIn(3) {
		return p.ps[len(p.ps)-1]
	}
	return p.ps[p.c.n(len(p.ps))]
}
func (p *MPool) val() V { return V{N: p.c.n(5), Tag: p.c.n(1000)} }
func (p *MPool) step() *mpooled {
	c := p.c
	x := p.any()
	switch c.n(10) {
	case 0, 1:
		var kvs []frozen.KeyValue[E, V]
		d := []int{10, 50, 100}[c.n(3)]
		for _, e := range p.u {
			if c.n(100) < d {
				kvs = append(kvs, frozen.KV(e, p.val()))
			}
		}
		return p.add(frozen.NewMap(kvs...), "NewMap%v", kvs)
	case 2, 3, 4:
		e, v := c.pick(p.u), p.val()
		return p.add(x.m.With(e, v), "%s.With(%v, %d)", x.name, e, v.N)
	case 5, 6:
		e := c.pick(p.u)
		return p.add(x.m.Without(e), "%s.Without(%v)", x.name, e)
	case 7:
		y := p.any()
		return p.add(x.m.Update(y.m), "%s.Update(%s)", x.name, y.name)
	case 8:
		y := p.any()
		return p.add(x.m.Merge(y.m, func(k E, a, b V) V { return V{N: a.N*7 + b.N*3} }), "%s.Merge(%s, 7a+3b)", x.name, y.name)
	default:
		k := c.n(5)
		return p.add(x.m.Where(func(_ E, v V) bool { return v.N != k }), "%s.Where(v!=%d)", x.name, k)
	}
}
func msetup(c *Case) (*MPool, Universe) {
	u := universe(c, c.usize())
	p := &MPool{c: c, u: u}
	p.add(Map{}, "Map{}")
	for k := 1 + c.n(2+c.size/2); k > 0; k-- {
		p.step()
	}
	return p, u
}

type probe struct {
	ID, Tag int
	H       uint64
}

func (e probe) Same(a any) bool { f, is := a.(probe); return is && e.ID == f.ID }
func (e probe) Hash(seed uintptr) uintptr {
	return uintptr(e.H) ^ seed
}

func init() {
	reg("C07", "map-point", func(c *Case) {
		p, u := msetup(c)
		x := p.any()
		for k := 0; k < 1+c.n(6); k++ {
			e := c.pick(u)
			want := mview(u, x.m)
			var y Map
			var op string
			if c.n(3) > 0 {
				v := p.val()
				op = fmt.Sprintf("With(%v, %d/%d)", e, v.N, v.Tag)
				y = x.m.With(e, v)
				want[e.ID] = v.N
				g, ok := y.Get(u[e.ID])
				c.check(ok && g == v, "%s.%s: Get(%v) = %v, %v", x.name, op, e, g, ok)
			} else {
				op = fmt.Sprintf("Without(%v)", e)
				y = x.m.Without(e)
				delete(want, e.ID)
			}
			old := x.name
			x = p.add(y, "%s.%s", old, op)
			c.check(x.v.eq(want), "%s.%s has %v, want %v", old, op, x.v, want)
		}
		for _, e := range u {
			v, ok := x.m.Get(e)
			c.check(x.m.Has(e) == ok, "Has(%v) = %v but Get says %v", e, x.m.Has(e), ok)
			d := V{N: 99}
			c.check(x.m.GetElse(e, d) == map[bool]V{true: v, false: d}[ok], "GetElse(%v)", e)
			called := 0
			g := x.m.GetElseFunc(e, func() V { called++; return d })
			c.check(g == map[bool]V{true: v, false: d}[ok] && (called == 1) == !ok, "GetElseFunc(%v)", e)
			pan := panics(func() { c.check(x.m.MustGet(e) == v, "MustGet(%v)", e) })
			c.check(pan == !ok, "MustGet(%v): panicked %v, present %v", e, pan, ok)
		}
	})
	reg("C07", "map-odd-values", func(c *Case) {
		u := universe(c, c.usize())
		var m frozen.Map[E, any]
		mod := map[int]int{}
		for k0 := 0; k0 < 2*len(u)+4; k0++ {
			k := k0
			e := c.pick(u)
			if c.n(3) > 0 {
				var v any
				switch c.n(4) {
				case 0:
					v = []int{k}
				case 1:
					v = map[int]int{0: k}
				case 2:
					v = func() int { return k }
				default:
					v = nil
				}
				c.logf("With(%v, %T #%d)", e, v, k)
				m = m.With(e, v)
				mod[e.ID] = k
				if v == nil {
					mod[e.ID] = -1
				}
			} else {
				c.logf("Without(%v)", e)
				m = m.Without(e)
				delete(mod, e.ID)
			}
			for _, e := range u {
				v, ok := m.Get(e)
				w, has := mod[e.ID]
				c.check(ok == has, "Get(%v) found %v, want %v", e, ok, has)
				if ok {
					got := -1
					switch v := v.(type) {
					case []int:
						got = v[0]
					case map[int]int:
						got = v[0]
					case func() int:
						got = v()
					}
					c.check(got == w, "Get(%v) is value %d, want %d", e, got, w)
				}
			}
		}
	})
	reg("C07", "newmap", func(c *Case) {
		u := universe(c, c.usize())
		var kvs []frozen.KeyValue[E, V]
		want := view{}
		for k := c.n(2*len(u) + 1); k > 0; k-- {
			e, v := c.pick(u), V{N: c.n(9)}
			kvs = append(kvs, frozen.KV(e, v))
			want[e.ID] = v.N
		}
		m := frozen.NewMap(kvs...)
		c.logf("NewMap%v", kvs)
		c.check(mview(u, m).eq(want), "NewMap%v has %v, want %v", kvs, mview(u, m), want)
	})
	reg("C08", "merge-update", func(c *Case) {
		p, u := msetup(c)
		for k := 0; k < 4; k++ {
			x, y := p.any(), p.any()
			a, b := mview(u, x.m), mview(u, y.m)
			want := a.clone()
			for k, v := range b {
				want[k] = v
			}
			g := mview(u, x.m.Update(y.m))
			c.check(g.eq(want), "%s.Update(%s) has %v, want %v (operands %v, %v)", x.name, y.name, g, want, a, b)
			want = a.clone()
			for k, v := range b {
				if av, ok := a[k]; ok {
					want[k] = k*10007 + av*101 + v*13
				} else {
					want[k] = v
				}
			}
			g = mview(u, x.m.Merge(y.m, func(k E, a, b V) V { return V{N: k.ID*10007 + a.N*101 + b.N*13} }))
			c.check(g.eq(want), "%s.Merge(%s) has %v, want %v (operands %v, %v)", x.name, y.name, g, want, a, b)
		}
	})
	reg("C03", "map-persistence", func(c *Case) {
		p, u := msetup(c)
		for k := 1 + c.n(6); k > 0; k-- {
			p.step()
		}
		x := p.any()
		for k := 0; k < 3; k++ {
			e := c.pick(u)
			p.add(x.m.With(e, p.val()), "%s.With(%v)", x.name, e)
		}
		for _, x := range p.ps {
			g := mview(u, x.m)
			c.check(g.eq(x.v), "%s changed: had %v, now %v", x.name, x.v, g)
			c.check(x.m.Count() == x.cnt, "%s changed: Count was %d, now %d", x.name, x.cnt, x.m.Count())
		}
	})
	reg("C04", "map-counts", func(c *Case) {
		p, u := msetup(c)
		for _, x := range p.ps {
			g := mview(u, x.m)
			c.check(x.m.Count() == len(g), "%s.Count() = %d but it has %v", x.name, x.m.Count(), g)
			c.check(x.m.IsEmpty() == (len(g) == 0), "%s.IsEmpty() = %v but it has %v", x.name, x.m.IsEmpty(), g)
		}
	})
	reg("C05", "map-iteration", func(c *Case) {
		p, u := msetup(c)
		for _, x := range p.ps {
			g := mview(u, x.m)
			seen := view{}
			i := x.m.Range()
			for i.Next() {
				k, v := i.Entry()
				c.check(i.Key().ID == k.ID && i.Value() == v, "Key/Value/Entry disagree")
				_, dup := seen[k.ID]
				c.check(!dup, "%s.Range() yields %v twice", x.name, k)
				seen[k.ID] = v.N
			}
			c.check(seen.eq(g), "%s.Range() yields %v but the map has %v", x.name, seen, g)
			c.check(!i.Next(), "exhausted map iterator continues")
			if len(g) > 0 {
				k, v := x.m.Any()
				w, ok := g[k.ID]
				c.check(ok && w == v.N, "Any() = %v, %v", k, v)
			} else {
				c.check(panics(func() { x.m.Any() }), "Any of an empty map does not panic")
			}
		}
	})
	reg("C10", "map-hash", func(c *Case) {
		p, u := msetup(c)
		sd := uintptr(c.u64())
		if c.oneIn(3) {
			sd = 0
		}
		for _, x := range p.ps {
			y := Map{}
			o := c.n(len(u))
			for i := range u {
				e := u[(i+o)%len(u)]
				if v, ok := x.v[e.ID]; ok {
					y = y.With(e, V{N: v, Tag: c.n(50)})
				}
			}
			p2 := append([]*mpooled{{m: y, name: "rebuilt " + x.name}}, p.ps...)
			for _, z := range p2 {
				if x.m.Equal(z.m) {
					c.check(x.m.Hash(sd) == z.m.Hash(sd), "%s and %s are Equal but hash differently (seed %x): %v", x.name, z.name, sd, x.v)
				}
			}
		}
	})
	reg("C10", "kv-intset-hash", func(c *Case) {
		sd := uintptr(c.u64())
		a := E{ID: c.n(3), Tag: 1, H: 7}
		b := a
		b.Tag = 2
		b.ID = c.n(3)
		k1, k2 := frozen.KV(a, V{c.n(2), 1}), frozen.KV(b, V{c.n(2), 2})
		if k1.Equal(k2) {
			c.check(k1.Hash(sd) == k2.Hash(sd), "equal pairs %v %v hash differently", k1, k2)
		}
		var is []int
		for k := c.n(c.size + 2); k >= 0; k-- {
			is = append(is, c.n(400)-200)
		}
		s := frozen.NewIntSet(is...)
		t := frozen.IntSet[int]{}
		for i := range is {
			t = t.With(is[len(is)-1-i])
		}
		t = t.With(1000).Without(1000)
		c.logf("IntSet of %v built twice", is)
		if s.Equal(t) {
			c.check(s.Hash(sd) == t.Hash(sd), "equal IntSets of %v hash differently", is)
		}
	})
	reg("C28", "map-equal", func(c *Case) {
		p, u := msetup(c)
		for k := 0; k < 3; k++ { // rebuild by another history
			x := p.any()
			y := Map{}
			for i := range u {
				if e := u[len(u)-1-i]; c.b() {
					y = y.With(e, p.val())
				}
			}
			for _, e := range u {
				if v, ok := x.v[e.ID]; ok {
					y = y.With(e, V{N: v, Tag: c.n(50)})
				} else {
					y = y.Without(e)
				}
			}
			p.add(y, "rebuilt %s", x.name)
			if len(u) > 0 {
				e := c.pick(u)
				z := p.val()
				p.add(y.With(e, z), "rebuilt %s with %v:%d", x.name, e, z.N)
			}
		}
		for _, x := range p.ps {
			for _, y := range p.ps {
				a, b := mview(u, x.m), mview(u, y.m)
				c.check(x.m.Equal(y.m) == a.eq(b), "%s.Equal(%s) = %v but they have %v and %v", x.name, y.name, x.m.Equal(y.m), a, b)
				c.check(x.m.Same(y.m) == a.eq(b), "%s.Same(%s) = %v but they have %v and %v", x.name, y.name, x.m.Same(y.m), a, b)
			}
			c.check(!x.m.Same(3) && !x.m.Same(nil) && !x.m.Same(frozen.NewMap[E, int]()) && !x.m.Same(frozen.Set[E]{}), "Same of a value of another type")
		}
	})
	reg("C27,C07,C08", "any-values", func(c *Case) { // values of interface type, nil among them
		val := func() any {
			switch c.n(4) {
			case 0:
				return nil
			case 1:
				return []int{c.n(3)} // not comparable
			default:
				return c.n(5)
			}
		}
		same := func(a, b any) bool { return fmt.Sprint(a) == fmt.Sprint(b) }
		const N = 12
		build := func() (frozen.Map[int, any], map[int]any) {
			var m frozen.Map[int, any]
			g := map[int]any{}
			for k := c.n(c.size + 2); k > 0; k-- {
				i, v := c.n(N), val()
				m = m.With(i, v)
				g[i] = v
				if c.oneIn(5) {
					m = m.Without(i)
					delete(g, i)
				}
			}
			return m, g
		}
		chk := func(what string, m frozen.Map[int, any], g map[int]any) {
			c.check(m.Count() == len(g), "%s: Count %d, want %v", what, m.Count(), g)
			for i := 0; i < N; i++ {
				v, ok := m.Get(i)
				w, has := g[i]
				c.check(ok == has && same(v, w) && m.Has(i) == has, "%s: Get(%d) = %v %v, want %v", what, i, v, ok, g)
			}
		}
		m, g := build()
		n, h := build()
		chk("With/Without", m, g)
		want := map[int]any{}
		var ks []int
		for k := c.n(N); k > 0; k-- {
			i := c.n(N)
			ks = append(ks, i)
			if v, ok := g[i]; ok {
				want[i] = v
			}
		}
		chk(fmt.Sprintf("Project%v of %v", ks, g), m.Project(ks...), want)
		want = map[int]any{}
		for i, v := range g {
			if v != nil {
				want[i] = v
			}
		}
		chk("Where", m.Where(func(_ int, v any) bool { return v != nil }), want)
		want = map[int]any{}
		for i, v := range g {
			want[i] = v
		}
		for i, v := range h {
			want[i] = v
		}
		chk(fmt.Sprintf("%v Update %v", g, h), m.Update(n), want)
		for i, v := range g {
			want[i] = v
		}
		chk(fmt.Sprintf("%v Merge %v", g, h), m.Merge(n, func(_ int, a, _ any) any { return a }), want)
		want = map[int]any{}
		for i, v := range g {
			if v == nil {
				want[i] = i
			} else {
				want[i] = nil
			}
		}
		chk("MapMap", frozen.MapMap(m, func(i int, v any) any {
			if v == nil {
				return i
			}
			return nil
		}), want)
		chk("MapToGoMap", frozen.NewMapFromGoMap(frozen.MapToGoMap(m)), g)
	})
	reg("C27", "derived", func(c *Case) {
		p, u := msetup(c)
		x := p.any()
		g := mview(u, x.m)
		keys, vals := x.m.Keys(), x.m.Values()
		hv := map[int]bool{}
		for _, e := range u {
			v, ok := g[e.ID]
			c.check(keys.Has(e) == ok, "Keys: %v: %v want %v", e, keys.Has(e), ok)
			if ok {
				hv[v] = true
			}
		}
		c.check(keys.Count() == len(g), "Keys has %d elements, want %d", keys.Count(), len(g))
		c.check(vals.Count() == len(hv), "Values has %d elements, want %d", vals.Count(), len(hv))
		for v := range hv {
			c.check(vals.Has(V{N: v}), "Values lacks %d", v)
		}
		var pk []E
		want := view{}
		for k := c.n(len(u) + 3); k > 0; k-- {
			e := c.pick(u)
			pk = append(pk, e)
			if v, ok := g[e.ID]; ok {
				want[e.ID] = v
			}
		}
		pr := x.m.Project(pk...)
		c.check(mview(u, pr).eq(want) && pr.Count() == len(want), "Project(%v) of %v is %v", pk, g, mview(u, pr))
		a := c.n(5)
		want = view{}
		for k, v := range g {
			if v%3 != a%3 && k%2 == a%2 {
				want[k] = v
			}
		}
		w := x.m.Where(func(k E, v V) bool { return v.N%3 != a%3 && k.ID%2 == a%2 })
		c.check(mview(u, w).eq(want) && w.Count() == len(want), "Where of %v is %v, want %v", g, mview(u, w), want)
		mm := frozen.MapMap(x.m, func(k E, v V) V { return V{N: k.ID*31 + v.N} })
		want = view{}
		for k, v := range g {
			want[k] = k*31 + v
		}
		c.check(mview(u, mm).eq(want) && mm.Count() == len(want), "MapMap of %v is %v", g, mview(u, mm))
		fk := frozen.NewMapFromKeys(keys, func(k E) V { return V{N: k.ID*7 + 1} })
		want = view{}
		for k := range g {
			want[k] = k*7 + 1
		}
		c.check(mview(u, fk).eq(want) && fk.Count() == len(want), "NewMapFromKeys of %v is %v", g, mview(u, fk))
		// Go maps
		gm := map[int]int{}
		for k := c.n(2 * c.size); k > 0; k-- {
			gm[c.n(100)] = c.n(100)
		}
		fm := frozen.NewMapFromGoMap(gm)
		back := frozen.MapToGoMap(fm)
		c.check(view(gm).eq(view(back)) && fm.Count() == len(gm), "Go map %v came back as %v", gm, back)
		for i := 0; i < 100; i++ {
			v, ok := fm.Get(i)
			w, has := gm[i]
			c.check(ok == has && v == w, "NewMapFromGoMap(%v): Get(%d) = %v, %v", gm, i, v, ok)
		}
	})
	reg("C09", "set-builder", func(c *Case) {
		u := universe(c, c.usize())
		var b frozen.SetBuilder[E]
		var mod bs
		type fin struct {
			s Set
			m bs
			n int
		}
		var fins []fin
		for k := 4 + c.n(6*len(u)); k > 0; k-- {
			e := c.pick(u)
			switch c.n(12) {
			case 0, 1, 2, 3, 4, 5:
				b.Add(e)
				mod.set(e.ID)
				c.logf("Add(%v)", e)
			case 6, 7, 8, 9:
				b.Remove(e)
				mod.clr(e.ID)
				c.logf("Remove(%v)", e)
			case 10:
				for _, e := range u {
					c.check(b.Has(e) == mod.has(e.ID), "builder Has(%v) = %v, want %v", e, b.Has(e), mod.has(e.ID))
				}
			default:
				if c.b() {
					s := b.Finish()
					c.logf("Finish")
					c.check(members(u, s) == mod && s.Count() == mod.count(), "Finish gives %v (Count %d), want %v", members(u, s), s.Count(), mod)
					fins = append(fins, fin{s, mod, s.Count()})
					mod = bs{}
					c.check(b.Count() == 0 && !b.Has(e), "builder is not empty after Finish")
				}
			}
			c.check(b.Count() == mod.count(), "builder Count() = %d, want %d (%v)", b.Count(), mod.count(), mod)
			c.check(b.Has(e) == mod.has(e.ID), "builder Has(%v) = %v", e, b.Has(e))
		}
		s := b.Finish()
		c.check(members(u, s) == mod && s.Count() == mod.count(), "Finish gives %v (Count %d), want %v", members(u, s), s.Count(), mod)
		l, n, dup := listed(u, s)
		c.check(l == mod && n == mod.count() && !dup, "Finish lists %v", l)
		var ref Set
		for _, e := range u {
			if mod.has(e.ID) {
				ref = ref.With(e)
			}
		}
		c.check(ref.Equal(s) && s.Equal(ref), "the finished set does not Equal one built by With: %v", mod)
		for _, f := range fins {
			c.check(members(u, f.s) == f.m && f.s.Count() == f.n, "a finished set changed: %v, was %v", members(u, f.s), f.m)
		}
	})
	reg("C09", "map-builder", func(c *Case) {
		u := universe(c, c.usize())
		b := frozen.NewMapBuilder[E, V](c.n(10))
		mod := view{}
		type fin struct {
			m Map
			v view
		}
		var fins []fin
		finish := func() {
			m := b.Finish()
			c.logf("Finish")
			c.check(mview(u, m).eq(mod) && m.Count() == len(mod), "Finish gives %v (Count %d), want %v", mview(u, m), m.Count(), mod)
			fins = append(fins, fin{m, mod})
			mod = view{}
			c.check(b.Count() == 0, "builder is not empty after Finish")
		}
		for k := 4 + c.n(6*len(u)); k > 0; k-- {
			e := c.pick(u)
			switch c.n(11) {
			case 0, 1, 2, 3, 4, 5:
				v := V{N: c.n(9)}
				b.Put(e, v)
				mod[e.ID] = v.N
				c.logf("Put(%v, %d)", e, v.N)
			case 6, 7, 8, 9:
				b.Remove(e)
				delete(mod, e.ID)
				c.logf("Remove(%v)", e)
			default:
				if c.b() {
					finish()
				}
			}
			c.check(b.Count() == len(mod), "builder Count() = %d, want %d (%v)", b.Count(), len(mod), mod)
			for _, e := range u {
				if len(u) < 12 || c.oneIn(8) {
					v, ok := b.Get(e)
					w, has := mod[e.ID]
					c.check(ok == has && v.N == w && b.Has(e) == has, "builder Get(%v) = %v, %v, want %v, %v", e, v, ok, w, has)
				}
			}
		}
		finish()
		for _, f := range fins {
			c.check(mview(u, f.m).eq(f.v), "a finished map changed: %v, was %v", mview(u, f.m), f.v)
		}
	})
	reg("C16", "map-safety", func(c *Case) {
		p, u := msetup(c)
		for k := 0; k < 3; k++ {
			x, y := p.any(), p.any()
			_ = x.m.String()
			_ = fmt.Sprintf("%v %+v %s", x.m, y.m, x.m)
			x.m.Hash(uintptr(c.u64()))
			x.m.Equal(y.m)
			x.m.Update(y.m)
			x.m.Merge(y.m, func(_ E, a, _ V) V { return a })
			x.m.Keys()
			x.m.Values()
			x.m.Project([]E(u)...)
			x.m.Where(func(E, V) bool { return c.size > 2 })
			frozen.MapMap(x.m, func(E, V) int { return 1 })
			_, _ = x.m.MarshalJSON()
			var b frozen.MapBuilder[E, V]
			for j := 0; j < 8; j++ {
				e := c.pick(u)
				switch c.n(5) {
				case 0:
					b.Remove(e)
				case 1:
					b.Has(e)
					b.Get(e)
				case 2:
					b.Finish()
				default:
					b.Put(e, p.val())
				}
			}
		}
		c.checks += 20
	})
	reg("C19", "json", func(c *Case) {
		n := c.n(c.size + 2)
		strs := []string{"", "a", "\"", "\\", "\x00", "é", "<&>", "\u2028", "b c", "{}", "\n"}
		var ss frozen.Set[string]
		want := map[string]bool{}
		for k := 0; k < n; k++ {
			s := strs[c.n(len(strs))]
			if c.b() {
				s += fmt.Sprint(c.n(30))
			}
			ss = ss.With(s)
			want[s] = true
			if c.oneIn(5) {
				ss = ss.Without(s)
				delete(want, s)
			}
		}
		data, err := json.Marshal(ss)
		c.check(err == nil, "Marshal: %v", err)
		var got []string
		c.check(json.Unmarshal(data, &got) == nil && len(got) == len(want), "set of %v encodes as %s", want, data)
		for _, g := range got {
			c.check(want[g], "set of %v encodes as %s", want, data)
			delete(want, g)
		}
		var is frozen.Set[int]
		wi := map[int]bool{}
		for k := 0; k < n; k++ {
			i := c.n(1000) - 500
			is = is.With(i)
			wi[i] = true
		}
		data, err = is.MarshalJSON()
		var gi []int
		c.check(err == nil && json.Unmarshal(data, &gi) == nil && len(gi) == len(wi), "%v encodes as %s", wi, data)
		for _, g := range gi {
			c.check(wi[g], "%v encodes as %s", wi, data)
			delete(wi, g)
		}
		var sm frozen.Map[string, int]
		wm := map[string]int{}
		var im frozen.Map[int, string]
		wim := map[int]string{}
		keys, n2 := 7, n
		if c.oneIn(3) {
			keys = 1000
			if c.size >= 60 {
				n2 += 150
			}
			if c.oneIn(20) {
				n2 += 600
			}
		}
		for k := 0; k < n2; k++ {
			s := strs[c.n(len(strs))] + fmt.Sprint(c.n(20+n2/4))
			sm = sm.With(s, k)
			wm[s] = k
			im = im.With(k%keys, s)
			wim[k%keys] = s
		}
		data, err = json.Marshal(sm)
		gm := map[string]int{}
		c.check(err == nil && json.Unmarshal(data, &gm) == nil && len(gm) == len(wm), "%v encodes as %s", wm, data)
		if data2, _ := json.Marshal(wm); !bytes.Equal(data, data2) {
			c.failf("%v encodes as %s, want %s", wm, data, data2)
		}
		data, err = json.Marshal(im)
		var pairs [][]any
		c.check(err == nil && json.Unmarshal(data, &pairs) == nil && len(pairs) == len(wim), "%v encodes as %s", wim, data)
		for _, p := range pairs {
			c.check(len(p) == 2, "entry %v", p)
			k, ok := p[0].(float64)
			c.check(ok, "entry %v", p)
			w, has := wim[int(k)]
			c.check(has && p[1] == w, "%v encodes as %s", wim, data)
			delete(wim, int(k))
		}
		nested := frozen.NewSet(is, is.With(7777))
		data, err = json.Marshal(nested)
		var gn [][]int
		c.check(err == nil && json.Unmarshal(data, &gn) == nil && len(gn) == 2, "nested set encodes as %s", data)
		sort.Slice(gn, func(i, j int) bool { return len(gn[i]) < len(gn[j]) })
		c.check(len(gn[0]) == is.Count() && len(gn[1]) == is.Count()+1, "nested set encodes as %s", data)
		var em frozen.Map[E, int]
		data, err = json.Marshal(em)
		c.check(err == nil && string(data) == "[]", "empty map encodes as %s", data)
		data, err = json.Marshal(frozen.Map[string, int]{})
		c.check(err == nil && string(data) == "{}", "empty string map encodes as %s", data)
		data, err = json.Marshal(frozen.Set[int]{})
		c.check(err == nil && string(data) == "[]", "empty set encodes as %s", data)
	})
	reg("C26", "coherence", func(c *Case) {
		h := c.u64()
		a, b := E{ID: c.n(3), Tag: c.n(3), H: h}, E{ID: c.n(3), Tag: c.n(3), H: h}
		c.check(value.Equal(a, b) == (a.ID == b.ID), "value.Equal of Equalers %v %v", a, b)
		c.check(value.EqualFuncFor[E]()(a, b) == (a.ID == b.ID), "EqualFuncFor of Equalers")
		p, q := probe{c.n(3), c.n(3), h}, probe{c.n(3), c.n(3), h}
		c.check(value.Equal(p, q) == (p.ID == q.ID), "value.Equal of Samers %v %v", p, q)
		c.check(value.EqualFuncFor[probe]()(p, q) == (p.ID == q.ID), "EqualFuncFor of Samers")
		c.check(value.Equal[any](p, q) == (p.ID == q.ID), "value.Equal of Samers as any")
		c.check(value.EqualFuncFor[any]()(p, q) == (p.ID == q.ID), "EqualFuncFor[any] of Samers")
		c.check(value.Equal[any](p, 3) == false && value.Equal[any](3, p) == false, "value.Equal of different types")
		i, j := c.n(3), c.n(3)
		c.check(value.Equal(i, j) == (i == j) && value.EqualFuncFor[int]()(i, j) == (i == j), "ints")
		c.check(value.Equal[any](i, j) == (i == j) && value.EqualFuncFor[any]()(i, j) == (i == j), "ints as any")
		k1, k2 := frozen.KV(a, V{c.n(2), 1}), frozen.KV(b, V{c.n(2), 2})
		want := a.ID == b.ID && k1.Value.N == k2.Value.N
		c.check(k1.Equal(k2) == want, "KeyValue.Equal(%v, %v) = %v", k1, k2, k1.Equal(k2))
		c.check(k1.Same(k2) == want && !k1.Same(a) && !k1.Same(nil), "KeyValue.Same(%v, %v) = %v", k1, k2, k1.Same(k2))
		sd := uintptr(c.u64())
		c.check(!want || k1.Hash(sd) == k2.Hash(sd), "KeyValue.Hash")
		// map entries are identified by key alone, equal keys hash alike
		m := frozen.NewMap(k1).With(b, k2.Value)
		c.check((m.Count() == 1) == (a.ID == b.ID), "map with keys %v and %v counts %d", a, b, m.Count())
		mp := frozen.NewMap(frozen.KV(p, 1)).With(q, 2)
		c.check((mp.Count() == 1) == (p.ID == q.ID), "map with Samer keys %v and %v counts %d", p, q, mp.Count())
		var ma frozen.Map[any, int]
		ma = ma.With(p, 1).With(q, 2).With(i, 3).With(j, 4)
		wantn := 4
		if p.ID == q.ID {
			wantn--
		}
		if i == j {
			wantn--
		}
		c.check(ma.Count() == wantn, "map with any keys %v %v %v %v counts %d", p, q, i, j, ma.Count())
		x, ok := ma.Get(p)
		c.check(ok && (x == 1 || x == 2 && p.ID == q.ID), "Get by an equal key")
		_ = rand.Int
	})
}
