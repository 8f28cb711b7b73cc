package main

import (
	"fmt"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/lazy"
)

const lazyU = 8 // integers 0..7 are the universe

type lz struct {
	s lazy.Set
	m uint // bits of the universe
	n string
}

// With c.blk > 0 every element of the universe stands for a block of c.blk integers
// that are equal modulo lazyU.
func (c *Case) lblk() int { return max(c.blk, 1) }

func lfrozen(c *Case, m uint) lazy.Set {
	var b frozen.SetBuilder[any]
	for i := 0; i < lazyU*c.lblk(); i++ {
		if m>>uint(i%lazyU)&1 != 0 {
			b.Add(i)
		}
	}
	return lazy.Frozen(b.Finish())
}

func lexpr(c *Case, depth int) lz {
	if depth <= 0 || c.oneIn(5) {
		switch c.n(5) {
		case 0:
			return lz{lazy.EmptySet{}, 0, "Empty"}
		case 1:
			return lz{lfrozen(c, 0), 0, "Frozen{}"}
		default:
			m := uint(c.n(1 << lazyU))
			if c.b() {
				m &= uint(c.n(1 << lazyU))
			}
			return lz{lfrozen(c, m), m, fmt.Sprintf("Frozen{%08b}", m)}
		}
	}
	a := lexpr(c, depth-1)
	if c.oneIn(6) { // query before use: memoisation must not matter
		lquery(c, a)
	}
	switch c.n(9) {
	case 0:
		b := lexpr(c, depth-1)
		return lz{a.s.Union(b.s), a.m | b.m, "(" + a.n + " | " + b.n + ")"}
	case 1:
		b := lexpr(c, depth-1)
		return lz{a.s.Intersection(b.s), a.m & b.m, "(" + a.n + " & " + b.n + ")"}
	case 2:
		b := lexpr(c, depth-1)
		return lz{a.s.Difference(b.s), a.m &^ b.m, "(" + a.n + " - " + b.n + ")"}
	case 3:
		b := lexpr(c, depth-1)
		return lz{a.s.SymmetricDifference(b.s), a.m ^ b.m, "(" + a.n + " ^ " + b.n + ")"}
	case 4:
		p := uint(c.n(1 << lazyU))
		return lz{a.s.Where(func(el any) bool { return p>>uint(el.(int)%lazyU)&1 != 0 }), a.m & p, fmt.Sprintf("%s.Where{%08b}", a.n, p)}
	case 5:
		mod := 1 + c.n(lazyU)
		add := c.n(lazyU)
		var m uint
		for i := 0; i < lazyU; i++ {
			if a.m>>uint(i)&1 != 0 {
				m |= 1 << uint((i+add)%mod)
			}
		}
		return lz{a.s.Map(func(el any) any { return (el.(int)%lazyU+add)%mod + el.(int)/lazyU*lazyU }), m, fmt.Sprintf("%s.Map((i+%d)%%%d)", a.n, add, mod)}
	case 6:
		i := c.n(lazyU)
		if c.blk > 0 {
			return lz{a.s.Union(lfrozen(c, 1<<uint(i))), a.m | 1<<uint(i), fmt.Sprintf("%s.Union(block %d)", a.n, i)}
		}
		return lz{a.s.With(i), a.m | 1<<uint(i), fmt.Sprintf("%s.With(%d)", a.n, i)}
	case 7:
		i := c.n(lazyU)
		if c.blk > 0 {
			return lz{a.s.Difference(lfrozen(c, 1<<uint(i))), a.m &^ (1 << uint(i)), fmt.Sprintf("%s.Difference(block %d)", a.n, i)}
		}
		return lz{a.s.Without(i), a.m &^ (1 << uint(i)), fmt.Sprintf("%s.Without(%d)", a.n, i)}
	default:
		return lz{a.s.Freeze(), a.m, a.n + ".Freeze()"}
	}
}

func lquery(c *Case, a lz) {
	switch c.n(6) {
	case 0:
		a.s.Count()
	case 1:
		a.s.IsEmpty()
	case 2:
		a.s.Has(c.n(lazyU * c.lblk()))
	case 3:
		i := a.s.Range()
		for k := c.n(4 * c.lblk()); k > 0; k-- {
			i.Next()
		}
	case 4:
		a.s.CountUpTo(c.n(4 * c.lblk()))
	default:
		for i := a.s.Range(); i.Next(); {
		}
	}
}

func popc(m uint) (n int) {
	for ; m != 0; m &= m - 1 {
		n++
	}
	return
}

func lmember(c *Case, a lz) {
	switch c.n(3) {
	case 0:
		for j := 0; j < lazyU+1; j++ {
			want := a.m>>uint(j)&1 != 0
			i := j + lazyU*c.n(c.lblk())
			if j == lazyU {
				i = lazyU * c.lblk()
			}
			if h, ok := a.s.FastHas(i); ok {
				c.check(h == want, "%s: FastHas(%d) = %v, want %v", a.n, i, h, want)
			}
			c.check(a.s.Has(i) == want, "%s: Has(%d) = %v, want %v", a.n, i, a.s.Has(i), want)
		}
	case 1:
		if e, ok := a.s.FastIsEmpty(); ok {
			c.check(e == (a.m == 0), "%s: FastIsEmpty = %v, want %v", a.n, e, a.m == 0)
		}
		c.check(a.s.IsEmpty() == (a.m == 0), "%s: IsEmpty = %v, want %v", a.n, a.s.IsEmpty(), a.m == 0)
	default:
		var m uint
		n := 0
		seen := map[int]bool{}
		i := a.s.Range()
		for i.Next() {
			v := i.Value().(int)
			c.check(v >= 0 && v < lazyU*c.lblk() && a.m>>uint(v%lazyU)&1 != 0, "%s: Range yields %v", a.n, v)
			m |= 1 << uint(v%lazyU)
			seen[v] = true
			if n++; n > 4096*c.lblk() {
				c.failf("%s: Range does not end", a.n)
			}
		}
		c.check(m == a.m, "%s: Range yields {%08b}, want {%08b}", a.n, m, a.m)
		c.check(len(seen) == popc(m)*c.lblk(), "%s: Range yields %d of %d", a.n, len(seen), popc(m)*c.lblk())
	}
}

func lcounts(c *Case, a lz, other lz) {
	n := popc(a.m) * c.lblk()
	switch c.n(6) {
	case 0:
		c.check(a.s.Count() == n, "%s: Count = %d, want %d", a.n, a.s.Count(), n)
		if k, ok := a.s.FastCount(); ok {
			c.check(k == n, "%s: FastCount = %d, want %d", a.n, k, n)
		}
	case 1:
		lim := c.n(lazyU*c.lblk() + 2)
		w := n
		if lim < w {
			w = lim
		}
		c.check(a.s.CountUpTo(lim) == w, "%s: CountUpTo(%d) = %d, want %d", a.n, lim, a.s.CountUpTo(lim), w)
		if k, ok := a.s.FastCountUpTo(lim); ok {
			c.check(k == w, "%s: FastCountUpTo(%d) = %d, want %d", a.n, lim, k, w)
		}
	case 2:
		f := a.s.Freeze()
		var m uint
		k := 0
		for i := f.Range(); i.Next(); {
			m |= 1 << uint(i.Value().(int)%lazyU)
			k++
		}
		c.check(m == a.m && k == n, "%s: Freeze has {%08b} in %d steps, want {%08b}", a.n, m, k, a.m)
	case 3:
		c.check(a.s.EqualSet(other.s) == (a.m == other.m), "%s EqualSet %s = %v", a.n, other.n, a.s.EqualSet(other.s))
		c.check(a.s.Equal(other.s) == (a.m == other.m), "%s Equal %s = %v", a.n, other.n, a.s.Equal(other.s))
		c.check(!a.s.Equal(3) && !a.s.Equal(nil), "%s Equal of a value of another type", a.n)
	case 4:
		c.check(a.s.IsSubsetOf(other.s) == (a.m&^other.m == 0), "%s IsSubsetOf %s = %v", a.n, other.n, a.s.IsSubsetOf(other.s))
	default:
		if a.m == other.m {
			c.check(a.s.Hash(5) == other.s.Hash(5), "%s and %s have the same elements but hash differently", a.n, other.n)
		}
		var m uint
		// complete iteration, then a second one must be the same set without repeats
		memoised := fmt.Sprintf("%T", a.s) == "*lazy.memoSet" // others may repeat elements
		k := 0
		for i := a.s.Range(); i.Next(); {
			k++
		}
		c.check(k == n || !memoised, "%s: an iteration takes %d steps for %d elements", a.n, k, n)
		k = 0
		for i := a.s.Range(); i.Next(); {
			v := uint(i.Value().(int) % lazyU)
			m |= 1 << v
			k++
		}
		c.check(m == a.m && (k == n || !memoised), "%s: a second iteration yields {%08b} in %d steps, want {%08b}", a.n, m, k, a.m)
	}
}

func init() {
	for p, f := range map[string]func(*Case, lz, lz){"C22": func(c *Case, a, b lz) { lmember(c, a) }, "C23": lcounts} {
		reg(p, "lazy-large", func(c *Case) {
			c.blk = []int{5, 20, 100}[c.n(3)]
			c.logf("every element of the universe stands for %d integers equal modulo %d", c.blk, lazyU)
			a, b := lexpr(c, 1+c.n(3)), lexpr(c, 1+c.n(3))
			if c.b() {
				b = a
			}
			for k := 0; k < 3; k++ {
				c.logf("a = %s, b = %s", a.n, b.n)
				f(c, a, b)
			}
		})
	}
	reg("C22", "lazy-membership", func(c *Case) {
		a := lexpr(c, 1+c.n(4))
		c.logf("%s", a.n)
		for k := 0; k < 6; k++ {
			lmember(c, a)
			if c.oneIn(4) {
				lquery(c, a)
			}
		}
	})
	reg("C23", "lazy-counting", func(c *Case) {
		a := lexpr(c, 1+c.n(4))
		b := lexpr(c, 1+c.n(3))
		switch c.n(3) {
		case 0:
			b = lz{lfrozen(c, a.m), a.m, fmt.Sprintf("Frozen{%08b}", a.m)}
		case 1:
			b = lz{a.s.With(3).Without(3).Union(lfrozen(c, a.m&8)), a.m, a.n + ".With(3).Without(3) | its 3"}
		}
		if c.b() {
			a, b = b, a
		}
		c.logf("a = %s, b = %s", a.n, b.n)
		for k := 0; k < 6; k++ {
			lcounts(c, a, b)
			if c.oneIn(4) {
				lquery(c, a)
			}
		}
	})
	// powersets of lazy sets
	pw := func(member bool) func(c *Case) {
		return func(c *Case) {
			a := lexpr(c, c.n(3))
			a.m &= 31
			a.s = a.s.Where(func(el any) bool { return el.(int) < 5 })
			a.n += ".Where(<5)"
			p := a.s.Powerset()
			c.logf("%s.Powerset()", a.n)
			n := popc(a.m) * c.lblk()
			if member {
				for k := uint(0); k < 64; k++ {
					want := k&^a.m == 0
					c.check(p.Has(lfrozen(c, k)) == want, "%s.Powerset().Has({%06b}) = %v", a.n, k, !want)
					if h, ok := p.FastHas(lfrozen(c, k)); ok {
						c.check(h == want, "%s.Powerset().FastHas({%06b}) = %v", a.n, k, h)
					}
				}
				c.check(!p.Has(3), "Powerset has an integer")
				c.check(!p.IsEmpty(), "%s.Powerset() is empty", a.n)
				if e, ok := p.FastIsEmpty(); ok && a.m != 0 {
					// FastIsEmpty of the powerset of an empty set is a listed finding
					c.check(!e, "%s.Powerset().FastIsEmpty() = true", a.n)
				}
				return
			}
			c.check(p.Count() == 1<<uint(n), "%s.Powerset().Count() = %d, want %d", a.n, p.Count(), 1<<uint(n))
			if k, ok := p.FastCount(); ok {
				c.check(k == 1<<uint(n), "%s.Powerset().FastCount() = %d", a.n, k)
			}
			for lim := 0; lim < 35; lim += 1 + c.n(5) {
				w := 1 << uint(n)
				if lim < w {
					w = lim
				}
				c.check(p.CountUpTo(lim) == w, "%s.Powerset().CountUpTo(%d) = %d, want %d", a.n, lim, p.CountUpTo(lim), w)
				if k, ok := p.FastCountUpTo(lim); ok {
					c.check(k == w, "%s.Powerset().FastCountUpTo(%d) = %d, want %d", a.n, lim, k, w)
				}
			}
			seen := map[uint]bool{}
			for i := p.Range(); i.Next(); {
				var m uint
				for j := i.Value().(lazy.Set).Range(); j.Next(); {
					m |= 1 << uint(j.Value().(int))
				}
				c.check(m&^a.m == 0 && !seen[m], "%s.Powerset().Range() yields {%06b} (again: %v)", a.n, m, seen[m])
				seen[m] = true
			}
			c.check(len(seen) == 1<<uint(n), "%s.Powerset().Range() yields %d sets", a.n, len(seen))
		}
	}
	reg("C22", "lazy-powerset", pw(true))
	reg("C23", "lazy-powerset", pw(false))
}
