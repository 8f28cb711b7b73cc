From 4c17e700aceb3e0fbd2d70d86f6f80398b16be4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 01/18] fix: adding to an overflow bucket no longer writes into
 shared spare capacity

---
 internal/pkg/tree/twig.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/pkg/tree/twig.go b/internal/pkg/tree/twig.go
index 8c29839..ae8b3c6 100644
--- a/internal/pkg/tree/twig.go
+++ b/internal/pkg/tree/twig.go
@@ -288,7 +288,9 @@ func (l *twig[T]) With(args *CombineArgs[T], v T, depth int, _ hasher) (_ node[T
 			return ret, matches
 		}
 	}
-	return newTwig(append(l.data, v)...).Canonical(depth), matches
+	ret := l.cloneWithExtra(1)
+	ret.data = append(ret.data, v)
+	return ret.Canonical(depth), matches
 }
 
 func (l *twig[T]) WithFast(v T, depth int, _ hasher) (_ node[T], matches int) {
@@ -300,7 +302,9 @@ func (l *twig[T]) WithFast(v T, depth int, _ hasher) (_ node[T], matches int) {
 			return ret, matches
 		}
 	}
-	return newTwig(append(l.data, v)...).Canonical(depth), matches
+	ret := l.cloneWithExtra(1)
+	ret.data = append(ret.data, v)
+	return ret.Canonical(depth), matches
 }
 
 func (l *twig[T]) Without(v T, depth int, _ hasher) (_ node[T], matches int) {
-- 
2.43.0


From 717bcf2d2eb8b173a6bf3de0a850cf2ed572d6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 02/18] fix: combining overflow buckets (three or more full
 hash collisions) no longer panics

---
 internal/pkg/tree/leaf1.go |  2 ++
 internal/pkg/tree/leaf2.go |  2 ++
 internal/pkg/tree/twig.go  | 33 +++++++++------------------------
 3 files changed, 13 insertions(+), 24 deletions(-)

diff --git a/internal/pkg/tree/leaf1.go b/internal/pkg/tree/leaf1.go
index 9c99baf..df25f9c 100644
--- a/internal/pkg/tree/leaf1.go
+++ b/internal/pkg/tree/leaf1.go
@@ -70,6 +70,8 @@ func (l *leaf1[T]) Combine(args *CombineArgs[T], n node[T], depth int) (_ node[T
 		return n.Combine(args.Flip(), l, depth)
 	case *leaf2[T]:
 		return n.Combine(args.Flip(), l, depth)
+	case *twig[T]:
+		return n.Combine(args.Flip(), l, depth)
 	case *leaf1[T]:
 		if args.eq(l.data, n.data) {
 			return newLeaf1(args.f(l.data, n.data)), 1
diff --git a/internal/pkg/tree/leaf2.go b/internal/pkg/tree/leaf2.go
index 1659aab..7177178 100644
--- a/internal/pkg/tree/leaf2.go
+++ b/internal/pkg/tree/leaf2.go
@@ -69,6 +69,8 @@ func (l *leaf2[T]) Combine(args *CombineArgs[T], n node[T], depth int) (_ node[T
 	switch n := n.(type) {
 	case *branch[T]:
 		return n.Combine(args.Flip(), l, depth)
+	case *twig[T]:
+		return n.Combine(args.Flip(), l, depth)
 	case *leaf2[T]:
 		l0, l1 := l.data[0], l.data[1]
 		n0, n1 := n.data[0], n.data[1]
diff --git a/internal/pkg/tree/twig.go b/internal/pkg/tree/twig.go
index ae8b3c6..9f8cdf5 100644
--- a/internal/pkg/tree/twig.go
+++ b/internal/pkg/tree/twig.go
@@ -105,44 +105,29 @@ func (l *twig[T]) Canonical(depth int) node[T] {
 func (l *twig[T]) Combine(args *CombineArgs[T], n node[T], depth int) (_ node[T], matches int) { //nolint:cyclop
 	var ndata []T
 	switch n := n.(type) {
+	case *leaf1[T]:
+		ndata = []T{n.data}
+	case *leaf2[T]:
+		ndata = n.data[:]
 	case *twig[T]:
 		ndata = n.data
 	default:
 		panic(errors.ErrWTF)
 	}
 
-	cloned := false
+	ret := l.cloneWithExtra(len(ndata))
 scanning:
-	for i, e := range ndata {
+	for _, e := range ndata {
 		for j, f := range l.data {
 			if args.eq(f, e) {
-				if !cloned {
-					l = l.cloneWithExtra(0)
-					cloned = true
-				}
-				l.data[j] = args.f(f, e)
+				ret.data[j] = args.f(f, e)
 				matches++
 				continue scanning
 			}
 		}
-		if len(l.data) < maxLeafLen {
-			l = newTwig(append(l.data, e)...)
-		} else {
-			b := &branch[T]{}
-			for _, e := range l.data {
-				_, m := b.Add(args, e, depth, newHasher(e, depth))
-				matches += m
-			}
-			for _, e := range ndata[i:] {
-				_, m := b.Add(args, e, depth, newHasher(e, depth))
-				matches += m
-			}
-		}
-	}
-	if len(l.data) > maxLeafLen {
-		panic(errors.ErrWTF)
+		ret.data = append(ret.data, e)
 	}
-	return l.Canonical(depth), matches
+	return ret.Canonical(depth), matches
 }
 
 func (l *twig[T]) AppendTo(dest []T) []T {
-- 
2.43.0


From 13b3c5e087b44f3cb9ff007295be08cc392e5fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:26 +0000
Subject: [PATCH 03/18] fix: parallel combine no longer races on the result
 mask

---
 internal/pkg/tree/branch.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/pkg/tree/branch.go b/internal/pkg/tree/branch.go
index 8a9aa92..43d5138 100644
--- a/internal/pkg/tree/branch.go
+++ b/internal/pkg/tree/branch.go
@@ -98,9 +98,9 @@ func (b *branch[T]) Combine(args *CombineArgs[T], n node[T], depth int) (_ node[
 		_, matches = args.Parallel(depth, b.p.mask|n.p.mask, func(i int) (_ bool, matches int) {
 			x, y := b.p.data[i], n.p.data[i]
 			if x == nil {
-				ret.p.SetNonNilChild(i, y)
+				ret.p.data[i] = y
 			} else if y == nil {
-				ret.p.SetNonNilChild(i, x)
+				ret.p.data[i] = x
 			} else {
 				var n node[T]
 				n, matches = x.Combine(args, y, depth+1)
-- 
2.43.0


From dc5dc762ca9a49572234bcffd15031797675d25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:33 +0000
Subject: [PATCH 04/18] fix: flipping combine arguments no longer writes to
 shared state

---
 internal/pkg/tree/nodeArgs.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/internal/pkg/tree/nodeArgs.go b/internal/pkg/tree/nodeArgs.go
index b5a109e..ee18cae 100644
--- a/internal/pkg/tree/nodeArgs.go
+++ b/internal/pkg/tree/nodeArgs.go
@@ -34,18 +34,16 @@ type CombineArgs[T any] struct {
 }
 
 func NewCombineArgs[T any](ea *EqArgs[T], combine func(a, b T) T) *CombineArgs[T] {
-	return &CombineArgs[T]{EqArgs: ea, f: combine}
+	a := &CombineArgs[T]{EqArgs: ea, f: combine}
+	a.flipped = &CombineArgs[T]{
+		EqArgs:  ea,
+		f:       func(x, y T) T { return combine(y, x) },
+		flipped: a,
+	}
+	return a
 }
 
 func (a *CombineArgs[T]) Flip() *CombineArgs[T] {
-	if a.flipped == nil {
-		f := a.f
-		a.flipped = &CombineArgs[T]{
-			EqArgs:  a.EqArgs,
-			f:       func(a, b T) T { return f(b, a) },
-			flipped: a,
-		}
-	}
 	return a.flipped
 }
 
-- 
2.43.0


From 8dc85c4ef67a00b80cba572a71ab7cde5290a6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 05/18] fix: formatting an empty tree no longer dereferences
 nil

---
 internal/pkg/tree/tree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/pkg/tree/tree.go b/internal/pkg/tree/tree.go
index 72e6ace..b187331 100644
--- a/internal/pkg/tree/tree.go
+++ b/internal/pkg/tree/tree.go
@@ -41,6 +41,7 @@ func (t Tree[T]) String() string {
 func (t Tree[T]) Format(f fmt.State, verb rune) {
 	if t.root == nil {
 		fu.WriteString(f, "∅")
+		return
 	}
 	t.root.Format(f, verb)
 }
-- 
2.43.0


From db4f1c302ee9ef1e36c843f7a3c3fa947b310607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 06/18] fix: IntSet locates negative integers correctly

---
 intset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intset.go b/intset.go
index 5fe4545..bfd8402 100644
--- a/intset.go
+++ b/intset.go
@@ -23,7 +23,7 @@ const (
 )
 
 func locateCell[I integer](i I) (cell I, bitMask cellMask) {
-	return i >> cellShift, cellMask(1) << uint(i%cellBits)
+	return i >> cellShift, cellMask(1) << uint(i&(cellBits-1))
 }
 
 // NewIntSet returns an IntSet with the values provided.
-- 
2.43.0


From d8b9be112450f60d6cd0ca0006ec7902a407fdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 07/18] fix: BitIterator.Without clears the requested bit

---
 bititer.go                       | 2 +-
 internal/pkg/iterator/bititer.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bititer.go b/bititer.go
index 9535fb9..dc731e5 100644
--- a/bititer.go
+++ b/bititer.go
@@ -30,7 +30,7 @@ func (b BitIterator) With(i int) BitIterator {
 }
 
 func (b BitIterator) Without(i int) BitIterator {
-	return b &^ BitIterator(1) << uint(i)
+	return b &^ (BitIterator(1) << uint(i))
 }
 
 func (b BitIterator) String() string {
diff --git a/internal/pkg/iterator/bititer.go b/internal/pkg/iterator/bititer.go
index a8d4f86..daf38d5 100644
--- a/internal/pkg/iterator/bititer.go
+++ b/internal/pkg/iterator/bititer.go
@@ -30,7 +30,7 @@ func (b BitIterator) With(i int) BitIterator {
 }
 
 func (b BitIterator) Without(i int) BitIterator {
-	return b &^ BitIterator(1) << uint(i)
+	return b &^ (BitIterator(1) << uint(i))
 }
 
 func (b BitIterator) String() string {
-- 
2.43.0


From 4e7e3637d4ef9c4783a26b569e167b7fb5c33bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:01 +0000
Subject: [PATCH 08/18] fix: Iota3 no longer overflows past the ends of the
 integer range

---
 set_extra.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/set_extra.go b/set_extra.go
index 31384ef..24c9238 100644
--- a/set_extra.go
+++ b/set_extra.go
@@ -29,10 +29,16 @@ func Iota3[T ~int](start, stop, step T) Set[T] {
 	if step > 0 {
 		for i := start; i < stop; i += step {
 			b.Add(i)
+			if uint(stop)-uint(i) <= uint(step) {
+				break // i += step would reach stop or overflow
+			}
 		}
 	} else {
 		for i := start; i > stop; i += step {
 			b.Add(i)
+			if uint(i)-uint(stop) <= -uint(step) {
+				break // i += step would reach stop or overflow
+			}
 		}
 	}
 	return b.Finish()
-- 
2.43.0


From 24c67dcb9d5166718cd3991d669f7da4bdc517f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:02 +0000
Subject: [PATCH 09/18] fix: lazy difference membership excludes the subtrahend

---
 lazy/set_diff.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lazy/set_diff.go b/lazy/set_diff.go
index cb550c6..db1ec43 100644
--- a/lazy/set_diff.go
+++ b/lazy/set_diff.go
@@ -18,14 +18,19 @@ func difference(a, b Set) Set {
 }
 
 func (s *differenceSet) Has(el any) bool {
-	return s.a.Has(el) || s.b.Has(el)
+	return s.a.Has(el) && !s.b.Has(el)
 }
 
 func (s *differenceSet) FastHas(el any) (has, ok bool) {
-	if has, ok = s.a.FastHas(el); ok {
-		return
+	aHas, aOk := s.a.FastHas(el)
+	if aOk && !aHas {
+		return false, true
 	}
-	return s.a.FastHas(el)
+	bHas, bOk := s.b.FastHas(el)
+	if bOk && bHas {
+		return false, true
+	}
+	return aHas && !bHas, aOk && bOk
 }
 
 func (s *differenceSet) Range() SetIterator {
-- 
2.43.0


From 49992e347f73124df0358e738e2037ec3324d998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:02 +0000
Subject: [PATCH 10/18] fix: lazy union fast membership consults both operands

---
 lazy/set_union.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lazy/set_union.go b/lazy/set_union.go
index f25c009..832466c 100644
--- a/lazy/set_union.go
+++ b/lazy/set_union.go
@@ -32,10 +32,15 @@ func (s *unionSet) Has(el any) bool {
 }
 
 func (s *unionSet) FastHas(el any) (has, ok bool) {
-	if has, ok = s.a.FastHas(el); ok {
-		return has, ok
+	aHas, aOk := s.a.FastHas(el)
+	if aOk && aHas {
+		return true, true
 	}
-	return s.a.FastHas(el)
+	bHas, bOk := s.b.FastHas(el)
+	if bOk && bHas {
+		return true, true
+	}
+	return false, aOk && bOk
 }
 
 func (s *unionSet) Range() SetIterator {
-- 
2.43.0


From 182af9a084c62d38e799f95c64579a3725abd098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 11/18] fix: lazy EmptySet.Equal compares with its argument

---
 lazy/set_empty.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy/set_empty.go b/lazy/set_empty.go
index d46248f..859c776 100644
--- a/lazy/set_empty.go
+++ b/lazy/set_empty.go
@@ -38,7 +38,7 @@ func (EmptySet) Freeze() Set {
 
 func (EmptySet) Equal(set any) bool {
 	if set, ok := set.(Set); ok {
-		return set.EqualSet(set)
+		return set.IsEmpty()
 	}
 	return false
 }
-- 
2.43.0


From 49020c12c880c25509d75ae7e00d7c86b5bc492f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 12/18] fix: lazy powerset is never empty and has the lazy
 subsets it yields

---
 lazy/set_powerset.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lazy/set_powerset.go b/lazy/set_powerset.go
index 21482cc..b3d10d8 100644
--- a/lazy/set_powerset.go
+++ b/lazy/set_powerset.go
@@ -18,7 +18,7 @@ func powerset(set Set) Set {
 }
 
 func (s *powerSet) IsEmpty() bool {
-	return s.set.IsEmpty()
+	return false // the empty set is always an element
 }
 
 func (s *powerSet) FastIsEmpty() (empty, ok bool) {
@@ -57,8 +57,8 @@ func (s *powerSet) FastCountUpTo(limit int) (count int, ok bool) {
 }
 
 func (s *powerSet) Has(el any) bool {
-	ss, ok := el.(frozen.Set[any])
-	return ok && Frozen(ss).IsSubsetOf(s.set)
+	ss, ok := el.(Set)
+	return ok && ss.IsSubsetOf(s.set)
 }
 
 func (s *powerSet) Range() SetIterator {
-- 
2.43.0


From 06d755d2243e2b2f972c7cdb504d7d4f898b770e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 13/18] fix: lazy sets count distinct elements only

---
 lazy/set_base.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lazy/set_base.go b/lazy/set_base.go
index 27b5830..e5788dc 100644
--- a/lazy/set_base.go
+++ b/lazy/set_base.go
@@ -42,11 +42,11 @@ func (s *baseSet) CountUpTo(limit int) int {
 	if count, ok := s.set.FastCountUpTo(limit); ok {
 		return count
 	}
-	n := 0
-	for i := s.set.Range(); n < limit && i.Next(); {
-		n++
+	var seen frozen.SetBuilder[any]
+	for i := s.set.Range(); seen.Count() < limit && i.Next(); {
+		seen.Add(i.Value())
 	}
-	return n
+	return seen.Count()
 }
 
 func (s *baseSet) FastCountUpTo(int) (count int, ok bool) {
-- 
2.43.0


From bac2acf6b4e4d57697817b972cf35db27d25266d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 14/18] fix: equal lazy sets hash alike whatever their
 iteration order

---
 lazy/set_base.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lazy/set_base.go b/lazy/set_base.go
index e5788dc..82d828a 100644
--- a/lazy/set_base.go
+++ b/lazy/set_base.go
@@ -75,8 +75,8 @@ func (s *baseSet) EqualSet(t Set) bool {
 
 func (s *baseSet) Hash(seed uintptr) uintptr {
 	h := hash.Uintptr(hashSeed, seed)
-	for i := s.set.Range(); i.Next(); {
-		h = hash.Any(i.Value(), h)
+	for i := s.Freeze().Range(); i.Next(); {
+		h ^= hash.Any(i.Value(), seed)
 	}
 	return h
 }
-- 
2.43.0


From 1cd2f3277ec15f191cee18220ab1256425013af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 15/18] fix: exhausted lazy iterators no longer memoise an
 empty set

---
 lazy/set_memo.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lazy/set_memo.go b/lazy/set_memo.go
index 3b920fe..0014493 100644
--- a/lazy/set_memo.go
+++ b/lazy/set_memo.go
@@ -41,15 +41,20 @@ type cachingIterator struct {
 	iter SetIterator
 	s    *memoSet
 	seen frozen.SetBuilder[any]
+	done bool
 }
 
 func (i *cachingIterator) Next() bool {
+	if i.done {
+		return false
+	}
 	for i.iter.Next() {
 		if val := i.iter.Value(); !i.seen.Has(val) {
 			i.seen.Add(val)
 			return true
 		}
 	}
+	i.done = true
 	seen := Frozen(i.seen.Finish())
 	atomic.StorePointer(i.s.pointer(), unsafe.Pointer(&seen))
 	return false
-- 
2.43.0


From aaf13d927bd247d30adcf6668eca49382fef8d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:05 +0000
Subject: [PATCH 16/18] fix: lazy powerset counts do not overflow at 63
 elements

---
 lazy/set_powerset.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lazy/set_powerset.go b/lazy/set_powerset.go
index b3d10d8..c363ddf 100644
--- a/lazy/set_powerset.go
+++ b/lazy/set_powerset.go
@@ -26,7 +26,7 @@ func (s *powerSet) FastIsEmpty() (empty, ok bool) {
 }
 
 func (s *powerSet) Count() int {
-	if count := s.set.Count(); count < int(8*unsafe.Sizeof(0)) {
+	if count := s.set.Count(); count < int(8*unsafe.Sizeof(0))-1 {
 		return 1 << uint(count)
 	}
 	panic("Count(): too many elements")
@@ -34,7 +34,7 @@ func (s *powerSet) Count() int {
 
 func (s *powerSet) FastCount() (count int, ok bool) {
 	if count, ok := s.set.FastCount(); ok {
-		if count < int(8*unsafe.Sizeof(0)) {
+		if count < int(8*unsafe.Sizeof(0))-1 {
 			return 1 << uint(count), true
 		}
 		panic("Count(): too many elements")
@@ -44,14 +44,13 @@ func (s *powerSet) FastCount() (count int, ok bool) {
 
 func (s *powerSet) FastCountUpTo(limit int) (count int, ok bool) {
 	if count, ok := s.set.FastCount(); ok {
-		if count < int(8*unsafe.Sizeof(0)) {
+		if count < int(8*unsafe.Sizeof(0))-1 {
 			n := 1 << uint(count)
 			if n < limit {
 				return n, true
 			}
-			return limit, true
 		}
-		panic("Count(): too many elements")
+		return limit, true
 	}
 	return 0, false
 }
-- 
2.43.0


From 7945bdd92dfc8cad81cac4bb2c60a9bf9574aa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:10 +0000
Subject: [PATCH 17/18] fix: joining with an empty relation is empty

---
 pkg/rel/relation.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/rel/relation.go b/pkg/rel/relation.go
index 3d40aa1..af072f4 100644
--- a/pkg/rel/relation.go
+++ b/pkg/rel/relation.go
@@ -58,9 +58,12 @@ func Join(relations ...Relation) Relation {
 }
 
 func join(s, t Relation) Relation {
-	if s.IsEmpty() || t.IsEmpty() {
+	if s.IsEmpty() {
 		return s
 	}
+	if t.IsEmpty() {
+		return t
+	}
 	if s.Equal(trueSet) {
 		return t
 	}
-- 
2.43.0


From 34b554f69b248ab2d099fd771e939527ca703d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:59 +0000
Subject: [PATCH 18/18] fix: lazy frozen sets compare with sets whose iteration
 repeats elements

frozenSet.IsSubsetOf and EqualSet counted iterated elements, but the
iteration of a lazy mapping may yield an element more than once.
---
 lazy/set_frozen.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/lazy/set_frozen.go b/lazy/set_frozen.go
index 4145683..c7d26e3 100644
--- a/lazy/set_frozen.go
+++ b/lazy/set_frozen.go
@@ -40,14 +40,15 @@ func (s *frozenSet) EqualSet(set Set) bool {
 	if f, ok := set.(*frozenSet); ok {
 		return s.set.Equal(f.set)
 	}
-	n := s.set.Count()
-	i := set.Range()
-	for ; n > 0 && i.Next(); n-- {
-		if !s.set.Has(i.Value()) {
+	var b frozen.SetBuilder[any] // set.Range() may repeat elements.
+	for i := set.Range(); i.Next(); {
+		v := i.Value()
+		if !s.set.Has(v) {
 			return false
 		}
+		b.Add(v)
 	}
-	return n == 0 && !i.Next()
+	return b.Count() == s.set.Count()
 }
 
 func (s *frozenSet) IsSubsetOf(set Set) bool {
@@ -58,12 +59,13 @@ func (s *frozenSet) IsSubsetOf(set Set) bool {
 	}
 
 	n := s.set.Count()
-	for i := set.Range(); n > 0 && i.Next(); {
-		if s.set.Has(i.Value()) {
-			n--
+	var b frozen.SetBuilder[any] // set.Range() may repeat elements.
+	for i := set.Range(); b.Count() < n && i.Next(); {
+		if v := i.Value(); s.set.Has(v) {
+			b.Add(v)
 		}
 	}
-	return n == 0
+	return b.Count() == n
 }
 
 func (s *frozenSet) Range() SetIterator {
-- 
2.43.0

