#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that long text stays readable)."""
import json, os
T='internal/pkg/tree/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=list(observe)
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
NODES=[T+x for x in('branch.go','leaf1.go','leaf2.go','twig.go','packer.go','hasher.go')]
TREE=[T+'tree.go']+NODES
p("C01","Set point updates: With, Without and Has agree with mathematical sets",
 "For every set s and values v, w of a type with a lawful Equal/Hash: s.With(v).Has(w) is true exactly when w equals v or s.Has(w); s.Without(v).Has(w) is true exactly when w does not equal v and s.Has(w); the empty set has nothing. This holds for every history of operations that produced s and every distribution of hash values, including partial and total hash collisions.",
 ["inputs","histories"],"all sets (any size, any history), all element values, all lawful Equal/Hash pairs",
 "Tests insert and remove integers and strings whose hashes practically never share long prefixes; deep branches, two-element leaves splitting at the last level and overflow buckets for full collisions are reached by hash values no sampled input produces.",
 ["set.go"]+TREE,[("hash-trie insertion and deletion",T+"branch.go WithFast/Without"),("leaf split/collapse",T+"leaf2.go WithFast, "+T+"branch.go Canonical"),("overflow bucket",T+"twig.go")],
 [("trie node","keys partitioned by successive 3-bit hash groups",T+"branch.go packer")],["Set.With","Set.Without","Set.Has","NewSet"])
p("C02","Union, Intersection, Difference, SymmetricDifference are the set operations",
 "For all sets s and t and every value v: v is in s.Union(t), s.Intersection(t), s.Difference(t) or s.SymmetricDifference(t) exactly when membership in s and t says so; the variadic Union and Intersection agree with folding the binary ones. None of them panics, whatever the sizes, shapes and hash collisions of the operands.",
 ["inputs","histories"],"all pairs of sets, all hash distributions",
 "The result depends on the pair of node shapes met at every depth (4x4 combinations times depth); random-integer tests reach few of them and none involving overflow buckets.",
 ["set.go","set_ops.go"]+TREE,[("pairwise merge of tries",T+"*.go Combine/Difference/Intersection"),("argument flipping",T+"nodeArgs.go Flip")],(),["Set.Union","Set.Intersection","Set.Difference","Set.SymmetricDifference","Union","Intersection"])
p("C03","Persistence: no operation changes an existing set or map",
 "Once a Set or Map value exists, no later operation on it, on values derived from it, or on values it was derived from changes what it contains: its elements, entries, count and equality with other values stay the same for ever. Values returned by an operation may share structure with the inputs but are never mutated through that sharing.",
 ["histories","inputs"],"all histories of operations over any number of live versions",
 "Tests look at the value just produced; corruption of an older version needs two derivations from one shared ancestor with a particular internal shape (for example spare slice capacity) and a later look at the first.",
 ["set.go","map.go"]+TREE+[T+"builder.go"],[("copy on write",T+"packer.go WithChild, twig.go cloneWithExtra"),("in-place update only inside builders",T+"builder.go")],
 [("shared nodes","reachable from many versions, must be immutable",T)],["every exported operation"])
p("C04","Count and IsEmpty are exact for every set and map",
 "Count() of any Set or Map equals the number of distinct elements (keys) it contains, after every operation that can produce one, and IsEmpty() is true exactly when that number is zero. In particular overlapping operands of Union, Intersection, Difference, Merge and Update, replaced duplicates and removals of absent values are counted correctly.",
 ["inputs","histories"],"all operation histories and operand overlaps",
 "Counts are maintained incrementally from a 'matches' tally propagated through every node-pair combination; tests check counts for few overlaps and never for collisions.",
 ["set.go","map.go"]+TREE,[("matches tally",T+"*.go second results"),("count arithmetic",T+"tree.go")],[("Tree.count","number of elements",T+"tree.go")],["Set.Count","Map.Count","Set.IsEmpty","Map.IsEmpty"])
p("C05","Iteration yields every element exactly once",
 "Range, Elements and the map iterator yield each element (entry) of the collection exactly once and nothing else, for every shape of the collection; Any returns an element of a non-empty collection and panics on an empty one, and AnyN(n) returns a subset with min(n, Count) elements. Exhausted iterators stay exhausted.",
 ["inputs","histories"],"all collections of every shape",
 "The iterator shares one preallocated stack between nesting levels; whether a level is skipped, repeated or overwritten depends on shapes and depths that tests on random small integers do not produce.",
 ["set.go","map.go",T+"packer_iter.go",T+"tree.go",T+"empty.go","internal/pkg/iterator/slice.go"]+NODES,[("stack of remaining children",T+"packer_iter.go packerIterator"),("slice iterator","internal/pkg/iterator/slice.go")],(),["Set.Range","Set.Elements","Set.Any","Set.AnyN","Map.Range","Map.Any"])
p("C06","Set Equal, Same and IsSubsetOf are extensional, independent of history",
 "s.Equal(t) is true exactly when s and t have the same elements, and s.IsSubsetOf(t) exactly when every element of s is in t, regardless of the order and kind of operations that built them (including removals) and of hash collisions. Same(a) is true exactly when a is a set of the same type that Equals s.",
 ["inputs","histories"],"all pairs of sets and all histories that build them",
 "Equality compares tree shapes, so it is right only if every operation always leaves the tree in the one canonical shape; tests compare few histories and no collision buckets.",
 ["set.go"]+TREE,[("canonical shape",T+"*.go Canonical, Remove"),("structural comparison",T+"*.go Equal, SubsetOf")],(),["Set.Equal","Set.Same","Set.IsSubsetOf"])
p("C07","Map point operations: Get, Has, With, Without behave as a finite map",
 "For every map m: after m.With(k,v), Get of any key equal to k returns v and every other key is as in m; after m.Without(k), no key equal to k is found and every other key is as in m; Has, MustGet, GetElse and GetElseFunc agree with Get (MustGet panics exactly when the key is absent). This holds for all histories and hash collisions, and values may be of any type, including non-comparable ones.",
 ["inputs","histories"],"all maps, keys and values",
 "Same trie paths as for sets, plus replacement of an entry with an equal key; tests never combine replacement with colliding keys.",
 ["map.go","mapEntry.go","kv.go"]+TREE,[("entries compared by key","mapEntry.go Equal/Hash")],(),["Map.With","Map.Without","Map.Get","Map.Has","Map.MustGet","Map.GetElse","Map.GetElseFunc","NewMap"])
p("C08","Map Merge and Update resolve every key correctly",
 "m.Update(n) contains exactly the keys of m and n, with n's value wherever n has the key and m's value otherwise; m.Merge(n, resolve) contains exactly those keys, with resolve(key, m's value, n's value) for keys in both and the only available value otherwise. The relative sizes of m and n and the internal shapes must not matter.",
 ["inputs","histories"],"all pairs of maps, all resolve functions",
 "Whether left or right wins depends on operand swapping by size and on argument flips for each pair of node shapes; tests fix one or two shapes.",
 ["map.go",T+"nodeArgs.go"]+NODES+[T+"tree.go"],[("operand swap with UseLHS/UseRHS","map.go Update"),("combiner flipping",T+"nodeArgs.go Flip")],(),["Map.Update","Map.Merge"])
p("C09","Builders behave as mutable sets and maps and are isolated after Finish",
 "A SetBuilder or MapBuilder reflects exactly its sequence of Add/Put/Remove calls since creation or the last Finish: Has, Get and Count agree with it at every point and Finish returns a collection with exactly that content. Finish leaves the builder empty, and later use of the builder never changes a collection it returned.",
 ["histories","inputs"],"all interleavings of Add/Put, Remove, Has/Get, Count and Finish",
 "Builders mutate nodes in place, with their own insertion and deletion code; tests do few removals and none with collisions or after Finish.",
 ["set_builder.go","map_builder.go",T+"builder.go"]+NODES,[("in-place insertion/removal",T+"*.go AddFast, Remove"),("reset on Finish",T+"builder.go Finish")],[("Builder.t","tree under construction, exclusively owned",T+"builder.go")],["SetBuilder.*","MapBuilder.*","NewSet","NewMap"])
p("C10","Equal collections have equal hashes",
 "For all sets, maps and integer sets: if two of them are Equal then their Hash values agree for every seed, whatever histories produced them; so collections can themselves be used as set elements and map keys.",
 ["inputs","histories"],"all pairs of equal collections, all seeds",
 "Needs pairs built by different histories whose iteration order may differ; tests hash a handful.",
 ["set.go","map.go","intset.go","kv.go","mapEntry.go"],[("order-independent combination","set.go Hash, map.go Hash, intset.go Hash")],(),["Set.Hash","Map.Hash","IntSet.Hash"])
p("C11","Ordered iteration yields sorted, complete, duplicate-free results",
 "For every strict weak order less: OrderedElements and OrderedRange yield all the elements, each once, in non-descending order; OrderedFirstN(n) yields the first min(n, Count) of such an order (so no omitted element is less than a yielded one), FirstN returns them as a set, and First returns a minimal element.",
 ["inputs"],"all sets, all strict weak orders, all n",
 "Selection of the n smallest through a bounded heap depends on arrival order; tests use a few sizes and total orders on integers.",
 ["set.go",T+"tree.go",T+"packer_iter.go"],[("bounded max-heap then reversed heap",T+"tree.go OrderedIterator")],(),["Set.OrderedElements","Set.OrderedFirstN","Set.FirstN","Set.First","Set.OrderedRange"])
p("C12","Where, SetMap, GroupBy, SetAs give the comprehension results",
 "s.Where(pred) has exactly the elements of s that satisfy pred; SetMap(s,f) has exactly the images of elements of s; SetGroupBy(s,key) maps each key that occurs to exactly the elements of s with that key; SetAs and AsSetAny have exactly the same elements. This holds for all pure callbacks and all shapes of s.",
 ["inputs"],"all sets and pure callbacks",
 "Filtering rebuilds and re-canonicalises nodes; tests filter small integer ranges with a few predicates.",
 ["set.go"]+TREE,[("filter with collapse",T+"*.go Where"),("builder loops","set.go SetGroupBy")],(),["Set.Where","SetMap","SetGroupBy","SetAs","Set.AsSetAny"])
p("C13","IntSet element operations are exact for all integers",
 "For every integer type, every IntSet s and integers i, j (negative ones and the extremes included): s.With(i).Has(j) is true exactly when j==i or s.Has(j), s.Without(i).Has(j) exactly when j!=i and s.Has(j), NewIntSet(xs...).Has(j) exactly when j is among xs; Count and IsEmpty are exact, and Range/Elements/Any yield exactly the elements, each once.",
 ["inputs","histories"],"all integers of all integer types, all histories",
 "Elements are packed 64 to a cell by arithmetic on the value; tests use small non-negative integers only.",
 ["intset.go","intset_iter.go"],[("cell/bit location","intset.go locateCell"),("bit iteration","intset_iter.go")],(),["IntSet.With","IntSet.Without","IntSet.Has","IntSet.Count","IntSet.Range","IntSet.Elements","NewIntSet"])
p("C14","IntSet algebra and comparison are the set operations",
 "For all IntSets s and t: Union, Intersection and Where/Map contain exactly the integers they should and report the right Count; IsSubsetOf and Equal/Same/EqualSet are true exactly when they should be; no operation leaves an empty cell behind that would make equal sets differ.",
 ["inputs","histories"],"all pairs of integer sets, all pure callbacks",
 "Works cell-wise on bit masks; tests sample ranges of small non-negative integers.",
 ["intset.go"],[("cell-wise bit operations","intset.go Union/Intersection/Where/IsSubsetOf")],(),["IntSet.Union","IntSet.Intersection","IntSet.Where","IntSet.Map","IntSet.IsSubsetOf","IntSet.Equal"])
p("C15","Parallel evaluation is race-free and equals sequential evaluation",
 "Bulk operations (union, intersection, difference, equality, subset test, filtering, reduction) give the same answer whether a node's children are processed sequentially or concurrently, for every schedule: concurrent branches write to disjoint locations, read nothing another branch writes, and every branch's result is accounted for exactly once.",
 ["schedules","inputs","configurations"],"all schedules, all tree shapes, all concurrency settings",
 "Concurrency starts only above about 32768 elements; the tests run few operations of that size and the scheduler explores few interleavings.",
 ["internal/pkg/depth/gauge.go",T+"branch.go",T+"nodeArgs.go","internal/pkg/masker/masker.go"],[("fan-out over children","internal/pkg/depth/gauge.go Parallel"),("per-index result slots",T+"branch.go closures")],(),["Gauge.Parallel","branch closures"])
p("C16","No exported Set or Map operation panics or indexes out of range",
 "For lawful element types, no Set, Map or builder operation panics, dereferences nil or indexes out of range, for any history and any hash distribution including arbitrarily many elements with identical hashes; the only panics are the documented ones (MustGet of an absent key, Any/First of an empty collection, Intersection of no sets, zero step in Iota3, Powerset of more than 63 elements).",
 ["inputs","histories"],"all operation histories, all hash distributions, empty operands included",
 "Panicking branches in the node-pair dispatch are reached only by operands with three or more fully colliding elements; empty values meet formatting and iteration code in combinations tests do not try.",
 ["set.go","map.go","set_builder.go","map_builder.go"]+TREE,[("dispatch over node kinds",T+"*.go type switches"),("nil root handling",T+"tree.go")],(),["every exported operation"])
p("C17","Reduce folds every element exactly once",
 "For every set s and every associative and commutative reduce function (binary or n-ary), Reduce and Reduce2 return the combination of all the elements, each taken exactly once, and false exactly when s is empty; reduce is never called with no elements.",
 ["inputs"],"all sets, all associative-commutative functions",
 "Grouping follows the tree shape; tests sum small integer ranges.",
 ["set.go"]+TREE,[("per-node n-ary calls",T+"*.go Reduce")],(),["Set.Reduce","Set.Reduce2"])
p("C18","Powerset contains exactly all subsets",
 "Powerset(s) has exactly the 2^n subsets of an n-element set s, the empty set and s included, for all n up to the documented limit of 63.",
 ["inputs"],"all sets",
 "Subsets are enumerated by flipping one element at a time in Gray-code order; tests compare a few small sizes.",
 ["set.go","internal/pkg/iterator/bititer.go"],[("Gray-code enumeration","set.go Powerset"),("bit queries","internal/pkg/iterator/bititer.go")],(),["Powerset"])
p("C19","JSON encoding lists exactly the contents",
 "MarshalJSON of a set encodes an array containing each element exactly once; of a map with string keys, an object with exactly its entries; of any other map, an array of [key, value] pairs with exactly its entries.",
 ["inputs"],"all sets and maps",
 "Tests encode three small values.",
 ["set_extra.go","map_extra.go"],[("proxy construction","set_extra.go MarshalJSON, map_extra.go MarshalJSON")],(),["Set.MarshalJSON","Map.MarshalJSON"])
p("C20","Relational New, Project, Join and CartesianProduct are exact",
 "rel.New has exactly the given rows as tuples; Project(s, attrs...) exactly the tuples of s restricted to attrs; Join(s, t) exactly the combinations of a tuple of s and a tuple of t that agree on the common attributes (so the join with an empty relation is empty); CartesianProduct exactly all the combinations.",
 ["inputs"],"all relations with uniform headings",
 "Tests join two tiny relations; empty operands, no common attributes and all attributes common are not covered.",
 ["pkg/rel/relation.go"],[("grouping by common attributes","pkg/rel/relation.go join"),("recursive product","pkg/rel/relation.go buildCartesianProduct")],(),["rel.New","rel.Project","rel.Join","rel.CartesianProduct"])
p("C21","Nest groups tuples faithfully and Unnest reverses it",
 "For a relation s and one group {a: attrs} whose name a is not an attribute of s outside attrs: Nest(s, {a: attrs}) has exactly one tuple per distinct remainder of the tuples of s, with attribute a holding exactly the projections onto attrs of the tuples with that remainder; and Unnest(Nest(s, {a: attrs}), a) has exactly the tuples of s when s has a uniform heading. Unnest(t, a), for a relation-valued attribute a, has exactly the combinations of the rest of a tuple with the tuples of its nested relation that agree with it.",
 ["inputs"],"all relations with uniform headings and attribute groups",
 "Tests nest and unnest one example each.",
 ["pkg/rel/relation.go"],[("group and project","pkg/rel/relation.go Nest"),("join with singleton","pkg/rel/relation.go Unnest")],(),["rel.Nest","rel.Unnest"])
p("C22","Lazy sets: membership, emptiness and iteration agree with the eager result",
 "For every lazy set expression (union, intersection, difference, symmetric difference, where, map, with, without over any operands): Has and FastHas (when it answers), IsEmpty and FastIsEmpty (when it answers), and the elements yielded by Range agree with the corresponding eager set.",
 ["inputs","programs"],"all lazy expressions, all elements",
 "Shortcuts (Fast*) are taken only for particular operand kinds; tests check a fixed family over small integers, mostly after freezing.",
 ["lazy/set_base.go","lazy/set_union.go","lazy/set_diff.go","lazy/set_intersection.go","lazy/set_where.go","lazy/set_transform.go","lazy/set_frozen.go","lazy/set_empty.go","lazy/set_symmdiff.go"],[("combinator nodes","lazy/set_*.go Has/FastHas/Range")],(),["lazy.Set.Has","lazy.Set.FastHas","lazy.Set.IsEmpty","lazy.Set.FastIsEmpty","lazy.Set.Range"])
p("C23","Lazy sets: counting, freezing, comparing and memoising agree with eager sets",
 "For every lazy set: Count, CountUpTo(limit), FastCount and FastCountUpTo (when they answer) report the number of distinct elements (capped by limit), Freeze has exactly the same elements, EqualSet/Equal/IsSubsetOf are extensional, and none of the answers depends on whether, when, or how often the set was iterated before; memoised iteration yields no element twice.",
 ["inputs","histories","programs"],"all lazy expressions and all orders of queries on them",
 "Whether a set is memoised depends on earlier queries; tests query in one fixed order.",
 ["lazy/set_base.go","lazy/set_memo.go","lazy/set_frozen.go","lazy/set_empty.go","lazy/set_union.go"],[("memo replacement on exhaustion","lazy/set_memo.go cachingIterator")],[("memoSet.set","source or its frozen result","lazy/set_memo.go")],["lazy.Set.Count","lazy.Set.CountUpTo","lazy.Set.Freeze","lazy.Set.EqualSet","lazy.Set.IsSubsetOf"])
p("C24","Bit iteration utilities: Has, With, Without, Next, Index and Count are exact",
 "For every bit set b and index 0 <= i < 64: With(i) has exactly b's bits and i, Without(i) exactly b's bits except i, Has(i) tells whether bit i is set, Count is the number of set bits, and starting from b, alternating Index and Next enumerates exactly the set bits in increasing order.",
 ["inputs"],"all 64-bit values and all indices",
 "Tests check single examples; 2^64 x 64 inputs.",
 ["bititer.go","internal/pkg/iterator/bititer.go","internal/pkg/masker/masker.go"],[("bit tricks","bititer.go, internal/pkg/iterator/bititer.go, internal/pkg/masker/masker.go")],(),["BitIterator.*"])
p("C25","Iota and NewSetFromMask64 build exactly the specified integers",
 "Iota3(start, stop, step) is exactly {start + k*step : k >= 0, before stop in the direction of step}, empty when start is already past stop, and terminates for all arguments with step != 0, also next to the limits of int; NewSetFromMask64(mask) has exactly the indices of the set bits of mask.",
 ["inputs"],"all start, stop, step and masks",
 "Tests use small ranges; wrap-around at the ends of the integer range is never reached.",
 ["set_extra.go"],[("counting loop","set_extra.go Iota3"),("bit loop","set_extra.go NewSetFromMask64")],(),["Iota","Iota2","Iota3","NewSetFromMask64"])
p("C26","Equality and hashing of keys, entries and pairs are coherent",
 "value.Equal uses the type's own Equal or Same when it has one and == otherwise; KeyValue Equal/Same compare key and value and agree with Hash; and map entries are identified by key alone, so that equal keys always hash alike.",
 ["inputs"],"all key and value types with lawful Equal/Hash",
 "Tests compare built-in scalars; custom Equaler/Samer types with equal-but-not-identical values are not explored.",
 ["internal/pkg/value/value.go","kv.go","mapEntry.go"],[("dispatch on Equaler/Samer","internal/pkg/value/value.go Equal"),("key-only equality","mapEntry.go")],(),["value.Equal","KeyValue.Equal","KeyValue.Same","KeyValue.Hash"])
p("C27","Derived maps: Keys, Values, Project, Where, MapMap and Go-map conversions",
 "Keys and Values have exactly the keys and values of the map; Project and Where keep exactly the selected entries with their values; MapMap keeps the keys and replaces every value by f(key, value); NewMapFromKeys, NewMapFromGoMap and MapToGoMap convert entry for entry.",
 ["inputs"],"all maps and pure callbacks",
 "Tests use small integer-keyed maps.",
 ["map.go"],[("builder loops over Range","map.go")],(),["Map.Keys","Map.Values","Map.Project","Map.Where","MapMap","NewMapFromKeys","NewMapFromGoMap","MapToGoMap"])
p("C28","Map Equal and Same compare keys and values extensionally",
 "m.Equal(n) is true exactly when m and n have the same keys with equal values, regardless of the histories that built them and of hash collisions; Same(a) is true exactly when a is a map of the same type that Equals m.",
 ["inputs","histories"],"all pairs of maps and histories",
 "Depends on the canonical tree shape and on values being compared for every key; tests compare a few small maps.",
 ["map.go","mapEntry.go"]+TREE,[("structural comparison with entry equality","map.go Equal, mapEntry.go mapEntryEqual")],(),["Map.Equal","Map.Same"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x)+'\n')
print(len(P))
