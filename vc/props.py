"""Which units decide which property."""
from units import node, api

NODE = ('the methods of the four node kinds of internal/pkg/tree are verified against contracts over a ghost finite-map view '
        '(membership, stored element, count, well-formedness, routing, ownership), for all shapes, depths, sizes and hash distributions; '
        'the exported methods are verified against those contracts')

MUT = ('With', 'WithFast', 'Without', 'Remove', 'Add', 'AddFast', 'Combine', 'Difference', 'Intersection', 'Where')
ALLM = MUT + ('Get', 'Equal', 'SubsetOf', 'AppendTo', 'Canonical', 'Empty')
SETPT = ('Set.With', 'Set.Without', 'Set.Has')
SETBULK = ('Set.Union', 'Set.Intersection', 'Set.Difference', 'Set.SymmetricDifference')
MAPPT = ('Map.With', 'Map.Without', 'Map.Has', 'Map.Get', 'Map.MustGet', 'Map.GetElse', 'Map.GetElseFunc')
CNT = ('Set.Count', 'Set.IsEmpty', 'Map.Count', 'Map.IsEmpty')
SB = tuple('SetBuilder.' + m for m in ('Add', 'Remove', 'Has', 'Count', 'Finish')) + ('NewSetBuilder',)
MB = tuple('MapBuilder.' + m for m in ('Put', 'Remove', 'Get', 'Has', 'Count', 'Finish')) + ('NewMapBuilder',)
EQ = ('Set.Equal', 'Set.Same', 'Set.IsSubsetOf')
MEQ = ('Map.Equal', 'Map.Same')

PROPS = {
    'C01': dict(level='proof', exclude=('count',), units=node('Get', 'WithFast', 'With', 'Without', 'Canonical', 'Empty') + api(*SETPT)),
    'C02': dict(level='proof', exclude=('count',), units=node('Combine', 'Difference', 'Intersection', 'Get', 'Without', 'WithFast', 'With', 'AppendTo', 'Empty') + api(*SETBULK)),
    'C03': dict(level='proof', exclude=('count',), units=node(*MUT, 'AppendTo', 'Canonical') + api(*SETPT, *SETBULK, 'Set.Where', 'Map.With', 'Map.Without', 'Map.Update', 'Map.Merge', *SB, *MB)),
    'C04': dict(level='proof', units=node(*MUT) + api(*SETPT, *SETBULK, *CNT, 'Set.Where', 'Map.With', 'Map.Without', 'Map.Update', 'Map.Merge', *SB, *MB)),
    'C06': dict(level='proof', exclude=('count',), units=node('Equal', 'SubsetOf', *MUT) + api(*EQ)),
    'C07': dict(level='proof', exclude=('count',), units=node('Get', 'WithFast', 'With', 'Without', 'Canonical', 'Empty') + api(*MAPPT)),
    'C08': dict(level='proof', exclude=('count',), units=node('Combine', 'Get', 'With', 'AppendTo') + api('Map.Update', 'Map.Merge')),
    'C09': dict(level='proof', units=node('Add', 'AddFast', 'Remove', 'Get', 'Empty', 'Canonical') + api(*SB, *MB)),
    'C12': dict(level='proof', exclude=('count',), units=node('Where', 'Canonical', 'AppendTo') + api('Set.Where')),
    'C15': dict(level='proof', race=True, units=['node:branch.' + m for m in ('Combine', 'Difference', 'Intersection', 'Where', 'Equal', 'SubsetOf')]),
    'C16': dict(level='proof', exclude=('count', 'view', 'frame'), units=node(*ALLM) + api(*SETPT, *SETBULK, *EQ, *MAPPT, *CNT, 'Set.Where', 'Map.Update', 'Map.Merge', *MEQ, *SB, *MB)),
    'C28': dict(level='proof', exclude=('count',), units=node('Equal', 'Get', *MUT) + api(*MEQ)),
}
import iters, low
DERIV = ('SetMap', 'SetAs', 'Set.AsSetAny', 'SetGroupBy')
MAPS = ('Map.Keys', 'Map.Values', 'Map.Project', 'Map.Where', 'MapMap', 'NewMapFromKeys', 'NewMap', 'MapToGoMap', 'NewMapFromGoMap')
ITERS = ('Set.Range', 'Map.Range', 'Set.Elements', 'Set.Any', 'Map.Any', 'Set.AnyN')
PROPS['C05'] = dict(level='proof', exclude=('wf',), units=['lemma:tree-theory'] + iters.ALL + api(*ITERS),
    note='every iterator implementation is verified against a position contract (Next advances by one and tells whether the position is below the count; Value is the element at the position; '
         'elem(n,.) is a bijection between positions and elements), and the exported operations against that contract')
PROPS['C24'] = dict(level='proof', units=low.C24 + ['lemma:words'], note='both BitIterator types, every method, at 64-bit machine precision for all bit sets and indices')
PROPS['C25'] = dict(level='proof', exclude=('count',), units=api('Iota', 'Iota2', 'Iota3', 'NewSetFromMask64') + ['bits:iterator.Next', 'bits:iterator.Index'],
    note='loop invariants over the arithmetic progression with 64-bit wrap-around made explicit; termination by a bound on the number of steps')
PROPS['C26'] = dict(level='proof', units=low.C26, note='value.Equal for a type parameter (dispatch on dynamic type), int, KeyValue and mapEntry; all functions of kv.go and mapEntry.go')
PROPS['C27'] = dict(level='proof', exclude=('count',), units=node('AddFast', 'Get') + api(*MAPS))
PROPS['C17'] = dict(level='proof', exclude=('count',), units=['lemma:tree-theory'] + node('Reduce') + api('Set.Reduce', 'Set.Reduce2'),
    note='the reduction of a node is R of the sum of the weights of its elements, for W, R any representation of an associative commutative operation over the free commutative monoid; '
         'the n-ary law of the callback is the only assumption on it, and for Reduce2 the closure is proved to satisfy it')
for n in DERIV: PROPS['C12']['units'] += api(n)
PROPS['C01']['units'] += api('NewSet'); PROPS['C07']['units'] += api('NewMap'); PROPS['C09']['units'] += api('NewSet', 'NewMap')
PROPS['C02']['units'] += api('Union', 'Intersection')
PROPS['C04']['units'] += api('Union', 'Intersection', 'NewSet', 'NewMap', *DERIV, *MAPS, *ITERS[2:])
PROPS['C03']['units'] += api('Union', 'Intersection', *DERIV, *MAPS, *ITERS)
PROPS['C16']['units'] += api('Union', 'Intersection', 'NewSet', 'NewMap', *DERIV, *MAPS, *ITERS) + iters.ALL
import intiter, hashes
WIDTHS = ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64')
def iset(*ms): return api(*['%s[%s]' % (m if m[0] == 'N' else 'IntSet.' + m, w) for m in ms for w in WIDTHS])
INTNOTE = ('generic code verified once per element type (eight machine types; int is int64 and uint/uintptr are uint64 on the supported 64-bit platform), integers as bit vectors, '
           'against the ghost view "i is in s iff bit i&63 of the cell of i>>6 is set"')
PROPS['C13'] = dict(level='proof', note=INTNOTE, units=iset('With', 'Without', 'Has', 'NewIntSet', 'Count', 'IsEmpty', 'Elements', 'Any') + intiter.ALL + ['lemma:words'])
PROPS['C14'] = dict(level='proof', note=INTNOTE, units=iset('Union', 'Intersection', 'Where', 'Map', 'IsSubsetOf', 'Equal', 'Same', 'EqualSet'))
PROPS['C10'] = dict(level='proof', exclude=('count',), units=list(hashes.ALL) + node('Equal') + api(*EQ[:1], *MEQ[:1]) + iset('Equal') + iters.ALL + intiter.ALL + ['eq:' + k.split('frozen.')[1] for k, _ in low.PAIRS],
    note='relational: the hash of a collection is a fold with a commutative associative step over its elements, so that two collections with the same elements (in any iteration order) hash alike')
PROPS['C19'] = dict(level='proof', units=api('Set.MarshalJSON', 'Map.MarshalJSON', 'Map.MarshalJSON[string]', 'Map.marshalJSONArray') + iters.ALL,
    note='the value handed to json.Marshal is proved to hold exactly the elements/entries, and its result to be returned as it is; encoding/json itself is assumed',
    assumptions=['encoding/json.Marshal encodes slices, maps and elements faithfully (the standard library is not verified)', 'Go maps behave as the language specification says'])
import ordered
PROPS['C11'] = dict(level='proof', exclude=('count',), units=list(ordered.UNITS) + api('Set.OrderedRange', 'Set.OrderedElements', 'Set.OrderedFirstN', 'Set.First', 'Set.FirstN', 'NewSet') + iters.ALL,
    note='the heap contracts are stated against the ordering that executing the real Less methods gives; the loops that bound the heap are verified with those contracts',
    assumptions=['container/heap keeps its contract for a type whose Len, Less, Swap, Push and Pop behave as verified (the standard library is not verified)', 'less is a strict weak order'])
PROPS['C18'] = dict(level='proof', units=['lemma:words'] + api('Powerset', 'Set.Elements', 'Set.With', 'Set.Without', 'NewSet'),
    note='loop invariant: the current subset has the elements at the set bits of the Gray code of the loop counter, and the result has the subsets numbered so far; callees by their verified specifications')
PROPS['C20'] = dict(level='proof', exclude=('count',), units=api('rel.New', 'rel.Project', 'rel.CartesianProduct', 'rel.buildCartesianProduct', 'rel.join', 'rel.Join', 'rel.init',
    'SetMap', 'Map.Project', 'SetGroupBy', 'NewMap', 'NewSet', 'Map.With', 'Map.Update', 'Map.Get', 'Map.Keys', 'Set.With', 'Set.IsEmpty', 'Set.Equal', 'Set.Any', 'Set.Intersection', 'Set.Elements', 'Set.Range', 'SetBuilder.Add', 'SetBuilder.Finish'),
    note='a tuple is its equality class, whose attributes and values are functions of the class and determine it (extensionality of Map.Equal, C28); closures passed to verified operations are executed once on an arbitrary tuple and generalised; '
         'the recursive product is verified against its defining recursion with a termination measure')
PROPS['C21'] = dict(level='proof', exclude=('count',), units=['lemma:nest-unnest'] + api('rel.Nest', 'rel.Unnest', 'rel.Project', 'rel.Join', 'rel.join', 'rel.CartesianProduct', 'rel.buildCartesianProduct', 'rel.init',
    'SetGroupBy', 'MapMap', 'SetMap', 'Map.Values', 'Map.Keys', 'Map.Without', 'Map.Project', 'Map.Update', 'Map.With', 'Map.Get', 'Set.Elements', 'Set.Range', 'Set.With', 'Set.IsEmpty', 'Set.Equal', 'Set.Any', 'Set.Intersection', 'Intersection', 'NewSet', 'NewMap', 'SetBuilder.Add', 'SetBuilder.Finish'),
    note='Nest and Unnest are verified against contracts over the classes of tuples (closures executed once on arbitrary arguments and generalised, the loop in one of them with an inductive invariant); '
         'that Unnest reverses Nest is a lemma over the two contracts alone, proved for every relation with a uniform heading',
    assumptions=['two relations held in attributes are equal exactly when they have the same tuples (C06 and C26, for the dynamic type Relation)', 'Nest is called with one group of attributes, whose name is not that of another attribute'])
LAZY = ('every implementation of lazy.Set and lazy.SetIterator is verified against one interface contract over the ghost set of elements (a tree with the same elements), '
        'whatever the operands are; a memoised set may hold any representation with the same elements at any time, so that no answer can depend on the history; '
        'iterators against what they may still and must still yield; generic callees (frozen.Set, SetBuilder) by their verified specifications')
LAZYA = ['powerSet and its iterator keep the interface contract (bounded; known finding: FastIsEmpty)', 'Hash of lazy sets (bounded)', 'an iterator is used by one goroutine and advanced only through its owner',
         'callbacks are pure and respect equality', 'partial correctness: termination of mutually recursive interface methods is not proved', 'a set has at most 2^63-1 elements', 'limits are not negative']
LSETS = api('Set.With', 'Set.Without', 'Set.Has', 'Set.Count', 'Set.IsEmpty', 'Set.Equal', 'NewSet', 'SetMap', 'SetBuilder.Add', 'SetBuilder.Has', 'SetBuilder.Count', 'SetBuilder.Finish')
PROPS['C22'] = dict(level='proof', exclude=('count', 'once'), note=LAZY, assumptions=LAZYA, bounded=['lazy.powerSet', 'lazy.powerSetSetIterator'],
    units=['lazy:*-Count,CountUpTo,FastCount,FastCountUpTo,Freeze,Equal,EqualSet,IsSubsetOf'] + LSETS)
PROPS['C23'] = dict(level='proof', note=LAZY, assumptions=LAZYA, bounded=['lazy.powerSet', 'lazy.powerSetSetIterator', 'Hash of lazy sets'], units=['lazy:*'] + LSETS)
PAR = {'node:branch.' + m for m in ('Combine', 'Difference', 'Intersection', 'Where', 'Equal', 'SubsetOf', 'Reduce')}
for p in PROPS.values():
    if PAR & set(p['units']): p['units'] = list(p['units']) + ['par:Gauge.Parallel']
HELPERS = {'fn:branch.with': ('branch.With', 'branch.Combine'), 'fn:newBranchFrom': ('leaf2.With', 'leaf2.Combine', 'leaf2.AddFast', 'leaf2.Add', 'leaf2.WithFast')}
for p in PROPS.values():
    for h, ms in HELPERS.items():
        if any('node:' + m in p['units'] for m in ms): p['units'] = list(p['units']) + [h]
    if any(u.startswith(('node:branch.With', 'node:branch.Get', 'node:branch.Add')) for u in p['units']): p['units'] = list(p['units']) + low.HASHER
for p in PROPS.values(): p.setdefault('note', NODE)
