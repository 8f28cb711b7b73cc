"""Sets, maps and builders: point and bulk operations."""
from api import *


# ---------------------------------------------------------------- Set
@spec('Set.With')
def _(x):
    s, r, k0 = x.view(0), x.res(), x.key(1)
    yield 'membership', 'view', same_members(x, r, lambda k: Or(k == k0, s.has(k)), extra=[s])
    yield 'stored elements', 'view', vals(r, lambda k: r.val(k) == If(k == k0, x.box(1), s.val(k)))
    yield 'number of elements', 'count', r.CNT == s.CNT + If(s.has(k0), 0, 1)


@spec('Set.Without')
def _(x):
    s, r, k0 = x.view(0), x.res(), x.key(1)
    yield 'membership', 'view', same_members(x, r, lambda k: And(k != k0, s.has(k)), extra=[s])
    yield 'stored elements', 'view', members_kept(r, s)
    yield 'number of elements', 'count', r.CNT == s.CNT - If(s.has(k0), 1, 0)


@spec('Set.Has')
def _(x):
    yield 'true exactly for members', 'view', x.ret[0] == x.view(0).has(x.key(1))


@spec('Set.Count')
def _(x): yield 'number of elements', 'count', x.ret[0] == x.view(0).CNT


@spec('Set.IsEmpty')
def _(x):
    s = x.view(0)
    yield 'true exactly when there is no element', 'count', x.ret[0] == (s.CNT == 0)
    yield 'an empty set has no members', 'view', guarded(x.ret[0], All([s.th.K], lambda k: Not(s.has(k)), lambda k: [s.has(k)]))
    yield 'a non-empty set has a member', 'view', mkimp(mknot(x.ret[0]), s.has(s.th.somek(s.root)))


@spec('Set.Union')
def _(x):
    s, t, r = x.view(0), x.view(1), x.res()
    yield 'membership', 'view', same_members(x, r, lambda k: Or(s.has(k), t.has(k)), extra=[s, t])
    yield 'stored elements', 'view', vals(r, lambda k: Or(And(s.has(k), r.val(k) == s.val(k)), And(t.has(k), r.val(k) == t.val(k))))


@spec('Set.Intersection')
def _(x):
    s, t, r = x.view(0), x.view(1), x.res()
    yield 'membership', 'view', same_members(x, r, lambda k: And(s.has(k), t.has(k)), extra=[s, t])
    yield 'stored elements', 'view', vals(r, lambda k: Or(r.val(k) == s.val(k), r.val(k) == t.val(k)))


@spec('Set.Difference')
def _(x):
    s, t, r = x.view(0), x.view(1), x.res()
    yield 'membership', 'view', same_members(x, r, lambda k: And(s.has(k), Not(t.has(k))), extra=[s, t])
    yield 'stored elements', 'view', members_kept(r, s)


@spec('Set.SymmetricDifference')
def _(x):
    s, t, r = x.view(0), x.view(1), x.res()
    yield 'membership', 'view', same_members(x, r, lambda k: s.has(k) != t.has(k), extra=[s, t])
    yield 'stored elements', 'view', vals(r, lambda k: Or(And(s.has(k), r.val(k) == s.val(k)), And(t.has(k), r.val(k) == t.val(k))))


@spec('Set.Where')
def _(x):
    s, r = x.view(0), x.res()
    yield 'membership', 'view', same_members(x, r, lambda k: And(s.has(k), x.call(1, s.val(k))), extra=[s])
    yield 'stored elements', 'view', members_kept(r, s)


def same_set(x, s, t, r):
    body = lambda k: s.has(k) == t.has(k)
    pats = lambda k: [s.has(k), t.has(k)]
    s.th.sub_lemma(s.root, t.root)
    yield 'true only for equal contents', 'view', guarded(r, All([s.th.K], body, pats))
    yield 'false only for different contents', 'view', guarded(mknot(r), Ex([s.th.K], lambda k: Not(body(k)), pats))


@spec('Set.Equal')
def _(x): yield from same_set(x, x.view(0), x.view(1), x.ret[0])


@spec('Set.IsSubsetOf')
def _(x):
    s, t, r = x.view(0), x.view(1), x.ret[0]
    body = lambda k: mkimp(s.has(k), t.has(k))
    pats = lambda k: [s.has(k), t.has(k)]
    yield 'true only for subsets', 'view', guarded(r, All([s.th.K], body, pats))
    yield 'false only for non-subsets', 'view', guarded(mknot(r), Ex([s.th.K], lambda k: Not(body(k)), pats))


def dyn(x, i, t):
    """(holds, value) of argument i of interface type asserted to t"""
    return typeassert_any(x.eng, None, x.st0, x.args[i], t, True, x.ptypes[i], '')


@spec('Set.Same')
def _(x):
    v, is_ = dyn(x, 1, x.ptypes[0])
    s, r = x.view(0), x.ret[0]
    t = TV(x.eng, x.st0, v, s.et)
    body = lambda k: s.has(k) == t.has(k)
    pats = lambda k: [s.has(k), t.has(k)]
    s.th.sub_lemma(s.root, t.root)
    yield 'true only for a set of the same type', 'view', mkimp(r, is_)
    yield 'true only for equal contents', 'view', guarded(r, All([s.th.K], body, pats))
    yield 'false only for different contents', 'view', guarded(mkand(is_, mknot(r)), Ex([s.th.K], lambda k: Not(body(k)), pats))


# ---------------------------------------------------------------- Map
@spec('Map.With')
def _(x):
    m, r, k0 = x.view(0), x.res(), x.key(1)
    yield 'keys', 'view', same_members(x, r, lambda k: Or(k == k0, m.has(k)), extra=[m])
    yield 'values', 'view', vals(r, lambda k: r.mval(k) == If(k == k0, x.box(2), m.mval(k)))


@spec('Map.Without')
def _(x):
    m, r, k0 = x.view(0), x.res(), x.key(1)
    yield 'keys', 'view', same_members(x, r, lambda k: And(k != k0, m.has(k)), extra=[m])
    yield 'values', 'view', vals(r, lambda k: r.mval(k) == m.mval(k))


@spec('Map.Has')
def _(x): yield 'true exactly for keys of the map', 'view', x.ret[0] == x.view(0).has(x.key(1))


def get_post(x):
    m, k0 = x.view(0), x.key(1)
    yield 'found exactly when present', 'view', x.ret[1] == m.has(k0)
    yield 'finds the stored value', 'view', mkimp(m.has(k0), x.eng.box(x.rtypes[0], x.ret[0]) == m.mval(k0))
    yield 'zero value when absent', 'view', mkimp(Not(m.has(k0)), x.eng.box(x.rtypes[0], x.ret[0]) == x.eng.box(x.rtypes[0], x.eng.zero(x.rtypes[0])))


spec('Map.Get')(get_post)


@spec('Map.MustGet', panics=lambda x: [('the key is absent', Not(x.view(0).has(x.key(1))))])
def _(x):
    m, k0 = x.view(0), x.key(1)
    yield 'the stored value', 'view', x.eng.box(x.rtypes[0], x.ret[0]) == m.mval(k0)


@spec('Map.GetElse')
def _(x):
    m, k0 = x.view(0), x.key(1)
    yield 'the stored value, else the default', 'view', x.eng.box(x.rtypes[0], x.ret[0]) == If(m.has(k0), m.mval(k0), x.box(2))


@spec('Map.GetElseFunc')
def _(x):
    m, k0 = x.view(0), x.key(1)
    yield 'the stored value, else the computed default', 'view', x.eng.box(x.rtypes[0], x.ret[0]) == If(m.has(k0), m.mval(k0), x.eng.box(x.rtypes[0], x.call(2)))


@spec('Map.Count')
def _(x): yield 'number of entries', 'count', x.ret[0] == x.view(0).CNT


@spec('Map.IsEmpty')
def _(x):
    s = x.view(0)
    yield 'true exactly when there is no entry', 'count', x.ret[0] == (s.CNT == 0)
    yield 'an empty map has no keys', 'view', guarded(x.ret[0], All([s.th.K], lambda k: Not(s.has(k)), lambda k: [s.has(k)]))
    yield 'a non-empty map has a key', 'view', mkimp(mknot(x.ret[0]), s.has(s.th.somek(s.root)))


@spec('Map.Update')
def _(x):
    m, n, r = x.view(0), x.view(1), x.res()
    yield 'keys', 'view', same_members(x, r, lambda k: Or(m.has(k), n.has(k)), extra=[m, n])
    yield 'values: those of n win', 'view', vals(r, lambda k: r.mval(k) == If(n.has(k), n.mval(k), m.mval(k)))


def respects(x):
    """the resolver may look at the key only up to equality"""
    m = x.view(0)
    kt = m.et['a'][0]
    ES = x.eng.theory(kt).E
    VS = x.eng.boxsort(m.et['a'][1])
    c = x.eng.theory(kt).cls
    f = lambda k, a, b: x.eng.box(m.et['a'][1], x.call(2, k, a, b))
    return [('resolver depends on the key only up to equality',
             All([ES, ES, VS, VS], lambda k, l, a, b: mkimp(c(k) == c(l), f(k, a, b) == f(l, a, b)), lambda k, l, a, b: [(f(k, a, b), f(l, a, b))]))]


@spec('Map.Merge')
def _(x):
    m, n, r = x.view(0), x.view(1), x.res()
    vt = m.et['a'][1]
    def both(k):
        res = lambda kk: x.eng.box(vt, x.call(2, kk, m.mval(k), n.mval(k)))
        # called with a key equal to k, the value of m and the value of n, in that order
        return Or(r.mval(k) == res(m.th.entry_key(m.val(k))), r.mval(k) == res(n.th.entry_key(n.val(k))))
    yield 'keys', 'view', same_members(x, r, lambda k: Or(m.has(k), n.has(k)), extra=[m, n])
    yield 'values of keys in both are resolved', 'view', vals(r, lambda k: mkimp(And(m.has(k), n.has(k)), both(k)))
    yield 'values of keys only in m are kept', 'view', vals(r, lambda k: mkimp(Not(n.has(k)), r.mval(k) == m.mval(k)))
    yield 'values of keys only in n are kept', 'view', vals(r, lambda k: mkimp(Not(m.has(k)), r.mval(k) == n.mval(k)))


def same_map(x, m, n, r, is_=TRUE):
    c = x.eng.theory(m.et['a'][1]).cls
    body = lambda k: And(m.has(k) == n.has(k), mkimp(m.has(k), c(m.mval(k)) == c(n.mval(k))))
    pats = lambda k: [m.has(k), n.has(k)]
    m.th.sub_lemma(m.root, n.root)
    yield 'true only for equal contents', 'view', guarded(r, All([m.th.K], body, pats))
    yield 'false only for different contents', 'view', guarded(mkand(is_, mknot(r)), Ex([m.th.K], lambda k: Not(body(k)), pats))


@spec('Map.Equal')
def _(x): yield from same_map(x, x.view(0), x.view(1), x.ret[0])


@spec('Map.Same')
def _(x):
    v, is_ = dyn(x, 1, x.ptypes[0])
    m = x.view(0)
    n = TV(x.eng, x.st0, v, m.et)
    yield 'true only for a map of the same type', 'view', mkimp(x.ret[0], is_)
    yield from same_map(x, m, n, x.ret[0], is_)


# ---------------------------------------------------------------- builders
def bspec(ty, name):
    return spec('%s.%s' % (ty, name), key='frozen.(*%s).%s' % (ty, name))


@bspec('SetBuilder', 'Add')
def _(x):
    b, a, k0 = x.view(0), x.after(0), x.key(1)
    yield 'membership', 'view', same_members(x, a, lambda k: Or(k == k0, b.has(k)), extra=[b])
    yield 'stored elements', 'view', vals(a, lambda k: a.val(k) == If(k == k0, x.box(1), b.val(k)))
    yield 'count grows by the new element', 'count', a.CNT == b.CNT + If(b.has(k0), 0, 1)


@bspec('SetBuilder', 'Remove')
def _(x):
    b, a, k0 = x.view(0), x.after(0), x.key(1)
    yield 'membership', 'view', same_members(x, a, lambda k: And(k != k0, b.has(k)), extra=[b])
    yield 'stored elements', 'view', members_kept(a, b)


def unchanged(x):
    b, a = x.view(0), x.after(0)
    yield 'builder contents unchanged', 'view', same_members(x, a, lambda k: b.has(k), extra=[b])
    yield 'builder elements unchanged', 'view', members_kept(a, b)
    yield 'builder count unchanged', 'count', a.CNT == b.CNT


@bspec('SetBuilder', 'Has')
def _(x):
    yield 'true exactly for members', 'view', x.ret[0] == x.view(0).has(x.key(1))
    yield from unchanged(x)


@bspec('SetBuilder', 'Count')
def _(x):
    yield 'number of elements', 'count', x.ret[0] == x.view(0).CNT
    yield from unchanged(x)


def finish(x):
    b, a, r = x.view(0), x.after(0), x.res()
    yield 'result has exactly the contents of the builder', 'view', same_members(x, r, lambda k: b.has(k), extra=[b])
    yield 'stored elements', 'view', members_kept(r, b)
    yield 'the builder is empty afterwards', 'view', And(a.CNT == 0, a.count == 0)
    yield 'the builder shares nothing with the result', 'frame', a.root == a.th.nil


bspec('SetBuilder', 'Finish')(finish)
bspec('MapBuilder', 'Finish')(finish)


@bspec('MapBuilder', 'Put')
def _(x):
    b, a, k0 = x.view(0), x.after(0), x.key(1)
    yield 'keys', 'view', same_members(x, a, lambda k: Or(k == k0, b.has(k)), extra=[b])
    yield 'values', 'view', vals(a, lambda k: a.mval(k) == If(k == k0, x.box(2), b.mval(k)))


@bspec('MapBuilder', 'Remove')
def _(x):
    b, a, k0 = x.view(0), x.after(0), x.key(1)
    yield 'keys', 'view', same_members(x, a, lambda k: And(k != k0, b.has(k)), extra=[b])
    yield 'values', 'view', vals(a, lambda k: a.mval(k) == b.mval(k))


@bspec('MapBuilder', 'Get')
def _(x):
    yield from get_post(x)
    yield from unchanged(x)


@bspec('MapBuilder', 'Has')
def _(x):
    yield 'true exactly for keys', 'view', x.ret[0] == x.view(0).has(x.key(1))
    yield from unchanged(x)


@bspec('MapBuilder', 'Count')
def _(x):
    yield 'number of entries', 'count', x.ret[0] == x.view(0).CNT
    yield from unchanged(x)


def fresh_builder(x):
    a = TV(x.eng, x.st, x.eng.content(x.st, x.ret[0].o), tree_elem(x.eng, x.rtypes[0]['e']))
    yield 'starts empty', 'view', And(a.root == a.th.nil, a.count == 0)


spec('NewSetBuilder')(fresh_builder)
spec('NewMapBuilder')(fresh_builder)
