"""Ordered iteration: the exported operations (C11)."""
from specs2 import *
import ordered, loops
from ordered import OrdV, swo, lessfn, first_n


def ord_setup(i):
    def f(x):
        s = x.view(0)
        s.th.use_seq(); s.th.use_arrays()
        x.L = lessfn(x.eng, x.args[i], s.et)
    return f


def ord_pre(x):
    return [(ordered.SWO, f) for f in swo(x.eng, x.L, x.view(0).th.E)] if not getattr(x, 'atcall', False) else []


def ord_template(x):
    def t(cut, st, unchanged, ints, sls):
        eng, th, L = x.eng, x.view(0).th, x.L
        out = []
        obs = [k for k in cut.changed if k[0] == 'obj' and k[1].typ.get('k') == 'ordit']
        for k in obs:
            a0, n0 = eng.content(cut.entry, k[1]).f[:2]
            def ab(y, k=k): return cut.get(y, k).f[:2]
            def mk(f, ab=ab): return lambda y, jj: f(*ab(y), jj)
            out += [('remaining number', mk(lambda a, n, jj: n == n0 - jj)),
                    ('remaining distinct', mk(lambda a, n, jj: th.DIST(a, n))),
                    ('remaining come from the start', mk(lambda a, n, jj: All([I], lambda i: mkimp(And(0 <= i, i < n), And(th.INARR(a0, n0, th.cls(Select(a, i))), Select(a0, th.apos(a0, n0, th.cls(Select(a, i)))) == Select(a, i))), lambda i: [Select(a, i)])))]
            for sc in sls:
                try: cut.arrlen(cut.entry, sc, th.et)
                except (loops.Skip, Unsupported): continue
                def mr(f, ab=ab, sc=sc):
                    def g(y, jj):
                        r, nr = cut.arrlen(y, sc, th.et)
                        if r.sort() != th.A: raise loops.Skip()
                        return f(*ab(y), r, nr, jj)
                    return g
                out += [('result distinct', mr(lambda a, n, r, nr, jj: th.DIST(r, nr))),
                        ('result comes from the start', mr(lambda a, n, r, nr, jj: All([I], lambda i: mkimp(And(0 <= i, i < nr), And(th.INARR(a0, n0, th.cls(Select(r, i))), Select(a0, th.apos(a0, n0, th.cls(Select(r, i)))) == Select(r, i), Not(th.INARR(a, n, th.cls(Select(r, i)))))), lambda i: [Select(r, i)]))),
                        ('nothing is lost', mr(lambda a, n, r, nr, jj: All([I], lambda p: mkimp(And(0 <= p, p < n0), Or(th.INARR(a, n, th.cls(Select(a0, p))), th.INARR(r, nr, th.cls(Select(a0, p))))), lambda p: [Select(a0, p)]))),
                        ('~sorted', mr(lambda a, n, r, nr, jj: All([I, I], lambda i, k: mkimp(And(0 <= i, i < k, k < nr), Not(L(Select(r, k), Select(r, i)))), lambda i, k: [(Select(r, i), Select(r, k))]))),
                        ('~the rest is not less', mr(lambda a, n, r, nr, jj: All([I, I], lambda i, p: mkimp(And(0 <= i, i < nr, 0 <= p, p < n), Not(L(Select(a, p), Select(r, i)))), lambda i, p: [(Select(r, i), Select(a, p))])))]
        return out
    return t


ORDT = lambda x: [ord_template(x), iter_template]


@spec('Set.OrderedRange', setup=ord_setup(1), pre=ord_pre)
def _(x):
    s, v = x.view(0), x.ret[0]
    ok = isinstance(v, OrdV)
    yield 'returns an ordered iterator', 'view', BoolVal(ok)
    if ok:
        a, n = x.eng.content(x.st, v.o).f[:2]
        for nm, f in first_n(x.eng, s.th, s.root, x.L, a, n, s.CNT): yield nm, 'view', f


def sorted_list(x, N):
    s = x.view(0)
    th, L = s.th, x.L
    a, n = x.eng.slice_arr(x.st, x.ret[0], s.et)
    for nm, f in first_n(x.eng, th, s.root, L, a, n, N): yield nm, 'view', f
    yield 'in non-descending order', 'view', All([I, I], lambda i, k: mkimp(And(0 <= i, i < k, k < n), Not(L(Select(a, k), Select(a, i)))), lambda i, k: [(Select(a, i), Select(a, k))])


@spec('Set.OrderedElements', setup=ord_setup(1), pre=ord_pre, templates=ORDT)
def _(x): yield from sorted_list(x, x.view(0).CNT)


@spec('Set.OrderedFirstN', setup=ord_setup(2), pre=lambda x: ord_pre(x) + [('n is not negative', x.args[1] >= 0)], templates=ORDT)
def _(x): yield from sorted_list(x, If(x.args[1] <= x.view(0).CNT, x.args[1], x.view(0).CNT))


@spec('Set.First', setup=ord_setup(1), pre=ord_pre, calls=('Set.OrderedFirstN',), panics=lambda x: [('the set is empty', x.view(0).CNT == 0)])
def _(x):
    s, v = x.view(0), x.ret[0]
    ok = isinstance(v, IV) and tstr(v.t) == tstr(s.et)
    yield 'an element', 'view', BoolVal(ok)
    if not ok: return
    e = x.eng.box(s.et, v.v)
    yield 'of the set', 'view', And(s.has(s.th.cls(e)), s.val(s.th.cls(e)) == e)
    yield 'no element is less', 'view', All([s.th.K], lambda k: mkimp(s.has(k), Not(x.L(s.val(k), e))), lambda k: [s.has(k)])


@spec('Set.FirstN', setup=ord_setup(2), pre=lambda x: ord_pre(x) + [('n is not negative', x.args[1] >= 0)], calls=('Set.OrderedFirstN', 'NewSet'))
def _(x):
    s, r = x.view(0), x.res()
    yield 'min(n, Count) elements', 'view', r.CNT == If(x.args[1] <= s.CNT, x.args[1], s.CNT)
    yield 'elements of the set', 'view', vals(r, lambda k: And(s.has(k), r.val(k) == s.val(k)))
    yield 'no omitted element is less than one of them', 'view', All([s.th.K, s.th.K], lambda k, m: mkimp(And(s.has(k), Not(r.has(k)), r.has(m)), Not(x.L(s.val(k), s.val(m)))), lambda k, m: [(s.has(k), r.has(m))])
