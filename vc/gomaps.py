"""Go's built-in maps: the language semantics, over the same ghost finite-map view as the tries
(a Go map is a finite map from keys to values; its iteration order is an arbitrary enumeration)."""
import z3
from z3 import And, Or, Not, If, IntVal
from engine import *


def entry(k, v): return {'k': 'named', 'n': 'frozen.mapEntry', 'a': [k, v]}


def setup(eng, t):
    """theory of a map type"""
    u = eng.prog.under(t) if t['k'] == 'named' else t
    return entry(u['key'], u['e'])


def content(eng, st, m, pos):
    if not isinstance(m, Ptr) or m.o.typ.get('k') != 'gomap': raise Unsupported('map %r' % (m,))
    return eng.content(st, m.o).f


def make(eng, st, t):
    et = setup(eng, t)
    th = eng.theory(et)
    return Ptr(eng.alloc(st, {'k': 'gomap', 'et': et}, SV([th.nil, IntVal(0)]), 'gomap'))


def symmap(eng, st, t, name):
    """an arbitrary map"""
    et = setup(eng, t)
    th = eng.theory(et)
    n = eng.fresh(name, th.Node)
    eng.fact(Or(n == th.nil, th.WF(n, IntVal(0))))
    o = Obj({'k': 'gomap', 'et': et}, name, fresh=False)
    o.init = SV([n, th.CNT(n)])
    return Ptr(o), n


def boxentry(eng, et, k, v): return eng.box(et, SV([SV([k, v])]))


def keycls(eng, th, et, k):
    return th.keyth.cls(eng.box(et['a'][0], k))


def update(eng, st, m, k, v, pos):
    if m is NIL: eng.oblige('assignment to entry in nil map', 'safe', st.guard, FALSE, pos); raise Dead()
    n, c = content(eng, st, m, pos)
    et = m.o.typ['et']
    th = eng.theory(et)
    if not eng.writable(m.o): eng.oblige('frame: writes a map it does not own', 'frame', st.guard, FALSE, pos)
    e = boxentry(eng, et, k, v)
    k0 = keycls(eng, th, et, k)
    r = eng.fresh('gm', th.Node)
    had = th.HAS(n, k0)
    for f in (th.WF(r, IntVal(0)), th.CNT(r) == th.CNT(n) + If(had, 0, 1), th.cls(e) == k0,
              All([th.K], lambda q: th.HAS(r, q) == Or(q == k0, th.HAS(n, q)), lambda q: [th.HAS(r, q)]),
              All([th.K], lambda q: mkimp(th.HAS(r, q), th.VAL(r, q) == mkif(q == k0, e, th.VAL(n, q))), lambda q: [th.VAL(r, q)])):
        eng.fact(f, st.guard)
    th.point_update(r, n, k0, e, st.guard)
    st.heap[m.o] = SV([r, th.CNT(r)])


def delete(eng, st, m, k, pos):
    if m is NIL: return
    n, c = content(eng, st, m, pos)
    et = m.o.typ['et']
    th = eng.theory(et)
    if not eng.writable(m.o): eng.oblige('frame: writes a map it does not own', 'frame', st.guard, FALSE, pos)
    k0 = keycls(eng, th, et, k)
    r = eng.fresh('gm', th.Node)
    for f in (Or(r == th.nil, th.WF(r, IntVal(0))), th.CNT(r) == th.CNT(n) - If(th.HAS(n, k0), 1, 0),
              All([th.K], lambda q: th.HAS(r, q) == And(q != k0, th.HAS(n, q)), lambda q: [th.HAS(r, q)]),
              All([th.K], lambda q: mkimp(th.HAS(r, q), th.VAL(r, q) == th.VAL(n, q)), lambda q: [th.VAL(r, q)])):
        eng.fact(f, st.guard)
    th.point_update(r, n, k0, None, st.guard)
    st.heap[m.o] = SV([r, th.CNT(r)])


def lookup(eng, st, m, k, ok, vt, pos):
    if m is NIL: v, has = eng.zero(vt), FALSE
    else:
        n, c = content(eng, st, m, pos)
        et = m.o.typ['et']
        th = eng.theory(et)
        k0 = keycls(eng, th, et, k)
        has = th.HAS(n, k0)
        v = eng.unbox(et, th.VAL(n, k0)).f[0].f[1]
        v = eng.merge(has, v, eng.zero(vt))
    return (v, has) if ok else v


def length(eng, st, m): return content(eng, st, m, '')[1]


def range_(eng, st, m, pos):
    if m is NIL: raise Unsupported('range over nil map')
    n, c = content(eng, st, m, pos)
    return eng.iterv(st, m.o.typ['et'], n, IntVal(-1))


def next_(eng, st, it):
    th = eng.theory(it.et)
    q = simp(eng.content(st, it.o).f[0] + 1)
    st.heap[it.o] = SV([q])
    e = eng.unbox(it.et, th.elem(it.n, q)).f[0]
    return (simp(q < th.CNT(it.n)), e.f[0], e.f[1])
