"""Nest and Unnest (C21)."""
from specs10 import *


def relroot(eng, rt, z):
    v = eng.unbox(rt, z)
    while len(v.f) == 1: v = v.f[0]
    return v.f


# further operations that these functions might as well use
OTHERS = ('Set.Union', 'Set.Intersection', 'Set.Difference', 'Set.Has', 'Set.With', 'Set.Without', 'Set.IsEmpty', 'Set.Count', 'Map.With', 'Map.Get', 'Map.Has', 'Map.Count', 'Map.IsEmpty', 'Map.Keys', 'SetMap', 'NewSet', 'NewMap')


class RelAny:
    """relations as values of attributes.  ISR(v): values of class v are relations; HR(v,c): such a relation has the tuple
    of class c.  That they are functions of the class, and determine it, is the extensionality of Set.Equal (C06) together
    with the dispatch of value.Equal on the dynamic type (C26)"""
    def __init__(s, eng, tup):
        s.eng, s.tup = eng, tup
        s.rt = SETOF(tup.tt)
        s.Z = eng.boxsort(s.rt)
        s.Any = eng.boxsort(tup.vt)
        V, K, th = tup.vth.K, tup.K, tup.th
        s.ISR, s.HR = Function('ISR', V, B), Function('HR', V, K, B)
        s.DIFF = Function('RDIFF', V, V, K)
        s.of = Function('any_of_' + tstr(s.rt), s.Z, s.Any)
        s.is_, s.as_ = Function('is_relation', s.Any, B), Function('as_relation', s.Any, s.Z)
        ax, c = eng.axiom, tup.vth.cls
        ax(All([s.Z], lambda z: And(s.is_(s.of(z)), s.as_(s.of(z)) == z), lambda z: [s.of(z)]))
        ax(All([s.Any], lambda a: s.ISR(c(a)) == s.is_(a), lambda a: [s.is_(a), s.ISR(c(a))]))
        ax(All([s.Any, K], lambda a, k: mkimp(s.is_(a), s.HR(c(a), k) == th.HAS(s.parts(s.as_(a))[0], k)), lambda a, k: [s.HR(c(a), k), (c(a), th.HAS(s.parts(s.as_(a))[0], k))]))
        # relations stored in tuples are well formed (invariant of the type)
        ax(All([s.Any], lambda a: mkimp(s.is_(a), s.okz(s.as_(a))), lambda a: [s.as_(a)]))
    def parts(s, z): return relroot(s.eng, s.rt, z)
    def okz(s, z):
        r, n = s.parts(z)
        th = s.tup.th
        return And(Or(r == th.nil, th.WF(r, IntVal(0))), n == th.CNT(r))
    def same(s, u, v): return mkimp(And(s.ISR(u), s.ISR(v)), Or(u == v, s.HR(u, s.DIFF(u, v)) != s.HR(v, s.DIFF(u, v))))


def typeassert_rel(eng, fr, st, x, at, ok, xt, pos):
    ra = eng.__dict__.get('_rany')
    if ra is None or not isinstance(x, z3.ExprRef) or tstr(at) != tstr(ra.rt): return typeassert_any(eng, fr, st, x, at, ok, xt, pos)
    if ok: return (eng.unbox(at, ra.as_(x)), ra.is_(x))
    eng.oblige('type assertion holds', 'safe', st.guard, ra.is_(x), pos)
    return eng.unbox(at, ra.as_(x))


def get_rany(eng, tup):
    if not eng.__dict__.get('_rany'): eng._rany = RelAny(eng, tup)
    return eng._rany


def nest_setup(x):
    eng = x.eng
    x.tup = tup = get_tup(eng, x.ptypes[0])
    x.ra = ra = get_rany(eng, tup)
    K, A, th = tup.K, tup.A, tup.th
    s, m = x.view(0), x.view(1)
    S = SETOF(STR)
    x.thS = thS = eng.theory(STR)
    x.S = S
    n = eng.fresh_n()
    x.a0 = a0 = m.th.somek(m.root)
    x.s0 = s0 = relroot(eng, S, m.mval(a0))[0]
    # sets of attributes are determined by their class (extensionality of Set.Equal)
    HSS = Function('HSS', eng.theory(S).K, A, B)
    ZS = eng.boxsort(S)
    eng.axiom(All([ZS, A], lambda z, k: HSS(eng.theory(S).cls(z), k) == thS.HAS(relroot(eng, S, z)[0], k), lambda z, k: [HSS(eng.theory(S).cls(z), k), (eng.theory(S).cls(z), thS.HAS(relroot(eng, S, z)[0], k))]))
    INA = x.INA = lambda k: thS.HAS(s0, k)
    # PRG(r,c): the tuples of class c restricted to the attributes in r
    PRG = x.PRG = Function('PRG!%d' % n, thS.Node, K, K)
    tup.canonical([thS.Node, K], PRG, lambda r, c, k: And(tup.TK(c, k), thS.HAS(r, k)), lambda r, c, k: tup.TV(c, k), False)
    REM = x.REM = Function('REM!%d' % n, K, K)
    tup.canonical([K], REM, lambda c, k: And(tup.TK(c, k), Not(INA(k))), lambda c, k: tup.TV(c, k), False)
    x.IMGG, _ = defex(eng, 'IMGG', [th.Node, thS.Node, K], [K], lambda g, r, u, c: And(th.HAS(g, c), PRG(r, c) == u), lambda g, r, u, c: [(th.HAS(g, c), PRG(r, c))])
    x.IMG, _ = defex(eng, 'IMG', [K, K], [K], lambda k, u, d: And(s.has(d), REM(d) == k, PRG(s0, d) == u), lambda k, u, d: [(s.has(d), REM(d), PRG(s0, d))])
    GV = x.GV = Function('GV!%d' % n, K, tup.vth.K)
    eng.axiom(All([K], lambda k: ra.ISR(GV(k)), lambda k: [GV(k)]))
    eng.axiom(All([K, K], lambda k, u: ra.HR(GV(k), u) == x.IMG(k, u), lambda k, u: [ra.HR(GV(k), u)]))
    NT = x.NT = Function('NT!%d' % n, K, K)
    tup.canonical([K], NT, lambda k, b: Or(tup.TK(k, b), b == a0), lambda k, b: If(tup.TK(k, b), tup.TV(k, b), GV(k)), False)
    eng._nest = x
    eng._nestmark = eng.fresh_n(), len(eng.facts)


def nest_pre(x):
    m, s = x.view(1), x.view(0)
    return [('there is one group of attributes', m.has(x.a0)),
            ('there is only one', All([m.th.K], lambda k: mkimp(m.has(k), k == x.a0), lambda k: [m.has(k)])),
            ('its name is not that of another attribute', All([x.tup.K], lambda c: mkimp(And(s.has(c), x.tup.TK(c, x.a0)), x.INA(x.a0)), lambda c: [(s.has(c), x.tup.TK(c, x.a0))]))]


class Listed(SpecContract):
    """the specification of Elements, noting which set a list enumerates; for the intersection of the groups, that is the
    (only) group"""
    def call(s, eng, st, args, targs, pos, fr):
        r = super().call(eng, st, args, targs, pos, fr)
        x = eng._nest
        if targs[0].get('n') != 'string' or targs[0]['k'] != 'basic': return r
        a, n = eng.slice_arr(st, r, targs[0])
        v = TV(eng, st, args[0], targs[0])
        c = eng.theory(targs[0]).cls
        eng.lemma('the list: only elements', 'view', st.guard, All([I], lambda i: mkimp(And(0 <= i, i < n), v.has(c(Select(a, i)))), lambda i: [Select(a, i)]), pos)
        eng.lemma('the list: all elements', 'view', st.guard, All([x.tup.A], lambda k: mkimp(v.has(k), (lambda p: And(0 <= p, p < n, c(Select(a, p)) == k))(v.th.epos(v.root, k))), lambda k: [v.has(k)]), pos)
        eng.__dict__.setdefault('_listed', []).append((a, n, v))
        return r


class OnlyGroup(SpecContract):
    """the specification of Intersection; that of the only group is that group"""
    def call(s, eng, st, args, targs, pos, fr):
        x = eng._nest
        n0, start = eng.fresh_n(), len(eng.facts)
        r = super().call(eng, st, args, targs, pos, fr)
        v = TV(eng, st, r, targs[0])
        f = All([x.tup.A], lambda k: v.has(k) == x.INA(k), lambda k: [v.has(k), x.INA(k)])
        eng.oblige('the attributes that all groups have', 'view', st.guard, f, pos)
        return r


class NestProject(SpecContract):
    """the specification of Project for a list of the elements of a set"""
    def call(s, eng, st, args, targs, pos, fr):
        x = eng._nest
        n0, start = eng.fresh_n(), len(eng.facts)
        r = super().call(eng, st, args, targs, pos, fr)
        tup = x.tup
        a, n = eng.slice_arr(st, args[1], STR)
        g, v = TV(eng, st, args[0], tup.tt), TV(eng, st, r, tup.tt)
        eng._projected = g.root
        for la, ln, lv in eng.__dict__.get('_listed', ()):
            if not la.eq(a): continue
            PJ = s.x.PJ
            eng.axiom(All([tup.K], lambda c: tup.same(PJ(c), x.PRG(lv.root, c)), lambda c: [PJ(c), x.PRG(lv.root, c)]))
            f0 = eng.lemma('projection of a group: the listed attributes', 'view', st.guard, All([tup.A], lambda k: s.x.INA(k) == x.thS.HAS(lv.root, k), lambda k: [s.x.INA(k), x.thS.HAS(lv.root, k)]), pos)
            f1 = eng.lemma('projection of a group: restriction', 'view', st.guard, All([tup.K], lambda c: PJ(c) == x.PRG(lv.root, c), lambda c: [PJ(c), x.PRG(lv.root, c)]), pos)
            f = All([tup.K], lambda u: v.has(u) == x.IMGG(g.root, lv.root, u), lambda u: [v.has(u), x.IMGG(g.root, lv.root, u)])
            eng.oblige('projection of a group: exactly the restricted tuples', 'view', st.guard, f, pos, False)
            eng.hide(start, lambda h: lift.mentions(h, n0, []), st.guard, [f, v.ok()])
            break
        return r
    def posted(s, eng, st, x, pos): s.x = x


class NestMap(SpecContract):
    """the specification of MapMap, restated for the two mappings of Nest"""
    def call(s, eng, st, args, targs, pos, fr):
        x = eng._nest
        tup, ra = x.tup, x.ra
        n0, start = eng.fresh_n(), len(eng.facts)
        r = super().call(eng, st, args, targs, pos, fr)
        if tstr(targs[0]) == 'string':
            a = TV(eng, st, r, tree_elem(eng, tup.tt))
            cell = lambda k: tup.vcls(a.root, k)
            # the relation that the mapping projects
            g = eng.__dict__.get('_projected')
            if g is None: return r
            fs = [('exactly the name of the group', All([tup.A], lambda k: a.has(k) == (k == x.a0), lambda k: [a.has(k)])),
                  ('its value is a relation', ra.ISR(cell(x.a0))),
                  ('it has the restricted tuples', All([tup.K], lambda u: ra.HR(cell(x.a0), u) == x.IMGG(g, x.s0, u), lambda u: [ra.HR(cell(x.a0), u)]))]
            for nm, f in fs: eng.oblige('nested attribute: ' + nm, 'view', st.guard, f, pos, False)
            eng.hide(start, lambda h: lift.mentions(h, n0, []), st.guard, [f for _, f in fs] + [a.ok()])
        elif tstr(targs[0]) == tstr(tup.tt) and eng.__dict__.get('_grouped'):
            m = TV(eng, st, r, tree_elem(eng, {'k': 'named', 'n': 'frozen.Map', 'a': [targs[0], targs[2]]}))
            grp, gm = eng._grouped
            src, REM, NT = x.view(0), x.REM, x.NT
            e = tup.th.cls
            t = lambda k: e(m.mval(k))
            eng.axiom(All([tup.K], lambda k: mkimp(m.has(k), And(tup.same(t(k), NT(k)), ra.same(tup.TV(t(k), x.a0), x.GV(k)))), lambda k: [m.mval(k)]))
            fs = [('keys', All([tup.K], lambda k: m.has(k) == gm.has(k), lambda k: [m.has(k), gm.has(k)]))]
            if not gm.root.eq(TV(eng, st, args[0], gm.et).root): return r
            l1 = eng.lemma('nested tuple: restricted tuples of the group', 'view', st.guard, All([tup.K, tup.K], lambda k, u: mkimp(gm.has(k), x.IMGG(grp(k)[0], x.s0, u) == x.IMG(k, u)), lambda k, u: [(gm.has(k), x.IMGG(grp(k)[0], x.s0, u)), (gm.has(k), x.IMG(k, u))]), pos, without=('TK', 'TV', 'TDIFF', 'IN_seq', 'IN_keys', 'IN_removed', 'ISR', 'HR'))
            l2 = eng.lemma('nested tuple: attributes', 'view', st.guard, All([tup.K, tup.A], lambda k, b: mkimp(m.has(k), tup.TK(t(k), b) == Or(tup.TK(k, b), b == x.a0)), lambda k, b: [tup.TK(t(k), b)]), pos)
            l3 = eng.lemma('nested tuple: kept values', 'view', st.guard, All([tup.K, tup.A], lambda k, b: mkimp(And(m.has(k), tup.TK(k, b)), tup.TV(t(k), b) == tup.TV(k, b)), lambda k, b: [tup.TV(t(k), b)]), pos)
            l4 = eng.lemma('nested tuple: nested value', 'view', st.guard, All([tup.K], lambda k: mkimp(m.has(k), And(Not(tup.TK(k, x.a0)), tup.TV(t(k), x.a0) == x.GV(k))), lambda k: [m.mval(k)]), pos)
            fs.append(('the nested tuple', All([tup.K], lambda k: mkimp(m.has(k), t(k) == NT(k)), lambda k: [m.has(k)])))
            for nm, f in fs: eng.oblige('nested tuple: ' + nm, 'view', st.guard, f, pos, False)
            eng.hide(start, lambda h: lift.mentions(h, n0, []), st.guard, [f for _, f in fs] + [m.ok()])
        return r


class GroupByRemainder(SpecContract):
    """the specification of SetGroupBy, restated: the key of every tuple of class c is REM(c)"""
    def call(s, eng, st, args, targs, pos, fr):
        x = eng._nest
        n0, start = eng.fresh_n(), len(eng.facts)
        r = super().call(eng, st, args, targs, pos, fr)
        tup, REM = x.tup, x.REM
        th = tup.th
        fn = eng.prog.fns[s.key]
        rt = eng.prog.sub(fn['sig']['r']['e'][0], dict(zip(fn['tp'], targs)))
        m, src = TV(eng, st, r, tree_elem(eng, rt)), TV(eng, st, args[0], tup.tt)
        thR = m.th
        grp = lambda k: setparts(eng, tup.tt, thR.entry_val(thR.VAL(m.root, k)))
        F, = eng.lifted
        e = tup.th.cls
        eng.axiom(All([tup.Z], lambda z: tup.same(e(F(z)), REM(e(z))), lambda z: [F(z)]))
        for nm, f in [('attributes of the remainder', All([tup.Z, tup.A], lambda z, k: mkimp(tup.okz(z), tup.TK(e(F(z)), k) == And(tup.TK(e(z), k), Not(x.INA(k)))), lambda z, k: [tup.TK(e(F(z)), k)])),
                      ('values of the remainder', All([tup.Z, tup.A], lambda z, k: mkimp(And(tup.okz(z), tup.TK(e(F(z)), k)), tup.TV(e(F(z)), k) == tup.TV(e(z), k)), lambda z, k: [tup.TK(e(F(z)), k), tup.TV(e(F(z)), k)])),
                      ('the key is the remainder', All([tup.Z], lambda z: mkimp(tup.okz(z), e(F(z)) == REM(e(z))), lambda z: [F(z)]))]:
            eng.oblige('grouping by the other attributes: ' + nm, 'view', st.guard, f, pos)
        fs = [All([th.K], lambda c: mkimp(src.has(c), m.has(REM(c))), lambda c: [src.has(c)]),
              All([th.K], lambda k: mkimp(m.has(k), (lambda c: And(th.HAS(grp(k)[0], c), src.has(c), REM(c) == k))(th.cls(s.x.el(s.x.sq.LAST(src.CNT, k))))), lambda k: [m.has(k)]),
              All([th.K, th.K], lambda k, c: mkimp(m.has(k), th.HAS(grp(k)[0], c) == And(src.has(c), REM(c) == k)), lambda k, c: [(m.has(k), th.HAS(grp(k)[0], c)), (m.has(k), src.has(c))]),
              All([thR.K], lambda k: mkimp(m.has(k), And(Or(grp(k)[0] == th.nil, th.WF(grp(k)[0], IntVal(0))), grp(k)[1] == th.CNT(grp(k)[0]))), lambda k: [m.has(k)]),
              m.ok()]
        for nm, f in zip(('every tuple is in the group of its remainder', 'no group is empty', 'the groups hold exactly the tuples with their remainder', 'the groups are well formed', 'the map is well formed'), fs):
            eng.oblige('grouping by the other attributes: ' + nm, 'view', st.guard, f, pos, False)
        eng.hide(start, lambda f: lift.mentions(f, n0, []), st.guard, fs)
        eng._grouped = grp, m
        # the keys of a map of tuples are well formed (invariant of the type)
        eng.axiom(All([thR.Node, th.K], lambda n, k: mkimp(thR.HAS(n, k), tup.okz(thR.entry_key(thR.VAL(n, k)))), lambda n, k: [thR.VAL(n, k)]))
        return r
    def posted(s, eng, st, x, pos): s.x = x


def nest_t(x):
    """for a loop that removes attributes from a tuple"""
    tup = x.tup
    thm = tup.thm
    memo = {}
    def t(cut, st, unchanged, ints, sls):
        out = []
        StrArr = z3.ArraySort(I, x.eng.boxsort(STR))
        arrays = [(a, n) for _, a, n in unchanged if a.sort() == StrArr]
        arrays += [(a, n) for a, n, _ in x.eng.__dict__.get('_listed', ()) if not any(b.eq(a) for b, _ in arrays)]
        for a, n in arrays:
            if a.get_id() not in memo:
                fw = Seq(x, thm, lambda i, k, a=a: tup.kth.cls(Select(a, i)) == k, lambda i, a=a: Select(a, i), name='removed')
                bw = Seq(x, thm, lambda i, k, a=a, n=n: tup.kth.cls(Select(a, n - 1 - i)) == k, lambda i, a=a, n=n: Select(a, n - 1 - i), name='removed')
                x.eng.axiom(All([I, thm.K, I], lambda j, k, i, a=a, n=n: mkimp(And(0 <= i, i < n, n - 1 - i < j, tup.kth.cls(Select(a, i)) == k), bw.IN(j, k)), lambda j, k, i, a=a: [(bw.IN(j, k), Select(a, i))]))
                memo[a.get_id()] = (fw, bw, a)
            for sq in memo[a.get_id()][:2]:
                for key, isobj in cells(cut, st, thm):
                    e0 = treecell(cut, cut.entry, cut.get(cut.entry, key), thm)
                    r0 = cut.eng.to_node(cut.entry, e0[0], thm.et, False)
                    def nd(s2, key=key):
                        c = treecell(cut, s2, cut.get(s2, key), thm)
                        if c is None: raise loops.Skip()
                        return cut.eng.to_node(s2, c[0], thm.et, False), c[1]
                    def keys(s2, jj, nd=nd, sq=sq, r0=r0):
                        sq.at(jj)
                        r = nd(s2)[0]
                        return All([thm.K], lambda k: thm.HAS(r, k) == And(thm.HAS(r0, k), Not(sq.IN(jj, k))), lambda k: [thm.HAS(r, k), sq.IN(jj, k)])
                    def values(s2, jj, nd=nd, r0=r0):
                        r = nd(s2)[0]
                        return All([thm.K], lambda k: mkimp(thm.HAS(r, k), thm.entry_val(thm.VAL(r, k)) == thm.entry_val(thm.VAL(r0, k))), lambda k: [thm.VAL(r, k)])
                    out += [('tuple well formed', lambda s2, jj, nd=nd: (lambda r: And(Or(r[0] == thm.nil, thm.WF(r[0], IntVal(0))), r[1] == thm.CNT(r[0])))(nd(s2))),
                            ('the attributes so far are removed', keys), ('the values are kept', values)]
        return out
    return [t]


@rspec('Nest', setup=nest_setup, templates=nest_t, pre=nest_pre, opts={'typeassert': typeassert_rel},
       calls=OTHERS + ('Map.Values', Listed(SPECS['Set.Elements']), OnlyGroup(SPECS['Intersection']), 'Map.Without', GroupByRemainder(SPECS['SetGroupBy']), NestMap(SPECS['MapMap']), NestProject(SPECS['rel.Project']), 'Map.Update'))
def _(x):
    s, r, tup = x.view(0), x.res(), x.tup
    yield 'every tuple has its nested tuple', 'view', All([tup.K], lambda c: mkimp(s.has(c), r.has(x.NT(x.REM(c)))), lambda c: [s.has(c)])
    P, _ = defex(x.eng, 'ISNT', [tup.K], [tup.K], lambda u, c: And(s.has(c), u == x.NT(x.REM(c))), lambda u, c: [(s.has(c), x.NT(x.REM(c)))])
    yield 'only nested tuples', 'view', vals(r, lambda u: P(u))
    def ext(c, d):
        # extensionality, and the definition of NT at the attribute in question
        b = tup.DIFF(c, d)
        df = lambda k: And(tup.TK(x.NT(k), b) == Or(tup.TK(k, b), b == x.a0), mkimp(tup.TK(k, b), tup.TV(x.NT(k), b) == tup.TV(k, b)))
        return And(tup.same(c, d), df(c), df(d))
    x.eng.axiom(All([tup.K, tup.K], lambda c, d: ext(x.REM(c), x.REM(d)), lambda c, d: [(x.REM(c), x.REM(d))]))
    yield 'one tuple per remainder', 'view', All([tup.K, tup.K], lambda c, d: mkimp(And(s.has(c), s.has(d), x.NT(x.REM(c)) == x.NT(x.REM(d))), x.REM(c) == x.REM(d)), lambda c, d: [(s.has(c), s.has(d))])


# ---------------------------------------------------------------- Unnest
def unnest_setup(x):
    eng = x.eng
    x.tup = tup = get_tup(eng, x.ptypes[0])
    x.ra = ra = get_rany(eng, tup)
    K, A, th, TK, TV = tup.K, tup.A, tup.th, tup.TK, tup.TV
    s = x.view(0)
    at = x.at = x.key(1)
    n = eng.fresh_n()
    AG, UPD = get_agree(eng, tup), get_upd(eng, tup, False)
    R = x.R = Function('REM1!%d' % n, K, K)
    tup.canonical([K], R, lambda c, k: And(TK(c, k), k != at), lambda c, k: TV(c, k), False)
    x.nested = lambda t: TV(t, at)
    # UN(t,u): u is the tuple t without the attribute, with a tuple of the nested relation it agrees with
    x.UN, x.unax = defex(eng, 'UN', [K, K], [K], lambda t, u, v: And(ra.HR(x.nested(t), v), AG(R(t), v), u == UPD(R(t), v)), lambda t, u, v: [(ra.HR(x.nested(t), v), UPD(R(t), v))])
    # members of relations, as a function of their class
    thR = x.thR = eng.theory(ra.rt)
    x.HRS = Function('HRS', thR.K, K, B)
    eng.axiom(All([ra.Z, K], lambda z, k: x.HRS(thR.cls(z), k) == th.HAS(ra.parts(z)[0], k), lambda z, k: [x.HRS(thR.cls(z), k), (thR.cls(z), th.HAS(ra.parts(z)[0], k))]))
    eng._nest = x


def unnest_pre(x):
    s, tup, ra = x.view(0), x.tup, x.ra
    TK = tup.TK
    return [('every tuple has a relation as the attribute', All([tup.K], lambda c: mkimp(s.has(c), And(TK(c, x.at), ra.ISR(x.nested(c)))), lambda c: [s.has(c)])),
            ('the nested relations have uniform headings', All([tup.K, tup.K, tup.K, tup.A], lambda c, u, w, k: mkimp(And(s.has(c), ra.HR(x.nested(c), u), ra.HR(x.nested(c), w)), TK(u, k) == TK(w, k)),
                lambda c, u, w, k: [(ra.HR(x.nested(c), u), ra.HR(x.nested(c), w), TK(u, k)), (ra.HR(x.nested(c), u), ra.HR(x.nested(c), w), TK(w, k))]))]


class Rest(SpecContract):
    """the specification of Without: what is left of a tuple without the attribute"""
    def call(s, eng, st, args, targs, pos, fr):
        x, tup = eng._nest, eng._nest.tup
        n0, start = eng.fresh_n(), len(eng.facts)
        r = super().call(eng, st, args, targs, pos, fr)
        if tstr({'k': 'named', 'n': 'frozen.Map', 'a': targs}) != tstr(tup.tt): return r
        e = tup.th.cls
        t, q = e(eng.box(tup.tt, args[0])), e(eng.box(tup.tt, r))
        eng.fact(tup.same(q, x.R(t)))
        f = q == x.R(t)
        eng.oblige('the rest of the tuple', 'view', st.guard, f, pos)
        eng._unt = t, TV(eng, st, args[0], tree_elem(eng, tup.tt)), q
        return r


class JoinNested(SpecContract):
    """the specification of Join, restated for the nested relation and the rest of its tuple, in either order"""
    def call(s, eng, st, args, targs, pos, fr):
        x, tup, ra = eng._nest, eng._nest.tup, eng._nest.ra
        if not eng.__dict__.get('_unt'): return super().call(eng, st, args, targs, pos, fr)
        n0, start = eng.fresh_n(), len(eng.facts)
        t, tv, q = eng._unt
        K, A, th, thR, HRS = tup.K, tup.A, tup.th, x.thR, x.HRS
        N = x.nested(t)
        AG, UPD = get_agree(eng, tup), get_upd(eng, tup, False)
        a, n = eng.slice_arr(st, args[0], ra.rt)
        cl = lambda j: thR.cls(Select(a, j))
        V0 = thR.cls(ra.as_(tv.mval(x.at)))
        V1 = If(cl(IntVal(0)) != V0, cl(IntVal(0)), If(n == 2, cl(IntVal(1)), cl(IntVal(0))))
        def lemma(nm, f, **kw): return eng.lemma('operands of the join: ' + nm, 'view', st.guard, f, pos, **kw)
        l0 = lemma('members of the nested relation', All([K], lambda c: HRS(V0, c) == ra.HR(N, c), lambda c: [HRS(V0, c), ra.HR(N, c)]))
        c0, c1, c2 = [cl(IntVal(i)) for i in range(3)]
        lemma('of three, two are equal', mkimp(n >= 3, Or(c0 == c1, c0 == c2, c1 == c2)))
        l1 = lemma('one or two', And(1 <= n, n <= 2))
        l2 = lemma('one is the nested relation', Or(cl(IntVal(0)) == V0, And(n == 2, cl(IntVal(1)) == V0)))
        one = lambda v: All([K], lambda c: HRS(v, c) == (c == q), lambda c: [HRS(v, c)])
        l3 = lemma('the other is the rest of the tuple', All([K], lambda c: HRS(V1, c) == (c == x.R(t)), lambda c: [HRS(V1, c)]))
        r = super().call(eng, st, args, targs, pos, fr)
        v = TV(eng, st, r, tup.tt)
        l4 = lemma('agreement is symmetric', All([K], lambda c: AG(q, c) == AG(c, q), lambda c: [AG(q, c), AG(c, q)]))
        eng.axiom(All([K], lambda c: tup.same(UPD(q, c), UPD(c, q)), lambda c: [ra.HR(N, c), UPD(c, q)]))
        eng.axiom(tup.same(UPD(q, q), q))
        l5 = lemma('so is their combination', All([K], lambda c: mkimp(AG(q, c), UPD(q, c) == UPD(c, q)), lambda c: [ra.HR(N, c)]))
        l6 = lemma('a tuple combined with itself', And(AG(q, q), UPD(q, q) == q))
        f = All([K], lambda u: v.has(u) == x.UN(t, u), lambda u: [v.has(u), x.UN(t, u)])
        eng.oblige('operands of the join: exactly the combinations with the nested tuples', 'view', st.guard, f, pos, False)
        eng.hide(start, lambda h: lift.mentions(h, n0, []), st.guard, [f, v.ok()])
        return r
    def posted(s, eng, st, x, pos):
        x.unf(IntVal(1))


def unnest_t(x):
    tup = x.tup
    th, memo = tup.th, {}
    th.use_seq()
    def t(cut, st, unchanged, ints, sls):
        out = []
        rows = x.view(0).root
        for key in cut.changed:
            if not (key[0] == 'obj' and key[1].typ.get('k') == 'iter' and key[1].iter_of[0] is th): continue
            n = key[1].iter_of[1]
            i = n.get_id()
            if n.eq(rows):
                if i not in memo: memo[i] = (Seq(x, th, lambda j, u: x.UN(th.cls(th.elem(n, j)), u), lambda j: th.elem(n, j), name='unnested'), n)
                out += build_templates(x, [memo[i][0]], single=False)(cut, st, unchanged, ints, sls)
            else:
                if i not in memo: memo[i] = (elemseq(x, th, lambda j: th.elem(n, j), name='joined'), n)
                for bk, isobj in cells(cut, st, th):
                    c0 = treecell(cut, cut.entry, cut.get(cut.entry, bk), th)
                    b0 = cut.eng.to_node(cut.entry, c0[0], th.et, False)
                    out += build_templates(x, [memo[i][0]], single=False, member=lambda q: lambda k, jj: Or(th.HAS(b0, k), q.IN(jj, k)))(cut, st, unchanged, ints, sls)
        return out
    return [iter_template, t]


@rspec('Unnest', setup=unnest_setup, templates=unnest_t, pre=unnest_pre, opts={'typeassert': typeassert_rel},
       calls=OTHERS + ('Map.Values', 'Set.Elements', Rest(SPECS['Map.Without']), 'MapMap', 'Map.Project', 'NewSet', 'Set.With', JoinNested(SPECS['rel.Join']), 'SetBuilder.Add', 'SetBuilder.Finish'))
def _(x):
    s, r, tup = x.view(0), x.res(), x.tup
    P, _ = defex(x.eng, 'ISUN', [tup.K], [tup.K], lambda u, c: And(s.has(c), x.UN(c, u)), lambda u, c: [(s.has(c), x.UN(c, u))])
    yield 'only combinations of the rest of a tuple and a nested tuple', 'view', vals(r, lambda u: P(u))
    yield 'all of them', 'view', All([tup.K, tup.K], lambda c, u: mkimp(And(s.has(c), x.UN(c, u)), r.has(u)), lambda c, u: [(s.has(c), x.UN(c, u))])
