"""Powerset (C18) and grouping (C12)."""
from specs2 import *
from low import BIT, LOW, bitfacts, BV
import loops

SETOF = lambda t: {'k': 'named', 'n': 'frozen.Set', 'a': [t]}


def setbox(eng, t, root, count):
    """boxed Set[T] value"""
    d, _ = eng.structbox(SETOF(t))
    inner = d.accessor(0, 0).range()
    return d.constructor(0)(inner_ctor(eng, t)(root, count))


def inner_ctor(eng, t):
    u = eng.prog.under(SETOF(t))
    eng.structbox(SETOF(t))
    d, _ = eng.structbox(u['f'][0]['t'])
    return d.constructor(0)


def setparts(eng, t, z):
    """(root, count) of a boxed Set[T]"""
    v = eng.unbox(SETOF(t), z)
    while len(v.f) == 1: v = v.f[0]
    return v.f


def GB(i, b): return z3.Xor(BIT(i, b), BIT(i, b + 1))


def power_setup(x):
    eng, s = x.eng, x.view(0)
    th = s.th
    th.use_seq()
    et = s.et
    th2 = eng.theory(SETOF(et))
    x.th2 = th2
    n = s.CNT
    NB = z3.Int2BV(n, 64)
    eng.fact(mkimp(And(0 <= n, n <= 63), z3.ULT(NB, z3.BitVecVal(64, 64))))
    x.P = P = z3.BitVecVal(1, 64) << NB
    x.SC = SC = Function('SC', BV(64), th2.K)
    x.IX = IX = Function('IX', th2.K, BV(64))
    x.BVOF = BVOF = Function('BVOF', I, BV(64))
    x.gb = lambda i, k: GB(i, th.epos(s.root, k))
    ax = eng.axiom
    # lemma:bits  a word is below 1<<n exactly when its bits are below n
    ax(All([BV(64), I], lambda i, b: mkimp(And(0 <= n, n <= 63, z3.ULT(i, P), BIT(i, b)), b < n), lambda i, b: [BIT(i, b)]))
    # lemma:ext  sets with the same members are in the same equality class (C06: Set.Equal is extensional);
    # SC(i) is the class of the set whose members are those at the positions of the bits of the Gray code of i
    DIFF = Function('DIFF', th.Node, BV(64), th.K)
    differ = lambda r, i, k: th.HAS(r, k) != And(s.has(k), x.gb(i, k))
    ax(All([th.Node, I, BV(64)], lambda r, c, i: mkimp(And(Or(r == th.nil, th.WF(r, IntVal(0))), c == th.CNT(r)),
        Or(differ(r, i, DIFF(r, i)), th2.cls(setbox(eng, et, r, c)) == SC(i))), lambda r, c, i: [(th2.cls(setbox(eng, et, r, c)), SC(i))]))
    # lemma:gray  different words have different Gray codes, hence different classes below 1<<n
    ax(All([BV(64)], lambda i: mkimp(And(0 <= n, n <= 63, z3.ULT(i, P)), IX(SC(i)) == i), lambda i: [SC(i)]))
    ax(BVOF(IntVal(1)) == z3.BitVecVal(1, 64))
    ax(All([I, I], lambda a, b: mkimp(b == a + 1, BVOF(b) == BVOF(a) + 1), lambda a, b: [(BVOF(a), BVOF(b))]))
    # an arbitrary subset t of s
    x.t = eng.fresh('t', th.Node)
    eng.fact(Or(x.t == th.nil, th.WF(x.t, IntVal(0))))
    eng.fact(All([th.K], lambda k: mkimp(th.HAS(x.t, k), s.has(k)), lambda k: [th.HAS(x.t, k)]))
    # the word whose Gray code is the characteristic function of t (comprehension over n <= 63 positions, lemma:gray)
    x.G = eng.fresh('G', BV(64))
    eng.fact(mkimp(And(0 <= n, n <= 63), z3.ULT(x.G, P)))
    eng.fact(All([th.K], lambda k: mkimp(And(0 <= n, n <= 63, s.has(k)), x.gb(x.G, k) == th.HAS(x.t, k)), lambda k: [th.HAS(x.t, k)]))
    x.gray = lambda j: eng.fact(mkimp(And(0 <= n, n <= 63, z3.ULT(j, P)), IX(SC(j)) == j))
    x.gray(x.G)


def power_t(x):
    eng, s = x.eng, x.view(0)
    th, th2, SC, IX, P = s.th, x.th2, x.SC, x.IX, x.P
    one = z3.BitVecVal(1, 64)
    def grayfacts(i):
        """lemma:gray  i and i-1"""
        p = z3.simplify(i - one)
        bitfacts(eng, i)
        t = LOW(i)
        eng.fact(mkimp(i != 0, All([I], lambda b: BIT(p, b) == Or(And(0 <= b, b < t), And(b > t, BIT(i, b))), lambda b: [BIT(p, b), BIT(i, b)]).goal(eng)) if False else
                 All([I], lambda b: mkimp(i != 0, BIT(p, b) == Or(And(0 <= b, b < t), And(b > t, BIT(i, b)))), lambda b: [BIT(p, b), BIT(i, b)]))
        eng.fact(All([I], lambda b: mkimp(p == 0, Not(BIT(p, b))), lambda b: [BIT(p, b)]))
    def t(cut, st, unchanged, ints, sls):
        out = []
        words = [k for k in cut.changed if isinstance(cut.get(cut.entry, k), z3.ExprRef) and cut.get(cut.entry, k).sort() == BV(64)]
        for wk in words:
            def cur(s2, wk=wk):
                i = cut.get(s2, wk)
                if i.get_id() not in grayed: grayed[i.get_id()] = i
                grayfacts(i)
                return i
            grayed = {}
            out.append(('word in range', lambda s2, jj, cur=cur: And(cur(s2) != 0, z3.ULE(cur(s2), P))))
            for key, isobj in cells(cut, st, th):
                def nd(s2, key=key, th=th):
                    c = treecell(cut, s2, cut.get(s2, key), th)
                    if c is None: raise loops.Skip()
                    return cut.eng.to_node(s2, c[0], th.et, False), c[1]
                out += [('tree well formed', lambda s2, jj, nd=nd: (lambda r: Or(r == th.nil, th.WF(r, IntVal(0))))(nd(s2)[0])),
                        ('tree count', lambda s2, jj, nd=nd: (lambda r: r[1] == th.CNT(r[0]))(nd(s2))),
                        ('members of the current subset', lambda s2, jj, nd=nd, cur=cur: (lambda i, r: All([th.K], lambda k: th.HAS(r, k) == And(s.has(k), x.gb(i - one, k)), lambda k: [th.HAS(r, k), s.has(k)]))(cur(s2), nd(s2)[0])),
                        ('stored elements', lambda s2, jj, nd=nd: (lambda r: All([th.K], lambda k: mkimp(th.HAS(r, k), th.VAL(r, k) == s.val(k)), lambda k: [th.HAS(r, k)]))(nd(s2)[0]))]
            for key, isobj in cells(cut, st, th2):
                def nd2(s2, key=key):
                    c = treecell(cut, s2, cut.get(s2, key), th2)
                    if c is None: raise loops.Skip()
                    return cut.eng.to_node(s2, c[0], th2.et, False), c[1]
                def contents(s2, jj, nd=nd2, cur=cur):
                    i, r = cur(s2), nd(s2)[0]
                    x.gray(z3.simplify(i - one))
                    return All([th2.K], lambda c: th2.HAS(r, c) == And(z3.ULT(IX(c), i), SC(IX(c)) == c), lambda c: [th2.HAS(r, c)])
                out += [('powerset well formed', lambda s2, jj, nd=nd2: (lambda r: Or(r == th2.nil, th2.WF(r, IntVal(0))))(nd(s2)[0])),
                        ('powerset count', lambda s2, jj, nd=nd2: (lambda r: r[1] == th2.CNT(r[0]))(nd(s2))),
                        ('~the subsets numbered so far', contents),
                        ('~one for each number', lambda s2, jj, nd=nd2, cur=cur: x.BVOF(th2.CNT(nd(s2)[0])) == cur(s2)),
                        ('all of them subsets', lambda s2, jj, nd=nd2: sub_all(x, nd(s2)[0]))]
        return out
    return [t]


def sub_all(x, r):
    s, th, th2 = x.view(0), x.view(0).th, x.th2
    def f(c, k):
        root, cnt = setparts(x.eng, s.et, th2.VAL(r, c))
        return mkimp(And(th2.HAS(r, c), th.HAS(root, k)), s.has(k))
    return All([th2.K, th.K], f, lambda c, k: [(th2.HAS(r, c), th.HAS(setparts(x.eng, s.et, th2.VAL(r, c))[0], k))])


@spec('Powerset', setup=power_setup, templates=power_t, calls=('Set.Elements', 'Set.With', 'Set.Without', 'NewSet'),
      panics=lambda x: [('there are more than 63 elements', x.view(0).CNT > 63)])
def _(x):
    s, r, th2 = x.view(0), x.res(), x.th2
    yield 'every subset is an element', 'view', r.has(th2.cls(setbox(x.eng, s.et, x.t, s.th.CNT(x.t))))
    yield 'every element is a subset', 'view', sub_all(x, r.root)
    yield 'there are 2^n', 'count', x.BVOF(r.CNT) == x.P


# ---------------------------------------------------------------- SetGroupBy (C12)
BUILDERS = tuple('SetBuilder.' + m for m in ('Add', 'Finish')) + tuple('MapBuilder.' + m for m in ('Put', 'Get', 'Finish'))


def group_setup(x):
    eng = x.eng
    s = x.view(0)
    kt = x.ptypes[1]['r']['e'][0]
    x.kf = lambda e: eng.box(kt, x.call(1, e))
    x.kc = lambda e: eng.theory(kt).cls(x.kf(e))
    x.el = elems(x, 0)
    thR = eng.theory(tree_elem(eng, x.rtypes[0]))
    # the sequence of the keys of the elements, in iteration order
    x.sq = Seq(x, thR, lambda i, k: x.kc(x.el(i)) == k, x.el, name='keys')
    x.sq.stepkey, x.sq.cond, x.sq.src = (lambda i: x.kc(x.el(i))), None, x.el
    x.grp = lambda c, k: And(s.has(c), x.kc(s.val(c)) == k)


def group_t(x):
    eng, s = x.eng, x.view(0)
    th = s.th
    if getattr(x, 'atcall', False): return []
    kt, et = x.ptypes[1]['r']['e'][0], s.et
    SBT = {'k': 'named', 'n': 'frozen.SetBuilder', 'a': [et]}
    thR = x.sq.th
    thB = eng.theory(entry_t(kt, {'k': 'ptr', 'e': SBT}))
    H = eng.refheap(SBT)
    K = thR.K
    seqB = Seq(x, thB, x.sq.mem, x.el, name='keysB')
    seqB.IN, seqB.LAST = x.sq.IN, x.sq.LAST
    seqB.stepkey, seqB.cond, seqB.src = x.sq.stepkey, None, x.el
    x.fbs = []
    ref = lambda r, k: thB.entry_val(thB.VAL(r, k))
    def slots(get, root, live, upto, key=('obj', H)):
        """the builders referred to by the entries of root at the keys that are live hold exactly the elements so far"""
        def heap(s2): return get(s2).f
        out = []
        HB = thB.HAS
        g = lambda s2, jj, k: And(HB(root(s2), k), live(s2, jj, k))
        at = lambda s2, i, k: Select(heap(s2)[i], ref(root(s2), k))
        out += [('referred builders are allocated', lambda s2, jj: All([K], lambda k: mkimp(HB(root(s2), k), at(s2, 2, k)), lambda k: [HB(root(s2), k)])),
                ('no two entries refer to the same builder', lambda s2, jj: All([K, K], lambda k, l: mkimp(And(HB(root(s2), k), HB(root(s2), l), ref(root(s2), k) == ref(root(s2), l)), k == l), lambda k, l: [(HB(root(s2), k), HB(root(s2), l))])),
                ('builder well formed', lambda s2, jj: All([K], lambda k: mkimp(g(s2, jj, k), Or(at(s2, 0, k) == th.nil, th.WF(at(s2, 0, k), IntVal(0)))), lambda k: [HB(root(s2), k)])),
                ('builder count', lambda s2, jj: All([K], lambda k: mkimp(g(s2, jj, k), at(s2, 1, k) == th.CNT(at(s2, 0, k))), lambda k: [HB(root(s2), k)])),
                ('builder owns its nodes', lambda s2, jj: All([K], lambda k: mkimp(g(s2, jj, k), th.OWN(at(s2, 0, k))), lambda k: [HB(root(s2), k)])),
                ('builder has exactly the elements so far with its key', lambda s2, jj: All([K, th.K], lambda k, c: mkimp(g(s2, jj, k), th.HAS(at(s2, 0, k), c) == And(x.grp(c, k), th.epos(s.root, c) < upto(jj))), lambda k, c: [(HB(root(s2), k), th.HAS(at(s2, 0, k), c)), (HB(root(s2), k), s.has(c))])),
                ('builder has the stored elements', lambda s2, jj: All([K, th.K], lambda k, c: mkimp(And(g(s2, jj, k), th.HAS(at(s2, 0, k), c)), th.VAL(at(s2, 0, k), c) == s.val(c)), lambda k, c: [(HB(root(s2), k), th.HAS(at(s2, 0, k), c))]))]
        return out
    bt = build_templates(x, [seqB])
    def t(cut, st, unchanged, ints, sls):
        out = []
        if ('obj', H) not in cut.changed: return out
        hget = lambda s2: cut.get(s2, ('obj', H))
        bs = list(cells(cut, st, thB))
        for key, isobj in bs:
            def root(s2, key=key):
                c = treecell(cut, s2, cut.get(s2, key), thB)
                if c is None: raise loops.Skip()
                return cut.eng.to_node(s2, c[0], thB.et, False)
            out += slots(hget, root, lambda s2, jj, k: TRUE, lambda jj: jj)
        if bs: return out
        its = [k for k in cut.changed if k[0] == 'obj' and k[1].typ.get('k') == 'iter' and k[1].iter_of[0] is thB]
        for key in its:
            fb = key[1].iter_of[1]
            thB.use_seq()
            root = lambda s2, fb=fb: fb
            out += slots(hget, root, lambda s2, jj, k, fb=fb: thB.epos(fb, k) >= jj, lambda jj: s.CNT)
            for rk, isobj in cells(cut, st, thR):
                def res(s2, rk=rk):
                    c = treecell(cut, s2, cut.get(s2, rk), thR)
                    if c is None: raise loops.Skip()
                    return cut.eng.to_node(s2, c[0], thR.et, False), c[1]
                def keys(s2, jj, res=res, fb=fb):
                    r = res(s2)[0]
                    return All([K], lambda k: thR.HAS(r, k) == And(thB.HAS(fb, k), thB.epos(fb, k) < jj), lambda k: [thR.HAS(r, k), thB.HAS(fb, k)])
                out += [('tree well formed', lambda s2, jj, res=res: (lambda r: Or(r == thR.nil, thR.WF(r, IntVal(0))))(res(s2)[0])),
                        ('tree count', lambda s2, jj, res=res: (lambda r: r[1] == thR.CNT(r[0]))(res(s2))),
                        ('tree owned', lambda s2, jj, res=res: thR.OWN(res(s2)[0])),
                        ('groups of the entries so far', keys)]
                for nm, f in groups(x, thR):
                    out.append((nm, lambda s2, jj, res=res, f=f: f(res(s2)[0])))
        return out
    return [iter_template, bt, t]


def entry_t(k, v): return {'k': 'named', 'n': 'frozen.mapEntry', 'a': [k, v]}


def groups(x, thR):
    """the sets stored in a map of groups"""
    s = x.view(0)
    th = s.th
    part = lambda r, k: setparts(x.eng, s.et, thR.entry_val(thR.VAL(r, k)))
    rt = lambda r, k: part(r, k)[0]
    return [('every group is well formed', lambda r: All([thR.K], lambda k: mkimp(thR.HAS(r, k), Or(rt(r, k) == th.nil, th.WF(rt(r, k), IntVal(0)))), lambda k: [thR.HAS(r, k)])),
            ('every group has its number of elements as count', lambda r: All([thR.K], lambda k: mkimp(thR.HAS(r, k), part(r, k)[1] == th.CNT(rt(r, k))), lambda k: [thR.HAS(r, k)])),
            ('every group has exactly the elements with its key', lambda r: All([thR.K, th.K], lambda k, c: mkimp(thR.HAS(r, k), th.HAS(rt(r, k), c) == x.grp(c, k)), lambda k, c: [(thR.HAS(r, k), th.HAS(rt(r, k), c)), (thR.HAS(r, k), s.has(c))])),
            ('every group has the stored elements', lambda r: All([thR.K, th.K], lambda k, c: mkimp(And(thR.HAS(r, k), th.HAS(rt(r, k), c)), th.VAL(rt(r, k), c) == s.val(c)), lambda k, c: [(thR.HAS(r, k), th.HAS(rt(r, k), c))]))]


@spec('SetGroupBy', setup=group_setup, templates=group_t, calls=BUILDERS, opts={'refheap': ('frozen.SetBuilder[T]',)})
def _(x):
    s, r = x.view(0), x.res()
    N = s.CNT
    yield 'every key that occurs has a group', 'view', All([s.th.K], lambda c: mkimp(s.has(c), r.has(x.kc(s.val(c)))), lambda c: [s.has(c)])
    yield 'only keys that occur', 'view', vals(r, lambda k: And(0 <= x.sq.LAST(N, k), x.sq.LAST(N, k) < N, s.has(s.th.cls(x.el(x.sq.LAST(N, k)))), x.kc(x.el(x.sq.LAST(N, k))) == k))
    for nm, f in groups(x, r.th): yield nm, 'view' if 'count' not in nm and 'formed' not in nm else 'count', f(r.root)
