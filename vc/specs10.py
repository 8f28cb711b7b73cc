"""Relations (C20, C21): sets of tuples, a tuple being a map from attribute names to values."""
from specs9 import *
import lift

STR = {'k': 'basic', 'n': 'string'}


class Tup:
    """contents of tuples as functions of their equality class.  TK(c,a): tuples of class c have attribute a; TV(c,a):
    class of its value.  That they are functions of the class, and determine it, is the extensionality of Map.Equal
    (C28) together with the lawfulness of Equal."""
    def __init__(s, eng, rt):
        s.eng = eng
        s.tt = tree_elem(eng, rt)                    # tuple type
        s.th = eng.theory(s.tt)                      # relation of tuples
        s.et = tree_elem(eng, s.tt)                  # entries of a tuple
        s.thm = eng.theory(s.et)
        s.kt, s.vt = s.et['a']
        s.kth, s.vth = eng.theory(s.kt), eng.theory(s.vt)
        s.Z = eng.boxsort(s.tt)
        K, A = s.th.K, s.thm.K
        s.K, s.A = K, A
        s.TK = Function('TK', K, A, B)
        s.TV = Function('TV', K, A, s.vth.K)
        s.DIFF = Function('TDIFF', K, K, A)
        e = s.th.cls
        ax = eng.axiom
        HAS = s.thm.HAS
        def content(z, root, cnt, k): return mkimp(s.okp(root, cnt), And(s.TK(e(z), k) == HAS(root, k), mkimp(HAS(root, k), s.TV(e(z), k) == s.vcls(root, k))))
        N = s.thm.Node
        ax(All([N, I, A], lambda r, c, k: content(s.mk(r, c), r, c, k), lambda r, c, k: [s.TK(e(s.mk(r, c)), k), s.TV(e(s.mk(r, c)), k), (e(s.mk(r, c)), HAS(r, k))]))
        def acc(z, k):
            r, c = s.parts(z)
            return content(z, r, c, k)
        ax(All([s.Z, A], acc, lambda z, k: [s.TK(e(z), k), s.TV(e(z), k), (e(z), HAS(s.parts(z)[0], k))]))
        # every tuple in a relation is well formed (invariant of the type, an obligation wherever one is stored)
        ax(All([s.th.Node, K], lambda n, k: mkimp(s.th.HAS(n, k), s.okz(s.th.VAL(n, k))), lambda n, k: [s.th.VAL(n, k)]))
        s.th.use_seq()
        ax(All([s.th.Node, I], lambda n, i: mkimp(And(0 <= i, i < s.th.CNT(n)), s.okz(s.th.elem(n, i))), lambda n, i: [s.th.elem(n, i)]))
    def mk(s, root, count):
        d, _ = s.eng.structbox(s.tt)
        inner = d.accessor(0, 0).range()
        return d.constructor(0)(inner.constructor(0)(root, count)) if inner.kind() == z3.Z3_DATATYPE_SORT else d.constructor(0)(root, count)
    def parts(s, z):
        v = s.eng.unbox(s.tt, z)
        while len(v.f) == 1: v = v.f[0]
        return v.f
    def okp(s, root, count): return And(Or(root == s.thm.nil, s.thm.WF(root, IntVal(0))), count == s.thm.CNT(root))
    def okz(s, z): return s.okp(*s.parts(z))
    def vcls(s, root, k): return s.vth.cls(s.thm.entry_val(s.thm.VAL(root, k)))
    def same(s, a, b):
        """a and b are the same class unless they differ at DIFF(a, b)"""
        d = s.DIFF(a, b)
        return Or(a == b, s.TK(a, d) != s.TK(b, d), And(s.TK(a, d), s.TV(a, d) != s.TV(b, d)))
    def canonical0(s, c):
        s.eng.axiom(All([s.A], lambda k: Not(s.TK(c, k)), lambda k: [s.TK(c, k)]))
        s.eng.axiom(All([s.Z], lambda z: s.same(s.th.cls(z), c), lambda z: [s.th.cls(z)]))
    def canonical(s, sorts, f, has, val, ext=True):
        """f(xs) is the class of the tuples with exactly the attributes has(xs,.) with values of class val(xs,.)"""
        ax = s.eng.axiom
        ax(All(sorts + [s.A], lambda *a: And(s.TK(f(*a[:-1]), a[-1]) == has(*a), mkimp(has(*a), s.TV(f(*a[:-1]), a[-1]) == val(*a))), lambda *a: [s.TK(f(*a[:-1]), a[-1]), s.TV(f(*a[:-1]), a[-1])]))
        if ext: ax(All(sorts + [s.Z], lambda *a: s.same(s.th.cls(a[-1]), f(*a[:-1])), lambda *a: [(s.th.cls(a[-1]), f(*a[:-1]))]))


def get_tup(eng, rt):
    if not eng.__dict__.get('_tup'): eng._tup = Tup(eng, rt)
    return eng._tup


def defex(eng, name, ps, es, body, pats):
    """(P, W): P(xs) <=> exists ys. body(xs, ys), with W_i(xs) the witnesses.  pats: for the introduction
    of P(xs) from body(xs, ys); a pattern need not mention xs when body determines them: then give trig"""
    n = eng.fresh_n()
    P = Function('%s!%d' % (name, n), *ps, B)
    W = [Function('%s_w%d!%d' % (name, i, n), *ps, e) for i, e in enumerate(es)]
    k = len(ps)
    a1 = eng.axiom(All(ps, lambda *a: mkimp(P(*a), body(*a, *[w(*a) for w in W])), lambda *a: [P(*a)]))
    a2 = eng.axiom(All(ps + es, lambda *a: mkimp(body(*a), P(*a[:k])), lambda *a: [tuple([P(*a[:k])] + list(p if isinstance(p, tuple) else (p,))) for p in pats(*a)]))
    return P, [a1, a2]


def rspec(name, **kw): return spec('rel.' + name, key='rel.' + name, **kw)


# ---------------------------------------------------------------- rel.New
def new_setup(x):
    eng = x.eng
    x.tup = tup = get_tup(eng, x.rtypes[0])
    het, ha, hn = slice_src(x, 0)
    ret, ra, rn = slice_src(x, 1)
    x.hn, x.ha, x.rn = hn, ha, rn
    x.hk = lambda i: tup.kth.cls(Select(ha, i))
    x.hs = Seq(x, tup.thm, lambda i, k: x.hk(i) == k, lambda i: Select(ha, i), name='header')
    x.hs.stepkey, x.hs.cond, x.hs.src = x.hk, None, lambda i: Select(ha, i)
    x.row = lambda i: eng.slparts(ret, Select(ra, i))
    x.RC = RC = Function('RC', I, tup.K)
    tup.canonical([I], RC, lambda i, k: x.hs.IN(hn, k), lambda i, k: tup.vth.cls(Select(x.row(i)[0], x.hs.LAST(hn, k))))
    x.rs = Seq(x, tup.th, lambda i, k: RC(i) == k, lambda i: Select(ra, i), name='rows')
    x.rs.stepkey, x.rs.cond, x.rs.src = RC, None, lambda i: Select(ra, i)
    # MIS: some row has the wrong length
    x.MIS = eng.fresh('MIS', B)
    w = eng.fresh('w', I)
    bad = lambda i: And(0 <= i, i < rn, x.row(i)[1] != hn)
    eng.fact(mkimp(x.MIS, bad(w)))
    eng.fact(All([I], lambda i: mkimp(bad(i), x.MIS), lambda i: [x.row(i)[1]]))


def new_t(x):
    if getattr(x, 'atcall', False): return []
    tup = x.tup
    AnyArr = z3.ArraySort(I, x.eng.boxsort(tup.vt))
    inner = build_templates(x, [x.hs])
    outer = build_templates(x, [x.rs])
    def t(cut, st, unchanged, ints, sls):
        out = inner(cut, st, unchanged, ints, sls) + outer(cut, st, unchanged, ints, sls)
        thm = tup.thm
        for key, isobj in cells(cut, st, tup.th):
            def lens(s2, jj):
                if not (z3.is_int_value(jj) or z3.is_const(jj)):
                    p = simp(jj - 1)
                    x.eng.fact(Or(x.RC(p) == x.RC(IntVal(0)), x.RC(p) != x.RC(IntVal(0))))
                return All([I], lambda i: mkimp(And(0 <= i, i < jj), x.row(i)[1] == x.hn), lambda i: [x.row(i)[1]])
            out.append(('rows so far have the right length', lens))
        for key, isobj in cells(cut, st, thm):
            for lbl, a, n in unchanged:
                if a.sort() != AnyArr: continue
                def f(s2, jj, key=key, a=a):
                    c = treecell(cut, s2, cut.get(s2, key), thm)
                    if c is None: raise loops.Skip()
                    r = cut.eng.to_node(s2, c[0], thm.et, False)
                    x.hs.at(jj)
                    return All([thm.K], lambda k: mkimp(thm.HAS(r, k), thm.entry_val(thm.VAL(r, k)) == Select(a, x.hs.LAST(jj, k))), lambda k: [thm.VAL(r, k)])
                out.append(('values are those of the row', f))
        return out
    return [t]


@rspec('New', setup=new_setup, templates=new_t, calls=('NewMap', 'Map.With', 'Set.With'), panics=lambda x: [('a row has not the size of the header', x.MIS)])
def _(x):
    r, tup = x.res(), x.tup
    yield 'every row is a tuple of the relation', 'view', All([I], lambda i: mkimp(And(0 <= i, i < x.rn, x.row(i)[1] >= 0), r.has(x.RC(i))), lambda i: [x.RC(i), x.row(i)[1]])
    yield 'every tuple is a row', 'view', vals(r, lambda k: And(0 <= x.rs.LAST(x.rn, k), x.rs.LAST(x.rn, k) < x.rn, x.RC(x.rs.LAST(x.rn, k)) == k))


# ---------------------------------------------------------------- rel.Project
def proj_setup(x):
    eng = x.eng
    x.tup = tup = get_tup(eng, x.rtypes[0])
    at, aa, an = slice_src(x, 1)
    x.aa, x.an = aa, an
    if True:
        # INA(a): a is one of the attributes
        n = eng.fresh_n()
        x.INA = INA = Function('INA!%d' % n, tup.A, B)
        W = Function('INAw!%d' % n, tup.A, I)
        ak = lambda i: tup.kth.cls(Select(aa, i))
        eng.axiom(All([tup.A], lambda a: mkimp(INA(a), And(0 <= W(a), W(a) < an, ak(W(a)) == a)), lambda a: [INA(a)]))
        eng.axiom(All([I], lambda i: mkimp(And(0 <= i, i < an), INA(ak(i))), lambda i: [Select(aa, i)]))
        x.PJ = PJ = Function('PJ!%d' % n, tup.K, tup.K)
        tup.canonical([tup.K], PJ, lambda t, a: And(tup.TK(t, a), INA(a)), lambda t, a: tup.TV(t, a))


def proj_t(x):
    """for a loop over the relation that builds the result: its tuples so far, restricted"""
    if getattr(x, 'atcall', False): return []
    tup = x.tup
    th, memo = tup.th, {}
    def t(cut, st, unchanged, ints, sls):
        out = []
        for key in cut.changed:
            if not (key[0] == 'obj' and key[1].typ.get('k') == 'iter' and key[1].iter_of[0] is th): continue
            n = key[1].iter_of[1]
            th.use_seq()
            if n.get_id() not in memo:
                sq = Seq(x, th, lambda i, u: x.PJ(th.cls(th.elem(n, i))) == u, lambda i: th.elem(n, i), name='rows')
                sq.stepkey, sq.cond, sq.src = (lambda i: x.PJ(th.cls(th.elem(n, i)))), None, lambda i: th.elem(n, i)
                memo[n.get_id()] = (sq, n)
            out += build_templates(x, [memo[n.get_id()][0]], single=False)(cut, st, unchanged, ints, sls)
        return out
    return [iter_template, t]


@rspec('Project', setup=proj_setup, templates=proj_t, calls=('SetMap', 'Map.Project'))
def _(x):
    s, r, tup = x.view(0), x.res(), x.tup
    IMG, _ = defex(x.eng, 'IMG', [tup.K], [tup.K], lambda k, c: And(s.has(c), x.PJ(c) == k), lambda k, c: [s.has(c)])
    yield 'exactly the restricted tuples', 'view', same_members(x, r, lambda k: IMG(k))


# ---------------------------------------------------------------- Cartesian product
class Product:
    """CP(A,i,n,t,u): u is t updated with one tuple of each of the relations A[i..n-1] in turn"""
    def __init__(s, x, rt):
        eng = s.eng = x.eng
        s.tup = tup = getattr(x, 'tup', None) or get_tup(eng, rt)
        x.tup = tup
        s.rt, s.ax = rt, []
        s.arr = eng.theory_arr(rt).Arr
        K = tup.K
        s.CP = Function('CP', s.arr, I, I, K, K, B)
        s.W = Function('CPw', s.arr, I, I, K, K, K)
        s.UPD = get_upd(eng, tup)
    def root(s, z):
        v = s.eng.unbox(s.rt, z)
        while len(v.f) == 1: v = v.f[0]
        return v.f[0]
    def rhas(s, A, i, k): return s.tup.th.HAS(s.root(Select(A, i)), k)
    def unfold(s, A, i, n):
        eng, K, CP, UPD = s.eng, s.tup.K, s.CP, s.UPD
        j = simp(i + 1)
        s.ax.append(eng.axiom(All([K, K], lambda t, u: mkimp(i >= n, CP(A, i, n, t, u) == (t == u)), lambda t, u: [CP(A, i, n, t, u)])))
        s.ax.append(eng.axiom(All([K, K], lambda t, u: mkimp(And(i < n, CP(A, i, n, t, u)), (lambda r: And(s.rhas(A, i, r), CP(A, j, n, UPD(t, r), u)))(s.W(A, i, n, t, u))), lambda t, u: [CP(A, i, n, t, u)])))
        s.ax.append(eng.axiom(All([K, K, K], lambda t, r, u: mkimp(And(i < n, s.rhas(A, i, r), CP(A, j, n, UPD(t, r), u)), CP(A, i, n, t, u)),
                      lambda t, r, u: [(s.rhas(A, i, r), CP(A, j, n, UPD(t, r), u)), (s.rhas(A, i, r), CP(A, i, n, t, u))])))


def relslice(x, i):
    """(array, from, to) of the relations in a slice argument; they satisfy the invariant of their type"""
    eng, sl = x.eng, x.args[i]
    rt = x.ptypes[i]['e']
    th = eng.theory(tree_elem(eng, rt))
    c = eng.content(x.st0, sl.back) if sl.back is not None else None
    if isinstance(c, z3.ExprRef): A, o = c, sl.off
    else: A, o = eng.slice_arr(x.st0, sl, rt)[0], IntVal(0)
    def part(j):
        v = eng.unbox(rt, Select(A, j))
        while len(v.f) == 1: v = v.f[0]
        return v.f
    eng.fact(All([I], lambda j: mkimp(And(o <= j, j < o + sl.len), (lambda f: And(Or(f[0] == th.nil, th.WF(f[0], IntVal(0))), f[1] == th.CNT(f[0])))(part(j))), lambda j: [Select(A, j)]))
    return A, o, simp(o + sl.len), part


def bcp_setup(x):
    eng = x.eng
    rt = x.ptypes[2]['e']
    if not getattr(x, 'atcall', False):
        sl = x.args[2]
        off = eng.fresh('off', I)
        eng.fact(off >= 0)
        x.args[2] = SL(sl.back, off, sl.len, sl.cap, sl.nil)
    x.prod = p = Product(x, rt)
    A, o, n, part = relslice(x, 2)
    x.A, x.o, x.n, x.part = A, o, n, part
    x.tc = p.tup.th.cls(eng.box(x.ptypes[1], x.args[1]))
    p.unfold(A, o, n)


def bcp_t(x):
    if getattr(x, 'atcall', False): return []
    p, tup = x.prod, x.prod.tup
    th = tup.th
    th.use_seq()
    A, o, n = x.A, x.o, x.n
    rows = x.part(o)[0]
    b = x.view(0)
    sq = Seq(x, th, lambda i, u: p.CP(A, simp(o + 1), n, p.UPD(x.tc, th.cls(th.elem(rows, i))), u), lambda i: th.elem(rows, i), name='products')
    return [iter_template, build_templates(x, [sq], member=lambda q: lambda k, jj: Or(b.has(k), sq.IN(jj, k)))]


@rspec('buildCartesianProduct', setup=bcp_setup, templates=bcp_t, calls=('rel.buildCartesianProduct', 'Map.Update', 'SetBuilder.Add'), measure=lambda x: x.args[2].len)
def _(x):
    b, a = x.view(0), x.after(0)
    yield 'the builder has, in addition, exactly the products', 'view', same_members(x, a, lambda k: Or(b.has(k), x.prod.CP(x.A, x.o, x.n, x.tc, k)), extra=[b])


def empty_tuple(x):
    """class of the tuple without attributes"""
    tup = x.tup
    E = Const('EMPTYT', tup.K)
    if not x.eng.__dict__.get('_emptyt'):
        x.eng._emptyt = True
        tup.canonical0(E)
    return E


def cp_setup(x):
    eng = x.eng
    rt = x.ptypes[0]['e']
    x.prod = p = Product(x, rt)
    x.A, x.o, x.n, x.part = relslice(x, 0)
    k = conc(simp(x.n - x.o))
    for i in range((k if k is not None and k <= 4 else -1) + 1): p.unfold(x.A, simp(x.o + i), x.n)


@rspec('CartesianProduct', setup=cp_setup, calls=('rel.buildCartesianProduct', 'SetBuilder.Finish'))
def _(x):
    yield 'exactly all the combinations', 'view', same_members(x, x.res(), lambda k: x.prod.CP(x.A, x.o, x.n, empty_tuple(x), k))


# ---------------------------------------------------------------- join
def get_upd(eng, tup, ext=True):
    UPD = Function('UPD', tup.K, tup.K, tup.K)
    if not eng.__dict__.get('_upd'):
        eng._upd = True
        tup.canonical([tup.K, tup.K], UPD, lambda a, b, k: Or(tup.TK(a, k), tup.TK(b, k)), lambda a, b, k: If(tup.TK(b, k), tup.TV(b, k), tup.TV(a, k)), ext)
    return UPD


class Agree:
    """AGREE(a,b): the tuples a and b agree on their common attributes"""
    def __init__(s, eng, tup):
        K, A = tup.K, tup.A
        s.P = Function('AGREE', K, K, B)
        s.W = Function('AGREEw', K, K, A)
        TK, TV = tup.TK, tup.TV
        body = lambda a, b, k: mkimp(And(TK(a, k), TK(b, k)), TV(a, k) == TV(b, k))
        eng.axiom(All([K, K, A], lambda a, b, k: mkimp(s.P(a, b), body(a, b, k)), lambda a, b, k: [(s.P(a, b), TK(a, k)), (s.P(a, b), TV(a, k))]))
        eng.axiom(All([K, K], lambda a, b: Or(s.P(a, b), Not(body(a, b, s.W(a, b)))), lambda a, b: [s.P(a, b)]))


def get_agree(eng, tup):
    if not eng.__dict__.get('_agree'): eng._agree = Agree(eng, tup)
    return eng._agree.P


class Heading:
    """the attributes of the tuples of a relation, given that all have the same"""
    def __init__(s, tup, root):
        s.tup, s.c = tup, tup.th.somek(root)
        s.root = root
    def __call__(s, k): return And(s.tup.th.HAS(s.root, s.c), s.tup.TK(s.c, k))
    def uniform(s): return All([s.tup.K, s.tup.A], lambda c, k: mkimp(s.tup.th.HAS(s.root, c), s.tup.TK(c, k) == s(k)), lambda c, k: [(s.tup.th.HAS(s.root, c), s.tup.TK(c, k))])


def operands(x):
    if isinstance(x, dict):
        if 'k' in x and x['k'] == 'global': yield x
        for v in x.values(): yield from operands(v)
    elif isinstance(x, list):
        for v in x: yield from operands(v)


def relglobals(prog):
    """package variables of rel holding a relation -> functions other than the initialiser that do more than load it"""
    out = {}
    for name, fn in prog.fns.items():
        for b in fn['blocks']:
            for i in b['i']:
                for g in operands(i):
                    if not g['n'].startswith('rel.'): continue
                    t = g['t']['e']
                    if not (named(t, 'frozen.Set') and named(t['a'][0], 'frozen.Map')): continue
                    w = out.setdefault(g['n'], set())
                    if not (i['op'] == 'UnOp' and i.get('o') == '*') and name != 'rel.init': w.add(name)
    return out


def trueset(eng, tup, st):
    """the global trueSet holds exactly the tuple without attributes (unit rel.init; nothing else stores to it)"""
    g = eng.opts.setdefault('globals', {})
    for name in relglobals(eng.prog):
        if name in g: continue
        rt = {'k': 'named', 'n': 'frozen.Set', 'a': [tup.tt]}
        o = Obj(rt, name, fresh=False)
        facts = []
        o.init = mkarg(eng, st, rt, name, facts)
        for f in facts: eng.fact(f)
        g[name] = o
        E = empty_tuple(types(eng, tup))
        v = TV(eng, st, o.init, tup.tt)
        eng.fact(All([tup.K], lambda k: v.has(k) == (k == E), lambda k: [v.has(k)]))


class types:
    def __init__(s, eng, tup): s.eng, s.tup = eng, tup


def join_setup(x):
    eng = x.eng
    x.tup = tup = get_tup(eng, x.rtypes[0])
    K, A = tup.K, tup.A
    s, t = x.view(0), x.view(1)
    x.UPD, x.AGREE = get_upd(eng, tup, False), get_agree(eng, tup)
    x.HS, x.HT = Heading(tup, s.root), Heading(tup, t.root)
    x.JN, jnax = defex(eng, 'JN', [K], [K, K], lambda u, a, b: And(s.has(a), t.has(b), x.AGREE(a, b), u == x.UPD(a, b)), lambda u, a, b: [(s.has(a), t.has(b)), (s.has(a), t.has(b), x.UPD(a, b))])
    if getattr(x, 'atcall', False): return
    for f in (x.HS.uniform(), x.HT.uniform()): eng.fact(f)
    trueset(eng, tup, x.st0)
    E = empty_tuple(x)
    UPD, TK, TV, same = x.UPD, tup.TK, tup.TV, tup.same
    ax = eng.axiom
    n = eng.fresh_n()
    PJ = x.PJ = Function('PJ!%d' % n, K, K)
    eng._pj = PJ
    COM = Function('COM!%d' % n, A, B)
    com = x.com = lambda k: COM(k)
    ax(All([A], lambda k: COM(k) == And(x.HS(k), x.HT(k)), lambda k: [COM(k)]))
    ax(All([A, K], lambda k, c: And(mkimp(s.has(c), TK(c, k) == x.HS(k)), mkimp(t.has(c), TK(c, k) == x.HT(k))), lambda k, c: [(COM(k), s.has(c)), (COM(k), t.has(c))]))
    eng._com = com
    tup.canonical([K], PJ, lambda c, k: And(TK(c, k), com(k)), lambda c, k: TV(c, k), False)
    # extensionality for the terms of the lemmas
    start = len(eng.facts)
    ax(All([K], lambda a: And(same(a, UPD(E, a)), same(a, UPD(a, E))), lambda a: [s.has(a), t.has(a)]))
    ax(All([K, A], lambda c, k: And(TK(PJ(c), k) == And(TK(c, k), com(k)), mkimp(TK(PJ(c), k), TV(PJ(c), k) == TV(c, k))), lambda c, k: [(PJ(c), TV(c, k))]))
    ax(All([K, K], lambda a, b: same(PJ(a), PJ(b)), lambda a, b: [(PJ(a), PJ(b))]))
    ax(All([K, K], lambda a, b: same(UPD(UPD(E, a), b), UPD(a, b)), lambda a, b: [UPD(UPD(E, a), b)]))
    end = len(eng.facts)
    def lemma(nm, f): eng.oblige(nm, 'view', TRUE, f, None, False); return f
    ls = [lemma('updating the empty tuple changes nothing', All([K], lambda a: mkimp(Or(s.has(a), t.has(a)), And(UPD(E, a) == a, UPD(a, E) == a, x.AGREE(E, a), x.AGREE(a, E))), lambda a: [s.has(a), t.has(a)])),
          lemma('tuples agree exactly when their projections are equal', All([K, K], lambda a, b: mkimp(And(s.has(a), t.has(b)), x.AGREE(a, b) == (PJ(a) == PJ(b))), lambda a, b: [(s.has(a), t.has(b))])),
          lemma('tuples that do not agree differ at a common attribute', All([K, K], lambda a, b: mkimp(And(s.has(a), t.has(b), Not(x.AGREE(a, b))), COM(eng._agree.W(a, b))), lambda a, b: [x.AGREE(a, b)])),
          lemma('updating the empty tuple twice', All([K, K], lambda a, b: UPD(UPD(E, a), b) == UPD(a, b), lambda a, b: [UPD(UPD(E, a), b), (s.has(a), UPD(a, b))]))]
    ids = {f.get_id() for f in eng.facts[start:end]}
    eng.hide(start, lambda f: f.get_id() in ids, TRUE)
    ls = [eng.axiom(f) for f in ls]
    eng._ls = ls
    eng._s, eng._t = s, t
    x.PAIR, eng._pairax = defex(eng, 'PAIR', [K, K], [K, K], lambda g, u, a, b: And(s.has(a), t.has(b), PJ(a) == g, PJ(b) == g, u == UPD(a, b)), lambda g, u, a, b: [(s.has(a), t.has(b), UPD(a, b))])
    eng._pair, eng._jn, eng._jnax, eng._hh = x.PAIR, x.JN, jnax, (x.HS, x.HT)
    eng._mark = eng.fresh_n(), len(eng.facts)


class CommonElements(SpecContract):
    """the specification of Elements, with the lemma that the list of the attributes is COM"""
    def call(s, eng, st, args, targs, pos, fr):
        r = super().call(eng, st, args, targs, pos, fr)
        tup, com = eng._tup, eng._com
        a, n = eng.slice_arr(st, r, targs[0])
        v = TV(eng, st, args[0], targs[0])
        c = tup.kth.cls
        eng.oblige('the common attributes', 'view', st.guard, All([tup.A], lambda k: com(k) == v.has(k), lambda k: [com(k), v.has(k)]), pos)
        w = Function('COMw!%d' % eng.fresh_n(), tup.A, I)
        pos_ = eng.theory(targs[0]).epos(v.root, Const('k', tup.A))
        fs = [All([I], lambda i: mkimp(And(0 <= i, i < n), com(c(Select(a, i)))), lambda i: [Select(a, i)]),
              All([tup.A], lambda k: mkimp(com(k), (lambda p: And(0 <= p, p < n, c(Select(a, p)) == k))(v.th.epos(v.root, k))), lambda k: [com(k)]),
              And(eng._s.has(eng._s.th.somek(eng._s.root)), eng._t.has(eng._t.th.somek(eng._t.root))), n >= 0]
        for nm, f in zip(('only common attributes are listed', 'all of them are listed', 'no operand is empty', 'length'), fs):
            eng.oblige('the common attributes: ' + nm, 'view', st.guard, f, pos, False)
        n0, start = eng._mark
        eng.hide(start, lambda f: lift.mentions(f, n0, []), st.guard, fs)
        return r


class GroupByCommon(SpecContract):
    """the specification of SetGroupBy, restated for the grouping function at hand: the class of the
    key of every tuple of class c is PJ(c).  The restatement is proved at the call site"""
    def call(s, eng, st, args, targs, pos, fr):
        n0, start = eng.fresh_n(), len(eng.facts)
        r = super().call(eng, st, args, targs, pos, fr)
        tup, PJ = eng._tup, eng._pj
        th = tup.th
        fn = eng.prog.fns[s.key]
        tenv = dict(zip(fn['tp'], targs))
        rt = eng.prog.sub(fn['sig']['r']['e'][0], tenv)
        m, src = TV(eng, st, r, tree_elem(eng, rt)), TV(eng, st, args[0], tup.tt)
        thR = m.th
        grp = lambda k: setparts(eng, tup.tt, thR.entry_val(thR.VAL(m.root, k)))
        F, = eng.lifted
        part = lambda z: tup.parts(z)
        attrs = [eng.content(st, o) for o in ()]
        e = tup.th.cls
        eng.axiom(All([tup.Z], lambda z: tup.same(e(F(z)), PJ(e(z))), lambda z: [F(z)]))
        for nm, f in [('attributes of the projection', All([tup.Z, tup.A], lambda z, k: mkimp(tup.okz(z), tup.TK(e(F(z)), k) == And(tup.TK(e(z), k), eng._com(k))), lambda z, k: [tup.TK(e(F(z)), k)])),
                      ('values of the projection', All([tup.Z, tup.A], lambda z, k: mkimp(And(tup.okz(z), tup.TK(e(F(z)), k)), tup.TV(e(F(z)), k) == tup.TV(e(z), k)), lambda z, k: [tup.TK(e(F(z)), k), tup.TV(e(F(z)), k)])),
                      ('the key is the projection', All([tup.Z], lambda z: mkimp(tup.okz(z), e(F(z)) == PJ(e(z))), lambda z: [F(z)]))]:
            eng.oblige('grouping by the common attributes: ' + nm, 'view', st.guard, f, pos)
        fs = [All([th.K], lambda c: mkimp(src.has(c), m.has(PJ(c))), lambda c: [src.has(c)]),
              All([th.K, th.K], lambda k, c: mkimp(m.has(k), th.HAS(grp(k)[0], c) == And(src.has(c), PJ(c) == k)), lambda k, c: [(m.has(k), th.HAS(grp(k)[0], c)), (m.has(k), src.has(c))]),
              All([thR.K], lambda k: mkimp(m.has(k), And(Or(grp(k)[0] == th.nil, th.WF(grp(k)[0], IntVal(0))), grp(k)[1] == th.CNT(grp(k)[0]))), lambda k: [m.has(k)]),
              m.ok()]
        for nm, f in zip(('every tuple is in the group of its projection', 'the groups hold exactly the tuples with their projection', 'the groups are well formed', 'the map is well formed'), fs):
            eng.oblige('grouping by the common attributes: ' + nm, 'view', st.guard, f, pos, False)
        eng.hide(start, lambda f: lift.mentions(f, n0, []), st.guard, fs)
        # the keys of a map of tuples are well formed (as for the elements of a relation, above)
        thR.use_seq()
        eng.axiom(All([thR.Node, I], lambda n, i: mkimp(And(0 <= i, i < thR.CNT(n)), tup.okz(thR.entry_key(thR.elem(n, i)))), lambda n, i: [thR.elem(n, i)]))
        return r


class ProductOfAll(SpecContract):
    """the specification of CartesianProduct, restated for the operands of the join"""
    def posted(s, eng, st, x, pos):
        K, p, JN = eng._tup.K, x.prod, eng._jn
        S, Tt = eng._s, eng._t
        if conc(simp(x.n - x.o)) != 2: return
        p.ax = []
        for i in range(3): p.unfold(x.A, simp(x.o + i), x.n)
        A, o, E = x.A, x.o, Const('EMPTYT', K)
        CP = lambda u: p.CP(A, o, x.n, E, u)
        H = lambda i, c: p.rhas(A, simp(o + i), c)
        AG = get_agree(eng, eng._tup)
        def lemma(nm, f, **kw): return eng.lemma('product of the operands: ' + nm, 'view', st.guard, f, pos, **kw)
        few = ('TK', 'TV', 'IN_seq')
        h0 = lemma('the first', All([K], lambda a: H(0, a) == S.has(a), lambda a: [H(0, a), S.has(a)]), without=few)
        h1 = lemma('the second', All([K], lambda a: H(1, a) == Tt.has(a), lambda a: [H(1, a), Tt.has(a)]), without=few)
        nc = lemma('there is no common attribute', All([eng._tup.A], lambda k: Not(eng._com(k)), lambda k: [eng._com(k)]))
        h2 = lemma('they have no attribute in common, so any two tuples agree', All([K, K], lambda a, b: mkimp(And(S.has(a), Tt.has(b)), AG(a, b)), lambda a, b: [(S.has(a), Tt.has(b))]), using=[nc, eng._ls[2]])
        ln = lemma('there are two', x.n == x.o + 2, using=[])
        use = p.ax + eng._jnax + [h0, h1, h2, ln, eng._ls[3]]
        lemma('products are combinations that agree', All([K], lambda u: mkimp(CP(u), JN(u)), lambda u: [CP(u)]), using=use)
        lemma('combinations that agree are products', All([K], lambda u: mkimp(JN(u), CP(u)), lambda u: [JN(u)]), using=use)


class ProductOfGroups(SpecContract):
    """the specification of buildCartesianProduct, restated for two groups of the join: the products are PAIR(g, .)"""
    def posted(s, eng, st, x, pos):
        K, PAIR, PJ, p = eng._tup.K, eng._pair, eng._pj, x.prod
        S, Tt = eng._s, eng._t
        k = conc(simp(x.n - x.o))
        if k != 2: return
        p.ax = []
        for i in range(3): p.unfold(x.A, simp(x.o + i), x.n)
        if not eng.__dict__.get('_group'): return
        th, n, it = eng._group
        g = th.cls(th.elem(n, eng.content(st, it).f[0]))
        CP = lambda u: p.CP(x.A, x.o, x.n, x.tc, u)
        A, o, UPD, E = x.A, x.o, p.UPD, Const('EMPTYT', K)
        H = lambda i, c: p.rhas(A, simp(o + i), c)
        def lemma(nm, f, **kw): return eng.lemma('product of two groups: ' + nm, 'view', st.guard, f, pos, **kw)
        few = ('TK', 'TV', 'IN_seq')
        h0 = lemma('the first is the group of the first relation', All([K], lambda a: H(0, a) == And(S.has(a), PJ(a) == g), lambda a: [H(0, a), S.has(a)]), without=few)
        h1 = lemma('the second is the group of the second relation', All([K], lambda a: H(1, a) == And(Tt.has(a), PJ(a) == g), lambda a: [H(1, a), Tt.has(a)]), without=few)
        e = lemma('it starts with the empty tuple', x.tc == E)
        ln = lemma('there are two', x.n == x.o + 2, using=[])
        use = p.ax + eng._pairax + [h0, h1, e, ln, eng._ls[3]]
        lemma('products are pairs', All([K], lambda u: mkimp(CP(u), PAIR(g, u)), lambda u: [CP(u)]), using=use)
        lemma('pairs are products', All([K], lambda u: mkimp(PAIR(g, u), CP(u)), lambda u: [PAIR(g, u)]), using=use)


def join_t(x):
    if getattr(x, 'atcall', False): return []
    tup = x.tup
    th = tup.th
    memo = {}
    def t(cut, st, unchanged, ints, sls):
        out = []
        for key in cut.changed:
            # over the set of the common keys, or over the groups of one of the relations
            if not (key[0] == 'obj' and key[1].typ.get('k') == 'iter' and key[1].iter_of[0].K == th.K): continue
            ith, n = key[1].iter_of
            ith.use_seq()
            if n.get_id() not in memo:
                memo[n.get_id()] = (Seq(x, th, lambda i, u: x.PAIR(ith.cls(ith.elem(n, i)), u), lambda i: ith.elem(n, i), name='groups'), n)
            x.sq = memo[n.get_id()][0]
            cut.eng._group = (ith, n, key[1])
            out += build_templates(x, [x.sq], single=False)(cut, st, unchanged, ints, sls)
        return out
    return [iter_template, t]


@rspec('join', setup=join_setup, templates=join_t, pre=lambda x: [('the tuples of the first relation have the same attributes', x.HS.uniform()), ('the tuples of the second relation have the same attributes', x.HT.uniform())],
       calls=('Set.IsEmpty', 'Set.Equal', 'Set.Any', 'Map.Keys', 'Set.Intersection', CommonElements(SPECS['Set.Elements']), ProductOfAll(SPECS['rel.CartesianProduct']), GroupByCommon(SPECS['SetGroupBy']), 'Map.Get', ProductOfGroups(SPECS['rel.buildCartesianProduct']), 'SetBuilder.Finish', 'Map.Project'))
def _(x):
    r, tup = x.res(), x.tup
    yield 'only combinations that agree', 'view', vals(r, lambda u: x.JN(u))
    yield 'every combination that agrees', 'view', All([tup.K], lambda u: mkimp(x.JN(u), r.has(u)), lambda u: [x.JN(u), r.has(u)])
    yield 'the result has both headings', 'view', All([tup.K, tup.A], lambda c, k: mkimp(r.has(c), tup.TK(c, k) == Or(x.HS(k), x.HT(k))), lambda c, k: [(r.has(c), tup.TK(c, k))])


def fold_setup(x):
    eng = x.eng
    rt = x.ptypes[0]['e']
    x.tup = tup = get_tup(eng, rt)
    K = tup.K
    x.A, x.o, x.n, x.part = A, o, n, part = relslice(x, 0)
    root = lambda j: part(j)[0]
    UPD, AG = get_upd(eng, tup, False), get_agree(eng, tup)
    # JF(j,u): u is a combination of the first j relations
    nn = eng.fresh_n()
    JF = x.JF = Function('JF!%d' % nn, I, K, B)
    W = [Function('JFw%d!%d' % (i, nn), I, K, K) for i in range(2)]
    body = lambda j, u, a, b: And(JF(j, a), tup.th.HAS(root(o + j), b), AG(a, b), u == UPD(a, b))
    x.unf = lambda j: [
        eng.fact(All([K], lambda u: mkimp(And(j >= 1, JF(j + 1, u)), body(j, u, W[0](j, u), W[1](j, u))), lambda u: [JF(simp(j + 1), u)])),
        eng.fact(All([K, K, K], lambda u, a, b: mkimp(And(j >= 1, body(j, u, a, b)), JF(j + 1, u)), lambda u, a, b: [(JF(j, a), tup.th.HAS(root(simp(o + j)), b), UPD(a, b))]))]
    eng.axiom(All([K], lambda u: JF(1, u) == tup.th.HAS(root(o), u), lambda u: [JF(IntVal(1), u)]))
    x.heads = All([I, K, tup.A], lambda j, c, k: mkimp(And(o <= j, j < n, tup.th.HAS(root(j), c)), tup.TK(c, k) == Heading(tup, root(j))(k)), lambda j, c, k: [(tup.th.HAS(root(j), c), tup.TK(c, k))])


def fold_t(x):
    tup = x.tup
    th = tup.th
    def t(cut, st, unchanged, ints, sls):
        out = []
        for key, isobj in cells(cut, st, th):
            def nd(s2, key=key):
                c = treecell(cut, s2, cut.get(s2, key), th)
                if c is None: raise loops.Skip()
                return cut.eng.to_node(s2, c[0], th.et, False), c[1]
            def has(s2, jj):
                if not z3.is_int_value(jj) and not z3.is_const(jj): x.unf(jj)
                r = nd(s2)[0]
                return All([tup.K], lambda u: th.HAS(r, u) == x.JF(simp(jj + 1), u), lambda u: [th.HAS(r, u), x.JF(simp(jj + 1), u)])
            out += [('relation well formed', lambda s2, jj: (lambda r: And(Or(r[0] == th.nil, th.WF(r[0], IntVal(0))), r[1] == th.CNT(r[0])))(nd(s2))),
                    ('the combinations so far', has),
                    ('they have the same attributes', lambda s2, jj: Heading(tup, nd(s2)[0]).uniform())]
        return out
    return [t]


@rspec('Join', setup=fold_setup, templates=fold_t, calls=('rel.join',), pre=lambda x: [('every relation has a uniform heading', x.heads), ('there is an operand', x.n - x.o >= 1)])
def _(x):
    r = x.res()
    yield 'exactly the combinations that agree', 'view', same_members(x, r, lambda u: x.JF(simp(x.n - x.o), u))


def init_setup(x):
    for name in relglobals(x.eng.prog):
        g = [g for fn in x.eng.prog.fns.values() for b in fn['blocks'] for i in b['i'] for g in operands(i) if g['n'] == name][0]
        o = Obj(g['t']['e'], name, fresh=False, owned=True)
        o.init = x.eng.zero(o.typ)
        x.eng.opts.setdefault('globals', {})[name] = o


@rspec('init', setup=init_setup, calls=('NewMap', 'NewSet'))
def _(x):
    eng = x.eng
    for name, bad in sorted(relglobals(eng.prog).items()):
        o = eng.opts['globals'][name]
        tup = x.tup = get_tup(eng, o.typ)
        E = empty_tuple(x)
        v = TV(eng, x.st, eng.content(x.st, o), tup.tt)
        yield name + ' is well formed', 'wf', v.ok()
        yield name + ' has exactly the empty tuple', 'view', All([tup.K], lambda k: v.has(k) == (k == E), lambda k: [v.has(k)])
        yield 'nothing else changes ' + name + (': ' + ', '.join(sorted(bad)) if bad else ''), 'frame', BoolVal(not bad)
