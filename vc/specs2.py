"""Iteration and everything built on it."""
from seq import *


def elems(x, i):
    """i-th element in iteration order, as a function"""
    v = x.view(i)
    v.th.use_seq()
    return lambda j: v.th.elem(v.root, j)


# ---------------------------------------------------------------- C05
def range_post(x):
    s = x.view(0)
    v = x.ret[0]
    while isinstance(v, SV): v = v.f[0]
    ok = isinstance(v, IterV)
    yield 'returns an iterator over the elements', 'view', BoolVal(ok)
    if ok: yield 'over exactly the elements, before the first', 'view', And(v.n == s.root, x.eng.content(x.st, v.o).f[0] == -1)


spec('Set.Range')(range_post)
spec('Map.Range')(range_post)


@spec('Set.Elements', templates=lambda x: [iter_template, copy_template(x.view(0).et, elems(x, 0))])
def _(x):
    s = x.view(0)
    th = s.th
    a, l = x.eng.slice_arr(x.st, x.ret[0], s.et)
    yield 'as many as there are elements', 'count', l == s.CNT
    yield 'every entry is an element, no two are equal', 'view', All([I], lambda i: mkimp(And(0 <= i, i < l), And(s.has(th.cls(Select(a, i))), th.epos(s.root, th.cls(Select(a, i))) == i)), lambda i: [Select(a, i)])
    yield 'every element is there', 'view', All([th.K], lambda k: mkimp(s.has(k), And(0 <= th.epos(s.root, k), th.epos(s.root, k) < l, Select(a, th.epos(s.root, k)) == s.val(k))), lambda k: [s.has(k)])


@spec('Set.Any', templates=lambda x: [iter_template], panics=lambda x: [('the set is empty', x.view(0).CNT == 0)])
def _(x):
    s = x.view(0)
    e = x.eng.box(x.rtypes[0], x.ret[0])
    yield 'an element of the set', 'view', And(s.has(s.th.cls(e)), s.val(s.th.cls(e)) == e)


@spec('Map.Any', templates=lambda x: [iter_template], panics=lambda x: [('the map is empty', x.view(0).CNT == 0)])
def _(x):
    m = x.view(0)
    k, v = x.eng.box(x.rtypes[0], x.ret[0]), x.eng.box(x.rtypes[1], x.ret[1])
    c = x.cls(x.rtypes[0], k)
    yield 'an entry of the map', 'view', And(m.has(c), m.mval(c) == v)


def anyn_seqs(x):
    s = x.view(0)
    x.seqs = [elemseq(x, s.th, elems(x, 0))]
    return [iter_template, build_templates(x, x.seqs)]


@spec('Set.AnyN', templates=anyn_seqs)
def _(x):
    s, r, n = x.view(0), x.res(), x.args[1]
    yield 'min(n, Count) elements', 'count', r.CNT == If(n < 0, 0, If(n > s.CNT, s.CNT, n))
    yield 'all of them elements of the set', 'view', vals(r, lambda k: And(s.has(k), r.val(k) == s.val(k)))


# ---------------------------------------------------------------- C12
def image_post(x, f, cond=None, src=0, res=None):
    """result = { f(e) | e in source, cond(e) }"""
    s, r, sq = x.view(src), res or x.res(), x.seqs[0]
    N = s.CNT
    w = lambda k: s.th.elem(s.root, sq.LAST(N, k))
    g = cond or (lambda e: TRUE)
    yield 'every image is there', 'view', All([s.th.K], lambda k: mkimp(mkand(s.has(k), g(s.val(k))), r.has(r.th.cls(f(s.val(k))))), lambda k: [s.has(k)])
    yield 'nothing else is there', 'view', All([r.th.K], lambda k: mkimp(r.has(k), mkand(0 <= sq.LAST(N, k), sq.LAST(N, k) < N, s.has(s.th.cls(w(k))), s.val(s.th.cls(w(k))) == w(k), g(w(k)), r.th.cls(f(w(k))) == k, r.val(k) == f(w(k)))), lambda k: [r.has(k)])


def unboxed(x, i): return lambda e: e


def setmap_t(x):
    s = x.view(0)
    ut = x.ptypes[1]['r']['e'][0]
    x.fimg = lambda e: x.eng.box(ut, x.call(1, e))
    x.seqs = [elemseq(x, x.eng.theory(ut), elems(x, 0), f=x.fimg)]
    return [iter_template, build_templates(x, x.seqs)]


@spec('SetMap', templates=setmap_t)
def _(x): yield from image_post(x, x.fimg)


def as_t(conv):
    def t(x):
        s = x.view(0)
        ut, x.fimg = conv(x)
        x.seqs = [elemseq(x, x.eng.theory(ut), elems(x, 0), f=x.fimg)]
        return [iter_template, build_templates(x, x.seqs)]
    return t


ANY = {'k': 'iface', 'm': [], 'sigs': {}}


def any_conv(x):
    et = x.view(0).et
    f = Function('any_of_' + tstr(et), x.eng.boxsort(et), x.eng.sort('Any'))
    return tree_elem(x.eng, x.rtypes[0]), lambda e: f(e)


def as_conv(x):
    et, ut = x.view(0).et, tree_elem(x.eng, x.rtypes[0])
    is_, as_ = dynconv(x.eng, et, ut)
    return ut, as_


def dynconv(eng, a, b):
    za, zb = eng.boxsort(a), eng.boxsort(b)
    return Function('dyn_is_%s_%s' % (tstr(a), tstr(b)), za, B), Function('dyn_as_%s_%s' % (tstr(a), tstr(b)), za, zb)


def setas_pre(x):
    s = x.view(0)
    is_, _ = dynconv(x.eng, s.et, tree_elem(x.eng, x.rtypes[0]))
    return [('every element converts', All([s.th.E], lambda e: is_(e), lambda e: [is_(e)]))]


@spec('SetAs', templates=as_t(as_conv), pre=setas_pre)
def _(x): yield from image_post(x, x.fimg)


@spec('Set.AsSetAny', templates=as_t(any_conv))
def _(x): yield from image_post(x, x.fimg)


# ---------------------------------------------------------------- C27
def entry(th, k, v):
    """boxed map entry"""
    d = th.E
    inner = d.accessor(0, 0).range() if callable(getattr(d.accessor(0, 0), 'range', None)) else None
    return d.constructor(0)(inner.constructor(0)(k, v))


def part_t(i):
    def t(x):
        m = x.view(0)
        x.fimg = lambda e: m.th.entry_part(e, i)
        x.seqs = [elemseq(x, x.eng.theory(tree_elem(x.eng, x.rtypes[0])), elems(x, 0), f=x.fimg)]
        return [iter_template, build_templates(x, x.seqs)]
    return t


@spec('Map.Keys', templates=part_t(0))
def _(x):
    m, r = x.view(0), x.res()
    yield from image_post(x, x.fimg)
    yield 'exactly the keys', 'view', same_members(x, r, lambda k: m.has(k), extra=[m])


@spec('Map.Values', templates=part_t(1))
def _(x): yield from image_post(x, x.fimg)


def mapwhere_t(x):
    m = x.view(0)
    x.cond = lambda e: x.call(1, m.th.entry_key(e), m.th.entry_val(e))
    x.seqs = [elemseq(x, m.th, elems(x, 0), cond=x.cond, f=lambda e: entry(m.th, m.th.entry_key(e), m.th.entry_val(e)))]
    return [iter_template, build_templates(x, x.seqs)]


@spec('Map.Where', templates=mapwhere_t)
def _(x):
    m, r = x.view(0), x.res()
    yield 'keys', 'view', same_members(x, r, lambda k: And(m.has(k), x.cond(m.val(k))), extra=[m])
    yield 'values', 'view', vals(r, lambda k: r.mval(k) == m.mval(k))


def mapmap_t(x):
    m = x.view(0)
    th = x.eng.theory(tree_elem(x.eng, x.rtypes[0]))
    ut = x.ptypes[1]['r']['e'][0]
    x.fval = lambda e: x.eng.box(ut, x.call(1, m.th.entry_key(e), m.th.entry_val(e)))
    x.seqs = [elemseq(x, th, elems(x, 0), f=lambda e: entry(th, m.th.entry_key(e), x.fval(e)))]
    return [iter_template, build_templates(x, x.seqs)]


def mapmap_setup(x):
    """the callback is applied to entries of the map only"""
    m, th = x.view(0), x.view(0).th
    entry = lambda k, v: (lambda e: And(m.has(th.keyth.cls(k)), th.entry_key(e) == k, th.entry_val(e) == v))(m.val(th.keyth.cls(k)))
    x.liftdom = lambda zs: entry(*zs)
    if getattr(x, 'atcall', False): return
    args, f = x.args, x.args[1]
    u = x.eng.prog.under(x.ptypes[1]) if x.ptypes[1]['k'] == 'named' else x.ptypes[1]
    def call(eng, st, a, pos):
        eng.oblige('the callback is applied to an entry of the map', 'pre', st.guard, entry(*[eng.box(t, v) for t, v in zip(u['p']['e'], a)]), pos, False)
        return f.f(eng, st, a, pos)
    x.args = list(args)
    args[1] = UF(call, f.name)


@spec('MapMap', setup=mapmap_setup, templates=mapmap_t)
def _(x):
    m, r = x.view(0), x.res()
    yield 'keys', 'view', same_members(x, r, lambda k: m.has(k), extra=[m])
    yield 'values', 'view', vals(r, lambda k: r.mval(k) == x.fval(m.val(k)))


def fromkeys_t(x):
    s = x.view(0)
    th = x.eng.theory(tree_elem(x.eng, x.rtypes[0]))
    vt = x.ptypes[1]['r']['e'][0]
    x.fval = lambda e: x.eng.box(vt, x.call(1, e))
    x.seqs = [elemseq(x, th, elems(x, 0), f=lambda e: entry(th, e, x.fval(e)))]
    return [iter_template, build_templates(x, x.seqs)]


@spec('NewMapFromKeys', templates=fromkeys_t)
def _(x):
    s, r = x.view(0), x.res()
    yield 'keys', 'view', same_members(x, r, lambda k: s.has(k), extra=[s])
    yield 'values', 'view', vals(r, lambda k: r.mval(k) == x.fval(s.val(k)))


def slice_src(x, i):
    sl = x.args[i]
    et = x.ptypes[i]['e']
    if not hasattr(x, 'srcs'): x.srcs = {}
    if i not in x.srcs:
        a = x.eng.content(x.st0, sl.back) if sl.back is not None else None
        x.srcs[i] = a if isinstance(a, z3.ExprRef) and not getattr(x, 'atcall', False) else x.eng.slice_arr(x.st0, sl, et)[0]
    return et, x.srcs[i], sl.len


def newset_t(x):
    et, a, n = slice_src(x, 0)
    x.N = n
    th = x.eng.theory(et)
    th.use_arrays()
    x.seqs = [elemseq(x, th, lambda i: Select(a, i))]
    def t(cut, st, unchanged, ints, sls):
        out = []
        for key, isobj in cells(cut, st, th):
            def f(s2, jj, key=key):
                c = treecell(cut, s2, cut.get(s2, key), th)
                if c is None: raise loops.Skip()
                return mkimp(th.DIST(a, n), c[1] == jj)
            out.append(('one element per argument when they are distinct', f))
        return out
    return [iter_template, build_templates(x, x.seqs), t]


@spec('NewSet', templates=newset_t)
def _(x):
    et, a, n = slice_src(x, 0)
    r, sq = x.res(), x.seqs[0]
    yield 'every argument is an element', 'view', All([I], lambda i: mkimp(And(0 <= i, i < n), r.has(r.th.cls(Select(a, i)))), lambda i: [Select(a, i)])
    yield 'as many as there are arguments, when they are distinct', 'count', mkimp(r.th.DIST(a, n), r.CNT == n)
    yield 'every element is an argument', 'view', vals(r, lambda k: And(0 <= sq.LAST(n, k), sq.LAST(n, k) < n, r.val(k) == Select(a, sq.LAST(n, k))))


def newmap_t(x):
    et, a, n = slice_src(x, 0)
    th = x.eng.theory(tree_elem(x.eng, x.rtypes[0]))
    KVd = x.eng.boxsort(et)
    x.kk = lambda e: KVd.accessor(0, 0)(e)
    x.vv = lambda e: KVd.accessor(0, 1)(e)
    src = lambda i: Select(a, i)
    sq = Seq(x, th, lambda i, k: th.keyth.cls(x.kk(src(i))) == k, src, lambda i: entry(th, x.kk(src(i)), x.vv(src(i))))
    x.seqs = [sq]
    return [iter_template, build_templates(x, x.seqs)]


@spec('NewMap', templates=newmap_t)
def _(x):
    et, a, n = slice_src(x, 0)
    r, sq = x.res(), x.seqs[0]
    c = r.th.keyth.cls
    yield 'every argument key is a key', 'view', All([I], lambda i: mkimp(And(0 <= i, i < n), r.has(c(x.kk(Select(a, i))))), lambda i: [Select(a, i)])
    w = lambda k: sq.LAST(n, k)
    yield 'every key has the value of its last argument', 'view', vals(r, lambda k: And(0 <= w(k), w(k) < n, c(x.kk(Select(a, w(k)))) == k, r.mval(k) == x.vv(Select(a, w(k)))))
    yield 'no later argument has the key', 'view', All([r.th.K, I], lambda k, i: mkimp(And(r.has(k), w(k) < i, i < n), c(x.kk(Select(a, i))) != k), lambda k, i: [(r.has(k), Select(a, i))])


def project_t(x):
    et, a, n = slice_src(x, 1)
    m = x.view(0)
    src = lambda i: Select(a, i)
    sq = Seq(x, m.th, lambda i, k: And(m.th.keyth.cls(src(i)) == k, m.has(k)), src, lambda i: entry(m.th, src(i), m.mval(m.th.keyth.cls(src(i)))))
    x.seqs = [sq]
    return [iter_template, build_templates(x, x.seqs)]


@spec('Map.Project', templates=project_t)
def _(x):
    et, a, n = slice_src(x, 1)
    m, r, sq = x.view(0), x.res(), x.seqs[0]
    c = m.th.keyth.cls
    yield 'every present requested key is kept', 'view', All([I], lambda i: mkimp(And(0 <= i, i < n, m.has(c(Select(a, i)))), r.has(c(Select(a, i)))), lambda i: [Select(a, i)])
    w = lambda k: sq.LAST(n, k)
    yield 'only present requested keys', 'view', vals(r, lambda k: And(m.has(k), 0 <= w(k), w(k) < n, c(Select(a, w(k))) == k))
    yield 'values', 'view', vals(r, lambda k: r.mval(k) == m.mval(k))


# ---------------------------------------------------------------- variadic set operations (C02)
def setslice_setup(x):
    """every set in the slice satisfies the invariant of its type"""
    eng = x.eng
    et, a, n = slice_src(x, 0)
    te = tree_elem(eng, et)
    th = eng.theory(te)
    def part(i):
        v = eng.unbox(et, Select(a, i))
        while len(v.f) == 1: v = v.f[0]
        return v.f
    x.part, x.n, x.th, x.arr = part, n, th, a
    eng.fact(All([I], lambda i: mkimp(And(0 <= i, i < n), (lambda f: And(Or(f[0] == th.nil, th.WF(f[0], IntVal(0))), f[1] == th.CNT(f[0])))(part(i))), lambda i: [Select(a, i)]))


def backwards(x, rev):
    """a consequence of the definition: step n-1-i of the reversed sequence is element i"""
    x.eng.axiom(All([I, x.th.K, I], lambda j, k, i: mkimp(And(0 <= i, i < x.n, x.n - 1 - i < j, rev.mem(x.n - 1 - i, k)), rev.IN(j, k)), lambda j, k, i: [(rev.IN(j, k), Select(x.arr, i))]))


def union_t(x):
    th = x.th
    sq = Seq(x, th, lambda i, k: th.HAS(x.part(i)[0], k), lambda i: Select(x.arr, i))
    x.seqs = [sq]
    rev = Seq(x, th, lambda i, k: th.HAS(x.part(x.n - 1 - i)[0], k), lambda i: Select(x.arr, x.n - 1 - i), name='rev')
    backwards(x, rev)
    return [iter_template, build_templates(x, [sq, rev], offs=(1,))]


@spec('Union', setup=setslice_setup, templates=union_t)
def _(x):
    r, th, sq = x.res(), x.th, x.seqs[0]
    yield 'every member of an argument is a member', 'view', All([I, th.K], lambda i, k: mkimp(And(0 <= i, i < x.n, th.HAS(x.part(i)[0], k)), r.has(k)), lambda i, k: [th.HAS(x.part(i)[0], k)])
    yield 'every member is a member of some argument', 'view', vals(r, lambda k: And(0 <= sq.LAST(x.n, k), sq.LAST(x.n, k) < x.n, th.HAS(x.part(sq.LAST(x.n, k))[0], k)))


def inter_t(x):
    th = x.th
    sq = Seq(x, th, lambda i, k: Not(th.HAS(x.part(i)[0], k)), lambda i: Select(x.arr, i))
    x.seqs = [sq]
    rev = Seq(x, th, lambda i, k: Not(th.HAS(x.part(x.n - 1 - i)[0], k)), lambda i: Select(x.arr, x.n - 1 - i), name='rev')
    first = {id(sq): IntVal(0), id(rev): x.n - 1}
    backwards(x, rev)
    return [iter_template, build_templates(x, [sq, rev], member=lambda q: lambda k, jj: And(th.HAS(x.part(first[id(q)])[0], k), Not(q.IN(jj, k))), offs=(1,))]


@spec('Intersection', setup=setslice_setup, templates=inter_t, panics=lambda x: [('there are no sets', x.n == 0)])
def _(x):
    r, th, sq = x.res(), x.th, x.seqs[0]
    yield 'members are members of every argument', 'view', All([I, th.K], lambda i, k: mkimp(And(0 <= i, i < x.n, r.has(k)), th.HAS(x.part(i)[0], k)), lambda i, k: [(r.has(k), Select(x.arr, i))])
    yield 'whatever is not a member is missing from some argument', 'view', All([th.K], lambda k: Or(r.has(k), And(0 <= sq.LAST(x.n, k), sq.LAST(x.n, k) < x.n, Not(th.HAS(x.part(sq.LAST(x.n, k))[0], k))), And(x.n >= 1, Not(th.HAS(x.part(IntVal(0))[0], k)))), lambda k: [r.has(k)])
