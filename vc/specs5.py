"""Integer sets (C13, C14), for each integer type as machine integers.

View of an IntSet over I: the integers i with bit i&63 of the mask stored under key i>>6 set.
Representation invariant: no mask is zero, every key is the cell of some integer of the type,
and count is the weighted sum (WSUM) of the population counts of the masks, i.e. the number of
members."""
from specs1 import *
from specs4 import *
import loops, externs

WIDTHS = ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64')
BV64 = z3.BitVecSort(64)
ZERO64 = z3.BitVecVal(0, 64)


def bvconv(x, w, sg): return x if x.size() == w else z3.Extract(w - 1, 0, x) if x.size() > w else z3.SignExt(w - x.size(), x) if sg else z3.ZeroExt(w - x.size(), x)


class IntTheory:
    """cell key and bit of an integer"""
    def __init__(s, eng, it):
        s.eng, s.it = eng, it
        s.so = eng.zsort(it)
        s.w = s.so.size()
        s.sg = eng.signed(it)
        s.kth = eng.theory(it)
        n = tstr(it)
        s.K = s.kth.K
        s.cls = s.kth.cls
        s.unc = Function('unc_' + n, s.K, s.so)
        s.CELLK = Function('CELLK_' + n, s.so, s.K)
        s.BITM = Function('BITM_' + n, s.so, BV64)
        f = eng.axiom
        # equality of integers is identity
        f(All([s.so], lambda e: s.unc(s.cls(e)) == e, lambda e: [s.cls(e)]))
        f(All([s.K], lambda k: s.cls(s.unc(k)) == k, lambda k: [s.unc(k)]))
        f(All([s.so], lambda e: And(s.CELLK(e) == s.cls(s.cell(e)), s.unc(s.CELLK(e)) == s.cell(e)), lambda e: [s.CELLK(e)]))
        f(All([s.so], lambda e: s.BITM(e) == s.bit(e), lambda e: [s.BITM(e)]))
    def cell(s, i): return i >> 6 if s.sg else z3.LShR(i, 6)
    def bit(s, i): return z3.BitVecVal(1, 64) << bvconv(z3.Extract(5, 0, i), 64, False)
    def first(s, c): return c << 6
    def valid(s, c): return s.cell(c << 6) == c
    def at(s, c, b):
        """the integer with bit number b (64-bit vector < 64) in cell c"""
        return (c << 6) + bvconv(b, s.w, False)


def ith(eng, it):
    d = eng.__dict__.setdefault('_ith', {})
    k = tstr(it)
    if k not in d: d[k] = IntTheory(eng, it)
    return d[k]


class ISV:
    """ghost view of an IntSet"""
    def __init__(s, eng, st, v, it):
        s.eng, s.it = eng, it
        dt = eng.prog.sub(eng.prog.under({'k': 'named', 'n': 'frozen.IntSet', 'a': [it]}), {})['f'][0]['t']
        s.d = TV(eng, st, v.f[0], tree_elem(eng, dt))
        s.th, s.root, s.count = s.d.th, s.d.root, v.f[1]
        s.t = ith(eng, it)
        use_masks(eng, s.th)
        s.WS = s.th.WSUM(s.root)
        memo = eng.__dict__.setdefault('_isvm', {})
        key = (s.th.n, s.root.get_id())
        if key not in memo:
            M = memo[key] = (Function('MASK!%d' % eng.fresh_n(), s.th.K, BV64), s.root)
            eng.axiom(All([s.th.K], lambda k: M[0](k) == If(s.has(k), s.raw(k), ZERO64), lambda k: [M[0](k)]))
        s.MK = memo[key][0]
    def has(s, k): return s.d.has(k)
    def raw(s, k): return s.th.entry_val(s.d.val(k))
    def mask(s, k): return s.MK(k)
    def mem(s, i): return (s.mask(s.t.CELLK(i)) & s.t.BITM(i)) != ZERO64
    def inv(s):
        th, t = s.th, s.t
        yield 'no stored mask is zero and every key is a cell', 'wf', All([th.K], lambda k: mkimp(s.has(k), And(s.raw(k) != ZERO64, t.valid(t.unc(k)))), lambda k: [s.has(k)])
        yield 'count is the number of members', 'count', s.count == s.WS


def use_masks(eng, th):
    if getattr(th, 'wsum', None): return
    th.wpos = True
    # equality of masks is identity
    mt = eng.theory(th.et['a'][1])
    unc = Function('unc_' + mt.n, mt.K, mt.E)
    eng.axiom(All([mt.E], lambda e: unc(mt.cls(e)) == e, lambda e: [mt.cls(e)]))
    th.use_wsum(lambda e: externs.popcount_int(eng, th.entry_val(e)))


def intset_inv(eng, st, v, t):
    s = ISV(eng, st, v, t['a'][0])
    return list(s.inv())


def isv(x, i):
    if ('iv', i) not in x.memo: x.memo['iv', i] = ISV(x.eng, x.st0, x.args[i], x.ptypes[i]['a'][0])
    return x.memo['iv', i]


def rsv(x, i=0): return ISV(x.eng, x.st, x.ret[i], x.rtypes[i]['a'][0])


def iall(t, f): return All([t.so], f, lambda i: [t.CELLK(i)])


def ispec(name, **kw):
    """one specification per integer type"""
    def deco(f):
        for w in WIDTHS:
            k = dict(kw)
            tp = k.pop('tp', 'I')
            SPECS['%s[%s]' % (name, w)] = Spec('%s[%s]' % (name, w), k.pop('key', None) or 'frozen.' + ('(%s).%s' % tuple(name.split('.')) if '.' in name else name), f,
                                               targs=lambda eng, w=w, tp=tp: {tp: {'k': 'basic', 'n': w}}, **k)
        return f
    return deco


# ---------------------------------------------------------------- points
@ispec('IntSet.With')
def _(x):
    s, r, i0 = isv(x, 0), rsv(x), x.args[1]
    yield 'membership', 'view', iall(s.t, lambda i: r.mem(i) == Or(i == i0, s.mem(i)))


@ispec('IntSet.Without')
def _(x):
    s, r, i0 = isv(x, 0), rsv(x), x.args[1]
    yield 'membership', 'view', iall(s.t, lambda i: r.mem(i) == And(i != i0, s.mem(i)))


@ispec('IntSet.Has')
def _(x): yield 'true exactly for members', 'view', x.ret[0] == isv(x, 0).mem(x.args[1])


@ispec('IntSet.Count')
def _(x): yield 'number of members', 'count', x.ret[0] == isv(x, 0).WS


@ispec('IntSet.IsEmpty')
def _(x):
    s, r = isv(x, 0), x.ret[0]
    yield 'an empty set has no members', 'view', guarded(r, iall(s.t, lambda i: Not(s.mem(i))))
    k = s.th.somek(s.root)
    w = s.t.unc(k) << 6
    yield 'a non-empty set has a non-empty cell', 'view', mkimp(mknot(r), And(s.has(k), s.mask(k) != ZERO64, s.t.valid(s.t.unc(k))))


# ---------------------------------------------------------------- comparison
def masks_equal(s, t): return (lambda k: s.mask(k) == t.mask(k)), (lambda k: [s.has(k), t.has(k)])


def iequal(x, s, t, r, is_=TRUE):
    body, pats = masks_equal(s, t)
    s.th.sub_lemma(s.root, t.root)
    yield 'true only for equal members', 'view', guarded(r, iall(s.t, lambda i: s.mem(i) == t.mem(i)))
    yield 'false only when some cell differs', 'view', guarded(mkand(is_, mknot(r)), Ex([s.th.K], lambda k: Not(body(k)), pats))


@ispec('IntSet.Equal')
def _(x): yield from iequal(x, isv(x, 0), isv(x, 1), x.ret[0])


@ispec('IntSet.EqualSet')
def _(x): yield from iequal(x, isv(x, 0), isv(x, 1), x.ret[0])


@ispec('IntSet.Same')
def _(x):
    v, is_ = dyn(x, 1, x.ptypes[0])
    yield 'true only for a set of the same type', 'view', mkimp(x.ret[0], is_)
    yield from iequal(x, isv(x, 0), ISV(x.eng, x.st0, v, x.ptypes[0]['a'][0]), x.ret[0], is_)


def subset_t(x):
    s, t = isv(x, 0), isv(x, 1)
    th = s.th
    th.use_seq()
    def tm(cut, st, unchanged, ints, sls):
        def ok(i):
            e = th.elem(s.root, i)
            k = th.cls(e)
            return And(t.has(k), th.entry_val(e) & ~t.raw(k) == ZERO64)
        return [('earlier cells are covered', lambda s2, jj: All([I], lambda i: mkimp(And(0 <= i, i < jj), ok(i)), lambda i: [th.elem(s.root, i)]))]
    return [iter_template, tm]


@ispec('IntSet.IsSubsetOf', templates=subset_t)
def _(x):
    s, t, r = isv(x, 0), isv(x, 1), x.ret[0]
    body = lambda k: s.mask(k) & ~t.mask(k) == ZERO64
    yield 'true only for subsets', 'view', guarded(r, iall(s.t, lambda i: mkimp(s.mem(i), t.mem(i))))
    yield 'false only when some cell is not covered', 'view', guarded(mknot(r), Ex([s.th.K], lambda k: Not(body(k)), lambda k: [s.has(k), t.has(k)]))


# ---------------------------------------------------------------- bulk
def mask_template(x, th, keys, mask, at=None):
    """every map of masks under construction has, after j steps, the keys keys(k,j) with masks
    mask(k,j); integers changed with it count its bits"""
    eng = x.eng
    use_masks(eng, th)
    def t(cut, st, unchanged, ints, sls):
        out = []
        for key, isobj in cells(cut, st, th):
            def nd(s2, key=key):
                c = treecell(cut, s2, cut.get(s2, key), th)
                if c is None: raise loops.Skip()
                return eng.to_node(s2, c[0], th.et, False), c[1]
            def contents(s2, jj, nd=nd):
                if at: at(jj)
                r = nd(s2)[0]
                return All([th.K], lambda k: th.HAS(r, k) == keys(k, jj), lambda k: [th.HAS(r, k)] + ([at.sq.IN(jj, k)] if at else []))
            def masks(s2, jj, nd=nd):
                if at: at(jj)
                r = nd(s2)[0]
                return All([th.K], lambda k: mkimp(th.HAS(r, k), th.entry_val(th.VAL(r, k)) == mask(k, jj)), lambda k: [th.HAS(r, k)])
            out += [('tree well formed', lambda s2, jj, nd=nd: (lambda r: Or(r == th.nil, th.WF(r, IntVal(0))))(nd(s2)[0])),
                    ('tree count', lambda s2, jj, nd=nd: (lambda r: r[1] == th.CNT(r[0]))(nd(s2))),
                    ('~keys of the steps so far', contents), ('~masks of the steps so far', masks)]
            if isobj: out.append(('tree owned', lambda s2, jj, nd=nd: th.OWN(nd(s2)[0])))
            for c in ints:
                def cnt(s2, jj, nd=nd, c=c):
                    v = cut.cellval(s2, c)
                    if not isinstance(v, z3.ExprRef): raise loops.Skip()
                    return v == th.WSUM(nd(s2)[0])
                out.append(('~counts the members', cnt))
        return out
    return t


def iterating(root, t):
    """template t, in loops iterating over root only"""
    def f(cut, st, unchanged, ints, sls):
        for k in cut.changed:
            if k[0] == 'obj' and k[1].typ.get('k') == 'iter' and k[1].iter_of[1].eq(root): return t(cut, st, unchanged, ints, sls)
        return []
    return f


def seqat(sq):
    f = lambda jj: sq.at(jj)
    f.sq = sq
    return f


def elem_src(th, root):
    th.use_seq()
    return lambda i: th.elem(root, i)


def iunion_t(x):
    s, t = isv(x, 0), isv(x, 1)
    th = s.th
    sq = elemseq(x, th, elem_src(th, t.root))
    x.seqs = [sq]
    return [iter_template, mask_template(x, th, lambda k, j: Or(s.has(k), sq.IN(j, k)), lambda k, j: If(sq.IN(j, k), s.mask(k) | t.mask(k), s.mask(k)), seqat(sq))]


@ispec('IntSet.Union', templates=iunion_t)
def _(x):
    s, t, r = isv(x, 0), isv(x, 1), rsv(x)
    yield 'membership', 'view', iall(s.t, lambda i: r.mem(i) == Or(s.mem(i), t.mem(i)))


def iinter_t(x):
    s, t = isv(x, 0), isv(x, 1)
    th = s.th
    out = [iter_template]
    both = lambda k: s.mask(k) & t.mask(k)
    HIT = Function('HIT', th.K, B)          # HIT(k): the cells under k have common members
    hit = lambda k: HIT(k) == (both(k) != ZERO64)
    x.unfold = lambda: x.eng.fact(All([th.K], hit, lambda k: [HIT(k)]))
    for u in (t, s):
        src = elem_src(th, u.root)
        sq = elemseq(x, th, src, cond=lambda e: HIT(th.cls(e)))
        def at(jj, sq=sq, src=src):
            sq.at(jj)
            if not z3.is_int_value(jj): x.eng.fact(hit(th.cls(src(simp(jj - 1)))))
        at.sq = sq
        out.append(iterating(u.root, mask_template(x, th, lambda k, j, sq=sq: sq.IN(j, k), lambda k, j: both(k), at)))
    return out


@ispec('IntSet.Intersection', templates=iinter_t)
def _(x):
    s, t, r = isv(x, 0), isv(x, 1), rsv(x)
    yield 'membership', 'view', iall(s.t, lambda i: r.mem(i) == And(s.mem(i), t.mem(i)))
