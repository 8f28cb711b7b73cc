"""Integer sets: enumeration, construction, filtering (C13, C14)."""
from specs5 import *
from contracts import Contract
import tree as T


# ---------------------------------------------------------------- enumeration
class Enum:
    """the members of an IntSet as an abstract set of integers, in iteration order: position p is bit
    number t of cell number q, where p = WP(q) + t and WP(q) is the number of members in the first q
    cells.  NB(m, t) is m with its t lowest bits cleared.  The iter:IntSet units check the iterator
    against this; that it enumerates every member exactly once is the lemma unit lemma:intset."""
    def __init__(s, v):
        eng, t = v.eng, v.t
        s.v, s.eng, s.t = v, eng, t
        s.th = eng.theory(v.it)
        s.th.use_seq()
        n = tstr(v.it)
        s.node = Function('ISNODE_' + n, v.th.Node, s.th.Node)(v.root)
        eng.axiom((s.node == s.th.nil) == (v.WS == 0))
        eng.axiom(s.th.CNT(s.node) == v.WS)
        eng.axiom(mkimp(v.WS > 0, s.th.RT(s.node, IntVal(0))))
        eng.axiom(All([t.so], lambda i: s.th.HAS(s.node, t.cls(i)) == v.mem(i), lambda i: [t.CELLK(i)]))
        eng.axiom(All([s.th.K], lambda k: And(s.th.HAS(s.node, k) == v.mem(t.unc(k)), s.th.VAL(s.node, k) == t.unc(k)), lambda k: [s.th.HAS(s.node, k)]))
    @property
    def root(s): return s.node
    @property
    def et(s): return s.v.it
    @property
    def CNT(s): return s.th.CNT(s.node)
    def has(s, k): return s.th.HAS(s.node, k)
    def val(s, k): return s.th.VAL(s.node, k)
    def elem(s, j): return s.th.elem(s.node, j)


def enum(v):
    memo = v.eng.__dict__.setdefault('_enum', {})
    k = (v.th.n, v.root.get_id())
    if k not in memo: memo[k] = Enum(v)
    return memo[k]


class CIntSetRange(Contract):
    name = 'IntSet.Range'; key = 'frozen.(IntSet).Range'
    def call(s, eng, st, args, targs, pos, fr):
        v = ISV(eng, st, args[0], targs[0])
        e = enum(v)
        for nm, _, f in v.inv(): eng.oblige('precondition of IntSet.Range: ' + nm, 'pre', st.guard, f, pos)
        return eng.iterv(st, v.it, e.node, IntVal(-1))


class CNewIntSet(Contract):
    name = 'NewIntSet'; key = 'frozen.NewIntSet'
    def call(s, eng, st, args, targs, pos, fr):
        it = targs[0]
        facts = []
        r = mkarg(eng, st, {'k': 'named', 'n': 'frozen.IntSet', 'a': [it]}, 'newset', facts)
        for f in facts: eng.fact(f, st.guard)
        v = ISV(eng, st, r, it)
        sl = args[0]
        if sl is NIL or sl.back is None: a, n = Const('none', ArraySort(I, v.t.so)), IntVal(0)
        else: a, n = eng.slice_arr(st, sl, it)
        eng.fact(newset_in(v, a, n), st.guard)
        w = Function('src!%d' % eng.fresh_n(), v.t.so, I)
        eng.fact(iall(v.t, lambda i: mkimp(v.mem(i), And(0 <= w(i), w(i) < n, Select(a, w(i)) == i))), st.guard)
        eng.__dict__.setdefault('_srcs', []).append(w)
        return r


def newset_in(v, a, n): return All([I], lambda j: mkimp(And(0 <= j, j < n), v.mem(Select(a, j))), lambda j: [Select(a, j)])


API_CONTRACTS += [CIntSetRange, CNewIntSet]


@ispec('IntSet.Elements', templates=lambda x: [iter_template, copy_template(x.ptypes[0]['a'][0], enum(isv(x, 0)).elem)])
def _(x):
    v = isv(x, 0)
    e = enum(v)
    a, l = x.eng.slice_arr(x.st, x.ret[0], v.it)
    w = lambda i: e.th.epos(e.node, v.t.cls(i))
    yield 'as many as there are members', 'count', l == v.WS
    yield 'every entry is a member, no two are equal', 'view', All([I], lambda j: mkimp(And(0 <= j, j < l), And(v.mem(Select(a, j)), w(Select(a, j)) == j)), lambda j: [Select(a, j)])
    yield 'every member is there', 'view', iall(v.t, lambda i: mkimp(v.mem(i), And(0 <= w(i), w(i) < l, Select(a, w(i)) == i)))


@ispec('IntSet.Any', inline=['iterator.(BitIterator).' + m for m in ('Next', 'Index', 'Has')], templates=lambda x: [iter_template], panics=lambda x: [('the set is empty', isv(x, 0).WS == 0)])
def _(x):
    v = isv(x, 0)
    t, th, r = v.t, v.th, x.ret[0]
    th.use_seq()
    # arithmetic of cells: an integer less than 64 past the first of cell c is in cell c; the lowest bit of a mask
    x.eng.fact(All([I], lambda j: (lambda c: mkimp(And(t.valid(c), z3.ULT(r - (c << 6), z3.BitVecVal(64, t.w))), t.cell(r) == c))(th.entry_key(th.elem(v.root, j))), lambda j: [th.elem(v.root, j)]))
    yield 'a member of the set', 'view', v.mem(r)


# ---------------------------------------------------------------- construction
def copying(x, mt=None):
    """loops that put the entries of a finite map of masks into another one"""
    memo = {}
    def t(cut, st, unchanged, ints, sls):
        out = []
        for k in cut.changed:
            if k[0] == 'obj' and k[1].typ.get('k') == 'iter':
                th, n = k[1].iter_of
                if th.et.get('n') != 'frozen.mapEntry' or th.entry_val(th.VAL(n, th.somek(n))).sort() != BV64: continue
                if n.get_id() not in memo: memo[n.get_id()] = elemseq(x, th, elem_src(th, n))
                sq = memo[n.get_id()]
                out += mask_template(x, th, lambda k, j: sq.IN(j, k), lambda k, j: th.entry_val(th.VAL(n, k)), seqat(sq))(cut, st, unchanged, ints, sls)
        return out
    return t


def newintset_t(x):
    eng = x.eng
    it = x.ptypes[0]['e']
    t = ith(eng, it)
    a = eng.content(x.st0, x.args[0].back)
    kth = eng.theory(it)
    sq = x.sq = elemseq(x, kth, lambda i: Select(a, i))
    dt = eng.prog.sub(eng.prog.under({'k': 'named', 'n': 'frozen.IntSet', 'a': [it]}), {})['f'][0]['t']
    th = eng.theory(tree_elem(eng, dt))
    use_masks(eng, th)
    def tm(cut, st, unchanged, ints, sls):
        out = []
        if any(k[0] == 'obj' and k[1].typ.get('k') == 'iter' for k in cut.changed): return []
        for key, isobj in cells(cut, st, th):
            def nd(s2, key=key):
                c = treecell(cut, s2, cut.get(s2, key), th)
                if c is None: raise loops.Skip()
                return eng.to_node(s2, c[0], th.et, False), c[1]
            mask = lambda r, k: If(th.HAS(r, k), th.entry_val(th.VAL(r, k)), ZERO64)
            def members(s2, jj, nd=nd):
                sq.at(jj)
                r = nd(s2)[0]
                return All([t.so], lambda i: (mask(r, t.CELLK(i)) & t.BITM(i) != ZERO64) == sq.IN(jj, t.cls(i)), lambda i: [t.CELLK(i)])
            out += [('tree well formed', lambda s2, jj, nd=nd: (lambda r: Or(r == th.nil, th.WF(r, IntVal(0))))(nd(s2)[0])),
                    ('tree count', lambda s2, jj, nd=nd: (lambda r: r[1] == th.CNT(r[0]))(nd(s2))),
                    ('~no mask is zero', lambda s2, jj, nd=nd: (lambda r: All([th.K], lambda k: mkimp(th.HAS(r, k), th.entry_val(th.VAL(r, k)) != ZERO64), lambda k: [th.HAS(r, k)]))(nd(s2)[0])),
                    ('~keys are cells', lambda s2, jj, nd=nd: (lambda r: All([th.K], lambda k: mkimp(th.HAS(r, k), t.valid(t.unc(k))), lambda k: [th.HAS(r, k)]))(nd(s2)[0])),
                    ('~members so far', members)]
        return out
    return [iter_template, tm, copying(x)]


@ispec('NewIntSet', key='frozen.NewIntSet', templates=newintset_t)
def _(x):
    et, a, n = slice_src(x, 0)
    r, sq = rsv(x), x.sq
    w = lambda i: sq.LAST(n, r.t.cls(i))
    yield 'every argument is a member', 'view', newset_in(r, a, n)
    yield 'every member is an argument', 'view', iall(r.t, lambda i: mkimp(r.mem(i), And(0 <= w(i), w(i) < n, Select(a, w(i)) == i)))


@ispec('IntSet.Map', templates=lambda x: [iter_template, copy_template(x.ptypes[0]['a'][0], lambda j: x.call(1, enum(isv(x, 0)).elem(j)))])
def _(x):
    v, r = isv(x, 0), rsv(x)
    e = enum(v)
    f = lambda i: x.call(1, i)
    yield 'the image of every member is a member', 'view', All([I], lambda j: mkimp(And(0 <= j, j < v.WS), r.mem(f(e.elem(j)))), lambda j: [e.elem(j)])
    # witness: the position the new set got it from
    yield 'every member is the image of a member', 'view', iall(v.t, lambda i: mkimp(r.mem(i), Or(*[And(0 <= w(i), w(i) < v.WS, v.mem(e.elem(w(i))), f(e.elem(w(i))) == i) for w in srcs(x)])))


def srcs(x):
    """witness functions introduced by the contract of NewIntSet"""
    return x.eng.__dict__.get('_srcs', [])


# ---------------------------------------------------------------- filtering
def tz64(eng, st, m):
    return externs.tz(64)(eng, st, [m], None, '', None)


def iwhere_t(x):
    eng = x.eng
    s = isv(x, 0)
    th, t = s.th, s.t
    src = elem_src(th, s.root)
    n = tstr(s.it)
    PM = Function('PM_' + n, t.so, BV64)        # PM(c): the bits of cell c whose integers satisfy the predicate
    HIT = Function('HIT', th.K, B)
    pk = lambda k: s.mask(k) & PM(t.unc(k))
    hit = lambda k: HIT(k) == (pk(k) != ZERO64)
    x.PM = PM
    x.pmem = lambda i: ((PM(t.cell(i)) & t.bit(i)) != ZERO64) == x.call(1, i)
    x.unfold = lambda: (eng.fact(All([th.K], hit, lambda k: [HIT(k)])), eng.fact(iall(t, x.pmem)))
    sq = elemseq(x, th, src, cond=lambda e: HIT(th.cls(e)))
    def at(jj):
        sq.at(jj)
        if not z3.is_int_value(jj): eng.fact(hit(th.cls(src(simp(jj - 1)))))
    at.sq = sq
    def inner(cut, st, unchanged, ints, sls):
        """masks scanned bit by bit"""
        out = []
        pos = [simp(cut.get(cut.entry, ('obj', o)).f[0]) for o in cut.entry.heap if o.typ.get('k') == 'iter' and o.iter_of[1].eq(s.root)]
        ms = [k for k in cut.changed if isinstance(cut.get(cut.entry, k), z3.ExprRef) and cut.get(cut.entry, k).sort() == BV64]
        for p in pos:
            c = th.entry_key(src(p))
            M = th.entry_val(src(p))
            for a in ms:
                out.append(('~rest of the mask', lambda s2, jj, a=a: cut.get(s2, a) & ~M == ZERO64))
                for b in ms:
                    if a == b: continue
                    def f(s2, jj, a=a, b=b):
                        va, vb = cut.get(s2, a), cut.get(s2, b)
                        bitdef(va)
                        return vb == M & ~va & PM(c)
                    out.append(('~bits found so far', f))
            def bitdef(v, c=c):
                """the definition of PM at the lowest bit of v"""
                if not z3.is_const(v) or z3.is_bv_value(v): return
                b = tz64(eng, None, v)
                for sh in (eng.int2bv(b, t.so), ):
                    low = v & -v
                    eng.fact(mkimp(v != ZERO64, (PM(c) & low != ZERO64) == x.call(1, (c << 6) + sh)))
                    eng.fact(mkimp(v != ZERO64, (z3.BitVecVal(1, 64) << bvconv(sh, 64, False)) == low))
        return out
    return [iter_template, inner, iterating(s.root, mask_template(x, th, lambda k, j: sq.IN(j, k), lambda k, j: pk(k), at))]


@ispec('IntSet.Where', templates=iwhere_t)
def _(x):
    s, r = isv(x, 0), rsv(x)
    yield 'membership', 'view', iall(s.t, lambda i: r.mem(i) == And(s.mem(i), x.call(1, i)))
