"""Units on the IntSet iterator, for each integer type (C14; see specs6.Enum)."""
from specs6 import *
import iters


class CellEnum:
    """position bookkeeping of Enum for one cell map"""
    def __init__(s, eng, v):
        th = v.th
        th.use_seq()
        n = tstr(v.it)
        s.eng, s.v, s.th = eng, v, th
        s.WP = Function('WP_' + n, I, I)                 # members in the first q cells
        s.NB = Function('NB', BV64, I, BV64)             # a mask without its t lowest bits
        s.P = Function('POPCOUNT64', BV64, I)
        eng.fact(s.WP(IntVal(0)) == 0)
        eng.fact(s.WP(th.CNT(v.root)) == v.WS)           # WSUM is the sum over the elements
    def cell(s, q): return s.th.elem(s.v.root, q)
    def key(s, q): return s.th.entry_key(s.cell(q))
    def mask(s, q): return s.th.entry_val(s.cell(q))
    def at(s, q, t):
        """facts about position (q, t)"""
        m, P, NB, eng = s.mask(q), s.P, s.NB, s.eng
        c = NB(m, t)
        eng.fact(NB(m, IntVal(0)) == m)
        eng.fact(NB(m, t + 1) == c & (c - 1))
        eng.fact(mkimp(And(0 <= t, t <= P(m)), And(P(c) == P(m) - t, c & ~m == ZERO64)))
        eng.fact(mkimp(q >= 0, s.WP(q + 1) == s.WP(q) + P(m)))
        eng.fact(P(c) >= 0); eng.fact((P(c) == 0) == (c == ZERO64))
        eng.fact(P(m) >= 0); eng.fact((P(m) == 0) == (m == ZERO64))


class IntIter(iters.IUnit):
    def __init__(s, m, w, state=None):
        super().__init__('iter:IntSet.%s[%s]' % (m, w), 'frozen.(*intSetIterator).' + m)
        s.m, s.w, s.state = m, w, state
        s.it = {'k': 'basic', 'n': w}
    def tenv(s, eng): return {'T': s.it}
    def cases(s): return [IntIter(s.m, s.w, c) for c in (('fresh', 'inside', 'exhausted') if s.m == 'Next' else ('inside',))]
    @property
    def suffix(s): return ' (%s iterator)' % s.state
    def setup(s, eng, st, fn):
        facts = []
        sv = mkarg(eng, st, {'k': 'named', 'n': 'frozen.IntSet', 'a': [s.it]}, 's', facts)
        for f in facts: eng.fact(f)
        v = s.v = ISV(eng, st, sv, s.it)
        ce = s.ce = CellEnum(eng, v)
        th = v.th
        s.q, s.t = eng.fresh('q', I), eng.fresh('t', I)
        N = th.CNT(v.root)
        cellc, firstc = eng.fresh('cell', BV64), eng.fresh('first', v.t.so)
        if s.state == 'fresh':
            eng.fact(s.q == -1)
            eng.fact(cellc & (cellc - 1) == ZERO64)
            kv = eng.fresh('kv', th.E)
            s.pos = IntVal(-1)
        elif s.state == 'inside':
            ce.at(s.q, s.t); ce.at(s.q, s.t + 1)
            for q in (s.q + 1, s.q + 2): eng.fact(mkimp(And(0 <= q, q <= N), ce.WP(q) <= ce.WP(N)))    # prefix counts do not decrease
            eng.fact(And(0 <= s.q, s.q < N, 0 <= s.t, s.t < ce.P(ce.mask(s.q))))
            eng.fact(cellc == ce.NB(ce.mask(s.q), s.t)); eng.fact(firstc == ce.key(s.q))
            kv = ce.cell(s.q)
            s.pos = ce.WP(s.q) + s.t
        else:
            eng.fact(s.q >= N); eng.fact(cellc == ZERO64)
            kv = eng.fresh('kv', th.E)
            s.pos = eng.fresh('pos', I)
            eng.fact(s.pos >= v.WS)
        ce.at(s.q + 1, IntVal(0))
        s.iv = eng.iterv(st, th.et, v.root, s.q)
        mi = SV([s.iv, eng.unbox(th.et, kv)])
        s.o = Obj({'k': 'named', 'n': 'frozen.intSetIterator', 'a': [s.it]}, 'it', fresh=False, owned=True)
        s.o.init = SV([mi, cellc, firstc])
        s.cell0, s.first0 = cellc, firstc
        return [Ptr(s.o)]
    def post(s, eng, st, xs):
        v, ce, th = s.v, s.ce, s.v.th
        mi, cell, first = eng.content(st, s.o).f
        q = eng.content(st, s.iv.o).f[0]
        yield 'keeps its cell iterator', 'view', BoolVal(isinstance(mi.f[0], IterV) and mi.f[0].o is s.iv.o)
        if s.m == 'Value':
            b = externs.tz(64)(eng, st, [s.cell0], None, '', None)
            bb = eng.int2bv(b, v.t.so)
            low = s.cell0 & -s.cell0
            t = v.t
            eng.fact(mkimp(s.cell0 != ZERO64, (z3.BitVecVal(1, 64) << bvconv(bb, 64, False)) == low))
            eng.fact(mkimp(And(t.valid(s.first0), z3.ULT(xs[0] - (s.first0 << 6), z3.BitVecVal(64, t.w))), t.cell(xs[0]) == s.first0))
            yield 'the integer of the lowest remaining bit of the current cell', 'view', xs[0] == t.at(s.first0, bvconv(bb, 64, False))
            yield 'a member', 'view', v.mem(xs[0])
            yield 'does not move', 'view', And(q == s.q, cell == s.cell0, first == s.first0)
            return
        r = xs[0]
        N = th.CNT(v.root)
        P, NB, WP = ce.P, ce.NB, ce.WP
        yield 'true exactly while members remain', 'view', r == (s.pos + 1 < v.WS) if s.state != 'exhausted' else mknot(r)
        # the new position is the next one
        here = And(q == s.q, cell == NB(ce.mask(s.q), s.t + 1), first == ce.key(s.q), s.t + 1 < P(ce.mask(s.q)))
        nextc = And(q == s.q + 1, q < N, cell == ce.mask(s.q + 1), first == ce.key(s.q + 1), s.pos + 1 == WP(s.q + 1))
        if s.state == 'inside':
            eng.fact(mkimp(s.q + 1 < N, th.HAS(v.root, th.cls(ce.cell(s.q + 1)))))
            yield 'moves to the next member', 'view', mkimp(r, Or(here, nextc))
        elif s.state == 'fresh':
            yield 'moves to the first member', 'view', mkimp(r, nextc)
        yield 'an exhausted iterator stays exhausted', 'view', mkimp(mknot(r), And(q >= N, cell == ZERO64))


class IntRange(iters.IUnit):
    def __init__(s, w):
        super().__init__('iter:IntSet.Range[%s]' % w, 'frozen.(IntSet).Range')
        s.it = {'k': 'basic', 'n': w}
    def tenv(s, eng): return {'I': s.it}
    def setup(s, eng, st, fn):
        facts = []
        sv = mkarg(eng, st, {'k': 'named', 'n': 'frozen.IntSet', 'a': [s.it]}, 's', facts)
        for f in facts: eng.fact(f)
        s.v = ISV(eng, st, sv, s.it)
        return [sv]
    def post(s, eng, st, xs):
        x = xs[0]
        if not (isinstance(x, IV) and x.t['k'] == 'ptr' and x.t['e'].get('n') == 'frozen.intSetIterator'):
            yield 'returns an IntSet iterator', 'view', FALSE; return
        mi, cell, first = eng.content(st, x.v.o).f
        it = mi.f[0]
        ok = isinstance(it, IterV)
        yield 'over the cells of the set', 'view', BoolVal(ok)
        if ok: yield 'before the first member', 'view', And(it.n == s.v.root, eng.content(st, it.o).f[0] == -1, cell & (cell - 1) == ZERO64)


class LocateCell(iters.IUnit):
    def __init__(s, w):
        super().__init__('bits:locateCell[%s]' % w, 'frozen.locateCell')
        s.it = {'k': 'basic', 'n': w}
    def tenv(s, eng): return {'I': s.it}
    def setup(s, eng, st, fn):
        s.t = ith(eng, s.it)
        s.i = eng.fresh('i', s.t.so)
        return [s.i]
    def post(s, eng, st, xs):
        c, m = xs
        t = s.t
        yield 'the cell of the integer', 'view', c == t.cell(s.i)
        yield 'the bit of the integer in its cell', 'view', m == t.bit(s.i)
        yield 'exactly one bit', 'view', And(m != ZERO64, m & (m - 1) == ZERO64)
        yield 'the cell is valid', 'view', t.valid(c)
        j = eng.fresh('other', t.so)
        yield 'different integers have different places', 'view', mkimp(And(t.cell(j) == c, t.bit(j) == m), j == s.i)


def register(REG):
    for w in WIDTHS:
        for m in ('Next', 'Value'): REG['iter:IntSet.%s[%s]' % (m, w)] = lambda m=m, w=w: IntIter(m, w)
        REG['iter:IntSet.Range[%s]' % w] = lambda w=w: IntRange(w)
        REG['bits:locateCell[%s]' % w] = lambda w=w: LocateCell(w)


ALL = ['iter:IntSet.%s[%s]' % (m, w) for w in WIDTHS for m in ('Range', 'Next', 'Value')] + ['bits:locateCell[%s]' % w for w in WIDTHS]
