"""Logical theory of hash tries over an element type: spec functions, their
defining axioms (instantiated for ground nodes) and derived lemmas. Each is proved for an explicit
inductive model in lean/Theory.lean (run by the unit lemma:theory)."""
import z3
from z3 import (And, Or, Not, If, Implies, IntVal, Int, Const, Function, IntSort, BoolSort,
                BitVecSort, ArraySort, Select, Store, ForAll, Sum)
from engine import simp, All, tstr, mkand, mkor, mknot, mkimp, mkif, conc, TRUE, FALSE, Unsupported

I = IntSort()
B = BoolSort()


def bit(m, j):
    return z3.Extract(j, j, m) == 1


def maskbit(m, i):
    """bit i (mathematical int) of a bit vector"""
    c = conc(i)
    if c is not None: return bit(m, c) if 0 <= c < m.size() else FALSE
    return mkor(*[mkand(i == j, bit(m, j)) for j in range(m.size())])


class ArrTheory:
    """sequences of elements of one type, as (array, length) pairs"""
    def __init__(s, eng, et):
        s.eng, s.et = eng, et
        s.E = eng.boxsort(et)
        s.Arr = ArraySort(I, s.E)
        s.empty = Const('arr0_' + tstr(et), s.Arr)

    def at(s, a, j): return Select(a, j)
    def store(s, a, j, v): return Store(a, j, v)


class Theory:
    def __init__(s, eng, et):
        s.eng, s.et = eng, et
        n = s.n = tstr(et)
        s.E = eng.boxsort(et)
        s.keyth = None
        if et['k'] == 'named' and et['n'] == 'frozen.mapEntry':
            # entries are identified by their key (mapEntry.Equal, checked by the C26 units)
            s.keyth = eng.theory(et['a'][0])
            eng.theory(et['a'][1])
        s.K = eng.sort('K_' + n) if s.keyth is None else s.keyth.K
        s.Node = eng.sort('Node_' + n)
        s.H = eng.sort('H') if not eng.opts.get('hasherbv') else z3.BitVecSort(64)
        s.A = ArraySort(I, s.E)
        F = lambda nm, *ss: Function(nm + '_' + n, *ss)
        s.cls = F('cls', s.E, s.K)
        s.HS = F('HS', s.K, I, s.H)
        s.hidx = Function('hidx', s.H, I)
        s.hnext = Function('hnext', s.H, s.H)
        s.nil = Const('nilnode_' + n, s.Node)
        s.kind = F('kind', s.Node, I)
        s.l1 = F('l1', s.Node, s.E)
        s.l2a = F('l2a', s.Node, s.E)
        s.l2b = F('l2b', s.Node, s.E)
        s.twarr = F('twarr', s.Node, s.A)
        s.twlen = F('twlen', s.Node, I)
        s.twcap = F('twcap', s.Node, I)
        s.brmask = F('brmask', s.Node, BitVecSort(16))
        s.ch = F('ch', s.Node, I, s.Node)
        s.HAS = F('HAS', s.Node, s.K, B)
        s.VAL = F('VAL', s.Node, s.K, s.E)
        s.CNT = F('CNT', s.Node, I)
        s.WF = F('WF', s.Node, I, B)
        s.RT = F('RT', s.Node, I, B)
        s.MSK = F('MSK', s.Node, B)
        s.OWN = F('OWN', s.Node, B)
        s.INARR = F('INARR', s.A, I, s.K, B)
        s.apos = F('apos', s.A, I, s.K, I)
        s.DIST = F('DIST', s.A, I, B)
        s.dx = F('dx', s.A, I, I)
        s.dy = F('dy', s.A, I, I)
        s.elem = F('elem', s.Node, I, s.E)
        s.epos = F('epos', s.Node, s.K, I)
        s.off = F('off', s.Node, I, I)
        s.wj = F('wj', s.Node, I, I)          # witness index for RT fold
        s.wk = F('wk', s.Node, I, s.K)
        s.wo = F('wo', s.Node, I)
        s.somek = F('somek', s.Node, s.K)
        s.seq_used = False
        s.arr_used = False
        s.axioms()
        if s.keyth is not None:
            eng.axiom(All([s.E], lambda e: s.cls(e) == s.keyth.cls(s.entry_key(e)), lambda e: [s.cls(e)]))

    def entry_key(s, e): return s.entry_part(e, 0)
    def entry_val(s, e): return s.entry_part(e, 1)
    def entry_part(s, e, i):
        d = s.E
        kv = e.arg(0) if e.decl().eq(d.constructor(0)) else d.accessor(0, 0)(e)
        d2 = kv.sort()
        return kv.arg(i) if kv.decl().eq(d2.constructor(0)) else d2.accessor(0, i)(kv)

    # idx of a key at depth d
    def idx(s, k, d): return s.hidx(s.HS(k, d))

    def axioms(s):
        e = s.eng
        K, N = s.K, s.Node
        ax = lambda a: e.axiom(a)
        ax(All([s.H], lambda h: And(0 <= s.hidx(h), s.hidx(h) < 8), lambda h: [s.hidx(h)]))
        ax(All([K, I], lambda k, d: mkimp(d >= 0, s.hnext(s.HS(k, d)) == s.HS(k, d + 1)), lambda k, d: [s.hnext(s.HS(k, d))]))
        ax(s.kind(s.nil) == 0); ax(s.CNT(s.nil) == 0)
        ax(s.OWN(s.nil))
        ax(All([K], lambda k: Not(s.HAS(s.nil, k)), lambda k: [s.HAS(s.nil, k)]))
        ax(All([N], lambda n: And(0 <= s.kind(n), s.kind(n) <= 4, (s.kind(n) == 0) == (n == s.nil)), lambda n: [s.kind(n)]))
        ax(All([N], lambda n: s.CNT(n) >= 0, lambda n: [s.CNT(n)]))
        ax(All([I], lambda d: And(Not(s.WF(s.nil, d)), Not(s.RT(s.nil, d))), lambda d: [s.WF(s.nil, d)]))
        ax(All([N, I], lambda n, d: mkimp(s.WF(n, d), And(
            s.RT(n, d), s.MSK(n), n != s.nil, s.CNT(n) >= 1, s.kind(n) >= 1, s.kind(n) <= 4,
            (s.kind(n) == 1) == (s.CNT(n) == 1), (s.kind(n) == 2) == (s.CNT(n) == 2),
            s.HAS(n, s.somek(n)),
            mkimp(s.kind(n) == 3, d >= 22), mkimp(s.kind(n) == 4, And(0 <= d, d <= 21)))),
            lambda n, d: [s.WF(n, d)]))
        ax(All([N, I, I], lambda n, d, d2: mkimp(And(s.WF(n, d), s.kind(n) <= 2), s.WF(n, d2)), lambda n, d, d2: [(s.WF(n, d), s.WF(n, d2))]))
        # V1: the stored element of a key has that key
        ax(All([N, K], lambda n, k: mkimp(s.HAS(n, k), s.cls(s.VAL(n, k)) == k), lambda n, k: [s.VAL(n, k)]))
        ax(All([N, K], lambda n, k: mkimp(s.HAS(n, k), s.CNT(n) >= 1), lambda n, k: [(s.HAS(n, k), s.CNT(n))]))

    def use_arrays(s):
        if s.arr_used: return
        s.arr_used = True
        e = s.eng
        A, K = s.A, s.K
        e.axiom(All([A, I, K], lambda a, n, k: mkimp(s.INARR(a, n, k),
            And(0 <= s.apos(a, n, k), s.apos(a, n, k) < n, s.cls(Select(a, s.apos(a, n, k))) == k)),
            lambda a, n, k: [s.INARR(a, n, k)]))
        e.axiom(All([A, I, K, I], lambda a, n, k, j: mkimp(And(0 <= j, j < n, s.cls(Select(a, j)) == k), s.INARR(a, n, k)),
            lambda a, n, k, j: [(s.INARR(a, n, k), Select(a, j))]))
        e.axiom(All([A, I, I], lambda a, n, i: mkimp(And(s.DIST(a, n), 0 <= i, i < n),
            And(s.INARR(a, n, s.cls(Select(a, i))), s.apos(a, n, s.cls(Select(a, i))) == i)),
            lambda a, n, i: [(s.DIST(a, n), Select(a, i))]))
        e.axiom(All([A, I], lambda a, n: Or(s.DIST(a, n), And(0 <= s.dx(a, n), s.dx(a, n) < s.dy(a, n), s.dy(a, n) < n,
            s.cls(Select(a, s.dx(a, n))) == s.cls(Select(a, s.dy(a, n))))), lambda a, n: [s.DIST(a, n)]))

    def use_seq(s):
        """element-position axioms"""
        if s.seq_used: return
        s.seq_used = True
        e = s.eng
        N, K = s.Node, s.K
        e.axiom(All([N, I, I], lambda n, d, j: mkimp(And(s.RT(n, d), 0 <= j, j < s.CNT(n)), And(
            s.HAS(n, s.cls(s.elem(n, j))), s.VAL(n, s.cls(s.elem(n, j))) == s.elem(n, j),
            s.epos(n, s.cls(s.elem(n, j))) == j)), lambda n, d, j: [(s.RT(n, d), s.elem(n, j))]))
        e.axiom(All([N, I, K], lambda n, d, k: mkimp(And(s.RT(n, d), s.HAS(n, k)), And(
            0 <= s.epos(n, k), s.epos(n, k) < s.CNT(n), s.elem(n, s.epos(n, k)) == s.VAL(n, k))),
            lambda n, d, k: [(s.RT(n, d), s.HAS(n, k))]))

    def use_wsum(s, w):
        """WSUM(n): the sum of the integer weights w(e) of the elements of n; a function of the stored
        elements alone (lemma WSUM), given here by its value on small nodes and under point updates"""
        if getattr(s, 'wsum', None): return
        s.wsum = w
        s.WSUM = Function('WSUM_' + s.n, s.Node, I)
        e = s.eng
        e.axiom(s.WSUM(s.nil) == 0)
        for nn, d in list(getattr(s, '_unf', {}).values()): s.unfold_wsum(nn)
        if getattr(s, 'wpos', False):
            e.axiom(All([s.Node], lambda n: s.WSUM(n) >= 0, lambda n: [s.WSUM(n)]))
            e.axiom(All([s.Node, s.K], lambda n, k: mkimp(s.HAS(n, k), s.WSUM(n) >= w(s.VAL(n, k))), lambda n, k: [(s.WSUM(n), s.HAS(n, k))]))

    def unfold_wsum(s, n):
        s.eng.fact(mkimp(s.kind(n) == 1, s.WSUM(n) == s.wsum(s.l1(n))))
        s.eng.fact(mkimp(s.kind(n) == 2, s.WSUM(n) == s.wsum(s.l2a(n)) + s.wsum(s.l2b(n))))

    def point_update(s, r, n, k0, e, guard):
        """r has the elements of n except at k0, where it has e (or nothing)"""
        if not getattr(s, 'wsum', None): return
        old = If(s.HAS(n, k0), s.wsum(s.VAL(n, k0)), 0)
        s.eng.fact(s.WSUM(r) == s.WSUM(n) - old + (s.wsum(e) if e is not None else 0), guard)

    def use_sum(s):
        """weighted sums over the elements: W embeds the elements in a free commutative monoid (written
        additively), R maps a non-empty sum to the value an associative, commutative n-ary reduction
        gives for it"""
        if getattr(s, 'sum_used', False): return
        s.sum_used = True
        e = s.eng
        F = lambda nm, *ss: Function(nm + '_' + s.n, *ss)
        s.RS = z3.RealSort()
        s.W = F('W', s.E, s.RS)
        s.R = F('R', s.RS, s.E)
        s.MSUM = F('MSUM', s.Node, s.RS)
        s.SUMW = F('SUMW', s.A, I, s.RS)
        e.axiom(s.MSUM(s.nil) == 0)
        e.axiom(All([s.A], lambda a: s.SUMW(a, IntVal(0)) == 0, lambda a: [s.SUMW(a, IntVal(0))]))
        for nn, d in list(getattr(s, '_unf', {}).values()): s.unfold_sum(nn)

    def sum_at(s, a, j):
        """definition of SUMW at j+1 (j >= 0)"""
        s.eng.fact(mkimp(j >= 0, s.SUMW(a, simp(j + 1)) == s.SUMW(a, j) + s.W(Select(a, j))))

    def unfold_sum(s, n, kind=None):
        e = s.eng
        for k in ((kind,) if kind else (1, 2, 3, 4)):
            g = s.kind(n) == k
            if k == 1: f = s.MSUM(n) == s.W(s.l1(n))
            elif k == 2: f = s.MSUM(n) == s.W(s.l2a(n)) + s.W(s.l2b(n))
            elif k == 3: f = s.MSUM(n) == s.SUMW(s.twarr(n), s.twlen(n))
            else:
                c = [s.ch(n, IntVal(j)) for j in range(8)]
                f = s.MSUM(n) == Sum([s.MSUM(x) for x in c])
                # the reduction law for this node: reducing the children's reductions reduces all their elements
                e.fact(mkimp(And(g, Or(*[x != s.nil for x in c]), *[Or(x == s.nil, s.CNT(x) >= 1) for x in c]),
                             s.R(Sum([If(x != s.nil, s.W(s.R(s.MSUM(x))), z3.RealVal(0)) for x in c])) == s.R(s.MSUM(n))))
            e.fact(mkimp(g, f))

    def unfold(s, n, kind, d):
        """definitions of the spec functions at a node of known constructor"""
        e = s.eng
        if not hasattr(s, '_unf'): s._unf = {}
        key = (n.get_id(), kind, d.get_id() if d is not None else None)
        if key in s._unf: return
        s._unf[key] = (n, d)
        g = s.kind(n) == kind
        def ax(f):
            if isinstance(f, All): e.fact(All(f.sorts, lambda *v: mkimp(g, f.body(*v)), f.pats))
            else: e.fact(mkimp(g, f))
        K = s.K
        if getattr(s, 'sum_used', False): s.unfold_sum(n, kind)
        if getattr(s, 'wsum', None) and kind in (1, 2): s.unfold_wsum(n)
        if kind in (1, 2):
            ax(All([I], lambda dd: And(s.RT(n, dd) == s.WF(n, dd)), lambda dd: [s.RT(n, dd)]))
        if kind == 1:
            x = s.l1(n)
            ax(s.CNT(n) == 1); ax(s.MSK(n))
            ax(All([K], lambda k: s.HAS(n, k) == (k == s.cls(x)), lambda k: [s.HAS(n, k)]))
            ax(s.HAS(n, s.cls(x)))
            ax(All([K], lambda k: mkimp(s.HAS(n, k), s.VAL(n, k) == x), lambda k: [s.VAL(n, k)]))
            ax(All([I], lambda dd: s.WF(n, dd), lambda dd: [s.WF(n, dd)]))
            if s.seq_used: ax(s.elem(n, IntVal(0)) == x)
        elif kind == 2:
            a, b = s.l2a(n), s.l2b(n)
            ax(s.CNT(n) == 2); ax(s.MSK(n))
            ax(All([K], lambda k: s.HAS(n, k) == Or(k == s.cls(a), k == s.cls(b)), lambda k: [s.HAS(n, k)]))
            ax(s.HAS(n, s.cls(a))); ax(s.HAS(n, s.cls(b)))
            ax(All([K], lambda k: mkimp(s.HAS(n, k), s.VAL(n, k) == If(k == s.cls(a), a, b)), lambda k: [s.VAL(n, k)]))
            ax(All([I], lambda dd: s.WF(n, dd) == (s.cls(a) != s.cls(b)), lambda dd: [s.WF(n, dd)]))
            if s.seq_used:
                ax(s.elem(n, IntVal(0)) == a); ax(s.elem(n, IntVal(1)) == b)
        elif kind == 3:
            s.use_arrays()
            a, l = s.twarr(n), s.twlen(n)
            ax(And(l >= 0, s.twcap(n) >= l)); ax(s.CNT(n) == l); ax(s.MSK(n))
            ax(All([K], lambda k: s.HAS(n, k) == s.INARR(a, l, k), lambda k: [s.HAS(n, k)]))
            ax(All([K], lambda k: mkimp(s.HAS(n, k), s.VAL(n, k) == Select(a, s.apos(a, l, k))), lambda k: [s.VAL(n, k)]))
            ax(All([I], lambda dd: s.WF(n, dd) == And(dd >= 22, l >= 3, s.DIST(a, l)), lambda dd: [s.WF(n, dd)]))
            ax(All([I], lambda dd: s.RT(n, dd) == s.DIST(a, l), lambda dd: [s.RT(n, dd)]))
            ax(All([I], lambda i: mkimp(And(0 <= i, i < l), s.HAS(n, s.cls(Select(a, i)))), lambda i: [Select(a, i)]))
            if s.seq_used:
                ax(All([I], lambda j: mkimp(And(0 <= j, j < l), s.elem(n, j) == Select(a, j)), lambda j: [s.elem(n, j)]))
        else:
            ax(s.CNT(n) == Sum([s.CNT(s.ch(n, IntVal(j))) for j in range(8)]))
            m = s.brmask(n)
            ax(s.MSK(n) == And(*[bit(m, j) == (s.ch(n, IntVal(j)) != s.nil) for j in range(8)], z3.Extract(15, 8, m) == 0))
            # a child's element is an element
            ax(All([I, K], lambda j, k: mkimp(And(0 <= j, j < 8, s.HAS(s.ch(n, j), k)), s.HAS(n, k)), lambda j, k: [s.HAS(s.ch(n, j), k)]))
            if s.seq_used:
                ax(s.off(n, IntVal(0)) == 0)
                for j in range(8):
                    o = s.off(n, IntVal(j)); cj = s.ch(n, IntVal(j))
                    ax(s.off(n, IntVal(j + 1)) == o + s.CNT(cj))
                    ax(All([I], lambda i, cj=cj, o=o: mkimp(And(0 <= i, i < s.CNT(cj)), s.elem(n, o + i) == s.elem(cj, i)),
                           lambda i, cj=cj: [s.elem(cj, i)]))
                    ax(All([I], lambda i, cj=cj, o=o: mkimp(And(o <= i, i < o + s.CNT(cj)), s.elem(n, i) == s.elem(cj, i - o)),
                           lambda i: [s.elem(n, i)]))
            if d is None: return
            rt = s.RT(n, d)
            inr = lambda j: And(0 <= j, j < 8)
            ax(mkimp(rt, And(0 <= d, d <= 21)))
            # routing
            ax(All([I, K], lambda j, k: mkimp(And(rt, inr(j), s.HAS(s.ch(n, j), k)), s.idx(k, d) == j),
                   lambda j, k: [s.HAS(s.ch(n, j), k)]))
            ax(All([K], lambda k: mkimp(rt, s.HAS(n, k) == s.HAS(s.ch(n, s.idx(k, d)), k)), lambda k: [s.HAS(n, k)]))
            ax(All([K], lambda k: mkimp(And(rt, s.HAS(n, k)), s.VAL(n, k) == s.VAL(s.ch(n, s.idx(k, d)), k)), lambda k: [s.VAL(n, k)]))
            # children well formed one level down
            ax(All([I], lambda j: mkimp(And(rt, inr(j), s.ch(n, j) != s.nil), s.WF(s.ch(n, j), d + 1)), lambda j: [s.ch(n, j)]))
            # fold
            wj, wk, wo = s.wj(n, d), s.wk(n, d), s.wo(n)
            routed = mkimp(And(inr(wj), s.HAS(s.ch(n, wj), wk)), s.idx(wk, d) == wj)
            wfch = And(*[Or(s.ch(n, IntVal(j)) == s.nil, s.WF(s.ch(n, IntVal(j)), d + 1)) for j in range(8)])
            ax(mkimp(And(0 <= d, d <= 21, routed, wfch), rt))
            ax(s.WF(n, d) == And(rt, s.MSK(n), s.CNT(n) >= 3))
            ax(All([I], lambda j: mkimp(And(s.OWN(n), inr(j)), s.OWN(s.ch(n, j))), lambda j: [s.ch(n, j)]))

    def sub_lemma(s, a, b):
        """SUB(a,b) predicate with witness and the cardinality facts for this pair (CARD lemma)"""
        if not hasattr(s, 'SUBP'):
            s.SUBP = Function('SUBP_' + s.n, s.Node, s.Node, B)
            s.sw = Function('sw_' + s.n, s.Node, s.Node, s.K)
        e = s.eng
        if not hasattr(s, '_subs'): s._subs = {}
        key = (a.get_id(), b.get_id())
        if key in s._subs: return
        s._subs[key] = (a, b)
        for x, y in ((a, b), (b, a)):
            w = s.sw(x, y)
            e.fact(Or(s.SUBP(x, y), And(s.HAS(x, w), Not(s.HAS(y, w)))))
            e.fact(All([s.K], lambda k, x=x, y=y: mkimp(And(s.SUBP(x, y), s.HAS(x, k)), s.HAS(y, k)),
                       lambda k, x=x, y=y: [(s.SUBP(x, y), s.HAS(x, k)), (s.SUBP(x, y), s.HAS(y, k))]))
        d1 = s.eng.fresh('dd', I); d2 = s.eng.fresh('dd', I)
        # CARD: CNT of a routed node is the number of its keys, so it is monotone in the key set
        def wf(n): return s.eng_wf(n)
        for x, y in ((a, b), (b, a)):
            e.fact(mkimp(And(wf(x), wf(y), s.SUBP(x, y)), s.CNT(x) <= s.CNT(y)))
            e.fact(mkimp(And(wf(x), wf(y), s.SUBP(x, y), s.CNT(x) == s.CNT(y)), s.SUBP(y, x)))

    def eng_wf(s, n):
        d = s.eng.ghostd if s.eng.ghostd is not None else IntVal(0)
        return Or(n == s.nil, s.RT(n, d))
