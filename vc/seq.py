"""Accumulation loops: the set of keys reached by the first j steps of a loop, as a defined
predicate IN(j,k) <=> exists i < j. mem(i,k), with LAST(j,k) the last such step; and the loop
invariant templates relating a tree under construction to it."""
from api import *
from contracts import Ex
import loops


class Seq:
    def __init__(s, x, th, mem, trig, y=None, name='seq'):
        """mem(i,k): step i contributes key k; trig(i): term mentioning i that occurs whenever step i
        matters; y(i): element stored by step i"""
        eng = x.eng
        s.eng, s.th, s.mem, s.trig, s.y = eng, th, mem, trig, y
        n = eng.fresh_n()
        s.IN = IN = Function('IN_%s!%d' % (name, n), I, th.K, B)
        s.LAST = LAST = Function('LAST_%s!%d' % (name, n), I, th.K, I)
        eng.axiom(All([I, th.K], lambda j, k: mkimp(IN(j, k), And(0 <= LAST(j, k), LAST(j, k) < j, mem(LAST(j, k), k))), lambda j, k: [IN(j, k), LAST(j, k)]))
        eng.axiom(All([I, th.K, I], lambda j, k, i: mkimp(And(0 <= i, i < j, mem(i, k)), And(IN(j, k), i <= LAST(j, k))),
                     lambda j, k, i: [(IN(j, k), trig(i)), (LAST(j, k), trig(i))]))

    def at(s, jj, o=0):
        """unfold the definition at jj = j+1 (a consequence of the two axioms above)"""
        if o == 0 and (z3.is_int_value(jj) or z3.is_const(jj)): return
        p = simp(jj - 1)
        IN, LAST, mem, th = s.IN, s.LAST, s.mem, s.th
        s.eng.fact(mkimp(jj >= 1, s.trig(p) == s.trig(p)))
        s.eng.fact(All([th.K], lambda k: mkimp(jj >= 1, And(IN(jj, k) == Or(mem(p, k), IN(p, k)),
                       mkimp(IN(jj, k), LAST(jj, k) == If(mem(p, k), p, LAST(p, k))))), lambda k: [IN(jj, k), LAST(jj, k), IN(p, k)]))


def elemseq(x, th, src, cond=None, f=None, name='seq'):
    """steps are the elements src(i); step i contributes cls(f(src(i))) when cond(src(i))"""
    y = (lambda i: f(src(i))) if f is not None else src
    mem = lambda i, k: mkand(cond(src(i)) if cond is not None else TRUE, th.cls(y(i)) == k)
    s = Seq(x, th, mem, src, y, name)
    s.cond, s.src = cond, src
    s.stepkey = lambda i: th.cls(y(i))
    return s


def treecell(cut, st, v, th):
    """(node, count) of a tree-bearing value, or None"""
    while isinstance(v, SV) and len(v.f) == 1: v = v.f[0]
    if not isinstance(v, SV) or len(v.f) != 2: return None
    a, b = v.f
    if not (isinstance(b, z3.ExprRef) and b.sort() == I): return None
    try:
        if not cut.isnodeval(a, th.et): return None
    except Unsupported: return None
    if isinstance(a, z3.ExprRef) and a.sort() != th.Node: return None
    return a, b


def cells(cut, st, th):
    for k in cut.changed:
        if k in cut.counters: continue
        v = cut.get(cut.entry, k)
        if treecell(cut, cut.entry, v, th): yield k, k[0] == 'obj'


def build_templates(x, seqs, member=None, owned=None, value=None, empty=True, single=True, offs=(0,)):
    """templates: every tree under construction has exactly the keys of its sequence so far (the loop may
    start at step o of the sequence)"""
    def t(cut, st, unchanged, ints, sls):
        eng = cut.eng
        out = []
        for sq in seqs:
            th = sq.th
            for key, isobj in cells(cut, st, th):
                def nd(s2, key=key, th=th):
                    c = treecell(cut, s2, cut.get(s2, key), th)
                    if c is None: raise loops.Skip()
                    return eng.to_node(s2, c[0], th.et, False), c[1]
                mb = member(sq) if member else (lambda k, jj, sq=sq: sq.IN(jj, k))
                def contents(s2, jj, nd=nd, th=th, mb=mb, sq=sq, o=0):
                    jj = simp(jj + o)
                    sq.at(jj, o)
                    r = nd(s2)[0]
                    return All([th.K], lambda k: th.HAS(r, k) == mb(k, jj), lambda k: [th.HAS(r, k), sq.IN(jj, k)])
                def stored(s2, jj, nd=nd, th=th, sq=sq, val=value or (lambda k, jj, sq=sq: sq.y(sq.LAST(jj, k)))):
                    sq.at(jj)
                    r = nd(s2)[0]
                    return All([th.K], lambda k: mkimp(th.HAS(r, k), th.VAL(r, k) == val(k, jj)), lambda k: [th.VAL(r, k)])
                out += [('tree well formed', lambda s2, jj, nd=nd, th=th: (lambda r: Or(r == th.nil, th.WF(r, IntVal(0))))(nd(s2)[0])),
                        ('tree count', lambda s2, jj, nd=nd, th=th: (lambda r: r[1] == th.CNT(r[0]))(nd(s2))),
                        ('contents are those of the steps so far', contents)]
                for o in offs:
                    if o: out.append(('contents are those of the steps so far, from step %d' % o, lambda s2, jj, contents=contents, o=o: contents(s2, jj, o=o)))
                sk = getattr(sq, 'stepkey', None)
                if sk is not None and member is None:
                    def earlier(s2, jj, nd=nd, th=th, sq=sq, sk=sk):
                        r = nd(s2)[0]
                        return All([I], lambda i: mkimp(mkand(0 <= i, i < jj, sq.cond(sq.src(i)) if sq.cond else TRUE), th.HAS(r, sk(i))), lambda i: [sq.trig(i)])
                    out.append(('the key of every earlier step is there', earlier))
                if isobj: out.append(('tree owned', lambda s2, jj, nd=nd, th=th: th.OWN(nd(s2)[0])))
                if sq.y is not None: out.append(('stored elements are those of the last step', stored))
                if single: out.append(('one element per step', lambda s2, jj, nd=nd, th=th: th.CNT(nd(s2)[0]) == jj))
        return out
    return t


def iter_template(cut, st, unchanged, ints, sls):
    """an iterator position never passes the number of elements"""
    out = []
    eng = cut.eng
    for k in cut.changed:
        if k[0] == 'obj' and k[1].typ.get('k') == 'iter':
            th, n = k[1].iter_of
            p0 = cut.get(cut.entry, k).f[0]
            out.append(('iteration count is bounded', lambda s2, jj, th=th, n=n, p0=p0: jj <= th.CNT(n) - 1 - p0))
    for c in ints:
        def v(s2, c=c):
            r = cut.cellval(s2, c)
            if not isinstance(r, z3.ExprRef): raise loops.Skip()
            return r
        try: c0 = v(cut.entry)
        except loops.Skip: continue
        out.append(('countdown', lambda s2, jj, v=v, c0=c0: v(s2) == c0 - jj))
        out.append(('countdown not past zero', lambda s2, jj, c0=c0: Or(jj == 0, jj <= c0)))
    return out


def copy_template(et, y):
    """a slice under construction holds y(0), y(1), ..."""
    def t(cut, st, unchanged, ints, sls):
        out = []
        for sc in sls:
            def f(s2, jj, sc=sc):
                a, l = cut.arrlen(s2, sc, et)
                if a.sort() != ArraySort(I, cut.eng.boxsort(et)): raise loops.Skip()
                return All([I], lambda i: mkimp(And(0 <= i, i < jj), Select(a, i) == y(i)), lambda i: [Select(a, i), y(i)] if z3.is_app(y(i)) else [Select(a, i)])
            out.append(('copied so far', f))
        return out
    return t


from z3 import ArraySort
