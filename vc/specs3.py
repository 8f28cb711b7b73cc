"""Integers, bits and hashing."""
from specs2 import *


# ---------------------------------------------------------------- C25
def prog_setup(x):
    eng = x.eng
    a = x.args
    names = x.spec.name
    start, stop, step = (IntVal(0), a[0], IntVal(1)) if names == 'Iota' else (a[0], a[1], IntVal(1)) if names == 'Iota2' else a
    for v in a: eng.fact(And(v >= -2**63, v < 2**63))
    x.start, x.stop, x.step = start, stop, step
    V = x.V = Function('V', I, I)
    # V(j) = start + j*step
    eng.fact(V(IntVal(0)) == start)
    eng.fact(All([I, I], lambda i, j: mkimp(And(0 <= i, i <= j), And(mkimp(step >= 1, V(i) + (j - i) <= V(j)), mkimp(step <= -1, V(j) <= V(i) - (j - i)))), lambda i, j: [(V(i), V(j))]))
    # V is injective (step != 0): its inverse
    W = x.Vinv = Function('Vinv', I, I)
    eng.fact(All([I], lambda j: mkimp(And(0 <= j, step != 0), W(V(j)) == j), lambda j: [V(j)]))


def before(x, v): return Or(And(x.step > 0, v < x.stop), And(x.step < 0, v > x.stop))


def iota_t(x):
    th = x.eng.theory(tree_elem(x.eng, x.rtypes[0]))
    V = x.V
    sq = elemseq(x, th, lambda i: V(i))
    x.seqs = [sq]
    old = sq.at
    def at(jj, o=0):
        old(jj)
        if not z3.is_int_value(jj): x.eng.fact(mkimp(jj >= 1, V(jj) == V(simp(jj - 1)) + x.step))
    sq.at = at
    def t(cut, st, unchanged, ints, sls):
        out = []
        for k in list(cut.counters): ints = ints + [(k, ())]
        for c in ints:
            def v(s2, c=c):
                r = cut.cellval(s2, c)
                if not isinstance(r, z3.ExprRef): raise loops.Skip()
                return r
            try: v(cut.entry)
            except loops.Skip: continue
            def f(s2, jj, v=v):
                at(jj)
                return v(s2) == V(jj)
            out.append(('value of step', f))
            out.append(('value in range', lambda s2, jj, v=v: And(v(s2) >= -2**63, v(s2) < 2**63)))
        out.append(('all steps so far are before stop', lambda s2, jj: All([I], lambda i: mkimp(And(0 <= i, i < jj), before(x, V(i))), lambda i: [V(i)])))
        out.append(('!terminates: every step moves towards stop', lambda s2, jj: Or(*[Or(And(x.step > 0, jj <= cut.cellval(s2, c) - x.start), And(x.step < 0, jj <= x.start - cut.cellval(s2, c))) for c in ints])))
        return out
    return [t, build_templates(x, x.seqs)]


INT = {'k': 'basic', 'n': 'int'}
def iota_post(x):
    r, V, sq = x.res(), x.V, x.seqs[0]
    yield 'every value before stop is there', 'view', All([I], lambda j: mkimp(And(j >= 0, before(x, V(j))), r.has(r.th.cls(V(j)))), lambda j: [V(j)])
    yield 'nothing else is there', 'view', vals(r, lambda k: exists_step(x, r, k))


def exists_step(x, r, k):
    """some step j >= 0 before stop has this value: the witness is the last step of some prefix"""
    w = x.Vinv(r.val(k))
    return And(w >= 0, before(x, x.V(w)), r.val(k) == x.V(w))


for nm in ('Iota3', 'Iota2', 'Iota'):
    spec(nm, setup=prog_setup, templates=iota_t, targs=lambda eng: {'T': INT}, opts={'wrapints': lambda k: k.startswith('frozen.Iota')},
         panics=lambda x: [('the step is zero', And(x.step == 0, x.start != x.stop))])(iota_post)


# ---------------------------------------------------------------- NewSetFromMask64
from low import BIT, LOW, bitfacts, BV


def mask_t(x):
    th = x.eng.theory(INT)
    m = x.args[0]
    bitfacts(x.eng, m)
    def t(cut, st, unchanged, ints, sls):
        out = []
        masks = [k for k in cut.changed if isinstance(cut.get(cut.entry, k), z3.ExprRef) and cut.get(cut.entry, k).sort() == BV(64)]
        for mk in masks:
            cur = lambda s2, mk=mk: cut.get(s2, mk)
            def facts(s2, jj, cur=cur):
                bitfacts(cut.eng, cur(s2))
                return All([I], lambda i: mkimp(BIT(cur(s2), i), BIT(m, i)), lambda i: [BIT(cur(s2), i)])
            out.append(('remaining bits are bits of the mask', facts))
            for key, isobj in cells(cut, st, th):
                def nd(s2, key=key):
                    c = treecell(cut, s2, cut.get(s2, key), th)
                    if c is None: raise loops.Skip()
                    return cut.eng.to_node(s2, c[0], th.et, False), c[1]
                out += [('tree well formed', lambda s2, jj, nd=nd: (lambda r: Or(r == th.nil, th.WF(r, IntVal(0))))(nd(s2)[0])),
                        ('tree count', lambda s2, jj, nd=nd: (lambda r: r[1] == th.CNT(r[0]))(nd(s2))),
                        ('tree owned', lambda s2, jj, nd=nd: th.OWN(nd(s2)[0])),
                        ('the bits done are elements', lambda s2, jj, nd=nd, cur=cur: All([I], lambda i: mkimp(And(BIT(m, i), Not(BIT(cur(s2), i))), th.HAS(nd(s2)[0], th.cls(i))), lambda i: [BIT(m, i)])),
                        ('elements are bits done', lambda s2, jj, nd=nd: All([th.K], lambda k: mkimp(th.HAS(nd(s2)[0], k), BIT(m, th.VAL(nd(s2)[0], k))), lambda k: [th.HAS(nd(s2)[0], k)]))]
        return out
    return [t]


@spec('NewSetFromMask64', templates=mask_t)
def _(x):
    r, m = x.res(), x.args[0]
    yield 'every set bit is an element', 'view', All([I], lambda i: mkimp(BIT(m, i), r.has(r.th.cls(i))), lambda i: [BIT(m, i)])
    yield 'every element is a set bit', 'view', vals(r, lambda k: BIT(m, r.val(k)))
