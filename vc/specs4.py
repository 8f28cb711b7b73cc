"""Reductions (C17)."""
from specs3 import *


def red_setup(x):
    s = x.view(0)
    s.th.use_sum()
    x.args[1] = T.reducer(x.eng, s.th)


def red_post(x):
    s, th = x.view(0), x.view(0).th
    v, ok = x.ret
    yield 'reports whether there are elements', 'view', ok == (s.CNT > 0)
    yield 'combines every element exactly once', 'view', mkimp(ok, x.eng.box(s.et, v) == th.R(th.MSUM(s.root)))


spec('Set.Reduce', setup=red_setup)(red_post)


def red2_setup(x):
    s = x.view(0)
    th = s.th
    th.use_sum()
    eng = x.eng
    # every associative, commutative operation is of this form: W embeds its carrier in the free
    # commutative monoid and R evaluates sums
    eng.fact(All([th.E], lambda e: th.R(th.W(e)) == e, lambda e: [th.W(e)]))
    x.args[1] = UF(lambda e, st, a, pos: e.unbox(th.et, th.R(th.W(e.box(th.et, a[0])) + th.W(e.box(th.et, a[1])))), 'reduce')


def red2_t(x):
    s = x.view(0)
    th, eng = s.th, x.eng
    def t(cut, st, unchanged, ints, sls):
        out = []
        srcs = []
        for k, v in list(cut.entry.env.items()):
            if isinstance(v, SL) and v.back is not None:
                try: a, n = eng.slice_arr_ro(cut.entry, SL(v.back, IntVal(0), simp(v.off + v.len), v.cap), th.et)
                except Exception: continue
                if a.sort() == th.A: srcs.append(a)
        for key in cut.changed:
            for a in srcs:
                for first in (0, 1):
                    def f(s2, jj, a=a, key=key, first=first):
                        v = cut.get(s2, key)
                        z = eng.box(th.et, v)
                        if z.sort() != th.E: raise loops.Skip()
                        jn = simp(jj + first)
                        S = th.SUMW(a, jn)
                        if not z3.is_int_value(jn):
                            p = simp(jn - 1)
                            th.sum_at(a, p)
                            # the law of the operation for the elements seen so far and the next one
                            Sp = th.SUMW(a, p)
                            eng.fact(mkimp(p >= 1, th.R(th.W(th.R(Sp)) + th.W(Select(a, p))) == th.R(Sp + th.W(Select(a, p)))))
                        elif jn.as_long() == 1: th.sum_at(a, IntVal(0))
                        return mkimp(jn >= 1, z == th.R(S))
                    out.append(('the accumulator is the combination of the elements seen', f))
        return out
    return [t]


spec('Set.Reduce2', setup=red2_setup, templates=red2_t)(red_post)
