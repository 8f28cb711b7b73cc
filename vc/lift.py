"""Closures as functions.  A closure passed to an operation whose specification is used at the
call site is executed once, on arbitrary well-formed arguments z; its obligations are checked
for that z, and what is known of its result is generalised: every symbol introduced while
executing it becomes a function of z, so that  forall z. well-formed(z) => facts(z)  and
result(z) = F(z)."""
import re
import z3
from engine import *

NUM = re.compile(r'!(\d+)')


def num(name):
    m = NUM.findall(name)
    return int(m[-1]) if m else -1


class Rebuild:
    """replaces the symbols numbered n0 and above (and the z0s) by functions of zs"""
    def __init__(s, n0, z0s, zs):
        s.n0, s.zs = n0, zs
        s.sub = {z.get_id(): v for z, v in zip(z0s, zs)}
        s.keep = list(z0s)
        s.memo, s.decls, s.hit, s.skip = {}, {}, False, set()
    def decl(s, d):
        k = d.get_id()
        if k not in s.decls:
            doms = [z.sort() for z in s.zs] + [d.domain(i) for i in range(d.arity())]
            s.decls[k] = (Function(d.name() + '^', *doms, d.range()), d)
        return s.decls[k][0]
    def __call__(s, t):
        k = t.get_id()
        if k in s.sub: return s.sub[k]
        if k in s.memo: return s.memo[k][0]
        if z3.is_quantifier(t):
            vs = [Const('%s~%d' % (t.var_name(i), k), t.var_sort(i)) for i in range(t.num_vars())]
            rv = list(reversed(vs))
            body = s(z3.substitute_vars(t.body(), *rv))
            if t.is_lambda(): r = z3.Lambda(vs, body)
            else:
                ps = []
                for i in range(t.num_patterns()):
                    ts = [s(z3.substitute_vars(c, *rv)) for c in t.pattern(i).children()]
                    ps.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
                q = ForAll if t.is_forall() else z3.Exists
                r = q(vs, body, patterns=ps) if ps else q(vs, body)
        elif z3.is_app(t):
            a = [s(c) for c in t.children()]
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and num(d.name()) >= s.n0 and d.get_id() not in s.skip:
                s.hit = True
                r = s.decl(d)(*s.zs, *a)
            elif a: r = d(*a)
            else: r = t
        else: r = t
        s.memo[k] = (r, t)
        return r


def mentions(t, n0, z0s):
    ids = {z.get_id() for z in z0s}
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.get_id() in ids: return True
        if z3.is_quantifier(x): st.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and num(x.decl().name()) >= n0: return True
            st += x.children()
    return False


def lift(eng, st, f, ptypes, rtypes, mkarg, name='fn', dom0=None):
    """Functions F_i with F_i(z) the boxed i-th result of the closure f on boxed arguments z"""
    z0s = []
    dom = []
    st = st.copy()
    args = []
    for p in ptypes:
        facts = []
        v = mkarg(eng, st, p, 'z', facts)
        eng.cur = st
        z = eng.box(p, v)
        # an arbitrary boxed value: the components of v are its parts
        z0 = eng.fresh('z', z.sort())
        z0s.append(z0)
        args.append(eng.unbox(p, z0))
        if facts and not z3.is_const(z):
            pairs = []
            leaves(eng, p, v, eng.unbox(p, z0), pairs)
            dom += [z3.substitute(g if isinstance(g, z3.ExprRef) else g.assume(eng), *pairs) for g in facts]
    n0 = eng.fresh_n()
    start = len(eng.facts)
    if dom0: dom.append(dom0(z0s))
    D = mkand(*dom) if dom else TRUE
    outer = st.guard        # the path to the call, and what is known of the arguments of the closures around this one
    st.guard = mkand(outer, D)
    heap0 = dict(st.heap)
    r = eng.callfn(st, f, args, None, '')
    for o, v in heap0.items():
        if o in st.heap and st.heap[o] is not v: raise Unsupported('callback changes captured state')
    rs = r if isinstance(r, tuple) else (r,)
    eng.cur = st
    zr = [eng.box(t, v) for t, v in zip(rtypes, rs)]
    for t, v in zip(rtypes, rs):
        import api
        if api.tree_elem(eng, t) is not None:
            w = api.TV(eng, st, v, api.tree_elem(eng, t))
            eng.oblige('result of the callback is well formed', 'wf', mkand(outer, D), w.ok())
    new = eng.facts[start:]
    del eng.facts[start:]
    if eng.nsolver > start: eng.solver = None; eng.nsolver = 0
    zs = [Const('zz%d_%d' % (eng.fresh_n(), i), z.sort()) for i, z in enumerate(z0s)]
    R = Rebuild(n0, z0s, zs)
    Fs = [Function('%s!%d_%d' % (name, eng.fresh_n(), i), *[z.sort() for z in zs], z.sort()) for i, z in enumerate(zr)]
    pat = [F(*zs) for F in Fs]
    R.skip = {F.get_id() for F in Fs}
    for F, z in zip(Fs, zr): new.append(mkimp(D, F(*z0s) == z))
    # it returned: its loops ended (partial correctness; that nothing panics is an obligation)
    if not eng.opts.get('may_panic') and not st.guard.eq(mkand(outer, D)): new.append(mkimp(mkand(outer, D), st.guard))
    for g in new:
        if not mentions(g, n0, z0s): eng.axiom(g); continue
        eng.axiom(ForAll(zs, R(g), patterns=pat))
    return Fs


def leaves(eng, t, a, b, out):
    if isinstance(a, z3.ExprRef): out.append((a, b))
    elif isinstance(a, SV):
        for x, y in zip(a.f, b.f): leaves(eng, t, x, y, out)
    else: raise Unsupported('argument of a callback')
