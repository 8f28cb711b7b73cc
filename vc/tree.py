"""Contracts of internal/pkg/tree nodes."""
import z3
from z3 import And, Or, Not, If, IntVal, Int, Const, Function, IntSort, BoolSort, BoolVal, Select
from engine import *
from theory import maskbit, bit
from contracts import *

I = IntSort()
KINDNAME = {1: 'leaf1', 2: 'leaf2', 3: 'twig', 4: 'branch'}
TP = {'k': 'tp', 'n': 'T'}


def depth_of(eng, th, h, k, st, given=None):
    """ghost depth of a hasher value"""
    if z3.is_app(h) and h.decl().eq(th.HS): return h.arg(1)
    if given is not None: return given
    for cand in ([eng.ghostd + 1, eng.ghostd] if eng.ghostd is not None else []) + [IntVal(0)]:
        if eng.valid(st.guard, h == th.HS(k, cand)): return cand
    return (eng.ghostd + 1) if eng.ghostd is not None else IntVal(0)


def argsobj(eng, st, p):
    """(E, F) of a *CombineArgs / *EqArgs / *WhereArgs pointer value"""
    def fld(p, name):
        if isinstance(p, Union): raise Unsupported('merged args')
        if not isinstance(p, Ptr): raise Unsupported('args %r' % (p,))
        t = p.o.typ
        u = eng.prog.under(t)
        v = eng.getpath(eng.content(st, p.o), p.path, st, st.guard, '')
        for i, f in enumerate(u['f']):
            if f['n'] == name: return v.f[i]
        for i, f in enumerate(u['f']):
            if f.get('emb') or f['n'] in ('EqArgs', 'NodeArgs'):
                w = v.f[i]
                if isinstance(w, Ptr): return fld(w, name)
        raise Unsupported('no field ' + name)
    return fld


class NodeContract(Contract):
    """contract of an interface method of node[T]; receiver in args[0]"""
    method = None
    mutator = False
    @property
    def label(s): return 'node.' + s.method

    def bind(s, eng, st, args, targs, mode, n=None):
        c = Ctx(eng=eng, st=st, mode=mode, args=args)
        recv = args[0]
        et = targs[0] if targs else TP
        c.et = et
        c.th = eng.theory(et)
        c.n = n if n is not None else eng.to_node(st, recv, et, mode == 'call' and s.method not in ('Get', 'AppendTo', 'Empty'))
        c.recv = recv
        s.bindargs(c, args[1:])
        return c

    def call(s, eng, st, args, targs, pos, fr):
        v = super().call(eng, st, args, targs, pos, fr)
        if s.mutator:
            # the receiver's memory now belongs to the result: the old reference must not be used again
            r = args[0]
            if isinstance(r, z3.ExprRef) and r.get_id() in eng.prov:
                p = eng.prov[r.get_id()][1]
                if eng.writable(p.o):
                    cur = eng.content(st, p.o)
                    st.heap[p.o] = eng.setpath(cur, p.path, eng.fresh('consumed', r.sort()), st)
                    st.abs.pop(p.o, None)
            elif isinstance(r, Ptr): r.o.stale = True
        return v

    def fn(s, c, p, name):
        f = argsobj(c.eng, c.st, p)(p, name)
        et = c.et
        def call(*xs):
            return c.eng.pure_call(c.st, f, [c.eng.unbox(et, x) if isinstance(x, z3.ExprRef) else x for x in xs], et if name == 'f' else None)
        return call

    def boxE(s, c, v): return c.eng.box(c.et, v)

    def wfn(s, c, r):
        return Or(r == c.th.nil, c.th.WF(r, c.d))

    def node_result(s, c, name='r'):
        return c.eng.fresh(name, c.th.Node)

    def int_result(s, c, name='m'): return c.eng.fresh(name, I)


class PointMixin:
    def pre(s, c):
        th = c.th
        r = [('depth is non-negative', c.d >= 0),
             ('receiver well formed', th.WF(c.n, c.d)),
             ('hasher belongs to the value at this depth', c.h == th.HS(c.k, c.d))]
        if s.mutator: r.append(('receiver owned', th.OWN(c.n)))
        return r + s.argpre(c)
    def argpre(s, c): return []
    def results(s, c): return (s.node_result(c), s.int_result(c))


def comb_axioms(c, E, F):
    """what a combiner must satisfy, as preconditions of With/Combine"""
    th = c.th
    def eqok(a, b): return E(a, b) == (th.cls(a) == th.cls(b))
    def fok(a, b): return mkimp(th.cls(a) == th.cls(b), th.cls(F(a, b)) == th.cls(a))
    return [('eq is key equality', All([th.E, th.E], eqok)),
            ('combiner keeps the key', All([th.E, th.E], fok))]


class CWith(PointMixin, NodeContract):
    method = 'With'
    def bindargs(s, c, a):
        c.p, c.v, c.d, c.h = a[0], s.boxE(c, a[1]), a[2], a[3]
        c.k = c.th.cls(c.v)
        c.E, c.F = s.fn(c, c.p, 'eq'), s.fn(c, c.p, 'f')
    def argpre(s, c): return comb_axioms(c, c.E, c.F)
    def newval(s, c): return If(c.th.HAS(c.n, c.k), c.F(c.th.VAL(c.n, c.k), c.v), c.v)
    def post(s, c, res):
        th, (r, m), n, k0 = c.th, res, c.n, c.k
        nv = s.newval(c)
        out = [('matches tells whether the key was present', 'count', m == If(th.HAS(n, k0), 1, 0)),
               ('count', 'count', th.CNT(r) == th.CNT(n) + 1 - m),
               ('result well formed', 'wf', th.WF(r, c.d)),
               ('membership', 'view', All([th.K], lambda k: th.HAS(r, k) == Or(k == k0, th.HAS(n, k)), lambda k: [th.HAS(r, k)])),
               ('stored elements', 'view', All([th.K], lambda k: mkimp(th.HAS(r, k), th.VAL(r, k) == mkif(k == k0, nv, th.VAL(n, k))), lambda k: [th.VAL(r, k)]))]
        if s.mutator: out.append(('result owned', 'frame', th.OWN(r)))
        if c.mode == 'call': th.point_update(r, n, k0, nv, c.st.guard)
        return out


class CWithFast(CWith):
    method = 'WithFast'
    def bindargs(s, c, a):
        c.v, c.d, c.h = s.boxE(c, a[0]), a[1], a[2]
        c.k = c.th.cls(c.v)
    def argpre(s, c): return []
    def newval(s, c): return c.v


class CAddFast(CWithFast):
    method = 'AddFast'
    mutator = True


class CAdd(CWith):
    method = 'Add'
    mutator = True


class CWithout(PointMixin, NodeContract):
    method = 'Without'
    def bindargs(s, c, a):
        c.v, c.d, c.h = s.boxE(c, a[0]), a[1], a[2]
        c.k = c.th.cls(c.v)
    def post(s, c, res):
        th, (r, m), n, k0 = c.th, res, c.n, c.k
        out = [('matches tells whether the key was present', 'count', m == If(th.HAS(n, k0), 1, 0)),
               ('count', 'count', th.CNT(r) == th.CNT(n) - m),
               ('result well formed', 'wf', s.wfn(c, r)),
               ('membership', 'view', All([th.K], lambda k: th.HAS(r, k) == And(k != k0, th.HAS(n, k)), lambda k: [th.HAS(r, k)])),
               ('stored elements', 'view', All([th.K], lambda k: mkimp(th.HAS(r, k), th.VAL(r, k) == th.VAL(n, k)), lambda k: [th.VAL(r, k)]))]
        if s.mutator: out.append(('result owned', 'frame', th.OWN(r)))
        if c.mode == 'call': th.point_update(r, n, k0, None, c.st.guard)
        return out


class CRemove(CWithout):
    method = 'Remove'
    mutator = True


class CGet(NodeContract):
    method = 'Get'
    def bindargs(s, c, a):
        c.v, c.h = s.boxE(c, a[0]), a[1]
        c.k = c.th.cls(c.v)
        c.d = depth_of(c.eng, c.th, c.h, c.k, c.st)
    def pre(s, c):
        return [('depth is non-negative', c.d >= 0), ('receiver well formed', c.th.RT(c.n, c.d)),
                ('hasher belongs to the value at this depth', c.h == c.th.HS(c.k, c.d))]
    def results(s, c): return OptRef(c.th.HAS(c.n, c.k), c.eng.unbox(c.et, c.th.VAL(c.n, c.k)))
    def post(s, c, res):
        if c.mode == 'call': return []
        nn, val = optof(c.eng, c.st, res, c.et)
        out = [('found exactly when present', 'view', nn == c.th.HAS(c.n, c.k))]
        if val is not None: out.append(('finds the stored element', 'view', mkimp(nn, val == c.th.VAL(c.n, c.k))))
        return out


def optof(eng, st, v, et):
    """(non-nil condition, boxed element) of a *T value"""
    if v is NIL: return FALSE, None
    if isinstance(v, OptRef): return v.nn, eng.box(et, v.val)
    if isinstance(v, Ptr): return TRUE, eng.box(et, eng.load(st, v, ''))
    if isinstance(v, Union):
        nn, val = [], None
        for g, x in reversed(v.alts):
            n1, v1 = optof(eng, st, x, et)
            nn.append(mkand(g, n1))
            if v1 is not None: val = v1 if val is None else mkif(g, v1, val)
        return mkor(*nn), val
    raise Unsupported('optional element %r' % (v,))


class BulkMixin:
    def pre(s, c):
        th = c.th
        return [('depth is non-negative', c.d >= 0), ('receiver well formed', th.WF(c.n, c.d)),
                ('argument well formed', th.WF(c.n2, c.d))]
    def results(s, c): return (s.node_result(c), s.int_result(c))
    def bind2(s, c, v): c.n2 = c.eng.to_node(c.st, v, c.et, False)


class CCombine(BulkMixin, NodeContract):
    method = 'Combine'
    def bindargs(s, c, a):
        c.p, c.d = a[0], a[2]
        s.bind2(c, a[1])
        c.E, c.F = s.fn(c, c.p, 'eq'), s.fn(c, c.p, 'f')
    def pre(s, c): return super().pre(c) + comb_axioms(c, c.E, c.F)
    def loop_template(s, c):
        """invariant of the loop merging the elements nd[0..j) into a copy of the receiver"""
        th = c.th
        def tmpl(cut, st, unchanged, ints, sls):
            a0, L0 = th.twarr(c.n), th.twlen(c.n)
            out = []
            for sc in sls:
                for _, nd, Ln in [(None, a, n) for _, a, n in unchanged if a.sort() == th.A]:
                    if nd.eq(a0): continue
                    AL = lambda x, sc=sc: cut.arrlen(x, sc, th.et)
                    seen = lambda k, jj, nd=nd, Ln=Ln: And(th.INARR(nd, Ln, k), th.apos(nd, Ln, k) < jj)
                    at = lambda k, nd=nd, Ln=Ln: Select(nd, th.apos(nd, Ln, k))
                    out += [
                        ('source distinct', lambda x, jj, nd=nd, Ln=Ln: th.DIST(nd, Ln)),
                        ('result distinct', lambda x, jj, AL=AL: th.DIST(*AL(x))),
                        ('own elements combined with the matching ones', lambda x, jj, AL=AL, seen=seen, at=at: (lambda R: All([I], lambda i: mkimp(And(0 <= i, i < L0),
                            Select(R[0], i) == If(seen(th.cls(Select(a0, i)), jj), c.F(Select(a0, i), at(th.cls(Select(a0, i)))), Select(a0, i))), lambda i: [Select(R[0], i), Select(a0, i)]))(AL(x))),
                        ('appended elements are new', lambda x, jj, AL=AL, seen=seen, at=at: (lambda R: All([I], lambda i: mkimp(And(L0 <= i, i < R[1]),
                            And(seen(th.cls(Select(R[0], i)), jj), Select(R[0], i) == at(th.cls(Select(R[0], i))), Not(th.INARR(a0, L0, th.cls(Select(R[0], i)))))), lambda i: [Select(R[0], i)]))(AL(x))),
                        ('processed elements are present', lambda x, jj, AL=AL, nd=nd: (lambda R: All([I], lambda p: mkimp(And(0 <= p, p < jj),
                            Or(th.INARR(a0, L0, th.cls(Select(nd, p))), th.INARR(R[0], R[1], th.cls(Select(nd, p))))), lambda p: [Select(nd, p)]))(AL(x))),
                        ('own keys are present', lambda x, jj, AL=AL: (lambda R: All([I], lambda i: mkimp(And(0 <= i, i < L0), th.INARR(R[0], R[1], th.cls(Select(a0, i)))), lambda i: [Select(a0, i)]))(AL(x))),
                        ('capacity', lambda x, jj, sc=sc, cap0=cut.cellval(cut.entry, sc).cap: cut.cellval(x, sc).cap == cap0),
                    ]
            return out
        return tmpl
    def post(s, c, res):
        th, (r, m), n, o = c.th, res, c.n, c.n2
        if c.mode == 'check' and isinstance(c.recv, z3.ExprRef) and c.kind == 3: th.sub_lemma(o, r)
        val = lambda k: If(th.HAS(n, k), If(th.HAS(o, k), c.F(th.VAL(n, k), th.VAL(o, k)), th.VAL(n, k)), th.VAL(o, k))
        return [('matches is the overlap', 'count', m == th.CNT(n) + th.CNT(o) - th.CNT(r)),
                ('at least as large as either operand', 'count', And(th.CNT(r) >= th.CNT(n), th.CNT(r) >= th.CNT(o))),
                ('result well formed', 'wf', th.WF(r, c.d)),
                ('membership', 'view', All([th.K], lambda k: th.HAS(r, k) == Or(th.HAS(n, k), th.HAS(o, k)), lambda k: [th.HAS(r, k)])),
                ('stored elements', 'view', All([th.K], lambda k: mkimp(th.HAS(r, k), th.VAL(r, k) == val(k)), lambda k: [th.VAL(r, k)]))]


class CDifference(BulkMixin, NodeContract):
    method = 'Difference'
    def bindargs(s, c, a):
        c.d = a[2]; s.bind2(c, a[1])
    def post(s, c, res):
        th, (r, m), n, o = c.th, res, c.n, c.n2
        return [('matches is the number removed', 'count', m == th.CNT(n) - th.CNT(r)),
                ('result well formed', 'wf', s.wfn(c, r)),
                ('membership', 'view', All([th.K], lambda k: th.HAS(r, k) == And(th.HAS(n, k), Not(th.HAS(o, k))), lambda k: [th.HAS(r, k)])),
                ('stored elements', 'view', All([th.K], lambda k: mkimp(th.HAS(r, k), th.VAL(r, k) == th.VAL(n, k)), lambda k: [th.VAL(r, k)]))]


class CIntersection(BulkMixin, NodeContract):
    method = 'Intersection'
    def bindargs(s, c, a):
        c.d = a[2]; s.bind2(c, a[1])
    def post(s, c, res):
        th, (r, m), n, o = c.th, res, c.n, c.n2
        return [('matches is the count', 'count', m == th.CNT(r)),
                ('result well formed', 'wf', s.wfn(c, r)),
                ('membership', 'view', All([th.K], lambda k: th.HAS(r, k) == And(th.HAS(n, k), th.HAS(o, k)), lambda k: [th.HAS(r, k)])),
                ('stored elements', 'view', All([th.K], lambda k: mkimp(th.HAS(r, k), Or(th.VAL(r, k) == th.VAL(n, k), th.VAL(r, k) == th.VAL(o, k))), lambda k: [th.VAL(r, k)]))]


class CWhere(NodeContract):
    method = 'Where'
    def bindargs(s, c, a):
        c.p, c.d = a[0], a[1]
        c.P = s.fn(c, c.p, 'Pred')
    def pre(s, c):
        return [('depth is non-negative', c.d >= 0), ('receiver well formed', c.th.WF(c.n, c.d))]
    def results(s, c): return (s.node_result(c), s.int_result(c))
    def post(s, c, res):
        th, (r, m), n = c.th, res, c.n
        return [('matches is the count', 'count', m == th.CNT(r)),
                ('result well formed', 'wf', s.wfn(c, r)),
                ('membership', 'view', All([th.K], lambda k: th.HAS(r, k) == And(th.HAS(n, k), c.P(th.VAL(n, k))), lambda k: [th.HAS(r, k)])),
                ('stored elements', 'view', All([th.K], lambda k: mkimp(th.HAS(r, k), th.VAL(r, k) == th.VAL(n, k)), lambda k: [th.VAL(r, k)]))]


class CSubsetOf(BulkMixin, NodeContract):
    method = 'SubsetOf'
    def bindargs(s, c, a):
        c.d = a[2]; s.bind2(c, a[1])
    def results(s, c): return c.eng.fresh('b', BoolSort())
    def post(s, c, r):
        th, n, o = c.th, c.n, c.n2
        body = lambda k: mkimp(th.HAS(n, k), th.HAS(o, k))
        if c.mode == 'check': th.sub_lemma(n, o)
        return [('true only for subsets', 'view', guarded(r, All([th.K], body, lambda k: [th.HAS(n, k), th.HAS(o, k)]))),
                ('false only for non-subsets', 'view', guarded(mknot(r), Ex([th.K], lambda k: Not(body(k)), lambda k: [th.HAS(n, k), th.HAS(o, k)])))]


class CEqual(BulkMixin, NodeContract):
    method = 'Equal'
    def bindargs(s, c, a):
        c.p, c.d = a[0], a[2]; s.bind2(c, a[1])
        c.E = s.fn(c, c.p, 'eq')
        if c.mode == 'check':
            th = c.th
            c.elementwise = [lambda e: And(th.HAS(c.n2, th.cls(e)), c.E(e, th.VAL(c.n2, th.cls(e))))]
    def pre(s, c):
        th = c.th
        return super().pre(c) + [('eq implies key equality', All([th.E, th.E], lambda a, b: mkimp(c.E(a, b), th.cls(a) == th.cls(b))))]
    def results(s, c): return c.eng.fresh('b', BoolSort())
    def post(s, c, r):
        th, n, o = c.th, c.n, c.n2
        body = lambda k: And(th.HAS(n, k) == th.HAS(o, k), mkimp(th.HAS(n, k), c.E(th.VAL(n, k), th.VAL(o, k))))
        if c.mode == 'check': th.sub_lemma(n, o)
        pats = lambda k: [th.HAS(n, k), th.HAS(o, k)]
        return [('true only for equal contents', 'view', guarded(r, All([th.K], body, pats))),
                ('false only for different contents', 'view', guarded(mknot(r), Ex([th.K], lambda k: Not(body(k)), pats)))]


class CCanonical(NodeContract):
    method = 'Canonical'
    def bindargs(s, c, a): c.d = a[0]
    def pre(s, c):
        th = c.th
        return [('depth is non-negative', c.d >= 0),
                ('receiver routed, leaf at any depth', mkif(th.kind(c.n) == 3,
                   Or(And(c.d >= 22, th.RT(c.n, c.d)), And(th.CNT(c.n) <= 2, th.RT(c.n, c.d))),
                   And(th.RT(c.n, c.d), th.MSK(c.n))))]
    def results(s, c): return s.node_result(c)
    def post(s, c, r):
        th, n = c.th, c.n
        return [('count', 'count', th.CNT(r) == th.CNT(n)),
                ('result well formed', 'wf', s.wfn(c, r)),
                ('an owned receiver gives an owned result', 'frame', mkimp(th.OWN(n), th.OWN(r))),
                ('membership', 'view', All([th.K], lambda k: th.HAS(r, k) == th.HAS(n, k), lambda k: [th.HAS(r, k)])),
                ('stored elements', 'view', All([th.K], lambda k: mkimp(th.HAS(r, k), th.VAL(r, k) == th.VAL(n, k)), lambda k: [th.VAL(r, k)]))]


class CEmpty(NodeContract):
    method = 'Empty'
    def bindargs(s, c, a): c.d = c.eng.ghostd
    def results(s, c): return c.eng.fresh('b', BoolSort())
    def pre(s, c): return []
    def post(s, c, r):
        return [('empty only without elements', 'view', mkimp(r, c.th.CNT(c.n) == 0)),
                ('non-empty unless twig', 'view', mkimp(c.th.CNT(c.n) == 0, Or(r, c.th.kind(c.n) == 4)))]


CONTRACTS = {}
for cl in (CWith, CWithFast, CAdd, CAddFast, CWithout, CRemove, CGet, CCombine, CDifference, CIntersection,
           CWhere, CSubsetOf, CEqual, CCanonical, CEmpty):
    CONTRACTS[cl.method] = cl


# ------------------------------------------------------------------ static helpers
class CNewHasher(Contract):
    name = 'newHasher'
    key = 'tree.newHasher'
    def call(s, eng, st, args, targs, pos, fr):
        et = targs[0] if targs else TP
        th = eng.theory(et)
        eng.oblige('precondition of newHasher: depth is non-negative', 'pre', st.guard, args[1] >= 0, pos)
        return th.HS(th.cls(eng.box(et, args[0])), simp(args[1]))


class CHash(Contract):
    name = 'hasher.hash'
    key = 'tree.(hasher).hash'
    def call(s, eng, st, args, targs, pos, fr):
        return Function('hidx', args[0].sort(), I)(args[0])


class CNext(Contract):
    name = 'hasher.next'
    key = 'tree.(hasher).next'
    def call(s, eng, st, args, targs, pos, fr):
        h = args[0]
        if z3.is_app(h) and h.decl().name().startswith('HS_'):
            return h.decl()(h.arg(0), simp(h.arg(1) + 1))   # pre: HS is only formed at non-negative depths
        return Function('hnext', h.sort(), h.sort())(h)


class CValueEqual(Contract):
    name = 'value.Equal'
    key = 'value.Equal'
    def call(s, eng, st, args, targs, pos, fr):
        et = targs[0] if targs else TP
        th = eng.theory(et)
        return th.cls(eng.box(et, args[0])) == th.cls(eng.box(et, args[1]))


class CParallel(Contract):
    """higher-order contract of Gauge.Parallel: runs f once per bit of mask, in any order or
    concurrently; f's effects must be confined to slot i, its reads disjoint from other slots"""
    name = 'Gauge.Parallel'
    key = 'depth.(Gauge).Parallel'

    def call(s, eng, st, args, targs, pos, fr):
        gauge, depth, mask, f = args
        eng.oblige('precondition of Parallel: mask within fanout', 'pre', st.guard, z3.Extract(15, 8, mask) == 0, pos)
        mbit = lambda j: eng.mbit(mask, j)
        i = eng.fresh('pi', I)
        mbit(i)
        f0 = len(eng.facts); c0 = len(eng.created)
        oid = next(Obj._n)
        gi = And(0 <= i, i < 8, mbit(i))
        st2 = st.copy(); st2.guard = mkand(st.guard, gi)
        oldpar = eng.par
        eng.par = {'acc': [], 'level': (oldpar['level'] if oldpar else 0) + 1}
        try: res = eng.callfn(st2, f, [i], fr, pos)
        finally:
            acc = eng.par['acc']; eng.par = oldpar
        okv, mv = res
        # --- data-race freedom: effects confined to slot i
        shared = [(p, w, g, ps) for p, w, g, ps in acc if p.o.id < oid]
        def slot(p):
            for n, (k, x) in enumerate(p.path):
                if k == 'i' and not isinstance(x, int) and x.eq(i): return n
            return None
        written = {}
        for p, w, g, ps in shared:
            if not w: continue
            n = slot(p)
            if n is None:
                eng.oblige('race: a concurrent branch writes to memory shared with the other branches (%s)' % p.o.name.split('!')[0],
                           'race', g, FALSE, ps)
            else: written.setdefault(p.o, set()).add(p.path[:n])
        for p, w, g, ps in shared:
            if w or p.o not in written: continue
            for pre in written[p.o]:
                q = p.path[:len(pre)]
                if len(p.path) <= len(pre):
                    clash = pathpre(p.path, pre)
                else: clash = samepath(q, pre) and not (p.path[len(pre)][0] == 'i' and not isinstance(p.path[len(pre)][1], int) and p.path[len(pre)][1].eq(i))
                if clash:
                    eng.oblige('race: a concurrent branch reads memory another branch writes (%s)' % p.o.name.split('!')[0], 'race', g, FALSE, ps)
        # --- generalise over i
        new = eng.facts[f0:]
        del eng.facts[f0:]
        if eng.nsolver > f0: eng.solver = None; eng.nsolver = 0
        created = [c for c in eng.created[c0:]]
        sk = {c: Function(str(c) + '@', I, c.sort()) for c in created}
        def inst(e, j):
            if not isinstance(e, z3.ExprRef): return e
            return z3.substitute(e, (i, j), *[(c, fn(j)) for c, fn in sk.items()])
        keep = {c.get_id() for c in created} | {i.get_id()}
        for fct in new:
            if not mentions(fct, keep): eng.facts.append(fct); continue
            g = generalise(eng, fct, inst, sk, i)
            if g is not None: eng.facts.append(g)
        # --- effects
        for o, paths in written.items():
            c = eng.content(st, o); c2 = eng.content(st2, o)
            for path in paths:
                old = eng.getpath(c, path, st, st.guard, '')
                nw = eng.getpath(c2, path, st2, st2.guard, '')
                if isinstance(nw, AV) and isinstance(old, AV) and o.typ['k'] != 'struct':
                    merged = AV([mergeslot(eng, st, mbit(IntVal(q)), x, y, lambda z, q=q: simp(inst(z, IntVal(q)))) for q, (x, y) in enumerate(zip(nw.e, old.e))])
                    c = putpath(eng, c, path, merged)
                    continue
                if not isinstance(nw, FA): raise Unsupported('concurrent writes to %r' % (nw,))
                W = simp(nw.get(i))
                g0 = old.get
                merged = FA(old.n, lambda j, W=W, g0=g0: mkif(mbit(zint(j)), inst(W, zint(j)), g0(zint(j))), old.node)
                c = putpath(eng, c, path, merged)
            st.heap[o] = c
            st.abs.pop(o, None)
        if written and not is_true(simp(okv)):
            eng.oblige('race: a step that may stop early must not write results that branches still running may change', 'race', mkand(st.guard, gi), okv, pos)
        okj = [mkimp(mbit(IntVal(j)), inst(okv, IntVal(j))) for j in range(8)]
        ok = simp(mkand(*okj)) if not is_true(simp(okv)) else TRUE
        tot = z3.Sum([mkif(mbit(IntVal(j)), inst(mv, IntVal(j)), IntVal(0)) for j in range(8)])
        if is_true(ok): return (ok, simp(tot))
        m = eng.fresh('pm', I)
        eng.fact(mkimp(ok, m == tot), st.guard)
        return (ok, m)


def mergeslot(eng, st, g, x, y, inst):
    if isinstance(x, z3.ExprRef): return mkif(g, inst(x), y)
    if isinstance(x, SV): return SV([mergeslot(eng, st, g, a, b, inst) for a, b in zip(x.f, y.f)])
    raise Unsupported('concurrent writes of %r' % (x,))


def pathpre(a, b): return samepath(a, b[:len(a)])


def samepath(a, b):
    if len(a) != len(b): return False
    for (k, x), (l, y) in zip(a, b):
        if k != l: return False
        if isinstance(x, int) and isinstance(y, int):
            if x != y: return False
        elif isinstance(x, int) or isinstance(y, int): continue      # may coincide
        elif not x.eq(y): continue
    return True


def putpath(eng, v, path, nv):
    if not path: return nv
    (k, x), rest = path[0], path[1:]
    if k == 'f': return v.set(x, putpath(eng, v.f[x], rest, nv))
    raise Unsupported('putpath')


def mentions(e, ids):
    seen = set(); stk = [e]
    while stk:
        x = stk.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.get_id() in ids: return True
        if z3.is_quantifier(x): stk.append(x.body())
        else: stk += x.children()
    return False


def minterms(e, j, bound=()):
    """smallest uninterpreted applications having j as a direct argument"""
    out, seen, stk = [], set(), [e]
    while stk:
        x = stk.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): stk.append(x.body()); continue
        if not z3.is_app(x): continue
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() and any(a.eq(j) for a in x.children()):
            if not has_var(x): out.append(x)
        stk += x.children()
    return out


def has_var(x):
    if z3.is_var(x): return True
    if z3.is_quantifier(x): return True
    return any(has_var(c) for c in x.children())


def generalise(eng, f, inst, sk, i):
    """forall j. f[i:=j, created constants := skolem functions of j], with patterns"""
    j = Int('j@')
    guards = []
    while z3.is_app(f) and f.decl().kind() == z3.Z3_OP_IMPLIES:
        guards.append(f.arg(0)); f = f.arg(1)
    vs, pats = [], []
    if z3.is_quantifier(f):
        vs = [Const('%s@%d' % (f.var_name(n), n), f.var_sort(n)) for n in range(f.num_vars())]
        rv = list(reversed(vs))
        body = z3.substitute_vars(f.body(), *rv)
        pats = [[z3.substitute_vars(c, *rv) for c in f.pattern(n).children()] for n in range(f.num_patterns())]
    else: body = f
    b2 = inst(mkimp(mkand(*guards), body), j)
    terms = minterms(b2, j)
    terms = dedup(terms)
    best = [t for t in terms if t.decl().name().endswith('@')] or [t for t in terms if not t.decl().name().startswith('MB')] or terms
    others = [t for t in terms if t.decl().name().startswith('ch_')]
    if not best: return None
    P = []
    if vs:
        for p in pats:
            q = [inst(x, j) for x in p]
            if any(mentions(x, {j.get_id()}) for x in q): P.append(q)
            else:
                for t in dedup(best[:2] + others[:1]): P.append(q + [t])
    if not vs or not P:
        if vs: return None
        P = [t for t in dedup(best[:4] + others[:2])]
    return mkforall(eng, [j] + vs, b2, P)


def dedup(ts):
    out, ids = [], set()
    for t in ts:
        if t.get_id() not in ids: ids.add(t.get_id()); out.append(t)
    return out


class CAppendTo(NodeContract):
    method = 'AppendTo'
    def bindargs(s, c, a):
        c.dest = a[0]
        c.th.use_seq()
        if c.mode == 'check': c.th.seq_unfold = True
        c.d = None
        c.len0, c.cap0 = c.dest.len, c.dest.cap
        c.nilf = simp(c.len0 + c.th.CNT(c.n) > c.cap0)
        if c.mode == 'check': c.old = c.eng.content(c.st, c.dest.back)
    def pre(s, c):
        return [('dest well formed', And(0 <= c.len0, c.len0 <= c.cap0))]
    def results(s, c):
        eng, st, th, d = c.eng, c.st, c.th, c.dest
        if isinstance(d, Union): raise Unsupported('AppendTo merged slice')
        if d.back is None:
            eng.fact(mkimp(st.guard, BoolVal(True)))
            return SL(None, IntVal(0), IntVal(0), IntVal(0), c.nilf)
        if not eng.writable(d.back):
            eng.oblige('frame: AppendTo writes memory the caller does not own', 'frame', st.guard, FALSE, '')
        if conc(d.off) != 0: raise Unsupported('AppendTo at offset')
        cnt = th.CNT(c.n)
        cur = eng.content(st, d.back)
        if isinstance(cur, AV):
            l = []
            for i, e in enumerate(cur.e):
                x = eng.fresh('buf', th.E)
                eng.fact(mkimp(And(IntVal(i) < d.len), x == eng.box(c.et, e)))
                eng.fact(mkimp(And(mknot(c.nilf), d.len <= i, IntVal(i) < d.len + cnt), x == th.elem(c.n, simp(IntVal(i) - d.len))))
                l.append(eng.unbox(c.et, x))
            st.heap[d.back] = AV(l)
        else:
            a = eng.fresh('buf', th.A)
            ln = d.len
            eng.fact(All([I], lambda j: mkimp(And(0 <= j, j < ln), Select(a, j) == Select(cur, j)), lambda j: [Select(a, j), Select(cur, j)]))
            eng.fact(All([I], lambda j: mkimp(And(mknot(c.nilf), ln <= j, j < ln + cnt), Select(a, j) == th.elem(c.n, j - ln)), lambda j: [Select(a, j)]))
            st.heap[d.back] = a
        st.abs.pop(d.back, None)
        return SL(d.back, IntVal(0), mkif(c.nilf, IntVal(0), simp(d.len + cnt)), mkif(c.nilf, IntVal(0), d.cap), c.nilf)
    def post(s, c, r):
        if c.mode == 'call': return []
        th, eng, st = c.th, c.eng, c.st
        alts = r.alts if isinstance(r, Union) else [(TRUE, r)]
        out = []
        for g, x in alts:
            nf = TRUE if x is NIL or x.back is None else x.nil
            out.append(('nil exactly when it does not fit', 'view', mkimp(g, nf == c.nilf)))
            if x is NIL or x.back is None: continue
            ok = mkand(g, mknot(nf))
            if x.back is not c.dest.back:
                out.append(('result shares dest', 'frame', mkimp(ok, FALSE))); continue
            out.append(('length grows by count', 'view', mkimp(ok, And(x.len == c.len0 + th.CNT(c.n), x.cap == c.cap0))))
            cur = eng.content(st, x.back)
            out.append(('old prefix kept', 'view', All([I], lambda j: mkimp(mkand(ok, 0 <= j, j < c.len0), Select(cur, j) == Select(c.old, j)))))
            out.append(('elements appended in order', 'view', All([I], lambda j: mkimp(mkand(ok, c.len0 <= j, j < c.len0 + th.CNT(c.n)), Select(cur, j) == th.elem(c.n, j - c.len0)))))
        return out


def slicesum(eng, st, th, sl):
    """sum of the weights of the elements of a slice"""
    if sl is NIL or sl.back is None: return z3.RealVal(0), IntVal(0)
    cur = eng.content(st, sl.back)
    if isinstance(cur, (AV, FA)):
        def w(i): return th.W(eng.box(th.et, eng.index(cur, simp(sl.off + i))))
        n = conc(sl.len)
        if n is not None: return (z3.Sum([w(i) for i in range(n)]) if n else z3.RealVal(0)), sl.len
        o = conc(sl.off)
        if o is None: raise Unsupported('sum over a slice at a symbolic offset')
        return z3.Sum([mkif(IntVal(i) < sl.len, w(i), z3.RealVal(0)) for i in range((len(cur.e) if isinstance(cur, AV) else cur.n) - o)]), sl.len
    a, l = eng.slice_arr_ro(st, sl, th.et)
    return th.SUMW(a, l), l


def reducer(eng, th):
    """an n-ary reduction: associative, commutative, never called with no elements"""
    th.use_sum()
    def call(e, st, a, pos):
        s, n = slicesum(e, st, th, a[0])
        e.oblige('the reduce function is never called with no elements', 'view', st.guard, n >= 1, pos)
        return e.unbox(th.et, th.R(s))
    return UF(call, 'reduce')


class CReduce(NodeContract):
    method = 'Reduce'
    def bindargs(s, c, a):
        c.p, c.d, c.r = a
        c.th.use_sum()
    def pre(s, c):
        th, eng = c.th, c.eng
        if c.mode == 'call':
            # the callback satisfies the reduction law: checked on an arbitrary non-empty slice
            st = c.st.copy()
            v = eng.symslice(c.et, 'elems', 1)
            r = eng.callfn(st, c.r, [v], None, '')
            eng.oblige('precondition of node.Reduce: the reduction combines exactly the elements it is given', 'pre', st.guard,
                       eng.box(c.et, r) == th.R(slicesum(eng, st, th, v)[0]), '')
        return [('depth is non-negative', c.d >= 0), ('receiver well formed', th.WF(c.n, c.d))]
    def results(s, c): return c.eng.unbox(c.et, c.th.R(c.th.MSUM(c.n)))
    def post(s, c, res):
        if c.mode == 'call': return []
        return [('combines every element exactly once', 'view', res == c.th.R(c.th.MSUM(c.n)))]


class CNewBranchFrom(Contract):
    name = 'newBranchFrom'
    key = 'tree.newBranchFrom'
    def bind(s, eng, st, args, targs, mode):
        et = targs[0] if targs else TP
        c = Ctx(eng=eng, st=st, et=et, th=eng.theory(et), d=args[0], mode=mode)
        sl = args[1]
        n = conc(sl.len)
        if n is None or not 1 <= n <= 4: raise Unsupported('newBranchFrom with symbolic length')
        a = eng.content(st, sl.back)
        c.es = [eng.box(et, eng.index(a, simp(sl.off + i))) for i in range(n)]
        c.own = eng.writable(sl.back)
        if mode == 'call': sl.back.fresh = sl.back.owned = False         # a bucket may keep it
        return c
    def pre(s, c):
        th = c.th
        return [('depth is non-negative', c.d >= 0), ('at least three elements', BoolVal(len(c.es) >= 3)), ('a bucket may keep the slice', Or(c.d < 22, BoolVal(bool(c.own)))),
                ('elements have distinct keys', And(*[th.cls(x) != th.cls(y) for i, x in enumerate(c.es) for y in c.es[:i]]))]
    def results(s, c): return c.eng.fresh('nb', c.th.Node)
    def post(s, c, r):
        th, es = c.th, c.es
        def val(k):
            v = es[-1]
            for e in reversed(es[:-1]): v = If(k == th.cls(e), e, v)
            return v
        return [('count', 'count', th.CNT(r) == len(es)), ('result well formed', 'wf', th.WF(r, c.d)),
                ('result owned', 'frame', th.OWN(r)),
                ('membership', 'view', All([th.K], lambda k: th.HAS(r, k) == Or(*[k == th.cls(e) for e in es]), lambda k: [th.HAS(r, k)])),
                ('stored elements', 'view', All([th.K], lambda k: mkimp(th.HAS(r, k), th.VAL(r, k) == val(k)), lambda k: [th.VAL(r, k)]))]


class StaticBranch(Contract):
    """static calls of (*branch).M : contract of M, with the receiver known to be a branch"""
    def __init__(s, base, inplace=False, kind4=False):
        s.base, s.inplace, s.kind4 = base, inplace, kind4
        s.method = base.method
    @property
    def label(s): return '(*branch).' + s.base.method
    def call(s, eng, st, args, targs, pos, fr):
        b = s.base
        recv = args[0]
        if s.inplace:
            if not (isinstance(recv, Ptr) and not recv.path and eng.writable(recv.o)):
                raise Unsupported('in-place call on %r' % (recv,))
            et = targs[0] if targs else TP
            n = eng.to_node(st, recv, et, False)
            c = b.bind(eng, st, args, targs, 'call', n)
            c.inplace = True
            for name, f in b.inplace_pre(c): eng.oblige('precondition of %s: %s' % (s.label, name), 'pre', st.guard, f, pos)
            r, m = b.results(c)
            th = c.th
            eng.fact(mkimp(st.guard, th.kind(r) == 4))
            th.unfold(r, 4, c.d)
            for name, tag, f in b.inplace_post(c, (r, m)): eng.fact(f, st.guard)
            st.heap[recv.o] = eng.node_fields(r, 4, et, recv.o)
            st.abs[recv.o] = r
            return (recv, m)
        v = b.call(eng, st, args, targs, pos, fr)
        if s.kind4:
            r, m = v
            et = targs[0] if targs else TP
            th = eng.theory(et)
            eng.fact(mkimp(st.guard, th.kind(r) == 4))
            return (Ptr(eng.node_obj(st, r, 4, et)), m)
        return v


class AddInplace:
    """(*branch).Add/AddFast additionally: works on partially built branches, returns the receiver"""
    def inplace_pre(s, c):
        th = c.th
        return [('depth is non-negative', c.d >= 0), ('receiver routed', th.RT(c.n, c.d)), ('receiver mask exact', th.MSK(c.n)),
                ('receiver owned', th.OWN(c.n)), ('hasher belongs to the value at this depth', c.h == th.HS(c.k, c.d))] + s.argpre(c)
    def inplace_post(s, c, res):
        th = c.th
        out = [x for x in s.post(c, res) if x[1] != 'wf']
        return out + [('result routed', 'wf', th.RT(res[0], c.d)), ('result mask exact', 'wf', th.MSK(res[0])),
                      ('well-formedness kept', 'wf', mkimp(th.WF(c.n, c.d), th.WF(res[0], c.d)))]


class CAddFastB(AddInplace, CAddFast): pass
class CAddB(AddInplace, CAdd): pass
CONTRACTS['AppendTo'] = CAppendTo
CONTRACTS['Reduce'] = CReduce


def tree_contracts():
    cs = {}
    for m, cl in CONTRACTS.items():
        cs['tree.node.' + m] = cl()
        for t in ('leaf1', 'leaf2', 'twig', 'branch'):
            cs['tree.(*%s).%s' % (t, m)] = cl()
    cs['tree.(*branch).AddFast'] = StaticBranch(CAddFastB(), inplace=True)
    cs['tree.(*branch).Add'] = StaticBranch(CAddB(), inplace=True)
    cs['tree.(*branch).with'] = StaticBranch(CWith(), kind4=True)
    for cl in (CNewHasher, CHash, CNext, CValueEqual, CParallel, CNewBranchFrom):
        cs[cl.key] = cl()
    return cs
