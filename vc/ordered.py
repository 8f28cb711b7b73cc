"""C11: ordered iteration.  container/heap is assumed to do what its documentation says for any
receiver that implements heap.Interface (Less a strict weak order); the implementations of
heap.Interface in the repository are verified (ord: units), and so is everything that uses them.

Order of a heap receiver: its own Less method, executed on two symbolic indices."""
import z3
from api import *
from iters import IUnit, alts
import seq, loops

SWO = 'less is a strict weak order'


def swo(eng, L, E):
    """the caller's less is a strict weak order (assumption of the property)"""
    return [All([E], lambda a: Not(L(a, a)), lambda a: [L(a, a)]),
            All([E, E], lambda a, b: Not(And(L(a, b), L(b, a))), lambda a, b: [(L(a, b), L(b, a))]),
            All([E, E, E], lambda a, b, c: mkimp(And(L(a, b), L(b, c)), L(a, c)), lambda a, b, c: [(L(a, b), L(b, c))]),
            All([E, E, E], lambda a, b, c: mkimp(And(Not(L(a, b)), Not(L(b, c))), Not(L(a, c))), lambda a, b, c: [(L(a, b), L(b, c))])]


# ---------------------------------------------------------------- container/heap, assumed
def heapdata(eng, st, recv):
    """the object and field holding the elements of a heap.Interface value"""
    if isinstance(recv, IV) and isinstance(recv.v, Ptr) and not recv.v.path:
        c = eng.content(st, recv.v.o)
        if isinstance(c, SV):
            sl = [i for i, f in enumerate(c.f) if isinstance(f, SL)]
            if len(sl) == 1: return recv.v.o, sl[0]
            for f in c.f:
                if isinstance(f, IV): return heapdata(eng, st, f)
    raise Unsupported('heap receiver %r' % (recv,))


def heaptag(recv):
    """identifies the order a heap was built with: the dynamic types from the receiver down"""
    t = []
    def go(v):
        t.append(tstr(v.t))
    go(recv)
    return IntVal(abs(hash_str('|'.join(t))))


def hash_str(x):
    h = 7
    for c in x: h = (h * 31 + ord(c)) % 1000003
    return h


def HEAP(A): return Function('HEAP_' + str(A.sort().range()), A.sort(), I, I, B)


def order(eng, st, recv, n):
    """(i,j) -> Less(i,j) of the receiver in state st, by executing it"""
    i, j = eng.fresh('hi', I), eng.fresh('hj', I)
    x = st.copy()
    x.guard = mkand(st.guard, 0 <= i, i < n, 0 <= j, j < n)
    t = eng.invoke(x, recv, None or {'k': 'iface', 'm': []}, 'Less', [i, j], None, '', None)
    if not isinstance(t, z3.ExprRef): raise Unsupported('Less is not an expression')
    return lambda p, q: z3.substitute(t, (i, p), (j, q))


def permuted(eng, guard, a1, n1, src, keep=None):
    """a1[0..n1) holds src(0..n1 positions) in some order: a1[i] = src(pi(i)), pi a bijection onto the
    positions satisfying keep"""
    k = eng.fresh_n()
    PI, RHO = Function('perm!%d' % k, I, I), Function('perminv!%d' % k, I, I)
    dom = keep or (lambda p: And(0 <= p, p < n1))
    eng.fact(All([I], lambda i: mkimp(And(0 <= i, i < n1), And(dom(PI(i)), RHO(PI(i)) == i, Select(a1, i) == src(PI(i)))), lambda i: [Select(a1, i)]), guard)
    eng.fact(All([I], lambda p: mkimp(dom(p), And(0 <= RHO(p), RHO(p) < n1, PI(RHO(p)) == p, Select(a1, RHO(p)) == src(p))), lambda p: [src(p)] if not z3.is_app_of(src(p), z3.Z3_OP_ITE) else [src(p).arg(2)]), guard)
    return PI, RHO


class CHeap(Contract):
    def data(s, eng, st, h, pos):
        o, f = heapdata(eng, st, h)
        c = eng.content(st, o)
        sl = c.f[f]
        et = sl.back.typ['e'] if sl.back is not None else s.etof(eng, o, f)
        if not eng.writable(o): eng.oblige('frame: %s changes an object it does not own' % s.name, 'frame', st.guard, FALSE, pos)
        if sl.back is not None and not eng.writable(sl.back): eng.oblige('frame: %s writes a slice it does not own' % s.name, 'frame', st.guard, FALSE, pos)
        a, n = eng.slice_arr(st, sl, et)
        return o, f, et, sl, a, n
    def etof(s, eng, o, f):
        return eng.prog.under(o.typ)['f'][f]['t']['e']
    def put(s, eng, st, o, f, et, n1, h):
        ta = eng.theory_arr(et)
        a1 = eng.fresh('heap', ta.Arr)
        b = eng.alloc(st, {'k': 'backing', 'e': et}, a1, 'heap')
        cp = eng.fresh('heapcap', I)
        eng.fact(cp >= n1)
        c = eng.content(st, o)
        if c.f[f].back is not None: c.f[f].back.stale = True
        st.heap[o] = c.set(f, SL(b, IntVal(0), n1, cp))
        eng.fact(HEAP(a1)(a1, n1, heaptag(h)), st.guard)
        return a1
    def isheap(s, eng, st, a, n, h, pos):
        eng.oblige('precondition of %s: the receiver is a heap' % s.name, 'pre', st.guard, Or(n <= 1, HEAP(a)(a, n, heaptag(h))), pos)


class CPush(CHeap):
    name = 'heap.Push'; key = 'container/heap.Push'
    def call(s, eng, st, args, targs, pos, fr):
        h, x = args
        o, f, et, sl, a, n = s.data(eng, st, h, pos)
        s.isheap(eng, st, a, n, h, pos)
        xv = eng.box(et, x.v if isinstance(x, IV) and tstr(x.t) == tstr(et) else x)
        if xv.sort() != eng.boxsort(et): raise Unsupported('heap.Push of another type')
        n1 = simp(n + 1)
        a1 = s.put(eng, st, o, f, et, n1, h)
        permuted(eng, st.guard, a1, n1, lambda p: If(p == n, xv, Select(a, p)))
        # the position of the new element
        eng.fact(Ex([I], lambda i: And(0 <= i, i < n1, Select(a1, i) == xv)), st.guard)
        return ()


class CPop(CHeap):
    name = 'heap.Pop'; key = 'container/heap.Pop'
    def call(s, eng, st, args, targs, pos, fr):
        h = args[0]
        o, f, et, sl, a, n = s.data(eng, st, h, pos)
        s.isheap(eng, st, a, n, h, pos)
        eng.oblige('precondition of heap.Pop: not empty', 'safe', st.guard, n >= 1, pos)
        less = order(eng, st, h, n)
        q = eng.fresh('minpos', I)
        eng.fact(And(0 <= q, q < n), st.guard)
        eng.fact(All([I], lambda p: mkimp(And(0 <= p, p < n), Not(less(p, q))), lambda p: [Select(a, p)]), st.guard)
        n1 = simp(n - 1)
        a1 = s.put(eng, st, o, f, et, n1, h)
        permuted(eng, st.guard, a1, n1, lambda p: Select(a, p), lambda p: And(0 <= p, p < n, p != q))
        return IV(et, eng.unbox(et, Select(a, q)))


class CInit(CHeap):
    name = 'heap.Init'; key = 'container/heap.Init'
    def call(s, eng, st, args, targs, pos, fr):
        h = args[0]
        o, f, et, sl, a, n = s.data(eng, st, h, pos)
        a1 = s.put(eng, st, o, f, et, n, h)
        permuted(eng, st.guard, a1, n, lambda p: Select(a, p), lambda p: And(0 <= p, p < n))
        return ()


HEAPS = [CPush, CPop, CInit]


# ---------------------------------------------------------------- the ordered iterator, for callers
class OrdV:
    """iterator yielding the elements held by the ghost object o (array, number, current) in order"""
    def __init__(s, et, o, L): s.et, s.o, s.L = et, o, L
    def __repr__(s): return 'OrdV'


def ordcall(eng, st, it, method, pos):
    """contract of the ordered iterator's Next and Value (verified by the ord:reverseOrdered units)"""
    a, n, v, ok = eng.content(st, it.o).f
    th = eng.theory(it.et)
    if method == 'Value':
        eng.oblige('Iterator.Value is called only after Next returned true', 'safe', st.guard, ok, pos)
        return eng.unbox(it.et, v)
    if method != 'Next': raise Unsupported('iterator method ' + method)
    more = n >= 1
    q = eng.fresh('minpos', I)
    g = mkand(st.guard, more)
    eng.fact(And(0 <= q, q < n), g)
    eng.fact(All([I], lambda p: mkimp(And(0 <= p, p < n), Not(it.L(Select(a, p), Select(a, q)))), lambda p: [Select(a, p)]), g)
    a1 = eng.fresh('rest', th.A)
    n1 = simp(n - 1)
    permuted(eng, g, a1, n1, lambda p: Select(a, p), lambda p: And(0 <= p, p < n, p != q))
    st.heap[it.o] = SV([mkif(more, a1, a), mkif(more, n1, n), mkif(more, Select(a, q), v), more])
    return more


def first_n(eng, th, root, L, a, n, N):
    """a[0..n) are the first N (at most) of the elements of root: distinct elements, and no omitted
    element is less than one of them"""
    e = lambda p: th.elem(root, p)
    yield 'as many as asked for and available', n == N
    yield 'they are elements, each once', All([I], lambda i: mkimp(And(0 <= i, i < n), And(th.HAS(root, th.cls(Select(a, i))), th.VAL(root, th.cls(Select(a, i))) == Select(a, i))), lambda i: [Select(a, i)])
    yield 'no two are equal', th.DIST(a, n)
    yield 'no omitted element is less than one of them', All([th.K, I], lambda k, i: mkimp(And(th.HAS(root, k), Not(th.INARR(a, n, k)), 0 <= i, i < n), Not(L(th.VAL(root, k), Select(a, i)))), lambda k, i: [(th.HAS(root, k), Select(a, i))])
    yield 'when all are asked for none is omitted', All([th.K], lambda k: mkimp(And(N >= th.CNT(root), th.HAS(root, k)), th.INARR(a, n, k)), lambda k: [th.HAS(root, k)])


class COrderedIterator(Contract):
    name = 'Tree.OrderedIterator'; key = 'tree.(Tree).OrderedIterator'
    def call(s, eng, st, args, targs, pos, fr):
        et = targs[0]
        th = eng.theory(et)
        th.use_arrays(); th.use_seq()
        n = eng.to_node(st, args[0].f[0], et, False)
        eng.oblige('precondition of Tree.OrderedIterator: tree well formed', 'pre', st.guard, And(Or(n == th.nil, th.WF(n, IntVal(0))), args[0].f[1] == th.CNT(n)), pos)
        L = lessfn(eng, args[1], et)
        a, ln = eng.fresh('ord', th.A), eng.fresh('ordn', I)
        N = If(Or(args[2] < 0, args[2] > th.CNT(n)), th.CNT(n), args[2])
        for nm, f in first_n(eng, th, n, L, a, ln, N): eng.fact(f, st.guard)
        o = eng.alloc(st, {'k': 'ordit', 'e': et}, SV([a, ln, eng.fresh('cur', th.E), FALSE]), 'ordit')
        return OrdV(et, o, L)


def lessfn(eng, f, et):
    """the comparison callback as a function of boxed elements"""
    def L(a, b): return eng.pure_call(FS(TRUE, {}, {}, {}, None), f, [eng.unbox(et, a), eng.unbox(et, b)])
    return L


API_CONTRACTS += HEAPS + [COrderedIterator]


def invoke_ord(eng, st, recv, rt, method, args, fr, pos, resT):
    if isinstance(recv, OrdV): return ordcall(eng, st, recv, method, pos)
    return NotImplemented


INVOKES.append(invoke_ord)


# ---------------------------------------------------------------- units: implementations of heap.Interface
TPE = T.TP
ORD = {'k': 'named', 'n': 'tree.ordered', 'a': [TPE]}
REV = {'k': 'named', 'n': 'tree.reverseOrdered', 'a': [TPE]}
LESST = {'k': 'func', 'p': {'k': 'tuple', 'e': [TPE, TPE]}, 'r': {'k': 'tuple', 'e': [{'k': 'basic', 'n': 'bool'}]}}


def fieldvals(eng, t, **by):
    """struct value of named type t with the given kinds of fields"""
    out = []
    for f in eng.prog.under(t)['f']:
        ft = f['t']
        u = eng.prog.under(ft) if ft['k'] == 'named' else ft
        k = u['k']
        if k == 'func': out.append(by['less'])
        elif k == 'slice': out.append(by['elements'])
        elif k == 'iface': out.append(by['inner'])
        elif eng.zsort(ft) is not None or k == 'tp': out.append(by['val'])
        else: raise Unsupported('field %s of %s' % (f['n'], tstr(t)))
    return SV(out)


class OrdUnit(IUnit):
    def __init__(s, m, rev=False):
        k = 'reverseOrdered' if rev else 'ordered'
        super().__init__('ord:%s.%s' % (k, m), 'tree.(*%s).%s' % (k, m)); s.m, s.rev = m, rev
    def setup(s, eng, st, fn):
        th = s.th = eng.theory(TPE)
        th.use_arrays()
        s.less = eng.symfunc(LESST, 'less')
        s.L = lessfn(eng, s.less, TPE)
        s.sl = eng.symslice(TPE, 'elements')
        s.sl.back.owned = True
        s.a, s.n = s.sl.back.init, s.sl.len
        s.val = eng.fresh('val', th.E)
        s.o = Obj(ORD, 'o', fresh=False, owned=True)
        s.o.init = fieldvals(eng, ORD, less=s.less, elements=s.sl, val=s.val)
        p = Ptr(s.o)
        if s.rev:
            s.r = Obj(REV, 'r', fresh=False, owned=True)
            s.r.init = fieldvals(eng, REV, inner=IV({'k': 'ptr', 'e': ORD}, p), val=s.val)
            p = Ptr(s.r)
            if s.m == 'Next': eng.fact(Or(s.n <= 1, HEAP(s.a)(s.a, s.n, heaptag(IV({'k': 'ptr', 'e': REV}, p)))))
        s.i, s.j = eng.fresh('i', I), eng.fresh('j', I)
        for x in s.i, s.j: eng.fact(And(0 <= x, x < s.n))
        s.x = eng.fresh('x', th.E)
        if s.m == 'Pop': eng.fact(s.n >= 1)
        return [p] + {'Less': [s.i, s.j], 'Swap': [s.i, s.j], 'Push': [IV(TPE, s.x)]}.get(s.m, [])
    def now(s, eng, st):
        c = eng.content(st, s.o)
        sl = [f for f in c.f if isinstance(f, SL)][0]
        a, n = eng.slice_arr(st, sl, TPE)
        val = [f for f in c.f if isinstance(f, z3.ExprRef)]
        return a, n, c
    def post(s, eng, st, xs):
        th = s.th
        a, n, c = s.now(eng, st)
        if s.m in ('Len', 'Less') or (s.m == 'Value'):
            yield 'changes nothing', 'frame', And(n == s.n, a == s.a)
        if s.m == 'Len': yield 'the number of elements', 'view', xs[0] == s.n
        if s.m == 'Less':
            x, y = Select(s.a, s.i), Select(s.a, s.j)
            yield 'the order of the elements' + (' (least first)' if s.rev else ' (greatest first)'), 'view', xs[0] == (s.L(x, y) if s.rev else s.L(y, x))
        if s.m == 'Swap':
            yield 'same number', 'view', n == s.n
            yield 'exchanges the two elements', 'view', All([I], lambda p: mkimp(And(0 <= p, p < s.n), Select(a, p) == If(p == s.i, Select(s.a, s.j), If(p == s.j, Select(s.a, s.i), Select(s.a, p)))), lambda p: [Select(a, p)])
        if s.m == 'Push':
            yield 'one more', 'view', n == s.n + 1
            yield 'at the end', 'view', Select(a, s.n) == s.x
            yield 'the others stay', 'view', All([I], lambda p: mkimp(And(0 <= p, p < s.n), Select(a, p) == Select(s.a, p)), lambda p: [Select(a, p)])
        if s.m == 'Pop':
            yield 'one less', 'view', n == s.n - 1
            r = xs[0]
            yield 'returns the last', 'view', (eng.box(TPE, r.v) if isinstance(r, IV) and tstr(r.t) == tstr(TPE) else eng.fresh('?', th.E)) == Select(s.a, s.n - 1)
            yield 'the others stay', 'view', All([I], lambda p: mkimp(And(0 <= p, p < s.n - 1), Select(a, p) == Select(s.a, p)), lambda p: [Select(a, p)])
        if s.rev and s.m in ('Next', 'Value'):
            rc = eng.content(st, s.r)
            v = [f for f in rc.f if isinstance(f, z3.ExprRef)][0]
            inner = [f for f in rc.f if isinstance(f, IV)]
            yield 'keeps its heap', 'view', BoolVal(len(inner) == 1 and isinstance(inner[0].v, Ptr) and inner[0].v.o is s.o)
            if s.m == 'Value':
                yield 'the current element', 'view', And(eng.box(TPE, xs[0]) == v, v == s.val)
                return
            yield 'true exactly while elements remain', 'view', xs[0] == (s.n >= 1)
            q = eng.fresh('q', I)
            yield 'when exhausted nothing changes', 'view', mkimp(s.n < 1, And(n == s.n))
            yield 'one less remains', 'view', mkimp(s.n >= 1, n == s.n - 1)
            yield 'none that remains or was yielded is less than the element yielded', 'view', All([I], lambda p: mkimp(And(s.n >= 1, 0 <= p, p < s.n), Not(s.L(Select(s.a, p), v))), lambda p: [Select(s.a, p)])
            yield 'it is one of the elements', 'view', mkimp(s.n >= 1, Ex([I], lambda p: And(0 <= p, p < s.n, Select(s.a, p) == v, s.others(a, n, p))).goal(eng)) if False else mkimp(s.n >= 1, s.exactly(eng, a, n, v))
            yield 'still a heap', 'view', Or(n <= 1, HEAP(a)(a, n, heaptag(IV({'k': 'ptr', 'e': REV}, Ptr(s.r)))))
    def exactly(s, eng, a, n, v):
        """with distinct elements: the yielded one and the remaining ones are the old ones"""
        th = s.th
        L = []
        inn = lambda X, m, e: th.INARR(X, m, th.cls(e))
        f = All([I], lambda p: mkimp(And(th.DIST(s.a, s.n), 0 <= p, p < n), And(th.INARR(s.a, s.n, th.cls(Select(a, p))), Select(s.a, th.apos(s.a, s.n, th.cls(Select(a, p)))) == Select(a, p), th.cls(Select(a, p)) != th.cls(v))), lambda p: [Select(a, p)]).goal(eng)
        g = All([I], lambda p: mkimp(And(th.DIST(s.a, s.n), 0 <= p, p < s.n), Or(th.cls(Select(s.a, p)) == th.cls(v), th.INARR(a, n, th.cls(Select(s.a, p))))), lambda p: [Select(s.a, p)]).goal(eng)
        h = mkimp(th.DIST(s.a, s.n), And(th.DIST(a, n), th.INARR(s.a, s.n, th.cls(v)), Select(s.a, th.apos(s.a, s.n, th.cls(v))) == v))
        return And(f, g, h)


class ReverseO(IUnit):
    def __init__(s): super().__init__('ord:reverseO', 'tree.reverseO')
    def tenv(s, eng): return {'T': TPE}
    def setup(s, eng, st, fn):
        s.o = Obj(ORD, 'o', fresh=False, owned=True)
        s.v = IV({'k': 'ptr', 'e': ORD}, Ptr(s.o))
        return [s.v]
    def post(s, eng, st, xs):
        r = xs[0]
        ok = isinstance(r, IV) and tstr(r.t) == tstr({'k': 'ptr', 'e': REV}) and any(f is s.v for f in eng.content(st, r.v.o).f)
        yield 'a reversed view of the same heap', 'view', BoolVal(ok)


class OrderedIteratorUnit(IUnit):
    def __init__(s): super().__init__('ord:Tree.OrderedIterator', 'tree.(Tree).OrderedIterator')
    def contracts(s):
        import api
        return {k: c for k, c in api.contracts().items() if k != s.key}
    def setup(s, eng, st, fn):
        th = s.th = eng.theory(TPE)
        th.use_seq(); th.use_arrays()
        s.root, s.count = eng.fresh('root', th.Node), eng.fresh('count', I)
        eng.fact(And(Or(s.root == th.nil, th.WF(s.root, IntVal(0))), s.count == th.CNT(s.root)))
        s.less = eng.symfunc(LESST, 'less')
        s.L = lessfn(eng, s.less, TPE)
        for f in swo(eng, s.L, th.E): eng.fact(f)
        s.k = eng.fresh('n', I)
        s.N = If(Or(s.k < 0, s.k > s.count), s.count, s.k)
        eng.loop_templates = [s.template, seq.iter_template]
        return [SV([s.root, s.count]), s.less, s.k]
    def template(s, cut, st, unchanged, ints, sls):
        th, eng, N, root, L = s.th, cut.eng, s.N, s.root, s.L
        out = []
        tag = heaptag(IV({'k': 'ptr', 'e': ORD}, None))
        for sc in sls:
            def ab(x, sc=sc): return cut.arrlen(x, sc, TPE)
            def mk(f, ab=ab): return lambda x, jj: f(*ab(x), jj)
            e = lambda p: th.elem(root, p)
            out += [('heap', mk(lambda a, n, jj: Or(n <= 1, HEAP(a)(a, n, tag)))),
                    ('number', mk(lambda a, n, jj: n == If(jj <= N, jj, N))),
                    ('distinct', mk(lambda a, n, jj: th.DIST(a, n))),
                    ('elements seen', mk(lambda a, n, jj: All([I], lambda i: mkimp(And(0 <= i, i < n), And(th.HAS(root, th.cls(Select(a, i))), th.VAL(root, th.cls(Select(a, i))) == Select(a, i),
                        th.epos(root, th.cls(Select(a, i))) < jj)), lambda i: [Select(a, i)]))),
                    ('~none omitted early', mk(lambda a, n, jj: All([I], lambda p: mkimp(And(0 <= p, p < jj, jj <= N), th.INARR(a, n, th.cls(e(p)))), lambda p: [e(p)]))),
                    ('~omitted are not less', mk(lambda a, n, jj: All([I, I], lambda p, i: mkimp(And(0 <= p, p < jj, 0 <= i, i < n), Or(th.INARR(a, n, th.cls(e(p))), Not(L(e(p), Select(a, i))))), lambda p, i: [(e(p), Select(a, i))])))]
        return out
    def post(s, eng, st, xs):
        th = s.th
        for g, r in alts(xs[0]):
            if isinstance(r, IV) and tstr(r.t).startswith('tree.empty'):
                yield 'empty iterator only when nothing is asked for', 'view', mkimp(g, s.N == 0); continue
            ok = isinstance(r, IV) and tstr(r.t) == tstr({'k': 'ptr', 'e': REV})
            yield 'an ordered iterator', 'view', mkimp(g, BoolVal(ok))
            if not ok: continue
            o, f = heapdata(eng, st, r)
            a, n = eng.slice_arr(st, eng.content(st, o).f[f], TPE)
            yield 'a heap in ascending order', 'view', mkimp(g, Or(n <= 1, HEAP(a)(a, n, heaptag(r))))
            lf = [x for x in eng.content(st, o).f if x is s.less]
            yield 'ordered by less', 'view', mkimp(g, BoolVal(bool(lf)))
            for nm, f in first_n(eng, th, s.root, s.L, a, n, s.N): yield nm, 'view', guarded(g, f)


UNITS = {}
for _m in ('Len', 'Less', 'Swap', 'Push', 'Pop'): UNITS['ord:ordered.' + _m] = lambda m=_m: OrdUnit(m)
for _m in ('Next', 'Value', 'Less'): UNITS['ord:reverseOrdered.' + _m] = lambda m=_m: OrdUnit(m, True)
UNITS['ord:reverseO'] = ReverseO
UNITS['ord:Tree.OrderedIterator'] = OrderedIteratorUnit


def register(REG): REG.update(UNITS)
