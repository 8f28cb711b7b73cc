"""Iterators: contract of node.Iterator / Tree.Iterator, and the units verifying every implementation.

Contract view of an iterator over node n: a position pos, -1 before the first Next.  Next
advances pos and tells whether pos < CNT(n); Value requires 0 <= pos < CNT(n) and returns
elem(n, pos).  elem(n, .) is a bijection between [0, CNT(n)) and the elements (theory.use_seq,
induction steps in the lemma units)."""
import z3
from z3 import And, Or, Not, If, IntVal, Int, Const, Function, IntSort, BoolSort, BoolVal, Select
from engine import *
from contracts import *
import tree as T

I = IntSort()


class CIterator(T.NodeContract):
    method = 'Iterator'
    def bindargs(s, c, a): c.buf = a[0]
    def pre(s, c):
        th, g = c.th, c.eng.ghostd if c.eng.ghostd is not None else IntVal(0)
        ln = c.eng.length(c.st, c.buf) if c.buf is not NIL else IntVal(0)
        return [('the buffer is empty', ln == 0), ('receiver well formed', Or(th.WF(c.n, g), th.WF(c.n, g + 1)))]
    def results(s, c): return c.eng.iterv(c.st, c.et, c.n, IntVal(-1))


class CTreeIterator(Contract):
    name = 'Tree.Iterator'
    key = 'tree.(Tree).Iterator'
    def call(s, eng, st, args, targs, pos, fr):
        et = targs[0]
        n = eng.to_node(st, args[0].f[0], et, False)
        th = eng.theory(et)
        eng.oblige('precondition of Tree.Iterator: tree well formed', 'pre', st.guard, And(Or(n == th.nil, th.WF(n, IntVal(0))), args[0].f[1] == th.CNT(n)), pos)
        return eng.iterv(st, et, n, IntVal(-1))


T.CONTRACTS['Iterator'] = CIterator


def alts(v): return v.alts if isinstance(v, Union) else [(TRUE, v)]


class IUnit:
    """run one function symbolically and check the given postcondition at every return"""
    key = None
    notreached = False
    targs = {}
    def __init__(s, name, key): s.name, s.key = name, key; s.functions = [key]
    def contracts(s):
        import api
        return api.contracts()
    opts = {}
    def build(s, prog, debug=False):
        eng = Engine(prog, s.contracts(), dict(s.opts))
        eng.fname = s.key
        if debug: eng.opts['debug'] = True
        eng.ghostd = IntVal(0)
        if s.key not in prog.fns: raise Unsupported('function %s not found' % s.key)
        st = FS(TRUE, {}, {}, {}, None)
        eng.nret = 0
        args = s.setup(eng, st, prog.fns[s.key])
        st0 = st.copy()
        eng.loop_ctx = None
        def on_return(fr, st, xs):
            if fr.depth > 0 or fr.parent is not None:
                fr.returns.append((st, xs[0] if len(xs) == 1 else tuple(xs))); return
            eng.nret += 1
            for nm, tag, f in s.post(eng, st, xs):
                eng.oblige('%s: %s%s [return %d]' % (s.key, nm, s.suffix, eng.nret), tag, st.guard, f)
            fr.returns.append((st, ()))
        eng.on_return = on_return
        eng.run(s.key, args, st, s.tenv(eng), (), 0, None)
        if not eng.nret: eng.oblige('%s: returns' % s.key, 'safe', TRUE, FALSE)
        return eng
    suffix = ''
    def tenv(s, eng): return {}
    def cases(s): return [s]
    def run(s, prog, timeout, deadline):
        import units
        s.assumed, s.inlined = set(), set()
        for c in s.cases():
            eng = c.build(prog)
            s.assumed |= set(eng.callees); s.inlined |= set(eng.inlined)
            yield from units.discharge_all(eng, timeout, deadline)
            v = units.vacuity(eng, deadline)
            if v: yield v


TPE = T.TP


def wfnode(eng, kind, depth=None):
    th = eng.theory(TPE)
    th.use_seq()
    n = eng.fresh('n', th.Node)
    d = eng.fresh('d', I)
    eng.ghostd = d
    eng.fact(n != th.nil); eng.fact(th.kind(n) == kind); eng.fact(th.WF(n, d))
    return th, n, d


def mkbuf(eng, st):
    o = eng.alloc(st, {'k': 'backing', 'e': {'k': 'slice', 'e': {'k': 'named', 'n': 'tree.node', 'a': [TPE]}}}, AV([]), 'buf')
    cap = eng.fresh('bufcap', I)
    eng.fact(cap >= 0)
    return SL(o, IntVal(0), IntVal(0), cap)


def is_slice_iter(eng, st, v, th, n):
    """(condition) v is a SliceIterator over exactly the elements of n, before the first"""
    if not (isinstance(v, IV) and v.t['k'] == 'ptr' and v.t['e'].get('n') == 'iterator.SliceIterator'): return FALSE
    c = eng.content(st, v.v.o)
    sl, idx = c.f
    a, ln = eng.slice_arr(st, sl, th.et)
    return mkand(idx == -1, ln == th.CNT(n)), All([I], lambda j: mkimp(And(0 <= j, j < th.CNT(n)), Select(a, j) == th.elem(n, j)))


class LeafIter(IUnit):
    def __init__(s, kind):
        super().__init__('iter:' + T.KINDNAME[kind], 'tree.(*%s).Iterator' % T.KINDNAME[kind]); s.kind = kind
    def setup(s, eng, st, fn):
        s.th, s.n, d = wfnode(eng, s.kind)
        return [Ptr(eng.node_obj(st, s.n, s.kind, TPE)), mkbuf(eng, st)]
    def post(s, eng, st, xs):
        th, n = s.th, s.n
        r = is_slice_iter(eng, st, xs[0], th, n)
        if r is FALSE:
            yield 'returns a slice iterator', 'view', FALSE; return
        yield 'starts before the first element and has the length of the node', 'view', r[0]
        yield 'iterates over the elements of the node in order', 'view', r[1]


class SliceIter(IUnit):
    def __init__(s, m): super().__init__('iter:slice.' + m, 'iterator.(*SliceIterator).' + m); s.m = m
    def setup(s, eng, st, fn):
        eng.theory(TPE)
        s.sl = eng.symslice(TPE, 'slice')
        s.idx = eng.fresh('idx', I)
        eng.fact(s.idx >= -1)
        if s.m == 'Value': eng.fact(And(0 <= s.idx, s.idx < s.sl.len))
        s.o = Obj({'k': 'named', 'n': 'iterator.SliceIterator', 'a': [TPE]}, 'it', fresh=False, owned=True)
        s.o.init = SV([s.sl, s.idx])
        return [Ptr(s.o)]
    def post(s, eng, st, xs):
        sl, idx = eng.content(st, s.o).f
        yield 'keeps its slice', 'view', BoolVal(isinstance(sl, SL) and sl.back is s.sl.back and eng.content(st, sl.back) is s.sl.back.init)
        yield 'keeps its slice bounds', 'view', And(sl.off == s.sl.off, sl.len == s.sl.len)
        if s.m == 'Next':
            yield 'advances by one', 'view', idx == s.idx + 1
            yield 'true exactly while elements remain', 'view', xs[0] == (s.idx + 1 < s.sl.len)
        else:
            yield 'does not move', 'view', idx == s.idx
            yield 'the element at its position', 'view', eng.box(TPE, xs[0]) == Select(s.sl.back.init, s.idx)


class NewSliceIter(IUnit):
    def __init__(s): super().__init__('iter:NewSliceIterator', 'iterator.NewSliceIterator')
    def setup(s, eng, st, fn):
        eng.theory(TPE)
        s.sl = eng.symslice(TPE, 'slice')
        return [s.sl]
    def post(s, eng, st, xs):
        sl, idx = eng.content(st, xs[0].o).f
        yield 'wraps the slice', 'view', BoolVal(isinstance(sl, SL) and sl.back is s.sl.back)
        yield 'from the start', 'view', And(idx == -1, sl.off == s.sl.off, sl.len == s.sl.len)


PIT = {'k': 'named', 'n': 'tree.packerIterator', 'a': [TPE]}


def packer_parts(eng, st, o):
    """(offset into the children as int, iterator value) of a packerIterator object, or None"""
    c = eng.content(st, o)
    stack, it = c.f
    if not isinstance(stack, SL) or stack.back is None or conc(stack.off) != 0: return None
    if conc(stack.len) is None or conc(stack.len) < 1: return None
    av = eng.content(st, stack.back)
    if not isinstance(av, AV) or not av.e: return None
    return av.e[0], it


class BranchIter(IUnit):
    def __init__(s): super().__init__('iter:branch', 'tree.(*branch).Iterator')
    def setup(s, eng, st, fn):
        s.th, s.n, d = wfnode(eng, 4)
        return [Ptr(eng.node_obj(st, s.n, 4, TPE)), mkbuf(eng, st)]
    def post(s, eng, st, xs):
        th, n = s.th, s.n
        v = xs[0]
        if not (isinstance(v, IV) and v.t['k'] == 'ptr' and v.t['e'].get('n') == 'tree.packerIterator'):
            yield 'returns a packer iterator', 'view', FALSE; return
        p = packer_parts(eng, st, v.v.o)
        if p is None:
            yield 'has the children on its stack', 'view', FALSE; return
        sl, it = p
        yield 'starts with no current child', 'view', BoolVal(isinstance(it, IV) and tstr(it.t).startswith('tree.empty'))
        yield 'covers all children', 'view', And(sl.off == 0, sl.len == 8)
        c = eng.content(st, sl.back)
        for j in range(8): yield 'child %d' % j, 'view', eng.to_node(st, eng.index(c, IntVal(j)), TPE, False) == th.ch(n, IntVal(j))


class PackerIter(IUnit):
    """packerIterator.Next/Value in each of its states: c is the current child (-1 before the
    first Next, 8 when exhausted)"""
    def __init__(s, m, c=None): super().__init__('iter:packer.' + m, 'tree.(*packerIterator).' + m); s.m, s.c = m, c
    @property
    def suffix(s): return ' (current child %s)' % s.c
    def cases(s): return [PackerIter(s.m, c) for c in (range(-1, 9) if s.m == 'Next' else range(8))]
    def setup(s, eng, st, fn):
        s.th, s.n, s.d = th, n, d = wfnode(eng, 4)
        c = s.c
        br = eng.node_obj(st, n, 4, TPE)
        bk = Obj({'k': 'backing'}, 'children', fresh=False)
        bk.init = br.init.f[0].f[1]
        q = min(c + 1, 8)
        slot = SL(bk, IntVal(q), IntVal(8 - q), IntVal(8 - q))
        so = Obj({'k': 'backing', 'e': {'k': 'slice', 'e': {'k': 'named', 'n': 'tree.node', 'a': [TPE]}}}, 'stack', fresh=False, owned=True)
        so.init = AV([slot])
        cap = eng.fresh('cap', I)
        eng.fact(cap >= 1)
        if c == -1:
            it = IV({'k': 'named', 'n': 'tree.empty', 'a': [TPE]}, SV([]))
            s.pos = IntVal(-1)
        elif c < 8:
            s.pc = eng.fresh('pc', I)
            ch = th.ch(n, IntVal(c))
            eng.fact(And(ch != th.nil, 0 <= s.pc, s.pc < th.CNT(ch)))
            it = eng.iterv(st, TPE, ch, s.pc)
            s.pos = th.off(n, IntVal(c)) + s.pc
        else:
            m = eng.fresh('last', th.Node)
            s.pc = eng.fresh('pc', I)
            eng.fact(s.pc >= th.CNT(m))
            it = eng.iterv(st, TPE, m, s.pc)
            s.pos = eng.fresh('pos', I)
            eng.fact(s.pos >= th.CNT(n))
        s.o = Obj(PIT, 'it', fresh=False, owned=True)
        s.o.init = SV([SL(so, IntVal(0), IntVal(1), cap), it])
        return [Ptr(s.o)]
    def post(s, eng, st, xs):
        th, n = s.th, s.n
        p = packer_parts(eng, st, s.o)
        if p is None:
            yield 'keeps its stack', 'view', FALSE; return
        sl, it = p
        if s.m == 'Value':
            yield 'the element at the position', 'view', eng.box(TPE, xs[0]) == th.elem(n, s.pos)
            ps = [eng.content(st, x.o).f[0] if isinstance(x, IterV) else IntVal(-7) for g, x in alts(it)]
            yield 'does not move', 'view', And(sl.off == s.c + 1, *[q == s.pc for q in ps])
            return
        r = xs[0]
        yield 'true exactly while elements remain', 'view', r == (s.pos + 1 < th.CNT(n))
        qs = [conc(sl.off)] if conc(sl.off) is not None else list(range(9))
        yield 'the stack covers the children after the current one', 'view', And(0 <= sl.off, sl.off <= 8, sl.len == 8 - sl.off)
        for g, x in alts(it):
            if isinstance(x, IterV):
                pc = eng.content(st, x.o).f[0]
                for q in qs:
                    gq = mkand(g, sl.off == q)
                    good = And(x.n == th.ch(n, IntVal(q - 1)), 0 <= pc, pc < th.CNT(x.n), th.off(n, IntVal(q - 1)) + pc == s.pos + 1) if q else FALSE
                    yield 'moved to the next element', 'view', mkimp(mkand(gq, r), good)
                    yield 'an exhausted iterator stays exhausted', 'view', mkimp(mkand(gq, mknot(r)), And(BoolVal(q == 8), pc >= th.CNT(x.n)))
            else: yield 'positioned on a child', 'view', mkimp(g, FALSE)


class TreeIter(IUnit):
    def __init__(s): super().__init__('iter:Tree', 'tree.(Tree).Iterator')
    def setup(s, eng, st, fn):
        th = s.th = eng.theory(TPE)
        th.use_seq()
        s.root, s.count = eng.fresh('root', th.Node), eng.fresh('count', I)
        eng.fact(And(Or(s.root == th.nil, th.WF(s.root, IntVal(0))), s.count == th.CNT(s.root)))
        return [SV([s.root, s.count])]
    def post(s, eng, st, xs):
        th = s.th
        for g, x in alts(xs[0]):
            if isinstance(x, IV) and tstr(x.t).startswith('tree.empty'): yield 'empty iterator only for the empty tree', 'view', mkimp(g, th.CNT(s.root) == 0)
            elif isinstance(x, IterV): yield 'iterates over the root from the start', 'view', mkimp(g, And(x.n == s.root, eng.content(st, x.o).f[0] == -1))
            else: yield 'returns an iterator', 'view', mkimp(g, FALSE)


class EmptyIter(IUnit):
    def __init__(s): super().__init__('iter:empty.Next', 'tree.(empty).Next')
    def setup(s, eng, st, fn): return [SV([])]
    def post(s, eng, st, xs): yield 'no elements', 'view', mknot(xs[0])


class MapIter(IUnit):
    """MapIterator methods over an iterator of entries at an arbitrary position"""
    KT, VT = {'k': 'tp', 'n': 'K'}, {'k': 'tp', 'n': 'V'}
    def __init__(s, m): super().__init__('iter:map.' + m, 'frozen.(*MapIterator).' + m); s.m = m
    def setup(s, eng, st, fn):
        et = s.et = {'k': 'named', 'n': 'frozen.mapEntry', 'a': [s.KT, s.VT]}
        th = s.th = eng.theory(et)
        th.use_seq()
        s.n = eng.fresh('n', th.Node)
        eng.fact(Or(s.n == th.nil, th.WF(s.n, IntVal(0))))
        s.pos = eng.fresh('pos', I)
        eng.fact(s.pos >= -1)
        s.e0 = eng.fresh('current', th.E)
        s.o = Obj({'k': 'named', 'n': 'frozen.MapIterator', 'a': [s.KT, s.VT]}, 'it', fresh=False, owned=True)
        s.it = eng.iterv(st, et, s.n, s.pos)
        s.o.init = SV([s.it, eng.unbox(et, s.e0)])
        return [Ptr(s.o)]
    def post(s, eng, st, xs):
        th = s.th
        it, kv = eng.content(st, s.o).f
        kv = eng.box(s.et, kv)
        pos = eng.content(st, s.it.o).f[0]
        yield 'keeps its iterator', 'view', BoolVal(isinstance(it, IterV) and it.o is s.it.o)
        if s.m == 'Next':
            yield 'advances by one', 'view', pos == s.pos + 1
            yield 'true exactly while entries remain', 'view', xs[0] == (s.pos + 1 < th.CNT(s.n))
            yield 'the current entry is the one at the new position', 'view', mkimp(xs[0], kv == th.elem(s.n, s.pos + 1))
            return
        yield 'does not move', 'view', And(pos == s.pos, kv == s.e0)
        K, Vv = th.entry_key(s.e0), th.entry_val(s.e0)
        want = {'Key': [(s.KT, K)], 'Value': [(s.VT, Vv)], 'Entry': [(s.KT, K), (s.VT, Vv)]}[s.m]
        for x, (t, w) in zip(xs, want): yield 'the part of the current entry', 'view', eng.box(t, x) == w


def register(REG):
    for m in ('Next', 'Key', 'Value', 'Entry'): REG['iter:map.' + m] = lambda m=m: MapIter(m)
    for k in (1, 2, 3): REG['iter:' + T.KINDNAME[k]] = lambda k=k: LeafIter(k)
    for m in ('Next', 'Value'):
        REG['iter:slice.' + m] = lambda m=m: SliceIter(m)
        REG['iter:packer.' + m] = lambda m=m: PackerIter(m)
    REG['iter:branch'] = BranchIter
    REG['iter:Tree'] = TreeIter
    REG['iter:empty.Next'] = EmptyIter
    REG['iter:NewSliceIterator'] = NewSliceIter


ALL = ['iter:leaf1', 'iter:leaf2', 'iter:twig', 'iter:branch', 'iter:slice.Next', 'iter:slice.Value', 'iter:packer.Next', 'iter:packer.Value',
       'iter:Tree', 'iter:empty.Next', 'iter:NewSliceIterator', 'iter:map.Next', 'iter:map.Key', 'iter:map.Value', 'iter:map.Entry']
