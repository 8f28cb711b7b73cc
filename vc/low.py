"""Units for the low-level helpers, at machine precision (all integers are bit vectors)."""
import z3
from iters import *
from contracts import *

BV = z3.BitVecSort
bvv = z3.BitVecVal


def bitof(m, i):
    """bit i of m as a boolean, i a bit-vector int; false outside the width"""
    return mkor(*[And(i == bvv(j, i.size()), z3.Extract(j, j, m) == 1) for j in range(m.size())])


class BitUnit(IUnit):
    opts = {'intbv': True}
    def contracts(s): return {}
    def __init__(s, pkg, m):
        super().__init__('bits:%s.%s' % (pkg, m), '%s.(BitIterator).%s' % (pkg, m)); s.m = m
    def setup(s, eng, st, fn):
        s.b = eng.fresh('b', BV(64))
        a = [s.b]
        if len(fn['params']) == 2:
            s.i = eng.fresh('i', BV(64))
            eng.fact(z3.ULT(s.i, bvv(64, 64)))
            a.append(s.i)
        if s.m in ('Index', 'Next'): eng.fact(s.b != 0)
        return a
    def post(s, eng, st, xs):
        r, b = xs[0], s.b
        N = range(64)
        X = lambda v, j: z3.Extract(j, j, v) == 1
        if s.m == 'Has': yield 'true exactly when bit i is set', 'view', r == bitof(b, s.i)
        elif s.m == 'With': yield 'exactly the bits of b and bit i', 'view', And(*[X(r, j) == Or(X(b, j), s.i == j) for j in N])
        elif s.m == 'Without': yield 'exactly the bits of b except bit i', 'view', And(*[X(r, j) == And(X(b, j), s.i != j) for j in N])
        elif s.m == 'Count':
            t = bvv(0, 64)
            for j in N: t = t + z3.ZeroExt(63, z3.Extract(j, j, b))
            yield 'the number of set bits', 'view', r == t
        elif s.m == 'Index':
            yield 'the index of a set bit', 'view', And(z3.ULT(r, bvv(64, 64)), bitof(b, r))
            yield 'no lower bit is set', 'view', And(*[mkimp(z3.ULT(bvv(j, 64), r), Not(X(b, j))) for j in N])
        elif s.m == 'Next':
            low = lambda j: And(X(b, j), *[Not(X(b, i)) for i in range(j)])
            yield 'exactly the bits of b except the lowest', 'view', And(*[X(r, j) == And(X(b, j), Not(low(j))) for j in N])


class MaskerUnit(IUnit):
    """masker.Masker (the sets of child indices)"""
    opts = {'intbv': True}
    def contracts(s): return {}
    def __init__(s, m): super().__init__('bits:masker.' + m, ('masker.' if m == 'NewMasker' else 'masker.(Masker).') + m); s.m = m
    def setup(s, eng, st, fn):
        if s.m == 'NewMasker':
            s.i = eng.fresh('i', BV(64))
            eng.fact(z3.ULT(s.i, bvv(16, 64)))
            return [s.i]
        s.b = eng.fresh('b', BV(16))
        if s.m != 'SubsetOf': eng.fact(s.b != 0)
        if len(fn['params']) == 2:
            s.c = eng.fresh('c', BV(16))
            return [s.b, s.c]
        return [s.b]
    def post(s, eng, st, xs):
        r = xs[0]
        N = range(16)
        X = lambda v, j: z3.Extract(j, j, v) == 1
        if s.m == 'NewMasker':
            yield 'exactly bit i', 'view', And(*[X(r, j) == (s.i == j) for j in N]); return
        b = s.b
        low = lambda j: And(X(b, j), *[Not(X(b, i)) for i in range(j)])
        if s.m == 'First': yield 'exactly the lowest bit', 'view', And(*[X(r, j) == low(j) for j in N])
        elif s.m == 'FirstIsIn': yield 'whether the lowest bit is in the other mask', 'view', r == Or(*[And(low(j), X(s.c, j)) for j in N])
        elif s.m == 'FirstIndex': yield 'the index of the lowest bit', 'view', And(*[mkimp(low(j), r == j) for j in N])
        elif s.m == 'Next': yield 'exactly the bits except the lowest', 'view', And(*[X(r, j) == And(X(b, j), Not(low(j))) for j in N])
        elif s.m == 'SubsetOf': yield 'whether every bit is in the other mask', 'view', r == And(*[mkimp(X(b, j), X(s.c, j)) for j in N])


class HasherUnit(IUnit):
    """hasher: a left-aligned window onto hash.Any(key, 0), three bits at a time, at machine precision.
    The trie theory's abstract hasher HS(k, d) is Hany(k) << 3d, hidx its top three bits."""
    opts = {'intbv': True, 'hasherbv': True}
    def contracts(s): return {}
    def __init__(s, m): super().__init__('bits:hasher.' + m, 'tree.newHasher' if m == 'newHasher' else 'tree.(hasher).' + m); s.m = m
    def tenv(s, eng): return {}
    def setup(s, eng, st, fn):
        s.d = eng.fresh('d', BV(64))
        eng.fact(z3.ULE(s.d, bvv(22, 64)))
        if s.m == 'newHasher':
            s.k = eng.symval(TPE, 'key')
            return [s.k, s.d]
        s.H = eng.fresh('H', BV(64))
        return [s.H << (3 * s.d)]
    def post(s, eng, st, xs):
        r = xs[0]
        if s.m == 'newHasher':
            th = eng.theory(TPE)
            H = Function('HASHANY_' + tstr(TPE), th.K, BV(64), BV(64))(th.cls(eng.box(TPE, s.k)), bvv(0, 64))
            yield 'the hash of the key shifted to the depth', 'view', r == H << (3 * s.d)
        elif s.m == 'next': yield 'the window one level deeper', 'view', r == s.H << (3 * (s.d + 1))
        elif s.m == 'hash':
            yield 'a child index', 'view', And(r >= 0, r < 8)
            yield 'the top three bits', 'view', r == z3.ZeroExt(61, z3.Extract(63, 61, s.H << (3 * s.d)))


class HasherLemma:
    """facts of the theory about hidx/hnext, from the definitions above"""
    functions = ['tree.newHasher', 'tree.(hasher).next', 'tree.(hasher).hash']


BITM = ('Next', 'Index', 'Count', 'Has', 'With', 'Without')
C24 = ['bits:%s.%s' % (p, m) for p in ('frozen', 'iterator') for m in BITM]
MASKER = ['bits:masker.' + m for m in ('NewMasker', 'First', 'FirstIsIn', 'FirstIndex', 'Next', 'SubsetOf')]
HASHER = ['bits:hasher.' + m for m in ('newHasher', 'next', 'hash')]


def register(REG):
    for n, ty in EQTYPES: REG['eq:value.Equal[%s]' % n] = lambda n=n, ty=ty: ValueEqual(n, ty)
    for k, kind in PAIRS: REG['eq:' + k.split('frozen.')[1]] = lambda k=k, kind=kind: PairUnit(k, kind)
    for p in ('frozen', 'iterator'):
        for m in BITM: REG['bits:%s.%s' % (p, m)] = lambda p=p, m=m: BitUnit(p, m)
    for u in MASKER: REG[u] = lambda m=u.split('.')[1]: MaskerUnit(m)
    for u in HASHER: REG[u] = lambda m=u.split('.')[1]: HasherUnit(m)


# ---------------------------------------------------------------- C26
KT, VT = {'k': 'tp', 'n': 'K'}, {'k': 'tp', 'n': 'V'}
KVT = {'k': 'named', 'n': 'frozen.KeyValue', 'a': [KT, VT]}
MET = {'k': 'named', 'n': 'frozen.mapEntry', 'a': [KT, VT]}
INTT = {'k': 'basic', 'n': 'int'}


def eq_invoke(eng, st, recv, rt, method, args, fr, pos, resT):
    """a method of an unknown dynamic type: a function of receiver and argument"""
    if not isinstance(recv, z3.ExprRef): return NotImplemented
    zs = [eng.box(a.t, a.v) if isinstance(a, IV) else eng.box(TPE, a) for a in args]
    return Function('meth_' + method, recv.sort(), *[z.sort() for z in zs], BoolSort())(recv, *zs)


class ValueEqual(IUnit):
    """value.Equal[T] for T a type parameter, int, KeyValue, mapEntry"""
    def __init__(s, n, t): super().__init__('eq:value.Equal[%s]' % n, 'value.Equal'); s.n, s.t = n, t
    opts = {'invoke': eq_invoke}
    @property
    def suffix(s): return ' (T = %s)' % s.n
    def tenv(s, eng): return {'T': s.t}
    def setup(s, eng, st, fn):
        eng.theory(s.t)
        s.a, s.b = eng.symval(s.t, 'a'), eng.symval(s.t, 'b')
        return [s.a, s.b]
    def post(s, eng, st, xs):
        a, b = eng.box(s.t, s.a), eng.box(s.t, s.b)
        if s.n == 'int':
            yield 'equality is ==', 'view', xs[0] == (a == b); return
        if s.n in ('KeyValue', 'mapEntry'):
            k, v = eng.theory(KT), eng.theory(VT)
            inner = (lambda x: x.f[0]) if s.n == 'mapEntry' else (lambda x: x)
            f = lambda x, i: eng.box((KT, VT)[i], inner(x).f[i])
            want = k.cls(f(s.a, 0)) == k.cls(f(s.b, 0))
            if s.n == 'KeyValue': want = And(want, v.cls(f(s.a, 1)) == v.cls(f(s.b, 1)))
            yield 'the method of the type decides', 'view', xs[0] == want; return
        A = eng.sort('Any')
        Eq, Sm = 'value.Equaler[T]', 'value.Samer'
        is_ = lambda n: Function('dyn_is_T_' + n, a.sort(), BoolSort())(a)
        as_ = lambda n: Function('dyn_as_T_' + n, a.sort(), A)(a)
        want = If(is_(Eq), Function('meth_Equal', A, a.sort(), BoolSort())(as_(Eq), b),
                  If(is_(Sm), Function('meth_Same', A, a.sort(), BoolSort())(as_(Sm), b), Function('goeq_T', a.sort(), a.sort(), BoolSort())(a, b)))
        yield "the type's own Equal, else its own Same, else ==", 'view', xs[0] == want


def anyval(eng, st, t, name): return IV(t, eng.symval(t, name))


class PairUnit(IUnit):
    """KeyValue and map entries: equality, hashing and construction"""
    def __init__(s, key, kind):
        super().__init__('eq:' + key.split('frozen.')[1], key); s.kind = kind
    def setup(s, eng, st, fn):
        for t in (KT, VT): eng.theory(t)
        k = s.kind
        s.t = MET if ('mapEntry' in s.key or 'newMap' in s.key) else KVT
        if k in ('pairequal', 'keyequal'):
            s.a, s.b = eng.symval(s.t, 'a'), eng.symval(s.t, 'b')
            return [s.a, s.b]
        if k == 'same':
            s.a = eng.symval(s.t, 'a')
            if s.other == 'same type': s.b = eng.symval(s.t, 'b'); return [s.a, IV(s.t, s.b)]
            return [s.a, IV(INTT, IntVal(3))] if s.other == 'another type' else [s.a, NIL]
        if k == 'hash':
            s.a = eng.symval(s.t, 'a'); s.seed = eng.fresh('seed', BV(64))
            return [s.a, s.seed]
        s.k = eng.symval(KT, 'k')
        if k == 'newkey': return [s.k]
        s.v = eng.symval(VT, 'v')
        return [s.k, s.v]
    other = None
    def cases(s):
        if s.kind != 'same': return [s]
        out = []
        for o in ('same type', 'another type', 'nil'):
            u = PairUnit(s.key, s.kind); u.other = o; out.append(u)
        return out
    @property
    def suffix(s): return ' (%s)' % s.other if s.other else ''
    def part(s, eng, x, i):
        inner = x.f[0] if tstr(s.t).startswith('frozen.mapEntry') else x
        return eng.box((KT, VT)[i], inner.f[i])
    def post(s, eng, st, xs):
        k, v = eng.theory(KT), eng.theory(VT)
        P = lambda x, i: s.part(eng, x, i)
        r = xs[0]
        if s.kind == 'keyequal': yield 'entries are identified by key alone', 'view', r == (k.cls(P(s.a, 0)) == k.cls(P(s.b, 0)))
        elif s.kind == 'pairequal' or (s.kind == 'same' and s.other == 'same type'):
            yield 'equal exactly when keys and values are', 'view', r == And(k.cls(P(s.a, 0)) == k.cls(P(s.b, 0)), v.cls(P(s.a, 1)) == v.cls(P(s.b, 1)))
        elif s.kind == 'same': yield 'false for anything else', 'view', mknot(r)
        elif s.kind == 'hash':
            H = Function('HASHANY_' + tstr(KT), k.K, BV(64), BV(64))
            yield 'the hash is that of the key, whatever the value', 'view', r == H(k.cls(P(s.a, 0)), s.seed)
        else:
            yield 'has the given key', 'view', P(r, 0) == eng.box(KT, s.k)
            if s.kind == 'new': yield 'has the given value', 'view', P(r, 1) == eng.box(VT, s.v)


PAIRS = [('frozen.(KeyValue).Equal', 'pairequal'), ('frozen.(KeyValue).Same', 'same'), ('frozen.(KeyValue).Hash', 'hash'),
         ('frozen.(mapEntry).Equal', 'keyequal'), ('frozen.(mapEntry).Hash', 'hash'), ('frozen.mapEntryEqual', 'pairequal'),
         ('frozen.mapEntryKeyEqual', 'keyequal'), ('frozen.mapEntryHash', 'hash'), ('frozen.newMapEntry', 'new'), ('frozen.newMapKey', 'newkey'), ('frozen.KV', 'new')]
EQTYPES = [('T', TPE), ('int', INTT), ('KeyValue', KVT), ('mapEntry', MET)]
C26 = ['eq:value.Equal[%s]' % n for n, _ in EQTYPES] + ['eq:' + k.split('frozen.')[1] for k, _ in PAIRS]


# ---------------------------------------------------------------- contracts for callers
BIT = Function('BIT', BV(64), I, BoolSort())          # BIT(m,i): 0 <= i < 64 and bit i of m is set
LOW = Function('LOW', BV(64), I)                      # lowest set bit


def bitfacts(eng, m):
    """definitional consequences for one mask"""
    eng.fact(All([I], lambda i: mkimp(BIT(m, i), And(0 <= i, i < 64, LOW(m) <= i)), lambda i: [BIT(m, i)]))
    eng.fact(mkimp(m != 0, BIT(m, LOW(m))))
    eng.fact(All([I], lambda i: mkimp(m == 0, Not(BIT(m, i))), lambda i: [BIT(m, i)]))


class CBits(Contract):
    """iterator.BitIterator.Next/Index/Has in terms of BIT (verified by the bits: units)"""
    m = None
    def call(s, eng, st, args, targs, pos, fr):
        b = args[0]
        bitfacts(eng, b)
        if s.m == 'Has':
            eng.oblige('precondition of BitIterator.Has: index in range', 'pre', st.guard, And(0 <= args[1], args[1] < 64), pos)
            return BIT(b, args[1])
        eng.oblige('precondition of BitIterator.%s: not empty' % s.m, 'pre', st.guard, b != 0, pos)
        if s.m == 'Index':
            return LOW(b)
        r = eng.fresh('next', BV(64))
        eng.fact(All([I], lambda i: BIT(r, i) == And(BIT(b, i), i != LOW(b)), lambda i: [BIT(r, i), BIT(b, i)]))
        bitfacts(eng, r)
        eng.fact((r == 0) == All([I], lambda i: Not(BIT(r, i)), lambda i: [BIT(r, i)])) if False else None
        return r


def bitcontract(m): return type('CBit' + m, (CBits,), {'m': m, 'name': 'BitIterator.' + m, 'key': 'iterator.(BitIterator).' + m})


BITCONTRACTS = [bitcontract(m) for m in ('Next', 'Index', 'Has')]
