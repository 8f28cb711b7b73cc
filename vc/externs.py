"""Contracts assumed on functions outside /repo (standard library, arr-ai/hash)."""
import z3
from z3 import And, Or, Not, If, IntVal, Int, Const, Function, IntSort, BoolSort, BoolVal, BitVecVal, BitVecSort
from engine import *

I = IntSort()


def extern(eng, st, key, args, ta, pos, rt, fr):
    f = TABLE.get(key)
    if f is None:
        for p, g in PREFIX:
            if key.startswith(p): f = g; break
    if f is None: raise Unsupported('external function ' + key)
    eng.callees.add('extern ' + key)
    return f(eng, st, args, rt, pos, fr)


def opaque(eng, st, args, rt, pos, fr):
    """result unconstrained; touches nothing the verified code can see"""
    if rt is None or (rt['k'] == 'tuple' and not rt['e']): return ()
    if rt['k'] == 'tuple': return tuple(fresh(eng, t) for t in rt['e'])
    return fresh(eng, rt)


def fresh(eng, t):
    so = eng.zsort(t)
    if so is not None: return eng.fresh('ext', so)
    return NIL


def tz(w):
    def f(eng, st, args, rt, pos, fr):
        x = args[0]
        if x.size() != w: x = z3.Extract(w - 1, 0, x) if x.size() > w else z3.ZeroExt(w - x.size(), x)
        c = conc(x)
        mk = (lambda i: BitVecVal(i, 64)) if eng.intbv else (lambda i: IntVal(i))
        if c is not None: return mk((c & -c).bit_length() - 1 if c else w)
        if eng.intbv:
            # number of trailing zeros = popcount of (x & -x) - 1
            r = mk(w)
            for i in range(w - 1, -1, -1): r = If(z3.Extract(i, i, x) == 1, mk(i), r)
            return r
        bits = []
        for i in range(w):
            b = z3.simplify(z3.Extract(i, i, x) == 1)
            if z3.is_false(b): continue
            bits.append((b, i))
            if z3.is_true(b): break
        r = mk(w)
        for b, i in reversed(bits): r = mkif(b, mk(i), r)
        return r
    return f


def popcount(w):
    def f(eng, st, args, rt, pos, fr):
        x = args[0]
        if eng.intbv:
            bits = [z3.ZeroExt(63, z3.Extract(i, i, x)) for i in range(w)]
            r = bits[0]
            for b in bits[1:]: r = r + b
            return r
        return popcount_int(eng, x)
    return f


def popcount_int(eng, x):
    """number of set bits as a mathematical integer, with the laws of population counts that
    relate it to the counts of the parts x is made of"""
    P = Function('POPCOUNT%d' % x.size(), x.sort(), I)
    memo = eng.__dict__.setdefault('_pop', {})
    if not memo: eng.axiom(All([x.sort()], lambda y: And(P(y) >= 0, P(y) <= x.size(), (P(y) == 0) == (y == BitVecVal(0, x.size()))), lambda y: [P(y)]))
    def go(y, depth):
        if y.get_id() in memo or depth > 6: return
        memo[y.get_id()] = y
        Z = BitVecVal(0, y.size())
        f = lambda a: eng.axiom(a)
        f(And(P(y) >= 0, P(y) <= y.size(), (P(y) == 0) == (y == Z)))
        if y.get_id() in eng.itedef:
            for z in eng.itedef[y.get_id()][1:]:
                if isinstance(z, z3.ExprRef) and z.sort() == y.sort(): go(z, depth + 1)
        if not z3.is_app(y): return
        k, c = y.decl().kind(), y.children()
        if k == z3.Z3_OP_ITE:
            go(c[1], depth + 1); go(c[2], depth + 1)
        elif k == z3.Z3_OP_BOR and len(c) == 2:
            a, b = c
            go(a, depth + 1); go(b, depth + 1); go(a & b, depth + 1)
            f(P(y) + P(a & b) == P(a) + P(b)); f(mkimp(a & b == Z, P(y) == P(a) + P(b)))
        elif k == z3.Z3_OP_BXOR and len(c) == 2:
            a, b = c
            go(a, depth + 1); go(b, depth + 1); go(a & b, depth + 1)
            f(P(y) + 2 * P(a & b) == P(a) + P(b))
            f(mkimp(a & b == b, P(y) == P(a) - P(b))); f(mkimp(a & b == a, P(y) == P(b) - P(a)))
        elif k == z3.Z3_OP_BAND and len(c) == 2:
            for a, b in ((c[0], c[1]), (c[1], c[0])):
                if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_BNOT:
                    b = b.arg(0)
                    go(a, depth + 1); go(b, depth + 1); go(a & b, depth + 1)
                    f(P(y) + P(a & b) == P(a)); f(mkimp(a & b == b, P(y) == P(a) - P(b)))
        elif k == z3.Z3_OP_BSHL and conc(c[0]) == 1:
            f(mkimp(z3.ULT(c[1], y.size()), P(y) == 1))
    go(x, 0)
    return P(x)


def lenbits(eng, st, args, rt, pos, fr):
    x = args[0]
    r = eng.fresh('len64', I)
    eng.fact(And(0 <= r, r <= 64))
    return r


def hash_any(eng, st, args, rt, pos, fr):
    """lawful hashing: equal values hash alike; nothing else is known"""
    v, seed = args
    if isinstance(v, IV):
        th = eng.theory(v.t)
        return Function('HASHANY_' + tstr(v.t), th.K, seed.sort(), BitVecSort(64))(th.cls(eng.box(v.t, v.v)), seed)
    if isinstance(v, z3.ExprRef):
        return Function('HASHANY_any', v.sort(), seed.sort(), BitVecSort(64))(v, seed)
    raise Unsupported('hash of %r' % (v,))


def hash_uintptr(eng, st, args, rt, pos, fr):
    return Function('HASHUINTPTR', BitVecSort(64), BitVecSort(64), BitVecSort(64))(args[0], args[1])


def atomic(op):
    def f(eng, st, args, rt, pos, fr):
        h = eng.opts.get('atomic')
        if h is None: raise Unsupported('atomic access')
        return h(op, st, args, pos)
    return f


TABLE = {
    'sync/atomic.LoadPointer': atomic('load'), 'sync/atomic.StorePointer': atomic('store'),
    'math/bits.TrailingZeros64': tz(64), 'math/bits.TrailingZeros16': tz(16),
    'bits.TrailingZeros64': tz(64), 'bits.TrailingZeros16': tz(16),
    'math/bits.OnesCount64': popcount(64), 'bits.OnesCount64': popcount(64),
    'math/bits.Len64': lenbits, 'bits.Len64': lenbits,
    'hash.Any': hash_any, 'github.com/arr-ai/hash.Any': hash_any,
    'hash.Uintptr': hash_uintptr, 'github.com/arr-ai/hash.Uintptr': hash_uintptr,
}
PREFIX = [('fmt.', opaque), ('log.', opaque)]
