"""depth.Gauge.Parallel under contract: both the sequential and the concurrent branch.

The masks a trie passes have fanout (8) positions, so the loops over them are unrolled completely, one round
per bit position.  A goroutine is executed where it is started: that is the general case, because it may
only read memory that is not written afterwards (an obligation at every later store), may write nothing
but its own memory, and communicates by one message over a channel.  A receive takes an arbitrary message
among those not taken before, which covers every schedule; that one is still to come (or the receive would
block for ever) is an obligation.  Of f only the results are visible here: callers prove (tree.CParallel)
that its effects are confined to its own slot, so that they commute."""
import z3
from engine import *
from iters import IUnit

I = z3.IntSort()
N = 8


class Chan:
    def __init__(s): s.msgs = []; s.avail = []; s.n = IntVal(0); s.rem = IntVal(0)
    # msgs: (guard, value, i of the call of f, its result count); avail: not received yet


class Conc:
    def __init__(s): s.calls = []; s.chans = []; s.cur = None; s.recvs = 0
    def makechan(s, eng, st, t, size):
        eng.oblige('a channel has a non-negative capacity', 'safe', st.guard, size >= 0)
        c = Chan(); s.chans.append(c)
        return c
    def f(s, eng, st, args, pos):
        i = args[0]
        ok, m = s.OK(i), s.M(i)
        eng.oblige('f is called for children in the mask only', 'pre', st.guard, z3.And(0 <= i, i < N, z3.Or(*[z3.And(i == j, eng.mbit(s.mask, IntVal(j))) for j in range(N)])), pos)
        for g, k in s.calls:
            if conc(i) is not None and conc(k) is not None and conc(i) != conc(k): continue
            eng.oblige('f is called once for each child', 'pre', mkand(st.guard, g), i != k, pos)
        s.calls.append((st.guard, i))
        if s.cur is not None: s.cur['calls'].append((st.guard, i))
        return (ok, m)
    def go(s, eng, st, f, pos):
        if s.cur is not None: raise Unsupported('goroutine started by a goroutine')
        oid = next(Obj._n)
        st2 = st.copy()
        old = eng.par
        eng.par = {'acc': [], 'level': 1}
        s.cur = {'calls': [], 'sends': []}
        try: f(st2)
        finally:
            acc = eng.par['acc']; eng.par = old
            cur = s.cur; s.cur = None
        for p, w, g, ps in acc:
            if p.o.id > oid: continue
            if w: eng.oblige('race: a goroutine writes to shared memory (%s)' % p.o.name.split('!')[0], 'race', g, FALSE, ps)
            else:
                k = ('spawnread', p.o.id)
                st.mk[k] = mkor(st.mk.get(k, FALSE), st.guard)
        if len(cur['sends']) != 1 or len(cur['calls']) != 1: raise Unsupported('a goroutine that does not call f once and send once')
        (ch, sg, v), (cg, i) = cur['sends'][0], cur['calls'][0]
        eng.oblige('a goroutine always calls f and sends its outcome', 'safe', st.guard, mkand(sg, cg), pos)
        ch.msgs.append((st.guard, v, i))
        ch.avail.append(st.guard)
        ch.n = simp(ch.n + mkif(st.guard, IntVal(1), IntVal(0)))
        ch.rem = simp(ch.rem + mkif(st.guard, s.M(i), IntVal(0)))
    def send(s, eng, st, ch, v, pos):
        if not isinstance(ch, Chan): raise Unsupported('send to %r' % (ch,))
        if s.cur is None: raise Unsupported('send outside a goroutine')
        s.cur['sends'].append((ch, st.guard, v))
    def recv(s, eng, st, ch, pos):
        if not isinstance(ch, Chan) or s.cur is not None: raise Unsupported('receive from %r' % (ch,))
        if not ch.msgs: raise Unsupported('receive with no goroutine started')
        g = st.guard
        s.recvs += 1
        eng.oblige('receive %d does not block for ever' % s.recvs, 'safe', g, ch.n >= 1, pos)
        c = eng.fresh('msg', I)
        eng.fact(z3.Or(*[mkand(c == k, a) for k, a in enumerate(ch.avail)]), g)
        after = [mkand(a, mknot(mkand(g, c == k))) for k, a in enumerate(ch.avail)]
        n, rem = eng.fresh('pending', I), eng.fresh('remaining', I)
        aft = []
        for k, a in enumerate(after):
            b = eng.fresh('avail', z3.BoolSort()); eng.fact(b == a); aft.append(b)
        eng.fact(n == z3.Sum([mkif(a, IntVal(1), IntVal(0)) for a in aft]))
        eng.fact(rem == z3.Sum([mkif(a, s.M(m[2]), IntVal(0)) for a, m in zip(aft, ch.msgs)]))
        b4n, b4r = eng.fresh('before', I), eng.fresh('before', I)
        eng.fact(b4n == z3.Sum([mkif(a, IntVal(1), IntVal(0)) for a in ch.avail]))
        eng.fact(b4r == z3.Sum([mkif(a, s.M(m[2]), IntVal(0)) for a, m in zip(ch.avail, ch.msgs)]))
        eng.lemma('messages not received yet', 'step', TRUE, z3.And(b4n == ch.n, b4r == ch.rem))
        mc = s.M(ch.msgs[-1][2])
        for k in range(len(ch.msgs) - 2, -1, -1): mc = mkif(c == k, s.M(ch.msgs[k][2]), mc)
        eng.lemma('a received message is no longer pending', 'step', g, z3.And(n == b4n - 1, rem == b4r - mc))
        eng.lemma('nothing changes where nothing is received', 'step', mknot(g), z3.And(n == b4n, rem == b4r))
        v = ch.msgs[-1][1]
        for k in range(len(ch.msgs) - 2, -1, -1): v = eng.merge(c == k, ch.msgs[k][1], v)
        ch.avail, ch.n, ch.rem = aft, n, rem
        return v


class Parallel(IUnit):
    def __init__(s):
        super().__init__('par:Gauge.Parallel', 'depth.(Gauge).Parallel')
        s.functions = ['depth.(Gauge).Parallel', 'depth.(Gauge).Parallel$1']
    def contracts(s): return {}
    def setup(s, eng, st, fn):
        s.c = eng.opts['conc'] = Conc()
        s.c.OK = z3.Function('OK', I, z3.BoolSort()); s.c.M = z3.Function('M', I, I)
        s.c.mask = s.mask = eng.fresh('mask', z3.BitVecSort(16))
        eng.opts['unroll'] = lambda key: True
        eng.fact(z3.Extract(15, 8, s.mask) == 0)
        g, d = eng.fresh('gauge', I), eng.fresh('depth', I)
        return [g, d, s.mask, UF(s.c.f, 'f')]
    def post(s, eng, st, xs):
        ok, m = xs
        c = s.c
        B = lambda j: z3.Extract(j, j, s.mask) == 1
        yield 'true exactly when every child is', 'view', ok == z3.And(*[mkimp(B(j), c.OK(j)) for j in range(N)])
        yield 'f is called for every child', 'view', mkimp(ok, z3.And(*[mkimp(B(j), mkor(*[mkand(g, i == j) for g, i in c.calls])) for j in range(N)]))
        yield 'every branch has finished', 'view', mkimp(ok, z3.And(*[ch.n == 0 for ch in c.chans]))
        if c.chans and any(ch.msgs for ch in c.chans): yield 'nothing remains to be counted', 'view', mkimp(ok, z3.And(*[ch.rem == 0 for ch in c.chans]))
        yield 'the matches of all children', 'view', mkimp(ok, m == z3.Sum([mkif(B(j), c.M(j), IntVal(0)) for j in range(N)]))


def register(REG):
    REG['par:Gauge.Parallel'] = Parallel
