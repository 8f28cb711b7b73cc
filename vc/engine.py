"""Symbolic executor / verification-condition generator over go/ssa (JSON from
tools/gossa).  Forward execution with state merging at joins; calls are resolved
by contract when the callee has one and by inlining otherwise; loops are unrolled
when their trip count is concrete, else cut by (Houdini-pruned) invariants."""
import json, time, itertools, os, sys
import z3
from z3 import (And, Or, Not, If, Implies, BoolVal, IntVal, Int, Bool, BitVecVal, Const,
                Function, IntSort, BoolSort, BitVecSort, DeclareSort, ForAll, is_true, is_false)

sys.setrecursionlimit(20000)
TRUE, FALSE = BoolVal(True), BoolVal(False)


class Unsupported(Exception):
    pass


def simp(e):
    return z3.simplify(e)


def mkand(*xs):
    ys = []
    for x in xs:
        if is_true(x): continue
        if is_false(x): return FALSE
        ys.append(x)
    return TRUE if not ys else ys[0] if len(ys) == 1 else And(*ys)


def mkor(*xs):
    ys = []
    for x in xs:
        if is_false(x): continue
        if is_true(x): return TRUE
        ys.append(x)
    return FALSE if not ys else ys[0] if len(ys) == 1 else Or(*ys)


def mknot(x):
    if is_true(x): return FALSE
    if is_false(x): return TRUE
    if z3.is_not(x): return x.arg(0)
    return Not(x)


def mkimp(a, b):
    if is_true(a): return b
    if is_false(a) or is_true(b): return TRUE
    return Implies(a, b)


def mkif(c, a, b):
    if is_true(c): return a
    if is_false(c): return b
    if a is b or a.eq(b): return a
    if z3.is_bool(a):
        if is_true(a) and is_false(b): return c
        if is_false(a) and is_true(b): return mknot(c)
    return If(c, a, b)


# ------------------------------------------------------------------ values
class SV:                                   # struct value
    __slots__ = ('f',)
    def __init__(s, f): s.f = tuple(f)
    def set(s, i, v):
        l = list(s.f); l[i] = v
        return SV(l)
    def __repr__(s): return 'SV%r' % (s.f,)


class AV:                                   # small array, concrete length
    __slots__ = ('e',)
    def __init__(s, e): s.e = tuple(e)
    def __repr__(s): return 'AV%r' % (s.e,)


class FA:                                   # functional array of z3 terms
    __slots__ = ('n', 'get', 'node')
    def __init__(s, n, get, node=False): s.n, s.get, s.node = n, get, node
    def __repr__(s): return 'FA%d' % s.n


class Ptr:
    __slots__ = ('o', 'path')
    def __init__(s, o, path=()): s.o, s.path = o, tuple(path)
    def same(a, b):
        if a.o is not b.o or len(a.path) != len(b.path): return False
        for (k, x), (l, y) in zip(a.path, b.path):
            if k != l: return False
            if isinstance(x, int) and isinstance(y, int):
                if x != y: return False
            elif isinstance(x, int) or isinstance(y, int): return False
            elif not x.eq(y): return False
        return True
    def __repr__(s): return 'Ptr(%s,%s)' % (s.o, s.path)


class NilT:
    def __repr__(s): return 'NIL'
NIL = NilT()                                # nil pointer / func / map / opaque interface


class OptRef:                               # *T pointing at an immutable element, maybe nil
    __slots__ = ('nn', 'val')
    def __init__(s, nn, val): s.nn, s.val = nn, val


class SL:                                   # slice
    """back: Obj whose heap value is the contents (AV, FA, or z3 Arr term)"""
    __slots__ = ('back', 'off', 'len', 'cap', 'nil')
    def __init__(s, back, off, ln, cap, nil=FALSE):
        s.back, s.off, s.len, s.cap, s.nil = back, off, ln, cap, nil
    def __repr__(s): return 'SL(%s,%s,%s,%s,%s)' % (s.back, s.off, s.len, s.cap, s.nil)


class FV:                                   # function value with body
    __slots__ = ('fn', 'binds', 'tenv')
    def __init__(s, fn, binds, tenv): s.fn, s.binds, s.tenv = fn, binds, tenv


class UF:                                   # abstract function value
    __slots__ = ('f', 'name')
    def __init__(s, f, name=''): s.f, s.name = f, name


class IV:                                   # interface value with known dynamic type
    __slots__ = ('t', 'v')
    def __init__(s, t, v): s.t, s.v = t, v
    def __repr__(s): return 'IV(%s,%r)' % (tstr(s.t), s.v)


class IterV:                                # element iterator over node n, positioned by the heap object o
    __slots__ = ('et', 'o', 'n')
    def __init__(s, et, o, n): s.et, s.o, s.n = et, o, n
    def __repr__(s): return 'IterV(%s)' % s.n


class Union:                                # guarded choice
    __slots__ = ('alts',)
    def __init__(s, alts): s.alts = alts
    def __repr__(s): return 'U%r' % (s.alts,)


class Obj:
    _n = itertools.count()
    def __init__(s, typ, name='', fresh=True, owned=False, kind='mem'):
        s.id = next(Obj._n)
        s.typ, s.name, s.fresh, s.owned, s.kind = typ, name, fresh, owned, kind
        s.escaped = False
        s.stale = False
        s.depth = None                      # Parallel nesting level at allocation
    def __repr__(s): return '%s#%d' % (s.name or s.kind, s.id)


def tstr(t):
    if t is None: return '?'
    k = t['k']
    if k in ('basic', 'sort'): return t['n']
    if k == 'named': return t['n'] + ('[' + ','.join(map(tstr, t['a'])) + ']' if t.get('a') else '')
    if k == 'ptr': return '*' + tstr(t['e'])
    if k == 'slice': return '[]' + tstr(t['e'])
    if k == 'array': return '[%d]%s' % (t['len'], tstr(t['e']))
    if k == 'tp': return t['n']
    if k == 'map': return 'map[%s]%s' % (tstr(t['key']), tstr(t['e']))
    if k == 'iface': return 'iface{' + ','.join(t['m']) + '}'
    if k == 'func': return 'func' + tstr(t['p']) + tstr(t['r'])
    if k == 'tuple': return '(' + ','.join(map(tstr, t['e'])) + ')'
    if k == 'struct': return 'struct{' + ';'.join(f['n'] + ' ' + tstr(f['t']) for f in t['f']) + '}'
    if k == 'chan': return 'chan ' + tstr(t['e'])
    return k


class FS:                                   # state inside a frame
    __slots__ = ('guard', 'heap', 'abs', 'env', 'src', 'mk')
    def __init__(s, guard, heap, abs_, env, src=None, mk=None):
        s.guard, s.heap, s.abs, s.env, s.src = guard, heap, abs_, env, src
        s.mk = mk if mk is not None else {}  # path-sensitive flags, absent = false
    def copy(s):
        return FS(s.guard, dict(s.heap), dict(s.abs), dict(s.env), s.src, dict(s.mk))
    def take(s, r):
        s.heap, s.abs, s.guard, s.mk = r.heap, r.abs, r.guard, r.mk


_BADPAT = None


def badpat(e, vs):
    """does a pattern term contain connectives or ite (not allowed by z3)"""
    global _BADPAT
    if _BADPAT is None:
        _BADPAT = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES, z3.Z3_OP_DISTINCT, z3.Z3_OP_IFF, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT}
    if not z3.is_app(e): return False
    if e.decl().kind() in _BADPAT: return True
    return any(badpat(c, vs) for c in e.children())


def hasany(e, vs):
    stk = [e]
    while stk:
        x = stk.pop()
        if any(x.eq(v) for v in vs): return True
        if z3.is_quantifier(x): stk.append(x.body())
        else: stk += x.children()
    return False


def cleanpat(eng, e, vs):
    """name ground subterms with ite; None if a bound variable sits under a connective"""
    if not badpat(e, vs): return e
    if not hasany(e, vs):
        memo = eng.__dict__.setdefault('_patnames', {})
        if e.get_id() not in memo:
            c = eng.fresh('nm', e.sort())
            memo[e.get_id()] = (c, e)
            eng.facts.append(c == e)
        else:
            eng.facts.append(memo[e.get_id()][0] == e)
        return memo[e.get_id()][0]
    if e.decl().kind() in _BADPAT: return None
    ch = [cleanpat(eng, c, vs) for c in e.children()]
    if any(c is None for c in ch): return None
    return e.decl()(*ch) if e.decl().kind() != z3.Z3_OP_SELECT else z3.Select(*ch)


def mkstruct(d, xs):
    """constructor application; mk(f0(z), f1(z), ..) is z"""
    z = None
    for i, x in enumerate(xs):
        if not (z3.is_app(x) and x.num_args() == 1 and x.decl().eq(d.accessor(0, i)) and (z is None or z.eq(x.arg(0)))): return d.constructor(0)(*xs)
        z = x.arg(0)
    return z if z is not None else d.constructor(0)(*xs)


def mkforall(eng, vs, b, ps):
    out = []
    for p in ps:
        terms = list(p) if isinstance(p, (list, tuple)) else [p]
        terms = [cleanpat(eng, t, vs) for t in terms]
        if any(t is None for t in terms): continue
        if not all(any(hasany(t, [v]) for t in terms) for v in vs): continue
        out.append(z3.MultiPattern(*terms) if len(terms) > 1 else terms[0])
    if ps and not out:
        # no usable pattern: leave the choice to z3
        return ForAll(vs, b)
    return ForAll(vs, b, patterns=out) if out else ForAll(vs, b)


class All:
    """forall over fresh variables; body(*vars) -> formula; pats(*vars) -> list of patterns"""
    def __init__(s, sorts, body, pats=None): s.sorts, s.body, s.pats = sorts, body, pats
    def assume(s, eng):
        vs = [Const('q%d_%d' % (eng.fresh_n(), i), so) for i, so in enumerate(s.sorts)]
        b = s.body(*vs)
        ps = s.pats(*vs) if s.pats else []
        return mkforall(eng, vs, b, ps)
    def goal(s, eng):
        vs = [Const('sk%d_%d' % (eng.fresh_n(), i), so) for i, so in enumerate(s.sorts)]
        return s.body(*vs)


def conjuncts(g):
    out, st = set(), [g]
    while st:
        x = st.pop()
        if z3.is_and(x): st += x.children()
        elif not is_true(x): out.add(x.get_id())
    return out


def symbols(f, memo):
    """names (without their numbers) of the uninterpreted symbols in f"""
    k = f.get_id()
    if k in memo: return memo[k][0]
    out, seen, st = set(), set(), [f]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name().split('!')[0])
            st += x.children()
    memo[k] = (out, f)
    return out


class Obl:
    def __init__(s, name, tag, guard, goal, facts, pos, extra=()):
        s.name, s.tag, s.guard, s.goal, s.facts, s.pos, s.extra = name, tag, guard, goal, facts, pos, extra
        s.status = None; s.time = 0.0; s.backend = ''; s.reason = ''


class Prog:
    def __init__(s, path):
        d = json.load(open(path))
        s.fns, s.named, s.consts = d['fns'], d['named'], d['consts']
        s._cfg = {}

    def cfg(s, key):
        if key in s._cfg: return s._cfg[key]
        bs = s.fns[key]['blocks']
        n = len(bs)
        seen, order = set(), []
        st = [(0, iter(bs[0]['s']))]; seen.add(0)
        while st:
            b, it = st[-1]
            for x in it:
                if x not in seen:
                    seen.add(x); st.append((x, iter(bs[x]['s']))); break
            else:
                order.append(b); st.pop()
        order.reverse()
        pos = {b: i for i, b in enumerate(order)}
        # dominators
        dom = {0: {0}}
        allb = set(order)
        for b in order[1:]: dom[b] = set(allb)
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in bs[b]['p'] if p in seen]
                nd = set.intersection(*[dom[p] for p in ps]) | {b} if ps else {b}
                if nd != dom[b]: dom[b] = nd; ch = True
        loops = {}
        for b in order:
            for x in bs[b]['s']:
                if x in dom[b]:
                    body = loops.setdefault(x, {x})
                    stk = [b]
                    while stk:
                        y = stk.pop()
                        if y not in body:
                            body.add(y); stk += [p for p in bs[y]['p'] if p in seen]
                elif pos[x] <= pos[b]:
                    raise Unsupported('irreducible control flow in ' + key)
        s._cfg[key] = (order, loops)
        return s._cfg[key]

    # ---- types
    def sub(s, t, env):
        if not env or t is None: return t
        k = t['k']
        if k == 'tp': return env.get(t['n'], t)
        if k == 'named':
            if not t.get('a'): return t
            return dict(t, a=[s.sub(x, env) for x in t['a']])
        if k in ('ptr', 'slice', 'array', 'chan'): return dict(t, e=s.sub(t['e'], env))
        if k == 'map': return dict(t, e=s.sub(t['e'], env), key=s.sub(t['key'], env))
        if k == 'struct': return dict(t, f=[dict(f, t=s.sub(f['t'], env)) for f in t['f']])
        if k == 'tuple': return dict(t, e=[s.sub(x, env) for x in t['e']])
        if k == 'func': return dict(t, p=s.sub(t['p'], env), r=s.sub(t['r'], env))
        if k == 'iface': return dict(t, sigs={m: s.sub(x, env) for m, x in t['sigs'].items()})
        return t

    def under(s, t):
        while t['k'] == 'named':
            d = s.named.get(t['n'])
            if d is None or 'u' not in d: raise Unsupported('unknown named type ' + t['n'])
            t = s.sub(d['u'], dict(zip(d.get('tp', []), t.get('a', []))))
        return t


INTW = {'int8': (8, True), 'int16': (16, True), 'int32': (32, True), 'rune': (32, True), 'int64': (64, True),
        'uint8': (8, False), 'byte': (8, False), 'uint16': (16, False), 'uint32': (32, False), 'uint64': (64, False),
        'uint': (64, False), 'uintptr': (64, False)}


def zint(x):
    return IntVal(x) if isinstance(x, int) else x


def conc(x):
    """concrete python int of a value or None"""
    if isinstance(x, int): return x
    if z3.is_int_value(x): return x.as_long()
    if z3.is_bv_value(x): return x.as_long()
    y = z3.simplify(x)
    if z3.is_int_value(y) or z3.is_bv_value(y): return y.as_long()
    return None


class Frame:
    def __init__(s, key, tenv, depth, parent=None):
        s.key, s.tenv, s.depth, s.parent = key, tenv, depth, parent
        s.returns = []
        s.defers = []


class Engine:
    MAXINLINE = 12

    def __init__(s, prog, contracts, opts=None):
        s.prog, s.contracts = prog, contracts
        s.opts = opts or {}
        s.intbv = s.opts.get('intbv', False)
        s.hidden = []
        s.last = ''
        s.symmemo = {}
        s.lasting = {}
        s.facts = []
        s.obls = []
        s._fresh = itertools.count()
        s.solver = None; s.nsolver = 0
        s.sorts = {}
        s.fname = ''
        s.stats = {'prune': 0, 'prunetime': 0.0}
        s.callees = set()
        s.inlined = set()
        s.ghostd = None                      # ghost depth term for the function under verification
        s.loop_templates = []
        s.par = None                         # recording of accesses while running a Parallel closure
        s.theories = {}
        s.strs = {}
        s.pure = 0
        s.assumed = set()
        s.covers = []
        s.created = []
        s.prov = {}
        s.mctx = None
        s.consumed = {}
        s.mbits = {}
        s.itedef = {}
        s.condlog = None
        s.twback = {}
        s.loop_ctx = None
        s.cur = None
        s.epoch = 0                          # identifies the innermost loop iteration being executed

    # ------------------------------------------------------------ basics
    def fresh_n(s): return next(s._fresh)

    def fresh(s, name, sort):
        c = Const('%s!%d' % (name, s.fresh_n()), sort)
        s.created.append(c)
        return c

    def fact(s, f, guard=TRUE):
        if not isinstance(f, z3.ExprRef): f = f.assume(s)
        f = mkimp(guard, f)
        if not is_true(f): s.facts.append(f)
        return f

    def axiom(s, f):
        """a fact that does not depend on the path: it survives abandoned trials"""
        if not isinstance(f, z3.ExprRef): f = f.assume(s)
        if is_true(f): return f
        s.lasting[f.get_id()] = f
        s.facts.append(f)
        return f

    def hide(s, start, drop, guard, keep=()):
        """obligations on paths through guard no longer use the facts from index start on for which drop holds"""
        ids = {f.get_id() for f in s.facts[start:] if drop(f)}
        for f in keep:
            n = len(s.facts)
            s.fact(f, guard)
            ids -= {g.get_id() for g in s.facts[n:]}
        if ids: s.hidden.append((conjuncts(guard), ids))

    def known(s, guard):
        if not s.hidden: return list(s.facts)
        g = conjuncts(guard)
        ids = set()
        for p, h in s.hidden:
            if p <= g: ids |= h
        return [f for f in s.facts if f.get_id() not in ids] if ids else list(s.facts)

    def lemma(s, name, tag, guard, goal, pos='', without=(), assume=True, using=None):
        """an obligation to be proved from those facts only that do not mention the given symbols, or
        from the given facts only"""
        s.oblige(name, tag, guard, goal, pos, False)
        o = s.obls[-1]
        if using is not None:
            known = {f.get_id() for f in s.facts}
            o.facts = [f for f in using if not is_true(f)]
            if not all(f.get_id() in known for f in o.facts): raise AssertionError('lemma uses an unproved fact')
        elif without: o.facts = [f for f in o.facts if not any(symbols(f, s.symmemo) & {w} for w in without)]
        if assume: return s.fact(goal, guard)

    def oblige(s, name, tag, guard, goal, pos='', assume=True, extra=()):
        if not isinstance(goal, z3.ExprRef):
            g = goal.goal(s)
        else:
            g = goal
        if is_true(g): pass
        s.obls.append(Obl(name, tag, guard, g, s.known(guard), pos, extra))
        if assume: s.fact(goal, guard)

    def sort(s, name):
        if name not in s.sorts: s.sorts[name] = DeclareSort(name)
        return s.sorts[name]

    def feasible(s, cond, timeout=300):
        """False only if facts & cond is proved unsatisfiable"""
        if is_false(cond): return False
        if s.pure: return not is_false(z3.simplify(cond))
        t0 = time.time()
        if s.hidden:
            fs = s.known(cond)
            if len(fs) < len(s.facts):
                sol = z3.SimpleSolver()
                sol.set('auto_config', False); sol.set('smt.mbqi', False); sol.set('timeout', timeout)
                for f in fs: sol.add(f)
                sol.add(cond)
                r = sol.check()
                s.last = sol.reason_unknown() if r == z3.unknown else str(r)
                return r != z3.unsat
        if s.solver is None:
            s.solver = z3.SimpleSolver()
            s.solver.set('auto_config', False); s.solver.set('smt.mbqi', False)
        s.solver.set('timeout', timeout)
        while s.nsolver < len(s.facts):
            s.solver.add(s.facts[s.nsolver]); s.nsolver += 1
        s.solver.push()
        s.solver.add(cond)
        r = s.solver.check()
        s.last = s.solver.reason_unknown() if r == z3.unknown else str(r)
        s.solver.pop()
        s.stats['prune'] += 1; s.stats['prunetime'] += time.time() - t0
        return r != z3.unsat

    def snapshot(s): return (len(s.facts), len(s.obls), len(s.created))

    def rollback(s, snap):
        keep = [f for f in s.facts[snap[0]:] if f.get_id() in s.lasting]
        del s.facts[snap[0]:]; del s.obls[snap[1]:]
        s.facts += keep
        if s.nsolver > snap[0]:
            s.solver = None; s.nsolver = 0

    def valid(s, guard, f, timeout=500):
        return not s.feasible(mkand(guard, mknot(f)), timeout)

    # ------------------------------------------------------------ types
    def isnode(s, t):
        """element type if t is node[T] or pointer to a node struct"""
        if t['k'] == 'named' and t['n'] == 'tree.node': return t['a'][0]
        return None

    NODEKINDS = {'tree.leaf1': 1, 'tree.leaf2': 2, 'tree.twig': 3, 'tree.branch': 4}

    def nodekind(s, t):
        if t['k'] == 'named' and t['n'] in s.NODEKINDS: return s.NODEKINDS[t['n']], t['a'][0]
        return None

    def theory(s, et):
        k = tstr(et)
        if k not in s.theories:
            from theory import Theory
            s.theories[k] = Theory(s, et)
        return s.theories[k]

    def zsort(s, t):
        """z3 sort for a scalar type or None"""
        k = t['k']
        if k == 'sort': return s.sort(t['n'])
        if k == 'tp': return s.sort(t['n'])
        if k == 'named':
            if t['n'] == 'tree.hasher' and not s.opts.get('hasherbv'): return s.sort('H')
            if t['n'] == 'tree.node': return s.theory(t['a'][0]).Node
            if t['n'] in s.opts.get('ifaces', ()): return s.sort(t['n'])
            u = s.prog.under(t)
            if u['k'] == 'iface':
                return s.sort('Any')
            return s.zsort(u)
        if k == 'basic':
            n = t['n']
            if n in ('int', 'untyped int', 'untyped rune'): return BitVecSort(64) if s.intbv else IntSort()
            if n == 'uint' and s.opts.get('wrapints'): return IntSort()
            if n in INTW: return BitVecSort(INTW[n][0])
            if n in ('bool', 'untyped bool'): return BoolSort()
            if n in ('string', 'untyped string'): return s.sort('Str')
            if n in ('float64', 'float32'): return s.sort('Float')
        if k == 'iface': return s.sort('Any')
        if k == 'ptr' and s.isref(t): return s.sort('Ref')
        return None

    # ---- pointers to builders kept inside collections: references into one heap object
    def isref(s, t):
        return t['k'] == 'ptr' and tstr(t['e']) in s.opts.get('refheap', ())

    def refheap(s, t):
        """the heap of the objects of pointee type t: content SV[root by Ref, count by Ref, allocated]"""
        m = s.__dict__.setdefault('_refheaps', {})
        k = tstr(t)
        if k not in m:
            import api
            et = api.tree_elem(s, t)
            if et is None: raise Unsupported('reference to ' + k)
            R = s.sort('Ref')
            o = Obj({'k': 'refheap', 'e': t}, 'heap!' + k, fresh=False, owned=True)
            o.refheap = True
            o.init = SV([s.fresh('roots', z3.ArraySort(R, s.theory(et).Node)), s.fresh('counts', z3.ArraySort(R, IntSort())), s.fresh('allocated', z3.ArraySort(R, BoolSort()))])
            o.et = et
            m[k] = o
        return m[k]

    def refget(s, st, t, r):
        """value of the object r refers to"""
        h = s.refheap(t)
        c = s.content(st, h)
        v = SV([z3.Select(c.f[0], r), z3.Select(c.f[1], r)])
        return s.rewrap(t, v)

    def rewrap(s, t, v):
        while t['k'] == 'named' and t['n'] != 'tree.Tree':
            t = s.prog.under(t)['f'][0]['t']; v = SV([v])
        return v

    def refput(s, st, t, r, v):
        while len(v.f) == 1: v = v.f[0]
        h = s.refheap(t)
        c = s.content(st, h)
        root = s.to_node(st, v.f[0], h.et, True)
        st.heap[h] = SV([z3.Store(c.f[0], r, root), z3.Store(c.f[1], r, v.f[1]), c.f[2]])

    def refnew(s, st, t):
        h = s.refheap(t)
        c = s.content(st, h)
        r = s.fresh('ref', s.sort('Ref'))
        s.fact(mkand(mknot(z3.Select(c.f[2], r)), r != Const('nil_Ref', s.sort('Ref'))), st.guard)
        st.heap[h] = SV([c.f[0], c.f[1], z3.Store(c.f[2], r, TRUE)])
        s.refput(st, t, r, s.zero(t))
        return r

    def signed(s, t):
        u = s.prog.under(t) if t['k'] == 'named' else t
        n = u.get('n')
        if n in ('int', 'untyped int'): return True
        return INTW.get(n, (64, False))[1]

    def strconst(s, v):
        if v not in s.strs:
            c = Const('str!%d' % len(s.strs), s.sort('Str'))
            for o in s.strs.values(): s.facts.append(c != o)
            s.strs[v] = c
        return s.strs[v]

    def elem_struct(s, t):
        """struct-valued element types (map entries) are boxed by their theory"""
        return s.opts.get('boxed', {}).get(tstr(t))

    def zero(s, t):
        k = t['k']
        if k == 'named' and t['n'] == 'tree.node': return s.theory(t['a'][0]).nil
        if k == 'named' and t['n'] == 'tree.hasher' and not s.opts.get('hasherbv'):
            return Const('hzero', s.sort('H'))
        if k == 'named' and t['n'] in s.opts.get('ifaces', ()): return Const('nil_' + t['n'], s.sort(t['n']))
        u = s.prog.under(t) if k == 'named' else t
        k = u['k']
        if k == 'basic':
            so = s.zsort(u)
            if so is None: raise Unsupported('zero of ' + tstr(t))
            if so == IntSort(): return IntVal(0)
            if so == BoolSort(): return FALSE
            if so.kind() == z3.Z3_BV_SORT: return BitVecVal(0, so)
            if u['n'] in ('string', 'untyped string'): return s.strconst('')
            return Const('zero_' + u['n'], so)
        if k in ('sort', 'tp'): return Const('zero_' + u['n'], s.zsort(u))
        if k == 'ptr' and s.isref(u): return Const('nil_Ref', s.sort('Ref'))
        if k == 'struct': return SV([s.zero(f['t']) for f in u['f']])
        if k == 'array':
            e = u['e']
            if s.isnode(e):
                z = s.zero(e)
                return FA(u['len'], lambda j, z=z: z, True)
            if u['len'] >= 8 and s.zsort(e) is not None:
                z = s.zero(e)
                return FA(u['len'], lambda j, z=z: z)
            return AV([s.zero(e) for _ in range(u['len'])])
        if k == 'slice': return SL(None, IntVal(0), IntVal(0), IntVal(0), TRUE)
        return NIL

    def symval(s, t, name):
        """fresh unconstrained value of type t"""
        k = t['k']
        if s.nodekind(t) : raise Unsupported('symval node struct')
        so = s.zsort(t)
        if so is not None: return s.fresh(name, so)
        u = s.prog.under(t) if k == 'named' else t
        if u['k'] == 'struct':
            return SV([s.symval(f['t'], name + '.' + f['n']) for f in u['f']])
        if u['k'] == 'slice':
            return s.symslice(u['e'], name)
        if u['k'] == 'array':
            return AV([s.symval(u['e'], name + str(i)) for i in range(u['len'])])
        if u['k'] == 'func':
            return s.symfunc(u, name)
        raise Unsupported('symbolic value of type ' + tstr(t))

    def symfunc(s, u, name):
        ps, rs = u['p']['e'], u['r']['e']
        n = s.fresh_n()
        def call(eng, st, args, pos):
            zs = [eng.box(p, a) for p, a in zip(ps, args)]
            out = []
            for i, r in enumerate(rs):
                so = eng.boxsort(r)
                f = Function('%s!%d_%d' % (name, n, i), *[z.sort() for z in zs], so)
                out.append(eng.unbox(r, f(*zs) if zs else Const('%s!%d_%d' % (name, n, i), so)))
            return out[0] if len(out) == 1 else (tuple(out) if out else None)
        return UF(call, name)

    # boxing of values as z3 terms (used for callback arguments and elements)
    def boxsort(s, t):
        so = s.zsort(t)
        if so is not None: return so
        b = s.elem_struct(t)
        if b: return b.sort(s)
        u = s.prog.under(t) if t['k'] == 'named' else t
        if u['k'] == 'struct': return s.structbox(t)[0]
        if u['k'] == 'slice': return s.sort('Slice_' + tstr(t))
        raise Unsupported('box sort of ' + tstr(t))

    def structbox(s, t):
        key = 'box:' + tstr(t)
        if key not in s.sorts:
            u = s.prog.under(t)
            fs = [(('%s_f%d' % (tstr(t), i)), s.boxsort(f['t'])) for i, f in enumerate(u['f'])]
            d = z3.Datatype('Box_' + tstr(t))
            d.declare('mk_' + tstr(t), *fs)
            d = d.create()
            s.sorts[key] = (d, u)
        return s.sorts[key]

    def box(s, t, v):
        if isinstance(v, z3.ExprRef): return v
        if isinstance(v, Union) and s.isnode(t): raise Unsupported('box union')
        u = s.prog.under(t) if t['k'] == 'named' else t
        if u['k'] == 'struct' and isinstance(v, SV):
            if len(u['f']) == 1 and False: pass
            d, _ = s.structbox(t)
            return mkstruct(d, [s.box(f['t'], x) for f, x in zip(u['f'], v.f)])
        if s.isnode(t) is not None and s.cur is not None: return s.to_node(s.cur, v, s.isnode(t), False)
        if isinstance(v, IV): return s.ivbox(v)
        if isinstance(v, SL): return s.slbox(t, u, v)
        if v is NIL: return Const('nil_Any', s.sort('Any'))
        raise Unsupported('box %r as %s' % (v, tstr(t)))

    def slbox(s, t, u, v):
        """a short slice literal stored as an element: its backing array must not be written afterwards"""
        st = s.cur
        n, o = conc(v.len), conc(v.off)
        if n is None or o is None or n > 8 or st is None or u['k'] != 'slice': raise Unsupported('box slice')
        obj = v.back
        if obj is None: return s.litbox(t, [])
        if getattr(obj, 'epoch', None) != s.epoch or not s.writable(obj): raise Unsupported('slice stored as an element outlives its allocation')
        c = s.content(st, obj)
        es = [s.box(u['e'], c.e[o + i] if isinstance(c, AV) else z3.Select(c, IntVal(o + i))) for i in range(n)]
        obj.escaped = True
        return s.litbox(t, es)

    def litbox(s, t, es):
        return Function('lit_%s_%d' % (tstr(t), len(es)), *[e.sort() for e in es], s.sort('Slice_' + tstr(t)))(*es)

    def ivbox(s, v):
        z = s.box(v.t, v.v)
        f = Function('any_of_' + tstr(v.t), z.sort(), s.sort('Any'))
        g = Function('as_' + tstr(v.t), s.sort('Any'), z.sort())
        s.fact(g(f(z)) == z)
        return f(z)

    def unbox(s, t, z):
        if s.zsort(t) is not None: return z
        u = s.prog.under(t) if t['k'] == 'named' else t
        if u['k'] == 'struct':
            d, _ = s.structbox(t)
            z = z3.simplify(z) if False else z
            out = []
            for i, f in enumerate(u['f']):
                if z.decl().eq(d.constructor(0)): x = z.arg(i)
                else: x = d.accessor(0, i)(z)
                out.append(s.unbox(f['t'], x))
            return SV(out)
        if u['k'] == 'slice': return s.slunbox(t, u, z)
        raise Unsupported('unbox ' + tstr(t))

    def slparts(s, t, z):
        """(contents, length) of a slice stored as an element"""
        u = s.prog.under(t) if t['k'] == 'named' else t
        ta = s.theory_arr(u['e'])
        A = Function('arr_of_' + tstr(t), z.sort(), ta.Arr)
        L = Function('len_of_' + tstr(t), z.sort(), IntSort())
        if not s.__dict__.setdefault('_slp', {}).get(tstr(t)):
            s._slp[tstr(t)] = True
            s.axiom(All([z.sort()], lambda q: L(q) >= 0, lambda q: [L(q)]))
        return A(z), L(z)

    def slunbox(s, t, u, z):
        m = s.__dict__.setdefault('_slu', {})
        k = z.get_id()
        if k not in m:
            a, l = s.slparts(t, z)
            o = Obj({'k': 'backing', 'e': u['e']}, 'slice', fresh=False)
            o.init = a
            cp = s.fresh('cap', IntSort())
            s.fact(cp >= l)
            m[k] = (SL(o, IntVal(0), l, cp, FALSE), z)
        return m[k][0]

    # ------------------------------------------------------------ heap
    def alloc(s, st, typ, val, name='', **kw):
        o = Obj(typ, name, **kw)
        o.depth = s.par['level'] if s.par else 0
        o.epoch = s.epoch
        st.heap[o] = val
        return o

    def symslice(s, et, name, minlen=0):
        th = s.theory_arr(et)
        o = Obj({'k': 'backing', 'e': et}, name + '.arr', fresh=False)
        a = s.fresh(name + '.arr', th.Arr)
        ln = s.fresh(name + '.len', IntSort()); cp = s.fresh(name + '.cap', IntSort())
        s.fact(mkand(ln >= minlen, cp >= ln))
        o.init = a
        return SL(o, IntVal(0), ln, cp, s.fresh(name + '.nil', BoolSort()) if False else FALSE)

    def theory_arr(s, et):
        from theory import ArrTheory
        k = 'arr:' + tstr(et)
        if k not in s.theories: s.theories[k] = ArrTheory(s, et)
        return s.theories[k]

    def content(s, st, o):
        if o in st.heap: return st.heap[o]
        if hasattr(o, 'init'):
            return o.init
        raise Unsupported('object not in heap: %r' % o)

    def node_obj(s, st, n, kind, et, owned=False, depth=None):
        """materialise the pointer behind an abstract node term"""
        th = s.theory(et)
        key = (n.get_id(), kind)
        if not hasattr(th, 'mats'): th.mats = {}
        if key not in th.mats:
            tn = [k for k, v in s.NODEKINDS.items() if v == kind][0]
            o = Obj({'k': 'named', 'n': tn, 'a': [et]}, str(n), fresh=False, owned=owned)
            o.absterm = n
            th.mats[key] = (o, n)
            o.init = s.node_fields(n, kind, et, o)
            th.unfold(n, kind, s.ghostd if depth is None else depth)
        return th.mats[key][0]

    def node_fields(s, n, kind, et, owner):
        th = s.theory(et)
        if kind == 1: return SV([s.unbox(et, th.l1(n))])
        if kind == 2: return SV([AV([s.unbox(et, th.l2a(n)), s.unbox(et, th.l2b(n))])])
        if kind == 3:
            b = Obj({'k': 'backing', 'e': et}, '%s.data' % n, fresh=False, owned=owner.owned)
            b.init = th.twarr(n)
            s.theory_arr(et)
            b.owner = owner
            return SV([SL(b, IntVal(0), th.twlen(n), th.twcap(n))])
        return SV([SV([th.brmask(n), FA(8, lambda j, n=n, th=th: th.ch(n, zint(j)), True)])])

    def to_node(s, st, v, et, retain=True):
        """z3 Node term for a node-typed value"""
        th = s.theory(et)
        if isinstance(v, z3.ExprRef): return v
        if v is NIL: return th.nil
        if isinstance(v, Union):
            r = None
            for g, x in reversed(v.alts):
                t = s.to_node(st, x, et, retain)
                r = t if r is None else mkif(g, t, r)
            return r
        if isinstance(v, IV): return s.to_node(st, v.v, et, retain)
        if isinstance(v, Ptr):
            if v.path: raise Unsupported('interior node pointer')
            o = v.o
            if hasattr(o, 'absterm') and o not in st.heap and s.back_unchanged(st, o, o.absterm): return o.absterm
            if o in st.abs and s.back_unchanged(st, o, st.abs[o]):
                if retain: o.escaped = True
                return st.abs[o]
            nk = s.nodekind(o.typ)
            if not nk: raise Unsupported('not a node object: %r' % o)
            kind, et2 = nk
            n = s.fresh('N', th.Node)
            s.def_node(st, n, kind, et, s.content(st, o), retain)
            st.abs[o] = n
            if retain: o.escaped = True
            return n
        raise Unsupported('to_node %r' % (v,))

    def back_unchanged(s, st, o, n):
        """is the array behind a twig still the one its abstract node was defined from?"""
        v = st.heap[o] if o in st.heap else o.init
        if s.nodekind(o.typ)[0] != 3: return True
        sl = v.f[0]
        if not isinstance(sl, SL) or sl.back is None: return True
        cur = s.content(st, sl.back)
        ref = s.twback.get(n.get_id())
        if ref is None: return not (hasattr(o, 'absterm') and o.absterm is n) or cur is getattr(sl.back, 'init', None)
        return ref[0] is sl.back and ref[1] is cur

    def def_node(s, st, n, kind, et, val, retain):
        th = s.theory(et)
        if kind == 3 and val.f[0].back is not None: s.twback[n.get_id()] = (val.f[0].back, s.content(st, val.f[0].back), n)
        s.fact(th.kind(n) == kind)
        if kind <= 2: s.fact(th.OWN(n))
        if kind == 1: s.fact(th.l1(n) == s.box(et, val.f[0]))
        elif kind == 2:
            s.fact(th.l2a(n) == s.box(et, val.f[0].e[0]))
            s.fact(th.l2b(n) == s.box(et, val.f[0].e[1]))
        elif kind == 3:
            sl = val.f[0]
            a, ln = s.slice_arr(st, sl, et)
            if retain and sl.back is not None: sl.back.escaped = True
            s.fact(th.twarr(n) == a); s.fact(th.twlen(n) == ln); s.fact(th.twcap(n) == sl.cap)
            own = TRUE if sl.back is None or s.writable(sl.back) or sl.back.fresh else FALSE
            s.fact(mkimp(BoolVal(is_true(own)), th.OWN(n)))
        else:
            mask, fa = val.f[0].f
            s.fact(th.brmask(n) == mask)
            for j in range(8): s.fact(th.ch(n, IntVal(j)) == fa.get(IntVal(j)))
            s.fact(mkimp(And(*[th.OWN(th.ch(n, IntVal(j))) for j in range(8)]), th.OWN(n)))
            if True:
                s.fact(All([IntSort()], lambda j: mkimp(And(0 <= j, j < 8), th.ch(n, j) == fa.get(j)), lambda j: [th.ch(n, j)]))
        th.unfold(n, kind, s.ghostd)

    def slice_arr(s, st, sl, et):
        """(Arr term indexed from 0, length) for a slice"""
        ta = s.theory_arr(et)
        if sl.back is None: return ta.empty, IntVal(0)
        c = s.content(st, sl.back)
        if isinstance(c, z3.ExprRef):
            if conc(sl.off) == 0: return c, sl.len
            a = s.fresh('arr', ta.Arr)
            s.fact(All([IntSort()], lambda j: ta.at(a, j) == ta.at(c, j + sl.off), lambda j: [ta.at(a, j)]))
            return a, sl.len
        a = s.fresh('arr', ta.Arr)
        off = conc(sl.off)
        if off is None: raise Unsupported('symbolic slice offset')
        if isinstance(c, AV):
            for i, e in enumerate(c.e[off:]): s.fact(ta.at(a, IntVal(i)) == s.box(et, e))
        else:
            for i in range(c.n - off): s.fact(ta.at(a, IntVal(i)) == c.get(IntVal(i + off)))
        return a, sl.len

    def slice_arr_ro(s, st, sl, et):
        """like slice_arr, memoised per content term so that repeated queries give the same term"""
        ta = s.theory_arr(et)
        if sl.back is None: return ta.empty, IntVal(0)
        c = s.content(st, sl.back)
        if isinstance(c, z3.ExprRef) and conc(sl.off) == 0: return c, sl.len
        return s.slice_arr(st, sl, et)

    # path access
    def getpath(s, v, path, st, guard, pos):
        for k, x in path:
            if k == 'f':
                if not isinstance(v, SV): raise Unsupported('field of %r' % (v,))
                v = v.f[x]
            else:
                v = s.index(v, x)
        return v

    def index(s, v, x):
        if isinstance(v, AV):
            c = conc(x)
            if c is not None:
                if not 0 <= c < len(v.e): raise Unsupported('index out of range in dead code')
                return v.e[c]
            r = v.e[-1]
            for i in range(len(v.e) - 2, -1, -1): r = s.merge(zint(x) == i, v.e[i], r)
            return r
        if isinstance(v, FA): return v.get(zint(x))
        if isinstance(v, z3.ExprRef):
            ta = s.arr_of(v)
            return s.unbox(ta.et, ta.at(v, zint(x)))
        raise Unsupported('index of %r' % (v,))

    def arr_of(s, v):
        for k, t in s.theories.items():
            if k.startswith('arr:') and t.Arr == v.sort(): return t
        raise Unsupported('not an array term')

    def setpath(s, v, path, nv, st):
        if not path: return nv
        (k, x), rest = path[0], path[1:]
        if k == 'f': return v.set(x, s.setpath(v.f[x], rest, nv, st))
        if isinstance(v, AV):
            c = conc(x)
            l = list(v.e)
            if c is not None: l[c] = s.setpath(l[c], rest, nv, st)
            else:
                for i in range(len(l)): l[i] = s.merge(zint(x) == i, s.setpath(l[i], rest, nv, st), l[i])
            return AV(l)
        if isinstance(v, FA):
            if rest: raise Unsupported('nested store in functional array')
            if v.node: nv = s.to_node(st, nv, s.node_et_of(nv, v), True)
            g0, xx = v.get, zint(x)
            return FA(v.n, lambda j, g0=g0, xx=xx, nv=nv: mkif(simp_eq(zint(j), xx), nv, g0(j)), v.node)
        if isinstance(v, z3.ExprRef):
            ta = s.arr_of(v)
            if rest:
                old = s.unbox(ta.et, ta.at(v, zint(x)))
                nv = s.setpath(old, rest, nv, st)
            x, nv = zint(x), s.box(ta.et, nv)
            a = s.fresh('st', ta.Arr)
            s.facts.append(ta.at(a, x) == nv)
            s.fact(All([IntSort()], lambda i: Or(i == x, ta.at(a, i) == ta.at(v, i)), lambda i: [ta.at(a, i), ta.at(v, i)]))
            return a
        raise Unsupported('setpath %r' % (v,))

    def node_et_of(s, nv, fa):
        if isinstance(nv, z3.ExprRef):
            for k, t in s.theories.items():
                if not k.startswith('arr:') and t.Node == nv.sort(): return t.et
        if isinstance(nv, Ptr): return s.nodekind(nv.o.typ)[1]
        if isinstance(nv, Union): return s.node_et_of(nv.alts[0][1], fa)
        z = fa.get(IntVal(0))
        return s.node_et_of(z, fa)

    def load(s, st, p, pos, name='nil dereference'):
        if isinstance(p, Union):
            r = None
            for g, x in reversed(p.alts):
                if x is NIL or (isinstance(x, OptRef)):
                    pass
                if x is NIL:
                    s.oblige(name, 'safe', mkand(st.guard, g), FALSE, pos); continue
                v = s.load(st, x, pos, name)
                r = v if r is None else s.merge(g, v, r)
            if r is None: raise Unsupported('load of nil')
            return r
        if p is NIL:
            s.oblige(name, 'safe', st.guard, FALSE, pos)
            raise Dead()
        if isinstance(p, OptRef):
            s.oblige(name, 'safe', st.guard, p.nn, pos)
            return p.val
        if isinstance(p, Ptr):
            if s.par is not None: s.par_access(p, False, st, pos)
            if p.o.stale: s.oblige('read of stale slice memory', 'frame', st.guard, FALSE, pos)
            v = s.getpath(s.content(st, p.o), p.path, st, st.guard, pos)
            if isinstance(v, z3.ExprRef) and p.path: s.prov[v.get_id()] = (v, p)
            return v
        raise Unsupported('load through %r' % (p,))

    def writable(s, o):
        if getattr(o, 'ghost', False): return True
        if o.owned: return True
        return o.fresh and not o.escaped

    def store(s, st, p, v, pos):
        if isinstance(p, Union):
            for g, x in p.alts:
                if x is NIL:
                    s.oblige('nil dereference', 'safe', mkand(st.guard, g), FALSE, pos); continue
                if isinstance(x, Ptr):
                    old = s.getpath(s.content(st, x.o), x.path, st, st.guard, pos)
                    s.store(st, x, s.merge(g, v, old), pos)
                else: raise Unsupported('store to union')
            return
        if p is NIL:
            s.oblige('nil dereference', 'safe', st.guard, FALSE, pos)
            raise Dead()
        if isinstance(p, OptRef):
            s.oblige('write through element pointer of a shared node', 'frame', st.guard, FALSE, pos); return
        if not isinstance(p, Ptr): raise Unsupported('store through %r' % (p,))
        if s.par is not None: s.par_access(p, True, st, pos)
        g = st.mk.get(('spawnread', p.o.id)) if s.opts.get('conc') else None
        if g is not None and not is_false(g):
            s.oblige('race: a write to memory that a goroutine started earlier reads (%s)' % p.o.name.split('!')[0], 'race', mkand(st.guard, g), FALSE, pos)
        if not s.writable(p.o):
            s.oblige('frame: write to memory the function does not own (%s)' % p.o.name.split('!')[0], 'frame', st.guard, FALSE, pos)
        for q in getattr(p.o, 'parents', ()): q.stale = True
        for q in getattr(p.o, 'children', ()): q.stale = True
        cur = s.content(st, p.o)
        st.heap[p.o] = s.setpath(cur, p.path, v, st)
        st.abs.pop(p.o, None)

    # ------------------------------------------------------------ merging
    def merge(s, c, a, b):
        if a is b: return a
        if is_true(c): return a
        if is_false(c): return b
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if a.sort() != b.sort(): raise Unsupported('merge sorts %s %s' % (a.sort(), b.sort()))
            return s.name_ite(mkif(c, a, b))
        if isinstance(a, SV) and isinstance(b, SV):
            return SV([s.merge(c, x, y) for x, y in zip(a.f, b.f)])
        if isinstance(a, AV) and isinstance(b, AV):
            return AV([s.merge(c, x, y) for x, y in zip(a.e, b.e)])
        if isinstance(a, FA) and isinstance(b, FA):
            ga, gb = a.get, b.get
            return FA(a.n, lambda j: mkif(c, ga(j), gb(j)), a.node)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return tuple(s.merge(c, x, y) for x, y in zip(a, b))
        if isinstance(a, SL) and isinstance(b, SL):
            bk = a.back if b.back is None else b.back if a.back is None else a.back if a.back is b.back else None
            if bk is not None or (a.back is None and b.back is None):
                return SL(bk, mkif(c, a.off, b.off) if a.back is not None and b.back is not None else (a.off if a.back is not None else b.off),
                          s.name_ite(mkif(c, a.len, b.len)), s.name_ite(mkif(c, a.cap, b.cap)), s.name_bool(mkif(c, a.nil, b.nil)))
            m = s.merge_slices(c, a, b)
            if m is not None: return m
            return Union(s.mergealts(c, a, b))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.same(b): return a
        if isinstance(a, IterV) and isinstance(b, IterV) and a.o is b.o: return a
        if isinstance(a, OptRef) and isinstance(b, OptRef):
            return OptRef(mkif(c, a.nn, b.nn), s.merge(c, a.val, b.val))
        if isinstance(a, FV) and isinstance(b, FV) and a.fn == b.fn and a.binds == b.binds: return a
        if isinstance(a, IV) and isinstance(b, IV) and tstr(a.t) == tstr(b.t):
            return IV(a.t, s.merge(c, a.v, b.v))
        if a is None or b is None: return a if b is None else b
        return Union(s.mergealts(c, a, b))

    def name_ite(s, e):
        """give a merged value a name, so that terms stay small and usable as patterns"""
        if s.pure or not z3.is_app(e) or e.decl().kind() != z3.Z3_OP_ITE: return e
        if z3.is_bool(e) or z3.is_bv(e): return e
        v = s.fresh('phi', e.sort())
        s.facts.append(v == e)
        s.itedef[v.get_id()] = (v, e)
        return v

    def name_bool(s, e):
        if s.pure or not z3.is_app(e) or e.num_args() == 0 or (z3.is_not(e) and e.arg(0).num_args() == 0): return e
        v = s.fresh('pb', BoolSort())
        s.facts.append(v == e)
        return v

    def mergealts(s, c, a, b):
        xs = a.alts if isinstance(a, Union) else [(TRUE, a)]
        ys = b.alts if isinstance(b, Union) else [(TRUE, b)]
        out = [(mkand(c, g), v) for g, v in xs]
        for g, v in ys:
            g2 = mkand(mknot(c), g)
            for i, (h, w) in enumerate(out):
                if w is v or (isinstance(w, Ptr) and isinstance(v, Ptr) and w.same(v)):
                    out[i] = (mkor(h, g2), w); break
            else: out.append((g2, v))
        if len(out) == 1: return out
        return out

    def merge_states(s, sts):
        """merge FS list (disjoint guards)"""
        if len(sts) == 1: return sts[0]
        r = sts[-1].copy()
        for t in reversed(sts[:-1]):
            c = t.guard
            heap = {}
            old = s.mctx
            s.mctx = (c, t, r, heap)
            try:
                for o in list(t.heap) + [o for o in r.heap if o not in t.heap]:
                    if o in heap: continue
                    if o in t.heap and o in r.heap: heap[o] = s.merge(c, t.heap[o], r.heap[o])
                    elif o in t.heap:
                        heap[o] = s.merge(c, t.heap[o], o.init) if hasattr(o, 'init') else t.heap[o]
                    else:
                        heap[o] = s.merge(c, o.init, r.heap[o]) if hasattr(o, 'init') else r.heap[o]
                env = {}
                for k in t.env:
                    if k in r.env:
                        try: env[k] = s.merge(c, t.env[k], r.env[k])
                        except Unsupported: pass
            finally: s.mctx = old
            ab = {}
            for o in heap:
                if o in t.abs and o in r.abs and t.abs[o] is r.abs[o]: ab[o] = t.abs[o]
                elif o in t.abs and o not in r.heap: ab[o] = t.abs[o]
                elif o in r.abs and o not in t.heap: ab[o] = r.abs[o]
                elif o in t.abs and o in r.abs: ab[o] = mkif(c, t.abs[o], r.abs[o])
            mk = {}
            for k in set(t.mk) | set(r.mk): mk[k] = mkif(c, t.mk.get(k, FALSE), r.mk.get(k, FALSE))
            r = FS(s.join_guard(c, r.guard), heap, ab, env, None, mk)
        return r

    def join_guard(s, a, b):
        def conj(x): return list(x.children()) if z3.is_and(x) else [x]
        def flat(x):
            out = []
            for y in conj(x):
                out += flat(y) if z3.is_and(y) else [y]
            return out
        xs, ys = flat(a), flat(b)
        xi, yi = {x.get_id() for x in xs}, {y.get_id() for y in ys}
        dx = [x for x in xs if x.get_id() not in yi]
        dy = [y for y in ys if y.get_id() not in xi]
        if len(dx) == 1 and len(dy) == 1 and mknot(dx[0]).eq(dy[0]) or len(dx) == 1 and len(dy) == 1 and mknot(dy[0]).eq(dx[0]):
            return mkand(*[x for x in xs if x.get_id() in yi])
        if not dx: return a
        if not dy: return b
        com = [x for x in xs if x.get_id() in yi]
        g = mkand(*com, mkor(mkand(*dx), mkand(*dy)))
        if s.pure: return g
        v = s.fresh('g', BoolSort())
        s.facts.append(v == g)
        return mkand(*com, v) if com else v

    def merge_slices(s, c, a, b):
        """slices over different backing arrays: join the contents into a new backing object; the
        old ones may no longer be written through other references"""
        if s.mctx is None: return None
        c0, t, r, heap = s.mctx
        if c0 is not c: return None
        rw = s.writable(a.back) and s.writable(b.back)
        if conc(a.off) != 0 or conc(b.off) != 0: return None
        key = (a.back.id, b.back.id, c.get_id())
        memo = s.__dict__.setdefault('_smemo', {})
        if key not in memo:
            et = a.back.typ.get('e') or b.back.typ.get('e')
            if et is None: return None
            ca = s.as_arr(a.back, s.content(t, a.back), et)
            cb = s.as_arr(b.back, s.content(r, b.back), et)
            o = Obj({'k': 'backing', 'e': et}, 'joined', fresh=bool(rw))
            o.depth = 0
            if rw: o.parents = (a.back, b.back)
            for q in (a.back, b.back): q.__dict__.setdefault('children', []).append(o)
            memo[key] = (o, s.name_ite(mkif(c, ca, cb)), c)
        o, v, _ = memo[key]
        heap[o] = v
        return SL(o, IntVal(0), s.name_ite(mkif(c, a.len, b.len)), s.name_ite(mkif(c, a.cap, b.cap)), s.name_bool(mkif(c, a.nil, b.nil)))

    def as_arr(s, o, v, et):
        if isinstance(v, z3.ExprRef): return v
        ta = s.theory_arr(et)
        if isinstance(v, AV):
            a = s.fresh('arr', ta.Arr)
            for i, e in enumerate(v.e): s.fact(ta.at(a, IntVal(i)) == s.box(et, e))
            return a
        raise Unsupported('array view of %r' % (v,))

    # ------------------------------------------------------------ execution
    def run(s, key, args, st, tenv=None, binds=(), depth=0, parent=None):
        """execute body of key; returns (result, FS) merged over returns, or (None, None) if it never returns"""
        fn = s.prog.fns.get(key)
        if fn is None: raise Unsupported('no body for ' + key)
        if depth > s.MAXINLINE: raise Unsupported('inlining too deep at ' + key)
        fr = Frame(key, tenv or {}, depth, parent)
        env = {}
        if len(args) != len(fn['params']): raise Unsupported('arity of ' + key)
        names = {}
        for p, a in zip(fn['params'], args):
            if p['n'] == 'p:_': continue
            env[p['n']] = a
        for p, a in zip(fn['free'], binds): env['free:' + p['n']] = a
        f0 = FS(st.guard, dict(st.heap), dict(st.abs), env, None, dict(st.mk))
        order, loops = s.prog.cfg(key)
        outs = s.region(fr, set(order), 0, [f0], None)
        assert not outs
        if not fr.returns: return None, None
        if len(fr.returns) == 1:
            r, v = fr.returns[0]
            return v, FS(r.guard, r.heap, r.abs, st.env, st.src, r.mk)
        states = [x for x, _ in fr.returns]
        for x, v in fr.returns: x.env = {'ret': v}
        m = s.merge_states(states)
        if 'ret' not in m.env: raise Unsupported('cannot merge results of ' + key)
        v = m.env['ret']
        return v, FS(m.guard, m.heap, m.abs, st.env, st.src, m.mk)

    def region(s, fr, blocks, entry, states, within):
        """run blocks in topological order; returns edges leaving the region [(src,dst,FS)]"""
        order, loops = s.prog.cfg(fr.key)
        pend = {entry: list(states)}
        outs = []
        first = True
        for b in order:
            if b not in blocks or not pend.get(b): continue
            sts = [x for x in pend.pop(b) if not is_false(x.guard)]
            if not sts: continue
            if b in loops and not (first and within == b):
                edges = s.loop(fr, b, loops[b], sts)
            else:
                first = False
                m = s.enter(fr, b, sts)
                edges = s.block(fr, b, m)
            first = False
            for (src, dst, x) in edges:
                x.src = src
                if dst in blocks and not (within is not None and dst == within):
                    pend.setdefault(dst, []).append(x)
                else:
                    outs.append((src, dst, x))
        return outs

    def enter(s, fr, b, sts):
        """resolve phis per incoming edge, then merge"""
        blk = s.prog.fns[fr.key]['blocks'][b]
        phis = [i for i in blk['i'] if i['op'] == 'Phi']
        if phis:
            for x in sts:
                if x.src == 'havoc': continue
                k = blk['p'].index(x.src)
                vals = [s.val(fr, x, p['xs'][k]) for p in phis]
                for p, v in zip(phis, vals): x.env[p['r']] = v
        return s.merge_states(sts)

    def block(s, fr, b, st):
        blk = s.prog.fns[fr.key]['blocks'][b]
        st = st.copy()
        try:
            for ins in blk['i']:
                op = ins['op']
                if op == 'Phi': continue
                if op == 'Jump': return [(b, blk['s'][0], st)]
                if op == 'If':
                    c = s.val(fr, st, ins['x'])
                    if s.condlog is not None: s.condlog.append(c)
                    c = z3.simplify(c)
                    if is_true(c): return [(b, blk['s'][0], st)]
                    if is_false(c): return [(b, blk['s'][1], st)]
                    gt, gf = mkand(st.guard, c), mkand(st.guard, mknot(c))
                    r = []
                    ft = s.feasible(gt)
                    ff = s.feasible(gf) if ft else True
                    if ft and ff:
                        t, f = st.copy(), st
                        t.guard, f.guard = gt, gf
                        return [(b, blk['s'][0], t), (b, blk['s'][1], f)]
                    if ft: return [(b, blk['s'][0], st)]
                    return [(b, blk['s'][1], st)]
                if op == 'Return':
                    xs = [s.val(fr, st, x) for x in ins['xs']]
                    s.on_return(fr, st, xs)
                    return []
                if op == 'Panic':
                    s.on_panic(fr, st, ins)
                    return []
                s.instr(fr, st, ins)
        except Dead:
            return []
        raise Unsupported('block without terminator')

    def on_return(s, fr, st, xs):
        v = xs[0] if len(xs) == 1 else tuple(xs) if xs else ()
        fr.returns.append((st, v))

    def on_panic(s, fr, st, ins):
        ok = s.opts.get('may_panic')
        goal = FALSE
        if ok is not None: goal = ok(s, st)
        s.oblige('unreachable panic', 'safe', st.guard, goal, ins.get('pos', ''), assume=False)

    # ------------------------------------------------------------ loops
    MAXUNROLL = 70

    def loop(s, fr, h, body, sts):
        plan = s.loop_plan(fr, h, body, sts)
        if plan is not None: return plan()
        r = s.maskloop(fr, h, body, sts)
        if r is not None: return r
        outs = []
        cur = sts
        for it in range(s.MAXUNROLL):
            edges = s.region(fr, body, h, cur, h)
            cur = []
            for (src, dst, x) in edges:
                if dst == h:
                    x.src = src
                    cur.append(x)
                else: outs.append((src, dst, x))
            cur = [x for x in cur if not is_false(z3.simplify(x.guard))]
            if not cur: return outs
            # progress must be concrete: after a few rounds insist on solver-refutable continuation
            if it >= 2:
                cur = [x for x in cur if s.feasible(x.guard)]
                if not cur: return outs
        raise Unsupported('loop in %s not bounded' % fr.key)

    def maskloop(s, fr, h, body, sts):
        """a loop over the bits of a 16-bit mask m, lowest first: one round per bit position, run when the bit is set"""
        blk = s.prog.fns[fr.key]['blocks'][h]
        t = blk['i'][-1]
        phis = [i for i in blk['i'] if i['op'] == 'Phi']
        if t['op'] != 'If' or not s.opts.get('maskloop', True): return None
        snap = s.snapshot()
        nret = len(fr.returns)
        try:
            st = s.enter(fr, h, [x.copy() for x in sts])
            probe = st.copy()
            c = None
            for ins in blk['i']:
                if ins['op'] == 'Phi': continue
                if ins['op'] == 'If': c = z3.simplify(s.val(fr, probe, ins['x'])); break
                s.instr(fr, probe, ins)
            if c is None or not z3.is_eq(c) and not z3.is_not(c): return None
            eqt = c.arg(0) if z3.is_not(c) else c
            if not (z3.is_eq(eqt) and z3.is_bv(eqt.arg(0)) and eqt.arg(0).size() == 16): return None
            M = eqt.arg(1) if conc(eqt.arg(0)) == 0 else eqt.arg(0)
            if conc(M) is not None or 0 not in (conc(eqt.arg(0)), conc(eqt.arg(1))): return None
            ph = [p['r'] for p in phis if isinstance(st.env[p['r']], z3.ExprRef) and st.env[p['r']].eq(M)]
            if len(ph) != 1: return None
            ph = ph[0]
            outs = []
            cur = st
            def rest(i):        # M without its low i bits
                return M if i == 0 else z3.Concat(z3.Extract(15, i, M), BitVecVal(0, i)) if i < 16 else BitVecVal(0, 16)
            for i in range(16):
                bit = z3.simplify(z3.Extract(i, i, M) == 1)
                nxt = []
                off = cur.copy(); off.guard = mkand(cur.guard, mknot(bit)); off.env[ph] = rest(i + 1); off.src = 'havoc'
                if not is_false(z3.simplify(off.guard)): nxt.append(off)
                on = cur.copy(); on.guard = mkand(cur.guard, bit); on.src = 'havoc'
                parts = ([z3.Extract(15, i + 1, M)] if i < 15 else []) + [BitVecVal(1, 1)] + ([BitVecVal(0, i)] if i else [])
                on.env[ph] = z3.Concat(*parts) if len(parts) > 1 else parts[0]
                if s.feasible(on.guard):
                    for (src, dst, x) in s.region(fr, body, h, [on], h):
                        if is_false(z3.simplify(x.guard)): continue
                        if dst != h: outs.append((src, dst, x)); continue
                        y = x.copy()
                        k = blk['p'].index(src)
                        vals = [s.val(fr, y, p['xs'][k]) for p in phis]
                        for p, v in zip(phis, vals): y.env[p['r']] = v
                        if not s.valid(y.guard, y.env[ph] == rest(i + 1), 2000): return None
                        y.env[ph] = rest(i + 1); y.src = 'havoc'
                        nxt.append(y)
                if not nxt: return outs
                cur = s.merge_states(nxt) if len(nxt) > 1 else nxt[0]
                cur.env[ph] = rest(i + 1)
            cur.src = 'havoc'
            for (src, dst, x) in s.region(fr, body, h, [cur], h):
                if dst == h and not is_false(z3.simplify(x.guard)): return None
                if dst != h: outs.append((src, dst, x))
            snap = None
            return outs
        except Unsupported:
            return None
        finally:
            if snap is not None:
                s.rollback(snap)
                del fr.returns[nret:]

    def loop_plan(s, fr, h, body, sts):
        from loops import plan
        return plan(s, fr, h, body, sts)

    # ------------------------------------------------------------ operands
    def val(s, fr, st, x):
        k = x['k']
        if k == 'reg':
            if x['n'] not in st.env: raise Unsupported('unset register %s in %s' % (x['n'], fr.key))
            return st.env[x['n']]
        if k == 'free': return st.env['free:' + x['n']]
        if k == 'const': return s.const(s.prog.sub(x['t'], fr.tenv), x)
        if k == 'fn':
            return s.fnval(fr, x)
        if k == 'global': return s.globalval(st, x)
        raise Unsupported('operand ' + k)

    def fnval(s, fr, x):
        fn = s.prog.fns.get(x['n'])
        tps = fn['tp'] if fn else []
        tenv = dict(zip(tps, [s.prog.sub(t, fr.tenv) for t in x.get('ta', [])]))
        return FV(x['n'], (), tenv)

    def globalval(s, st, x):
        if x['n'] not in s.opts.setdefault('globals', {}):
            t = x['t']
            assert t['k'] == 'ptr'
            o = Obj(t['e'], x['n'], fresh=False)
            try: o.init = s.symval(t['e'], x['n'])
            except Unsupported: o.init = NIL
            s.opts['globals'][x['n']] = o
        return Ptr(s.opts['globals'][x['n']])

    def const(s, t, x):
        if x.get('nil'): return s.zero(t)
        if 'b' in x: return BoolVal(x['b'])
        if 's' in x: return s.strconst(x['s'])
        if 'i' in x:
            so = s.zsort(t)
            if so is None: raise Unsupported('const type ' + tstr(t))
            v = int(x['i'])
            if so == IntSort(): return IntVal(v)
            if so.kind() == z3.Z3_BV_SORT: return BitVecVal(v, so)
            if t['k'] in ('sort',): return s.zero(t)
        if t['k'] in ('tp', 'sort') or True:
            return s.zero(t)

    # ------------------------------------------------------------ instructions
    def instr(s, fr, st, ins):
        op = ins['op']
        m = getattr(s, 'i_' + op, None)
        s.cur = st
        if m is None: raise Unsupported('instruction ' + op)
        r = m(fr, st, ins)
        if 'r' in ins: st.env[ins['r']] = r

    def T(s, fr, t): return s.prog.sub(t, fr.tenv)

    def i_Alloc(s, fr, st, ins):
        t = s.T(fr, ins['t'])['e']
        if s.isref({'k': 'ptr', 'e': t}): return s.refnew(st, t)
        o = s.alloc(st, t, s.zero(t), ins.get('c', ''))
        return Ptr(o)

    def i_Store(s, fr, st, ins):
        s.store(st, s.val(fr, st, ins['x']), s.val(fr, st, ins['y']), ins.get('pos', ''))

    def i_UnOp(s, fr, st, ins):
        x = s.val(fr, st, ins['x'])
        o = ins['o']
        if o == '*':
            if isinstance(x, z3.ExprRef): x = s.deref_abstract(fr, st, x, ins)
            return s.load(st, x, ins.get('pos', ''))
        if o == '!': return mknot(x)
        if o == '-': return s.wrapint(fr, -x, s.T(fr, ins['x']['t']))
        if o == '^': return ~x
        if o == '<-': return s.recv(fr, st, x, ins)
        raise Unsupported('unop ' + o)

    def deref_abstract(s, fr, st, x, ins):
        raise Unsupported('dereference of abstract pointer')

    def conc_hook(s, name):
        h = s.opts.get('conc')
        if h is None: raise Unsupported('concurrency (%s)' % name)
        return h

    def recv(s, fr, st, x, ins):
        if ins.get('ok'): raise Unsupported('channel receive with ok')
        return s.conc_hook('receive').recv(s, st, x, ins.get('pos', ''))

    def i_MakeChan(s, fr, st, ins):
        return s.conc_hook('channel').makechan(s, st, s.T(fr, ins['t']), s.val(fr, st, ins['x']))

    def i_Send(s, fr, st, ins):
        s.conc_hook('send').send(s, st, s.val(fr, st, ins['x']), s.val(fr, st, ins['y']), ins.get('pos', ''))

    def i_Go(s, fr, st, ins):
        c = ins['call']
        if c['mode'] not in ('dyn', 'static'): raise Unsupported('go %s' % c['mode'])
        args = [s.val(fr, st, a) for a in c['args']]
        if c['mode'] == 'static': f = lambda x: s.call(x, c['fn'], args, [s.prog.sub(t, fr.tenv) for t in c.get('ta', [])], fr, ins.get('pos', ''))
        else:
            fv = s.val(fr, st, c['fn'])
            f = lambda x: s.callfn(x, fv, args, fr, ins.get('pos', ''))
        s.conc_hook('goroutine').go(s, st, f, ins.get('pos', ''))

    def i_BinOp(s, fr, st, ins):
        x, y = s.val(fr, st, ins['x']), s.val(fr, st, ins['y'])
        t = s.T(fr, ins['x']['t'])
        r = s.binop(st, ins['o'], x, y, t, ins.get('pos', ''), s.T(fr, ins['y']['t']))
        if ins['o'] in ('+', '-', '*'): return s.wrapint(fr, r, t, ins['o'])
        return r

    def wrapint(s, fr, r, t, o='-'):
        """in the functions listed in opts['wrapints'] int and uint are 64-bit integers represented by
        their mathematical value, with explicit wrap-around"""
        w = s.opts.get('wrapints')
        if not w or not w(fr.key) or not isinstance(r, z3.ExprRef) or r.sort() != IntSort(): return r
        if o == '*': raise Unsupported('product of machine integers')
        lo, hi = (-2**63, 2**63) if s.signed(t) else (0, 2**64)
        return If(r >= hi, r - 2**64, If(r < lo, r + 2**64, r))

    def binop(s, st, o, x, y, t, pos, ty=None):
        if o in ('==', '!='):
            r = s.equal(st, x, y, t)
            return r if o == '==' else mknot(r)
        if o in ('<<', '>>'): return s.shift(st, o, x, y, t, ty, pos)
        if not (isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef)):
            raise Unsupported('binop %s on %r %r' % (o, x, y))
        if x.sort() == IntSort():
            if o in '+-*':
                r = x + y if o == '+' else x - y if o == '-' else x * y
                return simp(r) if z3.is_int_value(x) or z3.is_int_value(y) else r
            if o in ('/', '%'):
                s.oblige('division by zero', 'safe', st.guard, y != 0, pos)
                q = If(x >= 0, x / y, -((-x) / y)) if True else None
                c = conc(y)
                if c is None or c <= 0: raise Unsupported('division by symbolic/negative value')
                return simp(q) if o == '/' else simp(x - y * q)
            if o == '<': return x < y
            if o == '<=': return x <= y
            if o == '>': return x > y
            if o == '>=': return x >= y
        if z3.is_bv(x):
            sg = s.signed(t)
            if o == '+': return x + y
            if o == '-': return x - y
            if o == '*': return x * y
            if o == '&': return x & y
            if o == '|': return x | y
            if o == '^': return x ^ y
            if o == '&^': return x & ~y
            if o == '/':
                s.oblige('division by zero', 'safe', st.guard, y != 0, pos)
                return x / y if sg else z3.UDiv(x, y)
            if o == '%':
                s.oblige('division by zero', 'safe', st.guard, y != 0, pos)
                return z3.SRem(x, y) if sg else z3.URem(x, y)
            if o == '<': return x < y if sg else z3.ULT(x, y)
            if o == '<=': return x <= y if sg else z3.ULE(x, y)
            if o == '>': return x > y if sg else z3.UGT(x, y)
            if o == '>=': return x >= y if sg else z3.UGE(x, y)
        if o == '+' and x.sort() == s.sort('Str'):
            return Function('strcat', x.sort(), x.sort(), x.sort())(x, y)
        if z3.is_bool(x):
            if o == '&': return mkand(x, y)
            if o == '|': return mkor(x, y)
        raise Unsupported('binop %s on %s' % (o, x.sort()))

    def shift(s, st, o, x, y, t, ty, pos):
        if x.sort() == IntSort():
            c = conc(y)
            if c is not None:
                if o == '<<': return x * (1 << c)
                return simp(x / (1 << c))
            cx = conc(x)
            if cx is not None and o == '<<':
                f = s.pow2()
                return cx * f(s.asint(y))
            raise Unsupported('shift of mathematical int')
        w = x.size()
        if y.sort() == IntSort():
            s.oblige('negative shift count', 'safe', st.guard, y >= 0, pos)
            c = conc(y)
            if c is not None:
                yv = BitVecVal(min(c, w), w) if w < 64 or True else None
                return s.bvshift(o, x, yv, t, c >= w)
            r = BitVecVal(0, w) if (o == '<<' or not s.signed(t)) else x >> (w - 1)
            for i in range(w - 1, -1, -1):
                r = mkif(y == i, s.bvshift(o, x, BitVecVal(i, w), t, False), r)
            return r
        if s.signed(ty):
            s.oblige('negative shift count', 'safe', st.guard, y >= 0, pos)
        wy = y.size()
        if wy < w: y2 = z3.ZeroExt(w - wy, y); big = FALSE
        elif wy > w:
            big = z3.UGE(y, BitVecVal(w, wy)); y2 = z3.Extract(w - 1, 0, y)
        else: big = FALSE; y2 = y
        big = mkor(big, z3.UGE(y2, BitVecVal(w, w)) if w < 2**w else FALSE)
        z = BitVecVal(0, w) if (o == '<<' or not s.signed(t)) else (x >> (w - 1))
        return mkif(simp(big), z, s.bvshift(o, x, y2, t, False))

    def bvshift(s, o, x, y, t, big):
        if big: return BitVecVal(0, x.size()) if o == '<<' or not s.signed(t) else x >> (x.size() - 1)
        if o == '<<': return x << y
        return (x >> y) if s.signed(t) else z3.LShR(x, y)

    def pow2(s):
        f = Function('pow2', IntSort(), IntSort())
        if 'pow2' not in s.assumed:
            s.assumed.add('pow2')
            for i in range(65): s.fact(f(IntVal(i)) == 2 ** i)
        return f

    def asint(s, y):
        if y.sort() == IntSort(): return y
        return z3.BV2Int(y)

    def equal(s, st, x, y, t):
        """Go == ; result z3 Bool"""
        if isinstance(x, Union):
            return mkor(*[mkand(g, s.equal(st, v, y, t)) for g, v in x.alts])
        if isinstance(y, Union):
            return mkor(*[mkand(g, s.equal(st, x, v, t)) for g, v in y.alts])
        et = s.isnode(t)
        if et is not None:
            th = s.theory(et)
            if isinstance(x, z3.ExprRef) and x.eq(th.nil): x, y = y, x
            if y is NIL: y = th.nil
            if isinstance(y, z3.ExprRef) and y.eq(th.nil):
                if isinstance(x, (Ptr, IV)): return FALSE
                return x == th.nil
            if isinstance(x, Ptr) and isinstance(y, Ptr): return BoolVal(x.same(y))
            zx, zy = s.to_node(st, x, et, False), s.to_node(st, y, et, False)
            if zx.eq(zy): return TRUE
            e = s.fresh('sameptr', BoolSort())
            s.fact(mkimp(e, zx == zy)); s.fact(mkimp(And(zx == th.nil, zy == th.nil), e))
            return e
        if isinstance(x, SV):
            u = s.prog.under(t)
            return mkand(*[s.equal(st, a, b, f['t']) for a, b, f in zip(x.f, y.f, u['f'])])
        if isinstance(x, FA):
            e = s.prog.under(t)['e']
            return mkand(*[s.equal(st, x.get(IntVal(i)), y.get(IntVal(i)), e) for i in range(x.n)])
        if isinstance(x, AV):
            e = s.prog.under(t)['e']
            return mkand(*[s.equal(st, a, b, e) for a, b in zip(x.e, y.e)])
        if x is NIL or y is NIL:
            if x is y: return TRUE
            z = y if x is NIL else x
            if isinstance(z, OptRef): return mknot(z.nn)
            if isinstance(z, z3.ExprRef): return z == Const('nil_' + str(z.sort()), z.sort())
            if isinstance(z, IV) and z.t['k'] == 'tp':
                b = s.box(z.t, z.v)             # a type parameter may stand for an interface type
                return Function('dyn_nil_' + tstr(z.t), b.sort(), BoolSort())(b)
            return FALSE
        if isinstance(x, SL): # only == nil is legal Go
            return x.nil if is_true(y.nil) else y.nil
        if isinstance(x, Ptr) and isinstance(y, Ptr): return BoolVal(x.same(y))
        if isinstance(x, IV) and isinstance(y, IV):
            if tstr(x.t) == tstr(y.t):
                if x.t['k'] == 'basic': return s.equal(st, x.v, y.v, x.t)
                bx, by = s.box(x.t, x.v), s.box(y.t, y.v)
                return Function('goeq_' + tstr(x.t), bx.sort(), by.sort(), BoolSort())(bx, by)
            if 'tp' not in (x.t['k'], y.t['k']): return FALSE
        if isinstance(x, OptRef) or isinstance(y, OptRef): raise Unsupported('pointer comparison')
        if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef): return x == y
        raise Unsupported('== on %r %r' % (x, y))

    def i_FieldAddr(s, fr, st, ins):
        x = s.val(fr, st, ins['x'])
        return s.fieldaddr(st, x, ins['i'], ins.get('pos', ''))

    def fieldaddr(s, st, x, i, pos):
        if isinstance(x, Union):
            alts = []
            for g, v in x.alts:
                if v is NIL:
                    s.oblige('nil dereference', 'safe', mkand(st.guard, g), FALSE, pos); continue
                alts.append((g, s.fieldaddr(st, v, i, pos)))
            if not alts: raise Dead()
            return Union(alts) if len(alts) > 1 else alts[0][1]
        if x is NIL:
            s.oblige('nil dereference', 'safe', st.guard, FALSE, pos)
            raise Dead()
        if isinstance(x, OptRef):
            s.oblige('nil dereference', 'safe', st.guard, x.nn, pos)
            return OptRef(TRUE, x.val.f[i])
        if isinstance(x, Ptr): return Ptr(x.o, x.path + (('f', i),))
        raise Unsupported('field address of %r' % (x,))

    def bounds(s, st, i, n, pos):
        ci, cn = conc(i), conc(n)
        if ci is not None and cn is not None and 0 <= ci < cn: return
        if z3.is_bv(zint(i)):
            g = And(z3.ULT(i, n) if z3.is_bv(n) else z3.ULT(i, BitVecVal(n, i.size())))
        else: g = And(zint(i) >= 0, zint(i) < zint(n))
        s.oblige('index in range', 'safe', st.guard, g, pos)

    def i_IndexAddr(s, fr, st, ins):
        x, i = s.val(fr, st, ins['x']), s.val(fr, st, ins['y'])
        pos = ins.get('pos', '')
        return s.indexaddr(fr, st, x, i, pos, s.T(fr, ins['x']['t']))

    def indexaddr(s, fr, st, x, i, pos, t):
        if z3.is_bv(i):
            ci = conc(i)
            i = IntVal(ci) if ci is not None else z3.BV2Int(i)
        if isinstance(x, Union):
            return Union([(g, s.indexaddr(fr, st, v, i, pos, t)) for g, v in x.alts])
        if isinstance(x, SL):
            s.bounds(st, i, x.len, pos)
            if x.back is None: raise Dead()
            return Ptr(x.back, (('i', simp(zint(i) + x.off)),))
        if isinstance(x, Ptr):
            u = s.prog.under(t)
            n = s.prog.under(u['e'])['len']
            s.bounds(st, i, n, pos)
            c = conc(i)
            return Ptr(x.o, x.path + (('i', i if c is None else IntVal(c)),))
        raise Unsupported('index address of %r' % (x,))

    def i_Index(s, fr, st, ins):
        x, i = s.val(fr, st, ins['x']), s.val(fr, st, ins['y'])
        n = x.n if isinstance(x, FA) else len(x.e) if isinstance(x, AV) else None
        if n is None: raise Unsupported('Index on %r' % (x,))
        s.bounds(st, i, n, ins.get('pos', ''))
        return s.index(x, i)

    def i_Field(s, fr, st, ins):
        x = s.val(fr, st, ins['x'])
        if isinstance(x, SV): return x.f[ins['i']]
        if isinstance(x, Union):
            r = None
            for g, v in reversed(x.alts):
                r = v.f[ins['i']] if r is None else s.merge(g, v.f[ins['i']], r)
            return r
        raise Unsupported('field of %r' % (x,))

    def i_Extract(s, fr, st, ins):
        x = s.val(fr, st, ins['x'])
        if isinstance(x, tuple): return x[ins['i']]
        raise Unsupported('extract from %r' % (x,))

    def i_ChangeType(s, fr, st, ins):
        x = s.val(fr, st, ins['x'])
        to, frm = s.T(fr, ins['t']), s.T(fr, ins['x']['t'])
        if s.prog.under(to)['k'] == 'iface' and s.isnode(to) is None:
            return s.mkiface(st, x, to, frm)
        return x

    def i_ChangeInterface(s, fr, st, ins):
        x = s.val(fr, st, ins['x'])
        if s.opts.get('mkiface'): return s.mkiface(st, x, s.T(fr, ins['t']), s.T(fr, ins['x']['t']))
        return x

    def i_MakeInterface(s, fr, st, ins):
        x = s.val(fr, st, ins['x'])
        return s.mkiface(st, x, s.T(fr, ins['t']), s.T(fr, ins['x']['t']))

    def mkiface(s, st, x, to, frm):
        h = s.opts.get('mkiface')
        if h:
            r = h(s, st, x, to, frm)
            if r is not NotImplemented: return r
        if s.isnode(to) is not None:
            if isinstance(x, Ptr) or isinstance(x, Union): return x
            if isinstance(x, z3.ExprRef): return x
            if x is NIL: raise Unsupported('typed nil node')
        if s.prog.under(frm)['k'] == 'iface': return x
        return IV(frm, x)

    def i_Convert(s, fr, st, ins):
        x = s.val(fr, st, ins['x'])
        return s.convert(st, x, s.T(fr, ins['x']['t']), s.T(fr, ins['t']), ins.get('pos', ''))

    def convert(s, st, x, a, b, pos):
        if isinstance(x, Ptr): return x                 # through unsafe.Pointer: the same memory
        sa, sb = s.zsort(a), s.zsort(b)
        if sa is None or sb is None:
            if s.prog.under(b)['k'] in ('slice', 'basic') : return s.fresh('conv', sb) if sb is not None else NIL
            raise Unsupported('convert %s to %s' % (tstr(a), tstr(b)))
        if sa == sb == IntSort() and s.opts.get('wrapints') and s.signed(a) != s.signed(b):
            return If(x < 0, x + 2**64, x) if s.signed(a) else If(x >= 2**63, x - 2**64, x)
        if sa == sb: return x
        if z3.is_bv(x) and sb.kind() == z3.Z3_BV_SORT:
            w, v = x.size(), sb.size()
            if v < w: return z3.Extract(v - 1, 0, x)
            return z3.SignExt(v - w, x) if s.signed(a) else z3.ZeroExt(v - w, x)
        if z3.is_bv(x) and sb == IntSort():
            c = conc(x)
            if c is not None: return IntVal(c)
            f = Function('int_of_bv%d' % x.size(), x.sort(), IntSort())
            s.fact(And(f(x) >= 0)) if not s.signed(a) else None
            return f(x)
        if x.sort() == IntSort() and sb.kind() == z3.Z3_BV_SORT:
            c = conc(x)
            if c is not None: return BitVecVal(c, sb)
            # kept as a tagged term so that shifts by uint(i) can look through it
            return s.int2bv(x, sb)
        raise Unsupported('convert %s to %s' % (tstr(a), tstr(b)))

    def int2bv(s, x, sb):
        # merged constants: convert the alternatives
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and ite_consts(x):
            memo = {}
            def go(y):
                if y.get_id() not in memo:
                    memo[y.get_id()] = BitVecVal(y.as_long(), sb) if z3.is_int_value(y) else If(y.arg(0), go(y.arg(1)), go(y.arg(2)))
                return memo[y.get_id()]
            return go(x)
        return z3.Int2BV(x, sb.size())

    def i_Slice(s, fr, st, ins):
        x = s.val(fr, st, ins['x'])
        pos = ins.get('pos', '')
        lo = s.val(fr, st, ins['lo']) if ins.get('lo') else IntVal(0)
        hi = s.val(fr, st, ins['hi']) if ins.get('hi') else None
        if ins.get('max'): raise Unsupported('3-index slice')
        return s.slice(fr, st, x, lo, hi, pos, s.T(fr, ins['x']['t']))

    def slice(s, fr, st, x, lo, hi, pos, t):
        if isinstance(x, Ptr):                       # pointer to array
            u = s.prog.under(t)
            n = s.prog.under(u['e'])['len']
            if hi is None: hi = IntVal(n)
            cl, chh = conc(lo), conc(hi)
            if not (cl is not None and chh is not None and 0 <= cl <= chh <= n):
                s.oblige('slice bounds in range', 'safe', st.guard, And(0 <= lo, lo <= hi, hi <= n), pos)
            if x.path:
                # slice of an array inside an object: view object
                v = SubObj(x)
                return SL(s.subobj(st, x), lo, simp(hi - lo), simp(IntVal(n) - lo))
            return SL(x.o, lo, simp(hi - lo), simp(IntVal(n) - lo))
        if isinstance(x, SL):
            if hi is None: hi = x.len
            if not (conc(lo) is not None and conc(hi) is not None and conc(x.cap) is not None and 0 <= conc(lo) <= conc(hi) <= conc(x.cap)):
                s.oblige('slice bounds in range', 'safe', st.guard, And(0 <= lo, lo <= hi, hi <= x.cap), pos)
            return SL(x.back, simp(x.off + lo), simp(hi - lo), simp(x.cap - lo), x.nil)
        if isinstance(x, Union):
            return Union([(g, s.slice(fr, st, v, lo, hi, pos, t)) for g, v in x.alts])
        raise Unsupported('slice of %r' % (x,))

    def subobj(s, st, p):
        """read-only view of an array field as a backing object"""
        o = Obj({'k': 'backing'}, p.o.name + '[:]', fresh=False)
        o.init = s.getpath(s.content(st, p.o), p.path, st, st.guard, '')
        o.viewof = p
        return o

    def i_MakeSlice(s, fr, st, ins):
        ln, cp = s.val(fr, st, ins['x']), s.val(fr, st, ins['y'])
        t = s.prog.under(s.T(fr, ins['t']))
        s.oblige('makeslice: non-negative length and capacity', 'safe', st.guard, And(ln >= 0, cp >= ln), ins.get('pos', ''))
        return s.mkslice(st, t['e'], ln, cp)

    def mkslice(s, st, et, ln, cp):
        cl = conc(ln)
        if s.isslice_of_slices(et):
            if cl is None or cl > 64: raise Unsupported('make slice of slices')
            o = s.alloc(st, {'k': 'backing', 'e': et}, AV([s.zero(et) for _ in range(cl)]), 'make')
            return SL(o, IntVal(0), ln, cp)
        try: ta = s.theory_arr(et)
        except Unsupported: ta = None
        if ta is None: raise Unsupported('make slice of ' + tstr(et))
        a = s.fresh('mk', ta.Arr)
        z = s.box(et, s.zero(et)) if cl != 0 else None
        if z is not None:
            s.fact(All([IntSort()], lambda j: ta.at(a, j) == z, lambda j: [ta.at(a, j)]))
        o = s.alloc(st, {'k': 'backing', 'e': et}, a, 'make')
        return SL(o, IntVal(0), ln, cp)

    def i_MakeClosure(s, fr, st, ins):
        return FV(ins['fn'], tuple(s.val(fr, st, x) for x in ins['xs']), dict(fr.tenv))

    def i_TypeAssert(s, fr, st, ins):
        x = s.val(fr, st, ins['x'])
        at = s.T(fr, ins['at'])
        return s.typeassert(fr, st, x, at, ins['ok'], s.T(fr, ins['x']['t']), ins.get('pos', ''))

    def typeassert(s, fr, st, x, at, ok, xt, pos):
        et = s.isnode(xt)
        if et is not None and at['k'] == 'ptr':
            nk = s.nodekind(at['e'])
            if not nk: raise Unsupported('type assert to ' + tstr(at))
            kind = nk[0]
            alts = x.alts if isinstance(x, Union) else [(TRUE, x)]
            cond, val = [], []
            for g, v in alts:
                if isinstance(v, Ptr):
                    is_ = BoolVal(s.nodekind(v.o.typ)[0] == kind)
                    if is_true(is_): val.append((g, v))
                    cond.append(mkand(g, is_))
                else:
                    th = s.theory(et)
                    cond.append(mkand(g, th.kind(v) == kind))
                    val.append((g, Ptr(s.node_obj(st, v, kind, et))))
            c = mkor(*cond)
            pv = NIL
            if val:
                pv = val[0][1] if len(val) == 1 else Union(val)
            if ok:
                return (pv, c)
            s.oblige('type assertion holds', 'safe', st.guard, c, pos)
            return pv
        if isinstance(x, Union) and all(isinstance(v, IV) or v is NIL for _, v in x.alts):
            rs = [(g, s.typeassert(fr, st, v, at, True, xt, pos)) for g, v in x.alts]
            c = mkor(*[mkand(g, r[1]) for g, r in rs])
            vs = [(g, r[0]) for g, r in rs if not is_false(r[1])]
            v = None
            for g, w in reversed(vs): v = w if v is None else s.merge(g, w, v)
            if v is None: v = s.zero(at)
            if ok: return (v, c)
            s.oblige('type assertion holds', 'safe', st.guard, c, pos)
            return v
        if x is NIL:
            if ok: return (s.zero(at), FALSE)
            s.oblige('type assertion holds', 'safe', st.guard, FALSE, pos); raise Dead()
        if isinstance(x, IV) and tstr(x.t) != tstr(at) and 'tp' in (x.t['k'], at['k']):
            # a type parameter's dynamic type is unknown: whether it converts, and to what, are
            # functions of the value
            b = s.box(x.t, x.v)
            nm = '%s_%s' % (tstr(x.t), tstr(at))
            is_ = Function('dyn_is_' + nm, b.sort(), BoolSort())(b)
            v = s.unbox(at, Function('dyn_as_' + nm, b.sort(), s.boxsort(at))(b))
            s.fact(mkimp(is_, mknot(Function('dyn_nil_' + tstr(x.t), b.sort(), BoolSort())(b))) if x.t['k'] == 'tp' else TRUE)
            if ok: return (v, is_)
            s.oblige('type assertion holds', 'safe', st.guard, is_, pos)
            return v
        if isinstance(x, IV):
            is_ = s.implements(x.t, at)
            v = (x if s.prog.under(at)['k'] == 'iface' else x.v) if is_ else s.zero(at)
            if ok: return (v, BoolVal(is_))
            s.oblige('type assertion holds', 'safe', st.guard, BoolVal(is_), pos)
            if not is_: raise Dead()
            return v
        h = s.opts.get('typeassert')
        if h: 
            r = h(s, fr, st, x, at, ok, xt, pos)
            if r is not None: return r
        raise Unsupported('type assertion on %r to %s' % (x, tstr(at)))

    def methods(s, t):
        if t['k'] == 'ptr' and t['e']['k'] == 'named': return s.prog.named[t['e']['n']]['pms'], t['e']
        if t['k'] == 'named': return s.prog.named[t['n']]['ms'], t
        return {}, t

    def implements(s, t, at):
        u = s.prog.under(at) if at['k'] == 'named' else at
        if u['k'] != 'iface': return tstr(t) == tstr(at)
        ms, n = s.methods(t)
        env = {}
        if n['k'] == 'named': env = dict(zip(s.prog.named[n['n']].get('tp', []), n.get('a', [])))
        for m in u['m']:
            if m not in ms: return False
            sg = s.prog.sub(ms[m]['sig'], env)
            if tstr(sg) != tstr(u['sigs'][m]): return False
        return True

    def i_RunDefers(s, fr, st, ins):
        if fr.defers: raise Unsupported('defer')

    def i_Defer(s, fr, st, ins): raise Unsupported('defer')

    # ------------------------------------------------------------ calls
    def i_Call(s, fr, st, ins):
        c = ins['call']
        pos = ins.get('pos', '')
        args = [s.val(fr, st, a) for a in c['args']]
        mode = c['mode']
        rt = s.T(fr, ins['t']) if 't' in ins else None
        if mode == 'builtin':
            return s.builtin(fr, st, c['fn'], args, [s.T(fr, a['t']) if 't' in a else None for a in c['args']], rt, pos)
        if mode == 'static':
            ta = [s.prog.sub(t, fr.tenv) for t in c.get('ta', [])]
            return s.call(st, c['fn'], args, ta, fr, pos, rt)
        if mode == 'invoke':
            recv = s.val(fr, st, c['recv'])
            return s.invoke(st, recv, s.T(fr, c['recv']['t']), c['method'], args, fr, pos, rt)
        f = s.val(fr, st, c['fn'])
        return s.callfn(st, f, args, fr, pos, rt)

    def callfn(s, st, f, args, fr, pos, rt=None):
        if isinstance(f, UF): return f.f(s, st, args, pos)
        if isinstance(f, FV):
            if s.contracts.get(f.fn) is not None or f.fn not in s.prog.fns:
                fn = s.prog.fns.get(f.fn)
                ta = [f.tenv.get(n) for n in fn['tp']] if fn else []
                return s.call(st, f.fn, list(args), ta, fr, pos, rt)
            return s.inline(st, f.fn, args, f.tenv, f.binds, fr)
        if isinstance(f, Union):
            return s.union_call(st, f.alts, lambda x, v: s.callfn(x, v, args, fr, pos, rt), pos)
        if f is NIL:
            s.oblige('call of nil function', 'safe', st.guard, FALSE, pos); raise Dead()
        raise Unsupported('call of %r' % (f,))

    def union_call(s, st, alts, call, pos):
        outs = []
        for g, v in alts:
            x = st.copy(); x.guard = mkand(st.guard, g)
            if is_false(x.guard) or not s.feasible(x.guard): continue
            try: r = call(x, v)
            except Dead: continue
            x.env = {'ret': r}
            outs.append(x)
        if not outs: raise Dead()
        m = s.merge_states(outs)
        r = m.env.get('ret')
        st.take(m)
        return r

    def call(s, st, key, args, ta, fr, pos, rt=None):
        con = s.contracts.get(key)
        if con is not None and s.selfcall(key, args, fr): con = None
        if con is not None and not (fr is not None and con.inline_ok(s, fr, st, args)):
            s.callees.add(key)
            return con.call(s, st, args, ta, pos, fr)
        if key not in s.prog.fns:
            from externs import extern
            return extern(s, st, key, args, ta, pos, rt, fr)
        fn = s.prog.fns[key]
        s.inlined.add(key)
        return s.inline(st, key, args, dict(zip(fn['tp'], ta)), (), fr)

    def selfcall(s, key, args, fr):
        """a leaf calls another of its own methods: verified through the body, so that it may rely on what the
        method really needs"""
        r = s.opts.get('recv')
        if r is None or fr is None or not key.startswith(('tree.(*leaf1).', 'tree.(*leaf2).')) or key not in s.prog.fns: return False
        if not (args and isinstance(args[0], Ptr) and args[0].o is r.o): return False
        while fr is not None:
            if fr.key == key: return False
            fr = fr.parent
        return True

    def inline(s, st, key, args, tenv, binds, fr):
        d = fr.depth + 1 if fr else 1
        v, r = s.run(key, args, st, tenv, binds, d, fr)
        if r is None: raise Dead()
        st.take(r)
        return v

    def invoke(s, st, recv, rt, method, args, fr, pos, resT=None):
        et = s.isnode(rt)
        if et is not None:
            key = 'tree.node.' + method
            con = s.contracts.get(key)
            if con is None: raise Unsupported('no interface contract for node.' + method)
            th = s.theory(et)
            if isinstance(recv, (z3.ExprRef, Union)):
                n = s.to_node(st, recv, et, False)
                s.oblige('nil dereference (method on nil node)', 'safe', st.guard, n != th.nil, pos)
            s.callees.add(key)
            return con.call(s, st, [recv] + list(args), [et], pos, fr)
        if isinstance(recv, Union):
            return s.union_call(st, recv.alts, lambda x, v: s.invoke(x, v, rt, method, args, fr, pos, resT), pos)
        if recv is NIL:
            s.oblige('nil dereference (method on nil interface)', 'safe', st.guard, FALSE, pos); raise Dead()
        if isinstance(recv, IV):
            ms, n = s.methods(recv.t)
            if method not in ms: raise Unsupported('method %s of %s' % (method, tstr(recv.t)))
            v = recv.v
            m = ms[method]
            key = m['fn']
            if not key: # promoted through embedded interface
                raise Unsupported('promoted interface method ' + method)
            v, vt = s.embpath(st, v, recv.t, m['path'], pos)
            if s.prog.under(vt)['k'] == 'iface':
                return s.invoke(st, v, vt, method, args, fr, pos, resT)
            ptrrecv = '.(*' in key
            if ptrrecv and vt['k'] != 'ptr': raise Unsupported('address of embedded')
            if not ptrrecv and vt['k'] == 'ptr': v = s.load(st, v, pos)
            nn = vt['e'] if vt['k'] == 'ptr' else vt
            return s.call(st, key, [v] + list(args), nn.get('a', []), fr, pos, resT)
        if isinstance(recv, IterV): return s.iter_call(st, recv, method, pos)
        h = s.opts.get('invoke')
        if h:
            r = h(s, st, recv, rt, method, args, fr, pos, resT)
            if r is not NotImplemented: return r
        raise Unsupported('invoke %s on %r' % (method, recv))

    def iterv(s, st, et, n, pos):
        """contract view of an iterator over the elements of n"""
        s.theory(et).use_seq()
        o = s.alloc(st, {'k': 'iter', 'e': et}, SV([pos]), 'iter')
        o.iter_of = (s.theory(et), n)
        return IterV(et, o, n)

    def iter_call(s, st, it, method, pos):
        """contract of Iterator.Next / Iterator.Value (implementations: the iter: units)"""
        th = s.theory(it.et)
        p = s.content(st, it.o).f[0]
        if method == 'Next':
            q = simp(p + 1)
            st.heap[it.o] = SV([q])
            return simp(q < th.CNT(it.n))
        if method == 'Value':
            s.oblige('Iterator.Value is called only after Next returned true', 'safe', st.guard, And(0 <= p, p < th.CNT(it.n)), pos)
            return s.unbox(it.et, th.elem(it.n, p))
        raise Unsupported('iterator method ' + method)

    def embpath(s, st, v, t, path, pos):
        for i in path:
            if t['k'] == 'ptr':
                u = s.prog.under(t['e'])
                v = s.fieldaddr(st, v, i, pos)
                ft = u['f'][i]['t']
                if ft['k'] == 'ptr' or s.prog.under(ft)['k'] == 'iface':
                    v = s.load(st, v, pos); t = ft
                else: t = {'k': 'ptr', 'e': ft}
            else:
                u = s.prog.under(t)
                v = v.f[i]; t = u['f'][i]['t']
        return v, t

    def pure_call(s, st, fv, args, rt=None):
        """evaluate a function value to an expression (used inside specifications); it must not add
        facts or obligations, since its arguments may be bound variables"""
        st = st.copy(); st.guard = TRUE
        nf, no = len(s.facts), len(s.obls)
        s.pure += 1
        try: v = s.callfn(st, fv, list(args), None, '')
        finally: s.pure -= 1
        if len(s.facts) != nf or any(not is_true(o.goal) for o in s.obls[no:]):
            del s.facts[nf:]; del s.obls[no:]
            raise Unsupported('callback is not a pure expression')
        del s.obls[no:]
        if isinstance(v, z3.ExprRef): return v
        if rt is not None: return s.box(rt, v)
        return s.boxany(v)

    def boxany(s, v):
        if isinstance(v, SV): raise Unsupported('unboxed struct')
        raise Unsupported('callback result %r' % (v,))

    def mbit(s, m, i):
        """bit i of a 16-bit mask; symbolic indices go through MB"""
        c = conc(i)
        from theory import bit
        if c is not None: return bit(m, c) if 0 <= c < m.size() else FALSE
        k = m.decl().kind() if z3.is_app(m) else None
        if k == z3.Z3_OP_BOR: return mkor(*[s.mbit(x, i) for x in m.children()])
        if k == z3.Z3_OP_BAND: return mkand(*[s.mbit(x, i) for x in m.children()])
        if k == z3.Z3_OP_BNOT: return mknot(s.mbit(m.arg(0), i))
        if k == z3.Z3_OP_ITE: return mkif(m.arg(0), s.mbit(m.arg(1), i), s.mbit(m.arg(2), i))
        MB = Function('MB%d' % m.size(), m.sort(), IntSort(), BoolSort())
        if m.get_id() not in s.mbits:
            s.mbits[m.get_id()] = m
            for j in range(m.size()): s.fact(MB(m, IntVal(j)) == bit(m, j))
            s.fact(All([IntSort()], lambda j: mkimp(MB(m, j), And(0 <= j, j < m.size())), lambda j: [MB(m, j)]))
        return MB(m, i)

    # ------------------------------------------------------------ builtins
    def builtin(s, fr, st, name, args, ts, rt, pos):
        if name == 'len':
            x = args[0]
            return s.length(st, x)
        if name == 'cap':
            x = args[0]
            if isinstance(x, SL): return x.cap
        if name == 'append': return s.append(fr, st, args[0], args[1], ts[0], pos)
        if name == 'recover': return NIL
        if name == 'delete':
            import gomaps
            gomaps.delete(s, st, args[0], args[1], pos); return ()
        raise Unsupported('builtin ' + name)

    def length(s, st, x):
        if isinstance(x, SL): return x.len
        if isinstance(x, Union):
            r = None
            for g, v in reversed(x.alts):
                l = s.length(st, v)
                r = l if r is None else mkif(g, l, r)
            return r
        if isinstance(x, Ptr):
            if x.o.typ.get('k') == 'gomap': return s.content(st, x.o).f[1]
            u = s.prog.under(x.o.typ)
            if u['k'] == 'array': return IntVal(u['len'])
        if isinstance(x, IV) and hasattr(x.v, 'len'): return x.v.len
        h = s.opts.get('len')
        if h: return h(s, st, x)
        raise Unsupported('len of %r' % (x,))

    def append(s, fr, st, x, y, t, pos):
        if isinstance(x, Union) or isinstance(y, Union): raise Unsupported('append to merged slice')
        et = s.prog.under(t)['e']
        if s.isslice_of_slices(et): return s.append_opaque(fr, st, x, y, et, pos)
        ta = s.theory_arr(et)
        ly = conc(y.len)
        newlen = simp(x.len + y.len)
        # in-place case: spare capacity
        fits = simp(newlen <= x.cap)
        if x.back is not None and not is_false(fits) and ly != 0:
            if s.opts.get('debug') and not s.writable(x.back): print('      not writable', x.back, x.back.fresh, x.back.escaped, getattr(x.back,'parents',None))
            bad = TRUE if not s.writable(x.back) else st.mk.get(('app', x.back.id), FALSE)
            if not is_false(bad):
                s.oblige('frame: append may write into shared spare capacity', 'frame', mkand(st.guard, bad), mkor(y.len == 0, mknot(fits)), pos)
        cx = s.content(st, x.back) if x.back is not None else None
        if isinstance(cx, (AV, FA)) and ly is not None and ly <= 8 and s.writable(x.back) and conc(x.off) == 0 and (is_true(fits) or s.valid(st.guard, fits)):
            # certainly in place, into a small array
            cy = s.content(st, y.back) if y.back is not None else None
            for i in range(ly): cx = s.setpath(cx, (('i', simp(x.len + i)),), s.index(cy, simp(IntVal(i) + y.off)), st)
            st.heap[x.back] = cx
            st.abs.pop(x.back, None)
            return SL(x.back, IntVal(0), newlen, x.cap, FALSE)
        a = s.fresh('app', ta.Arr)
        # prefix
        if cx is not None:
            ox = x.off
            if isinstance(cx, z3.ExprRef):
                xl = x.len
                s.fact(All([IntSort()], lambda j: mkimp(And(0 <= j, j < xl), ta.at(a, j) == ta.at(cx, simp(j + ox) if conc(ox) == 0 else j + ox)),
                           lambda j: [ta.at(a, j)] + ([ta.at(cx, j)] if conc(ox) == 0 else [])))
            else:
                o = conc(ox); l = conc(x.len)
                if o is None: raise Unsupported('append to symbolic view of array')
                n = len(cx.e) if isinstance(cx, AV) else cx.n
                for i in range(n - o):
                    e = s.index(cx, IntVal(i + o))
                    if l is not None and i >= l: break
                    s.fact(mkimp(IntVal(i) < x.len, ta.at(a, IntVal(i)) == s.box(et, e)))
        cy = s.content(st, y.back) if y.back is not None else None
        if cy is not None:
            oy = y.off
            if ly is not None and ly <= 8:
                for i in range(ly):
                    e = s.index(cy, simp(IntVal(i) + oy))
                    s.fact(ta.at(a, simp(x.len + i)) == s.box(et, e))
            elif isinstance(cy, z3.ExprRef):
                xl, yl = x.len, y.len
                plus = lambda p, q: p if conc(q) == 0 else q if conc(p) == 0 else p + q
                s.fact(All([IntSort()], lambda j: mkimp(And(0 <= j, j < yl), ta.at(a, plus(j, xl)) == ta.at(cy, plus(j, oy))), lambda j: [ta.at(cy, plus(j, oy))]))
                if conc(oy) != 0:
                    s.fact(All([IntSort()], lambda q: mkimp(And(oy <= q, q < oy + yl), ta.at(a, q - oy + xl) == ta.at(cy, q)), lambda q: [ta.at(cy, q)]))
                s.fact(All([IntSort()], lambda j: mkimp(And(xl <= j, j < xl + yl), ta.at(a, j) == ta.at(cy, plus(j if conc(xl) == 0 else j - xl, oy))), lambda j: [ta.at(a, j)]))
            else: raise Unsupported('append of symbolic view of array')
        ncap = s.fresh('cap', IntSort())
        s.fact(And(ncap >= newlen, mkimp(fits, ncap == x.cap)))
        if x.back is not None and s.writable(x.back) and conc(x.off) == 0 and (is_true(fits) or s.valid(st.guard, fits)):
            # certainly in place
            if isinstance(cx, AV):
                l = list(cx.e)
                for i in range(len(l)): l[i] = s.merge(And(IntVal(i) >= x.len, IntVal(i) < newlen), s.unbox(et, ta.at(a, IntVal(i))), l[i])
                st.heap[x.back] = AV(l)
            elif isinstance(cx, z3.ExprRef): st.heap[x.back] = a
            else: raise Unsupported('append into %r' % (cx,))
            st.abs.pop(x.back, None)
            return SL(x.back, IntVal(0), newlen, x.cap, FALSE)
        o = s.alloc(st, {'k': 'backing', 'e': et}, a, 'append')
        if x.back is not None and not is_false(fits):
            st.mk[('app', x.back.id)] = mkor(st.mk.get(('app', x.back.id), FALSE), st.guard)
        return SL(o, IntVal(0), newlen, ncap)

    def isslice_of_slices(s, et):
        try: return s.prog.under(et)['k'] == 'slice'
        except Unsupported: return False

    def append_opaque(s, fr, st, x, y, et, pos):
        if conc(x.len) != 0 or conc(y.len) is None: raise Unsupported('append to slice of slices')
        c = s.content(st, y.back)
        if not isinstance(c, AV): raise Unsupported('append to slice of slices')
        if x.back is not None and not s.writable(x.back):
            s.oblige('frame: append may write into a buffer the caller still owns', 'frame', st.guard, simp(x.cap == 0), pos)
        n, o0 = conc(y.len), conc(y.off)
        cap = s.fresh('cap', IntSort())
        s.fact(cap >= n)
        o = s.alloc(st, {'k': 'backing', 'e': et}, AV(c.e[o0:o0 + n]), 'append')
        return SL(o, IntVal(0), IntVal(n), cap)

    # ------------------------------------------------------------ Go maps
    def i_MakeMap(s, fr, st, ins):
        import gomaps
        return gomaps.make(s, st, s.T(fr, ins['t']))

    def i_MapUpdate(s, fr, st, ins):
        import gomaps
        gomaps.update(s, st, s.val(fr, st, ins['m']), s.val(fr, st, ins['x']), s.val(fr, st, ins['y']), ins.get('pos', ''))

    def i_Lookup(s, fr, st, ins):
        import gomaps
        t = s.T(fr, ins['x']['t'])
        u = s.prog.under(t) if t['k'] == 'named' else t
        if u['k'] != 'map': raise Unsupported('Lookup in ' + tstr(t))
        return gomaps.lookup(s, st, s.val(fr, st, ins['x']), s.val(fr, st, ins['y']), ins.get('ok'), u['e'], ins.get('pos', ''))

    def i_Range(s, fr, st, ins):
        import gomaps
        return gomaps.range_(s, st, s.val(fr, st, ins['x']), ins.get('pos', ''))

    def i_Next(s, fr, st, ins):
        import gomaps
        if ins.get('str'): raise Unsupported('range over string')
        return gomaps.next_(s, st, s.val(fr, st, ins['x']))

    # ------------------------------------------------------------ Parallel access recording
    def par_access(s, p, write, st, pos):
        s.par['acc'].append((p, write, st.guard, pos))


def ite_consts(x):
    while z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
        if z3.is_int_value(x.arg(1)): x = x.arg(2)
        elif z3.is_int_value(x.arg(2)): x = x.arg(1)
        else: return False
    return z3.is_int_value(x)


def simp_eq(a, b):
    if isinstance(a, int): a = IntVal(a)
    if z3.is_int_value(a) and z3.is_int_value(b): return BoolVal(a.as_long() == b.as_long())
    if a.eq(b): return TRUE
    return a == b


class Dead(Exception):
    pass


class SubObj:
    def __init__(s, p): s.p = p
