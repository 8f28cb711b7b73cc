"""Verification units: named groups of obligations about one function of /repo."""
import time
import z3
from engine import *
import tree as T
import verify as V

_CS = None


def contracts():
    global _CS
    if _CS is None: _CS = T.tree_contracts()
    return _CS


def attempts(o, timeout, deadline):
    for seed, tmo, rel in ((0, timeout, None), (7, timeout, 0), (11, timeout, None), (23, 2 * timeout, 0), (5, 2 * timeout, None)):
        tmo = min(tmo, max(0.5, deadline - time.time()))
        r, t, sol = V.discharge(o.facts, o.guard, o.goal, int(1000 * tmo), seed, rel)
        if r == z3.unsat or r == z3.sat: break
        if deadline - time.time() < 1: break
    return r, sol


def discharge_all(eng, timeout, deadline, prefix=''):
    """yield one record per obligation"""
    for o in eng.obls:
        rec = {'name': o.name, 'tag': o.tag, 'time': 0.0, 'ok': True, 'status': 'trivial', 'backend': 'simplifier', 'pos': str(o.pos)}
        g = z3.simplify(o.goal)
        if z3.is_true(g) or z3.is_false(z3.simplify(o.guard)):
            yield rec; continue
        t0 = time.time()
        r = None
        r, sol = attempts(o, timeout, deadline)
        rec['time'] = time.time() - t0
        rec['backend'] = 'z3'
        rec['ok'] = r == z3.unsat
        rec['status'] = 'unsat' if r == z3.unsat else ('sat' if r == z3.sat else 'unknown: ' + sol.reason_unknown())
        if not rec['ok']: rec['model'] = excerpt(sol)
        yield rec


def excerpt(sol):
    try: m = sol.model()
    except z3.Z3Exception: return ''
    out = []
    for d in m.decls():
        if d.arity() == 0 and len(out) < 60:
            out.append('%s = %s' % (d.name(), str(m[d])[:80]))
    return '; '.join(out)


def vacuity(eng, deadline):
    """the facts at the end of the body must not be contradictory (some return reachable)"""
    last = None; rets = {}
    for o in eng.obls:
        if '[return' in o.name: rets[o.name[o.name.index('[return'):]] = o
    if not rets: return None
    ok = False
    for k, o in rets.items():
        r, t, sol = V.discharge(o.facts, o.guard, FALSE, 1500)
        if r != z3.unsat: ok = True; break
    return {'name': '%s: some return is reachable (vacuity guard)' % eng.fname, 'tag': 'vacuity', 'time': 0.0, 'ok': ok,
            'status': 'reachable' if ok else 'every path is contradictory', 'backend': 'z3', 'pos': ''}


class NodeUnit:
    def __init__(s, kind, method):
        s.kn, s.method = kind, method
        s.kind = [k for k, v in T.KINDNAME.items() if v == kind][0]
        s.functions = ['tree.(*%s).%s' % (kind, method)]

    def check(s):
        base = None
        if s.kn == 'branch' and s.method == 'AddFast': base = T.CAddFastB()
        if s.kn == 'branch' and s.method == 'Add': base = T.CAddB()
        return V.MethodCheck(s.kind, s.method, base)

    def run(s, prog, timeout, deadline):
        eng = s.check().build(prog, contracts())
        s.assumed = set(eng.callees)
        s.inlined = set(eng.inlined)
        yield from discharge_all(eng, timeout, deadline)
        v = vacuity(eng, deadline)
        if v: yield v


class HelperUnit(NodeUnit):
    """functions under a contract of their own that the node methods call statically; when the code no
    longer has one of them its callers do not use its contract either"""
    def __init__(s, name, key): s.name, s.key = name, key; s.functions = [key]; s.assumed = set(); s.inlined = set()
    def run(s, prog, timeout, deadline):
        if s.key not in prog.fns: s.functions = []; return
        for eng in s.engines(prog):
            s.assumed |= set(eng.callees); s.inlined |= set(eng.inlined)
            yield from discharge_all(eng, timeout, deadline)
            v = vacuity(eng, deadline)
            if v: yield v


class BranchWith(HelperUnit):
    """(*branch).with: the contract of With, and the result is a branch"""
    def __init__(s): super().__init__('fn:branch.with', 'tree.(*branch).with')
    def engines(s, prog):
        class W(T.CWith):
            def post(c, x, res): return super().post(x, res) + [('result is a branch', 'wf', x.th.kind(res[0]) == 4)]
        chk = V.MethodCheck(4, 'With', W())
        chk.key = s.key
        yield chk.build(prog, contracts())


class NewBranchFrom(HelperUnit):
    """newBranchFrom for three and for four elements: the contract allows no other number"""
    def __init__(s): super().__init__('fn:newBranchFrom', 'tree.newBranchFrom')
    def engines(s, prog):
        con = T.CNewBranchFrom()
        for n in (3, 4):
            eng = Engine(prog, contracts())
            eng.fname = '%s of %d elements' % (s.key, n)
            th = eng.theory(T.TP)
            st = FS(TRUE, {}, {}, {}, None)
            d = eng.fresh('d', IntSort()); eng.ghostd = d
            es = [eng.fresh('e%d' % i, th.E) for i in range(n)]
            o = Obj(None, 'data', fresh=False, owned=True); o.init = AV([eng.unbox(T.TP, e) for e in es])
            a = [d, SL(o, IntVal(0), IntVal(n), IntVal(n))]
            c = con.bind(eng, st, a, [T.TP], 'check')
            for nm, f in con.pre(c): eng.fact(f)
            eng.nret = 0
            def on_return(fr, st, xs, eng=eng, c=c):
                if fr.depth > 0 or fr.parent is not None:
                    fr.returns.append((st, xs[0] if len(xs) == 1 else tuple(xs))); return
                eng.nret += 1
                r = eng.to_node(st, xs[0], T.TP, True)
                for nm, tag, f in con.post(c, r): eng.oblige('%s: %s [return %d]' % (eng.fname, nm, eng.nret), tag, st.guard, f, assume=(tag == 'wf'))
                fr.returns.append((st, ()))
            eng.on_return = on_return
            eng.run(s.key, a, st, {}, (), 0, None)
            if not eng.nret: eng.oblige('%s: returns' % eng.fname, 'safe', TRUE, FALSE)
            yield eng


REG = {'fn:branch.with': BranchWith, 'fn:newBranchFrom': NewBranchFrom}
LOADED = False


def get(name):
    global LOADED
    if not LOADED:
        LOADED = True
        import specs, iters, low, hashes, intiter, ordered, para, lemmas
        for m in (iters, low, hashes, intiter, ordered, para, lemmas): m.register(REG)
    f, *a = name.split(':')
    if f == 'node': return NodeUnit(*a[0].split('.'))
    if f == 'lazy':
        import specs, lazyspec
        return lazyspec.LazyUnit(name)
    if f == 'api':
        import specs, api
        return api.unit(a[0])
    return REG[name]()


ALLKINDS = ('branch', 'twig', 'leaf2', 'leaf1')


def node(*methods):
    return ['node:%s.%s' % (k, m) for m in methods for k in ALLKINDS]


def api(*names):
    return ['api:' + n for n in names]


def closure(names, prog):
    out = []
    for n in names:
        if n.startswith('lazy:*'):
            import specs, lazyspec
            skip = n[7:].split(',')
            out += [x for x in lazyspec.enumerate_units(prog) if x.rpartition('.')[2] not in skip]
        elif n not in out: out.append(n)
    # long ones first
    w = {'node:branch.Combine': 9, 'node:branch.Remove': 7, 'node:branch.Without': 5, 'node:twig.Combine': 4}
    out.sort(key=lambda n: -w.get(n, 3 if 'branch' in n else 0))
    return out
