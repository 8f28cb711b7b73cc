"""C10: equal collections hash alike. A relational unit: the Hash method is executed on two
symbolic collections with the same contents and the same seed, and the results must be equal.
The loop folding the element hashes is summarised as  accumulator = start (op) fold of the
contributions of the elements yielded so far, op being the operation the body applies (^ or +);
the contribution of an element is read off the body.  FOLD-PERM (lemma, proved in lean/) says a
fold by an associative, commutative operation over all elements does not depend on the order."""
import z3
from api import *
import specs2, loops, specs6

BV64 = z3.BitVecSort(64)


def flatten(t, kind):
    if z3.is_app(t) and t.decl().kind() == kind:
        out = []
        for c in t.children(): out += flatten(c, kind)
        return out
    return [t]


def subterms(t, pred):
    seen, stk, out = set(), [t], []
    while stk:
        x = stk.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if pred(x): out.append(x)
        stk += x.children()
    return out


def expand(eng, t, isel):
    """replace names of merged values by the alternative that mentions an element"""
    memo = {}
    def go(x):
        if x.get_id() in memo: return memo[x.get_id()]
        if x.get_id() in eng.itedef and z3.is_const(x): r = go(eng.itedef[x.get_id()][1])
        elif not z3.is_app(x) or x.num_args() == 0: r = x
        else:
            cs = [go(c) for c in x.children()]
            if x.decl().kind() == z3.Z3_OP_ITE and bool(subterms(cs[1], isel)) != bool(subterms(cs[2], isel)): r = cs[1] if subterms(cs[1], isel) else cs[2]
            else: r = x.decl()(*cs)
        memo[x.get_id()] = r
        return r
    return go(t)


OPS = {z3.Z3_OP_BXOR: lambda a, b: a ^ b, z3.Z3_OP_BADD: lambda a, b: a + b}


class HashUnit:
    """frozen.(T).Hash for a tree-bearing T"""
    def __init__(s, name, key, same):
        s.name, s.key, s.same = name, key, same
        s.functions = [key]
    def targs(s, eng): return {}
    def build(s, prog, debug=False):
        eng = Engine(prog, contracts(), {})
        eng.fname = s.key
        if debug: eng.opts['debug'] = True
        eng.ghostd = IntVal(0)
        eng.opts['invoke'] = invoke_iter
        fn = prog.fns.get(s.key)
        if fn is None: raise Unsupported('function %s not found' % s.key)
        s.tenv = s.targs(eng)
        t = prog.sub(fn['params'][0]['t'], s.tenv)
        seed = eng.fresh('seed', BV64)
        st0 = FS(TRUE, {}, {}, {}, None)
        runs = []
        facts = []
        for nm in 's', 't':
            v = mkarg(eng, st0, t, nm, facts)
            runs.append(Ctx(eng=eng, v=v, view=s.mkview(eng, st0, v, t), folds={}))
        for f in facts: eng.fact(f)
        for nm, f in s.same(eng, *[r.view for r in runs]): eng.fact(f)
        eng.loop_ctx = None
        eng.nret = 0
        for r in runs:
            r.src = s.source(eng, r.view)
            r.results = []
            eng.loop_templates = [s.template(eng, r)]
            def on_return(fr, st, xs, r=r):
                if fr.depth > 0 or fr.parent is not None:
                    fr.returns.append((st, xs[0] if len(xs) == 1 else tuple(xs))); return
                r.results.append((st.guard, xs[0]))
                fr.returns.append((st, ()))
            eng.on_return = on_return
            eng.run(s.key, [r.v, seed], st0.copy(), s.tenv, (), 0, None)
            if not r.results: eng.oblige('%s: returns' % s.key, 'safe', TRUE, FALSE)
        a, b = runs
        # order independence: same contributions by class, same classes => same fold
        for (op, init, ga), fa in a.folds.items():
            for (op2, init2, gb), fb in b.folds.items():
                if op != op2: continue
                e1, e2 = Const('e1@', fa.E), Const('e2@', fa.E)
                G1, G2 = z3.substitute(fa.g, (fa.e, e1)), z3.substitute(fb.g, (fb.e, e2))
                law = All([fa.E, fa.E], lambda x, y: mkimp(s.eqelem(eng, a.view, x, y), z3.substitute(G1, (e1, x)) == z3.substitute(G2, (e2, y))))
                eng.oblige('%s: what an element contributes depends only on its equality class and the seed' % s.key, 'view', TRUE, law)
                eng.fact(fa.P(s.size(a.view)) == fb.P(s.size(b.view)))
        for ga, x in a.results:
            for gb, y in b.results:
                eng.nret += 1
                eng.oblige('%s: collections with the same contents have the same hash [return %d]' % (s.key, eng.nret), 'view', mkand(ga, gb), x == y)
        return eng

    def mkview(s, eng, st, v, t): return TV(eng, st, v, tree_elem(eng, t))
    def source(s, eng, w):
        w.th.use_seq()
        return w.th.E, lambda t: z3.is_app(t) and t.decl().eq(w.th.elem) and t.arg(0).eq(w.root), lambda j: w.th.elem(w.root, j)
    def size(s, w): return w.CNT
    def eqelem(s, eng, w, x, y):
        th = w.th
        f = th.cls(x) == th.cls(y)
        if th.keyth is not None:
            vt = eng.theory(th.et['a'][1])
            f = And(f, vt.cls(th.entry_val(x)) == vt.cls(th.entry_val(y)))
        return f

    def template(s, eng, r):
        E, isel, elem = r.src
        def t(cut, st, unchanged, ints, sls):
            out = []
            for key, (v1, nm) in cut.changed.items():
                if not (isinstance(v1, z3.ExprRef) and v1.sort() == BV64): continue
                v0 = cut.get(cut.entry, key)
                v1 = expand(eng, v1, isel)
                for kind, op in OPS.items():
                    parts = flatten(v1, kind)
                    if len(parts) < 2: continue
                    own = [p for p in parts if not subterms(p, isel)]
                    g = [p for p in parts if subterms(p, isel)]
                    if len(own) != 1 or not g: continue
                    g = g[0] if len(g) == 1 else [op(x, y) for x, y in [tuple(g)]][0] if len(g) == 2 else None
                    if g is None: continue
                    els = {x.get_id(): x for x in subterms(g, isel)}
                    if len(els) != 1: continue
                    e = Const('el@', E)
                    g = z3.substitute(g, (list(els.values())[0], e))
                    k = (kind, v0.get_id(), g.get_id())
                    if k not in r.folds:
                        P = Function('FOLD!%d' % eng.fresh_n(), I, BV64)
                        r.folds[k] = Ctx(P=P, g=g, e=e, E=E, op=op, init=v0, zero=z3.BitVecVal(0, 64))
                    f = r.folds[k]
                    def cand(x, jj, f=f, key=key):
                        eng.fact(f.P(IntVal(0)) == f.zero)
                        if not z3.is_int_value(jj):
                            p = simp(jj - 1)
                            eng.fact(mkimp(jj >= 1, f.P(jj) == f.op(f.P(p), z3.substitute(f.g, (f.e, elem(p))))))
                        z = cut.get(x, key)
                        if not isinstance(z, z3.ExprRef): raise loops.Skip()
                        return z == f.op(f.init, f.P(jj))
                    out.append(('the accumulator is the fold of the elements seen', cand))
            return out + specs2.iter_template(cut, st, unchanged, ints, sls)
        return t

    def run(s, prog, timeout, deadline):
        import units
        eng = s.build(prog)
        s.assumed, s.inlined = set(eng.callees), set(eng.inlined)
        yield from units.discharge_all(eng, timeout, deadline)
        v = units.vacuity(eng, deadline)
        if v: yield v


def same_set(eng, a, b):
    th = a.th
    return [('same elements', All([th.K], lambda k: a.has(k) == b.has(k), lambda k: [a.has(k), b.has(k)]))] + same_size(a, b)


def same_size(a, b): return [('hence the same number', a.CNT == b.CNT)]     # CARD lemma


def same_map(eng, a, b):
    th = a.th
    vt = eng.theory(th.et['a'][1])
    return same_set(eng, a, b) + [('same values', All([th.K], lambda k: mkimp(a.has(k), vt.cls(a.mval(k)) == vt.cls(b.mval(k))), lambda k: [a.has(k), b.has(k)]))]


class IntSetHash(HashUnit):
    def __init__(s, w):
        super().__init__('hash:IntSet.Hash[%s]' % w, 'frozen.(IntSet).Hash', None)
        s.w = w
        s.same = s.samemembers
    def targs(s, eng): return {'I': {'k': 'basic', 'n': s.w}}
    def mkview(s, eng, st, v, t): return specs6.enum(specs6.ISV(eng, st, v, t['a'][0]))
    def samemembers(s, eng, a, b):
        return [('same members', specs6.iall(a.t, lambda i: a.v.mem(i) == b.v.mem(i)))] + same_size(a, b)


ALL = {'hash:Set.Hash': lambda: HashUnit('hash:Set.Hash', 'frozen.(Set).Hash', same_set),
       'hash:Map.Hash': lambda: HashUnit('hash:Map.Hash', 'frozen.(Map).Hash', same_map)}


for _w in specs6.WIDTHS: ALL['hash:IntSet.Hash[%s]' % _w] = lambda w=_w: IntSetHash(w)


def register(REG): REG.update(ALL)
