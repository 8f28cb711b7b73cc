"""Specifications of the exported layer (trees, sets, maps, builders and what is built on
them): each is a postcondition over the ghost views of the arguments and results, checked
against the body of the real function, with calls resolved to the node contracts."""
import time
import z3
from z3 import And, Or, Not, If, IntVal, Int, Const, Function, IntSort, BoolSort, BoolVal, Select
from engine import *
from contracts import *
from theory import Theory
import tree as T
import verify as V

I = IntSort()
B = BoolSort()


def named(t, n): return t['k'] == 'named' and t['n'] == n


class TV:
    """ghost view of a tree-bearing value"""
    def __init__(s, eng, st, v, et):
        s.eng, s.et, s.th = eng, et, eng.theory(et)
        while len(v.f) == 1: v = v.f[0]
        s.raw = v
        s.root = eng.to_node(st, v.f[0], et, False)
        s.count = v.f[1]
    def has(s, k): return s.th.HAS(s.root, k)
    def val(s, k): return s.th.VAL(s.root, k)
    def mval(s, k): return s.th.entry_val(s.th.VAL(s.root, k))
    @property
    def CNT(s): return s.th.CNT(s.root)
    def shape(s): return Or(s.root == s.th.nil, s.th.WF(s.root, IntVal(0)))
    def ok(s): return And(s.shape(), s.count == s.CNT)


TREES = ('tree.Tree', 'tree.Builder', 'frozen.Set', 'frozen.Map', 'frozen.SetBuilder', 'frozen.MapBuilder')


def tree_elem(eng, t):
    """element type of the tree inside a tree-bearing type, or None"""
    while t['k'] == 'named' and t['n'] in TREES:
        if t['n'] == 'tree.Tree': return t['a'][0]
        u = eng.prog.under(t)
        if u['k'] != 'struct' or len(u['f']) != 1: raise Unsupported('unexpected representation of ' + tstr(t))
        t = u['f'][0]['t']
    return None


def mkarg(eng, st, t, name, facts, owned=False):
    """symbolic value of a parameter type, with the invariants of its type as facts"""
    k = t['k']
    if k == 'named' and t['n'] == 'tree.Tree':
        et = t['a'][0]
        th = eng.theory(et)
        root, count = eng.fresh(name, th.Node), eng.fresh(name + '.count', I)
        facts.append(And(Or(root == th.nil, th.WF(root, IntVal(0))), count == th.CNT(root)))
        if owned: facts.append(th.OWN(root))
        return SV([root, count])
    if k == 'ptr' and not eng.isref(t):
        o = Obj(t['e'], name, fresh=False, owned=True)
        o.init = mkarg(eng, st, t['e'], name, facts, True)
        return Ptr(o)
    if k == 'map':
        import gomaps
        return gomaps.symmap(eng, st, t, name)[0]
    if eng.zsort(t) is not None: return eng.symval(t, name)
    u = eng.prog.under(t) if k == 'named' else t
    if named(t, 'frozen.IntSet'):
        import specs5
        v = SV([mkarg(eng, st, f['t'], name + '.' + f['n'], facts, owned) for f in u['f']])
        facts += [f for _, _, f in specs5.intset_inv(eng, st, v, t)]
        return v
    if u['k'] == 'struct':
        return SV([mkarg(eng, st, f['t'], name + '.' + f['n'], facts, owned) for f in u['f']])
    return eng.symval(t, name)


def pointee(eng, st, p):
    return eng.getpath(eng.content(st, p.o), p.path, st, st.guard, '')


class X:
    """what a specification can talk about"""
    def __init__(s, eng, st, fn, args, ptypes):
        s.eng, s.st0, s.st, s.fn, s.args, s.ptypes = eng, st, st, fn, args, ptypes
        s.ret, s.memo = None, {}
    def view(s, i):
        """view of argument i on entry"""
        if ('v', i) not in s.memo:
            t, v = s.ptypes[i], s.args[i]
            if t['k'] == 'ptr': v, t = pointee(s.eng, s.st0, v), t['e']
            s.memo['v', i] = TV(s.eng, s.st0, v, tree_elem(s.eng, t))
        return s.memo['v', i]
    def after(s, i):
        """view of the object argument i points to, on return"""
        t, p = s.ptypes[i], s.args[i]
        return TV(s.eng, s.st, pointee(s.eng, s.st, p), tree_elem(s.eng, t['e']))
    def box(s, i): return s.eng.box(s.ptypes[i], s.args[i])
    def key(s, i):
        """equality class of argument i"""
        return s.eng.theory(s.ptypes[i]).cls(s.box(i))
    def cls(s, t, z): return s.eng.theory(t).cls(z)
    def res(s, i=0):
        """view of result i"""
        if ('r', i) not in s.memo:
            s.memo['r', i] = TV(s.eng, s.st, s.ret[i], tree_elem(s.eng, s.rtypes[i]))
        return s.memo['r', i]
    def call(s, i, *zs):
        """apply the callback argument i"""
        return s.callv(s.args[i], s.ptypes[i], *zs)
    def callv(s, f, t, *zs):
        eng = s.eng
        u = eng.prog.under(t) if t['k'] == 'named' else t
        if getattr(s, 'atcall', False) and isinstance(f, FV):
            import lift
            k = ('lift', id(f))
            if k not in s.memo: s.memo[k] = (lift.lift(eng, s.st0, f, u['p']['e'], u['r']['e'], mkarg, f.fn.replace('!', '_'), s.__dict__.get('liftdom')), f)
            eng.lifted = s.memo[k][0]
            out = tuple(eng.unbox(r, F(*zs)) for r, F in zip(u['r']['e'], s.memo[k][0]))
            return out[0] if len(out) == 1 else out
        st = s.st0.copy(); st.guard = TRUE
        v = eng.callfn(st, f, [eng.unbox(p, z) if isinstance(z, z3.ExprRef) else z for p, z in zip(u['p']['e'], zs)], None, '')
        return v
    def K(s, i): return s.view(i).th.K


SPECS = {}


class Spec:
    def __init__(s, name, key, post, **kw):
        s.name, s.key, s.post = name, key, post
        s.pre = s.panics = s.templates = s.targs = s.setup = None
        s.opts = {}
        s.inline = ()
        s.calls = ()          # specifications used at call sites in place of the bodies
        s.ctor = None
        s.measure = None
        s.noinv = False
        s.__dict__.update(kw)


def spec(name, key=None, **kw):
    def deco(f):
        SPECS[name] = Spec(name, key or 'frozen.' + ('(%s).%s' % tuple(name.split('.')) if '.' in name else name), f, **kw)
        return f
    return deco


CONTRACTS = None


def contracts():
    global CONTRACTS
    if CONTRACTS is None:
        CONTRACTS = T.tree_contracts()
        import low
        for c in API_CONTRACTS + low.BITCONTRACTS: CONTRACTS[c.key] = c()
    return CONTRACTS


class CNewGauge(Contract):
    """any gauge will do: every use of one is through Gauge.Parallel, whose contract ignores it"""
    name = 'NewGauge'; key = 'depth.NewGauge'
    def call(s, eng, st, args, targs, pos, fr): return eng.fresh('gauge', I)


import iters
API_CONTRACTS = [CNewGauge, iters.CTreeIterator]


def unit(name):
    mk = SPECS[name].__dict__.get('make')
    return mk() if mk else ApiUnit(name)


class ApiUnit:
    def __init__(s, name):
        s.spec = SPECS[name]
        s.name = name
        s.functions = [s.spec.key]

    def build(s, prog, debug=False):
        sp = s.spec
        eng = Engine(prog, {**{k: c for k, c in contracts().items() if k not in sp.inline}, **at_call(*sp.calls)}, dict(sp.opts))
        eng.fname = sp.key
        if debug: eng.opts['debug'] = True
        eng.ghostd = IntVal(0)
        eng.opts.setdefault('typeassert', typeassert_any)
        eng.opts.setdefault('invoke', invoke_iter)
        fn = prog.fns.get(sp.key)
        if fn is None: raise Unsupported('function %s not found' % sp.key)
        st = FS(TRUE, {}, {}, {}, None)
        tenv = sp.targs(eng) if sp.targs else {}
        ptypes = [prog.sub(p['t'], tenv) for p in fn['params']]
        rtypes = [prog.sub(t, tenv) for t in fn['sig']['r']['e']]
        facts = []
        args = [mkarg(eng, st, t, p['n'].split(':')[-1], facts) for p, t in zip(fn['params'], ptypes)]
        for f in facts: eng.fact(f)
        x = X(eng, st, fn, args, ptypes)
        x.rtypes = rtypes
        x.tenv = tenv
        x.spec = sp
        if sp.setup: sp.setup(x)
        if sp.measure: eng.entry_measure = sp.measure(x)
        for i, t in enumerate(ptypes):
            tt = t['e'] if t['k'] == 'ptr' else t
            if tree_elem(eng, tt) is not None: x.view(i)
        if sp.pre:
            for nm, f in sp.pre(x): eng.fact(f)
        eng.loop_ctx = None
        if sp.templates: eng.loop_templates = sp.templates(x)
        eng.nret = 0
        x.npanic = 0

        def on_return(fr, st, xs):
            if fr.depth > 0 or fr.parent is not None:
                fr.returns.append((st, xs[0] if len(xs) == 1 else tuple(xs))); return
            eng.nret += 1
            x.st, x.ret = st, xs
            x.memo = {k: v for k, v in x.memo.items() if k[0] != 'r'}
            def ob(nm, tag, f): eng.oblige('%s: %s [return %d]' % (sp.key, nm, eng.nret), tag, st.guard, f, assume=(tag == 'wf'))
            if x.__dict__.get('unfold'): x.unfold()
            if not sp.noinv:
                for i, t in enumerate(rtypes):
                    if named(t, 'frozen.IntSet'):
                        import specs5
                        d = specs5.ISV(eng, st, xs[i], t['a'][0]).d
                        ob('result well formed', 'wf', d.shape())
                        ob('count of the cell map is its number of entries', 'count', d.count == d.CNT)
                        for nm, tag, f in specs5.intset_inv(eng, st, xs[i], t): ob(nm, tag, f)
                    if tree_elem(eng, t) is not None:
                        r = x.res(i)
                        ob('result well formed', 'wf', r.shape())
                        ob('count of the result is its number of elements', 'count', r.count == r.CNT)
                for i, t in enumerate(ptypes):
                    if t['k'] == 'ptr' and tree_elem(eng, t['e']) is not None:
                        r = x.after(i)
                        ob('builder well formed', 'wf', r.shape())
                        ob('builder count is its number of elements', 'count', r.count == r.CNT)
                        ob('builder exclusively owns its nodes', 'frame', r.th.OWN(r.root))
            for nm, tag, f in sp.post(x): ob(nm, tag, f)
            if sp.panics:
                for nm, c in sp.panics(x): ob('returns normally only when it must: not ' + nm, 'view', mknot(c))
            fr.returns.append((st, ()))
        eng.on_return = on_return
        if sp.panics: eng.opts['may_panic'] = lambda e, st: mkor(*[c for _, c in sp.panics(x)])
        eng.run(sp.key, args, st, tenv, (), 0, None)
        if not eng.nret: eng.oblige('%s: returns' % sp.key, 'safe', TRUE, FALSE)
        return eng

    def run(s, prog, timeout, deadline):
        import units
        eng = s.build(prog)
        s.assumed = set(eng.callees)
        s.inlined = set(eng.inlined)
        yield from units.discharge_all(eng, timeout, deadline)
        v = units.vacuity(eng, deadline)
        if v: yield v


def typeassert_any(eng, fr, st, x, at, ok, xt, pos):
    """x.(T) for an unknown interface value: whether it holds and which value it holds are
    functions of x"""
    if not isinstance(x, z3.ExprRef): return None
    memo = eng.__dict__.setdefault('_ta', {})
    k = (x.get_id(), tstr(at))
    if k not in memo:
        is_ = Function('dyn_is_' + tstr(at), x.sort(), B)(x)
        facts = []
        v = mkarg(eng, st, at, 'dyn_as', facts)
        for f in facts: eng.fact(f, is_)
        memo[k] = (is_, v, x)
    is_, v, _ = memo[k]
    if ok: return (v, is_)
    eng.oblige('type assertion holds', 'safe', st.guard, is_, pos)
    return v


INVOKES = []           # further kinds of abstract receivers


def invoke_iter(eng, st, recv, rt, method, args, fr, pos, resT):
    for h in INVOKES:
        r = h(eng, st, recv, rt, method, args, fr, pos, resT)
        if r is not NotImplemented: return r
    return NotImplemented


class SpecContract(Contract):
    """the specification of an exported function, used at its call sites instead of its body"""
    def __init__(s, spec):
        s.spec, s.key, s.name = spec, spec.key, spec.name
    def call(s, eng, st, args, targs, pos, fr):
        sp = s.spec
        prog = eng.prog
        fn = prog.fns.get(sp.key)
        if fn is None: raise Unsupported('function %s not found' % sp.key)
        tenv = dict(zip(fn['tp'], targs))
        ptypes = [prog.sub(p['t'], tenv) for p in fn['params']]
        rtypes = [prog.sub(t, tenv) for t in fn['sig']['r']['e']]
        args = list(args)
        refs = []
        for i, t in enumerate(ptypes):
            if i == 0 and '.(*' in sp.key and eng.isref(t) and isinstance(args[i], z3.ExprRef):
                c = eng.content(st, eng.refheap(t['e']))
                eng.oblige('nil dereference', 'safe', st.guard, Select(c.f[2], args[i]), pos)
                o = eng.alloc(st, t['e'], eng.refget(st, t['e'], args[i]), 'deref')
                refs.append((t['e'], args[i], o))
                args[i] = Ptr(o)
        x = X(eng, st.copy(), fn, args, ptypes)
        x.rtypes, x.tenv, x.spec, x.atcall = rtypes, tenv, sp, True
        if sp.setup: sp.setup(x)
        for i, t in enumerate(ptypes):
            if isinstance(args[i], z3.ExprRef): continue
            tt = t['e'] if t['k'] == 'ptr' else t
            if tree_elem(eng, tt) is not None:
                v = x.view(i)
                eng.oblige('precondition of %s: well-formed argument' % sp.key, 'pre', st.guard, v.ok(), pos)
                if t['k'] == 'ptr': eng.oblige('precondition of %s: the builder owns its nodes' % sp.key, 'frame', st.guard, v.th.OWN(v.root), pos)
        if sp.pre:
            for nm, f in sp.pre(x): eng.oblige('precondition of %s: %s' % (sp.key, nm), 'pre', st.guard, f, pos)
        if sp.measure and eng.fname == sp.key:
            m = sp.measure(x)
            eng.oblige('recursion of %s decreases its measure' % sp.key, 'safe', st.guard, And(0 <= m, m < eng.entry_measure), pos)
        if sp.templates: sp.templates(x)
        if sp.panics:
            for nm, f in sp.panics(x): eng.oblige('%s does not panic because %s' % (sp.key, nm), 'safe', st.guard, mknot(f), pos)
        facts = []
        for i, t in enumerate(ptypes):
            if t['k'] == 'ptr' and isinstance(args[i], Ptr) and tree_elem(eng, t['e']) is not None:
                if not eng.writable(args[i].o): eng.oblige('frame: %s changes an object it does not own' % sp.key, 'frame', st.guard, FALSE, pos)
                o, e = args[i], eng.content(st, args[i].o)
                eng.store(st, args[i], mkarg(eng, st, t['e'], 'upd', facts, True), pos)
        rets = [s.result(eng, st, t, 'res', facts) for t in rtypes]
        x.st, x.ret = st, rets
        for f in facts: eng.fact(f, st.guard)
        for nm, tag, f in sp.post(x): eng.fact(f, st.guard)
        s.posted(eng, st, x, pos)
        for t, r, o in refs:
            eng.refput(st, t, r, eng.content(st, o))
            del st.heap[o]
        return rets[0] if len(rets) == 1 else tuple(rets)
    def posted(s, eng, st, x, pos): pass
    def result(s, eng, st, t, name, facts):
        u = eng.prog.under(t) if t['k'] == 'named' else t
        if u['k'] == 'slice' and eng.zsort(t) is None:
            v = eng.symslice(u['e'], name)
            o = eng.alloc(st, v.back.typ, v.back.init, name)
            return SL(o, v.off, v.len, v.cap, v.nil)
        return mkarg(eng, st, t, name, facts)


def at_call(*names):
    """contracts (by key) for the named specifications"""
    return {n.key: n for n in names if not isinstance(n, str)} | {SPECS[n].key: SpecContract(SPECS[n]) for n in names if isinstance(n, str)}


# ------------------------------------------------------------------ formula helpers
def same_members(x, r, f, K=None, extra=()):
    """forall k. HAS(r,k) == f(k)"""
    th = r.th
    pats = lambda k: [r.has(k)] + [v.has(k) for v in extra]
    return All([th.K], lambda k: r.has(k) == f(k), pats)


def vals(r, f):
    th = r.th
    return All([th.K], lambda k: mkimp(r.has(k), f(k)), lambda k: [r.has(k)])


def members_kept(r, o):
    """stored elements of r at its keys are those of o"""
    return vals(r, lambda k: r.val(k) == o.val(k))
