"""Verification of function bodies against their contracts."""
import time, sys, os, json, traceback
import z3
from engine import *
import tree as T
from contracts import *
import loops


def mkparam(eng, st, t, name, roles):
    """symbolic argument for a parameter type; roles collects special arguments"""
    k = t['k']
    et = eng.isnode(t)
    if et is not None:
        th = eng.theory(et)
        n = eng.fresh(name, th.Node)
        eng.fact(n != th.nil)
        return n
    if k == 'named' and t['n'] == 'tree.hasher': return None
    if k == 'ptr':
        return mkptr(eng, st, t['e'], name, roles)
    u = eng.prog.under(t) if k == 'named' else t
    if u['k'] == 'struct': return mkstruct(eng, st, t, name, roles)
    if u['k'] == 'func': return mkfunc(eng, st, t, u, name, roles)
    return eng.symval(t, name)


def mkstruct(eng, st, t, name, roles):
    u = eng.prog.under(t)
    return SV([mkparam(eng, st, f['t'], f['n'], roles) for f in u['f']])


def mkfunc(eng, st, t, u, name, roles):
    E = roles.get('E')
    et = u['p']['e'][0] if u['p']['e'] else None
    if name == 'eq':
        th = eng.theory(et)
        if roles.get('eqgen'):
            if 'eq' not in roles:
                f = Function('EQ', th.E, th.E, BoolSort())
                eng.fact(All([th.E, th.E], lambda a, b: mkimp(f(a, b), th.cls(a) == th.cls(b)), lambda a, b: [f(a, b)]))
                roles['eq'] = UF(lambda e, st, a, pos: f(e.box(et, a[0]), e.box(et, a[1])), 'eq')
            return roles['eq']
        return UF(lambda e, st, a, pos: th.cls(e.box(et, a[0])) == th.cls(e.box(et, a[1])), 'eq')
    if roles.get('reduce') and u['p']['e'] and u['p']['e'][0]['k'] == 'slice':
        return T.reducer(eng, eng.theory(u['p']['e'][0]['e']))
    if name == 'f' and 'flip' in roles:
        th = eng.theory(et)
        if 'comb' not in roles:
            f = roles['comb'] = Function('COMB', th.E, th.E, th.E)
            eng.fact(All([th.E, th.E], lambda a, b: mkimp(th.cls(a) == th.cls(b), th.cls(f(a, b)) == th.cls(a)), lambda a, b: [f(a, b)]))
        f = roles['comb']
        if roles['flip']: return UF(lambda e, st, a, pos: e.unbox(et, f(e.box(et, a[1]), e.box(et, a[0]))), 'flipped f')
        return UF(lambda e, st, a, pos: e.unbox(et, f(e.box(et, a[0]), e.box(et, a[1]))), 'f')
    return eng.symfunc(u, name)


def mkptr(eng, st, t, name, roles):
    if t['k'] == 'named' and t['n'] == 'tree.CombineArgs':
        r = dict(roles); shared = roles
        objs = []
        u = eng.prog.under(t)
        o1, o2 = Obj(t, 'args', fresh=False), Obj(t, 'args.flipped', fresh=False)
        ea = None
        for o, other, flip in ((o1, o2, False), (o2, o1, True)):
            fs = []
            for f in u['f']:
                if f['n'] == 'flipped': fs.append(Ptr(other))
                elif f['n'] == 'EqArgs':
                    if ea is None: ea = mkparam(eng, st, f['t'], f['n'], shared)
                    fs.append(ea)
                else:
                    shared['flip'] = flip
                    fs.append(mkparam(eng, st, f['t'], f['n'], shared))
            o.init = SV(fs)
        return Ptr(o1)
    o = Obj(t, name, fresh=False)
    o.init = mkparam(eng, st, t, name, roles)
    return Ptr(o)


class Result:
    def __init__(s, key): s.key, s.obls, s.error, s.stats = key, [], None, {}


class MethodCheck:
    """verify one implementation of a node method against the interface contract"""
    def __init__(s, kind, method, base=None):
        s.kind, s.method, s.base = kind, method, base
        s.key = 'tree.(*%s).%s' % (T.KINDNAME[kind], method)

    def build(s, prog, contracts):
        eng = Engine(prog, contracts)
        eng.fname = s.key
        if '-d' in sys.argv: eng.opts['debug'] = True
        fn = prog.fns.get(s.key)
        if fn is None: raise Unsupported('function %s not found' % s.key)
        th = eng.theory(T.TP)
        con = s.base or T.CONTRACTS[s.method]()
        inplace = isinstance(con, T.AddInplace)
        st = FS(TRUE, {}, {}, {}, None)
        n = eng.fresh('recv', th.Node)
        eng.fact(th.kind(n) == s.kind); eng.fact(n != th.nil)
        roles = {'eqgen': s.method == 'Equal', 'reduce': s.method == 'Reduce'}
        ptypes = [p['t'] for p in fn['params']]
        args = []
        d = None
        for i, p in enumerate(fn['params'][1:]):
            t = p['t']
            if t['k'] == 'basic' and t['n'] == 'int':
                v = d = eng.fresh('d', IntSort())
            elif t['k'] == 'slice' and s.method == 'AppendTo':
                v = eng.symslice(t['e'], 'dest')
                v.back.owned = True
            else: v = mkparam(eng, st, t, p['n'].split(':')[-1], roles)
            args.append(v)
        if d is None: d = eng.fresh('d', IntSort())
        eng.ghostd = d
        # hasher argument: exactly the value's hasher at this depth
        vi = [i for i, p in enumerate(fn['params'][1:]) if p['t']['k'] == 'tp']
        for i, a in enumerate(args):
            if a is None: args[i] = th.HS(th.cls(eng.box(T.TP, args[vi[0]])), d)
        c = con.bind(eng, st, [n] + args, [T.TP], 'check', n)
        if not hasattr(c, 'd') or c.d is None: c.d = d
        pre = con.inplace_pre(c) if inplace else con.pre(c)
        for name, f in pre: eng.fact(f)
        recv = Ptr(eng.node_obj(st, n, s.kind, T.TP, owned=con.mutator))
        eng.opts['recv'] = recv
        eng.loop_ctx = c
        c.kind = s.kind
        if hasattr(con, 'loop_template'): eng.loop_templates = [con.loop_template(c)]
        eng.covers = [('preconditions satisfiable', list(eng.facts))]
        eng.nret = 0
        def on_return(fr, st, xs, s=s):
            if fr.depth > 0 or fr.parent is not None:
                v = xs[0] if len(xs) == 1 else tuple(xs)
                fr.returns.append((st, v)); return
            eng.nret += 1
            c2 = T.Ctx(**c.__dict__); c2.st = st
            res = s.convert(eng, st, c, fn, xs, con)
            if inplace:
                r0 = xs[0]
                same = isinstance(r0, Ptr) and r0.same(recv)
                eng.oblige('%s: returns its receiver' % s.key, 'wf', st.guard, BoolVal(bool(same)))
            post = con.inplace_post(c2, res) if inplace else con.post(c2, res)
            for name, tag, f in post:
                eng.oblige('%s: %s [return %d]' % (s.key, name, eng.nret), tag, st.guard, f, assume=(tag == 'wf'))
            fr.returns.append((st, ()))
        eng.on_return = on_return
        eng.run(s.key, [recv] + args, st, {}, (), 0, None)
        if not eng.nret: eng.oblige('%s: returns' % s.key, 'safe', TRUE, FALSE)
        return eng

    def convert(s, eng, st, c, fn, xs, con):
        if s.method == 'Get' or s.method == 'AppendTo': return xs[0]
        out = []
        for r, x in zip(fn['res'] if 'res' in fn else [None] * len(xs), xs):
            if isinstance(x, z3.ExprRef) and x.sort() != c.th.Node: out.append(x)
            elif isinstance(x, z3.ExprRef): out.append(x)
            else: out.append(eng.to_node(st, x, c.et, True))
        return out[0] if len(out) == 1 else tuple(out)


def discharge(facts, guard, goal, timeout=10000, seed=0, relevancy=None):
    sol = z3.SimpleSolver()
    sol.set('auto_config', False); sol.set('smt.mbqi', False)
    if relevancy is not None: sol.set('smt.relevancy', relevancy)
    sol.set('timeout', timeout)
    if seed: sol.set('smt.random_seed', seed)
    for f in facts: sol.add(f)
    sol.add(guard)
    sol.add(z3.Not(goal))
    t = time.time()
    r = sol.check()
    return r, time.time() - t, sol


def run_check(chk, prog, contracts, verbose=False, timeout=10000):
    t0 = time.time()
    eng = chk.build(prog, contracts)
    tb = time.time() - t0
    bad = 0
    ts = 0
    for o in eng.obls:
        g = z3.simplify(o.goal)
        if z3.is_true(g) or z3.is_false(z3.simplify(o.guard)): o.status = 'trivial'; continue
        r, t, sol = discharge(o.facts, o.guard, o.goal, timeout)
        o.time = t; ts += t
        o.status = 'ok' if r == z3.unsat else str(r)
        if r != z3.unsat:
            bad += 1
            o.reason = sol.reason_unknown() if r == z3.unknown else 'sat'
        if verbose or r != z3.unsat or t > 2: print('   %-8s %5.2fs %-5s %s %s' % (o.status, t, o.tag, o.name, o.pos), o.reason)
    print('%s: %d obligations, %d failed, build %.1fs solve %.1fs, %d facts' % (chk.key, len(eng.obls), bad, tb, ts, len(eng.facts)))
    return eng, bad


if __name__ == '__main__':
    prog = Prog(os.environ.get('SSA', '/tmp/ssa.json'))
    cs = T.tree_contracts()
    for a in sys.argv[1:]:
        if a.startswith('-'): continue
        kinds, m = a.split('.')
        for kn in kinds.split(','):
            kind = [k for k, v in T.KINDNAME.items() if v == kn][0]
            base = None
            if kn == 'branch' and m == 'AddFast': base = T.CAddFastB()
            if kn == 'branch' and m == 'Add': base = T.CAddB()
            try: run_check(MethodCheck(kind, m, base), prog, cs, '-v' in sys.argv)
            except Unsupported as e:
                print('UNSUPPORTED', kn, m, e)
                if '-t' in sys.argv: traceback.print_exc()
