"""Loop rule: loops whose trip count is not concrete are cut by an inductive invariant.
The invariant is the largest subset of a candidate set that is inductive (Houdini);
candidates come from the shape of the state (counters, slice lengths), from the
conditions evaluated in the body (search and filter loops), and from the contract of
the function being verified.  The surviving invariant is emitted as ordinary proof
obligations ('loop invariant holds initially / is preserved')."""
import z3
from z3 import And, Or, Not, If, IntVal, Int, Const, Function, IntSort, BoolSort, BoolVal, Select
from engine import *
from contracts import Ex, guarded

I = IntSort()


class Cell:
    """one changed component of the loop state; path from a phi name or a heap object"""
    def __init__(s, key, kind, sort=None): s.key, s.kind, s.sort = key, kind, sort


def plan(eng, fr, h, body, sts):
    if not cut_needed(eng, fr, h, body, sts): return None
    return lambda: Cut(eng, fr, h, body, sts).run()


def cut_needed(eng, fr, h, body, sts):
    """run the header: a concrete condition means the loop is unrolled"""
    snap = eng.snapshot()
    try:
        st = eng.enter(fr, h, [x.copy() for x in sts])
        blk = eng.prog.fns[fr.key]['blocks'][h]
        t = blk['i'][-1]
        if t['op'] != 'If': return header_deep(eng, fr, h, body)
        st = st.copy()
        for ins in blk['i']:
            if ins['op'] == 'Phi': continue
            if ins['op'] == 'If':
                c = z3.simplify(eng.val(fr, st, ins['x']))
                if is_true(c) and any(i['op'] == 'Call' for i in blk['i']): return later(eng, fr, h, body, sts)
                if is_true(c) or is_false(c): return False
                if not eng.feasible(mkand(st.guard, c)) : return False
                if maskcond(c): return False        # bounded by the width of the mask: unrolled completely
                if eng.opts.get('unroll') and eng.opts['unroll'](fr.key): return False
                return True
            eng.instr(fr, st, ins)
    except Dead: return False
    finally: eng.rollback(snap)
    return False


def later(eng, fr, h, body, sts):
    """the first round is certain (an iterator over something known to be non-empty): is the second one as well?"""
    snap, nret = eng.snapshot(), len(fr.returns)
    try:
        nxt = []
        for src, dst, x in eng.region(fr, body, h, [x.copy() for x in sts], h):
            if dst == h and not is_false(z3.simplify(x.guard)): x.src = src; nxt.append(x)
        return bool(nxt) and cut_needed(eng, fr, h, body, nxt)
    except Unsupported: return True
    finally:
        eng.rollback(snap); del fr.returns[nret:]


def maskcond(c):
    """the condition compares a 16-bit child mask with zero"""
    c = c.arg(0) if z3.is_not(c) else c
    return z3.is_eq(c) and z3.is_bv(c.arg(0)) and c.arg(0).size() == 16 and (conc(c.arg(0)) == 0 or conc(c.arg(1)) == 0)


def header_deep(eng, fr, h, body): return True


class Cut:
    def __init__(s, eng, fr, h, body, sts):
        s.eng, s.fr, s.h, s.body = eng, fr, h, body
        s.entry = eng.enter(fr, h, [x.copy() for x in sts])
        s.entry.src = 'havoc'
        s.name = '%s loop@%s' % (fr.key, s.pos())
        blk = eng.prog.fns[fr.key]['blocks'][h]
        s.phis = [i['r'] for i in blk['i'] if i['op'] == 'Phi']

    def pos(s):
        for b in [s.h] + sorted(s.body):
            for ins in s.eng.prog.fns[s.fr.key]['blocks'][b]['i']:
                if ins.get('pos'): return ins['pos']
        return 'b%d' % s.h

    # ---- state components
    def get(s, st, key):
        if key[0] == 'phi': return st.env[key[1]]
        return s.eng.content(st, key[1])

    def put(s, st, key, v):
        if key[0] == 'phi': st.env[key[1]] = v
        else:
            st.heap[key[1]] = v
            st.abs.pop(key[1], None)

    def same(s, a, b):
        if a is b: return True
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
        if isinstance(a, SV) and isinstance(b, SV): return all(s.same(x, y) for x, y in zip(a.f, b.f))
        if isinstance(a, AV) and isinstance(b, AV): return len(a.e) == len(b.e) and all(s.same(x, y) for x, y in zip(a.e, b.e))
        if isinstance(a, SL) and isinstance(b, SL):
            return a.back is b.back and all(s.same(x, y) for x, y in ((a.off, b.off), (a.len, b.len), (a.cap, b.cap), (a.nil, b.nil)))
        if isinstance(a, Ptr) and isinstance(b, Ptr): return a.same(b)
        if isinstance(a, IterV) and isinstance(b, IterV): return a.o is b.o
        if isinstance(a, IV) and isinstance(b, IV): return tstr(a.t) == tstr(b.t) and s.same(a.v, b.v)
        if isinstance(a, OptRef) and isinstance(b, OptRef): return s.same(a.nn, b.nn) and s.same(a.val, b.val)
        return False

    def havoc(s, v0, v1, nm, st, memo):
        """v0 value on entry, v1 value after one (more) iteration: unconstrained value of that shape"""
        eng = s.eng
        if s.same(v0, v1): return v0
        if isinstance(v0, z3.ExprRef) and isinstance(v1, z3.ExprRef): return eng.fresh(nm, v0.sort())
        if isinstance(v0, SV) and isinstance(v1, SV):
            return SV([s.havoc(a, b, nm + '.%d' % i, st, memo) for i, (a, b) in enumerate(zip(v0.f, v1.f))])
        if isinstance(v0, AV) and isinstance(v1, AV):
            return AV([s.havoc(a, b, nm + '.%d' % i, st, memo) for i, (a, b) in enumerate(zip(v0.e, v1.e))])
        if isinstance(v0, FA) and isinstance(v1, FA):
            so = v0.get(IntVal(0)).sort()
            f = Function('%s!%d' % (nm, eng.fresh_n()), I, so)
            return FA(v0.n, lambda j, f=f: f(zint(j)), v0.node)
        if isinstance(v0, SL) and isinstance(v1, SL):
            return s.havocslice(v0, v1, nm, st, memo)
        if isinstance(v0, OptRef) and isinstance(v1, OptRef):
            return OptRef(eng.fresh(nm + '.nn', BoolSort()), s.havoc(v0.val, v1.val, nm + '.v', st, memo))
        if isinstance(v0, IV) and isinstance(v1, IV) and tstr(v0.t) == tstr(v1.t):
            return IV(v0.t, s.havoc(v0.v, v1.v, nm, st, memo))
        # node-typed values of different shape: abstract
        for et in s.node_types():
            try:
                if s.isnodeval(v0, et) and s.isnodeval(v1, et): return eng.fresh(nm, eng.theory(et).Node)
            except Unsupported: pass
        raise Unsupported('loop changes %s from %r to %r' % (nm, v0, v1))

    def node_types(s): return [t.et for k, t in s.eng.theories.items() if not k.startswith('arr:')]

    def isnodeval(s, v, et):
        th = s.eng.theory(et)
        if isinstance(v, z3.ExprRef): return v.sort() == th.Node
        if v is NIL: return True
        if isinstance(v, Ptr): return s.eng.nodekind(v.o.typ) is not None and tstr(s.eng.nodekind(v.o.typ)[1]) == tstr(et)
        if isinstance(v, Union): return all(s.isnodeval(x, et) for _, x in v.alts)
        return False

    def backtyp(s, sl):
        return sl.back.typ.get('e') if sl.back is not None and sl.back.typ else None

    def havocslice(s, v0, v1, nm, st, memo):
        eng = s.eng
        if v0.back is v1.back and s.same(v0.off, v1.off):
            ln = v0.len if s.same(v0.len, v1.len) else eng.fresh(nm + '.len', I)
            cp = v0.cap if s.same(v0.cap, v1.cap) else eng.fresh(nm + '.cap', I)
            nl = v0.nil if s.same(v0.nil, v1.nil) else eng.fresh(nm + '.nil', BoolSort())
            st.pending.append(And(0 <= ln, ln <= cp))
            return SL(v0.back, v0.off, ln, cp, nl)
        et = s.backtyp(v0) or s.backtyp(v1)
        if et is None: raise Unsupported('loop changes slice of unknown element type')
        if not (conc(v0.off) == 0 and conc(v1.off) == 0): raise Unsupported('loop moves a slice')
        key = (v0.back.id if v0.back else None, nm)
        ok0 = v0.back is None or eng.writable(v0.back)
        ok1 = v1.back is None or eng.writable(v1.back) or getattr(v1.back, 'loopbase', None) is not None and eng.writable(v1.back)
        o = Obj({'k': 'backing', 'e': et}, nm + '.arr', fresh=bool(ok0 and ok1))
        o.depth = eng.par['level'] if eng.par else 0
        o.loopslot = True
        if v0.back is not None: o.parents = (v0.back,)
        ta = eng.theory_arr(et)
        st.heap[o] = eng.fresh(nm + '.arr', ta.Arr)
        ln, cp = eng.fresh(nm + '.len', I), eng.fresh(nm + '.cap', I)
        st.pending.append(And(0 <= ln, ln <= cp))
        return SL(o, IntVal(0), ln, cp, eng.fresh(nm + '.nil', BoolSort()) if not s.same(v0.nil, v1.nil) else v0.nil)

    # ---- one symbolic iteration
    def iterate(s, st):
        """run the loop region once from header state st; returns (backs, outs)"""
        e0 = s.eng.epoch
        s.eng.epoch = s.eng.fresh_n()
        try: edges = s.eng.region(s.fr, s.body, s.h, [st], s.h)
        finally: s.eng.epoch = e0
        backs, outs = [], []
        for (src, dst, x) in edges:
            if is_false(z3.simplify(x.guard)): continue
            if dst == s.h:
                x.src = src
                backs.append(x)
            else: outs.append((src, dst, x))
        bk = []
        for x in backs:
            y = x.copy()
            blk = s.eng.prog.fns[s.fr.key]['blocks'][s.h]
            k = blk['p'].index(x.src)
            vals = [s.eng.val(s.fr, y, p['xs'][k]) for p in blk['i'] if p['op'] == 'Phi']
            for p, v in zip(s.phis, vals): y.env[p] = v
            bk.append(y)
        return bk, outs

    def header_state(s, changed, counters, j):
        """entry state with the changed components replaced by unconstrained values"""
        st = s.entry.copy()
        st.src = 'havoc'
        st2 = HS(st)
        for key, (v1, nm) in changed.items():
            v0 = s.get(s.entry, key)
            if key in counters: s.put(st, key, simp(v0 + j if counters[key] > 0 else v0 - j)); continue
            s.put(st, key, s.havoc(v0, v1, nm, st2, None))
        for k in s.mkeys: st.mk[k] = TRUE
        return st, st2.pending

    def run(s):
        eng = s.eng
        oldlog = eng.__dict__.get('condlog')
        # objects allocated before the loop
        changed, counters = {}, {}
        s.mkeys = set()
        e0 = s.entry
        pre = list(e0.heap)
        esc0 = {o: o.escaped for o in pre}
        stale0 = {o: o.stale for o in pre}
        snap = eng.snapshot()
        keepesc = set()
        cands, alive = None, []
        j = eng.fresh('j', I)
        eng.facts.append(j >= 0)
        snap = eng.snapshot()
        rets = s.fr.returns
        par_acc = len(eng.par['acc']) if eng.par else 0

        def reset():
            eng.rollback(snap)
            s.fr.returns[:] = s.fr.returns[:nret]
            for o, v in esc0.items(): o.escaped = v or o in keepesc
            for o, v in stale0.items(): o.stale = v
            if eng.par: del eng.par['acc'][par_acc:]
        nret = len(s.fr.returns)

        def trial(with_facts):
            st, pend = s.header_state(changed, counters, j)
            for p in pend: eng.facts.append(p)
            for f in with_facts(st): eng.fact(f, st.guard)
            eng.trial = eng.__dict__.get('trial', 0) + 1
            eng.condlog = []
            try: backs, outs = s.iterate(st.copy())
            finally:
                eng.trial -= 1
                log = eng.condlog; eng.condlog = oldlog
            return st, backs, outs, log
        # 1. modification set, by fixpoint
        for rnd in range(12):
            st, backs, outs, log = trial(lambda st: [])
            new = False
            for y in backs:
                for p in s.phis:
                    k = ('phi', p)
                    if not s.same(s.get(st, k), y.env[p]) and (k not in changed or s.reshape(s.get(s.entry, k), changed[k][0], y.env[p])):
                        changed[k] = (y.env[p], p.replace('t', 'v')); new = True
                for o in list(y.heap):
                    if o in st.heap and not (o in e0.heap): continue
                    if o not in e0.heap and not (hasattr(o, 'init') and o in y.heap and s.preexisting(o, snap)): continue
                    k = ('obj', o)
                    cur = s.get(st, k)
                    if not s.same(cur, y.heap[o]) and (k not in changed or s.reshape(s.get(s.entry, k), changed[k][0], y.heap[o])):
                        changed[k] = (y.heap[o], o.name.split('!')[0] or 'o'); new = True
                for kk, v in y.mk.items():
                    if not is_false(z3.simplify(v)) and kk not in s.mkeys and kk[1] in {o.id for o in e0.heap} | s.initids(e0):
                        if not (kk in e0.mk and e0.mk[kk].eq(v)): s.mkeys.add(kk); new = True
                for o in y.abs:
                    if o in esc0 and o.escaped and o not in keepesc and not esc0[o]: keepesc.add(o); new = True
            if not new:
                # counters
                cs = {}
                for k in changed:
                    v = s.get(st, k)
                    if isinstance(v, z3.ExprRef) and v.sort() == I and k not in counters:
                        for d in (1, -1):
                            if backs and all(conc(z3.simplify(s.get(y, k) - v)) == d for y in backs): cs[k] = d
                if cs: counters.update(cs); new = True
            if not new: break
            reset()
        else: raise Unsupported('loop modification set does not stabilise')
        # 2. candidate invariants
        s.changed, s.counters, s.j = changed, counters, j
        cset = s.candidates(st, log, snap)
        reset()
        alive = []
        for nm, f in cset:
            try:
                if s.check(e0.guard, s.goal(f(e0, IntVal(0))), 400, s.again(nm, f)): alive.append((nm, f))
            except Unsupported: pass
            except Skip: pass
            eng.rollback(snap)
        for rnd in range(12):
            st, backs, outs, log = trial(lambda st: s.inst(alive, st, j))
            keep = []
            for nm, f in alive:
                ok = True
                for y in backs:
                    try:
                        eng.curname = nm
                        g = s.goal(f(y, j + 1))
                        if not s.check(y.guard, g, s.budget[id(f)], s.again(nm, f)):
                            ok = False
                            if eng.opts.get('debug'): print('      drop', nm, 'round', rnd, 'back', backs.index(y), 'of', len(backs))
                            break
                    except (Unsupported, Skip) as e:
                        if eng.opts.get('debug'): print('      drop', nm, 'round', rnd, repr(e))
                        ok = False; break
                if ok: keep.append((nm, f))
            reset()
            if len(keep) == len(alive): break
            alive = keep
        s.alive = alive
        for nm, f in cset:
            if nm.startswith('!') and nm not in {n for n, _ in alive}:
                eng.oblige('%s: %s' % (s.name, nm[1:]), 'inv', e0.guard, FALSE)
        # which 'appended in place' marks can hold at the header, given the invariant
        allmk, s.mkeys = s.mkeys, set()
        for rnd in range(8):
            st, backs, outs, log = trial(lambda st: s.inst(alive, st, j))
            more = {kk for y in backs for kk, v in y.mk.items() if kk in allmk and not is_false(z3.simplify(v))} - s.mkeys
            reset()
            if not more: break
            s.mkeys |= more
        if eng.opts.get('debug'): print('   loop', s.name, 'counters', [c[1] for c in counters], 'changed', [str(c[1]) for c in changed], 'inv', [n for n, _ in alive], 'dropped', [n for n, _ in cset if n not in {m for m, _ in alive}])
        # 3. the real thing
        for nm, f in alive:
            eng.oblige('%s: invariant holds initially: %s' % (s.name, nm), 'inv', e0.guard, f(e0, IntVal(0)), assume=False)
        st, pend = s.header_state(changed, counters, j)
        for p in pend: eng.fact(p, st.guard)
        for f in s.inst(alive, st, j): eng.fact(f, st.guard)
        backs, outs = s.iterate(st.copy())
        for y in backs:
            for k in changed:
                if k not in counters and not s.fits(s.get(st, k), s.get(y, k)): raise Unsupported('loop state changes shape: %r' % (k,))
            for p in s.phis:
                if ('phi', p) not in changed and not s.same(st.env[p], y.env[p]): raise Unsupported('loop-carried value not generalised')
            for o in list(y.heap):
                if o in st.heap or hasattr(o, 'init'):
                    if ('obj', o) not in changed and o in s.entry.heap and not s.same(s.get(st, ('obj', o)), y.heap[o]): raise Unsupported('loop-modified object not generalised')
                    if ('obj', o) not in changed and o not in st.heap and hasattr(o, 'init') and not s.same(o.init, y.heap[o]): raise Unsupported('loop-modified object not generalised')
            for nm, f in alive:
                eng.oblige('%s: invariant is preserved: %s' % (s.name, nm), 'inv', y.guard, f(y, j + 1), assume=False)
        if not outs and not any(True for _ in s.fr.returns[nret:]):
            pass
        return outs

    def goal(s, f):
        return f if isinstance(f, z3.ExprRef) else f.goal(s.eng)

    def inst(s, alive, st, j): return [f(st, j) for nm, f in alive]

    def initids(s, e0): return set()

    def preexisting(s, o, snap): return True

    def reshape(s, v0, old, new):
        """does the new back-edge value force a different havoc shape than the recorded one?"""
        if isinstance(v0, SV) and isinstance(old, SV) and isinstance(new, SV):
            return any(s.reshape(a, b, c) for a, b, c in zip(v0.f, old.f, new.f))
        if isinstance(v0, SL) and isinstance(old, SL) and isinstance(new, SL):
            return old.back is v0.back and new.back is not v0.back and not getattr(new.back, 'loopslot', False)
        return False

    def fits(s, hv, v):
        """is the value at a back edge an instance of the shape assumed at the header?"""
        if isinstance(hv, z3.ExprRef): return isinstance(v, z3.ExprRef) and v.sort() == hv.sort() or s.isanynode(v)
        if isinstance(hv, SV): return isinstance(v, SV) and all(s.fits(a, b) for a, b in zip(hv.f, v.f))
        if isinstance(hv, AV): return isinstance(v, AV) and all(s.fits(a, b) for a, b in zip(hv.e, v.e))
        if isinstance(hv, SL):
            if not isinstance(v, SL): return False
            if hv.back is None: return v.back is None
            if getattr(hv.back, 'loopslot', False):
                return conc(v.off) == 0 and (v.back is None or not hv.back.fresh or s.eng.writable(v.back))
            return v.back is hv.back and s.same(hv.off, v.off)
        if isinstance(hv, FA): return isinstance(v, FA)
        if isinstance(hv, OptRef): return isinstance(v, OptRef)
        if isinstance(hv, IV): return isinstance(v, IV) and tstr(hv.t) == tstr(v.t) and s.fits(hv.v, v.v)
        return s.same(hv, v)

    def isanynode(s, v): return any(s.isnodeval(v, et) for et in s.node_types())

    # ---- candidates
    def slices(s, st, j):
        """(label, array, length) of the element slices in scope"""
        eng = s.eng
        out, seen = [], set()
        def add(lbl, v):
            if not isinstance(v, SL) or v.back is None: return
            try: c = eng.content(st, v.back)
            except Unsupported: return
            if not isinstance(c, z3.ExprRef) or conc(v.off) != 0: return
            k = (c.get_id(), v.len.get_id())
            if k in seen: return
            seen.add(k); out.append((lbl, c, v.len, v))
        for k, v in list(st.env.items()):
            add(('env', k), v)
            if isinstance(v, Ptr) and not v.path:
                try: c = eng.content(st, v.o)
                except Unsupported: continue
                if isinstance(c, SV):
                    for i, x in enumerate(c.f): add(('fld', k, i), x)
        return out

    def resolve(s, st, lbl):
        if lbl[0] == 'env': v = st.env.get(lbl[1])
        elif lbl[0] == 'cell':
            v = s.get(st, lbl[1])
            for i in lbl[2]:
                v = v.f[i] if isinstance(v, SV) else v
        else:
            p = st.env.get(lbl[1])
            if not isinstance(p, Ptr): raise Skip()
            v = s.eng.content(st, p.o).f[lbl[2]]
        if not isinstance(v, SL): raise Skip()
        if v.back is None:
            raise Skip()
        c = s.eng.content(st, v.back)
        if not isinstance(c, z3.ExprRef): raise Skip()
        return c, v.len

    def cells(s):
        """int and slice cells among the changed components"""
        ints, sls = [], []
        def walk(key, path, v):
            if isinstance(v, z3.ExprRef):
                if v.sort() == I: ints.append((key, path))
            elif isinstance(v, SV):
                for i, x in enumerate(v.f): walk(key, path + (i,), x)
            elif isinstance(v, SL): sls.append((key, path))
        for k in s.changed:
            if k in s.counters: continue
            walk(k, (), s.get(s.hst, k))
        return ints, sls

    def cellval(s, st, c):
        v = s.get(st, c[0])
        for i in c[1]:
            if not isinstance(v, SV): raise Skip()
            v = v.f[i]
        return v

    def arrlen(s, st, c, et):
        """contents and length of a slice cell as an array term"""
        v = s.cellval(st, c)
        if not isinstance(v, SL): raise Skip()
        a, l = s.eng.slice_arr_ro(st, v, et)
        return a, l

    def again(s, nm, f): return s.budget[id(f)] > 1500 and not nm.startswith(('countdown', 'one element per', 'iteration count'))

    def check(s, guard, g, budget, again):
        eng = s.eng
        if eng.valid(guard, g, budget): return True
        if not again or eng.last != 'canceled' and eng.last != 'timeout': return False
        import verify as V
        for seed, rel in ((7, 0), (11, None)):
            if V.discharge(eng.known(guard), guard, g, budget, seed, rel)[0] == z3.unsat: return True
        return False

    def candidates(s, st, log, snap):
        eng, j, e0, counters = s.eng, s.j, s.entry, s.counters
        s.hst = st
        out = []
        ints, sls = s.cells()
        unchanged = [(lbl, a, n) for lbl, a, n, v in s.slices(e0, j) if not s.is_changed_slice(st, lbl, a, n)]
        for lbl, a, n in unchanged:
            out.append(('j <= len', lambda x, jj, n=n: jj <= n))
        # slices read by the body but loaded through changed registers are found by their terms
        def lenof(x, c): 
            v = s.cellval(x, c)
            if not isinstance(v, SL): raise Skip()
            return v.len
        for c in ints:
            def v(x, c=c):
                r = s.cellval(x, c)
                if not isinstance(r, z3.ExprRef): raise Skip()
                return r
            try: c0 = v(e0)
            except Skip: continue
            out.append(('counter', lambda x, jj, v=v, c0=c0: v(x) == c0 + jj))
            out.append(('lower', lambda x, jj, v=v, c0=c0: v(x) >= c0))
            out.append(('upper', lambda x, jj, v=v, c0=c0: v(x) <= c0 + jj))
            for sc in sls:
                try: l0 = lenof(e0, sc)
                except Skip: continue
                out.append(('grows', lambda x, jj, v=v, c0=c0, sc=sc, l0=l0: v(x) == c0 + lenof(x, sc) - l0))
                out.append(('rest', lambda x, jj, v=v, c0=c0, sc=sc, l0=l0: v(x) == c0 + jj - (lenof(x, sc) - l0)))
        for sc in sls:
            try: l0 = lenof(e0, sc)
            except Skip: continue
            out.append(('len>=', lambda x, jj, sc=sc, l0=l0: lenof(x, sc) >= l0))
            out.append(('len<=', lambda x, jj, sc=sc, l0=l0: lenof(x, sc) <= l0 + jj))
            out.append(('len=', lambda x, jj, sc=sc, l0=l0: lenof(x, sc) == l0 + jj))
            out.append(('cap>=len', lambda x, jj, sc=sc: s.cellval(x, sc).cap >= lenof(x, sc)))
        # conditions evaluated in the body, as predicates of the iteration number
        made = {c.get_id() for c in eng.created[snap[2]:]}
        conds, seen = [], set()
        for c in log:
            if not mentions(c, {j.get_id()}): continue
            if mentions(c, made - {j.get_id()}): continue
            for a in atoms(c):
                if mentions(a, {j.get_id()}) and a.get_id() not in seen:
                    seen.add(a.get_id()); conds.append(a)
        s.conds = []
        downs = [s.get(e0, k) for k, d in counters.items() if d < 0]
        for c0 in downs: out.append(('counts down to zero', lambda x, jj, c0=c0: jj <= c0 + 1))
        for n, c in enumerate(conds):
            for c0 in downs:
                q = Int('q!')
                if not selects(z3.simplify(z3.substitute(c, (j, c0 - q))), q): continue
                for neg in (False, True):
                    def D(p, c=c, c0=c0, neg=neg):
                        r = z3.simplify(z3.substitute(c, (j, c0 - p)))
                        return mknot(r) if neg else r
                    out.append(('all later positions %s cond%d' % ('fail' if neg else 'satisfy', n),
                                lambda x, jj, D=D, c0=c0: All([I], lambda p: mkimp(And(c0 - jj < p, p <= c0), D(p)), lambda p: selects(D(p), p))))
            for neg in (False, True):
                def P(i, c=c, neg=neg):
                    r = z3.substitute(c, (j, i))
                    return mknot(r) if neg else r
                s.conds.append(P)
                out.append(('all earlier iterations %s cond%d' % ('fail' if neg else 'satisfy', n),
                            lambda x, jj, P=P: All([I], lambda i: mkimp(And(0 <= i, i < jj), P(i)), lambda i: selects(P(i), i))))
                if not selects(c, j) and z3.is_app(c) and c.num_args() == 2 and not z3.is_bool(c.arg(0)):
                    out.append(('the last iteration %s cond%d' % ('failed' if neg else 'satisfied', n), lambda x, jj, P=P: Or(jj <= 0, P(simp(jj - 1)))))
        for th in [t for k, t in eng.theories.items() if not k.startswith('arr:')]:
            out += s.elem_candidates(th, unchanged, sls, e0)
        out = [(nm, f, 1000) for nm, f in out]
        for t in eng.loop_templates: out += [(nm, f, 15000 if nm.startswith('~') else 4000) for nm, f in t(s, st, unchanged, ints, sls)]
        s.budget = {id(f): b for _, f, b in out}
        return [(nm, f) for nm, f, _ in out]

    def is_changed_slice(s, st, lbl, a, n):
        try: a2, n2 = s.resolve(st, lbl)
        except Exception: return True
        return not (a2.eq(a) and n2.eq(n))

    def elem_candidates(s, th, unchanged, sls, e0):
        eng = s.eng
        out = []
        A = th.A
        src = [(a, n) for _, a, n in unchanged if a.sort() == A]
        c = eng.__dict__.get('loop_ctx')
        # contract-derived element predicates
        for P in getattr(c, 'elementwise', []) if c is not None else []:
            for a, n in src:
                out.append(('elementwise', lambda x, jj, a=a, P=P: All([I], lambda i: mkimp(And(0 <= i, i < jj), P(Select(a, i))), lambda i: [Select(a, i)])))
        if not th.arr_used: return out
        for sc in sls:
            try:
                v = s.cellval(e0, sc)
                if v.back is not None and tstr(v.back.typ.get('e')) != tstr(th.et): continue
            except Skip: continue
            def AL(x, sc=sc):
                return s.arrlen(x, sc, th.et)
            out.append(('DIST', lambda x, jj, AL=AL: th.DIST(*AL(x))))
            for a, n in src:
                out.append(('elements come from the source', lambda x, jj, AL=AL, a=a, n=n: s.f2(th, AL(x), a, n, jj)))
                for q, P in enumerate(s.conds):
                    def f1(x, jj, AL=AL, a=a, n=n, P=P):
                        X, L = AL(x)
                        return All([th.K], lambda k: th.INARR(X, L, k) == And(th.INARR(a, n, k), th.apos(a, n, k) < jj, P(th.apos(a, n, k))), lambda k: [th.INARR(X, L, k)])
                    out.append(('filter%d' % q, f1))
                    def f1r(x, jj, AL=AL, a=a, n=n, P=P):
                        X, L = AL(x)
                        return All([th.K], lambda k: mkimp(And(th.INARR(a, n, k), th.apos(a, n, k) < jj, P(th.apos(a, n, k))), th.INARR(X, L, k)), lambda k: [th.INARR(a, n, k)])
                    out.append(('filter%d reverse' % q, f1r))
        return out

    def f2(s, th, AL, a, n, jj):
        X, L = AL
        return All([I], lambda i: mkimp(And(0 <= i, i < L), And(th.INARR(a, n, th.cls(Select(X, i))),
                   th.apos(a, n, th.cls(Select(X, i))) < jj,
                   Select(X, i) == Select(a, th.apos(a, n, th.cls(Select(X, i)))))), lambda i: [Select(X, i)])


class HS:
    """header state under construction: forwards the heap, collects shape facts"""
    def __init__(s, st): s.st, s.heap, s.pending = st, st.heap, []


class Skip(Exception): pass


def atoms(c):
    """boolean atoms of a condition"""
    k = c.decl().kind() if z3.is_app(c) else None
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
        out = []
        for x in c.children(): out += atoms(x)
        return out + ([c] if k != z3.Z3_OP_NOT else [])
    return [c]


def mentions(e, ids):
    seen, stk = set(), [e]
    while stk:
        x = stk.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.get_id() in ids: return True
        if z3.is_quantifier(x): stk.append(x.body())
        else: stk += x.children()
    return False


def selects(e, i):
    """terms usable as patterns for i"""
    out, seen, stk = [], set(), [e]
    while stk:
        x = stk.pop()
        if x.get_id() in seen or not z3.is_app(x): continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_SELECT and x.arg(1).eq(i): out.append(x)
        elif x.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(a.eq(i) for a in x.children()): out.append(x)
        stk += x.children()
    return out
