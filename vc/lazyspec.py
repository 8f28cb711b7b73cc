"""Contracts of the lazy package (C22, C23).

A lazy.Set value is an element of the uninterpreted sort LSet with a ghost content REP(v), a tree over
`any` with the same elements; every method of the interface has one contract over REP, which every
implementing type is verified against (for embedded default methods: once, for any set that embeds
them).  A SetIterator is an element of LIter: MAY(it,.) the classes it may yield (fixed), MUST(state,it,.)
those it still has to yield, CUR(state,it) its current value."""
import z3
from z3 import And, Or, Not, If, IntVal, Int, Const, Function, IntSort, BoolSort, BoolVal, Select
from engine import *
from contracts import *
from api import mkarg, at_call, contracts, SPECS, tree_elem, TV
from specs2 import ANY
import specs1
import loops, lift, units
from seq import treecell, cells

I, B = IntSort(), BoolSort()
MAXINT = 2 ** 63 - 1
SET, ITER = 'lazy.Set', 'lazy.SetIterator'
TAGS = {}


def tag(n): return IntVal(TAGS.setdefault(n, len(TAGS) + 1))
def pat(f): return lambda *a: [f(*a)]
def isnamed(t, n): return t['k'] == 'named' and t['n'] == n


class Lazy:
    def __init__(s, eng):
        s.eng = eng
        eng.lz = s
        s.th = th = eng.theory(ANY)
        s.S, s.L = eng.sort(SET), eng.sort(ITER)
        s.IS = eng.sort('IterState')
        s.K, s.E = th.K, th.E
        s.REP = Function('REP', s.S, th.Node)
        s.TYP = Function('TYP', s.S, I)
        s.MAY = Function('MAY', s.L, s.K, B)
        s.MUST = Function('MUST', s.IS, s.L, s.K, B)
        s.CUR = Function('CUR', s.IS, s.L, s.E)
        s.VALID = Function('VALID', s.IS, s.L, B)
        s.ONCE = Function('ONCE', s.L, B)               # yields no element twice
        s.repel = Function('repel', s.K, s.E)
        s.ISSET = Function('ISSET', s.E, B)
        s.ASSET = Function('ASSET', s.E, s.S)
        s.ANYOF = Function('any_of_set', s.S, s.E)
        s.nilset, s.niliter = Const('nil_' + SET, s.S), Const('nil_' + ITER, s.L)
        ax = eng.axiom
        wf = lambda n: Or(n == th.nil, th.WF(n, IntVal(0)))
        ax(All([s.S], lambda v: And(wf(s.REP(v)), th.CNT(s.REP(v)) <= MAXINT), lambda v: [s.REP(v)]))
        ax(All([s.K], lambda k: th.cls(s.repel(k)) == k, lambda k: [s.repel(k)]))
        ax(All([s.S], lambda v: And(s.ISSET(s.ANYOF(v)), s.ASSET(s.ANYOF(v)) == v), lambda v: [s.ANYOF(v)]))
        ax(All([s.E], lambda e: mkimp(s.ISSET(e), s.ASSET(e) != s.nilset), lambda e: [s.ASSET(e)]))
        s.G = Obj({'k': 'iterstate'}, 'iterstate', fresh=False, owned=True)
        s.G.ghost = True
        s.G.init = SV([eng.fresh('m', s.IS)])
        s.ofobj, s.ofconst, s.mats, s.imgs = {}, {}, {}, {}
        s.laws = set()

    # ---- basic terms
    def H(s, v, k): return s.th.HAS(s.REP(v), k)
    def CNT(s, v): return s.th.CNT(s.REP(v))
    def m(s, st): return s.eng.content(st, s.G).f[0]
    def sub(s, v, w):
        a, b = (x if x.sort() == s.th.Node else s.REP(x) for x in (v, w))
        s.th.sub_lemma(a, b)
        return s.th.SUBP(a, b)
    def same(s, v, w): return mkand(s.sub(v, w), s.sub(w, v))

    def call(s, f, e):
        """apply a callback to an element: a z3 term"""
        r = s.eng.pure_call(s.eng.cur or s.st0, f, [e], ANY)
        if not isinstance(r, z3.ExprRef): raise Unsupported('callback result %r' % (r,))
        return r
    def pc(s, f, k): return s.call(f, s.repel(k))
    def mc(s, f, k): return s.th.cls(s.call(f, s.repel(k)))
    def law(s, f, image):
        """the callback respects equality"""
        val = (lambda e: s.th.cls(s.call(f, e))) if image else (lambda e: s.call(f, e))
        return All([s.E], lambda e: val(e) == val(s.repel(s.th.cls(e))), lambda e: [s.call(f, e)])
    def img(s, H, key, f):
        """P(k) <=> exists k0. H(k0) and f maps k0 to k"""
        key = (key, id(f))
        if key not in s.imgs:
            n = s.eng.fresh_n()
            P, W = Function('IMG!%d' % n, s.K, B), Function('IMGW!%d' % n, s.K, s.K)
            s.eng.axiom(All([s.K], lambda k: mkimp(P(k), And(H(W(k)), s.mc(f, W(k)) == k)), lambda k: [P(k)]))
            s.eng.axiom(All([s.K], lambda k: mkimp(H(k), P(s.mc(f, k))), lambda k: [H(k)]))
            s.imgs[key] = (P, f)
        return s.imgs[key][0]
    def imgset(s, v, f): return s.img(lambda k: s.H(v, k), ('s', v.get_id()), f)

    # ---- objects and their ghost identity
    def iters_types(s): return iter_types(s.eng.prog)
    def fields(s, tn):
        u = s.eng.prog.under({'k': 'named', 'n': tn})
        return u['f'] if u['k'] == 'struct' else []
    def pick(s, tn, c, kind):
        """values of the fields of a kind, in order"""
        out = []
        for f, v in zip(s.fields(tn), c.f):
            t = f['t']
            u = s.eng.prog.under(t) if t['k'] == 'named' else t
            k = 'set' if isnamed(t, SET) else 'iter' if isnamed(t, ITER) else 'func' if u['k'] == 'func' else \
                'tree' if tree_elem(s.eng, t) is not None else 'base' if isnamed(t, 'lazy.baseSet') else \
                'bool' if u.get('n') == 'bool' else 'ptr' if t['k'] == 'ptr' else '?'
            if k == kind: out.append(v)
        return out
    def setconst(s, o):
        if o not in s.ofobj:
            c = s.eng.fresh('self_' + o.typ['n'].split('.')[1], s.S)
            s.link(o, c)
        return s.ofobj[o]
    def iterconst(s, o):
        if o not in s.ofobj: s.link(o, s.eng.fresh('it_' + o.typ['n'].split('.')[1], s.L))
        return s.ofobj[o]
    def link(s, o, c):
        s.ofobj[o] = c
        s.ofconst[c.get_id()] = (o, c)

    def mkval(s, st, t, name):
        """arbitrary value of a type of the package"""
        eng = s.eng
        if t['k'] == 'ptr':
            e = t['e']
            if e['k'] == 'named' and e['n'] in set_types(eng.prog): return Ptr(s.materialise(st, e, eng.fresh(name, s.S)))
            o = Obj(e, name, fresh=False)
            o.init = s.mkval(st, e, name)
            return Ptr(o)
        if isnamed(t, SET) or isnamed(t, ITER):
            c = eng.zsort(t)
            v = eng.fresh(name, c)
            return v
        u = eng.prog.under(t) if t['k'] == 'named' else t
        if u['k'] == 'func':
            f = eng.symfunc(u, name)
            s.lawful(f, u)
            return f
        if tree_elem(eng, t) is not None:
            facts = []
            v = mkarg(eng, st, t, name, facts, True)
            for f in facts: eng.fact(f)
            return v
        if u['k'] == 'struct': return SV([s.mkval(st, f['t'], name + '.' + f['n']) for f in u['f']])
        return eng.symval(t, name)

    def lawful(s, f, u):
        """callbacks are documented to be pure: equal arguments give equal results"""
        r = u['r']['e']
        if len(u['p']['e']) != 1 or len(r) != 1: return
        s.eng.axiom(s.law(f, s.eng.boxsort(r[0]) != B))
        s.laws.add(id(f))

    def materialise(s, st, t, v):
        """the object behind a set value of known dynamic type"""
        k = (v.get_id(), t['n'])
        if k not in s.mats:
            o = Obj(t, t['n'].split('.')[1], fresh=False)
            o.published = True
            if v.get_id() not in s.ofconst: s.link(o, v)
            else: s.ofobj[o] = v
            fs = [SV([v]) if isnamed(f['t'], 'lazy.baseSet') else s.mkval(st, f['t'], f['n']) for f in s.fields(t['n'])]
            o.init = SV(fs)
            g = s.TYP(v) == tag(t['n'])
            for nm, f in s.setfacts(st, o, v): s.eng.fact(f, g)
            s.mats[k] = (o, v)
        return s.mats[k][0]

    def abstract(s, st, tn, c):
        """membership in a set of type tn with fields c"""
        n = tn.split('.')[1]
        S, F, T = s.pick(tn, c, 'set'), s.pick(tn, c, 'func'), s.pick(tn, c, 'tree')
        names = [f['n'] for f in s.fields(tn) if isnamed(f['t'], SET)]
        def ab(*want):
            if sorted(names) == sorted(want): return [S[names.index(w)] for w in want]
            if len(S) != len(want): raise Unsupported('operands of ' + tn)
            return S
        if n == 'unionSet': a, b = ab('a', 'b'); return lambda k: mkor(s.H(a, k), s.H(b, k))
        if n == 'intersectionSet': a, b = ab('a', 'b'); return lambda k: mkand(s.H(a, k), s.H(b, k))
        if n == 'differenceSet': a, b = ab('a', 'b'); return lambda k: mkand(s.H(a, k), mknot(s.H(b, k)))
        if n == 'whereSet' and len(S) == len(F) == 1: return lambda k: mkand(s.H(S[0], k), s.pc(F[0], k))
        if n == 'mapperSet' and len(S) == len(F) == 1: return s.imgset(S[0], F[0])
        if n == 'frozenSet' and len(T) == 1: return lambda k: s.th.HAS(TV(s.eng, st, T[0], ANY).root, k)
        if n == 'memoSet':
            w = s.eng.load(st, c.f[0], '')
            return lambda k: s.H(w, k)
        if n == 'EmptySet': return lambda k: FALSE
        raise Unsupported('no abstraction for ' + tn)

    def operands(s, st, tn, c):
        out = list(s.pick(tn, c, 'set'))
        if tn == 'lazy.memoSet': out.append(s.eng.load(st, c.f[0], ''))
        return out

    def setfacts(s, st, o, v):
        """invariant of a set object"""
        tn = o.typ['n']
        c = s.eng.content(st, o)
        out = [('the set is not nil', v != s.nilset), ('dynamic type', s.TYP(v) == tag(tn))]
        for b in s.pick(tn, c, 'base'): out.append(('embedded methods act on the set itself', b.f[0] == v))
        if tn in ('lazy.powerSet',): return out
        for w in s.operands(st, tn, c): out.append(('operands are not nil', w != s.nilset))
        a = s.abstract(st, tn, c)
        def pats(k):
            return [s.H(v, k)] + [s.H(w, k) for w in s.operands(st, tn, c)] + [TV(s.eng, st, t, ANY).has(k) for t in s.pick(tn, c, 'tree')]
        out.append(('members', All([s.K], lambda k: s.H(v, k) == a(k), pats)))
        for w in s.operands(st, tn, c): s.sub(w, v)
        for t in s.pick(tn, c, 'tree'):
            t = TV(s.eng, st, t, ANY)
            s.same(v, t.root)
            out.append(('tree well formed', t.ok()))
        return out

    def consts(s, z):
        """constants of the set and iterator sorts that a value can be"""
        out, stk, seen = [], [z], set()
        while stk:
            x = stk.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if x.get_id() in s.eng.itedef: stk.append(s.eng.itedef[x.get_id()][1]); continue
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE: stk += [x.arg(1), x.arg(2)]
            elif x.get_id() in s.ofconst: out.append(s.ofconst[x.get_id()])
        return out

    def publish(s, st, z, pos):
        """set objects reachable through z become visible to others: their invariants must hold, and they
        may not be changed any more"""
        if isinstance(z, Ptr):
            if z.o.typ.get('n') in set_types(s.eng.prog) and not z.path: z = s.setconst(z.o)
            else: return
        if not isinstance(z, z3.ExprRef) or z.sort() != s.S: return
        for o, c in s.consts(z):
            if getattr(o, 'published', False): continue
            o.published = True
            v = s.eng.content(st, o)
            for w in s.operands(st, o.typ['n'], v): s.publish(st, w, pos)
            for nm, f in s.setfacts(st, o, c):
                if nm in ('members', 'dynamic type', 'the set is not nil'): s.eng.fact(f, st.guard)
                else: s.eng.oblige('new %s: %s' % (o.typ['n'], nm), 'view', st.guard, f, pos)
            o.escaped = True
            for x in v.f:
                if isinstance(x, Ptr): x.o.escaped = True

    # ---- iterators
    def iinv(s, tn, c, it, m):
        """[(name, formula)] invariant of an iterator of type tn with fields c"""
        th = s.th
        n = tn.split('.')[1]
        S, F, L = s.pick(tn, c, 'set'), s.pick(tn, c, 'func'), s.pick(tn, c, 'iter')
        MAY = s.MAY
        A = lambda f, *ps: All([s.K], f, lambda k: [p(k) for p in ps])
        nn = [('iterator is not nil', i != s.niliter) for i in L]
        if n == 'emptySetIterator': return []
        if len(L) != 1: raise Unsupported('fields of ' + tn)
        i = L[0]
        mi = lambda k: MAY(i, k)
        if n == 'unionSetIterator' and len(S) == 1:
            b = S[0]
            return nn + [('values of the first part belong to the set', A(lambda k: mkimp(MAY(i, k), MAY(it, k)), mi)),
                         ('values of the second part belong to the set', A(lambda k: mkimp(And(b != s.nilset, s.H(b, k)), MAY(it, k)), lambda k: s.H(b, k)))]
        if n == 'intersectionSetIterator' and len(S) == 1:
            b = S[0]
            return nn + [('operand is not nil', b != s.nilset), ('common values belong to the set', A(lambda k: mkimp(And(MAY(i, k), s.H(b, k)), MAY(it, k)), mi))]
        if n == 'differenceSetIterator' and len(S) == 1:
            b = S[0]
            return nn + [('operand is not nil', b != s.nilset), ('remaining values belong to the set', A(lambda k: mkimp(And(MAY(i, k), Not(s.H(b, k))), MAY(it, k)), mi))]
        if n == 'whereSetIterator' and len(F) == 1:
            return nn + [('selected values belong to the set', A(lambda k: mkimp(And(MAY(i, k), s.pc(F[0], k)), MAY(it, k)), mi))]
        if n == 'mapperSetIterator' and len(F) == 1:
            return nn + [('images belong to the set', A(lambda k: mkimp(MAY(i, k), MAY(it, s.mc(F[0], k))), mi))]
        if n == 'cachingIterator':
            v, seen, done = s.caching(tn, c)
            return nn + [('source values belong to the set', A(lambda k: mkimp(MAY(i, k), s.H(v, k)), mi)),
                         ('the set is what is yielded', A(lambda k: MAY(it, k) == s.H(v, k), lambda k: MAY(it, k), lambda k: s.H(v, k))),
                         ('values seen belong to the set', A(lambda k: mkimp(seen.has(k), s.H(v, k)), seen.has)),
                         ('values not seen are still to come', A(lambda k: mkimp(And(Not(done), s.H(v, k)), Or(seen.has(k), s.MUST(m, i, k))), lambda k: s.H(v, k))),
                         ('seen well formed', seen.ok()), ('seen owned', th.OWN(seen.root))]
        raise Unsupported('no invariant for ' + tn)

    def caching(s, tn, c):
        P, T, D = s.pick(tn, c, 'ptr'), s.pick(tn, c, 'tree'), s.pick(tn, c, 'bool')
        if not (len(P) == len(T) == len(D) == 1 and isinstance(P[0], Ptr)): raise Unsupported('fields of ' + tn)
        return s.setconst(P[0].o), TV(s.eng, s.eng.cur, T[0], ANY), D[0]

    def imust(s, tn, c, m):
        """what an iterator of type tn with fields c still has to yield"""
        n = tn.split('.')[1]
        S, F, L = s.pick(tn, c, 'set'), s.pick(tn, c, 'func'), s.pick(tn, c, 'iter')
        if n == 'emptySetIterator': return lambda k: FALSE
        i = L[0]
        mu = lambda k: s.MUST(m, i, k)
        if n == 'unionSetIterator': return lambda k: Or(mu(k), And(S[0] != s.nilset, s.H(S[0], k)))
        if n == 'intersectionSetIterator': return lambda k: And(mu(k), s.H(S[0], k))
        if n == 'differenceSetIterator': return lambda k: And(mu(k), Not(s.H(S[0], k)))
        if n == 'whereSetIterator': return lambda k: And(mu(k), s.pc(F[0], k))
        if n == 'mapperSetIterator': return s.img(mu, ('i', m.get_id(), i.get_id()), F[0])
        if n == 'cachingIterator':
            v, seen, done = s.caching(tn, c)
            return lambda k: And(Not(done), s.H(v, k), Not(seen.has(k)))
        raise Unsupported('no view of ' + tn)

    def publish_iter(s, st, z, v):
        """iterators returned by v.Range(): what they may and must yield is chosen here"""
        for o, c in s.consts(z):
            if getattr(o, 'published', False): continue
            o.published = True
            tn = o.typ['n']
            f = s.eng.content(st, o)
            for p in f.f: s.publish(st, p, '')
            m = s.m(st)
            s.eng.fact(All([s.K], lambda k: s.MAY(c, k) == s.H(v, k), lambda k: [s.MAY(c, k), s.H(v, k)]), st.guard)
            for nm, g in s.iinv(tn, f, c, m): s.eng.oblige('new %s: %s' % (tn, nm), 'view', st.guard, g)
            mu = s.imust(tn, f, m)
            s.eng.fact(All([s.K], lambda k: s.MUST(m, c, k) == mu(k), lambda k: [s.MUST(m, c, k), s.H(v, k)]), st.guard)
            s.eng.fact(c != s.niliter, st.guard)
            if tn in YIELDONCE: s.eng.fact(s.ONCE(c), st.guard)

    # ---- the interface contract
    def pre(s, method, v, a):
        if method in ('CountUpTo', 'FastCountUpTo'): return [('limit is not negative', a[0] >= 0)]
        if method in ('EqualSet', 'IsSubsetOf', 'Union', 'Intersection', 'Difference', 'SymmetricDifference'): return [('argument is not nil', a[0] != s.nilset)]
        if method == 'Where': return [('the predicate respects equality', s.law(a[0], False))]
        if method == 'Map': return [('the mapping respects equality', s.law(a[0], True))]
        return []

    def newset(s, r, f, *src):
        """r has the members f(k)"""
        for w in src: s.sub(w, r)
        return [('the result is not nil', 'safe', r != s.nilset),
                ('members of the result', 'view', All([s.K], lambda k: s.H(r, k) == f(k), lambda k: [s.H(r, k)] + [s.H(w, k) for w in src]))]

    def post(s, st, method, v, a, res):
        th, H = s.th, s.H
        n = s.CNT(v)
        r = res[0]
        cap = lambda l: If(n < l, n, l)
        if method == 'IsEmpty': return [('true exactly when there is no element', 'view', r == (n == 0))]
        if method == 'FastIsEmpty': return [('an answer is right', 'view', mkimp(res[1], r == (n == 0)))]
        if method == 'Count': return [('number of distinct elements', 'count', r == n)]
        if method == 'FastCount': return [('an answer is right', 'count', mkimp(res[1], r == n))]
        if method == 'CountUpTo': return [('number of distinct elements up to the limit', 'count', r == cap(a[0]))]
        if method == 'FastCountUpTo': return [('an answer is right', 'count', mkimp(res[1], r == cap(a[0])))]
        if method == 'Has': return [('membership', 'view', r == H(v, th.cls(a[0])))]
        if method == 'FastHas': return [('an answer is right', 'view', mkimp(res[1], r == H(v, th.cls(a[0]))))]
        if method == 'Freeze': return s.newset(r, lambda k: H(v, k), v)
        if method == 'Equal': return [('true exactly for sets with the same elements', 'view', r == mkand(s.ISSET(a[0]), s.same(v, s.ASSET(a[0]))))]
        if method == 'EqualSet': return [('true exactly for sets with the same elements', 'view', r == s.same(v, a[0]))]
        if method == 'IsSubsetOf': return [('true exactly when every element is in the argument', 'view', r == s.sub(v, a[0]))]
        if method == 'With':
            c = th.cls(a[0]); return s.newset(r, lambda k: mkor(k == c, H(v, k)), v)
        if method == 'Without':
            c = th.cls(a[0]); return s.newset(r, lambda k: mkand(k != c, H(v, k)), v)
        if method == 'Where': return s.newset(r, lambda k: mkand(H(v, k), s.pc(a[0], k)), v)
        if method == 'Map': return s.newset(r, s.imgset(v, a[0]))
        if method == 'Union': return s.newset(r, lambda k: mkor(H(v, k), H(a[0], k)), v, a[0])
        if method == 'Intersection': return s.newset(r, lambda k: mkand(H(v, k), H(a[0], k)), v, a[0])
        if method == 'Difference': return s.newset(r, lambda k: mkand(H(v, k), mknot(H(a[0], k))), v, a[0])
        if method == 'SymmetricDifference': return s.newset(r, lambda k: H(v, k) != H(a[0], k), v, a[0])
        if method == 'Powerset': return [('the result is not nil', 'safe', r != s.nilset)]
        if method == 'Hash': return []
        if method == 'Range':
            m = s.m(st)
            once = [('the memoised iteration yields no element twice', 'once', s.ONCE(r))] if s.eng.unit_type == 'lazy.memoSet' else []
            return once + [('the iterator is not nil', 'safe', r != s.niliter),
                    ('only elements are yielded', 'view', All([s.K], lambda k: mkimp(s.MAY(r, k), H(v, k)), lambda k: [s.MAY(r, k)])),
                    ('every element is yielded', 'view', All([s.K], lambda k: mkimp(H(v, k), s.MUST(m, r, k)), lambda k: [H(v, k), s.MUST(m, r, k)]))]
        raise Unsupported('method %s of lazy.Set' % method)

    def invoke(s, st, v, method, args, pos):
        eng = s.eng
        eng.callees.add('lazy.Set.' + method)
        s.publish(st, v, pos)
        if isinstance(v, Ptr): v = s.setconst(v.o)
        eng.oblige('nil dereference (method on nil set)', 'safe', st.guard, v != s.nilset, pos)
        a = []
        for x in args:
            s.publish(st, x, pos)
            a.append(s.setconst(x.o) if isinstance(x, Ptr) else eng.box(ANY, x) if isinstance(x, IV) else x)
        for nm, f in s.pre(method, v, a): eng.oblige('precondition of Set.%s: %s' % (method, nm), 'pre', st.guard, f, pos)
        sig = eng.prog.under({'k': 'named', 'n': SET})['sigs'][method]
        res = [eng.fresh(method, eng.zsort(t)) for t in sig['r']['e']]
        for nm, tg, f in s.post(st, method, v, a, res): eng.fact(f, st.guard)
        return res[0] if len(res) == 1 else tuple(res)

    def iinvoke(s, st, it, method, pos):
        eng = s.eng
        eng.callees.add('lazy.SetIterator.' + method)
        eng.oblige('nil dereference (method on nil iterator)', 'safe', st.guard, it != s.niliter, pos)
        for o, c in s.consts(it):
            if not getattr(o, 'published', False): raise Unsupported('iterator used where it is made')
        m = s.m(st)
        if method == 'Value':
            eng.oblige('Value is called only after Next returned true', 'safe', st.guard, s.VALID(m, it), pos)
            return s.CUR(m, it)
        if method != 'Next': raise Unsupported('iterator method ' + method)
        ok, m2 = eng.fresh('next', B), eng.fresh('m', s.IS)
        c = s.th.cls(s.CUR(m2, it))
        fact = lambda f: eng.fact(f, st.guard)
        fact(s.VALID(m2, it) == ok)
        fact(mkimp(ok, s.MAY(it, c)))
        fact(All([s.K], lambda k: mkimp(s.MUST(m, it, k), And(ok, Or(k == c, s.MUST(m2, it, k)))), lambda k: [s.MUST(m, it, k), s.MUST(m2, it, k)]))
        # iterators are exclusively owned: advancing one does not touch another
        fact(All([s.L, s.K], lambda i, k: mkimp(i != it, s.MUST(m2, i, k) == s.MUST(m, i, k)), lambda i, k: [s.MUST(m2, i, k)]))
        fact(All([s.L], lambda i: mkimp(i != it, And(s.CUR(m2, i) == s.CUR(m, i), s.VALID(m2, i) == s.VALID(m, i))), lambda i: [s.CUR(m2, i)]))
        st.heap[s.G] = SV([m2])
        return ok

    # ---- engine hooks
    def hook_invoke(s, eng, st, recv, rt, method, args, fr, pos, resT):
        if isinstance(recv, z3.ExprRef):
            if recv.sort() == s.S: return s.invoke(st, recv, method, args, pos)
            if recv.sort() == s.L: return s.iinvoke(st, recv, method, pos)
        return NotImplemented

    def hook_iface(s, eng, st, x, to, frm):
        if isinstance(x, Union):
            r = None
            for g, v in reversed(x.alts):
                w = s.hook_iface(eng, st, v, to, frm)
                if w is NotImplemented: return w
                r = w if r is None else eng.merge(g, w, r)
            return r
        if isnamed(to, SET):
            if isinstance(x, z3.ExprRef) and x.sort() == s.S: return x
            if isinstance(x, Ptr) and not x.path: return s.setconst(x.o)
            if isinstance(x, SV) and frm.get('n') in set_types(eng.prog):
                o = eng.alloc(st, frm, x, 'value')
                return s.setconst(o)
        if isnamed(to, ITER):
            if isinstance(x, z3.ExprRef) and x.sort() == s.L: return x
            if isinstance(x, Ptr) and not x.path and x.o.typ.get('n') in iter_types(eng.prog): return s.iterconst(x.o)
            if isinstance(x, SV) and frm.get('n') in iter_types(eng.prog): return s.iterconst(eng.alloc(st, frm, x, 'value'))
            if isinstance(x, IterV): return s.wrap(st, x)
        if isinstance(x, z3.ExprRef) and x.sort() == s.S and eng.prog.under(to)['k'] == 'iface' and not eng.prog.under(to)['m']:
            s.publish(st, x, '')
            return s.ANYOF(x)
        return NotImplemented

    def wrap(s, st, x):
        """an iterator over a frozen set, as a SetIterator (unit lazy:refinement shows that its contract is
        that of SetIterator)"""
        eng, th = s.eng, s.th
        p = eng.content(st, x.o).f[0]
        it, m = eng.fresh('it', s.L), s.m(st)
        th.use_seq()
        fact = lambda f: eng.fact(f, st.guard)
        fact(And(it != s.niliter, s.ONCE(it)))
        fact(All([s.K], lambda k: s.MAY(it, k) == th.HAS(x.n, k), lambda k: [s.MAY(it, k), th.HAS(x.n, k)]))
        fact(All([s.K], lambda k: s.MUST(m, it, k) == And(th.HAS(x.n, k), th.epos(x.n, k) > p), lambda k: [s.MUST(m, it, k), th.HAS(x.n, k)]))
        eng.callees.add('lazy refinement of Iterator')
        return it

    def hook_assert(s, eng, fr, st, x, at, ok, xt, pos):
        if isinstance(x, z3.ExprRef) and x.sort() == s.S:
            if at['k'] == 'ptr' and at['e'].get('n') in set_types(eng.prog):
                s.publish(st, x, pos)
                c = mkand(x != s.nilset, s.TYP(x) == tag(at['e']['n']))
                v = Ptr(s.materialise(st, at['e'], x))
            elif at.get('n') in set_types(eng.prog):
                c = mkand(x != s.nilset, s.TYP(x) == tag(at['n']))
                v = eng.content(st, s.materialise(st, at, x))
            else: return None
        elif isinstance(x, z3.ExprRef) and x.sort() == s.E and isnamed(at, SET):
            c, v = s.ISSET(x), s.ASSET(x)
        else:
            from api import typeassert_any
            return typeassert_any(eng, fr, st, x, at, ok, xt, pos)
        if ok: return (v, c)
        eng.oblige('type assertion holds', 'safe', st.guard, c, pos)
        return v

    def memo_field(s, p):
        if isinstance(p, Ptr) and p.o.typ.get('n') == 'lazy.memoSet' and p.path == (('f', 0),): return p.o
        raise Unsupported('atomic access to %r' % (p,))

    def hook_atomic(s, op, st, args, pos):
        eng = s.eng
        o = s.memo_field(args[0])
        if op == 'load':
            if not getattr(o, 'published', False): return eng.content(st, o).f[0]
            # whatever was stored there by any history: another representation of the same elements
            v, w = s.setconst(o), eng.fresh('memoised', s.S)
            eng.fact(w != s.nilset)
            eng.fact(All([s.K], lambda k: s.H(w, k) == s.H(v, k), lambda k: [s.H(w, k), s.H(v, k)]))
            s.same(v, w)
            c = Obj({'k': 'named', 'n': SET}, 'cell', fresh=False)
            c.init = w
            return Ptr(c)
        w = eng.load(st, args[1], pos)
        s.publish(st, w, pos)
        v = s.setconst(o)
        eng.oblige('the stored representation is not nil', 'view', st.guard, w != s.nilset, pos)
        eng.oblige('the stored representation has the same elements', 'view', st.guard, All([s.K], lambda k: s.H(w, k) == s.H(v, k), lambda k: [s.H(w, k), s.H(v, k)]), pos)
        if isinstance(args[1], Ptr): args[1].o.escaped = True
        if not getattr(o, 'published', False): eng.store(st, args[0], args[1], pos)
        return ()


# ---------------------------------------------------------------- what there is to verify
SKIPTYPES = ('lazy.powerSet', 'lazy.powerSetSetIterator')
YIELDONCE = ('lazy.cachingIterator', 'lazy.emptySetIterator')
SKIPMETHODS = ('Powerset', 'Hash', 'String')
FNS = {
    'memo': lambda z, a: lambda k: z.H(a[0], k),
    'union': lambda z, a: lambda k: mkor(z.H(a[0], k), z.H(a[1], k)),
    'intersection': lambda z, a: lambda k: mkand(z.H(a[0], k), z.H(a[1], k)),
    'difference': lambda z, a: lambda k: mkand(z.H(a[0], k), mknot(z.H(a[1], k))),
    'symmetricDifference': lambda z, a: lambda k: z.H(a[0], k) != z.H(a[1], k),
    'where': lambda z, a: lambda k: mkand(z.H(a[0], k), z.pc(a[1], k)),
    'mapper': lambda z, a: z.imgset(a[0], a[1]),
    'Frozen': None,
    'powerset': None,
}


def set_types(prog):
    m = prog.__dict__.setdefault('_lazysets', None)
    if m is None:
        want = set(prog.under({'k': 'named', 'n': SET})['m'])
        m = prog._lazysets = [t for t, d in prog.named.items() if t.startswith('lazy.') and d.get('pms') and want <= set(d['pms'])]
    return m


def iter_types(prog):
    m = prog.__dict__.setdefault('_lazyiters', None)
    if m is None:
        m = prog._lazyiters = [t for t, d in prog.named.items() if t.startswith('lazy.') and d.get('pms') and {'Next', 'Value'} <= set(d['pms']) and prog.under({'k': 'named', 'n': t})['k'] == 'struct']
    return m


def enumerate_units(prog):
    out = []
    iface = prog.under({'k': 'named', 'n': SET})['m']
    base = False
    for t in sorted(set_types(prog)):
        if t in SKIPTYPES: continue
        for m in iface:
            if m in SKIPMETHODS: continue
            d = prog.named[t]['pms'][m]
            if d['path']: base = True
            else: out.append('lazy:%s.%s' % (t, m))
    for m in iface:
        if m in SKIPMETHODS: continue
        d = prog.named.get('lazy.baseSet', {}).get('pms', {}).get(m)
        if d and not d['path']: out.append('lazy:lazy.baseSet.' + m)
    for t in sorted(iter_types(prog)):
        if t not in SKIPTYPES: out.append('lazy:%s.Next' % t)
    for f in FNS:
        if f != 'powerset' and 'lazy.' + f in prog.fns: out.append('lazy:lazy.' + f)
    out.append('lazy:refinement')
    return out


class MethodCall(Contract):
    """static call of a method of a set type: by the interface contract"""
    def __init__(s, key, method): s.key, s.name, s.method = key, key, method
    def call(s, eng, st, args, targs, pos, fr):
        z = eng.lz
        p = args[0]
        if isinstance(p, Ptr):
            if p.path or isnamed(p.o.typ, 'lazy.baseSet'):
                v = eng.load(st, p, pos)
                if not (isinstance(v, SV) and len(v.f) == 1 and isinstance(v.f[0], z3.ExprRef) and v.f[0].sort() == z.S): raise Unsupported('receiver of ' + s.key)
                v = v.f[0]
            else: v = z.setconst(p.o)
            if isinstance(p, Ptr) and not p.path: z.publish(st, p, pos)
        elif isinstance(p, SV):
            t = {'k': 'named', 'n': s.key.split('.(')[0] + '.' + s.key.split('(')[1].split(')')[0]}
            v = z.setconst(eng.alloc(st, t, p, 'value'))
        else: raise Unsupported('receiver of ' + s.key)
        return z.invoke(st, v, s.method, args[1:], pos)


class FnCall(Contract):
    def __init__(s, f): s.f, s.key, s.name = f, 'lazy.' + f, 'lazy.' + f
    def call(s, eng, st, args, targs, pos, fr):
        z = eng.lz
        for x in args: z.publish(st, x, pos)
        for nm, f in fnpre(z, s.f, args): eng.oblige('precondition of lazy.%s: %s' % (s.f, nm), 'pre', st.guard, f, pos)
        r = eng.fresh(s.f, z.S)
        for nm, tg, f in fnpost(z, st, s.f, args, r): eng.fact(f, st.guard)
        return r


def fnpre(z, f, a):
    out = [('argument is not nil', x != z.nilset) for x in a if isinstance(x, z3.ExprRef) and x.sort() == z.S]
    if f in ('where', 'mapper'): out.append(('the callback respects equality', z.law(a[1], f == 'mapper')))
    if f == 'Frozen': out.append(('the set is well formed', TV(z.eng, z.eng.cur, a[0], ANY).ok()))
    return out


def fnpost(z, st, f, a, r):
    if f == 'powerset': return [('the result is not nil', 'safe', r != z.nilset)]
    if f == 'Frozen':
        t = TV(z.eng, st, a[0], ANY)
        z.same(r, t.root)
        return [('the result is not nil', 'safe', r != z.nilset),
                ('members of the result', 'view', All([z.K], lambda k: z.H(r, k) == t.has(k), lambda k: [z.H(r, k), t.has(k)]))]
    src = [x for x in a if isinstance(x, z3.ExprRef) and x.sort() == z.S]
    return z.newset(r, FNS[f](z, a), *([] if f == 'mapper' else src))


CALLS = ('NewSet', 'SetMap', 'Set.With', 'Set.Without', 'Set.Has', 'Set.Count', 'Set.IsEmpty', 'Set.Equal', 'Set.IsSubsetOf', 'Set.Where',
         'Set.Union', 'Set.Intersection', 'Set.Difference', 'Set.SymmetricDifference', 'SetBuilder.Add', 'SetBuilder.Remove', 'SetBuilder.Has', 'SetBuilder.Count', 'SetBuilder.Finish')


class LazyUnit:
    def __init__(s, name):
        s.name = name
        t, _, m = name[5:].rpartition('.')
        s.t, s.m = t, m
        s.functions = []

    def env(s, prog, debug):
        eng = Engine(prog, {})
        eng.opts['ifaces'] = (SET, ITER)
        z = Lazy(eng)
        cs = {**contracts(), **at_call(*CALLS)}
        for t in set_types(prog) + ['lazy.baseSet']:
            for m in prog.under({'k': 'named', 'n': SET})['m']:
                for ms in ('pms', 'ms'):
                    d = (prog.named.get(t, {}).get(ms) or {}).get(m)
                    if d and d['fn']: cs[d['fn']] = MethodCall(d['fn'], m)
        for f in FNS: cs['lazy.' + f] = FnCall(f)
        eng.contracts = cs
        eng.ghostd = IntVal(0)
        eng.opts.update(invoke=z.hook_invoke, mkiface=z.hook_iface, typeassert=z.hook_assert, atomic=z.hook_atomic)
        eng.fname = s.name
        if debug: eng.opts['debug'] = True
        return eng, z

    def build(s, prog, debug=False):
        eng, z = s.env(prog, debug)
        st = FS(TRUE, {}, {}, {}, None)
        st.heap[z.G] = z.G.init
        z.st0 = st
        eng.cur = st
        eng.nret = 0
        eng.loop_ctx = None
        eng.unit_type = None
        t = {'k': 'named', 'n': s.t}
        if s.t == 'lazy': return s.function(eng, z, st)
        if s.t in iter_types(prog): return s.next(eng, z, st, t)
        d = prog.named[s.t]['pms'][s.m]
        key = d['fn']
        fn = prog.fns[key]
        s.functions = [key]
        self_ = eng.fresh('self', z.S)
        eng.fact(self_ != z.nilset)
        if s.t == 'lazy.baseSet':
            o = Obj(t, 'baseSet', fresh=False)
            o.init = SV([self_])
        else:
            eng.fact(z.TYP(self_) == tag(s.t))
            o = z.materialise(st, t, self_)
        recv = Ptr(o) if '.(*' in key else eng.content(st, o)
        args = [z.mkval(st, p['t'], p['n'].split(':')[-1]) for p in fn['params'][1:]]
        for nm, f in z.pre(s.m, self_, args): eng.fact(f)
        s.key = key
        s.watch(eng, z, self_, args, o)
        def posts(st, xs): return z.post(st, s.m, self_, args, xs)
        s.go(eng, z, st, key, [recv] + args, posts, self_)
        return eng

    def function(s, eng, z, st):
        key = 'lazy.' + s.m
        fn = eng.prog.fns[key]
        s.functions = [key]; s.key = key
        args = [z.mkval(st, p['t'], p['n'].split(':')[-1]) for p in fn['params']]
        for nm, f in fnpre(z, s.m, args): eng.fact(f)
        s.watch(eng, z, None, args, None)
        s.go(eng, z, st, key, args, lambda st, xs: fnpost(z, st, s.m, args, xs[0]), None)
        return eng

    def watch(s, eng, z, self_, args, o):
        els = [z.th.cls(a) for a in args if isinstance(a, z3.ExprRef) and a.sort() == z.E]
        trees = lambda x: [TV(eng, x, v, ANY).root for v in (z.pick(s.t, eng.content(x, o), 'tree') if o is not None and s.t != 'lazy.baseSet' else [])]
        def t(cut, st, unchanged, ints, sls):
            out = []
            e0 = cut.entry
            m0 = z.m(e0)
            its = {v.get_id(): v for v in e0.env.values() if isinstance(v, z3.ExprRef) and v.sort() == z.L}
            A = lambda f, *ps: All([z.K], f, lambda k: [p(k) for p in ps])
            cellsn = list(cells(cut, st, z.th))
            def nd(x, key):
                c = treecell(cut, x, cut.get(x, key), z.th)
                if c is None: raise loops.Skip()
                return eng.to_node(x, c[0], ANY, False), c[1]
            th = z.th
            for key, isobj in cellsn:
                out += [('tree well formed', lambda x, jj, key=key: (lambda r: Or(r[0] == th.nil, th.WF(r[0], IntVal(0))))(nd(x, key))),
                        ('tree count', lambda x, jj, key=key: (lambda r: r[1] == th.CNT(r[0]))(nd(x, key)))]
                for a in args:
                    if isinstance(a, z3.ExprRef) and a.sort() == I: out.append(('tree within the limit', lambda x, jj, key=key, a=a: nd(x, key)[1] <= a))
                if isobj: out.append(('tree owned', lambda x, jj, key=key: th.OWN(nd(x, key)[0])))
            for it in its.values():
                mu = lambda m, it=it: (lambda k: z.MUST(m, it, k))
                for c in els:
                    out.append(('not found yet', lambda x, jj, it=it, c=c: mkimp(z.MUST(m0, it, c), z.MUST(z.m(x), it, c))))
                for r in trees(e0):
                    out.append(('yielded so far in the set', lambda x, jj, it=it, r=r: A(lambda k: mkimp(z.MUST(m0, it, k), Or(z.MUST(z.m(x), it, k), th.HAS(r, k))), lambda k: z.MUST(m0, it, k))))
                for key, isobj in cellsn:
                    out.append(('collected were yielded', lambda x, jj, it=it, key=key: (lambda b: A(lambda k: mkimp(th.HAS(b, k), z.MAY(it, k)), lambda k: th.HAS(b, k)))(nd(x, key)[0])))
                    out.append(('all yielded are collected', lambda x, jj, it=it, key=key: (lambda b: A(lambda k: mkimp(z.MUST(m0, it, k), Or(z.MUST(z.m(x), it, k), th.HAS(b, k))), lambda k: z.MUST(m0, it, k)))(nd(x, key)[0])))
                    for r in trees(e0):
                        out.append(('collected are in the set', lambda x, jj, key=key, r=r: (lambda b: A(lambda k: mkimp(th.HAS(b, k), th.HAS(r, k)), lambda k: th.HAS(b, k)))(nd(x, key)[0])))
                        out.append(('all yielded of the set are collected', lambda x, jj, it=it, key=key, r=r: (lambda b: A(lambda k: mkimp(And(z.MUST(m0, it, k), th.HAS(r, k)), Or(z.MUST(z.m(x), it, k), th.HAS(b, k))), lambda k: z.MUST(m0, it, k)))(nd(x, key)[0])))
            return out
        eng.loop_templates = [t]

    def lemmas(s, eng, z, st, xs):
        """instances of the subset lemma for the trees around at a return"""
        roots = {}
        for o, v in st.heap.items():
            if tree_elem_safe(eng, o.typ) is None or not isinstance(v, SV): continue
            try: r = TV(eng, st, v, ANY).root
            except Exception: continue
            if r.sort() == z.th.Node: roots[r.get_id()] = r
        for o in list(z.ofobj):
            if o.typ.get('n') in set_types(eng.prog) and (o in st.heap or not o.fresh):
                for t in z.pick(o.typ['n'], eng.content(st, o), 'tree'):
                    r = TV(eng, st, t, ANY).root
                    roots[r.get_id()] = r
        sets = [v for v in s.sets(eng, z)]
        rs = list(roots.values())
        for i, a in enumerate(rs):
            for b in rs[i + 1:] + sets: z.sub(a, b)
        for i, a in enumerate(sets):
            for b in sets[i + 1:]: z.sub(a, b)

    def sets(s, eng, z):
        seen = {}
        for c in eng.created:
            if c.sort() == z.S and c.get_id() not in seen: seen[c.get_id()] = c
        if len(seen) > 8: return []
        return list(seen.values())

    def go(s, eng, z, st, key, args, posts, self_):
        def on_return(fr, st, xs):
            if fr.depth > 0 or fr.parent is not None:
                fr.returns.append((st, xs[0] if len(xs) == 1 else tuple(xs))); return
            eng.nret += 1
            n = eng.nret
            for x in xs: z.publish(st, x, '')
            for x in xs:
                if isinstance(x, z3.ExprRef) and x.sort() == z.L: z.publish_iter(st, x, self_)
            s.lemmas(eng, z, st, xs)
            eng.unit_type = s.t
            ps = posts(st, xs)
            eng.unit_type = None
            for nm, tg, f in ps: eng.oblige('%s: %s [return %d]' % (s.title, nm, n), tg, st.guard, f, assume=False)
            fr.returns.append((st, ()))
        s.title = '%s (%s)' % (key, s.t) if s.t not in key else key
        eng.on_return = on_return
        eng.run(key, args, st, {}, (), 0, None)
        if not eng.nret: eng.oblige('%s: returns' % key, 'safe', TRUE, FALSE)

    def next(s, eng, z, st, t):
        prog = eng.prog
        pms = prog.named[s.t]['pms']
        key, vkey = pms['Next']['fn'], pms['Value']['fn']
        s.functions = [key, vkey]; s.key = key
        for d in (pms['Next'], pms['Value']):
            if d['path']: raise Unsupported('promoted method of ' + s.t)
        o = Obj(t, 'self', fresh=False, owned=True)
        fs = []
        for f in z.fields(s.t):
            ft = f['t']
            if ft['k'] == 'ptr' and ft['e'].get('n') in set_types(prog):
                v = eng.fresh(f['n'], z.S)
                eng.fact(And(v != z.nilset, z.TYP(v) == tag(ft['e']['n'])))
                fs.append(Ptr(z.materialise(st, ft['e'], v)))
            else: fs.append(z.mkval(st, ft, f['n']))
        o.init = SV(fs)
        it = z.iterconst(o)
        st0 = st.copy()
        c0, m0 = o.init, z.m(st)
        for nm, f in z.iinv(s.t, c0, it, m0): eng.fact(f)
        must0 = z.imust(s.t, c0, m0)
        ptr = '.(*' in key
        A = lambda f, *ps: All([z.K], f, lambda k: [p(k) for p in ps])
        def tpl(cut, st, unchanged, ints, sls):
            out = []
            def inv(i):
                def f(x, jj):
                    eng.cur = x
                    return z.iinv(s.t, eng.content(x, o), it, z.m(x))[i][1]
                return f
            for i, (nm, _) in enumerate(z.iinv(s.t, c0, it, m0)): out.append((nm, inv(i)))
            def kept(x, jj):
                eng.cur = x
                mu = z.imust(s.t, eng.content(x, o), z.m(x))
                return A(lambda k: mkimp(must0(k), mu(k)), *s.mpats(z, c0, m0))
            out.append(('nothing is lost', kept))
            if s.t == 'lazy.cachingIterator':
                def seen(up):
                    def f(x, jj):
                        a, b = s.seen_of(z, st0, o)[1], s.seen_of(z, x, o)[1]
                        eng.cur = x
                        if up: a, b = b, a
                        return A(lambda k: mkimp(a.has(k), b.has(k)), a.has, b.has)
                    return f
                out += [('values seen before are remembered', seen(False)), ('only values seen before are remembered', seen(True))]
            return out
        eng.loop_templates = [tpl]
        def on_return(fr, st, xs):
            if fr.depth > 0 or fr.parent is not None:
                fr.returns.append((st, xs[0] if len(xs) == 1 else tuple(xs))); return
            eng.nret += 1
            n = eng.nret
            r = xs[0]
            eng.cur = st
            ob = lambda nm, tg, g, f: eng.oblige('%s: %s [return %d]' % (key, nm, n), tg, mkand(st.guard, g), f, assume=False)
            c1, m1 = eng.content(st, o), z.m(st)
            for nm, f in z.iinv(s.t, c1, it, m1): ob('invariant: ' + nm, 'view', TRUE, f)
            ob('false only when nothing is left', 'view', mknot(r), A(lambda k: mknot(must0(k)), *s.mpats(z, c0, m0)))
            if eng.feasible(mkand(st.guard, r)):
                st2 = st.copy(); st2.guard = mkand(st.guard, r)
                recv = Ptr(o) if '.(*' in vkey else c1
                e, st3 = eng.run(vkey, [recv], st2, {}, (), 1, fr)
                if e is None: ob('Value returns', 'safe', r, FALSE)
                else:
                    e = eng.box(ANY, e)
                    k0 = z.th.cls(e)
                    mu = z.imust(s.t, c1, m1)
                    ob('the value is one of the set', 'view', r, z.MAY(it, k0))
                    if s.t == 'lazy.cachingIterator':
                        (v0, s0, d0), (v1, s1, d1) = (s.seen_of(z, x, o) for x in (st0, st))
                        ob('the value was not yielded before', 'once', r, mknot(s0.has(k0)))
                        ob('values yielded so far are remembered', 'once', r, All([z.K], lambda k: mkimp(Or(k == k0, s0.has(k)), s1.has(k)), lambda k: [s0.has(k), s1.has(k)]))
                    ob('every other value is still to come', 'view', r, A(lambda k: mkimp(must0(k), Or(k == k0, mu(k))), *s.mpats(z, c0, m0)))
            fr.returns.append((st, ()))
        eng.on_return = on_return
        recv = Ptr(o) if ptr else c0
        eng.run(key, [recv], st, {}, (), 0, None)
        if not eng.nret: eng.oblige('%s: returns' % key, 'safe', TRUE, FALSE)
        return eng

    def seen_of(s, z, st, o):
        z.eng.cur = st
        return z.caching(s.t, z.eng.content(st, o))

    def mpats(s, z, c0, m0):
        L, S = z.pick(s.t, c0, 'iter'), z.pick(s.t, c0, 'set')
        ps = []
        if s.t == 'lazy.mapperSetIterator': return [z.imust(s.t, c0, m0)]
        if s.t == 'lazy.cachingIterator':
            v, seen, done = z.caching(s.t, c0)
            return [lambda k: z.H(v, k)]
        for i in L: ps.append(lambda k, i=i: z.MUST(m0, i, k))
        if s.t == 'lazy.unionSetIterator':
            for b in S: ps.append(lambda k, b=b: z.H(b, k))
        return ps or [lambda k: z.MAY(Const('none', z.L), k)]

    def run(s, prog, timeout, deadline):
        if s.m == 'refinement': yield from s.refinement(prog, timeout, deadline); return
        eng = s.build(prog)
        s.assumed = set(eng.callees)
        s.inlined = set(eng.inlined)
        yield from units.discharge_all(eng, timeout, deadline)
        v = units.vacuity(eng, deadline)
        if v: yield v

    def refinement(s, prog, timeout, deadline):
        """the contract of frozen.Iterator implies that of SetIterator"""
        eng, z = s.env(prog, False)
        st = FS(TRUE, {}, {}, {}, None)
        st.heap[z.G] = z.G.init
        eng.cur = st
        th = z.th
        n = eng.fresh('n', th.Node)
        eng.fact(Or(n == th.nil, th.WF(n, IntVal(0))))
        p = eng.fresh('p', I)
        eng.fact(p >= -1)
        x = eng.iterv(st, ANY, n, p)
        must = lambda q: (lambda k: And(th.HAS(n, k), th.epos(n, k) > q))
        r = eng.iter_call(st, x, 'Next', '')
        q = eng.content(st, x.o).f[0]
        ob = lambda nm, g, f: eng.oblige('frozen.Iterator as lazy.SetIterator: ' + nm, 'view', g, f, assume=False)
        ob('false only when nothing is left', mknot(r), All([z.K], lambda k: mknot(must(p)(k)), lambda k: [th.HAS(n, k)]))
        e = eng.iter_call(st, x, 'Value', '') if False else th.elem(n, q)
        ob('the value is one of the set', r, th.HAS(n, th.cls(e)))
        ob('every other value is still to come', r, All([z.K], lambda k: mkimp(must(p)(k), Or(k == th.cls(e), must(q)(k))), lambda k: [th.HAS(n, k)]))
        yield from units.discharge_all(eng, timeout, deadline)


def tree_elem_safe(eng, t):
    try: return tree_elem(eng, t)
    except Exception: return None
