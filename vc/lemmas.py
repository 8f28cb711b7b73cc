"""Lemmas over the contracts: obligations that no single function carries."""
from specs11 import *


class LemmaUnit:
    functions = []
    def __init__(s): s.assumed = set(); s.inlined = set()
    def run(s, prog, timeout, deadline):
        import units
        eng = s.build(prog)
        s.assumed = set(eng.callees)
        yield from units.discharge_all(eng, timeout, deadline)
        v = units.vacuity(eng, deadline)
        if v: yield v


class NestUnnest(LemmaUnit):
    """Unnest(Nest(s, {a: attrs}), a) equals s: the contracts of the two, one after the other, on any
    relation with a uniform heading"""
    name = 'lemma:nest-unnest'
    def build(s, prog):
        import specs
        eng = Engine(prog, {}, {'typeassert': typeassert_rel})
        eng.fname = s.name
        eng.ghostd = IntVal(0)
        fn = prog.fns['rel.Nest']
        st = FS(TRUE, {}, {}, {}, None)
        rt, mt = [p['t'] for p in fn['params']]
        facts = []
        rel, m = mkarg(eng, st, rt, 's', facts), mkarg(eng, st, mt, 'attrAttrs', facts)
        a = eng.symval(STR, 'a')
        for f in facts: eng.fact(f)
        tup = get_tup(eng, rt)
        K, A, TK = tup.K, tup.A, tup.TK
        S, M = TV(eng, st, rel, tup.tt), TV(eng, st, m, tree_elem(eng, mt))
        a0 = M.th.somek(M.root)
        attrs = relroot(eng, SETOF(STR), M.mval(a0))[0]
        thS = eng.theory(STR)
        # the precondition of the property
        H = Function('HEADING', A, B)
        eng.fact(M.has(a0)); eng.fact(All([M.th.K], lambda k: mkimp(M.has(k), k == a0), lambda k: [M.has(k)]))
        eng.fact(thS.cls(a) == a0)
        eng.fact(All([K, A], lambda c, k: mkimp(S.has(c), TK(c, k) == H(k)), lambda c, k: [(S.has(c), TK(c, k))]))
        eng.fact(mkimp(H(a0), thS.HAS(attrs, a0)))
        eng.callees = set(eng.callees)
        def lemma(nm, f): return eng.lemma(nm, 'view', TRUE, f)
        n = SpecContract(SPECS['rel.Nest'])
        keep = {}
        n.posted = lambda e, s2, x, pos: keep.__setitem__('n', x)
        nested = n.call(eng, st, [rel, m], [], '', None)
        x = keep['n']
        UPD, AG, same = get_upd(eng, tup, False), get_agree(eng, tup), tup.same
        P = lambda c: x.PRG(attrs, c)
        N = TV(eng, st, nested, tup.tt)
        ra = x.ra
        REM, NT = x.REM, x.NT
        nest = lambda u: tup.TV(u, a0)
        # what Unnest requires, from what Nest guarantees
        lemma('the nested attribute is not an attribute of the remainder', All([K], lambda c: mkimp(S.has(c), Not(TK(REM(c), a0))), lambda c: [S.has(c)]))
        lemma('its value is the nested relation', All([K], lambda c: mkimp(S.has(c), And(TK(NT(REM(c)), a0), nest(NT(REM(c))) == x.GV(REM(c)))), lambda c: [S.has(c)]))
        u = SpecContract(SPECS['rel.Unnest'])
        u.posted = lambda e, s2, y, pos: keep.__setitem__('u', y)
        # the function symbols of Unnest's specification are introduced by its setup
        back = u.call(eng, st, [nested, a], [], '', None)
        y = keep['u']
        Q = TV(eng, st, back, tup.tt)
        R = y.R
        eng.axiom(All([K], lambda c: same(R(NT(REM(c))), REM(c)), lambda c: [R(NT(REM(c)))]))
        eng.axiom(All([K], lambda c: same(UPD(REM(c), P(c)), c), lambda c: [UPD(REM(c), P(c))]))
        lemma('what is left of a nested tuple is the remainder', All([K], lambda c: mkimp(S.has(c), R(NT(REM(c))) == REM(c)), lambda c: [S.has(c), NT(REM(c))]))
        lemma('a tuple is its remainder and its restriction', All([K], lambda c: mkimp(S.has(c), And(AG(REM(c), P(c)), UPD(REM(c), P(c)) == c)), lambda c: [S.has(c)]))
        lemma('its restriction is in the nested relation', All([K], lambda c: mkimp(S.has(c), And(x.IMG(REM(c), P(c)), ra.HR(nest(NT(REM(c))), P(c)))), lambda c: [S.has(c)]))
        lemma('combined with what is left of the nested tuple, it is the tuple', All([K], lambda c: mkimp(S.has(c), UPD(R(NT(REM(c))), P(c)) == c), lambda c: [S.has(c)]))
        lemma('every tuple is recovered', All([K], lambda c: mkimp(S.has(c), And(S.has(c), y.UN(NT(REM(c)), c))), lambda c: [S.has(c)]))
        eng.oblige('Unnest(Nest(s)): every tuple of s [return 1]', 'view', TRUE, All([K], lambda c: mkimp(S.has(c), Q.has(c)), lambda c: [S.has(c)]))
        eng.oblige('Unnest(Nest(s)): only tuples of s [return 1]', 'view', TRUE, All([K], lambda c: mkimp(Q.has(c), S.has(c)), lambda c: [Q.has(c)]))
        return eng


class LeanUnit(LemmaUnit):
    """the axioms that the generator gives to z3 as facts about trees and words, as theorems checked by
    Lean: one obligation per theorem marked [axiom in lean/FILE, discharged when the file checks without
    an error and the theorem depends on no axiom but those of Lean's logic"""
    LOGIC = {'propext', 'Classical.choice', 'Quot.sound'}
    def run(s, prog, timeout, deadline):
        import os, re, subprocess, tempfile, time, shutil
        path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lean', s.file)
        src = open(path).read()
        ns = re.search(r'^namespace (\w+)', src, re.M).group(1)
        names = re.findall(r'\[axiom(?:(?!-/).)*-/\s*theorem (\w+)', src, re.S)
        body = re.sub(r'^#print axioms.*$', '', src, flags=re.M) + '\n' + ''.join('#print axioms %s.%s\n' % (ns, n) for n in names)
        lean = shutil.which('lean')
        if not lean: s.assumed.add('the lemmas in lean/%s (Lean is not installed here, they were not checked again)' % s.file); return
        t0 = time.time(); d = tempfile.mkdtemp()
        try:
            f = os.path.join(d, s.file); open(f, 'w').write(body)
            try: r = subprocess.run([lean, f], capture_output=True, text=True, timeout=max(20, min(240, deadline - time.time() - 5)))
            except subprocess.TimeoutExpired: s.assumed.add('the lemmas in lean/%s (Lean did not finish in time, they were not checked again)' % s.file); return
        finally: shutil.rmtree(d, ignore_errors=True)
        out = r.stdout + r.stderr
        if r.returncode < 0 or r.returncode > 1: s.assumed.add('the lemmas in lean/%s (Lean ended with %d, they were not checked again)' % (s.file, r.returncode)); return
        t = (time.time() - t0) / max(1, len(names))
        for n in names:
            m = re.search(r"'%s\.%s' (does not depend on any axioms|depends on axioms: \[([^\]]*)\])" % (ns, n), out)
            used = set(x.strip() for x in (m.group(2) or '').split(',') if x.strip()) if m else set()
            ok = bool(m) and r.returncode == 0 and used <= s.LOGIC
            yield {'name': 'lean/%s: %s' % (s.file, n), 'tag': 'lemma', 'time': t, 'ok': ok, 'backend': 'lean', 'pos': '',
                   'status': 'checked' if ok else 'not checked: ' + out[-600:]}


class Theory(LeanUnit): name = 'lemma:tree-theory'; file = 'Theory.lean'
class Words(LeanUnit): name = 'lemma:words'; file = 'Words.lean'


def register(reg):
    for c in (NestUnnest, Theory, Words): reg[c.name] = c
