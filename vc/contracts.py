"""Contract framework: specifications attached to functions of /repo, used both to
verify the function's body (check) and at its call sites (assume)."""
import z3
from z3 import And, Or, Not, If, IntVal, Int, Const, Function, IntSort, BoolSort, BoolVal, Select
from engine import *
from theory import maskbit, bit


class Ex:
    """exists; goal form: negation is a patterned universal"""
    def __init__(s, sorts, body, pats=None): s.sorts, s.body, s.pats = sorts, body, pats
    def goal(s, eng):
        vs = [Const('x%d_%d' % (eng.fresh_n(), i), so) for i, so in enumerate(s.sorts)]
        ps = s.pats(*vs) if s.pats else []
        return Not(mkforall(eng, vs, Not(s.body(*vs)), ps))
    def assume(s, eng):
        vs = [Const('wit%d_%d' % (eng.fresh_n(), i), so) for i, so in enumerate(s.sorts)]
        return s.body(*vs)


def guarded(g, f):
    if isinstance(f, All): return All(f.sorts, lambda *v: mkimp(g, f.body(*v)), f.pats)
    if isinstance(f, Ex): return GEx(g, f)
    return mkimp(g, f)


class GEx:
    def __init__(s, g, ex): s.g, s.ex = g, ex
    def goal(s, eng): return mkimp(s.g, s.ex.goal(eng))
    def assume(s, eng): return mkimp(s.g, s.ex.assume(eng))


class Ctx:
    def __init__(s, **kw): s.__dict__.update(kw)


class Contract:
    """key: function key in the SSA program"""
    tagmap = {}
    recursive = False
    def inline_ok(s, eng, fr, st, args): return False

    def call(s, eng, st, args, targs, pos, fr):
        c = s.bind(eng, st, args, targs, 'call')
        for name, f in s.pre(c):
            eng.oblige('precondition of %s: %s' % (s.label, name), 'safe' if name in s.safe_pre else 'pre', st.guard, f, pos)
        res = s.results(c)
        for name, tag, f in s.post(c, res):
            eng.fact(f, st.guard)
        return s.ret(c, res)

    safe_pre = ()
    @property
    def label(s): return s.name
    def pre(s, c): return []
    def post(s, c, res): return []
    def ret(s, c, res): return res
