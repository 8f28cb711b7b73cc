"""Conversions to and from Go maps (C27) and the values handed to encoding/json (C19)."""
from specs2 import *
import gomaps


class GV:
    """ghost view of a Go map in state st"""
    def __init__(s, eng, st, p):
        s.et = p.o.typ['et']
        s.eng, s.th = eng, eng.theory(s.et)
        s.root, s.count = eng.content(st, p.o).f
    def has(s, k): return s.th.HAS(s.root, k)
    def val(s, k): return s.th.VAL(s.root, k)
    def mval(s, k): return s.th.entry_val(s.th.VAL(s.root, k))


def togo_t(x):
    m = x.view(0)
    x.seqs = [elemseq(x, m.th, elems(x, 0), f=lambda e: entry(m.th, m.th.entry_key(e), m.th.entry_val(e)))]
    return [iter_template, build_templates(x, x.seqs)]


@spec('MapToGoMap', templates=togo_t)
def _(x):
    m = x.view(0)
    r = GV(x.eng, x.st, x.ret[0])
    yield 'exactly the keys', 'view', same_members(x, r, lambda k: m.has(k), extra=[m])
    yield 'values', 'view', vals(r, lambda k: r.mval(k) == m.mval(k))


def fromgo_setup(x):
    x.g = GV(x.eng, x.st0, x.args[0])


def fromgo_t(x):
    g = x.g
    th = x.eng.theory(tree_elem(x.eng, x.rtypes[0]))
    g.th.use_seq()
    x.seqs = [elemseq(x, th, lambda j: g.th.elem(g.root, j), f=lambda e: entry(th, g.th.entry_key(e), g.th.entry_val(e)))]
    return [iter_template, build_templates(x, x.seqs)]


@spec('NewMapFromGoMap', setup=fromgo_setup, templates=fromgo_t)
def _(x):
    r, g = x.res(), x.g
    yield 'exactly the keys', 'view', same_members(x, r, lambda k: g.has(k), extra=[g])
    yield 'values', 'view', vals(r, lambda k: r.mval(k) == g.mval(k))


# ---------------------------------------------------------------- C19
class CJSON(Contract):
    """encoding/json.Marshal(v): assumed to encode v faithfully (its definition); what is verified is
    the value it is given, and that its result is what is returned"""
    name = 'json.Marshal'; key = 'encoding/json.Marshal'
    def call(s, eng, st, args, targs, pos, fr):
        h = eng.opts.get('marshal')
        if h is None: raise Unsupported('json.Marshal')
        return h(eng, st, args[0], pos)


API_CONTRACTS.append(CJSON)


def any_of(eng, t, z):
    """z : t converted to an interface value"""
    if eng.prog.under(t)['k'] == 'iface': return z
    return Function('any_of_' + tstr(t), z.sort(), eng.sort('Any'))(z)


def marshalled(x, check):
    x.calls = []
    def h(eng, st, v, pos):
        b = Obj({'k': 'backing', 'e': {'k': 'basic', 'n': 'byte'}}, 'json', fresh=False)
        b.init = eng.fresh('json', z3.ArraySort(I, I))
        r = (SL(b, IntVal(0), eng.fresh('jsonlen', I), eng.fresh('jsoncap', I), eng.fresh('jsonnil', B)), eng.fresh('jsonerr', eng.sort('Any')))
        for nm, f in check(x, eng, st, v): eng.oblige('%s: what is encoded: %s' % (x.spec.key, nm), 'view', st.guard, f, pos)
        x.calls.append((st.guard, r))
        return r
    x.eng.opts['marshal'] = h


def result_returned(x):
    """the returned pair is that of the encoding just made"""
    a, b = x.ret
    ok = mkor(*[mkand(g, BoolVal(isinstance(a, SL) and a.back is r[0].back), And(a.off == r[0].off, a.len == r[0].len, b == r[1]) if isinstance(a, SL) and isinstance(b, z3.ExprRef) else FALSE) for g, r in x.calls])
    yield 'the encoding is returned as it is', 'view', ok


def slice_of(x, m, y):
    """the value is a slice with exactly the elements y(e), one for each element e of m"""
    th = m.th
    def check(x, eng, st, v):
        ok = isinstance(v, IV) and v.t['k'] == 'slice' and isinstance(v.v, SL)
        yield 'a slice', BoolVal(ok)
        if not ok: return
        et = v.t['e']
        a, l = eng.slice_arr(st, v.v, et)
        yield 'not nil', mknot(v.v.nil)
        yield 'one entry for each element', l == m.CNT
        e = lambda j: th.elem(m.root, j)
        yield 'every entry is an element, each once', All([I], lambda j: mkimp(And(0 <= j, j < l), And(Select(a, j) == y(e(j)), m.has(th.cls(e(j))), th.epos(m.root, th.cls(e(j))) == j)), lambda j: [Select(a, j)])
        yield 'every element is there', All([th.K], lambda k: mkimp(m.has(k), And(0 <= th.epos(m.root, k), th.epos(m.root, k) < l, Select(a, th.epos(m.root, k)) == y(m.val(k)))), lambda k: [m.has(k)])
    return check


def setjson(x):
    m = x.view(0)
    m.th.use_seq()
    marshalled(x, slice_of(x, m, lambda e: e))


@spec('Set.MarshalJSON', setup=setjson, templates=lambda x: [iter_template, copy_template(x.view(0).et, elems(x, 0))])
def _(x): yield from result_returned(x)


ANYT = {'k': 'iface', 'm': [], 'sigs': {}}
ANYS = {'k': 'slice', 'e': ANYT}


def pairof(x, m):
    kt, vt = m.et['a']
    eng = x.eng
    return lambda e: any_of(eng, ANYS, eng.litbox(ANYS, [any_of(eng, kt, m.th.entry_key(e)), any_of(eng, vt, m.th.entry_val(e))]))


def mapjsonarr(x):
    m = x.view(0)
    m.th.use_seq()
    x.pair = pairof(x, m)
    marshalled(x, slice_of(x, m, x.pair))


def mapjsonarr_t(x):
    m = x.view(0)
    e = elems(x, 0)
    return [iter_template, copy_template(ANYT, lambda j: x.pair(e(j)))]


@spec('Map.marshalJSONArray', setup=mapjsonarr, templates=mapjsonarr_t)
def _(x): yield from result_returned(x)


STR = {'k': 'basic', 'n': 'string'}


def mapjsonobj(x):
    m = x.view(0)
    eng = x.eng
    m.th.use_seq()
    vt = m.et['a'][1]
    def check(x, eng, st, v):
        ok = isinstance(v, IV) and v.t['k'] == 'map' and isinstance(v.v, Ptr)
        yield 'a Go map', BoolVal(ok)
        if not ok: return
        g = GV(eng, st, v.v)
        yield 'exactly the keys', same_members(x, g, lambda k: m.has(k), extra=[m])
        yield 'their values', vals(g, lambda k: g.mval(k) == any_of(eng, vt, m.mval(k)))
    marshalled(x, check)


def mapjsonobj_t(x):
    m = x.view(0)
    vt = m.et['a'][1]
    et = gomaps.entry(STR, ANYT)
    th = x.eng.theory(et)
    x.seqs = [elemseq(x, th, elems(x, 0), f=lambda e: entry(th, m.th.entry_key(e), any_of(x.eng, vt, m.th.entry_val(e))))]
    return [iter_template, build_templates(x, x.seqs)]


spec('Map.MarshalJSON[string]', key='frozen.(Map).MarshalJSON', setup=mapjsonobj, templates=mapjsonobj_t, targs=lambda e: {'K': STR})(result_returned)
spec('Map.MarshalJSON', setup=mapjsonarr, templates=mapjsonarr_t)(result_returned)
