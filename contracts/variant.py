"""Contracts of ptl::variant<E, F, int>: E opaque with throwing copies, F opaque with non-throwing copies, and a scalar."""
import re
from vcg.dsl import *
from .slots import *
H = 'variant'
VARIANTS = [{}, {'ES': 24, 'FS': 1}, {'PLAINV': 1}]
VARIANTS_THOROUGH = [{}, {'ES': 1, 'FS': 24}, {'ES': 24, 'FS': 1}, {'PLAINV': 1}]
S = 16; FSZ = 8; T = None; U = None
PLAINV = False
def setup(E, ES=16, FS=8, PLAINV=0):
    global T, U, S, FSZ
    globals()['PLAINV'] = bool(PLAINV)
    if PLAINV:
        S, FSZ = 2, 8; T = Elem('E', 2, 1); U = Elem('F', 8, 2); E.plains = {'E': T, 'F': U}; E.matchers = [visitors] + E.matchers; return
    S, FSZ = ES, FS; T = Elem('E', ES, 1); U = Elem('F', FS, 2); E.elems = {'E': T, 'F': U}
    E.matchers = [visitors] + E.matchers
def SZ(): return max(S, FSZ, 4)
IX = [0, 1, 2]; N3 = ['E', 'F', 'int']
def kind(i): return [Plain(T), Plain(U), INT][i] if PLAINV else [Opaque(T), Opaque(U, False), INT][i]
def visitors(E, f):
    """calls of user supplied visitors are recorded; they may throw"""
    if f.src is not None: return None
    q, ta, ps = lib.split_name(f.dem)
    m = re.fullmatch(r'(Vis|VE|VF|VI|VV|VR|WE|WO)::(operator\(\)|\1)', q)
    if not m: return None
    if m.group(2) != 'operator()':
        def h(E, st, a, n): st.log.append(('visitor copied',))
    else:
        def h(E, st, a, n):
            if st.choose(2) == 1: st.log.append(('call', m.group(1), ps[0], a, None)); raise Throw(USER, Ptr(0, 0))
            r = {'VV': lambda: None, **dict.fromkeys(('VR', 'WE', 'WO'), lambda: Ptr(st.ghost['target'], 0))}.get(m.group(1), lambda: E.fresh('visited'))()
            st.log.append(('call', m.group(1), ps[0], a, r)); return r
    h.label = 'user supplied visitor ' + f.dem
    return h
class Var:
    """pre-state of a variant that holds alternative i"""
    def __init__(s, c, nm, i):
        s.i = i; s.k = kind(i); b = c.st.new_block(SZ() + 1, 'stack', nm)
        c.st.mem[b].life = 'dead'; c.st.mem[b].cells = {SZ(): (1, i)}
        s.p = Ptr(b, 0); s.v = s.k.put(c, s.p, nm)
def vraw(c, nm): return raw(c, SZ() + 1, nm)
def is_var(o, p, i, v, what, cat='C17'):
    """the object at p is a variant holding exactly alternative i with value v (None: any)"""
    k = kind(i)
    if isinstance(i, int): o.req(cat + ',C27', eq(o.byte(p, SZ()), i, 8), what + ': active alternative')
    o.req(cat, k.live(o, p), what + ': the active alternative is alive')
    j = o.skolem('off'); blk = o.st.blk(p.b)
    o.req(cat, b_imp(b_and(ult(j, SZ()), b_not(ult(j, k.size if k.opaque else 0))), o.E.life_is(o.E.life_at(o.st, blk, j), 0)), what + ': no other alternative is alive')
    if v is not None: o.req(cat, k.eq(k.get(o, p), v), what + ': value')
def same(o, x, what, cat='C17'): is_var(o, x.p, x.i, x.v, what + ' (operand unchanged)', cat)
def same_val(o, k, p, v, what, cat='C17'): o.req(cat, b_and(k.live(o, p), k.eq(k.get(o, p), v)), what + ': argument unchanged')
def self_ret(o, p, cat='C17'): o.req(cat, o.ptr_eq(o.v, p), 'result designates the right object')
nop = lambda o: None
B = ('C16', 'C17', 'C27')
def con(name, core=('C17',), cases=None, nm=None, **kw): return contract(H, 'v_' + name, core, name=nm and 'v_' + nm, cases=cases, **kw)

# ---------------------------------------------------------------- construction
def made(name, mk, cases=None, core=B, **opts):
    """mk -> (arguments, alternative, value, may throw, check on the arguments)"""
    @con(name, core, cases=cases, **opts)
    def _(c, **kw):
        p = vraw(c, 'o'); args, i, v, thr, keep = mk(c, **kw)
        def post(o):
            if o.kind == 'exc':
                o.req('C16,C17', thr and o.ti == USER, 'only the alternative may throw')
                o.req('C16,C17', nothing_live(o, p, SZ()), 'nothing is left alive after failed construction')
            else: o.returned('C16,C17'); is_var(o, p, i, v, name, 'C16,C17')
            keep(o)
        return [p] + args, post
made('ctor', lambda c: ([], 0, kind(0).default(), True, nop))
def mk_copy(c, i): x = Var(c, 'x', i); return [x.p], i, x.v, x.k.throws, lambda o: same(o, x, 'source')
def mk_move(c, i): x = Var(c, 'x', i); return [x.p], i, x.v, False, lambda o: is_var(o, x.p, i, None, 'moved-from variant')
made('copy', mk_copy, {'i': IX}); made('move', mk_move, {'i': IX})
def a_copy(c, i):
    k = kind(i); x, v = new(c, k, 'x'); return [x], i, v, k.throws, lambda o: same_val(o, k, x, v, 'value')
def a_move(c, i):
    k = kind(i); x, v = new(c, k, 'x'); return [x], i, v, False, lambda o: o.req('C16,C17', k.live(o, x), 'argument still alive')
def a_def(c, i): k = kind(i); return [], i, k.default(), k.throws, nop
no_plain = lambda v: 'PLAINV' not in v
def a_args(c, i):
    a = c.u64('arg', False); x, v = new(c, kind(0), 'x'); return [a, x], 0, T.ctor(lib.comb(a, bv64(v))), True, lambda o: same_val(o, kind(0), x, v, 'argument')
for i_ in IX:
    t_ = N3[i_]
    for n_, mk_ in (('from_', a_copy), ('from_m_', a_move), ('from_l_', a_copy), ('inpt_', a_copy), ('inpt0_', a_def), ('inpi_', a_copy), ('inpi0_', a_def)):
        made(n_ + t_, lambda c, mk=mk_, i=i_: mk(c, i))
for n_ in ('inpi_args', 'inpt_args'): made(n_, lambda c: a_args(c, 0), variant=no_plain)

# ---------------------------------------------------------------- assignment and emplace
def changed(name, mk, cases=None, nm=None, core=B, ret=None, when=None, **opts):
    """on success the variant holds (alternative, value); on failure it is unchanged"""
    @con(name, core, cases=dict({'a': IX}, **(cases or {})), nm=nm, **opts, **({'when': when} if when else {}))
    def _(c, a, **kw):
        x = Var(c, 'a', a); args, i, v, thr, keep = mk(c, x, **kw)
        def post(o):
            if o.kind == 'exc':
                o.req('C16,C17', thr and o.ti == USER, 'only the alternative may throw')
                same(o, x, 'failed ' + name, 'C16,C17')
            else:
                o.returned('C16,C17'); is_var(o, x.p, i, v, name, 'C16,C17'); self_ret(o, x.p, 'C16,C17')
            keep(o)
        return [x.p] + args, post
def m_copy(c, x, e): y = Var(c, 'x', e); return [y.p], e, y.v, y.k.throws, lambda o: same(o, y, 'source')
def m_move(c, x, e): y = Var(c, 'x', e); return [y.p], e, y.v, False, lambda o: is_var(o, y.p, e, None, 'moved-from variant')
changed('asg_c', m_copy, {'e': IX}); changed('asg_m', m_move, {'e': IX})
changed('asg_c', lambda c, x: ([x.p], x.i, x.v, x.k.throws, nop), nm='asg_c(self)')
changed('asg_m', lambda c, x: ([x.p], x.i, x.v, False, nop), nm='asg_m(self)')
for i_ in IX:
    t_ = N3[i_]
    def each(i, t):
        own = lambda a: a == i
        changed('asg_' + t, lambda c, x: a_copy(c, i)); changed('asg_l_' + t, lambda c, x: a_copy(c, i)); changed('asg_m_' + t, lambda c, x: a_move(c, i))
        for n in ('asg_', 'asg_l_'): changed(n + t, lambda c, x: ([x.p], i, x.v, x.k.throws, nop), nm=n + t + '(own value)', when=own)
        changed('asg_m_' + t, lambda c, x: ([x.p], i, None, False, nop), nm='asg_m_' + t + '(own value)', when=own)
        for n, mk in (('emplace_', a_copy), ('emplace_m_', a_move), ('emplace0_', a_def), ('emplacei_', a_copy), ('emplacei0_', a_def)):
            changed(n + t, lambda c, x, mk=mk: mk(c, i))
        if i == 0:
            for n in ('emplace_', 'emplacei_'): changed(n + t, lambda c, x: ([x.p], i, x.v, True, nop), nm=n + t + '(own value)', when=own)
    each(i_, t_)
for n_ in ('emplace_args', 'emplacei_args'): changed(n_, lambda c, x: a_args(c, 0), variant=no_plain)
def m_long(c, x): a = c.u64('arg', False); return [a], 1, U.ctor(a), True, nop
changed('emplace_long', m_long, variant=no_plain)
@con('dtor', cases={'i': IX})
def _(c, i):
    x = Var(c, 'o', i)
    def post(o): o.returned('C17'); o.req('C17', nothing_live(o, x.p, SZ()), 'destruction leaves an alternative alive')
    return [x.p], post

# ---------------------------------------------------------------- access
for i_ in IX:
    def acc(i, t):
        @con('holds_' + t, ('C16',), cases={'a': IX})
        def _(c, a):
            x = Var(c, 'a', a)
            def post(o): o.returned('C16'); ret_bool(o, 'C16', a == i, 'holds'); same(o, x, 'holds', 'C16')
            return [x.p], post
        for n in ('get_if_c_', 'get_if_'):
            @con(n + t, ('C16',), cases={'a': IX})
            def _(c, a):
                x = Var(c, 'a', a)
                def post(o):
                    o.returned('C16'); same(o, x, 'get_if', 'C16')
                    o.req('C16', o.ptr_eq(o.v, x.p if a == i else NULL), 'get_if points at the active alternative or is null')
                return [x.p], post
        for n in ('get_c_', 'get_', 'get_cr_', 'get_r_'):
            @con(n + t, ('C16', 'C25'), cases={'a': IX})
            def _(c, a):
                x = Var(c, 'a', a)
                def post(o):
                    same(o, x, 'get', 'C16,C25')
                    if o.kind == 'exc': o.req('C16,C25', a != i and o.ti == BADVAR, 'throws std::bad_variant_access exactly when another alternative is active'); return
                    o.returned('C16,C25'); o.req('C16,C25', a == i, 'get of an inactive alternative must throw'); self_ret(o, x.p, 'C16,C25')
                return [x.p], post
    acc(i_, N3[i_])

# ---------------------------------------------------------------- visit
def visit(name, qual, nvis, who=None, res='value'):
    @con(name, ('C16',), cases={'a': IX})
    def _(c, a):
        x = Var(c, 'a', a); vs = [raw(c, 1, 'vis%d' % j) for j in range(nvis)]
        if res == 'ref':
            t = c.st.new_block(S, 'stack', 'target'); c.st.ghost['target'] = t
        def post(o):
            calls = [l for l in o.st.log if l[0] == 'call']
            o.req('C16', len(calls) == 1, 'the visitor is called exactly once')
            cl, w, p, av, r = calls[0]
            want = who[a] if who else {'VV': 'VV', 'VR': 'VR'}.get(res, None)
            want = want or {'ref': 'VR', 'void': 'VV', 'value': 'Vis'}[res]
            ty = qual(N3[a])
            if res == 'ref' and a == 1: ty = 'F&'
            o.req('C16', w == want and p == ty, 'the call selects the overload for the active alternative and value category')
            o.req('C16', o.ptr_eq(av[1], x.p), 'the visitor receives the active alternative')
            if nvis == 1: o.req('C16', o.ptr_eq(av[0], vs[0]), 'the given visitor object is the one called')
            same(o, x, 'visit', 'C16')
            if o.kind == 'exc': o.req('C16', r is None and o.ti == USER, 'only the visitor may throw'); return
            o.returned('C16')
            if res == 'value': o.req('C16', eq(o.v, r), 'the result of the visitor is returned')
            if res == 'ref': o.req('C16', o.ptr_eq(o.v, r), 'the reference returned by the visitor is returned')
        return [x.p] + vs, post
L, CL, R, CR = (lambda t: t + '&'), (lambda t: t + ' const&'), (lambda t: t + '&&'), (lambda t: t + ' const&&')
visit('visit', L, 1); visit('visit_c', CL, 1); visit('visit_r', R, 1); visit('visit_cr', CR, 1); visit('visit_rv', L, 1)
W3 = ['VE', 'VF', 'VI']
visit('visit3', L, 3, W3); visit('visit3_c', CL, 3, W3); visit('visit3_r', R, 3, W3)
visit('visit_void', L, 1, res='void'); visit('visit_ref', L, 1, res='ref'); visit('visit2_ref', L, 2, ['WE', 'WO', 'WO'], res='ref')

# ---------------------------------------------------------------- swap and comparison
for n_ in ('swap', 'fswap'):
    @con(n_, cases={'a': IX, 'b': IX})
    def _(c, a, b):
        x = Var(c, 'a', a); y = Var(c, 'b', b)
        def post(o): o.returned('C17'); is_var(o, x.p, b, y.v, 'swap (left)'); is_var(o, y.p, a, x.v, 'swap (right)')
        return [x.p, y.p], post
    @con(n_, nm=n_ + '(self)', cases={'a': IX})
    def _(c, a):
        x = Var(c, 'a', a)
        def post(o): o.returned('C17'); same(o, x, 'self swap')
        return [x.p, x.p], post
def spec(op, x, y):
    if x.i == y.i: return x.k.rel(op, x.v, y.v)
    return {'==': x.i == y.i, '!=': x.i != y.i, '<': x.i < y.i, '<=': x.i <= y.i, '>': x.i > y.i, '>=': x.i >= y.i}[op]
for n_, op_ in OPS.items():
    def cmp(n, op):
        @con(n, ('C18',), cases={'a': IX, 'b': IX})
        def _(c, a, b):
            x = Var(c, 'a', a); y = Var(c, 'b', b)
            def post(o): o.returned('C18'); ret_bool(o, 'C18', spec(op, x, y), 'result of ' + op); same(o, x, 'comparison', 'C18'); same(o, y, 'comparison', 'C18')
            return [x.p, y.p], post
        @con(n, ('C18',), nm=n + '(self)', cases={'a': IX})
        def _(c, a):
            x = Var(c, 'a', a)
            def post(o): o.returned('C18'); ret_bool(o, 'C18', spec(op, x, x), 'result of ' + op); same(o, x, 'comparison', 'C18')
            return [x.p, x.p], post
    cmp(n_, op_)
for w_, f_ in (('sizeof', lambda: SZ() + 1), ('alignof', lambda: 1)):
    def lay(w, f):
        @con(w, ('C27',))
        def _(c): return [], lambda o: (o.returned('C27'), o.req('C27', eq(o.v, f()), 'variant is the largest alternative followed by one byte, unpadded'))
    lay(w_, f_)
