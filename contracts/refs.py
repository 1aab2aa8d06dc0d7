"""Contracts of optional_ref, variant_ref and function_ref."""
import re
from vcg.dsl import *
from .slots import *
H = 'refs'
VARIANTS = [{}, {'ES': 24, 'FZ': 8}]
VARIANTS_THOROUGH = [{}, {'ES': 1, 'FZ': 24}, {'ES': 24, 'FZ': 8}, {'FZ': 4}, {'FZ': 16}]
S = 16; FS = 1; T = U = MT = None
def setup(E, ES=16, FZ=1):
    global T, U, MT, S, FS
    S = ES; FS = FZ; T = Elem('E', ES, 1); U = Elem('F', 8, 2); MT = Elem('M', 8, 3); E.elems = {'E': T, 'F': U, 'M': MT}
    E.matchers = [callables] + E.matchers
    E.foreign_fns = {n: (lambda E, st, a, name: target(E, st, name, '', a, not name.startswith('$nx'), {4: ['', '', '', 'M'], 3: ['', '', 'M']}.get(len(a), ['', '']))) for n in ('$f', '$g', '$nxf', '$nxg', '$tramp', '$nxtramp')}
    for n in list(E.foreign_fns): E.foreign_fns[n].label = 'user supplied function'
def target(E, st, who, qual, a, throws, ps):
    """a call that reaches user code: recorded with everything it can observe"""
    rec = []
    if who in ('$tramp', '$nxtramp'): a = [E.load(st, a[0], ir.PTR)] + a[1:]
    for x in a:
        if ps[len(rec)] == 'M':
            b = E.elem_live(st, x, MT, 1, 'argument passed to user code'); rec.append(('M', E.val_at(st, st.blk(b), x.o) if b else None))
        else: rec.append(x)
    if throws and st.choose(2) == 1: st.log.append(('call', who, qual, rec, 'throw')); raise Throw(USER, Ptr(0, 0))
    r = None
    if st.ghost.get('res') == 'ref': r = Ptr(st.ghost['target'], 0)
    elif st.ghost.get('res') == 'i32': r = E.fresh('result', 32)
    elif st.ghost.get('res') == 'i64': r = E.fresh('result')
    st.log.append(('call', who, qual, rec, r)); return r
def native_args(con, fn):
    """argument types of the user functions of the pre-state (for the native replay)"""
    a = [ir.INT(64), ir.PTR, ir.PTR] if re.search(r'_A\d', con) else [ir.PTR] if re.search(r'_B\d', con) else [] if re.search(r'_D\d', con) else None
    return a if a is None else ([ir.PTR] if 'tramp' in fn else []) + a
def callables(E, f):
    if f.src is not None: return None
    q, ta, ps = lib.split_name(f.dem)
    m = re.fullmatch(r'(Vis|VE|VF|VI|VV|WA|WE|WO|Fun|Fcc|Fbo|Fne|Fin)::(operator\(\)|operator&|\1)', q)
    if not m: return None
    if m.group(2) == 'operator&':
        def h(E, st, a, n): return Wild()
    elif m.group(2) != 'operator()':
        def h(E, st, a, n): st.log.append(('copied', m.group(1)))
    else:
        const = f.dem.endswith(' const'); qual = ','.join(ps) + (' const' if const else '')
        def h(E, st, a, n): return target(E, st, m.group(1), qual, a, not f.nounwind, ['this'] + ps)
    h.label = 'user supplied callable ' + f.dem
    return h
def calls(o): return [l for l in o.st.log if l[0] == 'call']
def same_val(o, k, p, v, what, cat): o.req(cat, b_and(k.live(o, p), k.eq(k.get(o, p), v)), what + ': object unchanged')
def K0(): return Opaque(T)

# ================================================================ optional_ref
RC = ('C20', 'C27')
def con(name, core=('C20',), cases=None, nm=None, **kw): return contract(H, name, core, name=nm, cases=cases, **kw)
def oref(c, nm, p): return c.obj(8, {0: (8, p)}, nm)
def is_oref(o, r, p, what, cat='C20,C27'): o.req(cat, o.ptr_eq(o.ptr(r), p), what + ': the reference designates exactly the bound object (or null)')
def made(name, mk, cases=None, core=RC):
    @con(name, core, cases=cases)
    def _(c, **kw):
        r = raw(c, 8, 'r'); args, p, keep = mk(c, **kw)
        def post(o): o.returned('C20'); is_oref(o, r, p, name); keep(o)
        return [r] + args, post
nop = lambda o: None
made('r_ctor', lambda c: ([], NULL, nop)); made('r_null', lambda c: ([], NULL, nop))
def an_E(c, nm='e'): p, v = new(c, K0(), nm); return p, (lambda o: same_val(o, K0(), p, v, 'referenced object', 'C20'))
def mk_val(c): p, k = an_E(c); return [p], p, k
made('r_val', mk_val); made('c_val', mk_val)
def mk_opt(c, e):
    b = c.st.new_block(S + 1, 'stack', 'o'); c.st.mem[b].life = 'dead'; c.st.mem[b].cells = {S: (1, e)}; p = Ptr(b, 0); k = K0()
    v = k.put(c, p, 'o') if e else None
    def keep(o):
        o.req('C20', eq(o.byte(p, S), e, 8), 'the optional is unchanged')
        if e: same_val(o, k, p, v, 'optional', 'C20')
    return [p], (p if e else NULL), keep
EE = {'e': [0, 1]}
for n_ in ('r_opt', 'c_opt', 'c_copt'): made(n_, mk_opt, EE)
def mk_ptr(c, e):
    p, k = an_E(c); q = c.obj(8, {0: (8, p if e else NULL)}, 'p'); return [q], (p if e else NULL), lambda o: (k(o), o.req('C20', o.ptr_eq(o.ptr(q), p if e else NULL), 'the pointer is unchanged'))
for n_ in ('r_ptr', 'c_ptr', 'r_ref', 'r_copy', 'r_move'): made(n_, mk_ptr, EE)
def changed(name, mk, cases=None, nm=None):
    @con(name, RC, cases=dict({'a': [0, 1]}, **(cases or {})), nm=nm)
    def _(c, a, **kw):
        old, k0 = an_E(c, 'old'); r = oref(c, 'r', old if a else NULL); args, p, keep = mk(c, r, old if a else NULL, **kw)
        def post(o): o.returned('C20'); is_oref(o, r, p, name); o.req('C20', o.ptr_eq(o.v, r), 'result designates the right object'); k0(o); keep(o)
        return [r] + args, post
for n_ in ('r_asg', 'r_asg_m'):
    changed(n_, lambda c, r, old, e: mk_ptr(c, e), EE); changed(n_, lambda c, r, old: ([r], old, nop), nm=n_ + '(self)')
changed('r_asg_val', lambda c, r, old: mk_val(c)); changed('r_asg_null', lambda c, r, old: ([], NULL, nop))
for n_ in ('r_arrow', 'r_deref'):
    @con(n_)
    def _(c):
        p, k = an_E(c); r = oref(c, 'r', p)
        def post(o): o.returned('C20'); o.req('C20', o.ptr_eq(o.v, p), 'designates the referenced object'); is_oref(o, r, p, 'access'); k(o)
        return [r], post
for n_ in ('r_bool', 'r_has'):
    @con(n_, cases=EE)
    def _(c, e):
        p, k = an_E(c); r = oref(c, 'r', p if e else NULL)
        def post(o): o.returned('C20'); ret_bool(o, 'C20', bool(e), 'engaged'); is_oref(o, r, p if e else NULL, 'query'); k(o)
        return [r], post
# optional_ref<int>: every value, zero included, is a value
def an_int(c, nm='e'): p, v = new(c, INT, nm); return p, (lambda o: same_val(o, INT, p, v, 'referenced object', 'C20'))
for n_ in ('i_val', 'ci_val'):
    made(n_, lambda c: (lambda p, k: ([p], p, k))(*an_int(c)))
def mk_iopt(size):
    def mk(c, e):
        v = c.scalar('v', 32); p = c.obj(size, {0: (4, v), 4: (1, e)}, 'o')
        def keep(o): o.req('C20', b_and(eq(o.byte(p, 4), e, 8), eq(INT.get(o, p), v, 32)), 'the optional is unchanged')
        return [p], (p if e else NULL), keep
    return mk
made('i_opt', mk_iopt(8), EE); made('ci_copt', mk_iopt(8), EE); made('i_popt', mk_iopt(5), EE)
def mk_iptr(c, e):
    p, k = an_int(c); q = c.obj(8, {0: (8, p if e else NULL)}, 'p'); return [q], (p if e else NULL), lambda o: (k(o), o.req('C20', o.ptr_eq(o.ptr(q), p if e else NULL), 'the pointer is unchanged'))
made('i_ptr', mk_iptr, EE)
changed('i_asg_val', lambda c, r, old: (lambda p, k: ([p], p, k))(*an_int(c)))
@con('i_deref')
def _(c):
    p, k = an_int(c); r = oref(c, 'r', p)
    def post(o): o.returned('C20'); o.req('C20', o.ptr_eq(o.v, p), 'designates the referenced object'); is_oref(o, r, p, 'access'); k(o)
    return [r], post
@con('i_bool', cases=EE)
def _(c, e):
    p, k = an_int(c); r = oref(c, 'r', p if e else NULL)
    def post(o): o.returned('C20'); ret_bool(o, 'C20', bool(e), 'engaged'); is_oref(o, r, p if e else NULL, 'query'); k(o)
    return [r], post
A25 = ('C20', 'C25')
for n_ in ('r_value', 'i_value'):
    @con(n_, A25, cases=EE)
    def _(c, e):
        p, k = an_E(c); r = oref(c, 'r', p if e else NULL)
        def post(o):
            is_oref(o, r, p if e else NULL, 'value()', 'C20,C25'); k(o)
            if o.kind == 'exc': o.req('C20,C25', e == 0 and o.ti == BADOPT, 'throws std::bad_optional_access exactly when empty'); return
            o.returned('C20,C25'); o.req('C20,C25', b_and(e == 1, o.ptr_eq(o.v, p)), 'value() designates the referenced object, and only if there is one')
        return [r], post
for n_ in ('r_value_or', 'r_value_or_m'):
    def vo(n):
        @con(n, A25, cases=EE)
        def _(c, e):
            k = K0(); p, v = new(c, k, 'e'); d, dv = new(c, k, 'd'); r = oref(c, 'r', p if e else NULL); x = raw(c, S, 'out')
            def post(o):
                same_val(o, k, p, v, 'referenced', 'C20,C25'); is_oref(o, r, p if e else NULL, 'value_or()', 'C20,C25')
                if n == 'r_value_or' or e: same_val(o, k, d, dv, 'default', 'C20,C25')
                if o.kind == 'exc': o.req('C20,C25', o.ti == USER, 'only the element may throw'); return
                o.returned('C20,C25'); o.req('C20,C25', b_and(k.live(o, x), k.eq(k.get(o, x), v if e else dv)), 'value_or: referenced value or the default')
            return [x, r, d], post
    vo(n_)
@con('i_value_or', A25, cases=EE)
def _(c, e):
    p, v = new(c, INT, 'e'); r = oref(c, 'r', p if e else NULL); d = c.u64('d', False)
    def post(o): o.returned('C20,C25'); o.req('C20,C25', eq(o.v, v if e else simp(z3.Extract(31, 0, d)), 32), 'value_or: referenced value or the converted default')
    return [r, d], post

# ================================================================ variant_ref<E, const F, int, const int>
NAMES = ['E', 'cF', 'i', 'ci']; IX = [0, 1, 2, 3]
def vkind(i): return [K0(), Opaque(U, False), INT, INT][i]
class VRef:
    def __init__(s, c, nm, i):
        s.i = i; s.k = vkind(i); s.t, s.v = new(c, s.k, nm + '.target'); s.p = c.obj(16, {0: (8, s.t), 8: (8, i)}, nm)
    def keep(s, o, cat='C20'): same_val(o, s.k, s.t, s.v, 'referenced object', cat)
def is_vref(o, r, i, t, what, cat='C20'):
    o.req(cat + ',C27', b_and(eq(o.word(r, 8), i), o.ptr_eq(o.ptr(r), t)), what + ': refers to exactly the bound object under its alternative')
for n_, i_ in (('v_E', 0), ('v_F', 1), ('v_cF', 1), ('v_rF', 1), ('v_i', 2), ('v_ci', 3), ('v_ri', 3)):
    def bind(n, i):
        @con(n, RC)
        def _(c):
            k = vkind(i); t, v = new(c, k, 'x'); r = raw(c, 16, 'r')
            def post(o): o.returned('C20'); is_vref(o, r, i, t, 'binding'); same_val(o, k, t, v, 'bound object', 'C20')
            return [r, t], post
    bind(n_, i_)
for n_ in ('v_copy', 'v_move'):
    @con(n_, RC, cases={'i': IX})
    def _(c, i):
        x = VRef(c, 'x', i); r = raw(c, 16, 'r')
        def post(o): o.returned('C20'); is_vref(o, r, i, x.t, 'copy'); is_vref(o, x.p, i, x.t, 'source'); x.keep(o)
        return [r, x.p], post
for n_ in ('v_asg', 'v_asg_m'):
    @con(n_, RC, cases={'a': IX, 'b': IX})
    def _(c, a, b):
        x = VRef(c, 'a', a); y = VRef(c, 'b', b)
        def post(o): o.returned('C20'); is_vref(o, x.p, b, y.t, 'assignment'); is_vref(o, y.p, b, y.t, 'source'); x.keep(o); y.keep(o); o.req('C20', o.ptr_eq(o.v, x.p), 'result designates the right object')
        return [x.p, y.p], post
    @con(n_, RC, cases={'a': IX}, nm=n_ + '(self)')
    def _(c, a):
        x = VRef(c, 'a', a)
        def post(o): o.returned('C20'); is_vref(o, x.p, a, x.t, 'self assignment'); x.keep(o)
        return [x.p, x.p], post
for n_, i_ in (('v_asg_E', 0), ('v_asg_cF', 1), ('v_asg_i', 2)):
    def asg(n, i):
        @con(n, RC, cases={'a': IX})
        def _(c, a):
            x = VRef(c, 'a', a); k = vkind(i); t, v = new(c, k, 'x')
            def post(o): o.returned('C20'); is_vref(o, x.p, i, t, 'rebinding'); x.keep(o); same_val(o, k, t, v, 'bound object', 'C20'); o.req('C20', o.ptr_eq(o.v, x.p), 'result designates the right object')
            return [x.p, t], post
    asg(n_, i_)
for i_ in IX:
    def acc(i, n):
        @con('v_holds_' + n, cases={'a': IX})
        def _(c, a):
            x = VRef(c, 'a', a)
            def post(o): o.returned('C20'); ret_bool(o, 'C20', a == i, 'holds'); is_vref(o, x.p, a, x.t, 'holds'); x.keep(o)
            return [x.p], post
        @con('v_get_if_' + n, cases={'a': IX})
        def _(c, a):
            x = VRef(c, 'a', a)
            def post(o): o.returned('C20'); o.req('C20', o.ptr_eq(o.v, x.t if a == i else NULL), 'get_if points at the bound object or is null'); is_vref(o, x.p, a, x.t, 'get_if'); x.keep(o)
            return [x.p], post
        @con('v_get_' + n, A25, cases={'a': IX})
        def _(c, a):
            x = VRef(c, 'a', a)
            def post(o):
                is_vref(o, x.p, a, x.t, 'get', 'C20,C25'); x.keep(o, 'C20,C25')
                if o.kind == 'exc': o.req('C20,C25', a != i and o.ti == BADVAR, 'throws std::bad_variant_access exactly for other types'); return
                o.returned('C20,C25'); o.req('C20,C25', b_and(a == i, o.ptr_eq(o.v, x.t)), 'get designates the bound object')
            return [x.p], post
    acc(i_, NAMES[i_])
QV = ['E&', 'F const&', 'int&', 'int const&']
for n_, w_, nv_ in (('v_visit', 'Vis', 1), ('v_visit_rv', 'Vis', 1), ('v_visit_void', 'VV', 1), ('v_visit3', None, 3), ('v_visit_ref', 'WA', 1), ('v_visit2_ref', None, 2)):
    def vis(n, w, nv):
        @con(n, cases={'a': IX})
        def _(c, a):
            x = VRef(c, 'a', a); vs = [raw(c, FS if w else 1, 'vis%d' % j) for j in range(nv)]
            if 'ref' in n: c.st.ghost['target'] = new(c, K0(), 'result')[0].b; c.st.ghost['res'] = 'ref'
            elif w != 'VV': c.st.ghost['res'] = 'i64'
            def post(o):
                cs = calls(o); o.req('C20', len(cs) == 1, 'the visitor is called exactly once')
                _, who, q, rec, r = cs[0]
                o.req('C20', who == (w or (['WE', 'WO', 'WO', 'WO'] if nv == 2 else ['VE', 'VF', 'VI', 'VI'])[a]) and q == QV[a], 'the call selects the overload for the bound alternative')
                o.req('C20', o.ptr_eq(rec[1], x.t), 'the visitor receives the bound object')
                if nv == 1: o.req('C20', o.ptr_eq(rec[0], vs[0]), 'the given visitor object is the one called')
                is_vref(o, x.p, a, x.t, 'visit'); x.keep(o)
                if o.kind == 'exc': o.req('C20', o.ti == USER and isinstance(r, str), 'only the visitor may throw'); return
                o.returned('C20')
                if 'ref' in n: o.req('C20', o.ptr_eq(o.v, r), 'the reference returned by the visitor is returned')
                elif w != 'VV': o.req('C20', eq(o.v, r), 'the result of the visitor is returned')
            return [x.p] + vs, post
    vis(n_, w_, nv_)

# ================================================================ function_ref
TG = {'Fun': 0, 'Fcc': 1, 'cFcc': 1, 'Fbo': 0, 'cFbo': 1, 'Fne': 0, 'cFne': 1, 'Fin': 0, 'fn': None, 'fnn': None}
def constcall(a, t):
    """the target is called as const iff the signature is const or the target was bound as const (or has no other overload)"""
    return t in ('Fcc', 'cFcc', 'cFbo', 'cFne') or a in ('A1', 'A3', 'B1', 'D1')
def nox(a): return a in ('A2', 'A3')
def callee(c, t, nm):
    if t == 'fn': return Fn('$' + nm)
    if t == 'fnn': return Fn('$nx' + nm)
    if FS == 1: return raw(c, 1, nm)
    p = c.opaque(FS, nm); b = c.st.mem[p.b]; b.life = 'dead'; c.keep.append((p, b)); return p
CLASS = lambda t: t.lstrip('c')
FC = ('C21',)
def bindings():
    for a, ts in (('A0', 'Fun Fcc cFcc Fbo cFbo fn fnn'), ('A1', 'Fcc cFcc Fbo cFbo fn'), ('A2', 'Fne cFne fnn'), ('A3', 'Fne cFne fnn'), ('B0', 'Fun cFbo fn'), ('B1', 'Fbo fn'), ('D0', 'Fun Fbo fn'), ('D1', 'Fbo fn'), ('L0', 'Fin')):
        for t in ts.split(): yield a, t
def target_unmoved(o):
    for p, b in o.c.keep:
        i = o.skolem('byte'); o.req('C21', b_imp(ult(i, FS), eq(o.E.rd_byte(o.st, o.st.blk(p.b), i), b.base(i), 8)), 'the state of the target is not touched')
    o.req('C21', not any(l[0] == 'copied' for l in o.st.log), 'the target is referenced, never copied')
for a_, t_ in list(bindings()) + [('A0', 'rv')]:
    def b(a, t):
        @con('f_bind_%s_%s' % (a, t), ('C21', 'C27'))
        def _(c):
            f = callee(c, t, 'f'); r = raw(c, 16, 'r')
            def post(o):
                o.returned('C21'); o.req('C21,C27', o.ptr_eq(o.ptr(r), f), 'the first word is the address of the target')
                o.req('C21,C27', isinstance(o.ptr(r, 8), Fn), 'the second word is the trampoline'); o.req('C21', not calls(o), 'binding does not call the target'); target_unmoved(o)
            return [r, f], post
    b(a_, t_)
def args_A(c):
    x = c.u64('a', False); e, ev = new(c, K0(), 'e'); m, mv = new(c, Opaque(MT, False), 'm')
    return [x, e, m], x, e, ev, m, mv
def is_call_A(o, cl, who, qual, first, x, e, mv):
    _, w, q, rec, r = cl
    o.req('C21', w == who and (qual is None or q == qual), 'exactly the bound target is called, with the constness of the signature')
    o.req('C21', len(rec) == (4 if first is not None else 3), 'all arguments arrive')
    if first is not None: o.req('C21', o.ptr_eq(rec[0], first), 'the bound object itself is called'); rec = rec[1:]
    o.req('C21', b_and(eq(rec[0], x), o.ptr_eq(rec[1], e)), 'the arguments are forwarded')
    o.req('C21', isinstance(rec[2], tuple), 'the move-only argument arrives')
    o.req('C21', eq(rec[2][1], mv), 'the move-only argument keeps its value')
def finish(o, cl, nx):
    if o.kind == 'exc': o.req('C21', not nx and o.ti == USER and isinstance(cl[4], str), 'exceptions come from the target only'); return False
    o.returned('C21'); o.req('C21', not isinstance(cl[4], str), 'an exception of the target is passed on'); return True
def after_A(o, e, ev, m):
    same_val(o, K0(), e, ev, 'argument', 'C21'); o.req('C21', o.E.life_is(o.E.life_at(o.st, o.st.blk(m.b), 0), MT.code), 'the moved-from argument is still alive'); target_unmoved(o)
for a_ in ('A0', 'A1', 'A2', 'A3'):
    def call(a):
        @con('f_call_' + a, ('C21', 'C27'))
        def _(c):
            ar, x, e, ev, m, mv = args_A(c); f = raw(c, 1, 'f'); tr = '$nxtramp' if nox(a) else '$tramp'; r = c.obj(16, {0: (8, f), 8: (8, Fn(tr))}, 'r')
            c.st.ghost['res'] = 'i64'
            def post(o):
                cs = calls(o); o.req('C21', len(cs) == 1, 'the target is called exactly once')
                w, rec, res = cs[0][1], cs[0][3], cs[0][4]
                o.req('C21,C27', w == tr and len(rec) == 4 and b_and(o.ptr_eq(rec[0], f), eq(rec[1], x), o.ptr_eq(rec[2], e)), 'the trampoline is called with the stored target and the arguments')
                o.req('C21', isinstance(rec[3], tuple) and eq(rec[3][1], mv), 'the move-only argument arrives and keeps its value')
                after_A(o, e, ev, m)
                if finish(o, cs[0], nox(a)): o.req('C21', eq(o.v, res), 'the result is returned')
            return [r] + ar, post
        @con('f_copy_' + a, ('C21', 'C27'))
        def _(c):
            f = raw(c, 1, 'f'); r = c.obj(16, {0: (8, f), 8: (8, Fn('$tramp'))}, 'x'); q = raw(c, 16, 'r')
            def post(o): o.returned('C21'); o.req('C21,C27', b_and(o.ptr_eq(o.ptr(q), f), o.ptr(q, 8) == Fn('$tramp')), 'copies refer to the same target'); target_unmoved(o)
            return [q, r], post
        @con('f_asg_' + a, ('C21', 'C27'))
        def _(c):
            f = raw(c, 1, 'f'); r = c.obj(16, {0: (8, f), 8: (8, Fn('$tramp'))}, 'x'); q = c.obj(16, {0: (8, raw(c, 1, 'g')), 8: (8, Fn('$nxtramp'))}, 'r')
            def post(o): o.returned('C21'); o.req('C21,C27', b_and(o.ptr_eq(o.ptr(q), f), o.ptr(q, 8) == Fn('$tramp')), 'assignment rebinds to the same target'); o.req('C21', o.ptr_eq(o.v, q), 'result designates the right object'); target_unmoved(o)
            return [q, r], post
    call(a_)
QA = 'long,E const&,M'
for a_, t_ in [(a, t) for a, t in bindings() if a[0] == 'A'] + [('A0', 'rv')]:
    def run(a, t):
        ct = 'Fun' if t == 'rv' else t
        def one(n, two):
            @con(n, FC)
            def _(c):
                f = callee(c, ct, 'f'); g = callee(c, ct, 'g'); ar, x, e, ev, m, mv = args_A(c); c.st.ghost['res'] = 'i64'
                
                def post(o):
                    cs = calls(o); o.req('C21', len(cs) == 1, 'the target is called exactly once'); cl = cs[0]
                    if ct in ('fn', 'fnn'):
                        o.req('C21', cl[1] == f.n, 'exactly the bound function is called')
                        rec = cl[3]; o.req('C21', len(rec) == 3 and b_and(eq(rec[0], x), o.ptr_eq(rec[1], e), eq(rec[2][1], mv)), 'the arguments are forwarded')
                    else: is_call_A(o, cl, CLASS(ct), QA + (' const' if constcall(a, ct) else ''), f, x, e, mv)
                    after_A(o, e, ev, m)
                    if finish(o, cl, nox(a)): o.req('C21', eq(o.v, cl[4]), 'the result of the target is returned')
                return ([f, g] if two else [f]) + ar, post
        one('f_run_%s_%s' % (a, t), False)
        if t != 'rv': one('f_runc_%s_%s' % (a, t), True)
    run(a_, t_)
for a_, t_ in (('B0', 'Fun'), ('B0', 'cFbo'), ('B1', 'Fbo'), ('B0', 'fn')):
    def runb(a, t):
        @con('f_run_%s_%s' % (a, t), FC)
        def _(c):
            f = callee(c, t, 'f'); e, ev = new(c, K0(), 'e'); c.st.ghost['res'] = 'ref'; c.st.ghost['target'] = c.st.new_block(S, 'stack', 'target')
            tp = Ptr(c.st.ghost['target'], 0)
            def post(o):
                cs = calls(o); o.req('C21', len(cs) == 1, 'the target is called exactly once'); _, w, q, rec, r = cs[0]
                o.req('C21', w == (f.n if t == 'fn' else CLASS(t)) and (t == 'fn' or q == 'E&' + (' const' if constcall(a, t) else '')), 'exactly the bound target is called, with the constness of the signature')
                if t != 'fn': o.req('C21', o.ptr_eq(rec[0], f), 'the bound object itself is called')
                o.req('C21', o.ptr_eq(rec[-1], e), 'the argument is forwarded'); same_val(o, K0(), e, ev, 'argument', 'C21'); target_unmoved(o)
                if finish(o, cs[0], False): o.req('C21', o.ptr_eq(o.v, tp), 'the reference returned by the target is returned')
            return [f, e], post
    runb(a_, t_)
for a_, t_ in (('D0', 'Fun'), ('D0', 'Fbo'), ('D1', 'Fbo'), ('D0', 'fn')):
    def rund(a, t):
        @con('f_run_%s_%s' % (a, t), FC)
        def _(c):
            f = callee(c, t, 'f')
            def post(o):
                cs = calls(o); o.req('C21', len(cs) == 1, 'the target is called exactly once'); _, w, q, rec, r = cs[0]
                o.req('C21', w == (f.n if t == 'fn' else CLASS(t)) and (t == 'fn' or q == (' const' if constcall(a, t) else '')), 'exactly the bound target is called, with the constness of the signature')
                if t != 'fn': o.req('C21', o.ptr_eq(rec[0], f), 'the bound object itself is called')
                target_unmoved(o); finish(o, cs[0], False)
            return [f], post
    rund(a_, t_)
@con('f_run_L0_Fin', FC)
def _(c):
    f = callee(c, 'Fin', 'f'); i = c.scalar('i', 32); c.st.ghost['res'] = 'i32'
    def post(o):
        cs = calls(o); o.req('C21', len(cs) == 1, 'the target is called exactly once'); _, w, q, rec, r = cs[0]
        o.req('C21', b_and(w == 'Fin', o.ptr_eq(rec[0], f), eq(rec[1], i, 32)), 'the bound target receives the argument')
        if finish(o, cs[0], False): o.req('C21', eq(o.v, simp(z3.SignExt(32, r))), 'the converted result is returned')
    return [f, i], post
for n_, t_ in (('f_asg_A0_Fbo', 'Fbo'), ('f_asg_A0_fn', 'fn')):
    def fa(n, t):
        @con(n, FC)
        def _(c):
            f = callee(c, t, 'f'); r = c.obj(16, {0: (8, raw(c, 1, 'g')), 8: (8, Fn('$tramp'))}, 'r')
            def post(o): o.returned('C21'); o.req('C21', b_and(o.ptr_eq(o.ptr(r), f), isinstance(o.ptr(r, 8), Fn), o.ptr(r, 8) != Fn('$tramp')), 'assignment rebinds'); o.req('C21', o.ptr_eq(o.v, r), 'result designates the right object'); target_unmoved(o)
            return [r, f], post
    fa(n_, t_)
for w_, n_ in (('r_sizeof', 8), ('v_sizeof', 16), ('f_sizeof', 16)):
    def lay(w, n):
        @con(w, ('C27',))
        def _(c): return [], lambda o: (o.returned('C27'), o.req('C27', eq(o.v, n), 'size of the reference type'))
    lay(w_, n_)
