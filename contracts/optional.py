"""Contracts of ptl::optional<E> for an opaque element type E, and of ptl::optional<int>."""
from vcg.dsl import *
from .slots import *
H = 'optional'
VARIANTS = [{}, {'ES': 24, 'PS': 16}, {'NX': 1, 'PS': 2}]
VARIANTS_THOROUGH = [{}, {'ES': 1, 'PS': 1}, {'ES': 24, 'PS': 16}, {'NX': 1, 'PS': 2}, {'PS': 8}]
S = 16; T = PT = None
def setup(E, ES=16, NX=0, PS=4):
    global T, S, PT
    PT = Elem('P', PS, 2); E.plains = {'P': PT}
    S = ES; T = Elem('E', S, 1, nothrow=bool(NX)); E.elems = {'E': T}
K = {'o': lambda: Opaque(T), 'i': lambda: INT, 'p': lambda: Plain(PT)}
CORE = ('C14',)
BITS = {'e': [0, 1]}
class Opt:
    """pre-state of an optional: engaged (1) or empty (0)"""
    def __init__(s, c, k, nm, e):
        s.k, s.e = k, e
        b = c.st.new_block(k.size + 1, 'stack', nm); c.st.mem[b].cells = {k.size: (1, e)}
        if k.opaque: c.st.mem[b].life = 'dead'
        s.p = Ptr(b, 0); s.v = k.put(c, s.p, nm) if e else None
def is_opt(o, k, p, e, v, what, cat='C14'):
    """the object at p is an optional that is engaged iff e and then holds v (v None: any value)"""
    o.req(cat + ',C27', eq(o.byte(p, k.size), e, 8), what + ': engaged flag')
    if k.opaque:
        l = o.E.life_at(o.st, o.st.blk(p.b), 0)
        o.req(cat, o.E.life_is(l, k.T.code if e else 0), what + (': contained object is alive' if e else ': no object is left alive'))
    if e and v is not None: o.req(cat + ',C27', k.eq(k.get(o, p), v), what + ': value')
def same(o, x, what, cat='C14'): is_opt(o, x.k, x.p, x.e, x.v, what + ' (operand unchanged)', cat)
def same_val(o, k, p, v, what, cat='C14'):
    o.req(cat, b_and(k.live(o, p), k.eq(k.get(o, p), v)), what + ': argument unchanged')
def self_ret(o, p, cat='C14'): o.req(cat, o.ptr_eq(o.v, p), 'result designates the right object')

for P in 'oip':
    def block(P):
        k_ = K[P]
        def con(name, core=CORE, cases=None, nm=None, **kw):
            return contract(H, P + '_' + name, core, name=nm and P + '_' + nm, cases=cases, **kw)
        # ---- construction: pre uninitialised storage
        for n_ in ('ctor', 'ctor_null'):
            @con(n_, CORE + ('C27',))
            def _(c):
                k = k_(); p = raw(c, k.size + 1, 'o')
                def post(o): o.returned('C14'); is_opt(o, k, p, 0, None, 'empty construction')
                return [p], post
        def made(name, mk, throws, cases=None, core=CORE + ('C27',)):
            @con(name, core, cases=cases)
            def _(c, **kw):
                k = k_(); p = raw(c, k.size + 1, 'o'); args, e, v, keep = mk(c, k, **kw)
                def post(o):
                    if o.kind == 'exc':
                        o.req('C14', throws and k.throws and o.ti == USER, 'only the element may throw')
                        if k.opaque: o.req('C14', nothing_live(o, p, k.size), 'nothing is left alive after failed construction')
                    else: o.returned('C14'); is_opt(o, k, p, e, v, name)
                    keep(o)
                return [p] + args, post
        def mk_copy(c, k, e): x = Opt(c, k, 'x', e); return [x.p], e, x.v, lambda o: same(o, x, 'source')
        def mk_move(c, k, e): x = Opt(c, k, 'x', e); return [x.p], e, x.v, lambda o: is_opt(o, k, x.p, e, None, 'moved-from optional')
        made('copy', mk_copy, True, BITS); made('move', mk_move, False, BITS)
        def mk_val(c, k): x, v = new(c, k, 'x'); return [x], 1, v, lambda o: same_val(o, k, x, v, 'value')
        def mk_mval(c, k): x, v = new(c, k, 'x'); return [x], 1, v, lambda o: o.req('C14', k.live(o, x), 'argument still alive')
        made('from', mk_val, True); made('from_move', mk_mval, False); made('in_place_copy', mk_val, True)
        made('in_place', lambda c, k: ([], 1, k.default(), lambda o: None), True)
        # ---- assignment, emplace
        def changed(name, mk, throws, cases=None, ret='self', nm=None, core=CORE + ('C27',), strong=False, when=None):
            cs = dict({'a': [0, 1]}, **(cases or {}))
            @con(name, core, cases=cs, nm=nm, **({'when': when} if when else {}))
            def _(c, a, **kw):
                k = k_(); x = Opt(c, k, 'a', a); args, e, v, keep = mk(c, k, x, **kw)
                def post(o):
                    if o.kind == 'exc':
                        o.req('C14', throws and k.throws and o.ti == USER, 'only the element may throw')
                        if strong and a == 1 and eq(o.byte(x.p, k.size), 0, 8) is True: is_opt(o, k, x.p, 0, None, 'failed ' + name)
                        elif a == 0 or strong: same(o, x, 'failed ' + name)
                        else: is_opt(o, k, x.p, 1, None, 'failed ' + name)
                    else:
                        o.returned('C14'); is_opt(o, k, x.p, e, v, name)
                        self_ret(o, x.p)
                    keep(o)
                return [x.p] + args, post
        nop = lambda o: None
        changed('asg_null', lambda c, k, x: ([], 0, None, nop), False)
        changed('asg_c', lambda c, k, x, e: (lambda y: ([y.p], e, y.v, lambda o: same(o, y, 'source')))(Opt(c, k, 'x', e)), True, BITS)
        changed('asg_m', lambda c, k, x, e: (lambda y: ([y.p], e, y.v, lambda o: is_opt(o, k, y.p, e, None, 'moved-from optional')))(Opt(c, k, 'x', e)), False, BITS)
        changed('asg_c', lambda c, k, x: ([x.p], x.e, x.v, nop), False, nm='asg_c(self)')
        changed('asg_m', lambda c, k, x: ([x.p], x.e, x.v, nop), False, nm='asg_m(self)')
        def a_val(c, k, x): p, v = new(c, k, 'x'); return [p], 1, v, lambda o: same_val(o, k, p, v, 'value')
        def a_mval(c, k, x): p, v = new(c, k, 'x'); return [p], 1, v, lambda o: o.req('C14', k.live(o, p), 'argument still alive')
        inside = lambda a: a == 1
        changed('asg_v', a_val, True); changed('asg_vm', a_mval, False)
        changed('asg_v', lambda c, k, x: ([x.p], 1, x.v, nop), True, nm='asg_v(own value)', when=inside)
        changed('asg_vm', lambda c, k, x: ([x.p], 1, None, nop), False, nm='asg_vm(own value)', when=inside)
        changed('emplace0', lambda c, k, x: ([], 1, k.default(), nop), True, strong=True)
        changed('emplace_c', a_val, True, strong=True); changed('emplace_m', a_mval, False)
        changed('emplace_c', lambda c, k, x: ([x.p], 1, x.v, nop), True, nm='emplace_c(own value)', when=inside, strong=True)
        changed('emplace_m', lambda c, k, x: ([x.p], 1, x.v, nop), False, nm='emplace_m(own value)', when=inside)
        # ---- end of life
        @con('dtor', cases=BITS)
        def _(c, e):
            k = k_(); x = Opt(c, k, 'o', e)
            def post(o):
                o.returned('C14')
                if k.opaque: o.req('C14', nothing_live(o, x.p, k.size), 'destruction leaves the contained object alive')
            return [x.p], post
        @con('reset', cases=BITS)
        def _(c, e):
            k = k_(); x = Opt(c, k, 'o', e)
            def post(o): o.returned('C14'); is_opt(o, k, x.p, 0, None, 'reset')
            return [x.p], post
        # ---- access
        for n_ in ('arrow_c', 'arrow', 'deref_c', 'deref', 'deref_cr', 'deref_r'):
            @con(n_)
            def _(c):
                k = k_(); x = Opt(c, k, 'o', 1)
                def post(o): o.returned('C14'); self_ret(o, x.p); same(o, x, 'access')
                return [x.p], post
        for n_ in ('bool', 'has_value'):
            @con(n_, cases=BITS)
            def _(c, e):
                k = k_(); x = Opt(c, k, 'o', e)
                def post(o): o.returned('C14'); ret_bool(o, 'C14', bool(e), 'engaged'); same(o, x, 'query')
                return [x.p], post
        for n_ in ('value_c', 'value', 'value_cr', 'value_r'):
            @con(n_, ('C14', 'C25'), cases=BITS)
            def _(c, e):
                k = k_(); x = Opt(c, k, 'o', e)
                def post(o):
                    same(o, x, 'value()', 'C14,C25')
                    if o.kind == 'exc': o.req('C14,C25', e == 0 and o.ti == BADOPT, 'throws std::bad_optional_access exactly when empty'); return
                    o.returned('C14,C25'); o.req('C14,C25', e == 1, 'value() of an empty optional must throw'); self_ret(o, x.p, 'C14,C25')
                return [x.p], post
        @con('value_or', ('C14', 'C25'), cases=BITS)
        def _(c, e):
            k = k_(); x = Opt(c, k, 'o', e); r = raw(c, k.size, 'r'); d, dv = new(c, k, 'd')
            def post(o):
                same(o, x, 'value_or()', 'C14,C25'); same_val(o, k, d, dv, 'default', 'C14,C25')
                if o.kind == 'exc': o.req('C14,C25', k.throws and o.ti == USER, 'only the element may throw'); return
                o.returned('C14,C25'); o.req('C14,C25', b_and(k.live(o, r), k.eq(k.get(o, r), x.v if e else dv)), 'value_or: contained value or the default')
            return [r, x.p, d], post
        @con('value_or_m', ('C14', 'C25'), cases=BITS)
        def _(c, e):
            k = k_(); x = Opt(c, k, 'o', e); r = raw(c, k.size, 'r'); d, dv = new(c, k, 'd')
            def post(o):
                is_opt(o, k, x.p, e, None, 'value_or()', 'C14,C25'); o.req('C14', k.live(o, d), 'default still alive')
                if e: same_val(o, k, d, dv, 'unused default', 'C14,C25')
                o.returned('C14,C25'); o.req('C14,C25', b_and(k.live(o, r), k.eq(k.get(o, r), x.v if e else dv)), 'value_or: contained value or the default')
            return [r, x.p, d], post
        # ---- swap
        for n_ in ('swap', 'fswap'):
            @con(n_, cases={'a': [0, 1], 'b': [0, 1]})
            def _(c, a, b):
                k = k_(); x = Opt(c, k, 'a', a); y = Opt(c, k, 'b', b)
                def post(o): o.returned('C14'); is_opt(o, k, x.p, b, y.v, 'swap (left)'); is_opt(o, k, y.p, a, x.v, 'swap (right)')
                return [x.p, y.p], post
            @con(n_, nm=n_ + '(self)', cases={'a': [0, 1]})
            def _(c, a):
                k = k_(); x = Opt(c, k, 'a', a)
                def post(o): o.returned('C14'); same(o, x, 'self swap')
                return [x.p, x.p], post
        # ---- comparisons
        def spec(k, op, e1, v1, e2, v2):
            if e1 and e2: return k.rel(op, v1, v2)
            return {'==': e1 == e2, '!=': e1 != e2, '<': e1 < e2, '<=': e1 <= e2, '>': e1 > e2, '>=': e1 >= e2}[op]
        for n_, op_ in OPS.items():
            def cmp(n_, op_):
                @con(n_, ('C15',), cases={'a': [0, 1], 'b': [0, 1]})
                def _(c, a, b):
                    k = k_(); x = Opt(c, k, 'a', a); y = Opt(c, k, 'b', b)
                    def post(o): o.returned('C15'); ret_bool(o, 'C15', spec(k, op_, a, x.v, b, y.v), 'result of ' + op_); same(o, x, 'comparison', 'C15'); same(o, y, 'comparison', 'C15')
                    return [x.p, y.p], post
                @con(n_, ('C15',), nm=n_ + '(self)', cases={'a': [0, 1]})
                def _(c, a):
                    k = k_(); x = Opt(c, k, 'a', a)
                    def post(o): o.returned('C15'); ret_bool(o, 'C15', spec(k, op_, a, x.v, a, x.v), 'result of ' + op_); same(o, x, 'comparison', 'C15')
                    return [x.p, x.p], post
                @con(n_ + '_null', ('C15',), cases={'a': [0, 1]})
                def _(c, a):
                    k = k_(); x = Opt(c, k, 'a', a)
                    def post(o): o.returned('C15'); ret_bool(o, 'C15', spec(k, op_, a, x.v, 0, None), 'result of %s nullopt' % op_); same(o, x, 'comparison', 'C15')
                    return [x.p], post
                @con('null_' + n_, ('C15',), cases={'a': [0, 1]})
                def _(c, a):
                    k = k_(); x = Opt(c, k, 'a', a)
                    def post(o): o.returned('C15'); ret_bool(o, 'C15', spec(k, op_, 0, None, a, x.v), 'result of nullopt ' + op_); same(o, x, 'comparison', 'C15')
                    return [x.p], post
                @con(n_ + '_val', ('C15',), cases={'a': [0, 1]})
                def _(c, a):
                    k = k_(); x = Opt(c, k, 'a', a); y, v = new(c, k, 'v')
                    def post(o): o.returned('C15'); ret_bool(o, 'C15', spec(k, op_, a, x.v, 1, v), 'result of %s value' % op_); same(o, x, 'comparison', 'C15'); same_val(o, k, y, v, 'comparison', 'C15')
                    return [x.p, y], post
                @con('val_' + n_, ('C15',), cases={'a': [0, 1]})
                def _(c, a):
                    k = k_(); x = Opt(c, k, 'a', a); y, v = new(c, k, 'v')
                    def post(o): o.returned('C15'); ret_bool(o, 'C15', spec(k, op_, 1, v, a, x.v), 'result of value ' + op_); same(o, x, 'comparison', 'C15'); same_val(o, k, y, v, 'comparison', 'C15')
                    return [y, x.p], post
            cmp(n_, op_)
        if P == 'o':
            def l1(c, k): a = c.u64('arg', False); return [a], 1, k.T.ctor(a), nop
            def l2(c, k):
                a = c.u64('arg', False); x, v = new(c, k, 'x'); return [a, x], 1, k.T.ctor(lib.comb(a, bv64(v))), lambda o: same_val(o, k, x, v, 'argument')
            made('in_place_l', l1, True); made('in_place_lc', l2, True)
            changed('emplace_l', lambda c, k, x: l1(c, k), True, strong=True); changed('emplace_lc', lambda c, k, x: l2(c, k), True, strong=True)
            def l2own(c, k, x): a = c.u64('arg', False); return [a, x.p], 1, k.T.ctor(lib.comb(a, bv64(x.v))), nop
            changed('emplace_lc', l2own, True, nm='emplace_lc(own value)', strong=True, when=inside)
        elif P == 'i':
            for n_ in ('value_or_l', 'value_or_lr'):
                @con(n_, ('C14', 'C25'), cases=BITS)
                def _(c, e):
                    x = Opt(c, INT, 'o', e); d = c.u64('d', False)
                    def post(o):
                        o.returned('C25'); o.req('C14,C25', eq(o.v, x.v if e else simp(z3.Extract(31, 0, d)), 32), 'value_or: contained value or the converted default'); same(o, x, 'value_or')
                    return [x.p, d], post
    block(P)
for w_, f_ in (('o_sizeof', lambda: S + 1), ('i_sizeof', lambda: 5), ('o_alignof', lambda: 257)):
    def lay(w_, f_):
        @contract(H, w_, ('C27',))
        def _(c): return [], lambda o: (o.returned('C27'), o.req('C27', eq(o.v, f_()), 'optional is the value followed by one byte, unpadded'))
    lay(w_, f_)
