"""The documented binary layouts, as contracts: every stored field is written and read where the layout puts it."""
from vcg.dsl import *
from .slots import *
from . import string as S_, vector as V_
H = 'layout'
VARIANTS_THOROUGH = [{}, {'ES': 1}, {'ES': 24}]
T = None
def setup(E, ES=16):
    global T
    T = Elem('E', ES, 1); E.elems = {'E': T}; E.matchers.insert(0, S_.chars); V_.T, V_.S = T, ES; E.matchers.insert(0, V_.input_copy)
def con(name, cases=None, nm=None, **kw): return contract(H, name, ('C27',), name=nm, cases=cases, **kw)
SIZES = dict(v_char=32, v_double=32, v_E1=32, v_E=32, v_E24=32, v_v=32, s=32, b0=1, b1=1, b8=1, b9=2, b64=8, b65=9, b1000=125, o_char=2, o_int=5, o_double=9, o_E3=4, o_E24=25, o_s=33,
             w_char=2, w_int_char=5, w_char_double=9, w_E=25, w_s=33, t_char_double_char=10, t_E=28, t_int=4, a_char3=3, a_double5=40, a_E3=21, or_char=8, or_E=8, wr=16, wr1=16, ar_char=16, ar_E=16, sr=16, fr=16, frc=16)
for n_, v_ in SIZES.items():
    def sz(n, v):
        @con('z_' + n)
        def _(c): return [], lambda o: (o.returned('C27'), o.req('C27', eq(o.v, v), 'size of the type'))
    sz(n_, v_)
K = 'C27'
def isptr(x): return isinstance(x, Ptr) and x.b != 0
# ---- vector: {deallocator, data pointer, capacity, size}
def vec(o, p, n, f, what, cap=None, maybe=False):
    de, buf = o.ptr(p, 0), o.ptr(p, 8)
    o.req(K, b_and(eq(o.word(p, 24), n)), what + ': fourth word is the size')
    if isc(n) and n == 0 and cap is None: o.req(K, b_and(not isptr(buf), eq(o.word(p, 16), 0)), what + ': no storage'); return
    if not isptr(buf): o.req(K, eq(n, 0) if cap is None else False, what + ': second word is the data pointer'); return
    o.req(K, isinstance(de, Fn), what + ': first word is the deallocator'); o.req(K, b_and(ule(n, o.word(p, 16)), ule(mul(o.word(p, 16), T.size), o.st.blk(buf.b).size)), what + ': third word is the capacity')
    if cap is not None: o.req(K, ule(cap, o.word(p, 16)), what + ': third word is the capacity')
    if f is not None:
        k = o.skolem(); blk = o.st.blk(buf.b); off = add(buf.o, mul(k, T.size))
        o.req(K, b_imp(ult(k, n), b_and(o.E.life_is(o.E.life_at(o.st, blk, off), T.code), eq(o.E.val_at(o.st, blk, off), f(k)))), what + ': element k is at data + k')
VS = {'shape': ['null', 'heap']}
@con('v_ctor')
def _(c):
    x = c.out(32); return [x], lambda o: (o.returned(K), vec(o, x, 0, None, 'default construction'))
@con('v_ctor_range')
def _(c):
    x = c.out(32); f, l, n = V_.range_arg(c, 'out', None); s = V_.Src(c, f, n)
    def post(o):
        if o.kind == 'ret': vec(o, x, n, lambda k: s.val(o, k), 'construction')
    return [x, f, l], post
@con('v_ctor_move', VS)
def _(c, shape):
    x = c.out(32); v = V_.Vec(c, 'v', shape)
    return [x, v.p], lambda o: (o.returned(K), vec(o, x, v.siz, lambda k: v.val(o, k), 'move', cap=v.cap if shape != 'null' else None))
@con('v_reserve', VS)
def _(c, shape):
    v = V_.Vec(c, 'v', shape); n = c.u64('n')
    def post(o):
        if o.kind == 'ret' and o.st.decide(b_not(eq(n, 0))): vec(o, v.p, v.siz, lambda k: v.val(o, k), 'reserve', cap=n)
    return [v.p, n], post
@con('v_push', VS)
def _(c, shape):
    v = V_.Vec(c, 'v', shape); x = c.elems(T, 1, 'x'); s = V_.Src(c, x, 1)
    def post(o):
        if o.kind == 'ret': vec(o, v.p, add(v.siz, 1), lambda k: b_ite(ult(k, v.siz), v.val(o, k), s.val(o), 64), 'push_back')
    return [v.p, x], post
for n_, f_ in (('v_size', lambda v: v.siz), ('v_capacity', lambda v: v.cap)):
    def q(n, f):
        @con(n, VS)
        def _(c, shape): v = V_.Vec(c, 'v', shape); return [v.p], lambda o: (o.returned(K), o.req(K, eq(o.v, f(v)), n + ' reads its word of the layout'))
    q(n_, f_)
@con('v_data', VS)
def _(c, shape): v = V_.Vec(c, 'v', shape); return [v.p], lambda o: (o.returned(K), o.req(K, o.ptr_eq(o.v, v.buf), 'data() reads the second word'))
@con('v_dtor', VS)
def _(c, shape): v = V_.Vec(c, 'v', shape); return [v.p], lambda o: (o.returned(K), o.req(K, [x[2] for x in o.st.log if x[0] == 'free'] == ([v.de.n] if shape != 'null' else []), 'the deallocator in the first word releases the buffer'))
# ---- string: deallocator, then {length byte, characters} or {data pointer, capacity, size}
def strg(o, p, n, f, what, cap=0):
    de = o.ptr(p, 0)
    if isinstance(de, Ptr) and de.b == 0:
        o.req(K, eq(o.E.cast(o.st, 'zext', o.byte(p, 8), ir.INT(8), ir.INT(64)), n), what + ': ninth byte is the length of a small string'); o.req(K, b_and(ule(n, 22), ule(cap, 22)), what + ': small form up to 22 characters'); data = Ptr(p.b, add(p.o, 9))
    else:
        o.req(K, isinstance(de, Fn), what + ': first word is the deallocator'); data = o.ptr(p, 8)
        o.req(K, isptr(data), what + ': second word is the data pointer'); o.req(K, eq(o.word(p, 24), n), what + ': fourth word is the size')
        o.req(K, b_and(ule(n, o.word(p, 16)), ule(cap, o.word(p, 16)), ult(o.word(p, 16), o.st.blk(data.b).size)), what + ': third word is the capacity')
    blk = o.st.blk(data.b); rd = lambda k: o.E.rd_byte(o.st, blk, add(data.o, k))
    o.req(K, eq(rd(n), 0, 8), what + ': NUL after the last character')
    k = o.skolem()
    def chk():
        if o.st.decide(ult(k, n)): o.req(K, eq(rd(k), f(k), 8), what + ': character k is at data + k')
    o.each(chk)
SS = {'shape': ['sso', 'heap']}
@con('s_ctor')
def _(c): x = c.out(32); return [x], lambda o: (o.returned(K), strg(o, x, 0, lambda k: 0, 'default construction'))
@con('s_ctor_range')
def _(c):
    x = c.out(32); s = S_.Src(c, 'out')
    def post(o):
        if o.kind == 'ret': strg(o, x, s.n, lambda k: s.ch(o, k), 'construction')
    return [x, s.p, s.e], post
@con('s_ctor_move', SS)
def _(c, shape):
    x = c.out(32); v = S_.Str(c, 's', shape); return [x, v.p], lambda o: (o.returned(K), strg(o, x, v.siz, lambda k: v.ch(o, k), 'move'))
@con('s_reserve', SS)
def _(c, shape):
    v = S_.Str(c, 's', shape); n = c.u64('n')
    def post(o):
        if o.kind == 'ret': strg(o, v.p, v.siz, lambda k: v.ch(o, k), 'reserve', cap=n)
    return [v.p, n], post
@con('s_push', SS)
def _(c, shape):
    v = S_.Str(c, 's', shape); x = c.scalar('ch', 8)
    def post(o):
        if o.kind == 'ret': strg(o, v.p, add(v.siz, 1), lambda k: b_ite(ult(k, v.siz), v.ch(o, k), x, 8), 'push_back')
    return [v.p, x], post
@con('s_pop', SS)
def _(c, shape):
    v = S_.Str(c, 's', shape); c.assume(b_not(eq(v.siz, 0))); return [v.p], lambda o: (o.returned(K), strg(o, v.p, sub(v.siz, 1), lambda k: v.ch(o, k), 'pop_back'))
for n_, f_ in (('s_size', lambda v: v.siz), ('s_capacity', lambda v: v.cap)):
    def q(n, f):
        @con(n, SS)
        def _(c, shape): v = S_.Str(c, 's', shape); return [v.p], lambda o: (o.returned(K), o.req(K, eq(o.v, f(v)), n + ' reads its field of the layout'))
    q(n_, f_)
@con('s_data', SS)
def _(c, shape): v = S_.Str(c, 's', shape); return [v.p], lambda o: (o.returned(K), o.req(K, o.ptr_eq(o.v, v.data), 'data() designates the stored characters'))
@con('s_dtor', SS)
def _(c, shape): v = S_.Str(c, 's', shape); return [v.p], lambda o: (o.returned(K), o.req(K, [x[2] for x in o.st.log if x[0] == 'free'] == ([v.de.n] if shape == 'heap' else []), 'the deallocator in the first word releases the buffer'))
# ---- bitset: bit i is bit i % 8 of byte i / 8
def bits(c, nm):
    bs = [c.scalar('%s%d' % (nm, i), 8) for i in range(3)]; c.assume(z3.ULE(bs[2], 7)); return c.obj(3, {i: (1, b) for i, b in enumerate(bs)}, nm), bs
def want(o, p, bs, what):
    for i in range(3): o.req(K, simp(bv(o.byte(p, i), 8) == bs[i]), what + ': byte %d' % i)
@con('b_set', {'i': list(range(19))}, arith=False)
def _(c, i):
    p, bs = bits(c, 'b'); w = list(bs); w[i // 8] = w[i // 8] | (1 << i % 8); return [p, i], lambda o: (o.returned(K), want(o, p, w, 'set'))
@con('b_test', {'i': list(range(19))}, arith=False)
def _(c, i):
    p, bs = bits(c, 'b'); return [p, i], lambda o: (o.returned(K), o.req(K, simp(o.result_bool() == (z3.Extract(i % 8, i % 8, bs[i // 8]) == 1)), 'bit i is bit i % 8 of byte i / 8'))
OPB = dict(arith=False, merge=True, induct=True, loop_limit=4000)
@con('b_ctor', **OPB)
def _(c):
    x = c.out(3); v = c.u64('v', False); return [x, v], lambda o: (o.returned(K), want(o, x, [z3.Extract(7, 0, v), z3.Extract(15, 8, v), z3.Extract(23, 16, v) & 7], 'construction'))
@con('b0_ctor', **OPB)
def _(c): x = c.out(1); return [x], lambda o: (o.returned(K), o.req(K, eq(o.byte(x), 0, 8), 'the empty bitset is one zero byte'))
