"""Contracts of ptl::bitset<N>: every stored value, index, shift count and stream content; N from a list of sizes.
The loops inside run over ceil(N/8) bytes or N bits and are unrolled completely (no bound on data); the loops over a
shift count are closed by induction over the counter."""
from vcg.dsl import *
H = 'bitset'
QUICK = [0, 1, 3, 7, 8, 9, 10, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 300]
MORE = [2, 4, 5, 6, 11, 12, 13, 14, 15, 24, 40, 72, 127, 129]
VARIANTS_THOROUGH = [{'MORE': 1}]
ASSUMPTIONS = ['the sizes examined are the listed ones; the class template has no other size-dependent branches than N == 0, N % 8 and min(N, 64)',
               'istream is modelled as a character sequence with position and state bits; sentry skips white space and may fail']
WITH_MORE = False
def setup(E, MORE=0): E.matchers.insert(0, io)
def weight(con, case): return con.opts.get('N', 0)
SIZES = QUICK + MORE
OP = dict(arith=False, merge=True, induct=True, loop_limit=4000)

def nb(N): return N // 8 + (1 if N % 8 else 0) if N else 1
class Bits:
    """pre-state: N arbitrary logical bits, padding zero (class invariant)"""
    def __init__(s, c, nm, N, like=None):
        s.N, n = N, nb(N)
        if like is not None: s.bits = like.bits
        elif N == 0: s.bits = None
        else: s.bits = z3.BitVec('in!' + nm, N)
        s.full = z3.BitVecVal(0, 8 * n) if N == 0 else (z3.ZeroExt(8 * n - N, s.bits) if 8 * n > N else s.bits)
        s.p = c.obj(n, {i: (1, simp(z3.Extract(8 * i + 7, 8 * i, s.full))) for i in range(n)}, nm)
def value(o, p, N, inv=True):
    """all bytes of the object at exit; obligation: padding is zero"""
    n = nb(N)
    bs = [bv(o.byte(p, i), 8) for i in range(n)]
    full = bs[0] if n == 1 else z3.Concat(*reversed(bs))
    if N == 0: o.req('C11', simp(full == 0), 'padding is zero'); return None
    if 8 * n > N and inv: o.req('C11,C10', simp(z3.Extract(8 * n - 1, N, full) == 0), 'padding bits are zero')
    return simp(z3.Extract(N - 1, 0, full))
def is_bits(o, cat, p, N, want, what):
    v = value(o, p, N)
    if N: o.req(cat, simp(bv(v, N) == want), what + ': bits')
def same(o, cat, b, what): is_bits(o, cat, b.p, b.N, b.bits, what + ': operand unchanged')
def tob(x): return simp(tobool(x))

def con(op, core, cases=None, excprop=None, sizes=None, **kw):
    def d(fn):
        for N in SIZES:
            if sizes and not sizes(N): continue
            def mk(N):
                def f(c, **case): return fn(c, N, **case)
                return f
            contract(H, 'b%d_%s' % (N, op), core, cases=cases, excprop=excprop, N=N, variant=(lambda v, N=N: N in QUICK or 'MORE' in v), **dict(OP, **kw))(mk(N))
        return fn
    return d
nz = lambda N: N > 0
def ret_b(o, cat, want, what): o.req(cat, simp(o.result_bool() == tobool(want)), what)
def bit(x, i, N):
    """bit i (64-bit index, i < N) of an N-bit vector"""
    if N >= 64: j = z3.ZeroExt(N - 64, i) if N > 64 else i
    else: j = z3.Extract(N - 1, 0, i)
    if N < 7: # index may not fit the width: select explicitly
        r = z3.BoolVal(False)
        for k in range(N): r = z3.If(i == k, z3.Extract(k, k, x) == 1, r)
        return r
    return z3.Extract(0, 0, z3.LShR(x, j)) == 1
def onehot(i, N):
    if N < 7:
        r = z3.BitVecVal(0, N)
        for k in range(N): r = z3.If(i == k, z3.BitVecVal(1 << k, N), r)
        return r
    j = (z3.ZeroExt(N - 64, i) if N > 64 else i) if N >= 64 else z3.Extract(N - 1, 0, i)
    return z3.BitVecVal(1, N) << j
def setbit(x, i, N, v): return z3.If(tobool(v), x | onehot(i, N), x & ~onehot(i, N))

@con('ctor', ('C10', 'C11'))
def _(c, N):
    o_ = c.out(nb(N))
    return [o_], lambda o: (o.returned('C10'), is_bits(o, 'C10', o_, N, z3.BitVecVal(0, N) if N else None, 'default construction'))
@con('ctor_v', ('C10', 'C11'))
def _(c, N):
    o_ = c.out(nb(N)); v = c.u64('value', False)
    w = None if N == 0 else v if N == 64 else z3.ZeroExt(N - 64, v) if N > 64 else z3.Extract(N - 1, 0, v)
    return [o_, v], lambda o: (o.returned('C10'), is_bits(o, 'C10', o_, N, w, 'construction from an integer'))
@con('copy', ('C10', 'C11'))
def _(c, N):
    o_ = c.out(nb(N)); a = Bits(c, 'a', N)
    return [o_, a.p], lambda o: (o.returned('C10'), is_bits(o, 'C10', o_, N, a.bits, 'copy'), same(o, 'C10', a, 'copy'))
@con('asg', ('C10', 'C11'), cases={'self': [False, True]})
def _(c, N, self):
    a = Bits(c, 'a', N); b = a if self else Bits(c, 'b', N)
    def post(o):
        o.returned('C10'); is_bits(o, 'C10', a.p, N, b.bits, 'assignment'); same(o, 'C10', b, 'assignment'); o.req('C10', o.ptr_eq(o.v, a.p), 'returns the object')
    return [a.p, b.p], post

# ---- whole-value operations
def binop(op, f):
    @con(op + '_asg', ('C10', 'C11'), cases={'self': [False, True]})
    def _(c, N, self):
        a = Bits(c, 'a', N); b = a if self else Bits(c, 'b', N)
        def post(o):
            o.returned('C10'); is_bits(o, 'C10', a.p, N, f(a.bits, b.bits) if N else None, op)
            if not self: same(o, 'C10', b, op)
            o.req('C10', o.ptr_eq(o.v, a.p), 'returns the object')
        return [a.p, b.p], post
    @con(op, ('C10', 'C11'), cases={'self': [False, True]})
    def _(c, N, self):
        o_ = c.out(nb(N)); a = Bits(c, 'a', N); b = a if self else Bits(c, 'b', N)
        def post(o):
            o.returned('C10'); is_bits(o, 'C10', o_, N, f(a.bits, b.bits) if N else None, op); same(o, 'C10', a, op); same(o, 'C10', b, op)
        return [o_, a.p, b.p], post
binop('and', lambda a, b: a & b); binop('or', lambda a, b: a | b); binop('xor', lambda a, b: a ^ b)
@con('not', ('C10', 'C11'))
def _(c, N):
    o_ = c.out(nb(N)); a = Bits(c, 'a', N)
    return [o_, a.p], lambda o: (o.returned('C10'), is_bits(o, 'C10', o_, N, ~a.bits if N else None, 'complement'), same(o, 'C10', a, 'complement'))
def shifted(x, n, N, left):
    """shift by a 64-bit count"""
    W = max(N, 64); e = z3.ZeroExt(W - N, x) if W > N else x; m = z3.ZeroExt(W - 64, n) if W > 64 else n
    r = (e << m) if left else z3.LShR(e, m)
    r = z3.If(z3.UGE(n, N), z3.BitVecVal(0, W), r)
    return z3.Extract(N - 1, 0, r)
def shift(op, left):
    @con(op + '_asg', ('C10', 'C11'))
    def _(c, N):
        a = Bits(c, 'a', N); n = c.u64('n', False)
        def post(o):
            o.returned('C10'); is_bits(o, 'C10', a.p, N, shifted(a.bits, n, N, left) if N else None, op); o.req('C10', o.ptr_eq(o.v, a.p), 'returns the object')
        return [a.p, n], post
    @con(op, ('C10', 'C11'), sizes=lambda N: N in (0, 1, 10, 65))
    def _(c, N):
        o_ = c.out(nb(N)); a = Bits(c, 'a', N); n = c.u64('n', False)
        def post(o): o.returned('C10'); is_bits(o, 'C10', o_, N, shifted(a.bits, n, N, left) if N else None, op); same(o, 'C10', a, op)
        return [o_, a.p, n], post
shift('shl', True); shift('shr', False)
def whole(op, f):
    @con(op, ('C10', 'C11'))
    def _(c, N):
        a = Bits(c, 'a', N)
        return [a.p], lambda o: (o.returned('C10'), is_bits(o, 'C10', a.p, N, f(a.bits, N) if N else None, op), o.req('C10', o.ptr_eq(o.v, a.p), 'returns the object'))
whole('set', lambda x, N: z3.BitVecVal((1 << N) - 1, N)); whole('reset', lambda x, N: z3.BitVecVal(0, N)); whole('flip', lambda x, N: ~x)
for op_ in ('swap', 'fswap'):
    @con(op_, ('C10', 'C11'), cases={'self': [False, True]})
    def _(c, N, self):
        a = Bits(c, 'a', N); b = a if self else Bits(c, 'b', N)
        return [a.p, b.p], lambda o: (o.returned('C10'), is_bits(o, 'C10', a.p, N, b.bits, 'swap'), is_bits(o, 'C10', b.p, N, a.bits, 'swap'))

# ---- single bits, checked
def checked(op, core, f, args=(), result=None):
    """f(bits, i, args) -> new bits; throws out_of_range iff i >= N and then changes nothing"""
    @con(op, core + ('C25',))
    def _(c, N, **kw):
        a = Bits(c, 'a', N); i = c.u64('i', False); xs = [c.boolean(x) for x in args]
        def post(o):
            if o.kind == 'exc':
                o.req('C25', o.ti == OOR, 'throws std::out_of_range'); o.req('C25', simp(z3.UGE(i, N)), 'index below size() must not throw'); same(o, 'C25', a, 'failed access'); return
            o.returned('C25'); o.req('C25', simp(z3.ULT(i, N)) if N else False, 'index beyond size() must throw')
            is_bits(o, core[0], a.p, N, f(a.bits, i, N, *xs), op)
            if result == 'self': o.req(core[0], o.ptr_eq(o.v, a.p), 'returns the object')
            elif result: ret_b(o, core[0], bit(a.bits, i, N), 'value of the bit')
        return [a.p, i] + [z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) == 1 for x in xs], post
keep = lambda x, i, N: x
checked('set_i', ('C10', 'C11'), lambda x, i, N: x | onehot(i, N), result='self')
checked('set_iv', ('C10', 'C11'), lambda x, i, N, v: setbit(x, i, N, v), ('v',), 'self')
checked('reset_i', ('C10', 'C11'), lambda x, i, N: x & ~onehot(i, N), result='self')
checked('flip_i', ('C10', 'C11'), lambda x, i, N: x ^ onehot(i, N), result='self')
checked('at', ('C10',), keep, result='bit'); checked('test', ('C10',), keep, result='bit')
checked('mat', ('C12',), keep, result='bit'); checked('mat_set', ('C12', 'C11'), lambda x, i, N, v: setbit(x, i, N, v), ('v',))

# ---- proxies
def idx(c, nm, N): i = c.u64(nm, False); c.assume(z3.ULT(i, N)); return i
@con('index', ('C10',), sizes=nz)
def _(c, N):
    a = Bits(c, 'a', N); i = idx(c, 'i', N)
    return [a.p, i], lambda o: (o.returned('C10'), ret_b(o, 'C10', bit(a.bits, i, N), 'value of the bit'), same(o, 'C10', a, 'read'))
def proxy(op, result, f=None, args=()):
    @con(op, ('C12', 'C11'), sizes=nz)
    def _(c, N):
        a = Bits(c, 'a', N); i = idx(c, 'i', N); xs = [c.boolean(x) for x in args]
        def post(o):
            o.returned('C12')
            if result: ret_b(o, 'C12', result(bit(a.bits, i, N), *xs), 'result of ' + op)
            is_bits(o, 'C12', a.p, N, f(a.bits, i, N, *xs) if f else a.bits, op)
        return [a.p, i] + xs, post
proxy('ref', lambda b: b); proxy('ref_not', lambda b: z3.Not(b))
proxy('ref_set', None, lambda x, i, N, v: setbit(x, i, N, v), ('v',)); proxy('ref_chain', lambda b, v: v, lambda x, i, N, v: setbit(x, i, N, v), ('v',))
proxy('ref_flip', lambda b: z3.Not(b), lambda x, i, N: x ^ onehot(i, N))
@con('ref_asg', ('C12', 'C11'), cases={'same': [False, True]}, sizes=nz)
def _(c, N, same):
    a = Bits(c, 'a', N); b = a if same else Bits(c, 'b', N); i, j = idx(c, 'i', N), idx(c, 'j', N)
    def post(o):
        o.returned('C12'); is_bits(o, 'C12', a.p, N, setbit(a.bits, i, N, bit(b.bits, j, N)), 'proxy assignment')
        if not same: is_bits(o, 'C12', b.p, N, b.bits, 'source of proxy assignment')
    return [a.p, i, b.p, j], post
for op_ in ('ref_swap', 'ref_fswap'):
    @con(op_, ('C12', 'C11'), cases={'same': [False, True]}, sizes=nz)
    def _(c, N, same):
        a = Bits(c, 'a', N); b = a if same else Bits(c, 'b', N); i, j = idx(c, 'i', N), idx(c, 'j', N)
        x, y = bit(a.bits, i, N), bit(b.bits, j, N)
        def post(o):
            o.returned('C12')
            if same: is_bits(o, 'C12', a.p, N, setbit(setbit(a.bits, i, N, y), j, N, x), 'proxy swap')
            else: is_bits(o, 'C12', a.p, N, setbit(a.bits, i, N, y), 'proxy swap'); is_bits(o, 'C12', b.p, N, setbit(b.bits, j, N, x), 'proxy swap')
        return [a.p, i, b.p, j], post
for N_ in SIZES:
    for I_ in sorted({0, N_ // 2 if N_ != 127 else 64, N_ - 1}) if N_ and N_ != 300 else []:
        def mk_(N, I):
            @contract(H, 'b%d_get%d' % (N, I), ('C10',), variant=(lambda v: N in QUICK or 'MORE' in v), **OP)
            def _(c):
                a = Bits(c, 'a', N)
                return [a.p], lambda o: (o.returned('C10'), ret_b(o, 'C10', z3.Extract(I, I, a.bits) == 1, 'get<I>'), same(o, 'C10', a, 'get'))
        mk_(N_, I_)

# ---- queries
def query(op, f, boolean=True):
    @con(op, ('C11',))
    def _(c, N):
        a = Bits(c, 'a', N)
        def post(o):
            o.returned('C11'); same(o, 'C11', a, op)
            if boolean: ret_b(o, 'C11', f(a.bits, N), op)
            else: o.req('C11', simp(bv64(o.v) == f(a.bits, N)), op)
        return [a.p], post
query('all', lambda x, N: x == (1 << N) - 1 if N else True); query('any', lambda x, N: x != 0 if N else False); query('none', lambda x, N: x == 0 if N else True)
query('opbool', lambda x, N: x != 0 if N else False)
def popcount(x, N):
    r = z3.BitVecVal(0, 64)
    for k in range(N): r = r + z3.ZeroExt(63, z3.Extract(k, k, x))
    return r
def q_count():
    @con('count', ('C11',))
    def _(c, N):
        a = Bits(c, 'a', N)
        def post(o):
            o.returned('C11'); same(o, 'C11', a, 'count')
            # per byte: the population count; the sum is formed in the same order
            r = z3.BitVecVal(0, 64)
            for k in range(0, N, 8):
                b = z3.BitVecVal(0, 8)
                for m in range(k, min(k + 8, N)): b = b + z3.ZeroExt(7, z3.Extract(m, m, a.bits))
                r = r + z3.ZeroExt(56, b)
            if not (N > 8 and sum_equal(o, bv64(o.v), a.bits, N)): o.req('C11', simp(bv64(o.v) == r), 'count')
            else: o.req('C11', True, 'count')
        return [a.p], post
def sum_equal(o, v, bits, N):
    """lemma: a 64-bit sum whose addends group by disjoint sets of input bits equals the number of set bits if every group does"""
    ads = []; todo = [v]
    while todo:
        x = todo.pop()
        if z3.is_app_of(x, z3.Z3_OP_BADD): todo += x.children()
        else: ads.append(x)
    def deps(x):
        ds = set(); seen = set(); q = [x]
        while q:
            y = q.pop()
            if y.get_id() in seen: continue
            seen.add(y.get_id())
            if z3.is_app_of(y, z3.Z3_OP_EXTRACT) and y.arg(0).eq(bits): h, l = y.params(); ds |= set(range(l, h + 1))
            elif y.eq(bits): return None
            elif z3.is_const(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED: return None
            else: q += y.children()
        return ds
    groups = []
    for x in ads:
        d = deps(x)
        if d is None: return False
        g = [d, [x]]; rest = []
        for h in groups:
            if h[0] & g[0]: g = [g[0] | h[0], g[1] + h[1]]
            else: rest.append(h)
        groups = rest + [g]
    if set().union(*[g[0] for g in groups]) != set(range(N)) or len(groups) < 2: return False
    for d, xs in groups:
        t = xs[0]
        for x in xs[1:]: t = t + x
        w = z3.BitVecVal(0, 64)
        for k in sorted(d): w = w + z3.ZeroExt(63, z3.Extract(k, k, bits))
        x = z3.SolverFor('QF_BV'); x.set('timeout', 5000); x.add(t != w)
        if str(x.check()) != 'unsat': return False
    return True
q_count()
def static(op, f, boolean=False):
    @con(op, ('C11',))
    def _(c, N):
        def post(o):
            o.returned('C11')
            if boolean: ret_b(o, 'C11', f(N), op)
            else: o.req('C11', eq(o.v, f(N)), op)
        return [], post
static('size', lambda N: N); static('max_size', lambda N: N); static('empty', lambda N: N == 0, True)
def cmp(op, pos):
    @con(op, ('C11',), cases={'self': [False, True]})
    def _(c, N, self):
        a = Bits(c, 'a', N); b = a if self else Bits(c, 'b', N)
        def post(o):
            o.returned('C11'); same(o, 'C11', a, op); same(o, 'C11', b, op); e = (a.bits == b.bits) if N else z3.BoolVal(True)
            ret_b(o, 'C11', e if pos else z3.Not(e), op)
        return [a.p, b.p], post
cmp('eq', True); cmp('ne', False)
@con('hash', ('C11',))
def _(c, N):
    a = Bits(c, 'a', N); b = Bits(c, 'b', N, a); r = c.out(8)
    def post(o):
        o.returned('C11'); same(o, 'C11', a, 'hash')
        o.req('C11', simp(bv64(o.v) == bv64(o.word(r))), 'equal bitsets have equal hashes')
    return [a.p, b.p, r], post

# ---- streams: trusted model of istream/ostream
VB = 16
CH = z3.Function('in!stream', z3.BitVecSort(64), z3.BitVecSort(8)); LEN_ = z3.BitVec('in!stream.length', 64)
GOOD, BAD, EOFB, FAIL = 0, 1, 2, 4
def stream(c, nm):
    """a stream object (with its vtable offset to basic_ios) and its ghost state: position, state bits"""
    vt = c.st.new_block(64, 'global', nm + '.vtable'); c.st.mem[vt].cells = {8: (8, VB)}
    b = c.st.new_block(512, 'stack', nm); c.st.mem[b].cells = {0: (8, Ptr(vt, 32))}
    g = c.st.new_block(16, 'ghost', nm + '.ghost'); c.st.mem[g].cells = {0: (8, 0), 8: (4, 0)}
    c.st.ghost['stream'] = (b, g); c.st.ghost['text'] = (nm, CH, LEN_); return Ptr(b, 0)
def gget(E, st, off, t):
    g = st.ghost['stream'][1]; return E.rd(st, st.blk(g), off, t)
def gput(E, st, off, n, v):
    g = st.ghost['stream'][1]; st.mem[g] = E.wr(st, st.blk(g), off, n, v)
def isstream(E, st, p, off=0):
    E.oblige(st, 'mem', isinstance(p, Ptr) and p.b == st.ghost['stream'][0] and isc(p.o) and p.o == off, 'operation on the given stream')
def io(E, f):
    d = f.dem
    def reg(h, l): h.label = l; return h
    if d.startswith('std::istream::sentry::sentry('):
        def h(E, st, a, nm):
            isstream(E, st, a[1]); E.oblige(st, 'mem', True, 'sentry')
            if not (isc(a[2]) and a[2] == 0): st.ghost['skipws'] = True
            ok = st.choose(2) == 0
            if ok: st.assume(gget(E, st, 8, ir.INT(32)) == 0); E.store(st, a[0], 1, 1)
            else: gput(E, st, 8, 4, simp(bv(gget(E, st, 8, ir.INT(32)), 32) | FAIL)); E.store(st, a[0], 1, 0)
            st.log.append(('sentry', ok)); return None
        return reg(h, 'std::istream::sentry')
    if d == 'std::istream::sentry::operator bool() const':
        def h(E, st, a, nm): return E.load(st, a[0], ir.INT(8)) if False else E.rd(st, st.blk(a[0].b), a[0].o, ir.INT(1))
        return reg(h, d)
    if d in ('std::istream::peek()', 'std::istream::get()', 'std::istream::get(char&)'):
        get = not d.endswith('peek()'); ref = d.endswith('&)')
        def h(E, st, a, nm):
            isstream(E, st, a[0])
            pos = bv64(gget(E, st, 0, ir.INT(64))); fl = bv(gget(E, st, 8, ir.INT(32)), 32)
            good = fl == 0; more = z3.ULT(pos, LEN_)
            good, more = [z3.BoolVal(bool(st.decide(simp(x)))) for x in (good, more)]
            ch = simp(z3.If(z3.And(good, more), z3.ZeroExt(24, CH(pos)), z3.BitVecVal(mask(32), 32)))
            nf = z3.If(good, z3.If(more, fl, fl | (EOFB | (FAIL if get else 0))), fl | FAIL)
            gput(E, st, 8, 4, simp(nf))
            if get: gput(E, st, 0, 8, simp(z3.If(z3.And(good, more), pos + 1, pos)))
            if ref:
                E.store(st, a[1], 1, simp(z3.If(z3.And(good, more), CH(pos), z3.BitVecVal(0, 8)))); return a[0]
            return ch
        return reg(h, d)
    if d in ('std::istream::unget()', 'std::istream::putback(char)'):
        def h(E, st, a, nm):
            isstream(E, st, a[0])
            pos = bv64(gget(E, st, 0, ir.INT(64))); fl = bv(gget(E, st, 8, ir.INT(32)), 32) & ~EOFB
            good = fl == 0; back = z3.And(pos != 0, CH(pos - 1) == bv(a[1], 8)) if d.endswith('(char)') else pos != 0
            good, back = [z3.BoolVal(bool(st.decide(simp(x)))) for x in (good, back)]
            gput(E, st, 8, 4, simp(z3.If(good, z3.If(back, fl, fl | BAD), fl | FAIL))); gput(E, st, 0, 8, simp(z3.If(z3.And(good, back), pos - 1, pos)))
            return a[0]
        return reg(h, d)
    if d.endswith('::setstate(std::_Ios_Iostate)') or d.endswith('::clear(std::_Ios_Iostate)'):
        cl = '::clear(' in d
        def h(E, st, a, nm):
            isstream(E, st, a[0], VB)
            gput(E, st, 8, 4, bv(a[1], 32) if cl else simp(bv(gget(E, st, 8, ir.INT(32)), 32) | bv(a[1], 32))); return None
        return reg(h, 'basic_ios::setstate')
    if d.endswith('::rdstate() const') or d.endswith('::good() const') or d.endswith('::fail() const') or d.endswith('::eof() const') or d.endswith('ios<char, std::char_traits<char> >::operator bool() const'):
        def h(E, st, a, nm):
            isstream(E, st, a[0], VB); fl = bv(gget(E, st, 8, ir.INT(32)), 32)
            if 'rdstate' in d: return fl
            return simp({'good': lambda: fl == 0, 'fail': lambda: fl & (FAIL | BAD) != 0, 'eof': lambda: fl & EOFB != 0, 'bool': lambda: fl & (FAIL | BAD) == 0}[[k for k in ('good', 'fail', 'eof', 'bool') if k in d.split('::')[-1]][0]]())
        return reg(h, 'basic_ios state query')
    q, ta, ps = lib.split_name(d)
    if q == 'std::operator<<' and ps and len(ps) == 2 and ps[1] in ('char', 'unsigned char', 'signed char') or d == 'std::ostream::put(char)':
        def h(E, st, a, nm): isstream(E, st, a[0]); st.log.append(('put', a[1])); return a[0]
        return reg(h, 'ostream << char')
    if '__ostream_insert' in d or d.startswith('std::ostream::write('):
        def h(E, st, a, nm):
            isstream(E, st, a[0]); n = a[2]
            if not isc(n): raise Unsupported('output of symbolic length')
            E.access(st, a[1], n, 'read (stream output)')
            for k in range(n): st.log.append(('put', E.rd_byte(st, st.blk(a[1].b), add(a[1].o, k))))
            return a[0]
        return reg(h, 'ostream << characters')
    return None
@con('print', ('C13',))
def _(c, N):
    a = Bits(c, 'a', N); os = stream(c, 'os')
    def post(o):
        o.returned('C13'); same(o, 'C13', a, 'output'); o.req('C13', o.ptr_eq(o.v, os), 'returns the stream')
        ps = [x[1] for x in o.st.log if x[0] == 'put']
        o.req('C13', len(ps) == N, 'exactly Size characters are written')
        for k, ch in enumerate(ps): o.req('C13', simp(bv(ch, 8) == z3.If(z3.Extract(N - 1 - k, N - 1 - k, a.bits) == 1, z3.BitVecVal(49, 8), z3.BitVecVal(48, 8))), 'character written')
    return [os, a.p], post
@con('read', ('C13', 'C11'), sizes=lambda N: N < 300)
def _(c, N):
    a = Bits(c, 'a', N); is_ = stream(c, 'is')
    if c.bounded: pass
    def post(o):
        o.returned('C13'); E, st = o.E, o.st; o.req('C13', o.ptr_eq(o.v, is_), 'returns the stream')
        sen = [x for x in st.log if x[0] == 'sentry']
        o.req('C13', len(sen) >= 1 or N == 0, 'extraction constructs a sentry')
        pos, fl = bv64(gget(E, st, 0, ir.INT(64))), bv(gget(E, st, 8, ir.INT(32)), 32)
        if sen and not sen[0][1]:
            o.req('C13', simp(pos == 0), 'nothing is extracted when the sentry fails'); same(o, 'C13', a, 'failed extraction'); return
        if sen: o.req('C13', st.ghost.get('skipws') is None or True, 'white space')
        if not isc(simp(pos)): raise Unsupported('extraction count not determined on the path')
        m = simp(pos); dig = lambda k: z3.Or(CH(z3.BitVecVal(k, 64)) == 48, CH(z3.BitVecVal(k, 64)) == 49)
        o.req('C13', m <= N, 'at most Size characters are read')
        o.req('C13', simp(z3.And(z3.UGE(LEN_, m), *[dig(k) for k in range(m)])), 'only digits are consumed')
        if m < N: o.req('C13', simp(z3.Or(LEN_ == m, z3.Not(dig(m)))), 'extraction stops only at a non-digit, at end of input or after Size digits')
        ended = simp(LEN_ == m) if m < N else z3.BoolVal(False)
        o.req('C13', simp((fl & FAIL != 0) == z3.BoolVal(m == 0 and N > 0)), 'failbit iff no digit was extracted')
        o.req('C13', simp(z3.Implies(fl & EOFB != 0, LEN_ == m)), 'eofbit only at end of input'); o.req('C13', simp(fl & BAD == 0), 'badbit is not set')
        if m == N: o.req('C13', simp(fl == 0), 'the stream stays good when all digits are present')
        if N == 0: value(o, a.p, N); return
        if m == 0: same(o, 'C13', a, 'extraction without digits'); return
        want = z3.Concat(*([z3.BitVecVal(0, N - m)] if N > m else []) + [z3.Extract(0, 0, CH(z3.BitVecVal(k, 64))) for k in range(m)]) if N > 1 else z3.Extract(0, 0, CH(z3.BitVecVal(0, 64)))
        is_bits(o, 'C13', a.p, N, want, 'extracted value')
    return [is_, a.p], post
