"""Contracts of ptl::array<T, N> and ptl::tuple<Ts...>."""
from vcg.dsl import *
from .slots import *
H = 'seq'
VARIANTS = [{'N': 0}, {'N': 1, 'PS': 8}, {'N': 3}, {'N': 5, 'PS': 16}, {'N': 3, 'ES': 24, 'NX': 1, 'PS': 2}]
VARIANTS_THOROUGH = [{'N': n} for n in range(0, 9)] + [{'N': 3, 'ES': 1, 'FS': 3}, {'N': 4, 'ES': 24, 'FS': 1, 'PS': 1}, {'N': 3, 'ES': 24, 'NX': 1, 'PS': 2}, {'N': 5, 'PS': 16}, {'N': 1, 'PS': 8}]
T = U = PL = None; SZ = 16; FZ = 8; N = 3
ASSUMPTIONS = ['array is verified for the listed sizes N (every element value and index symbolic); tuple for the listed element lists']
def setup(E, ES=16, FS=8, N=3, NX=0, PS=4):
    global T, U, SZ, FZ, PL
    SZ, FZ = ES, FS; globals()['N'] = N
    T = Elem('E', ES, 1, nothrow=bool(NX)); U = Elem('F', FS, 2, nothrow=bool(NX)); E.elems = {'E': T, 'F': U}; PL = Elem('P', PS, 3); E.plains = {'P': PL}
def con(name, core, cases=None, nm=None, **kw): return contract(H, name, core, name=nm, cases=cases, **kw)
KIND = {'e': lambda: Opaque(T), 'i': lambda: INT, 'F': lambda: Opaque(U), 'c': lambda: Int(8), 'l': lambda: Int(64), 'k': lambda: Plain(PL)}
class Agg:
    """an object made of slots at fixed offsets"""
    def __init__(s, c, cat, slots, size, nm, live=True):
        s.cat, s.slots, s.size, s.c = cat, slots, size, c
        b = c.st.new_block(size, 'stack', nm); c.st.mem[b].life = 'dead'; s.p = Ptr(b, 0)
        s.v = [k.put(c, s.at(i), '%s.%d' % (nm, i)) for i, (k, o) in enumerate(slots)] if live else None
        if nm and live and not slots: c.st.mem[b].cells = {0: (8, NULL)} if size == 8 else {}
        s.pre = c.st.mem[b]
    def at(s, i): return Ptr(s.p.b, s.slots[i][1])
    def same(s, o, vals, what, cat=None):
        """every element is alive and has the given value (None: unspecified)"""
        for i, (k, off) in enumerate(s.slots):
            if k.opaque: o.req((cat or s.cat), k.live(o, s.at(i)), '%s: element %d is alive' % (what, i))
            if vals[i] is not None: o.req(cat or s.cat, k.eq(k.get(o, s.at(i)), vals[i]), '%s: element %d' % (what, i))
        s.onlylife(o, what)
    def onlylife(s, o, what):
        j = o.skolem('slot')
        offs = [(off, k.size) for k, off in s.slots if k.opaque]
        o.req(s.cat, b_imp(ult(j, s.size), b_imp(b_and(*[b_not(ult(sub(j, off), z)) for off, z in offs]) if offs else True, o.E.life_is(o.E.life_at(o.st, o.st.blk(s.p.b), j), 0))), what + ': no element elsewhere')
    def keep(s, o, what='operand', cat=None): s.same(o, s.v, what + ' unchanged', cat)
    def none(s, o, what):
        j = o.skolem('slot'); o.req(s.cat, b_imp(ult(j, s.size), o.E.life_is(o.E.life_at(o.st, o.st.blk(s.p.b), j), 0)), what + ': nothing is left alive')
def arr(P):
    def mk(c, nm, live=True):
        k = KIND[P](); return Agg(c, 'C22', [(k, k.size * i) for i in range(N)], k.size * N if N else 8, nm, live)
    mk.cat = 'C22'; return mk
TUPS = {'p': 'eFi', 'o': 'e', 'z': '', 'q': 'icel', 'k2': 'ki'}
def tup(P):
    def mk(c, nm, live=True):
        off = 0; sl = []
        for ch in reversed(TUPS[P]): k = KIND[ch](); sl.insert(0, (k, off)); off += k.size
        return Agg(c, 'C23', sl, max(off, 1), nm, live)
    mk.cat = 'C23'; return mk
def values(o, kinds, ptrs): return [k.get(o, p) for k, p in zip(kinds, ptrs)]
def uthrow(o, cat, ok=True): o.req(cat, b_and(ok, o.ti == USER), 'only an element operation may fail')
def quiet(o, cat): o.returned(cat); o.req(cat, not any(x[0] == 'alloc' for x in o.st.log), 'never allocates')

# ---------------------------------------------------------------- operations common to both
def lex(a, b, o, tup):
    r = (len(a.v) < len(b.v))
    for (k, _), x, y in reversed(list(zip(a.slots, a.v, b.v))):
        lt, gt = tobool(k.rel('<', x, y)), tobool(k.rel('<', y, x)); r = z3.Or(lt, z3.And(z3.Not(gt), tobool(r)))
    return r
def alleq(a, b): return b_and(*[k.rel('==', x, y) for (k, _), x, y in zip(a.slots, a.v, b.v)]) if a.slots else True
RELS = {'eq': lambda o, a, b: alleq(a, b), 'ne': lambda o, a, b: b_not(alleq(a, b)), 'lt': lambda o, a, b: lex(a, b, o, 0), 'gt': lambda o, a, b: lex(b, a, o, 0),
        'le': lambda o, a, b: b_not(lex(b, a, o, 0)), 'ge': lambda o, a, b: b_not(lex(a, b, o, 0))}
def common(P, mk, vs=None):
    cat = mk.cat; core = (cat,); kw = {'variant': vs} if vs else {}
    @con(P + '_copy', core, **kw)
    def _(c):
        x = mk(c, 'x', False); a = mk(c, 'a')
        def post(o):
            a.keep(o)
            if o.kind == 'exc': uthrow(o, cat); x.none(o, 'failed copy'); return
            quiet(o, cat); x.same(o, a.v, 'copy')
        return [x.p, a.p], post
    @con(P + '_move', core, **kw)
    def _(c):
        x = mk(c, 'x', False); a = mk(c, 'a')
        def post(o): quiet(o, cat); x.same(o, a.v, 'move'); a.same(o, [None if k.opaque else v for (k, _), v in zip(a.slots, a.v)], 'moved-from')
        return [x.p, a.p], post
    for mv in (False, True):
        def asg(mv):
            @con(P + ('_asg_m' if mv else '_asg'), core, cases={'self': [0, 1]}, **kw)
            def _(c, self):
                x = mk(c, 'x'); a = x if self else mk(c, 'a')
                def post(o):
                    if o.kind == 'exc': uthrow(o, cat, not mv); x.same(o, [None] * len(x.v), 'failed assignment'); (self or a.keep(o)); return
                    quiet(o, cat); o.req(cat, o.ptr_eq(o.v, x.p), 'result designates the right object')
                    if mv and self: x.same(o, [None if k.opaque else v for (k, _), v in zip(a.slots, a.v)], 'self-move'); return
                    x.same(o, a.v, 'assignment')
                    if mv: a.same(o, [None if k.opaque else v for (k, _), v in zip(a.slots, a.v)], 'moved-from')
                    elif not self: a.keep(o)
                return [x.p, a.p], post
        asg(mv)
    @con(P + '_dtor', core, **kw)
    def _(c):
        x = mk(c, 'x')
        def post(o): quiet(o, cat); x.none(o, 'destruction')
        return [x.p], post
    for f_ in ('_swap', '_fswap'):
        @con(P + f_, core, cases={'self': [0, 1]}, when=(lambda self: not self) if P in 'e' or cat == 'C23' else None, **kw)
        def _(c, self):
            x = mk(c, 'x'); a = x if self else mk(c, 'a')
            def post(o): quiet(o, cat); x.same(o, a.v, 'swap'); a.same(o, x.v, 'swap')
            return [x.p, a.p], post
    for r_ in RELS:
        def cmp(rel):
            @con(P + '_' + rel, core, cases={'self': [0, 1]}, **kw)
            def _(c, self):
                x = mk(c, 'x'); a = x if self else mk(c, 'a')
                def post(o):
                    for j in range(len(x.slots)): o.st.add_term(z3.BitVecVal(j, 64))
                    quiet(o, cat); x.keep(o); a.keep(o); ret_bool(o, cat, RELS[rel](o, x, a), 'result of ' + rel)
                return [x.p, a.p], post
        cmp(r_)

# ---------------------------------------------------------------- array
pos = lambda v: v.get('N', 3) > 0
for P_ in ('e', 'i', 'k'):
    common(P_, arr(P_))
    def array(P):
        mk = arr(P); core = ('C22',); CL = ('C22', 'C27')
        K = KIND[P]
        @con(P + '_sizeof', ('C27',))
        def _(c): return [], lambda o: o.req('C27', eq(o.v, K().size * N if N else 8), 'an array is exactly its elements')
        for n_ in ('_max_size', '_tsize'):
            @con(P + n_, core)
            def _(c): return [], lambda o: o.req('C22', eq(o.v, N), 'size')
        @con(P + '_size', core)
        def _(c): x = mk(c, 'x'); return [x.p], lambda o: (quiet(o, 'C22'), o.req('C22', eq(o.v, N), 'size()'), x.keep(o))
        @con(P + '_empty', core)
        def _(c): x = mk(c, 'x'); return [x.p], lambda o: (quiet(o, 'C22'), ret_bool(o, 'C22', N == 0, 'empty()'), x.keep(o))
        def elem(name, idx, core_=core, vs=pos):
            @con(P + name, core_, **({'variant': vs} if vs else {}))
            def _(c):
                x = mk(c, 'x')
                def post(o): quiet(o, core_[0]); x.keep(o, cat=','.join(core_)); o.req(','.join(core_), o.ptr_eq(o.v, Ptr(x.p.b, K().size * idx()) if N else NULL), 'designates the right element')
                return [x.p], post
        for n_ in ('_data', '_cdata'): elem(n_, lambda: 0, CL, None)
        for n_ in ('_begin', '_cbegin', '_cbegin2', '_rend', '_crend', '_crend2'): elem(n_, lambda: 0, ('C24', 'C22'), None)
        for n_ in ('_end', '_cend', '_cend2', '_rbegin', '_crbegin', '_crbegin2'): elem(n_, lambda: N, ('C24', 'C22'), None)
        for n_ in ('_front', '_cfront', '_get_first', '_cget_first'): elem(n_, lambda: 0)
        for n_ in ('_back', '_cback', '_get_last', '_cget_last', '_mget_last', '_cmget_last'): elem(n_, lambda: N - 1)
        for n_ in ('_index', '_cindex'):
            @con(P + n_, core, variant=pos)
            def _(c):
                x = mk(c, 'x'); i = c.u64('i', False); c.assume(ult(i, N))
                def post(o): quiet(o, 'C22'); x.keep(o); o.req('C22', o.ptr_eq(o.v, Ptr(x.p.b, mul(i, K().size))), 'designates element i')
                return [x.p, i], post
        for n_ in ('_at', '_cat'):
            @con(P + n_, ('C22', 'C25'))
            def _(c):
                x = mk(c, 'x'); i = c.u64('i', False)
                def post(o):
                    x.keep(o, cat='C22,C25')
                    if o.kind == 'exc': o.req('C22,C25', b_and(o.ti == OOR, b_not(ult(i, N))), 'at() throws std::out_of_range exactly beyond size()'); return
                    quiet(o, 'C22,C25'); o.req('C25', ult(i, N), 'at() beyond size() must throw'); o.req('C22,C25', o.ptr_eq(o.v, Ptr(x.p.b, mul(i, K().size))), 'designates element i')
                return [x.p, i], post
        @con(P + '_types', core, variant=pos)
        def _(c): return [], lambda o: ret_bool(o, 'C22', True, 'get<I> has the constness and value category of the array')
        def built(name, n, mk_args, vs):
            @con(P + name, CL, variant=vs)
            def _(c):
                x = mk(c, 'x', False); args, vals, keep, throws = mk_args(c)
                def post(o):
                    if o.kind == 'exc': uthrow(o, 'C22', K().throws); x.none(o, 'failed construction'); return
                    quiet(o, 'C22'); x.same(o, vals + [K().default()] * (N - n), 'construction'); keep(o)
                    if not N: o.req('C22', o.ptr_eq(o.ptr(x.p), NULL), 'the empty array has a null data pointer')
                return [x.p] + args, post
        def one(mv):
            def f(c): p, v = new(c, K(), 'a'); return [p], [v], (lambda o: o.req('C22', K().live(o, p) if mv and K().opaque else b_and(K().live(o, p), K().eq(K().get(o, p), v)), 'argument')), True
            return f
        built('_ctor', 0, lambda c: ([], [], lambda o: None, True), lambda v: True)
        for n_, mv in (('_ctor_1', 0), ('_ctor_1l', 0), ('_ctor_1m', 1)): built(n_, 1, one(mv), pos)
        def three(c):
            ps = [new(c, K(), 'a%d' % j) for j in range(3)]
            if P == 'i': s = c.scalar('c', 16); ps[2] = (s, E_sext(s))
            def keep(o):
                for j, (p, v) in enumerate(ps):
                    if not (P == 'i' and j == 2): o.req('C22', K().live(o, p) if P == 'e' and j == 1 else b_and(K().live(o, p), K().eq(K().get(o, p), v)), 'argument')
            return [p for p, v in ps], [v for p, v in ps], keep, True
        built('_ctor_3', 3, three, lambda v: v.get('N', 3) >= 3)
        if P == 'e':
            def guide(c):
                ps = [new(c, K(), 'a%d' % j) for j in range(3)]
                return [p for p, v in ps], [v for p, v in ps], (lambda o: [o.req('C22', b_and(K().live(o, p), K().eq(K().get(o, p), v)), 'argument') for p, v in ps]), True
            built('_guide', 3, guide, lambda v: v.get('N', 3) == 3)
            @con('e_bind', core, variant=lambda v: v.get('N', 3) == 3, cases={'i': [0, 1, 2]})
            def _(c, i):
                x = mk(c, 'x')
                def post(o): quiet(o, 'C22'); x.keep(o); o.req('C22', o.ptr_eq(o.v, x.at(i)), 'structured binding designates element i')
                return [x.p, i], post
        @con(P + '_fill', core, cases={'arg': ['out', 'in']}, when=None)
        def _(c, arg):
            x = mk(c, 'x')
            if arg == 'in' and N: p, v = x.at(N // 2), x.v[N // 2]
            else: p, v = new(c, K(), 'e')
            def post(o):
                if o.kind == 'exc': uthrow(o, 'C22', K().throws); x.same(o, [None] * N, 'failed fill'); return
                quiet(o, 'C22'); x.same(o, [v] * N, 'fill')
                if arg == 'out': o.req('C22', b_and(K().live(o, p), K().eq(K().get(o, p), v)), 'argument unchanged')
            return [x.p, p], post
    array(P_)
def E_sext(s): return z3.SignExt(16, s)

# ---------------------------------------------------------------- tuple
once = lambda v: v.get('N', 3) == 3
for P_ in TUPS:
    common(P_, tup(P_), once)
    def tuple_(P):
        mk = tup(P)
        @con(P + '_sizeof', ('C27',), variant=once)
        def _(c): return [], lambda o: o.req('C27', eq(o.v, max(1, sum(KIND[ch]().size for ch in TUPS[P]))), 'a tuple packs its elements without padding')
        @con(P + '_tsize', ('C23',), variant=once)
        def _(c): return [], lambda o: o.req('C23', eq(o.v, len(TUPS[P])), 'tuple_size')
        for i in range(len(TUPS[P])):
            for n_ in ('get', 'cget', 'mget', 'cmget'):
                def g(i, n):
                    @con('%s_%s%d' % (P, n, i), ('C23', 'C27'), variant=once)
                    def _(c):
                        x = mk(c, 'x')
                        def post(o): quiet(o, 'C23'); x.keep(o); o.req('C23,C27', o.ptr_eq(o.v, x.at(i)), 'get<%d> designates exactly element %d' % (i, i))
                        return [x.p], post
                g(i, n_)
            @con('%s_types%d' % (P, i), ('C23',), variant=once)
            def _(c): return [], lambda o: ret_bool(o, 'C23', True, 'get<I> has the constness and value category of the tuple')
    tuple_(P_)
def tbuilt(P, name, mk_args):
    mk = tup(P)
    @con(name, ('C23', 'C27'), variant=once)
    def _(c):
        x = mk(c, 'x', False); args, vals, keep = mk_args(c)
        def post(o):
            if o.kind == 'exc': uthrow(o, 'C23'); x.none(o, 'failed construction'); return
            quiet(o, 'C23'); x.same(o, vals, 'construction'); keep(o)
        return [x.p] + args, post
def objs(spec, conv=()):
    """spec: kind letters; upper index in `conv`: passed as moved object (m), value (v) or constant reference"""
    def f(c):
        args, vals, ks = [], [], []
        for j, ch in enumerate(spec):
            how = conv[j] if conv else 'c'; k = KIND[ch]()
            if how == 'v': v = c.scalar('a%d' % j, k.size * 8); args.append(v); vals.append(v)
            elif how == 's': v = c.scalar('a%d' % j, 16); args.append(v); vals.append(E_sext(v))
            else: p, v = new(c, k, 'a%d' % j); args.append(p); vals.append(v); ks.append((k, p, v, how))
        def keep(o):
            for k, p, v, how in ks: o.req('C23', k.live(o, p) if how == 'm' and k.opaque else b_and(k.live(o, p), k.eq(k.get(o, p), v)), 'argument')
        return args, vals, keep
    return f
tbuilt('z', 'z_ctor', objs('')); tbuilt('o', 'o_ctor_c', objs('e')); tbuilt('o', 'o_ctor_m', objs('e', 'm'))
tbuilt('p', 'p_ctor_c', objs('eFi')); tbuilt('p', 'p_ctor_m', objs('eFi', 'mmm')); tbuilt('p', 'p_ctor_x', objs('eFi', 'cms')); tbuilt('p', 'p_guide', objs('eFi', 'ccv'))
tbuilt('q', 'q_ctor', objs('icel', 'vvcv'))
@con('p_bind', ('C23',), cases={'i': [0, 1, 2]}, variant=once)
def _(c, i):
    x = tup('p')(c, 'x')
    def post(o): quiet(o, 'C23'); x.keep(o); o.req('C23', o.ptr_eq(o.v, x.at(i)), 'structured binding designates element i')
    return [x.p, i], post
