"""Contracts of ptl::vector<E> for an arbitrary element type E (opaque operations)."""
from vcg.dsl import *
VARIANTS = [{}, {'ES': 24}, {'ES': 1}, {'TRIVIAL': 1}, {'NX': 1}, {'SCALAR': 8}, {'SCALAR': 1}, {'SCALAR': 2}]
S = 16
T = None
def setup(E, ES=16, TRIVIAL=0, NX=0, SCALAR=0):
    global T, S
    S = es = 8 if TRIVIAL else SCALAR or ES
    if SCALAR:   # an arithmetic type with its built-in operations
        n = {1: 'signed char', 2: 'short', 8: 'long'}[SCALAR]; T = Elem(n.replace(' ', '_'), S, 1, True); T.eq = lambda a, b: a == b; T.lt = lambda a, b: a < b
        T.ctor = (lambda v: v) if S == 8 else lambda v: simp(z3.SignExt(64 - 8 * S, z3.Extract(8 * S - 1, 0, bv64(v))))
        E.plain = T; E.elems = {n: T}; E.matchers.insert(0, input_copy); return
    T = Elem('E', es, 1, bool(TRIVIAL), bool(NX)); E.plain = T if TRIVIAL else None; E.elems = {'E': T}
    E.matchers.insert(0, input_copy)
def MAX(): return PTRDIFF_MAX // S
H = 'vector'
CORE = ('C01', 'C02', 'C03', 'C04', 'C05')
DEALLOC, PTRO, CAPO, SIZO = 0, 8, 16, 24

class Vec:
    """pre-state of a vector object"""
    def __init__(s, c, nm, shape):
        s.c, s.nm, s.shape = c, nm, shape
        if shape == 'null':
            s.siz = s.cap = 0; s.buf = NULL; s.de = NULL; s.blk = None
        else:
            s.siz, s.cap = c.u64(nm + '.siz'), c.u64(nm + '.cap')
            c.assume(ule(1, s.cap)); c.assume(ule(s.cap, MAX())); c.assume(ule(s.siz, s.cap))
            s.buf = c.elems(T, s.siz, nm + '.elems', 'heap', mul(s.cap, S)); s.de = c.foreign_dealloc(nm)
            c.st.mem[s.buf.b].fam = s.de.n
            s.blk = c.st.mem[s.buf.b]
        s.p = c.obj(32, {DEALLOC: (8, s.de), PTRO: (8, s.buf), CAPO: (8, s.cap), SIZO: (8, s.siz)}, nm)
        c.owners.append(s)
    def val(s, o, k):
        """pre-state value of element k"""
        if s.blk is None: return o.E.fresh('noval')
        return o.E.val_at(o.st, s.blk, mul(k, S))
    def at(s, k): return Ptr(s.buf.b, mul(k, S)) if s.blk is not None else NULL

class Post:
    """state of a vector object at exit; establishes the class invariant"""
    def __init__(s, o, p, inv=True):
        s.o, s.p = o, p
        s.de, s.buf, s.cap, s.siz = o.ptr(p, DEALLOC), o.ptr(p, PTRO), o.word(p, CAPO), o.word(p, SIZO)
        s.null = isinstance(s.buf, Ptr) and s.buf.b == 0
        if inv: s.inv()
    def inv(s):
        o, E = s.o, s.o.E
        if s.null:
            o.req('C04', eq(s.buf.o, 0), 'vector without storage has a null data pointer')
            o.req('C04', b_and(eq(s.siz, 0), eq(s.cap, 0)), 'vector without storage reports zero size and capacity')
            o.req('C05', isinstance(s.de, Ptr) and s.de.b == 0 or isinstance(s.de, Fn), 'deallocator of an empty vector is null or valid')
            return
        o.req('C05', isinstance(s.buf, Ptr) and o.st.blk(s.buf.b) is not None and o.st.blk(s.buf.b).alive, 'vector holds a released buffer')
        blk = o.st.blk(s.buf.b)
        o.req('C05', blk.kind == 'heap', 'vector buffer is heap storage')
        o.req('C04', eq(s.buf.o, 0), 'data() is the start of the buffer')
        o.req('C04', ule(s.siz, s.cap), 'size() <= capacity()')
        o.req('C04', ule(s.cap, MAX()), 'capacity() <= max_size()')
        o.req('C04', ule(mul(s.cap, S), blk.size), 'buffer has room for capacity() elements')
        i = E.fresh('off')
        l = E.life_at(o.st, blk, i)
        al = (i & (S - 1)) == 0 if S & (S - 1) == 0 else z3.URem(i, z3.BitVecVal(S, 64)) == 0
        lim = mul(s.siz, S)
        o.req('C02', z3.Implies(z3.And(tobool(ult(i, lim)), al), tobool(E.life_is(l, T.code))), 'every position below size() holds a live element')
        o.req('C02', z3.Implies(z3.And(z3.UGE(i, bv64(lim)), tobool(ult(i, blk.size))), tobool(E.life_is(l, 0))), 'no slot at or beyond size() holds a live element')
        dealloc_ok(o, 'C05', s.de, s.buf)
    def val(s, k): return s.o.E.val_at(s.o.st, s.o.st.blk(s.buf.b), mul(k, S)) if not s.null else s.o.E.fresh('noval')
    def at(s, k): return Ptr(s.buf.b, mul(k, S)) if not s.null else NULL
    def same_store(s, v):
        """buffer, deallocator and capacity are those of pre-state v"""
        o = s.o
        return b_and(o.ptr_eq(s.buf, v.buf), o.ptr_eq(s.de, v.de), eq(s.cap, v.cap))
    def is_seq(s, cat, n, f, what):
        """size is n and element k is f(k)"""
        o = s.o
        o.req(cat, eq(s.siz, n), what + ': size')
        if isc(n) and n == 0 or not o.wants(cat): return
        k = o.skolem()
        want = f(k)
        o.req(cat, b_imp(ult(k, n), eq(s.val(k), want)), what + ': element sequence')

def dealloc_ok(o, cat, de, buf):
    """calling the stored deallocator on the buffer releases exactly this buffer"""
    E = o.E; blk = o.st.blk(buf.b)
    if isinstance(de, Fn) and de.n.startswith('$'):
        o.req(cat, blk.fam == de.n, 'stored deallocator belongs to the buffer'); return
    o.req(cat, isinstance(de, Fn), 'stored deallocator is a function')
    st = o.st.clone(); st.frames = []
    nb = blk.copy(); nb.life = 'dead' if blk.life is not None else None; st.mem[buf.b] = nb
    before = {b for b, x in st.mem.items() if x.kind == 'heap' and x.alive}
    E.push(st, E.mod.funcs[de.n], [buf], None)
    def done(s2, out):
        after = {b for b, x in s2.mem.items() if x.kind == 'heap' and x.alive}
        E.oblige(s2, cat, out[0] == 'ret' and before - after == {buf.b}, 'stored deallocator releases exactly the buffer')
    E.run(st, done)

def unchanged(o, v, cat, what, moved=False):
    p = Post(o, v.p)
    o.req(cat, p.same_store(v), what + ': capacity, buffer')
    p.is_seq(cat, v.siz, lambda k: v.val(o, k), what)
    return p
def elems_unchanged(o, cat, ptr, n, pre, what):
    """n elements at ptr are alive and have their pre-state values"""
    if isc(n) and n == 0 or ptr.b == 0: return
    E = o.E; k = o.skolem(); blk = o.st.blk(ptr.b)
    off = add(ptr.o, mul(k, S))
    o.req('C02', b_imp(ult(k, n), E.life_is(E.life_at(o.st, blk, off), T.code)), what + ': still alive')
    o.req(cat, b_imp(ult(k, n), eq(E.val_at(o.st, blk, off), E.val_at(o.st, pre, off))), what + ': unchanged')
def finish(o, *vs):
    """no leak: the heap buffers alive at exit are those held by the vectors"""
    owned = set()
    for p in vs:
        if isinstance(p, Post): 
            if not p.null: owned.add(p.buf.b)
        elif isinstance(p, Ptr) and p.b: owned.add(p.b)
    o.noleak('C05', owned)
def exc_ok(o, allowed, msg='exception type'):
    o.req('C03', o.ti in allowed, msg)

# ---- arguments
def elem_arg(c, where, v):
    """(pointer to one element, pre block, value fn) outside or inside vector v"""
    if where == 'out':
        p = c.elems(T, 1, 'x'); return p
    j = c.u64('x.index'); c.assume(ult(j, v.siz)); return Ptr(v.buf.b, mul(j, S))
def range_arg(c, where, v):
    """(first, last, count, source Ptr)"""
    if where == 'none': return NULL, NULL, 0
    if where == 'out':
        n = c.u64('n'); c.assume(ule(n, MAX()))
        p = c.elems(T, n, 'src'); return p, Ptr(p.b, mul(n, S)), n
    i, j = c.u64('src.first'), c.u64('src.last'); c.assume(ule(i, j)); c.assume(ule(j, v.siz))
    return Ptr(v.buf.b, mul(i, S)), Ptr(v.buf.b, mul(j, S)), simp(j - i)
class Src:
    """remembers source elements at entry"""
    def __init__(s, c, p, n): s.p, s.n, s.blk = p, n, (c.st.mem[p.b] if p.b else None)
    def val(s, o, k=0): return o.E.val_at(o.st, s.blk, add(s.p.o, mul(k, S))) if s.blk is not None else o.E.fresh('noval')

def input_copy(E, f):
    """std::copy(single-pass iterator, back_inserter(vector)): the elements are appended by push_back, in order"""
    q, ta, ps = lib.split_name(f.dem)
    if q != 'std::copy' or ps is None or len(ps) != 3 or ps[0] != 'In' or 'back_insert_iterator<ptl::vector<%s>' % next(iter(E.elems)) not in ps[2]: return None
    def h(E, st, a, nm):
        n = lib.rng(E, st, a[0], a[1], T, 'copy')
        vp = a[2]
        rd = lambda off, t: E.rd(st, st.blk(vp.b), add(vp.o, off), t)
        E.access(st, vp, 32, 'vector in back_inserter')
        buf, cap, siz = rd(PTRO, ir.PTR), rd(CAPO, ir.INT(64)), rd(SIZO, ir.INT(64))
        if isc(n) and n == 0 or not st.decide(b_not(eq(n, 0))): return a[2]
        E.oblige(st, 'mem', isinstance(buf, Ptr) and buf.b == 0, 'back_inserter target starts empty')
        sb = E.elem_live(st, a[0], T, n, 'copy source'); sblk = st.blk(sb); so = a[0].o
        # all pushed | an element copy throws | allocation fails | too many elements; the first two also before the first element
        k = (0, 2, 3, 4)[st.choose(4)] if T.plain else st.choose(6)
        if k == 4: raise Throw('_ZTISt9bad_alloc')
        m = n
        if k == 3: st.assume(b_not(ule(n, MAX())))
        if k == 5: m = 0; k = 1
        elif k:
            m = E.fresh('pushed'); st.assume(ult(m, n)); st.assume(b_not(eq(m, 0)))
        ncap = E.fresh('cap')
        st.assume(b_and(ule(m, ncap), ule(ncap, MAX()), ule(1, ncap)))
        nb = st.new_block(mul(ncap, S), 'heap', 'pushed'); tok = '$dealloc_pushed%d' % nb
        st.mem[nb].fam = tok
        if not T.plain: st.mem[nb].life = 'dead'
        E.set_life(st, nb, 0, m, S, T.code); E.set_val(st, nb, 0, m, S, lambda off: E.val_at(st, sblk, add(off, so)))
        for off, v in ((DEALLOC, Fn(tok)), (PTRO, Ptr(nb, 0)), (CAPO, ncap), (SIZO, m)): E.store(st, Ptr(vp.b, add(vp.o, off)), 8, v)
        st.log.append(('alloc', mul(ncap, S), tok))
        if k: raise Throw('_ZTISt9bad_alloc' if k == 2 else LEN if k == 3 else USER)
        return a[2]
    h.label = 'std::copy(single-pass range, back_inserter(vector)) = repeated push_back'
    return h

# ================================================================ construction
@contract(H, 'v_ctor', CORE)
def _(c):
    o_ = c.out(32)
    def post(o):
        o.returned('C01'); p = Post(o, o_); p.is_seq('C01', 0, None, 'default construction'); finish(o, p)
        o.req('C04', eq(p.cap, 0), 'default constructed vector has no capacity')
    return [o_], post

def built(wrapper, mk, exc=(BADALLOC, LEN, USER), cases=None):
    @contract(H, wrapper, CORE, cases=cases, excprop='C03')
    def _(c, **kw):
        o_ = c.out(32)
        args, n, f, keep = mk(c, **kw)
        def post(o):
            if o.kind == 'exc':
                exc_ok(o, exc); finish(o, *[x for x in keep(o)]); return
            o.req('C03', ule(n, MAX()), 'more than max_size() elements accepted')
            p = Post(o, o_); p.is_seq('C01', n, lambda k: f(o, k), 'construction'); finish(o, p, *[x for x in keep(o)])
        return [o_] + args, post
def m_copy(c, shape):
    v = Vec(c, 's', shape)
    return [v.p], v.siz, v.val, lambda o: [unchanged(o, v, 'C01', 'source of copy')]
built('v_ctor_copy', m_copy, cases={'shape': ['null', 'heap']})
def m_range(c, where):
    f, l, n = range_arg(c, where, None); s = Src(c, f, n)
    def keep(o):
        if s.blk is not None: elems_unchanged(o, 'C01', f, n, s.blk, 'source range')
        return []
    return [f, l], n, s.val, keep
built('v_ctor_range', m_range, cases={'where': ['out', 'none']})
built('v_ctor_input', m_range, cases={'where': ['out', 'none']})
def m_il(c, where):
    a, n, f, keep = m_range(c, where); return [a[0], n], n, f, keep
built('v_ctor_il', m_il, cases={'where': ['out', 'none']})
def m_n(c):
    n = c.u64('n'); return [n], n, lambda o, k: T.defval, lambda o: []
built('v_ctor_n', m_n)
def m_nv(c):
    n = c.u64('n'); x = c.elems(T, 1, 'x'); s = Src(c, x, 1)
    def keep(o): elems_unchanged(o, 'C01', x, 1, s.blk, 'argument'); return []
    return [n, x], n, lambda o, k: s.val(o), keep
built('v_ctor_nv', m_nv)

@contract(H, 'v_ctor_move', CORE, cases={'shape': ['null', 'heap']})
def _(c, shape):
    o_ = c.out(32); v = Vec(c, 's', shape)
    def post(o):
        o.returned('C03'); p = Post(o, o_); q = Post(o, v.p)
        p.is_seq('C01', v.siz, lambda k: v.val(o, k), 'move construction')
        o.req('C05', p.same_store(v), 'move construction hands over buffer, deallocator and capacity')
        o.req('C05', q.null or q.buf.b != p.buf.b, 'moved-from vector still owns the buffer')
        finish(o, p, q)
    return [o_, v.p], post

@contract(H, 'v_dtor', CORE, cases={'shape': ['null', 'heap']})
def _(c, shape):
    v = Vec(c, 'v', shape)
    def post(o): o.returned('C03'); finish(o)
    return [v.p], post

# ================================================================ assignment
def assigned(wrapper, mk, cases, exc=(BADALLOC, LEN, USER), ret=False):
    @contract(H, wrapper, CORE, cases=cases, when=lambda **k: not (k.get('where') == 'in' and k['shape'] == 'null'), excprop='C03')
    def _(c, shape, **kw):
        v = Vec(c, 'v', shape)
        args, n, f, keep = mk(c, v, **kw)
        def post(o):
            if o.kind == 'exc':
                exc_ok(o, exc)
                if o.ti == LEN: o.req('C03', b_not(ule(n, MAX())), 'length_error although the result fits max_size()')
                p = unchanged(o, v, 'C03', 'failed assignment'); finish(o, p, *keep(o)); return
            o.req('C03', ule(n, MAX()), 'more than max_size() elements accepted')
            p = Post(o, v.p); p.is_seq('C01', n, lambda k: f(o, k), 'assignment'); 
            if ret: o.same_ptr('C01', o.v, v.p, 'assignment returns *this')
            finish(o, p, *keep(o))
        return [v.p] + args, post
SH = ['null', 'heap']
def a_copy(c, v, src):
    w = Vec(c, 's', src); return [w.p], w.siz, w.val, lambda o: [unchanged(o, w, 'C01', 'source of copy')]
assigned('v_asg_copy', a_copy, {'shape': SH, 'src': SH}, ret=True)
def a_range(c, v, where):
    f, l, n = range_arg(c, where, v); s = Src(c, f, n)
    def keep(o):
        if where == 'out': elems_unchanged(o, 'C01', f, n, s.blk, 'source range')
        return []
    return [f, l], n, s.val, keep
assigned('v_assign_range', a_range, {'shape': SH, 'where': ['out', 'in', 'none']})
assigned('v_assign_input', a_range, {'shape': SH, 'where': ['out', 'none']})
def a_mrange(c, v, where):
    f, l, n = range_arg(c, where, v); s = Src(c, f, n); return [f, l], n, s.val, lambda o: []
assigned('v_assign_mrange', a_mrange, {'shape': SH, 'where': ['out', 'in']}, exc=(BADALLOC, LEN))
def a_il(c, v, where):
    a, n, f, keep = a_range(c, v, where); return [a[0], n], n, f, keep
assigned('v_assign_il', a_il, {'shape': SH, 'where': ['out', 'none']})
assigned('v_asg_il', a_il, {'shape': SH, 'where': ['out', 'none']}, ret=True)
def a_nv(c, v, where):
    n = c.u64('n'); x = elem_arg(c, where, v); s = Src(c, x, 1)
    def keep(o):
        if where == 'out': elems_unchanged(o, 'C01', x, 1, s.blk, 'argument')
        return []
    return [n, x], n, lambda o, k: s.val(o), keep
assigned('v_assign_nv', a_nv, {'shape': SH, 'where': ['out', 'in']})

@contract(H, 'v_asg_copy', CORE, name='v_asg_copy(self)', cases={'shape': SH})
def _(c, shape):
    v = Vec(c, 'v', shape)
    def post(o):
        o.returned('C03'); p = unchanged(o, v, 'C01', 'self assignment'); o.same_ptr('C01', o.v, v.p, 'returns *this'); finish(o, p)
    return [v.p, v.p], post
@contract(H, 'v_asg_move', CORE, name='v_asg_move(self)', cases={'shape': SH})
def _(c, shape):
    v = Vec(c, 'v', shape)
    def post(o):
        o.returned('C03'); p = unchanged(o, v, 'C05', 'self move'); o.same_ptr('C01', o.v, v.p, 'returns *this'); finish(o, p)
    return [v.p, v.p], post
@contract(H, 'v_asg_move', CORE, cases={'shape': SH, 'src': SH})
def _(c, shape, src):
    v = Vec(c, 'v', shape); w = Vec(c, 's', src)
    def post(o):
        o.returned('C03'); p = Post(o, v.p); q = Post(o, w.p)
        p.is_seq('C01', w.siz, lambda k: w.val(o, k), 'move assignment')
        o.req('C05', p.same_store(w), 'move assignment hands over buffer, deallocator and capacity')
        o.req('C05', q.null or p.null or q.buf.b != p.buf.b, 'moved-from vector still owns the buffer')
        o.same_ptr('C01', o.v, v.p, 'returns *this'); finish(o, p, q)
    return [v.p, w.p], post
for w_ in ('v_swap', 'v_fswap'):
    @contract(H, w_, CORE, cases={'a': SH, 'b': SH})
    def _(c, a, b):
        v = Vec(c, 'a', a); w = Vec(c, 'b', b)
        def post(o):
            o.returned('C03'); p = Post(o, v.p); q = Post(o, w.p)
            p.is_seq('C01', w.siz, lambda k: w.val(o, k), 'swap (left)'); q.is_seq('C01', v.siz, lambda k: v.val(o, k), 'swap (right)')
            o.req('C05', b_and(p.same_store(w), q.same_store(v)), 'swap exchanges buffer, deallocator and capacity'); finish(o, p, q)
        return [v.p, w.p], post
    @contract(H, w_, CORE, name=w_ + '(self)', cases={'a': SH})
    def _(c, a):
        v = Vec(c, 'a', a)
        def post(o): o.returned('C03'); finish(o, unchanged(o, v, 'C05', 'self swap'))
        return [v.p, v.p], post

# ================================================================ growth
def inserted(wrapper, mk, cases, exc=(BADALLOC, LEN, USER), at_end=False, tmp=False, **opts):
    @contract(H, wrapper, CORE, cases=cases, **opts, when=lambda **k: not (k.get('where') == 'in' and k['shape'] == 'null'), excprop='C03')
    def _(c, shape, **kw):
        v = Vec(c, 'v', shape)
        if at_end: pos = v.siz; pargs = []
        else:
            pos = 0 if shape == 'null' else c.u64('pos'); c.assume(ule(pos, v.siz)); pargs = [pos]
        args, n, f, keep, loose = mk(c, v, **kw)
        # loose(k): pre-state position k may be left with an unspecified value (it was moved from)
        room = ule(n, sub(v.cap, v.siz))
        def post(o):
            tot = add(v.siz, n)
            fits = b_and(ule(n, MAX()), ule(v.siz, sub(MAX(), n)))
            if o.kind == 'exc':
                exc_ok(o, exc)
                if o.ti == LEN: o.req('C03', b_not(b_and(ule(n, MAX()), ule(add(v.cap, n), MAX() // 2))), 'length_error although the result is far below max_size()')
                if o.ti != USER and not tmp: o.req('C04', b_not(room), 'allocation although the result fits the capacity')
                if loose: return
                p = unchanged(o, v, 'C03', 'failed insertion'); finish(o, p, *keep(o)); return
            o.req('C03', fits, 'more than max_size() elements accepted')
            p = Post(o, v.p)
            o.req('C01', eq(p.siz, tot), 'insertion: size')
            k = o.skolem(); src = f(o, sub(k, pos))
            oldk = b_ite(ult(k, pos), k, sub(k, n), 64)
            old = v.val(o, oldk)
            isnew = b_and(b_not(ult(k, pos)), ult(sub(k, pos), n))
            want = b_ite(isnew, src, old, 64)
            cond = b_imp(ult(k, tot), eq(p.val(k), want))
            if loose: cond = b_or(b_and(b_not(isnew), loose(oldk)), cond)
            o.req('C01', cond, 'insertion: element sequence')
            o.req('C01', b_or(o.ptr_eq(o.v, p.at(pos)), b_and(p.null, o.ptr_eq(o.v, NULL))), 'insertion returns the first inserted element')
            o.req('C04', b_imp(room, p.same_store(v)), 'insertion that fits the capacity must not reallocate')
            finish(o, p, *keep(o))
        return [v.p] + pargs + args, post
def i_x(c, v, where):
    x = elem_arg(c, where, v); s = Src(c, x, 1)
    def keep(o):
        if where == 'out': elems_unchanged(o, 'C01', x, 1, s.blk, 'argument')
        return []
    return [x], 1, lambda o, k: s.val(o), keep, None
def i_mx(c, v, where):
    x = elem_arg(c, where, v); s = Src(c, x, 1)
    return [x], 1, lambda o, k: s.val(o), lambda o: [], (None if where == 'out' else lambda k: eq(mul(k, S), x.o))
def i_args(c, v):
    a = c.u64('arg', False); return [a], 1, lambda o, k: T.ctor(a), lambda o: [], None
def i_args2(c, v, where):
    a = c.u64('arg', False); x = elem_arg(c, where, v); s = Src(c, x, 1)
    return [a, x], 1, lambda o, k: T.ctor(lib.comb(a, bv64(s.val(o)))), lambda o: [], None
def i_nv(c, v, where):
    x = elem_arg(c, where, v); s = Src(c, x, 1); n = c.u64('n')
    return [n, x], n, lambda o, k: s.val(o), lambda o: [], None
def i_range(c, v, where):
    a, n, f, keep = a_range(c, v, where); return a, n, f, keep, None
def i_mrange(c, v, where):
    a, n, f, keep = a_mrange(c, v, where); return a, n, f, keep, None
def i_il(c, v, where):
    a, n, f, keep = a_il(c, v, where); return a, n, f, keep, None
IO = ['out', 'in']
NX = (BADALLOC, LEN)
inserted('v_push', i_x, {'shape': SH, 'where': IO}, at_end=True)
inserted('v_push_move', i_mx, {'shape': SH, 'where': IO}, exc=NX, at_end=True)
inserted('v_emplace_back', i_args, {'shape': SH}, at_end=True)
class_type = lambda v: 'SCALAR' not in v
inserted('v_emplace_back2', i_args2, {'shape': SH, 'where': IO}, at_end=True, variant=class_type)
inserted('v_insert', i_x, {'shape': SH, 'where': IO})
inserted('v_insert_move', i_mx, {'shape': SH, 'where': IO}, exc=NX)
inserted('v_insert_nv', i_nv, {'shape': SH, 'where': IO})
inserted('v_insert_range', i_range, {'shape': SH, 'where': ['out', 'in', 'none']})
inserted('v_insert_mrange', i_mrange, {'shape': SH, 'where': ['out']}, exc=NX)
inserted('v_insert_input', i_range, {'shape': SH, 'where': ['out', 'none']}, tmp=True)
inserted('v_insert_il', i_il, {'shape': SH, 'where': ['out', 'none']})
inserted('v_emplace', i_args, {'shape': SH})
inserted('v_emplace2', i_args2, {'shape': SH, 'where': IO}, variant=class_type)

# ================================================================ resize, reserve, shrink
def resized(wrapper, mk, cases):
    @contract(H, wrapper, CORE, cases=cases, when=lambda **k: not (k.get('where') == 'in' and k['shape'] == 'null'), excprop='C03')
    def _(c, shape, **kw):
        v = Vec(c, 'v', shape); n = c.u64('n')
        args, val = mk(c, v, **kw)
        def post(o):
            if o.kind == 'exc':
                exc_ok(o, (BADALLOC, LEN, USER))
                if o.ti == LEN: o.req('C03', b_not(ule(n, MAX())), 'length_error although the size is allowed')
                if o.ti != USER: o.req('C04', b_not(ule(n, v.cap)), 'allocation although the size fits the capacity')
                finish(o, unchanged(o, v, 'C03', 'failed resize')); return
            o.req('C03', ule(n, MAX()), 'more than max_size() elements accepted')
            p = Post(o, v.p)
            p.is_seq('C01', n, lambda k: b_ite(ult(k, v.siz), v.val(o, k), val(o), 64), 'resize')
            o.req('C04', b_imp(ule(n, v.cap), p.same_store(v)), 'resize within the capacity must keep buffer and capacity')
            finish(o, p)
        return [v.p, n] + args, post
resized('v_resize', lambda c, v: ([], lambda o: T.defval), {'shape': SH})
def r_v(c, v, where):
    x = elem_arg(c, where, v); s = Src(c, x, 1); return [x], s.val
resized('v_resize_v', r_v, {'shape': SH, 'where': IO})

@contract(H, 'v_reserve', CORE, cases={'shape': SH}, excprop='C03')
def _(c, shape):
    v = Vec(c, 'v', shape); n = c.u64('n')
    def post(o):
        if o.kind == 'exc':
            exc_ok(o, (BADALLOC, LEN))
            if o.ti == LEN: o.req('C03', b_not(ule(n, MAX())), 'length_error although the capacity is allowed')
            o.req('C04', b_not(ule(n, v.cap)), 'allocation although the capacity suffices')
            finish(o, unchanged(o, v, 'C03', 'failed reserve')); return
        p = Post(o, v.p); p.is_seq('C01', v.siz, lambda k: v.val(o, k), 'reserve')
        o.req('C04', ule(n, p.cap), 'reserve(n) makes capacity() at least n')
        o.req('C04', ule(v.cap, p.cap), 'reserve never lowers the capacity')
        o.req('C04', b_imp(ule(n, v.cap), p.same_store(v)), 'reserve within the capacity must not reallocate'); finish(o, p)
    return [v.p, n], post
@contract(H, 'v_shrink', CORE, cases={'shape': SH})
def _(c, shape):
    v = Vec(c, 'v', shape); c.shrink_may_fail = True
    def post(o):
        o.returned('C03'); p = Post(o, v.p); p.is_seq('C01', v.siz, lambda k: v.val(o, k), 'shrink_to_fit')
        o.req('C04', ule(p.cap, b_ite(ult(v.cap, 10), 10, v.cap, 64)), 'shrink_to_fit enlarges the capacity'); finish(o, p)
    return [v.p], post
@contract(H, 'v_clear', CORE, cases={'shape': SH})
def _(c, shape):
    v = Vec(c, 'v', shape)
    def post(o):
        o.returned('C03'); p = Post(o, v.p); p.is_seq('C01', 0, None, 'clear'); o.req('C04', p.same_store(v), 'clear keeps the capacity'); finish(o, p)
    return [v.p], post
@contract(H, 'v_pop', CORE)
def _(c):
    v = Vec(c, 'v', 'heap'); c.assume(ult(0, v.siz))
    def post(o):
        o.returned('C03'); p = Post(o, v.p); p.is_seq('C01', sub(v.siz, 1), lambda k: v.val(o, k), 'pop_back'); o.req('C04', p.same_store(v), 'pop_back keeps the capacity'); finish(o, p)
    return [v.p], post
def erased(wrapper, one):
    @contract(H, wrapper, CORE, cases={'shape': ['heap'] if one else SH})
    def _(c, shape):
        v = Vec(c, 'v', shape)
        if shape == 'null': a = b = 0
        else: a, b = c.u64('first'), c.u64('last')
        if one: b = add(a, 1); c.assume(ult(a, v.siz))
        c.assume(ule(a, b)); c.assume(ule(b, v.siz))
        n = sub(b, a)
        def post(o):
            o.returned('C03'); p = Post(o, v.p)
            p.is_seq('C01', sub(v.siz, n), lambda k: v.val(o, b_ite(ult(k, a), k, add(k, n), 64)), 'erase')
            o.req('C04', p.same_store(v), 'erase keeps the capacity')
            o.same_ptr('C01', o.v, p.at(a), 'erase returns the position after the erased elements'); finish(o, p)
        return [v.p, a] + ([] if one else [b]), post
erased('v_erase', True); erased('v_erase_r', False)

# ================================================================ element access
def accessor(wrapper, index, core, checked=False, shapes=SH, val=None):
    @contract(H, wrapper, core, cases={'shape': shapes})
    def _(c, shape):
        v = Vec(c, 'v', shape)
        if not checked and index != 'any' and shape == 'heap': c.assume(ult(0, v.siz))
        i = c.u64('i', False) if index == 'i' else None
        if index == 'i' and not checked: c.assume(ult(i, v.siz))
        def post(o):
            if o.kind == 'exc' and checked:
                o.req('C25', o.ti == OOR, 'at throws std::out_of_range')
                o.req('C25', b_not(ult(i, v.siz)), 'at throws although the element exists')
                unchanged(o, v, 'C25', 'failed at'); return
            o.returned(core[0])
            if checked: o.req('C25', ult(i, v.siz), 'at beyond size() must throw')
            unchanged(o, v, core[0], 'element access')
            k = val(v, i)
            o.req(core[0], o.ptr_eq(o.v, v.at(k)), 'designates the requested element')
        return [v.p] + ([i] if i is not None else []), post
for w_ in ('v_index', 'v_cindex'): accessor(w_, 'i', ('C01',), shapes=['heap'], val=lambda v, i: i)
for w_ in ('v_at', 'v_cat'): accessor(w_, 'i', ('C25',), True, val=lambda v, i: i)
for w_ in ('v_front', 'v_cfront'): accessor(w_, '', ('C01',), shapes=['heap'], val=lambda v, i: 0)
for w_ in ('v_back', 'v_cback'): accessor(w_, '', ('C01',), shapes=['heap'], val=lambda v, i: sub(v.siz, 1))
for w_ in ('v_data', 'v_cdata'): accessor(w_, 'any', ('C01',), val=lambda v, i: 0)
for w_ in ('v_begin', 'v_cbegin', 'v_cbegin2', 'v_rend', 'v_crend', 'v_crend2'): accessor(w_, 'any', ('C24',), val=lambda v, i: 0)
for w_ in ('v_end', 'v_cend', 'v_cend2', 'v_rbegin', 'v_crbegin', 'v_crbegin2'): accessor(w_, 'any', ('C24',), val=lambda v, i: v.siz)
def query(wrapper, f):
    @contract(H, wrapper, ('C04',), cases={'shape': SH})
    def _(c, shape):
        v = Vec(c, 'v', shape)
        def post(o):
            o.returned('C04'); unchanged(o, v, 'C04', 'query'); f(o, v)
        return [v.p], post
query('v_size', lambda o, v: o.req('C04', eq(o.v, v.siz), 'size()'))
query('v_capacity', lambda o, v: o.req('C04', eq(o.v, v.cap), 'capacity()'))
query('v_empty', lambda o, v: o.req('C04', simp(tobool(o.result_true()) == tobool(eq(v.siz, 0))), 'empty()'))
@contract(H, 'v_max_size', ('C04',))
def _(c):
    def post(o): o.returned('C04'); o.req('C04', eq(o.v, MAX()), 'max_size()')
    return [], post

# ================================================================ comparisons
def compared(wrapper, rel):
    @contract(H, wrapper, ('C26',), cases={'a': SH, 'b': SH + ['same']})
    def _(c, a, b):
        v = Vec(c, 'a', a); w = v if b == 'same' else Vec(c, 'b', b)
        def post(o):
            o.returned('C26'); E, st = o.E, o.st
            unchanged(o, v, 'C26', 'comparison'); unchanged(o, w, 'C26', 'comparison')
            def eqs(): 
                return b_and(eq(v.siz, w.siz), lib.all_equal(E, st, v.blk, 0, w.blk, 0, v.siz, T) if v.blk and w.blk else b_and(eq(v.siz, 0), eq(w.siz, 0)))
            def less(x, y):
                if x.blk is None: return b_not(eq(y.siz, 0))
                if y.blk is None: return False
                return lib.lex_less(E, st, x.blk, 0, x.siz, y.blk, 0, y.siz, T)
            want = {'==': eqs, '!=': lambda: b_not(eqs()), '<': lambda: less(v, w), '>': lambda: less(w, v),
                    '<=': lambda: b_not(less(w, v)), '>=': lambda: b_not(less(v, w))}[rel]()
            o.req('C26', simp(tobool(o.result_true()) == tobool(want)), 'result of vector ' + rel)
        return [v.p, w.p], post
for w_, r_ in (('v_eq', '=='), ('v_ne', '!='), ('v_lt', '<'), ('v_gt', '>'), ('v_le', '<='), ('v_ge', '>=')): compared(w_, r_)
