"""Contracts of ptl::string: arbitrary lengths, positions and contents; small and heap representation."""
from vcg.dsl import *
H = 'string'
SSO = 22
MAXS = PTRDIFF_MAX - 1
SH = ['sso', 'heap']
ED = ('C05', 'C06', 'C07', 'C08')
CP = ('C05', 'C06', 'C07', 'C08', 'C09')
ASSUMPTIONS = ['std::copy(single-pass range, back_inserter(string)) is repeated push_back (push_back itself is verified)',
               'std::rotate over characters, memcmp/memmove/memset and std::_Hash_bytes/__ostream_insert behave as the standard library documents']
def weight(con, case): return 2 * ('replace' in con.name) + (case.get('where') == 'in') + (case.get('shape') == 'heap')
def setup(E):
    E.matchers.insert(0, input_copy); E.matchers.insert(0, chars)

class Str:
    """pre-state of a string object"""
    def __init__(s, c, nm, shape):
        s.c, s.nm, s.shape = c, nm, shape
        f = z3.Function('in!' + nm, z3.BitVecSort(64), z3.BitVecSort(8))
        base = lambda off: f(bv64(off))
        if shape == 'sso':
            b = c.scalar(nm + '.siz', 8); c.assume(z3.ULE(b, SSO)); s.siz = z3.ZeroExt(56, b); c.E.wide[b.get_id()] = (b, s.siz); s.cap = SSO; s.de = NULL
            if c.bounded: c.assume(z3.ULE(b, c.bounded))
            s.p = c.obj(32, {0: (8, NULL), 8: (1, b)}, nm); blk = c.st.mem[s.p.b]; blk.base = base; s.data = Ptr(s.p.b, 9); s.buf = NULL
            s.pre = blk
        else:
            s.siz, s.cap = c.u64(nm + '.siz'), c.u64(nm + '.cap')
            c.assume(ule(s.siz, s.cap)); c.assume(ule(s.cap, MAXS))
            bb = c.st.new_block(simp(s.cap + 1), 'heap', nm + '.chars'); blk = c.st.mem[bb]; blk.base = base
            s.de = c.foreign_dealloc(nm); blk.fam = s.de.n; s.data = s.buf = Ptr(bb, 0); s.pre = blk
            s.p = c.obj(32, {0: (8, s.de), 8: (8, s.buf), 16: (8, s.cap), 24: (8, s.siz)}, nm)
        c.assume(f(bv64(add(s.data.o, s.siz))) == 0)
        s.f = f
    def ch(s, o, k): return s.f(bv64(add(s.data.o, k)))
    def at(s, k): return Ptr(s.data.b, add(s.data.o, k))

class Post:
    """state of a string object at exit; establishes the class invariant"""
    def __init__(s, o, p):
        s.o, s.p = o, p
        E, st = o.E, o.st
        s.de = o.ptr(p, 0); s.sso = isinstance(s.de, Ptr) and s.de.b == 0
        if s.sso:
            s.cap = SSO; b = bv(o.byte(p, 8), 8); s.siz = E.cast(st, 'zext', o.byte(p, 8), ir.INT(8), ir.INT(64)); s.data = Ptr(p.b, add(p.o, 9)); s.buf = NULL
            o.req('C07', ule(s.siz, SSO), 'size() <= capacity()')
        else:
            s.buf, s.cap, s.siz = o.ptr(p, 8), o.word(p, 16), o.word(p, 24); s.data = s.buf
            o.req('C05,C07', isinstance(s.buf, Ptr) and st.blk(s.buf.b) is not None and st.blk(s.buf.b).alive and st.blk(s.buf.b).kind == 'heap', 'string holds a live heap buffer')
            blk = st.blk(s.buf.b)
            o.req('C05,C07', eq(s.buf.o, 0), 'data() is the start of the buffer')
            o.req('C07', ule(s.siz, s.cap), 'size() <= capacity()')
            o.req('C07', b_and(ule(s.cap, MAXS), ult(s.cap, blk.size)), 'buffer has room for capacity()+1 characters')
            dealloc_ok(o, 'C05', s.de, s.buf)
        s.blk = o.st.blk(s.data.b)
        o.req('C07', eq(s.ch(s.siz), 0, 8), 'data()[size()] is NUL')
    def ch(s, k): return s.o.E.rd_byte(s.o.st, s.blk, add(s.data.o, k))
    def at(s, k): return Ptr(s.data.b, add(s.data.o, k))
    def same_store(s, v):
        o = s.o
        return b_and(o.ptr_eq(s.de, v.de), o.ptr_eq(s.buf, v.buf) if not s.sso else True, eq(s.cap, v.cap))
    def is_seq(s, cat, n, f, what):
        o = s.o
        o.req(cat, eq(s.siz, n), what + ': size')
        if isc(n) and n == 0 or not o.wants(cat): return
        k = o.skolem()
        def chk():
            if o.st.decide(ult(k, n)): o.req(cat, eq(s.ch(k), f(k), 8), what + ': character sequence')
        o.each(chk)

def dealloc_ok(o, cat, de, buf):
    E = o.E; blk = o.st.blk(buf.b)
    if isinstance(de, Fn) and de.n.startswith('$'):
        o.req(cat, blk.fam == de.n, 'stored deallocator belongs to the buffer'); return
    o.req(cat, isinstance(de, Fn), 'stored deallocator is a function')
    st = o.st.clone(); st.frames = []
    before = {b for b, x in st.mem.items() if x.kind == 'heap' and x.alive}
    E.push(st, E.mod.funcs[de.n], [buf], None)
    def done(s2, out):
        after = {b for b, x in s2.mem.items() if x.kind == 'heap' and x.alive}
        E.oblige(s2, cat, out[0] == 'ret' and before - after == {buf.b}, 'stored deallocator releases exactly the buffer')
    E.run(st, done)

def unchanged(o, v, cat, what):
    p = Post(o, v.p)
    o.req(cat, p.same_store(v), what + ': capacity, buffer')
    p.is_seq(cat, v.siz, lambda k: v.ch(o, k), what)
    return p
def finish(o, *ps):
    owned = set()
    for p in ps:
        if isinstance(p, Post):
            if not p.sso: owned.add(p.buf.b)
        elif isinstance(p, Str):
            if p.shape == 'heap': owned.add(p.buf.b)
    o.noleak('C05', owned)
    bs = [p.buf.b for p in ps if isinstance(p, Post) and not p.sso]
    o.req('C05,C07', len(set(bs)) == len(bs), 'two strings share a buffer')
EXC = ALLOCFAIL
def exc_ok(o): o.req('C08', o.ti in EXC, 'exception type')
def noalloc(o): o.req('C08', not any(x[0] == 'alloc' for x in o.st.log), 'allocation attempted in an operation declared noexcept')
def nothrow(o): o.returned('C08', 'operation declared noexcept must not fail'); noalloc(o)
def bytes_same(o, cat, p, n, pre, what):
    if p.b == 0: return
    k = o.skolem(); blk = o.st.blk(p.b); off = add(p.o, k)
    o.req(cat, b_imp(ult(k, n), eq(o.E.rd_byte(o.st, blk, off), o.E.rd_byte(o.st, pre, off), 8)), what + ': unchanged')

class Src:
    """source characters: a separate buffer, nothing, or a part of the string itself"""
    def __init__(s, c, where, v=None):
        s.where = where
        if where == 'none': s.p = NULL; s.n = 0; s.pre = None
        elif where == 'out':
            s.n = c.u64('n'); c.assume(ule(s.n, PTRDIFF_MAX)); s.p = c.opaque(s.n, 'src'); s.pre = c.st.mem[s.p.b]
        else:
            i, j = c.u64('src.first'), c.u64('src.last'); c.assume(ule(i, j)); c.assume(ule(j, v.siz))
            s.n = simp(j - i); s.p = v.at(i); s.pre = c.st.mem[s.p.b]
        s.e = Ptr(s.p.b, add(s.p.o, s.n))
    def ch(s, o, k): return o.E.rd_byte(o.st, s.pre, add(s.p.o, k)) if s.pre is not None else 0
    def keep(s, o, cat):
        if s.where == 'out': bytes_same(o, cat, s.p, s.n, s.pre, 'source characters')

# ---------------------------------------------------------------- trusted character algorithms
def chars(E, f):
    q, ta, ps = lib.split_name(f.dem)
    q = q.replace('std::_V2::', 'std::')
    if q == 'std::rotate' and ps == ['char*'] * 3:
        def h(E, st, a, nm):
            for x in a: E.oblige(st, 'mem', isinstance(x, Ptr) and x.b == a[0].b, 'rotate: range inside one object')
            f_, m, l = a; n1, n = sub(m.o, f_.o), sub(l.o, f_.o)
            if isc(n) and n == 0: return f_
            E.oblige(st, 'mem', b_and(ule(n1, n), ule(n, PTRDIFF_MAX)), 'rotate: ranges in order')
            E.access(st, f_, n, 'rotate')
            if f_.b == 0: return f_
            old = st.blk(f_.b); lim = sub(n, n1); lo = f_.o
            st.mem[f_.b] = E.wr_range(st, old, lo, n, lambda s2, off: E.pick(s2, ult(sub(off, lo), lim), lambda: E.rd_byte(s2, old, add(off, n1)), lambda: E.rd_byte(s2, old, sub(off, lim)), 8))
            return Ptr(f_.b, add(lo, lim))
        h.label = 'std::rotate over characters'; return h
    if q == 'std::_Hash_bytes':
        def h(E, st, a, nm):
            if not (isc(a[1]) and a[1] == 0): E.access(st, a[0], a[1], 'read (hash)')
            r = E.fresh('hash'); st.log.append(('hash', a[0], a[1], a[2], r)); return r
        h.label = 'std::_Hash_bytes'; return h
    if '__ostream_insert' in f.dem:
        def h(E, st, a, nm):
            if not (isc(a[2]) and a[2] == 0): E.access(st, a[1], a[2], 'read (stream output)')
            st.log.append(('ostream', a[0], a[1], a[2])); return a[0]
        h.label = 'std::__ostream_insert'; return h
    return None

def input_copy(E, f):
    """std::copy(single-pass iterator, back_inserter(string)): the characters are appended by push_back, in order"""
    q, ta, ps = lib.split_name(f.dem)
    if q != 'std::copy' or ps is None or len(ps) != 3 or ps[0] != 'In' or 'back_insert_iterator<ptl::string' not in ps[2]: return None
    def h(E, st, a, nm):
        E.oblige(st, 'mem', isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0].b == a[1].b, 'copy: range')
        n = sub(a[1].o, a[0].o); sp = a[2]
        E.access(st, sp, 32, 'string in back_inserter')
        rd = lambda off, t: E.rd(st, st.blk(sp.b), add(sp.o, off), t)
        if isc(n) and n == 0 or not st.decide(b_not(eq(n, 0))): return a[2]
        de = rd(0, ir.PTR)
        E.oblige(st, 'mem', isinstance(de, Ptr) and de.b == 0 and st.must(eq(rd(8, ir.INT(8)), 0, 8)), 'back_inserter target starts empty')
        E.access(st, a[0], n, 'copy source'); sblk = st.blk(a[0].b); so = a[0].o
        k = st.choose(3)      # small result | heap result | failure
        if k == 2:
            # out of memory or beyond max_size() while pushing; the target has some valid prefix
            st.assume(b_not(ule(n, SSO)))
            if st.choose(2): st.assume(b_not(ule(n, MAXS))); ti = LEN
            else: ti = BADALLOC
            m = E.fresh('pushed'); st.assume(b_and(ult(m, n), ule(SSO, m)))
        else: m = n; ti = None
        if k == 0 or (k == 2 and st.choose(2) == 0):
            st.assume(ule(m, SSO))
            E.store(st, Ptr(sp.b, add(sp.o, 8)), 1, E.trunc(m, 64, 8))
            E.memcpy(st, Ptr(sp.b, add(sp.o, 9)), a[0], m); E.store(st, Ptr(sp.b, add(add(sp.o, 9), m)), 1, 0)
        else:
            st.assume(b_and(b_not(ule(m, SSO)), ule(m, MAXS)))
            cap = E.fresh('cap'); st.assume(b_and(ule(m, cap), ule(cap, MAXS)))
            nb = st.new_block(simp(cap + 1), 'heap', 'pushed'); tok = '$dealloc_pushed%d' % nb; st.mem[nb].fam = tok
            E.memcpy(st, Ptr(nb, 0), a[0], m); E.store(st, Ptr(nb, m), 1, 0)
            for off, v in ((0, Fn(tok)), (8, Ptr(nb, 0)), (16, cap), (24, m)): E.store(st, Ptr(sp.b, add(sp.o, off)), 8, v)
            st.log.append(('alloc', cap, tok))
        if ti: raise Throw(ti)
        return a[2]
    h.label = 'std::copy(single-pass range, back_inserter(string)) = repeated push_back'
    return h

# ================================================================ construction
def built(wrapper, mk, cases=None, core=ED, cat='C06'):
    @contract(H, wrapper, core, cases=cases, excprop='C08')
    def _(c, **kw):
        o_ = c.out(32)
        args, n, f, keep, ok = mk(c, **kw)
        def post(o):
            if o.kind == 'exc': exc_ok(o); finish(o, *keep(o, 'C08')); return
            o.req('C08', b_and(ok, ule(n, MAXS)), 'more than max_size() characters accepted')
            p = Post(o, o_); p.is_seq(cat, n, lambda k: f(o, k), 'construction'); finish(o, p, *keep(o, cat))
        return [o_] + args, post
def none(o, cat): return []
built('s_ctor', lambda c: ([], 0, None, none, True))
@contract(H, 's_ctor', ED, name='s_ctor(noexcept)')
def _(c):
    o_ = c.out(32)
    return [o_], lambda o: nothrow(o)
def m_src(conv):
    def mk(c, where):
        s = Src(c, where)
        def keep(o, cat): s.keep(o, cat); return []
        return conv(s), s.n, s.ch, keep, True
    return mk
PP = lambda s: [s.p, s.e]
PN = lambda s: [s.p, s.n]
EXT = {'where': ['out', 'none']}
built('s_ctor_range', m_src(PP), EXT); built('s_ctor_input', m_src(PP), EXT)
built('s_ctor_sv', m_src(PN), EXT); built('s_ctor_il', m_src(PN), EXT); built('s_literal', m_src(PN), EXT)
def m_n(c):
    n, ch = c.u64('n'), c.scalar('ch', 8); return [n, ch], n, lambda o, k: ch, none, True
built('s_ctor_n', m_n)
def m_copy(c, shape):
    v = Str(c, 's', shape)
    return [v.p], v.siz, v.ch, lambda o, cat: [unchanged(o, v, 'C09' if cat == 'C06,C09' else cat, 'source of copy')], True
built('s_ctor_copy', m_copy, {'shape': SH}, CP, 'C06,C09')

def m_concat(parts):
    """parts: kinds of the operands: s string, t other string, v view, c char"""
    def mk(c, **kw):
        ops = []; args = []; keeps = []
        sv = None
        for x in parts:
            if x in 'st':
                if x == 't' and kw.get('t') == 'same': v = sv
                else: v = Str(c, x, kw[x]); keeps.append(v)
                if x == 's': sv = v
                args.append(v.p); ops.append((v.siz, v.ch))
        args = []; ops = []
        for x in parts:
            if x == 's': args.append(keeps[0].p); ops.append((keeps[0].siz, keeps[0].ch))
            elif x == 't': v = keeps[-1] if kw['t'] != 'same' else keeps[0]; args.append(v.p); ops.append((v.siz, v.ch))
            elif x == 'v':
                s = Src(c, kw['where'], keeps[0]); args += [s.p, s.n]; ops.append((s.n, s.ch))
            else:
                ch = c.scalar('ch', 8); args.append(ch); ops.append((1, lambda o, k, ch=ch: ch))
        (n1, f1), (n2, f2) = ops
        n = add(n1, n2)
        f = lambda o, k: b_ite(ult(k, n1), f1(o, k), f2(o, sub(k, n1)), 8)
        return args, n, f, lambda o, cat: [unchanged(o, v, cat, 'operand') for v in keeps], ule(n1, sub(MAXS, n2)) if not isc(n2) else ule(n1, MAXS - n2)
    return mk
SRC3 = {'s': SH, 'where': ['out', 'none', 'in']}
built('s_plus_sv_s', m_concat('vs'), SRC3); built('s_plus_s_sv', m_concat('sv'), SRC3)
built('s_plus_c_s', m_concat('cs'), {'s': SH}); built('s_plus_s_c', m_concat('sc'), {'s': SH})
built('s_plus_s_s', m_concat('st'), {'s': SH, 't': SH + ['same']})

@contract(H, 's_dtor', ('C05', 'C07'), cases={'shape': SH})
def _(c, shape):
    v = Str(c, 's', shape)
    def post(o): nothrow(o); finish(o)
    return [v.p], post
def substr(wrapper, twoargs, rv):
    @contract(H, wrapper, ED + (('C09',) if rv else ()), cases={'shape': SH}, excprop='C08')
    def _(c, shape):
        o_ = c.out(32); v = Str(c, 's', shape); a = c.u64('offset'); c.assume(ule(a, v.siz)); n = simp(v.siz - a); args = [o_, v.p, a]
        if twoargs: m = c.u64('count'); c.assume(ule(m, n)); n = m; args.append(m)
        def post(o):
            if rv: nothrow(o)
            elif o.kind == 'exc': exc_ok(o); finish(o, unchanged(o, v, 'C08', 'substr source')); return
            p = Post(o, o_); p.is_seq('C06', n, lambda k: v.ch(o, add(k, a)), 'substr')
            q = Post(o, v.p) if rv else unchanged(o, v, 'C06', 'substr source')
            finish(o, p, q)
        return args, post
substr('s_substr', False, False); substr('s_substr_n', True, False); substr('s_substr_m', False, True); substr('s_substr_mn', True, True)

# ================================================================ copy, move, swap
@contract(H, 's_ctor_move', CP, cases={'shape': SH})
def _(c, shape):
    o_ = c.out(32); v = Str(c, 's', shape)
    def post(o):
        nothrow(o); p = Post(o, o_); p.is_seq('C06,C09', v.siz, lambda k: v.ch(o, k), 'move construction')
        q = Post(o, v.p); finish(o, p, q)
        if shape == 'heap': o.req('C05', b_and(o.ptr_eq(p.buf, v.buf), o.ptr_eq(p.de, v.de)), 'move construction hands over buffer and deallocator')
    return [o_, v.p], post
@contract(H, 's_asg_move', CP, cases={'s': SH, 't': SH + ['same']})
def _(c, s, t):
    v = Str(c, 's', s); w = v if t == 'same' else Str(c, 't', t)
    def post(o):
        nothrow(o); o.req('C06,C09', o.ptr_eq(o.v, v.p), 'assignment returns the target')
        p = Post(o, v.p)
        if t == 'same': finish(o, p); o.req('C09', p.same_store(v), 'self-move'); p.is_seq('C09', v.siz, lambda k: v.ch(o, k), 'self-move'); return
        p.is_seq('C06,C09', w.siz, lambda k: w.ch(o, k), 'move assignment'); q = Post(o, w.p); finish(o, p, q)
        if t == 'heap': o.req('C05', b_and(o.ptr_eq(p.buf, w.buf), o.ptr_eq(p.de, w.de)), 'move assignment hands over buffer and deallocator')
    return [v.p, w.p], post
@contract(H, 's_asg_copy', CP, cases={'s': SH, 't': SH + ['same']}, excprop='C08')
def _(c, s, t):
    v = Str(c, 's', s); w = v if t == 'same' else Str(c, 't', t)
    def post(o):
        if o.kind == 'exc':
            exc_ok(o); p = unchanged(o, v, 'C08', 'failed copy assignment'); finish(o, p, *([unchanged(o, w, 'C08', 'source')] if w is not v else [])); return
        o.req('C06,C09', o.ptr_eq(o.v, v.p), 'assignment returns the target')
        p = Post(o, v.p); p.is_seq('C06,C09', w.siz, lambda k: w.ch(o, k), 'copy assignment')
        finish(o, p, *([unchanged(o, w, 'C09', 'source of copy assignment')] if w is not v else []))
    return [v.p, w.p], post
for w_ in ('s_swap', 's_fswap'):
    @contract(H, w_, CP, cases={'s': SH, 't': SH + ['same']})
    def _(c, s, t):
        v = Str(c, 's', s); w = v if t == 'same' else Str(c, 't', t)
        def post(o):
            nothrow(o)
            if w is v: finish(o, unchanged(o, v, 'C09', 'self-swap')); return
            p, q = Post(o, v.p), Post(o, w.p)
            p.is_seq('C09', w.siz, lambda k: w.ch(o, k), 'swap'); q.is_seq('C09', v.siz, lambda k: v.ch(o, k), 'swap')
            o.req('C05,C09', b_and(o.ptr_eq(p.de, w.de), o.ptr_eq(q.de, v.de), eq(p.cap, w.cap), eq(q.cap, v.cap)), 'swap exchanges buffer, capacity and deallocator together'); finish(o, p, q)
        return [v.p, w.p], post

# ================================================================ capacity
@contract(H, 's_reserve', CP, cases={'shape': SH}, excprop='C08')
def _(c, shape):
    v = Str(c, 's', shape); n = c.u64('n')
    def post(o):
        if o.kind == 'exc':
            exc_ok(o); finish(o, unchanged(o, v, 'C08', 'failed reserve')); o.req('C08', b_not(ule(n, v.cap)), 'reserve within the capacity must not fail'); return
        o.req('C08', ule(n, MAXS), 'reserve beyond max_size() accepted')
        p = Post(o, v.p); p.is_seq('C09', v.siz, lambda k: v.ch(o, k), 'reserve'); finish(o, p)
        o.req('C09', b_and(ule(n, p.cap), ule(v.cap, p.cap)), 'reserve makes the capacity at least n and never lowers it')
    return [v.p, n], post
@contract(H, 's_shrink', CP, cases={'shape': SH})
def _(c, shape):
    v = Str(c, 's', shape)
    def post(o):
        nothrow(o); p = Post(o, v.p); p.is_seq('C09', v.siz, lambda k: v.ch(o, k), 'shrink_to_fit'); finish(o, p)
        if shape == 'sso': o.req('C09', p.sso, 'shrink_to_fit keeps a small string small')
        elif o.st.decide(ule(v.siz, SSO)): o.req('C09', p.sso, 'shrink_to_fit returns a fitting heap string to the small buffer')
        else: o.req('C09', p.same_store(v), 'shrink_to_fit otherwise changes nothing')
    return [v.p], post
def edit(wrapper, mk, cases=None, core=ED, noex=False, keepcap=False, refself=False, name=None):
    """mk(c, v, **kw) -> (args, n, f, ok, ret, keep): result length, characters, size admissible, returned position, sources"""
    cs = {'shape': SH}; cs.update(cases or {})
    @contract(H, wrapper, core, cases=cs, excprop='C08', name=name)
    def _(c, shape, **kw):
        v = Str(c, 's', shape)
        args, n, f, ok, ret, keep = mk(c, v, **kw)
        def post(o):
            if noex: nothrow(o)
            if o.kind == 'exc': exc_ok(o); p = unchanged(o, v, 'C08', 'failed operation'); finish(o, p, *keep(o, 'C08')); return
            o.req('C08', b_and(ok, ule(n, MAXS)), 'result longer than max_size() accepted')
            p = Post(o, v.p); p.is_seq('C06', n, lambda k: f(o, k), 'result'); finish(o, p, *keep(o, 'C06'))
            if keepcap: o.req('C09', p.same_store(v), 'the capacity does not change')
            if refself: o.req('C06', o.ptr_eq(o.v, v.p), 'returns the string itself')
            if ret is not None: o.req('C06', o.ptr_eq(o.v, p.at(ret)), 'returned iterator/reference designates the documented character')
        return [v.p] + args, post
kn = lambda o, cat: []
def fits(a, b):
    """a + b <= max_size without wrap (a <= max_size)"""
    return b_and(ule(a, MAXS), ule(b, sub(MAXS, a)))
EXC_ = ('C05', 'C06', 'C07', 'C08', 'C09')
edit('s_clear', lambda c, v: ([], 0, None, True, None, kn), core=EXC_, noex=True, keepcap=True)
def m_pop(c, v): c.assume(b_not(eq(v.siz, 0))); return [], sub(v.siz, 1), v.ch, True, None, kn
edit('s_pop', m_pop, core=EXC_, noex=True, keepcap=True)
def m_push(c, v): ch = c.scalar('ch', 8); return [ch], add(v.siz, 1), lambda o, k: b_ite(ult(k, v.siz), v.ch(o, k), ch, 8), fits(v.siz, 1), v.siz, kn
edit('s_push', m_push)
def m_resize(val):
    def mk(c, v):
        n = c.u64('n'); ch = c.scalar('ch', 8) if val else 0
        return [n] + ([ch] if val else []), n, lambda o, k: b_ite(ult(k, v.siz), v.ch(o, k), ch, 8), True, None, kn
    return mk
edit('s_resize', m_resize(False)); edit('s_resize_v', m_resize(True))
def m_erase(c, v): i = c.u64('pos'); c.assume(ult(i, v.siz)); return [i], sub(v.siz, 1), lambda o, k: b_ite(ult(k, i), v.ch(o, k), v.ch(o, add(k, 1)), 8), True, i, kn
edit('s_erase', m_erase, core=EXC_, noex=True, keepcap=True)
def m_erase_r(c, v):
    i, j = c.u64('first'), c.u64('last'); c.assume(ule(i, j)); c.assume(ule(j, v.siz)); d = simp(j - i)
    return [i, j], sub(v.siz, d), lambda o, k: b_ite(ult(k, i), v.ch(o, k), v.ch(o, add(k, d)), 8), True, i, kn
edit('s_erase_r', m_erase_r, core=EXC_, noex=True, keepcap=True)

class Const:
    """count copies of a character"""
    def __init__(s, c, one=False): s.n = 1 if one else c.u64('n'); s.c = c.scalar('ch', 8); s.one = one
    def ch(s, o, k): return s.c
    def keep(s, o, cat): pass
def source(c, kind, v, where):
    if kind == 'nv': s = Const(c); return s, [s.n, s.c]
    if kind == 'ch': s = Const(c, True); return s, [s.c]
    if kind == 's':
        w = v if where == 'same' else Str(c, 't', where)
        class W: pass
        s = W(); s.n = w.siz; s.ch = w.ch; s.w = w if w is not v else None
        s.keep = lambda o, cat: None
        return s, [w.p]
    s = Src(c, where, v); return s, (PP if kind == 'pp' else PN)(s)
def keeper(s):
    def k(o, cat):
        s.keep(o, cat)
        w = getattr(s, 'w', None)
        return [unchanged(o, w, cat, 'source string')] if w is not None else []
    return k
IN3 = {'where': ['out', 'none', 'in']}; IN2 = EXT
KINDS = {'range': ('pp', IN3), 'input': ('pp', IN3), 'sv': ('pn', IN3), 'il': ('pn', IN2), 'nv': ('nv', None), 'ch': ('ch', None), 's': ('s', {'where': SH + ['same']})}
def m_assign(kind):
    def mk(c, v, where=None):
        s, args = source(c, kind, v, where); return args, s.n, s.ch, True, None, keeper(s)
    return mk
def m_append(kind):
    def mk(c, v, where=None):
        s, args = source(c, kind, v, where)
        return args, add(v.siz, s.n), lambda o, k: b_ite(ult(k, v.siz), v.ch(o, k), s.ch(o, sub(k, v.siz)), 8), fits(v.siz, s.n), None, keeper(s)
    return mk
def m_insert(kind):
    def mk(c, v, where=None):
        i = c.u64('pos'); c.assume(ule(i, v.siz)); s, args = source(c, kind, v, where); n = s.n
        f = lambda o, k: b_ite(ult(k, i), v.ch(o, k), b_ite(ult(sub(k, i), n), s.ch(o, sub(k, i)), v.ch(o, sub(k, n)), 8), 8)
        return [i] + args, add(v.siz, n), f, fits(v.siz, n), i, keeper(s)
    return mk
def m_replace(kind):
    def mk(c, v, where=None):
        i, j = c.u64('first'), c.u64('last'); c.assume(ule(i, j)); c.assume(ule(j, v.siz)); d = simp(j - i); s, args = source(c, kind, v, where); n = s.n
        f = lambda o, k: b_ite(ult(k, i), v.ch(o, k), b_ite(ult(sub(k, i), n), s.ch(o, sub(k, i)), v.ch(o, add(sub(k, n), d)), 8), 8)
        return [i, j] + args, add(sub(v.siz, d), n), f, fits(sub(v.siz, d), n), None, keeper(s)
    return mk
for k_ in ('range', 'input', 'sv', 'il', 'nv'):
    kd, cs_ = KINDS[k_]
    edit('s_assign_' + k_, m_assign(kd), cs_); edit('s_append_' + k_, m_append(kd), cs_)
    edit('s_insert_' + k_, m_insert(kd), cs_); edit('s_replace_' + k_, m_replace(kd), cs_, refself=True)
edit('s_insert_ch', m_insert('ch'))
for k_ in ('sv', 'il'): edit('s_asg_' + k_, m_assign('pn'), KINDS[k_][1], refself=True)
for k_ in ('sv', 'il', 'ch', 's'): edit('s_pluseq_' + k_, m_append(KINDS[k_][0]), KINDS[k_][1], refself=True)

# ================================================================ access
def accessor(wrapper, idx, core, checked=False, val=None):
    @contract(H, wrapper, core, cases={'shape': SH})
    def _(c, shape):
        v = Str(c, 's', shape)
        i = c.u64('i', False) if idx == 'i' else None
        if not checked and idx != 'any':
            if i is not None: c.assume(ule(i, v.siz))
            else: c.assume(b_not(eq(v.siz, 0)))
        def post(o):
            if checked and o.kind == 'exc':
                o.req('C25', o.ti == OOR, 'at must throw std::out_of_range'); o.req('C25', b_not(ult(i, v.siz)), 'at within size() must not throw'); unchanged(o, v, core[0], 'failed access'); return
            o.returned(core[0]); noalloc(o)
            if checked: o.req('C25', ult(i, v.siz), 'at beyond size() must throw')
            unchanged(o, v, core[0], 'element access')
            o.req(core[0], o.ptr_eq(o.v, v.at(val(v, i))), 'designates the requested character')
        return [v.p] + ([i] if i is not None else []), post
for w_ in ('s_index', 's_cindex'): accessor(w_, 'i', ('C06',), val=lambda v, i: i)
for w_ in ('s_at', 's_cat'): accessor(w_, 'i', ('C25',), True, val=lambda v, i: i)
for w_ in ('s_front', 's_cfront'): accessor(w_, '', ('C06',), val=lambda v, i: 0)
for w_ in ('s_back', 's_cback'): accessor(w_, '', ('C06',), val=lambda v, i: sub(v.siz, 1))
for w_ in ('s_data', 's_cdata', 's_cstr'): accessor(w_, 'any', ('C07',), val=lambda v, i: 0)
for w_ in ('s_begin', 's_cbegin', 's_cbegin2', 's_rend', 's_crend', 's_crend2'): accessor(w_, 'any', ('C24',), val=lambda v, i: 0)
for w_ in ('s_end', 's_cend', 's_cend2', 's_rbegin', 's_crbegin', 's_crbegin2'): accessor(w_, 'any', ('C24',), val=lambda v, i: v.siz)
def query(wrapper, f):
    @contract(H, wrapper, ('C07', 'C06'), cases={'shape': SH})
    def _(c, shape):
        v = Str(c, 's', shape)
        def post(o): nothrow(o); unchanged(o, v, 'C07', 'query'); f(o, v)
        return [v.p], post
query('s_size', lambda o, v: o.req('C06,C07', eq(o.v, v.siz), 'size()'))
query('s_capacity', lambda o, v: o.req('C07', eq(o.v, v.cap), 'capacity()'))
query('s_empty', lambda o, v: o.req('C06,C07', simp(tobool(o.result_true()) == tobool(eq(v.siz, 0))), 'empty()'))
@contract(H, 's_max_size', ('C08',))
def _(c):
    def post(o): o.returned('C08'); o.req('C08', eq(o.v, MAXS), 'max_size()')
    return [], post
@contract(H, 's_view', ('C06', 'C19'), cases={'shape': SH})
def _(c, shape):
    v = Str(c, 's', shape); r = c.out(16)
    def post(o):
        nothrow(o); unchanged(o, v, 'C06', 'conversion'); n = o.word(r, 8)
        o.req('C06,C19', eq(n, v.siz), 'view size')
        if o.st.decide(b_not(eq(v.siz, 0))): o.req('C06,C19', o.ptr_eq(o.ptr(r), v.at(0)), 'view data')
    return [v.p, r], post

# ================================================================ comparison, hash, output
class View:
    def __init__(s, c, nm, where, other=None):
        if where in SH: s.v = Str(c, nm, where); s.p, s.n, s.blk, s.args = s.v.data, s.v.siz, s.v.pre, [s.v.p]
        elif where == 'same': s.v = other.v; s.p, s.n, s.blk, s.args = other.p, other.n, other.blk, other.args
        else:
            s.v = None; q = Src(c, where, other); s.p, s.n, s.blk, s.args = q.p, q.n, q.pre, [q.p, q.n]
def ne0(n): return b_not(eq(n, 0))
def eq_views(o, a, b):
    if a.blk is None or b.blk is None: return eq(a.n, b.n)
    w = lib.mem_diff(o.E, o.st, a.blk, a.p.o, b.blk, b.p.o, a.n)
    return b_and(eq(a.n, b.n), eq(w, a.n))
def lt_views(o, a, b):
    if a.blk is None: return ne0(b.n)
    if b.blk is None: return False
    m = simp(b_ite(ult(a.n, b.n), a.n, b.n, 64))
    w = lib.mem_diff(o.E, o.st, a.blk, a.p.o, b.blk, b.p.o, m)
    x, y = bv(o.E.rd_byte(o.st, a.blk, add(a.p.o, w)), 8), bv(o.E.rd_byte(o.st, b.blk, add(b.p.o, w)), 8)
    return z3.If(tobool(eq(w, m)), tobool(ult(a.n, b.n)), z3.ULT(x, y))
RELS = {'eq': lambda o, a, b: eq_views(o, a, b), 'ne': lambda o, a, b: b_not(eq_views(o, a, b)), 'lt': lt_views, 'gt': lambda o, a, b: lt_views(o, b, a),
        'le': lambda o, a, b: b_not(lt_views(o, b, a)), 'ge': lambda o, a, b: b_not(lt_views(o, a, b))}
def compared(wrapper, rel, ka, kb):
    cs = {'a': SH if ka == 's' else ['out', 'none'], 'b': (SH + ['same'] if ka == kb else SH) if kb == 's' else ['out', 'none']}
    @contract(H, wrapper, ('C26',), cases=cs)
    def _(c, a, b):
        x = View(c, 'a', a); y = View(c, 'b', b, x)
        def post(o):
            o.returned('C26'); noalloc(o)
            for z in (x, y):
                if z.v is not None: unchanged(o, z.v, 'C26', 'comparison')
            o.req('C26', simp(tobool(o.result_true()) == tobool(RELS[rel](o, x, y))), 'result of string ' + rel)
        return x.args + y.args, post
for r_ in RELS: compared('s_%s_ss' % r_, r_, 's', 's'); compared('s_%s_vs' % r_, r_, 'v', 's'); compared('s_%s_sv' % r_, r_, 's', 'v')
SEED = 0xc70f6907
@contract(H, 's_hash', ('C26',), cases={'shape': SH})
def _(c, shape):
    v = Str(c, 's', shape)
    def post(o):
        o.returned('C26'); noalloc(o); unchanged(o, v, 'C26', 'hash')
        hs = [x for x in o.st.log if x[0] == 'hash']
        o.req('C26', len(hs) == 1, 'hash is computed from the characters')
        _, p, n, seed, r = hs[0]
        o.req('C26', b_and(eq(n, v.siz), b_or(eq(v.siz, 0), o.ptr_eq(p, v.at(0))), eq(seed, SEED)), 'hash covers exactly the characters'); o.req('C26', eq(o.v, r), 'hash value')
    return [v.p], post
@contract(H, 's_print', ('C06',), cases={'shape': SH})
def _(c, shape):
    v = Str(c, 's', shape); os = c.opaque(512, 'os')
    def post(o):
        o.returned('C06'); unchanged(o, v, 'C06', 'output')
        hs = [x for x in o.st.log if x[0] == 'ostream']
        o.req('C06', len(hs) == 1, 'output inserts the string once')
        _, s, p, n = hs[0]
        o.req('C06', b_and(o.ptr_eq(s, os), eq(n, v.siz), b_or(eq(v.siz, 0), o.ptr_eq(p, v.at(0)))), 'output covers exactly the characters')
    return [os, v.p], post
