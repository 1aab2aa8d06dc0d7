"""Contracts of ptl::string_ref and ptl::array_ref<E>."""
from vcg.dsl import *
from .slots import *
from . import string as S_
H = 'views'
VARIANTS = [{}, {'ES': 24}]
VARIANTS_THOROUGH = [{}, {'ES': 1}, {'ES': 24}]
T = None
ASSUMPTIONS = ['traits length, memcmp, std::_Hash_bytes and std::__ostream_insert behave as the C++ standard library documents; std::string_view itself is verified as inlined code']
def setup(E, ES=16):
    global T
    T = Elem('E', ES, 1); E.elems = {'E': T}; E.matchers.insert(0, S_.chars)
def con(name, core=('C19',), cases=None, nm=None, **kw): return contract(H, name, core, name=nm, cases=cases, **kw)
PM = PTRDIFF_MAX
C19 = 'C19,C27'
class Mem:
    """the referenced memory: n objects of `unit` bytes in their own block, or nothing"""
    def __init__(s, c, kind, nm, where='out', n=None, extra=0):
        s.kind = kind; s.unit = T.size if kind == 'E' else 1
        if where == 'none': s.n = 0; s.p = NULL; s.pre = None; return
        s.n = n if n is not None else c.u64(nm + '.n')
        if not isc(s.n): c.assume(ule(s.n, PM // s.unit - 8))
        s.p = c.elems(T, s.n, nm) if kind == 'E' else c.opaque(add(s.n, extra), nm)
        s.pre = c.st.mem[s.p.b]
    def at(s, i): return Ptr(s.p.b, add(s.p.o, mul(i, s.unit)))
    def keep(s, o, cat='C19'):
        if s.pre is None: return
        k = o.skolem(); blk = o.st.blk(s.p.b)
        if s.kind == 'E':
            off = add(s.p.o, mul(k, s.unit))
            o.req(cat, b_imp(ult(k, s.n), b_and(o.E.life_is(o.E.life_at(o.st, blk, off), T.code), eq(o.E.val_at(o.st, blk, off), o.E.val_at(o.st, s.pre, off)))), 'referenced elements unchanged')
        else: o.req(cat, b_imp(ult(k, s.pre.size), eq(o.E.rd_byte(o.st, blk, add(s.p.o, k)), o.E.rd_byte(o.st, s.pre, add(s.p.o, k)), 8)), 'referenced characters unchanged')
class Ref:
    """pre-state of a view onto elements [first, last) of a memory"""
    def __init__(s, c, kind, nm, where, mem=None):
        s.m = mem or Mem(c, kind, nm, where)
        if s.m.pre is None: s.first = s.n = 0; s.p = NULL
        else:
            i, j = c.u64(nm + '.first'), c.u64(nm + '.last'); c.assume(ule(i, j)); c.assume(ule(j, s.m.n)); s.first = i; s.n = simp(j - i); s.p = s.m.at(i)
        s.e = s.m.at(add(s.first, s.n)) if s.m.pre is not None else NULL
        s.o = c.obj(16, {0: (8, s.p), 8: (8, s.e)}, nm)
    def at(s, k): return s.m.at(add(s.first, k)) if s.m.pre is not None else NULL
    def keep(s, o, cat='C19'):
        o.req(cat, b_and(o.ptr_eq(o.ptr(s.o, 0), s.p), o.ptr_eq(o.ptr(s.o, 8), s.e)), 'view unchanged'); s.m.keep(o, cat)
WH = {'where': ['out', 'none']}
def is_view(o, r, p, n, unit, what, cat=C19, anyempty=False):
    """object r views exactly n objects from p"""
    e = Ptr(p.b, add(p.o, mul(n, unit))) if p.b else NULL
    if anyempty and not o.st.decide(b_not(eq(n, 0))): o.req(cat, o.ptr_eq(o.ptr(r, 0), o.ptr(r, 8)), what + ': empty view'); return
    o.req(cat, b_and(o.ptr_eq(o.ptr(r, 0), p), o.ptr_eq(o.ptr(r, 8), e)), what + ': exactly the referenced subrange')
def quiet(o, cat='C19'): o.returned(cat.split(',')[0]); o.req('C19', not any(x[0] == 'alloc' for x in o.st.log), 'a view never allocates')

def makes(name, kind, mk, cases=None, core=('C19', 'C27'), anyempty=False):
    """constructs a view; mk(c, ..) -> (args, first, count, keep)"""
    @con(name, core, cases=cases)
    def _(c, **kw):
        r = raw(c, 16, 'view'); args, p, n, keep = mk(c, **kw); unit = T.size if kind == 'E' else 1
        def post(o): quiet(o); is_view(o, r, p, n, unit, name, anyempty=anyempty); keep(o)
        return [r] + args, post
nop = lambda o: None
def mk_pn(kind):
    def mk(c, where='out'): m = Mem(c, kind, 'm', where); return [m.p, m.n], m.p, m.n, m.keep
    return mk
def mk_pp(c, where): m = Mem(c, 'E', 'm', where); return [m.p, m.at(m.n)], m.p, m.n, m.keep
def mk_c(c):
    """a C string: length n, terminated at n, no NUL before"""
    n = c.u64('n'); c.assume(ule(n, PM - 1)); b = c.opaque(add(n, 1), 's'); blk = c.st.mem[b.b]; E = c.E
    c.assume(eq(E.rd_byte(c.st, blk, n), 0, 8)); c.st.add_fact(lambda s, k: z3.Or(z3.Not(tobool(ult(k, n))), bv(E.rd_byte(s, blk, k), 8) != 0)); c.st.ghost[('nul', b.b)] = n; c.st.add_term(n)
    m = Mem.__new__(Mem); m.kind, m.unit, m.n, m.p, m.pre = 'c', 1, n, b, blk
    return [b], b, n, m.keep
def mk_copy(kind):
    def mk(c, where): r = Ref(c, kind, 'r', where); return [r.o], r.p, r.n, r.keep
    return mk
def mk_str(c, shape):
    v = S_.Str(c, 's', shape); return [v.p], v.data, v.siz, lambda o: S_.unchanged(o, v, 'C19', 'string')
makes('r_ctor', 'c', lambda c: ([], NULL, 0, nop)); makes('r_ctor_c', 'c', mk_c)
for n_ in ('r_ctor_n', 'r_ctor_sv', 'r_literal'): makes(n_, 'c', mk_pn('c'), WH)
makes('r_ctor_s', 'c', mk_str, {'shape': ['sso', 'heap']}, ('C19',), True); makes('r_copy', 'c', mk_copy('c'), WH)
for p_ in ('a', 'k'):
    makes(p_ + '_ctor', 'E', lambda c: ([], NULL, 0, nop)); makes(p_ + '_ctor_pp', 'E', mk_pp, WH); makes(p_ + '_ctor_pn', 'E', mk_pn('E'), WH); makes(p_ + '_copy', 'E', mk_copy('E'), WH)
for n_ in ('k_ctor_aref', 'k_ctor_aref_m'): makes(n_, 'E', mk_copy('E'), WH)
def mk_3(c): m = Mem(c, 'E', 'm', n=3); return [m.p], m.p, 3, m.keep
for n_ in ('a_ctor_arr3', 'k_ctor_arr3', 'a_ctor_array', 'k_ctor_array', 'k_ctor_carray'): makes(n_, 'E', mk_3)
def mk_vec(c, shape):
    from . import vector as V_
    V_.T, V_.S = T, T.size
    v = V_.Vec(c, 'v', shape); return [v.p], v.buf, v.siz, lambda o: V_.unchanged(o, v, 'C19', 'vector')
for n_ in ('a_ctor_vec', 'k_ctor_vec', 'k_ctor_cvec'): makes(n_, 'E', mk_vec, {'shape': ['null', 'buf']}, ('C19',))
def rebinds(name, kind):
    @con(name, ('C19', 'C27'), cases=dict(WH, old=['out', 'none', 'self']))
    def _(c, where, old):
        r = Ref(c, kind, 'r', where); d = r if old == 'self' else Ref(c, kind, 'd', old)
        def post(o):
            quiet(o); is_view(o, d.o, r.p, r.n, r.m.unit, 'assignment'); o.req('C19', o.ptr_eq(o.v, d.o), 'result designates the right object'); r.keep(o); d.m.keep(o)
        return [d.o, r.o], post
for p_, k_ in (('r', 'c'), ('a', 'E'), ('k', 'E')): rebinds(p_ + '_asg', k_)
def accessor(name, kind, need, val, core=('C19',)):
    cs = dict(WH) if need == 'any' else None
    @con(name, core, cases=cs)
    def _(c, where='out'):
        r = Ref(c, kind, 'r', where); i = c.u64('i', False) if need == 'i' else None
        if need == 'i': c.assume(ult(i, r.n))
        if need == 'ne': c.assume(b_not(eq(r.n, 0)))
        def post(o): quiet(o); r.keep(o); o.req('C19', o.ptr_eq(o.v, val(r, i)), 'designates the requested element')
        return [r.o] + ([i] if need == 'i' else []), post
def checked(name, kind):
    @con(name, ('C19', 'C25'), cases=WH)
    def _(c, where):
        r = Ref(c, kind, 'r', where); i = c.u64('i', False)
        def post(o):
            r.keep(o, 'C19,C25')
            if o.kind == 'exc': o.req('C25', b_and(o.ti == OOR, b_not(ult(i, r.n))), 'at() throws std::out_of_range exactly beyond size()'); return
            quiet(o, 'C25'); o.req('C25', ult(i, r.n), 'at() beyond size() must throw'); o.req('C19,C25', o.ptr_eq(o.v, r.at(i)), 'designates the requested element')
        return [r.o, i], post
def query(name, kind, f):
    @con(name, ('C19',), cases=WH)
    def _(c, where):
        r = Ref(c, kind, 'r', where)
        def post(o): quiet(o); r.keep(o); f(o, r)
        return [r.o], post
def sub_(name, kind, nargs, pre, first, count, inplace=False):
    @con(name, ('C19', 'C27'), cases=WH)
    def _(c, where):
        r = Ref(c, kind, 'r', where); a = [c.u64('arg%d' % i, False) for i in range(nargs)]
        c.assume(pre(r, *a)); d = r.o if inplace else raw(c, 16, 'view')
        def post(o):
            quiet(o); is_view(o, d, r.at(first(r, *a)), count(r, *a), r.m.unit, name)
            if inplace: r.m.keep(o)
            else: r.keep(o)
        return ([] if inplace else [d]) + [r.o] + a, post
for p_, k_ in (('r', 'c'), ('a', 'E'), ('k', 'E')):
    accessor(p_ + '_data', k_, 'any', lambda r, i: r.p); accessor(p_ + '_front', k_, 'ne', lambda r, i: r.p); accessor(p_ + '_back', k_, 'ne', lambda r, i: r.at(sub(r.n, 1)))
    accessor(p_ + '_index', k_, 'i', lambda r, i: r.at(i)); checked(p_ + '_at', k_)
    query(p_ + '_size', k_, lambda o, r: o.req('C19', eq(o.v, r.n), 'size()')); query(p_ + '_empty', k_, lambda o, r: ret_bool(o, 'C19', eq(r.n, 0), 'empty()'))
    @con(p_ + '_sizeof', ('C27',))
    def _(c): return [], lambda o: o.req('C27', eq(o.v, 16), 'a view is exactly two pointers')
Z = lambda r, *a: 0
inside = lambda r, n: ule(n, r.n)
inside2 = lambda r, i, n: b_and(ule(i, r.n), ule(n, sub(r.n, i)))
sub_('r_remove_prefix', 'c', 1, inside, lambda r, n: n, lambda r, n: sub(r.n, n), True); sub_('r_remove_suffix', 'c', 1, inside, Z, lambda r, n: sub(r.n, n), True)
sub_('r_substr', 'c', 1, inside, lambda r, n: n, lambda r, n: sub(r.n, n)); sub_('r_substr_n', 'c', 2, inside2, lambda r, i, n: i, lambda r, i, n: n)
for p_ in ('a', 'k'):
    sub_(p_ + '_first', 'E', 1, inside, Z, lambda r, n: n); sub_(p_ + '_last', 'E', 1, inside, lambda r, n: sub(r.n, n), lambda r, n: n)
    sub_(p_ + '_subrange', 'E', 1, inside, lambda r, n: n, lambda r, n: sub(r.n, n)); sub_(p_ + '_subrange_n', 'E', 2, inside2, lambda r, i, n: i, lambda r, i, n: n)
@con('r_max_size')
def _(c): return [], lambda o: o.req('C19', eq(o.v, PM), 'max_size()')
@con('r_view', ('C19',), cases=WH)
def _(c, where):
    r = Ref(c, 'c', 'r', where); x = raw(c, 16, 'out')
    def post(o): quiet(o); r.keep(o); o.req('C19', b_and(eq(o.word(x, 8), r.n), b_or(eq(r.n, 0), o.ptr_eq(o.ptr(x), r.p))), 'the string_view covers exactly the same characters')
    return [x, r.o], post

class V:
    """adapter for the comparison oracle of the string contracts"""
    def __init__(s, r): s.n, s.p, s.blk = r.n, r.p, r.m.pre
for r_ in S_.RELS:
    def cmp(rel):
        @con('r_' + rel, ('C26',), cases={'a': ['out', 'none'], 'b': ['out', 'none', 'same', 'shared']}, when=lambda a, b: not (a == 'none' and b == 'shared'))
        def _(c, a, b):
            x = Ref(c, 'c', 'a', a); y = x if b == 'same' else Ref(c, 'c', 'b', b, x.m if b == 'shared' else None)
            def post(o):
                quiet(o, 'C26'); x.keep(o, 'C26'); y.keep(o, 'C26')
                o.req('C26', simp(tobool(o.result_true()) == tobool(S_.RELS[rel](o, V(x), V(y)))), 'result of string_ref ' + rel)
            return [x.o, y.o], post
    cmp(r_)
@con('r_hash', ('C26',), cases=WH)
def _(c, where):
    r = Ref(c, 'c', 'r', where)
    def post(o):
        quiet(o, 'C26'); r.keep(o, 'C26'); hs = [x for x in o.st.log if x[0] == 'hash']
        o.req('C26', len(hs) == 1, 'hash is computed from the characters'); _, p, n, seed, v = hs[0]
        o.req('C26', b_and(eq(n, r.n), b_or(eq(r.n, 0), o.ptr_eq(p, r.p)), eq(seed, S_.SEED)), 'hash covers exactly the characters'); o.req('C26', eq(o.v, v), 'hash value')
    return [r.o], post
@con('r_print', ('C19',), cases=WH)
def _(c, where):
    r = Ref(c, 'c', 'r', where); os = c.opaque(512, 'os')
    def post(o):
        o.returned('C19'); r.keep(o); hs = [x for x in o.st.log if x[0] == 'ostream']
        o.req('C19', len(hs) == 1, 'output inserts the characters once'); _, s, p, n = hs[0]
        o.req('C19', b_and(o.ptr_eq(s, os), eq(n, r.n), b_or(eq(r.n, 0), o.ptr_eq(p, r.p)), o.ptr_eq(o.v, os)), 'output covers exactly the characters')
    return [os, r.o], post
