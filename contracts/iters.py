"""Contracts of the iterators of vector, string, array, array_ref and string_ref."""
from vcg.dsl import *
from .slots import *
from . import string as S_, vector as V_, views as W_
H = 'iters'
VARIANTS_THOROUGH = [{}, {'ES': 1}, {'ES': 24}]
T = None
def setup(E, ES=16):
    global T
    T = Elem('E', ES, 1); E.elems = {'E': T}; E.matchers.insert(0, S_.chars); V_.T, V_.S = T, ES; W_.T = T
class Box:
    """a container: object, number of elements, their addresses, frame condition"""
    def __init__(s, c, kind, shape):
        if kind == 'v': v = V_.Vec(c, 'c', shape); s.p, s.n, s.base, s.unit = v.p, v.siz, v.buf, T.size; s.keep = lambda o: V_.unchanged(o, v, 'C24', 'container')
        elif kind == 's': v = S_.Str(c, 'c', shape); s.p, s.n, s.base, s.unit = v.p, v.siz, v.data, 1; s.keep = lambda o: S_.unchanged(o, v, 'C24', 'container')
        elif kind == 'a':
            p = c.elems(T, 5, 'c'); s.p, s.n, s.base, s.unit = p, 5, p, T.size; pre = c.st.mem[p.b]
            def keep(o):
                k = o.skolem(); off = mul(k, T.size); blk = o.st.blk(p.b); o.req('C24', b_imp(ult(k, 5), b_and(o.E.life_is(o.E.life_at(o.st, blk, off), T.code), eq(o.E.val_at(o.st, blk, off), o.E.val_at(o.st, pre, off)))), 'container unchanged')
            s.keep = keep
        else: v = W_.Ref(c, 'E' if kind in 'rq' else 'c', 'c', shape); s.p, s.n, s.base, s.unit = v.o, v.n, v.p, v.m.unit; s.keep = lambda o: v.keep(o, 'C24')
    def at(s, k): return Ptr(s.base.b, add(s.base.o, mul(k, s.unit))) if s.base.b else NULL
SHAPES = {'v': ['null', 'buf'], 's': ['sso', 'heap'], 'a': ['5'], 'r': ['out', 'none'], 'q': ['out', 'none'], 'x': ['out', 'none']}
def idx(c, b, nm='i', lim=0):
    """a position; lim 1: of an element"""
    if b.base.b == 0 and not lim: return 0
    i = c.u64(nm, False); c.assume(ult(i, b.n) if lim else ule(i, b.n)); return i
def dist(c, b, i, sign=1, lim=0):
    """a signed distance d with 0 <= i + sign * d (< or <=) n, and the position reached"""
    if b.base.b == 0: return 0, 0
    j = c.u64('j', False); c.assume(ult(j, b.n) if lim else ule(j, b.n)); d = sub(j, i) if sign > 0 else sub(i, j); return simp(d), j
def outp(c): return raw(c, 8, 'out')
for N_ in ('v', 'cv', 's', 'cs', 'a', 'ca', 'r', 'cr', 'q', 'cq', 'x', 'cx'):
    def laws(N):
        k = N[-1]
        def L(name, f, lim=0, sign=None):
            sh = SHAPES[k] if not lim else [x for x in SHAPES[k] if x not in ('null', 'none')]
            @contract(H, N + '_' + name, ('C24',), cases={'shape': sh})
            def _(c, shape):
                b = Box(c, k, shape); args, res, extra = f(c, b)
                def post(o):
                    o.returned('C24'); o.req('C24', not any(x[0] == 'alloc' for x in o.st.log), 'iterators never allocate'); b.keep(o)
                    if res is not None: o.req('C24', o.ptr_eq(o.v, res), 'the iterator designates exactly the element at its position')
                    if extra: extra(o)
                return [b.p] + args, post
        def at_i(lim, delta=0, low=0, out=None):
            def f(c, b):
                i = idx(c, b, 'i', lim)
                if low: c.assume(b_not(eq(i, 0)))
                if out is None: return [i], b.at(add(i, delta)), None
                x = outp(c); return [i, x], b.at(i), lambda o: o.req('C24', o.ptr_eq(o.ptr(x), b.at(add(i, delta))), 'post-increment/decrement moves the iterator by one')
            return f
        def moved(sign, lim=0, out=False):
            def f(c, b):
                i = idx(c, b); d, j = dist(c, b, i, sign, lim)
                if not out: return [i, d], b.at(j), None
                x = outp(c); return [i, d, x], b.at(j), lambda o: o.req('C24', o.ptr_eq(o.ptr(x), b.at(i)), 'the operand of + and - is not modified')
            return f
        def two(check):
            def f(c, b): i, j = idx(c, b, 'i'), idx(c, b, 'j'); return [i, j], None, lambda o: check(o, i, j)
            return f
        L('at', at_i(0)); L('deref', at_i(1), 1); L('index', moved(1, 1), 1); L('preinc', at_i(1, 1), 1); L('postinc', at_i(1, 1, out=1), 1)
        L('predec', at_i(0, -1 & mask(64), 1), 1); L('postdec', at_i(0, -1 & mask(64), 1, out=1), 1)
        L('pluseq', moved(1)); L('minuseq', moved(-1)); L('plus', moved(1, out=True)); L('rplus', moved(1, out=True)); L('minus', moved(-1, out=True))
        L('diff', two(lambda o, i, j: o.req('C24', eq(o.v, sub(i, j)), 'difference of iterators equals the index difference')))
        for r, f in (('eq', lambda i, j: eq(i, j)), ('ne', lambda i, j: b_not(eq(i, j))), ('lt', ult), ('le', ule), ('gt', lambda i, j: ult(j, i)), ('ge', lambda i, j: ule(j, i))) + ((('mixeq', lambda i, j: eq(i, j)),) if N in 'arqx' else ()):
            L(r, two(lambda o, i, j, f=f, r=r: ret_bool(o, 'C24', f(i, j), 'iterator ' + r + ' agrees with the index order')))
        L('conv', at_i(0)); L('copy', at_i(0)); L('asg', at_i(0)); L('end', lambda c, b: ([], b.at(b.n), None))
        for n in ('rat', 'rindex') + (('crat',) if len(N) == 1 else ()):
            def f(c, b): i = idx(c, b, 'i', 1); return [i], b.at(sub(sub(b.n, 1), i)), None
            L(n, f, 1)
        for n in ('rlen',) + (('crlen',) if len(N) == 1 else ()): L(n, lambda c, b: ([], None, lambda o: o.req('C24', eq(o.v, b.n), 'rend() - rbegin() equals the size')))
        if len(N) == 1: L('cbegin', lambda c, b: ([], b.at(0), None)); L('cend', lambda c, b: ([], b.at(b.n), None))
        for n in ('default', 'types'):
            @contract(H, N + '_' + n, ('C24',))
            def _(c): return [], lambda o: (o.returned('C24'), ret_bool(o, 'C24', True, 'iterator types and default construction'))
    laws(N_)
