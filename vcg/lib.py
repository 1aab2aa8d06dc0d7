"""Trusted contracts: C library, C++ runtime, libstdc++ algorithms over opaque element types, element types.

Every handler here is an assumption of the verification (listed in the evidence when used): it states the
precondition the callee requires (checked as obligations at the call) and the effect it has."""
import re, z3
from .engine import *
from . import ir

# ---------------------------------------------------------------- names
def split_name(dem):
    """demangled function -> (qualified name, template args, parameter types)"""
    s = dem.strip()
    while s.endswith(' const') or s.endswith(' noexcept') or s.endswith('&') and s[-2] in ' &':
        s = s[:-6] if s.endswith(' const') else s[:-9] if s.endswith(' noexcept') else s.rstrip('& ')
    if not s.endswith(')'): return s, [], None
    d = 0; i = len(s) - 1
    while i >= 0:
        if s[i] == ')': d += 1
        elif s[i] == '(':
            d -= 1
            if d == 0: break
        i -= 1
    params = split_args(s[i + 1:-1]); head = s[:i]
    targs = []
    if head.endswith('>') and not head.endswith('operator>') and not head.endswith('->'):
        d = 0; j = len(head) - 1
        while j >= 0:
            if head[j] == '>' and head[j - 1] != '-': d += 1
            elif head[j] == '<':
                d -= 1
                if d == 0: break
            j -= 1
        targs = split_args(head[j + 1:-1]); head = head[:j]
    d = 0; j = len(head) - 1
    while j >= 0:
        c = head[j]
        if c in '>)' and not (c == '>' and head[j - 1] in '-r'): d += 1
        elif c in '<(': d -= 1
        elif c == ' ' and d <= 0: break
        j -= 1
    return head[j + 1:], targs, params
def split_args(s):
    out = []; d = 0; cur = ''
    for k, c in enumerate(s):
        if c in '<([{': d += 1
        elif c in ')]}' or (c == '>' and s[k - 1] != '-'): d -= 1
        if c == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out

class Elem:
    """an opaque element type; its values are 64-bit tokens"""
    def __init__(s, name, size, code, trivial=False, nothrow=False):
        s.name, s.size, s.code = name, size, code
        s.nothrow = nothrow   # copies do not throw
        s.plain = trivial   # trivially copyable: the value is the bytes, copies do not throw, lifetimes need no bookkeeping
        s.eq = z3.Function('eq_' + name, z3.BitVecSort(64), z3.BitVecSort(64), z3.BoolSort())
        s.lt = z3.Function('lt_' + name, z3.BitVecSort(64), z3.BitVecSort(64), z3.BoolSort())
        s.rel = {'==': s.eq, '<': s.lt}
        for o, n in (('!=', 'ne'), ('>', 'gt'), ('<=', 'le'), ('>=', 'ge')):
            s.rel[o] = z3.Function(n + '_' + name, z3.BitVecSort(64), z3.BitVecSort(64), z3.BoolSort())
        s.defval = z3.BitVecVal(0, 64) if trivial else z3.BitVec('default_' + name, 64)
        s.hash = z3.Function('hash_' + name, z3.BitVecSort(64), z3.BitVecSort(64))
        s.ctor = z3.Function('ctor_' + name, z3.BitVecSort(64), z3.BitVecSort(64))
        s.asg = z3.Function('assign_' + name, z3.BitVecSort(64), z3.BitVecSort(64))
USER = '$user'
def zx(v, size):
    """the bytes of a value as an argument of an uninterpreted function"""
    if size > 8: v = bv(v, 8 * size); return comb(simp(z3.Extract(63, 0, v)), simp(z3.Extract(127, 64, v)))
    return z3.BitVecVal(v, 64) if isinstance(v, int) else v if size == 8 else simp(z3.ZeroExt(64 - 8 * size, v))

def iter_elem(E, t):
    """(element type, is_move, readonly) of an iterator type that is lowered to one pointer"""
    mv = False
    t = t.strip()
    m = re.fullmatch(r'std::move_iterator<(.*)>', t)
    if m: mv = True; t = m.group(1).strip()
    m = re.fullmatch(r'ptl::(?:vector|array|array_ref)<(.*)>::contiguous_iterator<(true|false)>', t)
    if m:
        n = m.group(1).split(',')[0].strip(); const = m.group(2) == 'true'
        n = n.replace(' const', '').strip()
    else:
        m = re.fullmatch(r'(.*?)( const)?\s*\*', t)
        if not m: return None
        n = m.group(1).strip(); const = bool(m.group(2))
    e = E.elems.get(n)
    return (e, mv, const) if e is not None else None

# ---------------------------------------------------------------- ranges of elements
def rng(E, st, first, last, T, what):
    """number of elements of [first,last)"""
    if isinstance(first, Ptr) and isinstance(last, Ptr) and first.b == last.b:
        d = sub(last.o, first.o)
        if isc(d) and d == 0: return 0
        q = E.divexact(st, d, T.size)
        if q is None:
            E.oblige(st, 'mem', eq(simp(z3.URem(bv64(d), z3.BitVecVal(T.size, 64))), 0), '%s: misaligned range' % what)
            q = simp(z3.UDiv(bv64(d), z3.BitVecVal(T.size, 64)))
        E.oblige(st, 'mem', ule(q, PTRDIFF_MAX // T.size), '%s: end of range before its begin' % what)
        return q
    if isinstance(first, Ptr) and isinstance(last, Ptr): 
        E.oblige(st, 'mem', False, '%s: range iterators into different objects' % what)
    E.oblige(st, 'mem', False, '%s: invalid range' % what); raise Dead()

def shift(p, n, T):
    """p + n elements"""
    if isinstance(p, Ptr): return Ptr(p.b, add(p.o, mul(n, T.size)))
    return p

def moved(E, T):
    f = E.fresh_fun('moved', 64)
    return lambda off: f(bv64(off))

def may_throw(E, st, f, what):
    """exceptional exit of an element operation"""
    if f is not None and f.nounwind: return False
    return st.choose(2) == 1

def user_throw(st):
    raise Throw(USER, Ptr(0, 0))

def do_construct(E, st, dst, src, n, T, mv, throws, what):
    """construct n elements at dst from src (copy or move); all-or-nothing"""
    if isc(n) and n == 0: 
        return
    if T.plain: mv = throws = False
    sb = E.elem_live(st, src, T, n, what + ' source')
    db = E.elem_dead(st, dst, T, n, what)
    if db is None or db == 0: return
    if isinstance(dst, Ptr) and st.blk(db).const: pass
    if throws and not mv and not T.nothrow and st.choose(2) == 1:
        st.assume(b_not(eq(n, 0))); user_throw(st)
    if sb is None: return
    sblk = st.blk(sb); so, do = src.o, dst.o
    E.set_life(st, db, do, n, T.size, T.code)
    E.set_val(st, db, do, n, T.size, lambda off, sblk=sblk: E.val_at(st, sblk, add(sub(off, do), so)))
    if mv: E.set_val(st, sb, so, n, T.size, moved(E, T))

def do_fill_construct(E, st, dst, n, T, val, throws, what):
    if isc(n) and n == 0: return
    db = E.elem_dead(st, dst, T, n, what)
    if db is None or db == 0: return
    if throws and not T.nothrow and not (T.plain and not (isc(n) and n == 1)) and st.choose(2) == 1:
        st.assume(b_not(eq(n, 0))); user_throw(st)
    E.set_life(st, db, dst.o, n, T.size, T.code)
    E.set_val(st, db, dst.o, n, T.size, lambda off: val)

def do_destroy(E, st, p, n, T, what):
    if isc(n) and n == 0: return
    b = E.elem_live(st, p, T, n, what)
    if b is None or b == 0: return
    E.set_life(st, b, p.o, n, T.size, 0)

def do_assign(E, st, dst, src, n, T, mv, throws, what, backward=False):
    """assign n elements, in increasing (or decreasing) order"""
    if isc(n) and n == 0: return
    if T.plain: mv = throws = False
    sb = E.elem_live(st, src, T, n, what + ' source')
    db = E.elem_live(st, dst, T, n, what)
    if sb is None or db is None or not sb or not db: return
    sblk = st.blk(sb)
    if st.blk(db).const: E.oblige(st, 'mem', False, what + ': assignment to constant')
    so, do = src.o, dst.o; S = T.size
    if sb == db and not (isc(n) and n == 1):
        d = sub(do, so)
        # forward: dst must not start inside the source; backward: dst must not end inside it
        bad = ult(sub(d, 1), sub(mul(n, S), 1)) if not backward else ult(sub(sub(so, do), 1), sub(mul(n, S), 1))
        E.oblige(st, 'mem', b_or(b_not(bad), eq(n, 0)), what + ': overlapping ranges in the wrong direction')
    if throws and not mv and not T.nothrow and st.choose(2) == 1:
        st.assume(b_not(eq(n, 0)))
        E.set_val(st, db, do, n, S, moved(E, T)); user_throw(st)
    fr = moved(E, T)
    if sb == db and mv:
        same = eq(so, do)
        if same is not True:
            E.set_val(st, sb, so, n, S, fr)
            cur = st.blk(db)
            if same is False: nv = lambda off: E.val_at(st, sblk, add(sub(off, do), so))
            else: nv = lambda off: b_ite(same, fr(off), E.val_at(st, sblk, add(sub(off, do), so)), 64)
        else: nv = fr
        E.set_val(st, db, do, n, S, nv)
    else:
        E.set_val(st, db, do, n, S, lambda off: E.val_at(st, sblk, add(sub(off, do), so)))
        if mv: E.set_val(st, sb, so, n, S, fr)

def do_rotate(E, st, f, m, l, T):
    a = rng(E, st, f, m, T, 'rotate'); b = rng(E, st, m, l, T, 'rotate')
    n = add(a, b)
    if isc(n) and n == 0: return f
    blkid = E.elem_live(st, f, T, n, 'rotate')
    if not blkid: return f
    old = st.blk(blkid); S = T.size; fo = f.o
    lim = mul(b, S); ao = mul(a, S)
    E.set_val(st, blkid, fo, n, S, lambda off: b_ite(ult(sub(off, fo), lim), E.val_at(st, old, add(off, ao)), E.val_at(st, old, sub(off, lim)), 64))
    return Ptr(f.b, add(fo, lim))

def do_swap_ranges(E, st, a, b, n, T, what):
    if isc(n) and n == 0: return
    ab = E.elem_live(st, a, T, n, what); bb = E.elem_live(st, b, T, n, what)
    if not ab or not bb: return
    S = T.size; ao, bo = a.o, b.o
    ablk, bblk = st.blk(ab), st.blk(bb)
    if ab == bb and not (isc(n) and n == 1):
        d = sub(bo, ao)
        E.oblige(st, 'mem', b_and(b_not(ult(d, mul(n, S))), b_not(ult(sub(ao, bo), mul(n, S)))), what + ': overlapping ranges')
    E.set_val(st, ab, ao, n, S, lambda off: E.val_at(st, bblk, add(sub(off, ao), bo)))
    E.set_val(st, bb, bo, n, S, lambda off: E.val_at(st, ablk, add(sub(off, bo), ao)))

def all_equal(E, st, ablk, ao, bblk, bo, n, T):
    """boolean term: all n elements compare equal (left operand from a)"""
    if isc(n) and n == 0: return True
    S = T.size
    if E.post:
        return all(E.cv(T.eq(bv64(E.val_at(st, ablk, add(ao, k * S))), bv64(E.val_at(st, bblk, add(bo, k * S))))) for k in range(E.cv(n)))
    r = E.fresh_bool('allequal'); w = E.fresh('diffat')
    def at(s, k): return T.eq(bv64(E.val_at(s, ablk, add(ao, mul(k, S)))), bv64(E.val_at(s, bblk, add(bo, mul(k, S)))))
    st.assume(z3.Or(r, z3.And(tobool(ult(w, n)), z3.Not(at(st, w)))))
    st.add_fact(lambda s, k: z3.Or(z3.Not(r), z3.Not(tobool(ult(k, n))), at(s, k)))
    st.add_term(w)
    return r

def lex_less(E, st, ablk, ao, na, bblk, bo, nb, T):
    S = T.size
    if E.post:
        na, nb = E.cv(na), E.cv(nb)
        for k in range(min(na, nb)):
            a, b = bv64(E.val_at(st, ablk, add(ao, k * S))), bv64(E.val_at(st, bblk, add(bo, k * S)))
            if E.cv(T.lt(a, b)): return True
            if E.cv(T.lt(b, a)): return False
        return na < nb
    p = E.fresh('lexpos')
    mn = simp(b_ite(ult(nb, na), nb, na, 64))
    A = lambda s, k: bv64(E.val_at(s, ablk, add(ao, mul(k, S))))
    B = lambda s, k: bv64(E.val_at(s, bblk, add(bo, mul(k, S))))
    st.assume(ule(p, mn))
    st.add_fact(lambda s, k: z3.Or(z3.Not(tobool(ult(k, p))), z3.And(z3.Not(T.lt(A(s, k), B(s, k))), z3.Not(T.lt(B(s, k), A(s, k))))))
    st.assume(z3.Or(p == bv64(mn), T.lt(A(st, p), B(st, p)), T.lt(B(st, p), A(st, p))))
    st.add_term(p)
    return simp(z3.If(p == bv64(mn), tobool(ult(na, nb)), T.lt(A(st, p), B(st, p))))

def alg(E, f):
    q, ta, ps = split_name(f.dem)
    if not q.startswith('std::') or ps is None: return None
    q = q.replace('std::_V2::', 'std::')
    its = [iter_elem(E, p) for p in ps]
    if not its or its[0] is None: return None
    T = its[0][0]; mv = its[0][1]; rev = False
    name = q[5:]
    def asg(f): return True
    def H(fn, label):
        fn.label = 'std::%s over %s' % (name, T.name); return fn
    def deref(E, st, p, what):
        b = E.elem_live(st, p, T, 1, what)
        return E.val_at(st, st.blk(b), p.o) if b else E.fresh('noval')
    if name in ('uninitialized_copy', 'uninitialized_move') and len(ps) == 3 and its[2]:
        m2 = mv or name == 'uninitialized_move'
        def h(E, st, a, nm):
            n = rng(E, st, a[0], a[1], T, name); do_construct(E, st, a[2], a[0], n, T, m2, not m2, name); return shift(a[2], n, T)
        return H(h, name)
    if name in ('uninitialized_copy_n', 'uninitialized_move_n') and len(ps) == 3 and its[2]:
        m2 = mv or name == 'uninitialized_move_n'
        def h(E, st, a, nm):
            n = a[1]
            n = signed_count(E, st, n, ps[1])
            do_construct(E, st, a[2], a[0], n, T, m2, not m2, name)
            r = shift(a[2], n, T)
            return r if name == 'uninitialized_copy_n' else [shift(a[0], n, T), r]
        return H(h, name)
    if name in ('uninitialized_fill_n', 'uninitialized_fill') and len(ps) == 3:
        def h(E, st, a, nm):
            n = signed_count(E, st, a[1], ps[1]) if name[-1] == 'n' else rng(E, st, a[0], a[1], T, name)
            if isc(n) and n == 0: return a[0]
            v = deref(E, st, a[2], name + ' value'); do_fill_construct(E, st, a[0], n, T, v, True, name); return shift(a[0], n, T)
        return H(h, name)
    if name in ('uninitialized_value_construct_n', 'uninitialized_default_construct_n', 'uninitialized_value_construct', 'uninitialized_default_construct'):
        def h(E, st, a, nm):
            n = signed_count(E, st, a[1], ps[1]) if name[-1] == 'n' else rng(E, st, a[0], a[1], T, name)
            do_fill_construct(E, st, a[0], n, T, T.defval, True, name); return shift(a[0], n, T)
        return H(h, name)
    if name in ('destroy', '_Destroy') and len(ps) == 2:
        def h(E, st, a, nm): do_destroy(E, st, a[0], rng(E, st, a[0], a[1], T, name), T, name)
        return H(h, name)
    if name in ('destroy_n', '_Destroy_n') and len(ps) == 2:
        def h(E, st, a, nm):
            n = signed_count(E, st, a[1], ps[1]); do_destroy(E, st, a[0], n, T, name); return shift(a[0], n, T)
        return H(h, name)
    if name in ('copy', 'move') and len(ps) == 3 and its[2]:
        m2 = mv or name == 'move'
        def h(E, st, a, nm):
            n = rng(E, st, a[0], a[1], T, name); do_assign(E, st, a[2], a[0], n, T, m2, not m2, name); return shift(a[2], n, T)
        return H(h, name)
    if name in ('copy_backward', 'move_backward') and len(ps) == 3 and its[2]:
        m2 = mv or name == 'move_backward'
        def h(E, st, a, nm):
            n = rng(E, st, a[0], a[1], T, name); d = shift(a[2], sub(0, n), T)
            do_assign(E, st, d, a[0], n, T, m2, not m2, name, True); return d
        return H(h, name)
    if name == 'copy_n' and len(ps) == 3 and its[2]:
        def h(E, st, a, nm):
            n = signed_count(E, st, a[1], ps[1]); do_assign(E, st, a[2], a[0], n, T, mv, not mv, name); return shift(a[2], n, T)
        return H(h, name)
    if name in ('fill', 'fill_n') and len(ps) == 3:
        def h(E, st, a, nm):
            n = signed_count(E, st, a[1], ps[1]) if name[-1] == 'n' else rng(E, st, a[0], a[1], T, name)
            if isc(n) and n == 0: return a[0]
            v = deref(E, st, a[2], name + ' value')
            b = E.elem_live(st, a[0], T, n, name)
            if not b: return a[0]
            if not T.plain and not T.nothrow and st.choose(2) == 1:
                st.assume(b_not(eq(n, 0))); E.set_val(st, b, a[0].o, n, T.size, moved(E, T)); user_throw(st)
            E.set_val(st, b, a[0].o, n, T.size, lambda off: v)
            return shift(a[0], n, T)
        return H(h, name)
    if name == 'rotate' and len(ps) == 3:
        def h(E, st, a, nm): return do_rotate(E, st, a[0], a[1], a[2], T)
        return H(h, name)
    if name == 'swap_ranges' and len(ps) == 3 and its[2]:
        def h(E, st, a, nm):
            n = rng(E, st, a[0], a[1], T, name); do_swap_ranges(E, st, a[0], a[2], n, T, name); return shift(a[2], n, T)
        return H(h, name)
    if name == 'equal' and len(ps) in (3, 4) and its[2]:
        def h(E, st, a, nm):
            n = rng(E, st, a[0], a[1], T, name)
            if len(ps) == 4:
                n2 = rng(E, st, a[2], a[3], T, name)
                if not st.decide(eq(n, n2)): return 0
            if isc(n) and n == 0: return 1
            b1 = E.elem_live(st, a[0], T, n, name); b2 = E.elem_live(st, a[2], T, n, name)
            if not b1 or not b2: return 1
            return b2i(all_equal(E, st, st.blk(b1), a[0].o, st.blk(b2), a[2].o, n, T))
        return H(h, name)
    if name == 'lexicographical_compare' and len(ps) == 4 and its[2]:
        def h(E, st, a, nm):
            n = rng(E, st, a[0], a[1], T, name); n2 = rng(E, st, a[2], a[3], T, name)
            b1 = E.elem_live(st, a[0], T, n, name); b2 = E.elem_live(st, a[2], T, n2, name)
            if not b1: return b2i(simp(b_not(eq(n2, 0))))
            if not b2: return 0
            return b2i(lex_less(E, st, st.blk(b1), a[0].o, n, st.blk(b2), a[2].o, n2, T))
        return H(h, name)
    return None
def b2i(c):
    if isinstance(c, bool): return int(c)
    return c
def signed_count(E, st, n, ty):
    """counts of a signed type are taken as given when non-negative; negative counts mean no elements"""
    if ty in ('long', 'int', 'long long', 'short'):
        if isc(n): return 0 if sgn(n, 64) < 0 else n
        if st.decide(slt(n, 0)): return 0
    return n

# ---------------------------------------------------------------- element member functions
def elem_ops(E, f):
    if f.src is not None: return None
    q, ta, ps = split_name(f.dem)
    if ps is None: return None
    m = re.fullmatch(r'(\w+)::(~?\w+|operator\S+)', q)
    if m and m.group(1) in E.plains and m.group(2) == 'operator&':
        def h(E, st, a, n): return Wild()
        h.label = 'element operation ' + f.dem; return h
    if q.startswith('operator') and len(ps) == 2 and ps[0] == ps[1] and q[8:] in ('==', '<', '!=', '>', '<=', '>='):
        t = ps[0].replace(' const', '').rstrip('&').strip()
        if t in E.plains:
            T = E.plains[t]; R = T.rel[q[8:]]
            def h(E, st, a, n):
                vs = []
                for x in a:
                    E.access(st, x, T.size, 'comparison of ' + t); vs.append(E.rd(st, st.blk(x.b), x.o, ir.INT(8 * T.size)))
                return R(*[zx(v, T.size) for v in vs])
            h.label = 'element operation ' + f.dem; return h
    if m and m.group(1) in E.elems:
        T = E.elems[m.group(1)]; k = m.group(2); nm = T.name
        thr = not f.nounwind
        if k == nm:
            if ps == []:
                def h(E, st, a, n): do_fill_construct(E, st, a[0], 1, T, T.defval, thr, 'default construction of ' + nm)
            elif ps == [nm + ' const&']:
                def h(E, st, a, n): do_construct(E, st, a[0], a[1], 1, T, False, thr, 'copy construction of ' + nm)
            elif ps == [nm + '&&']:
                def h(E, st, a, n):
                    if thr and st.choose(2) == 1: user_throw(st)
                    do_construct(E, st, a[0], a[1], 1, T, True, False, 'move construction of ' + nm)
            else:
                def h(E, st, a, n):
                    v = arg_token(E, st, a[1:], ps)
                    do_fill_construct(E, st, a[0], 1, T, T.ctor(v), thr, 'construction of ' + nm)
        elif k == '~' + nm:
            def h(E, st, a, n): do_destroy(E, st, a[0], 1, T, 'destruction of ' + nm)
        elif k == 'operator=':
            if ps == [nm + ' const&']:
                def h(E, st, a, n): do_assign(E, st, a[0], a[1], 1, T, False, thr, 'copy assignment of ' + nm); return a[0]
            elif ps == [nm + '&&']:
                def h(E, st, a, n):
                    if thr and st.choose(2) == 1: user_throw(st)
                    do_assign(E, st, a[0], a[1], 1, T, True, False, 'move assignment of ' + nm); return a[0]
            else:
                def h(E, st, a, n):
                    v = arg_token(E, st, a[1:], ps)
                    b = E.elem_live(st, a[0], T, 1, 'assignment to ' + nm)
                    if thr and st.choose(2) == 1:
                        E.set_val(st, b, a[0].o, 1, T.size, moved(E, T)); user_throw(st)
                    E.set_val(st, b, a[0].o, 1, T.size, lambda off: T.asg(v)); return a[0]
        elif k == 'operator&':
            def h(E, st, a, n): return Wild()
        else: return None
        h.label = 'element operation ' + f.dem
        return h
    if q in ('swap', 'operator==', 'operator<', 'operator!=', 'operator>', 'operator<=', 'operator>=') and len(ps) == 2:
        t = ps[0].replace(' const', '').rstrip('&').strip()
        if t in E.elems and ps[1] == ps[0]:
            T = E.elems[t]
            if q == 'swap':
                def h(E, st, a, n): do_swap_ranges(E, st, a[0], a[1], 1, T, 'swap of ' + t)
            else:
                R = T.rel[q[8:]]
                def h(E, st, a, n):
                    b1 = E.elem_live(st, a[0], T, 1, 'comparison of ' + t); b2 = E.elem_live(st, a[1], T, 1, 'comparison of ' + t)
                    if not b1 or not b2: return E.fresh_bool('cmp')
                    return R(bv64(E.val_at(st, st.blk(b1), a[0].o)), bv64(E.val_at(st, st.blk(b2), a[1].o)))
            h.label = 'element operation ' + f.dem
            return h
    return None

def arg_token(E, st, args, ps):
    """the value an element built from these arguments has: a function of the argument values"""
    acc = None
    for a, p in zip(args, ps):
        t = p.replace(' const', '').rstrip('&').strip()
        if t in E.elems and isinstance(a, Ptr):
            b = E.elem_live(st, a, E.elems[t], 1, 'constructor argument'); v = E.val_at(st, st.blk(b), a.o) if b else 0
            if p.endswith('&&') and not E.elems[t].plain: E.set_val(st, b, a.o, 1, E.elems[t].size, moved(E, None))
        elif p.endswith('&') and isinstance(a, Ptr):
            v = E.toint(E.load(st, a, ir.INT({'int': 32, 'unsigned int': 32, 'char': 8, 'bool': 8}.get(t, 64))))
        else: v = E.toint(a)
        v = bv64(v)
        if v.size() < 64: v = z3.ZeroExt(64 - v.size(), v)
        acc = v if acc is None else comb(acc, v)
    return acc if acc is not None else bv64(0)
comb = z3.Function('args2', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))

# ---------------------------------------------------------------- C library and runtime
PTRDIFF_MAX = (1 << 63) - 1
def allocate(E, st, size, fam, zero, can_fail=True):
    """returns Ptr or None (failure)"""
    st.log.append(('alloc', size, fam))
    if st.ghost.get('noalloc'): return None
    if not isc(size): ok = simp(z3.ULE(size, PTRDIFF_MAX))
    else: ok = size <= PTRDIFF_MAX
    if can_fail and st.choose(2) == 1: st.log.append(('allocfail', size)); return None
    st.assume(ok)
    b = st.new_block(size, 'heap', fam); st.mem[b].fam = fam
    if zero: st.mem[b].base = lambda off: 0
    st.log.append(('allocated', b))
    return Ptr(b, 0)
def release(E, st, p, fam, what):
    if isinstance(p, Ptr) and p.b == 0: return
    if not isinstance(p, Ptr):
        E.oblige(st, 'own', False, what + ' of an invalid pointer')
    blk = st.blk(p.b)
    if blk is None: E.oblige(st, 'own', False, what + ' of an object that is gone')
    E.oblige(st, 'own', blk.alive, what + ': buffer released twice')
    E.oblige(st, 'own', blk.kind == 'heap', what + ' of memory that was not allocated')
    E.oblige(st, 'own', eq(p.o, 0), what + ' of a pointer into the middle of a buffer')
    E.oblige(st, 'own', blk.fam == fam, what + ': buffer released with the wrong deallocator (allocated by %s)' % blk.fam)
    if blk.life is not None and blk.life != 'dead':
        i = E.fresh('fr')
        E.oblige(st, 'life', b_imp(ult(i, blk.size), E.life_is(E.life_at(st, blk, i), 0)), what + ': buffer still holds live elements')
    nb = blk.copy(); nb.alive = False; st.mem[p.b] = nb
    st.log.append(('free', p.b, fam))

def clib():
    T = {}
    def reg(*names):
        def d(fn):
            fn.label = names[0]
            for n in names: T[n] = fn
            return fn
        return d
    @reg('calloc')
    def _(E, st, a, n):
        tot = mul(a[0], a[1])
        if isc(a[0]) and isc(a[1]): over = a[0] * a[1] >> 64 != 0
        else:
            x, y = (a[0], a[1]) if isc(a[1]) else (a[1], a[0])
            over = simp(z3.UGT(bv64(x), ((1 << 64) - 1) // y)) if isc(y) and y else simp(z3.Not(z3.BVMulNoOverflow(bv64(x), bv64(y), False)))
        if over is True or (over is not False and st.decide(over)): 
            st.log.append(('alloc', tot, 'malloc')); return NULL
        p = allocate(E, st, tot, 'malloc', True)
        return p if p is not None else NULL
    @reg('malloc')
    def _(E, st, a, n):
        p = allocate(E, st, a[0], 'malloc', False)
        return p if p is not None else NULL
    @reg('free')
    def _(E, st, a, n): release(E, st, a[0], 'malloc', 'free()')
    @reg('realloc')
    def _(E, st, a, n):
        old = a[0]
        p = allocate(E, st, a[1], 'malloc', False)
        if p is None: return NULL
        if isinstance(old, Ptr) and old.b:
            ob = st.blk(old.b)
            if ob is not None and ob.alive:
                m = b_ite(ult(ob.size, a[1]), ob.size, a[1], 64)
                E.memcpy(st, p, old, simp(m), 'realloc')
        release(E, st, old, 'malloc', 'realloc()'); return p
    def newop(fam, nothrow):
        def h(E, st, a, n):
            p = allocate(E, st, a[0], fam, False)
            if p is None:
                if nothrow: return NULL
                raise Throw('_ZTISt9bad_alloc')
            return p
        return h
    T['operator new(unsigned long)'] = newop('new', False)
    T['operator new[](unsigned long)'] = newop('new[]', False)
    T['operator new(unsigned long, std::nothrow_t const&)'] = newop('new', True)
    T['operator new[](unsigned long, std::nothrow_t const&)'] = newop('new[]', True)
    for k in list(T):
        if k.startswith('operator new'): T[k].label = k
    for suf in ('(void*)', '(void*, unsigned long)', '(void*, std::nothrow_t const&)'):
        def d1(E, st, a, n): release(E, st, a[0], 'new', 'operator delete')
        def d2(E, st, a, n): release(E, st, a[0], 'new[]', 'operator delete[]')
        d1.label = 'operator delete'; d2.label = 'operator delete[]'
        T['operator delete' + suf] = d1; T['operator delete[]' + suf] = d2
    @reg('llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'memcpy', 'memmove')
    def _(E, st, a, n):
        cnt = a[2]
        if n.endswith('memcpy') or 'memcpy' in n:
            if isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0].b == a[1].b and a[0].b and not (isc(cnt) and isc(a[0].o) and isc(a[1].o) and a[0].o == a[1].o):
                d = sub(a[0].o, a[1].o)
                ov = b_or(ult(d, cnt), ult(sub(a[1].o, a[0].o), cnt))
                if n.lstrip('@').startswith('llvm'): ov = b_and(ov, b_not(eq(a[0].o, a[1].o)))
                E.oblige(st, 'mem', b_not(ov), 'memcpy with overlapping ranges')
        E.memcpy(st, a[0], a[1], cnt); return a[0]
    @reg('llvm.memset.p0.i64', 'memset')
    def _(E, st, a, n):
        by = a[1]
        if not isc(by) and by.size() > 8: by = simp(z3.Extract(7, 0, by))
        elif isc(by): by &= 255
        E.memset(st, a[0], by, a[2]); return a[0]
    @reg('memcmp', 'bcmp', '__builtin_memcmp')
    def _(E, st, a, n): return do_memcmp(E, st, a[0], a[1], a[2])
    @reg('strlen')
    def _(E, st, a, n): return do_strlen(E, st, a[0])
    @reg('memchr')
    def _(E, st, a, n): return do_memchr(E, st, a[0], a[1], a[2])
    @reg('strchr')
    def _(E, st, a, n): return do_memchr(E, st, a[0], a[1], add(do_strlen(E, st, a[0]), 1))
    @reg('strnlen')
    def _(E, st, a, n): return do_strnlen(E, st, a[0], a[1])
    @reg('strcpy', 'stpcpy')
    def _(E, st, a, n):
        m = do_strlen(E, st, a[1]); no_overlap(E, st, a[0], a[1], add(m, 1), n); E.memcpy(st, a[0], a[1], add(m, 1), n)
        return shiftb(a[0], m) if n.endswith('stpcpy') else a[0]
    @reg('strncpy')
    def _(E, st, a, n):
        m = do_strnlen(E, st, a[1], a[2]); no_overlap(E, st, a[0], a[1], m, n); E.memcpy(st, a[0], a[1], m, n)
        E.memset(st, shiftb(a[0], m), 0, sub(a[2], m)); return a[0]
    @reg('strcat')
    def _(E, st, a, n):
        k = do_strlen(E, st, a[0]); m = do_strlen(E, st, a[1]); d = shiftb(a[0], k); no_overlap(E, st, d, a[1], add(m, 1), n); E.memcpy(st, d, a[1], add(m, 1), n); return a[0]
    @reg('strncat')
    def _(E, st, a, n):
        k = do_strlen(E, st, a[0]); m = do_strnlen(E, st, a[1], a[2]); d = shiftb(a[0], k); no_overlap(E, st, d, a[1], m, n); E.memcpy(st, d, a[1], m, n)
        E.memset(st, shiftb(d, m), 0, 1); return a[0]
    @reg('strcmp', 'strcoll')
    def _(E, st, a, n):
        x, y = do_strlen(E, st, a[0]), do_strlen(E, st, a[1])
        return do_memcmp(E, st, a[0], a[1], add(simp(b_ite(ult(x, y), x, y, 64)), 1))
    @reg('strncmp')
    def _(E, st, a, n):
        x, y = do_strnlen(E, st, a[0], a[2]), do_strnlen(E, st, a[1], a[2]); m = simp(b_ite(ult(x, y), x, y, 64))
        return do_memcmp(E, st, a[0], a[1], simp(b_ite(ult(m, a[2]), add(m, 1), m, 64)))
    @reg('mempcpy')
    def _(E, st, a, n): no_overlap(E, st, a[0], a[1], a[2], n); E.memcpy(st, a[0], a[1], a[2]); return shiftb(a[0], a[2])
    @reg('bzero')
    def _(E, st, a, n): E.memset(st, a[0], 0, a[1])
    for nm in ('llvm.lifetime.start.p0', 'llvm.lifetime.end.p0', 'llvm.dbg.declare', 'llvm.dbg.value', 'llvm.assume', 'llvm.donothing', 'llvm.experimental.noalias.scope.decl'):
        def no(E, st, a, n): return None
        no.label = nm; T[nm] = no
    def trap(E, st, a, n): raise Terminate('trap')
    T['llvm.trap'] = trap; trap.label = 'llvm.trap'
    for w in (1, 8, 16, 32, 64):
        def ic(E, st, a, n): return 0
        ic.label = 'llvm.is.constant'; T['llvm.is.constant.i%d' % w] = ic
    for w in (8, 16, 32, 64):
        def ex(E, st, a, n): return a[0]
        ex.label = 'llvm.expect'; T['llvm.expect.i%d' % w] = ex
        for nm in ('umax', 'umin', 'smax', 'smin'):
            def mm(E, st, a, n, nm=nm, w=w):
                A, B = bv(a[0], w), bv(a[1], w)
                c = {'umax': lambda: z3.UGT(A, B), 'umin': lambda: z3.ULT(A, B), 'smax': lambda: A > B, 'smin': lambda: A < B}[nm]()
                return simp(z3.If(c, A, B))
            mm.label = 'llvm.' + nm; T['llvm.%s.i%d' % (nm, w)] = mm
        def pc(E, st, a, n, w=w):
            if isc(a[0]): return bin(a[0]).count('1')
            x = a[0]; r = 0; k = w; zero = lambda t: isc(t) and t == 0
            while k > 8 and zero(simp(z3.Extract(w - 1, k // 2, x))): k //= 2
            if k < w:
                for i in range(k): r = add(r, simp(z3.ZeroExt(k - 1, z3.Extract(i, i, x))), k)
                return simp(z3.ZeroExt(w - k, r))
            for i in range(w): r = add(r, simp(z3.ZeroExt(w - 1, z3.Extract(i, i, x))), w)
            return r
        pc.label = 'llvm.ctpop'; T['llvm.ctpop.i%d' % w] = pc
        for nm in ('sadd', 'uadd', 'ssub', 'usub', 'smul', 'umul'):
            def ov(E, st, a, n, nm=nm, w=w):
                A, B = bv(a[0], w), bv(a[1], w)
                ext = z3.SignExt if nm[0] == 's' else z3.ZeroExt
                op = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}[nm[1:]]
                k = w if nm[1:] == 'mul' else 1
                r = op(A, B); f = simp(ext(k, r) != op(ext(k, A), ext(k, B)))
                return [simp(r), int(f) if isinstance(f, bool) else f]
            ov.label = 'llvm.%s.with.overflow' % nm; T['llvm.%s.with.overflow.i%d' % (nm, w)] = ov
    def expect1(E, st, a, n): return a[0]
    expect1.label = 'llvm.expect'; T['llvm.expect.i1'] = expect1
    # exceptions
    @reg('__cxa_allocate_exception')
    def _(E, st, a, n):
        b = st.new_block(a[0], 'exc', 'exception'); return Ptr(b, 0)
    @reg('__cxa_free_exception')
    def _(E, st, a, n): return None
    @reg('__cxa_throw')
    def _(E, st, a, n):
        ti = E.mod_name(a[1]); raise Throw(ti, a[0])
    @reg('__cxa_begin_catch')
    def _(E, st, a, n): st.caught.append(st.exc); return a[0]
    @reg('__cxa_end_catch')
    def _(E, st, a, n):
        if st.caught: st.caught.pop()
    @reg('__cxa_rethrow')
    def _(E, st, a, n):
        if not st.caught: raise Terminate('rethrow without exception')
        ti, obj = st.caught[-1]; raise Throw(ti, obj)
    @reg('__cxa_bad_cast', '__cxa_pure_virtual')
    def _(E, st, a, n): raise Terminate(n)
    @reg('std::terminate()', '__clang_call_terminate', 'abort')
    def _(E, st, a, n): raise Terminate('std::terminate')
    for nm, ti in (('length_error(char const*)', 'St12length_error'), ('out_of_range(char const*)', 'St12out_of_range'),
                   ('out_of_range_fmt(char const*, ...)', 'St12out_of_range'), ('logic_error(char const*)', 'St11logic_error'),
                   ('bad_alloc()', 'St9bad_alloc'), ('bad_array_new_length()', 'St20bad_array_new_length')):
        def th(E, st, a, n, ti=ti): raise Throw('_ZTI' + ti)
        th.label = 'std::__throw_' + nm; T['std::__throw_' + nm] = th
    def thg(E, st, a, n): raise Throw('_ZTISt9bad_alloc' if 'bad_alloc' in n else 'other')
    for ty in ('length_error', 'out_of_range', 'logic_error', 'invalid_argument', 'runtime_error', 'overflow_error', 'domain_error', 'range_error'):
        for sig in ('%s(char const*)', '~%s()', '%s(%s const&)'):
            nm = 'std::%s::' % ty + (sig.replace('%s const', 'std::%s const' % ty, 1) if 'const&' in sig else sig).replace('%s', ty)
            def ctor(E, st, a, n): return None
            ctor.label = nm; T[nm] = ctor
    for nm in ('std::bad_alloc::bad_alloc()', 'std::bad_alloc::~bad_alloc()', 'std::exception::exception()', 'std::exception::~exception()',
               'std::bad_optional_access::~bad_optional_access()', 'std::bad_variant_access::~bad_variant_access()', 'std::bad_array_new_length::~bad_array_new_length()',
               'std::bad_optional_access::bad_optional_access()', 'std::bad_variant_access::bad_variant_access()', 'std::exception::~exception()'):
        def ctor(E, st, a, n): return None
        ctor.label = nm; T[nm] = ctor
    def tid(E, st, a, n):
        x = a[0]
        return E.selector(E.mod_name(x))
    tid.label = 'llvm.eh.typeid.for'; T['llvm.eh.typeid.for'] = tid; T['llvm.eh.typeid.for.p0'] = tid
    return T
CLIB = clib()
def clib_match(E, f):
    h = CLIB.get(f.dem)
    if h is None and f.name[1:] in CLIB: h = CLIB[f.name[1:]]
    return h

def do_memcmp(E, st, p, q, n):
    """three-way unsigned byte comparison: first-difference witness"""
    if isc(n) and n == 0: return 0
    E.access(st, p, n, 'read (memcmp)'); E.access(st, q, n, 'read (memcmp)')
    if isinstance(p, Ptr) and p.b == 0 or isinstance(q, Ptr) and q.b == 0: return 0
    A, B = st.blk(p.b), st.blk(q.b)
    if isc(n) and n <= 64:
        r = z3.BitVecVal(0, 32)
        for i in reversed(range(n)):
            a, b = bv(E.rd_byte(st, A, add(p.o, i)), 8), bv(E.rd_byte(st, B, add(q.o, i)), 8)
            r = z3.If(a == b, r, z3.If(z3.ULT(a, b), z3.BitVecVal(mask(32), 32), z3.BitVecVal(1, 32)))
        return simp(r)
    w = mem_diff(E, st, A, p.o, B, q.o, n)
    a, b = bv(E.rd_byte(st, A, add(p.o, w)), 8), bv(E.rd_byte(st, B, add(q.o, w)), 8)
    r = E.fresh('memcmp', 32)
    st.assume(z3.If(tobool(eq(w, n)), r == 0, z3.If(z3.ULT(a, b), r < 0, r > 0)))
    return r
def mem_diff(E, st, A, ao, B, bo, n):
    """first position < n where the bytes differ, or n"""
    if E.post:
        n = E.cv(n)
        for k in range(n):
            if E.cv(E.rd_byte(st, A, add(ao, k))) != E.cv(E.rd_byte(st, B, add(bo, k))): return k
        return n
    w = E.fresh('diff')
    st.assume(ule(w, n))
    st.add_fact(lambda s, k: z3.Or(z3.Not(tobool(ult(k, w))), bv(E.rd_byte(s, A, add(ao, k)), 8) == bv(E.rd_byte(s, B, add(bo, k)), 8)))
    st.assume(z3.Or(w == bv64(n), bv(E.rd_byte(st, A, add(ao, w)), 8) != bv(E.rd_byte(st, B, add(bo, w)), 8)))
    st.add_term(w)
    return w
def shiftb(p, n): return Ptr(p.b, add(p.o, n)) if isinstance(p, Ptr) else p
def no_overlap(E, st, d, p, n, what):
    if isinstance(d, Ptr) and isinstance(p, Ptr) and d.b == p.b and d.b:
        E.oblige(st, 'mem', b_not(b_or(ult(sub(d.o, p.o), n), ult(sub(p.o, d.o), n))), what.lstrip('@') + ' with overlapping ranges')
def do_memchr(E, st, p, ch, n):
    if isc(n) and n == 0: return NULL
    E.access(st, p, n, 'read (memchr)')
    if not isinstance(p, Ptr) or not p.b: return NULL
    ch = simp(z3.Extract(7, 0, bv(ch, 32)))
    w = first_byte(E, st, p, n, lambda b: bv(b, 8) == bv(ch, 8))
    return NULL if st.decide(eq(w, n)) else shiftb(p, w)
def first_byte(E, st, p, n, test):
    """first position < n whose byte satisfies test, or n"""
    blk = st.blk(p.b)
    if isc(n) and n <= 64:
        for i in range(n):
            if st.decide(simp(test(E.rd_byte(st, blk, add(p.o, i))))): return i
        return n
    w = E.fresh('first'); st.assume(ule(w, n))
    st.add_fact(lambda s, k: z3.Or(z3.Not(tobool(ult(k, w))), z3.Not(test(E.rd_byte(s, blk, add(p.o, k))))))
    st.assume(z3.Or(w == bv64(n), test(E.rd_byte(st, blk, add(p.o, w))))); st.add_term(w)
    return w
def do_strnlen(E, st, p, n):
    if isc(n) and n == 0: return 0
    if not isinstance(p, Ptr) or not p.b: E.access(st, p, 1, 'read (strnlen)'); return 0
    blk = st.blk(p.b); room = sub(blk.size, p.o)
    # reading stops at the first NUL: only that much must be readable
    m = b_ite(ult(n, room), n, room, 64); m = simp(m)
    w = first_byte(E, st, p, m, lambda b: bv(b, 8) == 0)
    E.access(st, p, simp(b_ite(ult(w, n), add(w, 1), n, 64)), 'read (strnlen)')
    return w
def do_strlen(E, st, p):
    g = st.ghost.get('strlen', ())
    for q, n in g:
        if isinstance(p, Ptr) and q.b == p.b and eq(q.o, p.o) is True: return n
    E.access(st, p, 1, 'read (strlen)')
    if not isinstance(p, Ptr) or not p.b: return 0
    blk = st.blk(p.b)
    n = E.fresh('strlen')
    room = sub(blk.size, p.o)
    # the string must be terminated inside its object
    if isc(room) and room <= 64 and isc(p.o):
        for i in range(room):
            if st.decide(eq(E.rd_byte(st, blk, p.o + i), 0, 8)): return i
        E.oblige(st, 'mem', False, 'strlen of an unterminated array')
    z = st.ghost.get(('nul', p.b))
    if z is None: raise Unsupported('strlen of unknown buffer')
    # ghost: position z holds a NUL
    E.oblige(st, 'mem', b_and(ule(p.o, z), ult(z, blk.size), eq(E.rd_byte(st, blk, z), 0, 8)), 'strlen of an unterminated array')
    st.assume(ule(n, sub(z, p.o))); st.assume(eq(E.rd_byte(st, blk, add(p.o, n)), 0, 8))
    st.add_fact(lambda s, k: z3.Or(z3.Not(tobool(ult(k, n))), bv(E.rd_byte(s, blk, add(p.o, k)), 8) != 0))
    st.add_term(n)
    return n

MATCHERS = [clib_match, elem_ops, alg]
