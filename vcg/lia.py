"""Exact translation of bit-vector queries to linear integer arithmetic, and an incremental solver on top of it.
Every bit-vector term of width w becomes an integer in [0, 2^w); wrap-around is an explicit quotient variable.
Terms outside the fragment raise NoLia; the engine then uses the bit-vector solvers."""
import z3
class NoLia(Exception): pass
Z = z3.Z3_OP_ADD
class Lia:
    def __init__(s):
        s.cache = {}; s.refs = []; s.n = 0; s.funs = {}
        s.defs = []                      # definitional constraints
        s.solver = z3.SolverFor('QF_UFLIA') if False else z3.SimpleSolver()
        s.stack = []                     # converted assertions with their originals
        s.active = set(); s.levels = []
    def fresh(s):
        s.n += 1; return z3.Int('q!%d' % s.n)
    def define(s, *cs):
        out = []
        for c in cs: s.defs.append(c); out.append(len(s.defs) - 1)
        return frozenset(out)
    def fun(s, d):
        f = s.funs.get(d.get_id())
        if f is None:
            dom = [z3.BoolSort() if d.domain(i) == z3.BoolSort() else z3.IntSort() for i in range(d.arity())]
            rng = z3.BoolSort() if d.range() == z3.BoolSort() else z3.IntSort()
            f = z3.Function(d.name(), *dom, rng); s.funs[d.get_id()] = f; s.refs.append(d)
        return f
    def conv(s, t):
        """-> (int/bool term, deps)"""
        k = t.get_id(); r = s.cache.get(k)
        if r is None:
            r = s.conv1(t); s.cache[k] = r; s.refs.append(t)
        return r
    def wrap(s, S, w, lo, hi, deps):
        M = 1 << w
        if lo >= 0 and hi < M: return S, deps
        q = s.fresh()
        d = s.define(z3.And(S - M * q >= 0, S - M * q < M, q >= lo // M, q <= hi // M))
        return S - M * q, deps | d
    def poly(s, t, w):
        """-> list of (coefficient, child) and constant"""
        k = t.decl().kind(); ch = t.children(); M = 1 << w
        sg = lambda v: v - M if v >> (w - 1) else v
        if z3.is_bv_value(t): return [], sg(t.as_long())
        if k == z3.Z3_OP_BADD:
            a, c = [], 0
            for x in ch:
                a2, c2 = s.poly(x, w); a += a2; c += c2
            return a, c
        if k == z3.Z3_OP_BSUB:
            a, c = s.poly(ch[0], w)
            for x in ch[1:]:
                a2, c2 = s.poly(x, w); a = a + [(-m, y) for m, y in a2]; c -= c2
            return a, c
        if k == z3.Z3_OP_BNEG:
            a, c = s.poly(ch[0], w); return [(-m, y) for m, y in a], -c
        if k == z3.Z3_OP_BMUL:
            v = 1; rest = []
            for x in ch:
                if z3.is_bv_value(x): v *= sg(x.as_long())
                else: rest.append(x)
            if len(rest) == 1:
                a, c = s.poly(rest[0], w); return [(m * v, y) for m, y in a], c * v
            if not rest: return [], v
            raise NoLia()
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]):
            a, c = s.poly(ch[0], w); v = 1 << ch[1].as_long(); return [(m * v, y) for m, y in a], c * v
        return [(1, t)], 0
    def conv1(s, t):
        k = t.decl().kind(); ch = t.children(); E = frozenset()
        if z3.is_bool(t):
            if z3.is_true(t) or z3.is_false(t): return t, E
            if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT, z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
                (a, d1), (b, d2) = s.conv(ch[0]), s.conv(ch[1])
                if k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
                    w = ch[0].size(); H = 1 << (w - 1)
                    a = z3.If(a >= H, a - 2 * H, a); b = z3.If(b >= H, b - 2 * H, b)
                r = (a <= b) if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_SLEQ) else (a < b) if k in (z3.Z3_OP_ULT, z3.Z3_OP_SLT) else (a >= b) if k in (z3.Z3_OP_UGEQ, z3.Z3_OP_SGEQ) else (a > b)
                return r, d1 | d2
            if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR, z3.Z3_OP_ITE, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
                cs = [s.conv(x) for x in ch]; d = E.union(*[x[1] for x in cs]); a = [x[0] for x in cs]
                if k == z3.Z3_OP_AND: return z3.And(*a), d
                if k == z3.Z3_OP_OR: return z3.Or(*a), d
                if k == z3.Z3_OP_NOT: return z3.Not(a[0]), d
                if k == z3.Z3_OP_IMPLIES: return z3.Implies(a[0], a[1]), d
                if k == z3.Z3_OP_XOR: return z3.Xor(a[0], a[1]), d
                if k == z3.Z3_OP_ITE: return z3.If(*a), d
                if k == z3.Z3_OP_EQ: return a[0] == a[1], d
                return z3.Distinct(*a), d
            if k == z3.Z3_OP_UNINTERPRETED:
                cs = [s.conv(x) for x in ch]; d = E.union(*[x[1] for x in cs])
                return (s.fun(t.decl())(*[x[0] for x in cs]) if cs else t), d
            raise NoLia()
        w = t.size(); M = 1 << w
        if z3.is_bv_value(t): return z3.IntVal(t.as_long()), E
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BMUL, z3.Z3_OP_BNEG, z3.Z3_OP_BSHL):
            if k == z3.Z3_OP_BSHL and not z3.is_bv_value(ch[1]): raise NoLia()
            ps, c = s.poly(t, w)
            c %= M
            acc = {}
            for m, y in ps:
                i = y.get_id(); acc[i] = (acc.get(i, (0, y))[0] + m, y)
            lo = hi = c; S = []; deps = E
            for m, y in acc.values():
                m %= M
                if m >> (w - 1): m -= M
                if m == 0: continue
                yc, d = s.conv(y); deps = deps | d; S.append(m * yc if m != 1 else yc)
                if m > 0: hi += m * (M - 1)
                else: lo += m * (M - 1)
            if not S: return z3.IntVal(c), E
            e = z3.Sum(S) if len(S) > 1 else S[0]
            if c: e = e + c
            return s.wrap(e, w, lo, hi, deps)
        if k == z3.Z3_OP_BNOT:
            a, d = s.conv(ch[0]); return (M - 1) - a, d
        if k == z3.Z3_OP_ITE:
            (c, d0), (a, d1), (b, d2) = map(s.conv, ch); return z3.If(c, a, b), d0 | d1 | d2
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = t.params(); return s.extract(ch[0], hi, lo)
        if k == z3.Z3_OP_BLSHR and z3.is_bv_value(ch[1]):
            n = ch[1].as_long()
            return s.extract(ch[0], w - 1, n) if n < w else (z3.IntVal(0), E)
        if k == z3.Z3_OP_BAND and len(ch) == 2 and (z3.is_bv_value(ch[0]) or z3.is_bv_value(ch[1])):
            v, x = (ch[0].as_long(), ch[1]) if z3.is_bv_value(ch[0]) else (ch[1].as_long(), ch[0])
            if v & (v + 1) == 0 and v: return s.extract(x, v.bit_length() - 1, 0)
            raise NoLia()
        if k == z3.Z3_OP_CONCAT:
            sh = w; S = []; deps = E
            for x in ch:
                sh -= x.size(); a, d = s.conv(x); deps = deps | d
                if not (z3.is_bv_value(x) and x.as_long() == 0): S.append(a * (1 << sh) if sh else a)
            return (z3.Sum(S) if len(S) > 1 else S[0] if S else z3.IntVal(0)), deps
        if k == z3.Z3_OP_ZERO_EXT: return s.conv(ch[0])
        if k == z3.Z3_OP_SIGN_EXT:
            a, d = s.conv(ch[0]); n = ch[0].size(); return z3.If(a >= (1 << (n - 1)), a + (M - (1 << n)), a), d
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I) and z3.is_bv_value(ch[1]) and ch[1].as_long():
            v = ch[1].as_long(); a, d = s.conv(ch[0]); q, r = s.fresh(), s.fresh()
            d2 = s.define(z3.And(a == v * q + r, r >= 0, r < v, q >= 0))
            return (q if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) else r), d | d2
        if k == z3.Z3_OP_UNINTERPRETED:
            cs = [s.conv(x) for x in ch]; d = E.union(*[x[1] for x in cs])
            v = s.fun(t.decl())(*[x[0] for x in cs]) if cs else z3.Int(t.decl().name())
            return v, d | s.define(z3.And(v >= 0, v < M))
        raise NoLia()
    def extract(s, x, hi, lo):
        w = x.size(); a, d = s.conv(x)
        if lo == 0 and hi == w - 1: return a, d
        # x = 2^(hi+1)*h + 2^lo*m + l
        m = s.fresh(); cs = [m >= 0, m < (1 << (hi - lo + 1))]; e = m * (1 << lo)
        if hi < w - 1:
            h = s.fresh(); cs += [h >= 0, h < (1 << (w - 1 - hi))]; e = e + h * (1 << (hi + 1))
        if lo > 0:
            l = s.fresh(); cs += [l >= 0, l < (1 << lo)]; e = e + l
        return m, d | s.define(z3.And(a == e, *cs))
    def push(s, c):
        a, d = s.conv(c)
        s.solver.push(); new = d - s.active; s.levels.append(new); s.active |= new
        for i in new: s.solver.add(s.defs[i])
        s.solver.add(a); s.stack.append(c)
    def pop(s, n):
        if not n: return
        s.solver.pop(n)
        for _ in range(n): s.active -= s.levels.pop(); s.stack.pop()
    def check(s, pc, c, ms):
        st = s.stack; n = min(len(st), len(pc)); i = 0
        while i < n and (st[i] is pc[i] or st[i].eq(pc[i])): i += 1
        s.pop(len(st) - i)
        for x in pc[i:]: s.push(x)
        a, d = s.conv(c)
        s.solver.set('timeout', ms)
        s.solver.push()
        for k in d - s.active: s.solver.add(s.defs[k])
        s.solver.add(a)
        try:
            r = str(s.solver.check())
            s.model = s.solver.model() if r == 'sat' else None
        finally: s.solver.pop()
        return r
