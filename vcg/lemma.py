"""Lemmas: the contracts lib.alg assumes for libstdc++ algorithms over opaque elements, proved of their code.

For a function f of libstdc++ in the verified IR with a contract `h` (the handler of lib.alg), the body of f is executed
from an arbitrary pre-state satisfying h's precondition and must end in the state h describes. Its loop is cut by an
invariant that is derived from the contract: after k iterations the elements are as h leaves them for the first k
elements (for comparisons: the first k pairs compared equal), and every counter of the loop has advanced k times.
Established after the first iteration, preserved by an arbitrary further one, used at the exit; no bound on k."""
import re, z3
from .engine import *
from . import dsl, lib
from .lib import PTRDIFF_MAX, USER

class Quiet:
    """obligations of the specification side are not obligations of the code"""
    def __init__(s, E): s.E = E
    def __enter__(s):
        s.old = s.E.__dict__.get('oblige'); s.E.oblige = lambda st, cat, c, msg, definite=True: True
    def __exit__(s, *a):
        if s.old is None: del s.E.oblige
        else: s.E.oblige = s.old

class Cut:
    """loop cut of one lemma"""
    def __init__(s, c, T, blks, effect, count, pairs, differs):
        s.c, s.T, s.blks, s.effect, s.count, s.pairs, s.differs = c, T, blks, effect, count, pairs, differs
        s.pre = {b: c.st.mem[b] for b in blks}
    def expected(s, st, k):
        """the element blocks after k iterations"""
        if s.effect is None: return dict(s.pre)
        x = st.clone(); x.mem.update(s.pre); x.script = [0] * 8; x.sp = 0
        with Quiet(s.c.E): s.effect(x, k)
        return {b: x.mem[b] for b in s.blks}
    def same(s, E, st, exp, k, what):
        """obligations: every element of every block is as expected"""
        S = s.T.size
        for b in s.blks:
            A, B = st.mem[b], exp[b]
            if A is B: continue
            i = E.fresh('lk'); off = mul(i, S)
            def go(x, A=A, B=B, b=b, i=i, off=off):
                x.assume(ule(i, s.c.elemcount[b])); x.assume(ult(i, s.c.elemcount[b])); x.add_term(i)
                lb = 1
                if E.plain is None:
                    la, lb = E.life_at(x, A, off), E.life_at(x, B, off)
                    E.oblige(x, 'life', simp(bv(la, 8) == bv(lb, 8)), what + ': lifetime of an element')
                va, vb = E.val_at(x, A, off), E.val_at(x, B, off)
                ok = simp(bv64(va) == bv64(vb))
                ok = b_or(ok, s.differs(b, i, k))
                if E.plain is None: ok = b_or(ok, simp(bv(lb, 8) == 0))
                E.oblige(x, 'mem', ok, what + ': value of an element')
            E.explore(st, go)
    def at(s, E, st, fr):
        key = ('lemma', fr.blk); rec = fr.snaps.get(key); own = set(b for f in st.frames for b in f.allocas)
        if rec is None:
            if not all(st.mem[b] is s.pre[b] for b in s.blks): raise Unsupported('second loop in ' + fr.f.dem[:80])
            fr.snaps[key] = (0, dict(st.mem), None); return
        n, mem, info = rec
        if n == 0:
            info = {}; drop = []
            for b in own:
                old, new = mem.get(b), st.mem.get(b)
                if old is None or new is None or old is new: continue
                if old.chain is not new.chain or old.life is not new.life: raise Unsupported('loop state')
                for o, (sz, w) in new.cells.items():
                    if o not in old.cells or old.cells[o][0] != sz: drop.append((b, o)); continue
                    v = old.cells[o][1]
                    if E.same(st, v, w, sz * 8) is True: continue
                    d = s.delta(v, w, sz)
                    if d is None: drop.append((b, o))
                    else: info[(b, o)] = (sz, v, d)
            E.oblige(st, 'mem', ule(1, s.count), 'loop: more iterations than elements')
            s.invariant(E, st, 1, 'loop, first iteration')
            k = E.fresh('iter'); st.assume(ule(1, k)); st.assume(ule(k, s.count))
            exp = s.expected(st, k)
            st.mem.update(exp)
            for b in own:
                if b not in st.mem: continue
                nb = st.mem[b].copy(); nb.cells = dict(nb.cells); ch = False
                for o in list(nb.cells):
                    if (b, o) in info: sz, v, d = info[(b, o)]; nb.cells[o] = (sz, s.step(v, d, k, sz)); ch = True
                    elif (b, o) in drop: del nb.cells[o]; ch = True
                if ch: st.mem[b] = nb
            st.ghost['lemk'] = k; st.add_term(k)
            if s.pairs is not None: st.add_fact(lambda x, j: z3.Or(z3.Not(tobool(ult(j, k))), tobool(s.pairs(x, j))))
            fr.snaps[key] = (1, dict(st.mem), (info, k, set(drop))); return
        info, k, drop = info
        k1 = add(k, 1)
        E.oblige(st, 'mem', ule(k1, s.count), 'loop: more iterations than elements')
        for b in own:
            old, new = mem.get(b), st.mem.get(b)
            if old is None or new is None or old is new: continue
            if old.chain is not new.chain or old.life is not new.life: raise Unsupported('loop state')
            for o, (sz, v) in old.cells.items():
                if o not in new.cells or new.cells[o][0] != sz: raise Unsupported('loop state')
                w = new.cells[o][1]
                if (b, o) in info: v = s.step(info[(b, o)][1], info[(b, o)][2], k1, sz)
                if isinstance(v, Ptr):
                    if not isinstance(w, Ptr) or w.b != v.b: raise Unsupported('loop state')
                    E.oblige(st, 'mem', eq(v.o, w.o), 'loop: counter')
                elif E.same(st, v, w, sz * 8) is not True:
                    if isinstance(v, (Fn, Wild, PInt, tuple)) or isinstance(w, (Ptr, Fn, Wild, PInt, tuple)): raise Unsupported('loop state')
                    E.oblige(st, 'mem', eq(v, w, sz * 8), 'loop: counter')
        s.invariant(E, st, k1, 'loop, further iteration')
        E.inductions += 1; raise Dead()
    def invariant(s, E, st, k, what):
        s.same(E, st, s.expected(st, k), k, what)
        if s.pairs is not None:
            j = E.fresh('lj')
            def go(x):
                x.add_term(j); E.oblige(x, 'mem', b_imp(ult(j, k), s.pairs(x, j)), what + ': elements compared so far')
            E.explore(st, go)
    def delta(s, v, w, sz):
        if isinstance(v, Ptr) and isinstance(w, Ptr): d = sub(w.o, v.o) if v.b == w.b else None; return d if d is not None and isc(d) else None
        if isinstance(v, (Ptr, Fn, Wild, PInt, tuple, z3.BoolRef)) or isinstance(w, (Ptr, Fn, Wild, PInt, tuple, z3.BoolRef)): return None
        d = sub(w, v, sz * 8); return d if isc(d) else None
    def step(s, v, d, k, sz):
        if isinstance(v, Ptr): return Ptr(v.b, add(v.o, mul(k, d)))
        n = sz * 8
        kk = k if n == 64 else (k & mask(n) if isc(k) else simp(z3.Extract(n - 1, 0, k)))
        return add(v, mul(kk, d, n), n)

NAMES_RANGE = ('uninitialized_copy', 'uninitialized_move', 'copy', 'move')
def find(E, mod):
    """functions of the module with an assumed algorithm contract: (function, name, element type, move, parameter types)"""
    out = []
    for n, f in mod.funcs.items():
        if f.src is None: continue
        try: h = lib.alg(E, f)
        except Exception: h = None
        if h is None: continue
        q, ta, ps = lib.split_name(f.dem); name = q.replace('std::_V2::', 'std::')[5:]
        it = lib.iter_elem(E, ps[0])
        out.append((f, name, it[1], ps))
    return out
def shapes(name):
    """how the blocks of a lemma are laid out"""
    if name in ('rotate',): return []
    if name in ('destroy', '_Destroy', 'destroy_n', '_Destroy_n') or 'value_construct' in name or 'default_construct' in name: return ['one']
    return ['apart', 'same']

def contract_for(fname, name, mv, ps, prop):
    def fn(c, shape):
        E, st = c.E, c.st; T = next(t for t in E.elems.values() if t is lib.iter_elem(E, ps[0])[0]); S = T.size
        c.elemcount = {}
        lim = PTRDIFF_MAX // S
        construct = name.startswith('uninit')
        def block(nm):
            """block of cap elements; the first len alive"""
            n, cap = c.u64(nm + '.len', False), c.u64(nm + '.cap', False)
            c.assume(ule(n, cap)); c.assume(ule(cap, lim))
            p = c.elems(T, cap if T.plain else n, nm, 'stack', mul(cap, S)); c.elemcount[p.b] = cap
            return p, n, cap
        n = c.u64('n', False); c.assume(ule(n, lim)); n2 = None
        cnt_signed = [p for p in ps if p in ('long', 'int')]
        live = lambda p, ln, i, m: (c.assume(ule(i, ln)), c.assume(ule(m, sub(ln, i))))
        A, an, ac = block('a'); i = c.u64('i', False)
        if shape == 'apart' or shape == 'one': B, bn, bc = (block('b') if shape == 'apart' else (None, None, None))
        else: B, bn, bc = A, an, ac
        j = c.u64('j', False)
        P = lambda blk, x: Ptr(blk.b, mul(x, S))
        pairs = None; move = mv or 'move' in name
        differs = lambda b, e, k: False
        fin = None; m = n
        val = None
        if name in ('uninitialized_copy', 'uninitialized_move', 'uninitialized_copy_n', 'uninitialized_move_n'):
            live(A, an, i, n)
            c.assume(ule(bn, j)); c.assume(ule(j, bc)); c.assume(ule(n, sub(bc, j)))
            mk = lambda k: [P(A, i), k if name.endswith('_n') else P(A, add(i, k)), P(B, j)]
            if move and not T.plain: differs = lambda b, e, k: ult(sub(e, i), k) if b == A.b else False
        elif name in ('copy', 'move', 'copy_n', 'copy_backward', 'move_backward'):
            live(A, an, i, n); live(B, bn, j, n)
            back = name.endswith('backward')
            if shape == 'same': c.assume(ult(i, j) if back else ult(j, i))
            if back: mk = lambda k: [P(A, add(i, sub(n, k))), P(A, add(i, n)), P(B, add(j, n))]
            else: mk = lambda k: [P(A, i), k if name.endswith('_n') else P(A, add(i, k)), P(B, j)]
            if move and not T.plain:
                lo = (lambda k: sub(n, k)) if back else (lambda k: 0)
                differs = lambda b, e, k: b_and(ult(sub(e, add(i, lo(k))), k), b_not(ult(sub(e, add(j, lo(k))), k)) if B.b == A.b else True) if b == A.b else False
        elif name in ('fill', 'fill_n', 'uninitialized_fill', 'uninitialized_fill_n'):
            # the value lives in block b
            c.assume(ult(j, bn))
            if construct: c.assume(ule(an, i)); c.assume(ule(i, ac)); c.assume(ule(n, sub(ac, i)))
            else:
                live(A, an, i, n)
                if shape == 'same': c.assume(b_not(ult(sub(j, i), n)))
            mk = lambda k: [P(A, i), k if name.endswith('_n') else P(A, add(i, k)), P(B, j)]
        elif 'value_construct' in name or 'default_construct' in name:
            c.assume(ule(an, i)); c.assume(ule(i, ac)); c.assume(ule(n, sub(ac, i)))
            mk = lambda k: [P(A, i), k if name.endswith('_n') else P(A, add(i, k))]
        elif name in ('destroy', '_Destroy', 'destroy_n', '_Destroy_n'):
            live(A, an, i, n)
            mk = lambda k: [P(A, i), k if name.endswith('_n') else P(A, add(i, k))]
        elif name == 'swap_ranges':
            live(A, an, i, n); live(B, bn, j, n)
            if shape == 'same': c.assume(z3.Or(tobool(ule(n, sub(j, i))) if False else z3.And(z3.ULE(i, j), z3.ULE(n, j - i)), z3.And(z3.ULE(j, i), z3.ULE(n, i - j))))
            mk = lambda k: [P(A, i), P(A, add(i, k)), P(B, j)]
        elif name in ('equal', 'lexicographical_compare'):
            live(A, an, i, n); n2 = n
            if len(ps) == 4: n2 = c.u64('n2', False); c.assume(ule(n2, lim))
            live(B, bn, j, n2)
            mk = lambda k: [P(A, i), P(A, add(i, n)), P(B, j)] + ([P(B, add(j, n2))] if len(ps) == 4 else [])
            av = lambda x, e: bv64(E.val_at(x, x.mem[A.b], add(mul(i, S), mul(e, S)))); bvv = lambda x, e: bv64(E.val_at(x, x.mem[B.b], add(mul(j, S), mul(e, S))))
            if name == 'equal': pairs = lambda x, e: T.eq(av(x, e), bvv(x, e))
            else:
                pairs = lambda x, e: z3.And(z3.Not(T.lt(av(x, e), bvv(x, e))), z3.Not(T.lt(bvv(x, e), av(x, e))))
                m = simp(b_ite(ult(n2, n), n2, n, 64))
        else: raise Unsupported('no lemma for ' + name)
        args = mk(n)
        cmp = pairs is not None
        h = lib.alg(E, E.mod.funcs[fname])
        blks = [A.b] + ([B.b] if B is not None and B.b != A.b else [])
        cut = Cut(c, T, blks, None if cmp else (lambda x, k: h(E, x, mk(k), fname)), m, pairs, differs)
        E.lemma = cut
        def post(o):
            st = o.st
            if o.kind == 'exc':
                if o.ti != USER: o.req(prop, False, 'unexpected exception'); raise Dead()
                o.req('mem', b_not(eq(n, 0)), 'an empty range must not throw')
                if construct and not move and not T.plain and not T.nothrow: cut.same(E, st, cut.pre, 0, 'exceptional exit')
                elif name in ('fill', 'fill_n', 'copy', 'copy_n') and not T.plain and not T.nothrow:
                    keep = cut.differs; d0 = i if name.startswith('fill') else j; db = A.b if name.startswith('fill') else B.b
                    cut.differs = lambda b, e, k: ult(sub(e, d0), n) if b == db else False
                    try: cut.same(E, st, cut.pre, 0, 'exceptional exit')
                    finally: cut.differs = keep
                else: o.req('mem', False, 'must not throw')
                return
            if o.kind != 'ret': o.req('mem', False, 'must return'); return
            k = st.ghost.get('lemk', 0)
            if cmp:
                cut.same(E, st, cut.pre, 0, 'exit')
                r = tobool(o.result_true()); jj = E.fresh('lj'); st.add_term(jj); st.add_term(k)
                if name == 'equal':
                    o.req('mem', b_imp(r, eq(n, n2)), 'equal: true although the lengths differ')
                    o.req('mem', b_imp(z3.And(r, tobool(ult(jj, n))), pairs(st, jj)), 'equal: true although elements differ')
                    wit = z3.Or(tobool(b_not(eq(n, n2))), *[z3.And(tobool(ult(t, n)), z3.Not(pairs(st, t))) for t in list(st.terms) if not (not isc(t) and t.eq(jj))])
                    o.req('mem', z3.Or(r, wit), 'equal: false although all elements are equal')
                else:
                    o.req('mem', ule(k, m), 'lexicographical_compare: position'); mm = bv64(m); kk = bv64(k)
                    o.req('mem', z3.Or(z3.Not(tobool(ult(jj, k))), pairs(st, jj)), 'lexicographical_compare: elements before the first difference')
                    a, b = av(st, k), bvv(st, k)
                    o.req('mem', z3.Or(kk == mm, T.lt(a, b), T.lt(b, a)), 'lexicographical_compare: first difference')
                    o.req('mem', r == z3.If(kk == mm, tobool(ult(n, n2)), T.lt(a, b)), 'lexicographical_compare: result')
                return
            x = st.clone(); x.mem.update(cut.pre); x.script = [0] * 8; x.sp = 0
            with Quiet(E): v = h(E, x, args, fname)
            cut.same(E, st, {b: x.mem[b] for b in blks}, n, 'exit')
            def cmpv(a, b):
                if isinstance(b, (list, tuple)) and not isinstance(b, Ptr):
                    if not isinstance(a, (list, tuple)) or len(a) != len(b): o.req('mem', False, 'result shape'); return
                    for p, q in zip(a, b): cmpv(p, q)
                elif isinstance(b, Ptr): o.req('mem', isinstance(a, Ptr) and a.b == b.b and eq(a.o, b.o), 'result')
                elif b is not None: o.req('mem', eq(a, b), 'result')
            if E.mod.funcs[fname].ret is not None and v is not None and o.v is not None: cmpv(o.v, v)
        return args, post
    return fn

def jobs(mod, setup, prop):
    """(contract, setup) pairs for every assumed algorithm contract of the module"""
    E = Engine(mod, 1000); setup(E); out = []
    for f, name, mv, ps in find(E, mod):
        if not shapes(name): continue
        con = dsl.Contract('lib', f.dem, f.name[1:], [dict(shape=s) for s in shapes(name)], contract_for(f.name, name, mv, ps, prop), None, (prop,), {})
        def su(E2, f=f):
            setup(E2)
            E2.matchers = [(lambda E3, g, m=m: None if g is f else m(E3, g)) for m in E2.matchers]
        label = 'std::%s over %s' % (name, lib.iter_elem(E, ps[0])[0].name)
        out.append((label, con, su))
    return out
