"""Symbolic executor / verification-condition generator over LLVM IR (see DESIGN.md)."""
import time, random, subprocess, z3
from . import ir, lia

# ---------------------------------------------------------------- values
class Ptr:
    __slots__ = ('b', 'o')
    def __init__(s, b, o): s.b, s.o = b, o
    def __repr__(s): return 'Ptr(%s,%s)' % (s.b, s.o)
class Fn:
    __slots__ = ('n',)
    def __init__(s, n): s.n = n
    def __repr__(s): return 'Fn(%s)' % s.n
    def __eq__(s, o): return isinstance(o, Fn) and o.n == s.n
    def __hash__(s): return hash(s.n)
class PInt:
    """integer obtained from a pointer (provenance kept)"""
    __slots__ = ('b', 'o')
    def __init__(s, b, o): s.b, s.o = b, o
class Wild:
    """pointer value with no provenance (uninitialised or forged)"""
    __slots__ = ('e',)
    def __init__(s, e=None): s.e = e
NULL = Ptr(0, 0)

M64 = (1 << 64) - 1
def mask(w): return (1 << w) - 1
def bv(v, w):
    return z3.BitVecVal(v, w) if isinstance(v, int) else v
def bv64(v): return z3.BitVecVal(v, 64) if isinstance(v, int) else v
def isc(v): return isinstance(v, int)
# comparisons and sign extensions keep their shape: the integer translation is far weaker on the bit-level rewrites
_sp = z3.args2params((), dict(bv_le2extract=False, elim_sign_ext=False))
from z3.z3 import _to_expr_ref
def _simp(e): return _to_expr_ref(z3.Z3_simplify_ex(e.ctx_ref(), e.as_ast(), _sp.params), e.ctx)
def simp(e):
    if isinstance(e, int) or isinstance(e, bool): return e
    e = _simp(e)
    if z3.is_bv_value(e): return e.as_long()
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return e
def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v

def b_and(*cs):
    out = []
    for c in cs:
        if c is True: continue
        if c is False: return False
        out.append(c)
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(*out)
def b_or(*cs):
    out = []
    for c in cs:
        if c is False: continue
        if c is True: return True
        out.append(c)
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(*out)
def b_not(c):
    if c is True: return False
    if c is False: return True
    return z3.Not(c)
def b_imp(a, b): return b_or(b_not(a), b)
def b_ite(c, a, b, w=None):
    if c is True: return a
    if c is False: return b
    if isc(a) and isc(b) and a == b and not isinstance(a, bool): return a
    if isinstance(a, bool) or isinstance(b, bool):
        return z3.If(c, tobool(a), tobool(b))
    if not isc(a): w = a.size() if z3.is_bv(a) else None
    elif not isc(b): w = b.size() if z3.is_bv(b) else None
    return z3.If(c, bv(a, w), bv(b, w))
def tobool(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.BoolVal(bool(x))
    return x
def eq(a, b, w=64):
    if isc(a) and isc(b): return (a & mask(w)) == (b & mask(w))
    if not isc(a) and not isc(b) and a.eq(b): return True
    return simp(bv(a, w) == bv(b, w))
def ule(a, b, w=64):
    if isc(a) and isc(b): return a <= b
    if isc(a) and a == 0: return True
    return simp(z3.ULE(bv(a, w), bv(b, w)))
def ult(a, b, w=64):
    if isc(a) and isc(b): return a < b
    if isc(b) and b == 0: return False
    return simp(z3.ULT(bv(a, w), bv(b, w)))
def slt(a, b, w=64):
    if isc(a) and isc(b): return sgn(a, w) < sgn(b, w)
    return simp(bv(a, w) < bv(b, w))
def add(a, b, w=64):
    if isc(a) and isc(b): return (a + b) & mask(w)
    if isc(a) and a == 0: return b
    if isc(b) and b == 0: return a
    return simp(bv(a, w) + bv(b, w))
def sub(a, b, w=64):
    if isc(a) and isc(b): return (a - b) & mask(w)
    if isc(b) and b == 0: return a
    return simp(bv(a, w) - bv(b, w))
def mul(a, b, w=64):
    if isc(a) and isc(b): return (a * b) & mask(w)
    if isc(a): a, b = b, a
    if isc(b):
        if b == 1: return a
        if b == 0: return 0
    return simp(bv(a, w) * bv(b, w))

# ---------------------------------------------------------------- control exceptions
class Split(Exception):
    def __init__(s, c): s.c = c
class Choose(Exception):
    def __init__(s, n): s.n = n
class Throw(Exception):
    def __init__(s, ti, obj=None): s.ti, s.obj = ti, obj or NULL
class Terminate(Exception):
    def __init__(s, why): s.why = why
class Dead(Exception):
    """path is over (infeasible or already failed)"""
class Unsupported(Exception): pass
class NoMerge(Exception): pass
class MergeBr(Exception):
    def __init__(s, c, j): s.c, s.j = c, j
class LoopLimit(Unsupported): pass
class Budget(Unsupported): pass

# ---------------------------------------------------------------- memory
class Blk:
    __slots__ = ('size', 'kind', 'alive', 'fam', 'cells', 'chain', 'base', 'life', 'val', 'name', 'const', 'b8')
    def __init__(s, size, kind, name=''):
        s.size, s.kind, s.name = size, kind, name
        s.alive = True; s.fam = None; s.cells = {}; s.chain = None; s.base = None
        s.life = None; s.val = None; s.const = False; s.b8 = None
    def copy(s):
        n = Blk.__new__(Blk)
        n.size, n.kind, n.alive, n.fam, n.cells, n.chain, n.base, n.life, n.val, n.name, n.const, n.b8 = \
            s.size, s.kind, s.alive, s.fam, s.cells, s.chain, s.base, s.life, s.val, s.name, s.const, s.b8
        return n
    def frozen_chain(s):
        return (('C', s.cells), s.chain) if s.cells else s.chain

class Frame:
    __slots__ = ('f', 'blk', 'ip', 'prev', 'loc', 'allocas', 'call', 'visits', 'code', 'snaps')
    def clone(s):
        n = Frame.__new__(Frame)
        n.f, n.blk, n.ip, n.prev, n.loc, n.allocas, n.call, n.visits, n.code, n.snaps = \
            s.f, s.blk, s.ip, s.prev, dict(s.loc), list(s.allocas), s.call, dict(s.visits), s.code, dict(s.snaps)
        return n

KEEP = {}      # keeps the expressions whose ids are used as keys alive
class State:
    def __init__(s, E):
        s.E = E; s.pc = []; s.frames = []; s.mem = {}; s.known = {}; s.script = []; s.sp = 0
        s.facts = []; s.terms = []; s.log = []; s.trace = []; s.exc = None; s.caught = []; s.ghost = {}
        s.widened = 0
    def clone(s):
        n = State.__new__(State)
        n.E = s.E; n.pc = list(s.pc); n.frames = [f.clone() for f in s.frames]; n.mem = dict(s.mem)
        n.known = dict(s.known); n.script = list(s.script); n.sp = s.sp
        n.facts = list(s.facts); n.terms = list(s.terms); n.log = list(s.log); n.trace = list(s.trace)
        n.exc = s.exc; n.caught = list(s.caught); n.ghost = dict(s.ghost)
        n.widened = s.widened
        return n
    # -- path condition
    def assume(s, c):
        if c is True: return
        if c is False: raise Dead()
        c = simp(c)
        if c is True: return
        if c is False: raise Dead()
        s.pc.append(c)
        s.known[c.get_id()] = True; KEEP[c.get_id()] = c
        n = simp(z3.Not(c))
        if not isinstance(n, bool): s.known[n.get_id()] = False; KEEP[n.get_id()] = n
    def lookup(s, c):
        if isinstance(c, bool): return c
        c = simp(c)
        if isinstance(c, bool): return c
        k = s.known.get(c.get_id())
        return c if k is None else k
    def can(s, c):
        c = s.lookup(c)
        if isinstance(c, bool): return c
        r = s.E.check(s, c)
        if r == 'unsat': s.remember(c, False)
        return r != 'unsat'
    def must(s, c):
        c = s.lookup(c)
        if isinstance(c, bool): return c
        r = s.E.check(s, z3.Not(c))
        if r == 'unsat': s.remember(c, True); return True
        return False
    def remember(s, c, v):
        s.known[c.get_id()] = v; KEEP[c.get_id()] = c
        n = simp(z3.Not(c))
        if not isinstance(n, bool): s.known[n.get_id()] = not v; KEEP[n.get_id()] = n
    def decide(s, c):
        c = s.lookup(c)
        if isinstance(c, bool): return c
        t = s.can(c)
        if not t: return False
        f = s.can(z3.Not(c))
        if not f: return True
        raise Split(c)
    def choose(s, n):
        if s.sp < len(s.script):
            v = s.script[s.sp]; s.sp += 1; return v
        raise Choose(n)
    # -- universally quantified facts, instantiated at all index terms
    def add_fact(s, fn):
        s.facts.append(fn)
        for t in list(s.terms): s.assume(fn(s, t))
    def add_term(s, t):
        for u in s.terms:
            if isc(u) and isc(t):
                if u == t: return
            elif not isc(u) and not isc(t) and u.eq(t): return
        s.terms.append(t)
        for fn in list(s.facts): s.assume(fn(s, t))
    # -- blocks
    def blk(s, b):
        x = s.mem.get(b)
        if x is None: x = s.E.gmem.get(b)
        return x
    def new_block(s, size, kind, name=''):
        b = s.E.fresh_id(); s.mem[b] = Blk(size, kind, name); return b

class Failure:
    state = None
    def __init__(s, cat, msg, loc, contract, case, model, pc, definite, trace, cond=None):
        s.cat, s.msg, s.loc, s.contract, s.case, s.model, s.pc, s.definite, s.trace, s.cond = cat, msg, loc, contract, case, model, pc, definite, trace, cond
    def name(s): return '%s/%s: %s' % (s.contract, s.cat, s.msg)

class Engine:
    keep_states = False   # replay: keep the state of every failed obligation
    lemma = None   # loop cut of a lemma about a library algorithm (lemma.py)
    post = False   # set while a contract is evaluated on the outcome of a native run (replay.CEngine)
    def __init__(s, mod, timeout_ms=20000, deadline=None, arith=True):
        s.mod = mod; s.nid = 1; s.gmem = {}; s.gids = {}; s.nfresh = 0
        s.arith = arith; s.by = {}
        s.solver = z3.SimpleSolver(); s.stack = []
        s.lia = lia.Lia()
        if arith: s.fast_ms = 2000; s.cvc5_ms = 10000
        else: s.fast_ms = 5000; s.cvc5_ms = 10000
        s.timeout = timeout_ms
        s.obl = {}           # category -> [total, discharged, trivial]
        s.failures = []; s.undecided = []
        s.solver_time = 0.0; s.queries = 0
        s.contract = ''; s.case = ''
        s.intr = {}          # mangled name -> handler (resolved cache; None = inline)
        s.matchers = []      # functions (dem, f) -> handler or None
        s.plain = None; s.elems = {}; s.plains = {}   # opaque element types; trivially copyable element types with opaque comparisons
        s.loop_limit = 6
        s.deadline = deadline
        s.max_steps = 3000000
        s.steps = 0
        s.used_trusted = set(); s.inlined = set(); s.external_used = set()
        s.addrs = {}; s.wide = {}; s.merge = False; s.merges = 0
        s.fnaddrs = {}
        s.paths = 0
        s.widenings = 0; s.inductions = 0; s.cfgs = {}
        s.on_term = None
        s.obl_log = None
        s.crosscheck = None
        s.stop_first = False
    # ---------------------------------------------------------------- naming
    def fresh_id(s): s.nid += 1; return s.nid
    def fresh(s, nm, w=64):
        s.nfresh += 1
        return z3.BitVec('%s!%d' % (nm, s.nfresh), w)
    def fresh_bool(s, nm):
        s.nfresh += 1
        return z3.Bool('%s!%d' % (nm, s.nfresh))
    def fresh_fun(s, nm, w):
        s.nfresh += 1
        return z3.Function('%s!%d' % (nm, s.nfresh), z3.BitVecSort(64), z3.BitVecSort(w))
    def addr(s, b):
        """symbolic base address of a block"""
        if b == 0: return 0
        a = s.addrs.get(b)
        if a is None: a = s.addrs[b] = z3.BitVec('addr!%d' % b, 64)
        return a
    def fnaddr(s, n):
        a = s.fnaddrs.get(n)
        if a is None: a = s.fnaddrs[n] = z3.BitVec('fnaddr!%s' % n, 64)
        return a
    # ---------------------------------------------------------------- solver
    def sync(s, pc):
        st = s.stack; n = min(len(st), len(pc)); i = 0
        while i < n and (st[i] is pc[i] or st[i].eq(pc[i])): i += 1
        if i < len(st):
            s.solver.pop(len(st) - i); del st[i:]
        for c in pc[i:]:
            s.solver.push(); s.solver.add(c); st.append(c)
    def check(s, st, c, obl=False):
        if s.deadline and time.time() > s.deadline: raise Budget('time budget')
        t = time.time()
        s.queries += 1; s.last_model = None; r = 'unknown'; by = 'z3-lia'
        if s.arith:
            try:
                r = s.lia.check(st.pc, c, s.fast_ms)
                if r == 'sat': s.last_model = s.lia.model
            except lia.NoLia: pass
        else:
            by = 'z3-bv'
            s.sync(st.pc)
            s.solver.set('timeout', s.fast_ms)
            r = str(s.solver.check(c))
            if r == 'sat': s.last_model = s.solver.model()
        if r == 'unknown' and obl and s.probe(st, c): r = 'sat'; by = 'probe'
        if r == 'unknown':
            r = s.check_cvc5(st.pc, c); by = 'cvc5'
        if r == 'unknown':
            x = z3.SolverFor('QF_UFBV'); x.set('timeout', s.timeout)
            x.add(*st.pc); x.add(c); r = str(x.check()); by = 'z3-bv'
            if r == 'sat': s.last_model = x.model()
        s.by[by] = s.by.get(by, 0) + 1
        s.solver_time += time.time() - t
        return r
    def check_cvc5(s, pc, c):
        x = z3.Solver(); x.add(*pc); x.add(c)
        txt = x.to_smt2()
        try:
            o = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % s.cvc5_ms] + (['--solve-bv-as-int=sum'] if s.arith else []), input='(set-logic QF_UFBV)\n' + txt, capture_output=True, text=True, timeout=s.cvc5_ms / 1000 + 5)
            r = o.stdout.strip().split('\n')[0]
            return r if r in ('sat', 'unsat') else 'unknown'
        except Exception: return 'unknown'
    def cross(s, st, neg, cat, msg):
        """thorough tier: an independent solver confirms the discharged obligation"""
        r = s.check_cvc5(st.pc, z3.BoolVal(True) if neg is True else neg)
        s.crosscheck[r] = s.crosscheck.get(r, 0) + 1
        if r == 'sat': s.undecided.append(Failure(cat, 'solvers disagree: ' + msg, s.where(st), s.contract, s.case, None, None, False, []))
    def get_model(s, pc, c):
        if s.last_model is not None: 
            return s.last_model
        for k in (1, 6):
            x = z3.SolverFor('QF_UFBV'); x.set('timeout', k * 10000); x.add(*pc); x.add(c)
            if str(x.check()) == 'sat': return x.model()
        return None
    # ---------------------------------------------------------------- obligations
    def oblige(s, st, cat, c, msg, definite=True):
        """record obligation c at the current point; returns True if discharged"""
        o = s.obl.setdefault(cat, [0, 0, 0]); o[0] += 1
        if isinstance(c, (bool, int)): c = bool(c)
        else: c = st.lookup(c)
        if c is True:
            o[1] += 1; o[2] += 1; return True
        neg = True if c is False else z3.Not(c)
        r = s.check(st, z3.BoolVal(True) if neg is True else neg, True)
        if r == 'unsat':
            o[1] += 1
            if c is not False: st.remember(c, True)
            if s.crosscheck is not None: s.cross(st, neg, cat, msg)
            if c is False: raise Dead()
            return True
        loc = s.where(st)
        if r == 'unknown':
            s.undecided.append(Failure(cat, msg, loc, s.contract, s.case, None, list(st.pc), False, list(st.trace)))
        else:
            m = s.get_model(st.pc, z3.BoolVal(True) if neg is True else neg)
            s.failures.append(Failure(cat, msg, loc, s.contract, s.case, s.readmodel(st, m), list(st.pc), definite, list(st.trace), neg))
            if s.keep_states: s.failures[-1].state = st.clone()
            if s.deadline: s.deadline = min(s.deadline, time.time() + 20)
            if s.stop_first: raise Budget('first failure')
        if c is False: raise Dead()
        st.assume(c)
        return False
    def probe(s, st, neg):
        """the solver gave up: try concrete inputs (only ever turns 'undecided' into a found counterexample)"""
        g = z3.And(*(st.pc + [neg])); vs = {}; seen = set(); todo = [g]
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: vs[str(x)] = x
            todo += x.children()
        ins = [v for n, v in vs.items() if n.startswith('in!') and z3.is_bv(v)]
        if not ins or len(ins) > 64: return False
        rnd = random.Random(1)
        pats = [lambda w: mask(w), lambda w: 0, lambda w: 1, lambda w: mask(w) // 3, lambda w: 1 << (w - 1)] + [lambda w: rnd.getrandbits(w)] * 6 + [lambda w: rnd.choice((0, 1, 2, w, mask(w)))] * 6
        t0 = time.time()
        for f in pats:
            if time.time() - t0 > 5: break
            x = z3.SolverFor('QF_UFBV'); x.set('timeout', 1500); x.add(g)
            for v in ins: x.add(v == z3.BitVecVal(f(v.size()) & mask(v.size()), v.size()))
            if str(x.check()) == 'sat': s.last_model = x.model(); return True
        return False
    def readmodel(s, st, m):
        out = {}
        if m is None: return out
        for d in m.decls():
            if d.arity() == 0:
                n = d.name()
                v = m[d]
                if '!' in n and not n.startswith('in!'): continue
                try: out[n] = v.as_long() if z3.is_bv_value(v) or z3.is_int_value(v) else str(v)
                except Exception: out[n] = str(v)
        return out
    def where(s, st):
        for fr in reversed(st.frames):
            if fr.code and fr.ip < len(fr.code):
                d = fr.code[fr.ip].dbg
                if d:
                    l = ir.dbgloc(s.mod, d)
                    if l and any(l.startswith(x) for x in PTLH): return l
        return 'at end of call'
    # ---------------------------------------------------------------- globals
    def gptr(s, name):
        b = s.gids.get(name)
        if b is not None: return b
        g = s.mod.globs.get(name)
        if name in s.mod.funcs: 
            v = s.gids[name] = Fn(name); return v
        if g is None: raise Unsupported('global ' + name)
        if g[0] == 'alias':
            v = s.const(g[1], ir.PTR); s.gids[name] = v; return v
        _, t, init, const = g
        b = s.fresh_id(); blk = Blk(t.size if t.k != 'opaque' else 8, 'global', name); blk.const = const
        p = s.gids[name] = Ptr(b, 0)
        s.gmem[b] = blk
        if init is not None:
            cells = {}; s.init_cells(cells, 0, t, init); blk.cells = cells
        return p
    def init_cells(s, cells, off, t, v):
        k = v[0]
        if k == 'zero' or (k == 'c' and t.k == 'arr'):
            s.zero_cells(cells, off, t)
        elif k == 'bytes':
            for i, x in enumerate(v[1]): cells[off + i] = (1, x)
        elif k == 'agg':
            if t.k == 'arr':
                for i, x in enumerate(v[2]): s.init_cells(cells, off + i * t.elem.size, t.elem, x)
            else:
                for o, f, x in zip(t.offs, t.fields, v[2]): s.init_cells(cells, off + o, f, x)
        elif k == 'undef': pass
        else:
            cells[off] = (t.size, s.const(v, t))
    def zero_cells(s, cells, off, t):
        if t.k == 'arr':
            for i in range(t.n): s.zero_cells(cells, off + i * t.elem.size, t.elem)
        elif t.k == 'struct':
            for o, f in zip(t.offs, t.fields): s.zero_cells(cells, off + o, f)
        elif t.k == 'ptr': cells[off] = (8, NULL)
        else: cells[off] = (t.size, 0)
    def const(s, v, t):
        k = v[0]
        if k == 'c': return v[1] & mask(t.n) if t.k == 'i' else v[1]
        if k == 'null': return NULL
        if k == 'g': return s.gptr(v[1])
        if k == 'undef': return s.undef(v[1])
        if k == 'zero':
            t = v[1]
            if t.k == 'struct': return [s.const(('zero', f), f) for f in t.fields]
            if t.k == 'arr': return [s.const(('zero', t.elem), t.elem) for _ in range(t.n)]
            return NULL if t.k == 'ptr' else 0
        if k == 'agg':
            tt = v[1]
            if tt.k == 'arr': return [s.const(x, tt.elem) for x in v[2]]
            return [s.const(x, f) for x, f in zip(v[2], tt.fields)]
        if k == 'ce':
            if v[1] == 'getelementptr':
                base = s.const(v[3][0][1], ir.PTR)
                return s.gep(v[2], base, [(it, s.const(x, it)) for it, x in v[3][1:]])
            if v[1] == 'ptrtoint':
                p = s.const(v[3], ir.PTR)
                return PInt(p.b, p.o) if isinstance(p, Ptr) and p.b else (p.o if isinstance(p, Ptr) else s.fnaddr(p.n))
            if v[1] == 'inttoptr':
                x = s.const(v[3], v[2])
                if isc(x): return Ptr(0, x)
            raise Unsupported('const expr ' + v[1])
        if k == 'f': return ('F', v[1])
        raise Unsupported('const %r' % (v,))
    def undef(s, t):
        if t.k == 'i': return s.fresh_bool('undef') if t.n == 1 else s.fresh('undef', t.n)
        if t.k == 'ptr': return Wild()
        if t.k == 'struct': return [s.undef(f) for f in t.fields]
        if t.k == 'arr': return [s.undef(t.elem) for _ in range(t.n)]
        return ('F', 'undef')
    # ---------------------------------------------------------------- pointers
    def gep(s, t, base, idx):
        off = 0; first = True; ty = t
        for it, v in idx:
            w = it.n
            if first:
                st_ = ty.size; first = False
                off = add(off, mul(s.sext64(v, w), st_))
                continue
            if ty.k == 'struct':
                off = add(off, ty.offs[v]); ty = ty.fields[v]
            else:
                off = add(off, mul(s.sext64(v, w), ty.elem.size)); ty = ty.elem
        if isinstance(base, Ptr): return Ptr(base.b, add(base.o, off))
        if isinstance(base, Fn):
            if isc(off) and off == 0: return base
        return Wild()
    def sext64(s, v, w):
        if w == 64:
            if isinstance(v, PInt): raise Unsupported('pointer integer as index')
            return v
        if isc(v): return sgn(v, w) & M64
        if isinstance(v, z3.BoolRef): v = z3.If(v, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        return simp(z3.SignExt(64 - w, v))
    def toint(s, v, w=64):
        """integer view of any scalar"""
        if isinstance(v, PInt): return add(s.addr(v.b), v.o)
        if isinstance(v, Ptr): return add(s.addr(v.b), v.o)
        if isinstance(v, Fn): return s.fnaddr(v.n)
        if isinstance(v, Wild):
            if v.e is None: v.e = s.fresh('wild')
            return v.e
        if isinstance(v, z3.BoolRef): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if isinstance(v, bool): return int(v)
        return v
    # ---------------------------------------------------------------- memory access
    def access(s, st, p, n, what):
        """obligation: [p,p+n) is accessible; returns block id"""
        if isinstance(p, Ptr):
            if p.b == 0:
                if isc(n) and n == 0: return 0
                if not isc(n):
                    s.oblige(st, 'mem', eq(n, 0), '%s through a null pointer' % what); return 0
                s.oblige(st, 'mem', False, '%s through a null pointer' % what)
            b = st.blk(p.b)
            if b is None or not b.alive:
                ok = isc(n) and n == 0
                if not ok and not isc(n): s.oblige(st, 'mem', eq(n, 0), '%s of released memory' % what); return p.b
                if not ok: s.oblige(st, 'mem', False, '%s of released memory' % what)
                return p.b
            sz = b.size
            if isc(n) and isc(sz) and isc(p.o):
                if p.o + n <= sz: return p.b
                if n == 0: return p.b
                s.oblige(st, 'mem', False, '%s out of bounds' % what)
            c = b_or(b_and(ule(n, sz), ule(p.o, sub(sz, n))), eq(n, 0))
            s.oblige(st, 'mem', c, '%s out of bounds' % what)
            return p.b
        if isinstance(p, Wild) or isinstance(p, Fn):
            s.oblige(st, 'mem', eq(n, 0) if not isc(n) else n == 0, '%s through an invalid pointer' % what); return 0
        raise Unsupported('access through %r' % (p,))
    def valbyte(s, v, size, k):
        """k-th byte of a stored value"""
        v = s.toint(v, size * 8)
        if isinstance(v, tuple): raise Unsupported('byte of float')
        if isc(v): return (v >> (8 * k)) & 255
        if v.size() < size * 8: v = z3.ZeroExt(size * 8 - v.size(), v)
        return simp(z3.Extract(8 * k + 7, 8 * k, v)) if size > 1 else v
    def selbyte(s, v, size, rel):
        """byte rel (symbolic) of a stored value"""
        r = s.valbyte(v, size, 0)
        for k in range(1, size): r = b_ite(simp(bv64(rel) == k), s.valbyte(v, size, k), r, 8)
        return r
    def pick(s, st, cond, fa, fb, w):
        """value of a conditional; in exit checks the path is split instead of building a nested term"""
        cond = st.lookup(cond)
        if not isinstance(cond, bool) and st.ghost.get('split'): cond = st.decide(cond)
        if cond is True: return fa()
        if cond is False: return fb()
        return b_ite(cond, fa(), fb(), w)
    def rd_byte(s, st, blk, off):
        split = st.ghost.get('split')
        if isc(off):
            for c, (n, v) in blk.cells.items():
                if c <= off < c + n: return s.valbyte(v, n, off - c)
        node = blk.chain
        pend = []
        if not isc(off):
            for c, (n, v) in blk.cells.items():
                cond = simp(z3.ULT(bv64(off) - c, n)) if c else ult(off, n)
                if split and not isinstance(cond, bool): cond = st.decide(cond)
                if cond is False: continue
                pend.append((cond, s.selbyte(v, n, sub(off, c)) if n > 1 else s.valbyte(v, n, 0)))
                if cond is True: break
        res = None
        while node is not None and not (pend and pend[-1][0] is True):
            x, node = node
            k = x[0]
            if k == 'C':
                if isc(off):
                    hit = False
                    for c, (n, v) in x[1].items():
                        if c <= off < c + n: pend.append((True, s.valbyte(v, n, off - c))); hit = True; break
                    if hit: break
                else:
                    for c, (n, v) in x[1].items():
                        cond = simp(z3.ULT(bv64(off) - c, n)) if c else ult(off, n)
                        if split and not isinstance(cond, bool): cond = st.decide(cond)
                        if cond is False: continue
                        pend.append((cond, s.selbyte(v, n, sub(off, c)) if n > 1 else s.valbyte(v, n, 0)))
                        if cond is True: break
                    if pend and pend[-1][0] is True: break
            elif k == 'S':
                _, wo, n, v = x
                cond = eq(off, wo) if n == 1 else ult(sub(off, wo), n)
                cond = st.lookup(cond)
                if split: cond = st.decide(cond)
                if cond is False: continue
                pend.append((cond, s.selbyte(v, n, sub(off, wo)) if n > 1 else s.valbyte(v, n, 0)))
            else:  # 'R'
                _, lo, ln, fb, typed = x
                cond = st.lookup(ult(sub(off, lo), ln))
                if cond is False: continue
                if split: cond = st.decide(cond)
                if cond is False: continue
                if cond is not True and not isc(ln):
                    if st.must(cond): cond = True
                    elif not st.can(cond): continue
                pend.append((cond, fb(st, off)))
        if not (pend and pend[-1][0] is True):
            if blk.base is None: blk.base = s.uninit(blk)
            res = blk.base(off)
        else: res = pend.pop()[1]
        for cond, v in reversed(pend): res = b_ite(cond, v, res, 8)
        return res
    def uninit(s, blk):
        f = s.fresh_fun('uninit', 8)
        return lambda off: f(bv64(off))
    def load(s, st, p, t):
        b = s.access(st, p, t.size, 'read')
        blk = st.blk(b)
        if blk is None: raise Dead()
        if blk.life is not None: s.raw_check(st, blk, p.o, t.size, 'read')
        return s.rd(st, blk, p.o, t)
    def plain_val(s, st, blk, off):
        """value of an element of the trivially copyable type: sign-extended to 64 bits"""
        W = s.plain.size; v = bv(s.rd_word(st, blk, off, W), 8 * W)
        return simp(z3.SignExt(64 - 8 * W, v)) if W < 8 else v
    def rd_word(s, st, blk, off, W):
        """the W-byte word at off (elements of the trivially copyable type), without going through single bytes where possible"""
        if W == 1: return s.rd_byte(st, blk, off)
        w8 = 8 * W
        off = simp(off) if not isc(off) else off
        split = st.ghost.get('split'); pend = []; node = (('C', blk.cells), blk.chain)
        def put(cond, v):
            cond = st.lookup(cond)
            if split and not isinstance(cond, bool): cond = st.decide(cond)
            if cond is False: return False
            pend.append((cond, v())); return cond is True
        def one(c, n, v):
            """single store; None: cannot tell"""
            if n == W and s.divexact(st, sub(off, c), W) is not None: return put(eq(off, c), lambda: bv(s.toint(v), w8))
            dis = st.lookup(b_and(b_not(ult(sub(c, off), W)), b_not(ult(sub(off, c), n))))
            if dis is True or st.must(dis): return False
            return None
        def rest(): return z3.Concat(*[bv(s.rd_byte(st, blk, add(off, i)), 8) for i in reversed(range(W))])
        done = False
        while node is not None and not done:
            x, node = node
            if x[0] == 'C':
                for c, (n, v) in x[1].items():
                    r = one(c, n, v)
                    if r is None: return simp(rest())
                    if r: done = True; break
            elif x[0] == 'S':
                r = one(x[1], x[2], x[3])
                if r is None: return simp(rest())
                done = r
            else:
                _, lo, ln, fb, typed = x; rel = sub(off, lo)
                cond = st.lookup(ult(rel, ln))
                if s.divexact(st, rel, W) is None or s.divexact(st, ln, W) is None:
                    dis = st.lookup(b_or(b_and(b_not(ult(sub(lo, off), W)), b_not(ult(rel, ln))), eq(ln, 0)))
                    if dis is True or st.must(dis): continue
                    if not st.must(b_and(ult(rel, ln), ule(W, ln), ule(rel, sub(ln, W)))): return simp(rest())
                    cond = True
                if cond is False: continue
                if not isinstance(cond, bool) and not split:
                    if st.must(cond): cond = True
                    elif not st.can(cond): continue
                f = getattr(fb, 'val', None)
                done = put(cond, (lambda: s.lowbits(f(off), w8)) if f and s.divexact(st, rel, W) is not None else (lambda: bv(s.rd_word(st, typed[0], add(rel, typed[1]), W), w8)) if typed is not None
                           else lambda: simp(z3.Concat(*[bv(fb(st, add(off, i)), 8) for i in reversed(range(W))])))
        if done: res = pend.pop()[1]
        elif blk.b8 is not None: res = s.lowbits(blk.b8(off), w8)
        else:
            if blk.base is None: blk.base = s.uninit(blk)
            res = simp(z3.Concat(*[bv(blk.base(add(off, i)), 8) for i in reversed(range(W))]))
        for cond, v in reversed(pend): res = b_ite(cond, v, res, w8)
        return res
    def lowbits(s, v, w):
        v = bv64(v); return simp(z3.Extract(w - 1, 0, v)) if w < 64 else v
    def wordbytes(s, f, lo=0):
        """byte function of a sequence of words (elements of the trivially copyable type) starting at lo (f: offset of a word -> value)"""
        W = s.plain.size
        def fb(st, off):
            rel = sub(off, lo)
            for k in range(W):
                if s.divexact(st, sub(rel, k), W) is not None: return s.valbyte(s.lowbits(f(sub(off, k)), 8 * W), W, k)
            k = simp(rel & (W - 1))
            return s.selbyte(s.lowbits(f(simp(bv64(off) - k)), 8 * W), W, k)
        fb.val = f
        return fb
    def rd(s, st, blk, off, t):
        if s.plain is not None and t.k == 'i' and s.plain.size > 1 and t.n == 8 * s.plain.size and (blk.b8 is not None or blk.chain is not None): return s.rd_word(st, blk, off, s.plain.size)
        if t.k in ('struct', 'arr'):
            if t.k == 'arr': return [s.rd(st, blk, add(off, i * t.elem.size), t.elem) for i in range(t.n)]
            return [s.rd(st, blk, add(off, o), f) for o, f in zip(t.offs, t.fields)]
        n = t.size; isptr = t.k == 'ptr'
        if isc(off):
            c = blk.cells.get(off)
            if c is not None and c[0] == n: return s.retype(st, c[1], t)
            over = blk.cells and any(x < off + n and off < x + sz for x, (sz, _) in blk.cells.items())
            if not over:
                node = blk.chain
                while node is not None:
                    x, node = node
                    k = x[0]
                    if k == 'C':
                        c = x[1].get(off)
                        if c is not None and c[0] == n: return s.retype(st, c[1], t)
                        if any(y < off + n and off < y + sz for y, (sz, _) in x[1].items()): break
                    elif k == 'S':
                        _, wo, m, v = x
                        if m == n and st.lookup(eq(off, wo)) is True: return s.retype(st, v, t)
                        dis = st.lookup(b_and(b_not(ult(sub(wo, off), n)), b_not(ult(sub(off, wo), m))))
                        if dis is True or st.must(dis): continue
                        if isptr and m == n:
                            if st.decide(eq(off, wo)): return s.retype(st, v, t)
                        break
                    else:
                        _, lo, ln, fb, typed = x
                        dis = st.lookup(b_or(b_and(b_not(ult(sub(lo, off), n)), b_not(ult(sub(off, lo), ln))), eq(ln, 0)))
                        if dis is not True and blk.kind == 'stack' and st.must(dis): dis = True
                        if dis is True: continue
                        ins = st.lookup(b_and(ult(sub(off, lo), ln), ule(n, ln), ule(sub(off, lo), sub(ln, n))))
                        if ins is not True and ins is not False and st.must(ins): ins = True
                        if ins is True:
                            if typed is not None: return s.rd(st, typed[0], add(sub(off, lo), typed[1]), t)
                            break
                        dis = st.lookup(b_or(b_and(b_not(ult(sub(lo, off), n)), b_not(ult(sub(off, lo), ln))), eq(ln, 0)))
                        if dis is not True and st.must(dis): dis = True
                        if dis is True: continue
                        if isptr:
                            if st.decide(dis): continue
                            if typed is not None and st.decide(ins): return s.rd(st, typed[0], add(sub(off, lo), typed[1]), t)
                        break
                else:
                    if blk.base is None and isptr: return Wild()
                    if isptr:
                        v = [blk.base(off + i) for i in range(8)]
                        if all(isc(x) for x in v) and not any(v): return NULL
                        return Wild()
        elif isptr or (n > 1 and blk.kind == 'global'):
            # symbolic index into a table
            if blk.chain is None:
                for c, (m, v) in blk.cells.items():
                    if m == n and st.decide(eq(off, c)): return s.retype(st, v, t)
            else:
                node = (('C', blk.cells), blk.chain)
                while node is not None:
                    x, node = node
                    if x[0] == 'C':
                        for c, (m, v) in x[1].items():
                            if m == n and st.decide(eq(off, c)): return s.retype(st, v, t)
                    else: break
            if isptr: return Wild()
        bs = [s.rd_byte(st, blk, add(off, i)) for i in range(n)]
        if n == 1: v = bs[0]
        elif all(isc(x) for x in bs): v = sum(x << (8 * i) for i, x in enumerate(bs))
        else: v = simp(z3.Concat(*[bv(x, 8) for x in reversed(bs)]))
        return s.retype(st, v, t)
    def retype(s, st, v, t):
        if t.k == 'ptr':
            if isinstance(v, (Ptr, Fn, Wild)): return v
            if isinstance(v, PInt): return Ptr(v.b, v.o)
            if isc(v): return Ptr(0, v) if v else NULL
            return Wild(v)
        if t.k == 'i':
            if isinstance(v, (Ptr, Fn, Wild)):
                if isinstance(v, Ptr): return PInt(v.b, v.o) if v.b else v.o
                return s.toint(v)
            if isinstance(v, PInt): return v if t.n == 64 else s.trunc(s.toint(v), 64, t.n)
            if t.n == 1:
                if isc(v): return v & 1
                if isinstance(v, z3.BoolRef): return v
                return simp(z3.Extract(0, 0, v) == 1)
            if isinstance(v, z3.BoolRef): return z3.If(v, z3.BitVecVal(1, t.n), z3.BitVecVal(0, t.n))
            if isinstance(v, tuple): return v
            if not isc(v) and v.size() > t.n: v = simp(z3.Extract(t.n - 1, 0, v))
            return v
        return v
    def trunc(s, v, fw, tw):
        if isc(v): return v & mask(tw)
        return s.narrow(v, tw)
    def narrow(s, v, tw):
        r = simp(z3.Extract(tw - 1, 0, v))
        if not isc(r): s.wide[r.get_id()] = (r, v)
        return r
    def unnarrow(s, st, v, tw, lim):
        """the wider value a truncation came from, when the truncation provably lost nothing"""
        x = s.wide.get(v.get_id())
        if x is None or x[1].size() < tw: return None
        if not st.must(ule(x[1], lim, x[1].size())): return None
        return x[1] if x[1].size() == tw else s.narrow(x[1], tw)
    def raw_check(s, st, blk, off, n, what):
        """no live element object may be accessed as raw memory"""
        if isc(off) and isc(n):
            l = s.life_at(st, blk, off)
            s.oblige(st, 'life', s.life_is(l, 0), 'raw %s of memory holding a live element' % what)
        else:
            i = s.fresh('rawi')
            l = s.life_at(st, blk, add(off, i))
            s.oblige(st, 'life', b_imp(ult(i, n), s.life_is(l, 0)), 'raw %s of memory holding a live element' % what)
    def store(s, st, p, n, v, t=None):
        b = s.access(st, p, n, 'write')
        blk = st.blk(b)
        if blk is None: raise Dead()
        if blk.const: s.oblige(st, 'mem', False, 'write to constant memory')
        if blk.life is not None: s.raw_check(st, blk, p.o, n, 'write')
        st.mem[b] = s.wr(st, blk, p.o, n, v)
        st.ghost.pop(('ro', b), None)
    def wr(s, st, blk, off, n, v):
        if isinstance(v, list): raise Unsupported('aggregate store')
        nb = blk.copy()
        if isc(off):
            cells = dict(blk.cells)
            if off in cells and cells[off][0] == n: cells[off] = (n, v)
            else:
                for c, (m, w) in list(cells.items()):
                    if c < off + n and off < c + m:
                        del cells[c]
                        for k in range(m):
                            if not (off <= c + k < off + n): cells[c + k] = (1, s.valbyte(w, m, k))
                cells[off] = (n, v)
            nb.cells = cells
        else:
            nb.chain = (('S', off, n, v), blk.frozen_chain()); nb.cells = {}
        return nb
    def wr_range(s, st, blk, lo, ln, fb, typed=None):
        nb = blk.copy(); nb.chain = (('R', lo, ln, fb, typed), blk.frozen_chain()); nb.cells = {}
        return nb
    def memcpy(s, st, d, sp, n, what='copy'):
        if isc(n) and n == 0: return
        if isc(n) and n > (1 << 62): n = n
        sb = s.access(st, sp, n, 'read (%s)' % what); db = s.access(st, d, n, 'write (%s)' % what)
        sblk, dblk = st.blk(sb), st.blk(db)
        if sb == 0 or db == 0 or sblk is None or dblk is None: return
        if dblk.const: s.oblige(st, 'mem', eq(n, 0), 'write to constant memory')
        if sblk.life is not None: s.raw_check(st, sblk, sp.o, n, what)
        if dblk.life is not None: s.raw_check(st, dblk, d.o, n, what)
        if isc(n) and isc(sp.o) and isc(d.o):
            cs = {c: x for c, x in sblk.cells.items() if c < sp.o + n and sp.o < c + x[0]}
            if cs and all(c >= sp.o and c + x[0] <= sp.o + n for c, x in cs.items()) and sum(x[0] for x in cs.values()) == n:
                nb = dblk
                for c, (m, v) in cs.items(): nb = s.wr(st, nb, d.o + c - sp.o, m, v)
                st.mem[db] = nb; return
        so, do = sp.o, d.o
        delta = sub(so, do)
        fb = lambda st2, off, sblk=sblk, delta=delta: s.rd_byte(st2, sblk, add(off, delta))
        st.mem[db] = s.wr_range(st, dblk, do, n, fb, (sblk, so))
    def memset(s, st, d, byte, n):
        if isc(n) and n == 0: return
        db = s.access(st, d, n, 'write (fill)'); dblk = st.blk(db)
        if db == 0 or dblk is None: return
        if dblk.const: s.oblige(st, 'mem', eq(n, 0), 'write to constant memory')
        if dblk.life is not None: s.raw_check(st, dblk, d.o, n, 'fill')
        if isc(n) and isc(d.o) and n <= 128:
            nb = dblk
            for i in range(n): nb = s.wr(st, nb, d.o + i, 1, byte)
            st.mem[db] = nb; return
        st.mem[db] = s.wr_range(st, dblk, d.o, n, lambda st2, off: byte)
    # ---------------------------------------------------------------- ghost element state
    # life chain nodes: (lo, n, S, code) newest first; code 0 = dead, else type code
    def life_at(s, st, blk, off):
        """list of (cond, code, lo, S) alternatives, newest first, as ITE term BV8; misaligned = 255"""
        node = blk.life; pend = []
        while node is not None and node != 'dead':
            (lo, n, S, code), node = node
            rel = sub(off, lo)
            cond = st.lookup(ult(rel, mul(n, S)))
            if cond is False: continue
            if code and S > 1:
                if isc(rel): al = rel % S == 0
                elif S & (S - 1) == 0: al = simp(z3.Extract(S.bit_length() - 2, 0, rel) == 0)
                else: al = s.aligned(st, rel, S)
                c = b_ite(al, code, 255, 8)
            else: c = code
            pend.append((cond, c))
            if cond is True: break
        res = 0
        if pend and pend[-1][0] is True: res = pend.pop()[1]
        for cond, v in reversed(pend): res = b_ite(cond, v, res, 8)
        return res
    def aligned(s, st, rel, S):
        q = s.divexact(st, rel, S)
        if q is not None: return True
        return simp(z3.URem(rel, z3.BitVecVal(S, 64)) == 0)
    def divexact(s, st, t, S):
        """syntactic exact quotient of a 64-bit term"""
        if isc(t): return t // S if t % S == 0 else None
        t = simp(t)
        ms = t.children() if z3.is_app_of(t, z3.Z3_OP_BADD) else [t]
        q = 0
        for m in ms:
            if z3.is_bv_value(m): c, b = sgn(m.as_long(), 64), None
            elif z3.is_app_of(m, z3.Z3_OP_BMUL) and z3.is_bv_value(m.children()[0]) and len(m.children()) == 2:
                c, b = sgn(m.children()[0].as_long(), 64), m.children()[1]
            else: c, b = 1, m
            if c % S: return None
            c = (c // S) & M64
            q = add(q, c if b is None else mul(b, c))
        return q
    def life_is(s, l, code):
        if s.plain is not None: return True
        if isc(l): return l == code
        return simp(bv(l, 8) == code)
    def val_at(s, st, blk, off):
        if s.plain is not None: return s.plain_val(st, blk, off)
        node = blk.val; pend = []
        while node is not None:
            (lo, n, S, fn), node = node
            cond = st.lookup(ult(sub(off, lo), mul(n, S)))
            if cond is False: continue
            pend.append((cond, fn(off)))
            if cond is True: break
        if pend and pend[-1][0] is True: res = pend.pop()[1]
        else: res = s.fresh('noval')
        for cond, v in reversed(pend): res = b_ite(cond, v, res, 64)
        return res
    def set_life(s, st, b, lo, n, S, code):
        if s.plain is not None: return
        nb = st.blk(b).copy(); nb.life = ((lo, n, S, code), nb.life if nb.life is not None else 'dead'); st.mem[b] = nb
    def set_val(s, st, b, lo, n, S, fn):
        if s.plain is not None:
            W = s.plain.size
            st.mem[b] = s.wr(st, st.blk(b), lo, W, s.lowbits(fn(lo), 8 * W) if W < 8 else fn(lo)) if isc(n) and n == 1 else s.wr_range(st, st.blk(b), lo, mul(n, W), s.wordbytes(fn, lo))
            return
        nb = st.blk(b).copy(); nb.val = ((lo, n, S, fn), nb.val); st.mem[b] = nb
    def elem_live(s, st, p, T, n, what):
        """obligation: [p, p+n*S) are n live elements of type T; returns block id or None if n==0 on null"""
        S, code = T.size, T.code
        tot = mul(n, S)
        if not isc(n):
            # n*S must not wrap
            s.oblige(st, 'mem', ule(n, (1 << 63) // S), '%s: range length overflow' % what)
        b = s.access(st, p, tot, what)
        blk = st.blk(b) if b else None
        if blk is None: return None
        if isc(n) and n == 0 or T.plain: return b
        if isc(n) and n == 1:
            s.oblige(st, 'life', s.life_is(s.life_at(st, blk, p.o), code), '%s: element is not alive' % what)
        else:
            i = s.fresh('li')
            l = s.life_at(st, blk, add(p.o, mul(i, S)))
            s.oblige(st, 'life', b_imp(ult(i, n), s.life_is(l, code)), '%s: element is not alive' % what)
        return b
    def elem_dead(s, st, p, T, n, what):
        S = T.size
        tot = mul(n, S)
        if not isc(n): s.oblige(st, 'mem', ule(n, (1 << 63) // S), '%s: range length overflow' % what)
        b = s.access(st, p, tot, what)
        blk = st.blk(b) if b else None
        if blk is None: return None
        if blk.const: s.oblige(st, 'mem', False, '%s in constant memory' % what)
        if isc(n) and n == 0 or T.plain: return b
        if blk.life is None or blk.life == 'dead': return b
        i = s.fresh('di')
        l = s.life_at(st, blk, add(p.o, i))
        s.oblige(st, 'life', b_imp(ult(i, tot), s.life_is(l, 0)), '%s: over a live element' % what)
        return b
    # ---------------------------------------------------------------- driver
    def push(s, st, f, args, call):
        bl = ir.body(s.mod, f)
        if bl is None: raise Unsupported('external function ' + f.dem)
        s.inlined.add(f.name)
        same = 0
        for fr in st.frames:
            if fr.f is f: same += 1
        if same > 40:
            s.oblige(st, 'term', False, 'unbounded recursion in %s' % f.dem[:120])
        fr = Frame(); fr.f = f; fr.blk = f.entry; fr.ip = 0; fr.prev = None; fr.loc = {}; fr.allocas = []; fr.call = call; fr.visits = {}
        fr.code = bl[f.entry]; fr.snaps = {}
        nm = 0
        for (t, n, a), v in zip(f.params, args):
            if 'byval' in a:
                bt = a['byval']; b = st.new_block(bt.size, 'stack', 'byval'); fr.allocas.append(b)
                s.memcpy(st, Ptr(b, 0), v, bt.size); v = Ptr(b, 0)
            if n is None: n = '%%%d' % nm; nm += 1
            elif n[1:].isdigit(): nm = int(n[1:]) + 1
            fr.loc[n] = v
        st.frames.append(fr)
    def call_wrapper(s, st, name, args):
        f = s.mod.funcs.get('@' + name)
        if f is None or f.src is None: raise Unsupported('wrapper %s missing' % name)
        s.push(st, f, args, None)
    def run(s, st, done):
        """execute until the outermost frame returns; done(state, outcome) is called per path"""
        s.loop([st], len(st.frames) - 1, done, None)
    def loop(s, work, base, done, stop):
        """stop: (frame depth, block) where states are collected instead of continued"""
        arrived = []
        while work:
            st = work.pop()
            try:
                while True:
                    if stop is not None:
                        n = len(st.frames)
                        if n < stop[0]: arrived.append(st); break
                        if n == stop[0]:
                            fr = st.frames[-1]
                            if fr.blk in stop[1] and fr.code[fr.ip].op != 'phi' and not (fr.ip and fr.code[fr.ip - 1].op != 'phi'): arrived.append(st); break
                    fr = st.frames[-1]
                    I = fr.code[fr.ip]
                    s.steps += 1
                    if s.steps > s.max_steps: raise Budget('step budget')
                    if s.deadline and (s.steps & 255) == 0 and time.time() > s.deadline: raise Budget('time budget')
                    try:
                        st.sp = 0
                        snap = None
                        out = s.step(st, fr, I)
                        if st.script: st.script = []
                        if out is not None:
                            if len(st.frames) == base:
                                s.paths += 1; s.finish(done, st, out); break
                    except MergeBr as e:
                        o = st.clone(); npc = len(st.pc)
                        work2 = []
                        for x, cc in ((o, z3.Not(e.c)), (st, e.c)):
                            try: x.assume(cc); work2.append(x)
                            except Dead: pass
                        work += s.join(npc, s.loop(work2, base, done, (len(st.frames), e.j)), len(st.frames)); break
                    except Split as e:
                        st = getattr(e, 'st', None) or st
                        o = st.clone(); o.trace.append(0); st.trace.append(1)
                        try: o.assume(z3.Not(e.c)); work.append(o)
                        except Dead: pass
                        st.assume(e.c)
                    except Choose as e:
                        st = getattr(e, 'st', None) or st
                        for k in range(e.n - 1, 0, -1):
                            o = st.clone(); o.script.append(k); o.trace.append('c%d' % k); work.append(o)
                        st.script.append(0); st.trace.append('c0')
                    except Throw as e:
                        st.script = []
                        out = s.unwind(st, e.ti, e.obj, base)
                        if out is not None:
                            s.paths += 1; s.finish(done, st, out); break
                    except Terminate as e:
                        s.paths += 1; s.finish(done, st, ('terminate', e.why)); break
            except Dead:
                continue
        return arrived
    # ---------------------------------------------------------------- state merging (sound: path conditions are disjoined)
    def join(s, npc, states, depth):
        """merge the states that reached the join point"""
        out = []; groups = {}
        for st in states:
            if len(st.frames) == depth: groups.setdefault(st.frames[-1].blk, []).append(st)
            else: out.append(st)
        for cand in groups.values(): s.join1(npc, cand, out)
        return out
    def join1(s, npc, cand, out):
        while cand:
            x = cand.pop()
            rest = []
            for y in cand:
                m = s.merge2(npc, x, y)
                if m is None: rest.append(y)
                else: x = m; s.merges += 1
            cand = rest; out.append(x)
    def mergeval(s, c, a, b, n):
        if a is b: return a
        if isc(a) and isc(b) and a == b and not isinstance(a, bool) and not isinstance(b, bool): return a
        if isinstance(a, (Ptr, Fn, Wild, PInt, tuple, list)) or isinstance(b, (Ptr, Fn, Wild, PInt, tuple, list)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b and eq(a.o, b.o) is True: return a
            if isinstance(a, Fn) and a == b: return a
            raise NoMerge
        if a is None or b is None: raise NoMerge
        if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
            if isinstance(a, z3.BoolRef) and isinstance(b, z3.BoolRef) or n == 1 and (isc(a) or isc(b)): return simp(z3.If(c, tobool(a), tobool(b)))
            a = z3.If(a, z3.BitVecVal(1, n), z3.BitVecVal(0, n)) if isinstance(a, z3.BoolRef) else a
            b = z3.If(b, z3.BitVecVal(1, n), z3.BitVecVal(0, n)) if isinstance(b, z3.BoolRef) else b
        w = a.size() if not isc(a) else b.size() if not isc(b) else n
        if not isc(a) and a.size() != w or not isc(b) and b.size() != w: raise NoMerge
        if not isc(a) and not isc(b) and a.eq(b): return a
        return simp(z3.If(c, bv(a, w), bv(b, w)))
    def merge2(s, npc, x, y):
        """x if cx else y"""
        if len(x.log) != len(y.log) or any(a is not b for a, b in zip(x.log, y.log)) or x.exc is not y.exc and x.exc != y.exc or len(x.caught) != len(y.caught): return None
        if set(x.mem) != set(y.mem) or x.ghost.keys() != y.ghost.keys() or any(x.ghost[k] is not y.ghost[k] and x.ghost[k] != y.ghost[k] for k in x.ghost): return None
        if len(x.facts) != len(y.facts): return None
        fx, fy = x.frames[-1], y.frames[-1]
        if fx.blk != fy.blk or fx.ip != fy.ip or fx.allocas != fy.allocas: return None
        cx = b_and(*x.pc[npc:]); cy = b_and(*y.pc[npc:])
        cxb, cyb = tobool(cx), tobool(cy)
        m = x.clone()
        try:
            for b, p in x.mem.items():
                q = y.mem[b]
                if p is q: continue
                if p.chain is not q.chain or p.alive != q.alive or p.base is not q.base or p.life is not q.life or p.val is not q.val or p.fam != q.fam: return None
                n = p.copy(); cells = {}
                ks = dict(p.cells); 
                if {k: v[0] for k, v in p.cells.items()} != {k: v[0] for k, v in q.cells.items()}:
                    # initialised on one side only: must not be read on the other; keep the cells both sides have
                    if p.base is not None: return None
                    for k, (sz, v) in list(p.cells.items()):
                        if k not in q.cells or q.cells[k][0] != sz: del ks[k]
                for k, (sz, v) in ks.items(): cells[k] = (sz, s.mergeval(cxb, v, q.cells[k][1], sz * 8))
                if len(ks) != len(p.cells) or len(ks) != len(q.cells):
                    # the same bytes written with different granularity: merge them byte by byte
                    def cover(c): return {k + i for k, (sz, v) in c.items() if k not in ks and not isinstance(v, (Ptr, Fn, Wild, PInt, tuple, list)) and v is not None for i in range(sz)}
                    for i in sorted(cover(p.cells) & cover(q.cells)): cells[i] = (1, s.mergeval(cxb, s.rd_byte(x, p, i), s.rd_byte(y, q, i), 8))
                n.cells = cells; m.mem[b] = n
            fm = m.frames[-1]; loc = {}
            for r, v in fx.loc.items():
                if r not in fy.loc: continue
                w = fy.loc[r]
                if v is w: loc[r] = v; continue
                try: loc[r] = s.mergeval(cxb, v, w, v.size() if z3.is_bv(v) else w.size() if z3.is_bv(w) else 1)
                except NoMerge: continue      # a temporary that is dead at the join, or an unsupported use is reported
                except AttributeError: continue
            fm.loc = loc
            for a, b in zip(x.frames[:-1], y.frames[:-1]):
                if a.loc is not b.loc and any(a.loc[r] is not b.loc.get(r) for r in a.loc): return None
        except NoMerge: return None
        m.pc = x.pc[:npc]; m.known = {k: v for k, v in x.known.items() if y.known.get(k) == v}
        m.terms = [t for t in x.terms if any(t is u for u in y.terms)]
        d = simp(z3.Or(cxb, cyb))
        if d is not True: m.assume(d)
        return m
    def finish(s, done, st, out):
        """run the exit checks of a path; they may themselves split it"""
        work = [st]
        while work:
            st = work.pop(); snap = st.clone(); st.sp = 0
            try: done(st, out)
            except Dead: pass
            except Split as e:
                snap.known = dict(st.known)
                o = snap.clone()
                try: o.assume(z3.Not(e.c)); work.append(o)
                except Dead: pass
                try: snap.assume(e.c); work.append(snap)
                except Dead: pass
            except Choose as e:
                for k in range(e.n):
                    o = snap.clone(); o.script.append(k); work.append(o)
    def explore(s, st, fn):
        """run fn on a copy of the state, splitting locally"""
        work = [st.clone()]
        while work:
            x = work.pop(); snap = x.clone(); x.sp = 0
            try: fn(x)
            except Dead: pass
            except Split as e:
                snap.known = dict(x.known)
                o = snap.clone()
                try: o.assume(z3.Not(e.c)); work.append(o)
                except Dead: pass
                try: snap.assume(e.c); work.append(snap)
                except Dead: pass
    def mod_name(s, v):
        if isinstance(v, Fn): return v.n.lstrip('@').strip('"')
        b = s.gmem.get(v.b) if isinstance(v, Ptr) else None
        return b.name.lstrip('@').strip('"') if b is not None else 'unknown'
    def unwind(s, st, ti, obj, base):
        st.exc = (ti, obj)
        while len(st.frames) > base:
            fr = st.frames[-1]
            I = fr.code[fr.ip]
            if I.op == 'invoke' and fr.ip < len(fr.code):
                # landing pad reached?
                fr.prev = fr.blk; fr.blk = I.a[4]; fr.code = fr.f.blocks[fr.blk]; fr.ip = 0
                return None
            if fr.f.nounwind: return ('terminate', 'exception leaves noexcept function ' + fr.f.dem[:100])
            s.leave(st, fr, True); st.frames.pop()
        return ('exc', ti, obj)
    def leave(s, st, fr, exceptional):
        for b in fr.allocas:
            blk = st.mem.get(b)
            if blk is not None and blk.life is not None and blk.life != 'dead':
                i = s.fresh('lv')
                s.oblige(st, 'leak', b_imp(ult(i, blk.size), s.life_is(s.life_at(st, blk, i), 0)), 'local element object never destroyed')
            st.mem.pop(b, None)
    def ev(s, st, fr, v, t):
        k = v[0]
        if k == 'l':
            try: return fr.loc[v[1]]
            except KeyError: raise Unsupported('value %s' % v[1])
        if k == 'c': return v[1] & mask(t.n) if t is not None and t.k == 'i' else v[1]
        return s.const(v, t)
    # ---------------------------------------------------------------- one instruction
    def step(s, st, fr, I):
        op = I.op
        if op == 'load':
            p = s.ev(st, fr, I.a[0], ir.PTR)
            fr.loc[I.res] = s.load(st, p, I.ty); fr.ip += 1; return None
        if op == 'store':
            v = s.ev(st, fr, I.a[0], I.ty); p = s.ev(st, fr, I.a[1], ir.PTR)
            if I.ty.k in ('struct', 'arr') or isinstance(v, list): s.store_agg(st, p, I.ty, v)
            else:
                if isinstance(v, z3.BoolRef): v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
                elif isinstance(v, bool): v = int(v)
                s.store(st, p, I.ty.size, v)
            fr.ip += 1; return None
        if op == 'getelementptr':
            base = s.ev(st, fr, I.a[0], ir.PTR)
            fr.loc[I.res] = s.gep(I.ty, base, [(t, s.ev(st, fr, v, t)) for t, v in I.a[1]]); fr.ip += 1; return None
        if op == 'call':
            return s.do_call(st, fr, I)
        if op == 'invoke':
            return s.do_call(st, fr, I)
        if op == 'br':
            c, a, b = I.a
            if c is None: s.jump(st, fr, a); return None
            c = s.ev(st, fr, c, ir.INT(1))
            if isc(c): s.jump(st, fr, a if c & 1 else b); return None
            if isinstance(c, bool): s.jump(st, fr, a if c else b); return None
            k = st.lookup(c)
            if not isinstance(k, bool):
                s.loop_guard(st, fr, c)
                if s.merge:
                    ip, hdr, nat, inner = s.cfg(fr.f)
                    j = ip.get(fr.blk)
                    h = inner.get(fr.blk) if fr.blk in hdr else None
                    if h is not None and h != fr.blk: j = (j, h)
                    elif fr.blk in hdr: j = None
                    else: j = (j,)
                    if j is not None and j[0] is not None and st.can(c) and st.can(z3.Not(c)): raise MergeBr(c, j)
            s.jump(st, fr, a if st.decide(c) else b); return None
        if op == 'ret':
            v = None if I.a[0] is None else s.ev(st, fr, I.a[0], I.ty)
            s.leave(st, fr, False)
            st.frames.pop()
            c = fr.call
            if c is None: return ('ret', v)
            fr2 = st.frames[-1]
            if c.res is not None: fr2.loc[c.res] = v
            if c.op == 'invoke': s.jump(st, fr2, c.a[3])
            else: fr2.ip += 1
            return None
        if op == 'icmp':
            fr.loc[I.res] = s.icmp(st, I.a[0], s.ev(st, fr, I.a[1], I.ty), s.ev(st, fr, I.a[2], I.ty), I.ty); fr.ip += 1; return None
        if op in ir.BIN:
            fr.loc[I.res] = s.binop(st, op, s.ev(st, fr, I.a[0], I.ty), s.ev(st, fr, I.a[1], I.ty), I.ty, I.a[2]); fr.ip += 1; return None
        if op in ir.CAST:
            fr.loc[I.res] = s.cast(st, op, s.ev(st, fr, I.a[1], I.a[0]), I.a[0], I.ty); fr.ip += 1; return None
        if op == 'alloca':
            n = s.ev(st, fr, I.a[0], ir.INT(64))
            b = st.new_block(I.ty.size * n, 'stack', I.res); fr.allocas.append(b)
            fr.loc[I.res] = Ptr(b, 0); fr.ip += 1; return None
        if op == 'phi':
            # all phis of the block are evaluated together
            code = fr.code; vals = []
            j = fr.ip
            while code[j].op == 'phi':
                for v, l in code[j].a[0]:
                    if l == fr.prev: vals.append((code[j].res, s.ev(st, fr, v, code[j].ty))); break
                else: raise Unsupported('phi without edge')
                j += 1
            for r, v in vals: fr.loc[r] = v
            fr.ip = j; return None
        if op == 'select':
            c = s.ev(st, fr, I.a[0], ir.INT(1)); a = s.ev(st, fr, I.a[1], I.ty); b = s.ev(st, fr, I.a[2], I.ty)
            if isc(c): v = a if c & 1 else b
            elif I.ty.k == 'i' and not isinstance(a, PInt) and not isinstance(b, PInt):
                if I.ty.n == 1: v = simp(z3.If(c, tobool(a), tobool(b)))
                else: v = simp(b_ite(c, a, b, I.ty.n))
            else: v = a if st.decide(c) else b
            fr.loc[I.res] = v; fr.ip += 1; return None
        if op == 'switch':
            v = s.ev(st, fr, I.a[0], I.ty)
            for cv, lab in I.a[2]:
                if st.decide(eq(v, s.ev(st, fr, cv, I.ty), I.ty.n)): s.jump(st, fr, lab); return None
            s.jump(st, fr, I.a[1]); return None
        if op == 'extractvalue':
            v = s.ev(st, fr, I.a[0], I.ty)
            for i in I.a[1]: v = v[i]
            fr.loc[I.res] = v; fr.ip += 1; return None
        if op == 'insertvalue':
            v = s.ev(st, fr, I.a[0], I.ty); x = s.ev(st, fr, I.a[2], I.a[1])
            fr.loc[I.res] = s.insval(v, I.a[3], x); fr.ip += 1; return None
        if op == 'landingpad':
            return s.landing(st, fr, I)
        if op == 'resume':
            v = s.ev(st, fr, I.a[0], I.ty)
            ti, obj = st.exc
            # leave this frame and continue unwinding in the caller
            if fr.f.nounwind: raise Terminate('exception leaves noexcept function ' + fr.f.dem[:100])
            s.leave(st, fr, True); st.frames.pop()
            if fr.call is None: 
                return ('exc', ti, obj)
            raise Throw(ti, obj)
        if op == 'unreachable':
            s.oblige(st, 'mem', False, 'undefined behaviour: unreachable code reached'); raise Dead()
        if op == 'freeze':
            fr.loc[I.res] = s.ev(st, fr, I.a[0], I.ty); fr.ip += 1; return None
        if op in ('fcmp',):
            a = s.ev(st, fr, I.a[1], I.ty); b = s.ev(st, fr, I.a[2], I.ty)
            raise Unsupported('floating point')
        raise Unsupported('instruction ' + op)
    def insval(s, v, idx, x):
        v = list(v)
        if len(idx) == 1: v[idx[0]] = x
        else: v[idx[0]] = s.insval(v[idx[0]], idx[1:], x)
        return v
    def store_agg(s, st, p, t, v):
        if t.k == 'struct':
            for o, f, x in zip(t.offs, t.fields, v): s.store_agg(st, Ptr(p.b, add(p.o, o)), f, x)
        elif t.k == 'arr':
            for i, x in enumerate(v): s.store_agg(st, Ptr(p.b, add(p.o, i * t.elem.size)), t.elem, x)
        else:
            if isinstance(v, z3.BoolRef): v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            s.store(st, p, t.size, v)
    def jump(s, st, fr, lab):
        fr.prev = fr.blk; fr.blk = lab; fr.code = fr.f.blocks[lab]; fr.ip = 0
        n = fr.visits.get(lab, 0) + 1; fr.visits[lab] = n
        if n > 20000: raise LoopLimit('loop in %s' % fr.f.dem[:80])
        if s.lemma is not None:
            if lab in s.cfg(fr.f)[2]: s.lemma.at(s, st, fr)
        elif s.widenable and ('sym', lab) in fr.snaps: s.induct(st, fr)
    def cfg(s, f):
        """immediate postdominators and loop headers of a function"""
        r = s.cfgs.get(f.name)
        if r is not None: return r
        bl = ir.body(s.mod, f); succ = {}
        for l, code in bl.items():
            t = code[-1]
            if t.op == 'br': succ[l] = [t.a[1]] if t.a[0] is None else [t.a[1], t.a[2]]
            elif t.op == 'switch': succ[l] = [t.a[1]] + [x[1] for x in t.a[2]]
            elif t.op == 'invoke': succ[l] = [t.a[3]]
            else: succ[l] = []
        nodes = list(bl); full = set(nodes)
        exits = [l for l in nodes if not succ[l] and bl[l][-1].op == 'ret']
        pd = {l: ({l} if l in exits else set(full)) for l in nodes}
        ch = True
        while ch:
            ch = False
            for l in reversed(nodes):
                if l in exits: continue
                ss = [x for x in succ[l] if not (not succ[x] and bl[x][-1].op != 'ret')]
                n = set.intersection(*[pd[x] for x in ss]) | {l} if ss else {l}
                if n != pd[l]: pd[l] = n; ch = True
        ip = {}
        for l in nodes:
            c = pd[l] - {l}
            for x in c:
                if pd[x] >= c: ip[l] = x; break
        reach = {}
        hdr = set()
        for l in nodes:
            if len(succ[l]) < 2: continue
            seen = set(); w = [x for x in succ[l] if x != ip.get(l)]
            while w:
                x = w.pop()
                if x in seen: continue
                seen.add(x); w += [y for y in succ[x] if y != ip.get(l)]
            if l in seen: hdr.add(l)
        nat = set(); backs = {}; col = {}; stack = [(f.entry, iter(succ[f.entry]))]; col[f.entry] = 1
        while stack:
            l, it = stack[-1]
            for x in it:
                if col.get(x) == 1: nat.add(x); backs.setdefault(x, set()).add(l)
                elif x not in col: col[x] = 1; stack.append((x, iter(succ[x]))); break
            else: col[l] = 2; stack.pop()
        pred = {l: [] for l in nodes}
        for l in nodes:
            for x in succ[l]: pred[x].append(l)
        inner = {}
        loops = []
        for h in nat:
            body = {h}; w = [l for l in pred[h] if l in backs.get(h, ())]
            while w:
                x = w.pop()
                if x not in body: body.add(x); w += pred[x]
            loops.append((len(body), h, body))
        for n, h, body in sorted(loops, key=lambda t: -t[0]):
            for x in body: inner[x] = h
        r = s.cfgs[f.name] = (ip, hdr, nat, inner); return r
    def loop_guard(s, st, fr, c):
        if s.widenable and fr.blk in s.cfg(fr.f)[2]: fr.snaps.setdefault(('sym', fr.blk), True)
        key = ('sym', fr.blk, fr.ip)
        n = fr.visits.get(key, 0) + 1
        if n > 2 * s.loop_limit:   # step may be re-executed after a split
            raise LoopLimit('loop without invariant in %s' % fr.f.dem[:100])
        fr.visits[key] = n
    widenable = False
    def same(s, st, a, b, n):
        try:
            if a is b: return True
            if isinstance(a, (Ptr, Fn, Wild, PInt, tuple)) or isinstance(b, (Ptr, Fn, Wild, PInt, tuple)):
                return type(a) is type(b) and (isinstance(a, Ptr) and a.b == b.b and eq(a.o, b.o) is True or isinstance(a, Fn) and a == b)
            if isc(a) and isc(b): return a == b
            r = simp(tobool(a) == tobool(b)) if isinstance(a, z3.BoolRef) and isinstance(b, z3.BoolRef) else simp(bv(a, n) == bv(b, n))
            return r if isinstance(r, bool) else None
        except z3.Z3Exception: return False
    def memdiff(s, st, old, new):
        """cells that differ: list of (block, offset, size, old, new), or None if the memories have different shape"""
        if set(old) != set(new): return None
        d = []
        for b, p in old.items():
            q = new[b]
            if p is q: continue
            if p.chain is not q.chain or p.life is not q.life or p.val is not q.val or p.alive != q.alive: return None
            if set(p.cells) != set(q.cells): return None
            for k, (n, v) in p.cells.items():
                m, w = q.cells[k]
                if m != n: return None
                e = s.same(st, v, w, n * 8)
                if e is not True: d.append((b, k, n, v, w, e))
        return d
    def induct(s, st, fr):
        """loops that only advance counters from some iteration on: generalise the counters and check one more iteration"""
        key = ('loop', fr.blk); rec = fr.snaps.get(key)
        if rec is None: fr.snaps[key] = ('last', dict(st.mem), None, len(st.log)); return
        kind, mem, info, nlog = rec
        if kind == 'ind':
            d = s.memdiff(st, mem, st.mem)
            if d is None or nlog != len(st.log): raise LoopLimit('no inductive loop state in %s' % fr.f.dem[:80])
            for b, k, n, v, w, e in d:
                if (b, k) in info:
                    delta, lo = info[(b, k)]
                    if not st.must(simp(bv(w, n * 8) == bv(v, n * 8) + delta)) or not st.must(ule(lo, w, n * 8) if sgn(delta, n * 8) > 0 else ule(w, lo, n * 8)): raise LoopLimit('no inductive loop state in %s' % fr.f.dem[:80])
                elif e is None and st.must(simp(bv(v, n * 8) == bv(w, n * 8))): pass
                else: raise LoopLimit('no inductive loop state in %s' % fr.f.dem[:80])
            s.inductions += 1; raise Dead()
        d = s.memdiff(st, mem, st.mem)
        cand = None
        if d is not None and nlog == len(st.log):
            cand = []
            for b, k, n, v, w, e in d:
                dl = None
                if not isinstance(v, (Ptr, Fn, Wild, PInt, tuple)) and not isinstance(w, (Ptr, Fn, Wild, PInt, tuple)): dl = sub(w, v, n * 8)
                if dl is not None and isc(dl) and st.mem[b].kind == 'stack' and abs(sgn(dl, n * 8)) < 16: cand.append((b, k, n, w, dl))
                elif e is None and st.must(simp(bv(v, n * 8) == bv(w, n * 8))): pass
                else: cand = None; break
        if cand:
            info = {}
            # the values were only proved equal, so continue from the older, equal memory
            for b, k, n, w, dl in cand:
                x = s.fresh('ctr', n * 8); st.assume(ule(w, x, n * 8) if sgn(dl, n * 8) > 0 else ule(x, w, n * 8)); info[(b, k)] = (dl, w)
                nb = st.mem[b].copy(); nb.cells = dict(nb.cells); nb.cells[k] = (n, x); st.mem[b] = nb
            fr.snaps[key] = ('ind', dict(st.mem), info, len(st.log))
            s.widenings += 1; return
        fr.snaps[key] = ('last', dict(st.mem), None, len(st.log))
    # ---------------------------------------------------------------- scalar operations
    def icmp(s, st, pred, a, b, t):
        if t.k == 'ptr' or isinstance(a, (Ptr, Fn, Wild, PInt)) or isinstance(b, (Ptr, Fn, Wild, PInt)):
            return s.picmp(st, pred, a, b)
        w = t.n
        if isc(a) and isc(b):
            if pred[0] == 's': a, b = sgn(a, w), sgn(b, w)
            return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pred[-2:]])
        if w == 1:
            A, B = tobool(a), tobool(b)
            if pred == 'eq': r = A == B
            elif pred == 'ne': r = A != B
            elif pred == 'ult': r = z3.And(z3.Not(A), B)
            elif pred == 'ugt': r = z3.And(A, z3.Not(B))
            elif pred == 'ule': r = z3.Or(z3.Not(A), B)
            elif pred == 'uge': r = z3.Or(A, z3.Not(B))
            else: raise Unsupported('i1 compare')
        else:
            A, B = bv(a, w), bv(b, w)
            r = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B),
                 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B), 'sgt': lambda: A > B, 'sge': lambda: A >= B,
                 'slt': lambda: A < B, 'sle': lambda: A <= B}[pred]()
        r = simp(r)
        return int(r) if isinstance(r, bool) else r
    def picmp(s, st, pred, a, b):
        def norm(x):
            if isinstance(x, PInt): return Ptr(x.b, x.o)
            if isc(x) and x == 0: return NULL
            return x
        a, b = norm(a), norm(b)
        if isinstance(a, Fn) or isinstance(b, Fn):
            if isinstance(a, Fn) and isinstance(b, Fn): r = a.n == b.n
            elif isinstance(a, Wild) or isinstance(b, Wild): r = None
            else: r = False
            if r is not None and pred in ('eq', 'ne'): return int(r == (pred == 'eq'))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.b == b.b:
                r = s.icmp(st, pred, a.o, b.o, ir.INT(64)); return r
            if pred in ('eq', 'ne'):
                # distinct objects; a null pointer differs from every object address
                return int(pred == 'ne')
            s.address_facts(st, a.b); s.address_facts(st, b.b)
        A, B = s.toint(a), s.toint(b)
        return s.icmp(st, pred, A, B, ir.INT(64))
    def address_facts(s, st, b):
        if b == 0: return
        done = st.ghost.get('addr', ())
        if b in done: return
        blk = st.blk(b); sz = blk.size if blk is not None else 0
        st.assume(z3.And(z3.UGE(bv64(s.addr(b)), 4096), z3.ULE(bv64(s.addr(b)), (1 << 63)), z3.ULE(bv64(sz), (1 << 62))))
        for o in done:
            ob = st.blk(o); os_ = ob.size if ob is not None else 0
            st.assume(z3.Or(z3.ULT(s.addr(b) + bv64(sz), s.addr(o)), z3.ULT(s.addr(o) + bv64(os_), s.addr(b))))
        st.ghost['addr'] = done + (b,)
    def binop(s, st, op, a, b, t, fl):
        if isinstance(a, tuple) or isinstance(b, tuple) or op[0] == 'f': raise Unsupported('floating point')
        w = t.n
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt) and a.b == b.b: return sub(a.o, b.o)
            if op == 'add' and isinstance(a, PInt) and not isinstance(b, PInt): return PInt(a.b, add(a.o, b))
            if op == 'add' and isinstance(b, PInt) and not isinstance(a, PInt): return PInt(b.b, add(b.o, a))
            if op == 'sub' and isinstance(a, PInt) and not isinstance(b, PInt): return PInt(a.b, sub(a.o, b))
            for x in (a, b):
                if isinstance(x, PInt): s.address_facts(st, x.b)
            a, b = s.toint(a), s.toint(b)
        if w == 1:
            if isc(a) and isc(b): return {'and': a & b, 'or': a | b, 'xor': a ^ b, 'add': a ^ b}[op]
            A, B = tobool(a), tobool(b)
            r = simp({'and': lambda: z3.And(A, B), 'or': lambda: z3.Or(A, B), 'xor': lambda: z3.Xor(A, B)}[op]())
            return int(r) if isinstance(r, bool) else r
        if op == 'add' and isc(b) and not isc(a) and b < 1 << (w - 2):
            x = s.wide.get(a.get_id())
            if x is not None and x[1].size() > w and st.must(ule(x[1], mask(w - 1) - b, x[1].size())): return s.narrow(add(x[1], b, x[1].size()), w)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            s.oblige(st, 'mem', b_not(eq(b, 0, w)), 'division by zero')
            if op == 'sdiv' and fl.get('exact') and isc(b) and not isc(a) and w == 64:
                q = s.divexact(st, a, b)
                if q is not None:
                    lim = (1 << 63) // b
                    if st.must(simp(z3.ULE(bv64(q) + lim, 2 * lim))) if lim < (1 << 62) else st.must(simp(bv64(q) * b == a)) and b == 1: return q
                if b & (b - 1) == 0: return simp(a >> (b.bit_length() - 1))
        if op in ('shl', 'lshr', 'ashr'):
            s.oblige(st, 'mem', ult(b, w, w), 'shift amount out of range')
        if isc(a) and isc(b):
            m = mask(w)
            if op == 'add': return (a + b) & m
            if op == 'sub': return (a - b) & m
            if op == 'mul': return (a * b) & m
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & m
            if op == 'lshr': return a >> b
            if op == 'ashr': return (sgn(a, w) >> b) & m
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            sa, sb = sgn(a, w), sgn(b, w)
            q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
            return (q if op == 'sdiv' else sa - q * sb) & m
        A, B = bv(a, w), bv(b, w)
        r = {'add': lambda: A + B, 'sub': lambda: A - B, 'mul': lambda: A * B, 'and': lambda: A & B, 'or': lambda: A | B, 'xor': lambda: A ^ B,
             'shl': lambda: A << B, 'lshr': lambda: z3.LShR(A, B), 'ashr': lambda: A >> B, 'udiv': lambda: z3.UDiv(A, B), 'urem': lambda: z3.URem(A, B),
             'sdiv': lambda: A / B, 'srem': lambda: z3.SRem(A, B)}[op]()
        return simp(r)
    def cast(s, st, op, v, ft, tt):
        if op == 'ptrtoint':
            if isinstance(v, Ptr): r = PInt(v.b, v.o) if v.b else v.o
            else: r = s.toint(v)
            if tt.n < 64: return s.trunc(s.toint(r), 64, tt.n)
            return r
        if op == 'inttoptr':
            if isinstance(v, PInt): return Ptr(v.b, v.o)
            if isc(v): return Ptr(0, v)
            return Wild(v)
        if op in ('bitcast', 'addrspacecast'): return v
        if op == 'zext':
            if isc(v): return v
            if isinstance(v, z3.BoolRef): return z3.If(v, z3.BitVecVal(1, tt.n), z3.BitVecVal(0, tt.n))
            r = s.unnarrow(st, v, tt.n, mask(ft.n))
            return r if r is not None else simp(z3.ZeroExt(tt.n - ft.n, v))
        if op == 'sext':
            if isc(v): return sgn(v, ft.n) & mask(tt.n)
            if isinstance(v, z3.BoolRef): return z3.If(v, z3.BitVecVal(mask(tt.n), tt.n), z3.BitVecVal(0, tt.n))
            r = s.unnarrow(st, v, tt.n, mask(ft.n - 1))
            return r if r is not None else simp(z3.SignExt(tt.n - ft.n, v))
        if op == 'trunc':
            if isinstance(v, PInt): v = s.toint(v)
            if isc(v): return v & mask(tt.n)
            if tt.n == 1: 
                r = simp(z3.Extract(0, 0, v) == 1)
                return int(r) if isinstance(r, bool) else r
            return s.narrow(v, tt.n)
        raise Unsupported(op)
    # ---------------------------------------------------------------- exceptions
    def landing(s, st, fr, I):
        ti, obj = st.exc
        sel = 0; hit = False
        for kind, c in I.a[0]:
            if kind == 'filter': continue
            if c[0] == 'null': sel = 1; hit = True; break     # catch (...)
            name = s.mod_name(s.const(c, ir.PTR))
            if s.catches(name, ti): sel = s.selector(name); hit = True; break
        if not hit and not I.a[1]:
            # nothing to do here: continue unwinding
            if fr.f.nounwind: raise Terminate('exception leaves noexcept function')
            s.leave(st, fr, True); st.frames.pop()
            if fr.call is None: return ('exc', ti, obj)
            raise Throw(ti, obj)
        fr.loc[I.res] = [obj, sel]; fr.ip += 1
        return None
    BASES = {'_ZTISt12length_error': ['_ZTISt11logic_error', '_ZTISt9exception'], '_ZTISt12out_of_range': ['_ZTISt11logic_error', '_ZTISt9exception'],
             '_ZTISt11logic_error': ['_ZTISt9exception'], '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc', '_ZTISt9exception'],
             '_ZTISt19bad_optional_access': ['_ZTISt9exception'], '_ZTISt18bad_variant_access': ['_ZTISt9exception'], '_ZTISt12out_of_rangE': []}
    def catches(s, name, ti):
        name = name.lstrip('@').strip('"')
        return name == ti or name in s.BASES.get(ti, [])
    def selector(s, name):
        ids = s.__dict__.setdefault('selids', {})
        name = name.lstrip('@')
        return ids.setdefault(name, len(ids) + 2)
    # ---------------------------------------------------------------- calls
    def do_call(s, st, fr, I):
        callee, args = I.a[0], I.a[1]
        f = s.ev(st, fr, callee, ir.PTR)
        av = [s.ev(st, fr, v, t) if t.k != 'metadata' else None for t, v, a in args]
        if isinstance(f, Fn) and not f.n.startswith('$'):
            h = s.handler(f.n)
            if h is None:
                s.push(st, s.mod.funcs[f.n], av, I)
                return None
        elif isinstance(f, Fn):
            h = s.foreign
        else:
            s.oblige(st, 'mem', False, 'call through an invalid function pointer'); raise Dead()
        snap = st.clone()
        try:
            st.cur = (f, I)
            v = h(s, st, av, f.n)
        except (Split, Choose) as e:
            e.st = snap; raise
        if v is PUSHED: return None
        fr = st.frames[-1]
        if I.res is not None: fr.loc[I.res] = v
        if I.op == 'invoke': s.jump(st, fr, I.a[3])
        else: fr.ip += 1
        return None
    def foreign(s, E, st, av, name): raise Unsupported('foreign function ' + name)
    def handler(s, name):
        if name in s.intr: return s.intr[name]
        f = s.mod.funcs[name]
        h = None
        for m in s.matchers:
            h = m(s, f)
            if h is not None: break
        if h is None and f.src is None: 
            raise Unsupported('external function ' + f.dem[:200])
        if h is not None: s.used_trusted.add(getattr(h, 'label', f.dem))
        s.intr[name] = h
        return h

PUSHED = object()
PTLH = ('vector.hpp', 'string.hpp', 'bitset.hpp', 'optional.hpp', 'variant.hpp', 'variant_ref.hpp', 'optional_ref.hpp', 'function_ref.hpp',
        'array.hpp', 'array_ref.hpp', 'string_ref.hpp', 'tuple.hpp')
