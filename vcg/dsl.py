"""Contract DSL: pre-states, exit checks, registration and execution of one contract case."""
import itertools, time, traceback, z3
from .engine import *
from . import ir, lib
from .lib import Elem, USER, PTRDIFF_MAX

CONTRACTS = {}      # harness -> list of Contract
class Contract:
    def __init__(s, harness, name, wrapper, cases, fn, props, core, opts):
        s.harness, s.name, s.wrapper, s.cases, s.fn, s.props, s.core, s.opts = harness, name, wrapper, cases, fn, props, core, opts

def contract(harness, wrapper, core, name=None, cases=None, **opts):
    """core: properties that the basic safety obligations of this function count for"""
    def d(fn):
        grid = [{}]
        for k, vs in (cases or {}).items(): grid = [dict(g, **{k: v}) for g in grid for v in vs]
        flt = opts.get('when')
        if flt: grid = [g for g in grid if flt(**g)]
        CONTRACTS.setdefault(harness, []).append(Contract(harness, name or wrapper, wrapper, grid, fn, None, core, opts))
        return fn
    return d

LEN, OOR, BADALLOC = '_ZTISt12length_error', '_ZTISt12out_of_range', '_ZTISt9bad_alloc'
BADOPT, BADVAR = '_ZTISt19bad_optional_access', '_ZTISt18bad_variant_access'
ALLOCFAIL = (BADALLOC, '_ZTISt20bad_array_new_length', LEN)

class Ctx:
    def __init__(c, E, case, bounded=0):
        c.E, c.case, c.bounded = E, case, bounded
        c.st = State(E); c.heap0 = set(); c.owners = []; c.keep = []; c.shrink_may_fail = False; c.excprop = None
    # -- inputs
    def u64(c, nm, small=True):
        v = z3.BitVec('in!' + nm, 64)
        if c.bounded and small: c.st.assume(ule(v, c.bounded))
        return v
    def scalar(c, nm, w):
        return z3.BitVec('in!' + nm, w)
    def boolean(c, nm): return z3.Bool('in!' + nm)
    def assume(c, x): c.st.assume(x)
    def out(c, size=8, nm='out'):
        return Ptr(c.st.new_block(size, 'stack', nm), 0)
    def obj(c, size, cells, nm='obj'):
        b = c.st.new_block(size, 'stack', nm); c.st.mem[b].cells = dict(cells); return Ptr(b, 0)
    def opaque(c, size, nm):
        """block with arbitrary contents"""
        b = c.st.new_block(size, 'stack', nm); f = z3.Function('in!' + nm, z3.BitVecSort(64), z3.BitVecSort(8))
        c.st.mem[b].base = lambda off: f(bv64(off)); return Ptr(b, 0)
    def elems(c, T, n, nm, kind='stack', size=None):
        """n live elements in their own block"""
        b = c.st.new_block(mul(n, T.size) if size is None else size, kind, nm)
        if T.plain:
            f = z3.Function('in!' + nm, z3.BitVecSort(64), z3.BitVecSort(64)); blk = c.st.mem[b]
            blk.b8 = lambda off: f(bv64(off)); fb = c.E.wordbytes(blk.b8); blk.base = lambda off: fb(c.st, off); return Ptr(b, 0)
        f = z3.Function('in!' + nm, z3.BitVecSort(64), z3.BitVecSort(64))
        blk = c.st.mem[b]; blk.life = ((0, n, T.size, T.code), 'dead'); blk.val = ((0, n, T.size, lambda off: f(bv64(off))), None)
        if isc(n) and n == 0: blk.life = 'dead'; blk.val = None
        return Ptr(b, 0)
    def foreign_dealloc(c, nm): return Fn('$dealloc_' + nm)

def foreign(E, E2, st, av, name):
    if name.startswith('$dealloc_'):
        lib.release(E, st, av[0], name, 'stored deallocator'); return None
    h = getattr(E, 'foreign_fns', {}).get(name)
    if h is None: raise Unsupported('foreign ' + name)
    return h(E, st, av, name)

class Out:
    """exit of one path"""
    def __init__(o, c, st, out, name):
        o.c, o.E, o.st = c, c.E, st
        o.nsk = 0; o.kind = out[0]; o.v = out[1] if len(out) > 1 else None
        o.ti = out[1] if o.kind == 'exc' else None
    def req(o, cat, cond, msg):
        x = o.c.excprop
        if o.kind == 'exc' and x and x not in cat: cat = cat + ',' + x
        if not o.wants(cat):
            if cond is False: raise Dead()
            return
        return o.E.oblige(o.st, cat, cond, msg)
    def wants(o, cat):
        """is this obligation about the property being checked?"""
        if o.kind == 'exc' and o.c.excprop: cat = cat + ',' + o.c.excprop
        cs = cat.split(',')
        return o.E.prop is None or o.E.prop in cs or cs[0] in ('mem', 'life', 'leak', 'term', 'own')
    def returned(o, cat, why='operation must not fail'):
        """the operation must have returned normally"""
        if o.kind == 'ret': return True
        o.req(cat, False, '%s (%s: %s)' % (why, o.kind, o.v)); raise Dead()
    def each(o, fn):
        """check fn() on every sub-case of this exit (reads split the path instead of building nested terms)"""
        st = o.st
        def go(x):
            x.ghost['split'] = True; o.st = x
            try: fn()
            finally: o.st = st
        o.E.explore(st, go)
    def skolem(o, nm='k'):
        o.nsk += 1; k = z3.BitVec('sk!%s%d' % (nm, o.nsk), 64); o.st.add_term(k); return k
    def word(o, p, off=0): 
        return o.E.rd(o.st, o.st.blk(p.b), add(p.o, off), ir.INT(64))
    def ptr(o, p, off=0): return o.E.rd(o.st, o.st.blk(p.b), add(p.o, off), ir.PTR)
    def byte(o, p, off=0): return o.E.rd(o.st, o.st.blk(p.b), add(p.o, off), ir.INT(8))
    def same_ptr(o, cat, a, b, msg):
        """pointer equality as an obligation"""
        o.req(cat, o.ptr_eq(a, b), msg)
    def ptr_eq(o, a, b):
        if isinstance(a, Fn) or isinstance(b, Fn): return a == b
        if isinstance(a, Ptr) and isinstance(b, Ptr): return eq(a.o, b.o) if a.b == b.b else False
        return False
    def forall(o, n, body):
        """body(k) for a fresh k < n, as one boolean"""
        k = o.skolem(); return b_imp(ult(k, n), body(k))
    def noleak(o, cat, owned):
        """every heap block alive at exit is owned"""
        for b, blk in o.st.mem.items():
            if blk.kind == 'heap' and blk.alive and b not in owned:
                o.req(cat, False, 'heap buffer leaked')
    def result_bool(o): return tobool(o.result_true())
    def result_true(o): 
        v = o.v
        if isinstance(v, z3.BoolRef): return v
        if isc(v): return bool(v & 1)
        if isinstance(v, bool): return v
        return simp(z3.Extract(0, 0, v) == 1)

def run_case(mod, con, case, setup, bounded=0, deadline=None, timeout=20000, cross=None, prop=None, keep=None):
    """discharge one contract case; returns a result dict"""
    t0 = time.time()
    E = Engine(mod, timeout, (t0 + deadline) if deadline else None, arith=con.opts.get('arith', True))
    E.merge = con.opts.get('merge', False); E.widenable = con.opts.get('induct', False)
    E.prop = prop; E.contract = con.name; E.case = ' '.join('%s=%s' % kv for kv in case.items())
    E.matchers = list(lib.MATCHERS); E.foreign = lambda E2, st, av, n: foreign(E, E2, st, av, n)
    E.foreign_fns = {}
    if bounded: E.loop_limit = 64
    setup(E)
    E.loop_limit = con.opts.get('loop_limit', E.loop_limit)
    if cross: E.crosscheck = {}
    r = dict(contract=con.name, case=E.case, status='proved', reason='', exits={}, bounded=bounded)
    c = Ctx(E, case, bounded); c.excprop = con.opts.get('excprop')
    cov = r['exits']
    try:
        args, post = con.fn(c, **case)
        if str(E.check(c.st, z3.BoolVal(True))) == 'unsat': r['status'] = 'vacuous'; r['reason'] = 'precondition unsatisfiable'
        for a in list(args):
            pass
        E.keep_states = keep is not None
        if keep is not None: keep.update(E=E, c=c, args=args, post=post, pre=c.st.clone())
        E.call_wrapper(c.st, con.wrapper, args)
        def done(st, out):
            cov[out[0]] = cov.get(out[0], 0) + 1
            o = Out(c, st, out, con.wrapper); x_pc = list(st.pc)
            if out[0] == 'terminate' and c.shrink_may_fail and any(x[0] == 'allocfail' for x in st.log): return
            if out[0] == 'terminate':
                E.oblige(st, 'term', False, 'std::terminate called: ' + str(out[1])); raise Dead()
            post(o)
            if keep is not None and len(keep.setdefault('finals', [])) < 200: keep['finals'].append(x_pc)
        E.run(c.st, done)
    except Unsupported as e:
        r['status'] = 'unsupported'; r['reason'] = str(e)[:300]
    except Dead: 
        r['status'] = 'vacuous'; r['reason'] = 'precondition unsatisfiable'
    except RecursionError as e:
        r['status'] = 'unsupported'; r['reason'] = 'recursion'
    except (KeyError, IndexError, TypeError, AttributeError, ValueError, AssertionError, SyntaxError, z3.Z3Exception, NotImplementedError) as e:
        r['status'] = 'unsupported'; r['reason'] = 'internal %s: %s' % (type(e).__name__, str(e)[:200]); r['tb'] = traceback.format_exc()[-3000:]
    fs = {}
    for f in E.failures:
        fs.setdefault((f.cat, f.msg, f.loc), dict(cat=f.cat, msg=f.msg, loc=f.loc, contract=f.contract, case=f.case, model=f.model, definite=f.definite))
    ud = {}
    for f in E.undecided: ud.setdefault((f.cat, f.msg, f.loc), dict(cat=f.cat, msg=f.msg, loc=f.loc, contract=f.contract, case=f.case))
    r['failures'] = list(fs.values()); r['undecided'] = list(ud.values())
    r['obl'] = E.obl; r['time'] = time.time() - t0; r['solver_time'] = E.solver_time; r['queries'] = E.queries; r['by'] = E.by; r['cross'] = E.crosscheck or {}
    r['paths'] = E.paths; r['steps'] = E.steps
    r['trusted'] = sorted(E.used_trusted)
    r['inlined'] = sorted(mod.funcs[n].dem for n in E.inlined)
    r['widenings'] = E.widenings
    if r['status'] == 'proved' and not cov and not E.failures: r['status'] = 'vacuous'; r['reason'] = 'no exit reached'
    if r['status'] == 'proved' and r['failures']: r['status'] = 'failed'
    elif r['status'] == 'proved' and r['undecided']: r['status'] = 'undecided'
    return r
