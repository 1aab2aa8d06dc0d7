"""Native replay of a counterexample: the pre-state of the failing contract is built concretely from the solver's model, the
harness function is called natively (real headers, AddressSanitizer, runtime of native/rt.hpp for the opaque operations),
and the same post-condition is evaluated on the state it leaves. Confirmed only if an obligation is false there, the
lifetime/ownership registry is violated, or the sanitizer reports an error."""
import os, re, subprocess, time, json, random, z3
from .engine import *
from . import ir, dsl, lib
from .lib import USER
CXX = '/usr/bin/clang++-18'
WRAPS = ['malloc', 'calloc', 'realloc', 'free', '_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t', '_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', '_ZSt11_Hash_bytesPKvmm', '_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l']

class NoReplay(Exception): pass

# ---------------------------------------------------------------- build
def stub(sym, f, E):
    """C++ definition of an external function of the harness, or None"""
    q, ta, ps = lib.split_name(f.dem)
    if ps is None: return None
    P = ', '.join('u64 a%d' % i for i in range(6)); nm = 'stub_' + re.sub(r'\W', '_', sym)
    decl = 'extern "C" u64 %s(%s) __asm__("%s");\nextern "C" u64 %s(%s)' % (nm, P, sym, nm, P)
    thr = 'false' if f.nounwind else 'true'
    def ret(b): return '%s { %s }' % (decl, b)
    def token(k):
        acc = None
        for i, p in enumerate(ps):
            a = 'a%d' % (i + k); t = p.replace(' const', '').rstrip('&').strip()
            sz = {'int': 'uint32_t', 'unsigned int': 'uint32_t', 'char': 'uint8_t', 'bool': 'uint8_t'}.get(t, 'u64')
            if t in E.elems and E.elems[t].plain: v = '*(u64 *)%s' % a
            elif t in E.elems: v = 'rt::value%s(%s, %d)' % ('_m' if p.endswith('&&') else '', a, E.elems[t].code)
            elif p.endswith('&'): v = '(u64)*(%s *)%s' % (sz, a)
            else: v = '(u64)(%s)%s' % (sz, a)
            acc = v if acc is None else 'rt::comb(%s, %s)' % (acc, v)
        return acc or '0'
    m = re.fullmatch(r'(\w+)::(~?\w+|operator\S*)', q)
    if m and m.group(1) in E.elems:
        T = E.elems[m.group(1)]; k = m.group(2); n = T.name; cs = '%d, %d' % (T.code, T.size)
        if k == n:
            if ps == []: return ret('rt::ctor_val(a0, rt::dflt("default_%s"), %s, %s); return 0;' % (n, cs, thr))
            if ps == [n + ' const&']: return ret('rt::ctor_copy(a0, a1, %s, %s); return 0;' % (cs, thr))
            if ps == [n + '&&']: return ret('rt::ctor_move(a0, a1, %s, %s); return 0;' % (cs, thr))
            if T.plain: return ret('rt::plain_val(a0, rt::fun("ctor_%s", %s), %s); return 0;' % (n, token(1), thr))
            return ret('rt::ctor_val(a0, rt::fun("ctor_%s", %s), %s, %s); return 0;' % (n, token(1), cs, thr))
        if k == '~' + n: return ret('rt::destroy(a0, %d); return 0;' % T.code)
        if k == 'operator=':
            if ps == [n + ' const&']: return ret('return rt::asg_copy(a0, a1, %d, %s);' % (T.code, thr))
            if ps == [n + '&&']: return ret('return rt::asg_move(a0, a1, %d, %s);' % (T.code, thr))
            return ret('return rt::asg_val(a0, rt::fun("assign_%s", %s), %d, %s);' % (n, token(1), T.code, thr))
        if k == 'operator&': return ret('return 0x18;')
        return None
    if m:
        if m.group(2) == 'operator&' or m.group(1) in E.plains: return ret('return 0x18;')
        return ret('return rt::call("%s", %s, %s, a0, a1, a2, a3, a4, a5, "", 0);' % (sym, thr if m.group(2) == 'operator()' else 'false', 'true' if f.ret.k == 'ptr' and m.group(2) == 'operator()' else 'false'))
    if q in ('swap', 'operator==', 'operator<', 'operator!=', 'operator>', 'operator<=', 'operator>=') and len(ps) == 2:
        t = ps[0].replace(' const', '').rstrip('&').strip()
        if t in E.plains and ps[0] == ps[1] and q != 'swap':
            if E.plains[t].size == 16: return ret('return rt::prel("%s_%s", rt::comb(((u64 *)a0)[0], ((u64 *)a0)[1]), rt::comb(((u64 *)a1)[0], ((u64 *)a1)[1]));' % ({'==': 'eq', '<': 'lt', '!=': 'ne', '>': 'gt', '<=': 'le', '>=': 'ge'}[q[8:]], t))
            ty = {1: 'uint8_t', 2: 'uint16_t', 4: 'uint32_t', 8: 'u64'}[E.plains[t].size]
            return ret('return rt::prel("%s_%s", *(%s *)a0, *(%s *)a1);' % ({'==': 'eq', '<': 'lt', '!=': 'ne', '>': 'gt', '<=': 'le', '>=': 'ge'}[q[8:]], t, ty, ty))
        if t in E.elems and ps[0] == ps[1]:
            if E.elems[t].plain: return ret('return rt::prel("%s_%s", *(u64 *)a0, *(u64 *)a1);' % ({'==': 'eq', '<': 'lt', '!=': 'ne', '>': 'gt', '<=': 'le', '>=': 'ge'}[q[8:]], t))
            if q == 'swap': return ret('rt::swp(a0, a1, %d); return 0;' % E.elems[t].code)
            return ret('return rt::rel("%s_%s", a0, a1, %d);' % ({'==': 'eq', '<': 'lt', '!=': 'ne', '>': 'gt', '<=': 'le', '>=': 'ge'}[q[8:]], t, E.elems[t].code))
    return None
def build(h, defs, flags, mod, setup, repo, root, tmp):
    """native program for a harness; returns (exe, symbol -> address)"""
    base = os.path.join(tmp, 'native_%s_%s' % (h, '_'.join('%s%s' % kv for kv in sorted(defs.items())))); exe = base + '.exe'
    cc = [CXX, '-std=c++17', '-O0', '-g0', '-fsanitize=address', '-fno-sanitize-address-use-after-return', '-Wno-everything', '-fno-pie']
    cc = [x for x in cc if x != '-fno-sanitize-address-use-after-return']
    r = subprocess.run(cc + list(flags) + ['-D%s=%s' % kv for kv in defs.items()] + ['-I' + os.path.join(repo, 'inc'), '-c', os.path.join(root, 'harness', h + '.cpp'), '-o', base + '.o'], capture_output=True, text=True)
    if r.returncode: raise NoReplay('harness does not build natively: ' + r.stderr[-300:])
    E = dsl.Engine(mod); setup(E)
    und = [l.split()[-1] for l in subprocess.run(['nm', '-u', base + '.o'], capture_output=True, text=True).stdout.split('\n') if l.strip()]
    src = ['#include "%s"' % os.path.join(root, 'native', 'rt.hpp')]
    for s in und:
        f = mod.funcs.get('@' + s)
        if f is None or f.src is not None or not s.startswith('_Z') or f.dem.startswith(('std::', 'operator', '__cxa')) and '(E const&' not in f.dem and not any('(%s const&' % e in f.dem for e in [*E.elems, *E.plains]): continue
        d = stub(s, f, E)
        if d: src.append(d)
    src.append('int main(int n, char ** v) { return rt::run(n, v); }')
    open(base + '_rt.cpp', 'w').write('\n'.join(src))
    r = subprocess.run(cc + [base + '_rt.cpp', base + '.o', '-no-pie', '-o', exe] + ['-Wl,--wrap=' + w for w in WRAPS], capture_output=True, text=True)
    if r.returncode: raise NoReplay('replay program does not link: ' + r.stderr[-500:])
    syms = {}
    for l in subprocess.run(['nm', exe], capture_output=True, text=True).stdout.split('\n'):
        w = l.split()
        if len(w) == 3: syms[w[2]] = int(w[0], 16)
    return exe, syms

# ---------------------------------------------------------------- concrete engine
class CBlk(Blk):
    __slots__ = ('raw', 'ents', 'rngs', 'pages', 'pre')
    def copy(s):
        n = CBlk.__new__(CBlk)
        n.size, n.kind, n.alive, n.fam, n.cells, n.chain, n.base, n.life, n.val, n.name, n.const, n.b8 = s.size, s.kind, s.alive, s.fam, s.cells, s.chain, s.base, s.life, s.val, s.name, s.const, s.b8
        n.raw, n.ents, n.rngs, n.pages, n.pre = s.raw, s.ents, s.rngs, s.pages, s.pre; return n
    def bytes(s, o, n):
        if s.raw is not None: return s.raw[o:o + n]
        if s.pages is None: raise NoReplay('contents of a large object')
        return bytes(s.pages[i & ~4095][i & 4095] if i & ~4095 in s.pages else 0 for i in range(o, o + n))
class CEngine(dsl.Engine):
    """evaluates contract conditions under one model; every condition has a definite value"""
    tmpid = 1 << 20; post = False; k = 0; kused = False; bad = None
    def cv(s, x):
        if isinstance(x, (int, bool)): return x
        if isinstance(x, (Ptr, PInt)): raise NoReplay('pointer where an integer is expected')
        v = s.m.eval(x, True)
        if z3.is_bv_value(v): return v.as_long()
        if z3.is_true(v): return True
        if z3.is_false(v): return False
        raise NoReplay('no value for ' + str(x)[:80])
    def check(s, st, c): return 'sat' if s.cv(c) else 'unsat'
    def oblige(s, st, cat, c, msg, definite=True):
        v = c if isinstance(c, bool) else bool(s.cv(c) if not isinstance(c, int) else c)
        if not v:
            if not s.post: raise NoReplay('obligation of the pre-state fails: ' + msg)
            s.bad.append((cat, msg)); raise Dead()
        return True
    def fresh(s, nm, w=64):
        if not s.post: return super().fresh(nm, w)
        if nm in ('off', 'li', 'rawi', 'di', 'fr') and w == 64: s.kused = True; return z3.BitVecVal(s.k, 64)
        if nm == 'noval': s.nfresh += 1; return z3.BitVecVal(0xBAD00000 + s.nfresh, w)
        if nm in ('result', 'visited', 'hash') and s.given is not None: return z3.BitVecVal(s.given & mask(w), w)
        raise NoReplay('unknown value ' + nm)
    def fresh_bool(s, nm):
        if not s.post: return super().fresh_bool(nm)
        raise NoReplay('unknown value ' + nm)
    given = None
    def decode(s, x):
        if x == 0: return NULL
        for exact in (True, False):
            for lo, n, b in s.where_:
                if lo <= x < lo + n or (not exact and x == lo + n): return Ptr(b, x - lo)
        f = s.fns.get(x)
        return Fn(f) if f else Wild(z3.BitVecVal(x, 64))
    def conv(s, x, t):
        if t.k == 'ptr': return s.decode(x)
        if t.k == 'i': return x & mask(t.n)
        raise NoReplay('argument type')
    def rd(s, st, blk, off, t):
        if not isinstance(blk, CBlk) or t.k in ('struct', 'arr'): return super().rd(st, blk, off, t)
        o = s.cv(off)
        if o + t.size > blk.size: raise NoReplay('read outside of an object')
        return s.conv(int.from_bytes(blk.bytes(o, t.size), 'little'), t)
    def rd_word(s, st, blk, off, W):
        if not isinstance(blk, CBlk): return super().rd_word(st, blk, off, W)
        o = s.cv(off)
        if o + W > blk.size: return s.fresh('noval', 8 * W)
        return z3.BitVecVal(int.from_bytes(blk.bytes(o, W), 'little'), 8 * W)
    def rd_byte(s, st, blk, off):
        if not isinstance(blk, CBlk): return super().rd_byte(st, blk, off)
        o = s.cv(off)
        if o >= blk.size: return 0
        return blk.bytes(o, 1)[0]
    def life_at(s, st, blk, off):
        if not isinstance(blk, CBlk): return super().life_at(st, blk, off)
        if blk.life == 'dead': return 0
        o = s.cv(off)
        for a, (code, n, tok) in blk.ents.items():
            if a <= o < a + n: return code if o == a else 255
        for lo, n, S, code in blk.rngs:
            if lo <= o < lo + n * S: return code if (o - lo) % S == 0 else 255
        return 0
    def val_at(s, st, blk, off):
        if s.plain is not None: return s.plain_val(st, blk, off)
        if not isinstance(blk, CBlk): return super().val_at(st, blk, off)
        o = s.cv(off); e = blk.ents.get(o)
        if e is None and blk.pre is not None and any(lo <= o < lo + n * S for lo, n, S, code in blk.rngs): return super().val_at(st, blk.pre, off)
        return e[2] if e else s.fresh('noval')
class COut(dsl.Out):
    def skolem(o, nm='k'): o.E.kused = True; return z3.BitVecVal(o.E.k, 64)
    def each(o, fn): fn()

# ---------------------------------------------------------------- pre-state
def encode(E, c, args, m, con, case, mods_h, syms):
    """text form of the concrete pre-state"""
    st = c.st; L = []; foreign = {}
    def fidx(n):
        if n not in foreign:
            if len(foreign) >= 16: raise NoReplay('too many functions')
            foreign[n] = len(foreign)
        return foreign[n]
    ids = [b for b in st.mem]
    for b in ids:
        blk = st.mem[b]; n = E.cv(blk.size)
        if n > 1 << 38: raise NoReplay('object too large to build')
        if not blk.alive: raise NoReplay('dead object in the pre-state')
        L.append('BLK %d %d %d %s' % (b, n, blk.kind == 'heap', (blk.fam or '-')))
    def put(b, off, v, n):
        if isinstance(v, PInt): v = Ptr(v.b, v.o)
        if isinstance(v, Ptr): L.append('PTR %d %d %d %d' % (b, off, v.b, E.cv(v.o)))
        elif isinstance(v, Fn): 
            if not v.n.startswith('$'): raise NoReplay('function pointer in the pre-state')
            L.append('FPT %d %d %d' % (b, off, fidx(v.n)))
        elif isinstance(v, Wild): pass
        else:
            x = int(E.cv(E.toint(v, 8 * n))); L.append('RAW %d %d %d %s' % (b, off, n, ' '.join('%02x' % y for y in x.to_bytes(n, 'little'))))
    for b in ids:
        blk = st.mem[b]; n = E.cv(blk.size)
        if blk.chain is not None: raise NoReplay('written pre-state')
        if blk.base is not None and n:
            if n > 1 << 22: continue   # all bytes are zero in the model and in the program
            bs = [int(E.cv(blk.base(i))) for i in range(n)]
            for i in range(0, n, 512): L.append('RAW %d %d %d %s' % (b, i, len(bs[i:i + 512]), ' '.join('%02x' % y for y in bs[i:i + 512])))
        for off, (sz, v) in blk.cells.items(): put(b, E.cv(off), v, sz)
        node = blk.life
        while node is not None and node != 'dead':
            (lo, cnt, S, code), node = node
            lo_, cnt_ = E.cv(lo), E.cv(cnt)
            if code == 0: continue
            if cnt_ > 1 << 17: L.append('LIVR %d %d %d %d %d' % (b, lo_, cnt_, S, code)); continue
            for k in range(cnt_): L.append('LIV %d %d %d %d %d' % (b, lo_ + k * S, code, S, int(E.cv(E.val_at(st, blk, lo_ + k * S)))))
    f = E.mod.funcs['@' + con.wrapper]
    if len(f.params) != len(args) or len(args) > 6: raise NoReplay('argument count')
    for (t, nm, a), v in zip(f.params, args):
        if isinstance(v, Ptr): L.append('ARGP %d %d' % (v.b, E.cv(v.o)))
        elif isinstance(v, Fn): L.append('ARGF %d' % fidx(v.n))
        elif isinstance(v, Wild): L.append('ARGI 24')
        elif t.k == 'i':
            x = int(E.cv(v)) & mask(t.n)
            if t.n in (8, 16, 32): x = sgn(x, t.n) & M64
            L.append('ARGI %d' % x)
        else: raise NoReplay('argument type')
    for n, i in foreign.items():
        kind = 0 if n.startswith('$dealloc_') else (2 if n.startswith('$nx') else 1) + (4 if st.ghost.get('res') == 'ref' else 0)
        L.append('FOR %d %d %s' % (i, kind, n))
    if 'target' in st.ghost: L.append('REF %d' % st.ghost['target'])
    # interpretation of the element operations
    inter = {d.name(): d for d in m.decls()}
    for T in E.elems.values():
        fs = [(r, 2) for r in ('eq_', 'lt_', 'ne_', 'gt_', 'le_', 'ge_')] + [('ctor_', 1), ('assign_', 1)]
        for pre, ar in fs: table(E, m, inter, pre + T.name, ar, pre in ('ctor_', 'assign_'), L)
        L.append('TAB default_%s 0 %d' % (T.name, int(E.cv(T.defval))))
    for T in E.plains.values():
        for r in ('eq_', 'lt_', 'ne_', 'gt_', 'le_', 'ge_'): table(E, m, inter, r + T.name, 2, False, L)
    table(E, m, inter, 'args2', 2, True, L)
    L.append('FN %d' % syms[con.wrapper])
    return L, foreign
def table(E, m, inter, name, ar, word, L):
    S64 = z3.BitVecSort(64); fn = z3.Function(name, *([S64] * ar + [S64 if word else z3.BoolSort()]))
    ents = []; els = int(E.cv(fn(*[z3.BitVecVal(0x0DDC0DE0DDC0DE, 64)] * ar)))
    if name in inter:
        fi = m[inter[name]]
        for i in range(fi.num_entries()):
            e = fi.entry(i); ents.append(([e.arg_value(j).as_long() for j in range(ar)], int(E.cv(e.value()))))
    L.append('TAB %s %d %d %s' % (name, len(ents), els, ' '.join('%d %s %d' % (ar, ' '.join(map(str, k)), v) for k, v in ents)))

# ---------------------------------------------------------------- post-state
def parse_state(E, c, lines):
    """concrete state from a native dump"""
    st = c.st.clone(); where_ = []; ents = {}; rngs = []; pages = {}
    for l in lines:
        w = l.split()
        if w[0] == 'NOREPLAY': raise NoReplay(l[9:])
        if w[0] == 'RNG': rngs.append(tuple(int(x) for x in w[1:5]))
        if w[0] == 'PG': pages.setdefault(int(w[1]), {})[int(w[2])] = bytes.fromhex(w[3])
        if w[0] == 'REG': ents[int(w[1])] = (int(w[2]), int(w[3]), int(w[4]))
    known = [(int(l.split()[6]), int(l.split()[4])) for l in lines if l.startswith('BLK ')]
    for a, e in ents.items():   # temporaries the code under test made itself
        if not any(lo <= a < lo + n for lo, n in known): lines = lines + ['BLK %d 1 0 %d - %d -' % (E.tmpid, e[1], a)]; E.tmpid += 1
    for l in lines:
        w = l.split()
        if w[0] != 'BLK': continue
        b, alive, heap, n, fam, base = int(w[1]), w[2] == '1', w[3] == '1', int(w[4]), w[5], int(w[6])
        old = st.mem.get(b)
        blk = CBlk(n, old.kind if old is not None else 'heap', old.name if old is not None else 'new'); blk.alive = alive; blk.fam = None if fam == '-' else fam
        blk.raw = bytes.fromhex(w[7]) if len(w) > 7 and w[7] != '-' else (b'' if n == 0 else None)
        blk.ents = {a - base: e for a, e in ents.items() if base <= a < base + n} if alive else {}
        blk.rngs = [(p - base, k, S, code) for p, k, S, code in rngs if base <= p < base + n] if alive else []; blk.pre = old
        blk.pages = pages.get(b, {}) if alive and n > 1 << 22 and old is not None else None
        blk.life = 'C' if blk.ents or blk.rngs or (old is not None and old.life is not None) else None
        blk.base = old.base if old is not None else None; blk.const = bool(old is not None and old.const)
        st.mem[b] = blk
        where_.append((base, n, b))
    return st, where_
def evaluate(E, c, post, out, foreign, fns, prop, hint, mods_h, con):
    """post-condition on the native outcome; returns the violated obligation or None"""
    lines = open(out).read().split('\n'); fn = dict(fns); main = []; log = []; i = 0; exit_ = None; calls = []
    for l in lines:
        if l.startswith('NOREPLAY'): raise NoReplay(l[9:])
        if l.startswith('VIOL '): return tuple(l.split(' ', 2)[1:])
        if l.startswith('FADDR'): w = l.split(); [fn.__setitem__(int(w[2]), n) for n, k in foreign.items() if k == int(w[1])]
    E.fns = fn
    while i < len(lines):
        w = lines[i].split()
        if not w: i += 1; continue
        if w[0] == 'EV':
            if w[1] == 'alloc': log.append(('alloc', int(w[2]), w[3]))
            elif w[1] == 'allocfail': log.append(('allocfail', int(w[2])))
            elif w[1] == 'allocated': log.append(('allocated', int(w[2])))
            elif w[1] == 'hash': log.append(('hash', int(w[2]), int(w[3]), int(w[4]), 0x5151))
            elif w[1] == 'ostream': log.append(('ostream', int(w[2]), int(w[3]), int(w[4])))
            elif w[1] == 'sentry': log.append(('sentry', w[2] == '1'))
            elif w[1] == 'put': log.append(('put', int(w[2])))
            elif w[1] == 'free': log.append(('free', int(w[2]), w[3]))
        elif w[0] == 'CALL':
            j = lines.index('ENDCALL', i); calls.append((len(log), w, lines[i + 1:j])); log.append(None); i = j
        elif w[0] == 'EXIT': exit_ = w[1:]
        elif w[0] in ('BLK', 'REG', 'PG', 'RNG'): main.append(lines[i])
        elif w[0] == 'OPS': E.ops = (int(w[1]), int(w[2]))
        i += 1
    if exit_ is None: return None
    E.post = True
    for k, w, snap in calls:
        st, E.where_ = parse_state(E, c, snap); st.log = []; nm = w[1]; raw = [int(x) for x in w[2:8]]; threw = w[8] == '1'
        E.given = 0x5151; st.script = [1 if threw else 0]; st.sp = 0
        if nm.startswith('$'):
            ts = getattr(mods_h, 'native_args', lambda *a: None)(con.name, nm)
            if ts is None: raise NoReplay('call of a user function')
            h = E.foreign_fns[nm]; av = [E.conv(x, t) for x, t in zip(raw, ts)]; name = nm
        else:
            name = '@' + nm; f = E.mod.funcs[name]; h = E.handler(name); av = [E.conv(x, t) for (t, _, _), x in zip(f.params, raw)]
        E.bad = []
        try: h(E, st, av, name)
        except (Throw, Dead): pass
        if E.bad: return E.bad[0]
        if len(st.log) != 1: raise NoReplay('call event')
        log[k] = st.log[0]
    st, E.where_ = parse_state(E, c, main)
    st.log = [('hash', E.decode(x[1])) + x[2:] if x[0] == 'hash' else ('ostream', E.decode(x[1]), E.decode(x[2]), x[3]) if x[0] == 'ostream' else x for x in log]
    f = E.mod.funcs['@' + con.wrapper]
    if exit_[0] == 'ret': 
        rt = f.ret; oc = ('ret', E.conv(int(exit_[1]), rt) if rt.k in ('ptr', 'i') else None)
        if rt.k not in ('ptr', 'i', 'void'): raise NoReplay('result type')
    elif exit_[0] == 'exc': oc = ('exc', USER if exit_[1] == '4User' else '_ZTI' + exit_[1], NULL)
    else:
        if c.shrink_may_fail and any(x[0] == 'allocfail' for x in log): return None
        return ('term', 'std::terminate called')
    big = max([64] + [b.size for b in st.mem.values() if isinstance(b.size, int)])
    for k in [x for x in hint if x < 1 << 20] + list(range(min(big + 2, 260))):
        E.k = k; E.kused = False; E.bad = []
        x = st.clone(); x.frames = []
        try: post(COut(c, x, oc, con.wrapper))
        except Dead: pass
        for cat, msg in E.bad:
            if prop is None or prop in cat.split(',') or cat.split(',')[0] in ('mem', 'life', 'leak', 'term', 'own'): return (cat, msg)
        if not E.kused: break
    return None

def consts(fs):
    vs = {}; seen = set(); todo = list(fs)
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: vs[str(x)] = x
        todo += x.children()
    return vs
def funs(e):
    """uninterpreted functions of an expression"""
    out = set(); seen = set(); todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().arity(): out.add((x.decl().name(), x.decl().arity(), x.decl().range()))
        todo += x.children()
    return out
def without(m, fs):
    """the model without these functions (they become zero by completion)"""
    names = {n for n, a, s in fs}; r = z3.Model()
    for d in m.decls():
        if d.name() not in names: r.update_value(d, m[d])
    return r
def unlimit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))   # ASan reserves terabytes of address space

TIMEOUT = 20
def execute(exe, text, tmp, tag):
    inp = os.path.join(tmp, 'in_' + tag); out = os.path.join(tmp, 'out_' + tag); open(inp, 'w').write(text)
    if os.path.exists(out): os.unlink(out)
    try: r = subprocess.run([exe, inp, out], capture_output=True, text=True, timeout=TIMEOUT, preexec_fn=unlimit, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:exitcode=97:max_allocation_size_mb=4000'))
    except subprocess.TimeoutExpired: return None, out
    return r, out

def replay_case(mod, con, case, setup, h, mods_h, prop, exe, syms, tmp, bounded=0, budget=90, selftest=False, models=()):
    """dict describing a confirmed violation, or None"""
    t0 = time.time(); keep = {}
    # the counterexample inputs the verifier reported, on an otherwise arbitrary pre-state
    for mdl in models:
        pins = {n: v for n, v in mdl.items() if n.startswith('in!') and isinstance(v, int)}
        if not pins: continue
        E = dsl.Engine(mod); E.matchers = list(lib.MATCHERS); E.foreign_fns = {}; E.prop = prop; E.contract = con.name; setup(E); E.foreign = lambda E2, st, av, n: dsl.foreign(E, E2, st, av, n)
        try: c = dsl.Ctx(E, case, bounded); args, post = con.fn(c, **case)
        except Exception: break
        x = z3.SolverFor('QF_UFBV'); x.set('timeout', 3000); x.add(*c.st.pc); cs = consts([v for v in list(c.st.pc) + list(args) + [w for b in c.st.mem.values() for _, w in b.cells.values()] if z3.is_expr(v)])
        for n, v in pins.items():
            if isinstance(v, bool): x.add(z3.Bool(n) == v)
            else:
                ws = {cs[n].size()} if n in cs and z3.is_bv(cs[n]) else {a.size() for a in args if z3.is_bv(a) and str(a) == n} or {64}
                x.add(z3.BitVec(n, ws.pop()) == v)
        for b in c.st.mem.values():
            if not isc(b.size): x.add(ule(b.size, 1 << 36))
        if str(x.check()) != 'sat': continue
        try: res = attempt(mod, con, case, setup, h, mods_h, prop, exe, syms, {a: '@' + n for n, a in syms.items() if '@' + n in mod.funcs}, tmp, bounded, x.model(), t0 + budget * 0.4)
        except NoReplay: continue
        if res: res['obligation'] = 'counterexample inputs of the verifier'; return res
    r = dsl.run_case(mod, con, case, setup, bounded=bounded, deadline=budget * 0.6, prop=prop, keep=keep)
    if 'E' not in keep: return None
    if selftest:   # every final state of the verified program is a replay candidate; none may be confirmed
        fin = keep.get('finals', []); fin = fin[::max(1, len(fin) // 8)]
        keep['E'].failures = [Failure('mem', 'state %d' % i, '', con.name, '', None, pc, True, [], True) for i, pc in enumerate(fin)]
    fails = [f for f in keep['E'].failures if (prop is None or prop in f.cat.split(',') or f.cat.split(',')[0] in ('mem', 'life', 'leak', 'term', 'own')) and f.cond is not None]
    seen = {}; order = []
    for f in fails:
        k = (f.cat, f.msg)
        seen[k] = seen.get(k, 0) + 1
        if seen[k] <= 3: order.append(f)
    fns = {a: '@' + n for n, a in syms.items() if '@' + n in mod.funcs}
    pre = keep['pre']; notes = []; ran = 0
    for nf, f in enumerate(order[:10]):
        if time.time() - t0 > budget: break
        pin = [(d, f.model[n]) for n, d in consts(f.pc + ([] if f.cond is True else [f.cond])).items() if n.startswith('in!') and isinstance((f.model or {}).get(n), int) and z3.is_bv(d)]
        for B in (64, 400, 5000, 1 << 22, 1 << 36, -1):
            if time.time() - t0 > budget: break
            x = z3.SolverFor('QF_UFBV'); x.set('timeout', 6000); x.add(*f.pc); x.add(z3.BoolVal(True) if f.cond is True else f.cond)
            if B < 0: x.add(*[d == v for d, v in pin]); B = 1 << 36
            elif not keep['E'].arith and B > 64: continue
            for b in pre.mem.values():
                if not isc(b.size): x.add(ule(b.size, B))
            if 'text' in pre.ghost: x.add(ule(pre.ghost['text'][2], 4096))
            for fact in pre.facts:
                for k in range(0, 40): x.add(tobool(fact(pre, z3.BitVecVal(k, 64))))
            if f.state is not None and B <= 400:   # quantified facts of the failing state, at the first indices
                fs = f.state.clone(); n0 = len(fs.pc)
                for fact in list(fs.facts):
                    for k in range(0, 64): x.add(tobool(fact(fs, z3.BitVecVal(k, 64))))
                x.add(*fs.pc[n0:])
            if str(x.check()) != 'sat': continue
            m = x.model()
            try: res = attempt(mod, con, case, setup, h, mods_h, prop, exe, syms, fns, tmp, bounded, m, t0 + budget)
            except NoReplay as e: notes.append(str(e)); break
            ran += 1
            if res: 
                res['obligation'] = f.msg; return res
            break
    if selftest: return dict(ran=ran, states=len(order), notes=sorted(set(notes))[:5], status=r['status'])
    return dict(unconfirmed=sorted(set(notes))[:5]) if notes else None

def sample_case(mod, con, case, setup, h, mods_h, prop, exe, syms, tmp, n=40, budget=30, seed=1):
    """bounded stand-in: run the real code on n concrete pre-states that satisfy the pre-condition and evaluate the contract on each
    outcome. Returns a confirmed violation (as replay_case) or dict(samples=number of pre-states run)."""
    global TIMEOUT
    t0 = time.time(); rnd = random.Random('%s %s %s' % (seed, con.name, case)); ran = 0; notes = set(); TIMEOUT = 4
    E = dsl.Engine(mod); E.matchers = list(lib.MATCHERS); E.foreign_fns = {}; E.prop = prop; E.contract = con.name; setup(E)
    E.foreign = lambda E2, st, av, n: dsl.foreign(E, E2, st, av, n)
    c = dsl.Ctx(E, case, 0); args, post = con.fn(c, **case); st = c.st
    vals = []; probe = z3.BitVec('probe', 64); fb = set(); fw = set()
    for b in st.mem.values():
        vals += [b.size] + [v.o if isinstance(v, (Ptr, PInt)) else v for _, v in b.cells.values()] + [o for o in b.cells]
        if b.b8 is not None: fw |= funs(bv64(b.b8(probe)))
        elif b.base is not None: fb |= funs(bv(b.base(probe), 8))
        if b.life is not None and b.life != 'dead' and b.val is not None: fw |= funs(bv64(E.val_at(st, b, probe)))
    if 'text' in st.ghost: fb.add((st.ghost['text'][1].name(), 1, z3.BitVecSort(8))); vals.append(st.ghost['text'][2])
    vals += [a.o if isinstance(a, Ptr) else a for a in args]
    cs = consts([v for v in list(st.pc) + vals if z3.is_expr(v)]); cs = {n: v for n, v in cs.items() if z3.is_bv(v) or z3.is_bool(v)}
    words = sorted({v.size() for v in cs.values() if z3.is_bv(v) and v.size() not in (8, 32, 64)})
    small = list(range(12)) + [15, 16, 17, 20, 22, 23, 24, 25, 31, 32, 33, 40, 47, 48, 49, 63, 64, 65, 66, 72, 100, 127, 128, 129, 130, 200] + [x + d for x in words for d in (-1, 0, 1, x - 1, x)]
    S64 = z3.BitVecSort(64); base = z3.SolverFor('QF_UFBV'); base.set('timeout', 3000); base.add(*st.pc)
    for b in st.mem.values():
        if not isc(b.size): base.add(ule(b.size, 4096))
    if 'text' in st.ghost: base.add(ule(st.ghost['text'][2], 200))
    for T in E.elems.values():   # comparisons of the element type over a few values; 6 is unordered and unequal to itself
        for r, f in (('eq_', lambda a, b: a == b), ('lt_', lambda a, b: a < b), ('ne_', lambda a, b: a != b), ('gt_', lambda a, b: a > b), ('le_', lambda a, b: a <= b), ('ge_', lambda a, b: a >= b)):
            fn = z3.Function(r + T.name, S64, S64, z3.BoolSort())
            for a in range(1, 7):
                for b in range(1, 7): base.add(fn(a, b) == (f(a, b) if a < 6 and b < 6 else r == 'ne_'))
    for fact in list(st.facts):
        for k in range(48): base.add(tobool(fact(st.clone(), z3.BitVecVal(k, 64))))
    if str(base.check()) != 'sat': return dict(samples=0, notes=['no concrete pre-state found'])
    fns = {a: '@' + k for k, a in syms.items() if '@' + k in mod.funcs}
    for it in range(n):
        if time.time() - t0 > budget: break
        base.push(); names = list(cs); rnd.shuffle(names); lim = rnd.choice((8, 26, len(small)))
        def pin(x):
            base.push(); base.add(x)
            if str(base.check()) == 'sat': return True
            base.pop(); return False
        for nm in names:
            v = cs[nm]
            for t in range(6):
                if z3.is_bool(v): x = v == bool(rnd.getrandbits(1))
                elif v.size() in (8, 16, 32, 64): x = v == z3.BitVecVal((rnd.choice(small[:lim]) if rnd.random() < .96 else rnd.choice((1 << 63, mask(64), 1 << 32, 255, 256))) & mask(v.size()), v.size())
                else: x = v == z3.BitVecVal(rnd.choice((rnd.getrandbits(v.size()), rnd.getrandbits(v.size()) & rnd.getrandbits(v.size()), mask(v.size()), 1 << rnd.randrange(v.size()), mask(v.size()) >> rnd.randrange(v.size()))), v.size())
                if pin(x): break
        for f, sort, al in [(f, so, (48, 49, 97, 98, 0, 255, 32, 128)) for f, a, so in sorted(fb, key=str) if a == 1] + [(f, so, (1, 2, 3, 4, 5, 6)) for f, a, so in sorted(fw, key=str) if a == 1]:
            fn = z3.Function(f, S64, sort); sub_ = rnd.sample(al, rnd.choice((1, 2, len(al) - 2)))
            if 'stream' in f: sub_ = [48, 49] * 20 + [rnd.choice((97, 32))]
            pin(z3.And(*[fn(z3.BitVecVal(k, 64)) == z3.BitVecVal(rnd.choice(sub_), sort.size()) for k in range(80)]))
        ok = str(base.check()) == 'sat'; m = base.model() if ok else None
        while base.num_scopes(): base.pop()
        if not ok: continue
        try: res = attempt(mod, con, case, setup, h, mods_h, prop, exe, syms, fns, tmp, 0, m, t0 + budget)
        except NoReplay as e: notes.add(str(e)); continue
        ran += 1
        if res: res['obligation'] = 'sampled pre-state'; return res
    return dict(samples=ran, notes=sorted(notes)[:4])

def attempt(mod, con, case, setup, h, mods_h, prop, exe, syms, fns, tmp, bounded, m, until):
    E = CEngine(mod); E.m = m; E.where_ = []; E.fns = {}; E.bad = []
    E.matchers = list(lib.MATCHERS); E.foreign_fns = {}; E.prop = prop; E.contract = con.name; E.case = ''
    E.foreign = lambda E2, st, av, n: dsl.foreign(E, E2, st, av, n)
    setup(E)
    c = dsl.Ctx(E, case, bounded); c.excprop = con.opts.get('excprop')
    args, post = con.fn(c, **case)
    args = list(args)
    # the contents of huge objects: all zero, in the model as in the program
    probe = z3.BitVec('probe', 64); zero = set()
    for b in c.st.mem.values():
        if b.base is not None and E.cv(b.size) > 1 << 22:
            fs = funs(bv(b.base(probe), 8))
            if not fs: continue
            zero |= fs
    if zero:
        E.m = m = without(m, zero)
        if any(E.cv(z3.Function(n, *([z3.BitVecSort(64)] * a), s)(*[z3.BitVecVal(7, 64)] * a)) for n, a, s in zero): raise NoReplay('contents of a large object')
    for a in c.st.pc:
        if not E.cv(a): raise NoReplay('the model violates the precondition')
    L, foreign = encode(E, c, args, m, con, case, mods_h, syms)
    hint = [m[d].as_long() for d in m.decls() if d.arity() == 0 and (d.name().startswith('sk!') or d.name().startswith(('off!', 'li!', 'di!'))) and z3.is_bv_value(m[d])]
    tag = '%d' % os.getpid(); runs = [(-1, -1)]; done = set(); sblk = c.st.ghost.get('stream')
    if sblk:   # a real string stream with these characters: as it is, behind blanks that are skipped, and already failed
        nm, CH, LEN = c.st.ghost['text']; n = int(E.cv(LEN)); 
        if n > 1 << 16: raise NoReplay('stream too long')
        chars = bytes(int(E.cv(CH(z3.BitVecVal(i, 64)))) for i in range(n))
        L = L + ['STREAM %s %d %d %%d %d %s' % (nm, sblk[0], sblk[1], n, chars.hex())]
        if nm[0] == 'i': runs += [(-1, -12)] + ([(-1, -11)] if n and not chars[:1].isspace() else [])
    while runs:
        if time.time() > until: return None
        th, fa = runs.pop(0)
        if (th, fa) in done: continue
        done.add((th, fa)); text = '\n'.join((L[:-1] + [L[-1] % (-10 - fa if fa < -9 else 0)] if sblk else L) + ['THROW %d' % th, 'FAIL %d' % max(fa, -1), 'RES %d' % 0x5151]) + '\n'
        r, out = execute(exe, text, tmp, tag)
        if r is None: continue
        if r.returncode == 97 or 'AddressSanitizer' in r.stderr:
            if 'AddressSanitizer: out of memory' in r.stderr or 'allocation-size-too-big' in r.stderr: continue
            kind = re.search(r'ERROR: AddressSanitizer: ((?:heap|stack|global|dynamic-stack|container|use-after|attempting|SEGV|BUS|memcpy-param|strcpy-param|negative-size|bad-|alloc-dealloc|double-free|initialization|stack-overflow)[^\n]*)', r.stderr)
            if not kind: raise NoReplay('the sanitizer run failed: ' + r.stderr[-160:].replace('\n', ' '))
            if con.name.endswith('_print') and not sblk: raise NoReplay('streams are not replayed natively')
            bad = ('mem', 'AddressSanitizer: ' + kind.group(1)[:160])
        elif r.returncode < 0 and con.name.endswith('_print') and not sblk: raise NoReplay('streams are not replayed natively')
        elif r.returncode < 0: bad = ('mem', 'the program was killed by signal %d' % -r.returncode)
        elif r.returncode: raise NoReplay('replay program failed (%d) %s' % (r.returncode, r.stderr[-300:]))
        else:
            E.ops = (0, 0); E.post = False
            bad = evaluate(E, c, post, out, foreign, fns, prop, hint, mods_h, con); E.post = False
            if (th, fa) == (-1, -1): runs += [(k, -1) for k in range(min(E.ops[0], 24))] + [(-1, k) for k in range(min(E.ops[1], 6))]
        if bad:
            return dict(summary='%s(%s): native run violates "%s"%s' % (con.name, ' '.join('%s=%s' % kv for kv in case.items()), bad[1], (' when element operation #%d throws' % th if th >= 0 else '') + (' when allocation #%d fails' % fa if fa >= 0 else '') + (' on a stream with leading blanks' if fa == -11 else ' on a stream that has already failed' if fa == -12 else '')),
                        contract=con.name, category=bad[0], violated=bad[1], throw_at=th, fail_at=fa, prestate=text.split('\n')[:400], inputs={d.name(): str(m[d]) for d in m.decls() if d.arity() == 0 and d.name().startswith('in!')}, outcome=open(out).read().split('\n')[-60:] if os.path.exists(out) else [], sanitizer=r.stderr[-2500:])
    return None
