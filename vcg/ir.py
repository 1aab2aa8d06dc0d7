"""Parser for the subset of textual LLVM IR that clang -O0 produces for the harnesses."""
import re, subprocess, os

TOK = re.compile(r'''
   (?P<str>c"(?:[^"\\]|\\.)*")
 | (?P<qstr>"(?:[^"\\]|\\.)*")
 | (?P<local>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9A-Fa-f]+)
 | (?P<ell>\.\.\.)
 | (?P<word>[a-zA-Z_][-a-zA-Z0-9_.$]*)
 | (?P<punct><\{|\}>|[\[\]{}()<>,=*|:])
''', re.X)

def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c in ' \t':
            i += 1; continue
        if c == ';': break
        m = TOK.match(s, i)
        if not m: raise SyntaxError('tok %r' % s[i:i+60])
        out.append(m.group(0)); i = m.end()
    return out

# ---- types -------------------------------------------------------------------
class Ty:
    __slots__ = ('k', 'n', 'elem', 'fields', 'packed', 'offs', 'size', 'align')
    def __init__(s, k, n=0, elem=None, fields=None, packed=False):
        s.k, s.n, s.elem, s.fields, s.packed = k, n, elem, fields, packed
        s.offs = None
        if k == 'i':
            s.size = 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
            s.align = s.size
        elif k == 'ptr': s.size = s.align = 8
        elif k == 'f': s.size = s.align = n // 8 if n != 80 else 16
        elif k == 'arr': s.size, s.align = elem.size * n, elem.align
        elif k == 'struct':
            off, al, offs = 0, 1, []
            for f in fields:
                a = 1 if packed else f.align
                off = (off + a - 1) // a * a
                offs.append(off); off += f.size; al = max(al, a)
            s.offs = offs; s.size = (off + al - 1) // al * al; s.align = al
        else: s.size = s.align = 0
    def __repr__(s):
        return {'i': lambda: 'i%d' % s.n, 'arr': lambda: '[%d x %r]' % (s.n, s.elem),
                'struct': lambda: '{%s}' % ','.join(map(repr, s.fields))}.get(s.k, lambda: s.k)()

PTR = Ty('ptr'); VOID = Ty('void'); LABEL = Ty('label'); META = Ty('metadata')
_ints = {}
def INT(n):
    t = _ints.get(n)
    if t is None: t = _ints[n] = Ty('i', n)
    return t

ATTRW = set('''noundef nonnull zeroext signext noalias nocapture writeonly readonly readnone immarg inreg returned
 nofree nosync willreturn nounwind mustprogress noinline optnone alwaysinline uwtable unnamed_addr local_unnamed_addr
 dso_local linkonce_odr internal external private weak_odr weak available_externally hidden protected comdat any
 inbounds nsw nuw exact volatile tail musttail notail fast nnan ninf nsz arcp contract afn reassoc constant global
 allocsize align dereferenceable dereferenceable_or_null sret byval swiftself swifterror nest noreturn cold builtin
 nobuiltin thread_local linkonce appending common extern_weak writable dead_on_unwind nneg disjoint samesign allocptr nofpclass range initializes captures'''.split())

class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'text')
    def __init__(s, op, res, ty, a, text):
        s.op, s.res, s.ty, s.a, s.dbg, s.text = op, res, ty, a, None, text
    def __repr__(s): return s.text

class Func:
    def __init__(s): pass

class Module:
    def __init__(s):
        s.types, s.typesrc, s.funcs, s.globs, s.attrs, s.md = {}, {}, {}, {}, {}, {}

class P:
    """recursive-descent parser over one token list"""
    def __init__(s, mod, toks): s.m, s.t, s.i = mod, toks, 0
    def pk(s, k=0): return s.t[s.i + k] if s.i + k < len(s.t) else None
    def nx(s):
        v = s.t[s.i]; s.i += 1; return v
    def eat(s, x):
        if s.pk() == x: s.i += 1; return True
        return False
    def ex(s, x):
        v = s.nx()
        if v != x: raise SyntaxError('expected %r got %r in %r' % (x, v, ' '.join(s.t)))
    def attrs(s):
        """skip attributes; returns dict of the interesting ones"""
        r = {}
        while True:
            w = s.pk()
            if w is None: return r
            if w in ATTRW:
                s.nx()
                if w == 'align':
                    if s.pk() == '(': s.skip_paren()
                    else: s.nx()
                elif w in ('sret', 'byval'):
                    s.ex('('); r[w] = s.ty(); s.ex(')')
                elif s.pk() == '(' and w in ('dereferenceable', 'dereferenceable_or_null', 'allocsize', 'comdat', 'range', 'initializes', 'captures', 'nofpclass', 'uwtable', 'thread_local'):
                    s.skip_paren()
                else: r[w] = True
            elif w.startswith('#'): s.nx(); r.setdefault('#', []).append(w)
            elif w == 'elementtype': s.nx(); s.skip_paren()
            else: return r
    def skip_paren(s):
        d = 0
        while True:
            w = s.nx()
            if w == '(': d += 1
            elif w == ')':
                d -= 1
                if d == 0: return
    def ty(s):
        w = s.nx()
        if w == 'ptr':
            t = PTR
        elif w == 'void': t = VOID
        elif w == 'label': t = LABEL
        elif w == 'metadata': t = META
        elif w == 'float': t = Ty('f', 32)
        elif w == 'double': t = Ty('f', 64)
        elif w == 'x86_fp80': t = Ty('f', 80)
        elif w == 'opaque': t = Ty('opaque')
        elif re.fullmatch(r'i\d+', w): t = INT(int(w[1:]))
        elif w == '[':
            n = int(s.nx()); s.ex('x'); e = s.ty(); s.ex(']'); t = Ty('arr', n, e)
        elif w == '{' or w == '<{':
            end = '}' if w == '{' else '}>'
            fs = []
            if not s.eat(end):
                while True:
                    fs.append(s.ty())
                    if s.eat(end): break
                    s.ex(',')
            t = Ty('struct', fields=fs, packed=(w == '<{'))
        elif w == '<':
            n = int(s.nx()); s.ex('x'); e = s.ty(); s.ex('>'); t = Ty('vec', n, e); t.size = e.size * n; t.align = t.size
        elif w[0] == '%': t = s.m.named(w)
        else: raise SyntaxError('type %r in %r' % (w, ' '.join(s.t)))
        # function type suffix
        if s.pk() == '(' and t.k in ('void', 'i', 'ptr', 'struct', 'f', 'arr'):
            j = s.i; d = 0
            # only a function type if followed by @/% callee
            while True:
                x = s.t[j]
                if x == '(': d += 1
                elif x == ')':
                    d -= 1
                    if d == 0: break
                j += 1
            if j + 1 < len(s.t) and s.t[j + 1][0] in '@%' and getattr(s, 'allow_fty', False):
                s.i = j + 1
        return t
    def const_or_val(s, ty):
        w = s.nx()
        if w[0] == '%': return ('l', w)
        if w[0] == '@': return ('g', w)
        if w == 'true': return ('c', 1)
        if w == 'false': return ('c', 0)
        if w == 'null': return ('null',)
        if w in ('undef', 'poison'): return ('undef', ty)
        if w == 'zeroinitializer': return ('zero', ty)
        if w == 'none': return ('none',)
        if w.startswith('c"'): return ('bytes', unesc(w[2:-1]))
        if re.fullmatch(r'-?\d+', w): return ('c', int(w))
        if ty is not None and ty.k == 'f': return ('f', w)
        if w in ('getelementptr',):
            at = s.attrs()
            s.ex('('); t = s.ty(); s.ex(',')
            ops = s.tvlist(')')
            return ('ce', 'getelementptr', t, ops)
        if w in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            s.ex('('); t = s.ty(); v = s.const_or_val(t); s.ex('to'); t2 = s.ty(); s.ex(')')
            return ('ce', w, t, v, t2)
        if w in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl'):
            s.attrs(); s.ex('('); ops = s.tvlist(')')
            return ('ce', w, ops[0][0], ops)
        if w == 'icmp':
            p = s.nx(); s.ex('('); ops = s.tvlist(')'); return ('ce', 'icmp', p, ops)
        if w == '[': return ('agg', ty, [v for _, v in s.tvlist(']')])
        if w == '{': return ('agg', ty, [v for _, v in s.tvlist('}')])
        if w == '<{': return ('agg', ty, [v for _, v in s.tvlist('}>')])
        if w in ('no_cfi', 'dso_local_equivalent'): return s.const_or_val(ty)
        raise SyntaxError('const %r in %r' % (w, ' '.join(s.t)[:300]))
    def tvlist(s, end):
        out = []
        if s.eat(end): return out
        while True:
            s.attrs(); s.eat('inrange')
            t = s.ty(); at = s.attrs()
            if t.k == 'metadata':
                s.nx(); out.append((t, ('none',)))
            else: out.append((t, s.const_or_val(t)))
            if s.eat(end): return out
            s.ex(',')

def unesc(x):
    out = bytearray(); i = 0
    while i < len(x):
        if x[i] == '\\':
            out.append(int(x[i+1:i+3], 16)); i += 3
        else: out.append(ord(x[i])); i += 1
    return bytes(out)

def named(self, w):
    t = self.types.get(w)
    if t is None:
        src = self.typesrc[w]
        if src == ['opaque']: t = Ty('opaque')
        else: t = P(self, src).ty()
        self.types[w] = t
    return t
Module.named = named

BIN = set('add sub mul udiv sdiv urem srem and or xor shl lshr ashr fadd fsub fmul fdiv frem'.split())
CAST = set('zext sext trunc bitcast ptrtoint inttoptr fptosi fptoui sitofp uitofp fpext fptrunc addrspacecast'.split())

def parse_call(p, op):
    p.attrs()
    p.allow_fty = True
    rt = p.ty()
    p.allow_fty = False
    callee = p.const_or_val(None)
    p.ex('(')
    args = []
    if not p.eat(')'):
        while True:
            t = p.ty(); at = p.attrs()
            if t.k == 'metadata':
                if p.pk() in ('i32', 'i64', 'ptr'): p.nx()
                p.nx()
                # !DIExpression() style
                if p.pk() == '(': p.skip_paren()
                args.append((t, ('none',), {}))
            else: args.append((t, p.const_or_val(t), at))
            if p.eat(')'): break
            p.ex(',')
    at = p.attrs()
    return rt, callee, args, at

def parse_instr(mod, line):
    toks = tokenize(line)
    dbg = None
    for k in range(len(toks) - 1):
        if toks[k] == '!dbg': dbg = toks[k + 1]; break
    # cut metadata
    for k in range(len(toks)):
        if toks[k] == ',' and k + 1 < len(toks) and toks[k + 1][0] == '!': toks = toks[:k]; break
    p = P(mod, toks)
    res = None
    if len(toks) > 1 and toks[1] == '=' and toks[0][0] == '%': res = toks[0]; p.i = 2
    op = p.nx()
    if op in ('tail', 'musttail', 'notail'): op = p.nx()
    text = line.strip()
    def mk(ty, *a):
        I = Instr(op, res, ty, a, text); I.dbg = dbg; return I
    if op == 'alloca':
        p.eat('inalloca'); t = p.ty(); n = ('c', 1)
        if p.eat(','):
            if p.pk() != 'align':
                it = p.ty(); n = p.const_or_val(it)
        return mk(t, n)
    if op == 'load':
        p.eat('atomic'); p.attrs(); t = p.ty(); p.ex(','); pt = p.ty(); v = p.const_or_val(pt); return mk(t, v)
    if op == 'store':
        p.eat('atomic'); p.attrs(); t = p.ty(); v = p.const_or_val(t); p.ex(','); p.ty(); q = p.const_or_val(PTR); return mk(t, v, q)
    if op == 'getelementptr':
        p.attrs(); t = p.ty(); p.ex(','); pt = p.ty(); b = p.const_or_val(pt); idx = []
        while p.eat(','):
            it = p.ty(); idx.append((it, p.const_or_val(it)))
        return mk(t, b, idx)
    if op in ('icmp', 'fcmp'):
        p.attrs(); pred = p.nx(); t = p.ty(); a = p.const_or_val(t); p.ex(','); b = p.const_or_val(t); return mk(t, pred, a, b)
    if op in BIN:
        fl = p.attrs(); t = p.ty(); a = p.const_or_val(t); p.ex(','); b = p.const_or_val(t); return mk(t, a, b, fl)
    if op == 'fneg':
        p.attrs(); t = p.ty(); return mk(t, p.const_or_val(t))
    if op in CAST:
        p.attrs(); t = p.ty(); v = p.const_or_val(t); p.ex('to'); t2 = p.ty(); return mk(t2, t, v)
    if op == 'freeze':
        t = p.ty(); return mk(t, p.const_or_val(t))
    if op == 'br':
        t = p.ty()
        if t.k == 'label': return mk(None, None, p.nx(), None)
        c = p.const_or_val(t); p.ex(','); p.ty(); a = p.nx(); p.ex(','); p.ty(); b = p.nx(); return mk(None, c, a, b)
    if op == 'switch':
        t = p.ty(); v = p.const_or_val(t); p.ex(','); p.ty(); d = p.nx(); p.ex('['); cs = []
        while not p.eat(']'):
            ct = p.ty(); cv = p.const_or_val(ct); p.ex(','); p.ty(); cs.append((cv, p.nx()))
        return mk(t, v, d, cs)
    if op == 'ret':
        t = p.ty()
        return mk(t, None if t.k == 'void' else p.const_or_val(t))
    if op == 'unreachable': return mk(None)
    if op == 'resume':
        t = p.ty(); return mk(t, p.const_or_val(t))
    if op == 'phi':
        p.attrs(); t = p.ty(); inc = []
        while True:
            p.ex('['); v = p.const_or_val(t); p.ex(','); l = p.nx(); p.ex(']'); inc.append((v, l))
            if not p.eat(','): break
        return mk(t, inc)
    if op == 'select':
        p.attrs(); ct = p.ty(); c = p.const_or_val(ct); p.ex(','); t = p.ty(); a = p.const_or_val(t); p.ex(','); t2 = p.ty(); b = p.const_or_val(t2); return mk(t, c, a, b)
    if op == 'extractvalue':
        t = p.ty(); v = p.const_or_val(t); idx = []
        while p.eat(','): idx.append(int(p.nx()))
        return mk(t, v, idx)
    if op == 'insertvalue':
        t = p.ty(); v = p.const_or_val(t); p.ex(','); et = p.ty(); ev = p.const_or_val(et); idx = []
        while p.eat(','): idx.append(int(p.nx()))
        return mk(t, v, et, ev, idx)
    if op == 'call':
        rt, callee, args, at = parse_call(p, op); return mk(rt, callee, args, at)
    if op == 'invoke':
        rt, callee, args, at = parse_call(p, op); p.ex('to'); p.ty(); n = p.nx(); p.ex('unwind'); p.ty(); u = p.nx(); return mk(rt, callee, args, at, n, u)
    if op == 'landingpad':
        t = p.ty(); cl = []; cleanup = False
        while p.pk() is not None:
            w = p.nx()
            if w == 'cleanup': cleanup = True
            elif w == 'catch': ct = p.ty(); cl.append(('catch', p.const_or_val(ct)))
            elif w == 'filter': ct = p.ty(); cl.append(('filter', p.const_or_val(ct)))
            else: break
        return mk(t, cl, cleanup)
    if op == 'atomicrmw' or op == 'cmpxchg' or op == 'fence': return mk(None)
    raise SyntaxError('instr %r' % line)

def parse_header(mod, line):
    """define/declare line -> Func (no body)"""
    body = line.split('{')[0] if False else line
    toks = tokenize(body)
    p = P(mod, toks); kind = p.nx(); at = p.attrs()
    while p.pk() in ('fastcc', 'ccc'): p.nx()
    at2 = p.attrs()
    rt = p.ty(); name = p.nx(); p.ex('(')
    f = Func(); f.name = name; f.ret = rt; f.params = []; f.vararg = False; f.blocks = None; f.dbg = None
    if not p.eat(')'):
        while True:
            if p.eat('...'): f.vararg = True; p.ex(')'); break
            t = p.ty(); a = p.attrs(); nm = None
            if p.pk() and p.pk()[0] == '%': nm = p.nx()
            f.params.append((t, nm, a))
            if p.eat(')'): break
            p.ex(',')
    rest = p.t[p.i:]
    f.attrids = [w for w in rest if w.startswith('#')]
    for k in range(len(rest) - 1):
        if rest[k] == '!dbg': f.dbg = rest[k + 1]
    f.inline = set()
    return f

def parse_module(path):
    mod = Module()
    lines = open(path).read().split('\n')
    for l in lines:
        if l.startswith('%') and ' = type ' in l:
            n, s = l.split(' = type ', 1); mod.typesrc[n.strip()] = tokenize(s)
    i = 0; n = len(lines); pend = []
    while i < n:
        l = lines[i]
        if l.startswith('define') or l.startswith('declare'):
            f = parse_header(mod, l.rstrip().rstrip('{') if l.startswith('define') else l)
            f.line = i
            mod.funcs[f.name] = f
            if l.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                f.src = lines[i + 1:j]; i = j
            else: f.src = None
        elif l.startswith('@'):
            pend.append(l)
        elif l.startswith('attributes #'):
            m = re.match(r'attributes (#\d+) = \{(.*)\}', l); mod.attrs[m.group(1)] = m.group(2)
        elif l.startswith('!'):
            m = re.match(r'(!\d+) = (.*)', l)
            if m: mod.md[m.group(1)] = m.group(2)
        i += 1
    for l in pend: parse_global(mod, l)
    # demangle
    names = list(mod.funcs)
    plain = [x[1:].strip('"') for x in names]
    dem = subprocess.run(['/usr/bin/llvm-cxxfilt-18'], input='\n'.join(plain), capture_output=True, text=True).stdout.split('\n')
    for x, d in zip(names, dem): mod.funcs[x].dem = d
    for f in mod.funcs.values():
        f.nounwind = any('nounwind' in mod.attrs.get(a, '').split() for a in f.attrids)
        f.noreturn = any('noreturn' in mod.attrs.get(a, '').split() for a in f.attrids)
    return mod

def parse_global(mod, l):
    toks = tokenize(l)
    name = toks[0]
    p = P(mod, toks); p.i = 2
    const = False; ext = False
    while True:
        w = p.pk()
        if w == 'constant': const = True; p.nx(); break
        if w == 'global': p.nx(); break
        if w in ('alias', 'ifunc'):
            # @a = ... alias <ty>, ptr @b
            p.nx(); p.ty(); p.ex(','); p.ty(); tgt = p.const_or_val(PTR)
            mod.globs[name] = ('alias', tgt); return
        if w in ('external', 'extern_weak'): ext = True
        p.nx()
        if w == 'thread_local' and p.pk() == '(': p.skip_paren()
        if w == 'comdat' and p.pk() == '(': p.skip_paren()
    t = p.ty(); init = None
    if not ext and p.pk() not in (None, ','): init = p.const_or_val(t)
    mod.globs[name] = ('var', t, init, const)

def body(mod, f):
    """lazily parse the body"""
    if f.blocks is not None: return f.blocks
    if f.src is None: return None
    blocks = {}; order = []; cur = None
    nm = 0
    src = f.src; i = 0
    # unnamed entry label = number of params if unnamed
    first = True
    while i < len(src):
        l = src[i]; i += 1
        if not l.strip(): continue
        if not l.startswith(' '):
            m = re.match(r'(?:"([^"]*)"|([-a-zA-Z$._0-9]+)):', l)
            if m:
                lab = m.group(1) if m.group(1) is not None else m.group(2)
                key = '%' + lab if re.fullmatch(r'[-a-zA-Z$._0-9]+', lab) else '%"' + lab + '"'
                cur = []; blocks[key] = cur; order.append(key); first = False
                continue
        if first:
            cur = []; blocks['%<entry>'] = cur; order.append('%<entry>'); first = False
        s = l.strip()
        if s.startswith('switch') and '[' in s and ']' not in s.split('[', 1)[1]:
            while ']' not in src[i - 1].strip()[:1]:
                s += ' ' + src[i].strip(); i += 1
        elif s.startswith('invoke') or ' = invoke ' in s:
            while ' unwind label ' not in s: s += ' ' + src[i].strip(); i += 1
        elif s.startswith('landingpad') or ' = landingpad ' in s:
            while i < len(src) and re.match(r'\s+(catch|cleanup|filter)', src[i]): s += ' ' + src[i].strip(); i += 1
        cur.append(parse_instr(mod, s))
    f.blocks = blocks; f.entry = order[0]
    return blocks

def dbgloc(mod, d):
    """!dbg id -> 'file:line' """
    if not d: return ''
    s = mod.md.get(d, '')
    m = re.search(r'line: (\d+)', s); ln = m.group(1) if m else '?'
    sc = re.search(r'scope: (!\d+)', s)
    seen = 0
    while sc and seen < 20:
        seen += 1
        t = mod.md.get(sc.group(1), '')
        fm = re.search(r'file: (!\d+)', t)
        if fm:
            g = mod.md.get(fm.group(1), '')
            n = re.search(r'filename: "([^"]*)"', g)
            return '%s:%s' % (os.path.basename(n.group(1)) if n else '?', ln)
        sc = re.search(r'scope: (!\d+)', t)
    return ln

if __name__ == '__main__':
    import sys, time
    t = time.time(); m = parse_module(sys.argv[1])
    for f in m.funcs.values():
        if f.src is not None: body(m, f)
    print(len(m.funcs), len(m.globs), time.time() - t)
