"""Contracts of a ptl::variant_ref with 260 alternatives: indices beyond a byte, and every table entry must match its index."""
from vcg.dsl import *
from .slots import *
H = 'refs_many'
VARIANTS = [{'PART': 1}, {'PART': 2}]
CXXFLAGS = ['-g0', '-fbracket-depth=4096', '-ftemplate-depth=4096']
def setup(E, PART=1): pass
IX = [0, 3, 4, 127, 128, 131, 255, 256, 258, 259]
def con(part, name, cases=None, core=('C20',)): return contract(H, 'm_' + name, core, cases=cases, variant=lambda v: v.get('PART') == part)
class Ref:
    """a variant_ref bound to an array of i + 1 chars"""
    def __init__(s, c, nm, i):
        s.i = i; b = c.st.new_block(i + 1, 'stack', nm + '.target'); s.v = z3.BitVec('in!' + nm, 8); c.st.mem[b].cells = {0: (1, s.v)}
        s.t = Ptr(b, 0); s.p = c.obj(16, {0: (8, s.t), 8: (8, i)}, nm)
def is_ref(o, p, i, t, what, cat='C20'): o.req(cat, b_and(eq(o.word(p, 8), i), o.ptr_eq(o.ptr(p), t)), what + ': refers to exactly the bound object under its alternative')
def same(o, x, what, cat='C20'): is_ref(o, x.p, x.i, x.t, what, cat); o.req(cat, eq(o.byte(x.t, 0), x.v, 8), what + ': the bound object is unchanged')
for n_, at_ in (('', 259), ('_low', 3)):
    def acc(n, at):
        @con(1, 'holds' + n, {'i': IX})
        def _(c, i):
            x = Ref(c, 'o', i)
            def post(o): o.returned('C20'); ret_bool(o, 'C20', i == at, 'holds'); same(o, x, 'holds')
            return [x.p], post
        @con(1, 'get_if' + n, {'i': IX})
        def _(c, i):
            x = Ref(c, 'o', i)
            def post(o): o.returned('C20'); o.req('C20', o.ptr_eq(o.v, x.t if i == at else NULL), 'get_if points at the bound object or is null'); same(o, x, 'get_if')
            return [x.p], post
    acc(n_, at_)
@con(1, 'get', {'i': IX}, ('C20', 'C25'))
def _(c, i):
    x = Ref(c, 'o', i)
    def post(o):
        same(o, x, 'get', 'C20,C25')
        if o.kind == 'exc': o.req('C20,C25', i != 259 and o.ti == BADVAR, 'throws std::bad_variant_access exactly for other types'); return
        o.returned('C20,C25'); o.req('C20,C25', b_and(i == 259, o.ptr_eq(o.v, x.t)), 'get designates the bound object')
    return [x.p], post
@con(1, 'bind')
def _(c):
    x = Ref(c, 'x', 259); r = raw(c, 16, 'r')
    def post(o): o.returned('C20'); is_ref(o, r, 259, x.t, 'binding'); same(o, x, 'operand')
    return [r, x.t], post
@con(2, 'copy', {'i': IX})
def _(c, i):
    x = Ref(c, 'x', i); r = raw(c, 16, 'r')
    def post(o): o.returned('C20'); is_ref(o, r, i, x.t, 'copy'); same(o, x, 'source')
    return [r, x.p], post
@con(2, 'asg', {'a': [3], 'b': IX})
def _(c, a, b):
    x = Ref(c, 'a', a); y = Ref(c, 'b', b)
    def post(o): o.returned('C20'); is_ref(o, x.p, b, y.t, 'assignment'); same(o, y, 'source'); o.req('C20', o.ptr_eq(o.v, x.p), 'result designates the right object')
    return [x.p, y.p], post
@con(2, 'visit', {'i': sorted({*IX, *range(0, 260, 16)})})
def _(c, i):
    x = Ref(c, 'o', i); v = raw(c, 1, 'vis')
    def post(o): o.returned('C20'); o.req('C20', eq(o.v, simp(i + 1 + 1000 * z3.ZeroExt(56, x.v & 1))), 'the visitor sees the bound object'); same(o, x, 'visit')
    return [x.p, v], post
