"""Contracts of a ptl::variant with 131 scalar alternatives: the index byte must be treated as unsigned, and every table entry must match its index."""
from vcg.dsl import *
from .slots import *
H = 'variant_many'
VARIANTS = [{'PART': 1}, {'PART': 2}]
CXXFLAGS = ['-g0']
def setup(E, PART=1): pass
def weight(c, case): return 0
AT = 130
IX = [0, 1, 126, 127, 128, 129, 130]
class Var:
    def __init__(s, c, nm, i):
        s.i = i; b = c.st.new_block(5, 'stack', nm); s.v = z3.BitVec('in!' + nm, 32)
        c.st.mem[b].cells = {0: (4, s.v), 4: (1, i)}; s.p = Ptr(b, 0)
def is_var(o, p, i, v, what, cat='C17'):
    o.req(cat, eq(o.byte(p, 4), i, 8), what + ': active alternative')
    if v is not None: o.req(cat, INT.eq(INT.get(o, p), v), what + ': value')
def same(o, x, what, cat='C17'): is_var(o, x.p, x.i, x.v, what + ' (operand unchanged)', cat)
def con(part, name, core, cases=None, nm=None):
    return contract(H, 'w_' + name, core, name=nm and 'w_' + nm, cases=cases, variant=lambda v: v.get('PART') == part)
B = ('C16', 'C17')
@con(1, 'copy', B, {'i': IX})
def _(c, i):
    x = Var(c, 'x', i); p = raw(c, 5, 'o')
    def post(o): o.returned('C16,C17'); is_var(o, p, i, x.v, 'copy', 'C16,C17'); same(o, x, 'source', 'C16,C17')
    return [p, x.p], post
@con(1, 'from', B)
def _(c):
    x, v = new(c, INT, 'x'); p = raw(c, 5, 'o')
    def post(o): o.returned('C16,C17'); is_var(o, p, AT, v, 'construction from a value', 'C16,C17')
    return [p, x], post
@con(1, 'emplace', B, {'i': IX})
def _(c, i):
    x = Var(c, 'o', i); y, v = new(c, INT, 'x')
    def post(o): o.returned('C16,C17'); is_var(o, x.p, AT, v, 'emplace', 'C16,C17'); o.req('C16', o.ptr_eq(o.v, x.p), 'result designates the alternative')
    return [x.p, y], post
@con(1, 'holds', ('C16',), {'i': IX})
def _(c, i):
    x = Var(c, 'o', i)
    def post(o): o.returned('C16'); ret_bool(o, 'C16', i == AT, 'holds'); same(o, x, 'holds', 'C16')
    return [x.p], post
@con(1, 'get_if', ('C16',), {'i': IX})
def _(c, i):
    x = Var(c, 'o', i)
    def post(o): o.returned('C16'); o.req('C16', o.ptr_eq(o.v, x.p if i == AT else NULL), 'get_if'); same(o, x, 'get_if', 'C16')
    return [x.p], post
@con(1, 'get', ('C16', 'C25'), {'i': IX})
def _(c, i):
    x = Var(c, 'o', i)
    def post(o):
        same(o, x, 'get', 'C16,C25')
        if o.kind == 'exc': o.req('C16,C25', i != AT and o.ti == BADVAR, 'throws std::bad_variant_access exactly when another alternative is active'); return
        o.returned('C16,C25'); o.req('C16,C25', b_and(i == AT, o.ptr_eq(o.v, x.p)), 'get of the active alternative')
    return [x.p], post
@con(1, 'asg_m', B, {'a': IX, 'b': [0, 128, 130]})
def _(c, a, b):
    x = Var(c, 'a', a); y = Var(c, 'b', b)
    def post(o): o.returned('C16,C17'); is_var(o, x.p, b, y.v, 'move assignment', 'C16,C17')
    return [x.p, y.p], post
@con(2, 'swap', ('C17',), {'a': IX, 'b': [0, 127, 128, 130]})
def _(c, a, b):
    x = Var(c, 'a', a); y = Var(c, 'b', b)
    def post(o): o.returned('C17'); is_var(o, x.p, b, y.v, 'swap (left)'); is_var(o, y.p, a, x.v, 'swap (right)')
    return [x.p, y.p], post
@con(2, 'visit', ('C16',), {'i': list(range(131))})
def _(c, i):
    x = Var(c, 'o', i); v = raw(c, 1, 'vis')
    def post(o): o.returned('C16'); o.req('C16', eq(o.v, simp(i + 1000 * (x.v & 1)), 32), 'the visitor sees the active alternative'); same(o, x, 'visit', 'C16')
    return [x.p, v], post
for n_, op_ in (('eq', '=='), ('lt', '<')):
    def cmp(n, op):
        @con(2, n, ('C18',), {'a': IX, 'b': [0, 127, 128, 130]})
        def _(c, a, b):
            x = Var(c, 'a', a); y = Var(c, 'b', b)
            def post(o):
                o.returned('C18'); same(o, x, op, 'C18'); same(o, y, op, 'C18')
                ret_bool(o, 'C18', INT.rel(op, x.v, y.v) if a == b else (a == b if op == '==' else a < b), 'result of ' + op)
            return [x.p, y.p], post
    cmp(n_, op_)
