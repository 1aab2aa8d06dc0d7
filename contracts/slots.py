"""Objects that hold elements at fixed offsets: shared by the contracts of optional, variant, tuple, array and the reference types."""
from vcg.dsl import *
from vcg import ir

class Opaque:
    """slot of an opaque element type: its value is a 64-bit token, its lifetime is tracked"""
    def __init__(s, T, throws=True): s.T, s.size, s.throws = T, T.size, throws
    def put(s, c, p, nm):
        v = z3.BitVec('in!' + nm, 64); b = c.st.mem[p.b]
        b.life = ((p.o, 1, s.size, s.T.code), b.life if b.life is not None else 'dead')
        b.val = ((p.o, 1, s.size, lambda off: v), b.val)
        return v
    def get(s, o, p): return o.E.val_at(o.st, o.st.blk(p.b), p.o)
    def live(s, o, p): return o.E.life_is(o.E.life_at(o.st, o.st.blk(p.b), p.o), s.T.code)
    def rel(s, op, a, b): return s.T.rel[op](bv64(a), bv64(b))
    def default(s): return s.T.defval
    def eq(s, a, b): return eq(a, b)
    opaque = True
class Int:
    """slot of a signed integral type"""
    throws = False; opaque = False; T = None
    def __init__(s, w=32): s.w, s.size = w, w // 8
    def put(s, c, p, nm):
        v = z3.BitVec('in!' + nm, s.w); b = c.st.mem[p.b]; b.cells = dict(b.cells); b.cells[p.o] = (s.size, v); return v
    def get(s, o, p): return o.E.rd(o.st, o.st.blk(p.b), p.o, ir.INT(s.w))
    def live(s, o, p): return True
    def rel(s, op, a, b):
        a, b = bv(a, s.w), bv(b, s.w)
        return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b}[op]()
    def default(s): return 0
    def eq(s, a, b): return eq(a, b, s.w)
class Plain(Int):
    """slot of a trivially copyable type whose comparisons are opaque functions of its bytes"""
    def __init__(s, T): s.w, s.size, s.P = 8 * T.size, T.size, T
    def rel(s, op, a, b): return s.P.rel[op](lib.zx(a, s.size), lib.zx(b, s.size))
INT = Int()
def new(c, kind, nm):
    """a live object of this kind in its own block"""
    b = c.st.new_block(kind.size, 'stack', nm); p = Ptr(b, 0); return p, kind.put(c, p, nm)
def raw(c, size, nm):
    """uninitialised storage"""
    b = c.st.new_block(size, 'stack', nm); c.st.mem[b].life = 'dead'; return Ptr(b, 0)
def nothing_live(o, p, size):
    i = o.skolem('off'); blk = o.st.blk(p.b)
    return b_imp(ult(i, size), o.E.life_is(o.E.life_at(o.st, blk, i), 0)) if blk.life is not None else True
OPS = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}
def ret_bool(o, cat, want, msg): o.req(cat, simp(tobool(o.result_true()) == tobool(want)), msg)
