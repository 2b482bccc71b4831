"""Machine words: a word is a Python int, a Ptr (symbolic region start + constant) or a z3 bit-vector."""
import z3

MASK = {w: (1 << w) - 1 for w in range(1, 129)}
SIGN = {w: 1 << (w - 1) for w in range(1, 129)}
BV = z3.BitVecRef
PTR_W = [64]
BASESYM = {}       # base id -> z3 variable
SYSSYM = {}        # values the system chose: name -> z3 variable
PTR_OK = 1 << 21   # |offset| below this can not wrap (regions are kept away from the ends of the address space)


class Ptr:
    __slots__ = ('b', 'o')

    def __init__(self, b, o):
        self.b = b
        self.o = o

    def __repr__(self):
        return 'Ptr(%s%+d)' % (self.b, self.o)


def bv(v, w):
    t = type(v)
    if t is int:
        return z3.BitVecVal(v, w)
    if t is Ptr:
        e = BASESYM[v.b]
        if v.o:
            e = e + z3.BitVecVal(v.o, PTR_W[0])
        if w < PTR_W[0]:
            e = z3.Extract(w - 1, 0, e)
        return e
    return v


def norm(e):
    """simplify; back to int / Ptr when possible"""
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    w = e.size()
    if w == PTR_W[0]:
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0:
            n = e.decl().name()
            if n[0] == '@':
                return Ptr(n, 0)
        elif e.decl().kind() == z3.Z3_OP_BADD and e.num_args() == 2 and z3.is_bv_value(e.arg(0)):
            x = e.arg(1)
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name()[0] == '@':
                o = e.arg(0).as_signed_long()
                return Ptr(x.decl().name(), o)
    return e


def is_c(v):
    return type(v) is int


def add(a, b, w):
    ta = type(a); tb = type(b)
    if ta is int and tb is int:
        return (a + b) & MASK[w]
    if ta is Ptr and tb is int:
        return Ptr(a.b, wrapo(a.o + sgn(b, w), w))
    if tb is Ptr and ta is int:
        return Ptr(b.b, wrapo(b.o + sgn(a, w), w))
    if ta is int and a == 0:
        return b
    if tb is int and b == 0:
        return a
    return norm(bv(a, w) + bv(b, w))


def wrapo(o, w):
    m = SIGN[w]
    if -m <= o < m:
        return o
    o &= MASK[w]
    return o - (m << 1) if o >= m else o


def sgn(v, w):
    return v - (1 << w) if v & SIGN[w] else v


def sub(a, b, w):
    ta = type(a); tb = type(b)
    if ta is int and tb is int:
        return (a - b) & MASK[w]
    if ta is Ptr:
        if tb is int:
            return Ptr(a.b, wrapo(a.o - sgn(b, w), w))
        if tb is Ptr and a.b == b.b:
            return (a.o - b.o) & MASK[w]
    if tb is int and b == 0:
        return a
    if a is b:
        return 0
    return norm(bv(a, w) - bv(b, w))


def and_(a, b, w):
    if type(a) is int and type(b) is int:
        return a & b
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return 0
        if b == MASK[w]:
            return a
    if a is b:
        return a
    return norm(bv(a, w) & bv(b, w))


def or_(a, b, w):
    if type(a) is int and type(b) is int:
        return a | b
    if type(a) is int and a == 0:
        return b
    if type(b) is int and b == 0:
        return a
    if a is b:
        return a
    return norm(bv(a, w) | bv(b, w))


def xor_(a, b, w):
    if type(a) is int and type(b) is int:
        return a ^ b
    if type(a) is int and a == 0:
        return b
    if type(b) is int and b == 0:
        return a
    if a is b:
        return 0
    return norm(bv(a, w) ^ bv(b, w))


def not_(a, w):
    if type(a) is int:
        return ~a & MASK[w]
    return norm(~bv(a, w))


def neg(a, w):
    if type(a) is int:
        return -a & MASK[w]
    return norm(-bv(a, w))


def mul(a, b, w):
    if type(a) is int and type(b) is int:
        return (a * b) & MASK[w]
    return norm(bv(a, w) * bv(b, w))


def shl(a, n, w):
    if type(n) is int:
        if n == 0:
            return a
        if type(a) is int:
            return (a << n) & MASK[w] if n < w else 0
    return norm(bv(a, w) << bv(n, w))


def shr(a, n, w):
    if type(n) is int:
        if n == 0:
            return a
        if type(a) is int:
            return a >> n if n < w else 0
    return norm(z3.LShR(bv(a, w), bv(n, w)))


def sar(a, n, w):
    if type(n) is int:
        if n == 0:
            return a
        if type(a) is int:
            return (sgn(a, w) >> min(n, w - 1)) & MASK[w]
    return norm(bv(a, w) >> bv(n, w))


def zext(a, w, w2):
    if type(a) is int or w == w2:
        return a
    return norm(z3.ZeroExt(w2 - w, bv(a, w)))


def sext(a, w, w2):
    if w == w2:
        return a
    if type(a) is int:
        return sgn(a, w) & MASK[w2]
    return norm(z3.SignExt(w2 - w, bv(a, w)))


def extract(a, hi, lo, w):
    """bits hi..lo of a w-bit word"""
    if type(a) is int:
        return (a >> lo) & ((1 << (hi - lo + 1)) - 1)
    if lo == 0 and hi == w - 1:
        return a
    return norm(z3.Extract(hi, lo, bv(a, w)))


def concat(parts):
    """parts: list of (value, width), most significant first"""
    return norm(z3.Concat(*[bv(v, w) for v, w in parts])) if len(parts) > 1 else parts[0][0]


def eq(a, b, w):
    ta = type(a); tb = type(b)
    if ta is int and tb is int:
        return a == b
    if ta is Ptr:
        if tb is Ptr and a.b == b.b:
            return a.o == b.o
        if tb is int and b < 0x1000 and -PTR_OK < a.o < PTR_OK:
            return False
    elif tb is Ptr and ta is int and a < 0x1000 and -PTR_OK < b.o < PTR_OK:
        return False
    if a is b:
        return True
    return b2(bv(a, w) == bv(b, w))


def b2(c):
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return c


def ult(a, b, w):
    ta = type(a); tb = type(b)
    if ta is int and tb is int:
        return a < b
    if ta is Ptr and -PTR_OK < a.o < PTR_OK:
        if tb is Ptr:
            if a.b == b.b and -PTR_OK < b.o < PTR_OK:
                return a.o < b.o
        elif tb is int and b <= 0x1000:
            return False
    elif tb is Ptr and ta is int and a < 0x1000 and -PTR_OK < b.o < PTR_OK:
        return True
    return b2(z3.ULT(bv(a, w), bv(b, w)))


def slt(a, b, w):
    ta = type(a); tb = type(b)
    if ta is int and tb is int:
        return sgn(a, w) < sgn(b, w)
    return b2(bv(a, w) < bv(b, w))


def bnot(c):
    if c is True:
        return False
    if c is False:
        return True
    return z3.Not(c)


def band(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return z3.And(a, b)


def bor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return z3.Or(a, b)


def bxor(a, b):
    if type(a) is bool:
        return bnot(b) if a else b
    if type(b) is bool:
        return bnot(a) if b else a
    return z3.Xor(a, b)


def ite(c, a, b, w):
    if c is True:
        return a
    if c is False:
        return b
    return norm(z3.If(c, bv(a, w), bv(b, w)))
