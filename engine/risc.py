"""Common part of the encodings of the load/store architectures: calling convention, thread-local storage, unwinding roles."""
import re
import z3
from val import *
from mem import entries_of, compose, fresh
from state import PathEnd
from x86 import Unsupported, mand, split_ops


class Isa:
    """what the machine needs to know about an architecture"""
    tls1 = None            # variant 1: distance of the TLS block from the thread pointer
    xsaved = ()
    fpsaved = ()           # callee saved floating point registers (low 64 bits)
    cpu = None
    dtv = 0
    ZERO = None
    GP = None

    def __init__(self, m, elf):
        self.m = m
        self.elf = elf
        self.W = elf.bits
        self.WB = self.W // 8

    def args(self, st, n):
        return [st.r[i] for i in self.ARGS[:n]]

    def target(self, st, v):
        return self.m.target(st, v)

    def leave(self, st, v):
        t = self.target(st, st.r[self.LR])
        if v is not None:
            st.r[self.RET] = v
        return t

    def return_to(self, st):
        """(return address, stack pointer after return) of a function that was just entered"""
        return st.r[self.LR], st.r[self.SP]

    def enter(self, st, sp, ret):
        st.r[self.SP] = sp
        st.r[self.LR] = ret

    def start_pc(self, st, a):
        return a

    def set_arg0(self, st, v):
        st.r[self.ARGS[0]] = v

    def fp64(self, st, i):
        return fget64(st, i)

    def landing(self, st, exc, fps):
        keep = set(self.saved) | {self.SP, self.TP, self.ZERO, self.GP}
        for i in range(self.nreg):
            if i not in keep:
                st.r[i] = fresh('unw', self.W)
        st.r[self.EXC[0]] = exc
        st.r[self.EXC[1]] = 0
        for i, v in fps.items():
            fput64(st, i, v)

    def decode(self, addr):
        ins = self.elf.ins.get(addr)
        if ins is None:
            raise PathEnd('crash', 'execution of a non-code address %#x in %s' % (addr, self.elf.func_at(addr)))
        ln, text = ins
        try:
            return self.decode_text(addr, addr + ln, text)
        except (Unsupported, KeyError, IndexError, ValueError) as e:
            msg = 'unsupported instruction at %#x: %s (%r)' % (addr, text, e)

            def bad(st):
                raise PathEnd('unsupported', msg)
            return bad


ZERO16 = tuple([0] * 16)


def fget(st, i):
    """floating point / vector register as 16 byte entries"""
    v = st.x[i]
    if v is None:
        t = fresh('fpr%d' % i, 128)
        v = st.x[i] = tuple((t, k, 16) for k in range(16))
    return v


def fget64(st, i):
    return compose(fget(st, i)[:8])


def fput64(st, i, v):
    """low half; the high half becomes arbitrary"""
    t = fresh('fprh%d' % i, 64)
    st.x[i] = tuple(entries_of(v, 8)) + tuple((t, k, 8) for k in range(8))


def select(m, st, c, a, b, w):
    """c ? a : b; addresses are kept concrete by forking"""
    if c is True:
        return a
    if c is False:
        return b
    if type(a) is Ptr or type(b) is Ptr or type(a) is int and type(b) is int and (m.is_addr(a) or m.is_addr(b)):
        return a if st.decide(c) else b
    return ite(c, a, b, w)


def bsum(c, w):
    if c is True:
        return 1
    if c is False:
        return 0
    return ite(c, 1, 0, w)


def divu(st, a, b, w, zero):
    if st.decide(eq(b, 0, w)):
        return zero(a)
    b = st.divisor(b, w)
    if type(b) is int and b & (b - 1) == 0:
        return shr(a, b.bit_length() - 1, w)
    if type(a) is int and type(b) is int:
        return a // b
    return norm(z3.UDiv(bv(a, w), bv(b, w)))


def remu(st, a, b, w):
    if st.decide(eq(b, 0, w)):
        return a
    b = st.divisor(b, w)
    if type(b) is int and b & (b - 1) == 0:
        return and_(a, b - 1, w)
    if type(a) is int and type(b) is int:
        return a % b
    return norm(z3.URem(bv(a, w), bv(b, w)))


def divs(st, a, b, w, zero):
    if st.decide(eq(b, 0, w)):
        return zero(a)
    return norm(bv(a, w) / bv(b, w))


def rems(st, a, b, w):
    if st.decide(eq(b, 0, w)):
        return a
    return norm(z3.SRem(bv(a, w), bv(b, w)))


def mulhu(a, b, w):
    if type(a) is int and type(b) is int:
        return (a * b) >> w
    return norm(z3.Extract(2 * w - 1, w, z3.ZeroExt(w, bv(a, w)) * z3.ZeroExt(w, bv(b, w))))


def mulhs(a, b, w):
    return norm(z3.Extract(2 * w - 1, w, z3.SignExt(w, bv(a, w)) * z3.SignExt(w, bv(b, w))))


def ror(a, n, w):
    n %= w
    return or_(shr(a, n, w), shl(a, w - n, w), w) if n else a


def clz(a, w):
    if type(a) is int:
        return w - a.bit_length()
    e = z3.BitVecVal(w, w)
    a = bv(a, w)
    for i in range(w):
        e = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(w - 1 - i, w), e)
    return norm(e)


def ctz(a, w):
    return clz(rbit(a, w), w)


def rbit(a, w):
    if type(a) is int:
        return int(bin(a)[2:].zfill(w)[::-1], 2)
    a = bv(a, w)
    return norm(z3.Concat(*[z3.Extract(i, i, a) for i in range(w)]))


def popcnt(a, w):
    if type(a) is int:
        return bin(a).count('1')
    a = bv(a, w)
    e = z3.BitVecVal(0, w)
    for i in range(w):
        e = e + z3.ZeroExt(w - 1, z3.Extract(i, i, a)) if w > 1 else a
    return norm(e)


def brev(a, w, unit=None):
    """byte reversal inside units of `unit` bits"""
    unit = unit or w
    n = unit // 8
    es = entries_of(a, w // 8)
    out = []
    for i in range(0, len(es), n):
        out += es[i:i + n][::-1]
    return compose(out)


def num(s):
    s = s.lstrip('#')
    return int(s, 0)
