"""x86 / x86-64 instruction semantics: objdump text -> Python closures over State."""
import re
import z3
from val import *
from mem import entries_of, compose, fresh
from state import PathEnd

R64 = ['rax', 'rcx', 'rdx', 'rbx', 'rsp', 'rbp', 'rsi', 'rdi'] + ['r%d' % i for i in range(8, 16)]
R32 = ['eax', 'ecx', 'edx', 'ebx', 'esp', 'ebp', 'esi', 'edi'] + ['r%dd' % i for i in range(8, 16)]
R16 = ['ax', 'cx', 'dx', 'bx', 'sp', 'bp', 'si', 'di'] + ['r%dw' % i for i in range(8, 16)]
R8 = ['al', 'cl', 'dl', 'bl', 'spl', 'bpl', 'sil', 'dil'] + ['r%db' % i for i in range(8, 16)]
REG = {}
for i, n in enumerate(R64): REG[n] = (i, 64, 0)
for i, n in enumerate(R32): REG[n] = (i, 32, 0)
for i, n in enumerate(R16): REG[n] = (i, 16, 0)
for i, n in enumerate(R8): REG[n] = (i, 8, 0)
for i, n in enumerate(['ah', 'ch', 'dh', 'bh']): REG[n] = (i, 8, 8)
SZ = {'BYTE': 8, 'WORD': 16, 'DWORD': 32, 'QWORD': 64, 'XMMWORD': 128, 'TBYTE': 80, 'YMMWORD': 256, 'OWORD': 128}
RSP, RBP = 4, 5
BVT = z3.BitVecRef


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ flags
def zf(st):
    f = st.fl
    k = f[0]
    if k == 'ex':
        return f[2]
    if k == 'sub':
        return eq(f[2], f[3], f[1])
    return eq(f[4], 0, f[1])


def cf(st):
    f = st.fl
    k = f[0]
    if k == 'ex':
        return f[1]
    if k == 'sub':
        return ult(f[2], f[3], f[1])
    if k == 'add':
        return ult(f[4], f[2], f[1])
    if k == 'logic':
        return False
    return f[3]     # inc/dec: carry kept


def fres(f):
    r = f[4]
    return sub(f[2], f[3], f[1]) if r is None else r


def sf(st):
    f = st.fl
    if f[0] == 'ex':
        return f[3]
    return slt(fres(f), 0, f[1])


def of(st):
    f = st.fl
    k = f[0]
    if k == 'ex':
        return f[4]
    w = f[1]
    if k == 'sub':
        a, b, r = f[2], f[3], fres(f)
        if type(a) is int and type(b) is int:
            return bool((a ^ b) & (a ^ r) & SIGN[w])
        return slt(and_(xor_(a, b, w), xor_(a, r, w), w), 0, w)
    if k == 'add':
        a, b, r = f[2], f[3], f[4]
        return slt(and_(xor_(a, r, w), xor_(b, r, w), w), 0, w)
    if k == 'logic':
        return False
    if k == 'inc':
        return eq(f[4], SIGN[w], w)
    return eq(f[4], SIGN[w] - 1, w)      # dec


def pf(st):
    f = st.fl
    if f[0] == 'ex':
        return f[5]
    b = extract(fres(f), 7, 0, f[1])
    if type(b) is int:
        return bin(b).count('1') % 2 == 0
    x = bv(b, 8)
    x = x ^ z3.LShR(x, 4)
    x = x ^ z3.LShR(x, 2)
    x = x ^ z3.LShR(x, 1)
    return b2(z3.Extract(0, 0, x) == 0)


def c_l(st):
    f = st.fl
    if f[0] == 'sub':
        return slt(f[2], f[3], f[1])
    if f[0] == 'logic':
        return slt(f[4], 0, f[1])
    return bxor(sf(st), of(st))


def c_le(st):
    f = st.fl
    if f[0] == 'sub':
        return bnot(slt(f[3], f[2], f[1]))
    return bor(zf(st), c_l(st))


def c_be(st):
    f = st.fl
    if f[0] == 'sub':
        return bnot(ult(f[3], f[2], f[1]))
    return bor(cf(st), zf(st))


COND = {'o': of, 'b': cf, 'e': zf, 'be': c_be, 's': sf, 'p': pf, 'l': c_l, 'le': c_le}
for a, b in (('no', 'o'), ('ae', 'b'), ('ne', 'e'), ('a', 'be'), ('ns', 's'), ('np', 'p'), ('ge', 'l'), ('g', 'le')):
    COND[a] = (lambda f: lambda st: bnot(f(st)))(COND[b])
for a, b in (('c', 'b'), ('nae', 'b'), ('nb', 'ae'), ('nc', 'ae'), ('z', 'e'), ('nz', 'ne'), ('na', 'be'), ('nbe', 'a'),
             ('pe', 'p'), ('po', 'np'), ('nge', 'l'), ('nl', 'ge'), ('ng', 'le'), ('nle', 'g')):
    COND[a] = COND[b]


def exflags(st):
    """all flags as explicit booleans"""
    if st.fl[0] == 'ex':
        return list(st.fl[1:])
    return [cf(st), zf(st), sf(st), of(st), pf(st)]


def setflags(st, w, r, c=False, o=False):
    st.fl = ('ex', c, eq(r, 0, w), slt(r, 0, w), o, None)
    # parity on demand is rare: compute lazily through the logic form when c/o are trivial


# ------------------------------------------------------------------ operands
class Cpu:
    def __init__(self, elf, W):
        self.W = W
        self.elf = elf
        self.nreg = 16 if W == 64 else 8

    def parse_mem(self, s, nxt):
        """s: 'QWORD PTR fs:[rax+rbx*4+0x10]' -> (bits or None, closure giving the address)"""
        m = re.match(r'(?:(\w+) PTR )?(?:([a-z]s):)?(\[.*\]|0x[0-9a-f]+|[0-9a-f]+)$', s)
        if not m:
            raise Unsupported('operand ' + s)
        bits = SZ[m.group(1)] if m.group(1) else None
        seg = m.group(2)
        W = self.W
        mask = MASK[W]
        b = m.group(3)
        base = idx = None
        sc = 1
        disp = 0
        if b[0] == '[':
            for sg, t in re.findall(r'([+-]?)([^+\-]+)', b[1:-1]):
                if t.startswith('0x') or t[0].isdigit():
                    disp += -int(t, 16) if sg == '-' else int(t, 16)
                elif '*' in t:
                    rn, sc = t.split('*')
                    sc = int(sc)
                    idx = REG[rn][0] if rn not in ('riz', 'eiz') else None
                    if rn in REG and REG[rn][1] != W:
                        raise Unsupported('address size ' + s)
                elif t in ('rip', 'eip'):
                    disp += nxt
                elif t in ('riz', 'eiz'):
                    pass
                else:
                    if REG[t][1] != W:
                        raise Unsupported('address size ' + s)
                    if base is None:
                        base = REG[t][0]
                    else:
                        idx = REG[t][0]
        else:
            disp = int(b, 16)
            if seg == 'ds':
                pass
        disp &= mask
        sd = disp - (1 << W) if disp >> (W - 1) else disp
        if base is not None and idx is None:
            def ea(st):
                a = st.r[base]
                t = type(a)
                if t is int:
                    return (a + disp) & mask
                if t is Ptr:
                    return Ptr(a.b, a.o + sd)
                return add(a, disp, W)
        elif base is None and idx is None:
            def ea(st):
                return disp
        else:
            sh = {1: 0, 2: 1, 4: 2, 8: 3}[sc]

            def ea(st):
                i = st.r[idx]
                if sh:
                    i = shl(i, sh, W)
                if base is not None:
                    i = add(st.r[base], i, W)
                return add(i, disp, W)
        if seg in ('fs', 'gs'):
            inner = ea

            def ea(st):
                return add(inner(st), st.fsbase, W)
        return bits, ea

    def operand(self, s, nxt, defbits=None):
        """-> (kind, bits, get(st), set(st, v), ea)"""
        W = self.W
        if s in REG:
            i, w, hi = REG[s]
            if w == W:
                def get(st):
                    return st.r[i]

                def put(st, v):
                    st.r[i] = v
            elif w == 32:     # on 64 bit
                def get(st):
                    v = st.r[i]
                    if type(v) is int:
                        return v & 0xffffffff
                    return extract(v, 31, 0, 64)

                def put(st, v):
                    if type(v) is int:
                        st.r[i] = v
                    else:
                        st.r[i] = zext(v, 32, 64)
            else:
                msk = ((1 << w) - 1) << hi
                inv = MASK[W] & ~msk
                lo = hi

                def get(st):
                    v = st.r[i]
                    if type(v) is int:
                        return (v >> lo) & MASK[w]
                    return extract(v, lo + w - 1, lo, W)

                def put(st, v):
                    o = st.r[i]
                    if type(o) is int and type(v) is int:
                        st.r[i] = (o & inv) | (v << lo)
                    else:
                        o = bv(o, W)
                        parts = [(z3.Extract(W - 1, lo + w, o), W - lo - w), (v, w)]
                        if lo:
                            parts.append((z3.Extract(lo - 1, 0, o), lo))
                        st.r[i] = concat(parts)
            return ('r', w, get, put, i)
        if re.match(r'-?0x[0-9a-f]+$|-?\d+$', s):
            v = int(s, 16)
            return ('i', None, v, None, None)
        if re.match(r'xmm\d+$', s):
            return ('x', 128, int(s[3:]), None, None)
        if re.match(r'(ymm|zmm|mm|k|st|cr|dr|bnd)', s):
            raise Unsupported('operand ' + s)
        bits, ea = self.parse_mem(s, nxt)
        bits = bits or defbits
        if bits is None:
            return ('m', None, None, None, ea)
        n = bits // 8

        def get(st):
            return st.rd(ea(st), n)

        def put(st, v):
            st.wr(ea(st), n, v)
        return ('m', bits, get, put, ea)


def push(st, v, W):
    sp = sub(st.r[4], W // 8, W)
    st.wr(sp, W // 8, v)
    st.r[4] = sp


def split_ops(s):
    out = []
    d = 0
    cur = ''
    for c in s:
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
            continue
        if c in '[({':
            d += 1
        if c in '])}':
            d -= 1
        cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def decode(mach, addr):
    elf = mach.elf
    ins = elf.ins.get(addr)
    if ins is None:
        if not mach.in_text(addr) or not elf.disasm_at(addr):
            raise PathEnd('crash', 'execution of a non-code address %#x' % addr)
        ins = elf.ins[addr]
    ln, text = ins
    nxt = addr + ln
    try:
        return decode_text(mach, addr, nxt, text)
    except Unsupported as e:
        msg = 'unsupported instruction at %#x: %s (%s)' % (addr - elf.base, text, e)

        def bad(st):
            raise PathEnd('unsupported', msg)
        return bad


def decode_text(mach, addr, nxt, text):
    cpu = mach.cpu
    W = cpu.W
    WB = W // 8
    elf = mach.elf
    text = re.sub(r'\s+#.*$', '', text)
    text = re.sub(r'\s*<.*>$', '', text).strip()
    parts = text.split(None, 1)
    pre = set()
    while parts[0] in ('lock', 'rep', 'repz', 'repnz', 'notrack', 'data16', 'cs', 'ds', 'es', 'ss', 'fs', 'gs', 'bnd', 'addr32',
                       'xacquire', 'xrelease', 'repe', 'repne', 'rex.W', 'rex', 'rex.WRXB', 'rex.WB') and len(parts) > 1:
        pre.add(parts[0])
        parts = parts[1].split(None, 1)
    mn = parts[0]
    if mn in ('data16', 'cs', 'rep', 'lock'):
        return lambda st: nxt
    ops = split_ops(parts[1]) if len(parts) > 1 else []

    if mn in ('nop', 'endbr64', 'endbr32', 'pause', 'fnop', 'mfence', 'lfence', 'sfence', 'prefetcht0', 'prefetchw',
              'prefetchnta', 'prefetcht1', 'prefetcht2', 'emms', 'nopw', 'nopl'):
        return lambda st: nxt

    # ---------------------------------------------------------------- control flow
    if mn == 'jmp' or mn == 'call':
        o = ops[0]
        if re.match(r'[0-9a-f]+$', o) and o not in REG:
            t = (int(o, 16) + elf.base) & MASK[W]
            if mn == 'jmp':
                return lambda st: t

            def f(st):
                push(st, nxt, W)
                return t
            return f
        k, w, get, put, ea = cpu.operand(o, nxt, W)
        if w != W:
            raise Unsupported(text)
        if mn == 'jmp':
            return lambda st: mach.target(st, get(st))

        def f(st):
            t = mach.target(st, get(st))
            push(st, nxt, W)
            return t
        return f
    if mn == 'ret':
        extra = int(ops[0], 16) if ops else 0

        def f(st):
            sp = st.r[4]
            t = mach.target(st, st.rd(sp, WB))
            st.r[4] = add(sp, WB + extra, W)
            return t
        return f
    if mn[0] == 'j' and mn[1:] in COND:
        t = (int(ops[0], 16) + elf.base) & MASK[W]
        c = COND[mn[1:]]

        def f(st):
            v = c(st)
            if v is True or (v is not False and st.decide(v)):
                return t
            return nxt
        return f
    if mn in ('jecxz', 'jrcxz'):
        t = (int(ops[0], 16) + elf.base) & MASK[W]

        def f(st):
            return t if st.decide(eq(st.r[1], 0, W)) else nxt
        return f
    if mn in ('ud2', 'int3', 'hlt', 'ud1', 'ud0'):
        def f(st):
            return mach.trap(st, mn)
        return f
    if mn == 'leave':
        def f(st):
            bp = st.r[5]
            v = st.rd(bp, WB)
            st.r[4] = add(bp, WB, W)
            st.r[5] = v
            return nxt
        return f

    # ---------------------------------------------------------------- stack
    if mn == 'push':
        k, w, get, put, ea = cpu.operand(ops[0], nxt, W)
        if k == 'i':
            v = get & MASK[W]

            def f(st):
                push(st, v, W)
                return nxt
            return f
        if w != W:
            raise Unsupported(text)

        def f(st):
            push(st, get(st), W)
            return nxt
        return f
    if mn == 'pop':
        k, w, get, put, ea = cpu.operand(ops[0], nxt, W)
        if w != W:
            raise Unsupported(text)
        if k == 'r':
            def f(st):
                sp = st.r[4]
                v = st.rd(sp, WB)
                st.r[4] = add(sp, WB, W)
                put(st, v)
                return nxt
            return f

        def f(st):
            sp = st.r[4]
            v = st.rd(sp, WB)
            st.r[4] = add(sp, WB, W)
            try:
                put(st, v)
            except PathEnd:
                st.r[4] = sp
                raise
            return nxt
        return f
    if mn in ('pushf', 'pushfq'):
        def f(st):
            fl = exflags(st)
            v = 0x202
            for b, c in zip((0, 6, 7, 11, 2), fl):
                if c is None:
                    c = False
                v = or_(v, ite(c, 1 << b, 0, W) if type(c) is not bool else (1 << b if c else 0), W)
            push(st, v, W)
            return nxt
        return f
    if mn in ('popf', 'popfq'):
        def f(st):
            sp = st.r[4]
            v = st.rd(sp, WB)
            st.r[4] = add(sp, WB, W)

            def bit(b):
                return eq(extract(v, b, b, W), 1, 1)
            st.fl = ('ex', bit(0), bit(6), bit(7), bit(11), bit(2))
            return nxt
        return f

    # ---------------------------------------------------------------- moves
    if mn in ('mov', 'movabs'):
        d = cpu.operand(ops[0], nxt) if ops[0] in REG else None
        s = cpu.operand(ops[1], nxt, d[1] if d else None)
        if d is None:
            d = cpu.operand(ops[0], nxt, s[1])
        if re.match(r'[cdefgs]s$', ops[1]) or re.match(r'[cdefgs]s$', ops[0]):
            raise Unsupported(text)
        w = d[1]
        if w is None or (s[1] is not None and s[1] != w):
            raise Unsupported(text)
        put = d[3]
        if s[0] == 'i':
            v = s[2] & MASK[w]
            if d[0] == 'r' and w >= 32:
                i = d[4]

                def f(st):
                    st.r[i] = v
                    return nxt
                return f

            def f(st):
                put(st, v)
                return nxt
            return f
        get = s[2]
        if d[0] == 'r' and s[0] == 'r' and w == W:
            i, j = d[4], s[4]

            def f(st):
                r = st.r
                r[i] = r[j]
                return nxt
            return f
        if d[0] == 'r' and s[0] == 'm' and w == W:
            i = d[4]
            ea = s[4]

            def f(st):
                st.r[i] = st.rd(ea(st), WB)
                return nxt
            return f

        def f(st):
            put(st, get(st))
            return nxt
        return f
    if mn == 'lea':
        d = cpu.operand(ops[0], nxt)
        _, ea = cpu.parse_mem(ops[1], nxt)
        put = d[3]
        if d[1] == W:
            i = d[4]

            def f(st):
                st.r[i] = ea(st)
                return nxt
            return f
        w = d[1]

        def f(st):
            put(st, extract(ea(st), w - 1, 0, W))
            return nxt
        return f
    if mn in ('movzx', 'movsx', 'movsxd'):
        d = cpu.operand(ops[0], nxt)
        s = cpu.operand(ops[1], nxt)
        fn = zext if mn == 'movzx' else sext
        dw, sw, put, get = d[1], s[1], d[3], s[2]

        def f(st):
            put(st, fn(get(st), sw, dw))
            return nxt
        return f
    if mn == 'xchg':
        a = cpu.operand(ops[0], nxt)
        b = cpu.operand(ops[1], nxt)
        if W == 64 and ops == ['rbx', 'rbx'] or W == 32 and ops == ['ebx', 'ebx']:
            return mach.valgrind_op(nxt)
        ga, pa, gb, pb = a[2], a[3], b[2], b[3]
        memfirst = a[0] == 'm'

        def f(st):
            x, y = ga(st), gb(st)
            if memfirst:
                pa(st, y); pb(st, x)
            else:
                pb(st, x); pa(st, y)
            return nxt
        return f
    if mn == 'bswap':
        d = cpu.operand(ops[0], nxt)
        w, get, put = d[1], d[2], d[3]

        def f(st):
            v = get(st)
            if type(v) is int:
                v = int.from_bytes(v.to_bytes(w // 8, 'little'), 'big')
            else:
                v = bv(v, w)
                v = norm(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(w // 8)]))
            put(st, v)
            return nxt
        return f
    if mn.startswith('cmov'):
        c = COND[mn[4:]]
        d = cpu.operand(ops[0], nxt)
        s = cpu.operand(ops[1], nxt, d[1])
        w, gd, put, gs = d[1], d[2], d[3], s[2]

        def f(st):
            v = c(st)
            a = gs(st)
            if v is True:
                put(st, a)
            elif v is False:
                put(st, gd(st))
            else:
                b = gd(st)
                if type(a) is Ptr or type(b) is Ptr or type(a) is int and type(b) is int and (mach.is_addr(a) or mach.is_addr(b)):
                    put(st, a if st.decide(v) else b)
                else:
                    put(st, ite(v, a, b, w))
            return nxt
        return f
    if mn.startswith('set') and mn[3:] in COND:
        c = COND[mn[3:]]
        d = cpu.operand(ops[0], nxt)
        put = d[3]

        def f(st):
            v = c(st)
            if v is True:
                put(st, 1)
            elif v is False:
                put(st, 0)
            else:
                put(st, ite(v, 1, 0, 8))
            return nxt
        return f

    # ---------------------------------------------------------------- arithmetic
    if mn in ('add', 'sub', 'and', 'or', 'xor', 'cmp', 'test', 'adc', 'sbb'):
        d = cpu.operand(ops[0], nxt)
        s = cpu.operand(ops[1], nxt, d[1])
        w = d[1]
        if s[1] is not None and s[1] != w:
            raise Unsupported(text)
        gd, put = d[2], d[3]
        if s[0] == 'i':
            imm = s[2] & MASK[w]
            gs = lambda st: imm
        else:
            gs = s[2]
        if mn == 'xor' and ops[0] == ops[1]:
            def f(st):
                put(st, 0)
                st.fl = ('logic', w, 0, 0, 0)
                return nxt
            return f
        if mn == 'add':
            def f(st):
                a = gd(st); b = gs(st)
                r = add(a, b, w)
                put(st, r)
                st.fl = ('add', w, a, b, r)
                return nxt
        elif mn == 'sub':
            def f(st):
                a = gd(st); b = gs(st)
                r = sub(a, b, w)
                put(st, r)
                st.fl = ('sub', w, a, b, r)
                return nxt
        elif mn == 'cmp':
            def f(st):
                a = gd(st); b = gs(st)
                # the difference itself is rarely needed; sub() is cheap for concrete operands
                st.fl = ('sub', w, a, b, (a - b) & MASK[w] if type(a) is int and type(b) is int else None)
                return nxt
        elif mn == 'test':
            same = ops[0] == ops[1]

            def f(st):
                a = gd(st)
                r = a if same else mand(st, a, gs(st), w)
                st.fl = ('logic', w, 0, 0, r)
                return nxt
        elif mn == 'and':
            def f(st):
                r = mand(st, gd(st), gs(st), w)
                put(st, r)
                st.fl = ('logic', w, 0, 0, r)
                return nxt
        elif mn in ('or', 'xor'):
            fn = or_ if mn == 'or' else xor_

            def f(st):
                r = fn(gd(st), gs(st), w)
                put(st, r)
                st.fl = ('logic', w, 0, 0, r)
                return nxt
        else:
            isadc = mn == 'adc'

            def f(st):
                a = gd(st); b = gs(st)
                c = cf(st)
                ci = 1 if c is True else 0 if c is False else ite(c, 1, 0, w)
                # widen by one bit for exact carry
                if type(a) is int and type(b) is int and type(ci) is int:
                    t = a + b + ci if isadc else a - b - ci
                    r = t & MASK[w]
                    nc = bool(t >> w & 1) if isadc else t < 0
                else:
                    A = z3.ZeroExt(1, bv(a, w)); B = z3.ZeroExt(1, bv(b, w)); Ci = z3.ZeroExt(1, bv(ci, w))
                    t = A + B + Ci if isadc else A - B - Ci
                    r = norm(z3.Extract(w - 1, 0, t))
                    nc = b2(z3.Extract(w, w, t) == 1)
                if isadc:
                    o = slt(and_(xor_(a, r, w), xor_(b, r, w), w), 0, w)
                else:
                    o = slt(and_(xor_(a, b, w), xor_(a, r, w), w), 0, w)
                put(st, r)
                st.fl = ('ex', nc, eq(r, 0, w), slt(r, 0, w), o, None)
                return nxt
        return f
    if mn in ('inc', 'dec'):
        d = cpu.operand(ops[0], nxt)
        w, get, put = d[1], d[2], d[3]
        fn = add if mn == 'inc' else sub

        def f(st):
            c = cf(st)
            r = fn(get(st), 1, w)
            put(st, r)
            st.fl = (mn, w, 0, c, r)
            return nxt
        return f
    if mn == 'neg':
        d = cpu.operand(ops[0], nxt)
        w, get, put = d[1], d[2], d[3]

        def f(st):
            a = get(st)
            r = neg(a, w)
            put(st, r)
            st.fl = ('sub', w, 0, a, r)
            return nxt
        return f
    if mn == 'not':
        d = cpu.operand(ops[0], nxt)
        w, get, put = d[1], d[2], d[3]

        def f(st):
            put(st, not_(get(st), w))
            return nxt
        return f
    if mn in ('shl', 'sal', 'shr', 'sar', 'rol', 'ror'):
        d = cpu.operand(ops[0], nxt)
        w, get, put = d[1], d[2], d[3]
        if len(ops) == 1:
            s = None
        else:
            s = cpu.operand(ops[1], nxt, 8)
        cmask = 63 if w == 64 else 31

        def f(st):
            if s is None:
                n = 1
            elif s[0] == 'i':
                n = s[2] & cmask
            else:
                n = st.concretize(mand(st, s[2](st), cmask, 8), 8)
            a = get(st)
            if n == 0:
                return nxt
            if mn in ('shl', 'sal'):
                r = shl(a, n, w)
                c = eq(extract(a, w - n, w - n, w), 1, 1) if n <= w else False
                put(st, r)
                st.fl = ('ex', c, eq(r, 0, w), slt(r, 0, w), bxor(slt(r, 0, w), c), None)
            elif mn == 'shr':
                r = shr(a, n, w)
                c = eq(extract(a, n - 1, n - 1, w), 1, 1) if n <= w else False
                put(st, r)
                st.fl = ('ex', c, eq(r, 0, w), slt(r, 0, w), slt(a, 0, w), None)
            elif mn == 'sar':
                r = sar(a, n, w)
                c = eq(extract(a, min(n, w) - 1, min(n, w) - 1, w), 1, 1)
                put(st, r)
                st.fl = ('ex', c, eq(r, 0, w), slt(r, 0, w), False, None)
            else:
                n %= w
                if type(a) is int:
                    k = n if mn == 'rol' else w - n
                    r = ((a << k) | (a >> (w - k))) & MASK[w] if n else a
                else:
                    A = bv(a, w)
                    r = norm(z3.RotateLeft(A, n) if mn == 'rol' else z3.RotateRight(A, n)) if n else a
                fl = exflags(st)
                fl[0] = eq(extract(r, 0, 0, w), 1, 1) if mn == 'rol' else slt(r, 0, w)
                put(st, r)
                st.fl = ('ex',) + tuple(fl)
            return nxt
        return f
    if mn in ('shld', 'shrd'):
        d = cpu.operand(ops[0], nxt)
        b = cpu.operand(ops[1], nxt)
        s = cpu.operand(ops[2], nxt, 8)
        w, get, put = d[1], d[2], d[3]

        def f(st):
            n = s[2] if s[0] == 'i' else st.concretize(s[2](st), 8)
            n &= 63 if w == 64 else 31
            if n == 0:
                return nxt
            x = get(st); y = b[2](st)
            if mn == 'shld':
                r = or_(shl(x, n, w), shr(y, w - n, w), w)
                c = eq(extract(x, w - n, w - n, w), 1, 1)
            else:
                r = or_(shr(x, n, w), shl(y, w - n, w), w)
                c = eq(extract(x, n - 1, n - 1, w), 1, 1)
            put(st, r)
            st.fl = ('ex', c, eq(r, 0, w), slt(r, 0, w), False, None)
            return nxt
        return f
    if mn == 'imul' and len(ops) >= 2:
        d = cpu.operand(ops[0], nxt)
        w, put = d[1], d[3]
        if len(ops) == 2:
            ga = d[2]
            gb = cpu.operand(ops[1], nxt, w)[2]
        else:
            ga = cpu.operand(ops[1], nxt, w)[2]
            imm = int(ops[2], 16) & MASK[w]
            gb = lambda st: imm

        def f(st):
            a = ga(st); b = gb(st)
            r = mul(a, b, w)
            if type(a) is int and type(b) is int:
                o = sgn(a, w) * sgn(b, w) != sgn(r, w)
            else:
                A = z3.SignExt(w, bv(a, w)); B = z3.SignExt(w, bv(b, w))
                o = b2(A * B != z3.SignExt(w, bv(r, w)))
            put(st, r)
            st.fl = ('ex', o, eq(r, 0, w), slt(r, 0, w), o, None)
            return nxt
        return f
    if mn in ('mul', 'imul'):
        s = cpu.operand(ops[0], nxt)
        w, gs = s[1], s[2]
        A = cpu.operand({8: 'al', 16: 'ax', 32: 'eax', 64: 'rax'}[w], nxt)
        D = cpu.operand({8: 'ah', 16: 'dx', 32: 'edx', 64: 'rdx'}[w], nxt)
        sg = mn == 'imul'

        def f(st):
            a = A[2](st); b = gs(st)
            if type(a) is int and type(b) is int:
                t = (sgn(a, w) * sgn(b, w) if sg else a * b) & ((1 << 2 * w) - 1)
                lo, hi = t & MASK[w], t >> w
                o = (sgn(hi, w) != (-1 if lo & SIGN[w] else 0)) if sg else hi != 0
            else:
                ex = z3.SignExt if sg else z3.ZeroExt
                t = ex(w, bv(a, w)) * ex(w, bv(b, w))
                lo = norm(z3.Extract(w - 1, 0, t)); hi = norm(z3.Extract(2 * w - 1, w, t))
                o = b2(z3.SignExt(w, bv(lo, w)) != t) if sg else b2(bv(hi, w) != 0)
            A[3](st, lo)
            D[3](st, hi)
            st.fl = ('ex', o, False, False, o, None)
            return nxt
        return f
    if mn in ('div', 'idiv'):
        s = cpu.operand(ops[0], nxt)
        w, gs = s[1], s[2]
        A = cpu.operand({8: 'al', 16: 'ax', 32: 'eax', 64: 'rax'}[w], nxt)
        D = cpu.operand({8: 'ah', 16: 'dx', 32: 'edx', 64: 'rdx'}[w], nxt)
        sg = mn == 'idiv'

        def f(st):
            a = A[2](st); b = gs(st); d = D[2](st)
            if st.decide(eq(b, 0, w)):
                raise PathEnd('crash', 'division by zero')
            b = st.divisor(b, w)
            if type(a) is int and type(b) is int and type(d) is int:
                n = (d << w) | a
                if sg:
                    n = n - (1 << 2 * w) if n >> (2 * w - 1) else n
                    dv = sgn(b, w)
                    q = abs(n) // abs(dv) * (1 if (n < 0) == (dv < 0) else -1)
                    rem = n - q * dv
                else:
                    q, rem = divmod(n, b)
                    if q >> w:
                        raise PathEnd('crash', 'division overflow')
                q &= MASK[w]; rem &= MASK[w]
            elif not sg and type(d) is int and d == 0:
                if type(b) is int and b & (b - 1) == 0:
                    q, rem = shr(a, b.bit_length() - 1, w), and_(a, b - 1, w)
                else:
                    q, rem = norm(z3.UDiv(bv(a, w), bv(b, w))), norm(z3.URem(bv(a, w), bv(b, w)))
            else:
                if not sg and st.decide(bnot(ult(d, b, w))):
                    raise PathEnd('crash', 'division overflow')
                n = z3.Concat(bv(d, w), bv(a, w))
                if sg:
                    B = z3.SignExt(w, bv(b, w))
                    Q = n / B
                    Rm = z3.SRem(n, B)
                else:
                    B = z3.ZeroExt(w, bv(b, w))
                    Q = z3.UDiv(n, B)
                    Rm = z3.URem(n, B)
                q = norm(z3.Extract(w - 1, 0, Q)); rem = norm(z3.Extract(w - 1, 0, Rm))
            A[3](st, q)
            D[3](st, rem)
            return nxt
        return f
    if mn in ('cdqe', 'cwde', 'cbw'):
        w = {'cdqe': 64, 'cwde': 32, 'cbw': 16}[mn]
        S_ = cpu.operand({64: 'eax', 32: 'ax', 16: 'al'}[w], nxt)
        D = cpu.operand({64: 'rax', 32: 'eax', 16: 'ax'}[w], nxt)

        def f(st):
            D[3](st, sext(S_[2](st), w // 2, w))
            return nxt
        return f
    if mn in ('cqo', 'cdq', 'cwd'):
        w = {'cqo': 64, 'cdq': 32, 'cwd': 16}[mn]
        A = cpu.operand({64: 'rax', 32: 'eax', 16: 'ax'}[w], nxt)
        D = cpu.operand({64: 'rdx', 32: 'edx', 16: 'dx'}[w], nxt)

        def f(st):
            D[3](st, sar(A[2](st), w - 1, w))
            return nxt
        return f
    if mn in ('bt', 'bts', 'btr', 'btc'):
        d = cpu.operand(ops[0], nxt)
        w = d[1]
        s = cpu.operand(ops[1], nxt, w)
        if d[0] == 'm' and s[0] != 'i':
            raise Unsupported(text)

        def f(st):
            a = d[2](st)
            n = s[2] & (w - 1) if s[0] == 'i' else and_(s[2](st), w - 1, w)
            bit = and_(shr(a, n, w), 1, w)
            fl = exflags(st)
            fl[0] = eq(bit, 1, w)
            if mn != 'bt':
                m = shl(1, n, w)
                r = or_(a, m, w) if mn == 'bts' else and_(a, not_(m, w), w) if mn == 'btr' else xor_(a, m, w)
                d[3](st, r)
            st.fl = ('ex',) + tuple(fl)
            return nxt
        return f
    if mn in ('bsf', 'bsr', 'tzcnt', 'lzcnt', 'popcnt'):
        d = cpu.operand(ops[0], nxt)
        w = d[1]
        s = cpu.operand(ops[1], nxt, w)
        if mn == 'bsf' and 'rep' in pre:
            mn2 = 'tzcnt'
        else:
            mn2 = mn

        def f(st):
            a = s[2](st)
            if type(a) is not int:
                A = bv(a, w)
                if mn2 == 'popcnt':
                    r = z3.BitVecVal(0, w)
                    for i in range(w):
                        r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, A))
                elif mn2 in ('bsf', 'tzcnt'):
                    r = z3.BitVecVal(w, w)
                    for i in reversed(range(w)):
                        r = z3.If(z3.Extract(i, i, A) == 1, z3.BitVecVal(i, w), r)
                else:
                    r = z3.BitVecVal(0 if mn2 == 'bsr' else w, w)
                    for i in range(w):
                        r = z3.If(z3.Extract(i, i, A) == 1, z3.BitVecVal(i if mn2 == 'bsr' else w - 1 - i, w), r)
                r = norm(r)
            elif mn2 == 'popcnt':
                r = bin(a).count('1')
            elif mn2 in ('bsf', 'tzcnt'):
                r = (a & -a).bit_length() - 1 if a else w
            else:
                r = a.bit_length() - 1 if mn2 == 'bsr' else w - a.bit_length()
            z = eq(a, 0, w)
            if mn2 in ('bsf', 'bsr') and st.decide(z):
                st.fl = ('ex', False, True, False, False, False)
                return nxt
            d[3](st, r)
            if mn2 in ('tzcnt', 'lzcnt'):
                st.fl = ('ex', z, eq(r, 0, w), False, False, False)
            else:
                st.fl = ('ex', False, z, False, False, False)
            return nxt
        return f
    if mn == 'xadd':
        d = cpu.operand(ops[0], nxt)
        s = cpu.operand(ops[1], nxt)
        w = d[1]

        def f(st):
            a = d[2](st); b = s[2](st)
            r = add(a, b, w)
            d[3](st, r)
            s[3](st, a)
            if d[0] == 'r':
                d[3](st, r)
            st.fl = ('add', w, a, b, r)
            return nxt
        return f
    if mn == 'cmpxchg':
        d = cpu.operand(ops[0], nxt)
        s = cpu.operand(ops[1], nxt)
        w = d[1]
        A = cpu.operand({8: 'al', 16: 'ax', 32: 'eax', 64: 'rax'}[w], nxt)

        def f(st):
            a = A[2](st); b = d[2](st)
            if st.decide(eq(a, b, w)):
                d[3](st, s[2](st))
            else:
                A[3](st, b)
            st.fl = ('sub', w, a, b, sub(a, b, w))
            return nxt
        return f

    # ---------------------------------------------------------------- strings
    m = re.match(r'(movs|stos|cmps|scas|lods)([bwlqd]?)$', mn)
    if m and ops and re.search(r'\b[de]s:\[', ' '.join(ops)) and 'xmm' not in ' '.join(ops):
        kind = m.group(1)
        mm = re.search(r'(BYTE|WORD|DWORD|QWORD) PTR', parts[1])
        n = SZ[mm.group(1)] // 8
        rep = 'rep' in pre or 'repe' in pre or 'repz' in pre or 'repne' in pre or 'repnz' in pre
        if kind in ('movs', 'stos') and W:
            def f(st):
                cnt = st.concretize(st.r[1], W) if rep else 1
                if cnt > 1 << 20:
                    raise PathEnd('crash', 'string operation of %d elements' % cnt)
                di = st.r[7]
                if cnt:
                    if kind == 'movs':
                        es = st.rde(st.r[6], n * cnt)
                        st.wre(di, es)
                        st.r[6] = add(st.r[6], n * cnt, W)
                    else:
                        v = extract(st.r[0], 8 * n - 1, 0, W)
                        st.wre(di, entries_of(v, n) * cnt)
                    st.r[7] = add(di, n * cnt, W)
                if rep:
                    st.r[1] = 0
                return nxt
            return f
        raise Unsupported(text)
    if mn in ('cld',):
        return lambda st: nxt
    if mn in ('stc', 'clc', 'cmc'):
        def f(st):
            fl = exflags(st)
            fl[0] = True if mn == 'stc' else False if mn == 'clc' else bnot(fl[0])
            st.fl = ('ex',) + tuple(fl)
            return nxt
        return f
    if mn == 'stmxcsr':
        d = cpu.operand(ops[0], nxt, 32)

        def f(st):
            d[3](st, st.mxcsr)
            return nxt
        return f
    if mn == 'ldmxcsr':
        d = cpu.operand(ops[0], nxt, 32)

        def f(st):
            st.mxcsr = d[2](st)
            return nxt
        return f
    return decode_sse(mach, cpu, addr, nxt, mn, ops, text)


def mand(st, a, b, w):
    """and, with alignment masks applied to region pointers"""
    if type(b) is Ptr:
        a, b = b, a
    if type(a) is Ptr and type(b) is int and w == PTR_W[0]:
        nm = ~b & MASK[w]
        if nm & (nm + 1) == 0:            # clears the low k bits
            k = nm.bit_length()
            if k <= max(12, st.low[a.b][0]):
                return Ptr(a.b, a.o - ((st.lowbits(a.b, k) + a.o) & nm))
        elif b & (b + 1) == 0 and b.bit_length() <= st.low[a.b][0]:
            return (st.low[a.b][1] + a.o) & b
    return and_(a, b, w)


# ------------------------------------------------------------------ SSE: a register is a tuple of 16 byte entries
ZERO16 = tuple([0] * 16)


def xget(st, i):
    v = st.x[i]
    if v is None:
        v = tuple((fresh('xmm%d' % i, 128), k, 16) for k in range(16))
        t = v[0][0]
        v = tuple((t, k, 16) for k in range(16))
        st.x[i] = v
    return v


def decode_sse(mach, cpu, addr, nxt, mn, ops, text):
    W = cpu.W
    if not any('xmm' in o for o in ops):
        raise Unsupported(text)

    def src(o, n):
        """closure -> list of n byte entries from xmm low part or memory"""
        k = cpu.operand(o, nxt, n * 8)
        if k[0] == 'x':
            i = k[2]
            return lambda st: xget(st, i)[:n]
        if k[0] == 'r':
            g, w = k[2], k[1]
            return lambda st: tuple(entries_of(g(st), w // 8))
        if k[0] == 'i':
            raise Unsupported(text)
        ea = k[4]
        return lambda st: tuple(st.rde(ea(st), n))
    dk = cpu.operand(ops[0], nxt, 128)
    isx = dk[0] == 'x'
    di = dk[2] if isx else None

    def mov(n, align=False, merge=True):
        """move n bytes; xmm dst from mem zero-extends, from xmm merges when merge"""
        if isx:
            s = src(ops[1], n)
            fromx = ops[1].startswith('xmm')
            sea = None if fromx else cpu.operand(ops[1], nxt, n * 8)[4]

            def f(st):
                if align and not fromx:
                    chk_align(st, sea(st), W)
                v = s(st)
                if n == 16:
                    st.x[di] = tuple(v)
                elif fromx and merge:
                    st.x[di] = tuple(v) + xget(st, di)[n:]
                else:
                    st.x[di] = tuple(v) + ZERO16[n:]
                return nxt
            return f
        k = cpu.operand(ops[0], nxt, n * 8)
        si = int(ops[1][3:])
        if k[0] == 'r':
            put, w = k[3], k[1]

            def f(st):
                put(st, compose(list(xget(st, si)[:w // 8])))
                return nxt
            return f
        ea = k[4]

        def f(st):
            a = ea(st)
            if align:
                chk_align(st, a, W)
            st.wre(a, list(xget(st, si)[:n]))
            return nxt
        return f

    if mn in ('movups', 'movdqu', 'movupd', 'lddqu'):
        return mov(16)
    if mn in ('movaps', 'movdqa', 'movapd', 'movntps', 'movntdq', 'movntpd'):
        return mov(16, True)
    if mn == 'movss':
        return mov(4)
    if mn == 'movsd':
        return mov(8)
    if mn == 'movq':
        return mov(8, merge=False)
    if mn == 'movd':
        if any(o in REG and REG[o][1] == 64 for o in ops):
            return mov(8, merge=False)
        return mov(4, merge=False)
    if mn in ('movlps', 'movlpd', 'movhps', 'movhpd'):
        lo = mn[3] == 'l'
        if isx:
            s = src(ops[1], 8)

            def f(st):
                v = tuple(s(st))
                o = xget(st, di)
                st.x[di] = v + o[8:] if lo else o[:8] + v
                return nxt
            return f
        k = cpu.operand(ops[0], nxt, 64)
        si = int(ops[1][3:])

        def f(st):
            v = xget(st, si)
            st.wre(k[4](st), list(v[:8] if lo else v[8:]))
            return nxt
        return f
    if mn in ('movhlps', 'movlhps'):
        si = int(ops[1][3:])

        def f(st):
            d = xget(st, di); s = xget(st, si)
            st.x[di] = s[8:] + d[8:] if mn == 'movhlps' else d[:8] + s[:8]
            return nxt
        return f
    if not isx:
        # general register destinations
        d = cpu.operand(ops[0], nxt)
        if mn in ('movmskps', 'movmskpd', 'pmovmskb'):
            si = int(ops[1][3:])
            step = {'movmskps': 4, 'movmskpd': 8, 'pmovmskb': 1}[mn]

            def f(st):
                v = xget(st, si)
                r = 0
                for j in range(16 // step):
                    b = v[j * step + step - 1]
                    b = b if type(b) is int else compose([b])
                    r = or_(r, shl(zext(shr(b, 7, 8), 8, d[1]), j, d[1]), d[1])
                d[3](st, r)
                return nxt
            return f
        if mn in ('pextrw', 'pextrd', 'pextrq', 'pextrb'):
            n = {'w': 2, 'd': 4, 'q': 8, 'b': 1}[mn[-1]]
            si = int(ops[1][3:])
            j = int(ops[2], 16) % (16 // n)

            def f(st):
                v = compose(list(xget(st, si)[n * j:n * j + n]))
                d[3](st, zext(v, 8 * n, d[1]) if d[0] == 'r' else v)
                return nxt
            return f
        raise Unsupported(text)

    if mn in ('xorps', 'pxor', 'xorpd', 'andps', 'pand', 'andpd', 'orps', 'por', 'orpd', 'andnps', 'pandn', 'andnpd'):
        if mn in ('xorps', 'pxor', 'xorpd') and ops[0] == ops[1]:
            def f(st):
                st.x[di] = ZERO16
                return nxt
            return f
        s = src(ops[1], 16)
        mem = not ops[1].startswith('xmm')
        sea = cpu.operand(ops[1], nxt, 128)[4] if mem else None
        fn = xor_ if 'xor' in mn else and_ if 'and' in mn else or_
        inv = 'andn' in mn

        def f(st):
            if mem:
                chk_align(st, sea(st), W)
            a = xget(st, di); b = s(st)
            out = []
            for h in (0, 8):
                x = compose(list(a[h:h + 8])); y = compose(list(b[h:h + 8]))
                if inv:
                    x = not_(x, 64)
                out += entries_of(fn(x, y, 64), 8)
            st.x[di] = tuple(out)
            return nxt
        return f

    lanes = {'b': 1, 'w': 2, 'd': 4, 'q': 8}

    def lanewise(n, fn, s16=None):
        s = s16 or src(ops[1], 16)

        def f(st):
            a = xget(st, di); b = s(st)
            out = []
            for j in range(0, 16, n):
                out += entries_of(fn(compose(list(a[j:j + n])), compose(list(b[j:j + n])), 8 * n), n)
            st.x[di] = tuple(out)
            return nxt
        return f
    m = re.match(r'p(add|sub|cmpeq|cmpgt|minu|maxu)([bwdq])$', mn)
    if m:
        n = lanes[m.group(2)]
        k = m.group(1)
        if k == 'add':
            return lanewise(n, add)
        if k == 'sub':
            return lanewise(n, sub)
        if k == 'cmpeq':
            return lanewise(n, lambda a, b, w: tobv(eq(a, b, w), w))
        if k == 'cmpgt':
            return lanewise(n, lambda a, b, w: tobv(slt(b, a, w), w))
        if k == 'minu':
            return lanewise(n, lambda a, b, w: ite(ult(a, b, w), a, b, w))
        if k == 'maxu':
            return lanewise(n, lambda a, b, w: ite(ult(b, a, w), a, b, w))
    if mn == 'pmuludq':
        s = src(ops[1], 16)

        def f(st):
            a = xget(st, di); b = s(st)
            out = []
            for j in (0, 8):
                out += entries_of(mul(zext(compose(list(a[j:j + 4])), 32, 64), zext(compose(list(b[j:j + 4])), 32, 64), 64), 8)
            st.x[di] = tuple(out)
            return nxt
        return f
    m = re.match(r'(punpck|unpck)(l|h)(bw|wd|dq|qdq|ps|pd)$', mn)
    if m:
        n = {'bw': 1, 'wd': 2, 'dq': 4, 'qdq': 8, 'ps': 4, 'pd': 8}[m.group(3)]
        off = 0 if m.group(2) == 'l' else 8
        s = src(ops[1], 16)

        def f(st):
            a = xget(st, di); b = s(st)
            out = ()
            for j in range(off, off + 8, n):
                out += tuple(a[j:j + n]) + tuple(b[j:j + n])
            st.x[di] = out
            return nxt
        return f
    if mn == 'pshufd':
        s = src(ops[1], 16)
        im = int(ops[2], 16)

        def f(st):
            b = s(st)
            out = ()
            for j in range(4):
                q = im >> (2 * j) & 3
                out += tuple(b[4 * q:4 * q + 4])
            st.x[di] = out
            return nxt
        return f
    if mn in ('pshuflw', 'pshufhw'):
        s = src(ops[1], 16)
        im = int(ops[2], 16)
        base = 0 if mn == 'pshuflw' else 8

        def f(st):
            b = tuple(s(st))
            out = ()
            for j in range(4):
                q = im >> (2 * j) & 3
                out += b[base + 2 * q:base + 2 * q + 2]
            st.x[di] = out + b[8:] if base == 0 else b[:8] + out
            return nxt
        return f
    if mn == 'shufps':
        s = src(ops[1], 16)
        im = int(ops[2], 16)

        def f(st):
            a = xget(st, di); b = tuple(s(st))
            out = ()
            for j in range(4):
                q = im >> (2 * j) & 3
                v = a if j < 2 else b
                out += v[4 * q:4 * q + 4]
            st.x[di] = out
            return nxt
        return f
    if mn == 'shufpd':
        s = src(ops[1], 16)
        im = int(ops[2], 16)

        def f(st):
            a = xget(st, di); b = tuple(s(st))
            st.x[di] = (a[8:] if im & 1 else a[:8]) + (b[8:] if im & 2 else b[:8])
            return nxt
        return f
    if mn in ('psrldq', 'pslldq'):
        n = min(int(ops[1], 16), 16)

        def f(st):
            v = xget(st, di)
            st.x[di] = v[n:] + ZERO16[:n] if mn == 'psrldq' else ZERO16[:n] + v[:16 - n]
            return nxt
        return f
    m = re.match(r'ps(rl|ll|ra)([wdq])$', mn)
    if m and not ops[1].startswith('xmm') and '[' not in ops[1]:
        n = lanes[m.group(2)]
        c = int(ops[1], 16)
        fn = {'rl': shr, 'll': shl, 'ra': sar}[m.group(1)]

        def f(st):
            v = xget(st, di)
            out = []
            for j in range(0, 16, n):
                out += entries_of(fn(compose(list(v[j:j + n])), c, 8 * n), n)
            st.x[di] = tuple(out)
            return nxt
        return f
    if mn in ('pinsrw', 'pinsrd', 'pinsrq', 'pinsrb'):
        n = lanes[mn[-1]]
        k = cpu.operand(ops[1], nxt, 8 * n)
        j = int(ops[2], 16) % (16 // n)

        def f(st):
            v = k[2](st)
            if k[0] == 'r':
                v = extract(v, 8 * n - 1, 0, k[1])
            o = xget(st, di)
            st.x[di] = o[:n * j] + tuple(entries_of(v, n)) + o[n * j + n:]
            return nxt
        return f
    if mn in ('palignr',):
        s = src(ops[1], 16)
        n = int(ops[2], 16)

        def f(st):
            t = tuple(s(st)) + xget(st, di) + ZERO16
            st.x[di] = t[n:n + 16]
            return nxt
        return f
    raise Unsupported(text)


def tobv(c, w):
    return ite(c, MASK[w], 0, w)


def chk_align(st, a, W):
    if type(a) is int:
        bad = a & 15 != 0
    elif type(a) is Ptr:
        bad = (st.low[a.b][1] + a.o) & 15 != 0
    else:
        bad = not st.decide(eq(extract(a, 3, 0, W), 0, 4))
    if bad:
        raise PathEnd('crash', 'misaligned 16 byte access')


# ------------------------------------------------------------------ roles of the registers
class X86:
    """interface between the machine and the architecture"""
    SP = 4
    LR = None
    TP = None
    ZERO = None
    tls1 = None
    fpsaved = ()
    xsaved = ()
    fpdwarf = {}

    def __init__(self, m, elf):
        self.m = m
        self.elf = elf
        self.W = elf.bits
        self.WB = self.W // 8
        self.cpu = Cpu(elf, self.W)
        self.nreg = self.NIMG = self.cpu.nreg
        if self.W == 64:
            self.dmap = {0: 0, 1: 2, 2: 1, 3: 3, 4: 6, 5: 7, 6: 5, 7: 4}
            self.dmap.update((i, i) for i in range(8, 16))
            self.saved = (3, 5, 12, 13, 14, 15)     # rbx rbp r12-r15
        else:
            self.dmap = {i: i for i in range(8)}
            self.saved = (3, 5, 6, 7)               # ebx ebp esi edi
        self.win64 = self.W == 64 and getattr(elf, 'win', False)
        if self.win64:
            self.saved = (3, 5, 7, 6, 12, 13, 14, 15)
            self.xsaved = tuple(range(6, 16))

    def setup(self, st):
        pass

    def args(self, st, n):
        if self.win64:
            return [st.r[i] for i in (1, 2, 8, 9)[:n]] + [st.rd(add(st.r[4], 40 + 8 * i, 64), 8) for i in range(n - 4)]
        if self.W == 64:
            return [st.r[i] for i in (7, 6, 2, 1, 8, 9)[:n]]
        return [st.rd(add(st.r[4], 4 + 4 * i, 32), 4) for i in range(n)]

    def set_arg0(self, st, v):
        """first argument of a function entered with enter()"""
        if self.W == 64:
            st.r[1 if self.win64 else 7] = v
        else:
            st.wr(add(st.r[4], 4, 32), 4, v)

    def leave(self, st, v):
        sp = st.r[4]
        t = self.m.target(st, st.rd(sp, self.WB))
        st.r[4] = add(sp, self.WB, self.W)
        if v is not None:
            st.r[0] = v
        return t

    def return_to(self, st):
        sp = st.r[4]
        return st.rd(sp, self.WB), add(sp, self.WB, self.W)

    def enter(self, st, sp, ret):
        if self.win64:
            sp = sub(sp, 32, 64)        # space for the arguments in registers
        sp = sub(sp, self.WB, self.W)
        st.r[4] = sp
        st.wr(sp, self.WB, ret)

    def start_pc(self, st, a):
        return a

    def landing(self, st, exc, fps):
        st.r[0] = exc
        st.r[2] = 0
        for i in ((1, 6, 7, 8, 9, 10, 11) if self.W == 64 else (1,)):
            st.r[i] = fresh('unw', self.W)

    def fp64(self, st, i):
        raise KeyError(i)

    def decode(self, addr):
        return decode(self.m, addr)
