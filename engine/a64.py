"""AArch64 instruction semantics: llvm-objdump text (with aliases: without them register-offset addresses print a shift that the
encoding does not have) -> closures over State."""
import re
from risc import *

REG = {}
for _i in range(31):
    REG['x%d' % _i] = (_i, 64)
    REG['w%d' % _i] = (_i, 32)
REG['sp'] = (31, 64); REG['wsp'] = (31, 32)
REG['xzr'] = (None, 64); REG['wzr'] = (None, 32)
REG['lr'] = (30, 64)
FPB = {'b': 1, 'h': 2, 's': 4, 'd': 8, 'q': 16}
ELS = {'b': 1, 'h': 2, 's': 4, 'd': 8}


# ---- flags: ('sub', w, a, b) | ('add', w, a, b, r) | ('logic', w, r) | ('ex', n, z, c, v)
def fres(f):
    return sub(f[2], f[3], f[1]) if f[0] == 'sub' else f[4] if f[0] == 'add' else f[2]


def fz(f):
    if f[0] == 'ex':
        return f[2]
    if f[0] == 'sub':
        return eq(f[2], f[3], f[1])
    return eq(fres(f), 0, f[1])


def fn_(f):
    if f[0] == 'ex':
        return f[1]
    return slt(fres(f), 0, f[1])


def fc(f):
    k = f[0]
    if k == 'ex':
        return f[3]
    if k == 'sub':
        return bnot(ult(f[2], f[3], f[1]))
    if k == 'add':
        return ult(f[4], f[2], f[1])
    return False


def fv(f):
    k = f[0]
    if k == 'ex':
        return f[4]
    if k == 'logic':
        return False
    w, a, b, r = f[1], f[2], f[3], fres(f)
    if k == 'sub':
        return slt(and_(xor_(a, b, w), xor_(a, r, w), w), 0, w)
    return slt(and_(xor_(a, r, w), xor_(b, r, w), w), 0, w)


def flt(f):
    if f[0] == 'sub':
        return slt(f[2], f[3], f[1])
    if f[0] == 'logic':
        return slt(f[2], 0, f[1])
    return bxor(fn_(f), fv(f))


def fle(f):
    if f[0] == 'sub':
        return bnot(slt(f[3], f[2], f[1]))
    return bor(fz(f), flt(f))


def fhi(f):
    if f[0] == 'sub':
        return ult(f[3], f[2], f[1])
    return band(fc(f), bnot(fz(f)))


COND = {'eq': fz, 'ne': lambda f: bnot(fz(f)), 'hs': fc, 'lo': lambda f: bnot(fc(f)), 'mi': fn_, 'pl': lambda f: bnot(fn_(f)),
        'vs': fv, 'vc': lambda f: bnot(fv(f)), 'hi': fhi, 'ls': lambda f: bnot(fhi(f)), 'lt': flt, 'ge': lambda f: bnot(flt(f)),
        'le': fle, 'gt': lambda f: bnot(fle(f)), 'al': lambda f: True, 'nv': lambda f: True}
COND['cs'] = COND['hs']; COND['cc'] = COND['lo']


def bite(c, a, b):
    """boolean if-then-else"""
    if a is b or type(a) is bool and type(b) is bool and a == b:
        return a
    return bor(band(c, a), band(bnot(c), b))


def exfl(f):
    return f[1:] if f[0] == 'ex' else (fn_(f), fz(f), fc(f), fv(f))


class A64(Isa):
    nreg = 32
    NIMG = 32
    SP = 31
    LR = 30
    RET = 0
    ARGS = tuple(range(8))
    EXC = (0, 1)
    tls1 = 16
    saved = tuple(range(19, 30))
    fpsaved = tuple(range(8, 16))
    dmap = {i: i for i in range(32)}
    fpdwarf = {64 + i: i for i in range(32)}
    TP = None

    def setup(self, st):
        st.fl = ('ex', False, False, False, False)

    # ---- operands
    def reg(self, s):
        i, w = REG[s]
        if i is None:
            return w, (lambda st: 0), (lambda st, v: None)
        if w == 64:
            def get(st):
                return st.r[i]

            def put(st, v):
                st.r[i] = v
        else:
            def get(st):
                v = st.r[i]
                return v & 0xffffffff if type(v) is int else extract(v, 31, 0, 64)

            def put(st, v):
                st.r[i] = v if type(v) is int else zext(v, 32, 64)
        return w, get, put

    def src2(self, ops, w):
        """second operand: register with optional shift/extension, or immediate with optional shift"""
        o = ops[0]
        mod = ops[1] if len(ops) > 1 else None
        if o[0] == '#':
            v = num(o)
            if mod:
                v <<= num(mod.split()[1])
            v &= MASK[w]
            return lambda st: v
        rw, get, _ = self.reg(o)
        if not mod:
            return get
        return self.modify(get, rw, mod, w)

    def modify(self, get, rw, mod, w):
        p = mod.split()
        k = p[0]
        n = num(p[1]) if len(p) > 1 else 0
        if k in ('lsl', 'lsr', 'asr', 'ror'):
            fn = {'lsl': shl, 'lsr': shr, 'asr': sar, 'ror': ror}[k]
            return lambda st: fn(get(st), n, w)
        src = {'b': 8, 'h': 16, 'w': 32, 'x': 64}[k[3]]
        ext = zext if k[0] == 'u' else sext

        def f(st):
            v = get(st)
            if src < rw:
                v = extract(v, src - 1, 0, rw)
            return shl(ext(v, min(src, rw), w) if min(src, rw) < w else v, n, w)
        return f

    def mem(self, s, post):
        """-> (address closure, writeback closure or None)"""
        g = re.match(r'\[([^\]]*)\](!?)$', s)
        if not g:
            raise Unsupported(s)
        p = [x.strip() for x in g.group(1).split(',')]
        b = REG[p[0]][0]
        if len(p) == 1:
            ea = lambda st: st.r[b]
        elif p[1][0] == '#':
            off = num(p[1]) & MASK[64]

            def ea(st):
                return add(st.r[b], off, 64)
        else:
            rw, get, _ = self.reg(p[1])
            x = self.modify(get, rw, p[2], 64) if len(p) > 2 else get

            def ea(st):
                return add(st.r[b], x(st), 64)
        if g.group(2):
            def wb(st, a):
                st.r[b] = a
            return ea, wb
        if post:
            if post[0] == '#':
                po = num(post) & MASK[64]

                def wb(st, a):
                    st.r[b] = add(a, po, 64)
            else:
                pr = REG[post][0]

                def wb(st, a):
                    st.r[b] = add(a, st.r[pr], 64)
            return ea, wb
        return ea, None

    def xreg(self, o, n=None):
        """transfer register: (bytes, get entries, put entries)"""
        if o in REG:
            w, get, put = self.reg(o)
            return w // 8, (lambda st: entries_of(get(st), w // 8)), (lambda st, es: put(st, compose(es)))
        i = int(o[1:])
        k = FPB[o[0]]

        def g(st):
            return list(fget(st, i)[:k])

        def p(st, es):
            st.x[i] = tuple(es) + ZERO16[k:]
        return k, g, p

    def decode_text(self, addr, nxt, text):
        m = self.m
        text = re.sub(r'\s*//.*$', '', text)
        text = re.sub(r'\s*<.*>', '', text)
        p = text.split(None, 1)
        mn = p[0]
        ops = split_ops(p[1]) if len(p) > 1 else []
        reg = self.reg
        if mn in ('hint', 'nop', 'dmb', 'dsb', 'isb', 'prfm', 'clrex', 'bti', 'paciasp', 'autiasp'):
            return lambda st: nxt
        if mn in ('brk', 'udf', 'hlt', 'svc'):
            return lambda st: m.trap(st, mn)
        # ---- control flow
        if mn in ('b', 'bl'):
            t = int(ops[0], 16)
            if mn == 'b':
                return lambda st: t

            def f(st):
                st.r[30] = nxt
                return t
            return f
        if mn in ('br', 'blr', 'ret'):
            i = REG[ops[0]][0] if ops else 30

            def f(st):
                t = m.target(st, st.r[i])
                if mn == 'blr':
                    st.r[30] = nxt
                return t
            return f
        if mn.startswith('b.'):
            c = COND[mn[2:]]
            t = int(ops[0], 16)

            def f(st):
                v = c(st.fl)
                if type(v) is not bool:
                    v = st.decide(v)
                return t if v else nxt
            return f
        if mn in ('cbz', 'cbnz'):
            w, get, _ = reg(ops[0])
            t = int(ops[1], 16)
            inv = mn == 'cbnz'

            def f(st):
                v = eq(get(st), 0, w)
                if type(v) is not bool:
                    v = st.decide(v)
                return t if v is not inv else nxt
            return f
        if mn in ('tbz', 'tbnz'):
            w, get, _ = reg(ops[0])
            b = num(ops[1])
            t = int(ops[2], 16)
            inv = mn == 'tbnz'

            def f(st):
                v = eq(extract(get(st), b, b, w), 0, 1)
                if type(v) is not bool:
                    v = st.decide(v)
                return t if v is not inv else nxt
            return f
        if mn in ('adr', 'adrp'):
            _, _, put = reg(ops[0])
            v = int(ops[1].lstrip('#'), 0)

            def f(st):
                put(st, v)
                return nxt
            return f
        if mn == 'mrs':
            _, _, put = reg(ops[0])
            if ops[1].upper() != 'TPIDR_EL0':
                raise Unsupported(text)

            def f(st):
                put(st, st.fsbase)
                return nxt
            return f
        # ---- loads and stores
        r = self.memory(mn, ops, nxt, text)
        if r:
            return r
        if ops and re.match(r'[vbhsdq]\d+', ops[0]) or len(ops) > 1 and re.match(r'[vbhsdq]\d+', ops[1]):
            return self.vec(mn, ops, nxt, text)
        # ---- integer
        if mn in ('mov', 'movz', 'movn', 'movk'):
            w, get, put = reg(ops[0])
            if ops[1][0] != '#':
                _, g2, _ = reg(ops[1])

                def f(st):
                    put(st, g2(st))
                    return nxt
                return f
            v = num(ops[1])
            sh = num(ops[2].split()[1]) if len(ops) > 2 else 0
            if mn == 'movk':
                keep = ~(0xffff << sh) & MASK[w]

                def f(st):
                    put(st, or_(and_(get(st), keep, w), v << sh, w))
                    return nxt
                return f
            v = (v << sh) & MASK[w]
            if mn == 'movn':
                v = ~v & MASK[w]

            def f(st):
                put(st, v)
                return nxt
            return f
        w, gd, put = reg(ops[0])
        M = MASK[w]
        if mn in ('add', 'sub', 'adds', 'subs', 'and', 'ands', 'orr', 'orn', 'eor', 'eon', 'bic', 'bics', 'cmp', 'cmn', 'tst'):
            if mn in ('cmp', 'cmn', 'tst'):
                mn = {'cmp': 'subs', 'cmn': 'adds', 'tst': 'ands'}[mn]
                ops = ['xzr' if w == 64 else 'wzr'] + ops
                put = lambda st, v: None
            _, ga, _ = reg(ops[1])
            gb = self.src2(ops[2:], w)
            base = mn.rstrip('s') if mn != 'bics' and mn.endswith('s') else mn.replace('bics', 'bic')
            fl = mn in ('adds', 'subs', 'ands', 'bics')

            def f(st):
                a, b = ga(st), gb(st)
                if base == 'add':
                    v = add(a, b, w)
                    if fl:
                        st.fl = ('add', w, a, b, v)
                elif base == 'sub':
                    v = sub(a, b, w)
                    if fl:
                        st.fl = ('sub', w, a, b)
                else:
                    if base in ('bic', 'orn', 'eon'):
                        b = not_(b, w)
                    if base in ('and', 'bic'):
                        v = mand(st, a, b, w)
                    elif base in ('orr', 'orn'):
                        v = or_(a, b, w)
                    else:
                        v = xor_(a, b, w)
                    if fl:
                        st.fl = ('logic', w, v)
                put(st, v)
                return nxt
            return f
        if mn in ('neg', 'negs', 'mvn'):
            gb = self.src2(ops[1:], w)

            def f(st):
                b = gb(st)
                put(st, not_(b, w) if mn == 'mvn' else sub(0, b, w))
                if mn == 'negs':
                    st.fl = ('sub', w, 0, b)
                return nxt
            return f
        if mn in ('adc', 'adcs', 'sbc', 'sbcs', 'ngc', 'ngcs'):
            if mn.startswith('ngc'):
                ops = [ops[0], 'xzr' if w == 64 else 'wzr', ops[1]]
                mn = mn.replace('ngc', 'sbc')
            _, ga, _ = reg(ops[1])
            _, gb, _ = reg(ops[2])

            def f(st):
                a, b = ga(st), gb(st)
                if mn[0] == 's':
                    b = not_(b, w)
                c = bsum(fc(st.fl), w)
                v = add(add(a, b, w), c, w)
                if mn.endswith('s'):
                    wide = norm(z3.ZeroExt(1, bv(a, w)) + z3.ZeroExt(1, bv(b, w)) + z3.ZeroExt(1, bv(c, w)))
                    cy = eq(extract(wide, w, w, w + 1), 1, 1)
                    st.fl = ('ex', slt(v, 0, w), eq(v, 0, w), cy, slt(and_(xor_(a, v, w), xor_(b, v, w), w), 0, w))
                put(st, v)
                return nxt
            return f
        if mn in ('lsl', 'lsr', 'asr', 'ror', 'lslv', 'lsrv', 'asrv', 'rorv'):
            _, ga, _ = reg(ops[1])
            fn = {'lsl': shl, 'lsr': shr, 'asr': sar}.get(mn[:3])
            if ops[2][0] == '#':
                n = num(ops[2])

                def f(st):
                    put(st, fn(ga(st), n, w) if fn else ror(ga(st), n, w))
                    return nxt
                return f
            _, gb, _ = reg(ops[2])

            def f(st):
                n = and_(gb(st), w - 1, w)
                a = ga(st)
                if fn:
                    v = fn(a, n, w)
                elif type(n) is int:
                    v = ror(a, n, w)
                else:
                    v = or_(shr(a, n, w), shl(a, and_(sub(0, n, w), w - 1, w), w), w)
                put(st, v)
                return nxt
            return f
        if mn in ('ubfx', 'sbfx', 'ubfiz', 'sbfiz', 'bfi', 'bfxil', 'bfc', 'ubfm', 'sbfm', 'bfm'):
            if mn == 'bfc':
                ops = [ops[0], 'xzr' if w == 64 else 'wzr'] + ops[1:]
                mn = 'bfi'
            _, ga, _ = reg(ops[1])
            x, y = num(ops[2]), num(ops[3])
            if mn[-1] == 'm':
                if y >= x:
                    mn = {'u': 'ubfx', 's': 'sbfx', 'b': 'bfxil'}[mn[0]]
                    x, y = x, y - x + 1
                else:
                    mn = {'u': 'ubfiz', 's': 'sbfiz', 'b': 'bfi'}[mn[0]]
                    x, y = w - x, y + 1
            # x: lsb, y: width

            def f(st):
                a = ga(st)
                if mn in ('ubfx', 'sbfx', 'bfxil'):
                    v = extract(a, x + y - 1, x, w)
                    at = 0
                else:
                    v = extract(a, y - 1, 0, w)
                    at = x
                if mn[0] == 's':
                    put(st, shl(sext(v, y, w), at, w))
                    return nxt
                v = shl(zext(v, y, w), at, w)
                if mn[0] == 'b':
                    msk = ((1 << y) - 1) << at
                    o = mand(st, gd(st), ~msk & M, w)
                    v = or_(o, v, w) if not (type(v) is int and v == 0) else o
                put(st, v)
                return nxt
            return f
        if mn in ('sxtb', 'sxth', 'sxtw', 'uxtb', 'uxth'):
            n = {'b': 8, 'h': 16, 'w': 32}[mn[3]]
            sw, ga, _ = reg(ops[1])

            def f(st):
                put(st, (sext if mn[0] == 's' else zext)(extract(ga(st), n - 1, 0, sw), n, w))
                return nxt
            return f
        if mn == 'extr':
            _, ga, _ = reg(ops[1])
            _, gb, _ = reg(ops[2])
            n = num(ops[3])

            def f(st):
                put(st, or_(shr(gb(st), n, w), shl(ga(st), w - n, w), w) if n else gb(st))
                return nxt
            return f
        if mn in ('csel', 'csinc', 'csinv', 'csneg'):
            _, ga, _ = reg(ops[1])
            _, gb, _ = reg(ops[2])
            c = COND[ops[3]]

            def f(st):
                v = c(st.fl)
                a, b = ga(st), gb(st)
                if mn == 'csinc':
                    b = add(b, 1, w)
                elif mn == 'csinv':
                    b = not_(b, w)
                elif mn == 'csneg':
                    b = sub(0, b, w)
                put(st, select(m, st, v, a, b, w))
                return nxt
            return f
        if mn in ('cset', 'csetm', 'cinc', 'cinv', 'cneg'):
            c = COND[ops[-1]]
            ga = reg(ops[1])[1] if len(ops) > 2 else (lambda st: 0)

            def f(st):
                v = c(st.fl)
                a = ga(st)
                t = {'cset': lambda: add(a, 1, w), 'csetm': lambda: not_(a, w), 'cinc': lambda: add(a, 1, w),
                     'cinv': lambda: not_(a, w), 'cneg': lambda: sub(0, a, w)}[mn]()
                put(st, select(m, st, v, t, a, w))
                return nxt
            return f
        if mn in ('ccmp', 'ccmn'):
            gb = self.src2([ops[1]], w)
            nz = num(ops[2])
            c = COND[ops[3]]
            alt = tuple(bool(nz >> k & 1) for k in (3, 2, 1, 0))

            def f(st):
                v = c(st.fl)
                a, b = gd(st), gb(st)
                new = ('sub', w, a, b) if mn == 'ccmp' else ('add', w, a, b, add(a, b, w))
                if v is True:
                    st.fl = new
                elif v is False:
                    st.fl = ('ex',) + alt
                else:
                    st.fl = ('ex',) + tuple(bite(v, x, y) for x, y in zip(exfl(new), alt))
                return nxt
            return f
        if mn in ('mul', 'mneg', 'madd', 'msub', 'umaddl', 'smaddl', 'umull', 'smull', 'umsubl', 'smsubl', 'umulh', 'smulh', 'udiv', 'sdiv'):
            sw, ga, _ = reg(ops[1])
            _, gb, _ = reg(ops[2])
            gc = reg(ops[3])[1] if len(ops) > 3 else (lambda st: 0)

            def f(st):
                a, b, c = ga(st), gb(st), gc(st)
                if mn == 'umulh':
                    v = mulhu(a, b, w)
                elif mn == 'smulh':
                    v = mulhs(a, b, w)
                elif mn == 'udiv':
                    v = divu(st, a, b, w, lambda q: 0)
                elif mn == 'sdiv':
                    v = divs(st, a, b, w, lambda q: 0)
                else:
                    if mn[0] in 'us' and mn != 'sub':
                        ext = zext if mn[0] == 'u' else sext
                        a, b = ext(a, 32, 64), ext(b, 32, 64)
                    v = mul(a, b, w)
                    v = sub(c, v, w) if mn in ('msub', 'mneg', 'umsubl', 'smsubl') else add(c, v, w)
                put(st, v)
                return nxt
            return f
        if mn in ('clz', 'rbit', 'rev', 'rev16', 'rev32'):
            _, ga, _ = reg(ops[1])
            fn = {'clz': lambda a: clz(a, w), 'rbit': lambda a: rbit(a, w), 'rev': lambda a: brev(a, w), 'rev16': lambda a: brev(a, w, 16),
                  'rev32': lambda a: brev(a, w, 32)}[mn]

            def f(st):
                put(st, fn(ga(st)))
                return nxt
            return f
        raise Unsupported(text)

    def memory(self, mn, ops, nxt, text):
        g = re.match(r'(ldp|stp|ldnp|stnp|ldpsw)$', mn)
        if g:
            n, g1, p1 = self.xreg(ops[0])
            _, g2, p2 = self.xreg(ops[1])
            ea, wb = self.mem(ops[2], ops[3] if len(ops) > 3 else None)
            if mn == 'ldpsw':
                n = 4
            if mn[0] == 'l':
                def f(st):
                    a = ea(st)
                    es = st.rde(a, 2 * n)
                    x, y = es[:n], es[n:]
                    if mn == 'ldpsw':
                        x, y = (entries_of(sext(compose(e), 32, 64), 8) for e in (x, y))
                    p1(st, x)
                    p2(st, y)
                    if wb:
                        wb(st, a)
                    return nxt
            else:
                def f(st):
                    a = ea(st)
                    st.wre(a, list(g1(st)) + list(g2(st)))
                    if wb:
                        wb(st, a)
                    return nxt
            return f
        g = re.match(r'(ldr|ldur|str|stur|ldar|stlr|ldapr|ldxr|ldaxr|ldtr|sttr|ldapur|stlur)(b|h|sb|sh|sw)?$', mn)
        if g:
            k, suf = g.group(1), g.group(2)
            n, get, put = self.xreg(ops[0])
            full = n
            if suf:
                n = {'b': 1, 'h': 2, 'w': 4}[suf[-1]]
            sg = bool(suf and suf[0] == 's')
            if ops[1][0] != '[':
                a0 = int(ops[1].lstrip('#'), 0)
                ea, wb = (lambda st: a0), None
            else:
                ea, wb = self.mem(ops[1], ops[2] if len(ops) > 2 else None)
            if k[0] == 'l':
                def f(st):
                    a = ea(st)
                    es = st.rde(a, n)
                    if n < full:
                        v = compose(es)
                        es = entries_of((sext if sg else zext)(v, 8 * n, 8 * full), full)
                    put(st, es)
                    if wb:
                        wb(st, a)
                    return nxt
            else:
                def f(st):
                    a = ea(st)
                    st.wre(a, list(get(st)[:n]))
                    if wb:
                        wb(st, a)
                    return nxt
            return f
        g = re.match(r'stl?xr(b|h)?$', mn)
        if g:
            _, _, ps = self.reg(ops[0])
            n, get, _ = self.xreg(ops[1])
            n = {'b': 1, 'h': 2, None: n}[g.group(1)]
            ea, _ = self.mem(ops[2], None)

            def f(st):
                st.wre(ea(st), list(get(st)[:n]))
                ps(st, 0)
                return nxt
            return f
        g = re.match(r'(ldadd|ldset|ldclr|ldeor|swp|cas)(a|l|al)?(b|h)?$', mn)
        if g:
            k = g.group(1)
            w, gs, ps = self.reg(ops[0])
            _, gt, pt = self.reg(ops[1])
            n = {'b': 1, 'h': 2, None: w // 8}[g.group(3)]
            ea, _ = self.mem(ops[2], None)
            mw = 8 * n

            def f(st):
                a = ea(st)
                old = st.rd(a, n)
                s = extract(gs(st), mw - 1, 0, w)
                if k == 'cas':
                    if st.decide(eq(old, s, mw)):
                        st.wr(a, n, extract(gt(st), mw - 1, 0, w))
                    ps(st, zext(old, mw, w))
                    return nxt
                v = {'ldadd': lambda: add(old, s, mw), 'ldset': lambda: or_(old, s, mw), 'ldclr': lambda: and_(old, not_(s, mw), mw),
                     'ldeor': lambda: xor_(old, s, mw), 'swp': lambda: s}[k]()
                st.wr(a, n, v)
                pt(st, zext(old, mw, w))
                return nxt
            return f
        g = re.match(r'(ld1|st1|ld1r)$', mn)
        if g:
            rs = ops[0].strip('{} ')
            g2 = re.match(r'(.*)\}\[(\d+)\]$', ops[0])
            regs = [x.strip() for x in (g2.group(1).strip('{ ') if g2 else rs).split(',')]
            vs = [self.vreg(x) for x in regs]
            lane = int(g2.group(2)) if g2 else None
            ea, wb = self.mem(ops[1], ops[2] if len(ops) > 2 else None)

            def f(st):
                a = ea(st)
                o = 0
                for d, cnt, n, _ in vs:
                    k = n if lane is not None or mn == 'ld1r' else cnt * n
                    at = add(a, o, 64)
                    if mn == 'st1':
                        es = list(fget(st, d))
                        st.wre(at, es[n * lane:n * lane + n] if lane is not None else es[:k])
                    else:
                        es = list(st.rde(at, k))
                        if lane is not None:
                            old = list(fget(st, d))
                            old[n * lane:n * lane + n] = es
                            es = old
                        elif mn == 'ld1r':
                            es = es * cnt
                        st.x[d] = tuple(es) + ZERO16[len(es):]
                    o += k
                if wb:
                    wb(st, a)
                return nxt
            return f
        return None

    def vreg(self, o):
        """v3.16b / v3.d[1] / d3 -> (register, arrangement count, element bytes, lane)"""
        g = re.match(r'v(\d+)\.(\d*)([bhsd])(?:\[(\d+)\])?$', o)
        if g:
            return int(g.group(1)), int(g.group(2) or 0), ELS[g.group(3)], None if g.group(4) is None else int(g.group(4))
        g = re.match(r'([bhsdq])(\d+)$', o)
        if g:
            return int(g.group(2)), 1, FPB[g.group(1)], 0
        raise Unsupported(o)

    def vec(self, mn, ops, nxt, text):
        if mn in ('movi', 'mvni') or mn == 'fmov' and ops[1][0] == '#':
            d, cnt, n, _ = self.vreg(ops[0])
            if mn == 'fmov':
                raise Unsupported(text)
            v = num(ops[1])
            if len(ops) > 2:
                v <<= num(ops[2].split()[1])
            if mn == 'mvni':
                v = ~v
            v &= (1 << 8 * n) - 1
            es = tuple(v.to_bytes(n, 'little')) * max(cnt, 1)
            es += ZERO16[len(es):]

            def f(st):
                st.x[d] = es
                return nxt
            return f
        if mn in ('mov', 'ins', 'umov', 'smov', 'fmov', 'dup'):
            lane = re.match(r'v\d+\.\w\[\d+\]$', ops[0])
            if ops[0] in REG:
                w, _, put = self.reg(ops[0])
                s, _, n, i = self.vreg(ops[1])
                ext = sext if mn == 'smov' else zext

                def f(st):
                    v = compose(fget(st, s)[n * i:n * i + n])
                    put(st, ext(v, 8 * n, w) if 8 * n < w else v)
                    return nxt
                return f
            d, cnt, n, i = self.vreg(ops[0])
            if ops[1] in REG:
                w, get, _ = self.reg(ops[1])

                def src(st):
                    return entries_of(get(st), w // 8)[:n]
            else:
                s, c2, n2, j = self.vreg(ops[1])
                if j is None:                        # whole register

                    def f(st):
                        k = c2 * n2
                        st.x[d] = tuple(fget(st, s)[:k]) + ZERO16[k:]
                        return nxt
                    return f

                def src(st):
                    return list(fget(st, s)[n2 * j:n2 * j + n2])

            def f(st):
                e = src(st)
                if lane:
                    o = list(fget(st, d))
                    o[n * i:n * i + n] = e
                    st.x[d] = tuple(o)
                elif mn == 'dup' and ops[0][0] == 'v':
                    es = tuple(e) * cnt
                    st.x[d] = es + ZERO16[len(es):]
                else:
                    st.x[d] = tuple(e) + ZERO16[len(e):]
                return nxt
            return f
        if mn in ('orr', 'and', 'eor', 'bic', 'add', 'sub', 'cmeq', 'not', 'mvn', 'orn') and ops[0][0] == 'v' and ops[1][0] != '#':
            if mn == 'mvn':
                mn = 'not'
            d, cnt, n, _ = self.vreg(ops[0])
            a = self.vreg(ops[1])[0]
            b = self.vreg(ops[2])[0] if len(ops) > 2 and ops[2][0] == 'v' else None
            if mn == 'orr' and b == a:
                def f(st):
                    k = cnt * n
                    st.x[d] = tuple(fget(st, a)[:k]) + ZERO16[k:]
                    return nxt
                return f
            if b is None and mn != 'not' and not (mn == 'cmeq' and ops[2] == '#0'):
                raise Unsupported(text)
            w = 8 * n
            fn = {'orr': or_, 'and': and_, 'eor': xor_, 'add': add, 'sub': sub, 'bic': lambda x, y, w: and_(x, not_(y, w), w),
                  'orn': lambda x, y, w: or_(x, not_(y, w), w), 'not': lambda x, y, w: not_(x, w),
                  'cmeq': lambda x, y, w: ite(eq(x, y, w), MASK[w], 0, w)}[mn]
            if mn in ('orr', 'and', 'eor', 'bic', 'orn', 'not'):
                w, n, cnt = 64, 8, cnt * n // 8

            def f(st):
                x = fget(st, a)
                y = fget(st, b) if b is not None else ZERO16
                out = []
                for i in range(cnt):
                    out += entries_of(fn(compose(x[n * i:n * i + n]), compose(y[n * i:n * i + n]), w), n)
                st.x[d] = tuple(out) + ZERO16[len(out):]
                return nxt
            return f
        if mn == 'ext':
            d = self.vreg(ops[0])
            a, b, i = self.vreg(ops[1])[0], self.vreg(ops[2])[0], num(ops[3])
            k = d[1] * d[2]

            def f(st):
                es = tuple(fget(st, a)[:k]) + tuple(fget(st, b)[:k])
                st.x[d[0]] = es[i:i + k] + ZERO16[k:]
                return nxt
            return f
        # ---- element-wise and permuting vector operations
        def lanes(st, i, cnt, n, at=0):
            x = fget(st, i)
            return [compose(x[n * (k + at):n * (k + at) + n]) for k in range(cnt)]

        def setl(st, d, vs, n, keep=None):
            out = list(keep or ())
            for v in vs:
                out += entries_of(v, n)
            st.x[d] = tuple(out) + ZERO16[len(out):]

        g = re.match(r'([us])(shll|xtl)(2)?$', mn)
        if g:
            d, cnt, n, _ = self.vreg(ops[0])
            a, _, n2, _ = self.vreg(ops[1])
            sh = num(ops[2]) if len(ops) > 2 else 0
            ext = zext if g.group(1) == 'u' else sext
            hi = 1 if g.group(3) else 0

            def f(st):
                setl(st, d, [shl(ext(v, 8 * n2, 8 * n), sh, 8 * n) for v in lanes(st, a, cnt, n2, hi * 8 // n2)], n)
                return nxt
            return f
        g = re.match(r'(xtn|shrn)(2)?$', mn)
        if g:
            d, cnt, n, _ = self.vreg(ops[0])
            a, _, n2, _ = self.vreg(ops[1])
            sh = num(ops[2]) if mn[0] == 's' else 0
            c = 8 // n

            def f(st):
                r = [extract(shr(v, sh, 8 * n2), 8 * n - 1, 0, 8 * n2) for v in lanes(st, a, c, n2)]
                setl(st, d, r, n, fget(st, d)[:8] if g.group(2) else None)
                return nxt
            return f
        if mn in ('uzp1', 'uzp2', 'zip1', 'zip2', 'trn1', 'trn2'):
            d, cnt, n, _ = self.vreg(ops[0])
            a, b = self.vreg(ops[1])[0], self.vreg(ops[2])[0]
            o = int(mn[3]) - 1

            def f(st):
                x, y = lanes(st, a, cnt, n), lanes(st, b, cnt, n)
                if mn[0] == 'u':
                    r = (x + y)[o::2]
                elif mn[0] == 'z':
                    h = cnt // 2 * o
                    r = [v for k in range(cnt // 2) for v in (x[h + k], y[h + k])]
                else:
                    r = [v for k in range(0, cnt, 2) for v in (x[k + o], y[k + o])]
                setl(st, d, r, n)
                return nxt
            return f
        if mn in ('shl', 'ushr', 'sshr', 'sli', 'sri'):
            d, cnt, n, _ = self.vreg(ops[0])
            a = self.vreg(ops[1])[0]
            sh = num(ops[2])
            w = 8 * n

            def f(st):
                x = lanes(st, a, cnt, n)
                fn = {'shl': shl, 'sli': shl, 'ushr': shr, 'sri': shr, 'sshr': sar}[mn]
                r = [fn(v, sh, w) for v in x]
                if mn in ('sli', 'sri'):
                    m_ = (1 << sh) - 1 if mn == 'sli' else MASK[w] & ~(MASK[w] >> sh)
                    r = [or_(v, and_(o, m_, w), w) for v, o in zip(r, lanes(st, d, cnt, n))]
                setl(st, d, r, n)
                return nxt
            return f
        C = {'cmgt': lambda x, y, w: slt(y, x, w), 'cmge': lambda x, y, w: bnot(slt(x, y, w)), 'cmhi': lambda x, y, w: ult(y, x, w),
             'cmhs': lambda x, y, w: bnot(ult(x, y, w)), 'cmlt': lambda x, y, w: slt(x, y, w), 'cmle': lambda x, y, w: bnot(slt(y, x, w)),
             'cmtst': lambda x, y, w: bnot(eq(and_(x, y, w), 0, w)), 'cmeq': lambda x, y, w: eq(x, y, w)}
        A = {'umax': lambda x, y, w: ite(ult(x, y, w), y, x, w), 'umin': lambda x, y, w: ite(ult(x, y, w), x, y, w),
             'smax': lambda x, y, w: ite(slt(x, y, w), y, x, w), 'smin': lambda x, y, w: ite(slt(x, y, w), x, y, w),
             'mul': lambda x, y, w: mul(x, y, w), 'add': add, 'sub': sub}
        A.update({k: (lambda c: lambda x, y, w: ite(c(x, y, w), MASK[w], 0, w))(c) for k, c in C.items()})
        if mn in A and len(ops) > 2:
            d, cnt, n, _ = self.vreg(ops[0])
            a = self.vreg(ops[1])[0]
            b = None if ops[2][0] == '#' else self.vreg(ops[2])[0]
            fn, w = A[mn], 8 * n

            def f(st):
                y = [0] * cnt if b is None else lanes(st, b, cnt, n)
                setl(st, d, [fn(p, q, w) for p, q in zip(lanes(st, a, cnt, n), y)], n)
                return nxt
            return f
        g = re.match(r'(add|[us]max|[us]min)(p|v)$', mn)
        if g:
            d, cnt, n, _ = self.vreg(ops[0])
            a, c2, n2, _ = self.vreg(ops[1])
            b = self.vreg(ops[2])[0] if len(ops) > 2 else None
            fn, w = A[g.group(1)], 8 * n

            def f(st):
                x = lanes(st, a, c2, n2)
                if b is not None:
                    x = x + lanes(st, b, c2, n2)
                if g.group(2) == 'v':
                    r = x[0]
                    for v in x[1:]:
                        r = fn(r, v, w)
                    r = [r]
                else:
                    r = [fn(x[k], x[k + 1], w) for k in range(0, len(x), 2)]
                setl(st, d, r, n)
                return nxt
            return f
        if mn in ('cnt', 'neg', 'abs', 'rev64', 'rev32', 'uaddlv', 'uaddlp'):
            d, cnt, n, _ = self.vreg(ops[0])
            a, c2, n2, _ = self.vreg(ops[1])
            w = 8 * n2

            def f(st):
                x = lanes(st, a, c2, n2)
                if mn == 'cnt':
                    x = [popcnt(v, w) for v in x]
                elif mn == 'neg':
                    x = [sub(0, v, w) for v in x]
                elif mn == 'abs':
                    x = [ite(slt(v, 0, w), sub(0, v, w), v, w) for v in x]
                elif mn in ('rev64', 'rev32'):
                    k = (8 if mn == 'rev64' else 4) // n2
                    x = [v for i in range(0, c2, k) for v in x[i:i + k][::-1]]
                elif mn == 'uaddlv':
                    r = 0
                    for v in x:
                        r = add(r, zext(v, w, 8 * n), 8 * n)
                    x = [r]
                else:
                    x = [add(zext(x[k], w, 8 * n), zext(x[k + 1], w, 8 * n), 8 * n) for k in range(0, c2, 2)]
                setl(st, d, x, n)
                return nxt
            return f
        if mn in ('bsl', 'bit', 'bif'):
            d, cnt, n, _ = self.vreg(ops[0])
            a, b = self.vreg(ops[1])[0], self.vreg(ops[2])[0]
            k = cnt * n // 8

            def f(st):
                r = []
                for o, x, y in zip(lanes(st, d, k, 8), lanes(st, a, k, 8), lanes(st, b, k, 8)):
                    s_, t, e = {'bsl': (o, x, y), 'bit': (y, x, o), 'bif': (y, o, x)}[mn]
                    r.append(or_(and_(s_, t, 64), and_(not_(s_, 64), e, 64), 64))
                setl(st, d, r, 8)
                return nxt
            return f
        if mn in ('ushl', 'sshl'):
            d, cnt, n, _ = self.vreg(ops[0])
            a, b = self.vreg(ops[1])[0], self.vreg(ops[2])[0]
            w = 8 * n

            def f(st):
                r = []
                for x, y in zip(lanes(st, a, cnt, n), lanes(st, b, cnt, n)):
                    s_ = sext(extract(y, 7, 0, w), 8, w) if w > 8 else y
                    down = (shr if mn[0] == 'u' else sar)(x, sub(0, s_, w), w)
                    r.append(ite(slt(s_, 0, w), down, shl(x, s_, w), w))
                setl(st, d, r, n)
                return nxt
            return f
        if mn in ('orr', 'bic') and ops[1][0] == '#':
            d, cnt, n, _ = self.vreg(ops[0])
            v = num(ops[1])
            if len(ops) > 2:
                v <<= num(ops[2].split()[1])
            w = 8 * n

            def f(st):
                setl(st, d, [or_(x, v, w) if mn == 'orr' else and_(x, ~v & MASK[w], w) for x in lanes(st, d, cnt, n)], n)
                return nxt
            return f
        raise Unsupported(text)
