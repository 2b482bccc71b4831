"""LoongArch64 instruction semantics: llvm-objdump text (-M no-aliases) -> closures over State."""
import re
from risc import *

NAMES = ['zero', 'ra', 'tp', 'sp'] + ['a%d' % i for i in range(8)] + ['t%d' % i for i in range(9)] + ['r21', 'fp'] + ['s%d' % i for i in range(9)]
X = {'$' + n: i for i, n in enumerate(NAMES)}
X['$s9'] = 22
for _i in range(32): X['$r%d' % _i] = _i
FN = ['fa%d' % i for i in range(8)] + ['ft%d' % i for i in range(16)] + ['fs%d' % i for i in range(8)]
F = {'$' + n: i for i, n in enumerate(FN)}
for _i in range(32): F['$f%d' % _i] = _i; F['$vr%d' % _i] = _i


class La(Isa):
    nreg = 32
    NIMG = 32
    SP = 3
    LR = 1
    RET = 4
    ARGS = (4, 5, 6, 7, 8, 9, 10, 11)
    EXC = (4, 5)
    TP = 2
    ZERO = 0
    tls1 = 0
    saved = (22,) + tuple(range(23, 32))
    fpsaved = tuple(range(24, 32))
    dmap = {i: i for i in range(32)}
    fpdwarf = {32 + i: i for i in range(32)}

    def setup(self, st):
        st.r[0] = 0

    def decode_text(self, addr, nxt, text):
        W, m = 64, self.m
        MW = MASK[64]
        text = re.sub(r'\s*<.*>', '', text)
        p = text.split(None, 1)
        mn = p[0]
        ops = split_ops(p[1]) if len(p) > 1 else []
        if mn in ('break', 'ud', 'syscall', 'amswap.w') and mn != 'amswap.w':
            return lambda st: m.trap(st, mn)
        if mn in ('dbar', 'ibar', 'preld', 'nop'):
            return lambda st: nxt

        def setr(d):
            if d == 0:
                def put(st, v):
                    pass
            else:
                def put(st, v):
                    st.r[d] = v
            return put

        def mem(i):
            b = X[ops[i]]
            if ops[i + 1].startswith('$'):
                k = X[ops[i + 1]]
                return lambda st: add(st.r[b], st.r[k], 64)
            off = num(ops[i + 1]) & MW
            return lambda st: add(st.r[b], off, 64)

        # ---- control flow
        if mn in ('b', 'bl'):
            t = addr + num(ops[0])
            if mn == 'b':
                return lambda st: t

            def f(st):
                st.r[1] = nxt
                return t
            return f
        if mn == 'jirl':
            put = setr(X[ops[0]])
            ea = mem(1)

            def f(st):
                t = m.target(st, ea(st))
                put(st, nxt)
                return t
            return f
        if mn in ('beqz', 'bnez', 'beq', 'bne', 'blt', 'bge', 'bltu', 'bgeu'):
            z = mn.endswith('z')
            a = X[ops[0]]
            b = 0 if z else X[ops[1]]
            t = addr + num(ops[-1])
            fn = {'be': eq, 'bn': eq}.get(mn[:2]) or (ult if mn.endswith('u') else slt)
            inv = mn in ('bne', 'bnez', 'bge', 'bgeu')

            def f(st):
                v = fn(st.r[a], st.r[b], 64)
                if type(v) is not bool:
                    v = st.decide(v)
                return t if v is not inv else nxt
            return f
        # ---- loads and stores
        g = re.match(r'(ld|ldx|ldptr)\.(bu|hu|wu|b|h|w|d)$', mn)
        if g:
            n = {'b': 1, 'h': 2, 'w': 4, 'd': 8}[g.group(2)[0]]
            put = setr(X[ops[0]])
            ea = mem(1)
            ext = zext if g.group(2).endswith('u') else sext

            def f(st):
                v = st.rd(ea(st), n)
                put(st, v if n == 8 else ext(v, 8 * n, 64))
                return nxt
            return f
        g = re.match(r'(st|stx|stptr)\.(b|h|w|d)$', mn)
        if g:
            n = {'b': 1, 'h': 2, 'w': 4, 'd': 8}[g.group(2)]
            s = X[ops[0]]
            ea = mem(1)

            def f(st):
                v = st.r[s]
                st.wr(ea(st), n, v if n == 8 else extract(v, 8 * n - 1, 0, 64))
                return nxt
            return f
        g = re.match(r'(fld|fldx|fst|fstx)\.(s|d)$', mn) or re.match(r'(v)(ld|st)x?$', mn)
        if g:
            n = 16 if mn[0] == 'v' else 4 if g.group(2) == 's' else 8
            d = F[ops[0]]
            ea = mem(1)
            if 'ld' in mn:
                def f(st):
                    es = tuple(st.rde(ea(st), n))
                    if n < 16:
                        t = fresh('fprh', 128 - 8 * n)
                        es += tuple((t, k, 16 - n) for k in range(16 - n))
                    st.x[d] = es
                    return nxt
            else:
                def f(st):
                    st.wre(ea(st), list(fget(st, d)[:n]))
                    return nxt
            return f
        if mn in ('ll.w', 'll.d'):
            n = 4 if mn[-1] == 'w' else 8
            put = setr(X[ops[0]])
            ea = mem(1)

            def f(st):
                v = st.rd(ea(st), n)
                put(st, v if n == 8 else sext(v, 32, 64))
                return nxt
            return f
        if mn in ('sc.w', 'sc.d'):
            n = 4 if mn[-1] == 'w' else 8
            s = X[ops[0]]
            put = setr(s)
            ea = mem(1)

            def f(st):
                v = st.r[s]
                st.wr(ea(st), n, v if n == 8 else extract(v, 31, 0, 64))
                put(st, 1)
                return nxt
            return f
        g = re.match(r'am(swap|add|and|or|xor)(?:_db)?\.(w|d)$', mn)
        if g:
            k, n = g.group(1), 4 if g.group(2) == 'w' else 8
            w = 8 * n
            put, s, b = setr(X[ops[0]]), X[ops[1]], X[ops[2].split()[0]]

            def f(st):
                a = st.r[b]
                old = st.rd(a, n)
                v = st.r[s] if n == 8 else extract(st.r[s], 31, 0, 64)
                v = {'add': lambda: add(old, v, w), 'swap': lambda: v, 'or': lambda: or_(old, v, w),
                     'and': lambda: and_(old, v, w), 'xor': lambda: xor_(old, v, w)}[k]()
                st.wr(a, n, v)
                put(st, old if n == 8 else sext(old, 32, 64))
                return nxt
            return f
        # ---- floating point moves
        if mn in ('movgr2fr.d', 'movgr2fr.w'):
            d, s = F[ops[0]], X[ops[1]]

            def f(st):
                v = st.r[s]
                fput64(st, d, v if mn[-1] == 'd' else zext(extract(v, 31, 0, 64), 32, 64))
                return nxt
            return f
        if mn in ('movfr2gr.d', 'movfr2gr.s'):
            put, s = setr(X[ops[0]]), F[ops[1]]

            def f(st):
                v = fget64(st, s)
                put(st, v if mn[-1] == 'd' else sext(extract(v, 31, 0, 64), 32, 64))
                return nxt
            return f
        if mn in ('fmov.d', 'fmov.s'):
            d, s = F[ops[0]], F[ops[1]]

            def f(st):
                st.x[d] = fget(st, s)
                return nxt
            return f
        if mn[0] == 'v':
            return self.vec(nxt, mn, ops, setr, text)
        # ---- integer operations
        put = setr(X[ops[0]])
        if mn in ('lu12i.w', 'pcalau12i', 'pcaddi', 'pcaddu12i', 'pcaddu18i'):
            i = sgn(num(ops[1]) & 0xfffff, 20) if num(ops[1]) >= 0 and num(ops[1]) >> 19 else num(ops[1])
            v = {'lu12i.w': i << 12, 'pcalau12i': (addr + (i << 12)) & ~0xfff, 'pcaddi': addr + (i << 2),
                 'pcaddu12i': addr + (i << 12), 'pcaddu18i': addr + (i << 18)}[mn] & MW

            def f(st):
                put(st, v)
                return nxt
            return f
        if mn == 'lu32i.d':
            hi = num(ops[1]) & MASK[32]
            d = X[ops[0]]

            def f(st):
                lo = extract(st.r[d], 31, 0, 64)
                put(st, concat([(hi, 32), (lo, 32)]) if type(lo) is not int else (hi << 32) | lo)
                return nxt
            return f
        a = X[ops[1]]
        if mn == 'lu52i.d':
            hi = num(ops[2]) & 0xfff

            def f(st):
                lo = extract(st.r[a], 51, 0, 64)
                put(st, concat([(hi, 12), (lo, 52)]) if type(lo) is not int else (hi << 52) | lo)
                return nxt
            return f
        if mn in ('bstrpick.d', 'bstrpick.w'):
            hi, lo = num(ops[2]), num(ops[3])
            w = 64 if mn[-1] == 'd' else 32

            def f(st):
                v = zext(extract(st.r[a], hi, lo, 64), hi - lo + 1, w)
                put(st, v if w == 64 else sext(v, 32, 64))
                return nxt
            return f
        if mn in ('bstrins.d', 'bstrins.w'):
            hi, lo = num(ops[2]), num(ops[3])
            d = X[ops[0]]
            w = 64 if mn[-1] == 'd' else 32
            msk = ((1 << (hi - lo + 1)) - 1) << lo

            def f(st):
                o, v = st.r[d], st.r[a]
                if w == 32:
                    o, v = extract(o, 31, 0, 64), extract(v, 31, 0, 64)
                if type(v) is int and v == 0:
                    r = mand(st, o, ~msk & MASK[w], w)
                else:
                    r = or_(mand(st, o, ~msk & MASK[w], w), and_(shl(v, lo, w), msk, w), w)
                put(st, r if w == 64 else sext(r, 32, 64))
                return nxt
            return f
        if mn in ('masknez', 'maskeqz'):
            c = X[ops[2]]
            ez = mn == 'maskeqz'

            def f(st):
                v = eq(st.r[c], 0, 64)
                x = st.r[a]
                put(st, select(m, st, v, 0 if ez else x, x if ez else 0, 64))
                return nxt
            return f
        if mn in ('alsl.d', 'alsl.w', 'alsl.wu'):
            b, s = X[ops[2]], num(ops[3])
            w = 64 if mn[-1] == 'd' else 32

            def f(st):
                x, y = st.r[a], st.r[b]
                if w == 32:
                    x, y = extract(x, 31, 0, 64), extract(y, 31, 0, 64)
                v = add(shl(x, s, w), y, w)
                put(st, v if w == 64 else (zext if mn[-1] == 'u' else sext)(v, 32, 64))
                return nxt
            return f
        if mn == 'bytepick.d':
            b, s = X[ops[2]], num(ops[3])

            def f(st):
                x, y = entries_of(st.r[a], 8), entries_of(st.r[b], 8)
                put(st, compose(x[8 - s:] + y[:8 - s]))
                return nxt
            return f
        if mn in ('ext.w.b', 'ext.w.h'):
            n = 8 if mn[-1] == 'b' else 16

            def f(st):
                put(st, sext(extract(st.r[a], n - 1, 0, 64), n, 64))
                return nxt
            return f
        if mn in ('clz.d', 'ctz.d', 'clz.w', 'ctz.w', 'revb.d', 'revb.2w', 'revb.2h', 'revb.4h', 'bitrev.d'):
            w = 32 if mn in ('clz.w', 'ctz.w') else 64
            U = {'clz': lambda v: clz(v, w), 'ctz': lambda v: ctz(v, w), 'bitrev': lambda v: rbit(v, 64)}
            k = mn.split('.')[0]
            un = {'revb.d': 64, 'revb.2w': 32, 'revb.4h': 16, 'revb.2h': 16}.get(mn)

            def f(st):
                v = st.r[a] if w == 64 else extract(st.r[a], 31, 0, 64)
                r = brev(v, 64, un) if un else U[k](v)
                put(st, r if mn != 'revb.2h' else sext(extract(r, 31, 0, 64), 32, 64))
                return nxt
            return f
        if mn == 'addu16i.d':
            i = (num(ops[2]) << 16) & MW

            def f(st):
                put(st, add(st.r[a], i, 64))
                return nxt
            return f
        g = re.match(r'(\w+?)(i?)(?:\.(w|d|wu|du))?$', mn)
        base, im, suf = g.group(1), g.group(2), g.group(3)
        if mn in ('sltui', 'slti'):
            base, im, suf = mn[:-1], 'i', None
        w = 32 if suf in ('w', 'wu') else 64
        uns = suf in ('wu', 'du')
        imm = b = None
        if ops[2].startswith('$'):
            b = X[ops[2]]
        else:
            imm = num(ops[2]) & MASK[w]
        sh = w - 1
        I = {
            'add': lambda st, x, y: add(x, y, w), 'sub': lambda st, x, y: sub(x, y, w), 'and': lambda st, x, y: mand(st, x, y, w),
            'or': lambda st, x, y: or_(x, y, w), 'xor': lambda st, x, y: xor_(x, y, w), 'nor': lambda st, x, y: not_(or_(x, y, w), w),
            'andn': lambda st, x, y: mand(st, x, not_(y, w), w), 'orn': lambda st, x, y: or_(x, not_(y, w), w),
            'slt': lambda st, x, y: bsum(slt(x, y, w), w), 'sltu': lambda st, x, y: bsum(ult(x, y, w), w),
            'sll': lambda st, x, y: shl(x, and_(y, sh, w), w), 'srl': lambda st, x, y: shr(x, and_(y, sh, w), w),
            'sra': lambda st, x, y: sar(x, and_(y, sh, w), w), 'mul': lambda st, x, y: mul(x, y, w),
            'rotr': lambda st, x, y: ror(x, y, w) if type(y) is int else or_(shr(x, and_(y, sh, w), w), shl(x, and_(sub(0, y, w), sh, w), w), w),
            'mulh': lambda st, x, y: (mulhu if uns else mulhs)(x, y, w),
            'div': lambda st, x, y: (divu if uns else divs)(st, x, y, w, lambda q: fresh('div0', w)),
            'mod': lambda st, x, y: (remu if uns else rems)(st, x, y, w),
        }
        fn = I[base]

        def f(st):
            x = st.r[a]
            y = imm if b is None else st.r[b]
            if w == 32:
                x = extract(x, 31, 0, 64)
                if b is not None:
                    y = extract(y, 31, 0, 64)
                put(st, sext(fn(st, x, y), 32, 64))
            else:
                put(st, fn(st, x, y))
            return nxt
        return f

    def vec(self, nxt, mn, ops, setr, text):
        if mn == 'vldi':
            d = F[ops[0]]
            i = num(ops[1]) & 0x1fff
            k = i >> 8
            if i < 0x1000:
                n = (1, 2, 4, 8)[i >> 10]
                v = (i & 0x3ff) - (0x400 if i & 0x200 else 0)
            elif k <= 0x13:
                n, v = 4, (i & 255) << 8 * (k & 3)
            elif k <= 0x15:
                n, v = 2, (i & 255) << 8 * (k & 1)
            elif k <= 0x17:
                n, v = 4, (i & 255) << (8 if k == 0x16 else 16) | (0xff if k == 0x16 else 0xffff)
            elif k == 0x18:
                n, v = 1, i & 255
            elif k == 0x19:
                n, v = 8, sum(255 << 8 * j for j in range(8) if i >> j & 1)
            else:
                raise Unsupported(text)
            es = tuple((v & (1 << 8 * n) - 1).to_bytes(n, 'little')) * (16 // n)

            def f(st):
                st.x[d] = es
                return nxt
            return f
        g = re.match(r'vreplgr2vr\.(b|h|w|d)$', mn)
        if g:
            n = {'b': 1, 'h': 2, 'w': 4, 'd': 8}[g.group(1)]
            d, s = F[ops[0]], X[ops[1]]

            def f(st):
                st.x[d] = tuple(entries_of(st.r[s], 8)[:n]) * (16 // n)
                return nxt
            return f
        g = re.match(r'vinsgr2vr\.(b|h|w|d)$', mn)
        if g:
            n = {'b': 1, 'h': 2, 'w': 4, 'd': 8}[g.group(1)]
            d, s, i = F[ops[0]], X[ops[1]], num(ops[2])

            def f(st):
                o = list(fget(st, d))
                o[n * i:n * i + n] = entries_of(st.r[s], 8)[:n]
                st.x[d] = tuple(o)
                return nxt
            return f
        g = re.match(r'vpickve2gr\.(bu|hu|wu|du|b|h|w|d)$', mn)
        if g:
            n = {'b': 1, 'h': 2, 'w': 4, 'd': 8}[g.group(1)[0]]
            put, s, i = setr(X[ops[0]]), F[ops[1]], num(ops[2])
            ext = zext if g.group(1).endswith('u') else sext

            def f(st):
                v = compose(fget(st, s)[n * i:n * i + n])
                put(st, v if n == 8 else ext(v, 8 * n, 64))
                return nxt
            return f
        g = re.match(r'v(or|and|xor)\.v$', mn)
        if g:
            fn = {'or': or_, 'and': and_, 'xor': xor_}[g.group(1)]
            d, a, b = F[ops[0]], F[ops[1]], F[ops[2]]

            def f(st):
                if a == b and fn is not xor_:
                    st.x[d] = fget(st, a)
                    return nxt
                x, y = fget(st, a), fget(st, b)
                st.x[d] = tuple(entries_of(fn(compose(x[:8]), compose(y[:8]), 64), 8) + entries_of(fn(compose(x[8:]), compose(y[8:]), 64), 8))
                return nxt
            return f
        L = {'b': 1, 'h': 2, 'w': 4, 'd': 8}

        def lanes(st, i, n):
            x = fget(st, i)
            return [compose(x[k:k + n]) for k in range(0, 16, n)]

        def setl(st, d, vs, n):
            out = []
            for v in vs:
                out += entries_of(v, n)
            st.x[d] = tuple(out)

        B = {'mul': lambda x, y, w: mul(x, y, w), 'add': add, 'sub': sub, 'sll': lambda x, y, w: shl(x, and_(y, w - 1, w), w),
             'srl': lambda x, y, w: shr(x, and_(y, w - 1, w), w), 'sra': lambda x, y, w: sar(x, and_(y, w - 1, w), w),
             'seq': lambda x, y, w: ite(eq(x, y, w), MASK[w], 0, w)}
        S = {'slt': lambda x, y, w, lt: ite(lt(x, y, w), MASK[w], 0, w), 'sle': lambda x, y, w, lt: ite(lt(y, x, w), 0, MASK[w], w),
             'max': lambda x, y, w, lt: ite(lt(x, y, w), y, x, w), 'min': lambda x, y, w, lt: ite(lt(x, y, w), x, y, w)}
        g = re.match(r'v(mul|add|sub|sll|srl|sra|seq|slt|sle|max|min)(i?)\.([bhwd])(u?)$', mn)
        if g:
            k, n = g.group(1), L[g.group(3)]
            w = 8 * n
            if k in S:
                lt = ult if g.group(4) else slt
                fn = (lambda h: lambda x, y, w: h(x, y, w, lt))(S[k])
            else:
                fn = B[k]
            d, a = F[ops[0]], F[ops[1]]
            b = None if g.group(2) else F[ops[2]]
            im = num(ops[2]) & MASK[w] if b is None else 0

            def f(st):
                y = lanes(st, b, n) if b is not None else [im] * (16 // n)
                setl(st, d, [fn(p, q, w) for p, q in zip(lanes(st, a, n), y)], n)
                return nxt
            return f
        g = re.match(r'v(pcnt|neg|clz)\.([bhwd])$', mn)
        if g:
            n = L[g.group(2)]
            d, a = F[ops[0]], F[ops[1]]
            fn = {'pcnt': popcnt, 'neg': lambda x, w: sub(0, x, w), 'clz': clz}[g.group(1)]

            def f(st):
                setl(st, d, [fn(x, 8 * n) for x in lanes(st, a, n)], n)
                return nxt
            return f
        g = re.match(r'v(ilvl|ilvh|pickev|pickod|packev|packod)\.([bhwd])$', mn)
        if g:
            k, n = g.group(1), L[g.group(2)]
            d, a, b = F[ops[0]], F[ops[1]], F[ops[2]]

            def f(st):
                x, y = lanes(st, a, n), lanes(st, b, n)          # y supplies the low / even elements
                h = len(x) // 2
                if k in ('ilvl', 'ilvh'):
                    o = 0 if k == 'ilvl' else h
                    r = [v for i in range(h) for v in (y[o + i], x[o + i])]
                elif k in ('pickev', 'pickod'):
                    o = 0 if k == 'pickev' else 1
                    r = (y + x)[o::2]
                else:
                    o = 0 if k == 'packev' else 1
                    r = [v for i in range(0, len(x), 2) for v in (y[i + o], x[i + o])]
                setl(st, d, r, n)
                return nxt
            return f
        g = re.match(r'vsllwil\.(\w+)\.(\w+)$', mn)
        if g:
            n2 = L[g.group(2)[0]]
            n = 2 * n2
            ext = zext if g.group(2).endswith('u') else sext
            d, a, sh = F[ops[0]], F[ops[1]], num(ops[2])

            def f(st):
                setl(st, d, [shl(ext(x, 8 * n2, 8 * n), sh, 8 * n) for x in lanes(st, a, n2)[:16 // n]], n)
                return nxt
            return f
        g = re.match(r'v(and|or|xor|nor)i\.b$', mn)
        if g:
            fn = {'and': and_, 'or': or_, 'xor': xor_, 'nor': lambda x, y, w: not_(or_(x, y, w), w)}[g.group(1)]
            d, a, im = F[ops[0]], F[ops[1]], num(ops[2])

            def f(st):
                setl(st, d, [fn(x, im, 8) for x in lanes(st, a, 1)], 1)
                return nxt
            return f
        if mn in ('vnor.v', 'vandn.v', 'vorn.v'):
            d, a, b = F[ops[0]], F[ops[1]], F[ops[2]]
            fn = {'vnor.v': lambda x, y: not_(or_(x, y, 64), 64), 'vandn.v': lambda x, y: and_(not_(x, 64), y, 64),
                  'vorn.v': lambda x, y: or_(x, not_(y, 64), 64)}[mn]

            def f(st):
                setl(st, d, [fn(x, y) for x, y in zip(lanes(st, a, 8), lanes(st, b, 8))], 8)
                return nxt
            return f
        if mn == 'vbitsel.v':
            d, a, b, c = [F[x] for x in ops]

            def f(st):
                setl(st, d, [or_(and_(s, y, 64), and_(not_(s, 64), x, 64), 64)
                             for x, y, s in zip(lanes(st, a, 8), lanes(st, b, 8), lanes(st, c, 8))], 8)
                return nxt
            return f
        g = re.match(r'vshuf4i\.([bhw])$', mn)
        if g:
            n = L[g.group(1)]
            d, a, im = F[ops[0]], F[ops[1]], num(ops[2])

            def f(st):
                x = lanes(st, a, n)
                setl(st, d, [x[i // 4 * 4 + (im >> 2 * (i % 4) & 3)] for i in range(len(x))], n)
                return nxt
            return f
        g = re.match(r'vshuf\.([hwd])$', mn)
        if g:
            n = L[g.group(1)]
            d, a, b = [F[x] for x in ops]

            def f(st):
                idx = lanes(st, d, n)
                x = lanes(st, b, n) + lanes(st, a, n)
                if any(type(i) is not int for i in idx):
                    raise Unsupported(text)
                setl(st, d, [x[i & (len(x) - 1)] for i in idx], n)
                return nxt
            return f
        g = re.match(r'vreplvei\.([bhwd])$', mn)
        if g:
            n = L[g.group(1)]
            d, a, im = F[ops[0]], F[ops[1]], num(ops[2])

            def f(st):
                setl(st, d, [lanes(st, a, n)[im]] * (16 // n), n)
                return nxt
            return f
        g = re.match(r'vldrepl\.([bhwd])$', mn)
        if g:
            n = L[g.group(1)]
            d, b, off = F[ops[0]], X[ops[1]], num(ops[2]) & MASK[64]

            def f(st):
                st.x[d] = tuple(st.rde(add(st.r[b], off, 64), n)) * (16 // n)
                return nxt
            return f
        g = re.match(r'vstelm\.([bhwd])$', mn)
        if g:
            n = L[g.group(1)]
            d, b, off, i = F[ops[0]], X[ops[1]], num(ops[2]) & MASK[64], num(ops[3])

            def f(st):
                st.wre(add(st.r[b], off, 64), list(fget(st, d)[n * i:n * i + n]))
                return nxt
            return f
        raise Unsupported(text)
