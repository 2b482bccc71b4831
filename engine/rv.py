"""RISC-V (RV32GC / RV64GC) instruction semantics: llvm-objdump text (-M no-aliases) -> closures over State."""
import re
from risc import *

NAMES = ['zero', 'ra', 'sp', 'gp', 'tp', 't0', 't1', 't2', 's0', 's1'] + ['a%d' % i for i in range(8)] + \
        ['s%d' % i for i in range(2, 12)] + ['t%d' % i for i in range(3, 7)]
X = {n: i for i, n in enumerate(NAMES)}
X['fp'] = 8
F = {}
for _i in range(8): F['ft%d' % _i] = _i
F['fs0'] = 8; F['fs1'] = 9
for _i in range(8): F['fa%d' % _i] = 10 + _i
for _i in range(2, 12): F['fs%d' % _i] = 16 + _i
for _i in range(8, 12): F['ft%d' % _i] = 20 + _i


class Rv(Isa):
    nreg = 32
    NIMG = 32
    SP = 2
    LR = 1
    RET = 10
    ARGS = (10, 11, 12, 13, 14, 15, 16, 17)
    EXC = (10, 11)
    TP = 4
    ZERO = 0
    GP = 3
    tls1 = 0
    dtv = 0x800
    saved = (8, 9) + tuple(range(18, 28))
    fpsaved = (8, 9) + tuple(range(18, 28))
    dmap = {i: i for i in range(32)}
    fpdwarf = {32 + i: i for i in range(32)}

    def setup(self, st):
        st.r[0] = 0
        gp = self.elf.sym.get('__global_pointer$')
        st.r[3] = gp if gp is not None else fresh('gp', self.W)

    def decode_text(self, addr, nxt, text):
        W, WB, m = self.W, self.WB, self.m
        MW = MASK[W]
        text = re.sub(r'\s*<.*>', '', text)
        p = text.split(None, 1)
        mn = p[0]
        ops = split_ops(p[1]) if len(p) > 1 else []
        comp = mn.startswith('c.')
        if comp:
            mn = mn[2:]
        if mn in ('unimp', 'ebreak', 'ecall'):
            return lambda st: m.trap(st, mn)
        if mn in ('fence', 'fence.i', 'nop', 'fence.tso'):
            return lambda st: nxt

        def setr(d):
            if d == 0:
                def put(st, v):
                    pass
            else:
                def put(st, v):
                    st.r[d] = v
            return put

        def memop(o):
            g = re.match(r'(-?(?:0x)?[0-9a-f]+)?\((\w+)\)$', o)
            off = int(g.group(1) or '0', 0) & MW
            b = X[g.group(2)]
            return lambda st: add(st.r[b], off, W)

        # ---- compressed forms -> full forms
        if comp:
            mn, ops = {
                'ldsp': lambda: ('ld', ops), 'sdsp': lambda: ('sd', ops), 'lwsp': lambda: ('lw', ops), 'swsp': lambda: ('sw', ops),
                'fldsp': lambda: ('fld', ops), 'fsdsp': lambda: ('fsd', ops), 'ld': lambda: ('ld', ops), 'sd': lambda: ('sd', ops),
                'lw': lambda: ('lw', ops), 'sw': lambda: ('sw', ops), 'fld': lambda: ('fld', ops), 'fsd': lambda: ('fsd', ops),
                'flwsp': lambda: ('flw', ops), 'fswsp': lambda: ('fsw', ops), 'flw': lambda: ('flw', ops), 'fsw': lambda: ('fsw', ops),
                'mv': lambda: ('addi', [ops[0], ops[1], '0']), 'li': lambda: ('addi', [ops[0], 'zero', ops[1]]),
                'lui': lambda: ('lui', ops), 'addi': lambda: ('addi', [ops[0], ops[0], ops[1]]),
                'addiw': lambda: ('addiw', [ops[0], ops[0], ops[1]]), 'addi16sp': lambda: ('addi', ['sp', 'sp', ops[1]]),
                'addi4spn': lambda: ('addi', ops), 'slli': lambda: ('slli', [ops[0], ops[0], ops[1]]),
                'srli': lambda: ('srli', [ops[0], ops[0], ops[1]]), 'srai': lambda: ('srai', [ops[0], ops[0], ops[1]]),
                'andi': lambda: ('andi', [ops[0], ops[0], ops[1]]), 'add': lambda: ('add', [ops[0], ops[0], ops[1]]),
                'sub': lambda: ('sub', [ops[0], ops[0], ops[1]]), 'xor': lambda: ('xor', [ops[0], ops[0], ops[1]]),
                'or': lambda: ('or', [ops[0], ops[0], ops[1]]), 'and': lambda: ('and', [ops[0], ops[0], ops[1]]),
                'addw': lambda: ('addw', [ops[0], ops[0], ops[1]]), 'subw': lambda: ('subw', [ops[0], ops[0], ops[1]]),
                'j': lambda: ('jal', ['zero', ops[0]]), 'jal': lambda: ('jal', ['ra', ops[0]]), 'jr': lambda: ('jalr', ['zero', '0(%s)' % ops[0]]),
                'jalr': lambda: ('jalr', ['ra', '0(%s)' % ops[0]]), 'beqz': lambda: ('beq', [ops[0], 'zero', ops[1]]),
                'bnez': lambda: ('bne', [ops[0], 'zero', ops[1]]),
            }[mn]()
        # ---- control flow
        if mn == 'jal':
            put = setr(X[ops[0]])
            t = int(ops[1], 16)

            def f(st):
                put(st, nxt)
                return t
            return f
        if mn == 'jalr':
            put = setr(X[ops[0]])
            ea = memop(ops[1]) if '(' in ops[1] else memop('%s(%s)' % (ops[2] if len(ops) > 2 else '0', ops[1]))

            def f(st):
                a = ea(st)
                if type(a) is int:
                    a &= ~1
                t = m.target(st, a)
                put(st, nxt)
                return t
            return f
        if mn in ('beq', 'bne', 'blt', 'bge', 'bltu', 'bgeu'):
            a, b = X[ops[0]], X[ops[1]]
            t = int(ops[2], 16)
            fn = {'beq': eq, 'bne': eq, 'blt': slt, 'bge': slt, 'bltu': ult, 'bgeu': ult}[mn]
            inv = mn in ('bne', 'bge', 'bgeu')

            def f(st):
                v = fn(st.r[a], st.r[b], W)
                if type(v) is not bool:
                    v = st.decide(v)
                return t if v is not inv else nxt
            return f
        # ---- loads and stores
        LD = {'lb': (1, 1), 'lh': (2, 1), 'lw': (4, 1), 'ld': (8, 1), 'lbu': (1, 0), 'lhu': (2, 0), 'lwu': (4, 0)}
        if mn in LD:
            n, sg = LD[mn]
            put = setr(X[ops[0]])
            ea = memop(ops[1])
            ext = sext if sg else zext

            def f(st):
                v = st.rd(ea(st), n)
                put(st, v if n == WB else ext(v, 8 * n, W))
                return nxt
            return f
        if mn in ('sb', 'sh', 'sw', 'sd'):
            n = {'sb': 1, 'sh': 2, 'sw': 4, 'sd': 8}[mn]
            s = X[ops[0]]
            ea = memop(ops[1])

            def f(st):
                v = st.r[s]
                st.wr(ea(st), n, v if n == WB else extract(v, 8 * n - 1, 0, W))
                return nxt
            return f
        if mn in ('fld', 'flw'):
            n = 8 if mn == 'fld' else 4
            d = F[ops[0]]
            ea = memop(ops[1])

            def f(st):
                es = tuple(st.rde(ea(st), n))
                st.x[d] = es + ((255,) * 4 if n == 4 else ()) + ZERO16[8:]
                return nxt
            return f
        if mn in ('fsd', 'fsw'):
            n = 8 if mn == 'fsd' else 4
            s = F[ops[0]]
            ea = memop(ops[1])

            def f(st):
                st.wre(ea(st), list(fget(st, s)[:n]))
                return nxt
            return f
        if mn in ('fmv.d.x', 'fmv.x.d', 'fmv.w.x', 'fmv.x.w'):
            n = 8 if '.d' in mn else 4
            if mn[4] == 'x':
                put = setr(X[ops[0]])
                s = F[ops[1]]

                def f(st):
                    put(st, sext(compose(fget(st, s)[:n]), 8 * n, W))
                    return nxt
            else:
                d = F[ops[0]]
                s = X[ops[1]]

                def f(st):
                    st.x[d] = tuple(entries_of(st.r[s], WB))[:n] + ((255,) * 4 if n == 4 else ()) + ZERO16[8:]
                    return nxt
            return f
        g = re.match(r'fsgnj([nx]?)\.(s|d)$', mn)
        if g:
            d, s, t = [F[x] for x in ops]
            n = 8 if g.group(2) == 'd' else 4
            k = g.group(1)

            def f(st):
                if s == t and not k:
                    st.x[d] = fget(st, s)
                    return nxt
                w = 8 * n
                x, y = compose(fget(st, s)[:n]), compose(fget(st, t)[:n])
                sg = 1 << (w - 1)
                if k == 'n':
                    y = not_(y, w)
                elif k == 'x':
                    y = xor_(x, y, w)
                v = or_(and_(x, sg - 1, w), and_(y, sg, w), w)
                st.x[d] = tuple(entries_of(v, n)) + ((255,) * 4 if n == 4 else ()) + ZERO16[8:]
                return nxt
            return f
        # ---- atomics
        g = re.match(r'(lr|sc|amo\w+)\.(w|d)(\.aq)?(\.?rl|\.aqrl)?$', mn)
        if g:
            k, n = g.group(1), 4 if g.group(2) == 'w' else 8
            put = setr(X[ops[0]])
            ea = memop(ops[-1])
            w = 8 * n
            s = X[ops[1]] if k != 'lr' else 0

            def f(st):
                a = ea(st)
                if k == 'sc':
                    st.wr(a, n, st.r[s] if n == WB else extract(st.r[s], w - 1, 0, W))
                    put(st, 0)
                    return nxt
                old = st.rd(a, n)
                if k != 'lr':
                    v = st.r[s] if n == WB else extract(st.r[s], w - 1, 0, W)
                    v = {'amoadd': lambda: add(old, v, w), 'amoswap': lambda: v, 'amoor': lambda: or_(old, v, w),
                         'amoand': lambda: and_(old, v, w), 'amoxor': lambda: xor_(old, v, w)}[k]()
                    st.wr(a, n, v)
                put(st, old if n == WB else sext(old, w, W))
                return nxt
            return f
        # ---- integer operations
        put = setr(X[ops[0]])
        if mn == 'lui':
            v = sext((int(ops[1], 0) << 12) & MASK[32], 32, W) if W == 64 else (int(ops[1], 0) << 12) & MW

            def f(st):
                put(st, v)
                return nxt
            return f
        if mn == 'auipc':
            v = (addr + sext((int(ops[1], 0) << 12) & MASK[32], 32, W)) & MW

            def f(st):
                put(st, v)
                return nxt
            return f
        a = X[ops[1]]
        word = mn.endswith('w') and mn not in ('lw', 'sw')
        base = mn[:-1] if word else mn
        w = 32 if word else W
        imm = None
        if base in ('addi', 'slti', 'sltiu', 'xori', 'ori', 'andi', 'slli', 'srli', 'srai'):
            imm = int(ops[2], 0) & MASK[w]
            base = {'sltiu': 'sltu'}.get(base, base[:-1])
            b = None
        else:
            b = X[ops[2]]
        sh = w - 1
        I = {
            'add': lambda st, x, y: add(x, y, w), 'sub': lambda st, x, y: sub(x, y, w), 'and': lambda st, x, y: mand(st, x, y, w),
            'or': lambda st, x, y: or_(x, y, w), 'xor': lambda st, x, y: xor_(x, y, w),
            'slt': lambda st, x, y: bsum(slt(x, y, w), w), 'sltu': lambda st, x, y: bsum(ult(x, y, w), w),
            'sll': lambda st, x, y: shl(x, and_(y, sh, w), w), 'srl': lambda st, x, y: shr(x, and_(y, sh, w), w),
            'sra': lambda st, x, y: sar(x, and_(y, sh, w), w),
            'mul': lambda st, x, y: mul(x, y, w), 'mulhu': lambda st, x, y: mulhu(x, y, w), 'mulh': lambda st, x, y: mulhs(x, y, w),
            'divu': lambda st, x, y: divu(st, x, y, w, lambda q: MASK[w]), 'remu': lambda st, x, y: remu(st, x, y, w),
            'div': lambda st, x, y: divs(st, x, y, w, lambda q: MASK[w]), 'rem': lambda st, x, y: rems(st, x, y, w),
        }
        fn = I[base]
        if word:
            def f(st):
                x = extract(st.r[a], 31, 0, 64)
                y = imm if b is None else extract(st.r[b], 31, 0, 64)
                put(st, sext(fn(st, x, y), 32, 64))
                return nxt
            return f

        def f(st):
            put(st, fn(st, st.r[a], imm if b is None else st.r[b]))
            return nxt
        return f
