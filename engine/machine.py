"""The symbolic machine for one harness executable: decoding, environment hooks, path exploration."""
import time, sys, bisect, random
import z3
from val import *
from mem import *
from state import *
import x86
from unwind import Unwinder
import threads


def isa_of(m, elf):
    if elf.machine in (3, 62):
        return x86.X86(m, elf)
    if elf.machine == 183:
        import a64
        return a64.A64(m, elf)
    if elf.machine == 243:
        import rv
        return rv.Rv(m, elf)
    if elf.machine == 258:
        import la
        return la.La(m, elf)
    if elf.machine == 40:
        import arm
        return arm.Arm(m, elf)
    raise Exception('machine %d' % elf.machine)


EXIT = {64: 0x7ffff6ff0000, 32: 0xf6ff0000}
HEAP = {64: 0x7ffff0000000, 32: 0xd0000000}
TLSB = {64: 0x7ffff5000000, 32: 0xf5000000}
MAIN_SIZE = 0x40000
CAN = 128
LO_FILL = 128


class Violation:
    def __init__(self, kind, info, st, model):
        self.kind = kind
        self.info = info
        self.st = st
        self.model = model


class Machine:
    def __init__(self, elf, max_steps=3000000, max_paths=20000, time_s=600, main_align=4096, max_switches=2, max_sched=3000, seed=1):
        self.main_align = main_align
        self.max_switches = max_switches
        self.max_sched = max_sched
        self.pre = []           # states right after a preemption
        self.npre = 0
        self.rng = random.Random(seed)
        self.trusted = None
        self.elf = elf
        self.W = elf.bits
        self.WB = self.W // 8
        PTR_W[0] = self.W
        self.stats = Stats()
        self.solver = Solver(self.stats)
        self.isa = isa_of(self, elf)
        self.cpu = self.isa.cpu
        self.code = {}
        self.win = getattr(elf, 'win', False)
        self.unw = win.Seh(self) if self.win else Unwinder(self)
        self.work = []
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.pin = None
        self.pinbase = {}
        self.pinsys = {}
        self.time_s = time_s
        self.exe = [(s[0], s[0] + len(s[1])) for s in elf.segs if s[3]]
        self.rel = 0
        self.intercept()

    # ---------------------------------------------------------------- set-up
    def intercept(self):
        e = self.elf
        self.hook(EXIT[self.W], h_exit, 0)
        for name, (fn, n) in list(HOOKS.items()) + list(threads.HOOKS.items()):
            a = e.sym.get(name)
            if a is None and name.startswith('v_'):
                continue
            if a is not None and name.startswith('v_'):
                self.hook(a, fn, n, name)
            if name in e.imports:
                self.hook(e.imports[name], fn, n)
        if self.win:
            win.intercept(self)
        for name, a in e.sym.items():
            if 'rust_begin_unwind' in name:
                self.hook(a, h_panic, 0)
            elif name.endswith('12default_hook') or '12default_hook17h' in name and name.endswith('E'):
                self.hook(a, h_default_hook, 0)
            elif 'panic_cannot_unwind' in name or 'panic_in_cleanup' in name or 'panic_nounwind' in name:
                self.hook(a, h_nounwind, 0)
        for name, a in e.imports.items():
            if a not in self.code:
                self.code[a] = unknown_import(name)
        self.trapsite = e.sym.get('v_trap_site')
        self.ontrap = e.sym.get('v_on_trap')

    def hook(self, addr, fn, n, name=None, stdcall=False):
        isa = self.isa

        def f(st):
            if self.win and name is not None:
                win.teb_check(self, st, name)
            v = fn(self, st, *isa.args(st, n))
            if type(v) is tuple:          # ('goto', pc)
                return v[1]
            t = isa.leave(st, v)
            if stdcall and self.W == 32:
                st.r[4] = add(st.r[4], 4 * n, 32)
            return t
        self.code[addr] = f

    def in_text(self, a):
        for lo, hi in self.exe:
            if lo <= a < hi:
                return True
        return False

    def is_addr(self, a):
        lo = self.elf.segs[0][0]
        return a >= lo and a < (0x800000000000 if self.W == 64 else 0xf8000000)

    def target(self, st, v):
        t = type(v)
        if t is int:
            if v in self.code or self.in_text(v):
                return v
            raise PathEnd('crash', 'jump to non-code address %#x' % v)
        if t is Ptr:
            raise PathEnd('crash', 'jump into data %r' % v)
        bad = z3.ULT(v, z3.BitVecVal(0x1000, self.W))
        if st.feasible(bad):
            raise PathEnd('crash', 'jump to an address read from uncontrolled data: %s' % str(v)[:100], bad)
        return self.target(st, st.concretize(v, self.W, 64))

    def trap(self, st, mn):
        if self.trapsite is not None and st.pc == self.trapsite:
            return trap_signal(self, st)
        raise PathEnd('abort', mn)

    def valgrind_op(self, nxt):
        seq = {64: '48c1c70348c1c70d48c1c73d48c1c733', 32: 'c1c703c1c70dc1c71dc1c713'}[self.W]
        magic = bytes.fromhex(seq)
        n = 3 if self.W == 64 else 2

        def f(st):
            at = st.pc
            if self.elf.rdb(at - len(magic), len(magic)) == magic and st.info.get('vgon'):
                a = st.r[0]
                args = tuple(st.rd(add(a, i * self.WB, self.W), self.WB) for i in range(6))
                vg = list(st.info.get('vg', ()))
                v = 0
                if type(args[0]) is int and args[0] == 0x1501:
                    v = pinned(self, st, fresh('vgid', self.W))
                vg.append((args, v))
                st.info['vg'] = tuple(vg)
                st.r[2] = v
            return nxt
        return f

    # ---------------------------------------------------------------- paths
    def fork(self, st):
        self.stats.forks += 1
        self.work.append(st)

    def initial(self, fn):
        W = self.W
        st = State(self)
        for addr, data, w, x in self.elf.segs:
            st.add_region(Region('seg%x' % addr, 'image', None, addr, len(data), data, w))
        t = self.elf.tls
        tb = TLSB[W]
        size = 0
        init = b''
        if t:
            al = max(t[6], 1)
            size = (t[5] + al - 1) & ~(al - 1)
            init = self.elf.d[t[2]:t[2] + t[4]]
        if self.win:
            win.initial(self, st)
        elif self.isa.tls1 is None:
            r = Region('tls', 'tls', None, tb - size, size + 0x300)
            r.data[0:len(init)] = init
            r.data[size:size + self.WB] = tb.to_bytes(self.WB, 'little')
        else:
            al = max(t[6], 1) if t else 1
            off = (self.isa.tls1 + al - 1) & ~(al - 1)
            r = Region('tls', 'tls', None, tb - 0x300, 0x300 + off + size)
            r.data[0x300 + off:0x300 + off + len(init)] = init
        if not self.win:
            st.add_region(r)
            st.fsbase = tb
        st.info['heapnext'] = HEAP[W]
        st.info['nstk'] = 0
        main = new_base(self, st, '@main', MAIN_SIZE, self.main_align)
        st.add_region(Region('@main', 'main', '@main', None, MAIN_SIZE, lazy=True))
        isa = self.isa
        for i in range(isa.nreg):
            st.r[i] = fresh('reg%d' % i, W)
        if isa.TP is not None:
            st.r[isa.TP] = tb
        isa.setup(st)
        st.own = object()
        if self.win:
            win.enter_main(self, st, Ptr('@main', MAIN_SIZE - 2048))
        isa.enter(st, Ptr('@main', MAIN_SIZE - 2048), EXIT[W])
        st.pc = self.elf.sym[fn]
        return st

    def explore(self, fn, on_end):
        """run harness fn over all paths; on_end(st, PathEnd) -> True to stop"""
        self.work = [self.initial(fn)]
        self.npaths = 0
        t0 = time.time()
        code = self.code
        ends = {}
        while self.work or self.pre:
            if self.work:
                st = self.work.pop()
            elif self.npre >= self.max_sched or time.time() - t0 > self.time_s / 6:
                break
            else:
                # preempted schedules in random order, in case there are more than can be explored
                k = self.rng.randrange(len(self.pre))
                st = self.pre[k]
                self.pre[k] = self.pre[-1]
                self.pre.pop()
                self.npre += 1
            self.npaths += 1
            if self.npaths > self.max_paths:
                e = PathEnd('limit', 'more than %d paths' % self.max_paths)
                on_end(st, e)
                break
            pc = st.pc
            n = 0
            try:
                while True:
                    lim = self.max_steps
                    while n < lim:
                        st.pc = pc
                        f = code.get(pc)
                        if f is None:
                            f = code[pc] = self.isa.decode(pc)
                        pc = f(st)
                        n += 1
                        if st.thr is not None:
                            pc = threads.step(self, st, pc)
                        if not n & 0xffff and time.time() - t0 > self.time_s:
                            raise PathEnd('timeout', 'time limit %ds' % self.time_s)
                    raise PathEnd('limit', 'more than %d steps on one path' % lim)
            except PathEnd as e:
                self.stats.steps += n
                if e.kind == 'infeasible':
                    continue
                st.info['end'] = e
                if on_end(st, e):
                    break
            if time.time() - t0 > self.time_s:
                on_end(st, PathEnd('timeout', 'time limit %ds' % self.time_s))
                break


def unknown_import(name):
    def f(st):
        raise PathEnd('unsupported', 'call of external function ' + name)
    return f


def new_base(m, st, bid, size, align=16):
    W = m.W
    v = z3.BitVec(bid, W)
    BASESYM[bid] = v
    if m.pin is not None and bid in m.pinbase:
        st.cons.append(v == z3.BitVecVal(m.pinbase[bid], W))
    k = align.bit_length() - 1
    lo, hi = (1 << 32, 1 << 46) if W == 64 else (1 << 24, 0x50000000)
    st.cons.append(z3.Extract(k - 1, 0, v) == 0)
    st.cons.append(z3.And(z3.UGE(v, z3.BitVecVal(lo, W)), z3.ULE(v, z3.BitVecVal(hi, W))))
    for b, r in st.breg.items():
        s = BASESYM[b]
        G = 0x2000
        st.cons.append(z3.Or(z3.ULE(v + z3.BitVecVal(size + G, W), s), z3.ULE(s + z3.BitVecVal(r.size + G, W), v)))
    st.model = None
    st.low[bid] = (k, 0)
    return v


# -------------------------------------------------------------------- harness interface
def cint(m, st, v):
    if type(v) is int:
        return v
    return st.concretize(v, m.W)


def h_exit(m, st):
    raise PathEnd('done')


def pinned(m, st, v):
    """the next input: v, or in a concrete re-execution the value it had in the model"""
    if m.pin is not None:
        n = len(st.inputs)
        if n >= len(m.pin):
            raise PathEnd('infeasible')
        v = m.pin[n]
    st.inputs.append(v)
    return v


def h_any(m, st):
    return pinned(m, st, fresh('in', m.W))


def h_choice(m, st, n):
    n = cint(m, st, n)
    if m.pin is not None:
        c = pinned(m, st, None)
        st.trace.append(c)
        return c
    v = st.info.pop('pend', None)
    if v is None:
        v = fresh('choice', m.W)
        st.cons.append(z3.ULT(v, z3.BitVecVal(n, m.W)))
        st.model = None
    st.info['pend'] = v
    c = st.concretize(v, m.W)
    st.info.pop('pend')
    st.inputs.append(v)
    st.trace.append(c)
    return c


def truth(m, c):
    """C int/bool argument -> condition"""
    w = m.W
    if type(c) is int:
        return (c & 0xff) != 0
    return bnot(eq(extract(c, 7, 0, w), 0, 8))


def h_assume(m, st, c):
    st.assume(truth(m, c))


def fail(st, kind, info, cond):
    raise PathEnd('violation', info, cond)


def require(m, st, c, info):
    """assertion: c must hold for every value on this path"""
    m.stats.discharged += 1
    if c is True:
        return
    if c is False:
        raise PathEnd('violation', info)
    n = z3.Not(c)
    if m.solver.check(st.cons, n):
        raise PathEnd('violation', info, n)


def h_assert(m, st, c, id_):
    require(m, st, truth(m, c), 'assert #%s' % id_)
    st.log.append(id_)


def h_assert_eq(m, st, a, b, id_):
    require(m, st, beq(a, b, m.W), 'assert_eq #%s: %s == %s' % (id_, short(a), short(b)))
    st.log.append(id_)


def beq(a, b, w):
    if type(a) is int and type(b) is int:
        return a == b
    if type(a) is Ptr and type(b) is Ptr and a.b == b.b:
        return a.o == b.o
    return bv(a, w) == bv(b, w)


def short(v):
    return ('%#x' % v if type(v) is int else str(v).replace('\n', ' '))[:120]


def h_assert_mem(m, st, p, q, n, id_):
    n = cint(m, st, n)
    if n == 0:
        m.stats.discharged += 1
        st.log.append(id_)
        return
    a = st.rde(p, n)
    b = st.rde(q, n)
    conds = []
    i = 0
    while i < n:
        k = min(8, n - i)
        x, y = a[i:i + k], b[i:i + k]
        if all(type(e) is int for e in x) and all(type(e) is int for e in y) and x == y:
            i += k
            continue
        vx, vy = compose(x), compose(y)
        if type(vx) is int and type(vy) is int and vx != vy:
            raise PathEnd('violation', 'assert_mem #%s: byte %d' % (id_, i))
        conds.append(bv(vx, 8 * k) == bv(vy, 8 * k))
        i += k
    require(m, st, True if not conds else z3.And(*conds) if len(conds) > 1 else conds[0], 'assert_mem #%s (%d bytes)' % (id_, n))
    st.log.append(id_)


def h_fill(m, st, p, n):
    n = cint(m, st, n)
    es = []
    WB = m.WB
    for i in range(0, n, WB):
        v = pinned(m, st, fresh('in', m.W))
        k = min(WB, n - i)
        es += entries_of(v, WB)[:k]
    if n:
        st.wre(p, es)


def h_cover(m, st, id_):
    id_ = cint(m, st, id_)
    st.covers.add(id_)
    st.log.append(id_)


def h_log(m, st, v):
    st.log.append(v)


def h_stack_new(m, st, size, out):
    size = cint(m, st, size)
    i = st.info['nstk']
    bid = '@stk%d' % i
    total = LO_FILL + size + CAN
    new_base(m, st, bid, total)
    st.add_region(Region(bid, 'stk%d' % i, bid, None, total, lazy=True))
    st.info['nstk'] = i + 1
    st.info[bid] = size
    if st.thr is not None:
        st.info['own'][bid] = st.thr
    st.wr(out, m.WB, Ptr(bid, LO_FILL + size))
    st.wr(add(out, m.WB, m.W), m.WB, Ptr(bid, LO_FILL))
    return i


def canary_ok(st, r, lo, hi):
    for j in range(lo, hi):
        k = r.kind[j]
        if k == U:
            continue
        if k == C:
            return j
        v, i, n = r.sym[j]
        t = r.tag.get(v) if type(v) is BV else None
        if t is None or t + i != j:
            return j
    return None


def h_stack_check(m, st, i, id_):
    bid = '@stk%d' % i
    r = st.breg.get(bid)
    if r is None:
        raise PathEnd('violation', 'use of a released stack')
    size = st.info[bid]
    m.stats.discharged += 1
    for lo, hi in ((0, LO_FILL), (LO_FILL + size, r.size)):
        j = canary_ok(st, r, lo, hi)
        if j is not None:
            raise PathEnd('violation', 'memory outside the stack was written: %s at %+d relative to its %s (check #%s)' % (
                r.name, j - (LO_FILL if lo == 0 else LO_FILL + size), 'limit' if lo == 0 else 'base', id_))
    st.log.append(id_)


def h_stack_free(m, st, i):
    bid = '@stk%d' % i
    if bid not in st.breg:
        raise PathEnd('violation', 'a stack was released twice')
    h_stack_check(m, st, i, 99999)
    st.info['freed'] = st.info.get('freed', ()) + ((bid, st.breg[bid].tag),)
    st.del_region(st.breg[bid])


def h_main_sp(m, st, sp):
    st.info['main_sp'] = sp


def h_snap(m, st, sp_lo):
    st.own = object()          # later writes copy the regions
    if type(sp_lo) is not Ptr:
        raise PathEnd('unsupported', 'snapshot with a stack pointer that is not on a stack')
    lows = {sp_lo.b: sp_lo.o}
    if sp_lo.b != '@main':
        ms = st.info.get('main_sp')
        lows['@main'] = ms.o if type(ms) is Ptr and ms.b == '@main' else MAIN_SIZE
    st.info['snap'] = ([(r, lows.get(r.bid, 0)) for r in st.breg.values()] + [(r, 0) for r in st.creg if r.rid == 'heap'],)


def h_snap_check(m, st, own, p, n, id_):
    n = cint(m, st, n)
    own = cint(m, st, own)
    m.stats.discharged += 1
    for old, lo in st.info['snap'][0]:
        if old.bid is not None:
            new = st.breg.get(old.bid)
            nm = old.bid
        else:
            i = bisect.bisect(st.cstart, old.start) - 1
            new = st.creg[i] if i >= 0 and st.cstart[i] == old.start else None
            nm = 'heap'
        if new is None or new is old:
            continue
        skips = []
        if nm == '@stk%d' % own:
            skips.append((LO_FILL, LO_FILL + st.info[nm]))
        if n and type(p) is Ptr and p.b == old.bid:
            skips.append((p.o, p.o + n))
        elif n and type(p) is int and old.bid is None:
            skips.append((p - old.start, p - old.start + n))
        j = lo
        end = old.size
        skips = sorted(s for s in skips if s[1] > lo) + [(end, end)]
        for a, b in skips:
            if a > j:
                diff_bytes(m, st, old, new, j, min(a, end), id_)
            j = max(j, b)
    st.log.append(id_)


def diff_bytes(m, st, old, new, lo, hi, id_):
    if old.data[lo:hi] == new.data[lo:hi] and old.kind[lo:hi] == new.kind[lo:hi] and S not in new.kind[lo:hi]:
        return
    for j in range(lo, hi):
        ko, kn = old.kind[j], new.kind[j]
        if kn == U:
            continue
        if ko == C and kn == C:
            if old.data[j] == new.data[j]:
                continue
            raise PathEnd('violation', 'memory that does not belong to the operation changed: %s%+#x (check #%s)' % (old.name, j, id_))
        if kn == S:
            v, i, k = new.sym[j]
            if ko == U:
                t = new.tag.get(v) if type(v) is BV else None
                if t is not None and t + i == j:
                    continue
            elif ko == S:
                v2, i2, k2 = old.sym[j]
                if v2 is v and i == i2:
                    continue
        a = compose(old.entries(j, 1))
        b = compose(new.entries(j, 1))
        require(m, st, beq(a, b, 8), 'memory that does not belong to the operation changed: %s%+#x (check #%s)' % (old.name, j, id_))


def h_expect_abort(m, st, v):
    st.info['expect_abort'] = cint(m, st, v)


def h_default_hook(m, st):
    # prints the message of a panic raised through the standard library's own entry points
    return None


def h_panic(m, st):
    # the panic hook and message formatting are not part of the claim: raise the payload directly
    a = m.elf.sym.get('v_panic_stub')
    return ('goto', a)


def h_nounwind(m, st):
    raise PathEnd('abort', 'non-unwinding panic')


def h_abort(m, st):
    raise PathEnd('abort', 'abort()')


# -------------------------------------------------------------------- libc
def h_malloc(m, st, n, align=16, zero=False):
    n = cint(m, st, n)
    a = st.info['heapnext']
    a = (a + 32 + align - 1) & ~(align - 1)
    st.info['heapnext'] = a + n
    st.add_region(Region('heap', 'heap%x' % a, None, a, max(n, 1), lazy=not zero))
    if st.thr is not None:
        st.info['own'][a] = st.thr
    return a


def h_calloc(m, st, a, b):
    return h_malloc(m, st, cint(m, st, a) * cint(m, st, b), zero=True)


def h_free(m, st, p):
    if type(p) is int:
        if p == 0:
            return
        r, o = st.find(p, 1)
        if o == 0 and r.rid == 'heap':
            st.del_region(r)
            return
    raise PathEnd('crash', 'free of something not allocated: %r' % (p,))


def h_realloc(m, st, p, n):
    n = cint(m, st, n)
    if type(p) is int and p == 0:
        return h_malloc(m, st, n)
    r, o = st.find(p, 1)
    a = h_malloc(m, st, n)
    k = min(n, r.size)
    st.wre(a, st.rde(p, k))
    h_free(m, st, p)
    return a


def h_posix_memalign(m, st, out, al, n):
    a = h_malloc(m, st, n, cint(m, st, al))
    st.wr(out, m.WB, a)
    return 0


def h_aligned_alloc(m, st, al, n):
    return h_malloc(m, st, n, cint(m, st, al))


def h_memcpy(m, st, d, s, n):
    n = cint(m, st, n)
    if n:
        es = st.rde(s, n)
        st.wre(d, es)
    return d


def h_memset(m, st, d, c, n):
    n = cint(m, st, n)
    if n:
        b = extract(c, 7, 0, m.W)
        st.wre(d, entries_of(b, 1) * n)
    return d


def h_memcmp(m, st, a, b, n):
    n = cint(m, st, n)
    if n == 0:
        return 0
    x = compose(st.rde(a, n)); y = compose(st.rde(b, n))
    if type(x) is int and type(y) is int:
        xb, yb = x.to_bytes(n, 'little'), y.to_bytes(n, 'little')
        return 0 if xb == yb else 1 if xb > yb else MASK[32]
    return 0 if st.decide(eq(x, y, 8 * n)) else 1


def h_strlen(m, st, p):
    n = 0
    while True:
        c = st.rd(add(p, n, m.W), 1)
        if type(c) is not int:
            raise PathEnd('unsupported', 'strlen of symbolic data')
        if c == 0:
            return n
        n += 1


def h_errno(m, st):
    return st.fsbase + 0x200 if m.isa.tls1 is None else st.fsbase - 0x200


def h_write(m, st, fd, p, n):
    return n


def h_zero(m, st):
    return 0


def h_tls_get_addr(m, st, p=None):
    if m.isa.tls1 is None and m.W == 32:
        p = st.r[0]
    off = st.rd(add(p, m.WB, m.W), m.WB)
    if m.isa.tls1 is not None:
        al = max(m.elf.tls[6], 1)
        return (st.fsbase + ((m.isa.tls1 + al - 1) & ~(al - 1)) + off + m.isa.dtv) & MASK[m.W]
    return (st.fsbase + m.elf.tpoff(0) + off) & MASK[m.W]


# -------------------------------------------------------------------- unwinder entry points
def land(m, st, lp, exc):
    regs, args, fps, _ = st.info.pop('install')
    isa = m.isa
    st.r = regs[:]
    st.r[isa.SP] = add(st.r[isa.SP], args, m.W)
    st.x = [None] * 32
    isa.landing(st, exc, fps)
    return ('goto', lp)


def h_raise(m, st, exc):
    lp = m.unw.raise_(st, exc)
    if lp is None:
        return 5
    return land(m, st, lp, exc)


def h_resume(m, st, exc):
    return land(m, st, m.unw.resume(st, exc), exc)


def h_unwind_to(m, st, stop, out, maxf):
    """v_unwind(stop_ip, out, max): walk frames until the return address equals stop; store the registers there"""
    c = m.unw.start(st)
    n = 0
    res = []
    mx = cint(m, st, maxf)
    stop = cint(m, st, stop)
    ok = 0
    while n <= mx:
        if type(c.pc) is int and c.pc == stop:
            ok = n + 1
            break
        if type(c.pc) is not int:
            raise PathEnd('violation', 'backtrace meets a return address that is not code: %s' % short(c.pc))
        row, nx = m.unw.step(st, c)
        if row is None:
            break
        c = nx
        n += 1
    if ok:
        # callee saved registers in the order of the harness' images, then the stack pointer
        i = 0
        for v, n in [(c.r[g], m.WB) for g in m.isa.saved] + [(c.f[g], 8) for g in m.isa.fpsaved] + [(c.r[m.isa.SP], m.WB)]:
            if i == m.WB * len(m.isa.saved):
                for g in m.isa.xsaved:
                    st.wre(add(out, i, m.W), c.x[g] or [(fresh('x', 8), 0, 1) for _ in range(16)])
                    i += 16
            st.wr(add(out, i, m.W), n, v)
            i += n
    return ok


# -------------------------------------------------------------------- traps
def trap_signal(m, st):
    """deliver the fault to v_on_trap(ctx) on a separate signal stack and install the registers it leaves in ctx"""
    W, WB = m.W, m.WB
    if m.ontrap is None:
        raise PathEnd('abort', 'trap')
    SIG = 0x7ffff4000000 if W == 64 else 0xf4000000
    size = 0x4000
    if 'sigstack' not in st.info:
        st.add_region(Region('sig', 'sigstack', None, SIG, size, lazy=True))
        st.info['sigstack'] = 1
    ctx = SIG + size - 512
    isa = m.isa
    regs = st.r[:isa.NIMG] + [st.pc]
    for i, v in enumerate(regs):
        st.wr(ctx + i * WB, WB, v)
    sp = ctx - 256
    sp &= ~15
    m.code[SIGRET[W]] = sigreturn(m, ctx)
    st.info['sigx'] = (st.fl, st.x[:])
    for i in range(isa.nreg):
        if i != isa.TP and i != isa.ZERO:
            st.r[i] = fresh('sigreg', W)
    st.x = [None] * 32
    isa.enter(st, sp, SIGRET[W])
    isa.set_arg0(st, ctx)
    return isa.start_pc(st, m.ontrap)


SIGRET = {64: 0x7ffff6fe0000, 32: 0xf6fe0000}


def sigreturn(m, ctx):
    def f(st):
        n = m.isa.NIMG
        for i in range(n):
            if i != m.isa.ZERO:
                st.r[i] = st.rd(ctx + i * m.WB, m.WB)
        pc = st.rd(ctx + n * m.WB, m.WB)
        st.fl, st.x = st.info.pop('sigx')
        return m.target(st, pc)
    return f


# -------------------------------------------------------------------- valgrind client requests
def h_vg_mode(m, st, on):
    st.info['vgon'] = cint(m, st, on)
    st.info['vg'] = ()


def h_vg_count(m, st):
    return len(st.info.get('vg', ()))


def h_vg_get(m, st, i, f):
    args, v = st.info['vg'][cint(m, st, i)]
    f = cint(m, st, f)
    return v if f == 6 else args[f]


def h_is_symbolic(m, st):
    return 1


HOOKS = {
    'v_any': (h_any, 0), 'v_choice': (h_choice, 1), 'v_assume': (h_assume, 1), 'v_assert': (h_assert, 2),
    'v_assert_eq': (h_assert_eq, 3), 'v_assert_mem': (h_assert_mem, 4), 'v_fill': (h_fill, 2), 'v_cover': (h_cover, 1),
    'v_log': (h_log, 1), 'v_stack_new': (h_stack_new, 2), 'v_stack_check': (h_stack_check, 2),
    'v_stack_free': (h_stack_free, 1), 'v_expect_abort': (h_expect_abort, 1), 'v_unwind': (h_unwind_to, 3),
    'v_vg_mode': (h_vg_mode, 1), 'v_vg_count': (h_vg_count, 0), 'v_vg_get': (h_vg_get, 2),
    'v_snap': (h_snap, 1), 'v_snap_check': (h_snap_check, 4), 'v_main_sp': (h_main_sp, 1),
    'v_symbolic': (h_is_symbolic, 0),
    'malloc': (h_malloc, 1), 'calloc': (h_calloc, 2), 'free': (h_free, 1), 'realloc': (h_realloc, 2),
    'posix_memalign': (h_posix_memalign, 3), 'aligned_alloc': (h_aligned_alloc, 2),
    'memcpy': (h_memcpy, 3), 'memmove': (h_memcpy, 3), 'memset': (h_memset, 3), 'memcmp': (h_memcmp, 3),
    'bcmp': (h_memcmp, 3), 'strlen': (h_strlen, 1), 'abort': (h_abort, 0), '__errno_location': (h_errno, 0),
    'write': (h_write, 3), '_Unwind_RaiseException': (h_raise, 1), '_Unwind_Resume': (h_resume, 1),
    '__tls_get_addr': (h_tls_get_addr, 1), '___tls_get_addr': (h_tls_get_addr, 0),
}


import win      # needs the definitions above
