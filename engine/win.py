"""Windows: the thread environment block, calls into the system, structured exception handling (x64 tables and x86 chains)."""
import z3
from val import *
from mem import *
from state import PathEnd
import machine as M

# offsets in the TEB
F64 = dict(el=0, base=8, limit=0x10, dealloc=0x1478, guar=0x1748, tls=0x58, me=0x30)
F32 = dict(el=0, base=4, limit=8, dealloc=0xe0c, guar=0xf78, tls=0x2c, me=0x18)
BOUNDS = ('base', 'limit', 'dealloc', 'guar')
NAMES = dict(base='StackBase', limit='StackLimit', dealloc='DeallocationStack', guar='GuaranteedStackBytes', el='ExceptionList')
FINAL = 0x77ff1230
SEHRET = {64: 0x7ffff6fd0000, 32: 0xf6fd0000}


def off(m):
    return F64 if m.W == 64 else F32


def initial(m, st):
    """TEB and thread-local storage of the main thread"""
    W, WB = m.W, m.WB
    tb = M.TLSB[W]
    st.fsbase = tb
    r = Region('teb', 'teb', None, tb, 0x2000)
    st.add_region(r)
    init = m.elf.tlsinit if hasattr(m.elf, 'tlsinit') else b''
    t = Region('tls', 'tls', None, tb + 0x3000, len(init) + 64)
    t.data[0:len(init)] = init
    st.add_region(t)
    f = off(m)
    r.data[f['me']:f['me'] + WB] = tb.to_bytes(WB, 'little')
    r.data[f['tls']:f['tls'] + WB] = (tb + 0x1900).to_bytes(WB, 'little')
    r.data[0x1900:0x1900 + WB] = (tb + 0x3000).to_bytes(WB, 'little')


def enter_main(m, st, top):
    """what the system recorded about the main stack: any values"""
    f = off(m)
    tb = st.fsbase
    g = tuple(chosen(m, st, 'main_' + k) for k in BOUNDS)
    for k, v in zip(BOUNDS, g):
        st.wr(tb + f[k], m.WB, v)
    st.info['teb'] = {'@main': g}
    if m.W == 32:
        rec = add(top, 64, 32)
        st.wr(rec, 4, 0xffffffff)
        st.wr(add(rec, 4, 32), 4, FINAL)
        st.wr(tb, 4, rec)
        st.info['el0'] = rec
    else:
        v = chosen(m, st, 'main_el')
        st.wr(tb, 8, v)
        st.info['el0'] = v


def chosen(m, st, name):
    """any value; the same one in a concrete re-execution"""
    v = SYSSYM.get((name, m.W))
    if v is None:
        v = SYSSYM[name, m.W] = z3.BitVec('sys_' + name, m.W)
    if m.pin is not None and name in m.pinsys:
        return m.pinsys[name]
    return v


def field(m, st, k):
    return st.rd(st.fsbase + off(m)[k], m.WB)


def here(m, st):
    sp = st.r[m.isa.SP]
    return sp.b if type(sp) is Ptr else None


def teb_check(m, st, where):
    """the bounds in the TEB are those of the stack this code runs on"""
    b = here(m, st)
    g = st.info['teb'].get(b)
    if g is None:
        return
    m.stats.discharged += 1
    for k, want in zip(BOUNDS, g):
        v = field(m, st, k)
        if v is want:
            continue
        M.require(m, st, M.beq(v, want, m.W), 'the TEB names another %s than that of the running stack %s (at %s): %s' % (
            NAMES[k], b, where, M.short(v)))
    if m.W == 32:
        chain_check(m, st, b, where)


def chain_check(m, st, b, where):
    """x86: the exception handlers are records on the running stack, from its live part upwards, ending at the system's own"""
    p = field(m, st, 'el')
    low = st.r[m.isa.SP].o
    n = 0
    while True:
        if type(p) is not Ptr or p.b != b:
            raise PathEnd('violation', 'the exception handler chain leaves the running stack %s (at %s): %s' % (b, where, M.short(p)))
        if type(p.o) is not int or p.o < low:
            raise PathEnd('violation', 'the exception handler chain of %s has a record out of order (at %s): %r' % (b, where, p))
        nx = st.rd(p, 4)
        low = p.o + 8
        n += 1
        if type(nx) is int and nx == 0xffffffff:
            break
        if n > 200:
            raise PathEnd('violation', 'the exception handler chain does not end')
        p = nx
    M.require(m, st, M.beq(st.rd(add(p, 4, 32), 4), FINAL, 32), 'the exception handler chain of %s does not end at the system\'s handler (at %s)' % (b, where))


def set_ghost(st, b, g):
    d = dict(st.info['teb'])
    d[b] = tuple(g)
    st.info['teb'] = d


# -------------------------------------------------------------------- harness interface
def h_teb_new(m, st, i, out):
    """what a new stack reports: any values"""
    i = M.cint(m, st, i)
    g = [chosen(m, st, 'stk%d_%s' % (i, k)) for k in BOUNDS]
    if type(g[0]) is not int:
        for o in st.info['teb'].values():
            st.assume(g[0] != o[0])         # no two stacks share an address
    for j, v in enumerate(g):
        st.wr(add(out, j * m.WB, m.W), m.WB, v)
    set_ghost(st, '@stk%d' % i, g)


def h_teb_set(m, st, i, p):
    """the values a stack object of corosensei reports for supplied stack i"""
    i = M.cint(m, st, i)
    set_ghost(st, '@stk%d' % i, [st.rd(add(p, j * m.WB, m.W), m.WB) for j in range(4)])


def h_teb_update(m, st, i, limit, guar):
    g = st.info['teb']['@stk%d' % M.cint(m, st, i)]
    M.require(m, st, M.beq(limit, g[1], m.W), 'a stack is told another StackLimit than it was left with: ' + M.short(limit))
    M.require(m, st, M.beq(guar, g[3], m.W), 'a stack is told another GuaranteedStackBytes than it was left with: ' + M.short(guar))


def h_os_grow(m, st):
    """the system moves the stack limit of the running stack, the program changes its guarantee"""
    b = here(m, st)
    g = list(st.info['teb'][b])
    f = off(m)
    n = st.info['ngrow'] = st.info.get('ngrow', 0) + 1
    for j, k in ((1, 'limit'), (3, 'guar')):
        g[j] = chosen(m, st, 'grow%d_%s' % (n, k))
        st.wr(st.fsbase + f[k], m.WB, g[j])
    set_ghost(st, b, g)
    return 1


def h_el_same(m, st):
    """the exception list of the main stack is the one the thread started with"""
    v = field(m, st, 'el')
    w = st.info['el0']
    if m.W == 64:
        M.require(m, st, M.beq(v, w, m.W), 'the ExceptionList of the resumer was not restored')


# -------------------------------------------------------------------- the system
def h_heap(m, st):
    return 0x1000


def h_heapalloc(m, st, h, fl, n):
    return M.h_malloc(m, st, n, 16, zero=bool(M.cint(m, st, fl) & 8))


def h_heapfree(m, st, h, fl, p):
    M.h_free(m, st, p)
    return 1


def h_heaprealloc(m, st, h, fl, p, n):
    return M.h_realloc(m, st, p, n)


def h_zero(m, st, *a):
    return 0


def h_one(m, st, *a):
    return 1


def h_nop(m, st, *a):
    return None


SYS = {'GetProcessHeap': (h_heap, 0), 'HeapAlloc': (h_heapalloc, 3), 'HeapFree': (h_heapfree, 3), 'HeapReAlloc': (h_heaprealloc, 4),
       'GetLastError': (h_zero, 0), 'SetLastError': (h_nop, 1)}
CRT = {'_resetstkoflw': (h_os_grow, 0), 'atexit': (h_zero, 1)}
PRIM = {'v_teb_new': (h_teb_new, 2), 'v_teb_set': (h_teb_set, 2), 'v_teb_update': (h_teb_update, 3), 'v_os_grow': (h_os_grow, 0),
        'v_el_same': (h_el_same, 0)}


def intercept(m):
    e = m.elf
    for name, (fn, n) in PRIM.items():
        if name in e.sym:
            m.hook(e.sym[name], fn, n, name)
    for name, (fn, n) in CRT.items():
        if name in e.imports:
            m.hook(e.imports[name], fn, n, name)
    for name, (fn, n) in SYS.items():
        if name in e.imports:
            m.hook(e.imports[name], fn, n, name, stdcall=True)
    # counterparts of system functions in the harness
    for name in ('VirtualAlloc', 'VirtualFree', 'GetSystemInfo', 'SetThreadStackGuarantee'):
        if name in e.imports and 'v_' + name in e.sym:
            m.code[e.imports[name]] = lambda st, a=e.sym['v_' + name]: a
    if '__chkstk' in e.imports:
        m.code[e.imports['__chkstk']] = lambda st: m.isa.leave(st, None)
    if '_chkstk' in e.imports:
        def chkstk(st):
            sp = st.r[4]
            t = m.target(st, st.rd(sp, 4))
            n = st.r[0]
            if type(n) is not int:
                raise PathEnd('unsupported', 'stack allocation of unknown size')
            st.r[4] = sub(add(sp, 4, 32), n, 32)
            return t
        m.code[e.imports['_chkstk']] = chkstk
    if '_CxxThrowException' in e.imports:
        m.code[e.imports['_CxxThrowException']] = lambda st: m.unw.throw(st)
    m.code[SEHRET[m.W]] = lambda st: m.unw.next(st)


# -------------------------------------------------------------------- exceptions
def same(a, b):
    if type(a) is Ptr and type(b) is Ptr:
        return a.b == b.b and same(a.o, b.o)
    if type(a) is int or type(b) is int:
        return type(a) is type(b) and a == b
    return type(a) is type(b) and a.eq(b)


class Ctx:
    def __init__(self, r, x, pc):
        self.r, self.x, self.pc = r, x, pc


class Seh:
    """both phases of C++ exception handling as __CxxFrameHandler3 does it"""

    def __init__(self, m):
        self.m = m
        e = self.e = m.elf
        self.W, self.WB = m.W, m.WB
        self.cxx = e.imports.get('__CxxFrameHandler3')
        self.rf = []
        if m.W == 64 and e.dirs[3][0]:
            a, n = e.image + e.dirs[3][0], e.dirs[3][1]
            self.rf = sorted((e.image + e.rd(a + i, 4), e.image + e.rd(a + i + 4, 4), e.image + e.rd(a + i + 8, 4)) for i in range(0, n, 12))
            self.rf = [f for f in self.rf if f[0] != e.image]
            self.starts = [f[0] for f in self.rf]

    # ---- x64 tables
    def lookup(self, pc):
        import bisect
        i = bisect.bisect_right(self.starts, pc) - 1
        return self.rf[i] if i >= 0 and pc < self.rf[i][1] else None

    def step(self, st, c):
        """-> (frame, caller); frame = (establisher, handler data or None)"""
        if type(c.pc) is not int:
            raise PathEnd('crash', 'unwinder met a symbolic return address ' + repr(c.pc)[:80])
        e = self.e
        f = self.lookup(c.pc)
        r, x = c.r[:], c.x[:]
        if f is None:
            if not self.m.in_text(c.pc):
                return None, None
            est, data = r[4], None
        else:
            ui = f[2]
            first = True
            data = None
            while True:
                b0, size, n, fr = (e.rd(ui + i, 1) for i in range(4))
                fl = b0 >> 3
                reg, fo = fr & 15, (fr >> 4) * 16
                base = sub(r[reg], fo, 64) if reg else r[4]
                if first:
                    est = base
                    codes_end = ui + 4 + 2 * ((n + 1) & ~1)
                    if fl & 3 and e.image + e.rd(codes_end, 4) == self.cxx:
                        data = e.image + e.rd(codes_end + 4, 4)
                i = 0
                done = c.pc - f[0]
                while i < n:
                    co, op = e.rd(ui + 4 + 2 * i, 1), e.rd(ui + 5 + 2 * i, 1)
                    info = op >> 4
                    op &= 15
                    u16 = e.rd(ui + 6 + 2 * i, 2) if i + 1 < n else 0
                    u32 = e.rd(ui + 6 + 2 * i, 4) if i + 2 < n else 0
                    k = {0: 1, 1: 2 if info == 0 else 3, 2: 1, 3: 1, 4: 2, 5: 3, 8: 2, 9: 3, 10: 1}.get(op)
                    if k is None:
                        raise PathEnd('unsupported', 'unwind code %d' % op)
                    i += k
                    if first and co > done:
                        continue            # the prologue has not got there yet
                    if op == 0:
                        r[info] = st.rd(r[4], 8)
                        r[4] = add(r[4], 8, 64)
                    elif op == 1:
                        r[4] = add(r[4], u16 * 8 if info == 0 else u32, 64)
                    elif op == 2:
                        r[4] = add(r[4], info * 8 + 8, 64)
                    elif op == 3:
                        r[4] = base
                    elif op in (4, 5):
                        r[info] = st.rd(add(base, u16 * 8 if op == 4 else u32, 64), 8)
                    elif op in (8, 9):
                        x[info] = tuple(st.rde(add(base, u16 * 16 if op == 8 else u32, 64), 16))
                    else:
                        raise PathEnd('unsupported', 'unwind code %d' % op)
                if not fl & 4:
                    break
                p = ui + 4 + 2 * ((n + 1) & ~1)
                ui = e.image + e.rd(p + 8, 4)
                first = False
        pc = st.rd(r[4], 8)
        r[4] = add(r[4], 8, 64)
        return (est, data), Ctx(r, x, pc)

    def start(self, st):
        sp = st.r[4]
        r = st.r[:]
        r[4] = add(sp, self.WB, self.W)
        return Ctx(r, st.x[:], st.rd(sp, self.WB))

    # ---- FuncInfo
    def ptr(self, a):
        v = self.e.rd(a, 4)
        return (self.e.image + v if v else 0) if self.W == 64 else v

    def info(self, a):
        e = self.e
        if e.rd(a, 4) & 0x1fffffff != 0x19930522:
            raise PathEnd('unsupported', 'exception data of an unknown kind')
        s32 = lambda x: e.rd(x, 4) - (1 << 32) if e.rd(x, 4) >> 31 else e.rd(x, 4)
        um = self.ptr(a + 8)
        unwind = [(s32(um + 8 * i), self.ptr(um + 8 * i + 4)) for i in range(e.rd(a + 4, 4))]
        tries = []
        tm = self.ptr(a + 16)
        hs = 20 if self.W == 64 else 16
        for i in range(e.rd(a + 12, 4)):
            t = tm + 20 * i
            ha = self.ptr(t + 16)
            hl = [(e.rd(ha + hs * j, 4), self.ptr(ha + hs * j + 4), s32(ha + hs * j + 8), self.ptr(ha + hs * j + 12)) for j in range(e.rd(t + 12, 4))]
            tries.append((s32(t), s32(t + 4), s32(t + 8), hl))
        ips = []
        if self.W == 64:
            im = self.ptr(a + 24)
            ips = [(e.image + e.rd(im + 8 * i, 4), s32(im + 8 * i + 4)) for i in range(e.rd(a + 20, 4))]
        return unwind, tries, ips

    def state_of(self, fi, pc):
        s = -1
        for ip, k in fi[2]:
            if ip > pc:
                break
            s = k
        return s

    def types(self, ti):
        """type descriptors an exception of this throw information can be caught as"""
        if ti == 0:
            return ()
        arr = self.ptr(ti + 12)
        return [self.ptr(self.ptr(arr + 4 + 4 * i) + 4) for i in range(self.e.rd(arr, 4))]

    def tname(self, a):
        """type descriptors are compared by name"""
        return self.e.cstr(a + 2 * self.WB)

    def match(self, fi, state, types):
        for lo, hi, ch, hl in fi[1]:
            if lo <= state <= hi:
                for adj, ty, disp, h in hl:
                    if ty == 0 or ty in types or self.tname(ty) in map(self.tname, types):
                        return lo, hi, disp, h
        return None

    def actions(self, fi, state, to):
        out = []
        while state != to:
            if state < 0 or state >= len(fi[0]):
                raise PathEnd('crash', 'exception state out of range')
            state, act = fi[0][state]
            if act:
                out.append((act, state))
        return out

    # ---- throwing
    def throw(self, st):
        m = self.m
        teb_check(m, st, 'a throw')
        obj, ti = m.isa.args(st, 2)
        if type(ti) is not int:
            raise PathEnd('unsupported', 'throw information is not constant')
        if self.W == 64:
            # written at run time: offsets from the image base
            img = self.e.image
            rd = lambda a: st.rd(a, 4)
            arr = img + rd(ti + 12)
            types = [img + rd(img + rd(arr + 4 + 4 * i) + 4) for i in range(rd(arr))]
            dtor = img + rd(ti + 4) if rd(ti + 4) else 0
            frames, target = self.search64(st, types)
        else:
            arr = st.rd(ti + 12, 4)
            types = [st.rd(st.rd(arr + 4 + 4 * i, 4) + 4, 4) for i in range(st.rd(arr, 4))]
            dtor = st.rd(ti + 4, 4)
            frames, target = self.search32(st, types)
        if type(dtor) is not int or any(type(t) is not int for t in types):
            raise PathEnd('unsupported', 'throw information is not constant')
        todo = []
        for fr in frames:
            todo += fr
        sp = st.r[4]
        st.info['seh'] = st.info.get('seh', ()) + ((tuple(todo), target, obj, dtor, sub(sp, 8 if self.W == 64 else 0, self.W), 'unwind'),)
        return self.advance(st)

    def search64(self, st, types):
        c = self.start(st)
        out = []
        for n in range(400):
            pc = c.pc
            fr, nx = self.step(st, c)
            if fr is None:
                raise PathEnd('abort', 'an exception that nothing catches')
            est, data = fr
            if data is not None:
                fi = self.info(data)
                s = self.state_of(fi, pc)
                f = self.lookup(pc)[0]
                hit = self.match(fi, s, types)
                fun = {a for _, a in fi[0]} | {h[3] for t in fi[1] for h in t[3]}
                if f in fun and (hit or self.actions(fi, s, -1)):
                    raise PathEnd('abort', 'an exception inside a clean-up')
                if hit:
                    lo, hi, disp, h = hit
                    out.append([('call', a, est, None) for a, _ in self.actions(fi, s, lo)])
                    return out, ('catch64', h, est, disp, c)
                out.append([('call', a, est, None) for a, _ in self.actions(fi, s, -1)])
            c = nx
        raise PathEnd('crash', 'unwinder does not terminate')

    def search32(self, st, types):
        p = st.rd(st.fsbase, 4)
        out = []
        # the runtime guards the clean-ups it runs with a handler that ends the program
        bb = here(self.m, st)
        stop = [e[4].o for e in st.info.get('seh', ()) if type(e[4]) is Ptr and e[4].b == bb and e[5][0] != 'catch' and type(e[4].o) is int]
        for n in range(400):
            if type(p) is int and p == 0xffffffff:
                raise PathEnd('abort', 'an exception that nothing catches')
            if type(p) is Ptr and p.b == bb and type(p.o) is int and any(p.o >= o for o in stop):
                raise PathEnd('abort', 'an exception inside a clean-up')
            nx, h = st.rd(p, 4), st.rd(add(p, 4, 32), 4)
            if type(h) is not int:
                raise PathEnd('crash', 'exception handler record without a handler')
            if h == FINAL:
                raise PathEnd('abort', 'an exception that nothing catches')
            b = self.e.rdb(h, 10)
            if b[0] != 0xb8 or b[5] != 0xe9 or (h + 10 + int.from_bytes(b[6:10], 'little')) & 0xffffffff != self.cxx:
                raise PathEnd('unsupported', 'exception handler of an unknown kind')
            fi = self.info(int.from_bytes(b[1:5], 'little'))
            s = st.rd(add(p, 8, 32), 4)
            if type(s) is not int:
                raise PathEnd('unsupported', 'symbolic exception state')
            s = s - (1 << 32) if s >> 31 else s
            hit = self.match(fi, s, types)
            if hit:
                lo, hi, disp, a = hit
                out.append([('call', f, p, k) for f, k in self.actions(fi, s, lo)])
                return out, ('catch32', a, p, disp, hi)
            out.append([('call', f, p, k) for f, k in self.actions(fi, s, -1)] + [('pop', nx)])
            p = nx
        raise PathEnd('crash', 'unwinder does not terminate')

    # ---- running what was decided: one funclet at a time, each returns to SEHRET
    def advance(self, st):
        todo, target, obj, dtor, sp, ph = st.info['seh'][-1]
        while todo and todo[0][0] == 'pop':
            st.wr(st.fsbase, 4, todo[0][1])
            todo = todo[1:]
        if todo:
            _, f, est, k = todo[0]
            self.put(st, (todo[1:], target, obj, dtor, sp, 'unwind'))
            if self.W == 32:
                st.wr(add(est, 8, 32), 4, k & 0xffffffff)
            return self.call(st, f, est, sp)
        kind, h, est, disp, c = target
        # the handler uses the place where the stack pointer of the function is kept
        esp = st.rd(sub(est, 4, 32), 4) if self.W == 32 else None
        self.put(st, ((), target, obj, dtor, sp, ('catch', esp)))
        if disp:
            at = add(est, (disp if self.W == 64 else disp + 12) & MASK[self.W], self.W)
            st.wr(at, self.WB, obj)
        if self.W == 32:
            st.wr(st.fsbase, 4, est)
            st.wr(add(est, 8, 32), 4, (c + 1) & 0xffffffff)
        return self.call(st, h, est, sp)

    def put(self, st, v):
        st.info['seh'] = st.info['seh'][:-1] + (v,)

    def call(self, st, f, est, sp):
        keep = self.m.isa
        for i in range(keep.nreg):
            st.r[i] = fresh('seh', self.W)
        st.x = [None] * 32
        if self.W == 64:
            st.r[2] = est
        else:
            st.r[5] = add(est, 12, 32)
        keep.enter(st, sub(sp, 64, self.W), SEHRET[self.W])
        return f

    def next(self, st):
        # another stack may be in the middle of an exception too
        here = add(st.r[4], 96 if self.W == 64 else 64, self.W)
        l = st.info.get('seh', ())
        i = next((i for i in range(len(l) - 1, -1, -1) if same(l[i][4], here)), None)
        if i is None:
            raise PathEnd('crash', 'an exception handler returned with another stack pointer')
        st.info['seh'] = l[:i] + l[i + 1:] + (l[i],)
        todo, target, obj, dtor, sp, ph = l[i]
        if ph == 'unwind':
            return self.advance(st)
        if ph[0] == 'catch':
            # the exception object is destroyed when the handler is left
            self.put(st, (todo, target, obj, dtor, sp, ('leave', ph[1], st.r[0])))
            if dtor:
                isa = self.m.isa
                st.r[1] = obj
                isa.enter(st, sub(sp, 64, self.W), SEHRET[self.W])
                return dtor
        ph = st.info['seh'][-1][5]
        kind, h, est, disp, c = target
        st.info['seh'] = st.info['seh'][:-1]
        if kind == 'catch64':
            st.r = c.r[:]
            for i in (0, 1, 2, 8, 9, 10, 11):
                st.r[i] = fresh('seh', 64)
            st.x = c.x[:6] and [None] * 6 + c.x[6:]
        else:
            for i in range(8):
                st.r[i] = fresh('seh', 32)
            st.wr(sub(est, 4, 32), 4, ph[1])
            st.r[4] = ph[1]
            st.r[5] = add(est, 12, 32)
        return self.m.target(st, ph[2])
