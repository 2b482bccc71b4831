"""Two threads on one machine: every interleaving at accesses to shared memory, with a bounded number of preemptions.

A thread runs until it has touched memory another thread can touch too (the instruction itself is atomic); there, and only there,
a preemption is considered: instructions on private memory commute with everything the other thread does. Memory is private while
only one thread has touched it; stacks, thread-local storage and fresh allocations start out as their creator's. The standard
library's own statics (panic counters) are trusted and are no preemption points."""
import re, bisect
from val import *
from mem import *
from state import PathEnd

TRUSTED = re.compile(r'(?<!\d)(3std|4core|5alloc|3vrt|12panic_unwind|10std_detect|2hx|3c24)(?=\d)|^(_ZN)?(3std|3vrt)')
EXITT = {64: 0x7ffff6fd0000, 32: 0xf6fd0000}
SHARED = 'shared'
MAPS = {64: 0x7fffe0000000, 32: 0xc0000000}


def objects(m):
    """trusted ranges of the writable image: the standard library's statics and what is read-only after start-up"""
    e = m.elf
    out = []
    for nm, val, sz, info, shndx in e.symtab('.symtab'):
        if info & 15 == 1 and sz and shndx and TRUSTED.search(nm) and '10corosensei' not in nm:
            out.append((val + e.base, val + e.base + sz))
    for t, fl, off, va, fsz, msz, al in e.ph:
        if t == 0x6474e552:                        # PT_GNU_RELRO
            out.append((va + e.base, va + e.base + msz))
    out.sort()
    flat = []
    for a, b in out:
        if flat and a <= flat[-1][1]:
            flat[-1] = (flat[-1][0], max(b, flat[-1][1]))
        else:
            flat.append((a, b))
    return flat


def touch(st, r, o):
    """memory r+o is being accessed by the running thread"""
    rid = r.rid
    if not r.w or rid == '@main' or rid == 'sig':
        return
    if r.name == 'image':
        a = r.start + o
        m = st.m
        t = m.trusted
        i = bisect.bisect(t, (a, 1 << 65)) - 1
        if i >= 0 and t[i][0] <= a < t[i][1]:
            return
        st.shared = True
        return
    k = r.bid if r.bid is not None else r.start
    own = st.info['own']
    w = own.get(k)
    if w is None:
        own[k] = st.thr
    elif w != st.thr:
        own[k] = SHARED
        st.shared = True


def save(st):
    return (st.r[:], st.x[:], st.fl, st.pc, st.fsbase, st.mxcsr, st.info.get('main_sp'))


def load(st, c):
    st.r, st.x = c[0][:], c[1][:]
    st.fl, st.pc, st.fsbase, st.mxcsr = c[2:6]
    st.info['main_sp'] = c[6]


def switch(st):
    """the running thread stops here (its state is stored), the other one continues"""
    c = st.info['ctx']
    c[st.thr] = save(st)
    st.thr = 1 - st.thr
    load(st, c[st.thr])
    st.info['cnt'] = {}


def h_threads(m, st, f, a, g, b):
    from machine import new_base, MAIN_SIZE, TLSB, truth
    W, WB = m.W, m.WB
    if m.trusted is None:
        m.trusted = objects(m)
    fs = [f, g]
    for x in fs:
        if type(x) is not int:
            raise PathEnd('unsupported', 'thread function that is not concrete')
    n = st.info.get('nthr', 0)
    both = bool(f and g)
    first = 0 if f else 1
    if both:
        # who runs first (decided before anything changes)
        v = st.info.pop('pend', None)
        if v is None:
            v = fresh('first', W)
            st.cons.append(z3.ULT(v, z3.BitVecVal(2, W)))
            st.model = None
        st.info['pend'] = v
        first = st.concretize(v, W)
        st.info.pop('pend')
    st.info['sched'] = st.info.get('sched', ()) + (('first', first),)
    m.code[EXITT[W]] = h_exit_thread(m)
    st.info['back'] = save(st)
    ctx = {}
    for i in (0, 1):
        if not fs[i]:
            continue
        bid = '@thr%d' % n
        n += 1
        new_base(m, st, bid, MAIN_SIZE, m.main_align)
        st.add_region(Region(bid, bid[1:], bid, None, MAIN_SIZE, lazy=True))
        # thread-local storage: a fresh copy of the initial image
        main = next(r for r in st.creg if r.rid == 'tls')
        tp = TLSB[W] - 0x200000 * n
        t = m.elf.tls
        d = bytearray(main.size)
        off = TLSB[W] - main.start
        if t:
            init = m.elf.d[t[2]:t[2] + t[4]]
            d[0:len(init)] = init
        d[off:off + WB] = tp.to_bytes(WB, 'little')
        st.add_region(Region('tlst', 'tls of thread %d' % n, None, tp - off, main.size, d))
        load(st, st.info['back'])
        for k in range(m.isa.nreg):
            st.r[k] = fresh('treg', W)
        st.x = [None] * 32
        st.fl = ('ex', False, False, False, False, False)
        st.fsbase = tp
        st.mxcsr = 0x1f80
        m.isa.enter(st, Ptr(bid, MAIN_SIZE - 2048), EXITT[W])
        m.isa.set_arg0(st, (a, b)[i])
        st.pc = fs[i]
        st.info['main_sp'] = None
        ctx[i] = save(st)
        st.info['own'] = dict(st.info.get('own', {}))
        st.info['own'][bid] = i
        st.info['own'][tp - off] = i
    st.info['nthr'] = n
    st.info['ctx'] = ctx
    st.info['alive'] = tuple(sorted(ctx))
    st.info['nsw'] = 0
    st.info['cnt'] = {}
    st.thr = first
    st.shared = False
    load(st, ctx[first])
    return ('goto', m.target(st, st.pc))


def h_exit_thread(m):
    def f(st):
        al = tuple(x for x in st.info['alive'] if x != st.thr)
        st.info['alive'] = al
        if al:
            switch(st)
            st.shared = False
            return st.pc
        st.thr = None
        load(st, st.info['back'])
        # what the threads leave behind belongs to nobody
        st.info['own'] = {k: v for k, v in st.info['own'].items() if v == SHARED}
        return m.isa.leave(st, 0)
    return f


def step(m, st, pc):
    """after every instruction of a thread; pc is where it continues"""
    cnt = st.info['cnt']
    c = cnt.get(pc, 0) + 1
    cnt[pc] = c
    if st.shared and m.in_text(pc):
        st.shared = False
        if len(st.info['alive']) == 2 and st.info['nsw'] < m.max_switches:
            n = st.clone()
            n.pc = pc
            n.info['sched'] = n.info['sched'] + (('sw', pc - m.elf.sym['v_threads'], c),)
            n.info['nsw'] += 1
            switch(n)
            m.stats.forks += 1
            if len(m.pre) < 50000:
                m.pre.append(n)
            else:
                m.pre[m.rng.randrange(len(m.pre))] = n
    return pc


# ---------------------------------------------------------------- the operating system's memory calls
def h_mmap(m, st, a, n, prot, flags, fd, off):
    from machine import cint
    n = cint(m, st, n)
    a = st.info.get('mapnext', MAPS[m.W])
    st.info['mapnext'] = a + ((n + 0x3fff) & ~0xfff)
    st.add_region(Region('map', 'map%x' % a, None, a, n))
    if st.thr is not None:
        st.info['own'][a] = st.thr
    return a


def h_mprotect(m, st, a, n, prot):
    return 0


def h_munmap(m, st, a, n):
    from machine import cint
    n = cint(m, st, n)
    if type(a) is int and n:
        r, o = st.find(a, 1)
        if r.rid == 'map' and o == 0 and r.size == n:
            st.del_region(r)
            return 0
    raise PathEnd('violation', 'munmap of something that is not mapped: %r, %d bytes' % (a, n))


def h_sysconf(m, st, n):
    return 4096


def h_zero(m, st):
    return 0


def h_syscall(m, st, n, a, op):
    # a thread that waits for a lock: covered by the schedules in which it arrives there after the release
    if n in (202, 240, 422) and type(op) is int:
        if op & 127 in (0, 9):
            raise PathEnd('infeasible' if st.thr is not None else 'unsupported', 'futex')
        if op & 127 in (1, 10):
            return 0
    raise PathEnd('unsupported', 'system call')


import z3
HOOKS = {
    'v_threads': (h_threads, 4), 'mmap': (h_mmap, 6), 'mmap64': (h_mmap, 6), 'mprotect': (h_mprotect, 3), 'munmap': (h_munmap, 2),
    'sysconf': (h_sysconf, 1), 'syscall': (h_syscall, 3), '__cxa_thread_atexit_impl': (h_zero, 0),
}
