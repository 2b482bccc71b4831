//! Verification runtime. The symbolic engine replaces the `v_*` entry points by solver operations; the bodies below are
//! what runs natively when a solver model is replayed against the real build.
#![allow(static_mut_refs, clippy::missing_safety_doc)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::arch::global_asm;
use std::sync::atomic::{AtomicUsize, Ordering};

pub const WB: usize = core::mem::size_of::<usize>();

// ---------------------------------------------------------------- allocation balance
pub struct Counting;
static mut LIVE: usize = 0;
// During a native replay allocations come from an arena that is never reused, so that double frees and late writes show.
static mut ARENA: usize = 0;
static mut ARENA_NEXT: usize = 0;
const ARENA_SIZE: usize = 1 << 26;
const MAGIC: usize = 0x5a5a_1234;
unsafe fn arena_alloc(l: Layout) -> *mut u8 {
    let a = (ARENA_NEXT + 4 * WB + l.align() - 1) & !(l.align() - 1);
    let e = a + l.size();
    if e > ARENA + ARENA_SIZE {
        return core::ptr::null_mut();
    }
    ARENA_NEXT = e;
    core::ptr::write_unaligned((a - WB) as *mut usize, MAGIC);
    core::ptr::write_unaligned((a - 2 * WB) as *mut usize, l.size());
    let mut i = 0;
    while i < l.size() {
        *((a + i) as *mut u8) = 0xa5;
        i += 1;
    }
    a as *mut u8
}
unsafe fn arena_free(p: usize) {
    if core::ptr::read_unaligned((p - WB) as *const usize) != MAGIC {
        put(b"VCRASH double free\n");
        _exit(5)
    }
    core::ptr::write_unaligned((p - WB) as *mut usize, 0);
    let n = core::ptr::read_unaligned((p - 2 * WB) as *const usize);
    let mut i = 0;
    while i < n {
        *((p + i) as *mut u8) = 0xee;
        i += 1;
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE = LIVE.wrapping_add(1);
        if RPD {
            return arena_alloc(l);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE = LIVE.wrapping_sub(1);
        let a = p as usize;
        if RPD && a >= ARENA && a < ARENA + ARENA_SIZE {
            return arena_free(a);
        }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;
/// number of live heap allocations
#[inline(never)]
pub fn heap_live() -> usize {
    unsafe { LIVE }
}

// ---------------------------------------------------------------- native replay state
extern "C" {
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: isize) -> *mut u8;
    fn munmap(a: *mut u8, n: usize) -> i32;
    fn sigaction(s: i32, a: *const SigAction, o: *mut SigAction) -> i32;
    fn sigaltstack(a: *const StackT, o: *mut StackT) -> i32;
}
#[repr(C)]
struct StackT {
    sp: *mut u8,
    flags: i32,
    size: usize,
}
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u8; 128],
    flags: i32,
    restorer: usize,
}

struct Stk {
    map: usize,
    len: usize,
    base: usize,
    limit: usize,
    live: bool,
    lo: Vec<u8>,
    hi: Vec<u8>,
}
pub struct Replay {
    inputs: Vec<usize>,
    next: usize,
    stk: Vec<Stk>,
    plan: Vec<(usize, Vec<(usize, Vec<u8>)>)>, // base, [(offset from region start, bytes)]
    log: Vec<usize>,
    expect_abort: bool,
    sched: Vec<(usize, usize)>,
    nsched: usize,
}
static mut RP: Option<Replay> = None;
static mut RPD: bool = false;
static mut SNAP_BUF: usize = 0;
static mut SNAPS: [(usize, usize, usize, usize); 64] = [(0, 0, 0, 0); 64];
static mut NSNAP: usize = 0;
static mut MAIN_TOP: usize = 0;
static mut MAIN_SP: usize = 0;
static mut COVERED: usize = 0;

fn rp() -> &'static mut Replay {
    unsafe { RP.as_mut().unwrap_unchecked() }
}

fn note(v: usize) {
    let r = rp();
    if r.log.len() < r.log.capacity() {
        r.log.push(v)
    }
}
fn put(s: &[u8]) {
    unsafe {
        write(1, s.as_ptr(), s.len());
    }
}
fn put_num(mut v: usize, radix: usize) {
    let mut b = [0u8; 32];
    let mut i = 32;
    loop {
        i -= 1;
        b[i] = b"0123456789abcdef"[v % radix];
        v /= radix;
        if v == 0 {
            break;
        }
    }
    put(&b[i..]);
}
fn dump_log() {
    let r = rp();
    let mut i = 0;
    while i < r.log.len() {
        put(b"LOG ");
        put_num(r.log[i], 16);
        put(b"\n");
        i += 1;
    }
}
pub fn finish_ok() -> ! {
    dump_log();
    put(b"VDONE\n");
    unsafe { _exit(0) }
}
#[inline(never)]
fn vfail(what: &[u8], id: usize) -> ! {
    put(b"VFAIL ");
    put(what);
    put(b" #");
    put_num(id, 10);
    put(b"\n");
    unsafe { _exit(3) }
}

pub unsafe fn replay_init(path: &str, top: usize) {
    MAIN_TOP = top;
    std::hint::black_box(v_panic_stub as *const ());
    let mut r = Replay {
        inputs: vec![],
        next: 0,
        stk: Vec::with_capacity(64),
        plan: vec![],
        log: Vec::with_capacity(1 << 18),
        expect_abort: false,
        sched: vec![],
        nsched: 0,
    };
    for l in std::fs::read_to_string(path).unwrap().lines() {
        let p: Vec<&str> = l.split_whitespace().collect();
        match p.first().copied() {
            Some("first") => r.sched.push((0, p[1].parse().unwrap())),
            Some("switch") => r.sched.push((usize::from_str_radix(p[1], 16).unwrap(), p[2].parse().unwrap())),
            Some("in") => r.inputs.push(usize::from_str_radix(p[1], 16).unwrap()),
            Some("stk") => r.plan.push((usize::from_str_radix(p[1], 16).unwrap(), vec![])),
            Some("mem") => {
                let b = (0..p[2].len() / 2).map(|i| u8::from_str_radix(&p[2][2 * i..2 * i + 2], 16).unwrap()).collect();
                r.plan.last_mut().unwrap().1.push((p[1].parse().unwrap(), b));
            }
            _ => {}
        }
    }
    RP = Some(r);
    ARENA = mmap(core::ptr::null_mut(), ARENA_SIZE, 3, 0x22, -1, 0) as usize;
    ARENA_NEXT = ARENA;
    if std::env::var_os("VRT_HOOK").is_none() { std::panic::set_hook(Box::new(|_| {})) }
    RPD = true;
    // signal handling on a separate stack
    let n = 1 << 18;
    let s = mmap(core::ptr::null_mut(), n, 3, 0x22, -1, 0);
    let st = StackT { sp: s, flags: 0, size: n };
    sigaltstack(&st, core::ptr::null_mut());
    for (sig, h) in [
        (4, on_ill as *const () as usize),
        (6, on_abort as *const () as usize),
        (11, on_crash as *const () as usize),
        (7, on_crash as *const () as usize),
        (8, on_crash as *const () as usize),
        (5, on_step as *const () as usize),
    ] {
        // SA_SIGINFO | SA_ONSTACK
        let a = SigAction { handler: h, mask: [0; 128], flags: 4 | 0x0800_0000, restorer: 0 };
        sigaction(sig, &a, core::ptr::null_mut());
    }
}
unsafe extern "C" fn on_abort(_s: i32, _i: *mut u8, _c: *mut u8) {
    dump_log();
    put(if rp().expect_abort { b"VABORT expected\n" } else { b"VABORT unexpected\n" });
    _exit(if rp().expect_abort { 0 } else { 4 })
}
unsafe extern "C" fn on_crash(_s: i32, _i: *mut u8, _c: *mut u8) {
    put(b"VCRASH signal\n");
    _exit(5)
}
// general registers in the order of the encoding's register file, then the program counter
#[cfg(target_arch = "x86_64")]
const GREGS: [usize; 17] = [13, 14, 12, 11, 15, 10, 9, 8, 0, 1, 2, 3, 4, 5, 6, 7, 16];
#[cfg(target_arch = "x86_64")]
const GOFF: usize = 40;
#[cfg(target_arch = "x86")]
const GREGS: [usize; 9] = [11, 10, 9, 8, 7, 6, 5, 4, 14];
#[cfg(target_arch = "x86")]
const GOFF: usize = 20;
// other architectures are only encoded, never run here
#[cfg(target_arch = "arm")]
const GREGS: [usize; 17] = [0; 17];
#[cfg(not(any(target_arch = "x86_64", target_arch = "x86", target_arch = "arm")))]
const GREGS: [usize; 33] = [0; 33];
#[cfg(not(any(target_arch = "x86_64", target_arch = "x86")))]
const GOFF: usize = 0;
pub const NCTX: usize = GREGS.len();
pub static mut TRAP_HANDLER: Option<unsafe extern "C" fn(*mut usize)> = None;

/// delivers a fault to the handler; the engine calls this directly
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn v_on_trap(ctx: *mut usize) {
    if let Some(h) = TRAP_HANDLER {
        h(ctx)
    }
}

// Valgrind's client requests are recognised by executing the program step by step.
static mut VG_ON: bool = false;
static mut NVG: usize = 0;
static mut VG: [[usize; 7]; 64] = [[0; 7]; 64];
#[cfg(target_arch = "x86_64")]
const VG_SEQ: [u8; 19] = [0x48, 0xc1, 0xc7, 3, 0x48, 0xc1, 0xc7, 13, 0x48, 0xc1, 0xc7, 61, 0x48, 0xc1, 0xc7, 51, 0x48, 0x87, 0xdb];
#[cfg(target_arch = "x86")]
const VG_SEQ: [u8; 14] = [0xc1, 0xc7, 3, 0xc1, 0xc7, 13, 0xc1, 0xc7, 29, 0xc1, 0xc7, 19, 0x87, 0xdb];
#[cfg(not(any(target_arch = "x86_64", target_arch = "x86")))]
const VG_SEQ: [u8; 0] = [];
#[inline(never)]
#[allow(unused_variables)]
unsafe fn step(on: bool) {
    #[cfg(target_arch = "x86_64")]
    if on {
        core::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    } else {
        core::arch::asm!("pushfq", "and qword ptr [rsp], -0x101", "popfq");
    }
    #[cfg(target_arch = "x86")]
    if on {
        core::arch::asm!("pushfd", "or dword ptr [esp], 0x100", "popfd");
    } else {
        core::arch::asm!("pushfd", "and dword ptr [esp], -0x101", "popfd");
    }
}
unsafe extern "C" fn on_step(s: i32, i: *mut u8, c: *mut u8) {
    if THR_ON {
        let g = c.add(GOFF) as *mut usize;
        return arrival(*g.add(GREGS[NCTX - 1]));
    }
    if !VG_ON {
        return on_ill(s, i, c);
    }
    let g = c.add(GOFF) as *mut usize;
    let pc = *g.add(GREGS[NCTX - 1]);
    // the instruction that was just executed
    let mut k = 0;
    while k < VG_SEQ.len() {
        if *((pc - VG_SEQ.len() + k) as *const u8) != VG_SEQ[k] {
            return;
        }
        k += 1;
    }
    let a = *g.add(GREGS[0]) as *const usize;
    k = 0;
    while k < 6 {
        VG[NVG][k] = *a.add(k);
        k += 1;
    }
    let r = if *a == 0x1501 { v_any() } else { 0 };
    VG[NVG][6] = r;
    NVG += 1;
    *g.add(GREGS[2]) = r;
}
// Two threads, of which only the one holding the baton runs. The schedule names the points where the baton changes hands: the
// n-th time the running thread arrives at an instruction. Found by single-stepping.
static mut THR_ON: bool = false;
static BATON: AtomicUsize = AtomicUsize::new(9);
static mut ALIVE: usize = 0;
static mut ARRIVED: usize = 0;
extern "C" {
    fn sched_yield() -> i32;
}
fn wait_baton(me: usize) {
    while BATON.load(Ordering::Acquire) != me {
        unsafe { sched_yield() };
    }
}
unsafe fn arrival(pc: usize) {
    let r = rp();
    if ALIVE != 3 || r.nsched >= r.sched.len() {
        return;
    }
    let (off, n) = r.sched[r.nsched];
    if pc.wrapping_sub(v_threads as *const () as usize) != off {
        return;
    }
    ARRIVED += 1;
    if ARRIVED == n {
        r.nsched += 1;
        ARRIVED = 0;
        let me = BATON.load(Ordering::Acquire);
        BATON.store(1 - me, Ordering::Release);
        wait_baton(me);
    }
}
pub type ThreadFn = unsafe extern "C-unwind" fn(*mut u8);
fn thread_main(me: usize, f: ThreadFn, a: usize) {
    unsafe {
        let n = 1 << 16;
        let st = StackT { sp: mmap(core::ptr::null_mut(), n, 3, 0x22, -1, 0), flags: 0, size: n };
        sigaltstack(&st, core::ptr::null_mut());
        wait_baton(me);
        if ALIVE == 3 {
            THR_ON = true;
            step(true);
        }
        f(a as *mut u8);
        step(false);
        ALIVE &= !(1 << me);
        ARRIVED = 0;
        BATON.store(if ALIVE != 0 { 1 - me } else { 9 }, Ordering::Release);
    }
}

unsafe extern "C" fn on_ill(s: i32, i: *mut u8, c: *mut u8) {
    let g = c.add(GOFF) as *mut usize;
    let site = v_trap_site as *const () as usize;
    if *g.add(GREGS[NCTX - 1]) == site && TRAP_HANDLER.is_some() {
        let mut ctx = [0usize; NCTX];
        let mut k = 0;
        while k < NCTX {
            ctx[k] = *g.add(GREGS[k]);
            k += 1;
        }
        v_on_trap(ctx.as_mut_ptr());
        k = 0;
        while k < NCTX {
            *g.add(GREGS[k]) = ctx[k];
            k += 1;
        }
        return;
    }
    on_abort(s, i, c)
}

// ---------------------------------------------------------------- the interface
macro_rules! api {
    ($($(#[$m:meta])* fn $n:ident($($a:ident: $t:ty),*) $(-> $r:ty)? $b:block)*) => {$(
        $(#[$m])* #[no_mangle] #[inline(never)] pub unsafe extern "C" fn $n($($a: $t),*) $(-> $r)? $b
    )*};
}
api! {
    /// an arbitrary word
    fn v_any() -> usize {
        let r = rp();
        if r.next >= r.inputs.len() {
            put(b"VDIVERGED out of inputs\n");
            _exit(7)
        }
        r.next += 1;
        r.inputs[r.next - 1]
    }
    /// an arbitrary number below n; every value is explored
    fn v_choice(n: usize) -> usize {
        let v = v_any();
        if v >= n { put(b"VDIVERGED choice\n"); _exit(7) }
        v
    }
    fn v_assume(c: bool) {
        if !c { put(b"VDIVERGED assumption\n"); _exit(7) }
    }
    fn v_assert(c: bool, id: usize) {
        if !c { vfail(b"assert", id) }
        note(id)
    }
    fn v_assert_eq(a: usize, b: usize, id: usize) {
        if a != b { vfail(b"assert_eq", id) }
        note(id)
    }
    fn v_assert_mem(p: *const u8, q: *const u8, n: usize, id: usize) {
        let mut i = 0;
        while i < n {
            if core::ptr::read_volatile(p.add(i)) != core::ptr::read_volatile(q.add(i)) { vfail(b"assert_mem", id) }
            i += 1;
        }
        note(id)
    }
    /// arbitrary memory content
    fn v_fill(p: *mut u8, n: usize) {
        let mut i = 0;
        while i < n {
            let v = v_any().to_le_bytes();
            let mut j = 0;
            while j < WB && i + j < n { *p.add(i + j) = v[j]; j += 1; }
            i += WB;
        }
    }
    fn v_cover(id: usize) { COVERED += 1; note(id) }
    fn v_log(v: usize) {
        note(v)
    }
    /// a stack of `size` bytes at an arbitrary 16-aligned address with arbitrary content; out = [base, limit]
    fn v_stack_new(size: usize, out: *mut usize) -> usize {
        if VG_ON { step(false) }
        let live = LIVE;
        let r = rp();
        let i = r.stk.len();
        if i >= r.plan.len() { put(b"VDIVERGED stacks\n"); _exit(7) }
        let start = r.plan[i].0;
        let total = 128 + size + 128;
        let lo = start & !4095;
        let len = (start + total + 4095 & !4095) - lo;
        let mut m = mmap(lo as *mut u8, len, 3, 0x22 | 0x100000, -1, 0);
        if m as usize != lo {
            // the place of a released stack may be used again
            for d in r.stk.iter().filter(|d| !d.live) {
                munmap(d.map as *mut u8, d.len);
            }
            m = mmap(lo as *mut u8, len, 3, 0x22 | 0x100000, -1, 0);
        }
        if m as usize != lo { put(b"VDIVERGED mmap\n"); _exit(7) }
        for (o, b) in &r.plan[i].1 {
            core::ptr::copy_nonoverlapping(b.as_ptr(), (start + o) as *mut u8, b.len());
        }
        let (base, limit) = (start + 128 + size, start + 128);
        let s = Stk {
            map: lo, len, base, limit, live: true,
            lo: core::slice::from_raw_parts(lo as *const u8, limit - lo).to_vec(),
            hi: core::slice::from_raw_parts(base as *const u8, lo + len - base).to_vec(),
        };
        *out = s.base;
        *out.add(1) = s.limit;
        r.stk.push(s);
        LIVE = live;
        if VG_ON { step(true) }
        i
    }
    fn v_stack_check(i: usize, id: usize) {
        if VG_ON { step(false) }
        let s = &rp().stk[i];
        let mut k = 0;
        while k < s.lo.len() {
            if *((s.map + k) as *const u8) != s.lo[k] { vfail(b"stack-limit", id) }
            k += 1;
        }
        k = 0;
        while k < s.hi.len() {
            if *((s.base + k) as *const u8) != s.hi[k] { vfail(b"stack-base", id) }
            k += 1;
        }
        note(id);
        if VG_ON { step(true) }
    }
    fn v_stack_free(i: usize) {
        v_stack_check(i, 99999);
        let s = &mut rp().stk[i];
        if !s.live { vfail(b"stack-double-free", i) }
        s.live = false;
        munmap(s.map as *mut u8, s.len);
        // keep the range unusable so that late accesses fault
        mmap(s.map as *mut u8, s.len, 0, 0x22 | 0x10, -1, 0);
    }
    /// remembers all memory at and above sp_lo on the running stack, all other stacks and the heap
    fn v_snap(sp_lo: usize) {
        if SNAP_BUF == 0 { SNAP_BUF = mmap(core::ptr::null_mut(), 1 << 27, 3, 0x22, -1, 0) as usize; }
        NSNAP = 0;
        let mut at = SNAP_BUF;
        let mut add = |lo: usize, hi: usize, stk: usize| {
            if hi <= lo { return }
            core::ptr::copy_nonoverlapping(lo as *const u8, at as *mut u8, hi - lo);
            SNAPS[NSNAP] = (lo, hi, at, stk);
            NSNAP += 1;
            at += hi - lo;
        };
        add(ARENA, ARENA_NEXT, 1000);
        let mut main = true;
        for (i, s) in rp().stk.iter().enumerate() {
            if !s.live { continue }
            let mut lo = s.map;
            if sp_lo >= s.map && sp_lo < s.map + s.len { main = false; lo = sp_lo; }
            add(lo, s.map + s.len, i);
        }
        if main { add(sp_lo, MAIN_TOP, 1001) } else { add(MAIN_SP, MAIN_TOP, 1001) }
    }
    /// nothing of it changed except stack `own` (between its limit and base) and the n bytes at p
    fn v_snap_check(own: usize, p: usize, n: usize, id: usize) {
        let mut k = 0;
        while k < NSNAP {
            let (lo, hi, c, stk) = SNAPS[k];
            k += 1;
            let (mut ol, mut oh) = (0, 0);
            if stk < 1000 {
                let s = &rp().stk[stk];
                if !s.live { continue }
                if stk == own { ol = s.limit; oh = s.base }
            }
            let mut a = lo;
            while a < hi {
                let skip = (a >= ol && a < oh) || (a >= p && a < p + n);
                if !skip && *(a as *const u8) != *((c + (a - lo)) as *const u8) { vfail(b"changed-memory", id) }
                a += 1;
            }
        }
        note(id)
    }
    /// the resumer's frames on the main stack are the ones above this address while a coroutine takes snapshots
    fn v_main_sp(sp: usize) { MAIN_SP = sp; }
    fn v_expect_abort(on: usize) { rp().expect_abort = on != 0; }
    /// 1 under the symbolic engine
    fn v_symbolic() -> usize { 0 }
    /// runs f(a) on one new thread and g(b) on another (each may be absent) and waits for both
    fn v_threads(f: Option<ThreadFn>, a: *mut u8, g: Option<ThreadFn>, b: *mut u8) {
        let r = rp();
        if r.nsched >= r.sched.len() || r.sched[r.nsched].0 != 0 { put(b"VDIVERGED schedule\n"); _exit(7) }
        let first = r.sched[r.nsched].1;
        r.nsched += 1;
        ALIVE = f.is_some() as usize | (g.is_some() as usize) << 1;
        ARRIVED = 0;
        let mut h = Vec::new();
        for (i, (f, a)) in [(f, a as usize), (g, b as usize)].into_iter().enumerate() {
            if let Some(f) = f { h.push(std::thread::spawn(move || thread_main(i, f, a))) }
        }
        BATON.store(first, Ordering::Release);
        for x in h { let _ = x.join(); }
        THR_ON = false;
    }
    /// hides a value from the optimiser
    fn v_opaque(x: usize) -> usize { x }
    /// behave as under Valgrind: client requests are recorded and answered with arbitrary identifiers
    fn v_vg_mode(on: usize) {
        NVG = 0;
        if on != 0 { VG_ON = true; step(true) } else { step(false); VG_ON = false }
    }
    fn v_vg_count() -> usize { NVG }
    /// Windows: what stack i reports for the thread environment block (4 arbitrary words)
    fn v_teb_new(i: usize, out: *mut usize) { note(i); *out = 0 }
    /// Windows: stack i reports the 4 words at p
    fn v_teb_set(i: usize, p: *const usize) { note(i); note(*p) }
    /// Windows: stack i is told these values, which must be the ones it was left with
    fn v_teb_update(i: usize, limit: usize, guarantee: usize) { note(i); note(limit); note(guarantee) }
    /// Windows: the system moves the limit of the running stack
    fn v_os_grow() -> usize { 0 }
    /// Windows: the resumer's exception list is what it was
    fn v_el_same() { core::hint::black_box(&NVG); }
    /// argument f of request i; 6 = the answer
    fn v_vg_get(i: usize, f: usize) -> usize { VG[i][f] }
}

/// what the engine runs instead of the panic hook and the formatting of the message
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn v_panic_stub() -> ! {
    std::panic::resume_unwind(Box::new(VPanic))
}
pub struct VPanic;

// ---------------------------------------------------------------- unwinding up to a known frame
#[repr(C)]
struct UCtx([u8; 0]);
extern "C" {
    fn _Unwind_Backtrace(f: extern "C" fn(*mut UCtx, *mut UArg) -> i32, a: *mut UArg) -> i32;
    fn _Unwind_GetIP(c: *mut UCtx) -> usize;
    fn _Unwind_GetGR(c: *mut UCtx, r: i32) -> usize;
    fn _Unwind_GetCFA(c: *mut UCtx) -> usize;
}
struct UArg {
    stop: usize,
    out: *mut usize,
    n: usize,
    max: usize,
    ok: usize,
}
extern "C" fn ucb(c: *mut UCtx, a: *mut UArg) -> i32 {
    unsafe {
        let a = &mut *a;
        a.n += 1;
        if _Unwind_GetIP(c) == a.stop {
            #[cfg(target_arch = "x86_64")]
            let order = [3, 6, 12, 13, 14, 15];
            #[cfg(target_arch = "x86")]
            let order = [3, 5, 6, 7];
            #[cfg(not(any(target_arch = "x86_64", target_arch = "x86")))]
            let order = [0; 0];
            let mut i = 0;
            while i < order.len() {
                *a.out.add(i) = _Unwind_GetGR(c, order[i]);
                i += 1;
            }
            *a.out.add(i) = _Unwind_GetCFA(c);
            a.ok = a.n;
            return 5;
        }
        if a.n > a.max {
            return 5;
        }
        0
    }
}
/// Walks the unwind information up to the frame whose return address is `stop`. out = callee-saved registers and the stack
/// pointer of that frame. Returns 0 when the frame is not reached.
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn v_unwind(stop: usize, out: *mut usize, max: usize) -> usize {
    let mut a = UArg { stop, out, n: 0, max: max + 1, ok: 0 };
    _Unwind_Backtrace(ucb, &mut a);
    a.ok
}

// ---------------------------------------------------------------- assembly stubs
#[cfg(all(target_arch = "x86_64", not(windows)))]
mod k {
    pub const NSAVED: usize = 6;
    pub const NG: usize = 8;
    pub const SPIDX: usize = 4;
    pub const NIMG: usize = 16;
    pub const NCLOB: usize = 48;
    pub const SPALIGN: usize = 16;
    pub const RETPUSH: usize = 8;
}
#[cfg(all(target_arch = "x86", not(windows)))]
mod k {
    pub const NSAVED: usize = 4;
    pub const NG: usize = 8;
    pub const SPIDX: usize = 4;
    pub const NIMG: usize = 16;
    pub const NCLOB: usize = 96;
    pub const SPALIGN: usize = 16;
    pub const RETPUSH: usize = 4;
}
#[cfg(not(any(target_arch = "x86_64", target_arch = "x86")))]
mod cross; // asm stubs and register counts
#[cfg(not(any(target_arch = "x86_64", target_arch = "x86")))]
use cross as k;
#[cfg(windows)]
mod win;
#[cfg(windows)]
use win as k;
/// callee-saved words
pub use k::NSAVED;
/// words of a register image, index of the stack pointer in it
pub use k::{NIMG, SPIDX};
/// words v_clobber reads
pub use k::NCLOB;
/// alignment of the stack pointer at a call and bytes the call pushes
pub use k::{RETPUSH, SPALIGN};
/// register image used by the stubs: values loaded, values found afterwards, stack pointer at the call
#[repr(C, align(16))]
pub struct GBuf {
    pub inr: [usize; k::NG],
    pub outr: [usize; k::NG],
    pub sp: usize,
    pub pad: usize,
}
impl GBuf {
    pub const fn new() -> Self {
        GBuf { inr: [0; k::NG], outr: [0; k::NG], sp: 0, pad: 0 }
    }
}

#[cfg(all(target_arch = "x86_64", not(windows)))]
macro_rules! stub {
    ($n:literal) => {
        global_asm!(
            concat!(".globl ", $n), concat!(".globl ", $n, "_ret"),
            concat!(".type ", $n, ", @function"),
            concat!($n, ":"),
            ".cfi_startproc",
            "push rbp", ".cfi_adjust_cfa_offset 8", ".cfi_rel_offset rbp, 0",
            "push rbx", ".cfi_adjust_cfa_offset 8", ".cfi_rel_offset rbx, 0",
            "push r12", ".cfi_adjust_cfa_offset 8", ".cfi_rel_offset r12, 0",
            "push r13", ".cfi_adjust_cfa_offset 8", ".cfi_rel_offset r13, 0",
            "push r14", ".cfi_adjust_cfa_offset 8", ".cfi_rel_offset r14, 0",
            "push r15", ".cfi_adjust_cfa_offset 8", ".cfi_rel_offset r15, 0",
            "push rdx", ".cfi_adjust_cfa_offset 8",
            "mov rax, rdi", "mov rdi, rsi",
            "mov [rdx + 128], rsp",
            "mov rbx, [rdx]", "mov rbp, [rdx + 8]", "mov r12, [rdx + 16]", "mov r13, [rdx + 24]",
            "mov r14, [rdx + 32]", "mov r15, [rdx + 40]",
            "call rax",
            concat!($n, "_ret:"),
            "mov rcx, [rsp]",
            "mov [rcx + 64], rbx", "mov [rcx + 72], rbp", "mov [rcx + 80], r12", "mov [rcx + 88], r13",
            "mov [rcx + 96], r14", "mov [rcx + 104], r15",
            "sub rsp, [rcx + 128]", "mov [rcx + 112], rsp", "add rsp, [rcx + 128]",
            "pop rdx", ".cfi_adjust_cfa_offset -8",
            "pop r15", ".cfi_adjust_cfa_offset -8", "pop r14", ".cfi_adjust_cfa_offset -8",
            "pop r13", ".cfi_adjust_cfa_offset -8", "pop r12", ".cfi_adjust_cfa_offset -8",
            "pop rbx", ".cfi_adjust_cfa_offset -8", "pop rbp", ".cfi_adjust_cfa_offset -8",
            "ret",
            ".cfi_endproc",
            concat!(".size ", $n, ", . - ", $n),
        );
    };
}
#[cfg(all(target_arch = "x86", not(windows)))]
macro_rules! stub {
    ($n:literal) => {
        global_asm!(
            concat!(".globl ", $n), concat!(".globl ", $n, "_ret"),
            concat!(".type ", $n, ", @function"),
            concat!($n, ":"),
            ".cfi_startproc",
            "push ebp", ".cfi_adjust_cfa_offset 4", ".cfi_rel_offset ebp, 0",
            "push ebx", ".cfi_adjust_cfa_offset 4", ".cfi_rel_offset ebx, 0",
            "push esi", ".cfi_adjust_cfa_offset 4", ".cfi_rel_offset esi, 0",
            "push edi", ".cfi_adjust_cfa_offset 4", ".cfi_rel_offset edi, 0",
            "mov eax, [esp + 20]", "mov ecx, [esp + 24]", "mov edx, [esp + 28]",
            "sub esp, 12", ".cfi_adjust_cfa_offset 12",
            "mov [esp], ecx", "mov [esp + 4], edx",
            "mov [edx + 64], esp",
            "mov ebx, [edx]", "mov ebp, [edx + 4]", "mov esi, [edx + 8]", "mov edi, [edx + 12]",
            "call eax",
            concat!($n, "_ret:"),
            "mov ecx, [esp + 4]",
            "mov [ecx + 32], ebx", "mov [ecx + 36], ebp", "mov [ecx + 40], esi", "mov [ecx + 44], edi",
            "sub esp, [ecx + 64]", "mov [ecx + 48], esp", "add esp, [ecx + 64]",
            "add esp, 12", ".cfi_adjust_cfa_offset -12",
            "pop edi", ".cfi_adjust_cfa_offset -4", "pop esi", ".cfi_adjust_cfa_offset -4",
            "pop ebx", ".cfi_adjust_cfa_offset -4", "pop ebp", ".cfi_adjust_cfa_offset -4",
            "ret",
            ".cfi_endproc",
            concat!(".size ", $n, ", . - ", $n),
        );
    };
}
#[cfg(all(any(target_arch = "x86_64", target_arch = "x86"), not(windows)))]
stub!("v_call_p");
#[cfg(all(any(target_arch = "x86_64", target_arch = "x86"), not(windows)))]
stub!("v_call_c");

#[cfg(all(target_arch = "x86_64", not(windows)))]
global_asm!(
    ".globl v_sp", ".type v_sp, @function", "v_sp:", ".cfi_startproc", "mov rax, rsp", "ret", ".cfi_endproc",
    ".size v_sp, . - v_sp",
    ".globl v_fp", ".type v_fp, @function", "v_fp:", ".cfi_startproc", "mov rax, rbp", "ret", ".cfi_endproc",
    ".size v_fp, . - v_fp",
    // garbage in every register a call may clobber; rdi = 16 words + 16 xmm values
    ".globl v_clobber", ".type v_clobber, @function", "v_clobber:", ".cfi_startproc",
    "movups xmm0, [rdi + 128]", "movups xmm1, [rdi + 144]", "movups xmm2, [rdi + 160]", "movups xmm3, [rdi + 176]",
    "movups xmm4, [rdi + 192]", "movups xmm5, [rdi + 208]", "movups xmm6, [rdi + 224]", "movups xmm7, [rdi + 240]",
    "movups xmm8, [rdi + 256]", "movups xmm9, [rdi + 272]", "movups xmm10, [rdi + 288]", "movups xmm11, [rdi + 304]",
    "movups xmm12, [rdi + 320]", "movups xmm13, [rdi + 336]", "movups xmm14, [rdi + 352]", "movups xmm15, [rdi + 368]",
    "mov rax, [rdi]", "mov rcx, [rdi + 8]", "mov rdx, [rdi + 16]", "mov rsi, [rdi + 24]", "mov r8, [rdi + 32]",
    "mov r9, [rdi + 40]", "mov r10, [rdi + 48]", "mov r11, [rdi + 56]", "mov rdi, [rdi + 64]", "ret",
    ".cfi_endproc", ".size v_clobber, . - v_clobber",
    // trap with arbitrary registers: rdi = register image in the order of the trap context
    ".globl v_trap", ".globl v_trap_site", ".type v_trap, @function", "v_trap:", ".cfi_startproc",
    "mov rax, [rdi]", "mov rcx, [rdi + 8]", "mov rdx, [rdi + 16]", "mov rbx, [rdi + 24]", "mov rsp, [rdi + 32]",
    "mov rbp, [rdi + 40]", "mov rsi, [rdi + 48]", "mov r8, [rdi + 64]", "mov r9, [rdi + 72]", "mov r10, [rdi + 80]",
    "mov r11, [rdi + 88]", "mov r12, [rdi + 96]", "mov r13, [rdi + 104]", "mov r14, [rdi + 112]", "mov r15, [rdi + 120]",
    "mov rdi, [rdi + 56]",
    "v_trap_site:", "ud2", ".cfi_endproc", ".size v_trap, . - v_trap",
);
#[cfg(all(target_arch = "x86", not(windows)))]
global_asm!(
    ".globl v_sp", ".type v_sp, @function", "v_sp:", ".cfi_startproc", "mov eax, esp", "ret", ".cfi_endproc",
    ".size v_sp, . - v_sp",
    ".globl v_fp", ".type v_fp, @function", "v_fp:", ".cfi_startproc", "mov eax, ebp", "ret", ".cfi_endproc",
    ".size v_fp, . - v_fp",
    ".globl v_clobber", ".type v_clobber, @function", "v_clobber:", ".cfi_startproc", "mov eax, [esp + 4]",
    "movups xmm0, [eax + 128]", "movups xmm1, [eax + 144]", "movups xmm2, [eax + 160]", "movups xmm3, [eax + 176]",
    "movups xmm4, [eax + 192]", "movups xmm5, [eax + 208]", "movups xmm6, [eax + 224]", "movups xmm7, [eax + 240]",
    "mov ecx, [eax + 4]", "mov edx, [eax + 8]", "mov eax, [eax]", "ret",
    ".cfi_endproc", ".size v_clobber, . - v_clobber",
    ".globl v_trap", ".globl v_trap_site", ".type v_trap, @function", "v_trap:", ".cfi_startproc",
    "mov edi, [esp + 4]",
    "mov eax, [edi]", "mov ecx, [edi + 4]", "mov edx, [edi + 8]", "mov ebx, [edi + 12]", "mov esp, [edi + 16]",
    "mov ebp, [edi + 20]", "mov esi, [edi + 24]", "mov edi, [edi + 28]",
    "v_trap_site:", "ud2", ".cfi_endproc", ".size v_trap, . - v_trap",
);
extern "C-unwind" {
    /// calls f(arg) with buf.inr in the callee-saved registers, stores what they hold afterwards in buf.outr
    /// (and the change of the stack pointer in buf.outr[NSAVED])
    pub fn v_call_p(f: unsafe extern "C-unwind" fn(*mut u8), arg: *mut u8, buf: *mut GBuf);
    pub fn v_call_c(f: unsafe extern "C-unwind" fn(*mut u8), arg: *mut u8, buf: *mut GBuf);
    pub fn v_call_p_ret();
    pub fn v_call_c_ret();
    /// stack pointer at entry of the call
    pub fn v_sp() -> usize;
    pub fn v_fp() -> usize;
    pub fn v_clobber(p: *const u8);
    pub fn v_trap(p: *const usize) -> !;
    pub fn v_trap_site();
}
