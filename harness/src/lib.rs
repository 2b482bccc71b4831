//! Shared pieces of the harnesses: stacks supplied by the engine, value types of many sizes, ownership counters.
#![allow(static_mut_refs, clippy::missing_safety_doc)]
use core::mem::MaybeUninit;
use core::num::NonZeroUsize;
pub use corosensei::stack::{Stack, StackPointer};
#[cfg(windows)]
pub use corosensei::stack::StackTebFields;
pub use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
pub use vrt::*;

/// A stack of the requested size at an arbitrary legal address with arbitrary previous content, framed by canary bytes.
pub struct VStack {
    pub base: usize,
    pub limit: usize,
    pub id: usize,
    pub drops: Option<&'static Cnt>,
    #[cfg(windows)]
    pub teb: [usize; 4],
}
impl VStack {
    pub fn new(size: usize) -> VStack {
        let mut o = [0usize; 2];
        let id = unsafe { v_stack_new(size, o.as_mut_ptr()) };
        VStack {
            base: o[0],
            limit: o[1],
            id,
            drops: None,
            #[cfg(windows)]
            teb: {
                let mut t = [0usize; 4];
                unsafe { v_teb_new(id, t.as_mut_ptr()) };
                t
            },
        }
    }
    pub fn counted(size: usize, c: &'static Cnt) -> VStack {
        let mut s = VStack::new(size);
        s.drops = Some(c);
        s
    }
    pub fn check(&self, id: usize) {
        unsafe { v_stack_check(self.id, id) }
    }
    pub fn has(&self, a: usize) -> bool {
        a >= self.limit && a < self.base
    }
}
pub fn stack_check(id: usize, n: usize) {
    unsafe { v_stack_check(id, n) }
}
unsafe impl Stack for VStack {
    fn base(&self) -> StackPointer {
        NonZeroUsize::new(self.base).unwrap()
    }
    fn limit(&self) -> StackPointer {
        NonZeroUsize::new(self.limit).unwrap()
    }
    #[cfg(windows)]
    fn teb_fields(&self) -> StackTebFields {
        let t = self.teb;
        StackTebFields { StackBase: t[0], StackLimit: t[1], DeallocationStack: t[2], GuaranteedStackBytes: t[3] }
    }
    #[cfg(windows)]
    fn update_teb_fields(&mut self, stack_limit: usize, guaranteed_stack_bytes: usize) {
        unsafe { v_teb_update(self.id, stack_limit, guaranteed_stack_bytes) };
        self.teb[1] = stack_limit;
        self.teb[3] = guaranteed_stack_bytes;
    }
}
/// stacks made of another one
#[macro_export]
macro_rules! teb_of {
    ($($f:tt)+) => {
        #[cfg(windows)]
        fn teb_fields(&self) -> StackTebFields { self.$($f)+.teb_fields() }
        #[cfg(windows)]
        fn update_teb_fields(&mut self, l: usize, g: usize) { self.$($f)+.update_teb_fields(l, g) }
    };
}
impl Drop for VStack {
    fn drop(&mut self) {
        unsafe { v_stack_free(self.id) }
        if let Some(c) = self.drops {
            c.drop_.set(c.drop_.get() + 1);
            c.order.set(tick());
        }
    }
}

// ---------------------------------------------------------------- assertions
#[inline(always)]
pub fn ck(c: bool, id: usize) {
    unsafe { v_assert(c, id) }
}
#[inline(always)]
pub fn ckeq(a: usize, b: usize, id: usize) {
    unsafe { v_assert_eq(a, b, id) }
}
pub fn cover(id: usize) {
    unsafe { v_cover(id) }
}
pub fn log(v: usize) {
    unsafe { v_log(v) }
}
pub fn any() -> usize {
    unsafe { v_any() }
}
pub fn choice(n: usize) -> usize {
    unsafe { v_choice(n) }
}
pub fn assume(c: bool) {
    unsafe { v_assume(c) }
}
pub fn ckmem<T>(a: &T, b: &T, id: usize) {
    unsafe { v_assert_mem(a as *const T as *const u8, b as *const T as *const u8, core::mem::size_of::<T>(), id) }
}
pub fn expect_abort(on: bool) {
    unsafe { v_expect_abort(on as usize) }
}

static mut TICK: usize = 0;
/// global event counter, to compare orders of events
pub fn tick() -> usize {
    unsafe {
        TICK += 1;
        TICK
    }
}

/// remembers all memory except the running stack below sp_lo
pub fn snap(sp_lo: usize) {
    unsafe { v_snap(sp_lo) }
}
/// nothing changed except the usable part of one stack and one object
pub fn ck_snap<T>(own: usize, excl: *const T, id: usize) {
    unsafe { v_snap_check(own, excl as usize, core::mem::size_of::<T>(), id) }
}
/// the current content of a local variable
pub fn vol<T>(p: &T) -> T {
    unsafe { core::ptr::read_volatile(p) }
}
pub const NO_STACK: usize = 999;

// ---------------------------------------------------------------- plain data of any size and alignment
pub unsafe trait Val: Sized + 'static {
    fn any() -> Self {
        let mut m = MaybeUninit::<Self>::uninit();
        unsafe {
            v_fill(m.as_mut_ptr() as *mut u8, core::mem::size_of::<Self>());
            m.assume_init()
        }
    }
    fn dup(&self) -> Self {
        unsafe { core::ptr::read(self) }
    }
}
#[derive(Clone, Copy)]
#[repr(C)]
pub struct B<const N: usize>(pub [u8; N]);
unsafe impl<const N: usize> Val for B<N> {}
macro_rules! aligned {
    ($($n:ident $a:literal),*) => {$(
        #[derive(Clone, Copy)] #[repr(C, align($a))] pub struct $n<const N: usize>(pub [u8; N]);
        unsafe impl<const N: usize> Val for $n<N> {}
    )*};
}
aligned!(A2 2, A4 4, A8 8, A16 16, A32 32, A64 64, A128 128, A256 256, A512 512, A1024 1024);
unsafe impl Val for usize {}
unsafe impl Val for u8 {}
unsafe impl Val for u16 {}
unsafe impl Val for u32 {}
unsafe impl Val for u64 {}
unsafe impl Val for u128 {}
unsafe impl Val for () {}
unsafe impl<T: Val, const N: usize> Val for [T; N] {}

// ---------------------------------------------------------------- ownership
use core::cell::Cell;
/// counts what happens to a group of objects
pub struct Cnt {
    pub new: Cell<usize>,
    pub drop_: Cell<usize>,
    pub order: Cell<usize>,
}
unsafe impl Sync for Cnt {}
impl Cnt {
    pub const fn new() -> Cnt {
        Cnt { new: Cell::new(0), drop_: Cell::new(0), order: Cell::new(0) }
    }
    pub fn made(&self) -> usize {
        self.new.get()
    }
    pub fn dropped(&self) -> usize {
        self.drop_.get()
    }
    pub fn last(&self) -> usize {
        self.order.get()
    }
}
/// an object that reports its destruction and carries a value
pub struct Tok<T: 'static = ()> {
    pub c: &'static Cnt,
    pub v: T,
}
impl<T> Tok<T> {
    pub fn new(c: &'static Cnt, v: T) -> Tok<T> {
        c.new.set(c.new.get() + 1);
        Tok { c, v }
    }
}
impl<T> Drop for Tok<T> {
    fn drop(&mut self) {
        self.c.drop_.set(self.c.drop_.get() + 1);
        self.c.order.set(tick());
    }
}
#[macro_export]
macro_rules! cnt {
    () => {{
        static C: $crate::Cnt = $crate::Cnt::new();
        &C
    }};
}

/// true when the stack pointer at a call made here obeys the platform ABI
#[inline(always)]
pub fn aligned_call() -> bool {
    unsafe { (v_sp() + RETPUSH) % SPALIGN == 0 }
}

/// the object at p has an address its type allows
#[inline(always)]
pub fn ck_align<T>(p: *const T, id: usize) {
    unsafe { ckeq(v_opaque(p as usize) & (v_opaque(core::mem::align_of::<T>()) - 1), 0, id) }
}

// ---------------------------------------------------------------- register images
pub fn garbage() -> GBuf {
    let mut g = GBuf::new();
    unsafe { v_fill(g.inr.as_mut_ptr() as *mut u8, NSAVED * WB) };
    g
}
/// callee-saved registers and stack pointer survived the call
pub fn ck_saved(g: &GBuf, id: usize) {
    let mut i = 0;
    while i < NSAVED {
        ckeq(g.outr[i], g.inr[i], id + i);
        i += 1;
    }
    ckeq(g.outr[NSAVED], 0, id + NSAVED);
}
unsafe extern "C-unwind" fn tramp<F: FnOnce()>(p: *mut u8) {
    let f = (*(p as *mut Option<F>)).take();
    if let Some(f) = f {
        f()
    }
}
/// runs f with arbitrary values in all callee-saved registers and checks that they come back (parent side)
#[inline(never)]
pub fn guard_p<F: FnOnce()>(f: F, id: usize) {
    let mut g = garbage();
    let mut f = Some(f);
    unsafe { v_call_p(tramp::<F>, &mut f as *mut _ as *mut u8, &mut g) }
    ck_saved(&g, id);
}
/// the same for the coroutine side
#[inline(never)]
pub fn guard_c<F: FnOnce()>(f: F, id: usize) {
    let mut g = garbage();
    let mut f = Some(f);
    unsafe { v_call_c(tramp::<F>, &mut f as *mut _ as *mut u8, &mut g) }
    ck_saved(&g, id);
}

// ---------------------------------------------------------------- traps
pub use corosensei::trap::{CoroutineTrapHandler, TrapHandlerRegs};
/// installs the registers a trap handler asked for
#[cfg(any(target_arch = "x86_64", target_arch = "x86"))]
#[inline(always)]
pub unsafe fn set_ctx(c: *mut usize, r: &TrapHandlerRegs) {
    #[cfg(target_arch = "x86_64")]
    {
        let TrapHandlerRegs { rip, rsp, rbp, rdi, rsi } = *r;
        *c.add(16) = rip as usize;
        *c.add(4) = rsp as usize;
        *c.add(5) = rbp as usize;
        *c.add(7) = rdi as usize;
        *c.add(6) = rsi as usize;
    }
    #[cfg(target_arch = "x86")]
    {
        #[cfg(not(windows))]
        let TrapHandlerRegs { eip, esp, ebp, ecx, edx } = *r;
        #[cfg(windows)]
        let TrapHandlerRegs { eip, esp, ebp, eax, ebx, ecx, edx } = *r;
        #[cfg(windows)]
        {
            *c.add(0) = eax as usize;
            *c.add(3) = ebx as usize;
        }
        *c.add(8) = eip as usize;
        *c.add(4) = esp as usize;
        *c.add(5) = ebp as usize;
        *c.add(1) = ecx as usize;
        *c.add(2) = edx as usize;
    }
}
#[cfg(not(any(target_arch = "x86_64", target_arch = "x86")))]
#[inline(always)]
pub unsafe fn set_ctx(c: *mut usize, r: &TrapHandlerRegs) {
    #[cfg(target_arch = "aarch64")]
    {
        let TrapHandlerRegs { pc, sp, x0, x1, x29, lr } = *r;
        *c.add(0) = x0 as usize;
        *c.add(1) = x1 as usize;
        *c.add(29) = x29 as usize;
        *c.add(30) = lr as usize;
        *c.add(31) = sp as usize;
        *c.add(32) = pc as usize;
    }
    #[cfg(target_arch = "arm")]
    {
        let TrapHandlerRegs { pc, r0, r1, r7, r11, r13, r14, cpsr_thumb, cpsr_endian } = *r;
        *c.add(0) = r0 as usize;
        *c.add(1) = r1 as usize;
        *c.add(7) = r7 as usize;
        *c.add(11) = r11 as usize;
        *c.add(13) = r13 as usize;
        *c.add(14) = r14 as usize;
        // the last word stands for the program counter and the state bits of the CPSR
        ck(!cpsr_endian && pc & 1 == 0, 77777);
        *c.add(16) = pc as usize | cpsr_thumb as usize;
    }
    #[cfg(any(target_arch = "riscv32", target_arch = "riscv64"))]
    {
        let TrapHandlerRegs { pc, ra, sp, a0, a1, s0 } = *r;
        *c.add(1) = ra;
        *c.add(2) = sp;
        *c.add(8) = s0;
        *c.add(10) = a0;
        *c.add(11) = a1;
        *c.add(32) = pc;
    }
    #[cfg(target_arch = "loongarch64")]
    {
        let TrapHandlerRegs { pc, sp, a0, a1, fp, ra } = *r;
        *c.add(1) = ra as usize;
        *c.add(3) = sp as usize;
        *c.add(4) = a0 as usize;
        *c.add(5) = a1 as usize;
        *c.add(22) = fp as usize;
        *c.add(32) = pc as usize;
    }
}
/// executes a faulting instruction with the given stack pointer and arbitrary values in all other registers
#[inline(never)]
pub fn trap_now(sp: usize) -> ! {
    let mut g = [0usize; NIMG];
    unsafe {
        v_fill(g.as_mut_ptr() as *mut u8, NIMG * WB);
        g[SPIDX] = sp;
        v_trap(g.as_ptr())
    }
}

pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, Box<dyn std::any::Any + Send>> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
}
/// raises a panic without running the panic hook
pub fn throw<T: 'static + Send>(v: T) -> ! {
    std::panic::resume_unwind(Box::new(v))
}

pub type Scen = (&'static str, unsafe extern "C-unwind" fn());
/// Declares the scenarios of a harness and the native replay entry point.
#[macro_export]
macro_rules! scenarios {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        mod entry { $(
            $(#[$m])* #[no_mangle] pub unsafe extern "C-unwind" fn $n() { super::$n() }
        )* }
        $( $(#[$m])* #[inline(never)] fn $n() $b )*
        fn main() {
            let a: Vec<String> = std::env::args().collect();
            let t: &[$crate::Scen] = &[$( $(#[$m])* (stringify!($n), entry::$n) ),*];
            if a.len() < 3 {
                for s in t { println!("{}", s.0); }
                return;
            }
            unsafe {
                $crate::replay_init(&a[2], $crate::v_sp());
                for s in t {
                    if s.0 == a[1] { (s.1)(); $crate::finish_ok() }
                }
            }
            std::process::exit(9)
        }
    };
}
