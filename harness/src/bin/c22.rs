//! C22: Windows. The thread environment block describes the running stack, also when the system moves its limit; a stack is left
//! with the values of its last use. (v_teb_*, v_os_grow and v_el_same do nothing elsewhere. The block is checked against the
//! stack the code runs on by every primitive and at every throw.)
#![allow(static_mut_refs, dead_code)]
use hx::*;

static CAP: Cnt = Cnt::new();
static OBJ: Cnt = Cnt::new();
static mut H: usize = 0;
static mut SETUP: Option<unsafe fn(usize) -> TrapHandlerRegs> = None;
unsafe extern "C" fn on_trap(ctx: *mut usize) {
    let r = (SETUP.unwrap())(H);
    set_ctx(ctx, &r);
}

/// a stack, or another object, that the caller knows to be there long enough
fn lend<T>(s: &mut T) -> &'static mut T {
    unsafe { &mut *(s as *mut T) }
}
/// the system moves the limit of the running stack, the program changes the guarantee (any values)
#[inline(never)]
fn grow() {
    unsafe { v_os_grow() };
    log(0);
}
#[inline(never)]
fn at(n: usize) {
    log(n);
}
#[inline(never)]
fn main_as_before() {
    unsafe { v_el_same() };
    log(0);
}
struct Grows(usize);
impl Drop for Grows {
    fn drop(&mut self) {
        log(self.0);
        grow();
    }
}

/// the stack is fit for another coroutine and another call
fn again<S: Stack>(st: &mut S) {
    let mut co = Coroutine::<usize, usize, usize, &mut S>::with_stack(st, |s, x| {
        at(101);
        grow();
        let y = s.suspend(x);
        at(102);
        grow();
        y
    });
    let x = any();
    ck(co.resume(x) == CoroutineResult::Yield(x), 90);
    main_as_before();
    ck(co.resume(x) == CoroutineResult::Return(x), 91);
    main_as_before();
    let st = co.into_stack();
    ckeq(on_stack(&mut *st, || { at(103); grow(); x }), x, 92);
    main_as_before();
    ckeq(on_stack(&mut *st, || { at(104); x }), x, 93);
    main_as_before();
}

/// 0 return, 1 trap, 2 reset, 3 reset before it started, 4 panic, 5 force_unwind, 6 dropped, 7 dropped before it started,
/// 8 force_unwind before it started
fn life(n: usize, end: usize, big: bool) {
    let mut st = VStack::new(65536);
    let g = [any(); 40];
    let mut co = Coroutine::<usize, usize, usize, &mut VStack>::with_stack(&mut st, move |s, x| {
        let _g = Grows(1);
        at(2);
        grow();
        if big {
            let g = g;
            core::hint::black_box(&g);
        }
        let mut x = x;
        let mut k = 0;
        while k < n {
            x = s.suspend(x);
            at(3);
            grow();
            k += 1;
        }
        match end {
            0 => x,
            1 => trap_now(unsafe { v_sp() } & !15),
            #[cfg(feature = "unwind")]
            4 => throw(x),
            _ => s.suspend(x),
        }
    });
    let x = any();
    let fresh = end == 3 || end == 7 || end == 8;
    if !fresh {
        grow();
        let mut k = 0;
        while k < n {
            ck(co.resume(x) == CoroutineResult::Yield(x), 10);
            main_as_before();
            grow();
            k += 1;
        }
        match end {
            0 => ck(co.resume(x) == CoroutineResult::Return(x), 11),
            1 => {
                let h = co.trap_handler();
                unsafe fn setup(h: usize) -> TrapHandlerRegs {
                    (*(h as *const CoroutineTrapHandler<usize>)).setup_trap_handler(|| { at(4); grow(); 77 })
                }
                unsafe {
                    TRAP_HANDLER = Some(on_trap);
                    H = &h as *const _ as usize;
                    SETUP = Some(setup);
                }
                ck(co.resume(x) == CoroutineResult::Return(77), 12);
            }
            #[cfg(feature = "unwind")]
            4 => ck(catch(|| co.resume(x)).is_err(), 13),
            _ => ck(co.resume(x) == CoroutineResult::Yield(x), 14),
        }
    } else {
        grow();
    }
    main_as_before();
    match end {
        2 | 3 => unsafe { co.force_reset() },
        #[cfg(feature = "unwind")]
        5 | 8 => co.force_unwind(),
        _ => {}
    }
    main_as_before();
    if end != 6 && end != 7 && choice(2) == 1 {
        let s = co.into_stack();
        again(s);
        cover(100);
    } else {
        drop(co);
        again(&mut st);
        cover(end);
    }
    cover(200 + n);
}
const ENDS: usize = if cfg!(feature = "unwind") { 9 } else { 4 };

struct Boom(usize);
impl Drop for Boom {
    fn drop(&mut self) {
        at(5);
        grow();
        #[cfg(feature = "unwind")]
        if self.0 != 0 {
            throw(self.0)
        }
    }
}

/// the memory calls of the system, answered within what it may do
#[cfg(windows)]
mod sys {
    use super::*;
    pub use corosensei::stack::{DefaultStack, MIN_STACK_SIZE, STACK_ALIGNMENT};
    pub const TOP: usize = if WB == 8 { 0x7fff_ffff_0000u64 as usize } else { 0xf000_0000 };
    pub const COMMIT: usize = 0x1000;
    pub const RESERVE: usize = 0x2000;
    pub const RELEASE: usize = 0x8000;
    pub const RW: usize = 4;
    pub const GUARD: usize = 0x100;
    pub const SOFT: usize = if WB == 8 { 2 } else { 1 };
    pub struct Sys {
        pub page: usize,
        /// as the system answers (0: the call failed)
        pub guarantee: usize,
        pub faults: bool,
        pub failed: usize,
        /// the reservation
        pub at: usize,
        pub len: usize,
        pub live: bool,
        pub freed: usize,
        pub ncommit: usize,
        pub commit: [(usize, usize, usize); 4],
        /// memory to really use
        pub real: Option<(usize, usize, usize)>,
        pub at_free: fn(),
    }
    pub static mut SYS: Sys = Sys { page: 4096, guarantee: 0, faults: false, failed: 0, at: 0, len: 0, live: false, freed: 0, ncommit: 0,
        commit: [(0, 0, 0); 4], real: None, at_free: || {} };
    impl Sys {
        fn fails(&mut self) -> bool {
            let f = self.faults && choice(2) == 1;
            self.failed += f as usize;
            f
        }
        /// how the page of a is committed (0: reserved only)
        pub fn prot(&self, a: usize) -> usize {
            let mut p = 0;
            let mut k = 0;
            while k < self.ncommit {
                let (lo, hi, q) = self.commit[k];
                if a >= lo && a < hi { p = q }
                k += 1;
            }
            p
        }
    }
    #[no_mangle]
    pub unsafe extern "system" fn v_VirtualAlloc(a: usize, len: usize, ty: u32, prot: u32) -> usize {
        let (ty, prot) = (ty as usize, prot as usize);
        let m = SYS.page - 1;
        if SYS.fails() { return 0 }
        if ty == RESERVE {
            ck(!SYS.live && a == 0, 300);
            ck(len != 0, 301);
            let r = match SYS.real {
                Some((top, n, _)) => { assume(len <= n); top - len }
                None => {
                    let r = any();
                    assume(r & m == 0);
                    assume(r & 0xffff == 0);
                    assume(r >= 0x10000);
                    assume(len <= TOP - 0x10000);
                    assume(r <= TOP - len);
                    r
                }
            };
            SYS.at = r;
            SYS.len = len;
            SYS.live = true;
            SYS.ncommit = 0;
            r
        } else {
            ckeq(ty, COMMIT, 303);
            ck(SYS.live && len != 0, 304);
            // every page with a byte of the range, all within the reservation
            let (lo, hi) = if SYS.real.is_some() { (a, a + len) } else { (a & !m, (a + len + m) & !m) };
            ck(a >= SYS.at && a - SYS.at <= SYS.len, 305);
            ck(len <= SYS.len - (a - SYS.at), 306);
            ck(SYS.ncommit < 4, 307);
            SYS.commit[SYS.ncommit] = (lo, hi, prot);
            SYS.ncommit += 1;
            a
        }
    }
    #[no_mangle]
    pub unsafe extern "system" fn v_VirtualFree(a: usize, len: usize, ty: u32) -> i32 {
        ck(SYS.live, 310);
        ckeq(a, SYS.at, 311);
        ckeq(len, 0, 312);
        ckeq(ty as usize, RELEASE, 313);
        (SYS.at_free)();
        SYS.live = false;
        SYS.freed += 1;
        if let Some((_, _, id)) = SYS.real { v_stack_free(id) }
        1
    }
    #[no_mangle]
    pub unsafe extern "system" fn v_GetSystemInfo(p: *mut u32) {
        *p.add(1) = SYS.page as u32;
    }
    #[no_mangle]
    pub unsafe extern "system" fn v_SetThreadStackGuarantee(p: *mut u32) -> i32 {
        // only asked for
        ckeq(*p as usize, 0, 314);
        if SYS.faults && choice(2) == 1 { SYS.guarantee = 0; return 0 }
        let g = if SYS.real.is_some() { 0 } else { any() };
        assume(g <= 1 << 28);
        SYS.guarantee = g;
        *p = g as u32;
        1
    }
    pub fn any_page() -> usize {
        keep();
        4096 << (4 * choice(3))
    }
    /// (the engine calls them)
    pub fn keep() {
        core::hint::black_box((v_VirtualAlloc as *const u8, v_VirtualFree as *const u8, v_GetSystemInfo as *const u8, v_SetThreadStackGuarantee as *const u8));
    }
    /// the stack that was made
    pub fn judge(s: &DefaultStack, size: usize) {
        let Sys { page, guarantee, at, len, .. } = unsafe { &SYS };
        let (page, guarantee, at, len) = (*page, *guarantee, *at, *len);
        let t = s.teb_fields();
        ckeq(s.limit().get(), at, 320);
        ckeq(t.DeallocationStack, at, 321);
        ckeq(s.base().get(), t.StackBase, 322);
        let (b, l, g) = (t.StackBase, t.StackLimit, t.GuaranteedStackBytes);
        ckeq(b % STACK_ALIGNMENT, 0, 323);
        // the base is the end of the reservation
        ck(b > at && b - at == (len + page - 1) & !(page - 1), 324);
        ckeq(l & (page - 1), 0, 325);
        ckeq(g & (page - 1), 0, 326);
        ck(g >= guarantee && g >= page, 327);
        let extra = SOFT * page + g;
        ck(l < b && l > at && l - at > extra, 328);
        ck(b - l >= MIN_STACK_SIZE, 329);
        // a hard guard page is left at the end
        ck(l - at - extra >= page, 330);
        // what can be used when the guard pages have moved all the way down
        ck(b - at - extra - page >= size, 331);
        let a = any();
        assume(a >= at && a < b);
        let p = unsafe { SYS.prot(a) };
        if a >= l {
            ckeq(p, RW, 332);
            cover(1);
        } else if l - a <= extra {
            ckeq(p, RW | GUARD, 333);
            cover(2);
        } else {
            ckeq(p, 0, 334);
            cover(3);
        }
    }
}
#[cfg(windows)]
use sys::*;

scenarios! {
    #[cfg(windows)]
    fn default_size() {
        let size = any();
        unsafe { SYS.page = any_page(); SYS.faults = true }
        match catch(|| DefaultStack::new(size)) {
            Ok(Ok(mut s)) => {
                unsafe { ckeq(SYS.failed, 0, 340); ck(SYS.live, 341); ckeq(SYS.freed, 0, 342) }
                judge(&s, size);
                // whatever was recorded about it since
                unsafe { SYS.faults = false; s.update_teb_fields(any(), any()) }
                drop(s);
                unsafe { ck(!SYS.live, 343); ckeq(SYS.freed, 1, 344) }
            }
            Ok(Err(_)) => {
                unsafe { ckeq(SYS.failed, 1, 345); ck(!SYS.live, 346) }
                cover(4);
            }
            Err(_) => {
                ck(size > usize::MAX - (1 << 29), 347);
                unsafe { ck(!SYS.live, 348); ckeq(SYS.freed, 0, 349) }
                cover(5);
            }
        }
    }
    #[cfg(windows)]
    fn default_default() {
        unsafe { SYS.page = any_page() }
        let s = DefaultStack::default();
        judge(&s, 1 << 20);
        drop(s);
        unsafe { ck(!SYS.live, 343); ckeq(SYS.freed, 1, 344) }
    }
    /// a default stack in use
    #[cfg(windows)]
    fn default_run() {
        keep();
        let n = 262144;
        let m = VStack::new(n);
        unsafe { SYS.real = Some((m.base, n, m.id)) }
        let id = m.id;
        core::mem::forget(m);
        unsafe { SYS.faults = false }
        // (a guarantee of up to a page)
        let s = DefaultStack::new(65536);
        let mut s = s.ok().unwrap();
        let t = s.teb_fields();
        unsafe { v_teb_set(id, &[t.StackBase, t.StackLimit, t.DeallocationStack, t.GuaranteedStackBytes] as *const usize) }
        again(&mut s);
        let end = choice(3);
        let tok = Tok::new(&CAP, end);
        unsafe { SYS.at_free = || ckeq(CAP.dropped(), 1, 350) }
        let mut co = Coroutine::<usize, usize, usize, DefaultStack>::with_stack(s, move |s, x| {
            let tok = tok;
            at(110);
            grow();
            if tok.v == 0 { x } else { s.suspend(x) }
        });
        let x = any();
        if end < 2 {
            ckeq(match co.resume(x) { CoroutineResult::Yield(y) => y, CoroutineResult::Return(y) => y }, x, 351);
        }
        if end == 0 && choice(2) == 1 {
            let mut s = co.into_stack();
            again(&mut s);
            ckeq(unsafe { SYS.freed }, 0, 352);
            drop(s);
            cover(5);
        } else {
            drop(co);
        }
        unsafe { ck(!SYS.live, 353); ckeq(SYS.freed, 1, 354) }
        cover(end);
    }
    fn life1() {
        life(choice(2), choice(ENDS), false);
    }
    fn life_big() {
        life(choice(3), choice(ENDS), true);
    }

    fn calls() {
        let st = VStack::new(65536);
        let mut st2 = VStack::new(65536);
        let mut st3 = VStack::new(65536);
        let (p2, p3) = (lend(&mut st2), lend(&mut st3));
        let c = [choice(4), choice(4)];
        let mut co = Coroutine::<usize, usize, usize, VStack>::with_stack(st, move |s, x| {
            let mut x = x;
            let mut i = 0;
            while i < 2 {
                at(10);
                grow();
                match c[i] {
                    // on the resumer's stack, whose limit moves meanwhile
                    0 => s.on_parent_stack(|| { at(11); grow(); }),
                    1 => on_stack(&mut *p2, || {
                        at(12);
                        grow();
                        on_stack(&mut *p3, || { at(13); grow(); });
                        at(12);
                    }),
                    // suspended while running elsewhere
                    2 => on_stack(&mut *p2, || {
                        at(14);
                        grow();
                        ckeq(s.suspend(x), x, 20);
                        at(15);
                        grow();
                        on_stack(&mut *p3, || {
                            ckeq(s.suspend(x), x, 20);
                            at(15);
                            grow();
                            s.on_parent_stack(|| { at(11); grow(); });
                            at(15);
                        });
                        at(16);
                    }),
                    // the resumer's stack, and from there another one
                    _ => s.on_parent_stack(|| {
                        at(17);
                        grow();
                        on_stack(&mut *p2, || { at(18); grow(); });
                        at(17);
                        grow();
                    }),
                }
                at(19);
                x = s.suspend(x);
                i += 1;
            }
            x
        });
        let x = any();
        let mut r = 0;
        loop {
            let v = if choice(2) == 0 || r > 2 {
                let v = co.resume(x);
                main_as_before();
                v
            } else {
                // resumed from another stack
                let mut o = VStack::new(65536);
                let v = on_stack(&mut o, || { at(21); grow(); let v = co.resume(x); at(22); grow(); v });
                main_as_before();
                ckeq(on_stack(&mut o, || { at(21); x }), x, 23);
                v
            };
            r += 1;
            match v {
                CoroutineResult::Yield(y) => ckeq(y, x, 24),
                CoroutineResult::Return(y) => { ckeq(y, x, 25); break }
            }
        }
        main_as_before();
        let mut st = co.into_stack();
        again(&mut st);
        cover(c[0] * 4 + c[1]);
    }
    /// reset while suspended in a call on another stack
    fn reset_elsewhere() {
        let mut st = VStack::new(65536);
        let mut st2 = VStack::new(65536);
        let p2 = lend(&mut st2);
        let mut co = Coroutine::<usize, usize, usize, &mut VStack>::with_stack(&mut st, move |s, x| {
            on_stack(&mut *p2, || { at(30); grow(); s.suspend(x) })
        });
        let x = any();
        ck(co.resume(x) == CoroutineResult::Yield(x), 31);
        unsafe { co.force_reset() }
        main_as_before();
        drop(co);
        again(&mut st);
        cover(1);
    }
    /// nested coroutines, all growing, resumed from one another
    fn nest() {
        let (mut sa, mut sb) = (VStack::new(65536), VStack::new(65536));
        let x = any();
        let out = choice(3);
        let mut b = Coroutine::<usize, usize, usize, &mut VStack>::with_stack(lend(&mut sb), move |s, x| {
            at(41);
            grow();
            let x = s.suspend(x);
            at(42);
            grow();
            s.on_parent_stack(|| { at(43); grow(); });
            at(44);
            let x = s.suspend(x);
            at(45);
            grow();
            x
        });
        if out == 0 {
            // first from the main stack
            ck(b.resume(x) == CoroutineResult::Yield(x), 40);
            main_as_before();
        }
        {
            let b = lend(&mut b);
            let mut a = Coroutine::<usize, usize, usize, &mut VStack>::with_stack(&mut sa, move |s, x| {
                at(46);
                grow();
                ck(b.resume(x) == CoroutineResult::Yield(x), 47);
                at(48);
                let x = s.suspend(x);
                at(49);
                grow();
                if out == 0 {
                    ck(b.resume(x) == CoroutineResult::Return(x), 50);
                } else {
                    ck(b.resume(x) == CoroutineResult::Yield(x), 51);
                }
                at(52);
                x
            });
            ck(a.resume(x) == CoroutineResult::Yield(x), 53);
            main_as_before();
            grow();
            ck(a.resume(x) == CoroutineResult::Return(x), 54);
            main_as_before();
        }
        if out != 0 {
            ck(b.resume(x) == CoroutineResult::Return(x), 55);
            main_as_before();
        }
        drop(b);
        if out == 2 { again(&mut sb); again(&mut sa); } else { again(&mut sa); again(&mut sb); }
        cover(out);
    }
    /// panics that cross the boundaries, from stacks that moved
    #[cfg(feature = "unwind")]
    fn panics() {
        let mut st = VStack::new(65536);
        let mut st2 = VStack::new(65536);
        let p2 = lend(&mut st2);
        let w = choice(4);
        let x = any();
        let mut co = Coroutine::<usize, usize, usize, &mut VStack>::with_stack(&mut st, move |s, x| {
            let _g = Grows(60);
            grow();
            match w {
                0 => on_stack(&mut *p2, || { let _g = Grows(61); grow(); throw(x) }),
                1 => s.on_parent_stack(|| { let _g = Grows(62); grow(); throw(x) }),
                2 => {
                    let r = catch(|| on_stack(&mut *p2, || { let _g = Grows(63); grow(); throw(x) }));
                    ck(r.is_err(), 64);
                    at(65);
                    x
                }
                _ => {
                    let r = catch(|| s.on_parent_stack(|| { let _g = Grows(63); grow(); throw(x) }));
                    ck(r.is_err(), 64);
                    at(65);
                    x
                }
            }
        });
        let r = catch(|| co.resume(x));
        main_as_before();
        ckeq(r.is_err() as usize, (w < 2) as usize, 66);
        let st = co.into_stack();
        again(st);
        again(&mut st2);
        cover(w);
    }
    /// forced unwinding: destructors run on the coroutine's stack, on a called one, on the resumer's
    #[cfg(feature = "unwind")]
    fn forced() {
        let mut st = VStack::new(65536);
        let mut st2 = VStack::new(65536);
        let mut st3 = VStack::new(65536);
        let (p2, p3) = (lend(&mut st2), lend(&mut st3));
        let w = choice(4);
        let x = any();
        struct Runs(&'static mut VStack);
        impl Drop for Runs {
            fn drop(&mut self) {
                grow();
                on_stack(&mut *self.0, || { at(70); grow(); });
                let mut co = Coroutine::<(), (), (), &mut VStack>::with_stack(&mut *self.0, |s, ()| { at(71); grow(); s.suspend(()); at(72) });
                let _ = co.resume(());
                at(73);
                grow();
            }
        }
        let mut co = Coroutine::<usize, usize, usize, &mut VStack>::with_stack(&mut st, move |s, x| {
            let _g = Grows(60);
            let _r = Runs(p3);
            grow();
            match w {
                0 => on_stack(&mut *p2, || { let _g = Grows(61); grow(); s.suspend(x) }),
                1 => s.suspend(x),
                2 => { let _g = catch(|| { s.suspend(x); }); at(74); grow(); std::panic::resume_unwind(_g.err().unwrap()) }
                _ => { s.on_parent_stack(|| { grow() }); s.suspend(x) }
            }
        });
        ck(co.resume(x) == CoroutineResult::Yield(x), 75);
        main_as_before();
        grow();
        if choice(2) == 0 {
            drop(co);
        } else {
            on_stack(&mut VStack::new(65536), || { at(76); grow(); co.force_unwind(); at(77) });
            main_as_before();
            let _ = co.into_stack();
        }
        main_as_before();
        again(&mut st);
        again(&mut st2);
        again(&mut st3);
        cover(w);
    }
    /// destructors of captured objects of a coroutine that was not started, also when they panic
    fn unstarted() {
        let mut st = VStack::new(65536);
        let mut b = Boom(0);
        let w = choice(3);
        #[cfg(feature = "unwind")]
        if w == 1 { b.0 = any(); assume(b.0 != 0) }
        let p = b.0 != 0;
        let mut co = Coroutine::<usize, usize, usize, &mut VStack>::with_stack(&mut st, move |_, x| { let _b = b; x });
        #[cfg(feature = "unwind")]
        {
            let r = if w == 2 {
                let mut o = VStack::new(65536);
                let r = catch(|| on_stack(&mut o, || co.force_unwind()));
                again(&mut o);
                r
            } else { catch(|| co.force_unwind()) };
            ck(r.is_err() == p, 80);
            main_as_before();
        }
        drop(co);
        let _ = p;
        main_as_before();
        again(&mut st);
        cover(w);
    }
}
