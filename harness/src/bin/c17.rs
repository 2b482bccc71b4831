//! C17: trap recovery forces a clean return from any machine state.
#![allow(static_mut_refs)]
use hx::*;

type Co<R> = Coroutine<usize, usize, R, VStack>;
static CAP: Cnt = Cnt::new();
static RES: Cnt = Cnt::new();
static mut RUNS: usize = 0;
static mut BASE: usize = 0;
static mut LIM: usize = 0;
static mut TRAPS: usize = 0;
/// what the signal handler does; the handler object is behind the pointer
static mut H: usize = 0;
static mut SETUP: Option<unsafe fn(usize) -> TrapHandlerRegs> = None;

unsafe extern "C" fn on_trap(ctx: *mut usize) {
    TRAPS += 1;
    let r = (SETUP.unwrap())(H);
    set_ctx(ctx, &r);
}
/// arms the handler for a coroutine
fn arm<R>(h: &CoroutineTrapHandler<R>, setup: unsafe fn(usize) -> TrapHandlerRegs) {
    unsafe {
        TRAP_HANDLER = Some(on_trap);
        H = h as *const CoroutineTrapHandler<R> as usize;
        SETUP = Some(setup);
    }
}
/// runs on the coroutine's own stack with most of it available
#[inline(always)]
fn own_stack(room: usize, id: usize) {
    let sp = unsafe { v_sp() };
    ck(sp < unsafe { BASE } && sp >= unsafe { LIM }, id);
    ck(unsafe { BASE } - sp < room, id + 1);
}
/// uses a lot of stack
#[inline(never)]
fn hungry(x: usize, id: usize) -> usize {
    let l = [x; 3000 / WB];
    core::hint::black_box(&l);
    own_stack(8192, id);
    vol(&l)[100]
}

static mut KC: usize = 0;
static mut KR: usize = 0;
static mut ROOM: usize = 0;
static mut SPX: usize = 0;
/// captures and results of every shape; first run and later runs; any registers, any stack pointer
#[inline(never)]
fn shape<C: Val, R: Val>(id: usize) {
    let runs = choice(3);
    let st = VStack::new(65536);
    unsafe { BASE = st.base; LIM = st.limit }
    let mut co = Co::<R>::with_stack(st, move |s, x| {
        let mut x = x;
        let mut k = 0;
        while k < runs {
            x = s.suspend(x);
            k += 1;
        }
        trap_now(x)
    });
    unsafe fn setup<C: Val, R: Val>(h: usize) -> TrapHandlerRegs {
        let c = C::any();
        let r = R::any();
        *(KC as *mut C) = c.dup();
        *(KR as *mut R) = r.dup();
        let t = Tok::new(&CAP, ());
        (*(h as *const CoroutineTrapHandler<R>)).setup_trap_handler(move || {
            let sp = v_sp();
            ck(sp < BASE && sp >= LIM, 1);
            ck(BASE - sp < ROOM, 2);
            ckmem(&c, &*(KC as *const C), 3);
            RUNS += 1;
            let _t = t;
            r
        })
    }
    let kc = Box::new(C::any());
    let kr = Box::new(R::any());
    unsafe {
        KC = &*kc as *const C as usize;
        KR = &*kr as *const R as usize;
        ROOM = 4000 + 24 * (core::mem::size_of::<C>() + core::mem::size_of::<R>());
    }
    let h = co.trap_handler();
    arm(&h, setup::<C, R>);
    let mut k = 0;
    while k < runs {
        let x = any();
        ck(matches!(co.resume(x), CoroutineResult::Yield(v) if v == x), id + 4);
        k += 1;
    }
    let sp = any();
    match co.resume(sp) {
        CoroutineResult::Return(r) => ckmem(&r, &*kr, id + 5),
        _ => ck(false, id + 6),
    }
    unsafe { ckeq(RUNS, 1, id + 7); ckeq(TRAPS, 1, id + 8) }
    ckeq(CAP.dropped(), CAP.made(), id + 9);
    ck(co.done(), id + 10);
    cover(20 + runs);
}
macro_rules! shapes { ($($c:ty => $r:ty),*) => {{
    let fs: &[fn(usize)] = &[$( shape::<$c, $r> ),*];
    let k = choice(fs.len());
    fs[k](100 * k);
    cover(k);
}} }

/// the resumer's registers, frame and all other memory are intact
fn intact() {
    let st = VStack::new(16384);
    let sid = st.id;
    unsafe { BASE = st.base; LIM = st.limit }
    let mut co = Co::<usize>::with_stack(st, |s, x| {
        let y = s.suspend(x);
        trap_now(y)
    });
    unsafe fn setup(h: usize) -> TrapHandlerRegs {
        let v = any();
        (*(h as *const CoroutineTrapHandler<usize>)).setup_trap_handler(move || {
            RUNS += 1;
            let mut g = [0usize; NCLOB];
            v_fill(g.as_mut_ptr() as *mut u8, NCLOB * WB);
            v_clobber(g.as_ptr() as *const u8);
            hungry(v, 1);
            KR = v;
            v
        })
    }
    let h = co.trap_handler();
    arm(&h, setup);
    let x = any();
    ck(co.resume(x) == CoroutineResult::Yield(x), 3);
    let mut r = None;
    #[inline(never)]
    fn go(co: &mut Co<usize>, x: usize, sid: usize) -> CoroutineResult<usize, usize> {
        let l = [x; 7];
        core::hint::black_box(&l);
        snap(unsafe { SPX });
        let r = co.resume(x);
        ck_snap(sid, co as *const Co<usize>, 4);
        ckeq(vol(&l)[5], x, 5);
        r
    }
    let y = any();
    unsafe { SPX = v_sp() + WB }
    guard_p(|| r = Some(go(&mut co, y, sid)), 20);
    ck(r == Some(CoroutineResult::Return(unsafe { KR })), 6);
    ckeq(unsafe { RUNS }, 1, 7);
    stack_check(sid, 8);
    // done: nothing is unwound, the stack can be used again
    ck(co.done(), 9);
    co.force_unwind();
    let st = co.into_stack();
    let mut co = Co::<usize>::with_stack(st, |s, x| s.suspend(!x));
    ck(co.resume(x) == CoroutineResult::Yield(!x), 10);
    ck(co.resume(y) == CoroutineResult::Return(y), 11);
    cover(1);
}

/// the latest resumer gets the result: main, another coroutine or an on_stack call
fn resumers() {
    static mut CO: Option<Co<usize>> = None;
    let st = VStack::new(16384);
    unsafe {
        BASE = st.base;
        LIM = st.limit;
        CO = Some(Co::with_stack(st, |s, x| {
            let y = s.suspend(x);
            let z = s.suspend(y);
            deep(z, 2)
        }));
    }
    #[inline(never)]
    fn deep(z: usize, n: usize) -> usize {
        let l = [z; 5];
        core::hint::black_box(&l);
        if n == 0 { trap_now(z) }
        let r = deep(z, n - 1);
        r ^ l[0]
    }
    fn co() -> &'static mut Co<usize> { unsafe { CO.as_mut().unwrap_unchecked() } }
    unsafe fn setup(h: usize) -> TrapHandlerRegs {
        let h = &*(h as *const CoroutineTrapHandler<usize>);
        h.setup_trap_handler(move || { RUNS += 1; hungry(KR, 1) })
    }
    let h = co().trap_handler();
    arm(&h, setup);
    unsafe { KR = any() }
    // another coroutine
    let mut p = Coroutine::<usize, CoroutineResult<usize, usize>, (), VStack>::with_stack(VStack::new(16384), |s, mut x| loop {
        let l = [x; 6];
        let r = co().resume(x);
        ckeq(vol(&l)[4], x, 3);
        x = s.suspend(r);
    });
    let mut k = 0;
    let mut pending = 0;
    while k < 3 {
        let x = any();
        let w = choice(3);
        let r = match w {
            0 => co().resume(x),
            1 => on_stack(VStack::new(16384), move || { let l = [x; 6]; let r = co().resume(x); ckeq(vol(&l)[2], x, 4); r }),
            _ => match p.resume(x) { CoroutineResult::Yield(r) => r, _ => CoroutineResult::Yield(!x) },
        };
        if k < 2 {
            ck(r == CoroutineResult::Yield(x), 5)
        } else {
            ck(r == CoroutineResult::Return(unsafe { KR }), 6);
            pending = w;
        }
        k += 1;
    }
    ck(co().done(), 7);
    ck(!p.done(), 8);
    ckeq(unsafe { RUNS }, 1, 9);
    unsafe { p.force_reset() }
    cover(pending);
}

/// what the recovery closure does: coroutines, on_stack, on other stacks; a second trap
fn busy() {
    let st = VStack::new(32768);
    unsafe { BASE = st.base; LIM = st.limit }
    static mut W: usize = 0;
    unsafe { W = choice(3) }
    let mut co = Co::<usize>::with_stack(st, |_, x| trap_now(x));
    unsafe fn setup(h: usize) -> TrapHandlerRegs {
        let th = &*(h as *const CoroutineTrapHandler<usize>);
        let v = any();
        let n = TRAPS;
        th.setup_trap_handler(move || {
            RUNS += 1;
            own_stack(8192, 1);
            KR = v;
            if n == 2 { return hungry(v, 7) }
            match W {
                0 => {
                    let mut c = Co::<usize>::with_stack(VStack::new(16384), |s, x| s.suspend(!x));
                    ck(c.resume(v) == CoroutineResult::Yield(!v), 3);
                    ck(c.resume(v) == CoroutineResult::Return(v), 4);
                    v
                }
                1 => on_stack(VStack::new(16384), move || v),
                // trapped again, inside the recovery
                _ => trap_now(v),
            }
        })
    }
    let h = co.trap_handler();
    arm(&h, setup);
    let x = any();
    let r = co.resume(x);
    ck(r == CoroutineResult::Return(unsafe { KR }), 5);
    ck(co.done(), 6);
    unsafe { ckeq(RUNS, 1 + (W == 2) as usize, 9); cover(W) }
}

/// a panic in the closure reaches the resumer
#[cfg(feature = "unwind")]
fn panics() {
    let st = VStack::counted(65536, &RES);
    unsafe { BASE = st.base; LIM = st.limit }
    static mut W: usize = 0;
    unsafe { W = choice(2) }
    {
        let mut co = Co::<usize>::with_stack(st, |s, x| { let y = s.suspend(x); trap_now(y) });
        unsafe fn setup(h: usize) -> TrapHandlerRegs {
            let th = &*(h as *const CoroutineTrapHandler<usize>);
            let v = any();
            KR = v;
            let t = Tok::new(&CAP, ());
            th.setup_trap_handler(move || {
                RUNS += 1;
                let t = t;
                own_stack(8192, 1);
                if W == 0 { drop(t); throw(v) }
                throw(v)
            })
        }
        let h = co.trap_handler();
        arm(&h, setup);
        let (x, y) = (any(), any());
        ck(co.resume(x) == CoroutineResult::Yield(x), 3);
        let mut r = None;
        guard_p(|| r = Some(catch(|| co.resume(y))), 20);
        match r {
            Some(Err(e)) => ckeq(e.downcast_ref::<usize>().copied().unwrap_or(!unsafe { KR }), unsafe { KR }, 4),
            _ => ck(false, 5),
        }
        ckeq(unsafe { RUNS }, 1, 6);
        ckeq(CAP.dropped(), 1, 7);
        ck(co.done(), 8);
        ck(!std::thread::panicking(), 9);
        ck(catch(|| co.resume(x)).is_err(), 10);
        ckeq(RES.dropped(), 0, 11);
    }
    ckeq(RES.dropped(), 1, 12);
    unsafe { cover(W) }
}

/// the handler may be taken at any time, and copied; stages of two coroutines trapping in turn
fn handlers() {
    let (a, b) = (VStack::new(16384), VStack::new(16384));
    static mut BB: [(usize, usize); 2] = [(0, 0); 2];
    unsafe { BB = [(a.base, a.limit), (b.base, b.limit)] }
    let mut ca = Co::<usize>::with_stack(a, |s, x| { let y = s.suspend(x); trap_now(y) });
    let h0 = ca.trap_handler();
    let mut cb = Co::<usize>::with_stack(b, |s, x| { let y = s.suspend(x); trap_now(y) });
    let (x, y) = (any(), any());
    ck(ca.resume(x) == CoroutineResult::Yield(x), 1);
    ck(cb.resume(y) == CoroutineResult::Yield(y), 2);
    let h1 = ca.trap_handler();
    let hb = cb.trap_handler();
    let h = if choice(2) == 0 { h0 } else { h1 };
    unsafe fn setup(h: usize) -> TrapHandlerRegs {
        let v = any();
        KR = v;
        let th = &*(h as *const CoroutineTrapHandler<usize>);
        th.setup_trap_handler(move || { RUNS += 1; own_stack(8192, 3); v })
    }
    let first = choice(2);
    let mut k = 0;
    while k < 2 {
        let which = (first + k) % 2;
        unsafe { BASE = BB[which].0; LIM = BB[which].1 }
        if which == 0 { arm(&h, setup) } else { arm(&hb, setup) }
        let r = if which == 0 { ca.resume(x) } else { cb.resume(y) };
        ck(r == CoroutineResult::Return(unsafe { KR }), 5);
        ckeq(unsafe { RUNS }, k + 1, 6);
        ck(ca.done() == (which == 0 || k == 1), 7);
        ck(cb.done() == (which == 1 || k == 1), 8);
        k += 1;
    }
    cover(first);
}

scenarios! {
    fn shapes_a() { shapes!(() => (), () => u8, u8 => (), u16 => u32, B<3> => B<5>, usize => usize, u64 => u64, B<7> => [usize; 2]); }
    fn shapes_b() { shapes!(u128 => u128, B<17> => B<33>, B<100> => (), () => B<100>, [usize; 33] => [usize; 35], B<900> => B<3>, usize => B<900>); }
    fn shapes_align() { shapes!(A16<1> => A16<17>, A32<32> => u8, u8 => A32<40>, A64<0> => A64<64>, usize => A128<1>); }
    fn both_intact() { intact(); }
    fn resumer() { resumers(); }
    fn busy_closure() { busy(); }
    #[cfg(feature = "unwind")]
    fn panic_out() { panics(); }
    fn handler() { handlers(); }
}
