//! C12: on_parent_stack runs on the resumer's stack without disturbing it.
#![allow(static_mut_refs)]
use hx::*;

type Co = Coroutine<usize, usize, usize, VStack>;
static CAP: Cnt = Cnt::new();
static RES: Cnt = Cnt::new();
static mut RUNS: usize = 0;
/// live part of the latest resumer starts at HI; its stack ends at LO
static mut HI: usize = 0;
static mut LO: usize = 0;

#[inline(always)]
fn below(id: usize) {
    unsafe {
        let sp = v_sp();
        ck(sp < HI, id);
        ck(sp >= LO, id + 1);
        RUNS += 1;
    }
}
/// the closure and everything it calls use the resumer's stack, and calls work there
#[inline(never)]
fn work(x: usize, id: usize) -> usize {
    let l = [x; 20];
    core::hint::black_box(&l);
    below(id);
    vol(&l)[11]
}

/// frames of all kinds that resume a coroutine
#[inline(always)]
fn enter<T: Val>(co: &mut Co, x: usize, lo: usize) -> usize {
    let l = T::any();
    let k = Box::new(l.dup());
    core::hint::black_box(&l);
    unsafe {
        HI = v_sp() + WB;
        LO = if lo == 0 { HI - 0x8000 } else { lo };
    }
    let r = co.resume(x);
    ckmem(&l, &*k, 90);
    match r {
        CoroutineResult::Yield(v) => v,
        CoroutineResult::Return(v) => !v,
    }
}
macro_rules! frames { ($($n:ident $t:ty),*) => {$(
    #[inline(never)]
    fn $n(co: &mut Co, x: usize, lo: usize) -> usize { enter::<$t>(co, x, lo) }
)*} }
frames!(f0 (), f1 B<1>, f2 B<8>, f3 B<24>, f4 B<200>, f5 A16<16>, f6 A32<1>, f7 A64<65>, f8 A128<0>, f9 A512<1>);
const FRAMES: [fn(&mut Co, usize, usize) -> usize; 10] = [f0, f1, f2, f3, f4, f5, f6, f7, f8, f9];

/// every resumer: frames of all layouts and depths
fn depths() {
    let mut co = Co::with_stack(VStack::new(16384), |s, mut x| loop {
        let y = s.on_parent_stack(move || work(x, 1) ^ 1);
        ckeq(y, x ^ 1, 3);
        x = s.suspend(x);
    });
    let (i, j) = (choice(10), choice(2));
    let (x, y) = (any(), any());
    #[inline(never)]
    fn deeper(f: fn(&mut Co, usize, usize) -> usize, co: &mut Co, x: usize) -> usize {
        let l = [x; 33];
        let r = f(co, x, 0);
        ckeq(vol(&l)[30], x, 4);
        r
    }
    ckeq(FRAMES[i](&mut co, x, 0), x, 5);
    // again, from another place
    let r = if j == 0 { deeper(FRAMES[(i + 7) % 10], &mut co, y) } else { deeper(f0, &mut co, y) };
    ckeq(r, y, 6);
    unsafe { co.force_reset() };
    ckeq(unsafe { RUNS }, 2, 7);
    cover(i);
}

/// the parent is the main stack, an on_stack call or another coroutine, changing at every resume
fn resumers(steps: usize) {
    static mut CO: Option<Co> = None;
    static mut P_STK: (usize, usize) = (0, 0);
    unsafe {
        CO = Some(Co::with_stack(VStack::new(16384), |s, mut x| loop {
            let l = [x; 8];
            let y = s.on_parent_stack(move || work(x, 1) ^ 1);
            ckeq(y, x ^ 1, 3);
            ckeq(vol(&l)[5], x, 4);
            x = s.suspend(!x);
        }));
    }
    fn co() -> &'static mut Co { unsafe { CO.as_mut().unwrap_unchecked() } }
    let ps = VStack::new(16384);
    unsafe { P_STK = (ps.limit, ps.base) };
    // another coroutine that resumes the first one
    let mut p = Co::with_stack(ps, |s, mut x| loop {
        let l = [x; 8];
        let lo = unsafe { P_STK.0 };
        let y = if choice(2) == 0 { f2(co(), x, lo) } else { f5(co(), x, lo) };
        ck(unsafe { HI } <= unsafe { P_STK.1 }, 5);
        ckeq(y, !x, 6);
        ckeq(vol(&l)[3], x, 7);
        x = s.suspend(y);
    });
    let mut st = VStack::new(16384);
    let mut k = 0;
    while k < steps {
        let x = any();
        let r = match choice(3) {
            0 => f1(co(), x, 0),
            1 => {
                let (lo, hi) = (st.limit, st.base);
                on_stack(&mut st, move || {
                    let r = f3(co(), x, lo);
                    ck(unsafe { HI } <= hi, 8);
                    r
                })
            }
            _ => match p.resume(x) {
                CoroutineResult::Yield(v) => v,
                CoroutineResult::Return(v) => !v,
            },
        };
        ckeq(r, !x, 9);
        k += 1;
        ckeq(unsafe { RUNS }, k, 10);
    }
    st.check(11);
    unsafe {
        p.force_reset();
        co().force_reset();
        core::mem::forget(p);
    }
    cover(1);
}

/// registers of both sides and all live memory of the resumer
fn intact() {
    static mut SP: usize = 0;
    #[inline(never)]
    fn call(s: &Yielder<usize, usize>, x: usize) -> usize {
        let mut r = 0;
        guard_c(|| r = s.on_parent_stack(move || {
            ck_snap(NO_STACK, core::ptr::null::<()>(), 1);
            let mut g = [0usize; NCLOB];
            unsafe { v_fill(g.as_mut_ptr() as *mut u8, NCLOB * WB); v_clobber(g.as_ptr() as *const u8) }
            work(x, 2)
        }), 30);
        r
    }
    #[inline(never)]
    fn mark() {
        unsafe {
            v_main_sp(SP);
            // the resumer's frames, and this stack above the frames that are about to be used
            snap(v_sp() + 1024)
        }
    }
    #[inline(never)]
    fn go(co: &mut Co, x: usize) -> CoroutineResult<usize, usize> {
        unsafe { HI = v_sp() + WB; LO = HI - 0x8000; SP = HI }
        let r = co.resume(x);
        log(0);
        r
    }
    let mut co = Co::with_stack(VStack::new(16384), |s, mut x| {
        #[inline(never)]
        fn inner(s: &Yielder<usize, usize>, x: usize) {
            let pad = [x; 256];
            core::hint::black_box(&pad);
            mark();
            ckeq(call(s, x), x, 50);
            ck_snap(NO_STACK, core::ptr::null::<()>(), 51);
            log(pad.len());
        }
        let mut k = 0;
        while k < 2 {
            inner(s, x);
            x = s.suspend(x);
            k += 1;
        }
        x
    });
    let mut k = 0;
    while k < 3 {
        let x = any();
        let mut r = None;
        guard_p(|| r = Some(go(&mut co, x)), 60 + 10 * k);
        ck(r == Some(if k == 2 { CoroutineResult::Return(x) } else { CoroutineResult::Yield(x) }), 60 + 10 * k + 9);
        k += 1;
    }
    cover(1);
}

/// closures and results of every shape, each used once
#[inline(never)]
fn shape<C: Val + Send, R: Val + Send>(id: usize) {
    static mut ID: usize = 0;
    unsafe { ID = id }
    let mut co = Co::with_stack(VStack::new(65536), |s, x| {
        let id = unsafe { ID };
        let c = C::any();
        let k = Box::new(c.dup());
        let r = R::any();
        let rk = Box::new(r.dup());
        let t = Tok::new(&CAP, ());
        let kp = &*k as *const C as usize;
        let (out, _t) = s.on_parent_stack(move || {
            below(id);
            ckmem(&c, unsafe { &*(kp as *const C) }, id + 2);
            let _t = t;
            (r, Tok::new(&RES, ()))
        });
        ckeq(unsafe { RUNS }, 1, id + 3);
        ckeq(CAP.dropped(), 1, id + 4);
        ckeq(RES.dropped(), 0, id + 5);
        ckmem(&out, &*rk, id + 6);
        x
    });
    let x = any();
    ckeq(f1(&mut co, x, 0), !x, id + 7);
    ckeq(RES.dropped(), 1, id + 8);
}
macro_rules! shapes { ($($c:ty => $r:ty),*) => {{
    let fs: &[fn(usize)] = &[$( shape::<$c, $r> ),*];
    let k = choice(fs.len());
    fs[k](100 * k);
    cover(k);
}} }

/// what runs there may itself use coroutines, on_stack and further parent calls
fn nested() {
    let w = choice(4);
    let mut co = Co::with_stack(VStack::new(32768), move |s, x| {
        let l = [x; 9];
        let r = match w {
            // a coroutine created, run and dropped on the parent stack, calling back to it
            0 => s.on_parent_stack(move || {
                below(1);
                let mut c = Co::with_stack(VStack::new(16384), |s, x| {
                    let y = s.on_parent_stack(move || work(x, 3));
                    s.suspend(y)
                });
                let r = f4(&mut c, x, 0);
                unsafe { c.force_reset() };
                r
            }),
            // the closure switches to yet another stack
            1 => s.on_parent_stack(move || {
                let st = VStack::new(16384);
                let (lo, hi) = (st.limit, st.base);
                below(5);
                on_stack(st, || {
                    unsafe { LO = lo; HI = hi }
                    work(x, 7)
                })
            }),
            // from code that runs on an on_stack stack inside the coroutine
            2 => on_stack(VStack::new(16384), || {
                let l = [x; 9];
                let r = s.on_parent_stack(move || work(x, 9));
                ckeq(vol(&l)[3], x, 11);
                r
            }),
            // twice in a row, the second from inside a helper coroutine's resumption
            _ => {
                let a = s.on_parent_stack(move || work(x, 13));
                ckeq(a, x, 15);
                s.on_parent_stack(move || work(a, 17))
            }
        };
        ckeq(r, x, 19);
        ckeq(vol(&l)[4], x, 20);
        let y = s.suspend(r);
        let z = s.on_parent_stack(move || work(y, 21));
        ckeq(vol(&l)[7], x, 23);
        z
    });
    let (x, y) = (any(), any());
    ckeq(f3(&mut co, x, 0), x, 24);
    ckeq(f4(&mut co, y, 0), !y, 25);
    cover(w);
}

/// panics come back to the coroutine, which may go on
#[cfg(feature = "unwind")]
fn panics() {
    let heap = heap_live();
    {
        let keep = choice(2);
        let p = any();
        let mut co = Co::with_stack(VStack::new(65536), move |s, x| {
            let f = move || -> usize {
                below(1);
                let _t = Tok::new(&CAP, ());
                throw(p)
            };
            if keep == 0 {
                return s.on_parent_stack(f);
            }
            let r = catch(|| s.on_parent_stack(f));
            ckeq(CAP.dropped(), 1, 3);
            ckeq(r.err().and_then(|e| e.downcast_ref::<usize>().copied()).unwrap_or(!p), p, 4);
            let y = s.suspend(x);
            s.on_parent_stack(move || work(y, 5))
        });
        let x = any();
        let r = catch(|| f3(&mut co, x, 0));
        ckeq(CAP.dropped(), 1, 7);
        match r {
            Ok(v) => {
                ckeq(keep, 1, 8);
                ckeq(v, x, 9);
                ck(!co.done(), 10);
                ckeq(f2(&mut co, p, 0), !p, 11);
            }
            Err(e) => {
                ckeq(keep, 0, 12);
                ckeq(e.downcast_ref::<usize>().copied().unwrap_or(!p), p, 13);
            }
        }
        ck(co.done(), 14);
        cover(keep);
    }
    ckeq(heap_live(), heap, 15);
}

scenarios! {
    fn depth() { depths(); }
    fn resumers3() { resumers(3); }
    fn resumers5() { resumers(5); }
    fn both_intact() { intact(); }
    fn shapes_a() { shapes!(() => (), () => u8, u8 => (), u16 => u32, B<3> => B<5>, usize => usize, u64 => u64, B<7> => [usize; 2]); }
    fn shapes_b() { shapes!(u128 => u128, B<17> => B<33>, B<100> => (), () => B<100>, [usize; 33] => [usize; 35], B<1025> => B<3>, usize => B<1500>); }
    fn shapes_align() { shapes!(A16<1> => A16<17>, A32<32> => u8, u8 => A32<40>, A64<0> => A64<64>, usize => A128<1>); }
    fn nest() { nested(); }
    #[cfg(feature = "unwind")]
    fn outcome() { panics(); }
}
