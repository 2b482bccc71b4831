//! C09: the unwind information leads from any entered stack to the frame of the call that last entered it.
#![allow(static_mut_refs)]
use hx::*;

type Co = Coroutine<usize, usize, usize, VStack>;

static mut P: GBuf = GBuf::new(); // registers and stack pointer of the outer entering frame
static mut C: GBuf = GBuf::new(); // of the inner one
unsafe extern "C-unwind" fn tramp<F: FnOnce()>(p: *mut u8) {
    if let Some(f) = (*(p as *mut Option<F>)).take() {
        f()
    }
}
/// runs f from a frame with arbitrary callee-saved registers, known as the outer one
#[inline(never)]
fn outer<F: FnOnce()>(f: F) {
    let mut f = Some(f);
    unsafe {
        v_fill(P.inr.as_mut_ptr() as *mut u8, NSAVED * WB);
        v_call_p(tramp::<F>, &mut f as *mut _ as *mut u8, &mut P);
    }
}
#[inline(never)]
fn inner<F: FnOnce()>(f: F) {
    let mut f = Some(f);
    unsafe {
        v_fill(C.inr.as_mut_ptr() as *mut u8, NSAVED * WB);
        v_call_c(tramp::<F>, &mut f as *mut _ as *mut u8, &mut C);
    }
}
fn at(stop: usize, g: &GBuf, id: usize) {
    let mut o = [0usize; NSAVED + 1];
    let n = unsafe { v_unwind(stop, o.as_mut_ptr(), 80) };
    ck(n != 0, id);
    let mut i = 0;
    while i < NSAVED {
        ckeq(o[i], g.inr[i], id + 1 + i);
        i += 1;
    }
    ckeq(o[NSAVED], g.sp, id + 1 + i);
}
/// from here the outer entering frame is reached with its exact state
#[inline(never)]
fn to_p(id: usize) {
    unsafe { at(v_call_p_ret as *const () as usize, &P, id) }
}
#[inline(never)]
fn to_c(id: usize) {
    unsafe { at(v_call_c_ret as *const () as usize, &C, id) }
}
#[inline(never)]
fn deep(d: usize, id: usize) -> usize {
    let l = [d; 5];
    let r = if d == 0 { to_p(id); 0 } else { deep(d - 1, id) };
    r + vol(&l)[2]
}
/// the registers of the code that is interrupted are arbitrary as well
fn noisy(id: usize) {
    inner(|| {
        to_c(id);
        to_p(id + 10);
    });
}

fn one(size: usize) -> Co {
    Co::with_stack(VStack::new(size), |s, mut a| {
        let mut k = 0;
        loop {
            to_p(100);
            noisy(120);
            log(deep(2, 140));
            let x = a;
            a = on_stack(VStack::new(16384), move || {
                to_p(160);
                noisy(180);
                x
            });
            let x = a;
            a = s.on_parent_stack(move || {
                to_p(200);
                noisy(220);
                x
            });
            if k == 2 {
                to_p(240);
                return a;
            }
            a = s.suspend(a);
            k += 1;
        }
    })
}
#[inline(never)]
fn resume_from(co: &mut Co, d: usize, x: usize) -> CoroutineResult<usize, usize> {
    let l = [x; 7];
    let r = if d == 0 { co.resume(x) } else { resume_from(co, d - 1, x) };
    log(vol(&l)[3]);
    r
}

// ---------------------------------------------------------------- recovery closures
static mut TH: Option<CoroutineTrapHandler<usize>> = None;
unsafe extern "C" fn on_trap(ctx: *mut usize) {
    let r = TH.as_ref().unwrap().setup_trap_handler(move || {
        to_p(300);
        noisy(320);
        log(deep(1, 340));
        5
    });
    set_ctx(ctx, &r);
}

scenarios! {
    /// first and later resumes, from different frames
    fn basic() {
        let mut co = one(65536);
        let x = any();
        outer(|| ck(co.resume(x) == CoroutineResult::Yield(x), 1));
        outer(|| ck(resume_from(&mut co, 2, x) == CoroutineResult::Yield(x), 2));
        outer(|| ck(co.resume(x) == CoroutineResult::Return(x), 3));
        cover(1);
    }
    fn plain_on_stack() {
        let x = any();
        outer(|| {
            let r = on_stack(VStack::new(16384), || {
                to_p(400);
                noisy(420);
                let r = on_stack(VStack::new(16384), || { to_p(440); inner(|| { on_stack(VStack::new(16384), || { to_c(460); to_p(480); }) }); x });
                to_p(500);
                r
            });
            ckeq(r, x, 1);
        });
        cover(1);
    }
    /// a coroutine resumed from another one; the inner one survives its first resumer and is resumed elsewhere
    fn nested() {
        let mut a = Co::with_stack(VStack::new(32768), |s, x| {
            to_c(600);
            to_p(620);
            log(deep(1, 640));
            let y = s.suspend(x);
            to_p(660);
            let y = s.on_parent_stack(move || { to_p(680); y });
            y
        });
        let ap = &mut a as *mut Co as usize;
        let mut b = Co::with_stack(VStack::new(32768), move |s, x| {
            to_p(700);
            let a = unsafe { &mut *(ap as *mut Co) };
            inner(|| ck(a.resume(x) == CoroutineResult::Yield(x), 1));
            to_p(720);
            let x = s.suspend(x);
            to_p(740);
            x
        });
        let x = any();
        outer(|| ck(b.resume(x) == CoroutineResult::Yield(x), 2));
        let y = any();
        outer(|| ck(a.resume(y) == CoroutineResult::Return(y), 3));
        outer(|| ck(b.resume(y) == CoroutineResult::Return(y), 4));
        cover(1);
    }
    fn trapped() {
        let n = choice(2);
        let st = VStack::new(32768);
        let lim = st.limit;
        let mut co = Co::with_stack(st, move |s, mut x| {
            if n == 1 { x = s.suspend(x) }
            trap_now(lim + (x & 0x7ff8))
        });
        unsafe {
            TRAP_HANDLER = Some(on_trap);
            TH = Some(co.trap_handler());
        }
        let x = any();
        if n == 1 { outer(|| ck(co.resume(x) == CoroutineResult::Yield(x), 1)) }
        outer(|| ck(co.resume(x) == CoroutineResult::Return(5), 2));
        cover(n);
    }
    /// large and strongly aligned captures move the first frame
    fn shapes() {
        #[inline(never)]
        fn one<T: Val + Send>() {
            let v = T::any();
            let mut co = Coroutine::<T, T, T, VStack>::with_stack(VStack::new(65536), move |s, a| {
                core::hint::black_box(&v);
                to_p(800);
                let b = s.suspend(a);
                to_p(820);
                b
            });
            outer(|| { core::hint::black_box(&co.resume(T::any())); });
            outer(|| { core::hint::black_box(&co.resume(T::any())); });
            ck(co.done(), 1);
        }
        one::<()>();
        one::<u8>();
        one::<usize>();
        one::<B<17>>();
        one::<[usize; 20]>();
        one::<A32<32>>();
        one::<A64<64>>();
        cover(1);
    }
}
