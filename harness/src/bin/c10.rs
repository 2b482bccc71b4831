//! C10: the chain of saved frame pointers leads to the frame of the call that last entered a stack.
//! Built with -C force-frame-pointers=yes.
#![allow(static_mut_refs)]
use hx::*;

type Co = Coroutine<usize, usize, usize, VStack>;
static mut F: usize = 0; // frame of the outer entering function
static mut G: usize = 0; // of the inner one

/// runs f with this function's frame as the outer one
#[inline(never)]
fn outer<R>(f: impl FnOnce() -> R) -> R {
    unsafe { F = v_fp() };
    let r = f();
    log(0);
    r
}
#[inline(never)]
fn inner<R>(f: impl FnOnce() -> R) -> R {
    unsafe { G = v_fp() };
    let r = f();
    log(0);
    r
}
/// where a frame keeps the frame pointer of its caller, relative to its own frame pointer (platform ABI)
#[cfg(any(target_arch = "riscv32", target_arch = "riscv64", target_arch = "loongarch64"))]
const LINK: usize = 2 * core::mem::size_of::<usize>();
#[cfg(not(any(target_arch = "riscv32", target_arch = "riscv64", target_arch = "loongarch64")))]
const LINK: usize = 0;
/// walks the chain
#[inline(never)]
fn walk(target: usize, id: usize) {
    let mut f = unsafe { v_fp() };
    let mut n = 0;
    while n < 40 {
        if f == target {
            ck(true, id);
            return;
        }
        f = unsafe { core::ptr::read_volatile((f - LINK) as *const usize) };
        n += 1;
    }
    ck(false, id);
}
fn to_f(id: usize) {
    walk(unsafe { F }, id)
}
fn to_g(id: usize) {
    walk(unsafe { G }, id)
}
#[inline(never)]
fn deep(d: usize, id: usize) -> usize {
    let l = [d; 5];
    let r = if d == 0 { to_f(id); 0 } else { deep(d - 1, id) };
    r + vol(&l)[2]
}
fn one(size: usize) -> Co {
    Co::with_stack(VStack::new(size), |s, mut a| {
        let mut k = 0;
        loop {
            to_f(100);
            inner(|| { to_g(101); to_f(102) });
            log(deep(2, 103));
            let x = a;
            a = on_stack(VStack::new(16384), move || { to_f(104); inner(|| to_f(105)); x });
            let x = a;
            a = s.on_parent_stack(move || { to_f(106); inner(|| to_f(107)); x });
            to_f(108);
            if k == 2 {
                return a;
            }
            a = s.suspend(a);
            k += 1;
        }
    })
}
#[inline(never)]
fn resume_from(co: &mut Co, d: usize, x: usize) -> CoroutineResult<usize, usize> {
    let l = [x; 7];
    let r = if d == 0 { co.resume(x) } else { resume_from(co, d - 1, x) };
    log(vol(&l)[3]);
    r
}
static mut TH: Option<CoroutineTrapHandler<usize>> = None;
unsafe extern "C" fn on_trap(ctx: *mut usize) {
    let r = TH.as_ref().unwrap().setup_trap_handler(move || {
        to_f(300);
        log(deep(1, 340));
        5
    });
    set_ctx(ctx, &r);
}

scenarios! {
    fn basic() {
        let mut co = one(65536);
        let x = any();
        outer(|| ck(co.resume(x) == CoroutineResult::Yield(x), 1));
        outer(|| ck(resume_from(&mut co, 2, x) == CoroutineResult::Yield(x), 2));
        outer(|| ck(co.resume(x) == CoroutineResult::Return(x), 3));
        cover(1);
    }
    fn plain_on_stack() {
        let x = any();
        outer(|| {
            let r = on_stack(VStack::new(16384), || {
                to_f(400);
                let r = on_stack(VStack::new(16384), || { to_f(440); inner(|| on_stack(VStack::new(16384), || { to_g(460); to_f(480); })); x });
                to_f(500);
                r
            });
            ckeq(r, x, 1);
        });
        cover(1);
    }
    fn nested() {
        let mut a = Co::with_stack(VStack::new(32768), |s, x| {
            to_g(600);
            to_f(620);
            let y = s.suspend(x);
            to_f(660);
            s.on_parent_stack(move || { to_f(680); y })
        });
        let ap = &mut a as *mut Co as usize;
        let mut b = Co::with_stack(VStack::new(32768), move |s, x| {
            to_f(700);
            let a = unsafe { &mut *(ap as *mut Co) };
            inner(|| ck(a.resume(x) == CoroutineResult::Yield(x), 1));
            to_f(720);
            let x = s.suspend(x);
            to_f(740);
            x
        });
        let x = any();
        outer(|| ck(b.resume(x) == CoroutineResult::Yield(x), 2));
        let y = any();
        outer(|| ck(a.resume(y) == CoroutineResult::Return(y), 3));
        outer(|| ck(b.resume(y) == CoroutineResult::Return(y), 4));
        cover(1);
    }
    fn trapped() {
        let n = choice(2);
        let st = VStack::new(32768);
        let lim = st.limit;
        let mut co = Co::with_stack(st, move |s, mut x| {
            if n == 1 { x = s.suspend(x) }
            trap_now(lim + (x & 0x7ff8))
        });
        unsafe {
            TRAP_HANDLER = Some(on_trap);
            TH = Some(co.trap_handler());
        }
        let x = any();
        if n == 1 { outer(|| ck(co.resume(x) == CoroutineResult::Yield(x), 1)) }
        outer(|| ck(co.resume(x) == CoroutineResult::Return(5), 2));
        cover(n);
    }
    fn shapes() {
        #[inline(never)]
        fn one<T: Val + Send>() {
            let v = T::any();
            let mut co = Coroutine::<T, T, T, VStack>::with_stack(VStack::new(65536), move |s, a| {
                core::hint::black_box(&v);
                to_f(800);
                let b = s.suspend(a);
                to_f(820);
                b
            });
            outer(|| { core::hint::black_box(&co.resume(T::any())); });
            outer(|| { core::hint::black_box(&co.resume(T::any())); });
            ck(co.done(), 1);
        }
        one::<()>();
        one::<u8>();
        one::<usize>();
        one::<B<17>>();
        one::<[usize; 20]>();
        one::<A32<32>>();
        one::<A64<64>>();
        cover(1);
    }
}
