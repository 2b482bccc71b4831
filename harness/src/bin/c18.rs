//! C18: without unwinding support failures abort rather than continue.
#![allow(static_mut_refs)]
use hx::*;

type Co = Coroutine<usize, usize, usize, VStack>;
type Y = Yielder<usize, usize>;
static CAP: Cnt = Cnt::new();
static STK: Cnt = Cnt::new();

/// belongs to the other side: must never be destroyed by a failure here
struct Outer(usize);
impl Drop for Outer {
    fn drop(&mut self) {
        ck(false, 900 + self.0)
    }
}
/// a stack that must not be given up
struct Kept(VStack);
unsafe impl Stack for Kept {
    fn base(&self) -> StackPointer { self.0.base() }
    fn limit(&self) -> StackPointer { self.0.limit() }
    teb_of!(0);
}
impl Drop for Kept {
    fn drop(&mut self) {
        ck(false, 990)
    }
}
/// the end of every path: only reached when the failure went unnoticed
fn never(id: usize) -> ! {
    ck(false, id);
    loop {}
}

/// different ways to panic
fn fail(how: usize, x: usize) -> usize {
    match how {
        0 => throw(x),
        1 => panic!("failure"),
        _ => { let v: [usize; 3] = [x; 3]; core::hint::black_box(&v)[3 + (x & 1) * 0 + how] }
    }
}

#[inline(never)]
fn body(s: &Y, mut x: usize, runs: usize, depth: usize, how: usize) -> usize {
    let _t = Tok::new(&CAP, [x; 3]);
    if depth > 0 {
        let r = body(s, x, runs, depth - 1, how);
        log(r);
        return r;
    }
    let mut k = 0;
    while k < runs {
        x = s.suspend(x);
        k += 1;
    }
    fail(how, x)
}
fn panicking(runs: usize, depth: usize, how: usize) {
    let _o = Outer(1);
    let mut co = Coroutine::<usize, usize, usize, Kept>::with_stack(Kept(VStack::new(65536)), move |s, x| {
        let r = body(unsafe { &*(s as *const Yielder<usize, usize>) }, x, runs, depth, how);
        never(r & 0 + 2)
    });
    let mut k = 0;
    while k < runs {
        let x = any();
        ck(co.resume(x) == CoroutineResult::Yield(x), 3);
        k += 1;
    }
    cover(1); expect_abort(true);
    let x = any();
    #[inline(never)]
    fn go(co: &mut Coroutine<usize, usize, usize, Kept>, x: usize) {
        let _o = Outer(2);
        let _ = co.resume(x);
        never(4);
    }
    // catching outside makes no difference
    let r = catch(|| go(&mut co, x));
    never(5 + r.is_ok() as usize);
}

/// inside closures that run on other stacks
fn closures(w: usize, how: usize) {
    let _o = Outer(1);
    cover(1); expect_abort(true);
    let x = any();
    match w {
        0 => {
            let r = catch(|| on_stack(VStack::new(65536), move || fail(how, x)));
            never(10 + r.is_ok() as usize);
        }
        1 => {
            let mut co = Coroutine::<usize, usize, usize, Kept>::with_stack(Kept(VStack::new(65536)), move |s, x| {
                let _o = Outer(2);
                let r = catch(|| s.on_parent_stack(move || fail(how, x)));
                never(12 + r.is_ok() as usize)
            });
            let r = catch(|| co.resume(x));
            never(14 + r.is_ok() as usize);
        }
        2 => {
            // a coroutine inside a coroutine: the outer one can not catch it either
            let mut co = Coroutine::<usize, usize, usize, Kept>::with_stack(Kept(VStack::new(65536)), move |_, x| {
                let _o = Outer(3);
                let mut c = Coroutine::<usize, usize, usize, Kept>::with_stack(Kept(VStack::new(65536)), move |_, x| fail(how, x));
                let r = catch(|| c.resume(x));
                never(16 + r.is_ok() as usize)
            });
            let r = catch(|| co.resume(x));
            never(18 + r.is_ok() as usize);
        }
        _ => {
            unsafe { TRAP_HANDLER = Some(on_trap) }
            static mut TH: Option<CoroutineTrapHandler<usize>> = None;
            static mut HOW: usize = 0;
            unsafe extern "C" fn on_trap(ctx: *mut usize) {
                let r = TH.as_ref().unwrap_unchecked().setup_trap_handler(|| fail(HOW, 3));
                set_ctx(ctx, &r);
            }
            let mut co = Coroutine::<usize, usize, usize, Kept>::with_stack(Kept(VStack::new(65536)), move |_, x| trap_now(x));
            unsafe { TH = Some(co.trap_handler()); HOW = how }
            let r = catch(|| co.resume(x));
            never(20 + r.is_ok() as usize);
        }
    }
}

/// dropping a suspended coroutine
fn dropping(runs: usize, depth: usize, w: usize) {
    let _o = Outer(1);
    #[inline(never)]
    fn sleep(s: &Y, mut x: usize, depth: usize) -> usize {
        let _o = Outer(4);
        if depth > 0 {
            return sleep(s, x, depth - 1)
        }
        loop { x = s.suspend(x) }
    }
    let mut co = Coroutine::<usize, usize, usize, Kept>::with_stack(Kept(VStack::new(65536)), move |s, x| sleep(s, x, depth));
    let mut k = 0;
    while k < runs {
        let x = any();
        ck(co.resume(x) == CoroutineResult::Yield(x), 30);
        k += 1;
    }
    cover(1); expect_abort(true);
    match w {
        0 => drop(co),
        1 => { let r = catch(move || drop(co)); never(32 + r.is_ok() as usize) }
        2 => {
            // owned by something that is dropped
            let b: Box<Option<Coroutine<usize, usize, usize, Kept>>> = Box::new(Some(co));
            drop(b);
        }
        _ => {
            // refused into_stack has to dispose of it
            let r = catch(move || co.into_stack());
            never(34 + r.is_ok() as usize);
        }
    }
    never(31);
}

/// force_unwind reports that it can not do it and changes nothing
fn unwinding() {
    let c = Tok::new(&CAP, ());
    let mut co = Co::with_stack(VStack::counted(65536, &STK), move |s, mut x| {
        let _c = c;
        let l = [x; 5];
        let first = x;
        let mut k = 0;
        while k < 3 {
            x = s.suspend(x);
            ckeq(vol(&l)[3], first, 40);
            k += 1;
        }
        x
    });
    let mut k = 0;
    let at = choice(3);
    while k < 4 {
        let x = any();
        let r = co.resume(x);
        ck(r == if k == 3 { CoroutineResult::Return(x) } else { CoroutineResult::Yield(x) }, 41);
        if k == at {
            ck(co.started() && !co.done(), 42);
            let r = catch(|| co.force_unwind());
            ck(r.is_err(), 43);
            ck(co.started() && !co.done(), 44);
            ckeq(CAP.dropped(), 0, 45);
            ckeq(STK.dropped(), 0, 46);
        }
        k += 1;
    }
    ck(co.done(), 47);
    // finished: nothing to do
    co.force_unwind();
    drop(co);
    ckeq(CAP.dropped(), 1, 48);
    ckeq(STK.dropped(), 1, 49);
    ck(CAP.last() < STK.last(), 50);
    cover(at);
}

/// unstarted, finished and reset coroutines are dropped and unwound normally
#[inline(never)]
fn normal<C: Val>(id: usize) {
    let w = choice(6);
    let heap = heap_live();
    {
        let t = Tok::new(&CAP, C::any());
        let mut co = Co::with_stack(VStack::counted(65536, &STK), move |s, x| {
            let t = t;
            let y = s.suspend(x);
            log(core::mem::size_of_val(&t.v));
            y
        });
        let x = any();
        match w {
            0 => {}
            1 => { co.force_unwind(); ckeq(CAP.dropped(), 1, id); ck(co.done(), id + 1); co.force_unwind() }
            2 => {
                ck(co.resume(x) == CoroutineResult::Yield(x), id + 2);
                ck(co.resume(x) == CoroutineResult::Return(x), id + 3);
                ck(catch(|| co.resume(x)).is_err(), id + 4);
            }
            3 => {
                ck(co.resume(x) == CoroutineResult::Yield(x), id + 5);
                unsafe { co.force_reset() }
                co.force_unwind();
            }
            4 => {
                ck(co.resume(x) == CoroutineResult::Yield(x), id + 6);
                ck(co.resume(x) == CoroutineResult::Return(x), id + 7);
                let s = co.into_stack();
                ckeq(STK.dropped(), 0, id + 8);
                drop(s);
                ckeq(STK.dropped(), 1, id + 9);
                return cover(4);
            }
            // dropped while a panic is passing through: that is not a failure of the coroutine
            _ => {
                let r = catch(move || { let _co = co; throw(x) as () });
                ck(r.is_err(), id + 10);
                ckeq(STK.dropped(), 1, id + 11);
                ckeq(CAP.dropped(), 1, id + 12);
                return cover(5);
            }
        }
        drop(co);
        ckeq(STK.dropped(), 1, id + 13);
        ckeq(CAP.dropped(), (w != 3) as usize, id + 14);
    }
    let _ = heap;
    cover(w);
}
/// a panic that stays inside the coroutine is no failure
fn contained() {
    let mut co = Co::with_stack(VStack::counted(65536, &STK), move |s, x| {
        let r = catch(|| { let _t = Tok::new(&CAP, ()); let y = s.suspend(x); throw(y) as () });
        ckeq(CAP.dropped(), 1, 60);
        r.err().and_then(|e| e.downcast_ref::<usize>().copied()).unwrap_or(0)
    });
    let (x, y) = (any(), any());
    ck(co.resume(x) == CoroutineResult::Yield(x), 61);
    ck(co.resume(y) == CoroutineResult::Return(y), 62);
    drop(co);
    ckeq(STK.dropped(), 1, 63);
    cover(1);
}

scenarios! {
    fn panic_out() { let (r, d, h) = (choice(3), choice(3), choice(3)); panicking(r, d, h); }
    fn panic_closures() { let (w, h) = (choice(4), choice(3)); closures(w, h); }
    fn drop_suspended() { let (r, d, w) = (1 + choice(3), choice(3), choice(4)); dropping(r, d, w); }
    fn unwind_refused() { unwinding(); }
    fn normal_small() { normal::<u8>(100); }
    fn normal_big() { normal::<[usize; 30]>(200); }
    fn normal_align() { normal::<A64<3>>(300); }
    fn caught_inside() { contained(); }
}
