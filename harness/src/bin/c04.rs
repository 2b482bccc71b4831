//! C04: coroutine operations only touch the coroutine's own stack.
#![allow(static_mut_refs)]
use hx::*;

type Co = Coroutine<usize, usize, usize, VStack>;
struct W {
    co: Option<Co>,
    id: usize,
    sp: usize,
    x: usize,
    op: usize,
    r: usize,
}
static mut ARG: Option<W> = None;
fn w() -> &'static mut W {
    unsafe { ARG.as_mut().unwrap() }
}

/// one operation between two snapshots; everything above w().sp on the running stack and all other memory is compared
#[inline(never)]
fn probe() {
    let a = w();
    let excl: *const Option<Co> = &a.co;
    snap(a.sp);
    match a.op {
        0 => {
            let c = a.co.as_mut().unwrap();
            a.r = match c.resume(a.x) {
                CoroutineResult::Yield(v) => v,
                CoroutineResult::Return(v) => !v,
            };
        }
        1 => a.co.as_mut().unwrap().force_unwind(),
        2 => a.co = None,
        3 => {
            let r = catch(|| a.co.as_mut().unwrap().resume(a.x));
            ck(r.is_err(), 3);
        }
        _ => {
            let st = a.co.take().unwrap().into_stack();
            ckeq(st.id, a.id, 4);
            core::mem::forget(st);
        }
    }
    ck_snap(a.id, excl, 100 + a.op);
}
/// a frame with arbitrary content above the operation
#[inline(never)]
fn step(op: usize, x: usize) -> usize {
    let f: [usize; 4] = <[usize; 4]>::any();
    let a = w();
    a.op = op;
    a.x = x;
    a.sp = unsafe { v_sp() };
    probe();
    log(vol(&f)[3]);
    w().r
}

/// body: suspends n times, then returns or panics; uses some stack, keeps an owned object
fn body(n: usize, panics: bool) -> impl FnOnce(&Yielder<usize, usize>, usize) -> usize {
    static C: Cnt = Cnt::new();
    move |s, a| {
        let _t = Tok::new(&C, [n; 9]);
        let mut x = a;
        let mut k = 0;
        while k < n {
            x = s.suspend(x);
            k += 1;
        }
        if panics {
            throw(x)
        }
        x
    }
}
/// the real unwinder needs more stack than the smallest one has
fn life(size: usize, unwinding: bool) {
    let unwinding = unwinding && cfg!(feature = "unwind");
    let other = VStack::new(4096);
    let n = choice(2);
    let panics = unwinding && choice(2) == 1;
    let mut o = Co::with_stack(other, body(1, false));
    let x = any();
    ck(o.resume(x) == CoroutineResult::Yield(x), 1);
    let st = VStack::new(size);
    let id = st.id;
    unsafe { ARG = Some(W { co: Some(Co::with_stack(st, body(n, panics))), id, sp: 0, x: 0, op: 0, r: 0 }) };
    let mut k = 0;
    while k <= n {
        let x = any();
        if panics && k == n {
            step(3, x);
            cover(3);
        } else {
            ckeq(step(0, x), if k == n { !x } else { x }, 5);
            cover(0);
        }
        stack_check(id, 10);
        if unwinding && k < n && choice(2) == 1 {
            if choice(2) == 0 {
                step(1, 0);
                cover(1);
            } else {
                step(2, 0);
                cover(2);
            }
            break;
        }
        k += 1;
    }
    if w().co.is_some() {
        step(4, 0);
        cover(4);
    }
    let y = any();
    ck(o.resume(y) == CoroutineResult::Return(y), 6);
}

/// creation with a captured object of every size; memory around the stack and everything else stays as it was
#[inline(never)]
fn create<C: Val>(size: usize, id: usize) {
    static mut ST: Option<VStack> = None;
    static mut SP: usize = 0;
    #[inline(never)]
    fn go<C: Val>(id: usize) {
        let c = C::any();
        let keep = c.dup();
        let kp = &keep as *const C;
        snap(unsafe { SP });
        let st = unsafe { ST.take().unwrap() };
        let sid = st.id;
        let mut co = Coroutine::<(), (), (), VStack>::with_stack(st, move |s, ()| {
            let d = c;
            ckmem(&d, unsafe { &*kp }, id);
            s.suspend(());
            ckmem(&d, unsafe { &*kp }, id + 1);
        });
        ck_snap(sid, &co, id + 2);
        snap(unsafe { SP });
        if choice(2) == 0 {
            let _ = co.resume(());
            let _ = co.resume(());
            ck_snap(sid, &co, id + 3);
            cover(1);
        } else {
            co.force_unwind();
            ck_snap(sid, &co, id + 4);
            cover(2);
        }
        stack_check(sid, id + 5);
    }
    unsafe {
        ST = Some(VStack::new(size));
        SP = v_sp();
    }
    go::<C>(id);
    log(0); // no tail call
}

/// operations on an inner coroutine from inside an outer one leave the outer one's live frames and the main stack alone
fn inner() {
    unsafe { v_main_sp(v_sp()) }
    let st = VStack::new(32768);
    let id = st.id;
    let n = choice(2);
    let pan = cfg!(feature = "unwind") && choice(2) == 1;
    let mut outer = Coroutine::<usize, usize, usize, VStack>::with_stack(VStack::new(65536), move |_, a| {
        unsafe { ARG = Some(W { co: Some(Co::with_stack(st, body(n, pan))), id, sp: 0, x: 0, op: 0, r: 0 }) };
        let mut k = 0;
        while k < n {
            step(0, a);
            k += 1;
        }
        if cfg!(feature = "unwind") && n == 1 && choice(2) == 1 {
            step(1, 0);
            cover(20);
        } else if pan {
            step(3, a);
            cover(21);
        } else {
            step(0, a);
            cover(22);
        }
        step(4, 0);
        a
    });
    let x = any();
    ck(outer.resume(x) == CoroutineResult::Return(x), 1);
}

/// on_stack and on_parent_stack
fn calls(size: usize) {
    static mut SP: usize = 0;
    static mut ST: Option<VStack> = None;
    #[inline(never)]
    fn go() {
        let x = any();
        snap(unsafe { SP });
        let st = unsafe { ST.take().unwrap() };
        let sid = st.id;
        let mut st = st;
        let r = on_stack(&mut st, || {
            let l: [usize; 10] = [x; 10];
            vol(&l)[7] ^ 1
        });
        ck_snap(sid, core::ptr::null::<()>(), 1);
        ckeq(r, x ^ 1, 2);
        cover(1);
        if cfg!(feature = "unwind") && st.base - st.limit > 32768 {
            let r = catch(|| on_stack(&mut st, || { if x == 0 { throw(1usize) } x }));
            ck(r.is_err() == (x == 0), 3);
            ck_snap(sid, core::ptr::null::<()>(), 4);
        }
        st.check(5);
    }
    unsafe {
        ST = Some(VStack::new(size));
        SP = v_sp();
    }
    go();
    log(0); // no tail call
}
/// on_parent_stack: nothing at or above the resumer's stack pointer changes, nor the coroutine's frames
fn parent_call() {
    static mut SP: usize = 0;
    static mut CSP: usize = 0;
    #[inline(never)]
    fn on_parent(s: &Yielder<usize, usize>, a: usize) -> usize {
        // the snapshot is taken on the parent stack, below everything live there
        s.on_parent_stack(move || {
            let l: [usize; 10] = [a; 10];
            ck_snap(NO_STACK, core::ptr::null::<()>(), 2);
            vol(&l)[7] ^ 1
        })
    }
    #[inline(never)]
    fn go() {
        let mut co = Co::with_stack(VStack::new(8192), move |s, a| {
            snap_both();
            let r = on_parent(s, a);
            ckeq(r, a ^ 1, 3);
            ck_snap(NO_STACK, core::ptr::null::<()>(), 4);
            let b = s.suspend(a);
            snap_both();
            let r = on_parent(s, b);
            ck_snap(NO_STACK, core::ptr::null::<()>(), 5);
            r
        });
        let (x, y) = (any(), any());
        ck(co.resume(x) == CoroutineResult::Yield(x), 6);
        ck(co.resume(y) == CoroutineResult::Return(y ^ 1), 7);
        cover(1);
    }
    #[inline(never)]
    fn snap_both() {
        unsafe {
            CSP = v_sp() + 256;
            v_main_sp(SP);
            snap(CSP);
        }
    }
    unsafe { SP = v_sp() }
    go();
    log(0); // no tail call
}

scenarios! {
    fn life_min() { life(4096, false); }
    fn life_big() { life(65536, true); }
    fn inner_ops() { inner(); }
    fn call_min() { calls(4096); }
    fn call_big() { calls(40000); }
    fn on_parent() { parent_call(); }
    fn captures() {
        create::<()>(4096, 100);
        create::<u8>(4096, 120);
        create::<B<7>>(4096, 140);
        create::<[usize; 2]>(4096, 160);
        create::<B<33>>(4096, 180);
    }
    fn captures_large() {
        // unoptimised test closures copy their captures several times
        let n = if cfg!(debug_assertions) { 16384 } else { 4096 };
        create::<B<1000>>(n, 100);
        create::<B<1007>>(n, 140);
    }
    fn captures_aligned() { create::<A32<40>>(if cfg!(debug_assertions) { 16384 } else { 4096 }, 100); }
    fn captures_a64() { create::<A64<64>>(if cfg!(debug_assertions) { 16384 } else { 4096 }, 100); }
    fn captures_a256() { create::<A256<256>>(if cfg!(debug_assertions) { 32768 } else { 8192 }, 100); }
    fn captures_a512() { create::<A512<0>>(if cfg!(debug_assertions) { 32768 } else { 8192 }, 100); }
    #[cfg(feature = "unwind")]
    fn refused() {
        // objects that can not be placed are refused without a write outside the stack
        #[repr(align(4096))] #[derive(Clone, Copy)] struct Huge;
        #[repr(align(8192))] #[derive(Clone, Copy)] struct Huger;
        unsafe impl Val for Huge {}
        unsafe impl Val for Huger {}
        let st = VStack::new(4096);
        let id = st.id;
        let w = choice(4);
        let h = Huge;
        let g = Huger;
        let b = B::<1025>([1; 1025]);
        let b2 = A16::<1025>([1; 1025]);
        let r = catch(|| match w {
            0 => { let c = Coroutine::<(), (), (), VStack>::with_stack(st, move |_, ()| { let _x = h; }); core::mem::forget(c) }
            1 => { let c = Coroutine::<(), (), (), VStack>::with_stack(st, move |_, ()| { let _x = g; }); core::mem::forget(c) }
            2 => { let c = Coroutine::<(), (), (), VStack>::with_stack(st, move |_, ()| { let _x = b; }); core::mem::forget(c) }
            _ => { let c = Coroutine::<(), (), (), VStack>::with_stack(st, move |_, ()| { let _x = b2; }); core::mem::forget(c) }
        });
        let _ = id;
        ck(r.is_err(), 1);
        cover(w);
    }
}
