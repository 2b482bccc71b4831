//! C03: a switch preserves registers and stack frames of both sides.
#![allow(static_mut_refs)]
use core::ptr::{read_volatile, write_volatile};
use hx::*;

#[repr(align(16))]
struct Garb([u8; NCLOB * WB]);
/// leaves arbitrary values in every register a call may clobber
#[inline(never)]
fn clobber() {
    let mut g = Garb([0; NCLOB * WB]);
    unsafe {
        v_fill(g.0.as_mut_ptr(), NCLOB * WB);
        v_clobber(g.0.as_ptr())
    }
}

static mut V: [usize; 24] = [0; 24];
static mut W: [usize; 24] = [0; 24];
static mut F: [f64; 16] = [0.0; 16];
static mut G: [f64; 16] = [0.0; 16];
fn fill_v() {
    unsafe {
        v_fill(V.as_mut_ptr() as *mut u8, 24 * WB);
        v_fill(F.as_mut_ptr() as *mut u8, 128);
    }
}
fn ck_v(id: usize) {
    unsafe {
        ckmem(&V, &W, id);
        ckmem(&F, &G, id + 1);
    }
}
/// keeps many integer and floating point values alive across $e
macro_rules! press {
    ($e:expr) => {{
        unsafe {
            let v = V.as_ptr();
            let f = F.as_ptr();
            let (a0, a1, a2, a3, a4, a5, a6, a7) = (
                read_volatile(v), read_volatile(v.add(1)), read_volatile(v.add(2)), read_volatile(v.add(3)),
                read_volatile(v.add(4)), read_volatile(v.add(5)), read_volatile(v.add(6)), read_volatile(v.add(7)));
            let (a8, a9, b0, b1, b2, b3, b4, b5) = (
                read_volatile(v.add(8)), read_volatile(v.add(9)), read_volatile(v.add(10)), read_volatile(v.add(11)),
                read_volatile(v.add(12)), read_volatile(v.add(13)), read_volatile(v.add(14)), read_volatile(v.add(15)));
            let (f0, f1, f2, f3, f4, f5) = (
                read_volatile(f), read_volatile(f.add(1)), read_volatile(f.add(2)), read_volatile(f.add(3)),
                read_volatile(f.add(4)), read_volatile(f.add(5)));
            let r = $e;
            let w = W.as_mut_ptr();
            let g = G.as_mut_ptr();
            write_volatile(w, a0); write_volatile(w.add(1), a1); write_volatile(w.add(2), a2); write_volatile(w.add(3), a3);
            write_volatile(w.add(4), a4); write_volatile(w.add(5), a5); write_volatile(w.add(6), a6); write_volatile(w.add(7), a7);
            write_volatile(w.add(8), a8); write_volatile(w.add(9), a9); write_volatile(w.add(10), b0); write_volatile(w.add(11), b1);
            write_volatile(w.add(12), b2); write_volatile(w.add(13), b3); write_volatile(w.add(14), b4); write_volatile(w.add(15), b5);
            let mut i = 16;
            while i < 24 { W[i] = V[i]; i += 1; }
            write_volatile(g, f0); write_volatile(g.add(1), f1); write_volatile(g.add(2), f2); write_volatile(g.add(3), f3);
            write_volatile(g.add(4), f4); write_volatile(g.add(5), f5);
            i = 6;
            while i < 16 { G[i] = F[i]; i += 1; }
            r
        }
    }};
}

/// a few live values only: they fit in callee-saved or caller-saved registers
macro_rules! few {
    ($n:literal, $e:expr) => {{
        unsafe {
            let v = V.as_ptr();
            let mut a = [0usize; $n];
            let mut i = 0;
            while i < $n { a[i] = read_volatile(v.add(i)); i += 1; }
            let r = $e;
            let w = W.as_mut_ptr();
            i = 0;
            while i < $n { write_volatile(w.add(i), a[i]); i += 1; }
            i = $n;
            while i < 24 { W[i] = V[i]; i += 1; }
            i = 0;
            while i < 16 { G[i] = F[i]; i += 1; }
            r
        }
    }};
}

type Co = Coroutine<usize, usize, usize, VStack>;
type Y = Yielder<usize, usize>;
#[inline(never)]
fn resume_press(c: &mut Co, x: usize) -> CoroutineResult<usize, usize> { press!(c.resume(x)) }
#[inline(never)]
fn resume_few1(c: &mut Co, x: usize) -> CoroutineResult<usize, usize> { few!(1, c.resume(x)) }
#[inline(never)]
fn resume_few4(c: &mut Co, x: usize) -> CoroutineResult<usize, usize> { few!(4, c.resume(x)) }
#[inline(never)]
fn resume_few6(c: &mut Co, x: usize) -> CoroutineResult<usize, usize> { few!(6, c.resume(x)) }
#[inline(never)]
fn suspend_press(s: &Y, x: usize) -> usize { press!(s.suspend(x)) }
#[inline(never)]
fn suspend_few1(s: &Y, x: usize) -> usize { few!(1, s.suspend(x)) }
#[inline(never)]
fn suspend_few4(s: &Y, x: usize) -> usize { few!(4, s.suspend(x)) }
#[inline(never)]
fn suspend_few6(s: &Y, x: usize) -> usize { few!(6, s.suspend(x)) }

/// values live in the frame of the caller of resume across a switch, with the other side clobbering everything
fn pressure(side: usize) {
    fill_v();
    let (x, y) = (any(), any());
    if side == 0 {
        for k in 0..4 {
            let mut co = Co::with_stack(VStack::new(16384), move |s, a| {
                clobber();
                ckeq(a, x, 1);
                let mut b = y;
                guard_c(|| b = s.suspend(y), 100);
                clobber();
                ckeq(b, y, 2);
                a
            });
            let r = match k { 0 => resume_press(&mut co, x), 1 => resume_few1(&mut co, x), 2 => resume_few4(&mut co, x), _ => resume_few6(&mut co, x) };
            ck(r == CoroutineResult::Yield(y), 3);
            ck_v(4);
            let r = match k { 0 => resume_press(&mut co, y), 1 => resume_few1(&mut co, y), 2 => resume_few4(&mut co, y), _ => resume_few6(&mut co, y) };
            ck(r == CoroutineResult::Return(x), 6);
            ck_v(7);
        }
    } else {
        let mut co = Co::with_stack(VStack::new(16384), move |s, a| {
            let b = suspend_press(s, a);
            ck_v(10);
            ckeq(b, y, 12);
            let b = suspend_few1(s, a);
            ck_v(13);
            ckeq(b, y, 14);
            let b = suspend_few4(s, a);
            ck_v(15);
            ckeq(b, y, 17);
            let b = suspend_few6(s, a);
            ck_v(16);
            ckeq(b, y, 18);
            a
        });
        let mut r = None;
        guard_p(|| r = Some(co.resume(x)), 200);
        for _ in 0..4 {
            clobber();
            ck(r == Some(CoroutineResult::Yield(x)), 19);
            guard_p(|| { clobber(); r = Some(co.resume(y)) }, 220);
        }
        ck(r == Some(CoroutineResult::Return(x)), 20);
    }
    cover(side);
}

/// values alive across on_stack and on_parent_stack
fn pressure_calls() {
    fill_v();
    let (x, y) = (any(), any());
    #[inline(never)]
    fn call(st: VStack, y: usize) -> usize {
        press!(on_stack(st, || {
            clobber();
            y
        }))
    }
    #[inline(never)]
    fn parent(s: &Y, y: usize) -> usize {
        press!(s.on_parent_stack(move || {
            clobber();
            !y
        }))
    }
    let mut r = 0;
    guard_p(|| r = call(VStack::new(8192), y), 100);
    ckeq(r, y, 1);
    ck_v(2);
    let mut co = Co::with_stack(VStack::new(16384), move |s, a| {
        let mut q = 0;
        guard_c(|| q = parent(s, y), 120);
        ckeq(q, !y, 4);
        ck_v(5);
        let mut q = 0;
        guard_c(|| q = call(VStack::new(8192), y), 120);
        ckeq(q, y, 7);
        ck_v(8);
        a
    });
    let mut r = None;
    guard_p(|| r = Some(co.resume(x)), 140);
    ck(r == Some(CoroutineResult::Return(x)), 10);
    ck_v(11);
    cover(1);
}

/// frames on both sides with arbitrary content, arbitrary callee-saved registers on both sides, arbitrary kind of each step
fn frames(steps: usize) {
    let pf: [usize; 12] = <[usize; 12]>::any();
    let pk = Box::new(pf);
    let mut co = Co::with_stack(VStack::new(16384), move |s, mut a| {
        let cf: [usize; 12] = <[usize; 12]>::any();
        let ck_ = Box::new(cf);
        let mut n = 0;
        loop {
            let mut b = 0;
            match choice(if n == 0 { 5 } else { 3 }) {
                0 => { guard_c(|| { clobber(); b = s.suspend(a) }, 100); cover(10) }
                1 => { guard_c(|| b = suspend_deep(s, a, 2), 120); cover(11) }
                2 => {
                    ckmem(unsafe { &read_volatile(&cf) }, &*ck_, 20);
                    clobber();
                    cover(12);
                    return a;
                }
                3 => { guard_c(|| b = s.on_parent_stack(move || { clobber(); !a }), 140); ckeq(b, !a, 21); b = a; cover(13) }
                _ => { guard_c(|| b = on_stack(VStack::new(8192), || { clobber(); !a }), 160); ckeq(b, !a, 22); b = a; cover(14) }
            }
            ckmem(unsafe { &read_volatile(&cf) }, &*ck_, 23);
            a = b;
            n += 1;
        }
    });
    let mut n = 0;
    while n < steps && !co.done() {
        let x = any();
        let mut r = None;
        guard_p(|| { clobber(); r = Some(co.resume(x)) }, 200);
        ck(r == Some(CoroutineResult::Yield(x)) || r == Some(CoroutineResult::Return(x)), 30);
        ckmem(unsafe { &read_volatile(&pf) }, &*pk, 31);
        n += 1;
    }
    if !co.done() {
        #[cfg(feature = "unwind")]
        {
            let mut r = 0;
            if choice(2) == 0 { guard_p(|| { co.force_unwind(); r = 1 }, 240); cover(15) } else { guard_p(move || drop(co), 260); cover(16) }
            let _ = r;
        }
        #[cfg(not(feature = "unwind"))]
        core::mem::forget(co);
    }
    ckmem(unsafe { &read_volatile(&pf) }, &*pk, 32);
    cover(1);
}
#[inline(never)]
fn suspend_deep(s: &Y, x: usize, d: usize) -> usize {
    let l = [x, !x, d, x ^ d];
    let r = if d == 0 { s.suspend(x) } else { suspend_deep(s, x, d - 1) };
    let m = unsafe { read_volatile(&l) };
    ckeq(m[0], x, 40);
    ckeq(m[1], !x, 41);
    ckeq(m[3], x ^ d, 42);
    r
}

/// a coroutine operated from inside another one: three frames deep, all registers arbitrary at every level
fn nested() {
    let of: [usize; 6] = <[usize; 6]>::any();
    let ok = Box::new(of);
    let mut outer = Co::with_stack(VStack::new(32768), move |s, a| {
        let mf: [usize; 6] = <[usize; 6]>::any();
        let mk = Box::new(mf);
        let mut inner = Co::with_stack(VStack::new(16384), move |t, b| {
            clobber();
            let mut c = 0;
            guard_c(|| c = t.suspend(!b), 100);
            clobber();
            c
        });
        let mut r = None;
        guard_p(|| r = Some(inner.resume(a)), 120);
        ck(r == Some(CoroutineResult::Yield(!a)), 1);
        ckmem(unsafe { &read_volatile(&mf) }, &*mk, 2);
        let mut b = 0;
        guard_c(|| b = s.suspend(a), 140);
        ckmem(unsafe { &read_volatile(&mf) }, &*mk, 3);
        guard_p(|| r = Some(inner.resume(b)), 160);
        ck(r == Some(CoroutineResult::Return(b)), 4);
        ckmem(unsafe { &read_volatile(&mf) }, &*mk, 5);
        !b
    });
    let (x, y) = (any(), any());
    let mut r = None;
    guard_p(|| r = Some(outer.resume(x)), 180);
    ck(r == Some(CoroutineResult::Yield(x)), 6);
    ckmem(unsafe { &read_volatile(&of) }, &*ok, 7);
    clobber();
    guard_p(|| r = Some(outer.resume(y)), 200);
    ck(r == Some(CoroutineResult::Return(!y)), 8);
    ckmem(unsafe { &read_volatile(&of) }, &*ok, 9);
    cover(1);
}

/// different value types use different instantiations of the switch
fn typed() {
    #[inline(never)]
    fn one<I: Val, T: Val, R: Val>(id: usize) {
        let pf: [usize; 8] = <[usize; 8]>::any();
        let pk = Box::new(pf);
        let mut co = Coroutine::<I, T, R, VStack>::with_stack(VStack::new(16384), move |s, _| {
            let cf: [usize; 8] = <[usize; 8]>::any();
            let k = Box::new(cf);
            guard_c(|| { clobber(); let _ = s.suspend(T::any()); }, id);
            ckmem(unsafe { &read_volatile(&cf) }, &*k, id + 8);
            guard_c(|| { let _ = s.suspend(T::any()); }, id + 20);
            ckmem(unsafe { &read_volatile(&cf) }, &*k, id + 28);
            clobber();
            R::any()
        });
        for _ in 0..3 {
            guard_p(|| { let _ = co.resume(I::any()); }, id + 40);
            ckmem(unsafe { &read_volatile(&pf) }, &*pk, id + 48);
        }
        ck(co.done(), id + 49);
    }
    one::<(), (), ()>(1000);
    one::<u8, B<3>, u16>(1100);
    one::<usize, [usize; 2], [usize; 3]>(1200);
    one::<[usize; 5], usize, [usize; 33]>(1300);
    one::<A16<16>, A32<32>, A16<48>>(1400);
    cover(1);
}

scenarios! {
    fn pressure_p() { pressure(0); }
    fn pressure_c() { pressure(1); }
    fn pressure_on() { pressure_calls(); }
    fn frames3() { frames(3); }
    fn frames4() { frames(4); }
    fn nest() { nested(); }
    fn types() { typed(); }
    #[cfg(feature = "unwind")]
    fn panics() {
        // the resumer's registers and frame after a panic left the coroutine, on_stack or on_parent_stack
        let pf: [usize; 8] = <[usize; 8]>::any();
        let pk = Box::new(pf);
        let how = choice(4);
        let x = any();
        let mut co = Co::with_stack(VStack::new(16384), move |s, a| {
            let cf: [usize; 8] = <[usize; 8]>::any();
            let k = Box::new(cf);
            if how == 1 {
                guard_c(|| { let r = catch(|| s.on_parent_stack(|| { clobber(); throw(7usize) })); ck(r.is_err(), 1) }, 100);
                ckmem(unsafe { &read_volatile(&cf) }, &*k, 2);
            }
            if how == 2 {
                guard_c(|| { let r = catch(|| on_stack(VStack::new(8192), || { clobber(); throw(7usize) })); ck(r.is_err(), 3) }, 120);
                ckmem(unsafe { &read_volatile(&cf) }, &*k, 4);
            }
            let mut b = a;
            if how == 3 {
                guard_c(|| b = s.suspend(a), 140);
                ckmem(unsafe { &read_volatile(&cf) }, &*k, 5);
            }
            clobber();
            throw(b)
        });
        let mut e = 0;
        guard_p(|| match catch(|| co.resume(x)) { Err(p) => e = *p.downcast::<usize>().unwrap(), Ok(r) => ck(how == 3 && r == CoroutineResult::Yield(x), 6) }, 200);
        ckmem(unsafe { &read_volatile(&pf) }, &*pk, 7);
        if how == 3 {
            guard_p(|| match catch(|| co.resume(!x)) { Err(p) => e = !*p.downcast::<usize>().unwrap(), Ok(_) => ck(false, 8) }, 220);
            ckmem(unsafe { &read_volatile(&pf) }, &*pk, 9);
        }
        ckeq(e, x, 10);
        let st = co.into_stack();
        guard_p(|| { let r = catch(|| on_stack(st, || { clobber(); throw(9usize) })); ck(r.is_err(), 11) }, 240);
        ckmem(unsafe { &read_volatile(&pf) }, &*pk, 12);
        cover(how);
    }
    fn leaf() {
        // a function without calls: its values may live below the stack pointer unless the switch is compiled correctly
        #[inline(never)]
        fn lf(s: &Y, x: usize) -> usize { press!(s.suspend(x)) }
        fill_v();
        let (x, y) = (any(), any());
        let mut co = Co::with_stack(VStack::new(16384), move |s, a| {
            let b = lf(s, a);
            ck_v(1);
            b
        });
        ck(co.resume(x) == CoroutineResult::Yield(x), 3);
        clobber();
        ck(co.resume(y) == CoroutineResult::Return(y), 4);
        cover(1);
    }
}
