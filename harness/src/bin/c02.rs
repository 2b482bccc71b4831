//! C02: started, done and resume outcomes always match what the coroutine did.
#![allow(static_mut_refs)]
use hx::*;

struct P(usize);
static mut STEPS: usize = 0; // pieces of body code executed

#[derive(PartialEq, Clone, Copy)]
enum M {
    Fresh,
    Suspended,
    Done,
}

/// an arbitrary script of operations on a coroutine whose body is an arbitrary script as well
fn script(ops: usize, with_panic: bool) {
    let st = VStack::new(16384);
    let objs = cnt!();
    let mut co = Coroutine::<usize, usize, usize, VStack>::with_stack(st, move |s, mut a| {
        let mut k = 0;
        loop {
            unsafe { STEPS += 1 };
            let _t = Tok::new(objs, ());
            match choice(if with_panic { 3 } else { 2 }) {
                0 => a = s.suspend(a ^ k),
                1 => return a.wrapping_add(k),
                _ => {
                    #[cfg(feature = "unwind")]
                    throw(P(a));
                }
            }
            k += 1;
        }
    });
    let mut m = M::Fresh;
    let mut k = 0;
    let mut n = 0;
    ck(!co.started(), 1);
    ck(!co.done(), 2);
    while n < ops {
        let before = unsafe { STEPS };
        match choice(if cfg!(feature = "unwind") { 3 } else { 2 }) {
            0 if m == M::Done => {
                // resuming a finished coroutine
                let r = catch(|| co.resume(5));
                ck(r.is_err(), 10);
                cover(10);
            }
            0 => {
                let x = any();
                #[cfg(feature = "unwind")]
                let r = catch(|| co.resume(x));
                #[cfg(not(feature = "unwind"))]
                let r = Ok::<_, ()>(co.resume(x));
                ckeq(unsafe { STEPS }, before + 1, 20);
                // what the body did is seen from the destructor balance and the values
                match r {
                    Ok(CoroutineResult::Yield(v)) => {
                        ckeq(v, x ^ k, 21);
                        m = M::Suspended;
                        k += 1;
                        cover(21)
                    }
                    Ok(CoroutineResult::Return(v)) => {
                        ckeq(v, x.wrapping_add(k), 22);
                        m = M::Done;
                        cover(22)
                    }
                    Err(_e) => {
                        #[cfg(feature = "unwind")]
                        {
                            ckeq(_e.downcast_ref::<P>().map(|p| p.0).unwrap_or(!x), x, 23);
                            cover(23);
                        }
                        m = M::Done;
                    }
                }
                ckeq(unsafe { STEPS }, before + 1, 24);
            }
            1 => {
                // a query changes nothing
                ck(co.done() == (m == M::Done), 30);
                let _ = co.trap_handler();
            }
            _ => {
                co.force_unwind();
                if m == M::Suspended {
                    cover(40);
                }
                m = M::Done;
                ckeq(unsafe { STEPS }, before, 41);
            }
        }
        ck(co.done() == (m == M::Done), 50);
        if m != M::Done || k > 0 {
            ck(co.started() == (m != M::Fresh), 51);
        }
        // a suspended body holds one object per step, every other state holds none
        ckeq(objs.made() - objs.dropped(), (m == M::Suspended) as usize, 52);
        n += 1;
    }
    if cfg!(not(feature = "unwind")) && m == M::Suspended {
        core::mem::forget(co);
    } else {
        drop(co);
        ckeq(objs.made(), objs.dropped(), 53);
    }
    cover(1);
}

fn reset() {
    // force_reset: the coroutine is done, its stack content is forgotten without running anything
    let objs = cnt!();
    let n = choice(3);
    let mut co = Coroutine::<usize, usize, usize, VStack>::with_stack(VStack::new(16384), move |s, a| {
        let _t = Tok::new(objs, ());
        unsafe { STEPS += 1 };
        let b = s.suspend(a);
        unsafe { STEPS += 1 };
        b
    });
    let mut i = 0;
    while i < n {
        let _ = co.resume(any());
        i += 1;
    }
    let before = unsafe { STEPS };
    ck(co.done() == (n == 2), 1);
    unsafe { co.force_reset() };
    ck(co.done(), 2);
    if n > 0 {
        ck(co.started(), 3);
    }
    ckeq(unsafe { STEPS }, before, 4);
    ckeq(objs.dropped(), if n == 2 { 1 } else { 0 }, 5);
    ck(catch(|| co.resume(1)).is_err(), 6);
    co.force_unwind();
    ck(co.done(), 7);
    drop(co);
    ckeq(unsafe { STEPS }, before, 8);
    ckeq(objs.dropped(), if n == 2 { 1 } else { 0 }, 9);
    cover(n);
}

/// two coroutines operated in an arbitrary order keep separate states
fn pair(ops: usize) {
    fn mk(n: usize) -> Coroutine<(), usize, usize, VStack> {
        Coroutine::with_stack(VStack::new(8192), move |s, ()| {
            let mut i = 0;
            while i < n {
                s.suspend(i);
                i += 1;
            }
            i
        })
    }
    let (na, nb) = (choice(3), choice(3));
    let mut c = [mk(na), mk(nb)];
    let lim = [na, nb];
    let mut pos = [0usize; 2];
    let mut k = 0;
    while k < ops {
        let w = choice(2);
        if !c[w].done() {
            match c[w].resume(()) {
                CoroutineResult::Yield(v) => {
                    ckeq(v, pos[w], 1);
                    ck(pos[w] < lim[w], 2);
                    pos[w] += 1;
                    ck(!c[w].done(), 3);
                }
                CoroutineResult::Return(v) => {
                    ckeq(v, lim[w], 4);
                    ckeq(pos[w], lim[w], 5);
                    pos[w] += 1;
                    ck(c[w].done(), 6);
                }
            }
        }
        for j in 0..2 {
            ck(c[j].started() == (pos[j] > 0), 7);
            ck(c[j].done() == (pos[j] > lim[j]), 8);
        }
        k += 1;
    }
    for x in c {
        if x.done() || cfg!(feature = "unwind") {
            drop(x)
        } else {
            core::mem::forget(x)
        }
    }
    cover(1);
}

scenarios! {
    fn script3() { script(3, cfg!(feature = "unwind")); }
    fn script5() { script(5, cfg!(feature = "unwind")); }
    fn script6() { script(6, cfg!(feature = "unwind")); }
    fn forced_reset() { reset(); }
    fn pairs() { pair(4); }
    fn pairs6() { pair(6); }
    fn accessors() {
        let x = any();
        let y: CoroutineResult<usize, u8> = CoroutineResult::Yield(x);
        let r: CoroutineResult<u8, usize> = CoroutineResult::Return(x);
        ck(y.as_yield() == Some(x), 1);
        ck(y.as_return() == None, 2);
        ck(r.as_return() == Some(x), 3);
        ck(r.as_yield() == None, 4);
        cover(1);
    }
    fn done_again() {
        let mut co = Coroutine::<usize, usize, usize, VStack>::with_stack(VStack::new(8192), |_, a| {
            unsafe { STEPS += 1 };
            a
        });
        let _ = co.resume(any());
        ck(co.done(), 1);
        cover(1);
        let s = unsafe { STEPS };
        for _ in 0..3 {
            ck(catch(|| co.resume(5)).is_err(), 2);
            ck(co.done() && co.started(), 3);
            ckeq(unsafe { STEPS }, s, 4);
        }
    }
    /// every way to end a coroutine leaves it done, for an arbitrary number of suspensions before
    fn endings() {
        let n = choice(3);
        let how = choice(if cfg!(feature = "unwind") { 3 } else { 1 });
        let mut co = Coroutine::<usize, usize, usize, VStack>::with_stack(VStack::new(16384), move |s, a| {
            let mut x = a;
            for _ in 0..n { x = s.suspend(x); }
            #[cfg(feature = "unwind")]
            if how == 1 { throw(P(x)) }
            if how == 2 { s.suspend(x); }
            x
        });
        let mut i = 0;
        while i <= n {
            ck(!co.done(), 1);
            ck(co.started() == (i > 0), 2);
            let x = any();
            #[cfg(feature = "unwind")]
            let r = catch(|| co.resume(x)).map_err(|e| e.downcast_ref::<P>().map(|p| p.0));
            #[cfg(not(feature = "unwind"))]
            let r: Result<_, Option<usize>> = Ok(co.resume(x));
            match r {
                Ok(CoroutineResult::Yield(v)) => { ckeq(v, x, 3); ck(i < n || how == 2, 4) }
                Ok(CoroutineResult::Return(v)) => { ckeq(v, x, 5); ck(i == n && how == 0, 6) }
                Err(v) => { ck(v == Some(x), 7); ck(i == n && how == 1, 8) }
            }
            i += 1;
        }
        ck(co.started(), 9);
        ck(co.done() == (how != 2), 10);
        if how == 2 { co.force_unwind() }
        ck(co.done(), 11);
        ck(co.started(), 12);
        let s = co.into_stack();
        s.check(13);
        cover(how);
    }
}
