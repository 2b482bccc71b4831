//! C07: unwinding a suspended coroutine destroys everything on it exactly once.
#![allow(static_mut_refs)]
use hx::*;
use std::any::Any;

type Co = Coroutine<usize, usize, usize, VStack>;
type Y = Yielder<usize, usize>;
static mut RAN: usize = 0;
fn ran() {
    unsafe { RAN += 1 }
}
static STK: Cnt = Cnt::new();
static STK2: Cnt = Cnt::new();
/// objects in order of creation; destroyed ones report their number
static mut LIVE: [usize; 32] = [0; 32];
static mut NLIVE: usize = 0;
static mut MADE: usize = 0;
/// a destructor that checks that the most recently created live object goes first
struct Obj {
    n: usize,
    v: usize,
    k: Box<usize>,
}
impl Obj {
    fn new() -> Obj {
        unsafe {
            let n = MADE + 1;
            MADE = n;
            LIVE[NLIVE] = n;
            NLIVE += 1;
            let v = any();
            Obj { n, v, k: Box::new(v) }
        }
    }
}
impl Drop for Obj {
    fn drop(&mut self) {
        unsafe {
            ck(NLIVE > 0, 900);
            ckeq(LIVE[NLIVE - 1], self.n, 901);
            NLIVE -= 1;
        }
        ckeq(self.v, *self.k, 902);
    }
}
fn live() -> usize {
    unsafe { NLIVE }
}

#[inline(never)]
fn deep(s: &Y, x: usize, d: usize) -> usize {
    let _a = Obj::new();
    if d > 0 {
        let r = deep(s, x, d - 1);
        ran();
        let _b = Obj::new();
        return r;
    }
    let _c = Obj::new();
    let r = s.suspend(x);
    ran();
    r
}
/// suspended in a call chain after a number of earlier suspensions
fn chain(maxd: usize, maxk: usize) {
    let heap = heap_live();
    let d = choice(maxd + 1);
    let before = choice(maxk + 1);
    let cap = Obj::new();
    let mut co = Co::with_stack(VStack::counted(65536, &STK), move |s, mut a| {
        // captured objects are destroyed after the locals of the body
        let cap = cap;
        let mut k = 0;
        loop {
            let _l = Obj::new();
            a = if k == before { deep(s, a, d) } else { s.suspend(a) };
            if k == before { ran() }
            let _ = &cap;
            k += 1;
        }
    });
    let mut k = 0;
    while k <= before {
        let x = any();
        ck(co.resume(x) == CoroutineResult::Yield(x), 1);
        k += 1;
    }
    ckeq(live(), d + 4, 2);
    if choice(2) == 0 {
        co.force_unwind();
        ck(co.done(), 3);
        ck(co.started(), 4);
        ckeq(live(), 0, 5);
        ckeq(STK.dropped(), 0, 6);
        ck(!std::thread::panicking(), 7);
        ck(catch(|| co.resume(1)).is_err(), 8);
        co.force_unwind();
        cover(1);
    } else {
        cover(2);
    }
    drop(co);
    ckeq(live(), 0, 9);
    ckeq(unsafe { RAN }, 0, 10);
    ckeq(STK.dropped(), 1, 11);
    ck(!std::thread::panicking(), 12);
    ckeq(heap_live(), heap, 13);
}

/// a body that makes and destroys objects between suspensions in any pattern
fn pattern(steps: usize) {
    let heap = heap_live();
    let mut co = Co::with_stack(VStack::counted(65536, &STK), move |s, mut a| {
        let mut v = Vec::new();
        loop {
            match choice(3) {
                0 => v.push(Holder(Some(Obj::new()))),
                1 => { v.pop(); }
                _ => {}
            }
            // a vector destroys its elements first to last: keep a stack order through this guard
            struct G<'a>(&'a mut Vec<Holder>);
            impl Drop for G<'_> { fn drop(&mut self) { if std::thread::panicking() { while self.0.pop().is_some() {} } } }
            let g = G(&mut v);
            a = s.suspend(a);
            core::mem::forget(g);
        }
    });
    struct Holder(#[allow(dead_code)] Option<Obj>);
    let mut k = 0;
    while k < steps {
        let x = any();
        ck(co.resume(x) == CoroutineResult::Yield(x), 1);
        k += 1;
    }
    let n = live();
    if n > 0 { cover(1) }
    co.force_unwind();
    ck(co.done(), 2);
    ckeq(live(), 0, 3);
    drop(co);
    ckeq(STK.dropped(), 1, 4);
    ck(!std::thread::panicking(), 5);
    ckeq(heap_live(), heap, 6);
    cover(2);
}

/// a body that catches the unwind
fn swallowed(how: usize) {
    let heap = heap_live();
    {
        let y = any();
        let mut co = Co::with_stack(VStack::counted(65536, &STK), move |s, a| {
            let _a = Obj::new();
            let r = catch(|| {
                let _b = Obj::new();
                s.suspend(a)
            });
            match r {
                Ok(v) => v,
                Err(e) => {
                    ran();
                    ckeq(live(), 1, 20);
                    match how {
                        0 => y,
                        1 => { drop(e); let z = s.suspend(y); ran(); z }
                        2 => throw(y),
                        3 => std::panic::resume_unwind(e),
                        _ => { let z = s.suspend(y); log(z); std::panic::resume_unwind(e) }
                    }
                }
            }
        });
        let x = any();
        ck(co.resume(x) == CoroutineResult::Yield(x), 1);
        let r = catch(|| co.force_unwind());
        match how {
            0 => {
                ck(r.is_err(), 2);
                ck(co.done(), 3);
                ckeq(live(), 0, 4);
            }
            1 | 4 => {
                // still suspended, and usable
                ck(r.is_err(), 5);
                ck(!co.done(), 6);
                ckeq(live(), 1, 7);
                if how == 4 {
                    co.force_unwind();
                    ck(co.done(), 8);
                } else if choice(2) == 0 {
                    co.force_unwind();
                    ckeq(unsafe { RAN }, 1, 9);
                } else {
                    let z = any();
                    ck(co.resume(z) == CoroutineResult::Return(z), 10);
                    ckeq(unsafe { RAN }, 2, 11);
                }
                ck(co.done(), 12);
                ckeq(live(), 0, 13);
            }
            2 => {
                match r { Err(p) => ckeq(p.downcast_ref::<usize>().copied().unwrap_or(!y), y, 14), Ok(()) => ck(false, 15) }
                ck(co.done(), 16);
                ckeq(live(), 0, 17);
            }
            _ => {
                ck(r.is_ok(), 18);
                ck(co.done(), 19);
                ckeq(live(), 0, 21);
            }
        }
        ck(!std::thread::panicking(), 22);
        ckeq(STK.dropped(), 0, 23);
    }
    ckeq(STK.dropped(), 1, 24);
    if how != 1 { ckeq(unsafe { RAN }, 1, 25) }
    ckeq(heap_live(), heap, 26);
    cover(how);
}

/// a payload that belongs to another coroutine is reported, not taken for the own one
fn foreign() {
    static mut PAY: Option<Box<dyn Any + Send>> = None;
    let heap = heap_live();
    {
        let mut a = Co::with_stack(VStack::counted(65536, &STK), |s, x| {
            match catch(|| s.suspend(x)) {
                Ok(v) => v,
                Err(e) => { unsafe { PAY = Some(e) }; 0 }
            }
        });
        let mut b = Co::with_stack(VStack::counted(65536, &STK2), |s, x| {
            let _o = Obj::new();
            match catch(|| s.suspend(x)) {
                Ok(v) => v,
                Err(_) => std::panic::resume_unwind(unsafe { PAY.take() }.unwrap()),
            }
        });
        let x = any();
        ck(a.resume(x) == CoroutineResult::Yield(x), 1);
        ck(b.resume(x) == CoroutineResult::Yield(x), 2);
        ck(catch(|| a.force_unwind()).is_err(), 3);
        ck(unsafe { PAY.is_some() }, 4);
        let r = catch(|| b.force_unwind());
        ck(r.is_err(), 5);
        ck(a.done() && b.done(), 6);
        ckeq(live(), 0, 7);
    }
    ckeq(STK.dropped() + STK2.dropped(), 2, 8);
    ck(!std::thread::panicking(), 9);
    ckeq(heap_live(), heap, 10);
    cover(1);
}

/// an outer coroutine suspended from inside an inner one, or inside on_stack; its unwind passes through
fn through(how: usize) {
    let heap = heap_live();
    {
        let stk2 = VStack::counted(65536, &STK2);
        let mut outer = Co::with_stack(VStack::counted(65536, &STK), move |s, x| {
            let _a = Obj::new();
            let r = match how {
                0 => {
                    // on the inner coroutine's stack
                    let sp = s as *const Y as usize;
                    let mut inner = Coroutine::<usize, usize, usize, VStack>::with_stack(stk2, move |t, y| {
                        let _b = Obj::new();
                        let z = t.suspend(y);
                        let _c = Obj::new();
                        let w = unsafe { &*(sp as *const Y) }.suspend(z);
                        ran();
                        w
                    });
                    ck(inner.resume(x) == CoroutineResult::Yield(x), 1);
                    let _d = Obj2;
                    let r = inner.resume(!x);
                    ran();
                    match r { CoroutineResult::Return(v) => v, _ => 0 }
                }
                1 => on_stack(stk2, || {
                    let _b = Obj::new();
                    let w = s.suspend(!x);
                    ran();
                    w
                }),
                2 => {
                    // the inner coroutine is itself suspended and owned by the outer body
                    let mut inner = Co::with_stack(stk2, |t, y| {
                        let _b = Obj::new();
                        let z = t.suspend(y);
                        ran();
                        z
                    });
                    ck(inner.resume(x) == CoroutineResult::Yield(x), 1);
                    let w = s.suspend(!x);
                    ran();
                    drop(inner);
                    w
                }
                _ => {
                    // a destructor on the way out drives another coroutine to its end
                    struct Run(Co, usize);
                    impl Drop for Run {
                        fn drop(&mut self) {
                            ck(self.0.resume(self.1) == CoroutineResult::Return(self.1), 30);
                            cover(30);
                        }
                    }
                    let mut inner = Co::with_stack(stk2, |t, y| {
                        let _b = Obj::new();
                        t.suspend(y)
                    });
                    ck(inner.resume(x) == CoroutineResult::Yield(x), 1);
                    let _r = Run(inner, !x);
                    let w = s.suspend(!x);
                    ran();
                    w
                }
            };
            ran();
            r
        });
        struct Obj2;
        impl Drop for Obj2 { fn drop(&mut self) { log(live()) } }
        let x = any();
        ck(outer.resume(x) == CoroutineResult::Yield(!x), 2);
        ckeq(STK2.dropped(), 0, 3);
        if choice(2) == 0 {
            outer.force_unwind();
            ck(outer.done(), 4);
        } else {
            drop(outer)
        }
        ckeq(live(), 0, 5);
        ckeq(unsafe { RAN }, 0, 6);
        ckeq(STK2.dropped(), 1, 7);
    }
    ckeq(STK.dropped(), 1, 8);
    ck(!std::thread::panicking(), 9);
    ckeq(heap_live(), heap, 10);
    cover(how);
}

/// a coroutine dropped because its owner panics
fn during_panic() {
    let heap = heap_live();
    {
        let x = any();
        let deep = choice(2);
        let r = catch(|| {
            let _o = Obj::new();
            let mut co = Co::with_stack(VStack::counted(65536, &STK), |s, a| {
                let _b = Obj::new();
                let r = s.suspend(a);
                ran();
                r
            });
            ck(co.resume(x) == CoroutineResult::Yield(x), 1);
            if deep == 1 {
                // the panic starts on another coroutine's stack
                let mut other = Co::with_stack(VStack::counted(65536, &STK2), |_, a| {
                    let _c = Obj::new();
                    throw(a)
                });
                let _ = other.resume(x);
            }
            throw(x)
        });
        match r { Err(p) => ckeq(p.downcast_ref::<usize>().copied().unwrap_or(!x), x, 2), Ok(()) => ck(false, 3) }
        ckeq(live(), 0, 4);
        ckeq(unsafe { RAN }, 0, 5);
        ckeq(STK.dropped(), 1, 6);
        ckeq(STK2.dropped(), deep, 7);
        ck(!std::thread::panicking(), 8);
        cover(deep);
    }
    ckeq(heap_live(), heap, 9);
}

/// several coroutines dropped in any order
fn many() {
    let heap = heap_live();
    {
        let mk = || Co::with_stack(VStack::counted(32768, &STK), |s, mut a| {
            static T: Cnt = Cnt::new();
            loop {
                let _t = Tok::new(&T, ());
                a = s.suspend(a ^ (T.made() - T.dropped()));
            }
        });
        let mut v = [Some(mk()), Some(mk()), Some(mk())];
        let x = any();
        let mut i = 0;
        while i < 3 { ck(v[i].as_mut().unwrap().resume(x) == CoroutineResult::Yield(x ^ (i + 1)), 1); i += 1 }
        let mut left = 3;
        while left > 0 {
            let k = choice(3);
            assume(v[k].is_some());
            if choice(2) == 0 { v[k].as_mut().unwrap().force_unwind(); ck(v[k].as_ref().unwrap().done(), 2) }
            v[k] = None;
            left -= 1;
            ckeq(STK.dropped(), 3 - left, 3);
            let mut j = 0;
            while j < 3 {
                if let Some(c) = v[j].as_mut() {
                    let y = any();
                    ck(c.resume(y) == CoroutineResult::Yield(y ^ left), 4);
                    break;
                }
                j += 1;
            }
        }
    }
    ckeq(heap_live(), heap, 5);
    cover(1);
}

scenarios! {
    fn chain_s() { chain(2, 1); }
    fn chain_l() { chain(8, 4); }
    fn pattern3() { pattern(3); }
    fn pattern5() { pattern(5); }
    fn pattern7() { pattern(7); }
    fn swallow() { swallowed(choice(5)); }
    fn foreign_payload() { foreign(); }
    fn nested() { through(choice(4)); }
    fn panicking() { during_panic(); }
    fn several() { many(); }
    /// dropping a coroutine that refuses to unwind must not continue
    fn drop_swallow() {
        let how = choice(3);
        let mut co = Co::with_stack(VStack::new(65536), move |s, a| {
            match catch(|| s.suspend(a)) {
                Ok(v) => v,
                Err(_) => match how { 0 => 1, 1 => s.suspend(2), _ => throw(3usize) }
            }
        });
        let x = any();
        ck(co.resume(x) == CoroutineResult::Yield(x), 1);
        cover(how);
        expect_abort(true);
        let r = catch(|| drop(co));
        // 2: the body's own panic comes out of the drop, which panics again
        log(r.is_err() as usize);
        ck(false, 2);
    }
}
