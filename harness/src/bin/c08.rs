//! C08: a panic inside a coroutine reaches its latest resumer once, payload intact.
#![allow(static_mut_refs)]
use hx::*;
use std::any::Any;

type Co = Coroutine<usize, usize, usize, VStack>;
type Y = Yielder<usize, usize>;
static STK: Cnt = Cnt::new();
static PAYC: Cnt = Cnt::new();
static OBJ: Cnt = Cnt::new();
static OBJ2: Cnt = Cnt::new();
static mut WHERE: usize = 0; // address of the payload's box
static mut RAN: usize = 0;

/// payload with identity: arbitrary content, reports its destruction
struct Pay<C: Val>(C, Box<C>, Tok<()>);
fn raise<C: Val + Send>(sel: usize) -> ! {
    match sel {
        0 => {
            let v = C::any();
            let k = Box::new(v.dup());
            let b: Box<Pay<C>> = Box::new(Pay(v, k, Tok::new(&PAYC, ())));
            unsafe { WHERE = &*b as *const Pay<C> as *const u8 as usize };
            std::panic::resume_unwind(b)
        }
        1 => {
            let b: Box<usize> = Box::new(sel);
            unsafe { WHERE = &*b as *const usize as usize };
            std::panic::resume_unwind(b)
        }
        _ => {
            unsafe { WHERE = 1 };
            std::panic::resume_unwind(Box::new(()))
        }
    }
}
unsafe impl<C: Val + Send> Send for Pay<C> {}
/// exactly the object that was thrown, not yet destroyed
fn caught<C: Val>(e: Box<dyn Any + Send>, sel: usize, id: usize) {
    match sel {
        0 => match e.downcast::<Pay<C>>() {
            Ok(p) => {
                ckeq(&*p as *const Pay<C> as *const u8 as usize, unsafe { WHERE }, id);
                ckmem(&p.0, &*p.1, id);
                ckeq(PAYC.dropped() + 1, PAYC.made(), id);
                drop(p);
                ckeq(PAYC.dropped(), PAYC.made(), id);
            }
            Err(_) => ck(false, id),
        },
        1 => match e.downcast::<usize>() {
            Ok(p) => {
                ckeq(&*p as *const usize as usize, unsafe { WHERE }, id);
                ckeq(*p, sel, id);
            }
            Err(_) => ck(false, id),
        },
        _ => ck(e.is::<()>(), id),
    }
}
fn after(co: &mut Co, id: usize) {
    ck(co.done(), id);
    ck(co.started(), id);
    ck(!std::thread::panicking(), id);
    let n = unsafe { RAN };
    ck(catch(|| co.resume(1)).is_err(), id);
    ckeq(unsafe { RAN }, n, id);
    co.force_unwind();
    ck(co.done(), id);
}

/// the whole life: n suspensions, then a panic at depth d
#[inline(never)]
fn down<C: Val + Send>(s: &Y, d: usize, n: usize, x: usize, sel: usize) -> usize {
    let _a = Tok::new(&OBJ, [x; 3]);
    if d > 0 {
        let r = down::<C>(s, d - 1, n, x, sel);
        unsafe { RAN += 100 };
        return r ^ 1;
    }
    let mut y = x;
    let mut k = 0;
    while k < n {
        y = s.suspend(y);
        k += 1;
    }
    let _b = Tok::new(&OBJ2, [x; 3]);
    unsafe { RAN += 1 };
    raise::<C>(sel)
}
#[inline(never)]
fn life<C: Val + Send>(maxd: usize, maxn: usize) {
    let heap = heap_live();
    let (d, n, sel) = (choice(maxd + 1), choice(maxn + 1), choice(3));
    let mut co = Co::with_stack(VStack::counted(65536, &STK), move |s, x| down::<C>(s, d, n, x, sel));
    let mut k = 0;
    while k < n {
        let x = any();
        ck(co.resume(x) == CoroutineResult::Yield(x), 1);
        k += 1;
    }
    let local = Tok::new(&OBJ, [7; 3]);
    match catch(|| {
        // also passes frames of the resumer
        let _l = Tok::new(&OBJ, [8; 3]);
        let r = co.resume(9);
        unsafe { RAN += 1000 };
        r
    }) {
        Ok(_) => ck(false, 2),
        Err(e) => caught::<C>(e, sel, 3),
    }
    ckeq(OBJ.made() - OBJ.dropped(), 1, 4);
    ckeq(OBJ2.dropped(), 1, 5);
    ckeq(unsafe { RAN }, 1, 6);
    after(&mut co, 7);
    ckeq(STK.dropped(), 0, 8);
    if choice(2) == 0 { drop(co) } else { drop(co.into_stack()) }
    ckeq(STK.dropped(), 1, 9);
    ckeq(OBJ2.dropped(), 1, 10);
    drop(local);
    ckeq(heap_live(), heap, 11);
    cover(sel);
    cover(10 + d);
    cover(20 + n);
}

/// the latest resumer is another one than the first
fn moved() {
    let heap = heap_live();
    {
        let first = choice(2); // who resumes first: main or a coroutine
        let sel = choice(3);
        let mut co = Co::with_stack(VStack::counted(65536, &STK), move |s, x| {
            let _o = Tok::new(&OBJ, [x; 3]);
            let y = s.suspend(x);
            log(y);
            raise::<B<9>>(sel)
        });
        let x = any();
        if first == 0 {
            ck(co.resume(x) == CoroutineResult::Yield(x), 1);
            // now from inside another coroutine that catches
            let mut o = Coroutine::<(), (), Co, VStack>::with_stack(VStack::new(65536), move |_, ()| {
                let mut co = co;
                match catch(|| co.resume(x)) {
                    Ok(_) => ck(false, 2),
                    Err(e) => caught::<B<9>>(e, sel, 3),
                }
                after(&mut co, 4);
                co
            });
            match o.resume(()) {
                CoroutineResult::Return(c) => { drop(c); cover(1) }
                _ => ck(false, 5),
            }
            ck(o.done(), 6);
        } else {
            let mut o = Coroutine::<(), Co, (), VStack>::with_stack(VStack::new(65536), move |s, ()| {
                let mut co = co;
                ck(co.resume(x) == CoroutineResult::Yield(x), 7);
                s.suspend(co);
            });
            let mut co = match o.resume(()) {
                CoroutineResult::Yield(c) => c,
                _ => { ck(false, 8); loop {} }
            };
            match catch(|| co.resume(x)) {
                Ok(_) => ck(false, 9),
                Err(e) => caught::<B<9>>(e, sel, 10),
            }
            after(&mut co, 11);
            // the other one never saw it
            ck(!o.done(), 12);
            ck(matches!(o.resume(()), CoroutineResult::Return(())), 13);
            cover(2);
        }
        ckeq(OBJ.dropped(), 1, 14);
    }
    ckeq(STK.dropped(), 1, 15);
    ckeq(heap_live(), heap, 16);
}

/// from the innermost of three coroutines through the others, caught at any level
fn levels() {
    let heap = heap_live();
    {
        let at = choice(3); // 0: innermost's resumer, 1: next, 2: main
        let sel = choice(2);
        let mut a = Co::with_stack(VStack::counted(65536, &STK), move |_, x| {
            let _o = Tok::new(&OBJ, [x; 3]);
            let mut b = Co::with_stack(VStack::counted(65536, &STK), move |_, x| {
                let _o = Tok::new(&OBJ, [x; 3]);
                let mut c = Co::with_stack(VStack::counted(65536, &STK), move |_, x| {
                    let _o = Tok::new(&OBJ, [x; 3]);
                    raise::<usize>(sel)
                });
                if at == 0 {
                    match catch(|| c.resume(x)) { Ok(_) => ck(false, 1), Err(e) => caught::<usize>(e, sel, 2) }
                    return x;
                }
                let _ = c.resume(x);
                unsafe { RAN += 1 };
                0
            });
            if at == 1 {
                match catch(|| b.resume(x)) { Ok(_) => ck(false, 3), Err(e) => caught::<usize>(e, sel, 4) }
                return x;
            }
            match b.resume(x) {
                CoroutineResult::Return(v) if at == 0 => v,
                _ => { unsafe { RAN += 1 }; 0 }
            }
        });
        let x = any();
        match catch(|| a.resume(x)) {
            Ok(r) => { ck(r == CoroutineResult::Return(x), 5); ck(at < 2, 6) }
            Err(e) => { ckeq(at, 2, 7); caught::<usize>(e, sel, 8) }
        }
        ckeq(unsafe { RAN }, 0, 9);
        ckeq(OBJ.dropped(), 3, 10);
        ckeq(STK.dropped(), 2, 11);
        ck(a.done(), 12);
        cover(at);
    }
    ckeq(STK.dropped(), 3, 13);
    ck(!std::thread::panicking(), 14);
    ckeq(heap_live(), heap, 15);
}

/// panics of on_stack and on_parent_stack closures reach their caller; the coroutine goes on or passes them on
fn calls() {
    let heap = heap_live();
    {
        let (kind, handle, sel) = (choice(3), choice(2), choice(3));
        let mut co = Co::with_stack(VStack::counted(65536, &STK), move |s, x| {
            let _o = Tok::new(&OBJ, [x; 3]);
            let t = Tok::new(&OBJ2, [x; 3]);
            let go = || match kind {
                0 => on_stack(VStack::counted(65536, &STK), move || { let _t = t; raise::<B<17>>(sel) }),
                1 => s.on_parent_stack(move || { let _t = SendIt(t); raise::<B<17>>(sel) }),
                _ => on_stack(VStack::counted(65536, &STK), || s.on_parent_stack(move || { let _t = SendIt(t); raise::<B<17>>(sel) })),
            };
            if handle == 0 {
                let r: Result<usize, _> = catch(go);
                match r { Ok(_) => ck(false, 1), Err(e) => caught::<B<17>>(e, sel, 2) }
                ckeq(OBJ2.dropped(), 1, 3);
                ck(!std::thread::panicking(), 4);
                let y = s.suspend(x);
                y
            } else {
                let r: usize = go();
                r
            }
        });
        let x = any();
        if handle == 0 {
            ck(co.resume(x) == CoroutineResult::Yield(x), 5);
            ckeq(STK.dropped(), (kind != 1) as usize, 6);
            let y = any();
            ck(co.resume(y) == CoroutineResult::Return(y), 7);
        } else {
            match catch(|| co.resume(x)) { Ok(_) => ck(false, 8), Err(e) => caught::<B<17>>(e, sel, 9) }
            ckeq(STK.dropped(), (kind != 1) as usize, 10);
        }
        after(&mut co, 11);
        ckeq(OBJ.dropped(), 1, 12);
        ckeq(OBJ2.dropped(), 1, 13);
        cover(kind);
        cover(10 + handle);
    }
    ckeq(heap_live(), heap, 14);
}
struct SendIt<T>(#[allow(dead_code)] T);
unsafe impl<T> Send for SendIt<T> {}

/// main program: on_stack outside of any coroutine, nested twice
fn plain_calls() {
    let heap = heap_live();
    {
        let sel = choice(3);
        let inner = choice(2);
        let r: Result<usize, _> = catch(|| {
            let _o = Tok::new(&OBJ, [1; 3]);
            on_stack(VStack::counted(65536, &STK), || {
                let _o = Tok::new(&OBJ, [1; 3]);
                if inner == 1 {
                    let r: Result<usize, _> = catch(|| on_stack(VStack::counted(65536, &STK), || { let _o = Tok::new(&OBJ, [1; 3]); raise::<u8>(1) }));
                    match r { Ok(_) => ck(false, 1), Err(e) => caught::<u8>(e, 1, 2) }
                    ckeq(STK.dropped(), 1, 3);
                }
                raise::<u8>(sel)
            })
        });
        match r { Ok(_) => ck(false, 4), Err(e) => caught::<u8>(e, sel, 5) }
        ckeq(OBJ.dropped(), 2 + inner, 6);
        ckeq(STK.dropped(), 1 + inner, 7);
        ck(!std::thread::panicking(), 8);
        cover(inner);
    }
    ckeq(heap_live(), heap, 9);
}

/// a recovery closure that panics, after a trap anywhere
mod trap {
    use super::*;
    static mut TH: Option<CoroutineTrapHandler<usize>> = None;
    static mut SEL: usize = 0;
    unsafe extern "C" fn on_trap(ctx: *mut usize) {
        let t = Tok::new(&OBJ2, [1; 3]);
        let sel = SEL;
        let r = TH.as_ref().unwrap().setup_trap_handler(move || {
            let _t = t;
            raise::<[usize; 3]>(sel)
        });
        set_ctx(ctx, &r);
    }
    pub fn go() {
        let heap = heap_live();
        {
            let sel = choice(3);
            let st = VStack::counted(65536, &STK);
            let lim = st.limit;
            let n = choice(2);
            let mut co = Co::with_stack(st, move |s, mut x| {
                if n == 1 { x = s.suspend(x) }
                trap_now(lim + (x & 0xfff0))
            });
            unsafe {
                TRAP_HANDLER = Some(on_trap);
                TH = Some(co.trap_handler());
                SEL = sel;
            }
            let x = any();
            if n == 1 { ck(co.resume(x) == CoroutineResult::Yield(x), 1) }
            match catch(|| co.resume(x)) { Ok(_) => ck(false, 2), Err(e) => caught::<[usize; 3]>(e, sel, 3) }
            ckeq(OBJ2.dropped(), 1, 4);
            after(&mut co, 5);
            ckeq(STK.dropped(), 0, 6);
            cover(n);
        }
        ckeq(STK.dropped(), 1, 7);
        ckeq(heap_live(), heap, 8);
    }
}

/// panics that are caught inside never leave; the coroutine can panic again later
fn inside() {
    let heap = heap_live();
    {
        let n = choice(3);
        let end = choice(2);
        let mut co = Co::with_stack(VStack::counted(65536, &STK), move |s, mut x| {
            let mut k = 0;
            while k < n {
                let r: Result<usize, _> = catch(|| { let y = s.suspend(x); log(y); raise::<B<3>>(0) });
                match r { Ok(_) => ck(false, 1), Err(e) => caught::<B<3>>(e, 0, 2) }
                ck(!std::thread::panicking(), 3);
                x = s.suspend(!x);
                k += 1;
            }
            if end == 0 { x } else { raise::<B<3>>(1) }
        });
        let mut x = any();
        let mut k = 0;
        while k < n {
            ck(co.resume(x) == CoroutineResult::Yield(x), 4);
            ck(co.resume(7) == CoroutineResult::Yield(!x), 5);
            ck(!std::thread::panicking(), 6);
            x = any();
            k += 1;
        }
        match catch(|| co.resume(x)) {
            Ok(r) => { ck(end == 0 && r == CoroutineResult::Return(x), 7) }
            Err(e) => { ckeq(end, 1, 8); caught::<B<3>>(e, 1, 9) }
        }
        ck(co.done(), 10);
        cover(n);
    }
    ckeq(heap_live(), heap, 11);
}

/// while the resumer is unwinding already
fn cleanup() {
    let heap = heap_live();
    {
        struct D(Option<Co>, usize);
        impl Drop for D {
            fn drop(&mut self) {
                let mut c = self.0.take().unwrap();
                match catch(|| c.resume(self.1)) { Ok(_) => ck(false, 1), Err(e) => ckeq(e.downcast_ref::<usize>().copied().unwrap_or(!self.1), self.1, 2) }
                ck(c.done(), 3);
                cover(5);
            }
        }
        let (x, y) = (any(), any());
        let deep = choice(2);
        let co = Co::with_stack(VStack::counted(65536, &STK), |_, a| throw(a));
        let r = catch(|| {
            let d = D(Some(co), x);
            if deep == 1 {
                let mut o = Co::with_stack(VStack::new(65536), move |_, a| { let _d = d; throw(a) });
                let _ = o.resume(y);
            } else {
                let _d = d;
                throw(y)
            }
        });
        match r { Ok(_) => ck(false, 4), Err(e) => ckeq(e.downcast_ref::<usize>().copied().unwrap_or(!y), y, 5) }
        ckeq(STK.dropped(), 1, 6);
        ck(!std::thread::panicking(), 7);
    }
    ckeq(heap_live(), heap, 8);
}

/// a panic that the body raises in answer to its forced unwind reaches the one who forced it
fn answer() {
    let heap = heap_live();
    {
        let (sel, n, ctx) = (choice(3), choice(2), choice(3));
        let mut co = Co::with_stack(VStack::counted(65536, &STK), move |s, x| {
            let _o = Tok::new(&OBJ, [x; 3]);
            let mut k = 0;
            while k < n {
                s.suspend(x);
                k += 1;
            }
            match catch(|| s.suspend(x)) {
                Ok(v) => v,
                Err(e) => {
                    // handled: the coroutine may do anything now
                    drop(e);
                    ck(!std::thread::panicking(), 1);
                    let _p = Tok::new(&OBJ2, [x; 3]);
                    raise::<B<12>>(sel)
                }
            }
        });
        let x = any();
        let mut k = 0;
        while k <= n {
            ck(co.resume(x) == CoroutineResult::Yield(x), 2);
            k += 1;
        }
        let local = Tok::new(&OBJ, [7; 3]);
        let c = &mut co;
        match ctx {
            0 => match catch(|| c.force_unwind()) { Ok(_) => ck(false, 3), Err(e) => caught::<B<12>>(e, sel, 4) },
            1 => match catch(|| on_stack(VStack::new(65536), || c.force_unwind())) { Ok(_) => ck(false, 5), Err(e) => caught::<B<12>>(e, sel, 6) },
            _ => {
                // from inside a coroutine that lets it pass
                let c = core::ptr::addr_of_mut!(*c) as usize;
                let mut o = Co::with_stack(VStack::new(65536), move |_, x| { unsafe { (*(c as *mut Co)).force_unwind() } x });
                match catch(|| o.resume(x)) { Ok(_) => ck(false, 7), Err(e) => caught::<B<12>>(e, sel, 8) }
                ck(o.done(), 9);
            }
        }
        ckeq(OBJ.made() - OBJ.dropped(), 1, 10);
        ckeq(OBJ2.dropped(), 1, 11);
        after(&mut co, 12);
        ckeq(STK.dropped(), 0, 13);
        drop(co);
        drop(local);
        cover(ctx);
        cover(10 + n);
    }
    ckeq(STK.dropped(), 1, 14);
    ckeq(heap_live(), heap, 15);
}

scenarios! {
    fn answered() { answer(); }
    fn life_small() { life::<usize>(1, 1); }
    fn life_big() { life::<[usize; 40]>(2, 2); }
    fn life_align() { life::<A32<40>>(1, 1); }
    fn life_deep() { life::<[u8; 3]>(6, 6); }
    fn other_resumer() { moved(); }
    fn three_levels() { levels(); }
    fn on_calls() { calls(); }
    fn main_calls() { plain_calls(); }
    fn trapped() { trap::go(); }
    fn caught_inside() { inside(); }
    fn in_cleanup() { cleanup(); }
}
