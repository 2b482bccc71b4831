//! C11: on_stack runs the closure once on the given stack and hands back its outcome.
#![allow(static_mut_refs)]
use hx::*;

type Co = Coroutine<usize, usize, usize, VStack>;
static STK: Cnt = Cnt::new();
static CAP: Cnt = Cnt::new();
static RES: Cnt = Cnt::new();
static mut RUNS: usize = 0;

/// every byte of captures and result, the place of execution, the number of executions, releases and their order
#[inline(never)]
fn one<C: Val, R: Val>(id: usize) {
    let (runs, drops, caps, ress) = unsafe { (RUNS, STK.dropped(), CAP.dropped(), RES.dropped()) };
    let c = C::any();
    let k = Box::new(c.dup());
    let r = R::any();
    let rk = Box::new(r.dup());
    let st = VStack::counted(65536, &STK);
    let (base, limit, sid) = (st.base, st.limit, st.id);
    let t = Tok::new(&CAP, ());
    let kp = &*k as *const C;
    let res = on_stack(st, move || {
        let sp = unsafe { v_sp() };
        ck(sp < base && sp >= limit, id);
        // starts at the base: almost all of it is still there
        ck(base - sp < 40000, id + 1);
        ckmem(&c, unsafe { &*kp }, id + 2);
        ckeq(STK.dropped(), drops, id + 3);
        unsafe { RUNS += 1 };
        let _t = t;
        stack_check(sid, id + 4);
        (r, Tok::new(&RES, ()))
    });
    ckeq(unsafe { RUNS }, runs + 1, id + 5);
    ckeq(CAP.dropped(), caps + 1, id + 6);
    ckeq(STK.dropped(), drops + 1, id + 7);
    ckeq(RES.dropped(), ress, id + 8);
    ck(CAP.last() < STK.last(), id + 9);
    ckmem(&res.0, &*rk, id + 10);
    drop(res);
    ckeq(RES.dropped(), ress + 1, id + 11);
}
macro_rules! pairs { ($($c:ty => $r:ty),*) => {{
    let fs: &[fn(usize)] = &[$( one::<$c, $r> ),*];
    let k = choice(fs.len());
    fs[k](100 * k);
    cover(k);
}} }

/// borrowed stacks are used and left alone; repeated and nested use, in any order
fn borrowed(steps: usize) {
    let mut a = VStack::counted(16384, &STK);
    let mut b = VStack::counted(16384, &STK);
    let mut k = 0;
    while k < steps {
        let x = any();
        let y = match choice(4) {
            0 => on_stack(&mut a, || { unsafe { RUNS += 1 }; !x }),
            1 => on_stack(&mut b, || { unsafe { RUNS += 1 }; !x }),
            2 => {
                let b = &mut b;
                on_stack(&mut a, move || {
                    let l = [x; 6];
                    let r = on_stack(&mut *b, || { unsafe { RUNS += 1 }; !x });
                    ckeq(vol(&l)[4], x, 1);
                    let r2 = on_stack(b, || r);
                    ckeq(vol(&l)[5], x, 2);
                    r2
                })
            }
            _ => {
                // an owned stack, inside a borrowed one
                let n = STK.dropped();
                let r = on_stack(&mut b, || on_stack(VStack::counted(16384, &STK), || { unsafe { RUNS += 1 }; ckeq(STK.dropped(), n, 3); !x }));
                ckeq(STK.dropped(), n + 1, 4);
                r
            }
        };
        ckeq(y, !x, 5);
        ckeq(unsafe { RUNS }, k + 1, 6);
        k += 1;
    }
    let n = STK.dropped();
    a.check(7);
    b.check(8);
    drop(a);
    drop(b);
    ckeq(STK.dropped(), n + 2, 9);
    cover(1);
}

/// suspension from within
fn suspended(nest: usize, times: usize) {
    #[inline(never)]
    fn level(s: &Yielder<usize, usize>, nest: usize, times: usize, mut x: usize) -> usize {
        let cap = Tok::new(&CAP, [x; 4]);
        on_stack(VStack::counted(16384, &STK), || {
            let l = [x; 6];
            let cap = cap;
            if nest > 0 {
                x = level(s, nest - 1, times, x);
            }
            let mut k = 0;
            while k < times {
                x = s.suspend(!x);
                k += 1;
            }
            ckeq(vol(&l)[2], cap.v[1], 1);
            x
        })
    }
    let mut co = Co::with_stack(VStack::new(16384), move |s, x| {
        let r = level(s, nest, times, x);
        ckeq(STK.dropped(), nest + 1, 2);
        ckeq(CAP.dropped(), nest + 1, 3);
        let y = s.suspend(r);
        log(level(s, 0, 0, y));
        y
    });
    let mut o = Co::with_stack(VStack::new(16384), |s, mut x| loop { x = s.suspend(x) });
    let mut x = any();
    let mut n = 0;
    while n < times * (nest + 1) {
        // from here or from inside another on_stack call
        let r = if choice(2) == 0 { co.resume(x) } else { on_stack(VStack::new(8192), || co.resume(x)) };
        ck(r == CoroutineResult::Yield(!x), 4);
        ck(o.resume(x) == CoroutineResult::Yield(x), 5);
        x = any();
        n += 1;
        ckeq(STK.dropped(), (n - 1) / times, 6);
    }
    ck(co.resume(x) == CoroutineResult::Yield(x), 7);
    ckeq(STK.dropped(), nest + 1, 8);
    ck(co.resume(x) == CoroutineResult::Return(x), 9);
    ckeq(STK.dropped(), nest + 2, 10);
    unsafe { o.force_reset() };
    cover(1);
}

/// outcomes: panics are re-raised after everything was released exactly once
#[cfg(feature = "unwind")]
fn panics() {
    let heap = heap_live();
    let own = choice(2);
    {
        let x = any();
        let how = choice(3);
        let mut mine = VStack::counted(65536, &STK);
        let t = Tok::new(&CAP, ());
        let r = catch(|| {
            let f = move || {
                unsafe { RUNS += 1 };
                let t = t;
                match how {
                    0 => throw(x),
                    1 => { let _r = Tok::new(&RES, ()); drop(t); throw(x) }
                    _ => Tok::new(&RES, x),
                }
            };
            if own == 0 { on_stack(VStack::counted(65536, &STK), f) } else { on_stack(&mut mine, f) }
        });
        ckeq(unsafe { RUNS }, 1, 1);
        ckeq(STK.dropped(), 1 - own, 2);
        ckeq(CAP.dropped(), 1, 3);
        if own == 0 { ck(CAP.last() < STK.last(), 4) }
        match r {
            Ok(t) => { ckeq(how, 2, 5); ckeq(t.v, x, 6); ckeq(RES.dropped(), 0, 7) }
            Err(e) => { ckeq(e.downcast_ref::<usize>().copied().unwrap_or(!x), x, 8); ck(how < 2, 9); ckeq(RES.dropped(), how, 10) }
        }
        ckeq(RES.dropped(), RES.made(), 11);
        ck(!std::thread::panicking(), 12);
        cover(how);
    }
    ckeq(STK.dropped(), 2 - own, 13);
    ckeq(heap_live(), heap, 14);
}

scenarios! {
    fn shapes_a() {
        pairs!(() => (), () => u8, u8 => (), u16 => u32, B<3> => B<5>, usize => usize, u64 => u64, B<7> => [usize; 2], u128 => u128, B<17> => B<33>);
    }
    fn shapes_b() {
        pairs!(B<100> => (), () => B<100>, [usize; 33] => [usize; 35], B<1025> => B<3>, usize => B<1500>, [u16; 5] => A16<16>);
    }
    fn shapes_align() {
        pairs!(A32<32> => u8, u8 => A32<40>, A64<0> => A64<64>, usize => A128<1>);
    }
    fn reuse() { borrowed(3); }
    fn reuse5() { borrowed(5); }
    fn suspend1() { suspended(choice(2), 1); }
    fn suspend2() { suspended(1 + choice(2), 2); }
    #[cfg(feature = "unwind")]
    fn outcome() { panics(); }
    /// a stack with other base values than the usual ones is used as it says
    fn any_base() {
        // only part of a supplied area is offered as the stack
        struct Part<'a>(&'a mut VStack, usize, usize);
        unsafe impl Stack for Part<'_> {
            fn base(&self) -> StackPointer { StackPointer::new(self.1).unwrap() }
            fn limit(&self) -> StackPointer { StackPointer::new(self.2).unwrap() }
            teb_of!(0);
        }
        let mut whole = VStack::new(16384);
        let off = choice(4) * 16 + 16;
        let (b, l) = (whole.base - off, whole.base - off - 8192);
        let x = any();
        let above: Vec<usize> = (b..whole.base).step_by(WB).map(|a| unsafe { (a as *const usize).read_volatile() }).collect();
        let r = on_stack(Part(&mut whole, b, l), || {
            let sp = unsafe { v_sp() };
            ck(sp < b && sp >= l, 1);
            x
        });
        ckeq(r, x, 2);
        // nothing above the given base was touched
        for (k, v) in above.iter().enumerate() {
            ckeq(unsafe { ((b + k * WB) as *const usize).read_volatile() }, *v, 3);
        }
        cover(1);
    }
}
