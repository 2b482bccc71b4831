//! C24: coroutines of different threads are independent; a suspended coroutine or a stack may continue on another thread.
#![allow(static_mut_refs)]
use corosensei::stack::DefaultStack;
use hx::*;

/// the counter outlives everything that refers to it
fn leak(c: &Cnt) -> &'static Cnt { unsafe { &*(c as *const Cnt) } }

/// values of one type through two suspensions
#[inline(never)]
fn exchange<T: Val, S: Stack + 'static>(s: S) -> S {
    let a = [T::any(), T::any()];
    let b = [T::any(), T::any()];
    let (pa, pb) = (&a as *const [T; 2] as usize, &b as *const [T; 2] as usize);
    let mut c = Coroutine::<T, T, T, S>::with_stack(s, move |y, x| {
        let (a, b) = unsafe { (&*(pa as *const [T; 2]), &*(pb as *const [T; 2])) };
        ckmem(&x, &a[0], 1);
        let x = y.suspend(b[0].dup());
        ckmem(&x, &a[1], 2);
        b[1].dup()
    });
    ck(!c.started(), 3);
    match c.resume(a[0].dup()) { CoroutineResult::Yield(v) => ckmem(&v, &b[0], 4), _ => ck(false, 5) }
    ck(c.started() && !c.done(), 6);
    match c.resume(a[1].dup()) { CoroutineResult::Return(v) => ckmem(&v, &b[1], 7), _ => ck(false, 8) }
    ck(c.done(), 9);
    c.into_stack()
}
/// a coroutine that is abandoned while suspended, or ends in a panic
#[cfg(feature = "unwind")]
#[inline(never)]
fn unwound<S: Stack + 'static>(s: S, panic: bool) {
    let cnt = Cnt::new();
    let k = leak(&cnt);
    let v = any();
    let mut c = Coroutine::<usize, usize, usize, S>::with_stack(s, move |y, x| {
        let t = Tok::new(k, x);
        if panic { throw(t.v ^ 5) }
        y.suspend(t.v);
        ck(false, 20);
        0
    });
    let r = catch(|| c.resume(v));
    if panic {
        match r { Err(e) => ckeq(e.downcast_ref::<usize>().copied().unwrap_or(!v), v ^ 5, 21), _ => ck(false, 22) }
    } else {
        match r { Ok(CoroutineResult::Yield(x)) => ckeq(x, v, 23), _ => ck(false, 24) }
        ckeq(k.dropped(), 0, 25);
        c.force_unwind();
    }
    ck(c.done(), 26);
    ckeq(k.dropped(), 1, 27);
    ck(!std::thread::panicking(), 28);
}
/// on_stack and on_parent_stack
#[inline(never)]
fn calls(s: VStack, mut t: VStack) {
    let v = any();
    let here = unsafe { v_sp() };
    let mut c = Coroutine::<usize, usize, usize, VStack>::with_stack(s, move |y, x| {
        ck(unsafe { v_sp() } != here, 30);
        let p = y.on_parent_stack(move || { ck(here.wrapping_sub(unsafe { v_sp() }) < 8192, 31); x ^ 1 });
        ckeq(p, x ^ 1, 32);
        y.suspend(p);
        let (lo, hi) = (t.limit, t.base);
        let q = on_stack(&mut t, move || { let sp = unsafe { v_sp() }; ck(sp >= lo && sp < hi, 33); x ^ 2 });
        ckeq(q, x ^ 2, 34);
        q
    });
    match c.resume(v) { CoroutineResult::Yield(x) => ckeq(x, v ^ 1, 35), _ => ck(false, 36) }
    match c.resume(v) { CoroutineResult::Return(x) => ckeq(x, v ^ 2, 37), _ => ck(false, 38) }
}
/// a body that never runs
#[inline(never)]
fn fresh(s: VStack) {
    let cnt = Cnt::new();
    let k = leak(&cnt);
    let t = Tok::new(k, any());
    let c = Coroutine::<usize, usize, usize, VStack>::with_stack(s, move |_, _| { ck(false, 40); let u = t; u.v });
    ckeq(k.dropped(), 0, 41);
    drop(c);
    ckeq(k.dropped(), 1, 42);
}
const SZ: usize = 1 << 16;
fn stack() -> VStack { VStack::new(SZ) }
fn default_stack(n: usize) -> DefaultStack {
    match DefaultStack::new(n) { Ok(s) => { ck(s.base().get() - s.limit().get() >= n, 50); s } Err(_) => { ck(false, 51); loop {} } }
}
#[inline(never)]
fn op(k: usize) {
    match k {
        0 => drop(exchange::<usize, _>(stack())),
        1 => drop(exchange::<B<40>, _>(stack())),
        2 => drop(exchange::<u8, _>(default_stack(SZ))),
        3 => calls(stack(), stack()),
        4 => fresh(stack()),
        #[cfg(feature = "unwind")]
        5 => unwound(stack(), false),
        #[cfg(feature = "unwind")]
        6 => unwound(default_stack(SZ), true),
        _ => drop(exchange::<[usize; 2], _>(stack())),
    }
    cover(k);
}
#[cfg(feature = "unwind")]
const NOP: usize = 8;
#[cfg(not(feature = "unwind"))]
const NOP: usize = 6;
unsafe extern "C-unwind" fn one(_: *mut u8) { op(choice(NOP)); log(0) }
unsafe extern "C-unwind" fn mem2(_: *mut u8) {
    let mut i = 0;
    while i < 2 {
        let k = if i == 0 { choice(3) } else { 0 };
        // two default stacks in a row, also of different sizes, also both alive
        let a = default_stack(if k == 0 { SZ } else { 2 * SZ });
        if k == 2 {
            let b = default_stack(SZ);
            ck(a.base() <= b.limit() || b.base() <= a.limit(), 60);
            drop(exchange::<usize, _>(b));
        }
        drop(exchange::<usize, _>(a));
        i += 1;
    }
    log(0)
}
fn some() -> usize {
    match choice(4) { 0 => 1, 1 => 2, 2 => 3, _ => if cfg!(feature = "unwind") { 5 } else { 4 } }
}
unsafe extern "C-unwind" fn two(_: *mut u8) { op(some()); op(some()); log(0) }
unsafe extern "C-unwind" fn single(_: *mut u8) { op(some()); log(0) }

// ---------------------------------------------------------------- moving between threads
struct Move {
    c: Option<Coroutine<usize, usize, usize, VStack>>,
    k: &'static Cnt,
    /// stack pointer of the latest resumer, what was sent and given last
    sp: usize,
    sent: usize,
    gave: usize,
    end: usize,
    left: usize,
    back: Option<VStack>,
}
/// the coroutine body; m outlives the coroutine
fn body(y: &Yielder<usize, usize>, mut x: usize, m: *mut Move) -> usize {
    let m = unsafe { &mut *m };
    let t = Tok::new(m.k, x);
    loop {
        ckeq(x, m.sent, 70);
        let top = m.sp;
        // the resumer's stack is that of the thread which resumed last
        let q = y.on_parent_stack(move || top.wrapping_sub(unsafe { v_sp() }) < 16384);
        ck(q, 71);
        m.gave = x ^ t.v ^ 9;
        match m.end {
            1 => return m.gave,
            #[cfg(feature = "unwind")]
            2 => throw(m.gave),
            _ => {}
        }
        x = y.suspend(m.gave);
    }
}
#[inline(never)]
fn turn(m: &mut Move) {
    m.left -= 1;
    m.end = if m.left > 0 { 0 } else if cfg!(feature = "unwind") { choice(5) } else { 1 };
    let v = any();
    m.sent = v;
    let p = m as *mut Move;
    match m.end {
        3 => { if let Some(mut c) = m.c.take() { c.force_unwind(); ck(c.done(), 75); m.back = Some(c.into_stack()) } }
        4 => m.c = None,
        _ => {
            let mut out = None;
            guard_p(|| {
                let m = unsafe { &mut *p };
                m.sp = unsafe { v_sp() };
                if let Some(c) = &mut m.c { out = Some(catch(|| c.resume(v))) }
            }, 80);
            match out {
                Some(Ok(CoroutineResult::Yield(x))) => { ckeq(m.end, 0, 76); ckeq(x, m.gave, 77) }
                Some(Ok(CoroutineResult::Return(x))) => { ckeq(m.end, 1, 78); ckeq(x, m.gave, 79) }
                Some(Err(e)) => { ckeq(m.end, 2, 90); ckeq(e.downcast_ref::<usize>().copied().unwrap_or(!m.gave), m.gave, 91) }
                None => {}
            }
            let done = match &m.c { Some(c) => c.done(), None => false };
            ck(done == (m.end != 0), 92);
            if done { m.back = m.c.take().map(|c| c.into_stack()) }
        }
    }
    ck(!std::thread::panicking(), 93);
    ckeq(m.k.dropped(), (m.end != 0) as usize * m.k.made(), 94);
    cover(100 + m.end);
}
unsafe extern "C-unwind" fn turn_t(p: *mut u8) { turn(&mut *(p as *mut Move)); log(0) }
unsafe extern "C-unwind" fn reuse_t(p: *mut u8) {
    let m = &mut *(p as *mut Move);
    if let Some(s) = m.back.take() { m.back = Some(exchange::<usize, _>(s)) }
    log(0)
}
fn on_thread(f: ThreadFn, m: &mut Move) {
    if choice(2) == 0 { unsafe { f(m as *mut Move as *mut u8) } } else { unsafe { v_threads(Some(f), m as *mut Move as *mut u8, None, core::ptr::null_mut()) } }
}
fn migrate(n: usize) {
    let mut m = Move { c: None, k: cnt!(), sp: 0, sent: 0, gave: 0, end: 0, left: n, back: None };
    let p = &mut m as *mut Move as usize;
    m.c = Some(Coroutine::with_stack(stack(), move |y, x| body(y, x, p as *mut Move)));
    while m.left > 0 { on_thread(turn_t, &mut m) }
    // the stack it left behind hosts another coroutine, on any thread
    if m.back.is_some() { on_thread(reuse_t, &mut m) }
    drop(m.back.take());
    ck((m.end == 0) == m.c.is_some(), 96);
    m.c = None;
    ckeq(m.k.dropped(), m.k.made(), 97);
}

scenarios! {
    fn pair() {
        unsafe { v_threads(Some(one), core::ptr::null_mut(), Some(one), core::ptr::null_mut()) }
        cover(99);
    }
    fn memory() {
        unsafe { v_threads(Some(mem2), core::ptr::null_mut(), Some(mem2), core::ptr::null_mut()) }
        cover(99);
    }
    fn longer() {
        unsafe { v_threads(Some(two), core::ptr::null_mut(), Some(single), core::ptr::null_mut()) }
        cover(99);
    }
    fn longest() {
        unsafe { v_threads(Some(two), core::ptr::null_mut(), Some(two), core::ptr::null_mut()) }
        cover(99);
    }
    fn migrate2() { migrate(2) }
    fn migrate3() { migrate(3) }
    fn migrate5() { migrate(5) }
}
