//! C15: a coroutine owns its stack: released once, after its contents, or handed back.
#![allow(static_mut_refs)]
use hx::*;

static STK: Cnt = Cnt::new();
static CAP: Cnt = Cnt::new();
static OBJ: Cnt = Cnt::new();

/// a stack object with some state of its own
struct Rich<const N: usize> {
    head: B<N>,
    st: VStack,
    tail: usize,
}
unsafe impl<const N: usize> Stack for Rich<N> {
    fn base(&self) -> StackPointer { self.st.base() }
    fn limit(&self) -> StackPointer { self.st.limit() }
    teb_of!(st);
}
impl<const N: usize> Rich<N> {
    fn new(size: usize) -> Self {
        Rich { head: B::any(), st: VStack::counted(size, &STK), tail: any() }
    }
}

/// how the coroutine got there: 0 fresh, 1 suspended, 2 returned, 3 reset, 4 force-unwound, 5 panicked
const STAGES: usize = if cfg!(feature = "unwind") { 6 } else { 4 };
fn bring<S: Stack>(stk: S, stage: usize, boom: usize) -> Coroutine<usize, usize, usize, S> {
    let t = Tok::new(&CAP, [boom; 3]);
    let mut co = Coroutine::<usize, usize, usize, S>::with_stack(stk, move |s, x| {
        let _t = t;
        let o = Tok::new(&OBJ, [x; 3]);
        let y = s.suspend(x);
        ckeq(o.v[2], x, 1);
        #[cfg(feature = "unwind")]
        if boom == 1 {
            throw(y)
        }
        y
    });
    let x = any();
    if stage != 0 {
        ck(co.resume(x) == CoroutineResult::Yield(x), 2);
    }
    match stage {
        2 => ck(co.resume(x) == CoroutineResult::Return(x), 3),
        3 => unsafe { co.force_reset() },
        #[cfg(feature = "unwind")]
        4 => co.force_unwind(),
        #[cfg(feature = "unwind")]
        5 => ck(catch(|| co.resume(x)).is_err(), 4),
        _ => {}
    }
    co
}
fn objects_gone(stage: usize, id: usize) {
    if stage != 3 {
        ckeq(CAP.dropped(), CAP.made(), id);
        ckeq(OBJ.dropped(), OBJ.made(), id + 1);
    }
}

/// dropping: the stack object goes last and once
fn dropped<const N: usize>() {
    let stage = choice(STAGES);
    let heap = heap_live();
    let co = bring(Rich::<N>::new(65536), stage, (stage == 5) as usize);
    ckeq(STK.dropped(), 0, 10);
    if cfg!(feature = "unwind") || stage != 1 {
        drop(co);
        ckeq(STK.dropped(), 1, 11);
        objects_gone(stage, 12);
        if stage != 3 {
            ck(CAP.last() < STK.last(), 14);
            ck(OBJ.last() < STK.last(), 15);
        }
        ckeq(heap_live(), heap, 16);
    } else {
        core::mem::forget(co);
    }
    cover(stage);
}

/// handing back: only when done; the object comes back as it was
#[cfg(feature = "unwind")]
fn handed_back<const N: usize>() {
    let stage = choice(STAGES);
    let heap = heap_live();
    let stk = Rich::<N>::new(65536);
    let (h, t, b, l) = (Box::new(stk.head), stk.tail, stk.st.base, stk.st.limit);
    let co = bring(stk, stage, (stage == 5) as usize);
    let r = catch(move || co.into_stack());
    match r {
        Ok(s) => {
            ck(stage >= 2, 20);
            ckeq(STK.dropped(), 0, 21);
            objects_gone(stage, 22);
            ckmem(&s.head, &*h, 24);
            ckeq(s.tail, t, 25);
            ckeq(s.st.base, b, 26);
            ckeq(s.st.limit, l, 27);
            stack_check(s.st.id, 28);
            drop(s);
        }
        Err(_) => {
            // refused; the coroutine is disposed of in the normal way
            ck(stage < 2, 29);
            objects_gone(stage, 30);
            ck(CAP.last() < STK.last(), 32);
        }
    }
    ckeq(STK.dropped(), 1, 33);
    drop(h);
    // (reporting a panic may allocate for good)
    ck(stage < 2 || heap_live() == heap, 34);
    cover(stage);
}

/// reuse, whatever the previous coroutine left there
fn reuse(rounds: usize) {
    let mut stk = VStack::counted(16384, &STK);
    let mut k = 0;
    while k < rounds {
        let stage = 2 + choice(if cfg!(feature = "unwind") { 3 } else { 2 });
        stk = match choice(3) {
            0 => one::<u8>(stk, stage),
            1 => one::<[usize; 9]>(stk, stage),
            _ => one::<A32<33>>(stk, stage),
        };
        stk.check(40);
        ckeq(STK.dropped(), 0, 41);
        k += 1;
    }
    drop(stk);
    ckeq(STK.dropped(), 1, 42);
    cover(1);
}
#[inline(never)]
fn one<C: Val>(stk: VStack, stage: usize) -> VStack {
    let c = C::any();
    let k = Box::new(c.dup());
    let kp = &*k as *const C as usize;
    let n = OBJ.dropped();
    let mut co = Coroutine::<usize, usize, C, VStack>::with_stack(stk, move |s, x| {
        let c = c;
        let _t = Tok::new(&OBJ, ());
        let y = s.suspend(!x);
        ckmem(&c, unsafe { &*(kp as *const C) }, 43);
        ckeq(s.suspend(y), !y, 44);
        c
    });
    let (x, y) = (any(), any());
    ck(matches!(co.resume(x), CoroutineResult::Yield(v) if v == !x), 45);
    ck(!co.done(), 46);
    match stage {
        2 => {
            ck(matches!(co.resume(y), CoroutineResult::Yield(v) if v == y), 47);
            match co.resume(!y) {
                CoroutineResult::Return(r) => ckmem(&r, &*k, 48),
                _ => ck(false, 49),
            }
            ckeq(OBJ.dropped(), n + 1, 50);
        }
        3 => unsafe { co.force_reset() },
        _ => {
            #[cfg(feature = "unwind")]
            co.force_unwind();
            ckeq(OBJ.dropped(), n + 1, 51);
        }
    }
    co.into_stack()
}

/// a borrowed stack is given back by just dropping the coroutine
fn borrowed() {
    let mut a = VStack::counted(16384, &STK);
    let stage = choice(3);
    let mut k = 0;
    while k < 3 {
        let stage = [0, 2, 3][(stage + k) % 3];
        let co = bring(&mut a, stage, 0);
        let w = stage >= 2 && choice(2) == 1;
        if w {
            let s = co.into_stack();
            ckeq(s.tail(), 0, 60);
        } else {
            drop(co);
        }
        ckeq(STK.dropped(), 0, 61);
        a.check(62);
        k += 1;
    }
    drop(a);
    ckeq(STK.dropped(), 1, 63);
    cover(1);
}
trait T0 { fn tail(&self) -> usize; }
impl T0 for VStack { fn tail(&self) -> usize { 0 } }

/// several owners; each takes its own stack with it
#[cfg(feature = "unwind")]
fn owners() {
    static A: Cnt = Cnt::new();
    static B_: Cnt = Cnt::new();
    let mut a = Coroutine::<usize, usize, usize, VStack>::with_stack(VStack::counted(65536, &A), |s, x| {
        // owns another one
        let mut b = Coroutine::<usize, usize, usize, VStack>::with_stack(VStack::counted(65536, &B_), |s, x| {
            let _t = Tok::new(&OBJ, ());
            s.suspend(x)
        });
        let r = b.resume(x);
        let _t = Tok::new(&CAP, ());
        s.suspend(if r == CoroutineResult::Yield(x) { x } else { !x });
        x
    });
    let x = any();
    ck(a.resume(x) == CoroutineResult::Yield(x), 70);
    ckeq(A.dropped() + B_.dropped(), 0, 71);
    let w = choice(3);
    match w {
        0 => drop(a),
        1 => { a.force_unwind(); ckeq(A.dropped(), 0, 72); ckeq(B_.dropped(), 1, 73); drop(a) }
        _ => { ck(a.resume(x) == CoroutineResult::Return(x), 74); ckeq(A.dropped(), 0, 75); ckeq(B_.dropped(), 1, 76); drop(a) }
    }
    ckeq(A.dropped(), 1, 77);
    ckeq(B_.dropped(), 1, 78);
    ck(CAP.last() < OBJ.last() && OBJ.last() < B_.last() && B_.last() < A.last(), 79);
    cover(w);
}

scenarios! {
    fn drop_small() { dropped::<0>(); }
    fn drop_rich() { dropped::<40>(); }
    #[cfg(feature = "unwind")]
    fn back_small() { handed_back::<0>(); }
    #[cfg(feature = "unwind")]
    fn back_rich() { handed_back::<70>(); }
    fn reuse2() { reuse(2); }
    fn reuse3() { reuse(3); }
    fn borrow() { borrowed(); }
    #[cfg(feature = "unwind")]
    fn own() { owners(); }
    /// without unwinding support: a refused into_stack never gives the stack away
    #[cfg(not(feature = "unwind"))]
    fn refused() {
        let stage = choice(2);
        let co = bring(Rich::<3>::new(65536), stage, 0);
        expect_abort(stage == 1);
        // dropping a suspended coroutine aborts, a fresh one is dropped
        let r = catch(move || co.into_stack());
        ckeq(stage, 0, 80);
        ck(r.is_err(), 81);
        ckeq(STK.dropped(), 1, 82);
        objects_gone(stage, 83);
        cover(1);
    }
}
