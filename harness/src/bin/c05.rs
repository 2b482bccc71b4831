//! C05: user code starts on a correctly aligned stack, with aligned captures.
#![allow(static_mut_refs)]
use hx::*;

/// a captured object that checks where it lies when it is destroyed and when it is used
struct Al<C: Val>(C);
/// added to the ids of the assertions; a static, so that the closures capture nothing but the object
static mut ID: usize = 0;
fn id() -> usize {
    unsafe { ID }
}
impl<C: Val> Drop for Al<C> {
    #[inline(never)]
    fn drop(&mut self) {
        ck_align(self as *const Self, id());
        ck(aligned_call(), id() + 1);
    }
}
impl<C: Val> Al<C> {
    #[inline(never)]
    fn touch(&self) {
        ck_align(self as *const Self, id() + 2);
    }
}
#[inline(always)]
fn here(id: usize) {
    ck(aligned_call(), id)
}

/// body entry, code after a suspend, the rest of the body; unstarted drop shows the address in the stack
#[inline(never)]
fn body<C: Val>(stk: &mut VStack, n: usize) {
    unsafe { ID = n };
    let unstarted = choice(2) == 0;
    let a = Al(C::any());
    let mut co = Coroutine::<usize, usize, usize, &mut VStack>::with_stack(&mut *stk, move |s, x| {
        here(id() + 3);
        a.touch();
        let y = s.suspend(x);
        here(id() + 4);
        a.touch();
        y
    });
    if unstarted {
        co.force_unwind();
        cover(1);
    } else {
        let x = any();
        ck(co.resume(x) == CoroutineResult::Yield(x), id() + 5);
        ck(co.resume(x) == CoroutineResult::Return(x), id() + 6);
        cover(2);
    }
    drop(co);
    stk.check(id() + 7);
}
/// on_stack and on_parent_stack with captures and results of every shape
#[inline(never)]
fn calls<C: Val + Send>(stk: &mut VStack, n: usize) {
    unsafe { ID = n };
    let st = stk as *mut VStack;
    let a = Al(C::any());
    let r = on_stack(&mut *stk, move || {
        here(id() + 3);
        a.touch();
        C::any()
    });
    core::hint::black_box(&r);
    let mut co = Coroutine::<usize, usize, usize, &mut VStack>::with_stack(unsafe { &mut *st }, move |s, x| {
        let b = Al(C::any());
        let r = s.on_parent_stack(move || {
            here(id() + 4);
            b.touch();
            C::any()
        });
        here(id() + 5);
        core::hint::black_box(&r);
        let y = s.suspend(x);
        here(id() + 6);
        let b = Al(C::any());
        let r = s.on_parent_stack(move || {
            here(id() + 7);
            b.touch();
            C::any()
        });
        core::hint::black_box(&r);
        y
    });
    let x = any();
    ck(co.resume(x) == CoroutineResult::Yield(x), id() + 8);
    ck(co.resume(x) == CoroutineResult::Return(x), id() + 9);
    cover(3);
}

/// parents of every depth and frame alignment
#[inline(never)]
fn parents() {
    type Co = Coroutine<usize, usize, usize, VStack>;
    let mut co = Co::with_stack(VStack::new(16384), |s, mut x| {
        loop {
            here(1);
            let y = s.on_parent_stack(move || {
                here(2);
                x ^ 1
            });
            ckeq(y, x ^ 1, 3);
            here(4);
            x = s.suspend(x);
        }
    });
    #[inline(never)]
    fn f<const N: usize>(co: &mut Co, x: usize) -> usize {
        let l: [u8; N] = [x as u8; N];
        core::hint::black_box(&l);
        let r = co.resume(x);
        core::hint::black_box(&l);
        match r {
            CoroutineResult::Yield(v) => v,
            CoroutineResult::Return(_) => !x,
        }
    }
    #[inline(never)]
    fn g<T: Val>(co: &mut Co, x: usize) -> usize {
        let l = T::any();
        core::hint::black_box(&l);
        let r = f::<3>(co, x);
        core::hint::black_box(&l);
        r
    }
    /// no call besides the switch
    #[inline(never)]
    fn leaf(co: &mut Co, x: usize) -> usize {
        match co.resume(x) {
            CoroutineResult::Yield(v) => v,
            CoroutineResult::Return(_) => !x,
        }
    }
    let x = any();
    ckeq(f::<0>(&mut co, x), x, 5);
    ckeq(f::<1>(&mut co, x), x, 5);
    ckeq(f::<8>(&mut co, x), x, 5);
    ckeq(f::<12>(&mut co, x), x, 5);
    ckeq(f::<20>(&mut co, x), x, 5);
    ckeq(f::<100>(&mut co, x), x, 5);
    ckeq(g::<A32<32>>(&mut co, x), x, 5);
    ckeq(g::<A64<64>>(&mut co, x), x, 5);
    ckeq(leaf(&mut co, x), x, 5);
    // a suspended coroutine (resumed from another one's stack) as the parent
    let cp = &mut co as *mut Co as usize;
    let mut o = Co::with_stack(VStack::new(16384), move |_, x| {
        let co = unsafe { &mut *(cp as *mut Co) };
        here(6);
        ckeq(leaf(co, x), x, 7);
        on_stack(VStack::new(16384), || {
            here(8);
            ckeq(f::<40>(co, x), x, 9);
        });
        x
    });
    ck(o.resume(x) == CoroutineResult::Return(x), 10);
    unsafe { co.force_reset() };
    cover(4);
}

// ---------------------------------------------------------------- recovery closures
static mut TH: Option<CoroutineTrapHandler<usize>> = None;
static mut SETUP: Option<fn(&CoroutineTrapHandler<usize>) -> TrapHandlerRegs> = None;
unsafe extern "C" fn on_trap(ctx: *mut usize) {
    let r = (SETUP.unwrap())(TH.as_ref().unwrap());
    set_ctx(ctx, &r);
}
fn setup<C: Val>(h: &CoroutineTrapHandler<usize>) -> TrapHandlerRegs {
    let a = Al(C::any());
    unsafe {
        h.setup_trap_handler(move || {
            here(103);
            a.touch();
            7
        })
    }
}
#[inline(never)]
fn trap<C: Val>(stk: &mut VStack) {
    unsafe { ID = 100 };
    unsafe { TRAP_HANDLER = Some(on_trap) };
    let lim = stk.limit;
    let mut co = Coroutine::<usize, usize, usize, &mut VStack>::with_stack(&mut *stk, move |s, x| {
        let x = s.suspend(x);
        trap_now(lim + 1024 + (x & 1023))
    });
    unsafe {
        TH = Some(co.trap_handler());
        SETUP = Some(setup::<C>);
    }
    let x = any();
    ck(co.resume(x) == CoroutineResult::Yield(x), 120);
    ck(co.resume(x) == CoroutineResult::Return(7), 121);
    ck(co.done(), 122);
    drop(co);
    stk.check(123);
    cover(5);
}

macro_rules! each { ($f:ident($a:expr), $($t:ty),*) => {{ let mut i = 0; $( $f::<$t>($a, i); i += 20; )* let _ = i; }} }
/// one of the types on every path
macro_rules! pick { ($f:ident($a:expr), $($t:ty),*) => {{
    let fs: &[fn(&mut VStack, usize)] = &[$( $f::<$t> ),*];
    let k = choice(fs.len());
    fs[k]($a, 20 * k)
}} }
scenarios! {
    fn plain() {
        let mut s = VStack::new(16384);
        pick!(body(&mut s), (), u8, u16, B<3>, u32, u64, B<7>, [usize; 2], B<17>, B<24>, B<25>, u128);
    }
    fn sizes() {
        let mut s = VStack::new(32768);
        pick!(body(&mut s), B<1>, B<2>, B<4>, B<5>, B<6>, B<8>, B<9>, B<10>, B<11>, B<12>, B<13>, B<14>, B<15>, B<16>, B<18>, B<20>, B<31>, B<33>, B<47>, B<64>, B<100>, B<255>, B<513>, B<1000>);
    }
    fn over_a() {
        let mut s = VStack::new(32768);
        pick!(body(&mut s), A16<0>, A16<5>, A16<16>, A32<0>, A32<1>, A32<32>, A64<0>, A64<70>);
    }
    fn over_b() {
        let mut s = VStack::new(65536);
        pick!(body(&mut s), A128<0>, A128<100>, A256<0>, A256<300>, A256<700>);
    }
    fn over_c() {
        let mut s = VStack::new(65536);
        pick!(body(&mut s), A512<0>, A512<10>, A1024<0>, A1024<1>, A1024<1024>);
    }
    fn calls_a() {
        let mut s = VStack::new(32768);
        each!(calls(&mut s), (), u8, B<3>, usize, B<17>, [usize; 9], A16<16>, A32<32>, A64<64>);
    }
    fn calls_b() {
        let mut s = VStack::new(65536);
        each!(calls(&mut s), A256<10>, A1024<0>);
    }
    fn parent() { parents(); }
    fn traps() {
        let mut s = VStack::new(32768);
        trap::<()>(&mut s);
        trap::<u8>(&mut s);
        trap::<B<3>>(&mut s);
        trap::<usize>(&mut s);
        trap::<B<17>>(&mut s);
        trap::<[usize; 5]>(&mut s);
        trap::<A16<16>>(&mut s);
        trap::<A32<32>>(&mut s);
        trap::<A64<64>>(&mut s);
        trap::<A256<0>>(&mut s);
    }
}
