//! C06: what a closure captures arrives intact and is destroyed exactly once.
#![allow(static_mut_refs)]
use hx::*;

/// a captured object that knows what it should contain and counts its destruction
struct Cap<C: Val>(C, Box<C>, &'static Cnt);
impl<C: Val> Cap<C> {
    fn new(c: &'static Cnt) -> Self {
        let v = C::any();
        let k = Box::new(v.dup());
        c.new.set(c.made() + 1);
        Cap(v, k, c)
    }
    fn check(&self, id: usize) {
        ckmem(&self.0, &*self.1, id);
    }
}
impl<C: Val> Drop for Cap<C> {
    fn drop(&mut self) {
        self.check(90);
        self.2.drop_.set(self.2.dropped() + 1);
        self.2.order.set(tick());
    }
}
static mut RAN: usize = 0;
static CAP: Cnt = Cnt::new();
static CAP2: Cnt = Cnt::new();
static STK: Cnt = Cnt::new();

#[inline(never)]
fn one<C: Val>(size: usize) {
    let a = Cap::<C>::new(&CAP);
    let (w, wk) = { let x = any(); (x, Box::new(x)) };
    let b = Cap::<u8>::new(&CAP2);
    let st = VStack::counted(size, &STK);
    let mut co = Coroutine::<usize, usize, usize, VStack>::with_stack(st, move |s, x| {
        unsafe { RAN += 1 };
        a.check(1);
        ckeq(w, *wk, 2);
        b.check(3);
        let y = s.suspend(x);
        a.check(4);
        ckeq(w, *wk, 5);
        b.check(6);
        y
    });
    ckeq(CAP.dropped(), 0, 7);
    ckeq(STK.dropped(), 0, 8);
    match choice(5) {
        0 => {
            drop(co);
            ckeq(unsafe { RAN }, 0, 9);
            cover(1);
        }
        1 => {
            co.force_unwind();
            ck(co.done(), 10);
            ckeq(CAP.dropped(), 1, 11);
            ckeq(CAP2.dropped(), 1, 12);
            ckeq(STK.dropped(), 0, 13);
            ckeq(unsafe { RAN }, 0, 14);
            let r = catch(|| co.resume(0));
            ck(r.is_err(), 15);
            co.force_unwind();
            if choice(2) == 0 { drop(co) } else { drop(co.into_stack()) }
            cover(2);
        }
        2 => {
            // explicit reset: the capture is forgotten
            unsafe { co.force_reset() };
            drop(co);
            ckeq(CAP.dropped() + CAP2.dropped(), 0, 16);
            ckeq(STK.dropped(), 1, 17);
            ckeq(unsafe { RAN }, 0, 18);
            cover(3);
            return;
        }
        3 => {
            let x = any();
            ck(co.resume(x) == CoroutineResult::Yield(x), 20);
            ckeq(CAP.dropped(), 0, 21);
            ck(co.resume(x) == CoroutineResult::Return(x), 22);
            ckeq(CAP.dropped(), 1, 23);
            ckeq(CAP2.dropped(), 1, 24);
            drop(co);
            ckeq(unsafe { RAN }, 1, 25);
            cover(4);
        }
        _ => {
            if cfg!(feature = "unwind") {
                let x = any();
                ck(co.resume(x) == CoroutineResult::Yield(x), 30);
                if choice(2) == 0 { co.force_unwind() }
                drop(co);
                ckeq(unsafe { RAN }, 1, 31);
                cover(5);
            } else {
                drop(co);
            }
        }
    }
    ckeq(CAP.dropped(), 1, 40);
    ckeq(CAP2.dropped(), 1, 41);
    ckeq(STK.dropped(), 1, 42);
    ck(CAP.last() < STK.last() && CAP2.last() < STK.last(), 43);
}

/// the largest object that fits, and the smallest that does not
#[inline(never)]
fn limit<const N: usize>(fits: bool) {
    // a capture of exactly N bytes
    struct Exact<const N: usize>([u8; N]);
    impl<const N: usize> Drop for Exact<N> {
        fn drop(&mut self) {
            CAP.drop_.set(CAP.dropped() + 1);
            ckeq(self.0[N - 1] as usize, 0x5a, 50);
            ckeq(self.0[0] as usize, 0x5a, 51);
        }
    }
    let a = Exact::<N>([0x5a; N]);
    let st = VStack::counted(16384, &STK);
    let r = catch(move || {
        Coroutine::<(), (), usize, VStack>::with_stack(st, move |_, ()| {
            unsafe { RAN += 1 };
            let a = &a;
            a.0[N - 1] as usize
        })
    });
    ck(r.is_ok() == fits, 52);
    ckeq(CAP.dropped(), !fits as usize, 53);
    ckeq(STK.dropped(), !fits as usize, 54);
    if let Ok(mut co) = r {
        ck(co.resume(()) == CoroutineResult::Return(0x5a), 55);
        drop(co);
        cover(10);
    } else {
        ckeq(unsafe { RAN }, 0, 56);
        cover(11);
    }
    ckeq(CAP.dropped(), 1, 57);
    ckeq(STK.dropped(), 1, 58);
}
/// alignments: accepted ones work, the others are refused and everything is released
#[inline(never)]
fn align_limit<T: Val>(size: usize, fits: bool) {
    struct D<T>(#[allow(dead_code)] T);
    impl<T> Drop for D<T> {
        fn drop(&mut self) {
            CAP.drop_.set(CAP.dropped() + 1);
        }
    }
    let a = D(T::any());
    let st = VStack::counted(size, &STK);
    let r = catch(move || {
        Coroutine::<(), (), usize, VStack>::with_stack(st, move |_, ()| {
            unsafe { RAN += 1 };
            let _a = &a;
            7
        })
    });
    ck(r.is_ok() || !fits, 60);
    if r.is_err() {
        ckeq(unsafe { RAN }, 0, 61);
        cover(12);
    } else {
        cover(13);
    }
    ckeq(CAP.dropped(), r.is_err() as usize, 62);
    ckeq(STK.dropped(), r.is_err() as usize, 63);
    drop(r);
    ckeq(CAP.dropped(), 1, 64);
    ckeq(STK.dropped(), 1, 65);
}

macro_rules! pick { ($f:ident($($a:expr),*), $($t:ty),*) => {{
    let fs = pick!(@ $f, $($t),*);
    let k = choice(fs.len());
    fs[k]($($a),*)
}};
(@ $f:ident, $($t:ty),*) => { [$( $f::<$t> as fn(usize) ),*] } }

#[cfg(feature = "unwind")]
struct Boom(usize, &'static Cnt);
#[cfg(feature = "unwind")]
impl Drop for Boom {
    fn drop(&mut self) {
        self.1.drop_.set(self.1.dropped() + 1);
        if self.0 != 0 {
            throw(self.0)
        }
    }
}
#[repr(align(2048))] #[derive(Clone, Copy)] struct A2k;
#[repr(align(4096))] #[derive(Clone, Copy)] struct A4k;
#[repr(align(8192))] #[derive(Clone, Copy)] struct A8k;
unsafe impl Val for A2k {}
unsafe impl Val for A4k {}
unsafe impl Val for A8k {}

scenarios! {
    fn small() { pick!(one(16384), (), u8, u16, B<3>, u32, B<5>, B<7>, u64, B<9>, [usize; 2], B<15>, u128, B<17>); }
    fn medium() { pick!(one(16384), [usize; 3], [usize; 5], B<31>, B<33>, B<63>, B<100>, B<255>, [u16; 77]); }
    fn large() { pick!(one(32768), B<513>, B<800>, [u64; 110], [usize; 100]); }
    fn align_a() { pick!(one(32768), A16<0>, A16<1>, A16<16>, A32<1>, A32<40>, A64<0>, A64<64>); }
    fn align_b() { pick!(one(65536), A128<128>, A256<1>, A256<256>); }
    fn align_c() { pick!(one(65536), A512<0>); }
    fn limits() {
        match choice(8) {
            0 => limit::<1>(true),
            1 => limit::<1023>(true),
            2 => limit::<1024>(true),
            3 => limit::<1025>(false),
            4 => limit::<1040>(false),
            5 => limit::<2048>(false),
            6 => limit::<4096>(false),
            _ => limit::<1000>(true),
        }
    }
    fn align_limits() {
        match choice(6) {
            0 => align_limit::<A64<0>>(16384, true),
            1 => align_limit::<A512<0>>(16384, true),
            2 => align_limit::<A1024<0>>(16384, false),
            3 => align_limit::<A2k>(16384, false),
            4 => align_limit::<A4k>(4096, false),
            _ => align_limit::<A8k>(4096, false),
        }
    }
    /// destructors of captured objects that panic
    #[cfg(feature = "unwind")]
    fn boom() {
        let x = any();
        let y = any();
        let a = Boom(x, &CAP);
        let b = Boom(y, &CAP2);
        assume(x == 0 || y == 0);
        let st = VStack::counted(16384, &STK);
        let mut co = Coroutine::<(), (), (), VStack>::with_stack(st, move |_, ()| {
            unsafe { RAN += 1 };
            let _a = &a;
            let _b = &b;
        });
        let r = catch(|| co.force_unwind());
        match r {
            Ok(()) => { ck(x == 0 && y == 0, 1); cover(1) }
            Err(p) => {
                let v = *p.downcast::<usize>().unwrap();
                ckeq(v, if x != 0 { x } else { y }, 2);
                cover(2)
            }
        }
        ck(co.done(), 3);
        ckeq(CAP.dropped(), 1, 4);
        ckeq(CAP2.dropped(), 1, 5);
        ckeq(STK.dropped(), 0, 6);
        match choice(3) {
            0 => drop(co),
            1 => drop(co.into_stack()),
            _ => {
                co.force_unwind();
                ck(catch(|| co.resume(())).is_err(), 7);
                drop(co);
            }
        }
        ckeq(CAP.dropped(), 1, 8);
        ckeq(CAP2.dropped(), 1, 9);
        ckeq(STK.dropped(), 1, 10);
        ckeq(unsafe { RAN }, 0, 11);
        ck(!std::thread::panicking(), 12);
    }
    /// a body that moves its captures out, or panics while owning them
    #[cfg(feature = "unwind")]
    fn consumed() {
        let a = Cap::<B<20>>::new(&CAP);
        let b = Cap::<A32<32>>::new(&CAP2);
        static OUT: Cnt = Cnt::new();
        let t = Tok::new(&OUT, any());
        let how = choice(3);
        let mut co = Coroutine::<(), Tok<usize>, Cap<B<20>>, VStack>::with_stack(VStack::counted(32768, &STK), move |s, ()| {
            if how == 1 { s.suspend(t) } else { drop(t) }
            b.check(1);
            if how == 2 { throw(3usize) }
            drop(b);
            ckeq(CAP2.dropped(), 1, 2);
            a
        });
        if how == 1 {
            match co.resume(()) { CoroutineResult::Yield(t) => { ckeq(OUT.dropped(), 0, 3); drop(t) } _ => ck(false, 4) }
        }
        match catch(|| co.resume(())) {
            Ok(CoroutineResult::Return(a)) => { a.check(5); ckeq(CAP.dropped(), 0, 6); ck(how != 2, 7); cover(1) }
            Ok(_) => ck(false, 8),
            Err(_) => { ck(how == 2, 9); cover(2) }
        }
        ckeq(CAP.dropped(), 1, 10);
        ckeq(CAP2.dropped(), 1, 11);
        ckeq(OUT.dropped(), 1, 12);
        drop(co);
        ckeq(CAP.dropped() + CAP2.dropped() + OUT.dropped() + STK.dropped(), 4, 13);
    }
}
