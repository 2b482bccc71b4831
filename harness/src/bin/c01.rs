//! C01: values cross a switch bit-exact, exactly once and in order.
#![allow(static_mut_refs)]
use core::num::NonZeroU8;
use hx::*;

/// two suspensions, values of types I, Y, R with arbitrary content
#[inline(never)]
fn xfer<I: Val, Y: Val, R: Val>(id: usize) {
    xfer_on::<I, Y, R>(&mut VStack::new(65536), id)
}
#[inline(never)]
fn xfer_on<I: Val, Y: Val, R: Val>(st: &mut VStack, id: usize) {
    let i: [I; 3] = [I::any(), I::any(), I::any()];
    let y: [Y; 2] = [Y::any(), Y::any()];
    let r = R::any();
    let (ic, yc, rc) = ([i[0].dup(), i[1].dup(), i[2].dup()], [y[0].dup(), y[1].dup()], r.dup());
    let ip = &ic as *const [I; 3];
    let yp = &yc as *const [Y; 2];
    let rp = &rc as *const R;
    let mut co = Coroutine::<I, Y, R, &mut VStack>::with_stack(st, move |s, a| {
        let ic = unsafe { &*ip };
        let yc = unsafe { &*yp };
        ckmem(&a, &ic[0], id);
        let b = s.suspend(yc[0].dup());
        ckmem(&b, &ic[1], id + 1);
        let c = s.suspend(yc[1].dup());
        ckmem(&c, &ic[2], id + 2);
        unsafe { (*rp).dup() }
    });
    let [i0, i1, i2] = i;
    match co.resume(i0) {
        CoroutineResult::Yield(v) => ckmem(&v, &y[0], id + 3),
        _ => ck(false, id + 4),
    }
    match co.resume(i1) {
        CoroutineResult::Yield(v) => ckmem(&v, &y[1], id + 5),
        _ => ck(false, id + 6),
    }
    match co.resume(i2) {
        CoroutineResult::Return(v) => ckmem(&v, &r, id + 7),
        _ => ck(false, id + 8),
    }
    cover(id);
}
macro_rules! sizes {
    ($($n:literal)*) => { $( xfer::<B<$n>, B<$n>, B<$n>>(1000 + 10 * $n); )* };
}
macro_rules! aligns {
    ($($t:ident)*) => { $(
        let mut st = VStack::new(32768);
        xfer_on::<$t<0>, $t<0>, $t<0>>(&mut st, 100);
        xfer_on::<$t<1>, $t<1>, $t<1>>(&mut st, 110);
        xfer_on::<$t<70>, $t<70>, $t<70>>(&mut st, 120);
    )* };
}

/// values with ownership: each is dropped by its final owner only
#[inline(never)]
fn owned<T: 'static + Copy, U: 'static + Copy, V: 'static + Copy>(t: T, u: U, v: V, id: usize)
where
    T: PartialEq,
{
    let (ci, cy, cr) = (leak_cnt(), leak_cnt(), leak_cnt());
    let mut co = Coroutine::<Tok<T>, Tok<U>, Tok<V>, VStack>::with_stack(VStack::new(16384), move |s, a: Tok<T>| {
        ckeq(ci.dropped(), 0, id);
        let b = s.suspend(Tok::new(cy, u));
        ckeq(ci.dropped(), 0, id + 1);
        drop(a);
        ckeq(ci.dropped(), 1, id + 2);
        let k = s.suspend(Tok::new(cy, u));
        drop(k);
        ckeq(ci.dropped(), 2, id + 3);
        let _keep = b;
        Tok::new(cr, v)
    });
    let y1 = co.resume(Tok::new(ci, t)).as_yield().unwrap();
    ckeq(cy.dropped(), 0, id + 4);
    ckmem(&y1.v, &u, id + 5);
    let y2 = co.resume(Tok::new(ci, t)).as_yield().unwrap();
    ckeq(cy.dropped(), 0, id + 6);
    ckmem(&y2.v, &u, id + 7);
    drop(y1);
    ckeq(cy.dropped(), 1, id + 8);
    let r = co.resume(Tok::new(ci, t)).as_return().unwrap();
    ckeq(ci.dropped(), 3, id + 9);
    ckeq(ci.made(), 3, id + 10);
    ckeq(cr.dropped(), 0, id + 11);
    ckmem(&r.v, &v, id + 12);
    drop(co);
    ckeq(cr.dropped(), 0, id + 13);
    drop(r);
    ckeq(cr.dropped(), 1, id + 14);
    drop(y2);
    ckeq(cy.dropped(), 2, id + 15);
    ckeq(cy.made(), 2, id + 16);
    cover(id);
}

static ZN: Cnt = Cnt::new();
/// a zero-sized value with a destructor
struct Zst;
impl Zst {
    fn new() -> Zst {
        ZN.new.set(ZN.new.get() + 1);
        Zst
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        ZN.drop_.set(ZN.drop_.get() + 1);
    }
}

/// a one byte value with a destructor
struct Byte(u8);
static BN: Cnt = Cnt::new();
impl Drop for Byte {
    fn drop(&mut self) {
        BN.drop_.set(BN.drop_.get() + 1);
        BN.order.set(self.0 as usize);
    }
}

#[derive(Clone, Copy, PartialEq)]
#[repr(C)]
struct Padded {
    a: u8,
    b: u32,
    c: u8,
    d: u64,
    e: u16,
}

#[inline(never)]
fn deep(s: &Yielder<usize, [usize; 3]>, n: usize, v: &[usize; 3]) -> usize {
    let pad = [v[0], v[1], v[2], n];
    if n == 0 {
        return s.suspend(*v);
    }
    let r = deep(s, n - 1, v);
    let q = unsafe { core::ptr::read_volatile(&pad) };
    ckeq(q[0], v[0], 90);
    ckeq(q[3], n, 91);
    r
}

/// resumes from a deeper frame of the resumer
#[inline(never)]
fn resume_deep(co: &mut Coroutine<usize, [usize; 3], usize, VStack>, n: usize, v: usize) -> CoroutineResult<[usize; 3], usize> {
    let pad = [v ^ n; 5];
    if n == 0 {
        return co.resume(v);
    }
    let r = resume_deep(co, n - 1, v);
    ckeq(unsafe { core::ptr::read_volatile(&pad) }[4], v ^ n, 92);
    r
}

/// n suspensions (0..=max) of a running total with arbitrary inputs; every value depends on all previous ones
#[inline(never)]
fn history(max: usize) {
    let n = choice(max + 1);
    let mut co = Coroutine::<usize, (usize, usize), [usize; 3], VStack>::with_stack(VStack::new(16384), move |s, a| {
        let mut acc = a;
        let mut k = 0;
        while k < n {
            let x = s.suspend((acc, k));
            acc = acc.rotate_left(5) ^ x;
            k += 1;
        }
        [acc, k, !acc]
    });
    let mut acc = 0;
    let mut k = 0;
    loop {
        let x = any();
        acc = if k == 0 { x } else { acc.rotate_left(5) ^ x };
        match co.resume(x) {
            CoroutineResult::Yield((a, j)) => {
                ck(k < n, 80);
                ckeq(a, acc, 81);
                ckeq(j, k, 82);
            }
            CoroutineResult::Return([a, j, b]) => {
                ckeq(k, n, 83);
                ckeq(a, acc, 84);
                ckeq(j, n, 85);
                ckeq(b, !acc, 86);
                break;
            }
        }
        k += 1;
    }
    ck(co.done(), 87);
    cover(80 + n);
}

fn leak_cnt() -> &'static Cnt {
    Box::leak(Box::new(Cnt::new()))
}

/// the exchange is cut short: values that were handed over stay with their owner, values on the stack die once
#[cfg(feature = "unwind")]
#[inline(never)]
fn cut<T: 'static + Copy + PartialEq, U: 'static + Copy + PartialEq>(t: [T; 3], u: [U; 3], id: usize) {
    let (ci, cy, cr) = (leak_cnt(), leak_cnt(), leak_cnt());
    let n = choice(3);
    let how = choice(6);
    let mut co = Coroutine::<Tok<T>, Tok<U>, Tok<U>, VStack>::with_stack(VStack::new(65536), move |s, a: Tok<T>| {
        let mut held = a;
        let mut k = 0;
        loop {
            let y = Tok::new(cy, u[k]);
            if how >= 4 && k == n {
                // the unwind is swallowed here
                let r = catch(|| s.suspend(y));
                ck(r.is_err(), id);
                ckeq(cy.dropped(), 0, id + 1);
                if how == 4 {
                    held = s.suspend(Tok::new(cr, u[0]));
                    continue;
                }
                return Tok::new(cr, u[0]);
            }
            let b = s.suspend(y);
            ckmem(&b.v, &t[k + 1 - (k == 2) as usize], id + 2);
            if how == 3 && k == n {
                return throw(b.c as *const Cnt as usize);
            }
            held = b;
            k += 1;
            if k == 3 {
                drop(held);
                return Tok::new(cr, u[1]);
            }
        }
    });
    let mut got: [Option<Tok<U>>; 3] = [None, None, None];
    let mut k = 0;
    while k <= n {
        let y = co.resume(Tok::new(ci, t[k])).as_yield().unwrap();
        ckmem(&y.v, &u[k], id + 3);
        got[k] = Some(y);
        k += 1;
    }
    ckeq(ci.dropped(), n, id + 4);
    ckeq(cy.dropped(), 0, id + 5);
    match how {
        0 => co.force_unwind(),
        1 | 2 => drop(co),
        3 => {
            ck(catch(|| co.resume(Tok::new(ci, t[n + 1 - (n == 2) as usize]))).is_err(), id + 6);
            ck(co.done(), id + 7);
        }
        4 => {
            ck(catch(|| co.force_unwind()).is_err(), id + 8);
            ck(!co.done(), id + 9);
            ckeq(cr.made(), 1, id + 10);
            ckeq(cr.dropped(), 1, id + 11);
            co.force_unwind();
            ck(co.done(), id + 12);
        }
        _ => {
            ck(catch(|| co.force_unwind()).is_err(), id + 13);
            ck(co.done(), id + 14);
            ckeq(cr.made(), 1, id + 15);
            ckeq(cr.dropped(), 1, id + 16);
        }
    }
    // everything that went in is gone, everything that came out is still alive and intact
    ckeq(ci.made(), n + 1 + (how == 3) as usize, id + 17);
    ckeq(ci.dropped(), ci.made(), id + 18);
    ckeq(cy.made(), n + 1, id + 19);
    ckeq(cy.dropped(), 0, id + 20);
    k = 0;
    while k <= n {
        ckmem(&got[k].as_ref().unwrap().v, &u[k], id + 21);
        k += 1;
    }
    drop(got);
    ckeq(cy.dropped(), n + 1, id + 22);
    cover(200 + how * 3 + n);
}
scenarios! {
    #[cfg(feature = "unwind")]
    fn cut_word() { cut::<usize, usize>([any(), any(), any()], [any(), any(), any()], 300); }
    #[cfg(feature = "unwind")]
    fn cut_zst() { cut::<(), ()>([(); 3], [(); 3], 400); }
    #[cfg(feature = "unwind")]
    fn cut_big() { let v = [any(); 4]; let w = [any(); 9]; cut([v, [v[1] ^ 5; 4], v], [w, [w[0] ^ 1; 9], w], 500); }
    fn words() {
        xfer::<usize, usize, usize>(100);
        xfer::<u32, u64, u128>(200);
        xfer::<u16, u8, ()>(300);
        xfer::<[usize; 4], (), usize>(400);
        xfer::<(), [usize; 9], ()>(500);
    }
    fn small() {
        sizes!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17);
        xfer::<B<3>, B<9>, B<7>>(2000);
        xfer::<B<9>, B<3>, B<16>>(2100);
        xfer::<B<8>, B<4>, B<12>>(2200);
    }
    fn medium() {
        sizes!(20 24 25 31 32 33 40 48 63 64 65 100);
    }
    fn large() {
        sizes!(127 128 129 255 256 257 511);
    }
    fn huge() {
        xfer::<B<1023>, B<1024>, B<1025>>(100);
        xfer::<B<1>, B<1500>, B<0>>(200);
        xfer::<B<1300>, B<2>, B<1200>>(300);
    }
    fn allsizes() {
        sizes!(18 19 21 22 23 26 27 28 29 30 34 35 36 37 38 39 41 42 43 44 45 46 47 49 50 51 52 53 54 55 56 57 58 59 60 61 62);
    }
    fn align() { aligns!(A2 A4 A8 A16 A32); }
    fn align64() { aligns!(A64 A128); }
    fn align256() { aligns!(A256); }
    fn align512() { aligns!(A512); }
    fn align1024() { aligns!(A1024); }
    fn ownership() {
        owned(any(), any(), any(), 100);
        owned((), (), (), 200);
        owned(any() as u8, [any(); 3], any() as u16, 300);
        owned([any(); 7], any() as u8, [any(); 5], 400);
    }
    fn tiny_owned() {
        let mut co = Coroutine::<Zst, Byte, Zst, VStack>::with_stack(VStack::new(8192), |s, a| {
            let v = 7;
            let b = s.suspend(Byte(v));
            ckeq(ZN.dropped(), 0, 10);
            drop(a);
            ckeq(ZN.dropped(), 1, 11);
            b
        });
        let y = co.resume(Zst::new()).as_yield().unwrap();
        ckeq(BN.dropped(), 0, 12);
        ckeq(y.0 as usize, 7, 13);
        drop(y);
        ckeq(BN.dropped(), 1, 14);
        ckeq(BN.last(), 7, 15);
        let r = co.resume(Zst::new()).as_return().unwrap();
        ckeq(ZN.dropped(), 1, 16);
        drop(co);
        ckeq(ZN.dropped(), 1, 17);
        drop(r);
        ckeq(ZN.dropped(), 2, 18);
        ckeq(ZN.made(), 2, 19);
        cover(1);
    }
    fn layouts() {
        // enums, niches, floats, references, padding
        let x = any();
        let f = f64::from_bits(any() as u64);
        let o = if choice(2) == 0 { None } else { NonZeroU8::new(x as u8) };
        let p = Padded { a: any() as u8, b: any() as u32, c: any() as u8, d: any() as u64, e: any() as u16 };
        static S: usize = 5;
        let st: &'static usize = &S;
        let mut co = Coroutine::<Option<NonZeroU8>, f64, Result<Padded, &'static str>, VStack>::with_stack(VStack::new(8192), move |s, a| {
            ck(a == o, 10);
            let b = s.suspend(f);
            ck(b == o, 11);
            let c = s.suspend(-f);
            ck(c == o, 12);
            if x & 1 == 0 { Ok(p) } else { Err("text") }
        });
        ckeq(co.resume(o).as_yield().unwrap().to_bits() as usize, f.to_bits() as usize, 13);
        ckeq(co.resume(o).as_yield().unwrap().to_bits() as usize, (-f).to_bits() as usize, 14);
        match co.resume(o).as_return() {
            Some(Ok(q)) => { ck(x & 1 == 0, 15); ck(q == p, 16); cover(2) }
            Some(Err(t)) => { ck(x & 1 == 1, 17); ck(t == "text", 18); cover(3) }
            None => ck(false, 19),
        }
        let mut c2 = Coroutine::<&'static usize, bool, char, VStack>::with_stack(VStack::new(8192), move |s, a| {
            ck(core::ptr::eq(a, st), 20);
            s.suspend(x & 2 == 0);
            if x & 4 == 0 { 'x' } else { '\u{1f600}' }
        });
        ck(c2.resume(st).as_yield() == Some(x & 2 == 0), 21);
        ck(c2.resume(st).as_return() == Some(if x & 4 == 0 { 'x' } else { '\u{1f600}' }), 22);
    }
    fn depth() {
        let v = [any(), any(), any()];
        let (d, e) = (choice(3), choice(3));
        let w = any();
        let mut co = Coroutine::<usize, [usize; 3], usize, VStack>::with_stack(VStack::new(16384), move |s, a| {
            let x = deep(s, d, &[v[0], v[1], a]);
            let y = deep(s, 0, &[x, v[2], v[1]]);
            x ^ y
        });
        let (a, x, y) = (any(), any(), any());
        let r = resume_deep(&mut co, e, a).as_yield().unwrap();
        ckeq(r[0], v[0], 1); ckeq(r[1], v[1], 2); ckeq(r[2], a, 3);
        log(w);
        let r = resume_deep(&mut co, 2 - e, x).as_yield().unwrap();
        ckeq(r[0], x, 4); ckeq(r[1], v[2], 5); ckeq(r[2], v[1], 6);
        ckeq(resume_deep(&mut co, e, y).as_return().unwrap(), x ^ y, 7);
        cover(100 + d * 3 + e);
    }
    fn hist() { history(4); }
    fn hist_long() { history(24); }
}
